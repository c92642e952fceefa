From e5df6df6408b673d6fb35b9679e27a340ed24f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 01/75] fix: honour the exclusion of all lines (tag "!**") in
 file inclusions

---
 pkg/types/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index d75f6d7..c053f56 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -3398,7 +3398,7 @@ func (tr TagRanges) Match(line int, currentRanges CurrentRanges) bool {
 	// compare with expected tag ranges
 	for _, t := range tr {
 		if t.Name == "**" {
-			match = true
+			match = t.Included
 			continue
 		}
 		for n, r := range currentRanges {
-- 
2.43.0


From 3dafd4ebd1668a51205ae2f7cf2c81c67c023e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 02/75] fix: do not panic on an end tag without start tag in an
 included file

---
 pkg/parser/document_preprocessing.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index d748195..b00c0f3 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -409,7 +409,9 @@ func readWithinTags(path string, scanner *bufio.Scanner, content *strings.Builde
 			}
 		}
 		if endTag, ok := fl.GetEndTag(); ok {
-			currentRanges[endTag.Value].EndLine = lineNumber
+			if r, found := currentRanges[endTag.Value]; found { // ignore if there was no corresponding start tag
+				r.EndLine = lineNumber
+			}
 		}
 		if expectedRanges.Match(lineNumber, currentRanges) && !fl.HasTag() {
 			_, err := content.Write(scanner.Bytes())
-- 
2.43.0


From 3b3d4fbbe61bd227ef8c75d4a3b3cf7466e35cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:48 +0000
Subject: [PATCH 03/75] fix: support '<=' and '>=' in ifeval conditions

---
 pkg/parser/parser.go  | 32 ++++++++++++++++----------------
 pkg/parser/parser.peg | 10 +++++-----
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 9d89b05..9625dfe 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -995,19 +995,19 @@ var g = &grammar{
 																run: (*parser).callonDocumentRawLine198,
 																expr: &litMatcher{
 																	pos:        position{line: 106, col: 8, offset: 3009},
-																	val:        "<",
+																	val:        "<=",
 																	ignoreCase: false,
-																	want:       "\"<\"",
+																	want:       "\"<=\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 109, col: 8, offset: 3071},
+																pos: position{line: 109, col: 8, offset: 3075},
 																run: (*parser).callonDocumentRawLine200,
 																expr: &litMatcher{
-																	pos:        position{line: 109, col: 8, offset: 3071},
-																	val:        "<=",
+																	pos:        position{line: 109, col: 8, offset: 3075},
+																	val:        "<",
 																	ignoreCase: false,
-																	want:       "\"<=\"",
+																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
@@ -1015,19 +1015,19 @@ var g = &grammar{
 																run: (*parser).callonDocumentRawLine202,
 																expr: &litMatcher{
 																	pos:        position{line: 112, col: 8, offset: 3137},
-																	val:        ">",
+																	val:        ">=",
 																	ignoreCase: false,
-																	want:       "\">\"",
+																	want:       "\">=\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 115, col: 8, offset: 3202},
+																pos: position{line: 115, col: 8, offset: 3206},
 																run: (*parser).callonDocumentRawLine204,
 																expr: &litMatcher{
-																	pos:        position{line: 115, col: 8, offset: 3202},
-																	val:        ">=",
+																	pos:        position{line: 115, col: 8, offset: 3206},
+																	val:        ">",
 																	ignoreCase: false,
-																	want:       "\">=\"",
+																	want:       "\">\"",
 																},
 															},
 														},
@@ -47791,7 +47791,7 @@ func (p *parser) callonDocumentRawLine196() (interface{}, error) {
 }
 
 func (c *current) onDocumentRawLine198() (interface{}, error) {
-	return types.NewLessThanOperand()
+	return types.NewLessOrEqualOperand()
 
 }
 
@@ -47802,7 +47802,7 @@ func (p *parser) callonDocumentRawLine198() (interface{}, error) {
 }
 
 func (c *current) onDocumentRawLine200() (interface{}, error) {
-	return types.NewLessOrEqualOperand()
+	return types.NewLessThanOperand()
 
 }
 
@@ -47813,7 +47813,7 @@ func (p *parser) callonDocumentRawLine200() (interface{}, error) {
 }
 
 func (c *current) onDocumentRawLine202() (interface{}, error) {
-	return types.NewGreaterThanOperand()
+	return types.NewGreaterOrEqualOperand()
 
 }
 
@@ -47824,7 +47824,7 @@ func (p *parser) callonDocumentRawLine202() (interface{}, error) {
 }
 
 func (c *current) onDocumentRawLine204() (interface{}, error) {
-	return types.NewGreaterOrEqualOperand()
+	return types.NewGreaterThanOperand()
 
 }
 
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index f63b127..42efae4 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -103,18 +103,18 @@ IfevalExpressionOperand <-
     / ("!=" {
         return types.NewNotEqualOperand()
     })
-    / ("<" {
-        return types.NewLessThanOperand()
-    })
     / ("<=" {
         return types.NewLessOrEqualOperand()
     })
-    / (">" {
-        return types.NewGreaterThanOperand()
+    / ("<" {
+        return types.NewLessThanOperand()
     })
     / (">=" {
         return types.NewGreaterOrEqualOperand()
     })
+    / (">" {
+        return types.NewGreaterThanOperand()
+    })
 
 IfevalExpressionValue <- 
     Number
-- 
2.43.0


From edc29ba8d9d9a75a6e21078c043044cd23df1097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 04/75] fix: ignore declarations, inclusions and delimiters
 within excluded conditional content

---
 pkg/parser/document_preprocessing.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index b00c0f3..5ec8622 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -43,6 +43,14 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 			// if log.IsLevelEnabled(log.DebugLevel) {
 			// 	log.Debugf("checking element of type '%T'", element)
 			// }
+			if !b.enabled {
+				// only look for conditionals while the content is excluded by an enclosing condition
+				switch element.(type) {
+				case types.ConditionalInclusion, *types.EndOfCondition:
+				default:
+					continue
+				}
+			}
 			switch e := element.(type) {
 			case *types.AttributeDeclaration:
 				ctx.attributes.set(e.Name, e.Value)
-- 
2.43.0


From a2a7b00e99235cd388f9e4d4526664b90303d799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 05/75] fix: report a source that cannot be read instead of
 dropping the rest of it

---
 pkg/parser/document_preprocessing.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 5ec8622..202e887 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -85,6 +85,9 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 			}
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return "", errors.Wrap(err, "failed to read the source")
+	}
 	return b.String(), nil
 }
 
-- 
2.43.0


From e8b6046c6b2775ae3b9946512701050e9e65e5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 06/75] fix: apply level offsets to the headings that follow a
 verbatim block with delimiter-like lines

---
 pkg/parser/document_preprocessing.go | 12 ++++++++++++
 pkg/parser/parser.go                 | 20 ++++++++++----------
 pkg/parser/parser.peg                |  2 +-
 3 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 202e887..87ea0ad 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -111,6 +111,8 @@ func (t *blockDelimiterTracker) track(kind string, length int) {
 	case len(t.stack) > 0 && t.stack[len(t.stack)-1].kind == kind && t.stack[len(t.stack)-1].length == length:
 		// pop
 		t.stack = t.stack[:len(t.stack)-1]
+	case len(t.stack) > 0 && isVerbatim(t.stack[len(t.stack)-1].kind):
+		// ignore: within a verbatim block, only the matching delimiter is relevant
 	default:
 		// push
 		t.stack = append(t.stack, blockDelimiter{
@@ -120,6 +122,16 @@ func (t *blockDelimiterTracker) track(kind string, length int) {
 	}
 }
 
+// isVerbatim returns true if the content of the blocks of the given kind is not parsed in search of other blocks
+func isVerbatim(kind string) bool {
+	switch kind {
+	case types.Comment, types.Fenced, types.Listing, types.Literal, types.Passthrough:
+		return true
+	default:
+		return false
+	}
+}
+
 func (t *blockDelimiterTracker) withinDelimitedBlock() Option {
 	return GlobalStore(withinDelimitedBlockKey, len(t.stack) > 0)
 }
diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 9625dfe..f782fe1 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -48409,7 +48409,7 @@ func (p *parser) callonDocumentRawLine446() (interface{}, error) {
 
 func (c *current) onDocumentRawLine434(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -50750,7 +50750,7 @@ func (p *parser) callonDocumentFragment539() (interface{}, error) {
 
 func (c *current) onDocumentFragment527(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -50808,7 +50808,7 @@ func (p *parser) callonDocumentFragment567() (interface{}, error) {
 
 func (c *current) onDocumentFragment555(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -50912,7 +50912,7 @@ func (p *parser) callonDocumentFragment611() (interface{}, error) {
 
 func (c *current) onDocumentFragment599(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -62349,7 +62349,7 @@ func (p *parser) callonExtraListElement733() (interface{}, error) {
 
 func (c *current) onExtraListElement721(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -64454,7 +64454,7 @@ func (p *parser) callonListContinuationElement754() (interface{}, error) {
 
 func (c *current) onListContinuationElement742(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -64512,7 +64512,7 @@ func (p *parser) callonListContinuationElement782() (interface{}, error) {
 
 func (c *current) onListContinuationElement770(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -64616,7 +64616,7 @@ func (p *parser) callonListContinuationElement826() (interface{}, error) {
 
 func (c *current) onListContinuationElement814(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -67015,7 +67015,7 @@ func (p *parser) callonListContinuationElement1826() (interface{}, error) {
 
 func (c *current) onListContinuationElement1814(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -67768,7 +67768,7 @@ func (p *parser) callonShortcutParagraph188() (interface{}, error) {
 
 func (c *current) onShortcutParagraph176(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 42efae4..db35d33 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -783,7 +783,7 @@ LiteralBlockDelimiter <-
     delimiter:("...." "."* { // sequence of 4 "." chars or more
         return string(c.text), nil
     }) Space* EOL { 
-        return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+        return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
     }
 
 PassthroughBlockDelimiter <- 
-- 
2.43.0


From d7c35a12f4846e0236f967dcb1d674352d5216ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:59 +0000
Subject: [PATCH 07/75] fix: do not panic on (or alter the title of) a heading
 when applying a level offset

---
 pkg/types/types.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index c053f56..6edc6aa 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2428,8 +2428,12 @@ func NewRawSection(level int, rawText string) (*RawSection, error) {
 }
 
 func (s *RawSection) OffsetLevel(offset int) {
-	s.RawText = strings.Replace(s.RawText, strings.Repeat("=", s.Level+1)+" ", strings.Repeat("=", s.Level+1+offset)+" ", 1)
-	s.Level = s.Level + offset
+	level := s.Level + offset
+	if level < 0 { // there's nothing above level 0
+		level = 0
+	}
+	s.RawText = strings.Repeat("=", level+1) + strings.TrimLeft(s.RawText, "=")
+	s.Level = level
 }
 
 func (s *RawSection) Stringify() string {
-- 
2.43.0


From 0d48046bd309192ea8019c7708bf936b68dad734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 08/75] fix: support references to attributes declared without
 a value

---
 pkg/parser/document_processing_apply_substitutions.go |  4 ++++
 pkg/renderer/sgml/paragraph.go                        |  2 ++
 pkg/types/types.go                                    | 10 ++++++++++
 3 files changed, 16 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 61a53e0..5580a0b 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -554,6 +554,8 @@ func valueForAttributeRef(ctx *ParseContext, a *types.AttributeReference) (inter
 		return "{" + a.Name + "}", false, nil
 	}
 	switch v := v.(type) {
+	case nil: // attribute was declared without a value
+		return "", true, nil
 	case []interface{}:
 		s, err := sgml.RenderPlainText(v)
 		return s, true, err
@@ -657,6 +659,8 @@ func serialize(content interface{}) ([]byte, *placeholders, error) {
 	}
 	placeholders := newPlaceholders()
 	switch content := content.(type) {
+	case nil:
+		return nil, placeholders, nil
 	case string:
 		return []byte(content), placeholders, nil
 	case []interface{}:
diff --git a/pkg/renderer/sgml/paragraph.go b/pkg/renderer/sgml/paragraph.go
index 6c7ad27..70ea177 100644
--- a/pkg/renderer/sgml/paragraph.go
+++ b/pkg/renderer/sgml/paragraph.go
@@ -137,6 +137,8 @@ func (r *sgmlRenderer) renderElementTitle(ctx *context, attrs types.Attributes)
 		return "", nil
 	}
 	switch title := title.(type) {
+	case nil: // eg: when the title was a reference to an attribute without a value
+		return "", nil
 	case string:
 		return title, nil
 	case []interface{}:
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 6edc6aa..dc9a998 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2488,6 +2488,10 @@ func (s *Section) SetTitle(title []interface{}) {
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("setting section title: %s", spew.Sdump(title))
 	}
+	if len(title) == 0 { // eg: when the title was a reference to an attribute without a value
+		s.Title = []interface{}{}
+		return
+	}
 	// inline ID attribute foud at the end is *moved* at the attributes level of the section
 	if id, ok := title[len(title)-1].(*Attribute); ok {
 		sectionID := stringify(id.Value)
@@ -3029,6 +3033,9 @@ func (c *IfevalCondition) Eval(attributes map[string]interface{}) bool {
 func (c *IfevalCondition) left(attributes map[string]interface{}) interface{} {
 	if s, ok := c.Left.(*AttributeReference); ok {
 		if v, found := attributes[s.Name]; found {
+			if v == nil { // attribute was declared without a value
+				return ""
+			}
 			return v
 		}
 	}
@@ -3038,6 +3045,9 @@ func (c *IfevalCondition) left(attributes map[string]interface{}) interface{} {
 func (c *IfevalCondition) right(attributes map[string]interface{}) interface{} {
 	if s, ok := c.Right.(*AttributeReference); ok {
 		if v, found := attributes[s.Name]; found {
+			if v == nil { // attribute was declared without a value
+				return ""
+			}
 			return v
 		}
 	}
-- 
2.43.0


From b84e29c38fe59d088735e665a9d8edfbc0a4b926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:30 +0000
Subject: [PATCH 09/75] fix: keep the caller's attributes over the document's
 own during rendering, and leave them unaltered

---
 libasciidoc.go                |  6 +++++-
 pkg/renderer/sgml/context.go  | 37 ++++++++++++++++++++++++++++-------
 pkg/renderer/sgml/elements.go |  6 +++---
 pkg/renderer/sgml/sgml.go     |  8 ++++----
 4 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/libasciidoc.go b/libasciidoc.go
index 91de0a4..a047bcb 100644
--- a/libasciidoc.go
+++ b/libasciidoc.go
@@ -79,7 +79,11 @@ func Convert(source io.Reader, output io.Writer, config *configuration.Configura
 	if len(problems) > 0 {
 		// if any problem found, change the doctype to render the document as a regular article
 		log.Warnf("changing doctype to 'article' because problems were found in the document: %v", problems)
-		config.Attributes[types.AttrDocType] = "article" // switch to `article` rendering (in case it was a manpage with problems)
+		// (without altering the caller's own configuration)
+		c := *config
+		c.Attributes = config.Attributes.Clone()
+		c.Attributes[types.AttrDocType] = "article" // switch to `article` rendering (in case it was a manpage with problems)
+		config = &c
 		for _, problem := range problems {
 			switch problem.Severity {
 			case validator.Error:
diff --git a/pkg/renderer/sgml/context.go b/pkg/renderer/sgml/context.go
index e284204..a275020 100644
--- a/pkg/renderer/sgml/context.go
+++ b/pkg/renderer/sgml/context.go
@@ -24,29 +24,52 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 	ctx := &context{
 		config:            config,
 		counters:          make(map[string]int),
-		attributes:        config.Attributes,
+		attributes:        config.Attributes.Clone(), // the caller's own attributes must remain unchanged
 		elementReferences: doc.ElementReferences,
 		hasHeader:         header != nil,
 	}
 	// TODO: add other attributes from https://docs.asciidoctor.org/asciidoc/latest/attributes/document-attributes-ref/#builtin-attributes-i18n
-	ctx.attributes[types.AttrFigureCaption] = "Figure"
-	ctx.attributes[types.AttrExampleCaption] = "Example"
-	ctx.attributes[types.AttrTableCaption] = "Table"
-	ctx.attributes[types.AttrVersionLabel] = "version"
+	ctx.setAttribute(types.AttrFigureCaption, "Figure")
+	ctx.setAttribute(types.AttrExampleCaption, "Example")
+	ctx.setAttribute(types.AttrTableCaption, "Table")
+	ctx.setAttribute(types.AttrVersionLabel, "version")
 	// also, expand authors and revision
 	if header != nil {
 		if authors := header.Authors(); authors != nil {
-			ctx.attributes.AddAll(authors.Expand())
+			ctx.setAttributes(authors.Expand())
 		}
 
 		if revision := header.Revision(); revision != nil {
-			ctx.attributes.AddAll(revision.Expand())
+			ctx.setAttributes(revision.Expand())
 
 		}
 	}
 	return ctx
 }
 
+// setAttribute sets the value of the given attribute, unless the caller already provided one
+func (ctx *context) setAttribute(name string, value interface{}) {
+	if ctx.config.Attributes.Has(name) {
+		return
+	}
+	ctx.attributes[name] = value
+}
+
+// setAttributes sets the values of the given attributes, except for those already provided by the caller
+func (ctx *context) setAttributes(attrs types.Attributes) {
+	for name, value := range attrs {
+		ctx.setAttribute(name, value)
+	}
+}
+
+// unsetAttribute removes the given attribute, unless it was provided by the caller
+func (ctx *context) unsetAttribute(name string) {
+	if ctx.config.Attributes.Has(name) {
+		return
+	}
+	delete(ctx.attributes, name)
+}
+
 func (ctx *context) UseUnicode() bool {
 	return ctx.attributes.GetAsBoolWithDefault(types.AttrUnicode, true)
 }
diff --git a/pkg/renderer/sgml/elements.go b/pkg/renderer/sgml/elements.go
index c03a25e..ad9ff86 100644
--- a/pkg/renderer/sgml/elements.go
+++ b/pkg/renderer/sgml/elements.go
@@ -103,13 +103,13 @@ func (r *sgmlRenderer) renderElement(ctx *context, element interface{}) (string,
 	case *types.PredefinedAttribute:
 		return r.renderPredefinedAttribute(e)
 	case *types.AttributeDeclaration:
-		ctx.attributes[e.Name] = e.Value
+		ctx.setAttribute(e.Name, e.Value)
 		return "", nil
 	case *types.AttributeReset:
-		delete(ctx.attributes, e.Name)
+		ctx.unsetAttribute(e.Name)
 		return "", nil
 	case *types.FrontMatter:
-		ctx.attributes.AddAll(e.Attributes)
+		ctx.setAttributes(e.Attributes)
 		return "", nil
 	default:
 		return "", errors.Errorf("unsupported type of element: %T", element)
diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index 04a604b..b68f053 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -53,9 +53,9 @@ func Render(doc *types.Document, config *configuration.Configuration, output io.
 		for _, e := range header.Elements {
 			switch e := e.(type) {
 			case *types.AttributeDeclaration:
-				ctx.attributes[e.Name] = e.Value
+				ctx.setAttribute(e.Name, e.Value)
 			case *types.AttributeReset:
-				delete(ctx.attributes, e.Name)
+				ctx.unsetAttribute(e.Name)
 			}
 		}
 	}
@@ -64,9 +64,9 @@ elements:
 	for _, e := range doc.Elements {
 		switch e := e.(type) {
 		case *types.AttributeDeclaration:
-			ctx.attributes[e.Name] = e.Value
+			ctx.setAttribute(e.Name, e.Value)
 		case *types.AttributeReset:
-			delete(ctx.attributes, e.Name)
+			ctx.unsetAttribute(e.Name)
 		default:
 			break elements
 		}
-- 
2.43.0


From 361056964099d525b868fee9de2853fbc328ff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 10/75] fix: support attribute references in the content of
 footnotes

---
 pkg/parser/document_processing_apply_substitutions.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 5580a0b..1b5aca7 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -489,6 +489,12 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 			if err := e.SetElements(elmts); err != nil {
 				return nil, err
 			}
+		case *types.Footnote:
+			elmts, err := replaceAttributeRefsInElementsAndReparse(ctx, e.Elements, subs, opts...)
+			if err != nil {
+				return nil, err
+			}
+			e.Elements = elmts
 		case types.WithLocation: // if `subs=macros,attributes`, then replace within inline macros
 			// in attributes
 			if err := replaceAttributeRefsInAttributeValues(ctx, e.GetAttributes()); err != nil {
-- 
2.43.0


From 982837d7b25aa549e71e0ce85d004dee959bc7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 11/75] fix: do not count example blocks without a title

---
 pkg/renderer/sgml/delimited_block_example.go | 26 +++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pkg/renderer/sgml/delimited_block_example.go b/pkg/renderer/sgml/delimited_block_example.go
index d0f5be7..bb4306c 100644
--- a/pkg/renderer/sgml/delimited_block_example.go
+++ b/pkg/renderer/sgml/delimited_block_example.go
@@ -21,24 +21,26 @@ func (r *sgmlRenderer) renderExampleBlock(ctx *context, b *types.DelimitedBlock)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render example block roles")
 	}
-	c, found := b.Attributes.GetAsString(types.AttrCaption)
-	if !found {
-		c, found = ctx.attributes.GetAsString(types.AttrExampleCaption)
-		if found && c != "" {
-			c += " {counter:example-number}. "
+	caption := &strings.Builder{}
+	if b.Attributes.Has(types.AttrTitle) { // blocks without a title are not captioned (nor counted)
+		c, found := b.Attributes.GetAsString(types.AttrCaption)
+		if !found {
+			c, found = ctx.attributes.GetAsString(types.AttrExampleCaption)
+			if found && c != "" {
+				c += " {counter:example-number}. "
+			}
 		}
-	}
-	// TODO: Replace this hack when we have attribute substitution fully working
-	if strings.Contains(c, "{counter:example-number}") {
-		number = ctx.GetAndIncrementExampleBlockCounter()
-		c = strings.ReplaceAll(c, "{counter:example-number}", strconv.Itoa(number))
+		// TODO: Replace this hack when we have attribute substitution fully working
+		if strings.Contains(c, "{counter:example-number}") {
+			number = ctx.GetAndIncrementExampleBlockCounter()
+			c = strings.ReplaceAll(c, "{counter:example-number}", strconv.Itoa(number))
+		}
+		caption.WriteString(c)
 	}
 	title, err := r.renderElementTitle(ctx, b.Attributes)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render example block title")
 	}
-	caption := &strings.Builder{}
-	caption.WriteString(c)
 	return r.execute(r.exampleBlock, struct {
 		Context       *context
 		ID            string
-- 
2.43.0


From 54c92286c2a87e517833e22c8944eb33433eae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:14 +0000
Subject: [PATCH 12/75] fix: do not panic when an email address is declared
 without (or before) an author

---
 pkg/types/types.go | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index dc9a998..dd9e5b3 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -317,40 +317,36 @@ func NewDocumentHeader(title []interface{}, ar interface{}, extraAttrs []interfa
 }
 
 func (h *DocumentHeader) Authors() DocumentAuthors {
-	var result DocumentAuthors
-elements:
+	var result *DocumentAuthor
+	email := ""
 	for _, e := range h.Elements {
 		if e, ok := e.(*AttributeDeclaration); ok {
 			switch e.Name {
 			case AttrAuthors:
 				if authors, ok := e.Value.(DocumentAuthors); ok {
-					result = authors
-					break elements
+					return authors
 				}
 			case AttrEmail:
-				if email, ok := e.Value.(string); ok {
-					if result == nil {
-						result = DocumentAuthors{
-							&DocumentAuthor{},
-						}
-					}
-					result[0].Email = email
+				if v, ok := e.Value.(string); ok {
+					email = v
 				}
 			case AttrAuthor:
 				if author, ok := e.Value.(string); ok {
-					if result == nil {
-						result = DocumentAuthors{
-							&DocumentAuthor{
-								DocumentAuthorFullName: &DocumentAuthorFullName{},
-							},
-						}
+					result = &DocumentAuthor{
+						DocumentAuthorFullName: &DocumentAuthorFullName{
+							FirstName: author,
+						},
 					}
-					result[0].DocumentAuthorFullName.FirstName = author
 				}
 			}
 		}
 	}
-	return result
+	if result == nil {
+		return nil
+	}
+	// the email address may be declared before or after the author
+	result.Email = email
+	return DocumentAuthors{result}
 }
 
 func (h *DocumentHeader) Revision() *DocumentRevision {
-- 
2.43.0


From 023e09bea7d9571c7e4cc91647367f170ce4b4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:00 +0000
Subject: [PATCH 13/75] fix: collect footnotes wherever they occur

Footnotes in quoted text, delimited blocks, tables, attached list blocks and
titles were not replaced with references, and the rendering of the document
failed. Also, a mark without a name nor a content does not refer to the first
unnamed footnote anymore.
---
 pkg/types/attributes.go |  14 ++++
 pkg/types/types.go      | 158 +++++++++++++++++++++++++++++-----------
 2 files changed, 129 insertions(+), 43 deletions(-)

diff --git a/pkg/types/attributes.go b/pkg/types/attributes.go
index 2a89e9d..0afb476 100644
--- a/pkg/types/attributes.go
+++ b/pkg/types/attributes.go
@@ -546,3 +546,17 @@ func (a Attributes) GetAsStringWithDefault(key, defaultValue string) string {
 	}
 	return defaultValue
 }
+
+// substituteFootnotes replaces the footnotes in the values which may contain inline macros (eg: the title)
+func (a Attributes) substituteFootnotes(notes *Footnotes) {
+	for _, name := range []string{AttrTitle, AttrXRefLabel} {
+		switch v := a[name].(type) {
+		case []interface{}:
+			substituteFootnotes(v, notes)
+		case *Footnote:
+			a[name] = notes.Reference(v)
+		case WithFootnotes:
+			v.SubstituteFootnotes(notes)
+		}
+	}
+}
diff --git a/pkg/types/types.go b/pkg/types/types.go
index dd9e5b3..09632c9 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -316,6 +316,14 @@ func NewDocumentHeader(title []interface{}, ar interface{}, extraAttrs []interfa
 	return header, nil
 }
 
+var _ WithFootnotes = &DocumentHeader{}
+
+// SubstituteFootnotes replaces the footnotes in the document title
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (h *DocumentHeader) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotes(h.Title, notes)
+}
+
 func (h *DocumentHeader) Authors() DocumentAuthors {
 	var result *DocumentAuthor
 	email := ""
@@ -969,14 +977,7 @@ var _ WithFootnotes = &ListElements{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (l *ListElements) SubstituteFootnotes(notes *Footnotes) {
-	for _, e := range l.Elements {
-		if e, ok := e.(WithFootnotes); ok {
-			if log.IsLevelEnabled(log.DebugLevel) {
-				log.Debugf("collecting footnotes in element of type '%T'", e)
-			}
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	substituteFootnotes(l.Elements, notes)
 }
 
 type ListKind string
@@ -1020,6 +1021,16 @@ func NewListContinuation(offset int, Element interface{}) (*ListContinuation, er
 	}, nil
 }
 
+var _ WithFootnotes = &ListContinuation{}
+
+// SubstituteFootnotes replaces the footnotes in the attached element
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (c *ListContinuation) SubstituteFootnotes(notes *Footnotes) {
+	if e, ok := c.Element.(WithFootnotes); ok {
+		e.SubstituteFootnotes(notes)
+	}
+}
+
 var _ WithElementAddition = &ListContinuation{}
 
 func (c *ListContinuation) AddElement(element interface{}) error {
@@ -1143,11 +1154,8 @@ var _ WithFootnotes = &CalloutListElement{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (e *CalloutListElement) SubstituteFootnotes(notes *Footnotes) {
-	for _, e := range e.Elements {
-		if e, ok := e.(WithFootnotes); ok {
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	e.Attributes.substituteFootnotes(notes)
+	substituteFootnotes(e.Elements, notes)
 }
 
 const (
@@ -1276,11 +1284,8 @@ var _ WithFootnotes = &OrderedListElement{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (e *OrderedListElement) SubstituteFootnotes(notes *Footnotes) {
-	for _, e := range e.Elements {
-		if e, ok := e.(WithFootnotes); ok {
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	e.Attributes.substituteFootnotes(notes)
+	substituteFootnotes(e.Elements, notes)
 }
 
 // OrderedListElementPrefix the prefix used to construct an OrderedListElement
@@ -1442,11 +1447,8 @@ var _ WithFootnotes = &UnorderedListElement{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (e *UnorderedListElement) SubstituteFootnotes(notes *Footnotes) {
-	for _, e := range e.Elements {
-		if e, ok := e.(WithFootnotes); ok {
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	e.Attributes.substituteFootnotes(notes)
+	substituteFootnotes(e.Elements, notes)
 }
 
 // UnorderedListElementCheckStyle the check style that applies on an unordered list item
@@ -1706,16 +1708,9 @@ var _ WithFootnotes = &LabeledListElement{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (e *LabeledListElement) SubstituteFootnotes(notes *Footnotes) {
-	for i, element := range e.Term {
-		if note, ok := element.(*Footnote); ok {
-			e.Term[i] = notes.Reference(note)
-		}
-	}
-	for _, element := range e.Elements {
-		if e, ok := element.(WithFootnotes); ok {
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	e.Attributes.substituteFootnotes(notes)
+	substituteFootnotes(e.Term, notes)
+	substituteFootnotes(e.Elements, notes)
 }
 
 // ------------------------------------------
@@ -1822,11 +1817,8 @@ var _ WithFootnotes = &Paragraph{}
 // SubstituteFootnotes replaces the footnotes in the paragraph lines
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (p *Paragraph) SubstituteFootnotes(notes *Footnotes) {
-	for i, element := range p.Elements {
-		if note, ok := element.(*Footnote); ok {
-			p.Elements[i] = notes.Reference(note)
-		}
-	}
+	p.Attributes.substituteFootnotes(notes)
+	substituteFootnotes(p.Elements, notes)
 }
 
 // ------------------------------------------
@@ -1928,6 +1920,14 @@ func NewExternalCrossReference(location *Location, attributes interface{}) (*Ext
 	}, nil
 }
 
+var _ WithFootnotes = &ExternalCrossReference{}
+
+// SubstituteFootnotes replaces the footnotes in the label
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (x *ExternalCrossReference) SubstituteFootnotes(notes *Footnotes) {
+	x.Attributes.substituteFootnotes(notes)
+}
+
 var _ WithLocation = &ExternalCrossReference{}
 
 func (x *ExternalCrossReference) GetLocation() *Location {
@@ -2018,6 +2018,14 @@ func NewImageBlock(location *Location, inlineAttributes Attributes) (*ImageBlock
 	}, nil
 }
 
+var _ WithFootnotes = &ImageBlock{}
+
+// SubstituteFootnotes replaces the footnotes in the image title
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (i *ImageBlock) SubstituteFootnotes(notes *Footnotes) {
+	i.Attributes.substituteFootnotes(notes)
+}
+
 var _ WithAttributes = &ImageBlock{}
 
 // GetAttributes returns this element's attributes
@@ -2161,6 +2169,18 @@ type WithFootnotes interface {
 	SubstituteFootnotes(existing *Footnotes)
 }
 
+// substituteFootnotes replaces the footnotes in the given elements with footnote references
+func substituteFootnotes(elements []interface{}, notes *Footnotes) {
+	for i, element := range elements {
+		switch e := element.(type) {
+		case *Footnote:
+			elements[i] = notes.Reference(e)
+		case WithFootnotes:
+			e.SubstituteFootnotes(notes)
+		}
+	}
+}
+
 // Footnotes the footnotes of a document. Footnotes are "collected"
 // during the parsing phase and displayed at the bottom of the document
 // during the rendering.
@@ -2179,6 +2199,9 @@ func NewFootnotes() *Footnotes {
 
 // IndexOf returns the index of the given note in the footnotes.
 func (f *Footnotes) indexOf(actual *Footnote) (int, bool) {
+	if actual.Ref == "" { // there is nothing to look for
+		return -1, false
+	}
 	for _, note := range f.Notes {
 		if note.Ref == actual.Ref {
 			return note.ID, true
@@ -2202,6 +2225,7 @@ func (f *Footnotes) Reference(note *Footnote) *FootnoteReference {
 		note.ID = f.sequence.nextVal()
 		f.Notes = append(f.Notes, note)
 		r.ID = note.ID
+		substituteFootnotes(note.Elements, f) // the content may be "rich"
 	} else if id, found := f.indexOf(note); found {
 		r.ID = id
 		r.Duplicate = true
@@ -2406,6 +2430,15 @@ func (b *DelimitedBlock) Reference(refs ElementReferences) {
 	}
 }
 
+var _ WithFootnotes = &DelimitedBlock{}
+
+// SubstituteFootnotes replaces the footnotes in the delimited block
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (b *DelimitedBlock) SubstituteFootnotes(notes *Footnotes) {
+	b.Attributes.substituteFootnotes(notes)
+	substituteFootnotes(b.Elements, notes)
+}
+
 // ------------------------------------------
 // Sections
 // ------------------------------------------
@@ -2588,11 +2621,8 @@ var _ WithFootnotes = &Section{}
 // SubstituteFootnotes replaces the footnotes in the section title
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (s *Section) SubstituteFootnotes(notes *Footnotes) {
-	for i, element := range s.Title {
-		if note, ok := element.(*Footnote); ok {
-			s.Title[i] = notes.Reference(note)
-		}
-	}
+	s.Attributes.substituteFootnotes(notes)
+	substituteFootnotes(s.Title, notes)
 }
 
 // ------------------------------------------
@@ -2811,6 +2841,14 @@ func (t *QuotedText) WithAttributes(attributes interface{}) (*QuotedText, error)
 	return t, nil
 }
 
+var _ WithFootnotes = &QuotedText{}
+
+// SubstituteFootnotes replaces the footnotes in the quoted text
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (t *QuotedText) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotes(t.Elements, notes)
+}
+
 // -------------------------------------------------------
 // Escaped Quoted Text (i.e., with substitution preserved)
 // -------------------------------------------------------
@@ -3643,6 +3681,14 @@ func NewIndexTerm(term []interface{}) (*IndexTerm, error) {
 	}, nil
 }
 
+var _ WithFootnotes = &IndexTerm{}
+
+// SubstituteFootnotes replaces the footnotes in the term
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (t *IndexTerm) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotes(t.Term, notes)
+}
+
 // ConcealedIndexTerm a concealed index term, with 1 required and 2 optional terms
 type ConcealedIndexTerm struct {
 	Term1 interface{}
@@ -3831,6 +3877,32 @@ func (t *Table) SetAttributes(attributes Attributes) {
 	t.reorganizeRows()
 }
 
+var _ WithFootnotes = &Table{}
+
+// SubstituteFootnotes replaces the footnotes in the table
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (t *Table) SubstituteFootnotes(notes *Footnotes) {
+	t.Attributes.substituteFootnotes(notes)
+	for _, row := range t.allRows() {
+		for _, cell := range row.Cells {
+			substituteFootnotes(cell.Elements, notes)
+		}
+	}
+}
+
+// allRows returns the rows of the table (including its header and footer)
+func (t *Table) allRows() []*TableRow {
+	rows := make([]*TableRow, 0, len(t.Rows)+2)
+	if t.Header != nil {
+		rows = append(rows, t.Header)
+	}
+	rows = append(rows, t.Rows...)
+	if t.Footer != nil {
+		rows = append(rows, t.Footer)
+	}
+	return rows
+}
+
 func (t *Table) reorganizeRows() {
 	// if `header` option, then make sure that the first row is the header
 	if t.Header == nil && len(t.Rows) > 0 && t.Attributes.HasOption("header") {
-- 
2.43.0


From 7f7c7720e54e089035989454b7b9685ce5393274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:54 +0000
Subject: [PATCH 14/75] fix: keep section ids distinct, and resolve references
 to sections wherever they occur

---
 pkg/parser/document_processing.go           | 10 +++++-
 pkg/parser/document_processing_aggregate.go | 39 ++++++++++++++++++---
 pkg/types/document_xrefs.go                 | 24 +++++++++++++
 pkg/types/types.go                          | 24 ++++++-------
 4 files changed, 80 insertions(+), 17 deletions(-)

diff --git a/pkg/parser/document_processing.go b/pkg/parser/document_processing.go
index acd86a1..820bd48 100644
--- a/pkg/parser/document_processing.go
+++ b/pkg/parser/document_processing.go
@@ -18,7 +18,8 @@ func ParseDocument(r io.Reader, config *configuration.Configuration, opts ...Opt
 	defer close(done)
 
 	footnotes := types.NewFootnotes()
-	doc, err := Aggregate(NewParseContext(config, opts...),
+	ctx := NewParseContext(config, opts...)
+	doc, err := Aggregate(ctx,
 		// SplitHeader(done,
 		FilterOut(done,
 			ArrangeLists(done,
@@ -38,6 +39,13 @@ func ParseDocument(r io.Reader, config *configuration.Configuration, opts ...Opt
 	}
 	if len(footnotes.Notes) > 0 {
 		doc.Footnotes = footnotes.Notes
+		if len(doc.ElementReferences) > 0 {
+			for _, note := range footnotes.Notes {
+				if err := resolveCrossReferencesInElements(note.Elements, ctx.attributes); err != nil {
+					return nil, err
+				}
+			}
+		}
 	}
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("parsed document:\n%s", spew.Sdump(doc))
diff --git a/pkg/parser/document_processing_aggregate.go b/pkg/parser/document_processing_aggregate.go
index effabce..3be3cd6 100644
--- a/pkg/parser/document_processing_aggregate.go
+++ b/pkg/parser/document_processing_aggregate.go
@@ -112,13 +112,35 @@ func resolveCrossReferences(element interface{}, attrs *contextAttributes) error
 	// if log.IsLevelEnabled(log.DebugLevel) {
 	// 	log.Debugf("resolving cross references in element of type '%T'", element)
 	// }
-	switch e := element.(type) {
-	case types.WithElements:
-		for _, elmt := range e.GetElements() {
-			if err := resolveCrossReferences(elmt, attrs); err != nil {
+	if e, ok := element.(types.WithAttributes); ok {
+		if title, ok := e.GetAttributes()[types.AttrTitle].([]interface{}); ok {
+			if err := resolveCrossReferencesInElements(title, attrs); err != nil {
 				return err
 			}
 		}
+	}
+	switch e := element.(type) {
+	case *types.Section:
+		if err := resolveCrossReferencesInElements(e.Title, attrs); err != nil {
+			return err
+		}
+		return resolveCrossReferencesInElements(e.Elements, attrs)
+	case *types.LabeledListElement:
+		if err := resolveCrossReferencesInElements(e.Term, attrs); err != nil {
+			return err
+		}
+		return resolveCrossReferencesInElements(e.Elements, attrs)
+	case *types.Table:
+		for _, row := range []*types.TableRow{e.Header, e.Footer} {
+			if row != nil {
+				if err := resolveCrossReferencesInElements(row.GetElements(), attrs); err != nil {
+					return err
+				}
+			}
+		}
+		return resolveCrossReferencesInElements(e.GetElements(), attrs)
+	case types.WithElements:
+		return resolveCrossReferencesInElements(e.GetElements(), attrs)
 	case *types.InternalCrossReference:
 		if err := e.ResolveID(attrs.allAttributes()); err != nil {
 			return err
@@ -127,6 +149,15 @@ func resolveCrossReferences(element interface{}, attrs *contextAttributes) error
 	return nil
 }
 
+func resolveCrossReferencesInElements(elements []interface{}, attrs *contextAttributes) error {
+	for _, e := range elements {
+		if err := resolveCrossReferences(e, attrs); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 type aggregator []types.WithElementAddition
 
 func (a *aggregator) append(e interface{}) error {
diff --git a/pkg/types/document_xrefs.go b/pkg/types/document_xrefs.go
index 4b807d6..a0b9a24 100644
--- a/pkg/types/document_xrefs.go
+++ b/pkg/types/document_xrefs.go
@@ -1,6 +1,30 @@
 package types
 
+import (
+	"strings"
+)
+
 // ElementReferences the element references in the document
 type ElementReferences map[string]interface{}
 
 // ElementReferencesCollector the visitor that traverses the whole document structure in search for elements with an ID
+
+// add registers the title of the element with the given ID, unless this ID is already in use
+// (in which case the ID still refers to the first element)
+func (r ElementReferences) add(id string, title interface{}) {
+	if _, exists := r[id]; !exists {
+		r[id] = title
+	}
+}
+
+// inUse checks if there is an element with the given ID already. The case does not matter,
+// since the IDs of the sections are rendered in lower case.
+func (r ElementReferences) inUse(id string) bool {
+	id = strings.ToLower(id)
+	for other := range r {
+		if strings.ToLower(other) == id {
+			return true
+		}
+	}
+	return false
+}
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 09632c9..f72e20e 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -873,7 +873,7 @@ func (l *List) Reference(refs ElementReferences) {
 	id := l.Attributes.GetAsStringWithDefault(AttrID, "")
 	title := l.Attributes[AttrTitle]
 	if id != "" && title != nil {
-		refs[id] = title
+		refs.add(id, title)
 	}
 	// also, visit elements
 	for _, e := range l.Elements {
@@ -1084,7 +1084,7 @@ func (e *CalloutListElement) Reference(refs ElementReferences) {
 	id := e.Attributes.GetAsStringWithDefault(AttrID, "")
 	title := e.Attributes[AttrTitle]
 	if id != "" && title != nil {
-		refs[id] = title
+		refs.add(id, title)
 	}
 	// also, visit elements
 	for _, e := range e.Elements {
@@ -1202,7 +1202,7 @@ func (e *OrderedListElement) Reference(refs ElementReferences) {
 	id := e.Attributes.GetAsStringWithDefault(AttrID, "")
 	title := e.Attributes[AttrTitle]
 	if id != "" && title != nil {
-		refs[id] = title
+		refs.add(id, title)
 	}
 	// also, visit elements
 	for _, e := range e.Elements {
@@ -1341,7 +1341,7 @@ func (e *UnorderedListElement) Reference(refs ElementReferences) {
 	id := e.Attributes.GetAsStringWithDefault(AttrID, "")
 	title := e.Attributes[AttrTitle]
 	if id != "" && title != nil {
-		refs[id] = title
+		refs.add(id, title)
 	}
 	// also, visit elements
 	for _, e := range e.Elements {
@@ -1615,13 +1615,13 @@ func (e *LabeledListElement) Reference(refs ElementReferences) {
 	id := e.Attributes.GetAsStringWithDefault(AttrID, "")
 	title := e.Attributes[AttrTitle]
 	if id != "" && title != nil {
-		refs[id] = title
+		refs.add(id, title)
 	}
 	// also, visit the term
 	if len(e.Term) > 0 {
 		if anchor, ok := e.Term[0].(*InlineLink); ok {
 			if id := anchor.Attributes.GetAsStringWithDefault(AttrID, ""); id != "" {
-				refs[id] = e.Term[1:]
+				refs.add(id, e.Term[1:])
 			}
 		}
 	}
@@ -1808,7 +1808,7 @@ func (p *Paragraph) Reference(refs ElementReferences) {
 	id := p.Attributes.GetAsStringWithDefault(AttrID, "")
 	title := p.Attributes[AttrTitle]
 	if id != "" && title != nil {
-		refs[id] = title
+		refs.add(id, title)
 	}
 }
 
@@ -2055,7 +2055,7 @@ func (i *ImageBlock) Reference(refs ElementReferences) {
 	id := i.Attributes.GetAsStringWithDefault(AttrID, "")
 	title := i.Attributes.GetAsStringWithDefault(AttrTitle, "")
 	if id != "" && title != "" {
-		refs[id] = title
+		refs.add(id, title)
 	}
 }
 
@@ -2420,7 +2420,7 @@ func (b *DelimitedBlock) Reference(refs ElementReferences) {
 	id := b.Attributes.GetAsStringWithDefault(AttrID, "")
 	title := b.Attributes[AttrTitle]
 	if id != "" && title != nil {
-		refs[id] = title
+		refs.add(id, title)
 	}
 	// also, visit elements
 	for _, e := range b.Elements {
@@ -2570,7 +2570,7 @@ func (s *Section) ResolveID(attrs Attributes, refs ElementReferences) error {
 			id = base + "_" + strconv.Itoa(i)
 			log.Debugf("updated section id to '%s' (to avoid duplicate refs)", s.Attributes[AttrID])
 		}
-		if _, exists := refs[id]; !exists {
+		if !refs.inUse(id) {
 			s.Attributes[AttrID] = id
 			break
 		}
@@ -2604,7 +2604,7 @@ var _ Referencable = &Section{}
 func (s *Section) Reference(refs ElementReferences) {
 	id := s.Attributes.GetAsStringWithDefault(AttrID, "")
 	if id != "" && s.Title != nil {
-		refs[id] = s.Title
+		refs.add(id, s.Title)
 	}
 }
 
@@ -3962,7 +3962,7 @@ func (t *Table) Reference(refs ElementReferences) {
 	id := t.Attributes.GetAsStringWithDefault(AttrID, "")
 	title := t.Attributes[AttrTitle]
 	if id != "" && title != nil {
-		refs[id] = title
+		refs.add(id, title)
 	}
 	// also, traverse all cells to find referencable content
 	if t.Header != nil {
-- 
2.43.0


From a155829900273551c5dbaea6112b8dc1e05ecb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:43 +0000
Subject: [PATCH 15/75] fix: find the target of a cross reference by the id
 which is rendered

---
 pkg/renderer/sgml/cross_reference.go |  2 +-
 pkg/types/document_xrefs.go          | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/cross_reference.go b/pkg/renderer/sgml/cross_reference.go
index bfaa767..eb4a773 100644
--- a/pkg/renderer/sgml/cross_reference.go
+++ b/pkg/renderer/sgml/cross_reference.go
@@ -22,7 +22,7 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 	}
 	if xrefLabel, ok := xref.Label.(string); ok {
 		label = xrefLabel
-	} else if target, found := ctx.elementReferences[xrefID]; found {
+	} else if target, found := ctx.elementReferences.Get(xrefID); found {
 		switch t := target.(type) {
 		case string:
 			label = t
diff --git a/pkg/types/document_xrefs.go b/pkg/types/document_xrefs.go
index a0b9a24..f038061 100644
--- a/pkg/types/document_xrefs.go
+++ b/pkg/types/document_xrefs.go
@@ -28,3 +28,19 @@ func (r ElementReferences) inUse(id string) bool {
 	}
 	return false
 }
+
+// Get returns the title of the element with the given ID. If there is none, then the case of the ID
+// does not matter (see above).
+func (r ElementReferences) Get(id string) (interface{}, bool) {
+	if title, found := r[id]; found {
+		return title, true
+	}
+	match, found := "", false
+	id = strings.ToLower(id)
+	for other := range r {
+		if strings.ToLower(other) == id && (!found || other < match) {
+			match, found = other, true
+		}
+	}
+	return r[match], found
+}
-- 
2.43.0


From c9e465aa111fa1d7b8e4e7935689b7b3d2f14a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:49 +0000
Subject: [PATCH 16/75] fix: compare ids without regard to case when
 registering references

An id which only differs by its case from one which is already in use
must not hide the first element: references are resolved without regard
to case.
---
 pkg/types/document_xrefs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/types/document_xrefs.go b/pkg/types/document_xrefs.go
index f038061..e0e29bd 100644
--- a/pkg/types/document_xrefs.go
+++ b/pkg/types/document_xrefs.go
@@ -12,7 +12,7 @@ type ElementReferences map[string]interface{}
 // add registers the title of the element with the given ID, unless this ID is already in use
 // (in which case the ID still refers to the first element)
 func (r ElementReferences) add(id string, title interface{}) {
-	if _, exists := r[id]; !exists {
+	if !r.inUse(id) {
 		r[id] = title
 	}
 }
-- 
2.43.0


From d9018e5345f0179a04e0801a57552f8b413b9152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:53 +0000
Subject: [PATCH 17/75] fix: parse formatted text at the start of titles,
 footnotes and formatted text

Whether a constrained formatting mark opens a formatted text depends on
the character which precedes it. When the mark is the first character of
a section title, of a footnote or of an unconstrained formatted text, the
last character of what was parsed before (eg, the previous section title)
was taken into account, and the mark was rendered as-is.
---
 pkg/parser/parser.go     | 12110 +++++++++++++++++++------------------
 pkg/parser/parser.peg    |    62 +-
 pkg/parser/parser_ext.go |     5 +
 3 files changed, 6246 insertions(+), 5931 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index f782fe1..38d9be4 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2900, col: 10, offset: 91454},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2900, col: 10, offset: 91454},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2922, col: 8, offset: 91852},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2909, col: 12, offset: 91625},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2909, col: 13, offset: 91626},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2909, col: 13, offset: 91626},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2909, col: 20, offset: 91633},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2909, col: 29, offset: 91642},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2919, col: 8, offset: 91802},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2919, col: 9, offset: 91803,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2900, col: 10, offset: 91454},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2900, col: 10, offset: 91454},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2922, col: 8, offset: 91852},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2909, col: 12, offset: 91625},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2909, col: 13, offset: 91626},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2909, col: 13, offset: 91626},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2909, col: 20, offset: 91633},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2909, col: 29, offset: 91642},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2919, col: 8, offset: 91802},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2919, col: 9, offset: 91803,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2900, col: 10, offset: 91454},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2900, col: 10, offset: 91454},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2919, col: 8, offset: 91802},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2919, col: 9, offset: 91803,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2900, col: 10, offset: 91454},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2900, col: 10, offset: 91454},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2919, col: 8, offset: 91802},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2919, col: 9, offset: 91803,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2844, col: 12, offset: 90066},
+																pos: position{line: 2892, col: 12, offset: 91281},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2844, col: 13, offset: 90067},
+																	pos: position{line: 2892, col: 13, offset: 91282},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2844, col: 13, offset: 90067},
+																			pos: position{line: 2892, col: 13, offset: 91282},
 																			expr: &litMatcher{
-																				pos:        position{line: 2844, col: 13, offset: 90067},
+																				pos:        position{line: 2892, col: 13, offset: 91282},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2844, col: 18, offset: 90072},
+																			pos: position{line: 2892, col: 18, offset: 91287},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2844, col: 18, offset: 90072},
+																				pos:        position{line: 2892, col: 18, offset: 91287},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2900, col: 10, offset: 91454},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2900, col: 10, offset: 91454},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2900, col: 10, offset: 91454},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2900, col: 10, offset: 91454},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2844, col: 12, offset: 90066},
+																pos: position{line: 2892, col: 12, offset: 91281},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2844, col: 13, offset: 90067},
+																	pos: position{line: 2892, col: 13, offset: 91282},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2844, col: 13, offset: 90067},
+																			pos: position{line: 2892, col: 13, offset: 91282},
 																			expr: &litMatcher{
-																				pos:        position{line: 2844, col: 13, offset: 90067},
+																				pos:        position{line: 2892, col: 13, offset: 91282},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2844, col: 18, offset: 90072},
+																			pos: position{line: 2892, col: 18, offset: 91287},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2844, col: 18, offset: 90072},
+																				pos:        position{line: 2892, col: 18, offset: 91287},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2900, col: 10, offset: 91454},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2900, col: 10, offset: 91454},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2919, col: 8, offset: 91802},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2919, col: 9, offset: 91803,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2900, col: 10, offset: 91454},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2900, col: 10, offset: 91454},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2919, col: 8, offset: 91802},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2919, col: 9, offset: 91803,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 724, col: 5, offset: 23042},
 													expr: &charClassMatcher{
-														pos:        position{line: 2742, col: 13, offset: 87334},
+														pos:        position{line: 2790, col: 13, offset: 88549},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23686},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2900, col: 10, offset: 91454},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2900, col: 10, offset: 91454},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2922, col: 8, offset: 91852},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2909, col: 12, offset: 91625},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2909, col: 13, offset: 91626},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2909, col: 13, offset: 91626},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2909, col: 20, offset: 91633},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2909, col: 29, offset: 91642},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 749, col: 8, offset: 23934},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2900, col: 10, offset: 91454},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2900, col: 10, offset: 91454},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2922, col: 8, offset: 91852},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2909, col: 12, offset: 91625},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2909, col: 13, offset: 91626},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2909, col: 13, offset: 91626},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2909, col: 20, offset: 91633},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2909, col: 29, offset: 91642},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 760, col: 52, offset: 24346},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2900, col: 10, offset: 91454},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2900, col: 10, offset: 91454},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2922, col: 8, offset: 91852},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2909, col: 12, offset: 91625},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2909, col: 13, offset: 91626},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2909, col: 13, offset: 91626},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2909, col: 20, offset: 91633},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2909, col: 29, offset: 91642},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 756, col: 8, offset: 24180},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2900, col: 10, offset: 91454},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2900, col: 10, offset: 91454},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2922, col: 8, offset: 91852},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2909, col: 12, offset: 91625},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2909, col: 13, offset: 91626},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2909, col: 13, offset: 91626},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2909, col: 20, offset: 91633},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2909, col: 29, offset: 91642},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 771, col: 8, offset: 24718},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2900, col: 10, offset: 91454},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2900, col: 10, offset: 91454},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2922, col: 8, offset: 91852},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2909, col: 12, offset: 91625},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2909, col: 13, offset: 91626},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2909, col: 13, offset: 91626},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2909, col: 20, offset: 91633},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2909, col: 29, offset: 91642},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 785, col: 8, offset: 25194},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2900, col: 10, offset: 91454},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2900, col: 10, offset: 91454},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2922, col: 8, offset: 91852},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2909, col: 12, offset: 91625},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2909, col: 13, offset: 91626},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2909, col: 13, offset: 91626},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2909, col: 20, offset: 91633},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2909, col: 29, offset: 91642},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 792, col: 8, offset: 25446},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2900, col: 10, offset: 91454},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2900, col: 10, offset: 91454},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2922, col: 8, offset: 91852},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2909, col: 12, offset: 91625},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2909, col: 13, offset: 91626},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2909, col: 13, offset: 91626},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2909, col: 20, offset: 91633},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2909, col: 29, offset: 91642},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 799, col: 8, offset: 25696},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2900, col: 10, offset: 91454},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2900, col: 10, offset: 91454},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2922, col: 8, offset: 91852},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2909, col: 12, offset: 91625},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2909, col: 13, offset: 91626},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2909, col: 13, offset: 91626},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2909, col: 20, offset: 91633},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2909, col: 29, offset: 91642},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 806, col: 8, offset: 25942},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2900, col: 10, offset: 91454},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2900, col: 10, offset: 91454},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2922, col: 8, offset: 91852},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2909, col: 12, offset: 91625},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2909, col: 13, offset: 91626},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2909, col: 13, offset: 91626},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2909, col: 20, offset: 91633},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2909, col: 29, offset: 91642},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2856, col: 11, offset: 90300},
+													pos: position{line: 2904, col: 11, offset: 91515},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2856, col: 11, offset: 90300},
+														pos: position{line: 2904, col: 11, offset: 91515},
 														expr: &charClassMatcher{
-															pos:        position{line: 2856, col: 11, offset: 90300},
+															pos:        position{line: 2904, col: 11, offset: 91515},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2802, col: 14, offset: 88832},
+													pos: position{line: 2850, col: 14, offset: 90047},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2802, col: 14, offset: 88832},
+														pos: position{line: 2850, col: 14, offset: 90047},
 														expr: &charClassMatcher{
-															pos:        position{line: 2802, col: 14, offset: 88832},
+															pos:        position{line: 2850, col: 14, offset: 90047},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2919, col: 8, offset: 91802},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2919, col: 9, offset: 91803,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2919, col: 8, offset: 91802},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2919, col: 9, offset: 91803,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2806, col: 17, offset: 88902},
+												pos: position{line: 2854, col: 17, offset: 90117},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2806, col: 17, offset: 88902},
+													pos:   position{line: 2854, col: 17, offset: 90117},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2871, col: 5, offset: 90571},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2871, col: 5, offset: 90571},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2871, col: 14, offset: 90580},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2872, col: 9, offset: 90590},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2872, col: 9, offset: 90590},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2872, col: 9, offset: 90590},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2872, col: 9, offset: 90590},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2872, col: 10, offset: 90591},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2873, col: 9, offset: 90619},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2873, col: 10, offset: 90620},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2876, col: 11, offset: 90832},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2876, col: 11, offset: 90832},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2876, col: 19, offset: 90840},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2876, col: 21, offset: 90842},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2876, col: 21, offset: 90842},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2900, col: 10, offset: 91454},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2900, col: 10, offset: 91454},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2876, col: 28, offset: 90849},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2879, col: 11, offset: 90969},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2879, col: 11, offset: 90969},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2900, col: 10, offset: 91454},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2900, col: 10, offset: 91454},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2922, col: 8, offset: 91852},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2909, col: 12, offset: 91625},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2909, col: 13, offset: 91626},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2909, col: 13, offset: 91626},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2909, col: 20, offset: 91633},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2909, col: 29, offset: 91642},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2919, col: 8, offset: 91802},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2919, col: 9, offset: 91803,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2844, col: 12, offset: 90066},
+																				pos: position{line: 2892, col: 12, offset: 91281},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2844, col: 13, offset: 90067},
+																					pos: position{line: 2892, col: 13, offset: 91282},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2844, col: 13, offset: 90067},
+																							pos: position{line: 2892, col: 13, offset: 91282},
 																							expr: &litMatcher{
-																								pos:        position{line: 2844, col: 13, offset: 90067},
+																								pos:        position{line: 2892, col: 13, offset: 91282},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2844, col: 18, offset: 90072},
+																							pos: position{line: 2892, col: 18, offset: 91287},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2844, col: 18, offset: 90072},
+																								pos:        position{line: 2892, col: 18, offset: 91287},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2844, col: 12, offset: 90066},
+																				pos: position{line: 2892, col: 12, offset: 91281},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2844, col: 13, offset: 90067},
+																					pos: position{line: 2892, col: 13, offset: 91282},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2844, col: 13, offset: 90067},
+																							pos: position{line: 2892, col: 13, offset: 91282},
 																							expr: &litMatcher{
-																								pos:        position{line: 2844, col: 13, offset: 90067},
+																								pos:        position{line: 2892, col: 13, offset: 91282},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2844, col: 18, offset: 90072},
+																							pos: position{line: 2892, col: 18, offset: 91287},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2844, col: 18, offset: 90072},
+																								pos:        position{line: 2892, col: 18, offset: 91287},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2844, col: 12, offset: 90066},
+																		pos: position{line: 2892, col: 12, offset: 91281},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2844, col: 13, offset: 90067},
+																			pos: position{line: 2892, col: 13, offset: 91282},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2844, col: 13, offset: 90067},
+																					pos: position{line: 2892, col: 13, offset: 91282},
 																					expr: &litMatcher{
-																						pos:        position{line: 2844, col: 13, offset: 90067},
+																						pos:        position{line: 2892, col: 13, offset: 91282},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2844, col: 18, offset: 90072},
+																					pos: position{line: 2892, col: 18, offset: 91287},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2844, col: 18, offset: 90072},
+																						pos:        position{line: 2892, col: 18, offset: 91287},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2844, col: 12, offset: 90066},
+																									pos: position{line: 2892, col: 12, offset: 91281},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2844, col: 13, offset: 90067},
+																										pos: position{line: 2892, col: 13, offset: 91282},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2844, col: 13, offset: 90067},
+																												pos: position{line: 2892, col: 13, offset: 91282},
 																												expr: &litMatcher{
-																													pos:        position{line: 2844, col: 13, offset: 90067},
+																													pos:        position{line: 2892, col: 13, offset: 91282},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2844, col: 18, offset: 90072},
+																												pos: position{line: 2892, col: 18, offset: 91287},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2844, col: 18, offset: 90072},
+																													pos:        position{line: 2892, col: 18, offset: 91287},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2844, col: 12, offset: 90066},
+																									pos: position{line: 2892, col: 12, offset: 91281},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2844, col: 13, offset: 90067},
+																										pos: position{line: 2892, col: 13, offset: 91282},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2844, col: 13, offset: 90067},
+																												pos: position{line: 2892, col: 13, offset: 91282},
 																												expr: &litMatcher{
-																													pos:        position{line: 2844, col: 13, offset: 90067},
+																													pos:        position{line: 2892, col: 13, offset: 91282},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2844, col: 18, offset: 90072},
+																												pos: position{line: 2892, col: 18, offset: 91287},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2844, col: 18, offset: 90072},
+																													pos:        position{line: 2892, col: 18, offset: 91287},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2844, col: 12, offset: 90066},
+																							pos: position{line: 2892, col: 12, offset: 91281},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2844, col: 13, offset: 90067},
+																								pos: position{line: 2892, col: 13, offset: 91282},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2844, col: 13, offset: 90067},
+																										pos: position{line: 2892, col: 13, offset: 91282},
 																										expr: &litMatcher{
-																											pos:        position{line: 2844, col: 13, offset: 90067},
+																											pos:        position{line: 2892, col: 13, offset: 91282},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2844, col: 18, offset: 90072},
+																										pos: position{line: 2892, col: 18, offset: 91287},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2844, col: 18, offset: 90072},
+																											pos:        position{line: 2892, col: 18, offset: 91287},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 12, offset: 90066},
+														pos: position{line: 2892, col: 12, offset: 91281},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2844, col: 13, offset: 90067},
+															pos: position{line: 2892, col: 13, offset: 91282},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2844, col: 13, offset: 90067},
+																	pos: position{line: 2892, col: 13, offset: 91282},
 																	expr: &litMatcher{
-																		pos:        position{line: 2844, col: 13, offset: 90067},
+																		pos:        position{line: 2892, col: 13, offset: 91282},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2844, col: 18, offset: 90072},
+																	pos: position{line: 2892, col: 18, offset: 91287},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2844, col: 18, offset: 90072},
+																		pos:        position{line: 2892, col: 18, offset: 91287},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 12, offset: 90066},
+														pos: position{line: 2892, col: 12, offset: 91281},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2844, col: 13, offset: 90067},
+															pos: position{line: 2892, col: 13, offset: 91282},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2844, col: 13, offset: 90067},
+																	pos: position{line: 2892, col: 13, offset: 91282},
 																	expr: &litMatcher{
-																		pos:        position{line: 2844, col: 13, offset: 90067},
+																		pos:        position{line: 2892, col: 13, offset: 91282},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2844, col: 18, offset: 90072},
+																	pos: position{line: 2892, col: 18, offset: 91287},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2844, col: 18, offset: 90072},
+																		pos:        position{line: 2892, col: 18, offset: 91287},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2844, col: 12, offset: 90066},
+												pos: position{line: 2892, col: 12, offset: 91281},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2844, col: 13, offset: 90067},
+													pos: position{line: 2892, col: 13, offset: 91282},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2844, col: 13, offset: 90067},
+															pos: position{line: 2892, col: 13, offset: 91282},
 															expr: &litMatcher{
-																pos:        position{line: 2844, col: 13, offset: 90067},
+																pos:        position{line: 2892, col: 13, offset: 91282},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2844, col: 18, offset: 90072},
+															pos: position{line: 2892, col: 18, offset: 91287},
 															expr: &charClassMatcher{
-																pos:        position{line: 2844, col: 18, offset: 90072},
+																pos:        position{line: 2892, col: 18, offset: 91287},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2919, col: 8, offset: 91802},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2919, col: 9, offset: 91803,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2746, col: 14, offset: 87408},
+																		pos: position{line: 2794, col: 14, offset: 88623},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2746, col: 14, offset: 87408},
+																			pos: position{line: 2794, col: 14, offset: 88623},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2746, col: 14, offset: 87408},
+																				pos:        position{line: 2794, col: 14, offset: 88623},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2746, col: 14, offset: 87408},
+																				pos: position{line: 2794, col: 14, offset: 88623},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2746, col: 14, offset: 87408},
+																					pos: position{line: 2794, col: 14, offset: 88623},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2746, col: 14, offset: 87408},
+																						pos:        position{line: 2794, col: 14, offset: 88623},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2746, col: 14, offset: 87408},
+																							pos: position{line: 2794, col: 14, offset: 88623},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2746, col: 14, offset: 87408},
+																								pos: position{line: 2794, col: 14, offset: 88623},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2746, col: 14, offset: 87408},
+																									pos:        position{line: 2794, col: 14, offset: 88623},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2746, col: 14, offset: 87408},
+																									pos: position{line: 2794, col: 14, offset: 88623},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2746, col: 14, offset: 87408},
+																										pos: position{line: 2794, col: 14, offset: 88623},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2746, col: 14, offset: 87408},
+																											pos:        position{line: 2794, col: 14, offset: 88623},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2919, col: 8, offset: 91802},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2919, col: 9, offset: 91803,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2746, col: 14, offset: 87408},
+																pos: position{line: 2794, col: 14, offset: 88623},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2746, col: 14, offset: 87408},
+																	pos: position{line: 2794, col: 14, offset: 88623},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2746, col: 14, offset: 87408},
+																		pos:        position{line: 2794, col: 14, offset: 88623},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2746, col: 14, offset: 87408},
+																pos: position{line: 2794, col: 14, offset: 88623},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2746, col: 14, offset: 87408},
+																	pos: position{line: 2794, col: 14, offset: 88623},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2746, col: 14, offset: 87408},
+																		pos:        position{line: 2794, col: 14, offset: 88623},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2922, col: 8, offset: 91852},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2909, col: 12, offset: 91625},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2909, col: 13, offset: 91626},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2909, col: 13, offset: 91626},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2909, col: 20, offset: 91633},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2909, col: 29, offset: 91642},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2919, col: 8, offset: 91802},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2919, col: 9, offset: 91803,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2917, col: 11, offset: 91788},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2917, col: 13, offset: 91790,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2900, col: 10, offset: 91454},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2900, col: 10, offset: 91454},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2922, col: 8, offset: 91852},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2909, col: 12, offset: 91625},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2909, col: 13, offset: 91626},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2909, col: 13, offset: 91626},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2909, col: 20, offset: 91633},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2909, col: 29, offset: 91642},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2919, col: 8, offset: 91802},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2919, col: 9, offset: 91803,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2900, col: 10, offset: 91454},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2900, col: 10, offset: 91454},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2922, col: 8, offset: 91852},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2909, col: 12, offset: 91625},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2909, col: 13, offset: 91626},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2909, col: 13, offset: 91626},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2909, col: 20, offset: 91633},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2909, col: 29, offset: 91642},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2919, col: 8, offset: 91802},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2919, col: 9, offset: 91803,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 677, col: 14, offset: 21489},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2869, col: 11, offset: 90573},
+														pos: position{line: 2917, col: 11, offset: 91788},
 														expr: &anyMatcher{
-															line: 2869, col: 13, offset: 90575,
+															line: 2917, col: 13, offset: 91790,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 677, col: 21, offset: 21496},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2900, col: 10, offset: 91454},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2900, col: 10, offset: 91454},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2922, col: 8, offset: 91852},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2909, col: 12, offset: 91625},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2909, col: 13, offset: 91626},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2909, col: 13, offset: 91626},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2909, col: 20, offset: 91633},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2909, col: 29, offset: 91642},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2919, col: 8, offset: 91802},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2919, col: 9, offset: 91803,
 																},
 															},
 														},
@@ -4453,10 +4453,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23686},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2900, col: 10, offset: 91454},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2900, col: 10, offset: 91454},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4465,28 +4465,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2922, col: 8, offset: 91852},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2909, col: 12, offset: 91625},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2909, col: 13, offset: 91626},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2909, col: 13, offset: 91626},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2909, col: 20, offset: 91633},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2909, col: 29, offset: 91642},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4495,9 +4495,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2919, col: 8, offset: 91802},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2919, col: 9, offset: 91803,
 																			},
 																		},
 																	},
@@ -4558,10 +4558,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 742, col: 8, offset: 23686},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
+																										pos: position{line: 2900, col: 10, offset: 91454},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2900, col: 10, offset: 91454},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4570,28 +4570,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2922, col: 8, offset: 91852},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2909, col: 12, offset: 91625},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2909, col: 13, offset: 91626},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2909, col: 13, offset: 91626},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2909, col: 20, offset: 91633},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2909, col: 29, offset: 91642},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4600,9 +4600,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2919, col: 8, offset: 91802},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2919, col: 9, offset: 91803,
 																											},
 																										},
 																									},
@@ -4611,9 +4611,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2919, col: 8, offset: 91802},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2919, col: 9, offset: 91803,
 																						},
 																					},
 																				},
@@ -4629,21 +4629,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2917, col: 11, offset: 91788},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2917, col: 13, offset: 91790,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2846, col: 13, offset: 89980},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2846, col: 13, offset: 89980},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2846, col: 13, offset: 89980},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4653,28 +4653,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4683,9 +4683,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -4741,10 +4741,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 742, col: 8, offset: 23686},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
+																					pos: position{line: 2900, col: 10, offset: 91454},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2900, col: 10, offset: 91454},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4753,28 +4753,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
+																				pos: position{line: 2922, col: 8, offset: 91852},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
+																						pos: position{line: 2909, col: 12, offset: 91625},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2909, col: 13, offset: 91626},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2909, col: 13, offset: 91626},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2909, col: 20, offset: 91633},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2909, col: 29, offset: 91642},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4783,9 +4783,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2919, col: 8, offset: 91802},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2919, col: 9, offset: 91803,
 																						},
 																					},
 																				},
@@ -4794,9 +4794,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2919, col: 8, offset: 91802},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2919, col: 9, offset: 91803,
 																	},
 																},
 															},
@@ -4851,10 +4851,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 749, col: 8, offset: 23934},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2900, col: 10, offset: 91454},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2900, col: 10, offset: 91454},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4863,28 +4863,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2922, col: 8, offset: 91852},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2909, col: 12, offset: 91625},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2909, col: 13, offset: 91626},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2909, col: 13, offset: 91626},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2909, col: 20, offset: 91633},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2909, col: 29, offset: 91642},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4893,9 +4893,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2919, col: 8, offset: 91802},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2919, col: 9, offset: 91803,
 																				},
 																			},
 																		},
@@ -4967,10 +4967,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 749, col: 8, offset: 23934},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
+																													pos: position{line: 2900, col: 10, offset: 91454},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2900, col: 10, offset: 91454},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4979,28 +4979,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2922, col: 8, offset: 91852},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
+																														pos: position{line: 2909, col: 12, offset: 91625},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2909, col: 13, offset: 91626},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2909, col: 13, offset: 91626},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2909, col: 20, offset: 91633},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2909, col: 29, offset: 91642},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5009,9 +5009,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2919, col: 8, offset: 91802},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2919, col: 9, offset: 91803,
 																														},
 																													},
 																												},
@@ -5027,9 +5027,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2919, col: 8, offset: 91802},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2919, col: 9, offset: 91803,
 																						},
 																					},
 																				},
@@ -5045,21 +5045,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2917, col: 11, offset: 91788},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2917, col: 13, offset: 91790,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2846, col: 13, offset: 89980},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2846, col: 13, offset: 89980},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2846, col: 13, offset: 89980},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5069,28 +5069,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5099,9 +5099,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -5166,10 +5166,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 749, col: 8, offset: 23934},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2900, col: 10, offset: 91454},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2900, col: 10, offset: 91454},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5178,28 +5178,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2922, col: 8, offset: 91852},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2909, col: 12, offset: 91625},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2909, col: 13, offset: 91626},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2909, col: 13, offset: 91626},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2909, col: 20, offset: 91633},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2909, col: 29, offset: 91642},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5208,9 +5208,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2919, col: 8, offset: 91802},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2919, col: 9, offset: 91803,
 																										},
 																									},
 																								},
@@ -5226,9 +5226,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2919, col: 8, offset: 91802},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2919, col: 9, offset: 91803,
 																		},
 																	},
 																},
@@ -5280,10 +5280,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 760, col: 52, offset: 24346},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2900, col: 10, offset: 91454},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2900, col: 10, offset: 91454},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5292,28 +5292,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2922, col: 8, offset: 91852},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2909, col: 12, offset: 91625},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2909, col: 13, offset: 91626},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2909, col: 13, offset: 91626},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2909, col: 20, offset: 91633},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2909, col: 29, offset: 91642},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5322,9 +5322,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2919, col: 8, offset: 91802},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2919, col: 9, offset: 91803,
 																				},
 																			},
 																		},
@@ -5358,10 +5358,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 963, col: 40, offset: 30149},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2900, col: 10, offset: 91454},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2900, col: 10, offset: 91454},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5370,28 +5370,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2922, col: 8, offset: 91852},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2909, col: 12, offset: 91625},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2909, col: 13, offset: 91626},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2909, col: 13, offset: 91626},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2909, col: 20, offset: 91633},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2909, col: 29, offset: 91642},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5400,9 +5400,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2919, col: 8, offset: 91802},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2919, col: 9, offset: 91803,
 																								},
 																							},
 																						},
@@ -5420,21 +5420,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2917, col: 11, offset: 91788},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2917, col: 13, offset: 91790,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2846, col: 13, offset: 89980},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2846, col: 13, offset: 89980},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2846, col: 13, offset: 89980},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5444,28 +5444,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5474,9 +5474,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -5504,10 +5504,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 963, col: 40, offset: 30149},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2900, col: 10, offset: 91454},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2900, col: 10, offset: 91454},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5516,28 +5516,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2922, col: 8, offset: 91852},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2909, col: 12, offset: 91625},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2909, col: 13, offset: 91626},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2909, col: 13, offset: 91626},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2909, col: 20, offset: 91633},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2909, col: 29, offset: 91642},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5546,9 +5546,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2919, col: 8, offset: 91802},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2919, col: 9, offset: 91803,
 																			},
 																		},
 																	},
@@ -5605,10 +5605,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 756, col: 8, offset: 24180},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2900, col: 10, offset: 91454},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2900, col: 10, offset: 91454},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5617,28 +5617,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2922, col: 8, offset: 91852},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2909, col: 12, offset: 91625},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2909, col: 13, offset: 91626},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2909, col: 13, offset: 91626},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2909, col: 20, offset: 91633},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2909, col: 29, offset: 91642},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5647,9 +5647,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2919, col: 8, offset: 91802},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2919, col: 9, offset: 91803,
 																				},
 																			},
 																		},
@@ -5721,10 +5721,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 756, col: 8, offset: 24180},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
+																													pos: position{line: 2900, col: 10, offset: 91454},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2900, col: 10, offset: 91454},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5733,28 +5733,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2922, col: 8, offset: 91852},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
+																														pos: position{line: 2909, col: 12, offset: 91625},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2909, col: 13, offset: 91626},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2909, col: 13, offset: 91626},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2909, col: 20, offset: 91633},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2909, col: 29, offset: 91642},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5763,9 +5763,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2919, col: 8, offset: 91802},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2919, col: 9, offset: 91803,
 																														},
 																													},
 																												},
@@ -5781,9 +5781,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2919, col: 8, offset: 91802},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2919, col: 9, offset: 91803,
 																						},
 																					},
 																				},
@@ -5799,21 +5799,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2917, col: 11, offset: 91788},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2917, col: 13, offset: 91790,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2846, col: 13, offset: 89980},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2846, col: 13, offset: 89980},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2846, col: 13, offset: 89980},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5823,28 +5823,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5853,9 +5853,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -5920,10 +5920,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 756, col: 8, offset: 24180},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2900, col: 10, offset: 91454},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2900, col: 10, offset: 91454},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5932,28 +5932,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2922, col: 8, offset: 91852},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2909, col: 12, offset: 91625},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2909, col: 13, offset: 91626},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2909, col: 13, offset: 91626},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2909, col: 20, offset: 91633},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2909, col: 29, offset: 91642},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5962,9 +5962,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2919, col: 8, offset: 91802},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2919, col: 9, offset: 91803,
 																										},
 																									},
 																								},
@@ -5980,9 +5980,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2919, col: 8, offset: 91802},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2919, col: 9, offset: 91803,
 																		},
 																	},
 																},
@@ -6038,10 +6038,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 771, col: 8, offset: 24718},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2900, col: 10, offset: 91454},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2900, col: 10, offset: 91454},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6050,28 +6050,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2922, col: 8, offset: 91852},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2909, col: 12, offset: 91625},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2909, col: 13, offset: 91626},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2909, col: 13, offset: 91626},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2909, col: 20, offset: 91633},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2909, col: 29, offset: 91642},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6080,9 +6080,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2919, col: 8, offset: 91802},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2919, col: 9, offset: 91803,
 																				},
 																			},
 																		},
@@ -6154,10 +6154,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 771, col: 8, offset: 24718},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
+																													pos: position{line: 2900, col: 10, offset: 91454},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2900, col: 10, offset: 91454},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6166,28 +6166,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2922, col: 8, offset: 91852},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
+																														pos: position{line: 2909, col: 12, offset: 91625},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2909, col: 13, offset: 91626},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2909, col: 13, offset: 91626},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2909, col: 20, offset: 91633},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2909, col: 29, offset: 91642},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6196,9 +6196,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2919, col: 8, offset: 91802},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2919, col: 9, offset: 91803,
 																														},
 																													},
 																												},
@@ -6214,9 +6214,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2919, col: 8, offset: 91802},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2919, col: 9, offset: 91803,
 																						},
 																					},
 																				},
@@ -6232,21 +6232,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2917, col: 11, offset: 91788},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2917, col: 13, offset: 91790,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2846, col: 13, offset: 89980},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2846, col: 13, offset: 89980},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2846, col: 13, offset: 89980},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6256,28 +6256,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6286,9 +6286,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -6353,10 +6353,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 771, col: 8, offset: 24718},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2900, col: 10, offset: 91454},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2900, col: 10, offset: 91454},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6365,28 +6365,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2922, col: 8, offset: 91852},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2909, col: 12, offset: 91625},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2909, col: 13, offset: 91626},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2909, col: 13, offset: 91626},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2909, col: 20, offset: 91633},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2909, col: 29, offset: 91642},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6395,9 +6395,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2919, col: 8, offset: 91802},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2919, col: 9, offset: 91803,
 																										},
 																									},
 																								},
@@ -6413,9 +6413,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2919, col: 8, offset: 91802},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2919, col: 9, offset: 91803,
 																		},
 																	},
 																},
@@ -6471,10 +6471,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 785, col: 8, offset: 25194},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2900, col: 10, offset: 91454},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2900, col: 10, offset: 91454},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6483,28 +6483,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2922, col: 8, offset: 91852},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2909, col: 12, offset: 91625},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2909, col: 13, offset: 91626},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2909, col: 13, offset: 91626},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2909, col: 20, offset: 91633},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2909, col: 29, offset: 91642},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6513,9 +6513,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2919, col: 8, offset: 91802},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2919, col: 9, offset: 91803,
 																				},
 																			},
 																		},
@@ -6587,10 +6587,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 785, col: 8, offset: 25194},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
+																													pos: position{line: 2900, col: 10, offset: 91454},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2900, col: 10, offset: 91454},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6599,28 +6599,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2922, col: 8, offset: 91852},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
+																														pos: position{line: 2909, col: 12, offset: 91625},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2909, col: 13, offset: 91626},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2909, col: 13, offset: 91626},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2909, col: 20, offset: 91633},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2909, col: 29, offset: 91642},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6629,9 +6629,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2919, col: 8, offset: 91802},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2919, col: 9, offset: 91803,
 																														},
 																													},
 																												},
@@ -6647,9 +6647,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2919, col: 8, offset: 91802},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2919, col: 9, offset: 91803,
 																						},
 																					},
 																				},
@@ -6665,21 +6665,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2917, col: 11, offset: 91788},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2917, col: 13, offset: 91790,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2846, col: 13, offset: 89980},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2846, col: 13, offset: 89980},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2846, col: 13, offset: 89980},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6689,28 +6689,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6719,9 +6719,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -6786,10 +6786,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 785, col: 8, offset: 25194},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2900, col: 10, offset: 91454},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2900, col: 10, offset: 91454},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6798,28 +6798,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2922, col: 8, offset: 91852},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2909, col: 12, offset: 91625},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2909, col: 13, offset: 91626},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2909, col: 13, offset: 91626},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2909, col: 20, offset: 91633},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2909, col: 29, offset: 91642},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6828,9 +6828,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2919, col: 8, offset: 91802},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2919, col: 9, offset: 91803,
 																										},
 																									},
 																								},
@@ -6846,9 +6846,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2919, col: 8, offset: 91802},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2919, col: 9, offset: 91803,
 																		},
 																	},
 																},
@@ -6882,18 +6882,18 @@ var g = &grammar{
 																				pos: position{line: 677, col: 14, offset: 21489},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2917, col: 11, offset: 91788},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2917, col: 13, offset: 91790,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 677, col: 21, offset: 21496},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2900, col: 10, offset: 91454},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2900, col: 10, offset: 91454},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6902,28 +6902,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2922, col: 8, offset: 91852},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2909, col: 12, offset: 91625},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2909, col: 13, offset: 91626},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2909, col: 13, offset: 91626},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2909, col: 20, offset: 91633},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2909, col: 29, offset: 91642},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6932,9 +6932,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2919, col: 8, offset: 91802},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2919, col: 9, offset: 91803,
 																								},
 																							},
 																						},
@@ -6953,12 +6953,12 @@ var g = &grammar{
 																		pos:   position{line: 984, col: 5, offset: 30684},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2802, col: 14, offset: 88832},
+																			pos: position{line: 2850, col: 14, offset: 90047},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2802, col: 14, offset: 88832},
+																				pos: position{line: 2850, col: 14, offset: 90047},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2802, col: 14, offset: 88832},
+																					pos:        position{line: 2850, col: 14, offset: 90047},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -6968,28 +6968,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2922, col: 8, offset: 91852},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2909, col: 12, offset: 91625},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2909, col: 13, offset: 91626},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2909, col: 13, offset: 91626},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2909, col: 20, offset: 91633},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2909, col: 29, offset: 91642},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6998,9 +6998,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2919, col: 8, offset: 91802},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2919, col: 9, offset: 91803,
 																				},
 																			},
 																		},
@@ -7032,18 +7032,18 @@ var g = &grammar{
 																							pos: position{line: 677, col: 14, offset: 21489},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2869, col: 11, offset: 90573},
+																									pos: position{line: 2917, col: 11, offset: 91788},
 																									expr: &anyMatcher{
-																										line: 2869, col: 13, offset: 90575,
+																										line: 2917, col: 13, offset: 91790,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 677, col: 21, offset: 21496},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
+																										pos: position{line: 2900, col: 10, offset: 91454},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2900, col: 10, offset: 91454},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7052,28 +7052,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2922, col: 8, offset: 91852},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2909, col: 12, offset: 91625},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2909, col: 13, offset: 91626},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2909, col: 13, offset: 91626},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2909, col: 20, offset: 91633},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2909, col: 29, offset: 91642},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7082,9 +7082,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2919, col: 8, offset: 91802},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2919, col: 9, offset: 91803,
 																											},
 																										},
 																									},
@@ -7103,12 +7103,12 @@ var g = &grammar{
 																					pos:   position{line: 984, col: 5, offset: 30684},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2802, col: 14, offset: 88832},
+																						pos: position{line: 2850, col: 14, offset: 90047},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2802, col: 14, offset: 88832},
+																							pos: position{line: 2850, col: 14, offset: 90047},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2802, col: 14, offset: 88832},
+																								pos:        position{line: 2850, col: 14, offset: 90047},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7118,28 +7118,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2922, col: 8, offset: 91852},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2909, col: 12, offset: 91625},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2909, col: 13, offset: 91626},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2909, col: 13, offset: 91626},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2909, col: 20, offset: 91633},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2909, col: 29, offset: 91642},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7148,9 +7148,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2919, col: 8, offset: 91802},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2919, col: 9, offset: 91803,
 																							},
 																						},
 																					},
@@ -7159,21 +7159,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1784, col: 5, offset: 57605},
+																		pos: position{line: 1789, col: 5, offset: 57721},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1784, col: 5, offset: 57605},
+																			pos: position{line: 1789, col: 5, offset: 57721},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1784, col: 5, offset: 57605},
+																					pos:   position{line: 1789, col: 5, offset: 57721},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2802, col: 14, offset: 88832},
+																						pos: position{line: 2850, col: 14, offset: 90047},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2802, col: 14, offset: 88832},
+																							pos: position{line: 2850, col: 14, offset: 90047},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2802, col: 14, offset: 88832},
+																								pos:        position{line: 2850, col: 14, offset: 90047},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7183,32 +7183,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1785, col: 5, offset: 57629},
+																					pos: position{line: 1790, col: 5, offset: 57745},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2922, col: 8, offset: 91852},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2909, col: 12, offset: 91625},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2909, col: 13, offset: 91626},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2909, col: 13, offset: 91626},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2909, col: 20, offset: 91633},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2909, col: 29, offset: 91642},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7217,9 +7217,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2919, col: 8, offset: 91802},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2919, col: 9, offset: 91803,
 																							},
 																						},
 																					},
@@ -7266,10 +7266,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 778, col: 8, offset: 24949},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2900, col: 10, offset: 91454},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2900, col: 10, offset: 91454},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7278,28 +7278,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2922, col: 8, offset: 91852},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2909, col: 12, offset: 91625},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2909, col: 13, offset: 91626},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2909, col: 13, offset: 91626},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2909, col: 20, offset: 91633},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2909, col: 29, offset: 91642},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7308,9 +7308,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2919, col: 8, offset: 91802},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2919, col: 9, offset: 91803,
 																				},
 																			},
 																		},
@@ -7358,10 +7358,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 778, col: 8, offset: 24949},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
+																										pos: position{line: 2900, col: 10, offset: 91454},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2900, col: 10, offset: 91454},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7370,28 +7370,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2922, col: 8, offset: 91852},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2909, col: 12, offset: 91625},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2909, col: 13, offset: 91626},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2909, col: 13, offset: 91626},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2909, col: 20, offset: 91633},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2909, col: 29, offset: 91642},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7400,9 +7400,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2919, col: 8, offset: 91802},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2919, col: 9, offset: 91803,
 																											},
 																										},
 																									},
@@ -7411,9 +7411,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2919, col: 8, offset: 91802},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2919, col: 9, offset: 91803,
 																						},
 																					},
 																				},
@@ -7429,21 +7429,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2917, col: 11, offset: 91788},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2917, col: 13, offset: 91790,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2846, col: 13, offset: 89980},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2846, col: 13, offset: 89980},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2846, col: 13, offset: 89980},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7453,28 +7453,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7483,9 +7483,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -7530,10 +7530,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 778, col: 8, offset: 24949},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2900, col: 10, offset: 91454},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2900, col: 10, offset: 91454},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7542,28 +7542,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2922, col: 8, offset: 91852},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2909, col: 12, offset: 91625},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2909, col: 13, offset: 91626},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2909, col: 13, offset: 91626},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2909, col: 20, offset: 91633},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2909, col: 29, offset: 91642},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7572,9 +7572,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2919, col: 8, offset: 91802},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2919, col: 9, offset: 91803,
 																							},
 																						},
 																					},
@@ -7583,9 +7583,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2919, col: 8, offset: 91802},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2919, col: 9, offset: 91803,
 																		},
 																	},
 																},
@@ -7641,10 +7641,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 792, col: 8, offset: 25446},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2900, col: 10, offset: 91454},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2900, col: 10, offset: 91454},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7653,28 +7653,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2922, col: 8, offset: 91852},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2909, col: 12, offset: 91625},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2909, col: 13, offset: 91626},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2909, col: 13, offset: 91626},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2909, col: 20, offset: 91633},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2909, col: 29, offset: 91642},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7683,9 +7683,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2919, col: 8, offset: 91802},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2919, col: 9, offset: 91803,
 																				},
 																			},
 																		},
@@ -7757,10 +7757,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 792, col: 8, offset: 25446},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
+																													pos: position{line: 2900, col: 10, offset: 91454},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2900, col: 10, offset: 91454},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7769,28 +7769,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2922, col: 8, offset: 91852},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
+																														pos: position{line: 2909, col: 12, offset: 91625},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2909, col: 13, offset: 91626},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2909, col: 13, offset: 91626},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2909, col: 20, offset: 91633},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2909, col: 29, offset: 91642},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7799,9 +7799,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2919, col: 8, offset: 91802},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2919, col: 9, offset: 91803,
 																														},
 																													},
 																												},
@@ -7817,9 +7817,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2919, col: 8, offset: 91802},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2919, col: 9, offset: 91803,
 																						},
 																					},
 																				},
@@ -7835,21 +7835,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2917, col: 11, offset: 91788},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2917, col: 13, offset: 91790,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2846, col: 13, offset: 89980},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2846, col: 13, offset: 89980},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2846, col: 13, offset: 89980},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7859,28 +7859,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7889,9 +7889,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -7956,10 +7956,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 792, col: 8, offset: 25446},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2900, col: 10, offset: 91454},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2900, col: 10, offset: 91454},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7968,28 +7968,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2922, col: 8, offset: 91852},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2909, col: 12, offset: 91625},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2909, col: 13, offset: 91626},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2909, col: 13, offset: 91626},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2909, col: 20, offset: 91633},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2909, col: 29, offset: 91642},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -7998,9 +7998,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2919, col: 8, offset: 91802},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2919, col: 9, offset: 91803,
 																										},
 																									},
 																								},
@@ -8016,9 +8016,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2919, col: 8, offset: 91802},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2919, col: 9, offset: 91803,
 																		},
 																	},
 																},
@@ -8074,10 +8074,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 799, col: 8, offset: 25696},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2900, col: 10, offset: 91454},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2900, col: 10, offset: 91454},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8086,28 +8086,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2922, col: 8, offset: 91852},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2909, col: 12, offset: 91625},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2909, col: 13, offset: 91626},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2909, col: 13, offset: 91626},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2909, col: 20, offset: 91633},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2909, col: 29, offset: 91642},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8116,9 +8116,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2919, col: 8, offset: 91802},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2919, col: 9, offset: 91803,
 																				},
 																			},
 																		},
@@ -8190,10 +8190,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 799, col: 8, offset: 25696},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
+																													pos: position{line: 2900, col: 10, offset: 91454},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2900, col: 10, offset: 91454},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8202,28 +8202,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2922, col: 8, offset: 91852},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
+																														pos: position{line: 2909, col: 12, offset: 91625},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2909, col: 13, offset: 91626},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2909, col: 13, offset: 91626},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2909, col: 20, offset: 91633},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2909, col: 29, offset: 91642},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8232,9 +8232,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2919, col: 8, offset: 91802},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2919, col: 9, offset: 91803,
 																														},
 																													},
 																												},
@@ -8250,9 +8250,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2919, col: 8, offset: 91802},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2919, col: 9, offset: 91803,
 																						},
 																					},
 																				},
@@ -8268,21 +8268,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2917, col: 11, offset: 91788},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2917, col: 13, offset: 91790,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2846, col: 13, offset: 89980},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2846, col: 13, offset: 89980},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2846, col: 13, offset: 89980},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8292,28 +8292,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8322,9 +8322,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -8389,10 +8389,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 799, col: 8, offset: 25696},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2900, col: 10, offset: 91454},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2900, col: 10, offset: 91454},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8401,28 +8401,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2922, col: 8, offset: 91852},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2909, col: 12, offset: 91625},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2909, col: 13, offset: 91626},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2909, col: 13, offset: 91626},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2909, col: 20, offset: 91633},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2909, col: 29, offset: 91642},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8431,9 +8431,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2919, col: 8, offset: 91802},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2919, col: 9, offset: 91803,
 																										},
 																									},
 																								},
@@ -8449,9 +8449,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2919, col: 8, offset: 91802},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2919, col: 9, offset: 91803,
 																		},
 																	},
 																},
@@ -8507,10 +8507,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 806, col: 8, offset: 25942},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2900, col: 10, offset: 91454},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2900, col: 10, offset: 91454},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8519,28 +8519,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2922, col: 8, offset: 91852},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2909, col: 12, offset: 91625},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2909, col: 13, offset: 91626},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2909, col: 13, offset: 91626},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2909, col: 20, offset: 91633},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2909, col: 29, offset: 91642},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8549,9 +8549,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2919, col: 8, offset: 91802},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2919, col: 9, offset: 91803,
 																				},
 																			},
 																		},
@@ -8623,10 +8623,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 806, col: 8, offset: 25942},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
+																													pos: position{line: 2900, col: 10, offset: 91454},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2900, col: 10, offset: 91454},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8635,28 +8635,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2922, col: 8, offset: 91852},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
+																														pos: position{line: 2909, col: 12, offset: 91625},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2909, col: 13, offset: 91626},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2909, col: 13, offset: 91626},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2909, col: 20, offset: 91633},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2909, col: 29, offset: 91642},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8665,9 +8665,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2919, col: 8, offset: 91802},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2919, col: 9, offset: 91803,
 																														},
 																													},
 																												},
@@ -8683,9 +8683,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2919, col: 8, offset: 91802},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2919, col: 9, offset: 91803,
 																						},
 																					},
 																				},
@@ -8701,21 +8701,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2917, col: 11, offset: 91788},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2917, col: 13, offset: 91790,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2846, col: 13, offset: 89980},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2846, col: 13, offset: 89980},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2846, col: 13, offset: 89980},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8725,28 +8725,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8755,9 +8755,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -8822,10 +8822,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 806, col: 8, offset: 25942},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2900, col: 10, offset: 91454},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2900, col: 10, offset: 91454},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8834,28 +8834,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2922, col: 8, offset: 91852},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2909, col: 12, offset: 91625},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2909, col: 13, offset: 91626},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2909, col: 13, offset: 91626},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2909, col: 20, offset: 91633},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2909, col: 29, offset: 91642},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8864,9 +8864,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2919, col: 8, offset: 91802},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2919, col: 9, offset: 91803,
 																										},
 																									},
 																								},
@@ -8882,9 +8882,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2919, col: 8, offset: 91802},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2919, col: 9, offset: 91803,
 																		},
 																	},
 																},
@@ -8895,52 +8895,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2697, col: 18, offset: 85829},
+											pos: position{line: 2745, col: 18, offset: 87044},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2697, col: 18, offset: 85829},
+												pos: position{line: 2745, col: 18, offset: 87044},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2698, col: 9, offset: 85839},
+														pos: position{line: 2746, col: 9, offset: 87054},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2698, col: 9, offset: 85839},
+																pos:        position{line: 2746, col: 9, offset: 87054},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 11, offset: 85875},
+																pos:        position{line: 2747, col: 11, offset: 87090},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 19, offset: 85883},
+																pos:        position{line: 2747, col: 19, offset: 87098},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 29, offset: 85893},
+																pos:        position{line: 2747, col: 29, offset: 87108},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 37, offset: 85901},
+																pos:        position{line: 2747, col: 37, offset: 87116},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 47, offset: 85911},
+																pos:        position{line: 2747, col: 47, offset: 87126},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 55, offset: 85919},
+																pos:        position{line: 2747, col: 55, offset: 87134},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -8948,12 +8948,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2700, col: 11, offset: 85977},
+														pos: position{line: 2748, col: 11, offset: 87192},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2900, col: 10, offset: 91454},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2900, col: 10, offset: 91454},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -8962,28 +8962,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2922, col: 8, offset: 91852},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2909, col: 12, offset: 91625},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2909, col: 13, offset: 91626},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2909, col: 13, offset: 91626},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2909, col: 20, offset: 91633},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2909, col: 29, offset: 91642},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -8992,36 +8992,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2919, col: 8, offset: 91802},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2919, col: 9, offset: 91803,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2922, col: 8, offset: 91852},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2909, col: 12, offset: 91625},
 																run: (*parser).callonDocumentFragment1098,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2909, col: 13, offset: 91626},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2909, col: 13, offset: 91626},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2909, col: 20, offset: 91633},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2909, col: 29, offset: 91642},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9030,9 +9030,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2919, col: 8, offset: 91802},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2919, col: 9, offset: 91803,
 																},
 															},
 														},
@@ -9045,24 +9045,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2588, col: 5, offset: 82765},
+											pos: position{line: 2636, col: 5, offset: 83980},
 											run: (*parser).callonDocumentFragment1106,
 											expr: &seqExpr{
-												pos: position{line: 2588, col: 5, offset: 82765},
+												pos: position{line: 2636, col: 5, offset: 83980},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2594, col: 19, offset: 82922},
+														pos:        position{line: 2642, col: 19, offset: 84137},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2594, col: 26, offset: 82929},
+														pos: position{line: 2642, col: 26, offset: 84144},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2900, col: 10, offset: 91454},
 															run: (*parser).callonDocumentFragment1110,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2900, col: 10, offset: 91454},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9071,28 +9071,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2922, col: 8, offset: 91852},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2909, col: 12, offset: 91625},
 																run: (*parser).callonDocumentFragment1113,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2909, col: 13, offset: 91626},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2909, col: 13, offset: 91626},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2909, col: 20, offset: 91633},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2909, col: 29, offset: 91642},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9101,20 +9101,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2919, col: 8, offset: 91802},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2919, col: 9, offset: 91803,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2589, col: 5, offset: 82789},
+														pos:   position{line: 2637, col: 5, offset: 84004},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2589, col: 11, offset: 82795},
+															pos: position{line: 2637, col: 11, offset: 84010},
 															expr: &choiceExpr{
-																pos: position{line: 2589, col: 12, offset: 82796},
+																pos: position{line: 2637, col: 12, offset: 84011},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
@@ -9123,18 +9123,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2869, col: 11, offset: 90573},
+																					pos: position{line: 2917, col: 11, offset: 91788},
 																					expr: &anyMatcher{
-																						line: 2869, col: 13, offset: 90575,
+																						line: 2917, col: 13, offset: 91790,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2900, col: 10, offset: 91454},
 																						run: (*parser).callonDocumentFragment1128,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2900, col: 10, offset: 91454},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9143,28 +9143,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2922, col: 8, offset: 91852},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2909, col: 12, offset: 91625},
 																							run: (*parser).callonDocumentFragment1131,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2909, col: 13, offset: 91626},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2909, col: 13, offset: 91626},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2909, col: 20, offset: 91633},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2909, col: 29, offset: 91642},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9173,9 +9173,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2919, col: 8, offset: 91802},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2919, col: 9, offset: 91803,
 																							},
 																						},
 																					},
@@ -9184,32 +9184,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2601, col: 5, offset: 83041},
+																		pos: position{line: 2649, col: 5, offset: 84256},
 																		run: (*parser).callonDocumentFragment1138,
 																		expr: &seqExpr{
-																			pos: position{line: 2601, col: 5, offset: 83041},
+																			pos: position{line: 2649, col: 5, offset: 84256},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2601, col: 5, offset: 83041},
+																					pos: position{line: 2649, col: 5, offset: 84256},
 																					expr: &choiceExpr{
-																						pos: position{line: 2598, col: 22, offset: 83002},
+																						pos: position{line: 2646, col: 22, offset: 84217},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2594, col: 19, offset: 82922},
+																								pos: position{line: 2642, col: 19, offset: 84137},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2594, col: 19, offset: 82922},
+																										pos:        position{line: 2642, col: 19, offset: 84137},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2594, col: 26, offset: 82929},
+																										pos: position{line: 2642, col: 26, offset: 84144},
 																										expr: &actionExpr{
-																											pos: position{line: 2852, col: 10, offset: 90239},
+																											pos: position{line: 2900, col: 10, offset: 91454},
 																											run: (*parser).callonDocumentFragment1145,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2852, col: 10, offset: 90239},
+																												pos:        position{line: 2900, col: 10, offset: 91454},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9218,28 +9218,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2874, col: 8, offset: 90637},
+																										pos: position{line: 2922, col: 8, offset: 91852},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2861, col: 12, offset: 90410},
+																												pos: position{line: 2909, col: 12, offset: 91625},
 																												run: (*parser).callonDocumentFragment1148,
 																												expr: &choiceExpr{
-																													pos: position{line: 2861, col: 13, offset: 90411},
+																													pos: position{line: 2909, col: 13, offset: 91626},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 13, offset: 90411},
+																															pos:        position{line: 2909, col: 13, offset: 91626},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 20, offset: 90418},
+																															pos:        position{line: 2909, col: 20, offset: 91633},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 29, offset: 90427},
+																															pos:        position{line: 2909, col: 29, offset: 91642},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9248,9 +9248,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2871, col: 8, offset: 90587},
+																												pos: position{line: 2919, col: 8, offset: 91802},
 																												expr: &anyMatcher{
-																													line: 2871, col: 9, offset: 90588,
+																													line: 2919, col: 9, offset: 91803,
 																												},
 																											},
 																										},
@@ -9258,59 +9258,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2919, col: 8, offset: 91802},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2919, col: 9, offset: 91803,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2602, col: 5, offset: 83064},
+																					pos:   position{line: 2650, col: 5, offset: 84279},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2603, col: 9, offset: 83082},
+																						pos: position{line: 2651, col: 9, offset: 84297},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2603, col: 10, offset: 83083},
+																								pos: position{line: 2651, col: 10, offset: 84298},
 																								run: (*parser).callonDocumentFragment1159,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2603, col: 10, offset: 83083},
+																									pos:   position{line: 2651, col: 10, offset: 84298},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2603, col: 17, offset: 83090},
+																										pos: position{line: 2651, col: 17, offset: 84305},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2611, col: 21, offset: 83286},
+																												pos: position{line: 2659, col: 21, offset: 84501},
 																												run: (*parser).callonDocumentFragment1162,
 																												expr: &seqExpr{
-																													pos: position{line: 2611, col: 21, offset: 83286},
+																													pos: position{line: 2659, col: 21, offset: 84501},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2611, col: 21, offset: 83286},
+																															pos:   position{line: 2659, col: 21, offset: 84501},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2611, col: 27, offset: 83292},
+																																pos: position{line: 2659, col: 27, offset: 84507},
 																																expr: &actionExpr{
-																																	pos: position{line: 2616, col: 5, offset: 83367},
+																																	pos: position{line: 2664, col: 5, offset: 84582},
 																																	run: (*parser).callonDocumentFragment1166,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2616, col: 5, offset: 83367},
+																																		pos: position{line: 2664, col: 5, offset: 84582},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2616, col: 5, offset: 83367},
+																																				pos:        position{line: 2664, col: 5, offset: 84582},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2616, col: 9, offset: 83371},
+																																				pos: position{line: 2664, col: 9, offset: 84586},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2852, col: 10, offset: 90239},
+																																					pos: position{line: 2900, col: 10, offset: 91454},
 																																					run: (*parser).callonDocumentFragment1170,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2852, col: 10, offset: 90239},
+																																						pos:        position{line: 2900, col: 10, offset: 91454},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9319,21 +9319,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2616, col: 16, offset: 83378},
+																																				pos:   position{line: 2664, col: 16, offset: 84593},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2622, col: 5, offset: 83578},
+																																					pos: position{line: 2670, col: 5, offset: 84793},
 																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2622, col: 5, offset: 83578},
+																																						pos:   position{line: 2670, col: 5, offset: 84793},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2622, col: 14, offset: 83587},
+																																							pos: position{line: 2670, col: 14, offset: 84802},
 																																							run: (*parser).callonDocumentFragment1175,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2622, col: 14, offset: 83587},
+																																								pos: position{line: 2670, col: 14, offset: 84802},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2622, col: 14, offset: 83587},
+																																									pos:        position{line: 2670, col: 14, offset: 84802},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9350,28 +9350,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2874, col: 8, offset: 90637},
+																															pos: position{line: 2922, col: 8, offset: 91852},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2861, col: 12, offset: 90410},
+																																	pos: position{line: 2909, col: 12, offset: 91625},
 																																	run: (*parser).callonDocumentFragment1179,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2861, col: 13, offset: 90411},
+																																		pos: position{line: 2909, col: 13, offset: 91626},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2861, col: 13, offset: 90411},
+																																				pos:        position{line: 2909, col: 13, offset: 91626},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2861, col: 20, offset: 90418},
+																																				pos:        position{line: 2909, col: 20, offset: 91633},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2861, col: 29, offset: 90427},
+																																				pos:        position{line: 2909, col: 29, offset: 91642},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9380,9 +9380,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2871, col: 8, offset: 90587},
+																																	pos: position{line: 2919, col: 8, offset: 91802},
 																																	expr: &anyMatcher{
-																																		line: 2871, col: 9, offset: 90588,
+																																		line: 2919, col: 9, offset: 91803,
 																																	},
 																																},
 																															},
@@ -9391,40 +9391,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2628, col: 24, offset: 83723},
+																												pos: position{line: 2676, col: 24, offset: 84938},
 																												run: (*parser).callonDocumentFragment1186,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2628, col: 24, offset: 83723},
+																													pos:   position{line: 2676, col: 24, offset: 84938},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2628, col: 30, offset: 83729},
+																														pos: position{line: 2676, col: 30, offset: 84944},
 																														expr: &actionExpr{
-																															pos: position{line: 2633, col: 5, offset: 83805},
+																															pos: position{line: 2681, col: 5, offset: 85020},
 																															run: (*parser).callonDocumentFragment1189,
 																															expr: &seqExpr{
-																																pos: position{line: 2633, col: 5, offset: 83805},
+																																pos: position{line: 2681, col: 5, offset: 85020},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2633, col: 5, offset: 83805},
+																																		pos: position{line: 2681, col: 5, offset: 85020},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2598, col: 22, offset: 83002},
+																																			pos: position{line: 2646, col: 22, offset: 84217},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2594, col: 19, offset: 82922},
+																																					pos: position{line: 2642, col: 19, offset: 84137},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2594, col: 19, offset: 82922},
+																																							pos:        position{line: 2642, col: 19, offset: 84137},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2594, col: 26, offset: 82929},
+																																							pos: position{line: 2642, col: 26, offset: 84144},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2852, col: 10, offset: 90239},
+																																								pos: position{line: 2900, col: 10, offset: 91454},
 																																								run: (*parser).callonDocumentFragment1196,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2852, col: 10, offset: 90239},
+																																									pos:        position{line: 2900, col: 10, offset: 91454},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9433,28 +9433,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2874, col: 8, offset: 90637},
+																																							pos: position{line: 2922, col: 8, offset: 91852},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2861, col: 12, offset: 90410},
+																																									pos: position{line: 2909, col: 12, offset: 91625},
 																																									run: (*parser).callonDocumentFragment1199,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2861, col: 13, offset: 90411},
+																																										pos: position{line: 2909, col: 13, offset: 91626},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 13, offset: 90411},
+																																												pos:        position{line: 2909, col: 13, offset: 91626},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 20, offset: 90418},
+																																												pos:        position{line: 2909, col: 20, offset: 91633},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 29, offset: 90427},
+																																												pos:        position{line: 2909, col: 29, offset: 91642},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9463,9 +9463,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2871, col: 8, offset: 90587},
+																																									pos: position{line: 2919, col: 8, offset: 91802},
 																																									expr: &anyMatcher{
-																																										line: 2871, col: 9, offset: 90588,
+																																										line: 2919, col: 9, offset: 91803,
 																																									},
 																																								},
 																																							},
@@ -9473,16 +9473,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2871, col: 8, offset: 90587},
+																																					pos: position{line: 2919, col: 8, offset: 91802},
 																																					expr: &anyMatcher{
-																																						line: 2871, col: 9, offset: 90588,
+																																						line: 2919, col: 9, offset: 91803,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2634, col: 5, offset: 83828},
+																																		pos: position{line: 2682, col: 5, offset: 85043},
 																																		expr: &actionExpr{
 																																			pos: position{line: 677, col: 14, offset: 21489},
 																																			run: (*parser).callonDocumentFragment1209,
@@ -9490,18 +9490,18 @@ var g = &grammar{
 																																				pos: position{line: 677, col: 14, offset: 21489},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2869, col: 11, offset: 90573},
+																																						pos: position{line: 2917, col: 11, offset: 91788},
 																																						expr: &anyMatcher{
-																																							line: 2869, col: 13, offset: 90575,
+																																							line: 2917, col: 13, offset: 91790,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 677, col: 21, offset: 21496},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2852, col: 10, offset: 90239},
+																																							pos: position{line: 2900, col: 10, offset: 91454},
 																																							run: (*parser).callonDocumentFragment1214,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2852, col: 10, offset: 90239},
+																																								pos:        position{line: 2900, col: 10, offset: 91454},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9510,28 +9510,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2874, col: 8, offset: 90637},
+																																						pos: position{line: 2922, col: 8, offset: 91852},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2861, col: 12, offset: 90410},
+																																								pos: position{line: 2909, col: 12, offset: 91625},
 																																								run: (*parser).callonDocumentFragment1217,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2861, col: 13, offset: 90411},
+																																									pos: position{line: 2909, col: 13, offset: 91626},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 13, offset: 90411},
+																																											pos:        position{line: 2909, col: 13, offset: 91626},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 20, offset: 90418},
+																																											pos:        position{line: 2909, col: 20, offset: 91633},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 29, offset: 90427},
+																																											pos:        position{line: 2909, col: 29, offset: 91642},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9540,9 +9540,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2871, col: 8, offset: 90587},
+																																								pos: position{line: 2919, col: 8, offset: 91802},
 																																								expr: &anyMatcher{
-																																									line: 2871, col: 9, offset: 90588,
+																																									line: 2919, col: 9, offset: 91803,
 																																								},
 																																							},
 																																						},
@@ -9552,17 +9552,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2635, col: 5, offset: 83843},
+																																		pos:   position{line: 2683, col: 5, offset: 85058},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2635, col: 12, offset: 83850},
+																																			pos: position{line: 2683, col: 12, offset: 85065},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2652, col: 20, offset: 84314},
+																																				pos: position{line: 2700, col: 20, offset: 85529},
 																																				run: (*parser).callonDocumentFragment1226,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2652, col: 20, offset: 84314},
+																																					pos: position{line: 2700, col: 20, offset: 85529},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2652, col: 20, offset: 84314},
+																																						pos:        position{line: 2700, col: 20, offset: 85529},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9573,18 +9573,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2635, col: 31, offset: 83869},
+																																		pos:        position{line: 2683, col: 31, offset: 85084},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2635, col: 35, offset: 83873},
+																																		pos: position{line: 2683, col: 35, offset: 85088},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2852, col: 10, offset: 90239},
+																																			pos: position{line: 2900, col: 10, offset: 91454},
 																																			run: (*parser).callonDocumentFragment1231,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2852, col: 10, offset: 90239},
+																																				pos:        position{line: 2900, col: 10, offset: 91454},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9593,27 +9593,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2635, col: 42, offset: 83880},
+																																		pos: position{line: 2683, col: 42, offset: 85095},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2861, col: 12, offset: 90410},
+																																			pos: position{line: 2909, col: 12, offset: 91625},
 																																			run: (*parser).callonDocumentFragment1234,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2861, col: 13, offset: 90411},
+																																				pos: position{line: 2909, col: 13, offset: 91626},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2861, col: 13, offset: 90411},
+																																						pos:        position{line: 2909, col: 13, offset: 91626},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2861, col: 20, offset: 90418},
+																																						pos:        position{line: 2909, col: 20, offset: 91633},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2861, col: 29, offset: 90427},
+																																						pos:        position{line: 2909, col: 29, offset: 91642},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9623,37 +9623,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2635, col: 51, offset: 83889},
+																																		pos:   position{line: 2683, col: 51, offset: 85104},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2641, col: 5, offset: 84048},
+																																			pos: position{line: 2689, col: 5, offset: 85263},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2642, col: 9, offset: 84058},
+																																				pos: position{line: 2690, col: 9, offset: 85273},
 																																				run: (*parser).callonDocumentFragment1241,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2642, col: 9, offset: 84058},
+																																					pos: position{line: 2690, col: 9, offset: 85273},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2642, col: 9, offset: 84058},
+																																							pos: position{line: 2690, col: 9, offset: 85273},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2598, col: 22, offset: 83002},
+																																								pos: position{line: 2646, col: 22, offset: 84217},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2594, col: 19, offset: 82922},
+																																										pos: position{line: 2642, col: 19, offset: 84137},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2594, col: 19, offset: 82922},
+																																												pos:        position{line: 2642, col: 19, offset: 84137},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2594, col: 26, offset: 82929},
+																																												pos: position{line: 2642, col: 26, offset: 84144},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2852, col: 10, offset: 90239},
+																																													pos: position{line: 2900, col: 10, offset: 91454},
 																																													run: (*parser).callonDocumentFragment1248,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2852, col: 10, offset: 90239},
+																																														pos:        position{line: 2900, col: 10, offset: 91454},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9662,28 +9662,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2874, col: 8, offset: 90637},
+																																												pos: position{line: 2922, col: 8, offset: 91852},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2861, col: 12, offset: 90410},
+																																														pos: position{line: 2909, col: 12, offset: 91625},
 																																														run: (*parser).callonDocumentFragment1251,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2861, col: 13, offset: 90411},
+																																															pos: position{line: 2909, col: 13, offset: 91626},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																																	pos:        position{line: 2909, col: 13, offset: 91626},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																																	pos:        position{line: 2909, col: 20, offset: 91633},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																																	pos:        position{line: 2909, col: 29, offset: 91642},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9692,9 +9692,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2871, col: 8, offset: 90587},
+																																														pos: position{line: 2919, col: 8, offset: 91802},
 																																														expr: &anyMatcher{
-																																															line: 2871, col: 9, offset: 90588,
+																																															line: 2919, col: 9, offset: 91803,
 																																														},
 																																													},
 																																												},
@@ -9702,16 +9702,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2871, col: 8, offset: 90587},
+																																										pos: position{line: 2919, col: 8, offset: 91802},
 																																										expr: &anyMatcher{
-																																											line: 2871, col: 9, offset: 90588,
+																																											line: 2919, col: 9, offset: 91803,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2643, col: 9, offset: 84085},
+																																							pos: position{line: 2691, col: 9, offset: 85300},
 																																							expr: &actionExpr{
 																																								pos: position{line: 677, col: 14, offset: 21489},
 																																								run: (*parser).callonDocumentFragment1261,
@@ -9719,18 +9719,18 @@ var g = &grammar{
 																																									pos: position{line: 677, col: 14, offset: 21489},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2869, col: 11, offset: 90573},
+																																											pos: position{line: 2917, col: 11, offset: 91788},
 																																											expr: &anyMatcher{
-																																												line: 2869, col: 13, offset: 90575,
+																																												line: 2917, col: 13, offset: 91790,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 677, col: 21, offset: 21496},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2852, col: 10, offset: 90239},
+																																												pos: position{line: 2900, col: 10, offset: 91454},
 																																												run: (*parser).callonDocumentFragment1266,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2852, col: 10, offset: 90239},
+																																													pos:        position{line: 2900, col: 10, offset: 91454},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9739,28 +9739,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2874, col: 8, offset: 90637},
+																																											pos: position{line: 2922, col: 8, offset: 91852},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2861, col: 12, offset: 90410},
+																																													pos: position{line: 2909, col: 12, offset: 91625},
 																																													run: (*parser).callonDocumentFragment1269,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2861, col: 13, offset: 90411},
+																																														pos: position{line: 2909, col: 13, offset: 91626},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																																pos:        position{line: 2909, col: 13, offset: 91626},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																																pos:        position{line: 2909, col: 20, offset: 91633},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																																pos:        position{line: 2909, col: 29, offset: 91642},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9769,9 +9769,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2871, col: 8, offset: 90587},
+																																													pos: position{line: 2919, col: 8, offset: 91802},
 																																													expr: &anyMatcher{
-																																														line: 2871, col: 9, offset: 90588,
+																																														line: 2919, col: 9, offset: 91803,
 																																													},
 																																												},
 																																											},
@@ -9781,22 +9781,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2644, col: 9, offset: 84104},
+																																							pos: position{line: 2692, col: 9, offset: 85319},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2644, col: 11, offset: 84106},
+																																								pos: position{line: 2692, col: 11, offset: 85321},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2644, col: 11, offset: 84106},
+																																										pos:   position{line: 2692, col: 11, offset: 85321},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2644, col: 18, offset: 84113},
+																																											pos: position{line: 2692, col: 18, offset: 85328},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2652, col: 20, offset: 84314},
+																																												pos: position{line: 2700, col: 20, offset: 85529},
 																																												run: (*parser).callonDocumentFragment1280,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2652, col: 20, offset: 84314},
+																																													pos: position{line: 2700, col: 20, offset: 85529},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2652, col: 20, offset: 84314},
+																																														pos:        position{line: 2700, col: 20, offset: 85529},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9807,7 +9807,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2644, col: 37, offset: 84132},
+																																										pos:        position{line: 2692, col: 37, offset: 85347},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9816,15 +9816,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2645, col: 9, offset: 84145},
+																																							pos:   position{line: 2693, col: 9, offset: 85360},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2645, col: 18, offset: 84154},
+																																								pos: position{line: 2693, col: 18, offset: 85369},
 																																								run: (*parser).callonDocumentFragment1285,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2645, col: 18, offset: 84154},
+																																									pos: position{line: 2693, col: 18, offset: 85369},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2645, col: 18, offset: 84154},
+																																										pos:        position{line: 2693, col: 18, offset: 85369},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9834,30 +9834,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2647, col: 12, offset: 84216},
+																																							pos: position{line: 2695, col: 12, offset: 85431},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2874, col: 8, offset: 90637},
+																																								pos: position{line: 2922, col: 8, offset: 91852},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2861, col: 12, offset: 90410},
+																																										pos: position{line: 2909, col: 12, offset: 91625},
 																																										run: (*parser).callonDocumentFragment1290,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2861, col: 13, offset: 90411},
+																																											pos: position{line: 2909, col: 13, offset: 91626},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2861, col: 13, offset: 90411},
+																																													pos:        position{line: 2909, col: 13, offset: 91626},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2861, col: 20, offset: 90418},
+																																													pos:        position{line: 2909, col: 20, offset: 91633},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2861, col: 29, offset: 90427},
+																																													pos:        position{line: 2909, col: 29, offset: 91642},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9866,9 +9866,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2871, col: 8, offset: 90587},
+																																										pos: position{line: 2919, col: 8, offset: 91802},
 																																										expr: &anyMatcher{
-																																											line: 2871, col: 9, offset: 90588,
+																																											line: 2919, col: 9, offset: 91803,
 																																										},
 																																									},
 																																								},
@@ -9896,18 +9896,18 @@ var g = &grammar{
 																									pos: position{line: 677, col: 14, offset: 21489},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2869, col: 11, offset: 90573},
+																											pos: position{line: 2917, col: 11, offset: 91788},
 																											expr: &anyMatcher{
-																												line: 2869, col: 13, offset: 90575,
+																												line: 2917, col: 13, offset: 91790,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 677, col: 21, offset: 21496},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2900, col: 10, offset: 91454},
 																												run: (*parser).callonDocumentFragment1302,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2900, col: 10, offset: 91454},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -9916,28 +9916,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2922, col: 8, offset: 91852},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2909, col: 12, offset: 91625},
 																													run: (*parser).callonDocumentFragment1305,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2909, col: 13, offset: 91626},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2909, col: 13, offset: 91626},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2909, col: 20, offset: 91633},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2909, col: 29, offset: 91642},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -9946,9 +9946,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2919, col: 8, offset: 91802},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2919, col: 9, offset: 91803,
 																													},
 																												},
 																											},
@@ -9967,24 +9967,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2598, col: 22, offset: 83002},
+														pos: position{line: 2646, col: 22, offset: 84217},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2594, col: 19, offset: 82922},
+																pos: position{line: 2642, col: 19, offset: 84137},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2594, col: 19, offset: 82922},
+																		pos:        position{line: 2642, col: 19, offset: 84137},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2594, col: 26, offset: 82929},
+																		pos: position{line: 2642, col: 26, offset: 84144},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2900, col: 10, offset: 91454},
 																			run: (*parser).callonDocumentFragment1316,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2900, col: 10, offset: 91454},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -9993,28 +9993,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2922, col: 8, offset: 91852},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2909, col: 12, offset: 91625},
 																				run: (*parser).callonDocumentFragment1319,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2909, col: 13, offset: 91626},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2909, col: 13, offset: 91626},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2909, col: 20, offset: 91633},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2909, col: 29, offset: 91642},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10023,9 +10023,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2919, col: 8, offset: 91802},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2919, col: 9, offset: 91803,
 																				},
 																			},
 																		},
@@ -10033,9 +10033,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2919, col: 8, offset: 91802},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2919, col: 9, offset: 91803,
 																},
 															},
 														},
@@ -10044,36 +10044,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
+											pos: position{line: 2510, col: 22, offset: 80439},
 											run: (*parser).callonDocumentFragment1328,
 											expr: &seqExpr{
-												pos: position{line: 2462, col: 22, offset: 79224},
+												pos: position{line: 2510, col: 22, offset: 80439},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2467, col: 31, offset: 79445},
+														pos:        position{line: 2515, col: 31, offset: 80660},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2467, col: 36, offset: 79450},
+														pos: position{line: 2515, col: 36, offset: 80665},
 														expr: &litMatcher{
-															pos:        position{line: 2467, col: 37, offset: 79451},
+															pos:        position{line: 2515, col: 37, offset: 80666},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2462, col: 49, offset: 79251},
+														pos:   position{line: 2510, col: 49, offset: 80466},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
+															pos: position{line: 2846, col: 13, offset: 89980},
 															run: (*parser).callonDocumentFragment1334,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2798, col: 13, offset: 88765},
+																pos: position{line: 2846, col: 13, offset: 89980},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2798, col: 13, offset: 88765},
+																	pos:        position{line: 2846, col: 13, offset: 89980},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10083,28 +10083,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2922, col: 8, offset: 91852},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2909, col: 12, offset: 91625},
 																run: (*parser).callonDocumentFragment1338,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2909, col: 13, offset: 91626},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2909, col: 13, offset: 91626},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2909, col: 20, offset: 91633},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2909, col: 29, offset: 91642},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10113,9 +10113,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2919, col: 8, offset: 91802},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2919, col: 9, offset: 91803,
 																},
 															},
 														},
@@ -10151,10 +10151,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1234, col: 36, offset: 38197},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2900, col: 10, offset: 91454},
 																			run: (*parser).callonDocumentFragment1353,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2900, col: 10, offset: 91454},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10163,28 +10163,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2922, col: 8, offset: 91852},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2909, col: 12, offset: 91625},
 																				run: (*parser).callonDocumentFragment1356,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2909, col: 13, offset: 91626},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2909, col: 13, offset: 91626},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2909, col: 20, offset: 91633},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2909, col: 29, offset: 91642},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10193,9 +10193,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2919, col: 8, offset: 91802},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2919, col: 9, offset: 91803,
 																				},
 																			},
 																		},
@@ -10229,10 +10229,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1234, col: 36, offset: 38197},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
+																													pos: position{line: 2900, col: 10, offset: 91454},
 																													run: (*parser).callonDocumentFragment1373,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2900, col: 10, offset: 91454},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10241,28 +10241,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2922, col: 8, offset: 91852},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
+																														pos: position{line: 2909, col: 12, offset: 91625},
 																														run: (*parser).callonDocumentFragment1376,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2909, col: 13, offset: 91626},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2909, col: 13, offset: 91626},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2909, col: 20, offset: 91633},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2909, col: 29, offset: 91642},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10271,9 +10271,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2919, col: 8, offset: 91802},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2919, col: 9, offset: 91803,
 																														},
 																													},
 																												},
@@ -10300,10 +10300,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1234, col: 36, offset: 38197},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2900, col: 10, offset: 91454},
 																			run: (*parser).callonDocumentFragment1386,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2900, col: 10, offset: 91454},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10312,28 +10312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2922, col: 8, offset: 91852},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2909, col: 12, offset: 91625},
 																				run: (*parser).callonDocumentFragment1389,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2909, col: 13, offset: 91626},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2909, col: 13, offset: 91626},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2909, col: 20, offset: 91633},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2909, col: 29, offset: 91642},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10342,9 +10342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2919, col: 8, offset: 91802},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2919, col: 9, offset: 91803,
 																				},
 																			},
 																		},
@@ -10441,9 +10441,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2919, col: 8, offset: 91802},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2919, col: 9, offset: 91803,
 							},
 						},
 					},
@@ -10515,12 +10515,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2856, col: 11, offset: 90300},
+												pos: position{line: 2904, col: 11, offset: 91515},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2856, col: 11, offset: 90300},
+													pos: position{line: 2904, col: 11, offset: 91515},
 													expr: &charClassMatcher{
-														pos:        position{line: 2856, col: 11, offset: 90300},
+														pos:        position{line: 2904, col: 11, offset: 91515},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10542,28 +10542,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2922, col: 8, offset: 91852},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2909, col: 12, offset: 91625},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2909, col: 13, offset: 91626},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2909, col: 13, offset: 91626},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2909, col: 20, offset: 91633},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2909, col: 29, offset: 91642},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10572,9 +10572,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2919, col: 8, offset: 91802},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2919, col: 9, offset: 91803,
 									},
 								},
 							},
@@ -10618,25 +10618,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2861, col: 12, offset: 90410},
+												pos: position{line: 2909, col: 12, offset: 91625},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2861, col: 13, offset: 90411},
+													pos: position{line: 2909, col: 13, offset: 91626},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2861, col: 13, offset: 90411},
+															pos:        position{line: 2909, col: 13, offset: 91626},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 20, offset: 90418},
+															pos:        position{line: 2909, col: 20, offset: 91633},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 29, offset: 90427},
+															pos:        position{line: 2909, col: 29, offset: 91642},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10647,10 +10647,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 10, offset: 90239},
+													pos: position{line: 2900, col: 10, offset: 91454},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90239},
+														pos:        position{line: 2900, col: 10, offset: 91454},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10720,10 +10720,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2852, col: 10, offset: 90239},
+											pos: position{line: 2900, col: 10, offset: 91454},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 10, offset: 90239},
+												pos:        position{line: 2900, col: 10, offset: 91454},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10732,28 +10732,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2874, col: 8, offset: 90637},
+										pos: position{line: 2922, col: 8, offset: 91852},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2861, col: 12, offset: 90410},
+												pos: position{line: 2909, col: 12, offset: 91625},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2861, col: 13, offset: 90411},
+													pos: position{line: 2909, col: 13, offset: 91626},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2861, col: 13, offset: 90411},
+															pos:        position{line: 2909, col: 13, offset: 91626},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 20, offset: 90418},
+															pos:        position{line: 2909, col: 20, offset: 91633},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 29, offset: 90427},
+															pos:        position{line: 2909, col: 29, offset: 91642},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10762,9 +10762,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2871, col: 8, offset: 90587},
+												pos: position{line: 2919, col: 8, offset: 91802},
 												expr: &anyMatcher{
-													line: 2871, col: 9, offset: 90588,
+													line: 2919, col: 9, offset: 91803,
 												},
 											},
 										},
@@ -10797,23 +10797,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78770},
+										pos: position{line: 2497, col: 5, offset: 79985},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78770},
+											pos: position{line: 2497, col: 5, offset: 79985},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78770},
+													pos: position{line: 2497, col: 5, offset: 79985},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78846},
+													pos:   position{line: 2500, col: 5, offset: 80061},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78864},
+														pos: position{line: 2501, col: 9, offset: 80079},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78865},
+															pos:        position{line: 2501, col: 10, offset: 80080},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10825,10 +10825,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2852, col: 10, offset: 90239},
+										pos: position{line: 2900, col: 10, offset: 91454},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2852, col: 10, offset: 90239},
+											pos:        position{line: 2900, col: 10, offset: 91454},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11665,10 +11665,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 35, offset: 11487},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 10, offset: 90239},
+													pos: position{line: 2900, col: 10, offset: 91454},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90239},
+														pos:        position{line: 2900, col: 10, offset: 91454},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11677,28 +11677,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2874, col: 8, offset: 90637},
+												pos: position{line: 2922, col: 8, offset: 91852},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2861, col: 12, offset: 90410},
+														pos: position{line: 2909, col: 12, offset: 91625},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2861, col: 13, offset: 90411},
+															pos: position{line: 2909, col: 13, offset: 91626},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2861, col: 13, offset: 90411},
+																	pos:        position{line: 2909, col: 13, offset: 91626},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 20, offset: 90418},
+																	pos:        position{line: 2909, col: 20, offset: 91633},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 29, offset: 90427},
+																	pos:        position{line: 2909, col: 29, offset: 91642},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11707,9 +11707,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2871, col: 8, offset: 90587},
+														pos: position{line: 2919, col: 8, offset: 91802},
 														expr: &anyMatcher{
-															line: 2871, col: 9, offset: 90588,
+															line: 2919, col: 9, offset: 91803,
 														},
 													},
 												},
@@ -11723,18 +11723,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2869, col: 11, offset: 90573},
+																pos: position{line: 2917, col: 11, offset: 91788},
 																expr: &anyMatcher{
-																	line: 2869, col: 13, offset: 90575,
+																	line: 2917, col: 13, offset: 91790,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2900, col: 10, offset: 91454},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2900, col: 10, offset: 91454},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11743,28 +11743,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2922, col: 8, offset: 91852},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2909, col: 12, offset: 91625},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2909, col: 13, offset: 91626},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2909, col: 13, offset: 91626},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2909, col: 20, offset: 91633},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2909, col: 29, offset: 91642},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11773,9 +11773,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2919, col: 8, offset: 91802},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2919, col: 9, offset: 91803,
 																		},
 																	},
 																},
@@ -11827,12 +11827,12 @@ var g = &grammar{
 																		pos: position{line: 426, col: 9, offset: 13063},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2746, col: 14, offset: 87408},
+																				pos: position{line: 2794, col: 14, offset: 88623},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2746, col: 14, offset: 87408},
+																					pos: position{line: 2794, col: 14, offset: 88623},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2746, col: 14, offset: 87408},
+																						pos:        position{line: 2794, col: 14, offset: 88623},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11841,10 +11841,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2900, col: 10, offset: 91454},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2900, col: 10, offset: 91454},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11852,27 +11852,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2769, col: 5, offset: 87893},
+																				pos: position{line: 2817, col: 5, offset: 89108},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2770, col: 9, offset: 87903},
+																					pos: position{line: 2818, col: 9, offset: 89118},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2770, col: 10, offset: 87904},
+																							pos:        position{line: 2818, col: 10, offset: 89119},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2772, col: 13, offset: 88001},
+																							pos: position{line: 2820, col: 13, offset: 89216},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2772, col: 13, offset: 88001},
+																									pos: position{line: 2820, col: 13, offset: 89216},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2775, col: 13, offset: 88101},
+																									pos:        position{line: 2823, col: 13, offset: 89316},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -11880,20 +11880,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2775, col: 19, offset: 88107},
+																							pos:        position{line: 2823, col: 19, offset: 89322},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2778, col: 13, offset: 88145},
+																							pos: position{line: 2826, col: 13, offset: 89360},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2778, col: 13, offset: 88145},
+																									pos: position{line: 2826, col: 13, offset: 89360},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2781, col: 14, offset: 88238},
+																									pos:        position{line: 2829, col: 14, offset: 89453},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -11902,18 +11902,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2783, col: 12, offset: 88282},
+																							pos: position{line: 2831, col: 12, offset: 89497},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2783, col: 12, offset: 88282},
+																									pos:        position{line: 2831, col: 12, offset: 89497},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2783, col: 16, offset: 88286},
+																									pos: position{line: 2831, col: 16, offset: 89501},
 																									expr: &litMatcher{
-																										pos:        position{line: 2783, col: 17, offset: 88287},
+																										pos:        position{line: 2831, col: 17, offset: 89502},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12031,10 +12031,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2791, col: 12, offset: 88547},
+																				pos: position{line: 2839, col: 12, offset: 89762},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2791, col: 12, offset: 88547},
+																					pos:        position{line: 2839, col: 12, offset: 89762},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12052,10 +12052,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 376, col: 35, offset: 11642},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 10, offset: 90239},
+													pos: position{line: 2900, col: 10, offset: 91454},
 													run: (*parser).callonBlockAttributes179,
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90239},
+														pos:        position{line: 2900, col: 10, offset: 91454},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12064,28 +12064,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2874, col: 8, offset: 90637},
+												pos: position{line: 2922, col: 8, offset: 91852},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2861, col: 12, offset: 90410},
+														pos: position{line: 2909, col: 12, offset: 91625},
 														run: (*parser).callonBlockAttributes182,
 														expr: &choiceExpr{
-															pos: position{line: 2861, col: 13, offset: 90411},
+															pos: position{line: 2909, col: 13, offset: 91626},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2861, col: 13, offset: 90411},
+																	pos:        position{line: 2909, col: 13, offset: 91626},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 20, offset: 90418},
+																	pos:        position{line: 2909, col: 20, offset: 91633},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 29, offset: 90427},
+																	pos:        position{line: 2909, col: 29, offset: 91642},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12094,9 +12094,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2871, col: 8, offset: 90587},
+														pos: position{line: 2919, col: 8, offset: 91802},
 														expr: &anyMatcher{
-															line: 2871, col: 9, offset: 90588,
+															line: 2919, col: 9, offset: 91803,
 														},
 													},
 												},
@@ -12110,18 +12110,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2869, col: 11, offset: 90573},
+																pos: position{line: 2917, col: 11, offset: 91788},
 																expr: &anyMatcher{
-																	line: 2869, col: 13, offset: 90575,
+																	line: 2917, col: 13, offset: 91790,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2900, col: 10, offset: 91454},
 																	run: (*parser).callonBlockAttributes195,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2900, col: 10, offset: 91454},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12130,28 +12130,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2922, col: 8, offset: 91852},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2909, col: 12, offset: 91625},
 																		run: (*parser).callonBlockAttributes198,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2909, col: 13, offset: 91626},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2909, col: 13, offset: 91626},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2909, col: 20, offset: 91633},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2909, col: 29, offset: 91642},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12160,9 +12160,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2919, col: 8, offset: 91802},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2919, col: 9, offset: 91803,
 																		},
 																	},
 																},
@@ -12191,10 +12191,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 380, col: 44, offset: 11775},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 10, offset: 90239},
+													pos: position{line: 2900, col: 10, offset: 91454},
 													run: (*parser).callonBlockAttributes210,
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90239},
+														pos:        position{line: 2900, col: 10, offset: 91454},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12203,28 +12203,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2874, col: 8, offset: 90637},
+												pos: position{line: 2922, col: 8, offset: 91852},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2861, col: 12, offset: 90410},
+														pos: position{line: 2909, col: 12, offset: 91625},
 														run: (*parser).callonBlockAttributes213,
 														expr: &choiceExpr{
-															pos: position{line: 2861, col: 13, offset: 90411},
+															pos: position{line: 2909, col: 13, offset: 91626},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2861, col: 13, offset: 90411},
+																	pos:        position{line: 2909, col: 13, offset: 91626},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 20, offset: 90418},
+																	pos:        position{line: 2909, col: 20, offset: 91633},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 29, offset: 90427},
+																	pos:        position{line: 2909, col: 29, offset: 91642},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12233,9 +12233,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2871, col: 8, offset: 90587},
+														pos: position{line: 2919, col: 8, offset: 91802},
 														expr: &anyMatcher{
-															line: 2871, col: 9, offset: 90588,
+															line: 2919, col: 9, offset: 91803,
 														},
 													},
 												},
@@ -12249,18 +12249,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2869, col: 11, offset: 90573},
+																pos: position{line: 2917, col: 11, offset: 91788},
 																expr: &anyMatcher{
-																	line: 2869, col: 13, offset: 90575,
+																	line: 2917, col: 13, offset: 91790,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2900, col: 10, offset: 91454},
 																	run: (*parser).callonBlockAttributes226,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2900, col: 10, offset: 91454},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12269,28 +12269,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2922, col: 8, offset: 91852},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2909, col: 12, offset: 91625},
 																		run: (*parser).callonBlockAttributes229,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2909, col: 13, offset: 91626},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2909, col: 13, offset: 91626},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2909, col: 20, offset: 91633},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2909, col: 29, offset: 91642},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12299,9 +12299,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2919, col: 8, offset: 91802},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2919, col: 9, offset: 91803,
 																		},
 																	},
 																},
@@ -12549,10 +12549,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 466, col: 13, offset: 14531},
 										expr: &actionExpr{
-											pos: position{line: 2852, col: 10, offset: 90239},
+											pos: position{line: 2900, col: 10, offset: 91454},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 10, offset: 90239},
+												pos:        position{line: 2900, col: 10, offset: 91454},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13084,10 +13084,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 518, col: 9, offset: 16113},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2900, col: 10, offset: 91454},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2900, col: 10, offset: 91454},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13148,10 +13148,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 524, col: 34, offset: 16256},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2900, col: 10, offset: 91454},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2900, col: 10, offset: 91454},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13191,10 +13191,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 529, col: 13, offset: 16420},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 10, offset: 90239},
+													pos: position{line: 2900, col: 10, offset: 91454},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90239},
+														pos:        position{line: 2900, col: 10, offset: 91454},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13217,10 +13217,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 529, col: 26, offset: 16433},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2900, col: 10, offset: 91454},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2900, col: 10, offset: 91454},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13275,10 +13275,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 549, col: 22, offset: 17080},
 											expr: &actionExpr{
-												pos: position{line: 2852, col: 10, offset: 90239},
+												pos: position{line: 2900, col: 10, offset: 91454},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2852, col: 10, offset: 90239},
+													pos:        position{line: 2900, col: 10, offset: 91454},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13309,10 +13309,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 542, col: 9, offset: 16825},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2900, col: 10, offset: 91454},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2900, col: 10, offset: 91454},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13342,10 +13342,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 543, col: 33, offset: 16865},
 										expr: &actionExpr{
-											pos: position{line: 2852, col: 10, offset: 90239},
+											pos: position{line: 2900, col: 10, offset: 91454},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 10, offset: 90239},
+												pos:        position{line: 2900, col: 10, offset: 91454},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13400,10 +13400,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 559, col: 9, offset: 17297},
 											expr: &actionExpr{
-												pos: position{line: 2852, col: 10, offset: 90239},
+												pos: position{line: 2900, col: 10, offset: 91454},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2852, col: 10, offset: 90239},
+													pos:        position{line: 2900, col: 10, offset: 91454},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13482,12 +13482,12 @@ var g = &grammar{
 							pos: position{line: 572, col: 9, offset: 17614},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2746, col: 14, offset: 87408},
+									pos: position{line: 2794, col: 14, offset: 88623},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2746, col: 14, offset: 87408},
+										pos: position{line: 2794, col: 14, offset: 88623},
 										expr: &charClassMatcher{
-											pos:        position{line: 2746, col: 14, offset: 87408},
+											pos:        position{line: 2794, col: 14, offset: 88623},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13496,10 +13496,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2852, col: 10, offset: 90239},
+									pos: position{line: 2900, col: 10, offset: 91454},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2852, col: 10, offset: 90239},
+										pos:        position{line: 2900, col: 10, offset: 91454},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -13956,10 +13956,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 592, col: 14, offset: 18354},
 											expr: &actionExpr{
-												pos: position{line: 2852, col: 10, offset: 90239},
+												pos: position{line: 2900, col: 10, offset: 91454},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2852, col: 10, offset: 90239},
+													pos:        position{line: 2900, col: 10, offset: 91454},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13996,12 +13996,12 @@ var g = &grammar{
 							pos: position{line: 598, col: 9, offset: 18465},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2746, col: 14, offset: 87408},
+									pos: position{line: 2794, col: 14, offset: 88623},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2746, col: 14, offset: 87408},
+										pos: position{line: 2794, col: 14, offset: 88623},
 										expr: &charClassMatcher{
-											pos:        position{line: 2746, col: 14, offset: 87408},
+											pos:        position{line: 2794, col: 14, offset: 88623},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14010,10 +14010,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2852, col: 10, offset: 90239},
+									pos: position{line: 2900, col: 10, offset: 91454},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2852, col: 10, offset: 90239},
+										pos:        position{line: 2900, col: 10, offset: 91454},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14440,10 +14440,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 619, col: 5, offset: 19321},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2900, col: 10, offset: 91454},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2900, col: 10, offset: 91454},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14833,10 +14833,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2852, col: 10, offset: 90239},
+											pos: position{line: 2900, col: 10, offset: 91454},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 10, offset: 90239},
+												pos:        position{line: 2900, col: 10, offset: 91454},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14887,12 +14887,12 @@ var g = &grammar{
 									pos:   position{line: 686, col: 32, offset: 21849},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2837, col: 7, offset: 89891},
+										pos: position{line: 2885, col: 7, offset: 91106},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2837, col: 7, offset: 89891},
+											pos: position{line: 2885, col: 7, offset: 91106},
 											expr: &charClassMatcher{
-												pos:        position{line: 2837, col: 7, offset: 89891},
+												pos:        position{line: 2885, col: 7, offset: 91106},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -14904,10 +14904,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 40, offset: 21857},
 									expr: &actionExpr{
-										pos: position{line: 2852, col: 10, offset: 90239},
+										pos: position{line: 2900, col: 10, offset: 91454},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2852, col: 10, offset: 90239},
+											pos:        position{line: 2900, col: 10, offset: 91454},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15100,12 +15100,12 @@ var g = &grammar{
 									pos:   position{line: 688, col: 14, offset: 21974},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2837, col: 7, offset: 89891},
+										pos: position{line: 2885, col: 7, offset: 91106},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2837, col: 7, offset: 89891},
+											pos: position{line: 2885, col: 7, offset: 91106},
 											expr: &charClassMatcher{
-												pos:        position{line: 2837, col: 7, offset: 89891},
+												pos:        position{line: 2885, col: 7, offset: 91106},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15149,41 +15149,41 @@ var g = &grammar{
 							pos:   position{line: 692, col: 35, offset: 22087},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2806, col: 17, offset: 88902},
+								pos: position{line: 2854, col: 17, offset: 90117},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2806, col: 17, offset: 88902},
+									pos:   position{line: 2854, col: 17, offset: 90117},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2823, col: 5, offset: 89356},
+										pos: position{line: 2871, col: 5, offset: 90571},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2823, col: 5, offset: 89356},
+											pos:   position{line: 2871, col: 5, offset: 90571},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2823, col: 14, offset: 89365},
+												pos: position{line: 2871, col: 14, offset: 90580},
 												expr: &choiceExpr{
-													pos: position{line: 2824, col: 9, offset: 89375},
+													pos: position{line: 2872, col: 9, offset: 90590},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2824, col: 9, offset: 89375},
+															pos: position{line: 2872, col: 9, offset: 90590},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2824, col: 9, offset: 89375},
+																pos: position{line: 2872, col: 9, offset: 90590},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2824, col: 9, offset: 89375},
+																		pos: position{line: 2872, col: 9, offset: 90590},
 																		expr: &litMatcher{
-																			pos:        position{line: 2824, col: 10, offset: 89376},
+																			pos:        position{line: 2872, col: 10, offset: 90591},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2825, col: 9, offset: 89404},
+																		pos: position{line: 2873, col: 9, offset: 90619},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2825, col: 10, offset: 89405},
+																			pos:        position{line: 2873, col: 10, offset: 90620},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15194,27 +15194,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2828, col: 11, offset: 89617},
+															pos: position{line: 2876, col: 11, offset: 90832},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2828, col: 11, offset: 89617},
+																	pos:        position{line: 2876, col: 11, offset: 90832},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2828, col: 19, offset: 89625},
+																	pos: position{line: 2876, col: 19, offset: 90840},
 																	expr: &seqExpr{
-																		pos: position{line: 2828, col: 21, offset: 89627},
+																		pos: position{line: 2876, col: 21, offset: 90842},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2828, col: 21, offset: 89627},
+																				pos: position{line: 2876, col: 21, offset: 90842},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
+																					pos: position{line: 2900, col: 10, offset: 91454},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2900, col: 10, offset: 91454},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15223,11 +15223,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2828, col: 28, offset: 89634},
+																				pos: position{line: 2876, col: 28, offset: 90849},
 																				expr: &notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -15622,10 +15622,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2831, col: 11, offset: 89754},
+															pos: position{line: 2879, col: 11, offset: 90969},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2831, col: 11, offset: 89754},
+																pos:        position{line: 2879, col: 11, offset: 90969},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -15670,12 +15670,12 @@ var g = &grammar{
 							pos:   position{line: 989, col: 11, offset: 30806},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2802, col: 14, offset: 88832},
+								pos: position{line: 2850, col: 14, offset: 90047},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2802, col: 14, offset: 88832},
+									pos: position{line: 2850, col: 14, offset: 90047},
 									expr: &charClassMatcher{
-										pos:        position{line: 2802, col: 14, offset: 88832},
+										pos:        position{line: 2850, col: 14, offset: 90047},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -15685,28 +15685,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2922, col: 8, offset: 91852},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2909, col: 12, offset: 91625},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2909, col: 13, offset: 91626},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2909, col: 13, offset: 91626},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2909, col: 20, offset: 91633},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2909, col: 29, offset: 91642},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -15715,9 +15715,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2919, col: 8, offset: 91802},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2919, col: 9, offset: 91803,
 									},
 								},
 							},
@@ -15745,36 +15745,36 @@ var g = &grammar{
 								pos: position{line: 1104, col: 6, offset: 33808},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79224},
+										pos: position{line: 2510, col: 22, offset: 80439},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
+											pos: position{line: 2510, col: 22, offset: 80439},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79445},
+													pos:        position{line: 2515, col: 31, offset: 80660},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79450},
+													pos: position{line: 2515, col: 36, offset: 80665},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79451},
+														pos:        position{line: 2515, col: 37, offset: 80666},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79251},
+													pos:   position{line: 2510, col: 49, offset: 80466},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2798, col: 13, offset: 88765},
+														pos: position{line: 2846, col: 13, offset: 89980},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
+															pos: position{line: 2846, col: 13, offset: 89980},
 															expr: &charClassMatcher{
-																pos:        position{line: 2798, col: 13, offset: 88765},
+																pos:        position{line: 2846, col: 13, offset: 89980},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -15784,28 +15784,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2922, col: 8, offset: 91852},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2909, col: 12, offset: 91625},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2909, col: 13, offset: 91626},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2909, col: 13, offset: 91626},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2909, col: 20, offset: 91633},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2909, col: 29, offset: 91642},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -15814,9 +15814,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2919, col: 8, offset: 91802},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2919, col: 9, offset: 91803,
 															},
 														},
 													},
@@ -15867,10 +15867,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23686},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2900, col: 10, offset: 91454},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2900, col: 10, offset: 91454},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -15879,28 +15879,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2922, col: 8, offset: 91852},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2909, col: 12, offset: 91625},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2909, col: 13, offset: 91626},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2909, col: 13, offset: 91626},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2909, col: 20, offset: 91633},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2909, col: 29, offset: 91642},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -15909,9 +15909,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2919, col: 8, offset: 91802},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2919, col: 9, offset: 91803,
 																		},
 																	},
 																},
@@ -15972,10 +15972,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23686},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2900, col: 10, offset: 91454},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2900, col: 10, offset: 91454},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -15984,28 +15984,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2922, col: 8, offset: 91852},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2909, col: 12, offset: 91625},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2909, col: 13, offset: 91626},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2909, col: 13, offset: 91626},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2909, col: 20, offset: 91633},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2909, col: 29, offset: 91642},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16014,9 +16014,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2919, col: 8, offset: 91802},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2919, col: 9, offset: 91803,
 																										},
 																									},
 																								},
@@ -16025,9 +16025,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -16043,21 +16043,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2917, col: 11, offset: 91788},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2917, col: 13, offset: 91790,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2846, col: 13, offset: 89980},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2846, col: 13, offset: 89980},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2846, col: 13, offset: 89980},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16067,28 +16067,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2922, col: 8, offset: 91852},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2909, col: 12, offset: 91625},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2909, col: 13, offset: 91626},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2909, col: 13, offset: 91626},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2909, col: 20, offset: 91633},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2909, col: 29, offset: 91642},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16097,9 +16097,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2919, col: 8, offset: 91802},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2919, col: 9, offset: 91803,
 																								},
 																							},
 																						},
@@ -16155,10 +16155,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23686},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2900, col: 10, offset: 91454},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2900, col: 10, offset: 91454},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16167,28 +16167,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2922, col: 8, offset: 91852},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2909, col: 12, offset: 91625},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2909, col: 13, offset: 91626},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2909, col: 13, offset: 91626},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2909, col: 20, offset: 91633},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2909, col: 29, offset: 91642},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16197,9 +16197,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -16208,9 +16208,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2919, col: 8, offset: 91802},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2919, col: 9, offset: 91803,
 																},
 															},
 														},
@@ -16236,36 +16236,36 @@ var g = &grammar{
 								pos: position{line: 1106, col: 6, offset: 33931},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79224},
+										pos: position{line: 2510, col: 22, offset: 80439},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
+											pos: position{line: 2510, col: 22, offset: 80439},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79445},
+													pos:        position{line: 2515, col: 31, offset: 80660},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79450},
+													pos: position{line: 2515, col: 36, offset: 80665},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79451},
+														pos:        position{line: 2515, col: 37, offset: 80666},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79251},
+													pos:   position{line: 2510, col: 49, offset: 80466},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2798, col: 13, offset: 88765},
+														pos: position{line: 2846, col: 13, offset: 89980},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
+															pos: position{line: 2846, col: 13, offset: 89980},
 															expr: &charClassMatcher{
-																pos:        position{line: 2798, col: 13, offset: 88765},
+																pos:        position{line: 2846, col: 13, offset: 89980},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16275,28 +16275,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2922, col: 8, offset: 91852},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2909, col: 12, offset: 91625},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2909, col: 13, offset: 91626},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2909, col: 13, offset: 91626},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2909, col: 20, offset: 91633},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2909, col: 29, offset: 91642},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16305,9 +16305,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2919, col: 8, offset: 91802},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2919, col: 9, offset: 91803,
 															},
 														},
 													},
@@ -16358,10 +16358,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23686},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2900, col: 10, offset: 91454},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2900, col: 10, offset: 91454},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16370,28 +16370,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2922, col: 8, offset: 91852},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2909, col: 12, offset: 91625},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2909, col: 13, offset: 91626},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2909, col: 13, offset: 91626},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2909, col: 20, offset: 91633},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2909, col: 29, offset: 91642},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16400,9 +16400,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2919, col: 8, offset: 91802},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2919, col: 9, offset: 91803,
 																		},
 																	},
 																},
@@ -16463,10 +16463,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23686},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2900, col: 10, offset: 91454},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2900, col: 10, offset: 91454},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16475,28 +16475,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2922, col: 8, offset: 91852},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2909, col: 12, offset: 91625},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2909, col: 13, offset: 91626},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2909, col: 13, offset: 91626},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2909, col: 20, offset: 91633},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2909, col: 29, offset: 91642},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16505,9 +16505,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2919, col: 8, offset: 91802},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2919, col: 9, offset: 91803,
 																										},
 																									},
 																								},
@@ -16516,9 +16516,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -16534,21 +16534,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2917, col: 11, offset: 91788},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2917, col: 13, offset: 91790,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2846, col: 13, offset: 89980},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2846, col: 13, offset: 89980},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2846, col: 13, offset: 89980},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16558,28 +16558,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2922, col: 8, offset: 91852},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2909, col: 12, offset: 91625},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2909, col: 13, offset: 91626},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2909, col: 13, offset: 91626},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2909, col: 20, offset: 91633},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2909, col: 29, offset: 91642},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16588,9 +16588,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2919, col: 8, offset: 91802},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2919, col: 9, offset: 91803,
 																								},
 																							},
 																						},
@@ -16646,10 +16646,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23686},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2900, col: 10, offset: 91454},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2900, col: 10, offset: 91454},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16658,28 +16658,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2922, col: 8, offset: 91852},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2909, col: 12, offset: 91625},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2909, col: 13, offset: 91626},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2909, col: 13, offset: 91626},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2909, col: 20, offset: 91633},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2909, col: 29, offset: 91642},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16688,9 +16688,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -16699,9 +16699,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2919, col: 8, offset: 91802},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2919, col: 9, offset: 91803,
 																},
 															},
 														},
@@ -16745,10 +16745,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1125, col: 20, offset: 34686},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2900, col: 10, offset: 91454},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2900, col: 10, offset: 91454},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16799,10 +16799,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1144, col: 5, offset: 35291},
 																										expr: &actionExpr{
-																											pos: position{line: 2852, col: 10, offset: 90239},
+																											pos: position{line: 2900, col: 10, offset: 91454},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2852, col: 10, offset: 90239},
+																												pos:        position{line: 2900, col: 10, offset: 91454},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16834,10 +16834,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1148, col: 5, offset: 35390},
 																										expr: &actionExpr{
-																											pos: position{line: 2852, col: 10, offset: 90239},
+																											pos: position{line: 2900, col: 10, offset: 91454},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2852, col: 10, offset: 90239},
+																												pos:        position{line: 2900, col: 10, offset: 91454},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16869,10 +16869,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1152, col: 5, offset: 35487},
 																										expr: &actionExpr{
-																											pos: position{line: 2852, col: 10, offset: 90239},
+																											pos: position{line: 2900, col: 10, offset: 91454},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2852, col: 10, offset: 90239},
+																												pos:        position{line: 2900, col: 10, offset: 91454},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16897,9 +16897,9 @@ var g = &grammar{
 																								pos: position{line: 1158, col: 5, offset: 35609},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2869, col: 11, offset: 90573},
+																										pos: position{line: 2917, col: 11, offset: 91788},
 																										expr: &anyMatcher{
-																											line: 2869, col: 13, offset: 90575,
+																											line: 2917, col: 13, offset: 91790,
 																										},
 																									},
 																									&litMatcher{
@@ -16940,10 +16940,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1130, col: 69, offset: 34879},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2900, col: 10, offset: 91454},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2900, col: 10, offset: 91454},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -16963,10 +16963,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1130, col: 81, offset: 34891},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2900, col: 10, offset: 91454},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2900, col: 10, offset: 91454},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -16984,28 +16984,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2922, col: 8, offset: 91852},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2909, col: 12, offset: 91625},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2909, col: 13, offset: 91626},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2909, col: 13, offset: 91626},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2909, col: 20, offset: 91633},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2909, col: 29, offset: 91642},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17014,9 +17014,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2919, col: 8, offset: 91802},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2919, col: 9, offset: 91803,
 																		},
 																	},
 																},
@@ -17031,36 +17031,36 @@ var g = &grammar{
 													pos: position{line: 1120, col: 6, offset: 34461},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2462, col: 22, offset: 79224},
+															pos: position{line: 2510, col: 22, offset: 80439},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2462, col: 22, offset: 79224},
+																pos: position{line: 2510, col: 22, offset: 80439},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2467, col: 31, offset: 79445},
+																		pos:        position{line: 2515, col: 31, offset: 80660},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2467, col: 36, offset: 79450},
+																		pos: position{line: 2515, col: 36, offset: 80665},
 																		expr: &litMatcher{
-																			pos:        position{line: 2467, col: 37, offset: 79451},
+																			pos:        position{line: 2515, col: 37, offset: 80666},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2462, col: 49, offset: 79251},
+																		pos:   position{line: 2510, col: 49, offset: 80466},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2798, col: 13, offset: 88765},
+																			pos: position{line: 2846, col: 13, offset: 89980},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2798, col: 13, offset: 88765},
+																				pos: position{line: 2846, col: 13, offset: 89980},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2798, col: 13, offset: 88765},
+																					pos:        position{line: 2846, col: 13, offset: 89980},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17070,28 +17070,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2922, col: 8, offset: 91852},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2909, col: 12, offset: 91625},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2909, col: 13, offset: 91626},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2909, col: 13, offset: 91626},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2909, col: 20, offset: 91633},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2909, col: 29, offset: 91642},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17100,9 +17100,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2919, col: 8, offset: 91802},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2919, col: 9, offset: 91803,
 																				},
 																			},
 																		},
@@ -17153,10 +17153,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 742, col: 8, offset: 23686},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2900, col: 10, offset: 91454},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2900, col: 10, offset: 91454},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17165,28 +17165,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2922, col: 8, offset: 91852},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2909, col: 12, offset: 91625},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2909, col: 13, offset: 91626},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2909, col: 13, offset: 91626},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2909, col: 20, offset: 91633},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2909, col: 29, offset: 91642},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17195,9 +17195,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2919, col: 8, offset: 91802},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2919, col: 9, offset: 91803,
 																							},
 																						},
 																					},
@@ -17258,10 +17258,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 742, col: 8, offset: 23686},
 																													expr: &actionExpr{
-																														pos: position{line: 2852, col: 10, offset: 90239},
+																														pos: position{line: 2900, col: 10, offset: 91454},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2852, col: 10, offset: 90239},
+																															pos:        position{line: 2900, col: 10, offset: 91454},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17270,28 +17270,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2874, col: 8, offset: 90637},
+																													pos: position{line: 2922, col: 8, offset: 91852},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2861, col: 12, offset: 90410},
+																															pos: position{line: 2909, col: 12, offset: 91625},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2861, col: 13, offset: 90411},
+																																pos: position{line: 2909, col: 13, offset: 91626},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 13, offset: 90411},
+																																		pos:        position{line: 2909, col: 13, offset: 91626},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 20, offset: 90418},
+																																		pos:        position{line: 2909, col: 20, offset: 91633},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 29, offset: 90427},
+																																		pos:        position{line: 2909, col: 29, offset: 91642},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17300,9 +17300,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2871, col: 8, offset: 90587},
+																															pos: position{line: 2919, col: 8, offset: 91802},
 																															expr: &anyMatcher{
-																																line: 2871, col: 9, offset: 90588,
+																																line: 2919, col: 9, offset: 91803,
 																															},
 																														},
 																													},
@@ -17311,9 +17311,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2919, col: 8, offset: 91802},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2919, col: 9, offset: 91803,
 																										},
 																									},
 																								},
@@ -17329,21 +17329,21 @@ var g = &grammar{
 																									pos: position{line: 811, col: 5, offset: 26088},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2869, col: 11, offset: 90573},
+																											pos: position{line: 2917, col: 11, offset: 91788},
 																											expr: &anyMatcher{
-																												line: 2869, col: 13, offset: 90575,
+																												line: 2917, col: 13, offset: 91790,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 812, col: 5, offset: 26163},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2798, col: 13, offset: 88765},
+																												pos: position{line: 2846, col: 13, offset: 89980},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2798, col: 13, offset: 88765},
+																													pos: position{line: 2846, col: 13, offset: 89980},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2798, col: 13, offset: 88765},
+																														pos:        position{line: 2846, col: 13, offset: 89980},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17353,28 +17353,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2922, col: 8, offset: 91852},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2909, col: 12, offset: 91625},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2909, col: 13, offset: 91626},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2909, col: 13, offset: 91626},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2909, col: 20, offset: 91633},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2909, col: 29, offset: 91642},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17383,9 +17383,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2919, col: 8, offset: 91802},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2919, col: 9, offset: 91803,
 																													},
 																												},
 																											},
@@ -17441,10 +17441,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23686},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2900, col: 10, offset: 91454},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2900, col: 10, offset: 91454},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17453,28 +17453,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2922, col: 8, offset: 91852},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2909, col: 12, offset: 91625},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2909, col: 13, offset: 91626},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2909, col: 13, offset: 91626},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2909, col: 20, offset: 91633},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2909, col: 29, offset: 91642},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17483,9 +17483,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2919, col: 8, offset: 91802},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2919, col: 9, offset: 91803,
 																										},
 																									},
 																								},
@@ -17494,9 +17494,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -17522,10 +17522,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1169, col: 21, offset: 35887},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2900, col: 10, offset: 91454},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2900, col: 10, offset: 91454},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17627,10 +17627,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1181, col: 28, offset: 36518},
 																													expr: &actionExpr{
-																														pos: position{line: 2852, col: 10, offset: 90239},
+																														pos: position{line: 2900, col: 10, offset: 91454},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2852, col: 10, offset: 90239},
+																															pos:        position{line: 2900, col: 10, offset: 91454},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17777,28 +17777,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2922, col: 8, offset: 91852},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2909, col: 12, offset: 91625},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2909, col: 13, offset: 91626},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2909, col: 13, offset: 91626},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2909, col: 20, offset: 91633},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2909, col: 29, offset: 91642},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17807,9 +17807,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2919, col: 8, offset: 91802},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2919, col: 9, offset: 91803,
 																			},
 																		},
 																	},
@@ -17889,10 +17889,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2900, col: 10, offset: 91454},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2900, col: 10, offset: 91454},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -17901,28 +17901,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2922, col: 8, offset: 91852},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2909, col: 12, offset: 91625},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2909, col: 13, offset: 91626},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2909, col: 13, offset: 91626},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2909, col: 20, offset: 91633},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2909, col: 29, offset: 91642},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -17931,9 +17931,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2919, col: 8, offset: 91802},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2919, col: 9, offset: 91803,
 																},
 															},
 														},
@@ -17994,10 +17994,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2900, col: 10, offset: 91454},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2900, col: 10, offset: 91454},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18006,28 +18006,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2922, col: 8, offset: 91852},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2909, col: 12, offset: 91625},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2909, col: 13, offset: 91626},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2909, col: 13, offset: 91626},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2909, col: 20, offset: 91633},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2909, col: 29, offset: 91642},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18036,9 +18036,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2919, col: 8, offset: 91802},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2919, col: 9, offset: 91803,
 																},
 															},
 														},
@@ -18047,36 +18047,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
+											pos: position{line: 2510, col: 22, offset: 80439},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2462, col: 22, offset: 79224},
+												pos: position{line: 2510, col: 22, offset: 80439},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2467, col: 31, offset: 79445},
+														pos:        position{line: 2515, col: 31, offset: 80660},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2467, col: 36, offset: 79450},
+														pos: position{line: 2515, col: 36, offset: 80665},
 														expr: &litMatcher{
-															pos:        position{line: 2467, col: 37, offset: 79451},
+															pos:        position{line: 2515, col: 37, offset: 80666},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2462, col: 49, offset: 79251},
+														pos:   position{line: 2510, col: 49, offset: 80466},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
+															pos: position{line: 2846, col: 13, offset: 89980},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2798, col: 13, offset: 88765},
+																pos: position{line: 2846, col: 13, offset: 89980},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2798, col: 13, offset: 88765},
+																	pos:        position{line: 2846, col: 13, offset: 89980},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18086,28 +18086,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2922, col: 8, offset: 91852},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2909, col: 12, offset: 91625},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2909, col: 13, offset: 91626},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2909, col: 13, offset: 91626},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2909, col: 20, offset: 91633},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2909, col: 29, offset: 91642},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18116,9 +18116,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2919, col: 8, offset: 91802},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2919, col: 9, offset: 91803,
 																},
 															},
 														},
@@ -18169,10 +18169,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23686},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2900, col: 10, offset: 91454},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2900, col: 10, offset: 91454},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18181,28 +18181,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2922, col: 8, offset: 91852},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2909, col: 12, offset: 91625},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2909, col: 13, offset: 91626},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2909, col: 13, offset: 91626},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2909, col: 20, offset: 91633},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2909, col: 29, offset: 91642},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18211,9 +18211,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2919, col: 8, offset: 91802},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2919, col: 9, offset: 91803,
 																			},
 																		},
 																	},
@@ -18274,10 +18274,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 742, col: 8, offset: 23686},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
+																										pos: position{line: 2900, col: 10, offset: 91454},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2900, col: 10, offset: 91454},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18286,28 +18286,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2922, col: 8, offset: 91852},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2909, col: 12, offset: 91625},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2909, col: 13, offset: 91626},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2909, col: 13, offset: 91626},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2909, col: 20, offset: 91633},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2909, col: 29, offset: 91642},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18316,9 +18316,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2919, col: 8, offset: 91802},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2919, col: 9, offset: 91803,
 																											},
 																										},
 																									},
@@ -18327,9 +18327,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2919, col: 8, offset: 91802},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2919, col: 9, offset: 91803,
 																						},
 																					},
 																				},
@@ -18345,21 +18345,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2917, col: 11, offset: 91788},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2917, col: 13, offset: 91790,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2846, col: 13, offset: 89980},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2846, col: 13, offset: 89980},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2846, col: 13, offset: 89980},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18369,28 +18369,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18399,9 +18399,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -18457,10 +18457,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 742, col: 8, offset: 23686},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
+																					pos: position{line: 2900, col: 10, offset: 91454},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2900, col: 10, offset: 91454},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -18469,28 +18469,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
+																				pos: position{line: 2922, col: 8, offset: 91852},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
+																						pos: position{line: 2909, col: 12, offset: 91625},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2909, col: 13, offset: 91626},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2909, col: 13, offset: 91626},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2909, col: 20, offset: 91633},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2909, col: 29, offset: 91642},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -18499,9 +18499,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2919, col: 8, offset: 91802},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2919, col: 9, offset: 91803,
 																						},
 																					},
 																				},
@@ -18510,9 +18510,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2919, col: 8, offset: 91802},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2919, col: 9, offset: 91803,
 																	},
 																},
 															},
@@ -18545,12 +18545,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2856, col: 11, offset: 90300},
+							pos: position{line: 2904, col: 11, offset: 91515},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2856, col: 11, offset: 90300},
+								pos: position{line: 2904, col: 11, offset: 91515},
 								expr: &charClassMatcher{
-									pos:        position{line: 2856, col: 11, offset: 90300},
+									pos:        position{line: 2904, col: 11, offset: 91515},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18567,28 +18567,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2922, col: 8, offset: 91852},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2909, col: 12, offset: 91625},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2909, col: 13, offset: 91626},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2909, col: 13, offset: 91626},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2909, col: 20, offset: 91633},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2909, col: 29, offset: 91642},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -18597,9 +18597,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2919, col: 8, offset: 91802},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2919, col: 9, offset: 91803,
 									},
 								},
 							},
@@ -18638,10 +18638,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1144, col: 5, offset: 35291},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2900, col: 10, offset: 91454},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2900, col: 10, offset: 91454},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18673,10 +18673,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1148, col: 5, offset: 35390},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2900, col: 10, offset: 91454},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2900, col: 10, offset: 91454},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18708,10 +18708,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1152, col: 5, offset: 35487},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2900, col: 10, offset: 91454},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2900, col: 10, offset: 91454},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18777,12 +18777,12 @@ var g = &grammar{
 							pos:   position{line: 1280, col: 13, offset: 39689},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2837, col: 7, offset: 89891},
+								pos: position{line: 2885, col: 7, offset: 91106},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2837, col: 7, offset: 89891},
+									pos: position{line: 2885, col: 7, offset: 91106},
 									expr: &charClassMatcher{
-										pos:        position{line: 2837, col: 7, offset: 89891},
+										pos:        position{line: 2885, col: 7, offset: 91106},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -18851,12 +18851,12 @@ var g = &grammar{
 							pos: position{line: 1291, col: 31, offset: 40149},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2746, col: 14, offset: 87408},
+									pos: position{line: 2794, col: 14, offset: 88623},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2746, col: 14, offset: 87408},
+										pos: position{line: 2794, col: 14, offset: 88623},
 										expr: &charClassMatcher{
-											pos:        position{line: 2746, col: 14, offset: 87408},
+											pos:        position{line: 2794, col: 14, offset: 88623},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -18869,10 +18869,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2852, col: 10, offset: 90239},
+									pos: position{line: 2900, col: 10, offset: 91454},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2852, col: 10, offset: 90239},
+										pos:        position{line: 2900, col: 10, offset: 91454},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -18880,23 +18880,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2449, col: 5, offset: 78770},
+									pos: position{line: 2497, col: 5, offset: 79985},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2449, col: 5, offset: 78770},
+										pos: position{line: 2497, col: 5, offset: 79985},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2449, col: 5, offset: 78770},
+												pos: position{line: 2497, col: 5, offset: 79985},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2452, col: 5, offset: 78846},
+												pos:   position{line: 2500, col: 5, offset: 80061},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2453, col: 9, offset: 78864},
+													pos: position{line: 2501, col: 9, offset: 80079},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2453, col: 10, offset: 78865},
+														pos:        position{line: 2501, col: 10, offset: 80080},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -18992,48 +18992,48 @@ var g = &grammar{
 							pos:   position{line: 1312, col: 15, offset: 40967},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2810, col: 13, offset: 88998},
+								pos: position{line: 2858, col: 13, offset: 90213},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2810, col: 13, offset: 88998},
+									pos: position{line: 2858, col: 13, offset: 90213},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2810, col: 13, offset: 88998},
+											pos:   position{line: 2858, col: 13, offset: 90213},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2810, col: 20, offset: 89005},
+												pos: position{line: 2858, col: 20, offset: 90220},
 												expr: &actionExpr{
-													pos: position{line: 2818, col: 11, offset: 89244},
+													pos: position{line: 2866, col: 11, offset: 90459},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2818, col: 12, offset: 89245},
+														pos: position{line: 2866, col: 12, offset: 90460},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2818, col: 12, offset: 89245},
+																pos:        position{line: 2866, col: 12, offset: 90460},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 24, offset: 89257},
+																pos:        position{line: 2866, col: 24, offset: 90472},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 37, offset: 89270},
+																pos:        position{line: 2866, col: 37, offset: 90485},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 48, offset: 89281},
+																pos:        position{line: 2866, col: 48, offset: 90496},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 59, offset: 89292},
+																pos:        position{line: 2866, col: 59, offset: 90507},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19044,38 +19044,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2810, col: 30, offset: 89015},
+											pos:   position{line: 2858, col: 30, offset: 90230},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2823, col: 5, offset: 89356},
+												pos: position{line: 2871, col: 5, offset: 90571},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2823, col: 5, offset: 89356},
+													pos:   position{line: 2871, col: 5, offset: 90571},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2823, col: 14, offset: 89365},
+														pos: position{line: 2871, col: 14, offset: 90580},
 														expr: &choiceExpr{
-															pos: position{line: 2824, col: 9, offset: 89375},
+															pos: position{line: 2872, col: 9, offset: 90590},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2872, col: 9, offset: 90590},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2824, col: 9, offset: 89375},
+																		pos: position{line: 2872, col: 9, offset: 90590},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2872, col: 9, offset: 90590},
 																				expr: &litMatcher{
-																					pos:        position{line: 2824, col: 10, offset: 89376},
+																					pos:        position{line: 2872, col: 10, offset: 90591},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2825, col: 9, offset: 89404},
+																				pos: position{line: 2873, col: 9, offset: 90619},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2825, col: 10, offset: 89405},
+																					pos:        position{line: 2873, col: 10, offset: 90620},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19086,27 +19086,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2828, col: 11, offset: 89617},
+																	pos: position{line: 2876, col: 11, offset: 90832},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2828, col: 11, offset: 89617},
+																			pos:        position{line: 2876, col: 11, offset: 90832},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2828, col: 19, offset: 89625},
+																			pos: position{line: 2876, col: 19, offset: 90840},
 																			expr: &seqExpr{
-																				pos: position{line: 2828, col: 21, offset: 89627},
+																				pos: position{line: 2876, col: 21, offset: 90842},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2876, col: 21, offset: 90842},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2900, col: 10, offset: 91454},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2900, col: 10, offset: 91454},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19115,11 +19115,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2828, col: 28, offset: 89634},
+																						pos: position{line: 2876, col: 28, offset: 90849},
 																						expr: &notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2919, col: 8, offset: 91802},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2919, col: 9, offset: 91803,
 																							},
 																						},
 																					},
@@ -19514,10 +19514,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2831, col: 11, offset: 89754},
+																	pos: position{line: 2879, col: 11, offset: 90969},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2831, col: 11, offset: 89754},
+																		pos:        position{line: 2879, col: 11, offset: 90969},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -19544,10 +19544,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1312, col: 61, offset: 41013},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2900, col: 10, offset: 91454},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2900, col: 10, offset: 91454},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19556,28 +19556,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2922, col: 8, offset: 91852},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2909, col: 12, offset: 91625},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2909, col: 13, offset: 91626},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2909, col: 13, offset: 91626},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2909, col: 20, offset: 91633},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2909, col: 29, offset: 91642},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19586,9 +19586,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2919, col: 8, offset: 91802},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2919, col: 9, offset: 91803,
 									},
 								},
 							},
@@ -19625,48 +19625,48 @@ var g = &grammar{
 							pos:   position{line: 1317, col: 30, offset: 41259},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2810, col: 13, offset: 88998},
+								pos: position{line: 2858, col: 13, offset: 90213},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2810, col: 13, offset: 88998},
+									pos: position{line: 2858, col: 13, offset: 90213},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2810, col: 13, offset: 88998},
+											pos:   position{line: 2858, col: 13, offset: 90213},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2810, col: 20, offset: 89005},
+												pos: position{line: 2858, col: 20, offset: 90220},
 												expr: &actionExpr{
-													pos: position{line: 2818, col: 11, offset: 89244},
+													pos: position{line: 2866, col: 11, offset: 90459},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2818, col: 12, offset: 89245},
+														pos: position{line: 2866, col: 12, offset: 90460},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2818, col: 12, offset: 89245},
+																pos:        position{line: 2866, col: 12, offset: 90460},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 24, offset: 89257},
+																pos:        position{line: 2866, col: 24, offset: 90472},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 37, offset: 89270},
+																pos:        position{line: 2866, col: 37, offset: 90485},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 48, offset: 89281},
+																pos:        position{line: 2866, col: 48, offset: 90496},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 59, offset: 89292},
+																pos:        position{line: 2866, col: 59, offset: 90507},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19677,38 +19677,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2810, col: 30, offset: 89015},
+											pos:   position{line: 2858, col: 30, offset: 90230},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2823, col: 5, offset: 89356},
+												pos: position{line: 2871, col: 5, offset: 90571},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2823, col: 5, offset: 89356},
+													pos:   position{line: 2871, col: 5, offset: 90571},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2823, col: 14, offset: 89365},
+														pos: position{line: 2871, col: 14, offset: 90580},
 														expr: &choiceExpr{
-															pos: position{line: 2824, col: 9, offset: 89375},
+															pos: position{line: 2872, col: 9, offset: 90590},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2872, col: 9, offset: 90590},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2824, col: 9, offset: 89375},
+																		pos: position{line: 2872, col: 9, offset: 90590},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2872, col: 9, offset: 90590},
 																				expr: &litMatcher{
-																					pos:        position{line: 2824, col: 10, offset: 89376},
+																					pos:        position{line: 2872, col: 10, offset: 90591},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2825, col: 9, offset: 89404},
+																				pos: position{line: 2873, col: 9, offset: 90619},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2825, col: 10, offset: 89405},
+																					pos:        position{line: 2873, col: 10, offset: 90620},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19719,27 +19719,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2828, col: 11, offset: 89617},
+																	pos: position{line: 2876, col: 11, offset: 90832},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2828, col: 11, offset: 89617},
+																			pos:        position{line: 2876, col: 11, offset: 90832},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2828, col: 19, offset: 89625},
+																			pos: position{line: 2876, col: 19, offset: 90840},
 																			expr: &seqExpr{
-																				pos: position{line: 2828, col: 21, offset: 89627},
+																				pos: position{line: 2876, col: 21, offset: 90842},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2876, col: 21, offset: 90842},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2900, col: 10, offset: 91454},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2900, col: 10, offset: 91454},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19748,11 +19748,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2828, col: 28, offset: 89634},
+																						pos: position{line: 2876, col: 28, offset: 90849},
 																						expr: &notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2919, col: 8, offset: 91802},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2919, col: 9, offset: 91803,
 																							},
 																						},
 																					},
@@ -20147,10 +20147,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2831, col: 11, offset: 89754},
+																	pos: position{line: 2879, col: 11, offset: 90969},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2831, col: 11, offset: 89754},
+																		pos:        position{line: 2879, col: 11, offset: 90969},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20245,12 +20245,12 @@ var g = &grammar{
 							expr: &zeroOrOneExpr{
 								pos: position{line: 1331, col: 35, offset: 42167},
 								expr: &actionExpr{
-									pos: position{line: 2746, col: 14, offset: 87408},
+									pos: position{line: 2794, col: 14, offset: 88623},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2746, col: 14, offset: 87408},
+										pos: position{line: 2794, col: 14, offset: 88623},
 										expr: &charClassMatcher{
-											pos:        position{line: 2746, col: 14, offset: 87408},
+											pos:        position{line: 2794, col: 14, offset: 88623},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20288,16 +20288,25 @@ var g = &grammar{
 			name: "FootnoteElements",
 			pos:  position{line: 1337, col: 1, offset: 42371},
 			expr: &actionExpr{
-				pos: position{line: 1337, col: 21, offset: 42391},
+				pos: position{line: 1338, col: 5, offset: 42396},
 				run: (*parser).callonFootnoteElements1,
-				expr: &labeledExpr{
-					pos:   position{line: 1337, col: 21, offset: 42391},
-					label: "elements",
-					expr: &zeroOrMoreExpr{
-						pos: position{line: 1337, col: 30, offset: 42400},
-						expr: &ruleRefExpr{
-							pos:  position{line: 1337, col: 31, offset: 42401},
-							name: "FootnoteElement",
+				expr: &seqExpr{
+					pos: position{line: 1338, col: 5, offset: 42396},
+					exprs: []interface{}{
+						&stateCodeExpr{
+							pos: position{line: 1338, col: 5, offset: 42396},
+							run: (*parser).callonFootnoteElements3,
+						},
+						&labeledExpr{
+							pos:   position{line: 1342, col: 5, offset: 42507},
+							label: "elements",
+							expr: &zeroOrMoreExpr{
+								pos: position{line: 1342, col: 14, offset: 42516},
+								expr: &ruleRefExpr{
+									pos:  position{line: 1342, col: 15, offset: 42517},
+									name: "FootnoteElement",
+								},
+							},
 						},
 					},
 				},
@@ -20305,44 +20314,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1341, col: 1, offset: 42493},
+			pos:  position{line: 1346, col: 1, offset: 42609},
 			expr: &actionExpr{
-				pos: position{line: 1342, col: 5, offset: 42517},
+				pos: position{line: 1347, col: 5, offset: 42633},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1342, col: 5, offset: 42517},
+					pos: position{line: 1347, col: 5, offset: 42633},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1342, col: 5, offset: 42517},
+							pos: position{line: 1347, col: 5, offset: 42633},
 							expr: &litMatcher{
-								pos:        position{line: 1342, col: 6, offset: 42518},
+								pos:        position{line: 1347, col: 6, offset: 42634},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1343, col: 5, offset: 42527},
+							pos:   position{line: 1348, col: 5, offset: 42643},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1344, col: 9, offset: 42545},
+								pos: position{line: 1349, col: 9, offset: 42661},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2751, col: 5, offset: 87481},
+										pos: position{line: 2799, col: 5, offset: 88696},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2751, col: 5, offset: 87481},
+											pos: position{line: 2799, col: 5, offset: 88696},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2751, col: 5, offset: 87481},
+													pos:   position{line: 2799, col: 5, offset: 88696},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2751, col: 11, offset: 87487},
+														pos: position{line: 2799, col: 11, offset: 88702},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2751, col: 11, offset: 87487},
+															pos: position{line: 2799, col: 11, offset: 88702},
 															expr: &charClassMatcher{
-																pos:        position{line: 2751, col: 11, offset: 87487},
+																pos:        position{line: 2799, col: 11, offset: 88702},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20352,36 +20361,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2754, col: 5, offset: 87545},
+													pos: position{line: 2802, col: 5, offset: 88760},
 													expr: &seqExpr{
-														pos: position{line: 2755, col: 9, offset: 87556},
+														pos: position{line: 2803, col: 9, offset: 88771},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2755, col: 9, offset: 87556},
+																pos:        position{line: 2803, col: 9, offset: 88771},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2756, col: 9, offset: 87605},
+																pos: position{line: 2804, col: 9, offset: 88820},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2760, col: 5, offset: 87685},
+													pos: position{line: 2808, col: 5, offset: 88900},
 													expr: &seqExpr{
-														pos: position{line: 2761, col: 9, offset: 87696},
+														pos: position{line: 2809, col: 9, offset: 88911},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2761, col: 9, offset: 87696},
+																pos:        position{line: 2809, col: 9, offset: 88911},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2761, col: 13, offset: 87700},
+																pos:        position{line: 2809, col: 13, offset: 88915},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20394,12 +20403,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2856, col: 11, offset: 90300},
+										pos: position{line: 2904, col: 11, offset: 91515},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2856, col: 11, offset: 90300},
+											pos: position{line: 2904, col: 11, offset: 91515},
 											expr: &charClassMatcher{
-												pos:        position{line: 2856, col: 11, offset: 90300},
+												pos:        position{line: 2904, col: 11, offset: 91515},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -20408,21 +20417,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2480, col: 5, offset: 79941},
+										pos: position{line: 2528, col: 5, offset: 81156},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2480, col: 5, offset: 79941},
+											pos: position{line: 2528, col: 5, offset: 81156},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2480, col: 5, offset: 79941},
+													pos:        position{line: 2528, col: 5, offset: 81156},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2480, col: 10, offset: 79946},
+													pos: position{line: 2528, col: 10, offset: 81161},
 													expr: &charClassMatcher{
-														pos:        position{line: 2480, col: 11, offset: 79947},
+														pos:        position{line: 2528, col: 11, offset: 81162},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20433,29 +20442,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2486, col: 5, offset: 80139},
+										pos: position{line: 2534, col: 5, offset: 81354},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2486, col: 5, offset: 80139},
+											pos: position{line: 2534, col: 5, offset: 81354},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2486, col: 5, offset: 80139},
+													pos: position{line: 2534, col: 5, offset: 81354},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2489, col: 5, offset: 80210},
+													pos: position{line: 2537, col: 5, offset: 81425},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2493, col: 5, offset: 80335},
+													pos:        position{line: 2541, col: 5, offset: 81550},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2493, col: 9, offset: 80339},
+													pos: position{line: 2541, col: 9, offset: 81554},
 													expr: &charClassMatcher{
-														pos:        position{line: 2493, col: 10, offset: 80340},
+														pos:        position{line: 2541, col: 10, offset: 81555},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20466,35 +20475,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1347, col: 11, offset: 42612},
+										pos:  position{line: 1352, col: 11, offset: 42728},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1348, col: 11, offset: 42628},
+										pos:  position{line: 1353, col: 11, offset: 42744},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2769, col: 5, offset: 87893},
+										pos: position{line: 2817, col: 5, offset: 89108},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2770, col: 9, offset: 87903},
+											pos: position{line: 2818, col: 9, offset: 89118},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2770, col: 10, offset: 87904},
+													pos:        position{line: 2818, col: 10, offset: 89119},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2772, col: 13, offset: 88001},
+													pos: position{line: 2820, col: 13, offset: 89216},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2772, col: 13, offset: 88001},
+															pos: position{line: 2820, col: 13, offset: 89216},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2775, col: 13, offset: 88101},
+															pos:        position{line: 2823, col: 13, offset: 89316},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -20502,20 +20511,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2775, col: 19, offset: 88107},
+													pos:        position{line: 2823, col: 19, offset: 89322},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2778, col: 13, offset: 88145},
+													pos: position{line: 2826, col: 13, offset: 89360},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2778, col: 13, offset: 88145},
+															pos: position{line: 2826, col: 13, offset: 89360},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2781, col: 14, offset: 88238},
+															pos:        position{line: 2829, col: 14, offset: 89453},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -20524,18 +20533,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2783, col: 12, offset: 88282},
+													pos: position{line: 2831, col: 12, offset: 89497},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2783, col: 12, offset: 88282},
+															pos:        position{line: 2831, col: 12, offset: 89497},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2783, col: 16, offset: 88286},
+															pos: position{line: 2831, col: 16, offset: 89501},
 															expr: &litMatcher{
-																pos:        position{line: 2783, col: 17, offset: 88287},
+																pos:        position{line: 2831, col: 17, offset: 89502},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -20547,7 +20556,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1350, col: 11, offset: 42701},
+										pos:  position{line: 1355, col: 11, offset: 42817},
 										name: "InlineMacro",
 									},
 									&actionExpr{
@@ -20573,10 +20582,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1214, col: 5, offset: 37589},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2900, col: 10, offset: 91454},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2900, col: 10, offset: 91454},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -20587,28 +20596,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1214, col: 12, offset: 37596},
 													expr: &choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2922, col: 8, offset: 91852},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2909, col: 12, offset: 91625},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2909, col: 13, offset: 91626},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2909, col: 13, offset: 91626},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2909, col: 20, offset: 91633},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2909, col: 29, offset: 91642},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -20617,9 +20626,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2919, col: 8, offset: 91802},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2919, col: 9, offset: 91803,
 																},
 															},
 														},
@@ -20975,23 +20984,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78770},
+										pos: position{line: 2497, col: 5, offset: 79985},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78770},
+											pos: position{line: 2497, col: 5, offset: 79985},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78770},
+													pos: position{line: 2497, col: 5, offset: 79985},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78846},
+													pos:   position{line: 2500, col: 5, offset: 80061},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78864},
+														pos: position{line: 2501, col: 9, offset: 80079},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78865},
+															pos:        position{line: 2501, col: 10, offset: 80080},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21003,25 +21012,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90410},
+										pos: position{line: 2909, col: 12, offset: 91625},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2861, col: 13, offset: 90411},
+											pos: position{line: 2909, col: 13, offset: 91626},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2861, col: 13, offset: 90411},
+													pos:        position{line: 2909, col: 13, offset: 91626},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 20, offset: 90418},
+													pos:        position{line: 2909, col: 20, offset: 91633},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 29, offset: 90427},
+													pos:        position{line: 2909, col: 29, offset: 91642},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21030,10 +21039,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2791, col: 12, offset: 88547},
+										pos: position{line: 2839, col: 12, offset: 89762},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2791, col: 12, offset: 88547},
+											pos:        position{line: 2839, col: 12, offset: 89762},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21049,32 +21058,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1389, col: 1, offset: 44546},
+			pos:  position{line: 1394, col: 1, offset: 44662},
 			expr: &choiceExpr{
-				pos: position{line: 1389, col: 21, offset: 44566},
+				pos: position{line: 1394, col: 21, offset: 44682},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1389, col: 21, offset: 44566},
+						pos: position{line: 1394, col: 21, offset: 44682},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1389, col: 21, offset: 44566},
+							pos: position{line: 1394, col: 21, offset: 44682},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1389, col: 21, offset: 44566},
+									pos:        position{line: 1394, col: 21, offset: 44682},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1389, col: 30, offset: 44575},
+									pos:   position{line: 1394, col: 30, offset: 44691},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1389, col: 38, offset: 44583},
+										pos: position{line: 1394, col: 38, offset: 44699},
 										expr: &actionExpr{
-											pos: position{line: 1395, col: 30, offset: 44909},
+											pos: position{line: 1400, col: 30, offset: 45025},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1395, col: 30, offset: 44909},
+												pos:        position{line: 1400, col: 30, offset: 45025},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21084,7 +21093,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1389, col: 67, offset: 44612},
+									pos:        position{line: 1394, col: 67, offset: 44728},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21093,34 +21102,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1391, col: 9, offset: 44716},
+						pos: position{line: 1396, col: 9, offset: 44832},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1391, col: 9, offset: 44716},
+							pos: position{line: 1396, col: 9, offset: 44832},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1391, col: 9, offset: 44716},
+									pos:        position{line: 1396, col: 9, offset: 44832},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1391, col: 19, offset: 44726},
+									pos:   position{line: 1396, col: 19, offset: 44842},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1391, col: 27, offset: 44734},
+										pos: position{line: 1396, col: 27, offset: 44850},
 										expr: &choiceExpr{
-											pos: position{line: 1391, col: 28, offset: 44735},
+											pos: position{line: 1396, col: 28, offset: 44851},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1391, col: 28, offset: 44735},
+													pos:  position{line: 1396, col: 28, offset: 44851},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1395, col: 30, offset: 44909},
+													pos: position{line: 1400, col: 30, offset: 45025},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1395, col: 30, offset: 44909},
+														pos:        position{line: 1400, col: 30, offset: 45025},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -21132,7 +21141,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1391, col: 69, offset: 44776},
+									pos:        position{line: 1396, col: 69, offset: 44892},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21145,75 +21154,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1402, col: 1, offset: 45165},
+			pos:  position{line: 1407, col: 1, offset: 45281},
 			expr: &choiceExpr{
-				pos: position{line: 1402, col: 9, offset: 45173},
+				pos: position{line: 1407, col: 9, offset: 45289},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1405, col: 5, offset: 45242},
+						pos: position{line: 1410, col: 5, offset: 45358},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1405, col: 5, offset: 45242},
+							pos: position{line: 1410, col: 5, offset: 45358},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1405, col: 5, offset: 45242},
+									pos:        position{line: 1410, col: 5, offset: 45358},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1406, col: 5, offset: 45251},
+									pos:   position{line: 1411, col: 5, offset: 45367},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2814, col: 23, offset: 89125},
+										pos: position{line: 2862, col: 23, offset: 90340},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2814, col: 23, offset: 89125},
+											pos: position{line: 2862, col: 23, offset: 90340},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2814, col: 23, offset: 89125},
+													pos: position{line: 2862, col: 23, offset: 90340},
 													expr: &litMatcher{
-														pos:        position{line: 2814, col: 24, offset: 89126},
+														pos:        position{line: 2862, col: 24, offset: 90341},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 28, offset: 89130},
+													pos:   position{line: 2862, col: 28, offset: 90345},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2818, col: 11, offset: 89244},
+														pos: position{line: 2866, col: 11, offset: 90459},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2818, col: 12, offset: 89245},
+															pos: position{line: 2866, col: 12, offset: 90460},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2818, col: 12, offset: 89245},
+																	pos:        position{line: 2866, col: 12, offset: 90460},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 24, offset: 89257},
+																	pos:        position{line: 2866, col: 24, offset: 90472},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 37, offset: 89270},
+																	pos:        position{line: 2866, col: 37, offset: 90485},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 48, offset: 89281},
+																	pos:        position{line: 2866, col: 48, offset: 90496},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 59, offset: 89292},
+																	pos:        position{line: 2866, col: 59, offset: 90507},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21223,38 +21232,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 44, offset: 89146},
+													pos:   position{line: 2862, col: 44, offset: 90361},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2871, col: 5, offset: 90571},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2871, col: 5, offset: 90571},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2871, col: 14, offset: 90580},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2872, col: 9, offset: 90590},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2872, col: 9, offset: 90590},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2872, col: 9, offset: 90590},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2872, col: 9, offset: 90590},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2872, col: 10, offset: 90591},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2873, col: 9, offset: 90619},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2873, col: 10, offset: 90620},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21265,27 +21274,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2876, col: 11, offset: 90832},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2876, col: 11, offset: 90832},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2876, col: 19, offset: 90840},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2876, col: 21, offset: 90842},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2876, col: 21, offset: 90842},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2900, col: 10, offset: 91454},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2900, col: 10, offset: 91454},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21294,11 +21303,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2876, col: 28, offset: 90849},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -21693,10 +21702,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2879, col: 11, offset: 90969},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2879, col: 11, offset: 90969},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -21713,7 +21722,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1411, col: 5, offset: 45470},
+									pos:        position{line: 1416, col: 5, offset: 45586},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -21722,38 +21731,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1402, col: 19, offset: 45183},
+						pos:  position{line: 1407, col: 19, offset: 45299},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1402, col: 34, offset: 45198},
+						pos:  position{line: 1407, col: 34, offset: 45314},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1440, col: 17, offset: 46463},
+						pos: position{line: 1445, col: 17, offset: 46579},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1440, col: 17, offset: 46463},
+							pos: position{line: 1445, col: 17, offset: 46579},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1440, col: 17, offset: 46463},
+									pos:   position{line: 1445, col: 17, offset: 46579},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1445, col: 5, offset: 46628},
+										pos: position{line: 1450, col: 5, offset: 46744},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1445, col: 5, offset: 46628},
+											pos: position{line: 1450, col: 5, offset: 46744},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1445, col: 5, offset: 46628},
+													pos:   position{line: 1450, col: 5, offset: 46744},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1445, col: 12, offset: 46635},
+														pos: position{line: 1450, col: 12, offset: 46751},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1445, col: 12, offset: 46635},
+															pos: position{line: 1450, col: 12, offset: 46751},
 															expr: &charClassMatcher{
-																pos:        position{line: 1445, col: 12, offset: 46635},
+																pos:        position{line: 1450, col: 12, offset: 46751},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -21765,7 +21774,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1448, col: 5, offset: 46719},
+													pos: position{line: 1453, col: 5, offset: 46835},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -21773,33 +21782,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1440, col: 43, offset: 46489},
+									pos:        position{line: 1445, col: 43, offset: 46605},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1440, col: 47, offset: 46493},
+									pos:   position{line: 1445, col: 47, offset: 46609},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1457, col: 23, offset: 47013},
+										pos: position{line: 1462, col: 23, offset: 47129},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1457, col: 23, offset: 47013},
+											pos: position{line: 1462, col: 23, offset: 47129},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1457, col: 23, offset: 47013},
+													pos:   position{line: 1462, col: 23, offset: 47129},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1457, col: 31, offset: 47021},
+														pos: position{line: 1462, col: 31, offset: 47137},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1457, col: 31, offset: 47021},
+															pos: position{line: 1462, col: 31, offset: 47137},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1457, col: 31, offset: 47021},
+																	pos: position{line: 1462, col: 31, offset: 47137},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1457, col: 31, offset: 47021},
+																		pos:        position{line: 1462, col: 31, offset: 47137},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -21807,20 +21816,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1457, col: 41, offset: 47031},
+																	pos: position{line: 1462, col: 41, offset: 47147},
 																	expr: &seqExpr{
-																		pos: position{line: 1457, col: 42, offset: 47032},
+																		pos: position{line: 1462, col: 42, offset: 47148},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1457, col: 42, offset: 47032},
+																				pos:        position{line: 1462, col: 42, offset: 47148},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1457, col: 46, offset: 47036},
+																				pos: position{line: 1462, col: 46, offset: 47152},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1457, col: 46, offset: 47036},
+																					pos:        position{line: 1462, col: 46, offset: 47152},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21836,7 +21845,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1460, col: 5, offset: 47097},
+													pos: position{line: 1465, col: 5, offset: 47213},
 													run: (*parser).callonLink145,
 												},
 											},
@@ -21851,68 +21860,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1417, col: 1, offset: 45618},
+			pos:  position{line: 1422, col: 1, offset: 45734},
 			expr: &choiceExpr{
-				pos: position{line: 1419, col: 5, offset: 45654},
+				pos: position{line: 1424, col: 5, offset: 45770},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1419, col: 5, offset: 45654},
+						pos: position{line: 1424, col: 5, offset: 45770},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1419, col: 5, offset: 45654},
+							pos: position{line: 1424, col: 5, offset: 45770},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1419, col: 5, offset: 45654},
+									pos:        position{line: 1424, col: 5, offset: 45770},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1419, col: 17, offset: 45666},
+									pos:   position{line: 1424, col: 17, offset: 45782},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2810, col: 13, offset: 88998},
+										pos: position{line: 2858, col: 13, offset: 90213},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2810, col: 13, offset: 88998},
+											pos: position{line: 2858, col: 13, offset: 90213},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2810, col: 13, offset: 88998},
+													pos:   position{line: 2858, col: 13, offset: 90213},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2810, col: 20, offset: 89005},
+														pos: position{line: 2858, col: 20, offset: 90220},
 														expr: &actionExpr{
-															pos: position{line: 2818, col: 11, offset: 89244},
+															pos: position{line: 2866, col: 11, offset: 90459},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2818, col: 12, offset: 89245},
+																pos: position{line: 2866, col: 12, offset: 90460},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 12, offset: 89245},
+																		pos:        position{line: 2866, col: 12, offset: 90460},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 24, offset: 89257},
+																		pos:        position{line: 2866, col: 24, offset: 90472},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 37, offset: 89270},
+																		pos:        position{line: 2866, col: 37, offset: 90485},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 48, offset: 89281},
+																		pos:        position{line: 2866, col: 48, offset: 90496},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 59, offset: 89292},
+																		pos:        position{line: 2866, col: 59, offset: 90507},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -21923,38 +21932,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2810, col: 30, offset: 89015},
+													pos:   position{line: 2858, col: 30, offset: 90230},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2871, col: 5, offset: 90571},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2871, col: 5, offset: 90571},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2871, col: 14, offset: 90580},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2872, col: 9, offset: 90590},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2872, col: 9, offset: 90590},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2872, col: 9, offset: 90590},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2872, col: 9, offset: 90590},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2872, col: 10, offset: 90591},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2873, col: 9, offset: 90619},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2873, col: 10, offset: 90620},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21965,27 +21974,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2876, col: 11, offset: 90832},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2876, col: 11, offset: 90832},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2876, col: 19, offset: 90840},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2876, col: 21, offset: 90842},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2876, col: 21, offset: 90842},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2900, col: 10, offset: 91454},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2900, col: 10, offset: 91454},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21994,11 +22003,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2876, col: 28, offset: 90849},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -22393,10 +22402,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2879, col: 11, offset: 90969},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2879, col: 11, offset: 90969},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22413,10 +22422,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1419, col: 32, offset: 45681},
+									pos:   position{line: 1424, col: 32, offset: 45797},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1419, col: 44, offset: 45693},
+										pos:  position{line: 1424, col: 44, offset: 45809},
 										name: "InlineAttributes",
 									},
 								},
@@ -22424,63 +22433,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1424, col: 5, offset: 45825},
+						pos: position{line: 1429, col: 5, offset: 45941},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1424, col: 5, offset: 45825},
+							pos: position{line: 1429, col: 5, offset: 45941},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1424, col: 5, offset: 45825},
+									pos:        position{line: 1429, col: 5, offset: 45941},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1424, col: 13, offset: 45833},
+									pos:   position{line: 1429, col: 13, offset: 45949},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2810, col: 13, offset: 88998},
+										pos: position{line: 2858, col: 13, offset: 90213},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2810, col: 13, offset: 88998},
+											pos: position{line: 2858, col: 13, offset: 90213},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2810, col: 13, offset: 88998},
+													pos:   position{line: 2858, col: 13, offset: 90213},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2810, col: 20, offset: 89005},
+														pos: position{line: 2858, col: 20, offset: 90220},
 														expr: &actionExpr{
-															pos: position{line: 2818, col: 11, offset: 89244},
+															pos: position{line: 2866, col: 11, offset: 90459},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2818, col: 12, offset: 89245},
+																pos: position{line: 2866, col: 12, offset: 90460},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 12, offset: 89245},
+																		pos:        position{line: 2866, col: 12, offset: 90460},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 24, offset: 89257},
+																		pos:        position{line: 2866, col: 24, offset: 90472},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 37, offset: 89270},
+																		pos:        position{line: 2866, col: 37, offset: 90485},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 48, offset: 89281},
+																		pos:        position{line: 2866, col: 48, offset: 90496},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 59, offset: 89292},
+																		pos:        position{line: 2866, col: 59, offset: 90507},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22491,38 +22500,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2810, col: 30, offset: 89015},
+													pos:   position{line: 2858, col: 30, offset: 90230},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2871, col: 5, offset: 90571},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2871, col: 5, offset: 90571},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2871, col: 14, offset: 90580},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2872, col: 9, offset: 90590},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2872, col: 9, offset: 90590},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2872, col: 9, offset: 90590},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2872, col: 9, offset: 90590},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2872, col: 10, offset: 90591},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2873, col: 9, offset: 90619},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2873, col: 10, offset: 90620},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22533,27 +22542,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2876, col: 11, offset: 90832},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2876, col: 11, offset: 90832},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2876, col: 19, offset: 90840},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2876, col: 21, offset: 90842},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2876, col: 21, offset: 90842},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2900, col: 10, offset: 91454},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2900, col: 10, offset: 91454},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22562,11 +22571,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2876, col: 28, offset: 90849},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -22961,10 +22970,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2879, col: 11, offset: 90969},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2879, col: 11, offset: 90969},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22981,10 +22990,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1424, col: 28, offset: 45848},
+									pos:   position{line: 1429, col: 28, offset: 45964},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1424, col: 40, offset: 45860},
+										pos:  position{line: 1429, col: 40, offset: 45976},
 										name: "InlineAttributes",
 									},
 								},
@@ -22996,75 +23005,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1428, col: 1, offset: 45976},
+			pos:  position{line: 1433, col: 1, offset: 46092},
 			expr: &choiceExpr{
-				pos: position{line: 1431, col: 5, offset: 46138},
+				pos: position{line: 1436, col: 5, offset: 46254},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1431, col: 5, offset: 46138},
+						pos: position{line: 1436, col: 5, offset: 46254},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1431, col: 5, offset: 46138},
+							pos: position{line: 1436, col: 5, offset: 46254},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1431, col: 5, offset: 46138},
+									pos:        position{line: 1436, col: 5, offset: 46254},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1431, col: 9, offset: 46142},
+									pos:   position{line: 1436, col: 9, offset: 46258},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2814, col: 23, offset: 89125},
+										pos: position{line: 2862, col: 23, offset: 90340},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2814, col: 23, offset: 89125},
+											pos: position{line: 2862, col: 23, offset: 90340},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2814, col: 23, offset: 89125},
+													pos: position{line: 2862, col: 23, offset: 90340},
 													expr: &litMatcher{
-														pos:        position{line: 2814, col: 24, offset: 89126},
+														pos:        position{line: 2862, col: 24, offset: 90341},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 28, offset: 89130},
+													pos:   position{line: 2862, col: 28, offset: 90345},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2818, col: 11, offset: 89244},
+														pos: position{line: 2866, col: 11, offset: 90459},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2818, col: 12, offset: 89245},
+															pos: position{line: 2866, col: 12, offset: 90460},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2818, col: 12, offset: 89245},
+																	pos:        position{line: 2866, col: 12, offset: 90460},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 24, offset: 89257},
+																	pos:        position{line: 2866, col: 24, offset: 90472},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 37, offset: 89270},
+																	pos:        position{line: 2866, col: 37, offset: 90485},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 48, offset: 89281},
+																	pos:        position{line: 2866, col: 48, offset: 90496},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 59, offset: 89292},
+																	pos:        position{line: 2866, col: 59, offset: 90507},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23074,38 +23083,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 44, offset: 89146},
+													pos:   position{line: 2862, col: 44, offset: 90361},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2871, col: 5, offset: 90571},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2871, col: 5, offset: 90571},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2871, col: 14, offset: 90580},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2872, col: 9, offset: 90590},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2872, col: 9, offset: 90590},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2872, col: 9, offset: 90590},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2872, col: 9, offset: 90590},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2872, col: 10, offset: 90591},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2873, col: 9, offset: 90619},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2873, col: 10, offset: 90620},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23116,27 +23125,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2876, col: 11, offset: 90832},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2876, col: 11, offset: 90832},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2876, col: 19, offset: 90840},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2876, col: 21, offset: 90842},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2876, col: 21, offset: 90842},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2900, col: 10, offset: 91454},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2900, col: 10, offset: 91454},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23145,11 +23154,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2876, col: 28, offset: 90849},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -23544,10 +23553,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2879, col: 11, offset: 90969},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2879, col: 11, offset: 90969},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23564,12 +23573,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1431, col: 34, offset: 46167},
+									pos:   position{line: 1436, col: 34, offset: 46283},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1431, col: 45, offset: 46178},
+										pos: position{line: 1436, col: 45, offset: 46294},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1431, col: 46, offset: 46179},
+											pos:  position{line: 1436, col: 46, offset: 46295},
 											name: "InlineAttributes",
 										},
 									},
@@ -23578,64 +23587,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1436, col: 5, offset: 46312},
+						pos: position{line: 1441, col: 5, offset: 46428},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1436, col: 5, offset: 46312},
+							pos: position{line: 1441, col: 5, offset: 46428},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1436, col: 5, offset: 46312},
+									pos:   position{line: 1441, col: 5, offset: 46428},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2814, col: 23, offset: 89125},
+										pos: position{line: 2862, col: 23, offset: 90340},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2814, col: 23, offset: 89125},
+											pos: position{line: 2862, col: 23, offset: 90340},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2814, col: 23, offset: 89125},
+													pos: position{line: 2862, col: 23, offset: 90340},
 													expr: &litMatcher{
-														pos:        position{line: 2814, col: 24, offset: 89126},
+														pos:        position{line: 2862, col: 24, offset: 90341},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 28, offset: 89130},
+													pos:   position{line: 2862, col: 28, offset: 90345},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2818, col: 11, offset: 89244},
+														pos: position{line: 2866, col: 11, offset: 90459},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2818, col: 12, offset: 89245},
+															pos: position{line: 2866, col: 12, offset: 90460},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2818, col: 12, offset: 89245},
+																	pos:        position{line: 2866, col: 12, offset: 90460},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 24, offset: 89257},
+																	pos:        position{line: 2866, col: 24, offset: 90472},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 37, offset: 89270},
+																	pos:        position{line: 2866, col: 37, offset: 90485},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 48, offset: 89281},
+																	pos:        position{line: 2866, col: 48, offset: 90496},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 59, offset: 89292},
+																	pos:        position{line: 2866, col: 59, offset: 90507},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23645,38 +23654,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 44, offset: 89146},
+													pos:   position{line: 2862, col: 44, offset: 90361},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2871, col: 5, offset: 90571},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2871, col: 5, offset: 90571},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2871, col: 14, offset: 90580},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2872, col: 9, offset: 90590},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2872, col: 9, offset: 90590},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2872, col: 9, offset: 90590},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2872, col: 9, offset: 90590},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2872, col: 10, offset: 90591},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2873, col: 9, offset: 90619},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2873, col: 10, offset: 90620},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23687,27 +23696,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2876, col: 11, offset: 90832},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2876, col: 11, offset: 90832},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2876, col: 19, offset: 90840},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2876, col: 21, offset: 90842},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2876, col: 21, offset: 90842},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2900, col: 10, offset: 91454},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2900, col: 10, offset: 91454},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23716,11 +23725,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2876, col: 28, offset: 90849},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -24115,10 +24124,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2879, col: 11, offset: 90969},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2879, col: 11, offset: 90969},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24135,12 +24144,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1436, col: 30, offset: 46337},
+									pos:   position{line: 1441, col: 30, offset: 46453},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1436, col: 41, offset: 46348},
+										pos: position{line: 1441, col: 41, offset: 46464},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1436, col: 42, offset: 46349},
+											pos:  position{line: 1441, col: 42, offset: 46465},
 											name: "InlineAttributes",
 										},
 									},
@@ -24153,41 +24162,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1470, col: 1, offset: 47490},
+			pos:  position{line: 1475, col: 1, offset: 47606},
 			expr: &actionExpr{
-				pos: position{line: 1471, col: 5, offset: 47511},
+				pos: position{line: 1476, col: 5, offset: 47627},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1471, col: 5, offset: 47511},
+					pos: position{line: 1476, col: 5, offset: 47627},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1471, col: 5, offset: 47511},
+							pos:   position{line: 1476, col: 5, offset: 47627},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1477, col: 5, offset: 47713},
+								pos: position{line: 1482, col: 5, offset: 47829},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1570, col: 5, offset: 50647},
+										pos: position{line: 1575, col: 5, offset: 50763},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1570, col: 5, offset: 50647},
+											pos: position{line: 1575, col: 5, offset: 50763},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1570, col: 5, offset: 50647},
+													pos:   position{line: 1575, col: 5, offset: 50763},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1577, col: 5, offset: 50855},
+														pos: position{line: 1582, col: 5, offset: 50971},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1577, col: 5, offset: 50855},
+															pos: position{line: 1582, col: 5, offset: 50971},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1577, col: 5, offset: 50855},
+																	pos: position{line: 1582, col: 5, offset: 50971},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2900, col: 10, offset: 91454},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2900, col: 10, offset: 91454},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24196,27 +24205,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1577, col: 12, offset: 50862},
+																	pos:   position{line: 1582, col: 12, offset: 50978},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1579, col: 9, offset: 50925},
+																		pos: position{line: 1584, col: 9, offset: 51041},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1579, col: 9, offset: 50925},
+																				pos: position{line: 1584, col: 9, offset: 51041},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1579, col: 9, offset: 50925},
+																					pos: position{line: 1584, col: 9, offset: 51041},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1579, col: 9, offset: 50925},
+																							pos:   position{line: 1584, col: 9, offset: 51041},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1579, col: 16, offset: 50932},
+																								pos: position{line: 1584, col: 16, offset: 51048},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1579, col: 16, offset: 50932},
+																									pos: position{line: 1584, col: 16, offset: 51048},
 																									expr: &litMatcher{
-																										pos:        position{line: 1579, col: 17, offset: 50933},
+																										pos:        position{line: 1584, col: 17, offset: 51049},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24225,22 +24234,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1583, col: 9, offset: 51033},
+																							pos: position{line: 1588, col: 9, offset: 51149},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1602, col: 11, offset: 51750},
+																				pos: position{line: 1607, col: 11, offset: 51866},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1602, col: 11, offset: 51750},
+																					pos: position{line: 1607, col: 11, offset: 51866},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1602, col: 11, offset: 51750},
+																							pos: position{line: 1607, col: 11, offset: 51866},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1602, col: 12, offset: 51751},
+																								pos:        position{line: 1607, col: 12, offset: 51867},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24248,7 +24257,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1602, col: 20, offset: 51759},
+																							pos:        position{line: 1607, col: 20, offset: 51875},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24257,20 +24266,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1604, col: 13, offset: 51876},
+																				pos: position{line: 1609, col: 13, offset: 51992},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1604, col: 13, offset: 51876},
+																					pos: position{line: 1609, col: 13, offset: 51992},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1604, col: 14, offset: 51877},
+																							pos:        position{line: 1609, col: 14, offset: 51993},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1604, col: 21, offset: 51884},
+																							pos:        position{line: 1609, col: 21, offset: 52000},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24279,20 +24288,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1606, col: 13, offset: 52004},
+																				pos: position{line: 1611, col: 13, offset: 52120},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1606, col: 13, offset: 52004},
+																					pos: position{line: 1611, col: 13, offset: 52120},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1606, col: 14, offset: 52005},
+																							pos:        position{line: 1611, col: 14, offset: 52121},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1606, col: 21, offset: 52012},
+																							pos:        position{line: 1611, col: 21, offset: 52128},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24301,15 +24310,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 13, offset: 52132},
+																				pos: position{line: 1613, col: 13, offset: 52248},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 13, offset: 52132},
+																					pos: position{line: 1613, col: 13, offset: 52248},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 13, offset: 52132},
+																							pos: position{line: 1613, col: 13, offset: 52248},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 14, offset: 52133},
+																								pos:        position{line: 1613, col: 14, offset: 52249},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -24317,7 +24326,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 26, offset: 52145},
+																							pos:        position{line: 1613, col: 26, offset: 52261},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24326,15 +24335,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52265},
+																				pos: position{line: 1615, col: 13, offset: 52381},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52265},
+																					pos: position{line: 1615, col: 13, offset: 52381},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 13, offset: 52265},
+																							pos: position{line: 1615, col: 13, offset: 52381},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 14, offset: 52266},
+																								pos:        position{line: 1615, col: 14, offset: 52382},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -24342,7 +24351,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 26, offset: 52278},
+																							pos:        position{line: 1615, col: 26, offset: 52394},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24354,12 +24363,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2904, col: 11, offset: 91515},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2904, col: 11, offset: 91515},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2904, col: 11, offset: 91515},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24372,26 +24381,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1571, col: 5, offset: 50686},
+													pos:   position{line: 1576, col: 5, offset: 50802},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1523, col: 5, offset: 49269},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1523, col: 5, offset: 49269},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1523, col: 5, offset: 49269},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1523, col: 14, offset: 49278},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1523, col: 15, offset: 49279},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1523, col: 15, offset: 49279},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1523, col: 15, offset: 49279},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24402,28 +24411,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2922, col: 8, offset: 91852},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2909, col: 12, offset: 91625},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2909, col: 13, offset: 91626},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2909, col: 13, offset: 91626},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2909, col: 20, offset: 91633},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2909, col: 29, offset: 91642},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24432,9 +24441,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2919, col: 8, offset: 91802},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2919, col: 9, offset: 91803,
 																			},
 																		},
 																	},
@@ -24447,27 +24456,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1620, col: 5, offset: 52544},
+										pos: position{line: 1625, col: 5, offset: 52660},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1620, col: 5, offset: 52544},
+											pos: position{line: 1625, col: 5, offset: 52660},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1620, col: 5, offset: 52544},
+													pos:   position{line: 1625, col: 5, offset: 52660},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1627, col: 5, offset: 52817},
+														pos: position{line: 1632, col: 5, offset: 52933},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1627, col: 5, offset: 52817},
+															pos: position{line: 1632, col: 5, offset: 52933},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1627, col: 5, offset: 52817},
+																	pos: position{line: 1632, col: 5, offset: 52933},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2900, col: 10, offset: 91454},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2900, col: 10, offset: 91454},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24476,24 +24485,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1628, col: 5, offset: 52829},
+																	pos:   position{line: 1633, col: 5, offset: 52945},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1629, col: 9, offset: 52845},
+																		pos: position{line: 1634, col: 9, offset: 52961},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1629, col: 10, offset: 52846},
+																			pos: position{line: 1634, col: 10, offset: 52962},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1629, col: 11, offset: 52847},
+																					pos:        position{line: 1634, col: 11, offset: 52963},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1629, col: 18, offset: 52854},
+																					pos: position{line: 1634, col: 18, offset: 52970},
 																					expr: &litMatcher{
-																						pos:        position{line: 1629, col: 19, offset: 52855},
+																						pos:        position{line: 1634, col: 19, offset: 52971},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -24504,16 +24513,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1632, col: 7, offset: 52945},
+																	pos: position{line: 1637, col: 7, offset: 53061},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2904, col: 11, offset: 91515},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2904, col: 11, offset: 91515},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2904, col: 11, offset: 91515},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24526,56 +24535,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1621, col: 5, offset: 52585},
+													pos:   position{line: 1626, col: 5, offset: 52701},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1621, col: 16, offset: 52596},
+														pos: position{line: 1626, col: 16, offset: 52712},
 														expr: &actionExpr{
-															pos: position{line: 1642, col: 5, offset: 53210},
+															pos: position{line: 1647, col: 5, offset: 53326},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1642, col: 5, offset: 53210},
+																pos: position{line: 1647, col: 5, offset: 53326},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1642, col: 5, offset: 53210},
+																		pos: position{line: 1647, col: 5, offset: 53326},
 																		expr: &litMatcher{
-																			pos:        position{line: 1642, col: 6, offset: 53211},
+																			pos:        position{line: 1647, col: 6, offset: 53327},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1642, col: 10, offset: 53215},
+																		pos:   position{line: 1647, col: 10, offset: 53331},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1643, col: 7, offset: 53229},
+																			pos: position{line: 1648, col: 7, offset: 53345},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1643, col: 7, offset: 53229},
+																					pos: position{line: 1648, col: 7, offset: 53345},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1643, col: 7, offset: 53229},
+																						pos:        position{line: 1648, col: 7, offset: 53345},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1644, col: 7, offset: 53274},
+																					pos: position{line: 1649, col: 7, offset: 53390},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1644, col: 7, offset: 53274},
+																						pos:        position{line: 1649, col: 7, offset: 53390},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1645, col: 7, offset: 53317},
+																					pos: position{line: 1650, col: 7, offset: 53433},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1645, col: 7, offset: 53317},
+																						pos:        position{line: 1650, col: 7, offset: 53433},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -24585,12 +24594,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2904, col: 11, offset: 91515},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2856, col: 11, offset: 90300},
+																			pos: position{line: 2904, col: 11, offset: 91515},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90300},
+																				pos:        position{line: 2904, col: 11, offset: 91515},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -24604,26 +24613,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1622, col: 5, offset: 52635},
+													pos:   position{line: 1627, col: 5, offset: 52751},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1523, col: 5, offset: 49269},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1523, col: 5, offset: 49269},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1523, col: 5, offset: 49269},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1523, col: 14, offset: 49278},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1523, col: 15, offset: 49279},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1523, col: 15, offset: 49279},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1523, col: 15, offset: 49279},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24634,28 +24643,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2922, col: 8, offset: 91852},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2909, col: 12, offset: 91625},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2909, col: 13, offset: 91626},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2909, col: 13, offset: 91626},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2909, col: 20, offset: 91633},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2909, col: 29, offset: 91642},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24664,9 +24673,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2919, col: 8, offset: 91802},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2919, col: 9, offset: 91803,
 																			},
 																		},
 																	},
@@ -24679,36 +24688,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1710, col: 5, offset: 55157},
+										pos: position{line: 1715, col: 5, offset: 55273},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1710, col: 5, offset: 55157},
+											pos: position{line: 1715, col: 5, offset: 55273},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1710, col: 5, offset: 55157},
+													pos:   position{line: 1715, col: 5, offset: 55273},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1716, col: 5, offset: 55354},
+														pos: position{line: 1721, col: 5, offset: 55470},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1716, col: 5, offset: 55354},
+															pos: position{line: 1721, col: 5, offset: 55470},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1716, col: 5, offset: 55354},
+																	pos:        position{line: 1721, col: 5, offset: 55470},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1716, col: 9, offset: 55358},
+																	pos:   position{line: 1721, col: 9, offset: 55474},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 14, offset: 55363},
+																		pos: position{line: 1721, col: 14, offset: 55479},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1716, col: 14, offset: 55363},
+																			pos: position{line: 1721, col: 14, offset: 55479},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1716, col: 14, offset: 55363},
+																				pos:        position{line: 1721, col: 14, offset: 55479},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -24718,18 +24727,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1716, col: 62, offset: 55411},
+																	pos:        position{line: 1721, col: 62, offset: 55527},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2904, col: 11, offset: 91515},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2904, col: 11, offset: 91515},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2904, col: 11, offset: 91515},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24742,26 +24751,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1711, col: 5, offset: 55193},
+													pos:   position{line: 1716, col: 5, offset: 55309},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1523, col: 5, offset: 49269},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1523, col: 5, offset: 49269},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1523, col: 5, offset: 49269},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1523, col: 14, offset: 49278},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1523, col: 15, offset: 49279},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1523, col: 15, offset: 49279},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1523, col: 15, offset: 49279},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24772,28 +24781,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2922, col: 8, offset: 91852},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2909, col: 12, offset: 91625},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2909, col: 13, offset: 91626},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2909, col: 13, offset: 91626},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2909, col: 20, offset: 91633},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2909, col: 29, offset: 91642},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24802,9 +24811,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2919, col: 8, offset: 91802},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2919, col: 9, offset: 91803,
 																			},
 																		},
 																	},
@@ -24817,40 +24826,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1654, col: 5, offset: 53510},
+										pos: position{line: 1659, col: 5, offset: 53626},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1654, col: 5, offset: 53510},
+											pos: position{line: 1659, col: 5, offset: 53626},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1654, col: 5, offset: 53510},
+													pos:   position{line: 1659, col: 5, offset: 53626},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1662, col: 5, offset: 53836},
+														pos: position{line: 1667, col: 5, offset: 53952},
 														run: (*parser).callonListElements148,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1662, col: 5, offset: 53836},
+															pos: position{line: 1667, col: 5, offset: 53952},
 															expr: &seqExpr{
-																pos: position{line: 1662, col: 6, offset: 53837},
+																pos: position{line: 1667, col: 6, offset: 53953},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1662, col: 6, offset: 53837},
+																		pos: position{line: 1667, col: 6, offset: 53953},
 																		expr: &actionExpr{
-																			pos: position{line: 1667, col: 5, offset: 53987},
+																			pos: position{line: 1672, col: 5, offset: 54103},
 																			run: (*parser).callonListElements152,
 																			expr: &seqExpr{
-																				pos: position{line: 1667, col: 5, offset: 53987},
+																				pos: position{line: 1672, col: 5, offset: 54103},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1667, col: 5, offset: 53987},
+																						pos:   position{line: 1672, col: 5, offset: 54103},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1667, col: 16, offset: 53998},
+																							pos: position{line: 1672, col: 16, offset: 54114},
 																							run: (*parser).callonListElements155,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1667, col: 16, offset: 53998},
+																								pos: position{line: 1672, col: 16, offset: 54114},
 																								expr: &litMatcher{
-																									pos:        position{line: 1667, col: 17, offset: 53999},
+																									pos:        position{line: 1672, col: 17, offset: 54115},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -24859,7 +24868,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1670, col: 5, offset: 54056},
+																						pos: position{line: 1675, col: 5, offset: 54172},
 																						run: (*parser).callonListElements158,
 																					},
 																				},
@@ -24867,30 +24876,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1662, col: 35, offset: 53866},
+																		pos: position{line: 1667, col: 35, offset: 53982},
 																		expr: &choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2922, col: 8, offset: 91852},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2909, col: 12, offset: 91625},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2909, col: 13, offset: 91626},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2909, col: 13, offset: 91626},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2909, col: 20, offset: 91633},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2909, col: 29, offset: 91642},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -24899,16 +24908,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1662, col: 40, offset: 53871,
+																		line: 1667, col: 40, offset: 53987,
 																	},
 																},
 															},
@@ -24916,24 +24925,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1655, col: 5, offset: 53545},
+													pos:   position{line: 1660, col: 5, offset: 53661},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1667, col: 5, offset: 53987},
+														pos: position{line: 1672, col: 5, offset: 54103},
 														run: (*parser).callonListElements170,
 														expr: &seqExpr{
-															pos: position{line: 1667, col: 5, offset: 53987},
+															pos: position{line: 1672, col: 5, offset: 54103},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1667, col: 5, offset: 53987},
+																	pos:   position{line: 1672, col: 5, offset: 54103},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1667, col: 16, offset: 53998},
+																		pos: position{line: 1672, col: 16, offset: 54114},
 																		run: (*parser).callonListElements173,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1667, col: 16, offset: 53998},
+																			pos: position{line: 1672, col: 16, offset: 54114},
 																			expr: &litMatcher{
-																				pos:        position{line: 1667, col: 17, offset: 53999},
+																				pos:        position{line: 1672, col: 17, offset: 54115},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -24942,7 +24951,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1670, col: 5, offset: 54056},
+																	pos: position{line: 1675, col: 5, offset: 54172},
 																	run: (*parser).callonListElements176,
 																},
 															},
@@ -24950,24 +24959,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1656, col: 5, offset: 53590},
+													pos:   position{line: 1661, col: 5, offset: 53706},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1678, col: 5, offset: 54305},
+														pos: position{line: 1683, col: 5, offset: 54421},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1680, col: 9, offset: 54371},
+																pos: position{line: 1685, col: 9, offset: 54487},
 																run: (*parser).callonListElements179,
 																expr: &seqExpr{
-																	pos: position{line: 1680, col: 9, offset: 54371},
+																	pos: position{line: 1685, col: 9, offset: 54487},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1680, col: 9, offset: 54371},
+																			pos: position{line: 1685, col: 9, offset: 54487},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2900, col: 10, offset: 91454},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2900, col: 10, offset: 91454},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -24976,28 +24985,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2922, col: 8, offset: 91852},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2909, col: 12, offset: 91625},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2909, col: 13, offset: 91626},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2909, col: 13, offset: 91626},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2909, col: 20, offset: 91633},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2909, col: 29, offset: 91642},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25006,15 +25015,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1681, col: 9, offset: 54390},
+																			pos: position{line: 1686, col: 9, offset: 54506},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21489},
 																				run: (*parser).callonListElements193,
@@ -25022,18 +25031,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21489},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2917, col: 11, offset: 91788},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2917, col: 13, offset: 91790,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21496},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2900, col: 10, offset: 91454},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2900, col: 10, offset: 91454},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25042,28 +25051,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25072,9 +25081,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -25087,18 +25096,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1687, col: 9, offset: 54519},
+																pos: position{line: 1692, col: 9, offset: 54635},
 																run: (*parser).callonListElements208,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 9, offset: 54519},
+																	pos: position{line: 1692, col: 9, offset: 54635},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90300},
+																			pos: position{line: 2904, col: 11, offset: 91515},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2856, col: 11, offset: 90300},
+																				pos: position{line: 2904, col: 11, offset: 91515},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2856, col: 11, offset: 90300},
+																					pos:        position{line: 2904, col: 11, offset: 91515},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25107,15 +25116,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1688, col: 9, offset: 54592},
+																			pos:   position{line: 1693, col: 9, offset: 54708},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1688, col: 18, offset: 54601},
+																				pos: position{line: 1693, col: 18, offset: 54717},
 																				run: (*parser).callonListElements214,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1688, col: 18, offset: 54601},
+																					pos: position{line: 1693, col: 18, offset: 54717},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1688, col: 18, offset: 54601},
+																						pos:        position{line: 1693, col: 18, offset: 54717},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25125,28 +25134,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2922, col: 8, offset: 91852},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2909, col: 12, offset: 91625},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2909, col: 13, offset: 91626},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2909, col: 13, offset: 91626},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2909, col: 20, offset: 91633},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2909, col: 29, offset: 91642},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25155,9 +25164,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -25175,10 +25184,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1472, col: 5, offset: 47542},
+							pos:   position{line: 1477, col: 5, offset: 47658},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1472, col: 20, offset: 47557},
+								pos:  position{line: 1477, col: 20, offset: 47673},
 								name: "ExtraListElements",
 							},
 						},
@@ -25188,17 +25197,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1482, col: 1, offset: 47812},
+			pos:  position{line: 1487, col: 1, offset: 47928},
 			expr: &actionExpr{
-				pos: position{line: 1482, col: 22, offset: 47833},
+				pos: position{line: 1487, col: 22, offset: 47949},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1482, col: 22, offset: 47833},
+					pos:   position{line: 1487, col: 22, offset: 47949},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1482, col: 31, offset: 47842},
+						pos: position{line: 1487, col: 31, offset: 47958},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1482, col: 32, offset: 47843},
+							pos:  position{line: 1487, col: 32, offset: 47959},
 							name: "ExtraListElement",
 						},
 					},
@@ -25207,33 +25216,33 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1486, col: 1, offset: 47923},
+			pos:  position{line: 1491, col: 1, offset: 48039},
 			expr: &actionExpr{
-				pos: position{line: 1487, col: 5, offset: 48062},
+				pos: position{line: 1492, col: 5, offset: 48178},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1487, col: 5, offset: 48062},
+					pos: position{line: 1492, col: 5, offset: 48178},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2917, col: 11, offset: 91788},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2917, col: 13, offset: 91790,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1488, col: 5, offset: 48074},
+							pos:   position{line: 1493, col: 5, offset: 48190},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1489, col: 9, offset: 48092},
+								pos: position{line: 1494, col: 9, offset: 48208},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1489, col: 13, offset: 48096},
+										pos: position{line: 1494, col: 13, offset: 48212},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1489, col: 13, offset: 48096},
+											pos: position{line: 1494, col: 13, offset: 48212},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1489, col: 13, offset: 48096},
+													pos: position{line: 1494, col: 13, offset: 48212},
 													expr: &actionExpr{
 														pos: position{line: 677, col: 14, offset: 21489},
 														run: (*parser).callonExtraListElement10,
@@ -25241,18 +25250,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21489},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2869, col: 11, offset: 90573},
+																	pos: position{line: 2917, col: 11, offset: 91788},
 																	expr: &anyMatcher{
-																		line: 2869, col: 13, offset: 90575,
+																		line: 2917, col: 13, offset: 91790,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21496},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2900, col: 10, offset: 91454},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2900, col: 10, offset: 91454},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25261,28 +25270,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2922, col: 8, offset: 91852},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2909, col: 12, offset: 91625},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2909, col: 13, offset: 91626},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2909, col: 13, offset: 91626},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2909, col: 20, offset: 91633},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2909, col: 29, offset: 91642},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25291,9 +25300,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2919, col: 8, offset: 91802},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2919, col: 9, offset: 91803,
 																			},
 																		},
 																	},
@@ -25303,33 +25312,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1490, col: 13, offset: 48120},
+													pos:   position{line: 1495, col: 13, offset: 48236},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1490, col: 22, offset: 48129},
+														pos: position{line: 1495, col: 22, offset: 48245},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1570, col: 5, offset: 50647},
+																pos: position{line: 1575, col: 5, offset: 50763},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1570, col: 5, offset: 50647},
+																	pos: position{line: 1575, col: 5, offset: 50763},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1570, col: 5, offset: 50647},
+																			pos:   position{line: 1575, col: 5, offset: 50763},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1577, col: 5, offset: 50855},
+																				pos: position{line: 1582, col: 5, offset: 50971},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1577, col: 5, offset: 50855},
+																					pos: position{line: 1582, col: 5, offset: 50971},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1577, col: 5, offset: 50855},
+																							pos: position{line: 1582, col: 5, offset: 50971},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2900, col: 10, offset: 91454},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2900, col: 10, offset: 91454},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25338,27 +25347,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1577, col: 12, offset: 50862},
+																							pos:   position{line: 1582, col: 12, offset: 50978},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1579, col: 9, offset: 50925},
+																								pos: position{line: 1584, col: 9, offset: 51041},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1579, col: 9, offset: 50925},
+																										pos: position{line: 1584, col: 9, offset: 51041},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1579, col: 9, offset: 50925},
+																											pos: position{line: 1584, col: 9, offset: 51041},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1579, col: 9, offset: 50925},
+																													pos:   position{line: 1584, col: 9, offset: 51041},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1579, col: 16, offset: 50932},
+																														pos: position{line: 1584, col: 16, offset: 51048},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1579, col: 16, offset: 50932},
+																															pos: position{line: 1584, col: 16, offset: 51048},
 																															expr: &litMatcher{
-																																pos:        position{line: 1579, col: 17, offset: 50933},
+																																pos:        position{line: 1584, col: 17, offset: 51049},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -25367,22 +25376,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1583, col: 9, offset: 51033},
+																													pos: position{line: 1588, col: 9, offset: 51149},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1602, col: 11, offset: 51750},
+																										pos: position{line: 1607, col: 11, offset: 51866},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1602, col: 11, offset: 51750},
+																											pos: position{line: 1607, col: 11, offset: 51866},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1602, col: 11, offset: 51750},
+																													pos: position{line: 1607, col: 11, offset: 51866},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1602, col: 12, offset: 51751},
+																														pos:        position{line: 1607, col: 12, offset: 51867},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -25390,7 +25399,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1602, col: 20, offset: 51759},
+																													pos:        position{line: 1607, col: 20, offset: 51875},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25399,20 +25408,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1604, col: 13, offset: 51876},
+																										pos: position{line: 1609, col: 13, offset: 51992},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1604, col: 13, offset: 51876},
+																											pos: position{line: 1609, col: 13, offset: 51992},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1604, col: 14, offset: 51877},
+																													pos:        position{line: 1609, col: 14, offset: 51993},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1604, col: 21, offset: 51884},
+																													pos:        position{line: 1609, col: 21, offset: 52000},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25421,20 +25430,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1606, col: 13, offset: 52004},
+																										pos: position{line: 1611, col: 13, offset: 52120},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1606, col: 13, offset: 52004},
+																											pos: position{line: 1611, col: 13, offset: 52120},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1606, col: 14, offset: 52005},
+																													pos:        position{line: 1611, col: 14, offset: 52121},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1606, col: 21, offset: 52012},
+																													pos:        position{line: 1611, col: 21, offset: 52128},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25443,15 +25452,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1608, col: 13, offset: 52132},
+																										pos: position{line: 1613, col: 13, offset: 52248},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1608, col: 13, offset: 52132},
+																											pos: position{line: 1613, col: 13, offset: 52248},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1608, col: 13, offset: 52132},
+																													pos: position{line: 1613, col: 13, offset: 52248},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1608, col: 14, offset: 52133},
+																														pos:        position{line: 1613, col: 14, offset: 52249},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -25459,7 +25468,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1608, col: 26, offset: 52145},
+																													pos:        position{line: 1613, col: 26, offset: 52261},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25468,15 +25477,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1610, col: 13, offset: 52265},
+																										pos: position{line: 1615, col: 13, offset: 52381},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 13, offset: 52265},
+																											pos: position{line: 1615, col: 13, offset: 52381},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1610, col: 13, offset: 52265},
+																													pos: position{line: 1615, col: 13, offset: 52381},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1610, col: 14, offset: 52266},
+																														pos:        position{line: 1615, col: 14, offset: 52382},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -25484,7 +25493,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1610, col: 26, offset: 52278},
+																													pos:        position{line: 1615, col: 26, offset: 52394},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25496,12 +25505,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2904, col: 11, offset: 91515},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2904, col: 11, offset: 91515},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2904, col: 11, offset: 91515},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25514,26 +25523,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1571, col: 5, offset: 50686},
+																			pos:   position{line: 1576, col: 5, offset: 50802},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1523, col: 5, offset: 49269},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1523, col: 5, offset: 49269},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1523, col: 5, offset: 49269},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1523, col: 14, offset: 49278},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1523, col: 15, offset: 49279},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1523, col: 15, offset: 49279},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1523, col: 15, offset: 49279},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25544,28 +25553,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25574,9 +25583,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -25589,27 +25598,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1620, col: 5, offset: 52544},
+																pos: position{line: 1625, col: 5, offset: 52660},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1620, col: 5, offset: 52544},
+																	pos: position{line: 1625, col: 5, offset: 52660},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1620, col: 5, offset: 52544},
+																			pos:   position{line: 1625, col: 5, offset: 52660},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1627, col: 5, offset: 52817},
+																				pos: position{line: 1632, col: 5, offset: 52933},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1627, col: 5, offset: 52817},
+																					pos: position{line: 1632, col: 5, offset: 52933},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1627, col: 5, offset: 52817},
+																							pos: position{line: 1632, col: 5, offset: 52933},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2900, col: 10, offset: 91454},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2900, col: 10, offset: 91454},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25618,24 +25627,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1628, col: 5, offset: 52829},
+																							pos:   position{line: 1633, col: 5, offset: 52945},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1629, col: 9, offset: 52845},
+																								pos: position{line: 1634, col: 9, offset: 52961},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1629, col: 10, offset: 52846},
+																									pos: position{line: 1634, col: 10, offset: 52962},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1629, col: 11, offset: 52847},
+																											pos:        position{line: 1634, col: 11, offset: 52963},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1629, col: 18, offset: 52854},
+																											pos: position{line: 1634, col: 18, offset: 52970},
 																											expr: &litMatcher{
-																												pos:        position{line: 1629, col: 19, offset: 52855},
+																												pos:        position{line: 1634, col: 19, offset: 52971},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -25646,16 +25655,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1632, col: 7, offset: 52945},
+																							pos: position{line: 1637, col: 7, offset: 53061},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2904, col: 11, offset: 91515},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2904, col: 11, offset: 91515},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2904, col: 11, offset: 91515},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25668,56 +25677,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1621, col: 5, offset: 52585},
+																			pos:   position{line: 1626, col: 5, offset: 52701},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1621, col: 16, offset: 52596},
+																				pos: position{line: 1626, col: 16, offset: 52712},
 																				expr: &actionExpr{
-																					pos: position{line: 1642, col: 5, offset: 53210},
+																					pos: position{line: 1647, col: 5, offset: 53326},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1642, col: 5, offset: 53210},
+																						pos: position{line: 1647, col: 5, offset: 53326},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1642, col: 5, offset: 53210},
+																								pos: position{line: 1647, col: 5, offset: 53326},
 																								expr: &litMatcher{
-																									pos:        position{line: 1642, col: 6, offset: 53211},
+																									pos:        position{line: 1647, col: 6, offset: 53327},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1642, col: 10, offset: 53215},
+																								pos:   position{line: 1647, col: 10, offset: 53331},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1643, col: 7, offset: 53229},
+																									pos: position{line: 1648, col: 7, offset: 53345},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1643, col: 7, offset: 53229},
+																											pos: position{line: 1648, col: 7, offset: 53345},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1643, col: 7, offset: 53229},
+																												pos:        position{line: 1648, col: 7, offset: 53345},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1644, col: 7, offset: 53274},
+																											pos: position{line: 1649, col: 7, offset: 53390},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1644, col: 7, offset: 53274},
+																												pos:        position{line: 1649, col: 7, offset: 53390},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1645, col: 7, offset: 53317},
+																											pos: position{line: 1650, col: 7, offset: 53433},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1645, col: 7, offset: 53317},
+																												pos:        position{line: 1650, col: 7, offset: 53433},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -25727,12 +25736,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2904, col: 11, offset: 91515},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2856, col: 11, offset: 90300},
+																									pos: position{line: 2904, col: 11, offset: 91515},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2856, col: 11, offset: 90300},
+																										pos:        position{line: 2904, col: 11, offset: 91515},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -25746,26 +25755,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1622, col: 5, offset: 52635},
+																			pos:   position{line: 1627, col: 5, offset: 52751},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1523, col: 5, offset: 49269},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1523, col: 5, offset: 49269},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1523, col: 5, offset: 49269},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1523, col: 14, offset: 49278},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1523, col: 15, offset: 49279},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1523, col: 15, offset: 49279},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1523, col: 15, offset: 49279},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25776,28 +25785,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25806,9 +25815,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -25821,36 +25830,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1710, col: 5, offset: 55157},
+																pos: position{line: 1715, col: 5, offset: 55273},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1710, col: 5, offset: 55157},
+																	pos: position{line: 1715, col: 5, offset: 55273},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1710, col: 5, offset: 55157},
+																			pos:   position{line: 1715, col: 5, offset: 55273},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1716, col: 5, offset: 55354},
+																				pos: position{line: 1721, col: 5, offset: 55470},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1716, col: 5, offset: 55354},
+																					pos: position{line: 1721, col: 5, offset: 55470},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 5, offset: 55354},
+																							pos:        position{line: 1721, col: 5, offset: 55470},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1716, col: 9, offset: 55358},
+																							pos:   position{line: 1721, col: 9, offset: 55474},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1716, col: 14, offset: 55363},
+																								pos: position{line: 1721, col: 14, offset: 55479},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1716, col: 14, offset: 55363},
+																									pos: position{line: 1721, col: 14, offset: 55479},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1716, col: 14, offset: 55363},
+																										pos:        position{line: 1721, col: 14, offset: 55479},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -25860,18 +25869,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 62, offset: 55411},
+																							pos:        position{line: 1721, col: 62, offset: 55527},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2904, col: 11, offset: 91515},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2904, col: 11, offset: 91515},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2904, col: 11, offset: 91515},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25884,26 +25893,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1711, col: 5, offset: 55193},
+																			pos:   position{line: 1716, col: 5, offset: 55309},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1523, col: 5, offset: 49269},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1523, col: 5, offset: 49269},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1523, col: 5, offset: 49269},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1523, col: 14, offset: 49278},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1523, col: 15, offset: 49279},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1523, col: 15, offset: 49279},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1523, col: 15, offset: 49279},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25914,28 +25923,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25944,9 +25953,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -25959,40 +25968,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1654, col: 5, offset: 53510},
+																pos: position{line: 1659, col: 5, offset: 53626},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1654, col: 5, offset: 53510},
+																	pos: position{line: 1659, col: 5, offset: 53626},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1654, col: 5, offset: 53510},
+																			pos:   position{line: 1659, col: 5, offset: 53626},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1662, col: 5, offset: 53836},
+																				pos: position{line: 1667, col: 5, offset: 53952},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1662, col: 5, offset: 53836},
+																					pos: position{line: 1667, col: 5, offset: 53952},
 																					expr: &seqExpr{
-																						pos: position{line: 1662, col: 6, offset: 53837},
+																						pos: position{line: 1667, col: 6, offset: 53953},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1662, col: 6, offset: 53837},
+																								pos: position{line: 1667, col: 6, offset: 53953},
 																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 5, offset: 53987},
+																									pos: position{line: 1672, col: 5, offset: 54103},
 																									run: (*parser).callonExtraListElement174,
 																									expr: &seqExpr{
-																										pos: position{line: 1667, col: 5, offset: 53987},
+																										pos: position{line: 1672, col: 5, offset: 54103},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1667, col: 5, offset: 53987},
+																												pos:   position{line: 1672, col: 5, offset: 54103},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1667, col: 16, offset: 53998},
+																													pos: position{line: 1672, col: 16, offset: 54114},
 																													run: (*parser).callonExtraListElement177,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1667, col: 16, offset: 53998},
+																														pos: position{line: 1672, col: 16, offset: 54114},
 																														expr: &litMatcher{
-																															pos:        position{line: 1667, col: 17, offset: 53999},
+																															pos:        position{line: 1672, col: 17, offset: 54115},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -26001,7 +26010,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1670, col: 5, offset: 54056},
+																												pos: position{line: 1675, col: 5, offset: 54172},
 																												run: (*parser).callonExtraListElement180,
 																											},
 																										},
@@ -26009,30 +26018,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1662, col: 35, offset: 53866},
+																								pos: position{line: 1667, col: 35, offset: 53982},
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2922, col: 8, offset: 91852},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2909, col: 12, offset: 91625},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2909, col: 13, offset: 91626},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2909, col: 13, offset: 91626},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2909, col: 20, offset: 91633},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2909, col: 29, offset: 91642},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26041,16 +26050,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2919, col: 8, offset: 91802},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2919, col: 9, offset: 91803,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1662, col: 40, offset: 53871,
+																								line: 1667, col: 40, offset: 53987,
 																							},
 																						},
 																					},
@@ -26058,24 +26067,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1655, col: 5, offset: 53545},
+																			pos:   position{line: 1660, col: 5, offset: 53661},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1667, col: 5, offset: 53987},
+																				pos: position{line: 1672, col: 5, offset: 54103},
 																				run: (*parser).callonExtraListElement192,
 																				expr: &seqExpr{
-																					pos: position{line: 1667, col: 5, offset: 53987},
+																					pos: position{line: 1672, col: 5, offset: 54103},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 53987},
+																							pos:   position{line: 1672, col: 5, offset: 54103},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1667, col: 16, offset: 53998},
+																								pos: position{line: 1672, col: 16, offset: 54114},
 																								run: (*parser).callonExtraListElement195,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1667, col: 16, offset: 53998},
+																									pos: position{line: 1672, col: 16, offset: 54114},
 																									expr: &litMatcher{
-																										pos:        position{line: 1667, col: 17, offset: 53999},
+																										pos:        position{line: 1672, col: 17, offset: 54115},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26084,7 +26093,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1670, col: 5, offset: 54056},
+																							pos: position{line: 1675, col: 5, offset: 54172},
 																							run: (*parser).callonExtraListElement198,
 																						},
 																					},
@@ -26092,24 +26101,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1656, col: 5, offset: 53590},
+																			pos:   position{line: 1661, col: 5, offset: 53706},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1678, col: 5, offset: 54305},
+																				pos: position{line: 1683, col: 5, offset: 54421},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1680, col: 9, offset: 54371},
+																						pos: position{line: 1685, col: 9, offset: 54487},
 																						run: (*parser).callonExtraListElement201,
 																						expr: &seqExpr{
-																							pos: position{line: 1680, col: 9, offset: 54371},
+																							pos: position{line: 1685, col: 9, offset: 54487},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1680, col: 9, offset: 54371},
+																									pos: position{line: 1685, col: 9, offset: 54487},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
+																										pos: position{line: 2900, col: 10, offset: 91454},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2900, col: 10, offset: 91454},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26118,28 +26127,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2922, col: 8, offset: 91852},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2909, col: 12, offset: 91625},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2909, col: 13, offset: 91626},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2909, col: 13, offset: 91626},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2909, col: 20, offset: 91633},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2909, col: 29, offset: 91642},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26148,15 +26157,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2919, col: 8, offset: 91802},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2919, col: 9, offset: 91803,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1681, col: 9, offset: 54390},
+																									pos: position{line: 1686, col: 9, offset: 54506},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21489},
 																										run: (*parser).callonExtraListElement215,
@@ -26164,18 +26173,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21489},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2869, col: 11, offset: 90573},
+																													pos: position{line: 2917, col: 11, offset: 91788},
 																													expr: &anyMatcher{
-																														line: 2869, col: 13, offset: 90575,
+																														line: 2917, col: 13, offset: 91790,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21496},
 																													expr: &actionExpr{
-																														pos: position{line: 2852, col: 10, offset: 90239},
+																														pos: position{line: 2900, col: 10, offset: 91454},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2852, col: 10, offset: 90239},
+																															pos:        position{line: 2900, col: 10, offset: 91454},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26184,28 +26193,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2874, col: 8, offset: 90637},
+																													pos: position{line: 2922, col: 8, offset: 91852},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2861, col: 12, offset: 90410},
+																															pos: position{line: 2909, col: 12, offset: 91625},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2861, col: 13, offset: 90411},
+																																pos: position{line: 2909, col: 13, offset: 91626},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 13, offset: 90411},
+																																		pos:        position{line: 2909, col: 13, offset: 91626},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 20, offset: 90418},
+																																		pos:        position{line: 2909, col: 20, offset: 91633},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 29, offset: 90427},
+																																		pos:        position{line: 2909, col: 29, offset: 91642},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26214,9 +26223,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2871, col: 8, offset: 90587},
+																															pos: position{line: 2919, col: 8, offset: 91802},
 																															expr: &anyMatcher{
-																																line: 2871, col: 9, offset: 90588,
+																																line: 2919, col: 9, offset: 91803,
 																															},
 																														},
 																													},
@@ -26229,18 +26238,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1687, col: 9, offset: 54519},
+																						pos: position{line: 1692, col: 9, offset: 54635},
 																						run: (*parser).callonExtraListElement230,
 																						expr: &seqExpr{
-																							pos: position{line: 1687, col: 9, offset: 54519},
+																							pos: position{line: 1692, col: 9, offset: 54635},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2856, col: 11, offset: 90300},
+																									pos: position{line: 2904, col: 11, offset: 91515},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2856, col: 11, offset: 90300},
+																										pos: position{line: 2904, col: 11, offset: 91515},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2856, col: 11, offset: 90300},
+																											pos:        position{line: 2904, col: 11, offset: 91515},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26249,15 +26258,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1688, col: 9, offset: 54592},
+																									pos:   position{line: 1693, col: 9, offset: 54708},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1688, col: 18, offset: 54601},
+																										pos: position{line: 1693, col: 18, offset: 54717},
 																										run: (*parser).callonExtraListElement236,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1688, col: 18, offset: 54601},
+																											pos: position{line: 1693, col: 18, offset: 54717},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1688, col: 18, offset: 54601},
+																												pos:        position{line: 1693, col: 18, offset: 54717},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26267,28 +26276,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2922, col: 8, offset: 91852},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2909, col: 12, offset: 91625},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2909, col: 13, offset: 91626},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2909, col: 13, offset: 91626},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2909, col: 20, offset: 91633},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2909, col: 29, offset: 91642},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26297,9 +26306,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2919, col: 8, offset: 91802},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2919, col: 9, offset: 91803,
 																											},
 																										},
 																									},
@@ -26320,50 +26329,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1493, col: 13, offset: 48280},
+										pos: position{line: 1498, col: 13, offset: 48396},
 										run: (*parser).callonExtraListElement247,
 										expr: &seqExpr{
-											pos: position{line: 1493, col: 13, offset: 48280},
+											pos: position{line: 1498, col: 13, offset: 48396},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1493, col: 13, offset: 48280},
+													pos:   position{line: 1498, col: 13, offset: 48396},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1493, col: 24, offset: 48291},
+														pos: position{line: 1498, col: 24, offset: 48407},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1493, col: 25, offset: 48292},
+															pos:  position{line: 1498, col: 25, offset: 48408},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1494, col: 13, offset: 48323},
+													pos:   position{line: 1499, col: 13, offset: 48439},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1494, col: 22, offset: 48332},
+														pos: position{line: 1499, col: 22, offset: 48448},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1570, col: 5, offset: 50647},
+																pos: position{line: 1575, col: 5, offset: 50763},
 																run: (*parser).callonExtraListElement254,
 																expr: &seqExpr{
-																	pos: position{line: 1570, col: 5, offset: 50647},
+																	pos: position{line: 1575, col: 5, offset: 50763},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1570, col: 5, offset: 50647},
+																			pos:   position{line: 1575, col: 5, offset: 50763},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1577, col: 5, offset: 50855},
+																				pos: position{line: 1582, col: 5, offset: 50971},
 																				run: (*parser).callonExtraListElement257,
 																				expr: &seqExpr{
-																					pos: position{line: 1577, col: 5, offset: 50855},
+																					pos: position{line: 1582, col: 5, offset: 50971},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1577, col: 5, offset: 50855},
+																							pos: position{line: 1582, col: 5, offset: 50971},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2900, col: 10, offset: 91454},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2900, col: 10, offset: 91454},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26372,27 +26381,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1577, col: 12, offset: 50862},
+																							pos:   position{line: 1582, col: 12, offset: 50978},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1579, col: 9, offset: 50925},
+																								pos: position{line: 1584, col: 9, offset: 51041},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1579, col: 9, offset: 50925},
+																										pos: position{line: 1584, col: 9, offset: 51041},
 																										run: (*parser).callonExtraListElement264,
 																										expr: &seqExpr{
-																											pos: position{line: 1579, col: 9, offset: 50925},
+																											pos: position{line: 1584, col: 9, offset: 51041},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1579, col: 9, offset: 50925},
+																													pos:   position{line: 1584, col: 9, offset: 51041},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1579, col: 16, offset: 50932},
+																														pos: position{line: 1584, col: 16, offset: 51048},
 																														run: (*parser).callonExtraListElement267,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1579, col: 16, offset: 50932},
+																															pos: position{line: 1584, col: 16, offset: 51048},
 																															expr: &litMatcher{
-																																pos:        position{line: 1579, col: 17, offset: 50933},
+																																pos:        position{line: 1584, col: 17, offset: 51049},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26401,22 +26410,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1583, col: 9, offset: 51033},
+																													pos: position{line: 1588, col: 9, offset: 51149},
 																													run: (*parser).callonExtraListElement270,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1602, col: 11, offset: 51750},
+																										pos: position{line: 1607, col: 11, offset: 51866},
 																										run: (*parser).callonExtraListElement271,
 																										expr: &seqExpr{
-																											pos: position{line: 1602, col: 11, offset: 51750},
+																											pos: position{line: 1607, col: 11, offset: 51866},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1602, col: 11, offset: 51750},
+																													pos: position{line: 1607, col: 11, offset: 51866},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1602, col: 12, offset: 51751},
+																														pos:        position{line: 1607, col: 12, offset: 51867},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26424,7 +26433,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1602, col: 20, offset: 51759},
+																													pos:        position{line: 1607, col: 20, offset: 51875},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26433,20 +26442,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1604, col: 13, offset: 51876},
+																										pos: position{line: 1609, col: 13, offset: 51992},
 																										run: (*parser).callonExtraListElement276,
 																										expr: &seqExpr{
-																											pos: position{line: 1604, col: 13, offset: 51876},
+																											pos: position{line: 1609, col: 13, offset: 51992},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1604, col: 14, offset: 51877},
+																													pos:        position{line: 1609, col: 14, offset: 51993},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1604, col: 21, offset: 51884},
+																													pos:        position{line: 1609, col: 21, offset: 52000},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26455,20 +26464,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1606, col: 13, offset: 52004},
+																										pos: position{line: 1611, col: 13, offset: 52120},
 																										run: (*parser).callonExtraListElement280,
 																										expr: &seqExpr{
-																											pos: position{line: 1606, col: 13, offset: 52004},
+																											pos: position{line: 1611, col: 13, offset: 52120},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1606, col: 14, offset: 52005},
+																													pos:        position{line: 1611, col: 14, offset: 52121},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1606, col: 21, offset: 52012},
+																													pos:        position{line: 1611, col: 21, offset: 52128},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26477,15 +26486,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1608, col: 13, offset: 52132},
+																										pos: position{line: 1613, col: 13, offset: 52248},
 																										run: (*parser).callonExtraListElement284,
 																										expr: &seqExpr{
-																											pos: position{line: 1608, col: 13, offset: 52132},
+																											pos: position{line: 1613, col: 13, offset: 52248},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1608, col: 13, offset: 52132},
+																													pos: position{line: 1613, col: 13, offset: 52248},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1608, col: 14, offset: 52133},
+																														pos:        position{line: 1613, col: 14, offset: 52249},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26493,7 +26502,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1608, col: 26, offset: 52145},
+																													pos:        position{line: 1613, col: 26, offset: 52261},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26502,15 +26511,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1610, col: 13, offset: 52265},
+																										pos: position{line: 1615, col: 13, offset: 52381},
 																										run: (*parser).callonExtraListElement289,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 13, offset: 52265},
+																											pos: position{line: 1615, col: 13, offset: 52381},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1610, col: 13, offset: 52265},
+																													pos: position{line: 1615, col: 13, offset: 52381},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1610, col: 14, offset: 52266},
+																														pos:        position{line: 1615, col: 14, offset: 52382},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26518,7 +26527,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1610, col: 26, offset: 52278},
+																													pos:        position{line: 1615, col: 26, offset: 52394},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26530,12 +26539,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2904, col: 11, offset: 91515},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2904, col: 11, offset: 91515},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2904, col: 11, offset: 91515},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26548,26 +26557,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1571, col: 5, offset: 50686},
+																			pos:   position{line: 1576, col: 5, offset: 50802},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1523, col: 5, offset: 49269},
 																				run: (*parser).callonExtraListElement298,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1523, col: 5, offset: 49269},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1523, col: 5, offset: 49269},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1523, col: 14, offset: 49278},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1523, col: 15, offset: 49279},
 																									run: (*parser).callonExtraListElement302,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1523, col: 15, offset: 49279},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1523, col: 15, offset: 49279},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26578,28 +26587,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26608,9 +26617,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -26623,27 +26632,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1620, col: 5, offset: 52544},
+																pos: position{line: 1625, col: 5, offset: 52660},
 																run: (*parser).callonExtraListElement313,
 																expr: &seqExpr{
-																	pos: position{line: 1620, col: 5, offset: 52544},
+																	pos: position{line: 1625, col: 5, offset: 52660},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1620, col: 5, offset: 52544},
+																			pos:   position{line: 1625, col: 5, offset: 52660},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1627, col: 5, offset: 52817},
+																				pos: position{line: 1632, col: 5, offset: 52933},
 																				run: (*parser).callonExtraListElement316,
 																				expr: &seqExpr{
-																					pos: position{line: 1627, col: 5, offset: 52817},
+																					pos: position{line: 1632, col: 5, offset: 52933},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1627, col: 5, offset: 52817},
+																							pos: position{line: 1632, col: 5, offset: 52933},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2900, col: 10, offset: 91454},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2900, col: 10, offset: 91454},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26652,24 +26661,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1628, col: 5, offset: 52829},
+																							pos:   position{line: 1633, col: 5, offset: 52945},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1629, col: 9, offset: 52845},
+																								pos: position{line: 1634, col: 9, offset: 52961},
 																								run: (*parser).callonExtraListElement322,
 																								expr: &choiceExpr{
-																									pos: position{line: 1629, col: 10, offset: 52846},
+																									pos: position{line: 1634, col: 10, offset: 52962},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1629, col: 11, offset: 52847},
+																											pos:        position{line: 1634, col: 11, offset: 52963},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1629, col: 18, offset: 52854},
+																											pos: position{line: 1634, col: 18, offset: 52970},
 																											expr: &litMatcher{
-																												pos:        position{line: 1629, col: 19, offset: 52855},
+																												pos:        position{line: 1634, col: 19, offset: 52971},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26680,16 +26689,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1632, col: 7, offset: 52945},
+																							pos: position{line: 1637, col: 7, offset: 53061},
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2904, col: 11, offset: 91515},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2904, col: 11, offset: 91515},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2904, col: 11, offset: 91515},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26702,56 +26711,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1621, col: 5, offset: 52585},
+																			pos:   position{line: 1626, col: 5, offset: 52701},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1621, col: 16, offset: 52596},
+																				pos: position{line: 1626, col: 16, offset: 52712},
 																				expr: &actionExpr{
-																					pos: position{line: 1642, col: 5, offset: 53210},
+																					pos: position{line: 1647, col: 5, offset: 53326},
 																					run: (*parser).callonExtraListElement333,
 																					expr: &seqExpr{
-																						pos: position{line: 1642, col: 5, offset: 53210},
+																						pos: position{line: 1647, col: 5, offset: 53326},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1642, col: 5, offset: 53210},
+																								pos: position{line: 1647, col: 5, offset: 53326},
 																								expr: &litMatcher{
-																									pos:        position{line: 1642, col: 6, offset: 53211},
+																									pos:        position{line: 1647, col: 6, offset: 53327},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1642, col: 10, offset: 53215},
+																								pos:   position{line: 1647, col: 10, offset: 53331},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1643, col: 7, offset: 53229},
+																									pos: position{line: 1648, col: 7, offset: 53345},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1643, col: 7, offset: 53229},
+																											pos: position{line: 1648, col: 7, offset: 53345},
 																											run: (*parser).callonExtraListElement339,
 																											expr: &litMatcher{
-																												pos:        position{line: 1643, col: 7, offset: 53229},
+																												pos:        position{line: 1648, col: 7, offset: 53345},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1644, col: 7, offset: 53274},
+																											pos: position{line: 1649, col: 7, offset: 53390},
 																											run: (*parser).callonExtraListElement341,
 																											expr: &litMatcher{
-																												pos:        position{line: 1644, col: 7, offset: 53274},
+																												pos:        position{line: 1649, col: 7, offset: 53390},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1645, col: 7, offset: 53317},
+																											pos: position{line: 1650, col: 7, offset: 53433},
 																											run: (*parser).callonExtraListElement343,
 																											expr: &litMatcher{
-																												pos:        position{line: 1645, col: 7, offset: 53317},
+																												pos:        position{line: 1650, col: 7, offset: 53433},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26761,12 +26770,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2904, col: 11, offset: 91515},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2856, col: 11, offset: 90300},
+																									pos: position{line: 2904, col: 11, offset: 91515},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2856, col: 11, offset: 90300},
+																										pos:        position{line: 2904, col: 11, offset: 91515},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26780,26 +26789,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1622, col: 5, offset: 52635},
+																			pos:   position{line: 1627, col: 5, offset: 52751},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1523, col: 5, offset: 49269},
 																				run: (*parser).callonExtraListElement349,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1523, col: 5, offset: 49269},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1523, col: 5, offset: 49269},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1523, col: 14, offset: 49278},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1523, col: 15, offset: 49279},
 																									run: (*parser).callonExtraListElement353,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1523, col: 15, offset: 49279},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1523, col: 15, offset: 49279},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26810,28 +26819,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26840,9 +26849,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -26855,36 +26864,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1710, col: 5, offset: 55157},
+																pos: position{line: 1715, col: 5, offset: 55273},
 																run: (*parser).callonExtraListElement364,
 																expr: &seqExpr{
-																	pos: position{line: 1710, col: 5, offset: 55157},
+																	pos: position{line: 1715, col: 5, offset: 55273},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1710, col: 5, offset: 55157},
+																			pos:   position{line: 1715, col: 5, offset: 55273},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1716, col: 5, offset: 55354},
+																				pos: position{line: 1721, col: 5, offset: 55470},
 																				run: (*parser).callonExtraListElement367,
 																				expr: &seqExpr{
-																					pos: position{line: 1716, col: 5, offset: 55354},
+																					pos: position{line: 1721, col: 5, offset: 55470},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 5, offset: 55354},
+																							pos:        position{line: 1721, col: 5, offset: 55470},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1716, col: 9, offset: 55358},
+																							pos:   position{line: 1721, col: 9, offset: 55474},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1716, col: 14, offset: 55363},
+																								pos: position{line: 1721, col: 14, offset: 55479},
 																								run: (*parser).callonExtraListElement371,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1716, col: 14, offset: 55363},
+																									pos: position{line: 1721, col: 14, offset: 55479},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1716, col: 14, offset: 55363},
+																										pos:        position{line: 1721, col: 14, offset: 55479},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26894,18 +26903,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 62, offset: 55411},
+																							pos:        position{line: 1721, col: 62, offset: 55527},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2904, col: 11, offset: 91515},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2904, col: 11, offset: 91515},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2904, col: 11, offset: 91515},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26918,26 +26927,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1711, col: 5, offset: 55193},
+																			pos:   position{line: 1716, col: 5, offset: 55309},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1523, col: 5, offset: 49269},
 																				run: (*parser).callonExtraListElement379,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1523, col: 5, offset: 49269},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1523, col: 5, offset: 49269},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1523, col: 14, offset: 49278},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1523, col: 15, offset: 49279},
 																									run: (*parser).callonExtraListElement383,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1523, col: 15, offset: 49279},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1523, col: 15, offset: 49279},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26948,28 +26957,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26978,9 +26987,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -26993,40 +27002,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1654, col: 5, offset: 53510},
+																pos: position{line: 1659, col: 5, offset: 53626},
 																run: (*parser).callonExtraListElement394,
 																expr: &seqExpr{
-																	pos: position{line: 1654, col: 5, offset: 53510},
+																	pos: position{line: 1659, col: 5, offset: 53626},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1654, col: 5, offset: 53510},
+																			pos:   position{line: 1659, col: 5, offset: 53626},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1662, col: 5, offset: 53836},
+																				pos: position{line: 1667, col: 5, offset: 53952},
 																				run: (*parser).callonExtraListElement397,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1662, col: 5, offset: 53836},
+																					pos: position{line: 1667, col: 5, offset: 53952},
 																					expr: &seqExpr{
-																						pos: position{line: 1662, col: 6, offset: 53837},
+																						pos: position{line: 1667, col: 6, offset: 53953},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1662, col: 6, offset: 53837},
+																								pos: position{line: 1667, col: 6, offset: 53953},
 																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 5, offset: 53987},
+																									pos: position{line: 1672, col: 5, offset: 54103},
 																									run: (*parser).callonExtraListElement401,
 																									expr: &seqExpr{
-																										pos: position{line: 1667, col: 5, offset: 53987},
+																										pos: position{line: 1672, col: 5, offset: 54103},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1667, col: 5, offset: 53987},
+																												pos:   position{line: 1672, col: 5, offset: 54103},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1667, col: 16, offset: 53998},
+																													pos: position{line: 1672, col: 16, offset: 54114},
 																													run: (*parser).callonExtraListElement404,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1667, col: 16, offset: 53998},
+																														pos: position{line: 1672, col: 16, offset: 54114},
 																														expr: &litMatcher{
-																															pos:        position{line: 1667, col: 17, offset: 53999},
+																															pos:        position{line: 1672, col: 17, offset: 54115},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -27035,7 +27044,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1670, col: 5, offset: 54056},
+																												pos: position{line: 1675, col: 5, offset: 54172},
 																												run: (*parser).callonExtraListElement407,
 																											},
 																										},
@@ -27043,30 +27052,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1662, col: 35, offset: 53866},
+																								pos: position{line: 1667, col: 35, offset: 53982},
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2922, col: 8, offset: 91852},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2909, col: 12, offset: 91625},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2909, col: 13, offset: 91626},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2909, col: 13, offset: 91626},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2909, col: 20, offset: 91633},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2909, col: 29, offset: 91642},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27075,16 +27084,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2919, col: 8, offset: 91802},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2919, col: 9, offset: 91803,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1662, col: 40, offset: 53871,
+																								line: 1667, col: 40, offset: 53987,
 																							},
 																						},
 																					},
@@ -27092,24 +27101,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1655, col: 5, offset: 53545},
+																			pos:   position{line: 1660, col: 5, offset: 53661},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1667, col: 5, offset: 53987},
+																				pos: position{line: 1672, col: 5, offset: 54103},
 																				run: (*parser).callonExtraListElement419,
 																				expr: &seqExpr{
-																					pos: position{line: 1667, col: 5, offset: 53987},
+																					pos: position{line: 1672, col: 5, offset: 54103},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 53987},
+																							pos:   position{line: 1672, col: 5, offset: 54103},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1667, col: 16, offset: 53998},
+																								pos: position{line: 1672, col: 16, offset: 54114},
 																								run: (*parser).callonExtraListElement422,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1667, col: 16, offset: 53998},
+																									pos: position{line: 1672, col: 16, offset: 54114},
 																									expr: &litMatcher{
-																										pos:        position{line: 1667, col: 17, offset: 53999},
+																										pos:        position{line: 1672, col: 17, offset: 54115},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27118,7 +27127,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1670, col: 5, offset: 54056},
+																							pos: position{line: 1675, col: 5, offset: 54172},
 																							run: (*parser).callonExtraListElement425,
 																						},
 																					},
@@ -27126,24 +27135,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1656, col: 5, offset: 53590},
+																			pos:   position{line: 1661, col: 5, offset: 53706},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1678, col: 5, offset: 54305},
+																				pos: position{line: 1683, col: 5, offset: 54421},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1680, col: 9, offset: 54371},
+																						pos: position{line: 1685, col: 9, offset: 54487},
 																						run: (*parser).callonExtraListElement428,
 																						expr: &seqExpr{
-																							pos: position{line: 1680, col: 9, offset: 54371},
+																							pos: position{line: 1685, col: 9, offset: 54487},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1680, col: 9, offset: 54371},
+																									pos: position{line: 1685, col: 9, offset: 54487},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
+																										pos: position{line: 2900, col: 10, offset: 91454},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2900, col: 10, offset: 91454},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27152,28 +27161,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2922, col: 8, offset: 91852},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2909, col: 12, offset: 91625},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2909, col: 13, offset: 91626},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2909, col: 13, offset: 91626},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2909, col: 20, offset: 91633},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2909, col: 29, offset: 91642},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27182,15 +27191,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2919, col: 8, offset: 91802},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2919, col: 9, offset: 91803,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1681, col: 9, offset: 54390},
+																									pos: position{line: 1686, col: 9, offset: 54506},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21489},
 																										run: (*parser).callonExtraListElement442,
@@ -27198,18 +27207,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21489},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2869, col: 11, offset: 90573},
+																													pos: position{line: 2917, col: 11, offset: 91788},
 																													expr: &anyMatcher{
-																														line: 2869, col: 13, offset: 90575,
+																														line: 2917, col: 13, offset: 91790,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21496},
 																													expr: &actionExpr{
-																														pos: position{line: 2852, col: 10, offset: 90239},
+																														pos: position{line: 2900, col: 10, offset: 91454},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2852, col: 10, offset: 90239},
+																															pos:        position{line: 2900, col: 10, offset: 91454},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27218,28 +27227,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2874, col: 8, offset: 90637},
+																													pos: position{line: 2922, col: 8, offset: 91852},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2861, col: 12, offset: 90410},
+																															pos: position{line: 2909, col: 12, offset: 91625},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2861, col: 13, offset: 90411},
+																																pos: position{line: 2909, col: 13, offset: 91626},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 13, offset: 90411},
+																																		pos:        position{line: 2909, col: 13, offset: 91626},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 20, offset: 90418},
+																																		pos:        position{line: 2909, col: 20, offset: 91633},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 29, offset: 90427},
+																																		pos:        position{line: 2909, col: 29, offset: 91642},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27248,9 +27257,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2871, col: 8, offset: 90587},
+																															pos: position{line: 2919, col: 8, offset: 91802},
 																															expr: &anyMatcher{
-																																line: 2871, col: 9, offset: 90588,
+																																line: 2919, col: 9, offset: 91803,
 																															},
 																														},
 																													},
@@ -27263,18 +27272,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1687, col: 9, offset: 54519},
+																						pos: position{line: 1692, col: 9, offset: 54635},
 																						run: (*parser).callonExtraListElement457,
 																						expr: &seqExpr{
-																							pos: position{line: 1687, col: 9, offset: 54519},
+																							pos: position{line: 1692, col: 9, offset: 54635},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2856, col: 11, offset: 90300},
+																									pos: position{line: 2904, col: 11, offset: 91515},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2856, col: 11, offset: 90300},
+																										pos: position{line: 2904, col: 11, offset: 91515},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2856, col: 11, offset: 90300},
+																											pos:        position{line: 2904, col: 11, offset: 91515},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27283,15 +27292,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1688, col: 9, offset: 54592},
+																									pos:   position{line: 1693, col: 9, offset: 54708},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1688, col: 18, offset: 54601},
+																										pos: position{line: 1693, col: 18, offset: 54717},
 																										run: (*parser).callonExtraListElement463,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1688, col: 18, offset: 54601},
+																											pos: position{line: 1693, col: 18, offset: 54717},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1688, col: 18, offset: 54601},
+																												pos:        position{line: 1693, col: 18, offset: 54717},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27301,28 +27310,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2922, col: 8, offset: 91852},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2909, col: 12, offset: 91625},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2909, col: 13, offset: 91626},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2909, col: 13, offset: 91626},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2909, col: 20, offset: 91633},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2909, col: 29, offset: 91642},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27331,9 +27340,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2919, col: 8, offset: 91802},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2919, col: 9, offset: 91803,
 																											},
 																										},
 																									},
@@ -27354,40 +27363,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1497, col: 11, offset: 48517},
+										pos:  position{line: 1502, col: 11, offset: 48633},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79224},
+										pos: position{line: 2510, col: 22, offset: 80439},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
+											pos: position{line: 2510, col: 22, offset: 80439},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79445},
+													pos:        position{line: 2515, col: 31, offset: 80660},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79450},
+													pos: position{line: 2515, col: 36, offset: 80665},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79451},
+														pos:        position{line: 2515, col: 37, offset: 80666},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79251},
+													pos:   position{line: 2510, col: 49, offset: 80466},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2798, col: 13, offset: 88765},
+														pos: position{line: 2846, col: 13, offset: 89980},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
+															pos: position{line: 2846, col: 13, offset: 89980},
 															expr: &charClassMatcher{
-																pos:        position{line: 2798, col: 13, offset: 88765},
+																pos:        position{line: 2846, col: 13, offset: 89980},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -27397,28 +27406,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2922, col: 8, offset: 91852},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2909, col: 12, offset: 91625},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2909, col: 13, offset: 91626},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2909, col: 13, offset: 91626},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2909, col: 20, offset: 91633},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2909, col: 29, offset: 91642},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -27427,9 +27436,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2919, col: 8, offset: 91802},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2919, col: 9, offset: 91803,
 															},
 														},
 													},
@@ -27438,13 +27447,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1505, col: 5, offset: 48795},
+										pos: position{line: 1510, col: 5, offset: 48911},
 										run: (*parser).callonExtraListElement492,
 										expr: &seqExpr{
-											pos: position{line: 1505, col: 5, offset: 48795},
+											pos: position{line: 1510, col: 5, offset: 48911},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1505, col: 5, offset: 48795},
+													pos: position{line: 1510, col: 5, offset: 48911},
 													expr: &actionExpr{
 														pos: position{line: 677, col: 14, offset: 21489},
 														run: (*parser).callonExtraListElement495,
@@ -27452,18 +27461,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21489},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2869, col: 11, offset: 90573},
+																	pos: position{line: 2917, col: 11, offset: 91788},
 																	expr: &anyMatcher{
-																		line: 2869, col: 13, offset: 90575,
+																		line: 2917, col: 13, offset: 91790,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21496},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2900, col: 10, offset: 91454},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2900, col: 10, offset: 91454},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27472,28 +27481,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2922, col: 8, offset: 91852},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2909, col: 12, offset: 91625},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2909, col: 13, offset: 91626},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2909, col: 13, offset: 91626},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2909, col: 20, offset: 91633},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2909, col: 29, offset: 91642},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27502,9 +27511,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2919, col: 8, offset: 91802},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2919, col: 9, offset: 91803,
 																			},
 																		},
 																	},
@@ -27514,23 +27523,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1506, col: 5, offset: 48810},
+													pos: position{line: 1511, col: 5, offset: 48926},
 													expr: &seqExpr{
-														pos: position{line: 1536, col: 27, offset: 49636},
+														pos: position{line: 1541, col: 27, offset: 49752},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1536, col: 27, offset: 49636},
+																pos:        position{line: 1541, col: 27, offset: 49752},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1536, col: 31, offset: 49640},
+																pos: position{line: 1541, col: 31, offset: 49756},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2900, col: 10, offset: 91454},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2900, col: 10, offset: 91454},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -27539,25 +27548,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2909, col: 12, offset: 91625},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2909, col: 13, offset: 91626},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2909, col: 13, offset: 91626},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2909, col: 20, offset: 91633},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2909, col: 29, offset: 91642},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -27569,20 +27578,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1507, col: 5, offset: 48838},
+													pos: position{line: 1512, col: 5, offset: 48954},
 													expr: &actionExpr{
-														pos: position{line: 1577, col: 5, offset: 50855},
+														pos: position{line: 1582, col: 5, offset: 50971},
 														run: (*parser).callonExtraListElement522,
 														expr: &seqExpr{
-															pos: position{line: 1577, col: 5, offset: 50855},
+															pos: position{line: 1582, col: 5, offset: 50971},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1577, col: 5, offset: 50855},
+																	pos: position{line: 1582, col: 5, offset: 50971},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2900, col: 10, offset: 91454},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2900, col: 10, offset: 91454},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27591,27 +27600,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1577, col: 12, offset: 50862},
+																	pos:   position{line: 1582, col: 12, offset: 50978},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1579, col: 9, offset: 50925},
+																		pos: position{line: 1584, col: 9, offset: 51041},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1579, col: 9, offset: 50925},
+																				pos: position{line: 1584, col: 9, offset: 51041},
 																				run: (*parser).callonExtraListElement529,
 																				expr: &seqExpr{
-																					pos: position{line: 1579, col: 9, offset: 50925},
+																					pos: position{line: 1584, col: 9, offset: 51041},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1579, col: 9, offset: 50925},
+																							pos:   position{line: 1584, col: 9, offset: 51041},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1579, col: 16, offset: 50932},
+																								pos: position{line: 1584, col: 16, offset: 51048},
 																								run: (*parser).callonExtraListElement532,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1579, col: 16, offset: 50932},
+																									pos: position{line: 1584, col: 16, offset: 51048},
 																									expr: &litMatcher{
-																										pos:        position{line: 1579, col: 17, offset: 50933},
+																										pos:        position{line: 1584, col: 17, offset: 51049},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -27620,22 +27629,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1583, col: 9, offset: 51033},
+																							pos: position{line: 1588, col: 9, offset: 51149},
 																							run: (*parser).callonExtraListElement535,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1602, col: 11, offset: 51750},
+																				pos: position{line: 1607, col: 11, offset: 51866},
 																				run: (*parser).callonExtraListElement536,
 																				expr: &seqExpr{
-																					pos: position{line: 1602, col: 11, offset: 51750},
+																					pos: position{line: 1607, col: 11, offset: 51866},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1602, col: 11, offset: 51750},
+																							pos: position{line: 1607, col: 11, offset: 51866},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1602, col: 12, offset: 51751},
+																								pos:        position{line: 1607, col: 12, offset: 51867},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -27643,7 +27652,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1602, col: 20, offset: 51759},
+																							pos:        position{line: 1607, col: 20, offset: 51875},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27652,20 +27661,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1604, col: 13, offset: 51876},
+																				pos: position{line: 1609, col: 13, offset: 51992},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1604, col: 13, offset: 51876},
+																					pos: position{line: 1609, col: 13, offset: 51992},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1604, col: 14, offset: 51877},
+																							pos:        position{line: 1609, col: 14, offset: 51993},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1604, col: 21, offset: 51884},
+																							pos:        position{line: 1609, col: 21, offset: 52000},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27674,20 +27683,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1606, col: 13, offset: 52004},
+																				pos: position{line: 1611, col: 13, offset: 52120},
 																				run: (*parser).callonExtraListElement545,
 																				expr: &seqExpr{
-																					pos: position{line: 1606, col: 13, offset: 52004},
+																					pos: position{line: 1611, col: 13, offset: 52120},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1606, col: 14, offset: 52005},
+																							pos:        position{line: 1611, col: 14, offset: 52121},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1606, col: 21, offset: 52012},
+																							pos:        position{line: 1611, col: 21, offset: 52128},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27696,15 +27705,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 13, offset: 52132},
+																				pos: position{line: 1613, col: 13, offset: 52248},
 																				run: (*parser).callonExtraListElement549,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 13, offset: 52132},
+																					pos: position{line: 1613, col: 13, offset: 52248},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 13, offset: 52132},
+																							pos: position{line: 1613, col: 13, offset: 52248},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 14, offset: 52133},
+																								pos:        position{line: 1613, col: 14, offset: 52249},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -27712,7 +27721,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 26, offset: 52145},
+																							pos:        position{line: 1613, col: 26, offset: 52261},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -27721,15 +27730,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52265},
+																				pos: position{line: 1615, col: 13, offset: 52381},
 																				run: (*parser).callonExtraListElement554,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52265},
+																					pos: position{line: 1615, col: 13, offset: 52381},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 13, offset: 52265},
+																							pos: position{line: 1615, col: 13, offset: 52381},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 14, offset: 52266},
+																								pos:        position{line: 1615, col: 14, offset: 52382},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -27737,7 +27746,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 26, offset: 52278},
+																							pos:        position{line: 1615, col: 26, offset: 52394},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -27749,12 +27758,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2904, col: 11, offset: 91515},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2904, col: 11, offset: 91515},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2904, col: 11, offset: 91515},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27767,20 +27776,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1508, col: 5, offset: 48868},
+													pos: position{line: 1513, col: 5, offset: 48984},
 													expr: &actionExpr{
-														pos: position{line: 1627, col: 5, offset: 52817},
+														pos: position{line: 1632, col: 5, offset: 52933},
 														run: (*parser).callonExtraListElement563,
 														expr: &seqExpr{
-															pos: position{line: 1627, col: 5, offset: 52817},
+															pos: position{line: 1632, col: 5, offset: 52933},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1627, col: 5, offset: 52817},
+																	pos: position{line: 1632, col: 5, offset: 52933},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2900, col: 10, offset: 91454},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2900, col: 10, offset: 91454},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27789,24 +27798,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1628, col: 5, offset: 52829},
+																	pos:   position{line: 1633, col: 5, offset: 52945},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1629, col: 9, offset: 52845},
+																		pos: position{line: 1634, col: 9, offset: 52961},
 																		run: (*parser).callonExtraListElement569,
 																		expr: &choiceExpr{
-																			pos: position{line: 1629, col: 10, offset: 52846},
+																			pos: position{line: 1634, col: 10, offset: 52962},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1629, col: 11, offset: 52847},
+																					pos:        position{line: 1634, col: 11, offset: 52963},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1629, col: 18, offset: 52854},
+																					pos: position{line: 1634, col: 18, offset: 52970},
 																					expr: &litMatcher{
-																						pos:        position{line: 1629, col: 19, offset: 52855},
+																						pos:        position{line: 1634, col: 19, offset: 52971},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -27817,16 +27826,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1632, col: 7, offset: 52945},
+																	pos: position{line: 1637, col: 7, offset: 53061},
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2904, col: 11, offset: 91515},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2904, col: 11, offset: 91515},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2904, col: 11, offset: 91515},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27839,29 +27848,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1509, col: 5, offset: 48900},
+													pos: position{line: 1514, col: 5, offset: 49016},
 													expr: &actionExpr{
-														pos: position{line: 1716, col: 5, offset: 55354},
+														pos: position{line: 1721, col: 5, offset: 55470},
 														run: (*parser).callonExtraListElement579,
 														expr: &seqExpr{
-															pos: position{line: 1716, col: 5, offset: 55354},
+															pos: position{line: 1721, col: 5, offset: 55470},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1716, col: 5, offset: 55354},
+																	pos:        position{line: 1721, col: 5, offset: 55470},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1716, col: 9, offset: 55358},
+																	pos:   position{line: 1721, col: 9, offset: 55474},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 14, offset: 55363},
+																		pos: position{line: 1721, col: 14, offset: 55479},
 																		run: (*parser).callonExtraListElement583,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1716, col: 14, offset: 55363},
+																			pos: position{line: 1721, col: 14, offset: 55479},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1716, col: 14, offset: 55363},
+																				pos:        position{line: 1721, col: 14, offset: 55479},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -27871,18 +27880,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1716, col: 62, offset: 55411},
+																	pos:        position{line: 1721, col: 62, offset: 55527},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2904, col: 11, offset: 91515},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2904, col: 11, offset: 91515},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2904, col: 11, offset: 91515},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27895,36 +27904,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1510, col: 5, offset: 48930},
+													pos: position{line: 1515, col: 5, offset: 49046},
 													expr: &seqExpr{
-														pos: position{line: 1510, col: 7, offset: 48932},
+														pos: position{line: 1515, col: 7, offset: 49048},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1662, col: 5, offset: 53836},
+																pos: position{line: 1667, col: 5, offset: 53952},
 																run: (*parser).callonExtraListElement592,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1662, col: 5, offset: 53836},
+																	pos: position{line: 1667, col: 5, offset: 53952},
 																	expr: &seqExpr{
-																		pos: position{line: 1662, col: 6, offset: 53837},
+																		pos: position{line: 1667, col: 6, offset: 53953},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1662, col: 6, offset: 53837},
+																				pos: position{line: 1667, col: 6, offset: 53953},
 																				expr: &actionExpr{
-																					pos: position{line: 1667, col: 5, offset: 53987},
+																					pos: position{line: 1672, col: 5, offset: 54103},
 																					run: (*parser).callonExtraListElement596,
 																					expr: &seqExpr{
-																						pos: position{line: 1667, col: 5, offset: 53987},
+																						pos: position{line: 1672, col: 5, offset: 54103},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1667, col: 5, offset: 53987},
+																								pos:   position{line: 1672, col: 5, offset: 54103},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 16, offset: 53998},
+																									pos: position{line: 1672, col: 16, offset: 54114},
 																									run: (*parser).callonExtraListElement599,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1667, col: 16, offset: 53998},
+																										pos: position{line: 1672, col: 16, offset: 54114},
 																										expr: &litMatcher{
-																											pos:        position{line: 1667, col: 17, offset: 53999},
+																											pos:        position{line: 1672, col: 17, offset: 54115},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -27933,7 +27942,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1670, col: 5, offset: 54056},
+																								pos: position{line: 1675, col: 5, offset: 54172},
 																								run: (*parser).callonExtraListElement602,
 																							},
 																						},
@@ -27941,30 +27950,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1662, col: 35, offset: 53866},
+																				pos: position{line: 1667, col: 35, offset: 53982},
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2922, col: 8, offset: 91852},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2909, col: 12, offset: 91625},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2909, col: 13, offset: 91626},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2909, col: 13, offset: 91626},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2909, col: 20, offset: 91633},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2909, col: 29, offset: 91642},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -27973,37 +27982,37 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2919, col: 8, offset: 91802},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2919, col: 9, offset: 91803,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1662, col: 40, offset: 53871,
+																				line: 1667, col: 40, offset: 53987,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1667, col: 5, offset: 53987},
+																pos: position{line: 1672, col: 5, offset: 54103},
 																run: (*parser).callonExtraListElement613,
 																expr: &seqExpr{
-																	pos: position{line: 1667, col: 5, offset: 53987},
+																	pos: position{line: 1672, col: 5, offset: 54103},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1667, col: 5, offset: 53987},
+																			pos:   position{line: 1672, col: 5, offset: 54103},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1667, col: 16, offset: 53998},
+																				pos: position{line: 1672, col: 16, offset: 54114},
 																				run: (*parser).callonExtraListElement616,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1667, col: 16, offset: 53998},
+																					pos: position{line: 1672, col: 16, offset: 54114},
 																					expr: &litMatcher{
-																						pos:        position{line: 1667, col: 17, offset: 53999},
+																						pos:        position{line: 1672, col: 17, offset: 54115},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28012,7 +28021,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1670, col: 5, offset: 54056},
+																			pos: position{line: 1675, col: 5, offset: 54172},
 																			run: (*parser).callonExtraListElement619,
 																		},
 																	},
@@ -28022,7 +28031,7 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1511, col: 5, offset: 48988},
+													pos: position{line: 1516, col: 5, offset: 49104},
 													expr: &actionExpr{
 														pos: position{line: 724, col: 5, offset: 23042},
 														run: (*parser).callonExtraListElement621,
@@ -28032,7 +28041,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 724, col: 5, offset: 23042},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2742, col: 13, offset: 87334},
+																		pos:        position{line: 2790, col: 13, offset: 88549},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28082,10 +28091,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 742, col: 8, offset: 23686},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2900, col: 10, offset: 91454},
 																								run: (*parser).callonExtraListElement636,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2900, col: 10, offset: 91454},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28094,28 +28103,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonExtraListElement639,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28124,9 +28133,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -28171,10 +28180,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 23934},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2900, col: 10, offset: 91454},
 																								run: (*parser).callonExtraListElement655,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2900, col: 10, offset: 91454},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28183,28 +28192,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonExtraListElement658,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28213,9 +28222,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -28256,10 +28265,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 760, col: 52, offset: 24346},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2900, col: 10, offset: 91454},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2900, col: 10, offset: 91454},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28268,28 +28277,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28298,9 +28307,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -28345,10 +28354,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24180},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2900, col: 10, offset: 91454},
 																								run: (*parser).callonExtraListElement692,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2900, col: 10, offset: 91454},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28357,28 +28366,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonExtraListElement695,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28387,9 +28396,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -28434,10 +28443,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24718},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2900, col: 10, offset: 91454},
 																								run: (*parser).callonExtraListElement711,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2900, col: 10, offset: 91454},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28446,28 +28455,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonExtraListElement714,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28476,9 +28485,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -28523,10 +28532,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25194},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2900, col: 10, offset: 91454},
 																								run: (*parser).callonExtraListElement730,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2900, col: 10, offset: 91454},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28535,28 +28544,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonExtraListElement733,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28565,9 +28574,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -28612,10 +28621,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25446},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2900, col: 10, offset: 91454},
 																								run: (*parser).callonExtraListElement749,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2900, col: 10, offset: 91454},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28624,28 +28633,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonExtraListElement752,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28654,9 +28663,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -28701,10 +28710,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25696},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2900, col: 10, offset: 91454},
 																								run: (*parser).callonExtraListElement768,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2900, col: 10, offset: 91454},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28713,28 +28722,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonExtraListElement771,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28743,9 +28752,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -28790,10 +28799,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25942},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2900, col: 10, offset: 91454},
 																								run: (*parser).callonExtraListElement787,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2900, col: 10, offset: 91454},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28802,28 +28811,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonExtraListElement790,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28832,9 +28841,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -28850,15 +28859,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1512, col: 5, offset: 49008},
+													pos:   position{line: 1517, col: 5, offset: 49124},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2802, col: 14, offset: 88832},
+														pos: position{line: 2850, col: 14, offset: 90047},
 														run: (*parser).callonExtraListElement798,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2802, col: 14, offset: 88832},
+															pos: position{line: 2850, col: 14, offset: 90047},
 															expr: &charClassMatcher{
-																pos:        position{line: 2802, col: 14, offset: 88832},
+																pos:        position{line: 2850, col: 14, offset: 90047},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28868,28 +28877,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2922, col: 8, offset: 91852},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2909, col: 12, offset: 91625},
 															run: (*parser).callonExtraListElement802,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2909, col: 13, offset: 91626},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2909, col: 13, offset: 91626},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2909, col: 20, offset: 91633},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2909, col: 29, offset: 91642},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28898,9 +28907,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2919, col: 8, offset: 91802},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2919, col: 9, offset: 91803,
 															},
 														},
 													},
@@ -28917,28 +28926,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1528, col: 1, offset: 49399},
+			pos:  position{line: 1533, col: 1, offset: 49515},
 			expr: &actionExpr{
-				pos: position{line: 1529, col: 5, offset: 49424},
+				pos: position{line: 1534, col: 5, offset: 49540},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1529, col: 5, offset: 49424},
+					pos: position{line: 1534, col: 5, offset: 49540},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1529, col: 5, offset: 49424},
+							pos:   position{line: 1534, col: 5, offset: 49540},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1529, col: 12, offset: 49431},
+								pos: position{line: 1534, col: 12, offset: 49547},
 								expr: &seqExpr{
-									pos: position{line: 1529, col: 13, offset: 49432},
+									pos: position{line: 1534, col: 13, offset: 49548},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1529, col: 13, offset: 49432},
+											pos: position{line: 1534, col: 13, offset: 49548},
 											expr: &actionExpr{
-												pos: position{line: 2852, col: 10, offset: 90239},
+												pos: position{line: 2900, col: 10, offset: 91454},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2852, col: 10, offset: 90239},
+													pos:        position{line: 2900, col: 10, offset: 91454},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -28947,25 +28956,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2861, col: 12, offset: 90410},
+											pos: position{line: 2909, col: 12, offset: 91625},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2861, col: 13, offset: 90411},
+												pos: position{line: 2909, col: 13, offset: 91626},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2861, col: 13, offset: 90411},
+														pos:        position{line: 2909, col: 13, offset: 91626},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2861, col: 20, offset: 90418},
+														pos:        position{line: 2909, col: 20, offset: 91633},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2861, col: 29, offset: 90427},
+														pos:        position{line: 2909, col: 29, offset: 91642},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -28978,18 +28987,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1536, col: 27, offset: 49636},
+							pos:        position{line: 1541, col: 27, offset: 49752},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1536, col: 31, offset: 49640},
+							pos: position{line: 1541, col: 31, offset: 49756},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2900, col: 10, offset: 91454},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2900, col: 10, offset: 91454},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -28998,25 +29007,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2861, col: 12, offset: 90410},
+							pos: position{line: 2909, col: 12, offset: 91625},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2861, col: 13, offset: 90411},
+								pos: position{line: 2909, col: 13, offset: 91626},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2861, col: 13, offset: 90411},
+										pos:        position{line: 2909, col: 13, offset: 91626},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2861, col: 20, offset: 90418},
+										pos:        position{line: 2909, col: 20, offset: 91633},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2861, col: 29, offset: 90427},
+										pos:        position{line: 2909, col: 29, offset: 91642},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29025,12 +29034,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1531, col: 5, offset: 49481},
+							pos:   position{line: 1536, col: 5, offset: 49597},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1531, col: 13, offset: 49489},
+								pos: position{line: 1536, col: 13, offset: 49605},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1531, col: 13, offset: 49489},
+									pos:  position{line: 1536, col: 13, offset: 49605},
 									name: "ListContinuationElement",
 								},
 							},
@@ -29041,46 +29050,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1538, col: 1, offset: 49656},
+			pos:  position{line: 1543, col: 1, offset: 49772},
 			expr: &actionExpr{
-				pos: position{line: 1539, col: 5, offset: 49727},
+				pos: position{line: 1544, col: 5, offset: 49843},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1539, col: 5, offset: 49727},
+					pos: position{line: 1544, col: 5, offset: 49843},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2917, col: 11, offset: 91788},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2917, col: 13, offset: 91790,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1540, col: 5, offset: 49755},
+							pos: position{line: 1545, col: 5, offset: 49871},
 							expr: &choiceExpr{
-								pos: position{line: 1477, col: 5, offset: 47713},
+								pos: position{line: 1482, col: 5, offset: 47829},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1570, col: 5, offset: 50647},
+										pos: position{line: 1575, col: 5, offset: 50763},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1570, col: 5, offset: 50647},
+											pos: position{line: 1575, col: 5, offset: 50763},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1570, col: 5, offset: 50647},
+													pos:   position{line: 1575, col: 5, offset: 50763},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1577, col: 5, offset: 50855},
+														pos: position{line: 1582, col: 5, offset: 50971},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1577, col: 5, offset: 50855},
+															pos: position{line: 1582, col: 5, offset: 50971},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1577, col: 5, offset: 50855},
+																	pos: position{line: 1582, col: 5, offset: 50971},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2900, col: 10, offset: 91454},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2900, col: 10, offset: 91454},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29089,27 +29098,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1577, col: 12, offset: 50862},
+																	pos:   position{line: 1582, col: 12, offset: 50978},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1579, col: 9, offset: 50925},
+																		pos: position{line: 1584, col: 9, offset: 51041},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1579, col: 9, offset: 50925},
+																				pos: position{line: 1584, col: 9, offset: 51041},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1579, col: 9, offset: 50925},
+																					pos: position{line: 1584, col: 9, offset: 51041},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1579, col: 9, offset: 50925},
+																							pos:   position{line: 1584, col: 9, offset: 51041},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1579, col: 16, offset: 50932},
+																								pos: position{line: 1584, col: 16, offset: 51048},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1579, col: 16, offset: 50932},
+																									pos: position{line: 1584, col: 16, offset: 51048},
 																									expr: &litMatcher{
-																										pos:        position{line: 1579, col: 17, offset: 50933},
+																										pos:        position{line: 1584, col: 17, offset: 51049},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29118,22 +29127,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1583, col: 9, offset: 51033},
+																							pos: position{line: 1588, col: 9, offset: 51149},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1602, col: 11, offset: 51750},
+																				pos: position{line: 1607, col: 11, offset: 51866},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1602, col: 11, offset: 51750},
+																					pos: position{line: 1607, col: 11, offset: 51866},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1602, col: 11, offset: 51750},
+																							pos: position{line: 1607, col: 11, offset: 51866},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1602, col: 12, offset: 51751},
+																								pos:        position{line: 1607, col: 12, offset: 51867},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29141,7 +29150,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1602, col: 20, offset: 51759},
+																							pos:        position{line: 1607, col: 20, offset: 51875},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29150,20 +29159,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1604, col: 13, offset: 51876},
+																				pos: position{line: 1609, col: 13, offset: 51992},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1604, col: 13, offset: 51876},
+																					pos: position{line: 1609, col: 13, offset: 51992},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1604, col: 14, offset: 51877},
+																							pos:        position{line: 1609, col: 14, offset: 51993},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1604, col: 21, offset: 51884},
+																							pos:        position{line: 1609, col: 21, offset: 52000},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29172,20 +29181,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1606, col: 13, offset: 52004},
+																				pos: position{line: 1611, col: 13, offset: 52120},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1606, col: 13, offset: 52004},
+																					pos: position{line: 1611, col: 13, offset: 52120},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1606, col: 14, offset: 52005},
+																							pos:        position{line: 1611, col: 14, offset: 52121},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1606, col: 21, offset: 52012},
+																							pos:        position{line: 1611, col: 21, offset: 52128},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29194,15 +29203,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 13, offset: 52132},
+																				pos: position{line: 1613, col: 13, offset: 52248},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 13, offset: 52132},
+																					pos: position{line: 1613, col: 13, offset: 52248},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 13, offset: 52132},
+																							pos: position{line: 1613, col: 13, offset: 52248},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 14, offset: 52133},
+																								pos:        position{line: 1613, col: 14, offset: 52249},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29210,7 +29219,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 26, offset: 52145},
+																							pos:        position{line: 1613, col: 26, offset: 52261},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29219,15 +29228,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52265},
+																				pos: position{line: 1615, col: 13, offset: 52381},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52265},
+																					pos: position{line: 1615, col: 13, offset: 52381},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 13, offset: 52265},
+																							pos: position{line: 1615, col: 13, offset: 52381},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 14, offset: 52266},
+																								pos:        position{line: 1615, col: 14, offset: 52382},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29235,7 +29244,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 26, offset: 52278},
+																							pos:        position{line: 1615, col: 26, offset: 52394},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29247,12 +29256,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2904, col: 11, offset: 91515},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2904, col: 11, offset: 91515},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2904, col: 11, offset: 91515},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29265,26 +29274,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1571, col: 5, offset: 50686},
+													pos:   position{line: 1576, col: 5, offset: 50802},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1523, col: 5, offset: 49269},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1523, col: 5, offset: 49269},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1523, col: 5, offset: 49269},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1523, col: 14, offset: 49278},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1523, col: 15, offset: 49279},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1523, col: 15, offset: 49279},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1523, col: 15, offset: 49279},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29295,28 +29304,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2922, col: 8, offset: 91852},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2909, col: 12, offset: 91625},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2909, col: 13, offset: 91626},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2909, col: 13, offset: 91626},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2909, col: 20, offset: 91633},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2909, col: 29, offset: 91642},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29325,9 +29334,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2919, col: 8, offset: 91802},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2919, col: 9, offset: 91803,
 																			},
 																		},
 																	},
@@ -29340,27 +29349,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1620, col: 5, offset: 52544},
+										pos: position{line: 1625, col: 5, offset: 52660},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1620, col: 5, offset: 52544},
+											pos: position{line: 1625, col: 5, offset: 52660},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1620, col: 5, offset: 52544},
+													pos:   position{line: 1625, col: 5, offset: 52660},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1627, col: 5, offset: 52817},
+														pos: position{line: 1632, col: 5, offset: 52933},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1627, col: 5, offset: 52817},
+															pos: position{line: 1632, col: 5, offset: 52933},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1627, col: 5, offset: 52817},
+																	pos: position{line: 1632, col: 5, offset: 52933},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2900, col: 10, offset: 91454},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2900, col: 10, offset: 91454},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29369,24 +29378,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1628, col: 5, offset: 52829},
+																	pos:   position{line: 1633, col: 5, offset: 52945},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1629, col: 9, offset: 52845},
+																		pos: position{line: 1634, col: 9, offset: 52961},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1629, col: 10, offset: 52846},
+																			pos: position{line: 1634, col: 10, offset: 52962},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1629, col: 11, offset: 52847},
+																					pos:        position{line: 1634, col: 11, offset: 52963},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1629, col: 18, offset: 52854},
+																					pos: position{line: 1634, col: 18, offset: 52970},
 																					expr: &litMatcher{
-																						pos:        position{line: 1629, col: 19, offset: 52855},
+																						pos:        position{line: 1634, col: 19, offset: 52971},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29397,16 +29406,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1632, col: 7, offset: 52945},
+																	pos: position{line: 1637, col: 7, offset: 53061},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2904, col: 11, offset: 91515},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2904, col: 11, offset: 91515},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2904, col: 11, offset: 91515},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29419,56 +29428,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1621, col: 5, offset: 52585},
+													pos:   position{line: 1626, col: 5, offset: 52701},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1621, col: 16, offset: 52596},
+														pos: position{line: 1626, col: 16, offset: 52712},
 														expr: &actionExpr{
-															pos: position{line: 1642, col: 5, offset: 53210},
+															pos: position{line: 1647, col: 5, offset: 53326},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1642, col: 5, offset: 53210},
+																pos: position{line: 1647, col: 5, offset: 53326},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1642, col: 5, offset: 53210},
+																		pos: position{line: 1647, col: 5, offset: 53326},
 																		expr: &litMatcher{
-																			pos:        position{line: 1642, col: 6, offset: 53211},
+																			pos:        position{line: 1647, col: 6, offset: 53327},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1642, col: 10, offset: 53215},
+																		pos:   position{line: 1647, col: 10, offset: 53331},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1643, col: 7, offset: 53229},
+																			pos: position{line: 1648, col: 7, offset: 53345},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1643, col: 7, offset: 53229},
+																					pos: position{line: 1648, col: 7, offset: 53345},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1643, col: 7, offset: 53229},
+																						pos:        position{line: 1648, col: 7, offset: 53345},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1644, col: 7, offset: 53274},
+																					pos: position{line: 1649, col: 7, offset: 53390},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1644, col: 7, offset: 53274},
+																						pos:        position{line: 1649, col: 7, offset: 53390},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1645, col: 7, offset: 53317},
+																					pos: position{line: 1650, col: 7, offset: 53433},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1645, col: 7, offset: 53317},
+																						pos:        position{line: 1650, col: 7, offset: 53433},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -29478,12 +29487,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2904, col: 11, offset: 91515},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2856, col: 11, offset: 90300},
+																			pos: position{line: 2904, col: 11, offset: 91515},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90300},
+																				pos:        position{line: 2904, col: 11, offset: 91515},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29497,26 +29506,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1622, col: 5, offset: 52635},
+													pos:   position{line: 1627, col: 5, offset: 52751},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1523, col: 5, offset: 49269},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1523, col: 5, offset: 49269},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1523, col: 5, offset: 49269},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1523, col: 14, offset: 49278},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1523, col: 15, offset: 49279},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1523, col: 15, offset: 49279},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1523, col: 15, offset: 49279},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29527,28 +29536,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2922, col: 8, offset: 91852},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2909, col: 12, offset: 91625},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2909, col: 13, offset: 91626},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2909, col: 13, offset: 91626},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2909, col: 20, offset: 91633},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2909, col: 29, offset: 91642},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29557,9 +29566,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2919, col: 8, offset: 91802},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2919, col: 9, offset: 91803,
 																			},
 																		},
 																	},
@@ -29572,36 +29581,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1710, col: 5, offset: 55157},
+										pos: position{line: 1715, col: 5, offset: 55273},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1710, col: 5, offset: 55157},
+											pos: position{line: 1715, col: 5, offset: 55273},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1710, col: 5, offset: 55157},
+													pos:   position{line: 1715, col: 5, offset: 55273},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1716, col: 5, offset: 55354},
+														pos: position{line: 1721, col: 5, offset: 55470},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1716, col: 5, offset: 55354},
+															pos: position{line: 1721, col: 5, offset: 55470},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1716, col: 5, offset: 55354},
+																	pos:        position{line: 1721, col: 5, offset: 55470},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1716, col: 9, offset: 55358},
+																	pos:   position{line: 1721, col: 9, offset: 55474},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 14, offset: 55363},
+																		pos: position{line: 1721, col: 14, offset: 55479},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1716, col: 14, offset: 55363},
+																			pos: position{line: 1721, col: 14, offset: 55479},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1716, col: 14, offset: 55363},
+																				pos:        position{line: 1721, col: 14, offset: 55479},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -29611,18 +29620,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1716, col: 62, offset: 55411},
+																	pos:        position{line: 1721, col: 62, offset: 55527},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2904, col: 11, offset: 91515},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2904, col: 11, offset: 91515},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2904, col: 11, offset: 91515},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29635,26 +29644,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1711, col: 5, offset: 55193},
+													pos:   position{line: 1716, col: 5, offset: 55309},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1523, col: 5, offset: 49269},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1523, col: 5, offset: 49269},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1523, col: 5, offset: 49269},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1523, col: 14, offset: 49278},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1523, col: 15, offset: 49279},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1523, col: 15, offset: 49279},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1523, col: 15, offset: 49279},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29665,28 +29674,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2922, col: 8, offset: 91852},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2909, col: 12, offset: 91625},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2909, col: 13, offset: 91626},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2909, col: 13, offset: 91626},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2909, col: 20, offset: 91633},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2909, col: 29, offset: 91642},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29695,9 +29704,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2919, col: 8, offset: 91802},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2919, col: 9, offset: 91803,
 																			},
 																		},
 																	},
@@ -29710,40 +29719,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1654, col: 5, offset: 53510},
+										pos: position{line: 1659, col: 5, offset: 53626},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1654, col: 5, offset: 53510},
+											pos: position{line: 1659, col: 5, offset: 53626},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1654, col: 5, offset: 53510},
+													pos:   position{line: 1659, col: 5, offset: 53626},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1662, col: 5, offset: 53836},
+														pos: position{line: 1667, col: 5, offset: 53952},
 														run: (*parser).callonListContinuationElement150,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1662, col: 5, offset: 53836},
+															pos: position{line: 1667, col: 5, offset: 53952},
 															expr: &seqExpr{
-																pos: position{line: 1662, col: 6, offset: 53837},
+																pos: position{line: 1667, col: 6, offset: 53953},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1662, col: 6, offset: 53837},
+																		pos: position{line: 1667, col: 6, offset: 53953},
 																		expr: &actionExpr{
-																			pos: position{line: 1667, col: 5, offset: 53987},
+																			pos: position{line: 1672, col: 5, offset: 54103},
 																			run: (*parser).callonListContinuationElement154,
 																			expr: &seqExpr{
-																				pos: position{line: 1667, col: 5, offset: 53987},
+																				pos: position{line: 1672, col: 5, offset: 54103},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1667, col: 5, offset: 53987},
+																						pos:   position{line: 1672, col: 5, offset: 54103},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1667, col: 16, offset: 53998},
+																							pos: position{line: 1672, col: 16, offset: 54114},
 																							run: (*parser).callonListContinuationElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1667, col: 16, offset: 53998},
+																								pos: position{line: 1672, col: 16, offset: 54114},
 																								expr: &litMatcher{
-																									pos:        position{line: 1667, col: 17, offset: 53999},
+																									pos:        position{line: 1672, col: 17, offset: 54115},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -29752,7 +29761,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1670, col: 5, offset: 54056},
+																						pos: position{line: 1675, col: 5, offset: 54172},
 																						run: (*parser).callonListContinuationElement160,
 																					},
 																				},
@@ -29760,30 +29769,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1662, col: 35, offset: 53866},
+																		pos: position{line: 1667, col: 35, offset: 53982},
 																		expr: &choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2922, col: 8, offset: 91852},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2909, col: 12, offset: 91625},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2909, col: 13, offset: 91626},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2909, col: 13, offset: 91626},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2909, col: 20, offset: 91633},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2909, col: 29, offset: 91642},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -29792,16 +29801,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1662, col: 40, offset: 53871,
+																		line: 1667, col: 40, offset: 53987,
 																	},
 																},
 															},
@@ -29809,24 +29818,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1655, col: 5, offset: 53545},
+													pos:   position{line: 1660, col: 5, offset: 53661},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1667, col: 5, offset: 53987},
+														pos: position{line: 1672, col: 5, offset: 54103},
 														run: (*parser).callonListContinuationElement172,
 														expr: &seqExpr{
-															pos: position{line: 1667, col: 5, offset: 53987},
+															pos: position{line: 1672, col: 5, offset: 54103},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1667, col: 5, offset: 53987},
+																	pos:   position{line: 1672, col: 5, offset: 54103},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1667, col: 16, offset: 53998},
+																		pos: position{line: 1672, col: 16, offset: 54114},
 																		run: (*parser).callonListContinuationElement175,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1667, col: 16, offset: 53998},
+																			pos: position{line: 1672, col: 16, offset: 54114},
 																			expr: &litMatcher{
-																				pos:        position{line: 1667, col: 17, offset: 53999},
+																				pos:        position{line: 1672, col: 17, offset: 54115},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -29835,7 +29844,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1670, col: 5, offset: 54056},
+																	pos: position{line: 1675, col: 5, offset: 54172},
 																	run: (*parser).callonListContinuationElement178,
 																},
 															},
@@ -29843,24 +29852,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1656, col: 5, offset: 53590},
+													pos:   position{line: 1661, col: 5, offset: 53706},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1678, col: 5, offset: 54305},
+														pos: position{line: 1683, col: 5, offset: 54421},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1680, col: 9, offset: 54371},
+																pos: position{line: 1685, col: 9, offset: 54487},
 																run: (*parser).callonListContinuationElement181,
 																expr: &seqExpr{
-																	pos: position{line: 1680, col: 9, offset: 54371},
+																	pos: position{line: 1685, col: 9, offset: 54487},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1680, col: 9, offset: 54371},
+																			pos: position{line: 1685, col: 9, offset: 54487},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2900, col: 10, offset: 91454},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2900, col: 10, offset: 91454},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -29869,28 +29878,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2922, col: 8, offset: 91852},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2909, col: 12, offset: 91625},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2909, col: 13, offset: 91626},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2909, col: 13, offset: 91626},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2909, col: 20, offset: 91633},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2909, col: 29, offset: 91642},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -29899,15 +29908,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1681, col: 9, offset: 54390},
+																			pos: position{line: 1686, col: 9, offset: 54506},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21489},
 																				run: (*parser).callonListContinuationElement195,
@@ -29915,18 +29924,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21489},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2917, col: 11, offset: 91788},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2917, col: 13, offset: 91790,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21496},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2900, col: 10, offset: 91454},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2900, col: 10, offset: 91454},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29935,28 +29944,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29965,9 +29974,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -29980,18 +29989,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1687, col: 9, offset: 54519},
+																pos: position{line: 1692, col: 9, offset: 54635},
 																run: (*parser).callonListContinuationElement210,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 9, offset: 54519},
+																	pos: position{line: 1692, col: 9, offset: 54635},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90300},
+																			pos: position{line: 2904, col: 11, offset: 91515},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2856, col: 11, offset: 90300},
+																				pos: position{line: 2904, col: 11, offset: 91515},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2856, col: 11, offset: 90300},
+																					pos:        position{line: 2904, col: 11, offset: 91515},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30000,15 +30009,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1688, col: 9, offset: 54592},
+																			pos:   position{line: 1693, col: 9, offset: 54708},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1688, col: 18, offset: 54601},
+																				pos: position{line: 1693, col: 18, offset: 54717},
 																				run: (*parser).callonListContinuationElement216,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1688, col: 18, offset: 54601},
+																					pos: position{line: 1693, col: 18, offset: 54717},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1688, col: 18, offset: 54601},
+																						pos:        position{line: 1693, col: 18, offset: 54717},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30018,28 +30027,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2922, col: 8, offset: 91852},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2909, col: 12, offset: 91625},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2909, col: 13, offset: 91626},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2909, col: 13, offset: 91626},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2909, col: 20, offset: 91633},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2909, col: 29, offset: 91642},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30048,9 +30057,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -30068,21 +30077,21 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1541, col: 5, offset: 49772},
+							pos:   position{line: 1546, col: 5, offset: 49888},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1541, col: 16, offset: 49783},
+								pos: position{line: 1546, col: 16, offset: 49899},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1541, col: 17, offset: 49784},
+									pos:  position{line: 1546, col: 17, offset: 49900},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1542, col: 5, offset: 49806},
+							pos:   position{line: 1547, col: 5, offset: 49922},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1543, col: 9, offset: 49824},
+								pos: position{line: 1548, col: 9, offset: 49940},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 677, col: 14, offset: 21489},
@@ -30091,18 +30100,18 @@ var g = &grammar{
 											pos: position{line: 677, col: 14, offset: 21489},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2869, col: 11, offset: 90573},
+													pos: position{line: 2917, col: 11, offset: 91788},
 													expr: &anyMatcher{
-														line: 2869, col: 13, offset: 90575,
+														line: 2917, col: 13, offset: 91790,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 677, col: 21, offset: 21496},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2900, col: 10, offset: 91454},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2900, col: 10, offset: 91454},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30111,28 +30120,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2922, col: 8, offset: 91852},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2909, col: 12, offset: 91625},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2909, col: 13, offset: 91626},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2909, col: 13, offset: 91626},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2909, col: 20, offset: 91633},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2909, col: 29, offset: 91642},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30141,9 +30150,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2919, col: 8, offset: 91802},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2919, col: 9, offset: 91803,
 															},
 														},
 													},
@@ -30152,7 +30161,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1544, col: 11, offset: 49844},
+										pos:  position{line: 1549, col: 11, offset: 49960},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -30208,10 +30217,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2900, col: 10, offset: 91454},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2900, col: 10, offset: 91454},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30220,28 +30229,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2922, col: 8, offset: 91852},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2909, col: 12, offset: 91625},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2909, col: 13, offset: 91626},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2909, col: 13, offset: 91626},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2909, col: 20, offset: 91633},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2909, col: 29, offset: 91642},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30250,9 +30259,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2919, col: 8, offset: 91802},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2919, col: 9, offset: 91803,
 															},
 														},
 													},
@@ -30313,10 +30322,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2900, col: 10, offset: 91454},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2900, col: 10, offset: 91454},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30325,28 +30334,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2922, col: 8, offset: 91852},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2909, col: 12, offset: 91625},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2909, col: 13, offset: 91626},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2909, col: 13, offset: 91626},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2909, col: 20, offset: 91633},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2909, col: 29, offset: 91642},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30355,9 +30364,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2919, col: 8, offset: 91802},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2919, col: 9, offset: 91803,
 															},
 														},
 													},
@@ -30408,10 +30417,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23686},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2900, col: 10, offset: 91454},
 																	run: (*parser).callonListContinuationElement301,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2900, col: 10, offset: 91454},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -30420,28 +30429,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2922, col: 8, offset: 91852},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2909, col: 12, offset: 91625},
 																		run: (*parser).callonListContinuationElement304,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2909, col: 13, offset: 91626},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2909, col: 13, offset: 91626},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2909, col: 20, offset: 91633},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2909, col: 29, offset: 91642},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -30450,9 +30459,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2919, col: 8, offset: 91802},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2919, col: 9, offset: 91803,
 																		},
 																	},
 																},
@@ -30513,10 +30522,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23686},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2900, col: 10, offset: 91454},
 																									run: (*parser).callonListContinuationElement326,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2900, col: 10, offset: 91454},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -30525,28 +30534,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2922, col: 8, offset: 91852},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2909, col: 12, offset: 91625},
 																										run: (*parser).callonListContinuationElement329,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2909, col: 13, offset: 91626},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2909, col: 13, offset: 91626},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2909, col: 20, offset: 91633},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2909, col: 29, offset: 91642},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -30555,9 +30564,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2919, col: 8, offset: 91802},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2919, col: 9, offset: 91803,
 																										},
 																									},
 																								},
@@ -30566,9 +30575,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -30584,21 +30593,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2917, col: 11, offset: 91788},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2917, col: 13, offset: 91790,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2846, col: 13, offset: 89980},
 																							run: (*parser).callonListContinuationElement344,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2846, col: 13, offset: 89980},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2846, col: 13, offset: 89980},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -30608,28 +30617,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2922, col: 8, offset: 91852},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2909, col: 12, offset: 91625},
 																								run: (*parser).callonListContinuationElement348,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2909, col: 13, offset: 91626},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2909, col: 13, offset: 91626},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2909, col: 20, offset: 91633},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2909, col: 29, offset: 91642},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -30638,9 +30647,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2919, col: 8, offset: 91802},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2919, col: 9, offset: 91803,
 																								},
 																							},
 																						},
@@ -30696,10 +30705,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23686},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2900, col: 10, offset: 91454},
 																				run: (*parser).callonListContinuationElement366,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2900, col: 10, offset: 91454},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30708,28 +30717,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2922, col: 8, offset: 91852},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2909, col: 12, offset: 91625},
 																					run: (*parser).callonListContinuationElement369,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2909, col: 13, offset: 91626},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2909, col: 13, offset: 91626},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2909, col: 20, offset: 91633},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2909, col: 29, offset: 91642},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30738,9 +30747,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -30749,9 +30758,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2919, col: 8, offset: 91802},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2919, col: 9, offset: 91803,
 																},
 															},
 														},
@@ -30806,10 +30815,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 749, col: 8, offset: 23934},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2900, col: 10, offset: 91454},
 																		run: (*parser).callonListContinuationElement390,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2900, col: 10, offset: 91454},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30818,28 +30827,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2922, col: 8, offset: 91852},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2909, col: 12, offset: 91625},
 																			run: (*parser).callonListContinuationElement393,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2909, col: 13, offset: 91626},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2909, col: 13, offset: 91626},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2909, col: 20, offset: 91633},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2909, col: 29, offset: 91642},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30848,9 +30857,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2919, col: 8, offset: 91802},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2919, col: 9, offset: 91803,
 																			},
 																		},
 																	},
@@ -30922,10 +30931,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23934},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2900, col: 10, offset: 91454},
 																												run: (*parser).callonListContinuationElement418,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2900, col: 10, offset: 91454},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -30934,28 +30943,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2922, col: 8, offset: 91852},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2909, col: 12, offset: 91625},
 																													run: (*parser).callonListContinuationElement421,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2909, col: 13, offset: 91626},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2909, col: 13, offset: 91626},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2909, col: 20, offset: 91633},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2909, col: 29, offset: 91642},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -30964,9 +30973,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2919, col: 8, offset: 91802},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2919, col: 9, offset: 91803,
 																													},
 																												},
 																											},
@@ -30982,9 +30991,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -31000,21 +31009,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2917, col: 11, offset: 91788},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2917, col: 13, offset: 91790,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2846, col: 13, offset: 89980},
 																							run: (*parser).callonListContinuationElement437,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2846, col: 13, offset: 89980},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2846, col: 13, offset: 89980},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31024,28 +31033,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2922, col: 8, offset: 91852},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2909, col: 12, offset: 91625},
 																								run: (*parser).callonListContinuationElement441,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2909, col: 13, offset: 91626},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2909, col: 13, offset: 91626},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2909, col: 20, offset: 91633},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2909, col: 29, offset: 91642},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31054,9 +31063,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2919, col: 8, offset: 91802},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2919, col: 9, offset: 91803,
 																								},
 																							},
 																						},
@@ -31121,10 +31130,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 23934},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2900, col: 10, offset: 91454},
 																								run: (*parser).callonListContinuationElement462,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2900, col: 10, offset: 91454},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31133,28 +31142,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonListContinuationElement465,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31163,9 +31172,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -31181,9 +31190,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2919, col: 8, offset: 91802},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2919, col: 9, offset: 91803,
 																	},
 																},
 															},
@@ -31235,10 +31244,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 760, col: 52, offset: 24346},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2900, col: 10, offset: 91454},
 																		run: (*parser).callonListContinuationElement486,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2900, col: 10, offset: 91454},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31247,28 +31256,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2922, col: 8, offset: 91852},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2909, col: 12, offset: 91625},
 																			run: (*parser).callonListContinuationElement489,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2909, col: 13, offset: 91626},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2909, col: 13, offset: 91626},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2909, col: 20, offset: 91633},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2909, col: 29, offset: 91642},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31277,9 +31286,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2919, col: 8, offset: 91802},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2919, col: 9, offset: 91803,
 																			},
 																		},
 																	},
@@ -31313,10 +31322,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 963, col: 40, offset: 30149},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2900, col: 10, offset: 91454},
 																						run: (*parser).callonListContinuationElement504,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2900, col: 10, offset: 91454},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -31325,28 +31334,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2922, col: 8, offset: 91852},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2909, col: 12, offset: 91625},
 																							run: (*parser).callonListContinuationElement507,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2909, col: 13, offset: 91626},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2909, col: 13, offset: 91626},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2909, col: 20, offset: 91633},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2909, col: 29, offset: 91642},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31355,9 +31364,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2919, col: 8, offset: 91802},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2919, col: 9, offset: 91803,
 																							},
 																						},
 																					},
@@ -31375,21 +31384,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2917, col: 11, offset: 91788},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2917, col: 13, offset: 91790,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2846, col: 13, offset: 89980},
 																							run: (*parser).callonListContinuationElement520,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2846, col: 13, offset: 89980},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2846, col: 13, offset: 89980},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31399,28 +31408,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2922, col: 8, offset: 91852},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2909, col: 12, offset: 91625},
 																								run: (*parser).callonListContinuationElement524,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2909, col: 13, offset: 91626},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2909, col: 13, offset: 91626},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2909, col: 20, offset: 91633},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2909, col: 29, offset: 91642},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31429,9 +31438,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2919, col: 8, offset: 91802},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2919, col: 9, offset: 91803,
 																								},
 																							},
 																						},
@@ -31459,10 +31468,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 963, col: 40, offset: 30149},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2900, col: 10, offset: 91454},
 																	run: (*parser).callonListContinuationElement535,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2900, col: 10, offset: 91454},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31471,28 +31480,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2922, col: 8, offset: 91852},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2909, col: 12, offset: 91625},
 																		run: (*parser).callonListContinuationElement538,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2909, col: 13, offset: 91626},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2909, col: 13, offset: 91626},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2909, col: 20, offset: 91633},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2909, col: 29, offset: 91642},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31501,9 +31510,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2919, col: 8, offset: 91802},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2919, col: 9, offset: 91803,
 																		},
 																	},
 																},
@@ -31560,10 +31569,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 756, col: 8, offset: 24180},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2900, col: 10, offset: 91454},
 																		run: (*parser).callonListContinuationElement557,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2900, col: 10, offset: 91454},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31572,28 +31581,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2922, col: 8, offset: 91852},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2909, col: 12, offset: 91625},
 																			run: (*parser).callonListContinuationElement560,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2909, col: 13, offset: 91626},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2909, col: 13, offset: 91626},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2909, col: 20, offset: 91633},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2909, col: 29, offset: 91642},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31602,9 +31611,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2919, col: 8, offset: 91802},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2919, col: 9, offset: 91803,
 																			},
 																		},
 																	},
@@ -31676,10 +31685,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24180},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2900, col: 10, offset: 91454},
 																												run: (*parser).callonListContinuationElement585,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2900, col: 10, offset: 91454},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31688,28 +31697,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2922, col: 8, offset: 91852},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2909, col: 12, offset: 91625},
 																													run: (*parser).callonListContinuationElement588,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2909, col: 13, offset: 91626},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2909, col: 13, offset: 91626},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2909, col: 20, offset: 91633},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2909, col: 29, offset: 91642},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31718,9 +31727,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2919, col: 8, offset: 91802},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2919, col: 9, offset: 91803,
 																													},
 																												},
 																											},
@@ -31736,9 +31745,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -31754,21 +31763,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2917, col: 11, offset: 91788},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2917, col: 13, offset: 91790,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2846, col: 13, offset: 89980},
 																							run: (*parser).callonListContinuationElement604,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2846, col: 13, offset: 89980},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2846, col: 13, offset: 89980},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31778,28 +31787,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2922, col: 8, offset: 91852},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2909, col: 12, offset: 91625},
 																								run: (*parser).callonListContinuationElement608,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2909, col: 13, offset: 91626},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2909, col: 13, offset: 91626},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2909, col: 20, offset: 91633},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2909, col: 29, offset: 91642},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31808,9 +31817,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2919, col: 8, offset: 91802},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2919, col: 9, offset: 91803,
 																								},
 																							},
 																						},
@@ -31875,10 +31884,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24180},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2900, col: 10, offset: 91454},
 																								run: (*parser).callonListContinuationElement629,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2900, col: 10, offset: 91454},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31887,28 +31896,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonListContinuationElement632,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31917,9 +31926,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -31935,9 +31944,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2919, col: 8, offset: 91802},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2919, col: 9, offset: 91803,
 																	},
 																},
 															},
@@ -31993,10 +32002,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 771, col: 8, offset: 24718},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2900, col: 10, offset: 91454},
 																		run: (*parser).callonListContinuationElement654,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2900, col: 10, offset: 91454},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32005,28 +32014,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2922, col: 8, offset: 91852},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2909, col: 12, offset: 91625},
 																			run: (*parser).callonListContinuationElement657,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2909, col: 13, offset: 91626},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2909, col: 13, offset: 91626},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2909, col: 20, offset: 91633},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2909, col: 29, offset: 91642},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32035,9 +32044,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2919, col: 8, offset: 91802},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2919, col: 9, offset: 91803,
 																			},
 																		},
 																	},
@@ -32109,10 +32118,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24718},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2900, col: 10, offset: 91454},
 																												run: (*parser).callonListContinuationElement682,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2900, col: 10, offset: 91454},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32121,28 +32130,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2922, col: 8, offset: 91852},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2909, col: 12, offset: 91625},
 																													run: (*parser).callonListContinuationElement685,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2909, col: 13, offset: 91626},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2909, col: 13, offset: 91626},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2909, col: 20, offset: 91633},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2909, col: 29, offset: 91642},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32151,9 +32160,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2919, col: 8, offset: 91802},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2919, col: 9, offset: 91803,
 																													},
 																												},
 																											},
@@ -32169,9 +32178,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -32187,21 +32196,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2917, col: 11, offset: 91788},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2917, col: 13, offset: 91790,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2846, col: 13, offset: 89980},
 																							run: (*parser).callonListContinuationElement701,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2846, col: 13, offset: 89980},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2846, col: 13, offset: 89980},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32211,28 +32220,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2922, col: 8, offset: 91852},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2909, col: 12, offset: 91625},
 																								run: (*parser).callonListContinuationElement705,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2909, col: 13, offset: 91626},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2909, col: 13, offset: 91626},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2909, col: 20, offset: 91633},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2909, col: 29, offset: 91642},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32241,9 +32250,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2919, col: 8, offset: 91802},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2919, col: 9, offset: 91803,
 																								},
 																							},
 																						},
@@ -32308,10 +32317,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24718},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2900, col: 10, offset: 91454},
 																								run: (*parser).callonListContinuationElement726,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2900, col: 10, offset: 91454},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32320,28 +32329,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonListContinuationElement729,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32350,9 +32359,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -32368,9 +32377,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2919, col: 8, offset: 91802},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2919, col: 9, offset: 91803,
 																	},
 																},
 															},
@@ -32426,10 +32435,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 785, col: 8, offset: 25194},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2900, col: 10, offset: 91454},
 																		run: (*parser).callonListContinuationElement751,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2900, col: 10, offset: 91454},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32438,28 +32447,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2922, col: 8, offset: 91852},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2909, col: 12, offset: 91625},
 																			run: (*parser).callonListContinuationElement754,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2909, col: 13, offset: 91626},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2909, col: 13, offset: 91626},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2909, col: 20, offset: 91633},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2909, col: 29, offset: 91642},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32468,9 +32477,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2919, col: 8, offset: 91802},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2919, col: 9, offset: 91803,
 																			},
 																		},
 																	},
@@ -32542,10 +32551,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25194},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2900, col: 10, offset: 91454},
 																												run: (*parser).callonListContinuationElement779,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2900, col: 10, offset: 91454},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32554,28 +32563,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2922, col: 8, offset: 91852},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2909, col: 12, offset: 91625},
 																													run: (*parser).callonListContinuationElement782,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2909, col: 13, offset: 91626},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2909, col: 13, offset: 91626},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2909, col: 20, offset: 91633},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2909, col: 29, offset: 91642},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32584,9 +32593,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2919, col: 8, offset: 91802},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2919, col: 9, offset: 91803,
 																													},
 																												},
 																											},
@@ -32602,9 +32611,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -32620,21 +32629,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2917, col: 11, offset: 91788},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2917, col: 13, offset: 91790,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2846, col: 13, offset: 89980},
 																							run: (*parser).callonListContinuationElement798,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2846, col: 13, offset: 89980},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2846, col: 13, offset: 89980},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32644,28 +32653,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2922, col: 8, offset: 91852},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2909, col: 12, offset: 91625},
 																								run: (*parser).callonListContinuationElement802,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2909, col: 13, offset: 91626},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2909, col: 13, offset: 91626},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2909, col: 20, offset: 91633},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2909, col: 29, offset: 91642},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32674,9 +32683,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2919, col: 8, offset: 91802},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2919, col: 9, offset: 91803,
 																								},
 																							},
 																						},
@@ -32741,10 +32750,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25194},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2900, col: 10, offset: 91454},
 																								run: (*parser).callonListContinuationElement823,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2900, col: 10, offset: 91454},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32753,28 +32762,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonListContinuationElement826,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32783,9 +32792,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -32801,9 +32810,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2919, col: 8, offset: 91802},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2919, col: 9, offset: 91803,
 																	},
 																},
 															},
@@ -32837,18 +32846,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2869, col: 11, offset: 90573},
+																					pos: position{line: 2917, col: 11, offset: 91788},
 																					expr: &anyMatcher{
-																						line: 2869, col: 13, offset: 90575,
+																						line: 2917, col: 13, offset: 91790,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2900, col: 10, offset: 91454},
 																						run: (*parser).callonListContinuationElement847,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2900, col: 10, offset: 91454},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32857,28 +32866,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2922, col: 8, offset: 91852},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2909, col: 12, offset: 91625},
 																							run: (*parser).callonListContinuationElement850,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2909, col: 13, offset: 91626},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2909, col: 13, offset: 91626},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2909, col: 20, offset: 91633},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2909, col: 29, offset: 91642},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32887,9 +32896,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2919, col: 8, offset: 91802},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2919, col: 9, offset: 91803,
 																							},
 																						},
 																					},
@@ -32908,12 +32917,12 @@ var g = &grammar{
 																	pos:   position{line: 984, col: 5, offset: 30684},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2802, col: 14, offset: 88832},
+																		pos: position{line: 2850, col: 14, offset: 90047},
 																		run: (*parser).callonListContinuationElement859,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2802, col: 14, offset: 88832},
+																			pos: position{line: 2850, col: 14, offset: 90047},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2802, col: 14, offset: 88832},
+																				pos:        position{line: 2850, col: 14, offset: 90047},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -32923,28 +32932,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2922, col: 8, offset: 91852},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2909, col: 12, offset: 91625},
 																			run: (*parser).callonListContinuationElement863,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2909, col: 13, offset: 91626},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2909, col: 13, offset: 91626},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2909, col: 20, offset: 91633},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2909, col: 29, offset: 91642},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32953,9 +32962,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2919, col: 8, offset: 91802},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2919, col: 9, offset: 91803,
 																			},
 																		},
 																	},
@@ -32987,18 +32996,18 @@ var g = &grammar{
 																						pos: position{line: 677, col: 14, offset: 21489},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2869, col: 11, offset: 90573},
+																								pos: position{line: 2917, col: 11, offset: 91788},
 																								expr: &anyMatcher{
-																									line: 2869, col: 13, offset: 90575,
+																									line: 2917, col: 13, offset: 91790,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 677, col: 21, offset: 21496},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2900, col: 10, offset: 91454},
 																									run: (*parser).callonListContinuationElement881,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2900, col: 10, offset: 91454},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33007,28 +33016,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2922, col: 8, offset: 91852},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2909, col: 12, offset: 91625},
 																										run: (*parser).callonListContinuationElement884,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2909, col: 13, offset: 91626},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2909, col: 13, offset: 91626},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2909, col: 20, offset: 91633},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2909, col: 29, offset: 91642},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33037,9 +33046,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2919, col: 8, offset: 91802},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2919, col: 9, offset: 91803,
 																										},
 																									},
 																								},
@@ -33058,12 +33067,12 @@ var g = &grammar{
 																				pos:   position{line: 984, col: 5, offset: 30684},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2802, col: 14, offset: 88832},
+																					pos: position{line: 2850, col: 14, offset: 90047},
 																					run: (*parser).callonListContinuationElement893,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2802, col: 14, offset: 88832},
+																						pos: position{line: 2850, col: 14, offset: 90047},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2802, col: 14, offset: 88832},
+																							pos:        position{line: 2850, col: 14, offset: 90047},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33073,28 +33082,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
+																				pos: position{line: 2922, col: 8, offset: 91852},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
+																						pos: position{line: 2909, col: 12, offset: 91625},
 																						run: (*parser).callonListContinuationElement897,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2909, col: 13, offset: 91626},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2909, col: 13, offset: 91626},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2909, col: 20, offset: 91633},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2909, col: 29, offset: 91642},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33103,9 +33112,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2919, col: 8, offset: 91802},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2919, col: 9, offset: 91803,
 																						},
 																					},
 																				},
@@ -33114,21 +33123,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1784, col: 5, offset: 57605},
+																	pos: position{line: 1789, col: 5, offset: 57721},
 																	run: (*parser).callonListContinuationElement904,
 																	expr: &seqExpr{
-																		pos: position{line: 1784, col: 5, offset: 57605},
+																		pos: position{line: 1789, col: 5, offset: 57721},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1784, col: 5, offset: 57605},
+																				pos:   position{line: 1789, col: 5, offset: 57721},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2802, col: 14, offset: 88832},
+																					pos: position{line: 2850, col: 14, offset: 90047},
 																					run: (*parser).callonListContinuationElement907,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2802, col: 14, offset: 88832},
+																						pos: position{line: 2850, col: 14, offset: 90047},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2802, col: 14, offset: 88832},
+																							pos:        position{line: 2850, col: 14, offset: 90047},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33138,32 +33147,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1785, col: 5, offset: 57629},
+																				pos: position{line: 1790, col: 5, offset: 57745},
 																				run: (*parser).callonListContinuationElement910,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
+																				pos: position{line: 2922, col: 8, offset: 91852},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
+																						pos: position{line: 2909, col: 12, offset: 91625},
 																						run: (*parser).callonListContinuationElement912,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2909, col: 13, offset: 91626},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2909, col: 13, offset: 91626},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2909, col: 20, offset: 91633},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2909, col: 29, offset: 91642},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33172,9 +33181,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2919, col: 8, offset: 91802},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2919, col: 9, offset: 91803,
 																						},
 																					},
 																				},
@@ -33221,10 +33230,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 778, col: 8, offset: 24949},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2900, col: 10, offset: 91454},
 																		run: (*parser).callonListContinuationElement928,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2900, col: 10, offset: 91454},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33233,28 +33242,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2922, col: 8, offset: 91852},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2909, col: 12, offset: 91625},
 																			run: (*parser).callonListContinuationElement931,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2909, col: 13, offset: 91626},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2909, col: 13, offset: 91626},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2909, col: 20, offset: 91633},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2909, col: 29, offset: 91642},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33263,9 +33272,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2919, col: 8, offset: 91802},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2919, col: 9, offset: 91803,
 																			},
 																		},
 																	},
@@ -33313,10 +33322,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 778, col: 8, offset: 24949},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2900, col: 10, offset: 91454},
 																									run: (*parser).callonListContinuationElement950,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2900, col: 10, offset: 91454},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33325,28 +33334,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2922, col: 8, offset: 91852},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2909, col: 12, offset: 91625},
 																										run: (*parser).callonListContinuationElement953,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2909, col: 13, offset: 91626},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2909, col: 13, offset: 91626},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2909, col: 20, offset: 91633},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2909, col: 29, offset: 91642},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33355,9 +33364,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2919, col: 8, offset: 91802},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2919, col: 9, offset: 91803,
 																										},
 																									},
 																								},
@@ -33366,9 +33375,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -33384,21 +33393,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2917, col: 11, offset: 91788},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2917, col: 13, offset: 91790,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2846, col: 13, offset: 89980},
 																							run: (*parser).callonListContinuationElement968,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2846, col: 13, offset: 89980},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2846, col: 13, offset: 89980},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33408,28 +33417,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2922, col: 8, offset: 91852},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2909, col: 12, offset: 91625},
 																								run: (*parser).callonListContinuationElement972,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2909, col: 13, offset: 91626},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2909, col: 13, offset: 91626},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2909, col: 20, offset: 91633},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2909, col: 29, offset: 91642},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33438,9 +33447,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2919, col: 8, offset: 91802},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2919, col: 9, offset: 91803,
 																								},
 																							},
 																						},
@@ -33485,10 +33494,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 778, col: 8, offset: 24949},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
+																					pos: position{line: 2900, col: 10, offset: 91454},
 																					run: (*parser).callonListContinuationElement988,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2900, col: 10, offset: 91454},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -33497,28 +33506,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
+																				pos: position{line: 2922, col: 8, offset: 91852},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
+																						pos: position{line: 2909, col: 12, offset: 91625},
 																						run: (*parser).callonListContinuationElement991,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2909, col: 13, offset: 91626},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2909, col: 13, offset: 91626},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2909, col: 20, offset: 91633},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2909, col: 29, offset: 91642},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33527,9 +33536,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2919, col: 8, offset: 91802},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2919, col: 9, offset: 91803,
 																						},
 																					},
 																				},
@@ -33538,9 +33547,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2919, col: 8, offset: 91802},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2919, col: 9, offset: 91803,
 																	},
 																},
 															},
@@ -33596,10 +33605,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 792, col: 8, offset: 25446},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2900, col: 10, offset: 91454},
 																		run: (*parser).callonListContinuationElement1012,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2900, col: 10, offset: 91454},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33608,28 +33617,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2922, col: 8, offset: 91852},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2909, col: 12, offset: 91625},
 																			run: (*parser).callonListContinuationElement1015,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2909, col: 13, offset: 91626},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2909, col: 13, offset: 91626},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2909, col: 20, offset: 91633},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2909, col: 29, offset: 91642},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33638,9 +33647,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2919, col: 8, offset: 91802},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2919, col: 9, offset: 91803,
 																			},
 																		},
 																	},
@@ -33712,10 +33721,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25446},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2900, col: 10, offset: 91454},
 																												run: (*parser).callonListContinuationElement1040,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2900, col: 10, offset: 91454},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33724,28 +33733,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2922, col: 8, offset: 91852},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2909, col: 12, offset: 91625},
 																													run: (*parser).callonListContinuationElement1043,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2909, col: 13, offset: 91626},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2909, col: 13, offset: 91626},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2909, col: 20, offset: 91633},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2909, col: 29, offset: 91642},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33754,9 +33763,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2919, col: 8, offset: 91802},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2919, col: 9, offset: 91803,
 																													},
 																												},
 																											},
@@ -33772,9 +33781,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -33790,21 +33799,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2917, col: 11, offset: 91788},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2917, col: 13, offset: 91790,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2846, col: 13, offset: 89980},
 																							run: (*parser).callonListContinuationElement1059,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2846, col: 13, offset: 89980},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2846, col: 13, offset: 89980},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33814,28 +33823,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2922, col: 8, offset: 91852},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2909, col: 12, offset: 91625},
 																								run: (*parser).callonListContinuationElement1063,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2909, col: 13, offset: 91626},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2909, col: 13, offset: 91626},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2909, col: 20, offset: 91633},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2909, col: 29, offset: 91642},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33844,9 +33853,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2919, col: 8, offset: 91802},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2919, col: 9, offset: 91803,
 																								},
 																							},
 																						},
@@ -33911,10 +33920,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25446},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2900, col: 10, offset: 91454},
 																								run: (*parser).callonListContinuationElement1084,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2900, col: 10, offset: 91454},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33923,28 +33932,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonListContinuationElement1087,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33953,9 +33962,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -33971,9 +33980,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2919, col: 8, offset: 91802},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2919, col: 9, offset: 91803,
 																	},
 																},
 															},
@@ -34029,10 +34038,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 799, col: 8, offset: 25696},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2900, col: 10, offset: 91454},
 																		run: (*parser).callonListContinuationElement1109,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2900, col: 10, offset: 91454},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34041,28 +34050,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2922, col: 8, offset: 91852},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2909, col: 12, offset: 91625},
 																			run: (*parser).callonListContinuationElement1112,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2909, col: 13, offset: 91626},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2909, col: 13, offset: 91626},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2909, col: 20, offset: 91633},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2909, col: 29, offset: 91642},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34071,9 +34080,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2919, col: 8, offset: 91802},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2919, col: 9, offset: 91803,
 																			},
 																		},
 																	},
@@ -34145,10 +34154,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25696},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2900, col: 10, offset: 91454},
 																												run: (*parser).callonListContinuationElement1137,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2900, col: 10, offset: 91454},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34157,28 +34166,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2922, col: 8, offset: 91852},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2909, col: 12, offset: 91625},
 																													run: (*parser).callonListContinuationElement1140,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2909, col: 13, offset: 91626},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2909, col: 13, offset: 91626},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2909, col: 20, offset: 91633},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2909, col: 29, offset: 91642},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34187,9 +34196,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2919, col: 8, offset: 91802},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2919, col: 9, offset: 91803,
 																													},
 																												},
 																											},
@@ -34205,9 +34214,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -34223,21 +34232,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2917, col: 11, offset: 91788},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2917, col: 13, offset: 91790,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2846, col: 13, offset: 89980},
 																							run: (*parser).callonListContinuationElement1156,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2846, col: 13, offset: 89980},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2846, col: 13, offset: 89980},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34247,28 +34256,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2922, col: 8, offset: 91852},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2909, col: 12, offset: 91625},
 																								run: (*parser).callonListContinuationElement1160,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2909, col: 13, offset: 91626},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2909, col: 13, offset: 91626},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2909, col: 20, offset: 91633},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2909, col: 29, offset: 91642},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34277,9 +34286,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2919, col: 8, offset: 91802},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2919, col: 9, offset: 91803,
 																								},
 																							},
 																						},
@@ -34344,10 +34353,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25696},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2900, col: 10, offset: 91454},
 																								run: (*parser).callonListContinuationElement1181,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2900, col: 10, offset: 91454},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34356,28 +34365,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonListContinuationElement1184,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34386,9 +34395,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -34404,9 +34413,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2919, col: 8, offset: 91802},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2919, col: 9, offset: 91803,
 																	},
 																},
 															},
@@ -34462,10 +34471,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 806, col: 8, offset: 25942},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2900, col: 10, offset: 91454},
 																		run: (*parser).callonListContinuationElement1206,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2900, col: 10, offset: 91454},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34474,28 +34483,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2922, col: 8, offset: 91852},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2909, col: 12, offset: 91625},
 																			run: (*parser).callonListContinuationElement1209,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2909, col: 13, offset: 91626},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2909, col: 13, offset: 91626},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2909, col: 20, offset: 91633},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2909, col: 29, offset: 91642},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34504,9 +34513,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2919, col: 8, offset: 91802},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2919, col: 9, offset: 91803,
 																			},
 																		},
 																	},
@@ -34578,10 +34587,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25942},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2900, col: 10, offset: 91454},
 																												run: (*parser).callonListContinuationElement1234,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2900, col: 10, offset: 91454},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34590,28 +34599,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2922, col: 8, offset: 91852},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2909, col: 12, offset: 91625},
 																													run: (*parser).callonListContinuationElement1237,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2909, col: 13, offset: 91626},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2909, col: 13, offset: 91626},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2909, col: 20, offset: 91633},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2909, col: 29, offset: 91642},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34620,9 +34629,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2919, col: 8, offset: 91802},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2919, col: 9, offset: 91803,
 																													},
 																												},
 																											},
@@ -34638,9 +34647,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -34656,21 +34665,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2917, col: 11, offset: 91788},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2917, col: 13, offset: 91790,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2846, col: 13, offset: 89980},
 																							run: (*parser).callonListContinuationElement1253,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2846, col: 13, offset: 89980},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2846, col: 13, offset: 89980},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34680,28 +34689,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2922, col: 8, offset: 91852},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2909, col: 12, offset: 91625},
 																								run: (*parser).callonListContinuationElement1257,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2909, col: 13, offset: 91626},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2909, col: 13, offset: 91626},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2909, col: 20, offset: 91633},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2909, col: 29, offset: 91642},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34710,9 +34719,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2919, col: 8, offset: 91802},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2919, col: 9, offset: 91803,
 																								},
 																							},
 																						},
@@ -34777,10 +34786,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25942},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2900, col: 10, offset: 91454},
 																								run: (*parser).callonListContinuationElement1278,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2900, col: 10, offset: 91454},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34789,28 +34798,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2922, col: 8, offset: 91852},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2909, col: 12, offset: 91625},
 																									run: (*parser).callonListContinuationElement1281,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2909, col: 13, offset: 91626},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2909, col: 13, offset: 91626},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2909, col: 20, offset: 91633},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2909, col: 29, offset: 91642},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34819,9 +34828,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2919, col: 8, offset: 91802},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2919, col: 9, offset: 91803,
 																									},
 																								},
 																							},
@@ -34837,9 +34846,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2919, col: 8, offset: 91802},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2919, col: 9, offset: 91803,
 																	},
 																},
 															},
@@ -34850,52 +34859,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2697, col: 18, offset: 85829},
+										pos: position{line: 2745, col: 18, offset: 87044},
 										run: (*parser).callonListContinuationElement1291,
 										expr: &seqExpr{
-											pos: position{line: 2697, col: 18, offset: 85829},
+											pos: position{line: 2745, col: 18, offset: 87044},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2698, col: 9, offset: 85839},
+													pos: position{line: 2746, col: 9, offset: 87054},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2698, col: 9, offset: 85839},
+															pos:        position{line: 2746, col: 9, offset: 87054},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 11, offset: 85875},
+															pos:        position{line: 2747, col: 11, offset: 87090},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 19, offset: 85883},
+															pos:        position{line: 2747, col: 19, offset: 87098},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 29, offset: 85893},
+															pos:        position{line: 2747, col: 29, offset: 87108},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 37, offset: 85901},
+															pos:        position{line: 2747, col: 37, offset: 87116},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 47, offset: 85911},
+															pos:        position{line: 2747, col: 47, offset: 87126},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 55, offset: 85919},
+															pos:        position{line: 2747, col: 55, offset: 87134},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -34903,12 +34912,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2700, col: 11, offset: 85977},
+													pos: position{line: 2748, col: 11, offset: 87192},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2900, col: 10, offset: 91454},
 														run: (*parser).callonListContinuationElement1302,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2900, col: 10, offset: 91454},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -34917,28 +34926,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2922, col: 8, offset: 91852},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2909, col: 12, offset: 91625},
 															run: (*parser).callonListContinuationElement1305,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2909, col: 13, offset: 91626},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2909, col: 13, offset: 91626},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2909, col: 20, offset: 91633},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2909, col: 29, offset: 91642},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -34947,36 +34956,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2919, col: 8, offset: 91802},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2919, col: 9, offset: 91803,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2922, col: 8, offset: 91852},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2909, col: 12, offset: 91625},
 															run: (*parser).callonListContinuationElement1313,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2909, col: 13, offset: 91626},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2909, col: 13, offset: 91626},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2909, col: 20, offset: 91633},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2909, col: 29, offset: 91642},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -34985,9 +34994,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2919, col: 8, offset: 91802},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2919, col: 9, offset: 91803,
 															},
 														},
 													},
@@ -34996,28 +35005,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1548, col: 11, offset: 49986},
+										pos:  position{line: 1553, col: 11, offset: 50102},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2588, col: 5, offset: 82765},
+										pos: position{line: 2636, col: 5, offset: 83980},
 										run: (*parser).callonListContinuationElement1321,
 										expr: &seqExpr{
-											pos: position{line: 2588, col: 5, offset: 82765},
+											pos: position{line: 2636, col: 5, offset: 83980},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2594, col: 19, offset: 82922},
+													pos:        position{line: 2642, col: 19, offset: 84137},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2594, col: 26, offset: 82929},
+													pos: position{line: 2642, col: 26, offset: 84144},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2900, col: 10, offset: 91454},
 														run: (*parser).callonListContinuationElement1325,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2900, col: 10, offset: 91454},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35026,28 +35035,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2922, col: 8, offset: 91852},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2909, col: 12, offset: 91625},
 															run: (*parser).callonListContinuationElement1328,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2909, col: 13, offset: 91626},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2909, col: 13, offset: 91626},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2909, col: 20, offset: 91633},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2909, col: 29, offset: 91642},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35056,20 +35065,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2919, col: 8, offset: 91802},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2919, col: 9, offset: 91803,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2589, col: 5, offset: 82789},
+													pos:   position{line: 2637, col: 5, offset: 84004},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2589, col: 11, offset: 82795},
+														pos: position{line: 2637, col: 11, offset: 84010},
 														expr: &choiceExpr{
-															pos: position{line: 2589, col: 12, offset: 82796},
+															pos: position{line: 2637, col: 12, offset: 84011},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 677, col: 14, offset: 21489},
@@ -35078,18 +35087,18 @@ var g = &grammar{
 																		pos: position{line: 677, col: 14, offset: 21489},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2869, col: 11, offset: 90573},
+																				pos: position{line: 2917, col: 11, offset: 91788},
 																				expr: &anyMatcher{
-																					line: 2869, col: 13, offset: 90575,
+																					line: 2917, col: 13, offset: 91790,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 677, col: 21, offset: 21496},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
+																					pos: position{line: 2900, col: 10, offset: 91454},
 																					run: (*parser).callonListContinuationElement1343,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2900, col: 10, offset: 91454},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35098,28 +35107,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
+																				pos: position{line: 2922, col: 8, offset: 91852},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
+																						pos: position{line: 2909, col: 12, offset: 91625},
 																						run: (*parser).callonListContinuationElement1346,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2909, col: 13, offset: 91626},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2909, col: 13, offset: 91626},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2909, col: 20, offset: 91633},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2909, col: 29, offset: 91642},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35128,9 +35137,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2919, col: 8, offset: 91802},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2919, col: 9, offset: 91803,
 																						},
 																					},
 																				},
@@ -35139,32 +35148,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2601, col: 5, offset: 83041},
+																	pos: position{line: 2649, col: 5, offset: 84256},
 																	run: (*parser).callonListContinuationElement1353,
 																	expr: &seqExpr{
-																		pos: position{line: 2601, col: 5, offset: 83041},
+																		pos: position{line: 2649, col: 5, offset: 84256},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2601, col: 5, offset: 83041},
+																				pos: position{line: 2649, col: 5, offset: 84256},
 																				expr: &choiceExpr{
-																					pos: position{line: 2598, col: 22, offset: 83002},
+																					pos: position{line: 2646, col: 22, offset: 84217},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2594, col: 19, offset: 82922},
+																							pos: position{line: 2642, col: 19, offset: 84137},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2594, col: 19, offset: 82922},
+																									pos:        position{line: 2642, col: 19, offset: 84137},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2594, col: 26, offset: 82929},
+																									pos: position{line: 2642, col: 26, offset: 84144},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
+																										pos: position{line: 2900, col: 10, offset: 91454},
 																										run: (*parser).callonListContinuationElement1360,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2900, col: 10, offset: 91454},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35173,28 +35182,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2922, col: 8, offset: 91852},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2909, col: 12, offset: 91625},
 																											run: (*parser).callonListContinuationElement1363,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2909, col: 13, offset: 91626},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2909, col: 13, offset: 91626},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2909, col: 20, offset: 91633},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2909, col: 29, offset: 91642},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35203,9 +35212,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2919, col: 8, offset: 91802},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2919, col: 9, offset: 91803,
 																											},
 																										},
 																									},
@@ -35213,59 +35222,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2919, col: 8, offset: 91802},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2919, col: 9, offset: 91803,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2602, col: 5, offset: 83064},
+																				pos:   position{line: 2650, col: 5, offset: 84279},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2603, col: 9, offset: 83082},
+																					pos: position{line: 2651, col: 9, offset: 84297},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2603, col: 10, offset: 83083},
+																							pos: position{line: 2651, col: 10, offset: 84298},
 																							run: (*parser).callonListContinuationElement1374,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2603, col: 10, offset: 83083},
+																								pos:   position{line: 2651, col: 10, offset: 84298},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2603, col: 17, offset: 83090},
+																									pos: position{line: 2651, col: 17, offset: 84305},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2611, col: 21, offset: 83286},
+																											pos: position{line: 2659, col: 21, offset: 84501},
 																											run: (*parser).callonListContinuationElement1377,
 																											expr: &seqExpr{
-																												pos: position{line: 2611, col: 21, offset: 83286},
+																												pos: position{line: 2659, col: 21, offset: 84501},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2611, col: 21, offset: 83286},
+																														pos:   position{line: 2659, col: 21, offset: 84501},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2611, col: 27, offset: 83292},
+																															pos: position{line: 2659, col: 27, offset: 84507},
 																															expr: &actionExpr{
-																																pos: position{line: 2616, col: 5, offset: 83367},
+																																pos: position{line: 2664, col: 5, offset: 84582},
 																																run: (*parser).callonListContinuationElement1381,
 																																expr: &seqExpr{
-																																	pos: position{line: 2616, col: 5, offset: 83367},
+																																	pos: position{line: 2664, col: 5, offset: 84582},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2616, col: 5, offset: 83367},
+																																			pos:        position{line: 2664, col: 5, offset: 84582},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2616, col: 9, offset: 83371},
+																																			pos: position{line: 2664, col: 9, offset: 84586},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2852, col: 10, offset: 90239},
+																																				pos: position{line: 2900, col: 10, offset: 91454},
 																																				run: (*parser).callonListContinuationElement1385,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2852, col: 10, offset: 90239},
+																																					pos:        position{line: 2900, col: 10, offset: 91454},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -35274,21 +35283,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2616, col: 16, offset: 83378},
+																																			pos:   position{line: 2664, col: 16, offset: 84593},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2622, col: 5, offset: 83578},
+																																				pos: position{line: 2670, col: 5, offset: 84793},
 																																				run: (*parser).callonListContinuationElement1388,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2622, col: 5, offset: 83578},
+																																					pos:   position{line: 2670, col: 5, offset: 84793},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2622, col: 14, offset: 83587},
+																																						pos: position{line: 2670, col: 14, offset: 84802},
 																																						run: (*parser).callonListContinuationElement1390,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2622, col: 14, offset: 83587},
+																																							pos: position{line: 2670, col: 14, offset: 84802},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2622, col: 14, offset: 83587},
+																																								pos:        position{line: 2670, col: 14, offset: 84802},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -35305,28 +35314,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2874, col: 8, offset: 90637},
+																														pos: position{line: 2922, col: 8, offset: 91852},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2861, col: 12, offset: 90410},
+																																pos: position{line: 2909, col: 12, offset: 91625},
 																																run: (*parser).callonListContinuationElement1394,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2861, col: 13, offset: 90411},
+																																	pos: position{line: 2909, col: 13, offset: 91626},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2861, col: 13, offset: 90411},
+																																			pos:        position{line: 2909, col: 13, offset: 91626},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2861, col: 20, offset: 90418},
+																																			pos:        position{line: 2909, col: 20, offset: 91633},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2861, col: 29, offset: 90427},
+																																			pos:        position{line: 2909, col: 29, offset: 91642},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -35335,9 +35344,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2871, col: 8, offset: 90587},
+																																pos: position{line: 2919, col: 8, offset: 91802},
 																																expr: &anyMatcher{
-																																	line: 2871, col: 9, offset: 90588,
+																																	line: 2919, col: 9, offset: 91803,
 																																},
 																															},
 																														},
@@ -35346,40 +35355,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2628, col: 24, offset: 83723},
+																											pos: position{line: 2676, col: 24, offset: 84938},
 																											run: (*parser).callonListContinuationElement1401,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2628, col: 24, offset: 83723},
+																												pos:   position{line: 2676, col: 24, offset: 84938},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2628, col: 30, offset: 83729},
+																													pos: position{line: 2676, col: 30, offset: 84944},
 																													expr: &actionExpr{
-																														pos: position{line: 2633, col: 5, offset: 83805},
+																														pos: position{line: 2681, col: 5, offset: 85020},
 																														run: (*parser).callonListContinuationElement1404,
 																														expr: &seqExpr{
-																															pos: position{line: 2633, col: 5, offset: 83805},
+																															pos: position{line: 2681, col: 5, offset: 85020},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2633, col: 5, offset: 83805},
+																																	pos: position{line: 2681, col: 5, offset: 85020},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2598, col: 22, offset: 83002},
+																																		pos: position{line: 2646, col: 22, offset: 84217},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2594, col: 19, offset: 82922},
+																																				pos: position{line: 2642, col: 19, offset: 84137},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2594, col: 19, offset: 82922},
+																																						pos:        position{line: 2642, col: 19, offset: 84137},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2594, col: 26, offset: 82929},
+																																						pos: position{line: 2642, col: 26, offset: 84144},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2852, col: 10, offset: 90239},
+																																							pos: position{line: 2900, col: 10, offset: 91454},
 																																							run: (*parser).callonListContinuationElement1411,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2852, col: 10, offset: 90239},
+																																								pos:        position{line: 2900, col: 10, offset: 91454},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -35388,28 +35397,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2874, col: 8, offset: 90637},
+																																						pos: position{line: 2922, col: 8, offset: 91852},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2861, col: 12, offset: 90410},
+																																								pos: position{line: 2909, col: 12, offset: 91625},
 																																								run: (*parser).callonListContinuationElement1414,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2861, col: 13, offset: 90411},
+																																									pos: position{line: 2909, col: 13, offset: 91626},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 13, offset: 90411},
+																																											pos:        position{line: 2909, col: 13, offset: 91626},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 20, offset: 90418},
+																																											pos:        position{line: 2909, col: 20, offset: 91633},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 29, offset: 90427},
+																																											pos:        position{line: 2909, col: 29, offset: 91642},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -35418,9 +35427,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2871, col: 8, offset: 90587},
+																																								pos: position{line: 2919, col: 8, offset: 91802},
 																																								expr: &anyMatcher{
-																																									line: 2871, col: 9, offset: 90588,
+																																									line: 2919, col: 9, offset: 91803,
 																																								},
 																																							},
 																																						},
@@ -35428,16 +35437,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2871, col: 8, offset: 90587},
+																																				pos: position{line: 2919, col: 8, offset: 91802},
 																																				expr: &anyMatcher{
-																																					line: 2871, col: 9, offset: 90588,
+																																					line: 2919, col: 9, offset: 91803,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2634, col: 5, offset: 83828},
+																																	pos: position{line: 2682, col: 5, offset: 85043},
 																																	expr: &actionExpr{
 																																		pos: position{line: 677, col: 14, offset: 21489},
 																																		run: (*parser).callonListContinuationElement1424,
@@ -35445,18 +35454,18 @@ var g = &grammar{
 																																			pos: position{line: 677, col: 14, offset: 21489},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2869, col: 11, offset: 90573},
+																																					pos: position{line: 2917, col: 11, offset: 91788},
 																																					expr: &anyMatcher{
-																																						line: 2869, col: 13, offset: 90575,
+																																						line: 2917, col: 13, offset: 91790,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 677, col: 21, offset: 21496},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2852, col: 10, offset: 90239},
+																																						pos: position{line: 2900, col: 10, offset: 91454},
 																																						run: (*parser).callonListContinuationElement1429,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2852, col: 10, offset: 90239},
+																																							pos:        position{line: 2900, col: 10, offset: 91454},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -35465,28 +35474,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2874, col: 8, offset: 90637},
+																																					pos: position{line: 2922, col: 8, offset: 91852},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2861, col: 12, offset: 90410},
+																																							pos: position{line: 2909, col: 12, offset: 91625},
 																																							run: (*parser).callonListContinuationElement1432,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2861, col: 13, offset: 90411},
+																																								pos: position{line: 2909, col: 13, offset: 91626},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2861, col: 13, offset: 90411},
+																																										pos:        position{line: 2909, col: 13, offset: 91626},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2861, col: 20, offset: 90418},
+																																										pos:        position{line: 2909, col: 20, offset: 91633},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2861, col: 29, offset: 90427},
+																																										pos:        position{line: 2909, col: 29, offset: 91642},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -35495,9 +35504,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2871, col: 8, offset: 90587},
+																																							pos: position{line: 2919, col: 8, offset: 91802},
 																																							expr: &anyMatcher{
-																																								line: 2871, col: 9, offset: 90588,
+																																								line: 2919, col: 9, offset: 91803,
 																																							},
 																																						},
 																																					},
@@ -35507,17 +35516,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2635, col: 5, offset: 83843},
+																																	pos:   position{line: 2683, col: 5, offset: 85058},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2635, col: 12, offset: 83850},
+																																		pos: position{line: 2683, col: 12, offset: 85065},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2652, col: 20, offset: 84314},
+																																			pos: position{line: 2700, col: 20, offset: 85529},
 																																			run: (*parser).callonListContinuationElement1441,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2652, col: 20, offset: 84314},
+																																				pos: position{line: 2700, col: 20, offset: 85529},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2652, col: 20, offset: 84314},
+																																					pos:        position{line: 2700, col: 20, offset: 85529},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -35528,18 +35537,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2635, col: 31, offset: 83869},
+																																	pos:        position{line: 2683, col: 31, offset: 85084},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2635, col: 35, offset: 83873},
+																																	pos: position{line: 2683, col: 35, offset: 85088},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2852, col: 10, offset: 90239},
+																																		pos: position{line: 2900, col: 10, offset: 91454},
 																																		run: (*parser).callonListContinuationElement1446,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2852, col: 10, offset: 90239},
+																																			pos:        position{line: 2900, col: 10, offset: 91454},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -35548,27 +35557,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2635, col: 42, offset: 83880},
+																																	pos: position{line: 2683, col: 42, offset: 85095},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2861, col: 12, offset: 90410},
+																																		pos: position{line: 2909, col: 12, offset: 91625},
 																																		run: (*parser).callonListContinuationElement1449,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2861, col: 13, offset: 90411},
+																																			pos: position{line: 2909, col: 13, offset: 91626},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2861, col: 13, offset: 90411},
+																																					pos:        position{line: 2909, col: 13, offset: 91626},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2861, col: 20, offset: 90418},
+																																					pos:        position{line: 2909, col: 20, offset: 91633},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2861, col: 29, offset: 90427},
+																																					pos:        position{line: 2909, col: 29, offset: 91642},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -35578,37 +35587,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2635, col: 51, offset: 83889},
+																																	pos:   position{line: 2683, col: 51, offset: 85104},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2641, col: 5, offset: 84048},
+																																		pos: position{line: 2689, col: 5, offset: 85263},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2642, col: 9, offset: 84058},
+																																			pos: position{line: 2690, col: 9, offset: 85273},
 																																			run: (*parser).callonListContinuationElement1456,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2642, col: 9, offset: 84058},
+																																				pos: position{line: 2690, col: 9, offset: 85273},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2642, col: 9, offset: 84058},
+																																						pos: position{line: 2690, col: 9, offset: 85273},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2598, col: 22, offset: 83002},
+																																							pos: position{line: 2646, col: 22, offset: 84217},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2594, col: 19, offset: 82922},
+																																									pos: position{line: 2642, col: 19, offset: 84137},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2594, col: 19, offset: 82922},
+																																											pos:        position{line: 2642, col: 19, offset: 84137},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2594, col: 26, offset: 82929},
+																																											pos: position{line: 2642, col: 26, offset: 84144},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2852, col: 10, offset: 90239},
+																																												pos: position{line: 2900, col: 10, offset: 91454},
 																																												run: (*parser).callonListContinuationElement1463,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2852, col: 10, offset: 90239},
+																																													pos:        position{line: 2900, col: 10, offset: 91454},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -35617,28 +35626,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2874, col: 8, offset: 90637},
+																																											pos: position{line: 2922, col: 8, offset: 91852},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2861, col: 12, offset: 90410},
+																																													pos: position{line: 2909, col: 12, offset: 91625},
 																																													run: (*parser).callonListContinuationElement1466,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2861, col: 13, offset: 90411},
+																																														pos: position{line: 2909, col: 13, offset: 91626},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																																pos:        position{line: 2909, col: 13, offset: 91626},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																																pos:        position{line: 2909, col: 20, offset: 91633},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																																pos:        position{line: 2909, col: 29, offset: 91642},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -35647,9 +35656,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2871, col: 8, offset: 90587},
+																																													pos: position{line: 2919, col: 8, offset: 91802},
 																																													expr: &anyMatcher{
-																																														line: 2871, col: 9, offset: 90588,
+																																														line: 2919, col: 9, offset: 91803,
 																																													},
 																																												},
 																																											},
@@ -35657,16 +35666,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2871, col: 8, offset: 90587},
+																																									pos: position{line: 2919, col: 8, offset: 91802},
 																																									expr: &anyMatcher{
-																																										line: 2871, col: 9, offset: 90588,
+																																										line: 2919, col: 9, offset: 91803,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2643, col: 9, offset: 84085},
+																																						pos: position{line: 2691, col: 9, offset: 85300},
 																																						expr: &actionExpr{
 																																							pos: position{line: 677, col: 14, offset: 21489},
 																																							run: (*parser).callonListContinuationElement1476,
@@ -35674,18 +35683,18 @@ var g = &grammar{
 																																								pos: position{line: 677, col: 14, offset: 21489},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2869, col: 11, offset: 90573},
+																																										pos: position{line: 2917, col: 11, offset: 91788},
 																																										expr: &anyMatcher{
-																																											line: 2869, col: 13, offset: 90575,
+																																											line: 2917, col: 13, offset: 91790,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 677, col: 21, offset: 21496},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2852, col: 10, offset: 90239},
+																																											pos: position{line: 2900, col: 10, offset: 91454},
 																																											run: (*parser).callonListContinuationElement1481,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2852, col: 10, offset: 90239},
+																																												pos:        position{line: 2900, col: 10, offset: 91454},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -35694,28 +35703,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2874, col: 8, offset: 90637},
+																																										pos: position{line: 2922, col: 8, offset: 91852},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2861, col: 12, offset: 90410},
+																																												pos: position{line: 2909, col: 12, offset: 91625},
 																																												run: (*parser).callonListContinuationElement1484,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2861, col: 13, offset: 90411},
+																																													pos: position{line: 2909, col: 13, offset: 91626},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2861, col: 13, offset: 90411},
+																																															pos:        position{line: 2909, col: 13, offset: 91626},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2861, col: 20, offset: 90418},
+																																															pos:        position{line: 2909, col: 20, offset: 91633},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2861, col: 29, offset: 90427},
+																																															pos:        position{line: 2909, col: 29, offset: 91642},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -35724,9 +35733,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2871, col: 8, offset: 90587},
+																																												pos: position{line: 2919, col: 8, offset: 91802},
 																																												expr: &anyMatcher{
-																																													line: 2871, col: 9, offset: 90588,
+																																													line: 2919, col: 9, offset: 91803,
 																																												},
 																																											},
 																																										},
@@ -35736,22 +35745,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2644, col: 9, offset: 84104},
+																																						pos: position{line: 2692, col: 9, offset: 85319},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2644, col: 11, offset: 84106},
+																																							pos: position{line: 2692, col: 11, offset: 85321},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2644, col: 11, offset: 84106},
+																																									pos:   position{line: 2692, col: 11, offset: 85321},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2644, col: 18, offset: 84113},
+																																										pos: position{line: 2692, col: 18, offset: 85328},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2652, col: 20, offset: 84314},
+																																											pos: position{line: 2700, col: 20, offset: 85529},
 																																											run: (*parser).callonListContinuationElement1495,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2652, col: 20, offset: 84314},
+																																												pos: position{line: 2700, col: 20, offset: 85529},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2652, col: 20, offset: 84314},
+																																													pos:        position{line: 2700, col: 20, offset: 85529},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -35762,7 +35771,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2644, col: 37, offset: 84132},
+																																									pos:        position{line: 2692, col: 37, offset: 85347},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -35771,15 +35780,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2645, col: 9, offset: 84145},
+																																						pos:   position{line: 2693, col: 9, offset: 85360},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2645, col: 18, offset: 84154},
+																																							pos: position{line: 2693, col: 18, offset: 85369},
 																																							run: (*parser).callonListContinuationElement1500,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2645, col: 18, offset: 84154},
+																																								pos: position{line: 2693, col: 18, offset: 85369},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2645, col: 18, offset: 84154},
+																																									pos:        position{line: 2693, col: 18, offset: 85369},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -35789,30 +35798,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2647, col: 12, offset: 84216},
+																																						pos: position{line: 2695, col: 12, offset: 85431},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2874, col: 8, offset: 90637},
+																																							pos: position{line: 2922, col: 8, offset: 91852},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2861, col: 12, offset: 90410},
+																																									pos: position{line: 2909, col: 12, offset: 91625},
 																																									run: (*parser).callonListContinuationElement1505,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2861, col: 13, offset: 90411},
+																																										pos: position{line: 2909, col: 13, offset: 91626},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 13, offset: 90411},
+																																												pos:        position{line: 2909, col: 13, offset: 91626},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 20, offset: 90418},
+																																												pos:        position{line: 2909, col: 20, offset: 91633},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 29, offset: 90427},
+																																												pos:        position{line: 2909, col: 29, offset: 91642},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -35821,9 +35830,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2871, col: 8, offset: 90587},
+																																									pos: position{line: 2919, col: 8, offset: 91802},
 																																									expr: &anyMatcher{
-																																										line: 2871, col: 9, offset: 90588,
+																																										line: 2919, col: 9, offset: 91803,
 																																									},
 																																								},
 																																							},
@@ -35851,18 +35860,18 @@ var g = &grammar{
 																								pos: position{line: 677, col: 14, offset: 21489},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2869, col: 11, offset: 90573},
+																										pos: position{line: 2917, col: 11, offset: 91788},
 																										expr: &anyMatcher{
-																											line: 2869, col: 13, offset: 90575,
+																											line: 2917, col: 13, offset: 91790,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 677, col: 21, offset: 21496},
 																										expr: &actionExpr{
-																											pos: position{line: 2852, col: 10, offset: 90239},
+																											pos: position{line: 2900, col: 10, offset: 91454},
 																											run: (*parser).callonListContinuationElement1517,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2852, col: 10, offset: 90239},
+																												pos:        position{line: 2900, col: 10, offset: 91454},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -35871,28 +35880,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2874, col: 8, offset: 90637},
+																										pos: position{line: 2922, col: 8, offset: 91852},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2861, col: 12, offset: 90410},
+																												pos: position{line: 2909, col: 12, offset: 91625},
 																												run: (*parser).callonListContinuationElement1520,
 																												expr: &choiceExpr{
-																													pos: position{line: 2861, col: 13, offset: 90411},
+																													pos: position{line: 2909, col: 13, offset: 91626},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 13, offset: 90411},
+																															pos:        position{line: 2909, col: 13, offset: 91626},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 20, offset: 90418},
+																															pos:        position{line: 2909, col: 20, offset: 91633},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 29, offset: 90427},
+																															pos:        position{line: 2909, col: 29, offset: 91642},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -35901,9 +35910,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2871, col: 8, offset: 90587},
+																												pos: position{line: 2919, col: 8, offset: 91802},
 																												expr: &anyMatcher{
-																													line: 2871, col: 9, offset: 90588,
+																													line: 2919, col: 9, offset: 91803,
 																												},
 																											},
 																										},
@@ -35922,24 +35931,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2598, col: 22, offset: 83002},
+													pos: position{line: 2646, col: 22, offset: 84217},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2594, col: 19, offset: 82922},
+															pos: position{line: 2642, col: 19, offset: 84137},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2594, col: 19, offset: 82922},
+																	pos:        position{line: 2642, col: 19, offset: 84137},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2594, col: 26, offset: 82929},
+																	pos: position{line: 2642, col: 26, offset: 84144},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2900, col: 10, offset: 91454},
 																		run: (*parser).callonListContinuationElement1531,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2900, col: 10, offset: 91454},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35948,28 +35957,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2922, col: 8, offset: 91852},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2909, col: 12, offset: 91625},
 																			run: (*parser).callonListContinuationElement1534,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2909, col: 13, offset: 91626},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2909, col: 13, offset: 91626},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2909, col: 20, offset: 91633},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2909, col: 29, offset: 91642},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35978,9 +35987,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2919, col: 8, offset: 91802},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2919, col: 9, offset: 91803,
 																			},
 																		},
 																	},
@@ -35988,9 +35997,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2919, col: 8, offset: 91802},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2919, col: 9, offset: 91803,
 															},
 														},
 													},
@@ -35999,36 +36008,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79224},
+										pos: position{line: 2510, col: 22, offset: 80439},
 										run: (*parser).callonListContinuationElement1543,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
+											pos: position{line: 2510, col: 22, offset: 80439},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79445},
+													pos:        position{line: 2515, col: 31, offset: 80660},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79450},
+													pos: position{line: 2515, col: 36, offset: 80665},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79451},
+														pos:        position{line: 2515, col: 37, offset: 80666},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79251},
+													pos:   position{line: 2510, col: 49, offset: 80466},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2798, col: 13, offset: 88765},
+														pos: position{line: 2846, col: 13, offset: 89980},
 														run: (*parser).callonListContinuationElement1549,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
+															pos: position{line: 2846, col: 13, offset: 89980},
 															expr: &charClassMatcher{
-																pos:        position{line: 2798, col: 13, offset: 88765},
+																pos:        position{line: 2846, col: 13, offset: 89980},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36038,28 +36047,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2922, col: 8, offset: 91852},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2909, col: 12, offset: 91625},
 															run: (*parser).callonListContinuationElement1553,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2909, col: 13, offset: 91626},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2909, col: 13, offset: 91626},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2909, col: 20, offset: 91633},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2909, col: 29, offset: 91642},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36068,9 +36077,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2919, col: 8, offset: 91802},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2919, col: 9, offset: 91803,
 															},
 														},
 													},
@@ -36079,94 +36088,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1561, col: 5, offset: 50416},
+										pos: position{line: 1566, col: 5, offset: 50532},
 										run: (*parser).callonListContinuationElement1560,
 										expr: &seqExpr{
-											pos: position{line: 1561, col: 5, offset: 50416},
+											pos: position{line: 1566, col: 5, offset: 50532},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1561, col: 5, offset: 50416},
+													pos:   position{line: 1566, col: 5, offset: 50532},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1561, col: 11, offset: 50422},
+														pos: position{line: 1566, col: 11, offset: 50538},
 														expr: &actionExpr{
-															pos: position{line: 1725, col: 5, offset: 55739},
+															pos: position{line: 1730, col: 5, offset: 55855},
 															run: (*parser).callonListContinuationElement1564,
 															expr: &seqExpr{
-																pos: position{line: 1725, col: 5, offset: 55739},
+																pos: position{line: 1730, col: 5, offset: 55855},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1725, col: 5, offset: 55739},
+																		pos: position{line: 1730, col: 5, offset: 55855},
 																		run: (*parser).callonListContinuationElement1566,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1728, col: 5, offset: 55802},
+																		pos:   position{line: 1733, col: 5, offset: 55918},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1728, col: 12, offset: 55809},
+																			pos: position{line: 1733, col: 12, offset: 55925},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1728, col: 12, offset: 55809},
+																					pos: position{line: 1733, col: 12, offset: 55925},
 																					run: (*parser).callonListContinuationElement1569,
 																					expr: &litMatcher{
-																						pos:        position{line: 1728, col: 12, offset: 55809},
+																						pos:        position{line: 1733, col: 12, offset: 55925},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1730, col: 13, offset: 55865},
+																					pos: position{line: 1735, col: 13, offset: 55981},
 																					run: (*parser).callonListContinuationElement1571,
 																					expr: &litMatcher{
-																						pos:        position{line: 1730, col: 13, offset: 55865},
+																						pos:        position{line: 1735, col: 13, offset: 55981},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1732, col: 13, offset: 55923},
+																					pos: position{line: 1737, col: 13, offset: 56039},
 																					run: (*parser).callonListContinuationElement1573,
 																					expr: &litMatcher{
-																						pos:        position{line: 1732, col: 13, offset: 55923},
+																						pos:        position{line: 1737, col: 13, offset: 56039},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1734, col: 13, offset: 55991},
+																					pos: position{line: 1739, col: 13, offset: 56107},
 																					run: (*parser).callonListContinuationElement1575,
 																					expr: &litMatcher{
-																						pos:        position{line: 1734, col: 13, offset: 55991},
+																						pos:        position{line: 1739, col: 13, offset: 56107},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1736, col: 13, offset: 56055},
+																					pos: position{line: 1741, col: 13, offset: 56171},
 																					run: (*parser).callonListContinuationElement1577,
 																					expr: &litMatcher{
-																						pos:        position{line: 1736, col: 13, offset: 56055},
+																						pos:        position{line: 1741, col: 13, offset: 56171},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1738, col: 13, offset: 56119},
+																					pos: position{line: 1743, col: 13, offset: 56235},
 																					run: (*parser).callonListContinuationElement1579,
 																					expr: &andExpr{
-																						pos: position{line: 1738, col: 13, offset: 56119},
+																						pos: position{line: 1743, col: 13, offset: 56235},
 																						expr: &actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2904, col: 11, offset: 91515},
 																							run: (*parser).callonListContinuationElement1581,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2904, col: 11, offset: 91515},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2904, col: 11, offset: 91515},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36185,16 +36194,16 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1562, col: 5, offset: 50445},
+													pos:   position{line: 1567, col: 5, offset: 50561},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1505, col: 5, offset: 48795},
+														pos: position{line: 1510, col: 5, offset: 48911},
 														run: (*parser).callonListContinuationElement1585,
 														expr: &seqExpr{
-															pos: position{line: 1505, col: 5, offset: 48795},
+															pos: position{line: 1510, col: 5, offset: 48911},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1505, col: 5, offset: 48795},
+																	pos: position{line: 1510, col: 5, offset: 48911},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
 																		run: (*parser).callonListContinuationElement1588,
@@ -36202,18 +36211,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2869, col: 11, offset: 90573},
+																					pos: position{line: 2917, col: 11, offset: 91788},
 																					expr: &anyMatcher{
-																						line: 2869, col: 13, offset: 90575,
+																						line: 2917, col: 13, offset: 91790,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2900, col: 10, offset: 91454},
 																						run: (*parser).callonListContinuationElement1593,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2900, col: 10, offset: 91454},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36222,28 +36231,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2922, col: 8, offset: 91852},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2909, col: 12, offset: 91625},
 																							run: (*parser).callonListContinuationElement1596,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2909, col: 13, offset: 91626},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2909, col: 13, offset: 91626},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2909, col: 20, offset: 91633},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2909, col: 29, offset: 91642},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36252,9 +36261,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2919, col: 8, offset: 91802},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2919, col: 9, offset: 91803,
 																							},
 																						},
 																					},
@@ -36264,23 +36273,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1506, col: 5, offset: 48810},
+																	pos: position{line: 1511, col: 5, offset: 48926},
 																	expr: &seqExpr{
-																		pos: position{line: 1536, col: 27, offset: 49636},
+																		pos: position{line: 1541, col: 27, offset: 49752},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1536, col: 27, offset: 49636},
+																				pos:        position{line: 1541, col: 27, offset: 49752},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1536, col: 31, offset: 49640},
+																				pos: position{line: 1541, col: 31, offset: 49756},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
+																					pos: position{line: 2900, col: 10, offset: 91454},
 																					run: (*parser).callonListContinuationElement1607,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2900, col: 10, offset: 91454},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36289,25 +36298,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2909, col: 12, offset: 91625},
 																				run: (*parser).callonListContinuationElement1609,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2909, col: 13, offset: 91626},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2909, col: 13, offset: 91626},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2909, col: 20, offset: 91633},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2909, col: 29, offset: 91642},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -36319,20 +36328,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1507, col: 5, offset: 48838},
+																	pos: position{line: 1512, col: 5, offset: 48954},
 																	expr: &actionExpr{
-																		pos: position{line: 1577, col: 5, offset: 50855},
+																		pos: position{line: 1582, col: 5, offset: 50971},
 																		run: (*parser).callonListContinuationElement1615,
 																		expr: &seqExpr{
-																			pos: position{line: 1577, col: 5, offset: 50855},
+																			pos: position{line: 1582, col: 5, offset: 50971},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1577, col: 5, offset: 50855},
+																					pos: position{line: 1582, col: 5, offset: 50971},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2900, col: 10, offset: 91454},
 																						run: (*parser).callonListContinuationElement1618,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2900, col: 10, offset: 91454},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36341,27 +36350,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1577, col: 12, offset: 50862},
+																					pos:   position{line: 1582, col: 12, offset: 50978},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1579, col: 9, offset: 50925},
+																						pos: position{line: 1584, col: 9, offset: 51041},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1579, col: 9, offset: 50925},
+																								pos: position{line: 1584, col: 9, offset: 51041},
 																								run: (*parser).callonListContinuationElement1622,
 																								expr: &seqExpr{
-																									pos: position{line: 1579, col: 9, offset: 50925},
+																									pos: position{line: 1584, col: 9, offset: 51041},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1579, col: 9, offset: 50925},
+																											pos:   position{line: 1584, col: 9, offset: 51041},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1579, col: 16, offset: 50932},
+																												pos: position{line: 1584, col: 16, offset: 51048},
 																												run: (*parser).callonListContinuationElement1625,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1579, col: 16, offset: 50932},
+																													pos: position{line: 1584, col: 16, offset: 51048},
 																													expr: &litMatcher{
-																														pos:        position{line: 1579, col: 17, offset: 50933},
+																														pos:        position{line: 1584, col: 17, offset: 51049},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -36370,22 +36379,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1583, col: 9, offset: 51033},
+																											pos: position{line: 1588, col: 9, offset: 51149},
 																											run: (*parser).callonListContinuationElement1628,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1602, col: 11, offset: 51750},
+																								pos: position{line: 1607, col: 11, offset: 51866},
 																								run: (*parser).callonListContinuationElement1629,
 																								expr: &seqExpr{
-																									pos: position{line: 1602, col: 11, offset: 51750},
+																									pos: position{line: 1607, col: 11, offset: 51866},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1602, col: 11, offset: 51750},
+																											pos: position{line: 1607, col: 11, offset: 51866},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1602, col: 12, offset: 51751},
+																												pos:        position{line: 1607, col: 12, offset: 51867},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -36393,7 +36402,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1602, col: 20, offset: 51759},
+																											pos:        position{line: 1607, col: 20, offset: 51875},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36402,20 +36411,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1604, col: 13, offset: 51876},
+																								pos: position{line: 1609, col: 13, offset: 51992},
 																								run: (*parser).callonListContinuationElement1634,
 																								expr: &seqExpr{
-																									pos: position{line: 1604, col: 13, offset: 51876},
+																									pos: position{line: 1609, col: 13, offset: 51992},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1604, col: 14, offset: 51877},
+																											pos:        position{line: 1609, col: 14, offset: 51993},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1604, col: 21, offset: 51884},
+																											pos:        position{line: 1609, col: 21, offset: 52000},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36424,20 +36433,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1606, col: 13, offset: 52004},
+																								pos: position{line: 1611, col: 13, offset: 52120},
 																								run: (*parser).callonListContinuationElement1638,
 																								expr: &seqExpr{
-																									pos: position{line: 1606, col: 13, offset: 52004},
+																									pos: position{line: 1611, col: 13, offset: 52120},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1606, col: 14, offset: 52005},
+																											pos:        position{line: 1611, col: 14, offset: 52121},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1606, col: 21, offset: 52012},
+																											pos:        position{line: 1611, col: 21, offset: 52128},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36446,15 +36455,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1608, col: 13, offset: 52132},
+																								pos: position{line: 1613, col: 13, offset: 52248},
 																								run: (*parser).callonListContinuationElement1642,
 																								expr: &seqExpr{
-																									pos: position{line: 1608, col: 13, offset: 52132},
+																									pos: position{line: 1613, col: 13, offset: 52248},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1608, col: 13, offset: 52132},
+																											pos: position{line: 1613, col: 13, offset: 52248},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1608, col: 14, offset: 52133},
+																												pos:        position{line: 1613, col: 14, offset: 52249},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -36462,7 +36471,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1608, col: 26, offset: 52145},
+																											pos:        position{line: 1613, col: 26, offset: 52261},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -36471,15 +36480,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1610, col: 13, offset: 52265},
+																								pos: position{line: 1615, col: 13, offset: 52381},
 																								run: (*parser).callonListContinuationElement1647,
 																								expr: &seqExpr{
-																									pos: position{line: 1610, col: 13, offset: 52265},
+																									pos: position{line: 1615, col: 13, offset: 52381},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1610, col: 13, offset: 52265},
+																											pos: position{line: 1615, col: 13, offset: 52381},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1610, col: 14, offset: 52266},
+																												pos:        position{line: 1615, col: 14, offset: 52382},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -36487,7 +36496,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1610, col: 26, offset: 52278},
+																											pos:        position{line: 1615, col: 26, offset: 52394},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -36499,12 +36508,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2856, col: 11, offset: 90300},
+																					pos: position{line: 2904, col: 11, offset: 91515},
 																					run: (*parser).callonListContinuationElement1652,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2856, col: 11, offset: 90300},
+																						pos: position{line: 2904, col: 11, offset: 91515},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2856, col: 11, offset: 90300},
+																							pos:        position{line: 2904, col: 11, offset: 91515},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36517,20 +36526,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1508, col: 5, offset: 48868},
+																	pos: position{line: 1513, col: 5, offset: 48984},
 																	expr: &actionExpr{
-																		pos: position{line: 1627, col: 5, offset: 52817},
+																		pos: position{line: 1632, col: 5, offset: 52933},
 																		run: (*parser).callonListContinuationElement1656,
 																		expr: &seqExpr{
-																			pos: position{line: 1627, col: 5, offset: 52817},
+																			pos: position{line: 1632, col: 5, offset: 52933},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1627, col: 5, offset: 52817},
+																					pos: position{line: 1632, col: 5, offset: 52933},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2900, col: 10, offset: 91454},
 																						run: (*parser).callonListContinuationElement1659,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2900, col: 10, offset: 91454},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36539,24 +36548,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1628, col: 5, offset: 52829},
+																					pos:   position{line: 1633, col: 5, offset: 52945},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1629, col: 9, offset: 52845},
+																						pos: position{line: 1634, col: 9, offset: 52961},
 																						run: (*parser).callonListContinuationElement1662,
 																						expr: &choiceExpr{
-																							pos: position{line: 1629, col: 10, offset: 52846},
+																							pos: position{line: 1634, col: 10, offset: 52962},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1629, col: 11, offset: 52847},
+																									pos:        position{line: 1634, col: 11, offset: 52963},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1629, col: 18, offset: 52854},
+																									pos: position{line: 1634, col: 18, offset: 52970},
 																									expr: &litMatcher{
-																										pos:        position{line: 1629, col: 19, offset: 52855},
+																										pos:        position{line: 1634, col: 19, offset: 52971},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -36567,16 +36576,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1632, col: 7, offset: 52945},
+																					pos: position{line: 1637, col: 7, offset: 53061},
 																					run: (*parser).callonListContinuationElement1667,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2856, col: 11, offset: 90300},
+																					pos: position{line: 2904, col: 11, offset: 91515},
 																					run: (*parser).callonListContinuationElement1668,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2856, col: 11, offset: 90300},
+																						pos: position{line: 2904, col: 11, offset: 91515},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2856, col: 11, offset: 90300},
+																							pos:        position{line: 2904, col: 11, offset: 91515},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36589,29 +36598,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1509, col: 5, offset: 48900},
+																	pos: position{line: 1514, col: 5, offset: 49016},
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 5, offset: 55354},
+																		pos: position{line: 1721, col: 5, offset: 55470},
 																		run: (*parser).callonListContinuationElement1672,
 																		expr: &seqExpr{
-																			pos: position{line: 1716, col: 5, offset: 55354},
+																			pos: position{line: 1721, col: 5, offset: 55470},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1716, col: 5, offset: 55354},
+																					pos:        position{line: 1721, col: 5, offset: 55470},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1716, col: 9, offset: 55358},
+																					pos:   position{line: 1721, col: 9, offset: 55474},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1716, col: 14, offset: 55363},
+																						pos: position{line: 1721, col: 14, offset: 55479},
 																						run: (*parser).callonListContinuationElement1676,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1716, col: 14, offset: 55363},
+																							pos: position{line: 1721, col: 14, offset: 55479},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1716, col: 14, offset: 55363},
+																								pos:        position{line: 1721, col: 14, offset: 55479},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -36621,18 +36630,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1716, col: 62, offset: 55411},
+																					pos:        position{line: 1721, col: 62, offset: 55527},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2856, col: 11, offset: 90300},
+																					pos: position{line: 2904, col: 11, offset: 91515},
 																					run: (*parser).callonListContinuationElement1680,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2856, col: 11, offset: 90300},
+																						pos: position{line: 2904, col: 11, offset: 91515},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2856, col: 11, offset: 90300},
+																							pos:        position{line: 2904, col: 11, offset: 91515},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36645,36 +36654,36 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1510, col: 5, offset: 48930},
+																	pos: position{line: 1515, col: 5, offset: 49046},
 																	expr: &seqExpr{
-																		pos: position{line: 1510, col: 7, offset: 48932},
+																		pos: position{line: 1515, col: 7, offset: 49048},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1662, col: 5, offset: 53836},
+																				pos: position{line: 1667, col: 5, offset: 53952},
 																				run: (*parser).callonListContinuationElement1685,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1662, col: 5, offset: 53836},
+																					pos: position{line: 1667, col: 5, offset: 53952},
 																					expr: &seqExpr{
-																						pos: position{line: 1662, col: 6, offset: 53837},
+																						pos: position{line: 1667, col: 6, offset: 53953},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1662, col: 6, offset: 53837},
+																								pos: position{line: 1667, col: 6, offset: 53953},
 																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 5, offset: 53987},
+																									pos: position{line: 1672, col: 5, offset: 54103},
 																									run: (*parser).callonListContinuationElement1689,
 																									expr: &seqExpr{
-																										pos: position{line: 1667, col: 5, offset: 53987},
+																										pos: position{line: 1672, col: 5, offset: 54103},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1667, col: 5, offset: 53987},
+																												pos:   position{line: 1672, col: 5, offset: 54103},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1667, col: 16, offset: 53998},
+																													pos: position{line: 1672, col: 16, offset: 54114},
 																													run: (*parser).callonListContinuationElement1692,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1667, col: 16, offset: 53998},
+																														pos: position{line: 1672, col: 16, offset: 54114},
 																														expr: &litMatcher{
-																															pos:        position{line: 1667, col: 17, offset: 53999},
+																															pos:        position{line: 1672, col: 17, offset: 54115},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -36683,7 +36692,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1670, col: 5, offset: 54056},
+																												pos: position{line: 1675, col: 5, offset: 54172},
 																												run: (*parser).callonListContinuationElement1695,
 																											},
 																										},
@@ -36691,30 +36700,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1662, col: 35, offset: 53866},
+																								pos: position{line: 1667, col: 35, offset: 53982},
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2922, col: 8, offset: 91852},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2909, col: 12, offset: 91625},
 																											run: (*parser).callonListContinuationElement1698,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2909, col: 13, offset: 91626},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2909, col: 13, offset: 91626},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2909, col: 20, offset: 91633},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2909, col: 29, offset: 91642},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36723,37 +36732,37 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2919, col: 8, offset: 91802},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2919, col: 9, offset: 91803,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1662, col: 40, offset: 53871,
+																								line: 1667, col: 40, offset: 53987,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1667, col: 5, offset: 53987},
+																				pos: position{line: 1672, col: 5, offset: 54103},
 																				run: (*parser).callonListContinuationElement1706,
 																				expr: &seqExpr{
-																					pos: position{line: 1667, col: 5, offset: 53987},
+																					pos: position{line: 1672, col: 5, offset: 54103},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 53987},
+																							pos:   position{line: 1672, col: 5, offset: 54103},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1667, col: 16, offset: 53998},
+																								pos: position{line: 1672, col: 16, offset: 54114},
 																								run: (*parser).callonListContinuationElement1709,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1667, col: 16, offset: 53998},
+																									pos: position{line: 1672, col: 16, offset: 54114},
 																									expr: &litMatcher{
-																										pos:        position{line: 1667, col: 17, offset: 53999},
+																										pos:        position{line: 1672, col: 17, offset: 54115},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -36762,7 +36771,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1670, col: 5, offset: 54056},
+																							pos: position{line: 1675, col: 5, offset: 54172},
 																							run: (*parser).callonListContinuationElement1712,
 																						},
 																					},
@@ -36772,7 +36781,7 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1511, col: 5, offset: 48988},
+																	pos: position{line: 1516, col: 5, offset: 49104},
 																	expr: &actionExpr{
 																		pos: position{line: 724, col: 5, offset: 23042},
 																		run: (*parser).callonListContinuationElement1714,
@@ -36782,7 +36791,7 @@ var g = &grammar{
 																				&notExpr{
 																					pos: position{line: 724, col: 5, offset: 23042},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2742, col: 13, offset: 87334},
+																						pos:        position{line: 2790, col: 13, offset: 88549},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -36832,10 +36841,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23686},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2900, col: 10, offset: 91454},
 																												run: (*parser).callonListContinuationElement1729,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2900, col: 10, offset: 91454},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36844,28 +36853,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2922, col: 8, offset: 91852},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2909, col: 12, offset: 91625},
 																													run: (*parser).callonListContinuationElement1732,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2909, col: 13, offset: 91626},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2909, col: 13, offset: 91626},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2909, col: 20, offset: 91633},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2909, col: 29, offset: 91642},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36874,9 +36883,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2919, col: 8, offset: 91802},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2919, col: 9, offset: 91803,
 																													},
 																												},
 																											},
@@ -36921,10 +36930,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23934},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2900, col: 10, offset: 91454},
 																												run: (*parser).callonListContinuationElement1748,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2900, col: 10, offset: 91454},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36933,28 +36942,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2922, col: 8, offset: 91852},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2909, col: 12, offset: 91625},
 																													run: (*parser).callonListContinuationElement1751,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2909, col: 13, offset: 91626},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2909, col: 13, offset: 91626},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2909, col: 20, offset: 91633},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2909, col: 29, offset: 91642},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36963,9 +36972,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2919, col: 8, offset: 91802},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2919, col: 9, offset: 91803,
 																													},
 																												},
 																											},
@@ -37006,10 +37015,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 760, col: 52, offset: 24346},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2900, col: 10, offset: 91454},
 																												run: (*parser).callonListContinuationElement1766,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2900, col: 10, offset: 91454},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37018,28 +37027,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2922, col: 8, offset: 91852},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2909, col: 12, offset: 91625},
 																													run: (*parser).callonListContinuationElement1769,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2909, col: 13, offset: 91626},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2909, col: 13, offset: 91626},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2909, col: 20, offset: 91633},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2909, col: 29, offset: 91642},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37048,9 +37057,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2919, col: 8, offset: 91802},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2919, col: 9, offset: 91803,
 																													},
 																												},
 																											},
@@ -37095,10 +37104,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24180},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2900, col: 10, offset: 91454},
 																												run: (*parser).callonListContinuationElement1785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2900, col: 10, offset: 91454},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37107,28 +37116,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2922, col: 8, offset: 91852},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2909, col: 12, offset: 91625},
 																													run: (*parser).callonListContinuationElement1788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2909, col: 13, offset: 91626},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2909, col: 13, offset: 91626},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2909, col: 20, offset: 91633},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2909, col: 29, offset: 91642},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37137,9 +37146,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2919, col: 8, offset: 91802},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2919, col: 9, offset: 91803,
 																													},
 																												},
 																											},
@@ -37184,10 +37193,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24718},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2900, col: 10, offset: 91454},
 																												run: (*parser).callonListContinuationElement1804,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2900, col: 10, offset: 91454},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37196,28 +37205,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2922, col: 8, offset: 91852},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2909, col: 12, offset: 91625},
 																													run: (*parser).callonListContinuationElement1807,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2909, col: 13, offset: 91626},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2909, col: 13, offset: 91626},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2909, col: 20, offset: 91633},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2909, col: 29, offset: 91642},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37226,9 +37235,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2919, col: 8, offset: 91802},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2919, col: 9, offset: 91803,
 																													},
 																												},
 																											},
@@ -37273,10 +37282,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25194},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2900, col: 10, offset: 91454},
 																												run: (*parser).callonListContinuationElement1823,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2900, col: 10, offset: 91454},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37285,28 +37294,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2922, col: 8, offset: 91852},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2909, col: 12, offset: 91625},
 																													run: (*parser).callonListContinuationElement1826,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2909, col: 13, offset: 91626},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2909, col: 13, offset: 91626},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2909, col: 20, offset: 91633},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2909, col: 29, offset: 91642},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37315,9 +37324,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2919, col: 8, offset: 91802},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2919, col: 9, offset: 91803,
 																													},
 																												},
 																											},
@@ -37362,10 +37371,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25446},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2900, col: 10, offset: 91454},
 																												run: (*parser).callonListContinuationElement1842,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2900, col: 10, offset: 91454},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37374,28 +37383,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2922, col: 8, offset: 91852},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2909, col: 12, offset: 91625},
 																													run: (*parser).callonListContinuationElement1845,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2909, col: 13, offset: 91626},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2909, col: 13, offset: 91626},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2909, col: 20, offset: 91633},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2909, col: 29, offset: 91642},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37404,9 +37413,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2919, col: 8, offset: 91802},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2919, col: 9, offset: 91803,
 																													},
 																												},
 																											},
@@ -37451,10 +37460,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25696},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2900, col: 10, offset: 91454},
 																												run: (*parser).callonListContinuationElement1861,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2900, col: 10, offset: 91454},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37463,28 +37472,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2922, col: 8, offset: 91852},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2909, col: 12, offset: 91625},
 																													run: (*parser).callonListContinuationElement1864,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2909, col: 13, offset: 91626},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2909, col: 13, offset: 91626},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2909, col: 20, offset: 91633},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2909, col: 29, offset: 91642},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37493,9 +37502,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2919, col: 8, offset: 91802},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2919, col: 9, offset: 91803,
 																													},
 																												},
 																											},
@@ -37540,10 +37549,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25942},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2900, col: 10, offset: 91454},
 																												run: (*parser).callonListContinuationElement1880,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2900, col: 10, offset: 91454},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37552,28 +37561,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2922, col: 8, offset: 91852},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2909, col: 12, offset: 91625},
 																													run: (*parser).callonListContinuationElement1883,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2909, col: 13, offset: 91626},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2909, col: 13, offset: 91626},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2909, col: 20, offset: 91633},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2909, col: 29, offset: 91642},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37582,9 +37591,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2919, col: 8, offset: 91802},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2919, col: 9, offset: 91803,
 																													},
 																												},
 																											},
@@ -37600,15 +37609,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1512, col: 5, offset: 49008},
+																	pos:   position{line: 1517, col: 5, offset: 49124},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2802, col: 14, offset: 88832},
+																		pos: position{line: 2850, col: 14, offset: 90047},
 																		run: (*parser).callonListContinuationElement1891,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2802, col: 14, offset: 88832},
+																			pos: position{line: 2850, col: 14, offset: 90047},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2802, col: 14, offset: 88832},
+																				pos:        position{line: 2850, col: 14, offset: 90047},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -37618,28 +37627,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2922, col: 8, offset: 91852},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2909, col: 12, offset: 91625},
 																			run: (*parser).callonListContinuationElement1895,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2909, col: 13, offset: 91626},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2909, col: 13, offset: 91626},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2909, col: 20, offset: 91633},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2909, col: 29, offset: 91642},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37648,9 +37657,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2919, col: 8, offset: 91802},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2919, col: 9, offset: 91803,
 																			},
 																		},
 																	},
@@ -37671,33 +37680,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1700, col: 1, offset: 54848},
+			pos:  position{line: 1705, col: 1, offset: 54964},
 			expr: &actionExpr{
-				pos: position{line: 1702, col: 5, offset: 54926},
+				pos: position{line: 1707, col: 5, offset: 55042},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1702, col: 5, offset: 54926},
+					pos: position{line: 1707, col: 5, offset: 55042},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1702, col: 5, offset: 54926},
+							pos: position{line: 1707, col: 5, offset: 55042},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1705, col: 5, offset: 54993},
+							pos:        position{line: 1710, col: 5, offset: 55109},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1705, col: 9, offset: 54997},
+							pos:   position{line: 1710, col: 9, offset: 55113},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1705, col: 14, offset: 55002},
+								pos: position{line: 1710, col: 14, offset: 55118},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1705, col: 14, offset: 55002},
+									pos: position{line: 1710, col: 14, offset: 55118},
 									expr: &charClassMatcher{
-										pos:        position{line: 1705, col: 14, offset: 55002},
+										pos:        position{line: 1710, col: 14, offset: 55118},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -37707,18 +37716,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1705, col: 62, offset: 55050},
+							pos:        position{line: 1710, col: 62, offset: 55166},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1705, col: 66, offset: 55054},
+							pos: position{line: 1710, col: 66, offset: 55170},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2900, col: 10, offset: 91454},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2900, col: 10, offset: 91454},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -37727,30 +37736,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1705, col: 73, offset: 55061},
+							pos: position{line: 1710, col: 73, offset: 55177},
 							expr: &choiceExpr{
-								pos: position{line: 1705, col: 75, offset: 55063},
+								pos: position{line: 1710, col: 75, offset: 55179},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90410},
+										pos: position{line: 2909, col: 12, offset: 91625},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2861, col: 13, offset: 90411},
+											pos: position{line: 2909, col: 13, offset: 91626},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2861, col: 13, offset: 90411},
+													pos:        position{line: 2909, col: 13, offset: 91626},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 20, offset: 90418},
+													pos:        position{line: 2909, col: 20, offset: 91633},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 29, offset: 90427},
+													pos:        position{line: 2909, col: 29, offset: 91642},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -37759,13 +37768,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2871, col: 8, offset: 90587},
+										pos: position{line: 2919, col: 8, offset: 91802},
 										expr: &anyMatcher{
-											line: 2871, col: 9, offset: 90588,
+											line: 2919, col: 9, offset: 91803,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1705, col: 81, offset: 55069},
+										pos:  position{line: 1710, col: 81, offset: 55185},
 										name: "Callout",
 									},
 								},
@@ -37777,44 +37786,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1744, col: 1, offset: 56242},
+			pos:  position{line: 1749, col: 1, offset: 56358},
 			expr: &actionExpr{
-				pos: position{line: 1746, col: 5, offset: 56316},
+				pos: position{line: 1751, col: 5, offset: 56432},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1746, col: 5, offset: 56316},
+					pos: position{line: 1751, col: 5, offset: 56432},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1746, col: 5, offset: 56316},
+							pos: position{line: 1751, col: 5, offset: 56432},
 							expr: &seqExpr{
-								pos: position{line: 1746, col: 7, offset: 56318},
+								pos: position{line: 1751, col: 7, offset: 56434},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2742, col: 13, offset: 87334},
+										pos:        position{line: 2790, col: 13, offset: 88549},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1746, col: 16, offset: 56327},
+										pos: position{line: 1751, col: 16, offset: 56443},
 										expr: &seqExpr{
-											pos: position{line: 1746, col: 18, offset: 56329},
+											pos: position{line: 1751, col: 18, offset: 56445},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1746, col: 19, offset: 56330},
+													pos:        position{line: 1751, col: 19, offset: 56446},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2856, col: 11, offset: 90300},
+													pos: position{line: 2904, col: 11, offset: 91515},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2856, col: 11, offset: 90300},
+														pos: position{line: 2904, col: 11, offset: 91515},
 														expr: &charClassMatcher{
-															pos:        position{line: 2856, col: 11, offset: 90300},
+															pos:        position{line: 2904, col: 11, offset: 91515},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -37829,88 +37838,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1747, col: 5, offset: 56470},
+							pos:   position{line: 1752, col: 5, offset: 56586},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1747, col: 11, offset: 56476},
+								pos: position{line: 1752, col: 11, offset: 56592},
 								expr: &actionExpr{
-									pos: position{line: 1725, col: 5, offset: 55739},
+									pos: position{line: 1730, col: 5, offset: 55855},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1725, col: 5, offset: 55739},
+										pos: position{line: 1730, col: 5, offset: 55855},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1725, col: 5, offset: 55739},
+												pos: position{line: 1730, col: 5, offset: 55855},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1728, col: 5, offset: 55802},
+												pos:   position{line: 1733, col: 5, offset: 55918},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1728, col: 12, offset: 55809},
+													pos: position{line: 1733, col: 12, offset: 55925},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1728, col: 12, offset: 55809},
+															pos: position{line: 1733, col: 12, offset: 55925},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1728, col: 12, offset: 55809},
+																pos:        position{line: 1733, col: 12, offset: 55925},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1730, col: 13, offset: 55865},
+															pos: position{line: 1735, col: 13, offset: 55981},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1730, col: 13, offset: 55865},
+																pos:        position{line: 1735, col: 13, offset: 55981},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1732, col: 13, offset: 55923},
+															pos: position{line: 1737, col: 13, offset: 56039},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1732, col: 13, offset: 55923},
+																pos:        position{line: 1737, col: 13, offset: 56039},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1734, col: 13, offset: 55991},
+															pos: position{line: 1739, col: 13, offset: 56107},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1734, col: 13, offset: 55991},
+																pos:        position{line: 1739, col: 13, offset: 56107},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1736, col: 13, offset: 56055},
+															pos: position{line: 1741, col: 13, offset: 56171},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1736, col: 13, offset: 56055},
+																pos:        position{line: 1741, col: 13, offset: 56171},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1738, col: 13, offset: 56119},
+															pos: position{line: 1743, col: 13, offset: 56235},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1738, col: 13, offset: 56119},
+																pos: position{line: 1743, col: 13, offset: 56235},
 																expr: &actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2904, col: 11, offset: 91515},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2904, col: 11, offset: 91515},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2904, col: 11, offset: 91515},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37929,24 +37938,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1748, col: 5, offset: 56498},
+							pos:   position{line: 1753, col: 5, offset: 56614},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1784, col: 5, offset: 57605},
+								pos: position{line: 1789, col: 5, offset: 57721},
 								run: (*parser).callonShortcutParagraph35,
 								expr: &seqExpr{
-									pos: position{line: 1784, col: 5, offset: 57605},
+									pos: position{line: 1789, col: 5, offset: 57721},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1784, col: 5, offset: 57605},
+											pos:   position{line: 1789, col: 5, offset: 57721},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2802, col: 14, offset: 88832},
+												pos: position{line: 2850, col: 14, offset: 90047},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2802, col: 14, offset: 88832},
+													pos: position{line: 2850, col: 14, offset: 90047},
 													expr: &charClassMatcher{
-														pos:        position{line: 2802, col: 14, offset: 88832},
+														pos:        position{line: 2850, col: 14, offset: 90047},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -37956,32 +37965,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1785, col: 5, offset: 57629},
+											pos: position{line: 1790, col: 5, offset: 57745},
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2874, col: 8, offset: 90637},
+											pos: position{line: 2922, col: 8, offset: 91852},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2861, col: 12, offset: 90410},
+													pos: position{line: 2909, col: 12, offset: 91625},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2861, col: 13, offset: 90411},
+														pos: position{line: 2909, col: 13, offset: 91626},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2861, col: 13, offset: 90411},
+																pos:        position{line: 2909, col: 13, offset: 91626},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2861, col: 20, offset: 90418},
+																pos:        position{line: 2909, col: 20, offset: 91633},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2861, col: 29, offset: 90427},
+																pos:        position{line: 2909, col: 29, offset: 91642},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -37990,9 +37999,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2919, col: 8, offset: 91802},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2919, col: 9, offset: 91803,
 													},
 												},
 											},
@@ -38002,28 +38011,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1749, col: 5, offset: 56532},
+							pos: position{line: 1754, col: 5, offset: 56648},
 							run: (*parser).callonShortcutParagraph50,
 						},
 						&labeledExpr{
-							pos:   position{line: 1756, col: 5, offset: 56862},
+							pos:   position{line: 1761, col: 5, offset: 56978},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1756, col: 16, offset: 56873},
+								pos: position{line: 1761, col: 16, offset: 56989},
 								expr: &actionExpr{
-									pos: position{line: 1757, col: 9, offset: 56883},
+									pos: position{line: 1762, col: 9, offset: 56999},
 									run: (*parser).callonShortcutParagraph53,
 									expr: &seqExpr{
-										pos: position{line: 1757, col: 9, offset: 56883},
+										pos: position{line: 1762, col: 9, offset: 56999},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2869, col: 11, offset: 90573},
+												pos: position{line: 2917, col: 11, offset: 91788},
 												expr: &anyMatcher{
-													line: 2869, col: 13, offset: 90575,
+													line: 2917, col: 13, offset: 91790,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1758, col: 9, offset: 56899},
+												pos: position{line: 1763, col: 9, offset: 57015},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21489},
 													run: (*parser).callonShortcutParagraph58,
@@ -38031,18 +38040,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2869, col: 11, offset: 90573},
+																pos: position{line: 2917, col: 11, offset: 91788},
 																expr: &anyMatcher{
-																	line: 2869, col: 13, offset: 90575,
+																	line: 2917, col: 13, offset: 91790,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2900, col: 10, offset: 91454},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2900, col: 10, offset: 91454},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38051,28 +38060,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2922, col: 8, offset: 91852},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2909, col: 12, offset: 91625},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2909, col: 13, offset: 91626},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2909, col: 13, offset: 91626},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2909, col: 20, offset: 91633},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2909, col: 29, offset: 91642},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38081,9 +38090,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2919, col: 8, offset: 91802},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2919, col: 9, offset: 91803,
 																		},
 																	},
 																},
@@ -38093,14 +38102,14 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1759, col: 9, offset: 56918},
+												pos: position{line: 1764, col: 9, offset: 57034},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1759, col: 10, offset: 56919},
+													pos:  position{line: 1764, col: 10, offset: 57035},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1760, col: 9, offset: 56943},
+												pos: position{line: 1765, col: 9, offset: 57059},
 												expr: &actionExpr{
 													pos: position{line: 724, col: 5, offset: 23042},
 													run: (*parser).callonShortcutParagraph76,
@@ -38110,7 +38119,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 724, col: 5, offset: 23042},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2742, col: 13, offset: 87334},
+																	pos:        position{line: 2790, col: 13, offset: 88549},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -38160,10 +38169,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 742, col: 8, offset: 23686},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2900, col: 10, offset: 91454},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2900, col: 10, offset: 91454},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38172,28 +38181,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2922, col: 8, offset: 91852},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2909, col: 12, offset: 91625},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2909, col: 13, offset: 91626},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2909, col: 13, offset: 91626},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2909, col: 20, offset: 91633},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2909, col: 29, offset: 91642},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38202,9 +38211,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2919, col: 8, offset: 91802},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2919, col: 9, offset: 91803,
 																								},
 																							},
 																						},
@@ -38249,10 +38258,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 749, col: 8, offset: 23934},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2900, col: 10, offset: 91454},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2900, col: 10, offset: 91454},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38261,28 +38270,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2922, col: 8, offset: 91852},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2909, col: 12, offset: 91625},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2909, col: 13, offset: 91626},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2909, col: 13, offset: 91626},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2909, col: 20, offset: 91633},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2909, col: 29, offset: 91642},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38291,9 +38300,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2919, col: 8, offset: 91802},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2919, col: 9, offset: 91803,
 																								},
 																							},
 																						},
@@ -38334,10 +38343,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 760, col: 52, offset: 24346},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2900, col: 10, offset: 91454},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2900, col: 10, offset: 91454},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38346,28 +38355,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2922, col: 8, offset: 91852},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2909, col: 12, offset: 91625},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2909, col: 13, offset: 91626},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2909, col: 13, offset: 91626},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2909, col: 20, offset: 91633},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2909, col: 29, offset: 91642},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38376,9 +38385,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2919, col: 8, offset: 91802},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2919, col: 9, offset: 91803,
 																								},
 																							},
 																						},
@@ -38423,10 +38432,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 756, col: 8, offset: 24180},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2900, col: 10, offset: 91454},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2900, col: 10, offset: 91454},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38435,28 +38444,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2922, col: 8, offset: 91852},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2909, col: 12, offset: 91625},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2909, col: 13, offset: 91626},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2909, col: 13, offset: 91626},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2909, col: 20, offset: 91633},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2909, col: 29, offset: 91642},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38465,9 +38474,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2919, col: 8, offset: 91802},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2919, col: 9, offset: 91803,
 																								},
 																							},
 																						},
@@ -38512,10 +38521,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 771, col: 8, offset: 24718},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2900, col: 10, offset: 91454},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2900, col: 10, offset: 91454},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38524,28 +38533,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2922, col: 8, offset: 91852},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2909, col: 12, offset: 91625},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2909, col: 13, offset: 91626},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2909, col: 13, offset: 91626},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2909, col: 20, offset: 91633},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2909, col: 29, offset: 91642},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38554,9 +38563,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2919, col: 8, offset: 91802},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2919, col: 9, offset: 91803,
 																								},
 																							},
 																						},
@@ -38601,10 +38610,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 785, col: 8, offset: 25194},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2900, col: 10, offset: 91454},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2900, col: 10, offset: 91454},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38613,28 +38622,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2922, col: 8, offset: 91852},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2909, col: 12, offset: 91625},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2909, col: 13, offset: 91626},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2909, col: 13, offset: 91626},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2909, col: 20, offset: 91633},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2909, col: 29, offset: 91642},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38643,9 +38652,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2919, col: 8, offset: 91802},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2919, col: 9, offset: 91803,
 																								},
 																							},
 																						},
@@ -38690,10 +38699,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 792, col: 8, offset: 25446},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2900, col: 10, offset: 91454},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2900, col: 10, offset: 91454},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38702,28 +38711,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2922, col: 8, offset: 91852},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2909, col: 12, offset: 91625},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2909, col: 13, offset: 91626},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2909, col: 13, offset: 91626},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2909, col: 20, offset: 91633},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2909, col: 29, offset: 91642},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38732,9 +38741,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2919, col: 8, offset: 91802},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2919, col: 9, offset: 91803,
 																								},
 																							},
 																						},
@@ -38779,10 +38788,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 799, col: 8, offset: 25696},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2900, col: 10, offset: 91454},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2900, col: 10, offset: 91454},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38791,28 +38800,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2922, col: 8, offset: 91852},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2909, col: 12, offset: 91625},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2909, col: 13, offset: 91626},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2909, col: 13, offset: 91626},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2909, col: 20, offset: 91633},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2909, col: 29, offset: 91642},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38821,9 +38830,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2919, col: 8, offset: 91802},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2919, col: 9, offset: 91803,
 																								},
 																							},
 																						},
@@ -38868,10 +38877,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 806, col: 8, offset: 25942},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2900, col: 10, offset: 91454},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2900, col: 10, offset: 91454},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38880,28 +38889,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2922, col: 8, offset: 91852},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2909, col: 12, offset: 91625},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2909, col: 13, offset: 91626},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2909, col: 13, offset: 91626},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2909, col: 20, offset: 91633},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2909, col: 29, offset: 91642},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38910,9 +38919,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2919, col: 8, offset: 91802},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2919, col: 9, offset: 91803,
 																								},
 																							},
 																						},
@@ -38928,23 +38937,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1761, col: 9, offset: 56967},
+												pos: position{line: 1766, col: 9, offset: 57083},
 												expr: &seqExpr{
-													pos: position{line: 1536, col: 27, offset: 49636},
+													pos: position{line: 1541, col: 27, offset: 49752},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1536, col: 27, offset: 49636},
+															pos:        position{line: 1541, col: 27, offset: 49752},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1536, col: 31, offset: 49640},
+															pos: position{line: 1541, col: 31, offset: 49756},
 															expr: &actionExpr{
-																pos: position{line: 2852, col: 10, offset: 90239},
+																pos: position{line: 2900, col: 10, offset: 91454},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2852, col: 10, offset: 90239},
+																	pos:        position{line: 2900, col: 10, offset: 91454},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -38953,25 +38962,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2909, col: 12, offset: 91625},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2909, col: 13, offset: 91626},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2909, col: 13, offset: 91626},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2909, col: 20, offset: 91633},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2909, col: 29, offset: 91642},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -38983,42 +38992,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1762, col: 9, offset: 56999},
+												pos:   position{line: 1767, col: 9, offset: 57115},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1762, col: 15, offset: 57005},
+													pos: position{line: 1767, col: 15, offset: 57121},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2462, col: 22, offset: 79224},
+															pos: position{line: 2510, col: 22, offset: 80439},
 															run: (*parser).callonShortcutParagraph265,
 															expr: &seqExpr{
-																pos: position{line: 2462, col: 22, offset: 79224},
+																pos: position{line: 2510, col: 22, offset: 80439},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2467, col: 31, offset: 79445},
+																		pos:        position{line: 2515, col: 31, offset: 80660},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2467, col: 36, offset: 79450},
+																		pos: position{line: 2515, col: 36, offset: 80665},
 																		expr: &litMatcher{
-																			pos:        position{line: 2467, col: 37, offset: 79451},
+																			pos:        position{line: 2515, col: 37, offset: 80666},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2462, col: 49, offset: 79251},
+																		pos:   position{line: 2510, col: 49, offset: 80466},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2798, col: 13, offset: 88765},
+																			pos: position{line: 2846, col: 13, offset: 89980},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2798, col: 13, offset: 88765},
+																				pos: position{line: 2846, col: 13, offset: 89980},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2798, col: 13, offset: 88765},
+																					pos:        position{line: 2846, col: 13, offset: 89980},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39028,28 +39037,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2922, col: 8, offset: 91852},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2909, col: 12, offset: 91625},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2909, col: 13, offset: 91626},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2909, col: 13, offset: 91626},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2909, col: 20, offset: 91633},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2909, col: 29, offset: 91642},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39058,9 +39067,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2919, col: 8, offset: 91802},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2919, col: 9, offset: 91803,
 																				},
 																			},
 																		},
@@ -39069,21 +39078,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1784, col: 5, offset: 57605},
+															pos: position{line: 1789, col: 5, offset: 57721},
 															run: (*parser).callonShortcutParagraph282,
 															expr: &seqExpr{
-																pos: position{line: 1784, col: 5, offset: 57605},
+																pos: position{line: 1789, col: 5, offset: 57721},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1784, col: 5, offset: 57605},
+																		pos:   position{line: 1789, col: 5, offset: 57721},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2802, col: 14, offset: 88832},
+																			pos: position{line: 2850, col: 14, offset: 90047},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2802, col: 14, offset: 88832},
+																				pos: position{line: 2850, col: 14, offset: 90047},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2802, col: 14, offset: 88832},
+																					pos:        position{line: 2850, col: 14, offset: 90047},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39093,32 +39102,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1785, col: 5, offset: 57629},
+																		pos: position{line: 1790, col: 5, offset: 57745},
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2922, col: 8, offset: 91852},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2909, col: 12, offset: 91625},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2909, col: 13, offset: 91626},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2909, col: 13, offset: 91626},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2909, col: 20, offset: 91633},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2909, col: 29, offset: 91642},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39127,9 +39136,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2919, col: 8, offset: 91802},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2919, col: 9, offset: 91803,
 																				},
 																			},
 																		},
@@ -39151,96 +39160,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1769, col: 1, offset: 57209},
+			pos:  position{line: 1774, col: 1, offset: 57325},
 			expr: &actionExpr{
-				pos: position{line: 1770, col: 5, offset: 57227},
+				pos: position{line: 1775, col: 5, offset: 57343},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1770, col: 5, offset: 57227},
+					pos: position{line: 1775, col: 5, offset: 57343},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1770, col: 5, offset: 57227},
+							pos:   position{line: 1775, col: 5, offset: 57343},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1770, col: 11, offset: 57233},
+								pos: position{line: 1775, col: 11, offset: 57349},
 								expr: &actionExpr{
-									pos: position{line: 1725, col: 5, offset: 55739},
+									pos: position{line: 1730, col: 5, offset: 55855},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1725, col: 5, offset: 55739},
+										pos: position{line: 1730, col: 5, offset: 55855},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1725, col: 5, offset: 55739},
+												pos: position{line: 1730, col: 5, offset: 55855},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1728, col: 5, offset: 55802},
+												pos:   position{line: 1733, col: 5, offset: 55918},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1728, col: 12, offset: 55809},
+													pos: position{line: 1733, col: 12, offset: 55925},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1728, col: 12, offset: 55809},
+															pos: position{line: 1733, col: 12, offset: 55925},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1728, col: 12, offset: 55809},
+																pos:        position{line: 1733, col: 12, offset: 55925},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1730, col: 13, offset: 55865},
+															pos: position{line: 1735, col: 13, offset: 55981},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1730, col: 13, offset: 55865},
+																pos:        position{line: 1735, col: 13, offset: 55981},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1732, col: 13, offset: 55923},
+															pos: position{line: 1737, col: 13, offset: 56039},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1732, col: 13, offset: 55923},
+																pos:        position{line: 1737, col: 13, offset: 56039},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1734, col: 13, offset: 55991},
+															pos: position{line: 1739, col: 13, offset: 56107},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1734, col: 13, offset: 55991},
+																pos:        position{line: 1739, col: 13, offset: 56107},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1736, col: 13, offset: 56055},
+															pos: position{line: 1741, col: 13, offset: 56171},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1736, col: 13, offset: 56055},
+																pos:        position{line: 1741, col: 13, offset: 56171},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1738, col: 13, offset: 56119},
+															pos: position{line: 1743, col: 13, offset: 56235},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1738, col: 13, offset: 56119},
+																pos: position{line: 1743, col: 13, offset: 56235},
 																expr: &actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2904, col: 11, offset: 91515},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2904, col: 11, offset: 91515},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2904, col: 11, offset: 91515},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39259,24 +39268,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1771, col: 5, offset: 57256},
+							pos:   position{line: 1776, col: 5, offset: 57372},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1784, col: 5, offset: 57605},
+								pos: position{line: 1789, col: 5, offset: 57721},
 								run: (*parser).callonParagraph26,
 								expr: &seqExpr{
-									pos: position{line: 1784, col: 5, offset: 57605},
+									pos: position{line: 1789, col: 5, offset: 57721},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1784, col: 5, offset: 57605},
+											pos:   position{line: 1789, col: 5, offset: 57721},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2802, col: 14, offset: 88832},
+												pos: position{line: 2850, col: 14, offset: 90047},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2802, col: 14, offset: 88832},
+													pos: position{line: 2850, col: 14, offset: 90047},
 													expr: &charClassMatcher{
-														pos:        position{line: 2802, col: 14, offset: 88832},
+														pos:        position{line: 2850, col: 14, offset: 90047},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39286,32 +39295,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1785, col: 5, offset: 57629},
+											pos: position{line: 1790, col: 5, offset: 57745},
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2874, col: 8, offset: 90637},
+											pos: position{line: 2922, col: 8, offset: 91852},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2861, col: 12, offset: 90410},
+													pos: position{line: 2909, col: 12, offset: 91625},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2861, col: 13, offset: 90411},
+														pos: position{line: 2909, col: 13, offset: 91626},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2861, col: 13, offset: 90411},
+																pos:        position{line: 2909, col: 13, offset: 91626},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2861, col: 20, offset: 90418},
+																pos:        position{line: 2909, col: 20, offset: 91633},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2861, col: 29, offset: 90427},
+																pos:        position{line: 2909, col: 29, offset: 91642},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39320,9 +39329,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2919, col: 8, offset: 91802},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2919, col: 9, offset: 91803,
 													},
 												},
 											},
@@ -39332,24 +39341,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1772, col: 5, offset: 57290},
+							pos:   position{line: 1777, col: 5, offset: 57406},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1772, col: 16, offset: 57301},
+								pos: position{line: 1777, col: 16, offset: 57417},
 								expr: &actionExpr{
-									pos: position{line: 1773, col: 9, offset: 57311},
+									pos: position{line: 1778, col: 9, offset: 57427},
 									run: (*parser).callonParagraph43,
 									expr: &seqExpr{
-										pos: position{line: 1773, col: 9, offset: 57311},
+										pos: position{line: 1778, col: 9, offset: 57427},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2869, col: 11, offset: 90573},
+												pos: position{line: 2917, col: 11, offset: 91788},
 												expr: &anyMatcher{
-													line: 2869, col: 13, offset: 90575,
+													line: 2917, col: 13, offset: 91790,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1774, col: 9, offset: 57326},
+												pos: position{line: 1779, col: 9, offset: 57442},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21489},
 													run: (*parser).callonParagraph48,
@@ -39357,18 +39366,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2869, col: 11, offset: 90573},
+																pos: position{line: 2917, col: 11, offset: 91788},
 																expr: &anyMatcher{
-																	line: 2869, col: 13, offset: 90575,
+																	line: 2917, col: 13, offset: 91790,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2900, col: 10, offset: 91454},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2900, col: 10, offset: 91454},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39377,28 +39386,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2922, col: 8, offset: 91852},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2909, col: 12, offset: 91625},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2909, col: 13, offset: 91626},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2909, col: 13, offset: 91626},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2909, col: 20, offset: 91633},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2909, col: 29, offset: 91642},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39407,9 +39416,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2919, col: 8, offset: 91802},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2919, col: 9, offset: 91803,
 																		},
 																	},
 																},
@@ -39419,49 +39428,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1775, col: 9, offset: 57345},
+												pos: position{line: 1780, col: 9, offset: 57461},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1775, col: 10, offset: 57346},
+													pos:  position{line: 1780, col: 10, offset: 57462},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1776, col: 9, offset: 57370},
+												pos:   position{line: 1781, col: 9, offset: 57486},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1776, col: 15, offset: 57376},
+													pos: position{line: 1781, col: 15, offset: 57492},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2462, col: 22, offset: 79224},
+															pos: position{line: 2510, col: 22, offset: 80439},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 2462, col: 22, offset: 79224},
+																pos: position{line: 2510, col: 22, offset: 80439},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2467, col: 31, offset: 79445},
+																		pos:        position{line: 2515, col: 31, offset: 80660},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2467, col: 36, offset: 79450},
+																		pos: position{line: 2515, col: 36, offset: 80665},
 																		expr: &litMatcher{
-																			pos:        position{line: 2467, col: 37, offset: 79451},
+																			pos:        position{line: 2515, col: 37, offset: 80666},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2462, col: 49, offset: 79251},
+																		pos:   position{line: 2510, col: 49, offset: 80466},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2798, col: 13, offset: 88765},
+																			pos: position{line: 2846, col: 13, offset: 89980},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2798, col: 13, offset: 88765},
+																				pos: position{line: 2846, col: 13, offset: 89980},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2798, col: 13, offset: 88765},
+																					pos:        position{line: 2846, col: 13, offset: 89980},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39471,28 +39480,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2922, col: 8, offset: 91852},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2909, col: 12, offset: 91625},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2909, col: 13, offset: 91626},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2909, col: 13, offset: 91626},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2909, col: 20, offset: 91633},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2909, col: 29, offset: 91642},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39501,9 +39510,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2919, col: 8, offset: 91802},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2919, col: 9, offset: 91803,
 																				},
 																			},
 																		},
@@ -39512,21 +39521,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1784, col: 5, offset: 57605},
+															pos: position{line: 1789, col: 5, offset: 57721},
 															run: (*parser).callonParagraph84,
 															expr: &seqExpr{
-																pos: position{line: 1784, col: 5, offset: 57605},
+																pos: position{line: 1789, col: 5, offset: 57721},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1784, col: 5, offset: 57605},
+																		pos:   position{line: 1789, col: 5, offset: 57721},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2802, col: 14, offset: 88832},
+																			pos: position{line: 2850, col: 14, offset: 90047},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2802, col: 14, offset: 88832},
+																				pos: position{line: 2850, col: 14, offset: 90047},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2802, col: 14, offset: 88832},
+																					pos:        position{line: 2850, col: 14, offset: 90047},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39536,32 +39545,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1785, col: 5, offset: 57629},
+																		pos: position{line: 1790, col: 5, offset: 57745},
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2922, col: 8, offset: 91852},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2909, col: 12, offset: 91625},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2909, col: 13, offset: 91626},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2909, col: 13, offset: 91626},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2909, col: 20, offset: 91633},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2909, col: 29, offset: 91642},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39570,9 +39579,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2919, col: 8, offset: 91802},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2919, col: 9, offset: 91803,
 																				},
 																			},
 																		},
@@ -39594,16 +39603,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1795, col: 1, offset: 58115},
+			pos:  position{line: 1800, col: 1, offset: 58231},
 			expr: &choiceExpr{
-				pos: position{line: 1795, col: 15, offset: 58129},
+				pos: position{line: 1800, col: 15, offset: 58245},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1795, col: 15, offset: 58129},
+						pos:  position{line: 1800, col: 15, offset: 58245},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1795, col: 35, offset: 58149},
+						pos:  position{line: 1800, col: 35, offset: 58265},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -39611,65 +39620,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1797, col: 1, offset: 58170},
+			pos:  position{line: 1802, col: 1, offset: 58286},
 			expr: &actionExpr{
-				pos: position{line: 1798, col: 5, offset: 58195},
+				pos: position{line: 1803, col: 5, offset: 58311},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1798, col: 5, offset: 58195},
+					pos: position{line: 1803, col: 5, offset: 58311},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1798, col: 5, offset: 58195},
+							pos:   position{line: 1803, col: 5, offset: 58311},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1798, col: 16, offset: 58206},
+								pos: position{line: 1803, col: 16, offset: 58322},
 								expr: &actionExpr{
-									pos: position{line: 1798, col: 17, offset: 58207},
+									pos: position{line: 1803, col: 17, offset: 58323},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1798, col: 17, offset: 58207},
+										pos:  position{line: 1803, col: 17, offset: 58323},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1801, col: 5, offset: 58275},
+							pos: position{line: 1806, col: 5, offset: 58391},
 							expr: &litMatcher{
-								pos:        position{line: 1801, col: 7, offset: 58277},
+								pos:        position{line: 1806, col: 7, offset: 58393},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1802, col: 5, offset: 58286},
+							pos:   position{line: 1807, col: 5, offset: 58402},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1803, col: 9, offset: 58304},
+								pos: position{line: 1808, col: 9, offset: 58420},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1803, col: 9, offset: 58304},
+										pos:  position{line: 1808, col: 9, offset: 58420},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1804, col: 11, offset: 58331},
+										pos:  position{line: 1809, col: 11, offset: 58447},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1805, col: 11, offset: 58359},
+										pos:  position{line: 1810, col: 11, offset: 58475},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1806, col: 11, offset: 58390},
+										pos:  position{line: 1811, col: 11, offset: 58506},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1807, col: 11, offset: 58418},
+										pos:  position{line: 1812, col: 11, offset: 58534},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1808, col: 11, offset: 58449},
+										pos:  position{line: 1813, col: 11, offset: 58565},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -39681,36 +39690,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1813, col: 1, offset: 58569},
+			pos:  position{line: 1818, col: 1, offset: 58685},
 			expr: &actionExpr{
-				pos: position{line: 1814, col: 5, offset: 58611},
+				pos: position{line: 1819, col: 5, offset: 58727},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1814, col: 5, offset: 58611},
+					pos: position{line: 1819, col: 5, offset: 58727},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1814, col: 5, offset: 58611},
+							pos:   position{line: 1819, col: 5, offset: 58727},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1814, col: 16, offset: 58622},
+								pos: position{line: 1819, col: 16, offset: 58738},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1814, col: 17, offset: 58623},
+									pos:  position{line: 1819, col: 17, offset: 58739},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1815, col: 5, offset: 58648},
+							pos:   position{line: 1820, col: 5, offset: 58764},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1815, col: 14, offset: 58657},
+								pos: position{line: 1820, col: 14, offset: 58773},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 14, offset: 58657},
+										pos:  position{line: 1820, col: 14, offset: 58773},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 33, offset: 58676},
+										pos:  position{line: 1820, col: 33, offset: 58792},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -39722,32 +39731,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1823, col: 1, offset: 58907},
+			pos:  position{line: 1828, col: 1, offset: 59023},
 			expr: &choiceExpr{
-				pos: position{line: 1824, col: 5, offset: 58932},
+				pos: position{line: 1829, col: 5, offset: 59048},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1824, col: 5, offset: 58932},
+						pos:  position{line: 1829, col: 5, offset: 59048},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1825, col: 7, offset: 58959},
+						pos:  position{line: 1830, col: 7, offset: 59075},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1826, col: 7, offset: 58987},
+						pos:  position{line: 1831, col: 7, offset: 59103},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1827, col: 7, offset: 59019},
+						pos:  position{line: 1832, col: 7, offset: 59135},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1828, col: 7, offset: 59047},
+						pos:  position{line: 1833, col: 7, offset: 59163},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1829, col: 7, offset: 59068},
+						pos:  position{line: 1834, col: 7, offset: 59184},
 						name: "SuperscriptText",
 					},
 				},
@@ -39755,24 +39764,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1831, col: 1, offset: 59086},
+			pos:  position{line: 1836, col: 1, offset: 59202},
 			expr: &choiceExpr{
-				pos: position{line: 1832, col: 5, offset: 59111},
+				pos: position{line: 1837, col: 5, offset: 59227},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1832, col: 5, offset: 59111},
+						pos:  position{line: 1837, col: 5, offset: 59227},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1833, col: 7, offset: 59137},
+						pos:  position{line: 1838, col: 7, offset: 59253},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1834, col: 7, offset: 59165},
+						pos:  position{line: 1839, col: 7, offset: 59281},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 7, offset: 59196},
+						pos:  position{line: 1840, col: 7, offset: 59312},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -39780,26 +39789,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1849, col: 1, offset: 59550},
+			pos:  position{line: 1854, col: 1, offset: 59666},
 			expr: &choiceExpr{
-				pos: position{line: 1850, col: 5, offset: 59576},
+				pos: position{line: 1855, col: 5, offset: 59692},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2751, col: 5, offset: 87481},
+						pos: position{line: 2799, col: 5, offset: 88696},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2751, col: 5, offset: 87481},
+							pos: position{line: 2799, col: 5, offset: 88696},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2751, col: 5, offset: 87481},
+									pos:   position{line: 2799, col: 5, offset: 88696},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2751, col: 11, offset: 87487},
+										pos: position{line: 2799, col: 11, offset: 88702},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2751, col: 11, offset: 87487},
+											pos: position{line: 2799, col: 11, offset: 88702},
 											expr: &charClassMatcher{
-												pos:        position{line: 2751, col: 11, offset: 87487},
+												pos:        position{line: 2799, col: 11, offset: 88702},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -39809,36 +39818,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2754, col: 5, offset: 87545},
+									pos: position{line: 2802, col: 5, offset: 88760},
 									expr: &seqExpr{
-										pos: position{line: 2755, col: 9, offset: 87556},
+										pos: position{line: 2803, col: 9, offset: 88771},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2755, col: 9, offset: 87556},
+												pos:        position{line: 2803, col: 9, offset: 88771},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2756, col: 9, offset: 87605},
+												pos: position{line: 2804, col: 9, offset: 88820},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2760, col: 5, offset: 87685},
+									pos: position{line: 2808, col: 5, offset: 88900},
 									expr: &seqExpr{
-										pos: position{line: 2761, col: 9, offset: 87696},
+										pos: position{line: 2809, col: 9, offset: 88911},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2761, col: 9, offset: 87696},
+												pos:        position{line: 2809, col: 9, offset: 88911},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2761, col: 13, offset: 87700},
+												pos:        position{line: 2809, col: 13, offset: 88915},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -39851,12 +39860,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2856, col: 11, offset: 90300},
+						pos: position{line: 2904, col: 11, offset: 91515},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2856, col: 11, offset: 90300},
+							pos: position{line: 2904, col: 11, offset: 91515},
 							expr: &charClassMatcher{
-								pos:        position{line: 2856, col: 11, offset: 90300},
+								pos:        position{line: 2904, col: 11, offset: 91515},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -39865,25 +39874,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1852, col: 7, offset: 59639},
+						pos:  position{line: 1857, col: 7, offset: 59755},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2480, col: 5, offset: 79941},
+						pos: position{line: 2528, col: 5, offset: 81156},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2480, col: 5, offset: 79941},
+							pos: position{line: 2528, col: 5, offset: 81156},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2480, col: 5, offset: 79941},
+									pos:        position{line: 2528, col: 5, offset: 81156},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2480, col: 10, offset: 79946},
+									pos: position{line: 2528, col: 10, offset: 81161},
 									expr: &charClassMatcher{
-										pos:        position{line: 2480, col: 11, offset: 79947},
+										pos:        position{line: 2528, col: 11, offset: 81162},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -39894,29 +39903,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2486, col: 5, offset: 80139},
+						pos: position{line: 2534, col: 5, offset: 81354},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2486, col: 5, offset: 80139},
+							pos: position{line: 2534, col: 5, offset: 81354},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2486, col: 5, offset: 80139},
+									pos: position{line: 2534, col: 5, offset: 81354},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2489, col: 5, offset: 80210},
+									pos: position{line: 2537, col: 5, offset: 81425},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2493, col: 5, offset: 80335},
+									pos:        position{line: 2541, col: 5, offset: 81550},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2493, col: 9, offset: 80339},
+									pos: position{line: 2541, col: 9, offset: 81554},
 									expr: &charClassMatcher{
-										pos:        position{line: 2493, col: 10, offset: 80340},
+										pos:        position{line: 2541, col: 10, offset: 81555},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -39927,27 +39936,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2769, col: 5, offset: 87893},
+						pos: position{line: 2817, col: 5, offset: 89108},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2770, col: 9, offset: 87903},
+							pos: position{line: 2818, col: 9, offset: 89118},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2770, col: 10, offset: 87904},
+									pos:        position{line: 2818, col: 10, offset: 89119},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2772, col: 13, offset: 88001},
+									pos: position{line: 2820, col: 13, offset: 89216},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2772, col: 13, offset: 88001},
+											pos: position{line: 2820, col: 13, offset: 89216},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2775, col: 13, offset: 88101},
+											pos:        position{line: 2823, col: 13, offset: 89316},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -39955,20 +39964,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2775, col: 19, offset: 88107},
+									pos:        position{line: 2823, col: 19, offset: 89322},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2778, col: 13, offset: 88145},
+									pos: position{line: 2826, col: 13, offset: 89360},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2778, col: 13, offset: 88145},
+											pos: position{line: 2826, col: 13, offset: 89360},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2781, col: 14, offset: 88238},
+											pos:        position{line: 2829, col: 14, offset: 89453},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -39977,18 +39986,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2783, col: 12, offset: 88282},
+									pos: position{line: 2831, col: 12, offset: 89497},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2783, col: 12, offset: 88282},
+											pos:        position{line: 2831, col: 12, offset: 89497},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2783, col: 16, offset: 88286},
+											pos: position{line: 2831, col: 16, offset: 89501},
 											expr: &litMatcher{
-												pos:        position{line: 2783, col: 17, offset: 88287},
+												pos:        position{line: 2831, col: 17, offset: 89502},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -40346,31 +40355,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2865, col: 18, offset: 90510},
+						pos: position{line: 2913, col: 18, offset: 91725},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2865, col: 18, offset: 90510},
+							pos: position{line: 2913, col: 18, offset: 91725},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2909, col: 12, offset: 91625},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2909, col: 13, offset: 91626},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2909, col: 13, offset: 91626},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2909, col: 20, offset: 91633},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2909, col: 29, offset: 91642},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -40379,27 +40388,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2865, col: 26, offset: 90518},
+									pos: position{line: 2913, col: 26, offset: 91733},
 									expr: &actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90410},
+										pos: position{line: 2909, col: 12, offset: 91625},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2861, col: 13, offset: 90411},
+											pos: position{line: 2909, col: 13, offset: 91626},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2861, col: 13, offset: 90411},
+													pos:        position{line: 2909, col: 13, offset: 91626},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 20, offset: 90418},
+													pos:        position{line: 2909, col: 20, offset: 91633},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 29, offset: 90427},
+													pos:        position{line: 2909, col: 29, offset: 91642},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -40412,31 +40421,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1857, col: 7, offset: 59806},
+						pos:  position{line: 1862, col: 7, offset: 59922},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1858, col: 7, offset: 59853},
+						pos:  position{line: 1863, col: 7, offset: 59969},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2449, col: 5, offset: 78770},
+						pos: position{line: 2497, col: 5, offset: 79985},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2449, col: 5, offset: 78770},
+							pos: position{line: 2497, col: 5, offset: 79985},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2449, col: 5, offset: 78770},
+									pos: position{line: 2497, col: 5, offset: 79985},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2452, col: 5, offset: 78846},
+									pos:   position{line: 2500, col: 5, offset: 80061},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2453, col: 9, offset: 78864},
+										pos: position{line: 2501, col: 9, offset: 80079},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2453, col: 10, offset: 78865},
+											pos:        position{line: 2501, col: 10, offset: 80080},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -40487,10 +40496,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2791, col: 12, offset: 88547},
+						pos: position{line: 2839, col: 12, offset: 89762},
 						run: (*parser).callonQuotedTextElement144,
 						expr: &charClassMatcher{
-							pos:        position{line: 2791, col: 12, offset: 88547},
+							pos:        position{line: 2839, col: 12, offset: 89762},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -40502,29 +40511,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1876, col: 1, offset: 60323},
+			pos:  position{line: 1881, col: 1, offset: 60439},
 			expr: &actionExpr{
-				pos: position{line: 1877, col: 5, offset: 60351},
+				pos: position{line: 1882, col: 5, offset: 60467},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1877, col: 5, offset: 60351},
+					pos: position{line: 1882, col: 5, offset: 60467},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1872, col: 38, offset: 60276},
+							pos:        position{line: 1877, col: 38, offset: 60392},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1878, col: 5, offset: 60390},
+							pos:   position{line: 1883, col: 5, offset: 60506},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1878, col: 15, offset: 60400},
+								pos:  position{line: 1883, col: 15, offset: 60516},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1874, col: 36, offset: 60317},
+							pos:        position{line: 1879, col: 36, offset: 60433},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -40535,44 +40544,61 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1883, col: 1, offset: 60560},
-			expr: &oneOrMoreExpr{
-				pos: position{line: 1883, col: 32, offset: 60591},
-				expr: &ruleRefExpr{
-					pos:  position{line: 1883, col: 32, offset: 60591},
-					name: "DoubleQuoteBoldTextElement",
+			pos:  position{line: 1888, col: 1, offset: 60676},
+			expr: &actionExpr{
+				pos: position{line: 1889, col: 5, offset: 60711},
+				run: (*parser).callonDoubleQuoteBoldTextElements1,
+				expr: &seqExpr{
+					pos: position{line: 1889, col: 5, offset: 60711},
+					exprs: []interface{}{
+						&stateCodeExpr{
+							pos: position{line: 1889, col: 5, offset: 60711},
+							run: (*parser).callonDoubleQuoteBoldTextElements3,
+						},
+						&labeledExpr{
+							pos:   position{line: 1893, col: 5, offset: 60831},
+							label: "elements",
+							expr: &oneOrMoreExpr{
+								pos: position{line: 1893, col: 14, offset: 60840},
+								expr: &ruleRefExpr{
+									pos:  position{line: 1893, col: 15, offset: 60841},
+									name: "DoubleQuoteBoldTextElement",
+								},
+							},
+						},
+					},
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1885, col: 1, offset: 60622},
+			pos:  position{line: 1897, col: 1, offset: 60908},
 			expr: &actionExpr{
-				pos: position{line: 1886, col: 5, offset: 60657},
+				pos: position{line: 1898, col: 5, offset: 60943},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1886, col: 5, offset: 60657},
+					pos: position{line: 1898, col: 5, offset: 60943},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2917, col: 11, offset: 91788},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2917, col: 13, offset: 91790,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1887, col: 5, offset: 60668},
+							pos: position{line: 1899, col: 5, offset: 60954},
 							expr: &litMatcher{
-								pos:        position{line: 1874, col: 36, offset: 60317},
+								pos:        position{line: 1879, col: 36, offset: 60433},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1888, col: 5, offset: 60705},
+							pos:   position{line: 1900, col: 5, offset: 60991},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1888, col: 14, offset: 60714},
+								pos:  position{line: 1900, col: 14, offset: 61000},
 								name: "QuotedTextElement",
 							},
 						},
@@ -40582,29 +40608,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1913, col: 1, offset: 61394},
+			pos:  position{line: 1925, col: 1, offset: 61680},
 			expr: &actionExpr{
-				pos: position{line: 1914, col: 5, offset: 61422},
+				pos: position{line: 1926, col: 5, offset: 61708},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1914, col: 5, offset: 61422},
+					pos: position{line: 1926, col: 5, offset: 61708},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1897, col: 5, offset: 60948},
+							pos:        position{line: 1909, col: 5, offset: 61234},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1898, col: 5, offset: 60957},
+							pos: position{line: 1910, col: 5, offset: 61243},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1902, col: 5, offset: 61075},
+							pos: position{line: 1914, col: 5, offset: 61361},
 							expr: &notExpr{
-								pos: position{line: 1902, col: 7, offset: 61077},
+								pos: position{line: 1914, col: 7, offset: 61363},
 								expr: &litMatcher{
-									pos:        position{line: 1902, col: 8, offset: 61078},
+									pos:        position{line: 1914, col: 8, offset: 61364},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -40612,38 +40638,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1915, col: 5, offset: 61460},
+							pos:   position{line: 1927, col: 5, offset: 61746},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1915, col: 15, offset: 61470},
+								pos:  position{line: 1927, col: 15, offset: 61756},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1905, col: 5, offset: 61198},
+							pos:        position{line: 1917, col: 5, offset: 61484},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1906, col: 5, offset: 61207},
+							pos: position{line: 1918, col: 5, offset: 61493},
 							expr: &litMatcher{
-								pos:        position{line: 1906, col: 6, offset: 61208},
+								pos:        position{line: 1918, col: 6, offset: 61494},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1907, col: 5, offset: 61271},
+							pos: position{line: 1919, col: 5, offset: 61557},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1911, col: 5, offset: 61380},
+							pos: position{line: 1923, col: 5, offset: 61666},
 							expr: &notExpr{
-								pos: position{line: 1911, col: 7, offset: 61382},
+								pos: position{line: 1923, col: 7, offset: 61668},
 								expr: &charClassMatcher{
-									pos:        position{line: 2742, col: 13, offset: 87334},
+									pos:        position{line: 2790, col: 13, offset: 88549},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -40657,20 +40683,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1920, col: 1, offset: 61630},
+			pos:  position{line: 1932, col: 1, offset: 61916},
 			expr: &actionExpr{
-				pos: position{line: 1921, col: 5, offset: 61667},
+				pos: position{line: 1933, col: 5, offset: 61953},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1921, col: 5, offset: 61667},
+					pos: position{line: 1933, col: 5, offset: 61953},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1921, col: 5, offset: 61667},
+							pos: position{line: 1933, col: 5, offset: 61953},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2900, col: 10, offset: 91454},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2900, col: 10, offset: 91454},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -40679,18 +40705,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1922, col: 5, offset: 61706},
+							pos:   position{line: 1934, col: 5, offset: 61992},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1922, col: 14, offset: 61715},
+								pos: position{line: 1934, col: 14, offset: 62001},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1922, col: 15, offset: 61716},
+									pos:  position{line: 1934, col: 15, offset: 62002},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1923, col: 5, offset: 61750},
+							pos: position{line: 1935, col: 5, offset: 62036},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -40699,49 +40725,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1929, col: 1, offset: 61891},
+			pos:  position{line: 1941, col: 1, offset: 62177},
 			expr: &actionExpr{
-				pos: position{line: 1930, col: 5, offset: 61926},
+				pos: position{line: 1942, col: 5, offset: 62212},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1930, col: 5, offset: 61926},
+					pos: position{line: 1942, col: 5, offset: 62212},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2917, col: 11, offset: 91788},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2917, col: 13, offset: 91790,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1931, col: 5, offset: 61954},
+							pos: position{line: 1943, col: 5, offset: 62240},
 							expr: &seqExpr{
-								pos: position{line: 1905, col: 5, offset: 61198},
+								pos: position{line: 1917, col: 5, offset: 61484},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1905, col: 5, offset: 61198},
+										pos:        position{line: 1917, col: 5, offset: 61484},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1906, col: 5, offset: 61207},
+										pos: position{line: 1918, col: 5, offset: 61493},
 										expr: &litMatcher{
-											pos:        position{line: 1906, col: 6, offset: 61208},
+											pos:        position{line: 1918, col: 6, offset: 61494},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1907, col: 5, offset: 61271},
+										pos: position{line: 1919, col: 5, offset: 61557},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1911, col: 5, offset: 61380},
+										pos: position{line: 1923, col: 5, offset: 61666},
 										expr: &notExpr{
-											pos: position{line: 1911, col: 7, offset: 61382},
+											pos: position{line: 1923, col: 7, offset: 61668},
 											expr: &charClassMatcher{
-												pos:        position{line: 2742, col: 13, offset: 87334},
+												pos:        position{line: 2790, col: 13, offset: 88549},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40753,10 +40779,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1932, col: 5, offset: 61991},
+							pos:   position{line: 1944, col: 5, offset: 62277},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1932, col: 14, offset: 62000},
+								pos:  position{line: 1944, col: 14, offset: 62286},
 								name: "QuotedTextElement",
 							},
 						},
@@ -40766,35 +40792,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1937, col: 1, offset: 62088},
+			pos:  position{line: 1949, col: 1, offset: 62374},
 			expr: &choiceExpr{
-				pos: position{line: 1939, col: 5, offset: 62149},
+				pos: position{line: 1951, col: 5, offset: 62435},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1939, col: 5, offset: 62149},
+						pos: position{line: 1951, col: 5, offset: 62435},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1939, col: 5, offset: 62149},
+							pos: position{line: 1951, col: 5, offset: 62435},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1939, col: 5, offset: 62149},
+									pos:   position{line: 1951, col: 5, offset: 62435},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59496},
+										pos: position{line: 1850, col: 25, offset: 59612},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59496},
+											pos: position{line: 1850, col: 25, offset: 59612},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59496},
+													pos:        position{line: 1850, col: 25, offset: 59612},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59501},
+													pos: position{line: 1850, col: 30, offset: 59617},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59501},
+														pos:        position{line: 1850, col: 30, offset: 59617},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -40805,21 +40831,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1939, col: 40, offset: 62184},
+									pos:        position{line: 1951, col: 40, offset: 62470},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1939, col: 45, offset: 62189},
+									pos:   position{line: 1951, col: 45, offset: 62475},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1939, col: 55, offset: 62199},
+										pos:  position{line: 1951, col: 55, offset: 62485},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1939, col: 84, offset: 62228},
+									pos:        position{line: 1951, col: 84, offset: 62514},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -40828,21 +40854,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1943, col: 7, offset: 62392},
+						pos: position{line: 1955, col: 7, offset: 62678},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1943, col: 7, offset: 62392},
+							pos: position{line: 1955, col: 7, offset: 62678},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1943, col: 7, offset: 62392},
+									pos:   position{line: 1955, col: 7, offset: 62678},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1846, col: 25, offset: 59539},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1846, col: 25, offset: 59539},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1846, col: 25, offset: 59539},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -40851,21 +40877,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1943, col: 42, offset: 62427},
+									pos:        position{line: 1955, col: 42, offset: 62713},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1943, col: 47, offset: 62432},
+									pos:   position{line: 1955, col: 47, offset: 62718},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1943, col: 57, offset: 62442},
+										pos:  position{line: 1955, col: 57, offset: 62728},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1943, col: 86, offset: 62471},
+									pos:        position{line: 1955, col: 86, offset: 62757},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -40874,21 +40900,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1948, col: 7, offset: 62673},
+						pos: position{line: 1960, col: 7, offset: 62959},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1948, col: 7, offset: 62673},
+							pos: position{line: 1960, col: 7, offset: 62959},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1948, col: 7, offset: 62673},
+									pos:   position{line: 1960, col: 7, offset: 62959},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1846, col: 25, offset: 59539},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1846, col: 25, offset: 59539},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1846, col: 25, offset: 59539},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -40897,21 +40923,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1948, col: 42, offset: 62708},
+									pos:        position{line: 1960, col: 42, offset: 62994},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1948, col: 46, offset: 62712},
+									pos:   position{line: 1960, col: 46, offset: 62998},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1948, col: 56, offset: 62722},
+										pos:  position{line: 1960, col: 56, offset: 63008},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1948, col: 85, offset: 62751},
+									pos:        position{line: 1960, col: 85, offset: 63037},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -40924,29 +40950,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1965, col: 1, offset: 63231},
+			pos:  position{line: 1977, col: 1, offset: 63517},
 			expr: &actionExpr{
-				pos: position{line: 1966, col: 5, offset: 63261},
+				pos: position{line: 1978, col: 5, offset: 63547},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1966, col: 5, offset: 63261},
+					pos: position{line: 1978, col: 5, offset: 63547},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1961, col: 40, offset: 63182},
+							pos:        position{line: 1973, col: 40, offset: 63468},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1967, col: 5, offset: 63302},
+							pos:   position{line: 1979, col: 5, offset: 63588},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1967, col: 15, offset: 63312},
+								pos:  position{line: 1979, col: 15, offset: 63598},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1963, col: 38, offset: 63225},
+							pos:        position{line: 1975, col: 38, offset: 63511},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -40957,44 +40983,61 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1972, col: 1, offset: 63477},
-			expr: &oneOrMoreExpr{
-				pos: position{line: 1972, col: 34, offset: 63510},
-				expr: &ruleRefExpr{
-					pos:  position{line: 1972, col: 34, offset: 63510},
-					name: "DoubleQuoteItalicTextElement",
+			pos:  position{line: 1984, col: 1, offset: 63763},
+			expr: &actionExpr{
+				pos: position{line: 1985, col: 5, offset: 63800},
+				run: (*parser).callonDoubleQuoteItalicTextElements1,
+				expr: &seqExpr{
+					pos: position{line: 1985, col: 5, offset: 63800},
+					exprs: []interface{}{
+						&stateCodeExpr{
+							pos: position{line: 1985, col: 5, offset: 63800},
+							run: (*parser).callonDoubleQuoteItalicTextElements3,
+						},
+						&labeledExpr{
+							pos:   position{line: 1989, col: 5, offset: 63920},
+							label: "elements",
+							expr: &oneOrMoreExpr{
+								pos: position{line: 1989, col: 14, offset: 63929},
+								expr: &ruleRefExpr{
+									pos:  position{line: 1989, col: 15, offset: 63930},
+									name: "DoubleQuoteItalicTextElement",
+								},
+							},
+						},
+					},
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1974, col: 1, offset: 63542},
+			pos:  position{line: 1993, col: 1, offset: 63999},
 			expr: &actionExpr{
-				pos: position{line: 1975, col: 5, offset: 63579},
+				pos: position{line: 1994, col: 5, offset: 64036},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1975, col: 5, offset: 63579},
+					pos: position{line: 1994, col: 5, offset: 64036},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2917, col: 11, offset: 91788},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2917, col: 13, offset: 91790,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1976, col: 5, offset: 63590},
+							pos: position{line: 1995, col: 5, offset: 64047},
 							expr: &litMatcher{
-								pos:        position{line: 1963, col: 38, offset: 63225},
+								pos:        position{line: 1975, col: 38, offset: 63511},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1977, col: 5, offset: 63629},
+							pos:   position{line: 1996, col: 5, offset: 64086},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1977, col: 14, offset: 63638},
+								pos:  position{line: 1996, col: 14, offset: 64095},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41004,29 +41047,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2003, col: 1, offset: 64322},
+			pos:  position{line: 2022, col: 1, offset: 64779},
 			expr: &actionExpr{
-				pos: position{line: 2004, col: 5, offset: 64352},
+				pos: position{line: 2023, col: 5, offset: 64809},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2004, col: 5, offset: 64352},
+					pos: position{line: 2023, col: 5, offset: 64809},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1986, col: 5, offset: 63880},
+							pos:        position{line: 2005, col: 5, offset: 64337},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1987, col: 5, offset: 63889},
+							pos: position{line: 2006, col: 5, offset: 64346},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 1991, col: 5, offset: 64009},
+							pos: position{line: 2010, col: 5, offset: 64466},
 							expr: &notExpr{
-								pos: position{line: 1991, col: 7, offset: 64011},
+								pos: position{line: 2010, col: 7, offset: 64468},
 								expr: &litMatcher{
-									pos:        position{line: 1991, col: 8, offset: 64012},
+									pos:        position{line: 2010, col: 8, offset: 64469},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41034,38 +41077,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2005, col: 5, offset: 64392},
+							pos:   position{line: 2024, col: 5, offset: 64849},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2005, col: 15, offset: 64402},
+								pos:  position{line: 2024, col: 15, offset: 64859},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1995, col: 5, offset: 64122},
+							pos:        position{line: 2014, col: 5, offset: 64579},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 1996, col: 5, offset: 64131},
+							pos: position{line: 2015, col: 5, offset: 64588},
 							expr: &litMatcher{
-								pos:        position{line: 1996, col: 6, offset: 64132},
+								pos:        position{line: 2015, col: 6, offset: 64589},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1997, col: 5, offset: 64197},
+							pos: position{line: 2016, col: 5, offset: 64654},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2001, col: 5, offset: 64308},
+							pos: position{line: 2020, col: 5, offset: 64765},
 							expr: &notExpr{
-								pos: position{line: 2001, col: 7, offset: 64310},
+								pos: position{line: 2020, col: 7, offset: 64767},
 								expr: &charClassMatcher{
-									pos:        position{line: 2742, col: 13, offset: 87334},
+									pos:        position{line: 2790, col: 13, offset: 88549},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41079,20 +41122,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2010, col: 1, offset: 64569},
+			pos:  position{line: 2029, col: 1, offset: 65026},
 			expr: &actionExpr{
-				pos: position{line: 2011, col: 5, offset: 64607},
+				pos: position{line: 2030, col: 5, offset: 65064},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2011, col: 5, offset: 64607},
+					pos: position{line: 2030, col: 5, offset: 65064},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2011, col: 5, offset: 64607},
+							pos: position{line: 2030, col: 5, offset: 65064},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2900, col: 10, offset: 91454},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2900, col: 10, offset: 91454},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41101,18 +41144,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2012, col: 5, offset: 64646},
+							pos:   position{line: 2031, col: 5, offset: 65103},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2012, col: 14, offset: 64655},
+								pos: position{line: 2031, col: 14, offset: 65112},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2012, col: 15, offset: 64656},
+									pos:  position{line: 2031, col: 15, offset: 65113},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2013, col: 5, offset: 64691},
+							pos: position{line: 2032, col: 5, offset: 65148},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -41121,49 +41164,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2019, col: 1, offset: 64832},
+			pos:  position{line: 2038, col: 1, offset: 65289},
 			expr: &actionExpr{
-				pos: position{line: 2020, col: 5, offset: 64869},
+				pos: position{line: 2039, col: 5, offset: 65326},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2020, col: 5, offset: 64869},
+					pos: position{line: 2039, col: 5, offset: 65326},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2917, col: 11, offset: 91788},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2917, col: 13, offset: 91790,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2021, col: 5, offset: 64880},
+							pos: position{line: 2040, col: 5, offset: 65337},
 							expr: &seqExpr{
-								pos: position{line: 1995, col: 5, offset: 64122},
+								pos: position{line: 2014, col: 5, offset: 64579},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1995, col: 5, offset: 64122},
+										pos:        position{line: 2014, col: 5, offset: 64579},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 1996, col: 5, offset: 64131},
+										pos: position{line: 2015, col: 5, offset: 64588},
 										expr: &litMatcher{
-											pos:        position{line: 1996, col: 6, offset: 64132},
+											pos:        position{line: 2015, col: 6, offset: 64589},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1997, col: 5, offset: 64197},
+										pos: position{line: 2016, col: 5, offset: 64654},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2001, col: 5, offset: 64308},
+										pos: position{line: 2020, col: 5, offset: 64765},
 										expr: &notExpr{
-											pos: position{line: 2001, col: 7, offset: 64310},
+											pos: position{line: 2020, col: 7, offset: 64767},
 											expr: &charClassMatcher{
-												pos:        position{line: 2742, col: 13, offset: 87334},
+												pos:        position{line: 2790, col: 13, offset: 88549},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41175,10 +41218,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2022, col: 5, offset: 64919},
+							pos:   position{line: 2041, col: 5, offset: 65376},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2022, col: 14, offset: 64928},
+								pos:  position{line: 2041, col: 14, offset: 65385},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41188,35 +41231,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2027, col: 1, offset: 65016},
+			pos:  position{line: 2046, col: 1, offset: 65473},
 			expr: &choiceExpr{
-				pos: position{line: 2029, col: 5, offset: 65081},
+				pos: position{line: 2048, col: 5, offset: 65538},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2029, col: 5, offset: 65081},
+						pos: position{line: 2048, col: 5, offset: 65538},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2029, col: 5, offset: 65081},
+							pos: position{line: 2048, col: 5, offset: 65538},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2029, col: 5, offset: 65081},
+									pos:   position{line: 2048, col: 5, offset: 65538},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59496},
+										pos: position{line: 1850, col: 25, offset: 59612},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59496},
+											pos: position{line: 1850, col: 25, offset: 59612},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59496},
+													pos:        position{line: 1850, col: 25, offset: 59612},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59501},
+													pos: position{line: 1850, col: 30, offset: 59617},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59501},
+														pos:        position{line: 1850, col: 30, offset: 59617},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41227,21 +41270,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2029, col: 40, offset: 65116},
+									pos:        position{line: 2048, col: 40, offset: 65573},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2029, col: 45, offset: 65121},
+									pos:   position{line: 2048, col: 45, offset: 65578},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2029, col: 55, offset: 65131},
+										pos:  position{line: 2048, col: 55, offset: 65588},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2029, col: 86, offset: 65162},
+									pos:        position{line: 2048, col: 86, offset: 65619},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -41250,21 +41293,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2033, col: 7, offset: 65327},
+						pos: position{line: 2052, col: 7, offset: 65784},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2033, col: 7, offset: 65327},
+							pos: position{line: 2052, col: 7, offset: 65784},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2033, col: 7, offset: 65327},
+									pos:   position{line: 2052, col: 7, offset: 65784},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1846, col: 25, offset: 59539},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1846, col: 25, offset: 59539},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1846, col: 25, offset: 59539},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41273,21 +41316,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2033, col: 42, offset: 65362},
+									pos:        position{line: 2052, col: 42, offset: 65819},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2033, col: 47, offset: 65367},
+									pos:   position{line: 2052, col: 47, offset: 65824},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2033, col: 57, offset: 65377},
+										pos:  position{line: 2052, col: 57, offset: 65834},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2033, col: 88, offset: 65408},
+									pos:        position{line: 2052, col: 88, offset: 65865},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41296,21 +41339,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2038, col: 7, offset: 65649},
+						pos: position{line: 2057, col: 7, offset: 66106},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2038, col: 7, offset: 65649},
+							pos: position{line: 2057, col: 7, offset: 66106},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2038, col: 7, offset: 65649},
+									pos:   position{line: 2057, col: 7, offset: 66106},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1846, col: 25, offset: 59539},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1846, col: 25, offset: 59539},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1846, col: 25, offset: 59539},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41319,21 +41362,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2038, col: 42, offset: 65684},
+									pos:        position{line: 2057, col: 42, offset: 66141},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2038, col: 46, offset: 65688},
+									pos:   position{line: 2057, col: 46, offset: 66145},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2038, col: 56, offset: 65698},
+										pos:  position{line: 2057, col: 56, offset: 66155},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2038, col: 87, offset: 65729},
+									pos:        position{line: 2057, col: 87, offset: 66186},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41346,29 +41389,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2055, col: 1, offset: 66293},
+			pos:  position{line: 2074, col: 1, offset: 66750},
 			expr: &actionExpr{
-				pos: position{line: 2056, col: 5, offset: 66326},
+				pos: position{line: 2075, col: 5, offset: 66783},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2056, col: 5, offset: 66326},
+					pos: position{line: 2075, col: 5, offset: 66783},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2051, col: 43, offset: 66241},
+							pos:        position{line: 2070, col: 43, offset: 66698},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2057, col: 5, offset: 66370},
+							pos:   position{line: 2076, col: 5, offset: 66827},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2057, col: 15, offset: 66380},
+								pos:  position{line: 2076, col: 15, offset: 66837},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2053, col: 41, offset: 66287},
+							pos:        position{line: 2072, col: 41, offset: 66744},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -41379,44 +41422,61 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2062, col: 1, offset: 66555},
-			expr: &oneOrMoreExpr{
-				pos: position{line: 2062, col: 37, offset: 66591},
-				expr: &ruleRefExpr{
-					pos:  position{line: 2062, col: 37, offset: 66591},
-					name: "DoubleQuoteMonospaceTextElement",
+			pos:  position{line: 2081, col: 1, offset: 67012},
+			expr: &actionExpr{
+				pos: position{line: 2082, col: 5, offset: 67085},
+				run: (*parser).callonDoubleQuoteMonospaceTextElements1,
+				expr: &seqExpr{
+					pos: position{line: 2082, col: 5, offset: 67085},
+					exprs: []interface{}{
+						&stateCodeExpr{
+							pos: position{line: 2082, col: 5, offset: 67085},
+							run: (*parser).callonDoubleQuoteMonospaceTextElements3,
+						},
+						&labeledExpr{
+							pos:   position{line: 2086, col: 5, offset: 67205},
+							label: "elements",
+							expr: &oneOrMoreExpr{
+								pos: position{line: 2086, col: 14, offset: 67214},
+								expr: &ruleRefExpr{
+									pos:  position{line: 2086, col: 15, offset: 67215},
+									name: "DoubleQuoteMonospaceTextElement",
+								},
+							},
+						},
+					},
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2064, col: 1, offset: 66658},
+			pos:  position{line: 2090, col: 1, offset: 67287},
 			expr: &actionExpr{
-				pos: position{line: 2065, col: 5, offset: 66698},
+				pos: position{line: 2091, col: 5, offset: 67327},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2065, col: 5, offset: 66698},
+					pos: position{line: 2091, col: 5, offset: 67327},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2917, col: 11, offset: 91788},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2917, col: 13, offset: 91790,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2066, col: 5, offset: 66709},
+							pos: position{line: 2092, col: 5, offset: 67338},
 							expr: &litMatcher{
-								pos:        position{line: 2053, col: 41, offset: 66287},
+								pos:        position{line: 2072, col: 41, offset: 66744},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2067, col: 5, offset: 66751},
+							pos:   position{line: 2093, col: 5, offset: 67380},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2067, col: 14, offset: 66760},
+								pos:  position{line: 2093, col: 14, offset: 67389},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41426,33 +41486,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2085, col: 1, offset: 67302},
+			pos:  position{line: 2111, col: 1, offset: 67931},
 			expr: &seqExpr{
-				pos: position{line: 2086, col: 5, offset: 67347},
+				pos: position{line: 2112, col: 5, offset: 67976},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2086, col: 5, offset: 67347},
+						pos: position{line: 2112, col: 5, offset: 67976},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2086, col: 6, offset: 67348},
+							pos:  position{line: 2112, col: 6, offset: 67977},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2087, col: 5, offset: 67367},
+						pos:        position{line: 2113, col: 5, offset: 67996},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2088, col: 5, offset: 67375},
+						pos: position{line: 2114, col: 5, offset: 68004},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2092, col: 5, offset: 67489},
+						pos: position{line: 2118, col: 5, offset: 68118},
 						expr: &notExpr{
-							pos: position{line: 2092, col: 7, offset: 67491},
+							pos: position{line: 2118, col: 7, offset: 68120},
 							expr: &charClassMatcher{
-								pos:        position{line: 2742, col: 13, offset: 87334},
+								pos:        position{line: 2790, col: 13, offset: 88549},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -41465,29 +41525,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2095, col: 1, offset: 67508},
+			pos:  position{line: 2121, col: 1, offset: 68137},
 			expr: &actionExpr{
-				pos: position{line: 2096, col: 5, offset: 67541},
+				pos: position{line: 2122, col: 5, offset: 68170},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2096, col: 5, offset: 67541},
+					pos: position{line: 2122, col: 5, offset: 68170},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2078, col: 5, offset: 67104},
+							pos:        position{line: 2104, col: 5, offset: 67733},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2079, col: 5, offset: 67113},
+							pos: position{line: 2105, col: 5, offset: 67742},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2083, col: 5, offset: 67236},
+							pos: position{line: 2109, col: 5, offset: 67865},
 							expr: &notExpr{
-								pos: position{line: 2083, col: 7, offset: 67238},
+								pos: position{line: 2109, col: 7, offset: 67867},
 								expr: &litMatcher{
-									pos:        position{line: 2083, col: 8, offset: 67239},
+									pos:        position{line: 2109, col: 8, offset: 67868},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41495,15 +41555,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2097, col: 5, offset: 67585},
+							pos:   position{line: 2123, col: 5, offset: 68214},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2097, col: 15, offset: 67595},
+								pos:  position{line: 2123, col: 15, offset: 68224},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2098, col: 5, offset: 67634},
+							pos:  position{line: 2124, col: 5, offset: 68263},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -41512,20 +41572,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2102, col: 1, offset: 67771},
+			pos:  position{line: 2128, col: 1, offset: 68400},
 			expr: &actionExpr{
-				pos: position{line: 2103, col: 5, offset: 67812},
+				pos: position{line: 2129, col: 5, offset: 68441},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2103, col: 5, offset: 67812},
+					pos: position{line: 2129, col: 5, offset: 68441},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2103, col: 5, offset: 67812},
+							pos: position{line: 2129, col: 5, offset: 68441},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2900, col: 10, offset: 91454},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2900, col: 10, offset: 91454},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41534,18 +41594,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2104, col: 5, offset: 67851},
+							pos:   position{line: 2130, col: 5, offset: 68480},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2104, col: 14, offset: 67860},
+								pos: position{line: 2130, col: 14, offset: 68489},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2104, col: 15, offset: 67861},
+									pos:  position{line: 2130, col: 15, offset: 68490},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2105, col: 5, offset: 67899},
+							pos: position{line: 2131, col: 5, offset: 68528},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -41554,31 +41614,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2111, col: 1, offset: 68040},
+			pos:  position{line: 2137, col: 1, offset: 68669},
 			expr: &actionExpr{
-				pos: position{line: 2112, col: 5, offset: 68080},
+				pos: position{line: 2138, col: 5, offset: 68709},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2112, col: 5, offset: 68080},
+					pos: position{line: 2138, col: 5, offset: 68709},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2917, col: 11, offset: 91788},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2917, col: 13, offset: 91790,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2113, col: 5, offset: 68091},
+							pos: position{line: 2139, col: 5, offset: 68720},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2113, col: 6, offset: 68092},
+								pos:  position{line: 2139, col: 6, offset: 68721},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2114, col: 5, offset: 68133},
+							pos:   position{line: 2140, col: 5, offset: 68762},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2114, col: 14, offset: 68142},
+								pos:  position{line: 2140, col: 14, offset: 68771},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41588,35 +41648,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2119, col: 1, offset: 68230},
+			pos:  position{line: 2145, col: 1, offset: 68859},
 			expr: &choiceExpr{
-				pos: position{line: 2121, col: 5, offset: 68301},
+				pos: position{line: 2147, col: 5, offset: 68930},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2121, col: 5, offset: 68301},
+						pos: position{line: 2147, col: 5, offset: 68930},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2121, col: 5, offset: 68301},
+							pos: position{line: 2147, col: 5, offset: 68930},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2121, col: 5, offset: 68301},
+									pos:   position{line: 2147, col: 5, offset: 68930},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59496},
+										pos: position{line: 1850, col: 25, offset: 59612},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59496},
+											pos: position{line: 1850, col: 25, offset: 59612},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59496},
+													pos:        position{line: 1850, col: 25, offset: 59612},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59501},
+													pos: position{line: 1850, col: 30, offset: 59617},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59501},
+														pos:        position{line: 1850, col: 30, offset: 59617},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41627,21 +41687,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2121, col: 40, offset: 68336},
+									pos:        position{line: 2147, col: 40, offset: 68965},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2121, col: 45, offset: 68341},
+									pos:   position{line: 2147, col: 45, offset: 68970},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2121, col: 55, offset: 68351},
+										pos:  position{line: 2147, col: 55, offset: 68980},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2121, col: 89, offset: 68385},
+									pos:        position{line: 2147, col: 89, offset: 69014},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -41650,21 +41710,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2125, col: 7, offset: 68554},
+						pos: position{line: 2151, col: 7, offset: 69183},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2125, col: 7, offset: 68554},
+							pos: position{line: 2151, col: 7, offset: 69183},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2125, col: 7, offset: 68554},
+									pos:   position{line: 2151, col: 7, offset: 69183},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1846, col: 25, offset: 59539},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1846, col: 25, offset: 59539},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1846, col: 25, offset: 59539},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41673,21 +41733,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2125, col: 42, offset: 68589},
+									pos:        position{line: 2151, col: 42, offset: 69218},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2125, col: 47, offset: 68594},
+									pos:   position{line: 2151, col: 47, offset: 69223},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2125, col: 57, offset: 68604},
+										pos:  position{line: 2151, col: 57, offset: 69233},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2125, col: 91, offset: 68638},
+									pos:        position{line: 2151, col: 91, offset: 69267},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41696,21 +41756,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2130, col: 7, offset: 68844},
+						pos: position{line: 2156, col: 7, offset: 69473},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2130, col: 7, offset: 68844},
+							pos: position{line: 2156, col: 7, offset: 69473},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2130, col: 7, offset: 68844},
+									pos:   position{line: 2156, col: 7, offset: 69473},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1846, col: 25, offset: 59539},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1846, col: 25, offset: 59539},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1846, col: 25, offset: 59539},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41719,21 +41779,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2130, col: 42, offset: 68879},
+									pos:        position{line: 2156, col: 42, offset: 69508},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2130, col: 46, offset: 68883},
+									pos:   position{line: 2156, col: 46, offset: 69512},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2130, col: 56, offset: 68893},
+										pos:  position{line: 2156, col: 56, offset: 69522},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2130, col: 90, offset: 68927},
+									pos:        position{line: 2156, col: 90, offset: 69556},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41746,29 +41806,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2147, col: 1, offset: 69412},
+			pos:  position{line: 2173, col: 1, offset: 70041},
 			expr: &actionExpr{
-				pos: position{line: 2148, col: 5, offset: 69442},
+				pos: position{line: 2174, col: 5, offset: 70071},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2148, col: 5, offset: 69442},
+					pos: position{line: 2174, col: 5, offset: 70071},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2143, col: 40, offset: 69363},
+							pos:        position{line: 2169, col: 40, offset: 69992},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2149, col: 5, offset: 69483},
+							pos:   position{line: 2175, col: 5, offset: 70112},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2149, col: 15, offset: 69493},
+								pos:  position{line: 2175, col: 15, offset: 70122},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2145, col: 38, offset: 69406},
+							pos:        position{line: 2171, col: 38, offset: 70035},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -41779,44 +41839,61 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2154, col: 1, offset: 69659},
-			expr: &zeroOrMoreExpr{
-				pos: position{line: 2154, col: 34, offset: 69692},
-				expr: &ruleRefExpr{
-					pos:  position{line: 2154, col: 34, offset: 69692},
-					name: "DoubleQuoteMarkedTextElement",
+			pos:  position{line: 2180, col: 1, offset: 70288},
+			expr: &actionExpr{
+				pos: position{line: 2181, col: 5, offset: 70325},
+				run: (*parser).callonDoubleQuoteMarkedTextElements1,
+				expr: &seqExpr{
+					pos: position{line: 2181, col: 5, offset: 70325},
+					exprs: []interface{}{
+						&stateCodeExpr{
+							pos: position{line: 2181, col: 5, offset: 70325},
+							run: (*parser).callonDoubleQuoteMarkedTextElements3,
+						},
+						&labeledExpr{
+							pos:   position{line: 2185, col: 5, offset: 70445},
+							label: "elements",
+							expr: &zeroOrMoreExpr{
+								pos: position{line: 2185, col: 14, offset: 70454},
+								expr: &ruleRefExpr{
+									pos:  position{line: 2185, col: 15, offset: 70455},
+									name: "DoubleQuoteMarkedTextElement",
+								},
+							},
+						},
+					},
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2156, col: 1, offset: 69723},
+			pos:  position{line: 2189, col: 1, offset: 70524},
 			expr: &actionExpr{
-				pos: position{line: 2157, col: 5, offset: 69792},
+				pos: position{line: 2190, col: 5, offset: 70593},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2157, col: 5, offset: 69792},
+					pos: position{line: 2190, col: 5, offset: 70593},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2917, col: 11, offset: 91788},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2917, col: 13, offset: 91790,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2158, col: 5, offset: 69803},
+							pos: position{line: 2191, col: 5, offset: 70604},
 							expr: &litMatcher{
-								pos:        position{line: 2145, col: 38, offset: 69406},
+								pos:        position{line: 2171, col: 38, offset: 70035},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2159, col: 5, offset: 69842},
+							pos:   position{line: 2192, col: 5, offset: 70643},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2159, col: 14, offset: 69851},
+								pos:  position{line: 2192, col: 14, offset: 70652},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41826,29 +41903,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2184, col: 1, offset: 70533},
+			pos:  position{line: 2217, col: 1, offset: 71334},
 			expr: &actionExpr{
-				pos: position{line: 2185, col: 5, offset: 70563},
+				pos: position{line: 2218, col: 5, offset: 71364},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2185, col: 5, offset: 70563},
+					pos: position{line: 2218, col: 5, offset: 71364},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2168, col: 5, offset: 70099},
+							pos:        position{line: 2201, col: 5, offset: 70900},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2169, col: 5, offset: 70108},
+							pos: position{line: 2202, col: 5, offset: 70909},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2173, col: 5, offset: 70228},
+							pos: position{line: 2206, col: 5, offset: 71029},
 							expr: &notExpr{
-								pos: position{line: 2173, col: 7, offset: 70230},
+								pos: position{line: 2206, col: 7, offset: 71031},
 								expr: &litMatcher{
-									pos:        position{line: 2173, col: 8, offset: 70231},
+									pos:        position{line: 2206, col: 8, offset: 71032},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -41856,38 +41933,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2186, col: 5, offset: 70603},
+							pos:   position{line: 2219, col: 5, offset: 71404},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2186, col: 15, offset: 70613},
+								pos:  position{line: 2219, col: 15, offset: 71414},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2176, col: 5, offset: 70336},
+							pos:        position{line: 2209, col: 5, offset: 71137},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2177, col: 5, offset: 70344},
+							pos: position{line: 2210, col: 5, offset: 71145},
 							expr: &litMatcher{
-								pos:        position{line: 2177, col: 6, offset: 70345},
+								pos:        position{line: 2210, col: 6, offset: 71146},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2178, col: 5, offset: 70408},
+							pos: position{line: 2211, col: 5, offset: 71209},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2182, col: 5, offset: 70519},
+							pos: position{line: 2215, col: 5, offset: 71320},
 							expr: &notExpr{
-								pos: position{line: 2182, col: 7, offset: 70521},
+								pos: position{line: 2215, col: 7, offset: 71322},
 								expr: &charClassMatcher{
-									pos:        position{line: 2742, col: 13, offset: 87334},
+									pos:        position{line: 2790, col: 13, offset: 88549},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41901,20 +41978,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2191, col: 1, offset: 70780},
+			pos:  position{line: 2224, col: 1, offset: 71581},
 			expr: &actionExpr{
-				pos: position{line: 2192, col: 5, offset: 70818},
+				pos: position{line: 2225, col: 5, offset: 71619},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2192, col: 5, offset: 70818},
+					pos: position{line: 2225, col: 5, offset: 71619},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2192, col: 5, offset: 70818},
+							pos: position{line: 2225, col: 5, offset: 71619},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2900, col: 10, offset: 91454},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2900, col: 10, offset: 91454},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41923,18 +42000,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2193, col: 5, offset: 70857},
+							pos:   position{line: 2226, col: 5, offset: 71658},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2193, col: 14, offset: 70866},
+								pos: position{line: 2226, col: 14, offset: 71667},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2193, col: 15, offset: 70867},
+									pos:  position{line: 2226, col: 15, offset: 71668},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2194, col: 5, offset: 70903},
+							pos: position{line: 2227, col: 5, offset: 71704},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -41943,49 +42020,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2200, col: 1, offset: 71044},
+			pos:  position{line: 2233, col: 1, offset: 71845},
 			expr: &actionExpr{
-				pos: position{line: 2201, col: 5, offset: 71081},
+				pos: position{line: 2234, col: 5, offset: 71882},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2201, col: 5, offset: 71081},
+					pos: position{line: 2234, col: 5, offset: 71882},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2917, col: 11, offset: 91788},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2917, col: 13, offset: 91790,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2202, col: 5, offset: 71092},
+							pos: position{line: 2235, col: 5, offset: 71893},
 							expr: &seqExpr{
-								pos: position{line: 2176, col: 5, offset: 70336},
+								pos: position{line: 2209, col: 5, offset: 71137},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2176, col: 5, offset: 70336},
+										pos:        position{line: 2209, col: 5, offset: 71137},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2177, col: 5, offset: 70344},
+										pos: position{line: 2210, col: 5, offset: 71145},
 										expr: &litMatcher{
-											pos:        position{line: 2177, col: 6, offset: 70345},
+											pos:        position{line: 2210, col: 6, offset: 71146},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2178, col: 5, offset: 70408},
+										pos: position{line: 2211, col: 5, offset: 71209},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2182, col: 5, offset: 70519},
+										pos: position{line: 2215, col: 5, offset: 71320},
 										expr: &notExpr{
-											pos: position{line: 2182, col: 7, offset: 70521},
+											pos: position{line: 2215, col: 7, offset: 71322},
 											expr: &charClassMatcher{
-												pos:        position{line: 2742, col: 13, offset: 87334},
+												pos:        position{line: 2790, col: 13, offset: 88549},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41997,10 +42074,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2203, col: 5, offset: 71131},
+							pos:   position{line: 2236, col: 5, offset: 71932},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2203, col: 14, offset: 71140},
+								pos:  position{line: 2236, col: 14, offset: 71941},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42010,35 +42087,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2208, col: 1, offset: 71228},
+			pos:  position{line: 2241, col: 1, offset: 72029},
 			expr: &choiceExpr{
-				pos: position{line: 2210, col: 5, offset: 71292},
+				pos: position{line: 2243, col: 5, offset: 72093},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2210, col: 5, offset: 71292},
+						pos: position{line: 2243, col: 5, offset: 72093},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2210, col: 5, offset: 71292},
+							pos: position{line: 2243, col: 5, offset: 72093},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2210, col: 5, offset: 71292},
+									pos:   position{line: 2243, col: 5, offset: 72093},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59496},
+										pos: position{line: 1850, col: 25, offset: 59612},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59496},
+											pos: position{line: 1850, col: 25, offset: 59612},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59496},
+													pos:        position{line: 1850, col: 25, offset: 59612},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59501},
+													pos: position{line: 1850, col: 30, offset: 59617},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59501},
+														pos:        position{line: 1850, col: 30, offset: 59617},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42049,21 +42126,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2210, col: 40, offset: 71327},
+									pos:        position{line: 2243, col: 40, offset: 72128},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2210, col: 45, offset: 71332},
+									pos:   position{line: 2243, col: 45, offset: 72133},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2210, col: 55, offset: 71342},
+										pos:  position{line: 2243, col: 55, offset: 72143},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2210, col: 86, offset: 71373},
+									pos:        position{line: 2243, col: 86, offset: 72174},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -42072,21 +42149,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2214, col: 7, offset: 71538},
+						pos: position{line: 2247, col: 7, offset: 72339},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2214, col: 7, offset: 71538},
+							pos: position{line: 2247, col: 7, offset: 72339},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2214, col: 7, offset: 71538},
+									pos:   position{line: 2247, col: 7, offset: 72339},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1846, col: 25, offset: 59539},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1846, col: 25, offset: 59539},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1846, col: 25, offset: 59539},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42095,21 +42172,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2214, col: 42, offset: 71573},
+									pos:        position{line: 2247, col: 42, offset: 72374},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2214, col: 47, offset: 71578},
+									pos:   position{line: 2247, col: 47, offset: 72379},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2214, col: 57, offset: 71588},
+										pos:  position{line: 2247, col: 57, offset: 72389},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2214, col: 88, offset: 71619},
+									pos:        position{line: 2247, col: 88, offset: 72420},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42118,21 +42195,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2219, col: 7, offset: 71822},
+						pos: position{line: 2252, col: 7, offset: 72623},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2219, col: 7, offset: 71822},
+							pos: position{line: 2252, col: 7, offset: 72623},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2219, col: 7, offset: 71822},
+									pos:   position{line: 2252, col: 7, offset: 72623},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1846, col: 25, offset: 59539},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1846, col: 25, offset: 59539},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1846, col: 25, offset: 59539},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42141,21 +42218,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2219, col: 42, offset: 71857},
+									pos:        position{line: 2252, col: 42, offset: 72658},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2219, col: 46, offset: 71861},
+									pos:   position{line: 2252, col: 46, offset: 72662},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2219, col: 56, offset: 71871},
+										pos:  position{line: 2252, col: 56, offset: 72672},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2219, col: 87, offset: 71902},
+									pos:        position{line: 2252, col: 87, offset: 72703},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42168,29 +42245,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2226, col: 1, offset: 72169},
+			pos:  position{line: 2259, col: 1, offset: 72970},
 			expr: &actionExpr{
-				pos: position{line: 2227, col: 5, offset: 72191},
+				pos: position{line: 2260, col: 5, offset: 72992},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2227, col: 5, offset: 72191},
+					pos: position{line: 2260, col: 5, offset: 72992},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72406},
+							pos:        position{line: 2266, col: 27, offset: 73207},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2228, col: 5, offset: 72218},
+							pos:   position{line: 2261, col: 5, offset: 73019},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2228, col: 14, offset: 72227},
+								pos:  position{line: 2261, col: 14, offset: 73028},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72406},
+							pos:        position{line: 2266, col: 27, offset: 73207},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42201,25 +42278,42 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2235, col: 1, offset: 72411},
-			expr: &choiceExpr{
-				pos: position{line: 2235, col: 25, offset: 72435},
-				alternatives: []interface{}{
-					&ruleRefExpr{
-						pos:  position{line: 2235, col: 25, offset: 72435},
-						name: "QuotedText",
-					},
-					&actionExpr{
-						pos: position{line: 2237, col: 21, offset: 72487},
-						run: (*parser).callonSubscriptTextElement3,
-						expr: &oneOrMoreExpr{
-							pos: position{line: 2237, col: 21, offset: 72487},
-							expr: &charClassMatcher{
-								pos:        position{line: 2237, col: 21, offset: 72487},
-								val:        "[^\\r\\n ~]",
-								chars:      []rune{'\r', '\n', ' ', '~'},
-								ignoreCase: false,
-								inverted:   true,
+			pos:  position{line: 2268, col: 1, offset: 73212},
+			expr: &actionExpr{
+				pos: position{line: 2269, col: 5, offset: 73240},
+				run: (*parser).callonSubscriptTextElement1,
+				expr: &seqExpr{
+					pos: position{line: 2269, col: 5, offset: 73240},
+					exprs: []interface{}{
+						&stateCodeExpr{
+							pos: position{line: 2269, col: 5, offset: 73240},
+							run: (*parser).callonSubscriptTextElement3,
+						},
+						&labeledExpr{
+							pos:   position{line: 2273, col: 5, offset: 73360},
+							label: "element",
+							expr: &choiceExpr{
+								pos: position{line: 2273, col: 14, offset: 73369},
+								alternatives: []interface{}{
+									&ruleRefExpr{
+										pos:  position{line: 2273, col: 14, offset: 73369},
+										name: "QuotedText",
+									},
+									&actionExpr{
+										pos: position{line: 2277, col: 21, offset: 73457},
+										run: (*parser).callonSubscriptTextElement7,
+										expr: &oneOrMoreExpr{
+											pos: position{line: 2277, col: 21, offset: 73457},
+											expr: &charClassMatcher{
+												pos:        position{line: 2277, col: 21, offset: 73457},
+												val:        "[^\\r\\n ~]",
+												chars:      []rune{'\r', '\n', ' ', '~'},
+												ignoreCase: false,
+												inverted:   true,
+											},
+										},
+									},
+								},
 							},
 						},
 					},
@@ -42228,23 +42322,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2241, col: 1, offset: 72572},
+			pos:  position{line: 2281, col: 1, offset: 73542},
 			expr: &actionExpr{
-				pos: position{line: 2243, col: 5, offset: 72639},
+				pos: position{line: 2283, col: 5, offset: 73609},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2243, col: 5, offset: 72639},
+					pos: position{line: 2283, col: 5, offset: 73609},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2243, col: 5, offset: 72639},
+							pos:   position{line: 2283, col: 5, offset: 73609},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1841, col: 25, offset: 59423},
+								pos: position{line: 1846, col: 25, offset: 59539},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1841, col: 25, offset: 59423},
+									pos: position{line: 1846, col: 25, offset: 59539},
 									expr: &litMatcher{
-										pos:        position{line: 1841, col: 25, offset: 59423},
+										pos:        position{line: 1846, col: 25, offset: 59539},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42253,21 +42347,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72406},
+							pos:        position{line: 2266, col: 27, offset: 73207},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2245, col: 5, offset: 72707},
+							pos:   position{line: 2285, col: 5, offset: 73677},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2245, col: 14, offset: 72716},
+								pos:  position{line: 2285, col: 14, offset: 73686},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72406},
+							pos:        position{line: 2266, col: 27, offset: 73207},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42278,29 +42372,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2253, col: 1, offset: 72979},
+			pos:  position{line: 2293, col: 1, offset: 73949},
 			expr: &actionExpr{
-				pos: position{line: 2254, col: 5, offset: 73003},
+				pos: position{line: 2294, col: 5, offset: 73973},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2254, col: 5, offset: 73003},
+					pos: position{line: 2294, col: 5, offset: 73973},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73230},
+							pos:        position{line: 2300, col: 29, offset: 74200},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2255, col: 5, offset: 73033},
+							pos:   position{line: 2295, col: 5, offset: 74003},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2255, col: 14, offset: 73042},
+								pos:  position{line: 2295, col: 14, offset: 74012},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73230},
+							pos:        position{line: 2300, col: 29, offset: 74200},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42311,25 +42405,42 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2262, col: 1, offset: 73235},
-			expr: &choiceExpr{
-				pos: position{line: 2262, col: 27, offset: 73261},
-				alternatives: []interface{}{
-					&ruleRefExpr{
-						pos:  position{line: 2262, col: 27, offset: 73261},
-						name: "QuotedText",
-					},
-					&actionExpr{
-						pos: position{line: 2264, col: 23, offset: 73317},
-						run: (*parser).callonSuperscriptTextElement3,
-						expr: &oneOrMoreExpr{
-							pos: position{line: 2264, col: 23, offset: 73317},
-							expr: &charClassMatcher{
-								pos:        position{line: 2264, col: 23, offset: 73317},
-								val:        "[^\\r\\n ^]",
-								chars:      []rune{'\r', '\n', ' ', '^'},
-								ignoreCase: false,
-								inverted:   true,
+			pos:  position{line: 2302, col: 1, offset: 74205},
+			expr: &actionExpr{
+				pos: position{line: 2303, col: 5, offset: 74235},
+				run: (*parser).callonSuperscriptTextElement1,
+				expr: &seqExpr{
+					pos: position{line: 2303, col: 5, offset: 74235},
+					exprs: []interface{}{
+						&stateCodeExpr{
+							pos: position{line: 2303, col: 5, offset: 74235},
+							run: (*parser).callonSuperscriptTextElement3,
+						},
+						&labeledExpr{
+							pos:   position{line: 2307, col: 5, offset: 74355},
+							label: "element",
+							expr: &choiceExpr{
+								pos: position{line: 2307, col: 14, offset: 74364},
+								alternatives: []interface{}{
+									&ruleRefExpr{
+										pos:  position{line: 2307, col: 14, offset: 74364},
+										name: "QuotedText",
+									},
+									&actionExpr{
+										pos: position{line: 2311, col: 23, offset: 74456},
+										run: (*parser).callonSuperscriptTextElement7,
+										expr: &oneOrMoreExpr{
+											pos: position{line: 2311, col: 23, offset: 74456},
+											expr: &charClassMatcher{
+												pos:        position{line: 2311, col: 23, offset: 74456},
+												val:        "[^\\r\\n ^]",
+												chars:      []rune{'\r', '\n', ' ', '^'},
+												ignoreCase: false,
+												inverted:   true,
+											},
+										},
+									},
+								},
 							},
 						},
 					},
@@ -42338,23 +42449,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2268, col: 1, offset: 73402},
+			pos:  position{line: 2315, col: 1, offset: 74541},
 			expr: &actionExpr{
-				pos: position{line: 2270, col: 5, offset: 73474},
+				pos: position{line: 2317, col: 5, offset: 74613},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2270, col: 5, offset: 73474},
+					pos: position{line: 2317, col: 5, offset: 74613},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2270, col: 5, offset: 73474},
+							pos:   position{line: 2317, col: 5, offset: 74613},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1841, col: 25, offset: 59423},
+								pos: position{line: 1846, col: 25, offset: 59539},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1841, col: 25, offset: 59423},
+									pos: position{line: 1846, col: 25, offset: 59539},
 									expr: &litMatcher{
-										pos:        position{line: 1841, col: 25, offset: 59423},
+										pos:        position{line: 1846, col: 25, offset: 59539},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42363,21 +42474,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73230},
+							pos:        position{line: 2300, col: 29, offset: 74200},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2272, col: 5, offset: 73544},
+							pos:   position{line: 2319, col: 5, offset: 74683},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2272, col: 14, offset: 73553},
+								pos:  position{line: 2319, col: 14, offset: 74692},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73230},
+							pos:        position{line: 2300, col: 29, offset: 74200},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42388,27 +42499,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2281, col: 1, offset: 74022},
+			pos:  position{line: 2328, col: 1, offset: 75161},
 			expr: &actionExpr{
-				pos: position{line: 2282, col: 5, offset: 74038},
+				pos: position{line: 2329, col: 5, offset: 75177},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2282, col: 5, offset: 74038},
+					pos: position{line: 2329, col: 5, offset: 75177},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2282, col: 5, offset: 74038},
+							pos: position{line: 2329, col: 5, offset: 75177},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2285, col: 5, offset: 74101},
+							pos:   position{line: 2332, col: 5, offset: 75240},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2285, col: 12, offset: 74108},
+								pos: position{line: 2332, col: 12, offset: 75247},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2285, col: 12, offset: 74108},
+									pos: position{line: 2332, col: 12, offset: 75247},
 									expr: &litMatcher{
-										pos:        position{line: 2285, col: 13, offset: 74109},
+										pos:        position{line: 2332, col: 13, offset: 75248},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -42417,16 +42528,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2289, col: 5, offset: 74217},
+							pos: position{line: 2336, col: 5, offset: 75356},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2856, col: 11, offset: 90300},
+							pos: position{line: 2904, col: 11, offset: 91515},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2856, col: 11, offset: 90300},
+								pos: position{line: 2904, col: 11, offset: 91515},
 								expr: &charClassMatcher{
-									pos:        position{line: 2856, col: 11, offset: 90300},
+									pos:        position{line: 2904, col: 11, offset: 91515},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42435,36 +42546,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2293, col: 12, offset: 74376},
+							pos:   position{line: 2340, col: 12, offset: 75515},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2293, col: 19, offset: 74383},
+								pos:  position{line: 2340, col: 19, offset: 75522},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2922, col: 8, offset: 91852},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2909, col: 12, offset: 91625},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2909, col: 13, offset: 91626},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2909, col: 13, offset: 91626},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2909, col: 20, offset: 91633},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2909, col: 29, offset: 91642},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -42473,9 +42584,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2919, col: 8, offset: 91802},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2919, col: 9, offset: 91803,
 									},
 								},
 							},
@@ -42486,24 +42597,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2297, col: 1, offset: 74479},
+			pos:  position{line: 2344, col: 1, offset: 75618},
 			expr: &actionExpr{
-				pos: position{line: 2298, col: 5, offset: 74500},
+				pos: position{line: 2345, col: 5, offset: 75639},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2298, col: 5, offset: 74500},
+					pos: position{line: 2345, col: 5, offset: 75639},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2298, col: 5, offset: 74500},
+							pos: position{line: 2345, col: 5, offset: 75639},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2303, col: 5, offset: 74615},
+							pos:   position{line: 2351, col: 5, offset: 75830},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2303, col: 14, offset: 74624},
+								pos: position{line: 2351, col: 14, offset: 75839},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2303, col: 15, offset: 74625},
+									pos:  position{line: 2351, col: 15, offset: 75840},
 									name: "SectionTitleElement",
 								},
 							},
@@ -42514,38 +42625,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2307, col: 1, offset: 74706},
+			pos:  position{line: 2355, col: 1, offset: 75921},
 			expr: &actionExpr{
-				pos: position{line: 2308, col: 5, offset: 74733},
+				pos: position{line: 2356, col: 5, offset: 75948},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2308, col: 5, offset: 74733},
+					pos: position{line: 2356, col: 5, offset: 75948},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2308, col: 5, offset: 74733},
+							pos: position{line: 2356, col: 5, offset: 75948},
 							expr: &choiceExpr{
-								pos: position{line: 2874, col: 8, offset: 90637},
+								pos: position{line: 2922, col: 8, offset: 91852},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90410},
+										pos: position{line: 2909, col: 12, offset: 91625},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2861, col: 13, offset: 90411},
+											pos: position{line: 2909, col: 13, offset: 91626},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2861, col: 13, offset: 90411},
+													pos:        position{line: 2909, col: 13, offset: 91626},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 20, offset: 90418},
+													pos:        position{line: 2909, col: 20, offset: 91633},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 29, offset: 90427},
+													pos:        position{line: 2909, col: 29, offset: 91642},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -42554,36 +42665,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2871, col: 8, offset: 90587},
+										pos: position{line: 2919, col: 8, offset: 91802},
 										expr: &anyMatcher{
-											line: 2871, col: 9, offset: 90588,
+											line: 2919, col: 9, offset: 91803,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2309, col: 5, offset: 74742},
+							pos:   position{line: 2357, col: 5, offset: 75957},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2310, col: 9, offset: 74760},
+								pos: position{line: 2358, col: 9, offset: 75975},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2751, col: 5, offset: 87481},
+										pos: position{line: 2799, col: 5, offset: 88696},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2751, col: 5, offset: 87481},
+											pos: position{line: 2799, col: 5, offset: 88696},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2751, col: 5, offset: 87481},
+													pos:   position{line: 2799, col: 5, offset: 88696},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2751, col: 11, offset: 87487},
+														pos: position{line: 2799, col: 11, offset: 88702},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2751, col: 11, offset: 87487},
+															pos: position{line: 2799, col: 11, offset: 88702},
 															expr: &charClassMatcher{
-																pos:        position{line: 2751, col: 11, offset: 87487},
+																pos:        position{line: 2799, col: 11, offset: 88702},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -42593,36 +42704,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2754, col: 5, offset: 87545},
+													pos: position{line: 2802, col: 5, offset: 88760},
 													expr: &seqExpr{
-														pos: position{line: 2755, col: 9, offset: 87556},
+														pos: position{line: 2803, col: 9, offset: 88771},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2755, col: 9, offset: 87556},
+																pos:        position{line: 2803, col: 9, offset: 88771},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2756, col: 9, offset: 87605},
+																pos: position{line: 2804, col: 9, offset: 88820},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2760, col: 5, offset: 87685},
+													pos: position{line: 2808, col: 5, offset: 88900},
 													expr: &seqExpr{
-														pos: position{line: 2761, col: 9, offset: 87696},
+														pos: position{line: 2809, col: 9, offset: 88911},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2761, col: 9, offset: 87696},
+																pos:        position{line: 2809, col: 9, offset: 88911},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2761, col: 13, offset: 87700},
+																pos:        position{line: 2809, col: 13, offset: 88915},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -42635,12 +42746,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2856, col: 11, offset: 90300},
+										pos: position{line: 2904, col: 11, offset: 91515},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2856, col: 11, offset: 90300},
+											pos: position{line: 2904, col: 11, offset: 91515},
 											expr: &charClassMatcher{
-												pos:        position{line: 2856, col: 11, offset: 90300},
+												pos:        position{line: 2904, col: 11, offset: 91515},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -42649,21 +42760,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2480, col: 5, offset: 79941},
+										pos: position{line: 2528, col: 5, offset: 81156},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2480, col: 5, offset: 79941},
+											pos: position{line: 2528, col: 5, offset: 81156},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2480, col: 5, offset: 79941},
+													pos:        position{line: 2528, col: 5, offset: 81156},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2480, col: 10, offset: 79946},
+													pos: position{line: 2528, col: 10, offset: 81161},
 													expr: &charClassMatcher{
-														pos:        position{line: 2480, col: 11, offset: 79947},
+														pos:        position{line: 2528, col: 11, offset: 81162},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -42674,29 +42785,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2486, col: 5, offset: 80139},
+										pos: position{line: 2534, col: 5, offset: 81354},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2486, col: 5, offset: 80139},
+											pos: position{line: 2534, col: 5, offset: 81354},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2486, col: 5, offset: 80139},
+													pos: position{line: 2534, col: 5, offset: 81354},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2489, col: 5, offset: 80210},
+													pos: position{line: 2537, col: 5, offset: 81425},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2493, col: 5, offset: 80335},
+													pos:        position{line: 2541, col: 5, offset: 81550},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2493, col: 9, offset: 80339},
+													pos: position{line: 2541, col: 9, offset: 81554},
 													expr: &charClassMatcher{
-														pos:        position{line: 2493, col: 10, offset: 80340},
+														pos:        position{line: 2541, col: 10, offset: 81555},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -42707,31 +42818,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2313, col: 11, offset: 74825},
+										pos:  position{line: 2361, col: 11, offset: 76040},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2769, col: 5, offset: 87893},
+										pos: position{line: 2817, col: 5, offset: 89108},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2770, col: 9, offset: 87903},
+											pos: position{line: 2818, col: 9, offset: 89118},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2770, col: 10, offset: 87904},
+													pos:        position{line: 2818, col: 10, offset: 89119},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2772, col: 13, offset: 88001},
+													pos: position{line: 2820, col: 13, offset: 89216},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2772, col: 13, offset: 88001},
+															pos: position{line: 2820, col: 13, offset: 89216},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2775, col: 13, offset: 88101},
+															pos:        position{line: 2823, col: 13, offset: 89316},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -42739,20 +42850,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2775, col: 19, offset: 88107},
+													pos:        position{line: 2823, col: 19, offset: 89322},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2778, col: 13, offset: 88145},
+													pos: position{line: 2826, col: 13, offset: 89360},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2778, col: 13, offset: 88145},
+															pos: position{line: 2826, col: 13, offset: 89360},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2781, col: 14, offset: 88238},
+															pos:        position{line: 2829, col: 14, offset: 89453},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -42761,18 +42872,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2783, col: 12, offset: 88282},
+													pos: position{line: 2831, col: 12, offset: 89497},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2783, col: 12, offset: 88282},
+															pos:        position{line: 2831, col: 12, offset: 89497},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2783, col: 16, offset: 88286},
+															pos: position{line: 2831, col: 16, offset: 89501},
 															expr: &litMatcher{
-																pos:        position{line: 2783, col: 17, offset: 88287},
+																pos:        position{line: 2831, col: 17, offset: 89502},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -42784,35 +42895,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2315, col: 11, offset: 74898},
+										pos:  position{line: 2363, col: 11, offset: 76113},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2316, col: 11, offset: 74914},
+										pos:  position{line: 2364, col: 11, offset: 76129},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2317, col: 11, offset: 74942},
+										pos:  position{line: 2365, col: 11, offset: 76157},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78770},
+										pos: position{line: 2497, col: 5, offset: 79985},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78770},
+											pos: position{line: 2497, col: 5, offset: 79985},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78770},
+													pos: position{line: 2497, col: 5, offset: 79985},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78846},
+													pos:   position{line: 2500, col: 5, offset: 80061},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78864},
+														pos: position{line: 2501, col: 9, offset: 80079},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78865},
+															pos:        position{line: 2501, col: 10, offset: 80080},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -42824,7 +42935,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2319, col: 11, offset: 75027},
+										pos:  position{line: 2367, col: 11, offset: 76242},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -43213,17 +43324,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2332, col: 5, offset: 75480},
+										pos: position{line: 2380, col: 5, offset: 76695},
 										run: (*parser).callonSectionTitleElement145,
 										expr: &seqExpr{
-											pos: position{line: 2332, col: 5, offset: 75480},
+											pos: position{line: 2380, col: 5, offset: 76695},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2332, col: 5, offset: 75480},
+													pos: position{line: 2380, col: 5, offset: 76695},
 													run: (*parser).callonSectionTitleElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2335, col: 5, offset: 75535},
+													pos:   position{line: 2383, col: 5, offset: 76750},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 404, col: 5, offset: 12337},
@@ -43677,12 +43788,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2335, col: 26, offset: 75556},
+													pos: position{line: 2383, col: 26, offset: 76771},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2900, col: 10, offset: 91454},
 														run: (*parser).callonSectionTitleElement241,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2900, col: 10, offset: 91454},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -43691,30 +43802,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2335, col: 33, offset: 75563},
+													pos: position{line: 2383, col: 33, offset: 76778},
 													expr: &choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2922, col: 8, offset: 91852},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2909, col: 12, offset: 91625},
 																run: (*parser).callonSectionTitleElement245,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2909, col: 13, offset: 91626},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2909, col: 13, offset: 91626},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2909, col: 20, offset: 91633},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2909, col: 29, offset: 91642},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -43723,9 +43834,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2919, col: 8, offset: 91802},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2919, col: 9, offset: 91803,
 																},
 															},
 														},
@@ -43750,12 +43861,12 @@ var g = &grammar{
 													pos:   position{line: 1253, col: 14, offset: 38741},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 7, offset: 89891},
+														pos: position{line: 2885, col: 7, offset: 91106},
 														run: (*parser).callonSectionTitleElement256,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2837, col: 7, offset: 89891},
+															pos: position{line: 2885, col: 7, offset: 91106},
 															expr: &charClassMatcher{
-																pos:        position{line: 2837, col: 7, offset: 89891},
+																pos:        position{line: 2885, col: 7, offset: 91106},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -43789,12 +43900,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 10, offset: 38873},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 7, offset: 89891},
+														pos: position{line: 2885, col: 7, offset: 91106},
 														run: (*parser).callonSectionTitleElement264,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2837, col: 7, offset: 89891},
+															pos: position{line: 2885, col: 7, offset: 91106},
 															expr: &charClassMatcher{
-																pos:        position{line: 2837, col: 7, offset: 89891},
+																pos:        position{line: 2885, col: 7, offset: 91106},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -43813,14 +43924,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2324, col: 11, offset: 75281},
+										pos:  position{line: 2372, col: 11, offset: 76496},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2791, col: 12, offset: 88547},
+										pos: position{line: 2839, col: 12, offset: 89762},
 										run: (*parser).callonSectionTitleElement269,
 										expr: &charClassMatcher{
-											pos:        position{line: 2791, col: 12, offset: 88547},
+											pos:        position{line: 2839, col: 12, offset: 89762},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -43836,52 +43947,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2345, col: 1, offset: 75825},
+			pos:  position{line: 2393, col: 1, offset: 77040},
 			expr: &actionExpr{
-				pos: position{line: 2346, col: 5, offset: 75912},
+				pos: position{line: 2394, col: 5, offset: 77127},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2346, col: 5, offset: 75912},
+					pos: position{line: 2394, col: 5, offset: 77127},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2346, col: 5, offset: 75912},
+							pos:   position{line: 2394, col: 5, offset: 77127},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2346, col: 14, offset: 75921},
+								pos: position{line: 2394, col: 14, offset: 77136},
 								expr: &actionExpr{
-									pos: position{line: 2348, col: 9, offset: 75947},
+									pos: position{line: 2396, col: 9, offset: 77162},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2348, col: 9, offset: 75947},
+										pos: position{line: 2396, col: 9, offset: 77162},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2869, col: 11, offset: 90573},
+												pos: position{line: 2917, col: 11, offset: 91788},
 												expr: &anyMatcher{
-													line: 2869, col: 13, offset: 90575,
+													line: 2917, col: 13, offset: 91790,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2349, col: 9, offset: 75962},
+												pos:   position{line: 2397, col: 9, offset: 77177},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2350, col: 13, offset: 75984},
+													pos: position{line: 2398, col: 13, offset: 77199},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2751, col: 5, offset: 87481},
+															pos: position{line: 2799, col: 5, offset: 88696},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2751, col: 5, offset: 87481},
+																pos: position{line: 2799, col: 5, offset: 88696},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2751, col: 5, offset: 87481},
+																		pos:   position{line: 2799, col: 5, offset: 88696},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2751, col: 11, offset: 87487},
+																			pos: position{line: 2799, col: 11, offset: 88702},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2751, col: 11, offset: 87487},
+																				pos: position{line: 2799, col: 11, offset: 88702},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2751, col: 11, offset: 87487},
+																					pos:        position{line: 2799, col: 11, offset: 88702},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -43891,36 +44002,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2754, col: 5, offset: 87545},
+																		pos: position{line: 2802, col: 5, offset: 88760},
 																		expr: &seqExpr{
-																			pos: position{line: 2755, col: 9, offset: 87556},
+																			pos: position{line: 2803, col: 9, offset: 88771},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2755, col: 9, offset: 87556},
+																					pos:        position{line: 2803, col: 9, offset: 88771},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2756, col: 9, offset: 87605},
+																					pos: position{line: 2804, col: 9, offset: 88820},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2760, col: 5, offset: 87685},
+																		pos: position{line: 2808, col: 5, offset: 88900},
 																		expr: &seqExpr{
-																			pos: position{line: 2761, col: 9, offset: 87696},
+																			pos: position{line: 2809, col: 9, offset: 88911},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2761, col: 9, offset: 87696},
+																					pos:        position{line: 2809, col: 9, offset: 88911},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2761, col: 13, offset: 87700},
+																					pos:        position{line: 2809, col: 13, offset: 88915},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -43933,12 +44044,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2856, col: 11, offset: 90300},
+															pos: position{line: 2904, col: 11, offset: 91515},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2856, col: 11, offset: 90300},
+																pos: position{line: 2904, col: 11, offset: 91515},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2856, col: 11, offset: 90300},
+																	pos:        position{line: 2904, col: 11, offset: 91515},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -43947,25 +44058,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2352, col: 15, offset: 76030},
+															pos:  position{line: 2400, col: 15, offset: 77245},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2480, col: 5, offset: 79941},
+															pos: position{line: 2528, col: 5, offset: 81156},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2480, col: 5, offset: 79941},
+																pos: position{line: 2528, col: 5, offset: 81156},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2480, col: 5, offset: 79941},
+																		pos:        position{line: 2528, col: 5, offset: 81156},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2480, col: 10, offset: 79946},
+																		pos: position{line: 2528, col: 10, offset: 81161},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2480, col: 11, offset: 79947},
+																			pos:        position{line: 2528, col: 11, offset: 81162},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -43976,29 +44087,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2486, col: 5, offset: 80139},
+															pos: position{line: 2534, col: 5, offset: 81354},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2486, col: 5, offset: 80139},
+																pos: position{line: 2534, col: 5, offset: 81354},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2486, col: 5, offset: 80139},
+																		pos: position{line: 2534, col: 5, offset: 81354},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2489, col: 5, offset: 80210},
+																		pos: position{line: 2537, col: 5, offset: 81425},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2493, col: 5, offset: 80335},
+																		pos:        position{line: 2541, col: 5, offset: 81550},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2493, col: 9, offset: 80339},
+																		pos: position{line: 2541, col: 9, offset: 81554},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2493, col: 10, offset: 80340},
+																			pos:        position{line: 2541, col: 10, offset: 81555},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44009,27 +44120,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2769, col: 5, offset: 87893},
+															pos: position{line: 2817, col: 5, offset: 89108},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2770, col: 9, offset: 87903},
+																pos: position{line: 2818, col: 9, offset: 89118},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2770, col: 10, offset: 87904},
+																		pos:        position{line: 2818, col: 10, offset: 89119},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2772, col: 13, offset: 88001},
+																		pos: position{line: 2820, col: 13, offset: 89216},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2772, col: 13, offset: 88001},
+																				pos: position{line: 2820, col: 13, offset: 89216},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2775, col: 13, offset: 88101},
+																				pos:        position{line: 2823, col: 13, offset: 89316},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -44037,20 +44148,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2775, col: 19, offset: 88107},
+																		pos:        position{line: 2823, col: 19, offset: 89322},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2778, col: 13, offset: 88145},
+																		pos: position{line: 2826, col: 13, offset: 89360},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2778, col: 13, offset: 88145},
+																				pos: position{line: 2826, col: 13, offset: 89360},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2781, col: 14, offset: 88238},
+																				pos:        position{line: 2829, col: 14, offset: 89453},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -44059,18 +44170,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2783, col: 12, offset: 88282},
+																		pos: position{line: 2831, col: 12, offset: 89497},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2783, col: 12, offset: 88282},
+																				pos:        position{line: 2831, col: 12, offset: 89497},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2783, col: 16, offset: 88286},
+																				pos: position{line: 2831, col: 16, offset: 89501},
 																				expr: &litMatcher{
-																					pos:        position{line: 2783, col: 17, offset: 88287},
+																					pos:        position{line: 2831, col: 17, offset: 89502},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -44082,25 +44193,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2909, col: 12, offset: 91625},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2909, col: 13, offset: 91626},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2909, col: 13, offset: 91626},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2909, col: 20, offset: 91633},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2909, col: 29, offset: 91642},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -44455,35 +44566,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2357, col: 15, offset: 76197},
+															pos:  position{line: 2405, col: 15, offset: 77412},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2358, col: 15, offset: 76217},
+															pos:  position{line: 2406, col: 15, offset: 77432},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2359, col: 15, offset: 76306},
+															pos:  position{line: 2407, col: 15, offset: 77521},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2449, col: 5, offset: 78770},
+															pos: position{line: 2497, col: 5, offset: 79985},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2449, col: 5, offset: 78770},
+																pos: position{line: 2497, col: 5, offset: 79985},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2449, col: 5, offset: 78770},
+																		pos: position{line: 2497, col: 5, offset: 79985},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2452, col: 5, offset: 78846},
+																		pos:   position{line: 2500, col: 5, offset: 80061},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2453, col: 9, offset: 78864},
+																			pos: position{line: 2501, col: 9, offset: 80079},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2453, col: 10, offset: 78865},
+																				pos:        position{line: 2501, col: 10, offset: 80080},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -44517,10 +44628,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1214, col: 5, offset: 37589},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2900, col: 10, offset: 91454},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2900, col: 10, offset: 91454},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -44531,28 +44642,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1214, col: 12, offset: 37596},
 																		expr: &choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2922, col: 8, offset: 91852},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2909, col: 12, offset: 91625},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2909, col: 13, offset: 91626},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2909, col: 13, offset: 91626},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2909, col: 20, offset: 91633},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2909, col: 29, offset: 91642},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -44561,9 +44672,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2919, col: 8, offset: 91802},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2919, col: 9, offset: 91803,
 																					},
 																				},
 																			},
@@ -44573,7 +44684,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2362, col: 15, offset: 76488},
+															pos:  position{line: 2410, col: 15, offset: 77703},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -44616,10 +44727,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2791, col: 12, offset: 88547},
+															pos: position{line: 2839, col: 12, offset: 89762},
 															run: (*parser).callonNormalGroup164,
 															expr: &charClassMatcher{
-																pos:        position{line: 2791, col: 12, offset: 88547},
+																pos:        position{line: 2839, col: 12, offset: 89762},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -44635,9 +44746,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2919, col: 8, offset: 91802},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2919, col: 9, offset: 91803,
 							},
 						},
 					},
@@ -44646,28 +44757,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2373, col: 1, offset: 76926},
+			pos:  position{line: 2421, col: 1, offset: 78141},
 			expr: &actionExpr{
-				pos: position{line: 2374, col: 5, offset: 76959},
+				pos: position{line: 2422, col: 5, offset: 78174},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2374, col: 5, offset: 76959},
+					pos: position{line: 2422, col: 5, offset: 78174},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2374, col: 5, offset: 76959},
+							pos:   position{line: 2422, col: 5, offset: 78174},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2374, col: 14, offset: 76968},
+								pos: position{line: 2422, col: 14, offset: 78183},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2374, col: 15, offset: 76969},
+									pos:  position{line: 2422, col: 15, offset: 78184},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2919, col: 8, offset: 91802},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2919, col: 9, offset: 91803,
 							},
 						},
 					},
@@ -44676,41 +44787,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2378, col: 1, offset: 77066},
+			pos:  position{line: 2426, col: 1, offset: 78281},
 			expr: &actionExpr{
-				pos: position{line: 2379, col: 5, offset: 77106},
+				pos: position{line: 2427, col: 5, offset: 78321},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2379, col: 5, offset: 77106},
+					pos: position{line: 2427, col: 5, offset: 78321},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2917, col: 11, offset: 91788},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2917, col: 13, offset: 91790,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2380, col: 5, offset: 77117},
+							pos:   position{line: 2428, col: 5, offset: 78332},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2381, col: 9, offset: 77135},
+								pos: position{line: 2429, col: 9, offset: 78350},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2751, col: 5, offset: 87481},
+										pos: position{line: 2799, col: 5, offset: 88696},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2751, col: 5, offset: 87481},
+											pos: position{line: 2799, col: 5, offset: 88696},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2751, col: 5, offset: 87481},
+													pos:   position{line: 2799, col: 5, offset: 88696},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2751, col: 11, offset: 87487},
+														pos: position{line: 2799, col: 11, offset: 88702},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2751, col: 11, offset: 87487},
+															pos: position{line: 2799, col: 11, offset: 88702},
 															expr: &charClassMatcher{
-																pos:        position{line: 2751, col: 11, offset: 87487},
+																pos:        position{line: 2799, col: 11, offset: 88702},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44720,36 +44831,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2754, col: 5, offset: 87545},
+													pos: position{line: 2802, col: 5, offset: 88760},
 													expr: &seqExpr{
-														pos: position{line: 2755, col: 9, offset: 87556},
+														pos: position{line: 2803, col: 9, offset: 88771},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2755, col: 9, offset: 87556},
+																pos:        position{line: 2803, col: 9, offset: 88771},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2756, col: 9, offset: 87605},
+																pos: position{line: 2804, col: 9, offset: 88820},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2760, col: 5, offset: 87685},
+													pos: position{line: 2808, col: 5, offset: 88900},
 													expr: &seqExpr{
-														pos: position{line: 2761, col: 9, offset: 87696},
+														pos: position{line: 2809, col: 9, offset: 88911},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2761, col: 9, offset: 87696},
+																pos:        position{line: 2809, col: 9, offset: 88911},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2761, col: 13, offset: 87700},
+																pos:        position{line: 2809, col: 13, offset: 88915},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44762,10 +44873,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2852, col: 10, offset: 90239},
+										pos: position{line: 2900, col: 10, offset: 91454},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2852, col: 10, offset: 90239},
+											pos:        position{line: 2900, col: 10, offset: 91454},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -44773,31 +44884,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2383, col: 11, offset: 77173},
+										pos:  position{line: 2431, col: 11, offset: 78388},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2769, col: 5, offset: 87893},
+										pos: position{line: 2817, col: 5, offset: 89108},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2770, col: 9, offset: 87903},
+											pos: position{line: 2818, col: 9, offset: 89118},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2770, col: 10, offset: 87904},
+													pos:        position{line: 2818, col: 10, offset: 89119},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2772, col: 13, offset: 88001},
+													pos: position{line: 2820, col: 13, offset: 89216},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2772, col: 13, offset: 88001},
+															pos: position{line: 2820, col: 13, offset: 89216},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2775, col: 13, offset: 88101},
+															pos:        position{line: 2823, col: 13, offset: 89316},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -44805,20 +44916,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2775, col: 19, offset: 88107},
+													pos:        position{line: 2823, col: 19, offset: 89322},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2778, col: 13, offset: 88145},
+													pos: position{line: 2826, col: 13, offset: 89360},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2778, col: 13, offset: 88145},
+															pos: position{line: 2826, col: 13, offset: 89360},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2781, col: 14, offset: 88238},
+															pos:        position{line: 2829, col: 14, offset: 89453},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -44827,18 +44938,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2783, col: 12, offset: 88282},
+													pos: position{line: 2831, col: 12, offset: 89497},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2783, col: 12, offset: 88282},
+															pos:        position{line: 2831, col: 12, offset: 89497},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2783, col: 16, offset: 88286},
+															pos: position{line: 2831, col: 16, offset: 89501},
 															expr: &litMatcher{
-																pos:        position{line: 2783, col: 17, offset: 88287},
+																pos:        position{line: 2831, col: 17, offset: 89502},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -44850,31 +44961,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2385, col: 11, offset: 77246},
+										pos:  position{line: 2433, col: 11, offset: 78461},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2386, col: 11, offset: 77262},
+										pos:  position{line: 2434, col: 11, offset: 78477},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78770},
+										pos: position{line: 2497, col: 5, offset: 79985},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78770},
+											pos: position{line: 2497, col: 5, offset: 79985},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78770},
+													pos: position{line: 2497, col: 5, offset: 79985},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78846},
+													pos:   position{line: 2500, col: 5, offset: 80061},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78864},
+														pos: position{line: 2501, col: 9, offset: 80079},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78865},
+															pos:        position{line: 2501, col: 10, offset: 80080},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -44925,25 +45036,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90410},
+										pos: position{line: 2909, col: 12, offset: 91625},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2861, col: 13, offset: 90411},
+											pos: position{line: 2909, col: 13, offset: 91626},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2861, col: 13, offset: 90411},
+													pos:        position{line: 2909, col: 13, offset: 91626},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 20, offset: 90418},
+													pos:        position{line: 2909, col: 20, offset: 91633},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 29, offset: 90427},
+													pos:        position{line: 2909, col: 29, offset: 91642},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44952,10 +45063,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2791, col: 12, offset: 88547},
+										pos: position{line: 2839, col: 12, offset: 89762},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2791, col: 12, offset: 88547},
+											pos:        position{line: 2839, col: 12, offset: 89762},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -44971,49 +45082,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2397, col: 1, offset: 77532},
+			pos:  position{line: 2445, col: 1, offset: 78747},
 			expr: &actionExpr{
-				pos: position{line: 2399, col: 5, offset: 77614},
+				pos: position{line: 2447, col: 5, offset: 78829},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2399, col: 5, offset: 77614},
+					pos: position{line: 2447, col: 5, offset: 78829},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2399, col: 5, offset: 77614},
+							pos: position{line: 2447, col: 5, offset: 78829},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2402, col: 5, offset: 77679},
+							pos:   position{line: 2450, col: 5, offset: 78894},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2403, col: 9, offset: 77697},
+								pos: position{line: 2451, col: 9, offset: 78912},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2403, col: 9, offset: 77697},
+										pos:  position{line: 2451, col: 9, offset: 78912},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2404, col: 11, offset: 77718},
+										pos:  position{line: 2452, col: 11, offset: 78933},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2405, col: 11, offset: 77741},
+										pos:  position{line: 2453, col: 11, offset: 78956},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2406, col: 11, offset: 77757},
+										pos:  position{line: 2454, col: 11, offset: 78972},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2407, col: 11, offset: 77786},
+										pos:  position{line: 2455, col: 11, offset: 79001},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2408, col: 11, offset: 77812},
+										pos:  position{line: 2456, col: 11, offset: 79027},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2409, col: 11, offset: 77838},
+										pos:  position{line: 2457, col: 11, offset: 79053},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -45032,12 +45143,12 @@ var g = &grammar{
 													pos:   position{line: 1253, col: 14, offset: 38741},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 7, offset: 89891},
+														pos: position{line: 2885, col: 7, offset: 91106},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2837, col: 7, offset: 89891},
+															pos: position{line: 2885, col: 7, offset: 91106},
 															expr: &charClassMatcher{
-																pos:        position{line: 2837, col: 7, offset: 89891},
+																pos:        position{line: 2885, col: 7, offset: 91106},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45071,12 +45182,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 10, offset: 38873},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 7, offset: 89891},
+														pos: position{line: 2885, col: 7, offset: 91106},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2837, col: 7, offset: 89891},
+															pos: position{line: 2885, col: 7, offset: 91106},
 															expr: &charClassMatcher{
-																pos:        position{line: 2837, col: 7, offset: 89891},
+																pos:        position{line: 2885, col: 7, offset: 91106},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45118,17 +45229,17 @@ var g = &grammar{
 																pos: position{line: 1304, col: 31, offset: 40695},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2742, col: 13, offset: 87334},
+																		pos:        position{line: 2790, col: 13, offset: 88549},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2900, col: 10, offset: 91454},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2900, col: 10, offset: 91454},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -45154,10 +45265,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1298, col: 12, offset: 40409},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2900, col: 10, offset: 91454},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2900, col: 10, offset: 91454},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45174,10 +45285,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1298, col: 23, offset: 40420},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2900, col: 10, offset: 91454},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2900, col: 10, offset: 91454},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45197,17 +45308,17 @@ var g = &grammar{
 																					pos: position{line: 1304, col: 31, offset: 40695},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2742, col: 13, offset: 87334},
+																							pos:        position{line: 2790, col: 13, offset: 88549},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2900, col: 10, offset: 91454},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2900, col: 10, offset: 91454},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -45238,10 +45349,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1299, col: 12, offset: 40501},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2900, col: 10, offset: 91454},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2900, col: 10, offset: 91454},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45258,10 +45369,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1299, col: 23, offset: 40512},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2900, col: 10, offset: 91454},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2900, col: 10, offset: 91454},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45281,17 +45392,17 @@ var g = &grammar{
 																					pos: position{line: 1304, col: 31, offset: 40695},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2742, col: 13, offset: 87334},
+																							pos:        position{line: 2790, col: 13, offset: 88549},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2900, col: 10, offset: 91454},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2900, col: 10, offset: 91454},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -45318,15 +45429,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2412, col: 11, offset: 77917},
+										pos:  position{line: 2460, col: 11, offset: 79132},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2413, col: 11, offset: 77937},
+										pos:  position{line: 2461, col: 11, offset: 79152},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2414, col: 11, offset: 77960},
+										pos:  position{line: 2462, col: 11, offset: 79175},
 										name: "InlineMenu",
 									},
 								},
@@ -45338,80 +45449,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2418, col: 1, offset: 78017},
+			pos:  position{line: 2466, col: 1, offset: 79232},
 			expr: &actionExpr{
-				pos: position{line: 2420, col: 5, offset: 78105},
+				pos: position{line: 2468, col: 5, offset: 79320},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2420, col: 5, offset: 78105},
+					pos: position{line: 2468, col: 5, offset: 79320},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2420, col: 5, offset: 78105},
+							pos: position{line: 2468, col: 5, offset: 79320},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2423, col: 5, offset: 78182},
+							pos:   position{line: 2471, col: 5, offset: 79397},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2424, col: 9, offset: 78200},
+								pos: position{line: 2472, col: 9, offset: 79415},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1379, col: 26, offset: 43964},
+										pos: position{line: 1384, col: 26, offset: 44080},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1379, col: 26, offset: 43964},
+											pos: position{line: 1384, col: 26, offset: 44080},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1377, col: 32, offset: 43932},
+													pos:        position{line: 1382, col: 32, offset: 44048},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1379, col: 54, offset: 43992},
+													pos:   position{line: 1384, col: 54, offset: 44108},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1383, col: 33, offset: 44205},
+														pos: position{line: 1388, col: 33, offset: 44321},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1383, col: 34, offset: 44206},
+																pos: position{line: 1388, col: 34, offset: 44322},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1383, col: 34, offset: 44206},
+																	pos: position{line: 1388, col: 34, offset: 44322},
 																	expr: &seqExpr{
-																		pos: position{line: 1383, col: 35, offset: 44207},
+																		pos: position{line: 1388, col: 35, offset: 44323},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1383, col: 35, offset: 44207},
+																				pos: position{line: 1388, col: 35, offset: 44323},
 																				expr: &litMatcher{
-																					pos:        position{line: 1377, col: 32, offset: 43932},
+																					pos:        position{line: 1382, col: 32, offset: 44048},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1383, col: 64, offset: 44236,
+																				line: 1388, col: 64, offset: 44352,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1385, col: 11, offset: 44409},
+																pos: position{line: 1390, col: 11, offset: 44525},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1385, col: 11, offset: 44409},
+																	pos: position{line: 1390, col: 11, offset: 44525},
 																	expr: &seqExpr{
-																		pos: position{line: 1385, col: 12, offset: 44410},
+																		pos: position{line: 1390, col: 12, offset: 44526},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1385, col: 12, offset: 44410},
+																				pos: position{line: 1390, col: 12, offset: 44526},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
+																					pos: position{line: 2900, col: 10, offset: 91454},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2900, col: 10, offset: 91454},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -45420,27 +45531,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1385, col: 19, offset: 44417},
+																				pos: position{line: 1390, col: 19, offset: 44533},
 																				expr: &actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2909, col: 12, offset: 91625},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2909, col: 13, offset: 91626},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2909, col: 13, offset: 91626},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2909, col: 20, offset: 91633},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2909, col: 29, offset: 91642},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45450,16 +45561,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1385, col: 28, offset: 44426},
+																				pos: position{line: 1390, col: 28, offset: 44542},
 																				expr: &litMatcher{
-																					pos:        position{line: 1377, col: 32, offset: 43932},
+																					pos:        position{line: 1382, col: 32, offset: 44048},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1385, col: 57, offset: 44455,
+																				line: 1390, col: 57, offset: 44571,
 																			},
 																		},
 																	},
@@ -45469,15 +45580,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1377, col: 32, offset: 43932},
+													pos:        position{line: 1382, col: 32, offset: 44048},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1379, col: 121, offset: 44059},
+													pos: position{line: 1384, col: 121, offset: 44175},
 													expr: &charClassMatcher{
-														pos:        position{line: 2742, col: 13, offset: 87334},
+														pos:        position{line: 2790, col: 13, offset: 88549},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -45488,45 +45599,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1367, col: 26, offset: 43247},
+										pos: position{line: 1372, col: 26, offset: 43363},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1367, col: 26, offset: 43247},
+											pos: position{line: 1372, col: 26, offset: 43363},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1365, col: 32, offset: 43217},
+													pos:        position{line: 1370, col: 32, offset: 43333},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1367, col: 54, offset: 43275},
+													pos:   position{line: 1372, col: 54, offset: 43391},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1371, col: 33, offset: 43488},
+														pos: position{line: 1376, col: 33, offset: 43604},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1371, col: 34, offset: 43489},
+																pos: position{line: 1376, col: 34, offset: 43605},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1371, col: 34, offset: 43489},
+																	pos: position{line: 1376, col: 34, offset: 43605},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1371, col: 35, offset: 43490},
+																			pos: position{line: 1376, col: 35, offset: 43606},
 																			expr: &litMatcher{
-																				pos:        position{line: 1365, col: 32, offset: 43217},
+																				pos:        position{line: 1370, col: 32, offset: 43333},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1371, col: 64, offset: 43519},
+																			pos: position{line: 1376, col: 64, offset: 43635},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2900, col: 10, offset: 91454},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2900, col: 10, offset: 91454},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -45535,27 +45646,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1371, col: 71, offset: 43526},
+																			pos: position{line: 1376, col: 71, offset: 43642},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2909, col: 12, offset: 91625},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2909, col: 13, offset: 91626},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2909, col: 13, offset: 91626},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2909, col: 20, offset: 91633},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2909, col: 29, offset: 91642},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -45565,25 +45676,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1371, col: 80, offset: 43535,
+																			line: 1376, col: 80, offset: 43651,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1371, col: 83, offset: 43538},
+																			pos: position{line: 1376, col: 83, offset: 43654},
 																			expr: &seqExpr{
-																				pos: position{line: 1371, col: 84, offset: 43539},
+																				pos: position{line: 1376, col: 84, offset: 43655},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1371, col: 84, offset: 43539},
+																						pos: position{line: 1376, col: 84, offset: 43655},
 																						expr: &seqExpr{
-																							pos: position{line: 1371, col: 86, offset: 43541},
+																							pos: position{line: 1376, col: 86, offset: 43657},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2856, col: 11, offset: 90300},
+																									pos: position{line: 2904, col: 11, offset: 91515},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2856, col: 11, offset: 90300},
+																										pos: position{line: 2904, col: 11, offset: 91515},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2856, col: 11, offset: 90300},
+																											pos:        position{line: 2904, col: 11, offset: 91515},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -45592,7 +45703,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1365, col: 32, offset: 43217},
+																									pos:        position{line: 1370, col: 32, offset: 43333},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -45601,36 +45712,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1371, col: 122, offset: 43577},
+																						pos: position{line: 1376, col: 122, offset: 43693},
 																						expr: &litMatcher{
-																							pos:        position{line: 1365, col: 32, offset: 43217},
+																							pos:        position{line: 1370, col: 32, offset: 43333},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1371, col: 151, offset: 43606},
+																						pos: position{line: 1376, col: 151, offset: 43722},
 																						expr: &actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2909, col: 12, offset: 91625},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2909, col: 13, offset: 91626},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2909, col: 13, offset: 91626},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2909, col: 20, offset: 91633},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2909, col: 29, offset: 91642},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -45640,7 +45751,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1371, col: 160, offset: 43615,
+																						line: 1376, col: 160, offset: 43731,
 																					},
 																				},
 																			},
@@ -45649,18 +45760,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1373, col: 11, offset: 43765},
+																pos: position{line: 1378, col: 11, offset: 43881},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1373, col: 12, offset: 43766},
+																	pos: position{line: 1378, col: 12, offset: 43882},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1373, col: 12, offset: 43766},
+																			pos: position{line: 1378, col: 12, offset: 43882},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2900, col: 10, offset: 91454},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2900, col: 10, offset: 91454},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -45669,27 +45780,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1373, col: 19, offset: 43773},
+																			pos: position{line: 1378, col: 19, offset: 43889},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2909, col: 12, offset: 91625},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2909, col: 13, offset: 91626},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2909, col: 13, offset: 91626},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2909, col: 20, offset: 91633},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2909, col: 29, offset: 91642},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -45699,16 +45810,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1373, col: 28, offset: 43782},
+																			pos: position{line: 1378, col: 28, offset: 43898},
 																			expr: &litMatcher{
-																				pos:        position{line: 1365, col: 32, offset: 43217},
+																				pos:        position{line: 1370, col: 32, offset: 43333},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1373, col: 57, offset: 43811,
+																			line: 1378, col: 57, offset: 43927,
 																		},
 																	},
 																},
@@ -45717,15 +45828,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1365, col: 32, offset: 43217},
+													pos:        position{line: 1370, col: 32, offset: 43333},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1367, col: 121, offset: 43342},
+													pos: position{line: 1372, col: 121, offset: 43458},
 													expr: &charClassMatcher{
-														pos:        position{line: 2742, col: 13, offset: 87334},
+														pos:        position{line: 2790, col: 13, offset: 88549},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -45736,7 +45847,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2424, col: 57, offset: 78248},
+										pos:  position{line: 2472, col: 57, offset: 79463},
 										name: "PassthroughMacro",
 									},
 								},
@@ -45748,16 +45859,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2429, col: 1, offset: 78308},
+			pos:  position{line: 2477, col: 1, offset: 79523},
 			expr: &seqExpr{
-				pos: position{line: 2431, col: 5, offset: 78384},
+				pos: position{line: 2479, col: 5, offset: 79599},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2431, col: 5, offset: 78384},
+						pos: position{line: 2479, col: 5, offset: 79599},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2434, col: 5, offset: 78449},
+						pos:  position{line: 2482, col: 5, offset: 79664},
 						name: "QuotedText",
 					},
 				},
@@ -45765,22 +45876,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2436, col: 1, offset: 78462},
+			pos:  position{line: 2484, col: 1, offset: 79677},
 			expr: &actionExpr{
-				pos: position{line: 2438, col: 5, offset: 78544},
+				pos: position{line: 2486, col: 5, offset: 79759},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2438, col: 5, offset: 78544},
+					pos: position{line: 2486, col: 5, offset: 79759},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2438, col: 5, offset: 78544},
+							pos: position{line: 2486, col: 5, offset: 79759},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2441, col: 5, offset: 78615},
+							pos:   position{line: 2489, col: 5, offset: 79830},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2442, col: 9, offset: 78633},
+								pos:  position{line: 2490, col: 9, offset: 79848},
 								name: "Symbol",
 							},
 						},
@@ -45790,103 +45901,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2497, col: 1, offset: 80392},
+			pos:  position{line: 2545, col: 1, offset: 81607},
 			expr: &choiceExpr{
-				pos: position{line: 2499, col: 5, offset: 80422},
+				pos: position{line: 2547, col: 5, offset: 81637},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2499, col: 5, offset: 80422},
+						pos: position{line: 2547, col: 5, offset: 81637},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2499, col: 5, offset: 80422},
+							pos: position{line: 2547, col: 5, offset: 81637},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2499, col: 5, offset: 80422},
+									pos:        position{line: 2547, col: 5, offset: 81637},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2499, col: 10, offset: 80427},
+									pos: position{line: 2547, col: 10, offset: 81642},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2499, col: 10, offset: 80427},
+											pos:  position{line: 2547, col: 10, offset: 81642},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2528, col: 14, offset: 81531},
+											pos: position{line: 2576, col: 14, offset: 82746},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2528, col: 14, offset: 81531},
+												pos:        position{line: 2576, col: 14, offset: 82746},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2532, col: 14, offset: 81597},
+											pos: position{line: 2580, col: 14, offset: 82812},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2532, col: 14, offset: 81597},
+												pos:        position{line: 2580, col: 14, offset: 82812},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2536, col: 15, offset: 81666},
+											pos: position{line: 2584, col: 15, offset: 82881},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2536, col: 15, offset: 81666},
+												pos:        position{line: 2584, col: 15, offset: 82881},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2540, col: 13, offset: 81731},
+											pos: position{line: 2588, col: 13, offset: 82946},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2540, col: 13, offset: 81731},
+												pos:        position{line: 2588, col: 13, offset: 82946},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2568, col: 21, offset: 82301},
+											pos: position{line: 2616, col: 21, offset: 83516},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2568, col: 21, offset: 82301},
+												pos:        position{line: 2616, col: 21, offset: 83516},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2547, col: 5, offset: 81887},
+											pos: position{line: 2595, col: 5, offset: 83102},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2547, col: 5, offset: 81887},
+												pos: position{line: 2595, col: 5, offset: 83102},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2547, col: 5, offset: 81887},
+														pos:        position{line: 2595, col: 5, offset: 83102},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2548, col: 5, offset: 81897},
+														pos: position{line: 2596, col: 5, offset: 83112},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2552, col: 6, offset: 81984},
+														pos: position{line: 2600, col: 6, offset: 83199},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2852, col: 10, offset: 90239},
+																pos: position{line: 2900, col: 10, offset: 91454},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2852, col: 10, offset: 90239},
+																	pos:        position{line: 2900, col: 10, offset: 91454},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45894,30 +46005,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2552, col: 14, offset: 81992},
+																pos: position{line: 2600, col: 14, offset: 83207},
 																expr: &choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2922, col: 8, offset: 91852},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2909, col: 12, offset: 91625},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2909, col: 13, offset: 91626},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2909, col: 13, offset: 91626},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2909, col: 20, offset: 91633},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2909, col: 29, offset: 91642},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -45926,9 +46037,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2919, col: 8, offset: 91802},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2919, col: 9, offset: 91803,
 																			},
 																		},
 																	},
@@ -45940,53 +46051,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2557, col: 5, offset: 82112},
+											pos: position{line: 2605, col: 5, offset: 83327},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2557, col: 5, offset: 82112},
+												pos: position{line: 2605, col: 5, offset: 83327},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2557, col: 5, offset: 82112},
+														pos:        position{line: 2605, col: 5, offset: 83327},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2558, col: 5, offset: 82122},
+														pos: position{line: 2606, col: 5, offset: 83337},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2562, col: 5, offset: 82211},
+														pos: position{line: 2610, col: 5, offset: 83426},
 														expr: &choiceExpr{
-															pos: position{line: 2562, col: 7, offset: 82213},
+															pos: position{line: 2610, col: 7, offset: 83428},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2742, col: 13, offset: 87334},
+																	pos:        position{line: 2790, col: 13, offset: 88549},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2861, col: 12, offset: 90410},
+																	pos: position{line: 2909, col: 12, offset: 91625},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2861, col: 13, offset: 90411},
+																		pos: position{line: 2909, col: 13, offset: 91626},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 13, offset: 90411},
+																				pos:        position{line: 2909, col: 13, offset: 91626},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 20, offset: 90418},
+																				pos:        position{line: 2909, col: 20, offset: 91633},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 29, offset: 90427},
+																				pos:        position{line: 2909, col: 29, offset: 91642},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -45995,9 +46106,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2919, col: 8, offset: 91802},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2919, col: 9, offset: 91803,
 																	},
 																},
 															},
@@ -46007,30 +46118,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2572, col: 20, offset: 82371},
+											pos: position{line: 2620, col: 20, offset: 83586},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2572, col: 20, offset: 82371},
+												pos:        position{line: 2620, col: 20, offset: 83586},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2576, col: 21, offset: 82442},
+											pos: position{line: 2624, col: 21, offset: 83657},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2576, col: 21, offset: 82442},
+												pos:        position{line: 2624, col: 21, offset: 83657},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2580, col: 20, offset: 82512},
+											pos: position{line: 2628, col: 20, offset: 83727},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2580, col: 20, offset: 82512},
+												pos:        position{line: 2628, col: 20, offset: 83727},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -46042,73 +46153,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2503, col: 7, offset: 80682},
+						pos:  position{line: 2551, col: 7, offset: 81897},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2528, col: 14, offset: 81531},
+						pos: position{line: 2576, col: 14, offset: 82746},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2528, col: 14, offset: 81531},
+							pos:        position{line: 2576, col: 14, offset: 82746},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2532, col: 14, offset: 81597},
+						pos: position{line: 2580, col: 14, offset: 82812},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2532, col: 14, offset: 81597},
+							pos:        position{line: 2580, col: 14, offset: 82812},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2536, col: 15, offset: 81666},
+						pos: position{line: 2584, col: 15, offset: 82881},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2536, col: 15, offset: 81666},
+							pos:        position{line: 2584, col: 15, offset: 82881},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2540, col: 13, offset: 81731},
+						pos: position{line: 2588, col: 13, offset: 82946},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2540, col: 13, offset: 81731},
+							pos:        position{line: 2588, col: 13, offset: 82946},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2547, col: 5, offset: 81887},
+						pos: position{line: 2595, col: 5, offset: 83102},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2547, col: 5, offset: 81887},
+							pos: position{line: 2595, col: 5, offset: 83102},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2547, col: 5, offset: 81887},
+									pos:        position{line: 2595, col: 5, offset: 83102},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2548, col: 5, offset: 81897},
+									pos: position{line: 2596, col: 5, offset: 83112},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2552, col: 6, offset: 81984},
+									pos: position{line: 2600, col: 6, offset: 83199},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2852, col: 10, offset: 90239},
+											pos: position{line: 2900, col: 10, offset: 91454},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 10, offset: 90239},
+												pos:        position{line: 2900, col: 10, offset: 91454},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46116,30 +46227,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2552, col: 14, offset: 81992},
+											pos: position{line: 2600, col: 14, offset: 83207},
 											expr: &choiceExpr{
-												pos: position{line: 2874, col: 8, offset: 90637},
+												pos: position{line: 2922, col: 8, offset: 91852},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2861, col: 12, offset: 90410},
+														pos: position{line: 2909, col: 12, offset: 91625},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2861, col: 13, offset: 90411},
+															pos: position{line: 2909, col: 13, offset: 91626},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2861, col: 13, offset: 90411},
+																	pos:        position{line: 2909, col: 13, offset: 91626},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 20, offset: 90418},
+																	pos:        position{line: 2909, col: 20, offset: 91633},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 29, offset: 90427},
+																	pos:        position{line: 2909, col: 29, offset: 91642},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -46148,9 +46259,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2871, col: 8, offset: 90587},
+														pos: position{line: 2919, col: 8, offset: 91802},
 														expr: &anyMatcher{
-															line: 2871, col: 9, offset: 90588,
+															line: 2919, col: 9, offset: 91803,
 														},
 													},
 												},
@@ -46162,53 +46273,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2557, col: 5, offset: 82112},
+						pos: position{line: 2605, col: 5, offset: 83327},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2557, col: 5, offset: 82112},
+							pos: position{line: 2605, col: 5, offset: 83327},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2557, col: 5, offset: 82112},
+									pos:        position{line: 2605, col: 5, offset: 83327},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2558, col: 5, offset: 82122},
+									pos: position{line: 2606, col: 5, offset: 83337},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2562, col: 5, offset: 82211},
+									pos: position{line: 2610, col: 5, offset: 83426},
 									expr: &choiceExpr{
-										pos: position{line: 2562, col: 7, offset: 82213},
+										pos: position{line: 2610, col: 7, offset: 83428},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2742, col: 13, offset: 87334},
+												pos:        position{line: 2790, col: 13, offset: 88549},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2861, col: 12, offset: 90410},
+												pos: position{line: 2909, col: 12, offset: 91625},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2861, col: 13, offset: 90411},
+													pos: position{line: 2909, col: 13, offset: 91626},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2861, col: 13, offset: 90411},
+															pos:        position{line: 2909, col: 13, offset: 91626},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 20, offset: 90418},
+															pos:        position{line: 2909, col: 20, offset: 91633},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 29, offset: 90427},
+															pos:        position{line: 2909, col: 29, offset: 91642},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -46217,9 +46328,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2871, col: 8, offset: 90587},
+												pos: position{line: 2919, col: 8, offset: 91802},
 												expr: &anyMatcher{
-													line: 2871, col: 9, offset: 90588,
+													line: 2919, col: 9, offset: 91803,
 												},
 											},
 										},
@@ -46229,40 +46340,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2568, col: 21, offset: 82301},
+						pos: position{line: 2616, col: 21, offset: 83516},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2568, col: 21, offset: 82301},
+							pos:        position{line: 2616, col: 21, offset: 83516},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2572, col: 20, offset: 82371},
+						pos: position{line: 2620, col: 20, offset: 83586},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2572, col: 20, offset: 82371},
+							pos:        position{line: 2620, col: 20, offset: 83586},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2576, col: 21, offset: 82442},
+						pos: position{line: 2624, col: 21, offset: 83657},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2576, col: 21, offset: 82442},
+							pos:        position{line: 2624, col: 21, offset: 83657},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2580, col: 20, offset: 82512},
+						pos: position{line: 2628, col: 20, offset: 83727},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2580, col: 20, offset: 82512},
+							pos:        position{line: 2628, col: 20, offset: 83727},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -46273,43 +46384,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2514, col: 1, offset: 80872},
+			pos:  position{line: 2562, col: 1, offset: 82087},
 			expr: &choiceExpr{
-				pos: position{line: 2515, col: 5, offset: 80894},
+				pos: position{line: 2563, col: 5, offset: 82109},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2515, col: 5, offset: 80894},
+						pos: position{line: 2563, col: 5, offset: 82109},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2515, col: 5, offset: 80894},
+							pos: position{line: 2563, col: 5, offset: 82109},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2515, col: 5, offset: 80894},
+									pos:        position{line: 2563, col: 5, offset: 82109},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2515, col: 11, offset: 80900},
+									pos: position{line: 2563, col: 11, offset: 82115},
 									expr: &seqExpr{
-										pos: position{line: 2078, col: 5, offset: 67104},
+										pos: position{line: 2104, col: 5, offset: 67733},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2078, col: 5, offset: 67104},
+												pos:        position{line: 2104, col: 5, offset: 67733},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2079, col: 5, offset: 67113},
+												pos: position{line: 2105, col: 5, offset: 67742},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2083, col: 5, offset: 67236},
+												pos: position{line: 2109, col: 5, offset: 67865},
 												expr: &notExpr{
-													pos: position{line: 2083, col: 7, offset: 67238},
+													pos: position{line: 2109, col: 7, offset: 67867},
 													expr: &litMatcher{
-														pos:        position{line: 2083, col: 8, offset: 67239},
+														pos:        position{line: 2109, col: 8, offset: 67868},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -46323,21 +46434,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2518, col: 7, offset: 81053},
+						pos: position{line: 2566, col: 7, offset: 82268},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2518, col: 7, offset: 81053},
+							pos: position{line: 2566, col: 7, offset: 82268},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2518, col: 7, offset: 81053},
+									pos:        position{line: 2566, col: 7, offset: 82268},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2518, col: 13, offset: 81059},
+									pos: position{line: 2566, col: 13, offset: 82274},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2518, col: 14, offset: 81060},
+										pos:  position{line: 2566, col: 14, offset: 82275},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46345,38 +46456,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2521, col: 7, offset: 81210},
+						pos: position{line: 2569, col: 7, offset: 82425},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2521, col: 7, offset: 81210},
+							pos: position{line: 2569, col: 7, offset: 82425},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2521, col: 7, offset: 81210},
+									pos:        position{line: 2569, col: 7, offset: 82425},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2521, col: 12, offset: 81215},
+									pos: position{line: 2569, col: 12, offset: 82430},
 									expr: &seqExpr{
-										pos: position{line: 2078, col: 5, offset: 67104},
+										pos: position{line: 2104, col: 5, offset: 67733},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2078, col: 5, offset: 67104},
+												pos:        position{line: 2104, col: 5, offset: 67733},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2079, col: 5, offset: 67113},
+												pos: position{line: 2105, col: 5, offset: 67742},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2083, col: 5, offset: 67236},
+												pos: position{line: 2109, col: 5, offset: 67865},
 												expr: &notExpr{
-													pos: position{line: 2083, col: 7, offset: 67238},
+													pos: position{line: 2109, col: 7, offset: 67867},
 													expr: &litMatcher{
-														pos:        position{line: 2083, col: 8, offset: 67239},
+														pos:        position{line: 2109, col: 8, offset: 67868},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -46390,21 +46501,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2524, col: 7, offset: 81368},
+						pos: position{line: 2572, col: 7, offset: 82583},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2524, col: 7, offset: 81368},
+							pos: position{line: 2572, col: 7, offset: 82583},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2524, col: 7, offset: 81368},
+									pos:        position{line: 2572, col: 7, offset: 82583},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2524, col: 12, offset: 81373},
+									pos: position{line: 2572, col: 12, offset: 82588},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2524, col: 13, offset: 81374},
+										pos:  position{line: 2572, col: 13, offset: 82589},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46416,63 +46527,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2657, col: 1, offset: 84414},
+			pos:  position{line: 2705, col: 1, offset: 85629},
 			expr: &actionExpr{
-				pos: position{line: 2657, col: 26, offset: 84439},
+				pos: position{line: 2705, col: 26, offset: 85654},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2657, col: 26, offset: 84439},
+					pos: position{line: 2705, col: 26, offset: 85654},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2657, col: 26, offset: 84439},
+							pos:   position{line: 2705, col: 26, offset: 85654},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2657, col: 31, offset: 84444},
+								pos: position{line: 2705, col: 31, offset: 85659},
 								expr: &actionExpr{
-									pos: position{line: 2662, col: 5, offset: 84507},
+									pos: position{line: 2710, col: 5, offset: 85722},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2662, col: 5, offset: 84507},
+										pos: position{line: 2710, col: 5, offset: 85722},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2869, col: 11, offset: 90573},
+												pos: position{line: 2917, col: 11, offset: 91788},
 												expr: &anyMatcher{
-													line: 2869, col: 13, offset: 90575,
+													line: 2917, col: 13, offset: 91790,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2665, col: 5, offset: 84633},
+												pos:   position{line: 2713, col: 5, offset: 85848},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2665, col: 16, offset: 84644},
+													pos: position{line: 2713, col: 16, offset: 85859},
 													expr: &actionExpr{
-														pos: position{line: 2665, col: 17, offset: 84645},
+														pos: position{line: 2713, col: 17, offset: 85860},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2665, col: 17, offset: 84645},
+															pos: position{line: 2713, col: 17, offset: 85860},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2665, col: 17, offset: 84645},
+																	pos:   position{line: 2713, col: 17, offset: 85860},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2844, col: 12, offset: 90066},
+																		pos: position{line: 2892, col: 12, offset: 91281},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2844, col: 13, offset: 90067},
+																			pos: position{line: 2892, col: 13, offset: 91282},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2844, col: 13, offset: 90067},
+																					pos: position{line: 2892, col: 13, offset: 91282},
 																					expr: &litMatcher{
-																						pos:        position{line: 2844, col: 13, offset: 90067},
+																						pos:        position{line: 2892, col: 13, offset: 91282},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2844, col: 18, offset: 90072},
+																					pos: position{line: 2892, col: 18, offset: 91287},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2844, col: 18, offset: 90072},
+																						pos:        position{line: 2892, col: 18, offset: 91287},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -46484,7 +46595,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2665, col: 27, offset: 84655},
+																	pos:        position{line: 2713, col: 27, offset: 85870},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -46495,38 +46606,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2666, col: 5, offset: 84683},
+												pos:   position{line: 2714, col: 5, offset: 85898},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2666, col: 12, offset: 84690},
+													pos: position{line: 2714, col: 12, offset: 85905},
 													expr: &choiceExpr{
-														pos: position{line: 2667, col: 9, offset: 84700},
+														pos: position{line: 2715, col: 9, offset: 85915},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2667, col: 9, offset: 84700},
+																pos: position{line: 2715, col: 9, offset: 85915},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2667, col: 9, offset: 84700},
+																	pos:        position{line: 2715, col: 9, offset: 85915},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2668, col: 11, offset: 84747},
+																pos: position{line: 2716, col: 11, offset: 85962},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2668, col: 11, offset: 84747},
+																	pos:        position{line: 2716, col: 11, offset: 85962},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2669, col: 11, offset: 84795},
+																pos: position{line: 2717, col: 11, offset: 86010},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2669, col: 11, offset: 84795},
+																	pos:        position{line: 2717, col: 11, offset: 86010},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -46537,38 +46648,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2671, col: 5, offset: 84845},
+												pos:   position{line: 2719, col: 5, offset: 86060},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2671, col: 12, offset: 84852},
+													pos: position{line: 2719, col: 12, offset: 86067},
 													expr: &choiceExpr{
-														pos: position{line: 2672, col: 9, offset: 84862},
+														pos: position{line: 2720, col: 9, offset: 86077},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2672, col: 9, offset: 84862},
+																pos: position{line: 2720, col: 9, offset: 86077},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2672, col: 9, offset: 84862},
+																	pos:        position{line: 2720, col: 9, offset: 86077},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2673, col: 11, offset: 84909},
+																pos: position{line: 2721, col: 11, offset: 86124},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2673, col: 11, offset: 84909},
+																	pos:        position{line: 2721, col: 11, offset: 86124},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2674, col: 11, offset: 84959},
+																pos: position{line: 2722, col: 11, offset: 86174},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2674, col: 11, offset: 84959},
+																	pos:        position{line: 2722, col: 11, offset: 86174},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -46579,32 +46690,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2676, col: 5, offset: 85010},
+												pos:   position{line: 2724, col: 5, offset: 86225},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2676, col: 12, offset: 85017},
+													pos: position{line: 2724, col: 12, offset: 86232},
 													expr: &choiceExpr{
-														pos: position{line: 2676, col: 13, offset: 85018},
+														pos: position{line: 2724, col: 13, offset: 86233},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2844, col: 12, offset: 90066},
+																pos: position{line: 2892, col: 12, offset: 91281},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2844, col: 13, offset: 90067},
+																	pos: position{line: 2892, col: 13, offset: 91282},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2844, col: 13, offset: 90067},
+																			pos: position{line: 2892, col: 13, offset: 91282},
 																			expr: &litMatcher{
-																				pos:        position{line: 2844, col: 13, offset: 90067},
+																				pos:        position{line: 2892, col: 13, offset: 91282},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2844, col: 18, offset: 90072},
+																			pos: position{line: 2892, col: 18, offset: 91287},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2844, col: 18, offset: 90072},
+																				pos:        position{line: 2892, col: 18, offset: 91287},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -46615,10 +46726,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2676, col: 24, offset: 85029},
+																pos: position{line: 2724, col: 24, offset: 86244},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2676, col: 24, offset: 85029},
+																	pos:        position{line: 2724, col: 24, offset: 86244},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -46629,15 +46740,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2677, col: 5, offset: 85071},
+												pos:   position{line: 2725, col: 5, offset: 86286},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2677, col: 11, offset: 85077},
+													pos: position{line: 2725, col: 11, offset: 86292},
 													expr: &actionExpr{
-														pos: position{line: 2677, col: 12, offset: 85078},
+														pos: position{line: 2725, col: 12, offset: 86293},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2677, col: 12, offset: 85078},
+															pos:        position{line: 2725, col: 12, offset: 86293},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -46647,12 +46758,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2679, col: 5, offset: 85208},
+												pos:   position{line: 2727, col: 5, offset: 86423},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2679, col: 11, offset: 85214},
+													pos: position{line: 2727, col: 11, offset: 86429},
 													expr: &litMatcher{
-														pos:        position{line: 2679, col: 12, offset: 85215},
+														pos:        position{line: 2727, col: 12, offset: 86430},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -46660,7 +46771,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2680, col: 5, offset: 85225},
+												pos: position{line: 2728, col: 5, offset: 86440},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -46669,9 +46780,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2919, col: 8, offset: 91802},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2919, col: 9, offset: 91803,
 							},
 						},
 					},
@@ -46680,23 +46791,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2707, col: 1, offset: 86234},
+			pos:  position{line: 2755, col: 1, offset: 87449},
 			expr: &actionExpr{
-				pos: position{line: 2708, col: 5, offset: 86257},
+				pos: position{line: 2756, col: 5, offset: 87472},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2708, col: 5, offset: 86257},
+					pos: position{line: 2756, col: 5, offset: 87472},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2708, col: 5, offset: 86257},
+							pos:   position{line: 2756, col: 5, offset: 87472},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2731, col: 18, offset: 86998},
+								pos: position{line: 2779, col: 18, offset: 88213},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2731, col: 19, offset: 86999},
+									pos: position{line: 2779, col: 19, offset: 88214},
 									expr: &charClassMatcher{
-										pos:        position{line: 2731, col: 19, offset: 86999},
+										pos:        position{line: 2779, col: 19, offset: 88214},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46707,25 +46818,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2709, col: 5, offset: 86283},
+							pos: position{line: 2757, col: 5, offset: 87498},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2713, col: 5, offset: 86411},
+							pos:        position{line: 2761, col: 5, offset: 87626},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2714, col: 5, offset: 86421},
+							pos:   position{line: 2762, col: 5, offset: 87636},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2735, col: 19, offset: 87074},
+								pos: position{line: 2783, col: 19, offset: 88289},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2735, col: 19, offset: 87074},
+									pos: position{line: 2783, col: 19, offset: 88289},
 									expr: &charClassMatcher{
-										pos:        position{line: 2735, col: 19, offset: 87074},
+										pos:        position{line: 2783, col: 19, offset: 88289},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -46735,36 +46846,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2715, col: 5, offset: 86449},
+							pos:   position{line: 2763, col: 5, offset: 87664},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2715, col: 17, offset: 86461},
+								pos:  position{line: 2763, col: 17, offset: 87676},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2922, col: 8, offset: 91852},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2909, col: 12, offset: 91625},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2909, col: 13, offset: 91626},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2909, col: 13, offset: 91626},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2909, col: 20, offset: 91633},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2909, col: 29, offset: 91642},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -46773,9 +46884,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2919, col: 8, offset: 91802},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2919, col: 9, offset: 91803,
 									},
 								},
 							},
@@ -46786,23 +46897,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2719, col: 1, offset: 86609},
+			pos:  position{line: 2767, col: 1, offset: 87824},
 			expr: &actionExpr{
-				pos: position{line: 2720, col: 5, offset: 86633},
+				pos: position{line: 2768, col: 5, offset: 87848},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2720, col: 5, offset: 86633},
+					pos: position{line: 2768, col: 5, offset: 87848},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2720, col: 5, offset: 86633},
+							pos:   position{line: 2768, col: 5, offset: 87848},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2731, col: 18, offset: 86998},
+								pos: position{line: 2779, col: 18, offset: 88213},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2731, col: 19, offset: 86999},
+									pos: position{line: 2779, col: 19, offset: 88214},
 									expr: &charClassMatcher{
-										pos:        position{line: 2731, col: 19, offset: 86999},
+										pos:        position{line: 2779, col: 19, offset: 88214},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46813,25 +46924,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2721, col: 5, offset: 86659},
+							pos: position{line: 2769, col: 5, offset: 87874},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2725, col: 5, offset: 86787},
+							pos:        position{line: 2773, col: 5, offset: 88002},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2726, col: 5, offset: 86796},
+							pos:   position{line: 2774, col: 5, offset: 88011},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2735, col: 19, offset: 87074},
+								pos: position{line: 2783, col: 19, offset: 88289},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2735, col: 19, offset: 87074},
+									pos: position{line: 2783, col: 19, offset: 88289},
 									expr: &charClassMatcher{
-										pos:        position{line: 2735, col: 19, offset: 87074},
+										pos:        position{line: 2783, col: 19, offset: 88289},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -46841,10 +46952,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2727, col: 5, offset: 86824},
+							pos:   position{line: 2775, col: 5, offset: 88039},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2727, col: 17, offset: 86836},
+								pos:  position{line: 2775, col: 17, offset: 88051},
 								name: "InlineAttributes",
 							},
 						},
@@ -46854,43 +46965,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2806, col: 1, offset: 88886},
+			pos:  position{line: 2854, col: 1, offset: 90101},
 			expr: &actionExpr{
-				pos: position{line: 2806, col: 17, offset: 88902},
+				pos: position{line: 2854, col: 17, offset: 90117},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2806, col: 17, offset: 88902},
+					pos:   position{line: 2854, col: 17, offset: 90117},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2823, col: 5, offset: 89356},
+						pos: position{line: 2871, col: 5, offset: 90571},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2823, col: 5, offset: 89356},
+							pos:   position{line: 2871, col: 5, offset: 90571},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2823, col: 14, offset: 89365},
+								pos: position{line: 2871, col: 14, offset: 90580},
 								expr: &choiceExpr{
-									pos: position{line: 2824, col: 9, offset: 89375},
+									pos: position{line: 2872, col: 9, offset: 90590},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2824, col: 9, offset: 89375},
+											pos: position{line: 2872, col: 9, offset: 90590},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2824, col: 9, offset: 89375},
+												pos: position{line: 2872, col: 9, offset: 90590},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2824, col: 9, offset: 89375},
+														pos: position{line: 2872, col: 9, offset: 90590},
 														expr: &litMatcher{
-															pos:        position{line: 2824, col: 10, offset: 89376},
+															pos:        position{line: 2872, col: 10, offset: 90591},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2825, col: 9, offset: 89404},
+														pos: position{line: 2873, col: 9, offset: 90619},
 														expr: &charClassMatcher{
-															pos:        position{line: 2825, col: 10, offset: 89405},
+															pos:        position{line: 2873, col: 10, offset: 90620},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -46901,27 +47012,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2828, col: 11, offset: 89617},
+											pos: position{line: 2876, col: 11, offset: 90832},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2828, col: 11, offset: 89617},
+													pos:        position{line: 2876, col: 11, offset: 90832},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2828, col: 19, offset: 89625},
+													pos: position{line: 2876, col: 19, offset: 90840},
 													expr: &seqExpr{
-														pos: position{line: 2828, col: 21, offset: 89627},
+														pos: position{line: 2876, col: 21, offset: 90842},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2828, col: 21, offset: 89627},
+																pos: position{line: 2876, col: 21, offset: 90842},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2900, col: 10, offset: 91454},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2900, col: 10, offset: 91454},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -46930,11 +47041,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2828, col: 28, offset: 89634},
+																pos: position{line: 2876, col: 28, offset: 90849},
 																expr: &notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2919, col: 8, offset: 91802},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2919, col: 9, offset: 91803,
 																	},
 																},
 															},
@@ -47329,10 +47440,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2831, col: 11, offset: 89754},
+											pos: position{line: 2879, col: 11, offset: 90969},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2831, col: 11, offset: 89754},
+												pos:        position{line: 2879, col: 11, offset: 90969},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -57701,6 +57812,18 @@ func (p *parser) callonInlineFootnote1() (interface{}, error) {
 	return p.cur.onInlineFootnote1(stack["ref"], stack["elements"])
 }
 
+func (c *current) onFootnoteElements3() error {
+	c.resetElementTracking() // what precedes the footnote does not matter
+	return nil
+
+}
+
+func (p *parser) callonFootnoteElements3() error {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onFootnoteElements3()
+}
+
 func (c *current) onFootnoteElements1(elements interface{}) (interface{}, error) {
 	return types.NewInlineElements(elements.([]interface{}))
 
@@ -68788,6 +68911,29 @@ func (p *parser) callonDoubleQuoteBoldText1() (interface{}, error) {
 	return p.cur.onDoubleQuoteBoldText1(stack["elements"])
 }
 
+func (c *current) onDoubleQuoteBoldTextElements3() error {
+	c.resetElementTracking() // what precedes the opening delimiter does not matter
+	return nil
+
+}
+
+func (p *parser) callonDoubleQuoteBoldTextElements3() error {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDoubleQuoteBoldTextElements3()
+}
+
+func (c *current) onDoubleQuoteBoldTextElements1(elements interface{}) (interface{}, error) {
+	return elements, nil
+
+}
+
+func (p *parser) callonDoubleQuoteBoldTextElements1() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDoubleQuoteBoldTextElements1(stack["elements"])
+}
+
 func (c *current) onDoubleQuoteBoldTextElement1(element interface{}) (interface{}, error) {
 	c.trackElement(element)
 	return element, nil
@@ -68974,6 +69120,29 @@ func (p *parser) callonDoubleQuoteItalicText1() (interface{}, error) {
 	return p.cur.onDoubleQuoteItalicText1(stack["elements"])
 }
 
+func (c *current) onDoubleQuoteItalicTextElements3() error {
+	c.resetElementTracking() // what precedes the opening delimiter does not matter
+	return nil
+
+}
+
+func (p *parser) callonDoubleQuoteItalicTextElements3() error {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDoubleQuoteItalicTextElements3()
+}
+
+func (c *current) onDoubleQuoteItalicTextElements1(elements interface{}) (interface{}, error) {
+	return elements, nil
+
+}
+
+func (p *parser) callonDoubleQuoteItalicTextElements1() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDoubleQuoteItalicTextElements1(stack["elements"])
+}
+
 func (c *current) onDoubleQuoteItalicTextElement1(element interface{}) (interface{}, error) {
 	c.trackElement(element)
 	return element, nil
@@ -69161,6 +69330,29 @@ func (p *parser) callonDoubleQuoteMonospaceText1() (interface{}, error) {
 	return p.cur.onDoubleQuoteMonospaceText1(stack["elements"])
 }
 
+func (c *current) onDoubleQuoteMonospaceTextElements3() error {
+	c.resetElementTracking() // what precedes the opening delimiter does not matter
+	return nil
+
+}
+
+func (p *parser) callonDoubleQuoteMonospaceTextElements3() error {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDoubleQuoteMonospaceTextElements3()
+}
+
+func (c *current) onDoubleQuoteMonospaceTextElements1(elements interface{}) (interface{}, error) {
+	return elements, nil
+
+}
+
+func (p *parser) callonDoubleQuoteMonospaceTextElements1() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDoubleQuoteMonospaceTextElements1(stack["elements"])
+}
+
 func (c *current) onDoubleQuoteMonospaceTextElement1(element interface{}) (interface{}, error) {
 	c.trackElement(element)
 	return element, nil
@@ -69334,6 +69526,29 @@ func (p *parser) callonDoubleQuoteMarkedText1() (interface{}, error) {
 	return p.cur.onDoubleQuoteMarkedText1(stack["elements"])
 }
 
+func (c *current) onDoubleQuoteMarkedTextElements3() error {
+	c.resetElementTracking() // what precedes the opening delimiter does not matter
+	return nil
+
+}
+
+func (p *parser) callonDoubleQuoteMarkedTextElements3() error {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDoubleQuoteMarkedTextElements3()
+}
+
+func (c *current) onDoubleQuoteMarkedTextElements1(elements interface{}) (interface{}, error) {
+	return elements, nil
+
+}
+
+func (p *parser) callonDoubleQuoteMarkedTextElements1() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDoubleQuoteMarkedTextElements1(stack["elements"])
+}
+
 func (c *current) onDoubleQuoteMarkedTextElement1(element interface{}) (interface{}, error) {
 	c.trackElement(element)
 	return element, nil
@@ -69519,16 +69734,39 @@ func (p *parser) callonSubscriptText1() (interface{}, error) {
 	return p.cur.onSubscriptText1(stack["element"])
 }
 
-func (c *current) onSubscriptTextElement3() (interface{}, error) {
+func (c *current) onSubscriptTextElement3() error {
+	c.resetElementTracking() // what precedes the opening delimiter does not matter
+	return nil
+
+}
+
+func (p *parser) callonSubscriptTextElement3() error {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSubscriptTextElement3()
+}
+
+func (c *current) onSubscriptTextElement7() (interface{}, error) {
 	// anything except spaces, EOL or '~'
 	return c.text, nil
 
 }
 
-func (p *parser) callonSubscriptTextElement3() (interface{}, error) {
+func (p *parser) callonSubscriptTextElement7() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSubscriptTextElement3()
+	return p.cur.onSubscriptTextElement7()
+}
+
+func (c *current) onSubscriptTextElement1(element interface{}) (interface{}, error) {
+	return element, nil
+
+}
+
+func (p *parser) callonSubscriptTextElement1() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSubscriptTextElement1(stack["element"])
 }
 
 func (c *current) onEscapedSubscriptText4() (interface{}, error) {
@@ -69566,16 +69804,39 @@ func (p *parser) callonSuperscriptText1() (interface{}, error) {
 	return p.cur.onSuperscriptText1(stack["element"])
 }
 
-func (c *current) onSuperscriptTextElement3() (interface{}, error) {
+func (c *current) onSuperscriptTextElement3() error {
+	c.resetElementTracking() // what precedes the opening delimiter does not matter
+	return nil
+
+}
+
+func (p *parser) callonSuperscriptTextElement3() error {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSuperscriptTextElement3()
+}
+
+func (c *current) onSuperscriptTextElement7() (interface{}, error) {
 	// anything except spaces, EOL or '^'
 	return c.text, nil
 
 }
 
-func (p *parser) callonSuperscriptTextElement3() (interface{}, error) {
+func (p *parser) callonSuperscriptTextElement7() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSuperscriptTextElement3()
+	return p.cur.onSuperscriptTextElement7()
+}
+
+func (c *current) onSuperscriptTextElement1(element interface{}) (interface{}, error) {
+	return element, nil
+
+}
+
+func (p *parser) callonSuperscriptTextElement1() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSuperscriptTextElement1(stack["element"])
 }
 
 func (c *current) onEscapedSuperscriptText4() (interface{}, error) {
@@ -69676,6 +69937,7 @@ func (p *parser) callonSection1() (interface{}, error) {
 func (c *current) onSectionTitle3() error {
 	// enable substitutions
 	c.withSubstitutions(headerSubstitutions())
+	c.resetElementTracking() // what precedes the title does not matter
 	return nil
 
 }
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index db35d33..e373365 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1334,7 +1334,12 @@ InlineFootnote <- "footnote:" ref:(FootnoteRef)? "[" elements:(FootnoteElements)
 
 FootnoteRef <- Alphanums
 
-FootnoteElements <- elements:(FootnoteElement)* {
+FootnoteElements <- 
+    #{
+        c.resetElementTracking() // what precedes the footnote does not matter
+        return nil
+    }
+    elements:(FootnoteElement)* {
         return types.NewInlineElements(elements.([]interface{}))
     }
 
@@ -1880,7 +1885,14 @@ DoubleQuoteBoldText <-
         return types.NewQuotedText(types.DoubleQuoteBold, elements.([]interface{}))
     } 
 
-DoubleQuoteBoldTextElements <- DoubleQuoteBoldTextElement+  
+DoubleQuoteBoldTextElements <-
+    #{
+        c.resetElementTracking() // what precedes the opening delimiter does not matter
+        return nil
+    }
+    elements:(DoubleQuoteBoldTextElement)+ {
+        return elements, nil
+    }
 
 DoubleQuoteBoldTextElement <- 
     NotEOF
@@ -1969,7 +1981,14 @@ DoubleQuoteItalicText <-
         return types.NewQuotedText(types.DoubleQuoteItalic, elements.([]interface{}))
     }
 
-DoubleQuoteItalicTextElements <- DoubleQuoteItalicTextElement+ 
+DoubleQuoteItalicTextElements <-
+    #{
+        c.resetElementTracking() // what precedes the opening delimiter does not matter
+        return nil
+    }
+    elements:(DoubleQuoteItalicTextElement)+ {
+        return elements, nil
+    }
 
 DoubleQuoteItalicTextElement <- 
     NotEOF
@@ -2059,7 +2078,14 @@ DoubleQuoteMonospaceText <-
         return types.NewQuotedText(types.DoubleQuoteMonospace, elements.([]interface{}))
     }
 
-DoubleQuoteMonospaceTextElements <- DoubleQuoteMonospaceTextElement+ // may start and end with spaces
+DoubleQuoteMonospaceTextElements <- // may start and end with spaces
+    #{
+        c.resetElementTracking() // what precedes the opening delimiter does not matter
+        return nil
+    }
+    elements:(DoubleQuoteMonospaceTextElement)+ {
+        return elements, nil
+    }
 
 DoubleQuoteMonospaceTextElement <- 
     NotEOF
@@ -2151,7 +2177,14 @@ DoubleQuoteMarkedText <-
         return types.NewQuotedText(types.DoubleQuoteMarked, elements.([]interface{}))
     }
 
-DoubleQuoteMarkedTextElements <- DoubleQuoteMarkedTextElement*
+DoubleQuoteMarkedTextElements <-
+    #{
+        c.resetElementTracking() // what precedes the opening delimiter does not matter
+        return nil
+    }
+    elements:(DoubleQuoteMarkedTextElement)* {
+        return elements, nil
+    }
 
 DoubleQuoteMarkedTextElement <- // may start and end with spaces
     NotEOF
@@ -2232,7 +2265,14 @@ SubscriptText <-
 
 SubscriptTextDelimiter <- "~"
 
-SubscriptTextElement <- QuotedText / NonSubscriptText 
+SubscriptTextElement <-
+    #{
+        c.resetElementTracking() // what precedes the opening delimiter does not matter
+        return nil
+    }
+    element:(QuotedText / NonSubscriptText) {
+        return element, nil
+    }
 
 NonSubscriptText <- [^\r\n ~]+ { // anything except spaces, EOL or '~'
         return c.text, nil
@@ -2259,7 +2299,14 @@ SuperscriptText <-
 
 SuperscriptTextDelimiter <- "^"
 
-SuperscriptTextElement <- QuotedText / NonSuperscriptText 
+SuperscriptTextElement <-
+    #{
+        c.resetElementTracking() // what precedes the opening delimiter does not matter
+        return nil
+    }
+    element:(QuotedText / NonSuperscriptText) {
+        return element, nil
+    }
 
 NonSuperscriptText <- [^\r\n ^]+ { // anything except spaces, EOL or '^'
         return c.text, nil
@@ -2298,6 +2345,7 @@ SectionTitle <-
     #{
         // enable substitutions
         c.withSubstitutions(headerSubstitutions())
+        c.resetElementTracking() // what precedes the title does not matter
         return nil
     }
     elements:(SectionTitleElement)+ { 
diff --git a/pkg/parser/parser_ext.go b/pkg/parser/parser_ext.go
index 1fd921d..2e62a05 100644
--- a/pkg/parser/parser_ext.go
+++ b/pkg/parser/parser_ext.go
@@ -127,6 +127,11 @@ func (c *current) trackElement(element interface{}) {
 	c.globalStore[suffixTrackingKey] = rune(c.text[len(c.text)-1])
 }
 
+// resetElementTracking discards the last tracked character, ie: what follows is the beginning of some content
+func (c *current) resetElementTracking() {
+	delete(c.globalStore, suffixTrackingKey)
+}
+
 func (c *current) isPrecededBySpace() bool {
 	if r, ok := c.globalStore[suffixTrackingKey].(rune); ok {
 		log.Debugf("---checking if preceded by space (tracked='%s')", string(r))
-- 
2.43.0


From 7e395f2f95a3c4cf8ef00c2f99f08e141e949a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 18/75] fix: counters in attribute values and titles, start
 value of hidden counters

- a counter in an attribute value made the conversion fail, and it was
  rendered as-is in the title of a block
- the start value given to a hidden counter was ignored
- a start value only applies to the first use of a counter
---
 ...document_processing_apply_substitutions.go |    31 +-
 pkg/parser/parser.go                          | 18916 ++++++++--------
 pkg/parser/parser.peg                         |     3 +-
 3 files changed, 9646 insertions(+), 9304 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 1b5aca7..afe124f 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 	"time"
@@ -343,11 +344,18 @@ func reparseInlineAttributes(ctx *ParseContext, element types.WithAttributes, su
 }
 
 func replaceAttributeRefsInAttributeValues(ctx *ParseContext, attrs types.Attributes) error {
-	var err error
-	for k, v := range attrs {
-		if attrs[k], err = replaceAttributeRefsInValue(ctx, v); err != nil {
+	// always process the attributes in the same order, because of counters
+	keys := make([]string, 0, len(attrs))
+	for k := range attrs {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	for _, k := range keys {
+		v, err := replaceAttributeRefsInValue(ctx, attrs[k])
+		if err != nil {
 			return err
 		}
+		attrs[k] = v
 	}
 	return nil
 }
@@ -388,6 +396,12 @@ func replaceAttributeRefsInSlicedValue(ctx *ParseContext, elements []interface{}
 				return nil, err
 			}
 			result = append(result, v)
+		case *types.CounterSubstitution:
+			v, err := valueForCounter(ctx, e)
+			if err != nil {
+				return nil, err
+			}
+			result = append(result, v)
 		case []interface{}: // entries in Roles and Options
 			v, err := replaceAttributeRefsInSlicedValue(ctx, e)
 			if err != nil {
@@ -574,13 +588,12 @@ func valueForAttributeRef(ctx *ParseContext, a *types.AttributeReference) (inter
 
 func valueForCounter(ctx *ParseContext, c *types.CounterSubstitution) (string, error) {
 	counter := ctx.counters[c.Name]
-	if counter == nil {
-		counter = 0
-	}
 	increment := true
-	if c.Value != nil {
-		ctx.counters[c.Name] = c.Value
-		counter = c.Value
+	if counter == nil { // first use of the counter
+		counter = 1
+		if c.Value != nil {
+			counter = c.Value
+		}
 		increment = false
 	}
 	switch counter := counter.(type) {
diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 38d9be4..959e807 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2900, col: 10, offset: 91454},
+														pos: position{line: 2901, col: 10, offset: 91483},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2900, col: 10, offset: 91454},
+															pos:        position{line: 2901, col: 10, offset: 91483},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2922, col: 8, offset: 91852},
+													pos: position{line: 2923, col: 8, offset: 91881},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2909, col: 12, offset: 91625},
+															pos: position{line: 2910, col: 12, offset: 91654},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2909, col: 13, offset: 91626},
+																pos: position{line: 2910, col: 13, offset: 91655},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 13, offset: 91626},
+																		pos:        position{line: 2910, col: 13, offset: 91655},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 20, offset: 91633},
+																		pos:        position{line: 2910, col: 20, offset: 91662},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 29, offset: 91642},
+																		pos:        position{line: 2910, col: 29, offset: 91671},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2919, col: 8, offset: 91802},
+															pos: position{line: 2920, col: 8, offset: 91831},
 															expr: &anyMatcher{
-																line: 2919, col: 9, offset: 91803,
+																line: 2920, col: 9, offset: 91832,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2900, col: 10, offset: 91454},
+														pos: position{line: 2901, col: 10, offset: 91483},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2900, col: 10, offset: 91454},
+															pos:        position{line: 2901, col: 10, offset: 91483},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2922, col: 8, offset: 91852},
+													pos: position{line: 2923, col: 8, offset: 91881},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2909, col: 12, offset: 91625},
+															pos: position{line: 2910, col: 12, offset: 91654},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2909, col: 13, offset: 91626},
+																pos: position{line: 2910, col: 13, offset: 91655},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 13, offset: 91626},
+																		pos:        position{line: 2910, col: 13, offset: 91655},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 20, offset: 91633},
+																		pos:        position{line: 2910, col: 20, offset: 91662},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 29, offset: 91642},
+																		pos:        position{line: 2910, col: 29, offset: 91671},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2919, col: 8, offset: 91802},
+															pos: position{line: 2920, col: 8, offset: 91831},
 															expr: &anyMatcher{
-																line: 2919, col: 9, offset: 91803,
+																line: 2920, col: 9, offset: 91832,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2900, col: 10, offset: 91454},
+														pos: position{line: 2901, col: 10, offset: 91483},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2900, col: 10, offset: 91454},
+															pos:        position{line: 2901, col: 10, offset: 91483},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2919, col: 8, offset: 91802},
+													pos: position{line: 2920, col: 8, offset: 91831},
 													expr: &anyMatcher{
-														line: 2919, col: 9, offset: 91803,
+														line: 2920, col: 9, offset: 91832,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2900, col: 10, offset: 91454},
+														pos: position{line: 2901, col: 10, offset: 91483},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2900, col: 10, offset: 91454},
+															pos:        position{line: 2901, col: 10, offset: 91483},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2919, col: 8, offset: 91802},
+													pos: position{line: 2920, col: 8, offset: 91831},
 													expr: &anyMatcher{
-														line: 2919, col: 9, offset: 91803,
+														line: 2920, col: 9, offset: 91832,
 													},
 												},
 											},
@@ -464,22 +464,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 646, col: 5, offset: 20346},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
+																						pos: position{line: 646, col: 5, offset: 20346},
 																						run: (*parser).callonDocumentRawLine97,
 																						expr: &seqExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 646, col: 5, offset: 20346},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20319},
+																									pos:        position{line: 646, col: 5, offset: 20346},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20327},
+																									pos:   position{line: 646, col: 13, offset: 20354},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -511,7 +511,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20346},
+																									pos:        position{line: 646, col: 32, offset: 20373},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -520,19 +520,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
+																						pos: position{line: 653, col: 5, offset: 20614},
 																						run: (*parser).callonDocumentRawLine107,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 653, col: 5, offset: 20614},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20587},
+																									pos:        position{line: 653, col: 5, offset: 20614},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20591},
+																									pos:   position{line: 653, col: 9, offset: 20618},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -564,7 +564,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20610},
+																									pos:        position{line: 653, col: 28, offset: 20637},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -600,22 +600,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 646, col: 5, offset: 20346},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
+																						pos: position{line: 646, col: 5, offset: 20346},
 																						run: (*parser).callonDocumentRawLine123,
 																						expr: &seqExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 646, col: 5, offset: 20346},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20319},
+																									pos:        position{line: 646, col: 5, offset: 20346},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20327},
+																									pos:   position{line: 646, col: 13, offset: 20354},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -647,7 +647,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20346},
+																									pos:        position{line: 646, col: 32, offset: 20373},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -656,19 +656,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
+																						pos: position{line: 653, col: 5, offset: 20614},
 																						run: (*parser).callonDocumentRawLine133,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 653, col: 5, offset: 20614},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20587},
+																									pos:        position{line: 653, col: 5, offset: 20614},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20591},
+																									pos:   position{line: 653, col: 9, offset: 20618},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -700,7 +700,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20610},
+																									pos:        position{line: 653, col: 28, offset: 20637},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -727,22 +727,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 645, col: 5, offset: 20319},
+																		pos: position{line: 646, col: 5, offset: 20346},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 646, col: 5, offset: 20346},
 																				run: (*parser).callonDocumentRawLine147,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20319},
+																					pos: position{line: 646, col: 5, offset: 20346},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20319},
+																							pos:        position{line: 646, col: 5, offset: 20346},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20327},
+																							pos:   position{line: 646, col: 13, offset: 20354},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -774,7 +774,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20346},
+																							pos:        position{line: 646, col: 32, offset: 20373},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -783,19 +783,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20587},
+																				pos: position{line: 653, col: 5, offset: 20614},
 																				run: (*parser).callonDocumentRawLine157,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20587},
+																					pos: position{line: 653, col: 5, offset: 20614},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20587},
+																							pos:        position{line: 653, col: 5, offset: 20614},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20591},
+																							pos:   position{line: 653, col: 9, offset: 20618},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -827,7 +827,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20610},
+																							pos:        position{line: 653, col: 28, offset: 20637},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2892, col: 12, offset: 91281},
+																pos: position{line: 2893, col: 12, offset: 91310},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2892, col: 13, offset: 91282},
+																	pos: position{line: 2893, col: 13, offset: 91311},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2892, col: 13, offset: 91282},
+																			pos: position{line: 2893, col: 13, offset: 91311},
 																			expr: &litMatcher{
-																				pos:        position{line: 2892, col: 13, offset: 91282},
+																				pos:        position{line: 2893, col: 13, offset: 91311},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2892, col: 18, offset: 91287},
+																			pos: position{line: 2893, col: 18, offset: 91316},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2892, col: 18, offset: 91287},
+																				pos:        position{line: 2893, col: 18, offset: 91316},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2900, col: 10, offset: 91454},
+														pos: position{line: 2901, col: 10, offset: 91483},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2900, col: 10, offset: 91454},
+															pos:        position{line: 2901, col: 10, offset: 91483},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2900, col: 10, offset: 91454},
+														pos: position{line: 2901, col: 10, offset: 91483},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2900, col: 10, offset: 91454},
+															pos:        position{line: 2901, col: 10, offset: 91483},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1069,22 +1069,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 646, col: 5, offset: 20346},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
+																						pos: position{line: 646, col: 5, offset: 20346},
 																						run: (*parser).callonDocumentRawLine216,
 																						expr: &seqExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 646, col: 5, offset: 20346},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20319},
+																									pos:        position{line: 646, col: 5, offset: 20346},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20327},
+																									pos:   position{line: 646, col: 13, offset: 20354},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -1116,7 +1116,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20346},
+																									pos:        position{line: 646, col: 32, offset: 20373},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1125,19 +1125,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
+																						pos: position{line: 653, col: 5, offset: 20614},
 																						run: (*parser).callonDocumentRawLine226,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 653, col: 5, offset: 20614},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20587},
+																									pos:        position{line: 653, col: 5, offset: 20614},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20591},
+																									pos:   position{line: 653, col: 9, offset: 20618},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -1169,7 +1169,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20610},
+																									pos:        position{line: 653, col: 28, offset: 20637},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1205,22 +1205,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 646, col: 5, offset: 20346},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
+																						pos: position{line: 646, col: 5, offset: 20346},
 																						run: (*parser).callonDocumentRawLine242,
 																						expr: &seqExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 646, col: 5, offset: 20346},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20319},
+																									pos:        position{line: 646, col: 5, offset: 20346},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20327},
+																									pos:   position{line: 646, col: 13, offset: 20354},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -1252,7 +1252,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20346},
+																									pos:        position{line: 646, col: 32, offset: 20373},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1261,19 +1261,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
+																						pos: position{line: 653, col: 5, offset: 20614},
 																						run: (*parser).callonDocumentRawLine252,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 653, col: 5, offset: 20614},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20587},
+																									pos:        position{line: 653, col: 5, offset: 20614},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20591},
+																									pos:   position{line: 653, col: 9, offset: 20618},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -1305,7 +1305,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20610},
+																									pos:        position{line: 653, col: 28, offset: 20637},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1332,22 +1332,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 645, col: 5, offset: 20319},
+																		pos: position{line: 646, col: 5, offset: 20346},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 646, col: 5, offset: 20346},
 																				run: (*parser).callonDocumentRawLine266,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20319},
+																					pos: position{line: 646, col: 5, offset: 20346},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20319},
+																							pos:        position{line: 646, col: 5, offset: 20346},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20327},
+																							pos:   position{line: 646, col: 13, offset: 20354},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -1379,7 +1379,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20346},
+																							pos:        position{line: 646, col: 32, offset: 20373},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1388,19 +1388,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20587},
+																				pos: position{line: 653, col: 5, offset: 20614},
 																				run: (*parser).callonDocumentRawLine276,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20587},
+																					pos: position{line: 653, col: 5, offset: 20614},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20587},
+																							pos:        position{line: 653, col: 5, offset: 20614},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20591},
+																							pos:   position{line: 653, col: 9, offset: 20618},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -1432,7 +1432,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20610},
+																							pos:        position{line: 653, col: 28, offset: 20637},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2892, col: 12, offset: 91281},
+																pos: position{line: 2893, col: 12, offset: 91310},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2892, col: 13, offset: 91282},
+																	pos: position{line: 2893, col: 13, offset: 91311},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2892, col: 13, offset: 91282},
+																			pos: position{line: 2893, col: 13, offset: 91311},
 																			expr: &litMatcher{
-																				pos:        position{line: 2892, col: 13, offset: 91282},
+																				pos:        position{line: 2893, col: 13, offset: 91311},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2892, col: 18, offset: 91287},
+																			pos: position{line: 2893, col: 18, offset: 91316},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2892, col: 18, offset: 91287},
+																				pos:        position{line: 2893, col: 18, offset: 91316},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2900, col: 10, offset: 91454},
+														pos: position{line: 2901, col: 10, offset: 91483},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2900, col: 10, offset: 91454},
+															pos:        position{line: 2901, col: 10, offset: 91483},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2919, col: 8, offset: 91802},
+													pos: position{line: 2920, col: 8, offset: 91831},
 													expr: &anyMatcher{
-														line: 2919, col: 9, offset: 91803,
+														line: 2920, col: 9, offset: 91832,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2900, col: 10, offset: 91454},
+														pos: position{line: 2901, col: 10, offset: 91483},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2900, col: 10, offset: 91454},
+															pos:        position{line: 2901, col: 10, offset: 91483},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,24 +1665,24 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2919, col: 8, offset: 91802},
+													pos: position{line: 2920, col: 8, offset: 91831},
 													expr: &anyMatcher{
-														line: 2919, col: 9, offset: 91803,
+														line: 2920, col: 9, offset: 91832,
 													},
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 724, col: 5, offset: 23042},
+										pos: position{line: 725, col: 5, offset: 23071},
 										run: (*parser).callonDocumentRawLine334,
 										expr: &seqExpr{
-											pos: position{line: 724, col: 5, offset: 23042},
+											pos: position{line: 725, col: 5, offset: 23071},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 724, col: 5, offset: 23042},
+													pos: position{line: 725, col: 5, offset: 23071},
 													expr: &charClassMatcher{
-														pos:        position{line: 2790, col: 13, offset: 88549},
+														pos:        position{line: 2791, col: 13, offset: 88578},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1690,36 +1690,36 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 725, col: 5, offset: 23072},
+													pos:   position{line: 726, col: 5, offset: 23101},
 													label: "delimiter",
 													expr: &choiceExpr{
-														pos: position{line: 726, col: 9, offset: 23092},
+														pos: position{line: 727, col: 9, offset: 23121},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23584},
+																pos: position{line: 741, col: 5, offset: 23613},
 																run: (*parser).callonDocumentRawLine340,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
+																	pos: position{line: 741, col: 5, offset: 23613},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23584},
+																			pos:   position{line: 741, col: 5, offset: 23613},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23595},
+																				pos: position{line: 741, col: 16, offset: 23624},
 																				run: (*parser).callonDocumentRawLine343,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
+																					pos: position{line: 741, col: 16, offset: 23624},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23595},
+																							pos:        position{line: 741, col: 16, offset: 23624},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23602},
+																							pos: position{line: 741, col: 23, offset: 23631},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23602},
+																								pos:        position{line: 741, col: 23, offset: 23631},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -1730,12 +1730,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23686},
+																			pos: position{line: 743, col: 8, offset: 23715},
 																			expr: &actionExpr{
-																				pos: position{line: 2900, col: 10, offset: 91454},
+																				pos: position{line: 2901, col: 10, offset: 91483},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2900, col: 10, offset: 91454},
+																					pos:        position{line: 2901, col: 10, offset: 91483},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2922, col: 8, offset: 91852},
+																			pos: position{line: 2923, col: 8, offset: 91881},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2909, col: 12, offset: 91625},
+																					pos: position{line: 2910, col: 12, offset: 91654},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2909, col: 13, offset: 91626},
+																						pos: position{line: 2910, col: 13, offset: 91655},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 13, offset: 91626},
+																								pos:        position{line: 2910, col: 13, offset: 91655},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 20, offset: 91633},
+																								pos:        position{line: 2910, col: 20, offset: 91662},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 29, offset: 91642},
+																								pos:        position{line: 2910, col: 29, offset: 91671},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
@@ -1785,30 +1785,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 747, col: 5, offset: 23832},
+																pos: position{line: 748, col: 5, offset: 23861},
 																run: (*parser).callonDocumentRawLine359,
 																expr: &seqExpr{
-																	pos: position{line: 747, col: 5, offset: 23832},
+																	pos: position{line: 748, col: 5, offset: 23861},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 747, col: 5, offset: 23832},
+																			pos:   position{line: 748, col: 5, offset: 23861},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 747, col: 16, offset: 23843},
+																				pos: position{line: 748, col: 16, offset: 23872},
 																				run: (*parser).callonDocumentRawLine362,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 16, offset: 23843},
+																					pos: position{line: 748, col: 16, offset: 23872},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 747, col: 16, offset: 23843},
+																							pos:        position{line: 748, col: 16, offset: 23872},
 																							val:        "====",
 																							ignoreCase: false,
 																							want:       "\"====\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 747, col: 23, offset: 23850},
+																							pos: position{line: 748, col: 23, offset: 23879},
 																							expr: &litMatcher{
-																								pos:        position{line: 747, col: 23, offset: 23850},
+																								pos:        position{line: 748, col: 23, offset: 23879},
 																								val:        "=",
 																								ignoreCase: false,
 																								want:       "\"=\"",
@@ -1819,12 +1819,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 749, col: 8, offset: 23934},
+																			pos: position{line: 750, col: 8, offset: 23963},
 																			expr: &actionExpr{
-																				pos: position{line: 2900, col: 10, offset: 91454},
+																				pos: position{line: 2901, col: 10, offset: 91483},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2900, col: 10, offset: 91454},
+																					pos:        position{line: 2901, col: 10, offset: 91483},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2922, col: 8, offset: 91852},
+																			pos: position{line: 2923, col: 8, offset: 91881},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2909, col: 12, offset: 91625},
+																					pos: position{line: 2910, col: 12, offset: 91654},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2909, col: 13, offset: 91626},
+																						pos: position{line: 2910, col: 13, offset: 91655},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 13, offset: 91626},
+																								pos:        position{line: 2910, col: 13, offset: 91655},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 20, offset: 91633},
+																								pos:        position{line: 2910, col: 20, offset: 91662},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 29, offset: 91642},
+																								pos:        position{line: 2910, col: 29, offset: 91671},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
@@ -1874,27 +1874,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 760, col: 26, offset: 24320},
+																pos: position{line: 761, col: 26, offset: 24349},
 																run: (*parser).callonDocumentRawLine378,
 																expr: &seqExpr{
-																	pos: position{line: 760, col: 26, offset: 24320},
+																	pos: position{line: 761, col: 26, offset: 24349},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 760, col: 26, offset: 24320},
+																			pos:        position{line: 761, col: 26, offset: 24349},
 																			val:        "```",
 																			ignoreCase: false,
 																			want:       "\"```\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 760, col: 32, offset: 24326},
+																			pos:   position{line: 761, col: 32, offset: 24355},
 																			label: "language",
 																			expr: &actionExpr{
-																				pos: position{line: 764, col: 13, offset: 24456},
+																				pos: position{line: 765, col: 13, offset: 24485},
 																				run: (*parser).callonDocumentRawLine382,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 764, col: 14, offset: 24457},
+																					pos: position{line: 765, col: 14, offset: 24486},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 764, col: 14, offset: 24457},
+																						pos:        position{line: 765, col: 14, offset: 24486},
 																						val:        "[^\\r\\n` ]",
 																						chars:      []rune{'\r', '\n', '`', ' '},
 																						ignoreCase: false,
@@ -1904,12 +1904,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 760, col: 52, offset: 24346},
+																			pos: position{line: 761, col: 52, offset: 24375},
 																			expr: &actionExpr{
-																				pos: position{line: 2900, col: 10, offset: 91454},
+																				pos: position{line: 2901, col: 10, offset: 91483},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2900, col: 10, offset: 91454},
+																					pos:        position{line: 2901, col: 10, offset: 91483},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2922, col: 8, offset: 91852},
+																			pos: position{line: 2923, col: 8, offset: 91881},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2909, col: 12, offset: 91625},
+																					pos: position{line: 2910, col: 12, offset: 91654},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2909, col: 13, offset: 91626},
+																						pos: position{line: 2910, col: 13, offset: 91655},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 13, offset: 91626},
+																								pos:        position{line: 2910, col: 13, offset: 91655},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 20, offset: 91633},
+																								pos:        position{line: 2910, col: 20, offset: 91662},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 29, offset: 91642},
+																								pos:        position{line: 2910, col: 29, offset: 91671},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
@@ -1959,30 +1959,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 754, col: 5, offset: 24079},
+																pos: position{line: 755, col: 5, offset: 24108},
 																run: (*parser).callonDocumentRawLine396,
 																expr: &seqExpr{
-																	pos: position{line: 754, col: 5, offset: 24079},
+																	pos: position{line: 755, col: 5, offset: 24108},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 754, col: 5, offset: 24079},
+																			pos:   position{line: 755, col: 5, offset: 24108},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 754, col: 16, offset: 24090},
+																				pos: position{line: 755, col: 16, offset: 24119},
 																				run: (*parser).callonDocumentRawLine399,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 16, offset: 24090},
+																					pos: position{line: 755, col: 16, offset: 24119},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 754, col: 16, offset: 24090},
+																							pos:        position{line: 755, col: 16, offset: 24119},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 754, col: 22, offset: 24096},
+																							pos: position{line: 755, col: 22, offset: 24125},
 																							expr: &litMatcher{
-																								pos:        position{line: 754, col: 22, offset: 24096},
+																								pos:        position{line: 755, col: 22, offset: 24125},
 																								val:        "`",
 																								ignoreCase: false,
 																								want:       "\"`\"",
@@ -1993,12 +1993,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 756, col: 8, offset: 24180},
+																			pos: position{line: 757, col: 8, offset: 24209},
 																			expr: &actionExpr{
-																				pos: position{line: 2900, col: 10, offset: 91454},
+																				pos: position{line: 2901, col: 10, offset: 91483},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2900, col: 10, offset: 91454},
+																					pos:        position{line: 2901, col: 10, offset: 91483},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2922, col: 8, offset: 91852},
+																			pos: position{line: 2923, col: 8, offset: 91881},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2909, col: 12, offset: 91625},
+																					pos: position{line: 2910, col: 12, offset: 91654},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2909, col: 13, offset: 91626},
+																						pos: position{line: 2910, col: 13, offset: 91655},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 13, offset: 91626},
+																								pos:        position{line: 2910, col: 13, offset: 91655},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 20, offset: 91633},
+																								pos:        position{line: 2910, col: 20, offset: 91662},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 29, offset: 91642},
+																								pos:        position{line: 2910, col: 29, offset: 91671},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
@@ -2048,30 +2048,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 769, col: 5, offset: 24616},
+																pos: position{line: 770, col: 5, offset: 24645},
 																run: (*parser).callonDocumentRawLine415,
 																expr: &seqExpr{
-																	pos: position{line: 769, col: 5, offset: 24616},
+																	pos: position{line: 770, col: 5, offset: 24645},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 769, col: 5, offset: 24616},
+																			pos:   position{line: 770, col: 5, offset: 24645},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 769, col: 16, offset: 24627},
+																				pos: position{line: 770, col: 16, offset: 24656},
 																				run: (*parser).callonDocumentRawLine418,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 16, offset: 24627},
+																					pos: position{line: 770, col: 16, offset: 24656},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 769, col: 16, offset: 24627},
+																							pos:        position{line: 770, col: 16, offset: 24656},
 																							val:        "----",
 																							ignoreCase: false,
 																							want:       "\"----\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 769, col: 23, offset: 24634},
+																							pos: position{line: 770, col: 23, offset: 24663},
 																							expr: &litMatcher{
-																								pos:        position{line: 769, col: 23, offset: 24634},
+																								pos:        position{line: 770, col: 23, offset: 24663},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
@@ -2082,12 +2082,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 771, col: 8, offset: 24718},
+																			pos: position{line: 772, col: 8, offset: 24747},
 																			expr: &actionExpr{
-																				pos: position{line: 2900, col: 10, offset: 91454},
+																				pos: position{line: 2901, col: 10, offset: 91483},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2900, col: 10, offset: 91454},
+																					pos:        position{line: 2901, col: 10, offset: 91483},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2922, col: 8, offset: 91852},
+																			pos: position{line: 2923, col: 8, offset: 91881},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2909, col: 12, offset: 91625},
+																					pos: position{line: 2910, col: 12, offset: 91654},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2909, col: 13, offset: 91626},
+																						pos: position{line: 2910, col: 13, offset: 91655},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 13, offset: 91626},
+																								pos:        position{line: 2910, col: 13, offset: 91655},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 20, offset: 91633},
+																								pos:        position{line: 2910, col: 20, offset: 91662},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 29, offset: 91642},
+																								pos:        position{line: 2910, col: 29, offset: 91671},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
@@ -2137,30 +2137,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 783, col: 5, offset: 25092},
+																pos: position{line: 784, col: 5, offset: 25121},
 																run: (*parser).callonDocumentRawLine434,
 																expr: &seqExpr{
-																	pos: position{line: 783, col: 5, offset: 25092},
+																	pos: position{line: 784, col: 5, offset: 25121},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 783, col: 5, offset: 25092},
+																			pos:   position{line: 784, col: 5, offset: 25121},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 783, col: 16, offset: 25103},
+																				pos: position{line: 784, col: 16, offset: 25132},
 																				run: (*parser).callonDocumentRawLine437,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 16, offset: 25103},
+																					pos: position{line: 784, col: 16, offset: 25132},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 783, col: 16, offset: 25103},
+																							pos:        position{line: 784, col: 16, offset: 25132},
 																							val:        "....",
 																							ignoreCase: false,
 																							want:       "\"....\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 783, col: 23, offset: 25110},
+																							pos: position{line: 784, col: 23, offset: 25139},
 																							expr: &litMatcher{
-																								pos:        position{line: 783, col: 23, offset: 25110},
+																								pos:        position{line: 784, col: 23, offset: 25139},
 																								val:        ".",
 																								ignoreCase: false,
 																								want:       "\".\"",
@@ -2171,12 +2171,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 785, col: 8, offset: 25194},
+																			pos: position{line: 786, col: 8, offset: 25223},
 																			expr: &actionExpr{
-																				pos: position{line: 2900, col: 10, offset: 91454},
+																				pos: position{line: 2901, col: 10, offset: 91483},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2900, col: 10, offset: 91454},
+																					pos:        position{line: 2901, col: 10, offset: 91483},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2922, col: 8, offset: 91852},
+																			pos: position{line: 2923, col: 8, offset: 91881},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2909, col: 12, offset: 91625},
+																					pos: position{line: 2910, col: 12, offset: 91654},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2909, col: 13, offset: 91626},
+																						pos: position{line: 2910, col: 13, offset: 91655},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 13, offset: 91626},
+																								pos:        position{line: 2910, col: 13, offset: 91655},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 20, offset: 91633},
+																								pos:        position{line: 2910, col: 20, offset: 91662},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 29, offset: 91642},
+																								pos:        position{line: 2910, col: 29, offset: 91671},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
@@ -2226,30 +2226,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 790, col: 5, offset: 25344},
+																pos: position{line: 791, col: 5, offset: 25373},
 																run: (*parser).callonDocumentRawLine453,
 																expr: &seqExpr{
-																	pos: position{line: 790, col: 5, offset: 25344},
+																	pos: position{line: 791, col: 5, offset: 25373},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 790, col: 5, offset: 25344},
+																			pos:   position{line: 791, col: 5, offset: 25373},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 790, col: 16, offset: 25355},
+																				pos: position{line: 791, col: 16, offset: 25384},
 																				run: (*parser).callonDocumentRawLine456,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 16, offset: 25355},
+																					pos: position{line: 791, col: 16, offset: 25384},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 790, col: 16, offset: 25355},
+																							pos:        position{line: 791, col: 16, offset: 25384},
 																							val:        "++++",
 																							ignoreCase: false,
 																							want:       "\"++++\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 790, col: 23, offset: 25362},
+																							pos: position{line: 791, col: 23, offset: 25391},
 																							expr: &litMatcher{
-																								pos:        position{line: 790, col: 23, offset: 25362},
+																								pos:        position{line: 791, col: 23, offset: 25391},
 																								val:        "+",
 																								ignoreCase: false,
 																								want:       "\"+\"",
@@ -2260,12 +2260,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 792, col: 8, offset: 25446},
+																			pos: position{line: 793, col: 8, offset: 25475},
 																			expr: &actionExpr{
-																				pos: position{line: 2900, col: 10, offset: 91454},
+																				pos: position{line: 2901, col: 10, offset: 91483},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2900, col: 10, offset: 91454},
+																					pos:        position{line: 2901, col: 10, offset: 91483},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2922, col: 8, offset: 91852},
+																			pos: position{line: 2923, col: 8, offset: 91881},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2909, col: 12, offset: 91625},
+																					pos: position{line: 2910, col: 12, offset: 91654},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2909, col: 13, offset: 91626},
+																						pos: position{line: 2910, col: 13, offset: 91655},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 13, offset: 91626},
+																								pos:        position{line: 2910, col: 13, offset: 91655},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 20, offset: 91633},
+																								pos:        position{line: 2910, col: 20, offset: 91662},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 29, offset: 91642},
+																								pos:        position{line: 2910, col: 29, offset: 91671},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
@@ -2315,30 +2315,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 797, col: 5, offset: 25594},
+																pos: position{line: 798, col: 5, offset: 25623},
 																run: (*parser).callonDocumentRawLine472,
 																expr: &seqExpr{
-																	pos: position{line: 797, col: 5, offset: 25594},
+																	pos: position{line: 798, col: 5, offset: 25623},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 797, col: 5, offset: 25594},
+																			pos:   position{line: 798, col: 5, offset: 25623},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 797, col: 16, offset: 25605},
+																				pos: position{line: 798, col: 16, offset: 25634},
 																				run: (*parser).callonDocumentRawLine475,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 16, offset: 25605},
+																					pos: position{line: 798, col: 16, offset: 25634},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 797, col: 16, offset: 25605},
+																							pos:        position{line: 798, col: 16, offset: 25634},
 																							val:        "____",
 																							ignoreCase: false,
 																							want:       "\"____\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 797, col: 23, offset: 25612},
+																							pos: position{line: 798, col: 23, offset: 25641},
 																							expr: &litMatcher{
-																								pos:        position{line: 797, col: 23, offset: 25612},
+																								pos:        position{line: 798, col: 23, offset: 25641},
 																								val:        "_",
 																								ignoreCase: false,
 																								want:       "\"_\"",
@@ -2349,12 +2349,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 799, col: 8, offset: 25696},
+																			pos: position{line: 800, col: 8, offset: 25725},
 																			expr: &actionExpr{
-																				pos: position{line: 2900, col: 10, offset: 91454},
+																				pos: position{line: 2901, col: 10, offset: 91483},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2900, col: 10, offset: 91454},
+																					pos:        position{line: 2901, col: 10, offset: 91483},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2922, col: 8, offset: 91852},
+																			pos: position{line: 2923, col: 8, offset: 91881},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2909, col: 12, offset: 91625},
+																					pos: position{line: 2910, col: 12, offset: 91654},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2909, col: 13, offset: 91626},
+																						pos: position{line: 2910, col: 13, offset: 91655},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 13, offset: 91626},
+																								pos:        position{line: 2910, col: 13, offset: 91655},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 20, offset: 91633},
+																								pos:        position{line: 2910, col: 20, offset: 91662},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 29, offset: 91642},
+																								pos:        position{line: 2910, col: 29, offset: 91671},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
@@ -2404,30 +2404,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 804, col: 5, offset: 25840},
+																pos: position{line: 805, col: 5, offset: 25869},
 																run: (*parser).callonDocumentRawLine491,
 																expr: &seqExpr{
-																	pos: position{line: 804, col: 5, offset: 25840},
+																	pos: position{line: 805, col: 5, offset: 25869},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 804, col: 5, offset: 25840},
+																			pos:   position{line: 805, col: 5, offset: 25869},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 804, col: 16, offset: 25851},
+																				pos: position{line: 805, col: 16, offset: 25880},
 																				run: (*parser).callonDocumentRawLine494,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 16, offset: 25851},
+																					pos: position{line: 805, col: 16, offset: 25880},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 804, col: 16, offset: 25851},
+																							pos:        position{line: 805, col: 16, offset: 25880},
 																							val:        "****",
 																							ignoreCase: false,
 																							want:       "\"****\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 804, col: 23, offset: 25858},
+																							pos: position{line: 805, col: 23, offset: 25887},
 																							expr: &litMatcher{
-																								pos:        position{line: 804, col: 23, offset: 25858},
+																								pos:        position{line: 805, col: 23, offset: 25887},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -2438,12 +2438,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 806, col: 8, offset: 25942},
+																			pos: position{line: 807, col: 8, offset: 25971},
 																			expr: &actionExpr{
-																				pos: position{line: 2900, col: 10, offset: 91454},
+																				pos: position{line: 2901, col: 10, offset: 91483},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2900, col: 10, offset: 91454},
+																					pos:        position{line: 2901, col: 10, offset: 91483},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2922, col: 8, offset: 91852},
+																			pos: position{line: 2923, col: 8, offset: 91881},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2909, col: 12, offset: 91625},
+																					pos: position{line: 2910, col: 12, offset: 91654},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2909, col: 13, offset: 91626},
+																						pos: position{line: 2910, col: 13, offset: 91655},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 13, offset: 91626},
+																								pos:        position{line: 2910, col: 13, offset: 91655},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 20, offset: 91633},
+																								pos:        position{line: 2910, col: 20, offset: 91662},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 29, offset: 91642},
+																								pos:        position{line: 2910, col: 29, offset: 91671},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2904, col: 11, offset: 91515},
+													pos: position{line: 2905, col: 11, offset: 91544},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2904, col: 11, offset: 91515},
+														pos: position{line: 2905, col: 11, offset: 91544},
 														expr: &charClassMatcher{
-															pos:        position{line: 2904, col: 11, offset: 91515},
+															pos:        position{line: 2905, col: 11, offset: 91544},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2850, col: 14, offset: 90047},
+													pos: position{line: 2851, col: 14, offset: 90076},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2850, col: 14, offset: 90047},
+														pos: position{line: 2851, col: 14, offset: 90076},
 														expr: &charClassMatcher{
-															pos:        position{line: 2850, col: 14, offset: 90047},
+															pos:        position{line: 2851, col: 14, offset: 90076},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2919, col: 8, offset: 91802},
+													pos: position{line: 2920, col: 8, offset: 91831},
 													expr: &anyMatcher{
-														line: 2919, col: 9, offset: 91803,
+														line: 2920, col: 9, offset: 91832,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2919, col: 8, offset: 91802},
+							pos: position{line: 2920, col: 8, offset: 91831},
 							expr: &anyMatcher{
-								line: 2919, col: 9, offset: 91803,
+								line: 2920, col: 9, offset: 91832,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2854, col: 17, offset: 90117},
+												pos: position{line: 2855, col: 17, offset: 90146},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2854, col: 17, offset: 90117},
+													pos:   position{line: 2855, col: 17, offset: 90146},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2871, col: 5, offset: 90571},
+														pos: position{line: 2872, col: 5, offset: 90600},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2871, col: 5, offset: 90571},
+															pos:   position{line: 2872, col: 5, offset: 90600},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2871, col: 14, offset: 90580},
+																pos: position{line: 2872, col: 14, offset: 90609},
 																expr: &choiceExpr{
-																	pos: position{line: 2872, col: 9, offset: 90590},
+																	pos: position{line: 2873, col: 9, offset: 90619},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 9, offset: 90590},
+																			pos: position{line: 2873, col: 9, offset: 90619},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2872, col: 9, offset: 90590},
+																				pos: position{line: 2873, col: 9, offset: 90619},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2872, col: 9, offset: 90590},
+																						pos: position{line: 2873, col: 9, offset: 90619},
 																						expr: &litMatcher{
-																							pos:        position{line: 2872, col: 10, offset: 90591},
+																							pos:        position{line: 2873, col: 10, offset: 90620},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2873, col: 9, offset: 90619},
+																						pos: position{line: 2874, col: 9, offset: 90648},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90620},
+																							pos:        position{line: 2874, col: 10, offset: 90649},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2876, col: 11, offset: 90832},
+																			pos: position{line: 2877, col: 11, offset: 90861},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2876, col: 11, offset: 90832},
+																					pos:        position{line: 2877, col: 11, offset: 90861},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2876, col: 19, offset: 90840},
+																					pos: position{line: 2877, col: 19, offset: 90869},
 																					expr: &seqExpr{
-																						pos: position{line: 2876, col: 21, offset: 90842},
+																						pos: position{line: 2877, col: 21, offset: 90871},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2876, col: 21, offset: 90842},
+																								pos: position{line: 2877, col: 21, offset: 90871},
 																								expr: &actionExpr{
-																									pos: position{line: 2900, col: 10, offset: 91454},
+																									pos: position{line: 2901, col: 10, offset: 91483},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2900, col: 10, offset: 91454},
+																										pos:        position{line: 2901, col: 10, offset: 91483},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2876, col: 28, offset: 90849},
+																								pos: position{line: 2877, col: 28, offset: 90878},
 																								expr: &notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -2699,35 +2699,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 637, col: 5, offset: 20136},
 																			run: (*parser).callonFileInclusion30,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 637, col: 5, offset: 20136},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 637, col: 5, offset: 20136},
 																						run: (*parser).callonFileInclusion32,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 640, col: 5, offset: 20208},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 640, col: 14, offset: 20217},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 646, col: 5, offset: 20346},
 																									run: (*parser).callonFileInclusion35,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 646, col: 5, offset: 20346},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 646, col: 5, offset: 20346},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 646, col: 13, offset: 20354},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -2759,7 +2759,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 646, col: 32, offset: 20373},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2768,19 +2768,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 653, col: 5, offset: 20614},
 																									run: (*parser).callonFileInclusion45,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 653, col: 5, offset: 20614},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 653, col: 5, offset: 20614},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 653, col: 9, offset: 20618},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -2812,7 +2812,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 653, col: 28, offset: 20637},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2821,19 +2821,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 659, col: 25, offset: 20818},
 																									run: (*parser).callonFileInclusion55,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 659, col: 25, offset: 20818},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 659, col: 25, offset: 20818},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 659, col: 37, offset: 20830},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -2865,33 +2865,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 659, col: 56, offset: 20849},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 659, col: 62, offset: 20855},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 667, col: 17, offset: 21152},
 																														run: (*parser).callonFileInclusion66,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 667, col: 17, offset: 21152},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 667, col: 17, offset: 21152},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 667, col: 21, offset: 21156},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 667, col: 28, offset: 21163},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 667, col: 28, offset: 21163},
 																																				run: (*parser).callonFileInclusion71,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 667, col: 28, offset: 21163},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -2899,12 +2899,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 669, col: 9, offset: 21217},
 																																				run: (*parser).callonFileInclusion73,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 669, col: 9, offset: 21217},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 669, col: 9, offset: 21217},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -2921,7 +2921,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 659, col: 78, offset: 20871},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2930,19 +2930,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 663, col: 25, offset: 20989},
 																									run: (*parser).callonFileInclusion77,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 663, col: 25, offset: 20989},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 663, col: 25, offset: 20989},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 663, col: 38, offset: 21002},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -2974,33 +2974,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 663, col: 57, offset: 21021},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 663, col: 63, offset: 21027},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 667, col: 17, offset: 21152},
 																														run: (*parser).callonFileInclusion88,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 667, col: 17, offset: 21152},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 667, col: 17, offset: 21152},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 667, col: 21, offset: 21156},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 667, col: 28, offset: 21163},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 667, col: 28, offset: 21163},
 																																				run: (*parser).callonFileInclusion93,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 667, col: 28, offset: 21163},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3008,12 +3008,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 669, col: 9, offset: 21217},
 																																				run: (*parser).callonFileInclusion95,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 669, col: 9, offset: 21217},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 669, col: 9, offset: 21217},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3030,7 +3030,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 663, col: 79, offset: 21043},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -3045,27 +3045,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1199, col: 23, offset: 37001},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1199, col: 23, offset: 37001},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1197, col: 32, offset: 36969},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1199, col: 51, offset: 37029},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1199, col: 56, offset: 37034},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1199, col: 56, offset: 37034},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1199, col: 56, offset: 37034},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3075,7 +3075,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1197, col: 32, offset: 36969},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2879, col: 11, offset: 90969},
+																			pos: position{line: 2880, col: 11, offset: 90998},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2879, col: 11, offset: 90969},
+																				pos:        position{line: 2880, col: 11, offset: 90998},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2900, col: 10, offset: 91454},
+								pos: position{line: 2901, col: 10, offset: 91483},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2900, col: 10, offset: 91454},
+									pos:        position{line: 2901, col: 10, offset: 91483},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2922, col: 8, offset: 91852},
+							pos: position{line: 2923, col: 8, offset: 91881},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2909, col: 12, offset: 91625},
+									pos: position{line: 2910, col: 12, offset: 91654},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2909, col: 13, offset: 91626},
+										pos: position{line: 2910, col: 13, offset: 91655},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2909, col: 13, offset: 91626},
+												pos:        position{line: 2910, col: 13, offset: 91655},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2909, col: 20, offset: 91633},
+												pos:        position{line: 2910, col: 20, offset: 91662},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2909, col: 29, offset: 91642},
+												pos:        position{line: 2910, col: 29, offset: 91671},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2919, col: 8, offset: 91802},
+									pos: position{line: 2920, col: 8, offset: 91831},
 									expr: &anyMatcher{
-										line: 2919, col: 9, offset: 91803,
+										line: 2920, col: 9, offset: 91832,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2892, col: 12, offset: 91281},
+																				pos: position{line: 2893, col: 12, offset: 91310},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2892, col: 13, offset: 91282},
+																					pos: position{line: 2893, col: 13, offset: 91311},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2892, col: 13, offset: 91282},
+																							pos: position{line: 2893, col: 13, offset: 91311},
 																							expr: &litMatcher{
-																								pos:        position{line: 2892, col: 13, offset: 91282},
+																								pos:        position{line: 2893, col: 13, offset: 91311},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2892, col: 18, offset: 91287},
+																							pos: position{line: 2893, col: 18, offset: 91316},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2892, col: 18, offset: 91287},
+																								pos:        position{line: 2893, col: 18, offset: 91316},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2892, col: 12, offset: 91281},
+																				pos: position{line: 2893, col: 12, offset: 91310},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2892, col: 13, offset: 91282},
+																					pos: position{line: 2893, col: 13, offset: 91311},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2892, col: 13, offset: 91282},
+																							pos: position{line: 2893, col: 13, offset: 91311},
 																							expr: &litMatcher{
-																								pos:        position{line: 2892, col: 13, offset: 91282},
+																								pos:        position{line: 2893, col: 13, offset: 91311},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2892, col: 18, offset: 91287},
+																							pos: position{line: 2893, col: 18, offset: 91316},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2892, col: 18, offset: 91287},
+																								pos:        position{line: 2893, col: 18, offset: 91316},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2892, col: 12, offset: 91281},
+																		pos: position{line: 2893, col: 12, offset: 91310},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2892, col: 13, offset: 91282},
+																			pos: position{line: 2893, col: 13, offset: 91311},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2892, col: 13, offset: 91282},
+																					pos: position{line: 2893, col: 13, offset: 91311},
 																					expr: &litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91282},
+																						pos:        position{line: 2893, col: 13, offset: 91311},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2892, col: 18, offset: 91287},
+																					pos: position{line: 2893, col: 18, offset: 91316},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2892, col: 18, offset: 91287},
+																						pos:        position{line: 2893, col: 18, offset: 91316},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91281},
+																									pos: position{line: 2893, col: 12, offset: 91310},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2892, col: 13, offset: 91282},
+																										pos: position{line: 2893, col: 13, offset: 91311},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2892, col: 13, offset: 91282},
+																												pos: position{line: 2893, col: 13, offset: 91311},
 																												expr: &litMatcher{
-																													pos:        position{line: 2892, col: 13, offset: 91282},
+																													pos:        position{line: 2893, col: 13, offset: 91311},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2892, col: 18, offset: 91287},
+																												pos: position{line: 2893, col: 18, offset: 91316},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2892, col: 18, offset: 91287},
+																													pos:        position{line: 2893, col: 18, offset: 91316},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91281},
+																									pos: position{line: 2893, col: 12, offset: 91310},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2892, col: 13, offset: 91282},
+																										pos: position{line: 2893, col: 13, offset: 91311},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2892, col: 13, offset: 91282},
+																												pos: position{line: 2893, col: 13, offset: 91311},
 																												expr: &litMatcher{
-																													pos:        position{line: 2892, col: 13, offset: 91282},
+																													pos:        position{line: 2893, col: 13, offset: 91311},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2892, col: 18, offset: 91287},
+																												pos: position{line: 2893, col: 18, offset: 91316},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2892, col: 18, offset: 91287},
+																													pos:        position{line: 2893, col: 18, offset: 91316},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 12, offset: 91281},
+																							pos: position{line: 2893, col: 12, offset: 91310},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2892, col: 13, offset: 91282},
+																								pos: position{line: 2893, col: 13, offset: 91311},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2892, col: 13, offset: 91282},
+																										pos: position{line: 2893, col: 13, offset: 91311},
 																										expr: &litMatcher{
-																											pos:        position{line: 2892, col: 13, offset: 91282},
+																											pos:        position{line: 2893, col: 13, offset: 91311},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2892, col: 18, offset: 91287},
+																										pos: position{line: 2893, col: 18, offset: 91316},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2892, col: 18, offset: 91287},
+																											pos:        position{line: 2893, col: 18, offset: 91316},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2892, col: 12, offset: 91281},
+														pos: position{line: 2893, col: 12, offset: 91310},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2892, col: 13, offset: 91282},
+															pos: position{line: 2893, col: 13, offset: 91311},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2892, col: 13, offset: 91282},
+																	pos: position{line: 2893, col: 13, offset: 91311},
 																	expr: &litMatcher{
-																		pos:        position{line: 2892, col: 13, offset: 91282},
+																		pos:        position{line: 2893, col: 13, offset: 91311},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2892, col: 18, offset: 91287},
+																	pos: position{line: 2893, col: 18, offset: 91316},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2892, col: 18, offset: 91287},
+																		pos:        position{line: 2893, col: 18, offset: 91316},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2892, col: 12, offset: 91281},
+														pos: position{line: 2893, col: 12, offset: 91310},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2892, col: 13, offset: 91282},
+															pos: position{line: 2893, col: 13, offset: 91311},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2892, col: 13, offset: 91282},
+																	pos: position{line: 2893, col: 13, offset: 91311},
 																	expr: &litMatcher{
-																		pos:        position{line: 2892, col: 13, offset: 91282},
+																		pos:        position{line: 2893, col: 13, offset: 91311},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2892, col: 18, offset: 91287},
+																	pos: position{line: 2893, col: 18, offset: 91316},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2892, col: 18, offset: 91287},
+																		pos:        position{line: 2893, col: 18, offset: 91316},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2892, col: 12, offset: 91281},
+												pos: position{line: 2893, col: 12, offset: 91310},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2892, col: 13, offset: 91282},
+													pos: position{line: 2893, col: 13, offset: 91311},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2892, col: 13, offset: 91282},
+															pos: position{line: 2893, col: 13, offset: 91311},
 															expr: &litMatcher{
-																pos:        position{line: 2892, col: 13, offset: 91282},
+																pos:        position{line: 2893, col: 13, offset: 91311},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2892, col: 18, offset: 91287},
+															pos: position{line: 2893, col: 18, offset: 91316},
 															expr: &charClassMatcher{
-																pos:        position{line: 2892, col: 18, offset: 91287},
+																pos:        position{line: 2893, col: 18, offset: 91316},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2919, col: 8, offset: 91802},
+							pos: position{line: 2920, col: 8, offset: 91831},
 							expr: &anyMatcher{
-								line: 2919, col: 9, offset: 91803,
+								line: 2920, col: 9, offset: 91832,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2794, col: 14, offset: 88623},
+																		pos: position{line: 2795, col: 14, offset: 88652},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2794, col: 14, offset: 88623},
+																			pos: position{line: 2795, col: 14, offset: 88652},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2794, col: 14, offset: 88623},
+																				pos:        position{line: 2795, col: 14, offset: 88652},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2794, col: 14, offset: 88623},
+																				pos: position{line: 2795, col: 14, offset: 88652},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2794, col: 14, offset: 88623},
+																					pos: position{line: 2795, col: 14, offset: 88652},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2794, col: 14, offset: 88623},
+																						pos:        position{line: 2795, col: 14, offset: 88652},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2794, col: 14, offset: 88623},
+																							pos: position{line: 2795, col: 14, offset: 88652},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2794, col: 14, offset: 88623},
+																								pos: position{line: 2795, col: 14, offset: 88652},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2794, col: 14, offset: 88623},
+																									pos:        position{line: 2795, col: 14, offset: 88652},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2794, col: 14, offset: 88623},
+																									pos: position{line: 2795, col: 14, offset: 88652},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2794, col: 14, offset: 88623},
+																										pos: position{line: 2795, col: 14, offset: 88652},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2794, col: 14, offset: 88623},
+																											pos:        position{line: 2795, col: 14, offset: 88652},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2919, col: 8, offset: 91802},
+							pos: position{line: 2920, col: 8, offset: 91831},
 							expr: &anyMatcher{
-								line: 2919, col: 9, offset: 91803,
+								line: 2920, col: 9, offset: 91832,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2794, col: 14, offset: 88623},
+																pos: position{line: 2795, col: 14, offset: 88652},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2794, col: 14, offset: 88623},
+																	pos: position{line: 2795, col: 14, offset: 88652},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2794, col: 14, offset: 88623},
+																		pos:        position{line: 2795, col: 14, offset: 88652},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2794, col: 14, offset: 88623},
+																pos: position{line: 2795, col: 14, offset: 88652},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2794, col: 14, offset: 88623},
+																	pos: position{line: 2795, col: 14, offset: 88652},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2794, col: 14, offset: 88623},
+																		pos:        position{line: 2795, col: 14, offset: 88652},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2922, col: 8, offset: 91852},
+							pos: position{line: 2923, col: 8, offset: 91881},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2909, col: 12, offset: 91625},
+									pos: position{line: 2910, col: 12, offset: 91654},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2909, col: 13, offset: 91626},
+										pos: position{line: 2910, col: 13, offset: 91655},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2909, col: 13, offset: 91626},
+												pos:        position{line: 2910, col: 13, offset: 91655},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2909, col: 20, offset: 91633},
+												pos:        position{line: 2910, col: 20, offset: 91662},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2909, col: 29, offset: 91642},
+												pos:        position{line: 2910, col: 29, offset: 91671},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2919, col: 8, offset: 91802},
+									pos: position{line: 2920, col: 8, offset: 91831},
 									expr: &anyMatcher{
-										line: 2919, col: 9, offset: 91803,
+										line: 2920, col: 9, offset: 91832,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2917, col: 11, offset: 91788},
+							pos: position{line: 2918, col: 11, offset: 91817},
 							expr: &anyMatcher{
-								line: 2917, col: 13, offset: 91790,
+								line: 2918, col: 13, offset: 91819,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2900, col: 10, offset: 91454},
+															pos: position{line: 2901, col: 10, offset: 91483},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2900, col: 10, offset: 91454},
+																pos:        position{line: 2901, col: 10, offset: 91483},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2922, col: 8, offset: 91852},
+														pos: position{line: 2923, col: 8, offset: 91881},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2909, col: 12, offset: 91625},
+																pos: position{line: 2910, col: 12, offset: 91654},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2909, col: 13, offset: 91626},
+																	pos: position{line: 2910, col: 13, offset: 91655},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 13, offset: 91626},
+																			pos:        position{line: 2910, col: 13, offset: 91655},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 20, offset: 91633},
+																			pos:        position{line: 2910, col: 20, offset: 91662},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 29, offset: 91642},
+																			pos:        position{line: 2910, col: 29, offset: 91671},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2919, col: 8, offset: 91802},
+																pos: position{line: 2920, col: 8, offset: 91831},
 																expr: &anyMatcher{
-																	line: 2919, col: 9, offset: 91803,
+																	line: 2920, col: 9, offset: 91832,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2900, col: 10, offset: 91454},
+															pos: position{line: 2901, col: 10, offset: 91483},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2900, col: 10, offset: 91454},
+																pos:        position{line: 2901, col: 10, offset: 91483},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2922, col: 8, offset: 91852},
+														pos: position{line: 2923, col: 8, offset: 91881},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2909, col: 12, offset: 91625},
+																pos: position{line: 2910, col: 12, offset: 91654},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2909, col: 13, offset: 91626},
+																	pos: position{line: 2910, col: 13, offset: 91655},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 13, offset: 91626},
+																			pos:        position{line: 2910, col: 13, offset: 91655},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 20, offset: 91633},
+																			pos:        position{line: 2910, col: 20, offset: 91662},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 29, offset: 91642},
+																			pos:        position{line: 2910, col: 29, offset: 91671},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2919, col: 8, offset: 91802},
+																pos: position{line: 2920, col: 8, offset: 91831},
 																expr: &anyMatcher{
-																	line: 2919, col: 9, offset: 91803,
+																	line: 2920, col: 9, offset: 91832,
 																},
 															},
 														},
@@ -4336,24 +4336,24 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 677, col: 14, offset: 21489},
+											pos: position{line: 678, col: 14, offset: 21518},
 											run: (*parser).callonDocumentFragment58,
 											expr: &seqExpr{
-												pos: position{line: 677, col: 14, offset: 21489},
+												pos: position{line: 678, col: 14, offset: 21518},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2917, col: 11, offset: 91788},
+														pos: position{line: 2918, col: 11, offset: 91817},
 														expr: &anyMatcher{
-															line: 2917, col: 13, offset: 91790,
+															line: 2918, col: 13, offset: 91819,
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 677, col: 21, offset: 21496},
+														pos: position{line: 678, col: 21, offset: 21525},
 														expr: &actionExpr{
-															pos: position{line: 2900, col: 10, offset: 91454},
+															pos: position{line: 2901, col: 10, offset: 91483},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2900, col: 10, offset: 91454},
+																pos:        position{line: 2901, col: 10, offset: 91483},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2922, col: 8, offset: 91852},
+														pos: position{line: 2923, col: 8, offset: 91881},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2909, col: 12, offset: 91625},
+																pos: position{line: 2910, col: 12, offset: 91654},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2909, col: 13, offset: 91626},
+																	pos: position{line: 2910, col: 13, offset: 91655},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 13, offset: 91626},
+																			pos:        position{line: 2910, col: 13, offset: 91655},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 20, offset: 91633},
+																			pos:        position{line: 2910, col: 20, offset: 91662},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 29, offset: 91642},
+																			pos:        position{line: 2910, col: 29, offset: 91671},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2919, col: 8, offset: 91802},
+																pos: position{line: 2920, col: 8, offset: 91831},
 																expr: &anyMatcher{
-																	line: 2919, col: 9, offset: 91803,
+																	line: 2920, col: 9, offset: 91832,
 																},
 															},
 														},
@@ -4411,36 +4411,36 @@ var g = &grammar{
 											name: "Section",
 										},
 										&actionExpr{
-											pos: position{line: 820, col: 5, offset: 26324},
+											pos: position{line: 821, col: 5, offset: 26353},
 											run: (*parser).callonDocumentFragment75,
 											expr: &seqExpr{
-												pos: position{line: 820, col: 5, offset: 26324},
+												pos: position{line: 821, col: 5, offset: 26353},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 740, col: 5, offset: 23584},
+														pos: position{line: 741, col: 5, offset: 23613},
 														run: (*parser).callonDocumentFragment77,
 														expr: &seqExpr{
-															pos: position{line: 740, col: 5, offset: 23584},
+															pos: position{line: 741, col: 5, offset: 23613},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23584},
+																	pos:   position{line: 741, col: 5, offset: 23613},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23595},
+																		pos: position{line: 741, col: 16, offset: 23624},
 																		run: (*parser).callonDocumentFragment80,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 16, offset: 23595},
+																			pos: position{line: 741, col: 16, offset: 23624},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23595},
+																					pos:        position{line: 741, col: 16, offset: 23624},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23602},
+																					pos: position{line: 741, col: 23, offset: 23631},
 																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23602},
+																						pos:        position{line: 741, col: 23, offset: 23631},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -4451,12 +4451,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23686},
+																	pos: position{line: 743, col: 8, offset: 23715},
 																	expr: &actionExpr{
-																		pos: position{line: 2900, col: 10, offset: 91454},
+																		pos: position{line: 2901, col: 10, offset: 91483},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 10, offset: 91454},
+																			pos:        position{line: 2901, col: 10, offset: 91483},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4465,28 +4465,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2922, col: 8, offset: 91852},
+																	pos: position{line: 2923, col: 8, offset: 91881},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 12, offset: 91625},
+																			pos: position{line: 2910, col: 12, offset: 91654},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2909, col: 13, offset: 91626},
+																				pos: position{line: 2910, col: 13, offset: 91655},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 13, offset: 91626},
+																						pos:        position{line: 2910, col: 13, offset: 91655},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 20, offset: 91633},
+																						pos:        position{line: 2910, col: 20, offset: 91662},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 29, offset: 91642},
+																						pos:        position{line: 2910, col: 29, offset: 91671},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4495,9 +4495,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2919, col: 8, offset: 91802},
+																			pos: position{line: 2920, col: 8, offset: 91831},
 																			expr: &anyMatcher{
-																				line: 2919, col: 9, offset: 91803,
+																				line: 2920, col: 9, offset: 91832,
 																			},
 																		},
 																	},
@@ -4506,46 +4506,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 821, col: 5, offset: 26355},
+														pos:   position{line: 822, col: 5, offset: 26384},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 831, col: 5, offset: 26641},
+															pos: position{line: 832, col: 5, offset: 26670},
 															expr: &actionExpr{
-																pos: position{line: 831, col: 6, offset: 26642},
+																pos: position{line: 832, col: 6, offset: 26671},
 																run: (*parser).callonDocumentFragment98,
 																expr: &seqExpr{
-																	pos: position{line: 831, col: 6, offset: 26642},
+																	pos: position{line: 832, col: 6, offset: 26671},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 831, col: 6, offset: 26642},
+																			pos: position{line: 832, col: 6, offset: 26671},
 																			expr: &choiceExpr{
-																				pos: position{line: 828, col: 29, offset: 26584},
+																				pos: position{line: 829, col: 29, offset: 26613},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
+																						pos: position{line: 741, col: 5, offset: 23613},
 																						run: (*parser).callonDocumentFragment102,
 																						expr: &seqExpr{
-																							pos: position{line: 740, col: 5, offset: 23584},
+																							pos: position{line: 741, col: 5, offset: 23613},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 740, col: 5, offset: 23584},
+																									pos:   position{line: 741, col: 5, offset: 23613},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
+																										pos: position{line: 741, col: 16, offset: 23624},
 																										run: (*parser).callonDocumentFragment105,
 																										expr: &seqExpr{
-																											pos: position{line: 740, col: 16, offset: 23595},
+																											pos: position{line: 741, col: 16, offset: 23624},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 740, col: 16, offset: 23595},
+																													pos:        position{line: 741, col: 16, offset: 23624},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 740, col: 23, offset: 23602},
+																													pos: position{line: 741, col: 23, offset: 23631},
 																													expr: &litMatcher{
-																														pos:        position{line: 740, col: 23, offset: 23602},
+																														pos:        position{line: 741, col: 23, offset: 23631},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -4556,12 +4556,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 742, col: 8, offset: 23686},
+																									pos: position{line: 743, col: 8, offset: 23715},
 																									expr: &actionExpr{
-																										pos: position{line: 2900, col: 10, offset: 91454},
+																										pos: position{line: 2901, col: 10, offset: 91483},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2900, col: 10, offset: 91454},
+																											pos:        position{line: 2901, col: 10, offset: 91483},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4570,28 +4570,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2922, col: 8, offset: 91852},
+																									pos: position{line: 2923, col: 8, offset: 91881},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2909, col: 12, offset: 91625},
+																											pos: position{line: 2910, col: 12, offset: 91654},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2909, col: 13, offset: 91626},
+																												pos: position{line: 2910, col: 13, offset: 91655},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 13, offset: 91626},
+																														pos:        position{line: 2910, col: 13, offset: 91655},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 20, offset: 91633},
+																														pos:        position{line: 2910, col: 20, offset: 91662},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 29, offset: 91642},
+																														pos:        position{line: 2910, col: 29, offset: 91671},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4600,9 +4600,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2919, col: 8, offset: 91802},
+																											pos: position{line: 2920, col: 8, offset: 91831},
 																											expr: &anyMatcher{
-																												line: 2919, col: 9, offset: 91803,
+																												line: 2920, col: 9, offset: 91832,
 																											},
 																										},
 																									},
@@ -4611,39 +4611,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2919, col: 8, offset: 91802},
+																						pos: position{line: 2920, col: 8, offset: 91831},
 																						expr: &anyMatcher{
-																							line: 2919, col: 9, offset: 91803,
+																							line: 2920, col: 9, offset: 91832,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 832, col: 5, offset: 26672},
+																			pos:   position{line: 833, col: 5, offset: 26701},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 812, col: 5, offset: 26117},
 																				run: (*parser).callonDocumentFragment124,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 812, col: 5, offset: 26117},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2917, col: 11, offset: 91788},
+																							pos: position{line: 2918, col: 11, offset: 91817},
 																							expr: &anyMatcher{
-																								line: 2917, col: 13, offset: 91790,
+																								line: 2918, col: 13, offset: 91819,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 813, col: 5, offset: 26192},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2846, col: 13, offset: 89980},
+																								pos: position{line: 2847, col: 13, offset: 90009},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2846, col: 13, offset: 89980},
+																									pos: position{line: 2847, col: 13, offset: 90009},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2846, col: 13, offset: 89980},
+																										pos:        position{line: 2847, col: 13, offset: 90009},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4653,28 +4653,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4683,9 +4683,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -4700,35 +4700,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 822, col: 5, offset: 26389},
+														pos: position{line: 823, col: 5, offset: 26418},
 														expr: &choiceExpr{
-															pos: position{line: 828, col: 29, offset: 26584},
+															pos: position{line: 829, col: 29, offset: 26613},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
+																	pos: position{line: 741, col: 5, offset: 23613},
 																	run: (*parser).callonDocumentFragment142,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 5, offset: 23584},
+																		pos: position{line: 741, col: 5, offset: 23613},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 740, col: 5, offset: 23584},
+																				pos:   position{line: 741, col: 5, offset: 23613},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
+																					pos: position{line: 741, col: 16, offset: 23624},
 																					run: (*parser).callonDocumentFragment145,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 16, offset: 23595},
+																						pos: position{line: 741, col: 16, offset: 23624},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 740, col: 16, offset: 23595},
+																								pos:        position{line: 741, col: 16, offset: 23624},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 740, col: 23, offset: 23602},
+																								pos: position{line: 741, col: 23, offset: 23631},
 																								expr: &litMatcher{
-																									pos:        position{line: 740, col: 23, offset: 23602},
+																									pos:        position{line: 741, col: 23, offset: 23631},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -4739,12 +4739,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 742, col: 8, offset: 23686},
+																				pos: position{line: 743, col: 8, offset: 23715},
 																				expr: &actionExpr{
-																					pos: position{line: 2900, col: 10, offset: 91454},
+																					pos: position{line: 2901, col: 10, offset: 91483},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2900, col: 10, offset: 91454},
+																						pos:        position{line: 2901, col: 10, offset: 91483},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4753,28 +4753,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2922, col: 8, offset: 91852},
+																				pos: position{line: 2923, col: 8, offset: 91881},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2909, col: 12, offset: 91625},
+																						pos: position{line: 2910, col: 12, offset: 91654},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2909, col: 13, offset: 91626},
+																							pos: position{line: 2910, col: 13, offset: 91655},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2909, col: 13, offset: 91626},
+																									pos:        position{line: 2910, col: 13, offset: 91655},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2909, col: 20, offset: 91633},
+																									pos:        position{line: 2910, col: 20, offset: 91662},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2909, col: 29, offset: 91642},
+																									pos:        position{line: 2910, col: 29, offset: 91671},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4783,9 +4783,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2919, col: 8, offset: 91802},
+																						pos: position{line: 2920, col: 8, offset: 91831},
 																						expr: &anyMatcher{
-																							line: 2919, col: 9, offset: 91803,
+																							line: 2920, col: 9, offset: 91832,
 																						},
 																					},
 																				},
@@ -4794,9 +4794,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2919, col: 8, offset: 91802},
+																	pos: position{line: 2920, col: 8, offset: 91831},
 																	expr: &anyMatcher{
-																		line: 2919, col: 9, offset: 91803,
+																		line: 2920, col: 9, offset: 91832,
 																	},
 																},
 															},
@@ -4806,39 +4806,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 840, col: 5, offset: 26825},
+											pos: position{line: 841, col: 5, offset: 26854},
 											run: (*parser).callonDocumentFragment163,
 											expr: &seqExpr{
-												pos: position{line: 840, col: 5, offset: 26825},
+												pos: position{line: 841, col: 5, offset: 26854},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 840, col: 5, offset: 26825},
+														pos:   position{line: 841, col: 5, offset: 26854},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 747, col: 5, offset: 23832},
+															pos: position{line: 748, col: 5, offset: 23861},
 															run: (*parser).callonDocumentFragment166,
 															expr: &seqExpr{
-																pos: position{line: 747, col: 5, offset: 23832},
+																pos: position{line: 748, col: 5, offset: 23861},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 747, col: 5, offset: 23832},
+																		pos:   position{line: 748, col: 5, offset: 23861},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 747, col: 16, offset: 23843},
+																			pos: position{line: 748, col: 16, offset: 23872},
 																			run: (*parser).callonDocumentFragment169,
 																			expr: &seqExpr{
-																				pos: position{line: 747, col: 16, offset: 23843},
+																				pos: position{line: 748, col: 16, offset: 23872},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 747, col: 16, offset: 23843},
+																						pos:        position{line: 748, col: 16, offset: 23872},
 																						val:        "====",
 																						ignoreCase: false,
 																						want:       "\"====\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 747, col: 23, offset: 23850},
+																						pos: position{line: 748, col: 23, offset: 23879},
 																						expr: &litMatcher{
-																							pos:        position{line: 747, col: 23, offset: 23850},
+																							pos:        position{line: 748, col: 23, offset: 23879},
 																							val:        "=",
 																							ignoreCase: false,
 																							want:       "\"=\"",
@@ -4849,12 +4849,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 749, col: 8, offset: 23934},
+																		pos: position{line: 750, col: 8, offset: 23963},
 																		expr: &actionExpr{
-																			pos: position{line: 2900, col: 10, offset: 91454},
+																			pos: position{line: 2901, col: 10, offset: 91483},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2900, col: 10, offset: 91454},
+																				pos:        position{line: 2901, col: 10, offset: 91483},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4863,28 +4863,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2922, col: 8, offset: 91852},
+																		pos: position{line: 2923, col: 8, offset: 91881},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2909, col: 12, offset: 91625},
+																				pos: position{line: 2910, col: 12, offset: 91654},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2909, col: 13, offset: 91626},
+																					pos: position{line: 2910, col: 13, offset: 91655},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 13, offset: 91626},
+																							pos:        position{line: 2910, col: 13, offset: 91655},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 20, offset: 91633},
+																							pos:        position{line: 2910, col: 20, offset: 91662},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 29, offset: 91642},
+																							pos:        position{line: 2910, col: 29, offset: 91671},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4893,9 +4893,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2919, col: 8, offset: 91802},
+																				pos: position{line: 2920, col: 8, offset: 91831},
 																				expr: &anyMatcher{
-																					line: 2919, col: 9, offset: 91803,
+																					line: 2920, col: 9, offset: 91832,
 																				},
 																			},
 																		},
@@ -4905,56 +4905,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 841, col: 5, offset: 26864},
+														pos: position{line: 842, col: 5, offset: 26893},
 														run: (*parser).callonDocumentFragment185,
 													},
 													&labeledExpr{
-														pos:   position{line: 844, col: 5, offset: 26956},
+														pos:   position{line: 845, col: 5, offset: 26985},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 859, col: 4, offset: 27353},
+															pos: position{line: 860, col: 4, offset: 27382},
 															expr: &actionExpr{
-																pos: position{line: 859, col: 5, offset: 27354},
+																pos: position{line: 860, col: 5, offset: 27383},
 																run: (*parser).callonDocumentFragment188,
 																expr: &seqExpr{
-																	pos: position{line: 859, col: 5, offset: 27354},
+																	pos: position{line: 860, col: 5, offset: 27383},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 859, col: 5, offset: 27354},
+																			pos: position{line: 860, col: 5, offset: 27383},
 																			expr: &choiceExpr{
-																				pos: position{line: 852, col: 5, offset: 27196},
+																				pos: position{line: 853, col: 5, offset: 27225},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 852, col: 5, offset: 27196},
+																						pos: position{line: 853, col: 5, offset: 27225},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 852, col: 5, offset: 27196},
+																								pos:   position{line: 853, col: 5, offset: 27225},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 5, offset: 23832},
+																									pos: position{line: 748, col: 5, offset: 23861},
 																									run: (*parser).callonDocumentFragment194,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 5, offset: 23832},
+																										pos: position{line: 748, col: 5, offset: 23861},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 747, col: 5, offset: 23832},
+																												pos:   position{line: 748, col: 5, offset: 23861},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 747, col: 16, offset: 23843},
+																													pos: position{line: 748, col: 16, offset: 23872},
 																													run: (*parser).callonDocumentFragment197,
 																													expr: &seqExpr{
-																														pos: position{line: 747, col: 16, offset: 23843},
+																														pos: position{line: 748, col: 16, offset: 23872},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 747, col: 16, offset: 23843},
+																																pos:        position{line: 748, col: 16, offset: 23872},
 																																val:        "====",
 																																ignoreCase: false,
 																																want:       "\"====\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 747, col: 23, offset: 23850},
+																																pos: position{line: 748, col: 23, offset: 23879},
 																																expr: &litMatcher{
-																																	pos:        position{line: 747, col: 23, offset: 23850},
+																																	pos:        position{line: 748, col: 23, offset: 23879},
 																																	val:        "=",
 																																	ignoreCase: false,
 																																	want:       "\"=\"",
@@ -4965,12 +4965,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 749, col: 8, offset: 23934},
+																												pos: position{line: 750, col: 8, offset: 23963},
 																												expr: &actionExpr{
-																													pos: position{line: 2900, col: 10, offset: 91454},
+																													pos: position{line: 2901, col: 10, offset: 91483},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2900, col: 10, offset: 91454},
+																														pos:        position{line: 2901, col: 10, offset: 91483},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4979,28 +4979,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2922, col: 8, offset: 91852},
+																												pos: position{line: 2923, col: 8, offset: 91881},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2909, col: 12, offset: 91625},
+																														pos: position{line: 2910, col: 12, offset: 91654},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2909, col: 13, offset: 91626},
+																															pos: position{line: 2910, col: 13, offset: 91655},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2909, col: 13, offset: 91626},
+																																	pos:        position{line: 2910, col: 13, offset: 91655},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2909, col: 20, offset: 91633},
+																																	pos:        position{line: 2910, col: 20, offset: 91662},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2909, col: 29, offset: 91642},
+																																	pos:        position{line: 2910, col: 29, offset: 91671},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5009,9 +5009,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2919, col: 8, offset: 91802},
+																														pos: position{line: 2920, col: 8, offset: 91831},
 																														expr: &anyMatcher{
-																															line: 2919, col: 9, offset: 91803,
+																															line: 2920, col: 9, offset: 91832,
 																														},
 																													},
 																												},
@@ -5021,45 +5021,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 853, col: 5, offset: 27227},
+																								pos: position{line: 854, col: 5, offset: 27256},
 																								run: (*parser).callonDocumentFragment213,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2919, col: 8, offset: 91802},
+																						pos: position{line: 2920, col: 8, offset: 91831},
 																						expr: &anyMatcher{
-																							line: 2919, col: 9, offset: 91803,
+																							line: 2920, col: 9, offset: 91832,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 860, col: 5, offset: 27384},
+																			pos:   position{line: 861, col: 5, offset: 27413},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 812, col: 5, offset: 26117},
 																				run: (*parser).callonDocumentFragment217,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 812, col: 5, offset: 26117},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2917, col: 11, offset: 91788},
+																							pos: position{line: 2918, col: 11, offset: 91817},
 																							expr: &anyMatcher{
-																								line: 2917, col: 13, offset: 91790,
+																								line: 2918, col: 13, offset: 91819,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 813, col: 5, offset: 26192},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2846, col: 13, offset: 89980},
+																								pos: position{line: 2847, col: 13, offset: 90009},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2846, col: 13, offset: 89980},
+																									pos: position{line: 2847, col: 13, offset: 90009},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2846, col: 13, offset: 89980},
+																										pos:        position{line: 2847, col: 13, offset: 90009},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5069,28 +5069,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5099,9 +5099,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -5116,44 +5116,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 845, col: 5, offset: 26990},
+														pos:   position{line: 846, col: 5, offset: 27019},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 845, col: 9, offset: 26994},
+															pos: position{line: 846, col: 9, offset: 27023},
 															expr: &choiceExpr{
-																pos: position{line: 852, col: 5, offset: 27196},
+																pos: position{line: 853, col: 5, offset: 27225},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 852, col: 5, offset: 27196},
+																		pos: position{line: 853, col: 5, offset: 27225},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 852, col: 5, offset: 27196},
+																				pos:   position{line: 853, col: 5, offset: 27225},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 747, col: 5, offset: 23832},
+																					pos: position{line: 748, col: 5, offset: 23861},
 																					run: (*parser).callonDocumentFragment238,
 																					expr: &seqExpr{
-																						pos: position{line: 747, col: 5, offset: 23832},
+																						pos: position{line: 748, col: 5, offset: 23861},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 747, col: 5, offset: 23832},
+																								pos:   position{line: 748, col: 5, offset: 23861},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 16, offset: 23843},
+																									pos: position{line: 748, col: 16, offset: 23872},
 																									run: (*parser).callonDocumentFragment241,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 16, offset: 23843},
+																										pos: position{line: 748, col: 16, offset: 23872},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 747, col: 16, offset: 23843},
+																												pos:        position{line: 748, col: 16, offset: 23872},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 747, col: 23, offset: 23850},
+																												pos: position{line: 748, col: 23, offset: 23879},
 																												expr: &litMatcher{
-																													pos:        position{line: 747, col: 23, offset: 23850},
+																													pos:        position{line: 748, col: 23, offset: 23879},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -5164,12 +5164,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 749, col: 8, offset: 23934},
+																								pos: position{line: 750, col: 8, offset: 23963},
 																								expr: &actionExpr{
-																									pos: position{line: 2900, col: 10, offset: 91454},
+																									pos: position{line: 2901, col: 10, offset: 91483},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2900, col: 10, offset: 91454},
+																										pos:        position{line: 2901, col: 10, offset: 91483},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5178,28 +5178,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2922, col: 8, offset: 91852},
+																								pos: position{line: 2923, col: 8, offset: 91881},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2909, col: 12, offset: 91625},
+																										pos: position{line: 2910, col: 12, offset: 91654},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2909, col: 13, offset: 91626},
+																											pos: position{line: 2910, col: 13, offset: 91655},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 13, offset: 91626},
+																													pos:        position{line: 2910, col: 13, offset: 91655},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 20, offset: 91633},
+																													pos:        position{line: 2910, col: 20, offset: 91662},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 29, offset: 91642},
+																													pos:        position{line: 2910, col: 29, offset: 91671},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5208,9 +5208,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2919, col: 8, offset: 91802},
+																										pos: position{line: 2920, col: 8, offset: 91831},
 																										expr: &anyMatcher{
-																											line: 2919, col: 9, offset: 91803,
+																											line: 2920, col: 9, offset: 91832,
 																										},
 																									},
 																								},
@@ -5220,15 +5220,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 853, col: 5, offset: 27227},
+																				pos: position{line: 854, col: 5, offset: 27256},
 																				run: (*parser).callonDocumentFragment257,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2919, col: 8, offset: 91802},
+																		pos: position{line: 2920, col: 8, offset: 91831},
 																		expr: &anyMatcher{
-																			line: 2919, col: 9, offset: 91803,
+																			line: 2920, col: 9, offset: 91832,
 																		},
 																	},
 																},
@@ -5239,36 +5239,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 952, col: 5, offset: 29676},
+											pos: position{line: 953, col: 5, offset: 29705},
 											run: (*parser).callonDocumentFragment260,
 											expr: &seqExpr{
-												pos: position{line: 952, col: 5, offset: 29676},
+												pos: position{line: 953, col: 5, offset: 29705},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 952, col: 5, offset: 29676},
+														pos:   position{line: 953, col: 5, offset: 29705},
 														label: "delimiter",
 														expr: &actionExpr{
-															pos: position{line: 760, col: 26, offset: 24320},
+															pos: position{line: 761, col: 26, offset: 24349},
 															run: (*parser).callonDocumentFragment263,
 															expr: &seqExpr{
-																pos: position{line: 760, col: 26, offset: 24320},
+																pos: position{line: 761, col: 26, offset: 24349},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 760, col: 26, offset: 24320},
+																		pos:        position{line: 761, col: 26, offset: 24349},
 																		val:        "```",
 																		ignoreCase: false,
 																		want:       "\"```\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 760, col: 32, offset: 24326},
+																		pos:   position{line: 761, col: 32, offset: 24355},
 																		label: "language",
 																		expr: &actionExpr{
-																			pos: position{line: 764, col: 13, offset: 24456},
+																			pos: position{line: 765, col: 13, offset: 24485},
 																			run: (*parser).callonDocumentFragment267,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 764, col: 14, offset: 24457},
+																				pos: position{line: 765, col: 14, offset: 24486},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 764, col: 14, offset: 24457},
+																					pos:        position{line: 765, col: 14, offset: 24486},
 																					val:        "[^\\r\\n` ]",
 																					chars:      []rune{'\r', '\n', '`', ' '},
 																					ignoreCase: false,
@@ -5278,12 +5278,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 760, col: 52, offset: 24346},
+																		pos: position{line: 761, col: 52, offset: 24375},
 																		expr: &actionExpr{
-																			pos: position{line: 2900, col: 10, offset: 91454},
+																			pos: position{line: 2901, col: 10, offset: 91483},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2900, col: 10, offset: 91454},
+																				pos:        position{line: 2901, col: 10, offset: 91483},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5292,28 +5292,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2922, col: 8, offset: 91852},
+																		pos: position{line: 2923, col: 8, offset: 91881},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2909, col: 12, offset: 91625},
+																				pos: position{line: 2910, col: 12, offset: 91654},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2909, col: 13, offset: 91626},
+																					pos: position{line: 2910, col: 13, offset: 91655},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 13, offset: 91626},
+																							pos:        position{line: 2910, col: 13, offset: 91655},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 20, offset: 91633},
+																							pos:        position{line: 2910, col: 20, offset: 91662},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 29, offset: 91642},
+																							pos:        position{line: 2910, col: 29, offset: 91671},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5322,9 +5322,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2919, col: 8, offset: 91802},
+																				pos: position{line: 2920, col: 8, offset: 91831},
 																				expr: &anyMatcher{
-																					line: 2919, col: 9, offset: 91803,
+																					line: 2920, col: 9, offset: 91832,
 																				},
 																			},
 																		},
@@ -5334,34 +5334,34 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 953, col: 5, offset: 29722},
+														pos:   position{line: 954, col: 5, offset: 29751},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 966, col: 5, offset: 30195},
+															pos: position{line: 967, col: 5, offset: 30224},
 															expr: &actionExpr{
-																pos: position{line: 966, col: 6, offset: 30196},
+																pos: position{line: 967, col: 6, offset: 30225},
 																run: (*parser).callonDocumentFragment283,
 																expr: &seqExpr{
-																	pos: position{line: 966, col: 6, offset: 30196},
+																	pos: position{line: 967, col: 6, offset: 30225},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 966, col: 6, offset: 30196},
+																			pos: position{line: 967, col: 6, offset: 30225},
 																			expr: &seqExpr{
-																				pos: position{line: 963, col: 34, offset: 30143},
+																				pos: position{line: 964, col: 34, offset: 30172},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 963, col: 34, offset: 30143},
+																						pos:        position{line: 964, col: 34, offset: 30172},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 963, col: 40, offset: 30149},
+																						pos: position{line: 964, col: 40, offset: 30178},
 																						expr: &actionExpr{
-																							pos: position{line: 2900, col: 10, offset: 91454},
+																							pos: position{line: 2901, col: 10, offset: 91483},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2900, col: 10, offset: 91454},
+																								pos:        position{line: 2901, col: 10, offset: 91483},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5370,28 +5370,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2922, col: 8, offset: 91852},
+																						pos: position{line: 2923, col: 8, offset: 91881},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2909, col: 12, offset: 91625},
+																								pos: position{line: 2910, col: 12, offset: 91654},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2909, col: 13, offset: 91626},
+																									pos: position{line: 2910, col: 13, offset: 91655},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 13, offset: 91626},
+																											pos:        position{line: 2910, col: 13, offset: 91655},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 20, offset: 91633},
+																											pos:        position{line: 2910, col: 20, offset: 91662},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 29, offset: 91642},
+																											pos:        position{line: 2910, col: 29, offset: 91671},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5400,9 +5400,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2919, col: 8, offset: 91802},
+																								pos: position{line: 2920, col: 8, offset: 91831},
 																								expr: &anyMatcher{
-																									line: 2919, col: 9, offset: 91803,
+																									line: 2920, col: 9, offset: 91832,
 																								},
 																							},
 																						},
@@ -5411,30 +5411,30 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 967, col: 5, offset: 30231},
+																			pos:   position{line: 968, col: 5, offset: 30260},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 812, col: 5, offset: 26117},
 																				run: (*parser).callonDocumentFragment300,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 812, col: 5, offset: 26117},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2917, col: 11, offset: 91788},
+																							pos: position{line: 2918, col: 11, offset: 91817},
 																							expr: &anyMatcher{
-																								line: 2917, col: 13, offset: 91790,
+																								line: 2918, col: 13, offset: 91819,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 813, col: 5, offset: 26192},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2846, col: 13, offset: 89980},
+																								pos: position{line: 2847, col: 13, offset: 90009},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2846, col: 13, offset: 89980},
+																									pos: position{line: 2847, col: 13, offset: 90009},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2846, col: 13, offset: 89980},
+																										pos:        position{line: 2847, col: 13, offset: 90009},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5444,28 +5444,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5474,9 +5474,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -5491,23 +5491,23 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 954, col: 5, offset: 29761},
+														pos: position{line: 955, col: 5, offset: 29790},
 														expr: &seqExpr{
-															pos: position{line: 963, col: 34, offset: 30143},
+															pos: position{line: 964, col: 34, offset: 30172},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 963, col: 34, offset: 30143},
+																	pos:        position{line: 964, col: 34, offset: 30172},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 963, col: 40, offset: 30149},
+																	pos: position{line: 964, col: 40, offset: 30178},
 																	expr: &actionExpr{
-																		pos: position{line: 2900, col: 10, offset: 91454},
+																		pos: position{line: 2901, col: 10, offset: 91483},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 10, offset: 91454},
+																			pos:        position{line: 2901, col: 10, offset: 91483},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5516,28 +5516,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2922, col: 8, offset: 91852},
+																	pos: position{line: 2923, col: 8, offset: 91881},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 12, offset: 91625},
+																			pos: position{line: 2910, col: 12, offset: 91654},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2909, col: 13, offset: 91626},
+																				pos: position{line: 2910, col: 13, offset: 91655},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 13, offset: 91626},
+																						pos:        position{line: 2910, col: 13, offset: 91655},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 20, offset: 91633},
+																						pos:        position{line: 2910, col: 20, offset: 91662},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 29, offset: 91642},
+																						pos:        position{line: 2910, col: 29, offset: 91671},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5546,9 +5546,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2919, col: 8, offset: 91802},
+																			pos: position{line: 2920, col: 8, offset: 91831},
 																			expr: &anyMatcher{
-																				line: 2919, col: 9, offset: 91803,
+																				line: 2920, col: 9, offset: 91832,
 																			},
 																		},
 																	},
@@ -5560,39 +5560,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 868, col: 5, offset: 27537},
+											pos: position{line: 869, col: 5, offset: 27566},
 											run: (*parser).callonDocumentFragment330,
 											expr: &seqExpr{
-												pos: position{line: 868, col: 5, offset: 27537},
+												pos: position{line: 869, col: 5, offset: 27566},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 868, col: 5, offset: 27537},
+														pos:   position{line: 869, col: 5, offset: 27566},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 754, col: 5, offset: 24079},
+															pos: position{line: 755, col: 5, offset: 24108},
 															run: (*parser).callonDocumentFragment333,
 															expr: &seqExpr{
-																pos: position{line: 754, col: 5, offset: 24079},
+																pos: position{line: 755, col: 5, offset: 24108},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 754, col: 5, offset: 24079},
+																		pos:   position{line: 755, col: 5, offset: 24108},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 754, col: 16, offset: 24090},
+																			pos: position{line: 755, col: 16, offset: 24119},
 																			run: (*parser).callonDocumentFragment336,
 																			expr: &seqExpr{
-																				pos: position{line: 754, col: 16, offset: 24090},
+																				pos: position{line: 755, col: 16, offset: 24119},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 754, col: 16, offset: 24090},
+																						pos:        position{line: 755, col: 16, offset: 24119},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 754, col: 22, offset: 24096},
+																						pos: position{line: 755, col: 22, offset: 24125},
 																						expr: &litMatcher{
-																							pos:        position{line: 754, col: 22, offset: 24096},
+																							pos:        position{line: 755, col: 22, offset: 24125},
 																							val:        "`",
 																							ignoreCase: false,
 																							want:       "\"`\"",
@@ -5603,12 +5603,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 756, col: 8, offset: 24180},
+																		pos: position{line: 757, col: 8, offset: 24209},
 																		expr: &actionExpr{
-																			pos: position{line: 2900, col: 10, offset: 91454},
+																			pos: position{line: 2901, col: 10, offset: 91483},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2900, col: 10, offset: 91454},
+																				pos:        position{line: 2901, col: 10, offset: 91483},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5617,28 +5617,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2922, col: 8, offset: 91852},
+																		pos: position{line: 2923, col: 8, offset: 91881},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2909, col: 12, offset: 91625},
+																				pos: position{line: 2910, col: 12, offset: 91654},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2909, col: 13, offset: 91626},
+																					pos: position{line: 2910, col: 13, offset: 91655},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 13, offset: 91626},
+																							pos:        position{line: 2910, col: 13, offset: 91655},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 20, offset: 91633},
+																							pos:        position{line: 2910, col: 20, offset: 91662},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 29, offset: 91642},
+																							pos:        position{line: 2910, col: 29, offset: 91671},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5647,9 +5647,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2919, col: 8, offset: 91802},
+																				pos: position{line: 2920, col: 8, offset: 91831},
 																				expr: &anyMatcher{
-																					line: 2919, col: 9, offset: 91803,
+																					line: 2920, col: 9, offset: 91832,
 																				},
 																			},
 																		},
@@ -5659,56 +5659,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 869, col: 5, offset: 27575},
+														pos: position{line: 870, col: 5, offset: 27604},
 														run: (*parser).callonDocumentFragment352,
 													},
 													&labeledExpr{
-														pos:   position{line: 872, col: 5, offset: 27667},
+														pos:   position{line: 873, col: 5, offset: 27696},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 887, col: 5, offset: 28057},
+															pos: position{line: 888, col: 5, offset: 28086},
 															expr: &actionExpr{
-																pos: position{line: 887, col: 6, offset: 28058},
+																pos: position{line: 888, col: 6, offset: 28087},
 																run: (*parser).callonDocumentFragment355,
 																expr: &seqExpr{
-																	pos: position{line: 887, col: 6, offset: 28058},
+																	pos: position{line: 888, col: 6, offset: 28087},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 887, col: 6, offset: 28058},
+																			pos: position{line: 888, col: 6, offset: 28087},
 																			expr: &choiceExpr{
-																				pos: position{line: 880, col: 5, offset: 27901},
+																				pos: position{line: 881, col: 5, offset: 27930},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 880, col: 5, offset: 27901},
+																						pos: position{line: 881, col: 5, offset: 27930},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 880, col: 5, offset: 27901},
+																								pos:   position{line: 881, col: 5, offset: 27930},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 5, offset: 24079},
+																									pos: position{line: 755, col: 5, offset: 24108},
 																									run: (*parser).callonDocumentFragment361,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 5, offset: 24079},
+																										pos: position{line: 755, col: 5, offset: 24108},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 754, col: 5, offset: 24079},
+																												pos:   position{line: 755, col: 5, offset: 24108},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 754, col: 16, offset: 24090},
+																													pos: position{line: 755, col: 16, offset: 24119},
 																													run: (*parser).callonDocumentFragment364,
 																													expr: &seqExpr{
-																														pos: position{line: 754, col: 16, offset: 24090},
+																														pos: position{line: 755, col: 16, offset: 24119},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 754, col: 16, offset: 24090},
+																																pos:        position{line: 755, col: 16, offset: 24119},
 																																val:        "```",
 																																ignoreCase: false,
 																																want:       "\"```\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 754, col: 22, offset: 24096},
+																																pos: position{line: 755, col: 22, offset: 24125},
 																																expr: &litMatcher{
-																																	pos:        position{line: 754, col: 22, offset: 24096},
+																																	pos:        position{line: 755, col: 22, offset: 24125},
 																																	val:        "`",
 																																	ignoreCase: false,
 																																	want:       "\"`\"",
@@ -5719,12 +5719,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 756, col: 8, offset: 24180},
+																												pos: position{line: 757, col: 8, offset: 24209},
 																												expr: &actionExpr{
-																													pos: position{line: 2900, col: 10, offset: 91454},
+																													pos: position{line: 2901, col: 10, offset: 91483},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2900, col: 10, offset: 91454},
+																														pos:        position{line: 2901, col: 10, offset: 91483},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5733,28 +5733,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2922, col: 8, offset: 91852},
+																												pos: position{line: 2923, col: 8, offset: 91881},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2909, col: 12, offset: 91625},
+																														pos: position{line: 2910, col: 12, offset: 91654},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2909, col: 13, offset: 91626},
+																															pos: position{line: 2910, col: 13, offset: 91655},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2909, col: 13, offset: 91626},
+																																	pos:        position{line: 2910, col: 13, offset: 91655},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2909, col: 20, offset: 91633},
+																																	pos:        position{line: 2910, col: 20, offset: 91662},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2909, col: 29, offset: 91642},
+																																	pos:        position{line: 2910, col: 29, offset: 91671},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5763,9 +5763,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2919, col: 8, offset: 91802},
+																														pos: position{line: 2920, col: 8, offset: 91831},
 																														expr: &anyMatcher{
-																															line: 2919, col: 9, offset: 91803,
+																															line: 2920, col: 9, offset: 91832,
 																														},
 																													},
 																												},
@@ -5775,45 +5775,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 881, col: 5, offset: 27931},
+																								pos: position{line: 882, col: 5, offset: 27960},
 																								run: (*parser).callonDocumentFragment380,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2919, col: 8, offset: 91802},
+																						pos: position{line: 2920, col: 8, offset: 91831},
 																						expr: &anyMatcher{
-																							line: 2919, col: 9, offset: 91803,
+																							line: 2920, col: 9, offset: 91832,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 888, col: 5, offset: 28087},
+																			pos:   position{line: 889, col: 5, offset: 28116},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 812, col: 5, offset: 26117},
 																				run: (*parser).callonDocumentFragment384,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 812, col: 5, offset: 26117},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2917, col: 11, offset: 91788},
+																							pos: position{line: 2918, col: 11, offset: 91817},
 																							expr: &anyMatcher{
-																								line: 2917, col: 13, offset: 91790,
+																								line: 2918, col: 13, offset: 91819,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 813, col: 5, offset: 26192},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2846, col: 13, offset: 89980},
+																								pos: position{line: 2847, col: 13, offset: 90009},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2846, col: 13, offset: 89980},
+																									pos: position{line: 2847, col: 13, offset: 90009},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2846, col: 13, offset: 89980},
+																										pos:        position{line: 2847, col: 13, offset: 90009},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5823,28 +5823,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5853,9 +5853,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -5870,44 +5870,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 873, col: 5, offset: 27700},
+														pos:   position{line: 874, col: 5, offset: 27729},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 873, col: 9, offset: 27704},
+															pos: position{line: 874, col: 9, offset: 27733},
 															expr: &choiceExpr{
-																pos: position{line: 880, col: 5, offset: 27901},
+																pos: position{line: 881, col: 5, offset: 27930},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 880, col: 5, offset: 27901},
+																		pos: position{line: 881, col: 5, offset: 27930},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 880, col: 5, offset: 27901},
+																				pos:   position{line: 881, col: 5, offset: 27930},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 754, col: 5, offset: 24079},
+																					pos: position{line: 755, col: 5, offset: 24108},
 																					run: (*parser).callonDocumentFragment405,
 																					expr: &seqExpr{
-																						pos: position{line: 754, col: 5, offset: 24079},
+																						pos: position{line: 755, col: 5, offset: 24108},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 754, col: 5, offset: 24079},
+																								pos:   position{line: 755, col: 5, offset: 24108},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 16, offset: 24090},
+																									pos: position{line: 755, col: 16, offset: 24119},
 																									run: (*parser).callonDocumentFragment408,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 16, offset: 24090},
+																										pos: position{line: 755, col: 16, offset: 24119},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 754, col: 16, offset: 24090},
+																												pos:        position{line: 755, col: 16, offset: 24119},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 754, col: 22, offset: 24096},
+																												pos: position{line: 755, col: 22, offset: 24125},
 																												expr: &litMatcher{
-																													pos:        position{line: 754, col: 22, offset: 24096},
+																													pos:        position{line: 755, col: 22, offset: 24125},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -5918,12 +5918,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 756, col: 8, offset: 24180},
+																								pos: position{line: 757, col: 8, offset: 24209},
 																								expr: &actionExpr{
-																									pos: position{line: 2900, col: 10, offset: 91454},
+																									pos: position{line: 2901, col: 10, offset: 91483},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2900, col: 10, offset: 91454},
+																										pos:        position{line: 2901, col: 10, offset: 91483},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5932,28 +5932,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2922, col: 8, offset: 91852},
+																								pos: position{line: 2923, col: 8, offset: 91881},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2909, col: 12, offset: 91625},
+																										pos: position{line: 2910, col: 12, offset: 91654},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2909, col: 13, offset: 91626},
+																											pos: position{line: 2910, col: 13, offset: 91655},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 13, offset: 91626},
+																													pos:        position{line: 2910, col: 13, offset: 91655},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 20, offset: 91633},
+																													pos:        position{line: 2910, col: 20, offset: 91662},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 29, offset: 91642},
+																													pos:        position{line: 2910, col: 29, offset: 91671},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5962,9 +5962,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2919, col: 8, offset: 91802},
+																										pos: position{line: 2920, col: 8, offset: 91831},
 																										expr: &anyMatcher{
-																											line: 2919, col: 9, offset: 91803,
+																											line: 2920, col: 9, offset: 91832,
 																										},
 																									},
 																								},
@@ -5974,15 +5974,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 881, col: 5, offset: 27931},
+																				pos: position{line: 882, col: 5, offset: 27960},
 																				run: (*parser).callonDocumentFragment424,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2919, col: 8, offset: 91802},
+																		pos: position{line: 2920, col: 8, offset: 91831},
 																		expr: &anyMatcher{
-																			line: 2919, col: 9, offset: 91803,
+																			line: 2920, col: 9, offset: 91832,
 																		},
 																	},
 																},
@@ -5993,39 +5993,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 896, col: 5, offset: 28242},
+											pos: position{line: 897, col: 5, offset: 28271},
 											run: (*parser).callonDocumentFragment427,
 											expr: &seqExpr{
-												pos: position{line: 896, col: 5, offset: 28242},
+												pos: position{line: 897, col: 5, offset: 28271},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 896, col: 5, offset: 28242},
+														pos:   position{line: 897, col: 5, offset: 28271},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 769, col: 5, offset: 24616},
+															pos: position{line: 770, col: 5, offset: 24645},
 															run: (*parser).callonDocumentFragment430,
 															expr: &seqExpr{
-																pos: position{line: 769, col: 5, offset: 24616},
+																pos: position{line: 770, col: 5, offset: 24645},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 769, col: 5, offset: 24616},
+																		pos:   position{line: 770, col: 5, offset: 24645},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 769, col: 16, offset: 24627},
+																			pos: position{line: 770, col: 16, offset: 24656},
 																			run: (*parser).callonDocumentFragment433,
 																			expr: &seqExpr{
-																				pos: position{line: 769, col: 16, offset: 24627},
+																				pos: position{line: 770, col: 16, offset: 24656},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 769, col: 16, offset: 24627},
+																						pos:        position{line: 770, col: 16, offset: 24656},
 																						val:        "----",
 																						ignoreCase: false,
 																						want:       "\"----\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 769, col: 23, offset: 24634},
+																						pos: position{line: 770, col: 23, offset: 24663},
 																						expr: &litMatcher{
-																							pos:        position{line: 769, col: 23, offset: 24634},
+																							pos:        position{line: 770, col: 23, offset: 24663},
 																							val:        "-",
 																							ignoreCase: false,
 																							want:       "\"-\"",
@@ -6036,12 +6036,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 771, col: 8, offset: 24718},
+																		pos: position{line: 772, col: 8, offset: 24747},
 																		expr: &actionExpr{
-																			pos: position{line: 2900, col: 10, offset: 91454},
+																			pos: position{line: 2901, col: 10, offset: 91483},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2900, col: 10, offset: 91454},
+																				pos:        position{line: 2901, col: 10, offset: 91483},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6050,28 +6050,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2922, col: 8, offset: 91852},
+																		pos: position{line: 2923, col: 8, offset: 91881},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2909, col: 12, offset: 91625},
+																				pos: position{line: 2910, col: 12, offset: 91654},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2909, col: 13, offset: 91626},
+																					pos: position{line: 2910, col: 13, offset: 91655},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 13, offset: 91626},
+																							pos:        position{line: 2910, col: 13, offset: 91655},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 20, offset: 91633},
+																							pos:        position{line: 2910, col: 20, offset: 91662},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 29, offset: 91642},
+																							pos:        position{line: 2910, col: 29, offset: 91671},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6080,9 +6080,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2919, col: 8, offset: 91802},
+																				pos: position{line: 2920, col: 8, offset: 91831},
 																				expr: &anyMatcher{
-																					line: 2919, col: 9, offset: 91803,
+																					line: 2920, col: 9, offset: 91832,
 																				},
 																			},
 																		},
@@ -6092,56 +6092,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 897, col: 5, offset: 28281},
+														pos: position{line: 898, col: 5, offset: 28310},
 														run: (*parser).callonDocumentFragment449,
 													},
 													&labeledExpr{
-														pos:   position{line: 900, col: 5, offset: 28373},
+														pos:   position{line: 901, col: 5, offset: 28402},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 915, col: 5, offset: 28771},
+															pos: position{line: 916, col: 5, offset: 28800},
 															expr: &actionExpr{
-																pos: position{line: 915, col: 6, offset: 28772},
+																pos: position{line: 916, col: 6, offset: 28801},
 																run: (*parser).callonDocumentFragment452,
 																expr: &seqExpr{
-																	pos: position{line: 915, col: 6, offset: 28772},
+																	pos: position{line: 916, col: 6, offset: 28801},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 915, col: 6, offset: 28772},
+																			pos: position{line: 916, col: 6, offset: 28801},
 																			expr: &choiceExpr{
-																				pos: position{line: 908, col: 5, offset: 28613},
+																				pos: position{line: 909, col: 5, offset: 28642},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 908, col: 5, offset: 28613},
+																						pos: position{line: 909, col: 5, offset: 28642},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 908, col: 5, offset: 28613},
+																								pos:   position{line: 909, col: 5, offset: 28642},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 769, col: 5, offset: 24616},
+																									pos: position{line: 770, col: 5, offset: 24645},
 																									run: (*parser).callonDocumentFragment458,
 																									expr: &seqExpr{
-																										pos: position{line: 769, col: 5, offset: 24616},
+																										pos: position{line: 770, col: 5, offset: 24645},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 769, col: 5, offset: 24616},
+																												pos:   position{line: 770, col: 5, offset: 24645},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 769, col: 16, offset: 24627},
+																													pos: position{line: 770, col: 16, offset: 24656},
 																													run: (*parser).callonDocumentFragment461,
 																													expr: &seqExpr{
-																														pos: position{line: 769, col: 16, offset: 24627},
+																														pos: position{line: 770, col: 16, offset: 24656},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 769, col: 16, offset: 24627},
+																																pos:        position{line: 770, col: 16, offset: 24656},
 																																val:        "----",
 																																ignoreCase: false,
 																																want:       "\"----\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 769, col: 23, offset: 24634},
+																																pos: position{line: 770, col: 23, offset: 24663},
 																																expr: &litMatcher{
-																																	pos:        position{line: 769, col: 23, offset: 24634},
+																																	pos:        position{line: 770, col: 23, offset: 24663},
 																																	val:        "-",
 																																	ignoreCase: false,
 																																	want:       "\"-\"",
@@ -6152,12 +6152,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 771, col: 8, offset: 24718},
+																												pos: position{line: 772, col: 8, offset: 24747},
 																												expr: &actionExpr{
-																													pos: position{line: 2900, col: 10, offset: 91454},
+																													pos: position{line: 2901, col: 10, offset: 91483},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2900, col: 10, offset: 91454},
+																														pos:        position{line: 2901, col: 10, offset: 91483},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6166,28 +6166,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2922, col: 8, offset: 91852},
+																												pos: position{line: 2923, col: 8, offset: 91881},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2909, col: 12, offset: 91625},
+																														pos: position{line: 2910, col: 12, offset: 91654},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2909, col: 13, offset: 91626},
+																															pos: position{line: 2910, col: 13, offset: 91655},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2909, col: 13, offset: 91626},
+																																	pos:        position{line: 2910, col: 13, offset: 91655},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2909, col: 20, offset: 91633},
+																																	pos:        position{line: 2910, col: 20, offset: 91662},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2909, col: 29, offset: 91642},
+																																	pos:        position{line: 2910, col: 29, offset: 91671},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6196,9 +6196,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2919, col: 8, offset: 91802},
+																														pos: position{line: 2920, col: 8, offset: 91831},
 																														expr: &anyMatcher{
-																															line: 2919, col: 9, offset: 91803,
+																															line: 2920, col: 9, offset: 91832,
 																														},
 																													},
 																												},
@@ -6208,45 +6208,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 909, col: 5, offset: 28644},
+																								pos: position{line: 910, col: 5, offset: 28673},
 																								run: (*parser).callonDocumentFragment477,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2919, col: 8, offset: 91802},
+																						pos: position{line: 2920, col: 8, offset: 91831},
 																						expr: &anyMatcher{
-																							line: 2919, col: 9, offset: 91803,
+																							line: 2920, col: 9, offset: 91832,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 916, col: 5, offset: 28802},
+																			pos:   position{line: 917, col: 5, offset: 28831},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 812, col: 5, offset: 26117},
 																				run: (*parser).callonDocumentFragment481,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 812, col: 5, offset: 26117},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2917, col: 11, offset: 91788},
+																							pos: position{line: 2918, col: 11, offset: 91817},
 																							expr: &anyMatcher{
-																								line: 2917, col: 13, offset: 91790,
+																								line: 2918, col: 13, offset: 91819,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 813, col: 5, offset: 26192},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2846, col: 13, offset: 89980},
+																								pos: position{line: 2847, col: 13, offset: 90009},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2846, col: 13, offset: 89980},
+																									pos: position{line: 2847, col: 13, offset: 90009},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2846, col: 13, offset: 89980},
+																										pos:        position{line: 2847, col: 13, offset: 90009},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6256,28 +6256,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6286,9 +6286,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -6303,44 +6303,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 901, col: 5, offset: 28407},
+														pos:   position{line: 902, col: 5, offset: 28436},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 901, col: 9, offset: 28411},
+															pos: position{line: 902, col: 9, offset: 28440},
 															expr: &choiceExpr{
-																pos: position{line: 908, col: 5, offset: 28613},
+																pos: position{line: 909, col: 5, offset: 28642},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 908, col: 5, offset: 28613},
+																		pos: position{line: 909, col: 5, offset: 28642},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 908, col: 5, offset: 28613},
+																				pos:   position{line: 909, col: 5, offset: 28642},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 769, col: 5, offset: 24616},
+																					pos: position{line: 770, col: 5, offset: 24645},
 																					run: (*parser).callonDocumentFragment502,
 																					expr: &seqExpr{
-																						pos: position{line: 769, col: 5, offset: 24616},
+																						pos: position{line: 770, col: 5, offset: 24645},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 769, col: 5, offset: 24616},
+																								pos:   position{line: 770, col: 5, offset: 24645},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 769, col: 16, offset: 24627},
+																									pos: position{line: 770, col: 16, offset: 24656},
 																									run: (*parser).callonDocumentFragment505,
 																									expr: &seqExpr{
-																										pos: position{line: 769, col: 16, offset: 24627},
+																										pos: position{line: 770, col: 16, offset: 24656},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 769, col: 16, offset: 24627},
+																												pos:        position{line: 770, col: 16, offset: 24656},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 769, col: 23, offset: 24634},
+																												pos: position{line: 770, col: 23, offset: 24663},
 																												expr: &litMatcher{
-																													pos:        position{line: 769, col: 23, offset: 24634},
+																													pos:        position{line: 770, col: 23, offset: 24663},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -6351,12 +6351,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 771, col: 8, offset: 24718},
+																								pos: position{line: 772, col: 8, offset: 24747},
 																								expr: &actionExpr{
-																									pos: position{line: 2900, col: 10, offset: 91454},
+																									pos: position{line: 2901, col: 10, offset: 91483},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2900, col: 10, offset: 91454},
+																										pos:        position{line: 2901, col: 10, offset: 91483},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6365,28 +6365,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2922, col: 8, offset: 91852},
+																								pos: position{line: 2923, col: 8, offset: 91881},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2909, col: 12, offset: 91625},
+																										pos: position{line: 2910, col: 12, offset: 91654},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2909, col: 13, offset: 91626},
+																											pos: position{line: 2910, col: 13, offset: 91655},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 13, offset: 91626},
+																													pos:        position{line: 2910, col: 13, offset: 91655},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 20, offset: 91633},
+																													pos:        position{line: 2910, col: 20, offset: 91662},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 29, offset: 91642},
+																													pos:        position{line: 2910, col: 29, offset: 91671},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6395,9 +6395,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2919, col: 8, offset: 91802},
+																										pos: position{line: 2920, col: 8, offset: 91831},
 																										expr: &anyMatcher{
-																											line: 2919, col: 9, offset: 91803,
+																											line: 2920, col: 9, offset: 91832,
 																										},
 																									},
 																								},
@@ -6407,15 +6407,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 909, col: 5, offset: 28644},
+																				pos: position{line: 910, col: 5, offset: 28673},
 																				run: (*parser).callonDocumentFragment521,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2919, col: 8, offset: 91802},
+																		pos: position{line: 2920, col: 8, offset: 91831},
 																		expr: &anyMatcher{
-																			line: 2919, col: 9, offset: 91803,
+																			line: 2920, col: 9, offset: 91832,
 																		},
 																	},
 																},
@@ -6426,39 +6426,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 924, col: 5, offset: 28957},
+											pos: position{line: 925, col: 5, offset: 28986},
 											run: (*parser).callonDocumentFragment524,
 											expr: &seqExpr{
-												pos: position{line: 924, col: 5, offset: 28957},
+												pos: position{line: 925, col: 5, offset: 28986},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 924, col: 5, offset: 28957},
+														pos:   position{line: 925, col: 5, offset: 28986},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 783, col: 5, offset: 25092},
+															pos: position{line: 784, col: 5, offset: 25121},
 															run: (*parser).callonDocumentFragment527,
 															expr: &seqExpr{
-																pos: position{line: 783, col: 5, offset: 25092},
+																pos: position{line: 784, col: 5, offset: 25121},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 783, col: 5, offset: 25092},
+																		pos:   position{line: 784, col: 5, offset: 25121},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 783, col: 16, offset: 25103},
+																			pos: position{line: 784, col: 16, offset: 25132},
 																			run: (*parser).callonDocumentFragment530,
 																			expr: &seqExpr{
-																				pos: position{line: 783, col: 16, offset: 25103},
+																				pos: position{line: 784, col: 16, offset: 25132},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 783, col: 16, offset: 25103},
+																						pos:        position{line: 784, col: 16, offset: 25132},
 																						val:        "....",
 																						ignoreCase: false,
 																						want:       "\"....\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 783, col: 23, offset: 25110},
+																						pos: position{line: 784, col: 23, offset: 25139},
 																						expr: &litMatcher{
-																							pos:        position{line: 783, col: 23, offset: 25110},
+																							pos:        position{line: 784, col: 23, offset: 25139},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -6469,12 +6469,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 785, col: 8, offset: 25194},
+																		pos: position{line: 786, col: 8, offset: 25223},
 																		expr: &actionExpr{
-																			pos: position{line: 2900, col: 10, offset: 91454},
+																			pos: position{line: 2901, col: 10, offset: 91483},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2900, col: 10, offset: 91454},
+																				pos:        position{line: 2901, col: 10, offset: 91483},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6483,28 +6483,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2922, col: 8, offset: 91852},
+																		pos: position{line: 2923, col: 8, offset: 91881},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2909, col: 12, offset: 91625},
+																				pos: position{line: 2910, col: 12, offset: 91654},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2909, col: 13, offset: 91626},
+																					pos: position{line: 2910, col: 13, offset: 91655},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 13, offset: 91626},
+																							pos:        position{line: 2910, col: 13, offset: 91655},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 20, offset: 91633},
+																							pos:        position{line: 2910, col: 20, offset: 91662},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 29, offset: 91642},
+																							pos:        position{line: 2910, col: 29, offset: 91671},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6513,9 +6513,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2919, col: 8, offset: 91802},
+																				pos: position{line: 2920, col: 8, offset: 91831},
 																				expr: &anyMatcher{
-																					line: 2919, col: 9, offset: 91803,
+																					line: 2920, col: 9, offset: 91832,
 																				},
 																			},
 																		},
@@ -6525,56 +6525,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 925, col: 5, offset: 28996},
+														pos: position{line: 926, col: 5, offset: 29025},
 														run: (*parser).callonDocumentFragment546,
 													},
 													&labeledExpr{
-														pos:   position{line: 928, col: 5, offset: 29088},
+														pos:   position{line: 929, col: 5, offset: 29117},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 943, col: 5, offset: 29486},
+															pos: position{line: 944, col: 5, offset: 29515},
 															expr: &actionExpr{
-																pos: position{line: 943, col: 6, offset: 29487},
+																pos: position{line: 944, col: 6, offset: 29516},
 																run: (*parser).callonDocumentFragment549,
 																expr: &seqExpr{
-																	pos: position{line: 943, col: 6, offset: 29487},
+																	pos: position{line: 944, col: 6, offset: 29516},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 943, col: 6, offset: 29487},
+																			pos: position{line: 944, col: 6, offset: 29516},
 																			expr: &choiceExpr{
-																				pos: position{line: 936, col: 5, offset: 29328},
+																				pos: position{line: 937, col: 5, offset: 29357},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 936, col: 5, offset: 29328},
+																						pos: position{line: 937, col: 5, offset: 29357},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 936, col: 5, offset: 29328},
+																								pos:   position{line: 937, col: 5, offset: 29357},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 5, offset: 25092},
+																									pos: position{line: 784, col: 5, offset: 25121},
 																									run: (*parser).callonDocumentFragment555,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 5, offset: 25092},
+																										pos: position{line: 784, col: 5, offset: 25121},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 783, col: 5, offset: 25092},
+																												pos:   position{line: 784, col: 5, offset: 25121},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 783, col: 16, offset: 25103},
+																													pos: position{line: 784, col: 16, offset: 25132},
 																													run: (*parser).callonDocumentFragment558,
 																													expr: &seqExpr{
-																														pos: position{line: 783, col: 16, offset: 25103},
+																														pos: position{line: 784, col: 16, offset: 25132},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 783, col: 16, offset: 25103},
+																																pos:        position{line: 784, col: 16, offset: 25132},
 																																val:        "....",
 																																ignoreCase: false,
 																																want:       "\"....\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 783, col: 23, offset: 25110},
+																																pos: position{line: 784, col: 23, offset: 25139},
 																																expr: &litMatcher{
-																																	pos:        position{line: 783, col: 23, offset: 25110},
+																																	pos:        position{line: 784, col: 23, offset: 25139},
 																																	val:        ".",
 																																	ignoreCase: false,
 																																	want:       "\".\"",
@@ -6585,12 +6585,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 785, col: 8, offset: 25194},
+																												pos: position{line: 786, col: 8, offset: 25223},
 																												expr: &actionExpr{
-																													pos: position{line: 2900, col: 10, offset: 91454},
+																													pos: position{line: 2901, col: 10, offset: 91483},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2900, col: 10, offset: 91454},
+																														pos:        position{line: 2901, col: 10, offset: 91483},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6599,28 +6599,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2922, col: 8, offset: 91852},
+																												pos: position{line: 2923, col: 8, offset: 91881},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2909, col: 12, offset: 91625},
+																														pos: position{line: 2910, col: 12, offset: 91654},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2909, col: 13, offset: 91626},
+																															pos: position{line: 2910, col: 13, offset: 91655},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2909, col: 13, offset: 91626},
+																																	pos:        position{line: 2910, col: 13, offset: 91655},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2909, col: 20, offset: 91633},
+																																	pos:        position{line: 2910, col: 20, offset: 91662},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2909, col: 29, offset: 91642},
+																																	pos:        position{line: 2910, col: 29, offset: 91671},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6629,9 +6629,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2919, col: 8, offset: 91802},
+																														pos: position{line: 2920, col: 8, offset: 91831},
 																														expr: &anyMatcher{
-																															line: 2919, col: 9, offset: 91803,
+																															line: 2920, col: 9, offset: 91832,
 																														},
 																													},
 																												},
@@ -6641,45 +6641,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 937, col: 5, offset: 29359},
+																								pos: position{line: 938, col: 5, offset: 29388},
 																								run: (*parser).callonDocumentFragment574,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2919, col: 8, offset: 91802},
+																						pos: position{line: 2920, col: 8, offset: 91831},
 																						expr: &anyMatcher{
-																							line: 2919, col: 9, offset: 91803,
+																							line: 2920, col: 9, offset: 91832,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 944, col: 5, offset: 29517},
+																			pos:   position{line: 945, col: 5, offset: 29546},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 812, col: 5, offset: 26117},
 																				run: (*parser).callonDocumentFragment578,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 812, col: 5, offset: 26117},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2917, col: 11, offset: 91788},
+																							pos: position{line: 2918, col: 11, offset: 91817},
 																							expr: &anyMatcher{
-																								line: 2917, col: 13, offset: 91790,
+																								line: 2918, col: 13, offset: 91819,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 813, col: 5, offset: 26192},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2846, col: 13, offset: 89980},
+																								pos: position{line: 2847, col: 13, offset: 90009},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2846, col: 13, offset: 89980},
+																									pos: position{line: 2847, col: 13, offset: 90009},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2846, col: 13, offset: 89980},
+																										pos:        position{line: 2847, col: 13, offset: 90009},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6689,28 +6689,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6719,9 +6719,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -6736,44 +6736,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 929, col: 5, offset: 29122},
+														pos:   position{line: 930, col: 5, offset: 29151},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 929, col: 9, offset: 29126},
+															pos: position{line: 930, col: 9, offset: 29155},
 															expr: &choiceExpr{
-																pos: position{line: 936, col: 5, offset: 29328},
+																pos: position{line: 937, col: 5, offset: 29357},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 936, col: 5, offset: 29328},
+																		pos: position{line: 937, col: 5, offset: 29357},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 936, col: 5, offset: 29328},
+																				pos:   position{line: 937, col: 5, offset: 29357},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 783, col: 5, offset: 25092},
+																					pos: position{line: 784, col: 5, offset: 25121},
 																					run: (*parser).callonDocumentFragment599,
 																					expr: &seqExpr{
-																						pos: position{line: 783, col: 5, offset: 25092},
+																						pos: position{line: 784, col: 5, offset: 25121},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 783, col: 5, offset: 25092},
+																								pos:   position{line: 784, col: 5, offset: 25121},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 16, offset: 25103},
+																									pos: position{line: 784, col: 16, offset: 25132},
 																									run: (*parser).callonDocumentFragment602,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 16, offset: 25103},
+																										pos: position{line: 784, col: 16, offset: 25132},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 783, col: 16, offset: 25103},
+																												pos:        position{line: 784, col: 16, offset: 25132},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 783, col: 23, offset: 25110},
+																												pos: position{line: 784, col: 23, offset: 25139},
 																												expr: &litMatcher{
-																													pos:        position{line: 783, col: 23, offset: 25110},
+																													pos:        position{line: 784, col: 23, offset: 25139},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -6784,12 +6784,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 785, col: 8, offset: 25194},
+																								pos: position{line: 786, col: 8, offset: 25223},
 																								expr: &actionExpr{
-																									pos: position{line: 2900, col: 10, offset: 91454},
+																									pos: position{line: 2901, col: 10, offset: 91483},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2900, col: 10, offset: 91454},
+																										pos:        position{line: 2901, col: 10, offset: 91483},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6798,28 +6798,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2922, col: 8, offset: 91852},
+																								pos: position{line: 2923, col: 8, offset: 91881},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2909, col: 12, offset: 91625},
+																										pos: position{line: 2910, col: 12, offset: 91654},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2909, col: 13, offset: 91626},
+																											pos: position{line: 2910, col: 13, offset: 91655},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 13, offset: 91626},
+																													pos:        position{line: 2910, col: 13, offset: 91655},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 20, offset: 91633},
+																													pos:        position{line: 2910, col: 20, offset: 91662},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 29, offset: 91642},
+																													pos:        position{line: 2910, col: 29, offset: 91671},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6828,9 +6828,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2919, col: 8, offset: 91802},
+																										pos: position{line: 2920, col: 8, offset: 91831},
 																										expr: &anyMatcher{
-																											line: 2919, col: 9, offset: 91803,
+																											line: 2920, col: 9, offset: 91832,
 																										},
 																									},
 																								},
@@ -6840,15 +6840,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 937, col: 5, offset: 29359},
+																				pos: position{line: 938, col: 5, offset: 29388},
 																				run: (*parser).callonDocumentFragment618,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2919, col: 8, offset: 91802},
+																		pos: position{line: 2920, col: 8, offset: 91831},
 																		expr: &anyMatcher{
-																			line: 2919, col: 9, offset: 91803,
+																			line: 2920, col: 9, offset: 91832,
 																		},
 																	},
 																},
@@ -6859,41 +6859,41 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 975, col: 5, offset: 30400},
+											pos: position{line: 976, col: 5, offset: 30429},
 											run: (*parser).callonDocumentFragment621,
 											expr: &seqExpr{
-												pos: position{line: 975, col: 5, offset: 30400},
+												pos: position{line: 976, col: 5, offset: 30429},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 975, col: 5, offset: 30400},
+														pos:   position{line: 976, col: 5, offset: 30429},
 														label: "firstLine",
 														expr: &actionExpr{
-															pos: position{line: 982, col: 5, offset: 30659},
+															pos: position{line: 983, col: 5, offset: 30688},
 															run: (*parser).callonDocumentFragment624,
 															expr: &seqExpr{
-																pos: position{line: 982, col: 5, offset: 30659},
+																pos: position{line: 983, col: 5, offset: 30688},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 982, col: 5, offset: 30659},
+																		pos: position{line: 983, col: 5, offset: 30688},
 																		expr: &actionExpr{
-																			pos: position{line: 677, col: 14, offset: 21489},
+																			pos: position{line: 678, col: 14, offset: 21518},
 																			run: (*parser).callonDocumentFragment627,
 																			expr: &seqExpr{
-																				pos: position{line: 677, col: 14, offset: 21489},
+																				pos: position{line: 678, col: 14, offset: 21518},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2917, col: 11, offset: 91788},
+																						pos: position{line: 2918, col: 11, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2917, col: 13, offset: 91790,
+																							line: 2918, col: 13, offset: 91819,
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 677, col: 21, offset: 21496},
+																						pos: position{line: 678, col: 21, offset: 21525},
 																						expr: &actionExpr{
-																							pos: position{line: 2900, col: 10, offset: 91454},
+																							pos: position{line: 2901, col: 10, offset: 91483},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2900, col: 10, offset: 91454},
+																								pos:        position{line: 2901, col: 10, offset: 91483},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6902,28 +6902,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2922, col: 8, offset: 91852},
+																						pos: position{line: 2923, col: 8, offset: 91881},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2909, col: 12, offset: 91625},
+																								pos: position{line: 2910, col: 12, offset: 91654},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2909, col: 13, offset: 91626},
+																									pos: position{line: 2910, col: 13, offset: 91655},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 13, offset: 91626},
+																											pos:        position{line: 2910, col: 13, offset: 91655},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 20, offset: 91633},
+																											pos:        position{line: 2910, col: 20, offset: 91662},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 29, offset: 91642},
+																											pos:        position{line: 2910, col: 29, offset: 91671},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6932,9 +6932,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2919, col: 8, offset: 91802},
+																								pos: position{line: 2920, col: 8, offset: 91831},
 																								expr: &anyMatcher{
-																									line: 2919, col: 9, offset: 91803,
+																									line: 2920, col: 9, offset: 91832,
 																								},
 																							},
 																						},
@@ -6944,21 +6944,21 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 983, col: 5, offset: 30674},
+																		pos:        position{line: 984, col: 5, offset: 30703},
 																		val:        "> ",
 																		ignoreCase: false,
 																		want:       "\"> \"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 984, col: 5, offset: 30684},
+																		pos:   position{line: 985, col: 5, offset: 30713},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2850, col: 14, offset: 90047},
+																			pos: position{line: 2851, col: 14, offset: 90076},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2850, col: 14, offset: 90047},
+																				pos: position{line: 2851, col: 14, offset: 90076},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2850, col: 14, offset: 90047},
+																					pos:        position{line: 2851, col: 14, offset: 90076},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -6968,28 +6968,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2922, col: 8, offset: 91852},
+																		pos: position{line: 2923, col: 8, offset: 91881},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2909, col: 12, offset: 91625},
+																				pos: position{line: 2910, col: 12, offset: 91654},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2909, col: 13, offset: 91626},
+																					pos: position{line: 2910, col: 13, offset: 91655},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 13, offset: 91626},
+																							pos:        position{line: 2910, col: 13, offset: 91655},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 20, offset: 91633},
+																							pos:        position{line: 2910, col: 20, offset: 91662},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 29, offset: 91642},
+																							pos:        position{line: 2910, col: 29, offset: 91671},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6998,9 +6998,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2919, col: 8, offset: 91802},
+																				pos: position{line: 2920, col: 8, offset: 91831},
 																				expr: &anyMatcher{
-																					line: 2919, col: 9, offset: 91803,
+																					line: 2920, col: 9, offset: 91832,
 																				},
 																			},
 																		},
@@ -7010,40 +7010,40 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 976, col: 5, offset: 30437},
+														pos:   position{line: 977, col: 5, offset: 30466},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 976, col: 16, offset: 30448},
+															pos: position{line: 977, col: 16, offset: 30477},
 															expr: &choiceExpr{
-																pos: position{line: 976, col: 17, offset: 30449},
+																pos: position{line: 977, col: 17, offset: 30478},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 982, col: 5, offset: 30659},
+																		pos: position{line: 983, col: 5, offset: 30688},
 																		run: (*parser).callonDocumentFragment658,
 																		expr: &seqExpr{
-																			pos: position{line: 982, col: 5, offset: 30659},
+																			pos: position{line: 983, col: 5, offset: 30688},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 982, col: 5, offset: 30659},
+																					pos: position{line: 983, col: 5, offset: 30688},
 																					expr: &actionExpr{
-																						pos: position{line: 677, col: 14, offset: 21489},
+																						pos: position{line: 678, col: 14, offset: 21518},
 																						run: (*parser).callonDocumentFragment661,
 																						expr: &seqExpr{
-																							pos: position{line: 677, col: 14, offset: 21489},
+																							pos: position{line: 678, col: 14, offset: 21518},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2917, col: 11, offset: 91788},
+																									pos: position{line: 2918, col: 11, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2917, col: 13, offset: 91790,
+																										line: 2918, col: 13, offset: 91819,
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 677, col: 21, offset: 21496},
+																									pos: position{line: 678, col: 21, offset: 21525},
 																									expr: &actionExpr{
-																										pos: position{line: 2900, col: 10, offset: 91454},
+																										pos: position{line: 2901, col: 10, offset: 91483},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2900, col: 10, offset: 91454},
+																											pos:        position{line: 2901, col: 10, offset: 91483},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7052,28 +7052,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2922, col: 8, offset: 91852},
+																									pos: position{line: 2923, col: 8, offset: 91881},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2909, col: 12, offset: 91625},
+																											pos: position{line: 2910, col: 12, offset: 91654},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2909, col: 13, offset: 91626},
+																												pos: position{line: 2910, col: 13, offset: 91655},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 13, offset: 91626},
+																														pos:        position{line: 2910, col: 13, offset: 91655},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 20, offset: 91633},
+																														pos:        position{line: 2910, col: 20, offset: 91662},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 29, offset: 91642},
+																														pos:        position{line: 2910, col: 29, offset: 91671},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7082,9 +7082,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2919, col: 8, offset: 91802},
+																											pos: position{line: 2920, col: 8, offset: 91831},
 																											expr: &anyMatcher{
-																												line: 2919, col: 9, offset: 91803,
+																												line: 2920, col: 9, offset: 91832,
 																											},
 																										},
 																									},
@@ -7094,21 +7094,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 983, col: 5, offset: 30674},
+																					pos:        position{line: 984, col: 5, offset: 30703},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 984, col: 5, offset: 30684},
+																					pos:   position{line: 985, col: 5, offset: 30713},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2850, col: 14, offset: 90047},
+																						pos: position{line: 2851, col: 14, offset: 90076},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2850, col: 14, offset: 90047},
+																							pos: position{line: 2851, col: 14, offset: 90076},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2850, col: 14, offset: 90047},
+																								pos:        position{line: 2851, col: 14, offset: 90076},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7118,28 +7118,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2922, col: 8, offset: 91852},
+																					pos: position{line: 2923, col: 8, offset: 91881},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2909, col: 12, offset: 91625},
+																							pos: position{line: 2910, col: 12, offset: 91654},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2909, col: 13, offset: 91626},
+																								pos: position{line: 2910, col: 13, offset: 91655},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 13, offset: 91626},
+																										pos:        position{line: 2910, col: 13, offset: 91655},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 20, offset: 91633},
+																										pos:        position{line: 2910, col: 20, offset: 91662},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 29, offset: 91642},
+																										pos:        position{line: 2910, col: 29, offset: 91671},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7148,9 +7148,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2919, col: 8, offset: 91802},
+																							pos: position{line: 2920, col: 8, offset: 91831},
 																							expr: &anyMatcher{
-																								line: 2919, col: 9, offset: 91803,
+																								line: 2920, col: 9, offset: 91832,
 																							},
 																						},
 																					},
@@ -7159,21 +7159,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1789, col: 5, offset: 57721},
+																		pos: position{line: 1790, col: 5, offset: 57750},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1789, col: 5, offset: 57721},
+																			pos: position{line: 1790, col: 5, offset: 57750},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1789, col: 5, offset: 57721},
+																					pos:   position{line: 1790, col: 5, offset: 57750},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2850, col: 14, offset: 90047},
+																						pos: position{line: 2851, col: 14, offset: 90076},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2850, col: 14, offset: 90047},
+																							pos: position{line: 2851, col: 14, offset: 90076},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2850, col: 14, offset: 90047},
+																								pos:        position{line: 2851, col: 14, offset: 90076},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7183,32 +7183,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1790, col: 5, offset: 57745},
+																					pos: position{line: 1791, col: 5, offset: 57774},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2922, col: 8, offset: 91852},
+																					pos: position{line: 2923, col: 8, offset: 91881},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2909, col: 12, offset: 91625},
+																							pos: position{line: 2910, col: 12, offset: 91654},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2909, col: 13, offset: 91626},
+																								pos: position{line: 2910, col: 13, offset: 91655},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 13, offset: 91626},
+																										pos:        position{line: 2910, col: 13, offset: 91655},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 20, offset: 91633},
+																										pos:        position{line: 2910, col: 20, offset: 91662},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 29, offset: 91642},
+																										pos:        position{line: 2910, col: 29, offset: 91671},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7217,9 +7217,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2919, col: 8, offset: 91802},
+																							pos: position{line: 2920, col: 8, offset: 91831},
 																							expr: &anyMatcher{
-																								line: 2919, col: 9, offset: 91803,
+																								line: 2920, col: 9, offset: 91832,
 																							},
 																						},
 																					},
@@ -7235,28 +7235,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 997, col: 5, offset: 30949},
+											pos: position{line: 998, col: 5, offset: 30978},
 											run: (*parser).callonDocumentFragment704,
 											expr: &seqExpr{
-												pos: position{line: 997, col: 5, offset: 30949},
+												pos: position{line: 998, col: 5, offset: 30978},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 997, col: 5, offset: 30949},
+														pos:   position{line: 998, col: 5, offset: 30978},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 776, col: 5, offset: 24861},
+															pos: position{line: 777, col: 5, offset: 24890},
 															run: (*parser).callonDocumentFragment707,
 															expr: &seqExpr{
-																pos: position{line: 776, col: 5, offset: 24861},
+																pos: position{line: 777, col: 5, offset: 24890},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 776, col: 5, offset: 24861},
+																		pos:   position{line: 777, col: 5, offset: 24890},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 776, col: 16, offset: 24872},
+																			pos: position{line: 777, col: 16, offset: 24901},
 																			run: (*parser).callonDocumentFragment710,
 																			expr: &litMatcher{
-																				pos:        position{line: 776, col: 16, offset: 24872},
+																				pos:        position{line: 777, col: 16, offset: 24901},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -7264,12 +7264,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 778, col: 8, offset: 24949},
+																		pos: position{line: 779, col: 8, offset: 24978},
 																		expr: &actionExpr{
-																			pos: position{line: 2900, col: 10, offset: 91454},
+																			pos: position{line: 2901, col: 10, offset: 91483},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2900, col: 10, offset: 91454},
+																				pos:        position{line: 2901, col: 10, offset: 91483},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7278,28 +7278,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2922, col: 8, offset: 91852},
+																		pos: position{line: 2923, col: 8, offset: 91881},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2909, col: 12, offset: 91625},
+																				pos: position{line: 2910, col: 12, offset: 91654},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2909, col: 13, offset: 91626},
+																					pos: position{line: 2910, col: 13, offset: 91655},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 13, offset: 91626},
+																							pos:        position{line: 2910, col: 13, offset: 91655},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 20, offset: 91633},
+																							pos:        position{line: 2910, col: 20, offset: 91662},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 29, offset: 91642},
+																							pos:        position{line: 2910, col: 29, offset: 91671},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7308,9 +7308,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2919, col: 8, offset: 91802},
+																				pos: position{line: 2920, col: 8, offset: 91831},
 																				expr: &anyMatcher{
-																					line: 2919, col: 9, offset: 91803,
+																					line: 2920, col: 9, offset: 91832,
 																				},
 																			},
 																		},
@@ -7320,35 +7320,35 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 998, col: 5, offset: 30985},
+														pos:   position{line: 999, col: 5, offset: 31014},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1008, col: 5, offset: 31253},
+															pos: position{line: 1009, col: 5, offset: 31282},
 															expr: &actionExpr{
-																pos: position{line: 1008, col: 6, offset: 31254},
+																pos: position{line: 1009, col: 6, offset: 31283},
 																run: (*parser).callonDocumentFragment725,
 																expr: &seqExpr{
-																	pos: position{line: 1008, col: 6, offset: 31254},
+																	pos: position{line: 1009, col: 6, offset: 31283},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1008, col: 6, offset: 31254},
+																			pos: position{line: 1009, col: 6, offset: 31283},
 																			expr: &choiceExpr{
-																				pos: position{line: 1005, col: 26, offset: 31202},
+																				pos: position{line: 1006, col: 26, offset: 31231},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 776, col: 5, offset: 24861},
+																						pos: position{line: 777, col: 5, offset: 24890},
 																						run: (*parser).callonDocumentFragment729,
 																						expr: &seqExpr{
-																							pos: position{line: 776, col: 5, offset: 24861},
+																							pos: position{line: 777, col: 5, offset: 24890},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 776, col: 5, offset: 24861},
+																									pos:   position{line: 777, col: 5, offset: 24890},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 776, col: 16, offset: 24872},
+																										pos: position{line: 777, col: 16, offset: 24901},
 																										run: (*parser).callonDocumentFragment732,
 																										expr: &litMatcher{
-																											pos:        position{line: 776, col: 16, offset: 24872},
+																											pos:        position{line: 777, col: 16, offset: 24901},
 																											val:        "--",
 																											ignoreCase: false,
 																											want:       "\"--\"",
@@ -7356,12 +7356,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 778, col: 8, offset: 24949},
+																									pos: position{line: 779, col: 8, offset: 24978},
 																									expr: &actionExpr{
-																										pos: position{line: 2900, col: 10, offset: 91454},
+																										pos: position{line: 2901, col: 10, offset: 91483},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2900, col: 10, offset: 91454},
+																											pos:        position{line: 2901, col: 10, offset: 91483},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7370,28 +7370,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2922, col: 8, offset: 91852},
+																									pos: position{line: 2923, col: 8, offset: 91881},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2909, col: 12, offset: 91625},
+																											pos: position{line: 2910, col: 12, offset: 91654},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2909, col: 13, offset: 91626},
+																												pos: position{line: 2910, col: 13, offset: 91655},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 13, offset: 91626},
+																														pos:        position{line: 2910, col: 13, offset: 91655},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 20, offset: 91633},
+																														pos:        position{line: 2910, col: 20, offset: 91662},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 29, offset: 91642},
+																														pos:        position{line: 2910, col: 29, offset: 91671},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7400,9 +7400,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2919, col: 8, offset: 91802},
+																											pos: position{line: 2920, col: 8, offset: 91831},
 																											expr: &anyMatcher{
-																												line: 2919, col: 9, offset: 91803,
+																												line: 2920, col: 9, offset: 91832,
 																											},
 																										},
 																									},
@@ -7411,39 +7411,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2919, col: 8, offset: 91802},
+																						pos: position{line: 2920, col: 8, offset: 91831},
 																						expr: &anyMatcher{
-																							line: 2919, col: 9, offset: 91803,
+																							line: 2920, col: 9, offset: 91832,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1009, col: 5, offset: 31281},
+																			pos:   position{line: 1010, col: 5, offset: 31310},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 812, col: 5, offset: 26117},
 																				run: (*parser).callonDocumentFragment748,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 812, col: 5, offset: 26117},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2917, col: 11, offset: 91788},
+																							pos: position{line: 2918, col: 11, offset: 91817},
 																							expr: &anyMatcher{
-																								line: 2917, col: 13, offset: 91790,
+																								line: 2918, col: 13, offset: 91819,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 813, col: 5, offset: 26192},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2846, col: 13, offset: 89980},
+																								pos: position{line: 2847, col: 13, offset: 90009},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2846, col: 13, offset: 89980},
+																									pos: position{line: 2847, col: 13, offset: 90009},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2846, col: 13, offset: 89980},
+																										pos:        position{line: 2847, col: 13, offset: 90009},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7453,28 +7453,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7483,9 +7483,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -7500,27 +7500,27 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 999, col: 5, offset: 31016},
+														pos:   position{line: 1000, col: 5, offset: 31045},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 999, col: 9, offset: 31020},
+															pos: position{line: 1000, col: 9, offset: 31049},
 															expr: &choiceExpr{
-																pos: position{line: 1005, col: 26, offset: 31202},
+																pos: position{line: 1006, col: 26, offset: 31231},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 776, col: 5, offset: 24861},
+																		pos: position{line: 777, col: 5, offset: 24890},
 																		run: (*parser).callonDocumentFragment767,
 																		expr: &seqExpr{
-																			pos: position{line: 776, col: 5, offset: 24861},
+																			pos: position{line: 777, col: 5, offset: 24890},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 776, col: 5, offset: 24861},
+																					pos:   position{line: 777, col: 5, offset: 24890},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 776, col: 16, offset: 24872},
+																						pos: position{line: 777, col: 16, offset: 24901},
 																						run: (*parser).callonDocumentFragment770,
 																						expr: &litMatcher{
-																							pos:        position{line: 776, col: 16, offset: 24872},
+																							pos:        position{line: 777, col: 16, offset: 24901},
 																							val:        "--",
 																							ignoreCase: false,
 																							want:       "\"--\"",
@@ -7528,12 +7528,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 778, col: 8, offset: 24949},
+																					pos: position{line: 779, col: 8, offset: 24978},
 																					expr: &actionExpr{
-																						pos: position{line: 2900, col: 10, offset: 91454},
+																						pos: position{line: 2901, col: 10, offset: 91483},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2900, col: 10, offset: 91454},
+																							pos:        position{line: 2901, col: 10, offset: 91483},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7542,28 +7542,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2922, col: 8, offset: 91852},
+																					pos: position{line: 2923, col: 8, offset: 91881},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2909, col: 12, offset: 91625},
+																							pos: position{line: 2910, col: 12, offset: 91654},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2909, col: 13, offset: 91626},
+																								pos: position{line: 2910, col: 13, offset: 91655},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 13, offset: 91626},
+																										pos:        position{line: 2910, col: 13, offset: 91655},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 20, offset: 91633},
+																										pos:        position{line: 2910, col: 20, offset: 91662},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 29, offset: 91642},
+																										pos:        position{line: 2910, col: 29, offset: 91671},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7572,9 +7572,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2919, col: 8, offset: 91802},
+																							pos: position{line: 2920, col: 8, offset: 91831},
 																							expr: &anyMatcher{
-																								line: 2919, col: 9, offset: 91803,
+																								line: 2920, col: 9, offset: 91832,
 																							},
 																						},
 																					},
@@ -7583,9 +7583,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2919, col: 8, offset: 91802},
+																		pos: position{line: 2920, col: 8, offset: 91831},
 																		expr: &anyMatcher{
-																			line: 2919, col: 9, offset: 91803,
+																			line: 2920, col: 9, offset: 91832,
 																		},
 																	},
 																},
@@ -7596,39 +7596,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1017, col: 5, offset: 31444},
+											pos: position{line: 1018, col: 5, offset: 31473},
 											run: (*parser).callonDocumentFragment785,
 											expr: &seqExpr{
-												pos: position{line: 1017, col: 5, offset: 31444},
+												pos: position{line: 1018, col: 5, offset: 31473},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1017, col: 5, offset: 31444},
+														pos:   position{line: 1018, col: 5, offset: 31473},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 790, col: 5, offset: 25344},
+															pos: position{line: 791, col: 5, offset: 25373},
 															run: (*parser).callonDocumentFragment788,
 															expr: &seqExpr{
-																pos: position{line: 790, col: 5, offset: 25344},
+																pos: position{line: 791, col: 5, offset: 25373},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 790, col: 5, offset: 25344},
+																		pos:   position{line: 791, col: 5, offset: 25373},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 790, col: 16, offset: 25355},
+																			pos: position{line: 791, col: 16, offset: 25384},
 																			run: (*parser).callonDocumentFragment791,
 																			expr: &seqExpr{
-																				pos: position{line: 790, col: 16, offset: 25355},
+																				pos: position{line: 791, col: 16, offset: 25384},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 790, col: 16, offset: 25355},
+																						pos:        position{line: 791, col: 16, offset: 25384},
 																						val:        "++++",
 																						ignoreCase: false,
 																						want:       "\"++++\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 790, col: 23, offset: 25362},
+																						pos: position{line: 791, col: 23, offset: 25391},
 																						expr: &litMatcher{
-																							pos:        position{line: 790, col: 23, offset: 25362},
+																							pos:        position{line: 791, col: 23, offset: 25391},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
@@ -7639,12 +7639,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 792, col: 8, offset: 25446},
+																		pos: position{line: 793, col: 8, offset: 25475},
 																		expr: &actionExpr{
-																			pos: position{line: 2900, col: 10, offset: 91454},
+																			pos: position{line: 2901, col: 10, offset: 91483},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2900, col: 10, offset: 91454},
+																				pos:        position{line: 2901, col: 10, offset: 91483},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7653,28 +7653,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2922, col: 8, offset: 91852},
+																		pos: position{line: 2923, col: 8, offset: 91881},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2909, col: 12, offset: 91625},
+																				pos: position{line: 2910, col: 12, offset: 91654},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2909, col: 13, offset: 91626},
+																					pos: position{line: 2910, col: 13, offset: 91655},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 13, offset: 91626},
+																							pos:        position{line: 2910, col: 13, offset: 91655},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 20, offset: 91633},
+																							pos:        position{line: 2910, col: 20, offset: 91662},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 29, offset: 91642},
+																							pos:        position{line: 2910, col: 29, offset: 91671},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7683,9 +7683,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2919, col: 8, offset: 91802},
+																				pos: position{line: 2920, col: 8, offset: 91831},
 																				expr: &anyMatcher{
-																					line: 2919, col: 9, offset: 91803,
+																					line: 2920, col: 9, offset: 91832,
 																				},
 																			},
 																		},
@@ -7695,56 +7695,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1018, col: 5, offset: 31487},
+														pos: position{line: 1019, col: 5, offset: 31516},
 														run: (*parser).callonDocumentFragment807,
 													},
 													&labeledExpr{
-														pos:   position{line: 1021, col: 5, offset: 31579},
+														pos:   position{line: 1022, col: 5, offset: 31608},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1036, col: 5, offset: 32009},
+															pos: position{line: 1037, col: 5, offset: 32038},
 															expr: &actionExpr{
-																pos: position{line: 1036, col: 6, offset: 32010},
+																pos: position{line: 1037, col: 6, offset: 32039},
 																run: (*parser).callonDocumentFragment810,
 																expr: &seqExpr{
-																	pos: position{line: 1036, col: 6, offset: 32010},
+																	pos: position{line: 1037, col: 6, offset: 32039},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1036, col: 6, offset: 32010},
+																			pos: position{line: 1037, col: 6, offset: 32039},
 																			expr: &choiceExpr{
-																				pos: position{line: 1029, col: 5, offset: 31843},
+																				pos: position{line: 1030, col: 5, offset: 31872},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1029, col: 5, offset: 31843},
+																						pos: position{line: 1030, col: 5, offset: 31872},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1029, col: 5, offset: 31843},
+																								pos:   position{line: 1030, col: 5, offset: 31872},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 5, offset: 25344},
+																									pos: position{line: 791, col: 5, offset: 25373},
 																									run: (*parser).callonDocumentFragment816,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 5, offset: 25344},
+																										pos: position{line: 791, col: 5, offset: 25373},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 790, col: 5, offset: 25344},
+																												pos:   position{line: 791, col: 5, offset: 25373},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 790, col: 16, offset: 25355},
+																													pos: position{line: 791, col: 16, offset: 25384},
 																													run: (*parser).callonDocumentFragment819,
 																													expr: &seqExpr{
-																														pos: position{line: 790, col: 16, offset: 25355},
+																														pos: position{line: 791, col: 16, offset: 25384},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 790, col: 16, offset: 25355},
+																																pos:        position{line: 791, col: 16, offset: 25384},
 																																val:        "++++",
 																																ignoreCase: false,
 																																want:       "\"++++\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 790, col: 23, offset: 25362},
+																																pos: position{line: 791, col: 23, offset: 25391},
 																																expr: &litMatcher{
-																																	pos:        position{line: 790, col: 23, offset: 25362},
+																																	pos:        position{line: 791, col: 23, offset: 25391},
 																																	val:        "+",
 																																	ignoreCase: false,
 																																	want:       "\"+\"",
@@ -7755,12 +7755,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 792, col: 8, offset: 25446},
+																												pos: position{line: 793, col: 8, offset: 25475},
 																												expr: &actionExpr{
-																													pos: position{line: 2900, col: 10, offset: 91454},
+																													pos: position{line: 2901, col: 10, offset: 91483},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2900, col: 10, offset: 91454},
+																														pos:        position{line: 2901, col: 10, offset: 91483},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7769,28 +7769,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2922, col: 8, offset: 91852},
+																												pos: position{line: 2923, col: 8, offset: 91881},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2909, col: 12, offset: 91625},
+																														pos: position{line: 2910, col: 12, offset: 91654},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2909, col: 13, offset: 91626},
+																															pos: position{line: 2910, col: 13, offset: 91655},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2909, col: 13, offset: 91626},
+																																	pos:        position{line: 2910, col: 13, offset: 91655},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2909, col: 20, offset: 91633},
+																																	pos:        position{line: 2910, col: 20, offset: 91662},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2909, col: 29, offset: 91642},
+																																	pos:        position{line: 2910, col: 29, offset: 91671},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7799,9 +7799,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2919, col: 8, offset: 91802},
+																														pos: position{line: 2920, col: 8, offset: 91831},
 																														expr: &anyMatcher{
-																															line: 2919, col: 9, offset: 91803,
+																															line: 2920, col: 9, offset: 91832,
 																														},
 																													},
 																												},
@@ -7811,45 +7811,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1030, col: 5, offset: 31878},
+																								pos: position{line: 1031, col: 5, offset: 31907},
 																								run: (*parser).callonDocumentFragment835,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2919, col: 8, offset: 91802},
+																						pos: position{line: 2920, col: 8, offset: 91831},
 																						expr: &anyMatcher{
-																							line: 2919, col: 9, offset: 91803,
+																							line: 2920, col: 9, offset: 91832,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1037, col: 5, offset: 32044},
+																			pos:   position{line: 1038, col: 5, offset: 32073},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 812, col: 5, offset: 26117},
 																				run: (*parser).callonDocumentFragment839,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 812, col: 5, offset: 26117},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2917, col: 11, offset: 91788},
+																							pos: position{line: 2918, col: 11, offset: 91817},
 																							expr: &anyMatcher{
-																								line: 2917, col: 13, offset: 91790,
+																								line: 2918, col: 13, offset: 91819,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 813, col: 5, offset: 26192},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2846, col: 13, offset: 89980},
+																								pos: position{line: 2847, col: 13, offset: 90009},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2846, col: 13, offset: 89980},
+																									pos: position{line: 2847, col: 13, offset: 90009},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2846, col: 13, offset: 89980},
+																										pos:        position{line: 2847, col: 13, offset: 90009},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7859,28 +7859,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7889,9 +7889,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -7906,44 +7906,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1022, col: 5, offset: 31617},
+														pos:   position{line: 1023, col: 5, offset: 31646},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1022, col: 9, offset: 31621},
+															pos: position{line: 1023, col: 9, offset: 31650},
 															expr: &choiceExpr{
-																pos: position{line: 1029, col: 5, offset: 31843},
+																pos: position{line: 1030, col: 5, offset: 31872},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1029, col: 5, offset: 31843},
+																		pos: position{line: 1030, col: 5, offset: 31872},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1029, col: 5, offset: 31843},
+																				pos:   position{line: 1030, col: 5, offset: 31872},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 790, col: 5, offset: 25344},
+																					pos: position{line: 791, col: 5, offset: 25373},
 																					run: (*parser).callonDocumentFragment860,
 																					expr: &seqExpr{
-																						pos: position{line: 790, col: 5, offset: 25344},
+																						pos: position{line: 791, col: 5, offset: 25373},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 790, col: 5, offset: 25344},
+																								pos:   position{line: 791, col: 5, offset: 25373},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 16, offset: 25355},
+																									pos: position{line: 791, col: 16, offset: 25384},
 																									run: (*parser).callonDocumentFragment863,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 16, offset: 25355},
+																										pos: position{line: 791, col: 16, offset: 25384},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 790, col: 16, offset: 25355},
+																												pos:        position{line: 791, col: 16, offset: 25384},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 790, col: 23, offset: 25362},
+																												pos: position{line: 791, col: 23, offset: 25391},
 																												expr: &litMatcher{
-																													pos:        position{line: 790, col: 23, offset: 25362},
+																													pos:        position{line: 791, col: 23, offset: 25391},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -7954,12 +7954,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 792, col: 8, offset: 25446},
+																								pos: position{line: 793, col: 8, offset: 25475},
 																								expr: &actionExpr{
-																									pos: position{line: 2900, col: 10, offset: 91454},
+																									pos: position{line: 2901, col: 10, offset: 91483},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2900, col: 10, offset: 91454},
+																										pos:        position{line: 2901, col: 10, offset: 91483},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7968,28 +7968,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2922, col: 8, offset: 91852},
+																								pos: position{line: 2923, col: 8, offset: 91881},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2909, col: 12, offset: 91625},
+																										pos: position{line: 2910, col: 12, offset: 91654},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2909, col: 13, offset: 91626},
+																											pos: position{line: 2910, col: 13, offset: 91655},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 13, offset: 91626},
+																													pos:        position{line: 2910, col: 13, offset: 91655},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 20, offset: 91633},
+																													pos:        position{line: 2910, col: 20, offset: 91662},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 29, offset: 91642},
+																													pos:        position{line: 2910, col: 29, offset: 91671},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -7998,9 +7998,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2919, col: 8, offset: 91802},
+																										pos: position{line: 2920, col: 8, offset: 91831},
 																										expr: &anyMatcher{
-																											line: 2919, col: 9, offset: 91803,
+																											line: 2920, col: 9, offset: 91832,
 																										},
 																									},
 																								},
@@ -8010,15 +8010,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1030, col: 5, offset: 31878},
+																				pos: position{line: 1031, col: 5, offset: 31907},
 																				run: (*parser).callonDocumentFragment879,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2919, col: 8, offset: 91802},
+																		pos: position{line: 2920, col: 8, offset: 91831},
 																		expr: &anyMatcher{
-																			line: 2919, col: 9, offset: 91803,
+																			line: 2920, col: 9, offset: 91832,
 																		},
 																	},
 																},
@@ -8029,39 +8029,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1045, col: 5, offset: 32195},
+											pos: position{line: 1046, col: 5, offset: 32224},
 											run: (*parser).callonDocumentFragment882,
 											expr: &seqExpr{
-												pos: position{line: 1045, col: 5, offset: 32195},
+												pos: position{line: 1046, col: 5, offset: 32224},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1045, col: 5, offset: 32195},
+														pos:   position{line: 1046, col: 5, offset: 32224},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 797, col: 5, offset: 25594},
+															pos: position{line: 798, col: 5, offset: 25623},
 															run: (*parser).callonDocumentFragment885,
 															expr: &seqExpr{
-																pos: position{line: 797, col: 5, offset: 25594},
+																pos: position{line: 798, col: 5, offset: 25623},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 797, col: 5, offset: 25594},
+																		pos:   position{line: 798, col: 5, offset: 25623},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 797, col: 16, offset: 25605},
+																			pos: position{line: 798, col: 16, offset: 25634},
 																			run: (*parser).callonDocumentFragment888,
 																			expr: &seqExpr{
-																				pos: position{line: 797, col: 16, offset: 25605},
+																				pos: position{line: 798, col: 16, offset: 25634},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 797, col: 16, offset: 25605},
+																						pos:        position{line: 798, col: 16, offset: 25634},
 																						val:        "____",
 																						ignoreCase: false,
 																						want:       "\"____\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 797, col: 23, offset: 25612},
+																						pos: position{line: 798, col: 23, offset: 25641},
 																						expr: &litMatcher{
-																							pos:        position{line: 797, col: 23, offset: 25612},
+																							pos:        position{line: 798, col: 23, offset: 25641},
 																							val:        "_",
 																							ignoreCase: false,
 																							want:       "\"_\"",
@@ -8072,12 +8072,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 799, col: 8, offset: 25696},
+																		pos: position{line: 800, col: 8, offset: 25725},
 																		expr: &actionExpr{
-																			pos: position{line: 2900, col: 10, offset: 91454},
+																			pos: position{line: 2901, col: 10, offset: 91483},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2900, col: 10, offset: 91454},
+																				pos:        position{line: 2901, col: 10, offset: 91483},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8086,28 +8086,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2922, col: 8, offset: 91852},
+																		pos: position{line: 2923, col: 8, offset: 91881},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2909, col: 12, offset: 91625},
+																				pos: position{line: 2910, col: 12, offset: 91654},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2909, col: 13, offset: 91626},
+																					pos: position{line: 2910, col: 13, offset: 91655},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 13, offset: 91626},
+																							pos:        position{line: 2910, col: 13, offset: 91655},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 20, offset: 91633},
+																							pos:        position{line: 2910, col: 20, offset: 91662},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 29, offset: 91642},
+																							pos:        position{line: 2910, col: 29, offset: 91671},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8116,9 +8116,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2919, col: 8, offset: 91802},
+																				pos: position{line: 2920, col: 8, offset: 91831},
 																				expr: &anyMatcher{
-																					line: 2919, col: 9, offset: 91803,
+																					line: 2920, col: 9, offset: 91832,
 																				},
 																			},
 																		},
@@ -8128,56 +8128,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1046, col: 5, offset: 32232},
+														pos: position{line: 1047, col: 5, offset: 32261},
 														run: (*parser).callonDocumentFragment904,
 													},
 													&labeledExpr{
-														pos:   position{line: 1049, col: 5, offset: 32324},
+														pos:   position{line: 1050, col: 5, offset: 32353},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1064, col: 4, offset: 32705},
+															pos: position{line: 1065, col: 4, offset: 32734},
 															expr: &actionExpr{
-																pos: position{line: 1064, col: 5, offset: 32706},
+																pos: position{line: 1065, col: 5, offset: 32735},
 																run: (*parser).callonDocumentFragment907,
 																expr: &seqExpr{
-																	pos: position{line: 1064, col: 5, offset: 32706},
+																	pos: position{line: 1065, col: 5, offset: 32735},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1064, col: 5, offset: 32706},
+																			pos: position{line: 1065, col: 5, offset: 32735},
 																			expr: &choiceExpr{
-																				pos: position{line: 1057, col: 5, offset: 32552},
+																				pos: position{line: 1058, col: 5, offset: 32581},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1057, col: 5, offset: 32552},
+																						pos: position{line: 1058, col: 5, offset: 32581},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1057, col: 5, offset: 32552},
+																								pos:   position{line: 1058, col: 5, offset: 32581},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 5, offset: 25594},
+																									pos: position{line: 798, col: 5, offset: 25623},
 																									run: (*parser).callonDocumentFragment913,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 5, offset: 25594},
+																										pos: position{line: 798, col: 5, offset: 25623},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 797, col: 5, offset: 25594},
+																												pos:   position{line: 798, col: 5, offset: 25623},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 797, col: 16, offset: 25605},
+																													pos: position{line: 798, col: 16, offset: 25634},
 																													run: (*parser).callonDocumentFragment916,
 																													expr: &seqExpr{
-																														pos: position{line: 797, col: 16, offset: 25605},
+																														pos: position{line: 798, col: 16, offset: 25634},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 797, col: 16, offset: 25605},
+																																pos:        position{line: 798, col: 16, offset: 25634},
 																																val:        "____",
 																																ignoreCase: false,
 																																want:       "\"____\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 797, col: 23, offset: 25612},
+																																pos: position{line: 798, col: 23, offset: 25641},
 																																expr: &litMatcher{
-																																	pos:        position{line: 797, col: 23, offset: 25612},
+																																	pos:        position{line: 798, col: 23, offset: 25641},
 																																	val:        "_",
 																																	ignoreCase: false,
 																																	want:       "\"_\"",
@@ -8188,12 +8188,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 799, col: 8, offset: 25696},
+																												pos: position{line: 800, col: 8, offset: 25725},
 																												expr: &actionExpr{
-																													pos: position{line: 2900, col: 10, offset: 91454},
+																													pos: position{line: 2901, col: 10, offset: 91483},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2900, col: 10, offset: 91454},
+																														pos:        position{line: 2901, col: 10, offset: 91483},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8202,28 +8202,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2922, col: 8, offset: 91852},
+																												pos: position{line: 2923, col: 8, offset: 91881},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2909, col: 12, offset: 91625},
+																														pos: position{line: 2910, col: 12, offset: 91654},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2909, col: 13, offset: 91626},
+																															pos: position{line: 2910, col: 13, offset: 91655},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2909, col: 13, offset: 91626},
+																																	pos:        position{line: 2910, col: 13, offset: 91655},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2909, col: 20, offset: 91633},
+																																	pos:        position{line: 2910, col: 20, offset: 91662},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2909, col: 29, offset: 91642},
+																																	pos:        position{line: 2910, col: 29, offset: 91671},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8232,9 +8232,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2919, col: 8, offset: 91802},
+																														pos: position{line: 2920, col: 8, offset: 91831},
 																														expr: &anyMatcher{
-																															line: 2919, col: 9, offset: 91803,
+																															line: 2920, col: 9, offset: 91832,
 																														},
 																													},
 																												},
@@ -8244,45 +8244,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1058, col: 5, offset: 32581},
+																								pos: position{line: 1059, col: 5, offset: 32610},
 																								run: (*parser).callonDocumentFragment932,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2919, col: 8, offset: 91802},
+																						pos: position{line: 2920, col: 8, offset: 91831},
 																						expr: &anyMatcher{
-																							line: 2919, col: 9, offset: 91803,
+																							line: 2920, col: 9, offset: 91832,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1065, col: 5, offset: 32734},
+																			pos:   position{line: 1066, col: 5, offset: 32763},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 812, col: 5, offset: 26117},
 																				run: (*parser).callonDocumentFragment936,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 812, col: 5, offset: 26117},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2917, col: 11, offset: 91788},
+																							pos: position{line: 2918, col: 11, offset: 91817},
 																							expr: &anyMatcher{
-																								line: 2917, col: 13, offset: 91790,
+																								line: 2918, col: 13, offset: 91819,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 813, col: 5, offset: 26192},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2846, col: 13, offset: 89980},
+																								pos: position{line: 2847, col: 13, offset: 90009},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2846, col: 13, offset: 89980},
+																									pos: position{line: 2847, col: 13, offset: 90009},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2846, col: 13, offset: 89980},
+																										pos:        position{line: 2847, col: 13, offset: 90009},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8292,28 +8292,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8322,9 +8322,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -8339,44 +8339,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1050, col: 5, offset: 32356},
+														pos:   position{line: 1051, col: 5, offset: 32385},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1050, col: 9, offset: 32360},
+															pos: position{line: 1051, col: 9, offset: 32389},
 															expr: &choiceExpr{
-																pos: position{line: 1057, col: 5, offset: 32552},
+																pos: position{line: 1058, col: 5, offset: 32581},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1057, col: 5, offset: 32552},
+																		pos: position{line: 1058, col: 5, offset: 32581},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1057, col: 5, offset: 32552},
+																				pos:   position{line: 1058, col: 5, offset: 32581},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 797, col: 5, offset: 25594},
+																					pos: position{line: 798, col: 5, offset: 25623},
 																					run: (*parser).callonDocumentFragment957,
 																					expr: &seqExpr{
-																						pos: position{line: 797, col: 5, offset: 25594},
+																						pos: position{line: 798, col: 5, offset: 25623},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 797, col: 5, offset: 25594},
+																								pos:   position{line: 798, col: 5, offset: 25623},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 16, offset: 25605},
+																									pos: position{line: 798, col: 16, offset: 25634},
 																									run: (*parser).callonDocumentFragment960,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 16, offset: 25605},
+																										pos: position{line: 798, col: 16, offset: 25634},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 797, col: 16, offset: 25605},
+																												pos:        position{line: 798, col: 16, offset: 25634},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 797, col: 23, offset: 25612},
+																												pos: position{line: 798, col: 23, offset: 25641},
 																												expr: &litMatcher{
-																													pos:        position{line: 797, col: 23, offset: 25612},
+																													pos:        position{line: 798, col: 23, offset: 25641},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -8387,12 +8387,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 799, col: 8, offset: 25696},
+																								pos: position{line: 800, col: 8, offset: 25725},
 																								expr: &actionExpr{
-																									pos: position{line: 2900, col: 10, offset: 91454},
+																									pos: position{line: 2901, col: 10, offset: 91483},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2900, col: 10, offset: 91454},
+																										pos:        position{line: 2901, col: 10, offset: 91483},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8401,28 +8401,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2922, col: 8, offset: 91852},
+																								pos: position{line: 2923, col: 8, offset: 91881},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2909, col: 12, offset: 91625},
+																										pos: position{line: 2910, col: 12, offset: 91654},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2909, col: 13, offset: 91626},
+																											pos: position{line: 2910, col: 13, offset: 91655},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 13, offset: 91626},
+																													pos:        position{line: 2910, col: 13, offset: 91655},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 20, offset: 91633},
+																													pos:        position{line: 2910, col: 20, offset: 91662},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 29, offset: 91642},
+																													pos:        position{line: 2910, col: 29, offset: 91671},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8431,9 +8431,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2919, col: 8, offset: 91802},
+																										pos: position{line: 2920, col: 8, offset: 91831},
 																										expr: &anyMatcher{
-																											line: 2919, col: 9, offset: 91803,
+																											line: 2920, col: 9, offset: 91832,
 																										},
 																									},
 																								},
@@ -8443,15 +8443,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1058, col: 5, offset: 32581},
+																				pos: position{line: 1059, col: 5, offset: 32610},
 																				run: (*parser).callonDocumentFragment976,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2919, col: 8, offset: 91802},
+																		pos: position{line: 2920, col: 8, offset: 91831},
 																		expr: &anyMatcher{
-																			line: 2919, col: 9, offset: 91803,
+																			line: 2920, col: 9, offset: 91832,
 																		},
 																	},
 																},
@@ -8462,39 +8462,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1073, col: 5, offset: 32889},
+											pos: position{line: 1074, col: 5, offset: 32918},
 											run: (*parser).callonDocumentFragment979,
 											expr: &seqExpr{
-												pos: position{line: 1073, col: 5, offset: 32889},
+												pos: position{line: 1074, col: 5, offset: 32918},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1073, col: 5, offset: 32889},
+														pos:   position{line: 1074, col: 5, offset: 32918},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 804, col: 5, offset: 25840},
+															pos: position{line: 805, col: 5, offset: 25869},
 															run: (*parser).callonDocumentFragment982,
 															expr: &seqExpr{
-																pos: position{line: 804, col: 5, offset: 25840},
+																pos: position{line: 805, col: 5, offset: 25869},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 804, col: 5, offset: 25840},
+																		pos:   position{line: 805, col: 5, offset: 25869},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 804, col: 16, offset: 25851},
+																			pos: position{line: 805, col: 16, offset: 25880},
 																			run: (*parser).callonDocumentFragment985,
 																			expr: &seqExpr{
-																				pos: position{line: 804, col: 16, offset: 25851},
+																				pos: position{line: 805, col: 16, offset: 25880},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 804, col: 16, offset: 25851},
+																						pos:        position{line: 805, col: 16, offset: 25880},
 																						val:        "****",
 																						ignoreCase: false,
 																						want:       "\"****\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 804, col: 23, offset: 25858},
+																						pos: position{line: 805, col: 23, offset: 25887},
 																						expr: &litMatcher{
-																							pos:        position{line: 804, col: 23, offset: 25858},
+																							pos:        position{line: 805, col: 23, offset: 25887},
 																							val:        "*",
 																							ignoreCase: false,
 																							want:       "\"*\"",
@@ -8505,12 +8505,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 806, col: 8, offset: 25942},
+																		pos: position{line: 807, col: 8, offset: 25971},
 																		expr: &actionExpr{
-																			pos: position{line: 2900, col: 10, offset: 91454},
+																			pos: position{line: 2901, col: 10, offset: 91483},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2900, col: 10, offset: 91454},
+																				pos:        position{line: 2901, col: 10, offset: 91483},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8519,28 +8519,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2922, col: 8, offset: 91852},
+																		pos: position{line: 2923, col: 8, offset: 91881},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2909, col: 12, offset: 91625},
+																				pos: position{line: 2910, col: 12, offset: 91654},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2909, col: 13, offset: 91626},
+																					pos: position{line: 2910, col: 13, offset: 91655},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 13, offset: 91626},
+																							pos:        position{line: 2910, col: 13, offset: 91655},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 20, offset: 91633},
+																							pos:        position{line: 2910, col: 20, offset: 91662},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 29, offset: 91642},
+																							pos:        position{line: 2910, col: 29, offset: 91671},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8549,9 +8549,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2919, col: 8, offset: 91802},
+																				pos: position{line: 2920, col: 8, offset: 91831},
 																				expr: &anyMatcher{
-																					line: 2919, col: 9, offset: 91803,
+																					line: 2920, col: 9, offset: 91832,
 																				},
 																			},
 																		},
@@ -8561,56 +8561,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1074, col: 5, offset: 32928},
+														pos: position{line: 1075, col: 5, offset: 32957},
 														run: (*parser).callonDocumentFragment1001,
 													},
 													&labeledExpr{
-														pos:   position{line: 1077, col: 5, offset: 33020},
+														pos:   position{line: 1078, col: 5, offset: 33049},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1092, col: 4, offset: 33417},
+															pos: position{line: 1093, col: 4, offset: 33446},
 															expr: &actionExpr{
-																pos: position{line: 1092, col: 5, offset: 33418},
+																pos: position{line: 1093, col: 5, offset: 33447},
 																run: (*parser).callonDocumentFragment1004,
 																expr: &seqExpr{
-																	pos: position{line: 1092, col: 5, offset: 33418},
+																	pos: position{line: 1093, col: 5, offset: 33447},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1092, col: 5, offset: 33418},
+																			pos: position{line: 1093, col: 5, offset: 33447},
 																			expr: &choiceExpr{
-																				pos: position{line: 1085, col: 5, offset: 33260},
+																				pos: position{line: 1086, col: 5, offset: 33289},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1085, col: 5, offset: 33260},
+																						pos: position{line: 1086, col: 5, offset: 33289},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1085, col: 5, offset: 33260},
+																								pos:   position{line: 1086, col: 5, offset: 33289},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 5, offset: 25840},
+																									pos: position{line: 805, col: 5, offset: 25869},
 																									run: (*parser).callonDocumentFragment1010,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 5, offset: 25840},
+																										pos: position{line: 805, col: 5, offset: 25869},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 804, col: 5, offset: 25840},
+																												pos:   position{line: 805, col: 5, offset: 25869},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 804, col: 16, offset: 25851},
+																													pos: position{line: 805, col: 16, offset: 25880},
 																													run: (*parser).callonDocumentFragment1013,
 																													expr: &seqExpr{
-																														pos: position{line: 804, col: 16, offset: 25851},
+																														pos: position{line: 805, col: 16, offset: 25880},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 804, col: 16, offset: 25851},
+																																pos:        position{line: 805, col: 16, offset: 25880},
 																																val:        "****",
 																																ignoreCase: false,
 																																want:       "\"****\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 804, col: 23, offset: 25858},
+																																pos: position{line: 805, col: 23, offset: 25887},
 																																expr: &litMatcher{
-																																	pos:        position{line: 804, col: 23, offset: 25858},
+																																	pos:        position{line: 805, col: 23, offset: 25887},
 																																	val:        "*",
 																																	ignoreCase: false,
 																																	want:       "\"*\"",
@@ -8621,12 +8621,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 806, col: 8, offset: 25942},
+																												pos: position{line: 807, col: 8, offset: 25971},
 																												expr: &actionExpr{
-																													pos: position{line: 2900, col: 10, offset: 91454},
+																													pos: position{line: 2901, col: 10, offset: 91483},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2900, col: 10, offset: 91454},
+																														pos:        position{line: 2901, col: 10, offset: 91483},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8635,28 +8635,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2922, col: 8, offset: 91852},
+																												pos: position{line: 2923, col: 8, offset: 91881},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2909, col: 12, offset: 91625},
+																														pos: position{line: 2910, col: 12, offset: 91654},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2909, col: 13, offset: 91626},
+																															pos: position{line: 2910, col: 13, offset: 91655},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2909, col: 13, offset: 91626},
+																																	pos:        position{line: 2910, col: 13, offset: 91655},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2909, col: 20, offset: 91633},
+																																	pos:        position{line: 2910, col: 20, offset: 91662},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2909, col: 29, offset: 91642},
+																																	pos:        position{line: 2910, col: 29, offset: 91671},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8665,9 +8665,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2919, col: 8, offset: 91802},
+																														pos: position{line: 2920, col: 8, offset: 91831},
 																														expr: &anyMatcher{
-																															line: 2919, col: 9, offset: 91803,
+																															line: 2920, col: 9, offset: 91832,
 																														},
 																													},
 																												},
@@ -8677,45 +8677,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1086, col: 5, offset: 33291},
+																								pos: position{line: 1087, col: 5, offset: 33320},
 																								run: (*parser).callonDocumentFragment1029,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2919, col: 8, offset: 91802},
+																						pos: position{line: 2920, col: 8, offset: 91831},
 																						expr: &anyMatcher{
-																							line: 2919, col: 9, offset: 91803,
+																							line: 2920, col: 9, offset: 91832,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1093, col: 5, offset: 33448},
+																			pos:   position{line: 1094, col: 5, offset: 33477},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 812, col: 5, offset: 26117},
 																				run: (*parser).callonDocumentFragment1033,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 812, col: 5, offset: 26117},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2917, col: 11, offset: 91788},
+																							pos: position{line: 2918, col: 11, offset: 91817},
 																							expr: &anyMatcher{
-																								line: 2917, col: 13, offset: 91790,
+																								line: 2918, col: 13, offset: 91819,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 813, col: 5, offset: 26192},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2846, col: 13, offset: 89980},
+																								pos: position{line: 2847, col: 13, offset: 90009},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2846, col: 13, offset: 89980},
+																									pos: position{line: 2847, col: 13, offset: 90009},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2846, col: 13, offset: 89980},
+																										pos:        position{line: 2847, col: 13, offset: 90009},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8725,28 +8725,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8755,9 +8755,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -8772,44 +8772,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1078, col: 5, offset: 33054},
+														pos:   position{line: 1079, col: 5, offset: 33083},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1078, col: 9, offset: 33058},
+															pos: position{line: 1079, col: 9, offset: 33087},
 															expr: &choiceExpr{
-																pos: position{line: 1085, col: 5, offset: 33260},
+																pos: position{line: 1086, col: 5, offset: 33289},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1085, col: 5, offset: 33260},
+																		pos: position{line: 1086, col: 5, offset: 33289},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1085, col: 5, offset: 33260},
+																				pos:   position{line: 1086, col: 5, offset: 33289},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 804, col: 5, offset: 25840},
+																					pos: position{line: 805, col: 5, offset: 25869},
 																					run: (*parser).callonDocumentFragment1054,
 																					expr: &seqExpr{
-																						pos: position{line: 804, col: 5, offset: 25840},
+																						pos: position{line: 805, col: 5, offset: 25869},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 804, col: 5, offset: 25840},
+																								pos:   position{line: 805, col: 5, offset: 25869},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 16, offset: 25851},
+																									pos: position{line: 805, col: 16, offset: 25880},
 																									run: (*parser).callonDocumentFragment1057,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 16, offset: 25851},
+																										pos: position{line: 805, col: 16, offset: 25880},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 804, col: 16, offset: 25851},
+																												pos:        position{line: 805, col: 16, offset: 25880},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 804, col: 23, offset: 25858},
+																												pos: position{line: 805, col: 23, offset: 25887},
 																												expr: &litMatcher{
-																													pos:        position{line: 804, col: 23, offset: 25858},
+																													pos:        position{line: 805, col: 23, offset: 25887},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -8820,12 +8820,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 806, col: 8, offset: 25942},
+																								pos: position{line: 807, col: 8, offset: 25971},
 																								expr: &actionExpr{
-																									pos: position{line: 2900, col: 10, offset: 91454},
+																									pos: position{line: 2901, col: 10, offset: 91483},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2900, col: 10, offset: 91454},
+																										pos:        position{line: 2901, col: 10, offset: 91483},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8834,28 +8834,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2922, col: 8, offset: 91852},
+																								pos: position{line: 2923, col: 8, offset: 91881},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2909, col: 12, offset: 91625},
+																										pos: position{line: 2910, col: 12, offset: 91654},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2909, col: 13, offset: 91626},
+																											pos: position{line: 2910, col: 13, offset: 91655},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 13, offset: 91626},
+																													pos:        position{line: 2910, col: 13, offset: 91655},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 20, offset: 91633},
+																													pos:        position{line: 2910, col: 20, offset: 91662},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 29, offset: 91642},
+																													pos:        position{line: 2910, col: 29, offset: 91671},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8864,9 +8864,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2919, col: 8, offset: 91802},
+																										pos: position{line: 2920, col: 8, offset: 91831},
 																										expr: &anyMatcher{
-																											line: 2919, col: 9, offset: 91803,
+																											line: 2920, col: 9, offset: 91832,
 																										},
 																									},
 																								},
@@ -8876,15 +8876,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1086, col: 5, offset: 33291},
+																				pos: position{line: 1087, col: 5, offset: 33320},
 																				run: (*parser).callonDocumentFragment1073,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2919, col: 8, offset: 91802},
+																		pos: position{line: 2920, col: 8, offset: 91831},
 																		expr: &anyMatcher{
-																			line: 2919, col: 9, offset: 91803,
+																			line: 2920, col: 9, offset: 91832,
 																		},
 																	},
 																},
@@ -8895,52 +8895,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2745, col: 18, offset: 87044},
+											pos: position{line: 2746, col: 18, offset: 87073},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2745, col: 18, offset: 87044},
+												pos: position{line: 2746, col: 18, offset: 87073},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2746, col: 9, offset: 87054},
+														pos: position{line: 2747, col: 9, offset: 87083},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2746, col: 9, offset: 87054},
+																pos:        position{line: 2747, col: 9, offset: 87083},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2747, col: 11, offset: 87090},
+																pos:        position{line: 2748, col: 11, offset: 87119},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2747, col: 19, offset: 87098},
+																pos:        position{line: 2748, col: 19, offset: 87127},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2747, col: 29, offset: 87108},
+																pos:        position{line: 2748, col: 29, offset: 87137},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2747, col: 37, offset: 87116},
+																pos:        position{line: 2748, col: 37, offset: 87145},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2747, col: 47, offset: 87126},
+																pos:        position{line: 2748, col: 47, offset: 87155},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2747, col: 55, offset: 87134},
+																pos:        position{line: 2748, col: 55, offset: 87163},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -8948,12 +8948,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2748, col: 11, offset: 87192},
+														pos: position{line: 2749, col: 11, offset: 87221},
 														expr: &actionExpr{
-															pos: position{line: 2900, col: 10, offset: 91454},
+															pos: position{line: 2901, col: 10, offset: 91483},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2900, col: 10, offset: 91454},
+																pos:        position{line: 2901, col: 10, offset: 91483},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -8962,28 +8962,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2922, col: 8, offset: 91852},
+														pos: position{line: 2923, col: 8, offset: 91881},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2909, col: 12, offset: 91625},
+																pos: position{line: 2910, col: 12, offset: 91654},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2909, col: 13, offset: 91626},
+																	pos: position{line: 2910, col: 13, offset: 91655},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 13, offset: 91626},
+																			pos:        position{line: 2910, col: 13, offset: 91655},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 20, offset: 91633},
+																			pos:        position{line: 2910, col: 20, offset: 91662},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 29, offset: 91642},
+																			pos:        position{line: 2910, col: 29, offset: 91671},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -8992,36 +8992,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2919, col: 8, offset: 91802},
+																pos: position{line: 2920, col: 8, offset: 91831},
 																expr: &anyMatcher{
-																	line: 2919, col: 9, offset: 91803,
+																	line: 2920, col: 9, offset: 91832,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2922, col: 8, offset: 91852},
+														pos: position{line: 2923, col: 8, offset: 91881},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2909, col: 12, offset: 91625},
+																pos: position{line: 2910, col: 12, offset: 91654},
 																run: (*parser).callonDocumentFragment1098,
 																expr: &choiceExpr{
-																	pos: position{line: 2909, col: 13, offset: 91626},
+																	pos: position{line: 2910, col: 13, offset: 91655},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 13, offset: 91626},
+																			pos:        position{line: 2910, col: 13, offset: 91655},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 20, offset: 91633},
+																			pos:        position{line: 2910, col: 20, offset: 91662},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 29, offset: 91642},
+																			pos:        position{line: 2910, col: 29, offset: 91671},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9030,9 +9030,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2919, col: 8, offset: 91802},
+																pos: position{line: 2920, col: 8, offset: 91831},
 																expr: &anyMatcher{
-																	line: 2919, col: 9, offset: 91803,
+																	line: 2920, col: 9, offset: 91832,
 																},
 															},
 														},
@@ -9045,24 +9045,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2636, col: 5, offset: 83980},
+											pos: position{line: 2637, col: 5, offset: 84009},
 											run: (*parser).callonDocumentFragment1106,
 											expr: &seqExpr{
-												pos: position{line: 2636, col: 5, offset: 83980},
+												pos: position{line: 2637, col: 5, offset: 84009},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2642, col: 19, offset: 84137},
+														pos:        position{line: 2643, col: 19, offset: 84166},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2642, col: 26, offset: 84144},
+														pos: position{line: 2643, col: 26, offset: 84173},
 														expr: &actionExpr{
-															pos: position{line: 2900, col: 10, offset: 91454},
+															pos: position{line: 2901, col: 10, offset: 91483},
 															run: (*parser).callonDocumentFragment1110,
 															expr: &charClassMatcher{
-																pos:        position{line: 2900, col: 10, offset: 91454},
+																pos:        position{line: 2901, col: 10, offset: 91483},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9071,28 +9071,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2922, col: 8, offset: 91852},
+														pos: position{line: 2923, col: 8, offset: 91881},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2909, col: 12, offset: 91625},
+																pos: position{line: 2910, col: 12, offset: 91654},
 																run: (*parser).callonDocumentFragment1113,
 																expr: &choiceExpr{
-																	pos: position{line: 2909, col: 13, offset: 91626},
+																	pos: position{line: 2910, col: 13, offset: 91655},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 13, offset: 91626},
+																			pos:        position{line: 2910, col: 13, offset: 91655},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 20, offset: 91633},
+																			pos:        position{line: 2910, col: 20, offset: 91662},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 29, offset: 91642},
+																			pos:        position{line: 2910, col: 29, offset: 91671},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9101,40 +9101,40 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2919, col: 8, offset: 91802},
+																pos: position{line: 2920, col: 8, offset: 91831},
 																expr: &anyMatcher{
-																	line: 2919, col: 9, offset: 91803,
+																	line: 2920, col: 9, offset: 91832,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2637, col: 5, offset: 84004},
+														pos:   position{line: 2638, col: 5, offset: 84033},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2637, col: 11, offset: 84010},
+															pos: position{line: 2638, col: 11, offset: 84039},
 															expr: &choiceExpr{
-																pos: position{line: 2637, col: 12, offset: 84011},
+																pos: position{line: 2638, col: 12, offset: 84040},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 677, col: 14, offset: 21489},
+																		pos: position{line: 678, col: 14, offset: 21518},
 																		run: (*parser).callonDocumentFragment1123,
 																		expr: &seqExpr{
-																			pos: position{line: 677, col: 14, offset: 21489},
+																			pos: position{line: 678, col: 14, offset: 21518},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2917, col: 11, offset: 91788},
+																					pos: position{line: 2918, col: 11, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2917, col: 13, offset: 91790,
+																						line: 2918, col: 13, offset: 91819,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 677, col: 21, offset: 21496},
+																					pos: position{line: 678, col: 21, offset: 21525},
 																					expr: &actionExpr{
-																						pos: position{line: 2900, col: 10, offset: 91454},
+																						pos: position{line: 2901, col: 10, offset: 91483},
 																						run: (*parser).callonDocumentFragment1128,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2900, col: 10, offset: 91454},
+																							pos:        position{line: 2901, col: 10, offset: 91483},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9143,28 +9143,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2922, col: 8, offset: 91852},
+																					pos: position{line: 2923, col: 8, offset: 91881},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2909, col: 12, offset: 91625},
+																							pos: position{line: 2910, col: 12, offset: 91654},
 																							run: (*parser).callonDocumentFragment1131,
 																							expr: &choiceExpr{
-																								pos: position{line: 2909, col: 13, offset: 91626},
+																								pos: position{line: 2910, col: 13, offset: 91655},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 13, offset: 91626},
+																										pos:        position{line: 2910, col: 13, offset: 91655},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 20, offset: 91633},
+																										pos:        position{line: 2910, col: 20, offset: 91662},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 29, offset: 91642},
+																										pos:        position{line: 2910, col: 29, offset: 91671},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9173,9 +9173,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2919, col: 8, offset: 91802},
+																							pos: position{line: 2920, col: 8, offset: 91831},
 																							expr: &anyMatcher{
-																								line: 2919, col: 9, offset: 91803,
+																								line: 2920, col: 9, offset: 91832,
 																							},
 																						},
 																					},
@@ -9184,32 +9184,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2649, col: 5, offset: 84256},
+																		pos: position{line: 2650, col: 5, offset: 84285},
 																		run: (*parser).callonDocumentFragment1138,
 																		expr: &seqExpr{
-																			pos: position{line: 2649, col: 5, offset: 84256},
+																			pos: position{line: 2650, col: 5, offset: 84285},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2649, col: 5, offset: 84256},
+																					pos: position{line: 2650, col: 5, offset: 84285},
 																					expr: &choiceExpr{
-																						pos: position{line: 2646, col: 22, offset: 84217},
+																						pos: position{line: 2647, col: 22, offset: 84246},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2642, col: 19, offset: 84137},
+																								pos: position{line: 2643, col: 19, offset: 84166},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2642, col: 19, offset: 84137},
+																										pos:        position{line: 2643, col: 19, offset: 84166},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2642, col: 26, offset: 84144},
+																										pos: position{line: 2643, col: 26, offset: 84173},
 																										expr: &actionExpr{
-																											pos: position{line: 2900, col: 10, offset: 91454},
+																											pos: position{line: 2901, col: 10, offset: 91483},
 																											run: (*parser).callonDocumentFragment1145,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2900, col: 10, offset: 91454},
+																												pos:        position{line: 2901, col: 10, offset: 91483},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9218,28 +9218,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2922, col: 8, offset: 91852},
+																										pos: position{line: 2923, col: 8, offset: 91881},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2909, col: 12, offset: 91625},
+																												pos: position{line: 2910, col: 12, offset: 91654},
 																												run: (*parser).callonDocumentFragment1148,
 																												expr: &choiceExpr{
-																													pos: position{line: 2909, col: 13, offset: 91626},
+																													pos: position{line: 2910, col: 13, offset: 91655},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2909, col: 13, offset: 91626},
+																															pos:        position{line: 2910, col: 13, offset: 91655},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2909, col: 20, offset: 91633},
+																															pos:        position{line: 2910, col: 20, offset: 91662},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2909, col: 29, offset: 91642},
+																															pos:        position{line: 2910, col: 29, offset: 91671},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9248,9 +9248,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2919, col: 8, offset: 91802},
+																												pos: position{line: 2920, col: 8, offset: 91831},
 																												expr: &anyMatcher{
-																													line: 2919, col: 9, offset: 91803,
+																													line: 2920, col: 9, offset: 91832,
 																												},
 																											},
 																										},
@@ -9258,59 +9258,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2919, col: 8, offset: 91802},
+																								pos: position{line: 2920, col: 8, offset: 91831},
 																								expr: &anyMatcher{
-																									line: 2919, col: 9, offset: 91803,
+																									line: 2920, col: 9, offset: 91832,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2650, col: 5, offset: 84279},
+																					pos:   position{line: 2651, col: 5, offset: 84308},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2651, col: 9, offset: 84297},
+																						pos: position{line: 2652, col: 9, offset: 84326},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2651, col: 10, offset: 84298},
+																								pos: position{line: 2652, col: 10, offset: 84327},
 																								run: (*parser).callonDocumentFragment1159,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2651, col: 10, offset: 84298},
+																									pos:   position{line: 2652, col: 10, offset: 84327},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2651, col: 17, offset: 84305},
+																										pos: position{line: 2652, col: 17, offset: 84334},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2659, col: 21, offset: 84501},
+																												pos: position{line: 2660, col: 21, offset: 84530},
 																												run: (*parser).callonDocumentFragment1162,
 																												expr: &seqExpr{
-																													pos: position{line: 2659, col: 21, offset: 84501},
+																													pos: position{line: 2660, col: 21, offset: 84530},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2659, col: 21, offset: 84501},
+																															pos:   position{line: 2660, col: 21, offset: 84530},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2659, col: 27, offset: 84507},
+																																pos: position{line: 2660, col: 27, offset: 84536},
 																																expr: &actionExpr{
-																																	pos: position{line: 2664, col: 5, offset: 84582},
+																																	pos: position{line: 2665, col: 5, offset: 84611},
 																																	run: (*parser).callonDocumentFragment1166,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2664, col: 5, offset: 84582},
+																																		pos: position{line: 2665, col: 5, offset: 84611},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2664, col: 5, offset: 84582},
+																																				pos:        position{line: 2665, col: 5, offset: 84611},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2664, col: 9, offset: 84586},
+																																				pos: position{line: 2665, col: 9, offset: 84615},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2900, col: 10, offset: 91454},
+																																					pos: position{line: 2901, col: 10, offset: 91483},
 																																					run: (*parser).callonDocumentFragment1170,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2900, col: 10, offset: 91454},
+																																						pos:        position{line: 2901, col: 10, offset: 91483},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9319,21 +9319,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2664, col: 16, offset: 84593},
+																																				pos:   position{line: 2665, col: 16, offset: 84622},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2670, col: 5, offset: 84793},
+																																					pos: position{line: 2671, col: 5, offset: 84822},
 																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2670, col: 5, offset: 84793},
+																																						pos:   position{line: 2671, col: 5, offset: 84822},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2670, col: 14, offset: 84802},
+																																							pos: position{line: 2671, col: 14, offset: 84831},
 																																							run: (*parser).callonDocumentFragment1175,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2670, col: 14, offset: 84802},
+																																								pos: position{line: 2671, col: 14, offset: 84831},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2670, col: 14, offset: 84802},
+																																									pos:        position{line: 2671, col: 14, offset: 84831},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9350,28 +9350,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2922, col: 8, offset: 91852},
+																															pos: position{line: 2923, col: 8, offset: 91881},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2909, col: 12, offset: 91625},
+																																	pos: position{line: 2910, col: 12, offset: 91654},
 																																	run: (*parser).callonDocumentFragment1179,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2909, col: 13, offset: 91626},
+																																		pos: position{line: 2910, col: 13, offset: 91655},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2909, col: 13, offset: 91626},
+																																				pos:        position{line: 2910, col: 13, offset: 91655},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2909, col: 20, offset: 91633},
+																																				pos:        position{line: 2910, col: 20, offset: 91662},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2909, col: 29, offset: 91642},
+																																				pos:        position{line: 2910, col: 29, offset: 91671},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9380,9 +9380,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2919, col: 8, offset: 91802},
+																																	pos: position{line: 2920, col: 8, offset: 91831},
 																																	expr: &anyMatcher{
-																																		line: 2919, col: 9, offset: 91803,
+																																		line: 2920, col: 9, offset: 91832,
 																																	},
 																																},
 																															},
@@ -9391,40 +9391,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2676, col: 24, offset: 84938},
+																												pos: position{line: 2677, col: 24, offset: 84967},
 																												run: (*parser).callonDocumentFragment1186,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2676, col: 24, offset: 84938},
+																													pos:   position{line: 2677, col: 24, offset: 84967},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2676, col: 30, offset: 84944},
+																														pos: position{line: 2677, col: 30, offset: 84973},
 																														expr: &actionExpr{
-																															pos: position{line: 2681, col: 5, offset: 85020},
+																															pos: position{line: 2682, col: 5, offset: 85049},
 																															run: (*parser).callonDocumentFragment1189,
 																															expr: &seqExpr{
-																																pos: position{line: 2681, col: 5, offset: 85020},
+																																pos: position{line: 2682, col: 5, offset: 85049},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2681, col: 5, offset: 85020},
+																																		pos: position{line: 2682, col: 5, offset: 85049},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2646, col: 22, offset: 84217},
+																																			pos: position{line: 2647, col: 22, offset: 84246},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2642, col: 19, offset: 84137},
+																																					pos: position{line: 2643, col: 19, offset: 84166},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2642, col: 19, offset: 84137},
+																																							pos:        position{line: 2643, col: 19, offset: 84166},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2642, col: 26, offset: 84144},
+																																							pos: position{line: 2643, col: 26, offset: 84173},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2900, col: 10, offset: 91454},
+																																								pos: position{line: 2901, col: 10, offset: 91483},
 																																								run: (*parser).callonDocumentFragment1196,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2900, col: 10, offset: 91454},
+																																									pos:        position{line: 2901, col: 10, offset: 91483},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9433,28 +9433,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2922, col: 8, offset: 91852},
+																																							pos: position{line: 2923, col: 8, offset: 91881},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2909, col: 12, offset: 91625},
+																																									pos: position{line: 2910, col: 12, offset: 91654},
 																																									run: (*parser).callonDocumentFragment1199,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2909, col: 13, offset: 91626},
+																																										pos: position{line: 2910, col: 13, offset: 91655},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2909, col: 13, offset: 91626},
+																																												pos:        position{line: 2910, col: 13, offset: 91655},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2909, col: 20, offset: 91633},
+																																												pos:        position{line: 2910, col: 20, offset: 91662},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2909, col: 29, offset: 91642},
+																																												pos:        position{line: 2910, col: 29, offset: 91671},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9463,9 +9463,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2919, col: 8, offset: 91802},
+																																									pos: position{line: 2920, col: 8, offset: 91831},
 																																									expr: &anyMatcher{
-																																										line: 2919, col: 9, offset: 91803,
+																																										line: 2920, col: 9, offset: 91832,
 																																									},
 																																								},
 																																							},
@@ -9473,35 +9473,35 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2919, col: 8, offset: 91802},
+																																					pos: position{line: 2920, col: 8, offset: 91831},
 																																					expr: &anyMatcher{
-																																						line: 2919, col: 9, offset: 91803,
+																																						line: 2920, col: 9, offset: 91832,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2682, col: 5, offset: 85043},
+																																		pos: position{line: 2683, col: 5, offset: 85072},
 																																		expr: &actionExpr{
-																																			pos: position{line: 677, col: 14, offset: 21489},
+																																			pos: position{line: 678, col: 14, offset: 21518},
 																																			run: (*parser).callonDocumentFragment1209,
 																																			expr: &seqExpr{
-																																				pos: position{line: 677, col: 14, offset: 21489},
+																																				pos: position{line: 678, col: 14, offset: 21518},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2917, col: 11, offset: 91788},
+																																						pos: position{line: 2918, col: 11, offset: 91817},
 																																						expr: &anyMatcher{
-																																							line: 2917, col: 13, offset: 91790,
+																																							line: 2918, col: 13, offset: 91819,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 677, col: 21, offset: 21496},
+																																						pos: position{line: 678, col: 21, offset: 21525},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2900, col: 10, offset: 91454},
+																																							pos: position{line: 2901, col: 10, offset: 91483},
 																																							run: (*parser).callonDocumentFragment1214,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2900, col: 10, offset: 91454},
+																																								pos:        position{line: 2901, col: 10, offset: 91483},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9510,28 +9510,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2922, col: 8, offset: 91852},
+																																						pos: position{line: 2923, col: 8, offset: 91881},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2909, col: 12, offset: 91625},
+																																								pos: position{line: 2910, col: 12, offset: 91654},
 																																								run: (*parser).callonDocumentFragment1217,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2909, col: 13, offset: 91626},
+																																									pos: position{line: 2910, col: 13, offset: 91655},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2909, col: 13, offset: 91626},
+																																											pos:        position{line: 2910, col: 13, offset: 91655},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2909, col: 20, offset: 91633},
+																																											pos:        position{line: 2910, col: 20, offset: 91662},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2909, col: 29, offset: 91642},
+																																											pos:        position{line: 2910, col: 29, offset: 91671},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9540,9 +9540,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2919, col: 8, offset: 91802},
+																																								pos: position{line: 2920, col: 8, offset: 91831},
 																																								expr: &anyMatcher{
-																																									line: 2919, col: 9, offset: 91803,
+																																									line: 2920, col: 9, offset: 91832,
 																																								},
 																																							},
 																																						},
@@ -9552,17 +9552,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2683, col: 5, offset: 85058},
+																																		pos:   position{line: 2684, col: 5, offset: 85087},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2683, col: 12, offset: 85065},
+																																			pos: position{line: 2684, col: 12, offset: 85094},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2700, col: 20, offset: 85529},
+																																				pos: position{line: 2701, col: 20, offset: 85558},
 																																				run: (*parser).callonDocumentFragment1226,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2700, col: 20, offset: 85529},
+																																					pos: position{line: 2701, col: 20, offset: 85558},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2700, col: 20, offset: 85529},
+																																						pos:        position{line: 2701, col: 20, offset: 85558},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9573,18 +9573,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2683, col: 31, offset: 85084},
+																																		pos:        position{line: 2684, col: 31, offset: 85113},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2683, col: 35, offset: 85088},
+																																		pos: position{line: 2684, col: 35, offset: 85117},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2900, col: 10, offset: 91454},
+																																			pos: position{line: 2901, col: 10, offset: 91483},
 																																			run: (*parser).callonDocumentFragment1231,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2900, col: 10, offset: 91454},
+																																				pos:        position{line: 2901, col: 10, offset: 91483},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9593,27 +9593,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2683, col: 42, offset: 85095},
+																																		pos: position{line: 2684, col: 42, offset: 85124},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2909, col: 12, offset: 91625},
+																																			pos: position{line: 2910, col: 12, offset: 91654},
 																																			run: (*parser).callonDocumentFragment1234,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2909, col: 13, offset: 91626},
+																																				pos: position{line: 2910, col: 13, offset: 91655},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2909, col: 13, offset: 91626},
+																																						pos:        position{line: 2910, col: 13, offset: 91655},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2909, col: 20, offset: 91633},
+																																						pos:        position{line: 2910, col: 20, offset: 91662},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2909, col: 29, offset: 91642},
+																																						pos:        position{line: 2910, col: 29, offset: 91671},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9623,37 +9623,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2683, col: 51, offset: 85104},
+																																		pos:   position{line: 2684, col: 51, offset: 85133},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2689, col: 5, offset: 85263},
+																																			pos: position{line: 2690, col: 5, offset: 85292},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2690, col: 9, offset: 85273},
+																																				pos: position{line: 2691, col: 9, offset: 85302},
 																																				run: (*parser).callonDocumentFragment1241,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2690, col: 9, offset: 85273},
+																																					pos: position{line: 2691, col: 9, offset: 85302},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2690, col: 9, offset: 85273},
+																																							pos: position{line: 2691, col: 9, offset: 85302},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2646, col: 22, offset: 84217},
+																																								pos: position{line: 2647, col: 22, offset: 84246},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2642, col: 19, offset: 84137},
+																																										pos: position{line: 2643, col: 19, offset: 84166},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2642, col: 19, offset: 84137},
+																																												pos:        position{line: 2643, col: 19, offset: 84166},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2642, col: 26, offset: 84144},
+																																												pos: position{line: 2643, col: 26, offset: 84173},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2900, col: 10, offset: 91454},
+																																													pos: position{line: 2901, col: 10, offset: 91483},
 																																													run: (*parser).callonDocumentFragment1248,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2900, col: 10, offset: 91454},
+																																														pos:        position{line: 2901, col: 10, offset: 91483},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9662,28 +9662,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2922, col: 8, offset: 91852},
+																																												pos: position{line: 2923, col: 8, offset: 91881},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2909, col: 12, offset: 91625},
+																																														pos: position{line: 2910, col: 12, offset: 91654},
 																																														run: (*parser).callonDocumentFragment1251,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2909, col: 13, offset: 91626},
+																																															pos: position{line: 2910, col: 13, offset: 91655},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2909, col: 13, offset: 91626},
+																																																	pos:        position{line: 2910, col: 13, offset: 91655},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2909, col: 20, offset: 91633},
+																																																	pos:        position{line: 2910, col: 20, offset: 91662},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2909, col: 29, offset: 91642},
+																																																	pos:        position{line: 2910, col: 29, offset: 91671},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9692,9 +9692,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2919, col: 8, offset: 91802},
+																																														pos: position{line: 2920, col: 8, offset: 91831},
 																																														expr: &anyMatcher{
-																																															line: 2919, col: 9, offset: 91803,
+																																															line: 2920, col: 9, offset: 91832,
 																																														},
 																																													},
 																																												},
@@ -9702,35 +9702,35 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2919, col: 8, offset: 91802},
+																																										pos: position{line: 2920, col: 8, offset: 91831},
 																																										expr: &anyMatcher{
-																																											line: 2919, col: 9, offset: 91803,
+																																											line: 2920, col: 9, offset: 91832,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2691, col: 9, offset: 85300},
+																																							pos: position{line: 2692, col: 9, offset: 85329},
 																																							expr: &actionExpr{
-																																								pos: position{line: 677, col: 14, offset: 21489},
+																																								pos: position{line: 678, col: 14, offset: 21518},
 																																								run: (*parser).callonDocumentFragment1261,
 																																								expr: &seqExpr{
-																																									pos: position{line: 677, col: 14, offset: 21489},
+																																									pos: position{line: 678, col: 14, offset: 21518},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2917, col: 11, offset: 91788},
+																																											pos: position{line: 2918, col: 11, offset: 91817},
 																																											expr: &anyMatcher{
-																																												line: 2917, col: 13, offset: 91790,
+																																												line: 2918, col: 13, offset: 91819,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 677, col: 21, offset: 21496},
+																																											pos: position{line: 678, col: 21, offset: 21525},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2900, col: 10, offset: 91454},
+																																												pos: position{line: 2901, col: 10, offset: 91483},
 																																												run: (*parser).callonDocumentFragment1266,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2900, col: 10, offset: 91454},
+																																													pos:        position{line: 2901, col: 10, offset: 91483},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9739,28 +9739,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2922, col: 8, offset: 91852},
+																																											pos: position{line: 2923, col: 8, offset: 91881},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2909, col: 12, offset: 91625},
+																																													pos: position{line: 2910, col: 12, offset: 91654},
 																																													run: (*parser).callonDocumentFragment1269,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2909, col: 13, offset: 91626},
+																																														pos: position{line: 2910, col: 13, offset: 91655},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2909, col: 13, offset: 91626},
+																																																pos:        position{line: 2910, col: 13, offset: 91655},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2909, col: 20, offset: 91633},
+																																																pos:        position{line: 2910, col: 20, offset: 91662},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2909, col: 29, offset: 91642},
+																																																pos:        position{line: 2910, col: 29, offset: 91671},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9769,9 +9769,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2919, col: 8, offset: 91802},
+																																													pos: position{line: 2920, col: 8, offset: 91831},
 																																													expr: &anyMatcher{
-																																														line: 2919, col: 9, offset: 91803,
+																																														line: 2920, col: 9, offset: 91832,
 																																													},
 																																												},
 																																											},
@@ -9781,22 +9781,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2692, col: 9, offset: 85319},
+																																							pos: position{line: 2693, col: 9, offset: 85348},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2692, col: 11, offset: 85321},
+																																								pos: position{line: 2693, col: 11, offset: 85350},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2692, col: 11, offset: 85321},
+																																										pos:   position{line: 2693, col: 11, offset: 85350},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2692, col: 18, offset: 85328},
+																																											pos: position{line: 2693, col: 18, offset: 85357},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2700, col: 20, offset: 85529},
+																																												pos: position{line: 2701, col: 20, offset: 85558},
 																																												run: (*parser).callonDocumentFragment1280,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2700, col: 20, offset: 85529},
+																																													pos: position{line: 2701, col: 20, offset: 85558},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2700, col: 20, offset: 85529},
+																																														pos:        position{line: 2701, col: 20, offset: 85558},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9807,7 +9807,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2692, col: 37, offset: 85347},
+																																										pos:        position{line: 2693, col: 37, offset: 85376},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9816,15 +9816,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2693, col: 9, offset: 85360},
+																																							pos:   position{line: 2694, col: 9, offset: 85389},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2693, col: 18, offset: 85369},
+																																								pos: position{line: 2694, col: 18, offset: 85398},
 																																								run: (*parser).callonDocumentFragment1285,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2693, col: 18, offset: 85369},
+																																									pos: position{line: 2694, col: 18, offset: 85398},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2693, col: 18, offset: 85369},
+																																										pos:        position{line: 2694, col: 18, offset: 85398},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9834,30 +9834,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2695, col: 12, offset: 85431},
+																																							pos: position{line: 2696, col: 12, offset: 85460},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2922, col: 8, offset: 91852},
+																																								pos: position{line: 2923, col: 8, offset: 91881},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2909, col: 12, offset: 91625},
+																																										pos: position{line: 2910, col: 12, offset: 91654},
 																																										run: (*parser).callonDocumentFragment1290,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2909, col: 13, offset: 91626},
+																																											pos: position{line: 2910, col: 13, offset: 91655},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2909, col: 13, offset: 91626},
+																																													pos:        position{line: 2910, col: 13, offset: 91655},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2909, col: 20, offset: 91633},
+																																													pos:        position{line: 2910, col: 20, offset: 91662},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2909, col: 29, offset: 91642},
+																																													pos:        position{line: 2910, col: 29, offset: 91671},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9866,9 +9866,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2919, col: 8, offset: 91802},
+																																										pos: position{line: 2920, col: 8, offset: 91831},
 																																										expr: &anyMatcher{
-																																											line: 2919, col: 9, offset: 91803,
+																																											line: 2920, col: 9, offset: 91832,
 																																										},
 																																									},
 																																								},
@@ -9890,24 +9890,24 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 677, col: 14, offset: 21489},
+																								pos: position{line: 678, col: 14, offset: 21518},
 																								run: (*parser).callonDocumentFragment1297,
 																								expr: &seqExpr{
-																									pos: position{line: 677, col: 14, offset: 21489},
+																									pos: position{line: 678, col: 14, offset: 21518},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2917, col: 11, offset: 91788},
+																											pos: position{line: 2918, col: 11, offset: 91817},
 																											expr: &anyMatcher{
-																												line: 2917, col: 13, offset: 91790,
+																												line: 2918, col: 13, offset: 91819,
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 677, col: 21, offset: 21496},
+																											pos: position{line: 678, col: 21, offset: 21525},
 																											expr: &actionExpr{
-																												pos: position{line: 2900, col: 10, offset: 91454},
+																												pos: position{line: 2901, col: 10, offset: 91483},
 																												run: (*parser).callonDocumentFragment1302,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2900, col: 10, offset: 91454},
+																													pos:        position{line: 2901, col: 10, offset: 91483},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -9916,28 +9916,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2922, col: 8, offset: 91852},
+																											pos: position{line: 2923, col: 8, offset: 91881},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2909, col: 12, offset: 91625},
+																													pos: position{line: 2910, col: 12, offset: 91654},
 																													run: (*parser).callonDocumentFragment1305,
 																													expr: &choiceExpr{
-																														pos: position{line: 2909, col: 13, offset: 91626},
+																														pos: position{line: 2910, col: 13, offset: 91655},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 13, offset: 91626},
+																																pos:        position{line: 2910, col: 13, offset: 91655},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 20, offset: 91633},
+																																pos:        position{line: 2910, col: 20, offset: 91662},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 29, offset: 91642},
+																																pos:        position{line: 2910, col: 29, offset: 91671},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -9946,9 +9946,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2919, col: 8, offset: 91802},
+																													pos: position{line: 2920, col: 8, offset: 91831},
 																													expr: &anyMatcher{
-																														line: 2919, col: 9, offset: 91803,
+																														line: 2920, col: 9, offset: 91832,
 																													},
 																												},
 																											},
@@ -9967,24 +9967,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2646, col: 22, offset: 84217},
+														pos: position{line: 2647, col: 22, offset: 84246},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2642, col: 19, offset: 84137},
+																pos: position{line: 2643, col: 19, offset: 84166},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2642, col: 19, offset: 84137},
+																		pos:        position{line: 2643, col: 19, offset: 84166},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2642, col: 26, offset: 84144},
+																		pos: position{line: 2643, col: 26, offset: 84173},
 																		expr: &actionExpr{
-																			pos: position{line: 2900, col: 10, offset: 91454},
+																			pos: position{line: 2901, col: 10, offset: 91483},
 																			run: (*parser).callonDocumentFragment1316,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2900, col: 10, offset: 91454},
+																				pos:        position{line: 2901, col: 10, offset: 91483},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -9993,28 +9993,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2922, col: 8, offset: 91852},
+																		pos: position{line: 2923, col: 8, offset: 91881},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2909, col: 12, offset: 91625},
+																				pos: position{line: 2910, col: 12, offset: 91654},
 																				run: (*parser).callonDocumentFragment1319,
 																				expr: &choiceExpr{
-																					pos: position{line: 2909, col: 13, offset: 91626},
+																					pos: position{line: 2910, col: 13, offset: 91655},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 13, offset: 91626},
+																							pos:        position{line: 2910, col: 13, offset: 91655},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 20, offset: 91633},
+																							pos:        position{line: 2910, col: 20, offset: 91662},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 29, offset: 91642},
+																							pos:        position{line: 2910, col: 29, offset: 91671},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10023,9 +10023,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2919, col: 8, offset: 91802},
+																				pos: position{line: 2920, col: 8, offset: 91831},
 																				expr: &anyMatcher{
-																					line: 2919, col: 9, offset: 91803,
+																					line: 2920, col: 9, offset: 91832,
 																				},
 																			},
 																		},
@@ -10033,9 +10033,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2919, col: 8, offset: 91802},
+																pos: position{line: 2920, col: 8, offset: 91831},
 																expr: &anyMatcher{
-																	line: 2919, col: 9, offset: 91803,
+																	line: 2920, col: 9, offset: 91832,
 																},
 															},
 														},
@@ -10044,36 +10044,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2510, col: 22, offset: 80439},
+											pos: position{line: 2511, col: 22, offset: 80468},
 											run: (*parser).callonDocumentFragment1328,
 											expr: &seqExpr{
-												pos: position{line: 2510, col: 22, offset: 80439},
+												pos: position{line: 2511, col: 22, offset: 80468},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2515, col: 31, offset: 80660},
+														pos:        position{line: 2516, col: 31, offset: 80689},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2515, col: 36, offset: 80665},
+														pos: position{line: 2516, col: 36, offset: 80694},
 														expr: &litMatcher{
-															pos:        position{line: 2515, col: 37, offset: 80666},
+															pos:        position{line: 2516, col: 37, offset: 80695},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2510, col: 49, offset: 80466},
+														pos:   position{line: 2511, col: 49, offset: 80495},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2846, col: 13, offset: 89980},
+															pos: position{line: 2847, col: 13, offset: 90009},
 															run: (*parser).callonDocumentFragment1334,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2846, col: 13, offset: 89980},
+																pos: position{line: 2847, col: 13, offset: 90009},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2846, col: 13, offset: 89980},
+																	pos:        position{line: 2847, col: 13, offset: 90009},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10083,28 +10083,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2922, col: 8, offset: 91852},
+														pos: position{line: 2923, col: 8, offset: 91881},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2909, col: 12, offset: 91625},
+																pos: position{line: 2910, col: 12, offset: 91654},
 																run: (*parser).callonDocumentFragment1338,
 																expr: &choiceExpr{
-																	pos: position{line: 2909, col: 13, offset: 91626},
+																	pos: position{line: 2910, col: 13, offset: 91655},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 13, offset: 91626},
+																			pos:        position{line: 2910, col: 13, offset: 91655},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 20, offset: 91633},
+																			pos:        position{line: 2910, col: 20, offset: 91662},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 29, offset: 91642},
+																			pos:        position{line: 2910, col: 29, offset: 91671},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10113,9 +10113,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2919, col: 8, offset: 91802},
+																pos: position{line: 2920, col: 8, offset: 91831},
 																expr: &anyMatcher{
-																	line: 2919, col: 9, offset: 91803,
+																	line: 2920, col: 9, offset: 91832,
 																},
 															},
 														},
@@ -10124,37 +10124,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1222, col: 5, offset: 37866},
+											pos: position{line: 1223, col: 5, offset: 37895},
 											run: (*parser).callonDocumentFragment1345,
 											expr: &seqExpr{
-												pos: position{line: 1222, col: 5, offset: 37866},
+												pos: position{line: 1223, col: 5, offset: 37895},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1222, col: 5, offset: 37866},
+														pos: position{line: 1223, col: 5, offset: 37895},
 														run: (*parser).callonDocumentFragment1347,
 													},
 													&labeledExpr{
-														pos:   position{line: 1225, col: 5, offset: 37924},
+														pos:   position{line: 1226, col: 5, offset: 37953},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1230, col: 20, offset: 38019},
+															pos: position{line: 1231, col: 20, offset: 38048},
 															run: (*parser).callonDocumentFragment1349,
 															expr: &seqExpr{
-																pos: position{line: 1230, col: 20, offset: 38019},
+																pos: position{line: 1231, col: 20, offset: 38048},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1234, col: 30, offset: 38191},
+																		pos:        position{line: 1235, col: 30, offset: 38220},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1234, col: 36, offset: 38197},
+																		pos: position{line: 1235, col: 36, offset: 38226},
 																		expr: &actionExpr{
-																			pos: position{line: 2900, col: 10, offset: 91454},
+																			pos: position{line: 2901, col: 10, offset: 91483},
 																			run: (*parser).callonDocumentFragment1353,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2900, col: 10, offset: 91454},
+																				pos:        position{line: 2901, col: 10, offset: 91483},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10163,28 +10163,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2922, col: 8, offset: 91852},
+																		pos: position{line: 2923, col: 8, offset: 91881},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2909, col: 12, offset: 91625},
+																				pos: position{line: 2910, col: 12, offset: 91654},
 																				run: (*parser).callonDocumentFragment1356,
 																				expr: &choiceExpr{
-																					pos: position{line: 2909, col: 13, offset: 91626},
+																					pos: position{line: 2910, col: 13, offset: 91655},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 13, offset: 91626},
+																							pos:        position{line: 2910, col: 13, offset: 91655},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 20, offset: 91633},
+																							pos:        position{line: 2910, col: 20, offset: 91662},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 29, offset: 91642},
+																							pos:        position{line: 2910, col: 29, offset: 91671},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10193,46 +10193,46 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2919, col: 8, offset: 91802},
+																				pos: position{line: 2920, col: 8, offset: 91831},
 																				expr: &anyMatcher{
-																					line: 2919, col: 9, offset: 91803,
+																					line: 2920, col: 9, offset: 91832,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1230, col: 45, offset: 38044},
+																		pos:   position{line: 1231, col: 45, offset: 38073},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1230, col: 53, offset: 38052},
+																			pos: position{line: 1231, col: 53, offset: 38081},
 																			expr: &actionExpr{
-																				pos: position{line: 1236, col: 27, offset: 38235},
+																				pos: position{line: 1237, col: 27, offset: 38264},
 																				run: (*parser).callonDocumentFragment1365,
 																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1236, col: 27, offset: 38235},
+																					pos: position{line: 1237, col: 27, offset: 38264},
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1236, col: 28, offset: 38236},
+																						pos: position{line: 1237, col: 28, offset: 38265},
 																						expr: &seqExpr{
-																							pos: position{line: 1236, col: 29, offset: 38237},
+																							pos: position{line: 1237, col: 29, offset: 38266},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 1236, col: 29, offset: 38237},
+																									pos: position{line: 1237, col: 29, offset: 38266},
 																									expr: &seqExpr{
-																										pos: position{line: 1234, col: 30, offset: 38191},
+																										pos: position{line: 1235, col: 30, offset: 38220},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 1234, col: 30, offset: 38191},
+																												pos:        position{line: 1235, col: 30, offset: 38220},
 																												val:        "---",
 																												ignoreCase: false,
 																												want:       "\"---\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 1234, col: 36, offset: 38197},
+																												pos: position{line: 1235, col: 36, offset: 38226},
 																												expr: &actionExpr{
-																													pos: position{line: 2900, col: 10, offset: 91454},
+																													pos: position{line: 2901, col: 10, offset: 91483},
 																													run: (*parser).callonDocumentFragment1373,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2900, col: 10, offset: 91454},
+																														pos:        position{line: 2901, col: 10, offset: 91483},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10241,28 +10241,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2922, col: 8, offset: 91852},
+																												pos: position{line: 2923, col: 8, offset: 91881},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2909, col: 12, offset: 91625},
+																														pos: position{line: 2910, col: 12, offset: 91654},
 																														run: (*parser).callonDocumentFragment1376,
 																														expr: &choiceExpr{
-																															pos: position{line: 2909, col: 13, offset: 91626},
+																															pos: position{line: 2910, col: 13, offset: 91655},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2909, col: 13, offset: 91626},
+																																	pos:        position{line: 2910, col: 13, offset: 91655},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2909, col: 20, offset: 91633},
+																																	pos:        position{line: 2910, col: 20, offset: 91662},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2909, col: 29, offset: 91642},
+																																	pos:        position{line: 2910, col: 29, offset: 91671},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10271,9 +10271,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2919, col: 8, offset: 91802},
+																														pos: position{line: 2920, col: 8, offset: 91831},
 																														expr: &anyMatcher{
-																															line: 2919, col: 9, offset: 91803,
+																															line: 2920, col: 9, offset: 91832,
 																														},
 																													},
 																												},
@@ -10282,7 +10282,7 @@ var g = &grammar{
 																									},
 																								},
 																								&anyMatcher{
-																									line: 1236, col: 55, offset: 38263,
+																									line: 1237, col: 55, offset: 38292,
 																								},
 																							},
 																						},
@@ -10292,18 +10292,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1234, col: 30, offset: 38191},
+																		pos:        position{line: 1235, col: 30, offset: 38220},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1234, col: 36, offset: 38197},
+																		pos: position{line: 1235, col: 36, offset: 38226},
 																		expr: &actionExpr{
-																			pos: position{line: 2900, col: 10, offset: 91454},
+																			pos: position{line: 2901, col: 10, offset: 91483},
 																			run: (*parser).callonDocumentFragment1386,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2900, col: 10, offset: 91454},
+																				pos:        position{line: 2901, col: 10, offset: 91483},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10312,28 +10312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2922, col: 8, offset: 91852},
+																		pos: position{line: 2923, col: 8, offset: 91881},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2909, col: 12, offset: 91625},
+																				pos: position{line: 2910, col: 12, offset: 91654},
 																				run: (*parser).callonDocumentFragment1389,
 																				expr: &choiceExpr{
-																					pos: position{line: 2909, col: 13, offset: 91626},
+																					pos: position{line: 2910, col: 13, offset: 91655},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 13, offset: 91626},
+																							pos:        position{line: 2910, col: 13, offset: 91655},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 20, offset: 91633},
+																							pos:        position{line: 2910, col: 20, offset: 91662},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 29, offset: 91642},
+																							pos:        position{line: 2910, col: 29, offset: 91671},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10342,9 +10342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2919, col: 8, offset: 91802},
+																				pos: position{line: 2920, col: 8, offset: 91831},
 																				expr: &anyMatcher{
-																					line: 2919, col: 9, offset: 91803,
+																					line: 2920, col: 9, offset: 91832,
 																				},
 																			},
 																		},
@@ -10394,27 +10394,27 @@ var g = &grammar{
 									pos: position{line: 282, col: 9, offset: 8388},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1198, col: 23, offset: 36972},
+											pos: position{line: 1199, col: 23, offset: 37001},
 											run: (*parser).callonDelimitedBlockElements7,
 											expr: &seqExpr{
-												pos: position{line: 1198, col: 23, offset: 36972},
+												pos: position{line: 1199, col: 23, offset: 37001},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 36940},
+														pos:        position{line: 1197, col: 32, offset: 36969},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1198, col: 51, offset: 37000},
+														pos:   position{line: 1199, col: 51, offset: 37029},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1198, col: 56, offset: 37005},
+															pos: position{line: 1199, col: 56, offset: 37034},
 															run: (*parser).callonDelimitedBlockElements11,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1198, col: 56, offset: 37005},
+																pos: position{line: 1199, col: 56, offset: 37034},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1198, col: 56, offset: 37005},
+																	pos:        position{line: 1199, col: 56, offset: 37034},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -10424,7 +10424,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 36940},
+														pos:        position{line: 1197, col: 32, offset: 36969},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -10441,9 +10441,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2919, col: 8, offset: 91802},
+							pos: position{line: 2920, col: 8, offset: 91831},
 							expr: &anyMatcher{
-								line: 2919, col: 9, offset: 91803,
+								line: 2920, col: 9, offset: 91832,
 							},
 						},
 					},
@@ -10515,12 +10515,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2904, col: 11, offset: 91515},
+												pos: position{line: 2905, col: 11, offset: 91544},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2904, col: 11, offset: 91515},
+													pos: position{line: 2905, col: 11, offset: 91544},
 													expr: &charClassMatcher{
-														pos:        position{line: 2904, col: 11, offset: 91515},
+														pos:        position{line: 2905, col: 11, offset: 91544},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10542,28 +10542,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2922, col: 8, offset: 91852},
+							pos: position{line: 2923, col: 8, offset: 91881},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2909, col: 12, offset: 91625},
+									pos: position{line: 2910, col: 12, offset: 91654},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2909, col: 13, offset: 91626},
+										pos: position{line: 2910, col: 13, offset: 91655},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2909, col: 13, offset: 91626},
+												pos:        position{line: 2910, col: 13, offset: 91655},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2909, col: 20, offset: 91633},
+												pos:        position{line: 2910, col: 20, offset: 91662},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2909, col: 29, offset: 91642},
+												pos:        position{line: 2910, col: 29, offset: 91671},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10572,9 +10572,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2919, col: 8, offset: 91802},
+									pos: position{line: 2920, col: 8, offset: 91831},
 									expr: &anyMatcher{
-										line: 2919, col: 9, offset: 91803,
+										line: 2920, col: 9, offset: 91832,
 									},
 								},
 							},
@@ -10618,25 +10618,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2909, col: 12, offset: 91625},
+												pos: position{line: 2910, col: 12, offset: 91654},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2909, col: 13, offset: 91626},
+													pos: position{line: 2910, col: 13, offset: 91655},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2909, col: 13, offset: 91626},
+															pos:        position{line: 2910, col: 13, offset: 91655},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2909, col: 20, offset: 91633},
+															pos:        position{line: 2910, col: 20, offset: 91662},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2909, col: 29, offset: 91642},
+															pos:        position{line: 2910, col: 29, offset: 91671},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10647,10 +10647,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2900, col: 10, offset: 91454},
+													pos: position{line: 2901, col: 10, offset: 91483},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2900, col: 10, offset: 91454},
+														pos:        position{line: 2901, col: 10, offset: 91483},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10720,10 +10720,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2900, col: 10, offset: 91454},
+											pos: position{line: 2901, col: 10, offset: 91483},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2900, col: 10, offset: 91454},
+												pos:        position{line: 2901, col: 10, offset: 91483},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10732,28 +10732,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2922, col: 8, offset: 91852},
+										pos: position{line: 2923, col: 8, offset: 91881},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2909, col: 12, offset: 91625},
+												pos: position{line: 2910, col: 12, offset: 91654},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2909, col: 13, offset: 91626},
+													pos: position{line: 2910, col: 13, offset: 91655},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2909, col: 13, offset: 91626},
+															pos:        position{line: 2910, col: 13, offset: 91655},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2909, col: 20, offset: 91633},
+															pos:        position{line: 2910, col: 20, offset: 91662},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2909, col: 29, offset: 91642},
+															pos:        position{line: 2910, col: 29, offset: 91671},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10762,9 +10762,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2919, col: 8, offset: 91802},
+												pos: position{line: 2920, col: 8, offset: 91831},
 												expr: &anyMatcher{
-													line: 2919, col: 9, offset: 91803,
+													line: 2920, col: 9, offset: 91832,
 												},
 											},
 										},
@@ -10797,23 +10797,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2497, col: 5, offset: 79985},
+										pos: position{line: 2498, col: 5, offset: 80014},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2497, col: 5, offset: 79985},
+											pos: position{line: 2498, col: 5, offset: 80014},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2497, col: 5, offset: 79985},
+													pos: position{line: 2498, col: 5, offset: 80014},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2500, col: 5, offset: 80061},
+													pos:   position{line: 2501, col: 5, offset: 80090},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2501, col: 9, offset: 80079},
+														pos: position{line: 2502, col: 9, offset: 80108},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2501, col: 10, offset: 80080},
+															pos:        position{line: 2502, col: 10, offset: 80109},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10825,10 +10825,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2900, col: 10, offset: 91454},
+										pos: position{line: 2901, col: 10, offset: 91483},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2900, col: 10, offset: 91454},
+											pos:        position{line: 2901, col: 10, offset: 91483},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -10836,35 +10836,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20109},
+										pos: position{line: 637, col: 5, offset: 20136},
 										run: (*parser).callonAttributeDeclarationValueElement32,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20109},
+											pos: position{line: 637, col: 5, offset: 20136},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20109},
+													pos: position{line: 637, col: 5, offset: 20136},
 													run: (*parser).callonAttributeDeclarationValueElement34,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20181},
+													pos:   position{line: 640, col: 5, offset: 20208},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20190},
+														pos: position{line: 640, col: 14, offset: 20217},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20319},
+																pos: position{line: 646, col: 5, offset: 20346},
 																run: (*parser).callonAttributeDeclarationValueElement37,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20319},
+																	pos: position{line: 646, col: 5, offset: 20346},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20319},
+																			pos:        position{line: 646, col: 5, offset: 20346},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20327},
+																			pos:   position{line: 646, col: 13, offset: 20354},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -10896,7 +10896,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20346},
+																			pos:        position{line: 646, col: 32, offset: 20373},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -10905,19 +10905,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20587},
+																pos: position{line: 653, col: 5, offset: 20614},
 																run: (*parser).callonAttributeDeclarationValueElement47,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20587},
+																	pos: position{line: 653, col: 5, offset: 20614},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20587},
+																			pos:        position{line: 653, col: 5, offset: 20614},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20591},
+																			pos:   position{line: 653, col: 9, offset: 20618},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -10949,7 +10949,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20610},
+																			pos:        position{line: 653, col: 28, offset: 20637},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -10958,19 +10958,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20791},
+																pos: position{line: 659, col: 25, offset: 20818},
 																run: (*parser).callonAttributeDeclarationValueElement57,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20791},
+																	pos: position{line: 659, col: 25, offset: 20818},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20791},
+																			pos:        position{line: 659, col: 25, offset: 20818},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20803},
+																			pos:   position{line: 659, col: 37, offset: 20830},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -11002,33 +11002,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20822},
+																			pos:   position{line: 659, col: 56, offset: 20849},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20828},
+																				pos: position{line: 659, col: 62, offset: 20855},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 667, col: 17, offset: 21152},
 																					run: (*parser).callonAttributeDeclarationValueElement68,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 667, col: 17, offset: 21152},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 667, col: 17, offset: 21152},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 667, col: 21, offset: 21156},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 667, col: 28, offset: 21163},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 667, col: 28, offset: 21163},
 																											run: (*parser).callonAttributeDeclarationValueElement73,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 667, col: 28, offset: 21163},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11036,12 +11036,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 669, col: 9, offset: 21217},
 																											run: (*parser).callonAttributeDeclarationValueElement75,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 669, col: 9, offset: 21217},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 669, col: 9, offset: 21217},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11058,7 +11058,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20844},
+																			pos:        position{line: 659, col: 78, offset: 20871},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11067,19 +11067,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 20962},
+																pos: position{line: 663, col: 25, offset: 20989},
 																run: (*parser).callonAttributeDeclarationValueElement79,
 																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 20962},
+																	pos: position{line: 663, col: 25, offset: 20989},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 20962},
+																			pos:        position{line: 663, col: 25, offset: 20989},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 20975},
+																			pos:   position{line: 663, col: 38, offset: 21002},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -11111,33 +11111,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 20994},
+																			pos:   position{line: 663, col: 57, offset: 21021},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21000},
+																				pos: position{line: 663, col: 63, offset: 21027},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 667, col: 17, offset: 21152},
 																					run: (*parser).callonAttributeDeclarationValueElement90,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 667, col: 17, offset: 21152},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 667, col: 17, offset: 21152},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 667, col: 21, offset: 21156},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 667, col: 28, offset: 21163},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 667, col: 28, offset: 21163},
 																											run: (*parser).callonAttributeDeclarationValueElement95,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 667, col: 28, offset: 21163},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11145,12 +11145,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 669, col: 9, offset: 21217},
 																											run: (*parser).callonAttributeDeclarationValueElement97,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 669, col: 9, offset: 21217},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 669, col: 9, offset: 21217},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11167,7 +11167,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21016},
+																			pos:        position{line: 663, col: 79, offset: 21043},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11252,27 +11252,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1198, col: 23, offset: 36972},
+																						pos: position{line: 1199, col: 23, offset: 37001},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1198, col: 23, offset: 36972},
+																							pos: position{line: 1199, col: 23, offset: 37001},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1196, col: 32, offset: 36940},
+																									pos:        position{line: 1197, col: 32, offset: 36969},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1198, col: 51, offset: 37000},
+																									pos:   position{line: 1199, col: 51, offset: 37029},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1198, col: 56, offset: 37005},
+																										pos: position{line: 1199, col: 56, offset: 37034},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1198, col: 56, offset: 37005},
+																											pos: position{line: 1199, col: 56, offset: 37034},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1198, col: 56, offset: 37005},
+																												pos:        position{line: 1199, col: 56, offset: 37034},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11282,7 +11282,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1196, col: 32, offset: 36940},
+																									pos:        position{line: 1197, col: 32, offset: 36969},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
@@ -11291,35 +11291,35 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 637, col: 5, offset: 20136},
 																						run: (*parser).callonBlockAttributes27,
 																						expr: &seqExpr{
-																							pos: position{line: 636, col: 5, offset: 20109},
+																							pos: position{line: 637, col: 5, offset: 20136},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 636, col: 5, offset: 20109},
+																									pos: position{line: 637, col: 5, offset: 20136},
 																									run: (*parser).callonBlockAttributes29,
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 639, col: 5, offset: 20181},
+																									pos:   position{line: 640, col: 5, offset: 20208},
 																									label: "element",
 																									expr: &choiceExpr{
-																										pos: position{line: 639, col: 14, offset: 20190},
+																										pos: position{line: 640, col: 14, offset: 20217},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 645, col: 5, offset: 20319},
+																												pos: position{line: 646, col: 5, offset: 20346},
 																												run: (*parser).callonBlockAttributes32,
 																												expr: &seqExpr{
-																													pos: position{line: 645, col: 5, offset: 20319},
+																													pos: position{line: 646, col: 5, offset: 20346},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 645, col: 5, offset: 20319},
+																															pos:        position{line: 646, col: 5, offset: 20346},
 																															val:        "\\{",
 																															ignoreCase: false,
 																															want:       "\"\\\\{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 645, col: 13, offset: 20327},
+																															pos:   position{line: 646, col: 13, offset: 20354},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
@@ -11351,7 +11351,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 645, col: 32, offset: 20346},
+																															pos:        position{line: 646, col: 32, offset: 20373},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11360,19 +11360,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 652, col: 5, offset: 20587},
+																												pos: position{line: 653, col: 5, offset: 20614},
 																												run: (*parser).callonBlockAttributes42,
 																												expr: &seqExpr{
-																													pos: position{line: 652, col: 5, offset: 20587},
+																													pos: position{line: 653, col: 5, offset: 20614},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 652, col: 5, offset: 20587},
+																															pos:        position{line: 653, col: 5, offset: 20614},
 																															val:        "{",
 																															ignoreCase: false,
 																															want:       "\"{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 652, col: 9, offset: 20591},
+																															pos:   position{line: 653, col: 9, offset: 20618},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
@@ -11404,7 +11404,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 652, col: 28, offset: 20610},
+																															pos:        position{line: 653, col: 28, offset: 20637},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11413,19 +11413,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 658, col: 25, offset: 20791},
+																												pos: position{line: 659, col: 25, offset: 20818},
 																												run: (*parser).callonBlockAttributes52,
 																												expr: &seqExpr{
-																													pos: position{line: 658, col: 25, offset: 20791},
+																													pos: position{line: 659, col: 25, offset: 20818},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 658, col: 25, offset: 20791},
+																															pos:        position{line: 659, col: 25, offset: 20818},
 																															val:        "{counter:",
 																															ignoreCase: false,
 																															want:       "\"{counter:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 658, col: 37, offset: 20803},
+																															pos:   position{line: 659, col: 37, offset: 20830},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
@@ -11457,33 +11457,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 658, col: 56, offset: 20822},
+																															pos:   position{line: 659, col: 56, offset: 20849},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 658, col: 62, offset: 20828},
+																																pos: position{line: 659, col: 62, offset: 20855},
 																																expr: &actionExpr{
-																																	pos: position{line: 666, col: 17, offset: 21123},
+																																	pos: position{line: 667, col: 17, offset: 21152},
 																																	run: (*parser).callonBlockAttributes63,
 																																	expr: &seqExpr{
-																																		pos: position{line: 666, col: 17, offset: 21123},
+																																		pos: position{line: 667, col: 17, offset: 21152},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 666, col: 17, offset: 21123},
+																																				pos:        position{line: 667, col: 17, offset: 21152},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 666, col: 21, offset: 21127},
+																																				pos:   position{line: 667, col: 21, offset: 21156},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 666, col: 28, offset: 21134},
+																																					pos: position{line: 667, col: 28, offset: 21163},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 666, col: 28, offset: 21134},
+																																							pos: position{line: 667, col: 28, offset: 21163},
 																																							run: (*parser).callonBlockAttributes68,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 666, col: 28, offset: 21134},
+																																								pos:        position{line: 667, col: 28, offset: 21163},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11491,12 +11491,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 668, col: 9, offset: 21188},
+																																							pos: position{line: 669, col: 9, offset: 21217},
 																																							run: (*parser).callonBlockAttributes70,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 668, col: 9, offset: 21188},
+																																								pos: position{line: 669, col: 9, offset: 21217},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 668, col: 9, offset: 21188},
+																																									pos:        position{line: 669, col: 9, offset: 21217},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11513,7 +11513,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 658, col: 78, offset: 20844},
+																															pos:        position{line: 659, col: 78, offset: 20871},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11522,19 +11522,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 662, col: 25, offset: 20962},
+																												pos: position{line: 663, col: 25, offset: 20989},
 																												run: (*parser).callonBlockAttributes74,
 																												expr: &seqExpr{
-																													pos: position{line: 662, col: 25, offset: 20962},
+																													pos: position{line: 663, col: 25, offset: 20989},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 662, col: 25, offset: 20962},
+																															pos:        position{line: 663, col: 25, offset: 20989},
 																															val:        "{counter2:",
 																															ignoreCase: false,
 																															want:       "\"{counter2:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 662, col: 38, offset: 20975},
+																															pos:   position{line: 663, col: 38, offset: 21002},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
@@ -11566,33 +11566,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 662, col: 57, offset: 20994},
+																															pos:   position{line: 663, col: 57, offset: 21021},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 662, col: 63, offset: 21000},
+																																pos: position{line: 663, col: 63, offset: 21027},
 																																expr: &actionExpr{
-																																	pos: position{line: 666, col: 17, offset: 21123},
+																																	pos: position{line: 667, col: 17, offset: 21152},
 																																	run: (*parser).callonBlockAttributes85,
 																																	expr: &seqExpr{
-																																		pos: position{line: 666, col: 17, offset: 21123},
+																																		pos: position{line: 667, col: 17, offset: 21152},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 666, col: 17, offset: 21123},
+																																				pos:        position{line: 667, col: 17, offset: 21152},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 666, col: 21, offset: 21127},
+																																				pos:   position{line: 667, col: 21, offset: 21156},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 666, col: 28, offset: 21134},
+																																					pos: position{line: 667, col: 28, offset: 21163},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 666, col: 28, offset: 21134},
+																																							pos: position{line: 667, col: 28, offset: 21163},
 																																							run: (*parser).callonBlockAttributes90,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 666, col: 28, offset: 21134},
+																																								pos:        position{line: 667, col: 28, offset: 21163},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11600,12 +11600,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 668, col: 9, offset: 21188},
+																																							pos: position{line: 669, col: 9, offset: 21217},
 																																							run: (*parser).callonBlockAttributes92,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 668, col: 9, offset: 21188},
+																																								pos: position{line: 669, col: 9, offset: 21217},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 668, col: 9, offset: 21188},
+																																									pos:        position{line: 669, col: 9, offset: 21217},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11622,7 +11622,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 662, col: 79, offset: 21016},
+																															pos:        position{line: 663, col: 79, offset: 21043},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11665,10 +11665,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 35, offset: 11487},
 												expr: &actionExpr{
-													pos: position{line: 2900, col: 10, offset: 91454},
+													pos: position{line: 2901, col: 10, offset: 91483},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2900, col: 10, offset: 91454},
+														pos:        position{line: 2901, col: 10, offset: 91483},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11677,28 +11677,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2922, col: 8, offset: 91852},
+												pos: position{line: 2923, col: 8, offset: 91881},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2909, col: 12, offset: 91625},
+														pos: position{line: 2910, col: 12, offset: 91654},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2909, col: 13, offset: 91626},
+															pos: position{line: 2910, col: 13, offset: 91655},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2909, col: 13, offset: 91626},
+																	pos:        position{line: 2910, col: 13, offset: 91655},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2909, col: 20, offset: 91633},
+																	pos:        position{line: 2910, col: 20, offset: 91662},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2909, col: 29, offset: 91642},
+																	pos:        position{line: 2910, col: 29, offset: 91671},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11707,9 +11707,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2919, col: 8, offset: 91802},
+														pos: position{line: 2920, col: 8, offset: 91831},
 														expr: &anyMatcher{
-															line: 2919, col: 9, offset: 91803,
+															line: 2920, col: 9, offset: 91832,
 														},
 													},
 												},
@@ -11717,24 +11717,24 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 46, offset: 11498},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
+													pos: position{line: 678, col: 14, offset: 21518},
 													run: (*parser).callonBlockAttributes111,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 678, col: 14, offset: 21518},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2917, col: 11, offset: 91788},
+																pos: position{line: 2918, col: 11, offset: 91817},
 																expr: &anyMatcher{
-																	line: 2917, col: 13, offset: 91790,
+																	line: 2918, col: 13, offset: 91819,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
+																pos: position{line: 678, col: 21, offset: 21525},
 																expr: &actionExpr{
-																	pos: position{line: 2900, col: 10, offset: 91454},
+																	pos: position{line: 2901, col: 10, offset: 91483},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2900, col: 10, offset: 91454},
+																		pos:        position{line: 2901, col: 10, offset: 91483},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11743,28 +11743,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2922, col: 8, offset: 91852},
+																pos: position{line: 2923, col: 8, offset: 91881},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2909, col: 12, offset: 91625},
+																		pos: position{line: 2910, col: 12, offset: 91654},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2909, col: 13, offset: 91626},
+																			pos: position{line: 2910, col: 13, offset: 91655},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 13, offset: 91626},
+																					pos:        position{line: 2910, col: 13, offset: 91655},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 20, offset: 91633},
+																					pos:        position{line: 2910, col: 20, offset: 91662},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 29, offset: 91642},
+																					pos:        position{line: 2910, col: 29, offset: 91671},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11773,9 +11773,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2919, col: 8, offset: 91802},
+																		pos: position{line: 2920, col: 8, offset: 91831},
 																		expr: &anyMatcher{
-																			line: 2919, col: 9, offset: 91803,
+																			line: 2920, col: 9, offset: 91832,
 																		},
 																	},
 																},
@@ -11827,12 +11827,12 @@ var g = &grammar{
 																		pos: position{line: 426, col: 9, offset: 13063},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2794, col: 14, offset: 88623},
+																				pos: position{line: 2795, col: 14, offset: 88652},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2794, col: 14, offset: 88623},
+																					pos: position{line: 2795, col: 14, offset: 88652},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2794, col: 14, offset: 88623},
+																						pos:        position{line: 2795, col: 14, offset: 88652},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11841,10 +11841,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2900, col: 10, offset: 91454},
+																				pos: position{line: 2901, col: 10, offset: 91483},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2900, col: 10, offset: 91454},
+																					pos:        position{line: 2901, col: 10, offset: 91483},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11852,27 +11852,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2817, col: 5, offset: 89108},
+																				pos: position{line: 2818, col: 5, offset: 89137},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2818, col: 9, offset: 89118},
+																					pos: position{line: 2819, col: 9, offset: 89147},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2818, col: 10, offset: 89119},
+																							pos:        position{line: 2819, col: 10, offset: 89148},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2820, col: 13, offset: 89216},
+																							pos: position{line: 2821, col: 13, offset: 89245},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2820, col: 13, offset: 89216},
+																									pos: position{line: 2821, col: 13, offset: 89245},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89316},
+																									pos:        position{line: 2824, col: 13, offset: 89345},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -11880,20 +11880,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2823, col: 19, offset: 89322},
+																							pos:        position{line: 2824, col: 19, offset: 89351},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2826, col: 13, offset: 89360},
+																							pos: position{line: 2827, col: 13, offset: 89389},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2826, col: 13, offset: 89360},
+																									pos: position{line: 2827, col: 13, offset: 89389},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2829, col: 14, offset: 89453},
+																									pos:        position{line: 2830, col: 14, offset: 89482},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -11902,18 +11902,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2831, col: 12, offset: 89497},
+																							pos: position{line: 2832, col: 12, offset: 89526},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2831, col: 12, offset: 89497},
+																									pos:        position{line: 2832, col: 12, offset: 89526},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2831, col: 16, offset: 89501},
+																									pos: position{line: 2832, col: 16, offset: 89530},
 																									expr: &litMatcher{
-																										pos:        position{line: 2831, col: 17, offset: 89502},
+																										pos:        position{line: 2832, col: 17, offset: 89531},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -11925,19 +11925,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 646, col: 5, offset: 20346},
 																				run: (*parser).callonBlockAttributes156,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20319},
+																					pos: position{line: 646, col: 5, offset: 20346},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20319},
+																							pos:        position{line: 646, col: 5, offset: 20346},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20327},
+																							pos:   position{line: 646, col: 13, offset: 20354},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -11969,7 +11969,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20346},
+																							pos:        position{line: 646, col: 32, offset: 20373},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -11978,19 +11978,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20587},
+																				pos: position{line: 653, col: 5, offset: 20614},
 																				run: (*parser).callonBlockAttributes166,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20587},
+																					pos: position{line: 653, col: 5, offset: 20614},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20587},
+																							pos:        position{line: 653, col: 5, offset: 20614},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20591},
+																							pos:   position{line: 653, col: 9, offset: 20618},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -12022,7 +12022,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20610},
+																							pos:        position{line: 653, col: 28, offset: 20637},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12031,10 +12031,228 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2839, col: 12, offset: 89762},
+																				pos: position{line: 659, col: 25, offset: 20818},
 																				run: (*parser).callonBlockAttributes176,
+																				expr: &seqExpr{
+																					pos: position{line: 659, col: 25, offset: 20818},
+																					exprs: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 659, col: 25, offset: 20818},
+																							val:        "{counter:",
+																							ignoreCase: false,
+																							want:       "\"{counter:\"",
+																						},
+																						&labeledExpr{
+																							pos:   position{line: 659, col: 37, offset: 20830},
+																							label: "name",
+																							expr: &actionExpr{
+																								pos: position{line: 318, col: 18, offset: 9736},
+																								run: (*parser).callonBlockAttributes180,
+																								expr: &seqExpr{
+																									pos: position{line: 318, col: 18, offset: 9736},
+																									exprs: []interface{}{
+																										&charClassMatcher{
+																											pos:        position{line: 318, col: 18, offset: 9736},
+																											val:        "[_\\pL\\pN]",
+																											chars:      []rune{'_'},
+																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																											ignoreCase: false,
+																											inverted:   false,
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 318, col: 28, offset: 9746},
+																											expr: &charClassMatcher{
+																												pos:        position{line: 318, col: 29, offset: 9747},
+																												val:        "[-\\pL\\pN]",
+																												chars:      []rune{'-'},
+																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																												ignoreCase: false,
+																												inverted:   false,
+																											},
+																										},
+																									},
+																								},
+																							},
+																						},
+																						&labeledExpr{
+																							pos:   position{line: 659, col: 56, offset: 20849},
+																							label: "start",
+																							expr: &zeroOrOneExpr{
+																								pos: position{line: 659, col: 62, offset: 20855},
+																								expr: &actionExpr{
+																									pos: position{line: 667, col: 17, offset: 21152},
+																									run: (*parser).callonBlockAttributes187,
+																									expr: &seqExpr{
+																										pos: position{line: 667, col: 17, offset: 21152},
+																										exprs: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 667, col: 17, offset: 21152},
+																												val:        ":",
+																												ignoreCase: false,
+																												want:       "\":\"",
+																											},
+																											&labeledExpr{
+																												pos:   position{line: 667, col: 21, offset: 21156},
+																												label: "start",
+																												expr: &choiceExpr{
+																													pos: position{line: 667, col: 28, offset: 21163},
+																													alternatives: []interface{}{
+																														&actionExpr{
+																															pos: position{line: 667, col: 28, offset: 21163},
+																															run: (*parser).callonBlockAttributes192,
+																															expr: &charClassMatcher{
+																																pos:        position{line: 667, col: 28, offset: 21163},
+																																val:        "[A-Za-z]",
+																																ranges:     []rune{'A', 'Z', 'a', 'z'},
+																																ignoreCase: false,
+																																inverted:   false,
+																															},
+																														},
+																														&actionExpr{
+																															pos: position{line: 669, col: 9, offset: 21217},
+																															run: (*parser).callonBlockAttributes194,
+																															expr: &oneOrMoreExpr{
+																																pos: position{line: 669, col: 9, offset: 21217},
+																																expr: &charClassMatcher{
+																																	pos:        position{line: 669, col: 9, offset: 21217},
+																																	val:        "[0-9]",
+																																	ranges:     []rune{'0', '9'},
+																																	ignoreCase: false,
+																																	inverted:   false,
+																																},
+																															},
+																														},
+																													},
+																												},
+																											},
+																										},
+																									},
+																								},
+																							},
+																						},
+																						&litMatcher{
+																							pos:        position{line: 659, col: 78, offset: 20871},
+																							val:        "}",
+																							ignoreCase: false,
+																							want:       "\"}\"",
+																						},
+																					},
+																				},
+																			},
+																			&actionExpr{
+																				pos: position{line: 663, col: 25, offset: 20989},
+																				run: (*parser).callonBlockAttributes198,
+																				expr: &seqExpr{
+																					pos: position{line: 663, col: 25, offset: 20989},
+																					exprs: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 663, col: 25, offset: 20989},
+																							val:        "{counter2:",
+																							ignoreCase: false,
+																							want:       "\"{counter2:\"",
+																						},
+																						&labeledExpr{
+																							pos:   position{line: 663, col: 38, offset: 21002},
+																							label: "name",
+																							expr: &actionExpr{
+																								pos: position{line: 318, col: 18, offset: 9736},
+																								run: (*parser).callonBlockAttributes202,
+																								expr: &seqExpr{
+																									pos: position{line: 318, col: 18, offset: 9736},
+																									exprs: []interface{}{
+																										&charClassMatcher{
+																											pos:        position{line: 318, col: 18, offset: 9736},
+																											val:        "[_\\pL\\pN]",
+																											chars:      []rune{'_'},
+																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																											ignoreCase: false,
+																											inverted:   false,
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 318, col: 28, offset: 9746},
+																											expr: &charClassMatcher{
+																												pos:        position{line: 318, col: 29, offset: 9747},
+																												val:        "[-\\pL\\pN]",
+																												chars:      []rune{'-'},
+																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																												ignoreCase: false,
+																												inverted:   false,
+																											},
+																										},
+																									},
+																								},
+																							},
+																						},
+																						&labeledExpr{
+																							pos:   position{line: 663, col: 57, offset: 21021},
+																							label: "start",
+																							expr: &zeroOrOneExpr{
+																								pos: position{line: 663, col: 63, offset: 21027},
+																								expr: &actionExpr{
+																									pos: position{line: 667, col: 17, offset: 21152},
+																									run: (*parser).callonBlockAttributes209,
+																									expr: &seqExpr{
+																										pos: position{line: 667, col: 17, offset: 21152},
+																										exprs: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 667, col: 17, offset: 21152},
+																												val:        ":",
+																												ignoreCase: false,
+																												want:       "\":\"",
+																											},
+																											&labeledExpr{
+																												pos:   position{line: 667, col: 21, offset: 21156},
+																												label: "start",
+																												expr: &choiceExpr{
+																													pos: position{line: 667, col: 28, offset: 21163},
+																													alternatives: []interface{}{
+																														&actionExpr{
+																															pos: position{line: 667, col: 28, offset: 21163},
+																															run: (*parser).callonBlockAttributes214,
+																															expr: &charClassMatcher{
+																																pos:        position{line: 667, col: 28, offset: 21163},
+																																val:        "[A-Za-z]",
+																																ranges:     []rune{'A', 'Z', 'a', 'z'},
+																																ignoreCase: false,
+																																inverted:   false,
+																															},
+																														},
+																														&actionExpr{
+																															pos: position{line: 669, col: 9, offset: 21217},
+																															run: (*parser).callonBlockAttributes216,
+																															expr: &oneOrMoreExpr{
+																																pos: position{line: 669, col: 9, offset: 21217},
+																																expr: &charClassMatcher{
+																																	pos:        position{line: 669, col: 9, offset: 21217},
+																																	val:        "[0-9]",
+																																	ranges:     []rune{'0', '9'},
+																																	ignoreCase: false,
+																																	inverted:   false,
+																																},
+																															},
+																														},
+																													},
+																												},
+																											},
+																										},
+																									},
+																								},
+																							},
+																						},
+																						&litMatcher{
+																							pos:        position{line: 663, col: 79, offset: 21043},
+																							val:        "}",
+																							ignoreCase: false,
+																							want:       "\"}\"",
+																						},
+																					},
+																				},
+																			},
+																			&actionExpr{
+																				pos: position{line: 2840, col: 12, offset: 89791},
+																				run: (*parser).callonBlockAttributes220,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2839, col: 12, offset: 89762},
+																					pos:        position{line: 2840, col: 12, offset: 89791},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12052,10 +12270,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 376, col: 35, offset: 11642},
 												expr: &actionExpr{
-													pos: position{line: 2900, col: 10, offset: 91454},
-													run: (*parser).callonBlockAttributes179,
+													pos: position{line: 2901, col: 10, offset: 91483},
+													run: (*parser).callonBlockAttributes223,
 													expr: &charClassMatcher{
-														pos:        position{line: 2900, col: 10, offset: 91454},
+														pos:        position{line: 2901, col: 10, offset: 91483},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12064,28 +12282,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2922, col: 8, offset: 91852},
+												pos: position{line: 2923, col: 8, offset: 91881},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2909, col: 12, offset: 91625},
-														run: (*parser).callonBlockAttributes182,
+														pos: position{line: 2910, col: 12, offset: 91654},
+														run: (*parser).callonBlockAttributes226,
 														expr: &choiceExpr{
-															pos: position{line: 2909, col: 13, offset: 91626},
+															pos: position{line: 2910, col: 13, offset: 91655},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2909, col: 13, offset: 91626},
+																	pos:        position{line: 2910, col: 13, offset: 91655},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2909, col: 20, offset: 91633},
+																	pos:        position{line: 2910, col: 20, offset: 91662},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2909, col: 29, offset: 91642},
+																	pos:        position{line: 2910, col: 29, offset: 91671},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12094,9 +12312,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2919, col: 8, offset: 91802},
+														pos: position{line: 2920, col: 8, offset: 91831},
 														expr: &anyMatcher{
-															line: 2919, col: 9, offset: 91803,
+															line: 2920, col: 9, offset: 91832,
 														},
 													},
 												},
@@ -12104,24 +12322,24 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 376, col: 46, offset: 11653},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
-													run: (*parser).callonBlockAttributes190,
+													pos: position{line: 678, col: 14, offset: 21518},
+													run: (*parser).callonBlockAttributes234,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 678, col: 14, offset: 21518},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2917, col: 11, offset: 91788},
+																pos: position{line: 2918, col: 11, offset: 91817},
 																expr: &anyMatcher{
-																	line: 2917, col: 13, offset: 91790,
+																	line: 2918, col: 13, offset: 91819,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
+																pos: position{line: 678, col: 21, offset: 21525},
 																expr: &actionExpr{
-																	pos: position{line: 2900, col: 10, offset: 91454},
-																	run: (*parser).callonBlockAttributes195,
+																	pos: position{line: 2901, col: 10, offset: 91483},
+																	run: (*parser).callonBlockAttributes239,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2900, col: 10, offset: 91454},
+																		pos:        position{line: 2901, col: 10, offset: 91483},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12130,28 +12348,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2922, col: 8, offset: 91852},
+																pos: position{line: 2923, col: 8, offset: 91881},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2909, col: 12, offset: 91625},
-																		run: (*parser).callonBlockAttributes198,
+																		pos: position{line: 2910, col: 12, offset: 91654},
+																		run: (*parser).callonBlockAttributes242,
 																		expr: &choiceExpr{
-																			pos: position{line: 2909, col: 13, offset: 91626},
+																			pos: position{line: 2910, col: 13, offset: 91655},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 13, offset: 91626},
+																					pos:        position{line: 2910, col: 13, offset: 91655},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 20, offset: 91633},
+																					pos:        position{line: 2910, col: 20, offset: 91662},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 29, offset: 91642},
+																					pos:        position{line: 2910, col: 29, offset: 91671},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12160,9 +12378,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2919, col: 8, offset: 91802},
+																		pos: position{line: 2920, col: 8, offset: 91831},
 																		expr: &anyMatcher{
-																			line: 2919, col: 9, offset: 91803,
+																			line: 2920, col: 9, offset: 91832,
 																		},
 																	},
 																},
@@ -12176,7 +12394,7 @@ var g = &grammar{
 								},
 								&actionExpr{
 									pos: position{line: 380, col: 12, offset: 11743},
-									run: (*parser).callonBlockAttributes205,
+									run: (*parser).callonBlockAttributes249,
 									expr: &seqExpr{
 										pos: position{line: 380, col: 12, offset: 11743},
 										exprs: []interface{}{
@@ -12191,10 +12409,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 380, col: 44, offset: 11775},
 												expr: &actionExpr{
-													pos: position{line: 2900, col: 10, offset: 91454},
-													run: (*parser).callonBlockAttributes210,
+													pos: position{line: 2901, col: 10, offset: 91483},
+													run: (*parser).callonBlockAttributes254,
 													expr: &charClassMatcher{
-														pos:        position{line: 2900, col: 10, offset: 91454},
+														pos:        position{line: 2901, col: 10, offset: 91483},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12203,28 +12421,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2922, col: 8, offset: 91852},
+												pos: position{line: 2923, col: 8, offset: 91881},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2909, col: 12, offset: 91625},
-														run: (*parser).callonBlockAttributes213,
+														pos: position{line: 2910, col: 12, offset: 91654},
+														run: (*parser).callonBlockAttributes257,
 														expr: &choiceExpr{
-															pos: position{line: 2909, col: 13, offset: 91626},
+															pos: position{line: 2910, col: 13, offset: 91655},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2909, col: 13, offset: 91626},
+																	pos:        position{line: 2910, col: 13, offset: 91655},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2909, col: 20, offset: 91633},
+																	pos:        position{line: 2910, col: 20, offset: 91662},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2909, col: 29, offset: 91642},
+																	pos:        position{line: 2910, col: 29, offset: 91671},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12233,9 +12451,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2919, col: 8, offset: 91802},
+														pos: position{line: 2920, col: 8, offset: 91831},
 														expr: &anyMatcher{
-															line: 2919, col: 9, offset: 91803,
+															line: 2920, col: 9, offset: 91832,
 														},
 													},
 												},
@@ -12243,24 +12461,24 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 380, col: 55, offset: 11786},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
-													run: (*parser).callonBlockAttributes221,
+													pos: position{line: 678, col: 14, offset: 21518},
+													run: (*parser).callonBlockAttributes265,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 678, col: 14, offset: 21518},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2917, col: 11, offset: 91788},
+																pos: position{line: 2918, col: 11, offset: 91817},
 																expr: &anyMatcher{
-																	line: 2917, col: 13, offset: 91790,
+																	line: 2918, col: 13, offset: 91819,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
+																pos: position{line: 678, col: 21, offset: 21525},
 																expr: &actionExpr{
-																	pos: position{line: 2900, col: 10, offset: 91454},
-																	run: (*parser).callonBlockAttributes226,
+																	pos: position{line: 2901, col: 10, offset: 91483},
+																	run: (*parser).callonBlockAttributes270,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2900, col: 10, offset: 91454},
+																		pos:        position{line: 2901, col: 10, offset: 91483},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12269,28 +12487,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2922, col: 8, offset: 91852},
+																pos: position{line: 2923, col: 8, offset: 91881},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2909, col: 12, offset: 91625},
-																		run: (*parser).callonBlockAttributes229,
+																		pos: position{line: 2910, col: 12, offset: 91654},
+																		run: (*parser).callonBlockAttributes273,
 																		expr: &choiceExpr{
-																			pos: position{line: 2909, col: 13, offset: 91626},
+																			pos: position{line: 2910, col: 13, offset: 91655},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 13, offset: 91626},
+																					pos:        position{line: 2910, col: 13, offset: 91655},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 20, offset: 91633},
+																					pos:        position{line: 2910, col: 20, offset: 91662},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 29, offset: 91642},
+																					pos:        position{line: 2910, col: 29, offset: 91671},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12299,9 +12517,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2919, col: 8, offset: 91802},
+																		pos: position{line: 2920, col: 8, offset: 91831},
 																		expr: &anyMatcher{
-																			line: 2919, col: 9, offset: 91803,
+																			line: 2920, col: 9, offset: 91832,
 																		},
 																	},
 																},
@@ -12388,62 +12606,62 @@ var g = &grammar{
 		},
 		{
 			name: "LongHandAttributes",
-			pos:  position{line: 437, col: 1, offset: 13444},
+			pos:  position{line: 438, col: 1, offset: 13471},
 			expr: &actionExpr{
-				pos: position{line: 438, col: 5, offset: 13470},
+				pos: position{line: 439, col: 5, offset: 13497},
 				run: (*parser).callonLongHandAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 438, col: 5, offset: 13470},
+					pos: position{line: 439, col: 5, offset: 13497},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 438, col: 5, offset: 13470},
+							pos: position{line: 439, col: 5, offset: 13497},
 							expr: &litMatcher{
-								pos:        position{line: 438, col: 6, offset: 13471},
+								pos:        position{line: 439, col: 6, offset: 13498},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 438, col: 10, offset: 13475},
+							pos:        position{line: 439, col: 10, offset: 13502},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&notExpr{
-							pos: position{line: 438, col: 14, offset: 13479},
+							pos: position{line: 439, col: 14, offset: 13506},
 							expr: &litMatcher{
-								pos:        position{line: 438, col: 15, offset: 13480},
+								pos:        position{line: 439, col: 15, offset: 13507},
 								val:        "[",
 								ignoreCase: false,
 								want:       "\"[\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 439, col: 5, offset: 13593},
+							pos:   position{line: 440, col: 5, offset: 13620},
 							label: "firstPositionalAttributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 439, col: 31, offset: 13619},
+								pos: position{line: 440, col: 31, offset: 13646},
 								expr: &ruleRefExpr{
-									pos:  position{line: 439, col: 32, offset: 13620},
+									pos:  position{line: 440, col: 32, offset: 13647},
 									name: "FirstPositionalAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 440, col: 5, offset: 13652},
+							pos:   position{line: 441, col: 5, offset: 13679},
 							label: "otherAttributes",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 440, col: 21, offset: 13668},
+								pos: position{line: 441, col: 21, offset: 13695},
 								expr: &choiceExpr{
-									pos: position{line: 440, col: 22, offset: 13669},
+									pos: position{line: 441, col: 22, offset: 13696},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 440, col: 22, offset: 13669},
+											pos:  position{line: 441, col: 22, offset: 13696},
 											name: "PositionalAttribute",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 440, col: 44, offset: 13691},
+											pos:  position{line: 441, col: 44, offset: 13718},
 											name: "NamedAttribute",
 										},
 									},
@@ -12451,7 +12669,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 441, col: 5, offset: 13712},
+							pos:        position{line: 442, col: 5, offset: 13739},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -12462,69 +12680,69 @@ var g = &grammar{
 		},
 		{
 			name: "FirstPositionalAttributes",
-			pos:  position{line: 454, col: 1, offset: 14240},
+			pos:  position{line: 455, col: 1, offset: 14267},
 			expr: &actionExpr{
-				pos: position{line: 455, col: 5, offset: 14274},
+				pos: position{line: 456, col: 5, offset: 14301},
 				run: (*parser).callonFirstPositionalAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 455, col: 5, offset: 14274},
+					pos: position{line: 456, col: 5, offset: 14301},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 455, col: 5, offset: 14274},
+							pos:   position{line: 456, col: 5, offset: 14301},
 							label: "main",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 455, col: 10, offset: 14279},
+								pos: position{line: 456, col: 10, offset: 14306},
 								expr: &ruleRefExpr{
-									pos:  position{line: 456, col: 9, offset: 14289},
+									pos:  position{line: 457, col: 9, offset: 14316},
 									name: "ShortHandAttribute",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 458, col: 5, offset: 14319},
+							pos:   position{line: 459, col: 5, offset: 14346},
 							label: "extras",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 458, col: 12, offset: 14326},
+								pos: position{line: 459, col: 12, offset: 14353},
 								expr: &actionExpr{
-									pos: position{line: 459, col: 9, offset: 14337},
+									pos: position{line: 460, col: 9, offset: 14364},
 									run: (*parser).callonFirstPositionalAttributes8,
 									expr: &seqExpr{
-										pos: position{line: 459, col: 9, offset: 14337},
+										pos: position{line: 460, col: 9, offset: 14364},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 459, col: 9, offset: 14337},
+												pos: position{line: 460, col: 9, offset: 14364},
 												expr: &litMatcher{
-													pos:        position{line: 459, col: 10, offset: 14338},
+													pos:        position{line: 460, col: 10, offset: 14365},
 													val:        ",",
 													ignoreCase: false,
 													want:       "\",\"",
 												},
 											},
 											&notExpr{
-												pos: position{line: 459, col: 14, offset: 14342},
+												pos: position{line: 460, col: 14, offset: 14369},
 												expr: &litMatcher{
-													pos:        position{line: 459, col: 15, offset: 14343},
+													pos:        position{line: 460, col: 15, offset: 14370},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 460, col: 9, offset: 14355},
+												pos:   position{line: 461, col: 9, offset: 14382},
 												label: "extra",
 												expr: &choiceExpr{
-													pos: position{line: 461, col: 13, offset: 14375},
+													pos: position{line: 462, col: 13, offset: 14402},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 461, col: 13, offset: 14375},
+															pos:  position{line: 462, col: 13, offset: 14402},
 															name: "ShortHandIDAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 462, col: 15, offset: 14411},
+															pos:  position{line: 463, col: 15, offset: 14438},
 															name: "ShortHandOptionAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 463, col: 15, offset: 14450},
+															pos:  position{line: 464, col: 15, offset: 14477},
 															name: "ShortHandDotRoleAttribute",
 														},
 													},
@@ -12536,23 +12754,23 @@ var g = &grammar{
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 466, col: 8, offset: 14526},
+							pos: position{line: 467, col: 8, offset: 14553},
 							expr: &seqExpr{
-								pos: position{line: 466, col: 9, offset: 14527},
+								pos: position{line: 467, col: 9, offset: 14554},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 466, col: 9, offset: 14527},
+										pos:        position{line: 467, col: 9, offset: 14554},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 466, col: 13, offset: 14531},
+										pos: position{line: 467, col: 13, offset: 14558},
 										expr: &actionExpr{
-											pos: position{line: 2900, col: 10, offset: 91454},
+											pos: position{line: 2901, col: 10, offset: 91483},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2900, col: 10, offset: 91454},
+												pos:        position{line: 2901, col: 10, offset: 91483},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -12564,7 +12782,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 467, col: 5, offset: 14545},
+							pos: position{line: 468, col: 5, offset: 14572},
 							run: (*parser).callonFirstPositionalAttributes25,
 						},
 					},
@@ -12573,24 +12791,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandIDAttribute",
-			pos:  position{line: 483, col: 1, offset: 14961},
+			pos:  position{line: 484, col: 1, offset: 14988},
 			expr: &actionExpr{
-				pos: position{line: 483, col: 25, offset: 14985},
+				pos: position{line: 484, col: 25, offset: 15012},
 				run: (*parser).callonShortHandIDAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 483, col: 25, offset: 14985},
+					pos: position{line: 484, col: 25, offset: 15012},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 483, col: 25, offset: 14985},
+							pos:        position{line: 484, col: 25, offset: 15012},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 483, col: 29, offset: 14989},
+							pos:   position{line: 484, col: 29, offset: 15016},
 							label: "id",
 							expr: &ruleRefExpr{
-								pos:  position{line: 483, col: 33, offset: 14993},
+								pos:  position{line: 484, col: 33, offset: 15020},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12600,15 +12818,15 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttribute",
-			pos:  position{line: 487, col: 1, offset: 15067},
+			pos:  position{line: 488, col: 1, offset: 15094},
 			expr: &actionExpr{
-				pos: position{line: 487, col: 23, offset: 15089},
+				pos: position{line: 488, col: 23, offset: 15116},
 				run: (*parser).callonShortHandAttribute1,
 				expr: &labeledExpr{
-					pos:   position{line: 487, col: 23, offset: 15089},
+					pos:   position{line: 488, col: 23, offset: 15116},
 					label: "value",
 					expr: &ruleRefExpr{
-						pos:  position{line: 487, col: 30, offset: 15096},
+						pos:  position{line: 488, col: 30, offset: 15123},
 						name: "ShortHandAttributeValue",
 					},
 				},
@@ -12616,24 +12834,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandDotRoleAttribute",
-			pos:  position{line: 492, col: 1, offset: 15222},
+			pos:  position{line: 493, col: 1, offset: 15249},
 			expr: &actionExpr{
-				pos: position{line: 492, col: 30, offset: 15251},
+				pos: position{line: 493, col: 30, offset: 15278},
 				run: (*parser).callonShortHandDotRoleAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 492, col: 30, offset: 15251},
+					pos: position{line: 493, col: 30, offset: 15278},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 492, col: 30, offset: 15251},
+							pos:        position{line: 493, col: 30, offset: 15278},
 							val:        ".",
 							ignoreCase: false,
 							want:       "\".\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 492, col: 34, offset: 15255},
+							pos:   position{line: 493, col: 34, offset: 15282},
 							label: "role",
 							expr: &ruleRefExpr{
-								pos:  position{line: 492, col: 40, offset: 15261},
+								pos:  position{line: 493, col: 40, offset: 15288},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12643,24 +12861,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandOptionAttribute",
-			pos:  position{line: 497, col: 1, offset: 15383},
+			pos:  position{line: 498, col: 1, offset: 15410},
 			expr: &actionExpr{
-				pos: position{line: 497, col: 29, offset: 15411},
+				pos: position{line: 498, col: 29, offset: 15438},
 				run: (*parser).callonShortHandOptionAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 497, col: 29, offset: 15411},
+					pos: position{line: 498, col: 29, offset: 15438},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 497, col: 29, offset: 15411},
+							pos:        position{line: 498, col: 29, offset: 15438},
 							val:        "%",
 							ignoreCase: false,
 							want:       "\"%\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 497, col: 33, offset: 15415},
+							pos:   position{line: 498, col: 33, offset: 15442},
 							label: "option",
 							expr: &ruleRefExpr{
-								pos:  position{line: 497, col: 41, offset: 15423},
+								pos:  position{line: 498, col: 41, offset: 15450},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12670,43 +12888,43 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttributeValue",
-			pos:  position{line: 502, col: 1, offset: 15536},
+			pos:  position{line: 503, col: 1, offset: 15563},
 			expr: &choiceExpr{
-				pos: position{line: 503, col: 5, offset: 15568},
+				pos: position{line: 504, col: 5, offset: 15595},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 503, col: 5, offset: 15568},
+						pos:  position{line: 504, col: 5, offset: 15595},
 						name: "SingleQuotedAttributeValue",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 504, col: 7, offset: 15602},
+						pos:  position{line: 505, col: 7, offset: 15629},
 						name: "DoubleQuotedAttributeValue",
 					},
 					&actionExpr{
-						pos: position{line: 505, col: 7, offset: 15636},
+						pos: position{line: 506, col: 7, offset: 15663},
 						run: (*parser).callonShortHandAttributeValue4,
 						expr: &seqExpr{
-							pos: position{line: 505, col: 7, offset: 15636},
+							pos: position{line: 506, col: 7, offset: 15663},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 505, col: 7, offset: 15636},
+									pos:   position{line: 506, col: 7, offset: 15663},
 									label: "elements",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 505, col: 16, offset: 15645},
+										pos: position{line: 506, col: 16, offset: 15672},
 										expr: &choiceExpr{
-											pos: position{line: 508, col: 9, offset: 15827},
+											pos: position{line: 509, col: 9, offset: 15854},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 508, col: 9, offset: 15827},
+													pos:  position{line: 509, col: 9, offset: 15854},
 													name: "QuotationMark",
 												},
 												&actionExpr{
-													pos: position{line: 509, col: 12, offset: 15853},
+													pos: position{line: 510, col: 12, offset: 15880},
 													run: (*parser).callonShortHandAttributeValue10,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 509, col: 12, offset: 15853},
+														pos: position{line: 510, col: 12, offset: 15880},
 														expr: &charClassMatcher{
-															pos:        position{line: 509, col: 12, offset: 15853},
+															pos:        position{line: 510, col: 12, offset: 15880},
 															val:        "[^,=.%# \\r\\n�{]]",
 															chars:      []rune{',', '=', '.', '%', '#', ' ', '\r', '\n', '�', '{', ']'},
 															ignoreCase: false,
@@ -12715,35 +12933,35 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 636, col: 5, offset: 20109},
+													pos: position{line: 637, col: 5, offset: 20136},
 													run: (*parser).callonShortHandAttributeValue13,
 													expr: &seqExpr{
-														pos: position{line: 636, col: 5, offset: 20109},
+														pos: position{line: 637, col: 5, offset: 20136},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 636, col: 5, offset: 20109},
+																pos: position{line: 637, col: 5, offset: 20136},
 																run: (*parser).callonShortHandAttributeValue15,
 															},
 															&labeledExpr{
-																pos:   position{line: 639, col: 5, offset: 20181},
+																pos:   position{line: 640, col: 5, offset: 20208},
 																label: "element",
 																expr: &choiceExpr{
-																	pos: position{line: 639, col: 14, offset: 20190},
+																	pos: position{line: 640, col: 14, offset: 20217},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 645, col: 5, offset: 20319},
+																			pos: position{line: 646, col: 5, offset: 20346},
 																			run: (*parser).callonShortHandAttributeValue18,
 																			expr: &seqExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 646, col: 5, offset: 20346},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 645, col: 5, offset: 20319},
+																						pos:        position{line: 646, col: 5, offset: 20346},
 																						val:        "\\{",
 																						ignoreCase: false,
 																						want:       "\"\\\\{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 645, col: 13, offset: 20327},
+																						pos:   position{line: 646, col: 13, offset: 20354},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9736},
@@ -12775,7 +12993,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 645, col: 32, offset: 20346},
+																						pos:        position{line: 646, col: 32, offset: 20373},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -12784,19 +13002,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 652, col: 5, offset: 20587},
+																			pos: position{line: 653, col: 5, offset: 20614},
 																			run: (*parser).callonShortHandAttributeValue28,
 																			expr: &seqExpr{
-																				pos: position{line: 652, col: 5, offset: 20587},
+																				pos: position{line: 653, col: 5, offset: 20614},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 652, col: 5, offset: 20587},
+																						pos:        position{line: 653, col: 5, offset: 20614},
 																						val:        "{",
 																						ignoreCase: false,
 																						want:       "\"{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 652, col: 9, offset: 20591},
+																						pos:   position{line: 653, col: 9, offset: 20618},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9736},
@@ -12828,7 +13046,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 652, col: 28, offset: 20610},
+																						pos:        position{line: 653, col: 28, offset: 20637},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -12837,19 +13055,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 658, col: 25, offset: 20791},
+																			pos: position{line: 659, col: 25, offset: 20818},
 																			run: (*parser).callonShortHandAttributeValue38,
 																			expr: &seqExpr{
-																				pos: position{line: 658, col: 25, offset: 20791},
+																				pos: position{line: 659, col: 25, offset: 20818},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 658, col: 25, offset: 20791},
+																						pos:        position{line: 659, col: 25, offset: 20818},
 																						val:        "{counter:",
 																						ignoreCase: false,
 																						want:       "\"{counter:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 658, col: 37, offset: 20803},
+																						pos:   position{line: 659, col: 37, offset: 20830},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9736},
@@ -12881,33 +13099,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 658, col: 56, offset: 20822},
+																						pos:   position{line: 659, col: 56, offset: 20849},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 658, col: 62, offset: 20828},
+																							pos: position{line: 659, col: 62, offset: 20855},
 																							expr: &actionExpr{
-																								pos: position{line: 666, col: 17, offset: 21123},
+																								pos: position{line: 667, col: 17, offset: 21152},
 																								run: (*parser).callonShortHandAttributeValue49,
 																								expr: &seqExpr{
-																									pos: position{line: 666, col: 17, offset: 21123},
+																									pos: position{line: 667, col: 17, offset: 21152},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 666, col: 17, offset: 21123},
+																											pos:        position{line: 667, col: 17, offset: 21152},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 666, col: 21, offset: 21127},
+																											pos:   position{line: 667, col: 21, offset: 21156},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 667, col: 28, offset: 21163},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 667, col: 28, offset: 21163},
 																														run: (*parser).callonShortHandAttributeValue54,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 666, col: 28, offset: 21134},
+																															pos:        position{line: 667, col: 28, offset: 21163},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -12915,12 +13133,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 668, col: 9, offset: 21188},
+																														pos: position{line: 669, col: 9, offset: 21217},
 																														run: (*parser).callonShortHandAttributeValue56,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 668, col: 9, offset: 21188},
+																															pos: position{line: 669, col: 9, offset: 21217},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 668, col: 9, offset: 21188},
+																																pos:        position{line: 669, col: 9, offset: 21217},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -12937,7 +13155,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 658, col: 78, offset: 20844},
+																						pos:        position{line: 659, col: 78, offset: 20871},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -12946,19 +13164,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 662, col: 25, offset: 20962},
+																			pos: position{line: 663, col: 25, offset: 20989},
 																			run: (*parser).callonShortHandAttributeValue60,
 																			expr: &seqExpr{
-																				pos: position{line: 662, col: 25, offset: 20962},
+																				pos: position{line: 663, col: 25, offset: 20989},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 662, col: 25, offset: 20962},
+																						pos:        position{line: 663, col: 25, offset: 20989},
 																						val:        "{counter2:",
 																						ignoreCase: false,
 																						want:       "\"{counter2:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 662, col: 38, offset: 20975},
+																						pos:   position{line: 663, col: 38, offset: 21002},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9736},
@@ -12990,33 +13208,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 662, col: 57, offset: 20994},
+																						pos:   position{line: 663, col: 57, offset: 21021},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 662, col: 63, offset: 21000},
+																							pos: position{line: 663, col: 63, offset: 21027},
 																							expr: &actionExpr{
-																								pos: position{line: 666, col: 17, offset: 21123},
+																								pos: position{line: 667, col: 17, offset: 21152},
 																								run: (*parser).callonShortHandAttributeValue71,
 																								expr: &seqExpr{
-																									pos: position{line: 666, col: 17, offset: 21123},
+																									pos: position{line: 667, col: 17, offset: 21152},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 666, col: 17, offset: 21123},
+																											pos:        position{line: 667, col: 17, offset: 21152},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 666, col: 21, offset: 21127},
+																											pos:   position{line: 667, col: 21, offset: 21156},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 667, col: 28, offset: 21163},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 667, col: 28, offset: 21163},
 																														run: (*parser).callonShortHandAttributeValue76,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 666, col: 28, offset: 21134},
+																															pos:        position{line: 667, col: 28, offset: 21163},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13024,12 +13242,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 668, col: 9, offset: 21188},
+																														pos: position{line: 669, col: 9, offset: 21217},
 																														run: (*parser).callonShortHandAttributeValue78,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 668, col: 9, offset: 21188},
+																															pos: position{line: 669, col: 9, offset: 21217},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 668, col: 9, offset: 21188},
+																																pos:        position{line: 669, col: 9, offset: 21217},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13046,7 +13264,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 662, col: 79, offset: 21016},
+																						pos:        position{line: 663, col: 79, offset: 21043},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13061,10 +13279,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 514, col: 12, offset: 16021},
+													pos: position{line: 515, col: 12, offset: 16048},
 													run: (*parser).callonShortHandAttributeValue82,
 													expr: &litMatcher{
-														pos:        position{line: 514, col: 12, offset: 16021},
+														pos:        position{line: 515, col: 12, offset: 16048},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -13075,19 +13293,19 @@ var g = &grammar{
 									},
 								},
 								&andExpr{
-									pos: position{line: 518, col: 5, offset: 16109},
+									pos: position{line: 519, col: 5, offset: 16136},
 									expr: &notExpr{
-										pos: position{line: 518, col: 7, offset: 16111},
+										pos: position{line: 519, col: 7, offset: 16138},
 										expr: &seqExpr{
-											pos: position{line: 518, col: 9, offset: 16113},
+											pos: position{line: 519, col: 9, offset: 16140},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 518, col: 9, offset: 16113},
+													pos: position{line: 519, col: 9, offset: 16140},
 													expr: &actionExpr{
-														pos: position{line: 2900, col: 10, offset: 91454},
+														pos: position{line: 2901, col: 10, offset: 91483},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2900, col: 10, offset: 91454},
+															pos:        position{line: 2901, col: 10, offset: 91483},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13096,7 +13314,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 518, col: 16, offset: 16120},
+													pos:        position{line: 519, col: 16, offset: 16147},
 													val:        "=",
 													ignoreCase: false,
 													want:       "\"=\"",
@@ -13113,45 +13331,45 @@ var g = &grammar{
 		},
 		{
 			name: "PositionalAttribute",
-			pos:  position{line: 523, col: 1, offset: 16198},
+			pos:  position{line: 524, col: 1, offset: 16225},
 			expr: &choiceExpr{
-				pos: position{line: 523, col: 24, offset: 16221},
+				pos: position{line: 524, col: 24, offset: 16248},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 524, col: 5, offset: 16227},
+						pos: position{line: 525, col: 5, offset: 16254},
 						run: (*parser).callonPositionalAttribute2,
 						expr: &seqExpr{
-							pos: position{line: 524, col: 5, offset: 16227},
+							pos: position{line: 525, col: 5, offset: 16254},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 524, col: 5, offset: 16227},
+									pos:   position{line: 525, col: 5, offset: 16254},
 									label: "value",
 									expr: &ruleRefExpr{
-										pos:  position{line: 524, col: 12, offset: 16234},
+										pos:  position{line: 525, col: 12, offset: 16261},
 										name: "AttributeValue",
 									},
 								},
 								&choiceExpr{
-									pos: position{line: 524, col: 29, offset: 16251},
+									pos: position{line: 525, col: 29, offset: 16278},
 									alternatives: []interface{}{
 										&zeroOrOneExpr{
-											pos: position{line: 524, col: 29, offset: 16251},
+											pos: position{line: 525, col: 29, offset: 16278},
 											expr: &seqExpr{
-												pos: position{line: 524, col: 30, offset: 16252},
+												pos: position{line: 525, col: 30, offset: 16279},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 524, col: 30, offset: 16252},
+														pos:        position{line: 525, col: 30, offset: 16279},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 524, col: 34, offset: 16256},
+														pos: position{line: 525, col: 34, offset: 16283},
 														expr: &actionExpr{
-															pos: position{line: 2900, col: 10, offset: 91454},
+															pos: position{line: 2901, col: 10, offset: 91483},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2900, col: 10, offset: 91454},
+																pos:        position{line: 2901, col: 10, offset: 91483},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13163,9 +13381,9 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 524, col: 45, offset: 16267},
+											pos: position{line: 525, col: 45, offset: 16294},
 											expr: &litMatcher{
-												pos:        position{line: 524, col: 46, offset: 16268},
+												pos:        position{line: 525, col: 46, offset: 16295},
 												val:        "]",
 												ignoreCase: false,
 												want:       "\"]\"",
@@ -13177,24 +13395,24 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 529, col: 6, offset: 16413},
+						pos: position{line: 530, col: 6, offset: 16440},
 						run: (*parser).callonPositionalAttribute15,
 						expr: &seqExpr{
-							pos: position{line: 529, col: 6, offset: 16413},
+							pos: position{line: 530, col: 6, offset: 16440},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 529, col: 6, offset: 16413},
+									pos:   position{line: 530, col: 6, offset: 16440},
 									label: "value",
 									expr: &seqExpr{
-										pos: position{line: 529, col: 13, offset: 16420},
+										pos: position{line: 530, col: 13, offset: 16447},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 529, col: 13, offset: 16420},
+												pos: position{line: 530, col: 13, offset: 16447},
 												expr: &actionExpr{
-													pos: position{line: 2900, col: 10, offset: 91454},
+													pos: position{line: 2901, col: 10, offset: 91483},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2900, col: 10, offset: 91454},
+														pos:        position{line: 2901, col: 10, offset: 91483},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13203,24 +13421,24 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 529, col: 21, offset: 16428},
+												pos: position{line: 530, col: 21, offset: 16455},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 529, col: 22, offset: 16429},
+														pos: position{line: 530, col: 22, offset: 16456},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 529, col: 22, offset: 16429},
+																pos:        position{line: 530, col: 22, offset: 16456},
 																val:        ",",
 																ignoreCase: false,
 																want:       "\",\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 529, col: 26, offset: 16433},
+																pos: position{line: 530, col: 26, offset: 16460},
 																expr: &actionExpr{
-																	pos: position{line: 2900, col: 10, offset: 91454},
+																	pos: position{line: 2901, col: 10, offset: 91483},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2900, col: 10, offset: 91454},
+																		pos:        position{line: 2901, col: 10, offset: 91483},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13231,9 +13449,9 @@ var g = &grammar{
 														},
 													},
 													&andExpr{
-														pos: position{line: 529, col: 36, offset: 16443},
+														pos: position{line: 530, col: 36, offset: 16470},
 														expr: &litMatcher{
-															pos:        position{line: 529, col: 37, offset: 16444},
+															pos:        position{line: 530, col: 37, offset: 16471},
 															val:        "]",
 															ignoreCase: false,
 															want:       "\"]\"",
@@ -13245,7 +13463,7 @@ var g = &grammar{
 									},
 								},
 								&andCodeExpr{
-									pos: position{line: 530, col: 5, offset: 16454},
+									pos: position{line: 531, col: 5, offset: 16481},
 									run: (*parser).callonPositionalAttribute30,
 								},
 							},
@@ -13256,29 +13474,29 @@ var g = &grammar{
 		},
 		{
 			name: "NamedAttribute",
-			pos:  position{line: 540, col: 1, offset: 16769},
+			pos:  position{line: 541, col: 1, offset: 16796},
 			expr: &actionExpr{
-				pos: position{line: 541, col: 5, offset: 16792},
+				pos: position{line: 542, col: 5, offset: 16819},
 				run: (*parser).callonNamedAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 541, col: 5, offset: 16792},
+					pos: position{line: 542, col: 5, offset: 16819},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 541, col: 5, offset: 16792},
+							pos:   position{line: 542, col: 5, offset: 16819},
 							label: "key",
 							expr: &actionExpr{
-								pos: position{line: 549, col: 22, offset: 17080},
+								pos: position{line: 550, col: 22, offset: 17107},
 								run: (*parser).callonNamedAttribute4,
 								expr: &seqExpr{
-									pos: position{line: 549, col: 22, offset: 17080},
+									pos: position{line: 550, col: 22, offset: 17107},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 549, col: 22, offset: 17080},
+											pos: position{line: 550, col: 22, offset: 17107},
 											expr: &actionExpr{
-												pos: position{line: 2900, col: 10, offset: 91454},
+												pos: position{line: 2901, col: 10, offset: 91483},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2900, col: 10, offset: 91454},
+													pos:        position{line: 2901, col: 10, offset: 91483},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13287,9 +13505,9 @@ var g = &grammar{
 											},
 										},
 										&oneOrMoreExpr{
-											pos: position{line: 549, col: 29, offset: 17087},
+											pos: position{line: 550, col: 29, offset: 17114},
 											expr: &charClassMatcher{
-												pos:        position{line: 549, col: 29, offset: 17087},
+												pos:        position{line: 550, col: 29, offset: 17114},
 												val:        "[^\\r\\n=,]]",
 												chars:      []rune{'\r', '\n', '=', ',', ']'},
 												ignoreCase: false,
@@ -13301,18 +13519,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 542, col: 5, offset: 16821},
+							pos:        position{line: 543, col: 5, offset: 16848},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 542, col: 9, offset: 16825},
+							pos: position{line: 543, col: 9, offset: 16852},
 							expr: &actionExpr{
-								pos: position{line: 2900, col: 10, offset: 91454},
+								pos: position{line: 2901, col: 10, offset: 91483},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2900, col: 10, offset: 91454},
+									pos:        position{line: 2901, col: 10, offset: 91483},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13321,31 +13539,31 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 543, col: 5, offset: 16837},
+							pos:   position{line: 544, col: 5, offset: 16864},
 							label: "value",
 							expr: &ruleRefExpr{
-								pos:  position{line: 543, col: 12, offset: 16844},
+								pos:  position{line: 544, col: 12, offset: 16871},
 								name: "AttributeValue",
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 543, col: 28, offset: 16860},
+							pos: position{line: 544, col: 28, offset: 16887},
 							expr: &seqExpr{
-								pos: position{line: 543, col: 29, offset: 16861},
+								pos: position{line: 544, col: 29, offset: 16888},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 543, col: 29, offset: 16861},
+										pos:        position{line: 544, col: 29, offset: 16888},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 543, col: 33, offset: 16865},
+										pos: position{line: 544, col: 33, offset: 16892},
 										expr: &actionExpr{
-											pos: position{line: 2900, col: 10, offset: 91454},
+											pos: position{line: 2901, col: 10, offset: 91483},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2900, col: 10, offset: 91454},
+												pos:        position{line: 2901, col: 10, offset: 91483},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13362,48 +13580,48 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeValue",
-			pos:  position{line: 553, col: 1, offset: 17144},
+			pos:  position{line: 554, col: 1, offset: 17171},
 			expr: &actionExpr{
-				pos: position{line: 554, col: 5, offset: 17167},
+				pos: position{line: 555, col: 5, offset: 17194},
 				run: (*parser).callonAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 554, col: 5, offset: 17167},
+					pos: position{line: 555, col: 5, offset: 17194},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 554, col: 5, offset: 17167},
+							pos:   position{line: 555, col: 5, offset: 17194},
 							label: "value",
 							expr: &choiceExpr{
-								pos: position{line: 555, col: 9, offset: 17183},
+								pos: position{line: 556, col: 9, offset: 17210},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 555, col: 9, offset: 17183},
+										pos:  position{line: 556, col: 9, offset: 17210},
 										name: "SingleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 556, col: 11, offset: 17221},
+										pos:  position{line: 557, col: 11, offset: 17248},
 										name: "DoubleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 557, col: 11, offset: 17259},
+										pos:  position{line: 558, col: 11, offset: 17286},
 										name: "UnquotedAttributeValue",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 559, col: 5, offset: 17293},
+							pos: position{line: 560, col: 5, offset: 17320},
 							expr: &notExpr{
-								pos: position{line: 559, col: 7, offset: 17295},
+								pos: position{line: 560, col: 7, offset: 17322},
 								expr: &seqExpr{
-									pos: position{line: 559, col: 9, offset: 17297},
+									pos: position{line: 560, col: 9, offset: 17324},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 559, col: 9, offset: 17297},
+											pos: position{line: 560, col: 9, offset: 17324},
 											expr: &actionExpr{
-												pos: position{line: 2900, col: 10, offset: 91454},
+												pos: position{line: 2901, col: 10, offset: 91483},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2900, col: 10, offset: 91454},
+													pos:        position{line: 2901, col: 10, offset: 91483},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13412,7 +13630,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 559, col: 16, offset: 17304},
+											pos:        position{line: 560, col: 16, offset: 17331},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -13427,38 +13645,38 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValue",
-			pos:  position{line: 563, col: 1, offset: 17345},
+			pos:  position{line: 564, col: 1, offset: 17372},
 			expr: &actionExpr{
-				pos: position{line: 564, col: 5, offset: 17380},
+				pos: position{line: 565, col: 5, offset: 17407},
 				run: (*parser).callonSingleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 564, col: 5, offset: 17380},
+					pos: position{line: 565, col: 5, offset: 17407},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 564, col: 5, offset: 17380},
+							pos:        position{line: 565, col: 5, offset: 17407},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
 						},
 						&notExpr{
-							pos: position{line: 564, col: 9, offset: 17384},
+							pos: position{line: 565, col: 9, offset: 17411},
 							expr: &litMatcher{
-								pos:        position{line: 564, col: 10, offset: 17385},
+								pos:        position{line: 565, col: 10, offset: 17412},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 565, col: 5, offset: 17464},
+							pos:   position{line: 566, col: 5, offset: 17491},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 565, col: 14, offset: 17473},
+								pos:  position{line: 566, col: 14, offset: 17500},
 								name: "SingleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 566, col: 5, offset: 17512},
+							pos:        position{line: 567, col: 5, offset: 17539},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
@@ -13469,25 +13687,25 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValueContent",
-			pos:  position{line: 570, col: 1, offset: 17553},
+			pos:  position{line: 571, col: 1, offset: 17580},
 			expr: &actionExpr{
-				pos: position{line: 571, col: 5, offset: 17595},
+				pos: position{line: 572, col: 5, offset: 17622},
 				run: (*parser).callonSingleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 571, col: 5, offset: 17595},
+					pos:   position{line: 572, col: 5, offset: 17622},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 571, col: 14, offset: 17604},
+						pos: position{line: 572, col: 14, offset: 17631},
 						expr: &choiceExpr{
-							pos: position{line: 572, col: 9, offset: 17614},
+							pos: position{line: 573, col: 9, offset: 17641},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2794, col: 14, offset: 88623},
+									pos: position{line: 2795, col: 14, offset: 88652},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2794, col: 14, offset: 88623},
+										pos: position{line: 2795, col: 14, offset: 88652},
 										expr: &charClassMatcher{
-											pos:        position{line: 2794, col: 14, offset: 88623},
+											pos:        position{line: 2795, col: 14, offset: 88652},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13496,10 +13714,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2900, col: 10, offset: 91454},
+									pos: position{line: 2901, col: 10, offset: 91483},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2900, col: 10, offset: 91454},
+										pos:        position{line: 2901, col: 10, offset: 91483},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -13507,39 +13725,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 574, col: 11, offset: 17650},
+									pos:  position{line: 575, col: 11, offset: 17677},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 636, col: 5, offset: 20109},
+									pos: position{line: 637, col: 5, offset: 20136},
 									run: (*parser).callonSingleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 636, col: 5, offset: 20109},
+										pos: position{line: 637, col: 5, offset: 20136},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 636, col: 5, offset: 20109},
+												pos: position{line: 637, col: 5, offset: 20136},
 												run: (*parser).callonSingleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 639, col: 5, offset: 20181},
+												pos:   position{line: 640, col: 5, offset: 20208},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 639, col: 14, offset: 20190},
+													pos: position{line: 640, col: 14, offset: 20217},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 645, col: 5, offset: 20319},
+															pos: position{line: 646, col: 5, offset: 20346},
 															run: (*parser).callonSingleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 645, col: 5, offset: 20319},
+																pos: position{line: 646, col: 5, offset: 20346},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 645, col: 5, offset: 20319},
+																		pos:        position{line: 646, col: 5, offset: 20346},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 645, col: 13, offset: 20327},
+																		pos:   position{line: 646, col: 13, offset: 20354},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -13571,7 +13789,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 645, col: 32, offset: 20346},
+																		pos:        position{line: 646, col: 32, offset: 20373},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13580,19 +13798,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 652, col: 5, offset: 20587},
+															pos: position{line: 653, col: 5, offset: 20614},
 															run: (*parser).callonSingleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 652, col: 5, offset: 20587},
+																pos: position{line: 653, col: 5, offset: 20614},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 652, col: 5, offset: 20587},
+																		pos:        position{line: 653, col: 5, offset: 20614},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 652, col: 9, offset: 20591},
+																		pos:   position{line: 653, col: 9, offset: 20618},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -13624,7 +13842,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 652, col: 28, offset: 20610},
+																		pos:        position{line: 653, col: 28, offset: 20637},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13633,19 +13851,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 658, col: 25, offset: 20791},
+															pos: position{line: 659, col: 25, offset: 20818},
 															run: (*parser).callonSingleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 658, col: 25, offset: 20791},
+																pos: position{line: 659, col: 25, offset: 20818},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 658, col: 25, offset: 20791},
+																		pos:        position{line: 659, col: 25, offset: 20818},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 37, offset: 20803},
+																		pos:   position{line: 659, col: 37, offset: 20830},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -13677,33 +13895,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 56, offset: 20822},
+																		pos:   position{line: 659, col: 56, offset: 20849},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 658, col: 62, offset: 20828},
+																			pos: position{line: 659, col: 62, offset: 20855},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21123},
+																				pos: position{line: 667, col: 17, offset: 21152},
 																				run: (*parser).callonSingleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 667, col: 17, offset: 21152},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21123},
+																							pos:        position{line: 667, col: 17, offset: 21152},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21127},
+																							pos:   position{line: 667, col: 21, offset: 21156},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21134},
+																								pos: position{line: 667, col: 28, offset: 21163},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 667, col: 28, offset: 21163},
 																										run: (*parser).callonSingleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21134},
+																											pos:        position{line: 667, col: 28, offset: 21163},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -13711,12 +13929,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21188},
+																										pos: position{line: 669, col: 9, offset: 21217},
 																										run: (*parser).callonSingleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 669, col: 9, offset: 21217},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21188},
+																												pos:        position{line: 669, col: 9, offset: 21217},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -13733,7 +13951,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 658, col: 78, offset: 20844},
+																		pos:        position{line: 659, col: 78, offset: 20871},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13742,19 +13960,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 662, col: 25, offset: 20962},
+															pos: position{line: 663, col: 25, offset: 20989},
 															run: (*parser).callonSingleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 662, col: 25, offset: 20962},
+																pos: position{line: 663, col: 25, offset: 20989},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 662, col: 25, offset: 20962},
+																		pos:        position{line: 663, col: 25, offset: 20989},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 38, offset: 20975},
+																		pos:   position{line: 663, col: 38, offset: 21002},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -13786,33 +14004,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 57, offset: 20994},
+																		pos:   position{line: 663, col: 57, offset: 21021},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 662, col: 63, offset: 21000},
+																			pos: position{line: 663, col: 63, offset: 21027},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21123},
+																				pos: position{line: 667, col: 17, offset: 21152},
 																				run: (*parser).callonSingleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 667, col: 17, offset: 21152},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21123},
+																							pos:        position{line: 667, col: 17, offset: 21152},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21127},
+																							pos:   position{line: 667, col: 21, offset: 21156},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21134},
+																								pos: position{line: 667, col: 28, offset: 21163},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 667, col: 28, offset: 21163},
 																										run: (*parser).callonSingleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21134},
+																											pos:        position{line: 667, col: 28, offset: 21163},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -13820,12 +14038,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21188},
+																										pos: position{line: 669, col: 9, offset: 21217},
 																										run: (*parser).callonSingleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 669, col: 9, offset: 21217},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21188},
+																												pos:        position{line: 669, col: 9, offset: 21217},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -13842,7 +14060,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 662, col: 79, offset: 21016},
+																		pos:        position{line: 663, col: 79, offset: 21043},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13857,44 +14075,44 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 576, col: 12, offset: 17704},
+									pos: position{line: 577, col: 12, offset: 17731},
 									run: (*parser).callonSingleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 576, col: 12, offset: 17704},
+										pos:        position{line: 577, col: 12, offset: 17731},
 										val:        "\\'",
 										ignoreCase: false,
 										want:       "\"\\\\'\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 579, col: 13, offset: 17806},
+									pos:        position{line: 580, col: 13, offset: 17833},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 579, col: 20, offset: 17813},
+									pos:        position{line: 580, col: 20, offset: 17840},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&actionExpr{
-									pos: position{line: 579, col: 27, offset: 17820},
+									pos: position{line: 580, col: 27, offset: 17847},
 									run: (*parser).callonSingleQuotedAttributeValueContent84,
 									expr: &litMatcher{
-										pos:        position{line: 579, col: 27, offset: 17820},
+										pos:        position{line: 580, col: 27, offset: 17847},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 582, col: 12, offset: 17980},
+									pos: position{line: 583, col: 12, offset: 18007},
 									run: (*parser).callonSingleQuotedAttributeValueContent86,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 582, col: 12, offset: 17980},
+										pos: position{line: 583, col: 12, offset: 18007},
 										expr: &charClassMatcher{
-											pos:        position{line: 582, col: 12, offset: 17980},
+											pos:        position{line: 583, col: 12, offset: 18007},
 											val:        "[^\\r\\n\\\\\\ ]",
 											chars:      []rune{'\r', '\n', '\\', '\'', ' '},
 											ignoreCase: false,
@@ -13910,56 +14128,56 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValue",
-			pos:  position{line: 589, col: 1, offset: 18177},
+			pos:  position{line: 590, col: 1, offset: 18204},
 			expr: &actionExpr{
-				pos: position{line: 590, col: 5, offset: 18212},
+				pos: position{line: 591, col: 5, offset: 18239},
 				run: (*parser).callonDoubleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 590, col: 5, offset: 18212},
+					pos: position{line: 591, col: 5, offset: 18239},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 590, col: 5, offset: 18212},
+							pos:        position{line: 591, col: 5, offset: 18239},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&notExpr{
-							pos: position{line: 590, col: 10, offset: 18217},
+							pos: position{line: 591, col: 10, offset: 18244},
 							expr: &litMatcher{
-								pos:        position{line: 590, col: 11, offset: 18218},
+								pos:        position{line: 591, col: 11, offset: 18245},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 591, col: 5, offset: 18297},
+							pos:   position{line: 592, col: 5, offset: 18324},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 591, col: 14, offset: 18306},
+								pos:  position{line: 592, col: 14, offset: 18333},
 								name: "DoubleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 592, col: 5, offset: 18345},
+							pos:        position{line: 593, col: 5, offset: 18372},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&andExpr{
-							pos: position{line: 592, col: 10, offset: 18350},
+							pos: position{line: 593, col: 10, offset: 18377},
 							expr: &notExpr{
-								pos: position{line: 592, col: 12, offset: 18352},
+								pos: position{line: 593, col: 12, offset: 18379},
 								expr: &seqExpr{
-									pos: position{line: 592, col: 14, offset: 18354},
+									pos: position{line: 593, col: 14, offset: 18381},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 592, col: 14, offset: 18354},
+											pos: position{line: 593, col: 14, offset: 18381},
 											expr: &actionExpr{
-												pos: position{line: 2900, col: 10, offset: 91454},
+												pos: position{line: 2901, col: 10, offset: 91483},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2900, col: 10, offset: 91454},
+													pos:        position{line: 2901, col: 10, offset: 91483},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13968,7 +14186,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 592, col: 21, offset: 18361},
+											pos:        position{line: 593, col: 21, offset: 18388},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -13983,25 +14201,25 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValueContent",
-			pos:  position{line: 596, col: 1, offset: 18404},
+			pos:  position{line: 597, col: 1, offset: 18431},
 			expr: &actionExpr{
-				pos: position{line: 597, col: 5, offset: 18446},
+				pos: position{line: 598, col: 5, offset: 18473},
 				run: (*parser).callonDoubleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 597, col: 5, offset: 18446},
+					pos:   position{line: 598, col: 5, offset: 18473},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 597, col: 14, offset: 18455},
+						pos: position{line: 598, col: 14, offset: 18482},
 						expr: &choiceExpr{
-							pos: position{line: 598, col: 9, offset: 18465},
+							pos: position{line: 599, col: 9, offset: 18492},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2794, col: 14, offset: 88623},
+									pos: position{line: 2795, col: 14, offset: 88652},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2794, col: 14, offset: 88623},
+										pos: position{line: 2795, col: 14, offset: 88652},
 										expr: &charClassMatcher{
-											pos:        position{line: 2794, col: 14, offset: 88623},
+											pos:        position{line: 2795, col: 14, offset: 88652},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14010,10 +14228,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2900, col: 10, offset: 91454},
+									pos: position{line: 2901, col: 10, offset: 91483},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2900, col: 10, offset: 91454},
+										pos:        position{line: 2901, col: 10, offset: 91483},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14021,39 +14239,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 600, col: 11, offset: 18501},
+									pos:  position{line: 601, col: 11, offset: 18528},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 636, col: 5, offset: 20109},
+									pos: position{line: 637, col: 5, offset: 20136},
 									run: (*parser).callonDoubleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 636, col: 5, offset: 20109},
+										pos: position{line: 637, col: 5, offset: 20136},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 636, col: 5, offset: 20109},
+												pos: position{line: 637, col: 5, offset: 20136},
 												run: (*parser).callonDoubleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 639, col: 5, offset: 20181},
+												pos:   position{line: 640, col: 5, offset: 20208},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 639, col: 14, offset: 20190},
+													pos: position{line: 640, col: 14, offset: 20217},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 645, col: 5, offset: 20319},
+															pos: position{line: 646, col: 5, offset: 20346},
 															run: (*parser).callonDoubleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 645, col: 5, offset: 20319},
+																pos: position{line: 646, col: 5, offset: 20346},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 645, col: 5, offset: 20319},
+																		pos:        position{line: 646, col: 5, offset: 20346},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 645, col: 13, offset: 20327},
+																		pos:   position{line: 646, col: 13, offset: 20354},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14085,7 +14303,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 645, col: 32, offset: 20346},
+																		pos:        position{line: 646, col: 32, offset: 20373},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14094,19 +14312,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 652, col: 5, offset: 20587},
+															pos: position{line: 653, col: 5, offset: 20614},
 															run: (*parser).callonDoubleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 652, col: 5, offset: 20587},
+																pos: position{line: 653, col: 5, offset: 20614},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 652, col: 5, offset: 20587},
+																		pos:        position{line: 653, col: 5, offset: 20614},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 652, col: 9, offset: 20591},
+																		pos:   position{line: 653, col: 9, offset: 20618},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14138,7 +14356,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 652, col: 28, offset: 20610},
+																		pos:        position{line: 653, col: 28, offset: 20637},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14147,19 +14365,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 658, col: 25, offset: 20791},
+															pos: position{line: 659, col: 25, offset: 20818},
 															run: (*parser).callonDoubleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 658, col: 25, offset: 20791},
+																pos: position{line: 659, col: 25, offset: 20818},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 658, col: 25, offset: 20791},
+																		pos:        position{line: 659, col: 25, offset: 20818},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 37, offset: 20803},
+																		pos:   position{line: 659, col: 37, offset: 20830},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14191,33 +14409,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 56, offset: 20822},
+																		pos:   position{line: 659, col: 56, offset: 20849},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 658, col: 62, offset: 20828},
+																			pos: position{line: 659, col: 62, offset: 20855},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21123},
+																				pos: position{line: 667, col: 17, offset: 21152},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 667, col: 17, offset: 21152},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21123},
+																							pos:        position{line: 667, col: 17, offset: 21152},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21127},
+																							pos:   position{line: 667, col: 21, offset: 21156},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21134},
+																								pos: position{line: 667, col: 28, offset: 21163},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 667, col: 28, offset: 21163},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21134},
+																											pos:        position{line: 667, col: 28, offset: 21163},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14225,12 +14443,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21188},
+																										pos: position{line: 669, col: 9, offset: 21217},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 669, col: 9, offset: 21217},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21188},
+																												pos:        position{line: 669, col: 9, offset: 21217},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14247,7 +14465,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 658, col: 78, offset: 20844},
+																		pos:        position{line: 659, col: 78, offset: 20871},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14256,19 +14474,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 662, col: 25, offset: 20962},
+															pos: position{line: 663, col: 25, offset: 20989},
 															run: (*parser).callonDoubleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 662, col: 25, offset: 20962},
+																pos: position{line: 663, col: 25, offset: 20989},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 662, col: 25, offset: 20962},
+																		pos:        position{line: 663, col: 25, offset: 20989},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 38, offset: 20975},
+																		pos:   position{line: 663, col: 38, offset: 21002},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14300,33 +14518,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 57, offset: 20994},
+																		pos:   position{line: 663, col: 57, offset: 21021},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 662, col: 63, offset: 21000},
+																			pos: position{line: 663, col: 63, offset: 21027},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21123},
+																				pos: position{line: 667, col: 17, offset: 21152},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 667, col: 17, offset: 21152},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21123},
+																							pos:        position{line: 667, col: 17, offset: 21152},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21127},
+																							pos:   position{line: 667, col: 21, offset: 21156},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21134},
+																								pos: position{line: 667, col: 28, offset: 21163},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 667, col: 28, offset: 21163},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21134},
+																											pos:        position{line: 667, col: 28, offset: 21163},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14334,12 +14552,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21188},
+																										pos: position{line: 669, col: 9, offset: 21217},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 669, col: 9, offset: 21217},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21188},
+																												pos:        position{line: 669, col: 9, offset: 21217},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14356,7 +14574,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 662, col: 79, offset: 21016},
+																		pos:        position{line: 663, col: 79, offset: 21043},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14371,50 +14589,50 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 602, col: 12, offset: 18556},
+									pos: position{line: 603, col: 12, offset: 18583},
 									run: (*parser).callonDoubleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 602, col: 12, offset: 18556},
+										pos:        position{line: 603, col: 12, offset: 18583},
 										val:        "\\\"",
 										ignoreCase: false,
 										want:       "\"\\\\\\\"\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 13, offset: 18658},
+									pos:        position{line: 606, col: 13, offset: 18685},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 21, offset: 18666},
+									pos:        position{line: 606, col: 21, offset: 18693},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 29, offset: 18674},
+									pos:        position{line: 606, col: 29, offset: 18701},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&actionExpr{
-									pos: position{line: 605, col: 35, offset: 18680},
+									pos: position{line: 606, col: 35, offset: 18707},
 									run: (*parser).callonDoubleQuotedAttributeValueContent85,
 									expr: &litMatcher{
-										pos:        position{line: 605, col: 35, offset: 18680},
+										pos:        position{line: 606, col: 35, offset: 18707},
 										val:        "`",
 										ignoreCase: false,
 										want:       "\"`\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 608, col: 12, offset: 18863},
+									pos: position{line: 609, col: 12, offset: 18890},
 									run: (*parser).callonDoubleQuotedAttributeValueContent87,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 608, col: 12, offset: 18863},
+										pos: position{line: 609, col: 12, offset: 18890},
 										expr: &charClassMatcher{
-											pos:        position{line: 608, col: 12, offset: 18863},
+											pos:        position{line: 609, col: 12, offset: 18890},
 											val:        "[^\\r\\n\\\\\"` ]",
 											chars:      []rune{'\r', '\n', '\\', '"', '`', ' '},
 											ignoreCase: false,
@@ -14430,20 +14648,20 @@ var g = &grammar{
 		},
 		{
 			name: "UnquotedAttributeValue",
-			pos:  position{line: 616, col: 1, offset: 19137},
+			pos:  position{line: 617, col: 1, offset: 19164},
 			expr: &actionExpr{
-				pos: position{line: 619, col: 5, offset: 19321},
+				pos: position{line: 620, col: 5, offset: 19348},
 				run: (*parser).callonUnquotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 619, col: 5, offset: 19321},
+					pos: position{line: 620, col: 5, offset: 19348},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 619, col: 5, offset: 19321},
+							pos: position{line: 620, col: 5, offset: 19348},
 							expr: &actionExpr{
-								pos: position{line: 2900, col: 10, offset: 91454},
+								pos: position{line: 2901, col: 10, offset: 91483},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2900, col: 10, offset: 91454},
+									pos:        position{line: 2901, col: 10, offset: 91483},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14452,28 +14670,28 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 620, col: 5, offset: 19390},
+							pos:   position{line: 621, col: 5, offset: 19417},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 620, col: 14, offset: 19399},
+								pos: position{line: 621, col: 14, offset: 19426},
 								expr: &choiceExpr{
-									pos: position{line: 621, col: 9, offset: 19409},
+									pos: position{line: 622, col: 9, offset: 19436},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 621, col: 10, offset: 19410},
+											pos: position{line: 622, col: 10, offset: 19437},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 621, col: 10, offset: 19410},
+													pos:        position{line: 622, col: 10, offset: 19437},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
 												},
 												&ruleRefExpr{
-													pos:  position{line: 621, col: 14, offset: 19414},
+													pos:  position{line: 622, col: 14, offset: 19441},
 													name: "UnquotedAttributeValue",
 												},
 												&litMatcher{
-													pos:        position{line: 621, col: 37, offset: 19437},
+													pos:        position{line: 622, col: 37, offset: 19464},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
@@ -14481,35 +14699,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 636, col: 5, offset: 20109},
+											pos: position{line: 637, col: 5, offset: 20136},
 											run: (*parser).callonUnquotedAttributeValue13,
 											expr: &seqExpr{
-												pos: position{line: 636, col: 5, offset: 20109},
+												pos: position{line: 637, col: 5, offset: 20136},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 636, col: 5, offset: 20109},
+														pos: position{line: 637, col: 5, offset: 20136},
 														run: (*parser).callonUnquotedAttributeValue15,
 													},
 													&labeledExpr{
-														pos:   position{line: 639, col: 5, offset: 20181},
+														pos:   position{line: 640, col: 5, offset: 20208},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 639, col: 14, offset: 20190},
+															pos: position{line: 640, col: 14, offset: 20217},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 645, col: 5, offset: 20319},
+																	pos: position{line: 646, col: 5, offset: 20346},
 																	run: (*parser).callonUnquotedAttributeValue18,
 																	expr: &seqExpr{
-																		pos: position{line: 645, col: 5, offset: 20319},
+																		pos: position{line: 646, col: 5, offset: 20346},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 645, col: 5, offset: 20319},
+																				pos:        position{line: 646, col: 5, offset: 20346},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 645, col: 13, offset: 20327},
+																				pos:   position{line: 646, col: 13, offset: 20354},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -14541,7 +14759,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 645, col: 32, offset: 20346},
+																				pos:        position{line: 646, col: 32, offset: 20373},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14550,19 +14768,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 652, col: 5, offset: 20587},
+																	pos: position{line: 653, col: 5, offset: 20614},
 																	run: (*parser).callonUnquotedAttributeValue28,
 																	expr: &seqExpr{
-																		pos: position{line: 652, col: 5, offset: 20587},
+																		pos: position{line: 653, col: 5, offset: 20614},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 652, col: 5, offset: 20587},
+																				pos:        position{line: 653, col: 5, offset: 20614},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 652, col: 9, offset: 20591},
+																				pos:   position{line: 653, col: 9, offset: 20618},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -14594,7 +14812,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 652, col: 28, offset: 20610},
+																				pos:        position{line: 653, col: 28, offset: 20637},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14603,19 +14821,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 658, col: 25, offset: 20791},
+																	pos: position{line: 659, col: 25, offset: 20818},
 																	run: (*parser).callonUnquotedAttributeValue38,
 																	expr: &seqExpr{
-																		pos: position{line: 658, col: 25, offset: 20791},
+																		pos: position{line: 659, col: 25, offset: 20818},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 658, col: 25, offset: 20791},
+																				pos:        position{line: 659, col: 25, offset: 20818},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 37, offset: 20803},
+																				pos:   position{line: 659, col: 37, offset: 20830},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -14647,33 +14865,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 56, offset: 20822},
+																				pos:   position{line: 659, col: 56, offset: 20849},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 658, col: 62, offset: 20828},
+																					pos: position{line: 659, col: 62, offset: 20855},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 667, col: 17, offset: 21152},
 																						run: (*parser).callonUnquotedAttributeValue49,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21123},
+																							pos: position{line: 667, col: 17, offset: 21152},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21123},
+																									pos:        position{line: 667, col: 17, offset: 21152},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21127},
+																									pos:   position{line: 667, col: 21, offset: 21156},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 667, col: 28, offset: 21163},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 667, col: 28, offset: 21163},
 																												run: (*parser).callonUnquotedAttributeValue54,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21134},
+																													pos:        position{line: 667, col: 28, offset: 21163},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -14681,12 +14899,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 669, col: 9, offset: 21217},
 																												run: (*parser).callonUnquotedAttributeValue56,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21188},
+																													pos: position{line: 669, col: 9, offset: 21217},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21188},
+																														pos:        position{line: 669, col: 9, offset: 21217},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -14703,7 +14921,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 78, offset: 20844},
+																				pos:        position{line: 659, col: 78, offset: 20871},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14712,19 +14930,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 662, col: 25, offset: 20962},
+																	pos: position{line: 663, col: 25, offset: 20989},
 																	run: (*parser).callonUnquotedAttributeValue60,
 																	expr: &seqExpr{
-																		pos: position{line: 662, col: 25, offset: 20962},
+																		pos: position{line: 663, col: 25, offset: 20989},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 662, col: 25, offset: 20962},
+																				pos:        position{line: 663, col: 25, offset: 20989},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 38, offset: 20975},
+																				pos:   position{line: 663, col: 38, offset: 21002},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -14756,33 +14974,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 57, offset: 20994},
+																				pos:   position{line: 663, col: 57, offset: 21021},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 662, col: 63, offset: 21000},
+																					pos: position{line: 663, col: 63, offset: 21027},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 667, col: 17, offset: 21152},
 																						run: (*parser).callonUnquotedAttributeValue71,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21123},
+																							pos: position{line: 667, col: 17, offset: 21152},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21123},
+																									pos:        position{line: 667, col: 17, offset: 21152},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21127},
+																									pos:   position{line: 667, col: 21, offset: 21156},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 667, col: 28, offset: 21163},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 667, col: 28, offset: 21163},
 																												run: (*parser).callonUnquotedAttributeValue76,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21134},
+																													pos:        position{line: 667, col: 28, offset: 21163},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -14790,12 +15008,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 669, col: 9, offset: 21217},
 																												run: (*parser).callonUnquotedAttributeValue78,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21188},
+																													pos: position{line: 669, col: 9, offset: 21217},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21188},
+																														pos:        position{line: 669, col: 9, offset: 21217},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -14812,7 +15030,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 662, col: 79, offset: 21016},
+																				pos:        position{line: 663, col: 79, offset: 21043},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14827,16 +15045,16 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 622, col: 32, offset: 19524},
+											pos:        position{line: 623, col: 32, offset: 19551},
 											val:        "{",
 											ignoreCase: false,
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2900, col: 10, offset: 91454},
+											pos: position{line: 2901, col: 10, offset: 91483},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2900, col: 10, offset: 91454},
+												pos:        position{line: 2901, col: 10, offset: 91483},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14844,12 +15062,12 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 624, col: 12, offset: 19609},
+											pos: position{line: 625, col: 12, offset: 19636},
 											run: (*parser).callonUnquotedAttributeValue85,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 624, col: 12, offset: 19609},
+												pos: position{line: 625, col: 12, offset: 19636},
 												expr: &charClassMatcher{
-													pos:        position{line: 624, col: 12, offset: 19609},
+													pos:        position{line: 625, col: 12, offset: 19636},
 													val:        "[^=,]{ ]",
 													chars:      []rune{'=', ',', ']', '{', ' '},
 													ignoreCase: false,
@@ -14867,32 +15085,32 @@ var g = &grammar{
 		},
 		{
 			name: "CrossReference",
-			pos:  position{line: 684, col: 1, offset: 21750},
+			pos:  position{line: 685, col: 1, offset: 21779},
 			expr: &choiceExpr{
-				pos: position{line: 684, col: 19, offset: 21768},
+				pos: position{line: 685, col: 19, offset: 21797},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 686, col: 27, offset: 21844},
+						pos: position{line: 687, col: 27, offset: 21873},
 						run: (*parser).callonCrossReference2,
 						expr: &seqExpr{
-							pos: position{line: 686, col: 27, offset: 21844},
+							pos: position{line: 687, col: 27, offset: 21873},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 686, col: 27, offset: 21844},
+									pos:        position{line: 687, col: 27, offset: 21873},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 686, col: 32, offset: 21849},
+									pos:   position{line: 687, col: 32, offset: 21878},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2885, col: 7, offset: 91106},
+										pos: position{line: 2886, col: 7, offset: 91135},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2885, col: 7, offset: 91106},
+											pos: position{line: 2886, col: 7, offset: 91135},
 											expr: &charClassMatcher{
-												pos:        position{line: 2885, col: 7, offset: 91106},
+												pos:        position{line: 2886, col: 7, offset: 91135},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -14902,12 +15120,12 @@ var g = &grammar{
 									},
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 686, col: 40, offset: 21857},
+									pos: position{line: 687, col: 40, offset: 21886},
 									expr: &actionExpr{
-										pos: position{line: 2900, col: 10, offset: 91454},
+										pos: position{line: 2901, col: 10, offset: 91483},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2900, col: 10, offset: 91454},
+											pos:        position{line: 2901, col: 10, offset: 91483},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -14916,36 +15134,36 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 686, col: 47, offset: 21864},
+									pos:        position{line: 687, col: 47, offset: 21893},
 									val:        ",",
 									ignoreCase: false,
 									want:       "\",\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 686, col: 51, offset: 21868},
+									pos:   position{line: 687, col: 51, offset: 21897},
 									label: "label",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 696, col: 24, offset: 22269},
+										pos: position{line: 697, col: 24, offset: 22298},
 										expr: &choiceExpr{
-											pos: position{line: 697, col: 5, offset: 22275},
+											pos: position{line: 698, col: 5, offset: 22304},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 697, col: 6, offset: 22276},
+													pos: position{line: 698, col: 6, offset: 22305},
 													run: (*parser).callonCrossReference16,
 													expr: &seqExpr{
-														pos: position{line: 697, col: 6, offset: 22276},
+														pos: position{line: 698, col: 6, offset: 22305},
 														exprs: []interface{}{
 															&charClassMatcher{
-																pos:        position{line: 697, col: 6, offset: 22276},
+																pos:        position{line: 698, col: 6, offset: 22305},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
 																inverted:   false,
 															},
 															&oneOrMoreExpr{
-																pos: position{line: 697, col: 14, offset: 22284},
+																pos: position{line: 698, col: 14, offset: 22313},
 																expr: &charClassMatcher{
-																	pos:        position{line: 697, col: 14, offset: 22284},
+																	pos:        position{line: 698, col: 14, offset: 22313},
 																	val:        "[^\\r\\n{<>]",
 																	chars:      []rune{'\r', '\n', '{', '<', '>'},
 																	ignoreCase: false,
@@ -14956,19 +15174,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 645, col: 5, offset: 20319},
+													pos: position{line: 646, col: 5, offset: 20346},
 													run: (*parser).callonCrossReference21,
 													expr: &seqExpr{
-														pos: position{line: 645, col: 5, offset: 20319},
+														pos: position{line: 646, col: 5, offset: 20346},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 645, col: 5, offset: 20319},
+																pos:        position{line: 646, col: 5, offset: 20346},
 																val:        "\\{",
 																ignoreCase: false,
 																want:       "\"\\\\{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 645, col: 13, offset: 20327},
+																pos:   position{line: 646, col: 13, offset: 20354},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 318, col: 18, offset: 9736},
@@ -15000,7 +15218,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 645, col: 32, offset: 20346},
+																pos:        position{line: 646, col: 32, offset: 20373},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15009,19 +15227,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 652, col: 5, offset: 20587},
+													pos: position{line: 653, col: 5, offset: 20614},
 													run: (*parser).callonCrossReference31,
 													expr: &seqExpr{
-														pos: position{line: 652, col: 5, offset: 20587},
+														pos: position{line: 653, col: 5, offset: 20614},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 652, col: 5, offset: 20587},
+																pos:        position{line: 653, col: 5, offset: 20614},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 652, col: 9, offset: 20591},
+																pos:   position{line: 653, col: 9, offset: 20618},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 318, col: 18, offset: 9736},
@@ -15053,7 +15271,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 652, col: 28, offset: 20610},
+																pos:        position{line: 653, col: 28, offset: 20637},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15062,10 +15280,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 701, col: 8, offset: 22510},
+													pos: position{line: 702, col: 8, offset: 22539},
 													run: (*parser).callonCrossReference41,
 													expr: &litMatcher{
-														pos:        position{line: 701, col: 8, offset: 22510},
+														pos:        position{line: 702, col: 8, offset: 22539},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -15076,7 +15294,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 686, col: 79, offset: 21896},
+									pos:        position{line: 687, col: 79, offset: 21925},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15085,27 +15303,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 688, col: 9, offset: 21969},
+						pos: position{line: 689, col: 9, offset: 21998},
 						run: (*parser).callonCrossReference44,
 						expr: &seqExpr{
-							pos: position{line: 688, col: 9, offset: 21969},
+							pos: position{line: 689, col: 9, offset: 21998},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 688, col: 9, offset: 21969},
+									pos:        position{line: 689, col: 9, offset: 21998},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 688, col: 14, offset: 21974},
+									pos:   position{line: 689, col: 14, offset: 22003},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2885, col: 7, offset: 91106},
+										pos: position{line: 2886, col: 7, offset: 91135},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2885, col: 7, offset: 91106},
+											pos: position{line: 2886, col: 7, offset: 91135},
 											expr: &charClassMatcher{
-												pos:        position{line: 2885, col: 7, offset: 91106},
+												pos:        position{line: 2886, col: 7, offset: 91135},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15115,7 +15333,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 688, col: 22, offset: 21982},
+									pos:        position{line: 689, col: 22, offset: 22011},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15124,7 +15342,7 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 684, col: 44, offset: 21793},
+						pos:  position{line: 685, col: 44, offset: 21822},
 						name: "ExternalCrossReference",
 					},
 				},
@@ -15132,58 +15350,58 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalCrossReference",
-			pos:  position{line: 692, col: 1, offset: 22053},
+			pos:  position{line: 693, col: 1, offset: 22082},
 			expr: &actionExpr{
-				pos: position{line: 692, col: 27, offset: 22079},
+				pos: position{line: 693, col: 27, offset: 22108},
 				run: (*parser).callonExternalCrossReference1,
 				expr: &seqExpr{
-					pos: position{line: 692, col: 27, offset: 22079},
+					pos: position{line: 693, col: 27, offset: 22108},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 692, col: 27, offset: 22079},
+							pos:        position{line: 693, col: 27, offset: 22108},
 							val:        "xref:",
 							ignoreCase: false,
 							want:       "\"xref:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 692, col: 35, offset: 22087},
+							pos:   position{line: 693, col: 35, offset: 22116},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2854, col: 17, offset: 90117},
+								pos: position{line: 2855, col: 17, offset: 90146},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2854, col: 17, offset: 90117},
+									pos:   position{line: 2855, col: 17, offset: 90146},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2871, col: 5, offset: 90571},
+										pos: position{line: 2872, col: 5, offset: 90600},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2871, col: 5, offset: 90571},
+											pos:   position{line: 2872, col: 5, offset: 90600},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2871, col: 14, offset: 90580},
+												pos: position{line: 2872, col: 14, offset: 90609},
 												expr: &choiceExpr{
-													pos: position{line: 2872, col: 9, offset: 90590},
+													pos: position{line: 2873, col: 9, offset: 90619},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2872, col: 9, offset: 90590},
+															pos: position{line: 2873, col: 9, offset: 90619},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2872, col: 9, offset: 90590},
+																pos: position{line: 2873, col: 9, offset: 90619},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2872, col: 9, offset: 90590},
+																		pos: position{line: 2873, col: 9, offset: 90619},
 																		expr: &litMatcher{
-																			pos:        position{line: 2872, col: 10, offset: 90591},
+																			pos:        position{line: 2873, col: 10, offset: 90620},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2873, col: 9, offset: 90619},
+																		pos: position{line: 2874, col: 9, offset: 90648},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90620},
+																			pos:        position{line: 2874, col: 10, offset: 90649},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15194,27 +15412,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2876, col: 11, offset: 90832},
+															pos: position{line: 2877, col: 11, offset: 90861},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2876, col: 11, offset: 90832},
+																	pos:        position{line: 2877, col: 11, offset: 90861},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2876, col: 19, offset: 90840},
+																	pos: position{line: 2877, col: 19, offset: 90869},
 																	expr: &seqExpr{
-																		pos: position{line: 2876, col: 21, offset: 90842},
+																		pos: position{line: 2877, col: 21, offset: 90871},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2876, col: 21, offset: 90842},
+																				pos: position{line: 2877, col: 21, offset: 90871},
 																				expr: &actionExpr{
-																					pos: position{line: 2900, col: 10, offset: 91454},
+																					pos: position{line: 2901, col: 10, offset: 91483},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2900, col: 10, offset: 91454},
+																						pos:        position{line: 2901, col: 10, offset: 91483},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15223,11 +15441,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2876, col: 28, offset: 90849},
+																				pos: position{line: 2877, col: 28, offset: 90878},
 																				expr: &notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
@@ -15237,35 +15455,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 636, col: 5, offset: 20109},
+															pos: position{line: 637, col: 5, offset: 20136},
 															run: (*parser).callonExternalCrossReference27,
 															expr: &seqExpr{
-																pos: position{line: 636, col: 5, offset: 20109},
+																pos: position{line: 637, col: 5, offset: 20136},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 636, col: 5, offset: 20109},
+																		pos: position{line: 637, col: 5, offset: 20136},
 																		run: (*parser).callonExternalCrossReference29,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 639, col: 5, offset: 20181},
+																		pos:   position{line: 640, col: 5, offset: 20208},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 639, col: 14, offset: 20190},
+																			pos: position{line: 640, col: 14, offset: 20217},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 645, col: 5, offset: 20319},
+																					pos: position{line: 646, col: 5, offset: 20346},
 																					run: (*parser).callonExternalCrossReference32,
 																					expr: &seqExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
+																						pos: position{line: 646, col: 5, offset: 20346},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 645, col: 5, offset: 20319},
+																								pos:        position{line: 646, col: 5, offset: 20346},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 645, col: 13, offset: 20327},
+																								pos:   position{line: 646, col: 13, offset: 20354},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -15297,7 +15515,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 645, col: 32, offset: 20346},
+																								pos:        position{line: 646, col: 32, offset: 20373},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15306,19 +15524,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 652, col: 5, offset: 20587},
+																					pos: position{line: 653, col: 5, offset: 20614},
 																					run: (*parser).callonExternalCrossReference42,
 																					expr: &seqExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
+																						pos: position{line: 653, col: 5, offset: 20614},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 652, col: 5, offset: 20587},
+																								pos:        position{line: 653, col: 5, offset: 20614},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 652, col: 9, offset: 20591},
+																								pos:   position{line: 653, col: 9, offset: 20618},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -15350,7 +15568,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 652, col: 28, offset: 20610},
+																								pos:        position{line: 653, col: 28, offset: 20637},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15359,19 +15577,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 658, col: 25, offset: 20791},
+																					pos: position{line: 659, col: 25, offset: 20818},
 																					run: (*parser).callonExternalCrossReference52,
 																					expr: &seqExpr{
-																						pos: position{line: 658, col: 25, offset: 20791},
+																						pos: position{line: 659, col: 25, offset: 20818},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 658, col: 25, offset: 20791},
+																								pos:        position{line: 659, col: 25, offset: 20818},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 37, offset: 20803},
+																								pos:   position{line: 659, col: 37, offset: 20830},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -15403,33 +15621,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 56, offset: 20822},
+																								pos:   position{line: 659, col: 56, offset: 20849},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 658, col: 62, offset: 20828},
+																									pos: position{line: 659, col: 62, offset: 20855},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21123},
+																										pos: position{line: 667, col: 17, offset: 21152},
 																										run: (*parser).callonExternalCrossReference63,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21123},
+																											pos: position{line: 667, col: 17, offset: 21152},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21123},
+																													pos:        position{line: 667, col: 17, offset: 21152},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21127},
+																													pos:   position{line: 667, col: 21, offset: 21156},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 667, col: 28, offset: 21163},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 667, col: 28, offset: 21163},
 																																run: (*parser).callonExternalCrossReference68,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21134},
+																																	pos:        position{line: 667, col: 28, offset: 21163},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -15437,12 +15655,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21188},
+																																pos: position{line: 669, col: 9, offset: 21217},
 																																run: (*parser).callonExternalCrossReference70,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21188},
+																																	pos: position{line: 669, col: 9, offset: 21217},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21188},
+																																		pos:        position{line: 669, col: 9, offset: 21217},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -15459,7 +15677,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 658, col: 78, offset: 20844},
+																								pos:        position{line: 659, col: 78, offset: 20871},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15468,19 +15686,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 662, col: 25, offset: 20962},
+																					pos: position{line: 663, col: 25, offset: 20989},
 																					run: (*parser).callonExternalCrossReference74,
 																					expr: &seqExpr{
-																						pos: position{line: 662, col: 25, offset: 20962},
+																						pos: position{line: 663, col: 25, offset: 20989},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 662, col: 25, offset: 20962},
+																								pos:        position{line: 663, col: 25, offset: 20989},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 38, offset: 20975},
+																								pos:   position{line: 663, col: 38, offset: 21002},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -15512,33 +15730,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 57, offset: 20994},
+																								pos:   position{line: 663, col: 57, offset: 21021},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 662, col: 63, offset: 21000},
+																									pos: position{line: 663, col: 63, offset: 21027},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21123},
+																										pos: position{line: 667, col: 17, offset: 21152},
 																										run: (*parser).callonExternalCrossReference85,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21123},
+																											pos: position{line: 667, col: 17, offset: 21152},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21123},
+																													pos:        position{line: 667, col: 17, offset: 21152},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21127},
+																													pos:   position{line: 667, col: 21, offset: 21156},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 667, col: 28, offset: 21163},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 667, col: 28, offset: 21163},
 																																run: (*parser).callonExternalCrossReference90,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21134},
+																																	pos:        position{line: 667, col: 28, offset: 21163},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -15546,12 +15764,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21188},
+																																pos: position{line: 669, col: 9, offset: 21217},
 																																run: (*parser).callonExternalCrossReference92,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21188},
+																																	pos: position{line: 669, col: 9, offset: 21217},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21188},
+																																		pos:        position{line: 669, col: 9, offset: 21217},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -15568,7 +15786,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 662, col: 79, offset: 21016},
+																								pos:        position{line: 663, col: 79, offset: 21043},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15583,27 +15801,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1198, col: 23, offset: 36972},
+															pos: position{line: 1199, col: 23, offset: 37001},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1198, col: 23, offset: 36972},
+																pos: position{line: 1199, col: 23, offset: 37001},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36940},
+																		pos:        position{line: 1197, col: 32, offset: 36969},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1198, col: 51, offset: 37000},
+																		pos:   position{line: 1199, col: 51, offset: 37029},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1198, col: 56, offset: 37005},
+																			pos: position{line: 1199, col: 56, offset: 37034},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1198, col: 56, offset: 37005},
+																				pos: position{line: 1199, col: 56, offset: 37034},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1198, col: 56, offset: 37005},
+																					pos:        position{line: 1199, col: 56, offset: 37034},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -15613,7 +15831,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36940},
+																		pos:        position{line: 1197, col: 32, offset: 36969},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -15622,10 +15840,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2879, col: 11, offset: 90969},
+															pos: position{line: 2880, col: 11, offset: 90998},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2879, col: 11, offset: 90969},
+																pos:        position{line: 2880, col: 11, offset: 90998},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -15640,10 +15858,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 692, col: 54, offset: 22106},
+							pos:   position{line: 693, col: 54, offset: 22135},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 692, col: 66, offset: 22118},
+								pos:  position{line: 693, col: 66, offset: 22147},
 								name: "InlineAttributes",
 							},
 						},
@@ -15653,29 +15871,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 988, col: 1, offset: 30767},
+			pos:  position{line: 989, col: 1, offset: 30796},
 			expr: &actionExpr{
-				pos: position{line: 989, col: 5, offset: 30800},
+				pos: position{line: 990, col: 5, offset: 30829},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 989, col: 5, offset: 30800},
+					pos: position{line: 990, col: 5, offset: 30829},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 989, col: 5, offset: 30800},
+							pos:        position{line: 990, col: 5, offset: 30829},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 989, col: 11, offset: 30806},
+							pos:   position{line: 990, col: 11, offset: 30835},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2850, col: 14, offset: 90047},
+								pos: position{line: 2851, col: 14, offset: 90076},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2850, col: 14, offset: 90047},
+									pos: position{line: 2851, col: 14, offset: 90076},
 									expr: &charClassMatcher{
-										pos:        position{line: 2850, col: 14, offset: 90047},
+										pos:        position{line: 2851, col: 14, offset: 90076},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -15685,28 +15903,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2922, col: 8, offset: 91852},
+							pos: position{line: 2923, col: 8, offset: 91881},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2909, col: 12, offset: 91625},
+									pos: position{line: 2910, col: 12, offset: 91654},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2909, col: 13, offset: 91626},
+										pos: position{line: 2910, col: 13, offset: 91655},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2909, col: 13, offset: 91626},
+												pos:        position{line: 2910, col: 13, offset: 91655},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2909, col: 20, offset: 91633},
+												pos:        position{line: 2910, col: 20, offset: 91662},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2909, col: 29, offset: 91642},
+												pos:        position{line: 2910, col: 29, offset: 91671},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -15715,9 +15933,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2919, col: 8, offset: 91802},
+									pos: position{line: 2920, col: 8, offset: 91831},
 									expr: &anyMatcher{
-										line: 2919, col: 9, offset: 91803,
+										line: 2920, col: 9, offset: 91832,
 									},
 								},
 							},
@@ -15728,53 +15946,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1100, col: 1, offset: 33723},
+			pos:  position{line: 1101, col: 1, offset: 33752},
 			expr: &actionExpr{
-				pos: position{line: 1101, col: 5, offset: 33746},
+				pos: position{line: 1102, col: 5, offset: 33775},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1101, col: 5, offset: 33746},
+					pos: position{line: 1102, col: 5, offset: 33775},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1101, col: 5, offset: 33746},
+							pos: position{line: 1102, col: 5, offset: 33775},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1104, col: 5, offset: 33807},
+							pos: position{line: 1105, col: 5, offset: 33836},
 							expr: &choiceExpr{
-								pos: position{line: 1104, col: 6, offset: 33808},
+								pos: position{line: 1105, col: 6, offset: 33837},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2510, col: 22, offset: 80439},
+										pos: position{line: 2511, col: 22, offset: 80468},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2510, col: 22, offset: 80439},
+											pos: position{line: 2511, col: 22, offset: 80468},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2515, col: 31, offset: 80660},
+													pos:        position{line: 2516, col: 31, offset: 80689},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2515, col: 36, offset: 80665},
+													pos: position{line: 2516, col: 36, offset: 80694},
 													expr: &litMatcher{
-														pos:        position{line: 2515, col: 37, offset: 80666},
+														pos:        position{line: 2516, col: 37, offset: 80695},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2510, col: 49, offset: 80466},
+													pos:   position{line: 2511, col: 49, offset: 80495},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2846, col: 13, offset: 89980},
+														pos: position{line: 2847, col: 13, offset: 90009},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2846, col: 13, offset: 89980},
+															pos: position{line: 2847, col: 13, offset: 90009},
 															expr: &charClassMatcher{
-																pos:        position{line: 2846, col: 13, offset: 89980},
+																pos:        position{line: 2847, col: 13, offset: 90009},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -15784,28 +16002,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2922, col: 8, offset: 91852},
+													pos: position{line: 2923, col: 8, offset: 91881},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2909, col: 12, offset: 91625},
+															pos: position{line: 2910, col: 12, offset: 91654},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2909, col: 13, offset: 91626},
+																pos: position{line: 2910, col: 13, offset: 91655},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 13, offset: 91626},
+																		pos:        position{line: 2910, col: 13, offset: 91655},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 20, offset: 91633},
+																		pos:        position{line: 2910, col: 20, offset: 91662},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 29, offset: 91642},
+																		pos:        position{line: 2910, col: 29, offset: 91671},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -15814,9 +16032,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2919, col: 8, offset: 91802},
+															pos: position{line: 2920, col: 8, offset: 91831},
 															expr: &anyMatcher{
-																line: 2919, col: 9, offset: 91803,
+																line: 2920, col: 9, offset: 91832,
 															},
 														},
 													},
@@ -15825,36 +16043,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26324},
+										pos: position{line: 821, col: 5, offset: 26353},
 										run: (*parser).callonDocumentHeader23,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26324},
+											pos: position{line: 821, col: 5, offset: 26353},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23584},
+													pos: position{line: 741, col: 5, offset: 23613},
 													run: (*parser).callonDocumentHeader25,
 													expr: &seqExpr{
-														pos: position{line: 740, col: 5, offset: 23584},
+														pos: position{line: 741, col: 5, offset: 23613},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23584},
+																pos:   position{line: 741, col: 5, offset: 23613},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23595},
+																	pos: position{line: 741, col: 16, offset: 23624},
 																	run: (*parser).callonDocumentHeader28,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 16, offset: 23595},
+																		pos: position{line: 741, col: 16, offset: 23624},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23595},
+																				pos:        position{line: 741, col: 16, offset: 23624},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23602},
+																				pos: position{line: 741, col: 23, offset: 23631},
 																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23602},
+																					pos:        position{line: 741, col: 23, offset: 23631},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -15865,12 +16083,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23686},
+																pos: position{line: 743, col: 8, offset: 23715},
 																expr: &actionExpr{
-																	pos: position{line: 2900, col: 10, offset: 91454},
+																	pos: position{line: 2901, col: 10, offset: 91483},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2900, col: 10, offset: 91454},
+																		pos:        position{line: 2901, col: 10, offset: 91483},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -15879,28 +16097,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2922, col: 8, offset: 91852},
+																pos: position{line: 2923, col: 8, offset: 91881},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2909, col: 12, offset: 91625},
+																		pos: position{line: 2910, col: 12, offset: 91654},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2909, col: 13, offset: 91626},
+																			pos: position{line: 2910, col: 13, offset: 91655},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 13, offset: 91626},
+																					pos:        position{line: 2910, col: 13, offset: 91655},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 20, offset: 91633},
+																					pos:        position{line: 2910, col: 20, offset: 91662},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 29, offset: 91642},
+																					pos:        position{line: 2910, col: 29, offset: 91671},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -15909,9 +16127,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2919, col: 8, offset: 91802},
+																		pos: position{line: 2920, col: 8, offset: 91831},
 																		expr: &anyMatcher{
-																			line: 2919, col: 9, offset: 91803,
+																			line: 2920, col: 9, offset: 91832,
 																		},
 																	},
 																},
@@ -15920,46 +16138,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26355},
+													pos:   position{line: 822, col: 5, offset: 26384},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26641},
+														pos: position{line: 832, col: 5, offset: 26670},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26642},
+															pos: position{line: 832, col: 6, offset: 26671},
 															run: (*parser).callonDocumentHeader46,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26642},
+																pos: position{line: 832, col: 6, offset: 26671},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26642},
+																		pos: position{line: 832, col: 6, offset: 26671},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26584},
+																			pos: position{line: 829, col: 29, offset: 26613},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
+																					pos: position{line: 741, col: 5, offset: 23613},
 																					run: (*parser).callonDocumentHeader50,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
+																						pos: position{line: 741, col: 5, offset: 23613},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23584},
+																								pos:   position{line: 741, col: 5, offset: 23613},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
+																									pos: position{line: 741, col: 16, offset: 23624},
 																									run: (*parser).callonDocumentHeader53,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
+																										pos: position{line: 741, col: 16, offset: 23624},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23595},
+																												pos:        position{line: 741, col: 16, offset: 23624},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23602},
+																												pos: position{line: 741, col: 23, offset: 23631},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23602},
+																													pos:        position{line: 741, col: 23, offset: 23631},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -15970,12 +16188,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23686},
+																								pos: position{line: 743, col: 8, offset: 23715},
 																								expr: &actionExpr{
-																									pos: position{line: 2900, col: 10, offset: 91454},
+																									pos: position{line: 2901, col: 10, offset: 91483},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2900, col: 10, offset: 91454},
+																										pos:        position{line: 2901, col: 10, offset: 91483},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -15984,28 +16202,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2922, col: 8, offset: 91852},
+																								pos: position{line: 2923, col: 8, offset: 91881},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2909, col: 12, offset: 91625},
+																										pos: position{line: 2910, col: 12, offset: 91654},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2909, col: 13, offset: 91626},
+																											pos: position{line: 2910, col: 13, offset: 91655},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 13, offset: 91626},
+																													pos:        position{line: 2910, col: 13, offset: 91655},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 20, offset: 91633},
+																													pos:        position{line: 2910, col: 20, offset: 91662},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 29, offset: 91642},
+																													pos:        position{line: 2910, col: 29, offset: 91671},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16014,9 +16232,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2919, col: 8, offset: 91802},
+																										pos: position{line: 2920, col: 8, offset: 91831},
 																										expr: &anyMatcher{
-																											line: 2919, col: 9, offset: 91803,
+																											line: 2920, col: 9, offset: 91832,
 																										},
 																									},
 																								},
@@ -16025,39 +16243,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26672},
+																		pos:   position{line: 833, col: 5, offset: 26701},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 812, col: 5, offset: 26117},
 																			run: (*parser).callonDocumentHeader72,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 812, col: 5, offset: 26117},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2917, col: 11, offset: 91788},
+																						pos: position{line: 2918, col: 11, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2917, col: 13, offset: 91790,
+																							line: 2918, col: 13, offset: 91819,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 813, col: 5, offset: 26192},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2846, col: 13, offset: 89980},
+																							pos: position{line: 2847, col: 13, offset: 90009},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2846, col: 13, offset: 89980},
+																								pos: position{line: 2847, col: 13, offset: 90009},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2846, col: 13, offset: 89980},
+																									pos:        position{line: 2847, col: 13, offset: 90009},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16067,28 +16285,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2922, col: 8, offset: 91852},
+																						pos: position{line: 2923, col: 8, offset: 91881},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2909, col: 12, offset: 91625},
+																								pos: position{line: 2910, col: 12, offset: 91654},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2909, col: 13, offset: 91626},
+																									pos: position{line: 2910, col: 13, offset: 91655},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 13, offset: 91626},
+																											pos:        position{line: 2910, col: 13, offset: 91655},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 20, offset: 91633},
+																											pos:        position{line: 2910, col: 20, offset: 91662},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 29, offset: 91642},
+																											pos:        position{line: 2910, col: 29, offset: 91671},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16097,9 +16315,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2919, col: 8, offset: 91802},
+																								pos: position{line: 2920, col: 8, offset: 91831},
 																								expr: &anyMatcher{
-																									line: 2919, col: 9, offset: 91803,
+																									line: 2920, col: 9, offset: 91832,
 																								},
 																							},
 																						},
@@ -16114,35 +16332,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26389},
+													pos: position{line: 823, col: 5, offset: 26418},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26584},
+														pos: position{line: 829, col: 29, offset: 26613},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23584},
+																pos: position{line: 741, col: 5, offset: 23613},
 																run: (*parser).callonDocumentHeader90,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
+																	pos: position{line: 741, col: 5, offset: 23613},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23584},
+																			pos:   position{line: 741, col: 5, offset: 23613},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23595},
+																				pos: position{line: 741, col: 16, offset: 23624},
 																				run: (*parser).callonDocumentHeader93,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
+																					pos: position{line: 741, col: 16, offset: 23624},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23595},
+																							pos:        position{line: 741, col: 16, offset: 23624},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23602},
+																							pos: position{line: 741, col: 23, offset: 23631},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23602},
+																								pos:        position{line: 741, col: 23, offset: 23631},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -16153,12 +16371,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23686},
+																			pos: position{line: 743, col: 8, offset: 23715},
 																			expr: &actionExpr{
-																				pos: position{line: 2900, col: 10, offset: 91454},
+																				pos: position{line: 2901, col: 10, offset: 91483},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2900, col: 10, offset: 91454},
+																					pos:        position{line: 2901, col: 10, offset: 91483},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16167,28 +16385,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2922, col: 8, offset: 91852},
+																			pos: position{line: 2923, col: 8, offset: 91881},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2909, col: 12, offset: 91625},
+																					pos: position{line: 2910, col: 12, offset: 91654},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2909, col: 13, offset: 91626},
+																						pos: position{line: 2910, col: 13, offset: 91655},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 13, offset: 91626},
+																								pos:        position{line: 2910, col: 13, offset: 91655},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 20, offset: 91633},
+																								pos:        position{line: 2910, col: 20, offset: 91662},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 29, offset: 91642},
+																								pos:        position{line: 2910, col: 29, offset: 91671},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16197,9 +16415,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
@@ -16208,9 +16426,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2919, col: 8, offset: 91802},
+																pos: position{line: 2920, col: 8, offset: 91831},
 																expr: &anyMatcher{
-																	line: 2919, col: 9, offset: 91803,
+																	line: 2920, col: 9, offset: 91832,
 																},
 															},
 														},
@@ -16223,49 +16441,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1105, col: 5, offset: 33904},
+							pos:   position{line: 1106, col: 5, offset: 33933},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1105, col: 12, offset: 33911},
+								pos:  position{line: 1106, col: 12, offset: 33940},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1106, col: 5, offset: 33930},
+							pos: position{line: 1107, col: 5, offset: 33959},
 							expr: &choiceExpr{
-								pos: position{line: 1106, col: 6, offset: 33931},
+								pos: position{line: 1107, col: 6, offset: 33960},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2510, col: 22, offset: 80439},
+										pos: position{line: 2511, col: 22, offset: 80468},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2510, col: 22, offset: 80439},
+											pos: position{line: 2511, col: 22, offset: 80468},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2515, col: 31, offset: 80660},
+													pos:        position{line: 2516, col: 31, offset: 80689},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2515, col: 36, offset: 80665},
+													pos: position{line: 2516, col: 36, offset: 80694},
 													expr: &litMatcher{
-														pos:        position{line: 2515, col: 37, offset: 80666},
+														pos:        position{line: 2516, col: 37, offset: 80695},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2510, col: 49, offset: 80466},
+													pos:   position{line: 2511, col: 49, offset: 80495},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2846, col: 13, offset: 89980},
+														pos: position{line: 2847, col: 13, offset: 90009},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2846, col: 13, offset: 89980},
+															pos: position{line: 2847, col: 13, offset: 90009},
 															expr: &charClassMatcher{
-																pos:        position{line: 2846, col: 13, offset: 89980},
+																pos:        position{line: 2847, col: 13, offset: 90009},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16275,28 +16493,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2922, col: 8, offset: 91852},
+													pos: position{line: 2923, col: 8, offset: 91881},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2909, col: 12, offset: 91625},
+															pos: position{line: 2910, col: 12, offset: 91654},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2909, col: 13, offset: 91626},
+																pos: position{line: 2910, col: 13, offset: 91655},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 13, offset: 91626},
+																		pos:        position{line: 2910, col: 13, offset: 91655},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 20, offset: 91633},
+																		pos:        position{line: 2910, col: 20, offset: 91662},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 29, offset: 91642},
+																		pos:        position{line: 2910, col: 29, offset: 91671},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16305,9 +16523,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2919, col: 8, offset: 91802},
+															pos: position{line: 2920, col: 8, offset: 91831},
 															expr: &anyMatcher{
-																line: 2919, col: 9, offset: 91803,
+																line: 2920, col: 9, offset: 91832,
 															},
 														},
 													},
@@ -16316,36 +16534,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26324},
+										pos: position{line: 821, col: 5, offset: 26353},
 										run: (*parser).callonDocumentHeader132,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26324},
+											pos: position{line: 821, col: 5, offset: 26353},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23584},
+													pos: position{line: 741, col: 5, offset: 23613},
 													run: (*parser).callonDocumentHeader134,
 													expr: &seqExpr{
-														pos: position{line: 740, col: 5, offset: 23584},
+														pos: position{line: 741, col: 5, offset: 23613},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23584},
+																pos:   position{line: 741, col: 5, offset: 23613},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23595},
+																	pos: position{line: 741, col: 16, offset: 23624},
 																	run: (*parser).callonDocumentHeader137,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 16, offset: 23595},
+																		pos: position{line: 741, col: 16, offset: 23624},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23595},
+																				pos:        position{line: 741, col: 16, offset: 23624},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23602},
+																				pos: position{line: 741, col: 23, offset: 23631},
 																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23602},
+																					pos:        position{line: 741, col: 23, offset: 23631},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -16356,12 +16574,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23686},
+																pos: position{line: 743, col: 8, offset: 23715},
 																expr: &actionExpr{
-																	pos: position{line: 2900, col: 10, offset: 91454},
+																	pos: position{line: 2901, col: 10, offset: 91483},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2900, col: 10, offset: 91454},
+																		pos:        position{line: 2901, col: 10, offset: 91483},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16370,28 +16588,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2922, col: 8, offset: 91852},
+																pos: position{line: 2923, col: 8, offset: 91881},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2909, col: 12, offset: 91625},
+																		pos: position{line: 2910, col: 12, offset: 91654},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2909, col: 13, offset: 91626},
+																			pos: position{line: 2910, col: 13, offset: 91655},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 13, offset: 91626},
+																					pos:        position{line: 2910, col: 13, offset: 91655},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 20, offset: 91633},
+																					pos:        position{line: 2910, col: 20, offset: 91662},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 29, offset: 91642},
+																					pos:        position{line: 2910, col: 29, offset: 91671},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16400,9 +16618,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2919, col: 8, offset: 91802},
+																		pos: position{line: 2920, col: 8, offset: 91831},
 																		expr: &anyMatcher{
-																			line: 2919, col: 9, offset: 91803,
+																			line: 2920, col: 9, offset: 91832,
 																		},
 																	},
 																},
@@ -16411,46 +16629,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26355},
+													pos:   position{line: 822, col: 5, offset: 26384},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26641},
+														pos: position{line: 832, col: 5, offset: 26670},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26642},
+															pos: position{line: 832, col: 6, offset: 26671},
 															run: (*parser).callonDocumentHeader155,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26642},
+																pos: position{line: 832, col: 6, offset: 26671},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26642},
+																		pos: position{line: 832, col: 6, offset: 26671},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26584},
+																			pos: position{line: 829, col: 29, offset: 26613},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
+																					pos: position{line: 741, col: 5, offset: 23613},
 																					run: (*parser).callonDocumentHeader159,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
+																						pos: position{line: 741, col: 5, offset: 23613},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23584},
+																								pos:   position{line: 741, col: 5, offset: 23613},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
+																									pos: position{line: 741, col: 16, offset: 23624},
 																									run: (*parser).callonDocumentHeader162,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
+																										pos: position{line: 741, col: 16, offset: 23624},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23595},
+																												pos:        position{line: 741, col: 16, offset: 23624},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23602},
+																												pos: position{line: 741, col: 23, offset: 23631},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23602},
+																													pos:        position{line: 741, col: 23, offset: 23631},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -16461,12 +16679,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23686},
+																								pos: position{line: 743, col: 8, offset: 23715},
 																								expr: &actionExpr{
-																									pos: position{line: 2900, col: 10, offset: 91454},
+																									pos: position{line: 2901, col: 10, offset: 91483},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2900, col: 10, offset: 91454},
+																										pos:        position{line: 2901, col: 10, offset: 91483},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16475,28 +16693,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2922, col: 8, offset: 91852},
+																								pos: position{line: 2923, col: 8, offset: 91881},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2909, col: 12, offset: 91625},
+																										pos: position{line: 2910, col: 12, offset: 91654},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2909, col: 13, offset: 91626},
+																											pos: position{line: 2910, col: 13, offset: 91655},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 13, offset: 91626},
+																													pos:        position{line: 2910, col: 13, offset: 91655},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 20, offset: 91633},
+																													pos:        position{line: 2910, col: 20, offset: 91662},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 29, offset: 91642},
+																													pos:        position{line: 2910, col: 29, offset: 91671},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16505,9 +16723,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2919, col: 8, offset: 91802},
+																										pos: position{line: 2920, col: 8, offset: 91831},
 																										expr: &anyMatcher{
-																											line: 2919, col: 9, offset: 91803,
+																											line: 2920, col: 9, offset: 91832,
 																										},
 																									},
 																								},
@@ -16516,39 +16734,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26672},
+																		pos:   position{line: 833, col: 5, offset: 26701},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 812, col: 5, offset: 26117},
 																			run: (*parser).callonDocumentHeader181,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 812, col: 5, offset: 26117},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2917, col: 11, offset: 91788},
+																						pos: position{line: 2918, col: 11, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2917, col: 13, offset: 91790,
+																							line: 2918, col: 13, offset: 91819,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 813, col: 5, offset: 26192},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2846, col: 13, offset: 89980},
+																							pos: position{line: 2847, col: 13, offset: 90009},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2846, col: 13, offset: 89980},
+																								pos: position{line: 2847, col: 13, offset: 90009},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2846, col: 13, offset: 89980},
+																									pos:        position{line: 2847, col: 13, offset: 90009},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16558,28 +16776,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2922, col: 8, offset: 91852},
+																						pos: position{line: 2923, col: 8, offset: 91881},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2909, col: 12, offset: 91625},
+																								pos: position{line: 2910, col: 12, offset: 91654},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2909, col: 13, offset: 91626},
+																									pos: position{line: 2910, col: 13, offset: 91655},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 13, offset: 91626},
+																											pos:        position{line: 2910, col: 13, offset: 91655},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 20, offset: 91633},
+																											pos:        position{line: 2910, col: 20, offset: 91662},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 29, offset: 91642},
+																											pos:        position{line: 2910, col: 29, offset: 91671},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16588,9 +16806,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2919, col: 8, offset: 91802},
+																								pos: position{line: 2920, col: 8, offset: 91831},
 																								expr: &anyMatcher{
-																									line: 2919, col: 9, offset: 91803,
+																									line: 2920, col: 9, offset: 91832,
 																								},
 																							},
 																						},
@@ -16605,35 +16823,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26389},
+													pos: position{line: 823, col: 5, offset: 26418},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26584},
+														pos: position{line: 829, col: 29, offset: 26613},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23584},
+																pos: position{line: 741, col: 5, offset: 23613},
 																run: (*parser).callonDocumentHeader199,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
+																	pos: position{line: 741, col: 5, offset: 23613},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23584},
+																			pos:   position{line: 741, col: 5, offset: 23613},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23595},
+																				pos: position{line: 741, col: 16, offset: 23624},
 																				run: (*parser).callonDocumentHeader202,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
+																					pos: position{line: 741, col: 16, offset: 23624},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23595},
+																							pos:        position{line: 741, col: 16, offset: 23624},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23602},
+																							pos: position{line: 741, col: 23, offset: 23631},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23602},
+																								pos:        position{line: 741, col: 23, offset: 23631},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -16644,12 +16862,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23686},
+																			pos: position{line: 743, col: 8, offset: 23715},
 																			expr: &actionExpr{
-																				pos: position{line: 2900, col: 10, offset: 91454},
+																				pos: position{line: 2901, col: 10, offset: 91483},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2900, col: 10, offset: 91454},
+																					pos:        position{line: 2901, col: 10, offset: 91483},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16658,28 +16876,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2922, col: 8, offset: 91852},
+																			pos: position{line: 2923, col: 8, offset: 91881},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2909, col: 12, offset: 91625},
+																					pos: position{line: 2910, col: 12, offset: 91654},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2909, col: 13, offset: 91626},
+																						pos: position{line: 2910, col: 13, offset: 91655},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 13, offset: 91626},
+																								pos:        position{line: 2910, col: 13, offset: 91655},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 20, offset: 91633},
+																								pos:        position{line: 2910, col: 20, offset: 91662},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 29, offset: 91642},
+																								pos:        position{line: 2910, col: 29, offset: 91671},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16688,9 +16906,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
@@ -16699,9 +16917,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2919, col: 8, offset: 91802},
+																pos: position{line: 2920, col: 8, offset: 91831},
 																expr: &anyMatcher{
-																	line: 2919, col: 9, offset: 91803,
+																	line: 2920, col: 9, offset: 91832,
 																},
 															},
 														},
@@ -16714,41 +16932,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1107, col: 5, offset: 34027},
+							pos:   position{line: 1108, col: 5, offset: 34056},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1107, col: 24, offset: 34046},
+								pos: position{line: 1108, col: 24, offset: 34075},
 								expr: &actionExpr{
-									pos: position{line: 1118, col: 5, offset: 34421},
+									pos: position{line: 1119, col: 5, offset: 34450},
 									run: (*parser).callonDocumentHeader222,
 									expr: &seqExpr{
-										pos: position{line: 1118, col: 5, offset: 34421},
+										pos: position{line: 1119, col: 5, offset: 34450},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1118, col: 5, offset: 34421},
+												pos: position{line: 1119, col: 5, offset: 34450},
 												expr: &litMatcher{
-													pos:        position{line: 1118, col: 6, offset: 34422},
+													pos:        position{line: 1119, col: 6, offset: 34451},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1119, col: 5, offset: 34430},
+												pos:   position{line: 1120, col: 5, offset: 34459},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1125, col: 20, offset: 34686},
+													pos: position{line: 1126, col: 20, offset: 34715},
 													run: (*parser).callonDocumentHeader227,
 													expr: &seqExpr{
-														pos: position{line: 1125, col: 20, offset: 34686},
+														pos: position{line: 1126, col: 20, offset: 34715},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1125, col: 20, offset: 34686},
+																pos: position{line: 1126, col: 20, offset: 34715},
 																expr: &actionExpr{
-																	pos: position{line: 2900, col: 10, offset: 91454},
+																	pos: position{line: 2901, col: 10, offset: 91483},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2900, col: 10, offset: 91454},
+																		pos:        position{line: 2901, col: 10, offset: 91483},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16757,37 +16975,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1125, col: 27, offset: 34693},
+																pos:   position{line: 1126, col: 27, offset: 34722},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1125, col: 36, offset: 34702},
+																	pos: position{line: 1126, col: 36, offset: 34731},
 																	expr: &actionExpr{
-																		pos: position{line: 1130, col: 5, offset: 34815},
+																		pos: position{line: 1131, col: 5, offset: 34844},
 																		run: (*parser).callonDocumentHeader234,
 																		expr: &seqExpr{
-																			pos: position{line: 1130, col: 5, offset: 34815},
+																			pos: position{line: 1131, col: 5, offset: 34844},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1130, col: 5, offset: 34815},
+																					pos:   position{line: 1131, col: 5, offset: 34844},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1130, col: 14, offset: 34824},
+																						pos: position{line: 1131, col: 14, offset: 34853},
 																						expr: &actionExpr{
-																							pos: position{line: 1141, col: 5, offset: 35204},
+																							pos: position{line: 1142, col: 5, offset: 35233},
 																							run: (*parser).callonDocumentHeader238,
 																							expr: &seqExpr{
-																								pos: position{line: 1141, col: 5, offset: 35204},
+																								pos: position{line: 1142, col: 5, offset: 35233},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1141, col: 5, offset: 35204},
+																										pos:   position{line: 1142, col: 5, offset: 35233},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1141, col: 12, offset: 35211},
+																											pos: position{line: 1142, col: 12, offset: 35240},
 																											run: (*parser).callonDocumentHeader241,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1141, col: 12, offset: 35211},
+																												pos: position{line: 1142, col: 12, offset: 35240},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1141, col: 12, offset: 35211},
+																													pos:        position{line: 1142, col: 12, offset: 35240},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -16797,12 +17015,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1144, col: 5, offset: 35291},
+																										pos: position{line: 1145, col: 5, offset: 35320},
 																										expr: &actionExpr{
-																											pos: position{line: 2900, col: 10, offset: 91454},
+																											pos: position{line: 2901, col: 10, offset: 91483},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2900, col: 10, offset: 91454},
+																												pos:        position{line: 2901, col: 10, offset: 91483},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16811,17 +17029,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1145, col: 5, offset: 35302},
+																										pos:   position{line: 1146, col: 5, offset: 35331},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1145, col: 11, offset: 35308},
+																											pos: position{line: 1146, col: 11, offset: 35337},
 																											expr: &actionExpr{
-																												pos: position{line: 1145, col: 12, offset: 35309},
+																												pos: position{line: 1146, col: 12, offset: 35338},
 																												run: (*parser).callonDocumentHeader249,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1145, col: 12, offset: 35309},
+																													pos: position{line: 1146, col: 12, offset: 35338},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1145, col: 12, offset: 35309},
+																														pos:        position{line: 1146, col: 12, offset: 35338},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -16832,12 +17050,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1148, col: 5, offset: 35390},
+																										pos: position{line: 1149, col: 5, offset: 35419},
 																										expr: &actionExpr{
-																											pos: position{line: 2900, col: 10, offset: 91454},
+																											pos: position{line: 2901, col: 10, offset: 91483},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2900, col: 10, offset: 91454},
+																												pos:        position{line: 2901, col: 10, offset: 91483},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16846,17 +17064,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1149, col: 5, offset: 35401},
+																										pos:   position{line: 1150, col: 5, offset: 35430},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1149, col: 11, offset: 35407},
+																											pos: position{line: 1150, col: 11, offset: 35436},
 																											expr: &actionExpr{
-																												pos: position{line: 1149, col: 12, offset: 35408},
+																												pos: position{line: 1150, col: 12, offset: 35437},
 																												run: (*parser).callonDocumentHeader257,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1149, col: 12, offset: 35408},
+																													pos: position{line: 1150, col: 12, offset: 35437},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1149, col: 12, offset: 35408},
+																														pos:        position{line: 1150, col: 12, offset: 35437},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -16867,12 +17085,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1152, col: 5, offset: 35487},
+																										pos: position{line: 1153, col: 5, offset: 35516},
 																										expr: &actionExpr{
-																											pos: position{line: 2900, col: 10, offset: 91454},
+																											pos: position{line: 2901, col: 10, offset: 91483},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2900, col: 10, offset: 91454},
+																												pos:        position{line: 2901, col: 10, offset: 91483},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16886,38 +17104,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1130, col: 40, offset: 34850},
+																					pos:   position{line: 1131, col: 40, offset: 34879},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1130, col: 46, offset: 34856},
+																						pos: position{line: 1131, col: 46, offset: 34885},
 																						expr: &actionExpr{
-																							pos: position{line: 1158, col: 5, offset: 35609},
+																							pos: position{line: 1159, col: 5, offset: 35638},
 																							run: (*parser).callonDocumentHeader265,
 																							expr: &seqExpr{
-																								pos: position{line: 1158, col: 5, offset: 35609},
+																								pos: position{line: 1159, col: 5, offset: 35638},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2917, col: 11, offset: 91788},
+																										pos: position{line: 2918, col: 11, offset: 91817},
 																										expr: &anyMatcher{
-																											line: 2917, col: 13, offset: 91790,
+																											line: 2918, col: 13, offset: 91819,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1159, col: 5, offset: 35621},
+																										pos:        position{line: 1160, col: 5, offset: 35650},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1160, col: 5, offset: 35630},
+																										pos:   position{line: 1161, col: 5, offset: 35659},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1160, col: 12, offset: 35637},
+																											pos: position{line: 1161, col: 12, offset: 35666},
 																											run: (*parser).callonDocumentHeader271,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1160, col: 13, offset: 35638},
+																												pos: position{line: 1161, col: 13, offset: 35667},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1160, col: 13, offset: 35638},
+																													pos:        position{line: 1161, col: 13, offset: 35667},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -16927,7 +17145,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1163, col: 5, offset: 35698},
+																										pos:        position{line: 1164, col: 5, offset: 35727},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -16938,12 +17156,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1130, col: 69, offset: 34879},
+																					pos: position{line: 1131, col: 69, offset: 34908},
 																					expr: &actionExpr{
-																						pos: position{line: 2900, col: 10, offset: 91454},
+																						pos: position{line: 2901, col: 10, offset: 91483},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2900, col: 10, offset: 91454},
+																							pos:        position{line: 2901, col: 10, offset: 91483},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -16952,21 +17170,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1130, col: 76, offset: 34886},
+																					pos: position{line: 1131, col: 76, offset: 34915},
 																					expr: &litMatcher{
-																						pos:        position{line: 1130, col: 76, offset: 34886},
+																						pos:        position{line: 1131, col: 76, offset: 34915},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1130, col: 81, offset: 34891},
+																					pos: position{line: 1131, col: 81, offset: 34920},
 																					expr: &actionExpr{
-																						pos: position{line: 2900, col: 10, offset: 91454},
+																						pos: position{line: 2901, col: 10, offset: 91483},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2900, col: 10, offset: 91454},
+																							pos:        position{line: 2901, col: 10, offset: 91483},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -16975,7 +17193,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1131, col: 5, offset: 34903},
+																					pos: position{line: 1132, col: 5, offset: 34932},
 																					run: (*parser).callonDocumentHeader283,
 																				},
 																			},
@@ -16984,28 +17202,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2922, col: 8, offset: 91852},
+																pos: position{line: 2923, col: 8, offset: 91881},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2909, col: 12, offset: 91625},
+																		pos: position{line: 2910, col: 12, offset: 91654},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2909, col: 13, offset: 91626},
+																			pos: position{line: 2910, col: 13, offset: 91655},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 13, offset: 91626},
+																					pos:        position{line: 2910, col: 13, offset: 91655},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 20, offset: 91633},
+																					pos:        position{line: 2910, col: 20, offset: 91662},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 29, offset: 91642},
+																					pos:        position{line: 2910, col: 29, offset: 91671},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17014,9 +17232,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2919, col: 8, offset: 91802},
+																		pos: position{line: 2920, col: 8, offset: 91831},
 																		expr: &anyMatcher{
-																			line: 2919, col: 9, offset: 91803,
+																			line: 2920, col: 9, offset: 91832,
 																		},
 																	},
 																},
@@ -17026,41 +17244,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1120, col: 5, offset: 34460},
+												pos: position{line: 1121, col: 5, offset: 34489},
 												expr: &choiceExpr{
-													pos: position{line: 1120, col: 6, offset: 34461},
+													pos: position{line: 1121, col: 6, offset: 34490},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2510, col: 22, offset: 80439},
+															pos: position{line: 2511, col: 22, offset: 80468},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2510, col: 22, offset: 80439},
+																pos: position{line: 2511, col: 22, offset: 80468},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2515, col: 31, offset: 80660},
+																		pos:        position{line: 2516, col: 31, offset: 80689},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2515, col: 36, offset: 80665},
+																		pos: position{line: 2516, col: 36, offset: 80694},
 																		expr: &litMatcher{
-																			pos:        position{line: 2515, col: 37, offset: 80666},
+																			pos:        position{line: 2516, col: 37, offset: 80695},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2510, col: 49, offset: 80466},
+																		pos:   position{line: 2511, col: 49, offset: 80495},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2846, col: 13, offset: 89980},
+																			pos: position{line: 2847, col: 13, offset: 90009},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2846, col: 13, offset: 89980},
+																				pos: position{line: 2847, col: 13, offset: 90009},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2846, col: 13, offset: 89980},
+																					pos:        position{line: 2847, col: 13, offset: 90009},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17070,28 +17288,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2922, col: 8, offset: 91852},
+																		pos: position{line: 2923, col: 8, offset: 91881},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2909, col: 12, offset: 91625},
+																				pos: position{line: 2910, col: 12, offset: 91654},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2909, col: 13, offset: 91626},
+																					pos: position{line: 2910, col: 13, offset: 91655},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 13, offset: 91626},
+																							pos:        position{line: 2910, col: 13, offset: 91655},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 20, offset: 91633},
+																							pos:        position{line: 2910, col: 20, offset: 91662},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 29, offset: 91642},
+																							pos:        position{line: 2910, col: 29, offset: 91671},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17100,9 +17318,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2919, col: 8, offset: 91802},
+																				pos: position{line: 2920, col: 8, offset: 91831},
 																				expr: &anyMatcher{
-																					line: 2919, col: 9, offset: 91803,
+																					line: 2920, col: 9, offset: 91832,
 																				},
 																			},
 																		},
@@ -17111,36 +17329,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 820, col: 5, offset: 26324},
+															pos: position{line: 821, col: 5, offset: 26353},
 															run: (*parser).callonDocumentHeader311,
 															expr: &seqExpr{
-																pos: position{line: 820, col: 5, offset: 26324},
+																pos: position{line: 821, col: 5, offset: 26353},
 																exprs: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 740, col: 5, offset: 23584},
+																		pos: position{line: 741, col: 5, offset: 23613},
 																		run: (*parser).callonDocumentHeader313,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 5, offset: 23584},
+																			pos: position{line: 741, col: 5, offset: 23613},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 740, col: 5, offset: 23584},
+																					pos:   position{line: 741, col: 5, offset: 23613},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 740, col: 16, offset: 23595},
+																						pos: position{line: 741, col: 16, offset: 23624},
 																						run: (*parser).callonDocumentHeader316,
 																						expr: &seqExpr{
-																							pos: position{line: 740, col: 16, offset: 23595},
+																							pos: position{line: 741, col: 16, offset: 23624},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 740, col: 16, offset: 23595},
+																									pos:        position{line: 741, col: 16, offset: 23624},
 																									val:        "////",
 																									ignoreCase: false,
 																									want:       "\"////\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 740, col: 23, offset: 23602},
+																									pos: position{line: 741, col: 23, offset: 23631},
 																									expr: &litMatcher{
-																										pos:        position{line: 740, col: 23, offset: 23602},
+																										pos:        position{line: 741, col: 23, offset: 23631},
 																										val:        "/",
 																										ignoreCase: false,
 																										want:       "\"/\"",
@@ -17151,12 +17369,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 742, col: 8, offset: 23686},
+																					pos: position{line: 743, col: 8, offset: 23715},
 																					expr: &actionExpr{
-																						pos: position{line: 2900, col: 10, offset: 91454},
+																						pos: position{line: 2901, col: 10, offset: 91483},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2900, col: 10, offset: 91454},
+																							pos:        position{line: 2901, col: 10, offset: 91483},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17165,28 +17383,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2922, col: 8, offset: 91852},
+																					pos: position{line: 2923, col: 8, offset: 91881},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2909, col: 12, offset: 91625},
+																							pos: position{line: 2910, col: 12, offset: 91654},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2909, col: 13, offset: 91626},
+																								pos: position{line: 2910, col: 13, offset: 91655},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 13, offset: 91626},
+																										pos:        position{line: 2910, col: 13, offset: 91655},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 20, offset: 91633},
+																										pos:        position{line: 2910, col: 20, offset: 91662},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 29, offset: 91642},
+																										pos:        position{line: 2910, col: 29, offset: 91671},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17195,9 +17413,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2919, col: 8, offset: 91802},
+																							pos: position{line: 2920, col: 8, offset: 91831},
 																							expr: &anyMatcher{
-																								line: 2919, col: 9, offset: 91803,
+																								line: 2920, col: 9, offset: 91832,
 																							},
 																						},
 																					},
@@ -17206,46 +17424,46 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 821, col: 5, offset: 26355},
+																		pos:   position{line: 822, col: 5, offset: 26384},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 831, col: 5, offset: 26641},
+																			pos: position{line: 832, col: 5, offset: 26670},
 																			expr: &actionExpr{
-																				pos: position{line: 831, col: 6, offset: 26642},
+																				pos: position{line: 832, col: 6, offset: 26671},
 																				run: (*parser).callonDocumentHeader334,
 																				expr: &seqExpr{
-																					pos: position{line: 831, col: 6, offset: 26642},
+																					pos: position{line: 832, col: 6, offset: 26671},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 831, col: 6, offset: 26642},
+																							pos: position{line: 832, col: 6, offset: 26671},
 																							expr: &choiceExpr{
-																								pos: position{line: 828, col: 29, offset: 26584},
+																								pos: position{line: 829, col: 29, offset: 26613},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 740, col: 5, offset: 23584},
+																										pos: position{line: 741, col: 5, offset: 23613},
 																										run: (*parser).callonDocumentHeader338,
 																										expr: &seqExpr{
-																											pos: position{line: 740, col: 5, offset: 23584},
+																											pos: position{line: 741, col: 5, offset: 23613},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 740, col: 5, offset: 23584},
+																													pos:   position{line: 741, col: 5, offset: 23613},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 740, col: 16, offset: 23595},
+																														pos: position{line: 741, col: 16, offset: 23624},
 																														run: (*parser).callonDocumentHeader341,
 																														expr: &seqExpr{
-																															pos: position{line: 740, col: 16, offset: 23595},
+																															pos: position{line: 741, col: 16, offset: 23624},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 740, col: 16, offset: 23595},
+																																	pos:        position{line: 741, col: 16, offset: 23624},
 																																	val:        "////",
 																																	ignoreCase: false,
 																																	want:       "\"////\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 740, col: 23, offset: 23602},
+																																	pos: position{line: 741, col: 23, offset: 23631},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 740, col: 23, offset: 23602},
+																																		pos:        position{line: 741, col: 23, offset: 23631},
 																																		val:        "/",
 																																		ignoreCase: false,
 																																		want:       "\"/\"",
@@ -17256,12 +17474,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 742, col: 8, offset: 23686},
+																													pos: position{line: 743, col: 8, offset: 23715},
 																													expr: &actionExpr{
-																														pos: position{line: 2900, col: 10, offset: 91454},
+																														pos: position{line: 2901, col: 10, offset: 91483},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2900, col: 10, offset: 91454},
+																															pos:        position{line: 2901, col: 10, offset: 91483},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17270,28 +17488,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2922, col: 8, offset: 91852},
+																													pos: position{line: 2923, col: 8, offset: 91881},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2909, col: 12, offset: 91625},
+																															pos: position{line: 2910, col: 12, offset: 91654},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2909, col: 13, offset: 91626},
+																																pos: position{line: 2910, col: 13, offset: 91655},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2909, col: 13, offset: 91626},
+																																		pos:        position{line: 2910, col: 13, offset: 91655},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2909, col: 20, offset: 91633},
+																																		pos:        position{line: 2910, col: 20, offset: 91662},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2909, col: 29, offset: 91642},
+																																		pos:        position{line: 2910, col: 29, offset: 91671},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17300,9 +17518,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2919, col: 8, offset: 91802},
+																															pos: position{line: 2920, col: 8, offset: 91831},
 																															expr: &anyMatcher{
-																																line: 2919, col: 9, offset: 91803,
+																																line: 2920, col: 9, offset: 91832,
 																															},
 																														},
 																													},
@@ -17311,39 +17529,39 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2919, col: 8, offset: 91802},
+																										pos: position{line: 2920, col: 8, offset: 91831},
 																										expr: &anyMatcher{
-																											line: 2919, col: 9, offset: 91803,
+																											line: 2920, col: 9, offset: 91832,
 																										},
 																									},
 																								},
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26672},
+																							pos:   position{line: 833, col: 5, offset: 26701},
 																							label: "line",
 																							expr: &actionExpr{
-																								pos: position{line: 811, col: 5, offset: 26088},
+																								pos: position{line: 812, col: 5, offset: 26117},
 																								run: (*parser).callonDocumentHeader360,
 																								expr: &seqExpr{
-																									pos: position{line: 811, col: 5, offset: 26088},
+																									pos: position{line: 812, col: 5, offset: 26117},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2917, col: 11, offset: 91788},
+																											pos: position{line: 2918, col: 11, offset: 91817},
 																											expr: &anyMatcher{
-																												line: 2917, col: 13, offset: 91790,
+																												line: 2918, col: 13, offset: 91819,
 																											},
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 812, col: 5, offset: 26163},
+																											pos:   position{line: 813, col: 5, offset: 26192},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2846, col: 13, offset: 89980},
+																												pos: position{line: 2847, col: 13, offset: 90009},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2846, col: 13, offset: 89980},
+																													pos: position{line: 2847, col: 13, offset: 90009},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2846, col: 13, offset: 89980},
+																														pos:        position{line: 2847, col: 13, offset: 90009},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17353,28 +17571,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2922, col: 8, offset: 91852},
+																											pos: position{line: 2923, col: 8, offset: 91881},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2909, col: 12, offset: 91625},
+																													pos: position{line: 2910, col: 12, offset: 91654},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2909, col: 13, offset: 91626},
+																														pos: position{line: 2910, col: 13, offset: 91655},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 13, offset: 91626},
+																																pos:        position{line: 2910, col: 13, offset: 91655},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 20, offset: 91633},
+																																pos:        position{line: 2910, col: 20, offset: 91662},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 29, offset: 91642},
+																																pos:        position{line: 2910, col: 29, offset: 91671},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17383,9 +17601,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2919, col: 8, offset: 91802},
+																													pos: position{line: 2920, col: 8, offset: 91831},
 																													expr: &anyMatcher{
-																														line: 2919, col: 9, offset: 91803,
+																														line: 2920, col: 9, offset: 91832,
 																													},
 																												},
 																											},
@@ -17400,35 +17618,35 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrOneExpr{
-																		pos: position{line: 822, col: 5, offset: 26389},
+																		pos: position{line: 823, col: 5, offset: 26418},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26584},
+																			pos: position{line: 829, col: 29, offset: 26613},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
+																					pos: position{line: 741, col: 5, offset: 23613},
 																					run: (*parser).callonDocumentHeader378,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
+																						pos: position{line: 741, col: 5, offset: 23613},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23584},
+																								pos:   position{line: 741, col: 5, offset: 23613},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
+																									pos: position{line: 741, col: 16, offset: 23624},
 																									run: (*parser).callonDocumentHeader381,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
+																										pos: position{line: 741, col: 16, offset: 23624},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23595},
+																												pos:        position{line: 741, col: 16, offset: 23624},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23602},
+																												pos: position{line: 741, col: 23, offset: 23631},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23602},
+																													pos:        position{line: 741, col: 23, offset: 23631},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -17439,12 +17657,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23686},
+																								pos: position{line: 743, col: 8, offset: 23715},
 																								expr: &actionExpr{
-																									pos: position{line: 2900, col: 10, offset: 91454},
+																									pos: position{line: 2901, col: 10, offset: 91483},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2900, col: 10, offset: 91454},
+																										pos:        position{line: 2901, col: 10, offset: 91483},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17453,28 +17671,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2922, col: 8, offset: 91852},
+																								pos: position{line: 2923, col: 8, offset: 91881},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2909, col: 12, offset: 91625},
+																										pos: position{line: 2910, col: 12, offset: 91654},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2909, col: 13, offset: 91626},
+																											pos: position{line: 2910, col: 13, offset: 91655},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 13, offset: 91626},
+																													pos:        position{line: 2910, col: 13, offset: 91655},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 20, offset: 91633},
+																													pos:        position{line: 2910, col: 20, offset: 91662},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 29, offset: 91642},
+																													pos:        position{line: 2910, col: 29, offset: 91671},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17483,9 +17701,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2919, col: 8, offset: 91802},
+																										pos: position{line: 2920, col: 8, offset: 91831},
 																										expr: &anyMatcher{
-																											line: 2919, col: 9, offset: 91803,
+																											line: 2920, col: 9, offset: 91832,
 																										},
 																									},
 																								},
@@ -17494,9 +17712,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
@@ -17509,23 +17727,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1121, col: 5, offset: 34535},
+												pos:   position{line: 1122, col: 5, offset: 34564},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1121, col: 14, offset: 34544},
+													pos: position{line: 1122, col: 14, offset: 34573},
 													expr: &actionExpr{
-														pos: position{line: 1169, col: 21, offset: 35887},
+														pos: position{line: 1170, col: 21, offset: 35916},
 														run: (*parser).callonDocumentHeader401,
 														expr: &seqExpr{
-															pos: position{line: 1169, col: 21, offset: 35887},
+															pos: position{line: 1170, col: 21, offset: 35916},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1169, col: 21, offset: 35887},
+																	pos: position{line: 1170, col: 21, offset: 35916},
 																	expr: &actionExpr{
-																		pos: position{line: 2900, col: 10, offset: 91454},
+																		pos: position{line: 2901, col: 10, offset: 91483},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 10, offset: 91454},
+																			pos:        position{line: 2901, col: 10, offset: 91483},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17534,55 +17752,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1169, col: 28, offset: 35894},
+																	pos: position{line: 1170, col: 28, offset: 35923},
 																	expr: &litMatcher{
-																		pos:        position{line: 1169, col: 29, offset: 35895},
+																		pos:        position{line: 1170, col: 29, offset: 35924},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1169, col: 33, offset: 35899},
+																	pos:   position{line: 1170, col: 33, offset: 35928},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1170, col: 9, offset: 35918},
+																		pos: position{line: 1171, col: 9, offset: 35947},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1170, col: 10, offset: 35919},
+																				pos: position{line: 1171, col: 10, offset: 35948},
 																				run: (*parser).callonDocumentHeader410,
 																				expr: &seqExpr{
-																					pos: position{line: 1170, col: 10, offset: 35919},
+																					pos: position{line: 1171, col: 10, offset: 35948},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 10, offset: 35919},
+																							pos:   position{line: 1171, col: 10, offset: 35948},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1179, col: 27, offset: 36436},
+																								pos: position{line: 1180, col: 27, offset: 36465},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1179, col: 27, offset: 36436},
+																										pos: position{line: 1180, col: 27, offset: 36465},
 																										run: (*parser).callonDocumentHeader414,
 																										expr: &seqExpr{
-																											pos: position{line: 1179, col: 27, offset: 36436},
+																											pos: position{line: 1180, col: 27, offset: 36465},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1179, col: 27, offset: 36436},
+																													pos:        position{line: 1180, col: 27, offset: 36465},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1179, col: 32, offset: 36441},
+																													pos:        position{line: 1180, col: 32, offset: 36470},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1179, col: 38, offset: 36447},
+																													pos: position{line: 1180, col: 38, offset: 36476},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1179, col: 38, offset: 36447},
+																														pos:        position{line: 1180, col: 38, offset: 36476},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -17593,31 +17811,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1181, col: 5, offset: 36495},
+																										pos: position{line: 1182, col: 5, offset: 36524},
 																										run: (*parser).callonDocumentHeader420,
 																										expr: &seqExpr{
-																											pos: position{line: 1181, col: 5, offset: 36495},
+																											pos: position{line: 1182, col: 5, offset: 36524},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1181, col: 5, offset: 36495},
+																													pos: position{line: 1182, col: 5, offset: 36524},
 																													expr: &litMatcher{
-																														pos:        position{line: 1181, col: 5, offset: 36495},
+																														pos:        position{line: 1182, col: 5, offset: 36524},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1181, col: 11, offset: 36501},
+																													pos:        position{line: 1182, col: 11, offset: 36530},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1181, col: 17, offset: 36507},
+																													pos: position{line: 1182, col: 17, offset: 36536},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1181, col: 17, offset: 36507},
+																														pos:        position{line: 1182, col: 17, offset: 36536},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -17625,12 +17843,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1181, col: 28, offset: 36518},
+																													pos: position{line: 1182, col: 28, offset: 36547},
 																													expr: &actionExpr{
-																														pos: position{line: 2900, col: 10, offset: 91454},
+																														pos: position{line: 2901, col: 10, offset: 91483},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2900, col: 10, offset: 91454},
+																															pos:        position{line: 2901, col: 10, offset: 91483},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17639,9 +17857,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1181, col: 35, offset: 36525},
+																													pos: position{line: 1182, col: 35, offset: 36554},
 																													expr: &litMatcher{
-																														pos:        position{line: 1181, col: 36, offset: 36526},
+																														pos:        position{line: 1182, col: 36, offset: 36555},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -17654,26 +17872,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1170, col: 45, offset: 35954},
+																							pos: position{line: 1171, col: 45, offset: 35983},
 																							expr: &litMatcher{
-																								pos:        position{line: 1170, col: 45, offset: 35954},
+																								pos:        position{line: 1171, col: 45, offset: 35983},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 50, offset: 35959},
+																							pos:   position{line: 1171, col: 50, offset: 35988},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1170, col: 58, offset: 35967},
+																								pos: position{line: 1171, col: 58, offset: 35996},
 																								expr: &actionExpr{
-																									pos: position{line: 1185, col: 25, offset: 36590},
+																									pos: position{line: 1186, col: 25, offset: 36619},
 																									run: (*parser).callonDocumentHeader436,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1185, col: 25, offset: 36590},
+																										pos: position{line: 1186, col: 25, offset: 36619},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1185, col: 25, offset: 36590},
+																											pos:        position{line: 1186, col: 25, offset: 36619},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -17684,26 +17902,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1170, col: 82, offset: 35991},
+																							pos: position{line: 1171, col: 82, offset: 36020},
 																							expr: &litMatcher{
-																								pos:        position{line: 1170, col: 82, offset: 35991},
+																								pos:        position{line: 1171, col: 82, offset: 36020},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 87, offset: 35996},
+																							pos:   position{line: 1171, col: 87, offset: 36025},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1170, col: 97, offset: 36006},
+																								pos: position{line: 1171, col: 97, offset: 36035},
 																								expr: &actionExpr{
-																									pos: position{line: 1189, col: 27, offset: 36662},
+																									pos: position{line: 1190, col: 27, offset: 36691},
 																									run: (*parser).callonDocumentHeader443,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1189, col: 27, offset: 36662},
+																										pos: position{line: 1190, col: 27, offset: 36691},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1189, col: 27, offset: 36662},
+																											pos:        position{line: 1190, col: 27, offset: 36691},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -17717,21 +17935,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1172, col: 15, offset: 36124},
+																				pos: position{line: 1173, col: 15, offset: 36153},
 																				run: (*parser).callonDocumentHeader446,
 																				expr: &seqExpr{
-																					pos: position{line: 1172, col: 15, offset: 36124},
+																					pos: position{line: 1173, col: 15, offset: 36153},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1172, col: 15, offset: 36124},
+																							pos:   position{line: 1173, col: 15, offset: 36153},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1185, col: 25, offset: 36590},
+																								pos: position{line: 1186, col: 25, offset: 36619},
 																								run: (*parser).callonDocumentHeader449,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1185, col: 25, offset: 36590},
+																									pos: position{line: 1186, col: 25, offset: 36619},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1185, col: 25, offset: 36590},
+																										pos:        position{line: 1186, col: 25, offset: 36619},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -17741,26 +17959,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1172, col: 46, offset: 36155},
+																							pos: position{line: 1173, col: 46, offset: 36184},
 																							expr: &litMatcher{
-																								pos:        position{line: 1172, col: 46, offset: 36155},
+																								pos:        position{line: 1173, col: 46, offset: 36184},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1172, col: 51, offset: 36160},
+																							pos:   position{line: 1173, col: 51, offset: 36189},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1172, col: 61, offset: 36170},
+																								pos: position{line: 1173, col: 61, offset: 36199},
 																								expr: &actionExpr{
-																									pos: position{line: 1189, col: 27, offset: 36662},
+																									pos: position{line: 1190, col: 27, offset: 36691},
 																									run: (*parser).callonDocumentHeader456,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1189, col: 27, offset: 36662},
+																										pos: position{line: 1190, col: 27, offset: 36691},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1189, col: 27, offset: 36662},
+																											pos:        position{line: 1190, col: 27, offset: 36691},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -17777,28 +17995,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2922, col: 8, offset: 91852},
+																	pos: position{line: 2923, col: 8, offset: 91881},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 12, offset: 91625},
+																			pos: position{line: 2910, col: 12, offset: 91654},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2909, col: 13, offset: 91626},
+																				pos: position{line: 2910, col: 13, offset: 91655},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 13, offset: 91626},
+																						pos:        position{line: 2910, col: 13, offset: 91655},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 20, offset: 91633},
+																						pos:        position{line: 2910, col: 20, offset: 91662},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 29, offset: 91642},
+																						pos:        position{line: 2910, col: 29, offset: 91671},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17807,9 +18025,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2919, col: 8, offset: 91802},
+																			pos: position{line: 2920, col: 8, offset: 91831},
 																			expr: &anyMatcher{
-																				line: 2919, col: 9, offset: 91803,
+																				line: 2920, col: 9, offset: 91832,
 																			},
 																		},
 																	},
@@ -17825,15 +18043,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1108, col: 5, offset: 34081},
+							pos:   position{line: 1109, col: 5, offset: 34110},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1108, col: 19, offset: 34095},
+								pos: position{line: 1109, col: 19, offset: 34124},
 								expr: &choiceExpr{
-									pos: position{line: 1108, col: 20, offset: 34096},
+									pos: position{line: 1109, col: 20, offset: 34125},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1108, col: 20, offset: 34096},
+											pos:  position{line: 1109, col: 20, offset: 34125},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
@@ -17889,10 +18107,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2900, col: 10, offset: 91454},
+															pos: position{line: 2901, col: 10, offset: 91483},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2900, col: 10, offset: 91454},
+																pos:        position{line: 2901, col: 10, offset: 91483},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -17901,28 +18119,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2922, col: 8, offset: 91852},
+														pos: position{line: 2923, col: 8, offset: 91881},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2909, col: 12, offset: 91625},
+																pos: position{line: 2910, col: 12, offset: 91654},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2909, col: 13, offset: 91626},
+																	pos: position{line: 2910, col: 13, offset: 91655},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 13, offset: 91626},
+																			pos:        position{line: 2910, col: 13, offset: 91655},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 20, offset: 91633},
+																			pos:        position{line: 2910, col: 20, offset: 91662},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 29, offset: 91642},
+																			pos:        position{line: 2910, col: 29, offset: 91671},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -17931,9 +18149,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2919, col: 8, offset: 91802},
+																pos: position{line: 2920, col: 8, offset: 91831},
 																expr: &anyMatcher{
-																	line: 2919, col: 9, offset: 91803,
+																	line: 2920, col: 9, offset: 91832,
 																},
 															},
 														},
@@ -17994,10 +18212,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2900, col: 10, offset: 91454},
+															pos: position{line: 2901, col: 10, offset: 91483},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2900, col: 10, offset: 91454},
+																pos:        position{line: 2901, col: 10, offset: 91483},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18006,28 +18224,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2922, col: 8, offset: 91852},
+														pos: position{line: 2923, col: 8, offset: 91881},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2909, col: 12, offset: 91625},
+																pos: position{line: 2910, col: 12, offset: 91654},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2909, col: 13, offset: 91626},
+																	pos: position{line: 2910, col: 13, offset: 91655},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 13, offset: 91626},
+																			pos:        position{line: 2910, col: 13, offset: 91655},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 20, offset: 91633},
+																			pos:        position{line: 2910, col: 20, offset: 91662},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 29, offset: 91642},
+																			pos:        position{line: 2910, col: 29, offset: 91671},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18036,9 +18254,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2919, col: 8, offset: 91802},
+																pos: position{line: 2920, col: 8, offset: 91831},
 																expr: &anyMatcher{
-																	line: 2919, col: 9, offset: 91803,
+																	line: 2920, col: 9, offset: 91832,
 																},
 															},
 														},
@@ -18047,36 +18265,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2510, col: 22, offset: 80439},
+											pos: position{line: 2511, col: 22, offset: 80468},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2510, col: 22, offset: 80439},
+												pos: position{line: 2511, col: 22, offset: 80468},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2515, col: 31, offset: 80660},
+														pos:        position{line: 2516, col: 31, offset: 80689},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2515, col: 36, offset: 80665},
+														pos: position{line: 2516, col: 36, offset: 80694},
 														expr: &litMatcher{
-															pos:        position{line: 2515, col: 37, offset: 80666},
+															pos:        position{line: 2516, col: 37, offset: 80695},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2510, col: 49, offset: 80466},
+														pos:   position{line: 2511, col: 49, offset: 80495},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2846, col: 13, offset: 89980},
+															pos: position{line: 2847, col: 13, offset: 90009},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2846, col: 13, offset: 89980},
+																pos: position{line: 2847, col: 13, offset: 90009},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2846, col: 13, offset: 89980},
+																	pos:        position{line: 2847, col: 13, offset: 90009},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18086,28 +18304,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2922, col: 8, offset: 91852},
+														pos: position{line: 2923, col: 8, offset: 91881},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2909, col: 12, offset: 91625},
+																pos: position{line: 2910, col: 12, offset: 91654},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2909, col: 13, offset: 91626},
+																	pos: position{line: 2910, col: 13, offset: 91655},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 13, offset: 91626},
+																			pos:        position{line: 2910, col: 13, offset: 91655},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 20, offset: 91633},
+																			pos:        position{line: 2910, col: 20, offset: 91662},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 29, offset: 91642},
+																			pos:        position{line: 2910, col: 29, offset: 91671},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18116,9 +18334,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2919, col: 8, offset: 91802},
+																pos: position{line: 2920, col: 8, offset: 91831},
 																expr: &anyMatcher{
-																	line: 2919, col: 9, offset: 91803,
+																	line: 2920, col: 9, offset: 91832,
 																},
 															},
 														},
@@ -18127,36 +18345,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 820, col: 5, offset: 26324},
+											pos: position{line: 821, col: 5, offset: 26353},
 											run: (*parser).callonDocumentHeader530,
 											expr: &seqExpr{
-												pos: position{line: 820, col: 5, offset: 26324},
+												pos: position{line: 821, col: 5, offset: 26353},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 740, col: 5, offset: 23584},
+														pos: position{line: 741, col: 5, offset: 23613},
 														run: (*parser).callonDocumentHeader532,
 														expr: &seqExpr{
-															pos: position{line: 740, col: 5, offset: 23584},
+															pos: position{line: 741, col: 5, offset: 23613},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23584},
+																	pos:   position{line: 741, col: 5, offset: 23613},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23595},
+																		pos: position{line: 741, col: 16, offset: 23624},
 																		run: (*parser).callonDocumentHeader535,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 16, offset: 23595},
+																			pos: position{line: 741, col: 16, offset: 23624},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23595},
+																					pos:        position{line: 741, col: 16, offset: 23624},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23602},
+																					pos: position{line: 741, col: 23, offset: 23631},
 																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23602},
+																						pos:        position{line: 741, col: 23, offset: 23631},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -18167,12 +18385,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23686},
+																	pos: position{line: 743, col: 8, offset: 23715},
 																	expr: &actionExpr{
-																		pos: position{line: 2900, col: 10, offset: 91454},
+																		pos: position{line: 2901, col: 10, offset: 91483},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 10, offset: 91454},
+																			pos:        position{line: 2901, col: 10, offset: 91483},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18181,28 +18399,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2922, col: 8, offset: 91852},
+																	pos: position{line: 2923, col: 8, offset: 91881},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 12, offset: 91625},
+																			pos: position{line: 2910, col: 12, offset: 91654},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2909, col: 13, offset: 91626},
+																				pos: position{line: 2910, col: 13, offset: 91655},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 13, offset: 91626},
+																						pos:        position{line: 2910, col: 13, offset: 91655},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 20, offset: 91633},
+																						pos:        position{line: 2910, col: 20, offset: 91662},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 29, offset: 91642},
+																						pos:        position{line: 2910, col: 29, offset: 91671},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18211,9 +18429,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2919, col: 8, offset: 91802},
+																			pos: position{line: 2920, col: 8, offset: 91831},
 																			expr: &anyMatcher{
-																				line: 2919, col: 9, offset: 91803,
+																				line: 2920, col: 9, offset: 91832,
 																			},
 																		},
 																	},
@@ -18222,46 +18440,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 821, col: 5, offset: 26355},
+														pos:   position{line: 822, col: 5, offset: 26384},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 831, col: 5, offset: 26641},
+															pos: position{line: 832, col: 5, offset: 26670},
 															expr: &actionExpr{
-																pos: position{line: 831, col: 6, offset: 26642},
+																pos: position{line: 832, col: 6, offset: 26671},
 																run: (*parser).callonDocumentHeader553,
 																expr: &seqExpr{
-																	pos: position{line: 831, col: 6, offset: 26642},
+																	pos: position{line: 832, col: 6, offset: 26671},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 831, col: 6, offset: 26642},
+																			pos: position{line: 832, col: 6, offset: 26671},
 																			expr: &choiceExpr{
-																				pos: position{line: 828, col: 29, offset: 26584},
+																				pos: position{line: 829, col: 29, offset: 26613},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
+																						pos: position{line: 741, col: 5, offset: 23613},
 																						run: (*parser).callonDocumentHeader557,
 																						expr: &seqExpr{
-																							pos: position{line: 740, col: 5, offset: 23584},
+																							pos: position{line: 741, col: 5, offset: 23613},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 740, col: 5, offset: 23584},
+																									pos:   position{line: 741, col: 5, offset: 23613},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
+																										pos: position{line: 741, col: 16, offset: 23624},
 																										run: (*parser).callonDocumentHeader560,
 																										expr: &seqExpr{
-																											pos: position{line: 740, col: 16, offset: 23595},
+																											pos: position{line: 741, col: 16, offset: 23624},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 740, col: 16, offset: 23595},
+																													pos:        position{line: 741, col: 16, offset: 23624},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 740, col: 23, offset: 23602},
+																													pos: position{line: 741, col: 23, offset: 23631},
 																													expr: &litMatcher{
-																														pos:        position{line: 740, col: 23, offset: 23602},
+																														pos:        position{line: 741, col: 23, offset: 23631},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -18272,12 +18490,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 742, col: 8, offset: 23686},
+																									pos: position{line: 743, col: 8, offset: 23715},
 																									expr: &actionExpr{
-																										pos: position{line: 2900, col: 10, offset: 91454},
+																										pos: position{line: 2901, col: 10, offset: 91483},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2900, col: 10, offset: 91454},
+																											pos:        position{line: 2901, col: 10, offset: 91483},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18286,28 +18504,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2922, col: 8, offset: 91852},
+																									pos: position{line: 2923, col: 8, offset: 91881},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2909, col: 12, offset: 91625},
+																											pos: position{line: 2910, col: 12, offset: 91654},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2909, col: 13, offset: 91626},
+																												pos: position{line: 2910, col: 13, offset: 91655},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 13, offset: 91626},
+																														pos:        position{line: 2910, col: 13, offset: 91655},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 20, offset: 91633},
+																														pos:        position{line: 2910, col: 20, offset: 91662},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 29, offset: 91642},
+																														pos:        position{line: 2910, col: 29, offset: 91671},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18316,9 +18534,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2919, col: 8, offset: 91802},
+																											pos: position{line: 2920, col: 8, offset: 91831},
 																											expr: &anyMatcher{
-																												line: 2919, col: 9, offset: 91803,
+																												line: 2920, col: 9, offset: 91832,
 																											},
 																										},
 																									},
@@ -18327,39 +18545,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2919, col: 8, offset: 91802},
+																						pos: position{line: 2920, col: 8, offset: 91831},
 																						expr: &anyMatcher{
-																							line: 2919, col: 9, offset: 91803,
+																							line: 2920, col: 9, offset: 91832,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 832, col: 5, offset: 26672},
+																			pos:   position{line: 833, col: 5, offset: 26701},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 812, col: 5, offset: 26117},
 																				run: (*parser).callonDocumentHeader579,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 812, col: 5, offset: 26117},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2917, col: 11, offset: 91788},
+																							pos: position{line: 2918, col: 11, offset: 91817},
 																							expr: &anyMatcher{
-																								line: 2917, col: 13, offset: 91790,
+																								line: 2918, col: 13, offset: 91819,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 813, col: 5, offset: 26192},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2846, col: 13, offset: 89980},
+																								pos: position{line: 2847, col: 13, offset: 90009},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2846, col: 13, offset: 89980},
+																									pos: position{line: 2847, col: 13, offset: 90009},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2846, col: 13, offset: 89980},
+																										pos:        position{line: 2847, col: 13, offset: 90009},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18369,28 +18587,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18399,9 +18617,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -18416,35 +18634,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 822, col: 5, offset: 26389},
+														pos: position{line: 823, col: 5, offset: 26418},
 														expr: &choiceExpr{
-															pos: position{line: 828, col: 29, offset: 26584},
+															pos: position{line: 829, col: 29, offset: 26613},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
+																	pos: position{line: 741, col: 5, offset: 23613},
 																	run: (*parser).callonDocumentHeader597,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 5, offset: 23584},
+																		pos: position{line: 741, col: 5, offset: 23613},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 740, col: 5, offset: 23584},
+																				pos:   position{line: 741, col: 5, offset: 23613},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
+																					pos: position{line: 741, col: 16, offset: 23624},
 																					run: (*parser).callonDocumentHeader600,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 16, offset: 23595},
+																						pos: position{line: 741, col: 16, offset: 23624},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 740, col: 16, offset: 23595},
+																								pos:        position{line: 741, col: 16, offset: 23624},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 740, col: 23, offset: 23602},
+																								pos: position{line: 741, col: 23, offset: 23631},
 																								expr: &litMatcher{
-																									pos:        position{line: 740, col: 23, offset: 23602},
+																									pos:        position{line: 741, col: 23, offset: 23631},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -18455,12 +18673,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 742, col: 8, offset: 23686},
+																				pos: position{line: 743, col: 8, offset: 23715},
 																				expr: &actionExpr{
-																					pos: position{line: 2900, col: 10, offset: 91454},
+																					pos: position{line: 2901, col: 10, offset: 91483},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2900, col: 10, offset: 91454},
+																						pos:        position{line: 2901, col: 10, offset: 91483},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -18469,28 +18687,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2922, col: 8, offset: 91852},
+																				pos: position{line: 2923, col: 8, offset: 91881},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2909, col: 12, offset: 91625},
+																						pos: position{line: 2910, col: 12, offset: 91654},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2909, col: 13, offset: 91626},
+																							pos: position{line: 2910, col: 13, offset: 91655},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2909, col: 13, offset: 91626},
+																									pos:        position{line: 2910, col: 13, offset: 91655},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2909, col: 20, offset: 91633},
+																									pos:        position{line: 2910, col: 20, offset: 91662},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2909, col: 29, offset: 91642},
+																									pos:        position{line: 2910, col: 29, offset: 91671},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -18499,9 +18717,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2919, col: 8, offset: 91802},
+																						pos: position{line: 2920, col: 8, offset: 91831},
 																						expr: &anyMatcher{
-																							line: 2919, col: 9, offset: 91803,
+																							line: 2920, col: 9, offset: 91832,
 																						},
 																					},
 																				},
@@ -18510,9 +18728,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2919, col: 8, offset: 91802},
+																	pos: position{line: 2920, col: 8, offset: 91831},
 																	expr: &anyMatcher{
-																		line: 2919, col: 9, offset: 91803,
+																		line: 2920, col: 9, offset: 91832,
 																	},
 																},
 															},
@@ -18531,26 +18749,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1112, col: 1, offset: 34293},
+			pos:  position{line: 1113, col: 1, offset: 34322},
 			expr: &actionExpr{
-				pos: position{line: 1113, col: 5, offset: 34315},
+				pos: position{line: 1114, col: 5, offset: 34344},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1113, col: 5, offset: 34315},
+					pos: position{line: 1114, col: 5, offset: 34344},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1113, col: 5, offset: 34315},
+							pos:        position{line: 1114, col: 5, offset: 34344},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2904, col: 11, offset: 91515},
+							pos: position{line: 2905, col: 11, offset: 91544},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2904, col: 11, offset: 91515},
+								pos: position{line: 2905, col: 11, offset: 91544},
 								expr: &charClassMatcher{
-									pos:        position{line: 2904, col: 11, offset: 91515},
+									pos:        position{line: 2905, col: 11, offset: 91544},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18559,36 +18777,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1113, col: 16, offset: 34326},
+							pos:   position{line: 1114, col: 16, offset: 34355},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1113, col: 23, offset: 34333},
+								pos:  position{line: 1114, col: 23, offset: 34362},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2922, col: 8, offset: 91852},
+							pos: position{line: 2923, col: 8, offset: 91881},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2909, col: 12, offset: 91625},
+									pos: position{line: 2910, col: 12, offset: 91654},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2909, col: 13, offset: 91626},
+										pos: position{line: 2910, col: 13, offset: 91655},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2909, col: 13, offset: 91626},
+												pos:        position{line: 2910, col: 13, offset: 91655},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2909, col: 20, offset: 91633},
+												pos:        position{line: 2910, col: 20, offset: 91662},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2909, col: 29, offset: 91642},
+												pos:        position{line: 2910, col: 29, offset: 91671},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -18597,9 +18815,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2919, col: 8, offset: 91802},
+									pos: position{line: 2920, col: 8, offset: 91831},
 									expr: &anyMatcher{
-										line: 2919, col: 9, offset: 91803,
+										line: 2920, col: 9, offset: 91832,
 									},
 								},
 							},
@@ -18610,23 +18828,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1140, col: 1, offset: 35173},
+			pos:  position{line: 1141, col: 1, offset: 35202},
 			expr: &actionExpr{
-				pos: position{line: 1141, col: 5, offset: 35204},
+				pos: position{line: 1142, col: 5, offset: 35233},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1141, col: 5, offset: 35204},
+					pos: position{line: 1142, col: 5, offset: 35233},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1141, col: 5, offset: 35204},
+							pos:   position{line: 1142, col: 5, offset: 35233},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1141, col: 12, offset: 35211},
+								pos: position{line: 1142, col: 12, offset: 35240},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1141, col: 12, offset: 35211},
+									pos: position{line: 1142, col: 12, offset: 35240},
 									expr: &charClassMatcher{
-										pos:        position{line: 1141, col: 12, offset: 35211},
+										pos:        position{line: 1142, col: 12, offset: 35240},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -18636,12 +18854,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1144, col: 5, offset: 35291},
+							pos: position{line: 1145, col: 5, offset: 35320},
 							expr: &actionExpr{
-								pos: position{line: 2900, col: 10, offset: 91454},
+								pos: position{line: 2901, col: 10, offset: 91483},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2900, col: 10, offset: 91454},
+									pos:        position{line: 2901, col: 10, offset: 91483},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18650,17 +18868,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1145, col: 5, offset: 35302},
+							pos:   position{line: 1146, col: 5, offset: 35331},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1145, col: 11, offset: 35308},
+								pos: position{line: 1146, col: 11, offset: 35337},
 								expr: &actionExpr{
-									pos: position{line: 1145, col: 12, offset: 35309},
+									pos: position{line: 1146, col: 12, offset: 35338},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1145, col: 12, offset: 35309},
+										pos: position{line: 1146, col: 12, offset: 35338},
 										expr: &charClassMatcher{
-											pos:        position{line: 1145, col: 12, offset: 35309},
+											pos:        position{line: 1146, col: 12, offset: 35338},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -18671,12 +18889,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1148, col: 5, offset: 35390},
+							pos: position{line: 1149, col: 5, offset: 35419},
 							expr: &actionExpr{
-								pos: position{line: 2900, col: 10, offset: 91454},
+								pos: position{line: 2901, col: 10, offset: 91483},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2900, col: 10, offset: 91454},
+									pos:        position{line: 2901, col: 10, offset: 91483},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18685,17 +18903,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1149, col: 5, offset: 35401},
+							pos:   position{line: 1150, col: 5, offset: 35430},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1149, col: 11, offset: 35407},
+								pos: position{line: 1150, col: 11, offset: 35436},
 								expr: &actionExpr{
-									pos: position{line: 1149, col: 12, offset: 35408},
+									pos: position{line: 1150, col: 12, offset: 35437},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1149, col: 12, offset: 35408},
+										pos: position{line: 1150, col: 12, offset: 35437},
 										expr: &charClassMatcher{
-											pos:        position{line: 1149, col: 12, offset: 35408},
+											pos:        position{line: 1150, col: 12, offset: 35437},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -18706,12 +18924,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1152, col: 5, offset: 35487},
+							pos: position{line: 1153, col: 5, offset: 35516},
 							expr: &actionExpr{
-								pos: position{line: 2900, col: 10, offset: 91454},
+								pos: position{line: 2901, col: 10, offset: 91483},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2900, col: 10, offset: 91454},
+									pos:        position{line: 2901, col: 10, offset: 91483},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18725,28 +18943,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1265, col: 1, offset: 39216},
+			pos:  position{line: 1266, col: 1, offset: 39245},
 			expr: &actionExpr{
-				pos: position{line: 1266, col: 5, offset: 39237},
+				pos: position{line: 1267, col: 5, offset: 39266},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1266, col: 5, offset: 39237},
+					pos: position{line: 1267, col: 5, offset: 39266},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1266, col: 5, offset: 39237},
+							pos: position{line: 1267, col: 5, offset: 39266},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1269, col: 5, offset: 39296},
+							pos:        position{line: 1270, col: 5, offset: 39325},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1269, col: 12, offset: 39303},
+							pos:   position{line: 1270, col: 12, offset: 39332},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1269, col: 24, offset: 39315},
+								pos:  position{line: 1270, col: 24, offset: 39344},
 								name: "InlineAttributes",
 							},
 						},
@@ -18756,33 +18974,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1276, col: 1, offset: 39603},
+			pos:  position{line: 1277, col: 1, offset: 39632},
 			expr: &actionExpr{
-				pos: position{line: 1277, col: 5, offset: 39622},
+				pos: position{line: 1278, col: 5, offset: 39651},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1277, col: 5, offset: 39622},
+					pos: position{line: 1278, col: 5, offset: 39651},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1277, col: 5, offset: 39622},
+							pos: position{line: 1278, col: 5, offset: 39651},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1280, col: 5, offset: 39681},
+							pos:        position{line: 1281, col: 5, offset: 39710},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1280, col: 13, offset: 39689},
+							pos:   position{line: 1281, col: 13, offset: 39718},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2885, col: 7, offset: 91106},
+								pos: position{line: 2886, col: 7, offset: 91135},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2885, col: 7, offset: 91106},
+									pos: position{line: 2886, col: 7, offset: 91135},
 									expr: &charClassMatcher{
-										pos:        position{line: 2885, col: 7, offset: 91106},
+										pos:        position{line: 2886, col: 7, offset: 91135},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -18792,10 +19010,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1280, col: 21, offset: 39697},
+							pos:   position{line: 1281, col: 21, offset: 39726},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1280, col: 33, offset: 39709},
+								pos:  position{line: 1281, col: 33, offset: 39738},
 								name: "InlineAttributes",
 							},
 						},
@@ -18805,29 +19023,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1287, col: 1, offset: 40008},
+			pos:  position{line: 1288, col: 1, offset: 40037},
 			expr: &actionExpr{
-				pos: position{line: 1287, col: 14, offset: 40021},
+				pos: position{line: 1288, col: 14, offset: 40050},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1287, col: 14, offset: 40021},
+					pos: position{line: 1288, col: 14, offset: 40050},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1287, col: 14, offset: 40021},
+							pos:        position{line: 1288, col: 14, offset: 40050},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1287, col: 19, offset: 40026},
+							pos:   position{line: 1288, col: 19, offset: 40055},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1287, col: 25, offset: 40032},
+								pos:  position{line: 1288, col: 25, offset: 40061},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1287, col: 43, offset: 40050},
+							pos:        position{line: 1288, col: 43, offset: 40079},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -18838,25 +19056,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1291, col: 1, offset: 40119},
+			pos:  position{line: 1292, col: 1, offset: 40148},
 			expr: &actionExpr{
-				pos: position{line: 1291, col: 21, offset: 40139},
+				pos: position{line: 1292, col: 21, offset: 40168},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1291, col: 21, offset: 40139},
+					pos:   position{line: 1292, col: 21, offset: 40168},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1291, col: 30, offset: 40148},
+						pos: position{line: 1292, col: 30, offset: 40177},
 						expr: &choiceExpr{
-							pos: position{line: 1291, col: 31, offset: 40149},
+							pos: position{line: 1292, col: 31, offset: 40178},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2794, col: 14, offset: 88623},
+									pos: position{line: 2795, col: 14, offset: 88652},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2794, col: 14, offset: 88623},
+										pos: position{line: 2795, col: 14, offset: 88652},
 										expr: &charClassMatcher{
-											pos:        position{line: 2794, col: 14, offset: 88623},
+											pos:        position{line: 2795, col: 14, offset: 88652},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -18865,14 +19083,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1291, col: 43, offset: 40161},
+									pos:  position{line: 1292, col: 43, offset: 40190},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2900, col: 10, offset: 91454},
+									pos: position{line: 2901, col: 10, offset: 91483},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2900, col: 10, offset: 91454},
+										pos:        position{line: 2901, col: 10, offset: 91483},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -18880,23 +19098,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2497, col: 5, offset: 79985},
+									pos: position{line: 2498, col: 5, offset: 80014},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2497, col: 5, offset: 79985},
+										pos: position{line: 2498, col: 5, offset: 80014},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2497, col: 5, offset: 79985},
+												pos: position{line: 2498, col: 5, offset: 80014},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2500, col: 5, offset: 80061},
+												pos:   position{line: 2501, col: 5, offset: 80090},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2501, col: 9, offset: 80079},
+													pos: position{line: 2502, col: 9, offset: 80108},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2501, col: 10, offset: 80080},
+														pos:        position{line: 2502, col: 10, offset: 80109},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -18908,27 +19126,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1198, col: 23, offset: 36972},
+									pos: position{line: 1199, col: 23, offset: 37001},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1198, col: 23, offset: 36972},
+										pos: position{line: 1199, col: 23, offset: 37001},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1196, col: 32, offset: 36940},
+												pos:        position{line: 1197, col: 32, offset: 36969},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1198, col: 51, offset: 37000},
+												pos:   position{line: 1199, col: 51, offset: 37029},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1198, col: 56, offset: 37005},
+													pos: position{line: 1199, col: 56, offset: 37034},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1198, col: 56, offset: 37005},
+														pos: position{line: 1199, col: 56, offset: 37034},
 														expr: &charClassMatcher{
-															pos:        position{line: 1198, col: 56, offset: 37005},
+															pos:        position{line: 1199, col: 56, offset: 37034},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -18938,7 +19156,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1196, col: 32, offset: 36940},
+												pos:        position{line: 1197, col: 32, offset: 36969},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
@@ -18947,22 +19165,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1291, col: 104, offset: 40222},
+									pos: position{line: 1292, col: 104, offset: 40251},
 									run: (*parser).callonIndexTermContent25,
 									expr: &seqExpr{
-										pos: position{line: 1291, col: 105, offset: 40223},
+										pos: position{line: 1292, col: 105, offset: 40252},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1291, col: 105, offset: 40223},
+												pos: position{line: 1292, col: 105, offset: 40252},
 												expr: &litMatcher{
-													pos:        position{line: 1291, col: 106, offset: 40224},
+													pos:        position{line: 1292, col: 106, offset: 40253},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1291, col: 111, offset: 40229,
+												line: 1292, col: 111, offset: 40258,
 											},
 										},
 									},
@@ -18975,65 +19193,65 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1311, col: 1, offset: 40938},
+			pos:  position{line: 1312, col: 1, offset: 40967},
 			expr: &actionExpr{
-				pos: position{line: 1312, col: 5, offset: 40957},
+				pos: position{line: 1313, col: 5, offset: 40986},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1312, col: 5, offset: 40957},
+					pos: position{line: 1313, col: 5, offset: 40986},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1312, col: 5, offset: 40957},
+							pos:        position{line: 1313, col: 5, offset: 40986},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1312, col: 15, offset: 40967},
+							pos:   position{line: 1313, col: 15, offset: 40996},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2858, col: 13, offset: 90213},
+								pos: position{line: 2859, col: 13, offset: 90242},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2858, col: 13, offset: 90213},
+									pos: position{line: 2859, col: 13, offset: 90242},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2858, col: 13, offset: 90213},
+											pos:   position{line: 2859, col: 13, offset: 90242},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2858, col: 20, offset: 90220},
+												pos: position{line: 2859, col: 20, offset: 90249},
 												expr: &actionExpr{
-													pos: position{line: 2866, col: 11, offset: 90459},
+													pos: position{line: 2867, col: 11, offset: 90488},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2866, col: 12, offset: 90460},
+														pos: position{line: 2867, col: 12, offset: 90489},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2866, col: 12, offset: 90460},
+																pos:        position{line: 2867, col: 12, offset: 90489},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2866, col: 24, offset: 90472},
+																pos:        position{line: 2867, col: 24, offset: 90501},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2866, col: 37, offset: 90485},
+																pos:        position{line: 2867, col: 37, offset: 90514},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2866, col: 48, offset: 90496},
+																pos:        position{line: 2867, col: 48, offset: 90525},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2866, col: 59, offset: 90507},
+																pos:        position{line: 2867, col: 59, offset: 90536},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19044,38 +19262,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2858, col: 30, offset: 90230},
+											pos:   position{line: 2859, col: 30, offset: 90259},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2871, col: 5, offset: 90571},
+												pos: position{line: 2872, col: 5, offset: 90600},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2871, col: 5, offset: 90571},
+													pos:   position{line: 2872, col: 5, offset: 90600},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2871, col: 14, offset: 90580},
+														pos: position{line: 2872, col: 14, offset: 90609},
 														expr: &choiceExpr{
-															pos: position{line: 2872, col: 9, offset: 90590},
+															pos: position{line: 2873, col: 9, offset: 90619},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2872, col: 9, offset: 90590},
+																	pos: position{line: 2873, col: 9, offset: 90619},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2872, col: 9, offset: 90590},
+																		pos: position{line: 2873, col: 9, offset: 90619},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2872, col: 9, offset: 90590},
+																				pos: position{line: 2873, col: 9, offset: 90619},
 																				expr: &litMatcher{
-																					pos:        position{line: 2872, col: 10, offset: 90591},
+																					pos:        position{line: 2873, col: 10, offset: 90620},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2873, col: 9, offset: 90619},
+																				pos: position{line: 2874, col: 9, offset: 90648},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90620},
+																					pos:        position{line: 2874, col: 10, offset: 90649},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19086,27 +19304,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2876, col: 11, offset: 90832},
+																	pos: position{line: 2877, col: 11, offset: 90861},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2876, col: 11, offset: 90832},
+																			pos:        position{line: 2877, col: 11, offset: 90861},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2876, col: 19, offset: 90840},
+																			pos: position{line: 2877, col: 19, offset: 90869},
 																			expr: &seqExpr{
-																				pos: position{line: 2876, col: 21, offset: 90842},
+																				pos: position{line: 2877, col: 21, offset: 90871},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2876, col: 21, offset: 90842},
+																						pos: position{line: 2877, col: 21, offset: 90871},
 																						expr: &actionExpr{
-																							pos: position{line: 2900, col: 10, offset: 91454},
+																							pos: position{line: 2901, col: 10, offset: 91483},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2900, col: 10, offset: 91454},
+																								pos:        position{line: 2901, col: 10, offset: 91483},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19115,11 +19333,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2876, col: 28, offset: 90849},
+																						pos: position{line: 2877, col: 28, offset: 90878},
 																						expr: &notExpr{
-																							pos: position{line: 2919, col: 8, offset: 91802},
+																							pos: position{line: 2920, col: 8, offset: 91831},
 																							expr: &anyMatcher{
-																								line: 2919, col: 9, offset: 91803,
+																								line: 2920, col: 9, offset: 91832,
 																							},
 																						},
 																					},
@@ -19129,35 +19347,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 636, col: 5, offset: 20109},
+																	pos: position{line: 637, col: 5, offset: 20136},
 																	run: (*parser).callonImageBlock37,
 																	expr: &seqExpr{
-																		pos: position{line: 636, col: 5, offset: 20109},
+																		pos: position{line: 637, col: 5, offset: 20136},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 637, col: 5, offset: 20136},
 																				run: (*parser).callonImageBlock39,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 639, col: 5, offset: 20181},
+																				pos:   position{line: 640, col: 5, offset: 20208},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 639, col: 14, offset: 20190},
+																					pos: position{line: 640, col: 14, offset: 20217},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 646, col: 5, offset: 20346},
 																							run: (*parser).callonImageBlock42,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20319},
+																								pos: position{line: 646, col: 5, offset: 20346},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20319},
+																										pos:        position{line: 646, col: 5, offset: 20346},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20327},
+																										pos:   position{line: 646, col: 13, offset: 20354},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -19189,7 +19407,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20346},
+																										pos:        position{line: 646, col: 32, offset: 20373},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19198,19 +19416,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 653, col: 5, offset: 20614},
 																							run: (*parser).callonImageBlock52,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20587},
+																								pos: position{line: 653, col: 5, offset: 20614},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20587},
+																										pos:        position{line: 653, col: 5, offset: 20614},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20591},
+																										pos:   position{line: 653, col: 9, offset: 20618},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -19242,7 +19460,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20610},
+																										pos:        position{line: 653, col: 28, offset: 20637},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19251,19 +19469,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 658, col: 25, offset: 20791},
+																							pos: position{line: 659, col: 25, offset: 20818},
 																							run: (*parser).callonImageBlock62,
 																							expr: &seqExpr{
-																								pos: position{line: 658, col: 25, offset: 20791},
+																								pos: position{line: 659, col: 25, offset: 20818},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 658, col: 25, offset: 20791},
+																										pos:        position{line: 659, col: 25, offset: 20818},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 37, offset: 20803},
+																										pos:   position{line: 659, col: 37, offset: 20830},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -19295,33 +19513,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 56, offset: 20822},
+																										pos:   position{line: 659, col: 56, offset: 20849},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 658, col: 62, offset: 20828},
+																											pos: position{line: 659, col: 62, offset: 20855},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21123},
+																												pos: position{line: 667, col: 17, offset: 21152},
 																												run: (*parser).callonImageBlock73,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21123},
+																													pos: position{line: 667, col: 17, offset: 21152},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21123},
+																															pos:        position{line: 667, col: 17, offset: 21152},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21127},
+																															pos:   position{line: 667, col: 21, offset: 21156},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 667, col: 28, offset: 21163},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 667, col: 28, offset: 21163},
 																																		run: (*parser).callonImageBlock78,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21134},
+																																			pos:        position{line: 667, col: 28, offset: 21163},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -19329,12 +19547,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21188},
+																																		pos: position{line: 669, col: 9, offset: 21217},
 																																		run: (*parser).callonImageBlock80,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21188},
+																																			pos: position{line: 669, col: 9, offset: 21217},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21188},
+																																				pos:        position{line: 669, col: 9, offset: 21217},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -19351,7 +19569,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 658, col: 78, offset: 20844},
+																										pos:        position{line: 659, col: 78, offset: 20871},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19360,19 +19578,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 662, col: 25, offset: 20962},
+																							pos: position{line: 663, col: 25, offset: 20989},
 																							run: (*parser).callonImageBlock84,
 																							expr: &seqExpr{
-																								pos: position{line: 662, col: 25, offset: 20962},
+																								pos: position{line: 663, col: 25, offset: 20989},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 662, col: 25, offset: 20962},
+																										pos:        position{line: 663, col: 25, offset: 20989},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 38, offset: 20975},
+																										pos:   position{line: 663, col: 38, offset: 21002},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -19404,33 +19622,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 57, offset: 20994},
+																										pos:   position{line: 663, col: 57, offset: 21021},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 662, col: 63, offset: 21000},
+																											pos: position{line: 663, col: 63, offset: 21027},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21123},
+																												pos: position{line: 667, col: 17, offset: 21152},
 																												run: (*parser).callonImageBlock95,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21123},
+																													pos: position{line: 667, col: 17, offset: 21152},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21123},
+																															pos:        position{line: 667, col: 17, offset: 21152},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21127},
+																															pos:   position{line: 667, col: 21, offset: 21156},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 667, col: 28, offset: 21163},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 667, col: 28, offset: 21163},
 																																		run: (*parser).callonImageBlock100,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21134},
+																																			pos:        position{line: 667, col: 28, offset: 21163},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -19438,12 +19656,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21188},
+																																		pos: position{line: 669, col: 9, offset: 21217},
 																																		run: (*parser).callonImageBlock102,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21188},
+																																			pos: position{line: 669, col: 9, offset: 21217},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21188},
+																																				pos:        position{line: 669, col: 9, offset: 21217},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -19460,7 +19678,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 662, col: 79, offset: 21016},
+																										pos:        position{line: 663, col: 79, offset: 21043},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19475,27 +19693,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1198, col: 23, offset: 36972},
+																	pos: position{line: 1199, col: 23, offset: 37001},
 																	run: (*parser).callonImageBlock106,
 																	expr: &seqExpr{
-																		pos: position{line: 1198, col: 23, offset: 36972},
+																		pos: position{line: 1199, col: 23, offset: 37001},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36940},
+																				pos:        position{line: 1197, col: 32, offset: 36969},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1198, col: 51, offset: 37000},
+																				pos:   position{line: 1199, col: 51, offset: 37029},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1198, col: 56, offset: 37005},
+																					pos: position{line: 1199, col: 56, offset: 37034},
 																					run: (*parser).callonImageBlock110,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1198, col: 56, offset: 37005},
+																						pos: position{line: 1199, col: 56, offset: 37034},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1198, col: 56, offset: 37005},
+																							pos:        position{line: 1199, col: 56, offset: 37034},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -19505,7 +19723,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36940},
+																				pos:        position{line: 1197, col: 32, offset: 36969},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -19514,10 +19732,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2879, col: 11, offset: 90969},
+																	pos: position{line: 2880, col: 11, offset: 90998},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2879, col: 11, offset: 90969},
+																		pos:        position{line: 2880, col: 11, offset: 90998},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -19534,20 +19752,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1312, col: 31, offset: 40983},
+							pos:   position{line: 1313, col: 31, offset: 41012},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1312, col: 43, offset: 40995},
+								pos:  position{line: 1313, col: 43, offset: 41024},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1312, col: 61, offset: 41013},
+							pos: position{line: 1313, col: 61, offset: 41042},
 							expr: &actionExpr{
-								pos: position{line: 2900, col: 10, offset: 91454},
+								pos: position{line: 2901, col: 10, offset: 91483},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2900, col: 10, offset: 91454},
+									pos:        position{line: 2901, col: 10, offset: 91483},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19556,28 +19774,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2922, col: 8, offset: 91852},
+							pos: position{line: 2923, col: 8, offset: 91881},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2909, col: 12, offset: 91625},
+									pos: position{line: 2910, col: 12, offset: 91654},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2909, col: 13, offset: 91626},
+										pos: position{line: 2910, col: 13, offset: 91655},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2909, col: 13, offset: 91626},
+												pos:        position{line: 2910, col: 13, offset: 91655},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2909, col: 20, offset: 91633},
+												pos:        position{line: 2910, col: 20, offset: 91662},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2909, col: 29, offset: 91642},
+												pos:        position{line: 2910, col: 29, offset: 91671},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19586,9 +19804,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2919, col: 8, offset: 91802},
+									pos: position{line: 2920, col: 8, offset: 91831},
 									expr: &anyMatcher{
-										line: 2919, col: 9, offset: 91803,
+										line: 2920, col: 9, offset: 91832,
 									},
 								},
 							},
@@ -19599,74 +19817,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1317, col: 1, offset: 41230},
+			pos:  position{line: 1318, col: 1, offset: 41259},
 			expr: &actionExpr{
-				pos: position{line: 1317, col: 16, offset: 41245},
+				pos: position{line: 1318, col: 16, offset: 41274},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1317, col: 16, offset: 41245},
+					pos: position{line: 1318, col: 16, offset: 41274},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1317, col: 16, offset: 41245},
+							pos:        position{line: 1318, col: 16, offset: 41274},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1317, col: 25, offset: 41254},
+							pos: position{line: 1318, col: 25, offset: 41283},
 							expr: &litMatcher{
-								pos:        position{line: 1317, col: 26, offset: 41255},
+								pos:        position{line: 1318, col: 26, offset: 41284},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1317, col: 30, offset: 41259},
+							pos:   position{line: 1318, col: 30, offset: 41288},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2858, col: 13, offset: 90213},
+								pos: position{line: 2859, col: 13, offset: 90242},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2858, col: 13, offset: 90213},
+									pos: position{line: 2859, col: 13, offset: 90242},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2858, col: 13, offset: 90213},
+											pos:   position{line: 2859, col: 13, offset: 90242},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2858, col: 20, offset: 90220},
+												pos: position{line: 2859, col: 20, offset: 90249},
 												expr: &actionExpr{
-													pos: position{line: 2866, col: 11, offset: 90459},
+													pos: position{line: 2867, col: 11, offset: 90488},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2866, col: 12, offset: 90460},
+														pos: position{line: 2867, col: 12, offset: 90489},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2866, col: 12, offset: 90460},
+																pos:        position{line: 2867, col: 12, offset: 90489},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2866, col: 24, offset: 90472},
+																pos:        position{line: 2867, col: 24, offset: 90501},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2866, col: 37, offset: 90485},
+																pos:        position{line: 2867, col: 37, offset: 90514},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2866, col: 48, offset: 90496},
+																pos:        position{line: 2867, col: 48, offset: 90525},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2866, col: 59, offset: 90507},
+																pos:        position{line: 2867, col: 59, offset: 90536},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19677,38 +19895,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2858, col: 30, offset: 90230},
+											pos:   position{line: 2859, col: 30, offset: 90259},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2871, col: 5, offset: 90571},
+												pos: position{line: 2872, col: 5, offset: 90600},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2871, col: 5, offset: 90571},
+													pos:   position{line: 2872, col: 5, offset: 90600},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2871, col: 14, offset: 90580},
+														pos: position{line: 2872, col: 14, offset: 90609},
 														expr: &choiceExpr{
-															pos: position{line: 2872, col: 9, offset: 90590},
+															pos: position{line: 2873, col: 9, offset: 90619},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2872, col: 9, offset: 90590},
+																	pos: position{line: 2873, col: 9, offset: 90619},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2872, col: 9, offset: 90590},
+																		pos: position{line: 2873, col: 9, offset: 90619},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2872, col: 9, offset: 90590},
+																				pos: position{line: 2873, col: 9, offset: 90619},
 																				expr: &litMatcher{
-																					pos:        position{line: 2872, col: 10, offset: 90591},
+																					pos:        position{line: 2873, col: 10, offset: 90620},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2873, col: 9, offset: 90619},
+																				pos: position{line: 2874, col: 9, offset: 90648},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90620},
+																					pos:        position{line: 2874, col: 10, offset: 90649},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19719,27 +19937,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2876, col: 11, offset: 90832},
+																	pos: position{line: 2877, col: 11, offset: 90861},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2876, col: 11, offset: 90832},
+																			pos:        position{line: 2877, col: 11, offset: 90861},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2876, col: 19, offset: 90840},
+																			pos: position{line: 2877, col: 19, offset: 90869},
 																			expr: &seqExpr{
-																				pos: position{line: 2876, col: 21, offset: 90842},
+																				pos: position{line: 2877, col: 21, offset: 90871},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2876, col: 21, offset: 90842},
+																						pos: position{line: 2877, col: 21, offset: 90871},
 																						expr: &actionExpr{
-																							pos: position{line: 2900, col: 10, offset: 91454},
+																							pos: position{line: 2901, col: 10, offset: 91483},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2900, col: 10, offset: 91454},
+																								pos:        position{line: 2901, col: 10, offset: 91483},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19748,11 +19966,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2876, col: 28, offset: 90849},
+																						pos: position{line: 2877, col: 28, offset: 90878},
 																						expr: &notExpr{
-																							pos: position{line: 2919, col: 8, offset: 91802},
+																							pos: position{line: 2920, col: 8, offset: 91831},
 																							expr: &anyMatcher{
-																								line: 2919, col: 9, offset: 91803,
+																								line: 2920, col: 9, offset: 91832,
 																							},
 																						},
 																					},
@@ -19762,35 +19980,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 636, col: 5, offset: 20109},
+																	pos: position{line: 637, col: 5, offset: 20136},
 																	run: (*parser).callonInlineImage39,
 																	expr: &seqExpr{
-																		pos: position{line: 636, col: 5, offset: 20109},
+																		pos: position{line: 637, col: 5, offset: 20136},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 637, col: 5, offset: 20136},
 																				run: (*parser).callonInlineImage41,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 639, col: 5, offset: 20181},
+																				pos:   position{line: 640, col: 5, offset: 20208},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 639, col: 14, offset: 20190},
+																					pos: position{line: 640, col: 14, offset: 20217},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 646, col: 5, offset: 20346},
 																							run: (*parser).callonInlineImage44,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20319},
+																								pos: position{line: 646, col: 5, offset: 20346},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20319},
+																										pos:        position{line: 646, col: 5, offset: 20346},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20327},
+																										pos:   position{line: 646, col: 13, offset: 20354},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -19822,7 +20040,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20346},
+																										pos:        position{line: 646, col: 32, offset: 20373},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19831,19 +20049,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 653, col: 5, offset: 20614},
 																							run: (*parser).callonInlineImage54,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20587},
+																								pos: position{line: 653, col: 5, offset: 20614},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20587},
+																										pos:        position{line: 653, col: 5, offset: 20614},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20591},
+																										pos:   position{line: 653, col: 9, offset: 20618},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -19875,7 +20093,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20610},
+																										pos:        position{line: 653, col: 28, offset: 20637},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19884,19 +20102,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 658, col: 25, offset: 20791},
+																							pos: position{line: 659, col: 25, offset: 20818},
 																							run: (*parser).callonInlineImage64,
 																							expr: &seqExpr{
-																								pos: position{line: 658, col: 25, offset: 20791},
+																								pos: position{line: 659, col: 25, offset: 20818},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 658, col: 25, offset: 20791},
+																										pos:        position{line: 659, col: 25, offset: 20818},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 37, offset: 20803},
+																										pos:   position{line: 659, col: 37, offset: 20830},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -19928,33 +20146,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 56, offset: 20822},
+																										pos:   position{line: 659, col: 56, offset: 20849},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 658, col: 62, offset: 20828},
+																											pos: position{line: 659, col: 62, offset: 20855},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21123},
+																												pos: position{line: 667, col: 17, offset: 21152},
 																												run: (*parser).callonInlineImage75,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21123},
+																													pos: position{line: 667, col: 17, offset: 21152},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21123},
+																															pos:        position{line: 667, col: 17, offset: 21152},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21127},
+																															pos:   position{line: 667, col: 21, offset: 21156},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 667, col: 28, offset: 21163},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 667, col: 28, offset: 21163},
 																																		run: (*parser).callonInlineImage80,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21134},
+																																			pos:        position{line: 667, col: 28, offset: 21163},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -19962,12 +20180,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21188},
+																																		pos: position{line: 669, col: 9, offset: 21217},
 																																		run: (*parser).callonInlineImage82,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21188},
+																																			pos: position{line: 669, col: 9, offset: 21217},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21188},
+																																				pos:        position{line: 669, col: 9, offset: 21217},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -19984,7 +20202,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 658, col: 78, offset: 20844},
+																										pos:        position{line: 659, col: 78, offset: 20871},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19993,19 +20211,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 662, col: 25, offset: 20962},
+																							pos: position{line: 663, col: 25, offset: 20989},
 																							run: (*parser).callonInlineImage86,
 																							expr: &seqExpr{
-																								pos: position{line: 662, col: 25, offset: 20962},
+																								pos: position{line: 663, col: 25, offset: 20989},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 662, col: 25, offset: 20962},
+																										pos:        position{line: 663, col: 25, offset: 20989},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 38, offset: 20975},
+																										pos:   position{line: 663, col: 38, offset: 21002},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20037,33 +20255,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 57, offset: 20994},
+																										pos:   position{line: 663, col: 57, offset: 21021},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 662, col: 63, offset: 21000},
+																											pos: position{line: 663, col: 63, offset: 21027},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21123},
+																												pos: position{line: 667, col: 17, offset: 21152},
 																												run: (*parser).callonInlineImage97,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21123},
+																													pos: position{line: 667, col: 17, offset: 21152},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21123},
+																															pos:        position{line: 667, col: 17, offset: 21152},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21127},
+																															pos:   position{line: 667, col: 21, offset: 21156},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 667, col: 28, offset: 21163},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 667, col: 28, offset: 21163},
 																																		run: (*parser).callonInlineImage102,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21134},
+																																			pos:        position{line: 667, col: 28, offset: 21163},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20071,12 +20289,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21188},
+																																		pos: position{line: 669, col: 9, offset: 21217},
 																																		run: (*parser).callonInlineImage104,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21188},
+																																			pos: position{line: 669, col: 9, offset: 21217},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21188},
+																																				pos:        position{line: 669, col: 9, offset: 21217},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20093,7 +20311,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 662, col: 79, offset: 21016},
+																										pos:        position{line: 663, col: 79, offset: 21043},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20108,27 +20326,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1198, col: 23, offset: 36972},
+																	pos: position{line: 1199, col: 23, offset: 37001},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1198, col: 23, offset: 36972},
+																		pos: position{line: 1199, col: 23, offset: 37001},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36940},
+																				pos:        position{line: 1197, col: 32, offset: 36969},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1198, col: 51, offset: 37000},
+																				pos:   position{line: 1199, col: 51, offset: 37029},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1198, col: 56, offset: 37005},
+																					pos: position{line: 1199, col: 56, offset: 37034},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1198, col: 56, offset: 37005},
+																						pos: position{line: 1199, col: 56, offset: 37034},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1198, col: 56, offset: 37005},
+																							pos:        position{line: 1199, col: 56, offset: 37034},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20138,7 +20356,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36940},
+																				pos:        position{line: 1197, col: 32, offset: 36969},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20147,10 +20365,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2879, col: 11, offset: 90969},
+																	pos: position{line: 2880, col: 11, offset: 90998},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2879, col: 11, offset: 90969},
+																		pos:        position{line: 2880, col: 11, offset: 90998},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20167,10 +20385,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1317, col: 46, offset: 41275},
+							pos:   position{line: 1318, col: 46, offset: 41304},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1317, col: 58, offset: 41287},
+								pos:  position{line: 1318, col: 58, offset: 41316},
 								name: "InlineAttributes",
 							},
 						},
@@ -20180,29 +20398,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1324, col: 1, offset: 41683},
+			pos:  position{line: 1325, col: 1, offset: 41712},
 			expr: &actionExpr{
-				pos: position{line: 1324, col: 15, offset: 41697},
+				pos: position{line: 1325, col: 15, offset: 41726},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1324, col: 15, offset: 41697},
+					pos: position{line: 1325, col: 15, offset: 41726},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1324, col: 15, offset: 41697},
+							pos:        position{line: 1325, col: 15, offset: 41726},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1324, col: 23, offset: 41705},
+							pos:   position{line: 1325, col: 23, offset: 41734},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1324, col: 29, offset: 41711},
+								pos: position{line: 1325, col: 29, offset: 41740},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1324, col: 29, offset: 41711},
+									pos: position{line: 1325, col: 29, offset: 41740},
 									expr: &charClassMatcher{
-										pos:        position{line: 1324, col: 29, offset: 41711},
+										pos:        position{line: 1325, col: 29, offset: 41740},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20213,10 +20431,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1324, col: 73, offset: 41755},
+							pos:   position{line: 1325, col: 73, offset: 41784},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1324, col: 85, offset: 41767},
+								pos:  position{line: 1325, col: 85, offset: 41796},
 								name: "InlineAttributes",
 							},
 						},
@@ -20226,31 +20444,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1331, col: 1, offset: 42133},
+			pos:  position{line: 1332, col: 1, offset: 42162},
 			expr: &actionExpr{
-				pos: position{line: 1331, col: 19, offset: 42151},
+				pos: position{line: 1332, col: 19, offset: 42180},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1331, col: 19, offset: 42151},
+					pos: position{line: 1332, col: 19, offset: 42180},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1331, col: 19, offset: 42151},
+							pos:        position{line: 1332, col: 19, offset: 42180},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1331, col: 31, offset: 42163},
+							pos:   position{line: 1332, col: 31, offset: 42192},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1331, col: 35, offset: 42167},
+								pos: position{line: 1332, col: 35, offset: 42196},
 								expr: &actionExpr{
-									pos: position{line: 2794, col: 14, offset: 88623},
+									pos: position{line: 2795, col: 14, offset: 88652},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2794, col: 14, offset: 88623},
+										pos: position{line: 2795, col: 14, offset: 88652},
 										expr: &charClassMatcher{
-											pos:        position{line: 2794, col: 14, offset: 88623},
+											pos:        position{line: 2795, col: 14, offset: 88652},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20261,21 +20479,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1331, col: 50, offset: 42182},
+							pos:        position{line: 1332, col: 50, offset: 42211},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1331, col: 54, offset: 42186},
+							pos:   position{line: 1332, col: 54, offset: 42215},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1331, col: 64, offset: 42196},
+								pos:  position{line: 1332, col: 64, offset: 42225},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1331, col: 82, offset: 42214},
+							pos:        position{line: 1332, col: 82, offset: 42243},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20286,24 +20504,24 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1337, col: 1, offset: 42371},
+			pos:  position{line: 1338, col: 1, offset: 42400},
 			expr: &actionExpr{
-				pos: position{line: 1338, col: 5, offset: 42396},
+				pos: position{line: 1339, col: 5, offset: 42425},
 				run: (*parser).callonFootnoteElements1,
 				expr: &seqExpr{
-					pos: position{line: 1338, col: 5, offset: 42396},
+					pos: position{line: 1339, col: 5, offset: 42425},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1338, col: 5, offset: 42396},
+							pos: position{line: 1339, col: 5, offset: 42425},
 							run: (*parser).callonFootnoteElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1342, col: 5, offset: 42507},
+							pos:   position{line: 1343, col: 5, offset: 42536},
 							label: "elements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1342, col: 14, offset: 42516},
+								pos: position{line: 1343, col: 14, offset: 42545},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1342, col: 15, offset: 42517},
+									pos:  position{line: 1343, col: 15, offset: 42546},
 									name: "FootnoteElement",
 								},
 							},
@@ -20314,44 +20532,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1346, col: 1, offset: 42609},
+			pos:  position{line: 1347, col: 1, offset: 42638},
 			expr: &actionExpr{
-				pos: position{line: 1347, col: 5, offset: 42633},
+				pos: position{line: 1348, col: 5, offset: 42662},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1347, col: 5, offset: 42633},
+					pos: position{line: 1348, col: 5, offset: 42662},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1347, col: 5, offset: 42633},
+							pos: position{line: 1348, col: 5, offset: 42662},
 							expr: &litMatcher{
-								pos:        position{line: 1347, col: 6, offset: 42634},
+								pos:        position{line: 1348, col: 6, offset: 42663},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1348, col: 5, offset: 42643},
+							pos:   position{line: 1349, col: 5, offset: 42672},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1349, col: 9, offset: 42661},
+								pos: position{line: 1350, col: 9, offset: 42690},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2799, col: 5, offset: 88696},
+										pos: position{line: 2800, col: 5, offset: 88725},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2799, col: 5, offset: 88696},
+											pos: position{line: 2800, col: 5, offset: 88725},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2799, col: 5, offset: 88696},
+													pos:   position{line: 2800, col: 5, offset: 88725},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2799, col: 11, offset: 88702},
+														pos: position{line: 2800, col: 11, offset: 88731},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2799, col: 11, offset: 88702},
+															pos: position{line: 2800, col: 11, offset: 88731},
 															expr: &charClassMatcher{
-																pos:        position{line: 2799, col: 11, offset: 88702},
+																pos:        position{line: 2800, col: 11, offset: 88731},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20361,36 +20579,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2802, col: 5, offset: 88760},
+													pos: position{line: 2803, col: 5, offset: 88789},
 													expr: &seqExpr{
-														pos: position{line: 2803, col: 9, offset: 88771},
+														pos: position{line: 2804, col: 9, offset: 88800},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2803, col: 9, offset: 88771},
+																pos:        position{line: 2804, col: 9, offset: 88800},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2804, col: 9, offset: 88820},
+																pos: position{line: 2805, col: 9, offset: 88849},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2808, col: 5, offset: 88900},
+													pos: position{line: 2809, col: 5, offset: 88929},
 													expr: &seqExpr{
-														pos: position{line: 2809, col: 9, offset: 88911},
+														pos: position{line: 2810, col: 9, offset: 88940},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2809, col: 9, offset: 88911},
+																pos:        position{line: 2810, col: 9, offset: 88940},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2809, col: 13, offset: 88915},
+																pos:        position{line: 2810, col: 13, offset: 88944},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20403,12 +20621,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2904, col: 11, offset: 91515},
+										pos: position{line: 2905, col: 11, offset: 91544},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2904, col: 11, offset: 91515},
+											pos: position{line: 2905, col: 11, offset: 91544},
 											expr: &charClassMatcher{
-												pos:        position{line: 2904, col: 11, offset: 91515},
+												pos:        position{line: 2905, col: 11, offset: 91544},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -20417,21 +20635,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2528, col: 5, offset: 81156},
+										pos: position{line: 2529, col: 5, offset: 81185},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2528, col: 5, offset: 81156},
+											pos: position{line: 2529, col: 5, offset: 81185},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2528, col: 5, offset: 81156},
+													pos:        position{line: 2529, col: 5, offset: 81185},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2528, col: 10, offset: 81161},
+													pos: position{line: 2529, col: 10, offset: 81190},
 													expr: &charClassMatcher{
-														pos:        position{line: 2528, col: 11, offset: 81162},
+														pos:        position{line: 2529, col: 11, offset: 81191},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20442,29 +20660,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2534, col: 5, offset: 81354},
+										pos: position{line: 2535, col: 5, offset: 81383},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2534, col: 5, offset: 81354},
+											pos: position{line: 2535, col: 5, offset: 81383},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2534, col: 5, offset: 81354},
+													pos: position{line: 2535, col: 5, offset: 81383},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2537, col: 5, offset: 81425},
+													pos: position{line: 2538, col: 5, offset: 81454},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2541, col: 5, offset: 81550},
+													pos:        position{line: 2542, col: 5, offset: 81579},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2541, col: 9, offset: 81554},
+													pos: position{line: 2542, col: 9, offset: 81583},
 													expr: &charClassMatcher{
-														pos:        position{line: 2541, col: 10, offset: 81555},
+														pos:        position{line: 2542, col: 10, offset: 81584},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20475,35 +20693,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1352, col: 11, offset: 42728},
+										pos:  position{line: 1353, col: 11, offset: 42757},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1353, col: 11, offset: 42744},
+										pos:  position{line: 1354, col: 11, offset: 42773},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2817, col: 5, offset: 89108},
+										pos: position{line: 2818, col: 5, offset: 89137},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2818, col: 9, offset: 89118},
+											pos: position{line: 2819, col: 9, offset: 89147},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2818, col: 10, offset: 89119},
+													pos:        position{line: 2819, col: 10, offset: 89148},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2820, col: 13, offset: 89216},
+													pos: position{line: 2821, col: 13, offset: 89245},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2820, col: 13, offset: 89216},
+															pos: position{line: 2821, col: 13, offset: 89245},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2823, col: 13, offset: 89316},
+															pos:        position{line: 2824, col: 13, offset: 89345},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -20511,20 +20729,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2823, col: 19, offset: 89322},
+													pos:        position{line: 2824, col: 19, offset: 89351},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2826, col: 13, offset: 89360},
+													pos: position{line: 2827, col: 13, offset: 89389},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2826, col: 13, offset: 89360},
+															pos: position{line: 2827, col: 13, offset: 89389},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2829, col: 14, offset: 89453},
+															pos:        position{line: 2830, col: 14, offset: 89482},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -20533,18 +20751,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2831, col: 12, offset: 89497},
+													pos: position{line: 2832, col: 12, offset: 89526},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2831, col: 12, offset: 89497},
+															pos:        position{line: 2832, col: 12, offset: 89526},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2831, col: 16, offset: 89501},
+															pos: position{line: 2832, col: 16, offset: 89530},
 															expr: &litMatcher{
-																pos:        position{line: 2831, col: 17, offset: 89502},
+																pos:        position{line: 2832, col: 17, offset: 89531},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -20556,36 +20774,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1355, col: 11, offset: 42817},
+										pos:  position{line: 1356, col: 11, offset: 42846},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1206, col: 5, offset: 37418},
+										pos: position{line: 1207, col: 5, offset: 37447},
 										run: (*parser).callonFootnoteElement53,
 										expr: &seqExpr{
-											pos: position{line: 1206, col: 5, offset: 37418},
+											pos: position{line: 1207, col: 5, offset: 37447},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1206, col: 5, offset: 37418},
+													pos: position{line: 1207, col: 5, offset: 37447},
 													run: (*parser).callonFootnoteElement55,
 												},
 												&litMatcher{
-													pos:        position{line: 1209, col: 5, offset: 37494},
+													pos:        position{line: 1210, col: 5, offset: 37523},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1210, col: 5, offset: 37502},
+													pos: position{line: 1211, col: 5, offset: 37531},
 													run: (*parser).callonFootnoteElement57,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1214, col: 5, offset: 37589},
+													pos: position{line: 1215, col: 5, offset: 37618},
 													expr: &actionExpr{
-														pos: position{line: 2900, col: 10, offset: 91454},
+														pos: position{line: 2901, col: 10, offset: 91483},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2900, col: 10, offset: 91454},
+															pos:        position{line: 2901, col: 10, offset: 91483},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -20594,30 +20812,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1214, col: 12, offset: 37596},
+													pos: position{line: 1215, col: 12, offset: 37625},
 													expr: &choiceExpr{
-														pos: position{line: 2922, col: 8, offset: 91852},
+														pos: position{line: 2923, col: 8, offset: 91881},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2909, col: 12, offset: 91625},
+																pos: position{line: 2910, col: 12, offset: 91654},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2909, col: 13, offset: 91626},
+																	pos: position{line: 2910, col: 13, offset: 91655},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 13, offset: 91626},
+																			pos:        position{line: 2910, col: 13, offset: 91655},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 20, offset: 91633},
+																			pos:        position{line: 2910, col: 20, offset: 91662},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 29, offset: 91642},
+																			pos:        position{line: 2910, col: 29, offset: 91671},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -20626,9 +20844,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2919, col: 8, offset: 91802},
+																pos: position{line: 2920, col: 8, offset: 91831},
 																expr: &anyMatcher{
-																	line: 2919, col: 9, offset: 91803,
+																	line: 2920, col: 9, offset: 91832,
 																},
 															},
 														},
@@ -20638,35 +20856,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20109},
+										pos: position{line: 637, col: 5, offset: 20136},
 										run: (*parser).callonFootnoteElement70,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20109},
+											pos: position{line: 637, col: 5, offset: 20136},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20109},
+													pos: position{line: 637, col: 5, offset: 20136},
 													run: (*parser).callonFootnoteElement72,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20181},
+													pos:   position{line: 640, col: 5, offset: 20208},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20190},
+														pos: position{line: 640, col: 14, offset: 20217},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20319},
+																pos: position{line: 646, col: 5, offset: 20346},
 																run: (*parser).callonFootnoteElement75,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20319},
+																	pos: position{line: 646, col: 5, offset: 20346},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20319},
+																			pos:        position{line: 646, col: 5, offset: 20346},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20327},
+																			pos:   position{line: 646, col: 13, offset: 20354},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -20698,7 +20916,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20346},
+																			pos:        position{line: 646, col: 32, offset: 20373},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -20707,19 +20925,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20587},
+																pos: position{line: 653, col: 5, offset: 20614},
 																run: (*parser).callonFootnoteElement85,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20587},
+																	pos: position{line: 653, col: 5, offset: 20614},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20587},
+																			pos:        position{line: 653, col: 5, offset: 20614},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20591},
+																			pos:   position{line: 653, col: 9, offset: 20618},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -20751,7 +20969,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20610},
+																			pos:        position{line: 653, col: 28, offset: 20637},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -20760,19 +20978,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20791},
+																pos: position{line: 659, col: 25, offset: 20818},
 																run: (*parser).callonFootnoteElement95,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20791},
+																	pos: position{line: 659, col: 25, offset: 20818},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20791},
+																			pos:        position{line: 659, col: 25, offset: 20818},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20803},
+																			pos:   position{line: 659, col: 37, offset: 20830},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -20804,33 +21022,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20822},
+																			pos:   position{line: 659, col: 56, offset: 20849},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20828},
+																				pos: position{line: 659, col: 62, offset: 20855},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 667, col: 17, offset: 21152},
 																					run: (*parser).callonFootnoteElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 667, col: 17, offset: 21152},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 667, col: 17, offset: 21152},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 667, col: 21, offset: 21156},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 667, col: 28, offset: 21163},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 667, col: 28, offset: 21163},
 																											run: (*parser).callonFootnoteElement111,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 667, col: 28, offset: 21163},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -20838,12 +21056,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 669, col: 9, offset: 21217},
 																											run: (*parser).callonFootnoteElement113,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 669, col: 9, offset: 21217},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 669, col: 9, offset: 21217},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -20860,7 +21078,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20844},
+																			pos:        position{line: 659, col: 78, offset: 20871},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -20869,19 +21087,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 20962},
+																pos: position{line: 663, col: 25, offset: 20989},
 																run: (*parser).callonFootnoteElement117,
 																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 20962},
+																	pos: position{line: 663, col: 25, offset: 20989},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 20962},
+																			pos:        position{line: 663, col: 25, offset: 20989},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 20975},
+																			pos:   position{line: 663, col: 38, offset: 21002},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -20913,33 +21131,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 20994},
+																			pos:   position{line: 663, col: 57, offset: 21021},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21000},
+																				pos: position{line: 663, col: 63, offset: 21027},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 667, col: 17, offset: 21152},
 																					run: (*parser).callonFootnoteElement128,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 667, col: 17, offset: 21152},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 667, col: 17, offset: 21152},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 667, col: 21, offset: 21156},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 667, col: 28, offset: 21163},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 667, col: 28, offset: 21163},
 																											run: (*parser).callonFootnoteElement133,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 667, col: 28, offset: 21163},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -20947,12 +21165,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 669, col: 9, offset: 21217},
 																											run: (*parser).callonFootnoteElement135,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 669, col: 9, offset: 21217},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 669, col: 9, offset: 21217},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -20969,7 +21187,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21016},
+																			pos:        position{line: 663, col: 79, offset: 21043},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -20984,23 +21202,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2497, col: 5, offset: 79985},
+										pos: position{line: 2498, col: 5, offset: 80014},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2497, col: 5, offset: 79985},
+											pos: position{line: 2498, col: 5, offset: 80014},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2497, col: 5, offset: 79985},
+													pos: position{line: 2498, col: 5, offset: 80014},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2500, col: 5, offset: 80061},
+													pos:   position{line: 2501, col: 5, offset: 80090},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2501, col: 9, offset: 80079},
+														pos: position{line: 2502, col: 9, offset: 80108},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2501, col: 10, offset: 80080},
+															pos:        position{line: 2502, col: 10, offset: 80109},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21012,25 +21230,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2909, col: 12, offset: 91625},
+										pos: position{line: 2910, col: 12, offset: 91654},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2909, col: 13, offset: 91626},
+											pos: position{line: 2910, col: 13, offset: 91655},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2909, col: 13, offset: 91626},
+													pos:        position{line: 2910, col: 13, offset: 91655},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2909, col: 20, offset: 91633},
+													pos:        position{line: 2910, col: 20, offset: 91662},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2909, col: 29, offset: 91642},
+													pos:        position{line: 2910, col: 29, offset: 91671},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21039,10 +21257,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2839, col: 12, offset: 89762},
+										pos: position{line: 2840, col: 12, offset: 89791},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2839, col: 12, offset: 89762},
+											pos:        position{line: 2840, col: 12, offset: 89791},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21058,32 +21276,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1394, col: 1, offset: 44662},
+			pos:  position{line: 1395, col: 1, offset: 44691},
 			expr: &choiceExpr{
-				pos: position{line: 1394, col: 21, offset: 44682},
+				pos: position{line: 1395, col: 21, offset: 44711},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1394, col: 21, offset: 44682},
+						pos: position{line: 1395, col: 21, offset: 44711},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1394, col: 21, offset: 44682},
+							pos: position{line: 1395, col: 21, offset: 44711},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1394, col: 21, offset: 44682},
+									pos:        position{line: 1395, col: 21, offset: 44711},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1394, col: 30, offset: 44691},
+									pos:   position{line: 1395, col: 30, offset: 44720},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1394, col: 38, offset: 44699},
+										pos: position{line: 1395, col: 38, offset: 44728},
 										expr: &actionExpr{
-											pos: position{line: 1400, col: 30, offset: 45025},
+											pos: position{line: 1401, col: 30, offset: 45054},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1400, col: 30, offset: 45025},
+												pos:        position{line: 1401, col: 30, offset: 45054},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21093,7 +21311,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1394, col: 67, offset: 44728},
+									pos:        position{line: 1395, col: 67, offset: 44757},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21102,34 +21320,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1396, col: 9, offset: 44832},
+						pos: position{line: 1397, col: 9, offset: 44861},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1396, col: 9, offset: 44832},
+							pos: position{line: 1397, col: 9, offset: 44861},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1396, col: 9, offset: 44832},
+									pos:        position{line: 1397, col: 9, offset: 44861},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1396, col: 19, offset: 44842},
+									pos:   position{line: 1397, col: 19, offset: 44871},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1396, col: 27, offset: 44850},
+										pos: position{line: 1397, col: 27, offset: 44879},
 										expr: &choiceExpr{
-											pos: position{line: 1396, col: 28, offset: 44851},
+											pos: position{line: 1397, col: 28, offset: 44880},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1396, col: 28, offset: 44851},
+													pos:  position{line: 1397, col: 28, offset: 44880},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1400, col: 30, offset: 45025},
+													pos: position{line: 1401, col: 30, offset: 45054},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1400, col: 30, offset: 45025},
+														pos:        position{line: 1401, col: 30, offset: 45054},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -21141,7 +21359,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1396, col: 69, offset: 44892},
+									pos:        position{line: 1397, col: 69, offset: 44921},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21154,75 +21372,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1407, col: 1, offset: 45281},
+			pos:  position{line: 1408, col: 1, offset: 45310},
 			expr: &choiceExpr{
-				pos: position{line: 1407, col: 9, offset: 45289},
+				pos: position{line: 1408, col: 9, offset: 45318},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1410, col: 5, offset: 45358},
+						pos: position{line: 1411, col: 5, offset: 45387},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1410, col: 5, offset: 45358},
+							pos: position{line: 1411, col: 5, offset: 45387},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1410, col: 5, offset: 45358},
+									pos:        position{line: 1411, col: 5, offset: 45387},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1411, col: 5, offset: 45367},
+									pos:   position{line: 1412, col: 5, offset: 45396},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2862, col: 23, offset: 90340},
+										pos: position{line: 2863, col: 23, offset: 90369},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2862, col: 23, offset: 90340},
+											pos: position{line: 2863, col: 23, offset: 90369},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2862, col: 23, offset: 90340},
+													pos: position{line: 2863, col: 23, offset: 90369},
 													expr: &litMatcher{
-														pos:        position{line: 2862, col: 24, offset: 90341},
+														pos:        position{line: 2863, col: 24, offset: 90370},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2862, col: 28, offset: 90345},
+													pos:   position{line: 2863, col: 28, offset: 90374},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 11, offset: 90459},
+														pos: position{line: 2867, col: 11, offset: 90488},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2866, col: 12, offset: 90460},
+															pos: position{line: 2867, col: 12, offset: 90489},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2866, col: 12, offset: 90460},
+																	pos:        position{line: 2867, col: 12, offset: 90489},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2866, col: 24, offset: 90472},
+																	pos:        position{line: 2867, col: 24, offset: 90501},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2866, col: 37, offset: 90485},
+																	pos:        position{line: 2867, col: 37, offset: 90514},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2866, col: 48, offset: 90496},
+																	pos:        position{line: 2867, col: 48, offset: 90525},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2866, col: 59, offset: 90507},
+																	pos:        position{line: 2867, col: 59, offset: 90536},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21232,38 +21450,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2862, col: 44, offset: 90361},
+													pos:   position{line: 2863, col: 44, offset: 90390},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2871, col: 5, offset: 90571},
+														pos: position{line: 2872, col: 5, offset: 90600},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2871, col: 5, offset: 90571},
+															pos:   position{line: 2872, col: 5, offset: 90600},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2871, col: 14, offset: 90580},
+																pos: position{line: 2872, col: 14, offset: 90609},
 																expr: &choiceExpr{
-																	pos: position{line: 2872, col: 9, offset: 90590},
+																	pos: position{line: 2873, col: 9, offset: 90619},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 9, offset: 90590},
+																			pos: position{line: 2873, col: 9, offset: 90619},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2872, col: 9, offset: 90590},
+																				pos: position{line: 2873, col: 9, offset: 90619},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2872, col: 9, offset: 90590},
+																						pos: position{line: 2873, col: 9, offset: 90619},
 																						expr: &litMatcher{
-																							pos:        position{line: 2872, col: 10, offset: 90591},
+																							pos:        position{line: 2873, col: 10, offset: 90620},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2873, col: 9, offset: 90619},
+																						pos: position{line: 2874, col: 9, offset: 90648},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90620},
+																							pos:        position{line: 2874, col: 10, offset: 90649},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21274,27 +21492,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2876, col: 11, offset: 90832},
+																			pos: position{line: 2877, col: 11, offset: 90861},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2876, col: 11, offset: 90832},
+																					pos:        position{line: 2877, col: 11, offset: 90861},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2876, col: 19, offset: 90840},
+																					pos: position{line: 2877, col: 19, offset: 90869},
 																					expr: &seqExpr{
-																						pos: position{line: 2876, col: 21, offset: 90842},
+																						pos: position{line: 2877, col: 21, offset: 90871},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2876, col: 21, offset: 90842},
+																								pos: position{line: 2877, col: 21, offset: 90871},
 																								expr: &actionExpr{
-																									pos: position{line: 2900, col: 10, offset: 91454},
+																									pos: position{line: 2901, col: 10, offset: 91483},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2900, col: 10, offset: 91454},
+																										pos:        position{line: 2901, col: 10, offset: 91483},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21303,11 +21521,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2876, col: 28, offset: 90849},
+																								pos: position{line: 2877, col: 28, offset: 90878},
 																								expr: &notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -21317,35 +21535,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 637, col: 5, offset: 20136},
 																			run: (*parser).callonLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 637, col: 5, offset: 20136},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 637, col: 5, offset: 20136},
 																						run: (*parser).callonLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 640, col: 5, offset: 20208},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 640, col: 14, offset: 20217},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 646, col: 5, offset: 20346},
 																									run: (*parser).callonLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 646, col: 5, offset: 20346},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 646, col: 5, offset: 20346},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 646, col: 13, offset: 20354},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -21377,7 +21595,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 646, col: 32, offset: 20373},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21386,19 +21604,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 653, col: 5, offset: 20614},
 																									run: (*parser).callonLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 653, col: 5, offset: 20614},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 653, col: 5, offset: 20614},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 653, col: 9, offset: 20618},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -21430,7 +21648,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 653, col: 28, offset: 20637},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21439,19 +21657,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 659, col: 25, offset: 20818},
 																									run: (*parser).callonLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 659, col: 25, offset: 20818},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 659, col: 25, offset: 20818},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 659, col: 37, offset: 20830},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -21483,33 +21701,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 659, col: 56, offset: 20849},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 659, col: 62, offset: 20855},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 667, col: 17, offset: 21152},
 																														run: (*parser).callonLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 667, col: 17, offset: 21152},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 667, col: 17, offset: 21152},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 667, col: 21, offset: 21156},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 667, col: 28, offset: 21163},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 667, col: 28, offset: 21163},
 																																				run: (*parser).callonLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 667, col: 28, offset: 21163},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -21517,12 +21735,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 669, col: 9, offset: 21217},
 																																				run: (*parser).callonLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 669, col: 9, offset: 21217},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 669, col: 9, offset: 21217},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -21539,7 +21757,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 659, col: 78, offset: 20871},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21548,19 +21766,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 663, col: 25, offset: 20989},
 																									run: (*parser).callonLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 663, col: 25, offset: 20989},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 663, col: 25, offset: 20989},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 663, col: 38, offset: 21002},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -21592,33 +21810,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 663, col: 57, offset: 21021},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 663, col: 63, offset: 21027},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 667, col: 17, offset: 21152},
 																														run: (*parser).callonLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 667, col: 17, offset: 21152},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 667, col: 17, offset: 21152},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 667, col: 21, offset: 21156},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 667, col: 28, offset: 21163},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 667, col: 28, offset: 21163},
 																																				run: (*parser).callonLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 667, col: 28, offset: 21163},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -21626,12 +21844,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 669, col: 9, offset: 21217},
 																																				run: (*parser).callonLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 669, col: 9, offset: 21217},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 669, col: 9, offset: 21217},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -21648,7 +21866,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 663, col: 79, offset: 21043},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21663,27 +21881,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1199, col: 23, offset: 37001},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1199, col: 23, offset: 37001},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1197, col: 32, offset: 36969},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1199, col: 51, offset: 37029},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1199, col: 56, offset: 37034},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1199, col: 56, offset: 37034},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1199, col: 56, offset: 37034},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -21693,7 +21911,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1197, col: 32, offset: 36969},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -21702,10 +21920,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2879, col: 11, offset: 90969},
+																			pos: position{line: 2880, col: 11, offset: 90998},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2879, col: 11, offset: 90969},
+																				pos:        position{line: 2880, col: 11, offset: 90998},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -21722,7 +21940,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1416, col: 5, offset: 45586},
+									pos:        position{line: 1417, col: 5, offset: 45615},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -21731,38 +21949,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1407, col: 19, offset: 45299},
+						pos:  position{line: 1408, col: 19, offset: 45328},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1407, col: 34, offset: 45314},
+						pos:  position{line: 1408, col: 34, offset: 45343},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1445, col: 17, offset: 46579},
+						pos: position{line: 1446, col: 17, offset: 46608},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1445, col: 17, offset: 46579},
+							pos: position{line: 1446, col: 17, offset: 46608},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1445, col: 17, offset: 46579},
+									pos:   position{line: 1446, col: 17, offset: 46608},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1450, col: 5, offset: 46744},
+										pos: position{line: 1451, col: 5, offset: 46773},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1450, col: 5, offset: 46744},
+											pos: position{line: 1451, col: 5, offset: 46773},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1450, col: 5, offset: 46744},
+													pos:   position{line: 1451, col: 5, offset: 46773},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1450, col: 12, offset: 46751},
+														pos: position{line: 1451, col: 12, offset: 46780},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1450, col: 12, offset: 46751},
+															pos: position{line: 1451, col: 12, offset: 46780},
 															expr: &charClassMatcher{
-																pos:        position{line: 1450, col: 12, offset: 46751},
+																pos:        position{line: 1451, col: 12, offset: 46780},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -21774,7 +21992,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1453, col: 5, offset: 46835},
+													pos: position{line: 1454, col: 5, offset: 46864},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -21782,33 +22000,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1445, col: 43, offset: 46605},
+									pos:        position{line: 1446, col: 43, offset: 46634},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1445, col: 47, offset: 46609},
+									pos:   position{line: 1446, col: 47, offset: 46638},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1462, col: 23, offset: 47129},
+										pos: position{line: 1463, col: 23, offset: 47158},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1462, col: 23, offset: 47129},
+											pos: position{line: 1463, col: 23, offset: 47158},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1462, col: 23, offset: 47129},
+													pos:   position{line: 1463, col: 23, offset: 47158},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1462, col: 31, offset: 47137},
+														pos: position{line: 1463, col: 31, offset: 47166},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1462, col: 31, offset: 47137},
+															pos: position{line: 1463, col: 31, offset: 47166},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1462, col: 31, offset: 47137},
+																	pos: position{line: 1463, col: 31, offset: 47166},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1462, col: 31, offset: 47137},
+																		pos:        position{line: 1463, col: 31, offset: 47166},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -21816,20 +22034,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1462, col: 41, offset: 47147},
+																	pos: position{line: 1463, col: 41, offset: 47176},
 																	expr: &seqExpr{
-																		pos: position{line: 1462, col: 42, offset: 47148},
+																		pos: position{line: 1463, col: 42, offset: 47177},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1462, col: 42, offset: 47148},
+																				pos:        position{line: 1463, col: 42, offset: 47177},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1462, col: 46, offset: 47152},
+																				pos: position{line: 1463, col: 46, offset: 47181},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1462, col: 46, offset: 47152},
+																					pos:        position{line: 1463, col: 46, offset: 47181},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21845,7 +22063,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1465, col: 5, offset: 47213},
+													pos: position{line: 1466, col: 5, offset: 47242},
 													run: (*parser).callonLink145,
 												},
 											},
@@ -21860,68 +22078,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1422, col: 1, offset: 45734},
+			pos:  position{line: 1423, col: 1, offset: 45763},
 			expr: &choiceExpr{
-				pos: position{line: 1424, col: 5, offset: 45770},
+				pos: position{line: 1425, col: 5, offset: 45799},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1424, col: 5, offset: 45770},
+						pos: position{line: 1425, col: 5, offset: 45799},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1424, col: 5, offset: 45770},
+							pos: position{line: 1425, col: 5, offset: 45799},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1424, col: 5, offset: 45770},
+									pos:        position{line: 1425, col: 5, offset: 45799},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1424, col: 17, offset: 45782},
+									pos:   position{line: 1425, col: 17, offset: 45811},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2858, col: 13, offset: 90213},
+										pos: position{line: 2859, col: 13, offset: 90242},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2858, col: 13, offset: 90213},
+											pos: position{line: 2859, col: 13, offset: 90242},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2858, col: 13, offset: 90213},
+													pos:   position{line: 2859, col: 13, offset: 90242},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2858, col: 20, offset: 90220},
+														pos: position{line: 2859, col: 20, offset: 90249},
 														expr: &actionExpr{
-															pos: position{line: 2866, col: 11, offset: 90459},
+															pos: position{line: 2867, col: 11, offset: 90488},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2866, col: 12, offset: 90460},
+																pos: position{line: 2867, col: 12, offset: 90489},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2866, col: 12, offset: 90460},
+																		pos:        position{line: 2867, col: 12, offset: 90489},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2866, col: 24, offset: 90472},
+																		pos:        position{line: 2867, col: 24, offset: 90501},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2866, col: 37, offset: 90485},
+																		pos:        position{line: 2867, col: 37, offset: 90514},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2866, col: 48, offset: 90496},
+																		pos:        position{line: 2867, col: 48, offset: 90525},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2866, col: 59, offset: 90507},
+																		pos:        position{line: 2867, col: 59, offset: 90536},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -21932,38 +22150,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2858, col: 30, offset: 90230},
+													pos:   position{line: 2859, col: 30, offset: 90259},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2871, col: 5, offset: 90571},
+														pos: position{line: 2872, col: 5, offset: 90600},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2871, col: 5, offset: 90571},
+															pos:   position{line: 2872, col: 5, offset: 90600},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2871, col: 14, offset: 90580},
+																pos: position{line: 2872, col: 14, offset: 90609},
 																expr: &choiceExpr{
-																	pos: position{line: 2872, col: 9, offset: 90590},
+																	pos: position{line: 2873, col: 9, offset: 90619},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 9, offset: 90590},
+																			pos: position{line: 2873, col: 9, offset: 90619},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2872, col: 9, offset: 90590},
+																				pos: position{line: 2873, col: 9, offset: 90619},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2872, col: 9, offset: 90590},
+																						pos: position{line: 2873, col: 9, offset: 90619},
 																						expr: &litMatcher{
-																							pos:        position{line: 2872, col: 10, offset: 90591},
+																							pos:        position{line: 2873, col: 10, offset: 90620},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2873, col: 9, offset: 90619},
+																						pos: position{line: 2874, col: 9, offset: 90648},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90620},
+																							pos:        position{line: 2874, col: 10, offset: 90649},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21974,27 +22192,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2876, col: 11, offset: 90832},
+																			pos: position{line: 2877, col: 11, offset: 90861},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2876, col: 11, offset: 90832},
+																					pos:        position{line: 2877, col: 11, offset: 90861},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2876, col: 19, offset: 90840},
+																					pos: position{line: 2877, col: 19, offset: 90869},
 																					expr: &seqExpr{
-																						pos: position{line: 2876, col: 21, offset: 90842},
+																						pos: position{line: 2877, col: 21, offset: 90871},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2876, col: 21, offset: 90842},
+																								pos: position{line: 2877, col: 21, offset: 90871},
 																								expr: &actionExpr{
-																									pos: position{line: 2900, col: 10, offset: 91454},
+																									pos: position{line: 2901, col: 10, offset: 91483},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2900, col: 10, offset: 91454},
+																										pos:        position{line: 2901, col: 10, offset: 91483},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22003,11 +22221,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2876, col: 28, offset: 90849},
+																								pos: position{line: 2877, col: 28, offset: 90878},
 																								expr: &notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -22017,35 +22235,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 637, col: 5, offset: 20136},
 																			run: (*parser).callonRelativeLink38,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 637, col: 5, offset: 20136},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 637, col: 5, offset: 20136},
 																						run: (*parser).callonRelativeLink40,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 640, col: 5, offset: 20208},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 640, col: 14, offset: 20217},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 646, col: 5, offset: 20346},
 																									run: (*parser).callonRelativeLink43,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 646, col: 5, offset: 20346},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 646, col: 5, offset: 20346},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 646, col: 13, offset: 20354},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22077,7 +22295,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 646, col: 32, offset: 20373},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22086,19 +22304,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 653, col: 5, offset: 20614},
 																									run: (*parser).callonRelativeLink53,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 653, col: 5, offset: 20614},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 653, col: 5, offset: 20614},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 653, col: 9, offset: 20618},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22130,7 +22348,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 653, col: 28, offset: 20637},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22139,19 +22357,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 659, col: 25, offset: 20818},
 																									run: (*parser).callonRelativeLink63,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 659, col: 25, offset: 20818},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 659, col: 25, offset: 20818},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 659, col: 37, offset: 20830},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22183,33 +22401,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 659, col: 56, offset: 20849},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 659, col: 62, offset: 20855},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 667, col: 17, offset: 21152},
 																														run: (*parser).callonRelativeLink74,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 667, col: 17, offset: 21152},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 667, col: 17, offset: 21152},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 667, col: 21, offset: 21156},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 667, col: 28, offset: 21163},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 667, col: 28, offset: 21163},
 																																				run: (*parser).callonRelativeLink79,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 667, col: 28, offset: 21163},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22217,12 +22435,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 669, col: 9, offset: 21217},
 																																				run: (*parser).callonRelativeLink81,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 669, col: 9, offset: 21217},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 669, col: 9, offset: 21217},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22239,7 +22457,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 659, col: 78, offset: 20871},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22248,19 +22466,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 663, col: 25, offset: 20989},
 																									run: (*parser).callonRelativeLink85,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 663, col: 25, offset: 20989},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 663, col: 25, offset: 20989},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 663, col: 38, offset: 21002},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22292,33 +22510,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 663, col: 57, offset: 21021},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 663, col: 63, offset: 21027},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 667, col: 17, offset: 21152},
 																														run: (*parser).callonRelativeLink96,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 667, col: 17, offset: 21152},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 667, col: 17, offset: 21152},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 667, col: 21, offset: 21156},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 667, col: 28, offset: 21163},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 667, col: 28, offset: 21163},
 																																				run: (*parser).callonRelativeLink101,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 667, col: 28, offset: 21163},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22326,12 +22544,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 669, col: 9, offset: 21217},
 																																				run: (*parser).callonRelativeLink103,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 669, col: 9, offset: 21217},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 669, col: 9, offset: 21217},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22348,7 +22566,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 663, col: 79, offset: 21043},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22363,27 +22581,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1199, col: 23, offset: 37001},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1199, col: 23, offset: 37001},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1197, col: 32, offset: 36969},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1199, col: 51, offset: 37029},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1199, col: 56, offset: 37034},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1199, col: 56, offset: 37034},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1199, col: 56, offset: 37034},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22393,7 +22611,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1197, col: 32, offset: 36969},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22402,10 +22620,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2879, col: 11, offset: 90969},
+																			pos: position{line: 2880, col: 11, offset: 90998},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2879, col: 11, offset: 90969},
+																				pos:        position{line: 2880, col: 11, offset: 90998},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22422,10 +22640,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1424, col: 32, offset: 45797},
+									pos:   position{line: 1425, col: 32, offset: 45826},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1424, col: 44, offset: 45809},
+										pos:  position{line: 1425, col: 44, offset: 45838},
 										name: "InlineAttributes",
 									},
 								},
@@ -22433,63 +22651,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1429, col: 5, offset: 45941},
+						pos: position{line: 1430, col: 5, offset: 45970},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1429, col: 5, offset: 45941},
+							pos: position{line: 1430, col: 5, offset: 45970},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1429, col: 5, offset: 45941},
+									pos:        position{line: 1430, col: 5, offset: 45970},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1429, col: 13, offset: 45949},
+									pos:   position{line: 1430, col: 13, offset: 45978},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2858, col: 13, offset: 90213},
+										pos: position{line: 2859, col: 13, offset: 90242},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2858, col: 13, offset: 90213},
+											pos: position{line: 2859, col: 13, offset: 90242},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2858, col: 13, offset: 90213},
+													pos:   position{line: 2859, col: 13, offset: 90242},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2858, col: 20, offset: 90220},
+														pos: position{line: 2859, col: 20, offset: 90249},
 														expr: &actionExpr{
-															pos: position{line: 2866, col: 11, offset: 90459},
+															pos: position{line: 2867, col: 11, offset: 90488},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2866, col: 12, offset: 90460},
+																pos: position{line: 2867, col: 12, offset: 90489},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2866, col: 12, offset: 90460},
+																		pos:        position{line: 2867, col: 12, offset: 90489},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2866, col: 24, offset: 90472},
+																		pos:        position{line: 2867, col: 24, offset: 90501},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2866, col: 37, offset: 90485},
+																		pos:        position{line: 2867, col: 37, offset: 90514},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2866, col: 48, offset: 90496},
+																		pos:        position{line: 2867, col: 48, offset: 90525},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2866, col: 59, offset: 90507},
+																		pos:        position{line: 2867, col: 59, offset: 90536},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22500,38 +22718,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2858, col: 30, offset: 90230},
+													pos:   position{line: 2859, col: 30, offset: 90259},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2871, col: 5, offset: 90571},
+														pos: position{line: 2872, col: 5, offset: 90600},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2871, col: 5, offset: 90571},
+															pos:   position{line: 2872, col: 5, offset: 90600},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2871, col: 14, offset: 90580},
+																pos: position{line: 2872, col: 14, offset: 90609},
 																expr: &choiceExpr{
-																	pos: position{line: 2872, col: 9, offset: 90590},
+																	pos: position{line: 2873, col: 9, offset: 90619},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 9, offset: 90590},
+																			pos: position{line: 2873, col: 9, offset: 90619},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2872, col: 9, offset: 90590},
+																				pos: position{line: 2873, col: 9, offset: 90619},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2872, col: 9, offset: 90590},
+																						pos: position{line: 2873, col: 9, offset: 90619},
 																						expr: &litMatcher{
-																							pos:        position{line: 2872, col: 10, offset: 90591},
+																							pos:        position{line: 2873, col: 10, offset: 90620},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2873, col: 9, offset: 90619},
+																						pos: position{line: 2874, col: 9, offset: 90648},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90620},
+																							pos:        position{line: 2874, col: 10, offset: 90649},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22542,27 +22760,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2876, col: 11, offset: 90832},
+																			pos: position{line: 2877, col: 11, offset: 90861},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2876, col: 11, offset: 90832},
+																					pos:        position{line: 2877, col: 11, offset: 90861},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2876, col: 19, offset: 90840},
+																					pos: position{line: 2877, col: 19, offset: 90869},
 																					expr: &seqExpr{
-																						pos: position{line: 2876, col: 21, offset: 90842},
+																						pos: position{line: 2877, col: 21, offset: 90871},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2876, col: 21, offset: 90842},
+																								pos: position{line: 2877, col: 21, offset: 90871},
 																								expr: &actionExpr{
-																									pos: position{line: 2900, col: 10, offset: 91454},
+																									pos: position{line: 2901, col: 10, offset: 91483},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2900, col: 10, offset: 91454},
+																										pos:        position{line: 2901, col: 10, offset: 91483},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22571,11 +22789,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2876, col: 28, offset: 90849},
+																								pos: position{line: 2877, col: 28, offset: 90878},
 																								expr: &notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -22585,35 +22803,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 637, col: 5, offset: 20136},
 																			run: (*parser).callonRelativeLink155,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 637, col: 5, offset: 20136},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 637, col: 5, offset: 20136},
 																						run: (*parser).callonRelativeLink157,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 640, col: 5, offset: 20208},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 640, col: 14, offset: 20217},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 646, col: 5, offset: 20346},
 																									run: (*parser).callonRelativeLink160,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 646, col: 5, offset: 20346},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 646, col: 5, offset: 20346},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 646, col: 13, offset: 20354},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22645,7 +22863,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 646, col: 32, offset: 20373},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22654,19 +22872,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 653, col: 5, offset: 20614},
 																									run: (*parser).callonRelativeLink170,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 653, col: 5, offset: 20614},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 653, col: 5, offset: 20614},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 653, col: 9, offset: 20618},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22698,7 +22916,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 653, col: 28, offset: 20637},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22707,19 +22925,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 659, col: 25, offset: 20818},
 																									run: (*parser).callonRelativeLink180,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 659, col: 25, offset: 20818},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 659, col: 25, offset: 20818},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 659, col: 37, offset: 20830},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22751,33 +22969,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 659, col: 56, offset: 20849},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 659, col: 62, offset: 20855},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 667, col: 17, offset: 21152},
 																														run: (*parser).callonRelativeLink191,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 667, col: 17, offset: 21152},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 667, col: 17, offset: 21152},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 667, col: 21, offset: 21156},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 667, col: 28, offset: 21163},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 667, col: 28, offset: 21163},
 																																				run: (*parser).callonRelativeLink196,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 667, col: 28, offset: 21163},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22785,12 +23003,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 669, col: 9, offset: 21217},
 																																				run: (*parser).callonRelativeLink198,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 669, col: 9, offset: 21217},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 669, col: 9, offset: 21217},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22807,7 +23025,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 659, col: 78, offset: 20871},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22816,19 +23034,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 663, col: 25, offset: 20989},
 																									run: (*parser).callonRelativeLink202,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 663, col: 25, offset: 20989},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 663, col: 25, offset: 20989},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 663, col: 38, offset: 21002},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22860,33 +23078,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 663, col: 57, offset: 21021},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 663, col: 63, offset: 21027},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 667, col: 17, offset: 21152},
 																														run: (*parser).callonRelativeLink213,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 667, col: 17, offset: 21152},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 667, col: 17, offset: 21152},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 667, col: 21, offset: 21156},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 667, col: 28, offset: 21163},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 667, col: 28, offset: 21163},
 																																				run: (*parser).callonRelativeLink218,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 667, col: 28, offset: 21163},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22894,12 +23112,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 669, col: 9, offset: 21217},
 																																				run: (*parser).callonRelativeLink220,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 669, col: 9, offset: 21217},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 669, col: 9, offset: 21217},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22916,7 +23134,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 663, col: 79, offset: 21043},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22931,27 +23149,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1199, col: 23, offset: 37001},
 																			run: (*parser).callonRelativeLink224,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1199, col: 23, offset: 37001},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1197, col: 32, offset: 36969},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1199, col: 51, offset: 37029},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1199, col: 56, offset: 37034},
 																							run: (*parser).callonRelativeLink228,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1199, col: 56, offset: 37034},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1199, col: 56, offset: 37034},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22961,7 +23179,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1197, col: 32, offset: 36969},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22970,10 +23188,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2879, col: 11, offset: 90969},
+																			pos: position{line: 2880, col: 11, offset: 90998},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2879, col: 11, offset: 90969},
+																				pos:        position{line: 2880, col: 11, offset: 90998},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22990,10 +23208,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1429, col: 28, offset: 45964},
+									pos:   position{line: 1430, col: 28, offset: 45993},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1429, col: 40, offset: 45976},
+										pos:  position{line: 1430, col: 40, offset: 46005},
 										name: "InlineAttributes",
 									},
 								},
@@ -23005,75 +23223,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1433, col: 1, offset: 46092},
+			pos:  position{line: 1434, col: 1, offset: 46121},
 			expr: &choiceExpr{
-				pos: position{line: 1436, col: 5, offset: 46254},
+				pos: position{line: 1437, col: 5, offset: 46283},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1436, col: 5, offset: 46254},
+						pos: position{line: 1437, col: 5, offset: 46283},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1436, col: 5, offset: 46254},
+							pos: position{line: 1437, col: 5, offset: 46283},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1436, col: 5, offset: 46254},
+									pos:        position{line: 1437, col: 5, offset: 46283},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1436, col: 9, offset: 46258},
+									pos:   position{line: 1437, col: 9, offset: 46287},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2862, col: 23, offset: 90340},
+										pos: position{line: 2863, col: 23, offset: 90369},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2862, col: 23, offset: 90340},
+											pos: position{line: 2863, col: 23, offset: 90369},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2862, col: 23, offset: 90340},
+													pos: position{line: 2863, col: 23, offset: 90369},
 													expr: &litMatcher{
-														pos:        position{line: 2862, col: 24, offset: 90341},
+														pos:        position{line: 2863, col: 24, offset: 90370},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2862, col: 28, offset: 90345},
+													pos:   position{line: 2863, col: 28, offset: 90374},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 11, offset: 90459},
+														pos: position{line: 2867, col: 11, offset: 90488},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2866, col: 12, offset: 90460},
+															pos: position{line: 2867, col: 12, offset: 90489},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2866, col: 12, offset: 90460},
+																	pos:        position{line: 2867, col: 12, offset: 90489},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2866, col: 24, offset: 90472},
+																	pos:        position{line: 2867, col: 24, offset: 90501},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2866, col: 37, offset: 90485},
+																	pos:        position{line: 2867, col: 37, offset: 90514},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2866, col: 48, offset: 90496},
+																	pos:        position{line: 2867, col: 48, offset: 90525},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2866, col: 59, offset: 90507},
+																	pos:        position{line: 2867, col: 59, offset: 90536},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23083,38 +23301,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2862, col: 44, offset: 90361},
+													pos:   position{line: 2863, col: 44, offset: 90390},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2871, col: 5, offset: 90571},
+														pos: position{line: 2872, col: 5, offset: 90600},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2871, col: 5, offset: 90571},
+															pos:   position{line: 2872, col: 5, offset: 90600},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2871, col: 14, offset: 90580},
+																pos: position{line: 2872, col: 14, offset: 90609},
 																expr: &choiceExpr{
-																	pos: position{line: 2872, col: 9, offset: 90590},
+																	pos: position{line: 2873, col: 9, offset: 90619},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 9, offset: 90590},
+																			pos: position{line: 2873, col: 9, offset: 90619},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2872, col: 9, offset: 90590},
+																				pos: position{line: 2873, col: 9, offset: 90619},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2872, col: 9, offset: 90590},
+																						pos: position{line: 2873, col: 9, offset: 90619},
 																						expr: &litMatcher{
-																							pos:        position{line: 2872, col: 10, offset: 90591},
+																							pos:        position{line: 2873, col: 10, offset: 90620},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2873, col: 9, offset: 90619},
+																						pos: position{line: 2874, col: 9, offset: 90648},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90620},
+																							pos:        position{line: 2874, col: 10, offset: 90649},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23125,27 +23343,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2876, col: 11, offset: 90832},
+																			pos: position{line: 2877, col: 11, offset: 90861},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2876, col: 11, offset: 90832},
+																					pos:        position{line: 2877, col: 11, offset: 90861},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2876, col: 19, offset: 90840},
+																					pos: position{line: 2877, col: 19, offset: 90869},
 																					expr: &seqExpr{
-																						pos: position{line: 2876, col: 21, offset: 90842},
+																						pos: position{line: 2877, col: 21, offset: 90871},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2876, col: 21, offset: 90842},
+																								pos: position{line: 2877, col: 21, offset: 90871},
 																								expr: &actionExpr{
-																									pos: position{line: 2900, col: 10, offset: 91454},
+																									pos: position{line: 2901, col: 10, offset: 91483},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2900, col: 10, offset: 91454},
+																										pos:        position{line: 2901, col: 10, offset: 91483},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23154,11 +23372,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2876, col: 28, offset: 90849},
+																								pos: position{line: 2877, col: 28, offset: 90878},
 																								expr: &notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -23168,35 +23386,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 637, col: 5, offset: 20136},
 																			run: (*parser).callonExternalLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 637, col: 5, offset: 20136},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 637, col: 5, offset: 20136},
 																						run: (*parser).callonExternalLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 640, col: 5, offset: 20208},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 640, col: 14, offset: 20217},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 646, col: 5, offset: 20346},
 																									run: (*parser).callonExternalLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 646, col: 5, offset: 20346},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 646, col: 5, offset: 20346},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 646, col: 13, offset: 20354},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23228,7 +23446,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 646, col: 32, offset: 20373},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23237,19 +23455,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 653, col: 5, offset: 20614},
 																									run: (*parser).callonExternalLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 653, col: 5, offset: 20614},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 653, col: 5, offset: 20614},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 653, col: 9, offset: 20618},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23281,7 +23499,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 653, col: 28, offset: 20637},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23290,19 +23508,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 659, col: 25, offset: 20818},
 																									run: (*parser).callonExternalLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 659, col: 25, offset: 20818},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 659, col: 25, offset: 20818},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 659, col: 37, offset: 20830},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23334,33 +23552,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 659, col: 56, offset: 20849},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 659, col: 62, offset: 20855},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 667, col: 17, offset: 21152},
 																														run: (*parser).callonExternalLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 667, col: 17, offset: 21152},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 667, col: 17, offset: 21152},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 667, col: 21, offset: 21156},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 667, col: 28, offset: 21163},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 667, col: 28, offset: 21163},
 																																				run: (*parser).callonExternalLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 667, col: 28, offset: 21163},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23368,12 +23586,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 669, col: 9, offset: 21217},
 																																				run: (*parser).callonExternalLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 669, col: 9, offset: 21217},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 669, col: 9, offset: 21217},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23390,7 +23608,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 659, col: 78, offset: 20871},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23399,19 +23617,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 663, col: 25, offset: 20989},
 																									run: (*parser).callonExternalLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 663, col: 25, offset: 20989},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 663, col: 25, offset: 20989},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 663, col: 38, offset: 21002},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23443,33 +23661,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 663, col: 57, offset: 21021},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 663, col: 63, offset: 21027},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 667, col: 17, offset: 21152},
 																														run: (*parser).callonExternalLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 667, col: 17, offset: 21152},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 667, col: 17, offset: 21152},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 667, col: 21, offset: 21156},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 667, col: 28, offset: 21163},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 667, col: 28, offset: 21163},
 																																				run: (*parser).callonExternalLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 667, col: 28, offset: 21163},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23477,12 +23695,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 669, col: 9, offset: 21217},
 																																				run: (*parser).callonExternalLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 669, col: 9, offset: 21217},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 669, col: 9, offset: 21217},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23499,7 +23717,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 663, col: 79, offset: 21043},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23514,27 +23732,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1199, col: 23, offset: 37001},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1199, col: 23, offset: 37001},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1197, col: 32, offset: 36969},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1199, col: 51, offset: 37029},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1199, col: 56, offset: 37034},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1199, col: 56, offset: 37034},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1199, col: 56, offset: 37034},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23544,7 +23762,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1197, col: 32, offset: 36969},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23553,10 +23771,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2879, col: 11, offset: 90969},
+																			pos: position{line: 2880, col: 11, offset: 90998},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2879, col: 11, offset: 90969},
+																				pos:        position{line: 2880, col: 11, offset: 90998},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23573,12 +23791,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1436, col: 34, offset: 46283},
+									pos:   position{line: 1437, col: 34, offset: 46312},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1436, col: 45, offset: 46294},
+										pos: position{line: 1437, col: 45, offset: 46323},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1436, col: 46, offset: 46295},
+											pos:  position{line: 1437, col: 46, offset: 46324},
 											name: "InlineAttributes",
 										},
 									},
@@ -23587,64 +23805,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1441, col: 5, offset: 46428},
+						pos: position{line: 1442, col: 5, offset: 46457},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1441, col: 5, offset: 46428},
+							pos: position{line: 1442, col: 5, offset: 46457},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1441, col: 5, offset: 46428},
+									pos:   position{line: 1442, col: 5, offset: 46457},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2862, col: 23, offset: 90340},
+										pos: position{line: 2863, col: 23, offset: 90369},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2862, col: 23, offset: 90340},
+											pos: position{line: 2863, col: 23, offset: 90369},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2862, col: 23, offset: 90340},
+													pos: position{line: 2863, col: 23, offset: 90369},
 													expr: &litMatcher{
-														pos:        position{line: 2862, col: 24, offset: 90341},
+														pos:        position{line: 2863, col: 24, offset: 90370},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2862, col: 28, offset: 90345},
+													pos:   position{line: 2863, col: 28, offset: 90374},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 11, offset: 90459},
+														pos: position{line: 2867, col: 11, offset: 90488},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2866, col: 12, offset: 90460},
+															pos: position{line: 2867, col: 12, offset: 90489},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2866, col: 12, offset: 90460},
+																	pos:        position{line: 2867, col: 12, offset: 90489},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2866, col: 24, offset: 90472},
+																	pos:        position{line: 2867, col: 24, offset: 90501},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2866, col: 37, offset: 90485},
+																	pos:        position{line: 2867, col: 37, offset: 90514},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2866, col: 48, offset: 90496},
+																	pos:        position{line: 2867, col: 48, offset: 90525},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2866, col: 59, offset: 90507},
+																	pos:        position{line: 2867, col: 59, offset: 90536},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23654,38 +23872,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2862, col: 44, offset: 90361},
+													pos:   position{line: 2863, col: 44, offset: 90390},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2871, col: 5, offset: 90571},
+														pos: position{line: 2872, col: 5, offset: 90600},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2871, col: 5, offset: 90571},
+															pos:   position{line: 2872, col: 5, offset: 90600},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2871, col: 14, offset: 90580},
+																pos: position{line: 2872, col: 14, offset: 90609},
 																expr: &choiceExpr{
-																	pos: position{line: 2872, col: 9, offset: 90590},
+																	pos: position{line: 2873, col: 9, offset: 90619},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 9, offset: 90590},
+																			pos: position{line: 2873, col: 9, offset: 90619},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2872, col: 9, offset: 90590},
+																				pos: position{line: 2873, col: 9, offset: 90619},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2872, col: 9, offset: 90590},
+																						pos: position{line: 2873, col: 9, offset: 90619},
 																						expr: &litMatcher{
-																							pos:        position{line: 2872, col: 10, offset: 90591},
+																							pos:        position{line: 2873, col: 10, offset: 90620},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2873, col: 9, offset: 90619},
+																						pos: position{line: 2874, col: 9, offset: 90648},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90620},
+																							pos:        position{line: 2874, col: 10, offset: 90649},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23696,27 +23914,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2876, col: 11, offset: 90832},
+																			pos: position{line: 2877, col: 11, offset: 90861},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2876, col: 11, offset: 90832},
+																					pos:        position{line: 2877, col: 11, offset: 90861},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2876, col: 19, offset: 90840},
+																					pos: position{line: 2877, col: 19, offset: 90869},
 																					expr: &seqExpr{
-																						pos: position{line: 2876, col: 21, offset: 90842},
+																						pos: position{line: 2877, col: 21, offset: 90871},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2876, col: 21, offset: 90842},
+																								pos: position{line: 2877, col: 21, offset: 90871},
 																								expr: &actionExpr{
-																									pos: position{line: 2900, col: 10, offset: 91454},
+																									pos: position{line: 2901, col: 10, offset: 91483},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2900, col: 10, offset: 91454},
+																										pos:        position{line: 2901, col: 10, offset: 91483},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23725,11 +23943,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2876, col: 28, offset: 90849},
+																								pos: position{line: 2877, col: 28, offset: 90878},
 																								expr: &notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -23739,35 +23957,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 637, col: 5, offset: 20136},
 																			run: (*parser).callonExternalLink157,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 637, col: 5, offset: 20136},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 637, col: 5, offset: 20136},
 																						run: (*parser).callonExternalLink159,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 640, col: 5, offset: 20208},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 640, col: 14, offset: 20217},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 646, col: 5, offset: 20346},
 																									run: (*parser).callonExternalLink162,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 646, col: 5, offset: 20346},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 646, col: 5, offset: 20346},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 646, col: 13, offset: 20354},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23799,7 +24017,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 646, col: 32, offset: 20373},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23808,19 +24026,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 653, col: 5, offset: 20614},
 																									run: (*parser).callonExternalLink172,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 653, col: 5, offset: 20614},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 653, col: 5, offset: 20614},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 653, col: 9, offset: 20618},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23852,7 +24070,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 653, col: 28, offset: 20637},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23861,19 +24079,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 659, col: 25, offset: 20818},
 																									run: (*parser).callonExternalLink182,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 659, col: 25, offset: 20818},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 659, col: 25, offset: 20818},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 659, col: 37, offset: 20830},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23905,33 +24123,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 659, col: 56, offset: 20849},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 659, col: 62, offset: 20855},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 667, col: 17, offset: 21152},
 																														run: (*parser).callonExternalLink193,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 667, col: 17, offset: 21152},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 667, col: 17, offset: 21152},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 667, col: 21, offset: 21156},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 667, col: 28, offset: 21163},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 667, col: 28, offset: 21163},
 																																				run: (*parser).callonExternalLink198,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 667, col: 28, offset: 21163},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23939,12 +24157,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 669, col: 9, offset: 21217},
 																																				run: (*parser).callonExternalLink200,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 669, col: 9, offset: 21217},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 669, col: 9, offset: 21217},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23961,7 +24179,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 659, col: 78, offset: 20871},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23970,19 +24188,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 663, col: 25, offset: 20989},
 																									run: (*parser).callonExternalLink204,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 663, col: 25, offset: 20989},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 663, col: 25, offset: 20989},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 663, col: 38, offset: 21002},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24014,33 +24232,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 663, col: 57, offset: 21021},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 663, col: 63, offset: 21027},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 667, col: 17, offset: 21152},
 																														run: (*parser).callonExternalLink215,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 667, col: 17, offset: 21152},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 667, col: 17, offset: 21152},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 667, col: 21, offset: 21156},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 667, col: 28, offset: 21163},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 667, col: 28, offset: 21163},
 																																				run: (*parser).callonExternalLink220,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 667, col: 28, offset: 21163},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24048,12 +24266,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 669, col: 9, offset: 21217},
 																																				run: (*parser).callonExternalLink222,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 669, col: 9, offset: 21217},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 669, col: 9, offset: 21217},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24070,7 +24288,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 663, col: 79, offset: 21043},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24085,27 +24303,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1199, col: 23, offset: 37001},
 																			run: (*parser).callonExternalLink226,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1199, col: 23, offset: 37001},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1197, col: 32, offset: 36969},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1199, col: 51, offset: 37029},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1199, col: 56, offset: 37034},
 																							run: (*parser).callonExternalLink230,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1199, col: 56, offset: 37034},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1199, col: 56, offset: 37034},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24115,7 +24333,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1197, col: 32, offset: 36969},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24124,10 +24342,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2879, col: 11, offset: 90969},
+																			pos: position{line: 2880, col: 11, offset: 90998},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2879, col: 11, offset: 90969},
+																				pos:        position{line: 2880, col: 11, offset: 90998},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24144,12 +24362,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1441, col: 30, offset: 46453},
+									pos:   position{line: 1442, col: 30, offset: 46482},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1441, col: 41, offset: 46464},
+										pos: position{line: 1442, col: 41, offset: 46493},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1441, col: 42, offset: 46465},
+											pos:  position{line: 1442, col: 42, offset: 46494},
 											name: "InlineAttributes",
 										},
 									},
@@ -24162,41 +24380,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1475, col: 1, offset: 47606},
+			pos:  position{line: 1476, col: 1, offset: 47635},
 			expr: &actionExpr{
-				pos: position{line: 1476, col: 5, offset: 47627},
+				pos: position{line: 1477, col: 5, offset: 47656},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1476, col: 5, offset: 47627},
+					pos: position{line: 1477, col: 5, offset: 47656},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1476, col: 5, offset: 47627},
+							pos:   position{line: 1477, col: 5, offset: 47656},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1482, col: 5, offset: 47829},
+								pos: position{line: 1483, col: 5, offset: 47858},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1575, col: 5, offset: 50763},
+										pos: position{line: 1576, col: 5, offset: 50792},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1575, col: 5, offset: 50763},
+											pos: position{line: 1576, col: 5, offset: 50792},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1575, col: 5, offset: 50763},
+													pos:   position{line: 1576, col: 5, offset: 50792},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1582, col: 5, offset: 50971},
+														pos: position{line: 1583, col: 5, offset: 51000},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1582, col: 5, offset: 50971},
+															pos: position{line: 1583, col: 5, offset: 51000},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1582, col: 5, offset: 50971},
+																	pos: position{line: 1583, col: 5, offset: 51000},
 																	expr: &actionExpr{
-																		pos: position{line: 2900, col: 10, offset: 91454},
+																		pos: position{line: 2901, col: 10, offset: 91483},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 10, offset: 91454},
+																			pos:        position{line: 2901, col: 10, offset: 91483},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24205,27 +24423,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1582, col: 12, offset: 50978},
+																	pos:   position{line: 1583, col: 12, offset: 51007},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1584, col: 9, offset: 51041},
+																		pos: position{line: 1585, col: 9, offset: 51070},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1584, col: 9, offset: 51041},
+																				pos: position{line: 1585, col: 9, offset: 51070},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1584, col: 9, offset: 51041},
+																					pos: position{line: 1585, col: 9, offset: 51070},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1584, col: 9, offset: 51041},
+																							pos:   position{line: 1585, col: 9, offset: 51070},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1584, col: 16, offset: 51048},
+																								pos: position{line: 1585, col: 16, offset: 51077},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1584, col: 16, offset: 51048},
+																									pos: position{line: 1585, col: 16, offset: 51077},
 																									expr: &litMatcher{
-																										pos:        position{line: 1584, col: 17, offset: 51049},
+																										pos:        position{line: 1585, col: 17, offset: 51078},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24234,22 +24452,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1588, col: 9, offset: 51149},
+																							pos: position{line: 1589, col: 9, offset: 51178},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1607, col: 11, offset: 51866},
+																				pos: position{line: 1608, col: 11, offset: 51895},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1607, col: 11, offset: 51866},
+																					pos: position{line: 1608, col: 11, offset: 51895},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1607, col: 11, offset: 51866},
+																							pos: position{line: 1608, col: 11, offset: 51895},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1607, col: 12, offset: 51867},
+																								pos:        position{line: 1608, col: 12, offset: 51896},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24257,7 +24475,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1607, col: 20, offset: 51875},
+																							pos:        position{line: 1608, col: 20, offset: 51904},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24266,20 +24484,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1609, col: 13, offset: 51992},
+																				pos: position{line: 1610, col: 13, offset: 52021},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1609, col: 13, offset: 51992},
+																					pos: position{line: 1610, col: 13, offset: 52021},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1609, col: 14, offset: 51993},
+																							pos:        position{line: 1610, col: 14, offset: 52022},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1609, col: 21, offset: 52000},
+																							pos:        position{line: 1610, col: 21, offset: 52029},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24288,20 +24506,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1611, col: 13, offset: 52120},
+																				pos: position{line: 1612, col: 13, offset: 52149},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1611, col: 13, offset: 52120},
+																					pos: position{line: 1612, col: 13, offset: 52149},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1611, col: 14, offset: 52121},
+																							pos:        position{line: 1612, col: 14, offset: 52150},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1611, col: 21, offset: 52128},
+																							pos:        position{line: 1612, col: 21, offset: 52157},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24310,15 +24528,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1613, col: 13, offset: 52248},
+																				pos: position{line: 1614, col: 13, offset: 52277},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1613, col: 13, offset: 52248},
+																					pos: position{line: 1614, col: 13, offset: 52277},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1613, col: 13, offset: 52248},
+																							pos: position{line: 1614, col: 13, offset: 52277},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1613, col: 14, offset: 52249},
+																								pos:        position{line: 1614, col: 14, offset: 52278},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -24326,7 +24544,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1613, col: 26, offset: 52261},
+																							pos:        position{line: 1614, col: 26, offset: 52290},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24335,15 +24553,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1615, col: 13, offset: 52381},
+																				pos: position{line: 1616, col: 13, offset: 52410},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1615, col: 13, offset: 52381},
+																					pos: position{line: 1616, col: 13, offset: 52410},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1615, col: 13, offset: 52381},
+																							pos: position{line: 1616, col: 13, offset: 52410},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1615, col: 14, offset: 52382},
+																								pos:        position{line: 1616, col: 14, offset: 52411},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -24351,7 +24569,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1615, col: 26, offset: 52394},
+																							pos:        position{line: 1616, col: 26, offset: 52423},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24363,12 +24581,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2904, col: 11, offset: 91515},
+																	pos: position{line: 2905, col: 11, offset: 91544},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2904, col: 11, offset: 91515},
+																		pos: position{line: 2905, col: 11, offset: 91544},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2904, col: 11, offset: 91515},
+																			pos:        position{line: 2905, col: 11, offset: 91544},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24381,26 +24599,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1576, col: 5, offset: 50802},
+													pos:   position{line: 1577, col: 5, offset: 50831},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1523, col: 5, offset: 49269},
+														pos: position{line: 1524, col: 5, offset: 49298},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1523, col: 5, offset: 49269},
+															pos: position{line: 1524, col: 5, offset: 49298},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1523, col: 5, offset: 49269},
+																	pos:   position{line: 1524, col: 5, offset: 49298},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1523, col: 14, offset: 49278},
+																		pos: position{line: 1524, col: 14, offset: 49307},
 																		expr: &actionExpr{
-																			pos: position{line: 1523, col: 15, offset: 49279},
+																			pos: position{line: 1524, col: 15, offset: 49308},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1523, col: 15, offset: 49279},
+																				pos: position{line: 1524, col: 15, offset: 49308},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1523, col: 15, offset: 49279},
+																					pos:        position{line: 1524, col: 15, offset: 49308},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24411,28 +24629,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2922, col: 8, offset: 91852},
+																	pos: position{line: 2923, col: 8, offset: 91881},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 12, offset: 91625},
+																			pos: position{line: 2910, col: 12, offset: 91654},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2909, col: 13, offset: 91626},
+																				pos: position{line: 2910, col: 13, offset: 91655},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 13, offset: 91626},
+																						pos:        position{line: 2910, col: 13, offset: 91655},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 20, offset: 91633},
+																						pos:        position{line: 2910, col: 20, offset: 91662},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 29, offset: 91642},
+																						pos:        position{line: 2910, col: 29, offset: 91671},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24441,9 +24659,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2919, col: 8, offset: 91802},
+																			pos: position{line: 2920, col: 8, offset: 91831},
 																			expr: &anyMatcher{
-																				line: 2919, col: 9, offset: 91803,
+																				line: 2920, col: 9, offset: 91832,
 																			},
 																		},
 																	},
@@ -24456,27 +24674,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1625, col: 5, offset: 52660},
+										pos: position{line: 1626, col: 5, offset: 52689},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1625, col: 5, offset: 52660},
+											pos: position{line: 1626, col: 5, offset: 52689},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1625, col: 5, offset: 52660},
+													pos:   position{line: 1626, col: 5, offset: 52689},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1632, col: 5, offset: 52933},
+														pos: position{line: 1633, col: 5, offset: 52962},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1632, col: 5, offset: 52933},
+															pos: position{line: 1633, col: 5, offset: 52962},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1632, col: 5, offset: 52933},
+																	pos: position{line: 1633, col: 5, offset: 52962},
 																	expr: &actionExpr{
-																		pos: position{line: 2900, col: 10, offset: 91454},
+																		pos: position{line: 2901, col: 10, offset: 91483},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 10, offset: 91454},
+																			pos:        position{line: 2901, col: 10, offset: 91483},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24485,24 +24703,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1633, col: 5, offset: 52945},
+																	pos:   position{line: 1634, col: 5, offset: 52974},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1634, col: 9, offset: 52961},
+																		pos: position{line: 1635, col: 9, offset: 52990},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1634, col: 10, offset: 52962},
+																			pos: position{line: 1635, col: 10, offset: 52991},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1634, col: 11, offset: 52963},
+																					pos:        position{line: 1635, col: 11, offset: 52992},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1634, col: 18, offset: 52970},
+																					pos: position{line: 1635, col: 18, offset: 52999},
 																					expr: &litMatcher{
-																						pos:        position{line: 1634, col: 19, offset: 52971},
+																						pos:        position{line: 1635, col: 19, offset: 53000},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -24513,16 +24731,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1637, col: 7, offset: 53061},
+																	pos: position{line: 1638, col: 7, offset: 53090},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2904, col: 11, offset: 91515},
+																	pos: position{line: 2905, col: 11, offset: 91544},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2904, col: 11, offset: 91515},
+																		pos: position{line: 2905, col: 11, offset: 91544},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2904, col: 11, offset: 91515},
+																			pos:        position{line: 2905, col: 11, offset: 91544},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24535,56 +24753,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1626, col: 5, offset: 52701},
+													pos:   position{line: 1627, col: 5, offset: 52730},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1626, col: 16, offset: 52712},
+														pos: position{line: 1627, col: 16, offset: 52741},
 														expr: &actionExpr{
-															pos: position{line: 1647, col: 5, offset: 53326},
+															pos: position{line: 1648, col: 5, offset: 53355},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1647, col: 5, offset: 53326},
+																pos: position{line: 1648, col: 5, offset: 53355},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1647, col: 5, offset: 53326},
+																		pos: position{line: 1648, col: 5, offset: 53355},
 																		expr: &litMatcher{
-																			pos:        position{line: 1647, col: 6, offset: 53327},
+																			pos:        position{line: 1648, col: 6, offset: 53356},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1647, col: 10, offset: 53331},
+																		pos:   position{line: 1648, col: 10, offset: 53360},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1648, col: 7, offset: 53345},
+																			pos: position{line: 1649, col: 7, offset: 53374},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1648, col: 7, offset: 53345},
+																					pos: position{line: 1649, col: 7, offset: 53374},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1648, col: 7, offset: 53345},
+																						pos:        position{line: 1649, col: 7, offset: 53374},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1649, col: 7, offset: 53390},
+																					pos: position{line: 1650, col: 7, offset: 53419},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1649, col: 7, offset: 53390},
+																						pos:        position{line: 1650, col: 7, offset: 53419},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1650, col: 7, offset: 53433},
+																					pos: position{line: 1651, col: 7, offset: 53462},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1650, col: 7, offset: 53433},
+																						pos:        position{line: 1651, col: 7, offset: 53462},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -24594,12 +24812,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2904, col: 11, offset: 91515},
+																		pos: position{line: 2905, col: 11, offset: 91544},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2904, col: 11, offset: 91515},
+																			pos: position{line: 2905, col: 11, offset: 91544},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2904, col: 11, offset: 91515},
+																				pos:        position{line: 2905, col: 11, offset: 91544},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -24613,26 +24831,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1627, col: 5, offset: 52751},
+													pos:   position{line: 1628, col: 5, offset: 52780},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1523, col: 5, offset: 49269},
+														pos: position{line: 1524, col: 5, offset: 49298},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1523, col: 5, offset: 49269},
+															pos: position{line: 1524, col: 5, offset: 49298},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1523, col: 5, offset: 49269},
+																	pos:   position{line: 1524, col: 5, offset: 49298},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1523, col: 14, offset: 49278},
+																		pos: position{line: 1524, col: 14, offset: 49307},
 																		expr: &actionExpr{
-																			pos: position{line: 1523, col: 15, offset: 49279},
+																			pos: position{line: 1524, col: 15, offset: 49308},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1523, col: 15, offset: 49279},
+																				pos: position{line: 1524, col: 15, offset: 49308},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1523, col: 15, offset: 49279},
+																					pos:        position{line: 1524, col: 15, offset: 49308},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24643,28 +24861,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2922, col: 8, offset: 91852},
+																	pos: position{line: 2923, col: 8, offset: 91881},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 12, offset: 91625},
+																			pos: position{line: 2910, col: 12, offset: 91654},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2909, col: 13, offset: 91626},
+																				pos: position{line: 2910, col: 13, offset: 91655},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 13, offset: 91626},
+																						pos:        position{line: 2910, col: 13, offset: 91655},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 20, offset: 91633},
+																						pos:        position{line: 2910, col: 20, offset: 91662},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 29, offset: 91642},
+																						pos:        position{line: 2910, col: 29, offset: 91671},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24673,9 +24891,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2919, col: 8, offset: 91802},
+																			pos: position{line: 2920, col: 8, offset: 91831},
 																			expr: &anyMatcher{
-																				line: 2919, col: 9, offset: 91803,
+																				line: 2920, col: 9, offset: 91832,
 																			},
 																		},
 																	},
@@ -24688,36 +24906,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1715, col: 5, offset: 55273},
+										pos: position{line: 1716, col: 5, offset: 55302},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1715, col: 5, offset: 55273},
+											pos: position{line: 1716, col: 5, offset: 55302},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1715, col: 5, offset: 55273},
+													pos:   position{line: 1716, col: 5, offset: 55302},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1721, col: 5, offset: 55470},
+														pos: position{line: 1722, col: 5, offset: 55499},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1721, col: 5, offset: 55470},
+															pos: position{line: 1722, col: 5, offset: 55499},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1721, col: 5, offset: 55470},
+																	pos:        position{line: 1722, col: 5, offset: 55499},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1721, col: 9, offset: 55474},
+																	pos:   position{line: 1722, col: 9, offset: 55503},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1721, col: 14, offset: 55479},
+																		pos: position{line: 1722, col: 14, offset: 55508},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1721, col: 14, offset: 55479},
+																			pos: position{line: 1722, col: 14, offset: 55508},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1721, col: 14, offset: 55479},
+																				pos:        position{line: 1722, col: 14, offset: 55508},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -24727,18 +24945,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1721, col: 62, offset: 55527},
+																	pos:        position{line: 1722, col: 62, offset: 55556},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2904, col: 11, offset: 91515},
+																	pos: position{line: 2905, col: 11, offset: 91544},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2904, col: 11, offset: 91515},
+																		pos: position{line: 2905, col: 11, offset: 91544},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2904, col: 11, offset: 91515},
+																			pos:        position{line: 2905, col: 11, offset: 91544},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24751,26 +24969,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1716, col: 5, offset: 55309},
+													pos:   position{line: 1717, col: 5, offset: 55338},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1523, col: 5, offset: 49269},
+														pos: position{line: 1524, col: 5, offset: 49298},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1523, col: 5, offset: 49269},
+															pos: position{line: 1524, col: 5, offset: 49298},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1523, col: 5, offset: 49269},
+																	pos:   position{line: 1524, col: 5, offset: 49298},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1523, col: 14, offset: 49278},
+																		pos: position{line: 1524, col: 14, offset: 49307},
 																		expr: &actionExpr{
-																			pos: position{line: 1523, col: 15, offset: 49279},
+																			pos: position{line: 1524, col: 15, offset: 49308},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1523, col: 15, offset: 49279},
+																				pos: position{line: 1524, col: 15, offset: 49308},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1523, col: 15, offset: 49279},
+																					pos:        position{line: 1524, col: 15, offset: 49308},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24781,28 +24999,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2922, col: 8, offset: 91852},
+																	pos: position{line: 2923, col: 8, offset: 91881},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 12, offset: 91625},
+																			pos: position{line: 2910, col: 12, offset: 91654},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2909, col: 13, offset: 91626},
+																				pos: position{line: 2910, col: 13, offset: 91655},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 13, offset: 91626},
+																						pos:        position{line: 2910, col: 13, offset: 91655},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 20, offset: 91633},
+																						pos:        position{line: 2910, col: 20, offset: 91662},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 29, offset: 91642},
+																						pos:        position{line: 2910, col: 29, offset: 91671},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24811,9 +25029,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2919, col: 8, offset: 91802},
+																			pos: position{line: 2920, col: 8, offset: 91831},
 																			expr: &anyMatcher{
-																				line: 2919, col: 9, offset: 91803,
+																				line: 2920, col: 9, offset: 91832,
 																			},
 																		},
 																	},
@@ -24826,40 +25044,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1659, col: 5, offset: 53626},
+										pos: position{line: 1660, col: 5, offset: 53655},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1659, col: 5, offset: 53626},
+											pos: position{line: 1660, col: 5, offset: 53655},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1659, col: 5, offset: 53626},
+													pos:   position{line: 1660, col: 5, offset: 53655},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1667, col: 5, offset: 53952},
+														pos: position{line: 1668, col: 5, offset: 53981},
 														run: (*parser).callonListElements148,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1667, col: 5, offset: 53952},
+															pos: position{line: 1668, col: 5, offset: 53981},
 															expr: &seqExpr{
-																pos: position{line: 1667, col: 6, offset: 53953},
+																pos: position{line: 1668, col: 6, offset: 53982},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1667, col: 6, offset: 53953},
+																		pos: position{line: 1668, col: 6, offset: 53982},
 																		expr: &actionExpr{
-																			pos: position{line: 1672, col: 5, offset: 54103},
+																			pos: position{line: 1673, col: 5, offset: 54132},
 																			run: (*parser).callonListElements152,
 																			expr: &seqExpr{
-																				pos: position{line: 1672, col: 5, offset: 54103},
+																				pos: position{line: 1673, col: 5, offset: 54132},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1672, col: 5, offset: 54103},
+																						pos:   position{line: 1673, col: 5, offset: 54132},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1672, col: 16, offset: 54114},
+																							pos: position{line: 1673, col: 16, offset: 54143},
 																							run: (*parser).callonListElements155,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1672, col: 16, offset: 54114},
+																								pos: position{line: 1673, col: 16, offset: 54143},
 																								expr: &litMatcher{
-																									pos:        position{line: 1672, col: 17, offset: 54115},
+																									pos:        position{line: 1673, col: 17, offset: 54144},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -24868,7 +25086,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1675, col: 5, offset: 54172},
+																						pos: position{line: 1676, col: 5, offset: 54201},
 																						run: (*parser).callonListElements158,
 																					},
 																				},
@@ -24876,30 +25094,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1667, col: 35, offset: 53982},
+																		pos: position{line: 1668, col: 35, offset: 54011},
 																		expr: &choiceExpr{
-																			pos: position{line: 2922, col: 8, offset: 91852},
+																			pos: position{line: 2923, col: 8, offset: 91881},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2909, col: 12, offset: 91625},
+																					pos: position{line: 2910, col: 12, offset: 91654},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2909, col: 13, offset: 91626},
+																						pos: position{line: 2910, col: 13, offset: 91655},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 13, offset: 91626},
+																								pos:        position{line: 2910, col: 13, offset: 91655},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 20, offset: 91633},
+																								pos:        position{line: 2910, col: 20, offset: 91662},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 29, offset: 91642},
+																								pos:        position{line: 2910, col: 29, offset: 91671},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -24908,16 +25126,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1667, col: 40, offset: 53987,
+																		line: 1668, col: 40, offset: 54016,
 																	},
 																},
 															},
@@ -24925,24 +25143,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1660, col: 5, offset: 53661},
+													pos:   position{line: 1661, col: 5, offset: 53690},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1672, col: 5, offset: 54103},
+														pos: position{line: 1673, col: 5, offset: 54132},
 														run: (*parser).callonListElements170,
 														expr: &seqExpr{
-															pos: position{line: 1672, col: 5, offset: 54103},
+															pos: position{line: 1673, col: 5, offset: 54132},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1672, col: 5, offset: 54103},
+																	pos:   position{line: 1673, col: 5, offset: 54132},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1672, col: 16, offset: 54114},
+																		pos: position{line: 1673, col: 16, offset: 54143},
 																		run: (*parser).callonListElements173,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1672, col: 16, offset: 54114},
+																			pos: position{line: 1673, col: 16, offset: 54143},
 																			expr: &litMatcher{
-																				pos:        position{line: 1672, col: 17, offset: 54115},
+																				pos:        position{line: 1673, col: 17, offset: 54144},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -24951,7 +25169,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1675, col: 5, offset: 54172},
+																	pos: position{line: 1676, col: 5, offset: 54201},
 																	run: (*parser).callonListElements176,
 																},
 															},
@@ -24959,24 +25177,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1661, col: 5, offset: 53706},
+													pos:   position{line: 1662, col: 5, offset: 53735},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1683, col: 5, offset: 54421},
+														pos: position{line: 1684, col: 5, offset: 54450},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1685, col: 9, offset: 54487},
+																pos: position{line: 1686, col: 9, offset: 54516},
 																run: (*parser).callonListElements179,
 																expr: &seqExpr{
-																	pos: position{line: 1685, col: 9, offset: 54487},
+																	pos: position{line: 1686, col: 9, offset: 54516},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1685, col: 9, offset: 54487},
+																			pos: position{line: 1686, col: 9, offset: 54516},
 																			expr: &actionExpr{
-																				pos: position{line: 2900, col: 10, offset: 91454},
+																				pos: position{line: 2901, col: 10, offset: 91483},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2900, col: 10, offset: 91454},
+																					pos:        position{line: 2901, col: 10, offset: 91483},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -24985,28 +25203,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2922, col: 8, offset: 91852},
+																			pos: position{line: 2923, col: 8, offset: 91881},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2909, col: 12, offset: 91625},
+																					pos: position{line: 2910, col: 12, offset: 91654},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2909, col: 13, offset: 91626},
+																						pos: position{line: 2910, col: 13, offset: 91655},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 13, offset: 91626},
+																								pos:        position{line: 2910, col: 13, offset: 91655},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 20, offset: 91633},
+																								pos:        position{line: 2910, col: 20, offset: 91662},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 29, offset: 91642},
+																								pos:        position{line: 2910, col: 29, offset: 91671},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25015,34 +25233,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1686, col: 9, offset: 54506},
+																			pos: position{line: 1687, col: 9, offset: 54535},
 																			expr: &actionExpr{
-																				pos: position{line: 677, col: 14, offset: 21489},
+																				pos: position{line: 678, col: 14, offset: 21518},
 																				run: (*parser).callonListElements193,
 																				expr: &seqExpr{
-																					pos: position{line: 677, col: 14, offset: 21489},
+																					pos: position{line: 678, col: 14, offset: 21518},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2917, col: 11, offset: 91788},
+																							pos: position{line: 2918, col: 11, offset: 91817},
 																							expr: &anyMatcher{
-																								line: 2917, col: 13, offset: 91790,
+																								line: 2918, col: 13, offset: 91819,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 677, col: 21, offset: 21496},
+																							pos: position{line: 678, col: 21, offset: 21525},
 																							expr: &actionExpr{
-																								pos: position{line: 2900, col: 10, offset: 91454},
+																								pos: position{line: 2901, col: 10, offset: 91483},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 10, offset: 91454},
+																									pos:        position{line: 2901, col: 10, offset: 91483},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25051,28 +25269,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25081,9 +25299,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -25096,18 +25314,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1692, col: 9, offset: 54635},
+																pos: position{line: 1693, col: 9, offset: 54664},
 																run: (*parser).callonListElements208,
 																expr: &seqExpr{
-																	pos: position{line: 1692, col: 9, offset: 54635},
+																	pos: position{line: 1693, col: 9, offset: 54664},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2904, col: 11, offset: 91515},
+																			pos: position{line: 2905, col: 11, offset: 91544},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2904, col: 11, offset: 91515},
+																				pos: position{line: 2905, col: 11, offset: 91544},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2904, col: 11, offset: 91515},
+																					pos:        position{line: 2905, col: 11, offset: 91544},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25116,15 +25334,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1693, col: 9, offset: 54708},
+																			pos:   position{line: 1694, col: 9, offset: 54737},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1693, col: 18, offset: 54717},
+																				pos: position{line: 1694, col: 18, offset: 54746},
 																				run: (*parser).callonListElements214,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1693, col: 18, offset: 54717},
+																					pos: position{line: 1694, col: 18, offset: 54746},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1693, col: 18, offset: 54717},
+																						pos:        position{line: 1694, col: 18, offset: 54746},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25134,28 +25352,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2922, col: 8, offset: 91852},
+																			pos: position{line: 2923, col: 8, offset: 91881},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2909, col: 12, offset: 91625},
+																					pos: position{line: 2910, col: 12, offset: 91654},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2909, col: 13, offset: 91626},
+																						pos: position{line: 2910, col: 13, offset: 91655},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 13, offset: 91626},
+																								pos:        position{line: 2910, col: 13, offset: 91655},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 20, offset: 91633},
+																								pos:        position{line: 2910, col: 20, offset: 91662},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 29, offset: 91642},
+																								pos:        position{line: 2910, col: 29, offset: 91671},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25164,9 +25382,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
@@ -25184,10 +25402,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1477, col: 5, offset: 47658},
+							pos:   position{line: 1478, col: 5, offset: 47687},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1477, col: 20, offset: 47673},
+								pos:  position{line: 1478, col: 20, offset: 47702},
 								name: "ExtraListElements",
 							},
 						},
@@ -25197,17 +25415,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1487, col: 1, offset: 47928},
+			pos:  position{line: 1488, col: 1, offset: 47957},
 			expr: &actionExpr{
-				pos: position{line: 1487, col: 22, offset: 47949},
+				pos: position{line: 1488, col: 22, offset: 47978},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1487, col: 22, offset: 47949},
+					pos:   position{line: 1488, col: 22, offset: 47978},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1487, col: 31, offset: 47958},
+						pos: position{line: 1488, col: 31, offset: 47987},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1487, col: 32, offset: 47959},
+							pos:  position{line: 1488, col: 32, offset: 47988},
 							name: "ExtraListElement",
 						},
 					},
@@ -25216,52 +25434,52 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1491, col: 1, offset: 48039},
+			pos:  position{line: 1492, col: 1, offset: 48068},
 			expr: &actionExpr{
-				pos: position{line: 1492, col: 5, offset: 48178},
+				pos: position{line: 1493, col: 5, offset: 48207},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1492, col: 5, offset: 48178},
+					pos: position{line: 1493, col: 5, offset: 48207},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2917, col: 11, offset: 91788},
+							pos: position{line: 2918, col: 11, offset: 91817},
 							expr: &anyMatcher{
-								line: 2917, col: 13, offset: 91790,
+								line: 2918, col: 13, offset: 91819,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1493, col: 5, offset: 48190},
+							pos:   position{line: 1494, col: 5, offset: 48219},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1494, col: 9, offset: 48208},
+								pos: position{line: 1495, col: 9, offset: 48237},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1494, col: 13, offset: 48212},
+										pos: position{line: 1495, col: 13, offset: 48241},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1494, col: 13, offset: 48212},
+											pos: position{line: 1495, col: 13, offset: 48241},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1494, col: 13, offset: 48212},
+													pos: position{line: 1495, col: 13, offset: 48241},
 													expr: &actionExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 678, col: 14, offset: 21518},
 														run: (*parser).callonExtraListElement10,
 														expr: &seqExpr{
-															pos: position{line: 677, col: 14, offset: 21489},
+															pos: position{line: 678, col: 14, offset: 21518},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2917, col: 11, offset: 91788},
+																	pos: position{line: 2918, col: 11, offset: 91817},
 																	expr: &anyMatcher{
-																		line: 2917, col: 13, offset: 91790,
+																		line: 2918, col: 13, offset: 91819,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 677, col: 21, offset: 21496},
+																	pos: position{line: 678, col: 21, offset: 21525},
 																	expr: &actionExpr{
-																		pos: position{line: 2900, col: 10, offset: 91454},
+																		pos: position{line: 2901, col: 10, offset: 91483},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 10, offset: 91454},
+																			pos:        position{line: 2901, col: 10, offset: 91483},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25270,28 +25488,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2922, col: 8, offset: 91852},
+																	pos: position{line: 2923, col: 8, offset: 91881},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 12, offset: 91625},
+																			pos: position{line: 2910, col: 12, offset: 91654},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2909, col: 13, offset: 91626},
+																				pos: position{line: 2910, col: 13, offset: 91655},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 13, offset: 91626},
+																						pos:        position{line: 2910, col: 13, offset: 91655},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 20, offset: 91633},
+																						pos:        position{line: 2910, col: 20, offset: 91662},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 29, offset: 91642},
+																						pos:        position{line: 2910, col: 29, offset: 91671},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25300,9 +25518,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2919, col: 8, offset: 91802},
+																			pos: position{line: 2920, col: 8, offset: 91831},
 																			expr: &anyMatcher{
-																				line: 2919, col: 9, offset: 91803,
+																				line: 2920, col: 9, offset: 91832,
 																			},
 																		},
 																	},
@@ -25312,33 +25530,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1495, col: 13, offset: 48236},
+													pos:   position{line: 1496, col: 13, offset: 48265},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1495, col: 22, offset: 48245},
+														pos: position{line: 1496, col: 22, offset: 48274},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1575, col: 5, offset: 50763},
+																pos: position{line: 1576, col: 5, offset: 50792},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1575, col: 5, offset: 50763},
+																	pos: position{line: 1576, col: 5, offset: 50792},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1575, col: 5, offset: 50763},
+																			pos:   position{line: 1576, col: 5, offset: 50792},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1582, col: 5, offset: 50971},
+																				pos: position{line: 1583, col: 5, offset: 51000},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1582, col: 5, offset: 50971},
+																					pos: position{line: 1583, col: 5, offset: 51000},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1582, col: 5, offset: 50971},
+																							pos: position{line: 1583, col: 5, offset: 51000},
 																							expr: &actionExpr{
-																								pos: position{line: 2900, col: 10, offset: 91454},
+																								pos: position{line: 2901, col: 10, offset: 91483},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 10, offset: 91454},
+																									pos:        position{line: 2901, col: 10, offset: 91483},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25347,27 +25565,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1582, col: 12, offset: 50978},
+																							pos:   position{line: 1583, col: 12, offset: 51007},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1584, col: 9, offset: 51041},
+																								pos: position{line: 1585, col: 9, offset: 51070},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1584, col: 9, offset: 51041},
+																										pos: position{line: 1585, col: 9, offset: 51070},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1584, col: 9, offset: 51041},
+																											pos: position{line: 1585, col: 9, offset: 51070},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1584, col: 9, offset: 51041},
+																													pos:   position{line: 1585, col: 9, offset: 51070},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1584, col: 16, offset: 51048},
+																														pos: position{line: 1585, col: 16, offset: 51077},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1584, col: 16, offset: 51048},
+																															pos: position{line: 1585, col: 16, offset: 51077},
 																															expr: &litMatcher{
-																																pos:        position{line: 1584, col: 17, offset: 51049},
+																																pos:        position{line: 1585, col: 17, offset: 51078},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -25376,22 +25594,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1588, col: 9, offset: 51149},
+																													pos: position{line: 1589, col: 9, offset: 51178},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1607, col: 11, offset: 51866},
+																										pos: position{line: 1608, col: 11, offset: 51895},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1607, col: 11, offset: 51866},
+																											pos: position{line: 1608, col: 11, offset: 51895},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1607, col: 11, offset: 51866},
+																													pos: position{line: 1608, col: 11, offset: 51895},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1607, col: 12, offset: 51867},
+																														pos:        position{line: 1608, col: 12, offset: 51896},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -25399,7 +25617,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1607, col: 20, offset: 51875},
+																													pos:        position{line: 1608, col: 20, offset: 51904},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25408,20 +25626,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1609, col: 13, offset: 51992},
+																										pos: position{line: 1610, col: 13, offset: 52021},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1609, col: 13, offset: 51992},
+																											pos: position{line: 1610, col: 13, offset: 52021},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1609, col: 14, offset: 51993},
+																													pos:        position{line: 1610, col: 14, offset: 52022},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1609, col: 21, offset: 52000},
+																													pos:        position{line: 1610, col: 21, offset: 52029},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25430,20 +25648,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1611, col: 13, offset: 52120},
+																										pos: position{line: 1612, col: 13, offset: 52149},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1611, col: 13, offset: 52120},
+																											pos: position{line: 1612, col: 13, offset: 52149},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1611, col: 14, offset: 52121},
+																													pos:        position{line: 1612, col: 14, offset: 52150},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1611, col: 21, offset: 52128},
+																													pos:        position{line: 1612, col: 21, offset: 52157},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25452,15 +25670,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1613, col: 13, offset: 52248},
+																										pos: position{line: 1614, col: 13, offset: 52277},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1613, col: 13, offset: 52248},
+																											pos: position{line: 1614, col: 13, offset: 52277},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1613, col: 13, offset: 52248},
+																													pos: position{line: 1614, col: 13, offset: 52277},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1613, col: 14, offset: 52249},
+																														pos:        position{line: 1614, col: 14, offset: 52278},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -25468,7 +25686,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1613, col: 26, offset: 52261},
+																													pos:        position{line: 1614, col: 26, offset: 52290},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25477,15 +25695,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1615, col: 13, offset: 52381},
+																										pos: position{line: 1616, col: 13, offset: 52410},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1615, col: 13, offset: 52381},
+																											pos: position{line: 1616, col: 13, offset: 52410},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1615, col: 13, offset: 52381},
+																													pos: position{line: 1616, col: 13, offset: 52410},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1615, col: 14, offset: 52382},
+																														pos:        position{line: 1616, col: 14, offset: 52411},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -25493,7 +25711,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1615, col: 26, offset: 52394},
+																													pos:        position{line: 1616, col: 26, offset: 52423},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25505,12 +25723,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2904, col: 11, offset: 91515},
+																							pos: position{line: 2905, col: 11, offset: 91544},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2904, col: 11, offset: 91515},
+																								pos: position{line: 2905, col: 11, offset: 91544},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2904, col: 11, offset: 91515},
+																									pos:        position{line: 2905, col: 11, offset: 91544},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25523,26 +25741,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1576, col: 5, offset: 50802},
+																			pos:   position{line: 1577, col: 5, offset: 50831},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1523, col: 5, offset: 49269},
+																				pos: position{line: 1524, col: 5, offset: 49298},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1523, col: 5, offset: 49269},
+																					pos: position{line: 1524, col: 5, offset: 49298},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1523, col: 5, offset: 49269},
+																							pos:   position{line: 1524, col: 5, offset: 49298},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1523, col: 14, offset: 49278},
+																								pos: position{line: 1524, col: 14, offset: 49307},
 																								expr: &actionExpr{
-																									pos: position{line: 1523, col: 15, offset: 49279},
+																									pos: position{line: 1524, col: 15, offset: 49308},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1523, col: 15, offset: 49279},
+																										pos: position{line: 1524, col: 15, offset: 49308},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1523, col: 15, offset: 49279},
+																											pos:        position{line: 1524, col: 15, offset: 49308},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25553,28 +25771,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25583,9 +25801,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -25598,27 +25816,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1625, col: 5, offset: 52660},
+																pos: position{line: 1626, col: 5, offset: 52689},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1625, col: 5, offset: 52660},
+																	pos: position{line: 1626, col: 5, offset: 52689},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1625, col: 5, offset: 52660},
+																			pos:   position{line: 1626, col: 5, offset: 52689},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1632, col: 5, offset: 52933},
+																				pos: position{line: 1633, col: 5, offset: 52962},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1632, col: 5, offset: 52933},
+																					pos: position{line: 1633, col: 5, offset: 52962},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1632, col: 5, offset: 52933},
+																							pos: position{line: 1633, col: 5, offset: 52962},
 																							expr: &actionExpr{
-																								pos: position{line: 2900, col: 10, offset: 91454},
+																								pos: position{line: 2901, col: 10, offset: 91483},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 10, offset: 91454},
+																									pos:        position{line: 2901, col: 10, offset: 91483},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25627,24 +25845,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1633, col: 5, offset: 52945},
+																							pos:   position{line: 1634, col: 5, offset: 52974},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1634, col: 9, offset: 52961},
+																								pos: position{line: 1635, col: 9, offset: 52990},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1634, col: 10, offset: 52962},
+																									pos: position{line: 1635, col: 10, offset: 52991},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1634, col: 11, offset: 52963},
+																											pos:        position{line: 1635, col: 11, offset: 52992},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1634, col: 18, offset: 52970},
+																											pos: position{line: 1635, col: 18, offset: 52999},
 																											expr: &litMatcher{
-																												pos:        position{line: 1634, col: 19, offset: 52971},
+																												pos:        position{line: 1635, col: 19, offset: 53000},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -25655,16 +25873,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1637, col: 7, offset: 53061},
+																							pos: position{line: 1638, col: 7, offset: 53090},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2904, col: 11, offset: 91515},
+																							pos: position{line: 2905, col: 11, offset: 91544},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2904, col: 11, offset: 91515},
+																								pos: position{line: 2905, col: 11, offset: 91544},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2904, col: 11, offset: 91515},
+																									pos:        position{line: 2905, col: 11, offset: 91544},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25677,56 +25895,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1626, col: 5, offset: 52701},
+																			pos:   position{line: 1627, col: 5, offset: 52730},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1626, col: 16, offset: 52712},
+																				pos: position{line: 1627, col: 16, offset: 52741},
 																				expr: &actionExpr{
-																					pos: position{line: 1647, col: 5, offset: 53326},
+																					pos: position{line: 1648, col: 5, offset: 53355},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1647, col: 5, offset: 53326},
+																						pos: position{line: 1648, col: 5, offset: 53355},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1647, col: 5, offset: 53326},
+																								pos: position{line: 1648, col: 5, offset: 53355},
 																								expr: &litMatcher{
-																									pos:        position{line: 1647, col: 6, offset: 53327},
+																									pos:        position{line: 1648, col: 6, offset: 53356},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1647, col: 10, offset: 53331},
+																								pos:   position{line: 1648, col: 10, offset: 53360},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1648, col: 7, offset: 53345},
+																									pos: position{line: 1649, col: 7, offset: 53374},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1648, col: 7, offset: 53345},
+																											pos: position{line: 1649, col: 7, offset: 53374},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1648, col: 7, offset: 53345},
+																												pos:        position{line: 1649, col: 7, offset: 53374},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1649, col: 7, offset: 53390},
+																											pos: position{line: 1650, col: 7, offset: 53419},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1649, col: 7, offset: 53390},
+																												pos:        position{line: 1650, col: 7, offset: 53419},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1650, col: 7, offset: 53433},
+																											pos: position{line: 1651, col: 7, offset: 53462},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1650, col: 7, offset: 53433},
+																												pos:        position{line: 1651, col: 7, offset: 53462},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -25736,12 +25954,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2904, col: 11, offset: 91515},
+																								pos: position{line: 2905, col: 11, offset: 91544},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2904, col: 11, offset: 91515},
+																									pos: position{line: 2905, col: 11, offset: 91544},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2904, col: 11, offset: 91515},
+																										pos:        position{line: 2905, col: 11, offset: 91544},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -25755,26 +25973,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1627, col: 5, offset: 52751},
+																			pos:   position{line: 1628, col: 5, offset: 52780},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1523, col: 5, offset: 49269},
+																				pos: position{line: 1524, col: 5, offset: 49298},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1523, col: 5, offset: 49269},
+																					pos: position{line: 1524, col: 5, offset: 49298},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1523, col: 5, offset: 49269},
+																							pos:   position{line: 1524, col: 5, offset: 49298},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1523, col: 14, offset: 49278},
+																								pos: position{line: 1524, col: 14, offset: 49307},
 																								expr: &actionExpr{
-																									pos: position{line: 1523, col: 15, offset: 49279},
+																									pos: position{line: 1524, col: 15, offset: 49308},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1523, col: 15, offset: 49279},
+																										pos: position{line: 1524, col: 15, offset: 49308},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1523, col: 15, offset: 49279},
+																											pos:        position{line: 1524, col: 15, offset: 49308},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25785,28 +26003,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25815,9 +26033,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -25830,36 +26048,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1715, col: 5, offset: 55273},
+																pos: position{line: 1716, col: 5, offset: 55302},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1715, col: 5, offset: 55273},
+																	pos: position{line: 1716, col: 5, offset: 55302},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1715, col: 5, offset: 55273},
+																			pos:   position{line: 1716, col: 5, offset: 55302},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1721, col: 5, offset: 55470},
+																				pos: position{line: 1722, col: 5, offset: 55499},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1721, col: 5, offset: 55470},
+																					pos: position{line: 1722, col: 5, offset: 55499},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1721, col: 5, offset: 55470},
+																							pos:        position{line: 1722, col: 5, offset: 55499},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1721, col: 9, offset: 55474},
+																							pos:   position{line: 1722, col: 9, offset: 55503},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1721, col: 14, offset: 55479},
+																								pos: position{line: 1722, col: 14, offset: 55508},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1721, col: 14, offset: 55479},
+																									pos: position{line: 1722, col: 14, offset: 55508},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1721, col: 14, offset: 55479},
+																										pos:        position{line: 1722, col: 14, offset: 55508},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -25869,18 +26087,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1721, col: 62, offset: 55527},
+																							pos:        position{line: 1722, col: 62, offset: 55556},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2904, col: 11, offset: 91515},
+																							pos: position{line: 2905, col: 11, offset: 91544},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2904, col: 11, offset: 91515},
+																								pos: position{line: 2905, col: 11, offset: 91544},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2904, col: 11, offset: 91515},
+																									pos:        position{line: 2905, col: 11, offset: 91544},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25893,26 +26111,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1716, col: 5, offset: 55309},
+																			pos:   position{line: 1717, col: 5, offset: 55338},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1523, col: 5, offset: 49269},
+																				pos: position{line: 1524, col: 5, offset: 49298},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1523, col: 5, offset: 49269},
+																					pos: position{line: 1524, col: 5, offset: 49298},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1523, col: 5, offset: 49269},
+																							pos:   position{line: 1524, col: 5, offset: 49298},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1523, col: 14, offset: 49278},
+																								pos: position{line: 1524, col: 14, offset: 49307},
 																								expr: &actionExpr{
-																									pos: position{line: 1523, col: 15, offset: 49279},
+																									pos: position{line: 1524, col: 15, offset: 49308},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1523, col: 15, offset: 49279},
+																										pos: position{line: 1524, col: 15, offset: 49308},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1523, col: 15, offset: 49279},
+																											pos:        position{line: 1524, col: 15, offset: 49308},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25923,28 +26141,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25953,9 +26171,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -25968,40 +26186,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1659, col: 5, offset: 53626},
+																pos: position{line: 1660, col: 5, offset: 53655},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1659, col: 5, offset: 53626},
+																	pos: position{line: 1660, col: 5, offset: 53655},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1659, col: 5, offset: 53626},
+																			pos:   position{line: 1660, col: 5, offset: 53655},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1667, col: 5, offset: 53952},
+																				pos: position{line: 1668, col: 5, offset: 53981},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1667, col: 5, offset: 53952},
+																					pos: position{line: 1668, col: 5, offset: 53981},
 																					expr: &seqExpr{
-																						pos: position{line: 1667, col: 6, offset: 53953},
+																						pos: position{line: 1668, col: 6, offset: 53982},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1667, col: 6, offset: 53953},
+																								pos: position{line: 1668, col: 6, offset: 53982},
 																								expr: &actionExpr{
-																									pos: position{line: 1672, col: 5, offset: 54103},
+																									pos: position{line: 1673, col: 5, offset: 54132},
 																									run: (*parser).callonExtraListElement174,
 																									expr: &seqExpr{
-																										pos: position{line: 1672, col: 5, offset: 54103},
+																										pos: position{line: 1673, col: 5, offset: 54132},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1672, col: 5, offset: 54103},
+																												pos:   position{line: 1673, col: 5, offset: 54132},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1672, col: 16, offset: 54114},
+																													pos: position{line: 1673, col: 16, offset: 54143},
 																													run: (*parser).callonExtraListElement177,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1672, col: 16, offset: 54114},
+																														pos: position{line: 1673, col: 16, offset: 54143},
 																														expr: &litMatcher{
-																															pos:        position{line: 1672, col: 17, offset: 54115},
+																															pos:        position{line: 1673, col: 17, offset: 54144},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -26010,7 +26228,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1675, col: 5, offset: 54172},
+																												pos: position{line: 1676, col: 5, offset: 54201},
 																												run: (*parser).callonExtraListElement180,
 																											},
 																										},
@@ -26018,30 +26236,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1667, col: 35, offset: 53982},
+																								pos: position{line: 1668, col: 35, offset: 54011},
 																								expr: &choiceExpr{
-																									pos: position{line: 2922, col: 8, offset: 91852},
+																									pos: position{line: 2923, col: 8, offset: 91881},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2909, col: 12, offset: 91625},
+																											pos: position{line: 2910, col: 12, offset: 91654},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2909, col: 13, offset: 91626},
+																												pos: position{line: 2910, col: 13, offset: 91655},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 13, offset: 91626},
+																														pos:        position{line: 2910, col: 13, offset: 91655},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 20, offset: 91633},
+																														pos:        position{line: 2910, col: 20, offset: 91662},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 29, offset: 91642},
+																														pos:        position{line: 2910, col: 29, offset: 91671},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26050,16 +26268,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2919, col: 8, offset: 91802},
+																											pos: position{line: 2920, col: 8, offset: 91831},
 																											expr: &anyMatcher{
-																												line: 2919, col: 9, offset: 91803,
+																												line: 2920, col: 9, offset: 91832,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1667, col: 40, offset: 53987,
+																								line: 1668, col: 40, offset: 54016,
 																							},
 																						},
 																					},
@@ -26067,24 +26285,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1660, col: 5, offset: 53661},
+																			pos:   position{line: 1661, col: 5, offset: 53690},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1672, col: 5, offset: 54103},
+																				pos: position{line: 1673, col: 5, offset: 54132},
 																				run: (*parser).callonExtraListElement192,
 																				expr: &seqExpr{
-																					pos: position{line: 1672, col: 5, offset: 54103},
+																					pos: position{line: 1673, col: 5, offset: 54132},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1672, col: 5, offset: 54103},
+																							pos:   position{line: 1673, col: 5, offset: 54132},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1672, col: 16, offset: 54114},
+																								pos: position{line: 1673, col: 16, offset: 54143},
 																								run: (*parser).callonExtraListElement195,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1672, col: 16, offset: 54114},
+																									pos: position{line: 1673, col: 16, offset: 54143},
 																									expr: &litMatcher{
-																										pos:        position{line: 1672, col: 17, offset: 54115},
+																										pos:        position{line: 1673, col: 17, offset: 54144},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26093,7 +26311,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1675, col: 5, offset: 54172},
+																							pos: position{line: 1676, col: 5, offset: 54201},
 																							run: (*parser).callonExtraListElement198,
 																						},
 																					},
@@ -26101,24 +26319,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1661, col: 5, offset: 53706},
+																			pos:   position{line: 1662, col: 5, offset: 53735},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1683, col: 5, offset: 54421},
+																				pos: position{line: 1684, col: 5, offset: 54450},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1685, col: 9, offset: 54487},
+																						pos: position{line: 1686, col: 9, offset: 54516},
 																						run: (*parser).callonExtraListElement201,
 																						expr: &seqExpr{
-																							pos: position{line: 1685, col: 9, offset: 54487},
+																							pos: position{line: 1686, col: 9, offset: 54516},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1685, col: 9, offset: 54487},
+																									pos: position{line: 1686, col: 9, offset: 54516},
 																									expr: &actionExpr{
-																										pos: position{line: 2900, col: 10, offset: 91454},
+																										pos: position{line: 2901, col: 10, offset: 91483},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2900, col: 10, offset: 91454},
+																											pos:        position{line: 2901, col: 10, offset: 91483},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26127,28 +26345,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2922, col: 8, offset: 91852},
+																									pos: position{line: 2923, col: 8, offset: 91881},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2909, col: 12, offset: 91625},
+																											pos: position{line: 2910, col: 12, offset: 91654},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2909, col: 13, offset: 91626},
+																												pos: position{line: 2910, col: 13, offset: 91655},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 13, offset: 91626},
+																														pos:        position{line: 2910, col: 13, offset: 91655},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 20, offset: 91633},
+																														pos:        position{line: 2910, col: 20, offset: 91662},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 29, offset: 91642},
+																														pos:        position{line: 2910, col: 29, offset: 91671},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26157,34 +26375,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2919, col: 8, offset: 91802},
+																											pos: position{line: 2920, col: 8, offset: 91831},
 																											expr: &anyMatcher{
-																												line: 2919, col: 9, offset: 91803,
+																												line: 2920, col: 9, offset: 91832,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1686, col: 9, offset: 54506},
+																									pos: position{line: 1687, col: 9, offset: 54535},
 																									expr: &actionExpr{
-																										pos: position{line: 677, col: 14, offset: 21489},
+																										pos: position{line: 678, col: 14, offset: 21518},
 																										run: (*parser).callonExtraListElement215,
 																										expr: &seqExpr{
-																											pos: position{line: 677, col: 14, offset: 21489},
+																											pos: position{line: 678, col: 14, offset: 21518},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2917, col: 11, offset: 91788},
+																													pos: position{line: 2918, col: 11, offset: 91817},
 																													expr: &anyMatcher{
-																														line: 2917, col: 13, offset: 91790,
+																														line: 2918, col: 13, offset: 91819,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 677, col: 21, offset: 21496},
+																													pos: position{line: 678, col: 21, offset: 21525},
 																													expr: &actionExpr{
-																														pos: position{line: 2900, col: 10, offset: 91454},
+																														pos: position{line: 2901, col: 10, offset: 91483},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2900, col: 10, offset: 91454},
+																															pos:        position{line: 2901, col: 10, offset: 91483},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26193,28 +26411,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2922, col: 8, offset: 91852},
+																													pos: position{line: 2923, col: 8, offset: 91881},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2909, col: 12, offset: 91625},
+																															pos: position{line: 2910, col: 12, offset: 91654},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2909, col: 13, offset: 91626},
+																																pos: position{line: 2910, col: 13, offset: 91655},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2909, col: 13, offset: 91626},
+																																		pos:        position{line: 2910, col: 13, offset: 91655},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2909, col: 20, offset: 91633},
+																																		pos:        position{line: 2910, col: 20, offset: 91662},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2909, col: 29, offset: 91642},
+																																		pos:        position{line: 2910, col: 29, offset: 91671},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26223,9 +26441,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2919, col: 8, offset: 91802},
+																															pos: position{line: 2920, col: 8, offset: 91831},
 																															expr: &anyMatcher{
-																																line: 2919, col: 9, offset: 91803,
+																																line: 2920, col: 9, offset: 91832,
 																															},
 																														},
 																													},
@@ -26238,18 +26456,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1692, col: 9, offset: 54635},
+																						pos: position{line: 1693, col: 9, offset: 54664},
 																						run: (*parser).callonExtraListElement230,
 																						expr: &seqExpr{
-																							pos: position{line: 1692, col: 9, offset: 54635},
+																							pos: position{line: 1693, col: 9, offset: 54664},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2904, col: 11, offset: 91515},
+																									pos: position{line: 2905, col: 11, offset: 91544},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2904, col: 11, offset: 91515},
+																										pos: position{line: 2905, col: 11, offset: 91544},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2904, col: 11, offset: 91515},
+																											pos:        position{line: 2905, col: 11, offset: 91544},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26258,15 +26476,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1693, col: 9, offset: 54708},
+																									pos:   position{line: 1694, col: 9, offset: 54737},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1693, col: 18, offset: 54717},
+																										pos: position{line: 1694, col: 18, offset: 54746},
 																										run: (*parser).callonExtraListElement236,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1693, col: 18, offset: 54717},
+																											pos: position{line: 1694, col: 18, offset: 54746},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1693, col: 18, offset: 54717},
+																												pos:        position{line: 1694, col: 18, offset: 54746},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26276,28 +26494,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2922, col: 8, offset: 91852},
+																									pos: position{line: 2923, col: 8, offset: 91881},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2909, col: 12, offset: 91625},
+																											pos: position{line: 2910, col: 12, offset: 91654},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2909, col: 13, offset: 91626},
+																												pos: position{line: 2910, col: 13, offset: 91655},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 13, offset: 91626},
+																														pos:        position{line: 2910, col: 13, offset: 91655},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 20, offset: 91633},
+																														pos:        position{line: 2910, col: 20, offset: 91662},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 29, offset: 91642},
+																														pos:        position{line: 2910, col: 29, offset: 91671},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26306,9 +26524,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2919, col: 8, offset: 91802},
+																											pos: position{line: 2920, col: 8, offset: 91831},
 																											expr: &anyMatcher{
-																												line: 2919, col: 9, offset: 91803,
+																												line: 2920, col: 9, offset: 91832,
 																											},
 																										},
 																									},
@@ -26329,50 +26547,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1498, col: 13, offset: 48396},
+										pos: position{line: 1499, col: 13, offset: 48425},
 										run: (*parser).callonExtraListElement247,
 										expr: &seqExpr{
-											pos: position{line: 1498, col: 13, offset: 48396},
+											pos: position{line: 1499, col: 13, offset: 48425},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1498, col: 13, offset: 48396},
+													pos:   position{line: 1499, col: 13, offset: 48425},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1498, col: 24, offset: 48407},
+														pos: position{line: 1499, col: 24, offset: 48436},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1498, col: 25, offset: 48408},
+															pos:  position{line: 1499, col: 25, offset: 48437},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1499, col: 13, offset: 48439},
+													pos:   position{line: 1500, col: 13, offset: 48468},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1499, col: 22, offset: 48448},
+														pos: position{line: 1500, col: 22, offset: 48477},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1575, col: 5, offset: 50763},
+																pos: position{line: 1576, col: 5, offset: 50792},
 																run: (*parser).callonExtraListElement254,
 																expr: &seqExpr{
-																	pos: position{line: 1575, col: 5, offset: 50763},
+																	pos: position{line: 1576, col: 5, offset: 50792},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1575, col: 5, offset: 50763},
+																			pos:   position{line: 1576, col: 5, offset: 50792},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1582, col: 5, offset: 50971},
+																				pos: position{line: 1583, col: 5, offset: 51000},
 																				run: (*parser).callonExtraListElement257,
 																				expr: &seqExpr{
-																					pos: position{line: 1582, col: 5, offset: 50971},
+																					pos: position{line: 1583, col: 5, offset: 51000},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1582, col: 5, offset: 50971},
+																							pos: position{line: 1583, col: 5, offset: 51000},
 																							expr: &actionExpr{
-																								pos: position{line: 2900, col: 10, offset: 91454},
+																								pos: position{line: 2901, col: 10, offset: 91483},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 10, offset: 91454},
+																									pos:        position{line: 2901, col: 10, offset: 91483},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26381,27 +26599,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1582, col: 12, offset: 50978},
+																							pos:   position{line: 1583, col: 12, offset: 51007},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1584, col: 9, offset: 51041},
+																								pos: position{line: 1585, col: 9, offset: 51070},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1584, col: 9, offset: 51041},
+																										pos: position{line: 1585, col: 9, offset: 51070},
 																										run: (*parser).callonExtraListElement264,
 																										expr: &seqExpr{
-																											pos: position{line: 1584, col: 9, offset: 51041},
+																											pos: position{line: 1585, col: 9, offset: 51070},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1584, col: 9, offset: 51041},
+																													pos:   position{line: 1585, col: 9, offset: 51070},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1584, col: 16, offset: 51048},
+																														pos: position{line: 1585, col: 16, offset: 51077},
 																														run: (*parser).callonExtraListElement267,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1584, col: 16, offset: 51048},
+																															pos: position{line: 1585, col: 16, offset: 51077},
 																															expr: &litMatcher{
-																																pos:        position{line: 1584, col: 17, offset: 51049},
+																																pos:        position{line: 1585, col: 17, offset: 51078},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26410,22 +26628,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1588, col: 9, offset: 51149},
+																													pos: position{line: 1589, col: 9, offset: 51178},
 																													run: (*parser).callonExtraListElement270,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1607, col: 11, offset: 51866},
+																										pos: position{line: 1608, col: 11, offset: 51895},
 																										run: (*parser).callonExtraListElement271,
 																										expr: &seqExpr{
-																											pos: position{line: 1607, col: 11, offset: 51866},
+																											pos: position{line: 1608, col: 11, offset: 51895},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1607, col: 11, offset: 51866},
+																													pos: position{line: 1608, col: 11, offset: 51895},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1607, col: 12, offset: 51867},
+																														pos:        position{line: 1608, col: 12, offset: 51896},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26433,7 +26651,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1607, col: 20, offset: 51875},
+																													pos:        position{line: 1608, col: 20, offset: 51904},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26442,20 +26660,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1609, col: 13, offset: 51992},
+																										pos: position{line: 1610, col: 13, offset: 52021},
 																										run: (*parser).callonExtraListElement276,
 																										expr: &seqExpr{
-																											pos: position{line: 1609, col: 13, offset: 51992},
+																											pos: position{line: 1610, col: 13, offset: 52021},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1609, col: 14, offset: 51993},
+																													pos:        position{line: 1610, col: 14, offset: 52022},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1609, col: 21, offset: 52000},
+																													pos:        position{line: 1610, col: 21, offset: 52029},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26464,20 +26682,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1611, col: 13, offset: 52120},
+																										pos: position{line: 1612, col: 13, offset: 52149},
 																										run: (*parser).callonExtraListElement280,
 																										expr: &seqExpr{
-																											pos: position{line: 1611, col: 13, offset: 52120},
+																											pos: position{line: 1612, col: 13, offset: 52149},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1611, col: 14, offset: 52121},
+																													pos:        position{line: 1612, col: 14, offset: 52150},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1611, col: 21, offset: 52128},
+																													pos:        position{line: 1612, col: 21, offset: 52157},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26486,15 +26704,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1613, col: 13, offset: 52248},
+																										pos: position{line: 1614, col: 13, offset: 52277},
 																										run: (*parser).callonExtraListElement284,
 																										expr: &seqExpr{
-																											pos: position{line: 1613, col: 13, offset: 52248},
+																											pos: position{line: 1614, col: 13, offset: 52277},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1613, col: 13, offset: 52248},
+																													pos: position{line: 1614, col: 13, offset: 52277},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1613, col: 14, offset: 52249},
+																														pos:        position{line: 1614, col: 14, offset: 52278},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26502,7 +26720,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1613, col: 26, offset: 52261},
+																													pos:        position{line: 1614, col: 26, offset: 52290},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26511,15 +26729,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1615, col: 13, offset: 52381},
+																										pos: position{line: 1616, col: 13, offset: 52410},
 																										run: (*parser).callonExtraListElement289,
 																										expr: &seqExpr{
-																											pos: position{line: 1615, col: 13, offset: 52381},
+																											pos: position{line: 1616, col: 13, offset: 52410},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1615, col: 13, offset: 52381},
+																													pos: position{line: 1616, col: 13, offset: 52410},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1615, col: 14, offset: 52382},
+																														pos:        position{line: 1616, col: 14, offset: 52411},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26527,7 +26745,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1615, col: 26, offset: 52394},
+																													pos:        position{line: 1616, col: 26, offset: 52423},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26539,12 +26757,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2904, col: 11, offset: 91515},
+																							pos: position{line: 2905, col: 11, offset: 91544},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2904, col: 11, offset: 91515},
+																								pos: position{line: 2905, col: 11, offset: 91544},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2904, col: 11, offset: 91515},
+																									pos:        position{line: 2905, col: 11, offset: 91544},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26557,26 +26775,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1576, col: 5, offset: 50802},
+																			pos:   position{line: 1577, col: 5, offset: 50831},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1523, col: 5, offset: 49269},
+																				pos: position{line: 1524, col: 5, offset: 49298},
 																				run: (*parser).callonExtraListElement298,
 																				expr: &seqExpr{
-																					pos: position{line: 1523, col: 5, offset: 49269},
+																					pos: position{line: 1524, col: 5, offset: 49298},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1523, col: 5, offset: 49269},
+																							pos:   position{line: 1524, col: 5, offset: 49298},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1523, col: 14, offset: 49278},
+																								pos: position{line: 1524, col: 14, offset: 49307},
 																								expr: &actionExpr{
-																									pos: position{line: 1523, col: 15, offset: 49279},
+																									pos: position{line: 1524, col: 15, offset: 49308},
 																									run: (*parser).callonExtraListElement302,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1523, col: 15, offset: 49279},
+																										pos: position{line: 1524, col: 15, offset: 49308},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1523, col: 15, offset: 49279},
+																											pos:        position{line: 1524, col: 15, offset: 49308},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26587,28 +26805,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26617,9 +26835,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -26632,27 +26850,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1625, col: 5, offset: 52660},
+																pos: position{line: 1626, col: 5, offset: 52689},
 																run: (*parser).callonExtraListElement313,
 																expr: &seqExpr{
-																	pos: position{line: 1625, col: 5, offset: 52660},
+																	pos: position{line: 1626, col: 5, offset: 52689},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1625, col: 5, offset: 52660},
+																			pos:   position{line: 1626, col: 5, offset: 52689},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1632, col: 5, offset: 52933},
+																				pos: position{line: 1633, col: 5, offset: 52962},
 																				run: (*parser).callonExtraListElement316,
 																				expr: &seqExpr{
-																					pos: position{line: 1632, col: 5, offset: 52933},
+																					pos: position{line: 1633, col: 5, offset: 52962},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1632, col: 5, offset: 52933},
+																							pos: position{line: 1633, col: 5, offset: 52962},
 																							expr: &actionExpr{
-																								pos: position{line: 2900, col: 10, offset: 91454},
+																								pos: position{line: 2901, col: 10, offset: 91483},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 10, offset: 91454},
+																									pos:        position{line: 2901, col: 10, offset: 91483},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26661,24 +26879,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1633, col: 5, offset: 52945},
+																							pos:   position{line: 1634, col: 5, offset: 52974},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1634, col: 9, offset: 52961},
+																								pos: position{line: 1635, col: 9, offset: 52990},
 																								run: (*parser).callonExtraListElement322,
 																								expr: &choiceExpr{
-																									pos: position{line: 1634, col: 10, offset: 52962},
+																									pos: position{line: 1635, col: 10, offset: 52991},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1634, col: 11, offset: 52963},
+																											pos:        position{line: 1635, col: 11, offset: 52992},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1634, col: 18, offset: 52970},
+																											pos: position{line: 1635, col: 18, offset: 52999},
 																											expr: &litMatcher{
-																												pos:        position{line: 1634, col: 19, offset: 52971},
+																												pos:        position{line: 1635, col: 19, offset: 53000},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26689,16 +26907,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1637, col: 7, offset: 53061},
+																							pos: position{line: 1638, col: 7, offset: 53090},
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2904, col: 11, offset: 91515},
+																							pos: position{line: 2905, col: 11, offset: 91544},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2904, col: 11, offset: 91515},
+																								pos: position{line: 2905, col: 11, offset: 91544},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2904, col: 11, offset: 91515},
+																									pos:        position{line: 2905, col: 11, offset: 91544},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26711,56 +26929,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1626, col: 5, offset: 52701},
+																			pos:   position{line: 1627, col: 5, offset: 52730},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1626, col: 16, offset: 52712},
+																				pos: position{line: 1627, col: 16, offset: 52741},
 																				expr: &actionExpr{
-																					pos: position{line: 1647, col: 5, offset: 53326},
+																					pos: position{line: 1648, col: 5, offset: 53355},
 																					run: (*parser).callonExtraListElement333,
 																					expr: &seqExpr{
-																						pos: position{line: 1647, col: 5, offset: 53326},
+																						pos: position{line: 1648, col: 5, offset: 53355},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1647, col: 5, offset: 53326},
+																								pos: position{line: 1648, col: 5, offset: 53355},
 																								expr: &litMatcher{
-																									pos:        position{line: 1647, col: 6, offset: 53327},
+																									pos:        position{line: 1648, col: 6, offset: 53356},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1647, col: 10, offset: 53331},
+																								pos:   position{line: 1648, col: 10, offset: 53360},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1648, col: 7, offset: 53345},
+																									pos: position{line: 1649, col: 7, offset: 53374},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1648, col: 7, offset: 53345},
+																											pos: position{line: 1649, col: 7, offset: 53374},
 																											run: (*parser).callonExtraListElement339,
 																											expr: &litMatcher{
-																												pos:        position{line: 1648, col: 7, offset: 53345},
+																												pos:        position{line: 1649, col: 7, offset: 53374},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1649, col: 7, offset: 53390},
+																											pos: position{line: 1650, col: 7, offset: 53419},
 																											run: (*parser).callonExtraListElement341,
 																											expr: &litMatcher{
-																												pos:        position{line: 1649, col: 7, offset: 53390},
+																												pos:        position{line: 1650, col: 7, offset: 53419},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1650, col: 7, offset: 53433},
+																											pos: position{line: 1651, col: 7, offset: 53462},
 																											run: (*parser).callonExtraListElement343,
 																											expr: &litMatcher{
-																												pos:        position{line: 1650, col: 7, offset: 53433},
+																												pos:        position{line: 1651, col: 7, offset: 53462},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26770,12 +26988,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2904, col: 11, offset: 91515},
+																								pos: position{line: 2905, col: 11, offset: 91544},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2904, col: 11, offset: 91515},
+																									pos: position{line: 2905, col: 11, offset: 91544},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2904, col: 11, offset: 91515},
+																										pos:        position{line: 2905, col: 11, offset: 91544},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26789,26 +27007,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1627, col: 5, offset: 52751},
+																			pos:   position{line: 1628, col: 5, offset: 52780},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1523, col: 5, offset: 49269},
+																				pos: position{line: 1524, col: 5, offset: 49298},
 																				run: (*parser).callonExtraListElement349,
 																				expr: &seqExpr{
-																					pos: position{line: 1523, col: 5, offset: 49269},
+																					pos: position{line: 1524, col: 5, offset: 49298},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1523, col: 5, offset: 49269},
+																							pos:   position{line: 1524, col: 5, offset: 49298},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1523, col: 14, offset: 49278},
+																								pos: position{line: 1524, col: 14, offset: 49307},
 																								expr: &actionExpr{
-																									pos: position{line: 1523, col: 15, offset: 49279},
+																									pos: position{line: 1524, col: 15, offset: 49308},
 																									run: (*parser).callonExtraListElement353,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1523, col: 15, offset: 49279},
+																										pos: position{line: 1524, col: 15, offset: 49308},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1523, col: 15, offset: 49279},
+																											pos:        position{line: 1524, col: 15, offset: 49308},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26819,28 +27037,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26849,9 +27067,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -26864,36 +27082,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1715, col: 5, offset: 55273},
+																pos: position{line: 1716, col: 5, offset: 55302},
 																run: (*parser).callonExtraListElement364,
 																expr: &seqExpr{
-																	pos: position{line: 1715, col: 5, offset: 55273},
+																	pos: position{line: 1716, col: 5, offset: 55302},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1715, col: 5, offset: 55273},
+																			pos:   position{line: 1716, col: 5, offset: 55302},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1721, col: 5, offset: 55470},
+																				pos: position{line: 1722, col: 5, offset: 55499},
 																				run: (*parser).callonExtraListElement367,
 																				expr: &seqExpr{
-																					pos: position{line: 1721, col: 5, offset: 55470},
+																					pos: position{line: 1722, col: 5, offset: 55499},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1721, col: 5, offset: 55470},
+																							pos:        position{line: 1722, col: 5, offset: 55499},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1721, col: 9, offset: 55474},
+																							pos:   position{line: 1722, col: 9, offset: 55503},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1721, col: 14, offset: 55479},
+																								pos: position{line: 1722, col: 14, offset: 55508},
 																								run: (*parser).callonExtraListElement371,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1721, col: 14, offset: 55479},
+																									pos: position{line: 1722, col: 14, offset: 55508},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1721, col: 14, offset: 55479},
+																										pos:        position{line: 1722, col: 14, offset: 55508},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26903,18 +27121,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1721, col: 62, offset: 55527},
+																							pos:        position{line: 1722, col: 62, offset: 55556},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2904, col: 11, offset: 91515},
+																							pos: position{line: 2905, col: 11, offset: 91544},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2904, col: 11, offset: 91515},
+																								pos: position{line: 2905, col: 11, offset: 91544},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2904, col: 11, offset: 91515},
+																									pos:        position{line: 2905, col: 11, offset: 91544},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26927,26 +27145,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1716, col: 5, offset: 55309},
+																			pos:   position{line: 1717, col: 5, offset: 55338},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1523, col: 5, offset: 49269},
+																				pos: position{line: 1524, col: 5, offset: 49298},
 																				run: (*parser).callonExtraListElement379,
 																				expr: &seqExpr{
-																					pos: position{line: 1523, col: 5, offset: 49269},
+																					pos: position{line: 1524, col: 5, offset: 49298},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1523, col: 5, offset: 49269},
+																							pos:   position{line: 1524, col: 5, offset: 49298},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1523, col: 14, offset: 49278},
+																								pos: position{line: 1524, col: 14, offset: 49307},
 																								expr: &actionExpr{
-																									pos: position{line: 1523, col: 15, offset: 49279},
+																									pos: position{line: 1524, col: 15, offset: 49308},
 																									run: (*parser).callonExtraListElement383,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1523, col: 15, offset: 49279},
+																										pos: position{line: 1524, col: 15, offset: 49308},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1523, col: 15, offset: 49279},
+																											pos:        position{line: 1524, col: 15, offset: 49308},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26957,28 +27175,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26987,9 +27205,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -27002,40 +27220,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1659, col: 5, offset: 53626},
+																pos: position{line: 1660, col: 5, offset: 53655},
 																run: (*parser).callonExtraListElement394,
 																expr: &seqExpr{
-																	pos: position{line: 1659, col: 5, offset: 53626},
+																	pos: position{line: 1660, col: 5, offset: 53655},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1659, col: 5, offset: 53626},
+																			pos:   position{line: 1660, col: 5, offset: 53655},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1667, col: 5, offset: 53952},
+																				pos: position{line: 1668, col: 5, offset: 53981},
 																				run: (*parser).callonExtraListElement397,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1667, col: 5, offset: 53952},
+																					pos: position{line: 1668, col: 5, offset: 53981},
 																					expr: &seqExpr{
-																						pos: position{line: 1667, col: 6, offset: 53953},
+																						pos: position{line: 1668, col: 6, offset: 53982},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1667, col: 6, offset: 53953},
+																								pos: position{line: 1668, col: 6, offset: 53982},
 																								expr: &actionExpr{
-																									pos: position{line: 1672, col: 5, offset: 54103},
+																									pos: position{line: 1673, col: 5, offset: 54132},
 																									run: (*parser).callonExtraListElement401,
 																									expr: &seqExpr{
-																										pos: position{line: 1672, col: 5, offset: 54103},
+																										pos: position{line: 1673, col: 5, offset: 54132},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1672, col: 5, offset: 54103},
+																												pos:   position{line: 1673, col: 5, offset: 54132},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1672, col: 16, offset: 54114},
+																													pos: position{line: 1673, col: 16, offset: 54143},
 																													run: (*parser).callonExtraListElement404,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1672, col: 16, offset: 54114},
+																														pos: position{line: 1673, col: 16, offset: 54143},
 																														expr: &litMatcher{
-																															pos:        position{line: 1672, col: 17, offset: 54115},
+																															pos:        position{line: 1673, col: 17, offset: 54144},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -27044,7 +27262,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1675, col: 5, offset: 54172},
+																												pos: position{line: 1676, col: 5, offset: 54201},
 																												run: (*parser).callonExtraListElement407,
 																											},
 																										},
@@ -27052,30 +27270,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1667, col: 35, offset: 53982},
+																								pos: position{line: 1668, col: 35, offset: 54011},
 																								expr: &choiceExpr{
-																									pos: position{line: 2922, col: 8, offset: 91852},
+																									pos: position{line: 2923, col: 8, offset: 91881},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2909, col: 12, offset: 91625},
+																											pos: position{line: 2910, col: 12, offset: 91654},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2909, col: 13, offset: 91626},
+																												pos: position{line: 2910, col: 13, offset: 91655},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 13, offset: 91626},
+																														pos:        position{line: 2910, col: 13, offset: 91655},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 20, offset: 91633},
+																														pos:        position{line: 2910, col: 20, offset: 91662},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 29, offset: 91642},
+																														pos:        position{line: 2910, col: 29, offset: 91671},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27084,16 +27302,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2919, col: 8, offset: 91802},
+																											pos: position{line: 2920, col: 8, offset: 91831},
 																											expr: &anyMatcher{
-																												line: 2919, col: 9, offset: 91803,
+																												line: 2920, col: 9, offset: 91832,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1667, col: 40, offset: 53987,
+																								line: 1668, col: 40, offset: 54016,
 																							},
 																						},
 																					},
@@ -27101,24 +27319,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1660, col: 5, offset: 53661},
+																			pos:   position{line: 1661, col: 5, offset: 53690},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1672, col: 5, offset: 54103},
+																				pos: position{line: 1673, col: 5, offset: 54132},
 																				run: (*parser).callonExtraListElement419,
 																				expr: &seqExpr{
-																					pos: position{line: 1672, col: 5, offset: 54103},
+																					pos: position{line: 1673, col: 5, offset: 54132},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1672, col: 5, offset: 54103},
+																							pos:   position{line: 1673, col: 5, offset: 54132},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1672, col: 16, offset: 54114},
+																								pos: position{line: 1673, col: 16, offset: 54143},
 																								run: (*parser).callonExtraListElement422,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1672, col: 16, offset: 54114},
+																									pos: position{line: 1673, col: 16, offset: 54143},
 																									expr: &litMatcher{
-																										pos:        position{line: 1672, col: 17, offset: 54115},
+																										pos:        position{line: 1673, col: 17, offset: 54144},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27127,7 +27345,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1675, col: 5, offset: 54172},
+																							pos: position{line: 1676, col: 5, offset: 54201},
 																							run: (*parser).callonExtraListElement425,
 																						},
 																					},
@@ -27135,24 +27353,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1661, col: 5, offset: 53706},
+																			pos:   position{line: 1662, col: 5, offset: 53735},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1683, col: 5, offset: 54421},
+																				pos: position{line: 1684, col: 5, offset: 54450},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1685, col: 9, offset: 54487},
+																						pos: position{line: 1686, col: 9, offset: 54516},
 																						run: (*parser).callonExtraListElement428,
 																						expr: &seqExpr{
-																							pos: position{line: 1685, col: 9, offset: 54487},
+																							pos: position{line: 1686, col: 9, offset: 54516},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1685, col: 9, offset: 54487},
+																									pos: position{line: 1686, col: 9, offset: 54516},
 																									expr: &actionExpr{
-																										pos: position{line: 2900, col: 10, offset: 91454},
+																										pos: position{line: 2901, col: 10, offset: 91483},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2900, col: 10, offset: 91454},
+																											pos:        position{line: 2901, col: 10, offset: 91483},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27161,28 +27379,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2922, col: 8, offset: 91852},
+																									pos: position{line: 2923, col: 8, offset: 91881},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2909, col: 12, offset: 91625},
+																											pos: position{line: 2910, col: 12, offset: 91654},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2909, col: 13, offset: 91626},
+																												pos: position{line: 2910, col: 13, offset: 91655},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 13, offset: 91626},
+																														pos:        position{line: 2910, col: 13, offset: 91655},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 20, offset: 91633},
+																														pos:        position{line: 2910, col: 20, offset: 91662},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 29, offset: 91642},
+																														pos:        position{line: 2910, col: 29, offset: 91671},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27191,34 +27409,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2919, col: 8, offset: 91802},
+																											pos: position{line: 2920, col: 8, offset: 91831},
 																											expr: &anyMatcher{
-																												line: 2919, col: 9, offset: 91803,
+																												line: 2920, col: 9, offset: 91832,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1686, col: 9, offset: 54506},
+																									pos: position{line: 1687, col: 9, offset: 54535},
 																									expr: &actionExpr{
-																										pos: position{line: 677, col: 14, offset: 21489},
+																										pos: position{line: 678, col: 14, offset: 21518},
 																										run: (*parser).callonExtraListElement442,
 																										expr: &seqExpr{
-																											pos: position{line: 677, col: 14, offset: 21489},
+																											pos: position{line: 678, col: 14, offset: 21518},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2917, col: 11, offset: 91788},
+																													pos: position{line: 2918, col: 11, offset: 91817},
 																													expr: &anyMatcher{
-																														line: 2917, col: 13, offset: 91790,
+																														line: 2918, col: 13, offset: 91819,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 677, col: 21, offset: 21496},
+																													pos: position{line: 678, col: 21, offset: 21525},
 																													expr: &actionExpr{
-																														pos: position{line: 2900, col: 10, offset: 91454},
+																														pos: position{line: 2901, col: 10, offset: 91483},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2900, col: 10, offset: 91454},
+																															pos:        position{line: 2901, col: 10, offset: 91483},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27227,28 +27445,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2922, col: 8, offset: 91852},
+																													pos: position{line: 2923, col: 8, offset: 91881},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2909, col: 12, offset: 91625},
+																															pos: position{line: 2910, col: 12, offset: 91654},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2909, col: 13, offset: 91626},
+																																pos: position{line: 2910, col: 13, offset: 91655},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2909, col: 13, offset: 91626},
+																																		pos:        position{line: 2910, col: 13, offset: 91655},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2909, col: 20, offset: 91633},
+																																		pos:        position{line: 2910, col: 20, offset: 91662},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2909, col: 29, offset: 91642},
+																																		pos:        position{line: 2910, col: 29, offset: 91671},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27257,9 +27475,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2919, col: 8, offset: 91802},
+																															pos: position{line: 2920, col: 8, offset: 91831},
 																															expr: &anyMatcher{
-																																line: 2919, col: 9, offset: 91803,
+																																line: 2920, col: 9, offset: 91832,
 																															},
 																														},
 																													},
@@ -27272,18 +27490,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1692, col: 9, offset: 54635},
+																						pos: position{line: 1693, col: 9, offset: 54664},
 																						run: (*parser).callonExtraListElement457,
 																						expr: &seqExpr{
-																							pos: position{line: 1692, col: 9, offset: 54635},
+																							pos: position{line: 1693, col: 9, offset: 54664},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2904, col: 11, offset: 91515},
+																									pos: position{line: 2905, col: 11, offset: 91544},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2904, col: 11, offset: 91515},
+																										pos: position{line: 2905, col: 11, offset: 91544},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2904, col: 11, offset: 91515},
+																											pos:        position{line: 2905, col: 11, offset: 91544},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27292,15 +27510,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1693, col: 9, offset: 54708},
+																									pos:   position{line: 1694, col: 9, offset: 54737},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1693, col: 18, offset: 54717},
+																										pos: position{line: 1694, col: 18, offset: 54746},
 																										run: (*parser).callonExtraListElement463,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1693, col: 18, offset: 54717},
+																											pos: position{line: 1694, col: 18, offset: 54746},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1693, col: 18, offset: 54717},
+																												pos:        position{line: 1694, col: 18, offset: 54746},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27310,28 +27528,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2922, col: 8, offset: 91852},
+																									pos: position{line: 2923, col: 8, offset: 91881},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2909, col: 12, offset: 91625},
+																											pos: position{line: 2910, col: 12, offset: 91654},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2909, col: 13, offset: 91626},
+																												pos: position{line: 2910, col: 13, offset: 91655},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 13, offset: 91626},
+																														pos:        position{line: 2910, col: 13, offset: 91655},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 20, offset: 91633},
+																														pos:        position{line: 2910, col: 20, offset: 91662},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 29, offset: 91642},
+																														pos:        position{line: 2910, col: 29, offset: 91671},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27340,9 +27558,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2919, col: 8, offset: 91802},
+																											pos: position{line: 2920, col: 8, offset: 91831},
 																											expr: &anyMatcher{
-																												line: 2919, col: 9, offset: 91803,
+																												line: 2920, col: 9, offset: 91832,
 																											},
 																										},
 																									},
@@ -27363,40 +27581,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1502, col: 11, offset: 48633},
+										pos:  position{line: 1503, col: 11, offset: 48662},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2510, col: 22, offset: 80439},
+										pos: position{line: 2511, col: 22, offset: 80468},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2510, col: 22, offset: 80439},
+											pos: position{line: 2511, col: 22, offset: 80468},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2515, col: 31, offset: 80660},
+													pos:        position{line: 2516, col: 31, offset: 80689},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2515, col: 36, offset: 80665},
+													pos: position{line: 2516, col: 36, offset: 80694},
 													expr: &litMatcher{
-														pos:        position{line: 2515, col: 37, offset: 80666},
+														pos:        position{line: 2516, col: 37, offset: 80695},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2510, col: 49, offset: 80466},
+													pos:   position{line: 2511, col: 49, offset: 80495},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2846, col: 13, offset: 89980},
+														pos: position{line: 2847, col: 13, offset: 90009},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2846, col: 13, offset: 89980},
+															pos: position{line: 2847, col: 13, offset: 90009},
 															expr: &charClassMatcher{
-																pos:        position{line: 2846, col: 13, offset: 89980},
+																pos:        position{line: 2847, col: 13, offset: 90009},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -27406,28 +27624,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2922, col: 8, offset: 91852},
+													pos: position{line: 2923, col: 8, offset: 91881},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2909, col: 12, offset: 91625},
+															pos: position{line: 2910, col: 12, offset: 91654},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2909, col: 13, offset: 91626},
+																pos: position{line: 2910, col: 13, offset: 91655},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 13, offset: 91626},
+																		pos:        position{line: 2910, col: 13, offset: 91655},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 20, offset: 91633},
+																		pos:        position{line: 2910, col: 20, offset: 91662},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 29, offset: 91642},
+																		pos:        position{line: 2910, col: 29, offset: 91671},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -27436,9 +27654,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2919, col: 8, offset: 91802},
+															pos: position{line: 2920, col: 8, offset: 91831},
 															expr: &anyMatcher{
-																line: 2919, col: 9, offset: 91803,
+																line: 2920, col: 9, offset: 91832,
 															},
 														},
 													},
@@ -27447,32 +27665,32 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1510, col: 5, offset: 48911},
+										pos: position{line: 1511, col: 5, offset: 48940},
 										run: (*parser).callonExtraListElement492,
 										expr: &seqExpr{
-											pos: position{line: 1510, col: 5, offset: 48911},
+											pos: position{line: 1511, col: 5, offset: 48940},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1510, col: 5, offset: 48911},
+													pos: position{line: 1511, col: 5, offset: 48940},
 													expr: &actionExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 678, col: 14, offset: 21518},
 														run: (*parser).callonExtraListElement495,
 														expr: &seqExpr{
-															pos: position{line: 677, col: 14, offset: 21489},
+															pos: position{line: 678, col: 14, offset: 21518},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2917, col: 11, offset: 91788},
+																	pos: position{line: 2918, col: 11, offset: 91817},
 																	expr: &anyMatcher{
-																		line: 2917, col: 13, offset: 91790,
+																		line: 2918, col: 13, offset: 91819,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 677, col: 21, offset: 21496},
+																	pos: position{line: 678, col: 21, offset: 21525},
 																	expr: &actionExpr{
-																		pos: position{line: 2900, col: 10, offset: 91454},
+																		pos: position{line: 2901, col: 10, offset: 91483},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 10, offset: 91454},
+																			pos:        position{line: 2901, col: 10, offset: 91483},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27481,28 +27699,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2922, col: 8, offset: 91852},
+																	pos: position{line: 2923, col: 8, offset: 91881},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 12, offset: 91625},
+																			pos: position{line: 2910, col: 12, offset: 91654},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2909, col: 13, offset: 91626},
+																				pos: position{line: 2910, col: 13, offset: 91655},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 13, offset: 91626},
+																						pos:        position{line: 2910, col: 13, offset: 91655},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 20, offset: 91633},
+																						pos:        position{line: 2910, col: 20, offset: 91662},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 29, offset: 91642},
+																						pos:        position{line: 2910, col: 29, offset: 91671},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27511,9 +27729,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2919, col: 8, offset: 91802},
+																			pos: position{line: 2920, col: 8, offset: 91831},
 																			expr: &anyMatcher{
-																				line: 2919, col: 9, offset: 91803,
+																				line: 2920, col: 9, offset: 91832,
 																			},
 																		},
 																	},
@@ -27523,23 +27741,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1511, col: 5, offset: 48926},
+													pos: position{line: 1512, col: 5, offset: 48955},
 													expr: &seqExpr{
-														pos: position{line: 1541, col: 27, offset: 49752},
+														pos: position{line: 1542, col: 27, offset: 49781},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1541, col: 27, offset: 49752},
+																pos:        position{line: 1542, col: 27, offset: 49781},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1541, col: 31, offset: 49756},
+																pos: position{line: 1542, col: 31, offset: 49785},
 																expr: &actionExpr{
-																	pos: position{line: 2900, col: 10, offset: 91454},
+																	pos: position{line: 2901, col: 10, offset: 91483},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2900, col: 10, offset: 91454},
+																		pos:        position{line: 2901, col: 10, offset: 91483},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -27548,25 +27766,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2909, col: 12, offset: 91625},
+																pos: position{line: 2910, col: 12, offset: 91654},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2909, col: 13, offset: 91626},
+																	pos: position{line: 2910, col: 13, offset: 91655},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 13, offset: 91626},
+																			pos:        position{line: 2910, col: 13, offset: 91655},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 20, offset: 91633},
+																			pos:        position{line: 2910, col: 20, offset: 91662},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 29, offset: 91642},
+																			pos:        position{line: 2910, col: 29, offset: 91671},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -27578,20 +27796,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1512, col: 5, offset: 48954},
+													pos: position{line: 1513, col: 5, offset: 48983},
 													expr: &actionExpr{
-														pos: position{line: 1582, col: 5, offset: 50971},
+														pos: position{line: 1583, col: 5, offset: 51000},
 														run: (*parser).callonExtraListElement522,
 														expr: &seqExpr{
-															pos: position{line: 1582, col: 5, offset: 50971},
+															pos: position{line: 1583, col: 5, offset: 51000},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1582, col: 5, offset: 50971},
+																	pos: position{line: 1583, col: 5, offset: 51000},
 																	expr: &actionExpr{
-																		pos: position{line: 2900, col: 10, offset: 91454},
+																		pos: position{line: 2901, col: 10, offset: 91483},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 10, offset: 91454},
+																			pos:        position{line: 2901, col: 10, offset: 91483},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27600,27 +27818,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1582, col: 12, offset: 50978},
+																	pos:   position{line: 1583, col: 12, offset: 51007},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1584, col: 9, offset: 51041},
+																		pos: position{line: 1585, col: 9, offset: 51070},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1584, col: 9, offset: 51041},
+																				pos: position{line: 1585, col: 9, offset: 51070},
 																				run: (*parser).callonExtraListElement529,
 																				expr: &seqExpr{
-																					pos: position{line: 1584, col: 9, offset: 51041},
+																					pos: position{line: 1585, col: 9, offset: 51070},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1584, col: 9, offset: 51041},
+																							pos:   position{line: 1585, col: 9, offset: 51070},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1584, col: 16, offset: 51048},
+																								pos: position{line: 1585, col: 16, offset: 51077},
 																								run: (*parser).callonExtraListElement532,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1584, col: 16, offset: 51048},
+																									pos: position{line: 1585, col: 16, offset: 51077},
 																									expr: &litMatcher{
-																										pos:        position{line: 1584, col: 17, offset: 51049},
+																										pos:        position{line: 1585, col: 17, offset: 51078},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -27629,22 +27847,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1588, col: 9, offset: 51149},
+																							pos: position{line: 1589, col: 9, offset: 51178},
 																							run: (*parser).callonExtraListElement535,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1607, col: 11, offset: 51866},
+																				pos: position{line: 1608, col: 11, offset: 51895},
 																				run: (*parser).callonExtraListElement536,
 																				expr: &seqExpr{
-																					pos: position{line: 1607, col: 11, offset: 51866},
+																					pos: position{line: 1608, col: 11, offset: 51895},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1607, col: 11, offset: 51866},
+																							pos: position{line: 1608, col: 11, offset: 51895},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1607, col: 12, offset: 51867},
+																								pos:        position{line: 1608, col: 12, offset: 51896},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -27652,7 +27870,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1607, col: 20, offset: 51875},
+																							pos:        position{line: 1608, col: 20, offset: 51904},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27661,20 +27879,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1609, col: 13, offset: 51992},
+																				pos: position{line: 1610, col: 13, offset: 52021},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1609, col: 13, offset: 51992},
+																					pos: position{line: 1610, col: 13, offset: 52021},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1609, col: 14, offset: 51993},
+																							pos:        position{line: 1610, col: 14, offset: 52022},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1609, col: 21, offset: 52000},
+																							pos:        position{line: 1610, col: 21, offset: 52029},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27683,20 +27901,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1611, col: 13, offset: 52120},
+																				pos: position{line: 1612, col: 13, offset: 52149},
 																				run: (*parser).callonExtraListElement545,
 																				expr: &seqExpr{
-																					pos: position{line: 1611, col: 13, offset: 52120},
+																					pos: position{line: 1612, col: 13, offset: 52149},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1611, col: 14, offset: 52121},
+																							pos:        position{line: 1612, col: 14, offset: 52150},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1611, col: 21, offset: 52128},
+																							pos:        position{line: 1612, col: 21, offset: 52157},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27705,15 +27923,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1613, col: 13, offset: 52248},
+																				pos: position{line: 1614, col: 13, offset: 52277},
 																				run: (*parser).callonExtraListElement549,
 																				expr: &seqExpr{
-																					pos: position{line: 1613, col: 13, offset: 52248},
+																					pos: position{line: 1614, col: 13, offset: 52277},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1613, col: 13, offset: 52248},
+																							pos: position{line: 1614, col: 13, offset: 52277},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1613, col: 14, offset: 52249},
+																								pos:        position{line: 1614, col: 14, offset: 52278},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -27721,7 +27939,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1613, col: 26, offset: 52261},
+																							pos:        position{line: 1614, col: 26, offset: 52290},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -27730,15 +27948,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1615, col: 13, offset: 52381},
+																				pos: position{line: 1616, col: 13, offset: 52410},
 																				run: (*parser).callonExtraListElement554,
 																				expr: &seqExpr{
-																					pos: position{line: 1615, col: 13, offset: 52381},
+																					pos: position{line: 1616, col: 13, offset: 52410},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1615, col: 13, offset: 52381},
+																							pos: position{line: 1616, col: 13, offset: 52410},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1615, col: 14, offset: 52382},
+																								pos:        position{line: 1616, col: 14, offset: 52411},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -27746,7 +27964,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1615, col: 26, offset: 52394},
+																							pos:        position{line: 1616, col: 26, offset: 52423},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -27758,12 +27976,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2904, col: 11, offset: 91515},
+																	pos: position{line: 2905, col: 11, offset: 91544},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2904, col: 11, offset: 91515},
+																		pos: position{line: 2905, col: 11, offset: 91544},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2904, col: 11, offset: 91515},
+																			pos:        position{line: 2905, col: 11, offset: 91544},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27776,20 +27994,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1513, col: 5, offset: 48984},
+													pos: position{line: 1514, col: 5, offset: 49013},
 													expr: &actionExpr{
-														pos: position{line: 1632, col: 5, offset: 52933},
+														pos: position{line: 1633, col: 5, offset: 52962},
 														run: (*parser).callonExtraListElement563,
 														expr: &seqExpr{
-															pos: position{line: 1632, col: 5, offset: 52933},
+															pos: position{line: 1633, col: 5, offset: 52962},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1632, col: 5, offset: 52933},
+																	pos: position{line: 1633, col: 5, offset: 52962},
 																	expr: &actionExpr{
-																		pos: position{line: 2900, col: 10, offset: 91454},
+																		pos: position{line: 2901, col: 10, offset: 91483},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 10, offset: 91454},
+																			pos:        position{line: 2901, col: 10, offset: 91483},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27798,24 +28016,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1633, col: 5, offset: 52945},
+																	pos:   position{line: 1634, col: 5, offset: 52974},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1634, col: 9, offset: 52961},
+																		pos: position{line: 1635, col: 9, offset: 52990},
 																		run: (*parser).callonExtraListElement569,
 																		expr: &choiceExpr{
-																			pos: position{line: 1634, col: 10, offset: 52962},
+																			pos: position{line: 1635, col: 10, offset: 52991},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1634, col: 11, offset: 52963},
+																					pos:        position{line: 1635, col: 11, offset: 52992},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1634, col: 18, offset: 52970},
+																					pos: position{line: 1635, col: 18, offset: 52999},
 																					expr: &litMatcher{
-																						pos:        position{line: 1634, col: 19, offset: 52971},
+																						pos:        position{line: 1635, col: 19, offset: 53000},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -27826,16 +28044,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1637, col: 7, offset: 53061},
+																	pos: position{line: 1638, col: 7, offset: 53090},
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2904, col: 11, offset: 91515},
+																	pos: position{line: 2905, col: 11, offset: 91544},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2904, col: 11, offset: 91515},
+																		pos: position{line: 2905, col: 11, offset: 91544},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2904, col: 11, offset: 91515},
+																			pos:        position{line: 2905, col: 11, offset: 91544},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27848,29 +28066,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1514, col: 5, offset: 49016},
+													pos: position{line: 1515, col: 5, offset: 49045},
 													expr: &actionExpr{
-														pos: position{line: 1721, col: 5, offset: 55470},
+														pos: position{line: 1722, col: 5, offset: 55499},
 														run: (*parser).callonExtraListElement579,
 														expr: &seqExpr{
-															pos: position{line: 1721, col: 5, offset: 55470},
+															pos: position{line: 1722, col: 5, offset: 55499},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1721, col: 5, offset: 55470},
+																	pos:        position{line: 1722, col: 5, offset: 55499},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1721, col: 9, offset: 55474},
+																	pos:   position{line: 1722, col: 9, offset: 55503},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1721, col: 14, offset: 55479},
+																		pos: position{line: 1722, col: 14, offset: 55508},
 																		run: (*parser).callonExtraListElement583,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1721, col: 14, offset: 55479},
+																			pos: position{line: 1722, col: 14, offset: 55508},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1721, col: 14, offset: 55479},
+																				pos:        position{line: 1722, col: 14, offset: 55508},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -27880,18 +28098,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1721, col: 62, offset: 55527},
+																	pos:        position{line: 1722, col: 62, offset: 55556},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2904, col: 11, offset: 91515},
+																	pos: position{line: 2905, col: 11, offset: 91544},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2904, col: 11, offset: 91515},
+																		pos: position{line: 2905, col: 11, offset: 91544},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2904, col: 11, offset: 91515},
+																			pos:        position{line: 2905, col: 11, offset: 91544},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27904,36 +28122,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1515, col: 5, offset: 49046},
+													pos: position{line: 1516, col: 5, offset: 49075},
 													expr: &seqExpr{
-														pos: position{line: 1515, col: 7, offset: 49048},
+														pos: position{line: 1516, col: 7, offset: 49077},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1667, col: 5, offset: 53952},
+																pos: position{line: 1668, col: 5, offset: 53981},
 																run: (*parser).callonExtraListElement592,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1667, col: 5, offset: 53952},
+																	pos: position{line: 1668, col: 5, offset: 53981},
 																	expr: &seqExpr{
-																		pos: position{line: 1667, col: 6, offset: 53953},
+																		pos: position{line: 1668, col: 6, offset: 53982},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1667, col: 6, offset: 53953},
+																				pos: position{line: 1668, col: 6, offset: 53982},
 																				expr: &actionExpr{
-																					pos: position{line: 1672, col: 5, offset: 54103},
+																					pos: position{line: 1673, col: 5, offset: 54132},
 																					run: (*parser).callonExtraListElement596,
 																					expr: &seqExpr{
-																						pos: position{line: 1672, col: 5, offset: 54103},
+																						pos: position{line: 1673, col: 5, offset: 54132},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1672, col: 5, offset: 54103},
+																								pos:   position{line: 1673, col: 5, offset: 54132},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1672, col: 16, offset: 54114},
+																									pos: position{line: 1673, col: 16, offset: 54143},
 																									run: (*parser).callonExtraListElement599,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1672, col: 16, offset: 54114},
+																										pos: position{line: 1673, col: 16, offset: 54143},
 																										expr: &litMatcher{
-																											pos:        position{line: 1672, col: 17, offset: 54115},
+																											pos:        position{line: 1673, col: 17, offset: 54144},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -27942,7 +28160,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1675, col: 5, offset: 54172},
+																								pos: position{line: 1676, col: 5, offset: 54201},
 																								run: (*parser).callonExtraListElement602,
 																							},
 																						},
@@ -27950,30 +28168,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1667, col: 35, offset: 53982},
+																				pos: position{line: 1668, col: 35, offset: 54011},
 																				expr: &choiceExpr{
-																					pos: position{line: 2922, col: 8, offset: 91852},
+																					pos: position{line: 2923, col: 8, offset: 91881},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2909, col: 12, offset: 91625},
+																							pos: position{line: 2910, col: 12, offset: 91654},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2909, col: 13, offset: 91626},
+																								pos: position{line: 2910, col: 13, offset: 91655},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 13, offset: 91626},
+																										pos:        position{line: 2910, col: 13, offset: 91655},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 20, offset: 91633},
+																										pos:        position{line: 2910, col: 20, offset: 91662},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 29, offset: 91642},
+																										pos:        position{line: 2910, col: 29, offset: 91671},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -27982,37 +28200,37 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2919, col: 8, offset: 91802},
+																							pos: position{line: 2920, col: 8, offset: 91831},
 																							expr: &anyMatcher{
-																								line: 2919, col: 9, offset: 91803,
+																								line: 2920, col: 9, offset: 91832,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1667, col: 40, offset: 53987,
+																				line: 1668, col: 40, offset: 54016,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1672, col: 5, offset: 54103},
+																pos: position{line: 1673, col: 5, offset: 54132},
 																run: (*parser).callonExtraListElement613,
 																expr: &seqExpr{
-																	pos: position{line: 1672, col: 5, offset: 54103},
+																	pos: position{line: 1673, col: 5, offset: 54132},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1672, col: 5, offset: 54103},
+																			pos:   position{line: 1673, col: 5, offset: 54132},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1672, col: 16, offset: 54114},
+																				pos: position{line: 1673, col: 16, offset: 54143},
 																				run: (*parser).callonExtraListElement616,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1672, col: 16, offset: 54114},
+																					pos: position{line: 1673, col: 16, offset: 54143},
 																					expr: &litMatcher{
-																						pos:        position{line: 1672, col: 17, offset: 54115},
+																						pos:        position{line: 1673, col: 17, offset: 54144},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28021,7 +28239,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1675, col: 5, offset: 54172},
+																			pos: position{line: 1676, col: 5, offset: 54201},
 																			run: (*parser).callonExtraListElement619,
 																		},
 																	},
@@ -28031,17 +28249,17 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1516, col: 5, offset: 49104},
+													pos: position{line: 1517, col: 5, offset: 49133},
 													expr: &actionExpr{
-														pos: position{line: 724, col: 5, offset: 23042},
+														pos: position{line: 725, col: 5, offset: 23071},
 														run: (*parser).callonExtraListElement621,
 														expr: &seqExpr{
-															pos: position{line: 724, col: 5, offset: 23042},
+															pos: position{line: 725, col: 5, offset: 23071},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 724, col: 5, offset: 23042},
+																	pos: position{line: 725, col: 5, offset: 23071},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2790, col: 13, offset: 88549},
+																		pos:        position{line: 2791, col: 13, offset: 88578},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28049,36 +28267,36 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 725, col: 5, offset: 23072},
+																	pos:   position{line: 726, col: 5, offset: 23101},
 																	label: "delimiter",
 																	expr: &choiceExpr{
-																		pos: position{line: 726, col: 9, offset: 23092},
+																		pos: position{line: 727, col: 9, offset: 23121},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 740, col: 5, offset: 23584},
+																				pos: position{line: 741, col: 5, offset: 23613},
 																				run: (*parser).callonExtraListElement627,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
+																					pos: position{line: 741, col: 5, offset: 23613},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 740, col: 5, offset: 23584},
+																							pos:   position{line: 741, col: 5, offset: 23613},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 740, col: 16, offset: 23595},
+																								pos: position{line: 741, col: 16, offset: 23624},
 																								run: (*parser).callonExtraListElement630,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
+																									pos: position{line: 741, col: 16, offset: 23624},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 740, col: 16, offset: 23595},
+																											pos:        position{line: 741, col: 16, offset: 23624},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 740, col: 23, offset: 23602},
+																											pos: position{line: 741, col: 23, offset: 23631},
 																											expr: &litMatcher{
-																												pos:        position{line: 740, col: 23, offset: 23602},
+																												pos:        position{line: 741, col: 23, offset: 23631},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -28089,12 +28307,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 742, col: 8, offset: 23686},
+																							pos: position{line: 743, col: 8, offset: 23715},
 																							expr: &actionExpr{
-																								pos: position{line: 2900, col: 10, offset: 91454},
+																								pos: position{line: 2901, col: 10, offset: 91483},
 																								run: (*parser).callonExtraListElement636,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 10, offset: 91454},
+																									pos:        position{line: 2901, col: 10, offset: 91483},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28103,28 +28321,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonExtraListElement639,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28133,9 +28351,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -28144,30 +28362,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 747, col: 5, offset: 23832},
+																				pos: position{line: 748, col: 5, offset: 23861},
 																				run: (*parser).callonExtraListElement646,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 5, offset: 23832},
+																					pos: position{line: 748, col: 5, offset: 23861},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 747, col: 5, offset: 23832},
+																							pos:   position{line: 748, col: 5, offset: 23861},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 16, offset: 23843},
+																								pos: position{line: 748, col: 16, offset: 23872},
 																								run: (*parser).callonExtraListElement649,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 16, offset: 23843},
+																									pos: position{line: 748, col: 16, offset: 23872},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 747, col: 16, offset: 23843},
+																											pos:        position{line: 748, col: 16, offset: 23872},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 747, col: 23, offset: 23850},
+																											pos: position{line: 748, col: 23, offset: 23879},
 																											expr: &litMatcher{
-																												pos:        position{line: 747, col: 23, offset: 23850},
+																												pos:        position{line: 748, col: 23, offset: 23879},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -28178,12 +28396,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 749, col: 8, offset: 23934},
+																							pos: position{line: 750, col: 8, offset: 23963},
 																							expr: &actionExpr{
-																								pos: position{line: 2900, col: 10, offset: 91454},
+																								pos: position{line: 2901, col: 10, offset: 91483},
 																								run: (*parser).callonExtraListElement655,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 10, offset: 91454},
+																									pos:        position{line: 2901, col: 10, offset: 91483},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28192,28 +28410,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonExtraListElement658,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28222,9 +28440,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -28233,27 +28451,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 760, col: 26, offset: 24320},
+																				pos: position{line: 761, col: 26, offset: 24349},
 																				run: (*parser).callonExtraListElement665,
 																				expr: &seqExpr{
-																					pos: position{line: 760, col: 26, offset: 24320},
+																					pos: position{line: 761, col: 26, offset: 24349},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 760, col: 26, offset: 24320},
+																							pos:        position{line: 761, col: 26, offset: 24349},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 760, col: 32, offset: 24326},
+																							pos:   position{line: 761, col: 32, offset: 24355},
 																							label: "language",
 																							expr: &actionExpr{
-																								pos: position{line: 764, col: 13, offset: 24456},
+																								pos: position{line: 765, col: 13, offset: 24485},
 																								run: (*parser).callonExtraListElement669,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 764, col: 14, offset: 24457},
+																									pos: position{line: 765, col: 14, offset: 24486},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 764, col: 14, offset: 24457},
+																										pos:        position{line: 765, col: 14, offset: 24486},
 																										val:        "[^\\r\\n` ]",
 																										chars:      []rune{'\r', '\n', '`', ' '},
 																										ignoreCase: false,
@@ -28263,12 +28481,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 760, col: 52, offset: 24346},
+																							pos: position{line: 761, col: 52, offset: 24375},
 																							expr: &actionExpr{
-																								pos: position{line: 2900, col: 10, offset: 91454},
+																								pos: position{line: 2901, col: 10, offset: 91483},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 10, offset: 91454},
+																									pos:        position{line: 2901, col: 10, offset: 91483},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28277,28 +28495,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28307,9 +28525,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -28318,30 +28536,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 754, col: 5, offset: 24079},
+																				pos: position{line: 755, col: 5, offset: 24108},
 																				run: (*parser).callonExtraListElement683,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 5, offset: 24079},
+																					pos: position{line: 755, col: 5, offset: 24108},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 754, col: 5, offset: 24079},
+																							pos:   position{line: 755, col: 5, offset: 24108},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 16, offset: 24090},
+																								pos: position{line: 755, col: 16, offset: 24119},
 																								run: (*parser).callonExtraListElement686,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 16, offset: 24090},
+																									pos: position{line: 755, col: 16, offset: 24119},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 754, col: 16, offset: 24090},
+																											pos:        position{line: 755, col: 16, offset: 24119},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 754, col: 22, offset: 24096},
+																											pos: position{line: 755, col: 22, offset: 24125},
 																											expr: &litMatcher{
-																												pos:        position{line: 754, col: 22, offset: 24096},
+																												pos:        position{line: 755, col: 22, offset: 24125},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -28352,12 +28570,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 756, col: 8, offset: 24180},
+																							pos: position{line: 757, col: 8, offset: 24209},
 																							expr: &actionExpr{
-																								pos: position{line: 2900, col: 10, offset: 91454},
+																								pos: position{line: 2901, col: 10, offset: 91483},
 																								run: (*parser).callonExtraListElement692,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 10, offset: 91454},
+																									pos:        position{line: 2901, col: 10, offset: 91483},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28366,28 +28584,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonExtraListElement695,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28396,9 +28614,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -28407,30 +28625,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 769, col: 5, offset: 24616},
+																				pos: position{line: 770, col: 5, offset: 24645},
 																				run: (*parser).callonExtraListElement702,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 5, offset: 24616},
+																					pos: position{line: 770, col: 5, offset: 24645},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 769, col: 5, offset: 24616},
+																							pos:   position{line: 770, col: 5, offset: 24645},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 16, offset: 24627},
+																								pos: position{line: 770, col: 16, offset: 24656},
 																								run: (*parser).callonExtraListElement705,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 16, offset: 24627},
+																									pos: position{line: 770, col: 16, offset: 24656},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 769, col: 16, offset: 24627},
+																											pos:        position{line: 770, col: 16, offset: 24656},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 23, offset: 24634},
+																											pos: position{line: 770, col: 23, offset: 24663},
 																											expr: &litMatcher{
-																												pos:        position{line: 769, col: 23, offset: 24634},
+																												pos:        position{line: 770, col: 23, offset: 24663},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -28441,12 +28659,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 771, col: 8, offset: 24718},
+																							pos: position{line: 772, col: 8, offset: 24747},
 																							expr: &actionExpr{
-																								pos: position{line: 2900, col: 10, offset: 91454},
+																								pos: position{line: 2901, col: 10, offset: 91483},
 																								run: (*parser).callonExtraListElement711,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 10, offset: 91454},
+																									pos:        position{line: 2901, col: 10, offset: 91483},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28455,28 +28673,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonExtraListElement714,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28485,9 +28703,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -28496,30 +28714,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 783, col: 5, offset: 25092},
+																				pos: position{line: 784, col: 5, offset: 25121},
 																				run: (*parser).callonExtraListElement721,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 5, offset: 25092},
+																					pos: position{line: 784, col: 5, offset: 25121},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 783, col: 5, offset: 25092},
+																							pos:   position{line: 784, col: 5, offset: 25121},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 16, offset: 25103},
+																								pos: position{line: 784, col: 16, offset: 25132},
 																								run: (*parser).callonExtraListElement724,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 16, offset: 25103},
+																									pos: position{line: 784, col: 16, offset: 25132},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 783, col: 16, offset: 25103},
+																											pos:        position{line: 784, col: 16, offset: 25132},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 783, col: 23, offset: 25110},
+																											pos: position{line: 784, col: 23, offset: 25139},
 																											expr: &litMatcher{
-																												pos:        position{line: 783, col: 23, offset: 25110},
+																												pos:        position{line: 784, col: 23, offset: 25139},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -28530,12 +28748,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 785, col: 8, offset: 25194},
+																							pos: position{line: 786, col: 8, offset: 25223},
 																							expr: &actionExpr{
-																								pos: position{line: 2900, col: 10, offset: 91454},
+																								pos: position{line: 2901, col: 10, offset: 91483},
 																								run: (*parser).callonExtraListElement730,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 10, offset: 91454},
+																									pos:        position{line: 2901, col: 10, offset: 91483},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28544,28 +28762,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonExtraListElement733,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28574,9 +28792,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -28585,30 +28803,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 790, col: 5, offset: 25344},
+																				pos: position{line: 791, col: 5, offset: 25373},
 																				run: (*parser).callonExtraListElement740,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 5, offset: 25344},
+																					pos: position{line: 791, col: 5, offset: 25373},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 790, col: 5, offset: 25344},
+																							pos:   position{line: 791, col: 5, offset: 25373},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 16, offset: 25355},
+																								pos: position{line: 791, col: 16, offset: 25384},
 																								run: (*parser).callonExtraListElement743,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 16, offset: 25355},
+																									pos: position{line: 791, col: 16, offset: 25384},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 790, col: 16, offset: 25355},
+																											pos:        position{line: 791, col: 16, offset: 25384},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 790, col: 23, offset: 25362},
+																											pos: position{line: 791, col: 23, offset: 25391},
 																											expr: &litMatcher{
-																												pos:        position{line: 790, col: 23, offset: 25362},
+																												pos:        position{line: 791, col: 23, offset: 25391},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -28619,12 +28837,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 792, col: 8, offset: 25446},
+																							pos: position{line: 793, col: 8, offset: 25475},
 																							expr: &actionExpr{
-																								pos: position{line: 2900, col: 10, offset: 91454},
+																								pos: position{line: 2901, col: 10, offset: 91483},
 																								run: (*parser).callonExtraListElement749,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 10, offset: 91454},
+																									pos:        position{line: 2901, col: 10, offset: 91483},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28633,28 +28851,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonExtraListElement752,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28663,9 +28881,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -28674,30 +28892,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 797, col: 5, offset: 25594},
+																				pos: position{line: 798, col: 5, offset: 25623},
 																				run: (*parser).callonExtraListElement759,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 5, offset: 25594},
+																					pos: position{line: 798, col: 5, offset: 25623},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 797, col: 5, offset: 25594},
+																							pos:   position{line: 798, col: 5, offset: 25623},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 16, offset: 25605},
+																								pos: position{line: 798, col: 16, offset: 25634},
 																								run: (*parser).callonExtraListElement762,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 16, offset: 25605},
+																									pos: position{line: 798, col: 16, offset: 25634},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 797, col: 16, offset: 25605},
+																											pos:        position{line: 798, col: 16, offset: 25634},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 797, col: 23, offset: 25612},
+																											pos: position{line: 798, col: 23, offset: 25641},
 																											expr: &litMatcher{
-																												pos:        position{line: 797, col: 23, offset: 25612},
+																												pos:        position{line: 798, col: 23, offset: 25641},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -28708,12 +28926,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 799, col: 8, offset: 25696},
+																							pos: position{line: 800, col: 8, offset: 25725},
 																							expr: &actionExpr{
-																								pos: position{line: 2900, col: 10, offset: 91454},
+																								pos: position{line: 2901, col: 10, offset: 91483},
 																								run: (*parser).callonExtraListElement768,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 10, offset: 91454},
+																									pos:        position{line: 2901, col: 10, offset: 91483},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28722,28 +28940,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonExtraListElement771,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28752,9 +28970,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -28763,30 +28981,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 804, col: 5, offset: 25840},
+																				pos: position{line: 805, col: 5, offset: 25869},
 																				run: (*parser).callonExtraListElement778,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 5, offset: 25840},
+																					pos: position{line: 805, col: 5, offset: 25869},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 804, col: 5, offset: 25840},
+																							pos:   position{line: 805, col: 5, offset: 25869},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 16, offset: 25851},
+																								pos: position{line: 805, col: 16, offset: 25880},
 																								run: (*parser).callonExtraListElement781,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 16, offset: 25851},
+																									pos: position{line: 805, col: 16, offset: 25880},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 804, col: 16, offset: 25851},
+																											pos:        position{line: 805, col: 16, offset: 25880},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 804, col: 23, offset: 25858},
+																											pos: position{line: 805, col: 23, offset: 25887},
 																											expr: &litMatcher{
-																												pos:        position{line: 804, col: 23, offset: 25858},
+																												pos:        position{line: 805, col: 23, offset: 25887},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -28797,12 +29015,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 806, col: 8, offset: 25942},
+																							pos: position{line: 807, col: 8, offset: 25971},
 																							expr: &actionExpr{
-																								pos: position{line: 2900, col: 10, offset: 91454},
+																								pos: position{line: 2901, col: 10, offset: 91483},
 																								run: (*parser).callonExtraListElement787,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 10, offset: 91454},
+																									pos:        position{line: 2901, col: 10, offset: 91483},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28811,28 +29029,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonExtraListElement790,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28841,9 +29059,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -28859,15 +29077,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1517, col: 5, offset: 49124},
+													pos:   position{line: 1518, col: 5, offset: 49153},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2850, col: 14, offset: 90047},
+														pos: position{line: 2851, col: 14, offset: 90076},
 														run: (*parser).callonExtraListElement798,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2850, col: 14, offset: 90047},
+															pos: position{line: 2851, col: 14, offset: 90076},
 															expr: &charClassMatcher{
-																pos:        position{line: 2850, col: 14, offset: 90047},
+																pos:        position{line: 2851, col: 14, offset: 90076},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28877,28 +29095,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2922, col: 8, offset: 91852},
+													pos: position{line: 2923, col: 8, offset: 91881},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2909, col: 12, offset: 91625},
+															pos: position{line: 2910, col: 12, offset: 91654},
 															run: (*parser).callonExtraListElement802,
 															expr: &choiceExpr{
-																pos: position{line: 2909, col: 13, offset: 91626},
+																pos: position{line: 2910, col: 13, offset: 91655},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 13, offset: 91626},
+																		pos:        position{line: 2910, col: 13, offset: 91655},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 20, offset: 91633},
+																		pos:        position{line: 2910, col: 20, offset: 91662},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 29, offset: 91642},
+																		pos:        position{line: 2910, col: 29, offset: 91671},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28907,9 +29125,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2919, col: 8, offset: 91802},
+															pos: position{line: 2920, col: 8, offset: 91831},
 															expr: &anyMatcher{
-																line: 2919, col: 9, offset: 91803,
+																line: 2920, col: 9, offset: 91832,
 															},
 														},
 													},
@@ -28926,28 +29144,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1533, col: 1, offset: 49515},
+			pos:  position{line: 1534, col: 1, offset: 49544},
 			expr: &actionExpr{
-				pos: position{line: 1534, col: 5, offset: 49540},
+				pos: position{line: 1535, col: 5, offset: 49569},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1534, col: 5, offset: 49540},
+					pos: position{line: 1535, col: 5, offset: 49569},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1534, col: 5, offset: 49540},
+							pos:   position{line: 1535, col: 5, offset: 49569},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1534, col: 12, offset: 49547},
+								pos: position{line: 1535, col: 12, offset: 49576},
 								expr: &seqExpr{
-									pos: position{line: 1534, col: 13, offset: 49548},
+									pos: position{line: 1535, col: 13, offset: 49577},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1534, col: 13, offset: 49548},
+											pos: position{line: 1535, col: 13, offset: 49577},
 											expr: &actionExpr{
-												pos: position{line: 2900, col: 10, offset: 91454},
+												pos: position{line: 2901, col: 10, offset: 91483},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2900, col: 10, offset: 91454},
+													pos:        position{line: 2901, col: 10, offset: 91483},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -28956,25 +29174,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2909, col: 12, offset: 91625},
+											pos: position{line: 2910, col: 12, offset: 91654},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2909, col: 13, offset: 91626},
+												pos: position{line: 2910, col: 13, offset: 91655},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2909, col: 13, offset: 91626},
+														pos:        position{line: 2910, col: 13, offset: 91655},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2909, col: 20, offset: 91633},
+														pos:        position{line: 2910, col: 20, offset: 91662},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2909, col: 29, offset: 91642},
+														pos:        position{line: 2910, col: 29, offset: 91671},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -28987,18 +29205,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1541, col: 27, offset: 49752},
+							pos:        position{line: 1542, col: 27, offset: 49781},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1541, col: 31, offset: 49756},
+							pos: position{line: 1542, col: 31, offset: 49785},
 							expr: &actionExpr{
-								pos: position{line: 2900, col: 10, offset: 91454},
+								pos: position{line: 2901, col: 10, offset: 91483},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2900, col: 10, offset: 91454},
+									pos:        position{line: 2901, col: 10, offset: 91483},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29007,25 +29225,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2909, col: 12, offset: 91625},
+							pos: position{line: 2910, col: 12, offset: 91654},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2909, col: 13, offset: 91626},
+								pos: position{line: 2910, col: 13, offset: 91655},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2909, col: 13, offset: 91626},
+										pos:        position{line: 2910, col: 13, offset: 91655},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2909, col: 20, offset: 91633},
+										pos:        position{line: 2910, col: 20, offset: 91662},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2909, col: 29, offset: 91642},
+										pos:        position{line: 2910, col: 29, offset: 91671},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29034,12 +29252,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1536, col: 5, offset: 49597},
+							pos:   position{line: 1537, col: 5, offset: 49626},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1536, col: 13, offset: 49605},
+								pos: position{line: 1537, col: 13, offset: 49634},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1536, col: 13, offset: 49605},
+									pos:  position{line: 1537, col: 13, offset: 49634},
 									name: "ListContinuationElement",
 								},
 							},
@@ -29050,46 +29268,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1543, col: 1, offset: 49772},
+			pos:  position{line: 1544, col: 1, offset: 49801},
 			expr: &actionExpr{
-				pos: position{line: 1544, col: 5, offset: 49843},
+				pos: position{line: 1545, col: 5, offset: 49872},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1544, col: 5, offset: 49843},
+					pos: position{line: 1545, col: 5, offset: 49872},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2917, col: 11, offset: 91788},
+							pos: position{line: 2918, col: 11, offset: 91817},
 							expr: &anyMatcher{
-								line: 2917, col: 13, offset: 91790,
+								line: 2918, col: 13, offset: 91819,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1545, col: 5, offset: 49871},
+							pos: position{line: 1546, col: 5, offset: 49900},
 							expr: &choiceExpr{
-								pos: position{line: 1482, col: 5, offset: 47829},
+								pos: position{line: 1483, col: 5, offset: 47858},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1575, col: 5, offset: 50763},
+										pos: position{line: 1576, col: 5, offset: 50792},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1575, col: 5, offset: 50763},
+											pos: position{line: 1576, col: 5, offset: 50792},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1575, col: 5, offset: 50763},
+													pos:   position{line: 1576, col: 5, offset: 50792},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1582, col: 5, offset: 50971},
+														pos: position{line: 1583, col: 5, offset: 51000},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1582, col: 5, offset: 50971},
+															pos: position{line: 1583, col: 5, offset: 51000},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1582, col: 5, offset: 50971},
+																	pos: position{line: 1583, col: 5, offset: 51000},
 																	expr: &actionExpr{
-																		pos: position{line: 2900, col: 10, offset: 91454},
+																		pos: position{line: 2901, col: 10, offset: 91483},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 10, offset: 91454},
+																			pos:        position{line: 2901, col: 10, offset: 91483},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29098,27 +29316,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1582, col: 12, offset: 50978},
+																	pos:   position{line: 1583, col: 12, offset: 51007},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1584, col: 9, offset: 51041},
+																		pos: position{line: 1585, col: 9, offset: 51070},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1584, col: 9, offset: 51041},
+																				pos: position{line: 1585, col: 9, offset: 51070},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1584, col: 9, offset: 51041},
+																					pos: position{line: 1585, col: 9, offset: 51070},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1584, col: 9, offset: 51041},
+																							pos:   position{line: 1585, col: 9, offset: 51070},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1584, col: 16, offset: 51048},
+																								pos: position{line: 1585, col: 16, offset: 51077},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1584, col: 16, offset: 51048},
+																									pos: position{line: 1585, col: 16, offset: 51077},
 																									expr: &litMatcher{
-																										pos:        position{line: 1584, col: 17, offset: 51049},
+																										pos:        position{line: 1585, col: 17, offset: 51078},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29127,22 +29345,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1588, col: 9, offset: 51149},
+																							pos: position{line: 1589, col: 9, offset: 51178},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1607, col: 11, offset: 51866},
+																				pos: position{line: 1608, col: 11, offset: 51895},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1607, col: 11, offset: 51866},
+																					pos: position{line: 1608, col: 11, offset: 51895},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1607, col: 11, offset: 51866},
+																							pos: position{line: 1608, col: 11, offset: 51895},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1607, col: 12, offset: 51867},
+																								pos:        position{line: 1608, col: 12, offset: 51896},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29150,7 +29368,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1607, col: 20, offset: 51875},
+																							pos:        position{line: 1608, col: 20, offset: 51904},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29159,20 +29377,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1609, col: 13, offset: 51992},
+																				pos: position{line: 1610, col: 13, offset: 52021},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1609, col: 13, offset: 51992},
+																					pos: position{line: 1610, col: 13, offset: 52021},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1609, col: 14, offset: 51993},
+																							pos:        position{line: 1610, col: 14, offset: 52022},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1609, col: 21, offset: 52000},
+																							pos:        position{line: 1610, col: 21, offset: 52029},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29181,20 +29399,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1611, col: 13, offset: 52120},
+																				pos: position{line: 1612, col: 13, offset: 52149},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1611, col: 13, offset: 52120},
+																					pos: position{line: 1612, col: 13, offset: 52149},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1611, col: 14, offset: 52121},
+																							pos:        position{line: 1612, col: 14, offset: 52150},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1611, col: 21, offset: 52128},
+																							pos:        position{line: 1612, col: 21, offset: 52157},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29203,15 +29421,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1613, col: 13, offset: 52248},
+																				pos: position{line: 1614, col: 13, offset: 52277},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1613, col: 13, offset: 52248},
+																					pos: position{line: 1614, col: 13, offset: 52277},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1613, col: 13, offset: 52248},
+																							pos: position{line: 1614, col: 13, offset: 52277},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1613, col: 14, offset: 52249},
+																								pos:        position{line: 1614, col: 14, offset: 52278},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29219,7 +29437,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1613, col: 26, offset: 52261},
+																							pos:        position{line: 1614, col: 26, offset: 52290},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29228,15 +29446,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1615, col: 13, offset: 52381},
+																				pos: position{line: 1616, col: 13, offset: 52410},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1615, col: 13, offset: 52381},
+																					pos: position{line: 1616, col: 13, offset: 52410},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1615, col: 13, offset: 52381},
+																							pos: position{line: 1616, col: 13, offset: 52410},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1615, col: 14, offset: 52382},
+																								pos:        position{line: 1616, col: 14, offset: 52411},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29244,7 +29462,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1615, col: 26, offset: 52394},
+																							pos:        position{line: 1616, col: 26, offset: 52423},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29256,12 +29474,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2904, col: 11, offset: 91515},
+																	pos: position{line: 2905, col: 11, offset: 91544},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2904, col: 11, offset: 91515},
+																		pos: position{line: 2905, col: 11, offset: 91544},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2904, col: 11, offset: 91515},
+																			pos:        position{line: 2905, col: 11, offset: 91544},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29274,26 +29492,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1576, col: 5, offset: 50802},
+													pos:   position{line: 1577, col: 5, offset: 50831},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1523, col: 5, offset: 49269},
+														pos: position{line: 1524, col: 5, offset: 49298},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1523, col: 5, offset: 49269},
+															pos: position{line: 1524, col: 5, offset: 49298},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1523, col: 5, offset: 49269},
+																	pos:   position{line: 1524, col: 5, offset: 49298},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1523, col: 14, offset: 49278},
+																		pos: position{line: 1524, col: 14, offset: 49307},
 																		expr: &actionExpr{
-																			pos: position{line: 1523, col: 15, offset: 49279},
+																			pos: position{line: 1524, col: 15, offset: 49308},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1523, col: 15, offset: 49279},
+																				pos: position{line: 1524, col: 15, offset: 49308},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1523, col: 15, offset: 49279},
+																					pos:        position{line: 1524, col: 15, offset: 49308},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29304,28 +29522,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2922, col: 8, offset: 91852},
+																	pos: position{line: 2923, col: 8, offset: 91881},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 12, offset: 91625},
+																			pos: position{line: 2910, col: 12, offset: 91654},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2909, col: 13, offset: 91626},
+																				pos: position{line: 2910, col: 13, offset: 91655},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 13, offset: 91626},
+																						pos:        position{line: 2910, col: 13, offset: 91655},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 20, offset: 91633},
+																						pos:        position{line: 2910, col: 20, offset: 91662},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 29, offset: 91642},
+																						pos:        position{line: 2910, col: 29, offset: 91671},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29334,9 +29552,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2919, col: 8, offset: 91802},
+																			pos: position{line: 2920, col: 8, offset: 91831},
 																			expr: &anyMatcher{
-																				line: 2919, col: 9, offset: 91803,
+																				line: 2920, col: 9, offset: 91832,
 																			},
 																		},
 																	},
@@ -29349,27 +29567,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1625, col: 5, offset: 52660},
+										pos: position{line: 1626, col: 5, offset: 52689},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1625, col: 5, offset: 52660},
+											pos: position{line: 1626, col: 5, offset: 52689},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1625, col: 5, offset: 52660},
+													pos:   position{line: 1626, col: 5, offset: 52689},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1632, col: 5, offset: 52933},
+														pos: position{line: 1633, col: 5, offset: 52962},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1632, col: 5, offset: 52933},
+															pos: position{line: 1633, col: 5, offset: 52962},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1632, col: 5, offset: 52933},
+																	pos: position{line: 1633, col: 5, offset: 52962},
 																	expr: &actionExpr{
-																		pos: position{line: 2900, col: 10, offset: 91454},
+																		pos: position{line: 2901, col: 10, offset: 91483},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 10, offset: 91454},
+																			pos:        position{line: 2901, col: 10, offset: 91483},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29378,24 +29596,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1633, col: 5, offset: 52945},
+																	pos:   position{line: 1634, col: 5, offset: 52974},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1634, col: 9, offset: 52961},
+																		pos: position{line: 1635, col: 9, offset: 52990},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1634, col: 10, offset: 52962},
+																			pos: position{line: 1635, col: 10, offset: 52991},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1634, col: 11, offset: 52963},
+																					pos:        position{line: 1635, col: 11, offset: 52992},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1634, col: 18, offset: 52970},
+																					pos: position{line: 1635, col: 18, offset: 52999},
 																					expr: &litMatcher{
-																						pos:        position{line: 1634, col: 19, offset: 52971},
+																						pos:        position{line: 1635, col: 19, offset: 53000},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29406,16 +29624,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1637, col: 7, offset: 53061},
+																	pos: position{line: 1638, col: 7, offset: 53090},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2904, col: 11, offset: 91515},
+																	pos: position{line: 2905, col: 11, offset: 91544},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2904, col: 11, offset: 91515},
+																		pos: position{line: 2905, col: 11, offset: 91544},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2904, col: 11, offset: 91515},
+																			pos:        position{line: 2905, col: 11, offset: 91544},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29428,56 +29646,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1626, col: 5, offset: 52701},
+													pos:   position{line: 1627, col: 5, offset: 52730},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1626, col: 16, offset: 52712},
+														pos: position{line: 1627, col: 16, offset: 52741},
 														expr: &actionExpr{
-															pos: position{line: 1647, col: 5, offset: 53326},
+															pos: position{line: 1648, col: 5, offset: 53355},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1647, col: 5, offset: 53326},
+																pos: position{line: 1648, col: 5, offset: 53355},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1647, col: 5, offset: 53326},
+																		pos: position{line: 1648, col: 5, offset: 53355},
 																		expr: &litMatcher{
-																			pos:        position{line: 1647, col: 6, offset: 53327},
+																			pos:        position{line: 1648, col: 6, offset: 53356},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1647, col: 10, offset: 53331},
+																		pos:   position{line: 1648, col: 10, offset: 53360},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1648, col: 7, offset: 53345},
+																			pos: position{line: 1649, col: 7, offset: 53374},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1648, col: 7, offset: 53345},
+																					pos: position{line: 1649, col: 7, offset: 53374},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1648, col: 7, offset: 53345},
+																						pos:        position{line: 1649, col: 7, offset: 53374},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1649, col: 7, offset: 53390},
+																					pos: position{line: 1650, col: 7, offset: 53419},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1649, col: 7, offset: 53390},
+																						pos:        position{line: 1650, col: 7, offset: 53419},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1650, col: 7, offset: 53433},
+																					pos: position{line: 1651, col: 7, offset: 53462},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1650, col: 7, offset: 53433},
+																						pos:        position{line: 1651, col: 7, offset: 53462},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -29487,12 +29705,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2904, col: 11, offset: 91515},
+																		pos: position{line: 2905, col: 11, offset: 91544},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2904, col: 11, offset: 91515},
+																			pos: position{line: 2905, col: 11, offset: 91544},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2904, col: 11, offset: 91515},
+																				pos:        position{line: 2905, col: 11, offset: 91544},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29506,26 +29724,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1627, col: 5, offset: 52751},
+													pos:   position{line: 1628, col: 5, offset: 52780},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1523, col: 5, offset: 49269},
+														pos: position{line: 1524, col: 5, offset: 49298},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1523, col: 5, offset: 49269},
+															pos: position{line: 1524, col: 5, offset: 49298},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1523, col: 5, offset: 49269},
+																	pos:   position{line: 1524, col: 5, offset: 49298},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1523, col: 14, offset: 49278},
+																		pos: position{line: 1524, col: 14, offset: 49307},
 																		expr: &actionExpr{
-																			pos: position{line: 1523, col: 15, offset: 49279},
+																			pos: position{line: 1524, col: 15, offset: 49308},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1523, col: 15, offset: 49279},
+																				pos: position{line: 1524, col: 15, offset: 49308},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1523, col: 15, offset: 49279},
+																					pos:        position{line: 1524, col: 15, offset: 49308},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29536,28 +29754,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2922, col: 8, offset: 91852},
+																	pos: position{line: 2923, col: 8, offset: 91881},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 12, offset: 91625},
+																			pos: position{line: 2910, col: 12, offset: 91654},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2909, col: 13, offset: 91626},
+																				pos: position{line: 2910, col: 13, offset: 91655},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 13, offset: 91626},
+																						pos:        position{line: 2910, col: 13, offset: 91655},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 20, offset: 91633},
+																						pos:        position{line: 2910, col: 20, offset: 91662},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 29, offset: 91642},
+																						pos:        position{line: 2910, col: 29, offset: 91671},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29566,9 +29784,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2919, col: 8, offset: 91802},
+																			pos: position{line: 2920, col: 8, offset: 91831},
 																			expr: &anyMatcher{
-																				line: 2919, col: 9, offset: 91803,
+																				line: 2920, col: 9, offset: 91832,
 																			},
 																		},
 																	},
@@ -29581,36 +29799,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1715, col: 5, offset: 55273},
+										pos: position{line: 1716, col: 5, offset: 55302},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1715, col: 5, offset: 55273},
+											pos: position{line: 1716, col: 5, offset: 55302},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1715, col: 5, offset: 55273},
+													pos:   position{line: 1716, col: 5, offset: 55302},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1721, col: 5, offset: 55470},
+														pos: position{line: 1722, col: 5, offset: 55499},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1721, col: 5, offset: 55470},
+															pos: position{line: 1722, col: 5, offset: 55499},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1721, col: 5, offset: 55470},
+																	pos:        position{line: 1722, col: 5, offset: 55499},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1721, col: 9, offset: 55474},
+																	pos:   position{line: 1722, col: 9, offset: 55503},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1721, col: 14, offset: 55479},
+																		pos: position{line: 1722, col: 14, offset: 55508},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1721, col: 14, offset: 55479},
+																			pos: position{line: 1722, col: 14, offset: 55508},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1721, col: 14, offset: 55479},
+																				pos:        position{line: 1722, col: 14, offset: 55508},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -29620,18 +29838,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1721, col: 62, offset: 55527},
+																	pos:        position{line: 1722, col: 62, offset: 55556},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2904, col: 11, offset: 91515},
+																	pos: position{line: 2905, col: 11, offset: 91544},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2904, col: 11, offset: 91515},
+																		pos: position{line: 2905, col: 11, offset: 91544},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2904, col: 11, offset: 91515},
+																			pos:        position{line: 2905, col: 11, offset: 91544},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29644,26 +29862,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1716, col: 5, offset: 55309},
+													pos:   position{line: 1717, col: 5, offset: 55338},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1523, col: 5, offset: 49269},
+														pos: position{line: 1524, col: 5, offset: 49298},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1523, col: 5, offset: 49269},
+															pos: position{line: 1524, col: 5, offset: 49298},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1523, col: 5, offset: 49269},
+																	pos:   position{line: 1524, col: 5, offset: 49298},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1523, col: 14, offset: 49278},
+																		pos: position{line: 1524, col: 14, offset: 49307},
 																		expr: &actionExpr{
-																			pos: position{line: 1523, col: 15, offset: 49279},
+																			pos: position{line: 1524, col: 15, offset: 49308},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1523, col: 15, offset: 49279},
+																				pos: position{line: 1524, col: 15, offset: 49308},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1523, col: 15, offset: 49279},
+																					pos:        position{line: 1524, col: 15, offset: 49308},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29674,28 +29892,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2922, col: 8, offset: 91852},
+																	pos: position{line: 2923, col: 8, offset: 91881},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 12, offset: 91625},
+																			pos: position{line: 2910, col: 12, offset: 91654},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2909, col: 13, offset: 91626},
+																				pos: position{line: 2910, col: 13, offset: 91655},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 13, offset: 91626},
+																						pos:        position{line: 2910, col: 13, offset: 91655},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 20, offset: 91633},
+																						pos:        position{line: 2910, col: 20, offset: 91662},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 29, offset: 91642},
+																						pos:        position{line: 2910, col: 29, offset: 91671},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29704,9 +29922,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2919, col: 8, offset: 91802},
+																			pos: position{line: 2920, col: 8, offset: 91831},
 																			expr: &anyMatcher{
-																				line: 2919, col: 9, offset: 91803,
+																				line: 2920, col: 9, offset: 91832,
 																			},
 																		},
 																	},
@@ -29719,40 +29937,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1659, col: 5, offset: 53626},
+										pos: position{line: 1660, col: 5, offset: 53655},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1659, col: 5, offset: 53626},
+											pos: position{line: 1660, col: 5, offset: 53655},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1659, col: 5, offset: 53626},
+													pos:   position{line: 1660, col: 5, offset: 53655},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1667, col: 5, offset: 53952},
+														pos: position{line: 1668, col: 5, offset: 53981},
 														run: (*parser).callonListContinuationElement150,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1667, col: 5, offset: 53952},
+															pos: position{line: 1668, col: 5, offset: 53981},
 															expr: &seqExpr{
-																pos: position{line: 1667, col: 6, offset: 53953},
+																pos: position{line: 1668, col: 6, offset: 53982},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1667, col: 6, offset: 53953},
+																		pos: position{line: 1668, col: 6, offset: 53982},
 																		expr: &actionExpr{
-																			pos: position{line: 1672, col: 5, offset: 54103},
+																			pos: position{line: 1673, col: 5, offset: 54132},
 																			run: (*parser).callonListContinuationElement154,
 																			expr: &seqExpr{
-																				pos: position{line: 1672, col: 5, offset: 54103},
+																				pos: position{line: 1673, col: 5, offset: 54132},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1672, col: 5, offset: 54103},
+																						pos:   position{line: 1673, col: 5, offset: 54132},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1672, col: 16, offset: 54114},
+																							pos: position{line: 1673, col: 16, offset: 54143},
 																							run: (*parser).callonListContinuationElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1672, col: 16, offset: 54114},
+																								pos: position{line: 1673, col: 16, offset: 54143},
 																								expr: &litMatcher{
-																									pos:        position{line: 1672, col: 17, offset: 54115},
+																									pos:        position{line: 1673, col: 17, offset: 54144},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -29761,7 +29979,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1675, col: 5, offset: 54172},
+																						pos: position{line: 1676, col: 5, offset: 54201},
 																						run: (*parser).callonListContinuationElement160,
 																					},
 																				},
@@ -29769,30 +29987,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1667, col: 35, offset: 53982},
+																		pos: position{line: 1668, col: 35, offset: 54011},
 																		expr: &choiceExpr{
-																			pos: position{line: 2922, col: 8, offset: 91852},
+																			pos: position{line: 2923, col: 8, offset: 91881},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2909, col: 12, offset: 91625},
+																					pos: position{line: 2910, col: 12, offset: 91654},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2909, col: 13, offset: 91626},
+																						pos: position{line: 2910, col: 13, offset: 91655},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 13, offset: 91626},
+																								pos:        position{line: 2910, col: 13, offset: 91655},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 20, offset: 91633},
+																								pos:        position{line: 2910, col: 20, offset: 91662},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 29, offset: 91642},
+																								pos:        position{line: 2910, col: 29, offset: 91671},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -29801,16 +30019,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1667, col: 40, offset: 53987,
+																		line: 1668, col: 40, offset: 54016,
 																	},
 																},
 															},
@@ -29818,24 +30036,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1660, col: 5, offset: 53661},
+													pos:   position{line: 1661, col: 5, offset: 53690},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1672, col: 5, offset: 54103},
+														pos: position{line: 1673, col: 5, offset: 54132},
 														run: (*parser).callonListContinuationElement172,
 														expr: &seqExpr{
-															pos: position{line: 1672, col: 5, offset: 54103},
+															pos: position{line: 1673, col: 5, offset: 54132},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1672, col: 5, offset: 54103},
+																	pos:   position{line: 1673, col: 5, offset: 54132},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1672, col: 16, offset: 54114},
+																		pos: position{line: 1673, col: 16, offset: 54143},
 																		run: (*parser).callonListContinuationElement175,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1672, col: 16, offset: 54114},
+																			pos: position{line: 1673, col: 16, offset: 54143},
 																			expr: &litMatcher{
-																				pos:        position{line: 1672, col: 17, offset: 54115},
+																				pos:        position{line: 1673, col: 17, offset: 54144},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -29844,7 +30062,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1675, col: 5, offset: 54172},
+																	pos: position{line: 1676, col: 5, offset: 54201},
 																	run: (*parser).callonListContinuationElement178,
 																},
 															},
@@ -29852,24 +30070,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1661, col: 5, offset: 53706},
+													pos:   position{line: 1662, col: 5, offset: 53735},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1683, col: 5, offset: 54421},
+														pos: position{line: 1684, col: 5, offset: 54450},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1685, col: 9, offset: 54487},
+																pos: position{line: 1686, col: 9, offset: 54516},
 																run: (*parser).callonListContinuationElement181,
 																expr: &seqExpr{
-																	pos: position{line: 1685, col: 9, offset: 54487},
+																	pos: position{line: 1686, col: 9, offset: 54516},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1685, col: 9, offset: 54487},
+																			pos: position{line: 1686, col: 9, offset: 54516},
 																			expr: &actionExpr{
-																				pos: position{line: 2900, col: 10, offset: 91454},
+																				pos: position{line: 2901, col: 10, offset: 91483},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2900, col: 10, offset: 91454},
+																					pos:        position{line: 2901, col: 10, offset: 91483},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -29878,28 +30096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2922, col: 8, offset: 91852},
+																			pos: position{line: 2923, col: 8, offset: 91881},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2909, col: 12, offset: 91625},
+																					pos: position{line: 2910, col: 12, offset: 91654},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2909, col: 13, offset: 91626},
+																						pos: position{line: 2910, col: 13, offset: 91655},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 13, offset: 91626},
+																								pos:        position{line: 2910, col: 13, offset: 91655},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 20, offset: 91633},
+																								pos:        position{line: 2910, col: 20, offset: 91662},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 29, offset: 91642},
+																								pos:        position{line: 2910, col: 29, offset: 91671},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -29908,34 +30126,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1686, col: 9, offset: 54506},
+																			pos: position{line: 1687, col: 9, offset: 54535},
 																			expr: &actionExpr{
-																				pos: position{line: 677, col: 14, offset: 21489},
+																				pos: position{line: 678, col: 14, offset: 21518},
 																				run: (*parser).callonListContinuationElement195,
 																				expr: &seqExpr{
-																					pos: position{line: 677, col: 14, offset: 21489},
+																					pos: position{line: 678, col: 14, offset: 21518},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2917, col: 11, offset: 91788},
+																							pos: position{line: 2918, col: 11, offset: 91817},
 																							expr: &anyMatcher{
-																								line: 2917, col: 13, offset: 91790,
+																								line: 2918, col: 13, offset: 91819,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 677, col: 21, offset: 21496},
+																							pos: position{line: 678, col: 21, offset: 21525},
 																							expr: &actionExpr{
-																								pos: position{line: 2900, col: 10, offset: 91454},
+																								pos: position{line: 2901, col: 10, offset: 91483},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 10, offset: 91454},
+																									pos:        position{line: 2901, col: 10, offset: 91483},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29944,28 +30162,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29974,9 +30192,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -29989,18 +30207,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1692, col: 9, offset: 54635},
+																pos: position{line: 1693, col: 9, offset: 54664},
 																run: (*parser).callonListContinuationElement210,
 																expr: &seqExpr{
-																	pos: position{line: 1692, col: 9, offset: 54635},
+																	pos: position{line: 1693, col: 9, offset: 54664},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2904, col: 11, offset: 91515},
+																			pos: position{line: 2905, col: 11, offset: 91544},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2904, col: 11, offset: 91515},
+																				pos: position{line: 2905, col: 11, offset: 91544},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2904, col: 11, offset: 91515},
+																					pos:        position{line: 2905, col: 11, offset: 91544},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30009,15 +30227,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1693, col: 9, offset: 54708},
+																			pos:   position{line: 1694, col: 9, offset: 54737},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1693, col: 18, offset: 54717},
+																				pos: position{line: 1694, col: 18, offset: 54746},
 																				run: (*parser).callonListContinuationElement216,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1693, col: 18, offset: 54717},
+																					pos: position{line: 1694, col: 18, offset: 54746},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1693, col: 18, offset: 54717},
+																						pos:        position{line: 1694, col: 18, offset: 54746},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30027,28 +30245,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2922, col: 8, offset: 91852},
+																			pos: position{line: 2923, col: 8, offset: 91881},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2909, col: 12, offset: 91625},
+																					pos: position{line: 2910, col: 12, offset: 91654},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2909, col: 13, offset: 91626},
+																						pos: position{line: 2910, col: 13, offset: 91655},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 13, offset: 91626},
+																								pos:        position{line: 2910, col: 13, offset: 91655},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 20, offset: 91633},
+																								pos:        position{line: 2910, col: 20, offset: 91662},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 29, offset: 91642},
+																								pos:        position{line: 2910, col: 29, offset: 91671},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30057,9 +30275,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
@@ -30077,41 +30295,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1546, col: 5, offset: 49888},
+							pos:   position{line: 1547, col: 5, offset: 49917},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1546, col: 16, offset: 49899},
+								pos: position{line: 1547, col: 16, offset: 49928},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1546, col: 17, offset: 49900},
+									pos:  position{line: 1547, col: 17, offset: 49929},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1547, col: 5, offset: 49922},
+							pos:   position{line: 1548, col: 5, offset: 49951},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1548, col: 9, offset: 49940},
+								pos: position{line: 1549, col: 9, offset: 49969},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 677, col: 14, offset: 21489},
+										pos: position{line: 678, col: 14, offset: 21518},
 										run: (*parser).callonListContinuationElement232,
 										expr: &seqExpr{
-											pos: position{line: 677, col: 14, offset: 21489},
+											pos: position{line: 678, col: 14, offset: 21518},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2917, col: 11, offset: 91788},
+													pos: position{line: 2918, col: 11, offset: 91817},
 													expr: &anyMatcher{
-														line: 2917, col: 13, offset: 91790,
+														line: 2918, col: 13, offset: 91819,
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 677, col: 21, offset: 21496},
+													pos: position{line: 678, col: 21, offset: 21525},
 													expr: &actionExpr{
-														pos: position{line: 2900, col: 10, offset: 91454},
+														pos: position{line: 2901, col: 10, offset: 91483},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2900, col: 10, offset: 91454},
+															pos:        position{line: 2901, col: 10, offset: 91483},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30120,28 +30338,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2922, col: 8, offset: 91852},
+													pos: position{line: 2923, col: 8, offset: 91881},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2909, col: 12, offset: 91625},
+															pos: position{line: 2910, col: 12, offset: 91654},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2909, col: 13, offset: 91626},
+																pos: position{line: 2910, col: 13, offset: 91655},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 13, offset: 91626},
+																		pos:        position{line: 2910, col: 13, offset: 91655},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 20, offset: 91633},
+																		pos:        position{line: 2910, col: 20, offset: 91662},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 29, offset: 91642},
+																		pos:        position{line: 2910, col: 29, offset: 91671},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30150,9 +30368,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2919, col: 8, offset: 91802},
+															pos: position{line: 2920, col: 8, offset: 91831},
 															expr: &anyMatcher{
-																line: 2919, col: 9, offset: 91803,
+																line: 2920, col: 9, offset: 91832,
 															},
 														},
 													},
@@ -30161,7 +30379,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1549, col: 11, offset: 49960},
+										pos:  position{line: 1550, col: 11, offset: 49989},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -30217,10 +30435,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2900, col: 10, offset: 91454},
+														pos: position{line: 2901, col: 10, offset: 91483},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2900, col: 10, offset: 91454},
+															pos:        position{line: 2901, col: 10, offset: 91483},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30229,28 +30447,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2922, col: 8, offset: 91852},
+													pos: position{line: 2923, col: 8, offset: 91881},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2909, col: 12, offset: 91625},
+															pos: position{line: 2910, col: 12, offset: 91654},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2909, col: 13, offset: 91626},
+																pos: position{line: 2910, col: 13, offset: 91655},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 13, offset: 91626},
+																		pos:        position{line: 2910, col: 13, offset: 91655},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 20, offset: 91633},
+																		pos:        position{line: 2910, col: 20, offset: 91662},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 29, offset: 91642},
+																		pos:        position{line: 2910, col: 29, offset: 91671},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30259,9 +30477,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2919, col: 8, offset: 91802},
+															pos: position{line: 2920, col: 8, offset: 91831},
 															expr: &anyMatcher{
-																line: 2919, col: 9, offset: 91803,
+																line: 2920, col: 9, offset: 91832,
 															},
 														},
 													},
@@ -30322,10 +30540,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2900, col: 10, offset: 91454},
+														pos: position{line: 2901, col: 10, offset: 91483},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2900, col: 10, offset: 91454},
+															pos:        position{line: 2901, col: 10, offset: 91483},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30334,28 +30552,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2922, col: 8, offset: 91852},
+													pos: position{line: 2923, col: 8, offset: 91881},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2909, col: 12, offset: 91625},
+															pos: position{line: 2910, col: 12, offset: 91654},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2909, col: 13, offset: 91626},
+																pos: position{line: 2910, col: 13, offset: 91655},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 13, offset: 91626},
+																		pos:        position{line: 2910, col: 13, offset: 91655},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 20, offset: 91633},
+																		pos:        position{line: 2910, col: 20, offset: 91662},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 29, offset: 91642},
+																		pos:        position{line: 2910, col: 29, offset: 91671},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30364,9 +30582,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2919, col: 8, offset: 91802},
+															pos: position{line: 2920, col: 8, offset: 91831},
 															expr: &anyMatcher{
-																line: 2919, col: 9, offset: 91803,
+																line: 2920, col: 9, offset: 91832,
 															},
 														},
 													},
@@ -30375,36 +30593,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26324},
+										pos: position{line: 821, col: 5, offset: 26353},
 										run: (*parser).callonListContinuationElement290,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26324},
+											pos: position{line: 821, col: 5, offset: 26353},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23584},
+													pos: position{line: 741, col: 5, offset: 23613},
 													run: (*parser).callonListContinuationElement292,
 													expr: &seqExpr{
-														pos: position{line: 740, col: 5, offset: 23584},
+														pos: position{line: 741, col: 5, offset: 23613},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23584},
+																pos:   position{line: 741, col: 5, offset: 23613},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23595},
+																	pos: position{line: 741, col: 16, offset: 23624},
 																	run: (*parser).callonListContinuationElement295,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 16, offset: 23595},
+																		pos: position{line: 741, col: 16, offset: 23624},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23595},
+																				pos:        position{line: 741, col: 16, offset: 23624},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23602},
+																				pos: position{line: 741, col: 23, offset: 23631},
 																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23602},
+																					pos:        position{line: 741, col: 23, offset: 23631},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -30415,12 +30633,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23686},
+																pos: position{line: 743, col: 8, offset: 23715},
 																expr: &actionExpr{
-																	pos: position{line: 2900, col: 10, offset: 91454},
+																	pos: position{line: 2901, col: 10, offset: 91483},
 																	run: (*parser).callonListContinuationElement301,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2900, col: 10, offset: 91454},
+																		pos:        position{line: 2901, col: 10, offset: 91483},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -30429,28 +30647,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2922, col: 8, offset: 91852},
+																pos: position{line: 2923, col: 8, offset: 91881},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2909, col: 12, offset: 91625},
+																		pos: position{line: 2910, col: 12, offset: 91654},
 																		run: (*parser).callonListContinuationElement304,
 																		expr: &choiceExpr{
-																			pos: position{line: 2909, col: 13, offset: 91626},
+																			pos: position{line: 2910, col: 13, offset: 91655},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 13, offset: 91626},
+																					pos:        position{line: 2910, col: 13, offset: 91655},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 20, offset: 91633},
+																					pos:        position{line: 2910, col: 20, offset: 91662},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 29, offset: 91642},
+																					pos:        position{line: 2910, col: 29, offset: 91671},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -30459,9 +30677,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2919, col: 8, offset: 91802},
+																		pos: position{line: 2920, col: 8, offset: 91831},
 																		expr: &anyMatcher{
-																			line: 2919, col: 9, offset: 91803,
+																			line: 2920, col: 9, offset: 91832,
 																		},
 																	},
 																},
@@ -30470,46 +30688,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26355},
+													pos:   position{line: 822, col: 5, offset: 26384},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26641},
+														pos: position{line: 832, col: 5, offset: 26670},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26642},
+															pos: position{line: 832, col: 6, offset: 26671},
 															run: (*parser).callonListContinuationElement313,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26642},
+																pos: position{line: 832, col: 6, offset: 26671},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26642},
+																		pos: position{line: 832, col: 6, offset: 26671},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26584},
+																			pos: position{line: 829, col: 29, offset: 26613},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
+																					pos: position{line: 741, col: 5, offset: 23613},
 																					run: (*parser).callonListContinuationElement317,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
+																						pos: position{line: 741, col: 5, offset: 23613},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23584},
+																								pos:   position{line: 741, col: 5, offset: 23613},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
+																									pos: position{line: 741, col: 16, offset: 23624},
 																									run: (*parser).callonListContinuationElement320,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
+																										pos: position{line: 741, col: 16, offset: 23624},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23595},
+																												pos:        position{line: 741, col: 16, offset: 23624},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23602},
+																												pos: position{line: 741, col: 23, offset: 23631},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23602},
+																													pos:        position{line: 741, col: 23, offset: 23631},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -30520,12 +30738,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23686},
+																								pos: position{line: 743, col: 8, offset: 23715},
 																								expr: &actionExpr{
-																									pos: position{line: 2900, col: 10, offset: 91454},
+																									pos: position{line: 2901, col: 10, offset: 91483},
 																									run: (*parser).callonListContinuationElement326,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2900, col: 10, offset: 91454},
+																										pos:        position{line: 2901, col: 10, offset: 91483},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -30534,28 +30752,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2922, col: 8, offset: 91852},
+																								pos: position{line: 2923, col: 8, offset: 91881},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2909, col: 12, offset: 91625},
+																										pos: position{line: 2910, col: 12, offset: 91654},
 																										run: (*parser).callonListContinuationElement329,
 																										expr: &choiceExpr{
-																											pos: position{line: 2909, col: 13, offset: 91626},
+																											pos: position{line: 2910, col: 13, offset: 91655},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 13, offset: 91626},
+																													pos:        position{line: 2910, col: 13, offset: 91655},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 20, offset: 91633},
+																													pos:        position{line: 2910, col: 20, offset: 91662},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 29, offset: 91642},
+																													pos:        position{line: 2910, col: 29, offset: 91671},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -30564,9 +30782,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2919, col: 8, offset: 91802},
+																										pos: position{line: 2920, col: 8, offset: 91831},
 																										expr: &anyMatcher{
-																											line: 2919, col: 9, offset: 91803,
+																											line: 2920, col: 9, offset: 91832,
 																										},
 																									},
 																								},
@@ -30575,39 +30793,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26672},
+																		pos:   position{line: 833, col: 5, offset: 26701},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 812, col: 5, offset: 26117},
 																			run: (*parser).callonListContinuationElement339,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 812, col: 5, offset: 26117},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2917, col: 11, offset: 91788},
+																						pos: position{line: 2918, col: 11, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2917, col: 13, offset: 91790,
+																							line: 2918, col: 13, offset: 91819,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 813, col: 5, offset: 26192},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2846, col: 13, offset: 89980},
+																							pos: position{line: 2847, col: 13, offset: 90009},
 																							run: (*parser).callonListContinuationElement344,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2846, col: 13, offset: 89980},
+																								pos: position{line: 2847, col: 13, offset: 90009},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2846, col: 13, offset: 89980},
+																									pos:        position{line: 2847, col: 13, offset: 90009},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -30617,28 +30835,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2922, col: 8, offset: 91852},
+																						pos: position{line: 2923, col: 8, offset: 91881},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2909, col: 12, offset: 91625},
+																								pos: position{line: 2910, col: 12, offset: 91654},
 																								run: (*parser).callonListContinuationElement348,
 																								expr: &choiceExpr{
-																									pos: position{line: 2909, col: 13, offset: 91626},
+																									pos: position{line: 2910, col: 13, offset: 91655},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 13, offset: 91626},
+																											pos:        position{line: 2910, col: 13, offset: 91655},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 20, offset: 91633},
+																											pos:        position{line: 2910, col: 20, offset: 91662},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 29, offset: 91642},
+																											pos:        position{line: 2910, col: 29, offset: 91671},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -30647,9 +30865,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2919, col: 8, offset: 91802},
+																								pos: position{line: 2920, col: 8, offset: 91831},
 																								expr: &anyMatcher{
-																									line: 2919, col: 9, offset: 91803,
+																									line: 2920, col: 9, offset: 91832,
 																								},
 																							},
 																						},
@@ -30664,35 +30882,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26389},
+													pos: position{line: 823, col: 5, offset: 26418},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26584},
+														pos: position{line: 829, col: 29, offset: 26613},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23584},
+																pos: position{line: 741, col: 5, offset: 23613},
 																run: (*parser).callonListContinuationElement357,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
+																	pos: position{line: 741, col: 5, offset: 23613},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23584},
+																			pos:   position{line: 741, col: 5, offset: 23613},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23595},
+																				pos: position{line: 741, col: 16, offset: 23624},
 																				run: (*parser).callonListContinuationElement360,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
+																					pos: position{line: 741, col: 16, offset: 23624},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23595},
+																							pos:        position{line: 741, col: 16, offset: 23624},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23602},
+																							pos: position{line: 741, col: 23, offset: 23631},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23602},
+																								pos:        position{line: 741, col: 23, offset: 23631},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -30703,12 +30921,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23686},
+																			pos: position{line: 743, col: 8, offset: 23715},
 																			expr: &actionExpr{
-																				pos: position{line: 2900, col: 10, offset: 91454},
+																				pos: position{line: 2901, col: 10, offset: 91483},
 																				run: (*parser).callonListContinuationElement366,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2900, col: 10, offset: 91454},
+																					pos:        position{line: 2901, col: 10, offset: 91483},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30717,28 +30935,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2922, col: 8, offset: 91852},
+																			pos: position{line: 2923, col: 8, offset: 91881},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2909, col: 12, offset: 91625},
+																					pos: position{line: 2910, col: 12, offset: 91654},
 																					run: (*parser).callonListContinuationElement369,
 																					expr: &choiceExpr{
-																						pos: position{line: 2909, col: 13, offset: 91626},
+																						pos: position{line: 2910, col: 13, offset: 91655},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 13, offset: 91626},
+																								pos:        position{line: 2910, col: 13, offset: 91655},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 20, offset: 91633},
+																								pos:        position{line: 2910, col: 20, offset: 91662},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 29, offset: 91642},
+																								pos:        position{line: 2910, col: 29, offset: 91671},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30747,9 +30965,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
@@ -30758,9 +30976,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2919, col: 8, offset: 91802},
+																pos: position{line: 2920, col: 8, offset: 91831},
 																expr: &anyMatcher{
-																	line: 2919, col: 9, offset: 91803,
+																	line: 2920, col: 9, offset: 91832,
 																},
 															},
 														},
@@ -30770,39 +30988,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 840, col: 5, offset: 26825},
+										pos: position{line: 841, col: 5, offset: 26854},
 										run: (*parser).callonListContinuationElement378,
 										expr: &seqExpr{
-											pos: position{line: 840, col: 5, offset: 26825},
+											pos: position{line: 841, col: 5, offset: 26854},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 840, col: 5, offset: 26825},
+													pos:   position{line: 841, col: 5, offset: 26854},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 747, col: 5, offset: 23832},
+														pos: position{line: 748, col: 5, offset: 23861},
 														run: (*parser).callonListContinuationElement381,
 														expr: &seqExpr{
-															pos: position{line: 747, col: 5, offset: 23832},
+															pos: position{line: 748, col: 5, offset: 23861},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 747, col: 5, offset: 23832},
+																	pos:   position{line: 748, col: 5, offset: 23861},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 747, col: 16, offset: 23843},
+																		pos: position{line: 748, col: 16, offset: 23872},
 																		run: (*parser).callonListContinuationElement384,
 																		expr: &seqExpr{
-																			pos: position{line: 747, col: 16, offset: 23843},
+																			pos: position{line: 748, col: 16, offset: 23872},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 747, col: 16, offset: 23843},
+																					pos:        position{line: 748, col: 16, offset: 23872},
 																					val:        "====",
 																					ignoreCase: false,
 																					want:       "\"====\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 747, col: 23, offset: 23850},
+																					pos: position{line: 748, col: 23, offset: 23879},
 																					expr: &litMatcher{
-																						pos:        position{line: 747, col: 23, offset: 23850},
+																						pos:        position{line: 748, col: 23, offset: 23879},
 																						val:        "=",
 																						ignoreCase: false,
 																						want:       "\"=\"",
@@ -30813,12 +31031,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 749, col: 8, offset: 23934},
+																	pos: position{line: 750, col: 8, offset: 23963},
 																	expr: &actionExpr{
-																		pos: position{line: 2900, col: 10, offset: 91454},
+																		pos: position{line: 2901, col: 10, offset: 91483},
 																		run: (*parser).callonListContinuationElement390,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 10, offset: 91454},
+																			pos:        position{line: 2901, col: 10, offset: 91483},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30827,28 +31045,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2922, col: 8, offset: 91852},
+																	pos: position{line: 2923, col: 8, offset: 91881},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 12, offset: 91625},
+																			pos: position{line: 2910, col: 12, offset: 91654},
 																			run: (*parser).callonListContinuationElement393,
 																			expr: &choiceExpr{
-																				pos: position{line: 2909, col: 13, offset: 91626},
+																				pos: position{line: 2910, col: 13, offset: 91655},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 13, offset: 91626},
+																						pos:        position{line: 2910, col: 13, offset: 91655},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 20, offset: 91633},
+																						pos:        position{line: 2910, col: 20, offset: 91662},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 29, offset: 91642},
+																						pos:        position{line: 2910, col: 29, offset: 91671},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30857,9 +31075,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2919, col: 8, offset: 91802},
+																			pos: position{line: 2920, col: 8, offset: 91831},
 																			expr: &anyMatcher{
-																				line: 2919, col: 9, offset: 91803,
+																				line: 2920, col: 9, offset: 91832,
 																			},
 																		},
 																	},
@@ -30869,56 +31087,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 841, col: 5, offset: 26864},
+													pos: position{line: 842, col: 5, offset: 26893},
 													run: (*parser).callonListContinuationElement400,
 												},
 												&labeledExpr{
-													pos:   position{line: 844, col: 5, offset: 26956},
+													pos:   position{line: 845, col: 5, offset: 26985},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 859, col: 4, offset: 27353},
+														pos: position{line: 860, col: 4, offset: 27382},
 														expr: &actionExpr{
-															pos: position{line: 859, col: 5, offset: 27354},
+															pos: position{line: 860, col: 5, offset: 27383},
 															run: (*parser).callonListContinuationElement403,
 															expr: &seqExpr{
-																pos: position{line: 859, col: 5, offset: 27354},
+																pos: position{line: 860, col: 5, offset: 27383},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 859, col: 5, offset: 27354},
+																		pos: position{line: 860, col: 5, offset: 27383},
 																		expr: &choiceExpr{
-																			pos: position{line: 852, col: 5, offset: 27196},
+																			pos: position{line: 853, col: 5, offset: 27225},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 852, col: 5, offset: 27196},
+																					pos: position{line: 853, col: 5, offset: 27225},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 852, col: 5, offset: 27196},
+																							pos:   position{line: 853, col: 5, offset: 27225},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 5, offset: 23832},
+																								pos: position{line: 748, col: 5, offset: 23861},
 																								run: (*parser).callonListContinuationElement409,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 5, offset: 23832},
+																									pos: position{line: 748, col: 5, offset: 23861},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 747, col: 5, offset: 23832},
+																											pos:   position{line: 748, col: 5, offset: 23861},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 747, col: 16, offset: 23843},
+																												pos: position{line: 748, col: 16, offset: 23872},
 																												run: (*parser).callonListContinuationElement412,
 																												expr: &seqExpr{
-																													pos: position{line: 747, col: 16, offset: 23843},
+																													pos: position{line: 748, col: 16, offset: 23872},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 747, col: 16, offset: 23843},
+																															pos:        position{line: 748, col: 16, offset: 23872},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 747, col: 23, offset: 23850},
+																															pos: position{line: 748, col: 23, offset: 23879},
 																															expr: &litMatcher{
-																																pos:        position{line: 747, col: 23, offset: 23850},
+																																pos:        position{line: 748, col: 23, offset: 23879},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -30929,12 +31147,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 749, col: 8, offset: 23934},
+																											pos: position{line: 750, col: 8, offset: 23963},
 																											expr: &actionExpr{
-																												pos: position{line: 2900, col: 10, offset: 91454},
+																												pos: position{line: 2901, col: 10, offset: 91483},
 																												run: (*parser).callonListContinuationElement418,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2900, col: 10, offset: 91454},
+																													pos:        position{line: 2901, col: 10, offset: 91483},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -30943,28 +31161,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2922, col: 8, offset: 91852},
+																											pos: position{line: 2923, col: 8, offset: 91881},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2909, col: 12, offset: 91625},
+																													pos: position{line: 2910, col: 12, offset: 91654},
 																													run: (*parser).callonListContinuationElement421,
 																													expr: &choiceExpr{
-																														pos: position{line: 2909, col: 13, offset: 91626},
+																														pos: position{line: 2910, col: 13, offset: 91655},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 13, offset: 91626},
+																																pos:        position{line: 2910, col: 13, offset: 91655},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 20, offset: 91633},
+																																pos:        position{line: 2910, col: 20, offset: 91662},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 29, offset: 91642},
+																																pos:        position{line: 2910, col: 29, offset: 91671},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -30973,9 +31191,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2919, col: 8, offset: 91802},
+																													pos: position{line: 2920, col: 8, offset: 91831},
 																													expr: &anyMatcher{
-																														line: 2919, col: 9, offset: 91803,
+																														line: 2920, col: 9, offset: 91832,
 																													},
 																												},
 																											},
@@ -30985,45 +31203,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 853, col: 5, offset: 27227},
+																							pos: position{line: 854, col: 5, offset: 27256},
 																							run: (*parser).callonListContinuationElement428,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 860, col: 5, offset: 27384},
+																		pos:   position{line: 861, col: 5, offset: 27413},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 812, col: 5, offset: 26117},
 																			run: (*parser).callonListContinuationElement432,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 812, col: 5, offset: 26117},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2917, col: 11, offset: 91788},
+																						pos: position{line: 2918, col: 11, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2917, col: 13, offset: 91790,
+																							line: 2918, col: 13, offset: 91819,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 813, col: 5, offset: 26192},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2846, col: 13, offset: 89980},
+																							pos: position{line: 2847, col: 13, offset: 90009},
 																							run: (*parser).callonListContinuationElement437,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2846, col: 13, offset: 89980},
+																								pos: position{line: 2847, col: 13, offset: 90009},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2846, col: 13, offset: 89980},
+																									pos:        position{line: 2847, col: 13, offset: 90009},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31033,28 +31251,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2922, col: 8, offset: 91852},
+																						pos: position{line: 2923, col: 8, offset: 91881},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2909, col: 12, offset: 91625},
+																								pos: position{line: 2910, col: 12, offset: 91654},
 																								run: (*parser).callonListContinuationElement441,
 																								expr: &choiceExpr{
-																									pos: position{line: 2909, col: 13, offset: 91626},
+																									pos: position{line: 2910, col: 13, offset: 91655},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 13, offset: 91626},
+																											pos:        position{line: 2910, col: 13, offset: 91655},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 20, offset: 91633},
+																											pos:        position{line: 2910, col: 20, offset: 91662},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 29, offset: 91642},
+																											pos:        position{line: 2910, col: 29, offset: 91671},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31063,9 +31281,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2919, col: 8, offset: 91802},
+																								pos: position{line: 2920, col: 8, offset: 91831},
 																								expr: &anyMatcher{
-																									line: 2919, col: 9, offset: 91803,
+																									line: 2920, col: 9, offset: 91832,
 																								},
 																							},
 																						},
@@ -31080,44 +31298,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 845, col: 5, offset: 26990},
+													pos:   position{line: 846, col: 5, offset: 27019},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 845, col: 9, offset: 26994},
+														pos: position{line: 846, col: 9, offset: 27023},
 														expr: &choiceExpr{
-															pos: position{line: 852, col: 5, offset: 27196},
+															pos: position{line: 853, col: 5, offset: 27225},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 852, col: 5, offset: 27196},
+																	pos: position{line: 853, col: 5, offset: 27225},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 852, col: 5, offset: 27196},
+																			pos:   position{line: 853, col: 5, offset: 27225},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 747, col: 5, offset: 23832},
+																				pos: position{line: 748, col: 5, offset: 23861},
 																				run: (*parser).callonListContinuationElement453,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 5, offset: 23832},
+																					pos: position{line: 748, col: 5, offset: 23861},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 747, col: 5, offset: 23832},
+																							pos:   position{line: 748, col: 5, offset: 23861},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 16, offset: 23843},
+																								pos: position{line: 748, col: 16, offset: 23872},
 																								run: (*parser).callonListContinuationElement456,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 16, offset: 23843},
+																									pos: position{line: 748, col: 16, offset: 23872},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 747, col: 16, offset: 23843},
+																											pos:        position{line: 748, col: 16, offset: 23872},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 747, col: 23, offset: 23850},
+																											pos: position{line: 748, col: 23, offset: 23879},
 																											expr: &litMatcher{
-																												pos:        position{line: 747, col: 23, offset: 23850},
+																												pos:        position{line: 748, col: 23, offset: 23879},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -31128,12 +31346,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 749, col: 8, offset: 23934},
+																							pos: position{line: 750, col: 8, offset: 23963},
 																							expr: &actionExpr{
-																								pos: position{line: 2900, col: 10, offset: 91454},
+																								pos: position{line: 2901, col: 10, offset: 91483},
 																								run: (*parser).callonListContinuationElement462,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 10, offset: 91454},
+																									pos:        position{line: 2901, col: 10, offset: 91483},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31142,28 +31360,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonListContinuationElement465,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31172,9 +31390,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -31184,15 +31402,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 853, col: 5, offset: 27227},
+																			pos: position{line: 854, col: 5, offset: 27256},
 																			run: (*parser).callonListContinuationElement472,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2919, col: 8, offset: 91802},
+																	pos: position{line: 2920, col: 8, offset: 91831},
 																	expr: &anyMatcher{
-																		line: 2919, col: 9, offset: 91803,
+																		line: 2920, col: 9, offset: 91832,
 																	},
 																},
 															},
@@ -31203,36 +31421,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 952, col: 5, offset: 29676},
+										pos: position{line: 953, col: 5, offset: 29705},
 										run: (*parser).callonListContinuationElement475,
 										expr: &seqExpr{
-											pos: position{line: 952, col: 5, offset: 29676},
+											pos: position{line: 953, col: 5, offset: 29705},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 952, col: 5, offset: 29676},
+													pos:   position{line: 953, col: 5, offset: 29705},
 													label: "delimiter",
 													expr: &actionExpr{
-														pos: position{line: 760, col: 26, offset: 24320},
+														pos: position{line: 761, col: 26, offset: 24349},
 														run: (*parser).callonListContinuationElement478,
 														expr: &seqExpr{
-															pos: position{line: 760, col: 26, offset: 24320},
+															pos: position{line: 761, col: 26, offset: 24349},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 760, col: 26, offset: 24320},
+																	pos:        position{line: 761, col: 26, offset: 24349},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 760, col: 32, offset: 24326},
+																	pos:   position{line: 761, col: 32, offset: 24355},
 																	label: "language",
 																	expr: &actionExpr{
-																		pos: position{line: 764, col: 13, offset: 24456},
+																		pos: position{line: 765, col: 13, offset: 24485},
 																		run: (*parser).callonListContinuationElement482,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 764, col: 14, offset: 24457},
+																			pos: position{line: 765, col: 14, offset: 24486},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 764, col: 14, offset: 24457},
+																				pos:        position{line: 765, col: 14, offset: 24486},
 																				val:        "[^\\r\\n` ]",
 																				chars:      []rune{'\r', '\n', '`', ' '},
 																				ignoreCase: false,
@@ -31242,12 +31460,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 760, col: 52, offset: 24346},
+																	pos: position{line: 761, col: 52, offset: 24375},
 																	expr: &actionExpr{
-																		pos: position{line: 2900, col: 10, offset: 91454},
+																		pos: position{line: 2901, col: 10, offset: 91483},
 																		run: (*parser).callonListContinuationElement486,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 10, offset: 91454},
+																			pos:        position{line: 2901, col: 10, offset: 91483},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31256,28 +31474,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2922, col: 8, offset: 91852},
+																	pos: position{line: 2923, col: 8, offset: 91881},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 12, offset: 91625},
+																			pos: position{line: 2910, col: 12, offset: 91654},
 																			run: (*parser).callonListContinuationElement489,
 																			expr: &choiceExpr{
-																				pos: position{line: 2909, col: 13, offset: 91626},
+																				pos: position{line: 2910, col: 13, offset: 91655},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 13, offset: 91626},
+																						pos:        position{line: 2910, col: 13, offset: 91655},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 20, offset: 91633},
+																						pos:        position{line: 2910, col: 20, offset: 91662},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 29, offset: 91642},
+																						pos:        position{line: 2910, col: 29, offset: 91671},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31286,9 +31504,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2919, col: 8, offset: 91802},
+																			pos: position{line: 2920, col: 8, offset: 91831},
 																			expr: &anyMatcher{
-																				line: 2919, col: 9, offset: 91803,
+																				line: 2920, col: 9, offset: 91832,
 																			},
 																		},
 																	},
@@ -31298,34 +31516,34 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 953, col: 5, offset: 29722},
+													pos:   position{line: 954, col: 5, offset: 29751},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 966, col: 5, offset: 30195},
+														pos: position{line: 967, col: 5, offset: 30224},
 														expr: &actionExpr{
-															pos: position{line: 966, col: 6, offset: 30196},
+															pos: position{line: 967, col: 6, offset: 30225},
 															run: (*parser).callonListContinuationElement498,
 															expr: &seqExpr{
-																pos: position{line: 966, col: 6, offset: 30196},
+																pos: position{line: 967, col: 6, offset: 30225},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 966, col: 6, offset: 30196},
+																		pos: position{line: 967, col: 6, offset: 30225},
 																		expr: &seqExpr{
-																			pos: position{line: 963, col: 34, offset: 30143},
+																			pos: position{line: 964, col: 34, offset: 30172},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 963, col: 34, offset: 30143},
+																					pos:        position{line: 964, col: 34, offset: 30172},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 963, col: 40, offset: 30149},
+																					pos: position{line: 964, col: 40, offset: 30178},
 																					expr: &actionExpr{
-																						pos: position{line: 2900, col: 10, offset: 91454},
+																						pos: position{line: 2901, col: 10, offset: 91483},
 																						run: (*parser).callonListContinuationElement504,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2900, col: 10, offset: 91454},
+																							pos:        position{line: 2901, col: 10, offset: 91483},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -31334,28 +31552,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2922, col: 8, offset: 91852},
+																					pos: position{line: 2923, col: 8, offset: 91881},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2909, col: 12, offset: 91625},
+																							pos: position{line: 2910, col: 12, offset: 91654},
 																							run: (*parser).callonListContinuationElement507,
 																							expr: &choiceExpr{
-																								pos: position{line: 2909, col: 13, offset: 91626},
+																								pos: position{line: 2910, col: 13, offset: 91655},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 13, offset: 91626},
+																										pos:        position{line: 2910, col: 13, offset: 91655},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 20, offset: 91633},
+																										pos:        position{line: 2910, col: 20, offset: 91662},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 29, offset: 91642},
+																										pos:        position{line: 2910, col: 29, offset: 91671},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31364,9 +31582,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2919, col: 8, offset: 91802},
+																							pos: position{line: 2920, col: 8, offset: 91831},
 																							expr: &anyMatcher{
-																								line: 2919, col: 9, offset: 91803,
+																								line: 2920, col: 9, offset: 91832,
 																							},
 																						},
 																					},
@@ -31375,30 +31593,30 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 967, col: 5, offset: 30231},
+																		pos:   position{line: 968, col: 5, offset: 30260},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 812, col: 5, offset: 26117},
 																			run: (*parser).callonListContinuationElement515,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 812, col: 5, offset: 26117},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2917, col: 11, offset: 91788},
+																						pos: position{line: 2918, col: 11, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2917, col: 13, offset: 91790,
+																							line: 2918, col: 13, offset: 91819,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 813, col: 5, offset: 26192},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2846, col: 13, offset: 89980},
+																							pos: position{line: 2847, col: 13, offset: 90009},
 																							run: (*parser).callonListContinuationElement520,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2846, col: 13, offset: 89980},
+																								pos: position{line: 2847, col: 13, offset: 90009},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2846, col: 13, offset: 89980},
+																									pos:        position{line: 2847, col: 13, offset: 90009},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31408,28 +31626,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2922, col: 8, offset: 91852},
+																						pos: position{line: 2923, col: 8, offset: 91881},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2909, col: 12, offset: 91625},
+																								pos: position{line: 2910, col: 12, offset: 91654},
 																								run: (*parser).callonListContinuationElement524,
 																								expr: &choiceExpr{
-																									pos: position{line: 2909, col: 13, offset: 91626},
+																									pos: position{line: 2910, col: 13, offset: 91655},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 13, offset: 91626},
+																											pos:        position{line: 2910, col: 13, offset: 91655},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 20, offset: 91633},
+																											pos:        position{line: 2910, col: 20, offset: 91662},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 29, offset: 91642},
+																											pos:        position{line: 2910, col: 29, offset: 91671},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31438,9 +31656,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2919, col: 8, offset: 91802},
+																								pos: position{line: 2920, col: 8, offset: 91831},
 																								expr: &anyMatcher{
-																									line: 2919, col: 9, offset: 91803,
+																									line: 2920, col: 9, offset: 91832,
 																								},
 																							},
 																						},
@@ -31455,23 +31673,23 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 954, col: 5, offset: 29761},
+													pos: position{line: 955, col: 5, offset: 29790},
 													expr: &seqExpr{
-														pos: position{line: 963, col: 34, offset: 30143},
+														pos: position{line: 964, col: 34, offset: 30172},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 963, col: 34, offset: 30143},
+																pos:        position{line: 964, col: 34, offset: 30172},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 963, col: 40, offset: 30149},
+																pos: position{line: 964, col: 40, offset: 30178},
 																expr: &actionExpr{
-																	pos: position{line: 2900, col: 10, offset: 91454},
+																	pos: position{line: 2901, col: 10, offset: 91483},
 																	run: (*parser).callonListContinuationElement535,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2900, col: 10, offset: 91454},
+																		pos:        position{line: 2901, col: 10, offset: 91483},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31480,28 +31698,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2922, col: 8, offset: 91852},
+																pos: position{line: 2923, col: 8, offset: 91881},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2909, col: 12, offset: 91625},
+																		pos: position{line: 2910, col: 12, offset: 91654},
 																		run: (*parser).callonListContinuationElement538,
 																		expr: &choiceExpr{
-																			pos: position{line: 2909, col: 13, offset: 91626},
+																			pos: position{line: 2910, col: 13, offset: 91655},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 13, offset: 91626},
+																					pos:        position{line: 2910, col: 13, offset: 91655},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 20, offset: 91633},
+																					pos:        position{line: 2910, col: 20, offset: 91662},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 29, offset: 91642},
+																					pos:        position{line: 2910, col: 29, offset: 91671},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31510,9 +31728,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2919, col: 8, offset: 91802},
+																		pos: position{line: 2920, col: 8, offset: 91831},
 																		expr: &anyMatcher{
-																			line: 2919, col: 9, offset: 91803,
+																			line: 2920, col: 9, offset: 91832,
 																		},
 																	},
 																},
@@ -31524,39 +31742,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 868, col: 5, offset: 27537},
+										pos: position{line: 869, col: 5, offset: 27566},
 										run: (*parser).callonListContinuationElement545,
 										expr: &seqExpr{
-											pos: position{line: 868, col: 5, offset: 27537},
+											pos: position{line: 869, col: 5, offset: 27566},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 868, col: 5, offset: 27537},
+													pos:   position{line: 869, col: 5, offset: 27566},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 754, col: 5, offset: 24079},
+														pos: position{line: 755, col: 5, offset: 24108},
 														run: (*parser).callonListContinuationElement548,
 														expr: &seqExpr{
-															pos: position{line: 754, col: 5, offset: 24079},
+															pos: position{line: 755, col: 5, offset: 24108},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 754, col: 5, offset: 24079},
+																	pos:   position{line: 755, col: 5, offset: 24108},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 754, col: 16, offset: 24090},
+																		pos: position{line: 755, col: 16, offset: 24119},
 																		run: (*parser).callonListContinuationElement551,
 																		expr: &seqExpr{
-																			pos: position{line: 754, col: 16, offset: 24090},
+																			pos: position{line: 755, col: 16, offset: 24119},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 754, col: 16, offset: 24090},
+																					pos:        position{line: 755, col: 16, offset: 24119},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 754, col: 22, offset: 24096},
+																					pos: position{line: 755, col: 22, offset: 24125},
 																					expr: &litMatcher{
-																						pos:        position{line: 754, col: 22, offset: 24096},
+																						pos:        position{line: 755, col: 22, offset: 24125},
 																						val:        "`",
 																						ignoreCase: false,
 																						want:       "\"`\"",
@@ -31567,12 +31785,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 756, col: 8, offset: 24180},
+																	pos: position{line: 757, col: 8, offset: 24209},
 																	expr: &actionExpr{
-																		pos: position{line: 2900, col: 10, offset: 91454},
+																		pos: position{line: 2901, col: 10, offset: 91483},
 																		run: (*parser).callonListContinuationElement557,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 10, offset: 91454},
+																			pos:        position{line: 2901, col: 10, offset: 91483},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31581,28 +31799,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2922, col: 8, offset: 91852},
+																	pos: position{line: 2923, col: 8, offset: 91881},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 12, offset: 91625},
+																			pos: position{line: 2910, col: 12, offset: 91654},
 																			run: (*parser).callonListContinuationElement560,
 																			expr: &choiceExpr{
-																				pos: position{line: 2909, col: 13, offset: 91626},
+																				pos: position{line: 2910, col: 13, offset: 91655},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 13, offset: 91626},
+																						pos:        position{line: 2910, col: 13, offset: 91655},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 20, offset: 91633},
+																						pos:        position{line: 2910, col: 20, offset: 91662},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 29, offset: 91642},
+																						pos:        position{line: 2910, col: 29, offset: 91671},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31611,9 +31829,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2919, col: 8, offset: 91802},
+																			pos: position{line: 2920, col: 8, offset: 91831},
 																			expr: &anyMatcher{
-																				line: 2919, col: 9, offset: 91803,
+																				line: 2920, col: 9, offset: 91832,
 																			},
 																		},
 																	},
@@ -31623,56 +31841,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 869, col: 5, offset: 27575},
+													pos: position{line: 870, col: 5, offset: 27604},
 													run: (*parser).callonListContinuationElement567,
 												},
 												&labeledExpr{
-													pos:   position{line: 872, col: 5, offset: 27667},
+													pos:   position{line: 873, col: 5, offset: 27696},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 887, col: 5, offset: 28057},
+														pos: position{line: 888, col: 5, offset: 28086},
 														expr: &actionExpr{
-															pos: position{line: 887, col: 6, offset: 28058},
+															pos: position{line: 888, col: 6, offset: 28087},
 															run: (*parser).callonListContinuationElement570,
 															expr: &seqExpr{
-																pos: position{line: 887, col: 6, offset: 28058},
+																pos: position{line: 888, col: 6, offset: 28087},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 887, col: 6, offset: 28058},
+																		pos: position{line: 888, col: 6, offset: 28087},
 																		expr: &choiceExpr{
-																			pos: position{line: 880, col: 5, offset: 27901},
+																			pos: position{line: 881, col: 5, offset: 27930},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 880, col: 5, offset: 27901},
+																					pos: position{line: 881, col: 5, offset: 27930},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 880, col: 5, offset: 27901},
+																							pos:   position{line: 881, col: 5, offset: 27930},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 5, offset: 24079},
+																								pos: position{line: 755, col: 5, offset: 24108},
 																								run: (*parser).callonListContinuationElement576,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 5, offset: 24079},
+																									pos: position{line: 755, col: 5, offset: 24108},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 754, col: 5, offset: 24079},
+																											pos:   position{line: 755, col: 5, offset: 24108},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 754, col: 16, offset: 24090},
+																												pos: position{line: 755, col: 16, offset: 24119},
 																												run: (*parser).callonListContinuationElement579,
 																												expr: &seqExpr{
-																													pos: position{line: 754, col: 16, offset: 24090},
+																													pos: position{line: 755, col: 16, offset: 24119},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 754, col: 16, offset: 24090},
+																															pos:        position{line: 755, col: 16, offset: 24119},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 754, col: 22, offset: 24096},
+																															pos: position{line: 755, col: 22, offset: 24125},
 																															expr: &litMatcher{
-																																pos:        position{line: 754, col: 22, offset: 24096},
+																																pos:        position{line: 755, col: 22, offset: 24125},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -31683,12 +31901,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 756, col: 8, offset: 24180},
+																											pos: position{line: 757, col: 8, offset: 24209},
 																											expr: &actionExpr{
-																												pos: position{line: 2900, col: 10, offset: 91454},
+																												pos: position{line: 2901, col: 10, offset: 91483},
 																												run: (*parser).callonListContinuationElement585,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2900, col: 10, offset: 91454},
+																													pos:        position{line: 2901, col: 10, offset: 91483},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31697,28 +31915,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2922, col: 8, offset: 91852},
+																											pos: position{line: 2923, col: 8, offset: 91881},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2909, col: 12, offset: 91625},
+																													pos: position{line: 2910, col: 12, offset: 91654},
 																													run: (*parser).callonListContinuationElement588,
 																													expr: &choiceExpr{
-																														pos: position{line: 2909, col: 13, offset: 91626},
+																														pos: position{line: 2910, col: 13, offset: 91655},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 13, offset: 91626},
+																																pos:        position{line: 2910, col: 13, offset: 91655},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 20, offset: 91633},
+																																pos:        position{line: 2910, col: 20, offset: 91662},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 29, offset: 91642},
+																																pos:        position{line: 2910, col: 29, offset: 91671},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31727,9 +31945,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2919, col: 8, offset: 91802},
+																													pos: position{line: 2920, col: 8, offset: 91831},
 																													expr: &anyMatcher{
-																														line: 2919, col: 9, offset: 91803,
+																														line: 2920, col: 9, offset: 91832,
 																													},
 																												},
 																											},
@@ -31739,45 +31957,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 881, col: 5, offset: 27931},
+																							pos: position{line: 882, col: 5, offset: 27960},
 																							run: (*parser).callonListContinuationElement595,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 888, col: 5, offset: 28087},
+																		pos:   position{line: 889, col: 5, offset: 28116},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 812, col: 5, offset: 26117},
 																			run: (*parser).callonListContinuationElement599,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 812, col: 5, offset: 26117},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2917, col: 11, offset: 91788},
+																						pos: position{line: 2918, col: 11, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2917, col: 13, offset: 91790,
+																							line: 2918, col: 13, offset: 91819,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 813, col: 5, offset: 26192},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2846, col: 13, offset: 89980},
+																							pos: position{line: 2847, col: 13, offset: 90009},
 																							run: (*parser).callonListContinuationElement604,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2846, col: 13, offset: 89980},
+																								pos: position{line: 2847, col: 13, offset: 90009},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2846, col: 13, offset: 89980},
+																									pos:        position{line: 2847, col: 13, offset: 90009},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31787,28 +32005,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2922, col: 8, offset: 91852},
+																						pos: position{line: 2923, col: 8, offset: 91881},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2909, col: 12, offset: 91625},
+																								pos: position{line: 2910, col: 12, offset: 91654},
 																								run: (*parser).callonListContinuationElement608,
 																								expr: &choiceExpr{
-																									pos: position{line: 2909, col: 13, offset: 91626},
+																									pos: position{line: 2910, col: 13, offset: 91655},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 13, offset: 91626},
+																											pos:        position{line: 2910, col: 13, offset: 91655},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 20, offset: 91633},
+																											pos:        position{line: 2910, col: 20, offset: 91662},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 29, offset: 91642},
+																											pos:        position{line: 2910, col: 29, offset: 91671},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31817,9 +32035,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2919, col: 8, offset: 91802},
+																								pos: position{line: 2920, col: 8, offset: 91831},
 																								expr: &anyMatcher{
-																									line: 2919, col: 9, offset: 91803,
+																									line: 2920, col: 9, offset: 91832,
 																								},
 																							},
 																						},
@@ -31834,44 +32052,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 873, col: 5, offset: 27700},
+													pos:   position{line: 874, col: 5, offset: 27729},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 873, col: 9, offset: 27704},
+														pos: position{line: 874, col: 9, offset: 27733},
 														expr: &choiceExpr{
-															pos: position{line: 880, col: 5, offset: 27901},
+															pos: position{line: 881, col: 5, offset: 27930},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 880, col: 5, offset: 27901},
+																	pos: position{line: 881, col: 5, offset: 27930},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 880, col: 5, offset: 27901},
+																			pos:   position{line: 881, col: 5, offset: 27930},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 754, col: 5, offset: 24079},
+																				pos: position{line: 755, col: 5, offset: 24108},
 																				run: (*parser).callonListContinuationElement620,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 5, offset: 24079},
+																					pos: position{line: 755, col: 5, offset: 24108},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 754, col: 5, offset: 24079},
+																							pos:   position{line: 755, col: 5, offset: 24108},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 16, offset: 24090},
+																								pos: position{line: 755, col: 16, offset: 24119},
 																								run: (*parser).callonListContinuationElement623,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 16, offset: 24090},
+																									pos: position{line: 755, col: 16, offset: 24119},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 754, col: 16, offset: 24090},
+																											pos:        position{line: 755, col: 16, offset: 24119},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 754, col: 22, offset: 24096},
+																											pos: position{line: 755, col: 22, offset: 24125},
 																											expr: &litMatcher{
-																												pos:        position{line: 754, col: 22, offset: 24096},
+																												pos:        position{line: 755, col: 22, offset: 24125},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -31882,12 +32100,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 756, col: 8, offset: 24180},
+																							pos: position{line: 757, col: 8, offset: 24209},
 																							expr: &actionExpr{
-																								pos: position{line: 2900, col: 10, offset: 91454},
+																								pos: position{line: 2901, col: 10, offset: 91483},
 																								run: (*parser).callonListContinuationElement629,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 10, offset: 91454},
+																									pos:        position{line: 2901, col: 10, offset: 91483},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31896,28 +32114,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonListContinuationElement632,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31926,9 +32144,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -31938,15 +32156,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 881, col: 5, offset: 27931},
+																			pos: position{line: 882, col: 5, offset: 27960},
 																			run: (*parser).callonListContinuationElement639,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2919, col: 8, offset: 91802},
+																	pos: position{line: 2920, col: 8, offset: 91831},
 																	expr: &anyMatcher{
-																		line: 2919, col: 9, offset: 91803,
+																		line: 2920, col: 9, offset: 91832,
 																	},
 																},
 															},
@@ -31957,39 +32175,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 896, col: 5, offset: 28242},
+										pos: position{line: 897, col: 5, offset: 28271},
 										run: (*parser).callonListContinuationElement642,
 										expr: &seqExpr{
-											pos: position{line: 896, col: 5, offset: 28242},
+											pos: position{line: 897, col: 5, offset: 28271},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 896, col: 5, offset: 28242},
+													pos:   position{line: 897, col: 5, offset: 28271},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 769, col: 5, offset: 24616},
+														pos: position{line: 770, col: 5, offset: 24645},
 														run: (*parser).callonListContinuationElement645,
 														expr: &seqExpr{
-															pos: position{line: 769, col: 5, offset: 24616},
+															pos: position{line: 770, col: 5, offset: 24645},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 769, col: 5, offset: 24616},
+																	pos:   position{line: 770, col: 5, offset: 24645},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 769, col: 16, offset: 24627},
+																		pos: position{line: 770, col: 16, offset: 24656},
 																		run: (*parser).callonListContinuationElement648,
 																		expr: &seqExpr{
-																			pos: position{line: 769, col: 16, offset: 24627},
+																			pos: position{line: 770, col: 16, offset: 24656},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 769, col: 16, offset: 24627},
+																					pos:        position{line: 770, col: 16, offset: 24656},
 																					val:        "----",
 																					ignoreCase: false,
 																					want:       "\"----\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 769, col: 23, offset: 24634},
+																					pos: position{line: 770, col: 23, offset: 24663},
 																					expr: &litMatcher{
-																						pos:        position{line: 769, col: 23, offset: 24634},
+																						pos:        position{line: 770, col: 23, offset: 24663},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
@@ -32000,12 +32218,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 771, col: 8, offset: 24718},
+																	pos: position{line: 772, col: 8, offset: 24747},
 																	expr: &actionExpr{
-																		pos: position{line: 2900, col: 10, offset: 91454},
+																		pos: position{line: 2901, col: 10, offset: 91483},
 																		run: (*parser).callonListContinuationElement654,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 10, offset: 91454},
+																			pos:        position{line: 2901, col: 10, offset: 91483},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32014,28 +32232,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2922, col: 8, offset: 91852},
+																	pos: position{line: 2923, col: 8, offset: 91881},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 12, offset: 91625},
+																			pos: position{line: 2910, col: 12, offset: 91654},
 																			run: (*parser).callonListContinuationElement657,
 																			expr: &choiceExpr{
-																				pos: position{line: 2909, col: 13, offset: 91626},
+																				pos: position{line: 2910, col: 13, offset: 91655},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 13, offset: 91626},
+																						pos:        position{line: 2910, col: 13, offset: 91655},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 20, offset: 91633},
+																						pos:        position{line: 2910, col: 20, offset: 91662},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 29, offset: 91642},
+																						pos:        position{line: 2910, col: 29, offset: 91671},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32044,9 +32262,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2919, col: 8, offset: 91802},
+																			pos: position{line: 2920, col: 8, offset: 91831},
 																			expr: &anyMatcher{
-																				line: 2919, col: 9, offset: 91803,
+																				line: 2920, col: 9, offset: 91832,
 																			},
 																		},
 																	},
@@ -32056,56 +32274,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 897, col: 5, offset: 28281},
+													pos: position{line: 898, col: 5, offset: 28310},
 													run: (*parser).callonListContinuationElement664,
 												},
 												&labeledExpr{
-													pos:   position{line: 900, col: 5, offset: 28373},
+													pos:   position{line: 901, col: 5, offset: 28402},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 915, col: 5, offset: 28771},
+														pos: position{line: 916, col: 5, offset: 28800},
 														expr: &actionExpr{
-															pos: position{line: 915, col: 6, offset: 28772},
+															pos: position{line: 916, col: 6, offset: 28801},
 															run: (*parser).callonListContinuationElement667,
 															expr: &seqExpr{
-																pos: position{line: 915, col: 6, offset: 28772},
+																pos: position{line: 916, col: 6, offset: 28801},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 915, col: 6, offset: 28772},
+																		pos: position{line: 916, col: 6, offset: 28801},
 																		expr: &choiceExpr{
-																			pos: position{line: 908, col: 5, offset: 28613},
+																			pos: position{line: 909, col: 5, offset: 28642},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 908, col: 5, offset: 28613},
+																					pos: position{line: 909, col: 5, offset: 28642},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 908, col: 5, offset: 28613},
+																							pos:   position{line: 909, col: 5, offset: 28642},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 5, offset: 24616},
+																								pos: position{line: 770, col: 5, offset: 24645},
 																								run: (*parser).callonListContinuationElement673,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 5, offset: 24616},
+																									pos: position{line: 770, col: 5, offset: 24645},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 769, col: 5, offset: 24616},
+																											pos:   position{line: 770, col: 5, offset: 24645},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 769, col: 16, offset: 24627},
+																												pos: position{line: 770, col: 16, offset: 24656},
 																												run: (*parser).callonListContinuationElement676,
 																												expr: &seqExpr{
-																													pos: position{line: 769, col: 16, offset: 24627},
+																													pos: position{line: 770, col: 16, offset: 24656},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 769, col: 16, offset: 24627},
+																															pos:        position{line: 770, col: 16, offset: 24656},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 769, col: 23, offset: 24634},
+																															pos: position{line: 770, col: 23, offset: 24663},
 																															expr: &litMatcher{
-																																pos:        position{line: 769, col: 23, offset: 24634},
+																																pos:        position{line: 770, col: 23, offset: 24663},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -32116,12 +32334,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 771, col: 8, offset: 24718},
+																											pos: position{line: 772, col: 8, offset: 24747},
 																											expr: &actionExpr{
-																												pos: position{line: 2900, col: 10, offset: 91454},
+																												pos: position{line: 2901, col: 10, offset: 91483},
 																												run: (*parser).callonListContinuationElement682,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2900, col: 10, offset: 91454},
+																													pos:        position{line: 2901, col: 10, offset: 91483},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32130,28 +32348,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2922, col: 8, offset: 91852},
+																											pos: position{line: 2923, col: 8, offset: 91881},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2909, col: 12, offset: 91625},
+																													pos: position{line: 2910, col: 12, offset: 91654},
 																													run: (*parser).callonListContinuationElement685,
 																													expr: &choiceExpr{
-																														pos: position{line: 2909, col: 13, offset: 91626},
+																														pos: position{line: 2910, col: 13, offset: 91655},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 13, offset: 91626},
+																																pos:        position{line: 2910, col: 13, offset: 91655},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 20, offset: 91633},
+																																pos:        position{line: 2910, col: 20, offset: 91662},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 29, offset: 91642},
+																																pos:        position{line: 2910, col: 29, offset: 91671},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32160,9 +32378,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2919, col: 8, offset: 91802},
+																													pos: position{line: 2920, col: 8, offset: 91831},
 																													expr: &anyMatcher{
-																														line: 2919, col: 9, offset: 91803,
+																														line: 2920, col: 9, offset: 91832,
 																													},
 																												},
 																											},
@@ -32172,45 +32390,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 909, col: 5, offset: 28644},
+																							pos: position{line: 910, col: 5, offset: 28673},
 																							run: (*parser).callonListContinuationElement692,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 916, col: 5, offset: 28802},
+																		pos:   position{line: 917, col: 5, offset: 28831},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 812, col: 5, offset: 26117},
 																			run: (*parser).callonListContinuationElement696,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 812, col: 5, offset: 26117},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2917, col: 11, offset: 91788},
+																						pos: position{line: 2918, col: 11, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2917, col: 13, offset: 91790,
+																							line: 2918, col: 13, offset: 91819,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 813, col: 5, offset: 26192},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2846, col: 13, offset: 89980},
+																							pos: position{line: 2847, col: 13, offset: 90009},
 																							run: (*parser).callonListContinuationElement701,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2846, col: 13, offset: 89980},
+																								pos: position{line: 2847, col: 13, offset: 90009},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2846, col: 13, offset: 89980},
+																									pos:        position{line: 2847, col: 13, offset: 90009},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32220,28 +32438,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2922, col: 8, offset: 91852},
+																						pos: position{line: 2923, col: 8, offset: 91881},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2909, col: 12, offset: 91625},
+																								pos: position{line: 2910, col: 12, offset: 91654},
 																								run: (*parser).callonListContinuationElement705,
 																								expr: &choiceExpr{
-																									pos: position{line: 2909, col: 13, offset: 91626},
+																									pos: position{line: 2910, col: 13, offset: 91655},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 13, offset: 91626},
+																											pos:        position{line: 2910, col: 13, offset: 91655},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 20, offset: 91633},
+																											pos:        position{line: 2910, col: 20, offset: 91662},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 29, offset: 91642},
+																											pos:        position{line: 2910, col: 29, offset: 91671},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32250,9 +32468,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2919, col: 8, offset: 91802},
+																								pos: position{line: 2920, col: 8, offset: 91831},
 																								expr: &anyMatcher{
-																									line: 2919, col: 9, offset: 91803,
+																									line: 2920, col: 9, offset: 91832,
 																								},
 																							},
 																						},
@@ -32267,44 +32485,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 901, col: 5, offset: 28407},
+													pos:   position{line: 902, col: 5, offset: 28436},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 901, col: 9, offset: 28411},
+														pos: position{line: 902, col: 9, offset: 28440},
 														expr: &choiceExpr{
-															pos: position{line: 908, col: 5, offset: 28613},
+															pos: position{line: 909, col: 5, offset: 28642},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 908, col: 5, offset: 28613},
+																	pos: position{line: 909, col: 5, offset: 28642},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 908, col: 5, offset: 28613},
+																			pos:   position{line: 909, col: 5, offset: 28642},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 769, col: 5, offset: 24616},
+																				pos: position{line: 770, col: 5, offset: 24645},
 																				run: (*parser).callonListContinuationElement717,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 5, offset: 24616},
+																					pos: position{line: 770, col: 5, offset: 24645},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 769, col: 5, offset: 24616},
+																							pos:   position{line: 770, col: 5, offset: 24645},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 16, offset: 24627},
+																								pos: position{line: 770, col: 16, offset: 24656},
 																								run: (*parser).callonListContinuationElement720,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 16, offset: 24627},
+																									pos: position{line: 770, col: 16, offset: 24656},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 769, col: 16, offset: 24627},
+																											pos:        position{line: 770, col: 16, offset: 24656},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 23, offset: 24634},
+																											pos: position{line: 770, col: 23, offset: 24663},
 																											expr: &litMatcher{
-																												pos:        position{line: 769, col: 23, offset: 24634},
+																												pos:        position{line: 770, col: 23, offset: 24663},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -32315,12 +32533,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 771, col: 8, offset: 24718},
+																							pos: position{line: 772, col: 8, offset: 24747},
 																							expr: &actionExpr{
-																								pos: position{line: 2900, col: 10, offset: 91454},
+																								pos: position{line: 2901, col: 10, offset: 91483},
 																								run: (*parser).callonListContinuationElement726,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 10, offset: 91454},
+																									pos:        position{line: 2901, col: 10, offset: 91483},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32329,28 +32547,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonListContinuationElement729,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32359,9 +32577,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -32371,15 +32589,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 909, col: 5, offset: 28644},
+																			pos: position{line: 910, col: 5, offset: 28673},
 																			run: (*parser).callonListContinuationElement736,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2919, col: 8, offset: 91802},
+																	pos: position{line: 2920, col: 8, offset: 91831},
 																	expr: &anyMatcher{
-																		line: 2919, col: 9, offset: 91803,
+																		line: 2920, col: 9, offset: 91832,
 																	},
 																},
 															},
@@ -32390,39 +32608,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 924, col: 5, offset: 28957},
+										pos: position{line: 925, col: 5, offset: 28986},
 										run: (*parser).callonListContinuationElement739,
 										expr: &seqExpr{
-											pos: position{line: 924, col: 5, offset: 28957},
+											pos: position{line: 925, col: 5, offset: 28986},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 924, col: 5, offset: 28957},
+													pos:   position{line: 925, col: 5, offset: 28986},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 783, col: 5, offset: 25092},
+														pos: position{line: 784, col: 5, offset: 25121},
 														run: (*parser).callonListContinuationElement742,
 														expr: &seqExpr{
-															pos: position{line: 783, col: 5, offset: 25092},
+															pos: position{line: 784, col: 5, offset: 25121},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 783, col: 5, offset: 25092},
+																	pos:   position{line: 784, col: 5, offset: 25121},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 783, col: 16, offset: 25103},
+																		pos: position{line: 784, col: 16, offset: 25132},
 																		run: (*parser).callonListContinuationElement745,
 																		expr: &seqExpr{
-																			pos: position{line: 783, col: 16, offset: 25103},
+																			pos: position{line: 784, col: 16, offset: 25132},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 783, col: 16, offset: 25103},
+																					pos:        position{line: 784, col: 16, offset: 25132},
 																					val:        "....",
 																					ignoreCase: false,
 																					want:       "\"....\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 783, col: 23, offset: 25110},
+																					pos: position{line: 784, col: 23, offset: 25139},
 																					expr: &litMatcher{
-																						pos:        position{line: 783, col: 23, offset: 25110},
+																						pos:        position{line: 784, col: 23, offset: 25139},
 																						val:        ".",
 																						ignoreCase: false,
 																						want:       "\".\"",
@@ -32433,12 +32651,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 785, col: 8, offset: 25194},
+																	pos: position{line: 786, col: 8, offset: 25223},
 																	expr: &actionExpr{
-																		pos: position{line: 2900, col: 10, offset: 91454},
+																		pos: position{line: 2901, col: 10, offset: 91483},
 																		run: (*parser).callonListContinuationElement751,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 10, offset: 91454},
+																			pos:        position{line: 2901, col: 10, offset: 91483},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32447,28 +32665,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2922, col: 8, offset: 91852},
+																	pos: position{line: 2923, col: 8, offset: 91881},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 12, offset: 91625},
+																			pos: position{line: 2910, col: 12, offset: 91654},
 																			run: (*parser).callonListContinuationElement754,
 																			expr: &choiceExpr{
-																				pos: position{line: 2909, col: 13, offset: 91626},
+																				pos: position{line: 2910, col: 13, offset: 91655},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 13, offset: 91626},
+																						pos:        position{line: 2910, col: 13, offset: 91655},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 20, offset: 91633},
+																						pos:        position{line: 2910, col: 20, offset: 91662},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 29, offset: 91642},
+																						pos:        position{line: 2910, col: 29, offset: 91671},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32477,9 +32695,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2919, col: 8, offset: 91802},
+																			pos: position{line: 2920, col: 8, offset: 91831},
 																			expr: &anyMatcher{
-																				line: 2919, col: 9, offset: 91803,
+																				line: 2920, col: 9, offset: 91832,
 																			},
 																		},
 																	},
@@ -32489,56 +32707,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 925, col: 5, offset: 28996},
+													pos: position{line: 926, col: 5, offset: 29025},
 													run: (*parser).callonListContinuationElement761,
 												},
 												&labeledExpr{
-													pos:   position{line: 928, col: 5, offset: 29088},
+													pos:   position{line: 929, col: 5, offset: 29117},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 943, col: 5, offset: 29486},
+														pos: position{line: 944, col: 5, offset: 29515},
 														expr: &actionExpr{
-															pos: position{line: 943, col: 6, offset: 29487},
+															pos: position{line: 944, col: 6, offset: 29516},
 															run: (*parser).callonListContinuationElement764,
 															expr: &seqExpr{
-																pos: position{line: 943, col: 6, offset: 29487},
+																pos: position{line: 944, col: 6, offset: 29516},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 943, col: 6, offset: 29487},
+																		pos: position{line: 944, col: 6, offset: 29516},
 																		expr: &choiceExpr{
-																			pos: position{line: 936, col: 5, offset: 29328},
+																			pos: position{line: 937, col: 5, offset: 29357},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 936, col: 5, offset: 29328},
+																					pos: position{line: 937, col: 5, offset: 29357},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 936, col: 5, offset: 29328},
+																							pos:   position{line: 937, col: 5, offset: 29357},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 5, offset: 25092},
+																								pos: position{line: 784, col: 5, offset: 25121},
 																								run: (*parser).callonListContinuationElement770,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 5, offset: 25092},
+																									pos: position{line: 784, col: 5, offset: 25121},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 783, col: 5, offset: 25092},
+																											pos:   position{line: 784, col: 5, offset: 25121},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 783, col: 16, offset: 25103},
+																												pos: position{line: 784, col: 16, offset: 25132},
 																												run: (*parser).callonListContinuationElement773,
 																												expr: &seqExpr{
-																													pos: position{line: 783, col: 16, offset: 25103},
+																													pos: position{line: 784, col: 16, offset: 25132},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 783, col: 16, offset: 25103},
+																															pos:        position{line: 784, col: 16, offset: 25132},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 783, col: 23, offset: 25110},
+																															pos: position{line: 784, col: 23, offset: 25139},
 																															expr: &litMatcher{
-																																pos:        position{line: 783, col: 23, offset: 25110},
+																																pos:        position{line: 784, col: 23, offset: 25139},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -32549,12 +32767,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 785, col: 8, offset: 25194},
+																											pos: position{line: 786, col: 8, offset: 25223},
 																											expr: &actionExpr{
-																												pos: position{line: 2900, col: 10, offset: 91454},
+																												pos: position{line: 2901, col: 10, offset: 91483},
 																												run: (*parser).callonListContinuationElement779,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2900, col: 10, offset: 91454},
+																													pos:        position{line: 2901, col: 10, offset: 91483},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32563,28 +32781,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2922, col: 8, offset: 91852},
+																											pos: position{line: 2923, col: 8, offset: 91881},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2909, col: 12, offset: 91625},
+																													pos: position{line: 2910, col: 12, offset: 91654},
 																													run: (*parser).callonListContinuationElement782,
 																													expr: &choiceExpr{
-																														pos: position{line: 2909, col: 13, offset: 91626},
+																														pos: position{line: 2910, col: 13, offset: 91655},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 13, offset: 91626},
+																																pos:        position{line: 2910, col: 13, offset: 91655},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 20, offset: 91633},
+																																pos:        position{line: 2910, col: 20, offset: 91662},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 29, offset: 91642},
+																																pos:        position{line: 2910, col: 29, offset: 91671},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32593,9 +32811,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2919, col: 8, offset: 91802},
+																													pos: position{line: 2920, col: 8, offset: 91831},
 																													expr: &anyMatcher{
-																														line: 2919, col: 9, offset: 91803,
+																														line: 2920, col: 9, offset: 91832,
 																													},
 																												},
 																											},
@@ -32605,45 +32823,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 937, col: 5, offset: 29359},
+																							pos: position{line: 938, col: 5, offset: 29388},
 																							run: (*parser).callonListContinuationElement789,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 944, col: 5, offset: 29517},
+																		pos:   position{line: 945, col: 5, offset: 29546},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 812, col: 5, offset: 26117},
 																			run: (*parser).callonListContinuationElement793,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 812, col: 5, offset: 26117},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2917, col: 11, offset: 91788},
+																						pos: position{line: 2918, col: 11, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2917, col: 13, offset: 91790,
+																							line: 2918, col: 13, offset: 91819,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 813, col: 5, offset: 26192},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2846, col: 13, offset: 89980},
+																							pos: position{line: 2847, col: 13, offset: 90009},
 																							run: (*parser).callonListContinuationElement798,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2846, col: 13, offset: 89980},
+																								pos: position{line: 2847, col: 13, offset: 90009},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2846, col: 13, offset: 89980},
+																									pos:        position{line: 2847, col: 13, offset: 90009},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32653,28 +32871,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2922, col: 8, offset: 91852},
+																						pos: position{line: 2923, col: 8, offset: 91881},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2909, col: 12, offset: 91625},
+																								pos: position{line: 2910, col: 12, offset: 91654},
 																								run: (*parser).callonListContinuationElement802,
 																								expr: &choiceExpr{
-																									pos: position{line: 2909, col: 13, offset: 91626},
+																									pos: position{line: 2910, col: 13, offset: 91655},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 13, offset: 91626},
+																											pos:        position{line: 2910, col: 13, offset: 91655},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 20, offset: 91633},
+																											pos:        position{line: 2910, col: 20, offset: 91662},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 29, offset: 91642},
+																											pos:        position{line: 2910, col: 29, offset: 91671},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32683,9 +32901,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2919, col: 8, offset: 91802},
+																								pos: position{line: 2920, col: 8, offset: 91831},
 																								expr: &anyMatcher{
-																									line: 2919, col: 9, offset: 91803,
+																									line: 2920, col: 9, offset: 91832,
 																								},
 																							},
 																						},
@@ -32700,44 +32918,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 929, col: 5, offset: 29122},
+													pos:   position{line: 930, col: 5, offset: 29151},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 929, col: 9, offset: 29126},
+														pos: position{line: 930, col: 9, offset: 29155},
 														expr: &choiceExpr{
-															pos: position{line: 936, col: 5, offset: 29328},
+															pos: position{line: 937, col: 5, offset: 29357},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 936, col: 5, offset: 29328},
+																	pos: position{line: 937, col: 5, offset: 29357},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 936, col: 5, offset: 29328},
+																			pos:   position{line: 937, col: 5, offset: 29357},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 783, col: 5, offset: 25092},
+																				pos: position{line: 784, col: 5, offset: 25121},
 																				run: (*parser).callonListContinuationElement814,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 5, offset: 25092},
+																					pos: position{line: 784, col: 5, offset: 25121},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 783, col: 5, offset: 25092},
+																							pos:   position{line: 784, col: 5, offset: 25121},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 16, offset: 25103},
+																								pos: position{line: 784, col: 16, offset: 25132},
 																								run: (*parser).callonListContinuationElement817,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 16, offset: 25103},
+																									pos: position{line: 784, col: 16, offset: 25132},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 783, col: 16, offset: 25103},
+																											pos:        position{line: 784, col: 16, offset: 25132},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 783, col: 23, offset: 25110},
+																											pos: position{line: 784, col: 23, offset: 25139},
 																											expr: &litMatcher{
-																												pos:        position{line: 783, col: 23, offset: 25110},
+																												pos:        position{line: 784, col: 23, offset: 25139},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -32748,12 +32966,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 785, col: 8, offset: 25194},
+																							pos: position{line: 786, col: 8, offset: 25223},
 																							expr: &actionExpr{
-																								pos: position{line: 2900, col: 10, offset: 91454},
+																								pos: position{line: 2901, col: 10, offset: 91483},
 																								run: (*parser).callonListContinuationElement823,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 10, offset: 91454},
+																									pos:        position{line: 2901, col: 10, offset: 91483},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32762,28 +32980,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonListContinuationElement826,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32792,9 +33010,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -32804,15 +33022,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 937, col: 5, offset: 29359},
+																			pos: position{line: 938, col: 5, offset: 29388},
 																			run: (*parser).callonListContinuationElement833,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2919, col: 8, offset: 91802},
+																	pos: position{line: 2920, col: 8, offset: 91831},
 																	expr: &anyMatcher{
-																		line: 2919, col: 9, offset: 91803,
+																		line: 2920, col: 9, offset: 91832,
 																	},
 																},
 															},
@@ -32823,41 +33041,41 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 975, col: 5, offset: 30400},
+										pos: position{line: 976, col: 5, offset: 30429},
 										run: (*parser).callonListContinuationElement836,
 										expr: &seqExpr{
-											pos: position{line: 975, col: 5, offset: 30400},
+											pos: position{line: 976, col: 5, offset: 30429},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 975, col: 5, offset: 30400},
+													pos:   position{line: 976, col: 5, offset: 30429},
 													label: "firstLine",
 													expr: &actionExpr{
-														pos: position{line: 982, col: 5, offset: 30659},
+														pos: position{line: 983, col: 5, offset: 30688},
 														run: (*parser).callonListContinuationElement839,
 														expr: &seqExpr{
-															pos: position{line: 982, col: 5, offset: 30659},
+															pos: position{line: 983, col: 5, offset: 30688},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 982, col: 5, offset: 30659},
+																	pos: position{line: 983, col: 5, offset: 30688},
 																	expr: &actionExpr{
-																		pos: position{line: 677, col: 14, offset: 21489},
+																		pos: position{line: 678, col: 14, offset: 21518},
 																		run: (*parser).callonListContinuationElement842,
 																		expr: &seqExpr{
-																			pos: position{line: 677, col: 14, offset: 21489},
+																			pos: position{line: 678, col: 14, offset: 21518},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2917, col: 11, offset: 91788},
+																					pos: position{line: 2918, col: 11, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2917, col: 13, offset: 91790,
+																						line: 2918, col: 13, offset: 91819,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 677, col: 21, offset: 21496},
+																					pos: position{line: 678, col: 21, offset: 21525},
 																					expr: &actionExpr{
-																						pos: position{line: 2900, col: 10, offset: 91454},
+																						pos: position{line: 2901, col: 10, offset: 91483},
 																						run: (*parser).callonListContinuationElement847,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2900, col: 10, offset: 91454},
+																							pos:        position{line: 2901, col: 10, offset: 91483},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32866,28 +33084,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2922, col: 8, offset: 91852},
+																					pos: position{line: 2923, col: 8, offset: 91881},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2909, col: 12, offset: 91625},
+																							pos: position{line: 2910, col: 12, offset: 91654},
 																							run: (*parser).callonListContinuationElement850,
 																							expr: &choiceExpr{
-																								pos: position{line: 2909, col: 13, offset: 91626},
+																								pos: position{line: 2910, col: 13, offset: 91655},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 13, offset: 91626},
+																										pos:        position{line: 2910, col: 13, offset: 91655},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 20, offset: 91633},
+																										pos:        position{line: 2910, col: 20, offset: 91662},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 29, offset: 91642},
+																										pos:        position{line: 2910, col: 29, offset: 91671},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32896,9 +33114,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2919, col: 8, offset: 91802},
+																							pos: position{line: 2920, col: 8, offset: 91831},
 																							expr: &anyMatcher{
-																								line: 2919, col: 9, offset: 91803,
+																								line: 2920, col: 9, offset: 91832,
 																							},
 																						},
 																					},
@@ -32908,21 +33126,21 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 983, col: 5, offset: 30674},
+																	pos:        position{line: 984, col: 5, offset: 30703},
 																	val:        "> ",
 																	ignoreCase: false,
 																	want:       "\"> \"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 984, col: 5, offset: 30684},
+																	pos:   position{line: 985, col: 5, offset: 30713},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2850, col: 14, offset: 90047},
+																		pos: position{line: 2851, col: 14, offset: 90076},
 																		run: (*parser).callonListContinuationElement859,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2850, col: 14, offset: 90047},
+																			pos: position{line: 2851, col: 14, offset: 90076},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2850, col: 14, offset: 90047},
+																				pos:        position{line: 2851, col: 14, offset: 90076},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -32932,28 +33150,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2922, col: 8, offset: 91852},
+																	pos: position{line: 2923, col: 8, offset: 91881},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 12, offset: 91625},
+																			pos: position{line: 2910, col: 12, offset: 91654},
 																			run: (*parser).callonListContinuationElement863,
 																			expr: &choiceExpr{
-																				pos: position{line: 2909, col: 13, offset: 91626},
+																				pos: position{line: 2910, col: 13, offset: 91655},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 13, offset: 91626},
+																						pos:        position{line: 2910, col: 13, offset: 91655},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 20, offset: 91633},
+																						pos:        position{line: 2910, col: 20, offset: 91662},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 29, offset: 91642},
+																						pos:        position{line: 2910, col: 29, offset: 91671},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32962,9 +33180,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2919, col: 8, offset: 91802},
+																			pos: position{line: 2920, col: 8, offset: 91831},
 																			expr: &anyMatcher{
-																				line: 2919, col: 9, offset: 91803,
+																				line: 2920, col: 9, offset: 91832,
 																			},
 																		},
 																	},
@@ -32974,40 +33192,40 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 976, col: 5, offset: 30437},
+													pos:   position{line: 977, col: 5, offset: 30466},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 976, col: 16, offset: 30448},
+														pos: position{line: 977, col: 16, offset: 30477},
 														expr: &choiceExpr{
-															pos: position{line: 976, col: 17, offset: 30449},
+															pos: position{line: 977, col: 17, offset: 30478},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 982, col: 5, offset: 30659},
+																	pos: position{line: 983, col: 5, offset: 30688},
 																	run: (*parser).callonListContinuationElement873,
 																	expr: &seqExpr{
-																		pos: position{line: 982, col: 5, offset: 30659},
+																		pos: position{line: 983, col: 5, offset: 30688},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 982, col: 5, offset: 30659},
+																				pos: position{line: 983, col: 5, offset: 30688},
 																				expr: &actionExpr{
-																					pos: position{line: 677, col: 14, offset: 21489},
+																					pos: position{line: 678, col: 14, offset: 21518},
 																					run: (*parser).callonListContinuationElement876,
 																					expr: &seqExpr{
-																						pos: position{line: 677, col: 14, offset: 21489},
+																						pos: position{line: 678, col: 14, offset: 21518},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2917, col: 11, offset: 91788},
+																								pos: position{line: 2918, col: 11, offset: 91817},
 																								expr: &anyMatcher{
-																									line: 2917, col: 13, offset: 91790,
+																									line: 2918, col: 13, offset: 91819,
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 677, col: 21, offset: 21496},
+																								pos: position{line: 678, col: 21, offset: 21525},
 																								expr: &actionExpr{
-																									pos: position{line: 2900, col: 10, offset: 91454},
+																									pos: position{line: 2901, col: 10, offset: 91483},
 																									run: (*parser).callonListContinuationElement881,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2900, col: 10, offset: 91454},
+																										pos:        position{line: 2901, col: 10, offset: 91483},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33016,28 +33234,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2922, col: 8, offset: 91852},
+																								pos: position{line: 2923, col: 8, offset: 91881},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2909, col: 12, offset: 91625},
+																										pos: position{line: 2910, col: 12, offset: 91654},
 																										run: (*parser).callonListContinuationElement884,
 																										expr: &choiceExpr{
-																											pos: position{line: 2909, col: 13, offset: 91626},
+																											pos: position{line: 2910, col: 13, offset: 91655},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 13, offset: 91626},
+																													pos:        position{line: 2910, col: 13, offset: 91655},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 20, offset: 91633},
+																													pos:        position{line: 2910, col: 20, offset: 91662},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 29, offset: 91642},
+																													pos:        position{line: 2910, col: 29, offset: 91671},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33046,9 +33264,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2919, col: 8, offset: 91802},
+																										pos: position{line: 2920, col: 8, offset: 91831},
 																										expr: &anyMatcher{
-																											line: 2919, col: 9, offset: 91803,
+																											line: 2920, col: 9, offset: 91832,
 																										},
 																									},
 																								},
@@ -33058,21 +33276,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 983, col: 5, offset: 30674},
+																				pos:        position{line: 984, col: 5, offset: 30703},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 984, col: 5, offset: 30684},
+																				pos:   position{line: 985, col: 5, offset: 30713},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2850, col: 14, offset: 90047},
+																					pos: position{line: 2851, col: 14, offset: 90076},
 																					run: (*parser).callonListContinuationElement893,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2850, col: 14, offset: 90047},
+																						pos: position{line: 2851, col: 14, offset: 90076},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2850, col: 14, offset: 90047},
+																							pos:        position{line: 2851, col: 14, offset: 90076},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33082,28 +33300,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2922, col: 8, offset: 91852},
+																				pos: position{line: 2923, col: 8, offset: 91881},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2909, col: 12, offset: 91625},
+																						pos: position{line: 2910, col: 12, offset: 91654},
 																						run: (*parser).callonListContinuationElement897,
 																						expr: &choiceExpr{
-																							pos: position{line: 2909, col: 13, offset: 91626},
+																							pos: position{line: 2910, col: 13, offset: 91655},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2909, col: 13, offset: 91626},
+																									pos:        position{line: 2910, col: 13, offset: 91655},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2909, col: 20, offset: 91633},
+																									pos:        position{line: 2910, col: 20, offset: 91662},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2909, col: 29, offset: 91642},
+																									pos:        position{line: 2910, col: 29, offset: 91671},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33112,9 +33330,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2919, col: 8, offset: 91802},
+																						pos: position{line: 2920, col: 8, offset: 91831},
 																						expr: &anyMatcher{
-																							line: 2919, col: 9, offset: 91803,
+																							line: 2920, col: 9, offset: 91832,
 																						},
 																					},
 																				},
@@ -33123,21 +33341,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1789, col: 5, offset: 57721},
+																	pos: position{line: 1790, col: 5, offset: 57750},
 																	run: (*parser).callonListContinuationElement904,
 																	expr: &seqExpr{
-																		pos: position{line: 1789, col: 5, offset: 57721},
+																		pos: position{line: 1790, col: 5, offset: 57750},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1789, col: 5, offset: 57721},
+																				pos:   position{line: 1790, col: 5, offset: 57750},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2850, col: 14, offset: 90047},
+																					pos: position{line: 2851, col: 14, offset: 90076},
 																					run: (*parser).callonListContinuationElement907,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2850, col: 14, offset: 90047},
+																						pos: position{line: 2851, col: 14, offset: 90076},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2850, col: 14, offset: 90047},
+																							pos:        position{line: 2851, col: 14, offset: 90076},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33147,32 +33365,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1790, col: 5, offset: 57745},
+																				pos: position{line: 1791, col: 5, offset: 57774},
 																				run: (*parser).callonListContinuationElement910,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2922, col: 8, offset: 91852},
+																				pos: position{line: 2923, col: 8, offset: 91881},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2909, col: 12, offset: 91625},
+																						pos: position{line: 2910, col: 12, offset: 91654},
 																						run: (*parser).callonListContinuationElement912,
 																						expr: &choiceExpr{
-																							pos: position{line: 2909, col: 13, offset: 91626},
+																							pos: position{line: 2910, col: 13, offset: 91655},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2909, col: 13, offset: 91626},
+																									pos:        position{line: 2910, col: 13, offset: 91655},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2909, col: 20, offset: 91633},
+																									pos:        position{line: 2910, col: 20, offset: 91662},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2909, col: 29, offset: 91642},
+																									pos:        position{line: 2910, col: 29, offset: 91671},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33181,9 +33399,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2919, col: 8, offset: 91802},
+																						pos: position{line: 2920, col: 8, offset: 91831},
 																						expr: &anyMatcher{
-																							line: 2919, col: 9, offset: 91803,
+																							line: 2920, col: 9, offset: 91832,
 																						},
 																					},
 																				},
@@ -33199,28 +33417,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 997, col: 5, offset: 30949},
+										pos: position{line: 998, col: 5, offset: 30978},
 										run: (*parser).callonListContinuationElement919,
 										expr: &seqExpr{
-											pos: position{line: 997, col: 5, offset: 30949},
+											pos: position{line: 998, col: 5, offset: 30978},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 997, col: 5, offset: 30949},
+													pos:   position{line: 998, col: 5, offset: 30978},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 776, col: 5, offset: 24861},
+														pos: position{line: 777, col: 5, offset: 24890},
 														run: (*parser).callonListContinuationElement922,
 														expr: &seqExpr{
-															pos: position{line: 776, col: 5, offset: 24861},
+															pos: position{line: 777, col: 5, offset: 24890},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 776, col: 5, offset: 24861},
+																	pos:   position{line: 777, col: 5, offset: 24890},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 776, col: 16, offset: 24872},
+																		pos: position{line: 777, col: 16, offset: 24901},
 																		run: (*parser).callonListContinuationElement925,
 																		expr: &litMatcher{
-																			pos:        position{line: 776, col: 16, offset: 24872},
+																			pos:        position{line: 777, col: 16, offset: 24901},
 																			val:        "--",
 																			ignoreCase: false,
 																			want:       "\"--\"",
@@ -33228,12 +33446,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 778, col: 8, offset: 24949},
+																	pos: position{line: 779, col: 8, offset: 24978},
 																	expr: &actionExpr{
-																		pos: position{line: 2900, col: 10, offset: 91454},
+																		pos: position{line: 2901, col: 10, offset: 91483},
 																		run: (*parser).callonListContinuationElement928,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 10, offset: 91454},
+																			pos:        position{line: 2901, col: 10, offset: 91483},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33242,28 +33460,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2922, col: 8, offset: 91852},
+																	pos: position{line: 2923, col: 8, offset: 91881},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 12, offset: 91625},
+																			pos: position{line: 2910, col: 12, offset: 91654},
 																			run: (*parser).callonListContinuationElement931,
 																			expr: &choiceExpr{
-																				pos: position{line: 2909, col: 13, offset: 91626},
+																				pos: position{line: 2910, col: 13, offset: 91655},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 13, offset: 91626},
+																						pos:        position{line: 2910, col: 13, offset: 91655},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 20, offset: 91633},
+																						pos:        position{line: 2910, col: 20, offset: 91662},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 29, offset: 91642},
+																						pos:        position{line: 2910, col: 29, offset: 91671},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33272,9 +33490,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2919, col: 8, offset: 91802},
+																			pos: position{line: 2920, col: 8, offset: 91831},
 																			expr: &anyMatcher{
-																				line: 2919, col: 9, offset: 91803,
+																				line: 2920, col: 9, offset: 91832,
 																			},
 																		},
 																	},
@@ -33284,35 +33502,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 998, col: 5, offset: 30985},
+													pos:   position{line: 999, col: 5, offset: 31014},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1008, col: 5, offset: 31253},
+														pos: position{line: 1009, col: 5, offset: 31282},
 														expr: &actionExpr{
-															pos: position{line: 1008, col: 6, offset: 31254},
+															pos: position{line: 1009, col: 6, offset: 31283},
 															run: (*parser).callonListContinuationElement940,
 															expr: &seqExpr{
-																pos: position{line: 1008, col: 6, offset: 31254},
+																pos: position{line: 1009, col: 6, offset: 31283},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1008, col: 6, offset: 31254},
+																		pos: position{line: 1009, col: 6, offset: 31283},
 																		expr: &choiceExpr{
-																			pos: position{line: 1005, col: 26, offset: 31202},
+																			pos: position{line: 1006, col: 26, offset: 31231},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 776, col: 5, offset: 24861},
+																					pos: position{line: 777, col: 5, offset: 24890},
 																					run: (*parser).callonListContinuationElement944,
 																					expr: &seqExpr{
-																						pos: position{line: 776, col: 5, offset: 24861},
+																						pos: position{line: 777, col: 5, offset: 24890},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 776, col: 5, offset: 24861},
+																								pos:   position{line: 777, col: 5, offset: 24890},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 776, col: 16, offset: 24872},
+																									pos: position{line: 777, col: 16, offset: 24901},
 																									run: (*parser).callonListContinuationElement947,
 																									expr: &litMatcher{
-																										pos:        position{line: 776, col: 16, offset: 24872},
+																										pos:        position{line: 777, col: 16, offset: 24901},
 																										val:        "--",
 																										ignoreCase: false,
 																										want:       "\"--\"",
@@ -33320,12 +33538,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 778, col: 8, offset: 24949},
+																								pos: position{line: 779, col: 8, offset: 24978},
 																								expr: &actionExpr{
-																									pos: position{line: 2900, col: 10, offset: 91454},
+																									pos: position{line: 2901, col: 10, offset: 91483},
 																									run: (*parser).callonListContinuationElement950,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2900, col: 10, offset: 91454},
+																										pos:        position{line: 2901, col: 10, offset: 91483},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33334,28 +33552,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2922, col: 8, offset: 91852},
+																								pos: position{line: 2923, col: 8, offset: 91881},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2909, col: 12, offset: 91625},
+																										pos: position{line: 2910, col: 12, offset: 91654},
 																										run: (*parser).callonListContinuationElement953,
 																										expr: &choiceExpr{
-																											pos: position{line: 2909, col: 13, offset: 91626},
+																											pos: position{line: 2910, col: 13, offset: 91655},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 13, offset: 91626},
+																													pos:        position{line: 2910, col: 13, offset: 91655},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 20, offset: 91633},
+																													pos:        position{line: 2910, col: 20, offset: 91662},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2909, col: 29, offset: 91642},
+																													pos:        position{line: 2910, col: 29, offset: 91671},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33364,9 +33582,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2919, col: 8, offset: 91802},
+																										pos: position{line: 2920, col: 8, offset: 91831},
 																										expr: &anyMatcher{
-																											line: 2919, col: 9, offset: 91803,
+																											line: 2920, col: 9, offset: 91832,
 																										},
 																									},
 																								},
@@ -33375,39 +33593,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1009, col: 5, offset: 31281},
+																		pos:   position{line: 1010, col: 5, offset: 31310},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 812, col: 5, offset: 26117},
 																			run: (*parser).callonListContinuationElement963,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 812, col: 5, offset: 26117},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2917, col: 11, offset: 91788},
+																						pos: position{line: 2918, col: 11, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2917, col: 13, offset: 91790,
+																							line: 2918, col: 13, offset: 91819,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 813, col: 5, offset: 26192},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2846, col: 13, offset: 89980},
+																							pos: position{line: 2847, col: 13, offset: 90009},
 																							run: (*parser).callonListContinuationElement968,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2846, col: 13, offset: 89980},
+																								pos: position{line: 2847, col: 13, offset: 90009},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2846, col: 13, offset: 89980},
+																									pos:        position{line: 2847, col: 13, offset: 90009},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33417,28 +33635,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2922, col: 8, offset: 91852},
+																						pos: position{line: 2923, col: 8, offset: 91881},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2909, col: 12, offset: 91625},
+																								pos: position{line: 2910, col: 12, offset: 91654},
 																								run: (*parser).callonListContinuationElement972,
 																								expr: &choiceExpr{
-																									pos: position{line: 2909, col: 13, offset: 91626},
+																									pos: position{line: 2910, col: 13, offset: 91655},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 13, offset: 91626},
+																											pos:        position{line: 2910, col: 13, offset: 91655},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 20, offset: 91633},
+																											pos:        position{line: 2910, col: 20, offset: 91662},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 29, offset: 91642},
+																											pos:        position{line: 2910, col: 29, offset: 91671},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33447,9 +33665,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2919, col: 8, offset: 91802},
+																								pos: position{line: 2920, col: 8, offset: 91831},
 																								expr: &anyMatcher{
-																									line: 2919, col: 9, offset: 91803,
+																									line: 2920, col: 9, offset: 91832,
 																								},
 																							},
 																						},
@@ -33464,27 +33682,27 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 999, col: 5, offset: 31016},
+													pos:   position{line: 1000, col: 5, offset: 31045},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 999, col: 9, offset: 31020},
+														pos: position{line: 1000, col: 9, offset: 31049},
 														expr: &choiceExpr{
-															pos: position{line: 1005, col: 26, offset: 31202},
+															pos: position{line: 1006, col: 26, offset: 31231},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 776, col: 5, offset: 24861},
+																	pos: position{line: 777, col: 5, offset: 24890},
 																	run: (*parser).callonListContinuationElement982,
 																	expr: &seqExpr{
-																		pos: position{line: 776, col: 5, offset: 24861},
+																		pos: position{line: 777, col: 5, offset: 24890},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 776, col: 5, offset: 24861},
+																				pos:   position{line: 777, col: 5, offset: 24890},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 776, col: 16, offset: 24872},
+																					pos: position{line: 777, col: 16, offset: 24901},
 																					run: (*parser).callonListContinuationElement985,
 																					expr: &litMatcher{
-																						pos:        position{line: 776, col: 16, offset: 24872},
+																						pos:        position{line: 777, col: 16, offset: 24901},
 																						val:        "--",
 																						ignoreCase: false,
 																						want:       "\"--\"",
@@ -33492,12 +33710,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 778, col: 8, offset: 24949},
+																				pos: position{line: 779, col: 8, offset: 24978},
 																				expr: &actionExpr{
-																					pos: position{line: 2900, col: 10, offset: 91454},
+																					pos: position{line: 2901, col: 10, offset: 91483},
 																					run: (*parser).callonListContinuationElement988,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2900, col: 10, offset: 91454},
+																						pos:        position{line: 2901, col: 10, offset: 91483},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -33506,28 +33724,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2922, col: 8, offset: 91852},
+																				pos: position{line: 2923, col: 8, offset: 91881},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2909, col: 12, offset: 91625},
+																						pos: position{line: 2910, col: 12, offset: 91654},
 																						run: (*parser).callonListContinuationElement991,
 																						expr: &choiceExpr{
-																							pos: position{line: 2909, col: 13, offset: 91626},
+																							pos: position{line: 2910, col: 13, offset: 91655},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2909, col: 13, offset: 91626},
+																									pos:        position{line: 2910, col: 13, offset: 91655},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2909, col: 20, offset: 91633},
+																									pos:        position{line: 2910, col: 20, offset: 91662},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2909, col: 29, offset: 91642},
+																									pos:        position{line: 2910, col: 29, offset: 91671},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33536,9 +33754,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2919, col: 8, offset: 91802},
+																						pos: position{line: 2920, col: 8, offset: 91831},
 																						expr: &anyMatcher{
-																							line: 2919, col: 9, offset: 91803,
+																							line: 2920, col: 9, offset: 91832,
 																						},
 																					},
 																				},
@@ -33547,9 +33765,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2919, col: 8, offset: 91802},
+																	pos: position{line: 2920, col: 8, offset: 91831},
 																	expr: &anyMatcher{
-																		line: 2919, col: 9, offset: 91803,
+																		line: 2920, col: 9, offset: 91832,
 																	},
 																},
 															},
@@ -33560,39 +33778,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1017, col: 5, offset: 31444},
+										pos: position{line: 1018, col: 5, offset: 31473},
 										run: (*parser).callonListContinuationElement1000,
 										expr: &seqExpr{
-											pos: position{line: 1017, col: 5, offset: 31444},
+											pos: position{line: 1018, col: 5, offset: 31473},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1017, col: 5, offset: 31444},
+													pos:   position{line: 1018, col: 5, offset: 31473},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 790, col: 5, offset: 25344},
+														pos: position{line: 791, col: 5, offset: 25373},
 														run: (*parser).callonListContinuationElement1003,
 														expr: &seqExpr{
-															pos: position{line: 790, col: 5, offset: 25344},
+															pos: position{line: 791, col: 5, offset: 25373},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 790, col: 5, offset: 25344},
+																	pos:   position{line: 791, col: 5, offset: 25373},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 790, col: 16, offset: 25355},
+																		pos: position{line: 791, col: 16, offset: 25384},
 																		run: (*parser).callonListContinuationElement1006,
 																		expr: &seqExpr{
-																			pos: position{line: 790, col: 16, offset: 25355},
+																			pos: position{line: 791, col: 16, offset: 25384},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 790, col: 16, offset: 25355},
+																					pos:        position{line: 791, col: 16, offset: 25384},
 																					val:        "++++",
 																					ignoreCase: false,
 																					want:       "\"++++\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 790, col: 23, offset: 25362},
+																					pos: position{line: 791, col: 23, offset: 25391},
 																					expr: &litMatcher{
-																						pos:        position{line: 790, col: 23, offset: 25362},
+																						pos:        position{line: 791, col: 23, offset: 25391},
 																						val:        "+",
 																						ignoreCase: false,
 																						want:       "\"+\"",
@@ -33603,12 +33821,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 792, col: 8, offset: 25446},
+																	pos: position{line: 793, col: 8, offset: 25475},
 																	expr: &actionExpr{
-																		pos: position{line: 2900, col: 10, offset: 91454},
+																		pos: position{line: 2901, col: 10, offset: 91483},
 																		run: (*parser).callonListContinuationElement1012,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 10, offset: 91454},
+																			pos:        position{line: 2901, col: 10, offset: 91483},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33617,28 +33835,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2922, col: 8, offset: 91852},
+																	pos: position{line: 2923, col: 8, offset: 91881},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 12, offset: 91625},
+																			pos: position{line: 2910, col: 12, offset: 91654},
 																			run: (*parser).callonListContinuationElement1015,
 																			expr: &choiceExpr{
-																				pos: position{line: 2909, col: 13, offset: 91626},
+																				pos: position{line: 2910, col: 13, offset: 91655},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 13, offset: 91626},
+																						pos:        position{line: 2910, col: 13, offset: 91655},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 20, offset: 91633},
+																						pos:        position{line: 2910, col: 20, offset: 91662},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 29, offset: 91642},
+																						pos:        position{line: 2910, col: 29, offset: 91671},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33647,9 +33865,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2919, col: 8, offset: 91802},
+																			pos: position{line: 2920, col: 8, offset: 91831},
 																			expr: &anyMatcher{
-																				line: 2919, col: 9, offset: 91803,
+																				line: 2920, col: 9, offset: 91832,
 																			},
 																		},
 																	},
@@ -33659,56 +33877,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1018, col: 5, offset: 31487},
+													pos: position{line: 1019, col: 5, offset: 31516},
 													run: (*parser).callonListContinuationElement1022,
 												},
 												&labeledExpr{
-													pos:   position{line: 1021, col: 5, offset: 31579},
+													pos:   position{line: 1022, col: 5, offset: 31608},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1036, col: 5, offset: 32009},
+														pos: position{line: 1037, col: 5, offset: 32038},
 														expr: &actionExpr{
-															pos: position{line: 1036, col: 6, offset: 32010},
+															pos: position{line: 1037, col: 6, offset: 32039},
 															run: (*parser).callonListContinuationElement1025,
 															expr: &seqExpr{
-																pos: position{line: 1036, col: 6, offset: 32010},
+																pos: position{line: 1037, col: 6, offset: 32039},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1036, col: 6, offset: 32010},
+																		pos: position{line: 1037, col: 6, offset: 32039},
 																		expr: &choiceExpr{
-																			pos: position{line: 1029, col: 5, offset: 31843},
+																			pos: position{line: 1030, col: 5, offset: 31872},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1029, col: 5, offset: 31843},
+																					pos: position{line: 1030, col: 5, offset: 31872},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1029, col: 5, offset: 31843},
+																							pos:   position{line: 1030, col: 5, offset: 31872},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 5, offset: 25344},
+																								pos: position{line: 791, col: 5, offset: 25373},
 																								run: (*parser).callonListContinuationElement1031,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 5, offset: 25344},
+																									pos: position{line: 791, col: 5, offset: 25373},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 790, col: 5, offset: 25344},
+																											pos:   position{line: 791, col: 5, offset: 25373},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 790, col: 16, offset: 25355},
+																												pos: position{line: 791, col: 16, offset: 25384},
 																												run: (*parser).callonListContinuationElement1034,
 																												expr: &seqExpr{
-																													pos: position{line: 790, col: 16, offset: 25355},
+																													pos: position{line: 791, col: 16, offset: 25384},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 790, col: 16, offset: 25355},
+																															pos:        position{line: 791, col: 16, offset: 25384},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 790, col: 23, offset: 25362},
+																															pos: position{line: 791, col: 23, offset: 25391},
 																															expr: &litMatcher{
-																																pos:        position{line: 790, col: 23, offset: 25362},
+																																pos:        position{line: 791, col: 23, offset: 25391},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -33719,12 +33937,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 792, col: 8, offset: 25446},
+																											pos: position{line: 793, col: 8, offset: 25475},
 																											expr: &actionExpr{
-																												pos: position{line: 2900, col: 10, offset: 91454},
+																												pos: position{line: 2901, col: 10, offset: 91483},
 																												run: (*parser).callonListContinuationElement1040,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2900, col: 10, offset: 91454},
+																													pos:        position{line: 2901, col: 10, offset: 91483},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33733,28 +33951,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2922, col: 8, offset: 91852},
+																											pos: position{line: 2923, col: 8, offset: 91881},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2909, col: 12, offset: 91625},
+																													pos: position{line: 2910, col: 12, offset: 91654},
 																													run: (*parser).callonListContinuationElement1043,
 																													expr: &choiceExpr{
-																														pos: position{line: 2909, col: 13, offset: 91626},
+																														pos: position{line: 2910, col: 13, offset: 91655},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 13, offset: 91626},
+																																pos:        position{line: 2910, col: 13, offset: 91655},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 20, offset: 91633},
+																																pos:        position{line: 2910, col: 20, offset: 91662},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 29, offset: 91642},
+																																pos:        position{line: 2910, col: 29, offset: 91671},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33763,9 +33981,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2919, col: 8, offset: 91802},
+																													pos: position{line: 2920, col: 8, offset: 91831},
 																													expr: &anyMatcher{
-																														line: 2919, col: 9, offset: 91803,
+																														line: 2920, col: 9, offset: 91832,
 																													},
 																												},
 																											},
@@ -33775,45 +33993,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1030, col: 5, offset: 31878},
+																							pos: position{line: 1031, col: 5, offset: 31907},
 																							run: (*parser).callonListContinuationElement1050,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1037, col: 5, offset: 32044},
+																		pos:   position{line: 1038, col: 5, offset: 32073},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 812, col: 5, offset: 26117},
 																			run: (*parser).callonListContinuationElement1054,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 812, col: 5, offset: 26117},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2917, col: 11, offset: 91788},
+																						pos: position{line: 2918, col: 11, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2917, col: 13, offset: 91790,
+																							line: 2918, col: 13, offset: 91819,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 813, col: 5, offset: 26192},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2846, col: 13, offset: 89980},
+																							pos: position{line: 2847, col: 13, offset: 90009},
 																							run: (*parser).callonListContinuationElement1059,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2846, col: 13, offset: 89980},
+																								pos: position{line: 2847, col: 13, offset: 90009},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2846, col: 13, offset: 89980},
+																									pos:        position{line: 2847, col: 13, offset: 90009},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33823,28 +34041,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2922, col: 8, offset: 91852},
+																						pos: position{line: 2923, col: 8, offset: 91881},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2909, col: 12, offset: 91625},
+																								pos: position{line: 2910, col: 12, offset: 91654},
 																								run: (*parser).callonListContinuationElement1063,
 																								expr: &choiceExpr{
-																									pos: position{line: 2909, col: 13, offset: 91626},
+																									pos: position{line: 2910, col: 13, offset: 91655},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 13, offset: 91626},
+																											pos:        position{line: 2910, col: 13, offset: 91655},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 20, offset: 91633},
+																											pos:        position{line: 2910, col: 20, offset: 91662},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 29, offset: 91642},
+																											pos:        position{line: 2910, col: 29, offset: 91671},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33853,9 +34071,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2919, col: 8, offset: 91802},
+																								pos: position{line: 2920, col: 8, offset: 91831},
 																								expr: &anyMatcher{
-																									line: 2919, col: 9, offset: 91803,
+																									line: 2920, col: 9, offset: 91832,
 																								},
 																							},
 																						},
@@ -33870,44 +34088,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1022, col: 5, offset: 31617},
+													pos:   position{line: 1023, col: 5, offset: 31646},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1022, col: 9, offset: 31621},
+														pos: position{line: 1023, col: 9, offset: 31650},
 														expr: &choiceExpr{
-															pos: position{line: 1029, col: 5, offset: 31843},
+															pos: position{line: 1030, col: 5, offset: 31872},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1029, col: 5, offset: 31843},
+																	pos: position{line: 1030, col: 5, offset: 31872},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1029, col: 5, offset: 31843},
+																			pos:   position{line: 1030, col: 5, offset: 31872},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 790, col: 5, offset: 25344},
+																				pos: position{line: 791, col: 5, offset: 25373},
 																				run: (*parser).callonListContinuationElement1075,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 5, offset: 25344},
+																					pos: position{line: 791, col: 5, offset: 25373},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 790, col: 5, offset: 25344},
+																							pos:   position{line: 791, col: 5, offset: 25373},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 16, offset: 25355},
+																								pos: position{line: 791, col: 16, offset: 25384},
 																								run: (*parser).callonListContinuationElement1078,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 16, offset: 25355},
+																									pos: position{line: 791, col: 16, offset: 25384},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 790, col: 16, offset: 25355},
+																											pos:        position{line: 791, col: 16, offset: 25384},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 790, col: 23, offset: 25362},
+																											pos: position{line: 791, col: 23, offset: 25391},
 																											expr: &litMatcher{
-																												pos:        position{line: 790, col: 23, offset: 25362},
+																												pos:        position{line: 791, col: 23, offset: 25391},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -33918,12 +34136,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 792, col: 8, offset: 25446},
+																							pos: position{line: 793, col: 8, offset: 25475},
 																							expr: &actionExpr{
-																								pos: position{line: 2900, col: 10, offset: 91454},
+																								pos: position{line: 2901, col: 10, offset: 91483},
 																								run: (*parser).callonListContinuationElement1084,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 10, offset: 91454},
+																									pos:        position{line: 2901, col: 10, offset: 91483},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33932,28 +34150,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonListContinuationElement1087,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33962,9 +34180,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -33974,15 +34192,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1030, col: 5, offset: 31878},
+																			pos: position{line: 1031, col: 5, offset: 31907},
 																			run: (*parser).callonListContinuationElement1094,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2919, col: 8, offset: 91802},
+																	pos: position{line: 2920, col: 8, offset: 91831},
 																	expr: &anyMatcher{
-																		line: 2919, col: 9, offset: 91803,
+																		line: 2920, col: 9, offset: 91832,
 																	},
 																},
 															},
@@ -33993,39 +34211,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1045, col: 5, offset: 32195},
+										pos: position{line: 1046, col: 5, offset: 32224},
 										run: (*parser).callonListContinuationElement1097,
 										expr: &seqExpr{
-											pos: position{line: 1045, col: 5, offset: 32195},
+											pos: position{line: 1046, col: 5, offset: 32224},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1045, col: 5, offset: 32195},
+													pos:   position{line: 1046, col: 5, offset: 32224},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 797, col: 5, offset: 25594},
+														pos: position{line: 798, col: 5, offset: 25623},
 														run: (*parser).callonListContinuationElement1100,
 														expr: &seqExpr{
-															pos: position{line: 797, col: 5, offset: 25594},
+															pos: position{line: 798, col: 5, offset: 25623},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 797, col: 5, offset: 25594},
+																	pos:   position{line: 798, col: 5, offset: 25623},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 797, col: 16, offset: 25605},
+																		pos: position{line: 798, col: 16, offset: 25634},
 																		run: (*parser).callonListContinuationElement1103,
 																		expr: &seqExpr{
-																			pos: position{line: 797, col: 16, offset: 25605},
+																			pos: position{line: 798, col: 16, offset: 25634},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 797, col: 16, offset: 25605},
+																					pos:        position{line: 798, col: 16, offset: 25634},
 																					val:        "____",
 																					ignoreCase: false,
 																					want:       "\"____\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 797, col: 23, offset: 25612},
+																					pos: position{line: 798, col: 23, offset: 25641},
 																					expr: &litMatcher{
-																						pos:        position{line: 797, col: 23, offset: 25612},
+																						pos:        position{line: 798, col: 23, offset: 25641},
 																						val:        "_",
 																						ignoreCase: false,
 																						want:       "\"_\"",
@@ -34036,12 +34254,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 799, col: 8, offset: 25696},
+																	pos: position{line: 800, col: 8, offset: 25725},
 																	expr: &actionExpr{
-																		pos: position{line: 2900, col: 10, offset: 91454},
+																		pos: position{line: 2901, col: 10, offset: 91483},
 																		run: (*parser).callonListContinuationElement1109,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 10, offset: 91454},
+																			pos:        position{line: 2901, col: 10, offset: 91483},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34050,28 +34268,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2922, col: 8, offset: 91852},
+																	pos: position{line: 2923, col: 8, offset: 91881},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 12, offset: 91625},
+																			pos: position{line: 2910, col: 12, offset: 91654},
 																			run: (*parser).callonListContinuationElement1112,
 																			expr: &choiceExpr{
-																				pos: position{line: 2909, col: 13, offset: 91626},
+																				pos: position{line: 2910, col: 13, offset: 91655},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 13, offset: 91626},
+																						pos:        position{line: 2910, col: 13, offset: 91655},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 20, offset: 91633},
+																						pos:        position{line: 2910, col: 20, offset: 91662},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 29, offset: 91642},
+																						pos:        position{line: 2910, col: 29, offset: 91671},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34080,9 +34298,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2919, col: 8, offset: 91802},
+																			pos: position{line: 2920, col: 8, offset: 91831},
 																			expr: &anyMatcher{
-																				line: 2919, col: 9, offset: 91803,
+																				line: 2920, col: 9, offset: 91832,
 																			},
 																		},
 																	},
@@ -34092,56 +34310,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1046, col: 5, offset: 32232},
+													pos: position{line: 1047, col: 5, offset: 32261},
 													run: (*parser).callonListContinuationElement1119,
 												},
 												&labeledExpr{
-													pos:   position{line: 1049, col: 5, offset: 32324},
+													pos:   position{line: 1050, col: 5, offset: 32353},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1064, col: 4, offset: 32705},
+														pos: position{line: 1065, col: 4, offset: 32734},
 														expr: &actionExpr{
-															pos: position{line: 1064, col: 5, offset: 32706},
+															pos: position{line: 1065, col: 5, offset: 32735},
 															run: (*parser).callonListContinuationElement1122,
 															expr: &seqExpr{
-																pos: position{line: 1064, col: 5, offset: 32706},
+																pos: position{line: 1065, col: 5, offset: 32735},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1064, col: 5, offset: 32706},
+																		pos: position{line: 1065, col: 5, offset: 32735},
 																		expr: &choiceExpr{
-																			pos: position{line: 1057, col: 5, offset: 32552},
+																			pos: position{line: 1058, col: 5, offset: 32581},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1057, col: 5, offset: 32552},
+																					pos: position{line: 1058, col: 5, offset: 32581},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1057, col: 5, offset: 32552},
+																							pos:   position{line: 1058, col: 5, offset: 32581},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 5, offset: 25594},
+																								pos: position{line: 798, col: 5, offset: 25623},
 																								run: (*parser).callonListContinuationElement1128,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 5, offset: 25594},
+																									pos: position{line: 798, col: 5, offset: 25623},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 797, col: 5, offset: 25594},
+																											pos:   position{line: 798, col: 5, offset: 25623},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 797, col: 16, offset: 25605},
+																												pos: position{line: 798, col: 16, offset: 25634},
 																												run: (*parser).callonListContinuationElement1131,
 																												expr: &seqExpr{
-																													pos: position{line: 797, col: 16, offset: 25605},
+																													pos: position{line: 798, col: 16, offset: 25634},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 797, col: 16, offset: 25605},
+																															pos:        position{line: 798, col: 16, offset: 25634},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 797, col: 23, offset: 25612},
+																															pos: position{line: 798, col: 23, offset: 25641},
 																															expr: &litMatcher{
-																																pos:        position{line: 797, col: 23, offset: 25612},
+																																pos:        position{line: 798, col: 23, offset: 25641},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -34152,12 +34370,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 799, col: 8, offset: 25696},
+																											pos: position{line: 800, col: 8, offset: 25725},
 																											expr: &actionExpr{
-																												pos: position{line: 2900, col: 10, offset: 91454},
+																												pos: position{line: 2901, col: 10, offset: 91483},
 																												run: (*parser).callonListContinuationElement1137,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2900, col: 10, offset: 91454},
+																													pos:        position{line: 2901, col: 10, offset: 91483},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34166,28 +34384,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2922, col: 8, offset: 91852},
+																											pos: position{line: 2923, col: 8, offset: 91881},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2909, col: 12, offset: 91625},
+																													pos: position{line: 2910, col: 12, offset: 91654},
 																													run: (*parser).callonListContinuationElement1140,
 																													expr: &choiceExpr{
-																														pos: position{line: 2909, col: 13, offset: 91626},
+																														pos: position{line: 2910, col: 13, offset: 91655},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 13, offset: 91626},
+																																pos:        position{line: 2910, col: 13, offset: 91655},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 20, offset: 91633},
+																																pos:        position{line: 2910, col: 20, offset: 91662},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 29, offset: 91642},
+																																pos:        position{line: 2910, col: 29, offset: 91671},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34196,9 +34414,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2919, col: 8, offset: 91802},
+																													pos: position{line: 2920, col: 8, offset: 91831},
 																													expr: &anyMatcher{
-																														line: 2919, col: 9, offset: 91803,
+																														line: 2920, col: 9, offset: 91832,
 																													},
 																												},
 																											},
@@ -34208,45 +34426,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1058, col: 5, offset: 32581},
+																							pos: position{line: 1059, col: 5, offset: 32610},
 																							run: (*parser).callonListContinuationElement1147,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1065, col: 5, offset: 32734},
+																		pos:   position{line: 1066, col: 5, offset: 32763},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 812, col: 5, offset: 26117},
 																			run: (*parser).callonListContinuationElement1151,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 812, col: 5, offset: 26117},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2917, col: 11, offset: 91788},
+																						pos: position{line: 2918, col: 11, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2917, col: 13, offset: 91790,
+																							line: 2918, col: 13, offset: 91819,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 813, col: 5, offset: 26192},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2846, col: 13, offset: 89980},
+																							pos: position{line: 2847, col: 13, offset: 90009},
 																							run: (*parser).callonListContinuationElement1156,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2846, col: 13, offset: 89980},
+																								pos: position{line: 2847, col: 13, offset: 90009},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2846, col: 13, offset: 89980},
+																									pos:        position{line: 2847, col: 13, offset: 90009},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34256,28 +34474,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2922, col: 8, offset: 91852},
+																						pos: position{line: 2923, col: 8, offset: 91881},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2909, col: 12, offset: 91625},
+																								pos: position{line: 2910, col: 12, offset: 91654},
 																								run: (*parser).callonListContinuationElement1160,
 																								expr: &choiceExpr{
-																									pos: position{line: 2909, col: 13, offset: 91626},
+																									pos: position{line: 2910, col: 13, offset: 91655},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 13, offset: 91626},
+																											pos:        position{line: 2910, col: 13, offset: 91655},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 20, offset: 91633},
+																											pos:        position{line: 2910, col: 20, offset: 91662},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 29, offset: 91642},
+																											pos:        position{line: 2910, col: 29, offset: 91671},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34286,9 +34504,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2919, col: 8, offset: 91802},
+																								pos: position{line: 2920, col: 8, offset: 91831},
 																								expr: &anyMatcher{
-																									line: 2919, col: 9, offset: 91803,
+																									line: 2920, col: 9, offset: 91832,
 																								},
 																							},
 																						},
@@ -34303,44 +34521,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1050, col: 5, offset: 32356},
+													pos:   position{line: 1051, col: 5, offset: 32385},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1050, col: 9, offset: 32360},
+														pos: position{line: 1051, col: 9, offset: 32389},
 														expr: &choiceExpr{
-															pos: position{line: 1057, col: 5, offset: 32552},
+															pos: position{line: 1058, col: 5, offset: 32581},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1057, col: 5, offset: 32552},
+																	pos: position{line: 1058, col: 5, offset: 32581},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1057, col: 5, offset: 32552},
+																			pos:   position{line: 1058, col: 5, offset: 32581},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 797, col: 5, offset: 25594},
+																				pos: position{line: 798, col: 5, offset: 25623},
 																				run: (*parser).callonListContinuationElement1172,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 5, offset: 25594},
+																					pos: position{line: 798, col: 5, offset: 25623},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 797, col: 5, offset: 25594},
+																							pos:   position{line: 798, col: 5, offset: 25623},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 16, offset: 25605},
+																								pos: position{line: 798, col: 16, offset: 25634},
 																								run: (*parser).callonListContinuationElement1175,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 16, offset: 25605},
+																									pos: position{line: 798, col: 16, offset: 25634},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 797, col: 16, offset: 25605},
+																											pos:        position{line: 798, col: 16, offset: 25634},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 797, col: 23, offset: 25612},
+																											pos: position{line: 798, col: 23, offset: 25641},
 																											expr: &litMatcher{
-																												pos:        position{line: 797, col: 23, offset: 25612},
+																												pos:        position{line: 798, col: 23, offset: 25641},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -34351,12 +34569,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 799, col: 8, offset: 25696},
+																							pos: position{line: 800, col: 8, offset: 25725},
 																							expr: &actionExpr{
-																								pos: position{line: 2900, col: 10, offset: 91454},
+																								pos: position{line: 2901, col: 10, offset: 91483},
 																								run: (*parser).callonListContinuationElement1181,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 10, offset: 91454},
+																									pos:        position{line: 2901, col: 10, offset: 91483},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34365,28 +34583,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonListContinuationElement1184,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34395,9 +34613,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -34407,15 +34625,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1058, col: 5, offset: 32581},
+																			pos: position{line: 1059, col: 5, offset: 32610},
 																			run: (*parser).callonListContinuationElement1191,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2919, col: 8, offset: 91802},
+																	pos: position{line: 2920, col: 8, offset: 91831},
 																	expr: &anyMatcher{
-																		line: 2919, col: 9, offset: 91803,
+																		line: 2920, col: 9, offset: 91832,
 																	},
 																},
 															},
@@ -34426,39 +34644,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1073, col: 5, offset: 32889},
+										pos: position{line: 1074, col: 5, offset: 32918},
 										run: (*parser).callonListContinuationElement1194,
 										expr: &seqExpr{
-											pos: position{line: 1073, col: 5, offset: 32889},
+											pos: position{line: 1074, col: 5, offset: 32918},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1073, col: 5, offset: 32889},
+													pos:   position{line: 1074, col: 5, offset: 32918},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 804, col: 5, offset: 25840},
+														pos: position{line: 805, col: 5, offset: 25869},
 														run: (*parser).callonListContinuationElement1197,
 														expr: &seqExpr{
-															pos: position{line: 804, col: 5, offset: 25840},
+															pos: position{line: 805, col: 5, offset: 25869},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 804, col: 5, offset: 25840},
+																	pos:   position{line: 805, col: 5, offset: 25869},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 804, col: 16, offset: 25851},
+																		pos: position{line: 805, col: 16, offset: 25880},
 																		run: (*parser).callonListContinuationElement1200,
 																		expr: &seqExpr{
-																			pos: position{line: 804, col: 16, offset: 25851},
+																			pos: position{line: 805, col: 16, offset: 25880},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 804, col: 16, offset: 25851},
+																					pos:        position{line: 805, col: 16, offset: 25880},
 																					val:        "****",
 																					ignoreCase: false,
 																					want:       "\"****\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 804, col: 23, offset: 25858},
+																					pos: position{line: 805, col: 23, offset: 25887},
 																					expr: &litMatcher{
-																						pos:        position{line: 804, col: 23, offset: 25858},
+																						pos:        position{line: 805, col: 23, offset: 25887},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -34469,12 +34687,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 806, col: 8, offset: 25942},
+																	pos: position{line: 807, col: 8, offset: 25971},
 																	expr: &actionExpr{
-																		pos: position{line: 2900, col: 10, offset: 91454},
+																		pos: position{line: 2901, col: 10, offset: 91483},
 																		run: (*parser).callonListContinuationElement1206,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 10, offset: 91454},
+																			pos:        position{line: 2901, col: 10, offset: 91483},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34483,28 +34701,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2922, col: 8, offset: 91852},
+																	pos: position{line: 2923, col: 8, offset: 91881},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 12, offset: 91625},
+																			pos: position{line: 2910, col: 12, offset: 91654},
 																			run: (*parser).callonListContinuationElement1209,
 																			expr: &choiceExpr{
-																				pos: position{line: 2909, col: 13, offset: 91626},
+																				pos: position{line: 2910, col: 13, offset: 91655},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 13, offset: 91626},
+																						pos:        position{line: 2910, col: 13, offset: 91655},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 20, offset: 91633},
+																						pos:        position{line: 2910, col: 20, offset: 91662},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 29, offset: 91642},
+																						pos:        position{line: 2910, col: 29, offset: 91671},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34513,9 +34731,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2919, col: 8, offset: 91802},
+																			pos: position{line: 2920, col: 8, offset: 91831},
 																			expr: &anyMatcher{
-																				line: 2919, col: 9, offset: 91803,
+																				line: 2920, col: 9, offset: 91832,
 																			},
 																		},
 																	},
@@ -34525,56 +34743,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1074, col: 5, offset: 32928},
+													pos: position{line: 1075, col: 5, offset: 32957},
 													run: (*parser).callonListContinuationElement1216,
 												},
 												&labeledExpr{
-													pos:   position{line: 1077, col: 5, offset: 33020},
+													pos:   position{line: 1078, col: 5, offset: 33049},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1092, col: 4, offset: 33417},
+														pos: position{line: 1093, col: 4, offset: 33446},
 														expr: &actionExpr{
-															pos: position{line: 1092, col: 5, offset: 33418},
+															pos: position{line: 1093, col: 5, offset: 33447},
 															run: (*parser).callonListContinuationElement1219,
 															expr: &seqExpr{
-																pos: position{line: 1092, col: 5, offset: 33418},
+																pos: position{line: 1093, col: 5, offset: 33447},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1092, col: 5, offset: 33418},
+																		pos: position{line: 1093, col: 5, offset: 33447},
 																		expr: &choiceExpr{
-																			pos: position{line: 1085, col: 5, offset: 33260},
+																			pos: position{line: 1086, col: 5, offset: 33289},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1085, col: 5, offset: 33260},
+																					pos: position{line: 1086, col: 5, offset: 33289},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1085, col: 5, offset: 33260},
+																							pos:   position{line: 1086, col: 5, offset: 33289},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 5, offset: 25840},
+																								pos: position{line: 805, col: 5, offset: 25869},
 																								run: (*parser).callonListContinuationElement1225,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 5, offset: 25840},
+																									pos: position{line: 805, col: 5, offset: 25869},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 804, col: 5, offset: 25840},
+																											pos:   position{line: 805, col: 5, offset: 25869},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 804, col: 16, offset: 25851},
+																												pos: position{line: 805, col: 16, offset: 25880},
 																												run: (*parser).callonListContinuationElement1228,
 																												expr: &seqExpr{
-																													pos: position{line: 804, col: 16, offset: 25851},
+																													pos: position{line: 805, col: 16, offset: 25880},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 804, col: 16, offset: 25851},
+																															pos:        position{line: 805, col: 16, offset: 25880},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 804, col: 23, offset: 25858},
+																															pos: position{line: 805, col: 23, offset: 25887},
 																															expr: &litMatcher{
-																																pos:        position{line: 804, col: 23, offset: 25858},
+																																pos:        position{line: 805, col: 23, offset: 25887},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -34585,12 +34803,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 806, col: 8, offset: 25942},
+																											pos: position{line: 807, col: 8, offset: 25971},
 																											expr: &actionExpr{
-																												pos: position{line: 2900, col: 10, offset: 91454},
+																												pos: position{line: 2901, col: 10, offset: 91483},
 																												run: (*parser).callonListContinuationElement1234,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2900, col: 10, offset: 91454},
+																													pos:        position{line: 2901, col: 10, offset: 91483},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34599,28 +34817,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2922, col: 8, offset: 91852},
+																											pos: position{line: 2923, col: 8, offset: 91881},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2909, col: 12, offset: 91625},
+																													pos: position{line: 2910, col: 12, offset: 91654},
 																													run: (*parser).callonListContinuationElement1237,
 																													expr: &choiceExpr{
-																														pos: position{line: 2909, col: 13, offset: 91626},
+																														pos: position{line: 2910, col: 13, offset: 91655},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 13, offset: 91626},
+																																pos:        position{line: 2910, col: 13, offset: 91655},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 20, offset: 91633},
+																																pos:        position{line: 2910, col: 20, offset: 91662},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 29, offset: 91642},
+																																pos:        position{line: 2910, col: 29, offset: 91671},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34629,9 +34847,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2919, col: 8, offset: 91802},
+																													pos: position{line: 2920, col: 8, offset: 91831},
 																													expr: &anyMatcher{
-																														line: 2919, col: 9, offset: 91803,
+																														line: 2920, col: 9, offset: 91832,
 																													},
 																												},
 																											},
@@ -34641,45 +34859,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1086, col: 5, offset: 33291},
+																							pos: position{line: 1087, col: 5, offset: 33320},
 																							run: (*parser).callonListContinuationElement1244,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1093, col: 5, offset: 33448},
+																		pos:   position{line: 1094, col: 5, offset: 33477},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 812, col: 5, offset: 26117},
 																			run: (*parser).callonListContinuationElement1248,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 812, col: 5, offset: 26117},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2917, col: 11, offset: 91788},
+																						pos: position{line: 2918, col: 11, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2917, col: 13, offset: 91790,
+																							line: 2918, col: 13, offset: 91819,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 813, col: 5, offset: 26192},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2846, col: 13, offset: 89980},
+																							pos: position{line: 2847, col: 13, offset: 90009},
 																							run: (*parser).callonListContinuationElement1253,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2846, col: 13, offset: 89980},
+																								pos: position{line: 2847, col: 13, offset: 90009},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2846, col: 13, offset: 89980},
+																									pos:        position{line: 2847, col: 13, offset: 90009},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34689,28 +34907,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2922, col: 8, offset: 91852},
+																						pos: position{line: 2923, col: 8, offset: 91881},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2909, col: 12, offset: 91625},
+																								pos: position{line: 2910, col: 12, offset: 91654},
 																								run: (*parser).callonListContinuationElement1257,
 																								expr: &choiceExpr{
-																									pos: position{line: 2909, col: 13, offset: 91626},
+																									pos: position{line: 2910, col: 13, offset: 91655},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 13, offset: 91626},
+																											pos:        position{line: 2910, col: 13, offset: 91655},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 20, offset: 91633},
+																											pos:        position{line: 2910, col: 20, offset: 91662},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 29, offset: 91642},
+																											pos:        position{line: 2910, col: 29, offset: 91671},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34719,9 +34937,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2919, col: 8, offset: 91802},
+																								pos: position{line: 2920, col: 8, offset: 91831},
 																								expr: &anyMatcher{
-																									line: 2919, col: 9, offset: 91803,
+																									line: 2920, col: 9, offset: 91832,
 																								},
 																							},
 																						},
@@ -34736,44 +34954,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1078, col: 5, offset: 33054},
+													pos:   position{line: 1079, col: 5, offset: 33083},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1078, col: 9, offset: 33058},
+														pos: position{line: 1079, col: 9, offset: 33087},
 														expr: &choiceExpr{
-															pos: position{line: 1085, col: 5, offset: 33260},
+															pos: position{line: 1086, col: 5, offset: 33289},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1085, col: 5, offset: 33260},
+																	pos: position{line: 1086, col: 5, offset: 33289},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1085, col: 5, offset: 33260},
+																			pos:   position{line: 1086, col: 5, offset: 33289},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 804, col: 5, offset: 25840},
+																				pos: position{line: 805, col: 5, offset: 25869},
 																				run: (*parser).callonListContinuationElement1269,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 5, offset: 25840},
+																					pos: position{line: 805, col: 5, offset: 25869},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 804, col: 5, offset: 25840},
+																							pos:   position{line: 805, col: 5, offset: 25869},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 16, offset: 25851},
+																								pos: position{line: 805, col: 16, offset: 25880},
 																								run: (*parser).callonListContinuationElement1272,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 16, offset: 25851},
+																									pos: position{line: 805, col: 16, offset: 25880},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 804, col: 16, offset: 25851},
+																											pos:        position{line: 805, col: 16, offset: 25880},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 804, col: 23, offset: 25858},
+																											pos: position{line: 805, col: 23, offset: 25887},
 																											expr: &litMatcher{
-																												pos:        position{line: 804, col: 23, offset: 25858},
+																												pos:        position{line: 805, col: 23, offset: 25887},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -34784,12 +35002,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 806, col: 8, offset: 25942},
+																							pos: position{line: 807, col: 8, offset: 25971},
 																							expr: &actionExpr{
-																								pos: position{line: 2900, col: 10, offset: 91454},
+																								pos: position{line: 2901, col: 10, offset: 91483},
 																								run: (*parser).callonListContinuationElement1278,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 10, offset: 91454},
+																									pos:        position{line: 2901, col: 10, offset: 91483},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34798,28 +35016,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2922, col: 8, offset: 91852},
+																							pos: position{line: 2923, col: 8, offset: 91881},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 12, offset: 91625},
+																									pos: position{line: 2910, col: 12, offset: 91654},
 																									run: (*parser).callonListContinuationElement1281,
 																									expr: &choiceExpr{
-																										pos: position{line: 2909, col: 13, offset: 91626},
+																										pos: position{line: 2910, col: 13, offset: 91655},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 13, offset: 91626},
+																												pos:        position{line: 2910, col: 13, offset: 91655},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 20, offset: 91633},
+																												pos:        position{line: 2910, col: 20, offset: 91662},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2909, col: 29, offset: 91642},
+																												pos:        position{line: 2910, col: 29, offset: 91671},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34828,9 +35046,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2919, col: 8, offset: 91802},
+																									pos: position{line: 2920, col: 8, offset: 91831},
 																									expr: &anyMatcher{
-																										line: 2919, col: 9, offset: 91803,
+																										line: 2920, col: 9, offset: 91832,
 																									},
 																								},
 																							},
@@ -34840,15 +35058,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1086, col: 5, offset: 33291},
+																			pos: position{line: 1087, col: 5, offset: 33320},
 																			run: (*parser).callonListContinuationElement1288,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2919, col: 8, offset: 91802},
+																	pos: position{line: 2920, col: 8, offset: 91831},
 																	expr: &anyMatcher{
-																		line: 2919, col: 9, offset: 91803,
+																		line: 2920, col: 9, offset: 91832,
 																	},
 																},
 															},
@@ -34859,52 +35077,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2745, col: 18, offset: 87044},
+										pos: position{line: 2746, col: 18, offset: 87073},
 										run: (*parser).callonListContinuationElement1291,
 										expr: &seqExpr{
-											pos: position{line: 2745, col: 18, offset: 87044},
+											pos: position{line: 2746, col: 18, offset: 87073},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2746, col: 9, offset: 87054},
+													pos: position{line: 2747, col: 9, offset: 87083},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2746, col: 9, offset: 87054},
+															pos:        position{line: 2747, col: 9, offset: 87083},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2747, col: 11, offset: 87090},
+															pos:        position{line: 2748, col: 11, offset: 87119},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2747, col: 19, offset: 87098},
+															pos:        position{line: 2748, col: 19, offset: 87127},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2747, col: 29, offset: 87108},
+															pos:        position{line: 2748, col: 29, offset: 87137},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2747, col: 37, offset: 87116},
+															pos:        position{line: 2748, col: 37, offset: 87145},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2747, col: 47, offset: 87126},
+															pos:        position{line: 2748, col: 47, offset: 87155},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2747, col: 55, offset: 87134},
+															pos:        position{line: 2748, col: 55, offset: 87163},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -34912,12 +35130,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2748, col: 11, offset: 87192},
+													pos: position{line: 2749, col: 11, offset: 87221},
 													expr: &actionExpr{
-														pos: position{line: 2900, col: 10, offset: 91454},
+														pos: position{line: 2901, col: 10, offset: 91483},
 														run: (*parser).callonListContinuationElement1302,
 														expr: &charClassMatcher{
-															pos:        position{line: 2900, col: 10, offset: 91454},
+															pos:        position{line: 2901, col: 10, offset: 91483},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -34926,28 +35144,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2922, col: 8, offset: 91852},
+													pos: position{line: 2923, col: 8, offset: 91881},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2909, col: 12, offset: 91625},
+															pos: position{line: 2910, col: 12, offset: 91654},
 															run: (*parser).callonListContinuationElement1305,
 															expr: &choiceExpr{
-																pos: position{line: 2909, col: 13, offset: 91626},
+																pos: position{line: 2910, col: 13, offset: 91655},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 13, offset: 91626},
+																		pos:        position{line: 2910, col: 13, offset: 91655},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 20, offset: 91633},
+																		pos:        position{line: 2910, col: 20, offset: 91662},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 29, offset: 91642},
+																		pos:        position{line: 2910, col: 29, offset: 91671},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -34956,36 +35174,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2919, col: 8, offset: 91802},
+															pos: position{line: 2920, col: 8, offset: 91831},
 															expr: &anyMatcher{
-																line: 2919, col: 9, offset: 91803,
+																line: 2920, col: 9, offset: 91832,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2922, col: 8, offset: 91852},
+													pos: position{line: 2923, col: 8, offset: 91881},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2909, col: 12, offset: 91625},
+															pos: position{line: 2910, col: 12, offset: 91654},
 															run: (*parser).callonListContinuationElement1313,
 															expr: &choiceExpr{
-																pos: position{line: 2909, col: 13, offset: 91626},
+																pos: position{line: 2910, col: 13, offset: 91655},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 13, offset: 91626},
+																		pos:        position{line: 2910, col: 13, offset: 91655},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 20, offset: 91633},
+																		pos:        position{line: 2910, col: 20, offset: 91662},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 29, offset: 91642},
+																		pos:        position{line: 2910, col: 29, offset: 91671},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -34994,9 +35212,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2919, col: 8, offset: 91802},
+															pos: position{line: 2920, col: 8, offset: 91831},
 															expr: &anyMatcher{
-																line: 2919, col: 9, offset: 91803,
+																line: 2920, col: 9, offset: 91832,
 															},
 														},
 													},
@@ -35005,28 +35223,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1553, col: 11, offset: 50102},
+										pos:  position{line: 1554, col: 11, offset: 50131},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2636, col: 5, offset: 83980},
+										pos: position{line: 2637, col: 5, offset: 84009},
 										run: (*parser).callonListContinuationElement1321,
 										expr: &seqExpr{
-											pos: position{line: 2636, col: 5, offset: 83980},
+											pos: position{line: 2637, col: 5, offset: 84009},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2642, col: 19, offset: 84137},
+													pos:        position{line: 2643, col: 19, offset: 84166},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2642, col: 26, offset: 84144},
+													pos: position{line: 2643, col: 26, offset: 84173},
 													expr: &actionExpr{
-														pos: position{line: 2900, col: 10, offset: 91454},
+														pos: position{line: 2901, col: 10, offset: 91483},
 														run: (*parser).callonListContinuationElement1325,
 														expr: &charClassMatcher{
-															pos:        position{line: 2900, col: 10, offset: 91454},
+															pos:        position{line: 2901, col: 10, offset: 91483},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35035,28 +35253,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2922, col: 8, offset: 91852},
+													pos: position{line: 2923, col: 8, offset: 91881},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2909, col: 12, offset: 91625},
+															pos: position{line: 2910, col: 12, offset: 91654},
 															run: (*parser).callonListContinuationElement1328,
 															expr: &choiceExpr{
-																pos: position{line: 2909, col: 13, offset: 91626},
+																pos: position{line: 2910, col: 13, offset: 91655},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 13, offset: 91626},
+																		pos:        position{line: 2910, col: 13, offset: 91655},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 20, offset: 91633},
+																		pos:        position{line: 2910, col: 20, offset: 91662},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 29, offset: 91642},
+																		pos:        position{line: 2910, col: 29, offset: 91671},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35065,40 +35283,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2919, col: 8, offset: 91802},
+															pos: position{line: 2920, col: 8, offset: 91831},
 															expr: &anyMatcher{
-																line: 2919, col: 9, offset: 91803,
+																line: 2920, col: 9, offset: 91832,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2637, col: 5, offset: 84004},
+													pos:   position{line: 2638, col: 5, offset: 84033},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2637, col: 11, offset: 84010},
+														pos: position{line: 2638, col: 11, offset: 84039},
 														expr: &choiceExpr{
-															pos: position{line: 2637, col: 12, offset: 84011},
+															pos: position{line: 2638, col: 12, offset: 84040},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 677, col: 14, offset: 21489},
+																	pos: position{line: 678, col: 14, offset: 21518},
 																	run: (*parser).callonListContinuationElement1338,
 																	expr: &seqExpr{
-																		pos: position{line: 677, col: 14, offset: 21489},
+																		pos: position{line: 678, col: 14, offset: 21518},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2917, col: 11, offset: 91788},
+																				pos: position{line: 2918, col: 11, offset: 91817},
 																				expr: &anyMatcher{
-																					line: 2917, col: 13, offset: 91790,
+																					line: 2918, col: 13, offset: 91819,
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 677, col: 21, offset: 21496},
+																				pos: position{line: 678, col: 21, offset: 21525},
 																				expr: &actionExpr{
-																					pos: position{line: 2900, col: 10, offset: 91454},
+																					pos: position{line: 2901, col: 10, offset: 91483},
 																					run: (*parser).callonListContinuationElement1343,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2900, col: 10, offset: 91454},
+																						pos:        position{line: 2901, col: 10, offset: 91483},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35107,28 +35325,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2922, col: 8, offset: 91852},
+																				pos: position{line: 2923, col: 8, offset: 91881},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2909, col: 12, offset: 91625},
+																						pos: position{line: 2910, col: 12, offset: 91654},
 																						run: (*parser).callonListContinuationElement1346,
 																						expr: &choiceExpr{
-																							pos: position{line: 2909, col: 13, offset: 91626},
+																							pos: position{line: 2910, col: 13, offset: 91655},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2909, col: 13, offset: 91626},
+																									pos:        position{line: 2910, col: 13, offset: 91655},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2909, col: 20, offset: 91633},
+																									pos:        position{line: 2910, col: 20, offset: 91662},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2909, col: 29, offset: 91642},
+																									pos:        position{line: 2910, col: 29, offset: 91671},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35137,9 +35355,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2919, col: 8, offset: 91802},
+																						pos: position{line: 2920, col: 8, offset: 91831},
 																						expr: &anyMatcher{
-																							line: 2919, col: 9, offset: 91803,
+																							line: 2920, col: 9, offset: 91832,
 																						},
 																					},
 																				},
@@ -35148,32 +35366,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2649, col: 5, offset: 84256},
+																	pos: position{line: 2650, col: 5, offset: 84285},
 																	run: (*parser).callonListContinuationElement1353,
 																	expr: &seqExpr{
-																		pos: position{line: 2649, col: 5, offset: 84256},
+																		pos: position{line: 2650, col: 5, offset: 84285},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2649, col: 5, offset: 84256},
+																				pos: position{line: 2650, col: 5, offset: 84285},
 																				expr: &choiceExpr{
-																					pos: position{line: 2646, col: 22, offset: 84217},
+																					pos: position{line: 2647, col: 22, offset: 84246},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2642, col: 19, offset: 84137},
+																							pos: position{line: 2643, col: 19, offset: 84166},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2642, col: 19, offset: 84137},
+																									pos:        position{line: 2643, col: 19, offset: 84166},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2642, col: 26, offset: 84144},
+																									pos: position{line: 2643, col: 26, offset: 84173},
 																									expr: &actionExpr{
-																										pos: position{line: 2900, col: 10, offset: 91454},
+																										pos: position{line: 2901, col: 10, offset: 91483},
 																										run: (*parser).callonListContinuationElement1360,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2900, col: 10, offset: 91454},
+																											pos:        position{line: 2901, col: 10, offset: 91483},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35182,28 +35400,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2922, col: 8, offset: 91852},
+																									pos: position{line: 2923, col: 8, offset: 91881},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2909, col: 12, offset: 91625},
+																											pos: position{line: 2910, col: 12, offset: 91654},
 																											run: (*parser).callonListContinuationElement1363,
 																											expr: &choiceExpr{
-																												pos: position{line: 2909, col: 13, offset: 91626},
+																												pos: position{line: 2910, col: 13, offset: 91655},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 13, offset: 91626},
+																														pos:        position{line: 2910, col: 13, offset: 91655},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 20, offset: 91633},
+																														pos:        position{line: 2910, col: 20, offset: 91662},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 29, offset: 91642},
+																														pos:        position{line: 2910, col: 29, offset: 91671},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35212,9 +35430,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2919, col: 8, offset: 91802},
+																											pos: position{line: 2920, col: 8, offset: 91831},
 																											expr: &anyMatcher{
-																												line: 2919, col: 9, offset: 91803,
+																												line: 2920, col: 9, offset: 91832,
 																											},
 																										},
 																									},
@@ -35222,59 +35440,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2919, col: 8, offset: 91802},
+																							pos: position{line: 2920, col: 8, offset: 91831},
 																							expr: &anyMatcher{
-																								line: 2919, col: 9, offset: 91803,
+																								line: 2920, col: 9, offset: 91832,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2650, col: 5, offset: 84279},
+																				pos:   position{line: 2651, col: 5, offset: 84308},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2651, col: 9, offset: 84297},
+																					pos: position{line: 2652, col: 9, offset: 84326},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2651, col: 10, offset: 84298},
+																							pos: position{line: 2652, col: 10, offset: 84327},
 																							run: (*parser).callonListContinuationElement1374,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2651, col: 10, offset: 84298},
+																								pos:   position{line: 2652, col: 10, offset: 84327},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2651, col: 17, offset: 84305},
+																									pos: position{line: 2652, col: 17, offset: 84334},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2659, col: 21, offset: 84501},
+																											pos: position{line: 2660, col: 21, offset: 84530},
 																											run: (*parser).callonListContinuationElement1377,
 																											expr: &seqExpr{
-																												pos: position{line: 2659, col: 21, offset: 84501},
+																												pos: position{line: 2660, col: 21, offset: 84530},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2659, col: 21, offset: 84501},
+																														pos:   position{line: 2660, col: 21, offset: 84530},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2659, col: 27, offset: 84507},
+																															pos: position{line: 2660, col: 27, offset: 84536},
 																															expr: &actionExpr{
-																																pos: position{line: 2664, col: 5, offset: 84582},
+																																pos: position{line: 2665, col: 5, offset: 84611},
 																																run: (*parser).callonListContinuationElement1381,
 																																expr: &seqExpr{
-																																	pos: position{line: 2664, col: 5, offset: 84582},
+																																	pos: position{line: 2665, col: 5, offset: 84611},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2664, col: 5, offset: 84582},
+																																			pos:        position{line: 2665, col: 5, offset: 84611},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2664, col: 9, offset: 84586},
+																																			pos: position{line: 2665, col: 9, offset: 84615},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2900, col: 10, offset: 91454},
+																																				pos: position{line: 2901, col: 10, offset: 91483},
 																																				run: (*parser).callonListContinuationElement1385,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2900, col: 10, offset: 91454},
+																																					pos:        position{line: 2901, col: 10, offset: 91483},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -35283,21 +35501,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2664, col: 16, offset: 84593},
+																																			pos:   position{line: 2665, col: 16, offset: 84622},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2670, col: 5, offset: 84793},
+																																				pos: position{line: 2671, col: 5, offset: 84822},
 																																				run: (*parser).callonListContinuationElement1388,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2670, col: 5, offset: 84793},
+																																					pos:   position{line: 2671, col: 5, offset: 84822},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2670, col: 14, offset: 84802},
+																																						pos: position{line: 2671, col: 14, offset: 84831},
 																																						run: (*parser).callonListContinuationElement1390,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2670, col: 14, offset: 84802},
+																																							pos: position{line: 2671, col: 14, offset: 84831},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2670, col: 14, offset: 84802},
+																																								pos:        position{line: 2671, col: 14, offset: 84831},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -35314,28 +35532,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2922, col: 8, offset: 91852},
+																														pos: position{line: 2923, col: 8, offset: 91881},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2909, col: 12, offset: 91625},
+																																pos: position{line: 2910, col: 12, offset: 91654},
 																																run: (*parser).callonListContinuationElement1394,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2909, col: 13, offset: 91626},
+																																	pos: position{line: 2910, col: 13, offset: 91655},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2909, col: 13, offset: 91626},
+																																			pos:        position{line: 2910, col: 13, offset: 91655},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2909, col: 20, offset: 91633},
+																																			pos:        position{line: 2910, col: 20, offset: 91662},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2909, col: 29, offset: 91642},
+																																			pos:        position{line: 2910, col: 29, offset: 91671},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -35344,9 +35562,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2919, col: 8, offset: 91802},
+																																pos: position{line: 2920, col: 8, offset: 91831},
 																																expr: &anyMatcher{
-																																	line: 2919, col: 9, offset: 91803,
+																																	line: 2920, col: 9, offset: 91832,
 																																},
 																															},
 																														},
@@ -35355,40 +35573,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2676, col: 24, offset: 84938},
+																											pos: position{line: 2677, col: 24, offset: 84967},
 																											run: (*parser).callonListContinuationElement1401,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2676, col: 24, offset: 84938},
+																												pos:   position{line: 2677, col: 24, offset: 84967},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2676, col: 30, offset: 84944},
+																													pos: position{line: 2677, col: 30, offset: 84973},
 																													expr: &actionExpr{
-																														pos: position{line: 2681, col: 5, offset: 85020},
+																														pos: position{line: 2682, col: 5, offset: 85049},
 																														run: (*parser).callonListContinuationElement1404,
 																														expr: &seqExpr{
-																															pos: position{line: 2681, col: 5, offset: 85020},
+																															pos: position{line: 2682, col: 5, offset: 85049},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2681, col: 5, offset: 85020},
+																																	pos: position{line: 2682, col: 5, offset: 85049},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2646, col: 22, offset: 84217},
+																																		pos: position{line: 2647, col: 22, offset: 84246},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2642, col: 19, offset: 84137},
+																																				pos: position{line: 2643, col: 19, offset: 84166},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2642, col: 19, offset: 84137},
+																																						pos:        position{line: 2643, col: 19, offset: 84166},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2642, col: 26, offset: 84144},
+																																						pos: position{line: 2643, col: 26, offset: 84173},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2900, col: 10, offset: 91454},
+																																							pos: position{line: 2901, col: 10, offset: 91483},
 																																							run: (*parser).callonListContinuationElement1411,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2900, col: 10, offset: 91454},
+																																								pos:        position{line: 2901, col: 10, offset: 91483},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -35397,28 +35615,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2922, col: 8, offset: 91852},
+																																						pos: position{line: 2923, col: 8, offset: 91881},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2909, col: 12, offset: 91625},
+																																								pos: position{line: 2910, col: 12, offset: 91654},
 																																								run: (*parser).callonListContinuationElement1414,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2909, col: 13, offset: 91626},
+																																									pos: position{line: 2910, col: 13, offset: 91655},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2909, col: 13, offset: 91626},
+																																											pos:        position{line: 2910, col: 13, offset: 91655},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2909, col: 20, offset: 91633},
+																																											pos:        position{line: 2910, col: 20, offset: 91662},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2909, col: 29, offset: 91642},
+																																											pos:        position{line: 2910, col: 29, offset: 91671},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -35427,9 +35645,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2919, col: 8, offset: 91802},
+																																								pos: position{line: 2920, col: 8, offset: 91831},
 																																								expr: &anyMatcher{
-																																									line: 2919, col: 9, offset: 91803,
+																																									line: 2920, col: 9, offset: 91832,
 																																								},
 																																							},
 																																						},
@@ -35437,35 +35655,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2919, col: 8, offset: 91802},
+																																				pos: position{line: 2920, col: 8, offset: 91831},
 																																				expr: &anyMatcher{
-																																					line: 2919, col: 9, offset: 91803,
+																																					line: 2920, col: 9, offset: 91832,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2682, col: 5, offset: 85043},
+																																	pos: position{line: 2683, col: 5, offset: 85072},
 																																	expr: &actionExpr{
-																																		pos: position{line: 677, col: 14, offset: 21489},
+																																		pos: position{line: 678, col: 14, offset: 21518},
 																																		run: (*parser).callonListContinuationElement1424,
 																																		expr: &seqExpr{
-																																			pos: position{line: 677, col: 14, offset: 21489},
+																																			pos: position{line: 678, col: 14, offset: 21518},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2917, col: 11, offset: 91788},
+																																					pos: position{line: 2918, col: 11, offset: 91817},
 																																					expr: &anyMatcher{
-																																						line: 2917, col: 13, offset: 91790,
+																																						line: 2918, col: 13, offset: 91819,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 677, col: 21, offset: 21496},
+																																					pos: position{line: 678, col: 21, offset: 21525},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2900, col: 10, offset: 91454},
+																																						pos: position{line: 2901, col: 10, offset: 91483},
 																																						run: (*parser).callonListContinuationElement1429,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2900, col: 10, offset: 91454},
+																																							pos:        position{line: 2901, col: 10, offset: 91483},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -35474,28 +35692,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2922, col: 8, offset: 91852},
+																																					pos: position{line: 2923, col: 8, offset: 91881},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2909, col: 12, offset: 91625},
+																																							pos: position{line: 2910, col: 12, offset: 91654},
 																																							run: (*parser).callonListContinuationElement1432,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2909, col: 13, offset: 91626},
+																																								pos: position{line: 2910, col: 13, offset: 91655},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2909, col: 13, offset: 91626},
+																																										pos:        position{line: 2910, col: 13, offset: 91655},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2909, col: 20, offset: 91633},
+																																										pos:        position{line: 2910, col: 20, offset: 91662},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2909, col: 29, offset: 91642},
+																																										pos:        position{line: 2910, col: 29, offset: 91671},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -35504,9 +35722,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2919, col: 8, offset: 91802},
+																																							pos: position{line: 2920, col: 8, offset: 91831},
 																																							expr: &anyMatcher{
-																																								line: 2919, col: 9, offset: 91803,
+																																								line: 2920, col: 9, offset: 91832,
 																																							},
 																																						},
 																																					},
@@ -35516,17 +35734,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2683, col: 5, offset: 85058},
+																																	pos:   position{line: 2684, col: 5, offset: 85087},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2683, col: 12, offset: 85065},
+																																		pos: position{line: 2684, col: 12, offset: 85094},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2700, col: 20, offset: 85529},
+																																			pos: position{line: 2701, col: 20, offset: 85558},
 																																			run: (*parser).callonListContinuationElement1441,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2700, col: 20, offset: 85529},
+																																				pos: position{line: 2701, col: 20, offset: 85558},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2700, col: 20, offset: 85529},
+																																					pos:        position{line: 2701, col: 20, offset: 85558},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -35537,18 +35755,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2683, col: 31, offset: 85084},
+																																	pos:        position{line: 2684, col: 31, offset: 85113},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2683, col: 35, offset: 85088},
+																																	pos: position{line: 2684, col: 35, offset: 85117},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2900, col: 10, offset: 91454},
+																																		pos: position{line: 2901, col: 10, offset: 91483},
 																																		run: (*parser).callonListContinuationElement1446,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2900, col: 10, offset: 91454},
+																																			pos:        position{line: 2901, col: 10, offset: 91483},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -35557,27 +35775,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2683, col: 42, offset: 85095},
+																																	pos: position{line: 2684, col: 42, offset: 85124},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2909, col: 12, offset: 91625},
+																																		pos: position{line: 2910, col: 12, offset: 91654},
 																																		run: (*parser).callonListContinuationElement1449,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2909, col: 13, offset: 91626},
+																																			pos: position{line: 2910, col: 13, offset: 91655},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2909, col: 13, offset: 91626},
+																																					pos:        position{line: 2910, col: 13, offset: 91655},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2909, col: 20, offset: 91633},
+																																					pos:        position{line: 2910, col: 20, offset: 91662},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2909, col: 29, offset: 91642},
+																																					pos:        position{line: 2910, col: 29, offset: 91671},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -35587,37 +35805,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2683, col: 51, offset: 85104},
+																																	pos:   position{line: 2684, col: 51, offset: 85133},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2689, col: 5, offset: 85263},
+																																		pos: position{line: 2690, col: 5, offset: 85292},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2690, col: 9, offset: 85273},
+																																			pos: position{line: 2691, col: 9, offset: 85302},
 																																			run: (*parser).callonListContinuationElement1456,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2690, col: 9, offset: 85273},
+																																				pos: position{line: 2691, col: 9, offset: 85302},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2690, col: 9, offset: 85273},
+																																						pos: position{line: 2691, col: 9, offset: 85302},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2646, col: 22, offset: 84217},
+																																							pos: position{line: 2647, col: 22, offset: 84246},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2642, col: 19, offset: 84137},
+																																									pos: position{line: 2643, col: 19, offset: 84166},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2642, col: 19, offset: 84137},
+																																											pos:        position{line: 2643, col: 19, offset: 84166},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2642, col: 26, offset: 84144},
+																																											pos: position{line: 2643, col: 26, offset: 84173},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2900, col: 10, offset: 91454},
+																																												pos: position{line: 2901, col: 10, offset: 91483},
 																																												run: (*parser).callonListContinuationElement1463,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2900, col: 10, offset: 91454},
+																																													pos:        position{line: 2901, col: 10, offset: 91483},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -35626,28 +35844,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2922, col: 8, offset: 91852},
+																																											pos: position{line: 2923, col: 8, offset: 91881},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2909, col: 12, offset: 91625},
+																																													pos: position{line: 2910, col: 12, offset: 91654},
 																																													run: (*parser).callonListContinuationElement1466,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2909, col: 13, offset: 91626},
+																																														pos: position{line: 2910, col: 13, offset: 91655},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2909, col: 13, offset: 91626},
+																																																pos:        position{line: 2910, col: 13, offset: 91655},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2909, col: 20, offset: 91633},
+																																																pos:        position{line: 2910, col: 20, offset: 91662},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2909, col: 29, offset: 91642},
+																																																pos:        position{line: 2910, col: 29, offset: 91671},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -35656,9 +35874,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2919, col: 8, offset: 91802},
+																																													pos: position{line: 2920, col: 8, offset: 91831},
 																																													expr: &anyMatcher{
-																																														line: 2919, col: 9, offset: 91803,
+																																														line: 2920, col: 9, offset: 91832,
 																																													},
 																																												},
 																																											},
@@ -35666,35 +35884,35 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2919, col: 8, offset: 91802},
+																																									pos: position{line: 2920, col: 8, offset: 91831},
 																																									expr: &anyMatcher{
-																																										line: 2919, col: 9, offset: 91803,
+																																										line: 2920, col: 9, offset: 91832,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2691, col: 9, offset: 85300},
+																																						pos: position{line: 2692, col: 9, offset: 85329},
 																																						expr: &actionExpr{
-																																							pos: position{line: 677, col: 14, offset: 21489},
+																																							pos: position{line: 678, col: 14, offset: 21518},
 																																							run: (*parser).callonListContinuationElement1476,
 																																							expr: &seqExpr{
-																																								pos: position{line: 677, col: 14, offset: 21489},
+																																								pos: position{line: 678, col: 14, offset: 21518},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2917, col: 11, offset: 91788},
+																																										pos: position{line: 2918, col: 11, offset: 91817},
 																																										expr: &anyMatcher{
-																																											line: 2917, col: 13, offset: 91790,
+																																											line: 2918, col: 13, offset: 91819,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
-																																										pos: position{line: 677, col: 21, offset: 21496},
+																																										pos: position{line: 678, col: 21, offset: 21525},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2900, col: 10, offset: 91454},
+																																											pos: position{line: 2901, col: 10, offset: 91483},
 																																											run: (*parser).callonListContinuationElement1481,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2900, col: 10, offset: 91454},
+																																												pos:        position{line: 2901, col: 10, offset: 91483},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -35703,28 +35921,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2922, col: 8, offset: 91852},
+																																										pos: position{line: 2923, col: 8, offset: 91881},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2909, col: 12, offset: 91625},
+																																												pos: position{line: 2910, col: 12, offset: 91654},
 																																												run: (*parser).callonListContinuationElement1484,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2909, col: 13, offset: 91626},
+																																													pos: position{line: 2910, col: 13, offset: 91655},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2909, col: 13, offset: 91626},
+																																															pos:        position{line: 2910, col: 13, offset: 91655},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2909, col: 20, offset: 91633},
+																																															pos:        position{line: 2910, col: 20, offset: 91662},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2909, col: 29, offset: 91642},
+																																															pos:        position{line: 2910, col: 29, offset: 91671},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -35733,9 +35951,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2919, col: 8, offset: 91802},
+																																												pos: position{line: 2920, col: 8, offset: 91831},
 																																												expr: &anyMatcher{
-																																													line: 2919, col: 9, offset: 91803,
+																																													line: 2920, col: 9, offset: 91832,
 																																												},
 																																											},
 																																										},
@@ -35745,22 +35963,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2692, col: 9, offset: 85319},
+																																						pos: position{line: 2693, col: 9, offset: 85348},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2692, col: 11, offset: 85321},
+																																							pos: position{line: 2693, col: 11, offset: 85350},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2692, col: 11, offset: 85321},
+																																									pos:   position{line: 2693, col: 11, offset: 85350},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2692, col: 18, offset: 85328},
+																																										pos: position{line: 2693, col: 18, offset: 85357},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2700, col: 20, offset: 85529},
+																																											pos: position{line: 2701, col: 20, offset: 85558},
 																																											run: (*parser).callonListContinuationElement1495,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2700, col: 20, offset: 85529},
+																																												pos: position{line: 2701, col: 20, offset: 85558},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2700, col: 20, offset: 85529},
+																																													pos:        position{line: 2701, col: 20, offset: 85558},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -35771,7 +35989,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2692, col: 37, offset: 85347},
+																																									pos:        position{line: 2693, col: 37, offset: 85376},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -35780,15 +35998,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2693, col: 9, offset: 85360},
+																																						pos:   position{line: 2694, col: 9, offset: 85389},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2693, col: 18, offset: 85369},
+																																							pos: position{line: 2694, col: 18, offset: 85398},
 																																							run: (*parser).callonListContinuationElement1500,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2693, col: 18, offset: 85369},
+																																								pos: position{line: 2694, col: 18, offset: 85398},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2693, col: 18, offset: 85369},
+																																									pos:        position{line: 2694, col: 18, offset: 85398},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -35798,30 +36016,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2695, col: 12, offset: 85431},
+																																						pos: position{line: 2696, col: 12, offset: 85460},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2922, col: 8, offset: 91852},
+																																							pos: position{line: 2923, col: 8, offset: 91881},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2909, col: 12, offset: 91625},
+																																									pos: position{line: 2910, col: 12, offset: 91654},
 																																									run: (*parser).callonListContinuationElement1505,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2909, col: 13, offset: 91626},
+																																										pos: position{line: 2910, col: 13, offset: 91655},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2909, col: 13, offset: 91626},
+																																												pos:        position{line: 2910, col: 13, offset: 91655},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2909, col: 20, offset: 91633},
+																																												pos:        position{line: 2910, col: 20, offset: 91662},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2909, col: 29, offset: 91642},
+																																												pos:        position{line: 2910, col: 29, offset: 91671},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -35830,9 +36048,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2919, col: 8, offset: 91802},
+																																									pos: position{line: 2920, col: 8, offset: 91831},
 																																									expr: &anyMatcher{
-																																										line: 2919, col: 9, offset: 91803,
+																																										line: 2920, col: 9, offset: 91832,
 																																									},
 																																								},
 																																							},
@@ -35854,24 +36072,24 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 677, col: 14, offset: 21489},
+																							pos: position{line: 678, col: 14, offset: 21518},
 																							run: (*parser).callonListContinuationElement1512,
 																							expr: &seqExpr{
-																								pos: position{line: 677, col: 14, offset: 21489},
+																								pos: position{line: 678, col: 14, offset: 21518},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2917, col: 11, offset: 91788},
+																										pos: position{line: 2918, col: 11, offset: 91817},
 																										expr: &anyMatcher{
-																											line: 2917, col: 13, offset: 91790,
+																											line: 2918, col: 13, offset: 91819,
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 677, col: 21, offset: 21496},
+																										pos: position{line: 678, col: 21, offset: 21525},
 																										expr: &actionExpr{
-																											pos: position{line: 2900, col: 10, offset: 91454},
+																											pos: position{line: 2901, col: 10, offset: 91483},
 																											run: (*parser).callonListContinuationElement1517,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2900, col: 10, offset: 91454},
+																												pos:        position{line: 2901, col: 10, offset: 91483},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -35880,28 +36098,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2922, col: 8, offset: 91852},
+																										pos: position{line: 2923, col: 8, offset: 91881},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2909, col: 12, offset: 91625},
+																												pos: position{line: 2910, col: 12, offset: 91654},
 																												run: (*parser).callonListContinuationElement1520,
 																												expr: &choiceExpr{
-																													pos: position{line: 2909, col: 13, offset: 91626},
+																													pos: position{line: 2910, col: 13, offset: 91655},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2909, col: 13, offset: 91626},
+																															pos:        position{line: 2910, col: 13, offset: 91655},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2909, col: 20, offset: 91633},
+																															pos:        position{line: 2910, col: 20, offset: 91662},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2909, col: 29, offset: 91642},
+																															pos:        position{line: 2910, col: 29, offset: 91671},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -35910,9 +36128,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2919, col: 8, offset: 91802},
+																												pos: position{line: 2920, col: 8, offset: 91831},
 																												expr: &anyMatcher{
-																													line: 2919, col: 9, offset: 91803,
+																													line: 2920, col: 9, offset: 91832,
 																												},
 																											},
 																										},
@@ -35931,24 +36149,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2646, col: 22, offset: 84217},
+													pos: position{line: 2647, col: 22, offset: 84246},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2642, col: 19, offset: 84137},
+															pos: position{line: 2643, col: 19, offset: 84166},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2642, col: 19, offset: 84137},
+																	pos:        position{line: 2643, col: 19, offset: 84166},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2642, col: 26, offset: 84144},
+																	pos: position{line: 2643, col: 26, offset: 84173},
 																	expr: &actionExpr{
-																		pos: position{line: 2900, col: 10, offset: 91454},
+																		pos: position{line: 2901, col: 10, offset: 91483},
 																		run: (*parser).callonListContinuationElement1531,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 10, offset: 91454},
+																			pos:        position{line: 2901, col: 10, offset: 91483},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35957,28 +36175,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2922, col: 8, offset: 91852},
+																	pos: position{line: 2923, col: 8, offset: 91881},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 12, offset: 91625},
+																			pos: position{line: 2910, col: 12, offset: 91654},
 																			run: (*parser).callonListContinuationElement1534,
 																			expr: &choiceExpr{
-																				pos: position{line: 2909, col: 13, offset: 91626},
+																				pos: position{line: 2910, col: 13, offset: 91655},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 13, offset: 91626},
+																						pos:        position{line: 2910, col: 13, offset: 91655},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 20, offset: 91633},
+																						pos:        position{line: 2910, col: 20, offset: 91662},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 29, offset: 91642},
+																						pos:        position{line: 2910, col: 29, offset: 91671},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35987,9 +36205,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2919, col: 8, offset: 91802},
+																			pos: position{line: 2920, col: 8, offset: 91831},
 																			expr: &anyMatcher{
-																				line: 2919, col: 9, offset: 91803,
+																				line: 2920, col: 9, offset: 91832,
 																			},
 																		},
 																	},
@@ -35997,9 +36215,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2919, col: 8, offset: 91802},
+															pos: position{line: 2920, col: 8, offset: 91831},
 															expr: &anyMatcher{
-																line: 2919, col: 9, offset: 91803,
+																line: 2920, col: 9, offset: 91832,
 															},
 														},
 													},
@@ -36008,36 +36226,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2510, col: 22, offset: 80439},
+										pos: position{line: 2511, col: 22, offset: 80468},
 										run: (*parser).callonListContinuationElement1543,
 										expr: &seqExpr{
-											pos: position{line: 2510, col: 22, offset: 80439},
+											pos: position{line: 2511, col: 22, offset: 80468},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2515, col: 31, offset: 80660},
+													pos:        position{line: 2516, col: 31, offset: 80689},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2515, col: 36, offset: 80665},
+													pos: position{line: 2516, col: 36, offset: 80694},
 													expr: &litMatcher{
-														pos:        position{line: 2515, col: 37, offset: 80666},
+														pos:        position{line: 2516, col: 37, offset: 80695},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2510, col: 49, offset: 80466},
+													pos:   position{line: 2511, col: 49, offset: 80495},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2846, col: 13, offset: 89980},
+														pos: position{line: 2847, col: 13, offset: 90009},
 														run: (*parser).callonListContinuationElement1549,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2846, col: 13, offset: 89980},
+															pos: position{line: 2847, col: 13, offset: 90009},
 															expr: &charClassMatcher{
-																pos:        position{line: 2846, col: 13, offset: 89980},
+																pos:        position{line: 2847, col: 13, offset: 90009},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36047,28 +36265,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2922, col: 8, offset: 91852},
+													pos: position{line: 2923, col: 8, offset: 91881},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2909, col: 12, offset: 91625},
+															pos: position{line: 2910, col: 12, offset: 91654},
 															run: (*parser).callonListContinuationElement1553,
 															expr: &choiceExpr{
-																pos: position{line: 2909, col: 13, offset: 91626},
+																pos: position{line: 2910, col: 13, offset: 91655},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 13, offset: 91626},
+																		pos:        position{line: 2910, col: 13, offset: 91655},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 20, offset: 91633},
+																		pos:        position{line: 2910, col: 20, offset: 91662},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 29, offset: 91642},
+																		pos:        position{line: 2910, col: 29, offset: 91671},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36077,9 +36295,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2919, col: 8, offset: 91802},
+															pos: position{line: 2920, col: 8, offset: 91831},
 															expr: &anyMatcher{
-																line: 2919, col: 9, offset: 91803,
+																line: 2920, col: 9, offset: 91832,
 															},
 														},
 													},
@@ -36088,94 +36306,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1566, col: 5, offset: 50532},
+										pos: position{line: 1567, col: 5, offset: 50561},
 										run: (*parser).callonListContinuationElement1560,
 										expr: &seqExpr{
-											pos: position{line: 1566, col: 5, offset: 50532},
+											pos: position{line: 1567, col: 5, offset: 50561},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1566, col: 5, offset: 50532},
+													pos:   position{line: 1567, col: 5, offset: 50561},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1566, col: 11, offset: 50538},
+														pos: position{line: 1567, col: 11, offset: 50567},
 														expr: &actionExpr{
-															pos: position{line: 1730, col: 5, offset: 55855},
+															pos: position{line: 1731, col: 5, offset: 55884},
 															run: (*parser).callonListContinuationElement1564,
 															expr: &seqExpr{
-																pos: position{line: 1730, col: 5, offset: 55855},
+																pos: position{line: 1731, col: 5, offset: 55884},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1730, col: 5, offset: 55855},
+																		pos: position{line: 1731, col: 5, offset: 55884},
 																		run: (*parser).callonListContinuationElement1566,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1733, col: 5, offset: 55918},
+																		pos:   position{line: 1734, col: 5, offset: 55947},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1733, col: 12, offset: 55925},
+																			pos: position{line: 1734, col: 12, offset: 55954},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1733, col: 12, offset: 55925},
+																					pos: position{line: 1734, col: 12, offset: 55954},
 																					run: (*parser).callonListContinuationElement1569,
 																					expr: &litMatcher{
-																						pos:        position{line: 1733, col: 12, offset: 55925},
+																						pos:        position{line: 1734, col: 12, offset: 55954},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1735, col: 13, offset: 55981},
+																					pos: position{line: 1736, col: 13, offset: 56010},
 																					run: (*parser).callonListContinuationElement1571,
 																					expr: &litMatcher{
-																						pos:        position{line: 1735, col: 13, offset: 55981},
+																						pos:        position{line: 1736, col: 13, offset: 56010},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1737, col: 13, offset: 56039},
+																					pos: position{line: 1738, col: 13, offset: 56068},
 																					run: (*parser).callonListContinuationElement1573,
 																					expr: &litMatcher{
-																						pos:        position{line: 1737, col: 13, offset: 56039},
+																						pos:        position{line: 1738, col: 13, offset: 56068},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1739, col: 13, offset: 56107},
+																					pos: position{line: 1740, col: 13, offset: 56136},
 																					run: (*parser).callonListContinuationElement1575,
 																					expr: &litMatcher{
-																						pos:        position{line: 1739, col: 13, offset: 56107},
+																						pos:        position{line: 1740, col: 13, offset: 56136},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1741, col: 13, offset: 56171},
+																					pos: position{line: 1742, col: 13, offset: 56200},
 																					run: (*parser).callonListContinuationElement1577,
 																					expr: &litMatcher{
-																						pos:        position{line: 1741, col: 13, offset: 56171},
+																						pos:        position{line: 1742, col: 13, offset: 56200},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1743, col: 13, offset: 56235},
+																					pos: position{line: 1744, col: 13, offset: 56264},
 																					run: (*parser).callonListContinuationElement1579,
 																					expr: &andExpr{
-																						pos: position{line: 1743, col: 13, offset: 56235},
+																						pos: position{line: 1744, col: 13, offset: 56264},
 																						expr: &actionExpr{
-																							pos: position{line: 2904, col: 11, offset: 91515},
+																							pos: position{line: 2905, col: 11, offset: 91544},
 																							run: (*parser).callonListContinuationElement1581,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2904, col: 11, offset: 91515},
+																								pos: position{line: 2905, col: 11, offset: 91544},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2904, col: 11, offset: 91515},
+																									pos:        position{line: 2905, col: 11, offset: 91544},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36194,35 +36412,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1567, col: 5, offset: 50561},
+													pos:   position{line: 1568, col: 5, offset: 50590},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1510, col: 5, offset: 48911},
+														pos: position{line: 1511, col: 5, offset: 48940},
 														run: (*parser).callonListContinuationElement1585,
 														expr: &seqExpr{
-															pos: position{line: 1510, col: 5, offset: 48911},
+															pos: position{line: 1511, col: 5, offset: 48940},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1510, col: 5, offset: 48911},
+																	pos: position{line: 1511, col: 5, offset: 48940},
 																	expr: &actionExpr{
-																		pos: position{line: 677, col: 14, offset: 21489},
+																		pos: position{line: 678, col: 14, offset: 21518},
 																		run: (*parser).callonListContinuationElement1588,
 																		expr: &seqExpr{
-																			pos: position{line: 677, col: 14, offset: 21489},
+																			pos: position{line: 678, col: 14, offset: 21518},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2917, col: 11, offset: 91788},
+																					pos: position{line: 2918, col: 11, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2917, col: 13, offset: 91790,
+																						line: 2918, col: 13, offset: 91819,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 677, col: 21, offset: 21496},
+																					pos: position{line: 678, col: 21, offset: 21525},
 																					expr: &actionExpr{
-																						pos: position{line: 2900, col: 10, offset: 91454},
+																						pos: position{line: 2901, col: 10, offset: 91483},
 																						run: (*parser).callonListContinuationElement1593,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2900, col: 10, offset: 91454},
+																							pos:        position{line: 2901, col: 10, offset: 91483},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36231,28 +36449,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2922, col: 8, offset: 91852},
+																					pos: position{line: 2923, col: 8, offset: 91881},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2909, col: 12, offset: 91625},
+																							pos: position{line: 2910, col: 12, offset: 91654},
 																							run: (*parser).callonListContinuationElement1596,
 																							expr: &choiceExpr{
-																								pos: position{line: 2909, col: 13, offset: 91626},
+																								pos: position{line: 2910, col: 13, offset: 91655},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 13, offset: 91626},
+																										pos:        position{line: 2910, col: 13, offset: 91655},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 20, offset: 91633},
+																										pos:        position{line: 2910, col: 20, offset: 91662},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 29, offset: 91642},
+																										pos:        position{line: 2910, col: 29, offset: 91671},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36261,9 +36479,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2919, col: 8, offset: 91802},
+																							pos: position{line: 2920, col: 8, offset: 91831},
 																							expr: &anyMatcher{
-																								line: 2919, col: 9, offset: 91803,
+																								line: 2920, col: 9, offset: 91832,
 																							},
 																						},
 																					},
@@ -36273,23 +36491,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1511, col: 5, offset: 48926},
+																	pos: position{line: 1512, col: 5, offset: 48955},
 																	expr: &seqExpr{
-																		pos: position{line: 1541, col: 27, offset: 49752},
+																		pos: position{line: 1542, col: 27, offset: 49781},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1541, col: 27, offset: 49752},
+																				pos:        position{line: 1542, col: 27, offset: 49781},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1541, col: 31, offset: 49756},
+																				pos: position{line: 1542, col: 31, offset: 49785},
 																				expr: &actionExpr{
-																					pos: position{line: 2900, col: 10, offset: 91454},
+																					pos: position{line: 2901, col: 10, offset: 91483},
 																					run: (*parser).callonListContinuationElement1607,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2900, col: 10, offset: 91454},
+																						pos:        position{line: 2901, col: 10, offset: 91483},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36298,25 +36516,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2909, col: 12, offset: 91625},
+																				pos: position{line: 2910, col: 12, offset: 91654},
 																				run: (*parser).callonListContinuationElement1609,
 																				expr: &choiceExpr{
-																					pos: position{line: 2909, col: 13, offset: 91626},
+																					pos: position{line: 2910, col: 13, offset: 91655},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 13, offset: 91626},
+																							pos:        position{line: 2910, col: 13, offset: 91655},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 20, offset: 91633},
+																							pos:        position{line: 2910, col: 20, offset: 91662},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 29, offset: 91642},
+																							pos:        position{line: 2910, col: 29, offset: 91671},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -36328,20 +36546,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1512, col: 5, offset: 48954},
+																	pos: position{line: 1513, col: 5, offset: 48983},
 																	expr: &actionExpr{
-																		pos: position{line: 1582, col: 5, offset: 50971},
+																		pos: position{line: 1583, col: 5, offset: 51000},
 																		run: (*parser).callonListContinuationElement1615,
 																		expr: &seqExpr{
-																			pos: position{line: 1582, col: 5, offset: 50971},
+																			pos: position{line: 1583, col: 5, offset: 51000},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1582, col: 5, offset: 50971},
+																					pos: position{line: 1583, col: 5, offset: 51000},
 																					expr: &actionExpr{
-																						pos: position{line: 2900, col: 10, offset: 91454},
+																						pos: position{line: 2901, col: 10, offset: 91483},
 																						run: (*parser).callonListContinuationElement1618,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2900, col: 10, offset: 91454},
+																							pos:        position{line: 2901, col: 10, offset: 91483},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36350,27 +36568,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1582, col: 12, offset: 50978},
+																					pos:   position{line: 1583, col: 12, offset: 51007},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1584, col: 9, offset: 51041},
+																						pos: position{line: 1585, col: 9, offset: 51070},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1584, col: 9, offset: 51041},
+																								pos: position{line: 1585, col: 9, offset: 51070},
 																								run: (*parser).callonListContinuationElement1622,
 																								expr: &seqExpr{
-																									pos: position{line: 1584, col: 9, offset: 51041},
+																									pos: position{line: 1585, col: 9, offset: 51070},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1584, col: 9, offset: 51041},
+																											pos:   position{line: 1585, col: 9, offset: 51070},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1584, col: 16, offset: 51048},
+																												pos: position{line: 1585, col: 16, offset: 51077},
 																												run: (*parser).callonListContinuationElement1625,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1584, col: 16, offset: 51048},
+																													pos: position{line: 1585, col: 16, offset: 51077},
 																													expr: &litMatcher{
-																														pos:        position{line: 1584, col: 17, offset: 51049},
+																														pos:        position{line: 1585, col: 17, offset: 51078},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -36379,22 +36597,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1588, col: 9, offset: 51149},
+																											pos: position{line: 1589, col: 9, offset: 51178},
 																											run: (*parser).callonListContinuationElement1628,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1607, col: 11, offset: 51866},
+																								pos: position{line: 1608, col: 11, offset: 51895},
 																								run: (*parser).callonListContinuationElement1629,
 																								expr: &seqExpr{
-																									pos: position{line: 1607, col: 11, offset: 51866},
+																									pos: position{line: 1608, col: 11, offset: 51895},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1607, col: 11, offset: 51866},
+																											pos: position{line: 1608, col: 11, offset: 51895},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1607, col: 12, offset: 51867},
+																												pos:        position{line: 1608, col: 12, offset: 51896},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -36402,7 +36620,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1607, col: 20, offset: 51875},
+																											pos:        position{line: 1608, col: 20, offset: 51904},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36411,20 +36629,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1609, col: 13, offset: 51992},
+																								pos: position{line: 1610, col: 13, offset: 52021},
 																								run: (*parser).callonListContinuationElement1634,
 																								expr: &seqExpr{
-																									pos: position{line: 1609, col: 13, offset: 51992},
+																									pos: position{line: 1610, col: 13, offset: 52021},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1609, col: 14, offset: 51993},
+																											pos:        position{line: 1610, col: 14, offset: 52022},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1609, col: 21, offset: 52000},
+																											pos:        position{line: 1610, col: 21, offset: 52029},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36433,20 +36651,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1611, col: 13, offset: 52120},
+																								pos: position{line: 1612, col: 13, offset: 52149},
 																								run: (*parser).callonListContinuationElement1638,
 																								expr: &seqExpr{
-																									pos: position{line: 1611, col: 13, offset: 52120},
+																									pos: position{line: 1612, col: 13, offset: 52149},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1611, col: 14, offset: 52121},
+																											pos:        position{line: 1612, col: 14, offset: 52150},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1611, col: 21, offset: 52128},
+																											pos:        position{line: 1612, col: 21, offset: 52157},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36455,15 +36673,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1613, col: 13, offset: 52248},
+																								pos: position{line: 1614, col: 13, offset: 52277},
 																								run: (*parser).callonListContinuationElement1642,
 																								expr: &seqExpr{
-																									pos: position{line: 1613, col: 13, offset: 52248},
+																									pos: position{line: 1614, col: 13, offset: 52277},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1613, col: 13, offset: 52248},
+																											pos: position{line: 1614, col: 13, offset: 52277},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1613, col: 14, offset: 52249},
+																												pos:        position{line: 1614, col: 14, offset: 52278},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -36471,7 +36689,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1613, col: 26, offset: 52261},
+																											pos:        position{line: 1614, col: 26, offset: 52290},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -36480,15 +36698,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1615, col: 13, offset: 52381},
+																								pos: position{line: 1616, col: 13, offset: 52410},
 																								run: (*parser).callonListContinuationElement1647,
 																								expr: &seqExpr{
-																									pos: position{line: 1615, col: 13, offset: 52381},
+																									pos: position{line: 1616, col: 13, offset: 52410},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1615, col: 13, offset: 52381},
+																											pos: position{line: 1616, col: 13, offset: 52410},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1615, col: 14, offset: 52382},
+																												pos:        position{line: 1616, col: 14, offset: 52411},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -36496,7 +36714,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1615, col: 26, offset: 52394},
+																											pos:        position{line: 1616, col: 26, offset: 52423},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -36508,12 +36726,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2904, col: 11, offset: 91515},
+																					pos: position{line: 2905, col: 11, offset: 91544},
 																					run: (*parser).callonListContinuationElement1652,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2904, col: 11, offset: 91515},
+																						pos: position{line: 2905, col: 11, offset: 91544},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2904, col: 11, offset: 91515},
+																							pos:        position{line: 2905, col: 11, offset: 91544},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36526,20 +36744,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1513, col: 5, offset: 48984},
+																	pos: position{line: 1514, col: 5, offset: 49013},
 																	expr: &actionExpr{
-																		pos: position{line: 1632, col: 5, offset: 52933},
+																		pos: position{line: 1633, col: 5, offset: 52962},
 																		run: (*parser).callonListContinuationElement1656,
 																		expr: &seqExpr{
-																			pos: position{line: 1632, col: 5, offset: 52933},
+																			pos: position{line: 1633, col: 5, offset: 52962},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1632, col: 5, offset: 52933},
+																					pos: position{line: 1633, col: 5, offset: 52962},
 																					expr: &actionExpr{
-																						pos: position{line: 2900, col: 10, offset: 91454},
+																						pos: position{line: 2901, col: 10, offset: 91483},
 																						run: (*parser).callonListContinuationElement1659,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2900, col: 10, offset: 91454},
+																							pos:        position{line: 2901, col: 10, offset: 91483},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36548,24 +36766,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1633, col: 5, offset: 52945},
+																					pos:   position{line: 1634, col: 5, offset: 52974},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1634, col: 9, offset: 52961},
+																						pos: position{line: 1635, col: 9, offset: 52990},
 																						run: (*parser).callonListContinuationElement1662,
 																						expr: &choiceExpr{
-																							pos: position{line: 1634, col: 10, offset: 52962},
+																							pos: position{line: 1635, col: 10, offset: 52991},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1634, col: 11, offset: 52963},
+																									pos:        position{line: 1635, col: 11, offset: 52992},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1634, col: 18, offset: 52970},
+																									pos: position{line: 1635, col: 18, offset: 52999},
 																									expr: &litMatcher{
-																										pos:        position{line: 1634, col: 19, offset: 52971},
+																										pos:        position{line: 1635, col: 19, offset: 53000},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -36576,16 +36794,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1637, col: 7, offset: 53061},
+																					pos: position{line: 1638, col: 7, offset: 53090},
 																					run: (*parser).callonListContinuationElement1667,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2904, col: 11, offset: 91515},
+																					pos: position{line: 2905, col: 11, offset: 91544},
 																					run: (*parser).callonListContinuationElement1668,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2904, col: 11, offset: 91515},
+																						pos: position{line: 2905, col: 11, offset: 91544},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2904, col: 11, offset: 91515},
+																							pos:        position{line: 2905, col: 11, offset: 91544},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36598,29 +36816,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1514, col: 5, offset: 49016},
+																	pos: position{line: 1515, col: 5, offset: 49045},
 																	expr: &actionExpr{
-																		pos: position{line: 1721, col: 5, offset: 55470},
+																		pos: position{line: 1722, col: 5, offset: 55499},
 																		run: (*parser).callonListContinuationElement1672,
 																		expr: &seqExpr{
-																			pos: position{line: 1721, col: 5, offset: 55470},
+																			pos: position{line: 1722, col: 5, offset: 55499},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1721, col: 5, offset: 55470},
+																					pos:        position{line: 1722, col: 5, offset: 55499},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1721, col: 9, offset: 55474},
+																					pos:   position{line: 1722, col: 9, offset: 55503},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1721, col: 14, offset: 55479},
+																						pos: position{line: 1722, col: 14, offset: 55508},
 																						run: (*parser).callonListContinuationElement1676,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1721, col: 14, offset: 55479},
+																							pos: position{line: 1722, col: 14, offset: 55508},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1721, col: 14, offset: 55479},
+																								pos:        position{line: 1722, col: 14, offset: 55508},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -36630,18 +36848,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1721, col: 62, offset: 55527},
+																					pos:        position{line: 1722, col: 62, offset: 55556},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2904, col: 11, offset: 91515},
+																					pos: position{line: 2905, col: 11, offset: 91544},
 																					run: (*parser).callonListContinuationElement1680,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2904, col: 11, offset: 91515},
+																						pos: position{line: 2905, col: 11, offset: 91544},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2904, col: 11, offset: 91515},
+																							pos:        position{line: 2905, col: 11, offset: 91544},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36654,36 +36872,36 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1515, col: 5, offset: 49046},
+																	pos: position{line: 1516, col: 5, offset: 49075},
 																	expr: &seqExpr{
-																		pos: position{line: 1515, col: 7, offset: 49048},
+																		pos: position{line: 1516, col: 7, offset: 49077},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1667, col: 5, offset: 53952},
+																				pos: position{line: 1668, col: 5, offset: 53981},
 																				run: (*parser).callonListContinuationElement1685,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1667, col: 5, offset: 53952},
+																					pos: position{line: 1668, col: 5, offset: 53981},
 																					expr: &seqExpr{
-																						pos: position{line: 1667, col: 6, offset: 53953},
+																						pos: position{line: 1668, col: 6, offset: 53982},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1667, col: 6, offset: 53953},
+																								pos: position{line: 1668, col: 6, offset: 53982},
 																								expr: &actionExpr{
-																									pos: position{line: 1672, col: 5, offset: 54103},
+																									pos: position{line: 1673, col: 5, offset: 54132},
 																									run: (*parser).callonListContinuationElement1689,
 																									expr: &seqExpr{
-																										pos: position{line: 1672, col: 5, offset: 54103},
+																										pos: position{line: 1673, col: 5, offset: 54132},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1672, col: 5, offset: 54103},
+																												pos:   position{line: 1673, col: 5, offset: 54132},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1672, col: 16, offset: 54114},
+																													pos: position{line: 1673, col: 16, offset: 54143},
 																													run: (*parser).callonListContinuationElement1692,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1672, col: 16, offset: 54114},
+																														pos: position{line: 1673, col: 16, offset: 54143},
 																														expr: &litMatcher{
-																															pos:        position{line: 1672, col: 17, offset: 54115},
+																															pos:        position{line: 1673, col: 17, offset: 54144},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -36692,7 +36910,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1675, col: 5, offset: 54172},
+																												pos: position{line: 1676, col: 5, offset: 54201},
 																												run: (*parser).callonListContinuationElement1695,
 																											},
 																										},
@@ -36700,30 +36918,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1667, col: 35, offset: 53982},
+																								pos: position{line: 1668, col: 35, offset: 54011},
 																								expr: &choiceExpr{
-																									pos: position{line: 2922, col: 8, offset: 91852},
+																									pos: position{line: 2923, col: 8, offset: 91881},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2909, col: 12, offset: 91625},
+																											pos: position{line: 2910, col: 12, offset: 91654},
 																											run: (*parser).callonListContinuationElement1698,
 																											expr: &choiceExpr{
-																												pos: position{line: 2909, col: 13, offset: 91626},
+																												pos: position{line: 2910, col: 13, offset: 91655},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 13, offset: 91626},
+																														pos:        position{line: 2910, col: 13, offset: 91655},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 20, offset: 91633},
+																														pos:        position{line: 2910, col: 20, offset: 91662},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2909, col: 29, offset: 91642},
+																														pos:        position{line: 2910, col: 29, offset: 91671},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36732,37 +36950,37 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2919, col: 8, offset: 91802},
+																											pos: position{line: 2920, col: 8, offset: 91831},
 																											expr: &anyMatcher{
-																												line: 2919, col: 9, offset: 91803,
+																												line: 2920, col: 9, offset: 91832,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1667, col: 40, offset: 53987,
+																								line: 1668, col: 40, offset: 54016,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1672, col: 5, offset: 54103},
+																				pos: position{line: 1673, col: 5, offset: 54132},
 																				run: (*parser).callonListContinuationElement1706,
 																				expr: &seqExpr{
-																					pos: position{line: 1672, col: 5, offset: 54103},
+																					pos: position{line: 1673, col: 5, offset: 54132},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1672, col: 5, offset: 54103},
+																							pos:   position{line: 1673, col: 5, offset: 54132},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1672, col: 16, offset: 54114},
+																								pos: position{line: 1673, col: 16, offset: 54143},
 																								run: (*parser).callonListContinuationElement1709,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1672, col: 16, offset: 54114},
+																									pos: position{line: 1673, col: 16, offset: 54143},
 																									expr: &litMatcher{
-																										pos:        position{line: 1672, col: 17, offset: 54115},
+																										pos:        position{line: 1673, col: 17, offset: 54144},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -36771,7 +36989,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1675, col: 5, offset: 54172},
+																							pos: position{line: 1676, col: 5, offset: 54201},
 																							run: (*parser).callonListContinuationElement1712,
 																						},
 																					},
@@ -36781,17 +36999,17 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1516, col: 5, offset: 49104},
+																	pos: position{line: 1517, col: 5, offset: 49133},
 																	expr: &actionExpr{
-																		pos: position{line: 724, col: 5, offset: 23042},
+																		pos: position{line: 725, col: 5, offset: 23071},
 																		run: (*parser).callonListContinuationElement1714,
 																		expr: &seqExpr{
-																			pos: position{line: 724, col: 5, offset: 23042},
+																			pos: position{line: 725, col: 5, offset: 23071},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 724, col: 5, offset: 23042},
+																					pos: position{line: 725, col: 5, offset: 23071},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2790, col: 13, offset: 88549},
+																						pos:        position{line: 2791, col: 13, offset: 88578},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -36799,36 +37017,36 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 725, col: 5, offset: 23072},
+																					pos:   position{line: 726, col: 5, offset: 23101},
 																					label: "delimiter",
 																					expr: &choiceExpr{
-																						pos: position{line: 726, col: 9, offset: 23092},
+																						pos: position{line: 727, col: 9, offset: 23121},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 740, col: 5, offset: 23584},
+																								pos: position{line: 741, col: 5, offset: 23613},
 																								run: (*parser).callonListContinuationElement1720,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 5, offset: 23584},
+																									pos: position{line: 741, col: 5, offset: 23613},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 740, col: 5, offset: 23584},
+																											pos:   position{line: 741, col: 5, offset: 23613},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 740, col: 16, offset: 23595},
+																												pos: position{line: 741, col: 16, offset: 23624},
 																												run: (*parser).callonListContinuationElement1723,
 																												expr: &seqExpr{
-																													pos: position{line: 740, col: 16, offset: 23595},
+																													pos: position{line: 741, col: 16, offset: 23624},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 740, col: 16, offset: 23595},
+																															pos:        position{line: 741, col: 16, offset: 23624},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 740, col: 23, offset: 23602},
+																															pos: position{line: 741, col: 23, offset: 23631},
 																															expr: &litMatcher{
-																																pos:        position{line: 740, col: 23, offset: 23602},
+																																pos:        position{line: 741, col: 23, offset: 23631},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -36839,12 +37057,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 742, col: 8, offset: 23686},
+																											pos: position{line: 743, col: 8, offset: 23715},
 																											expr: &actionExpr{
-																												pos: position{line: 2900, col: 10, offset: 91454},
+																												pos: position{line: 2901, col: 10, offset: 91483},
 																												run: (*parser).callonListContinuationElement1729,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2900, col: 10, offset: 91454},
+																													pos:        position{line: 2901, col: 10, offset: 91483},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36853,28 +37071,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2922, col: 8, offset: 91852},
+																											pos: position{line: 2923, col: 8, offset: 91881},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2909, col: 12, offset: 91625},
+																													pos: position{line: 2910, col: 12, offset: 91654},
 																													run: (*parser).callonListContinuationElement1732,
 																													expr: &choiceExpr{
-																														pos: position{line: 2909, col: 13, offset: 91626},
+																														pos: position{line: 2910, col: 13, offset: 91655},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 13, offset: 91626},
+																																pos:        position{line: 2910, col: 13, offset: 91655},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 20, offset: 91633},
+																																pos:        position{line: 2910, col: 20, offset: 91662},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 29, offset: 91642},
+																																pos:        position{line: 2910, col: 29, offset: 91671},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36883,9 +37101,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2919, col: 8, offset: 91802},
+																													pos: position{line: 2920, col: 8, offset: 91831},
 																													expr: &anyMatcher{
-																														line: 2919, col: 9, offset: 91803,
+																														line: 2920, col: 9, offset: 91832,
 																													},
 																												},
 																											},
@@ -36894,30 +37112,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 747, col: 5, offset: 23832},
+																								pos: position{line: 748, col: 5, offset: 23861},
 																								run: (*parser).callonListContinuationElement1739,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 5, offset: 23832},
+																									pos: position{line: 748, col: 5, offset: 23861},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 747, col: 5, offset: 23832},
+																											pos:   position{line: 748, col: 5, offset: 23861},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 747, col: 16, offset: 23843},
+																												pos: position{line: 748, col: 16, offset: 23872},
 																												run: (*parser).callonListContinuationElement1742,
 																												expr: &seqExpr{
-																													pos: position{line: 747, col: 16, offset: 23843},
+																													pos: position{line: 748, col: 16, offset: 23872},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 747, col: 16, offset: 23843},
+																															pos:        position{line: 748, col: 16, offset: 23872},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 747, col: 23, offset: 23850},
+																															pos: position{line: 748, col: 23, offset: 23879},
 																															expr: &litMatcher{
-																																pos:        position{line: 747, col: 23, offset: 23850},
+																																pos:        position{line: 748, col: 23, offset: 23879},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -36928,12 +37146,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 749, col: 8, offset: 23934},
+																											pos: position{line: 750, col: 8, offset: 23963},
 																											expr: &actionExpr{
-																												pos: position{line: 2900, col: 10, offset: 91454},
+																												pos: position{line: 2901, col: 10, offset: 91483},
 																												run: (*parser).callonListContinuationElement1748,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2900, col: 10, offset: 91454},
+																													pos:        position{line: 2901, col: 10, offset: 91483},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36942,28 +37160,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2922, col: 8, offset: 91852},
+																											pos: position{line: 2923, col: 8, offset: 91881},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2909, col: 12, offset: 91625},
+																													pos: position{line: 2910, col: 12, offset: 91654},
 																													run: (*parser).callonListContinuationElement1751,
 																													expr: &choiceExpr{
-																														pos: position{line: 2909, col: 13, offset: 91626},
+																														pos: position{line: 2910, col: 13, offset: 91655},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 13, offset: 91626},
+																																pos:        position{line: 2910, col: 13, offset: 91655},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 20, offset: 91633},
+																																pos:        position{line: 2910, col: 20, offset: 91662},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 29, offset: 91642},
+																																pos:        position{line: 2910, col: 29, offset: 91671},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36972,9 +37190,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2919, col: 8, offset: 91802},
+																													pos: position{line: 2920, col: 8, offset: 91831},
 																													expr: &anyMatcher{
-																														line: 2919, col: 9, offset: 91803,
+																														line: 2920, col: 9, offset: 91832,
 																													},
 																												},
 																											},
@@ -36983,27 +37201,27 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 760, col: 26, offset: 24320},
+																								pos: position{line: 761, col: 26, offset: 24349},
 																								run: (*parser).callonListContinuationElement1758,
 																								expr: &seqExpr{
-																									pos: position{line: 760, col: 26, offset: 24320},
+																									pos: position{line: 761, col: 26, offset: 24349},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 760, col: 26, offset: 24320},
+																											pos:        position{line: 761, col: 26, offset: 24349},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 760, col: 32, offset: 24326},
+																											pos:   position{line: 761, col: 32, offset: 24355},
 																											label: "language",
 																											expr: &actionExpr{
-																												pos: position{line: 764, col: 13, offset: 24456},
+																												pos: position{line: 765, col: 13, offset: 24485},
 																												run: (*parser).callonListContinuationElement1762,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 764, col: 14, offset: 24457},
+																													pos: position{line: 765, col: 14, offset: 24486},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 764, col: 14, offset: 24457},
+																														pos:        position{line: 765, col: 14, offset: 24486},
 																														val:        "[^\\r\\n` ]",
 																														chars:      []rune{'\r', '\n', '`', ' '},
 																														ignoreCase: false,
@@ -37013,12 +37231,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 760, col: 52, offset: 24346},
+																											pos: position{line: 761, col: 52, offset: 24375},
 																											expr: &actionExpr{
-																												pos: position{line: 2900, col: 10, offset: 91454},
+																												pos: position{line: 2901, col: 10, offset: 91483},
 																												run: (*parser).callonListContinuationElement1766,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2900, col: 10, offset: 91454},
+																													pos:        position{line: 2901, col: 10, offset: 91483},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37027,28 +37245,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2922, col: 8, offset: 91852},
+																											pos: position{line: 2923, col: 8, offset: 91881},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2909, col: 12, offset: 91625},
+																													pos: position{line: 2910, col: 12, offset: 91654},
 																													run: (*parser).callonListContinuationElement1769,
 																													expr: &choiceExpr{
-																														pos: position{line: 2909, col: 13, offset: 91626},
+																														pos: position{line: 2910, col: 13, offset: 91655},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 13, offset: 91626},
+																																pos:        position{line: 2910, col: 13, offset: 91655},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 20, offset: 91633},
+																																pos:        position{line: 2910, col: 20, offset: 91662},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 29, offset: 91642},
+																																pos:        position{line: 2910, col: 29, offset: 91671},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37057,9 +37275,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2919, col: 8, offset: 91802},
+																													pos: position{line: 2920, col: 8, offset: 91831},
 																													expr: &anyMatcher{
-																														line: 2919, col: 9, offset: 91803,
+																														line: 2920, col: 9, offset: 91832,
 																													},
 																												},
 																											},
@@ -37068,30 +37286,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 754, col: 5, offset: 24079},
+																								pos: position{line: 755, col: 5, offset: 24108},
 																								run: (*parser).callonListContinuationElement1776,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 5, offset: 24079},
+																									pos: position{line: 755, col: 5, offset: 24108},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 754, col: 5, offset: 24079},
+																											pos:   position{line: 755, col: 5, offset: 24108},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 754, col: 16, offset: 24090},
+																												pos: position{line: 755, col: 16, offset: 24119},
 																												run: (*parser).callonListContinuationElement1779,
 																												expr: &seqExpr{
-																													pos: position{line: 754, col: 16, offset: 24090},
+																													pos: position{line: 755, col: 16, offset: 24119},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 754, col: 16, offset: 24090},
+																															pos:        position{line: 755, col: 16, offset: 24119},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 754, col: 22, offset: 24096},
+																															pos: position{line: 755, col: 22, offset: 24125},
 																															expr: &litMatcher{
-																																pos:        position{line: 754, col: 22, offset: 24096},
+																																pos:        position{line: 755, col: 22, offset: 24125},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -37102,12 +37320,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 756, col: 8, offset: 24180},
+																											pos: position{line: 757, col: 8, offset: 24209},
 																											expr: &actionExpr{
-																												pos: position{line: 2900, col: 10, offset: 91454},
+																												pos: position{line: 2901, col: 10, offset: 91483},
 																												run: (*parser).callonListContinuationElement1785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2900, col: 10, offset: 91454},
+																													pos:        position{line: 2901, col: 10, offset: 91483},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37116,28 +37334,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2922, col: 8, offset: 91852},
+																											pos: position{line: 2923, col: 8, offset: 91881},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2909, col: 12, offset: 91625},
+																													pos: position{line: 2910, col: 12, offset: 91654},
 																													run: (*parser).callonListContinuationElement1788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2909, col: 13, offset: 91626},
+																														pos: position{line: 2910, col: 13, offset: 91655},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 13, offset: 91626},
+																																pos:        position{line: 2910, col: 13, offset: 91655},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 20, offset: 91633},
+																																pos:        position{line: 2910, col: 20, offset: 91662},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 29, offset: 91642},
+																																pos:        position{line: 2910, col: 29, offset: 91671},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37146,9 +37364,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2919, col: 8, offset: 91802},
+																													pos: position{line: 2920, col: 8, offset: 91831},
 																													expr: &anyMatcher{
-																														line: 2919, col: 9, offset: 91803,
+																														line: 2920, col: 9, offset: 91832,
 																													},
 																												},
 																											},
@@ -37157,30 +37375,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 769, col: 5, offset: 24616},
+																								pos: position{line: 770, col: 5, offset: 24645},
 																								run: (*parser).callonListContinuationElement1795,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 5, offset: 24616},
+																									pos: position{line: 770, col: 5, offset: 24645},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 769, col: 5, offset: 24616},
+																											pos:   position{line: 770, col: 5, offset: 24645},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 769, col: 16, offset: 24627},
+																												pos: position{line: 770, col: 16, offset: 24656},
 																												run: (*parser).callonListContinuationElement1798,
 																												expr: &seqExpr{
-																													pos: position{line: 769, col: 16, offset: 24627},
+																													pos: position{line: 770, col: 16, offset: 24656},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 769, col: 16, offset: 24627},
+																															pos:        position{line: 770, col: 16, offset: 24656},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 769, col: 23, offset: 24634},
+																															pos: position{line: 770, col: 23, offset: 24663},
 																															expr: &litMatcher{
-																																pos:        position{line: 769, col: 23, offset: 24634},
+																																pos:        position{line: 770, col: 23, offset: 24663},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -37191,12 +37409,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 771, col: 8, offset: 24718},
+																											pos: position{line: 772, col: 8, offset: 24747},
 																											expr: &actionExpr{
-																												pos: position{line: 2900, col: 10, offset: 91454},
+																												pos: position{line: 2901, col: 10, offset: 91483},
 																												run: (*parser).callonListContinuationElement1804,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2900, col: 10, offset: 91454},
+																													pos:        position{line: 2901, col: 10, offset: 91483},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37205,28 +37423,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2922, col: 8, offset: 91852},
+																											pos: position{line: 2923, col: 8, offset: 91881},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2909, col: 12, offset: 91625},
+																													pos: position{line: 2910, col: 12, offset: 91654},
 																													run: (*parser).callonListContinuationElement1807,
 																													expr: &choiceExpr{
-																														pos: position{line: 2909, col: 13, offset: 91626},
+																														pos: position{line: 2910, col: 13, offset: 91655},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 13, offset: 91626},
+																																pos:        position{line: 2910, col: 13, offset: 91655},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 20, offset: 91633},
+																																pos:        position{line: 2910, col: 20, offset: 91662},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 29, offset: 91642},
+																																pos:        position{line: 2910, col: 29, offset: 91671},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37235,9 +37453,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2919, col: 8, offset: 91802},
+																													pos: position{line: 2920, col: 8, offset: 91831},
 																													expr: &anyMatcher{
-																														line: 2919, col: 9, offset: 91803,
+																														line: 2920, col: 9, offset: 91832,
 																													},
 																												},
 																											},
@@ -37246,30 +37464,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 783, col: 5, offset: 25092},
+																								pos: position{line: 784, col: 5, offset: 25121},
 																								run: (*parser).callonListContinuationElement1814,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 5, offset: 25092},
+																									pos: position{line: 784, col: 5, offset: 25121},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 783, col: 5, offset: 25092},
+																											pos:   position{line: 784, col: 5, offset: 25121},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 783, col: 16, offset: 25103},
+																												pos: position{line: 784, col: 16, offset: 25132},
 																												run: (*parser).callonListContinuationElement1817,
 																												expr: &seqExpr{
-																													pos: position{line: 783, col: 16, offset: 25103},
+																													pos: position{line: 784, col: 16, offset: 25132},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 783, col: 16, offset: 25103},
+																															pos:        position{line: 784, col: 16, offset: 25132},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 783, col: 23, offset: 25110},
+																															pos: position{line: 784, col: 23, offset: 25139},
 																															expr: &litMatcher{
-																																pos:        position{line: 783, col: 23, offset: 25110},
+																																pos:        position{line: 784, col: 23, offset: 25139},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -37280,12 +37498,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 785, col: 8, offset: 25194},
+																											pos: position{line: 786, col: 8, offset: 25223},
 																											expr: &actionExpr{
-																												pos: position{line: 2900, col: 10, offset: 91454},
+																												pos: position{line: 2901, col: 10, offset: 91483},
 																												run: (*parser).callonListContinuationElement1823,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2900, col: 10, offset: 91454},
+																													pos:        position{line: 2901, col: 10, offset: 91483},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37294,28 +37512,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2922, col: 8, offset: 91852},
+																											pos: position{line: 2923, col: 8, offset: 91881},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2909, col: 12, offset: 91625},
+																													pos: position{line: 2910, col: 12, offset: 91654},
 																													run: (*parser).callonListContinuationElement1826,
 																													expr: &choiceExpr{
-																														pos: position{line: 2909, col: 13, offset: 91626},
+																														pos: position{line: 2910, col: 13, offset: 91655},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 13, offset: 91626},
+																																pos:        position{line: 2910, col: 13, offset: 91655},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 20, offset: 91633},
+																																pos:        position{line: 2910, col: 20, offset: 91662},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 29, offset: 91642},
+																																pos:        position{line: 2910, col: 29, offset: 91671},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37324,9 +37542,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2919, col: 8, offset: 91802},
+																													pos: position{line: 2920, col: 8, offset: 91831},
 																													expr: &anyMatcher{
-																														line: 2919, col: 9, offset: 91803,
+																														line: 2920, col: 9, offset: 91832,
 																													},
 																												},
 																											},
@@ -37335,30 +37553,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 790, col: 5, offset: 25344},
+																								pos: position{line: 791, col: 5, offset: 25373},
 																								run: (*parser).callonListContinuationElement1833,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 5, offset: 25344},
+																									pos: position{line: 791, col: 5, offset: 25373},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 790, col: 5, offset: 25344},
+																											pos:   position{line: 791, col: 5, offset: 25373},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 790, col: 16, offset: 25355},
+																												pos: position{line: 791, col: 16, offset: 25384},
 																												run: (*parser).callonListContinuationElement1836,
 																												expr: &seqExpr{
-																													pos: position{line: 790, col: 16, offset: 25355},
+																													pos: position{line: 791, col: 16, offset: 25384},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 790, col: 16, offset: 25355},
+																															pos:        position{line: 791, col: 16, offset: 25384},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 790, col: 23, offset: 25362},
+																															pos: position{line: 791, col: 23, offset: 25391},
 																															expr: &litMatcher{
-																																pos:        position{line: 790, col: 23, offset: 25362},
+																																pos:        position{line: 791, col: 23, offset: 25391},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -37369,12 +37587,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 792, col: 8, offset: 25446},
+																											pos: position{line: 793, col: 8, offset: 25475},
 																											expr: &actionExpr{
-																												pos: position{line: 2900, col: 10, offset: 91454},
+																												pos: position{line: 2901, col: 10, offset: 91483},
 																												run: (*parser).callonListContinuationElement1842,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2900, col: 10, offset: 91454},
+																													pos:        position{line: 2901, col: 10, offset: 91483},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37383,28 +37601,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2922, col: 8, offset: 91852},
+																											pos: position{line: 2923, col: 8, offset: 91881},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2909, col: 12, offset: 91625},
+																													pos: position{line: 2910, col: 12, offset: 91654},
 																													run: (*parser).callonListContinuationElement1845,
 																													expr: &choiceExpr{
-																														pos: position{line: 2909, col: 13, offset: 91626},
+																														pos: position{line: 2910, col: 13, offset: 91655},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 13, offset: 91626},
+																																pos:        position{line: 2910, col: 13, offset: 91655},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 20, offset: 91633},
+																																pos:        position{line: 2910, col: 20, offset: 91662},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 29, offset: 91642},
+																																pos:        position{line: 2910, col: 29, offset: 91671},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37413,9 +37631,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2919, col: 8, offset: 91802},
+																													pos: position{line: 2920, col: 8, offset: 91831},
 																													expr: &anyMatcher{
-																														line: 2919, col: 9, offset: 91803,
+																														line: 2920, col: 9, offset: 91832,
 																													},
 																												},
 																											},
@@ -37424,30 +37642,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 797, col: 5, offset: 25594},
+																								pos: position{line: 798, col: 5, offset: 25623},
 																								run: (*parser).callonListContinuationElement1852,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 5, offset: 25594},
+																									pos: position{line: 798, col: 5, offset: 25623},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 797, col: 5, offset: 25594},
+																											pos:   position{line: 798, col: 5, offset: 25623},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 797, col: 16, offset: 25605},
+																												pos: position{line: 798, col: 16, offset: 25634},
 																												run: (*parser).callonListContinuationElement1855,
 																												expr: &seqExpr{
-																													pos: position{line: 797, col: 16, offset: 25605},
+																													pos: position{line: 798, col: 16, offset: 25634},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 797, col: 16, offset: 25605},
+																															pos:        position{line: 798, col: 16, offset: 25634},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 797, col: 23, offset: 25612},
+																															pos: position{line: 798, col: 23, offset: 25641},
 																															expr: &litMatcher{
-																																pos:        position{line: 797, col: 23, offset: 25612},
+																																pos:        position{line: 798, col: 23, offset: 25641},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -37458,12 +37676,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 799, col: 8, offset: 25696},
+																											pos: position{line: 800, col: 8, offset: 25725},
 																											expr: &actionExpr{
-																												pos: position{line: 2900, col: 10, offset: 91454},
+																												pos: position{line: 2901, col: 10, offset: 91483},
 																												run: (*parser).callonListContinuationElement1861,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2900, col: 10, offset: 91454},
+																													pos:        position{line: 2901, col: 10, offset: 91483},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37472,28 +37690,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2922, col: 8, offset: 91852},
+																											pos: position{line: 2923, col: 8, offset: 91881},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2909, col: 12, offset: 91625},
+																													pos: position{line: 2910, col: 12, offset: 91654},
 																													run: (*parser).callonListContinuationElement1864,
 																													expr: &choiceExpr{
-																														pos: position{line: 2909, col: 13, offset: 91626},
+																														pos: position{line: 2910, col: 13, offset: 91655},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 13, offset: 91626},
+																																pos:        position{line: 2910, col: 13, offset: 91655},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 20, offset: 91633},
+																																pos:        position{line: 2910, col: 20, offset: 91662},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 29, offset: 91642},
+																																pos:        position{line: 2910, col: 29, offset: 91671},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37502,9 +37720,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2919, col: 8, offset: 91802},
+																													pos: position{line: 2920, col: 8, offset: 91831},
 																													expr: &anyMatcher{
-																														line: 2919, col: 9, offset: 91803,
+																														line: 2920, col: 9, offset: 91832,
 																													},
 																												},
 																											},
@@ -37513,30 +37731,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 804, col: 5, offset: 25840},
+																								pos: position{line: 805, col: 5, offset: 25869},
 																								run: (*parser).callonListContinuationElement1871,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 5, offset: 25840},
+																									pos: position{line: 805, col: 5, offset: 25869},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 804, col: 5, offset: 25840},
+																											pos:   position{line: 805, col: 5, offset: 25869},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 804, col: 16, offset: 25851},
+																												pos: position{line: 805, col: 16, offset: 25880},
 																												run: (*parser).callonListContinuationElement1874,
 																												expr: &seqExpr{
-																													pos: position{line: 804, col: 16, offset: 25851},
+																													pos: position{line: 805, col: 16, offset: 25880},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 804, col: 16, offset: 25851},
+																															pos:        position{line: 805, col: 16, offset: 25880},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 804, col: 23, offset: 25858},
+																															pos: position{line: 805, col: 23, offset: 25887},
 																															expr: &litMatcher{
-																																pos:        position{line: 804, col: 23, offset: 25858},
+																																pos:        position{line: 805, col: 23, offset: 25887},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -37547,12 +37765,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 806, col: 8, offset: 25942},
+																											pos: position{line: 807, col: 8, offset: 25971},
 																											expr: &actionExpr{
-																												pos: position{line: 2900, col: 10, offset: 91454},
+																												pos: position{line: 2901, col: 10, offset: 91483},
 																												run: (*parser).callonListContinuationElement1880,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2900, col: 10, offset: 91454},
+																													pos:        position{line: 2901, col: 10, offset: 91483},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37561,28 +37779,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2922, col: 8, offset: 91852},
+																											pos: position{line: 2923, col: 8, offset: 91881},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2909, col: 12, offset: 91625},
+																													pos: position{line: 2910, col: 12, offset: 91654},
 																													run: (*parser).callonListContinuationElement1883,
 																													expr: &choiceExpr{
-																														pos: position{line: 2909, col: 13, offset: 91626},
+																														pos: position{line: 2910, col: 13, offset: 91655},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 13, offset: 91626},
+																																pos:        position{line: 2910, col: 13, offset: 91655},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 20, offset: 91633},
+																																pos:        position{line: 2910, col: 20, offset: 91662},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2909, col: 29, offset: 91642},
+																																pos:        position{line: 2910, col: 29, offset: 91671},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37591,9 +37809,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2919, col: 8, offset: 91802},
+																													pos: position{line: 2920, col: 8, offset: 91831},
 																													expr: &anyMatcher{
-																														line: 2919, col: 9, offset: 91803,
+																														line: 2920, col: 9, offset: 91832,
 																													},
 																												},
 																											},
@@ -37609,15 +37827,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1517, col: 5, offset: 49124},
+																	pos:   position{line: 1518, col: 5, offset: 49153},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2850, col: 14, offset: 90047},
+																		pos: position{line: 2851, col: 14, offset: 90076},
 																		run: (*parser).callonListContinuationElement1891,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2850, col: 14, offset: 90047},
+																			pos: position{line: 2851, col: 14, offset: 90076},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2850, col: 14, offset: 90047},
+																				pos:        position{line: 2851, col: 14, offset: 90076},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -37627,28 +37845,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2922, col: 8, offset: 91852},
+																	pos: position{line: 2923, col: 8, offset: 91881},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 12, offset: 91625},
+																			pos: position{line: 2910, col: 12, offset: 91654},
 																			run: (*parser).callonListContinuationElement1895,
 																			expr: &choiceExpr{
-																				pos: position{line: 2909, col: 13, offset: 91626},
+																				pos: position{line: 2910, col: 13, offset: 91655},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 13, offset: 91626},
+																						pos:        position{line: 2910, col: 13, offset: 91655},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 20, offset: 91633},
+																						pos:        position{line: 2910, col: 20, offset: 91662},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 29, offset: 91642},
+																						pos:        position{line: 2910, col: 29, offset: 91671},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37657,9 +37875,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2919, col: 8, offset: 91802},
+																			pos: position{line: 2920, col: 8, offset: 91831},
 																			expr: &anyMatcher{
-																				line: 2919, col: 9, offset: 91803,
+																				line: 2920, col: 9, offset: 91832,
 																			},
 																		},
 																	},
@@ -37680,33 +37898,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1705, col: 1, offset: 54964},
+			pos:  position{line: 1706, col: 1, offset: 54993},
 			expr: &actionExpr{
-				pos: position{line: 1707, col: 5, offset: 55042},
+				pos: position{line: 1708, col: 5, offset: 55071},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1707, col: 5, offset: 55042},
+					pos: position{line: 1708, col: 5, offset: 55071},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1707, col: 5, offset: 55042},
+							pos: position{line: 1708, col: 5, offset: 55071},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1710, col: 5, offset: 55109},
+							pos:        position{line: 1711, col: 5, offset: 55138},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1710, col: 9, offset: 55113},
+							pos:   position{line: 1711, col: 9, offset: 55142},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1710, col: 14, offset: 55118},
+								pos: position{line: 1711, col: 14, offset: 55147},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1710, col: 14, offset: 55118},
+									pos: position{line: 1711, col: 14, offset: 55147},
 									expr: &charClassMatcher{
-										pos:        position{line: 1710, col: 14, offset: 55118},
+										pos:        position{line: 1711, col: 14, offset: 55147},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -37716,18 +37934,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1710, col: 62, offset: 55166},
+							pos:        position{line: 1711, col: 62, offset: 55195},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1710, col: 66, offset: 55170},
+							pos: position{line: 1711, col: 66, offset: 55199},
 							expr: &actionExpr{
-								pos: position{line: 2900, col: 10, offset: 91454},
+								pos: position{line: 2901, col: 10, offset: 91483},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2900, col: 10, offset: 91454},
+									pos:        position{line: 2901, col: 10, offset: 91483},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -37736,30 +37954,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1710, col: 73, offset: 55177},
+							pos: position{line: 1711, col: 73, offset: 55206},
 							expr: &choiceExpr{
-								pos: position{line: 1710, col: 75, offset: 55179},
+								pos: position{line: 1711, col: 75, offset: 55208},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2909, col: 12, offset: 91625},
+										pos: position{line: 2910, col: 12, offset: 91654},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2909, col: 13, offset: 91626},
+											pos: position{line: 2910, col: 13, offset: 91655},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2909, col: 13, offset: 91626},
+													pos:        position{line: 2910, col: 13, offset: 91655},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2909, col: 20, offset: 91633},
+													pos:        position{line: 2910, col: 20, offset: 91662},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2909, col: 29, offset: 91642},
+													pos:        position{line: 2910, col: 29, offset: 91671},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -37768,13 +37986,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2919, col: 8, offset: 91802},
+										pos: position{line: 2920, col: 8, offset: 91831},
 										expr: &anyMatcher{
-											line: 2919, col: 9, offset: 91803,
+											line: 2920, col: 9, offset: 91832,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1710, col: 81, offset: 55185},
+										pos:  position{line: 1711, col: 81, offset: 55214},
 										name: "Callout",
 									},
 								},
@@ -37786,44 +38004,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1749, col: 1, offset: 56358},
+			pos:  position{line: 1750, col: 1, offset: 56387},
 			expr: &actionExpr{
-				pos: position{line: 1751, col: 5, offset: 56432},
+				pos: position{line: 1752, col: 5, offset: 56461},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1751, col: 5, offset: 56432},
+					pos: position{line: 1752, col: 5, offset: 56461},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1751, col: 5, offset: 56432},
+							pos: position{line: 1752, col: 5, offset: 56461},
 							expr: &seqExpr{
-								pos: position{line: 1751, col: 7, offset: 56434},
+								pos: position{line: 1752, col: 7, offset: 56463},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2790, col: 13, offset: 88549},
+										pos:        position{line: 2791, col: 13, offset: 88578},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1751, col: 16, offset: 56443},
+										pos: position{line: 1752, col: 16, offset: 56472},
 										expr: &seqExpr{
-											pos: position{line: 1751, col: 18, offset: 56445},
+											pos: position{line: 1752, col: 18, offset: 56474},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1751, col: 19, offset: 56446},
+													pos:        position{line: 1752, col: 19, offset: 56475},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2904, col: 11, offset: 91515},
+													pos: position{line: 2905, col: 11, offset: 91544},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2904, col: 11, offset: 91515},
+														pos: position{line: 2905, col: 11, offset: 91544},
 														expr: &charClassMatcher{
-															pos:        position{line: 2904, col: 11, offset: 91515},
+															pos:        position{line: 2905, col: 11, offset: 91544},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -37838,88 +38056,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1752, col: 5, offset: 56586},
+							pos:   position{line: 1753, col: 5, offset: 56615},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1752, col: 11, offset: 56592},
+								pos: position{line: 1753, col: 11, offset: 56621},
 								expr: &actionExpr{
-									pos: position{line: 1730, col: 5, offset: 55855},
+									pos: position{line: 1731, col: 5, offset: 55884},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1730, col: 5, offset: 55855},
+										pos: position{line: 1731, col: 5, offset: 55884},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1730, col: 5, offset: 55855},
+												pos: position{line: 1731, col: 5, offset: 55884},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1733, col: 5, offset: 55918},
+												pos:   position{line: 1734, col: 5, offset: 55947},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1733, col: 12, offset: 55925},
+													pos: position{line: 1734, col: 12, offset: 55954},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1733, col: 12, offset: 55925},
+															pos: position{line: 1734, col: 12, offset: 55954},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1733, col: 12, offset: 55925},
+																pos:        position{line: 1734, col: 12, offset: 55954},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1735, col: 13, offset: 55981},
+															pos: position{line: 1736, col: 13, offset: 56010},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1735, col: 13, offset: 55981},
+																pos:        position{line: 1736, col: 13, offset: 56010},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1737, col: 13, offset: 56039},
+															pos: position{line: 1738, col: 13, offset: 56068},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1737, col: 13, offset: 56039},
+																pos:        position{line: 1738, col: 13, offset: 56068},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1739, col: 13, offset: 56107},
+															pos: position{line: 1740, col: 13, offset: 56136},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1739, col: 13, offset: 56107},
+																pos:        position{line: 1740, col: 13, offset: 56136},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1741, col: 13, offset: 56171},
+															pos: position{line: 1742, col: 13, offset: 56200},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1741, col: 13, offset: 56171},
+																pos:        position{line: 1742, col: 13, offset: 56200},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1743, col: 13, offset: 56235},
+															pos: position{line: 1744, col: 13, offset: 56264},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1743, col: 13, offset: 56235},
+																pos: position{line: 1744, col: 13, offset: 56264},
 																expr: &actionExpr{
-																	pos: position{line: 2904, col: 11, offset: 91515},
+																	pos: position{line: 2905, col: 11, offset: 91544},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2904, col: 11, offset: 91515},
+																		pos: position{line: 2905, col: 11, offset: 91544},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2904, col: 11, offset: 91515},
+																			pos:        position{line: 2905, col: 11, offset: 91544},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37938,24 +38156,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1753, col: 5, offset: 56614},
+							pos:   position{line: 1754, col: 5, offset: 56643},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1789, col: 5, offset: 57721},
+								pos: position{line: 1790, col: 5, offset: 57750},
 								run: (*parser).callonShortcutParagraph35,
 								expr: &seqExpr{
-									pos: position{line: 1789, col: 5, offset: 57721},
+									pos: position{line: 1790, col: 5, offset: 57750},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1789, col: 5, offset: 57721},
+											pos:   position{line: 1790, col: 5, offset: 57750},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2850, col: 14, offset: 90047},
+												pos: position{line: 2851, col: 14, offset: 90076},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2850, col: 14, offset: 90047},
+													pos: position{line: 2851, col: 14, offset: 90076},
 													expr: &charClassMatcher{
-														pos:        position{line: 2850, col: 14, offset: 90047},
+														pos:        position{line: 2851, col: 14, offset: 90076},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -37965,32 +38183,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1790, col: 5, offset: 57745},
+											pos: position{line: 1791, col: 5, offset: 57774},
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2922, col: 8, offset: 91852},
+											pos: position{line: 2923, col: 8, offset: 91881},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2909, col: 12, offset: 91625},
+													pos: position{line: 2910, col: 12, offset: 91654},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2909, col: 13, offset: 91626},
+														pos: position{line: 2910, col: 13, offset: 91655},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2909, col: 13, offset: 91626},
+																pos:        position{line: 2910, col: 13, offset: 91655},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2909, col: 20, offset: 91633},
+																pos:        position{line: 2910, col: 20, offset: 91662},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2909, col: 29, offset: 91642},
+																pos:        position{line: 2910, col: 29, offset: 91671},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -37999,9 +38217,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2919, col: 8, offset: 91802},
+													pos: position{line: 2920, col: 8, offset: 91831},
 													expr: &anyMatcher{
-														line: 2919, col: 9, offset: 91803,
+														line: 2920, col: 9, offset: 91832,
 													},
 												},
 											},
@@ -38011,47 +38229,47 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1754, col: 5, offset: 56648},
+							pos: position{line: 1755, col: 5, offset: 56677},
 							run: (*parser).callonShortcutParagraph50,
 						},
 						&labeledExpr{
-							pos:   position{line: 1761, col: 5, offset: 56978},
+							pos:   position{line: 1762, col: 5, offset: 57007},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1761, col: 16, offset: 56989},
+								pos: position{line: 1762, col: 16, offset: 57018},
 								expr: &actionExpr{
-									pos: position{line: 1762, col: 9, offset: 56999},
+									pos: position{line: 1763, col: 9, offset: 57028},
 									run: (*parser).callonShortcutParagraph53,
 									expr: &seqExpr{
-										pos: position{line: 1762, col: 9, offset: 56999},
+										pos: position{line: 1763, col: 9, offset: 57028},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2917, col: 11, offset: 91788},
+												pos: position{line: 2918, col: 11, offset: 91817},
 												expr: &anyMatcher{
-													line: 2917, col: 13, offset: 91790,
+													line: 2918, col: 13, offset: 91819,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1763, col: 9, offset: 57015},
+												pos: position{line: 1764, col: 9, offset: 57044},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
+													pos: position{line: 678, col: 14, offset: 21518},
 													run: (*parser).callonShortcutParagraph58,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 678, col: 14, offset: 21518},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2917, col: 11, offset: 91788},
+																pos: position{line: 2918, col: 11, offset: 91817},
 																expr: &anyMatcher{
-																	line: 2917, col: 13, offset: 91790,
+																	line: 2918, col: 13, offset: 91819,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
+																pos: position{line: 678, col: 21, offset: 21525},
 																expr: &actionExpr{
-																	pos: position{line: 2900, col: 10, offset: 91454},
+																	pos: position{line: 2901, col: 10, offset: 91483},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2900, col: 10, offset: 91454},
+																		pos:        position{line: 2901, col: 10, offset: 91483},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38060,28 +38278,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2922, col: 8, offset: 91852},
+																pos: position{line: 2923, col: 8, offset: 91881},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2909, col: 12, offset: 91625},
+																		pos: position{line: 2910, col: 12, offset: 91654},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2909, col: 13, offset: 91626},
+																			pos: position{line: 2910, col: 13, offset: 91655},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 13, offset: 91626},
+																					pos:        position{line: 2910, col: 13, offset: 91655},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 20, offset: 91633},
+																					pos:        position{line: 2910, col: 20, offset: 91662},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 29, offset: 91642},
+																					pos:        position{line: 2910, col: 29, offset: 91671},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38090,9 +38308,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2919, col: 8, offset: 91802},
+																		pos: position{line: 2920, col: 8, offset: 91831},
 																		expr: &anyMatcher{
-																			line: 2919, col: 9, offset: 91803,
+																			line: 2920, col: 9, offset: 91832,
 																		},
 																	},
 																},
@@ -38102,24 +38320,24 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1764, col: 9, offset: 57034},
+												pos: position{line: 1765, col: 9, offset: 57063},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1764, col: 10, offset: 57035},
+													pos:  position{line: 1765, col: 10, offset: 57064},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1765, col: 9, offset: 57059},
+												pos: position{line: 1766, col: 9, offset: 57088},
 												expr: &actionExpr{
-													pos: position{line: 724, col: 5, offset: 23042},
+													pos: position{line: 725, col: 5, offset: 23071},
 													run: (*parser).callonShortcutParagraph76,
 													expr: &seqExpr{
-														pos: position{line: 724, col: 5, offset: 23042},
+														pos: position{line: 725, col: 5, offset: 23071},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 724, col: 5, offset: 23042},
+																pos: position{line: 725, col: 5, offset: 23071},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2790, col: 13, offset: 88549},
+																	pos:        position{line: 2791, col: 13, offset: 88578},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -38127,36 +38345,36 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 725, col: 5, offset: 23072},
+																pos:   position{line: 726, col: 5, offset: 23101},
 																label: "delimiter",
 																expr: &choiceExpr{
-																	pos: position{line: 726, col: 9, offset: 23092},
+																	pos: position{line: 727, col: 9, offset: 23121},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 740, col: 5, offset: 23584},
+																			pos: position{line: 741, col: 5, offset: 23613},
 																			run: (*parser).callonShortcutParagraph82,
 																			expr: &seqExpr{
-																				pos: position{line: 740, col: 5, offset: 23584},
+																				pos: position{line: 741, col: 5, offset: 23613},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 740, col: 5, offset: 23584},
+																						pos:   position{line: 741, col: 5, offset: 23613},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 740, col: 16, offset: 23595},
+																							pos: position{line: 741, col: 16, offset: 23624},
 																							run: (*parser).callonShortcutParagraph85,
 																							expr: &seqExpr{
-																								pos: position{line: 740, col: 16, offset: 23595},
+																								pos: position{line: 741, col: 16, offset: 23624},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 740, col: 16, offset: 23595},
+																										pos:        position{line: 741, col: 16, offset: 23624},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 740, col: 23, offset: 23602},
+																										pos: position{line: 741, col: 23, offset: 23631},
 																										expr: &litMatcher{
-																											pos:        position{line: 740, col: 23, offset: 23602},
+																											pos:        position{line: 741, col: 23, offset: 23631},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -38167,12 +38385,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 742, col: 8, offset: 23686},
+																						pos: position{line: 743, col: 8, offset: 23715},
 																						expr: &actionExpr{
-																							pos: position{line: 2900, col: 10, offset: 91454},
+																							pos: position{line: 2901, col: 10, offset: 91483},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2900, col: 10, offset: 91454},
+																								pos:        position{line: 2901, col: 10, offset: 91483},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38181,28 +38399,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2922, col: 8, offset: 91852},
+																						pos: position{line: 2923, col: 8, offset: 91881},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2909, col: 12, offset: 91625},
+																								pos: position{line: 2910, col: 12, offset: 91654},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2909, col: 13, offset: 91626},
+																									pos: position{line: 2910, col: 13, offset: 91655},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 13, offset: 91626},
+																											pos:        position{line: 2910, col: 13, offset: 91655},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 20, offset: 91633},
+																											pos:        position{line: 2910, col: 20, offset: 91662},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 29, offset: 91642},
+																											pos:        position{line: 2910, col: 29, offset: 91671},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38211,9 +38429,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2919, col: 8, offset: 91802},
+																								pos: position{line: 2920, col: 8, offset: 91831},
 																								expr: &anyMatcher{
-																									line: 2919, col: 9, offset: 91803,
+																									line: 2920, col: 9, offset: 91832,
 																								},
 																							},
 																						},
@@ -38222,30 +38440,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 747, col: 5, offset: 23832},
+																			pos: position{line: 748, col: 5, offset: 23861},
 																			run: (*parser).callonShortcutParagraph101,
 																			expr: &seqExpr{
-																				pos: position{line: 747, col: 5, offset: 23832},
+																				pos: position{line: 748, col: 5, offset: 23861},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 747, col: 5, offset: 23832},
+																						pos:   position{line: 748, col: 5, offset: 23861},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 747, col: 16, offset: 23843},
+																							pos: position{line: 748, col: 16, offset: 23872},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &seqExpr{
-																								pos: position{line: 747, col: 16, offset: 23843},
+																								pos: position{line: 748, col: 16, offset: 23872},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 747, col: 16, offset: 23843},
+																										pos:        position{line: 748, col: 16, offset: 23872},
 																										val:        "====",
 																										ignoreCase: false,
 																										want:       "\"====\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 747, col: 23, offset: 23850},
+																										pos: position{line: 748, col: 23, offset: 23879},
 																										expr: &litMatcher{
-																											pos:        position{line: 747, col: 23, offset: 23850},
+																											pos:        position{line: 748, col: 23, offset: 23879},
 																											val:        "=",
 																											ignoreCase: false,
 																											want:       "\"=\"",
@@ -38256,12 +38474,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 749, col: 8, offset: 23934},
+																						pos: position{line: 750, col: 8, offset: 23963},
 																						expr: &actionExpr{
-																							pos: position{line: 2900, col: 10, offset: 91454},
+																							pos: position{line: 2901, col: 10, offset: 91483},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2900, col: 10, offset: 91454},
+																								pos:        position{line: 2901, col: 10, offset: 91483},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38270,28 +38488,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2922, col: 8, offset: 91852},
+																						pos: position{line: 2923, col: 8, offset: 91881},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2909, col: 12, offset: 91625},
+																								pos: position{line: 2910, col: 12, offset: 91654},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2909, col: 13, offset: 91626},
+																									pos: position{line: 2910, col: 13, offset: 91655},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 13, offset: 91626},
+																											pos:        position{line: 2910, col: 13, offset: 91655},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 20, offset: 91633},
+																											pos:        position{line: 2910, col: 20, offset: 91662},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 29, offset: 91642},
+																											pos:        position{line: 2910, col: 29, offset: 91671},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38300,9 +38518,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2919, col: 8, offset: 91802},
+																								pos: position{line: 2920, col: 8, offset: 91831},
 																								expr: &anyMatcher{
-																									line: 2919, col: 9, offset: 91803,
+																									line: 2920, col: 9, offset: 91832,
 																								},
 																							},
 																						},
@@ -38311,27 +38529,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 760, col: 26, offset: 24320},
+																			pos: position{line: 761, col: 26, offset: 24349},
 																			run: (*parser).callonShortcutParagraph120,
 																			expr: &seqExpr{
-																				pos: position{line: 760, col: 26, offset: 24320},
+																				pos: position{line: 761, col: 26, offset: 24349},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 760, col: 26, offset: 24320},
+																						pos:        position{line: 761, col: 26, offset: 24349},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 760, col: 32, offset: 24326},
+																						pos:   position{line: 761, col: 32, offset: 24355},
 																						label: "language",
 																						expr: &actionExpr{
-																							pos: position{line: 764, col: 13, offset: 24456},
+																							pos: position{line: 765, col: 13, offset: 24485},
 																							run: (*parser).callonShortcutParagraph124,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 764, col: 14, offset: 24457},
+																								pos: position{line: 765, col: 14, offset: 24486},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 764, col: 14, offset: 24457},
+																									pos:        position{line: 765, col: 14, offset: 24486},
 																									val:        "[^\\r\\n` ]",
 																									chars:      []rune{'\r', '\n', '`', ' '},
 																									ignoreCase: false,
@@ -38341,12 +38559,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 760, col: 52, offset: 24346},
+																						pos: position{line: 761, col: 52, offset: 24375},
 																						expr: &actionExpr{
-																							pos: position{line: 2900, col: 10, offset: 91454},
+																							pos: position{line: 2901, col: 10, offset: 91483},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2900, col: 10, offset: 91454},
+																								pos:        position{line: 2901, col: 10, offset: 91483},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38355,28 +38573,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2922, col: 8, offset: 91852},
+																						pos: position{line: 2923, col: 8, offset: 91881},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2909, col: 12, offset: 91625},
+																								pos: position{line: 2910, col: 12, offset: 91654},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2909, col: 13, offset: 91626},
+																									pos: position{line: 2910, col: 13, offset: 91655},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 13, offset: 91626},
+																											pos:        position{line: 2910, col: 13, offset: 91655},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 20, offset: 91633},
+																											pos:        position{line: 2910, col: 20, offset: 91662},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 29, offset: 91642},
+																											pos:        position{line: 2910, col: 29, offset: 91671},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38385,9 +38603,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2919, col: 8, offset: 91802},
+																								pos: position{line: 2920, col: 8, offset: 91831},
 																								expr: &anyMatcher{
-																									line: 2919, col: 9, offset: 91803,
+																									line: 2920, col: 9, offset: 91832,
 																								},
 																							},
 																						},
@@ -38396,30 +38614,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 754, col: 5, offset: 24079},
+																			pos: position{line: 755, col: 5, offset: 24108},
 																			run: (*parser).callonShortcutParagraph138,
 																			expr: &seqExpr{
-																				pos: position{line: 754, col: 5, offset: 24079},
+																				pos: position{line: 755, col: 5, offset: 24108},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 754, col: 5, offset: 24079},
+																						pos:   position{line: 755, col: 5, offset: 24108},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 754, col: 16, offset: 24090},
+																							pos: position{line: 755, col: 16, offset: 24119},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &seqExpr{
-																								pos: position{line: 754, col: 16, offset: 24090},
+																								pos: position{line: 755, col: 16, offset: 24119},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 754, col: 16, offset: 24090},
+																										pos:        position{line: 755, col: 16, offset: 24119},
 																										val:        "```",
 																										ignoreCase: false,
 																										want:       "\"```\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 754, col: 22, offset: 24096},
+																										pos: position{line: 755, col: 22, offset: 24125},
 																										expr: &litMatcher{
-																											pos:        position{line: 754, col: 22, offset: 24096},
+																											pos:        position{line: 755, col: 22, offset: 24125},
 																											val:        "`",
 																											ignoreCase: false,
 																											want:       "\"`\"",
@@ -38430,12 +38648,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 756, col: 8, offset: 24180},
+																						pos: position{line: 757, col: 8, offset: 24209},
 																						expr: &actionExpr{
-																							pos: position{line: 2900, col: 10, offset: 91454},
+																							pos: position{line: 2901, col: 10, offset: 91483},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2900, col: 10, offset: 91454},
+																								pos:        position{line: 2901, col: 10, offset: 91483},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38444,28 +38662,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2922, col: 8, offset: 91852},
+																						pos: position{line: 2923, col: 8, offset: 91881},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2909, col: 12, offset: 91625},
+																								pos: position{line: 2910, col: 12, offset: 91654},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2909, col: 13, offset: 91626},
+																									pos: position{line: 2910, col: 13, offset: 91655},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 13, offset: 91626},
+																											pos:        position{line: 2910, col: 13, offset: 91655},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 20, offset: 91633},
+																											pos:        position{line: 2910, col: 20, offset: 91662},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 29, offset: 91642},
+																											pos:        position{line: 2910, col: 29, offset: 91671},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38474,9 +38692,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2919, col: 8, offset: 91802},
+																								pos: position{line: 2920, col: 8, offset: 91831},
 																								expr: &anyMatcher{
-																									line: 2919, col: 9, offset: 91803,
+																									line: 2920, col: 9, offset: 91832,
 																								},
 																							},
 																						},
@@ -38485,30 +38703,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 769, col: 5, offset: 24616},
+																			pos: position{line: 770, col: 5, offset: 24645},
 																			run: (*parser).callonShortcutParagraph157,
 																			expr: &seqExpr{
-																				pos: position{line: 769, col: 5, offset: 24616},
+																				pos: position{line: 770, col: 5, offset: 24645},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 769, col: 5, offset: 24616},
+																						pos:   position{line: 770, col: 5, offset: 24645},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 769, col: 16, offset: 24627},
+																							pos: position{line: 770, col: 16, offset: 24656},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &seqExpr{
-																								pos: position{line: 769, col: 16, offset: 24627},
+																								pos: position{line: 770, col: 16, offset: 24656},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 769, col: 16, offset: 24627},
+																										pos:        position{line: 770, col: 16, offset: 24656},
 																										val:        "----",
 																										ignoreCase: false,
 																										want:       "\"----\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 769, col: 23, offset: 24634},
+																										pos: position{line: 770, col: 23, offset: 24663},
 																										expr: &litMatcher{
-																											pos:        position{line: 769, col: 23, offset: 24634},
+																											pos:        position{line: 770, col: 23, offset: 24663},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
@@ -38519,12 +38737,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 771, col: 8, offset: 24718},
+																						pos: position{line: 772, col: 8, offset: 24747},
 																						expr: &actionExpr{
-																							pos: position{line: 2900, col: 10, offset: 91454},
+																							pos: position{line: 2901, col: 10, offset: 91483},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2900, col: 10, offset: 91454},
+																								pos:        position{line: 2901, col: 10, offset: 91483},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38533,28 +38751,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2922, col: 8, offset: 91852},
+																						pos: position{line: 2923, col: 8, offset: 91881},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2909, col: 12, offset: 91625},
+																								pos: position{line: 2910, col: 12, offset: 91654},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2909, col: 13, offset: 91626},
+																									pos: position{line: 2910, col: 13, offset: 91655},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 13, offset: 91626},
+																											pos:        position{line: 2910, col: 13, offset: 91655},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 20, offset: 91633},
+																											pos:        position{line: 2910, col: 20, offset: 91662},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 29, offset: 91642},
+																											pos:        position{line: 2910, col: 29, offset: 91671},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38563,9 +38781,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2919, col: 8, offset: 91802},
+																								pos: position{line: 2920, col: 8, offset: 91831},
 																								expr: &anyMatcher{
-																									line: 2919, col: 9, offset: 91803,
+																									line: 2920, col: 9, offset: 91832,
 																								},
 																							},
 																						},
@@ -38574,30 +38792,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 783, col: 5, offset: 25092},
+																			pos: position{line: 784, col: 5, offset: 25121},
 																			run: (*parser).callonShortcutParagraph176,
 																			expr: &seqExpr{
-																				pos: position{line: 783, col: 5, offset: 25092},
+																				pos: position{line: 784, col: 5, offset: 25121},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 783, col: 5, offset: 25092},
+																						pos:   position{line: 784, col: 5, offset: 25121},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 783, col: 16, offset: 25103},
+																							pos: position{line: 784, col: 16, offset: 25132},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &seqExpr{
-																								pos: position{line: 783, col: 16, offset: 25103},
+																								pos: position{line: 784, col: 16, offset: 25132},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 783, col: 16, offset: 25103},
+																										pos:        position{line: 784, col: 16, offset: 25132},
 																										val:        "....",
 																										ignoreCase: false,
 																										want:       "\"....\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 783, col: 23, offset: 25110},
+																										pos: position{line: 784, col: 23, offset: 25139},
 																										expr: &litMatcher{
-																											pos:        position{line: 783, col: 23, offset: 25110},
+																											pos:        position{line: 784, col: 23, offset: 25139},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38608,12 +38826,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 785, col: 8, offset: 25194},
+																						pos: position{line: 786, col: 8, offset: 25223},
 																						expr: &actionExpr{
-																							pos: position{line: 2900, col: 10, offset: 91454},
+																							pos: position{line: 2901, col: 10, offset: 91483},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2900, col: 10, offset: 91454},
+																								pos:        position{line: 2901, col: 10, offset: 91483},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38622,28 +38840,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2922, col: 8, offset: 91852},
+																						pos: position{line: 2923, col: 8, offset: 91881},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2909, col: 12, offset: 91625},
+																								pos: position{line: 2910, col: 12, offset: 91654},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2909, col: 13, offset: 91626},
+																									pos: position{line: 2910, col: 13, offset: 91655},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 13, offset: 91626},
+																											pos:        position{line: 2910, col: 13, offset: 91655},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 20, offset: 91633},
+																											pos:        position{line: 2910, col: 20, offset: 91662},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 29, offset: 91642},
+																											pos:        position{line: 2910, col: 29, offset: 91671},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38652,9 +38870,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2919, col: 8, offset: 91802},
+																								pos: position{line: 2920, col: 8, offset: 91831},
 																								expr: &anyMatcher{
-																									line: 2919, col: 9, offset: 91803,
+																									line: 2920, col: 9, offset: 91832,
 																								},
 																							},
 																						},
@@ -38663,30 +38881,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 790, col: 5, offset: 25344},
+																			pos: position{line: 791, col: 5, offset: 25373},
 																			run: (*parser).callonShortcutParagraph195,
 																			expr: &seqExpr{
-																				pos: position{line: 790, col: 5, offset: 25344},
+																				pos: position{line: 791, col: 5, offset: 25373},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 790, col: 5, offset: 25344},
+																						pos:   position{line: 791, col: 5, offset: 25373},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 790, col: 16, offset: 25355},
+																							pos: position{line: 791, col: 16, offset: 25384},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &seqExpr{
-																								pos: position{line: 790, col: 16, offset: 25355},
+																								pos: position{line: 791, col: 16, offset: 25384},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 790, col: 16, offset: 25355},
+																										pos:        position{line: 791, col: 16, offset: 25384},
 																										val:        "++++",
 																										ignoreCase: false,
 																										want:       "\"++++\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 790, col: 23, offset: 25362},
+																										pos: position{line: 791, col: 23, offset: 25391},
 																										expr: &litMatcher{
-																											pos:        position{line: 790, col: 23, offset: 25362},
+																											pos:        position{line: 791, col: 23, offset: 25391},
 																											val:        "+",
 																											ignoreCase: false,
 																											want:       "\"+\"",
@@ -38697,12 +38915,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 792, col: 8, offset: 25446},
+																						pos: position{line: 793, col: 8, offset: 25475},
 																						expr: &actionExpr{
-																							pos: position{line: 2900, col: 10, offset: 91454},
+																							pos: position{line: 2901, col: 10, offset: 91483},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2900, col: 10, offset: 91454},
+																								pos:        position{line: 2901, col: 10, offset: 91483},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38711,28 +38929,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2922, col: 8, offset: 91852},
+																						pos: position{line: 2923, col: 8, offset: 91881},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2909, col: 12, offset: 91625},
+																								pos: position{line: 2910, col: 12, offset: 91654},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2909, col: 13, offset: 91626},
+																									pos: position{line: 2910, col: 13, offset: 91655},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 13, offset: 91626},
+																											pos:        position{line: 2910, col: 13, offset: 91655},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 20, offset: 91633},
+																											pos:        position{line: 2910, col: 20, offset: 91662},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 29, offset: 91642},
+																											pos:        position{line: 2910, col: 29, offset: 91671},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38741,9 +38959,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2919, col: 8, offset: 91802},
+																								pos: position{line: 2920, col: 8, offset: 91831},
 																								expr: &anyMatcher{
-																									line: 2919, col: 9, offset: 91803,
+																									line: 2920, col: 9, offset: 91832,
 																								},
 																							},
 																						},
@@ -38752,30 +38970,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 797, col: 5, offset: 25594},
+																			pos: position{line: 798, col: 5, offset: 25623},
 																			run: (*parser).callonShortcutParagraph214,
 																			expr: &seqExpr{
-																				pos: position{line: 797, col: 5, offset: 25594},
+																				pos: position{line: 798, col: 5, offset: 25623},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 797, col: 5, offset: 25594},
+																						pos:   position{line: 798, col: 5, offset: 25623},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 797, col: 16, offset: 25605},
+																							pos: position{line: 798, col: 16, offset: 25634},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &seqExpr{
-																								pos: position{line: 797, col: 16, offset: 25605},
+																								pos: position{line: 798, col: 16, offset: 25634},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 797, col: 16, offset: 25605},
+																										pos:        position{line: 798, col: 16, offset: 25634},
 																										val:        "____",
 																										ignoreCase: false,
 																										want:       "\"____\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 797, col: 23, offset: 25612},
+																										pos: position{line: 798, col: 23, offset: 25641},
 																										expr: &litMatcher{
-																											pos:        position{line: 797, col: 23, offset: 25612},
+																											pos:        position{line: 798, col: 23, offset: 25641},
 																											val:        "_",
 																											ignoreCase: false,
 																											want:       "\"_\"",
@@ -38786,12 +39004,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 799, col: 8, offset: 25696},
+																						pos: position{line: 800, col: 8, offset: 25725},
 																						expr: &actionExpr{
-																							pos: position{line: 2900, col: 10, offset: 91454},
+																							pos: position{line: 2901, col: 10, offset: 91483},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2900, col: 10, offset: 91454},
+																								pos:        position{line: 2901, col: 10, offset: 91483},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38800,28 +39018,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2922, col: 8, offset: 91852},
+																						pos: position{line: 2923, col: 8, offset: 91881},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2909, col: 12, offset: 91625},
+																								pos: position{line: 2910, col: 12, offset: 91654},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2909, col: 13, offset: 91626},
+																									pos: position{line: 2910, col: 13, offset: 91655},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 13, offset: 91626},
+																											pos:        position{line: 2910, col: 13, offset: 91655},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 20, offset: 91633},
+																											pos:        position{line: 2910, col: 20, offset: 91662},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 29, offset: 91642},
+																											pos:        position{line: 2910, col: 29, offset: 91671},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38830,9 +39048,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2919, col: 8, offset: 91802},
+																								pos: position{line: 2920, col: 8, offset: 91831},
 																								expr: &anyMatcher{
-																									line: 2919, col: 9, offset: 91803,
+																									line: 2920, col: 9, offset: 91832,
 																								},
 																							},
 																						},
@@ -38841,30 +39059,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 804, col: 5, offset: 25840},
+																			pos: position{line: 805, col: 5, offset: 25869},
 																			run: (*parser).callonShortcutParagraph233,
 																			expr: &seqExpr{
-																				pos: position{line: 804, col: 5, offset: 25840},
+																				pos: position{line: 805, col: 5, offset: 25869},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 804, col: 5, offset: 25840},
+																						pos:   position{line: 805, col: 5, offset: 25869},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 804, col: 16, offset: 25851},
+																							pos: position{line: 805, col: 16, offset: 25880},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &seqExpr{
-																								pos: position{line: 804, col: 16, offset: 25851},
+																								pos: position{line: 805, col: 16, offset: 25880},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 804, col: 16, offset: 25851},
+																										pos:        position{line: 805, col: 16, offset: 25880},
 																										val:        "****",
 																										ignoreCase: false,
 																										want:       "\"****\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 804, col: 23, offset: 25858},
+																										pos: position{line: 805, col: 23, offset: 25887},
 																										expr: &litMatcher{
-																											pos:        position{line: 804, col: 23, offset: 25858},
+																											pos:        position{line: 805, col: 23, offset: 25887},
 																											val:        "*",
 																											ignoreCase: false,
 																											want:       "\"*\"",
@@ -38875,12 +39093,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 806, col: 8, offset: 25942},
+																						pos: position{line: 807, col: 8, offset: 25971},
 																						expr: &actionExpr{
-																							pos: position{line: 2900, col: 10, offset: 91454},
+																							pos: position{line: 2901, col: 10, offset: 91483},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2900, col: 10, offset: 91454},
+																								pos:        position{line: 2901, col: 10, offset: 91483},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38889,28 +39107,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2922, col: 8, offset: 91852},
+																						pos: position{line: 2923, col: 8, offset: 91881},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2909, col: 12, offset: 91625},
+																								pos: position{line: 2910, col: 12, offset: 91654},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2909, col: 13, offset: 91626},
+																									pos: position{line: 2910, col: 13, offset: 91655},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 13, offset: 91626},
+																											pos:        position{line: 2910, col: 13, offset: 91655},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 20, offset: 91633},
+																											pos:        position{line: 2910, col: 20, offset: 91662},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2909, col: 29, offset: 91642},
+																											pos:        position{line: 2910, col: 29, offset: 91671},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38919,9 +39137,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2919, col: 8, offset: 91802},
+																								pos: position{line: 2920, col: 8, offset: 91831},
 																								expr: &anyMatcher{
-																									line: 2919, col: 9, offset: 91803,
+																									line: 2920, col: 9, offset: 91832,
 																								},
 																							},
 																						},
@@ -38937,23 +39155,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1766, col: 9, offset: 57083},
+												pos: position{line: 1767, col: 9, offset: 57112},
 												expr: &seqExpr{
-													pos: position{line: 1541, col: 27, offset: 49752},
+													pos: position{line: 1542, col: 27, offset: 49781},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1541, col: 27, offset: 49752},
+															pos:        position{line: 1542, col: 27, offset: 49781},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1541, col: 31, offset: 49756},
+															pos: position{line: 1542, col: 31, offset: 49785},
 															expr: &actionExpr{
-																pos: position{line: 2900, col: 10, offset: 91454},
+																pos: position{line: 2901, col: 10, offset: 91483},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2900, col: 10, offset: 91454},
+																	pos:        position{line: 2901, col: 10, offset: 91483},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -38962,25 +39180,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2909, col: 12, offset: 91625},
+															pos: position{line: 2910, col: 12, offset: 91654},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2909, col: 13, offset: 91626},
+																pos: position{line: 2910, col: 13, offset: 91655},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 13, offset: 91626},
+																		pos:        position{line: 2910, col: 13, offset: 91655},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 20, offset: 91633},
+																		pos:        position{line: 2910, col: 20, offset: 91662},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 29, offset: 91642},
+																		pos:        position{line: 2910, col: 29, offset: 91671},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -38992,42 +39210,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1767, col: 9, offset: 57115},
+												pos:   position{line: 1768, col: 9, offset: 57144},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1767, col: 15, offset: 57121},
+													pos: position{line: 1768, col: 15, offset: 57150},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2510, col: 22, offset: 80439},
+															pos: position{line: 2511, col: 22, offset: 80468},
 															run: (*parser).callonShortcutParagraph265,
 															expr: &seqExpr{
-																pos: position{line: 2510, col: 22, offset: 80439},
+																pos: position{line: 2511, col: 22, offset: 80468},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2515, col: 31, offset: 80660},
+																		pos:        position{line: 2516, col: 31, offset: 80689},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2515, col: 36, offset: 80665},
+																		pos: position{line: 2516, col: 36, offset: 80694},
 																		expr: &litMatcher{
-																			pos:        position{line: 2515, col: 37, offset: 80666},
+																			pos:        position{line: 2516, col: 37, offset: 80695},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2510, col: 49, offset: 80466},
+																		pos:   position{line: 2511, col: 49, offset: 80495},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2846, col: 13, offset: 89980},
+																			pos: position{line: 2847, col: 13, offset: 90009},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2846, col: 13, offset: 89980},
+																				pos: position{line: 2847, col: 13, offset: 90009},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2846, col: 13, offset: 89980},
+																					pos:        position{line: 2847, col: 13, offset: 90009},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39037,28 +39255,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2922, col: 8, offset: 91852},
+																		pos: position{line: 2923, col: 8, offset: 91881},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2909, col: 12, offset: 91625},
+																				pos: position{line: 2910, col: 12, offset: 91654},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2909, col: 13, offset: 91626},
+																					pos: position{line: 2910, col: 13, offset: 91655},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 13, offset: 91626},
+																							pos:        position{line: 2910, col: 13, offset: 91655},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 20, offset: 91633},
+																							pos:        position{line: 2910, col: 20, offset: 91662},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 29, offset: 91642},
+																							pos:        position{line: 2910, col: 29, offset: 91671},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39067,9 +39285,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2919, col: 8, offset: 91802},
+																				pos: position{line: 2920, col: 8, offset: 91831},
 																				expr: &anyMatcher{
-																					line: 2919, col: 9, offset: 91803,
+																					line: 2920, col: 9, offset: 91832,
 																				},
 																			},
 																		},
@@ -39078,21 +39296,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1789, col: 5, offset: 57721},
+															pos: position{line: 1790, col: 5, offset: 57750},
 															run: (*parser).callonShortcutParagraph282,
 															expr: &seqExpr{
-																pos: position{line: 1789, col: 5, offset: 57721},
+																pos: position{line: 1790, col: 5, offset: 57750},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1789, col: 5, offset: 57721},
+																		pos:   position{line: 1790, col: 5, offset: 57750},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2850, col: 14, offset: 90047},
+																			pos: position{line: 2851, col: 14, offset: 90076},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2850, col: 14, offset: 90047},
+																				pos: position{line: 2851, col: 14, offset: 90076},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2850, col: 14, offset: 90047},
+																					pos:        position{line: 2851, col: 14, offset: 90076},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39102,32 +39320,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1790, col: 5, offset: 57745},
+																		pos: position{line: 1791, col: 5, offset: 57774},
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2922, col: 8, offset: 91852},
+																		pos: position{line: 2923, col: 8, offset: 91881},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2909, col: 12, offset: 91625},
+																				pos: position{line: 2910, col: 12, offset: 91654},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2909, col: 13, offset: 91626},
+																					pos: position{line: 2910, col: 13, offset: 91655},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 13, offset: 91626},
+																							pos:        position{line: 2910, col: 13, offset: 91655},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 20, offset: 91633},
+																							pos:        position{line: 2910, col: 20, offset: 91662},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 29, offset: 91642},
+																							pos:        position{line: 2910, col: 29, offset: 91671},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39136,9 +39354,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2919, col: 8, offset: 91802},
+																				pos: position{line: 2920, col: 8, offset: 91831},
 																				expr: &anyMatcher{
-																					line: 2919, col: 9, offset: 91803,
+																					line: 2920, col: 9, offset: 91832,
 																				},
 																			},
 																		},
@@ -39160,96 +39378,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1774, col: 1, offset: 57325},
+			pos:  position{line: 1775, col: 1, offset: 57354},
 			expr: &actionExpr{
-				pos: position{line: 1775, col: 5, offset: 57343},
+				pos: position{line: 1776, col: 5, offset: 57372},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1775, col: 5, offset: 57343},
+					pos: position{line: 1776, col: 5, offset: 57372},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1775, col: 5, offset: 57343},
+							pos:   position{line: 1776, col: 5, offset: 57372},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1775, col: 11, offset: 57349},
+								pos: position{line: 1776, col: 11, offset: 57378},
 								expr: &actionExpr{
-									pos: position{line: 1730, col: 5, offset: 55855},
+									pos: position{line: 1731, col: 5, offset: 55884},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1730, col: 5, offset: 55855},
+										pos: position{line: 1731, col: 5, offset: 55884},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1730, col: 5, offset: 55855},
+												pos: position{line: 1731, col: 5, offset: 55884},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1733, col: 5, offset: 55918},
+												pos:   position{line: 1734, col: 5, offset: 55947},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1733, col: 12, offset: 55925},
+													pos: position{line: 1734, col: 12, offset: 55954},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1733, col: 12, offset: 55925},
+															pos: position{line: 1734, col: 12, offset: 55954},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1733, col: 12, offset: 55925},
+																pos:        position{line: 1734, col: 12, offset: 55954},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1735, col: 13, offset: 55981},
+															pos: position{line: 1736, col: 13, offset: 56010},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1735, col: 13, offset: 55981},
+																pos:        position{line: 1736, col: 13, offset: 56010},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1737, col: 13, offset: 56039},
+															pos: position{line: 1738, col: 13, offset: 56068},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1737, col: 13, offset: 56039},
+																pos:        position{line: 1738, col: 13, offset: 56068},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1739, col: 13, offset: 56107},
+															pos: position{line: 1740, col: 13, offset: 56136},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1739, col: 13, offset: 56107},
+																pos:        position{line: 1740, col: 13, offset: 56136},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1741, col: 13, offset: 56171},
+															pos: position{line: 1742, col: 13, offset: 56200},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1741, col: 13, offset: 56171},
+																pos:        position{line: 1742, col: 13, offset: 56200},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1743, col: 13, offset: 56235},
+															pos: position{line: 1744, col: 13, offset: 56264},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1743, col: 13, offset: 56235},
+																pos: position{line: 1744, col: 13, offset: 56264},
 																expr: &actionExpr{
-																	pos: position{line: 2904, col: 11, offset: 91515},
+																	pos: position{line: 2905, col: 11, offset: 91544},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2904, col: 11, offset: 91515},
+																		pos: position{line: 2905, col: 11, offset: 91544},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2904, col: 11, offset: 91515},
+																			pos:        position{line: 2905, col: 11, offset: 91544},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39268,24 +39486,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1776, col: 5, offset: 57372},
+							pos:   position{line: 1777, col: 5, offset: 57401},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1789, col: 5, offset: 57721},
+								pos: position{line: 1790, col: 5, offset: 57750},
 								run: (*parser).callonParagraph26,
 								expr: &seqExpr{
-									pos: position{line: 1789, col: 5, offset: 57721},
+									pos: position{line: 1790, col: 5, offset: 57750},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1789, col: 5, offset: 57721},
+											pos:   position{line: 1790, col: 5, offset: 57750},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2850, col: 14, offset: 90047},
+												pos: position{line: 2851, col: 14, offset: 90076},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2850, col: 14, offset: 90047},
+													pos: position{line: 2851, col: 14, offset: 90076},
 													expr: &charClassMatcher{
-														pos:        position{line: 2850, col: 14, offset: 90047},
+														pos:        position{line: 2851, col: 14, offset: 90076},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39295,32 +39513,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1790, col: 5, offset: 57745},
+											pos: position{line: 1791, col: 5, offset: 57774},
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2922, col: 8, offset: 91852},
+											pos: position{line: 2923, col: 8, offset: 91881},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2909, col: 12, offset: 91625},
+													pos: position{line: 2910, col: 12, offset: 91654},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2909, col: 13, offset: 91626},
+														pos: position{line: 2910, col: 13, offset: 91655},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2909, col: 13, offset: 91626},
+																pos:        position{line: 2910, col: 13, offset: 91655},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2909, col: 20, offset: 91633},
+																pos:        position{line: 2910, col: 20, offset: 91662},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2909, col: 29, offset: 91642},
+																pos:        position{line: 2910, col: 29, offset: 91671},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39329,9 +39547,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2919, col: 8, offset: 91802},
+													pos: position{line: 2920, col: 8, offset: 91831},
 													expr: &anyMatcher{
-														line: 2919, col: 9, offset: 91803,
+														line: 2920, col: 9, offset: 91832,
 													},
 												},
 											},
@@ -39341,43 +39559,43 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1777, col: 5, offset: 57406},
+							pos:   position{line: 1778, col: 5, offset: 57435},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1777, col: 16, offset: 57417},
+								pos: position{line: 1778, col: 16, offset: 57446},
 								expr: &actionExpr{
-									pos: position{line: 1778, col: 9, offset: 57427},
+									pos: position{line: 1779, col: 9, offset: 57456},
 									run: (*parser).callonParagraph43,
 									expr: &seqExpr{
-										pos: position{line: 1778, col: 9, offset: 57427},
+										pos: position{line: 1779, col: 9, offset: 57456},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2917, col: 11, offset: 91788},
+												pos: position{line: 2918, col: 11, offset: 91817},
 												expr: &anyMatcher{
-													line: 2917, col: 13, offset: 91790,
+													line: 2918, col: 13, offset: 91819,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1779, col: 9, offset: 57442},
+												pos: position{line: 1780, col: 9, offset: 57471},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
+													pos: position{line: 678, col: 14, offset: 21518},
 													run: (*parser).callonParagraph48,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 678, col: 14, offset: 21518},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2917, col: 11, offset: 91788},
+																pos: position{line: 2918, col: 11, offset: 91817},
 																expr: &anyMatcher{
-																	line: 2917, col: 13, offset: 91790,
+																	line: 2918, col: 13, offset: 91819,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
+																pos: position{line: 678, col: 21, offset: 21525},
 																expr: &actionExpr{
-																	pos: position{line: 2900, col: 10, offset: 91454},
+																	pos: position{line: 2901, col: 10, offset: 91483},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2900, col: 10, offset: 91454},
+																		pos:        position{line: 2901, col: 10, offset: 91483},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39386,28 +39604,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2922, col: 8, offset: 91852},
+																pos: position{line: 2923, col: 8, offset: 91881},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2909, col: 12, offset: 91625},
+																		pos: position{line: 2910, col: 12, offset: 91654},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2909, col: 13, offset: 91626},
+																			pos: position{line: 2910, col: 13, offset: 91655},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 13, offset: 91626},
+																					pos:        position{line: 2910, col: 13, offset: 91655},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 20, offset: 91633},
+																					pos:        position{line: 2910, col: 20, offset: 91662},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2909, col: 29, offset: 91642},
+																					pos:        position{line: 2910, col: 29, offset: 91671},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39416,9 +39634,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2919, col: 8, offset: 91802},
+																		pos: position{line: 2920, col: 8, offset: 91831},
 																		expr: &anyMatcher{
-																			line: 2919, col: 9, offset: 91803,
+																			line: 2920, col: 9, offset: 91832,
 																		},
 																	},
 																},
@@ -39428,49 +39646,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1780, col: 9, offset: 57461},
+												pos: position{line: 1781, col: 9, offset: 57490},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1780, col: 10, offset: 57462},
+													pos:  position{line: 1781, col: 10, offset: 57491},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1781, col: 9, offset: 57486},
+												pos:   position{line: 1782, col: 9, offset: 57515},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1781, col: 15, offset: 57492},
+													pos: position{line: 1782, col: 15, offset: 57521},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2510, col: 22, offset: 80439},
+															pos: position{line: 2511, col: 22, offset: 80468},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 2510, col: 22, offset: 80439},
+																pos: position{line: 2511, col: 22, offset: 80468},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2515, col: 31, offset: 80660},
+																		pos:        position{line: 2516, col: 31, offset: 80689},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2515, col: 36, offset: 80665},
+																		pos: position{line: 2516, col: 36, offset: 80694},
 																		expr: &litMatcher{
-																			pos:        position{line: 2515, col: 37, offset: 80666},
+																			pos:        position{line: 2516, col: 37, offset: 80695},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2510, col: 49, offset: 80466},
+																		pos:   position{line: 2511, col: 49, offset: 80495},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2846, col: 13, offset: 89980},
+																			pos: position{line: 2847, col: 13, offset: 90009},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2846, col: 13, offset: 89980},
+																				pos: position{line: 2847, col: 13, offset: 90009},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2846, col: 13, offset: 89980},
+																					pos:        position{line: 2847, col: 13, offset: 90009},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39480,28 +39698,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2922, col: 8, offset: 91852},
+																		pos: position{line: 2923, col: 8, offset: 91881},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2909, col: 12, offset: 91625},
+																				pos: position{line: 2910, col: 12, offset: 91654},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2909, col: 13, offset: 91626},
+																					pos: position{line: 2910, col: 13, offset: 91655},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 13, offset: 91626},
+																							pos:        position{line: 2910, col: 13, offset: 91655},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 20, offset: 91633},
+																							pos:        position{line: 2910, col: 20, offset: 91662},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 29, offset: 91642},
+																							pos:        position{line: 2910, col: 29, offset: 91671},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39510,9 +39728,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2919, col: 8, offset: 91802},
+																				pos: position{line: 2920, col: 8, offset: 91831},
 																				expr: &anyMatcher{
-																					line: 2919, col: 9, offset: 91803,
+																					line: 2920, col: 9, offset: 91832,
 																				},
 																			},
 																		},
@@ -39521,21 +39739,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1789, col: 5, offset: 57721},
+															pos: position{line: 1790, col: 5, offset: 57750},
 															run: (*parser).callonParagraph84,
 															expr: &seqExpr{
-																pos: position{line: 1789, col: 5, offset: 57721},
+																pos: position{line: 1790, col: 5, offset: 57750},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1789, col: 5, offset: 57721},
+																		pos:   position{line: 1790, col: 5, offset: 57750},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2850, col: 14, offset: 90047},
+																			pos: position{line: 2851, col: 14, offset: 90076},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2850, col: 14, offset: 90047},
+																				pos: position{line: 2851, col: 14, offset: 90076},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2850, col: 14, offset: 90047},
+																					pos:        position{line: 2851, col: 14, offset: 90076},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39545,32 +39763,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1790, col: 5, offset: 57745},
+																		pos: position{line: 1791, col: 5, offset: 57774},
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2922, col: 8, offset: 91852},
+																		pos: position{line: 2923, col: 8, offset: 91881},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2909, col: 12, offset: 91625},
+																				pos: position{line: 2910, col: 12, offset: 91654},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2909, col: 13, offset: 91626},
+																					pos: position{line: 2910, col: 13, offset: 91655},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 13, offset: 91626},
+																							pos:        position{line: 2910, col: 13, offset: 91655},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 20, offset: 91633},
+																							pos:        position{line: 2910, col: 20, offset: 91662},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 29, offset: 91642},
+																							pos:        position{line: 2910, col: 29, offset: 91671},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39579,9 +39797,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2919, col: 8, offset: 91802},
+																				pos: position{line: 2920, col: 8, offset: 91831},
 																				expr: &anyMatcher{
-																					line: 2919, col: 9, offset: 91803,
+																					line: 2920, col: 9, offset: 91832,
 																				},
 																			},
 																		},
@@ -39603,16 +39821,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1800, col: 1, offset: 58231},
+			pos:  position{line: 1801, col: 1, offset: 58260},
 			expr: &choiceExpr{
-				pos: position{line: 1800, col: 15, offset: 58245},
+				pos: position{line: 1801, col: 15, offset: 58274},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1800, col: 15, offset: 58245},
+						pos:  position{line: 1801, col: 15, offset: 58274},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1800, col: 35, offset: 58265},
+						pos:  position{line: 1801, col: 35, offset: 58294},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -39620,65 +39838,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1802, col: 1, offset: 58286},
+			pos:  position{line: 1803, col: 1, offset: 58315},
 			expr: &actionExpr{
-				pos: position{line: 1803, col: 5, offset: 58311},
+				pos: position{line: 1804, col: 5, offset: 58340},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1803, col: 5, offset: 58311},
+					pos: position{line: 1804, col: 5, offset: 58340},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1803, col: 5, offset: 58311},
+							pos:   position{line: 1804, col: 5, offset: 58340},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1803, col: 16, offset: 58322},
+								pos: position{line: 1804, col: 16, offset: 58351},
 								expr: &actionExpr{
-									pos: position{line: 1803, col: 17, offset: 58323},
+									pos: position{line: 1804, col: 17, offset: 58352},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1803, col: 17, offset: 58323},
+										pos:  position{line: 1804, col: 17, offset: 58352},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1806, col: 5, offset: 58391},
+							pos: position{line: 1807, col: 5, offset: 58420},
 							expr: &litMatcher{
-								pos:        position{line: 1806, col: 7, offset: 58393},
+								pos:        position{line: 1807, col: 7, offset: 58422},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1807, col: 5, offset: 58402},
+							pos:   position{line: 1808, col: 5, offset: 58431},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1808, col: 9, offset: 58420},
+								pos: position{line: 1809, col: 9, offset: 58449},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1808, col: 9, offset: 58420},
+										pos:  position{line: 1809, col: 9, offset: 58449},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1809, col: 11, offset: 58447},
+										pos:  position{line: 1810, col: 11, offset: 58476},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1810, col: 11, offset: 58475},
+										pos:  position{line: 1811, col: 11, offset: 58504},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1811, col: 11, offset: 58506},
+										pos:  position{line: 1812, col: 11, offset: 58535},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1812, col: 11, offset: 58534},
+										pos:  position{line: 1813, col: 11, offset: 58563},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1813, col: 11, offset: 58565},
+										pos:  position{line: 1814, col: 11, offset: 58594},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -39690,36 +39908,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1818, col: 1, offset: 58685},
+			pos:  position{line: 1819, col: 1, offset: 58714},
 			expr: &actionExpr{
-				pos: position{line: 1819, col: 5, offset: 58727},
+				pos: position{line: 1820, col: 5, offset: 58756},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1819, col: 5, offset: 58727},
+					pos: position{line: 1820, col: 5, offset: 58756},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1819, col: 5, offset: 58727},
+							pos:   position{line: 1820, col: 5, offset: 58756},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1819, col: 16, offset: 58738},
+								pos: position{line: 1820, col: 16, offset: 58767},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1819, col: 17, offset: 58739},
+									pos:  position{line: 1820, col: 17, offset: 58768},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1820, col: 5, offset: 58764},
+							pos:   position{line: 1821, col: 5, offset: 58793},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1820, col: 14, offset: 58773},
+								pos: position{line: 1821, col: 14, offset: 58802},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1820, col: 14, offset: 58773},
+										pos:  position{line: 1821, col: 14, offset: 58802},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1820, col: 33, offset: 58792},
+										pos:  position{line: 1821, col: 33, offset: 58821},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -39731,32 +39949,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1828, col: 1, offset: 59023},
+			pos:  position{line: 1829, col: 1, offset: 59052},
 			expr: &choiceExpr{
-				pos: position{line: 1829, col: 5, offset: 59048},
+				pos: position{line: 1830, col: 5, offset: 59077},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1829, col: 5, offset: 59048},
+						pos:  position{line: 1830, col: 5, offset: 59077},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1830, col: 7, offset: 59075},
+						pos:  position{line: 1831, col: 7, offset: 59104},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1831, col: 7, offset: 59103},
+						pos:  position{line: 1832, col: 7, offset: 59132},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1832, col: 7, offset: 59135},
+						pos:  position{line: 1833, col: 7, offset: 59164},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1833, col: 7, offset: 59163},
+						pos:  position{line: 1834, col: 7, offset: 59192},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1834, col: 7, offset: 59184},
+						pos:  position{line: 1835, col: 7, offset: 59213},
 						name: "SuperscriptText",
 					},
 				},
@@ -39764,24 +39982,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1836, col: 1, offset: 59202},
+			pos:  position{line: 1837, col: 1, offset: 59231},
 			expr: &choiceExpr{
-				pos: position{line: 1837, col: 5, offset: 59227},
+				pos: position{line: 1838, col: 5, offset: 59256},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1837, col: 5, offset: 59227},
+						pos:  position{line: 1838, col: 5, offset: 59256},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1838, col: 7, offset: 59253},
+						pos:  position{line: 1839, col: 7, offset: 59282},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1839, col: 7, offset: 59281},
+						pos:  position{line: 1840, col: 7, offset: 59310},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1840, col: 7, offset: 59312},
+						pos:  position{line: 1841, col: 7, offset: 59341},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -39789,26 +40007,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1854, col: 1, offset: 59666},
+			pos:  position{line: 1855, col: 1, offset: 59695},
 			expr: &choiceExpr{
-				pos: position{line: 1855, col: 5, offset: 59692},
+				pos: position{line: 1856, col: 5, offset: 59721},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2799, col: 5, offset: 88696},
+						pos: position{line: 2800, col: 5, offset: 88725},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2799, col: 5, offset: 88696},
+							pos: position{line: 2800, col: 5, offset: 88725},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2799, col: 5, offset: 88696},
+									pos:   position{line: 2800, col: 5, offset: 88725},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2799, col: 11, offset: 88702},
+										pos: position{line: 2800, col: 11, offset: 88731},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2799, col: 11, offset: 88702},
+											pos: position{line: 2800, col: 11, offset: 88731},
 											expr: &charClassMatcher{
-												pos:        position{line: 2799, col: 11, offset: 88702},
+												pos:        position{line: 2800, col: 11, offset: 88731},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -39818,36 +40036,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2802, col: 5, offset: 88760},
+									pos: position{line: 2803, col: 5, offset: 88789},
 									expr: &seqExpr{
-										pos: position{line: 2803, col: 9, offset: 88771},
+										pos: position{line: 2804, col: 9, offset: 88800},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2803, col: 9, offset: 88771},
+												pos:        position{line: 2804, col: 9, offset: 88800},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2804, col: 9, offset: 88820},
+												pos: position{line: 2805, col: 9, offset: 88849},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2808, col: 5, offset: 88900},
+									pos: position{line: 2809, col: 5, offset: 88929},
 									expr: &seqExpr{
-										pos: position{line: 2809, col: 9, offset: 88911},
+										pos: position{line: 2810, col: 9, offset: 88940},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2809, col: 9, offset: 88911},
+												pos:        position{line: 2810, col: 9, offset: 88940},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2809, col: 13, offset: 88915},
+												pos:        position{line: 2810, col: 13, offset: 88944},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -39860,12 +40078,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2904, col: 11, offset: 91515},
+						pos: position{line: 2905, col: 11, offset: 91544},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2904, col: 11, offset: 91515},
+							pos: position{line: 2905, col: 11, offset: 91544},
 							expr: &charClassMatcher{
-								pos:        position{line: 2904, col: 11, offset: 91515},
+								pos:        position{line: 2905, col: 11, offset: 91544},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -39874,25 +40092,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1857, col: 7, offset: 59755},
+						pos:  position{line: 1858, col: 7, offset: 59784},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2528, col: 5, offset: 81156},
+						pos: position{line: 2529, col: 5, offset: 81185},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2528, col: 5, offset: 81156},
+							pos: position{line: 2529, col: 5, offset: 81185},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2528, col: 5, offset: 81156},
+									pos:        position{line: 2529, col: 5, offset: 81185},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2528, col: 10, offset: 81161},
+									pos: position{line: 2529, col: 10, offset: 81190},
 									expr: &charClassMatcher{
-										pos:        position{line: 2528, col: 11, offset: 81162},
+										pos:        position{line: 2529, col: 11, offset: 81191},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -39903,29 +40121,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2534, col: 5, offset: 81354},
+						pos: position{line: 2535, col: 5, offset: 81383},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2534, col: 5, offset: 81354},
+							pos: position{line: 2535, col: 5, offset: 81383},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2534, col: 5, offset: 81354},
+									pos: position{line: 2535, col: 5, offset: 81383},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2537, col: 5, offset: 81425},
+									pos: position{line: 2538, col: 5, offset: 81454},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2541, col: 5, offset: 81550},
+									pos:        position{line: 2542, col: 5, offset: 81579},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2541, col: 9, offset: 81554},
+									pos: position{line: 2542, col: 9, offset: 81583},
 									expr: &charClassMatcher{
-										pos:        position{line: 2541, col: 10, offset: 81555},
+										pos:        position{line: 2542, col: 10, offset: 81584},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -39936,27 +40154,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2817, col: 5, offset: 89108},
+						pos: position{line: 2818, col: 5, offset: 89137},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2818, col: 9, offset: 89118},
+							pos: position{line: 2819, col: 9, offset: 89147},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2818, col: 10, offset: 89119},
+									pos:        position{line: 2819, col: 10, offset: 89148},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2820, col: 13, offset: 89216},
+									pos: position{line: 2821, col: 13, offset: 89245},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2820, col: 13, offset: 89216},
+											pos: position{line: 2821, col: 13, offset: 89245},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2823, col: 13, offset: 89316},
+											pos:        position{line: 2824, col: 13, offset: 89345},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -39964,20 +40182,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2823, col: 19, offset: 89322},
+									pos:        position{line: 2824, col: 19, offset: 89351},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2826, col: 13, offset: 89360},
+									pos: position{line: 2827, col: 13, offset: 89389},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2826, col: 13, offset: 89360},
+											pos: position{line: 2827, col: 13, offset: 89389},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2829, col: 14, offset: 89453},
+											pos:        position{line: 2830, col: 14, offset: 89482},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -39986,18 +40204,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2831, col: 12, offset: 89497},
+									pos: position{line: 2832, col: 12, offset: 89526},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2831, col: 12, offset: 89497},
+											pos:        position{line: 2832, col: 12, offset: 89526},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2831, col: 16, offset: 89501},
+											pos: position{line: 2832, col: 16, offset: 89530},
 											expr: &litMatcher{
-												pos:        position{line: 2831, col: 17, offset: 89502},
+												pos:        position{line: 2832, col: 17, offset: 89531},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -40009,35 +40227,35 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 636, col: 5, offset: 20109},
+						pos: position{line: 637, col: 5, offset: 20136},
 						run: (*parser).callonQuotedTextElement46,
 						expr: &seqExpr{
-							pos: position{line: 636, col: 5, offset: 20109},
+							pos: position{line: 637, col: 5, offset: 20136},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 636, col: 5, offset: 20109},
+									pos: position{line: 637, col: 5, offset: 20136},
 									run: (*parser).callonQuotedTextElement48,
 								},
 								&labeledExpr{
-									pos:   position{line: 639, col: 5, offset: 20181},
+									pos:   position{line: 640, col: 5, offset: 20208},
 									label: "element",
 									expr: &choiceExpr{
-										pos: position{line: 639, col: 14, offset: 20190},
+										pos: position{line: 640, col: 14, offset: 20217},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 645, col: 5, offset: 20319},
+												pos: position{line: 646, col: 5, offset: 20346},
 												run: (*parser).callonQuotedTextElement51,
 												expr: &seqExpr{
-													pos: position{line: 645, col: 5, offset: 20319},
+													pos: position{line: 646, col: 5, offset: 20346},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 645, col: 5, offset: 20319},
+															pos:        position{line: 646, col: 5, offset: 20346},
 															val:        "\\{",
 															ignoreCase: false,
 															want:       "\"\\\\{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 645, col: 13, offset: 20327},
+															pos:   position{line: 646, col: 13, offset: 20354},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
@@ -40069,7 +40287,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 645, col: 32, offset: 20346},
+															pos:        position{line: 646, col: 32, offset: 20373},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -40078,19 +40296,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 652, col: 5, offset: 20587},
+												pos: position{line: 653, col: 5, offset: 20614},
 												run: (*parser).callonQuotedTextElement61,
 												expr: &seqExpr{
-													pos: position{line: 652, col: 5, offset: 20587},
+													pos: position{line: 653, col: 5, offset: 20614},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 652, col: 5, offset: 20587},
+															pos:        position{line: 653, col: 5, offset: 20614},
 															val:        "{",
 															ignoreCase: false,
 															want:       "\"{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 652, col: 9, offset: 20591},
+															pos:   position{line: 653, col: 9, offset: 20618},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
@@ -40122,7 +40340,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 652, col: 28, offset: 20610},
+															pos:        position{line: 653, col: 28, offset: 20637},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -40131,19 +40349,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 658, col: 25, offset: 20791},
+												pos: position{line: 659, col: 25, offset: 20818},
 												run: (*parser).callonQuotedTextElement71,
 												expr: &seqExpr{
-													pos: position{line: 658, col: 25, offset: 20791},
+													pos: position{line: 659, col: 25, offset: 20818},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 658, col: 25, offset: 20791},
+															pos:        position{line: 659, col: 25, offset: 20818},
 															val:        "{counter:",
 															ignoreCase: false,
 															want:       "\"{counter:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 658, col: 37, offset: 20803},
+															pos:   position{line: 659, col: 37, offset: 20830},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
@@ -40175,33 +40393,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 658, col: 56, offset: 20822},
+															pos:   position{line: 659, col: 56, offset: 20849},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 658, col: 62, offset: 20828},
+																pos: position{line: 659, col: 62, offset: 20855},
 																expr: &actionExpr{
-																	pos: position{line: 666, col: 17, offset: 21123},
+																	pos: position{line: 667, col: 17, offset: 21152},
 																	run: (*parser).callonQuotedTextElement82,
 																	expr: &seqExpr{
-																		pos: position{line: 666, col: 17, offset: 21123},
+																		pos: position{line: 667, col: 17, offset: 21152},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 666, col: 17, offset: 21123},
+																				pos:        position{line: 667, col: 17, offset: 21152},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 666, col: 21, offset: 21127},
+																				pos:   position{line: 667, col: 21, offset: 21156},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 666, col: 28, offset: 21134},
+																					pos: position{line: 667, col: 28, offset: 21163},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 666, col: 28, offset: 21134},
+																							pos: position{line: 667, col: 28, offset: 21163},
 																							run: (*parser).callonQuotedTextElement87,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 666, col: 28, offset: 21134},
+																								pos:        position{line: 667, col: 28, offset: 21163},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -40209,12 +40427,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 668, col: 9, offset: 21188},
+																							pos: position{line: 669, col: 9, offset: 21217},
 																							run: (*parser).callonQuotedTextElement89,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 668, col: 9, offset: 21188},
+																								pos: position{line: 669, col: 9, offset: 21217},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 668, col: 9, offset: 21188},
+																									pos:        position{line: 669, col: 9, offset: 21217},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -40231,7 +40449,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 658, col: 78, offset: 20844},
+															pos:        position{line: 659, col: 78, offset: 20871},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -40240,19 +40458,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 662, col: 25, offset: 20962},
+												pos: position{line: 663, col: 25, offset: 20989},
 												run: (*parser).callonQuotedTextElement93,
 												expr: &seqExpr{
-													pos: position{line: 662, col: 25, offset: 20962},
+													pos: position{line: 663, col: 25, offset: 20989},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 662, col: 25, offset: 20962},
+															pos:        position{line: 663, col: 25, offset: 20989},
 															val:        "{counter2:",
 															ignoreCase: false,
 															want:       "\"{counter2:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 662, col: 38, offset: 20975},
+															pos:   position{line: 663, col: 38, offset: 21002},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
@@ -40284,33 +40502,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 662, col: 57, offset: 20994},
+															pos:   position{line: 663, col: 57, offset: 21021},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 662, col: 63, offset: 21000},
+																pos: position{line: 663, col: 63, offset: 21027},
 																expr: &actionExpr{
-																	pos: position{line: 666, col: 17, offset: 21123},
+																	pos: position{line: 667, col: 17, offset: 21152},
 																	run: (*parser).callonQuotedTextElement104,
 																	expr: &seqExpr{
-																		pos: position{line: 666, col: 17, offset: 21123},
+																		pos: position{line: 667, col: 17, offset: 21152},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 666, col: 17, offset: 21123},
+																				pos:        position{line: 667, col: 17, offset: 21152},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 666, col: 21, offset: 21127},
+																				pos:   position{line: 667, col: 21, offset: 21156},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 666, col: 28, offset: 21134},
+																					pos: position{line: 667, col: 28, offset: 21163},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 666, col: 28, offset: 21134},
+																							pos: position{line: 667, col: 28, offset: 21163},
 																							run: (*parser).callonQuotedTextElement109,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 666, col: 28, offset: 21134},
+																								pos:        position{line: 667, col: 28, offset: 21163},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -40318,12 +40536,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 668, col: 9, offset: 21188},
+																							pos: position{line: 669, col: 9, offset: 21217},
 																							run: (*parser).callonQuotedTextElement111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 668, col: 9, offset: 21188},
+																								pos: position{line: 669, col: 9, offset: 21217},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 668, col: 9, offset: 21188},
+																									pos:        position{line: 669, col: 9, offset: 21217},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -40340,7 +40558,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 662, col: 79, offset: 21016},
+															pos:        position{line: 663, col: 79, offset: 21043},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -40355,31 +40573,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2913, col: 18, offset: 91725},
+						pos: position{line: 2914, col: 18, offset: 91754},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2913, col: 18, offset: 91725},
+							pos: position{line: 2914, col: 18, offset: 91754},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2909, col: 12, offset: 91625},
+									pos: position{line: 2910, col: 12, offset: 91654},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2909, col: 13, offset: 91626},
+										pos: position{line: 2910, col: 13, offset: 91655},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2909, col: 13, offset: 91626},
+												pos:        position{line: 2910, col: 13, offset: 91655},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2909, col: 20, offset: 91633},
+												pos:        position{line: 2910, col: 20, offset: 91662},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2909, col: 29, offset: 91642},
+												pos:        position{line: 2910, col: 29, offset: 91671},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -40388,27 +40606,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2913, col: 26, offset: 91733},
+									pos: position{line: 2914, col: 26, offset: 91762},
 									expr: &actionExpr{
-										pos: position{line: 2909, col: 12, offset: 91625},
+										pos: position{line: 2910, col: 12, offset: 91654},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2909, col: 13, offset: 91626},
+											pos: position{line: 2910, col: 13, offset: 91655},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2909, col: 13, offset: 91626},
+													pos:        position{line: 2910, col: 13, offset: 91655},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2909, col: 20, offset: 91633},
+													pos:        position{line: 2910, col: 20, offset: 91662},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2909, col: 29, offset: 91642},
+													pos:        position{line: 2910, col: 29, offset: 91671},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -40421,31 +40639,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1862, col: 7, offset: 59922},
+						pos:  position{line: 1863, col: 7, offset: 59951},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1863, col: 7, offset: 59969},
+						pos:  position{line: 1864, col: 7, offset: 59998},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2497, col: 5, offset: 79985},
+						pos: position{line: 2498, col: 5, offset: 80014},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2497, col: 5, offset: 79985},
+							pos: position{line: 2498, col: 5, offset: 80014},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2497, col: 5, offset: 79985},
+									pos: position{line: 2498, col: 5, offset: 80014},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2500, col: 5, offset: 80061},
+									pos:   position{line: 2501, col: 5, offset: 80090},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2501, col: 9, offset: 80079},
+										pos: position{line: 2502, col: 9, offset: 80108},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2501, col: 10, offset: 80080},
+											pos:        position{line: 2502, col: 10, offset: 80109},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -40457,27 +40675,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1198, col: 23, offset: 36972},
+						pos: position{line: 1199, col: 23, offset: 37001},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 1198, col: 23, offset: 36972},
+							pos: position{line: 1199, col: 23, offset: 37001},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1196, col: 32, offset: 36940},
+									pos:        position{line: 1197, col: 32, offset: 36969},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1198, col: 51, offset: 37000},
+									pos:   position{line: 1199, col: 51, offset: 37029},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1198, col: 56, offset: 37005},
+										pos: position{line: 1199, col: 56, offset: 37034},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1198, col: 56, offset: 37005},
+											pos: position{line: 1199, col: 56, offset: 37034},
 											expr: &charClassMatcher{
-												pos:        position{line: 1198, col: 56, offset: 37005},
+												pos:        position{line: 1199, col: 56, offset: 37034},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -40487,7 +40705,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1196, col: 32, offset: 36940},
+									pos:        position{line: 1197, col: 32, offset: 36969},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
@@ -40496,10 +40714,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2839, col: 12, offset: 89762},
+						pos: position{line: 2840, col: 12, offset: 89791},
 						run: (*parser).callonQuotedTextElement144,
 						expr: &charClassMatcher{
-							pos:        position{line: 2839, col: 12, offset: 89762},
+							pos:        position{line: 2840, col: 12, offset: 89791},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -40511,29 +40729,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1881, col: 1, offset: 60439},
+			pos:  position{line: 1882, col: 1, offset: 60468},
 			expr: &actionExpr{
-				pos: position{line: 1882, col: 5, offset: 60467},
+				pos: position{line: 1883, col: 5, offset: 60496},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1882, col: 5, offset: 60467},
+					pos: position{line: 1883, col: 5, offset: 60496},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1877, col: 38, offset: 60392},
+							pos:        position{line: 1878, col: 38, offset: 60421},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1883, col: 5, offset: 60506},
+							pos:   position{line: 1884, col: 5, offset: 60535},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1883, col: 15, offset: 60516},
+								pos:  position{line: 1884, col: 15, offset: 60545},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1879, col: 36, offset: 60433},
+							pos:        position{line: 1880, col: 36, offset: 60462},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -40544,24 +40762,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1888, col: 1, offset: 60676},
+			pos:  position{line: 1889, col: 1, offset: 60705},
 			expr: &actionExpr{
-				pos: position{line: 1889, col: 5, offset: 60711},
+				pos: position{line: 1890, col: 5, offset: 60740},
 				run: (*parser).callonDoubleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1889, col: 5, offset: 60711},
+					pos: position{line: 1890, col: 5, offset: 60740},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1889, col: 5, offset: 60711},
+							pos: position{line: 1890, col: 5, offset: 60740},
 							run: (*parser).callonDoubleQuoteBoldTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1893, col: 5, offset: 60831},
+							pos:   position{line: 1894, col: 5, offset: 60860},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1893, col: 14, offset: 60840},
+								pos: position{line: 1894, col: 14, offset: 60869},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1893, col: 15, offset: 60841},
+									pos:  position{line: 1894, col: 15, offset: 60870},
 									name: "DoubleQuoteBoldTextElement",
 								},
 							},
@@ -40572,33 +40790,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1897, col: 1, offset: 60908},
+			pos:  position{line: 1898, col: 1, offset: 60937},
 			expr: &actionExpr{
-				pos: position{line: 1898, col: 5, offset: 60943},
+				pos: position{line: 1899, col: 5, offset: 60972},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1898, col: 5, offset: 60943},
+					pos: position{line: 1899, col: 5, offset: 60972},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2917, col: 11, offset: 91788},
+							pos: position{line: 2918, col: 11, offset: 91817},
 							expr: &anyMatcher{
-								line: 2917, col: 13, offset: 91790,
+								line: 2918, col: 13, offset: 91819,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1899, col: 5, offset: 60954},
+							pos: position{line: 1900, col: 5, offset: 60983},
 							expr: &litMatcher{
-								pos:        position{line: 1879, col: 36, offset: 60433},
+								pos:        position{line: 1880, col: 36, offset: 60462},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1900, col: 5, offset: 60991},
+							pos:   position{line: 1901, col: 5, offset: 61020},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1900, col: 14, offset: 61000},
+								pos:  position{line: 1901, col: 14, offset: 61029},
 								name: "QuotedTextElement",
 							},
 						},
@@ -40608,29 +40826,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1925, col: 1, offset: 61680},
+			pos:  position{line: 1926, col: 1, offset: 61709},
 			expr: &actionExpr{
-				pos: position{line: 1926, col: 5, offset: 61708},
+				pos: position{line: 1927, col: 5, offset: 61737},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1926, col: 5, offset: 61708},
+					pos: position{line: 1927, col: 5, offset: 61737},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1909, col: 5, offset: 61234},
+							pos:        position{line: 1910, col: 5, offset: 61263},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1910, col: 5, offset: 61243},
+							pos: position{line: 1911, col: 5, offset: 61272},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1914, col: 5, offset: 61361},
+							pos: position{line: 1915, col: 5, offset: 61390},
 							expr: &notExpr{
-								pos: position{line: 1914, col: 7, offset: 61363},
+								pos: position{line: 1915, col: 7, offset: 61392},
 								expr: &litMatcher{
-									pos:        position{line: 1914, col: 8, offset: 61364},
+									pos:        position{line: 1915, col: 8, offset: 61393},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -40638,38 +40856,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1927, col: 5, offset: 61746},
+							pos:   position{line: 1928, col: 5, offset: 61775},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1927, col: 15, offset: 61756},
+								pos:  position{line: 1928, col: 15, offset: 61785},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1917, col: 5, offset: 61484},
+							pos:        position{line: 1918, col: 5, offset: 61513},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1918, col: 5, offset: 61493},
+							pos: position{line: 1919, col: 5, offset: 61522},
 							expr: &litMatcher{
-								pos:        position{line: 1918, col: 6, offset: 61494},
+								pos:        position{line: 1919, col: 6, offset: 61523},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1919, col: 5, offset: 61557},
+							pos: position{line: 1920, col: 5, offset: 61586},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1923, col: 5, offset: 61666},
+							pos: position{line: 1924, col: 5, offset: 61695},
 							expr: &notExpr{
-								pos: position{line: 1923, col: 7, offset: 61668},
+								pos: position{line: 1924, col: 7, offset: 61697},
 								expr: &charClassMatcher{
-									pos:        position{line: 2790, col: 13, offset: 88549},
+									pos:        position{line: 2791, col: 13, offset: 88578},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -40683,20 +40901,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1932, col: 1, offset: 61916},
+			pos:  position{line: 1933, col: 1, offset: 61945},
 			expr: &actionExpr{
-				pos: position{line: 1933, col: 5, offset: 61953},
+				pos: position{line: 1934, col: 5, offset: 61982},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1933, col: 5, offset: 61953},
+					pos: position{line: 1934, col: 5, offset: 61982},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1933, col: 5, offset: 61953},
+							pos: position{line: 1934, col: 5, offset: 61982},
 							expr: &actionExpr{
-								pos: position{line: 2900, col: 10, offset: 91454},
+								pos: position{line: 2901, col: 10, offset: 91483},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2900, col: 10, offset: 91454},
+									pos:        position{line: 2901, col: 10, offset: 91483},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -40705,18 +40923,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1934, col: 5, offset: 61992},
+							pos:   position{line: 1935, col: 5, offset: 62021},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1934, col: 14, offset: 62001},
+								pos: position{line: 1935, col: 14, offset: 62030},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1934, col: 15, offset: 62002},
+									pos:  position{line: 1935, col: 15, offset: 62031},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1935, col: 5, offset: 62036},
+							pos: position{line: 1936, col: 5, offset: 62065},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -40725,49 +40943,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1941, col: 1, offset: 62177},
+			pos:  position{line: 1942, col: 1, offset: 62206},
 			expr: &actionExpr{
-				pos: position{line: 1942, col: 5, offset: 62212},
+				pos: position{line: 1943, col: 5, offset: 62241},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1942, col: 5, offset: 62212},
+					pos: position{line: 1943, col: 5, offset: 62241},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2917, col: 11, offset: 91788},
+							pos: position{line: 2918, col: 11, offset: 91817},
 							expr: &anyMatcher{
-								line: 2917, col: 13, offset: 91790,
+								line: 2918, col: 13, offset: 91819,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1943, col: 5, offset: 62240},
+							pos: position{line: 1944, col: 5, offset: 62269},
 							expr: &seqExpr{
-								pos: position{line: 1917, col: 5, offset: 61484},
+								pos: position{line: 1918, col: 5, offset: 61513},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1917, col: 5, offset: 61484},
+										pos:        position{line: 1918, col: 5, offset: 61513},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1918, col: 5, offset: 61493},
+										pos: position{line: 1919, col: 5, offset: 61522},
 										expr: &litMatcher{
-											pos:        position{line: 1918, col: 6, offset: 61494},
+											pos:        position{line: 1919, col: 6, offset: 61523},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1919, col: 5, offset: 61557},
+										pos: position{line: 1920, col: 5, offset: 61586},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1923, col: 5, offset: 61666},
+										pos: position{line: 1924, col: 5, offset: 61695},
 										expr: &notExpr{
-											pos: position{line: 1923, col: 7, offset: 61668},
+											pos: position{line: 1924, col: 7, offset: 61697},
 											expr: &charClassMatcher{
-												pos:        position{line: 2790, col: 13, offset: 88549},
+												pos:        position{line: 2791, col: 13, offset: 88578},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40779,10 +40997,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1944, col: 5, offset: 62277},
+							pos:   position{line: 1945, col: 5, offset: 62306},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1944, col: 14, offset: 62286},
+								pos:  position{line: 1945, col: 14, offset: 62315},
 								name: "QuotedTextElement",
 							},
 						},
@@ -40792,35 +41010,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1949, col: 1, offset: 62374},
+			pos:  position{line: 1950, col: 1, offset: 62403},
 			expr: &choiceExpr{
-				pos: position{line: 1951, col: 5, offset: 62435},
+				pos: position{line: 1952, col: 5, offset: 62464},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1951, col: 5, offset: 62435},
+						pos: position{line: 1952, col: 5, offset: 62464},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1951, col: 5, offset: 62435},
+							pos: position{line: 1952, col: 5, offset: 62464},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1951, col: 5, offset: 62435},
+									pos:   position{line: 1952, col: 5, offset: 62464},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1850, col: 25, offset: 59612},
+										pos: position{line: 1851, col: 25, offset: 59641},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1850, col: 25, offset: 59612},
+											pos: position{line: 1851, col: 25, offset: 59641},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1850, col: 25, offset: 59612},
+													pos:        position{line: 1851, col: 25, offset: 59641},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1850, col: 30, offset: 59617},
+													pos: position{line: 1851, col: 30, offset: 59646},
 													expr: &litMatcher{
-														pos:        position{line: 1850, col: 30, offset: 59617},
+														pos:        position{line: 1851, col: 30, offset: 59646},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -40831,21 +41049,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1951, col: 40, offset: 62470},
+									pos:        position{line: 1952, col: 40, offset: 62499},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1951, col: 45, offset: 62475},
+									pos:   position{line: 1952, col: 45, offset: 62504},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1951, col: 55, offset: 62485},
+										pos:  position{line: 1952, col: 55, offset: 62514},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1951, col: 84, offset: 62514},
+									pos:        position{line: 1952, col: 84, offset: 62543},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -40854,21 +41072,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1955, col: 7, offset: 62678},
+						pos: position{line: 1956, col: 7, offset: 62707},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1955, col: 7, offset: 62678},
+							pos: position{line: 1956, col: 7, offset: 62707},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1955, col: 7, offset: 62678},
+									pos:   position{line: 1956, col: 7, offset: 62707},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1846, col: 25, offset: 59539},
+										pos: position{line: 1847, col: 25, offset: 59568},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1846, col: 25, offset: 59539},
+											pos: position{line: 1847, col: 25, offset: 59568},
 											expr: &litMatcher{
-												pos:        position{line: 1846, col: 25, offset: 59539},
+												pos:        position{line: 1847, col: 25, offset: 59568},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -40877,21 +41095,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1955, col: 42, offset: 62713},
+									pos:        position{line: 1956, col: 42, offset: 62742},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1955, col: 47, offset: 62718},
+									pos:   position{line: 1956, col: 47, offset: 62747},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1955, col: 57, offset: 62728},
+										pos:  position{line: 1956, col: 57, offset: 62757},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1955, col: 86, offset: 62757},
+									pos:        position{line: 1956, col: 86, offset: 62786},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -40900,21 +41118,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1960, col: 7, offset: 62959},
+						pos: position{line: 1961, col: 7, offset: 62988},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1960, col: 7, offset: 62959},
+							pos: position{line: 1961, col: 7, offset: 62988},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1960, col: 7, offset: 62959},
+									pos:   position{line: 1961, col: 7, offset: 62988},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1846, col: 25, offset: 59539},
+										pos: position{line: 1847, col: 25, offset: 59568},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1846, col: 25, offset: 59539},
+											pos: position{line: 1847, col: 25, offset: 59568},
 											expr: &litMatcher{
-												pos:        position{line: 1846, col: 25, offset: 59539},
+												pos:        position{line: 1847, col: 25, offset: 59568},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -40923,21 +41141,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1960, col: 42, offset: 62994},
+									pos:        position{line: 1961, col: 42, offset: 63023},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1960, col: 46, offset: 62998},
+									pos:   position{line: 1961, col: 46, offset: 63027},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1960, col: 56, offset: 63008},
+										pos:  position{line: 1961, col: 56, offset: 63037},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1960, col: 85, offset: 63037},
+									pos:        position{line: 1961, col: 85, offset: 63066},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -40950,29 +41168,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1977, col: 1, offset: 63517},
+			pos:  position{line: 1978, col: 1, offset: 63546},
 			expr: &actionExpr{
-				pos: position{line: 1978, col: 5, offset: 63547},
+				pos: position{line: 1979, col: 5, offset: 63576},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1978, col: 5, offset: 63547},
+					pos: position{line: 1979, col: 5, offset: 63576},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1973, col: 40, offset: 63468},
+							pos:        position{line: 1974, col: 40, offset: 63497},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1979, col: 5, offset: 63588},
+							pos:   position{line: 1980, col: 5, offset: 63617},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1979, col: 15, offset: 63598},
+								pos:  position{line: 1980, col: 15, offset: 63627},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1975, col: 38, offset: 63511},
+							pos:        position{line: 1976, col: 38, offset: 63540},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -40983,24 +41201,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1984, col: 1, offset: 63763},
+			pos:  position{line: 1985, col: 1, offset: 63792},
 			expr: &actionExpr{
-				pos: position{line: 1985, col: 5, offset: 63800},
+				pos: position{line: 1986, col: 5, offset: 63829},
 				run: (*parser).callonDoubleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1985, col: 5, offset: 63800},
+					pos: position{line: 1986, col: 5, offset: 63829},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1985, col: 5, offset: 63800},
+							pos: position{line: 1986, col: 5, offset: 63829},
 							run: (*parser).callonDoubleQuoteItalicTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1989, col: 5, offset: 63920},
+							pos:   position{line: 1990, col: 5, offset: 63949},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1989, col: 14, offset: 63929},
+								pos: position{line: 1990, col: 14, offset: 63958},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1989, col: 15, offset: 63930},
+									pos:  position{line: 1990, col: 15, offset: 63959},
 									name: "DoubleQuoteItalicTextElement",
 								},
 							},
@@ -41011,33 +41229,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1993, col: 1, offset: 63999},
+			pos:  position{line: 1994, col: 1, offset: 64028},
 			expr: &actionExpr{
-				pos: position{line: 1994, col: 5, offset: 64036},
+				pos: position{line: 1995, col: 5, offset: 64065},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1994, col: 5, offset: 64036},
+					pos: position{line: 1995, col: 5, offset: 64065},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2917, col: 11, offset: 91788},
+							pos: position{line: 2918, col: 11, offset: 91817},
 							expr: &anyMatcher{
-								line: 2917, col: 13, offset: 91790,
+								line: 2918, col: 13, offset: 91819,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1995, col: 5, offset: 64047},
+							pos: position{line: 1996, col: 5, offset: 64076},
 							expr: &litMatcher{
-								pos:        position{line: 1975, col: 38, offset: 63511},
+								pos:        position{line: 1976, col: 38, offset: 63540},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1996, col: 5, offset: 64086},
+							pos:   position{line: 1997, col: 5, offset: 64115},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1996, col: 14, offset: 64095},
+								pos:  position{line: 1997, col: 14, offset: 64124},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41047,29 +41265,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2022, col: 1, offset: 64779},
+			pos:  position{line: 2023, col: 1, offset: 64808},
 			expr: &actionExpr{
-				pos: position{line: 2023, col: 5, offset: 64809},
+				pos: position{line: 2024, col: 5, offset: 64838},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2023, col: 5, offset: 64809},
+					pos: position{line: 2024, col: 5, offset: 64838},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2005, col: 5, offset: 64337},
+							pos:        position{line: 2006, col: 5, offset: 64366},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2006, col: 5, offset: 64346},
+							pos: position{line: 2007, col: 5, offset: 64375},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2010, col: 5, offset: 64466},
+							pos: position{line: 2011, col: 5, offset: 64495},
 							expr: &notExpr{
-								pos: position{line: 2010, col: 7, offset: 64468},
+								pos: position{line: 2011, col: 7, offset: 64497},
 								expr: &litMatcher{
-									pos:        position{line: 2010, col: 8, offset: 64469},
+									pos:        position{line: 2011, col: 8, offset: 64498},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41077,38 +41295,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2024, col: 5, offset: 64849},
+							pos:   position{line: 2025, col: 5, offset: 64878},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2024, col: 15, offset: 64859},
+								pos:  position{line: 2025, col: 15, offset: 64888},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2014, col: 5, offset: 64579},
+							pos:        position{line: 2015, col: 5, offset: 64608},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2015, col: 5, offset: 64588},
+							pos: position{line: 2016, col: 5, offset: 64617},
 							expr: &litMatcher{
-								pos:        position{line: 2015, col: 6, offset: 64589},
+								pos:        position{line: 2016, col: 6, offset: 64618},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2016, col: 5, offset: 64654},
+							pos: position{line: 2017, col: 5, offset: 64683},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2020, col: 5, offset: 64765},
+							pos: position{line: 2021, col: 5, offset: 64794},
 							expr: &notExpr{
-								pos: position{line: 2020, col: 7, offset: 64767},
+								pos: position{line: 2021, col: 7, offset: 64796},
 								expr: &charClassMatcher{
-									pos:        position{line: 2790, col: 13, offset: 88549},
+									pos:        position{line: 2791, col: 13, offset: 88578},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41122,20 +41340,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2029, col: 1, offset: 65026},
+			pos:  position{line: 2030, col: 1, offset: 65055},
 			expr: &actionExpr{
-				pos: position{line: 2030, col: 5, offset: 65064},
+				pos: position{line: 2031, col: 5, offset: 65093},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2030, col: 5, offset: 65064},
+					pos: position{line: 2031, col: 5, offset: 65093},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2030, col: 5, offset: 65064},
+							pos: position{line: 2031, col: 5, offset: 65093},
 							expr: &actionExpr{
-								pos: position{line: 2900, col: 10, offset: 91454},
+								pos: position{line: 2901, col: 10, offset: 91483},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2900, col: 10, offset: 91454},
+									pos:        position{line: 2901, col: 10, offset: 91483},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41144,18 +41362,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2031, col: 5, offset: 65103},
+							pos:   position{line: 2032, col: 5, offset: 65132},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2031, col: 14, offset: 65112},
+								pos: position{line: 2032, col: 14, offset: 65141},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2031, col: 15, offset: 65113},
+									pos:  position{line: 2032, col: 15, offset: 65142},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2032, col: 5, offset: 65148},
+							pos: position{line: 2033, col: 5, offset: 65177},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -41164,49 +41382,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2038, col: 1, offset: 65289},
+			pos:  position{line: 2039, col: 1, offset: 65318},
 			expr: &actionExpr{
-				pos: position{line: 2039, col: 5, offset: 65326},
+				pos: position{line: 2040, col: 5, offset: 65355},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2039, col: 5, offset: 65326},
+					pos: position{line: 2040, col: 5, offset: 65355},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2917, col: 11, offset: 91788},
+							pos: position{line: 2918, col: 11, offset: 91817},
 							expr: &anyMatcher{
-								line: 2917, col: 13, offset: 91790,
+								line: 2918, col: 13, offset: 91819,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2040, col: 5, offset: 65337},
+							pos: position{line: 2041, col: 5, offset: 65366},
 							expr: &seqExpr{
-								pos: position{line: 2014, col: 5, offset: 64579},
+								pos: position{line: 2015, col: 5, offset: 64608},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2014, col: 5, offset: 64579},
+										pos:        position{line: 2015, col: 5, offset: 64608},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2015, col: 5, offset: 64588},
+										pos: position{line: 2016, col: 5, offset: 64617},
 										expr: &litMatcher{
-											pos:        position{line: 2015, col: 6, offset: 64589},
+											pos:        position{line: 2016, col: 6, offset: 64618},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2016, col: 5, offset: 64654},
+										pos: position{line: 2017, col: 5, offset: 64683},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2020, col: 5, offset: 64765},
+										pos: position{line: 2021, col: 5, offset: 64794},
 										expr: &notExpr{
-											pos: position{line: 2020, col: 7, offset: 64767},
+											pos: position{line: 2021, col: 7, offset: 64796},
 											expr: &charClassMatcher{
-												pos:        position{line: 2790, col: 13, offset: 88549},
+												pos:        position{line: 2791, col: 13, offset: 88578},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41218,10 +41436,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2041, col: 5, offset: 65376},
+							pos:   position{line: 2042, col: 5, offset: 65405},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2041, col: 14, offset: 65385},
+								pos:  position{line: 2042, col: 14, offset: 65414},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41231,35 +41449,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2046, col: 1, offset: 65473},
+			pos:  position{line: 2047, col: 1, offset: 65502},
 			expr: &choiceExpr{
-				pos: position{line: 2048, col: 5, offset: 65538},
+				pos: position{line: 2049, col: 5, offset: 65567},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2048, col: 5, offset: 65538},
+						pos: position{line: 2049, col: 5, offset: 65567},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2048, col: 5, offset: 65538},
+							pos: position{line: 2049, col: 5, offset: 65567},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2048, col: 5, offset: 65538},
+									pos:   position{line: 2049, col: 5, offset: 65567},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1850, col: 25, offset: 59612},
+										pos: position{line: 1851, col: 25, offset: 59641},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1850, col: 25, offset: 59612},
+											pos: position{line: 1851, col: 25, offset: 59641},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1850, col: 25, offset: 59612},
+													pos:        position{line: 1851, col: 25, offset: 59641},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1850, col: 30, offset: 59617},
+													pos: position{line: 1851, col: 30, offset: 59646},
 													expr: &litMatcher{
-														pos:        position{line: 1850, col: 30, offset: 59617},
+														pos:        position{line: 1851, col: 30, offset: 59646},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41270,21 +41488,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2048, col: 40, offset: 65573},
+									pos:        position{line: 2049, col: 40, offset: 65602},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2048, col: 45, offset: 65578},
+									pos:   position{line: 2049, col: 45, offset: 65607},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2048, col: 55, offset: 65588},
+										pos:  position{line: 2049, col: 55, offset: 65617},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2048, col: 86, offset: 65619},
+									pos:        position{line: 2049, col: 86, offset: 65648},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -41293,21 +41511,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2052, col: 7, offset: 65784},
+						pos: position{line: 2053, col: 7, offset: 65813},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2052, col: 7, offset: 65784},
+							pos: position{line: 2053, col: 7, offset: 65813},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2052, col: 7, offset: 65784},
+									pos:   position{line: 2053, col: 7, offset: 65813},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1846, col: 25, offset: 59539},
+										pos: position{line: 1847, col: 25, offset: 59568},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1846, col: 25, offset: 59539},
+											pos: position{line: 1847, col: 25, offset: 59568},
 											expr: &litMatcher{
-												pos:        position{line: 1846, col: 25, offset: 59539},
+												pos:        position{line: 1847, col: 25, offset: 59568},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41316,21 +41534,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2052, col: 42, offset: 65819},
+									pos:        position{line: 2053, col: 42, offset: 65848},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2052, col: 47, offset: 65824},
+									pos:   position{line: 2053, col: 47, offset: 65853},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2052, col: 57, offset: 65834},
+										pos:  position{line: 2053, col: 57, offset: 65863},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2052, col: 88, offset: 65865},
+									pos:        position{line: 2053, col: 88, offset: 65894},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41339,21 +41557,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2057, col: 7, offset: 66106},
+						pos: position{line: 2058, col: 7, offset: 66135},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2057, col: 7, offset: 66106},
+							pos: position{line: 2058, col: 7, offset: 66135},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2057, col: 7, offset: 66106},
+									pos:   position{line: 2058, col: 7, offset: 66135},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1846, col: 25, offset: 59539},
+										pos: position{line: 1847, col: 25, offset: 59568},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1846, col: 25, offset: 59539},
+											pos: position{line: 1847, col: 25, offset: 59568},
 											expr: &litMatcher{
-												pos:        position{line: 1846, col: 25, offset: 59539},
+												pos:        position{line: 1847, col: 25, offset: 59568},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41362,21 +41580,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2057, col: 42, offset: 66141},
+									pos:        position{line: 2058, col: 42, offset: 66170},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2057, col: 46, offset: 66145},
+									pos:   position{line: 2058, col: 46, offset: 66174},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2057, col: 56, offset: 66155},
+										pos:  position{line: 2058, col: 56, offset: 66184},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2057, col: 87, offset: 66186},
+									pos:        position{line: 2058, col: 87, offset: 66215},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41389,29 +41607,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2074, col: 1, offset: 66750},
+			pos:  position{line: 2075, col: 1, offset: 66779},
 			expr: &actionExpr{
-				pos: position{line: 2075, col: 5, offset: 66783},
+				pos: position{line: 2076, col: 5, offset: 66812},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2075, col: 5, offset: 66783},
+					pos: position{line: 2076, col: 5, offset: 66812},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2070, col: 43, offset: 66698},
+							pos:        position{line: 2071, col: 43, offset: 66727},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2076, col: 5, offset: 66827},
+							pos:   position{line: 2077, col: 5, offset: 66856},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2076, col: 15, offset: 66837},
+								pos:  position{line: 2077, col: 15, offset: 66866},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2072, col: 41, offset: 66744},
+							pos:        position{line: 2073, col: 41, offset: 66773},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -41422,24 +41640,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2081, col: 1, offset: 67012},
+			pos:  position{line: 2082, col: 1, offset: 67041},
 			expr: &actionExpr{
-				pos: position{line: 2082, col: 5, offset: 67085},
+				pos: position{line: 2083, col: 5, offset: 67114},
 				run: (*parser).callonDoubleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2082, col: 5, offset: 67085},
+					pos: position{line: 2083, col: 5, offset: 67114},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2082, col: 5, offset: 67085},
+							pos: position{line: 2083, col: 5, offset: 67114},
 							run: (*parser).callonDoubleQuoteMonospaceTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2086, col: 5, offset: 67205},
+							pos:   position{line: 2087, col: 5, offset: 67234},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2086, col: 14, offset: 67214},
+								pos: position{line: 2087, col: 14, offset: 67243},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2086, col: 15, offset: 67215},
+									pos:  position{line: 2087, col: 15, offset: 67244},
 									name: "DoubleQuoteMonospaceTextElement",
 								},
 							},
@@ -41450,33 +41668,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2090, col: 1, offset: 67287},
+			pos:  position{line: 2091, col: 1, offset: 67316},
 			expr: &actionExpr{
-				pos: position{line: 2091, col: 5, offset: 67327},
+				pos: position{line: 2092, col: 5, offset: 67356},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2091, col: 5, offset: 67327},
+					pos: position{line: 2092, col: 5, offset: 67356},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2917, col: 11, offset: 91788},
+							pos: position{line: 2918, col: 11, offset: 91817},
 							expr: &anyMatcher{
-								line: 2917, col: 13, offset: 91790,
+								line: 2918, col: 13, offset: 91819,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2092, col: 5, offset: 67338},
+							pos: position{line: 2093, col: 5, offset: 67367},
 							expr: &litMatcher{
-								pos:        position{line: 2072, col: 41, offset: 66744},
+								pos:        position{line: 2073, col: 41, offset: 66773},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2093, col: 5, offset: 67380},
+							pos:   position{line: 2094, col: 5, offset: 67409},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2093, col: 14, offset: 67389},
+								pos:  position{line: 2094, col: 14, offset: 67418},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41486,33 +41704,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2111, col: 1, offset: 67931},
+			pos:  position{line: 2112, col: 1, offset: 67960},
 			expr: &seqExpr{
-				pos: position{line: 2112, col: 5, offset: 67976},
+				pos: position{line: 2113, col: 5, offset: 68005},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2112, col: 5, offset: 67976},
+						pos: position{line: 2113, col: 5, offset: 68005},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2112, col: 6, offset: 67977},
+							pos:  position{line: 2113, col: 6, offset: 68006},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2113, col: 5, offset: 67996},
+						pos:        position{line: 2114, col: 5, offset: 68025},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2114, col: 5, offset: 68004},
+						pos: position{line: 2115, col: 5, offset: 68033},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2118, col: 5, offset: 68118},
+						pos: position{line: 2119, col: 5, offset: 68147},
 						expr: &notExpr{
-							pos: position{line: 2118, col: 7, offset: 68120},
+							pos: position{line: 2119, col: 7, offset: 68149},
 							expr: &charClassMatcher{
-								pos:        position{line: 2790, col: 13, offset: 88549},
+								pos:        position{line: 2791, col: 13, offset: 88578},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -41525,29 +41743,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2121, col: 1, offset: 68137},
+			pos:  position{line: 2122, col: 1, offset: 68166},
 			expr: &actionExpr{
-				pos: position{line: 2122, col: 5, offset: 68170},
+				pos: position{line: 2123, col: 5, offset: 68199},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2122, col: 5, offset: 68170},
+					pos: position{line: 2123, col: 5, offset: 68199},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2104, col: 5, offset: 67733},
+							pos:        position{line: 2105, col: 5, offset: 67762},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2105, col: 5, offset: 67742},
+							pos: position{line: 2106, col: 5, offset: 67771},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2109, col: 5, offset: 67865},
+							pos: position{line: 2110, col: 5, offset: 67894},
 							expr: &notExpr{
-								pos: position{line: 2109, col: 7, offset: 67867},
+								pos: position{line: 2110, col: 7, offset: 67896},
 								expr: &litMatcher{
-									pos:        position{line: 2109, col: 8, offset: 67868},
+									pos:        position{line: 2110, col: 8, offset: 67897},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41555,15 +41773,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2123, col: 5, offset: 68214},
+							pos:   position{line: 2124, col: 5, offset: 68243},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2123, col: 15, offset: 68224},
+								pos:  position{line: 2124, col: 15, offset: 68253},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2124, col: 5, offset: 68263},
+							pos:  position{line: 2125, col: 5, offset: 68292},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -41572,20 +41790,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2128, col: 1, offset: 68400},
+			pos:  position{line: 2129, col: 1, offset: 68429},
 			expr: &actionExpr{
-				pos: position{line: 2129, col: 5, offset: 68441},
+				pos: position{line: 2130, col: 5, offset: 68470},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2129, col: 5, offset: 68441},
+					pos: position{line: 2130, col: 5, offset: 68470},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2129, col: 5, offset: 68441},
+							pos: position{line: 2130, col: 5, offset: 68470},
 							expr: &actionExpr{
-								pos: position{line: 2900, col: 10, offset: 91454},
+								pos: position{line: 2901, col: 10, offset: 91483},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2900, col: 10, offset: 91454},
+									pos:        position{line: 2901, col: 10, offset: 91483},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41594,18 +41812,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2130, col: 5, offset: 68480},
+							pos:   position{line: 2131, col: 5, offset: 68509},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2130, col: 14, offset: 68489},
+								pos: position{line: 2131, col: 14, offset: 68518},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2130, col: 15, offset: 68490},
+									pos:  position{line: 2131, col: 15, offset: 68519},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2131, col: 5, offset: 68528},
+							pos: position{line: 2132, col: 5, offset: 68557},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -41614,31 +41832,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2137, col: 1, offset: 68669},
+			pos:  position{line: 2138, col: 1, offset: 68698},
 			expr: &actionExpr{
-				pos: position{line: 2138, col: 5, offset: 68709},
+				pos: position{line: 2139, col: 5, offset: 68738},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2138, col: 5, offset: 68709},
+					pos: position{line: 2139, col: 5, offset: 68738},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2917, col: 11, offset: 91788},
+							pos: position{line: 2918, col: 11, offset: 91817},
 							expr: &anyMatcher{
-								line: 2917, col: 13, offset: 91790,
+								line: 2918, col: 13, offset: 91819,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2139, col: 5, offset: 68720},
+							pos: position{line: 2140, col: 5, offset: 68749},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2139, col: 6, offset: 68721},
+								pos:  position{line: 2140, col: 6, offset: 68750},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2140, col: 5, offset: 68762},
+							pos:   position{line: 2141, col: 5, offset: 68791},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2140, col: 14, offset: 68771},
+								pos:  position{line: 2141, col: 14, offset: 68800},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41648,35 +41866,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2145, col: 1, offset: 68859},
+			pos:  position{line: 2146, col: 1, offset: 68888},
 			expr: &choiceExpr{
-				pos: position{line: 2147, col: 5, offset: 68930},
+				pos: position{line: 2148, col: 5, offset: 68959},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2147, col: 5, offset: 68930},
+						pos: position{line: 2148, col: 5, offset: 68959},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2147, col: 5, offset: 68930},
+							pos: position{line: 2148, col: 5, offset: 68959},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2147, col: 5, offset: 68930},
+									pos:   position{line: 2148, col: 5, offset: 68959},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1850, col: 25, offset: 59612},
+										pos: position{line: 1851, col: 25, offset: 59641},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1850, col: 25, offset: 59612},
+											pos: position{line: 1851, col: 25, offset: 59641},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1850, col: 25, offset: 59612},
+													pos:        position{line: 1851, col: 25, offset: 59641},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1850, col: 30, offset: 59617},
+													pos: position{line: 1851, col: 30, offset: 59646},
 													expr: &litMatcher{
-														pos:        position{line: 1850, col: 30, offset: 59617},
+														pos:        position{line: 1851, col: 30, offset: 59646},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41687,21 +41905,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2147, col: 40, offset: 68965},
+									pos:        position{line: 2148, col: 40, offset: 68994},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2147, col: 45, offset: 68970},
+									pos:   position{line: 2148, col: 45, offset: 68999},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2147, col: 55, offset: 68980},
+										pos:  position{line: 2148, col: 55, offset: 69009},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2147, col: 89, offset: 69014},
+									pos:        position{line: 2148, col: 89, offset: 69043},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -41710,21 +41928,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2151, col: 7, offset: 69183},
+						pos: position{line: 2152, col: 7, offset: 69212},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2151, col: 7, offset: 69183},
+							pos: position{line: 2152, col: 7, offset: 69212},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2151, col: 7, offset: 69183},
+									pos:   position{line: 2152, col: 7, offset: 69212},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1846, col: 25, offset: 59539},
+										pos: position{line: 1847, col: 25, offset: 59568},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1846, col: 25, offset: 59539},
+											pos: position{line: 1847, col: 25, offset: 59568},
 											expr: &litMatcher{
-												pos:        position{line: 1846, col: 25, offset: 59539},
+												pos:        position{line: 1847, col: 25, offset: 59568},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41733,21 +41951,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2151, col: 42, offset: 69218},
+									pos:        position{line: 2152, col: 42, offset: 69247},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2151, col: 47, offset: 69223},
+									pos:   position{line: 2152, col: 47, offset: 69252},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2151, col: 57, offset: 69233},
+										pos:  position{line: 2152, col: 57, offset: 69262},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2151, col: 91, offset: 69267},
+									pos:        position{line: 2152, col: 91, offset: 69296},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41756,21 +41974,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2156, col: 7, offset: 69473},
+						pos: position{line: 2157, col: 7, offset: 69502},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2156, col: 7, offset: 69473},
+							pos: position{line: 2157, col: 7, offset: 69502},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2156, col: 7, offset: 69473},
+									pos:   position{line: 2157, col: 7, offset: 69502},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1846, col: 25, offset: 59539},
+										pos: position{line: 1847, col: 25, offset: 59568},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1846, col: 25, offset: 59539},
+											pos: position{line: 1847, col: 25, offset: 59568},
 											expr: &litMatcher{
-												pos:        position{line: 1846, col: 25, offset: 59539},
+												pos:        position{line: 1847, col: 25, offset: 59568},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41779,21 +41997,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2156, col: 42, offset: 69508},
+									pos:        position{line: 2157, col: 42, offset: 69537},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2156, col: 46, offset: 69512},
+									pos:   position{line: 2157, col: 46, offset: 69541},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2156, col: 56, offset: 69522},
+										pos:  position{line: 2157, col: 56, offset: 69551},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2156, col: 90, offset: 69556},
+									pos:        position{line: 2157, col: 90, offset: 69585},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41806,29 +42024,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2173, col: 1, offset: 70041},
+			pos:  position{line: 2174, col: 1, offset: 70070},
 			expr: &actionExpr{
-				pos: position{line: 2174, col: 5, offset: 70071},
+				pos: position{line: 2175, col: 5, offset: 70100},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2174, col: 5, offset: 70071},
+					pos: position{line: 2175, col: 5, offset: 70100},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2169, col: 40, offset: 69992},
+							pos:        position{line: 2170, col: 40, offset: 70021},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2175, col: 5, offset: 70112},
+							pos:   position{line: 2176, col: 5, offset: 70141},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2175, col: 15, offset: 70122},
+								pos:  position{line: 2176, col: 15, offset: 70151},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2171, col: 38, offset: 70035},
+							pos:        position{line: 2172, col: 38, offset: 70064},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -41839,24 +42057,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2180, col: 1, offset: 70288},
+			pos:  position{line: 2181, col: 1, offset: 70317},
 			expr: &actionExpr{
-				pos: position{line: 2181, col: 5, offset: 70325},
+				pos: position{line: 2182, col: 5, offset: 70354},
 				run: (*parser).callonDoubleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2181, col: 5, offset: 70325},
+					pos: position{line: 2182, col: 5, offset: 70354},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2181, col: 5, offset: 70325},
+							pos: position{line: 2182, col: 5, offset: 70354},
 							run: (*parser).callonDoubleQuoteMarkedTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2185, col: 5, offset: 70445},
+							pos:   position{line: 2186, col: 5, offset: 70474},
 							label: "elements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2185, col: 14, offset: 70454},
+								pos: position{line: 2186, col: 14, offset: 70483},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2185, col: 15, offset: 70455},
+									pos:  position{line: 2186, col: 15, offset: 70484},
 									name: "DoubleQuoteMarkedTextElement",
 								},
 							},
@@ -41867,33 +42085,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2189, col: 1, offset: 70524},
+			pos:  position{line: 2190, col: 1, offset: 70553},
 			expr: &actionExpr{
-				pos: position{line: 2190, col: 5, offset: 70593},
+				pos: position{line: 2191, col: 5, offset: 70622},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2190, col: 5, offset: 70593},
+					pos: position{line: 2191, col: 5, offset: 70622},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2917, col: 11, offset: 91788},
+							pos: position{line: 2918, col: 11, offset: 91817},
 							expr: &anyMatcher{
-								line: 2917, col: 13, offset: 91790,
+								line: 2918, col: 13, offset: 91819,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2191, col: 5, offset: 70604},
+							pos: position{line: 2192, col: 5, offset: 70633},
 							expr: &litMatcher{
-								pos:        position{line: 2171, col: 38, offset: 70035},
+								pos:        position{line: 2172, col: 38, offset: 70064},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2192, col: 5, offset: 70643},
+							pos:   position{line: 2193, col: 5, offset: 70672},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2192, col: 14, offset: 70652},
+								pos:  position{line: 2193, col: 14, offset: 70681},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41903,29 +42121,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2217, col: 1, offset: 71334},
+			pos:  position{line: 2218, col: 1, offset: 71363},
 			expr: &actionExpr{
-				pos: position{line: 2218, col: 5, offset: 71364},
+				pos: position{line: 2219, col: 5, offset: 71393},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2218, col: 5, offset: 71364},
+					pos: position{line: 2219, col: 5, offset: 71393},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2201, col: 5, offset: 70900},
+							pos:        position{line: 2202, col: 5, offset: 70929},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2202, col: 5, offset: 70909},
+							pos: position{line: 2203, col: 5, offset: 70938},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2206, col: 5, offset: 71029},
+							pos: position{line: 2207, col: 5, offset: 71058},
 							expr: &notExpr{
-								pos: position{line: 2206, col: 7, offset: 71031},
+								pos: position{line: 2207, col: 7, offset: 71060},
 								expr: &litMatcher{
-									pos:        position{line: 2206, col: 8, offset: 71032},
+									pos:        position{line: 2207, col: 8, offset: 71061},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -41933,38 +42151,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2219, col: 5, offset: 71404},
+							pos:   position{line: 2220, col: 5, offset: 71433},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2219, col: 15, offset: 71414},
+								pos:  position{line: 2220, col: 15, offset: 71443},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2209, col: 5, offset: 71137},
+							pos:        position{line: 2210, col: 5, offset: 71166},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2210, col: 5, offset: 71145},
+							pos: position{line: 2211, col: 5, offset: 71174},
 							expr: &litMatcher{
-								pos:        position{line: 2210, col: 6, offset: 71146},
+								pos:        position{line: 2211, col: 6, offset: 71175},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2211, col: 5, offset: 71209},
+							pos: position{line: 2212, col: 5, offset: 71238},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2215, col: 5, offset: 71320},
+							pos: position{line: 2216, col: 5, offset: 71349},
 							expr: &notExpr{
-								pos: position{line: 2215, col: 7, offset: 71322},
+								pos: position{line: 2216, col: 7, offset: 71351},
 								expr: &charClassMatcher{
-									pos:        position{line: 2790, col: 13, offset: 88549},
+									pos:        position{line: 2791, col: 13, offset: 88578},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41978,20 +42196,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2224, col: 1, offset: 71581},
+			pos:  position{line: 2225, col: 1, offset: 71610},
 			expr: &actionExpr{
-				pos: position{line: 2225, col: 5, offset: 71619},
+				pos: position{line: 2226, col: 5, offset: 71648},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2225, col: 5, offset: 71619},
+					pos: position{line: 2226, col: 5, offset: 71648},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2225, col: 5, offset: 71619},
+							pos: position{line: 2226, col: 5, offset: 71648},
 							expr: &actionExpr{
-								pos: position{line: 2900, col: 10, offset: 91454},
+								pos: position{line: 2901, col: 10, offset: 91483},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2900, col: 10, offset: 91454},
+									pos:        position{line: 2901, col: 10, offset: 91483},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42000,18 +42218,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2226, col: 5, offset: 71658},
+							pos:   position{line: 2227, col: 5, offset: 71687},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2226, col: 14, offset: 71667},
+								pos: position{line: 2227, col: 14, offset: 71696},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2226, col: 15, offset: 71668},
+									pos:  position{line: 2227, col: 15, offset: 71697},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2227, col: 5, offset: 71704},
+							pos: position{line: 2228, col: 5, offset: 71733},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -42020,49 +42238,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2233, col: 1, offset: 71845},
+			pos:  position{line: 2234, col: 1, offset: 71874},
 			expr: &actionExpr{
-				pos: position{line: 2234, col: 5, offset: 71882},
+				pos: position{line: 2235, col: 5, offset: 71911},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2234, col: 5, offset: 71882},
+					pos: position{line: 2235, col: 5, offset: 71911},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2917, col: 11, offset: 91788},
+							pos: position{line: 2918, col: 11, offset: 91817},
 							expr: &anyMatcher{
-								line: 2917, col: 13, offset: 91790,
+								line: 2918, col: 13, offset: 91819,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2235, col: 5, offset: 71893},
+							pos: position{line: 2236, col: 5, offset: 71922},
 							expr: &seqExpr{
-								pos: position{line: 2209, col: 5, offset: 71137},
+								pos: position{line: 2210, col: 5, offset: 71166},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2209, col: 5, offset: 71137},
+										pos:        position{line: 2210, col: 5, offset: 71166},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2210, col: 5, offset: 71145},
+										pos: position{line: 2211, col: 5, offset: 71174},
 										expr: &litMatcher{
-											pos:        position{line: 2210, col: 6, offset: 71146},
+											pos:        position{line: 2211, col: 6, offset: 71175},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2211, col: 5, offset: 71209},
+										pos: position{line: 2212, col: 5, offset: 71238},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2215, col: 5, offset: 71320},
+										pos: position{line: 2216, col: 5, offset: 71349},
 										expr: &notExpr{
-											pos: position{line: 2215, col: 7, offset: 71322},
+											pos: position{line: 2216, col: 7, offset: 71351},
 											expr: &charClassMatcher{
-												pos:        position{line: 2790, col: 13, offset: 88549},
+												pos:        position{line: 2791, col: 13, offset: 88578},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42074,10 +42292,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2236, col: 5, offset: 71932},
+							pos:   position{line: 2237, col: 5, offset: 71961},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2236, col: 14, offset: 71941},
+								pos:  position{line: 2237, col: 14, offset: 71970},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42087,35 +42305,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2241, col: 1, offset: 72029},
+			pos:  position{line: 2242, col: 1, offset: 72058},
 			expr: &choiceExpr{
-				pos: position{line: 2243, col: 5, offset: 72093},
+				pos: position{line: 2244, col: 5, offset: 72122},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2243, col: 5, offset: 72093},
+						pos: position{line: 2244, col: 5, offset: 72122},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2243, col: 5, offset: 72093},
+							pos: position{line: 2244, col: 5, offset: 72122},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2243, col: 5, offset: 72093},
+									pos:   position{line: 2244, col: 5, offset: 72122},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1850, col: 25, offset: 59612},
+										pos: position{line: 1851, col: 25, offset: 59641},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1850, col: 25, offset: 59612},
+											pos: position{line: 1851, col: 25, offset: 59641},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1850, col: 25, offset: 59612},
+													pos:        position{line: 1851, col: 25, offset: 59641},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1850, col: 30, offset: 59617},
+													pos: position{line: 1851, col: 30, offset: 59646},
 													expr: &litMatcher{
-														pos:        position{line: 1850, col: 30, offset: 59617},
+														pos:        position{line: 1851, col: 30, offset: 59646},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42126,21 +42344,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2243, col: 40, offset: 72128},
+									pos:        position{line: 2244, col: 40, offset: 72157},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2243, col: 45, offset: 72133},
+									pos:   position{line: 2244, col: 45, offset: 72162},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2243, col: 55, offset: 72143},
+										pos:  position{line: 2244, col: 55, offset: 72172},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2243, col: 86, offset: 72174},
+									pos:        position{line: 2244, col: 86, offset: 72203},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -42149,21 +42367,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2247, col: 7, offset: 72339},
+						pos: position{line: 2248, col: 7, offset: 72368},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2247, col: 7, offset: 72339},
+							pos: position{line: 2248, col: 7, offset: 72368},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2247, col: 7, offset: 72339},
+									pos:   position{line: 2248, col: 7, offset: 72368},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1846, col: 25, offset: 59539},
+										pos: position{line: 1847, col: 25, offset: 59568},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1846, col: 25, offset: 59539},
+											pos: position{line: 1847, col: 25, offset: 59568},
 											expr: &litMatcher{
-												pos:        position{line: 1846, col: 25, offset: 59539},
+												pos:        position{line: 1847, col: 25, offset: 59568},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42172,21 +42390,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2247, col: 42, offset: 72374},
+									pos:        position{line: 2248, col: 42, offset: 72403},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2247, col: 47, offset: 72379},
+									pos:   position{line: 2248, col: 47, offset: 72408},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2247, col: 57, offset: 72389},
+										pos:  position{line: 2248, col: 57, offset: 72418},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2247, col: 88, offset: 72420},
+									pos:        position{line: 2248, col: 88, offset: 72449},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42195,21 +42413,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2252, col: 7, offset: 72623},
+						pos: position{line: 2253, col: 7, offset: 72652},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2252, col: 7, offset: 72623},
+							pos: position{line: 2253, col: 7, offset: 72652},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2252, col: 7, offset: 72623},
+									pos:   position{line: 2253, col: 7, offset: 72652},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1846, col: 25, offset: 59539},
+										pos: position{line: 1847, col: 25, offset: 59568},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1846, col: 25, offset: 59539},
+											pos: position{line: 1847, col: 25, offset: 59568},
 											expr: &litMatcher{
-												pos:        position{line: 1846, col: 25, offset: 59539},
+												pos:        position{line: 1847, col: 25, offset: 59568},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42218,21 +42436,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2252, col: 42, offset: 72658},
+									pos:        position{line: 2253, col: 42, offset: 72687},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2252, col: 46, offset: 72662},
+									pos:   position{line: 2253, col: 46, offset: 72691},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2252, col: 56, offset: 72672},
+										pos:  position{line: 2253, col: 56, offset: 72701},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2252, col: 87, offset: 72703},
+									pos:        position{line: 2253, col: 87, offset: 72732},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42245,29 +42463,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2259, col: 1, offset: 72970},
+			pos:  position{line: 2260, col: 1, offset: 72999},
 			expr: &actionExpr{
-				pos: position{line: 2260, col: 5, offset: 72992},
+				pos: position{line: 2261, col: 5, offset: 73021},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2260, col: 5, offset: 72992},
+					pos: position{line: 2261, col: 5, offset: 73021},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2266, col: 27, offset: 73207},
+							pos:        position{line: 2267, col: 27, offset: 73236},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2261, col: 5, offset: 73019},
+							pos:   position{line: 2262, col: 5, offset: 73048},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2261, col: 14, offset: 73028},
+								pos:  position{line: 2262, col: 14, offset: 73057},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2266, col: 27, offset: 73207},
+							pos:        position{line: 2267, col: 27, offset: 73236},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42278,34 +42496,34 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2268, col: 1, offset: 73212},
+			pos:  position{line: 2269, col: 1, offset: 73241},
 			expr: &actionExpr{
-				pos: position{line: 2269, col: 5, offset: 73240},
+				pos: position{line: 2270, col: 5, offset: 73269},
 				run: (*parser).callonSubscriptTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2269, col: 5, offset: 73240},
+					pos: position{line: 2270, col: 5, offset: 73269},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2269, col: 5, offset: 73240},
+							pos: position{line: 2270, col: 5, offset: 73269},
 							run: (*parser).callonSubscriptTextElement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2273, col: 5, offset: 73360},
+							pos:   position{line: 2274, col: 5, offset: 73389},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2273, col: 14, offset: 73369},
+								pos: position{line: 2274, col: 14, offset: 73398},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2273, col: 14, offset: 73369},
+										pos:  position{line: 2274, col: 14, offset: 73398},
 										name: "QuotedText",
 									},
 									&actionExpr{
-										pos: position{line: 2277, col: 21, offset: 73457},
+										pos: position{line: 2278, col: 21, offset: 73486},
 										run: (*parser).callonSubscriptTextElement7,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2277, col: 21, offset: 73457},
+											pos: position{line: 2278, col: 21, offset: 73486},
 											expr: &charClassMatcher{
-												pos:        position{line: 2277, col: 21, offset: 73457},
+												pos:        position{line: 2278, col: 21, offset: 73486},
 												val:        "[^\\r\\n ~]",
 												chars:      []rune{'\r', '\n', ' ', '~'},
 												ignoreCase: false,
@@ -42322,23 +42540,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2281, col: 1, offset: 73542},
+			pos:  position{line: 2282, col: 1, offset: 73571},
 			expr: &actionExpr{
-				pos: position{line: 2283, col: 5, offset: 73609},
+				pos: position{line: 2284, col: 5, offset: 73638},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2283, col: 5, offset: 73609},
+					pos: position{line: 2284, col: 5, offset: 73638},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2283, col: 5, offset: 73609},
+							pos:   position{line: 2284, col: 5, offset: 73638},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1846, col: 25, offset: 59539},
+								pos: position{line: 1847, col: 25, offset: 59568},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1846, col: 25, offset: 59539},
+									pos: position{line: 1847, col: 25, offset: 59568},
 									expr: &litMatcher{
-										pos:        position{line: 1846, col: 25, offset: 59539},
+										pos:        position{line: 1847, col: 25, offset: 59568},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42347,21 +42565,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2266, col: 27, offset: 73207},
+							pos:        position{line: 2267, col: 27, offset: 73236},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2285, col: 5, offset: 73677},
+							pos:   position{line: 2286, col: 5, offset: 73706},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2285, col: 14, offset: 73686},
+								pos:  position{line: 2286, col: 14, offset: 73715},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2266, col: 27, offset: 73207},
+							pos:        position{line: 2267, col: 27, offset: 73236},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42372,29 +42590,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2293, col: 1, offset: 73949},
+			pos:  position{line: 2294, col: 1, offset: 73978},
 			expr: &actionExpr{
-				pos: position{line: 2294, col: 5, offset: 73973},
+				pos: position{line: 2295, col: 5, offset: 74002},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2294, col: 5, offset: 73973},
+					pos: position{line: 2295, col: 5, offset: 74002},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2300, col: 29, offset: 74200},
+							pos:        position{line: 2301, col: 29, offset: 74229},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2295, col: 5, offset: 74003},
+							pos:   position{line: 2296, col: 5, offset: 74032},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2295, col: 14, offset: 74012},
+								pos:  position{line: 2296, col: 14, offset: 74041},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2300, col: 29, offset: 74200},
+							pos:        position{line: 2301, col: 29, offset: 74229},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42405,34 +42623,34 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2302, col: 1, offset: 74205},
+			pos:  position{line: 2303, col: 1, offset: 74234},
 			expr: &actionExpr{
-				pos: position{line: 2303, col: 5, offset: 74235},
+				pos: position{line: 2304, col: 5, offset: 74264},
 				run: (*parser).callonSuperscriptTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2303, col: 5, offset: 74235},
+					pos: position{line: 2304, col: 5, offset: 74264},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2303, col: 5, offset: 74235},
+							pos: position{line: 2304, col: 5, offset: 74264},
 							run: (*parser).callonSuperscriptTextElement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2307, col: 5, offset: 74355},
+							pos:   position{line: 2308, col: 5, offset: 74384},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2307, col: 14, offset: 74364},
+								pos: position{line: 2308, col: 14, offset: 74393},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2307, col: 14, offset: 74364},
+										pos:  position{line: 2308, col: 14, offset: 74393},
 										name: "QuotedText",
 									},
 									&actionExpr{
-										pos: position{line: 2311, col: 23, offset: 74456},
+										pos: position{line: 2312, col: 23, offset: 74485},
 										run: (*parser).callonSuperscriptTextElement7,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2311, col: 23, offset: 74456},
+											pos: position{line: 2312, col: 23, offset: 74485},
 											expr: &charClassMatcher{
-												pos:        position{line: 2311, col: 23, offset: 74456},
+												pos:        position{line: 2312, col: 23, offset: 74485},
 												val:        "[^\\r\\n ^]",
 												chars:      []rune{'\r', '\n', ' ', '^'},
 												ignoreCase: false,
@@ -42449,23 +42667,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2315, col: 1, offset: 74541},
+			pos:  position{line: 2316, col: 1, offset: 74570},
 			expr: &actionExpr{
-				pos: position{line: 2317, col: 5, offset: 74613},
+				pos: position{line: 2318, col: 5, offset: 74642},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2317, col: 5, offset: 74613},
+					pos: position{line: 2318, col: 5, offset: 74642},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2317, col: 5, offset: 74613},
+							pos:   position{line: 2318, col: 5, offset: 74642},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1846, col: 25, offset: 59539},
+								pos: position{line: 1847, col: 25, offset: 59568},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1846, col: 25, offset: 59539},
+									pos: position{line: 1847, col: 25, offset: 59568},
 									expr: &litMatcher{
-										pos:        position{line: 1846, col: 25, offset: 59539},
+										pos:        position{line: 1847, col: 25, offset: 59568},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42474,21 +42692,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2300, col: 29, offset: 74200},
+							pos:        position{line: 2301, col: 29, offset: 74229},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2319, col: 5, offset: 74683},
+							pos:   position{line: 2320, col: 5, offset: 74712},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2319, col: 14, offset: 74692},
+								pos:  position{line: 2320, col: 14, offset: 74721},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2300, col: 29, offset: 74200},
+							pos:        position{line: 2301, col: 29, offset: 74229},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42499,27 +42717,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2328, col: 1, offset: 75161},
+			pos:  position{line: 2329, col: 1, offset: 75190},
 			expr: &actionExpr{
-				pos: position{line: 2329, col: 5, offset: 75177},
+				pos: position{line: 2330, col: 5, offset: 75206},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2329, col: 5, offset: 75177},
+					pos: position{line: 2330, col: 5, offset: 75206},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2329, col: 5, offset: 75177},
+							pos: position{line: 2330, col: 5, offset: 75206},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2332, col: 5, offset: 75240},
+							pos:   position{line: 2333, col: 5, offset: 75269},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2332, col: 12, offset: 75247},
+								pos: position{line: 2333, col: 12, offset: 75276},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2332, col: 12, offset: 75247},
+									pos: position{line: 2333, col: 12, offset: 75276},
 									expr: &litMatcher{
-										pos:        position{line: 2332, col: 13, offset: 75248},
+										pos:        position{line: 2333, col: 13, offset: 75277},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -42528,16 +42746,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2336, col: 5, offset: 75356},
+							pos: position{line: 2337, col: 5, offset: 75385},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2904, col: 11, offset: 91515},
+							pos: position{line: 2905, col: 11, offset: 91544},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2904, col: 11, offset: 91515},
+								pos: position{line: 2905, col: 11, offset: 91544},
 								expr: &charClassMatcher{
-									pos:        position{line: 2904, col: 11, offset: 91515},
+									pos:        position{line: 2905, col: 11, offset: 91544},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42546,36 +42764,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2340, col: 12, offset: 75515},
+							pos:   position{line: 2341, col: 12, offset: 75544},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2340, col: 19, offset: 75522},
+								pos:  position{line: 2341, col: 19, offset: 75551},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2922, col: 8, offset: 91852},
+							pos: position{line: 2923, col: 8, offset: 91881},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2909, col: 12, offset: 91625},
+									pos: position{line: 2910, col: 12, offset: 91654},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2909, col: 13, offset: 91626},
+										pos: position{line: 2910, col: 13, offset: 91655},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2909, col: 13, offset: 91626},
+												pos:        position{line: 2910, col: 13, offset: 91655},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2909, col: 20, offset: 91633},
+												pos:        position{line: 2910, col: 20, offset: 91662},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2909, col: 29, offset: 91642},
+												pos:        position{line: 2910, col: 29, offset: 91671},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -42584,9 +42802,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2919, col: 8, offset: 91802},
+									pos: position{line: 2920, col: 8, offset: 91831},
 									expr: &anyMatcher{
-										line: 2919, col: 9, offset: 91803,
+										line: 2920, col: 9, offset: 91832,
 									},
 								},
 							},
@@ -42597,24 +42815,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2344, col: 1, offset: 75618},
+			pos:  position{line: 2345, col: 1, offset: 75647},
 			expr: &actionExpr{
-				pos: position{line: 2345, col: 5, offset: 75639},
+				pos: position{line: 2346, col: 5, offset: 75668},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2345, col: 5, offset: 75639},
+					pos: position{line: 2346, col: 5, offset: 75668},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2345, col: 5, offset: 75639},
+							pos: position{line: 2346, col: 5, offset: 75668},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2351, col: 5, offset: 75830},
+							pos:   position{line: 2352, col: 5, offset: 75859},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2351, col: 14, offset: 75839},
+								pos: position{line: 2352, col: 14, offset: 75868},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2351, col: 15, offset: 75840},
+									pos:  position{line: 2352, col: 15, offset: 75869},
 									name: "SectionTitleElement",
 								},
 							},
@@ -42625,38 +42843,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2355, col: 1, offset: 75921},
+			pos:  position{line: 2356, col: 1, offset: 75950},
 			expr: &actionExpr{
-				pos: position{line: 2356, col: 5, offset: 75948},
+				pos: position{line: 2357, col: 5, offset: 75977},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2356, col: 5, offset: 75948},
+					pos: position{line: 2357, col: 5, offset: 75977},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2356, col: 5, offset: 75948},
+							pos: position{line: 2357, col: 5, offset: 75977},
 							expr: &choiceExpr{
-								pos: position{line: 2922, col: 8, offset: 91852},
+								pos: position{line: 2923, col: 8, offset: 91881},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2909, col: 12, offset: 91625},
+										pos: position{line: 2910, col: 12, offset: 91654},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2909, col: 13, offset: 91626},
+											pos: position{line: 2910, col: 13, offset: 91655},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2909, col: 13, offset: 91626},
+													pos:        position{line: 2910, col: 13, offset: 91655},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2909, col: 20, offset: 91633},
+													pos:        position{line: 2910, col: 20, offset: 91662},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2909, col: 29, offset: 91642},
+													pos:        position{line: 2910, col: 29, offset: 91671},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -42665,36 +42883,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2919, col: 8, offset: 91802},
+										pos: position{line: 2920, col: 8, offset: 91831},
 										expr: &anyMatcher{
-											line: 2919, col: 9, offset: 91803,
+											line: 2920, col: 9, offset: 91832,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2357, col: 5, offset: 75957},
+							pos:   position{line: 2358, col: 5, offset: 75986},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2358, col: 9, offset: 75975},
+								pos: position{line: 2359, col: 9, offset: 76004},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2799, col: 5, offset: 88696},
+										pos: position{line: 2800, col: 5, offset: 88725},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2799, col: 5, offset: 88696},
+											pos: position{line: 2800, col: 5, offset: 88725},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2799, col: 5, offset: 88696},
+													pos:   position{line: 2800, col: 5, offset: 88725},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2799, col: 11, offset: 88702},
+														pos: position{line: 2800, col: 11, offset: 88731},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2799, col: 11, offset: 88702},
+															pos: position{line: 2800, col: 11, offset: 88731},
 															expr: &charClassMatcher{
-																pos:        position{line: 2799, col: 11, offset: 88702},
+																pos:        position{line: 2800, col: 11, offset: 88731},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -42704,36 +42922,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2802, col: 5, offset: 88760},
+													pos: position{line: 2803, col: 5, offset: 88789},
 													expr: &seqExpr{
-														pos: position{line: 2803, col: 9, offset: 88771},
+														pos: position{line: 2804, col: 9, offset: 88800},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2803, col: 9, offset: 88771},
+																pos:        position{line: 2804, col: 9, offset: 88800},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2804, col: 9, offset: 88820},
+																pos: position{line: 2805, col: 9, offset: 88849},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2808, col: 5, offset: 88900},
+													pos: position{line: 2809, col: 5, offset: 88929},
 													expr: &seqExpr{
-														pos: position{line: 2809, col: 9, offset: 88911},
+														pos: position{line: 2810, col: 9, offset: 88940},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2809, col: 9, offset: 88911},
+																pos:        position{line: 2810, col: 9, offset: 88940},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2809, col: 13, offset: 88915},
+																pos:        position{line: 2810, col: 13, offset: 88944},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -42746,12 +42964,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2904, col: 11, offset: 91515},
+										pos: position{line: 2905, col: 11, offset: 91544},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2904, col: 11, offset: 91515},
+											pos: position{line: 2905, col: 11, offset: 91544},
 											expr: &charClassMatcher{
-												pos:        position{line: 2904, col: 11, offset: 91515},
+												pos:        position{line: 2905, col: 11, offset: 91544},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -42760,21 +42978,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2528, col: 5, offset: 81156},
+										pos: position{line: 2529, col: 5, offset: 81185},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2528, col: 5, offset: 81156},
+											pos: position{line: 2529, col: 5, offset: 81185},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2528, col: 5, offset: 81156},
+													pos:        position{line: 2529, col: 5, offset: 81185},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2528, col: 10, offset: 81161},
+													pos: position{line: 2529, col: 10, offset: 81190},
 													expr: &charClassMatcher{
-														pos:        position{line: 2528, col: 11, offset: 81162},
+														pos:        position{line: 2529, col: 11, offset: 81191},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -42785,29 +43003,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2534, col: 5, offset: 81354},
+										pos: position{line: 2535, col: 5, offset: 81383},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2534, col: 5, offset: 81354},
+											pos: position{line: 2535, col: 5, offset: 81383},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2534, col: 5, offset: 81354},
+													pos: position{line: 2535, col: 5, offset: 81383},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2537, col: 5, offset: 81425},
+													pos: position{line: 2538, col: 5, offset: 81454},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2541, col: 5, offset: 81550},
+													pos:        position{line: 2542, col: 5, offset: 81579},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2541, col: 9, offset: 81554},
+													pos: position{line: 2542, col: 9, offset: 81583},
 													expr: &charClassMatcher{
-														pos:        position{line: 2541, col: 10, offset: 81555},
+														pos:        position{line: 2542, col: 10, offset: 81584},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -42818,31 +43036,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2361, col: 11, offset: 76040},
+										pos:  position{line: 2362, col: 11, offset: 76069},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2817, col: 5, offset: 89108},
+										pos: position{line: 2818, col: 5, offset: 89137},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2818, col: 9, offset: 89118},
+											pos: position{line: 2819, col: 9, offset: 89147},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2818, col: 10, offset: 89119},
+													pos:        position{line: 2819, col: 10, offset: 89148},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2820, col: 13, offset: 89216},
+													pos: position{line: 2821, col: 13, offset: 89245},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2820, col: 13, offset: 89216},
+															pos: position{line: 2821, col: 13, offset: 89245},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2823, col: 13, offset: 89316},
+															pos:        position{line: 2824, col: 13, offset: 89345},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -42850,20 +43068,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2823, col: 19, offset: 89322},
+													pos:        position{line: 2824, col: 19, offset: 89351},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2826, col: 13, offset: 89360},
+													pos: position{line: 2827, col: 13, offset: 89389},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2826, col: 13, offset: 89360},
+															pos: position{line: 2827, col: 13, offset: 89389},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2829, col: 14, offset: 89453},
+															pos:        position{line: 2830, col: 14, offset: 89482},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -42872,18 +43090,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2831, col: 12, offset: 89497},
+													pos: position{line: 2832, col: 12, offset: 89526},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2831, col: 12, offset: 89497},
+															pos:        position{line: 2832, col: 12, offset: 89526},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2831, col: 16, offset: 89501},
+															pos: position{line: 2832, col: 16, offset: 89530},
 															expr: &litMatcher{
-																pos:        position{line: 2831, col: 17, offset: 89502},
+																pos:        position{line: 2832, col: 17, offset: 89531},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -42895,35 +43113,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2363, col: 11, offset: 76113},
+										pos:  position{line: 2364, col: 11, offset: 76142},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2364, col: 11, offset: 76129},
+										pos:  position{line: 2365, col: 11, offset: 76158},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2365, col: 11, offset: 76157},
+										pos:  position{line: 2366, col: 11, offset: 76186},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2497, col: 5, offset: 79985},
+										pos: position{line: 2498, col: 5, offset: 80014},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2497, col: 5, offset: 79985},
+											pos: position{line: 2498, col: 5, offset: 80014},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2497, col: 5, offset: 79985},
+													pos: position{line: 2498, col: 5, offset: 80014},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2500, col: 5, offset: 80061},
+													pos:   position{line: 2501, col: 5, offset: 80090},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2501, col: 9, offset: 80079},
+														pos: position{line: 2502, col: 9, offset: 80108},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2501, col: 10, offset: 80080},
+															pos:        position{line: 2502, col: 10, offset: 80109},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -42935,39 +43153,39 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2367, col: 11, offset: 76242},
+										pos:  position{line: 2368, col: 11, offset: 76271},
 										name: "InlineIcon",
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20109},
+										pos: position{line: 637, col: 5, offset: 20136},
 										run: (*parser).callonSectionTitleElement68,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20109},
+											pos: position{line: 637, col: 5, offset: 20136},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20109},
+													pos: position{line: 637, col: 5, offset: 20136},
 													run: (*parser).callonSectionTitleElement70,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20181},
+													pos:   position{line: 640, col: 5, offset: 20208},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20190},
+														pos: position{line: 640, col: 14, offset: 20217},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20319},
+																pos: position{line: 646, col: 5, offset: 20346},
 																run: (*parser).callonSectionTitleElement73,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20319},
+																	pos: position{line: 646, col: 5, offset: 20346},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20319},
+																			pos:        position{line: 646, col: 5, offset: 20346},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20327},
+																			pos:   position{line: 646, col: 13, offset: 20354},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -42999,7 +43217,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20346},
+																			pos:        position{line: 646, col: 32, offset: 20373},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -43008,19 +43226,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20587},
+																pos: position{line: 653, col: 5, offset: 20614},
 																run: (*parser).callonSectionTitleElement83,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20587},
+																	pos: position{line: 653, col: 5, offset: 20614},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20587},
+																			pos:        position{line: 653, col: 5, offset: 20614},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20591},
+																			pos:   position{line: 653, col: 9, offset: 20618},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -43052,7 +43270,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20610},
+																			pos:        position{line: 653, col: 28, offset: 20637},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -43061,19 +43279,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20791},
+																pos: position{line: 659, col: 25, offset: 20818},
 																run: (*parser).callonSectionTitleElement93,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20791},
+																	pos: position{line: 659, col: 25, offset: 20818},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20791},
+																			pos:        position{line: 659, col: 25, offset: 20818},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20803},
+																			pos:   position{line: 659, col: 37, offset: 20830},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -43105,33 +43323,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20822},
+																			pos:   position{line: 659, col: 56, offset: 20849},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20828},
+																				pos: position{line: 659, col: 62, offset: 20855},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 667, col: 17, offset: 21152},
 																					run: (*parser).callonSectionTitleElement104,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 667, col: 17, offset: 21152},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 667, col: 17, offset: 21152},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 667, col: 21, offset: 21156},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 667, col: 28, offset: 21163},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 667, col: 28, offset: 21163},
 																											run: (*parser).callonSectionTitleElement109,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 667, col: 28, offset: 21163},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -43139,12 +43357,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 669, col: 9, offset: 21217},
 																											run: (*parser).callonSectionTitleElement111,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 669, col: 9, offset: 21217},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 669, col: 9, offset: 21217},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -43161,7 +43379,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20844},
+																			pos:        position{line: 659, col: 78, offset: 20871},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -43170,19 +43388,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 20962},
+																pos: position{line: 663, col: 25, offset: 20989},
 																run: (*parser).callonSectionTitleElement115,
 																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 20962},
+																	pos: position{line: 663, col: 25, offset: 20989},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 20962},
+																			pos:        position{line: 663, col: 25, offset: 20989},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 20975},
+																			pos:   position{line: 663, col: 38, offset: 21002},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -43214,33 +43432,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 20994},
+																			pos:   position{line: 663, col: 57, offset: 21021},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21000},
+																				pos: position{line: 663, col: 63, offset: 21027},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 667, col: 17, offset: 21152},
 																					run: (*parser).callonSectionTitleElement126,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 667, col: 17, offset: 21152},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 667, col: 17, offset: 21152},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 667, col: 21, offset: 21156},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 667, col: 28, offset: 21163},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 667, col: 28, offset: 21163},
 																											run: (*parser).callonSectionTitleElement131,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 667, col: 28, offset: 21163},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -43248,12 +43466,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 669, col: 9, offset: 21217},
 																											run: (*parser).callonSectionTitleElement133,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 669, col: 9, offset: 21217},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 669, col: 9, offset: 21217},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -43270,7 +43488,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21016},
+																			pos:        position{line: 663, col: 79, offset: 21043},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -43285,27 +43503,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1198, col: 23, offset: 36972},
+										pos: position{line: 1199, col: 23, offset: 37001},
 										run: (*parser).callonSectionTitleElement137,
 										expr: &seqExpr{
-											pos: position{line: 1198, col: 23, offset: 36972},
+											pos: position{line: 1199, col: 23, offset: 37001},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36940},
+													pos:        position{line: 1197, col: 32, offset: 36969},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1198, col: 51, offset: 37000},
+													pos:   position{line: 1199, col: 51, offset: 37029},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1198, col: 56, offset: 37005},
+														pos: position{line: 1199, col: 56, offset: 37034},
 														run: (*parser).callonSectionTitleElement141,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1198, col: 56, offset: 37005},
+															pos: position{line: 1199, col: 56, offset: 37034},
 															expr: &charClassMatcher{
-																pos:        position{line: 1198, col: 56, offset: 37005},
+																pos:        position{line: 1199, col: 56, offset: 37034},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -43315,7 +43533,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36940},
+													pos:        position{line: 1197, col: 32, offset: 36969},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -43324,17 +43542,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2380, col: 5, offset: 76695},
+										pos: position{line: 2381, col: 5, offset: 76724},
 										run: (*parser).callonSectionTitleElement145,
 										expr: &seqExpr{
-											pos: position{line: 2380, col: 5, offset: 76695},
+											pos: position{line: 2381, col: 5, offset: 76724},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2380, col: 5, offset: 76695},
+													pos: position{line: 2381, col: 5, offset: 76724},
 													run: (*parser).callonSectionTitleElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2383, col: 5, offset: 76750},
+													pos:   position{line: 2384, col: 5, offset: 76779},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 404, col: 5, offset: 12337},
@@ -43377,27 +43595,27 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 1198, col: 23, offset: 36972},
+																							pos: position{line: 1199, col: 23, offset: 37001},
 																							run: (*parser).callonSectionTitleElement160,
 																							expr: &seqExpr{
-																								pos: position{line: 1198, col: 23, offset: 36972},
+																								pos: position{line: 1199, col: 23, offset: 37001},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1196, col: 32, offset: 36940},
+																										pos:        position{line: 1197, col: 32, offset: 36969},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1198, col: 51, offset: 37000},
+																										pos:   position{line: 1199, col: 51, offset: 37029},
 																										label: "ref",
 																										expr: &actionExpr{
-																											pos: position{line: 1198, col: 56, offset: 37005},
+																											pos: position{line: 1199, col: 56, offset: 37034},
 																											run: (*parser).callonSectionTitleElement164,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1198, col: 56, offset: 37005},
+																												pos: position{line: 1199, col: 56, offset: 37034},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1198, col: 56, offset: 37005},
+																													pos:        position{line: 1199, col: 56, offset: 37034},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -43407,7 +43625,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1196, col: 32, offset: 36940},
+																										pos:        position{line: 1197, col: 32, offset: 36969},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
@@ -43416,35 +43634,35 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 636, col: 5, offset: 20109},
+																							pos: position{line: 637, col: 5, offset: 20136},
 																							run: (*parser).callonSectionTitleElement168,
 																							expr: &seqExpr{
-																								pos: position{line: 636, col: 5, offset: 20109},
+																								pos: position{line: 637, col: 5, offset: 20136},
 																								exprs: []interface{}{
 																									&andCodeExpr{
-																										pos: position{line: 636, col: 5, offset: 20109},
+																										pos: position{line: 637, col: 5, offset: 20136},
 																										run: (*parser).callonSectionTitleElement170,
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 639, col: 5, offset: 20181},
+																										pos:   position{line: 640, col: 5, offset: 20208},
 																										label: "element",
 																										expr: &choiceExpr{
-																											pos: position{line: 639, col: 14, offset: 20190},
+																											pos: position{line: 640, col: 14, offset: 20217},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 645, col: 5, offset: 20319},
+																													pos: position{line: 646, col: 5, offset: 20346},
 																													run: (*parser).callonSectionTitleElement173,
 																													expr: &seqExpr{
-																														pos: position{line: 645, col: 5, offset: 20319},
+																														pos: position{line: 646, col: 5, offset: 20346},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 645, col: 5, offset: 20319},
+																																pos:        position{line: 646, col: 5, offset: 20346},
 																																val:        "\\{",
 																																ignoreCase: false,
 																																want:       "\"\\\\{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 645, col: 13, offset: 20327},
+																																pos:   position{line: 646, col: 13, offset: 20354},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9736},
@@ -43476,7 +43694,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 645, col: 32, offset: 20346},
+																																pos:        position{line: 646, col: 32, offset: 20373},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -43485,19 +43703,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 652, col: 5, offset: 20587},
+																													pos: position{line: 653, col: 5, offset: 20614},
 																													run: (*parser).callonSectionTitleElement183,
 																													expr: &seqExpr{
-																														pos: position{line: 652, col: 5, offset: 20587},
+																														pos: position{line: 653, col: 5, offset: 20614},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 652, col: 5, offset: 20587},
+																																pos:        position{line: 653, col: 5, offset: 20614},
 																																val:        "{",
 																																ignoreCase: false,
 																																want:       "\"{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 652, col: 9, offset: 20591},
+																																pos:   position{line: 653, col: 9, offset: 20618},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9736},
@@ -43529,7 +43747,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 652, col: 28, offset: 20610},
+																																pos:        position{line: 653, col: 28, offset: 20637},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -43538,19 +43756,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 658, col: 25, offset: 20791},
+																													pos: position{line: 659, col: 25, offset: 20818},
 																													run: (*parser).callonSectionTitleElement193,
 																													expr: &seqExpr{
-																														pos: position{line: 658, col: 25, offset: 20791},
+																														pos: position{line: 659, col: 25, offset: 20818},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 658, col: 25, offset: 20791},
+																																pos:        position{line: 659, col: 25, offset: 20818},
 																																val:        "{counter:",
 																																ignoreCase: false,
 																																want:       "\"{counter:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 658, col: 37, offset: 20803},
+																																pos:   position{line: 659, col: 37, offset: 20830},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9736},
@@ -43582,33 +43800,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 658, col: 56, offset: 20822},
+																																pos:   position{line: 659, col: 56, offset: 20849},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 658, col: 62, offset: 20828},
+																																	pos: position{line: 659, col: 62, offset: 20855},
 																																	expr: &actionExpr{
-																																		pos: position{line: 666, col: 17, offset: 21123},
+																																		pos: position{line: 667, col: 17, offset: 21152},
 																																		run: (*parser).callonSectionTitleElement204,
 																																		expr: &seqExpr{
-																																			pos: position{line: 666, col: 17, offset: 21123},
+																																			pos: position{line: 667, col: 17, offset: 21152},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 666, col: 17, offset: 21123},
+																																					pos:        position{line: 667, col: 17, offset: 21152},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 666, col: 21, offset: 21127},
+																																					pos:   position{line: 667, col: 21, offset: 21156},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 666, col: 28, offset: 21134},
+																																						pos: position{line: 667, col: 28, offset: 21163},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 666, col: 28, offset: 21134},
+																																								pos: position{line: 667, col: 28, offset: 21163},
 																																								run: (*parser).callonSectionTitleElement209,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 666, col: 28, offset: 21134},
+																																									pos:        position{line: 667, col: 28, offset: 21163},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -43616,12 +43834,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 668, col: 9, offset: 21188},
+																																								pos: position{line: 669, col: 9, offset: 21217},
 																																								run: (*parser).callonSectionTitleElement211,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 668, col: 9, offset: 21188},
+																																									pos: position{line: 669, col: 9, offset: 21217},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 668, col: 9, offset: 21188},
+																																										pos:        position{line: 669, col: 9, offset: 21217},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -43638,7 +43856,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 658, col: 78, offset: 20844},
+																																pos:        position{line: 659, col: 78, offset: 20871},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -43647,19 +43865,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 662, col: 25, offset: 20962},
+																													pos: position{line: 663, col: 25, offset: 20989},
 																													run: (*parser).callonSectionTitleElement215,
 																													expr: &seqExpr{
-																														pos: position{line: 662, col: 25, offset: 20962},
+																														pos: position{line: 663, col: 25, offset: 20989},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 662, col: 25, offset: 20962},
+																																pos:        position{line: 663, col: 25, offset: 20989},
 																																val:        "{counter2:",
 																																ignoreCase: false,
 																																want:       "\"{counter2:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 662, col: 38, offset: 20975},
+																																pos:   position{line: 663, col: 38, offset: 21002},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9736},
@@ -43691,33 +43909,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 662, col: 57, offset: 20994},
+																																pos:   position{line: 663, col: 57, offset: 21021},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 662, col: 63, offset: 21000},
+																																	pos: position{line: 663, col: 63, offset: 21027},
 																																	expr: &actionExpr{
-																																		pos: position{line: 666, col: 17, offset: 21123},
+																																		pos: position{line: 667, col: 17, offset: 21152},
 																																		run: (*parser).callonSectionTitleElement226,
 																																		expr: &seqExpr{
-																																			pos: position{line: 666, col: 17, offset: 21123},
+																																			pos: position{line: 667, col: 17, offset: 21152},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 666, col: 17, offset: 21123},
+																																					pos:        position{line: 667, col: 17, offset: 21152},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 666, col: 21, offset: 21127},
+																																					pos:   position{line: 667, col: 21, offset: 21156},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 666, col: 28, offset: 21134},
+																																						pos: position{line: 667, col: 28, offset: 21163},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 666, col: 28, offset: 21134},
+																																								pos: position{line: 667, col: 28, offset: 21163},
 																																								run: (*parser).callonSectionTitleElement231,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 666, col: 28, offset: 21134},
+																																									pos:        position{line: 667, col: 28, offset: 21163},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -43725,12 +43943,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 668, col: 9, offset: 21188},
+																																								pos: position{line: 669, col: 9, offset: 21217},
 																																								run: (*parser).callonSectionTitleElement233,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 668, col: 9, offset: 21188},
+																																									pos: position{line: 669, col: 9, offset: 21217},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 668, col: 9, offset: 21188},
+																																										pos:        position{line: 669, col: 9, offset: 21217},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -43747,7 +43965,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 662, col: 79, offset: 21016},
+																																pos:        position{line: 663, col: 79, offset: 21043},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -43788,12 +44006,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2383, col: 26, offset: 76771},
+													pos: position{line: 2384, col: 26, offset: 76800},
 													expr: &actionExpr{
-														pos: position{line: 2900, col: 10, offset: 91454},
+														pos: position{line: 2901, col: 10, offset: 91483},
 														run: (*parser).callonSectionTitleElement241,
 														expr: &charClassMatcher{
-															pos:        position{line: 2900, col: 10, offset: 91454},
+															pos:        position{line: 2901, col: 10, offset: 91483},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -43802,30 +44020,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2383, col: 33, offset: 76778},
+													pos: position{line: 2384, col: 33, offset: 76807},
 													expr: &choiceExpr{
-														pos: position{line: 2922, col: 8, offset: 91852},
+														pos: position{line: 2923, col: 8, offset: 91881},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2909, col: 12, offset: 91625},
+																pos: position{line: 2910, col: 12, offset: 91654},
 																run: (*parser).callonSectionTitleElement245,
 																expr: &choiceExpr{
-																	pos: position{line: 2909, col: 13, offset: 91626},
+																	pos: position{line: 2910, col: 13, offset: 91655},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 13, offset: 91626},
+																			pos:        position{line: 2910, col: 13, offset: 91655},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 20, offset: 91633},
+																			pos:        position{line: 2910, col: 20, offset: 91662},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2909, col: 29, offset: 91642},
+																			pos:        position{line: 2910, col: 29, offset: 91671},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -43834,9 +44052,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2919, col: 8, offset: 91802},
+																pos: position{line: 2920, col: 8, offset: 91831},
 																expr: &anyMatcher{
-																	line: 2919, col: 9, offset: 91803,
+																	line: 2920, col: 9, offset: 91832,
 																},
 															},
 														},
@@ -43846,27 +44064,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1253, col: 5, offset: 38732},
+										pos: position{line: 1254, col: 5, offset: 38761},
 										run: (*parser).callonSectionTitleElement252,
 										expr: &seqExpr{
-											pos: position{line: 1253, col: 5, offset: 38732},
+											pos: position{line: 1254, col: 5, offset: 38761},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1253, col: 5, offset: 38732},
+													pos:        position{line: 1254, col: 5, offset: 38761},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1253, col: 14, offset: 38741},
+													pos:   position{line: 1254, col: 14, offset: 38770},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2885, col: 7, offset: 91106},
+														pos: position{line: 2886, col: 7, offset: 91135},
 														run: (*parser).callonSectionTitleElement256,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2885, col: 7, offset: 91106},
+															pos: position{line: 2886, col: 7, offset: 91135},
 															expr: &charClassMatcher{
-																pos:        position{line: 2885, col: 7, offset: 91106},
+																pos:        position{line: 2886, col: 7, offset: 91135},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -43876,7 +44094,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1253, col: 22, offset: 38749},
+													pos:        position{line: 1254, col: 22, offset: 38778},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -43885,27 +44103,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1258, col: 5, offset: 38868},
+										pos: position{line: 1259, col: 5, offset: 38897},
 										run: (*parser).callonSectionTitleElement260,
 										expr: &seqExpr{
-											pos: position{line: 1258, col: 5, offset: 38868},
+											pos: position{line: 1259, col: 5, offset: 38897},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1258, col: 5, offset: 38868},
+													pos:        position{line: 1259, col: 5, offset: 38897},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1258, col: 10, offset: 38873},
+													pos:   position{line: 1259, col: 10, offset: 38902},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2885, col: 7, offset: 91106},
+														pos: position{line: 2886, col: 7, offset: 91135},
 														run: (*parser).callonSectionTitleElement264,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2885, col: 7, offset: 91106},
+															pos: position{line: 2886, col: 7, offset: 91135},
 															expr: &charClassMatcher{
-																pos:        position{line: 2885, col: 7, offset: 91106},
+																pos:        position{line: 2886, col: 7, offset: 91135},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -43915,7 +44133,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1258, col: 18, offset: 38881},
+													pos:        position{line: 1259, col: 18, offset: 38910},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -43924,14 +44142,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2372, col: 11, offset: 76496},
+										pos:  position{line: 2373, col: 11, offset: 76525},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2839, col: 12, offset: 89762},
+										pos: position{line: 2840, col: 12, offset: 89791},
 										run: (*parser).callonSectionTitleElement269,
 										expr: &charClassMatcher{
-											pos:        position{line: 2839, col: 12, offset: 89762},
+											pos:        position{line: 2840, col: 12, offset: 89791},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -43947,52 +44165,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2393, col: 1, offset: 77040},
+			pos:  position{line: 2394, col: 1, offset: 77069},
 			expr: &actionExpr{
-				pos: position{line: 2394, col: 5, offset: 77127},
+				pos: position{line: 2395, col: 5, offset: 77156},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2394, col: 5, offset: 77127},
+					pos: position{line: 2395, col: 5, offset: 77156},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2394, col: 5, offset: 77127},
+							pos:   position{line: 2395, col: 5, offset: 77156},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2394, col: 14, offset: 77136},
+								pos: position{line: 2395, col: 14, offset: 77165},
 								expr: &actionExpr{
-									pos: position{line: 2396, col: 9, offset: 77162},
+									pos: position{line: 2397, col: 9, offset: 77191},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2396, col: 9, offset: 77162},
+										pos: position{line: 2397, col: 9, offset: 77191},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2917, col: 11, offset: 91788},
+												pos: position{line: 2918, col: 11, offset: 91817},
 												expr: &anyMatcher{
-													line: 2917, col: 13, offset: 91790,
+													line: 2918, col: 13, offset: 91819,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2397, col: 9, offset: 77177},
+												pos:   position{line: 2398, col: 9, offset: 77206},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2398, col: 13, offset: 77199},
+													pos: position{line: 2399, col: 13, offset: 77228},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2799, col: 5, offset: 88696},
+															pos: position{line: 2800, col: 5, offset: 88725},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2799, col: 5, offset: 88696},
+																pos: position{line: 2800, col: 5, offset: 88725},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2799, col: 5, offset: 88696},
+																		pos:   position{line: 2800, col: 5, offset: 88725},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2799, col: 11, offset: 88702},
+																			pos: position{line: 2800, col: 11, offset: 88731},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2799, col: 11, offset: 88702},
+																				pos: position{line: 2800, col: 11, offset: 88731},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2799, col: 11, offset: 88702},
+																					pos:        position{line: 2800, col: 11, offset: 88731},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44002,36 +44220,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2802, col: 5, offset: 88760},
+																		pos: position{line: 2803, col: 5, offset: 88789},
 																		expr: &seqExpr{
-																			pos: position{line: 2803, col: 9, offset: 88771},
+																			pos: position{line: 2804, col: 9, offset: 88800},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2803, col: 9, offset: 88771},
+																					pos:        position{line: 2804, col: 9, offset: 88800},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2804, col: 9, offset: 88820},
+																					pos: position{line: 2805, col: 9, offset: 88849},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2808, col: 5, offset: 88900},
+																		pos: position{line: 2809, col: 5, offset: 88929},
 																		expr: &seqExpr{
-																			pos: position{line: 2809, col: 9, offset: 88911},
+																			pos: position{line: 2810, col: 9, offset: 88940},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2809, col: 9, offset: 88911},
+																					pos:        position{line: 2810, col: 9, offset: 88940},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2809, col: 13, offset: 88915},
+																					pos:        position{line: 2810, col: 13, offset: 88944},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44044,12 +44262,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2904, col: 11, offset: 91515},
+															pos: position{line: 2905, col: 11, offset: 91544},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2904, col: 11, offset: 91515},
+																pos: position{line: 2905, col: 11, offset: 91544},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2904, col: 11, offset: 91515},
+																	pos:        position{line: 2905, col: 11, offset: 91544},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -44058,25 +44276,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2400, col: 15, offset: 77245},
+															pos:  position{line: 2401, col: 15, offset: 77274},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2528, col: 5, offset: 81156},
+															pos: position{line: 2529, col: 5, offset: 81185},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2528, col: 5, offset: 81156},
+																pos: position{line: 2529, col: 5, offset: 81185},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2528, col: 5, offset: 81156},
+																		pos:        position{line: 2529, col: 5, offset: 81185},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2528, col: 10, offset: 81161},
+																		pos: position{line: 2529, col: 10, offset: 81190},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2528, col: 11, offset: 81162},
+																			pos:        position{line: 2529, col: 11, offset: 81191},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44087,29 +44305,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2534, col: 5, offset: 81354},
+															pos: position{line: 2535, col: 5, offset: 81383},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2534, col: 5, offset: 81354},
+																pos: position{line: 2535, col: 5, offset: 81383},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2534, col: 5, offset: 81354},
+																		pos: position{line: 2535, col: 5, offset: 81383},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2537, col: 5, offset: 81425},
+																		pos: position{line: 2538, col: 5, offset: 81454},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2541, col: 5, offset: 81550},
+																		pos:        position{line: 2542, col: 5, offset: 81579},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2541, col: 9, offset: 81554},
+																		pos: position{line: 2542, col: 9, offset: 81583},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2541, col: 10, offset: 81555},
+																			pos:        position{line: 2542, col: 10, offset: 81584},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44120,27 +44338,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2817, col: 5, offset: 89108},
+															pos: position{line: 2818, col: 5, offset: 89137},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2818, col: 9, offset: 89118},
+																pos: position{line: 2819, col: 9, offset: 89147},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2818, col: 10, offset: 89119},
+																		pos:        position{line: 2819, col: 10, offset: 89148},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2820, col: 13, offset: 89216},
+																		pos: position{line: 2821, col: 13, offset: 89245},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2820, col: 13, offset: 89216},
+																				pos: position{line: 2821, col: 13, offset: 89245},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2823, col: 13, offset: 89316},
+																				pos:        position{line: 2824, col: 13, offset: 89345},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -44148,20 +44366,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2823, col: 19, offset: 89322},
+																		pos:        position{line: 2824, col: 19, offset: 89351},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2826, col: 13, offset: 89360},
+																		pos: position{line: 2827, col: 13, offset: 89389},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2826, col: 13, offset: 89360},
+																				pos: position{line: 2827, col: 13, offset: 89389},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2829, col: 14, offset: 89453},
+																				pos:        position{line: 2830, col: 14, offset: 89482},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -44170,18 +44388,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2831, col: 12, offset: 89497},
+																		pos: position{line: 2832, col: 12, offset: 89526},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2831, col: 12, offset: 89497},
+																				pos:        position{line: 2832, col: 12, offset: 89526},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2831, col: 16, offset: 89501},
+																				pos: position{line: 2832, col: 16, offset: 89530},
 																				expr: &litMatcher{
-																					pos:        position{line: 2831, col: 17, offset: 89502},
+																					pos:        position{line: 2832, col: 17, offset: 89531},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -44193,25 +44411,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2909, col: 12, offset: 91625},
+															pos: position{line: 2910, col: 12, offset: 91654},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2909, col: 13, offset: 91626},
+																pos: position{line: 2910, col: 13, offset: 91655},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 13, offset: 91626},
+																		pos:        position{line: 2910, col: 13, offset: 91655},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 20, offset: 91633},
+																		pos:        position{line: 2910, col: 20, offset: 91662},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2909, col: 29, offset: 91642},
+																		pos:        position{line: 2910, col: 29, offset: 91671},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -44220,35 +44438,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 636, col: 5, offset: 20109},
+															pos: position{line: 637, col: 5, offset: 20136},
 															run: (*parser).callonNormalGroup60,
 															expr: &seqExpr{
-																pos: position{line: 636, col: 5, offset: 20109},
+																pos: position{line: 637, col: 5, offset: 20136},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 636, col: 5, offset: 20109},
+																		pos: position{line: 637, col: 5, offset: 20136},
 																		run: (*parser).callonNormalGroup62,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 639, col: 5, offset: 20181},
+																		pos:   position{line: 640, col: 5, offset: 20208},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 639, col: 14, offset: 20190},
+																			pos: position{line: 640, col: 14, offset: 20217},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 645, col: 5, offset: 20319},
+																					pos: position{line: 646, col: 5, offset: 20346},
 																					run: (*parser).callonNormalGroup65,
 																					expr: &seqExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
+																						pos: position{line: 646, col: 5, offset: 20346},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 645, col: 5, offset: 20319},
+																								pos:        position{line: 646, col: 5, offset: 20346},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 645, col: 13, offset: 20327},
+																								pos:   position{line: 646, col: 13, offset: 20354},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -44280,7 +44498,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 645, col: 32, offset: 20346},
+																								pos:        position{line: 646, col: 32, offset: 20373},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -44289,19 +44507,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 652, col: 5, offset: 20587},
+																					pos: position{line: 653, col: 5, offset: 20614},
 																					run: (*parser).callonNormalGroup75,
 																					expr: &seqExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
+																						pos: position{line: 653, col: 5, offset: 20614},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 652, col: 5, offset: 20587},
+																								pos:        position{line: 653, col: 5, offset: 20614},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 652, col: 9, offset: 20591},
+																								pos:   position{line: 653, col: 9, offset: 20618},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -44333,7 +44551,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 652, col: 28, offset: 20610},
+																								pos:        position{line: 653, col: 28, offset: 20637},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -44342,19 +44560,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 658, col: 25, offset: 20791},
+																					pos: position{line: 659, col: 25, offset: 20818},
 																					run: (*parser).callonNormalGroup85,
 																					expr: &seqExpr{
-																						pos: position{line: 658, col: 25, offset: 20791},
+																						pos: position{line: 659, col: 25, offset: 20818},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 658, col: 25, offset: 20791},
+																								pos:        position{line: 659, col: 25, offset: 20818},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 37, offset: 20803},
+																								pos:   position{line: 659, col: 37, offset: 20830},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -44386,33 +44604,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 56, offset: 20822},
+																								pos:   position{line: 659, col: 56, offset: 20849},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 658, col: 62, offset: 20828},
+																									pos: position{line: 659, col: 62, offset: 20855},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21123},
+																										pos: position{line: 667, col: 17, offset: 21152},
 																										run: (*parser).callonNormalGroup96,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21123},
+																											pos: position{line: 667, col: 17, offset: 21152},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21123},
+																													pos:        position{line: 667, col: 17, offset: 21152},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21127},
+																													pos:   position{line: 667, col: 21, offset: 21156},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 667, col: 28, offset: 21163},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 667, col: 28, offset: 21163},
 																																run: (*parser).callonNormalGroup101,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21134},
+																																	pos:        position{line: 667, col: 28, offset: 21163},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -44420,12 +44638,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21188},
+																																pos: position{line: 669, col: 9, offset: 21217},
 																																run: (*parser).callonNormalGroup103,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21188},
+																																	pos: position{line: 669, col: 9, offset: 21217},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21188},
+																																		pos:        position{line: 669, col: 9, offset: 21217},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -44442,7 +44660,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 658, col: 78, offset: 20844},
+																								pos:        position{line: 659, col: 78, offset: 20871},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -44451,19 +44669,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 662, col: 25, offset: 20962},
+																					pos: position{line: 663, col: 25, offset: 20989},
 																					run: (*parser).callonNormalGroup107,
 																					expr: &seqExpr{
-																						pos: position{line: 662, col: 25, offset: 20962},
+																						pos: position{line: 663, col: 25, offset: 20989},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 662, col: 25, offset: 20962},
+																								pos:        position{line: 663, col: 25, offset: 20989},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 38, offset: 20975},
+																								pos:   position{line: 663, col: 38, offset: 21002},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -44495,33 +44713,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 57, offset: 20994},
+																								pos:   position{line: 663, col: 57, offset: 21021},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 662, col: 63, offset: 21000},
+																									pos: position{line: 663, col: 63, offset: 21027},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21123},
+																										pos: position{line: 667, col: 17, offset: 21152},
 																										run: (*parser).callonNormalGroup118,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21123},
+																											pos: position{line: 667, col: 17, offset: 21152},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21123},
+																													pos:        position{line: 667, col: 17, offset: 21152},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21127},
+																													pos:   position{line: 667, col: 21, offset: 21156},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 667, col: 28, offset: 21163},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 667, col: 28, offset: 21163},
 																																run: (*parser).callonNormalGroup123,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21134},
+																																	pos:        position{line: 667, col: 28, offset: 21163},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -44529,12 +44747,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21188},
+																																pos: position{line: 669, col: 9, offset: 21217},
 																																run: (*parser).callonNormalGroup125,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21188},
+																																	pos: position{line: 669, col: 9, offset: 21217},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21188},
+																																		pos:        position{line: 669, col: 9, offset: 21217},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -44551,7 +44769,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 662, col: 79, offset: 21016},
+																								pos:        position{line: 663, col: 79, offset: 21043},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -44566,35 +44784,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2405, col: 15, offset: 77412},
+															pos:  position{line: 2406, col: 15, offset: 77441},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2406, col: 15, offset: 77432},
+															pos:  position{line: 2407, col: 15, offset: 77461},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2407, col: 15, offset: 77521},
+															pos:  position{line: 2408, col: 15, offset: 77550},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2497, col: 5, offset: 79985},
+															pos: position{line: 2498, col: 5, offset: 80014},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2497, col: 5, offset: 79985},
+																pos: position{line: 2498, col: 5, offset: 80014},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2497, col: 5, offset: 79985},
+																		pos: position{line: 2498, col: 5, offset: 80014},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2500, col: 5, offset: 80061},
+																		pos:   position{line: 2501, col: 5, offset: 80090},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2501, col: 9, offset: 80079},
+																			pos: position{line: 2502, col: 9, offset: 80108},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2501, col: 10, offset: 80080},
+																				pos:        position{line: 2502, col: 10, offset: 80109},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -44606,32 +44824,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1206, col: 5, offset: 37418},
+															pos: position{line: 1207, col: 5, offset: 37447},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 1206, col: 5, offset: 37418},
+																pos: position{line: 1207, col: 5, offset: 37447},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1206, col: 5, offset: 37418},
+																		pos: position{line: 1207, col: 5, offset: 37447},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1209, col: 5, offset: 37494},
+																		pos:        position{line: 1210, col: 5, offset: 37523},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1210, col: 5, offset: 37502},
+																		pos: position{line: 1211, col: 5, offset: 37531},
 																		run: (*parser).callonNormalGroup142,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1214, col: 5, offset: 37589},
+																		pos: position{line: 1215, col: 5, offset: 37618},
 																		expr: &actionExpr{
-																			pos: position{line: 2900, col: 10, offset: 91454},
+																			pos: position{line: 2901, col: 10, offset: 91483},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2900, col: 10, offset: 91454},
+																				pos:        position{line: 2901, col: 10, offset: 91483},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -44640,30 +44858,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1214, col: 12, offset: 37596},
+																		pos: position{line: 1215, col: 12, offset: 37625},
 																		expr: &choiceExpr{
-																			pos: position{line: 2922, col: 8, offset: 91852},
+																			pos: position{line: 2923, col: 8, offset: 91881},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2909, col: 12, offset: 91625},
+																					pos: position{line: 2910, col: 12, offset: 91654},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2909, col: 13, offset: 91626},
+																						pos: position{line: 2910, col: 13, offset: 91655},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 13, offset: 91626},
+																								pos:        position{line: 2910, col: 13, offset: 91655},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 20, offset: 91633},
+																								pos:        position{line: 2910, col: 20, offset: 91662},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 29, offset: 91642},
+																								pos:        position{line: 2910, col: 29, offset: 91671},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -44672,9 +44890,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2919, col: 8, offset: 91802},
+																					pos: position{line: 2920, col: 8, offset: 91831},
 																					expr: &anyMatcher{
-																						line: 2919, col: 9, offset: 91803,
+																						line: 2920, col: 9, offset: 91832,
 																					},
 																				},
 																			},
@@ -44684,31 +44902,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2410, col: 15, offset: 77703},
+															pos:  position{line: 2411, col: 15, offset: 77732},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1198, col: 23, offset: 36972},
+															pos: position{line: 1199, col: 23, offset: 37001},
 															run: (*parser).callonNormalGroup156,
 															expr: &seqExpr{
-																pos: position{line: 1198, col: 23, offset: 36972},
+																pos: position{line: 1199, col: 23, offset: 37001},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36940},
+																		pos:        position{line: 1197, col: 32, offset: 36969},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1198, col: 51, offset: 37000},
+																		pos:   position{line: 1199, col: 51, offset: 37029},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1198, col: 56, offset: 37005},
+																			pos: position{line: 1199, col: 56, offset: 37034},
 																			run: (*parser).callonNormalGroup160,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1198, col: 56, offset: 37005},
+																				pos: position{line: 1199, col: 56, offset: 37034},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1198, col: 56, offset: 37005},
+																					pos:        position{line: 1199, col: 56, offset: 37034},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -44718,7 +44936,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36940},
+																		pos:        position{line: 1197, col: 32, offset: 36969},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -44727,10 +44945,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2839, col: 12, offset: 89762},
+															pos: position{line: 2840, col: 12, offset: 89791},
 															run: (*parser).callonNormalGroup164,
 															expr: &charClassMatcher{
-																pos:        position{line: 2839, col: 12, offset: 89762},
+																pos:        position{line: 2840, col: 12, offset: 89791},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -44746,9 +44964,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2919, col: 8, offset: 91802},
+							pos: position{line: 2920, col: 8, offset: 91831},
 							expr: &anyMatcher{
-								line: 2919, col: 9, offset: 91803,
+								line: 2920, col: 9, offset: 91832,
 							},
 						},
 					},
@@ -44757,28 +44975,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2421, col: 1, offset: 78141},
+			pos:  position{line: 2422, col: 1, offset: 78170},
 			expr: &actionExpr{
-				pos: position{line: 2422, col: 5, offset: 78174},
+				pos: position{line: 2423, col: 5, offset: 78203},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2422, col: 5, offset: 78174},
+					pos: position{line: 2423, col: 5, offset: 78203},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2422, col: 5, offset: 78174},
+							pos:   position{line: 2423, col: 5, offset: 78203},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2422, col: 14, offset: 78183},
+								pos: position{line: 2423, col: 14, offset: 78212},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2422, col: 15, offset: 78184},
+									pos:  position{line: 2423, col: 15, offset: 78213},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2919, col: 8, offset: 91802},
+							pos: position{line: 2920, col: 8, offset: 91831},
 							expr: &anyMatcher{
-								line: 2919, col: 9, offset: 91803,
+								line: 2920, col: 9, offset: 91832,
 							},
 						},
 					},
@@ -44787,41 +45005,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2426, col: 1, offset: 78281},
+			pos:  position{line: 2427, col: 1, offset: 78310},
 			expr: &actionExpr{
-				pos: position{line: 2427, col: 5, offset: 78321},
+				pos: position{line: 2428, col: 5, offset: 78350},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2427, col: 5, offset: 78321},
+					pos: position{line: 2428, col: 5, offset: 78350},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2917, col: 11, offset: 91788},
+							pos: position{line: 2918, col: 11, offset: 91817},
 							expr: &anyMatcher{
-								line: 2917, col: 13, offset: 91790,
+								line: 2918, col: 13, offset: 91819,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2428, col: 5, offset: 78332},
+							pos:   position{line: 2429, col: 5, offset: 78361},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2429, col: 9, offset: 78350},
+								pos: position{line: 2430, col: 9, offset: 78379},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2799, col: 5, offset: 88696},
+										pos: position{line: 2800, col: 5, offset: 88725},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2799, col: 5, offset: 88696},
+											pos: position{line: 2800, col: 5, offset: 88725},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2799, col: 5, offset: 88696},
+													pos:   position{line: 2800, col: 5, offset: 88725},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2799, col: 11, offset: 88702},
+														pos: position{line: 2800, col: 11, offset: 88731},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2799, col: 11, offset: 88702},
+															pos: position{line: 2800, col: 11, offset: 88731},
 															expr: &charClassMatcher{
-																pos:        position{line: 2799, col: 11, offset: 88702},
+																pos:        position{line: 2800, col: 11, offset: 88731},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44831,36 +45049,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2802, col: 5, offset: 88760},
+													pos: position{line: 2803, col: 5, offset: 88789},
 													expr: &seqExpr{
-														pos: position{line: 2803, col: 9, offset: 88771},
+														pos: position{line: 2804, col: 9, offset: 88800},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2803, col: 9, offset: 88771},
+																pos:        position{line: 2804, col: 9, offset: 88800},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2804, col: 9, offset: 88820},
+																pos: position{line: 2805, col: 9, offset: 88849},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2808, col: 5, offset: 88900},
+													pos: position{line: 2809, col: 5, offset: 88929},
 													expr: &seqExpr{
-														pos: position{line: 2809, col: 9, offset: 88911},
+														pos: position{line: 2810, col: 9, offset: 88940},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2809, col: 9, offset: 88911},
+																pos:        position{line: 2810, col: 9, offset: 88940},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2809, col: 13, offset: 88915},
+																pos:        position{line: 2810, col: 13, offset: 88944},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44873,10 +45091,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2900, col: 10, offset: 91454},
+										pos: position{line: 2901, col: 10, offset: 91483},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2900, col: 10, offset: 91454},
+											pos:        position{line: 2901, col: 10, offset: 91483},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -44884,31 +45102,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2431, col: 11, offset: 78388},
+										pos:  position{line: 2432, col: 11, offset: 78417},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2817, col: 5, offset: 89108},
+										pos: position{line: 2818, col: 5, offset: 89137},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2818, col: 9, offset: 89118},
+											pos: position{line: 2819, col: 9, offset: 89147},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2818, col: 10, offset: 89119},
+													pos:        position{line: 2819, col: 10, offset: 89148},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2820, col: 13, offset: 89216},
+													pos: position{line: 2821, col: 13, offset: 89245},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2820, col: 13, offset: 89216},
+															pos: position{line: 2821, col: 13, offset: 89245},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2823, col: 13, offset: 89316},
+															pos:        position{line: 2824, col: 13, offset: 89345},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -44916,20 +45134,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2823, col: 19, offset: 89322},
+													pos:        position{line: 2824, col: 19, offset: 89351},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2826, col: 13, offset: 89360},
+													pos: position{line: 2827, col: 13, offset: 89389},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2826, col: 13, offset: 89360},
+															pos: position{line: 2827, col: 13, offset: 89389},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2829, col: 14, offset: 89453},
+															pos:        position{line: 2830, col: 14, offset: 89482},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -44938,18 +45156,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2831, col: 12, offset: 89497},
+													pos: position{line: 2832, col: 12, offset: 89526},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2831, col: 12, offset: 89497},
+															pos:        position{line: 2832, col: 12, offset: 89526},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2831, col: 16, offset: 89501},
+															pos: position{line: 2832, col: 16, offset: 89530},
 															expr: &litMatcher{
-																pos:        position{line: 2831, col: 17, offset: 89502},
+																pos:        position{line: 2832, col: 17, offset: 89531},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -44961,31 +45179,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2433, col: 11, offset: 78461},
+										pos:  position{line: 2434, col: 11, offset: 78490},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2434, col: 11, offset: 78477},
+										pos:  position{line: 2435, col: 11, offset: 78506},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2497, col: 5, offset: 79985},
+										pos: position{line: 2498, col: 5, offset: 80014},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2497, col: 5, offset: 79985},
+											pos: position{line: 2498, col: 5, offset: 80014},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2497, col: 5, offset: 79985},
+													pos: position{line: 2498, col: 5, offset: 80014},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2500, col: 5, offset: 80061},
+													pos:   position{line: 2501, col: 5, offset: 80090},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2501, col: 9, offset: 80079},
+														pos: position{line: 2502, col: 9, offset: 80108},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2501, col: 10, offset: 80080},
+															pos:        position{line: 2502, col: 10, offset: 80109},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -44997,27 +45215,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1198, col: 23, offset: 36972},
+										pos: position{line: 1199, col: 23, offset: 37001},
 										run: (*parser).callonAttributeStructuredValueElement46,
 										expr: &seqExpr{
-											pos: position{line: 1198, col: 23, offset: 36972},
+											pos: position{line: 1199, col: 23, offset: 37001},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36940},
+													pos:        position{line: 1197, col: 32, offset: 36969},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1198, col: 51, offset: 37000},
+													pos:   position{line: 1199, col: 51, offset: 37029},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1198, col: 56, offset: 37005},
+														pos: position{line: 1199, col: 56, offset: 37034},
 														run: (*parser).callonAttributeStructuredValueElement50,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1198, col: 56, offset: 37005},
+															pos: position{line: 1199, col: 56, offset: 37034},
 															expr: &charClassMatcher{
-																pos:        position{line: 1198, col: 56, offset: 37005},
+																pos:        position{line: 1199, col: 56, offset: 37034},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -45027,7 +45245,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36940},
+													pos:        position{line: 1197, col: 32, offset: 36969},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -45036,25 +45254,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2909, col: 12, offset: 91625},
+										pos: position{line: 2910, col: 12, offset: 91654},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2909, col: 13, offset: 91626},
+											pos: position{line: 2910, col: 13, offset: 91655},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2909, col: 13, offset: 91626},
+													pos:        position{line: 2910, col: 13, offset: 91655},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2909, col: 20, offset: 91633},
+													pos:        position{line: 2910, col: 20, offset: 91662},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2909, col: 29, offset: 91642},
+													pos:        position{line: 2910, col: 29, offset: 91671},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45063,10 +45281,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2839, col: 12, offset: 89762},
+										pos: position{line: 2840, col: 12, offset: 89791},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2839, col: 12, offset: 89762},
+											pos:        position{line: 2840, col: 12, offset: 89791},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45082,73 +45300,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2445, col: 1, offset: 78747},
+			pos:  position{line: 2446, col: 1, offset: 78776},
 			expr: &actionExpr{
-				pos: position{line: 2447, col: 5, offset: 78829},
+				pos: position{line: 2448, col: 5, offset: 78858},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2447, col: 5, offset: 78829},
+					pos: position{line: 2448, col: 5, offset: 78858},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2447, col: 5, offset: 78829},
+							pos: position{line: 2448, col: 5, offset: 78858},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2450, col: 5, offset: 78894},
+							pos:   position{line: 2451, col: 5, offset: 78923},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2451, col: 9, offset: 78912},
+								pos: position{line: 2452, col: 9, offset: 78941},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2451, col: 9, offset: 78912},
+										pos:  position{line: 2452, col: 9, offset: 78941},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2452, col: 11, offset: 78933},
+										pos:  position{line: 2453, col: 11, offset: 78962},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2453, col: 11, offset: 78956},
+										pos:  position{line: 2454, col: 11, offset: 78985},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2454, col: 11, offset: 78972},
+										pos:  position{line: 2455, col: 11, offset: 79001},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2455, col: 11, offset: 79001},
+										pos:  position{line: 2456, col: 11, offset: 79030},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2456, col: 11, offset: 79027},
+										pos:  position{line: 2457, col: 11, offset: 79056},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2457, col: 11, offset: 79053},
+										pos:  position{line: 2458, col: 11, offset: 79082},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1253, col: 5, offset: 38732},
+										pos: position{line: 1254, col: 5, offset: 38761},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1253, col: 5, offset: 38732},
+											pos: position{line: 1254, col: 5, offset: 38761},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1253, col: 5, offset: 38732},
+													pos:        position{line: 1254, col: 5, offset: 38761},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1253, col: 14, offset: 38741},
+													pos:   position{line: 1254, col: 14, offset: 38770},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2885, col: 7, offset: 91106},
+														pos: position{line: 2886, col: 7, offset: 91135},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2885, col: 7, offset: 91106},
+															pos: position{line: 2886, col: 7, offset: 91135},
 															expr: &charClassMatcher{
-																pos:        position{line: 2885, col: 7, offset: 91106},
+																pos:        position{line: 2886, col: 7, offset: 91135},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45158,7 +45376,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1253, col: 22, offset: 38749},
+													pos:        position{line: 1254, col: 22, offset: 38778},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45167,27 +45385,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1258, col: 5, offset: 38868},
+										pos: position{line: 1259, col: 5, offset: 38897},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1258, col: 5, offset: 38868},
+											pos: position{line: 1259, col: 5, offset: 38897},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1258, col: 5, offset: 38868},
+													pos:        position{line: 1259, col: 5, offset: 38897},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1258, col: 10, offset: 38873},
+													pos:   position{line: 1259, col: 10, offset: 38902},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2885, col: 7, offset: 91106},
+														pos: position{line: 2886, col: 7, offset: 91135},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2885, col: 7, offset: 91106},
+															pos: position{line: 2886, col: 7, offset: 91135},
 															expr: &charClassMatcher{
-																pos:        position{line: 2885, col: 7, offset: 91106},
+																pos:        position{line: 2886, col: 7, offset: 91135},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45197,7 +45415,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1258, col: 18, offset: 38881},
+													pos:        position{line: 1259, col: 18, offset: 38910},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45206,40 +45424,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1297, col: 23, offset: 40357},
+										pos: position{line: 1298, col: 23, offset: 40386},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1297, col: 23, offset: 40357},
+											pos: position{line: 1298, col: 23, offset: 40386},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1297, col: 23, offset: 40357},
+													pos:        position{line: 1298, col: 23, offset: 40386},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1297, col: 29, offset: 40363},
+													pos:   position{line: 1298, col: 29, offset: 40392},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1304, col: 30, offset: 40694},
+														pos: position{line: 1305, col: 30, offset: 40723},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1304, col: 30, offset: 40694},
+															pos: position{line: 1305, col: 30, offset: 40723},
 															expr: &choiceExpr{
-																pos: position{line: 1304, col: 31, offset: 40695},
+																pos: position{line: 1305, col: 31, offset: 40724},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2790, col: 13, offset: 88549},
+																		pos:        position{line: 2791, col: 13, offset: 88578},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2900, col: 10, offset: 91454},
+																		pos: position{line: 2901, col: 10, offset: 91483},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 10, offset: 91454},
+																			pos:        position{line: 2901, col: 10, offset: 91483},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -45252,23 +45470,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1298, col: 5, offset: 40402},
+													pos:   position{line: 1299, col: 5, offset: 40431},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1298, col: 11, offset: 40408},
+														pos: position{line: 1299, col: 11, offset: 40437},
 														expr: &actionExpr{
-															pos: position{line: 1298, col: 12, offset: 40409},
+															pos: position{line: 1299, col: 12, offset: 40438},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1298, col: 12, offset: 40409},
+																pos: position{line: 1299, col: 12, offset: 40438},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1298, col: 12, offset: 40409},
+																		pos: position{line: 1299, col: 12, offset: 40438},
 																		expr: &actionExpr{
-																			pos: position{line: 2900, col: 10, offset: 91454},
+																			pos: position{line: 2901, col: 10, offset: 91483},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2900, col: 10, offset: 91454},
+																				pos:        position{line: 2901, col: 10, offset: 91483},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45277,18 +45495,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1298, col: 19, offset: 40416},
+																		pos:        position{line: 1299, col: 19, offset: 40445},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1298, col: 23, offset: 40420},
+																		pos: position{line: 1299, col: 23, offset: 40449},
 																		expr: &actionExpr{
-																			pos: position{line: 2900, col: 10, offset: 91454},
+																			pos: position{line: 2901, col: 10, offset: 91483},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2900, col: 10, offset: 91454},
+																				pos:        position{line: 2901, col: 10, offset: 91483},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45297,28 +45515,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1298, col: 30, offset: 40427},
+																		pos:   position{line: 1299, col: 30, offset: 40456},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1304, col: 30, offset: 40694},
+																			pos: position{line: 1305, col: 30, offset: 40723},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1304, col: 30, offset: 40694},
+																				pos: position{line: 1305, col: 30, offset: 40723},
 																				expr: &choiceExpr{
-																					pos: position{line: 1304, col: 31, offset: 40695},
+																					pos: position{line: 1305, col: 31, offset: 40724},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2790, col: 13, offset: 88549},
+																							pos:        position{line: 2791, col: 13, offset: 88578},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2900, col: 10, offset: 91454},
+																							pos: position{line: 2901, col: 10, offset: 91483},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2900, col: 10, offset: 91454},
+																								pos:        position{line: 2901, col: 10, offset: 91483},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -45336,23 +45554,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1299, col: 5, offset: 40494},
+													pos:   position{line: 1300, col: 5, offset: 40523},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1299, col: 11, offset: 40500},
+														pos: position{line: 1300, col: 11, offset: 40529},
 														expr: &actionExpr{
-															pos: position{line: 1299, col: 12, offset: 40501},
+															pos: position{line: 1300, col: 12, offset: 40530},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1299, col: 12, offset: 40501},
+																pos: position{line: 1300, col: 12, offset: 40530},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1299, col: 12, offset: 40501},
+																		pos: position{line: 1300, col: 12, offset: 40530},
 																		expr: &actionExpr{
-																			pos: position{line: 2900, col: 10, offset: 91454},
+																			pos: position{line: 2901, col: 10, offset: 91483},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2900, col: 10, offset: 91454},
+																				pos:        position{line: 2901, col: 10, offset: 91483},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45361,18 +45579,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1299, col: 19, offset: 40508},
+																		pos:        position{line: 1300, col: 19, offset: 40537},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1299, col: 23, offset: 40512},
+																		pos: position{line: 1300, col: 23, offset: 40541},
 																		expr: &actionExpr{
-																			pos: position{line: 2900, col: 10, offset: 91454},
+																			pos: position{line: 2901, col: 10, offset: 91483},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2900, col: 10, offset: 91454},
+																				pos:        position{line: 2901, col: 10, offset: 91483},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45381,28 +45599,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1299, col: 30, offset: 40519},
+																		pos:   position{line: 1300, col: 30, offset: 40548},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1304, col: 30, offset: 40694},
+																			pos: position{line: 1305, col: 30, offset: 40723},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1304, col: 30, offset: 40694},
+																				pos: position{line: 1305, col: 30, offset: 40723},
 																				expr: &choiceExpr{
-																					pos: position{line: 1304, col: 31, offset: 40695},
+																					pos: position{line: 1305, col: 31, offset: 40724},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2790, col: 13, offset: 88549},
+																							pos:        position{line: 2791, col: 13, offset: 88578},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2900, col: 10, offset: 91454},
+																							pos: position{line: 2901, col: 10, offset: 91483},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2900, col: 10, offset: 91454},
+																								pos:        position{line: 2901, col: 10, offset: 91483},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -45420,7 +45638,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1300, col: 5, offset: 40586},
+													pos:        position{line: 1301, col: 5, offset: 40615},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -45429,15 +45647,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2460, col: 11, offset: 79132},
+										pos:  position{line: 2461, col: 11, offset: 79161},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2461, col: 11, offset: 79152},
+										pos:  position{line: 2462, col: 11, offset: 79181},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2462, col: 11, offset: 79175},
+										pos:  position{line: 2463, col: 11, offset: 79204},
 										name: "InlineMenu",
 									},
 								},
@@ -45449,80 +45667,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2466, col: 1, offset: 79232},
+			pos:  position{line: 2467, col: 1, offset: 79261},
 			expr: &actionExpr{
-				pos: position{line: 2468, col: 5, offset: 79320},
+				pos: position{line: 2469, col: 5, offset: 79349},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2468, col: 5, offset: 79320},
+					pos: position{line: 2469, col: 5, offset: 79349},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2468, col: 5, offset: 79320},
+							pos: position{line: 2469, col: 5, offset: 79349},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2471, col: 5, offset: 79397},
+							pos:   position{line: 2472, col: 5, offset: 79426},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2472, col: 9, offset: 79415},
+								pos: position{line: 2473, col: 9, offset: 79444},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1384, col: 26, offset: 44080},
+										pos: position{line: 1385, col: 26, offset: 44109},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1384, col: 26, offset: 44080},
+											pos: position{line: 1385, col: 26, offset: 44109},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1382, col: 32, offset: 44048},
+													pos:        position{line: 1383, col: 32, offset: 44077},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1384, col: 54, offset: 44108},
+													pos:   position{line: 1385, col: 54, offset: 44137},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1388, col: 33, offset: 44321},
+														pos: position{line: 1389, col: 33, offset: 44350},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1388, col: 34, offset: 44322},
+																pos: position{line: 1389, col: 34, offset: 44351},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1388, col: 34, offset: 44322},
+																	pos: position{line: 1389, col: 34, offset: 44351},
 																	expr: &seqExpr{
-																		pos: position{line: 1388, col: 35, offset: 44323},
+																		pos: position{line: 1389, col: 35, offset: 44352},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1388, col: 35, offset: 44323},
+																				pos: position{line: 1389, col: 35, offset: 44352},
 																				expr: &litMatcher{
-																					pos:        position{line: 1382, col: 32, offset: 44048},
+																					pos:        position{line: 1383, col: 32, offset: 44077},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1388, col: 64, offset: 44352,
+																				line: 1389, col: 64, offset: 44381,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1390, col: 11, offset: 44525},
+																pos: position{line: 1391, col: 11, offset: 44554},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1390, col: 11, offset: 44525},
+																	pos: position{line: 1391, col: 11, offset: 44554},
 																	expr: &seqExpr{
-																		pos: position{line: 1390, col: 12, offset: 44526},
+																		pos: position{line: 1391, col: 12, offset: 44555},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1390, col: 12, offset: 44526},
+																				pos: position{line: 1391, col: 12, offset: 44555},
 																				expr: &actionExpr{
-																					pos: position{line: 2900, col: 10, offset: 91454},
+																					pos: position{line: 2901, col: 10, offset: 91483},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2900, col: 10, offset: 91454},
+																						pos:        position{line: 2901, col: 10, offset: 91483},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -45531,27 +45749,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1390, col: 19, offset: 44533},
+																				pos: position{line: 1391, col: 19, offset: 44562},
 																				expr: &actionExpr{
-																					pos: position{line: 2909, col: 12, offset: 91625},
+																					pos: position{line: 2910, col: 12, offset: 91654},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2909, col: 13, offset: 91626},
+																						pos: position{line: 2910, col: 13, offset: 91655},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 13, offset: 91626},
+																								pos:        position{line: 2910, col: 13, offset: 91655},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 20, offset: 91633},
+																								pos:        position{line: 2910, col: 20, offset: 91662},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2909, col: 29, offset: 91642},
+																								pos:        position{line: 2910, col: 29, offset: 91671},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45561,16 +45779,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1390, col: 28, offset: 44542},
+																				pos: position{line: 1391, col: 28, offset: 44571},
 																				expr: &litMatcher{
-																					pos:        position{line: 1382, col: 32, offset: 44048},
+																					pos:        position{line: 1383, col: 32, offset: 44077},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1390, col: 57, offset: 44571,
+																				line: 1391, col: 57, offset: 44600,
 																			},
 																		},
 																	},
@@ -45580,15 +45798,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1382, col: 32, offset: 44048},
+													pos:        position{line: 1383, col: 32, offset: 44077},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1384, col: 121, offset: 44175},
+													pos: position{line: 1385, col: 121, offset: 44204},
 													expr: &charClassMatcher{
-														pos:        position{line: 2790, col: 13, offset: 88549},
+														pos:        position{line: 2791, col: 13, offset: 88578},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -45599,45 +45817,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1372, col: 26, offset: 43363},
+										pos: position{line: 1373, col: 26, offset: 43392},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1372, col: 26, offset: 43363},
+											pos: position{line: 1373, col: 26, offset: 43392},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1370, col: 32, offset: 43333},
+													pos:        position{line: 1371, col: 32, offset: 43362},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1372, col: 54, offset: 43391},
+													pos:   position{line: 1373, col: 54, offset: 43420},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1376, col: 33, offset: 43604},
+														pos: position{line: 1377, col: 33, offset: 43633},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1376, col: 34, offset: 43605},
+																pos: position{line: 1377, col: 34, offset: 43634},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1376, col: 34, offset: 43605},
+																	pos: position{line: 1377, col: 34, offset: 43634},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1376, col: 35, offset: 43606},
+																			pos: position{line: 1377, col: 35, offset: 43635},
 																			expr: &litMatcher{
-																				pos:        position{line: 1370, col: 32, offset: 43333},
+																				pos:        position{line: 1371, col: 32, offset: 43362},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1376, col: 64, offset: 43635},
+																			pos: position{line: 1377, col: 64, offset: 43664},
 																			expr: &actionExpr{
-																				pos: position{line: 2900, col: 10, offset: 91454},
+																				pos: position{line: 2901, col: 10, offset: 91483},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2900, col: 10, offset: 91454},
+																					pos:        position{line: 2901, col: 10, offset: 91483},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -45646,27 +45864,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1376, col: 71, offset: 43642},
+																			pos: position{line: 1377, col: 71, offset: 43671},
 																			expr: &actionExpr{
-																				pos: position{line: 2909, col: 12, offset: 91625},
+																				pos: position{line: 2910, col: 12, offset: 91654},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2909, col: 13, offset: 91626},
+																					pos: position{line: 2910, col: 13, offset: 91655},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 13, offset: 91626},
+																							pos:        position{line: 2910, col: 13, offset: 91655},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 20, offset: 91633},
+																							pos:        position{line: 2910, col: 20, offset: 91662},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 29, offset: 91642},
+																							pos:        position{line: 2910, col: 29, offset: 91671},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -45676,25 +45894,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1376, col: 80, offset: 43651,
+																			line: 1377, col: 80, offset: 43680,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1376, col: 83, offset: 43654},
+																			pos: position{line: 1377, col: 83, offset: 43683},
 																			expr: &seqExpr{
-																				pos: position{line: 1376, col: 84, offset: 43655},
+																				pos: position{line: 1377, col: 84, offset: 43684},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1376, col: 84, offset: 43655},
+																						pos: position{line: 1377, col: 84, offset: 43684},
 																						expr: &seqExpr{
-																							pos: position{line: 1376, col: 86, offset: 43657},
+																							pos: position{line: 1377, col: 86, offset: 43686},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2904, col: 11, offset: 91515},
+																									pos: position{line: 2905, col: 11, offset: 91544},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2904, col: 11, offset: 91515},
+																										pos: position{line: 2905, col: 11, offset: 91544},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2904, col: 11, offset: 91515},
+																											pos:        position{line: 2905, col: 11, offset: 91544},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -45703,7 +45921,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1370, col: 32, offset: 43333},
+																									pos:        position{line: 1371, col: 32, offset: 43362},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -45712,36 +45930,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1376, col: 122, offset: 43693},
+																						pos: position{line: 1377, col: 122, offset: 43722},
 																						expr: &litMatcher{
-																							pos:        position{line: 1370, col: 32, offset: 43333},
+																							pos:        position{line: 1371, col: 32, offset: 43362},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1376, col: 151, offset: 43722},
+																						pos: position{line: 1377, col: 151, offset: 43751},
 																						expr: &actionExpr{
-																							pos: position{line: 2909, col: 12, offset: 91625},
+																							pos: position{line: 2910, col: 12, offset: 91654},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2909, col: 13, offset: 91626},
+																								pos: position{line: 2910, col: 13, offset: 91655},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 13, offset: 91626},
+																										pos:        position{line: 2910, col: 13, offset: 91655},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 20, offset: 91633},
+																										pos:        position{line: 2910, col: 20, offset: 91662},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2909, col: 29, offset: 91642},
+																										pos:        position{line: 2910, col: 29, offset: 91671},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -45751,7 +45969,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1376, col: 160, offset: 43731,
+																						line: 1377, col: 160, offset: 43760,
 																					},
 																				},
 																			},
@@ -45760,18 +45978,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1378, col: 11, offset: 43881},
+																pos: position{line: 1379, col: 11, offset: 43910},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1378, col: 12, offset: 43882},
+																	pos: position{line: 1379, col: 12, offset: 43911},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1378, col: 12, offset: 43882},
+																			pos: position{line: 1379, col: 12, offset: 43911},
 																			expr: &actionExpr{
-																				pos: position{line: 2900, col: 10, offset: 91454},
+																				pos: position{line: 2901, col: 10, offset: 91483},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2900, col: 10, offset: 91454},
+																					pos:        position{line: 2901, col: 10, offset: 91483},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -45780,27 +45998,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1378, col: 19, offset: 43889},
+																			pos: position{line: 1379, col: 19, offset: 43918},
 																			expr: &actionExpr{
-																				pos: position{line: 2909, col: 12, offset: 91625},
+																				pos: position{line: 2910, col: 12, offset: 91654},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2909, col: 13, offset: 91626},
+																					pos: position{line: 2910, col: 13, offset: 91655},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 13, offset: 91626},
+																							pos:        position{line: 2910, col: 13, offset: 91655},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 20, offset: 91633},
+																							pos:        position{line: 2910, col: 20, offset: 91662},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2909, col: 29, offset: 91642},
+																							pos:        position{line: 2910, col: 29, offset: 91671},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -45810,16 +46028,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1378, col: 28, offset: 43898},
+																			pos: position{line: 1379, col: 28, offset: 43927},
 																			expr: &litMatcher{
-																				pos:        position{line: 1370, col: 32, offset: 43333},
+																				pos:        position{line: 1371, col: 32, offset: 43362},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1378, col: 57, offset: 43927,
+																			line: 1379, col: 57, offset: 43956,
 																		},
 																	},
 																},
@@ -45828,15 +46046,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1370, col: 32, offset: 43333},
+													pos:        position{line: 1371, col: 32, offset: 43362},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1372, col: 121, offset: 43458},
+													pos: position{line: 1373, col: 121, offset: 43487},
 													expr: &charClassMatcher{
-														pos:        position{line: 2790, col: 13, offset: 88549},
+														pos:        position{line: 2791, col: 13, offset: 88578},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -45847,7 +46065,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2472, col: 57, offset: 79463},
+										pos:  position{line: 2473, col: 57, offset: 79492},
 										name: "PassthroughMacro",
 									},
 								},
@@ -45859,16 +46077,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2477, col: 1, offset: 79523},
+			pos:  position{line: 2478, col: 1, offset: 79552},
 			expr: &seqExpr{
-				pos: position{line: 2479, col: 5, offset: 79599},
+				pos: position{line: 2480, col: 5, offset: 79628},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2479, col: 5, offset: 79599},
+						pos: position{line: 2480, col: 5, offset: 79628},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2482, col: 5, offset: 79664},
+						pos:  position{line: 2483, col: 5, offset: 79693},
 						name: "QuotedText",
 					},
 				},
@@ -45876,22 +46094,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2484, col: 1, offset: 79677},
+			pos:  position{line: 2485, col: 1, offset: 79706},
 			expr: &actionExpr{
-				pos: position{line: 2486, col: 5, offset: 79759},
+				pos: position{line: 2487, col: 5, offset: 79788},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2486, col: 5, offset: 79759},
+					pos: position{line: 2487, col: 5, offset: 79788},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2486, col: 5, offset: 79759},
+							pos: position{line: 2487, col: 5, offset: 79788},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2489, col: 5, offset: 79830},
+							pos:   position{line: 2490, col: 5, offset: 79859},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2490, col: 9, offset: 79848},
+								pos:  position{line: 2491, col: 9, offset: 79877},
 								name: "Symbol",
 							},
 						},
@@ -45901,103 +46119,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2545, col: 1, offset: 81607},
+			pos:  position{line: 2546, col: 1, offset: 81636},
 			expr: &choiceExpr{
-				pos: position{line: 2547, col: 5, offset: 81637},
+				pos: position{line: 2548, col: 5, offset: 81666},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2547, col: 5, offset: 81637},
+						pos: position{line: 2548, col: 5, offset: 81666},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2547, col: 5, offset: 81637},
+							pos: position{line: 2548, col: 5, offset: 81666},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2547, col: 5, offset: 81637},
+									pos:        position{line: 2548, col: 5, offset: 81666},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2547, col: 10, offset: 81642},
+									pos: position{line: 2548, col: 10, offset: 81671},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2547, col: 10, offset: 81642},
+											pos:  position{line: 2548, col: 10, offset: 81671},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2576, col: 14, offset: 82746},
+											pos: position{line: 2577, col: 14, offset: 82775},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2576, col: 14, offset: 82746},
+												pos:        position{line: 2577, col: 14, offset: 82775},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2580, col: 14, offset: 82812},
+											pos: position{line: 2581, col: 14, offset: 82841},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2580, col: 14, offset: 82812},
+												pos:        position{line: 2581, col: 14, offset: 82841},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2584, col: 15, offset: 82881},
+											pos: position{line: 2585, col: 15, offset: 82910},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2584, col: 15, offset: 82881},
+												pos:        position{line: 2585, col: 15, offset: 82910},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2588, col: 13, offset: 82946},
+											pos: position{line: 2589, col: 13, offset: 82975},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2588, col: 13, offset: 82946},
+												pos:        position{line: 2589, col: 13, offset: 82975},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2616, col: 21, offset: 83516},
+											pos: position{line: 2617, col: 21, offset: 83545},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2616, col: 21, offset: 83516},
+												pos:        position{line: 2617, col: 21, offset: 83545},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2595, col: 5, offset: 83102},
+											pos: position{line: 2596, col: 5, offset: 83131},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2595, col: 5, offset: 83102},
+												pos: position{line: 2596, col: 5, offset: 83131},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2595, col: 5, offset: 83102},
+														pos:        position{line: 2596, col: 5, offset: 83131},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2596, col: 5, offset: 83112},
+														pos: position{line: 2597, col: 5, offset: 83141},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2600, col: 6, offset: 83199},
+														pos: position{line: 2601, col: 6, offset: 83228},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2900, col: 10, offset: 91454},
+																pos: position{line: 2901, col: 10, offset: 91483},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2900, col: 10, offset: 91454},
+																	pos:        position{line: 2901, col: 10, offset: 91483},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46005,30 +46223,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2600, col: 14, offset: 83207},
+																pos: position{line: 2601, col: 14, offset: 83236},
 																expr: &choiceExpr{
-																	pos: position{line: 2922, col: 8, offset: 91852},
+																	pos: position{line: 2923, col: 8, offset: 91881},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 12, offset: 91625},
+																			pos: position{line: 2910, col: 12, offset: 91654},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2909, col: 13, offset: 91626},
+																				pos: position{line: 2910, col: 13, offset: 91655},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 13, offset: 91626},
+																						pos:        position{line: 2910, col: 13, offset: 91655},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 20, offset: 91633},
+																						pos:        position{line: 2910, col: 20, offset: 91662},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2909, col: 29, offset: 91642},
+																						pos:        position{line: 2910, col: 29, offset: 91671},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -46037,9 +46255,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2919, col: 8, offset: 91802},
+																			pos: position{line: 2920, col: 8, offset: 91831},
 																			expr: &anyMatcher{
-																				line: 2919, col: 9, offset: 91803,
+																				line: 2920, col: 9, offset: 91832,
 																			},
 																		},
 																	},
@@ -46051,53 +46269,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2605, col: 5, offset: 83327},
+											pos: position{line: 2606, col: 5, offset: 83356},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2605, col: 5, offset: 83327},
+												pos: position{line: 2606, col: 5, offset: 83356},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2605, col: 5, offset: 83327},
+														pos:        position{line: 2606, col: 5, offset: 83356},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2606, col: 5, offset: 83337},
+														pos: position{line: 2607, col: 5, offset: 83366},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2610, col: 5, offset: 83426},
+														pos: position{line: 2611, col: 5, offset: 83455},
 														expr: &choiceExpr{
-															pos: position{line: 2610, col: 7, offset: 83428},
+															pos: position{line: 2611, col: 7, offset: 83457},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2790, col: 13, offset: 88549},
+																	pos:        position{line: 2791, col: 13, offset: 88578},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2909, col: 12, offset: 91625},
+																	pos: position{line: 2910, col: 12, offset: 91654},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2909, col: 13, offset: 91626},
+																		pos: position{line: 2910, col: 13, offset: 91655},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2909, col: 13, offset: 91626},
+																				pos:        position{line: 2910, col: 13, offset: 91655},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2909, col: 20, offset: 91633},
+																				pos:        position{line: 2910, col: 20, offset: 91662},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2909, col: 29, offset: 91642},
+																				pos:        position{line: 2910, col: 29, offset: 91671},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -46106,9 +46324,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2919, col: 8, offset: 91802},
+																	pos: position{line: 2920, col: 8, offset: 91831},
 																	expr: &anyMatcher{
-																		line: 2919, col: 9, offset: 91803,
+																		line: 2920, col: 9, offset: 91832,
 																	},
 																},
 															},
@@ -46118,30 +46336,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2620, col: 20, offset: 83586},
+											pos: position{line: 2621, col: 20, offset: 83615},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2620, col: 20, offset: 83586},
+												pos:        position{line: 2621, col: 20, offset: 83615},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2624, col: 21, offset: 83657},
+											pos: position{line: 2625, col: 21, offset: 83686},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2624, col: 21, offset: 83657},
+												pos:        position{line: 2625, col: 21, offset: 83686},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2628, col: 20, offset: 83727},
+											pos: position{line: 2629, col: 20, offset: 83756},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2628, col: 20, offset: 83727},
+												pos:        position{line: 2629, col: 20, offset: 83756},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -46153,73 +46371,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2551, col: 7, offset: 81897},
+						pos:  position{line: 2552, col: 7, offset: 81926},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2576, col: 14, offset: 82746},
+						pos: position{line: 2577, col: 14, offset: 82775},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2576, col: 14, offset: 82746},
+							pos:        position{line: 2577, col: 14, offset: 82775},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2580, col: 14, offset: 82812},
+						pos: position{line: 2581, col: 14, offset: 82841},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2580, col: 14, offset: 82812},
+							pos:        position{line: 2581, col: 14, offset: 82841},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2584, col: 15, offset: 82881},
+						pos: position{line: 2585, col: 15, offset: 82910},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2584, col: 15, offset: 82881},
+							pos:        position{line: 2585, col: 15, offset: 82910},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2588, col: 13, offset: 82946},
+						pos: position{line: 2589, col: 13, offset: 82975},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2588, col: 13, offset: 82946},
+							pos:        position{line: 2589, col: 13, offset: 82975},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2595, col: 5, offset: 83102},
+						pos: position{line: 2596, col: 5, offset: 83131},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2595, col: 5, offset: 83102},
+							pos: position{line: 2596, col: 5, offset: 83131},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2595, col: 5, offset: 83102},
+									pos:        position{line: 2596, col: 5, offset: 83131},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2596, col: 5, offset: 83112},
+									pos: position{line: 2597, col: 5, offset: 83141},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2600, col: 6, offset: 83199},
+									pos: position{line: 2601, col: 6, offset: 83228},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2900, col: 10, offset: 91454},
+											pos: position{line: 2901, col: 10, offset: 91483},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2900, col: 10, offset: 91454},
+												pos:        position{line: 2901, col: 10, offset: 91483},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46227,30 +46445,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2600, col: 14, offset: 83207},
+											pos: position{line: 2601, col: 14, offset: 83236},
 											expr: &choiceExpr{
-												pos: position{line: 2922, col: 8, offset: 91852},
+												pos: position{line: 2923, col: 8, offset: 91881},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2909, col: 12, offset: 91625},
+														pos: position{line: 2910, col: 12, offset: 91654},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2909, col: 13, offset: 91626},
+															pos: position{line: 2910, col: 13, offset: 91655},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2909, col: 13, offset: 91626},
+																	pos:        position{line: 2910, col: 13, offset: 91655},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2909, col: 20, offset: 91633},
+																	pos:        position{line: 2910, col: 20, offset: 91662},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2909, col: 29, offset: 91642},
+																	pos:        position{line: 2910, col: 29, offset: 91671},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -46259,9 +46477,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2919, col: 8, offset: 91802},
+														pos: position{line: 2920, col: 8, offset: 91831},
 														expr: &anyMatcher{
-															line: 2919, col: 9, offset: 91803,
+															line: 2920, col: 9, offset: 91832,
 														},
 													},
 												},
@@ -46273,53 +46491,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2605, col: 5, offset: 83327},
+						pos: position{line: 2606, col: 5, offset: 83356},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2605, col: 5, offset: 83327},
+							pos: position{line: 2606, col: 5, offset: 83356},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2605, col: 5, offset: 83327},
+									pos:        position{line: 2606, col: 5, offset: 83356},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2606, col: 5, offset: 83337},
+									pos: position{line: 2607, col: 5, offset: 83366},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2610, col: 5, offset: 83426},
+									pos: position{line: 2611, col: 5, offset: 83455},
 									expr: &choiceExpr{
-										pos: position{line: 2610, col: 7, offset: 83428},
+										pos: position{line: 2611, col: 7, offset: 83457},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2790, col: 13, offset: 88549},
+												pos:        position{line: 2791, col: 13, offset: 88578},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2909, col: 12, offset: 91625},
+												pos: position{line: 2910, col: 12, offset: 91654},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2909, col: 13, offset: 91626},
+													pos: position{line: 2910, col: 13, offset: 91655},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2909, col: 13, offset: 91626},
+															pos:        position{line: 2910, col: 13, offset: 91655},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2909, col: 20, offset: 91633},
+															pos:        position{line: 2910, col: 20, offset: 91662},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2909, col: 29, offset: 91642},
+															pos:        position{line: 2910, col: 29, offset: 91671},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -46328,9 +46546,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2919, col: 8, offset: 91802},
+												pos: position{line: 2920, col: 8, offset: 91831},
 												expr: &anyMatcher{
-													line: 2919, col: 9, offset: 91803,
+													line: 2920, col: 9, offset: 91832,
 												},
 											},
 										},
@@ -46340,40 +46558,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2616, col: 21, offset: 83516},
+						pos: position{line: 2617, col: 21, offset: 83545},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2616, col: 21, offset: 83516},
+							pos:        position{line: 2617, col: 21, offset: 83545},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2620, col: 20, offset: 83586},
+						pos: position{line: 2621, col: 20, offset: 83615},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2620, col: 20, offset: 83586},
+							pos:        position{line: 2621, col: 20, offset: 83615},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2624, col: 21, offset: 83657},
+						pos: position{line: 2625, col: 21, offset: 83686},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2624, col: 21, offset: 83657},
+							pos:        position{line: 2625, col: 21, offset: 83686},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2628, col: 20, offset: 83727},
+						pos: position{line: 2629, col: 20, offset: 83756},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2628, col: 20, offset: 83727},
+							pos:        position{line: 2629, col: 20, offset: 83756},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -46384,43 +46602,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2562, col: 1, offset: 82087},
+			pos:  position{line: 2563, col: 1, offset: 82116},
 			expr: &choiceExpr{
-				pos: position{line: 2563, col: 5, offset: 82109},
+				pos: position{line: 2564, col: 5, offset: 82138},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2563, col: 5, offset: 82109},
+						pos: position{line: 2564, col: 5, offset: 82138},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2563, col: 5, offset: 82109},
+							pos: position{line: 2564, col: 5, offset: 82138},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2563, col: 5, offset: 82109},
+									pos:        position{line: 2564, col: 5, offset: 82138},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2563, col: 11, offset: 82115},
+									pos: position{line: 2564, col: 11, offset: 82144},
 									expr: &seqExpr{
-										pos: position{line: 2104, col: 5, offset: 67733},
+										pos: position{line: 2105, col: 5, offset: 67762},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2104, col: 5, offset: 67733},
+												pos:        position{line: 2105, col: 5, offset: 67762},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2105, col: 5, offset: 67742},
+												pos: position{line: 2106, col: 5, offset: 67771},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2109, col: 5, offset: 67865},
+												pos: position{line: 2110, col: 5, offset: 67894},
 												expr: &notExpr{
-													pos: position{line: 2109, col: 7, offset: 67867},
+													pos: position{line: 2110, col: 7, offset: 67896},
 													expr: &litMatcher{
-														pos:        position{line: 2109, col: 8, offset: 67868},
+														pos:        position{line: 2110, col: 8, offset: 67897},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -46434,21 +46652,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2566, col: 7, offset: 82268},
+						pos: position{line: 2567, col: 7, offset: 82297},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2566, col: 7, offset: 82268},
+							pos: position{line: 2567, col: 7, offset: 82297},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2566, col: 7, offset: 82268},
+									pos:        position{line: 2567, col: 7, offset: 82297},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2566, col: 13, offset: 82274},
+									pos: position{line: 2567, col: 13, offset: 82303},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2566, col: 14, offset: 82275},
+										pos:  position{line: 2567, col: 14, offset: 82304},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46456,38 +46674,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2569, col: 7, offset: 82425},
+						pos: position{line: 2570, col: 7, offset: 82454},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2569, col: 7, offset: 82425},
+							pos: position{line: 2570, col: 7, offset: 82454},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2569, col: 7, offset: 82425},
+									pos:        position{line: 2570, col: 7, offset: 82454},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2569, col: 12, offset: 82430},
+									pos: position{line: 2570, col: 12, offset: 82459},
 									expr: &seqExpr{
-										pos: position{line: 2104, col: 5, offset: 67733},
+										pos: position{line: 2105, col: 5, offset: 67762},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2104, col: 5, offset: 67733},
+												pos:        position{line: 2105, col: 5, offset: 67762},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2105, col: 5, offset: 67742},
+												pos: position{line: 2106, col: 5, offset: 67771},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2109, col: 5, offset: 67865},
+												pos: position{line: 2110, col: 5, offset: 67894},
 												expr: &notExpr{
-													pos: position{line: 2109, col: 7, offset: 67867},
+													pos: position{line: 2110, col: 7, offset: 67896},
 													expr: &litMatcher{
-														pos:        position{line: 2109, col: 8, offset: 67868},
+														pos:        position{line: 2110, col: 8, offset: 67897},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -46501,21 +46719,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2572, col: 7, offset: 82583},
+						pos: position{line: 2573, col: 7, offset: 82612},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2572, col: 7, offset: 82583},
+							pos: position{line: 2573, col: 7, offset: 82612},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2572, col: 7, offset: 82583},
+									pos:        position{line: 2573, col: 7, offset: 82612},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2572, col: 12, offset: 82588},
+									pos: position{line: 2573, col: 12, offset: 82617},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2572, col: 13, offset: 82589},
+										pos:  position{line: 2573, col: 13, offset: 82618},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46527,63 +46745,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2705, col: 1, offset: 85629},
+			pos:  position{line: 2706, col: 1, offset: 85658},
 			expr: &actionExpr{
-				pos: position{line: 2705, col: 26, offset: 85654},
+				pos: position{line: 2706, col: 26, offset: 85683},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2705, col: 26, offset: 85654},
+					pos: position{line: 2706, col: 26, offset: 85683},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2705, col: 26, offset: 85654},
+							pos:   position{line: 2706, col: 26, offset: 85683},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2705, col: 31, offset: 85659},
+								pos: position{line: 2706, col: 31, offset: 85688},
 								expr: &actionExpr{
-									pos: position{line: 2710, col: 5, offset: 85722},
+									pos: position{line: 2711, col: 5, offset: 85751},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2710, col: 5, offset: 85722},
+										pos: position{line: 2711, col: 5, offset: 85751},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2917, col: 11, offset: 91788},
+												pos: position{line: 2918, col: 11, offset: 91817},
 												expr: &anyMatcher{
-													line: 2917, col: 13, offset: 91790,
+													line: 2918, col: 13, offset: 91819,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2713, col: 5, offset: 85848},
+												pos:   position{line: 2714, col: 5, offset: 85877},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2713, col: 16, offset: 85859},
+													pos: position{line: 2714, col: 16, offset: 85888},
 													expr: &actionExpr{
-														pos: position{line: 2713, col: 17, offset: 85860},
+														pos: position{line: 2714, col: 17, offset: 85889},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2713, col: 17, offset: 85860},
+															pos: position{line: 2714, col: 17, offset: 85889},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2713, col: 17, offset: 85860},
+																	pos:   position{line: 2714, col: 17, offset: 85889},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2892, col: 12, offset: 91281},
+																		pos: position{line: 2893, col: 12, offset: 91310},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2892, col: 13, offset: 91282},
+																			pos: position{line: 2893, col: 13, offset: 91311},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2892, col: 13, offset: 91282},
+																					pos: position{line: 2893, col: 13, offset: 91311},
 																					expr: &litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91282},
+																						pos:        position{line: 2893, col: 13, offset: 91311},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2892, col: 18, offset: 91287},
+																					pos: position{line: 2893, col: 18, offset: 91316},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2892, col: 18, offset: 91287},
+																						pos:        position{line: 2893, col: 18, offset: 91316},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -46595,7 +46813,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2713, col: 27, offset: 85870},
+																	pos:        position{line: 2714, col: 27, offset: 85899},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -46606,38 +46824,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2714, col: 5, offset: 85898},
+												pos:   position{line: 2715, col: 5, offset: 85927},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2714, col: 12, offset: 85905},
+													pos: position{line: 2715, col: 12, offset: 85934},
 													expr: &choiceExpr{
-														pos: position{line: 2715, col: 9, offset: 85915},
+														pos: position{line: 2716, col: 9, offset: 85944},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2715, col: 9, offset: 85915},
+																pos: position{line: 2716, col: 9, offset: 85944},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2715, col: 9, offset: 85915},
+																	pos:        position{line: 2716, col: 9, offset: 85944},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2716, col: 11, offset: 85962},
+																pos: position{line: 2717, col: 11, offset: 85991},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2716, col: 11, offset: 85962},
+																	pos:        position{line: 2717, col: 11, offset: 85991},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2717, col: 11, offset: 86010},
+																pos: position{line: 2718, col: 11, offset: 86039},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2717, col: 11, offset: 86010},
+																	pos:        position{line: 2718, col: 11, offset: 86039},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -46648,38 +46866,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2719, col: 5, offset: 86060},
+												pos:   position{line: 2720, col: 5, offset: 86089},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2719, col: 12, offset: 86067},
+													pos: position{line: 2720, col: 12, offset: 86096},
 													expr: &choiceExpr{
-														pos: position{line: 2720, col: 9, offset: 86077},
+														pos: position{line: 2721, col: 9, offset: 86106},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2720, col: 9, offset: 86077},
+																pos: position{line: 2721, col: 9, offset: 86106},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2720, col: 9, offset: 86077},
+																	pos:        position{line: 2721, col: 9, offset: 86106},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2721, col: 11, offset: 86124},
+																pos: position{line: 2722, col: 11, offset: 86153},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2721, col: 11, offset: 86124},
+																	pos:        position{line: 2722, col: 11, offset: 86153},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2722, col: 11, offset: 86174},
+																pos: position{line: 2723, col: 11, offset: 86203},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2722, col: 11, offset: 86174},
+																	pos:        position{line: 2723, col: 11, offset: 86203},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -46690,32 +46908,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2724, col: 5, offset: 86225},
+												pos:   position{line: 2725, col: 5, offset: 86254},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2724, col: 12, offset: 86232},
+													pos: position{line: 2725, col: 12, offset: 86261},
 													expr: &choiceExpr{
-														pos: position{line: 2724, col: 13, offset: 86233},
+														pos: position{line: 2725, col: 13, offset: 86262},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2892, col: 12, offset: 91281},
+																pos: position{line: 2893, col: 12, offset: 91310},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2892, col: 13, offset: 91282},
+																	pos: position{line: 2893, col: 13, offset: 91311},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2892, col: 13, offset: 91282},
+																			pos: position{line: 2893, col: 13, offset: 91311},
 																			expr: &litMatcher{
-																				pos:        position{line: 2892, col: 13, offset: 91282},
+																				pos:        position{line: 2893, col: 13, offset: 91311},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2892, col: 18, offset: 91287},
+																			pos: position{line: 2893, col: 18, offset: 91316},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2892, col: 18, offset: 91287},
+																				pos:        position{line: 2893, col: 18, offset: 91316},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -46726,10 +46944,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2724, col: 24, offset: 86244},
+																pos: position{line: 2725, col: 24, offset: 86273},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2724, col: 24, offset: 86244},
+																	pos:        position{line: 2725, col: 24, offset: 86273},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -46740,15 +46958,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2725, col: 5, offset: 86286},
+												pos:   position{line: 2726, col: 5, offset: 86315},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2725, col: 11, offset: 86292},
+													pos: position{line: 2726, col: 11, offset: 86321},
 													expr: &actionExpr{
-														pos: position{line: 2725, col: 12, offset: 86293},
+														pos: position{line: 2726, col: 12, offset: 86322},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2725, col: 12, offset: 86293},
+															pos:        position{line: 2726, col: 12, offset: 86322},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -46758,12 +46976,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2727, col: 5, offset: 86423},
+												pos:   position{line: 2728, col: 5, offset: 86452},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2727, col: 11, offset: 86429},
+													pos: position{line: 2728, col: 11, offset: 86458},
 													expr: &litMatcher{
-														pos:        position{line: 2727, col: 12, offset: 86430},
+														pos:        position{line: 2728, col: 12, offset: 86459},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -46771,7 +46989,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2728, col: 5, offset: 86440},
+												pos: position{line: 2729, col: 5, offset: 86469},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -46780,9 +46998,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2919, col: 8, offset: 91802},
+							pos: position{line: 2920, col: 8, offset: 91831},
 							expr: &anyMatcher{
-								line: 2919, col: 9, offset: 91803,
+								line: 2920, col: 9, offset: 91832,
 							},
 						},
 					},
@@ -46791,23 +47009,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2755, col: 1, offset: 87449},
+			pos:  position{line: 2756, col: 1, offset: 87478},
 			expr: &actionExpr{
-				pos: position{line: 2756, col: 5, offset: 87472},
+				pos: position{line: 2757, col: 5, offset: 87501},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2756, col: 5, offset: 87472},
+					pos: position{line: 2757, col: 5, offset: 87501},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2756, col: 5, offset: 87472},
+							pos:   position{line: 2757, col: 5, offset: 87501},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2779, col: 18, offset: 88213},
+								pos: position{line: 2780, col: 18, offset: 88242},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2779, col: 19, offset: 88214},
+									pos: position{line: 2780, col: 19, offset: 88243},
 									expr: &charClassMatcher{
-										pos:        position{line: 2779, col: 19, offset: 88214},
+										pos:        position{line: 2780, col: 19, offset: 88243},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46818,25 +47036,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2757, col: 5, offset: 87498},
+							pos: position{line: 2758, col: 5, offset: 87527},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2761, col: 5, offset: 87626},
+							pos:        position{line: 2762, col: 5, offset: 87655},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2762, col: 5, offset: 87636},
+							pos:   position{line: 2763, col: 5, offset: 87665},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2783, col: 19, offset: 88289},
+								pos: position{line: 2784, col: 19, offset: 88318},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2783, col: 19, offset: 88289},
+									pos: position{line: 2784, col: 19, offset: 88318},
 									expr: &charClassMatcher{
-										pos:        position{line: 2783, col: 19, offset: 88289},
+										pos:        position{line: 2784, col: 19, offset: 88318},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -46846,36 +47064,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2763, col: 5, offset: 87664},
+							pos:   position{line: 2764, col: 5, offset: 87693},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2763, col: 17, offset: 87676},
+								pos:  position{line: 2764, col: 17, offset: 87705},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2922, col: 8, offset: 91852},
+							pos: position{line: 2923, col: 8, offset: 91881},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2909, col: 12, offset: 91625},
+									pos: position{line: 2910, col: 12, offset: 91654},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2909, col: 13, offset: 91626},
+										pos: position{line: 2910, col: 13, offset: 91655},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2909, col: 13, offset: 91626},
+												pos:        position{line: 2910, col: 13, offset: 91655},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2909, col: 20, offset: 91633},
+												pos:        position{line: 2910, col: 20, offset: 91662},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2909, col: 29, offset: 91642},
+												pos:        position{line: 2910, col: 29, offset: 91671},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -46884,9 +47102,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2919, col: 8, offset: 91802},
+									pos: position{line: 2920, col: 8, offset: 91831},
 									expr: &anyMatcher{
-										line: 2919, col: 9, offset: 91803,
+										line: 2920, col: 9, offset: 91832,
 									},
 								},
 							},
@@ -46897,23 +47115,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2767, col: 1, offset: 87824},
+			pos:  position{line: 2768, col: 1, offset: 87853},
 			expr: &actionExpr{
-				pos: position{line: 2768, col: 5, offset: 87848},
+				pos: position{line: 2769, col: 5, offset: 87877},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2768, col: 5, offset: 87848},
+					pos: position{line: 2769, col: 5, offset: 87877},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2768, col: 5, offset: 87848},
+							pos:   position{line: 2769, col: 5, offset: 87877},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2779, col: 18, offset: 88213},
+								pos: position{line: 2780, col: 18, offset: 88242},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2779, col: 19, offset: 88214},
+									pos: position{line: 2780, col: 19, offset: 88243},
 									expr: &charClassMatcher{
-										pos:        position{line: 2779, col: 19, offset: 88214},
+										pos:        position{line: 2780, col: 19, offset: 88243},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46924,25 +47142,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2769, col: 5, offset: 87874},
+							pos: position{line: 2770, col: 5, offset: 87903},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2773, col: 5, offset: 88002},
+							pos:        position{line: 2774, col: 5, offset: 88031},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2774, col: 5, offset: 88011},
+							pos:   position{line: 2775, col: 5, offset: 88040},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2783, col: 19, offset: 88289},
+								pos: position{line: 2784, col: 19, offset: 88318},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2783, col: 19, offset: 88289},
+									pos: position{line: 2784, col: 19, offset: 88318},
 									expr: &charClassMatcher{
-										pos:        position{line: 2783, col: 19, offset: 88289},
+										pos:        position{line: 2784, col: 19, offset: 88318},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -46952,10 +47170,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2775, col: 5, offset: 88039},
+							pos:   position{line: 2776, col: 5, offset: 88068},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2775, col: 17, offset: 88051},
+								pos:  position{line: 2776, col: 17, offset: 88080},
 								name: "InlineAttributes",
 							},
 						},
@@ -46965,43 +47183,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2854, col: 1, offset: 90101},
+			pos:  position{line: 2855, col: 1, offset: 90130},
 			expr: &actionExpr{
-				pos: position{line: 2854, col: 17, offset: 90117},
+				pos: position{line: 2855, col: 17, offset: 90146},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2854, col: 17, offset: 90117},
+					pos:   position{line: 2855, col: 17, offset: 90146},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2871, col: 5, offset: 90571},
+						pos: position{line: 2872, col: 5, offset: 90600},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2871, col: 5, offset: 90571},
+							pos:   position{line: 2872, col: 5, offset: 90600},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2871, col: 14, offset: 90580},
+								pos: position{line: 2872, col: 14, offset: 90609},
 								expr: &choiceExpr{
-									pos: position{line: 2872, col: 9, offset: 90590},
+									pos: position{line: 2873, col: 9, offset: 90619},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2872, col: 9, offset: 90590},
+											pos: position{line: 2873, col: 9, offset: 90619},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2872, col: 9, offset: 90590},
+												pos: position{line: 2873, col: 9, offset: 90619},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2872, col: 9, offset: 90590},
+														pos: position{line: 2873, col: 9, offset: 90619},
 														expr: &litMatcher{
-															pos:        position{line: 2872, col: 10, offset: 90591},
+															pos:        position{line: 2873, col: 10, offset: 90620},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2873, col: 9, offset: 90619},
+														pos: position{line: 2874, col: 9, offset: 90648},
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90620},
+															pos:        position{line: 2874, col: 10, offset: 90649},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -47012,27 +47230,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2876, col: 11, offset: 90832},
+											pos: position{line: 2877, col: 11, offset: 90861},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2876, col: 11, offset: 90832},
+													pos:        position{line: 2877, col: 11, offset: 90861},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2876, col: 19, offset: 90840},
+													pos: position{line: 2877, col: 19, offset: 90869},
 													expr: &seqExpr{
-														pos: position{line: 2876, col: 21, offset: 90842},
+														pos: position{line: 2877, col: 21, offset: 90871},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2876, col: 21, offset: 90842},
+																pos: position{line: 2877, col: 21, offset: 90871},
 																expr: &actionExpr{
-																	pos: position{line: 2900, col: 10, offset: 91454},
+																	pos: position{line: 2901, col: 10, offset: 91483},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2900, col: 10, offset: 91454},
+																		pos:        position{line: 2901, col: 10, offset: 91483},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -47041,11 +47259,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2876, col: 28, offset: 90849},
+																pos: position{line: 2877, col: 28, offset: 90878},
 																expr: &notExpr{
-																	pos: position{line: 2919, col: 8, offset: 91802},
+																	pos: position{line: 2920, col: 8, offset: 91831},
 																	expr: &anyMatcher{
-																		line: 2919, col: 9, offset: 91803,
+																		line: 2920, col: 9, offset: 91832,
 																	},
 																},
 															},
@@ -47055,35 +47273,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 636, col: 5, offset: 20109},
+											pos: position{line: 637, col: 5, offset: 20136},
 											run: (*parser).callonFileLocation23,
 											expr: &seqExpr{
-												pos: position{line: 636, col: 5, offset: 20109},
+												pos: position{line: 637, col: 5, offset: 20136},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 636, col: 5, offset: 20109},
+														pos: position{line: 637, col: 5, offset: 20136},
 														run: (*parser).callonFileLocation25,
 													},
 													&labeledExpr{
-														pos:   position{line: 639, col: 5, offset: 20181},
+														pos:   position{line: 640, col: 5, offset: 20208},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 639, col: 14, offset: 20190},
+															pos: position{line: 640, col: 14, offset: 20217},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 645, col: 5, offset: 20319},
+																	pos: position{line: 646, col: 5, offset: 20346},
 																	run: (*parser).callonFileLocation28,
 																	expr: &seqExpr{
-																		pos: position{line: 645, col: 5, offset: 20319},
+																		pos: position{line: 646, col: 5, offset: 20346},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 645, col: 5, offset: 20319},
+																				pos:        position{line: 646, col: 5, offset: 20346},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 645, col: 13, offset: 20327},
+																				pos:   position{line: 646, col: 13, offset: 20354},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -47115,7 +47333,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 645, col: 32, offset: 20346},
+																				pos:        position{line: 646, col: 32, offset: 20373},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -47124,19 +47342,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 652, col: 5, offset: 20587},
+																	pos: position{line: 653, col: 5, offset: 20614},
 																	run: (*parser).callonFileLocation38,
 																	expr: &seqExpr{
-																		pos: position{line: 652, col: 5, offset: 20587},
+																		pos: position{line: 653, col: 5, offset: 20614},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 652, col: 5, offset: 20587},
+																				pos:        position{line: 653, col: 5, offset: 20614},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 652, col: 9, offset: 20591},
+																				pos:   position{line: 653, col: 9, offset: 20618},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -47168,7 +47386,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 652, col: 28, offset: 20610},
+																				pos:        position{line: 653, col: 28, offset: 20637},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -47177,19 +47395,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 658, col: 25, offset: 20791},
+																	pos: position{line: 659, col: 25, offset: 20818},
 																	run: (*parser).callonFileLocation48,
 																	expr: &seqExpr{
-																		pos: position{line: 658, col: 25, offset: 20791},
+																		pos: position{line: 659, col: 25, offset: 20818},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 658, col: 25, offset: 20791},
+																				pos:        position{line: 659, col: 25, offset: 20818},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 37, offset: 20803},
+																				pos:   position{line: 659, col: 37, offset: 20830},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -47221,33 +47439,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 56, offset: 20822},
+																				pos:   position{line: 659, col: 56, offset: 20849},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 658, col: 62, offset: 20828},
+																					pos: position{line: 659, col: 62, offset: 20855},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 667, col: 17, offset: 21152},
 																						run: (*parser).callonFileLocation59,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21123},
+																							pos: position{line: 667, col: 17, offset: 21152},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21123},
+																									pos:        position{line: 667, col: 17, offset: 21152},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21127},
+																									pos:   position{line: 667, col: 21, offset: 21156},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 667, col: 28, offset: 21163},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 667, col: 28, offset: 21163},
 																												run: (*parser).callonFileLocation64,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21134},
+																													pos:        position{line: 667, col: 28, offset: 21163},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -47255,12 +47473,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 669, col: 9, offset: 21217},
 																												run: (*parser).callonFileLocation66,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21188},
+																													pos: position{line: 669, col: 9, offset: 21217},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21188},
+																														pos:        position{line: 669, col: 9, offset: 21217},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -47277,7 +47495,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 78, offset: 20844},
+																				pos:        position{line: 659, col: 78, offset: 20871},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -47286,19 +47504,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 662, col: 25, offset: 20962},
+																	pos: position{line: 663, col: 25, offset: 20989},
 																	run: (*parser).callonFileLocation70,
 																	expr: &seqExpr{
-																		pos: position{line: 662, col: 25, offset: 20962},
+																		pos: position{line: 663, col: 25, offset: 20989},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 662, col: 25, offset: 20962},
+																				pos:        position{line: 663, col: 25, offset: 20989},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 38, offset: 20975},
+																				pos:   position{line: 663, col: 38, offset: 21002},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -47330,33 +47548,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 57, offset: 20994},
+																				pos:   position{line: 663, col: 57, offset: 21021},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 662, col: 63, offset: 21000},
+																					pos: position{line: 663, col: 63, offset: 21027},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 667, col: 17, offset: 21152},
 																						run: (*parser).callonFileLocation81,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21123},
+																							pos: position{line: 667, col: 17, offset: 21152},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21123},
+																									pos:        position{line: 667, col: 17, offset: 21152},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21127},
+																									pos:   position{line: 667, col: 21, offset: 21156},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 667, col: 28, offset: 21163},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 667, col: 28, offset: 21163},
 																												run: (*parser).callonFileLocation86,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21134},
+																													pos:        position{line: 667, col: 28, offset: 21163},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -47364,12 +47582,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 669, col: 9, offset: 21217},
 																												run: (*parser).callonFileLocation88,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21188},
+																													pos: position{line: 669, col: 9, offset: 21217},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21188},
+																														pos:        position{line: 669, col: 9, offset: 21217},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -47386,7 +47604,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 662, col: 79, offset: 21016},
+																				pos:        position{line: 663, col: 79, offset: 21043},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -47401,27 +47619,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1198, col: 23, offset: 36972},
+											pos: position{line: 1199, col: 23, offset: 37001},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1198, col: 23, offset: 36972},
+												pos: position{line: 1199, col: 23, offset: 37001},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 36940},
+														pos:        position{line: 1197, col: 32, offset: 36969},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1198, col: 51, offset: 37000},
+														pos:   position{line: 1199, col: 51, offset: 37029},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1198, col: 56, offset: 37005},
+															pos: position{line: 1199, col: 56, offset: 37034},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1198, col: 56, offset: 37005},
+																pos: position{line: 1199, col: 56, offset: 37034},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1198, col: 56, offset: 37005},
+																	pos:        position{line: 1199, col: 56, offset: 37034},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -47431,7 +47649,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 36940},
+														pos:        position{line: 1197, col: 32, offset: 36969},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -47440,10 +47658,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2879, col: 11, offset: 90969},
+											pos: position{line: 2880, col: 11, offset: 90998},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2879, col: 11, offset: 90969},
+												pos:        position{line: 2880, col: 11, offset: 90998},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -48963,7 +49181,7 @@ func (p *parser) callonFileInclusion88() (interface{}, error) {
 }
 
 func (c *current) onFileInclusion77(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonFileInclusion77() (interface{}, error) {
@@ -53204,7 +53422,7 @@ func (p *parser) callonAttributeDeclarationValueElement90() (interface{}, error)
 }
 
 func (c *current) onAttributeDeclarationValueElement79(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonAttributeDeclarationValueElement79() (interface{}, error) {
@@ -53431,7 +53649,7 @@ func (p *parser) callonBlockAttributes85() (interface{}, error) {
 }
 
 func (c *current) onBlockAttributes74(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonBlockAttributes74() (interface{}, error) {
@@ -53661,7 +53879,117 @@ func (p *parser) callonBlockAttributes166() (interface{}, error) {
 	return p.cur.onBlockAttributes166(stack["name"])
 }
 
-func (c *current) onBlockAttributes176() (interface{}, error) {
+func (c *current) onBlockAttributes180() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonBlockAttributes180() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes180()
+}
+
+func (c *current) onBlockAttributes192() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonBlockAttributes192() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes192()
+}
+
+func (c *current) onBlockAttributes194() (interface{}, error) {
+
+	return strconv.Atoi(string(c.text))
+
+}
+
+func (p *parser) callonBlockAttributes194() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes194()
+}
+
+func (c *current) onBlockAttributes187(start interface{}) (interface{}, error) {
+	return start, nil
+
+}
+
+func (p *parser) callonBlockAttributes187() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes187(stack["start"])
+}
+
+func (c *current) onBlockAttributes176(name, start interface{}) (interface{}, error) {
+	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+}
+
+func (p *parser) callonBlockAttributes176() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes176(stack["name"], stack["start"])
+}
+
+func (c *current) onBlockAttributes202() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonBlockAttributes202() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes202()
+}
+
+func (c *current) onBlockAttributes214() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonBlockAttributes214() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes214()
+}
+
+func (c *current) onBlockAttributes216() (interface{}, error) {
+
+	return strconv.Atoi(string(c.text))
+
+}
+
+func (p *parser) callonBlockAttributes216() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes216()
+}
+
+func (c *current) onBlockAttributes209(start interface{}) (interface{}, error) {
+	return start, nil
+
+}
+
+func (p *parser) callonBlockAttributes209() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes209(stack["start"])
+}
+
+func (c *current) onBlockAttributes198(name, start interface{}) (interface{}, error) {
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
+}
+
+func (p *parser) callonBlockAttributes198() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes198(stack["name"], stack["start"])
+}
+
+func (c *current) onBlockAttributes220() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -53670,10 +53998,10 @@ func (c *current) onBlockAttributes176() (interface{}, error) {
 
 }
 
-func (p *parser) callonBlockAttributes176() (interface{}, error) {
+func (p *parser) callonBlockAttributes220() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes176()
+	return p.cur.onBlockAttributes220()
 }
 
 func (c *current) onBlockAttributes129(elements interface{}) (interface{}, error) {
@@ -53687,61 +54015,61 @@ func (p *parser) callonBlockAttributes129() (interface{}, error) {
 	return p.cur.onBlockAttributes129(stack["elements"])
 }
 
-func (c *current) onBlockAttributes179() (interface{}, error) {
+func (c *current) onBlockAttributes223() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes179() (interface{}, error) {
+func (p *parser) callonBlockAttributes223() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes179()
+	return p.cur.onBlockAttributes223()
 }
 
-func (c *current) onBlockAttributes182() (interface{}, error) {
+func (c *current) onBlockAttributes226() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes182() (interface{}, error) {
+func (p *parser) callonBlockAttributes226() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes182()
+	return p.cur.onBlockAttributes226()
 }
 
-func (c *current) onBlockAttributes195() (interface{}, error) {
+func (c *current) onBlockAttributes239() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes195() (interface{}, error) {
+func (p *parser) callonBlockAttributes239() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes195()
+	return p.cur.onBlockAttributes239()
 }
 
-func (c *current) onBlockAttributes198() (interface{}, error) {
+func (c *current) onBlockAttributes242() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes198() (interface{}, error) {
+func (p *parser) callonBlockAttributes242() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes198()
+	return p.cur.onBlockAttributes242()
 }
 
-func (c *current) onBlockAttributes190() (interface{}, error) {
+func (c *current) onBlockAttributes234() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonBlockAttributes190() (interface{}, error) {
+func (p *parser) callonBlockAttributes234() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes190()
+	return p.cur.onBlockAttributes234()
 }
 
 func (c *current) onBlockAttributes126(title interface{}) (interface{}, error) {
@@ -53755,72 +54083,72 @@ func (p *parser) callonBlockAttributes126() (interface{}, error) {
 	return p.cur.onBlockAttributes126(stack["title"])
 }
 
-func (c *current) onBlockAttributes210() (interface{}, error) {
+func (c *current) onBlockAttributes254() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes210() (interface{}, error) {
+func (p *parser) callonBlockAttributes254() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes210()
+	return p.cur.onBlockAttributes254()
 }
 
-func (c *current) onBlockAttributes213() (interface{}, error) {
+func (c *current) onBlockAttributes257() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes213() (interface{}, error) {
+func (p *parser) callonBlockAttributes257() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes213()
+	return p.cur.onBlockAttributes257()
 }
 
-func (c *current) onBlockAttributes226() (interface{}, error) {
+func (c *current) onBlockAttributes270() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes226() (interface{}, error) {
+func (p *parser) callonBlockAttributes270() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes226()
+	return p.cur.onBlockAttributes270()
 }
 
-func (c *current) onBlockAttributes229() (interface{}, error) {
+func (c *current) onBlockAttributes273() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes229() (interface{}, error) {
+func (p *parser) callonBlockAttributes273() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes229()
+	return p.cur.onBlockAttributes273()
 }
 
-func (c *current) onBlockAttributes221() (interface{}, error) {
+func (c *current) onBlockAttributes265() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonBlockAttributes221() (interface{}, error) {
+func (p *parser) callonBlockAttributes265() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes221()
+	return p.cur.onBlockAttributes265()
 }
 
-func (c *current) onBlockAttributes205(attributes interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes249(attributes interface{}) (interface{}, error) {
 	return attributes, nil
 
 }
 
-func (p *parser) callonBlockAttributes205() (interface{}, error) {
+func (p *parser) callonBlockAttributes249() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes205(stack["attributes"])
+	return p.cur.onBlockAttributes249(stack["attributes"])
 }
 
 func (c *current) onBlockAttributes1(attributes interface{}) (interface{}, error) {
@@ -54143,7 +54471,7 @@ func (p *parser) callonShortHandAttributeValue71() (interface{}, error) {
 }
 
 func (c *current) onShortHandAttributeValue60(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonShortHandAttributeValue60() (interface{}, error) {
@@ -54546,7 +54874,7 @@ func (p *parser) callonSingleQuotedAttributeValueContent69() (interface{}, error
 }
 
 func (c *current) onSingleQuotedAttributeValueContent58(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonSingleQuotedAttributeValueContent58() (interface{}, error) {
@@ -54819,7 +55147,7 @@ func (p *parser) callonDoubleQuotedAttributeValueContent69() (interface{}, error
 }
 
 func (c *current) onDoubleQuotedAttributeValueContent58(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonDoubleQuotedAttributeValueContent58() (interface{}, error) {
@@ -55058,7 +55386,7 @@ func (p *parser) callonUnquotedAttributeValue71() (interface{}, error) {
 }
 
 func (c *current) onUnquotedAttributeValue60(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonUnquotedAttributeValue60() (interface{}, error) {
@@ -55427,7 +55755,7 @@ func (p *parser) callonExternalCrossReference85() (interface{}, error) {
 }
 
 func (c *current) onExternalCrossReference74(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonExternalCrossReference74() (interface{}, error) {
@@ -57382,7 +57710,7 @@ func (p *parser) callonImageBlock95() (interface{}, error) {
 }
 
 func (c *current) onImageBlock84(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonImageBlock84() (interface{}, error) {
@@ -57684,7 +58012,7 @@ func (p *parser) callonInlineImage97() (interface{}, error) {
 }
 
 func (c *current) onInlineImage86(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonInlineImage86() (interface{}, error) {
@@ -58183,7 +58511,7 @@ func (p *parser) callonFootnoteElement128() (interface{}, error) {
 }
 
 func (c *current) onFootnoteElement117(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonFootnoteElement117() (interface{}, error) {
@@ -58512,7 +58840,7 @@ func (p *parser) callonLink97() (interface{}, error) {
 }
 
 func (c *current) onLink86(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonLink86() (interface{}, error) {
@@ -58872,7 +59200,7 @@ func (p *parser) callonRelativeLink96() (interface{}, error) {
 }
 
 func (c *current) onRelativeLink85(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonRelativeLink85() (interface{}, error) {
@@ -59150,7 +59478,7 @@ func (p *parser) callonRelativeLink213() (interface{}, error) {
 }
 
 func (c *current) onRelativeLink202(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonRelativeLink202() (interface{}, error) {
@@ -59428,7 +59756,7 @@ func (p *parser) callonExternalLink97() (interface{}, error) {
 }
 
 func (c *current) onExternalLink86(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonExternalLink86() (interface{}, error) {
@@ -59706,7 +60034,7 @@ func (p *parser) callonExternalLink215() (interface{}, error) {
 }
 
 func (c *current) onExternalLink204(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonExternalLink204() (interface{}, error) {
@@ -68780,7 +69108,7 @@ func (p *parser) callonQuotedTextElement104() (interface{}, error) {
 }
 
 func (c *current) onQuotedTextElement93(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonQuotedTextElement93() (interface{}, error) {
@@ -70293,7 +70621,7 @@ func (p *parser) callonSectionTitleElement126() (interface{}, error) {
 }
 
 func (c *current) onSectionTitleElement115(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonSectionTitleElement115() (interface{}, error) {
@@ -70536,7 +70864,7 @@ func (p *parser) callonSectionTitleElement226() (interface{}, error) {
 }
 
 func (c *current) onSectionTitleElement215(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonSectionTitleElement215() (interface{}, error) {
@@ -70999,7 +71327,7 @@ func (p *parser) callonNormalGroup118() (interface{}, error) {
 }
 
 func (c *current) onNormalGroup107(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonNormalGroup107() (interface{}, error) {
@@ -72642,7 +72970,7 @@ func (p *parser) callonFileLocation81() (interface{}, error) {
 }
 
 func (c *current) onFileLocation70(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonFileLocation70() (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index e373365..6fdf8b8 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -427,6 +427,7 @@ ShortHandTitle <- `.`
         / Space
         / Punctuation
         / AttributeReferenceValue
+        / CounterReference
         / AnyChar
     )+ {
         return types.NewTitleAttribute(types.Reduce(elements, strings.TrimSpace))
@@ -660,7 +661,7 @@ CounterSubstitution1 <- "{counter:" name:AttributeName start:(CounterStart)? "}"
 }
 
 CounterSubstitution2 <- "{counter2:" name:AttributeName start:(CounterStart)? "}" {
-    return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+    return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 CounterStart <- ":" start:([A-Za-z] {
-- 
2.43.0


From e52b682fed079f3d496d0c529f66b442a4a209d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:53 +0000
Subject: [PATCH 19/75] fix: section numbers and table of contents in unusual
 structures

- the `sectnums` attribute was ignored when it was declared in the preamble
  or given by the caller, and sections below an unnumbered one all got a
  number such as '.1'
- with gaps in the levels, entries of the table of contents were nested
  under an entry at the same or at a deeper level
---
 pkg/renderer/sgml/sgml.go |  2 +-
 pkg/types/types.go        | 89 ++++++++++++++++++++++-----------------
 2 files changed, 51 insertions(+), 40 deletions(-)

diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index b68f053..26189af 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -71,7 +71,7 @@ elements:
 			break elements
 		}
 	}
-	if ctx.sectionNumbering, err = doc.SectionNumbers(); err != nil {
+	if ctx.sectionNumbering, err = doc.SectionNumbersWithAttributes(ctx.config.Attributes); err != nil {
 		return metadata, errors.Wrapf(err, "unable to render full document")
 	}
 
diff --git a/pkg/types/types.go b/pkg/types/types.go
index f72e20e..59521d5 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -151,21 +151,27 @@ func (d *Document) AddElement(element interface{}) error {
 type SectionNumbers map[string]string // assigned number by section id
 
 func (d *Document) SectionNumbers() (SectionNumbers, error) {
+	return d.SectionNumbersWithAttributes(nil)
+}
+
+// SectionNumbersWithAttributes same as `SectionNumbers()`, but with attributes which
+// take precedence over the attributes of the document to enable the numbering
+func (d *Document) SectionNumbersWithAttributes(attrs Attributes) (SectionNumbers, error) {
+	if attrs.Has(AttrSectionNumbering) || attrs.Has(AttrNumbered) {
+		numbers, _ := numberSections(d.Elements, true, true, true, "")
+		return numbers, nil
+	}
 	enabled := false
 	if header, _ := d.Header(); header != nil {
 		// lookup the `sectnums` or `numbered` attribute in the header
-		var err error
-		if _, enabled, err = traverseElements(header.Elements, false, ""); err != nil {
-			return nil, err
-		}
+		enabled = isNumberingEnabled(header.Elements, false)
 	}
-	numbers, _, err := traverseElements(d.Elements, enabled, "") // disabled by default
-	return numbers, err
+	numbers, _ := numberSections(d.Elements, enabled, false, true, "") // disabled by default
+	return numbers, nil
 }
 
-func traverseElements(elements []interface{}, enabled bool, prefix string) (map[string]string, bool, error) {
-	result := map[string]string{}
-	counter := 0
+// isNumberingEnabled checks if the section numbering is enabled after the given elements
+func isNumberingEnabled(elements []interface{}, enabled bool) bool {
 	for _, e := range elements {
 		switch e := e.(type) {
 		case *AttributeDeclaration:
@@ -176,25 +182,41 @@ func traverseElements(elements []interface{}, enabled bool, prefix string) (map[
 			if e.Name == AttrSectionNumbering || e.Name == AttrNumbered {
 				enabled = false
 			}
+		}
+	}
+	return enabled
+}
+
+// numberSections assigns a number to the sections in the given elements, unless they belong to a section
+// which has no number itself.
+// Also returns whether the section numbering is enabled after the given elements
+func numberSections(elements []interface{}, enabled, locked, numbered bool, prefix string) (map[string]string, bool) {
+	result := map[string]string{}
+	counter := 0
+	for i, e := range elements {
+		if !locked {
+			enabled = isNumberingEnabled(elements[i:i+1], enabled)
+		}
+		switch e := e.(type) {
+		case *Preamble:
+			if !locked {
+				enabled = isNumberingEnabled(e.Elements, enabled)
+			}
 		case *Section:
 			var n string
-			if enabled {
-				id := e.GetID()
+			if enabled && numbered {
 				counter++
 				n = prefix + strconv.Itoa(counter)
-				result[id] = n
+				result[e.GetID()] = n
 			}
-			numbers, en, err := traverseElements(e.Elements, enabled, n+".")
-			if err != nil {
-				return nil, false, err
-			}
-			enabled = en
+			var numbers map[string]string
+			numbers, enabled = numberSections(e.Elements, enabled, locked, n != "", n+".")
 			for id, n := range numbers {
 				result[id] = n
 			}
 		}
 	}
-	return result, enabled, nil
+	return result, enabled
 }
 
 // ------------------------------------------
@@ -243,28 +265,17 @@ func (t *TableOfContents) Add(s *Section) {
 		ID:    s.GetAttributes().GetAsStringWithDefault(AttrID, ""),
 		Level: s.Level,
 	}
-	// lookup the last child at the given section's level
-	if len(t.Sections) == 0 {
-		t.Sections = []*ToCSection{ts}
-		return
-	} else if s.Level == t.Sections[0].Level {
-		// add at top level
-		t.Sections = append(t.Sections, ts)
-		return
-	}
-	// look-up parent for the ts, starting with the last section at root level
-	parent := t.Sections[len(t.Sections)-1]
-	for {
-		if len(parent.Children) == 0 ||
-			parent.Children[0].Level == s.Level {
-			// (first) child level matches section level
-			// or no child beneath current parent
-			break
-		}
-		// move to last child of current parent
-		parent = parent.Children[len(parent.Children)-1]
+	t.Sections = addToCSection(t.Sections, ts)
+}
+
+// addToCSection adds the given entry to the given ones, under the closest preceding entry with a lower level
+func addToCSection(sections []*ToCSection, s *ToCSection) []*ToCSection {
+	if len(sections) > 0 && sections[len(sections)-1].Level < s.Level {
+		parent := sections[len(sections)-1]
+		parent.Children = addToCSection(parent.Children, s)
+		return sections
 	}
-	parent.Children = append(parent.Children, ts)
+	return append(sections, s)
 }
 
 // ------------------------------------------
-- 
2.43.0


From 07e7a4163759e1eb7ce555955ca594217c521449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:40 +0000
Subject: [PATCH 20/75] fix: command line attributes with several '=', and
 unset with name! or !name

---
 cmd/libasciidoc/root_cmd.go  | 14 +++++++++-----
 pkg/parser/context.go        |  6 +++++-
 pkg/renderer/sgml/context.go |  5 +++++
 pkg/types/types.go           |  3 ++-
 4 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/cmd/libasciidoc/root_cmd.go b/cmd/libasciidoc/root_cmd.go
index 27a188b..5781f17 100644
--- a/cmd/libasciidoc/root_cmd.go
+++ b/cmd/libasciidoc/root_cmd.go
@@ -122,15 +122,19 @@ func getOut(cmd *cobra.Command, sourcePath, outputName string) (io.Writer, close
 	return cmd.OutOrStdout(), defaultCloseFunc()
 }
 
-// converts the `name`, `!name` and `name=value` into a map
+// converts the `name`, `!name`, `name!` and `name=value` into a map.
+// (a `nil` value means that the attribute is unset)
 func parseAttributes(attributes []string) map[string]interface{} {
 	result := make(map[string]interface{}, len(attributes))
 	for _, attr := range attributes {
-		data := strings.Split(attr, "=")
-		if len(data) > 1 {
-			result[data[0]] = data[1]
+		if i := strings.Index(attr, "="); i >= 0 {
+			result[attr[:i]] = attr[i+1:]
+		} else if strings.HasPrefix(attr, "!") {
+			result[attr[1:]] = nil
+		} else if strings.HasSuffix(attr, "!") {
+			result[attr[:len(attr)-1]] = nil
 		} else {
-			result[data[0]] = ""
+			result[attr] = ""
 		}
 	}
 	return result
diff --git a/pkg/parser/context.go b/pkg/parser/context.go
index 350500f..2bc52d1 100644
--- a/pkg/parser/context.go
+++ b/pkg/parser/context.go
@@ -90,6 +90,10 @@ func (a *contextAttributes) allAttributes() map[string]interface{} {
 	}
 	// imautables attributes should not be overridden, hence adding them after
 	for k, v := range a.immutableAttributes {
+		if v == nil { // attribute is unset
+			delete(result, k)
+			continue
+		}
 		result[k] = v
 	}
 	return result
@@ -97,7 +101,7 @@ func (a *contextAttributes) allAttributes() map[string]interface{} {
 
 func (a *contextAttributes) get(k string) (interface{}, bool) {
 	if v, found := a.immutableAttributes[k]; found {
-		return v, true
+		return v, v != nil // `nil` means that the attribute is unset
 	}
 	v, found := a.attributes[k]
 	return v, found
diff --git a/pkg/renderer/sgml/context.go b/pkg/renderer/sgml/context.go
index a275020..00d9aee 100644
--- a/pkg/renderer/sgml/context.go
+++ b/pkg/renderer/sgml/context.go
@@ -28,6 +28,11 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 		elementReferences: doc.ElementReferences,
 		hasHeader:         header != nil,
 	}
+	for name, value := range config.Attributes {
+		if value == nil { // attribute is unset
+			delete(ctx.attributes, name)
+		}
+	}
 	// TODO: add other attributes from https://docs.asciidoctor.org/asciidoc/latest/attributes/document-attributes-ref/#builtin-attributes-i18n
 	ctx.setAttribute(types.AttrFigureCaption, "Figure")
 	ctx.setAttribute(types.AttrExampleCaption, "Example")
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 59521d5..8f00482 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -158,7 +158,8 @@ func (d *Document) SectionNumbers() (SectionNumbers, error) {
 // take precedence over the attributes of the document to enable the numbering
 func (d *Document) SectionNumbersWithAttributes(attrs Attributes) (SectionNumbers, error) {
 	if attrs.Has(AttrSectionNumbering) || attrs.Has(AttrNumbered) {
-		numbers, _ := numberSections(d.Elements, true, true, true, "")
+		enabled := attrs[AttrSectionNumbering] != nil || attrs[AttrNumbered] != nil // `nil` means that the attribute is unset
+		numbers, _ := numberSections(d.Elements, enabled, true, true, "")
 		return numbers, nil
 	}
 	enabled := false
-- 
2.43.0


From 626af618facb142a9eb13cba468a5c5b128e16d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:40 +0000
Subject: [PATCH 21/75] fix: logs of the command line mixed with the output,
 and input file overwritten by the output

---
 cmd/libasciidoc/root_cmd.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/cmd/libasciidoc/root_cmd.go b/cmd/libasciidoc/root_cmd.go
index 5781f17..1d9135c 100644
--- a/cmd/libasciidoc/root_cmd.go
+++ b/cmd/libasciidoc/root_cmd.go
@@ -42,7 +42,7 @@ func NewRootCmd() *cobra.Command {
 				DisableTimestamp:          true,
 			})
 			log.SetLevel(lvl)
-			log.SetOutput(cmd.OutOrStdout())
+			log.SetOutput(cmd.ErrOrStderr()) // keep STDOUT for the converted documents
 			return nil
 		},
 		RunE: func(cmd *cobra.Command, args []string) error {
@@ -103,6 +103,10 @@ func getOut(cmd *cobra.Command, sourcePath, outputName string) (io.Writer, close
 		return cmd.OutOrStdout(), defaultCloseFunc()
 	} else if outputName != "" {
 		// outfile is specified in the command line
+		if isSameFile(sourcePath, outputName) {
+			log.Warnf("Input and output files are the same - %v, skipping", outputName)
+			return nil, nil
+		}
 		outfile, e := os.Create(outputName)
 		if e != nil {
 			log.Warnf("Cannot create output file - %v, skipping", outputName)
@@ -112,6 +116,10 @@ func getOut(cmd *cobra.Command, sourcePath, outputName string) (io.Writer, close
 		// outfile is based on sourcePath
 		path, _ := filepath.Abs(sourcePath)
 		outname := strings.TrimSuffix(path, filepath.Ext(path)) + ".html"
+		if isSameFile(sourcePath, outname) {
+			log.Warnf("Input and output files are the same - %v, skipping", outname)
+			return nil, nil
+		}
 		outfile, err := os.Create(outname)
 		if err != nil {
 			log.Warnf("Cannot create output file - %v, skipping", outname)
@@ -122,6 +130,19 @@ func getOut(cmd *cobra.Command, sourcePath, outputName string) (io.Writer, close
 	return cmd.OutOrStdout(), defaultCloseFunc()
 }
 
+// isSameFile checks if the given paths are those of the same (existing) file
+func isSameFile(path1, path2 string) bool {
+	f1, err := os.Stat(path1)
+	if err != nil {
+		return false
+	}
+	f2, err := os.Stat(path2)
+	if err != nil {
+		return false
+	}
+	return os.SameFile(f1, f2)
+}
+
 // converts the `name`, `!name`, `name!` and `name=value` into a map.
 // (a `nil` value means that the attribute is unset)
 func parseAttributes(attributes []string) map[string]interface{} {
-- 
2.43.0


From 770f34634ab8be4518b2e5df685fa3ea0d36d5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:03 +0000
Subject: [PATCH 22/75] fix: crashes on malformed manpages, and manpages
 declared in the document not validated

---
 libasciidoc.go             | 35 +++++++++++++++++++++++++++++++++--
 pkg/validator/validator.go | 19 ++++++++++++++++---
 2 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/libasciidoc.go b/libasciidoc.go
index a047bcb..e0fc7f3 100644
--- a/libasciidoc.go
+++ b/libasciidoc.go
@@ -70,8 +70,7 @@ func Convert(source io.Reader, output io.Writer, config *configuration.Configura
 	}
 	emdOfParse = time.Now()
 	// validate the document
-	doctype := config.Attributes.GetAsStringWithDefault(types.AttrDocType, "article")
-	problems, err := validator.Validate(doc, doctype)
+	problems, err := validator.Validate(doc, docType(doc, config))
 	if err != nil {
 		return types.Metadata{}, err
 	}
@@ -103,3 +102,35 @@ func Convert(source io.Reader, output io.Writer, config *configuration.Configura
 	return metadata, nil
 
 }
+
+// docType returns the type of the given document, which the renderer will use, too:
+// the one in the configuration, or else the one declared in the document itself
+func docType(doc *types.Document, config *configuration.Configuration) string {
+	if config.Attributes.Has(types.AttrDocType) {
+		return config.Attributes.GetAsStringWithDefault(types.AttrDocType, "article")
+	}
+	attrs := types.Attributes{}
+	apply := func(element interface{}) bool {
+		switch e := element.(type) {
+		case *types.AttributeDeclaration:
+			attrs[e.Name] = e.Value
+			return true
+		case *types.AttributeReset:
+			delete(attrs, e.Name)
+			return true
+		}
+		return false
+	}
+	if header, _ := doc.Header(); header != nil {
+		for _, e := range header.Elements {
+			apply(e)
+		}
+	}
+	// also, standalone attribute declarations before any other element
+	for _, e := range doc.Elements {
+		if !apply(e) {
+			break
+		}
+	}
+	return attrs.GetAsStringWithDefault(types.AttrDocType, "article")
+}
diff --git a/pkg/validator/validator.go b/pkg/validator/validator.go
index b706076..460f2e1 100644
--- a/pkg/validator/validator.go
+++ b/pkg/validator/validator.go
@@ -49,17 +49,17 @@ func validateManpage(doc *types.Document) []Problem {
 		})
 	}
 	elements := doc.BodyElements()
-	if nameSection, ok := assertThatElement(elements[0]).isSection(withLevel(1), withTitle("name")); !ok {
+	if nameSection, ok := assertThatElement(elementAt(elements, 0)).isSection(withLevel(1), withTitle("name")); !ok {
 		problems = append(problems, Problem{
 			Severity: Error,
 			Message:  "manpage document is missing the 'Name' section",
 		})
-	} else if ok := assertThatElements(nameSection.Elements).haveCount(1); !ok {
+	} else if ok := assertThatElements(nameSection.Elements).haveCount(1) && isParagraph(nameSection.Elements[0]); !ok {
 		problems = append(problems, Problem{
 			Severity: Error,
 			Message:  "'Name' section should contain a single paragraph",
 		})
-	} else if _, ok := assertThatElement(elements[1]).isSection(withLevel(1), withTitle("synopsis")); !ok {
+	} else if _, ok := assertThatElement(elementAt(elements, 1)).isSection(withLevel(1), withTitle("synopsis")); !ok {
 		problems = append(problems, Problem{
 			Severity: Error,
 			Message:  "manpage document is missing the 'Synopsis' section",
@@ -68,6 +68,19 @@ func validateManpage(doc *types.Document) []Problem {
 	return problems
 }
 
+// elementAt returns the element at the given index, or nil if there is none
+func elementAt(elements []interface{}, index int) interface{} {
+	if index < len(elements) {
+		return elements[index]
+	}
+	return nil
+}
+
+func isParagraph(element interface{}) bool {
+	_, ok := element.(*types.Paragraph)
+	return ok
+}
+
 // assert performs a set of assertions on a given element
 func assertThatElement(element interface{}) elementAssertion {
 	return elementAssertion{
-- 
2.43.0


From b23b08d48c1f98d72e77b05cd08c3b3cad123123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:05 +0000
Subject: [PATCH 23/75] fix: text, attributes, tables and list continuations
 lost along with comments

---
 pkg/parser/parser.go  | 21444 +++++++++++++++++++++-------------------
 pkg/parser/parser.peg |    13 +-
 2 files changed, 11080 insertions(+), 10377 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 959e807..5465723 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2901, col: 10, offset: 91483},
+														pos: position{line: 2902, col: 10, offset: 91633},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2901, col: 10, offset: 91483},
+															pos:        position{line: 2902, col: 10, offset: 91633},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2923, col: 8, offset: 91881},
+													pos: position{line: 2924, col: 8, offset: 92031},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2910, col: 12, offset: 91654},
+															pos: position{line: 2911, col: 12, offset: 91804},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2910, col: 13, offset: 91655},
+																pos: position{line: 2911, col: 13, offset: 91805},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 13, offset: 91655},
+																		pos:        position{line: 2911, col: 13, offset: 91805},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 20, offset: 91662},
+																		pos:        position{line: 2911, col: 20, offset: 91812},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 29, offset: 91671},
+																		pos:        position{line: 2911, col: 29, offset: 91821},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2920, col: 8, offset: 91831},
+															pos: position{line: 2921, col: 8, offset: 91981},
 															expr: &anyMatcher{
-																line: 2920, col: 9, offset: 91832,
+																line: 2921, col: 9, offset: 91982,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2901, col: 10, offset: 91483},
+														pos: position{line: 2902, col: 10, offset: 91633},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2901, col: 10, offset: 91483},
+															pos:        position{line: 2902, col: 10, offset: 91633},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2923, col: 8, offset: 91881},
+													pos: position{line: 2924, col: 8, offset: 92031},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2910, col: 12, offset: 91654},
+															pos: position{line: 2911, col: 12, offset: 91804},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2910, col: 13, offset: 91655},
+																pos: position{line: 2911, col: 13, offset: 91805},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 13, offset: 91655},
+																		pos:        position{line: 2911, col: 13, offset: 91805},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 20, offset: 91662},
+																		pos:        position{line: 2911, col: 20, offset: 91812},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 29, offset: 91671},
+																		pos:        position{line: 2911, col: 29, offset: 91821},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2920, col: 8, offset: 91831},
+															pos: position{line: 2921, col: 8, offset: 91981},
 															expr: &anyMatcher{
-																line: 2920, col: 9, offset: 91832,
+																line: 2921, col: 9, offset: 91982,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2901, col: 10, offset: 91483},
+														pos: position{line: 2902, col: 10, offset: 91633},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2901, col: 10, offset: 91483},
+															pos:        position{line: 2902, col: 10, offset: 91633},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2920, col: 8, offset: 91831},
+													pos: position{line: 2921, col: 8, offset: 91981},
 													expr: &anyMatcher{
-														line: 2920, col: 9, offset: 91832,
+														line: 2921, col: 9, offset: 91982,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2901, col: 10, offset: 91483},
+														pos: position{line: 2902, col: 10, offset: 91633},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2901, col: 10, offset: 91483},
+															pos:        position{line: 2902, col: 10, offset: 91633},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2920, col: 8, offset: 91831},
+													pos: position{line: 2921, col: 8, offset: 91981},
 													expr: &anyMatcher{
-														line: 2920, col: 9, offset: 91832,
+														line: 2921, col: 9, offset: 91982,
 													},
 												},
 											},
@@ -464,22 +464,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 646, col: 5, offset: 20346},
+																				pos: position{line: 646, col: 5, offset: 20414},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 646, col: 5, offset: 20346},
+																						pos: position{line: 646, col: 5, offset: 20414},
 																						run: (*parser).callonDocumentRawLine97,
 																						expr: &seqExpr{
-																							pos: position{line: 646, col: 5, offset: 20346},
+																							pos: position{line: 646, col: 5, offset: 20414},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 646, col: 5, offset: 20346},
+																									pos:        position{line: 646, col: 5, offset: 20414},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 646, col: 13, offset: 20354},
+																									pos:   position{line: 646, col: 13, offset: 20422},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -511,7 +511,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 646, col: 32, offset: 20373},
+																									pos:        position{line: 646, col: 32, offset: 20441},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -520,19 +520,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 653, col: 5, offset: 20614},
+																						pos: position{line: 653, col: 5, offset: 20682},
 																						run: (*parser).callonDocumentRawLine107,
 																						expr: &seqExpr{
-																							pos: position{line: 653, col: 5, offset: 20614},
+																							pos: position{line: 653, col: 5, offset: 20682},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 653, col: 5, offset: 20614},
+																									pos:        position{line: 653, col: 5, offset: 20682},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 653, col: 9, offset: 20618},
+																									pos:   position{line: 653, col: 9, offset: 20686},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -564,7 +564,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 653, col: 28, offset: 20637},
+																									pos:        position{line: 653, col: 28, offset: 20705},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -600,22 +600,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 646, col: 5, offset: 20346},
+																				pos: position{line: 646, col: 5, offset: 20414},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 646, col: 5, offset: 20346},
+																						pos: position{line: 646, col: 5, offset: 20414},
 																						run: (*parser).callonDocumentRawLine123,
 																						expr: &seqExpr{
-																							pos: position{line: 646, col: 5, offset: 20346},
+																							pos: position{line: 646, col: 5, offset: 20414},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 646, col: 5, offset: 20346},
+																									pos:        position{line: 646, col: 5, offset: 20414},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 646, col: 13, offset: 20354},
+																									pos:   position{line: 646, col: 13, offset: 20422},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -647,7 +647,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 646, col: 32, offset: 20373},
+																									pos:        position{line: 646, col: 32, offset: 20441},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -656,19 +656,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 653, col: 5, offset: 20614},
+																						pos: position{line: 653, col: 5, offset: 20682},
 																						run: (*parser).callonDocumentRawLine133,
 																						expr: &seqExpr{
-																							pos: position{line: 653, col: 5, offset: 20614},
+																							pos: position{line: 653, col: 5, offset: 20682},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 653, col: 5, offset: 20614},
+																									pos:        position{line: 653, col: 5, offset: 20682},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 653, col: 9, offset: 20618},
+																									pos:   position{line: 653, col: 9, offset: 20686},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -700,7 +700,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 653, col: 28, offset: 20637},
+																									pos:        position{line: 653, col: 28, offset: 20705},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -727,22 +727,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 646, col: 5, offset: 20346},
+																		pos: position{line: 646, col: 5, offset: 20414},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 646, col: 5, offset: 20346},
+																				pos: position{line: 646, col: 5, offset: 20414},
 																				run: (*parser).callonDocumentRawLine147,
 																				expr: &seqExpr{
-																					pos: position{line: 646, col: 5, offset: 20346},
+																					pos: position{line: 646, col: 5, offset: 20414},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 646, col: 5, offset: 20346},
+																							pos:        position{line: 646, col: 5, offset: 20414},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 646, col: 13, offset: 20354},
+																							pos:   position{line: 646, col: 13, offset: 20422},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -774,7 +774,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 646, col: 32, offset: 20373},
+																							pos:        position{line: 646, col: 32, offset: 20441},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -783,19 +783,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 653, col: 5, offset: 20614},
+																				pos: position{line: 653, col: 5, offset: 20682},
 																				run: (*parser).callonDocumentRawLine157,
 																				expr: &seqExpr{
-																					pos: position{line: 653, col: 5, offset: 20614},
+																					pos: position{line: 653, col: 5, offset: 20682},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 653, col: 5, offset: 20614},
+																							pos:        position{line: 653, col: 5, offset: 20682},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 653, col: 9, offset: 20618},
+																							pos:   position{line: 653, col: 9, offset: 20686},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -827,7 +827,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 653, col: 28, offset: 20637},
+																							pos:        position{line: 653, col: 28, offset: 20705},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2893, col: 12, offset: 91310},
+																pos: position{line: 2894, col: 12, offset: 91460},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2893, col: 13, offset: 91311},
+																	pos: position{line: 2894, col: 13, offset: 91461},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2893, col: 13, offset: 91311},
+																			pos: position{line: 2894, col: 13, offset: 91461},
 																			expr: &litMatcher{
-																				pos:        position{line: 2893, col: 13, offset: 91311},
+																				pos:        position{line: 2894, col: 13, offset: 91461},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2893, col: 18, offset: 91316},
+																			pos: position{line: 2894, col: 18, offset: 91466},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2893, col: 18, offset: 91316},
+																				pos:        position{line: 2894, col: 18, offset: 91466},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2901, col: 10, offset: 91483},
+														pos: position{line: 2902, col: 10, offset: 91633},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2901, col: 10, offset: 91483},
+															pos:        position{line: 2902, col: 10, offset: 91633},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2901, col: 10, offset: 91483},
+														pos: position{line: 2902, col: 10, offset: 91633},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2901, col: 10, offset: 91483},
+															pos:        position{line: 2902, col: 10, offset: 91633},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1069,22 +1069,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 646, col: 5, offset: 20346},
+																				pos: position{line: 646, col: 5, offset: 20414},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 646, col: 5, offset: 20346},
+																						pos: position{line: 646, col: 5, offset: 20414},
 																						run: (*parser).callonDocumentRawLine216,
 																						expr: &seqExpr{
-																							pos: position{line: 646, col: 5, offset: 20346},
+																							pos: position{line: 646, col: 5, offset: 20414},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 646, col: 5, offset: 20346},
+																									pos:        position{line: 646, col: 5, offset: 20414},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 646, col: 13, offset: 20354},
+																									pos:   position{line: 646, col: 13, offset: 20422},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -1116,7 +1116,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 646, col: 32, offset: 20373},
+																									pos:        position{line: 646, col: 32, offset: 20441},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1125,19 +1125,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 653, col: 5, offset: 20614},
+																						pos: position{line: 653, col: 5, offset: 20682},
 																						run: (*parser).callonDocumentRawLine226,
 																						expr: &seqExpr{
-																							pos: position{line: 653, col: 5, offset: 20614},
+																							pos: position{line: 653, col: 5, offset: 20682},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 653, col: 5, offset: 20614},
+																									pos:        position{line: 653, col: 5, offset: 20682},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 653, col: 9, offset: 20618},
+																									pos:   position{line: 653, col: 9, offset: 20686},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -1169,7 +1169,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 653, col: 28, offset: 20637},
+																									pos:        position{line: 653, col: 28, offset: 20705},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1205,22 +1205,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 646, col: 5, offset: 20346},
+																				pos: position{line: 646, col: 5, offset: 20414},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 646, col: 5, offset: 20346},
+																						pos: position{line: 646, col: 5, offset: 20414},
 																						run: (*parser).callonDocumentRawLine242,
 																						expr: &seqExpr{
-																							pos: position{line: 646, col: 5, offset: 20346},
+																							pos: position{line: 646, col: 5, offset: 20414},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 646, col: 5, offset: 20346},
+																									pos:        position{line: 646, col: 5, offset: 20414},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 646, col: 13, offset: 20354},
+																									pos:   position{line: 646, col: 13, offset: 20422},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -1252,7 +1252,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 646, col: 32, offset: 20373},
+																									pos:        position{line: 646, col: 32, offset: 20441},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1261,19 +1261,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 653, col: 5, offset: 20614},
+																						pos: position{line: 653, col: 5, offset: 20682},
 																						run: (*parser).callonDocumentRawLine252,
 																						expr: &seqExpr{
-																							pos: position{line: 653, col: 5, offset: 20614},
+																							pos: position{line: 653, col: 5, offset: 20682},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 653, col: 5, offset: 20614},
+																									pos:        position{line: 653, col: 5, offset: 20682},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 653, col: 9, offset: 20618},
+																									pos:   position{line: 653, col: 9, offset: 20686},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -1305,7 +1305,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 653, col: 28, offset: 20637},
+																									pos:        position{line: 653, col: 28, offset: 20705},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1332,22 +1332,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 646, col: 5, offset: 20346},
+																		pos: position{line: 646, col: 5, offset: 20414},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 646, col: 5, offset: 20346},
+																				pos: position{line: 646, col: 5, offset: 20414},
 																				run: (*parser).callonDocumentRawLine266,
 																				expr: &seqExpr{
-																					pos: position{line: 646, col: 5, offset: 20346},
+																					pos: position{line: 646, col: 5, offset: 20414},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 646, col: 5, offset: 20346},
+																							pos:        position{line: 646, col: 5, offset: 20414},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 646, col: 13, offset: 20354},
+																							pos:   position{line: 646, col: 13, offset: 20422},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -1379,7 +1379,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 646, col: 32, offset: 20373},
+																							pos:        position{line: 646, col: 32, offset: 20441},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1388,19 +1388,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 653, col: 5, offset: 20614},
+																				pos: position{line: 653, col: 5, offset: 20682},
 																				run: (*parser).callonDocumentRawLine276,
 																				expr: &seqExpr{
-																					pos: position{line: 653, col: 5, offset: 20614},
+																					pos: position{line: 653, col: 5, offset: 20682},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 653, col: 5, offset: 20614},
+																							pos:        position{line: 653, col: 5, offset: 20682},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 653, col: 9, offset: 20618},
+																							pos:   position{line: 653, col: 9, offset: 20686},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -1432,7 +1432,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 653, col: 28, offset: 20637},
+																							pos:        position{line: 653, col: 28, offset: 20705},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2893, col: 12, offset: 91310},
+																pos: position{line: 2894, col: 12, offset: 91460},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2893, col: 13, offset: 91311},
+																	pos: position{line: 2894, col: 13, offset: 91461},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2893, col: 13, offset: 91311},
+																			pos: position{line: 2894, col: 13, offset: 91461},
 																			expr: &litMatcher{
-																				pos:        position{line: 2893, col: 13, offset: 91311},
+																				pos:        position{line: 2894, col: 13, offset: 91461},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2893, col: 18, offset: 91316},
+																			pos: position{line: 2894, col: 18, offset: 91466},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2893, col: 18, offset: 91316},
+																				pos:        position{line: 2894, col: 18, offset: 91466},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2901, col: 10, offset: 91483},
+														pos: position{line: 2902, col: 10, offset: 91633},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2901, col: 10, offset: 91483},
+															pos:        position{line: 2902, col: 10, offset: 91633},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2920, col: 8, offset: 91831},
+													pos: position{line: 2921, col: 8, offset: 91981},
 													expr: &anyMatcher{
-														line: 2920, col: 9, offset: 91832,
+														line: 2921, col: 9, offset: 91982,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2901, col: 10, offset: 91483},
+														pos: position{line: 2902, col: 10, offset: 91633},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2901, col: 10, offset: 91483},
+															pos:        position{line: 2902, col: 10, offset: 91633},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,24 +1665,24 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2920, col: 8, offset: 91831},
+													pos: position{line: 2921, col: 8, offset: 91981},
 													expr: &anyMatcher{
-														line: 2920, col: 9, offset: 91832,
+														line: 2921, col: 9, offset: 91982,
 													},
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 725, col: 5, offset: 23071},
+										pos: position{line: 725, col: 5, offset: 23139},
 										run: (*parser).callonDocumentRawLine334,
 										expr: &seqExpr{
-											pos: position{line: 725, col: 5, offset: 23071},
+											pos: position{line: 725, col: 5, offset: 23139},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 725, col: 5, offset: 23071},
+													pos: position{line: 725, col: 5, offset: 23139},
 													expr: &charClassMatcher{
-														pos:        position{line: 2791, col: 13, offset: 88578},
+														pos:        position{line: 2792, col: 13, offset: 88728},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1690,36 +1690,36 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 726, col: 5, offset: 23101},
+													pos:   position{line: 726, col: 5, offset: 23169},
 													label: "delimiter",
 													expr: &choiceExpr{
-														pos: position{line: 727, col: 9, offset: 23121},
+														pos: position{line: 727, col: 9, offset: 23189},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 741, col: 5, offset: 23613},
+																pos: position{line: 741, col: 5, offset: 23681},
 																run: (*parser).callonDocumentRawLine340,
 																expr: &seqExpr{
-																	pos: position{line: 741, col: 5, offset: 23613},
+																	pos: position{line: 741, col: 5, offset: 23681},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 741, col: 5, offset: 23613},
+																			pos:   position{line: 741, col: 5, offset: 23681},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 741, col: 16, offset: 23624},
+																				pos: position{line: 741, col: 16, offset: 23692},
 																				run: (*parser).callonDocumentRawLine343,
 																				expr: &seqExpr{
-																					pos: position{line: 741, col: 16, offset: 23624},
+																					pos: position{line: 741, col: 16, offset: 23692},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 741, col: 16, offset: 23624},
+																							pos:        position{line: 741, col: 16, offset: 23692},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 741, col: 23, offset: 23631},
+																							pos: position{line: 741, col: 23, offset: 23699},
 																							expr: &litMatcher{
-																								pos:        position{line: 741, col: 23, offset: 23631},
+																								pos:        position{line: 741, col: 23, offset: 23699},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -1730,12 +1730,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 743, col: 8, offset: 23715},
+																			pos: position{line: 743, col: 8, offset: 23783},
 																			expr: &actionExpr{
-																				pos: position{line: 2901, col: 10, offset: 91483},
+																				pos: position{line: 2902, col: 10, offset: 91633},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2901, col: 10, offset: 91483},
+																					pos:        position{line: 2902, col: 10, offset: 91633},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2923, col: 8, offset: 91881},
+																			pos: position{line: 2924, col: 8, offset: 92031},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2910, col: 12, offset: 91654},
+																					pos: position{line: 2911, col: 12, offset: 91804},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2910, col: 13, offset: 91655},
+																						pos: position{line: 2911, col: 13, offset: 91805},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 13, offset: 91655},
+																								pos:        position{line: 2911, col: 13, offset: 91805},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 20, offset: 91662},
+																								pos:        position{line: 2911, col: 20, offset: 91812},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 29, offset: 91671},
+																								pos:        position{line: 2911, col: 29, offset: 91821},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
@@ -1785,30 +1785,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 748, col: 5, offset: 23861},
+																pos: position{line: 748, col: 5, offset: 23929},
 																run: (*parser).callonDocumentRawLine359,
 																expr: &seqExpr{
-																	pos: position{line: 748, col: 5, offset: 23861},
+																	pos: position{line: 748, col: 5, offset: 23929},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 748, col: 5, offset: 23861},
+																			pos:   position{line: 748, col: 5, offset: 23929},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 748, col: 16, offset: 23872},
+																				pos: position{line: 748, col: 16, offset: 23940},
 																				run: (*parser).callonDocumentRawLine362,
 																				expr: &seqExpr{
-																					pos: position{line: 748, col: 16, offset: 23872},
+																					pos: position{line: 748, col: 16, offset: 23940},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 748, col: 16, offset: 23872},
+																							pos:        position{line: 748, col: 16, offset: 23940},
 																							val:        "====",
 																							ignoreCase: false,
 																							want:       "\"====\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 748, col: 23, offset: 23879},
+																							pos: position{line: 748, col: 23, offset: 23947},
 																							expr: &litMatcher{
-																								pos:        position{line: 748, col: 23, offset: 23879},
+																								pos:        position{line: 748, col: 23, offset: 23947},
 																								val:        "=",
 																								ignoreCase: false,
 																								want:       "\"=\"",
@@ -1819,12 +1819,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 750, col: 8, offset: 23963},
+																			pos: position{line: 750, col: 8, offset: 24031},
 																			expr: &actionExpr{
-																				pos: position{line: 2901, col: 10, offset: 91483},
+																				pos: position{line: 2902, col: 10, offset: 91633},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2901, col: 10, offset: 91483},
+																					pos:        position{line: 2902, col: 10, offset: 91633},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2923, col: 8, offset: 91881},
+																			pos: position{line: 2924, col: 8, offset: 92031},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2910, col: 12, offset: 91654},
+																					pos: position{line: 2911, col: 12, offset: 91804},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2910, col: 13, offset: 91655},
+																						pos: position{line: 2911, col: 13, offset: 91805},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 13, offset: 91655},
+																								pos:        position{line: 2911, col: 13, offset: 91805},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 20, offset: 91662},
+																								pos:        position{line: 2911, col: 20, offset: 91812},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 29, offset: 91671},
+																								pos:        position{line: 2911, col: 29, offset: 91821},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
@@ -1874,27 +1874,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 761, col: 26, offset: 24349},
+																pos: position{line: 761, col: 26, offset: 24417},
 																run: (*parser).callonDocumentRawLine378,
 																expr: &seqExpr{
-																	pos: position{line: 761, col: 26, offset: 24349},
+																	pos: position{line: 761, col: 26, offset: 24417},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 761, col: 26, offset: 24349},
+																			pos:        position{line: 761, col: 26, offset: 24417},
 																			val:        "```",
 																			ignoreCase: false,
 																			want:       "\"```\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 761, col: 32, offset: 24355},
+																			pos:   position{line: 761, col: 32, offset: 24423},
 																			label: "language",
 																			expr: &actionExpr{
-																				pos: position{line: 765, col: 13, offset: 24485},
+																				pos: position{line: 765, col: 13, offset: 24553},
 																				run: (*parser).callonDocumentRawLine382,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 765, col: 14, offset: 24486},
+																					pos: position{line: 765, col: 14, offset: 24554},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 765, col: 14, offset: 24486},
+																						pos:        position{line: 765, col: 14, offset: 24554},
 																						val:        "[^\\r\\n` ]",
 																						chars:      []rune{'\r', '\n', '`', ' '},
 																						ignoreCase: false,
@@ -1904,12 +1904,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 761, col: 52, offset: 24375},
+																			pos: position{line: 761, col: 52, offset: 24443},
 																			expr: &actionExpr{
-																				pos: position{line: 2901, col: 10, offset: 91483},
+																				pos: position{line: 2902, col: 10, offset: 91633},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2901, col: 10, offset: 91483},
+																					pos:        position{line: 2902, col: 10, offset: 91633},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2923, col: 8, offset: 91881},
+																			pos: position{line: 2924, col: 8, offset: 92031},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2910, col: 12, offset: 91654},
+																					pos: position{line: 2911, col: 12, offset: 91804},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2910, col: 13, offset: 91655},
+																						pos: position{line: 2911, col: 13, offset: 91805},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 13, offset: 91655},
+																								pos:        position{line: 2911, col: 13, offset: 91805},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 20, offset: 91662},
+																								pos:        position{line: 2911, col: 20, offset: 91812},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 29, offset: 91671},
+																								pos:        position{line: 2911, col: 29, offset: 91821},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
@@ -1959,30 +1959,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 755, col: 5, offset: 24108},
+																pos: position{line: 755, col: 5, offset: 24176},
 																run: (*parser).callonDocumentRawLine396,
 																expr: &seqExpr{
-																	pos: position{line: 755, col: 5, offset: 24108},
+																	pos: position{line: 755, col: 5, offset: 24176},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 755, col: 5, offset: 24108},
+																			pos:   position{line: 755, col: 5, offset: 24176},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 755, col: 16, offset: 24119},
+																				pos: position{line: 755, col: 16, offset: 24187},
 																				run: (*parser).callonDocumentRawLine399,
 																				expr: &seqExpr{
-																					pos: position{line: 755, col: 16, offset: 24119},
+																					pos: position{line: 755, col: 16, offset: 24187},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 755, col: 16, offset: 24119},
+																							pos:        position{line: 755, col: 16, offset: 24187},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 755, col: 22, offset: 24125},
+																							pos: position{line: 755, col: 22, offset: 24193},
 																							expr: &litMatcher{
-																								pos:        position{line: 755, col: 22, offset: 24125},
+																								pos:        position{line: 755, col: 22, offset: 24193},
 																								val:        "`",
 																								ignoreCase: false,
 																								want:       "\"`\"",
@@ -1993,12 +1993,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 757, col: 8, offset: 24209},
+																			pos: position{line: 757, col: 8, offset: 24277},
 																			expr: &actionExpr{
-																				pos: position{line: 2901, col: 10, offset: 91483},
+																				pos: position{line: 2902, col: 10, offset: 91633},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2901, col: 10, offset: 91483},
+																					pos:        position{line: 2902, col: 10, offset: 91633},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2923, col: 8, offset: 91881},
+																			pos: position{line: 2924, col: 8, offset: 92031},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2910, col: 12, offset: 91654},
+																					pos: position{line: 2911, col: 12, offset: 91804},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2910, col: 13, offset: 91655},
+																						pos: position{line: 2911, col: 13, offset: 91805},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 13, offset: 91655},
+																								pos:        position{line: 2911, col: 13, offset: 91805},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 20, offset: 91662},
+																								pos:        position{line: 2911, col: 20, offset: 91812},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 29, offset: 91671},
+																								pos:        position{line: 2911, col: 29, offset: 91821},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
@@ -2048,30 +2048,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 770, col: 5, offset: 24645},
+																pos: position{line: 770, col: 5, offset: 24713},
 																run: (*parser).callonDocumentRawLine415,
 																expr: &seqExpr{
-																	pos: position{line: 770, col: 5, offset: 24645},
+																	pos: position{line: 770, col: 5, offset: 24713},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 770, col: 5, offset: 24645},
+																			pos:   position{line: 770, col: 5, offset: 24713},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 770, col: 16, offset: 24656},
+																				pos: position{line: 770, col: 16, offset: 24724},
 																				run: (*parser).callonDocumentRawLine418,
 																				expr: &seqExpr{
-																					pos: position{line: 770, col: 16, offset: 24656},
+																					pos: position{line: 770, col: 16, offset: 24724},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 770, col: 16, offset: 24656},
+																							pos:        position{line: 770, col: 16, offset: 24724},
 																							val:        "----",
 																							ignoreCase: false,
 																							want:       "\"----\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 770, col: 23, offset: 24663},
+																							pos: position{line: 770, col: 23, offset: 24731},
 																							expr: &litMatcher{
-																								pos:        position{line: 770, col: 23, offset: 24663},
+																								pos:        position{line: 770, col: 23, offset: 24731},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
@@ -2082,12 +2082,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 772, col: 8, offset: 24747},
+																			pos: position{line: 772, col: 8, offset: 24815},
 																			expr: &actionExpr{
-																				pos: position{line: 2901, col: 10, offset: 91483},
+																				pos: position{line: 2902, col: 10, offset: 91633},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2901, col: 10, offset: 91483},
+																					pos:        position{line: 2902, col: 10, offset: 91633},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2923, col: 8, offset: 91881},
+																			pos: position{line: 2924, col: 8, offset: 92031},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2910, col: 12, offset: 91654},
+																					pos: position{line: 2911, col: 12, offset: 91804},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2910, col: 13, offset: 91655},
+																						pos: position{line: 2911, col: 13, offset: 91805},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 13, offset: 91655},
+																								pos:        position{line: 2911, col: 13, offset: 91805},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 20, offset: 91662},
+																								pos:        position{line: 2911, col: 20, offset: 91812},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 29, offset: 91671},
+																								pos:        position{line: 2911, col: 29, offset: 91821},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
@@ -2137,30 +2137,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 784, col: 5, offset: 25121},
+																pos: position{line: 784, col: 5, offset: 25189},
 																run: (*parser).callonDocumentRawLine434,
 																expr: &seqExpr{
-																	pos: position{line: 784, col: 5, offset: 25121},
+																	pos: position{line: 784, col: 5, offset: 25189},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 784, col: 5, offset: 25121},
+																			pos:   position{line: 784, col: 5, offset: 25189},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 784, col: 16, offset: 25132},
+																				pos: position{line: 784, col: 16, offset: 25200},
 																				run: (*parser).callonDocumentRawLine437,
 																				expr: &seqExpr{
-																					pos: position{line: 784, col: 16, offset: 25132},
+																					pos: position{line: 784, col: 16, offset: 25200},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 784, col: 16, offset: 25132},
+																							pos:        position{line: 784, col: 16, offset: 25200},
 																							val:        "....",
 																							ignoreCase: false,
 																							want:       "\"....\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 784, col: 23, offset: 25139},
+																							pos: position{line: 784, col: 23, offset: 25207},
 																							expr: &litMatcher{
-																								pos:        position{line: 784, col: 23, offset: 25139},
+																								pos:        position{line: 784, col: 23, offset: 25207},
 																								val:        ".",
 																								ignoreCase: false,
 																								want:       "\".\"",
@@ -2171,12 +2171,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 786, col: 8, offset: 25223},
+																			pos: position{line: 786, col: 8, offset: 25291},
 																			expr: &actionExpr{
-																				pos: position{line: 2901, col: 10, offset: 91483},
+																				pos: position{line: 2902, col: 10, offset: 91633},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2901, col: 10, offset: 91483},
+																					pos:        position{line: 2902, col: 10, offset: 91633},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2923, col: 8, offset: 91881},
+																			pos: position{line: 2924, col: 8, offset: 92031},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2910, col: 12, offset: 91654},
+																					pos: position{line: 2911, col: 12, offset: 91804},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2910, col: 13, offset: 91655},
+																						pos: position{line: 2911, col: 13, offset: 91805},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 13, offset: 91655},
+																								pos:        position{line: 2911, col: 13, offset: 91805},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 20, offset: 91662},
+																								pos:        position{line: 2911, col: 20, offset: 91812},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 29, offset: 91671},
+																								pos:        position{line: 2911, col: 29, offset: 91821},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
@@ -2226,30 +2226,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 791, col: 5, offset: 25373},
+																pos: position{line: 791, col: 5, offset: 25441},
 																run: (*parser).callonDocumentRawLine453,
 																expr: &seqExpr{
-																	pos: position{line: 791, col: 5, offset: 25373},
+																	pos: position{line: 791, col: 5, offset: 25441},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 791, col: 5, offset: 25373},
+																			pos:   position{line: 791, col: 5, offset: 25441},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 791, col: 16, offset: 25384},
+																				pos: position{line: 791, col: 16, offset: 25452},
 																				run: (*parser).callonDocumentRawLine456,
 																				expr: &seqExpr{
-																					pos: position{line: 791, col: 16, offset: 25384},
+																					pos: position{line: 791, col: 16, offset: 25452},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 791, col: 16, offset: 25384},
+																							pos:        position{line: 791, col: 16, offset: 25452},
 																							val:        "++++",
 																							ignoreCase: false,
 																							want:       "\"++++\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 791, col: 23, offset: 25391},
+																							pos: position{line: 791, col: 23, offset: 25459},
 																							expr: &litMatcher{
-																								pos:        position{line: 791, col: 23, offset: 25391},
+																								pos:        position{line: 791, col: 23, offset: 25459},
 																								val:        "+",
 																								ignoreCase: false,
 																								want:       "\"+\"",
@@ -2260,12 +2260,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 793, col: 8, offset: 25475},
+																			pos: position{line: 793, col: 8, offset: 25543},
 																			expr: &actionExpr{
-																				pos: position{line: 2901, col: 10, offset: 91483},
+																				pos: position{line: 2902, col: 10, offset: 91633},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2901, col: 10, offset: 91483},
+																					pos:        position{line: 2902, col: 10, offset: 91633},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2923, col: 8, offset: 91881},
+																			pos: position{line: 2924, col: 8, offset: 92031},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2910, col: 12, offset: 91654},
+																					pos: position{line: 2911, col: 12, offset: 91804},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2910, col: 13, offset: 91655},
+																						pos: position{line: 2911, col: 13, offset: 91805},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 13, offset: 91655},
+																								pos:        position{line: 2911, col: 13, offset: 91805},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 20, offset: 91662},
+																								pos:        position{line: 2911, col: 20, offset: 91812},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 29, offset: 91671},
+																								pos:        position{line: 2911, col: 29, offset: 91821},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
@@ -2315,30 +2315,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 798, col: 5, offset: 25623},
+																pos: position{line: 798, col: 5, offset: 25691},
 																run: (*parser).callonDocumentRawLine472,
 																expr: &seqExpr{
-																	pos: position{line: 798, col: 5, offset: 25623},
+																	pos: position{line: 798, col: 5, offset: 25691},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 798, col: 5, offset: 25623},
+																			pos:   position{line: 798, col: 5, offset: 25691},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 798, col: 16, offset: 25634},
+																				pos: position{line: 798, col: 16, offset: 25702},
 																				run: (*parser).callonDocumentRawLine475,
 																				expr: &seqExpr{
-																					pos: position{line: 798, col: 16, offset: 25634},
+																					pos: position{line: 798, col: 16, offset: 25702},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 798, col: 16, offset: 25634},
+																							pos:        position{line: 798, col: 16, offset: 25702},
 																							val:        "____",
 																							ignoreCase: false,
 																							want:       "\"____\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 798, col: 23, offset: 25641},
+																							pos: position{line: 798, col: 23, offset: 25709},
 																							expr: &litMatcher{
-																								pos:        position{line: 798, col: 23, offset: 25641},
+																								pos:        position{line: 798, col: 23, offset: 25709},
 																								val:        "_",
 																								ignoreCase: false,
 																								want:       "\"_\"",
@@ -2349,12 +2349,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 800, col: 8, offset: 25725},
+																			pos: position{line: 800, col: 8, offset: 25793},
 																			expr: &actionExpr{
-																				pos: position{line: 2901, col: 10, offset: 91483},
+																				pos: position{line: 2902, col: 10, offset: 91633},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2901, col: 10, offset: 91483},
+																					pos:        position{line: 2902, col: 10, offset: 91633},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2923, col: 8, offset: 91881},
+																			pos: position{line: 2924, col: 8, offset: 92031},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2910, col: 12, offset: 91654},
+																					pos: position{line: 2911, col: 12, offset: 91804},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2910, col: 13, offset: 91655},
+																						pos: position{line: 2911, col: 13, offset: 91805},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 13, offset: 91655},
+																								pos:        position{line: 2911, col: 13, offset: 91805},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 20, offset: 91662},
+																								pos:        position{line: 2911, col: 20, offset: 91812},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 29, offset: 91671},
+																								pos:        position{line: 2911, col: 29, offset: 91821},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
@@ -2404,30 +2404,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 805, col: 5, offset: 25869},
+																pos: position{line: 805, col: 5, offset: 25937},
 																run: (*parser).callonDocumentRawLine491,
 																expr: &seqExpr{
-																	pos: position{line: 805, col: 5, offset: 25869},
+																	pos: position{line: 805, col: 5, offset: 25937},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 805, col: 5, offset: 25869},
+																			pos:   position{line: 805, col: 5, offset: 25937},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 805, col: 16, offset: 25880},
+																				pos: position{line: 805, col: 16, offset: 25948},
 																				run: (*parser).callonDocumentRawLine494,
 																				expr: &seqExpr{
-																					pos: position{line: 805, col: 16, offset: 25880},
+																					pos: position{line: 805, col: 16, offset: 25948},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 805, col: 16, offset: 25880},
+																							pos:        position{line: 805, col: 16, offset: 25948},
 																							val:        "****",
 																							ignoreCase: false,
 																							want:       "\"****\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 805, col: 23, offset: 25887},
+																							pos: position{line: 805, col: 23, offset: 25955},
 																							expr: &litMatcher{
-																								pos:        position{line: 805, col: 23, offset: 25887},
+																								pos:        position{line: 805, col: 23, offset: 25955},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -2438,12 +2438,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 807, col: 8, offset: 25971},
+																			pos: position{line: 807, col: 8, offset: 26039},
 																			expr: &actionExpr{
-																				pos: position{line: 2901, col: 10, offset: 91483},
+																				pos: position{line: 2902, col: 10, offset: 91633},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2901, col: 10, offset: 91483},
+																					pos:        position{line: 2902, col: 10, offset: 91633},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2923, col: 8, offset: 91881},
+																			pos: position{line: 2924, col: 8, offset: 92031},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2910, col: 12, offset: 91654},
+																					pos: position{line: 2911, col: 12, offset: 91804},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2910, col: 13, offset: 91655},
+																						pos: position{line: 2911, col: 13, offset: 91805},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 13, offset: 91655},
+																								pos:        position{line: 2911, col: 13, offset: 91805},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 20, offset: 91662},
+																								pos:        position{line: 2911, col: 20, offset: 91812},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 29, offset: 91671},
+																								pos:        position{line: 2911, col: 29, offset: 91821},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2905, col: 11, offset: 91544},
+													pos: position{line: 2906, col: 11, offset: 91694},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2905, col: 11, offset: 91544},
+														pos: position{line: 2906, col: 11, offset: 91694},
 														expr: &charClassMatcher{
-															pos:        position{line: 2905, col: 11, offset: 91544},
+															pos:        position{line: 2906, col: 11, offset: 91694},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2851, col: 14, offset: 90076},
+													pos: position{line: 2852, col: 14, offset: 90226},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2851, col: 14, offset: 90076},
+														pos: position{line: 2852, col: 14, offset: 90226},
 														expr: &charClassMatcher{
-															pos:        position{line: 2851, col: 14, offset: 90076},
+															pos:        position{line: 2852, col: 14, offset: 90226},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2920, col: 8, offset: 91831},
+													pos: position{line: 2921, col: 8, offset: 91981},
 													expr: &anyMatcher{
-														line: 2920, col: 9, offset: 91832,
+														line: 2921, col: 9, offset: 91982,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2920, col: 8, offset: 91831},
+							pos: position{line: 2921, col: 8, offset: 91981},
 							expr: &anyMatcher{
-								line: 2920, col: 9, offset: 91832,
+								line: 2921, col: 9, offset: 91982,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2855, col: 17, offset: 90146},
+												pos: position{line: 2856, col: 17, offset: 90296},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2855, col: 17, offset: 90146},
+													pos:   position{line: 2856, col: 17, offset: 90296},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 5, offset: 90600},
+														pos: position{line: 2873, col: 5, offset: 90750},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2872, col: 5, offset: 90600},
+															pos:   position{line: 2873, col: 5, offset: 90750},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2872, col: 14, offset: 90609},
+																pos: position{line: 2873, col: 14, offset: 90759},
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 9, offset: 90619},
+																	pos: position{line: 2874, col: 9, offset: 90769},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 9, offset: 90619},
+																			pos: position{line: 2874, col: 9, offset: 90769},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2873, col: 9, offset: 90619},
+																				pos: position{line: 2874, col: 9, offset: 90769},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2873, col: 9, offset: 90619},
+																						pos: position{line: 2874, col: 9, offset: 90769},
 																						expr: &litMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90620},
+																							pos:        position{line: 2874, col: 10, offset: 90770},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2874, col: 9, offset: 90648},
+																						pos: position{line: 2875, col: 9, offset: 90798},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2874, col: 10, offset: 90649},
+																							pos:        position{line: 2875, col: 10, offset: 90799},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2877, col: 11, offset: 90861},
+																			pos: position{line: 2878, col: 11, offset: 91011},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2877, col: 11, offset: 90861},
+																					pos:        position{line: 2878, col: 11, offset: 91011},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2877, col: 19, offset: 90869},
+																					pos: position{line: 2878, col: 19, offset: 91019},
 																					expr: &seqExpr{
-																						pos: position{line: 2877, col: 21, offset: 90871},
+																						pos: position{line: 2878, col: 21, offset: 91021},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2877, col: 21, offset: 90871},
+																								pos: position{line: 2878, col: 21, offset: 91021},
 																								expr: &actionExpr{
-																									pos: position{line: 2901, col: 10, offset: 91483},
+																									pos: position{line: 2902, col: 10, offset: 91633},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2901, col: 10, offset: 91483},
+																										pos:        position{line: 2902, col: 10, offset: 91633},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2877, col: 28, offset: 90878},
+																								pos: position{line: 2878, col: 28, offset: 91028},
 																								expr: &notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -2699,35 +2699,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 637, col: 5, offset: 20136},
+																			pos: position{line: 637, col: 5, offset: 20204},
 																			run: (*parser).callonFileInclusion30,
 																			expr: &seqExpr{
-																				pos: position{line: 637, col: 5, offset: 20136},
+																				pos: position{line: 637, col: 5, offset: 20204},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 637, col: 5, offset: 20136},
+																						pos: position{line: 637, col: 5, offset: 20204},
 																						run: (*parser).callonFileInclusion32,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 640, col: 5, offset: 20208},
+																						pos:   position{line: 640, col: 5, offset: 20276},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 640, col: 14, offset: 20217},
+																							pos: position{line: 640, col: 14, offset: 20285},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 646, col: 5, offset: 20346},
+																									pos: position{line: 646, col: 5, offset: 20414},
 																									run: (*parser).callonFileInclusion35,
 																									expr: &seqExpr{
-																										pos: position{line: 646, col: 5, offset: 20346},
+																										pos: position{line: 646, col: 5, offset: 20414},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 646, col: 5, offset: 20346},
+																												pos:        position{line: 646, col: 5, offset: 20414},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 646, col: 13, offset: 20354},
+																												pos:   position{line: 646, col: 13, offset: 20422},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -2759,7 +2759,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 646, col: 32, offset: 20373},
+																												pos:        position{line: 646, col: 32, offset: 20441},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2768,19 +2768,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 653, col: 5, offset: 20614},
+																									pos: position{line: 653, col: 5, offset: 20682},
 																									run: (*parser).callonFileInclusion45,
 																									expr: &seqExpr{
-																										pos: position{line: 653, col: 5, offset: 20614},
+																										pos: position{line: 653, col: 5, offset: 20682},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 653, col: 5, offset: 20614},
+																												pos:        position{line: 653, col: 5, offset: 20682},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 653, col: 9, offset: 20618},
+																												pos:   position{line: 653, col: 9, offset: 20686},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -2812,7 +2812,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 653, col: 28, offset: 20637},
+																												pos:        position{line: 653, col: 28, offset: 20705},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2821,19 +2821,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 659, col: 25, offset: 20818},
+																									pos: position{line: 659, col: 25, offset: 20886},
 																									run: (*parser).callonFileInclusion55,
 																									expr: &seqExpr{
-																										pos: position{line: 659, col: 25, offset: 20818},
+																										pos: position{line: 659, col: 25, offset: 20886},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 659, col: 25, offset: 20818},
+																												pos:        position{line: 659, col: 25, offset: 20886},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 37, offset: 20830},
+																												pos:   position{line: 659, col: 37, offset: 20898},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -2865,33 +2865,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 56, offset: 20849},
+																												pos:   position{line: 659, col: 56, offset: 20917},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 659, col: 62, offset: 20855},
+																													pos: position{line: 659, col: 62, offset: 20923},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21152},
+																														pos: position{line: 667, col: 17, offset: 21220},
 																														run: (*parser).callonFileInclusion66,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21152},
+																															pos: position{line: 667, col: 17, offset: 21220},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21152},
+																																	pos:        position{line: 667, col: 17, offset: 21220},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21156},
+																																	pos:   position{line: 667, col: 21, offset: 21224},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21163},
+																																		pos: position{line: 667, col: 28, offset: 21231},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21163},
+																																				pos: position{line: 667, col: 28, offset: 21231},
 																																				run: (*parser).callonFileInclusion71,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21163},
+																																					pos:        position{line: 667, col: 28, offset: 21231},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -2899,12 +2899,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21217},
+																																				pos: position{line: 669, col: 9, offset: 21285},
 																																				run: (*parser).callonFileInclusion73,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21217},
+																																					pos: position{line: 669, col: 9, offset: 21285},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21217},
+																																						pos:        position{line: 669, col: 9, offset: 21285},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -2921,7 +2921,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 659, col: 78, offset: 20871},
+																												pos:        position{line: 659, col: 78, offset: 20939},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2930,19 +2930,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 663, col: 25, offset: 20989},
+																									pos: position{line: 663, col: 25, offset: 21057},
 																									run: (*parser).callonFileInclusion77,
 																									expr: &seqExpr{
-																										pos: position{line: 663, col: 25, offset: 20989},
+																										pos: position{line: 663, col: 25, offset: 21057},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 663, col: 25, offset: 20989},
+																												pos:        position{line: 663, col: 25, offset: 21057},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 38, offset: 21002},
+																												pos:   position{line: 663, col: 38, offset: 21070},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -2974,33 +2974,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 57, offset: 21021},
+																												pos:   position{line: 663, col: 57, offset: 21089},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 663, col: 63, offset: 21027},
+																													pos: position{line: 663, col: 63, offset: 21095},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21152},
+																														pos: position{line: 667, col: 17, offset: 21220},
 																														run: (*parser).callonFileInclusion88,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21152},
+																															pos: position{line: 667, col: 17, offset: 21220},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21152},
+																																	pos:        position{line: 667, col: 17, offset: 21220},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21156},
+																																	pos:   position{line: 667, col: 21, offset: 21224},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21163},
+																																		pos: position{line: 667, col: 28, offset: 21231},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21163},
+																																				pos: position{line: 667, col: 28, offset: 21231},
 																																				run: (*parser).callonFileInclusion93,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21163},
+																																					pos:        position{line: 667, col: 28, offset: 21231},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3008,12 +3008,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21217},
+																																				pos: position{line: 669, col: 9, offset: 21285},
 																																				run: (*parser).callonFileInclusion95,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21217},
+																																					pos: position{line: 669, col: 9, offset: 21285},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21217},
+																																						pos:        position{line: 669, col: 9, offset: 21285},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3030,7 +3030,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 663, col: 79, offset: 21043},
+																												pos:        position{line: 663, col: 79, offset: 21111},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -3045,27 +3045,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1199, col: 23, offset: 37001},
+																			pos: position{line: 1199, col: 23, offset: 37069},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1199, col: 23, offset: 37001},
+																				pos: position{line: 1199, col: 23, offset: 37069},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1197, col: 32, offset: 36969},
+																						pos:        position{line: 1197, col: 32, offset: 37037},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1199, col: 51, offset: 37029},
+																						pos:   position{line: 1199, col: 51, offset: 37097},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1199, col: 56, offset: 37034},
+																							pos: position{line: 1199, col: 56, offset: 37102},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1199, col: 56, offset: 37034},
+																								pos: position{line: 1199, col: 56, offset: 37102},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1199, col: 56, offset: 37034},
+																									pos:        position{line: 1199, col: 56, offset: 37102},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3075,7 +3075,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1197, col: 32, offset: 36969},
+																						pos:        position{line: 1197, col: 32, offset: 37037},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2880, col: 11, offset: 90998},
+																			pos: position{line: 2881, col: 11, offset: 91148},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2880, col: 11, offset: 90998},
+																				pos:        position{line: 2881, col: 11, offset: 91148},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 10, offset: 91483},
+								pos: position{line: 2902, col: 10, offset: 91633},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2901, col: 10, offset: 91483},
+									pos:        position{line: 2902, col: 10, offset: 91633},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2923, col: 8, offset: 91881},
+							pos: position{line: 2924, col: 8, offset: 92031},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2910, col: 12, offset: 91654},
+									pos: position{line: 2911, col: 12, offset: 91804},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2910, col: 13, offset: 91655},
+										pos: position{line: 2911, col: 13, offset: 91805},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2910, col: 13, offset: 91655},
+												pos:        position{line: 2911, col: 13, offset: 91805},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2910, col: 20, offset: 91662},
+												pos:        position{line: 2911, col: 20, offset: 91812},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2910, col: 29, offset: 91671},
+												pos:        position{line: 2911, col: 29, offset: 91821},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2920, col: 8, offset: 91831},
+									pos: position{line: 2921, col: 8, offset: 91981},
 									expr: &anyMatcher{
-										line: 2920, col: 9, offset: 91832,
+										line: 2921, col: 9, offset: 91982,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2893, col: 12, offset: 91310},
+																				pos: position{line: 2894, col: 12, offset: 91460},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2893, col: 13, offset: 91311},
+																					pos: position{line: 2894, col: 13, offset: 91461},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2893, col: 13, offset: 91311},
+																							pos: position{line: 2894, col: 13, offset: 91461},
 																							expr: &litMatcher{
-																								pos:        position{line: 2893, col: 13, offset: 91311},
+																								pos:        position{line: 2894, col: 13, offset: 91461},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2893, col: 18, offset: 91316},
+																							pos: position{line: 2894, col: 18, offset: 91466},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2893, col: 18, offset: 91316},
+																								pos:        position{line: 2894, col: 18, offset: 91466},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2893, col: 12, offset: 91310},
+																				pos: position{line: 2894, col: 12, offset: 91460},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2893, col: 13, offset: 91311},
+																					pos: position{line: 2894, col: 13, offset: 91461},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2893, col: 13, offset: 91311},
+																							pos: position{line: 2894, col: 13, offset: 91461},
 																							expr: &litMatcher{
-																								pos:        position{line: 2893, col: 13, offset: 91311},
+																								pos:        position{line: 2894, col: 13, offset: 91461},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2893, col: 18, offset: 91316},
+																							pos: position{line: 2894, col: 18, offset: 91466},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2893, col: 18, offset: 91316},
+																								pos:        position{line: 2894, col: 18, offset: 91466},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2893, col: 12, offset: 91310},
+																		pos: position{line: 2894, col: 12, offset: 91460},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2893, col: 13, offset: 91311},
+																			pos: position{line: 2894, col: 13, offset: 91461},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2893, col: 13, offset: 91311},
+																					pos: position{line: 2894, col: 13, offset: 91461},
 																					expr: &litMatcher{
-																						pos:        position{line: 2893, col: 13, offset: 91311},
+																						pos:        position{line: 2894, col: 13, offset: 91461},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2893, col: 18, offset: 91316},
+																					pos: position{line: 2894, col: 18, offset: 91466},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2893, col: 18, offset: 91316},
+																						pos:        position{line: 2894, col: 18, offset: 91466},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2893, col: 12, offset: 91310},
+																									pos: position{line: 2894, col: 12, offset: 91460},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2893, col: 13, offset: 91311},
+																										pos: position{line: 2894, col: 13, offset: 91461},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2893, col: 13, offset: 91311},
+																												pos: position{line: 2894, col: 13, offset: 91461},
 																												expr: &litMatcher{
-																													pos:        position{line: 2893, col: 13, offset: 91311},
+																													pos:        position{line: 2894, col: 13, offset: 91461},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2893, col: 18, offset: 91316},
+																												pos: position{line: 2894, col: 18, offset: 91466},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2893, col: 18, offset: 91316},
+																													pos:        position{line: 2894, col: 18, offset: 91466},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2893, col: 12, offset: 91310},
+																									pos: position{line: 2894, col: 12, offset: 91460},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2893, col: 13, offset: 91311},
+																										pos: position{line: 2894, col: 13, offset: 91461},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2893, col: 13, offset: 91311},
+																												pos: position{line: 2894, col: 13, offset: 91461},
 																												expr: &litMatcher{
-																													pos:        position{line: 2893, col: 13, offset: 91311},
+																													pos:        position{line: 2894, col: 13, offset: 91461},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2893, col: 18, offset: 91316},
+																												pos: position{line: 2894, col: 18, offset: 91466},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2893, col: 18, offset: 91316},
+																													pos:        position{line: 2894, col: 18, offset: 91466},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2893, col: 12, offset: 91310},
+																							pos: position{line: 2894, col: 12, offset: 91460},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2893, col: 13, offset: 91311},
+																								pos: position{line: 2894, col: 13, offset: 91461},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2893, col: 13, offset: 91311},
+																										pos: position{line: 2894, col: 13, offset: 91461},
 																										expr: &litMatcher{
-																											pos:        position{line: 2893, col: 13, offset: 91311},
+																											pos:        position{line: 2894, col: 13, offset: 91461},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2893, col: 18, offset: 91316},
+																										pos: position{line: 2894, col: 18, offset: 91466},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2893, col: 18, offset: 91316},
+																											pos:        position{line: 2894, col: 18, offset: 91466},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2893, col: 12, offset: 91310},
+														pos: position{line: 2894, col: 12, offset: 91460},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2893, col: 13, offset: 91311},
+															pos: position{line: 2894, col: 13, offset: 91461},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2893, col: 13, offset: 91311},
+																	pos: position{line: 2894, col: 13, offset: 91461},
 																	expr: &litMatcher{
-																		pos:        position{line: 2893, col: 13, offset: 91311},
+																		pos:        position{line: 2894, col: 13, offset: 91461},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2893, col: 18, offset: 91316},
+																	pos: position{line: 2894, col: 18, offset: 91466},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2893, col: 18, offset: 91316},
+																		pos:        position{line: 2894, col: 18, offset: 91466},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2893, col: 12, offset: 91310},
+														pos: position{line: 2894, col: 12, offset: 91460},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2893, col: 13, offset: 91311},
+															pos: position{line: 2894, col: 13, offset: 91461},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2893, col: 13, offset: 91311},
+																	pos: position{line: 2894, col: 13, offset: 91461},
 																	expr: &litMatcher{
-																		pos:        position{line: 2893, col: 13, offset: 91311},
+																		pos:        position{line: 2894, col: 13, offset: 91461},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2893, col: 18, offset: 91316},
+																	pos: position{line: 2894, col: 18, offset: 91466},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2893, col: 18, offset: 91316},
+																		pos:        position{line: 2894, col: 18, offset: 91466},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2893, col: 12, offset: 91310},
+												pos: position{line: 2894, col: 12, offset: 91460},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2893, col: 13, offset: 91311},
+													pos: position{line: 2894, col: 13, offset: 91461},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2893, col: 13, offset: 91311},
+															pos: position{line: 2894, col: 13, offset: 91461},
 															expr: &litMatcher{
-																pos:        position{line: 2893, col: 13, offset: 91311},
+																pos:        position{line: 2894, col: 13, offset: 91461},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2893, col: 18, offset: 91316},
+															pos: position{line: 2894, col: 18, offset: 91466},
 															expr: &charClassMatcher{
-																pos:        position{line: 2893, col: 18, offset: 91316},
+																pos:        position{line: 2894, col: 18, offset: 91466},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2920, col: 8, offset: 91831},
+							pos: position{line: 2921, col: 8, offset: 91981},
 							expr: &anyMatcher{
-								line: 2920, col: 9, offset: 91832,
+								line: 2921, col: 9, offset: 91982,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2795, col: 14, offset: 88652},
+																		pos: position{line: 2796, col: 14, offset: 88802},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2795, col: 14, offset: 88652},
+																			pos: position{line: 2796, col: 14, offset: 88802},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2795, col: 14, offset: 88652},
+																				pos:        position{line: 2796, col: 14, offset: 88802},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2795, col: 14, offset: 88652},
+																				pos: position{line: 2796, col: 14, offset: 88802},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2795, col: 14, offset: 88652},
+																					pos: position{line: 2796, col: 14, offset: 88802},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2795, col: 14, offset: 88652},
+																						pos:        position{line: 2796, col: 14, offset: 88802},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2795, col: 14, offset: 88652},
+																							pos: position{line: 2796, col: 14, offset: 88802},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2795, col: 14, offset: 88652},
+																								pos: position{line: 2796, col: 14, offset: 88802},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2795, col: 14, offset: 88652},
+																									pos:        position{line: 2796, col: 14, offset: 88802},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2795, col: 14, offset: 88652},
+																									pos: position{line: 2796, col: 14, offset: 88802},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2795, col: 14, offset: 88652},
+																										pos: position{line: 2796, col: 14, offset: 88802},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2795, col: 14, offset: 88652},
+																											pos:        position{line: 2796, col: 14, offset: 88802},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2920, col: 8, offset: 91831},
+							pos: position{line: 2921, col: 8, offset: 91981},
 							expr: &anyMatcher{
-								line: 2920, col: 9, offset: 91832,
+								line: 2921, col: 9, offset: 91982,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2795, col: 14, offset: 88652},
+																pos: position{line: 2796, col: 14, offset: 88802},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2795, col: 14, offset: 88652},
+																	pos: position{line: 2796, col: 14, offset: 88802},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2795, col: 14, offset: 88652},
+																		pos:        position{line: 2796, col: 14, offset: 88802},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2795, col: 14, offset: 88652},
+																pos: position{line: 2796, col: 14, offset: 88802},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2795, col: 14, offset: 88652},
+																	pos: position{line: 2796, col: 14, offset: 88802},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2795, col: 14, offset: 88652},
+																		pos:        position{line: 2796, col: 14, offset: 88802},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2923, col: 8, offset: 91881},
+							pos: position{line: 2924, col: 8, offset: 92031},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2910, col: 12, offset: 91654},
+									pos: position{line: 2911, col: 12, offset: 91804},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2910, col: 13, offset: 91655},
+										pos: position{line: 2911, col: 13, offset: 91805},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2910, col: 13, offset: 91655},
+												pos:        position{line: 2911, col: 13, offset: 91805},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2910, col: 20, offset: 91662},
+												pos:        position{line: 2911, col: 20, offset: 91812},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2910, col: 29, offset: 91671},
+												pos:        position{line: 2911, col: 29, offset: 91821},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2920, col: 8, offset: 91831},
+									pos: position{line: 2921, col: 8, offset: 91981},
 									expr: &anyMatcher{
-										line: 2920, col: 9, offset: 91832,
+										line: 2921, col: 9, offset: 91982,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2918, col: 11, offset: 91817},
+							pos: position{line: 2919, col: 11, offset: 91967},
 							expr: &anyMatcher{
-								line: 2918, col: 13, offset: 91819,
+								line: 2919, col: 13, offset: 91969,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2901, col: 10, offset: 91483},
+															pos: position{line: 2902, col: 10, offset: 91633},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2901, col: 10, offset: 91483},
+																pos:        position{line: 2902, col: 10, offset: 91633},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2923, col: 8, offset: 91881},
+														pos: position{line: 2924, col: 8, offset: 92031},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2910, col: 12, offset: 91654},
+																pos: position{line: 2911, col: 12, offset: 91804},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2910, col: 13, offset: 91655},
+																	pos: position{line: 2911, col: 13, offset: 91805},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 13, offset: 91655},
+																			pos:        position{line: 2911, col: 13, offset: 91805},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 20, offset: 91662},
+																			pos:        position{line: 2911, col: 20, offset: 91812},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 29, offset: 91671},
+																			pos:        position{line: 2911, col: 29, offset: 91821},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2920, col: 8, offset: 91831},
+																pos: position{line: 2921, col: 8, offset: 91981},
 																expr: &anyMatcher{
-																	line: 2920, col: 9, offset: 91832,
+																	line: 2921, col: 9, offset: 91982,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2901, col: 10, offset: 91483},
+															pos: position{line: 2902, col: 10, offset: 91633},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2901, col: 10, offset: 91483},
+																pos:        position{line: 2902, col: 10, offset: 91633},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2923, col: 8, offset: 91881},
+														pos: position{line: 2924, col: 8, offset: 92031},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2910, col: 12, offset: 91654},
+																pos: position{line: 2911, col: 12, offset: 91804},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2910, col: 13, offset: 91655},
+																	pos: position{line: 2911, col: 13, offset: 91805},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 13, offset: 91655},
+																			pos:        position{line: 2911, col: 13, offset: 91805},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 20, offset: 91662},
+																			pos:        position{line: 2911, col: 20, offset: 91812},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 29, offset: 91671},
+																			pos:        position{line: 2911, col: 29, offset: 91821},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2920, col: 8, offset: 91831},
+																pos: position{line: 2921, col: 8, offset: 91981},
 																expr: &anyMatcher{
-																	line: 2920, col: 9, offset: 91832,
+																	line: 2921, col: 9, offset: 91982,
 																},
 															},
 														},
@@ -4336,24 +4336,24 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 678, col: 14, offset: 21518},
+											pos: position{line: 678, col: 14, offset: 21586},
 											run: (*parser).callonDocumentFragment58,
 											expr: &seqExpr{
-												pos: position{line: 678, col: 14, offset: 21518},
+												pos: position{line: 678, col: 14, offset: 21586},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2918, col: 11, offset: 91817},
+														pos: position{line: 2919, col: 11, offset: 91967},
 														expr: &anyMatcher{
-															line: 2918, col: 13, offset: 91819,
+															line: 2919, col: 13, offset: 91969,
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 678, col: 21, offset: 21525},
+														pos: position{line: 678, col: 21, offset: 21593},
 														expr: &actionExpr{
-															pos: position{line: 2901, col: 10, offset: 91483},
+															pos: position{line: 2902, col: 10, offset: 91633},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2901, col: 10, offset: 91483},
+																pos:        position{line: 2902, col: 10, offset: 91633},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2923, col: 8, offset: 91881},
+														pos: position{line: 2924, col: 8, offset: 92031},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2910, col: 12, offset: 91654},
+																pos: position{line: 2911, col: 12, offset: 91804},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2910, col: 13, offset: 91655},
+																	pos: position{line: 2911, col: 13, offset: 91805},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 13, offset: 91655},
+																			pos:        position{line: 2911, col: 13, offset: 91805},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 20, offset: 91662},
+																			pos:        position{line: 2911, col: 20, offset: 91812},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 29, offset: 91671},
+																			pos:        position{line: 2911, col: 29, offset: 91821},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2920, col: 8, offset: 91831},
+																pos: position{line: 2921, col: 8, offset: 91981},
 																expr: &anyMatcher{
-																	line: 2920, col: 9, offset: 91832,
+																	line: 2921, col: 9, offset: 91982,
 																},
 															},
 														},
@@ -4411,36 +4411,36 @@ var g = &grammar{
 											name: "Section",
 										},
 										&actionExpr{
-											pos: position{line: 821, col: 5, offset: 26353},
+											pos: position{line: 821, col: 5, offset: 26421},
 											run: (*parser).callonDocumentFragment75,
 											expr: &seqExpr{
-												pos: position{line: 821, col: 5, offset: 26353},
+												pos: position{line: 821, col: 5, offset: 26421},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 741, col: 5, offset: 23613},
+														pos: position{line: 741, col: 5, offset: 23681},
 														run: (*parser).callonDocumentFragment77,
 														expr: &seqExpr{
-															pos: position{line: 741, col: 5, offset: 23613},
+															pos: position{line: 741, col: 5, offset: 23681},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 741, col: 5, offset: 23613},
+																	pos:   position{line: 741, col: 5, offset: 23681},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 741, col: 16, offset: 23624},
+																		pos: position{line: 741, col: 16, offset: 23692},
 																		run: (*parser).callonDocumentFragment80,
 																		expr: &seqExpr{
-																			pos: position{line: 741, col: 16, offset: 23624},
+																			pos: position{line: 741, col: 16, offset: 23692},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 741, col: 16, offset: 23624},
+																					pos:        position{line: 741, col: 16, offset: 23692},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 741, col: 23, offset: 23631},
+																					pos: position{line: 741, col: 23, offset: 23699},
 																					expr: &litMatcher{
-																						pos:        position{line: 741, col: 23, offset: 23631},
+																						pos:        position{line: 741, col: 23, offset: 23699},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -4451,12 +4451,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 743, col: 8, offset: 23715},
+																	pos: position{line: 743, col: 8, offset: 23783},
 																	expr: &actionExpr{
-																		pos: position{line: 2901, col: 10, offset: 91483},
+																		pos: position{line: 2902, col: 10, offset: 91633},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2901, col: 10, offset: 91483},
+																			pos:        position{line: 2902, col: 10, offset: 91633},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4465,28 +4465,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2923, col: 8, offset: 91881},
+																	pos: position{line: 2924, col: 8, offset: 92031},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2910, col: 12, offset: 91654},
+																			pos: position{line: 2911, col: 12, offset: 91804},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2910, col: 13, offset: 91655},
+																				pos: position{line: 2911, col: 13, offset: 91805},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91655},
+																						pos:        position{line: 2911, col: 13, offset: 91805},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 20, offset: 91662},
+																						pos:        position{line: 2911, col: 20, offset: 91812},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 29, offset: 91671},
+																						pos:        position{line: 2911, col: 29, offset: 91821},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4495,9 +4495,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2920, col: 8, offset: 91831},
+																			pos: position{line: 2921, col: 8, offset: 91981},
 																			expr: &anyMatcher{
-																				line: 2920, col: 9, offset: 91832,
+																				line: 2921, col: 9, offset: 91982,
 																			},
 																		},
 																	},
@@ -4506,46 +4506,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 822, col: 5, offset: 26384},
+														pos:   position{line: 822, col: 5, offset: 26452},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 832, col: 5, offset: 26670},
+															pos: position{line: 832, col: 5, offset: 26738},
 															expr: &actionExpr{
-																pos: position{line: 832, col: 6, offset: 26671},
+																pos: position{line: 832, col: 6, offset: 26739},
 																run: (*parser).callonDocumentFragment98,
 																expr: &seqExpr{
-																	pos: position{line: 832, col: 6, offset: 26671},
+																	pos: position{line: 832, col: 6, offset: 26739},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 832, col: 6, offset: 26671},
+																			pos: position{line: 832, col: 6, offset: 26739},
 																			expr: &choiceExpr{
-																				pos: position{line: 829, col: 29, offset: 26613},
+																				pos: position{line: 829, col: 29, offset: 26681},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 741, col: 5, offset: 23613},
+																						pos: position{line: 741, col: 5, offset: 23681},
 																						run: (*parser).callonDocumentFragment102,
 																						expr: &seqExpr{
-																							pos: position{line: 741, col: 5, offset: 23613},
+																							pos: position{line: 741, col: 5, offset: 23681},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 741, col: 5, offset: 23613},
+																									pos:   position{line: 741, col: 5, offset: 23681},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 741, col: 16, offset: 23624},
+																										pos: position{line: 741, col: 16, offset: 23692},
 																										run: (*parser).callonDocumentFragment105,
 																										expr: &seqExpr{
-																											pos: position{line: 741, col: 16, offset: 23624},
+																											pos: position{line: 741, col: 16, offset: 23692},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 741, col: 16, offset: 23624},
+																													pos:        position{line: 741, col: 16, offset: 23692},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 741, col: 23, offset: 23631},
+																													pos: position{line: 741, col: 23, offset: 23699},
 																													expr: &litMatcher{
-																														pos:        position{line: 741, col: 23, offset: 23631},
+																														pos:        position{line: 741, col: 23, offset: 23699},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -4556,12 +4556,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 743, col: 8, offset: 23715},
+																									pos: position{line: 743, col: 8, offset: 23783},
 																									expr: &actionExpr{
-																										pos: position{line: 2901, col: 10, offset: 91483},
+																										pos: position{line: 2902, col: 10, offset: 91633},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2901, col: 10, offset: 91483},
+																											pos:        position{line: 2902, col: 10, offset: 91633},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4570,28 +4570,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2923, col: 8, offset: 91881},
+																									pos: position{line: 2924, col: 8, offset: 92031},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2910, col: 12, offset: 91654},
+																											pos: position{line: 2911, col: 12, offset: 91804},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2910, col: 13, offset: 91655},
+																												pos: position{line: 2911, col: 13, offset: 91805},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 13, offset: 91655},
+																														pos:        position{line: 2911, col: 13, offset: 91805},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 20, offset: 91662},
+																														pos:        position{line: 2911, col: 20, offset: 91812},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 29, offset: 91671},
+																														pos:        position{line: 2911, col: 29, offset: 91821},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4600,9 +4600,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2920, col: 8, offset: 91831},
+																											pos: position{line: 2921, col: 8, offset: 91981},
 																											expr: &anyMatcher{
-																												line: 2920, col: 9, offset: 91832,
+																												line: 2921, col: 9, offset: 91982,
 																											},
 																										},
 																									},
@@ -4611,39 +4611,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2920, col: 8, offset: 91831},
+																						pos: position{line: 2921, col: 8, offset: 91981},
 																						expr: &anyMatcher{
-																							line: 2920, col: 9, offset: 91832,
+																							line: 2921, col: 9, offset: 91982,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 833, col: 5, offset: 26701},
+																			pos:   position{line: 833, col: 5, offset: 26769},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26117},
+																				pos: position{line: 812, col: 5, offset: 26185},
 																				run: (*parser).callonDocumentFragment124,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26117},
+																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2918, col: 11, offset: 91817},
+																							pos: position{line: 2919, col: 11, offset: 91967},
 																							expr: &anyMatcher{
-																								line: 2918, col: 13, offset: 91819,
+																								line: 2919, col: 13, offset: 91969,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26192},
+																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2847, col: 13, offset: 90009},
+																								pos: position{line: 2848, col: 13, offset: 90159},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2847, col: 13, offset: 90009},
+																									pos: position{line: 2848, col: 13, offset: 90159},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2847, col: 13, offset: 90009},
+																										pos:        position{line: 2848, col: 13, offset: 90159},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4653,28 +4653,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4683,9 +4683,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -4700,35 +4700,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 823, col: 5, offset: 26418},
+														pos: position{line: 823, col: 5, offset: 26486},
 														expr: &choiceExpr{
-															pos: position{line: 829, col: 29, offset: 26613},
+															pos: position{line: 829, col: 29, offset: 26681},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 741, col: 5, offset: 23613},
+																	pos: position{line: 741, col: 5, offset: 23681},
 																	run: (*parser).callonDocumentFragment142,
 																	expr: &seqExpr{
-																		pos: position{line: 741, col: 5, offset: 23613},
+																		pos: position{line: 741, col: 5, offset: 23681},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 741, col: 5, offset: 23613},
+																				pos:   position{line: 741, col: 5, offset: 23681},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 741, col: 16, offset: 23624},
+																					pos: position{line: 741, col: 16, offset: 23692},
 																					run: (*parser).callonDocumentFragment145,
 																					expr: &seqExpr{
-																						pos: position{line: 741, col: 16, offset: 23624},
+																						pos: position{line: 741, col: 16, offset: 23692},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 741, col: 16, offset: 23624},
+																								pos:        position{line: 741, col: 16, offset: 23692},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 741, col: 23, offset: 23631},
+																								pos: position{line: 741, col: 23, offset: 23699},
 																								expr: &litMatcher{
-																									pos:        position{line: 741, col: 23, offset: 23631},
+																									pos:        position{line: 741, col: 23, offset: 23699},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -4739,12 +4739,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 743, col: 8, offset: 23715},
+																				pos: position{line: 743, col: 8, offset: 23783},
 																				expr: &actionExpr{
-																					pos: position{line: 2901, col: 10, offset: 91483},
+																					pos: position{line: 2902, col: 10, offset: 91633},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2901, col: 10, offset: 91483},
+																						pos:        position{line: 2902, col: 10, offset: 91633},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4753,28 +4753,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2923, col: 8, offset: 91881},
+																				pos: position{line: 2924, col: 8, offset: 92031},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2910, col: 12, offset: 91654},
+																						pos: position{line: 2911, col: 12, offset: 91804},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2910, col: 13, offset: 91655},
+																							pos: position{line: 2911, col: 13, offset: 91805},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2910, col: 13, offset: 91655},
+																									pos:        position{line: 2911, col: 13, offset: 91805},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2910, col: 20, offset: 91662},
+																									pos:        position{line: 2911, col: 20, offset: 91812},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2910, col: 29, offset: 91671},
+																									pos:        position{line: 2911, col: 29, offset: 91821},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4783,9 +4783,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2920, col: 8, offset: 91831},
+																						pos: position{line: 2921, col: 8, offset: 91981},
 																						expr: &anyMatcher{
-																							line: 2920, col: 9, offset: 91832,
+																							line: 2921, col: 9, offset: 91982,
 																						},
 																					},
 																				},
@@ -4794,9 +4794,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2920, col: 8, offset: 91831},
+																	pos: position{line: 2921, col: 8, offset: 91981},
 																	expr: &anyMatcher{
-																		line: 2920, col: 9, offset: 91832,
+																		line: 2921, col: 9, offset: 91982,
 																	},
 																},
 															},
@@ -4806,39 +4806,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 841, col: 5, offset: 26854},
+											pos: position{line: 841, col: 5, offset: 26922},
 											run: (*parser).callonDocumentFragment163,
 											expr: &seqExpr{
-												pos: position{line: 841, col: 5, offset: 26854},
+												pos: position{line: 841, col: 5, offset: 26922},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 841, col: 5, offset: 26854},
+														pos:   position{line: 841, col: 5, offset: 26922},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 748, col: 5, offset: 23861},
+															pos: position{line: 748, col: 5, offset: 23929},
 															run: (*parser).callonDocumentFragment166,
 															expr: &seqExpr{
-																pos: position{line: 748, col: 5, offset: 23861},
+																pos: position{line: 748, col: 5, offset: 23929},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 748, col: 5, offset: 23861},
+																		pos:   position{line: 748, col: 5, offset: 23929},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 748, col: 16, offset: 23872},
+																			pos: position{line: 748, col: 16, offset: 23940},
 																			run: (*parser).callonDocumentFragment169,
 																			expr: &seqExpr{
-																				pos: position{line: 748, col: 16, offset: 23872},
+																				pos: position{line: 748, col: 16, offset: 23940},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 748, col: 16, offset: 23872},
+																						pos:        position{line: 748, col: 16, offset: 23940},
 																						val:        "====",
 																						ignoreCase: false,
 																						want:       "\"====\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 748, col: 23, offset: 23879},
+																						pos: position{line: 748, col: 23, offset: 23947},
 																						expr: &litMatcher{
-																							pos:        position{line: 748, col: 23, offset: 23879},
+																							pos:        position{line: 748, col: 23, offset: 23947},
 																							val:        "=",
 																							ignoreCase: false,
 																							want:       "\"=\"",
@@ -4849,12 +4849,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 750, col: 8, offset: 23963},
+																		pos: position{line: 750, col: 8, offset: 24031},
 																		expr: &actionExpr{
-																			pos: position{line: 2901, col: 10, offset: 91483},
+																			pos: position{line: 2902, col: 10, offset: 91633},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2901, col: 10, offset: 91483},
+																				pos:        position{line: 2902, col: 10, offset: 91633},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4863,28 +4863,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2923, col: 8, offset: 91881},
+																		pos: position{line: 2924, col: 8, offset: 92031},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2910, col: 12, offset: 91654},
+																				pos: position{line: 2911, col: 12, offset: 91804},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2910, col: 13, offset: 91655},
+																					pos: position{line: 2911, col: 13, offset: 91805},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 13, offset: 91655},
+																							pos:        position{line: 2911, col: 13, offset: 91805},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 20, offset: 91662},
+																							pos:        position{line: 2911, col: 20, offset: 91812},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 29, offset: 91671},
+																							pos:        position{line: 2911, col: 29, offset: 91821},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4893,9 +4893,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2920, col: 8, offset: 91831},
+																				pos: position{line: 2921, col: 8, offset: 91981},
 																				expr: &anyMatcher{
-																					line: 2920, col: 9, offset: 91832,
+																					line: 2921, col: 9, offset: 91982,
 																				},
 																			},
 																		},
@@ -4905,56 +4905,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 842, col: 5, offset: 26893},
+														pos: position{line: 842, col: 5, offset: 26961},
 														run: (*parser).callonDocumentFragment185,
 													},
 													&labeledExpr{
-														pos:   position{line: 845, col: 5, offset: 26985},
+														pos:   position{line: 845, col: 5, offset: 27053},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 860, col: 4, offset: 27382},
+															pos: position{line: 860, col: 4, offset: 27450},
 															expr: &actionExpr{
-																pos: position{line: 860, col: 5, offset: 27383},
+																pos: position{line: 860, col: 5, offset: 27451},
 																run: (*parser).callonDocumentFragment188,
 																expr: &seqExpr{
-																	pos: position{line: 860, col: 5, offset: 27383},
+																	pos: position{line: 860, col: 5, offset: 27451},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 860, col: 5, offset: 27383},
+																			pos: position{line: 860, col: 5, offset: 27451},
 																			expr: &choiceExpr{
-																				pos: position{line: 853, col: 5, offset: 27225},
+																				pos: position{line: 853, col: 5, offset: 27293},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 853, col: 5, offset: 27225},
+																						pos: position{line: 853, col: 5, offset: 27293},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 853, col: 5, offset: 27225},
+																								pos:   position{line: 853, col: 5, offset: 27293},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 748, col: 5, offset: 23861},
+																									pos: position{line: 748, col: 5, offset: 23929},
 																									run: (*parser).callonDocumentFragment194,
 																									expr: &seqExpr{
-																										pos: position{line: 748, col: 5, offset: 23861},
+																										pos: position{line: 748, col: 5, offset: 23929},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 748, col: 5, offset: 23861},
+																												pos:   position{line: 748, col: 5, offset: 23929},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 748, col: 16, offset: 23872},
+																													pos: position{line: 748, col: 16, offset: 23940},
 																													run: (*parser).callonDocumentFragment197,
 																													expr: &seqExpr{
-																														pos: position{line: 748, col: 16, offset: 23872},
+																														pos: position{line: 748, col: 16, offset: 23940},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 748, col: 16, offset: 23872},
+																																pos:        position{line: 748, col: 16, offset: 23940},
 																																val:        "====",
 																																ignoreCase: false,
 																																want:       "\"====\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 748, col: 23, offset: 23879},
+																																pos: position{line: 748, col: 23, offset: 23947},
 																																expr: &litMatcher{
-																																	pos:        position{line: 748, col: 23, offset: 23879},
+																																	pos:        position{line: 748, col: 23, offset: 23947},
 																																	val:        "=",
 																																	ignoreCase: false,
 																																	want:       "\"=\"",
@@ -4965,12 +4965,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 750, col: 8, offset: 23963},
+																												pos: position{line: 750, col: 8, offset: 24031},
 																												expr: &actionExpr{
-																													pos: position{line: 2901, col: 10, offset: 91483},
+																													pos: position{line: 2902, col: 10, offset: 91633},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2901, col: 10, offset: 91483},
+																														pos:        position{line: 2902, col: 10, offset: 91633},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4979,28 +4979,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2923, col: 8, offset: 91881},
+																												pos: position{line: 2924, col: 8, offset: 92031},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2910, col: 12, offset: 91654},
+																														pos: position{line: 2911, col: 12, offset: 91804},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2910, col: 13, offset: 91655},
+																															pos: position{line: 2911, col: 13, offset: 91805},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2910, col: 13, offset: 91655},
+																																	pos:        position{line: 2911, col: 13, offset: 91805},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2910, col: 20, offset: 91662},
+																																	pos:        position{line: 2911, col: 20, offset: 91812},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2910, col: 29, offset: 91671},
+																																	pos:        position{line: 2911, col: 29, offset: 91821},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5009,9 +5009,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2920, col: 8, offset: 91831},
+																														pos: position{line: 2921, col: 8, offset: 91981},
 																														expr: &anyMatcher{
-																															line: 2920, col: 9, offset: 91832,
+																															line: 2921, col: 9, offset: 91982,
 																														},
 																													},
 																												},
@@ -5021,45 +5021,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 854, col: 5, offset: 27256},
+																								pos: position{line: 854, col: 5, offset: 27324},
 																								run: (*parser).callonDocumentFragment213,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2920, col: 8, offset: 91831},
+																						pos: position{line: 2921, col: 8, offset: 91981},
 																						expr: &anyMatcher{
-																							line: 2920, col: 9, offset: 91832,
+																							line: 2921, col: 9, offset: 91982,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 861, col: 5, offset: 27413},
+																			pos:   position{line: 861, col: 5, offset: 27481},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26117},
+																				pos: position{line: 812, col: 5, offset: 26185},
 																				run: (*parser).callonDocumentFragment217,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26117},
+																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2918, col: 11, offset: 91817},
+																							pos: position{line: 2919, col: 11, offset: 91967},
 																							expr: &anyMatcher{
-																								line: 2918, col: 13, offset: 91819,
+																								line: 2919, col: 13, offset: 91969,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26192},
+																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2847, col: 13, offset: 90009},
+																								pos: position{line: 2848, col: 13, offset: 90159},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2847, col: 13, offset: 90009},
+																									pos: position{line: 2848, col: 13, offset: 90159},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2847, col: 13, offset: 90009},
+																										pos:        position{line: 2848, col: 13, offset: 90159},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5069,28 +5069,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5099,9 +5099,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -5116,44 +5116,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 846, col: 5, offset: 27019},
+														pos:   position{line: 846, col: 5, offset: 27087},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 846, col: 9, offset: 27023},
+															pos: position{line: 846, col: 9, offset: 27091},
 															expr: &choiceExpr{
-																pos: position{line: 853, col: 5, offset: 27225},
+																pos: position{line: 853, col: 5, offset: 27293},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 853, col: 5, offset: 27225},
+																		pos: position{line: 853, col: 5, offset: 27293},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 853, col: 5, offset: 27225},
+																				pos:   position{line: 853, col: 5, offset: 27293},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 748, col: 5, offset: 23861},
+																					pos: position{line: 748, col: 5, offset: 23929},
 																					run: (*parser).callonDocumentFragment238,
 																					expr: &seqExpr{
-																						pos: position{line: 748, col: 5, offset: 23861},
+																						pos: position{line: 748, col: 5, offset: 23929},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 748, col: 5, offset: 23861},
+																								pos:   position{line: 748, col: 5, offset: 23929},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 748, col: 16, offset: 23872},
+																									pos: position{line: 748, col: 16, offset: 23940},
 																									run: (*parser).callonDocumentFragment241,
 																									expr: &seqExpr{
-																										pos: position{line: 748, col: 16, offset: 23872},
+																										pos: position{line: 748, col: 16, offset: 23940},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 748, col: 16, offset: 23872},
+																												pos:        position{line: 748, col: 16, offset: 23940},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 748, col: 23, offset: 23879},
+																												pos: position{line: 748, col: 23, offset: 23947},
 																												expr: &litMatcher{
-																													pos:        position{line: 748, col: 23, offset: 23879},
+																													pos:        position{line: 748, col: 23, offset: 23947},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -5164,12 +5164,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 750, col: 8, offset: 23963},
+																								pos: position{line: 750, col: 8, offset: 24031},
 																								expr: &actionExpr{
-																									pos: position{line: 2901, col: 10, offset: 91483},
+																									pos: position{line: 2902, col: 10, offset: 91633},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2901, col: 10, offset: 91483},
+																										pos:        position{line: 2902, col: 10, offset: 91633},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5178,28 +5178,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2923, col: 8, offset: 91881},
+																								pos: position{line: 2924, col: 8, offset: 92031},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2910, col: 12, offset: 91654},
+																										pos: position{line: 2911, col: 12, offset: 91804},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2910, col: 13, offset: 91655},
+																											pos: position{line: 2911, col: 13, offset: 91805},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 13, offset: 91655},
+																													pos:        position{line: 2911, col: 13, offset: 91805},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 20, offset: 91662},
+																													pos:        position{line: 2911, col: 20, offset: 91812},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 29, offset: 91671},
+																													pos:        position{line: 2911, col: 29, offset: 91821},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5208,9 +5208,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2920, col: 8, offset: 91831},
+																										pos: position{line: 2921, col: 8, offset: 91981},
 																										expr: &anyMatcher{
-																											line: 2920, col: 9, offset: 91832,
+																											line: 2921, col: 9, offset: 91982,
 																										},
 																									},
 																								},
@@ -5220,15 +5220,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 854, col: 5, offset: 27256},
+																				pos: position{line: 854, col: 5, offset: 27324},
 																				run: (*parser).callonDocumentFragment257,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2920, col: 8, offset: 91831},
+																		pos: position{line: 2921, col: 8, offset: 91981},
 																		expr: &anyMatcher{
-																			line: 2920, col: 9, offset: 91832,
+																			line: 2921, col: 9, offset: 91982,
 																		},
 																	},
 																},
@@ -5239,36 +5239,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 953, col: 5, offset: 29705},
+											pos: position{line: 953, col: 5, offset: 29773},
 											run: (*parser).callonDocumentFragment260,
 											expr: &seqExpr{
-												pos: position{line: 953, col: 5, offset: 29705},
+												pos: position{line: 953, col: 5, offset: 29773},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 953, col: 5, offset: 29705},
+														pos:   position{line: 953, col: 5, offset: 29773},
 														label: "delimiter",
 														expr: &actionExpr{
-															pos: position{line: 761, col: 26, offset: 24349},
+															pos: position{line: 761, col: 26, offset: 24417},
 															run: (*parser).callonDocumentFragment263,
 															expr: &seqExpr{
-																pos: position{line: 761, col: 26, offset: 24349},
+																pos: position{line: 761, col: 26, offset: 24417},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 761, col: 26, offset: 24349},
+																		pos:        position{line: 761, col: 26, offset: 24417},
 																		val:        "```",
 																		ignoreCase: false,
 																		want:       "\"```\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 761, col: 32, offset: 24355},
+																		pos:   position{line: 761, col: 32, offset: 24423},
 																		label: "language",
 																		expr: &actionExpr{
-																			pos: position{line: 765, col: 13, offset: 24485},
+																			pos: position{line: 765, col: 13, offset: 24553},
 																			run: (*parser).callonDocumentFragment267,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 765, col: 14, offset: 24486},
+																				pos: position{line: 765, col: 14, offset: 24554},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 765, col: 14, offset: 24486},
+																					pos:        position{line: 765, col: 14, offset: 24554},
 																					val:        "[^\\r\\n` ]",
 																					chars:      []rune{'\r', '\n', '`', ' '},
 																					ignoreCase: false,
@@ -5278,12 +5278,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 761, col: 52, offset: 24375},
+																		pos: position{line: 761, col: 52, offset: 24443},
 																		expr: &actionExpr{
-																			pos: position{line: 2901, col: 10, offset: 91483},
+																			pos: position{line: 2902, col: 10, offset: 91633},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2901, col: 10, offset: 91483},
+																				pos:        position{line: 2902, col: 10, offset: 91633},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5292,28 +5292,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2923, col: 8, offset: 91881},
+																		pos: position{line: 2924, col: 8, offset: 92031},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2910, col: 12, offset: 91654},
+																				pos: position{line: 2911, col: 12, offset: 91804},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2910, col: 13, offset: 91655},
+																					pos: position{line: 2911, col: 13, offset: 91805},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 13, offset: 91655},
+																							pos:        position{line: 2911, col: 13, offset: 91805},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 20, offset: 91662},
+																							pos:        position{line: 2911, col: 20, offset: 91812},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 29, offset: 91671},
+																							pos:        position{line: 2911, col: 29, offset: 91821},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5322,9 +5322,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2920, col: 8, offset: 91831},
+																				pos: position{line: 2921, col: 8, offset: 91981},
 																				expr: &anyMatcher{
-																					line: 2920, col: 9, offset: 91832,
+																					line: 2921, col: 9, offset: 91982,
 																				},
 																			},
 																		},
@@ -5334,34 +5334,34 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 954, col: 5, offset: 29751},
+														pos:   position{line: 954, col: 5, offset: 29819},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 967, col: 5, offset: 30224},
+															pos: position{line: 967, col: 5, offset: 30292},
 															expr: &actionExpr{
-																pos: position{line: 967, col: 6, offset: 30225},
+																pos: position{line: 967, col: 6, offset: 30293},
 																run: (*parser).callonDocumentFragment283,
 																expr: &seqExpr{
-																	pos: position{line: 967, col: 6, offset: 30225},
+																	pos: position{line: 967, col: 6, offset: 30293},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 967, col: 6, offset: 30225},
+																			pos: position{line: 967, col: 6, offset: 30293},
 																			expr: &seqExpr{
-																				pos: position{line: 964, col: 34, offset: 30172},
+																				pos: position{line: 964, col: 34, offset: 30240},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 964, col: 34, offset: 30172},
+																						pos:        position{line: 964, col: 34, offset: 30240},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 964, col: 40, offset: 30178},
+																						pos: position{line: 964, col: 40, offset: 30246},
 																						expr: &actionExpr{
-																							pos: position{line: 2901, col: 10, offset: 91483},
+																							pos: position{line: 2902, col: 10, offset: 91633},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2901, col: 10, offset: 91483},
+																								pos:        position{line: 2902, col: 10, offset: 91633},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5370,28 +5370,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2923, col: 8, offset: 91881},
+																						pos: position{line: 2924, col: 8, offset: 92031},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2910, col: 12, offset: 91654},
+																								pos: position{line: 2911, col: 12, offset: 91804},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2910, col: 13, offset: 91655},
+																									pos: position{line: 2911, col: 13, offset: 91805},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 13, offset: 91655},
+																											pos:        position{line: 2911, col: 13, offset: 91805},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 20, offset: 91662},
+																											pos:        position{line: 2911, col: 20, offset: 91812},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 29, offset: 91671},
+																											pos:        position{line: 2911, col: 29, offset: 91821},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5400,9 +5400,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 8, offset: 91831},
+																								pos: position{line: 2921, col: 8, offset: 91981},
 																								expr: &anyMatcher{
-																									line: 2920, col: 9, offset: 91832,
+																									line: 2921, col: 9, offset: 91982,
 																								},
 																							},
 																						},
@@ -5411,30 +5411,30 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 968, col: 5, offset: 30260},
+																			pos:   position{line: 968, col: 5, offset: 30328},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26117},
+																				pos: position{line: 812, col: 5, offset: 26185},
 																				run: (*parser).callonDocumentFragment300,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26117},
+																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2918, col: 11, offset: 91817},
+																							pos: position{line: 2919, col: 11, offset: 91967},
 																							expr: &anyMatcher{
-																								line: 2918, col: 13, offset: 91819,
+																								line: 2919, col: 13, offset: 91969,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26192},
+																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2847, col: 13, offset: 90009},
+																								pos: position{line: 2848, col: 13, offset: 90159},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2847, col: 13, offset: 90009},
+																									pos: position{line: 2848, col: 13, offset: 90159},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2847, col: 13, offset: 90009},
+																										pos:        position{line: 2848, col: 13, offset: 90159},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5444,28 +5444,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5474,9 +5474,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -5491,23 +5491,23 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 955, col: 5, offset: 29790},
+														pos: position{line: 955, col: 5, offset: 29858},
 														expr: &seqExpr{
-															pos: position{line: 964, col: 34, offset: 30172},
+															pos: position{line: 964, col: 34, offset: 30240},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 964, col: 34, offset: 30172},
+																	pos:        position{line: 964, col: 34, offset: 30240},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 964, col: 40, offset: 30178},
+																	pos: position{line: 964, col: 40, offset: 30246},
 																	expr: &actionExpr{
-																		pos: position{line: 2901, col: 10, offset: 91483},
+																		pos: position{line: 2902, col: 10, offset: 91633},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2901, col: 10, offset: 91483},
+																			pos:        position{line: 2902, col: 10, offset: 91633},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5516,28 +5516,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2923, col: 8, offset: 91881},
+																	pos: position{line: 2924, col: 8, offset: 92031},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2910, col: 12, offset: 91654},
+																			pos: position{line: 2911, col: 12, offset: 91804},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2910, col: 13, offset: 91655},
+																				pos: position{line: 2911, col: 13, offset: 91805},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91655},
+																						pos:        position{line: 2911, col: 13, offset: 91805},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 20, offset: 91662},
+																						pos:        position{line: 2911, col: 20, offset: 91812},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 29, offset: 91671},
+																						pos:        position{line: 2911, col: 29, offset: 91821},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5546,9 +5546,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2920, col: 8, offset: 91831},
+																			pos: position{line: 2921, col: 8, offset: 91981},
 																			expr: &anyMatcher{
-																				line: 2920, col: 9, offset: 91832,
+																				line: 2921, col: 9, offset: 91982,
 																			},
 																		},
 																	},
@@ -5560,39 +5560,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 869, col: 5, offset: 27566},
+											pos: position{line: 869, col: 5, offset: 27634},
 											run: (*parser).callonDocumentFragment330,
 											expr: &seqExpr{
-												pos: position{line: 869, col: 5, offset: 27566},
+												pos: position{line: 869, col: 5, offset: 27634},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 869, col: 5, offset: 27566},
+														pos:   position{line: 869, col: 5, offset: 27634},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 755, col: 5, offset: 24108},
+															pos: position{line: 755, col: 5, offset: 24176},
 															run: (*parser).callonDocumentFragment333,
 															expr: &seqExpr{
-																pos: position{line: 755, col: 5, offset: 24108},
+																pos: position{line: 755, col: 5, offset: 24176},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 755, col: 5, offset: 24108},
+																		pos:   position{line: 755, col: 5, offset: 24176},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 755, col: 16, offset: 24119},
+																			pos: position{line: 755, col: 16, offset: 24187},
 																			run: (*parser).callonDocumentFragment336,
 																			expr: &seqExpr{
-																				pos: position{line: 755, col: 16, offset: 24119},
+																				pos: position{line: 755, col: 16, offset: 24187},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 755, col: 16, offset: 24119},
+																						pos:        position{line: 755, col: 16, offset: 24187},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 755, col: 22, offset: 24125},
+																						pos: position{line: 755, col: 22, offset: 24193},
 																						expr: &litMatcher{
-																							pos:        position{line: 755, col: 22, offset: 24125},
+																							pos:        position{line: 755, col: 22, offset: 24193},
 																							val:        "`",
 																							ignoreCase: false,
 																							want:       "\"`\"",
@@ -5603,12 +5603,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 757, col: 8, offset: 24209},
+																		pos: position{line: 757, col: 8, offset: 24277},
 																		expr: &actionExpr{
-																			pos: position{line: 2901, col: 10, offset: 91483},
+																			pos: position{line: 2902, col: 10, offset: 91633},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2901, col: 10, offset: 91483},
+																				pos:        position{line: 2902, col: 10, offset: 91633},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5617,28 +5617,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2923, col: 8, offset: 91881},
+																		pos: position{line: 2924, col: 8, offset: 92031},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2910, col: 12, offset: 91654},
+																				pos: position{line: 2911, col: 12, offset: 91804},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2910, col: 13, offset: 91655},
+																					pos: position{line: 2911, col: 13, offset: 91805},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 13, offset: 91655},
+																							pos:        position{line: 2911, col: 13, offset: 91805},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 20, offset: 91662},
+																							pos:        position{line: 2911, col: 20, offset: 91812},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 29, offset: 91671},
+																							pos:        position{line: 2911, col: 29, offset: 91821},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5647,9 +5647,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2920, col: 8, offset: 91831},
+																				pos: position{line: 2921, col: 8, offset: 91981},
 																				expr: &anyMatcher{
-																					line: 2920, col: 9, offset: 91832,
+																					line: 2921, col: 9, offset: 91982,
 																				},
 																			},
 																		},
@@ -5659,56 +5659,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 870, col: 5, offset: 27604},
+														pos: position{line: 870, col: 5, offset: 27672},
 														run: (*parser).callonDocumentFragment352,
 													},
 													&labeledExpr{
-														pos:   position{line: 873, col: 5, offset: 27696},
+														pos:   position{line: 873, col: 5, offset: 27764},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 888, col: 5, offset: 28086},
+															pos: position{line: 888, col: 5, offset: 28154},
 															expr: &actionExpr{
-																pos: position{line: 888, col: 6, offset: 28087},
+																pos: position{line: 888, col: 6, offset: 28155},
 																run: (*parser).callonDocumentFragment355,
 																expr: &seqExpr{
-																	pos: position{line: 888, col: 6, offset: 28087},
+																	pos: position{line: 888, col: 6, offset: 28155},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 888, col: 6, offset: 28087},
+																			pos: position{line: 888, col: 6, offset: 28155},
 																			expr: &choiceExpr{
-																				pos: position{line: 881, col: 5, offset: 27930},
+																				pos: position{line: 881, col: 5, offset: 27998},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 881, col: 5, offset: 27930},
+																						pos: position{line: 881, col: 5, offset: 27998},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 881, col: 5, offset: 27930},
+																								pos:   position{line: 881, col: 5, offset: 27998},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 755, col: 5, offset: 24108},
+																									pos: position{line: 755, col: 5, offset: 24176},
 																									run: (*parser).callonDocumentFragment361,
 																									expr: &seqExpr{
-																										pos: position{line: 755, col: 5, offset: 24108},
+																										pos: position{line: 755, col: 5, offset: 24176},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 755, col: 5, offset: 24108},
+																												pos:   position{line: 755, col: 5, offset: 24176},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 755, col: 16, offset: 24119},
+																													pos: position{line: 755, col: 16, offset: 24187},
 																													run: (*parser).callonDocumentFragment364,
 																													expr: &seqExpr{
-																														pos: position{line: 755, col: 16, offset: 24119},
+																														pos: position{line: 755, col: 16, offset: 24187},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 755, col: 16, offset: 24119},
+																																pos:        position{line: 755, col: 16, offset: 24187},
 																																val:        "```",
 																																ignoreCase: false,
 																																want:       "\"```\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 755, col: 22, offset: 24125},
+																																pos: position{line: 755, col: 22, offset: 24193},
 																																expr: &litMatcher{
-																																	pos:        position{line: 755, col: 22, offset: 24125},
+																																	pos:        position{line: 755, col: 22, offset: 24193},
 																																	val:        "`",
 																																	ignoreCase: false,
 																																	want:       "\"`\"",
@@ -5719,12 +5719,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 757, col: 8, offset: 24209},
+																												pos: position{line: 757, col: 8, offset: 24277},
 																												expr: &actionExpr{
-																													pos: position{line: 2901, col: 10, offset: 91483},
+																													pos: position{line: 2902, col: 10, offset: 91633},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2901, col: 10, offset: 91483},
+																														pos:        position{line: 2902, col: 10, offset: 91633},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5733,28 +5733,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2923, col: 8, offset: 91881},
+																												pos: position{line: 2924, col: 8, offset: 92031},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2910, col: 12, offset: 91654},
+																														pos: position{line: 2911, col: 12, offset: 91804},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2910, col: 13, offset: 91655},
+																															pos: position{line: 2911, col: 13, offset: 91805},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2910, col: 13, offset: 91655},
+																																	pos:        position{line: 2911, col: 13, offset: 91805},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2910, col: 20, offset: 91662},
+																																	pos:        position{line: 2911, col: 20, offset: 91812},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2910, col: 29, offset: 91671},
+																																	pos:        position{line: 2911, col: 29, offset: 91821},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5763,9 +5763,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2920, col: 8, offset: 91831},
+																														pos: position{line: 2921, col: 8, offset: 91981},
 																														expr: &anyMatcher{
-																															line: 2920, col: 9, offset: 91832,
+																															line: 2921, col: 9, offset: 91982,
 																														},
 																													},
 																												},
@@ -5775,45 +5775,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 882, col: 5, offset: 27960},
+																								pos: position{line: 882, col: 5, offset: 28028},
 																								run: (*parser).callonDocumentFragment380,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2920, col: 8, offset: 91831},
+																						pos: position{line: 2921, col: 8, offset: 91981},
 																						expr: &anyMatcher{
-																							line: 2920, col: 9, offset: 91832,
+																							line: 2921, col: 9, offset: 91982,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 889, col: 5, offset: 28116},
+																			pos:   position{line: 889, col: 5, offset: 28184},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26117},
+																				pos: position{line: 812, col: 5, offset: 26185},
 																				run: (*parser).callonDocumentFragment384,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26117},
+																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2918, col: 11, offset: 91817},
+																							pos: position{line: 2919, col: 11, offset: 91967},
 																							expr: &anyMatcher{
-																								line: 2918, col: 13, offset: 91819,
+																								line: 2919, col: 13, offset: 91969,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26192},
+																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2847, col: 13, offset: 90009},
+																								pos: position{line: 2848, col: 13, offset: 90159},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2847, col: 13, offset: 90009},
+																									pos: position{line: 2848, col: 13, offset: 90159},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2847, col: 13, offset: 90009},
+																										pos:        position{line: 2848, col: 13, offset: 90159},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5823,28 +5823,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5853,9 +5853,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -5870,44 +5870,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 874, col: 5, offset: 27729},
+														pos:   position{line: 874, col: 5, offset: 27797},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 874, col: 9, offset: 27733},
+															pos: position{line: 874, col: 9, offset: 27801},
 															expr: &choiceExpr{
-																pos: position{line: 881, col: 5, offset: 27930},
+																pos: position{line: 881, col: 5, offset: 27998},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 881, col: 5, offset: 27930},
+																		pos: position{line: 881, col: 5, offset: 27998},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 881, col: 5, offset: 27930},
+																				pos:   position{line: 881, col: 5, offset: 27998},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 755, col: 5, offset: 24108},
+																					pos: position{line: 755, col: 5, offset: 24176},
 																					run: (*parser).callonDocumentFragment405,
 																					expr: &seqExpr{
-																						pos: position{line: 755, col: 5, offset: 24108},
+																						pos: position{line: 755, col: 5, offset: 24176},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 755, col: 5, offset: 24108},
+																								pos:   position{line: 755, col: 5, offset: 24176},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 755, col: 16, offset: 24119},
+																									pos: position{line: 755, col: 16, offset: 24187},
 																									run: (*parser).callonDocumentFragment408,
 																									expr: &seqExpr{
-																										pos: position{line: 755, col: 16, offset: 24119},
+																										pos: position{line: 755, col: 16, offset: 24187},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 755, col: 16, offset: 24119},
+																												pos:        position{line: 755, col: 16, offset: 24187},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 755, col: 22, offset: 24125},
+																												pos: position{line: 755, col: 22, offset: 24193},
 																												expr: &litMatcher{
-																													pos:        position{line: 755, col: 22, offset: 24125},
+																													pos:        position{line: 755, col: 22, offset: 24193},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -5918,12 +5918,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 757, col: 8, offset: 24209},
+																								pos: position{line: 757, col: 8, offset: 24277},
 																								expr: &actionExpr{
-																									pos: position{line: 2901, col: 10, offset: 91483},
+																									pos: position{line: 2902, col: 10, offset: 91633},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2901, col: 10, offset: 91483},
+																										pos:        position{line: 2902, col: 10, offset: 91633},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5932,28 +5932,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2923, col: 8, offset: 91881},
+																								pos: position{line: 2924, col: 8, offset: 92031},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2910, col: 12, offset: 91654},
+																										pos: position{line: 2911, col: 12, offset: 91804},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2910, col: 13, offset: 91655},
+																											pos: position{line: 2911, col: 13, offset: 91805},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 13, offset: 91655},
+																													pos:        position{line: 2911, col: 13, offset: 91805},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 20, offset: 91662},
+																													pos:        position{line: 2911, col: 20, offset: 91812},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 29, offset: 91671},
+																													pos:        position{line: 2911, col: 29, offset: 91821},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5962,9 +5962,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2920, col: 8, offset: 91831},
+																										pos: position{line: 2921, col: 8, offset: 91981},
 																										expr: &anyMatcher{
-																											line: 2920, col: 9, offset: 91832,
+																											line: 2921, col: 9, offset: 91982,
 																										},
 																									},
 																								},
@@ -5974,15 +5974,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 882, col: 5, offset: 27960},
+																				pos: position{line: 882, col: 5, offset: 28028},
 																				run: (*parser).callonDocumentFragment424,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2920, col: 8, offset: 91831},
+																		pos: position{line: 2921, col: 8, offset: 91981},
 																		expr: &anyMatcher{
-																			line: 2920, col: 9, offset: 91832,
+																			line: 2921, col: 9, offset: 91982,
 																		},
 																	},
 																},
@@ -5993,39 +5993,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 897, col: 5, offset: 28271},
+											pos: position{line: 897, col: 5, offset: 28339},
 											run: (*parser).callonDocumentFragment427,
 											expr: &seqExpr{
-												pos: position{line: 897, col: 5, offset: 28271},
+												pos: position{line: 897, col: 5, offset: 28339},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 897, col: 5, offset: 28271},
+														pos:   position{line: 897, col: 5, offset: 28339},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 770, col: 5, offset: 24645},
+															pos: position{line: 770, col: 5, offset: 24713},
 															run: (*parser).callonDocumentFragment430,
 															expr: &seqExpr{
-																pos: position{line: 770, col: 5, offset: 24645},
+																pos: position{line: 770, col: 5, offset: 24713},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 770, col: 5, offset: 24645},
+																		pos:   position{line: 770, col: 5, offset: 24713},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 770, col: 16, offset: 24656},
+																			pos: position{line: 770, col: 16, offset: 24724},
 																			run: (*parser).callonDocumentFragment433,
 																			expr: &seqExpr{
-																				pos: position{line: 770, col: 16, offset: 24656},
+																				pos: position{line: 770, col: 16, offset: 24724},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 770, col: 16, offset: 24656},
+																						pos:        position{line: 770, col: 16, offset: 24724},
 																						val:        "----",
 																						ignoreCase: false,
 																						want:       "\"----\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 770, col: 23, offset: 24663},
+																						pos: position{line: 770, col: 23, offset: 24731},
 																						expr: &litMatcher{
-																							pos:        position{line: 770, col: 23, offset: 24663},
+																							pos:        position{line: 770, col: 23, offset: 24731},
 																							val:        "-",
 																							ignoreCase: false,
 																							want:       "\"-\"",
@@ -6036,12 +6036,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 772, col: 8, offset: 24747},
+																		pos: position{line: 772, col: 8, offset: 24815},
 																		expr: &actionExpr{
-																			pos: position{line: 2901, col: 10, offset: 91483},
+																			pos: position{line: 2902, col: 10, offset: 91633},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2901, col: 10, offset: 91483},
+																				pos:        position{line: 2902, col: 10, offset: 91633},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6050,28 +6050,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2923, col: 8, offset: 91881},
+																		pos: position{line: 2924, col: 8, offset: 92031},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2910, col: 12, offset: 91654},
+																				pos: position{line: 2911, col: 12, offset: 91804},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2910, col: 13, offset: 91655},
+																					pos: position{line: 2911, col: 13, offset: 91805},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 13, offset: 91655},
+																							pos:        position{line: 2911, col: 13, offset: 91805},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 20, offset: 91662},
+																							pos:        position{line: 2911, col: 20, offset: 91812},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 29, offset: 91671},
+																							pos:        position{line: 2911, col: 29, offset: 91821},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6080,9 +6080,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2920, col: 8, offset: 91831},
+																				pos: position{line: 2921, col: 8, offset: 91981},
 																				expr: &anyMatcher{
-																					line: 2920, col: 9, offset: 91832,
+																					line: 2921, col: 9, offset: 91982,
 																				},
 																			},
 																		},
@@ -6092,56 +6092,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 898, col: 5, offset: 28310},
+														pos: position{line: 898, col: 5, offset: 28378},
 														run: (*parser).callonDocumentFragment449,
 													},
 													&labeledExpr{
-														pos:   position{line: 901, col: 5, offset: 28402},
+														pos:   position{line: 901, col: 5, offset: 28470},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 916, col: 5, offset: 28800},
+															pos: position{line: 916, col: 5, offset: 28868},
 															expr: &actionExpr{
-																pos: position{line: 916, col: 6, offset: 28801},
+																pos: position{line: 916, col: 6, offset: 28869},
 																run: (*parser).callonDocumentFragment452,
 																expr: &seqExpr{
-																	pos: position{line: 916, col: 6, offset: 28801},
+																	pos: position{line: 916, col: 6, offset: 28869},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 916, col: 6, offset: 28801},
+																			pos: position{line: 916, col: 6, offset: 28869},
 																			expr: &choiceExpr{
-																				pos: position{line: 909, col: 5, offset: 28642},
+																				pos: position{line: 909, col: 5, offset: 28710},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 909, col: 5, offset: 28642},
+																						pos: position{line: 909, col: 5, offset: 28710},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 909, col: 5, offset: 28642},
+																								pos:   position{line: 909, col: 5, offset: 28710},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 770, col: 5, offset: 24645},
+																									pos: position{line: 770, col: 5, offset: 24713},
 																									run: (*parser).callonDocumentFragment458,
 																									expr: &seqExpr{
-																										pos: position{line: 770, col: 5, offset: 24645},
+																										pos: position{line: 770, col: 5, offset: 24713},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 770, col: 5, offset: 24645},
+																												pos:   position{line: 770, col: 5, offset: 24713},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 770, col: 16, offset: 24656},
+																													pos: position{line: 770, col: 16, offset: 24724},
 																													run: (*parser).callonDocumentFragment461,
 																													expr: &seqExpr{
-																														pos: position{line: 770, col: 16, offset: 24656},
+																														pos: position{line: 770, col: 16, offset: 24724},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 770, col: 16, offset: 24656},
+																																pos:        position{line: 770, col: 16, offset: 24724},
 																																val:        "----",
 																																ignoreCase: false,
 																																want:       "\"----\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 770, col: 23, offset: 24663},
+																																pos: position{line: 770, col: 23, offset: 24731},
 																																expr: &litMatcher{
-																																	pos:        position{line: 770, col: 23, offset: 24663},
+																																	pos:        position{line: 770, col: 23, offset: 24731},
 																																	val:        "-",
 																																	ignoreCase: false,
 																																	want:       "\"-\"",
@@ -6152,12 +6152,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 772, col: 8, offset: 24747},
+																												pos: position{line: 772, col: 8, offset: 24815},
 																												expr: &actionExpr{
-																													pos: position{line: 2901, col: 10, offset: 91483},
+																													pos: position{line: 2902, col: 10, offset: 91633},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2901, col: 10, offset: 91483},
+																														pos:        position{line: 2902, col: 10, offset: 91633},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6166,28 +6166,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2923, col: 8, offset: 91881},
+																												pos: position{line: 2924, col: 8, offset: 92031},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2910, col: 12, offset: 91654},
+																														pos: position{line: 2911, col: 12, offset: 91804},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2910, col: 13, offset: 91655},
+																															pos: position{line: 2911, col: 13, offset: 91805},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2910, col: 13, offset: 91655},
+																																	pos:        position{line: 2911, col: 13, offset: 91805},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2910, col: 20, offset: 91662},
+																																	pos:        position{line: 2911, col: 20, offset: 91812},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2910, col: 29, offset: 91671},
+																																	pos:        position{line: 2911, col: 29, offset: 91821},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6196,9 +6196,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2920, col: 8, offset: 91831},
+																														pos: position{line: 2921, col: 8, offset: 91981},
 																														expr: &anyMatcher{
-																															line: 2920, col: 9, offset: 91832,
+																															line: 2921, col: 9, offset: 91982,
 																														},
 																													},
 																												},
@@ -6208,45 +6208,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 910, col: 5, offset: 28673},
+																								pos: position{line: 910, col: 5, offset: 28741},
 																								run: (*parser).callonDocumentFragment477,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2920, col: 8, offset: 91831},
+																						pos: position{line: 2921, col: 8, offset: 91981},
 																						expr: &anyMatcher{
-																							line: 2920, col: 9, offset: 91832,
+																							line: 2921, col: 9, offset: 91982,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 917, col: 5, offset: 28831},
+																			pos:   position{line: 917, col: 5, offset: 28899},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26117},
+																				pos: position{line: 812, col: 5, offset: 26185},
 																				run: (*parser).callonDocumentFragment481,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26117},
+																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2918, col: 11, offset: 91817},
+																							pos: position{line: 2919, col: 11, offset: 91967},
 																							expr: &anyMatcher{
-																								line: 2918, col: 13, offset: 91819,
+																								line: 2919, col: 13, offset: 91969,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26192},
+																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2847, col: 13, offset: 90009},
+																								pos: position{line: 2848, col: 13, offset: 90159},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2847, col: 13, offset: 90009},
+																									pos: position{line: 2848, col: 13, offset: 90159},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2847, col: 13, offset: 90009},
+																										pos:        position{line: 2848, col: 13, offset: 90159},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6256,28 +6256,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6286,9 +6286,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -6303,44 +6303,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 902, col: 5, offset: 28436},
+														pos:   position{line: 902, col: 5, offset: 28504},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 902, col: 9, offset: 28440},
+															pos: position{line: 902, col: 9, offset: 28508},
 															expr: &choiceExpr{
-																pos: position{line: 909, col: 5, offset: 28642},
+																pos: position{line: 909, col: 5, offset: 28710},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 909, col: 5, offset: 28642},
+																		pos: position{line: 909, col: 5, offset: 28710},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 909, col: 5, offset: 28642},
+																				pos:   position{line: 909, col: 5, offset: 28710},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 770, col: 5, offset: 24645},
+																					pos: position{line: 770, col: 5, offset: 24713},
 																					run: (*parser).callonDocumentFragment502,
 																					expr: &seqExpr{
-																						pos: position{line: 770, col: 5, offset: 24645},
+																						pos: position{line: 770, col: 5, offset: 24713},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 770, col: 5, offset: 24645},
+																								pos:   position{line: 770, col: 5, offset: 24713},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 770, col: 16, offset: 24656},
+																									pos: position{line: 770, col: 16, offset: 24724},
 																									run: (*parser).callonDocumentFragment505,
 																									expr: &seqExpr{
-																										pos: position{line: 770, col: 16, offset: 24656},
+																										pos: position{line: 770, col: 16, offset: 24724},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 770, col: 16, offset: 24656},
+																												pos:        position{line: 770, col: 16, offset: 24724},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 770, col: 23, offset: 24663},
+																												pos: position{line: 770, col: 23, offset: 24731},
 																												expr: &litMatcher{
-																													pos:        position{line: 770, col: 23, offset: 24663},
+																													pos:        position{line: 770, col: 23, offset: 24731},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -6351,12 +6351,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 772, col: 8, offset: 24747},
+																								pos: position{line: 772, col: 8, offset: 24815},
 																								expr: &actionExpr{
-																									pos: position{line: 2901, col: 10, offset: 91483},
+																									pos: position{line: 2902, col: 10, offset: 91633},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2901, col: 10, offset: 91483},
+																										pos:        position{line: 2902, col: 10, offset: 91633},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6365,28 +6365,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2923, col: 8, offset: 91881},
+																								pos: position{line: 2924, col: 8, offset: 92031},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2910, col: 12, offset: 91654},
+																										pos: position{line: 2911, col: 12, offset: 91804},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2910, col: 13, offset: 91655},
+																											pos: position{line: 2911, col: 13, offset: 91805},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 13, offset: 91655},
+																													pos:        position{line: 2911, col: 13, offset: 91805},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 20, offset: 91662},
+																													pos:        position{line: 2911, col: 20, offset: 91812},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 29, offset: 91671},
+																													pos:        position{line: 2911, col: 29, offset: 91821},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6395,9 +6395,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2920, col: 8, offset: 91831},
+																										pos: position{line: 2921, col: 8, offset: 91981},
 																										expr: &anyMatcher{
-																											line: 2920, col: 9, offset: 91832,
+																											line: 2921, col: 9, offset: 91982,
 																										},
 																									},
 																								},
@@ -6407,15 +6407,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 910, col: 5, offset: 28673},
+																				pos: position{line: 910, col: 5, offset: 28741},
 																				run: (*parser).callonDocumentFragment521,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2920, col: 8, offset: 91831},
+																		pos: position{line: 2921, col: 8, offset: 91981},
 																		expr: &anyMatcher{
-																			line: 2920, col: 9, offset: 91832,
+																			line: 2921, col: 9, offset: 91982,
 																		},
 																	},
 																},
@@ -6426,39 +6426,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 925, col: 5, offset: 28986},
+											pos: position{line: 925, col: 5, offset: 29054},
 											run: (*parser).callonDocumentFragment524,
 											expr: &seqExpr{
-												pos: position{line: 925, col: 5, offset: 28986},
+												pos: position{line: 925, col: 5, offset: 29054},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 925, col: 5, offset: 28986},
+														pos:   position{line: 925, col: 5, offset: 29054},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 784, col: 5, offset: 25121},
+															pos: position{line: 784, col: 5, offset: 25189},
 															run: (*parser).callonDocumentFragment527,
 															expr: &seqExpr{
-																pos: position{line: 784, col: 5, offset: 25121},
+																pos: position{line: 784, col: 5, offset: 25189},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 784, col: 5, offset: 25121},
+																		pos:   position{line: 784, col: 5, offset: 25189},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 784, col: 16, offset: 25132},
+																			pos: position{line: 784, col: 16, offset: 25200},
 																			run: (*parser).callonDocumentFragment530,
 																			expr: &seqExpr{
-																				pos: position{line: 784, col: 16, offset: 25132},
+																				pos: position{line: 784, col: 16, offset: 25200},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 784, col: 16, offset: 25132},
+																						pos:        position{line: 784, col: 16, offset: 25200},
 																						val:        "....",
 																						ignoreCase: false,
 																						want:       "\"....\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 784, col: 23, offset: 25139},
+																						pos: position{line: 784, col: 23, offset: 25207},
 																						expr: &litMatcher{
-																							pos:        position{line: 784, col: 23, offset: 25139},
+																							pos:        position{line: 784, col: 23, offset: 25207},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -6469,12 +6469,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 786, col: 8, offset: 25223},
+																		pos: position{line: 786, col: 8, offset: 25291},
 																		expr: &actionExpr{
-																			pos: position{line: 2901, col: 10, offset: 91483},
+																			pos: position{line: 2902, col: 10, offset: 91633},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2901, col: 10, offset: 91483},
+																				pos:        position{line: 2902, col: 10, offset: 91633},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6483,28 +6483,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2923, col: 8, offset: 91881},
+																		pos: position{line: 2924, col: 8, offset: 92031},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2910, col: 12, offset: 91654},
+																				pos: position{line: 2911, col: 12, offset: 91804},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2910, col: 13, offset: 91655},
+																					pos: position{line: 2911, col: 13, offset: 91805},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 13, offset: 91655},
+																							pos:        position{line: 2911, col: 13, offset: 91805},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 20, offset: 91662},
+																							pos:        position{line: 2911, col: 20, offset: 91812},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 29, offset: 91671},
+																							pos:        position{line: 2911, col: 29, offset: 91821},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6513,9 +6513,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2920, col: 8, offset: 91831},
+																				pos: position{line: 2921, col: 8, offset: 91981},
 																				expr: &anyMatcher{
-																					line: 2920, col: 9, offset: 91832,
+																					line: 2921, col: 9, offset: 91982,
 																				},
 																			},
 																		},
@@ -6525,56 +6525,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 926, col: 5, offset: 29025},
+														pos: position{line: 926, col: 5, offset: 29093},
 														run: (*parser).callonDocumentFragment546,
 													},
 													&labeledExpr{
-														pos:   position{line: 929, col: 5, offset: 29117},
+														pos:   position{line: 929, col: 5, offset: 29185},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 944, col: 5, offset: 29515},
+															pos: position{line: 944, col: 5, offset: 29583},
 															expr: &actionExpr{
-																pos: position{line: 944, col: 6, offset: 29516},
+																pos: position{line: 944, col: 6, offset: 29584},
 																run: (*parser).callonDocumentFragment549,
 																expr: &seqExpr{
-																	pos: position{line: 944, col: 6, offset: 29516},
+																	pos: position{line: 944, col: 6, offset: 29584},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 944, col: 6, offset: 29516},
+																			pos: position{line: 944, col: 6, offset: 29584},
 																			expr: &choiceExpr{
-																				pos: position{line: 937, col: 5, offset: 29357},
+																				pos: position{line: 937, col: 5, offset: 29425},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 937, col: 5, offset: 29357},
+																						pos: position{line: 937, col: 5, offset: 29425},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 937, col: 5, offset: 29357},
+																								pos:   position{line: 937, col: 5, offset: 29425},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 784, col: 5, offset: 25121},
+																									pos: position{line: 784, col: 5, offset: 25189},
 																									run: (*parser).callonDocumentFragment555,
 																									expr: &seqExpr{
-																										pos: position{line: 784, col: 5, offset: 25121},
+																										pos: position{line: 784, col: 5, offset: 25189},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 784, col: 5, offset: 25121},
+																												pos:   position{line: 784, col: 5, offset: 25189},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 784, col: 16, offset: 25132},
+																													pos: position{line: 784, col: 16, offset: 25200},
 																													run: (*parser).callonDocumentFragment558,
 																													expr: &seqExpr{
-																														pos: position{line: 784, col: 16, offset: 25132},
+																														pos: position{line: 784, col: 16, offset: 25200},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 784, col: 16, offset: 25132},
+																																pos:        position{line: 784, col: 16, offset: 25200},
 																																val:        "....",
 																																ignoreCase: false,
 																																want:       "\"....\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 784, col: 23, offset: 25139},
+																																pos: position{line: 784, col: 23, offset: 25207},
 																																expr: &litMatcher{
-																																	pos:        position{line: 784, col: 23, offset: 25139},
+																																	pos:        position{line: 784, col: 23, offset: 25207},
 																																	val:        ".",
 																																	ignoreCase: false,
 																																	want:       "\".\"",
@@ -6585,12 +6585,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 786, col: 8, offset: 25223},
+																												pos: position{line: 786, col: 8, offset: 25291},
 																												expr: &actionExpr{
-																													pos: position{line: 2901, col: 10, offset: 91483},
+																													pos: position{line: 2902, col: 10, offset: 91633},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2901, col: 10, offset: 91483},
+																														pos:        position{line: 2902, col: 10, offset: 91633},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6599,28 +6599,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2923, col: 8, offset: 91881},
+																												pos: position{line: 2924, col: 8, offset: 92031},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2910, col: 12, offset: 91654},
+																														pos: position{line: 2911, col: 12, offset: 91804},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2910, col: 13, offset: 91655},
+																															pos: position{line: 2911, col: 13, offset: 91805},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2910, col: 13, offset: 91655},
+																																	pos:        position{line: 2911, col: 13, offset: 91805},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2910, col: 20, offset: 91662},
+																																	pos:        position{line: 2911, col: 20, offset: 91812},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2910, col: 29, offset: 91671},
+																																	pos:        position{line: 2911, col: 29, offset: 91821},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6629,9 +6629,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2920, col: 8, offset: 91831},
+																														pos: position{line: 2921, col: 8, offset: 91981},
 																														expr: &anyMatcher{
-																															line: 2920, col: 9, offset: 91832,
+																															line: 2921, col: 9, offset: 91982,
 																														},
 																													},
 																												},
@@ -6641,45 +6641,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 938, col: 5, offset: 29388},
+																								pos: position{line: 938, col: 5, offset: 29456},
 																								run: (*parser).callonDocumentFragment574,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2920, col: 8, offset: 91831},
+																						pos: position{line: 2921, col: 8, offset: 91981},
 																						expr: &anyMatcher{
-																							line: 2920, col: 9, offset: 91832,
+																							line: 2921, col: 9, offset: 91982,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 945, col: 5, offset: 29546},
+																			pos:   position{line: 945, col: 5, offset: 29614},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26117},
+																				pos: position{line: 812, col: 5, offset: 26185},
 																				run: (*parser).callonDocumentFragment578,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26117},
+																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2918, col: 11, offset: 91817},
+																							pos: position{line: 2919, col: 11, offset: 91967},
 																							expr: &anyMatcher{
-																								line: 2918, col: 13, offset: 91819,
+																								line: 2919, col: 13, offset: 91969,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26192},
+																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2847, col: 13, offset: 90009},
+																								pos: position{line: 2848, col: 13, offset: 90159},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2847, col: 13, offset: 90009},
+																									pos: position{line: 2848, col: 13, offset: 90159},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2847, col: 13, offset: 90009},
+																										pos:        position{line: 2848, col: 13, offset: 90159},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6689,28 +6689,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6719,9 +6719,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -6736,44 +6736,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 930, col: 5, offset: 29151},
+														pos:   position{line: 930, col: 5, offset: 29219},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 930, col: 9, offset: 29155},
+															pos: position{line: 930, col: 9, offset: 29223},
 															expr: &choiceExpr{
-																pos: position{line: 937, col: 5, offset: 29357},
+																pos: position{line: 937, col: 5, offset: 29425},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 937, col: 5, offset: 29357},
+																		pos: position{line: 937, col: 5, offset: 29425},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 937, col: 5, offset: 29357},
+																				pos:   position{line: 937, col: 5, offset: 29425},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 784, col: 5, offset: 25121},
+																					pos: position{line: 784, col: 5, offset: 25189},
 																					run: (*parser).callonDocumentFragment599,
 																					expr: &seqExpr{
-																						pos: position{line: 784, col: 5, offset: 25121},
+																						pos: position{line: 784, col: 5, offset: 25189},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 784, col: 5, offset: 25121},
+																								pos:   position{line: 784, col: 5, offset: 25189},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 784, col: 16, offset: 25132},
+																									pos: position{line: 784, col: 16, offset: 25200},
 																									run: (*parser).callonDocumentFragment602,
 																									expr: &seqExpr{
-																										pos: position{line: 784, col: 16, offset: 25132},
+																										pos: position{line: 784, col: 16, offset: 25200},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 784, col: 16, offset: 25132},
+																												pos:        position{line: 784, col: 16, offset: 25200},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 784, col: 23, offset: 25139},
+																												pos: position{line: 784, col: 23, offset: 25207},
 																												expr: &litMatcher{
-																													pos:        position{line: 784, col: 23, offset: 25139},
+																													pos:        position{line: 784, col: 23, offset: 25207},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -6784,12 +6784,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 786, col: 8, offset: 25223},
+																								pos: position{line: 786, col: 8, offset: 25291},
 																								expr: &actionExpr{
-																									pos: position{line: 2901, col: 10, offset: 91483},
+																									pos: position{line: 2902, col: 10, offset: 91633},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2901, col: 10, offset: 91483},
+																										pos:        position{line: 2902, col: 10, offset: 91633},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6798,28 +6798,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2923, col: 8, offset: 91881},
+																								pos: position{line: 2924, col: 8, offset: 92031},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2910, col: 12, offset: 91654},
+																										pos: position{line: 2911, col: 12, offset: 91804},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2910, col: 13, offset: 91655},
+																											pos: position{line: 2911, col: 13, offset: 91805},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 13, offset: 91655},
+																													pos:        position{line: 2911, col: 13, offset: 91805},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 20, offset: 91662},
+																													pos:        position{line: 2911, col: 20, offset: 91812},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 29, offset: 91671},
+																													pos:        position{line: 2911, col: 29, offset: 91821},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6828,9 +6828,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2920, col: 8, offset: 91831},
+																										pos: position{line: 2921, col: 8, offset: 91981},
 																										expr: &anyMatcher{
-																											line: 2920, col: 9, offset: 91832,
+																											line: 2921, col: 9, offset: 91982,
 																										},
 																									},
 																								},
@@ -6840,15 +6840,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 938, col: 5, offset: 29388},
+																				pos: position{line: 938, col: 5, offset: 29456},
 																				run: (*parser).callonDocumentFragment618,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2920, col: 8, offset: 91831},
+																		pos: position{line: 2921, col: 8, offset: 91981},
 																		expr: &anyMatcher{
-																			line: 2920, col: 9, offset: 91832,
+																			line: 2921, col: 9, offset: 91982,
 																		},
 																	},
 																},
@@ -6859,41 +6859,41 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 976, col: 5, offset: 30429},
+											pos: position{line: 976, col: 5, offset: 30497},
 											run: (*parser).callonDocumentFragment621,
 											expr: &seqExpr{
-												pos: position{line: 976, col: 5, offset: 30429},
+												pos: position{line: 976, col: 5, offset: 30497},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 976, col: 5, offset: 30429},
+														pos:   position{line: 976, col: 5, offset: 30497},
 														label: "firstLine",
 														expr: &actionExpr{
-															pos: position{line: 983, col: 5, offset: 30688},
+															pos: position{line: 983, col: 5, offset: 30756},
 															run: (*parser).callonDocumentFragment624,
 															expr: &seqExpr{
-																pos: position{line: 983, col: 5, offset: 30688},
+																pos: position{line: 983, col: 5, offset: 30756},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 983, col: 5, offset: 30688},
+																		pos: position{line: 983, col: 5, offset: 30756},
 																		expr: &actionExpr{
-																			pos: position{line: 678, col: 14, offset: 21518},
+																			pos: position{line: 678, col: 14, offset: 21586},
 																			run: (*parser).callonDocumentFragment627,
 																			expr: &seqExpr{
-																				pos: position{line: 678, col: 14, offset: 21518},
+																				pos: position{line: 678, col: 14, offset: 21586},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2918, col: 11, offset: 91817},
+																						pos: position{line: 2919, col: 11, offset: 91967},
 																						expr: &anyMatcher{
-																							line: 2918, col: 13, offset: 91819,
+																							line: 2919, col: 13, offset: 91969,
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 678, col: 21, offset: 21525},
+																						pos: position{line: 678, col: 21, offset: 21593},
 																						expr: &actionExpr{
-																							pos: position{line: 2901, col: 10, offset: 91483},
+																							pos: position{line: 2902, col: 10, offset: 91633},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2901, col: 10, offset: 91483},
+																								pos:        position{line: 2902, col: 10, offset: 91633},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6902,28 +6902,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2923, col: 8, offset: 91881},
+																						pos: position{line: 2924, col: 8, offset: 92031},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2910, col: 12, offset: 91654},
+																								pos: position{line: 2911, col: 12, offset: 91804},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2910, col: 13, offset: 91655},
+																									pos: position{line: 2911, col: 13, offset: 91805},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 13, offset: 91655},
+																											pos:        position{line: 2911, col: 13, offset: 91805},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 20, offset: 91662},
+																											pos:        position{line: 2911, col: 20, offset: 91812},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 29, offset: 91671},
+																											pos:        position{line: 2911, col: 29, offset: 91821},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6932,9 +6932,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 8, offset: 91831},
+																								pos: position{line: 2921, col: 8, offset: 91981},
 																								expr: &anyMatcher{
-																									line: 2920, col: 9, offset: 91832,
+																									line: 2921, col: 9, offset: 91982,
 																								},
 																							},
 																						},
@@ -6944,21 +6944,21 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 984, col: 5, offset: 30703},
+																		pos:        position{line: 984, col: 5, offset: 30771},
 																		val:        "> ",
 																		ignoreCase: false,
 																		want:       "\"> \"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 985, col: 5, offset: 30713},
+																		pos:   position{line: 985, col: 5, offset: 30781},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2851, col: 14, offset: 90076},
+																			pos: position{line: 2852, col: 14, offset: 90226},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2851, col: 14, offset: 90076},
+																				pos: position{line: 2852, col: 14, offset: 90226},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2851, col: 14, offset: 90076},
+																					pos:        position{line: 2852, col: 14, offset: 90226},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -6968,28 +6968,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2923, col: 8, offset: 91881},
+																		pos: position{line: 2924, col: 8, offset: 92031},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2910, col: 12, offset: 91654},
+																				pos: position{line: 2911, col: 12, offset: 91804},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2910, col: 13, offset: 91655},
+																					pos: position{line: 2911, col: 13, offset: 91805},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 13, offset: 91655},
+																							pos:        position{line: 2911, col: 13, offset: 91805},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 20, offset: 91662},
+																							pos:        position{line: 2911, col: 20, offset: 91812},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 29, offset: 91671},
+																							pos:        position{line: 2911, col: 29, offset: 91821},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6998,9 +6998,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2920, col: 8, offset: 91831},
+																				pos: position{line: 2921, col: 8, offset: 91981},
 																				expr: &anyMatcher{
-																					line: 2920, col: 9, offset: 91832,
+																					line: 2921, col: 9, offset: 91982,
 																				},
 																			},
 																		},
@@ -7010,40 +7010,40 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 977, col: 5, offset: 30466},
+														pos:   position{line: 977, col: 5, offset: 30534},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 977, col: 16, offset: 30477},
+															pos: position{line: 977, col: 16, offset: 30545},
 															expr: &choiceExpr{
-																pos: position{line: 977, col: 17, offset: 30478},
+																pos: position{line: 977, col: 17, offset: 30546},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 983, col: 5, offset: 30688},
+																		pos: position{line: 983, col: 5, offset: 30756},
 																		run: (*parser).callonDocumentFragment658,
 																		expr: &seqExpr{
-																			pos: position{line: 983, col: 5, offset: 30688},
+																			pos: position{line: 983, col: 5, offset: 30756},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 983, col: 5, offset: 30688},
+																					pos: position{line: 983, col: 5, offset: 30756},
 																					expr: &actionExpr{
-																						pos: position{line: 678, col: 14, offset: 21518},
+																						pos: position{line: 678, col: 14, offset: 21586},
 																						run: (*parser).callonDocumentFragment661,
 																						expr: &seqExpr{
-																							pos: position{line: 678, col: 14, offset: 21518},
+																							pos: position{line: 678, col: 14, offset: 21586},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2918, col: 11, offset: 91817},
+																									pos: position{line: 2919, col: 11, offset: 91967},
 																									expr: &anyMatcher{
-																										line: 2918, col: 13, offset: 91819,
+																										line: 2919, col: 13, offset: 91969,
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 678, col: 21, offset: 21525},
+																									pos: position{line: 678, col: 21, offset: 21593},
 																									expr: &actionExpr{
-																										pos: position{line: 2901, col: 10, offset: 91483},
+																										pos: position{line: 2902, col: 10, offset: 91633},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2901, col: 10, offset: 91483},
+																											pos:        position{line: 2902, col: 10, offset: 91633},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7052,28 +7052,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2923, col: 8, offset: 91881},
+																									pos: position{line: 2924, col: 8, offset: 92031},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2910, col: 12, offset: 91654},
+																											pos: position{line: 2911, col: 12, offset: 91804},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2910, col: 13, offset: 91655},
+																												pos: position{line: 2911, col: 13, offset: 91805},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 13, offset: 91655},
+																														pos:        position{line: 2911, col: 13, offset: 91805},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 20, offset: 91662},
+																														pos:        position{line: 2911, col: 20, offset: 91812},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 29, offset: 91671},
+																														pos:        position{line: 2911, col: 29, offset: 91821},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7082,9 +7082,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2920, col: 8, offset: 91831},
+																											pos: position{line: 2921, col: 8, offset: 91981},
 																											expr: &anyMatcher{
-																												line: 2920, col: 9, offset: 91832,
+																												line: 2921, col: 9, offset: 91982,
 																											},
 																										},
 																									},
@@ -7094,21 +7094,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 984, col: 5, offset: 30703},
+																					pos:        position{line: 984, col: 5, offset: 30771},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 985, col: 5, offset: 30713},
+																					pos:   position{line: 985, col: 5, offset: 30781},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2851, col: 14, offset: 90076},
+																						pos: position{line: 2852, col: 14, offset: 90226},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2851, col: 14, offset: 90076},
+																							pos: position{line: 2852, col: 14, offset: 90226},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2851, col: 14, offset: 90076},
+																								pos:        position{line: 2852, col: 14, offset: 90226},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7118,28 +7118,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2923, col: 8, offset: 91881},
+																					pos: position{line: 2924, col: 8, offset: 92031},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2910, col: 12, offset: 91654},
+																							pos: position{line: 2911, col: 12, offset: 91804},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2910, col: 13, offset: 91655},
+																								pos: position{line: 2911, col: 13, offset: 91805},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 13, offset: 91655},
+																										pos:        position{line: 2911, col: 13, offset: 91805},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 20, offset: 91662},
+																										pos:        position{line: 2911, col: 20, offset: 91812},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 29, offset: 91671},
+																										pos:        position{line: 2911, col: 29, offset: 91821},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7148,9 +7148,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2920, col: 8, offset: 91831},
+																							pos: position{line: 2921, col: 8, offset: 91981},
 																							expr: &anyMatcher{
-																								line: 2920, col: 9, offset: 91832,
+																								line: 2921, col: 9, offset: 91982,
 																							},
 																						},
 																					},
@@ -7159,21 +7159,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1790, col: 5, offset: 57750},
+																		pos: position{line: 1791, col: 5, offset: 57852},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1790, col: 5, offset: 57750},
+																			pos: position{line: 1791, col: 5, offset: 57852},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1790, col: 5, offset: 57750},
+																					pos:   position{line: 1791, col: 5, offset: 57852},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2851, col: 14, offset: 90076},
+																						pos: position{line: 2852, col: 14, offset: 90226},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2851, col: 14, offset: 90076},
+																							pos: position{line: 2852, col: 14, offset: 90226},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2851, col: 14, offset: 90076},
+																								pos:        position{line: 2852, col: 14, offset: 90226},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7183,32 +7183,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1791, col: 5, offset: 57774},
+																					pos: position{line: 1792, col: 5, offset: 57876},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2923, col: 8, offset: 91881},
+																					pos: position{line: 2924, col: 8, offset: 92031},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2910, col: 12, offset: 91654},
+																							pos: position{line: 2911, col: 12, offset: 91804},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2910, col: 13, offset: 91655},
+																								pos: position{line: 2911, col: 13, offset: 91805},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 13, offset: 91655},
+																										pos:        position{line: 2911, col: 13, offset: 91805},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 20, offset: 91662},
+																										pos:        position{line: 2911, col: 20, offset: 91812},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 29, offset: 91671},
+																										pos:        position{line: 2911, col: 29, offset: 91821},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7217,9 +7217,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2920, col: 8, offset: 91831},
+																							pos: position{line: 2921, col: 8, offset: 91981},
 																							expr: &anyMatcher{
-																								line: 2920, col: 9, offset: 91832,
+																								line: 2921, col: 9, offset: 91982,
 																							},
 																						},
 																					},
@@ -7235,28 +7235,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 998, col: 5, offset: 30978},
+											pos: position{line: 998, col: 5, offset: 31046},
 											run: (*parser).callonDocumentFragment704,
 											expr: &seqExpr{
-												pos: position{line: 998, col: 5, offset: 30978},
+												pos: position{line: 998, col: 5, offset: 31046},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 998, col: 5, offset: 30978},
+														pos:   position{line: 998, col: 5, offset: 31046},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 777, col: 5, offset: 24890},
+															pos: position{line: 777, col: 5, offset: 24958},
 															run: (*parser).callonDocumentFragment707,
 															expr: &seqExpr{
-																pos: position{line: 777, col: 5, offset: 24890},
+																pos: position{line: 777, col: 5, offset: 24958},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 777, col: 5, offset: 24890},
+																		pos:   position{line: 777, col: 5, offset: 24958},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 777, col: 16, offset: 24901},
+																			pos: position{line: 777, col: 16, offset: 24969},
 																			run: (*parser).callonDocumentFragment710,
 																			expr: &litMatcher{
-																				pos:        position{line: 777, col: 16, offset: 24901},
+																				pos:        position{line: 777, col: 16, offset: 24969},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -7264,12 +7264,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 779, col: 8, offset: 24978},
+																		pos: position{line: 779, col: 8, offset: 25046},
 																		expr: &actionExpr{
-																			pos: position{line: 2901, col: 10, offset: 91483},
+																			pos: position{line: 2902, col: 10, offset: 91633},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2901, col: 10, offset: 91483},
+																				pos:        position{line: 2902, col: 10, offset: 91633},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7278,28 +7278,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2923, col: 8, offset: 91881},
+																		pos: position{line: 2924, col: 8, offset: 92031},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2910, col: 12, offset: 91654},
+																				pos: position{line: 2911, col: 12, offset: 91804},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2910, col: 13, offset: 91655},
+																					pos: position{line: 2911, col: 13, offset: 91805},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 13, offset: 91655},
+																							pos:        position{line: 2911, col: 13, offset: 91805},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 20, offset: 91662},
+																							pos:        position{line: 2911, col: 20, offset: 91812},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 29, offset: 91671},
+																							pos:        position{line: 2911, col: 29, offset: 91821},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7308,9 +7308,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2920, col: 8, offset: 91831},
+																				pos: position{line: 2921, col: 8, offset: 91981},
 																				expr: &anyMatcher{
-																					line: 2920, col: 9, offset: 91832,
+																					line: 2921, col: 9, offset: 91982,
 																				},
 																			},
 																		},
@@ -7320,35 +7320,35 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 999, col: 5, offset: 31014},
+														pos:   position{line: 999, col: 5, offset: 31082},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1009, col: 5, offset: 31282},
+															pos: position{line: 1009, col: 5, offset: 31350},
 															expr: &actionExpr{
-																pos: position{line: 1009, col: 6, offset: 31283},
+																pos: position{line: 1009, col: 6, offset: 31351},
 																run: (*parser).callonDocumentFragment725,
 																expr: &seqExpr{
-																	pos: position{line: 1009, col: 6, offset: 31283},
+																	pos: position{line: 1009, col: 6, offset: 31351},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1009, col: 6, offset: 31283},
+																			pos: position{line: 1009, col: 6, offset: 31351},
 																			expr: &choiceExpr{
-																				pos: position{line: 1006, col: 26, offset: 31231},
+																				pos: position{line: 1006, col: 26, offset: 31299},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 777, col: 5, offset: 24890},
+																						pos: position{line: 777, col: 5, offset: 24958},
 																						run: (*parser).callonDocumentFragment729,
 																						expr: &seqExpr{
-																							pos: position{line: 777, col: 5, offset: 24890},
+																							pos: position{line: 777, col: 5, offset: 24958},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 777, col: 5, offset: 24890},
+																									pos:   position{line: 777, col: 5, offset: 24958},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 777, col: 16, offset: 24901},
+																										pos: position{line: 777, col: 16, offset: 24969},
 																										run: (*parser).callonDocumentFragment732,
 																										expr: &litMatcher{
-																											pos:        position{line: 777, col: 16, offset: 24901},
+																											pos:        position{line: 777, col: 16, offset: 24969},
 																											val:        "--",
 																											ignoreCase: false,
 																											want:       "\"--\"",
@@ -7356,12 +7356,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 779, col: 8, offset: 24978},
+																									pos: position{line: 779, col: 8, offset: 25046},
 																									expr: &actionExpr{
-																										pos: position{line: 2901, col: 10, offset: 91483},
+																										pos: position{line: 2902, col: 10, offset: 91633},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2901, col: 10, offset: 91483},
+																											pos:        position{line: 2902, col: 10, offset: 91633},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7370,28 +7370,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2923, col: 8, offset: 91881},
+																									pos: position{line: 2924, col: 8, offset: 92031},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2910, col: 12, offset: 91654},
+																											pos: position{line: 2911, col: 12, offset: 91804},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2910, col: 13, offset: 91655},
+																												pos: position{line: 2911, col: 13, offset: 91805},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 13, offset: 91655},
+																														pos:        position{line: 2911, col: 13, offset: 91805},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 20, offset: 91662},
+																														pos:        position{line: 2911, col: 20, offset: 91812},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 29, offset: 91671},
+																														pos:        position{line: 2911, col: 29, offset: 91821},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7400,9 +7400,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2920, col: 8, offset: 91831},
+																											pos: position{line: 2921, col: 8, offset: 91981},
 																											expr: &anyMatcher{
-																												line: 2920, col: 9, offset: 91832,
+																												line: 2921, col: 9, offset: 91982,
 																											},
 																										},
 																									},
@@ -7411,39 +7411,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2920, col: 8, offset: 91831},
+																						pos: position{line: 2921, col: 8, offset: 91981},
 																						expr: &anyMatcher{
-																							line: 2920, col: 9, offset: 91832,
+																							line: 2921, col: 9, offset: 91982,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1010, col: 5, offset: 31310},
+																			pos:   position{line: 1010, col: 5, offset: 31378},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26117},
+																				pos: position{line: 812, col: 5, offset: 26185},
 																				run: (*parser).callonDocumentFragment748,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26117},
+																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2918, col: 11, offset: 91817},
+																							pos: position{line: 2919, col: 11, offset: 91967},
 																							expr: &anyMatcher{
-																								line: 2918, col: 13, offset: 91819,
+																								line: 2919, col: 13, offset: 91969,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26192},
+																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2847, col: 13, offset: 90009},
+																								pos: position{line: 2848, col: 13, offset: 90159},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2847, col: 13, offset: 90009},
+																									pos: position{line: 2848, col: 13, offset: 90159},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2847, col: 13, offset: 90009},
+																										pos:        position{line: 2848, col: 13, offset: 90159},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7453,28 +7453,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7483,9 +7483,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -7500,27 +7500,27 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1000, col: 5, offset: 31045},
+														pos:   position{line: 1000, col: 5, offset: 31113},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1000, col: 9, offset: 31049},
+															pos: position{line: 1000, col: 9, offset: 31117},
 															expr: &choiceExpr{
-																pos: position{line: 1006, col: 26, offset: 31231},
+																pos: position{line: 1006, col: 26, offset: 31299},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 777, col: 5, offset: 24890},
+																		pos: position{line: 777, col: 5, offset: 24958},
 																		run: (*parser).callonDocumentFragment767,
 																		expr: &seqExpr{
-																			pos: position{line: 777, col: 5, offset: 24890},
+																			pos: position{line: 777, col: 5, offset: 24958},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 777, col: 5, offset: 24890},
+																					pos:   position{line: 777, col: 5, offset: 24958},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 777, col: 16, offset: 24901},
+																						pos: position{line: 777, col: 16, offset: 24969},
 																						run: (*parser).callonDocumentFragment770,
 																						expr: &litMatcher{
-																							pos:        position{line: 777, col: 16, offset: 24901},
+																							pos:        position{line: 777, col: 16, offset: 24969},
 																							val:        "--",
 																							ignoreCase: false,
 																							want:       "\"--\"",
@@ -7528,12 +7528,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 779, col: 8, offset: 24978},
+																					pos: position{line: 779, col: 8, offset: 25046},
 																					expr: &actionExpr{
-																						pos: position{line: 2901, col: 10, offset: 91483},
+																						pos: position{line: 2902, col: 10, offset: 91633},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2901, col: 10, offset: 91483},
+																							pos:        position{line: 2902, col: 10, offset: 91633},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7542,28 +7542,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2923, col: 8, offset: 91881},
+																					pos: position{line: 2924, col: 8, offset: 92031},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2910, col: 12, offset: 91654},
+																							pos: position{line: 2911, col: 12, offset: 91804},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2910, col: 13, offset: 91655},
+																								pos: position{line: 2911, col: 13, offset: 91805},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 13, offset: 91655},
+																										pos:        position{line: 2911, col: 13, offset: 91805},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 20, offset: 91662},
+																										pos:        position{line: 2911, col: 20, offset: 91812},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 29, offset: 91671},
+																										pos:        position{line: 2911, col: 29, offset: 91821},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7572,9 +7572,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2920, col: 8, offset: 91831},
+																							pos: position{line: 2921, col: 8, offset: 91981},
 																							expr: &anyMatcher{
-																								line: 2920, col: 9, offset: 91832,
+																								line: 2921, col: 9, offset: 91982,
 																							},
 																						},
 																					},
@@ -7583,9 +7583,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2920, col: 8, offset: 91831},
+																		pos: position{line: 2921, col: 8, offset: 91981},
 																		expr: &anyMatcher{
-																			line: 2920, col: 9, offset: 91832,
+																			line: 2921, col: 9, offset: 91982,
 																		},
 																	},
 																},
@@ -7596,39 +7596,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1018, col: 5, offset: 31473},
+											pos: position{line: 1018, col: 5, offset: 31541},
 											run: (*parser).callonDocumentFragment785,
 											expr: &seqExpr{
-												pos: position{line: 1018, col: 5, offset: 31473},
+												pos: position{line: 1018, col: 5, offset: 31541},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1018, col: 5, offset: 31473},
+														pos:   position{line: 1018, col: 5, offset: 31541},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 791, col: 5, offset: 25373},
+															pos: position{line: 791, col: 5, offset: 25441},
 															run: (*parser).callonDocumentFragment788,
 															expr: &seqExpr{
-																pos: position{line: 791, col: 5, offset: 25373},
+																pos: position{line: 791, col: 5, offset: 25441},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 791, col: 5, offset: 25373},
+																		pos:   position{line: 791, col: 5, offset: 25441},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 791, col: 16, offset: 25384},
+																			pos: position{line: 791, col: 16, offset: 25452},
 																			run: (*parser).callonDocumentFragment791,
 																			expr: &seqExpr{
-																				pos: position{line: 791, col: 16, offset: 25384},
+																				pos: position{line: 791, col: 16, offset: 25452},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 791, col: 16, offset: 25384},
+																						pos:        position{line: 791, col: 16, offset: 25452},
 																						val:        "++++",
 																						ignoreCase: false,
 																						want:       "\"++++\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 791, col: 23, offset: 25391},
+																						pos: position{line: 791, col: 23, offset: 25459},
 																						expr: &litMatcher{
-																							pos:        position{line: 791, col: 23, offset: 25391},
+																							pos:        position{line: 791, col: 23, offset: 25459},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
@@ -7639,12 +7639,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 793, col: 8, offset: 25475},
+																		pos: position{line: 793, col: 8, offset: 25543},
 																		expr: &actionExpr{
-																			pos: position{line: 2901, col: 10, offset: 91483},
+																			pos: position{line: 2902, col: 10, offset: 91633},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2901, col: 10, offset: 91483},
+																				pos:        position{line: 2902, col: 10, offset: 91633},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7653,28 +7653,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2923, col: 8, offset: 91881},
+																		pos: position{line: 2924, col: 8, offset: 92031},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2910, col: 12, offset: 91654},
+																				pos: position{line: 2911, col: 12, offset: 91804},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2910, col: 13, offset: 91655},
+																					pos: position{line: 2911, col: 13, offset: 91805},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 13, offset: 91655},
+																							pos:        position{line: 2911, col: 13, offset: 91805},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 20, offset: 91662},
+																							pos:        position{line: 2911, col: 20, offset: 91812},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 29, offset: 91671},
+																							pos:        position{line: 2911, col: 29, offset: 91821},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7683,9 +7683,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2920, col: 8, offset: 91831},
+																				pos: position{line: 2921, col: 8, offset: 91981},
 																				expr: &anyMatcher{
-																					line: 2920, col: 9, offset: 91832,
+																					line: 2921, col: 9, offset: 91982,
 																				},
 																			},
 																		},
@@ -7695,56 +7695,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1019, col: 5, offset: 31516},
+														pos: position{line: 1019, col: 5, offset: 31584},
 														run: (*parser).callonDocumentFragment807,
 													},
 													&labeledExpr{
-														pos:   position{line: 1022, col: 5, offset: 31608},
+														pos:   position{line: 1022, col: 5, offset: 31676},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1037, col: 5, offset: 32038},
+															pos: position{line: 1037, col: 5, offset: 32106},
 															expr: &actionExpr{
-																pos: position{line: 1037, col: 6, offset: 32039},
+																pos: position{line: 1037, col: 6, offset: 32107},
 																run: (*parser).callonDocumentFragment810,
 																expr: &seqExpr{
-																	pos: position{line: 1037, col: 6, offset: 32039},
+																	pos: position{line: 1037, col: 6, offset: 32107},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1037, col: 6, offset: 32039},
+																			pos: position{line: 1037, col: 6, offset: 32107},
 																			expr: &choiceExpr{
-																				pos: position{line: 1030, col: 5, offset: 31872},
+																				pos: position{line: 1030, col: 5, offset: 31940},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1030, col: 5, offset: 31872},
+																						pos: position{line: 1030, col: 5, offset: 31940},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1030, col: 5, offset: 31872},
+																								pos:   position{line: 1030, col: 5, offset: 31940},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 791, col: 5, offset: 25373},
+																									pos: position{line: 791, col: 5, offset: 25441},
 																									run: (*parser).callonDocumentFragment816,
 																									expr: &seqExpr{
-																										pos: position{line: 791, col: 5, offset: 25373},
+																										pos: position{line: 791, col: 5, offset: 25441},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 791, col: 5, offset: 25373},
+																												pos:   position{line: 791, col: 5, offset: 25441},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 791, col: 16, offset: 25384},
+																													pos: position{line: 791, col: 16, offset: 25452},
 																													run: (*parser).callonDocumentFragment819,
 																													expr: &seqExpr{
-																														pos: position{line: 791, col: 16, offset: 25384},
+																														pos: position{line: 791, col: 16, offset: 25452},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 791, col: 16, offset: 25384},
+																																pos:        position{line: 791, col: 16, offset: 25452},
 																																val:        "++++",
 																																ignoreCase: false,
 																																want:       "\"++++\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 791, col: 23, offset: 25391},
+																																pos: position{line: 791, col: 23, offset: 25459},
 																																expr: &litMatcher{
-																																	pos:        position{line: 791, col: 23, offset: 25391},
+																																	pos:        position{line: 791, col: 23, offset: 25459},
 																																	val:        "+",
 																																	ignoreCase: false,
 																																	want:       "\"+\"",
@@ -7755,12 +7755,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 793, col: 8, offset: 25475},
+																												pos: position{line: 793, col: 8, offset: 25543},
 																												expr: &actionExpr{
-																													pos: position{line: 2901, col: 10, offset: 91483},
+																													pos: position{line: 2902, col: 10, offset: 91633},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2901, col: 10, offset: 91483},
+																														pos:        position{line: 2902, col: 10, offset: 91633},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7769,28 +7769,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2923, col: 8, offset: 91881},
+																												pos: position{line: 2924, col: 8, offset: 92031},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2910, col: 12, offset: 91654},
+																														pos: position{line: 2911, col: 12, offset: 91804},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2910, col: 13, offset: 91655},
+																															pos: position{line: 2911, col: 13, offset: 91805},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2910, col: 13, offset: 91655},
+																																	pos:        position{line: 2911, col: 13, offset: 91805},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2910, col: 20, offset: 91662},
+																																	pos:        position{line: 2911, col: 20, offset: 91812},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2910, col: 29, offset: 91671},
+																																	pos:        position{line: 2911, col: 29, offset: 91821},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7799,9 +7799,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2920, col: 8, offset: 91831},
+																														pos: position{line: 2921, col: 8, offset: 91981},
 																														expr: &anyMatcher{
-																															line: 2920, col: 9, offset: 91832,
+																															line: 2921, col: 9, offset: 91982,
 																														},
 																													},
 																												},
@@ -7811,45 +7811,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1031, col: 5, offset: 31907},
+																								pos: position{line: 1031, col: 5, offset: 31975},
 																								run: (*parser).callonDocumentFragment835,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2920, col: 8, offset: 91831},
+																						pos: position{line: 2921, col: 8, offset: 91981},
 																						expr: &anyMatcher{
-																							line: 2920, col: 9, offset: 91832,
+																							line: 2921, col: 9, offset: 91982,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1038, col: 5, offset: 32073},
+																			pos:   position{line: 1038, col: 5, offset: 32141},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26117},
+																				pos: position{line: 812, col: 5, offset: 26185},
 																				run: (*parser).callonDocumentFragment839,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26117},
+																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2918, col: 11, offset: 91817},
+																							pos: position{line: 2919, col: 11, offset: 91967},
 																							expr: &anyMatcher{
-																								line: 2918, col: 13, offset: 91819,
+																								line: 2919, col: 13, offset: 91969,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26192},
+																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2847, col: 13, offset: 90009},
+																								pos: position{line: 2848, col: 13, offset: 90159},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2847, col: 13, offset: 90009},
+																									pos: position{line: 2848, col: 13, offset: 90159},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2847, col: 13, offset: 90009},
+																										pos:        position{line: 2848, col: 13, offset: 90159},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7859,28 +7859,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7889,9 +7889,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -7906,44 +7906,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1023, col: 5, offset: 31646},
+														pos:   position{line: 1023, col: 5, offset: 31714},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1023, col: 9, offset: 31650},
+															pos: position{line: 1023, col: 9, offset: 31718},
 															expr: &choiceExpr{
-																pos: position{line: 1030, col: 5, offset: 31872},
+																pos: position{line: 1030, col: 5, offset: 31940},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1030, col: 5, offset: 31872},
+																		pos: position{line: 1030, col: 5, offset: 31940},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1030, col: 5, offset: 31872},
+																				pos:   position{line: 1030, col: 5, offset: 31940},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 791, col: 5, offset: 25373},
+																					pos: position{line: 791, col: 5, offset: 25441},
 																					run: (*parser).callonDocumentFragment860,
 																					expr: &seqExpr{
-																						pos: position{line: 791, col: 5, offset: 25373},
+																						pos: position{line: 791, col: 5, offset: 25441},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 791, col: 5, offset: 25373},
+																								pos:   position{line: 791, col: 5, offset: 25441},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 791, col: 16, offset: 25384},
+																									pos: position{line: 791, col: 16, offset: 25452},
 																									run: (*parser).callonDocumentFragment863,
 																									expr: &seqExpr{
-																										pos: position{line: 791, col: 16, offset: 25384},
+																										pos: position{line: 791, col: 16, offset: 25452},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 791, col: 16, offset: 25384},
+																												pos:        position{line: 791, col: 16, offset: 25452},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 791, col: 23, offset: 25391},
+																												pos: position{line: 791, col: 23, offset: 25459},
 																												expr: &litMatcher{
-																													pos:        position{line: 791, col: 23, offset: 25391},
+																													pos:        position{line: 791, col: 23, offset: 25459},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -7954,12 +7954,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 793, col: 8, offset: 25475},
+																								pos: position{line: 793, col: 8, offset: 25543},
 																								expr: &actionExpr{
-																									pos: position{line: 2901, col: 10, offset: 91483},
+																									pos: position{line: 2902, col: 10, offset: 91633},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2901, col: 10, offset: 91483},
+																										pos:        position{line: 2902, col: 10, offset: 91633},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7968,28 +7968,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2923, col: 8, offset: 91881},
+																								pos: position{line: 2924, col: 8, offset: 92031},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2910, col: 12, offset: 91654},
+																										pos: position{line: 2911, col: 12, offset: 91804},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2910, col: 13, offset: 91655},
+																											pos: position{line: 2911, col: 13, offset: 91805},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 13, offset: 91655},
+																													pos:        position{line: 2911, col: 13, offset: 91805},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 20, offset: 91662},
+																													pos:        position{line: 2911, col: 20, offset: 91812},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 29, offset: 91671},
+																													pos:        position{line: 2911, col: 29, offset: 91821},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -7998,9 +7998,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2920, col: 8, offset: 91831},
+																										pos: position{line: 2921, col: 8, offset: 91981},
 																										expr: &anyMatcher{
-																											line: 2920, col: 9, offset: 91832,
+																											line: 2921, col: 9, offset: 91982,
 																										},
 																									},
 																								},
@@ -8010,15 +8010,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1031, col: 5, offset: 31907},
+																				pos: position{line: 1031, col: 5, offset: 31975},
 																				run: (*parser).callonDocumentFragment879,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2920, col: 8, offset: 91831},
+																		pos: position{line: 2921, col: 8, offset: 91981},
 																		expr: &anyMatcher{
-																			line: 2920, col: 9, offset: 91832,
+																			line: 2921, col: 9, offset: 91982,
 																		},
 																	},
 																},
@@ -8029,39 +8029,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1046, col: 5, offset: 32224},
+											pos: position{line: 1046, col: 5, offset: 32292},
 											run: (*parser).callonDocumentFragment882,
 											expr: &seqExpr{
-												pos: position{line: 1046, col: 5, offset: 32224},
+												pos: position{line: 1046, col: 5, offset: 32292},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1046, col: 5, offset: 32224},
+														pos:   position{line: 1046, col: 5, offset: 32292},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 798, col: 5, offset: 25623},
+															pos: position{line: 798, col: 5, offset: 25691},
 															run: (*parser).callonDocumentFragment885,
 															expr: &seqExpr{
-																pos: position{line: 798, col: 5, offset: 25623},
+																pos: position{line: 798, col: 5, offset: 25691},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 798, col: 5, offset: 25623},
+																		pos:   position{line: 798, col: 5, offset: 25691},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 798, col: 16, offset: 25634},
+																			pos: position{line: 798, col: 16, offset: 25702},
 																			run: (*parser).callonDocumentFragment888,
 																			expr: &seqExpr{
-																				pos: position{line: 798, col: 16, offset: 25634},
+																				pos: position{line: 798, col: 16, offset: 25702},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 798, col: 16, offset: 25634},
+																						pos:        position{line: 798, col: 16, offset: 25702},
 																						val:        "____",
 																						ignoreCase: false,
 																						want:       "\"____\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 798, col: 23, offset: 25641},
+																						pos: position{line: 798, col: 23, offset: 25709},
 																						expr: &litMatcher{
-																							pos:        position{line: 798, col: 23, offset: 25641},
+																							pos:        position{line: 798, col: 23, offset: 25709},
 																							val:        "_",
 																							ignoreCase: false,
 																							want:       "\"_\"",
@@ -8072,12 +8072,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 800, col: 8, offset: 25725},
+																		pos: position{line: 800, col: 8, offset: 25793},
 																		expr: &actionExpr{
-																			pos: position{line: 2901, col: 10, offset: 91483},
+																			pos: position{line: 2902, col: 10, offset: 91633},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2901, col: 10, offset: 91483},
+																				pos:        position{line: 2902, col: 10, offset: 91633},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8086,28 +8086,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2923, col: 8, offset: 91881},
+																		pos: position{line: 2924, col: 8, offset: 92031},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2910, col: 12, offset: 91654},
+																				pos: position{line: 2911, col: 12, offset: 91804},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2910, col: 13, offset: 91655},
+																					pos: position{line: 2911, col: 13, offset: 91805},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 13, offset: 91655},
+																							pos:        position{line: 2911, col: 13, offset: 91805},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 20, offset: 91662},
+																							pos:        position{line: 2911, col: 20, offset: 91812},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 29, offset: 91671},
+																							pos:        position{line: 2911, col: 29, offset: 91821},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8116,9 +8116,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2920, col: 8, offset: 91831},
+																				pos: position{line: 2921, col: 8, offset: 91981},
 																				expr: &anyMatcher{
-																					line: 2920, col: 9, offset: 91832,
+																					line: 2921, col: 9, offset: 91982,
 																				},
 																			},
 																		},
@@ -8128,56 +8128,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1047, col: 5, offset: 32261},
+														pos: position{line: 1047, col: 5, offset: 32329},
 														run: (*parser).callonDocumentFragment904,
 													},
 													&labeledExpr{
-														pos:   position{line: 1050, col: 5, offset: 32353},
+														pos:   position{line: 1050, col: 5, offset: 32421},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1065, col: 4, offset: 32734},
+															pos: position{line: 1065, col: 4, offset: 32802},
 															expr: &actionExpr{
-																pos: position{line: 1065, col: 5, offset: 32735},
+																pos: position{line: 1065, col: 5, offset: 32803},
 																run: (*parser).callonDocumentFragment907,
 																expr: &seqExpr{
-																	pos: position{line: 1065, col: 5, offset: 32735},
+																	pos: position{line: 1065, col: 5, offset: 32803},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1065, col: 5, offset: 32735},
+																			pos: position{line: 1065, col: 5, offset: 32803},
 																			expr: &choiceExpr{
-																				pos: position{line: 1058, col: 5, offset: 32581},
+																				pos: position{line: 1058, col: 5, offset: 32649},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1058, col: 5, offset: 32581},
+																						pos: position{line: 1058, col: 5, offset: 32649},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1058, col: 5, offset: 32581},
+																								pos:   position{line: 1058, col: 5, offset: 32649},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 798, col: 5, offset: 25623},
+																									pos: position{line: 798, col: 5, offset: 25691},
 																									run: (*parser).callonDocumentFragment913,
 																									expr: &seqExpr{
-																										pos: position{line: 798, col: 5, offset: 25623},
+																										pos: position{line: 798, col: 5, offset: 25691},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 798, col: 5, offset: 25623},
+																												pos:   position{line: 798, col: 5, offset: 25691},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 798, col: 16, offset: 25634},
+																													pos: position{line: 798, col: 16, offset: 25702},
 																													run: (*parser).callonDocumentFragment916,
 																													expr: &seqExpr{
-																														pos: position{line: 798, col: 16, offset: 25634},
+																														pos: position{line: 798, col: 16, offset: 25702},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 798, col: 16, offset: 25634},
+																																pos:        position{line: 798, col: 16, offset: 25702},
 																																val:        "____",
 																																ignoreCase: false,
 																																want:       "\"____\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 798, col: 23, offset: 25641},
+																																pos: position{line: 798, col: 23, offset: 25709},
 																																expr: &litMatcher{
-																																	pos:        position{line: 798, col: 23, offset: 25641},
+																																	pos:        position{line: 798, col: 23, offset: 25709},
 																																	val:        "_",
 																																	ignoreCase: false,
 																																	want:       "\"_\"",
@@ -8188,12 +8188,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 800, col: 8, offset: 25725},
+																												pos: position{line: 800, col: 8, offset: 25793},
 																												expr: &actionExpr{
-																													pos: position{line: 2901, col: 10, offset: 91483},
+																													pos: position{line: 2902, col: 10, offset: 91633},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2901, col: 10, offset: 91483},
+																														pos:        position{line: 2902, col: 10, offset: 91633},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8202,28 +8202,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2923, col: 8, offset: 91881},
+																												pos: position{line: 2924, col: 8, offset: 92031},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2910, col: 12, offset: 91654},
+																														pos: position{line: 2911, col: 12, offset: 91804},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2910, col: 13, offset: 91655},
+																															pos: position{line: 2911, col: 13, offset: 91805},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2910, col: 13, offset: 91655},
+																																	pos:        position{line: 2911, col: 13, offset: 91805},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2910, col: 20, offset: 91662},
+																																	pos:        position{line: 2911, col: 20, offset: 91812},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2910, col: 29, offset: 91671},
+																																	pos:        position{line: 2911, col: 29, offset: 91821},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8232,9 +8232,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2920, col: 8, offset: 91831},
+																														pos: position{line: 2921, col: 8, offset: 91981},
 																														expr: &anyMatcher{
-																															line: 2920, col: 9, offset: 91832,
+																															line: 2921, col: 9, offset: 91982,
 																														},
 																													},
 																												},
@@ -8244,45 +8244,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1059, col: 5, offset: 32610},
+																								pos: position{line: 1059, col: 5, offset: 32678},
 																								run: (*parser).callonDocumentFragment932,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2920, col: 8, offset: 91831},
+																						pos: position{line: 2921, col: 8, offset: 91981},
 																						expr: &anyMatcher{
-																							line: 2920, col: 9, offset: 91832,
+																							line: 2921, col: 9, offset: 91982,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1066, col: 5, offset: 32763},
+																			pos:   position{line: 1066, col: 5, offset: 32831},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26117},
+																				pos: position{line: 812, col: 5, offset: 26185},
 																				run: (*parser).callonDocumentFragment936,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26117},
+																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2918, col: 11, offset: 91817},
+																							pos: position{line: 2919, col: 11, offset: 91967},
 																							expr: &anyMatcher{
-																								line: 2918, col: 13, offset: 91819,
+																								line: 2919, col: 13, offset: 91969,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26192},
+																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2847, col: 13, offset: 90009},
+																								pos: position{line: 2848, col: 13, offset: 90159},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2847, col: 13, offset: 90009},
+																									pos: position{line: 2848, col: 13, offset: 90159},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2847, col: 13, offset: 90009},
+																										pos:        position{line: 2848, col: 13, offset: 90159},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8292,28 +8292,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8322,9 +8322,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -8339,44 +8339,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1051, col: 5, offset: 32385},
+														pos:   position{line: 1051, col: 5, offset: 32453},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1051, col: 9, offset: 32389},
+															pos: position{line: 1051, col: 9, offset: 32457},
 															expr: &choiceExpr{
-																pos: position{line: 1058, col: 5, offset: 32581},
+																pos: position{line: 1058, col: 5, offset: 32649},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1058, col: 5, offset: 32581},
+																		pos: position{line: 1058, col: 5, offset: 32649},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1058, col: 5, offset: 32581},
+																				pos:   position{line: 1058, col: 5, offset: 32649},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 798, col: 5, offset: 25623},
+																					pos: position{line: 798, col: 5, offset: 25691},
 																					run: (*parser).callonDocumentFragment957,
 																					expr: &seqExpr{
-																						pos: position{line: 798, col: 5, offset: 25623},
+																						pos: position{line: 798, col: 5, offset: 25691},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 798, col: 5, offset: 25623},
+																								pos:   position{line: 798, col: 5, offset: 25691},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 798, col: 16, offset: 25634},
+																									pos: position{line: 798, col: 16, offset: 25702},
 																									run: (*parser).callonDocumentFragment960,
 																									expr: &seqExpr{
-																										pos: position{line: 798, col: 16, offset: 25634},
+																										pos: position{line: 798, col: 16, offset: 25702},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 798, col: 16, offset: 25634},
+																												pos:        position{line: 798, col: 16, offset: 25702},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 798, col: 23, offset: 25641},
+																												pos: position{line: 798, col: 23, offset: 25709},
 																												expr: &litMatcher{
-																													pos:        position{line: 798, col: 23, offset: 25641},
+																													pos:        position{line: 798, col: 23, offset: 25709},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -8387,12 +8387,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 800, col: 8, offset: 25725},
+																								pos: position{line: 800, col: 8, offset: 25793},
 																								expr: &actionExpr{
-																									pos: position{line: 2901, col: 10, offset: 91483},
+																									pos: position{line: 2902, col: 10, offset: 91633},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2901, col: 10, offset: 91483},
+																										pos:        position{line: 2902, col: 10, offset: 91633},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8401,28 +8401,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2923, col: 8, offset: 91881},
+																								pos: position{line: 2924, col: 8, offset: 92031},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2910, col: 12, offset: 91654},
+																										pos: position{line: 2911, col: 12, offset: 91804},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2910, col: 13, offset: 91655},
+																											pos: position{line: 2911, col: 13, offset: 91805},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 13, offset: 91655},
+																													pos:        position{line: 2911, col: 13, offset: 91805},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 20, offset: 91662},
+																													pos:        position{line: 2911, col: 20, offset: 91812},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 29, offset: 91671},
+																													pos:        position{line: 2911, col: 29, offset: 91821},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8431,9 +8431,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2920, col: 8, offset: 91831},
+																										pos: position{line: 2921, col: 8, offset: 91981},
 																										expr: &anyMatcher{
-																											line: 2920, col: 9, offset: 91832,
+																											line: 2921, col: 9, offset: 91982,
 																										},
 																									},
 																								},
@@ -8443,15 +8443,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1059, col: 5, offset: 32610},
+																				pos: position{line: 1059, col: 5, offset: 32678},
 																				run: (*parser).callonDocumentFragment976,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2920, col: 8, offset: 91831},
+																		pos: position{line: 2921, col: 8, offset: 91981},
 																		expr: &anyMatcher{
-																			line: 2920, col: 9, offset: 91832,
+																			line: 2921, col: 9, offset: 91982,
 																		},
 																	},
 																},
@@ -8462,39 +8462,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1074, col: 5, offset: 32918},
+											pos: position{line: 1074, col: 5, offset: 32986},
 											run: (*parser).callonDocumentFragment979,
 											expr: &seqExpr{
-												pos: position{line: 1074, col: 5, offset: 32918},
+												pos: position{line: 1074, col: 5, offset: 32986},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1074, col: 5, offset: 32918},
+														pos:   position{line: 1074, col: 5, offset: 32986},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 805, col: 5, offset: 25869},
+															pos: position{line: 805, col: 5, offset: 25937},
 															run: (*parser).callonDocumentFragment982,
 															expr: &seqExpr{
-																pos: position{line: 805, col: 5, offset: 25869},
+																pos: position{line: 805, col: 5, offset: 25937},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 805, col: 5, offset: 25869},
+																		pos:   position{line: 805, col: 5, offset: 25937},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 805, col: 16, offset: 25880},
+																			pos: position{line: 805, col: 16, offset: 25948},
 																			run: (*parser).callonDocumentFragment985,
 																			expr: &seqExpr{
-																				pos: position{line: 805, col: 16, offset: 25880},
+																				pos: position{line: 805, col: 16, offset: 25948},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 805, col: 16, offset: 25880},
+																						pos:        position{line: 805, col: 16, offset: 25948},
 																						val:        "****",
 																						ignoreCase: false,
 																						want:       "\"****\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 805, col: 23, offset: 25887},
+																						pos: position{line: 805, col: 23, offset: 25955},
 																						expr: &litMatcher{
-																							pos:        position{line: 805, col: 23, offset: 25887},
+																							pos:        position{line: 805, col: 23, offset: 25955},
 																							val:        "*",
 																							ignoreCase: false,
 																							want:       "\"*\"",
@@ -8505,12 +8505,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 807, col: 8, offset: 25971},
+																		pos: position{line: 807, col: 8, offset: 26039},
 																		expr: &actionExpr{
-																			pos: position{line: 2901, col: 10, offset: 91483},
+																			pos: position{line: 2902, col: 10, offset: 91633},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2901, col: 10, offset: 91483},
+																				pos:        position{line: 2902, col: 10, offset: 91633},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8519,28 +8519,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2923, col: 8, offset: 91881},
+																		pos: position{line: 2924, col: 8, offset: 92031},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2910, col: 12, offset: 91654},
+																				pos: position{line: 2911, col: 12, offset: 91804},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2910, col: 13, offset: 91655},
+																					pos: position{line: 2911, col: 13, offset: 91805},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 13, offset: 91655},
+																							pos:        position{line: 2911, col: 13, offset: 91805},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 20, offset: 91662},
+																							pos:        position{line: 2911, col: 20, offset: 91812},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 29, offset: 91671},
+																							pos:        position{line: 2911, col: 29, offset: 91821},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8549,9 +8549,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2920, col: 8, offset: 91831},
+																				pos: position{line: 2921, col: 8, offset: 91981},
 																				expr: &anyMatcher{
-																					line: 2920, col: 9, offset: 91832,
+																					line: 2921, col: 9, offset: 91982,
 																				},
 																			},
 																		},
@@ -8561,56 +8561,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1075, col: 5, offset: 32957},
+														pos: position{line: 1075, col: 5, offset: 33025},
 														run: (*parser).callonDocumentFragment1001,
 													},
 													&labeledExpr{
-														pos:   position{line: 1078, col: 5, offset: 33049},
+														pos:   position{line: 1078, col: 5, offset: 33117},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1093, col: 4, offset: 33446},
+															pos: position{line: 1093, col: 4, offset: 33514},
 															expr: &actionExpr{
-																pos: position{line: 1093, col: 5, offset: 33447},
+																pos: position{line: 1093, col: 5, offset: 33515},
 																run: (*parser).callonDocumentFragment1004,
 																expr: &seqExpr{
-																	pos: position{line: 1093, col: 5, offset: 33447},
+																	pos: position{line: 1093, col: 5, offset: 33515},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1093, col: 5, offset: 33447},
+																			pos: position{line: 1093, col: 5, offset: 33515},
 																			expr: &choiceExpr{
-																				pos: position{line: 1086, col: 5, offset: 33289},
+																				pos: position{line: 1086, col: 5, offset: 33357},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1086, col: 5, offset: 33289},
+																						pos: position{line: 1086, col: 5, offset: 33357},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1086, col: 5, offset: 33289},
+																								pos:   position{line: 1086, col: 5, offset: 33357},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 805, col: 5, offset: 25869},
+																									pos: position{line: 805, col: 5, offset: 25937},
 																									run: (*parser).callonDocumentFragment1010,
 																									expr: &seqExpr{
-																										pos: position{line: 805, col: 5, offset: 25869},
+																										pos: position{line: 805, col: 5, offset: 25937},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 805, col: 5, offset: 25869},
+																												pos:   position{line: 805, col: 5, offset: 25937},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 805, col: 16, offset: 25880},
+																													pos: position{line: 805, col: 16, offset: 25948},
 																													run: (*parser).callonDocumentFragment1013,
 																													expr: &seqExpr{
-																														pos: position{line: 805, col: 16, offset: 25880},
+																														pos: position{line: 805, col: 16, offset: 25948},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 805, col: 16, offset: 25880},
+																																pos:        position{line: 805, col: 16, offset: 25948},
 																																val:        "****",
 																																ignoreCase: false,
 																																want:       "\"****\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 805, col: 23, offset: 25887},
+																																pos: position{line: 805, col: 23, offset: 25955},
 																																expr: &litMatcher{
-																																	pos:        position{line: 805, col: 23, offset: 25887},
+																																	pos:        position{line: 805, col: 23, offset: 25955},
 																																	val:        "*",
 																																	ignoreCase: false,
 																																	want:       "\"*\"",
@@ -8621,12 +8621,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 807, col: 8, offset: 25971},
+																												pos: position{line: 807, col: 8, offset: 26039},
 																												expr: &actionExpr{
-																													pos: position{line: 2901, col: 10, offset: 91483},
+																													pos: position{line: 2902, col: 10, offset: 91633},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2901, col: 10, offset: 91483},
+																														pos:        position{line: 2902, col: 10, offset: 91633},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8635,28 +8635,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2923, col: 8, offset: 91881},
+																												pos: position{line: 2924, col: 8, offset: 92031},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2910, col: 12, offset: 91654},
+																														pos: position{line: 2911, col: 12, offset: 91804},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2910, col: 13, offset: 91655},
+																															pos: position{line: 2911, col: 13, offset: 91805},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2910, col: 13, offset: 91655},
+																																	pos:        position{line: 2911, col: 13, offset: 91805},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2910, col: 20, offset: 91662},
+																																	pos:        position{line: 2911, col: 20, offset: 91812},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2910, col: 29, offset: 91671},
+																																	pos:        position{line: 2911, col: 29, offset: 91821},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8665,9 +8665,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2920, col: 8, offset: 91831},
+																														pos: position{line: 2921, col: 8, offset: 91981},
 																														expr: &anyMatcher{
-																															line: 2920, col: 9, offset: 91832,
+																															line: 2921, col: 9, offset: 91982,
 																														},
 																													},
 																												},
@@ -8677,45 +8677,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1087, col: 5, offset: 33320},
+																								pos: position{line: 1087, col: 5, offset: 33388},
 																								run: (*parser).callonDocumentFragment1029,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2920, col: 8, offset: 91831},
+																						pos: position{line: 2921, col: 8, offset: 91981},
 																						expr: &anyMatcher{
-																							line: 2920, col: 9, offset: 91832,
+																							line: 2921, col: 9, offset: 91982,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1094, col: 5, offset: 33477},
+																			pos:   position{line: 1094, col: 5, offset: 33545},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26117},
+																				pos: position{line: 812, col: 5, offset: 26185},
 																				run: (*parser).callonDocumentFragment1033,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26117},
+																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2918, col: 11, offset: 91817},
+																							pos: position{line: 2919, col: 11, offset: 91967},
 																							expr: &anyMatcher{
-																								line: 2918, col: 13, offset: 91819,
+																								line: 2919, col: 13, offset: 91969,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26192},
+																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2847, col: 13, offset: 90009},
+																								pos: position{line: 2848, col: 13, offset: 90159},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2847, col: 13, offset: 90009},
+																									pos: position{line: 2848, col: 13, offset: 90159},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2847, col: 13, offset: 90009},
+																										pos:        position{line: 2848, col: 13, offset: 90159},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8725,28 +8725,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8755,9 +8755,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -8772,44 +8772,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1079, col: 5, offset: 33083},
+														pos:   position{line: 1079, col: 5, offset: 33151},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1079, col: 9, offset: 33087},
+															pos: position{line: 1079, col: 9, offset: 33155},
 															expr: &choiceExpr{
-																pos: position{line: 1086, col: 5, offset: 33289},
+																pos: position{line: 1086, col: 5, offset: 33357},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1086, col: 5, offset: 33289},
+																		pos: position{line: 1086, col: 5, offset: 33357},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1086, col: 5, offset: 33289},
+																				pos:   position{line: 1086, col: 5, offset: 33357},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 805, col: 5, offset: 25869},
+																					pos: position{line: 805, col: 5, offset: 25937},
 																					run: (*parser).callonDocumentFragment1054,
 																					expr: &seqExpr{
-																						pos: position{line: 805, col: 5, offset: 25869},
+																						pos: position{line: 805, col: 5, offset: 25937},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 805, col: 5, offset: 25869},
+																								pos:   position{line: 805, col: 5, offset: 25937},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 805, col: 16, offset: 25880},
+																									pos: position{line: 805, col: 16, offset: 25948},
 																									run: (*parser).callonDocumentFragment1057,
 																									expr: &seqExpr{
-																										pos: position{line: 805, col: 16, offset: 25880},
+																										pos: position{line: 805, col: 16, offset: 25948},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 805, col: 16, offset: 25880},
+																												pos:        position{line: 805, col: 16, offset: 25948},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 805, col: 23, offset: 25887},
+																												pos: position{line: 805, col: 23, offset: 25955},
 																												expr: &litMatcher{
-																													pos:        position{line: 805, col: 23, offset: 25887},
+																													pos:        position{line: 805, col: 23, offset: 25955},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -8820,12 +8820,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 807, col: 8, offset: 25971},
+																								pos: position{line: 807, col: 8, offset: 26039},
 																								expr: &actionExpr{
-																									pos: position{line: 2901, col: 10, offset: 91483},
+																									pos: position{line: 2902, col: 10, offset: 91633},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2901, col: 10, offset: 91483},
+																										pos:        position{line: 2902, col: 10, offset: 91633},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8834,28 +8834,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2923, col: 8, offset: 91881},
+																								pos: position{line: 2924, col: 8, offset: 92031},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2910, col: 12, offset: 91654},
+																										pos: position{line: 2911, col: 12, offset: 91804},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2910, col: 13, offset: 91655},
+																											pos: position{line: 2911, col: 13, offset: 91805},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 13, offset: 91655},
+																													pos:        position{line: 2911, col: 13, offset: 91805},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 20, offset: 91662},
+																													pos:        position{line: 2911, col: 20, offset: 91812},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 29, offset: 91671},
+																													pos:        position{line: 2911, col: 29, offset: 91821},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8864,9 +8864,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2920, col: 8, offset: 91831},
+																										pos: position{line: 2921, col: 8, offset: 91981},
 																										expr: &anyMatcher{
-																											line: 2920, col: 9, offset: 91832,
+																											line: 2921, col: 9, offset: 91982,
 																										},
 																									},
 																								},
@@ -8876,15 +8876,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1087, col: 5, offset: 33320},
+																				pos: position{line: 1087, col: 5, offset: 33388},
 																				run: (*parser).callonDocumentFragment1073,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2920, col: 8, offset: 91831},
+																		pos: position{line: 2921, col: 8, offset: 91981},
 																		expr: &anyMatcher{
-																			line: 2920, col: 9, offset: 91832,
+																			line: 2921, col: 9, offset: 91982,
 																		},
 																	},
 																},
@@ -8895,52 +8895,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2746, col: 18, offset: 87073},
+											pos: position{line: 2747, col: 18, offset: 87223},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2746, col: 18, offset: 87073},
+												pos: position{line: 2747, col: 18, offset: 87223},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2747, col: 9, offset: 87083},
+														pos: position{line: 2748, col: 9, offset: 87233},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2747, col: 9, offset: 87083},
+																pos:        position{line: 2748, col: 9, offset: 87233},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2748, col: 11, offset: 87119},
+																pos:        position{line: 2749, col: 11, offset: 87269},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2748, col: 19, offset: 87127},
+																pos:        position{line: 2749, col: 19, offset: 87277},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2748, col: 29, offset: 87137},
+																pos:        position{line: 2749, col: 29, offset: 87287},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2748, col: 37, offset: 87145},
+																pos:        position{line: 2749, col: 37, offset: 87295},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2748, col: 47, offset: 87155},
+																pos:        position{line: 2749, col: 47, offset: 87305},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2748, col: 55, offset: 87163},
+																pos:        position{line: 2749, col: 55, offset: 87313},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -8948,12 +8948,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2749, col: 11, offset: 87221},
+														pos: position{line: 2750, col: 11, offset: 87371},
 														expr: &actionExpr{
-															pos: position{line: 2901, col: 10, offset: 91483},
+															pos: position{line: 2902, col: 10, offset: 91633},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2901, col: 10, offset: 91483},
+																pos:        position{line: 2902, col: 10, offset: 91633},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -8962,28 +8962,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2923, col: 8, offset: 91881},
+														pos: position{line: 2924, col: 8, offset: 92031},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2910, col: 12, offset: 91654},
+																pos: position{line: 2911, col: 12, offset: 91804},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2910, col: 13, offset: 91655},
+																	pos: position{line: 2911, col: 13, offset: 91805},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 13, offset: 91655},
+																			pos:        position{line: 2911, col: 13, offset: 91805},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 20, offset: 91662},
+																			pos:        position{line: 2911, col: 20, offset: 91812},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 29, offset: 91671},
+																			pos:        position{line: 2911, col: 29, offset: 91821},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -8992,36 +8992,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2920, col: 8, offset: 91831},
+																pos: position{line: 2921, col: 8, offset: 91981},
 																expr: &anyMatcher{
-																	line: 2920, col: 9, offset: 91832,
+																	line: 2921, col: 9, offset: 91982,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2923, col: 8, offset: 91881},
+														pos: position{line: 2924, col: 8, offset: 92031},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2910, col: 12, offset: 91654},
+																pos: position{line: 2911, col: 12, offset: 91804},
 																run: (*parser).callonDocumentFragment1098,
 																expr: &choiceExpr{
-																	pos: position{line: 2910, col: 13, offset: 91655},
+																	pos: position{line: 2911, col: 13, offset: 91805},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 13, offset: 91655},
+																			pos:        position{line: 2911, col: 13, offset: 91805},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 20, offset: 91662},
+																			pos:        position{line: 2911, col: 20, offset: 91812},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 29, offset: 91671},
+																			pos:        position{line: 2911, col: 29, offset: 91821},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9030,9 +9030,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2920, col: 8, offset: 91831},
+																pos: position{line: 2921, col: 8, offset: 91981},
 																expr: &anyMatcher{
-																	line: 2920, col: 9, offset: 91832,
+																	line: 2921, col: 9, offset: 91982,
 																},
 															},
 														},
@@ -9045,24 +9045,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2637, col: 5, offset: 84009},
+											pos: position{line: 2638, col: 5, offset: 84139},
 											run: (*parser).callonDocumentFragment1106,
 											expr: &seqExpr{
-												pos: position{line: 2637, col: 5, offset: 84009},
+												pos: position{line: 2638, col: 5, offset: 84139},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2643, col: 19, offset: 84166},
+														pos:        position{line: 2644, col: 19, offset: 84316},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2643, col: 26, offset: 84173},
+														pos: position{line: 2644, col: 26, offset: 84323},
 														expr: &actionExpr{
-															pos: position{line: 2901, col: 10, offset: 91483},
+															pos: position{line: 2902, col: 10, offset: 91633},
 															run: (*parser).callonDocumentFragment1110,
 															expr: &charClassMatcher{
-																pos:        position{line: 2901, col: 10, offset: 91483},
+																pos:        position{line: 2902, col: 10, offset: 91633},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9071,28 +9071,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2923, col: 8, offset: 91881},
+														pos: position{line: 2924, col: 8, offset: 92031},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2910, col: 12, offset: 91654},
+																pos: position{line: 2911, col: 12, offset: 91804},
 																run: (*parser).callonDocumentFragment1113,
 																expr: &choiceExpr{
-																	pos: position{line: 2910, col: 13, offset: 91655},
+																	pos: position{line: 2911, col: 13, offset: 91805},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 13, offset: 91655},
+																			pos:        position{line: 2911, col: 13, offset: 91805},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 20, offset: 91662},
+																			pos:        position{line: 2911, col: 20, offset: 91812},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 29, offset: 91671},
+																			pos:        position{line: 2911, col: 29, offset: 91821},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9101,40 +9101,40 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2920, col: 8, offset: 91831},
+																pos: position{line: 2921, col: 8, offset: 91981},
 																expr: &anyMatcher{
-																	line: 2920, col: 9, offset: 91832,
+																	line: 2921, col: 9, offset: 91982,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2638, col: 5, offset: 84033},
+														pos:   position{line: 2639, col: 5, offset: 84163},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2638, col: 11, offset: 84039},
+															pos: position{line: 2639, col: 11, offset: 84169},
 															expr: &choiceExpr{
-																pos: position{line: 2638, col: 12, offset: 84040},
+																pos: position{line: 2639, col: 12, offset: 84170},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 678, col: 14, offset: 21518},
+																		pos: position{line: 678, col: 14, offset: 21586},
 																		run: (*parser).callonDocumentFragment1123,
 																		expr: &seqExpr{
-																			pos: position{line: 678, col: 14, offset: 21518},
+																			pos: position{line: 678, col: 14, offset: 21586},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2918, col: 11, offset: 91817},
+																					pos: position{line: 2919, col: 11, offset: 91967},
 																					expr: &anyMatcher{
-																						line: 2918, col: 13, offset: 91819,
+																						line: 2919, col: 13, offset: 91969,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 678, col: 21, offset: 21525},
+																					pos: position{line: 678, col: 21, offset: 21593},
 																					expr: &actionExpr{
-																						pos: position{line: 2901, col: 10, offset: 91483},
+																						pos: position{line: 2902, col: 10, offset: 91633},
 																						run: (*parser).callonDocumentFragment1128,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2901, col: 10, offset: 91483},
+																							pos:        position{line: 2902, col: 10, offset: 91633},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9143,28 +9143,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2923, col: 8, offset: 91881},
+																					pos: position{line: 2924, col: 8, offset: 92031},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2910, col: 12, offset: 91654},
+																							pos: position{line: 2911, col: 12, offset: 91804},
 																							run: (*parser).callonDocumentFragment1131,
 																							expr: &choiceExpr{
-																								pos: position{line: 2910, col: 13, offset: 91655},
+																								pos: position{line: 2911, col: 13, offset: 91805},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 13, offset: 91655},
+																										pos:        position{line: 2911, col: 13, offset: 91805},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 20, offset: 91662},
+																										pos:        position{line: 2911, col: 20, offset: 91812},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 29, offset: 91671},
+																										pos:        position{line: 2911, col: 29, offset: 91821},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9173,9 +9173,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2920, col: 8, offset: 91831},
+																							pos: position{line: 2921, col: 8, offset: 91981},
 																							expr: &anyMatcher{
-																								line: 2920, col: 9, offset: 91832,
+																								line: 2921, col: 9, offset: 91982,
 																							},
 																						},
 																					},
@@ -9184,32 +9184,112 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2650, col: 5, offset: 84285},
+																		pos: position{line: 2512, col: 22, offset: 80570},
 																		run: (*parser).callonDocumentFragment1138,
 																		expr: &seqExpr{
-																			pos: position{line: 2650, col: 5, offset: 84285},
+																			pos: position{line: 2512, col: 22, offset: 80570},
+																			exprs: []interface{}{
+																				&litMatcher{
+																					pos:        position{line: 2517, col: 31, offset: 80820},
+																					val:        "//",
+																					ignoreCase: false,
+																					want:       "\"//\"",
+																				},
+																				&notExpr{
+																					pos: position{line: 2517, col: 36, offset: 80825},
+																					expr: &litMatcher{
+																						pos:        position{line: 2517, col: 37, offset: 80826},
+																						val:        "/",
+																						ignoreCase: false,
+																						want:       "\"/\"",
+																					},
+																				},
+																				&labeledExpr{
+																					pos:   position{line: 2512, col: 49, offset: 80597},
+																					label: "content",
+																					expr: &actionExpr{
+																						pos: position{line: 2848, col: 13, offset: 90159},
+																						run: (*parser).callonDocumentFragment1144,
+																						expr: &zeroOrMoreExpr{
+																							pos: position{line: 2848, col: 13, offset: 90159},
+																							expr: &charClassMatcher{
+																								pos:        position{line: 2848, col: 13, offset: 90159},
+																								val:        "[^\\r\\n]",
+																								chars:      []rune{'\r', '\n'},
+																								ignoreCase: false,
+																								inverted:   true,
+																							},
+																						},
+																					},
+																				},
+																				&choiceExpr{
+																					pos: position{line: 2924, col: 8, offset: 92031},
+																					alternatives: []interface{}{
+																						&actionExpr{
+																							pos: position{line: 2911, col: 12, offset: 91804},
+																							run: (*parser).callonDocumentFragment1148,
+																							expr: &choiceExpr{
+																								pos: position{line: 2911, col: 13, offset: 91805},
+																								alternatives: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2911, col: 13, offset: 91805},
+																										val:        "\n",
+																										ignoreCase: false,
+																										want:       "\"\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2911, col: 20, offset: 91812},
+																										val:        "\r\n",
+																										ignoreCase: false,
+																										want:       "\"\\r\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2911, col: 29, offset: 91821},
+																										val:        "\r",
+																										ignoreCase: false,
+																										want:       "\"\\r\"",
+																									},
+																								},
+																							},
+																						},
+																						&notExpr{
+																							pos: position{line: 2921, col: 8, offset: 91981},
+																							expr: &anyMatcher{
+																								line: 2921, col: 9, offset: 91982,
+																							},
+																						},
+																					},
+																				},
+																			},
+																		},
+																	},
+																	&actionExpr{
+																		pos: position{line: 2651, col: 5, offset: 84435},
+																		run: (*parser).callonDocumentFragment1155,
+																		expr: &seqExpr{
+																			pos: position{line: 2651, col: 5, offset: 84435},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2650, col: 5, offset: 84285},
+																					pos: position{line: 2651, col: 5, offset: 84435},
 																					expr: &choiceExpr{
-																						pos: position{line: 2647, col: 22, offset: 84246},
+																						pos: position{line: 2648, col: 22, offset: 84396},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2643, col: 19, offset: 84166},
+																								pos: position{line: 2644, col: 19, offset: 84316},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2643, col: 19, offset: 84166},
+																										pos:        position{line: 2644, col: 19, offset: 84316},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2643, col: 26, offset: 84173},
+																										pos: position{line: 2644, col: 26, offset: 84323},
 																										expr: &actionExpr{
-																											pos: position{line: 2901, col: 10, offset: 91483},
-																											run: (*parser).callonDocumentFragment1145,
+																											pos: position{line: 2902, col: 10, offset: 91633},
+																											run: (*parser).callonDocumentFragment1162,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2901, col: 10, offset: 91483},
+																												pos:        position{line: 2902, col: 10, offset: 91633},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9218,28 +9298,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2923, col: 8, offset: 91881},
+																										pos: position{line: 2924, col: 8, offset: 92031},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2910, col: 12, offset: 91654},
-																												run: (*parser).callonDocumentFragment1148,
+																												pos: position{line: 2911, col: 12, offset: 91804},
+																												run: (*parser).callonDocumentFragment1165,
 																												expr: &choiceExpr{
-																													pos: position{line: 2910, col: 13, offset: 91655},
+																													pos: position{line: 2911, col: 13, offset: 91805},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2910, col: 13, offset: 91655},
+																															pos:        position{line: 2911, col: 13, offset: 91805},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2910, col: 20, offset: 91662},
+																															pos:        position{line: 2911, col: 20, offset: 91812},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2910, col: 29, offset: 91671},
+																															pos:        position{line: 2911, col: 29, offset: 91821},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9248,9 +9328,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2920, col: 8, offset: 91831},
+																												pos: position{line: 2921, col: 8, offset: 91981},
 																												expr: &anyMatcher{
-																													line: 2920, col: 9, offset: 91832,
+																													line: 2921, col: 9, offset: 91982,
 																												},
 																											},
 																										},
@@ -9258,59 +9338,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 8, offset: 91831},
+																								pos: position{line: 2921, col: 8, offset: 91981},
 																								expr: &anyMatcher{
-																									line: 2920, col: 9, offset: 91832,
+																									line: 2921, col: 9, offset: 91982,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2651, col: 5, offset: 84308},
+																					pos:   position{line: 2652, col: 5, offset: 84458},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2652, col: 9, offset: 84326},
+																						pos: position{line: 2653, col: 9, offset: 84476},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2652, col: 10, offset: 84327},
-																								run: (*parser).callonDocumentFragment1159,
+																								pos: position{line: 2653, col: 10, offset: 84477},
+																								run: (*parser).callonDocumentFragment1176,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2652, col: 10, offset: 84327},
+																									pos:   position{line: 2653, col: 10, offset: 84477},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2652, col: 17, offset: 84334},
+																										pos: position{line: 2653, col: 17, offset: 84484},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2660, col: 21, offset: 84530},
-																												run: (*parser).callonDocumentFragment1162,
+																												pos: position{line: 2661, col: 21, offset: 84680},
+																												run: (*parser).callonDocumentFragment1179,
 																												expr: &seqExpr{
-																													pos: position{line: 2660, col: 21, offset: 84530},
+																													pos: position{line: 2661, col: 21, offset: 84680},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2660, col: 21, offset: 84530},
+																															pos:   position{line: 2661, col: 21, offset: 84680},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2660, col: 27, offset: 84536},
+																																pos: position{line: 2661, col: 27, offset: 84686},
 																																expr: &actionExpr{
-																																	pos: position{line: 2665, col: 5, offset: 84611},
-																																	run: (*parser).callonDocumentFragment1166,
+																																	pos: position{line: 2666, col: 5, offset: 84761},
+																																	run: (*parser).callonDocumentFragment1183,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2665, col: 5, offset: 84611},
+																																		pos: position{line: 2666, col: 5, offset: 84761},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2665, col: 5, offset: 84611},
+																																				pos:        position{line: 2666, col: 5, offset: 84761},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2665, col: 9, offset: 84615},
+																																				pos: position{line: 2666, col: 9, offset: 84765},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2901, col: 10, offset: 91483},
-																																					run: (*parser).callonDocumentFragment1170,
+																																					pos: position{line: 2902, col: 10, offset: 91633},
+																																					run: (*parser).callonDocumentFragment1187,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2901, col: 10, offset: 91483},
+																																						pos:        position{line: 2902, col: 10, offset: 91633},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9319,21 +9399,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2665, col: 16, offset: 84622},
+																																				pos:   position{line: 2666, col: 16, offset: 84772},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2671, col: 5, offset: 84822},
-																																					run: (*parser).callonDocumentFragment1173,
+																																					pos: position{line: 2672, col: 5, offset: 84972},
+																																					run: (*parser).callonDocumentFragment1190,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2671, col: 5, offset: 84822},
+																																						pos:   position{line: 2672, col: 5, offset: 84972},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2671, col: 14, offset: 84831},
-																																							run: (*parser).callonDocumentFragment1175,
+																																							pos: position{line: 2672, col: 14, offset: 84981},
+																																							run: (*parser).callonDocumentFragment1192,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2671, col: 14, offset: 84831},
+																																								pos: position{line: 2672, col: 14, offset: 84981},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2671, col: 14, offset: 84831},
+																																									pos:        position{line: 2672, col: 14, offset: 84981},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9350,28 +9430,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2923, col: 8, offset: 91881},
+																															pos: position{line: 2924, col: 8, offset: 92031},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2910, col: 12, offset: 91654},
-																																	run: (*parser).callonDocumentFragment1179,
+																																	pos: position{line: 2911, col: 12, offset: 91804},
+																																	run: (*parser).callonDocumentFragment1196,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2910, col: 13, offset: 91655},
+																																		pos: position{line: 2911, col: 13, offset: 91805},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2910, col: 13, offset: 91655},
+																																				pos:        position{line: 2911, col: 13, offset: 91805},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2910, col: 20, offset: 91662},
+																																				pos:        position{line: 2911, col: 20, offset: 91812},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2910, col: 29, offset: 91671},
+																																				pos:        position{line: 2911, col: 29, offset: 91821},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9380,9 +9460,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2920, col: 8, offset: 91831},
+																																	pos: position{line: 2921, col: 8, offset: 91981},
 																																	expr: &anyMatcher{
-																																		line: 2920, col: 9, offset: 91832,
+																																		line: 2921, col: 9, offset: 91982,
 																																	},
 																																},
 																															},
@@ -9391,40 +9471,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2677, col: 24, offset: 84967},
-																												run: (*parser).callonDocumentFragment1186,
+																												pos: position{line: 2678, col: 24, offset: 85117},
+																												run: (*parser).callonDocumentFragment1203,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2677, col: 24, offset: 84967},
+																													pos:   position{line: 2678, col: 24, offset: 85117},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2677, col: 30, offset: 84973},
+																														pos: position{line: 2678, col: 30, offset: 85123},
 																														expr: &actionExpr{
-																															pos: position{line: 2682, col: 5, offset: 85049},
-																															run: (*parser).callonDocumentFragment1189,
+																															pos: position{line: 2683, col: 5, offset: 85199},
+																															run: (*parser).callonDocumentFragment1206,
 																															expr: &seqExpr{
-																																pos: position{line: 2682, col: 5, offset: 85049},
+																																pos: position{line: 2683, col: 5, offset: 85199},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2682, col: 5, offset: 85049},
+																																		pos: position{line: 2683, col: 5, offset: 85199},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2647, col: 22, offset: 84246},
+																																			pos: position{line: 2648, col: 22, offset: 84396},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2643, col: 19, offset: 84166},
+																																					pos: position{line: 2644, col: 19, offset: 84316},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2643, col: 19, offset: 84166},
+																																							pos:        position{line: 2644, col: 19, offset: 84316},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2643, col: 26, offset: 84173},
+																																							pos: position{line: 2644, col: 26, offset: 84323},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2901, col: 10, offset: 91483},
-																																								run: (*parser).callonDocumentFragment1196,
+																																								pos: position{line: 2902, col: 10, offset: 91633},
+																																								run: (*parser).callonDocumentFragment1213,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2901, col: 10, offset: 91483},
+																																									pos:        position{line: 2902, col: 10, offset: 91633},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9433,28 +9513,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2923, col: 8, offset: 91881},
+																																							pos: position{line: 2924, col: 8, offset: 92031},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2910, col: 12, offset: 91654},
-																																									run: (*parser).callonDocumentFragment1199,
+																																									pos: position{line: 2911, col: 12, offset: 91804},
+																																									run: (*parser).callonDocumentFragment1216,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2910, col: 13, offset: 91655},
+																																										pos: position{line: 2911, col: 13, offset: 91805},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2910, col: 13, offset: 91655},
+																																												pos:        position{line: 2911, col: 13, offset: 91805},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2910, col: 20, offset: 91662},
+																																												pos:        position{line: 2911, col: 20, offset: 91812},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2910, col: 29, offset: 91671},
+																																												pos:        position{line: 2911, col: 29, offset: 91821},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9463,9 +9543,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2920, col: 8, offset: 91831},
+																																									pos: position{line: 2921, col: 8, offset: 91981},
 																																									expr: &anyMatcher{
-																																										line: 2920, col: 9, offset: 91832,
+																																										line: 2921, col: 9, offset: 91982,
 																																									},
 																																								},
 																																							},
@@ -9473,35 +9553,35 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2920, col: 8, offset: 91831},
+																																					pos: position{line: 2921, col: 8, offset: 91981},
 																																					expr: &anyMatcher{
-																																						line: 2920, col: 9, offset: 91832,
+																																						line: 2921, col: 9, offset: 91982,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2683, col: 5, offset: 85072},
+																																		pos: position{line: 2684, col: 5, offset: 85222},
 																																		expr: &actionExpr{
-																																			pos: position{line: 678, col: 14, offset: 21518},
-																																			run: (*parser).callonDocumentFragment1209,
+																																			pos: position{line: 678, col: 14, offset: 21586},
+																																			run: (*parser).callonDocumentFragment1226,
 																																			expr: &seqExpr{
-																																				pos: position{line: 678, col: 14, offset: 21518},
+																																				pos: position{line: 678, col: 14, offset: 21586},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2918, col: 11, offset: 91817},
+																																						pos: position{line: 2919, col: 11, offset: 91967},
 																																						expr: &anyMatcher{
-																																							line: 2918, col: 13, offset: 91819,
+																																							line: 2919, col: 13, offset: 91969,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 678, col: 21, offset: 21525},
+																																						pos: position{line: 678, col: 21, offset: 21593},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2901, col: 10, offset: 91483},
-																																							run: (*parser).callonDocumentFragment1214,
+																																							pos: position{line: 2902, col: 10, offset: 91633},
+																																							run: (*parser).callonDocumentFragment1231,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2901, col: 10, offset: 91483},
+																																								pos:        position{line: 2902, col: 10, offset: 91633},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9510,28 +9590,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2923, col: 8, offset: 91881},
+																																						pos: position{line: 2924, col: 8, offset: 92031},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2910, col: 12, offset: 91654},
-																																								run: (*parser).callonDocumentFragment1217,
+																																								pos: position{line: 2911, col: 12, offset: 91804},
+																																								run: (*parser).callonDocumentFragment1234,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2910, col: 13, offset: 91655},
+																																									pos: position{line: 2911, col: 13, offset: 91805},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2910, col: 13, offset: 91655},
+																																											pos:        position{line: 2911, col: 13, offset: 91805},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2910, col: 20, offset: 91662},
+																																											pos:        position{line: 2911, col: 20, offset: 91812},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2910, col: 29, offset: 91671},
+																																											pos:        position{line: 2911, col: 29, offset: 91821},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9540,9 +9620,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2920, col: 8, offset: 91831},
+																																								pos: position{line: 2921, col: 8, offset: 91981},
 																																								expr: &anyMatcher{
-																																									line: 2920, col: 9, offset: 91832,
+																																									line: 2921, col: 9, offset: 91982,
 																																								},
 																																							},
 																																						},
@@ -9552,17 +9632,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2684, col: 5, offset: 85087},
+																																		pos:   position{line: 2685, col: 5, offset: 85237},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2684, col: 12, offset: 85094},
+																																			pos: position{line: 2685, col: 12, offset: 85244},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2701, col: 20, offset: 85558},
-																																				run: (*parser).callonDocumentFragment1226,
+																																				pos: position{line: 2702, col: 20, offset: 85708},
+																																				run: (*parser).callonDocumentFragment1243,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2701, col: 20, offset: 85558},
+																																					pos: position{line: 2702, col: 20, offset: 85708},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2701, col: 20, offset: 85558},
+																																						pos:        position{line: 2702, col: 20, offset: 85708},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9573,18 +9653,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2684, col: 31, offset: 85113},
+																																		pos:        position{line: 2685, col: 31, offset: 85263},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2684, col: 35, offset: 85117},
+																																		pos: position{line: 2685, col: 35, offset: 85267},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2901, col: 10, offset: 91483},
-																																			run: (*parser).callonDocumentFragment1231,
+																																			pos: position{line: 2902, col: 10, offset: 91633},
+																																			run: (*parser).callonDocumentFragment1248,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2901, col: 10, offset: 91483},
+																																				pos:        position{line: 2902, col: 10, offset: 91633},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9593,27 +9673,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2684, col: 42, offset: 85124},
+																																		pos: position{line: 2685, col: 42, offset: 85274},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2910, col: 12, offset: 91654},
-																																			run: (*parser).callonDocumentFragment1234,
+																																			pos: position{line: 2911, col: 12, offset: 91804},
+																																			run: (*parser).callonDocumentFragment1251,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2910, col: 13, offset: 91655},
+																																				pos: position{line: 2911, col: 13, offset: 91805},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2910, col: 13, offset: 91655},
+																																						pos:        position{line: 2911, col: 13, offset: 91805},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2910, col: 20, offset: 91662},
+																																						pos:        position{line: 2911, col: 20, offset: 91812},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2910, col: 29, offset: 91671},
+																																						pos:        position{line: 2911, col: 29, offset: 91821},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9623,37 +9703,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2684, col: 51, offset: 85133},
+																																		pos:   position{line: 2685, col: 51, offset: 85283},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2690, col: 5, offset: 85292},
+																																			pos: position{line: 2691, col: 5, offset: 85442},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2691, col: 9, offset: 85302},
-																																				run: (*parser).callonDocumentFragment1241,
+																																				pos: position{line: 2692, col: 9, offset: 85452},
+																																				run: (*parser).callonDocumentFragment1258,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2691, col: 9, offset: 85302},
+																																					pos: position{line: 2692, col: 9, offset: 85452},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2691, col: 9, offset: 85302},
+																																							pos: position{line: 2692, col: 9, offset: 85452},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2647, col: 22, offset: 84246},
+																																								pos: position{line: 2648, col: 22, offset: 84396},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2643, col: 19, offset: 84166},
+																																										pos: position{line: 2644, col: 19, offset: 84316},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2643, col: 19, offset: 84166},
+																																												pos:        position{line: 2644, col: 19, offset: 84316},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2643, col: 26, offset: 84173},
+																																												pos: position{line: 2644, col: 26, offset: 84323},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2901, col: 10, offset: 91483},
-																																													run: (*parser).callonDocumentFragment1248,
+																																													pos: position{line: 2902, col: 10, offset: 91633},
+																																													run: (*parser).callonDocumentFragment1265,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2901, col: 10, offset: 91483},
+																																														pos:        position{line: 2902, col: 10, offset: 91633},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9662,28 +9742,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2923, col: 8, offset: 91881},
+																																												pos: position{line: 2924, col: 8, offset: 92031},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2910, col: 12, offset: 91654},
-																																														run: (*parser).callonDocumentFragment1251,
+																																														pos: position{line: 2911, col: 12, offset: 91804},
+																																														run: (*parser).callonDocumentFragment1268,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2910, col: 13, offset: 91655},
+																																															pos: position{line: 2911, col: 13, offset: 91805},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2910, col: 13, offset: 91655},
+																																																	pos:        position{line: 2911, col: 13, offset: 91805},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2910, col: 20, offset: 91662},
+																																																	pos:        position{line: 2911, col: 20, offset: 91812},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2910, col: 29, offset: 91671},
+																																																	pos:        position{line: 2911, col: 29, offset: 91821},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9692,9 +9772,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2920, col: 8, offset: 91831},
+																																														pos: position{line: 2921, col: 8, offset: 91981},
 																																														expr: &anyMatcher{
-																																															line: 2920, col: 9, offset: 91832,
+																																															line: 2921, col: 9, offset: 91982,
 																																														},
 																																													},
 																																												},
@@ -9702,35 +9782,35 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2920, col: 8, offset: 91831},
+																																										pos: position{line: 2921, col: 8, offset: 91981},
 																																										expr: &anyMatcher{
-																																											line: 2920, col: 9, offset: 91832,
+																																											line: 2921, col: 9, offset: 91982,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2692, col: 9, offset: 85329},
+																																							pos: position{line: 2693, col: 9, offset: 85479},
 																																							expr: &actionExpr{
-																																								pos: position{line: 678, col: 14, offset: 21518},
-																																								run: (*parser).callonDocumentFragment1261,
+																																								pos: position{line: 678, col: 14, offset: 21586},
+																																								run: (*parser).callonDocumentFragment1278,
 																																								expr: &seqExpr{
-																																									pos: position{line: 678, col: 14, offset: 21518},
+																																									pos: position{line: 678, col: 14, offset: 21586},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2918, col: 11, offset: 91817},
+																																											pos: position{line: 2919, col: 11, offset: 91967},
 																																											expr: &anyMatcher{
-																																												line: 2918, col: 13, offset: 91819,
+																																												line: 2919, col: 13, offset: 91969,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 678, col: 21, offset: 21525},
+																																											pos: position{line: 678, col: 21, offset: 21593},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2901, col: 10, offset: 91483},
-																																												run: (*parser).callonDocumentFragment1266,
+																																												pos: position{line: 2902, col: 10, offset: 91633},
+																																												run: (*parser).callonDocumentFragment1283,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2901, col: 10, offset: 91483},
+																																													pos:        position{line: 2902, col: 10, offset: 91633},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9739,28 +9819,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2923, col: 8, offset: 91881},
+																																											pos: position{line: 2924, col: 8, offset: 92031},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2910, col: 12, offset: 91654},
-																																													run: (*parser).callonDocumentFragment1269,
+																																													pos: position{line: 2911, col: 12, offset: 91804},
+																																													run: (*parser).callonDocumentFragment1286,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2910, col: 13, offset: 91655},
+																																														pos: position{line: 2911, col: 13, offset: 91805},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2910, col: 13, offset: 91655},
+																																																pos:        position{line: 2911, col: 13, offset: 91805},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2910, col: 20, offset: 91662},
+																																																pos:        position{line: 2911, col: 20, offset: 91812},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2910, col: 29, offset: 91671},
+																																																pos:        position{line: 2911, col: 29, offset: 91821},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9769,9 +9849,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2920, col: 8, offset: 91831},
+																																													pos: position{line: 2921, col: 8, offset: 91981},
 																																													expr: &anyMatcher{
-																																														line: 2920, col: 9, offset: 91832,
+																																														line: 2921, col: 9, offset: 91982,
 																																													},
 																																												},
 																																											},
@@ -9781,22 +9861,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2693, col: 9, offset: 85348},
+																																							pos: position{line: 2694, col: 9, offset: 85498},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2693, col: 11, offset: 85350},
+																																								pos: position{line: 2694, col: 11, offset: 85500},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2693, col: 11, offset: 85350},
+																																										pos:   position{line: 2694, col: 11, offset: 85500},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2693, col: 18, offset: 85357},
+																																											pos: position{line: 2694, col: 18, offset: 85507},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2701, col: 20, offset: 85558},
-																																												run: (*parser).callonDocumentFragment1280,
+																																												pos: position{line: 2702, col: 20, offset: 85708},
+																																												run: (*parser).callonDocumentFragment1297,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2701, col: 20, offset: 85558},
+																																													pos: position{line: 2702, col: 20, offset: 85708},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2701, col: 20, offset: 85558},
+																																														pos:        position{line: 2702, col: 20, offset: 85708},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9807,7 +9887,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2693, col: 37, offset: 85376},
+																																										pos:        position{line: 2694, col: 37, offset: 85526},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9816,15 +9896,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2694, col: 9, offset: 85389},
+																																							pos:   position{line: 2695, col: 9, offset: 85539},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2694, col: 18, offset: 85398},
-																																								run: (*parser).callonDocumentFragment1285,
+																																								pos: position{line: 2695, col: 18, offset: 85548},
+																																								run: (*parser).callonDocumentFragment1302,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2694, col: 18, offset: 85398},
+																																									pos: position{line: 2695, col: 18, offset: 85548},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2694, col: 18, offset: 85398},
+																																										pos:        position{line: 2695, col: 18, offset: 85548},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9834,30 +9914,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2696, col: 12, offset: 85460},
+																																							pos: position{line: 2697, col: 12, offset: 85610},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2923, col: 8, offset: 91881},
+																																								pos: position{line: 2924, col: 8, offset: 92031},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2910, col: 12, offset: 91654},
-																																										run: (*parser).callonDocumentFragment1290,
+																																										pos: position{line: 2911, col: 12, offset: 91804},
+																																										run: (*parser).callonDocumentFragment1307,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2910, col: 13, offset: 91655},
+																																											pos: position{line: 2911, col: 13, offset: 91805},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2910, col: 13, offset: 91655},
+																																													pos:        position{line: 2911, col: 13, offset: 91805},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2910, col: 20, offset: 91662},
+																																													pos:        position{line: 2911, col: 20, offset: 91812},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2910, col: 29, offset: 91671},
+																																													pos:        position{line: 2911, col: 29, offset: 91821},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9866,9 +9946,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2920, col: 8, offset: 91831},
+																																										pos: position{line: 2921, col: 8, offset: 91981},
 																																										expr: &anyMatcher{
-																																											line: 2920, col: 9, offset: 91832,
+																																											line: 2921, col: 9, offset: 91982,
 																																										},
 																																									},
 																																								},
@@ -9890,24 +9970,24 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 678, col: 14, offset: 21518},
-																								run: (*parser).callonDocumentFragment1297,
+																								pos: position{line: 678, col: 14, offset: 21586},
+																								run: (*parser).callonDocumentFragment1314,
 																								expr: &seqExpr{
-																									pos: position{line: 678, col: 14, offset: 21518},
+																									pos: position{line: 678, col: 14, offset: 21586},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2918, col: 11, offset: 91817},
+																											pos: position{line: 2919, col: 11, offset: 91967},
 																											expr: &anyMatcher{
-																												line: 2918, col: 13, offset: 91819,
+																												line: 2919, col: 13, offset: 91969,
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 678, col: 21, offset: 21525},
+																											pos: position{line: 678, col: 21, offset: 21593},
 																											expr: &actionExpr{
-																												pos: position{line: 2901, col: 10, offset: 91483},
-																												run: (*parser).callonDocumentFragment1302,
+																												pos: position{line: 2902, col: 10, offset: 91633},
+																												run: (*parser).callonDocumentFragment1319,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2901, col: 10, offset: 91483},
+																													pos:        position{line: 2902, col: 10, offset: 91633},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -9916,28 +9996,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2923, col: 8, offset: 91881},
+																											pos: position{line: 2924, col: 8, offset: 92031},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2910, col: 12, offset: 91654},
-																													run: (*parser).callonDocumentFragment1305,
+																													pos: position{line: 2911, col: 12, offset: 91804},
+																													run: (*parser).callonDocumentFragment1322,
 																													expr: &choiceExpr{
-																														pos: position{line: 2910, col: 13, offset: 91655},
+																														pos: position{line: 2911, col: 13, offset: 91805},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 13, offset: 91655},
+																																pos:        position{line: 2911, col: 13, offset: 91805},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 20, offset: 91662},
+																																pos:        position{line: 2911, col: 20, offset: 91812},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 29, offset: 91671},
+																																pos:        position{line: 2911, col: 29, offset: 91821},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -9946,9 +10026,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2920, col: 8, offset: 91831},
+																													pos: position{line: 2921, col: 8, offset: 91981},
 																													expr: &anyMatcher{
-																														line: 2920, col: 9, offset: 91832,
+																														line: 2921, col: 9, offset: 91982,
 																													},
 																												},
 																											},
@@ -9967,24 +10047,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2647, col: 22, offset: 84246},
+														pos: position{line: 2648, col: 22, offset: 84396},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2643, col: 19, offset: 84166},
+																pos: position{line: 2644, col: 19, offset: 84316},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2643, col: 19, offset: 84166},
+																		pos:        position{line: 2644, col: 19, offset: 84316},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2643, col: 26, offset: 84173},
+																		pos: position{line: 2644, col: 26, offset: 84323},
 																		expr: &actionExpr{
-																			pos: position{line: 2901, col: 10, offset: 91483},
-																			run: (*parser).callonDocumentFragment1316,
+																			pos: position{line: 2902, col: 10, offset: 91633},
+																			run: (*parser).callonDocumentFragment1333,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2901, col: 10, offset: 91483},
+																				pos:        position{line: 2902, col: 10, offset: 91633},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -9993,28 +10073,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2923, col: 8, offset: 91881},
+																		pos: position{line: 2924, col: 8, offset: 92031},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2910, col: 12, offset: 91654},
-																				run: (*parser).callonDocumentFragment1319,
+																				pos: position{line: 2911, col: 12, offset: 91804},
+																				run: (*parser).callonDocumentFragment1336,
 																				expr: &choiceExpr{
-																					pos: position{line: 2910, col: 13, offset: 91655},
+																					pos: position{line: 2911, col: 13, offset: 91805},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 13, offset: 91655},
+																							pos:        position{line: 2911, col: 13, offset: 91805},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 20, offset: 91662},
+																							pos:        position{line: 2911, col: 20, offset: 91812},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 29, offset: 91671},
+																							pos:        position{line: 2911, col: 29, offset: 91821},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10023,9 +10103,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2920, col: 8, offset: 91831},
+																				pos: position{line: 2921, col: 8, offset: 91981},
 																				expr: &anyMatcher{
-																					line: 2920, col: 9, offset: 91832,
+																					line: 2921, col: 9, offset: 91982,
 																				},
 																			},
 																		},
@@ -10033,9 +10113,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2920, col: 8, offset: 91831},
+																pos: position{line: 2921, col: 8, offset: 91981},
 																expr: &anyMatcher{
-																	line: 2920, col: 9, offset: 91832,
+																	line: 2921, col: 9, offset: 91982,
 																},
 															},
 														},
@@ -10044,36 +10124,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2511, col: 22, offset: 80468},
-											run: (*parser).callonDocumentFragment1328,
+											pos: position{line: 2512, col: 22, offset: 80570},
+											run: (*parser).callonDocumentFragment1345,
 											expr: &seqExpr{
-												pos: position{line: 2511, col: 22, offset: 80468},
+												pos: position{line: 2512, col: 22, offset: 80570},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2516, col: 31, offset: 80689},
+														pos:        position{line: 2517, col: 31, offset: 80820},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2516, col: 36, offset: 80694},
+														pos: position{line: 2517, col: 36, offset: 80825},
 														expr: &litMatcher{
-															pos:        position{line: 2516, col: 37, offset: 80695},
-															val:        "//",
+															pos:        position{line: 2517, col: 37, offset: 80826},
+															val:        "/",
 															ignoreCase: false,
-															want:       "\"//\"",
+															want:       "\"/\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2511, col: 49, offset: 80495},
+														pos:   position{line: 2512, col: 49, offset: 80597},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2847, col: 13, offset: 90009},
-															run: (*parser).callonDocumentFragment1334,
+															pos: position{line: 2848, col: 13, offset: 90159},
+															run: (*parser).callonDocumentFragment1351,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2847, col: 13, offset: 90009},
+																pos: position{line: 2848, col: 13, offset: 90159},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2847, col: 13, offset: 90009},
+																	pos:        position{line: 2848, col: 13, offset: 90159},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10083,28 +10163,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2923, col: 8, offset: 91881},
+														pos: position{line: 2924, col: 8, offset: 92031},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2910, col: 12, offset: 91654},
-																run: (*parser).callonDocumentFragment1338,
+																pos: position{line: 2911, col: 12, offset: 91804},
+																run: (*parser).callonDocumentFragment1355,
 																expr: &choiceExpr{
-																	pos: position{line: 2910, col: 13, offset: 91655},
+																	pos: position{line: 2911, col: 13, offset: 91805},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 13, offset: 91655},
+																			pos:        position{line: 2911, col: 13, offset: 91805},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 20, offset: 91662},
+																			pos:        position{line: 2911, col: 20, offset: 91812},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 29, offset: 91671},
+																			pos:        position{line: 2911, col: 29, offset: 91821},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10113,9 +10193,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2920, col: 8, offset: 91831},
+																pos: position{line: 2921, col: 8, offset: 91981},
 																expr: &anyMatcher{
-																	line: 2920, col: 9, offset: 91832,
+																	line: 2921, col: 9, offset: 91982,
 																},
 															},
 														},
@@ -10124,37 +10204,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1223, col: 5, offset: 37895},
-											run: (*parser).callonDocumentFragment1345,
+											pos: position{line: 1223, col: 5, offset: 37963},
+											run: (*parser).callonDocumentFragment1362,
 											expr: &seqExpr{
-												pos: position{line: 1223, col: 5, offset: 37895},
+												pos: position{line: 1223, col: 5, offset: 37963},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1223, col: 5, offset: 37895},
-														run: (*parser).callonDocumentFragment1347,
+														pos: position{line: 1223, col: 5, offset: 37963},
+														run: (*parser).callonDocumentFragment1364,
 													},
 													&labeledExpr{
-														pos:   position{line: 1226, col: 5, offset: 37953},
+														pos:   position{line: 1226, col: 5, offset: 38021},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1231, col: 20, offset: 38048},
-															run: (*parser).callonDocumentFragment1349,
+															pos: position{line: 1231, col: 20, offset: 38116},
+															run: (*parser).callonDocumentFragment1366,
 															expr: &seqExpr{
-																pos: position{line: 1231, col: 20, offset: 38048},
+																pos: position{line: 1231, col: 20, offset: 38116},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1235, col: 30, offset: 38220},
+																		pos:        position{line: 1235, col: 30, offset: 38288},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1235, col: 36, offset: 38226},
+																		pos: position{line: 1235, col: 36, offset: 38294},
 																		expr: &actionExpr{
-																			pos: position{line: 2901, col: 10, offset: 91483},
-																			run: (*parser).callonDocumentFragment1353,
+																			pos: position{line: 2902, col: 10, offset: 91633},
+																			run: (*parser).callonDocumentFragment1370,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2901, col: 10, offset: 91483},
+																				pos:        position{line: 2902, col: 10, offset: 91633},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10163,28 +10243,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2923, col: 8, offset: 91881},
+																		pos: position{line: 2924, col: 8, offset: 92031},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2910, col: 12, offset: 91654},
-																				run: (*parser).callonDocumentFragment1356,
+																				pos: position{line: 2911, col: 12, offset: 91804},
+																				run: (*parser).callonDocumentFragment1373,
 																				expr: &choiceExpr{
-																					pos: position{line: 2910, col: 13, offset: 91655},
+																					pos: position{line: 2911, col: 13, offset: 91805},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 13, offset: 91655},
+																							pos:        position{line: 2911, col: 13, offset: 91805},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 20, offset: 91662},
+																							pos:        position{line: 2911, col: 20, offset: 91812},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 29, offset: 91671},
+																							pos:        position{line: 2911, col: 29, offset: 91821},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10193,46 +10273,46 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2920, col: 8, offset: 91831},
+																				pos: position{line: 2921, col: 8, offset: 91981},
 																				expr: &anyMatcher{
-																					line: 2920, col: 9, offset: 91832,
+																					line: 2921, col: 9, offset: 91982,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1231, col: 45, offset: 38073},
+																		pos:   position{line: 1231, col: 45, offset: 38141},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1231, col: 53, offset: 38081},
+																			pos: position{line: 1231, col: 53, offset: 38149},
 																			expr: &actionExpr{
-																				pos: position{line: 1237, col: 27, offset: 38264},
-																				run: (*parser).callonDocumentFragment1365,
+																				pos: position{line: 1237, col: 27, offset: 38332},
+																				run: (*parser).callonDocumentFragment1382,
 																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1237, col: 27, offset: 38264},
+																					pos: position{line: 1237, col: 27, offset: 38332},
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1237, col: 28, offset: 38265},
+																						pos: position{line: 1237, col: 28, offset: 38333},
 																						expr: &seqExpr{
-																							pos: position{line: 1237, col: 29, offset: 38266},
+																							pos: position{line: 1237, col: 29, offset: 38334},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 1237, col: 29, offset: 38266},
+																									pos: position{line: 1237, col: 29, offset: 38334},
 																									expr: &seqExpr{
-																										pos: position{line: 1235, col: 30, offset: 38220},
+																										pos: position{line: 1235, col: 30, offset: 38288},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 1235, col: 30, offset: 38220},
+																												pos:        position{line: 1235, col: 30, offset: 38288},
 																												val:        "---",
 																												ignoreCase: false,
 																												want:       "\"---\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 1235, col: 36, offset: 38226},
+																												pos: position{line: 1235, col: 36, offset: 38294},
 																												expr: &actionExpr{
-																													pos: position{line: 2901, col: 10, offset: 91483},
-																													run: (*parser).callonDocumentFragment1373,
+																													pos: position{line: 2902, col: 10, offset: 91633},
+																													run: (*parser).callonDocumentFragment1390,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2901, col: 10, offset: 91483},
+																														pos:        position{line: 2902, col: 10, offset: 91633},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10241,28 +10321,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2923, col: 8, offset: 91881},
+																												pos: position{line: 2924, col: 8, offset: 92031},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2910, col: 12, offset: 91654},
-																														run: (*parser).callonDocumentFragment1376,
+																														pos: position{line: 2911, col: 12, offset: 91804},
+																														run: (*parser).callonDocumentFragment1393,
 																														expr: &choiceExpr{
-																															pos: position{line: 2910, col: 13, offset: 91655},
+																															pos: position{line: 2911, col: 13, offset: 91805},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2910, col: 13, offset: 91655},
+																																	pos:        position{line: 2911, col: 13, offset: 91805},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2910, col: 20, offset: 91662},
+																																	pos:        position{line: 2911, col: 20, offset: 91812},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2910, col: 29, offset: 91671},
+																																	pos:        position{line: 2911, col: 29, offset: 91821},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10271,9 +10351,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2920, col: 8, offset: 91831},
+																														pos: position{line: 2921, col: 8, offset: 91981},
 																														expr: &anyMatcher{
-																															line: 2920, col: 9, offset: 91832,
+																															line: 2921, col: 9, offset: 91982,
 																														},
 																													},
 																												},
@@ -10282,7 +10362,7 @@ var g = &grammar{
 																									},
 																								},
 																								&anyMatcher{
-																									line: 1237, col: 55, offset: 38292,
+																									line: 1237, col: 55, offset: 38360,
 																								},
 																							},
 																						},
@@ -10292,18 +10372,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1235, col: 30, offset: 38220},
+																		pos:        position{line: 1235, col: 30, offset: 38288},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1235, col: 36, offset: 38226},
+																		pos: position{line: 1235, col: 36, offset: 38294},
 																		expr: &actionExpr{
-																			pos: position{line: 2901, col: 10, offset: 91483},
-																			run: (*parser).callonDocumentFragment1386,
+																			pos: position{line: 2902, col: 10, offset: 91633},
+																			run: (*parser).callonDocumentFragment1403,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2901, col: 10, offset: 91483},
+																				pos:        position{line: 2902, col: 10, offset: 91633},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10312,28 +10392,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2923, col: 8, offset: 91881},
+																		pos: position{line: 2924, col: 8, offset: 92031},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2910, col: 12, offset: 91654},
-																				run: (*parser).callonDocumentFragment1389,
+																				pos: position{line: 2911, col: 12, offset: 91804},
+																				run: (*parser).callonDocumentFragment1406,
 																				expr: &choiceExpr{
-																					pos: position{line: 2910, col: 13, offset: 91655},
+																					pos: position{line: 2911, col: 13, offset: 91805},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 13, offset: 91655},
+																							pos:        position{line: 2911, col: 13, offset: 91805},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 20, offset: 91662},
+																							pos:        position{line: 2911, col: 20, offset: 91812},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 29, offset: 91671},
+																							pos:        position{line: 2911, col: 29, offset: 91821},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10342,9 +10422,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2920, col: 8, offset: 91831},
+																				pos: position{line: 2921, col: 8, offset: 91981},
 																				expr: &anyMatcher{
-																					line: 2920, col: 9, offset: 91832,
+																					line: 2921, col: 9, offset: 91982,
 																				},
 																			},
 																		},
@@ -10366,7 +10446,7 @@ var g = &grammar{
 						},
 						&andCodeExpr{
 							pos: position{line: 253, col: 5, offset: 7555},
-							run: (*parser).callonDocumentFragment1397,
+							run: (*parser).callonDocumentFragment1414,
 						},
 					},
 				},
@@ -10394,27 +10474,27 @@ var g = &grammar{
 									pos: position{line: 282, col: 9, offset: 8388},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1199, col: 23, offset: 37001},
+											pos: position{line: 1199, col: 23, offset: 37069},
 											run: (*parser).callonDelimitedBlockElements7,
 											expr: &seqExpr{
-												pos: position{line: 1199, col: 23, offset: 37001},
+												pos: position{line: 1199, col: 23, offset: 37069},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1197, col: 32, offset: 36969},
+														pos:        position{line: 1197, col: 32, offset: 37037},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1199, col: 51, offset: 37029},
+														pos:   position{line: 1199, col: 51, offset: 37097},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1199, col: 56, offset: 37034},
+															pos: position{line: 1199, col: 56, offset: 37102},
 															run: (*parser).callonDelimitedBlockElements11,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1199, col: 56, offset: 37034},
+																pos: position{line: 1199, col: 56, offset: 37102},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1199, col: 56, offset: 37034},
+																	pos:        position{line: 1199, col: 56, offset: 37102},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -10424,7 +10504,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1197, col: 32, offset: 36969},
+														pos:        position{line: 1197, col: 32, offset: 37037},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -10441,9 +10521,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2920, col: 8, offset: 91831},
+							pos: position{line: 2921, col: 8, offset: 91981},
 							expr: &anyMatcher{
-								line: 2920, col: 9, offset: 91832,
+								line: 2921, col: 9, offset: 91982,
 							},
 						},
 					},
@@ -10515,12 +10595,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2905, col: 11, offset: 91544},
+												pos: position{line: 2906, col: 11, offset: 91694},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2905, col: 11, offset: 91544},
+													pos: position{line: 2906, col: 11, offset: 91694},
 													expr: &charClassMatcher{
-														pos:        position{line: 2905, col: 11, offset: 91544},
+														pos:        position{line: 2906, col: 11, offset: 91694},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10542,28 +10622,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2923, col: 8, offset: 91881},
+							pos: position{line: 2924, col: 8, offset: 92031},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2910, col: 12, offset: 91654},
+									pos: position{line: 2911, col: 12, offset: 91804},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2910, col: 13, offset: 91655},
+										pos: position{line: 2911, col: 13, offset: 91805},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2910, col: 13, offset: 91655},
+												pos:        position{line: 2911, col: 13, offset: 91805},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2910, col: 20, offset: 91662},
+												pos:        position{line: 2911, col: 20, offset: 91812},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2910, col: 29, offset: 91671},
+												pos:        position{line: 2911, col: 29, offset: 91821},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10572,9 +10652,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2920, col: 8, offset: 91831},
+									pos: position{line: 2921, col: 8, offset: 91981},
 									expr: &anyMatcher{
-										line: 2920, col: 9, offset: 91832,
+										line: 2921, col: 9, offset: 91982,
 									},
 								},
 							},
@@ -10618,25 +10698,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2910, col: 12, offset: 91654},
+												pos: position{line: 2911, col: 12, offset: 91804},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2910, col: 13, offset: 91655},
+													pos: position{line: 2911, col: 13, offset: 91805},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2910, col: 13, offset: 91655},
+															pos:        position{line: 2911, col: 13, offset: 91805},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2910, col: 20, offset: 91662},
+															pos:        position{line: 2911, col: 20, offset: 91812},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2910, col: 29, offset: 91671},
+															pos:        position{line: 2911, col: 29, offset: 91821},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10647,10 +10727,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2901, col: 10, offset: 91483},
+													pos: position{line: 2902, col: 10, offset: 91633},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2901, col: 10, offset: 91483},
+														pos:        position{line: 2902, col: 10, offset: 91633},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10720,10 +10800,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2901, col: 10, offset: 91483},
+											pos: position{line: 2902, col: 10, offset: 91633},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2901, col: 10, offset: 91483},
+												pos:        position{line: 2902, col: 10, offset: 91633},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10732,28 +10812,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2923, col: 8, offset: 91881},
+										pos: position{line: 2924, col: 8, offset: 92031},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2910, col: 12, offset: 91654},
+												pos: position{line: 2911, col: 12, offset: 91804},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2910, col: 13, offset: 91655},
+													pos: position{line: 2911, col: 13, offset: 91805},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2910, col: 13, offset: 91655},
+															pos:        position{line: 2911, col: 13, offset: 91805},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2910, col: 20, offset: 91662},
+															pos:        position{line: 2911, col: 20, offset: 91812},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2910, col: 29, offset: 91671},
+															pos:        position{line: 2911, col: 29, offset: 91821},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10762,9 +10842,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2920, col: 8, offset: 91831},
+												pos: position{line: 2921, col: 8, offset: 91981},
 												expr: &anyMatcher{
-													line: 2920, col: 9, offset: 91832,
+													line: 2921, col: 9, offset: 91982,
 												},
 											},
 										},
@@ -10797,23 +10877,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2498, col: 5, offset: 80014},
+										pos: position{line: 2499, col: 5, offset: 80116},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2498, col: 5, offset: 80014},
+											pos: position{line: 2499, col: 5, offset: 80116},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2498, col: 5, offset: 80014},
+													pos: position{line: 2499, col: 5, offset: 80116},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2501, col: 5, offset: 80090},
+													pos:   position{line: 2502, col: 5, offset: 80192},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2502, col: 9, offset: 80108},
+														pos: position{line: 2503, col: 9, offset: 80210},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2502, col: 10, offset: 80109},
+															pos:        position{line: 2503, col: 10, offset: 80211},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10825,10 +10905,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2901, col: 10, offset: 91483},
+										pos: position{line: 2902, col: 10, offset: 91633},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2901, col: 10, offset: 91483},
+											pos:        position{line: 2902, col: 10, offset: 91633},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -10836,35 +10916,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 637, col: 5, offset: 20136},
+										pos: position{line: 637, col: 5, offset: 20204},
 										run: (*parser).callonAttributeDeclarationValueElement32,
 										expr: &seqExpr{
-											pos: position{line: 637, col: 5, offset: 20136},
+											pos: position{line: 637, col: 5, offset: 20204},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 637, col: 5, offset: 20136},
+													pos: position{line: 637, col: 5, offset: 20204},
 													run: (*parser).callonAttributeDeclarationValueElement34,
 												},
 												&labeledExpr{
-													pos:   position{line: 640, col: 5, offset: 20208},
+													pos:   position{line: 640, col: 5, offset: 20276},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 640, col: 14, offset: 20217},
+														pos: position{line: 640, col: 14, offset: 20285},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 646, col: 5, offset: 20346},
+																pos: position{line: 646, col: 5, offset: 20414},
 																run: (*parser).callonAttributeDeclarationValueElement37,
 																expr: &seqExpr{
-																	pos: position{line: 646, col: 5, offset: 20346},
+																	pos: position{line: 646, col: 5, offset: 20414},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 646, col: 5, offset: 20346},
+																			pos:        position{line: 646, col: 5, offset: 20414},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 646, col: 13, offset: 20354},
+																			pos:   position{line: 646, col: 13, offset: 20422},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -10896,7 +10976,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 646, col: 32, offset: 20373},
+																			pos:        position{line: 646, col: 32, offset: 20441},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -10905,19 +10985,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 653, col: 5, offset: 20614},
+																pos: position{line: 653, col: 5, offset: 20682},
 																run: (*parser).callonAttributeDeclarationValueElement47,
 																expr: &seqExpr{
-																	pos: position{line: 653, col: 5, offset: 20614},
+																	pos: position{line: 653, col: 5, offset: 20682},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 653, col: 5, offset: 20614},
+																			pos:        position{line: 653, col: 5, offset: 20682},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 653, col: 9, offset: 20618},
+																			pos:   position{line: 653, col: 9, offset: 20686},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -10949,7 +11029,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 653, col: 28, offset: 20637},
+																			pos:        position{line: 653, col: 28, offset: 20705},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -10958,19 +11038,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 659, col: 25, offset: 20818},
+																pos: position{line: 659, col: 25, offset: 20886},
 																run: (*parser).callonAttributeDeclarationValueElement57,
 																expr: &seqExpr{
-																	pos: position{line: 659, col: 25, offset: 20818},
+																	pos: position{line: 659, col: 25, offset: 20886},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 659, col: 25, offset: 20818},
+																			pos:        position{line: 659, col: 25, offset: 20886},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 659, col: 37, offset: 20830},
+																			pos:   position{line: 659, col: 37, offset: 20898},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -11002,33 +11082,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 659, col: 56, offset: 20849},
+																			pos:   position{line: 659, col: 56, offset: 20917},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 659, col: 62, offset: 20855},
+																				pos: position{line: 659, col: 62, offset: 20923},
 																				expr: &actionExpr{
-																					pos: position{line: 667, col: 17, offset: 21152},
+																					pos: position{line: 667, col: 17, offset: 21220},
 																					run: (*parser).callonAttributeDeclarationValueElement68,
 																					expr: &seqExpr{
-																						pos: position{line: 667, col: 17, offset: 21152},
+																						pos: position{line: 667, col: 17, offset: 21220},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 667, col: 17, offset: 21152},
+																								pos:        position{line: 667, col: 17, offset: 21220},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 667, col: 21, offset: 21156},
+																								pos:   position{line: 667, col: 21, offset: 21224},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 667, col: 28, offset: 21163},
+																									pos: position{line: 667, col: 28, offset: 21231},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 667, col: 28, offset: 21163},
+																											pos: position{line: 667, col: 28, offset: 21231},
 																											run: (*parser).callonAttributeDeclarationValueElement73,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 667, col: 28, offset: 21163},
+																												pos:        position{line: 667, col: 28, offset: 21231},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11036,12 +11116,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 669, col: 9, offset: 21217},
+																											pos: position{line: 669, col: 9, offset: 21285},
 																											run: (*parser).callonAttributeDeclarationValueElement75,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 669, col: 9, offset: 21217},
+																												pos: position{line: 669, col: 9, offset: 21285},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 669, col: 9, offset: 21217},
+																													pos:        position{line: 669, col: 9, offset: 21285},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11058,7 +11138,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 659, col: 78, offset: 20871},
+																			pos:        position{line: 659, col: 78, offset: 20939},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11067,19 +11147,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 663, col: 25, offset: 20989},
+																pos: position{line: 663, col: 25, offset: 21057},
 																run: (*parser).callonAttributeDeclarationValueElement79,
 																expr: &seqExpr{
-																	pos: position{line: 663, col: 25, offset: 20989},
+																	pos: position{line: 663, col: 25, offset: 21057},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 663, col: 25, offset: 20989},
+																			pos:        position{line: 663, col: 25, offset: 21057},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 663, col: 38, offset: 21002},
+																			pos:   position{line: 663, col: 38, offset: 21070},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -11111,33 +11191,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 663, col: 57, offset: 21021},
+																			pos:   position{line: 663, col: 57, offset: 21089},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 663, col: 63, offset: 21027},
+																				pos: position{line: 663, col: 63, offset: 21095},
 																				expr: &actionExpr{
-																					pos: position{line: 667, col: 17, offset: 21152},
+																					pos: position{line: 667, col: 17, offset: 21220},
 																					run: (*parser).callonAttributeDeclarationValueElement90,
 																					expr: &seqExpr{
-																						pos: position{line: 667, col: 17, offset: 21152},
+																						pos: position{line: 667, col: 17, offset: 21220},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 667, col: 17, offset: 21152},
+																								pos:        position{line: 667, col: 17, offset: 21220},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 667, col: 21, offset: 21156},
+																								pos:   position{line: 667, col: 21, offset: 21224},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 667, col: 28, offset: 21163},
+																									pos: position{line: 667, col: 28, offset: 21231},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 667, col: 28, offset: 21163},
+																											pos: position{line: 667, col: 28, offset: 21231},
 																											run: (*parser).callonAttributeDeclarationValueElement95,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 667, col: 28, offset: 21163},
+																												pos:        position{line: 667, col: 28, offset: 21231},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11145,12 +11225,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 669, col: 9, offset: 21217},
+																											pos: position{line: 669, col: 9, offset: 21285},
 																											run: (*parser).callonAttributeDeclarationValueElement97,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 669, col: 9, offset: 21217},
+																												pos: position{line: 669, col: 9, offset: 21285},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 669, col: 9, offset: 21217},
+																													pos:        position{line: 669, col: 9, offset: 21285},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11167,7 +11247,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 663, col: 79, offset: 21043},
+																			pos:        position{line: 663, col: 79, offset: 21111},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11212,38 +11292,38 @@ var g = &grammar{
 												pos:   position{line: 372, col: 10, offset: 11462},
 												label: "anchor",
 												expr: &actionExpr{
-													pos: position{line: 404, col: 5, offset: 12337},
+													pos: position{line: 404, col: 5, offset: 12405},
 													run: (*parser).callonBlockAttributes8,
 													expr: &seqExpr{
-														pos: position{line: 404, col: 5, offset: 12337},
+														pos: position{line: 404, col: 5, offset: 12405},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 404, col: 5, offset: 12337},
+																pos:        position{line: 404, col: 5, offset: 12405},
 																val:        "[[",
 																ignoreCase: false,
 																want:       "\"[[\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 405, col: 5, offset: 12347},
+																pos:   position{line: 405, col: 5, offset: 12415},
 																label: "id",
 																expr: &actionExpr{
-																	pos: position{line: 406, col: 9, offset: 12360},
+																	pos: position{line: 406, col: 9, offset: 12428},
 																	run: (*parser).callonBlockAttributes12,
 																	expr: &labeledExpr{
-																		pos:   position{line: 406, col: 9, offset: 12360},
+																		pos:   position{line: 406, col: 9, offset: 12428},
 																		label: "elements",
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 406, col: 18, offset: 12369},
+																			pos: position{line: 406, col: 18, offset: 12437},
 																			expr: &choiceExpr{
-																				pos: position{line: 407, col: 13, offset: 12383},
+																				pos: position{line: 407, col: 13, offset: 12451},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 407, col: 14, offset: 12384},
+																						pos: position{line: 407, col: 14, offset: 12452},
 																						run: (*parser).callonBlockAttributes16,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 407, col: 14, offset: 12384},
+																							pos: position{line: 407, col: 14, offset: 12452},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 407, col: 14, offset: 12384},
+																								pos:        position{line: 407, col: 14, offset: 12452},
 																								val:        "[^=\\r\\n�{]]",
 																								chars:      []rune{'=', '\r', '\n', '�', '{', ']'},
 																								ignoreCase: false,
@@ -11252,27 +11332,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1199, col: 23, offset: 37001},
+																						pos: position{line: 1199, col: 23, offset: 37069},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1199, col: 23, offset: 37001},
+																							pos: position{line: 1199, col: 23, offset: 37069},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1197, col: 32, offset: 36969},
+																									pos:        position{line: 1197, col: 32, offset: 37037},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1199, col: 51, offset: 37029},
+																									pos:   position{line: 1199, col: 51, offset: 37097},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1199, col: 56, offset: 37034},
+																										pos: position{line: 1199, col: 56, offset: 37102},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1199, col: 56, offset: 37034},
+																											pos: position{line: 1199, col: 56, offset: 37102},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1199, col: 56, offset: 37034},
+																												pos:        position{line: 1199, col: 56, offset: 37102},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11282,7 +11362,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1197, col: 32, offset: 36969},
+																									pos:        position{line: 1197, col: 32, offset: 37037},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
@@ -11291,35 +11371,35 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 637, col: 5, offset: 20136},
+																						pos: position{line: 637, col: 5, offset: 20204},
 																						run: (*parser).callonBlockAttributes27,
 																						expr: &seqExpr{
-																							pos: position{line: 637, col: 5, offset: 20136},
+																							pos: position{line: 637, col: 5, offset: 20204},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 637, col: 5, offset: 20136},
+																									pos: position{line: 637, col: 5, offset: 20204},
 																									run: (*parser).callonBlockAttributes29,
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 640, col: 5, offset: 20208},
+																									pos:   position{line: 640, col: 5, offset: 20276},
 																									label: "element",
 																									expr: &choiceExpr{
-																										pos: position{line: 640, col: 14, offset: 20217},
+																										pos: position{line: 640, col: 14, offset: 20285},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 646, col: 5, offset: 20346},
+																												pos: position{line: 646, col: 5, offset: 20414},
 																												run: (*parser).callonBlockAttributes32,
 																												expr: &seqExpr{
-																													pos: position{line: 646, col: 5, offset: 20346},
+																													pos: position{line: 646, col: 5, offset: 20414},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 646, col: 5, offset: 20346},
+																															pos:        position{line: 646, col: 5, offset: 20414},
 																															val:        "\\{",
 																															ignoreCase: false,
 																															want:       "\"\\\\{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 646, col: 13, offset: 20354},
+																															pos:   position{line: 646, col: 13, offset: 20422},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
@@ -11351,7 +11431,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 646, col: 32, offset: 20373},
+																															pos:        position{line: 646, col: 32, offset: 20441},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11360,19 +11440,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 653, col: 5, offset: 20614},
+																												pos: position{line: 653, col: 5, offset: 20682},
 																												run: (*parser).callonBlockAttributes42,
 																												expr: &seqExpr{
-																													pos: position{line: 653, col: 5, offset: 20614},
+																													pos: position{line: 653, col: 5, offset: 20682},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 653, col: 5, offset: 20614},
+																															pos:        position{line: 653, col: 5, offset: 20682},
 																															val:        "{",
 																															ignoreCase: false,
 																															want:       "\"{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 653, col: 9, offset: 20618},
+																															pos:   position{line: 653, col: 9, offset: 20686},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
@@ -11404,7 +11484,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 653, col: 28, offset: 20637},
+																															pos:        position{line: 653, col: 28, offset: 20705},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11413,19 +11493,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 659, col: 25, offset: 20818},
+																												pos: position{line: 659, col: 25, offset: 20886},
 																												run: (*parser).callonBlockAttributes52,
 																												expr: &seqExpr{
-																													pos: position{line: 659, col: 25, offset: 20818},
+																													pos: position{line: 659, col: 25, offset: 20886},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 659, col: 25, offset: 20818},
+																															pos:        position{line: 659, col: 25, offset: 20886},
 																															val:        "{counter:",
 																															ignoreCase: false,
 																															want:       "\"{counter:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 659, col: 37, offset: 20830},
+																															pos:   position{line: 659, col: 37, offset: 20898},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
@@ -11457,33 +11537,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 659, col: 56, offset: 20849},
+																															pos:   position{line: 659, col: 56, offset: 20917},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 659, col: 62, offset: 20855},
+																																pos: position{line: 659, col: 62, offset: 20923},
 																																expr: &actionExpr{
-																																	pos: position{line: 667, col: 17, offset: 21152},
+																																	pos: position{line: 667, col: 17, offset: 21220},
 																																	run: (*parser).callonBlockAttributes63,
 																																	expr: &seqExpr{
-																																		pos: position{line: 667, col: 17, offset: 21152},
+																																		pos: position{line: 667, col: 17, offset: 21220},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 667, col: 17, offset: 21152},
+																																				pos:        position{line: 667, col: 17, offset: 21220},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 667, col: 21, offset: 21156},
+																																				pos:   position{line: 667, col: 21, offset: 21224},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 667, col: 28, offset: 21163},
+																																					pos: position{line: 667, col: 28, offset: 21231},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 667, col: 28, offset: 21163},
+																																							pos: position{line: 667, col: 28, offset: 21231},
 																																							run: (*parser).callonBlockAttributes68,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 667, col: 28, offset: 21163},
+																																								pos:        position{line: 667, col: 28, offset: 21231},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11491,12 +11571,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 669, col: 9, offset: 21217},
+																																							pos: position{line: 669, col: 9, offset: 21285},
 																																							run: (*parser).callonBlockAttributes70,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 669, col: 9, offset: 21217},
+																																								pos: position{line: 669, col: 9, offset: 21285},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 669, col: 9, offset: 21217},
+																																									pos:        position{line: 669, col: 9, offset: 21285},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11513,7 +11593,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 659, col: 78, offset: 20871},
+																															pos:        position{line: 659, col: 78, offset: 20939},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11522,19 +11602,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 663, col: 25, offset: 20989},
+																												pos: position{line: 663, col: 25, offset: 21057},
 																												run: (*parser).callonBlockAttributes74,
 																												expr: &seqExpr{
-																													pos: position{line: 663, col: 25, offset: 20989},
+																													pos: position{line: 663, col: 25, offset: 21057},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 663, col: 25, offset: 20989},
+																															pos:        position{line: 663, col: 25, offset: 21057},
 																															val:        "{counter2:",
 																															ignoreCase: false,
 																															want:       "\"{counter2:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 663, col: 38, offset: 21002},
+																															pos:   position{line: 663, col: 38, offset: 21070},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
@@ -11566,33 +11646,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 663, col: 57, offset: 21021},
+																															pos:   position{line: 663, col: 57, offset: 21089},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 663, col: 63, offset: 21027},
+																																pos: position{line: 663, col: 63, offset: 21095},
 																																expr: &actionExpr{
-																																	pos: position{line: 667, col: 17, offset: 21152},
+																																	pos: position{line: 667, col: 17, offset: 21220},
 																																	run: (*parser).callonBlockAttributes85,
 																																	expr: &seqExpr{
-																																		pos: position{line: 667, col: 17, offset: 21152},
+																																		pos: position{line: 667, col: 17, offset: 21220},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 667, col: 17, offset: 21152},
+																																				pos:        position{line: 667, col: 17, offset: 21220},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 667, col: 21, offset: 21156},
+																																				pos:   position{line: 667, col: 21, offset: 21224},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 667, col: 28, offset: 21163},
+																																					pos: position{line: 667, col: 28, offset: 21231},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 667, col: 28, offset: 21163},
+																																							pos: position{line: 667, col: 28, offset: 21231},
 																																							run: (*parser).callonBlockAttributes90,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 667, col: 28, offset: 21163},
+																																								pos:        position{line: 667, col: 28, offset: 21231},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11600,12 +11680,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 669, col: 9, offset: 21217},
+																																							pos: position{line: 669, col: 9, offset: 21285},
 																																							run: (*parser).callonBlockAttributes92,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 669, col: 9, offset: 21217},
+																																								pos: position{line: 669, col: 9, offset: 21285},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 669, col: 9, offset: 21217},
+																																									pos:        position{line: 669, col: 9, offset: 21285},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11622,7 +11702,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 663, col: 79, offset: 21043},
+																															pos:        position{line: 663, col: 79, offset: 21111},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11637,10 +11717,10 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 412, col: 16, offset: 12617},
+																						pos: position{line: 412, col: 16, offset: 12685},
 																						run: (*parser).callonBlockAttributes96,
 																						expr: &litMatcher{
-																							pos:        position{line: 412, col: 16, offset: 12617},
+																							pos:        position{line: 412, col: 16, offset: 12685},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
@@ -11653,7 +11733,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 418, col: 5, offset: 12803},
+																pos:        position{line: 418, col: 5, offset: 12871},
 																val:        "]]",
 																ignoreCase: false,
 																want:       "\"]]\"",
@@ -11665,10 +11745,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 35, offset: 11487},
 												expr: &actionExpr{
-													pos: position{line: 2901, col: 10, offset: 91483},
+													pos: position{line: 2902, col: 10, offset: 91633},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2901, col: 10, offset: 91483},
+														pos:        position{line: 2902, col: 10, offset: 91633},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11677,28 +11757,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2923, col: 8, offset: 91881},
+												pos: position{line: 2924, col: 8, offset: 92031},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2910, col: 12, offset: 91654},
+														pos: position{line: 2911, col: 12, offset: 91804},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2910, col: 13, offset: 91655},
+															pos: position{line: 2911, col: 13, offset: 91805},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2910, col: 13, offset: 91655},
+																	pos:        position{line: 2911, col: 13, offset: 91805},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 20, offset: 91662},
+																	pos:        position{line: 2911, col: 20, offset: 91812},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 29, offset: 91671},
+																	pos:        position{line: 2911, col: 29, offset: 91821},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11707,75 +11787,160 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2920, col: 8, offset: 91831},
+														pos: position{line: 2921, col: 8, offset: 91981},
 														expr: &anyMatcher{
-															line: 2920, col: 9, offset: 91832,
+															line: 2921, col: 9, offset: 91982,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 46, offset: 11498},
-												expr: &actionExpr{
-													pos: position{line: 678, col: 14, offset: 21518},
-													run: (*parser).callonBlockAttributes111,
-													expr: &seqExpr{
-														pos: position{line: 678, col: 14, offset: 21518},
-														exprs: []interface{}{
-															&andExpr{
-																pos: position{line: 2918, col: 11, offset: 91817},
-																expr: &anyMatcher{
-																	line: 2918, col: 13, offset: 91819,
+												expr: &choiceExpr{
+													pos: position{line: 372, col: 47, offset: 11499},
+													alternatives: []interface{}{
+														&actionExpr{
+															pos: position{line: 678, col: 14, offset: 21586},
+															run: (*parser).callonBlockAttributes112,
+															expr: &seqExpr{
+																pos: position{line: 678, col: 14, offset: 21586},
+																exprs: []interface{}{
+																	&andExpr{
+																		pos: position{line: 2919, col: 11, offset: 91967},
+																		expr: &anyMatcher{
+																			line: 2919, col: 13, offset: 91969,
+																		},
+																	},
+																	&zeroOrMoreExpr{
+																		pos: position{line: 678, col: 21, offset: 21593},
+																		expr: &actionExpr{
+																			pos: position{line: 2902, col: 10, offset: 91633},
+																			run: (*parser).callonBlockAttributes117,
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2902, col: 10, offset: 91633},
+																				val:        "[\\t ]",
+																				chars:      []rune{'\t', ' '},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
+																		},
+																	},
+																	&choiceExpr{
+																		pos: position{line: 2924, col: 8, offset: 92031},
+																		alternatives: []interface{}{
+																			&actionExpr{
+																				pos: position{line: 2911, col: 12, offset: 91804},
+																				run: (*parser).callonBlockAttributes120,
+																				expr: &choiceExpr{
+																					pos: position{line: 2911, col: 13, offset: 91805},
+																					alternatives: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							val:        "\n",
+																							ignoreCase: false,
+																							want:       "\"\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							val:        "\r\n",
+																							ignoreCase: false,
+																							want:       "\"\\r\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							val:        "\r",
+																							ignoreCase: false,
+																							want:       "\"\\r\"",
+																						},
+																					},
+																				},
+																			},
+																			&notExpr{
+																				pos: position{line: 2921, col: 8, offset: 91981},
+																				expr: &anyMatcher{
+																					line: 2921, col: 9, offset: 91982,
+																				},
+																			},
+																		},
+																	},
 																},
 															},
-															&zeroOrMoreExpr{
-																pos: position{line: 678, col: 21, offset: 21525},
-																expr: &actionExpr{
-																	pos: position{line: 2901, col: 10, offset: 91483},
-																	run: (*parser).callonBlockAttributes116,
-																	expr: &charClassMatcher{
-																		pos:        position{line: 2901, col: 10, offset: 91483},
-																		val:        "[\\t ]",
-																		chars:      []rune{'\t', ' '},
+														},
+														&actionExpr{
+															pos: position{line: 2512, col: 22, offset: 80570},
+															run: (*parser).callonBlockAttributes127,
+															expr: &seqExpr{
+																pos: position{line: 2512, col: 22, offset: 80570},
+																exprs: []interface{}{
+																	&litMatcher{
+																		pos:        position{line: 2517, col: 31, offset: 80820},
+																		val:        "//",
 																		ignoreCase: false,
-																		inverted:   false,
+																		want:       "\"//\"",
 																	},
-																},
-															},
-															&choiceExpr{
-																pos: position{line: 2923, col: 8, offset: 91881},
-																alternatives: []interface{}{
-																	&actionExpr{
-																		pos: position{line: 2910, col: 12, offset: 91654},
-																		run: (*parser).callonBlockAttributes119,
-																		expr: &choiceExpr{
-																			pos: position{line: 2910, col: 13, offset: 91655},
-																			alternatives: []interface{}{
-																				&litMatcher{
-																					pos:        position{line: 2910, col: 13, offset: 91655},
-																					val:        "\n",
-																					ignoreCase: false,
-																					want:       "\"\\n\"",
-																				},
-																				&litMatcher{
-																					pos:        position{line: 2910, col: 20, offset: 91662},
-																					val:        "\r\n",
-																					ignoreCase: false,
-																					want:       "\"\\r\\n\"",
-																				},
-																				&litMatcher{
-																					pos:        position{line: 2910, col: 29, offset: 91671},
-																					val:        "\r",
+																	&notExpr{
+																		pos: position{line: 2517, col: 36, offset: 80825},
+																		expr: &litMatcher{
+																			pos:        position{line: 2517, col: 37, offset: 80826},
+																			val:        "/",
+																			ignoreCase: false,
+																			want:       "\"/\"",
+																		},
+																	},
+																	&labeledExpr{
+																		pos:   position{line: 2512, col: 49, offset: 80597},
+																		label: "content",
+																		expr: &actionExpr{
+																			pos: position{line: 2848, col: 13, offset: 90159},
+																			run: (*parser).callonBlockAttributes133,
+																			expr: &zeroOrMoreExpr{
+																				pos: position{line: 2848, col: 13, offset: 90159},
+																				expr: &charClassMatcher{
+																					pos:        position{line: 2848, col: 13, offset: 90159},
+																					val:        "[^\\r\\n]",
+																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
-																					want:       "\"\\r\"",
+																					inverted:   true,
 																				},
 																			},
 																		},
 																	},
-																	&notExpr{
-																		pos: position{line: 2920, col: 8, offset: 91831},
-																		expr: &anyMatcher{
-																			line: 2920, col: 9, offset: 91832,
+																	&choiceExpr{
+																		pos: position{line: 2924, col: 8, offset: 92031},
+																		alternatives: []interface{}{
+																			&actionExpr{
+																				pos: position{line: 2911, col: 12, offset: 91804},
+																				run: (*parser).callonBlockAttributes137,
+																				expr: &choiceExpr{
+																					pos: position{line: 2911, col: 13, offset: 91805},
+																					alternatives: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							val:        "\n",
+																							ignoreCase: false,
+																							want:       "\"\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							val:        "\r\n",
+																							ignoreCase: false,
+																							want:       "\"\\r\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							val:        "\r",
+																							ignoreCase: false,
+																							want:       "\"\\r\"",
+																						},
+																					},
+																				},
+																			},
+																			&notExpr{
+																				pos: position{line: 2921, col: 8, offset: 91981},
+																				expr: &anyMatcher{
+																					line: 2921, col: 9, offset: 91982,
+																				},
+																			},
 																		},
 																	},
 																},
@@ -11788,30 +11953,30 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 376, col: 12, offset: 11619},
-									run: (*parser).callonBlockAttributes126,
+									pos: position{line: 376, col: 12, offset: 11641},
+									run: (*parser).callonBlockAttributes144,
 									expr: &seqExpr{
-										pos: position{line: 376, col: 12, offset: 11619},
+										pos: position{line: 376, col: 12, offset: 11641},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 376, col: 12, offset: 11619},
+												pos:   position{line: 376, col: 12, offset: 11641},
 												label: "title",
 												expr: &actionExpr{
-													pos: position{line: 423, col: 19, offset: 12922},
-													run: (*parser).callonBlockAttributes129,
+													pos: position{line: 423, col: 19, offset: 12990},
+													run: (*parser).callonBlockAttributes147,
 													expr: &seqExpr{
-														pos: position{line: 423, col: 19, offset: 12922},
+														pos: position{line: 423, col: 19, offset: 12990},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 423, col: 19, offset: 12922},
+																pos:        position{line: 423, col: 19, offset: 12990},
 																val:        ".",
 																ignoreCase: false,
 																want:       "\".\"",
 															},
 															&notExpr{
-																pos: position{line: 424, col: 5, offset: 12931},
+																pos: position{line: 424, col: 5, offset: 12999},
 																expr: &charClassMatcher{
-																	pos:        position{line: 424, col: 6, offset: 12932},
+																	pos:        position{line: 424, col: 6, offset: 13000},
 																	val:        "[. ]",
 																	chars:      []rune{'.', ' '},
 																	ignoreCase: false,
@@ -11819,20 +11984,20 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 425, col: 5, offset: 13044},
+																pos:   position{line: 425, col: 5, offset: 13112},
 																label: "elements",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 425, col: 14, offset: 13053},
+																	pos: position{line: 425, col: 14, offset: 13121},
 																	expr: &choiceExpr{
-																		pos: position{line: 426, col: 9, offset: 13063},
+																		pos: position{line: 426, col: 9, offset: 13131},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2795, col: 14, offset: 88652},
-																				run: (*parser).callonBlockAttributes137,
+																				pos: position{line: 2796, col: 14, offset: 88802},
+																				run: (*parser).callonBlockAttributes155,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2795, col: 14, offset: 88652},
+																					pos: position{line: 2796, col: 14, offset: 88802},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2795, col: 14, offset: 88652},
+																						pos:        position{line: 2796, col: 14, offset: 88802},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11841,10 +12006,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2901, col: 10, offset: 91483},
-																				run: (*parser).callonBlockAttributes140,
+																				pos: position{line: 2902, col: 10, offset: 91633},
+																				run: (*parser).callonBlockAttributes158,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2901, col: 10, offset: 91483},
+																					pos:        position{line: 2902, col: 10, offset: 91633},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11852,27 +12017,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2818, col: 5, offset: 89137},
-																				run: (*parser).callonBlockAttributes142,
+																				pos: position{line: 2819, col: 5, offset: 89287},
+																				run: (*parser).callonBlockAttributes160,
 																				expr: &choiceExpr{
-																					pos: position{line: 2819, col: 9, offset: 89147},
+																					pos: position{line: 2820, col: 9, offset: 89297},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2819, col: 10, offset: 89148},
+																							pos:        position{line: 2820, col: 10, offset: 89298},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2821, col: 13, offset: 89245},
+																							pos: position{line: 2822, col: 13, offset: 89395},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2821, col: 13, offset: 89245},
-																									run: (*parser).callonBlockAttributes146,
+																									pos: position{line: 2822, col: 13, offset: 89395},
+																									run: (*parser).callonBlockAttributes164,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2824, col: 13, offset: 89345},
+																									pos:        position{line: 2825, col: 13, offset: 89495},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -11880,20 +12045,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2824, col: 19, offset: 89351},
+																							pos:        position{line: 2825, col: 19, offset: 89501},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2827, col: 13, offset: 89389},
+																							pos: position{line: 2828, col: 13, offset: 89539},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2827, col: 13, offset: 89389},
-																									run: (*parser).callonBlockAttributes150,
+																									pos: position{line: 2828, col: 13, offset: 89539},
+																									run: (*parser).callonBlockAttributes168,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2830, col: 14, offset: 89482},
+																									pos:        position{line: 2831, col: 14, offset: 89632},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -11902,18 +12067,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2832, col: 12, offset: 89526},
+																							pos: position{line: 2833, col: 12, offset: 89676},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2832, col: 12, offset: 89526},
+																									pos:        position{line: 2833, col: 12, offset: 89676},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2832, col: 16, offset: 89530},
+																									pos: position{line: 2833, col: 16, offset: 89680},
 																									expr: &litMatcher{
-																										pos:        position{line: 2832, col: 17, offset: 89531},
+																										pos:        position{line: 2833, col: 17, offset: 89681},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -11925,23 +12090,23 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 646, col: 5, offset: 20346},
-																				run: (*parser).callonBlockAttributes156,
+																				pos: position{line: 646, col: 5, offset: 20414},
+																				run: (*parser).callonBlockAttributes174,
 																				expr: &seqExpr{
-																					pos: position{line: 646, col: 5, offset: 20346},
+																					pos: position{line: 646, col: 5, offset: 20414},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 646, col: 5, offset: 20346},
+																							pos:        position{line: 646, col: 5, offset: 20414},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 646, col: 13, offset: 20354},
+																							pos:   position{line: 646, col: 13, offset: 20422},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
-																								run: (*parser).callonBlockAttributes160,
+																								run: (*parser).callonBlockAttributes178,
 																								expr: &seqExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
 																									exprs: []interface{}{
@@ -11969,7 +12134,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 646, col: 32, offset: 20373},
+																							pos:        position{line: 646, col: 32, offset: 20441},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -11978,23 +12143,23 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 653, col: 5, offset: 20614},
-																				run: (*parser).callonBlockAttributes166,
+																				pos: position{line: 653, col: 5, offset: 20682},
+																				run: (*parser).callonBlockAttributes184,
 																				expr: &seqExpr{
-																					pos: position{line: 653, col: 5, offset: 20614},
+																					pos: position{line: 653, col: 5, offset: 20682},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 653, col: 5, offset: 20614},
+																							pos:        position{line: 653, col: 5, offset: 20682},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 653, col: 9, offset: 20618},
+																							pos:   position{line: 653, col: 9, offset: 20686},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
-																								run: (*parser).callonBlockAttributes170,
+																								run: (*parser).callonBlockAttributes188,
 																								expr: &seqExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
 																									exprs: []interface{}{
@@ -12022,7 +12187,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 653, col: 28, offset: 20637},
+																							pos:        position{line: 653, col: 28, offset: 20705},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12031,23 +12196,23 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 659, col: 25, offset: 20818},
-																				run: (*parser).callonBlockAttributes176,
+																				pos: position{line: 659, col: 25, offset: 20886},
+																				run: (*parser).callonBlockAttributes194,
 																				expr: &seqExpr{
-																					pos: position{line: 659, col: 25, offset: 20818},
+																					pos: position{line: 659, col: 25, offset: 20886},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 659, col: 25, offset: 20818},
+																							pos:        position{line: 659, col: 25, offset: 20886},
 																							val:        "{counter:",
 																							ignoreCase: false,
 																							want:       "\"{counter:\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 659, col: 37, offset: 20830},
+																							pos:   position{line: 659, col: 37, offset: 20898},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
-																								run: (*parser).callonBlockAttributes180,
+																								run: (*parser).callonBlockAttributes198,
 																								expr: &seqExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
 																									exprs: []interface{}{
@@ -12075,33 +12240,33 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 659, col: 56, offset: 20849},
+																							pos:   position{line: 659, col: 56, offset: 20917},
 																							label: "start",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 659, col: 62, offset: 20855},
+																								pos: position{line: 659, col: 62, offset: 20923},
 																								expr: &actionExpr{
-																									pos: position{line: 667, col: 17, offset: 21152},
-																									run: (*parser).callonBlockAttributes187,
+																									pos: position{line: 667, col: 17, offset: 21220},
+																									run: (*parser).callonBlockAttributes205,
 																									expr: &seqExpr{
-																										pos: position{line: 667, col: 17, offset: 21152},
+																										pos: position{line: 667, col: 17, offset: 21220},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 667, col: 17, offset: 21152},
+																												pos:        position{line: 667, col: 17, offset: 21220},
 																												val:        ":",
 																												ignoreCase: false,
 																												want:       "\":\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 667, col: 21, offset: 21156},
+																												pos:   position{line: 667, col: 21, offset: 21224},
 																												label: "start",
 																												expr: &choiceExpr{
-																													pos: position{line: 667, col: 28, offset: 21163},
+																													pos: position{line: 667, col: 28, offset: 21231},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 667, col: 28, offset: 21163},
-																															run: (*parser).callonBlockAttributes192,
+																															pos: position{line: 667, col: 28, offset: 21231},
+																															run: (*parser).callonBlockAttributes210,
 																															expr: &charClassMatcher{
-																																pos:        position{line: 667, col: 28, offset: 21163},
+																																pos:        position{line: 667, col: 28, offset: 21231},
 																																val:        "[A-Za-z]",
 																																ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																ignoreCase: false,
@@ -12109,12 +12274,12 @@ var g = &grammar{
 																															},
 																														},
 																														&actionExpr{
-																															pos: position{line: 669, col: 9, offset: 21217},
-																															run: (*parser).callonBlockAttributes194,
+																															pos: position{line: 669, col: 9, offset: 21285},
+																															run: (*parser).callonBlockAttributes212,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 669, col: 9, offset: 21217},
+																																pos: position{line: 669, col: 9, offset: 21285},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 669, col: 9, offset: 21217},
+																																	pos:        position{line: 669, col: 9, offset: 21285},
 																																	val:        "[0-9]",
 																																	ranges:     []rune{'0', '9'},
 																																	ignoreCase: false,
@@ -12131,7 +12296,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 659, col: 78, offset: 20871},
+																							pos:        position{line: 659, col: 78, offset: 20939},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12140,23 +12305,23 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 663, col: 25, offset: 20989},
-																				run: (*parser).callonBlockAttributes198,
+																				pos: position{line: 663, col: 25, offset: 21057},
+																				run: (*parser).callonBlockAttributes216,
 																				expr: &seqExpr{
-																					pos: position{line: 663, col: 25, offset: 20989},
+																					pos: position{line: 663, col: 25, offset: 21057},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 663, col: 25, offset: 20989},
+																							pos:        position{line: 663, col: 25, offset: 21057},
 																							val:        "{counter2:",
 																							ignoreCase: false,
 																							want:       "\"{counter2:\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 663, col: 38, offset: 21002},
+																							pos:   position{line: 663, col: 38, offset: 21070},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
-																								run: (*parser).callonBlockAttributes202,
+																								run: (*parser).callonBlockAttributes220,
 																								expr: &seqExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
 																									exprs: []interface{}{
@@ -12184,33 +12349,33 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 663, col: 57, offset: 21021},
+																							pos:   position{line: 663, col: 57, offset: 21089},
 																							label: "start",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 663, col: 63, offset: 21027},
+																								pos: position{line: 663, col: 63, offset: 21095},
 																								expr: &actionExpr{
-																									pos: position{line: 667, col: 17, offset: 21152},
-																									run: (*parser).callonBlockAttributes209,
+																									pos: position{line: 667, col: 17, offset: 21220},
+																									run: (*parser).callonBlockAttributes227,
 																									expr: &seqExpr{
-																										pos: position{line: 667, col: 17, offset: 21152},
+																										pos: position{line: 667, col: 17, offset: 21220},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 667, col: 17, offset: 21152},
+																												pos:        position{line: 667, col: 17, offset: 21220},
 																												val:        ":",
 																												ignoreCase: false,
 																												want:       "\":\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 667, col: 21, offset: 21156},
+																												pos:   position{line: 667, col: 21, offset: 21224},
 																												label: "start",
 																												expr: &choiceExpr{
-																													pos: position{line: 667, col: 28, offset: 21163},
+																													pos: position{line: 667, col: 28, offset: 21231},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 667, col: 28, offset: 21163},
-																															run: (*parser).callonBlockAttributes214,
+																															pos: position{line: 667, col: 28, offset: 21231},
+																															run: (*parser).callonBlockAttributes232,
 																															expr: &charClassMatcher{
-																																pos:        position{line: 667, col: 28, offset: 21163},
+																																pos:        position{line: 667, col: 28, offset: 21231},
 																																val:        "[A-Za-z]",
 																																ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																ignoreCase: false,
@@ -12218,12 +12383,12 @@ var g = &grammar{
 																															},
 																														},
 																														&actionExpr{
-																															pos: position{line: 669, col: 9, offset: 21217},
-																															run: (*parser).callonBlockAttributes216,
+																															pos: position{line: 669, col: 9, offset: 21285},
+																															run: (*parser).callonBlockAttributes234,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 669, col: 9, offset: 21217},
+																																pos: position{line: 669, col: 9, offset: 21285},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 669, col: 9, offset: 21217},
+																																	pos:        position{line: 669, col: 9, offset: 21285},
 																																	val:        "[0-9]",
 																																	ranges:     []rune{'0', '9'},
 																																	ignoreCase: false,
@@ -12240,7 +12405,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 663, col: 79, offset: 21043},
+																							pos:        position{line: 663, col: 79, offset: 21111},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12249,10 +12414,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2840, col: 12, offset: 89791},
-																				run: (*parser).callonBlockAttributes220,
+																				pos: position{line: 2841, col: 12, offset: 89941},
+																				run: (*parser).callonBlockAttributes238,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2840, col: 12, offset: 89791},
+																					pos:        position{line: 2841, col: 12, offset: 89941},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12268,12 +12433,12 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 376, col: 35, offset: 11642},
+												pos: position{line: 376, col: 35, offset: 11664},
 												expr: &actionExpr{
-													pos: position{line: 2901, col: 10, offset: 91483},
-													run: (*parser).callonBlockAttributes223,
+													pos: position{line: 2902, col: 10, offset: 91633},
+													run: (*parser).callonBlockAttributes241,
 													expr: &charClassMatcher{
-														pos:        position{line: 2901, col: 10, offset: 91483},
+														pos:        position{line: 2902, col: 10, offset: 91633},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12282,28 +12447,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2923, col: 8, offset: 91881},
+												pos: position{line: 2924, col: 8, offset: 92031},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2910, col: 12, offset: 91654},
-														run: (*parser).callonBlockAttributes226,
+														pos: position{line: 2911, col: 12, offset: 91804},
+														run: (*parser).callonBlockAttributes244,
 														expr: &choiceExpr{
-															pos: position{line: 2910, col: 13, offset: 91655},
+															pos: position{line: 2911, col: 13, offset: 91805},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2910, col: 13, offset: 91655},
+																	pos:        position{line: 2911, col: 13, offset: 91805},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 20, offset: 91662},
+																	pos:        position{line: 2911, col: 20, offset: 91812},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 29, offset: 91671},
+																	pos:        position{line: 2911, col: 29, offset: 91821},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12312,75 +12477,160 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2920, col: 8, offset: 91831},
+														pos: position{line: 2921, col: 8, offset: 91981},
 														expr: &anyMatcher{
-															line: 2920, col: 9, offset: 91832,
+															line: 2921, col: 9, offset: 91982,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 376, col: 46, offset: 11653},
-												expr: &actionExpr{
-													pos: position{line: 678, col: 14, offset: 21518},
-													run: (*parser).callonBlockAttributes234,
-													expr: &seqExpr{
-														pos: position{line: 678, col: 14, offset: 21518},
-														exprs: []interface{}{
-															&andExpr{
-																pos: position{line: 2918, col: 11, offset: 91817},
-																expr: &anyMatcher{
-																	line: 2918, col: 13, offset: 91819,
+												pos: position{line: 376, col: 46, offset: 11675},
+												expr: &choiceExpr{
+													pos: position{line: 376, col: 47, offset: 11676},
+													alternatives: []interface{}{
+														&actionExpr{
+															pos: position{line: 678, col: 14, offset: 21586},
+															run: (*parser).callonBlockAttributes253,
+															expr: &seqExpr{
+																pos: position{line: 678, col: 14, offset: 21586},
+																exprs: []interface{}{
+																	&andExpr{
+																		pos: position{line: 2919, col: 11, offset: 91967},
+																		expr: &anyMatcher{
+																			line: 2919, col: 13, offset: 91969,
+																		},
+																	},
+																	&zeroOrMoreExpr{
+																		pos: position{line: 678, col: 21, offset: 21593},
+																		expr: &actionExpr{
+																			pos: position{line: 2902, col: 10, offset: 91633},
+																			run: (*parser).callonBlockAttributes258,
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2902, col: 10, offset: 91633},
+																				val:        "[\\t ]",
+																				chars:      []rune{'\t', ' '},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
+																		},
+																	},
+																	&choiceExpr{
+																		pos: position{line: 2924, col: 8, offset: 92031},
+																		alternatives: []interface{}{
+																			&actionExpr{
+																				pos: position{line: 2911, col: 12, offset: 91804},
+																				run: (*parser).callonBlockAttributes261,
+																				expr: &choiceExpr{
+																					pos: position{line: 2911, col: 13, offset: 91805},
+																					alternatives: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							val:        "\n",
+																							ignoreCase: false,
+																							want:       "\"\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							val:        "\r\n",
+																							ignoreCase: false,
+																							want:       "\"\\r\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							val:        "\r",
+																							ignoreCase: false,
+																							want:       "\"\\r\"",
+																						},
+																					},
+																				},
+																			},
+																			&notExpr{
+																				pos: position{line: 2921, col: 8, offset: 91981},
+																				expr: &anyMatcher{
+																					line: 2921, col: 9, offset: 91982,
+																				},
+																			},
+																		},
+																	},
 																},
 															},
-															&zeroOrMoreExpr{
-																pos: position{line: 678, col: 21, offset: 21525},
-																expr: &actionExpr{
-																	pos: position{line: 2901, col: 10, offset: 91483},
-																	run: (*parser).callonBlockAttributes239,
-																	expr: &charClassMatcher{
-																		pos:        position{line: 2901, col: 10, offset: 91483},
-																		val:        "[\\t ]",
-																		chars:      []rune{'\t', ' '},
+														},
+														&actionExpr{
+															pos: position{line: 2512, col: 22, offset: 80570},
+															run: (*parser).callonBlockAttributes268,
+															expr: &seqExpr{
+																pos: position{line: 2512, col: 22, offset: 80570},
+																exprs: []interface{}{
+																	&litMatcher{
+																		pos:        position{line: 2517, col: 31, offset: 80820},
+																		val:        "//",
 																		ignoreCase: false,
-																		inverted:   false,
+																		want:       "\"//\"",
 																	},
-																},
-															},
-															&choiceExpr{
-																pos: position{line: 2923, col: 8, offset: 91881},
-																alternatives: []interface{}{
-																	&actionExpr{
-																		pos: position{line: 2910, col: 12, offset: 91654},
-																		run: (*parser).callonBlockAttributes242,
-																		expr: &choiceExpr{
-																			pos: position{line: 2910, col: 13, offset: 91655},
-																			alternatives: []interface{}{
-																				&litMatcher{
-																					pos:        position{line: 2910, col: 13, offset: 91655},
-																					val:        "\n",
-																					ignoreCase: false,
-																					want:       "\"\\n\"",
-																				},
-																				&litMatcher{
-																					pos:        position{line: 2910, col: 20, offset: 91662},
-																					val:        "\r\n",
-																					ignoreCase: false,
-																					want:       "\"\\r\\n\"",
-																				},
-																				&litMatcher{
-																					pos:        position{line: 2910, col: 29, offset: 91671},
-																					val:        "\r",
+																	&notExpr{
+																		pos: position{line: 2517, col: 36, offset: 80825},
+																		expr: &litMatcher{
+																			pos:        position{line: 2517, col: 37, offset: 80826},
+																			val:        "/",
+																			ignoreCase: false,
+																			want:       "\"/\"",
+																		},
+																	},
+																	&labeledExpr{
+																		pos:   position{line: 2512, col: 49, offset: 80597},
+																		label: "content",
+																		expr: &actionExpr{
+																			pos: position{line: 2848, col: 13, offset: 90159},
+																			run: (*parser).callonBlockAttributes274,
+																			expr: &zeroOrMoreExpr{
+																				pos: position{line: 2848, col: 13, offset: 90159},
+																				expr: &charClassMatcher{
+																					pos:        position{line: 2848, col: 13, offset: 90159},
+																					val:        "[^\\r\\n]",
+																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
-																					want:       "\"\\r\"",
+																					inverted:   true,
 																				},
 																			},
 																		},
 																	},
-																	&notExpr{
-																		pos: position{line: 2920, col: 8, offset: 91831},
-																		expr: &anyMatcher{
-																			line: 2920, col: 9, offset: 91832,
+																	&choiceExpr{
+																		pos: position{line: 2924, col: 8, offset: 92031},
+																		alternatives: []interface{}{
+																			&actionExpr{
+																				pos: position{line: 2911, col: 12, offset: 91804},
+																				run: (*parser).callonBlockAttributes278,
+																				expr: &choiceExpr{
+																					pos: position{line: 2911, col: 13, offset: 91805},
+																					alternatives: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							val:        "\n",
+																							ignoreCase: false,
+																							want:       "\"\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							val:        "\r\n",
+																							ignoreCase: false,
+																							want:       "\"\\r\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							val:        "\r",
+																							ignoreCase: false,
+																							want:       "\"\\r\"",
+																						},
+																					},
+																				},
+																			},
+																			&notExpr{
+																				pos: position{line: 2921, col: 8, offset: 91981},
+																				expr: &anyMatcher{
+																					line: 2921, col: 9, offset: 91982,
+																				},
+																			},
 																		},
 																	},
 																},
@@ -12393,26 +12643,26 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 380, col: 12, offset: 11743},
-									run: (*parser).callonBlockAttributes249,
+									pos: position{line: 380, col: 12, offset: 11788},
+									run: (*parser).callonBlockAttributes285,
 									expr: &seqExpr{
-										pos: position{line: 380, col: 12, offset: 11743},
+										pos: position{line: 380, col: 12, offset: 11788},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 380, col: 12, offset: 11743},
+												pos:   position{line: 380, col: 12, offset: 11788},
 												label: "attributes",
 												expr: &ruleRefExpr{
-													pos:  position{line: 380, col: 24, offset: 11755},
+													pos:  position{line: 380, col: 24, offset: 11800},
 													name: "LongHandAttributes",
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 380, col: 44, offset: 11775},
+												pos: position{line: 380, col: 44, offset: 11820},
 												expr: &actionExpr{
-													pos: position{line: 2901, col: 10, offset: 91483},
-													run: (*parser).callonBlockAttributes254,
+													pos: position{line: 2902, col: 10, offset: 91633},
+													run: (*parser).callonBlockAttributes290,
 													expr: &charClassMatcher{
-														pos:        position{line: 2901, col: 10, offset: 91483},
+														pos:        position{line: 2902, col: 10, offset: 91633},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12421,28 +12671,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2923, col: 8, offset: 91881},
+												pos: position{line: 2924, col: 8, offset: 92031},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2910, col: 12, offset: 91654},
-														run: (*parser).callonBlockAttributes257,
+														pos: position{line: 2911, col: 12, offset: 91804},
+														run: (*parser).callonBlockAttributes293,
 														expr: &choiceExpr{
-															pos: position{line: 2910, col: 13, offset: 91655},
+															pos: position{line: 2911, col: 13, offset: 91805},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2910, col: 13, offset: 91655},
+																	pos:        position{line: 2911, col: 13, offset: 91805},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 20, offset: 91662},
+																	pos:        position{line: 2911, col: 20, offset: 91812},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 29, offset: 91671},
+																	pos:        position{line: 2911, col: 29, offset: 91821},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12451,75 +12701,160 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2920, col: 8, offset: 91831},
+														pos: position{line: 2921, col: 8, offset: 91981},
 														expr: &anyMatcher{
-															line: 2920, col: 9, offset: 91832,
+															line: 2921, col: 9, offset: 91982,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 380, col: 55, offset: 11786},
-												expr: &actionExpr{
-													pos: position{line: 678, col: 14, offset: 21518},
-													run: (*parser).callonBlockAttributes265,
-													expr: &seqExpr{
-														pos: position{line: 678, col: 14, offset: 21518},
-														exprs: []interface{}{
-															&andExpr{
-																pos: position{line: 2918, col: 11, offset: 91817},
-																expr: &anyMatcher{
-																	line: 2918, col: 13, offset: 91819,
+												pos: position{line: 380, col: 55, offset: 11831},
+												expr: &choiceExpr{
+													pos: position{line: 380, col: 56, offset: 11832},
+													alternatives: []interface{}{
+														&actionExpr{
+															pos: position{line: 678, col: 14, offset: 21586},
+															run: (*parser).callonBlockAttributes302,
+															expr: &seqExpr{
+																pos: position{line: 678, col: 14, offset: 21586},
+																exprs: []interface{}{
+																	&andExpr{
+																		pos: position{line: 2919, col: 11, offset: 91967},
+																		expr: &anyMatcher{
+																			line: 2919, col: 13, offset: 91969,
+																		},
+																	},
+																	&zeroOrMoreExpr{
+																		pos: position{line: 678, col: 21, offset: 21593},
+																		expr: &actionExpr{
+																			pos: position{line: 2902, col: 10, offset: 91633},
+																			run: (*parser).callonBlockAttributes307,
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2902, col: 10, offset: 91633},
+																				val:        "[\\t ]",
+																				chars:      []rune{'\t', ' '},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
+																		},
+																	},
+																	&choiceExpr{
+																		pos: position{line: 2924, col: 8, offset: 92031},
+																		alternatives: []interface{}{
+																			&actionExpr{
+																				pos: position{line: 2911, col: 12, offset: 91804},
+																				run: (*parser).callonBlockAttributes310,
+																				expr: &choiceExpr{
+																					pos: position{line: 2911, col: 13, offset: 91805},
+																					alternatives: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							val:        "\n",
+																							ignoreCase: false,
+																							want:       "\"\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							val:        "\r\n",
+																							ignoreCase: false,
+																							want:       "\"\\r\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							val:        "\r",
+																							ignoreCase: false,
+																							want:       "\"\\r\"",
+																						},
+																					},
+																				},
+																			},
+																			&notExpr{
+																				pos: position{line: 2921, col: 8, offset: 91981},
+																				expr: &anyMatcher{
+																					line: 2921, col: 9, offset: 91982,
+																				},
+																			},
+																		},
+																	},
 																},
 															},
-															&zeroOrMoreExpr{
-																pos: position{line: 678, col: 21, offset: 21525},
-																expr: &actionExpr{
-																	pos: position{line: 2901, col: 10, offset: 91483},
-																	run: (*parser).callonBlockAttributes270,
-																	expr: &charClassMatcher{
-																		pos:        position{line: 2901, col: 10, offset: 91483},
-																		val:        "[\\t ]",
-																		chars:      []rune{'\t', ' '},
+														},
+														&actionExpr{
+															pos: position{line: 2512, col: 22, offset: 80570},
+															run: (*parser).callonBlockAttributes317,
+															expr: &seqExpr{
+																pos: position{line: 2512, col: 22, offset: 80570},
+																exprs: []interface{}{
+																	&litMatcher{
+																		pos:        position{line: 2517, col: 31, offset: 80820},
+																		val:        "//",
 																		ignoreCase: false,
-																		inverted:   false,
+																		want:       "\"//\"",
 																	},
-																},
-															},
-															&choiceExpr{
-																pos: position{line: 2923, col: 8, offset: 91881},
-																alternatives: []interface{}{
-																	&actionExpr{
-																		pos: position{line: 2910, col: 12, offset: 91654},
-																		run: (*parser).callonBlockAttributes273,
-																		expr: &choiceExpr{
-																			pos: position{line: 2910, col: 13, offset: 91655},
-																			alternatives: []interface{}{
-																				&litMatcher{
-																					pos:        position{line: 2910, col: 13, offset: 91655},
-																					val:        "\n",
-																					ignoreCase: false,
-																					want:       "\"\\n\"",
-																				},
-																				&litMatcher{
-																					pos:        position{line: 2910, col: 20, offset: 91662},
-																					val:        "\r\n",
-																					ignoreCase: false,
-																					want:       "\"\\r\\n\"",
-																				},
-																				&litMatcher{
-																					pos:        position{line: 2910, col: 29, offset: 91671},
-																					val:        "\r",
+																	&notExpr{
+																		pos: position{line: 2517, col: 36, offset: 80825},
+																		expr: &litMatcher{
+																			pos:        position{line: 2517, col: 37, offset: 80826},
+																			val:        "/",
+																			ignoreCase: false,
+																			want:       "\"/\"",
+																		},
+																	},
+																	&labeledExpr{
+																		pos:   position{line: 2512, col: 49, offset: 80597},
+																		label: "content",
+																		expr: &actionExpr{
+																			pos: position{line: 2848, col: 13, offset: 90159},
+																			run: (*parser).callonBlockAttributes323,
+																			expr: &zeroOrMoreExpr{
+																				pos: position{line: 2848, col: 13, offset: 90159},
+																				expr: &charClassMatcher{
+																					pos:        position{line: 2848, col: 13, offset: 90159},
+																					val:        "[^\\r\\n]",
+																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
-																					want:       "\"\\r\"",
+																					inverted:   true,
 																				},
 																			},
 																		},
 																	},
-																	&notExpr{
-																		pos: position{line: 2920, col: 8, offset: 91831},
-																		expr: &anyMatcher{
-																			line: 2920, col: 9, offset: 91832,
+																	&choiceExpr{
+																		pos: position{line: 2924, col: 8, offset: 92031},
+																		alternatives: []interface{}{
+																			&actionExpr{
+																				pos: position{line: 2911, col: 12, offset: 91804},
+																				run: (*parser).callonBlockAttributes327,
+																				expr: &choiceExpr{
+																					pos: position{line: 2911, col: 13, offset: 91805},
+																					alternatives: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							val:        "\n",
+																							ignoreCase: false,
+																							want:       "\"\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							val:        "\r\n",
+																							ignoreCase: false,
+																							want:       "\"\\r\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							val:        "\r",
+																							ignoreCase: false,
+																							want:       "\"\\r\"",
+																						},
+																					},
+																				},
+																			},
+																			&notExpr{
+																				pos: position{line: 2921, col: 8, offset: 91981},
+																				expr: &anyMatcher{
+																					line: 2921, col: 9, offset: 91982,
+																				},
+																			},
 																		},
 																	},
 																},
@@ -12539,51 +12874,51 @@ var g = &grammar{
 		},
 		{
 			name: "InlineAttributes",
-			pos:  position{line: 388, col: 1, offset: 11970},
+			pos:  position{line: 388, col: 1, offset: 12038},
 			expr: &actionExpr{
-				pos: position{line: 389, col: 5, offset: 11994},
+				pos: position{line: 389, col: 5, offset: 12062},
 				run: (*parser).callonInlineAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 389, col: 5, offset: 11994},
+					pos: position{line: 389, col: 5, offset: 12062},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 389, col: 5, offset: 11994},
+							pos:        position{line: 389, col: 5, offset: 12062},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 390, col: 5, offset: 12002},
+							pos:   position{line: 390, col: 5, offset: 12070},
 							label: "attributes",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 390, col: 16, offset: 12013},
+								pos: position{line: 390, col: 16, offset: 12081},
 								expr: &actionExpr{
-									pos: position{line: 391, col: 9, offset: 12023},
+									pos: position{line: 391, col: 9, offset: 12091},
 									run: (*parser).callonInlineAttributes6,
 									expr: &seqExpr{
-										pos: position{line: 392, col: 13, offset: 12037},
+										pos: position{line: 392, col: 13, offset: 12105},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 392, col: 13, offset: 12037},
+												pos: position{line: 392, col: 13, offset: 12105},
 												expr: &litMatcher{
-													pos:        position{line: 392, col: 14, offset: 12038},
+													pos:        position{line: 392, col: 14, offset: 12106},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 393, col: 13, offset: 12070},
+												pos:   position{line: 393, col: 13, offset: 12138},
 												label: "attribute",
 												expr: &choiceExpr{
-													pos: position{line: 393, col: 24, offset: 12081},
+													pos: position{line: 393, col: 24, offset: 12149},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 393, col: 24, offset: 12081},
+															pos:  position{line: 393, col: 24, offset: 12149},
 															name: "PositionalAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 393, col: 46, offset: 12103},
+															pos:  position{line: 393, col: 46, offset: 12171},
 															name: "NamedAttribute",
 														},
 													},
@@ -12595,7 +12930,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 398, col: 5, offset: 12186},
+							pos:        position{line: 398, col: 5, offset: 12254},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -12606,62 +12941,62 @@ var g = &grammar{
 		},
 		{
 			name: "LongHandAttributes",
-			pos:  position{line: 438, col: 1, offset: 13471},
+			pos:  position{line: 438, col: 1, offset: 13539},
 			expr: &actionExpr{
-				pos: position{line: 439, col: 5, offset: 13497},
+				pos: position{line: 439, col: 5, offset: 13565},
 				run: (*parser).callonLongHandAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 439, col: 5, offset: 13497},
+					pos: position{line: 439, col: 5, offset: 13565},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 439, col: 5, offset: 13497},
+							pos: position{line: 439, col: 5, offset: 13565},
 							expr: &litMatcher{
-								pos:        position{line: 439, col: 6, offset: 13498},
+								pos:        position{line: 439, col: 6, offset: 13566},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 439, col: 10, offset: 13502},
+							pos:        position{line: 439, col: 10, offset: 13570},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&notExpr{
-							pos: position{line: 439, col: 14, offset: 13506},
+							pos: position{line: 439, col: 14, offset: 13574},
 							expr: &litMatcher{
-								pos:        position{line: 439, col: 15, offset: 13507},
+								pos:        position{line: 439, col: 15, offset: 13575},
 								val:        "[",
 								ignoreCase: false,
 								want:       "\"[\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 440, col: 5, offset: 13620},
+							pos:   position{line: 440, col: 5, offset: 13688},
 							label: "firstPositionalAttributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 440, col: 31, offset: 13646},
+								pos: position{line: 440, col: 31, offset: 13714},
 								expr: &ruleRefExpr{
-									pos:  position{line: 440, col: 32, offset: 13647},
+									pos:  position{line: 440, col: 32, offset: 13715},
 									name: "FirstPositionalAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 441, col: 5, offset: 13679},
+							pos:   position{line: 441, col: 5, offset: 13747},
 							label: "otherAttributes",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 441, col: 21, offset: 13695},
+								pos: position{line: 441, col: 21, offset: 13763},
 								expr: &choiceExpr{
-									pos: position{line: 441, col: 22, offset: 13696},
+									pos: position{line: 441, col: 22, offset: 13764},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 441, col: 22, offset: 13696},
+											pos:  position{line: 441, col: 22, offset: 13764},
 											name: "PositionalAttribute",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 441, col: 44, offset: 13718},
+											pos:  position{line: 441, col: 44, offset: 13786},
 											name: "NamedAttribute",
 										},
 									},
@@ -12669,7 +13004,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 442, col: 5, offset: 13739},
+							pos:        position{line: 442, col: 5, offset: 13807},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -12680,69 +13015,69 @@ var g = &grammar{
 		},
 		{
 			name: "FirstPositionalAttributes",
-			pos:  position{line: 455, col: 1, offset: 14267},
+			pos:  position{line: 455, col: 1, offset: 14335},
 			expr: &actionExpr{
-				pos: position{line: 456, col: 5, offset: 14301},
+				pos: position{line: 456, col: 5, offset: 14369},
 				run: (*parser).callonFirstPositionalAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 456, col: 5, offset: 14301},
+					pos: position{line: 456, col: 5, offset: 14369},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 456, col: 5, offset: 14301},
+							pos:   position{line: 456, col: 5, offset: 14369},
 							label: "main",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 456, col: 10, offset: 14306},
+								pos: position{line: 456, col: 10, offset: 14374},
 								expr: &ruleRefExpr{
-									pos:  position{line: 457, col: 9, offset: 14316},
+									pos:  position{line: 457, col: 9, offset: 14384},
 									name: "ShortHandAttribute",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 459, col: 5, offset: 14346},
+							pos:   position{line: 459, col: 5, offset: 14414},
 							label: "extras",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 459, col: 12, offset: 14353},
+								pos: position{line: 459, col: 12, offset: 14421},
 								expr: &actionExpr{
-									pos: position{line: 460, col: 9, offset: 14364},
+									pos: position{line: 460, col: 9, offset: 14432},
 									run: (*parser).callonFirstPositionalAttributes8,
 									expr: &seqExpr{
-										pos: position{line: 460, col: 9, offset: 14364},
+										pos: position{line: 460, col: 9, offset: 14432},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 460, col: 9, offset: 14364},
+												pos: position{line: 460, col: 9, offset: 14432},
 												expr: &litMatcher{
-													pos:        position{line: 460, col: 10, offset: 14365},
+													pos:        position{line: 460, col: 10, offset: 14433},
 													val:        ",",
 													ignoreCase: false,
 													want:       "\",\"",
 												},
 											},
 											&notExpr{
-												pos: position{line: 460, col: 14, offset: 14369},
+												pos: position{line: 460, col: 14, offset: 14437},
 												expr: &litMatcher{
-													pos:        position{line: 460, col: 15, offset: 14370},
+													pos:        position{line: 460, col: 15, offset: 14438},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 461, col: 9, offset: 14382},
+												pos:   position{line: 461, col: 9, offset: 14450},
 												label: "extra",
 												expr: &choiceExpr{
-													pos: position{line: 462, col: 13, offset: 14402},
+													pos: position{line: 462, col: 13, offset: 14470},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 462, col: 13, offset: 14402},
+															pos:  position{line: 462, col: 13, offset: 14470},
 															name: "ShortHandIDAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 463, col: 15, offset: 14438},
+															pos:  position{line: 463, col: 15, offset: 14506},
 															name: "ShortHandOptionAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 464, col: 15, offset: 14477},
+															pos:  position{line: 464, col: 15, offset: 14545},
 															name: "ShortHandDotRoleAttribute",
 														},
 													},
@@ -12754,23 +13089,23 @@ var g = &grammar{
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 467, col: 8, offset: 14553},
+							pos: position{line: 467, col: 8, offset: 14621},
 							expr: &seqExpr{
-								pos: position{line: 467, col: 9, offset: 14554},
+								pos: position{line: 467, col: 9, offset: 14622},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 467, col: 9, offset: 14554},
+										pos:        position{line: 467, col: 9, offset: 14622},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 467, col: 13, offset: 14558},
+										pos: position{line: 467, col: 13, offset: 14626},
 										expr: &actionExpr{
-											pos: position{line: 2901, col: 10, offset: 91483},
+											pos: position{line: 2902, col: 10, offset: 91633},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2901, col: 10, offset: 91483},
+												pos:        position{line: 2902, col: 10, offset: 91633},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -12782,7 +13117,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 468, col: 5, offset: 14572},
+							pos: position{line: 468, col: 5, offset: 14640},
 							run: (*parser).callonFirstPositionalAttributes25,
 						},
 					},
@@ -12791,24 +13126,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandIDAttribute",
-			pos:  position{line: 484, col: 1, offset: 14988},
+			pos:  position{line: 484, col: 1, offset: 15056},
 			expr: &actionExpr{
-				pos: position{line: 484, col: 25, offset: 15012},
+				pos: position{line: 484, col: 25, offset: 15080},
 				run: (*parser).callonShortHandIDAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 484, col: 25, offset: 15012},
+					pos: position{line: 484, col: 25, offset: 15080},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 484, col: 25, offset: 15012},
+							pos:        position{line: 484, col: 25, offset: 15080},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 484, col: 29, offset: 15016},
+							pos:   position{line: 484, col: 29, offset: 15084},
 							label: "id",
 							expr: &ruleRefExpr{
-								pos:  position{line: 484, col: 33, offset: 15020},
+								pos:  position{line: 484, col: 33, offset: 15088},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12818,15 +13153,15 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttribute",
-			pos:  position{line: 488, col: 1, offset: 15094},
+			pos:  position{line: 488, col: 1, offset: 15162},
 			expr: &actionExpr{
-				pos: position{line: 488, col: 23, offset: 15116},
+				pos: position{line: 488, col: 23, offset: 15184},
 				run: (*parser).callonShortHandAttribute1,
 				expr: &labeledExpr{
-					pos:   position{line: 488, col: 23, offset: 15116},
+					pos:   position{line: 488, col: 23, offset: 15184},
 					label: "value",
 					expr: &ruleRefExpr{
-						pos:  position{line: 488, col: 30, offset: 15123},
+						pos:  position{line: 488, col: 30, offset: 15191},
 						name: "ShortHandAttributeValue",
 					},
 				},
@@ -12834,24 +13169,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandDotRoleAttribute",
-			pos:  position{line: 493, col: 1, offset: 15249},
+			pos:  position{line: 493, col: 1, offset: 15317},
 			expr: &actionExpr{
-				pos: position{line: 493, col: 30, offset: 15278},
+				pos: position{line: 493, col: 30, offset: 15346},
 				run: (*parser).callonShortHandDotRoleAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 493, col: 30, offset: 15278},
+					pos: position{line: 493, col: 30, offset: 15346},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 493, col: 30, offset: 15278},
+							pos:        position{line: 493, col: 30, offset: 15346},
 							val:        ".",
 							ignoreCase: false,
 							want:       "\".\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 493, col: 34, offset: 15282},
+							pos:   position{line: 493, col: 34, offset: 15350},
 							label: "role",
 							expr: &ruleRefExpr{
-								pos:  position{line: 493, col: 40, offset: 15288},
+								pos:  position{line: 493, col: 40, offset: 15356},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12861,24 +13196,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandOptionAttribute",
-			pos:  position{line: 498, col: 1, offset: 15410},
+			pos:  position{line: 498, col: 1, offset: 15478},
 			expr: &actionExpr{
-				pos: position{line: 498, col: 29, offset: 15438},
+				pos: position{line: 498, col: 29, offset: 15506},
 				run: (*parser).callonShortHandOptionAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 498, col: 29, offset: 15438},
+					pos: position{line: 498, col: 29, offset: 15506},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 498, col: 29, offset: 15438},
+							pos:        position{line: 498, col: 29, offset: 15506},
 							val:        "%",
 							ignoreCase: false,
 							want:       "\"%\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 498, col: 33, offset: 15442},
+							pos:   position{line: 498, col: 33, offset: 15510},
 							label: "option",
 							expr: &ruleRefExpr{
-								pos:  position{line: 498, col: 41, offset: 15450},
+								pos:  position{line: 498, col: 41, offset: 15518},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12888,43 +13223,43 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttributeValue",
-			pos:  position{line: 503, col: 1, offset: 15563},
+			pos:  position{line: 503, col: 1, offset: 15631},
 			expr: &choiceExpr{
-				pos: position{line: 504, col: 5, offset: 15595},
+				pos: position{line: 504, col: 5, offset: 15663},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 504, col: 5, offset: 15595},
+						pos:  position{line: 504, col: 5, offset: 15663},
 						name: "SingleQuotedAttributeValue",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 505, col: 7, offset: 15629},
+						pos:  position{line: 505, col: 7, offset: 15697},
 						name: "DoubleQuotedAttributeValue",
 					},
 					&actionExpr{
-						pos: position{line: 506, col: 7, offset: 15663},
+						pos: position{line: 506, col: 7, offset: 15731},
 						run: (*parser).callonShortHandAttributeValue4,
 						expr: &seqExpr{
-							pos: position{line: 506, col: 7, offset: 15663},
+							pos: position{line: 506, col: 7, offset: 15731},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 506, col: 7, offset: 15663},
+									pos:   position{line: 506, col: 7, offset: 15731},
 									label: "elements",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 506, col: 16, offset: 15672},
+										pos: position{line: 506, col: 16, offset: 15740},
 										expr: &choiceExpr{
-											pos: position{line: 509, col: 9, offset: 15854},
+											pos: position{line: 509, col: 9, offset: 15922},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 509, col: 9, offset: 15854},
+													pos:  position{line: 509, col: 9, offset: 15922},
 													name: "QuotationMark",
 												},
 												&actionExpr{
-													pos: position{line: 510, col: 12, offset: 15880},
+													pos: position{line: 510, col: 12, offset: 15948},
 													run: (*parser).callonShortHandAttributeValue10,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 510, col: 12, offset: 15880},
+														pos: position{line: 510, col: 12, offset: 15948},
 														expr: &charClassMatcher{
-															pos:        position{line: 510, col: 12, offset: 15880},
+															pos:        position{line: 510, col: 12, offset: 15948},
 															val:        "[^,=.%# \\r\\n�{]]",
 															chars:      []rune{',', '=', '.', '%', '#', ' ', '\r', '\n', '�', '{', ']'},
 															ignoreCase: false,
@@ -12933,35 +13268,35 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 637, col: 5, offset: 20136},
+													pos: position{line: 637, col: 5, offset: 20204},
 													run: (*parser).callonShortHandAttributeValue13,
 													expr: &seqExpr{
-														pos: position{line: 637, col: 5, offset: 20136},
+														pos: position{line: 637, col: 5, offset: 20204},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 637, col: 5, offset: 20136},
+																pos: position{line: 637, col: 5, offset: 20204},
 																run: (*parser).callonShortHandAttributeValue15,
 															},
 															&labeledExpr{
-																pos:   position{line: 640, col: 5, offset: 20208},
+																pos:   position{line: 640, col: 5, offset: 20276},
 																label: "element",
 																expr: &choiceExpr{
-																	pos: position{line: 640, col: 14, offset: 20217},
+																	pos: position{line: 640, col: 14, offset: 20285},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 646, col: 5, offset: 20346},
+																			pos: position{line: 646, col: 5, offset: 20414},
 																			run: (*parser).callonShortHandAttributeValue18,
 																			expr: &seqExpr{
-																				pos: position{line: 646, col: 5, offset: 20346},
+																				pos: position{line: 646, col: 5, offset: 20414},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 646, col: 5, offset: 20346},
+																						pos:        position{line: 646, col: 5, offset: 20414},
 																						val:        "\\{",
 																						ignoreCase: false,
 																						want:       "\"\\\\{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 646, col: 13, offset: 20354},
+																						pos:   position{line: 646, col: 13, offset: 20422},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9736},
@@ -12993,7 +13328,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 646, col: 32, offset: 20373},
+																						pos:        position{line: 646, col: 32, offset: 20441},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13002,19 +13337,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 653, col: 5, offset: 20614},
+																			pos: position{line: 653, col: 5, offset: 20682},
 																			run: (*parser).callonShortHandAttributeValue28,
 																			expr: &seqExpr{
-																				pos: position{line: 653, col: 5, offset: 20614},
+																				pos: position{line: 653, col: 5, offset: 20682},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 653, col: 5, offset: 20614},
+																						pos:        position{line: 653, col: 5, offset: 20682},
 																						val:        "{",
 																						ignoreCase: false,
 																						want:       "\"{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 653, col: 9, offset: 20618},
+																						pos:   position{line: 653, col: 9, offset: 20686},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9736},
@@ -13046,7 +13381,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 653, col: 28, offset: 20637},
+																						pos:        position{line: 653, col: 28, offset: 20705},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13055,19 +13390,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 659, col: 25, offset: 20818},
+																			pos: position{line: 659, col: 25, offset: 20886},
 																			run: (*parser).callonShortHandAttributeValue38,
 																			expr: &seqExpr{
-																				pos: position{line: 659, col: 25, offset: 20818},
+																				pos: position{line: 659, col: 25, offset: 20886},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 659, col: 25, offset: 20818},
+																						pos:        position{line: 659, col: 25, offset: 20886},
 																						val:        "{counter:",
 																						ignoreCase: false,
 																						want:       "\"{counter:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 659, col: 37, offset: 20830},
+																						pos:   position{line: 659, col: 37, offset: 20898},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9736},
@@ -13099,33 +13434,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 659, col: 56, offset: 20849},
+																						pos:   position{line: 659, col: 56, offset: 20917},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 659, col: 62, offset: 20855},
+																							pos: position{line: 659, col: 62, offset: 20923},
 																							expr: &actionExpr{
-																								pos: position{line: 667, col: 17, offset: 21152},
+																								pos: position{line: 667, col: 17, offset: 21220},
 																								run: (*parser).callonShortHandAttributeValue49,
 																								expr: &seqExpr{
-																									pos: position{line: 667, col: 17, offset: 21152},
+																									pos: position{line: 667, col: 17, offset: 21220},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 667, col: 17, offset: 21152},
+																											pos:        position{line: 667, col: 17, offset: 21220},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 667, col: 21, offset: 21156},
+																											pos:   position{line: 667, col: 21, offset: 21224},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 667, col: 28, offset: 21163},
+																												pos: position{line: 667, col: 28, offset: 21231},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 667, col: 28, offset: 21163},
+																														pos: position{line: 667, col: 28, offset: 21231},
 																														run: (*parser).callonShortHandAttributeValue54,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 667, col: 28, offset: 21163},
+																															pos:        position{line: 667, col: 28, offset: 21231},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13133,12 +13468,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 669, col: 9, offset: 21217},
+																														pos: position{line: 669, col: 9, offset: 21285},
 																														run: (*parser).callonShortHandAttributeValue56,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 669, col: 9, offset: 21217},
+																															pos: position{line: 669, col: 9, offset: 21285},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 669, col: 9, offset: 21217},
+																																pos:        position{line: 669, col: 9, offset: 21285},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13155,7 +13490,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 659, col: 78, offset: 20871},
+																						pos:        position{line: 659, col: 78, offset: 20939},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13164,19 +13499,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 663, col: 25, offset: 20989},
+																			pos: position{line: 663, col: 25, offset: 21057},
 																			run: (*parser).callonShortHandAttributeValue60,
 																			expr: &seqExpr{
-																				pos: position{line: 663, col: 25, offset: 20989},
+																				pos: position{line: 663, col: 25, offset: 21057},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 663, col: 25, offset: 20989},
+																						pos:        position{line: 663, col: 25, offset: 21057},
 																						val:        "{counter2:",
 																						ignoreCase: false,
 																						want:       "\"{counter2:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 663, col: 38, offset: 21002},
+																						pos:   position{line: 663, col: 38, offset: 21070},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9736},
@@ -13208,33 +13543,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 663, col: 57, offset: 21021},
+																						pos:   position{line: 663, col: 57, offset: 21089},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 663, col: 63, offset: 21027},
+																							pos: position{line: 663, col: 63, offset: 21095},
 																							expr: &actionExpr{
-																								pos: position{line: 667, col: 17, offset: 21152},
+																								pos: position{line: 667, col: 17, offset: 21220},
 																								run: (*parser).callonShortHandAttributeValue71,
 																								expr: &seqExpr{
-																									pos: position{line: 667, col: 17, offset: 21152},
+																									pos: position{line: 667, col: 17, offset: 21220},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 667, col: 17, offset: 21152},
+																											pos:        position{line: 667, col: 17, offset: 21220},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 667, col: 21, offset: 21156},
+																											pos:   position{line: 667, col: 21, offset: 21224},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 667, col: 28, offset: 21163},
+																												pos: position{line: 667, col: 28, offset: 21231},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 667, col: 28, offset: 21163},
+																														pos: position{line: 667, col: 28, offset: 21231},
 																														run: (*parser).callonShortHandAttributeValue76,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 667, col: 28, offset: 21163},
+																															pos:        position{line: 667, col: 28, offset: 21231},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13242,12 +13577,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 669, col: 9, offset: 21217},
+																														pos: position{line: 669, col: 9, offset: 21285},
 																														run: (*parser).callonShortHandAttributeValue78,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 669, col: 9, offset: 21217},
+																															pos: position{line: 669, col: 9, offset: 21285},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 669, col: 9, offset: 21217},
+																																pos:        position{line: 669, col: 9, offset: 21285},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13264,7 +13599,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 663, col: 79, offset: 21043},
+																						pos:        position{line: 663, col: 79, offset: 21111},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13279,10 +13614,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 515, col: 12, offset: 16048},
+													pos: position{line: 515, col: 12, offset: 16116},
 													run: (*parser).callonShortHandAttributeValue82,
 													expr: &litMatcher{
-														pos:        position{line: 515, col: 12, offset: 16048},
+														pos:        position{line: 515, col: 12, offset: 16116},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -13293,19 +13628,19 @@ var g = &grammar{
 									},
 								},
 								&andExpr{
-									pos: position{line: 519, col: 5, offset: 16136},
+									pos: position{line: 519, col: 5, offset: 16204},
 									expr: &notExpr{
-										pos: position{line: 519, col: 7, offset: 16138},
+										pos: position{line: 519, col: 7, offset: 16206},
 										expr: &seqExpr{
-											pos: position{line: 519, col: 9, offset: 16140},
+											pos: position{line: 519, col: 9, offset: 16208},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 519, col: 9, offset: 16140},
+													pos: position{line: 519, col: 9, offset: 16208},
 													expr: &actionExpr{
-														pos: position{line: 2901, col: 10, offset: 91483},
+														pos: position{line: 2902, col: 10, offset: 91633},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2901, col: 10, offset: 91483},
+															pos:        position{line: 2902, col: 10, offset: 91633},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13314,7 +13649,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 519, col: 16, offset: 16147},
+													pos:        position{line: 519, col: 16, offset: 16215},
 													val:        "=",
 													ignoreCase: false,
 													want:       "\"=\"",
@@ -13331,45 +13666,45 @@ var g = &grammar{
 		},
 		{
 			name: "PositionalAttribute",
-			pos:  position{line: 524, col: 1, offset: 16225},
+			pos:  position{line: 524, col: 1, offset: 16293},
 			expr: &choiceExpr{
-				pos: position{line: 524, col: 24, offset: 16248},
+				pos: position{line: 524, col: 24, offset: 16316},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 525, col: 5, offset: 16254},
+						pos: position{line: 525, col: 5, offset: 16322},
 						run: (*parser).callonPositionalAttribute2,
 						expr: &seqExpr{
-							pos: position{line: 525, col: 5, offset: 16254},
+							pos: position{line: 525, col: 5, offset: 16322},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 525, col: 5, offset: 16254},
+									pos:   position{line: 525, col: 5, offset: 16322},
 									label: "value",
 									expr: &ruleRefExpr{
-										pos:  position{line: 525, col: 12, offset: 16261},
+										pos:  position{line: 525, col: 12, offset: 16329},
 										name: "AttributeValue",
 									},
 								},
 								&choiceExpr{
-									pos: position{line: 525, col: 29, offset: 16278},
+									pos: position{line: 525, col: 29, offset: 16346},
 									alternatives: []interface{}{
 										&zeroOrOneExpr{
-											pos: position{line: 525, col: 29, offset: 16278},
+											pos: position{line: 525, col: 29, offset: 16346},
 											expr: &seqExpr{
-												pos: position{line: 525, col: 30, offset: 16279},
+												pos: position{line: 525, col: 30, offset: 16347},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 525, col: 30, offset: 16279},
+														pos:        position{line: 525, col: 30, offset: 16347},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 525, col: 34, offset: 16283},
+														pos: position{line: 525, col: 34, offset: 16351},
 														expr: &actionExpr{
-															pos: position{line: 2901, col: 10, offset: 91483},
+															pos: position{line: 2902, col: 10, offset: 91633},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2901, col: 10, offset: 91483},
+																pos:        position{line: 2902, col: 10, offset: 91633},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13381,9 +13716,9 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 525, col: 45, offset: 16294},
+											pos: position{line: 525, col: 45, offset: 16362},
 											expr: &litMatcher{
-												pos:        position{line: 525, col: 46, offset: 16295},
+												pos:        position{line: 525, col: 46, offset: 16363},
 												val:        "]",
 												ignoreCase: false,
 												want:       "\"]\"",
@@ -13395,24 +13730,24 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 530, col: 6, offset: 16440},
+						pos: position{line: 530, col: 6, offset: 16508},
 						run: (*parser).callonPositionalAttribute15,
 						expr: &seqExpr{
-							pos: position{line: 530, col: 6, offset: 16440},
+							pos: position{line: 530, col: 6, offset: 16508},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 530, col: 6, offset: 16440},
+									pos:   position{line: 530, col: 6, offset: 16508},
 									label: "value",
 									expr: &seqExpr{
-										pos: position{line: 530, col: 13, offset: 16447},
+										pos: position{line: 530, col: 13, offset: 16515},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 530, col: 13, offset: 16447},
+												pos: position{line: 530, col: 13, offset: 16515},
 												expr: &actionExpr{
-													pos: position{line: 2901, col: 10, offset: 91483},
+													pos: position{line: 2902, col: 10, offset: 91633},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2901, col: 10, offset: 91483},
+														pos:        position{line: 2902, col: 10, offset: 91633},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13421,24 +13756,24 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 530, col: 21, offset: 16455},
+												pos: position{line: 530, col: 21, offset: 16523},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 530, col: 22, offset: 16456},
+														pos: position{line: 530, col: 22, offset: 16524},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 530, col: 22, offset: 16456},
+																pos:        position{line: 530, col: 22, offset: 16524},
 																val:        ",",
 																ignoreCase: false,
 																want:       "\",\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 530, col: 26, offset: 16460},
+																pos: position{line: 530, col: 26, offset: 16528},
 																expr: &actionExpr{
-																	pos: position{line: 2901, col: 10, offset: 91483},
+																	pos: position{line: 2902, col: 10, offset: 91633},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2901, col: 10, offset: 91483},
+																		pos:        position{line: 2902, col: 10, offset: 91633},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13449,9 +13784,9 @@ var g = &grammar{
 														},
 													},
 													&andExpr{
-														pos: position{line: 530, col: 36, offset: 16470},
+														pos: position{line: 530, col: 36, offset: 16538},
 														expr: &litMatcher{
-															pos:        position{line: 530, col: 37, offset: 16471},
+															pos:        position{line: 530, col: 37, offset: 16539},
 															val:        "]",
 															ignoreCase: false,
 															want:       "\"]\"",
@@ -13463,7 +13798,7 @@ var g = &grammar{
 									},
 								},
 								&andCodeExpr{
-									pos: position{line: 531, col: 5, offset: 16481},
+									pos: position{line: 531, col: 5, offset: 16549},
 									run: (*parser).callonPositionalAttribute30,
 								},
 							},
@@ -13474,29 +13809,29 @@ var g = &grammar{
 		},
 		{
 			name: "NamedAttribute",
-			pos:  position{line: 541, col: 1, offset: 16796},
+			pos:  position{line: 541, col: 1, offset: 16864},
 			expr: &actionExpr{
-				pos: position{line: 542, col: 5, offset: 16819},
+				pos: position{line: 542, col: 5, offset: 16887},
 				run: (*parser).callonNamedAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 542, col: 5, offset: 16819},
+					pos: position{line: 542, col: 5, offset: 16887},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 542, col: 5, offset: 16819},
+							pos:   position{line: 542, col: 5, offset: 16887},
 							label: "key",
 							expr: &actionExpr{
-								pos: position{line: 550, col: 22, offset: 17107},
+								pos: position{line: 550, col: 22, offset: 17175},
 								run: (*parser).callonNamedAttribute4,
 								expr: &seqExpr{
-									pos: position{line: 550, col: 22, offset: 17107},
+									pos: position{line: 550, col: 22, offset: 17175},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 550, col: 22, offset: 17107},
+											pos: position{line: 550, col: 22, offset: 17175},
 											expr: &actionExpr{
-												pos: position{line: 2901, col: 10, offset: 91483},
+												pos: position{line: 2902, col: 10, offset: 91633},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2901, col: 10, offset: 91483},
+													pos:        position{line: 2902, col: 10, offset: 91633},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13505,9 +13840,9 @@ var g = &grammar{
 											},
 										},
 										&oneOrMoreExpr{
-											pos: position{line: 550, col: 29, offset: 17114},
+											pos: position{line: 550, col: 29, offset: 17182},
 											expr: &charClassMatcher{
-												pos:        position{line: 550, col: 29, offset: 17114},
+												pos:        position{line: 550, col: 29, offset: 17182},
 												val:        "[^\\r\\n=,]]",
 												chars:      []rune{'\r', '\n', '=', ',', ']'},
 												ignoreCase: false,
@@ -13519,18 +13854,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 543, col: 5, offset: 16848},
+							pos:        position{line: 543, col: 5, offset: 16916},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 543, col: 9, offset: 16852},
+							pos: position{line: 543, col: 9, offset: 16920},
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 10, offset: 91483},
+								pos: position{line: 2902, col: 10, offset: 91633},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2901, col: 10, offset: 91483},
+									pos:        position{line: 2902, col: 10, offset: 91633},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13539,31 +13874,31 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 544, col: 5, offset: 16864},
+							pos:   position{line: 544, col: 5, offset: 16932},
 							label: "value",
 							expr: &ruleRefExpr{
-								pos:  position{line: 544, col: 12, offset: 16871},
+								pos:  position{line: 544, col: 12, offset: 16939},
 								name: "AttributeValue",
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 544, col: 28, offset: 16887},
+							pos: position{line: 544, col: 28, offset: 16955},
 							expr: &seqExpr{
-								pos: position{line: 544, col: 29, offset: 16888},
+								pos: position{line: 544, col: 29, offset: 16956},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 544, col: 29, offset: 16888},
+										pos:        position{line: 544, col: 29, offset: 16956},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 544, col: 33, offset: 16892},
+										pos: position{line: 544, col: 33, offset: 16960},
 										expr: &actionExpr{
-											pos: position{line: 2901, col: 10, offset: 91483},
+											pos: position{line: 2902, col: 10, offset: 91633},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2901, col: 10, offset: 91483},
+												pos:        position{line: 2902, col: 10, offset: 91633},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13580,48 +13915,48 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeValue",
-			pos:  position{line: 554, col: 1, offset: 17171},
+			pos:  position{line: 554, col: 1, offset: 17239},
 			expr: &actionExpr{
-				pos: position{line: 555, col: 5, offset: 17194},
+				pos: position{line: 555, col: 5, offset: 17262},
 				run: (*parser).callonAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 555, col: 5, offset: 17194},
+					pos: position{line: 555, col: 5, offset: 17262},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 555, col: 5, offset: 17194},
+							pos:   position{line: 555, col: 5, offset: 17262},
 							label: "value",
 							expr: &choiceExpr{
-								pos: position{line: 556, col: 9, offset: 17210},
+								pos: position{line: 556, col: 9, offset: 17278},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 556, col: 9, offset: 17210},
+										pos:  position{line: 556, col: 9, offset: 17278},
 										name: "SingleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 557, col: 11, offset: 17248},
+										pos:  position{line: 557, col: 11, offset: 17316},
 										name: "DoubleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 558, col: 11, offset: 17286},
+										pos:  position{line: 558, col: 11, offset: 17354},
 										name: "UnquotedAttributeValue",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 560, col: 5, offset: 17320},
+							pos: position{line: 560, col: 5, offset: 17388},
 							expr: &notExpr{
-								pos: position{line: 560, col: 7, offset: 17322},
+								pos: position{line: 560, col: 7, offset: 17390},
 								expr: &seqExpr{
-									pos: position{line: 560, col: 9, offset: 17324},
+									pos: position{line: 560, col: 9, offset: 17392},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 560, col: 9, offset: 17324},
+											pos: position{line: 560, col: 9, offset: 17392},
 											expr: &actionExpr{
-												pos: position{line: 2901, col: 10, offset: 91483},
+												pos: position{line: 2902, col: 10, offset: 91633},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2901, col: 10, offset: 91483},
+													pos:        position{line: 2902, col: 10, offset: 91633},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13630,7 +13965,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 560, col: 16, offset: 17331},
+											pos:        position{line: 560, col: 16, offset: 17399},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -13645,38 +13980,38 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValue",
-			pos:  position{line: 564, col: 1, offset: 17372},
+			pos:  position{line: 564, col: 1, offset: 17440},
 			expr: &actionExpr{
-				pos: position{line: 565, col: 5, offset: 17407},
+				pos: position{line: 565, col: 5, offset: 17475},
 				run: (*parser).callonSingleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 565, col: 5, offset: 17407},
+					pos: position{line: 565, col: 5, offset: 17475},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 565, col: 5, offset: 17407},
+							pos:        position{line: 565, col: 5, offset: 17475},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
 						},
 						&notExpr{
-							pos: position{line: 565, col: 9, offset: 17411},
+							pos: position{line: 565, col: 9, offset: 17479},
 							expr: &litMatcher{
-								pos:        position{line: 565, col: 10, offset: 17412},
+								pos:        position{line: 565, col: 10, offset: 17480},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 566, col: 5, offset: 17491},
+							pos:   position{line: 566, col: 5, offset: 17559},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 566, col: 14, offset: 17500},
+								pos:  position{line: 566, col: 14, offset: 17568},
 								name: "SingleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 567, col: 5, offset: 17539},
+							pos:        position{line: 567, col: 5, offset: 17607},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
@@ -13687,25 +14022,25 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValueContent",
-			pos:  position{line: 571, col: 1, offset: 17580},
+			pos:  position{line: 571, col: 1, offset: 17648},
 			expr: &actionExpr{
-				pos: position{line: 572, col: 5, offset: 17622},
+				pos: position{line: 572, col: 5, offset: 17690},
 				run: (*parser).callonSingleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 572, col: 5, offset: 17622},
+					pos:   position{line: 572, col: 5, offset: 17690},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 572, col: 14, offset: 17631},
+						pos: position{line: 572, col: 14, offset: 17699},
 						expr: &choiceExpr{
-							pos: position{line: 573, col: 9, offset: 17641},
+							pos: position{line: 573, col: 9, offset: 17709},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2795, col: 14, offset: 88652},
+									pos: position{line: 2796, col: 14, offset: 88802},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2795, col: 14, offset: 88652},
+										pos: position{line: 2796, col: 14, offset: 88802},
 										expr: &charClassMatcher{
-											pos:        position{line: 2795, col: 14, offset: 88652},
+											pos:        position{line: 2796, col: 14, offset: 88802},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13714,10 +14049,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2901, col: 10, offset: 91483},
+									pos: position{line: 2902, col: 10, offset: 91633},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2901, col: 10, offset: 91483},
+										pos:        position{line: 2902, col: 10, offset: 91633},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -13725,39 +14060,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 575, col: 11, offset: 17677},
+									pos:  position{line: 575, col: 11, offset: 17745},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 637, col: 5, offset: 20136},
+									pos: position{line: 637, col: 5, offset: 20204},
 									run: (*parser).callonSingleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 637, col: 5, offset: 20136},
+										pos: position{line: 637, col: 5, offset: 20204},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 637, col: 5, offset: 20136},
+												pos: position{line: 637, col: 5, offset: 20204},
 												run: (*parser).callonSingleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 640, col: 5, offset: 20208},
+												pos:   position{line: 640, col: 5, offset: 20276},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 640, col: 14, offset: 20217},
+													pos: position{line: 640, col: 14, offset: 20285},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 646, col: 5, offset: 20346},
+															pos: position{line: 646, col: 5, offset: 20414},
 															run: (*parser).callonSingleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 646, col: 5, offset: 20346},
+																pos: position{line: 646, col: 5, offset: 20414},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 646, col: 5, offset: 20346},
+																		pos:        position{line: 646, col: 5, offset: 20414},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 646, col: 13, offset: 20354},
+																		pos:   position{line: 646, col: 13, offset: 20422},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -13789,7 +14124,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 646, col: 32, offset: 20373},
+																		pos:        position{line: 646, col: 32, offset: 20441},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13798,19 +14133,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 653, col: 5, offset: 20614},
+															pos: position{line: 653, col: 5, offset: 20682},
 															run: (*parser).callonSingleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 653, col: 5, offset: 20614},
+																pos: position{line: 653, col: 5, offset: 20682},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 653, col: 5, offset: 20614},
+																		pos:        position{line: 653, col: 5, offset: 20682},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 653, col: 9, offset: 20618},
+																		pos:   position{line: 653, col: 9, offset: 20686},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -13842,7 +14177,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 653, col: 28, offset: 20637},
+																		pos:        position{line: 653, col: 28, offset: 20705},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13851,19 +14186,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 659, col: 25, offset: 20818},
+															pos: position{line: 659, col: 25, offset: 20886},
 															run: (*parser).callonSingleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 659, col: 25, offset: 20818},
+																pos: position{line: 659, col: 25, offset: 20886},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 659, col: 25, offset: 20818},
+																		pos:        position{line: 659, col: 25, offset: 20886},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 659, col: 37, offset: 20830},
+																		pos:   position{line: 659, col: 37, offset: 20898},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -13895,33 +14230,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 659, col: 56, offset: 20849},
+																		pos:   position{line: 659, col: 56, offset: 20917},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 659, col: 62, offset: 20855},
+																			pos: position{line: 659, col: 62, offset: 20923},
 																			expr: &actionExpr{
-																				pos: position{line: 667, col: 17, offset: 21152},
+																				pos: position{line: 667, col: 17, offset: 21220},
 																				run: (*parser).callonSingleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 667, col: 17, offset: 21152},
+																					pos: position{line: 667, col: 17, offset: 21220},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 667, col: 17, offset: 21152},
+																							pos:        position{line: 667, col: 17, offset: 21220},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 667, col: 21, offset: 21156},
+																							pos:   position{line: 667, col: 21, offset: 21224},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 667, col: 28, offset: 21163},
+																								pos: position{line: 667, col: 28, offset: 21231},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 667, col: 28, offset: 21163},
+																										pos: position{line: 667, col: 28, offset: 21231},
 																										run: (*parser).callonSingleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 667, col: 28, offset: 21163},
+																											pos:        position{line: 667, col: 28, offset: 21231},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -13929,12 +14264,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 669, col: 9, offset: 21217},
+																										pos: position{line: 669, col: 9, offset: 21285},
 																										run: (*parser).callonSingleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 669, col: 9, offset: 21217},
+																											pos: position{line: 669, col: 9, offset: 21285},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 669, col: 9, offset: 21217},
+																												pos:        position{line: 669, col: 9, offset: 21285},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -13951,7 +14286,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 659, col: 78, offset: 20871},
+																		pos:        position{line: 659, col: 78, offset: 20939},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13960,19 +14295,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 663, col: 25, offset: 20989},
+															pos: position{line: 663, col: 25, offset: 21057},
 															run: (*parser).callonSingleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 663, col: 25, offset: 20989},
+																pos: position{line: 663, col: 25, offset: 21057},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 663, col: 25, offset: 20989},
+																		pos:        position{line: 663, col: 25, offset: 21057},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 663, col: 38, offset: 21002},
+																		pos:   position{line: 663, col: 38, offset: 21070},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14004,33 +14339,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 663, col: 57, offset: 21021},
+																		pos:   position{line: 663, col: 57, offset: 21089},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 663, col: 63, offset: 21027},
+																			pos: position{line: 663, col: 63, offset: 21095},
 																			expr: &actionExpr{
-																				pos: position{line: 667, col: 17, offset: 21152},
+																				pos: position{line: 667, col: 17, offset: 21220},
 																				run: (*parser).callonSingleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 667, col: 17, offset: 21152},
+																					pos: position{line: 667, col: 17, offset: 21220},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 667, col: 17, offset: 21152},
+																							pos:        position{line: 667, col: 17, offset: 21220},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 667, col: 21, offset: 21156},
+																							pos:   position{line: 667, col: 21, offset: 21224},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 667, col: 28, offset: 21163},
+																								pos: position{line: 667, col: 28, offset: 21231},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 667, col: 28, offset: 21163},
+																										pos: position{line: 667, col: 28, offset: 21231},
 																										run: (*parser).callonSingleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 667, col: 28, offset: 21163},
+																											pos:        position{line: 667, col: 28, offset: 21231},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14038,12 +14373,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 669, col: 9, offset: 21217},
+																										pos: position{line: 669, col: 9, offset: 21285},
 																										run: (*parser).callonSingleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 669, col: 9, offset: 21217},
+																											pos: position{line: 669, col: 9, offset: 21285},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 669, col: 9, offset: 21217},
+																												pos:        position{line: 669, col: 9, offset: 21285},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14060,7 +14395,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 663, col: 79, offset: 21043},
+																		pos:        position{line: 663, col: 79, offset: 21111},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14075,44 +14410,44 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 577, col: 12, offset: 17731},
+									pos: position{line: 577, col: 12, offset: 17799},
 									run: (*parser).callonSingleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 577, col: 12, offset: 17731},
+										pos:        position{line: 577, col: 12, offset: 17799},
 										val:        "\\'",
 										ignoreCase: false,
 										want:       "\"\\\\'\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 580, col: 13, offset: 17833},
+									pos:        position{line: 580, col: 13, offset: 17901},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 580, col: 20, offset: 17840},
+									pos:        position{line: 580, col: 20, offset: 17908},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&actionExpr{
-									pos: position{line: 580, col: 27, offset: 17847},
+									pos: position{line: 580, col: 27, offset: 17915},
 									run: (*parser).callonSingleQuotedAttributeValueContent84,
 									expr: &litMatcher{
-										pos:        position{line: 580, col: 27, offset: 17847},
+										pos:        position{line: 580, col: 27, offset: 17915},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 583, col: 12, offset: 18007},
+									pos: position{line: 583, col: 12, offset: 18075},
 									run: (*parser).callonSingleQuotedAttributeValueContent86,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 583, col: 12, offset: 18007},
+										pos: position{line: 583, col: 12, offset: 18075},
 										expr: &charClassMatcher{
-											pos:        position{line: 583, col: 12, offset: 18007},
+											pos:        position{line: 583, col: 12, offset: 18075},
 											val:        "[^\\r\\n\\\\\\ ]",
 											chars:      []rune{'\r', '\n', '\\', '\'', ' '},
 											ignoreCase: false,
@@ -14128,56 +14463,56 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValue",
-			pos:  position{line: 590, col: 1, offset: 18204},
+			pos:  position{line: 590, col: 1, offset: 18272},
 			expr: &actionExpr{
-				pos: position{line: 591, col: 5, offset: 18239},
+				pos: position{line: 591, col: 5, offset: 18307},
 				run: (*parser).callonDoubleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 591, col: 5, offset: 18239},
+					pos: position{line: 591, col: 5, offset: 18307},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 591, col: 5, offset: 18239},
+							pos:        position{line: 591, col: 5, offset: 18307},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&notExpr{
-							pos: position{line: 591, col: 10, offset: 18244},
+							pos: position{line: 591, col: 10, offset: 18312},
 							expr: &litMatcher{
-								pos:        position{line: 591, col: 11, offset: 18245},
+								pos:        position{line: 591, col: 11, offset: 18313},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 592, col: 5, offset: 18324},
+							pos:   position{line: 592, col: 5, offset: 18392},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 592, col: 14, offset: 18333},
+								pos:  position{line: 592, col: 14, offset: 18401},
 								name: "DoubleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 593, col: 5, offset: 18372},
+							pos:        position{line: 593, col: 5, offset: 18440},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&andExpr{
-							pos: position{line: 593, col: 10, offset: 18377},
+							pos: position{line: 593, col: 10, offset: 18445},
 							expr: &notExpr{
-								pos: position{line: 593, col: 12, offset: 18379},
+								pos: position{line: 593, col: 12, offset: 18447},
 								expr: &seqExpr{
-									pos: position{line: 593, col: 14, offset: 18381},
+									pos: position{line: 593, col: 14, offset: 18449},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 593, col: 14, offset: 18381},
+											pos: position{line: 593, col: 14, offset: 18449},
 											expr: &actionExpr{
-												pos: position{line: 2901, col: 10, offset: 91483},
+												pos: position{line: 2902, col: 10, offset: 91633},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2901, col: 10, offset: 91483},
+													pos:        position{line: 2902, col: 10, offset: 91633},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14186,7 +14521,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 593, col: 21, offset: 18388},
+											pos:        position{line: 593, col: 21, offset: 18456},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -14201,25 +14536,25 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValueContent",
-			pos:  position{line: 597, col: 1, offset: 18431},
+			pos:  position{line: 597, col: 1, offset: 18499},
 			expr: &actionExpr{
-				pos: position{line: 598, col: 5, offset: 18473},
+				pos: position{line: 598, col: 5, offset: 18541},
 				run: (*parser).callonDoubleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 598, col: 5, offset: 18473},
+					pos:   position{line: 598, col: 5, offset: 18541},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 598, col: 14, offset: 18482},
+						pos: position{line: 598, col: 14, offset: 18550},
 						expr: &choiceExpr{
-							pos: position{line: 599, col: 9, offset: 18492},
+							pos: position{line: 599, col: 9, offset: 18560},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2795, col: 14, offset: 88652},
+									pos: position{line: 2796, col: 14, offset: 88802},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2795, col: 14, offset: 88652},
+										pos: position{line: 2796, col: 14, offset: 88802},
 										expr: &charClassMatcher{
-											pos:        position{line: 2795, col: 14, offset: 88652},
+											pos:        position{line: 2796, col: 14, offset: 88802},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14228,10 +14563,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2901, col: 10, offset: 91483},
+									pos: position{line: 2902, col: 10, offset: 91633},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2901, col: 10, offset: 91483},
+										pos:        position{line: 2902, col: 10, offset: 91633},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14239,39 +14574,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 601, col: 11, offset: 18528},
+									pos:  position{line: 601, col: 11, offset: 18596},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 637, col: 5, offset: 20136},
+									pos: position{line: 637, col: 5, offset: 20204},
 									run: (*parser).callonDoubleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 637, col: 5, offset: 20136},
+										pos: position{line: 637, col: 5, offset: 20204},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 637, col: 5, offset: 20136},
+												pos: position{line: 637, col: 5, offset: 20204},
 												run: (*parser).callonDoubleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 640, col: 5, offset: 20208},
+												pos:   position{line: 640, col: 5, offset: 20276},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 640, col: 14, offset: 20217},
+													pos: position{line: 640, col: 14, offset: 20285},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 646, col: 5, offset: 20346},
+															pos: position{line: 646, col: 5, offset: 20414},
 															run: (*parser).callonDoubleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 646, col: 5, offset: 20346},
+																pos: position{line: 646, col: 5, offset: 20414},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 646, col: 5, offset: 20346},
+																		pos:        position{line: 646, col: 5, offset: 20414},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 646, col: 13, offset: 20354},
+																		pos:   position{line: 646, col: 13, offset: 20422},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14303,7 +14638,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 646, col: 32, offset: 20373},
+																		pos:        position{line: 646, col: 32, offset: 20441},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14312,19 +14647,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 653, col: 5, offset: 20614},
+															pos: position{line: 653, col: 5, offset: 20682},
 															run: (*parser).callonDoubleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 653, col: 5, offset: 20614},
+																pos: position{line: 653, col: 5, offset: 20682},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 653, col: 5, offset: 20614},
+																		pos:        position{line: 653, col: 5, offset: 20682},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 653, col: 9, offset: 20618},
+																		pos:   position{line: 653, col: 9, offset: 20686},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14356,7 +14691,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 653, col: 28, offset: 20637},
+																		pos:        position{line: 653, col: 28, offset: 20705},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14365,19 +14700,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 659, col: 25, offset: 20818},
+															pos: position{line: 659, col: 25, offset: 20886},
 															run: (*parser).callonDoubleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 659, col: 25, offset: 20818},
+																pos: position{line: 659, col: 25, offset: 20886},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 659, col: 25, offset: 20818},
+																		pos:        position{line: 659, col: 25, offset: 20886},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 659, col: 37, offset: 20830},
+																		pos:   position{line: 659, col: 37, offset: 20898},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14409,33 +14744,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 659, col: 56, offset: 20849},
+																		pos:   position{line: 659, col: 56, offset: 20917},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 659, col: 62, offset: 20855},
+																			pos: position{line: 659, col: 62, offset: 20923},
 																			expr: &actionExpr{
-																				pos: position{line: 667, col: 17, offset: 21152},
+																				pos: position{line: 667, col: 17, offset: 21220},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 667, col: 17, offset: 21152},
+																					pos: position{line: 667, col: 17, offset: 21220},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 667, col: 17, offset: 21152},
+																							pos:        position{line: 667, col: 17, offset: 21220},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 667, col: 21, offset: 21156},
+																							pos:   position{line: 667, col: 21, offset: 21224},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 667, col: 28, offset: 21163},
+																								pos: position{line: 667, col: 28, offset: 21231},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 667, col: 28, offset: 21163},
+																										pos: position{line: 667, col: 28, offset: 21231},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 667, col: 28, offset: 21163},
+																											pos:        position{line: 667, col: 28, offset: 21231},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14443,12 +14778,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 669, col: 9, offset: 21217},
+																										pos: position{line: 669, col: 9, offset: 21285},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 669, col: 9, offset: 21217},
+																											pos: position{line: 669, col: 9, offset: 21285},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 669, col: 9, offset: 21217},
+																												pos:        position{line: 669, col: 9, offset: 21285},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14465,7 +14800,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 659, col: 78, offset: 20871},
+																		pos:        position{line: 659, col: 78, offset: 20939},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14474,19 +14809,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 663, col: 25, offset: 20989},
+															pos: position{line: 663, col: 25, offset: 21057},
 															run: (*parser).callonDoubleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 663, col: 25, offset: 20989},
+																pos: position{line: 663, col: 25, offset: 21057},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 663, col: 25, offset: 20989},
+																		pos:        position{line: 663, col: 25, offset: 21057},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 663, col: 38, offset: 21002},
+																		pos:   position{line: 663, col: 38, offset: 21070},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14518,33 +14853,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 663, col: 57, offset: 21021},
+																		pos:   position{line: 663, col: 57, offset: 21089},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 663, col: 63, offset: 21027},
+																			pos: position{line: 663, col: 63, offset: 21095},
 																			expr: &actionExpr{
-																				pos: position{line: 667, col: 17, offset: 21152},
+																				pos: position{line: 667, col: 17, offset: 21220},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 667, col: 17, offset: 21152},
+																					pos: position{line: 667, col: 17, offset: 21220},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 667, col: 17, offset: 21152},
+																							pos:        position{line: 667, col: 17, offset: 21220},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 667, col: 21, offset: 21156},
+																							pos:   position{line: 667, col: 21, offset: 21224},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 667, col: 28, offset: 21163},
+																								pos: position{line: 667, col: 28, offset: 21231},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 667, col: 28, offset: 21163},
+																										pos: position{line: 667, col: 28, offset: 21231},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 667, col: 28, offset: 21163},
+																											pos:        position{line: 667, col: 28, offset: 21231},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14552,12 +14887,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 669, col: 9, offset: 21217},
+																										pos: position{line: 669, col: 9, offset: 21285},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 669, col: 9, offset: 21217},
+																											pos: position{line: 669, col: 9, offset: 21285},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 669, col: 9, offset: 21217},
+																												pos:        position{line: 669, col: 9, offset: 21285},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14574,7 +14909,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 663, col: 79, offset: 21043},
+																		pos:        position{line: 663, col: 79, offset: 21111},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14589,50 +14924,50 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 603, col: 12, offset: 18583},
+									pos: position{line: 603, col: 12, offset: 18651},
 									run: (*parser).callonDoubleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 603, col: 12, offset: 18583},
+										pos:        position{line: 603, col: 12, offset: 18651},
 										val:        "\\\"",
 										ignoreCase: false,
 										want:       "\"\\\\\\\"\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 606, col: 13, offset: 18685},
+									pos:        position{line: 606, col: 13, offset: 18753},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 606, col: 21, offset: 18693},
+									pos:        position{line: 606, col: 21, offset: 18761},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&litMatcher{
-									pos:        position{line: 606, col: 29, offset: 18701},
+									pos:        position{line: 606, col: 29, offset: 18769},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&actionExpr{
-									pos: position{line: 606, col: 35, offset: 18707},
+									pos: position{line: 606, col: 35, offset: 18775},
 									run: (*parser).callonDoubleQuotedAttributeValueContent85,
 									expr: &litMatcher{
-										pos:        position{line: 606, col: 35, offset: 18707},
+										pos:        position{line: 606, col: 35, offset: 18775},
 										val:        "`",
 										ignoreCase: false,
 										want:       "\"`\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 609, col: 12, offset: 18890},
+									pos: position{line: 609, col: 12, offset: 18958},
 									run: (*parser).callonDoubleQuotedAttributeValueContent87,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 609, col: 12, offset: 18890},
+										pos: position{line: 609, col: 12, offset: 18958},
 										expr: &charClassMatcher{
-											pos:        position{line: 609, col: 12, offset: 18890},
+											pos:        position{line: 609, col: 12, offset: 18958},
 											val:        "[^\\r\\n\\\\\"` ]",
 											chars:      []rune{'\r', '\n', '\\', '"', '`', ' '},
 											ignoreCase: false,
@@ -14648,20 +14983,20 @@ var g = &grammar{
 		},
 		{
 			name: "UnquotedAttributeValue",
-			pos:  position{line: 617, col: 1, offset: 19164},
+			pos:  position{line: 617, col: 1, offset: 19232},
 			expr: &actionExpr{
-				pos: position{line: 620, col: 5, offset: 19348},
+				pos: position{line: 620, col: 5, offset: 19416},
 				run: (*parser).callonUnquotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 620, col: 5, offset: 19348},
+					pos: position{line: 620, col: 5, offset: 19416},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 620, col: 5, offset: 19348},
+							pos: position{line: 620, col: 5, offset: 19416},
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 10, offset: 91483},
+								pos: position{line: 2902, col: 10, offset: 91633},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2901, col: 10, offset: 91483},
+									pos:        position{line: 2902, col: 10, offset: 91633},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14670,28 +15005,28 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 621, col: 5, offset: 19417},
+							pos:   position{line: 621, col: 5, offset: 19485},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 621, col: 14, offset: 19426},
+								pos: position{line: 621, col: 14, offset: 19494},
 								expr: &choiceExpr{
-									pos: position{line: 622, col: 9, offset: 19436},
+									pos: position{line: 622, col: 9, offset: 19504},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 622, col: 10, offset: 19437},
+											pos: position{line: 622, col: 10, offset: 19505},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 622, col: 10, offset: 19437},
+													pos:        position{line: 622, col: 10, offset: 19505},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
 												},
 												&ruleRefExpr{
-													pos:  position{line: 622, col: 14, offset: 19441},
+													pos:  position{line: 622, col: 14, offset: 19509},
 													name: "UnquotedAttributeValue",
 												},
 												&litMatcher{
-													pos:        position{line: 622, col: 37, offset: 19464},
+													pos:        position{line: 622, col: 37, offset: 19532},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
@@ -14699,35 +15034,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 637, col: 5, offset: 20136},
+											pos: position{line: 637, col: 5, offset: 20204},
 											run: (*parser).callonUnquotedAttributeValue13,
 											expr: &seqExpr{
-												pos: position{line: 637, col: 5, offset: 20136},
+												pos: position{line: 637, col: 5, offset: 20204},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 637, col: 5, offset: 20136},
+														pos: position{line: 637, col: 5, offset: 20204},
 														run: (*parser).callonUnquotedAttributeValue15,
 													},
 													&labeledExpr{
-														pos:   position{line: 640, col: 5, offset: 20208},
+														pos:   position{line: 640, col: 5, offset: 20276},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 640, col: 14, offset: 20217},
+															pos: position{line: 640, col: 14, offset: 20285},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 646, col: 5, offset: 20346},
+																	pos: position{line: 646, col: 5, offset: 20414},
 																	run: (*parser).callonUnquotedAttributeValue18,
 																	expr: &seqExpr{
-																		pos: position{line: 646, col: 5, offset: 20346},
+																		pos: position{line: 646, col: 5, offset: 20414},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 646, col: 5, offset: 20346},
+																				pos:        position{line: 646, col: 5, offset: 20414},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 646, col: 13, offset: 20354},
+																				pos:   position{line: 646, col: 13, offset: 20422},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -14759,7 +15094,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 646, col: 32, offset: 20373},
+																				pos:        position{line: 646, col: 32, offset: 20441},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14768,19 +15103,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 653, col: 5, offset: 20614},
+																	pos: position{line: 653, col: 5, offset: 20682},
 																	run: (*parser).callonUnquotedAttributeValue28,
 																	expr: &seqExpr{
-																		pos: position{line: 653, col: 5, offset: 20614},
+																		pos: position{line: 653, col: 5, offset: 20682},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 653, col: 5, offset: 20614},
+																				pos:        position{line: 653, col: 5, offset: 20682},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 653, col: 9, offset: 20618},
+																				pos:   position{line: 653, col: 9, offset: 20686},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -14812,7 +15147,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 653, col: 28, offset: 20637},
+																				pos:        position{line: 653, col: 28, offset: 20705},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14821,19 +15156,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 659, col: 25, offset: 20818},
+																	pos: position{line: 659, col: 25, offset: 20886},
 																	run: (*parser).callonUnquotedAttributeValue38,
 																	expr: &seqExpr{
-																		pos: position{line: 659, col: 25, offset: 20818},
+																		pos: position{line: 659, col: 25, offset: 20886},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 659, col: 25, offset: 20818},
+																				pos:        position{line: 659, col: 25, offset: 20886},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 659, col: 37, offset: 20830},
+																				pos:   position{line: 659, col: 37, offset: 20898},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -14865,33 +15200,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 659, col: 56, offset: 20849},
+																				pos:   position{line: 659, col: 56, offset: 20917},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 659, col: 62, offset: 20855},
+																					pos: position{line: 659, col: 62, offset: 20923},
 																					expr: &actionExpr{
-																						pos: position{line: 667, col: 17, offset: 21152},
+																						pos: position{line: 667, col: 17, offset: 21220},
 																						run: (*parser).callonUnquotedAttributeValue49,
 																						expr: &seqExpr{
-																							pos: position{line: 667, col: 17, offset: 21152},
+																							pos: position{line: 667, col: 17, offset: 21220},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 667, col: 17, offset: 21152},
+																									pos:        position{line: 667, col: 17, offset: 21220},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 667, col: 21, offset: 21156},
+																									pos:   position{line: 667, col: 21, offset: 21224},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 667, col: 28, offset: 21163},
+																										pos: position{line: 667, col: 28, offset: 21231},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 667, col: 28, offset: 21163},
+																												pos: position{line: 667, col: 28, offset: 21231},
 																												run: (*parser).callonUnquotedAttributeValue54,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 667, col: 28, offset: 21163},
+																													pos:        position{line: 667, col: 28, offset: 21231},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -14899,12 +15234,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 669, col: 9, offset: 21217},
+																												pos: position{line: 669, col: 9, offset: 21285},
 																												run: (*parser).callonUnquotedAttributeValue56,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 669, col: 9, offset: 21217},
+																													pos: position{line: 669, col: 9, offset: 21285},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 669, col: 9, offset: 21217},
+																														pos:        position{line: 669, col: 9, offset: 21285},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -14921,7 +15256,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 659, col: 78, offset: 20871},
+																				pos:        position{line: 659, col: 78, offset: 20939},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14930,19 +15265,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 663, col: 25, offset: 20989},
+																	pos: position{line: 663, col: 25, offset: 21057},
 																	run: (*parser).callonUnquotedAttributeValue60,
 																	expr: &seqExpr{
-																		pos: position{line: 663, col: 25, offset: 20989},
+																		pos: position{line: 663, col: 25, offset: 21057},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 663, col: 25, offset: 20989},
+																				pos:        position{line: 663, col: 25, offset: 21057},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 663, col: 38, offset: 21002},
+																				pos:   position{line: 663, col: 38, offset: 21070},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -14974,33 +15309,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 663, col: 57, offset: 21021},
+																				pos:   position{line: 663, col: 57, offset: 21089},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 663, col: 63, offset: 21027},
+																					pos: position{line: 663, col: 63, offset: 21095},
 																					expr: &actionExpr{
-																						pos: position{line: 667, col: 17, offset: 21152},
+																						pos: position{line: 667, col: 17, offset: 21220},
 																						run: (*parser).callonUnquotedAttributeValue71,
 																						expr: &seqExpr{
-																							pos: position{line: 667, col: 17, offset: 21152},
+																							pos: position{line: 667, col: 17, offset: 21220},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 667, col: 17, offset: 21152},
+																									pos:        position{line: 667, col: 17, offset: 21220},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 667, col: 21, offset: 21156},
+																									pos:   position{line: 667, col: 21, offset: 21224},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 667, col: 28, offset: 21163},
+																										pos: position{line: 667, col: 28, offset: 21231},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 667, col: 28, offset: 21163},
+																												pos: position{line: 667, col: 28, offset: 21231},
 																												run: (*parser).callonUnquotedAttributeValue76,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 667, col: 28, offset: 21163},
+																													pos:        position{line: 667, col: 28, offset: 21231},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15008,12 +15343,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 669, col: 9, offset: 21217},
+																												pos: position{line: 669, col: 9, offset: 21285},
 																												run: (*parser).callonUnquotedAttributeValue78,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 669, col: 9, offset: 21217},
+																													pos: position{line: 669, col: 9, offset: 21285},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 669, col: 9, offset: 21217},
+																														pos:        position{line: 669, col: 9, offset: 21285},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15030,7 +15365,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 663, col: 79, offset: 21043},
+																				pos:        position{line: 663, col: 79, offset: 21111},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15045,16 +15380,16 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 623, col: 32, offset: 19551},
+											pos:        position{line: 623, col: 32, offset: 19619},
 											val:        "{",
 											ignoreCase: false,
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2901, col: 10, offset: 91483},
+											pos: position{line: 2902, col: 10, offset: 91633},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2901, col: 10, offset: 91483},
+												pos:        position{line: 2902, col: 10, offset: 91633},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15062,12 +15397,12 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 625, col: 12, offset: 19636},
+											pos: position{line: 625, col: 12, offset: 19704},
 											run: (*parser).callonUnquotedAttributeValue85,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 625, col: 12, offset: 19636},
+												pos: position{line: 625, col: 12, offset: 19704},
 												expr: &charClassMatcher{
-													pos:        position{line: 625, col: 12, offset: 19636},
+													pos:        position{line: 625, col: 12, offset: 19704},
 													val:        "[^=,]{ ]",
 													chars:      []rune{'=', ',', ']', '{', ' '},
 													ignoreCase: false,
@@ -15085,32 +15420,32 @@ var g = &grammar{
 		},
 		{
 			name: "CrossReference",
-			pos:  position{line: 685, col: 1, offset: 21779},
+			pos:  position{line: 685, col: 1, offset: 21847},
 			expr: &choiceExpr{
-				pos: position{line: 685, col: 19, offset: 21797},
+				pos: position{line: 685, col: 19, offset: 21865},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 687, col: 27, offset: 21873},
+						pos: position{line: 687, col: 27, offset: 21941},
 						run: (*parser).callonCrossReference2,
 						expr: &seqExpr{
-							pos: position{line: 687, col: 27, offset: 21873},
+							pos: position{line: 687, col: 27, offset: 21941},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 687, col: 27, offset: 21873},
+									pos:        position{line: 687, col: 27, offset: 21941},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 687, col: 32, offset: 21878},
+									pos:   position{line: 687, col: 32, offset: 21946},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2886, col: 7, offset: 91135},
+										pos: position{line: 2887, col: 7, offset: 91285},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2886, col: 7, offset: 91135},
+											pos: position{line: 2887, col: 7, offset: 91285},
 											expr: &charClassMatcher{
-												pos:        position{line: 2886, col: 7, offset: 91135},
+												pos:        position{line: 2887, col: 7, offset: 91285},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15120,12 +15455,12 @@ var g = &grammar{
 									},
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 687, col: 40, offset: 21886},
+									pos: position{line: 687, col: 40, offset: 21954},
 									expr: &actionExpr{
-										pos: position{line: 2901, col: 10, offset: 91483},
+										pos: position{line: 2902, col: 10, offset: 91633},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2901, col: 10, offset: 91483},
+											pos:        position{line: 2902, col: 10, offset: 91633},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15134,36 +15469,36 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 687, col: 47, offset: 21893},
+									pos:        position{line: 687, col: 47, offset: 21961},
 									val:        ",",
 									ignoreCase: false,
 									want:       "\",\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 687, col: 51, offset: 21897},
+									pos:   position{line: 687, col: 51, offset: 21965},
 									label: "label",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 697, col: 24, offset: 22298},
+										pos: position{line: 697, col: 24, offset: 22366},
 										expr: &choiceExpr{
-											pos: position{line: 698, col: 5, offset: 22304},
+											pos: position{line: 698, col: 5, offset: 22372},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 698, col: 6, offset: 22305},
+													pos: position{line: 698, col: 6, offset: 22373},
 													run: (*parser).callonCrossReference16,
 													expr: &seqExpr{
-														pos: position{line: 698, col: 6, offset: 22305},
+														pos: position{line: 698, col: 6, offset: 22373},
 														exprs: []interface{}{
 															&charClassMatcher{
-																pos:        position{line: 698, col: 6, offset: 22305},
+																pos:        position{line: 698, col: 6, offset: 22373},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
 																inverted:   false,
 															},
 															&oneOrMoreExpr{
-																pos: position{line: 698, col: 14, offset: 22313},
+																pos: position{line: 698, col: 14, offset: 22381},
 																expr: &charClassMatcher{
-																	pos:        position{line: 698, col: 14, offset: 22313},
+																	pos:        position{line: 698, col: 14, offset: 22381},
 																	val:        "[^\\r\\n{<>]",
 																	chars:      []rune{'\r', '\n', '{', '<', '>'},
 																	ignoreCase: false,
@@ -15174,19 +15509,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 646, col: 5, offset: 20346},
+													pos: position{line: 646, col: 5, offset: 20414},
 													run: (*parser).callonCrossReference21,
 													expr: &seqExpr{
-														pos: position{line: 646, col: 5, offset: 20346},
+														pos: position{line: 646, col: 5, offset: 20414},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 646, col: 5, offset: 20346},
+																pos:        position{line: 646, col: 5, offset: 20414},
 																val:        "\\{",
 																ignoreCase: false,
 																want:       "\"\\\\{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 646, col: 13, offset: 20354},
+																pos:   position{line: 646, col: 13, offset: 20422},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 318, col: 18, offset: 9736},
@@ -15218,7 +15553,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 646, col: 32, offset: 20373},
+																pos:        position{line: 646, col: 32, offset: 20441},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15227,19 +15562,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 653, col: 5, offset: 20614},
+													pos: position{line: 653, col: 5, offset: 20682},
 													run: (*parser).callonCrossReference31,
 													expr: &seqExpr{
-														pos: position{line: 653, col: 5, offset: 20614},
+														pos: position{line: 653, col: 5, offset: 20682},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 653, col: 5, offset: 20614},
+																pos:        position{line: 653, col: 5, offset: 20682},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 653, col: 9, offset: 20618},
+																pos:   position{line: 653, col: 9, offset: 20686},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 318, col: 18, offset: 9736},
@@ -15271,7 +15606,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 653, col: 28, offset: 20637},
+																pos:        position{line: 653, col: 28, offset: 20705},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15280,10 +15615,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 702, col: 8, offset: 22539},
+													pos: position{line: 702, col: 8, offset: 22607},
 													run: (*parser).callonCrossReference41,
 													expr: &litMatcher{
-														pos:        position{line: 702, col: 8, offset: 22539},
+														pos:        position{line: 702, col: 8, offset: 22607},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -15294,7 +15629,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 687, col: 79, offset: 21925},
+									pos:        position{line: 687, col: 79, offset: 21993},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15303,27 +15638,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 689, col: 9, offset: 21998},
+						pos: position{line: 689, col: 9, offset: 22066},
 						run: (*parser).callonCrossReference44,
 						expr: &seqExpr{
-							pos: position{line: 689, col: 9, offset: 21998},
+							pos: position{line: 689, col: 9, offset: 22066},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 689, col: 9, offset: 21998},
+									pos:        position{line: 689, col: 9, offset: 22066},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 689, col: 14, offset: 22003},
+									pos:   position{line: 689, col: 14, offset: 22071},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2886, col: 7, offset: 91135},
+										pos: position{line: 2887, col: 7, offset: 91285},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2886, col: 7, offset: 91135},
+											pos: position{line: 2887, col: 7, offset: 91285},
 											expr: &charClassMatcher{
-												pos:        position{line: 2886, col: 7, offset: 91135},
+												pos:        position{line: 2887, col: 7, offset: 91285},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15333,7 +15668,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 689, col: 22, offset: 22011},
+									pos:        position{line: 689, col: 22, offset: 22079},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15342,7 +15677,7 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 685, col: 44, offset: 21822},
+						pos:  position{line: 685, col: 44, offset: 21890},
 						name: "ExternalCrossReference",
 					},
 				},
@@ -15350,58 +15685,58 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalCrossReference",
-			pos:  position{line: 693, col: 1, offset: 22082},
+			pos:  position{line: 693, col: 1, offset: 22150},
 			expr: &actionExpr{
-				pos: position{line: 693, col: 27, offset: 22108},
+				pos: position{line: 693, col: 27, offset: 22176},
 				run: (*parser).callonExternalCrossReference1,
 				expr: &seqExpr{
-					pos: position{line: 693, col: 27, offset: 22108},
+					pos: position{line: 693, col: 27, offset: 22176},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 693, col: 27, offset: 22108},
+							pos:        position{line: 693, col: 27, offset: 22176},
 							val:        "xref:",
 							ignoreCase: false,
 							want:       "\"xref:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 693, col: 35, offset: 22116},
+							pos:   position{line: 693, col: 35, offset: 22184},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2855, col: 17, offset: 90146},
+								pos: position{line: 2856, col: 17, offset: 90296},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2855, col: 17, offset: 90146},
+									pos:   position{line: 2856, col: 17, offset: 90296},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2872, col: 5, offset: 90600},
+										pos: position{line: 2873, col: 5, offset: 90750},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2872, col: 5, offset: 90600},
+											pos:   position{line: 2873, col: 5, offset: 90750},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2872, col: 14, offset: 90609},
+												pos: position{line: 2873, col: 14, offset: 90759},
 												expr: &choiceExpr{
-													pos: position{line: 2873, col: 9, offset: 90619},
+													pos: position{line: 2874, col: 9, offset: 90769},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 9, offset: 90619},
+															pos: position{line: 2874, col: 9, offset: 90769},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2873, col: 9, offset: 90619},
+																pos: position{line: 2874, col: 9, offset: 90769},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2873, col: 9, offset: 90619},
+																		pos: position{line: 2874, col: 9, offset: 90769},
 																		expr: &litMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90620},
+																			pos:        position{line: 2874, col: 10, offset: 90770},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2874, col: 9, offset: 90648},
+																		pos: position{line: 2875, col: 9, offset: 90798},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 10, offset: 90649},
+																			pos:        position{line: 2875, col: 10, offset: 90799},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15412,27 +15747,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2877, col: 11, offset: 90861},
+															pos: position{line: 2878, col: 11, offset: 91011},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2877, col: 11, offset: 90861},
+																	pos:        position{line: 2878, col: 11, offset: 91011},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2877, col: 19, offset: 90869},
+																	pos: position{line: 2878, col: 19, offset: 91019},
 																	expr: &seqExpr{
-																		pos: position{line: 2877, col: 21, offset: 90871},
+																		pos: position{line: 2878, col: 21, offset: 91021},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2877, col: 21, offset: 90871},
+																				pos: position{line: 2878, col: 21, offset: 91021},
 																				expr: &actionExpr{
-																					pos: position{line: 2901, col: 10, offset: 91483},
+																					pos: position{line: 2902, col: 10, offset: 91633},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2901, col: 10, offset: 91483},
+																						pos:        position{line: 2902, col: 10, offset: 91633},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15441,11 +15776,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2877, col: 28, offset: 90878},
+																				pos: position{line: 2878, col: 28, offset: 91028},
 																				expr: &notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
@@ -15455,35 +15790,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 637, col: 5, offset: 20136},
+															pos: position{line: 637, col: 5, offset: 20204},
 															run: (*parser).callonExternalCrossReference27,
 															expr: &seqExpr{
-																pos: position{line: 637, col: 5, offset: 20136},
+																pos: position{line: 637, col: 5, offset: 20204},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 637, col: 5, offset: 20136},
+																		pos: position{line: 637, col: 5, offset: 20204},
 																		run: (*parser).callonExternalCrossReference29,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 640, col: 5, offset: 20208},
+																		pos:   position{line: 640, col: 5, offset: 20276},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 640, col: 14, offset: 20217},
+																			pos: position{line: 640, col: 14, offset: 20285},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 646, col: 5, offset: 20346},
+																					pos: position{line: 646, col: 5, offset: 20414},
 																					run: (*parser).callonExternalCrossReference32,
 																					expr: &seqExpr{
-																						pos: position{line: 646, col: 5, offset: 20346},
+																						pos: position{line: 646, col: 5, offset: 20414},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 646, col: 5, offset: 20346},
+																								pos:        position{line: 646, col: 5, offset: 20414},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 646, col: 13, offset: 20354},
+																								pos:   position{line: 646, col: 13, offset: 20422},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -15515,7 +15850,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 646, col: 32, offset: 20373},
+																								pos:        position{line: 646, col: 32, offset: 20441},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15524,19 +15859,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 653, col: 5, offset: 20614},
+																					pos: position{line: 653, col: 5, offset: 20682},
 																					run: (*parser).callonExternalCrossReference42,
 																					expr: &seqExpr{
-																						pos: position{line: 653, col: 5, offset: 20614},
+																						pos: position{line: 653, col: 5, offset: 20682},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 653, col: 5, offset: 20614},
+																								pos:        position{line: 653, col: 5, offset: 20682},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 653, col: 9, offset: 20618},
+																								pos:   position{line: 653, col: 9, offset: 20686},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -15568,7 +15903,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 653, col: 28, offset: 20637},
+																								pos:        position{line: 653, col: 28, offset: 20705},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15577,19 +15912,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 659, col: 25, offset: 20818},
+																					pos: position{line: 659, col: 25, offset: 20886},
 																					run: (*parser).callonExternalCrossReference52,
 																					expr: &seqExpr{
-																						pos: position{line: 659, col: 25, offset: 20818},
+																						pos: position{line: 659, col: 25, offset: 20886},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 659, col: 25, offset: 20818},
+																								pos:        position{line: 659, col: 25, offset: 20886},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 659, col: 37, offset: 20830},
+																								pos:   position{line: 659, col: 37, offset: 20898},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -15621,33 +15956,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 659, col: 56, offset: 20849},
+																								pos:   position{line: 659, col: 56, offset: 20917},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 659, col: 62, offset: 20855},
+																									pos: position{line: 659, col: 62, offset: 20923},
 																									expr: &actionExpr{
-																										pos: position{line: 667, col: 17, offset: 21152},
+																										pos: position{line: 667, col: 17, offset: 21220},
 																										run: (*parser).callonExternalCrossReference63,
 																										expr: &seqExpr{
-																											pos: position{line: 667, col: 17, offset: 21152},
+																											pos: position{line: 667, col: 17, offset: 21220},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 667, col: 17, offset: 21152},
+																													pos:        position{line: 667, col: 17, offset: 21220},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 667, col: 21, offset: 21156},
+																													pos:   position{line: 667, col: 21, offset: 21224},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 667, col: 28, offset: 21163},
+																														pos: position{line: 667, col: 28, offset: 21231},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 667, col: 28, offset: 21163},
+																																pos: position{line: 667, col: 28, offset: 21231},
 																																run: (*parser).callonExternalCrossReference68,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 667, col: 28, offset: 21163},
+																																	pos:        position{line: 667, col: 28, offset: 21231},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -15655,12 +15990,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 669, col: 9, offset: 21217},
+																																pos: position{line: 669, col: 9, offset: 21285},
 																																run: (*parser).callonExternalCrossReference70,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 669, col: 9, offset: 21217},
+																																	pos: position{line: 669, col: 9, offset: 21285},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 669, col: 9, offset: 21217},
+																																		pos:        position{line: 669, col: 9, offset: 21285},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -15677,7 +16012,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 659, col: 78, offset: 20871},
+																								pos:        position{line: 659, col: 78, offset: 20939},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15686,19 +16021,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 663, col: 25, offset: 20989},
+																					pos: position{line: 663, col: 25, offset: 21057},
 																					run: (*parser).callonExternalCrossReference74,
 																					expr: &seqExpr{
-																						pos: position{line: 663, col: 25, offset: 20989},
+																						pos: position{line: 663, col: 25, offset: 21057},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 663, col: 25, offset: 20989},
+																								pos:        position{line: 663, col: 25, offset: 21057},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 663, col: 38, offset: 21002},
+																								pos:   position{line: 663, col: 38, offset: 21070},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -15730,33 +16065,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 663, col: 57, offset: 21021},
+																								pos:   position{line: 663, col: 57, offset: 21089},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 663, col: 63, offset: 21027},
+																									pos: position{line: 663, col: 63, offset: 21095},
 																									expr: &actionExpr{
-																										pos: position{line: 667, col: 17, offset: 21152},
+																										pos: position{line: 667, col: 17, offset: 21220},
 																										run: (*parser).callonExternalCrossReference85,
 																										expr: &seqExpr{
-																											pos: position{line: 667, col: 17, offset: 21152},
+																											pos: position{line: 667, col: 17, offset: 21220},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 667, col: 17, offset: 21152},
+																													pos:        position{line: 667, col: 17, offset: 21220},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 667, col: 21, offset: 21156},
+																													pos:   position{line: 667, col: 21, offset: 21224},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 667, col: 28, offset: 21163},
+																														pos: position{line: 667, col: 28, offset: 21231},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 667, col: 28, offset: 21163},
+																																pos: position{line: 667, col: 28, offset: 21231},
 																																run: (*parser).callonExternalCrossReference90,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 667, col: 28, offset: 21163},
+																																	pos:        position{line: 667, col: 28, offset: 21231},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -15764,12 +16099,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 669, col: 9, offset: 21217},
+																																pos: position{line: 669, col: 9, offset: 21285},
 																																run: (*parser).callonExternalCrossReference92,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 669, col: 9, offset: 21217},
+																																	pos: position{line: 669, col: 9, offset: 21285},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 669, col: 9, offset: 21217},
+																																		pos:        position{line: 669, col: 9, offset: 21285},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -15786,7 +16121,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 663, col: 79, offset: 21043},
+																								pos:        position{line: 663, col: 79, offset: 21111},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15801,27 +16136,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1199, col: 23, offset: 37001},
+															pos: position{line: 1199, col: 23, offset: 37069},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1199, col: 23, offset: 37001},
+																pos: position{line: 1199, col: 23, offset: 37069},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1197, col: 32, offset: 36969},
+																		pos:        position{line: 1197, col: 32, offset: 37037},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1199, col: 51, offset: 37029},
+																		pos:   position{line: 1199, col: 51, offset: 37097},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1199, col: 56, offset: 37034},
+																			pos: position{line: 1199, col: 56, offset: 37102},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1199, col: 56, offset: 37034},
+																				pos: position{line: 1199, col: 56, offset: 37102},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1199, col: 56, offset: 37034},
+																					pos:        position{line: 1199, col: 56, offset: 37102},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -15831,7 +16166,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1197, col: 32, offset: 36969},
+																		pos:        position{line: 1197, col: 32, offset: 37037},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -15840,10 +16175,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2880, col: 11, offset: 90998},
+															pos: position{line: 2881, col: 11, offset: 91148},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2880, col: 11, offset: 90998},
+																pos:        position{line: 2881, col: 11, offset: 91148},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -15858,10 +16193,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 693, col: 54, offset: 22135},
+							pos:   position{line: 693, col: 54, offset: 22203},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 693, col: 66, offset: 22147},
+								pos:  position{line: 693, col: 66, offset: 22215},
 								name: "InlineAttributes",
 							},
 						},
@@ -15871,29 +16206,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 989, col: 1, offset: 30796},
+			pos:  position{line: 989, col: 1, offset: 30864},
 			expr: &actionExpr{
-				pos: position{line: 990, col: 5, offset: 30829},
+				pos: position{line: 990, col: 5, offset: 30897},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 990, col: 5, offset: 30829},
+					pos: position{line: 990, col: 5, offset: 30897},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 990, col: 5, offset: 30829},
+							pos:        position{line: 990, col: 5, offset: 30897},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 990, col: 11, offset: 30835},
+							pos:   position{line: 990, col: 11, offset: 30903},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2851, col: 14, offset: 90076},
+								pos: position{line: 2852, col: 14, offset: 90226},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2851, col: 14, offset: 90076},
+									pos: position{line: 2852, col: 14, offset: 90226},
 									expr: &charClassMatcher{
-										pos:        position{line: 2851, col: 14, offset: 90076},
+										pos:        position{line: 2852, col: 14, offset: 90226},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -15903,28 +16238,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2923, col: 8, offset: 91881},
+							pos: position{line: 2924, col: 8, offset: 92031},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2910, col: 12, offset: 91654},
+									pos: position{line: 2911, col: 12, offset: 91804},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2910, col: 13, offset: 91655},
+										pos: position{line: 2911, col: 13, offset: 91805},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2910, col: 13, offset: 91655},
+												pos:        position{line: 2911, col: 13, offset: 91805},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2910, col: 20, offset: 91662},
+												pos:        position{line: 2911, col: 20, offset: 91812},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2910, col: 29, offset: 91671},
+												pos:        position{line: 2911, col: 29, offset: 91821},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -15933,9 +16268,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2920, col: 8, offset: 91831},
+									pos: position{line: 2921, col: 8, offset: 91981},
 									expr: &anyMatcher{
-										line: 2920, col: 9, offset: 91832,
+										line: 2921, col: 9, offset: 91982,
 									},
 								},
 							},
@@ -15946,53 +16281,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1101, col: 1, offset: 33752},
+			pos:  position{line: 1101, col: 1, offset: 33820},
 			expr: &actionExpr{
-				pos: position{line: 1102, col: 5, offset: 33775},
+				pos: position{line: 1102, col: 5, offset: 33843},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1102, col: 5, offset: 33775},
+					pos: position{line: 1102, col: 5, offset: 33843},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1102, col: 5, offset: 33775},
+							pos: position{line: 1102, col: 5, offset: 33843},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1105, col: 5, offset: 33836},
+							pos: position{line: 1105, col: 5, offset: 33904},
 							expr: &choiceExpr{
-								pos: position{line: 1105, col: 6, offset: 33837},
+								pos: position{line: 1105, col: 6, offset: 33905},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2511, col: 22, offset: 80468},
+										pos: position{line: 2512, col: 22, offset: 80570},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2511, col: 22, offset: 80468},
+											pos: position{line: 2512, col: 22, offset: 80570},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2516, col: 31, offset: 80689},
+													pos:        position{line: 2517, col: 31, offset: 80820},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2516, col: 36, offset: 80694},
+													pos: position{line: 2517, col: 36, offset: 80825},
 													expr: &litMatcher{
-														pos:        position{line: 2516, col: 37, offset: 80695},
-														val:        "//",
+														pos:        position{line: 2517, col: 37, offset: 80826},
+														val:        "/",
 														ignoreCase: false,
-														want:       "\"//\"",
+														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2511, col: 49, offset: 80495},
+													pos:   position{line: 2512, col: 49, offset: 80597},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 13, offset: 90009},
+														pos: position{line: 2848, col: 13, offset: 90159},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2847, col: 13, offset: 90009},
+															pos: position{line: 2848, col: 13, offset: 90159},
 															expr: &charClassMatcher{
-																pos:        position{line: 2847, col: 13, offset: 90009},
+																pos:        position{line: 2848, col: 13, offset: 90159},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16002,28 +16337,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2923, col: 8, offset: 91881},
+													pos: position{line: 2924, col: 8, offset: 92031},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2910, col: 12, offset: 91654},
+															pos: position{line: 2911, col: 12, offset: 91804},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2910, col: 13, offset: 91655},
+																pos: position{line: 2911, col: 13, offset: 91805},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 13, offset: 91655},
+																		pos:        position{line: 2911, col: 13, offset: 91805},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 20, offset: 91662},
+																		pos:        position{line: 2911, col: 20, offset: 91812},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 29, offset: 91671},
+																		pos:        position{line: 2911, col: 29, offset: 91821},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16032,9 +16367,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2920, col: 8, offset: 91831},
+															pos: position{line: 2921, col: 8, offset: 91981},
 															expr: &anyMatcher{
-																line: 2920, col: 9, offset: 91832,
+																line: 2921, col: 9, offset: 91982,
 															},
 														},
 													},
@@ -16043,36 +16378,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 821, col: 5, offset: 26353},
+										pos: position{line: 821, col: 5, offset: 26421},
 										run: (*parser).callonDocumentHeader23,
 										expr: &seqExpr{
-											pos: position{line: 821, col: 5, offset: 26353},
+											pos: position{line: 821, col: 5, offset: 26421},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 741, col: 5, offset: 23613},
+													pos: position{line: 741, col: 5, offset: 23681},
 													run: (*parser).callonDocumentHeader25,
 													expr: &seqExpr{
-														pos: position{line: 741, col: 5, offset: 23613},
+														pos: position{line: 741, col: 5, offset: 23681},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 741, col: 5, offset: 23613},
+																pos:   position{line: 741, col: 5, offset: 23681},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 741, col: 16, offset: 23624},
+																	pos: position{line: 741, col: 16, offset: 23692},
 																	run: (*parser).callonDocumentHeader28,
 																	expr: &seqExpr{
-																		pos: position{line: 741, col: 16, offset: 23624},
+																		pos: position{line: 741, col: 16, offset: 23692},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 741, col: 16, offset: 23624},
+																				pos:        position{line: 741, col: 16, offset: 23692},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 741, col: 23, offset: 23631},
+																				pos: position{line: 741, col: 23, offset: 23699},
 																				expr: &litMatcher{
-																					pos:        position{line: 741, col: 23, offset: 23631},
+																					pos:        position{line: 741, col: 23, offset: 23699},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -16083,12 +16418,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 743, col: 8, offset: 23715},
+																pos: position{line: 743, col: 8, offset: 23783},
 																expr: &actionExpr{
-																	pos: position{line: 2901, col: 10, offset: 91483},
+																	pos: position{line: 2902, col: 10, offset: 91633},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2901, col: 10, offset: 91483},
+																		pos:        position{line: 2902, col: 10, offset: 91633},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16097,28 +16432,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2923, col: 8, offset: 91881},
+																pos: position{line: 2924, col: 8, offset: 92031},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2910, col: 12, offset: 91654},
+																		pos: position{line: 2911, col: 12, offset: 91804},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2910, col: 13, offset: 91655},
+																			pos: position{line: 2911, col: 13, offset: 91805},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2910, col: 13, offset: 91655},
+																					pos:        position{line: 2911, col: 13, offset: 91805},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2910, col: 20, offset: 91662},
+																					pos:        position{line: 2911, col: 20, offset: 91812},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2910, col: 29, offset: 91671},
+																					pos:        position{line: 2911, col: 29, offset: 91821},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16127,9 +16462,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2920, col: 8, offset: 91831},
+																		pos: position{line: 2921, col: 8, offset: 91981},
 																		expr: &anyMatcher{
-																			line: 2920, col: 9, offset: 91832,
+																			line: 2921, col: 9, offset: 91982,
 																		},
 																	},
 																},
@@ -16138,46 +16473,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 822, col: 5, offset: 26384},
+													pos:   position{line: 822, col: 5, offset: 26452},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 832, col: 5, offset: 26670},
+														pos: position{line: 832, col: 5, offset: 26738},
 														expr: &actionExpr{
-															pos: position{line: 832, col: 6, offset: 26671},
+															pos: position{line: 832, col: 6, offset: 26739},
 															run: (*parser).callonDocumentHeader46,
 															expr: &seqExpr{
-																pos: position{line: 832, col: 6, offset: 26671},
+																pos: position{line: 832, col: 6, offset: 26739},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 832, col: 6, offset: 26671},
+																		pos: position{line: 832, col: 6, offset: 26739},
 																		expr: &choiceExpr{
-																			pos: position{line: 829, col: 29, offset: 26613},
+																			pos: position{line: 829, col: 29, offset: 26681},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 741, col: 5, offset: 23613},
+																					pos: position{line: 741, col: 5, offset: 23681},
 																					run: (*parser).callonDocumentHeader50,
 																					expr: &seqExpr{
-																						pos: position{line: 741, col: 5, offset: 23613},
+																						pos: position{line: 741, col: 5, offset: 23681},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 741, col: 5, offset: 23613},
+																								pos:   position{line: 741, col: 5, offset: 23681},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 741, col: 16, offset: 23624},
+																									pos: position{line: 741, col: 16, offset: 23692},
 																									run: (*parser).callonDocumentHeader53,
 																									expr: &seqExpr{
-																										pos: position{line: 741, col: 16, offset: 23624},
+																										pos: position{line: 741, col: 16, offset: 23692},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 741, col: 16, offset: 23624},
+																												pos:        position{line: 741, col: 16, offset: 23692},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 741, col: 23, offset: 23631},
+																												pos: position{line: 741, col: 23, offset: 23699},
 																												expr: &litMatcher{
-																													pos:        position{line: 741, col: 23, offset: 23631},
+																													pos:        position{line: 741, col: 23, offset: 23699},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -16188,12 +16523,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 743, col: 8, offset: 23715},
+																								pos: position{line: 743, col: 8, offset: 23783},
 																								expr: &actionExpr{
-																									pos: position{line: 2901, col: 10, offset: 91483},
+																									pos: position{line: 2902, col: 10, offset: 91633},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2901, col: 10, offset: 91483},
+																										pos:        position{line: 2902, col: 10, offset: 91633},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16202,28 +16537,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2923, col: 8, offset: 91881},
+																								pos: position{line: 2924, col: 8, offset: 92031},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2910, col: 12, offset: 91654},
+																										pos: position{line: 2911, col: 12, offset: 91804},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2910, col: 13, offset: 91655},
+																											pos: position{line: 2911, col: 13, offset: 91805},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 13, offset: 91655},
+																													pos:        position{line: 2911, col: 13, offset: 91805},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 20, offset: 91662},
+																													pos:        position{line: 2911, col: 20, offset: 91812},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 29, offset: 91671},
+																													pos:        position{line: 2911, col: 29, offset: 91821},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16232,9 +16567,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2920, col: 8, offset: 91831},
+																										pos: position{line: 2921, col: 8, offset: 91981},
 																										expr: &anyMatcher{
-																											line: 2920, col: 9, offset: 91832,
+																											line: 2921, col: 9, offset: 91982,
 																										},
 																									},
 																								},
@@ -16243,39 +16578,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 833, col: 5, offset: 26701},
+																		pos:   position{line: 833, col: 5, offset: 26769},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26117},
+																			pos: position{line: 812, col: 5, offset: 26185},
 																			run: (*parser).callonDocumentHeader72,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26117},
+																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2918, col: 11, offset: 91817},
+																						pos: position{line: 2919, col: 11, offset: 91967},
 																						expr: &anyMatcher{
-																							line: 2918, col: 13, offset: 91819,
+																							line: 2919, col: 13, offset: 91969,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26192},
+																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2847, col: 13, offset: 90009},
+																							pos: position{line: 2848, col: 13, offset: 90159},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2847, col: 13, offset: 90009},
+																								pos: position{line: 2848, col: 13, offset: 90159},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2847, col: 13, offset: 90009},
+																									pos:        position{line: 2848, col: 13, offset: 90159},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16285,28 +16620,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2923, col: 8, offset: 91881},
+																						pos: position{line: 2924, col: 8, offset: 92031},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2910, col: 12, offset: 91654},
+																								pos: position{line: 2911, col: 12, offset: 91804},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2910, col: 13, offset: 91655},
+																									pos: position{line: 2911, col: 13, offset: 91805},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 13, offset: 91655},
+																											pos:        position{line: 2911, col: 13, offset: 91805},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 20, offset: 91662},
+																											pos:        position{line: 2911, col: 20, offset: 91812},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 29, offset: 91671},
+																											pos:        position{line: 2911, col: 29, offset: 91821},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16315,9 +16650,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 8, offset: 91831},
+																								pos: position{line: 2921, col: 8, offset: 91981},
 																								expr: &anyMatcher{
-																									line: 2920, col: 9, offset: 91832,
+																									line: 2921, col: 9, offset: 91982,
 																								},
 																							},
 																						},
@@ -16332,35 +16667,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 823, col: 5, offset: 26418},
+													pos: position{line: 823, col: 5, offset: 26486},
 													expr: &choiceExpr{
-														pos: position{line: 829, col: 29, offset: 26613},
+														pos: position{line: 829, col: 29, offset: 26681},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 741, col: 5, offset: 23613},
+																pos: position{line: 741, col: 5, offset: 23681},
 																run: (*parser).callonDocumentHeader90,
 																expr: &seqExpr{
-																	pos: position{line: 741, col: 5, offset: 23613},
+																	pos: position{line: 741, col: 5, offset: 23681},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 741, col: 5, offset: 23613},
+																			pos:   position{line: 741, col: 5, offset: 23681},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 741, col: 16, offset: 23624},
+																				pos: position{line: 741, col: 16, offset: 23692},
 																				run: (*parser).callonDocumentHeader93,
 																				expr: &seqExpr{
-																					pos: position{line: 741, col: 16, offset: 23624},
+																					pos: position{line: 741, col: 16, offset: 23692},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 741, col: 16, offset: 23624},
+																							pos:        position{line: 741, col: 16, offset: 23692},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 741, col: 23, offset: 23631},
+																							pos: position{line: 741, col: 23, offset: 23699},
 																							expr: &litMatcher{
-																								pos:        position{line: 741, col: 23, offset: 23631},
+																								pos:        position{line: 741, col: 23, offset: 23699},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -16371,12 +16706,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 743, col: 8, offset: 23715},
+																			pos: position{line: 743, col: 8, offset: 23783},
 																			expr: &actionExpr{
-																				pos: position{line: 2901, col: 10, offset: 91483},
+																				pos: position{line: 2902, col: 10, offset: 91633},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2901, col: 10, offset: 91483},
+																					pos:        position{line: 2902, col: 10, offset: 91633},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16385,28 +16720,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2923, col: 8, offset: 91881},
+																			pos: position{line: 2924, col: 8, offset: 92031},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2910, col: 12, offset: 91654},
+																					pos: position{line: 2911, col: 12, offset: 91804},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2910, col: 13, offset: 91655},
+																						pos: position{line: 2911, col: 13, offset: 91805},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 13, offset: 91655},
+																								pos:        position{line: 2911, col: 13, offset: 91805},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 20, offset: 91662},
+																								pos:        position{line: 2911, col: 20, offset: 91812},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 29, offset: 91671},
+																								pos:        position{line: 2911, col: 29, offset: 91821},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16415,9 +16750,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
@@ -16426,9 +16761,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2920, col: 8, offset: 91831},
+																pos: position{line: 2921, col: 8, offset: 91981},
 																expr: &anyMatcher{
-																	line: 2920, col: 9, offset: 91832,
+																	line: 2921, col: 9, offset: 91982,
 																},
 															},
 														},
@@ -16441,49 +16776,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1106, col: 5, offset: 33933},
+							pos:   position{line: 1106, col: 5, offset: 34001},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1106, col: 12, offset: 33940},
+								pos:  position{line: 1106, col: 12, offset: 34008},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1107, col: 5, offset: 33959},
+							pos: position{line: 1107, col: 5, offset: 34027},
 							expr: &choiceExpr{
-								pos: position{line: 1107, col: 6, offset: 33960},
+								pos: position{line: 1107, col: 6, offset: 34028},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2511, col: 22, offset: 80468},
+										pos: position{line: 2512, col: 22, offset: 80570},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2511, col: 22, offset: 80468},
+											pos: position{line: 2512, col: 22, offset: 80570},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2516, col: 31, offset: 80689},
+													pos:        position{line: 2517, col: 31, offset: 80820},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2516, col: 36, offset: 80694},
+													pos: position{line: 2517, col: 36, offset: 80825},
 													expr: &litMatcher{
-														pos:        position{line: 2516, col: 37, offset: 80695},
-														val:        "//",
+														pos:        position{line: 2517, col: 37, offset: 80826},
+														val:        "/",
 														ignoreCase: false,
-														want:       "\"//\"",
+														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2511, col: 49, offset: 80495},
+													pos:   position{line: 2512, col: 49, offset: 80597},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 13, offset: 90009},
+														pos: position{line: 2848, col: 13, offset: 90159},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2847, col: 13, offset: 90009},
+															pos: position{line: 2848, col: 13, offset: 90159},
 															expr: &charClassMatcher{
-																pos:        position{line: 2847, col: 13, offset: 90009},
+																pos:        position{line: 2848, col: 13, offset: 90159},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16493,28 +16828,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2923, col: 8, offset: 91881},
+													pos: position{line: 2924, col: 8, offset: 92031},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2910, col: 12, offset: 91654},
+															pos: position{line: 2911, col: 12, offset: 91804},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2910, col: 13, offset: 91655},
+																pos: position{line: 2911, col: 13, offset: 91805},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 13, offset: 91655},
+																		pos:        position{line: 2911, col: 13, offset: 91805},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 20, offset: 91662},
+																		pos:        position{line: 2911, col: 20, offset: 91812},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 29, offset: 91671},
+																		pos:        position{line: 2911, col: 29, offset: 91821},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16523,9 +16858,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2920, col: 8, offset: 91831},
+															pos: position{line: 2921, col: 8, offset: 91981},
 															expr: &anyMatcher{
-																line: 2920, col: 9, offset: 91832,
+																line: 2921, col: 9, offset: 91982,
 															},
 														},
 													},
@@ -16534,36 +16869,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 821, col: 5, offset: 26353},
+										pos: position{line: 821, col: 5, offset: 26421},
 										run: (*parser).callonDocumentHeader132,
 										expr: &seqExpr{
-											pos: position{line: 821, col: 5, offset: 26353},
+											pos: position{line: 821, col: 5, offset: 26421},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 741, col: 5, offset: 23613},
+													pos: position{line: 741, col: 5, offset: 23681},
 													run: (*parser).callonDocumentHeader134,
 													expr: &seqExpr{
-														pos: position{line: 741, col: 5, offset: 23613},
+														pos: position{line: 741, col: 5, offset: 23681},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 741, col: 5, offset: 23613},
+																pos:   position{line: 741, col: 5, offset: 23681},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 741, col: 16, offset: 23624},
+																	pos: position{line: 741, col: 16, offset: 23692},
 																	run: (*parser).callonDocumentHeader137,
 																	expr: &seqExpr{
-																		pos: position{line: 741, col: 16, offset: 23624},
+																		pos: position{line: 741, col: 16, offset: 23692},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 741, col: 16, offset: 23624},
+																				pos:        position{line: 741, col: 16, offset: 23692},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 741, col: 23, offset: 23631},
+																				pos: position{line: 741, col: 23, offset: 23699},
 																				expr: &litMatcher{
-																					pos:        position{line: 741, col: 23, offset: 23631},
+																					pos:        position{line: 741, col: 23, offset: 23699},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -16574,12 +16909,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 743, col: 8, offset: 23715},
+																pos: position{line: 743, col: 8, offset: 23783},
 																expr: &actionExpr{
-																	pos: position{line: 2901, col: 10, offset: 91483},
+																	pos: position{line: 2902, col: 10, offset: 91633},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2901, col: 10, offset: 91483},
+																		pos:        position{line: 2902, col: 10, offset: 91633},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16588,28 +16923,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2923, col: 8, offset: 91881},
+																pos: position{line: 2924, col: 8, offset: 92031},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2910, col: 12, offset: 91654},
+																		pos: position{line: 2911, col: 12, offset: 91804},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2910, col: 13, offset: 91655},
+																			pos: position{line: 2911, col: 13, offset: 91805},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2910, col: 13, offset: 91655},
+																					pos:        position{line: 2911, col: 13, offset: 91805},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2910, col: 20, offset: 91662},
+																					pos:        position{line: 2911, col: 20, offset: 91812},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2910, col: 29, offset: 91671},
+																					pos:        position{line: 2911, col: 29, offset: 91821},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16618,9 +16953,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2920, col: 8, offset: 91831},
+																		pos: position{line: 2921, col: 8, offset: 91981},
 																		expr: &anyMatcher{
-																			line: 2920, col: 9, offset: 91832,
+																			line: 2921, col: 9, offset: 91982,
 																		},
 																	},
 																},
@@ -16629,46 +16964,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 822, col: 5, offset: 26384},
+													pos:   position{line: 822, col: 5, offset: 26452},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 832, col: 5, offset: 26670},
+														pos: position{line: 832, col: 5, offset: 26738},
 														expr: &actionExpr{
-															pos: position{line: 832, col: 6, offset: 26671},
+															pos: position{line: 832, col: 6, offset: 26739},
 															run: (*parser).callonDocumentHeader155,
 															expr: &seqExpr{
-																pos: position{line: 832, col: 6, offset: 26671},
+																pos: position{line: 832, col: 6, offset: 26739},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 832, col: 6, offset: 26671},
+																		pos: position{line: 832, col: 6, offset: 26739},
 																		expr: &choiceExpr{
-																			pos: position{line: 829, col: 29, offset: 26613},
+																			pos: position{line: 829, col: 29, offset: 26681},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 741, col: 5, offset: 23613},
+																					pos: position{line: 741, col: 5, offset: 23681},
 																					run: (*parser).callonDocumentHeader159,
 																					expr: &seqExpr{
-																						pos: position{line: 741, col: 5, offset: 23613},
+																						pos: position{line: 741, col: 5, offset: 23681},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 741, col: 5, offset: 23613},
+																								pos:   position{line: 741, col: 5, offset: 23681},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 741, col: 16, offset: 23624},
+																									pos: position{line: 741, col: 16, offset: 23692},
 																									run: (*parser).callonDocumentHeader162,
 																									expr: &seqExpr{
-																										pos: position{line: 741, col: 16, offset: 23624},
+																										pos: position{line: 741, col: 16, offset: 23692},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 741, col: 16, offset: 23624},
+																												pos:        position{line: 741, col: 16, offset: 23692},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 741, col: 23, offset: 23631},
+																												pos: position{line: 741, col: 23, offset: 23699},
 																												expr: &litMatcher{
-																													pos:        position{line: 741, col: 23, offset: 23631},
+																													pos:        position{line: 741, col: 23, offset: 23699},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -16679,12 +17014,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 743, col: 8, offset: 23715},
+																								pos: position{line: 743, col: 8, offset: 23783},
 																								expr: &actionExpr{
-																									pos: position{line: 2901, col: 10, offset: 91483},
+																									pos: position{line: 2902, col: 10, offset: 91633},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2901, col: 10, offset: 91483},
+																										pos:        position{line: 2902, col: 10, offset: 91633},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16693,28 +17028,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2923, col: 8, offset: 91881},
+																								pos: position{line: 2924, col: 8, offset: 92031},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2910, col: 12, offset: 91654},
+																										pos: position{line: 2911, col: 12, offset: 91804},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2910, col: 13, offset: 91655},
+																											pos: position{line: 2911, col: 13, offset: 91805},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 13, offset: 91655},
+																													pos:        position{line: 2911, col: 13, offset: 91805},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 20, offset: 91662},
+																													pos:        position{line: 2911, col: 20, offset: 91812},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 29, offset: 91671},
+																													pos:        position{line: 2911, col: 29, offset: 91821},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16723,9 +17058,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2920, col: 8, offset: 91831},
+																										pos: position{line: 2921, col: 8, offset: 91981},
 																										expr: &anyMatcher{
-																											line: 2920, col: 9, offset: 91832,
+																											line: 2921, col: 9, offset: 91982,
 																										},
 																									},
 																								},
@@ -16734,39 +17069,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 833, col: 5, offset: 26701},
+																		pos:   position{line: 833, col: 5, offset: 26769},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26117},
+																			pos: position{line: 812, col: 5, offset: 26185},
 																			run: (*parser).callonDocumentHeader181,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26117},
+																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2918, col: 11, offset: 91817},
+																						pos: position{line: 2919, col: 11, offset: 91967},
 																						expr: &anyMatcher{
-																							line: 2918, col: 13, offset: 91819,
+																							line: 2919, col: 13, offset: 91969,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26192},
+																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2847, col: 13, offset: 90009},
+																							pos: position{line: 2848, col: 13, offset: 90159},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2847, col: 13, offset: 90009},
+																								pos: position{line: 2848, col: 13, offset: 90159},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2847, col: 13, offset: 90009},
+																									pos:        position{line: 2848, col: 13, offset: 90159},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16776,28 +17111,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2923, col: 8, offset: 91881},
+																						pos: position{line: 2924, col: 8, offset: 92031},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2910, col: 12, offset: 91654},
+																								pos: position{line: 2911, col: 12, offset: 91804},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2910, col: 13, offset: 91655},
+																									pos: position{line: 2911, col: 13, offset: 91805},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 13, offset: 91655},
+																											pos:        position{line: 2911, col: 13, offset: 91805},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 20, offset: 91662},
+																											pos:        position{line: 2911, col: 20, offset: 91812},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 29, offset: 91671},
+																											pos:        position{line: 2911, col: 29, offset: 91821},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16806,9 +17141,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 8, offset: 91831},
+																								pos: position{line: 2921, col: 8, offset: 91981},
 																								expr: &anyMatcher{
-																									line: 2920, col: 9, offset: 91832,
+																									line: 2921, col: 9, offset: 91982,
 																								},
 																							},
 																						},
@@ -16823,35 +17158,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 823, col: 5, offset: 26418},
+													pos: position{line: 823, col: 5, offset: 26486},
 													expr: &choiceExpr{
-														pos: position{line: 829, col: 29, offset: 26613},
+														pos: position{line: 829, col: 29, offset: 26681},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 741, col: 5, offset: 23613},
+																pos: position{line: 741, col: 5, offset: 23681},
 																run: (*parser).callonDocumentHeader199,
 																expr: &seqExpr{
-																	pos: position{line: 741, col: 5, offset: 23613},
+																	pos: position{line: 741, col: 5, offset: 23681},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 741, col: 5, offset: 23613},
+																			pos:   position{line: 741, col: 5, offset: 23681},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 741, col: 16, offset: 23624},
+																				pos: position{line: 741, col: 16, offset: 23692},
 																				run: (*parser).callonDocumentHeader202,
 																				expr: &seqExpr{
-																					pos: position{line: 741, col: 16, offset: 23624},
+																					pos: position{line: 741, col: 16, offset: 23692},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 741, col: 16, offset: 23624},
+																							pos:        position{line: 741, col: 16, offset: 23692},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 741, col: 23, offset: 23631},
+																							pos: position{line: 741, col: 23, offset: 23699},
 																							expr: &litMatcher{
-																								pos:        position{line: 741, col: 23, offset: 23631},
+																								pos:        position{line: 741, col: 23, offset: 23699},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -16862,12 +17197,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 743, col: 8, offset: 23715},
+																			pos: position{line: 743, col: 8, offset: 23783},
 																			expr: &actionExpr{
-																				pos: position{line: 2901, col: 10, offset: 91483},
+																				pos: position{line: 2902, col: 10, offset: 91633},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2901, col: 10, offset: 91483},
+																					pos:        position{line: 2902, col: 10, offset: 91633},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16876,28 +17211,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2923, col: 8, offset: 91881},
+																			pos: position{line: 2924, col: 8, offset: 92031},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2910, col: 12, offset: 91654},
+																					pos: position{line: 2911, col: 12, offset: 91804},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2910, col: 13, offset: 91655},
+																						pos: position{line: 2911, col: 13, offset: 91805},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 13, offset: 91655},
+																								pos:        position{line: 2911, col: 13, offset: 91805},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 20, offset: 91662},
+																								pos:        position{line: 2911, col: 20, offset: 91812},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 29, offset: 91671},
+																								pos:        position{line: 2911, col: 29, offset: 91821},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16906,9 +17241,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
@@ -16917,9 +17252,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2920, col: 8, offset: 91831},
+																pos: position{line: 2921, col: 8, offset: 91981},
 																expr: &anyMatcher{
-																	line: 2920, col: 9, offset: 91832,
+																	line: 2921, col: 9, offset: 91982,
 																},
 															},
 														},
@@ -16932,41 +17267,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1108, col: 5, offset: 34056},
+							pos:   position{line: 1108, col: 5, offset: 34124},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1108, col: 24, offset: 34075},
+								pos: position{line: 1108, col: 24, offset: 34143},
 								expr: &actionExpr{
-									pos: position{line: 1119, col: 5, offset: 34450},
+									pos: position{line: 1119, col: 5, offset: 34518},
 									run: (*parser).callonDocumentHeader222,
 									expr: &seqExpr{
-										pos: position{line: 1119, col: 5, offset: 34450},
+										pos: position{line: 1119, col: 5, offset: 34518},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1119, col: 5, offset: 34450},
+												pos: position{line: 1119, col: 5, offset: 34518},
 												expr: &litMatcher{
-													pos:        position{line: 1119, col: 6, offset: 34451},
+													pos:        position{line: 1119, col: 6, offset: 34519},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1120, col: 5, offset: 34459},
+												pos:   position{line: 1120, col: 5, offset: 34527},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1126, col: 20, offset: 34715},
+													pos: position{line: 1126, col: 20, offset: 34783},
 													run: (*parser).callonDocumentHeader227,
 													expr: &seqExpr{
-														pos: position{line: 1126, col: 20, offset: 34715},
+														pos: position{line: 1126, col: 20, offset: 34783},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1126, col: 20, offset: 34715},
+																pos: position{line: 1126, col: 20, offset: 34783},
 																expr: &actionExpr{
-																	pos: position{line: 2901, col: 10, offset: 91483},
+																	pos: position{line: 2902, col: 10, offset: 91633},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2901, col: 10, offset: 91483},
+																		pos:        position{line: 2902, col: 10, offset: 91633},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16975,37 +17310,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1126, col: 27, offset: 34722},
+																pos:   position{line: 1126, col: 27, offset: 34790},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1126, col: 36, offset: 34731},
+																	pos: position{line: 1126, col: 36, offset: 34799},
 																	expr: &actionExpr{
-																		pos: position{line: 1131, col: 5, offset: 34844},
+																		pos: position{line: 1131, col: 5, offset: 34912},
 																		run: (*parser).callonDocumentHeader234,
 																		expr: &seqExpr{
-																			pos: position{line: 1131, col: 5, offset: 34844},
+																			pos: position{line: 1131, col: 5, offset: 34912},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1131, col: 5, offset: 34844},
+																					pos:   position{line: 1131, col: 5, offset: 34912},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1131, col: 14, offset: 34853},
+																						pos: position{line: 1131, col: 14, offset: 34921},
 																						expr: &actionExpr{
-																							pos: position{line: 1142, col: 5, offset: 35233},
+																							pos: position{line: 1142, col: 5, offset: 35301},
 																							run: (*parser).callonDocumentHeader238,
 																							expr: &seqExpr{
-																								pos: position{line: 1142, col: 5, offset: 35233},
+																								pos: position{line: 1142, col: 5, offset: 35301},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1142, col: 5, offset: 35233},
+																										pos:   position{line: 1142, col: 5, offset: 35301},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1142, col: 12, offset: 35240},
+																											pos: position{line: 1142, col: 12, offset: 35308},
 																											run: (*parser).callonDocumentHeader241,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1142, col: 12, offset: 35240},
+																												pos: position{line: 1142, col: 12, offset: 35308},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1142, col: 12, offset: 35240},
+																													pos:        position{line: 1142, col: 12, offset: 35308},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -17015,12 +17350,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1145, col: 5, offset: 35320},
+																										pos: position{line: 1145, col: 5, offset: 35388},
 																										expr: &actionExpr{
-																											pos: position{line: 2901, col: 10, offset: 91483},
+																											pos: position{line: 2902, col: 10, offset: 91633},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2901, col: 10, offset: 91483},
+																												pos:        position{line: 2902, col: 10, offset: 91633},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17029,17 +17364,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1146, col: 5, offset: 35331},
+																										pos:   position{line: 1146, col: 5, offset: 35399},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1146, col: 11, offset: 35337},
+																											pos: position{line: 1146, col: 11, offset: 35405},
 																											expr: &actionExpr{
-																												pos: position{line: 1146, col: 12, offset: 35338},
+																												pos: position{line: 1146, col: 12, offset: 35406},
 																												run: (*parser).callonDocumentHeader249,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1146, col: 12, offset: 35338},
+																													pos: position{line: 1146, col: 12, offset: 35406},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1146, col: 12, offset: 35338},
+																														pos:        position{line: 1146, col: 12, offset: 35406},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -17050,12 +17385,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1149, col: 5, offset: 35419},
+																										pos: position{line: 1149, col: 5, offset: 35487},
 																										expr: &actionExpr{
-																											pos: position{line: 2901, col: 10, offset: 91483},
+																											pos: position{line: 2902, col: 10, offset: 91633},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2901, col: 10, offset: 91483},
+																												pos:        position{line: 2902, col: 10, offset: 91633},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17064,17 +17399,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1150, col: 5, offset: 35430},
+																										pos:   position{line: 1150, col: 5, offset: 35498},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1150, col: 11, offset: 35436},
+																											pos: position{line: 1150, col: 11, offset: 35504},
 																											expr: &actionExpr{
-																												pos: position{line: 1150, col: 12, offset: 35437},
+																												pos: position{line: 1150, col: 12, offset: 35505},
 																												run: (*parser).callonDocumentHeader257,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1150, col: 12, offset: 35437},
+																													pos: position{line: 1150, col: 12, offset: 35505},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1150, col: 12, offset: 35437},
+																														pos:        position{line: 1150, col: 12, offset: 35505},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -17085,12 +17420,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1153, col: 5, offset: 35516},
+																										pos: position{line: 1153, col: 5, offset: 35584},
 																										expr: &actionExpr{
-																											pos: position{line: 2901, col: 10, offset: 91483},
+																											pos: position{line: 2902, col: 10, offset: 91633},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2901, col: 10, offset: 91483},
+																												pos:        position{line: 2902, col: 10, offset: 91633},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17104,38 +17439,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1131, col: 40, offset: 34879},
+																					pos:   position{line: 1131, col: 40, offset: 34947},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1131, col: 46, offset: 34885},
+																						pos: position{line: 1131, col: 46, offset: 34953},
 																						expr: &actionExpr{
-																							pos: position{line: 1159, col: 5, offset: 35638},
+																							pos: position{line: 1159, col: 5, offset: 35706},
 																							run: (*parser).callonDocumentHeader265,
 																							expr: &seqExpr{
-																								pos: position{line: 1159, col: 5, offset: 35638},
+																								pos: position{line: 1159, col: 5, offset: 35706},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2918, col: 11, offset: 91817},
+																										pos: position{line: 2919, col: 11, offset: 91967},
 																										expr: &anyMatcher{
-																											line: 2918, col: 13, offset: 91819,
+																											line: 2919, col: 13, offset: 91969,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1160, col: 5, offset: 35650},
+																										pos:        position{line: 1160, col: 5, offset: 35718},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1161, col: 5, offset: 35659},
+																										pos:   position{line: 1161, col: 5, offset: 35727},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1161, col: 12, offset: 35666},
+																											pos: position{line: 1161, col: 12, offset: 35734},
 																											run: (*parser).callonDocumentHeader271,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1161, col: 13, offset: 35667},
+																												pos: position{line: 1161, col: 13, offset: 35735},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1161, col: 13, offset: 35667},
+																													pos:        position{line: 1161, col: 13, offset: 35735},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -17145,7 +17480,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1164, col: 5, offset: 35727},
+																										pos:        position{line: 1164, col: 5, offset: 35795},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -17156,12 +17491,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1131, col: 69, offset: 34908},
+																					pos: position{line: 1131, col: 69, offset: 34976},
 																					expr: &actionExpr{
-																						pos: position{line: 2901, col: 10, offset: 91483},
+																						pos: position{line: 2902, col: 10, offset: 91633},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2901, col: 10, offset: 91483},
+																							pos:        position{line: 2902, col: 10, offset: 91633},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17170,21 +17505,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1131, col: 76, offset: 34915},
+																					pos: position{line: 1131, col: 76, offset: 34983},
 																					expr: &litMatcher{
-																						pos:        position{line: 1131, col: 76, offset: 34915},
+																						pos:        position{line: 1131, col: 76, offset: 34983},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1131, col: 81, offset: 34920},
+																					pos: position{line: 1131, col: 81, offset: 34988},
 																					expr: &actionExpr{
-																						pos: position{line: 2901, col: 10, offset: 91483},
+																						pos: position{line: 2902, col: 10, offset: 91633},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2901, col: 10, offset: 91483},
+																							pos:        position{line: 2902, col: 10, offset: 91633},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17193,7 +17528,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1132, col: 5, offset: 34932},
+																					pos: position{line: 1132, col: 5, offset: 35000},
 																					run: (*parser).callonDocumentHeader283,
 																				},
 																			},
@@ -17202,28 +17537,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2923, col: 8, offset: 91881},
+																pos: position{line: 2924, col: 8, offset: 92031},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2910, col: 12, offset: 91654},
+																		pos: position{line: 2911, col: 12, offset: 91804},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2910, col: 13, offset: 91655},
+																			pos: position{line: 2911, col: 13, offset: 91805},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2910, col: 13, offset: 91655},
+																					pos:        position{line: 2911, col: 13, offset: 91805},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2910, col: 20, offset: 91662},
+																					pos:        position{line: 2911, col: 20, offset: 91812},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2910, col: 29, offset: 91671},
+																					pos:        position{line: 2911, col: 29, offset: 91821},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17232,9 +17567,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2920, col: 8, offset: 91831},
+																		pos: position{line: 2921, col: 8, offset: 91981},
 																		expr: &anyMatcher{
-																			line: 2920, col: 9, offset: 91832,
+																			line: 2921, col: 9, offset: 91982,
 																		},
 																	},
 																},
@@ -17244,41 +17579,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1121, col: 5, offset: 34489},
+												pos: position{line: 1121, col: 5, offset: 34557},
 												expr: &choiceExpr{
-													pos: position{line: 1121, col: 6, offset: 34490},
+													pos: position{line: 1121, col: 6, offset: 34558},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2511, col: 22, offset: 80468},
+															pos: position{line: 2512, col: 22, offset: 80570},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2511, col: 22, offset: 80468},
+																pos: position{line: 2512, col: 22, offset: 80570},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2516, col: 31, offset: 80689},
+																		pos:        position{line: 2517, col: 31, offset: 80820},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2516, col: 36, offset: 80694},
+																		pos: position{line: 2517, col: 36, offset: 80825},
 																		expr: &litMatcher{
-																			pos:        position{line: 2516, col: 37, offset: 80695},
-																			val:        "//",
+																			pos:        position{line: 2517, col: 37, offset: 80826},
+																			val:        "/",
 																			ignoreCase: false,
-																			want:       "\"//\"",
+																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2511, col: 49, offset: 80495},
+																		pos:   position{line: 2512, col: 49, offset: 80597},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2847, col: 13, offset: 90009},
+																			pos: position{line: 2848, col: 13, offset: 90159},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2847, col: 13, offset: 90009},
+																				pos: position{line: 2848, col: 13, offset: 90159},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2847, col: 13, offset: 90009},
+																					pos:        position{line: 2848, col: 13, offset: 90159},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17288,28 +17623,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2923, col: 8, offset: 91881},
+																		pos: position{line: 2924, col: 8, offset: 92031},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2910, col: 12, offset: 91654},
+																				pos: position{line: 2911, col: 12, offset: 91804},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2910, col: 13, offset: 91655},
+																					pos: position{line: 2911, col: 13, offset: 91805},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 13, offset: 91655},
+																							pos:        position{line: 2911, col: 13, offset: 91805},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 20, offset: 91662},
+																							pos:        position{line: 2911, col: 20, offset: 91812},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 29, offset: 91671},
+																							pos:        position{line: 2911, col: 29, offset: 91821},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17318,9 +17653,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2920, col: 8, offset: 91831},
+																				pos: position{line: 2921, col: 8, offset: 91981},
 																				expr: &anyMatcher{
-																					line: 2920, col: 9, offset: 91832,
+																					line: 2921, col: 9, offset: 91982,
 																				},
 																			},
 																		},
@@ -17329,36 +17664,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 821, col: 5, offset: 26353},
+															pos: position{line: 821, col: 5, offset: 26421},
 															run: (*parser).callonDocumentHeader311,
 															expr: &seqExpr{
-																pos: position{line: 821, col: 5, offset: 26353},
+																pos: position{line: 821, col: 5, offset: 26421},
 																exprs: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 741, col: 5, offset: 23613},
+																		pos: position{line: 741, col: 5, offset: 23681},
 																		run: (*parser).callonDocumentHeader313,
 																		expr: &seqExpr{
-																			pos: position{line: 741, col: 5, offset: 23613},
+																			pos: position{line: 741, col: 5, offset: 23681},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 741, col: 5, offset: 23613},
+																					pos:   position{line: 741, col: 5, offset: 23681},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 741, col: 16, offset: 23624},
+																						pos: position{line: 741, col: 16, offset: 23692},
 																						run: (*parser).callonDocumentHeader316,
 																						expr: &seqExpr{
-																							pos: position{line: 741, col: 16, offset: 23624},
+																							pos: position{line: 741, col: 16, offset: 23692},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 741, col: 16, offset: 23624},
+																									pos:        position{line: 741, col: 16, offset: 23692},
 																									val:        "////",
 																									ignoreCase: false,
 																									want:       "\"////\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 741, col: 23, offset: 23631},
+																									pos: position{line: 741, col: 23, offset: 23699},
 																									expr: &litMatcher{
-																										pos:        position{line: 741, col: 23, offset: 23631},
+																										pos:        position{line: 741, col: 23, offset: 23699},
 																										val:        "/",
 																										ignoreCase: false,
 																										want:       "\"/\"",
@@ -17369,12 +17704,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 743, col: 8, offset: 23715},
+																					pos: position{line: 743, col: 8, offset: 23783},
 																					expr: &actionExpr{
-																						pos: position{line: 2901, col: 10, offset: 91483},
+																						pos: position{line: 2902, col: 10, offset: 91633},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2901, col: 10, offset: 91483},
+																							pos:        position{line: 2902, col: 10, offset: 91633},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17383,28 +17718,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2923, col: 8, offset: 91881},
+																					pos: position{line: 2924, col: 8, offset: 92031},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2910, col: 12, offset: 91654},
+																							pos: position{line: 2911, col: 12, offset: 91804},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2910, col: 13, offset: 91655},
+																								pos: position{line: 2911, col: 13, offset: 91805},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 13, offset: 91655},
+																										pos:        position{line: 2911, col: 13, offset: 91805},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 20, offset: 91662},
+																										pos:        position{line: 2911, col: 20, offset: 91812},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 29, offset: 91671},
+																										pos:        position{line: 2911, col: 29, offset: 91821},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17413,9 +17748,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2920, col: 8, offset: 91831},
+																							pos: position{line: 2921, col: 8, offset: 91981},
 																							expr: &anyMatcher{
-																								line: 2920, col: 9, offset: 91832,
+																								line: 2921, col: 9, offset: 91982,
 																							},
 																						},
 																					},
@@ -17424,46 +17759,46 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 822, col: 5, offset: 26384},
+																		pos:   position{line: 822, col: 5, offset: 26452},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 832, col: 5, offset: 26670},
+																			pos: position{line: 832, col: 5, offset: 26738},
 																			expr: &actionExpr{
-																				pos: position{line: 832, col: 6, offset: 26671},
+																				pos: position{line: 832, col: 6, offset: 26739},
 																				run: (*parser).callonDocumentHeader334,
 																				expr: &seqExpr{
-																					pos: position{line: 832, col: 6, offset: 26671},
+																					pos: position{line: 832, col: 6, offset: 26739},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 832, col: 6, offset: 26671},
+																							pos: position{line: 832, col: 6, offset: 26739},
 																							expr: &choiceExpr{
-																								pos: position{line: 829, col: 29, offset: 26613},
+																								pos: position{line: 829, col: 29, offset: 26681},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 741, col: 5, offset: 23613},
+																										pos: position{line: 741, col: 5, offset: 23681},
 																										run: (*parser).callonDocumentHeader338,
 																										expr: &seqExpr{
-																											pos: position{line: 741, col: 5, offset: 23613},
+																											pos: position{line: 741, col: 5, offset: 23681},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 741, col: 5, offset: 23613},
+																													pos:   position{line: 741, col: 5, offset: 23681},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 741, col: 16, offset: 23624},
+																														pos: position{line: 741, col: 16, offset: 23692},
 																														run: (*parser).callonDocumentHeader341,
 																														expr: &seqExpr{
-																															pos: position{line: 741, col: 16, offset: 23624},
+																															pos: position{line: 741, col: 16, offset: 23692},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 741, col: 16, offset: 23624},
+																																	pos:        position{line: 741, col: 16, offset: 23692},
 																																	val:        "////",
 																																	ignoreCase: false,
 																																	want:       "\"////\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 741, col: 23, offset: 23631},
+																																	pos: position{line: 741, col: 23, offset: 23699},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 741, col: 23, offset: 23631},
+																																		pos:        position{line: 741, col: 23, offset: 23699},
 																																		val:        "/",
 																																		ignoreCase: false,
 																																		want:       "\"/\"",
@@ -17474,12 +17809,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 743, col: 8, offset: 23715},
+																													pos: position{line: 743, col: 8, offset: 23783},
 																													expr: &actionExpr{
-																														pos: position{line: 2901, col: 10, offset: 91483},
+																														pos: position{line: 2902, col: 10, offset: 91633},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2901, col: 10, offset: 91483},
+																															pos:        position{line: 2902, col: 10, offset: 91633},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17488,28 +17823,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2923, col: 8, offset: 91881},
+																													pos: position{line: 2924, col: 8, offset: 92031},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2910, col: 12, offset: 91654},
+																															pos: position{line: 2911, col: 12, offset: 91804},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2910, col: 13, offset: 91655},
+																																pos: position{line: 2911, col: 13, offset: 91805},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2910, col: 13, offset: 91655},
+																																		pos:        position{line: 2911, col: 13, offset: 91805},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2910, col: 20, offset: 91662},
+																																		pos:        position{line: 2911, col: 20, offset: 91812},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2910, col: 29, offset: 91671},
+																																		pos:        position{line: 2911, col: 29, offset: 91821},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17518,9 +17853,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2920, col: 8, offset: 91831},
+																															pos: position{line: 2921, col: 8, offset: 91981},
 																															expr: &anyMatcher{
-																																line: 2920, col: 9, offset: 91832,
+																																line: 2921, col: 9, offset: 91982,
 																															},
 																														},
 																													},
@@ -17529,39 +17864,39 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2920, col: 8, offset: 91831},
+																										pos: position{line: 2921, col: 8, offset: 91981},
 																										expr: &anyMatcher{
-																											line: 2920, col: 9, offset: 91832,
+																											line: 2921, col: 9, offset: 91982,
 																										},
 																									},
 																								},
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 833, col: 5, offset: 26701},
+																							pos:   position{line: 833, col: 5, offset: 26769},
 																							label: "line",
 																							expr: &actionExpr{
-																								pos: position{line: 812, col: 5, offset: 26117},
+																								pos: position{line: 812, col: 5, offset: 26185},
 																								run: (*parser).callonDocumentHeader360,
 																								expr: &seqExpr{
-																									pos: position{line: 812, col: 5, offset: 26117},
+																									pos: position{line: 812, col: 5, offset: 26185},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2918, col: 11, offset: 91817},
+																											pos: position{line: 2919, col: 11, offset: 91967},
 																											expr: &anyMatcher{
-																												line: 2918, col: 13, offset: 91819,
+																												line: 2919, col: 13, offset: 91969,
 																											},
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 813, col: 5, offset: 26192},
+																											pos:   position{line: 813, col: 5, offset: 26260},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2847, col: 13, offset: 90009},
+																												pos: position{line: 2848, col: 13, offset: 90159},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2847, col: 13, offset: 90009},
+																													pos: position{line: 2848, col: 13, offset: 90159},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2847, col: 13, offset: 90009},
+																														pos:        position{line: 2848, col: 13, offset: 90159},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17571,28 +17906,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2923, col: 8, offset: 91881},
+																											pos: position{line: 2924, col: 8, offset: 92031},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2910, col: 12, offset: 91654},
+																													pos: position{line: 2911, col: 12, offset: 91804},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2910, col: 13, offset: 91655},
+																														pos: position{line: 2911, col: 13, offset: 91805},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 13, offset: 91655},
+																																pos:        position{line: 2911, col: 13, offset: 91805},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 20, offset: 91662},
+																																pos:        position{line: 2911, col: 20, offset: 91812},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 29, offset: 91671},
+																																pos:        position{line: 2911, col: 29, offset: 91821},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17601,9 +17936,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2920, col: 8, offset: 91831},
+																													pos: position{line: 2921, col: 8, offset: 91981},
 																													expr: &anyMatcher{
-																														line: 2920, col: 9, offset: 91832,
+																														line: 2921, col: 9, offset: 91982,
 																													},
 																												},
 																											},
@@ -17618,35 +17953,35 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrOneExpr{
-																		pos: position{line: 823, col: 5, offset: 26418},
+																		pos: position{line: 823, col: 5, offset: 26486},
 																		expr: &choiceExpr{
-																			pos: position{line: 829, col: 29, offset: 26613},
+																			pos: position{line: 829, col: 29, offset: 26681},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 741, col: 5, offset: 23613},
+																					pos: position{line: 741, col: 5, offset: 23681},
 																					run: (*parser).callonDocumentHeader378,
 																					expr: &seqExpr{
-																						pos: position{line: 741, col: 5, offset: 23613},
+																						pos: position{line: 741, col: 5, offset: 23681},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 741, col: 5, offset: 23613},
+																								pos:   position{line: 741, col: 5, offset: 23681},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 741, col: 16, offset: 23624},
+																									pos: position{line: 741, col: 16, offset: 23692},
 																									run: (*parser).callonDocumentHeader381,
 																									expr: &seqExpr{
-																										pos: position{line: 741, col: 16, offset: 23624},
+																										pos: position{line: 741, col: 16, offset: 23692},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 741, col: 16, offset: 23624},
+																												pos:        position{line: 741, col: 16, offset: 23692},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 741, col: 23, offset: 23631},
+																												pos: position{line: 741, col: 23, offset: 23699},
 																												expr: &litMatcher{
-																													pos:        position{line: 741, col: 23, offset: 23631},
+																													pos:        position{line: 741, col: 23, offset: 23699},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -17657,12 +17992,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 743, col: 8, offset: 23715},
+																								pos: position{line: 743, col: 8, offset: 23783},
 																								expr: &actionExpr{
-																									pos: position{line: 2901, col: 10, offset: 91483},
+																									pos: position{line: 2902, col: 10, offset: 91633},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2901, col: 10, offset: 91483},
+																										pos:        position{line: 2902, col: 10, offset: 91633},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17671,28 +18006,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2923, col: 8, offset: 91881},
+																								pos: position{line: 2924, col: 8, offset: 92031},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2910, col: 12, offset: 91654},
+																										pos: position{line: 2911, col: 12, offset: 91804},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2910, col: 13, offset: 91655},
+																											pos: position{line: 2911, col: 13, offset: 91805},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 13, offset: 91655},
+																													pos:        position{line: 2911, col: 13, offset: 91805},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 20, offset: 91662},
+																													pos:        position{line: 2911, col: 20, offset: 91812},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 29, offset: 91671},
+																													pos:        position{line: 2911, col: 29, offset: 91821},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17701,9 +18036,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2920, col: 8, offset: 91831},
+																										pos: position{line: 2921, col: 8, offset: 91981},
 																										expr: &anyMatcher{
-																											line: 2920, col: 9, offset: 91832,
+																											line: 2921, col: 9, offset: 91982,
 																										},
 																									},
 																								},
@@ -17712,9 +18047,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
@@ -17727,23 +18062,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1122, col: 5, offset: 34564},
+												pos:   position{line: 1122, col: 5, offset: 34632},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1122, col: 14, offset: 34573},
+													pos: position{line: 1122, col: 14, offset: 34641},
 													expr: &actionExpr{
-														pos: position{line: 1170, col: 21, offset: 35916},
+														pos: position{line: 1170, col: 21, offset: 35984},
 														run: (*parser).callonDocumentHeader401,
 														expr: &seqExpr{
-															pos: position{line: 1170, col: 21, offset: 35916},
+															pos: position{line: 1170, col: 21, offset: 35984},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1170, col: 21, offset: 35916},
+																	pos: position{line: 1170, col: 21, offset: 35984},
 																	expr: &actionExpr{
-																		pos: position{line: 2901, col: 10, offset: 91483},
+																		pos: position{line: 2902, col: 10, offset: 91633},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2901, col: 10, offset: 91483},
+																			pos:        position{line: 2902, col: 10, offset: 91633},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17752,55 +18087,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1170, col: 28, offset: 35923},
+																	pos: position{line: 1170, col: 28, offset: 35991},
 																	expr: &litMatcher{
-																		pos:        position{line: 1170, col: 29, offset: 35924},
+																		pos:        position{line: 1170, col: 29, offset: 35992},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1170, col: 33, offset: 35928},
+																	pos:   position{line: 1170, col: 33, offset: 35996},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1171, col: 9, offset: 35947},
+																		pos: position{line: 1171, col: 9, offset: 36015},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1171, col: 10, offset: 35948},
+																				pos: position{line: 1171, col: 10, offset: 36016},
 																				run: (*parser).callonDocumentHeader410,
 																				expr: &seqExpr{
-																					pos: position{line: 1171, col: 10, offset: 35948},
+																					pos: position{line: 1171, col: 10, offset: 36016},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1171, col: 10, offset: 35948},
+																							pos:   position{line: 1171, col: 10, offset: 36016},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1180, col: 27, offset: 36465},
+																								pos: position{line: 1180, col: 27, offset: 36533},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1180, col: 27, offset: 36465},
+																										pos: position{line: 1180, col: 27, offset: 36533},
 																										run: (*parser).callonDocumentHeader414,
 																										expr: &seqExpr{
-																											pos: position{line: 1180, col: 27, offset: 36465},
+																											pos: position{line: 1180, col: 27, offset: 36533},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1180, col: 27, offset: 36465},
+																													pos:        position{line: 1180, col: 27, offset: 36533},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1180, col: 32, offset: 36470},
+																													pos:        position{line: 1180, col: 32, offset: 36538},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1180, col: 38, offset: 36476},
+																													pos: position{line: 1180, col: 38, offset: 36544},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1180, col: 38, offset: 36476},
+																														pos:        position{line: 1180, col: 38, offset: 36544},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -17811,31 +18146,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1182, col: 5, offset: 36524},
+																										pos: position{line: 1182, col: 5, offset: 36592},
 																										run: (*parser).callonDocumentHeader420,
 																										expr: &seqExpr{
-																											pos: position{line: 1182, col: 5, offset: 36524},
+																											pos: position{line: 1182, col: 5, offset: 36592},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1182, col: 5, offset: 36524},
+																													pos: position{line: 1182, col: 5, offset: 36592},
 																													expr: &litMatcher{
-																														pos:        position{line: 1182, col: 5, offset: 36524},
+																														pos:        position{line: 1182, col: 5, offset: 36592},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1182, col: 11, offset: 36530},
+																													pos:        position{line: 1182, col: 11, offset: 36598},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1182, col: 17, offset: 36536},
+																													pos: position{line: 1182, col: 17, offset: 36604},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1182, col: 17, offset: 36536},
+																														pos:        position{line: 1182, col: 17, offset: 36604},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -17843,12 +18178,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1182, col: 28, offset: 36547},
+																													pos: position{line: 1182, col: 28, offset: 36615},
 																													expr: &actionExpr{
-																														pos: position{line: 2901, col: 10, offset: 91483},
+																														pos: position{line: 2902, col: 10, offset: 91633},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2901, col: 10, offset: 91483},
+																															pos:        position{line: 2902, col: 10, offset: 91633},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17857,9 +18192,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1182, col: 35, offset: 36554},
+																													pos: position{line: 1182, col: 35, offset: 36622},
 																													expr: &litMatcher{
-																														pos:        position{line: 1182, col: 36, offset: 36555},
+																														pos:        position{line: 1182, col: 36, offset: 36623},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -17872,26 +18207,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1171, col: 45, offset: 35983},
+																							pos: position{line: 1171, col: 45, offset: 36051},
 																							expr: &litMatcher{
-																								pos:        position{line: 1171, col: 45, offset: 35983},
+																								pos:        position{line: 1171, col: 45, offset: 36051},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1171, col: 50, offset: 35988},
+																							pos:   position{line: 1171, col: 50, offset: 36056},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1171, col: 58, offset: 35996},
+																								pos: position{line: 1171, col: 58, offset: 36064},
 																								expr: &actionExpr{
-																									pos: position{line: 1186, col: 25, offset: 36619},
+																									pos: position{line: 1186, col: 25, offset: 36687},
 																									run: (*parser).callonDocumentHeader436,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1186, col: 25, offset: 36619},
+																										pos: position{line: 1186, col: 25, offset: 36687},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1186, col: 25, offset: 36619},
+																											pos:        position{line: 1186, col: 25, offset: 36687},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -17902,26 +18237,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1171, col: 82, offset: 36020},
+																							pos: position{line: 1171, col: 82, offset: 36088},
 																							expr: &litMatcher{
-																								pos:        position{line: 1171, col: 82, offset: 36020},
+																								pos:        position{line: 1171, col: 82, offset: 36088},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1171, col: 87, offset: 36025},
+																							pos:   position{line: 1171, col: 87, offset: 36093},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1171, col: 97, offset: 36035},
+																								pos: position{line: 1171, col: 97, offset: 36103},
 																								expr: &actionExpr{
-																									pos: position{line: 1190, col: 27, offset: 36691},
+																									pos: position{line: 1190, col: 27, offset: 36759},
 																									run: (*parser).callonDocumentHeader443,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1190, col: 27, offset: 36691},
+																										pos: position{line: 1190, col: 27, offset: 36759},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1190, col: 27, offset: 36691},
+																											pos:        position{line: 1190, col: 27, offset: 36759},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -17935,21 +18270,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1173, col: 15, offset: 36153},
+																				pos: position{line: 1173, col: 15, offset: 36221},
 																				run: (*parser).callonDocumentHeader446,
 																				expr: &seqExpr{
-																					pos: position{line: 1173, col: 15, offset: 36153},
+																					pos: position{line: 1173, col: 15, offset: 36221},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1173, col: 15, offset: 36153},
+																							pos:   position{line: 1173, col: 15, offset: 36221},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1186, col: 25, offset: 36619},
+																								pos: position{line: 1186, col: 25, offset: 36687},
 																								run: (*parser).callonDocumentHeader449,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1186, col: 25, offset: 36619},
+																									pos: position{line: 1186, col: 25, offset: 36687},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1186, col: 25, offset: 36619},
+																										pos:        position{line: 1186, col: 25, offset: 36687},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -17959,26 +18294,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1173, col: 46, offset: 36184},
+																							pos: position{line: 1173, col: 46, offset: 36252},
 																							expr: &litMatcher{
-																								pos:        position{line: 1173, col: 46, offset: 36184},
+																								pos:        position{line: 1173, col: 46, offset: 36252},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1173, col: 51, offset: 36189},
+																							pos:   position{line: 1173, col: 51, offset: 36257},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1173, col: 61, offset: 36199},
+																								pos: position{line: 1173, col: 61, offset: 36267},
 																								expr: &actionExpr{
-																									pos: position{line: 1190, col: 27, offset: 36691},
+																									pos: position{line: 1190, col: 27, offset: 36759},
 																									run: (*parser).callonDocumentHeader456,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1190, col: 27, offset: 36691},
+																										pos: position{line: 1190, col: 27, offset: 36759},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1190, col: 27, offset: 36691},
+																											pos:        position{line: 1190, col: 27, offset: 36759},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -17995,28 +18330,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2923, col: 8, offset: 91881},
+																	pos: position{line: 2924, col: 8, offset: 92031},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2910, col: 12, offset: 91654},
+																			pos: position{line: 2911, col: 12, offset: 91804},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2910, col: 13, offset: 91655},
+																				pos: position{line: 2911, col: 13, offset: 91805},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91655},
+																						pos:        position{line: 2911, col: 13, offset: 91805},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 20, offset: 91662},
+																						pos:        position{line: 2911, col: 20, offset: 91812},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 29, offset: 91671},
+																						pos:        position{line: 2911, col: 29, offset: 91821},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18025,9 +18360,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2920, col: 8, offset: 91831},
+																			pos: position{line: 2921, col: 8, offset: 91981},
 																			expr: &anyMatcher{
-																				line: 2920, col: 9, offset: 91832,
+																				line: 2921, col: 9, offset: 91982,
 																			},
 																		},
 																	},
@@ -18043,15 +18378,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1109, col: 5, offset: 34110},
+							pos:   position{line: 1109, col: 5, offset: 34178},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1109, col: 19, offset: 34124},
+								pos: position{line: 1109, col: 19, offset: 34192},
 								expr: &choiceExpr{
-									pos: position{line: 1109, col: 20, offset: 34125},
+									pos: position{line: 1109, col: 20, offset: 34193},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1109, col: 20, offset: 34125},
+											pos:  position{line: 1109, col: 20, offset: 34193},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
@@ -18107,10 +18442,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2901, col: 10, offset: 91483},
+															pos: position{line: 2902, col: 10, offset: 91633},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2901, col: 10, offset: 91483},
+																pos:        position{line: 2902, col: 10, offset: 91633},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18119,28 +18454,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2923, col: 8, offset: 91881},
+														pos: position{line: 2924, col: 8, offset: 92031},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2910, col: 12, offset: 91654},
+																pos: position{line: 2911, col: 12, offset: 91804},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2910, col: 13, offset: 91655},
+																	pos: position{line: 2911, col: 13, offset: 91805},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 13, offset: 91655},
+																			pos:        position{line: 2911, col: 13, offset: 91805},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 20, offset: 91662},
+																			pos:        position{line: 2911, col: 20, offset: 91812},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 29, offset: 91671},
+																			pos:        position{line: 2911, col: 29, offset: 91821},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18149,9 +18484,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2920, col: 8, offset: 91831},
+																pos: position{line: 2921, col: 8, offset: 91981},
 																expr: &anyMatcher{
-																	line: 2920, col: 9, offset: 91832,
+																	line: 2921, col: 9, offset: 91982,
 																},
 															},
 														},
@@ -18212,10 +18547,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2901, col: 10, offset: 91483},
+															pos: position{line: 2902, col: 10, offset: 91633},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2901, col: 10, offset: 91483},
+																pos:        position{line: 2902, col: 10, offset: 91633},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18224,28 +18559,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2923, col: 8, offset: 91881},
+														pos: position{line: 2924, col: 8, offset: 92031},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2910, col: 12, offset: 91654},
+																pos: position{line: 2911, col: 12, offset: 91804},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2910, col: 13, offset: 91655},
+																	pos: position{line: 2911, col: 13, offset: 91805},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 13, offset: 91655},
+																			pos:        position{line: 2911, col: 13, offset: 91805},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 20, offset: 91662},
+																			pos:        position{line: 2911, col: 20, offset: 91812},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 29, offset: 91671},
+																			pos:        position{line: 2911, col: 29, offset: 91821},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18254,9 +18589,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2920, col: 8, offset: 91831},
+																pos: position{line: 2921, col: 8, offset: 91981},
 																expr: &anyMatcher{
-																	line: 2920, col: 9, offset: 91832,
+																	line: 2921, col: 9, offset: 91982,
 																},
 															},
 														},
@@ -18265,36 +18600,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2511, col: 22, offset: 80468},
+											pos: position{line: 2512, col: 22, offset: 80570},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2511, col: 22, offset: 80468},
+												pos: position{line: 2512, col: 22, offset: 80570},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2516, col: 31, offset: 80689},
+														pos:        position{line: 2517, col: 31, offset: 80820},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2516, col: 36, offset: 80694},
+														pos: position{line: 2517, col: 36, offset: 80825},
 														expr: &litMatcher{
-															pos:        position{line: 2516, col: 37, offset: 80695},
-															val:        "//",
+															pos:        position{line: 2517, col: 37, offset: 80826},
+															val:        "/",
 															ignoreCase: false,
-															want:       "\"//\"",
+															want:       "\"/\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2511, col: 49, offset: 80495},
+														pos:   position{line: 2512, col: 49, offset: 80597},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2847, col: 13, offset: 90009},
+															pos: position{line: 2848, col: 13, offset: 90159},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2847, col: 13, offset: 90009},
+																pos: position{line: 2848, col: 13, offset: 90159},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2847, col: 13, offset: 90009},
+																	pos:        position{line: 2848, col: 13, offset: 90159},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18304,28 +18639,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2923, col: 8, offset: 91881},
+														pos: position{line: 2924, col: 8, offset: 92031},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2910, col: 12, offset: 91654},
+																pos: position{line: 2911, col: 12, offset: 91804},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2910, col: 13, offset: 91655},
+																	pos: position{line: 2911, col: 13, offset: 91805},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 13, offset: 91655},
+																			pos:        position{line: 2911, col: 13, offset: 91805},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 20, offset: 91662},
+																			pos:        position{line: 2911, col: 20, offset: 91812},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 29, offset: 91671},
+																			pos:        position{line: 2911, col: 29, offset: 91821},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18334,9 +18669,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2920, col: 8, offset: 91831},
+																pos: position{line: 2921, col: 8, offset: 91981},
 																expr: &anyMatcher{
-																	line: 2920, col: 9, offset: 91832,
+																	line: 2921, col: 9, offset: 91982,
 																},
 															},
 														},
@@ -18345,36 +18680,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 821, col: 5, offset: 26353},
+											pos: position{line: 821, col: 5, offset: 26421},
 											run: (*parser).callonDocumentHeader530,
 											expr: &seqExpr{
-												pos: position{line: 821, col: 5, offset: 26353},
+												pos: position{line: 821, col: 5, offset: 26421},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 741, col: 5, offset: 23613},
+														pos: position{line: 741, col: 5, offset: 23681},
 														run: (*parser).callonDocumentHeader532,
 														expr: &seqExpr{
-															pos: position{line: 741, col: 5, offset: 23613},
+															pos: position{line: 741, col: 5, offset: 23681},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 741, col: 5, offset: 23613},
+																	pos:   position{line: 741, col: 5, offset: 23681},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 741, col: 16, offset: 23624},
+																		pos: position{line: 741, col: 16, offset: 23692},
 																		run: (*parser).callonDocumentHeader535,
 																		expr: &seqExpr{
-																			pos: position{line: 741, col: 16, offset: 23624},
+																			pos: position{line: 741, col: 16, offset: 23692},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 741, col: 16, offset: 23624},
+																					pos:        position{line: 741, col: 16, offset: 23692},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 741, col: 23, offset: 23631},
+																					pos: position{line: 741, col: 23, offset: 23699},
 																					expr: &litMatcher{
-																						pos:        position{line: 741, col: 23, offset: 23631},
+																						pos:        position{line: 741, col: 23, offset: 23699},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -18385,12 +18720,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 743, col: 8, offset: 23715},
+																	pos: position{line: 743, col: 8, offset: 23783},
 																	expr: &actionExpr{
-																		pos: position{line: 2901, col: 10, offset: 91483},
+																		pos: position{line: 2902, col: 10, offset: 91633},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2901, col: 10, offset: 91483},
+																			pos:        position{line: 2902, col: 10, offset: 91633},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18399,28 +18734,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2923, col: 8, offset: 91881},
+																	pos: position{line: 2924, col: 8, offset: 92031},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2910, col: 12, offset: 91654},
+																			pos: position{line: 2911, col: 12, offset: 91804},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2910, col: 13, offset: 91655},
+																				pos: position{line: 2911, col: 13, offset: 91805},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91655},
+																						pos:        position{line: 2911, col: 13, offset: 91805},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 20, offset: 91662},
+																						pos:        position{line: 2911, col: 20, offset: 91812},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 29, offset: 91671},
+																						pos:        position{line: 2911, col: 29, offset: 91821},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18429,9 +18764,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2920, col: 8, offset: 91831},
+																			pos: position{line: 2921, col: 8, offset: 91981},
 																			expr: &anyMatcher{
-																				line: 2920, col: 9, offset: 91832,
+																				line: 2921, col: 9, offset: 91982,
 																			},
 																		},
 																	},
@@ -18440,46 +18775,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 822, col: 5, offset: 26384},
+														pos:   position{line: 822, col: 5, offset: 26452},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 832, col: 5, offset: 26670},
+															pos: position{line: 832, col: 5, offset: 26738},
 															expr: &actionExpr{
-																pos: position{line: 832, col: 6, offset: 26671},
+																pos: position{line: 832, col: 6, offset: 26739},
 																run: (*parser).callonDocumentHeader553,
 																expr: &seqExpr{
-																	pos: position{line: 832, col: 6, offset: 26671},
+																	pos: position{line: 832, col: 6, offset: 26739},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 832, col: 6, offset: 26671},
+																			pos: position{line: 832, col: 6, offset: 26739},
 																			expr: &choiceExpr{
-																				pos: position{line: 829, col: 29, offset: 26613},
+																				pos: position{line: 829, col: 29, offset: 26681},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 741, col: 5, offset: 23613},
+																						pos: position{line: 741, col: 5, offset: 23681},
 																						run: (*parser).callonDocumentHeader557,
 																						expr: &seqExpr{
-																							pos: position{line: 741, col: 5, offset: 23613},
+																							pos: position{line: 741, col: 5, offset: 23681},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 741, col: 5, offset: 23613},
+																									pos:   position{line: 741, col: 5, offset: 23681},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 741, col: 16, offset: 23624},
+																										pos: position{line: 741, col: 16, offset: 23692},
 																										run: (*parser).callonDocumentHeader560,
 																										expr: &seqExpr{
-																											pos: position{line: 741, col: 16, offset: 23624},
+																											pos: position{line: 741, col: 16, offset: 23692},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 741, col: 16, offset: 23624},
+																													pos:        position{line: 741, col: 16, offset: 23692},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 741, col: 23, offset: 23631},
+																													pos: position{line: 741, col: 23, offset: 23699},
 																													expr: &litMatcher{
-																														pos:        position{line: 741, col: 23, offset: 23631},
+																														pos:        position{line: 741, col: 23, offset: 23699},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -18490,12 +18825,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 743, col: 8, offset: 23715},
+																									pos: position{line: 743, col: 8, offset: 23783},
 																									expr: &actionExpr{
-																										pos: position{line: 2901, col: 10, offset: 91483},
+																										pos: position{line: 2902, col: 10, offset: 91633},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2901, col: 10, offset: 91483},
+																											pos:        position{line: 2902, col: 10, offset: 91633},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18504,28 +18839,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2923, col: 8, offset: 91881},
+																									pos: position{line: 2924, col: 8, offset: 92031},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2910, col: 12, offset: 91654},
+																											pos: position{line: 2911, col: 12, offset: 91804},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2910, col: 13, offset: 91655},
+																												pos: position{line: 2911, col: 13, offset: 91805},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 13, offset: 91655},
+																														pos:        position{line: 2911, col: 13, offset: 91805},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 20, offset: 91662},
+																														pos:        position{line: 2911, col: 20, offset: 91812},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 29, offset: 91671},
+																														pos:        position{line: 2911, col: 29, offset: 91821},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18534,9 +18869,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2920, col: 8, offset: 91831},
+																											pos: position{line: 2921, col: 8, offset: 91981},
 																											expr: &anyMatcher{
-																												line: 2920, col: 9, offset: 91832,
+																												line: 2921, col: 9, offset: 91982,
 																											},
 																										},
 																									},
@@ -18545,39 +18880,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2920, col: 8, offset: 91831},
+																						pos: position{line: 2921, col: 8, offset: 91981},
 																						expr: &anyMatcher{
-																							line: 2920, col: 9, offset: 91832,
+																							line: 2921, col: 9, offset: 91982,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 833, col: 5, offset: 26701},
+																			pos:   position{line: 833, col: 5, offset: 26769},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26117},
+																				pos: position{line: 812, col: 5, offset: 26185},
 																				run: (*parser).callonDocumentHeader579,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26117},
+																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2918, col: 11, offset: 91817},
+																							pos: position{line: 2919, col: 11, offset: 91967},
 																							expr: &anyMatcher{
-																								line: 2918, col: 13, offset: 91819,
+																								line: 2919, col: 13, offset: 91969,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26192},
+																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2847, col: 13, offset: 90009},
+																								pos: position{line: 2848, col: 13, offset: 90159},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2847, col: 13, offset: 90009},
+																									pos: position{line: 2848, col: 13, offset: 90159},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2847, col: 13, offset: 90009},
+																										pos:        position{line: 2848, col: 13, offset: 90159},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18587,28 +18922,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18617,9 +18952,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -18634,35 +18969,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 823, col: 5, offset: 26418},
+														pos: position{line: 823, col: 5, offset: 26486},
 														expr: &choiceExpr{
-															pos: position{line: 829, col: 29, offset: 26613},
+															pos: position{line: 829, col: 29, offset: 26681},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 741, col: 5, offset: 23613},
+																	pos: position{line: 741, col: 5, offset: 23681},
 																	run: (*parser).callonDocumentHeader597,
 																	expr: &seqExpr{
-																		pos: position{line: 741, col: 5, offset: 23613},
+																		pos: position{line: 741, col: 5, offset: 23681},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 741, col: 5, offset: 23613},
+																				pos:   position{line: 741, col: 5, offset: 23681},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 741, col: 16, offset: 23624},
+																					pos: position{line: 741, col: 16, offset: 23692},
 																					run: (*parser).callonDocumentHeader600,
 																					expr: &seqExpr{
-																						pos: position{line: 741, col: 16, offset: 23624},
+																						pos: position{line: 741, col: 16, offset: 23692},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 741, col: 16, offset: 23624},
+																								pos:        position{line: 741, col: 16, offset: 23692},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 741, col: 23, offset: 23631},
+																								pos: position{line: 741, col: 23, offset: 23699},
 																								expr: &litMatcher{
-																									pos:        position{line: 741, col: 23, offset: 23631},
+																									pos:        position{line: 741, col: 23, offset: 23699},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -18673,12 +19008,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 743, col: 8, offset: 23715},
+																				pos: position{line: 743, col: 8, offset: 23783},
 																				expr: &actionExpr{
-																					pos: position{line: 2901, col: 10, offset: 91483},
+																					pos: position{line: 2902, col: 10, offset: 91633},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2901, col: 10, offset: 91483},
+																						pos:        position{line: 2902, col: 10, offset: 91633},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -18687,28 +19022,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2923, col: 8, offset: 91881},
+																				pos: position{line: 2924, col: 8, offset: 92031},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2910, col: 12, offset: 91654},
+																						pos: position{line: 2911, col: 12, offset: 91804},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2910, col: 13, offset: 91655},
+																							pos: position{line: 2911, col: 13, offset: 91805},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2910, col: 13, offset: 91655},
+																									pos:        position{line: 2911, col: 13, offset: 91805},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2910, col: 20, offset: 91662},
+																									pos:        position{line: 2911, col: 20, offset: 91812},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2910, col: 29, offset: 91671},
+																									pos:        position{line: 2911, col: 29, offset: 91821},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -18717,9 +19052,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2920, col: 8, offset: 91831},
+																						pos: position{line: 2921, col: 8, offset: 91981},
 																						expr: &anyMatcher{
-																							line: 2920, col: 9, offset: 91832,
+																							line: 2921, col: 9, offset: 91982,
 																						},
 																					},
 																				},
@@ -18728,9 +19063,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2920, col: 8, offset: 91831},
+																	pos: position{line: 2921, col: 8, offset: 91981},
 																	expr: &anyMatcher{
-																		line: 2920, col: 9, offset: 91832,
+																		line: 2921, col: 9, offset: 91982,
 																	},
 																},
 															},
@@ -18749,26 +19084,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1113, col: 1, offset: 34322},
+			pos:  position{line: 1113, col: 1, offset: 34390},
 			expr: &actionExpr{
-				pos: position{line: 1114, col: 5, offset: 34344},
+				pos: position{line: 1114, col: 5, offset: 34412},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1114, col: 5, offset: 34344},
+					pos: position{line: 1114, col: 5, offset: 34412},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1114, col: 5, offset: 34344},
+							pos:        position{line: 1114, col: 5, offset: 34412},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2905, col: 11, offset: 91544},
+							pos: position{line: 2906, col: 11, offset: 91694},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2905, col: 11, offset: 91544},
+								pos: position{line: 2906, col: 11, offset: 91694},
 								expr: &charClassMatcher{
-									pos:        position{line: 2905, col: 11, offset: 91544},
+									pos:        position{line: 2906, col: 11, offset: 91694},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18777,36 +19112,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1114, col: 16, offset: 34355},
+							pos:   position{line: 1114, col: 16, offset: 34423},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1114, col: 23, offset: 34362},
+								pos:  position{line: 1114, col: 23, offset: 34430},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2923, col: 8, offset: 91881},
+							pos: position{line: 2924, col: 8, offset: 92031},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2910, col: 12, offset: 91654},
+									pos: position{line: 2911, col: 12, offset: 91804},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2910, col: 13, offset: 91655},
+										pos: position{line: 2911, col: 13, offset: 91805},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2910, col: 13, offset: 91655},
+												pos:        position{line: 2911, col: 13, offset: 91805},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2910, col: 20, offset: 91662},
+												pos:        position{line: 2911, col: 20, offset: 91812},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2910, col: 29, offset: 91671},
+												pos:        position{line: 2911, col: 29, offset: 91821},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -18815,9 +19150,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2920, col: 8, offset: 91831},
+									pos: position{line: 2921, col: 8, offset: 91981},
 									expr: &anyMatcher{
-										line: 2920, col: 9, offset: 91832,
+										line: 2921, col: 9, offset: 91982,
 									},
 								},
 							},
@@ -18828,23 +19163,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1141, col: 1, offset: 35202},
+			pos:  position{line: 1141, col: 1, offset: 35270},
 			expr: &actionExpr{
-				pos: position{line: 1142, col: 5, offset: 35233},
+				pos: position{line: 1142, col: 5, offset: 35301},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1142, col: 5, offset: 35233},
+					pos: position{line: 1142, col: 5, offset: 35301},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1142, col: 5, offset: 35233},
+							pos:   position{line: 1142, col: 5, offset: 35301},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1142, col: 12, offset: 35240},
+								pos: position{line: 1142, col: 12, offset: 35308},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1142, col: 12, offset: 35240},
+									pos: position{line: 1142, col: 12, offset: 35308},
 									expr: &charClassMatcher{
-										pos:        position{line: 1142, col: 12, offset: 35240},
+										pos:        position{line: 1142, col: 12, offset: 35308},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -18854,12 +19189,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1145, col: 5, offset: 35320},
+							pos: position{line: 1145, col: 5, offset: 35388},
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 10, offset: 91483},
+								pos: position{line: 2902, col: 10, offset: 91633},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2901, col: 10, offset: 91483},
+									pos:        position{line: 2902, col: 10, offset: 91633},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18868,17 +19203,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1146, col: 5, offset: 35331},
+							pos:   position{line: 1146, col: 5, offset: 35399},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1146, col: 11, offset: 35337},
+								pos: position{line: 1146, col: 11, offset: 35405},
 								expr: &actionExpr{
-									pos: position{line: 1146, col: 12, offset: 35338},
+									pos: position{line: 1146, col: 12, offset: 35406},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1146, col: 12, offset: 35338},
+										pos: position{line: 1146, col: 12, offset: 35406},
 										expr: &charClassMatcher{
-											pos:        position{line: 1146, col: 12, offset: 35338},
+											pos:        position{line: 1146, col: 12, offset: 35406},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -18889,12 +19224,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1149, col: 5, offset: 35419},
+							pos: position{line: 1149, col: 5, offset: 35487},
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 10, offset: 91483},
+								pos: position{line: 2902, col: 10, offset: 91633},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2901, col: 10, offset: 91483},
+									pos:        position{line: 2902, col: 10, offset: 91633},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18903,17 +19238,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1150, col: 5, offset: 35430},
+							pos:   position{line: 1150, col: 5, offset: 35498},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1150, col: 11, offset: 35436},
+								pos: position{line: 1150, col: 11, offset: 35504},
 								expr: &actionExpr{
-									pos: position{line: 1150, col: 12, offset: 35437},
+									pos: position{line: 1150, col: 12, offset: 35505},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1150, col: 12, offset: 35437},
+										pos: position{line: 1150, col: 12, offset: 35505},
 										expr: &charClassMatcher{
-											pos:        position{line: 1150, col: 12, offset: 35437},
+											pos:        position{line: 1150, col: 12, offset: 35505},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -18924,12 +19259,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1153, col: 5, offset: 35516},
+							pos: position{line: 1153, col: 5, offset: 35584},
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 10, offset: 91483},
+								pos: position{line: 2902, col: 10, offset: 91633},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2901, col: 10, offset: 91483},
+									pos:        position{line: 2902, col: 10, offset: 91633},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18943,28 +19278,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1266, col: 1, offset: 39245},
+			pos:  position{line: 1266, col: 1, offset: 39313},
 			expr: &actionExpr{
-				pos: position{line: 1267, col: 5, offset: 39266},
+				pos: position{line: 1267, col: 5, offset: 39334},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1267, col: 5, offset: 39266},
+					pos: position{line: 1267, col: 5, offset: 39334},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1267, col: 5, offset: 39266},
+							pos: position{line: 1267, col: 5, offset: 39334},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1270, col: 5, offset: 39325},
+							pos:        position{line: 1270, col: 5, offset: 39393},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1270, col: 12, offset: 39332},
+							pos:   position{line: 1270, col: 12, offset: 39400},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1270, col: 24, offset: 39344},
+								pos:  position{line: 1270, col: 24, offset: 39412},
 								name: "InlineAttributes",
 							},
 						},
@@ -18974,33 +19309,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1277, col: 1, offset: 39632},
+			pos:  position{line: 1277, col: 1, offset: 39700},
 			expr: &actionExpr{
-				pos: position{line: 1278, col: 5, offset: 39651},
+				pos: position{line: 1278, col: 5, offset: 39719},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1278, col: 5, offset: 39651},
+					pos: position{line: 1278, col: 5, offset: 39719},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1278, col: 5, offset: 39651},
+							pos: position{line: 1278, col: 5, offset: 39719},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1281, col: 5, offset: 39710},
+							pos:        position{line: 1281, col: 5, offset: 39778},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1281, col: 13, offset: 39718},
+							pos:   position{line: 1281, col: 13, offset: 39786},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 7, offset: 91135},
+								pos: position{line: 2887, col: 7, offset: 91285},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2886, col: 7, offset: 91135},
+									pos: position{line: 2887, col: 7, offset: 91285},
 									expr: &charClassMatcher{
-										pos:        position{line: 2886, col: 7, offset: 91135},
+										pos:        position{line: 2887, col: 7, offset: 91285},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19010,10 +19345,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1281, col: 21, offset: 39726},
+							pos:   position{line: 1281, col: 21, offset: 39794},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1281, col: 33, offset: 39738},
+								pos:  position{line: 1281, col: 33, offset: 39806},
 								name: "InlineAttributes",
 							},
 						},
@@ -19023,29 +19358,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1288, col: 1, offset: 40037},
+			pos:  position{line: 1288, col: 1, offset: 40105},
 			expr: &actionExpr{
-				pos: position{line: 1288, col: 14, offset: 40050},
+				pos: position{line: 1288, col: 14, offset: 40118},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1288, col: 14, offset: 40050},
+					pos: position{line: 1288, col: 14, offset: 40118},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1288, col: 14, offset: 40050},
+							pos:        position{line: 1288, col: 14, offset: 40118},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1288, col: 19, offset: 40055},
+							pos:   position{line: 1288, col: 19, offset: 40123},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1288, col: 25, offset: 40061},
+								pos:  position{line: 1288, col: 25, offset: 40129},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1288, col: 43, offset: 40079},
+							pos:        position{line: 1288, col: 43, offset: 40147},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19056,25 +19391,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1292, col: 1, offset: 40148},
+			pos:  position{line: 1292, col: 1, offset: 40216},
 			expr: &actionExpr{
-				pos: position{line: 1292, col: 21, offset: 40168},
+				pos: position{line: 1292, col: 21, offset: 40236},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1292, col: 21, offset: 40168},
+					pos:   position{line: 1292, col: 21, offset: 40236},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1292, col: 30, offset: 40177},
+						pos: position{line: 1292, col: 30, offset: 40245},
 						expr: &choiceExpr{
-							pos: position{line: 1292, col: 31, offset: 40178},
+							pos: position{line: 1292, col: 31, offset: 40246},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2795, col: 14, offset: 88652},
+									pos: position{line: 2796, col: 14, offset: 88802},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2795, col: 14, offset: 88652},
+										pos: position{line: 2796, col: 14, offset: 88802},
 										expr: &charClassMatcher{
-											pos:        position{line: 2795, col: 14, offset: 88652},
+											pos:        position{line: 2796, col: 14, offset: 88802},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19083,14 +19418,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1292, col: 43, offset: 40190},
+									pos:  position{line: 1292, col: 43, offset: 40258},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2901, col: 10, offset: 91483},
+									pos: position{line: 2902, col: 10, offset: 91633},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2901, col: 10, offset: 91483},
+										pos:        position{line: 2902, col: 10, offset: 91633},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19098,23 +19433,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2498, col: 5, offset: 80014},
+									pos: position{line: 2499, col: 5, offset: 80116},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2498, col: 5, offset: 80014},
+										pos: position{line: 2499, col: 5, offset: 80116},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2498, col: 5, offset: 80014},
+												pos: position{line: 2499, col: 5, offset: 80116},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2501, col: 5, offset: 80090},
+												pos:   position{line: 2502, col: 5, offset: 80192},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2502, col: 9, offset: 80108},
+													pos: position{line: 2503, col: 9, offset: 80210},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2502, col: 10, offset: 80109},
+														pos:        position{line: 2503, col: 10, offset: 80211},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19126,27 +19461,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1199, col: 23, offset: 37001},
+									pos: position{line: 1199, col: 23, offset: 37069},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1199, col: 23, offset: 37001},
+										pos: position{line: 1199, col: 23, offset: 37069},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1197, col: 32, offset: 36969},
+												pos:        position{line: 1197, col: 32, offset: 37037},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1199, col: 51, offset: 37029},
+												pos:   position{line: 1199, col: 51, offset: 37097},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1199, col: 56, offset: 37034},
+													pos: position{line: 1199, col: 56, offset: 37102},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1199, col: 56, offset: 37034},
+														pos: position{line: 1199, col: 56, offset: 37102},
 														expr: &charClassMatcher{
-															pos:        position{line: 1199, col: 56, offset: 37034},
+															pos:        position{line: 1199, col: 56, offset: 37102},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -19156,7 +19491,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1197, col: 32, offset: 36969},
+												pos:        position{line: 1197, col: 32, offset: 37037},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
@@ -19165,22 +19500,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1292, col: 104, offset: 40251},
+									pos: position{line: 1292, col: 104, offset: 40319},
 									run: (*parser).callonIndexTermContent25,
 									expr: &seqExpr{
-										pos: position{line: 1292, col: 105, offset: 40252},
+										pos: position{line: 1292, col: 105, offset: 40320},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1292, col: 105, offset: 40252},
+												pos: position{line: 1292, col: 105, offset: 40320},
 												expr: &litMatcher{
-													pos:        position{line: 1292, col: 106, offset: 40253},
+													pos:        position{line: 1292, col: 106, offset: 40321},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1292, col: 111, offset: 40258,
+												line: 1292, col: 111, offset: 40326,
 											},
 										},
 									},
@@ -19193,65 +19528,65 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1312, col: 1, offset: 40967},
+			pos:  position{line: 1312, col: 1, offset: 41035},
 			expr: &actionExpr{
-				pos: position{line: 1313, col: 5, offset: 40986},
+				pos: position{line: 1313, col: 5, offset: 41054},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1313, col: 5, offset: 40986},
+					pos: position{line: 1313, col: 5, offset: 41054},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1313, col: 5, offset: 40986},
+							pos:        position{line: 1313, col: 5, offset: 41054},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1313, col: 15, offset: 40996},
+							pos:   position{line: 1313, col: 15, offset: 41064},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2859, col: 13, offset: 90242},
+								pos: position{line: 2860, col: 13, offset: 90392},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2859, col: 13, offset: 90242},
+									pos: position{line: 2860, col: 13, offset: 90392},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2859, col: 13, offset: 90242},
+											pos:   position{line: 2860, col: 13, offset: 90392},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2859, col: 20, offset: 90249},
+												pos: position{line: 2860, col: 20, offset: 90399},
 												expr: &actionExpr{
-													pos: position{line: 2867, col: 11, offset: 90488},
+													pos: position{line: 2868, col: 11, offset: 90638},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2867, col: 12, offset: 90489},
+														pos: position{line: 2868, col: 12, offset: 90639},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2867, col: 12, offset: 90489},
+																pos:        position{line: 2868, col: 12, offset: 90639},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2867, col: 24, offset: 90501},
+																pos:        position{line: 2868, col: 24, offset: 90651},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2867, col: 37, offset: 90514},
+																pos:        position{line: 2868, col: 37, offset: 90664},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2867, col: 48, offset: 90525},
+																pos:        position{line: 2868, col: 48, offset: 90675},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2867, col: 59, offset: 90536},
+																pos:        position{line: 2868, col: 59, offset: 90686},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19262,38 +19597,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2859, col: 30, offset: 90259},
+											pos:   position{line: 2860, col: 30, offset: 90409},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2872, col: 5, offset: 90600},
+												pos: position{line: 2873, col: 5, offset: 90750},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2872, col: 5, offset: 90600},
+													pos:   position{line: 2873, col: 5, offset: 90750},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2872, col: 14, offset: 90609},
+														pos: position{line: 2873, col: 14, offset: 90759},
 														expr: &choiceExpr{
-															pos: position{line: 2873, col: 9, offset: 90619},
+															pos: position{line: 2874, col: 9, offset: 90769},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2873, col: 9, offset: 90619},
+																	pos: position{line: 2874, col: 9, offset: 90769},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2873, col: 9, offset: 90619},
+																		pos: position{line: 2874, col: 9, offset: 90769},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2873, col: 9, offset: 90619},
+																				pos: position{line: 2874, col: 9, offset: 90769},
 																				expr: &litMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90620},
+																					pos:        position{line: 2874, col: 10, offset: 90770},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2874, col: 9, offset: 90648},
+																				pos: position{line: 2875, col: 9, offset: 90798},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 10, offset: 90649},
+																					pos:        position{line: 2875, col: 10, offset: 90799},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19304,27 +19639,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2877, col: 11, offset: 90861},
+																	pos: position{line: 2878, col: 11, offset: 91011},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 90861},
+																			pos:        position{line: 2878, col: 11, offset: 91011},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2877, col: 19, offset: 90869},
+																			pos: position{line: 2878, col: 19, offset: 91019},
 																			expr: &seqExpr{
-																				pos: position{line: 2877, col: 21, offset: 90871},
+																				pos: position{line: 2878, col: 21, offset: 91021},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2877, col: 21, offset: 90871},
+																						pos: position{line: 2878, col: 21, offset: 91021},
 																						expr: &actionExpr{
-																							pos: position{line: 2901, col: 10, offset: 91483},
+																							pos: position{line: 2902, col: 10, offset: 91633},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2901, col: 10, offset: 91483},
+																								pos:        position{line: 2902, col: 10, offset: 91633},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19333,11 +19668,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2877, col: 28, offset: 90878},
+																						pos: position{line: 2878, col: 28, offset: 91028},
 																						expr: &notExpr{
-																							pos: position{line: 2920, col: 8, offset: 91831},
+																							pos: position{line: 2921, col: 8, offset: 91981},
 																							expr: &anyMatcher{
-																								line: 2920, col: 9, offset: 91832,
+																								line: 2921, col: 9, offset: 91982,
 																							},
 																						},
 																					},
@@ -19347,35 +19682,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 637, col: 5, offset: 20136},
+																	pos: position{line: 637, col: 5, offset: 20204},
 																	run: (*parser).callonImageBlock37,
 																	expr: &seqExpr{
-																		pos: position{line: 637, col: 5, offset: 20136},
+																		pos: position{line: 637, col: 5, offset: 20204},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 637, col: 5, offset: 20136},
+																				pos: position{line: 637, col: 5, offset: 20204},
 																				run: (*parser).callonImageBlock39,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 640, col: 5, offset: 20208},
+																				pos:   position{line: 640, col: 5, offset: 20276},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 640, col: 14, offset: 20217},
+																					pos: position{line: 640, col: 14, offset: 20285},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 646, col: 5, offset: 20346},
+																							pos: position{line: 646, col: 5, offset: 20414},
 																							run: (*parser).callonImageBlock42,
 																							expr: &seqExpr{
-																								pos: position{line: 646, col: 5, offset: 20346},
+																								pos: position{line: 646, col: 5, offset: 20414},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 646, col: 5, offset: 20346},
+																										pos:        position{line: 646, col: 5, offset: 20414},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 646, col: 13, offset: 20354},
+																										pos:   position{line: 646, col: 13, offset: 20422},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -19407,7 +19742,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 646, col: 32, offset: 20373},
+																										pos:        position{line: 646, col: 32, offset: 20441},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19416,19 +19751,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 653, col: 5, offset: 20614},
+																							pos: position{line: 653, col: 5, offset: 20682},
 																							run: (*parser).callonImageBlock52,
 																							expr: &seqExpr{
-																								pos: position{line: 653, col: 5, offset: 20614},
+																								pos: position{line: 653, col: 5, offset: 20682},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 653, col: 5, offset: 20614},
+																										pos:        position{line: 653, col: 5, offset: 20682},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 653, col: 9, offset: 20618},
+																										pos:   position{line: 653, col: 9, offset: 20686},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -19460,7 +19795,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 653, col: 28, offset: 20637},
+																										pos:        position{line: 653, col: 28, offset: 20705},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19469,19 +19804,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 659, col: 25, offset: 20818},
+																							pos: position{line: 659, col: 25, offset: 20886},
 																							run: (*parser).callonImageBlock62,
 																							expr: &seqExpr{
-																								pos: position{line: 659, col: 25, offset: 20818},
+																								pos: position{line: 659, col: 25, offset: 20886},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 659, col: 25, offset: 20818},
+																										pos:        position{line: 659, col: 25, offset: 20886},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 659, col: 37, offset: 20830},
+																										pos:   position{line: 659, col: 37, offset: 20898},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -19513,33 +19848,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 659, col: 56, offset: 20849},
+																										pos:   position{line: 659, col: 56, offset: 20917},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 659, col: 62, offset: 20855},
+																											pos: position{line: 659, col: 62, offset: 20923},
 																											expr: &actionExpr{
-																												pos: position{line: 667, col: 17, offset: 21152},
+																												pos: position{line: 667, col: 17, offset: 21220},
 																												run: (*parser).callonImageBlock73,
 																												expr: &seqExpr{
-																													pos: position{line: 667, col: 17, offset: 21152},
+																													pos: position{line: 667, col: 17, offset: 21220},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 667, col: 17, offset: 21152},
+																															pos:        position{line: 667, col: 17, offset: 21220},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 667, col: 21, offset: 21156},
+																															pos:   position{line: 667, col: 21, offset: 21224},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 667, col: 28, offset: 21163},
+																																pos: position{line: 667, col: 28, offset: 21231},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 667, col: 28, offset: 21163},
+																																		pos: position{line: 667, col: 28, offset: 21231},
 																																		run: (*parser).callonImageBlock78,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 667, col: 28, offset: 21163},
+																																			pos:        position{line: 667, col: 28, offset: 21231},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -19547,12 +19882,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 669, col: 9, offset: 21217},
+																																		pos: position{line: 669, col: 9, offset: 21285},
 																																		run: (*parser).callonImageBlock80,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 669, col: 9, offset: 21217},
+																																			pos: position{line: 669, col: 9, offset: 21285},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 669, col: 9, offset: 21217},
+																																				pos:        position{line: 669, col: 9, offset: 21285},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -19569,7 +19904,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 659, col: 78, offset: 20871},
+																										pos:        position{line: 659, col: 78, offset: 20939},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19578,19 +19913,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 663, col: 25, offset: 20989},
+																							pos: position{line: 663, col: 25, offset: 21057},
 																							run: (*parser).callonImageBlock84,
 																							expr: &seqExpr{
-																								pos: position{line: 663, col: 25, offset: 20989},
+																								pos: position{line: 663, col: 25, offset: 21057},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 663, col: 25, offset: 20989},
+																										pos:        position{line: 663, col: 25, offset: 21057},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 663, col: 38, offset: 21002},
+																										pos:   position{line: 663, col: 38, offset: 21070},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -19622,33 +19957,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 663, col: 57, offset: 21021},
+																										pos:   position{line: 663, col: 57, offset: 21089},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 663, col: 63, offset: 21027},
+																											pos: position{line: 663, col: 63, offset: 21095},
 																											expr: &actionExpr{
-																												pos: position{line: 667, col: 17, offset: 21152},
+																												pos: position{line: 667, col: 17, offset: 21220},
 																												run: (*parser).callonImageBlock95,
 																												expr: &seqExpr{
-																													pos: position{line: 667, col: 17, offset: 21152},
+																													pos: position{line: 667, col: 17, offset: 21220},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 667, col: 17, offset: 21152},
+																															pos:        position{line: 667, col: 17, offset: 21220},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 667, col: 21, offset: 21156},
+																															pos:   position{line: 667, col: 21, offset: 21224},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 667, col: 28, offset: 21163},
+																																pos: position{line: 667, col: 28, offset: 21231},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 667, col: 28, offset: 21163},
+																																		pos: position{line: 667, col: 28, offset: 21231},
 																																		run: (*parser).callonImageBlock100,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 667, col: 28, offset: 21163},
+																																			pos:        position{line: 667, col: 28, offset: 21231},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -19656,12 +19991,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 669, col: 9, offset: 21217},
+																																		pos: position{line: 669, col: 9, offset: 21285},
 																																		run: (*parser).callonImageBlock102,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 669, col: 9, offset: 21217},
+																																			pos: position{line: 669, col: 9, offset: 21285},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 669, col: 9, offset: 21217},
+																																				pos:        position{line: 669, col: 9, offset: 21285},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -19678,7 +20013,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 663, col: 79, offset: 21043},
+																										pos:        position{line: 663, col: 79, offset: 21111},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19693,27 +20028,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1199, col: 23, offset: 37001},
+																	pos: position{line: 1199, col: 23, offset: 37069},
 																	run: (*parser).callonImageBlock106,
 																	expr: &seqExpr{
-																		pos: position{line: 1199, col: 23, offset: 37001},
+																		pos: position{line: 1199, col: 23, offset: 37069},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1197, col: 32, offset: 36969},
+																				pos:        position{line: 1197, col: 32, offset: 37037},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1199, col: 51, offset: 37029},
+																				pos:   position{line: 1199, col: 51, offset: 37097},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1199, col: 56, offset: 37034},
+																					pos: position{line: 1199, col: 56, offset: 37102},
 																					run: (*parser).callonImageBlock110,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1199, col: 56, offset: 37034},
+																						pos: position{line: 1199, col: 56, offset: 37102},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1199, col: 56, offset: 37034},
+																							pos:        position{line: 1199, col: 56, offset: 37102},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -19723,7 +20058,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1197, col: 32, offset: 36969},
+																				pos:        position{line: 1197, col: 32, offset: 37037},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -19732,10 +20067,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 90998},
+																	pos: position{line: 2881, col: 11, offset: 91148},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2880, col: 11, offset: 90998},
+																		pos:        position{line: 2881, col: 11, offset: 91148},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -19752,20 +20087,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1313, col: 31, offset: 41012},
+							pos:   position{line: 1313, col: 31, offset: 41080},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1313, col: 43, offset: 41024},
+								pos:  position{line: 1313, col: 43, offset: 41092},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1313, col: 61, offset: 41042},
+							pos: position{line: 1313, col: 61, offset: 41110},
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 10, offset: 91483},
+								pos: position{line: 2902, col: 10, offset: 91633},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2901, col: 10, offset: 91483},
+									pos:        position{line: 2902, col: 10, offset: 91633},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19774,28 +20109,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2923, col: 8, offset: 91881},
+							pos: position{line: 2924, col: 8, offset: 92031},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2910, col: 12, offset: 91654},
+									pos: position{line: 2911, col: 12, offset: 91804},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2910, col: 13, offset: 91655},
+										pos: position{line: 2911, col: 13, offset: 91805},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2910, col: 13, offset: 91655},
+												pos:        position{line: 2911, col: 13, offset: 91805},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2910, col: 20, offset: 91662},
+												pos:        position{line: 2911, col: 20, offset: 91812},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2910, col: 29, offset: 91671},
+												pos:        position{line: 2911, col: 29, offset: 91821},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19804,9 +20139,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2920, col: 8, offset: 91831},
+									pos: position{line: 2921, col: 8, offset: 91981},
 									expr: &anyMatcher{
-										line: 2920, col: 9, offset: 91832,
+										line: 2921, col: 9, offset: 91982,
 									},
 								},
 							},
@@ -19817,74 +20152,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1318, col: 1, offset: 41259},
+			pos:  position{line: 1318, col: 1, offset: 41327},
 			expr: &actionExpr{
-				pos: position{line: 1318, col: 16, offset: 41274},
+				pos: position{line: 1318, col: 16, offset: 41342},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1318, col: 16, offset: 41274},
+					pos: position{line: 1318, col: 16, offset: 41342},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1318, col: 16, offset: 41274},
+							pos:        position{line: 1318, col: 16, offset: 41342},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1318, col: 25, offset: 41283},
+							pos: position{line: 1318, col: 25, offset: 41351},
 							expr: &litMatcher{
-								pos:        position{line: 1318, col: 26, offset: 41284},
+								pos:        position{line: 1318, col: 26, offset: 41352},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1318, col: 30, offset: 41288},
+							pos:   position{line: 1318, col: 30, offset: 41356},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2859, col: 13, offset: 90242},
+								pos: position{line: 2860, col: 13, offset: 90392},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2859, col: 13, offset: 90242},
+									pos: position{line: 2860, col: 13, offset: 90392},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2859, col: 13, offset: 90242},
+											pos:   position{line: 2860, col: 13, offset: 90392},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2859, col: 20, offset: 90249},
+												pos: position{line: 2860, col: 20, offset: 90399},
 												expr: &actionExpr{
-													pos: position{line: 2867, col: 11, offset: 90488},
+													pos: position{line: 2868, col: 11, offset: 90638},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2867, col: 12, offset: 90489},
+														pos: position{line: 2868, col: 12, offset: 90639},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2867, col: 12, offset: 90489},
+																pos:        position{line: 2868, col: 12, offset: 90639},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2867, col: 24, offset: 90501},
+																pos:        position{line: 2868, col: 24, offset: 90651},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2867, col: 37, offset: 90514},
+																pos:        position{line: 2868, col: 37, offset: 90664},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2867, col: 48, offset: 90525},
+																pos:        position{line: 2868, col: 48, offset: 90675},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2867, col: 59, offset: 90536},
+																pos:        position{line: 2868, col: 59, offset: 90686},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19895,38 +20230,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2859, col: 30, offset: 90259},
+											pos:   position{line: 2860, col: 30, offset: 90409},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2872, col: 5, offset: 90600},
+												pos: position{line: 2873, col: 5, offset: 90750},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2872, col: 5, offset: 90600},
+													pos:   position{line: 2873, col: 5, offset: 90750},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2872, col: 14, offset: 90609},
+														pos: position{line: 2873, col: 14, offset: 90759},
 														expr: &choiceExpr{
-															pos: position{line: 2873, col: 9, offset: 90619},
+															pos: position{line: 2874, col: 9, offset: 90769},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2873, col: 9, offset: 90619},
+																	pos: position{line: 2874, col: 9, offset: 90769},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2873, col: 9, offset: 90619},
+																		pos: position{line: 2874, col: 9, offset: 90769},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2873, col: 9, offset: 90619},
+																				pos: position{line: 2874, col: 9, offset: 90769},
 																				expr: &litMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90620},
+																					pos:        position{line: 2874, col: 10, offset: 90770},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2874, col: 9, offset: 90648},
+																				pos: position{line: 2875, col: 9, offset: 90798},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 10, offset: 90649},
+																					pos:        position{line: 2875, col: 10, offset: 90799},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19937,27 +20272,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2877, col: 11, offset: 90861},
+																	pos: position{line: 2878, col: 11, offset: 91011},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 90861},
+																			pos:        position{line: 2878, col: 11, offset: 91011},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2877, col: 19, offset: 90869},
+																			pos: position{line: 2878, col: 19, offset: 91019},
 																			expr: &seqExpr{
-																				pos: position{line: 2877, col: 21, offset: 90871},
+																				pos: position{line: 2878, col: 21, offset: 91021},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2877, col: 21, offset: 90871},
+																						pos: position{line: 2878, col: 21, offset: 91021},
 																						expr: &actionExpr{
-																							pos: position{line: 2901, col: 10, offset: 91483},
+																							pos: position{line: 2902, col: 10, offset: 91633},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2901, col: 10, offset: 91483},
+																								pos:        position{line: 2902, col: 10, offset: 91633},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19966,11 +20301,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2877, col: 28, offset: 90878},
+																						pos: position{line: 2878, col: 28, offset: 91028},
 																						expr: &notExpr{
-																							pos: position{line: 2920, col: 8, offset: 91831},
+																							pos: position{line: 2921, col: 8, offset: 91981},
 																							expr: &anyMatcher{
-																								line: 2920, col: 9, offset: 91832,
+																								line: 2921, col: 9, offset: 91982,
 																							},
 																						},
 																					},
@@ -19980,35 +20315,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 637, col: 5, offset: 20136},
+																	pos: position{line: 637, col: 5, offset: 20204},
 																	run: (*parser).callonInlineImage39,
 																	expr: &seqExpr{
-																		pos: position{line: 637, col: 5, offset: 20136},
+																		pos: position{line: 637, col: 5, offset: 20204},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 637, col: 5, offset: 20136},
+																				pos: position{line: 637, col: 5, offset: 20204},
 																				run: (*parser).callonInlineImage41,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 640, col: 5, offset: 20208},
+																				pos:   position{line: 640, col: 5, offset: 20276},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 640, col: 14, offset: 20217},
+																					pos: position{line: 640, col: 14, offset: 20285},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 646, col: 5, offset: 20346},
+																							pos: position{line: 646, col: 5, offset: 20414},
 																							run: (*parser).callonInlineImage44,
 																							expr: &seqExpr{
-																								pos: position{line: 646, col: 5, offset: 20346},
+																								pos: position{line: 646, col: 5, offset: 20414},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 646, col: 5, offset: 20346},
+																										pos:        position{line: 646, col: 5, offset: 20414},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 646, col: 13, offset: 20354},
+																										pos:   position{line: 646, col: 13, offset: 20422},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20040,7 +20375,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 646, col: 32, offset: 20373},
+																										pos:        position{line: 646, col: 32, offset: 20441},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20049,19 +20384,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 653, col: 5, offset: 20614},
+																							pos: position{line: 653, col: 5, offset: 20682},
 																							run: (*parser).callonInlineImage54,
 																							expr: &seqExpr{
-																								pos: position{line: 653, col: 5, offset: 20614},
+																								pos: position{line: 653, col: 5, offset: 20682},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 653, col: 5, offset: 20614},
+																										pos:        position{line: 653, col: 5, offset: 20682},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 653, col: 9, offset: 20618},
+																										pos:   position{line: 653, col: 9, offset: 20686},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20093,7 +20428,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 653, col: 28, offset: 20637},
+																										pos:        position{line: 653, col: 28, offset: 20705},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20102,19 +20437,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 659, col: 25, offset: 20818},
+																							pos: position{line: 659, col: 25, offset: 20886},
 																							run: (*parser).callonInlineImage64,
 																							expr: &seqExpr{
-																								pos: position{line: 659, col: 25, offset: 20818},
+																								pos: position{line: 659, col: 25, offset: 20886},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 659, col: 25, offset: 20818},
+																										pos:        position{line: 659, col: 25, offset: 20886},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 659, col: 37, offset: 20830},
+																										pos:   position{line: 659, col: 37, offset: 20898},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20146,33 +20481,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 659, col: 56, offset: 20849},
+																										pos:   position{line: 659, col: 56, offset: 20917},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 659, col: 62, offset: 20855},
+																											pos: position{line: 659, col: 62, offset: 20923},
 																											expr: &actionExpr{
-																												pos: position{line: 667, col: 17, offset: 21152},
+																												pos: position{line: 667, col: 17, offset: 21220},
 																												run: (*parser).callonInlineImage75,
 																												expr: &seqExpr{
-																													pos: position{line: 667, col: 17, offset: 21152},
+																													pos: position{line: 667, col: 17, offset: 21220},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 667, col: 17, offset: 21152},
+																															pos:        position{line: 667, col: 17, offset: 21220},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 667, col: 21, offset: 21156},
+																															pos:   position{line: 667, col: 21, offset: 21224},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 667, col: 28, offset: 21163},
+																																pos: position{line: 667, col: 28, offset: 21231},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 667, col: 28, offset: 21163},
+																																		pos: position{line: 667, col: 28, offset: 21231},
 																																		run: (*parser).callonInlineImage80,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 667, col: 28, offset: 21163},
+																																			pos:        position{line: 667, col: 28, offset: 21231},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20180,12 +20515,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 669, col: 9, offset: 21217},
+																																		pos: position{line: 669, col: 9, offset: 21285},
 																																		run: (*parser).callonInlineImage82,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 669, col: 9, offset: 21217},
+																																			pos: position{line: 669, col: 9, offset: 21285},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 669, col: 9, offset: 21217},
+																																				pos:        position{line: 669, col: 9, offset: 21285},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20202,7 +20537,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 659, col: 78, offset: 20871},
+																										pos:        position{line: 659, col: 78, offset: 20939},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20211,19 +20546,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 663, col: 25, offset: 20989},
+																							pos: position{line: 663, col: 25, offset: 21057},
 																							run: (*parser).callonInlineImage86,
 																							expr: &seqExpr{
-																								pos: position{line: 663, col: 25, offset: 20989},
+																								pos: position{line: 663, col: 25, offset: 21057},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 663, col: 25, offset: 20989},
+																										pos:        position{line: 663, col: 25, offset: 21057},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 663, col: 38, offset: 21002},
+																										pos:   position{line: 663, col: 38, offset: 21070},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20255,33 +20590,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 663, col: 57, offset: 21021},
+																										pos:   position{line: 663, col: 57, offset: 21089},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 663, col: 63, offset: 21027},
+																											pos: position{line: 663, col: 63, offset: 21095},
 																											expr: &actionExpr{
-																												pos: position{line: 667, col: 17, offset: 21152},
+																												pos: position{line: 667, col: 17, offset: 21220},
 																												run: (*parser).callonInlineImage97,
 																												expr: &seqExpr{
-																													pos: position{line: 667, col: 17, offset: 21152},
+																													pos: position{line: 667, col: 17, offset: 21220},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 667, col: 17, offset: 21152},
+																															pos:        position{line: 667, col: 17, offset: 21220},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 667, col: 21, offset: 21156},
+																															pos:   position{line: 667, col: 21, offset: 21224},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 667, col: 28, offset: 21163},
+																																pos: position{line: 667, col: 28, offset: 21231},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 667, col: 28, offset: 21163},
+																																		pos: position{line: 667, col: 28, offset: 21231},
 																																		run: (*parser).callonInlineImage102,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 667, col: 28, offset: 21163},
+																																			pos:        position{line: 667, col: 28, offset: 21231},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20289,12 +20624,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 669, col: 9, offset: 21217},
+																																		pos: position{line: 669, col: 9, offset: 21285},
 																																		run: (*parser).callonInlineImage104,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 669, col: 9, offset: 21217},
+																																			pos: position{line: 669, col: 9, offset: 21285},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 669, col: 9, offset: 21217},
+																																				pos:        position{line: 669, col: 9, offset: 21285},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20311,7 +20646,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 663, col: 79, offset: 21043},
+																										pos:        position{line: 663, col: 79, offset: 21111},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20326,27 +20661,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1199, col: 23, offset: 37001},
+																	pos: position{line: 1199, col: 23, offset: 37069},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1199, col: 23, offset: 37001},
+																		pos: position{line: 1199, col: 23, offset: 37069},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1197, col: 32, offset: 36969},
+																				pos:        position{line: 1197, col: 32, offset: 37037},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1199, col: 51, offset: 37029},
+																				pos:   position{line: 1199, col: 51, offset: 37097},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1199, col: 56, offset: 37034},
+																					pos: position{line: 1199, col: 56, offset: 37102},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1199, col: 56, offset: 37034},
+																						pos: position{line: 1199, col: 56, offset: 37102},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1199, col: 56, offset: 37034},
+																							pos:        position{line: 1199, col: 56, offset: 37102},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20356,7 +20691,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1197, col: 32, offset: 36969},
+																				pos:        position{line: 1197, col: 32, offset: 37037},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20365,10 +20700,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 90998},
+																	pos: position{line: 2881, col: 11, offset: 91148},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2880, col: 11, offset: 90998},
+																		pos:        position{line: 2881, col: 11, offset: 91148},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20385,10 +20720,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1318, col: 46, offset: 41304},
+							pos:   position{line: 1318, col: 46, offset: 41372},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1318, col: 58, offset: 41316},
+								pos:  position{line: 1318, col: 58, offset: 41384},
 								name: "InlineAttributes",
 							},
 						},
@@ -20398,29 +20733,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1325, col: 1, offset: 41712},
+			pos:  position{line: 1325, col: 1, offset: 41780},
 			expr: &actionExpr{
-				pos: position{line: 1325, col: 15, offset: 41726},
+				pos: position{line: 1325, col: 15, offset: 41794},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1325, col: 15, offset: 41726},
+					pos: position{line: 1325, col: 15, offset: 41794},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1325, col: 15, offset: 41726},
+							pos:        position{line: 1325, col: 15, offset: 41794},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1325, col: 23, offset: 41734},
+							pos:   position{line: 1325, col: 23, offset: 41802},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1325, col: 29, offset: 41740},
+								pos: position{line: 1325, col: 29, offset: 41808},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1325, col: 29, offset: 41740},
+									pos: position{line: 1325, col: 29, offset: 41808},
 									expr: &charClassMatcher{
-										pos:        position{line: 1325, col: 29, offset: 41740},
+										pos:        position{line: 1325, col: 29, offset: 41808},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20431,10 +20766,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1325, col: 73, offset: 41784},
+							pos:   position{line: 1325, col: 73, offset: 41852},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1325, col: 85, offset: 41796},
+								pos:  position{line: 1325, col: 85, offset: 41864},
 								name: "InlineAttributes",
 							},
 						},
@@ -20444,31 +20779,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1332, col: 1, offset: 42162},
+			pos:  position{line: 1332, col: 1, offset: 42230},
 			expr: &actionExpr{
-				pos: position{line: 1332, col: 19, offset: 42180},
+				pos: position{line: 1332, col: 19, offset: 42248},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1332, col: 19, offset: 42180},
+					pos: position{line: 1332, col: 19, offset: 42248},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1332, col: 19, offset: 42180},
+							pos:        position{line: 1332, col: 19, offset: 42248},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1332, col: 31, offset: 42192},
+							pos:   position{line: 1332, col: 31, offset: 42260},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1332, col: 35, offset: 42196},
+								pos: position{line: 1332, col: 35, offset: 42264},
 								expr: &actionExpr{
-									pos: position{line: 2795, col: 14, offset: 88652},
+									pos: position{line: 2796, col: 14, offset: 88802},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2795, col: 14, offset: 88652},
+										pos: position{line: 2796, col: 14, offset: 88802},
 										expr: &charClassMatcher{
-											pos:        position{line: 2795, col: 14, offset: 88652},
+											pos:        position{line: 2796, col: 14, offset: 88802},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20479,21 +20814,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1332, col: 50, offset: 42211},
+							pos:        position{line: 1332, col: 50, offset: 42279},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1332, col: 54, offset: 42215},
+							pos:   position{line: 1332, col: 54, offset: 42283},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1332, col: 64, offset: 42225},
+								pos:  position{line: 1332, col: 64, offset: 42293},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1332, col: 82, offset: 42243},
+							pos:        position{line: 1332, col: 82, offset: 42311},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20504,24 +20839,24 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1338, col: 1, offset: 42400},
+			pos:  position{line: 1338, col: 1, offset: 42468},
 			expr: &actionExpr{
-				pos: position{line: 1339, col: 5, offset: 42425},
+				pos: position{line: 1339, col: 5, offset: 42493},
 				run: (*parser).callonFootnoteElements1,
 				expr: &seqExpr{
-					pos: position{line: 1339, col: 5, offset: 42425},
+					pos: position{line: 1339, col: 5, offset: 42493},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1339, col: 5, offset: 42425},
+							pos: position{line: 1339, col: 5, offset: 42493},
 							run: (*parser).callonFootnoteElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1343, col: 5, offset: 42536},
+							pos:   position{line: 1343, col: 5, offset: 42604},
 							label: "elements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1343, col: 14, offset: 42545},
+								pos: position{line: 1343, col: 14, offset: 42613},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1343, col: 15, offset: 42546},
+									pos:  position{line: 1343, col: 15, offset: 42614},
 									name: "FootnoteElement",
 								},
 							},
@@ -20532,44 +20867,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1347, col: 1, offset: 42638},
+			pos:  position{line: 1347, col: 1, offset: 42706},
 			expr: &actionExpr{
-				pos: position{line: 1348, col: 5, offset: 42662},
+				pos: position{line: 1348, col: 5, offset: 42730},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1348, col: 5, offset: 42662},
+					pos: position{line: 1348, col: 5, offset: 42730},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1348, col: 5, offset: 42662},
+							pos: position{line: 1348, col: 5, offset: 42730},
 							expr: &litMatcher{
-								pos:        position{line: 1348, col: 6, offset: 42663},
+								pos:        position{line: 1348, col: 6, offset: 42731},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1349, col: 5, offset: 42672},
+							pos:   position{line: 1349, col: 5, offset: 42740},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1350, col: 9, offset: 42690},
+								pos: position{line: 1350, col: 9, offset: 42758},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2800, col: 5, offset: 88725},
+										pos: position{line: 2801, col: 5, offset: 88875},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2800, col: 5, offset: 88725},
+											pos: position{line: 2801, col: 5, offset: 88875},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2800, col: 5, offset: 88725},
+													pos:   position{line: 2801, col: 5, offset: 88875},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2800, col: 11, offset: 88731},
+														pos: position{line: 2801, col: 11, offset: 88881},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2800, col: 11, offset: 88731},
+															pos: position{line: 2801, col: 11, offset: 88881},
 															expr: &charClassMatcher{
-																pos:        position{line: 2800, col: 11, offset: 88731},
+																pos:        position{line: 2801, col: 11, offset: 88881},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20579,36 +20914,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2803, col: 5, offset: 88789},
+													pos: position{line: 2804, col: 5, offset: 88939},
 													expr: &seqExpr{
-														pos: position{line: 2804, col: 9, offset: 88800},
+														pos: position{line: 2805, col: 9, offset: 88950},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2804, col: 9, offset: 88800},
+																pos:        position{line: 2805, col: 9, offset: 88950},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2805, col: 9, offset: 88849},
+																pos: position{line: 2806, col: 9, offset: 88999},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2809, col: 5, offset: 88929},
+													pos: position{line: 2810, col: 5, offset: 89079},
 													expr: &seqExpr{
-														pos: position{line: 2810, col: 9, offset: 88940},
+														pos: position{line: 2811, col: 9, offset: 89090},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2810, col: 9, offset: 88940},
+																pos:        position{line: 2811, col: 9, offset: 89090},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2810, col: 13, offset: 88944},
+																pos:        position{line: 2811, col: 13, offset: 89094},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20621,12 +20956,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2905, col: 11, offset: 91544},
+										pos: position{line: 2906, col: 11, offset: 91694},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2905, col: 11, offset: 91544},
+											pos: position{line: 2906, col: 11, offset: 91694},
 											expr: &charClassMatcher{
-												pos:        position{line: 2905, col: 11, offset: 91544},
+												pos:        position{line: 2906, col: 11, offset: 91694},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -20635,21 +20970,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2529, col: 5, offset: 81185},
+										pos: position{line: 2530, col: 5, offset: 81315},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2529, col: 5, offset: 81185},
+											pos: position{line: 2530, col: 5, offset: 81315},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2529, col: 5, offset: 81185},
+													pos:        position{line: 2530, col: 5, offset: 81315},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2529, col: 10, offset: 81190},
+													pos: position{line: 2530, col: 10, offset: 81320},
 													expr: &charClassMatcher{
-														pos:        position{line: 2529, col: 11, offset: 81191},
+														pos:        position{line: 2530, col: 11, offset: 81321},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20660,29 +20995,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2535, col: 5, offset: 81383},
+										pos: position{line: 2536, col: 5, offset: 81513},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2535, col: 5, offset: 81383},
+											pos: position{line: 2536, col: 5, offset: 81513},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2535, col: 5, offset: 81383},
+													pos: position{line: 2536, col: 5, offset: 81513},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2538, col: 5, offset: 81454},
+													pos: position{line: 2539, col: 5, offset: 81584},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2542, col: 5, offset: 81579},
+													pos:        position{line: 2543, col: 5, offset: 81709},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2542, col: 9, offset: 81583},
+													pos: position{line: 2543, col: 9, offset: 81713},
 													expr: &charClassMatcher{
-														pos:        position{line: 2542, col: 10, offset: 81584},
+														pos:        position{line: 2543, col: 10, offset: 81714},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20693,35 +21028,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1353, col: 11, offset: 42757},
+										pos:  position{line: 1353, col: 11, offset: 42825},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1354, col: 11, offset: 42773},
+										pos:  position{line: 1354, col: 11, offset: 42841},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2818, col: 5, offset: 89137},
+										pos: position{line: 2819, col: 5, offset: 89287},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2819, col: 9, offset: 89147},
+											pos: position{line: 2820, col: 9, offset: 89297},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2819, col: 10, offset: 89148},
+													pos:        position{line: 2820, col: 10, offset: 89298},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2821, col: 13, offset: 89245},
+													pos: position{line: 2822, col: 13, offset: 89395},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2821, col: 13, offset: 89245},
+															pos: position{line: 2822, col: 13, offset: 89395},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2824, col: 13, offset: 89345},
+															pos:        position{line: 2825, col: 13, offset: 89495},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -20729,20 +21064,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2824, col: 19, offset: 89351},
+													pos:        position{line: 2825, col: 19, offset: 89501},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2827, col: 13, offset: 89389},
+													pos: position{line: 2828, col: 13, offset: 89539},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2827, col: 13, offset: 89389},
+															pos: position{line: 2828, col: 13, offset: 89539},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2830, col: 14, offset: 89482},
+															pos:        position{line: 2831, col: 14, offset: 89632},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -20751,18 +21086,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2832, col: 12, offset: 89526},
+													pos: position{line: 2833, col: 12, offset: 89676},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2832, col: 12, offset: 89526},
+															pos:        position{line: 2833, col: 12, offset: 89676},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2832, col: 16, offset: 89530},
+															pos: position{line: 2833, col: 16, offset: 89680},
 															expr: &litMatcher{
-																pos:        position{line: 2832, col: 17, offset: 89531},
+																pos:        position{line: 2833, col: 17, offset: 89681},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -20774,36 +21109,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1356, col: 11, offset: 42846},
+										pos:  position{line: 1356, col: 11, offset: 42914},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1207, col: 5, offset: 37447},
+										pos: position{line: 1207, col: 5, offset: 37515},
 										run: (*parser).callonFootnoteElement53,
 										expr: &seqExpr{
-											pos: position{line: 1207, col: 5, offset: 37447},
+											pos: position{line: 1207, col: 5, offset: 37515},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1207, col: 5, offset: 37447},
+													pos: position{line: 1207, col: 5, offset: 37515},
 													run: (*parser).callonFootnoteElement55,
 												},
 												&litMatcher{
-													pos:        position{line: 1210, col: 5, offset: 37523},
+													pos:        position{line: 1210, col: 5, offset: 37591},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1211, col: 5, offset: 37531},
+													pos: position{line: 1211, col: 5, offset: 37599},
 													run: (*parser).callonFootnoteElement57,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1215, col: 5, offset: 37618},
+													pos: position{line: 1215, col: 5, offset: 37686},
 													expr: &actionExpr{
-														pos: position{line: 2901, col: 10, offset: 91483},
+														pos: position{line: 2902, col: 10, offset: 91633},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2901, col: 10, offset: 91483},
+															pos:        position{line: 2902, col: 10, offset: 91633},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -20812,30 +21147,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1215, col: 12, offset: 37625},
+													pos: position{line: 1215, col: 12, offset: 37693},
 													expr: &choiceExpr{
-														pos: position{line: 2923, col: 8, offset: 91881},
+														pos: position{line: 2924, col: 8, offset: 92031},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2910, col: 12, offset: 91654},
+																pos: position{line: 2911, col: 12, offset: 91804},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2910, col: 13, offset: 91655},
+																	pos: position{line: 2911, col: 13, offset: 91805},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 13, offset: 91655},
+																			pos:        position{line: 2911, col: 13, offset: 91805},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 20, offset: 91662},
+																			pos:        position{line: 2911, col: 20, offset: 91812},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 29, offset: 91671},
+																			pos:        position{line: 2911, col: 29, offset: 91821},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -20844,9 +21179,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2920, col: 8, offset: 91831},
+																pos: position{line: 2921, col: 8, offset: 91981},
 																expr: &anyMatcher{
-																	line: 2920, col: 9, offset: 91832,
+																	line: 2921, col: 9, offset: 91982,
 																},
 															},
 														},
@@ -20856,35 +21191,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 637, col: 5, offset: 20136},
+										pos: position{line: 637, col: 5, offset: 20204},
 										run: (*parser).callonFootnoteElement70,
 										expr: &seqExpr{
-											pos: position{line: 637, col: 5, offset: 20136},
+											pos: position{line: 637, col: 5, offset: 20204},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 637, col: 5, offset: 20136},
+													pos: position{line: 637, col: 5, offset: 20204},
 													run: (*parser).callonFootnoteElement72,
 												},
 												&labeledExpr{
-													pos:   position{line: 640, col: 5, offset: 20208},
+													pos:   position{line: 640, col: 5, offset: 20276},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 640, col: 14, offset: 20217},
+														pos: position{line: 640, col: 14, offset: 20285},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 646, col: 5, offset: 20346},
+																pos: position{line: 646, col: 5, offset: 20414},
 																run: (*parser).callonFootnoteElement75,
 																expr: &seqExpr{
-																	pos: position{line: 646, col: 5, offset: 20346},
+																	pos: position{line: 646, col: 5, offset: 20414},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 646, col: 5, offset: 20346},
+																			pos:        position{line: 646, col: 5, offset: 20414},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 646, col: 13, offset: 20354},
+																			pos:   position{line: 646, col: 13, offset: 20422},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -20916,7 +21251,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 646, col: 32, offset: 20373},
+																			pos:        position{line: 646, col: 32, offset: 20441},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -20925,19 +21260,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 653, col: 5, offset: 20614},
+																pos: position{line: 653, col: 5, offset: 20682},
 																run: (*parser).callonFootnoteElement85,
 																expr: &seqExpr{
-																	pos: position{line: 653, col: 5, offset: 20614},
+																	pos: position{line: 653, col: 5, offset: 20682},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 653, col: 5, offset: 20614},
+																			pos:        position{line: 653, col: 5, offset: 20682},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 653, col: 9, offset: 20618},
+																			pos:   position{line: 653, col: 9, offset: 20686},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -20969,7 +21304,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 653, col: 28, offset: 20637},
+																			pos:        position{line: 653, col: 28, offset: 20705},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -20978,19 +21313,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 659, col: 25, offset: 20818},
+																pos: position{line: 659, col: 25, offset: 20886},
 																run: (*parser).callonFootnoteElement95,
 																expr: &seqExpr{
-																	pos: position{line: 659, col: 25, offset: 20818},
+																	pos: position{line: 659, col: 25, offset: 20886},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 659, col: 25, offset: 20818},
+																			pos:        position{line: 659, col: 25, offset: 20886},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 659, col: 37, offset: 20830},
+																			pos:   position{line: 659, col: 37, offset: 20898},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -21022,33 +21357,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 659, col: 56, offset: 20849},
+																			pos:   position{line: 659, col: 56, offset: 20917},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 659, col: 62, offset: 20855},
+																				pos: position{line: 659, col: 62, offset: 20923},
 																				expr: &actionExpr{
-																					pos: position{line: 667, col: 17, offset: 21152},
+																					pos: position{line: 667, col: 17, offset: 21220},
 																					run: (*parser).callonFootnoteElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 667, col: 17, offset: 21152},
+																						pos: position{line: 667, col: 17, offset: 21220},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 667, col: 17, offset: 21152},
+																								pos:        position{line: 667, col: 17, offset: 21220},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 667, col: 21, offset: 21156},
+																								pos:   position{line: 667, col: 21, offset: 21224},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 667, col: 28, offset: 21163},
+																									pos: position{line: 667, col: 28, offset: 21231},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 667, col: 28, offset: 21163},
+																											pos: position{line: 667, col: 28, offset: 21231},
 																											run: (*parser).callonFootnoteElement111,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 667, col: 28, offset: 21163},
+																												pos:        position{line: 667, col: 28, offset: 21231},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21056,12 +21391,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 669, col: 9, offset: 21217},
+																											pos: position{line: 669, col: 9, offset: 21285},
 																											run: (*parser).callonFootnoteElement113,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 669, col: 9, offset: 21217},
+																												pos: position{line: 669, col: 9, offset: 21285},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 669, col: 9, offset: 21217},
+																													pos:        position{line: 669, col: 9, offset: 21285},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21078,7 +21413,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 659, col: 78, offset: 20871},
+																			pos:        position{line: 659, col: 78, offset: 20939},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21087,19 +21422,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 663, col: 25, offset: 20989},
+																pos: position{line: 663, col: 25, offset: 21057},
 																run: (*parser).callonFootnoteElement117,
 																expr: &seqExpr{
-																	pos: position{line: 663, col: 25, offset: 20989},
+																	pos: position{line: 663, col: 25, offset: 21057},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 663, col: 25, offset: 20989},
+																			pos:        position{line: 663, col: 25, offset: 21057},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 663, col: 38, offset: 21002},
+																			pos:   position{line: 663, col: 38, offset: 21070},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -21131,33 +21466,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 663, col: 57, offset: 21021},
+																			pos:   position{line: 663, col: 57, offset: 21089},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 663, col: 63, offset: 21027},
+																				pos: position{line: 663, col: 63, offset: 21095},
 																				expr: &actionExpr{
-																					pos: position{line: 667, col: 17, offset: 21152},
+																					pos: position{line: 667, col: 17, offset: 21220},
 																					run: (*parser).callonFootnoteElement128,
 																					expr: &seqExpr{
-																						pos: position{line: 667, col: 17, offset: 21152},
+																						pos: position{line: 667, col: 17, offset: 21220},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 667, col: 17, offset: 21152},
+																								pos:        position{line: 667, col: 17, offset: 21220},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 667, col: 21, offset: 21156},
+																								pos:   position{line: 667, col: 21, offset: 21224},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 667, col: 28, offset: 21163},
+																									pos: position{line: 667, col: 28, offset: 21231},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 667, col: 28, offset: 21163},
+																											pos: position{line: 667, col: 28, offset: 21231},
 																											run: (*parser).callonFootnoteElement133,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 667, col: 28, offset: 21163},
+																												pos:        position{line: 667, col: 28, offset: 21231},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21165,12 +21500,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 669, col: 9, offset: 21217},
+																											pos: position{line: 669, col: 9, offset: 21285},
 																											run: (*parser).callonFootnoteElement135,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 669, col: 9, offset: 21217},
+																												pos: position{line: 669, col: 9, offset: 21285},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 669, col: 9, offset: 21217},
+																													pos:        position{line: 669, col: 9, offset: 21285},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21187,7 +21522,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 663, col: 79, offset: 21043},
+																			pos:        position{line: 663, col: 79, offset: 21111},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21202,23 +21537,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2498, col: 5, offset: 80014},
+										pos: position{line: 2499, col: 5, offset: 80116},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2498, col: 5, offset: 80014},
+											pos: position{line: 2499, col: 5, offset: 80116},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2498, col: 5, offset: 80014},
+													pos: position{line: 2499, col: 5, offset: 80116},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2501, col: 5, offset: 80090},
+													pos:   position{line: 2502, col: 5, offset: 80192},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2502, col: 9, offset: 80108},
+														pos: position{line: 2503, col: 9, offset: 80210},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2502, col: 10, offset: 80109},
+															pos:        position{line: 2503, col: 10, offset: 80211},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21230,25 +21565,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2910, col: 12, offset: 91654},
+										pos: position{line: 2911, col: 12, offset: 91804},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2910, col: 13, offset: 91655},
+											pos: position{line: 2911, col: 13, offset: 91805},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2910, col: 13, offset: 91655},
+													pos:        position{line: 2911, col: 13, offset: 91805},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2910, col: 20, offset: 91662},
+													pos:        position{line: 2911, col: 20, offset: 91812},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2910, col: 29, offset: 91671},
+													pos:        position{line: 2911, col: 29, offset: 91821},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21257,10 +21592,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2840, col: 12, offset: 89791},
+										pos: position{line: 2841, col: 12, offset: 89941},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2840, col: 12, offset: 89791},
+											pos:        position{line: 2841, col: 12, offset: 89941},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21276,32 +21611,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1395, col: 1, offset: 44691},
+			pos:  position{line: 1395, col: 1, offset: 44759},
 			expr: &choiceExpr{
-				pos: position{line: 1395, col: 21, offset: 44711},
+				pos: position{line: 1395, col: 21, offset: 44779},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1395, col: 21, offset: 44711},
+						pos: position{line: 1395, col: 21, offset: 44779},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1395, col: 21, offset: 44711},
+							pos: position{line: 1395, col: 21, offset: 44779},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1395, col: 21, offset: 44711},
+									pos:        position{line: 1395, col: 21, offset: 44779},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1395, col: 30, offset: 44720},
+									pos:   position{line: 1395, col: 30, offset: 44788},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1395, col: 38, offset: 44728},
+										pos: position{line: 1395, col: 38, offset: 44796},
 										expr: &actionExpr{
-											pos: position{line: 1401, col: 30, offset: 45054},
+											pos: position{line: 1401, col: 30, offset: 45122},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1401, col: 30, offset: 45054},
+												pos:        position{line: 1401, col: 30, offset: 45122},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21311,7 +21646,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1395, col: 67, offset: 44757},
+									pos:        position{line: 1395, col: 67, offset: 44825},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21320,34 +21655,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1397, col: 9, offset: 44861},
+						pos: position{line: 1397, col: 9, offset: 44929},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1397, col: 9, offset: 44861},
+							pos: position{line: 1397, col: 9, offset: 44929},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1397, col: 9, offset: 44861},
+									pos:        position{line: 1397, col: 9, offset: 44929},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1397, col: 19, offset: 44871},
+									pos:   position{line: 1397, col: 19, offset: 44939},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1397, col: 27, offset: 44879},
+										pos: position{line: 1397, col: 27, offset: 44947},
 										expr: &choiceExpr{
-											pos: position{line: 1397, col: 28, offset: 44880},
+											pos: position{line: 1397, col: 28, offset: 44948},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1397, col: 28, offset: 44880},
+													pos:  position{line: 1397, col: 28, offset: 44948},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1401, col: 30, offset: 45054},
+													pos: position{line: 1401, col: 30, offset: 45122},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1401, col: 30, offset: 45054},
+														pos:        position{line: 1401, col: 30, offset: 45122},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -21359,7 +21694,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1397, col: 69, offset: 44921},
+									pos:        position{line: 1397, col: 69, offset: 44989},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21372,75 +21707,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1408, col: 1, offset: 45310},
+			pos:  position{line: 1408, col: 1, offset: 45378},
 			expr: &choiceExpr{
-				pos: position{line: 1408, col: 9, offset: 45318},
+				pos: position{line: 1408, col: 9, offset: 45386},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1411, col: 5, offset: 45387},
+						pos: position{line: 1411, col: 5, offset: 45455},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1411, col: 5, offset: 45387},
+							pos: position{line: 1411, col: 5, offset: 45455},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1411, col: 5, offset: 45387},
+									pos:        position{line: 1411, col: 5, offset: 45455},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1412, col: 5, offset: 45396},
+									pos:   position{line: 1412, col: 5, offset: 45464},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2863, col: 23, offset: 90369},
+										pos: position{line: 2864, col: 23, offset: 90519},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2863, col: 23, offset: 90369},
+											pos: position{line: 2864, col: 23, offset: 90519},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2863, col: 23, offset: 90369},
+													pos: position{line: 2864, col: 23, offset: 90519},
 													expr: &litMatcher{
-														pos:        position{line: 2863, col: 24, offset: 90370},
+														pos:        position{line: 2864, col: 24, offset: 90520},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2863, col: 28, offset: 90374},
+													pos:   position{line: 2864, col: 28, offset: 90524},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2867, col: 11, offset: 90488},
+														pos: position{line: 2868, col: 11, offset: 90638},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2867, col: 12, offset: 90489},
+															pos: position{line: 2868, col: 12, offset: 90639},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2867, col: 12, offset: 90489},
+																	pos:        position{line: 2868, col: 12, offset: 90639},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2867, col: 24, offset: 90501},
+																	pos:        position{line: 2868, col: 24, offset: 90651},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2867, col: 37, offset: 90514},
+																	pos:        position{line: 2868, col: 37, offset: 90664},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2867, col: 48, offset: 90525},
+																	pos:        position{line: 2868, col: 48, offset: 90675},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2867, col: 59, offset: 90536},
+																	pos:        position{line: 2868, col: 59, offset: 90686},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21450,38 +21785,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2863, col: 44, offset: 90390},
+													pos:   position{line: 2864, col: 44, offset: 90540},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 5, offset: 90600},
+														pos: position{line: 2873, col: 5, offset: 90750},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2872, col: 5, offset: 90600},
+															pos:   position{line: 2873, col: 5, offset: 90750},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2872, col: 14, offset: 90609},
+																pos: position{line: 2873, col: 14, offset: 90759},
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 9, offset: 90619},
+																	pos: position{line: 2874, col: 9, offset: 90769},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 9, offset: 90619},
+																			pos: position{line: 2874, col: 9, offset: 90769},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2873, col: 9, offset: 90619},
+																				pos: position{line: 2874, col: 9, offset: 90769},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2873, col: 9, offset: 90619},
+																						pos: position{line: 2874, col: 9, offset: 90769},
 																						expr: &litMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90620},
+																							pos:        position{line: 2874, col: 10, offset: 90770},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2874, col: 9, offset: 90648},
+																						pos: position{line: 2875, col: 9, offset: 90798},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2874, col: 10, offset: 90649},
+																							pos:        position{line: 2875, col: 10, offset: 90799},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21492,27 +21827,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2877, col: 11, offset: 90861},
+																			pos: position{line: 2878, col: 11, offset: 91011},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2877, col: 11, offset: 90861},
+																					pos:        position{line: 2878, col: 11, offset: 91011},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2877, col: 19, offset: 90869},
+																					pos: position{line: 2878, col: 19, offset: 91019},
 																					expr: &seqExpr{
-																						pos: position{line: 2877, col: 21, offset: 90871},
+																						pos: position{line: 2878, col: 21, offset: 91021},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2877, col: 21, offset: 90871},
+																								pos: position{line: 2878, col: 21, offset: 91021},
 																								expr: &actionExpr{
-																									pos: position{line: 2901, col: 10, offset: 91483},
+																									pos: position{line: 2902, col: 10, offset: 91633},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2901, col: 10, offset: 91483},
+																										pos:        position{line: 2902, col: 10, offset: 91633},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21521,11 +21856,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2877, col: 28, offset: 90878},
+																								pos: position{line: 2878, col: 28, offset: 91028},
 																								expr: &notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -21535,35 +21870,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 637, col: 5, offset: 20136},
+																			pos: position{line: 637, col: 5, offset: 20204},
 																			run: (*parser).callonLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 637, col: 5, offset: 20136},
+																				pos: position{line: 637, col: 5, offset: 20204},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 637, col: 5, offset: 20136},
+																						pos: position{line: 637, col: 5, offset: 20204},
 																						run: (*parser).callonLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 640, col: 5, offset: 20208},
+																						pos:   position{line: 640, col: 5, offset: 20276},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 640, col: 14, offset: 20217},
+																							pos: position{line: 640, col: 14, offset: 20285},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 646, col: 5, offset: 20346},
+																									pos: position{line: 646, col: 5, offset: 20414},
 																									run: (*parser).callonLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 646, col: 5, offset: 20346},
+																										pos: position{line: 646, col: 5, offset: 20414},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 646, col: 5, offset: 20346},
+																												pos:        position{line: 646, col: 5, offset: 20414},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 646, col: 13, offset: 20354},
+																												pos:   position{line: 646, col: 13, offset: 20422},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -21595,7 +21930,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 646, col: 32, offset: 20373},
+																												pos:        position{line: 646, col: 32, offset: 20441},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21604,19 +21939,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 653, col: 5, offset: 20614},
+																									pos: position{line: 653, col: 5, offset: 20682},
 																									run: (*parser).callonLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 653, col: 5, offset: 20614},
+																										pos: position{line: 653, col: 5, offset: 20682},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 653, col: 5, offset: 20614},
+																												pos:        position{line: 653, col: 5, offset: 20682},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 653, col: 9, offset: 20618},
+																												pos:   position{line: 653, col: 9, offset: 20686},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -21648,7 +21983,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 653, col: 28, offset: 20637},
+																												pos:        position{line: 653, col: 28, offset: 20705},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21657,19 +21992,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 659, col: 25, offset: 20818},
+																									pos: position{line: 659, col: 25, offset: 20886},
 																									run: (*parser).callonLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 659, col: 25, offset: 20818},
+																										pos: position{line: 659, col: 25, offset: 20886},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 659, col: 25, offset: 20818},
+																												pos:        position{line: 659, col: 25, offset: 20886},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 37, offset: 20830},
+																												pos:   position{line: 659, col: 37, offset: 20898},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -21701,33 +22036,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 56, offset: 20849},
+																												pos:   position{line: 659, col: 56, offset: 20917},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 659, col: 62, offset: 20855},
+																													pos: position{line: 659, col: 62, offset: 20923},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21152},
+																														pos: position{line: 667, col: 17, offset: 21220},
 																														run: (*parser).callonLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21152},
+																															pos: position{line: 667, col: 17, offset: 21220},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21152},
+																																	pos:        position{line: 667, col: 17, offset: 21220},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21156},
+																																	pos:   position{line: 667, col: 21, offset: 21224},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21163},
+																																		pos: position{line: 667, col: 28, offset: 21231},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21163},
+																																				pos: position{line: 667, col: 28, offset: 21231},
 																																				run: (*parser).callonLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21163},
+																																					pos:        position{line: 667, col: 28, offset: 21231},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -21735,12 +22070,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21217},
+																																				pos: position{line: 669, col: 9, offset: 21285},
 																																				run: (*parser).callonLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21217},
+																																					pos: position{line: 669, col: 9, offset: 21285},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21217},
+																																						pos:        position{line: 669, col: 9, offset: 21285},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -21757,7 +22092,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 659, col: 78, offset: 20871},
+																												pos:        position{line: 659, col: 78, offset: 20939},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21766,19 +22101,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 663, col: 25, offset: 20989},
+																									pos: position{line: 663, col: 25, offset: 21057},
 																									run: (*parser).callonLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 663, col: 25, offset: 20989},
+																										pos: position{line: 663, col: 25, offset: 21057},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 663, col: 25, offset: 20989},
+																												pos:        position{line: 663, col: 25, offset: 21057},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 38, offset: 21002},
+																												pos:   position{line: 663, col: 38, offset: 21070},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -21810,33 +22145,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 57, offset: 21021},
+																												pos:   position{line: 663, col: 57, offset: 21089},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 663, col: 63, offset: 21027},
+																													pos: position{line: 663, col: 63, offset: 21095},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21152},
+																														pos: position{line: 667, col: 17, offset: 21220},
 																														run: (*parser).callonLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21152},
+																															pos: position{line: 667, col: 17, offset: 21220},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21152},
+																																	pos:        position{line: 667, col: 17, offset: 21220},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21156},
+																																	pos:   position{line: 667, col: 21, offset: 21224},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21163},
+																																		pos: position{line: 667, col: 28, offset: 21231},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21163},
+																																				pos: position{line: 667, col: 28, offset: 21231},
 																																				run: (*parser).callonLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21163},
+																																					pos:        position{line: 667, col: 28, offset: 21231},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -21844,12 +22179,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21217},
+																																				pos: position{line: 669, col: 9, offset: 21285},
 																																				run: (*parser).callonLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21217},
+																																					pos: position{line: 669, col: 9, offset: 21285},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21217},
+																																						pos:        position{line: 669, col: 9, offset: 21285},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -21866,7 +22201,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 663, col: 79, offset: 21043},
+																												pos:        position{line: 663, col: 79, offset: 21111},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21881,27 +22216,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1199, col: 23, offset: 37001},
+																			pos: position{line: 1199, col: 23, offset: 37069},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1199, col: 23, offset: 37001},
+																				pos: position{line: 1199, col: 23, offset: 37069},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1197, col: 32, offset: 36969},
+																						pos:        position{line: 1197, col: 32, offset: 37037},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1199, col: 51, offset: 37029},
+																						pos:   position{line: 1199, col: 51, offset: 37097},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1199, col: 56, offset: 37034},
+																							pos: position{line: 1199, col: 56, offset: 37102},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1199, col: 56, offset: 37034},
+																								pos: position{line: 1199, col: 56, offset: 37102},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1199, col: 56, offset: 37034},
+																									pos:        position{line: 1199, col: 56, offset: 37102},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -21911,7 +22246,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1197, col: 32, offset: 36969},
+																						pos:        position{line: 1197, col: 32, offset: 37037},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -21920,10 +22255,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2880, col: 11, offset: 90998},
+																			pos: position{line: 2881, col: 11, offset: 91148},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2880, col: 11, offset: 90998},
+																				pos:        position{line: 2881, col: 11, offset: 91148},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -21940,7 +22275,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1417, col: 5, offset: 45615},
+									pos:        position{line: 1417, col: 5, offset: 45683},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -21949,38 +22284,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1408, col: 19, offset: 45328},
+						pos:  position{line: 1408, col: 19, offset: 45396},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1408, col: 34, offset: 45343},
+						pos:  position{line: 1408, col: 34, offset: 45411},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1446, col: 17, offset: 46608},
+						pos: position{line: 1446, col: 17, offset: 46676},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1446, col: 17, offset: 46608},
+							pos: position{line: 1446, col: 17, offset: 46676},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1446, col: 17, offset: 46608},
+									pos:   position{line: 1446, col: 17, offset: 46676},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1451, col: 5, offset: 46773},
+										pos: position{line: 1451, col: 5, offset: 46841},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1451, col: 5, offset: 46773},
+											pos: position{line: 1451, col: 5, offset: 46841},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1451, col: 5, offset: 46773},
+													pos:   position{line: 1451, col: 5, offset: 46841},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1451, col: 12, offset: 46780},
+														pos: position{line: 1451, col: 12, offset: 46848},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1451, col: 12, offset: 46780},
+															pos: position{line: 1451, col: 12, offset: 46848},
 															expr: &charClassMatcher{
-																pos:        position{line: 1451, col: 12, offset: 46780},
+																pos:        position{line: 1451, col: 12, offset: 46848},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -21992,7 +22327,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1454, col: 5, offset: 46864},
+													pos: position{line: 1454, col: 5, offset: 46932},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -22000,33 +22335,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1446, col: 43, offset: 46634},
+									pos:        position{line: 1446, col: 43, offset: 46702},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1446, col: 47, offset: 46638},
+									pos:   position{line: 1446, col: 47, offset: 46706},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1463, col: 23, offset: 47158},
+										pos: position{line: 1463, col: 23, offset: 47226},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1463, col: 23, offset: 47158},
+											pos: position{line: 1463, col: 23, offset: 47226},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1463, col: 23, offset: 47158},
+													pos:   position{line: 1463, col: 23, offset: 47226},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1463, col: 31, offset: 47166},
+														pos: position{line: 1463, col: 31, offset: 47234},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1463, col: 31, offset: 47166},
+															pos: position{line: 1463, col: 31, offset: 47234},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1463, col: 31, offset: 47166},
+																	pos: position{line: 1463, col: 31, offset: 47234},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1463, col: 31, offset: 47166},
+																		pos:        position{line: 1463, col: 31, offset: 47234},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -22034,20 +22369,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1463, col: 41, offset: 47176},
+																	pos: position{line: 1463, col: 41, offset: 47244},
 																	expr: &seqExpr{
-																		pos: position{line: 1463, col: 42, offset: 47177},
+																		pos: position{line: 1463, col: 42, offset: 47245},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1463, col: 42, offset: 47177},
+																				pos:        position{line: 1463, col: 42, offset: 47245},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1463, col: 46, offset: 47181},
+																				pos: position{line: 1463, col: 46, offset: 47249},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1463, col: 46, offset: 47181},
+																					pos:        position{line: 1463, col: 46, offset: 47249},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22063,7 +22398,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1466, col: 5, offset: 47242},
+													pos: position{line: 1466, col: 5, offset: 47310},
 													run: (*parser).callonLink145,
 												},
 											},
@@ -22078,68 +22413,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1423, col: 1, offset: 45763},
+			pos:  position{line: 1423, col: 1, offset: 45831},
 			expr: &choiceExpr{
-				pos: position{line: 1425, col: 5, offset: 45799},
+				pos: position{line: 1425, col: 5, offset: 45867},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1425, col: 5, offset: 45799},
+						pos: position{line: 1425, col: 5, offset: 45867},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1425, col: 5, offset: 45799},
+							pos: position{line: 1425, col: 5, offset: 45867},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1425, col: 5, offset: 45799},
+									pos:        position{line: 1425, col: 5, offset: 45867},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1425, col: 17, offset: 45811},
+									pos:   position{line: 1425, col: 17, offset: 45879},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2859, col: 13, offset: 90242},
+										pos: position{line: 2860, col: 13, offset: 90392},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2859, col: 13, offset: 90242},
+											pos: position{line: 2860, col: 13, offset: 90392},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2859, col: 13, offset: 90242},
+													pos:   position{line: 2860, col: 13, offset: 90392},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2859, col: 20, offset: 90249},
+														pos: position{line: 2860, col: 20, offset: 90399},
 														expr: &actionExpr{
-															pos: position{line: 2867, col: 11, offset: 90488},
+															pos: position{line: 2868, col: 11, offset: 90638},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2867, col: 12, offset: 90489},
+																pos: position{line: 2868, col: 12, offset: 90639},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2867, col: 12, offset: 90489},
+																		pos:        position{line: 2868, col: 12, offset: 90639},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2867, col: 24, offset: 90501},
+																		pos:        position{line: 2868, col: 24, offset: 90651},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2867, col: 37, offset: 90514},
+																		pos:        position{line: 2868, col: 37, offset: 90664},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2867, col: 48, offset: 90525},
+																		pos:        position{line: 2868, col: 48, offset: 90675},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2867, col: 59, offset: 90536},
+																		pos:        position{line: 2868, col: 59, offset: 90686},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22150,38 +22485,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2859, col: 30, offset: 90259},
+													pos:   position{line: 2860, col: 30, offset: 90409},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 5, offset: 90600},
+														pos: position{line: 2873, col: 5, offset: 90750},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2872, col: 5, offset: 90600},
+															pos:   position{line: 2873, col: 5, offset: 90750},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2872, col: 14, offset: 90609},
+																pos: position{line: 2873, col: 14, offset: 90759},
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 9, offset: 90619},
+																	pos: position{line: 2874, col: 9, offset: 90769},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 9, offset: 90619},
+																			pos: position{line: 2874, col: 9, offset: 90769},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2873, col: 9, offset: 90619},
+																				pos: position{line: 2874, col: 9, offset: 90769},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2873, col: 9, offset: 90619},
+																						pos: position{line: 2874, col: 9, offset: 90769},
 																						expr: &litMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90620},
+																							pos:        position{line: 2874, col: 10, offset: 90770},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2874, col: 9, offset: 90648},
+																						pos: position{line: 2875, col: 9, offset: 90798},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2874, col: 10, offset: 90649},
+																							pos:        position{line: 2875, col: 10, offset: 90799},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22192,27 +22527,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2877, col: 11, offset: 90861},
+																			pos: position{line: 2878, col: 11, offset: 91011},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2877, col: 11, offset: 90861},
+																					pos:        position{line: 2878, col: 11, offset: 91011},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2877, col: 19, offset: 90869},
+																					pos: position{line: 2878, col: 19, offset: 91019},
 																					expr: &seqExpr{
-																						pos: position{line: 2877, col: 21, offset: 90871},
+																						pos: position{line: 2878, col: 21, offset: 91021},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2877, col: 21, offset: 90871},
+																								pos: position{line: 2878, col: 21, offset: 91021},
 																								expr: &actionExpr{
-																									pos: position{line: 2901, col: 10, offset: 91483},
+																									pos: position{line: 2902, col: 10, offset: 91633},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2901, col: 10, offset: 91483},
+																										pos:        position{line: 2902, col: 10, offset: 91633},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22221,11 +22556,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2877, col: 28, offset: 90878},
+																								pos: position{line: 2878, col: 28, offset: 91028},
 																								expr: &notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -22235,35 +22570,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 637, col: 5, offset: 20136},
+																			pos: position{line: 637, col: 5, offset: 20204},
 																			run: (*parser).callonRelativeLink38,
 																			expr: &seqExpr{
-																				pos: position{line: 637, col: 5, offset: 20136},
+																				pos: position{line: 637, col: 5, offset: 20204},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 637, col: 5, offset: 20136},
+																						pos: position{line: 637, col: 5, offset: 20204},
 																						run: (*parser).callonRelativeLink40,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 640, col: 5, offset: 20208},
+																						pos:   position{line: 640, col: 5, offset: 20276},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 640, col: 14, offset: 20217},
+																							pos: position{line: 640, col: 14, offset: 20285},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 646, col: 5, offset: 20346},
+																									pos: position{line: 646, col: 5, offset: 20414},
 																									run: (*parser).callonRelativeLink43,
 																									expr: &seqExpr{
-																										pos: position{line: 646, col: 5, offset: 20346},
+																										pos: position{line: 646, col: 5, offset: 20414},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 646, col: 5, offset: 20346},
+																												pos:        position{line: 646, col: 5, offset: 20414},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 646, col: 13, offset: 20354},
+																												pos:   position{line: 646, col: 13, offset: 20422},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22295,7 +22630,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 646, col: 32, offset: 20373},
+																												pos:        position{line: 646, col: 32, offset: 20441},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22304,19 +22639,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 653, col: 5, offset: 20614},
+																									pos: position{line: 653, col: 5, offset: 20682},
 																									run: (*parser).callonRelativeLink53,
 																									expr: &seqExpr{
-																										pos: position{line: 653, col: 5, offset: 20614},
+																										pos: position{line: 653, col: 5, offset: 20682},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 653, col: 5, offset: 20614},
+																												pos:        position{line: 653, col: 5, offset: 20682},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 653, col: 9, offset: 20618},
+																												pos:   position{line: 653, col: 9, offset: 20686},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22348,7 +22683,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 653, col: 28, offset: 20637},
+																												pos:        position{line: 653, col: 28, offset: 20705},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22357,19 +22692,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 659, col: 25, offset: 20818},
+																									pos: position{line: 659, col: 25, offset: 20886},
 																									run: (*parser).callonRelativeLink63,
 																									expr: &seqExpr{
-																										pos: position{line: 659, col: 25, offset: 20818},
+																										pos: position{line: 659, col: 25, offset: 20886},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 659, col: 25, offset: 20818},
+																												pos:        position{line: 659, col: 25, offset: 20886},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 37, offset: 20830},
+																												pos:   position{line: 659, col: 37, offset: 20898},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22401,33 +22736,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 56, offset: 20849},
+																												pos:   position{line: 659, col: 56, offset: 20917},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 659, col: 62, offset: 20855},
+																													pos: position{line: 659, col: 62, offset: 20923},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21152},
+																														pos: position{line: 667, col: 17, offset: 21220},
 																														run: (*parser).callonRelativeLink74,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21152},
+																															pos: position{line: 667, col: 17, offset: 21220},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21152},
+																																	pos:        position{line: 667, col: 17, offset: 21220},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21156},
+																																	pos:   position{line: 667, col: 21, offset: 21224},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21163},
+																																		pos: position{line: 667, col: 28, offset: 21231},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21163},
+																																				pos: position{line: 667, col: 28, offset: 21231},
 																																				run: (*parser).callonRelativeLink79,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21163},
+																																					pos:        position{line: 667, col: 28, offset: 21231},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22435,12 +22770,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21217},
+																																				pos: position{line: 669, col: 9, offset: 21285},
 																																				run: (*parser).callonRelativeLink81,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21217},
+																																					pos: position{line: 669, col: 9, offset: 21285},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21217},
+																																						pos:        position{line: 669, col: 9, offset: 21285},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22457,7 +22792,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 659, col: 78, offset: 20871},
+																												pos:        position{line: 659, col: 78, offset: 20939},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22466,19 +22801,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 663, col: 25, offset: 20989},
+																									pos: position{line: 663, col: 25, offset: 21057},
 																									run: (*parser).callonRelativeLink85,
 																									expr: &seqExpr{
-																										pos: position{line: 663, col: 25, offset: 20989},
+																										pos: position{line: 663, col: 25, offset: 21057},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 663, col: 25, offset: 20989},
+																												pos:        position{line: 663, col: 25, offset: 21057},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 38, offset: 21002},
+																												pos:   position{line: 663, col: 38, offset: 21070},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22510,33 +22845,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 57, offset: 21021},
+																												pos:   position{line: 663, col: 57, offset: 21089},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 663, col: 63, offset: 21027},
+																													pos: position{line: 663, col: 63, offset: 21095},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21152},
+																														pos: position{line: 667, col: 17, offset: 21220},
 																														run: (*parser).callonRelativeLink96,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21152},
+																															pos: position{line: 667, col: 17, offset: 21220},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21152},
+																																	pos:        position{line: 667, col: 17, offset: 21220},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21156},
+																																	pos:   position{line: 667, col: 21, offset: 21224},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21163},
+																																		pos: position{line: 667, col: 28, offset: 21231},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21163},
+																																				pos: position{line: 667, col: 28, offset: 21231},
 																																				run: (*parser).callonRelativeLink101,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21163},
+																																					pos:        position{line: 667, col: 28, offset: 21231},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22544,12 +22879,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21217},
+																																				pos: position{line: 669, col: 9, offset: 21285},
 																																				run: (*parser).callonRelativeLink103,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21217},
+																																					pos: position{line: 669, col: 9, offset: 21285},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21217},
+																																						pos:        position{line: 669, col: 9, offset: 21285},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22566,7 +22901,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 663, col: 79, offset: 21043},
+																												pos:        position{line: 663, col: 79, offset: 21111},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22581,27 +22916,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1199, col: 23, offset: 37001},
+																			pos: position{line: 1199, col: 23, offset: 37069},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1199, col: 23, offset: 37001},
+																				pos: position{line: 1199, col: 23, offset: 37069},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1197, col: 32, offset: 36969},
+																						pos:        position{line: 1197, col: 32, offset: 37037},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1199, col: 51, offset: 37029},
+																						pos:   position{line: 1199, col: 51, offset: 37097},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1199, col: 56, offset: 37034},
+																							pos: position{line: 1199, col: 56, offset: 37102},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1199, col: 56, offset: 37034},
+																								pos: position{line: 1199, col: 56, offset: 37102},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1199, col: 56, offset: 37034},
+																									pos:        position{line: 1199, col: 56, offset: 37102},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22611,7 +22946,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1197, col: 32, offset: 36969},
+																						pos:        position{line: 1197, col: 32, offset: 37037},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22620,10 +22955,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2880, col: 11, offset: 90998},
+																			pos: position{line: 2881, col: 11, offset: 91148},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2880, col: 11, offset: 90998},
+																				pos:        position{line: 2881, col: 11, offset: 91148},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22640,10 +22975,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1425, col: 32, offset: 45826},
+									pos:   position{line: 1425, col: 32, offset: 45894},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1425, col: 44, offset: 45838},
+										pos:  position{line: 1425, col: 44, offset: 45906},
 										name: "InlineAttributes",
 									},
 								},
@@ -22651,63 +22986,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1430, col: 5, offset: 45970},
+						pos: position{line: 1430, col: 5, offset: 46038},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1430, col: 5, offset: 45970},
+							pos: position{line: 1430, col: 5, offset: 46038},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1430, col: 5, offset: 45970},
+									pos:        position{line: 1430, col: 5, offset: 46038},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1430, col: 13, offset: 45978},
+									pos:   position{line: 1430, col: 13, offset: 46046},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2859, col: 13, offset: 90242},
+										pos: position{line: 2860, col: 13, offset: 90392},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2859, col: 13, offset: 90242},
+											pos: position{line: 2860, col: 13, offset: 90392},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2859, col: 13, offset: 90242},
+													pos:   position{line: 2860, col: 13, offset: 90392},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2859, col: 20, offset: 90249},
+														pos: position{line: 2860, col: 20, offset: 90399},
 														expr: &actionExpr{
-															pos: position{line: 2867, col: 11, offset: 90488},
+															pos: position{line: 2868, col: 11, offset: 90638},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2867, col: 12, offset: 90489},
+																pos: position{line: 2868, col: 12, offset: 90639},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2867, col: 12, offset: 90489},
+																		pos:        position{line: 2868, col: 12, offset: 90639},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2867, col: 24, offset: 90501},
+																		pos:        position{line: 2868, col: 24, offset: 90651},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2867, col: 37, offset: 90514},
+																		pos:        position{line: 2868, col: 37, offset: 90664},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2867, col: 48, offset: 90525},
+																		pos:        position{line: 2868, col: 48, offset: 90675},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2867, col: 59, offset: 90536},
+																		pos:        position{line: 2868, col: 59, offset: 90686},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22718,38 +23053,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2859, col: 30, offset: 90259},
+													pos:   position{line: 2860, col: 30, offset: 90409},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 5, offset: 90600},
+														pos: position{line: 2873, col: 5, offset: 90750},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2872, col: 5, offset: 90600},
+															pos:   position{line: 2873, col: 5, offset: 90750},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2872, col: 14, offset: 90609},
+																pos: position{line: 2873, col: 14, offset: 90759},
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 9, offset: 90619},
+																	pos: position{line: 2874, col: 9, offset: 90769},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 9, offset: 90619},
+																			pos: position{line: 2874, col: 9, offset: 90769},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2873, col: 9, offset: 90619},
+																				pos: position{line: 2874, col: 9, offset: 90769},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2873, col: 9, offset: 90619},
+																						pos: position{line: 2874, col: 9, offset: 90769},
 																						expr: &litMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90620},
+																							pos:        position{line: 2874, col: 10, offset: 90770},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2874, col: 9, offset: 90648},
+																						pos: position{line: 2875, col: 9, offset: 90798},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2874, col: 10, offset: 90649},
+																							pos:        position{line: 2875, col: 10, offset: 90799},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22760,27 +23095,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2877, col: 11, offset: 90861},
+																			pos: position{line: 2878, col: 11, offset: 91011},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2877, col: 11, offset: 90861},
+																					pos:        position{line: 2878, col: 11, offset: 91011},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2877, col: 19, offset: 90869},
+																					pos: position{line: 2878, col: 19, offset: 91019},
 																					expr: &seqExpr{
-																						pos: position{line: 2877, col: 21, offset: 90871},
+																						pos: position{line: 2878, col: 21, offset: 91021},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2877, col: 21, offset: 90871},
+																								pos: position{line: 2878, col: 21, offset: 91021},
 																								expr: &actionExpr{
-																									pos: position{line: 2901, col: 10, offset: 91483},
+																									pos: position{line: 2902, col: 10, offset: 91633},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2901, col: 10, offset: 91483},
+																										pos:        position{line: 2902, col: 10, offset: 91633},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22789,11 +23124,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2877, col: 28, offset: 90878},
+																								pos: position{line: 2878, col: 28, offset: 91028},
 																								expr: &notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -22803,35 +23138,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 637, col: 5, offset: 20136},
+																			pos: position{line: 637, col: 5, offset: 20204},
 																			run: (*parser).callonRelativeLink155,
 																			expr: &seqExpr{
-																				pos: position{line: 637, col: 5, offset: 20136},
+																				pos: position{line: 637, col: 5, offset: 20204},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 637, col: 5, offset: 20136},
+																						pos: position{line: 637, col: 5, offset: 20204},
 																						run: (*parser).callonRelativeLink157,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 640, col: 5, offset: 20208},
+																						pos:   position{line: 640, col: 5, offset: 20276},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 640, col: 14, offset: 20217},
+																							pos: position{line: 640, col: 14, offset: 20285},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 646, col: 5, offset: 20346},
+																									pos: position{line: 646, col: 5, offset: 20414},
 																									run: (*parser).callonRelativeLink160,
 																									expr: &seqExpr{
-																										pos: position{line: 646, col: 5, offset: 20346},
+																										pos: position{line: 646, col: 5, offset: 20414},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 646, col: 5, offset: 20346},
+																												pos:        position{line: 646, col: 5, offset: 20414},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 646, col: 13, offset: 20354},
+																												pos:   position{line: 646, col: 13, offset: 20422},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22863,7 +23198,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 646, col: 32, offset: 20373},
+																												pos:        position{line: 646, col: 32, offset: 20441},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22872,19 +23207,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 653, col: 5, offset: 20614},
+																									pos: position{line: 653, col: 5, offset: 20682},
 																									run: (*parser).callonRelativeLink170,
 																									expr: &seqExpr{
-																										pos: position{line: 653, col: 5, offset: 20614},
+																										pos: position{line: 653, col: 5, offset: 20682},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 653, col: 5, offset: 20614},
+																												pos:        position{line: 653, col: 5, offset: 20682},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 653, col: 9, offset: 20618},
+																												pos:   position{line: 653, col: 9, offset: 20686},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22916,7 +23251,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 653, col: 28, offset: 20637},
+																												pos:        position{line: 653, col: 28, offset: 20705},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22925,19 +23260,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 659, col: 25, offset: 20818},
+																									pos: position{line: 659, col: 25, offset: 20886},
 																									run: (*parser).callonRelativeLink180,
 																									expr: &seqExpr{
-																										pos: position{line: 659, col: 25, offset: 20818},
+																										pos: position{line: 659, col: 25, offset: 20886},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 659, col: 25, offset: 20818},
+																												pos:        position{line: 659, col: 25, offset: 20886},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 37, offset: 20830},
+																												pos:   position{line: 659, col: 37, offset: 20898},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22969,33 +23304,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 56, offset: 20849},
+																												pos:   position{line: 659, col: 56, offset: 20917},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 659, col: 62, offset: 20855},
+																													pos: position{line: 659, col: 62, offset: 20923},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21152},
+																														pos: position{line: 667, col: 17, offset: 21220},
 																														run: (*parser).callonRelativeLink191,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21152},
+																															pos: position{line: 667, col: 17, offset: 21220},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21152},
+																																	pos:        position{line: 667, col: 17, offset: 21220},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21156},
+																																	pos:   position{line: 667, col: 21, offset: 21224},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21163},
+																																		pos: position{line: 667, col: 28, offset: 21231},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21163},
+																																				pos: position{line: 667, col: 28, offset: 21231},
 																																				run: (*parser).callonRelativeLink196,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21163},
+																																					pos:        position{line: 667, col: 28, offset: 21231},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23003,12 +23338,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21217},
+																																				pos: position{line: 669, col: 9, offset: 21285},
 																																				run: (*parser).callonRelativeLink198,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21217},
+																																					pos: position{line: 669, col: 9, offset: 21285},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21217},
+																																						pos:        position{line: 669, col: 9, offset: 21285},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23025,7 +23360,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 659, col: 78, offset: 20871},
+																												pos:        position{line: 659, col: 78, offset: 20939},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23034,19 +23369,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 663, col: 25, offset: 20989},
+																									pos: position{line: 663, col: 25, offset: 21057},
 																									run: (*parser).callonRelativeLink202,
 																									expr: &seqExpr{
-																										pos: position{line: 663, col: 25, offset: 20989},
+																										pos: position{line: 663, col: 25, offset: 21057},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 663, col: 25, offset: 20989},
+																												pos:        position{line: 663, col: 25, offset: 21057},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 38, offset: 21002},
+																												pos:   position{line: 663, col: 38, offset: 21070},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23078,33 +23413,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 57, offset: 21021},
+																												pos:   position{line: 663, col: 57, offset: 21089},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 663, col: 63, offset: 21027},
+																													pos: position{line: 663, col: 63, offset: 21095},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21152},
+																														pos: position{line: 667, col: 17, offset: 21220},
 																														run: (*parser).callonRelativeLink213,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21152},
+																															pos: position{line: 667, col: 17, offset: 21220},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21152},
+																																	pos:        position{line: 667, col: 17, offset: 21220},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21156},
+																																	pos:   position{line: 667, col: 21, offset: 21224},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21163},
+																																		pos: position{line: 667, col: 28, offset: 21231},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21163},
+																																				pos: position{line: 667, col: 28, offset: 21231},
 																																				run: (*parser).callonRelativeLink218,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21163},
+																																					pos:        position{line: 667, col: 28, offset: 21231},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23112,12 +23447,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21217},
+																																				pos: position{line: 669, col: 9, offset: 21285},
 																																				run: (*parser).callonRelativeLink220,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21217},
+																																					pos: position{line: 669, col: 9, offset: 21285},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21217},
+																																						pos:        position{line: 669, col: 9, offset: 21285},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23134,7 +23469,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 663, col: 79, offset: 21043},
+																												pos:        position{line: 663, col: 79, offset: 21111},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23149,27 +23484,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1199, col: 23, offset: 37001},
+																			pos: position{line: 1199, col: 23, offset: 37069},
 																			run: (*parser).callonRelativeLink224,
 																			expr: &seqExpr{
-																				pos: position{line: 1199, col: 23, offset: 37001},
+																				pos: position{line: 1199, col: 23, offset: 37069},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1197, col: 32, offset: 36969},
+																						pos:        position{line: 1197, col: 32, offset: 37037},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1199, col: 51, offset: 37029},
+																						pos:   position{line: 1199, col: 51, offset: 37097},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1199, col: 56, offset: 37034},
+																							pos: position{line: 1199, col: 56, offset: 37102},
 																							run: (*parser).callonRelativeLink228,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1199, col: 56, offset: 37034},
+																								pos: position{line: 1199, col: 56, offset: 37102},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1199, col: 56, offset: 37034},
+																									pos:        position{line: 1199, col: 56, offset: 37102},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23179,7 +23514,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1197, col: 32, offset: 36969},
+																						pos:        position{line: 1197, col: 32, offset: 37037},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23188,10 +23523,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2880, col: 11, offset: 90998},
+																			pos: position{line: 2881, col: 11, offset: 91148},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2880, col: 11, offset: 90998},
+																				pos:        position{line: 2881, col: 11, offset: 91148},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23208,10 +23543,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1430, col: 28, offset: 45993},
+									pos:   position{line: 1430, col: 28, offset: 46061},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1430, col: 40, offset: 46005},
+										pos:  position{line: 1430, col: 40, offset: 46073},
 										name: "InlineAttributes",
 									},
 								},
@@ -23223,75 +23558,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1434, col: 1, offset: 46121},
+			pos:  position{line: 1434, col: 1, offset: 46189},
 			expr: &choiceExpr{
-				pos: position{line: 1437, col: 5, offset: 46283},
+				pos: position{line: 1437, col: 5, offset: 46351},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1437, col: 5, offset: 46283},
+						pos: position{line: 1437, col: 5, offset: 46351},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1437, col: 5, offset: 46283},
+							pos: position{line: 1437, col: 5, offset: 46351},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1437, col: 5, offset: 46283},
+									pos:        position{line: 1437, col: 5, offset: 46351},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1437, col: 9, offset: 46287},
+									pos:   position{line: 1437, col: 9, offset: 46355},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2863, col: 23, offset: 90369},
+										pos: position{line: 2864, col: 23, offset: 90519},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2863, col: 23, offset: 90369},
+											pos: position{line: 2864, col: 23, offset: 90519},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2863, col: 23, offset: 90369},
+													pos: position{line: 2864, col: 23, offset: 90519},
 													expr: &litMatcher{
-														pos:        position{line: 2863, col: 24, offset: 90370},
+														pos:        position{line: 2864, col: 24, offset: 90520},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2863, col: 28, offset: 90374},
+													pos:   position{line: 2864, col: 28, offset: 90524},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2867, col: 11, offset: 90488},
+														pos: position{line: 2868, col: 11, offset: 90638},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2867, col: 12, offset: 90489},
+															pos: position{line: 2868, col: 12, offset: 90639},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2867, col: 12, offset: 90489},
+																	pos:        position{line: 2868, col: 12, offset: 90639},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2867, col: 24, offset: 90501},
+																	pos:        position{line: 2868, col: 24, offset: 90651},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2867, col: 37, offset: 90514},
+																	pos:        position{line: 2868, col: 37, offset: 90664},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2867, col: 48, offset: 90525},
+																	pos:        position{line: 2868, col: 48, offset: 90675},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2867, col: 59, offset: 90536},
+																	pos:        position{line: 2868, col: 59, offset: 90686},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23301,38 +23636,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2863, col: 44, offset: 90390},
+													pos:   position{line: 2864, col: 44, offset: 90540},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 5, offset: 90600},
+														pos: position{line: 2873, col: 5, offset: 90750},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2872, col: 5, offset: 90600},
+															pos:   position{line: 2873, col: 5, offset: 90750},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2872, col: 14, offset: 90609},
+																pos: position{line: 2873, col: 14, offset: 90759},
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 9, offset: 90619},
+																	pos: position{line: 2874, col: 9, offset: 90769},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 9, offset: 90619},
+																			pos: position{line: 2874, col: 9, offset: 90769},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2873, col: 9, offset: 90619},
+																				pos: position{line: 2874, col: 9, offset: 90769},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2873, col: 9, offset: 90619},
+																						pos: position{line: 2874, col: 9, offset: 90769},
 																						expr: &litMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90620},
+																							pos:        position{line: 2874, col: 10, offset: 90770},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2874, col: 9, offset: 90648},
+																						pos: position{line: 2875, col: 9, offset: 90798},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2874, col: 10, offset: 90649},
+																							pos:        position{line: 2875, col: 10, offset: 90799},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23343,27 +23678,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2877, col: 11, offset: 90861},
+																			pos: position{line: 2878, col: 11, offset: 91011},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2877, col: 11, offset: 90861},
+																					pos:        position{line: 2878, col: 11, offset: 91011},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2877, col: 19, offset: 90869},
+																					pos: position{line: 2878, col: 19, offset: 91019},
 																					expr: &seqExpr{
-																						pos: position{line: 2877, col: 21, offset: 90871},
+																						pos: position{line: 2878, col: 21, offset: 91021},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2877, col: 21, offset: 90871},
+																								pos: position{line: 2878, col: 21, offset: 91021},
 																								expr: &actionExpr{
-																									pos: position{line: 2901, col: 10, offset: 91483},
+																									pos: position{line: 2902, col: 10, offset: 91633},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2901, col: 10, offset: 91483},
+																										pos:        position{line: 2902, col: 10, offset: 91633},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23372,11 +23707,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2877, col: 28, offset: 90878},
+																								pos: position{line: 2878, col: 28, offset: 91028},
 																								expr: &notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -23386,35 +23721,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 637, col: 5, offset: 20136},
+																			pos: position{line: 637, col: 5, offset: 20204},
 																			run: (*parser).callonExternalLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 637, col: 5, offset: 20136},
+																				pos: position{line: 637, col: 5, offset: 20204},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 637, col: 5, offset: 20136},
+																						pos: position{line: 637, col: 5, offset: 20204},
 																						run: (*parser).callonExternalLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 640, col: 5, offset: 20208},
+																						pos:   position{line: 640, col: 5, offset: 20276},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 640, col: 14, offset: 20217},
+																							pos: position{line: 640, col: 14, offset: 20285},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 646, col: 5, offset: 20346},
+																									pos: position{line: 646, col: 5, offset: 20414},
 																									run: (*parser).callonExternalLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 646, col: 5, offset: 20346},
+																										pos: position{line: 646, col: 5, offset: 20414},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 646, col: 5, offset: 20346},
+																												pos:        position{line: 646, col: 5, offset: 20414},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 646, col: 13, offset: 20354},
+																												pos:   position{line: 646, col: 13, offset: 20422},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23446,7 +23781,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 646, col: 32, offset: 20373},
+																												pos:        position{line: 646, col: 32, offset: 20441},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23455,19 +23790,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 653, col: 5, offset: 20614},
+																									pos: position{line: 653, col: 5, offset: 20682},
 																									run: (*parser).callonExternalLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 653, col: 5, offset: 20614},
+																										pos: position{line: 653, col: 5, offset: 20682},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 653, col: 5, offset: 20614},
+																												pos:        position{line: 653, col: 5, offset: 20682},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 653, col: 9, offset: 20618},
+																												pos:   position{line: 653, col: 9, offset: 20686},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23499,7 +23834,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 653, col: 28, offset: 20637},
+																												pos:        position{line: 653, col: 28, offset: 20705},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23508,19 +23843,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 659, col: 25, offset: 20818},
+																									pos: position{line: 659, col: 25, offset: 20886},
 																									run: (*parser).callonExternalLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 659, col: 25, offset: 20818},
+																										pos: position{line: 659, col: 25, offset: 20886},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 659, col: 25, offset: 20818},
+																												pos:        position{line: 659, col: 25, offset: 20886},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 37, offset: 20830},
+																												pos:   position{line: 659, col: 37, offset: 20898},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23552,33 +23887,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 56, offset: 20849},
+																												pos:   position{line: 659, col: 56, offset: 20917},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 659, col: 62, offset: 20855},
+																													pos: position{line: 659, col: 62, offset: 20923},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21152},
+																														pos: position{line: 667, col: 17, offset: 21220},
 																														run: (*parser).callonExternalLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21152},
+																															pos: position{line: 667, col: 17, offset: 21220},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21152},
+																																	pos:        position{line: 667, col: 17, offset: 21220},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21156},
+																																	pos:   position{line: 667, col: 21, offset: 21224},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21163},
+																																		pos: position{line: 667, col: 28, offset: 21231},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21163},
+																																				pos: position{line: 667, col: 28, offset: 21231},
 																																				run: (*parser).callonExternalLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21163},
+																																					pos:        position{line: 667, col: 28, offset: 21231},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23586,12 +23921,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21217},
+																																				pos: position{line: 669, col: 9, offset: 21285},
 																																				run: (*parser).callonExternalLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21217},
+																																					pos: position{line: 669, col: 9, offset: 21285},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21217},
+																																						pos:        position{line: 669, col: 9, offset: 21285},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23608,7 +23943,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 659, col: 78, offset: 20871},
+																												pos:        position{line: 659, col: 78, offset: 20939},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23617,19 +23952,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 663, col: 25, offset: 20989},
+																									pos: position{line: 663, col: 25, offset: 21057},
 																									run: (*parser).callonExternalLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 663, col: 25, offset: 20989},
+																										pos: position{line: 663, col: 25, offset: 21057},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 663, col: 25, offset: 20989},
+																												pos:        position{line: 663, col: 25, offset: 21057},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 38, offset: 21002},
+																												pos:   position{line: 663, col: 38, offset: 21070},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23661,33 +23996,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 57, offset: 21021},
+																												pos:   position{line: 663, col: 57, offset: 21089},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 663, col: 63, offset: 21027},
+																													pos: position{line: 663, col: 63, offset: 21095},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21152},
+																														pos: position{line: 667, col: 17, offset: 21220},
 																														run: (*parser).callonExternalLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21152},
+																															pos: position{line: 667, col: 17, offset: 21220},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21152},
+																																	pos:        position{line: 667, col: 17, offset: 21220},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21156},
+																																	pos:   position{line: 667, col: 21, offset: 21224},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21163},
+																																		pos: position{line: 667, col: 28, offset: 21231},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21163},
+																																				pos: position{line: 667, col: 28, offset: 21231},
 																																				run: (*parser).callonExternalLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21163},
+																																					pos:        position{line: 667, col: 28, offset: 21231},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23695,12 +24030,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21217},
+																																				pos: position{line: 669, col: 9, offset: 21285},
 																																				run: (*parser).callonExternalLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21217},
+																																					pos: position{line: 669, col: 9, offset: 21285},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21217},
+																																						pos:        position{line: 669, col: 9, offset: 21285},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23717,7 +24052,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 663, col: 79, offset: 21043},
+																												pos:        position{line: 663, col: 79, offset: 21111},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23732,27 +24067,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1199, col: 23, offset: 37001},
+																			pos: position{line: 1199, col: 23, offset: 37069},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1199, col: 23, offset: 37001},
+																				pos: position{line: 1199, col: 23, offset: 37069},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1197, col: 32, offset: 36969},
+																						pos:        position{line: 1197, col: 32, offset: 37037},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1199, col: 51, offset: 37029},
+																						pos:   position{line: 1199, col: 51, offset: 37097},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1199, col: 56, offset: 37034},
+																							pos: position{line: 1199, col: 56, offset: 37102},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1199, col: 56, offset: 37034},
+																								pos: position{line: 1199, col: 56, offset: 37102},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1199, col: 56, offset: 37034},
+																									pos:        position{line: 1199, col: 56, offset: 37102},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23762,7 +24097,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1197, col: 32, offset: 36969},
+																						pos:        position{line: 1197, col: 32, offset: 37037},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23771,10 +24106,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2880, col: 11, offset: 90998},
+																			pos: position{line: 2881, col: 11, offset: 91148},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2880, col: 11, offset: 90998},
+																				pos:        position{line: 2881, col: 11, offset: 91148},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23791,12 +24126,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1437, col: 34, offset: 46312},
+									pos:   position{line: 1437, col: 34, offset: 46380},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1437, col: 45, offset: 46323},
+										pos: position{line: 1437, col: 45, offset: 46391},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1437, col: 46, offset: 46324},
+											pos:  position{line: 1437, col: 46, offset: 46392},
 											name: "InlineAttributes",
 										},
 									},
@@ -23805,64 +24140,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1442, col: 5, offset: 46457},
+						pos: position{line: 1442, col: 5, offset: 46525},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1442, col: 5, offset: 46457},
+							pos: position{line: 1442, col: 5, offset: 46525},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1442, col: 5, offset: 46457},
+									pos:   position{line: 1442, col: 5, offset: 46525},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2863, col: 23, offset: 90369},
+										pos: position{line: 2864, col: 23, offset: 90519},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2863, col: 23, offset: 90369},
+											pos: position{line: 2864, col: 23, offset: 90519},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2863, col: 23, offset: 90369},
+													pos: position{line: 2864, col: 23, offset: 90519},
 													expr: &litMatcher{
-														pos:        position{line: 2863, col: 24, offset: 90370},
+														pos:        position{line: 2864, col: 24, offset: 90520},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2863, col: 28, offset: 90374},
+													pos:   position{line: 2864, col: 28, offset: 90524},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2867, col: 11, offset: 90488},
+														pos: position{line: 2868, col: 11, offset: 90638},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2867, col: 12, offset: 90489},
+															pos: position{line: 2868, col: 12, offset: 90639},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2867, col: 12, offset: 90489},
+																	pos:        position{line: 2868, col: 12, offset: 90639},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2867, col: 24, offset: 90501},
+																	pos:        position{line: 2868, col: 24, offset: 90651},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2867, col: 37, offset: 90514},
+																	pos:        position{line: 2868, col: 37, offset: 90664},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2867, col: 48, offset: 90525},
+																	pos:        position{line: 2868, col: 48, offset: 90675},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2867, col: 59, offset: 90536},
+																	pos:        position{line: 2868, col: 59, offset: 90686},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23872,38 +24207,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2863, col: 44, offset: 90390},
+													pos:   position{line: 2864, col: 44, offset: 90540},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 5, offset: 90600},
+														pos: position{line: 2873, col: 5, offset: 90750},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2872, col: 5, offset: 90600},
+															pos:   position{line: 2873, col: 5, offset: 90750},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2872, col: 14, offset: 90609},
+																pos: position{line: 2873, col: 14, offset: 90759},
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 9, offset: 90619},
+																	pos: position{line: 2874, col: 9, offset: 90769},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 9, offset: 90619},
+																			pos: position{line: 2874, col: 9, offset: 90769},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2873, col: 9, offset: 90619},
+																				pos: position{line: 2874, col: 9, offset: 90769},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2873, col: 9, offset: 90619},
+																						pos: position{line: 2874, col: 9, offset: 90769},
 																						expr: &litMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90620},
+																							pos:        position{line: 2874, col: 10, offset: 90770},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2874, col: 9, offset: 90648},
+																						pos: position{line: 2875, col: 9, offset: 90798},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2874, col: 10, offset: 90649},
+																							pos:        position{line: 2875, col: 10, offset: 90799},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23914,27 +24249,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2877, col: 11, offset: 90861},
+																			pos: position{line: 2878, col: 11, offset: 91011},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2877, col: 11, offset: 90861},
+																					pos:        position{line: 2878, col: 11, offset: 91011},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2877, col: 19, offset: 90869},
+																					pos: position{line: 2878, col: 19, offset: 91019},
 																					expr: &seqExpr{
-																						pos: position{line: 2877, col: 21, offset: 90871},
+																						pos: position{line: 2878, col: 21, offset: 91021},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2877, col: 21, offset: 90871},
+																								pos: position{line: 2878, col: 21, offset: 91021},
 																								expr: &actionExpr{
-																									pos: position{line: 2901, col: 10, offset: 91483},
+																									pos: position{line: 2902, col: 10, offset: 91633},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2901, col: 10, offset: 91483},
+																										pos:        position{line: 2902, col: 10, offset: 91633},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23943,11 +24278,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2877, col: 28, offset: 90878},
+																								pos: position{line: 2878, col: 28, offset: 91028},
 																								expr: &notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -23957,35 +24292,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 637, col: 5, offset: 20136},
+																			pos: position{line: 637, col: 5, offset: 20204},
 																			run: (*parser).callonExternalLink157,
 																			expr: &seqExpr{
-																				pos: position{line: 637, col: 5, offset: 20136},
+																				pos: position{line: 637, col: 5, offset: 20204},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 637, col: 5, offset: 20136},
+																						pos: position{line: 637, col: 5, offset: 20204},
 																						run: (*parser).callonExternalLink159,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 640, col: 5, offset: 20208},
+																						pos:   position{line: 640, col: 5, offset: 20276},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 640, col: 14, offset: 20217},
+																							pos: position{line: 640, col: 14, offset: 20285},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 646, col: 5, offset: 20346},
+																									pos: position{line: 646, col: 5, offset: 20414},
 																									run: (*parser).callonExternalLink162,
 																									expr: &seqExpr{
-																										pos: position{line: 646, col: 5, offset: 20346},
+																										pos: position{line: 646, col: 5, offset: 20414},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 646, col: 5, offset: 20346},
+																												pos:        position{line: 646, col: 5, offset: 20414},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 646, col: 13, offset: 20354},
+																												pos:   position{line: 646, col: 13, offset: 20422},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24017,7 +24352,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 646, col: 32, offset: 20373},
+																												pos:        position{line: 646, col: 32, offset: 20441},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24026,19 +24361,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 653, col: 5, offset: 20614},
+																									pos: position{line: 653, col: 5, offset: 20682},
 																									run: (*parser).callonExternalLink172,
 																									expr: &seqExpr{
-																										pos: position{line: 653, col: 5, offset: 20614},
+																										pos: position{line: 653, col: 5, offset: 20682},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 653, col: 5, offset: 20614},
+																												pos:        position{line: 653, col: 5, offset: 20682},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 653, col: 9, offset: 20618},
+																												pos:   position{line: 653, col: 9, offset: 20686},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24070,7 +24405,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 653, col: 28, offset: 20637},
+																												pos:        position{line: 653, col: 28, offset: 20705},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24079,19 +24414,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 659, col: 25, offset: 20818},
+																									pos: position{line: 659, col: 25, offset: 20886},
 																									run: (*parser).callonExternalLink182,
 																									expr: &seqExpr{
-																										pos: position{line: 659, col: 25, offset: 20818},
+																										pos: position{line: 659, col: 25, offset: 20886},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 659, col: 25, offset: 20818},
+																												pos:        position{line: 659, col: 25, offset: 20886},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 37, offset: 20830},
+																												pos:   position{line: 659, col: 37, offset: 20898},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24123,33 +24458,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 56, offset: 20849},
+																												pos:   position{line: 659, col: 56, offset: 20917},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 659, col: 62, offset: 20855},
+																													pos: position{line: 659, col: 62, offset: 20923},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21152},
+																														pos: position{line: 667, col: 17, offset: 21220},
 																														run: (*parser).callonExternalLink193,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21152},
+																															pos: position{line: 667, col: 17, offset: 21220},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21152},
+																																	pos:        position{line: 667, col: 17, offset: 21220},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21156},
+																																	pos:   position{line: 667, col: 21, offset: 21224},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21163},
+																																		pos: position{line: 667, col: 28, offset: 21231},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21163},
+																																				pos: position{line: 667, col: 28, offset: 21231},
 																																				run: (*parser).callonExternalLink198,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21163},
+																																					pos:        position{line: 667, col: 28, offset: 21231},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24157,12 +24492,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21217},
+																																				pos: position{line: 669, col: 9, offset: 21285},
 																																				run: (*parser).callonExternalLink200,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21217},
+																																					pos: position{line: 669, col: 9, offset: 21285},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21217},
+																																						pos:        position{line: 669, col: 9, offset: 21285},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24179,7 +24514,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 659, col: 78, offset: 20871},
+																												pos:        position{line: 659, col: 78, offset: 20939},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24188,19 +24523,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 663, col: 25, offset: 20989},
+																									pos: position{line: 663, col: 25, offset: 21057},
 																									run: (*parser).callonExternalLink204,
 																									expr: &seqExpr{
-																										pos: position{line: 663, col: 25, offset: 20989},
+																										pos: position{line: 663, col: 25, offset: 21057},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 663, col: 25, offset: 20989},
+																												pos:        position{line: 663, col: 25, offset: 21057},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 38, offset: 21002},
+																												pos:   position{line: 663, col: 38, offset: 21070},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24232,33 +24567,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 57, offset: 21021},
+																												pos:   position{line: 663, col: 57, offset: 21089},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 663, col: 63, offset: 21027},
+																													pos: position{line: 663, col: 63, offset: 21095},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21152},
+																														pos: position{line: 667, col: 17, offset: 21220},
 																														run: (*parser).callonExternalLink215,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21152},
+																															pos: position{line: 667, col: 17, offset: 21220},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21152},
+																																	pos:        position{line: 667, col: 17, offset: 21220},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21156},
+																																	pos:   position{line: 667, col: 21, offset: 21224},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21163},
+																																		pos: position{line: 667, col: 28, offset: 21231},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21163},
+																																				pos: position{line: 667, col: 28, offset: 21231},
 																																				run: (*parser).callonExternalLink220,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21163},
+																																					pos:        position{line: 667, col: 28, offset: 21231},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24266,12 +24601,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21217},
+																																				pos: position{line: 669, col: 9, offset: 21285},
 																																				run: (*parser).callonExternalLink222,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21217},
+																																					pos: position{line: 669, col: 9, offset: 21285},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21217},
+																																						pos:        position{line: 669, col: 9, offset: 21285},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24288,7 +24623,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 663, col: 79, offset: 21043},
+																												pos:        position{line: 663, col: 79, offset: 21111},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24303,27 +24638,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1199, col: 23, offset: 37001},
+																			pos: position{line: 1199, col: 23, offset: 37069},
 																			run: (*parser).callonExternalLink226,
 																			expr: &seqExpr{
-																				pos: position{line: 1199, col: 23, offset: 37001},
+																				pos: position{line: 1199, col: 23, offset: 37069},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1197, col: 32, offset: 36969},
+																						pos:        position{line: 1197, col: 32, offset: 37037},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1199, col: 51, offset: 37029},
+																						pos:   position{line: 1199, col: 51, offset: 37097},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1199, col: 56, offset: 37034},
+																							pos: position{line: 1199, col: 56, offset: 37102},
 																							run: (*parser).callonExternalLink230,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1199, col: 56, offset: 37034},
+																								pos: position{line: 1199, col: 56, offset: 37102},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1199, col: 56, offset: 37034},
+																									pos:        position{line: 1199, col: 56, offset: 37102},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24333,7 +24668,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1197, col: 32, offset: 36969},
+																						pos:        position{line: 1197, col: 32, offset: 37037},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24342,10 +24677,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2880, col: 11, offset: 90998},
+																			pos: position{line: 2881, col: 11, offset: 91148},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2880, col: 11, offset: 90998},
+																				pos:        position{line: 2881, col: 11, offset: 91148},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24362,12 +24697,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1442, col: 30, offset: 46482},
+									pos:   position{line: 1442, col: 30, offset: 46550},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1442, col: 41, offset: 46493},
+										pos: position{line: 1442, col: 41, offset: 46561},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1442, col: 42, offset: 46494},
+											pos:  position{line: 1442, col: 42, offset: 46562},
 											name: "InlineAttributes",
 										},
 									},
@@ -24380,41 +24715,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1476, col: 1, offset: 47635},
+			pos:  position{line: 1476, col: 1, offset: 47703},
 			expr: &actionExpr{
-				pos: position{line: 1477, col: 5, offset: 47656},
+				pos: position{line: 1477, col: 5, offset: 47724},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1477, col: 5, offset: 47656},
+					pos: position{line: 1477, col: 5, offset: 47724},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1477, col: 5, offset: 47656},
+							pos:   position{line: 1477, col: 5, offset: 47724},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1483, col: 5, offset: 47858},
+								pos: position{line: 1483, col: 5, offset: 47926},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1576, col: 5, offset: 50792},
+										pos: position{line: 1577, col: 5, offset: 50894},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1576, col: 5, offset: 50792},
+											pos: position{line: 1577, col: 5, offset: 50894},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1576, col: 5, offset: 50792},
+													pos:   position{line: 1577, col: 5, offset: 50894},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1583, col: 5, offset: 51000},
+														pos: position{line: 1584, col: 5, offset: 51102},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1583, col: 5, offset: 51000},
+															pos: position{line: 1584, col: 5, offset: 51102},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1583, col: 5, offset: 51000},
+																	pos: position{line: 1584, col: 5, offset: 51102},
 																	expr: &actionExpr{
-																		pos: position{line: 2901, col: 10, offset: 91483},
+																		pos: position{line: 2902, col: 10, offset: 91633},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2901, col: 10, offset: 91483},
+																			pos:        position{line: 2902, col: 10, offset: 91633},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24423,27 +24758,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1583, col: 12, offset: 51007},
+																	pos:   position{line: 1584, col: 12, offset: 51109},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1585, col: 9, offset: 51070},
+																		pos: position{line: 1586, col: 9, offset: 51172},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1585, col: 9, offset: 51070},
+																				pos: position{line: 1586, col: 9, offset: 51172},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1585, col: 9, offset: 51070},
+																					pos: position{line: 1586, col: 9, offset: 51172},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1585, col: 9, offset: 51070},
+																							pos:   position{line: 1586, col: 9, offset: 51172},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1585, col: 16, offset: 51077},
+																								pos: position{line: 1586, col: 16, offset: 51179},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1585, col: 16, offset: 51077},
+																									pos: position{line: 1586, col: 16, offset: 51179},
 																									expr: &litMatcher{
-																										pos:        position{line: 1585, col: 17, offset: 51078},
+																										pos:        position{line: 1586, col: 17, offset: 51180},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24452,22 +24787,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1589, col: 9, offset: 51178},
+																							pos: position{line: 1590, col: 9, offset: 51280},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 11, offset: 51895},
+																				pos: position{line: 1609, col: 11, offset: 51997},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 11, offset: 51895},
+																					pos: position{line: 1609, col: 11, offset: 51997},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 11, offset: 51895},
+																							pos: position{line: 1609, col: 11, offset: 51997},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 12, offset: 51896},
+																								pos:        position{line: 1609, col: 12, offset: 51998},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24475,7 +24810,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 20, offset: 51904},
+																							pos:        position{line: 1609, col: 20, offset: 52006},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24484,20 +24819,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52021},
+																				pos: position{line: 1611, col: 13, offset: 52123},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52021},
+																					pos: position{line: 1611, col: 13, offset: 52123},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1610, col: 14, offset: 52022},
+																							pos:        position{line: 1611, col: 14, offset: 52124},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 21, offset: 52029},
+																							pos:        position{line: 1611, col: 21, offset: 52131},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24506,20 +24841,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 13, offset: 52149},
+																				pos: position{line: 1613, col: 13, offset: 52251},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 13, offset: 52149},
+																					pos: position{line: 1613, col: 13, offset: 52251},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1612, col: 14, offset: 52150},
+																							pos:        position{line: 1613, col: 14, offset: 52252},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 21, offset: 52157},
+																							pos:        position{line: 1613, col: 21, offset: 52259},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24528,15 +24863,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52277},
+																				pos: position{line: 1615, col: 13, offset: 52379},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52277},
+																					pos: position{line: 1615, col: 13, offset: 52379},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1614, col: 13, offset: 52277},
+																							pos: position{line: 1615, col: 13, offset: 52379},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1614, col: 14, offset: 52278},
+																								pos:        position{line: 1615, col: 14, offset: 52380},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -24544,7 +24879,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 26, offset: 52290},
+																							pos:        position{line: 1615, col: 26, offset: 52392},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24553,15 +24888,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52410},
+																				pos: position{line: 1617, col: 13, offset: 52512},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52410},
+																					pos: position{line: 1617, col: 13, offset: 52512},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1616, col: 13, offset: 52410},
+																							pos: position{line: 1617, col: 13, offset: 52512},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1616, col: 14, offset: 52411},
+																								pos:        position{line: 1617, col: 14, offset: 52513},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -24569,7 +24904,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 26, offset: 52423},
+																							pos:        position{line: 1617, col: 26, offset: 52525},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24581,12 +24916,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2905, col: 11, offset: 91544},
+																	pos: position{line: 2906, col: 11, offset: 91694},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2905, col: 11, offset: 91544},
+																		pos: position{line: 2906, col: 11, offset: 91694},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 11, offset: 91544},
+																			pos:        position{line: 2906, col: 11, offset: 91694},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24599,26 +24934,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1577, col: 5, offset: 50831},
+													pos:   position{line: 1578, col: 5, offset: 50933},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1524, col: 5, offset: 49298},
+														pos: position{line: 1524, col: 5, offset: 49366},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1524, col: 5, offset: 49298},
+															pos: position{line: 1524, col: 5, offset: 49366},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1524, col: 5, offset: 49298},
+																	pos:   position{line: 1524, col: 5, offset: 49366},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1524, col: 14, offset: 49307},
+																		pos: position{line: 1524, col: 14, offset: 49375},
 																		expr: &actionExpr{
-																			pos: position{line: 1524, col: 15, offset: 49308},
+																			pos: position{line: 1524, col: 15, offset: 49376},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1524, col: 15, offset: 49308},
+																				pos: position{line: 1524, col: 15, offset: 49376},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1524, col: 15, offset: 49308},
+																					pos:        position{line: 1524, col: 15, offset: 49376},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24629,28 +24964,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2923, col: 8, offset: 91881},
+																	pos: position{line: 2924, col: 8, offset: 92031},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2910, col: 12, offset: 91654},
+																			pos: position{line: 2911, col: 12, offset: 91804},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2910, col: 13, offset: 91655},
+																				pos: position{line: 2911, col: 13, offset: 91805},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91655},
+																						pos:        position{line: 2911, col: 13, offset: 91805},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 20, offset: 91662},
+																						pos:        position{line: 2911, col: 20, offset: 91812},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 29, offset: 91671},
+																						pos:        position{line: 2911, col: 29, offset: 91821},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24659,9 +24994,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2920, col: 8, offset: 91831},
+																			pos: position{line: 2921, col: 8, offset: 91981},
 																			expr: &anyMatcher{
-																				line: 2920, col: 9, offset: 91832,
+																				line: 2921, col: 9, offset: 91982,
 																			},
 																		},
 																	},
@@ -24674,27 +25009,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1626, col: 5, offset: 52689},
+										pos: position{line: 1627, col: 5, offset: 52791},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1626, col: 5, offset: 52689},
+											pos: position{line: 1627, col: 5, offset: 52791},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1626, col: 5, offset: 52689},
+													pos:   position{line: 1627, col: 5, offset: 52791},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1633, col: 5, offset: 52962},
+														pos: position{line: 1634, col: 5, offset: 53064},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1633, col: 5, offset: 52962},
+															pos: position{line: 1634, col: 5, offset: 53064},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1633, col: 5, offset: 52962},
+																	pos: position{line: 1634, col: 5, offset: 53064},
 																	expr: &actionExpr{
-																		pos: position{line: 2901, col: 10, offset: 91483},
+																		pos: position{line: 2902, col: 10, offset: 91633},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2901, col: 10, offset: 91483},
+																			pos:        position{line: 2902, col: 10, offset: 91633},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24703,24 +25038,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1634, col: 5, offset: 52974},
+																	pos:   position{line: 1635, col: 5, offset: 53076},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1635, col: 9, offset: 52990},
+																		pos: position{line: 1636, col: 9, offset: 53092},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1635, col: 10, offset: 52991},
+																			pos: position{line: 1636, col: 10, offset: 53093},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1635, col: 11, offset: 52992},
+																					pos:        position{line: 1636, col: 11, offset: 53094},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1635, col: 18, offset: 52999},
+																					pos: position{line: 1636, col: 18, offset: 53101},
 																					expr: &litMatcher{
-																						pos:        position{line: 1635, col: 19, offset: 53000},
+																						pos:        position{line: 1636, col: 19, offset: 53102},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -24731,16 +25066,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1638, col: 7, offset: 53090},
+																	pos: position{line: 1639, col: 7, offset: 53192},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2905, col: 11, offset: 91544},
+																	pos: position{line: 2906, col: 11, offset: 91694},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2905, col: 11, offset: 91544},
+																		pos: position{line: 2906, col: 11, offset: 91694},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 11, offset: 91544},
+																			pos:        position{line: 2906, col: 11, offset: 91694},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24753,56 +25088,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1627, col: 5, offset: 52730},
+													pos:   position{line: 1628, col: 5, offset: 52832},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1627, col: 16, offset: 52741},
+														pos: position{line: 1628, col: 16, offset: 52843},
 														expr: &actionExpr{
-															pos: position{line: 1648, col: 5, offset: 53355},
+															pos: position{line: 1649, col: 5, offset: 53457},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1648, col: 5, offset: 53355},
+																pos: position{line: 1649, col: 5, offset: 53457},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1648, col: 5, offset: 53355},
+																		pos: position{line: 1649, col: 5, offset: 53457},
 																		expr: &litMatcher{
-																			pos:        position{line: 1648, col: 6, offset: 53356},
+																			pos:        position{line: 1649, col: 6, offset: 53458},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1648, col: 10, offset: 53360},
+																		pos:   position{line: 1649, col: 10, offset: 53462},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1649, col: 7, offset: 53374},
+																			pos: position{line: 1650, col: 7, offset: 53476},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1649, col: 7, offset: 53374},
+																					pos: position{line: 1650, col: 7, offset: 53476},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1649, col: 7, offset: 53374},
+																						pos:        position{line: 1650, col: 7, offset: 53476},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1650, col: 7, offset: 53419},
+																					pos: position{line: 1651, col: 7, offset: 53521},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1650, col: 7, offset: 53419},
+																						pos:        position{line: 1651, col: 7, offset: 53521},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1651, col: 7, offset: 53462},
+																					pos: position{line: 1652, col: 7, offset: 53564},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1651, col: 7, offset: 53462},
+																						pos:        position{line: 1652, col: 7, offset: 53564},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -24812,12 +25147,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2905, col: 11, offset: 91544},
+																		pos: position{line: 2906, col: 11, offset: 91694},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2905, col: 11, offset: 91544},
+																			pos: position{line: 2906, col: 11, offset: 91694},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2905, col: 11, offset: 91544},
+																				pos:        position{line: 2906, col: 11, offset: 91694},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -24831,26 +25166,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1628, col: 5, offset: 52780},
+													pos:   position{line: 1629, col: 5, offset: 52882},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1524, col: 5, offset: 49298},
+														pos: position{line: 1524, col: 5, offset: 49366},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1524, col: 5, offset: 49298},
+															pos: position{line: 1524, col: 5, offset: 49366},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1524, col: 5, offset: 49298},
+																	pos:   position{line: 1524, col: 5, offset: 49366},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1524, col: 14, offset: 49307},
+																		pos: position{line: 1524, col: 14, offset: 49375},
 																		expr: &actionExpr{
-																			pos: position{line: 1524, col: 15, offset: 49308},
+																			pos: position{line: 1524, col: 15, offset: 49376},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1524, col: 15, offset: 49308},
+																				pos: position{line: 1524, col: 15, offset: 49376},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1524, col: 15, offset: 49308},
+																					pos:        position{line: 1524, col: 15, offset: 49376},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24861,28 +25196,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2923, col: 8, offset: 91881},
+																	pos: position{line: 2924, col: 8, offset: 92031},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2910, col: 12, offset: 91654},
+																			pos: position{line: 2911, col: 12, offset: 91804},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2910, col: 13, offset: 91655},
+																				pos: position{line: 2911, col: 13, offset: 91805},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91655},
+																						pos:        position{line: 2911, col: 13, offset: 91805},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 20, offset: 91662},
+																						pos:        position{line: 2911, col: 20, offset: 91812},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 29, offset: 91671},
+																						pos:        position{line: 2911, col: 29, offset: 91821},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24891,9 +25226,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2920, col: 8, offset: 91831},
+																			pos: position{line: 2921, col: 8, offset: 91981},
 																			expr: &anyMatcher{
-																				line: 2920, col: 9, offset: 91832,
+																				line: 2921, col: 9, offset: 91982,
 																			},
 																		},
 																	},
@@ -24906,36 +25241,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1716, col: 5, offset: 55302},
+										pos: position{line: 1717, col: 5, offset: 55404},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1716, col: 5, offset: 55302},
+											pos: position{line: 1717, col: 5, offset: 55404},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1716, col: 5, offset: 55302},
+													pos:   position{line: 1717, col: 5, offset: 55404},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1722, col: 5, offset: 55499},
+														pos: position{line: 1723, col: 5, offset: 55601},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1722, col: 5, offset: 55499},
+															pos: position{line: 1723, col: 5, offset: 55601},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1722, col: 5, offset: 55499},
+																	pos:        position{line: 1723, col: 5, offset: 55601},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1722, col: 9, offset: 55503},
+																	pos:   position{line: 1723, col: 9, offset: 55605},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1722, col: 14, offset: 55508},
+																		pos: position{line: 1723, col: 14, offset: 55610},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1722, col: 14, offset: 55508},
+																			pos: position{line: 1723, col: 14, offset: 55610},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1722, col: 14, offset: 55508},
+																				pos:        position{line: 1723, col: 14, offset: 55610},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -24945,18 +25280,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1722, col: 62, offset: 55556},
+																	pos:        position{line: 1723, col: 62, offset: 55658},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2905, col: 11, offset: 91544},
+																	pos: position{line: 2906, col: 11, offset: 91694},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2905, col: 11, offset: 91544},
+																		pos: position{line: 2906, col: 11, offset: 91694},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 11, offset: 91544},
+																			pos:        position{line: 2906, col: 11, offset: 91694},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24969,26 +25304,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1717, col: 5, offset: 55338},
+													pos:   position{line: 1718, col: 5, offset: 55440},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1524, col: 5, offset: 49298},
+														pos: position{line: 1524, col: 5, offset: 49366},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1524, col: 5, offset: 49298},
+															pos: position{line: 1524, col: 5, offset: 49366},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1524, col: 5, offset: 49298},
+																	pos:   position{line: 1524, col: 5, offset: 49366},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1524, col: 14, offset: 49307},
+																		pos: position{line: 1524, col: 14, offset: 49375},
 																		expr: &actionExpr{
-																			pos: position{line: 1524, col: 15, offset: 49308},
+																			pos: position{line: 1524, col: 15, offset: 49376},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1524, col: 15, offset: 49308},
+																				pos: position{line: 1524, col: 15, offset: 49376},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1524, col: 15, offset: 49308},
+																					pos:        position{line: 1524, col: 15, offset: 49376},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24999,28 +25334,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2923, col: 8, offset: 91881},
+																	pos: position{line: 2924, col: 8, offset: 92031},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2910, col: 12, offset: 91654},
+																			pos: position{line: 2911, col: 12, offset: 91804},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2910, col: 13, offset: 91655},
+																				pos: position{line: 2911, col: 13, offset: 91805},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91655},
+																						pos:        position{line: 2911, col: 13, offset: 91805},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 20, offset: 91662},
+																						pos:        position{line: 2911, col: 20, offset: 91812},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 29, offset: 91671},
+																						pos:        position{line: 2911, col: 29, offset: 91821},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25029,9 +25364,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2920, col: 8, offset: 91831},
+																			pos: position{line: 2921, col: 8, offset: 91981},
 																			expr: &anyMatcher{
-																				line: 2920, col: 9, offset: 91832,
+																				line: 2921, col: 9, offset: 91982,
 																			},
 																		},
 																	},
@@ -25044,40 +25379,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1660, col: 5, offset: 53655},
+										pos: position{line: 1661, col: 5, offset: 53757},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1660, col: 5, offset: 53655},
+											pos: position{line: 1661, col: 5, offset: 53757},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1660, col: 5, offset: 53655},
+													pos:   position{line: 1661, col: 5, offset: 53757},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1668, col: 5, offset: 53981},
+														pos: position{line: 1669, col: 5, offset: 54083},
 														run: (*parser).callonListElements148,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1668, col: 5, offset: 53981},
+															pos: position{line: 1669, col: 5, offset: 54083},
 															expr: &seqExpr{
-																pos: position{line: 1668, col: 6, offset: 53982},
+																pos: position{line: 1669, col: 6, offset: 54084},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1668, col: 6, offset: 53982},
+																		pos: position{line: 1669, col: 6, offset: 54084},
 																		expr: &actionExpr{
-																			pos: position{line: 1673, col: 5, offset: 54132},
+																			pos: position{line: 1674, col: 5, offset: 54234},
 																			run: (*parser).callonListElements152,
 																			expr: &seqExpr{
-																				pos: position{line: 1673, col: 5, offset: 54132},
+																				pos: position{line: 1674, col: 5, offset: 54234},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1673, col: 5, offset: 54132},
+																						pos:   position{line: 1674, col: 5, offset: 54234},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1673, col: 16, offset: 54143},
+																							pos: position{line: 1674, col: 16, offset: 54245},
 																							run: (*parser).callonListElements155,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1673, col: 16, offset: 54143},
+																								pos: position{line: 1674, col: 16, offset: 54245},
 																								expr: &litMatcher{
-																									pos:        position{line: 1673, col: 17, offset: 54144},
+																									pos:        position{line: 1674, col: 17, offset: 54246},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -25086,7 +25421,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1676, col: 5, offset: 54201},
+																						pos: position{line: 1677, col: 5, offset: 54303},
 																						run: (*parser).callonListElements158,
 																					},
 																				},
@@ -25094,30 +25429,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1668, col: 35, offset: 54011},
+																		pos: position{line: 1669, col: 35, offset: 54113},
 																		expr: &choiceExpr{
-																			pos: position{line: 2923, col: 8, offset: 91881},
+																			pos: position{line: 2924, col: 8, offset: 92031},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2910, col: 12, offset: 91654},
+																					pos: position{line: 2911, col: 12, offset: 91804},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2910, col: 13, offset: 91655},
+																						pos: position{line: 2911, col: 13, offset: 91805},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 13, offset: 91655},
+																								pos:        position{line: 2911, col: 13, offset: 91805},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 20, offset: 91662},
+																								pos:        position{line: 2911, col: 20, offset: 91812},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 29, offset: 91671},
+																								pos:        position{line: 2911, col: 29, offset: 91821},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25126,16 +25461,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1668, col: 40, offset: 54016,
+																		line: 1669, col: 40, offset: 54118,
 																	},
 																},
 															},
@@ -25143,24 +25478,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1661, col: 5, offset: 53690},
+													pos:   position{line: 1662, col: 5, offset: 53792},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1673, col: 5, offset: 54132},
+														pos: position{line: 1674, col: 5, offset: 54234},
 														run: (*parser).callonListElements170,
 														expr: &seqExpr{
-															pos: position{line: 1673, col: 5, offset: 54132},
+															pos: position{line: 1674, col: 5, offset: 54234},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1673, col: 5, offset: 54132},
+																	pos:   position{line: 1674, col: 5, offset: 54234},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1673, col: 16, offset: 54143},
+																		pos: position{line: 1674, col: 16, offset: 54245},
 																		run: (*parser).callonListElements173,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1673, col: 16, offset: 54143},
+																			pos: position{line: 1674, col: 16, offset: 54245},
 																			expr: &litMatcher{
-																				pos:        position{line: 1673, col: 17, offset: 54144},
+																				pos:        position{line: 1674, col: 17, offset: 54246},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25169,7 +25504,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1676, col: 5, offset: 54201},
+																	pos: position{line: 1677, col: 5, offset: 54303},
 																	run: (*parser).callonListElements176,
 																},
 															},
@@ -25177,24 +25512,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1662, col: 5, offset: 53735},
+													pos:   position{line: 1663, col: 5, offset: 53837},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1684, col: 5, offset: 54450},
+														pos: position{line: 1685, col: 5, offset: 54552},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1686, col: 9, offset: 54516},
+																pos: position{line: 1687, col: 9, offset: 54618},
 																run: (*parser).callonListElements179,
 																expr: &seqExpr{
-																	pos: position{line: 1686, col: 9, offset: 54516},
+																	pos: position{line: 1687, col: 9, offset: 54618},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1686, col: 9, offset: 54516},
+																			pos: position{line: 1687, col: 9, offset: 54618},
 																			expr: &actionExpr{
-																				pos: position{line: 2901, col: 10, offset: 91483},
+																				pos: position{line: 2902, col: 10, offset: 91633},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2901, col: 10, offset: 91483},
+																					pos:        position{line: 2902, col: 10, offset: 91633},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25203,28 +25538,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2923, col: 8, offset: 91881},
+																			pos: position{line: 2924, col: 8, offset: 92031},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2910, col: 12, offset: 91654},
+																					pos: position{line: 2911, col: 12, offset: 91804},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2910, col: 13, offset: 91655},
+																						pos: position{line: 2911, col: 13, offset: 91805},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 13, offset: 91655},
+																								pos:        position{line: 2911, col: 13, offset: 91805},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 20, offset: 91662},
+																								pos:        position{line: 2911, col: 20, offset: 91812},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 29, offset: 91671},
+																								pos:        position{line: 2911, col: 29, offset: 91821},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25233,34 +25568,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1687, col: 9, offset: 54535},
+																			pos: position{line: 1688, col: 9, offset: 54637},
 																			expr: &actionExpr{
-																				pos: position{line: 678, col: 14, offset: 21518},
+																				pos: position{line: 678, col: 14, offset: 21586},
 																				run: (*parser).callonListElements193,
 																				expr: &seqExpr{
-																					pos: position{line: 678, col: 14, offset: 21518},
+																					pos: position{line: 678, col: 14, offset: 21586},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2918, col: 11, offset: 91817},
+																							pos: position{line: 2919, col: 11, offset: 91967},
 																							expr: &anyMatcher{
-																								line: 2918, col: 13, offset: 91819,
+																								line: 2919, col: 13, offset: 91969,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 678, col: 21, offset: 21525},
+																							pos: position{line: 678, col: 21, offset: 21593},
 																							expr: &actionExpr{
-																								pos: position{line: 2901, col: 10, offset: 91483},
+																								pos: position{line: 2902, col: 10, offset: 91633},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2901, col: 10, offset: 91483},
+																									pos:        position{line: 2902, col: 10, offset: 91633},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25269,28 +25604,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25299,9 +25634,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -25314,18 +25649,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1693, col: 9, offset: 54664},
+																pos: position{line: 1694, col: 9, offset: 54766},
 																run: (*parser).callonListElements208,
 																expr: &seqExpr{
-																	pos: position{line: 1693, col: 9, offset: 54664},
+																	pos: position{line: 1694, col: 9, offset: 54766},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 11, offset: 91544},
+																			pos: position{line: 2906, col: 11, offset: 91694},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2905, col: 11, offset: 91544},
+																				pos: position{line: 2906, col: 11, offset: 91694},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2905, col: 11, offset: 91544},
+																					pos:        position{line: 2906, col: 11, offset: 91694},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25334,15 +25669,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1694, col: 9, offset: 54737},
+																			pos:   position{line: 1695, col: 9, offset: 54839},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1694, col: 18, offset: 54746},
+																				pos: position{line: 1695, col: 18, offset: 54848},
 																				run: (*parser).callonListElements214,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1694, col: 18, offset: 54746},
+																					pos: position{line: 1695, col: 18, offset: 54848},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1694, col: 18, offset: 54746},
+																						pos:        position{line: 1695, col: 18, offset: 54848},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25352,28 +25687,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2923, col: 8, offset: 91881},
+																			pos: position{line: 2924, col: 8, offset: 92031},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2910, col: 12, offset: 91654},
+																					pos: position{line: 2911, col: 12, offset: 91804},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2910, col: 13, offset: 91655},
+																						pos: position{line: 2911, col: 13, offset: 91805},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 13, offset: 91655},
+																								pos:        position{line: 2911, col: 13, offset: 91805},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 20, offset: 91662},
+																								pos:        position{line: 2911, col: 20, offset: 91812},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 29, offset: 91671},
+																								pos:        position{line: 2911, col: 29, offset: 91821},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25382,9 +25717,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
@@ -25402,10 +25737,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1478, col: 5, offset: 47687},
+							pos:   position{line: 1478, col: 5, offset: 47755},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1478, col: 20, offset: 47702},
+								pos:  position{line: 1478, col: 20, offset: 47770},
 								name: "ExtraListElements",
 							},
 						},
@@ -25415,17 +25750,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1488, col: 1, offset: 47957},
+			pos:  position{line: 1488, col: 1, offset: 48025},
 			expr: &actionExpr{
-				pos: position{line: 1488, col: 22, offset: 47978},
+				pos: position{line: 1488, col: 22, offset: 48046},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1488, col: 22, offset: 47978},
+					pos:   position{line: 1488, col: 22, offset: 48046},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1488, col: 31, offset: 47987},
+						pos: position{line: 1488, col: 31, offset: 48055},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1488, col: 32, offset: 47988},
+							pos:  position{line: 1488, col: 32, offset: 48056},
 							name: "ExtraListElement",
 						},
 					},
@@ -25434,52 +25769,52 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1492, col: 1, offset: 48068},
+			pos:  position{line: 1492, col: 1, offset: 48136},
 			expr: &actionExpr{
-				pos: position{line: 1493, col: 5, offset: 48207},
+				pos: position{line: 1493, col: 5, offset: 48275},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1493, col: 5, offset: 48207},
+					pos: position{line: 1493, col: 5, offset: 48275},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2918, col: 11, offset: 91817},
+							pos: position{line: 2919, col: 11, offset: 91967},
 							expr: &anyMatcher{
-								line: 2918, col: 13, offset: 91819,
+								line: 2919, col: 13, offset: 91969,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1494, col: 5, offset: 48219},
+							pos:   position{line: 1494, col: 5, offset: 48287},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1495, col: 9, offset: 48237},
+								pos: position{line: 1495, col: 9, offset: 48305},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1495, col: 13, offset: 48241},
+										pos: position{line: 1495, col: 13, offset: 48309},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1495, col: 13, offset: 48241},
+											pos: position{line: 1495, col: 13, offset: 48309},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1495, col: 13, offset: 48241},
+													pos: position{line: 1495, col: 13, offset: 48309},
 													expr: &actionExpr{
-														pos: position{line: 678, col: 14, offset: 21518},
+														pos: position{line: 678, col: 14, offset: 21586},
 														run: (*parser).callonExtraListElement10,
 														expr: &seqExpr{
-															pos: position{line: 678, col: 14, offset: 21518},
+															pos: position{line: 678, col: 14, offset: 21586},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2918, col: 11, offset: 91817},
+																	pos: position{line: 2919, col: 11, offset: 91967},
 																	expr: &anyMatcher{
-																		line: 2918, col: 13, offset: 91819,
+																		line: 2919, col: 13, offset: 91969,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 678, col: 21, offset: 21525},
+																	pos: position{line: 678, col: 21, offset: 21593},
 																	expr: &actionExpr{
-																		pos: position{line: 2901, col: 10, offset: 91483},
+																		pos: position{line: 2902, col: 10, offset: 91633},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2901, col: 10, offset: 91483},
+																			pos:        position{line: 2902, col: 10, offset: 91633},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25488,28 +25823,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2923, col: 8, offset: 91881},
+																	pos: position{line: 2924, col: 8, offset: 92031},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2910, col: 12, offset: 91654},
+																			pos: position{line: 2911, col: 12, offset: 91804},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2910, col: 13, offset: 91655},
+																				pos: position{line: 2911, col: 13, offset: 91805},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91655},
+																						pos:        position{line: 2911, col: 13, offset: 91805},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 20, offset: 91662},
+																						pos:        position{line: 2911, col: 20, offset: 91812},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 29, offset: 91671},
+																						pos:        position{line: 2911, col: 29, offset: 91821},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25518,9 +25853,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2920, col: 8, offset: 91831},
+																			pos: position{line: 2921, col: 8, offset: 91981},
 																			expr: &anyMatcher{
-																				line: 2920, col: 9, offset: 91832,
+																				line: 2921, col: 9, offset: 91982,
 																			},
 																		},
 																	},
@@ -25530,33 +25865,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1496, col: 13, offset: 48265},
+													pos:   position{line: 1496, col: 13, offset: 48333},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1496, col: 22, offset: 48274},
+														pos: position{line: 1496, col: 22, offset: 48342},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1576, col: 5, offset: 50792},
+																pos: position{line: 1577, col: 5, offset: 50894},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1576, col: 5, offset: 50792},
+																	pos: position{line: 1577, col: 5, offset: 50894},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1576, col: 5, offset: 50792},
+																			pos:   position{line: 1577, col: 5, offset: 50894},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1583, col: 5, offset: 51000},
+																				pos: position{line: 1584, col: 5, offset: 51102},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1583, col: 5, offset: 51000},
+																					pos: position{line: 1584, col: 5, offset: 51102},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1583, col: 5, offset: 51000},
+																							pos: position{line: 1584, col: 5, offset: 51102},
 																							expr: &actionExpr{
-																								pos: position{line: 2901, col: 10, offset: 91483},
+																								pos: position{line: 2902, col: 10, offset: 91633},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2901, col: 10, offset: 91483},
+																									pos:        position{line: 2902, col: 10, offset: 91633},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25565,27 +25900,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1583, col: 12, offset: 51007},
+																							pos:   position{line: 1584, col: 12, offset: 51109},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1585, col: 9, offset: 51070},
+																								pos: position{line: 1586, col: 9, offset: 51172},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1585, col: 9, offset: 51070},
+																										pos: position{line: 1586, col: 9, offset: 51172},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1585, col: 9, offset: 51070},
+																											pos: position{line: 1586, col: 9, offset: 51172},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1585, col: 9, offset: 51070},
+																													pos:   position{line: 1586, col: 9, offset: 51172},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1585, col: 16, offset: 51077},
+																														pos: position{line: 1586, col: 16, offset: 51179},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1585, col: 16, offset: 51077},
+																															pos: position{line: 1586, col: 16, offset: 51179},
 																															expr: &litMatcher{
-																																pos:        position{line: 1585, col: 17, offset: 51078},
+																																pos:        position{line: 1586, col: 17, offset: 51180},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -25594,22 +25929,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1589, col: 9, offset: 51178},
+																													pos: position{line: 1590, col: 9, offset: 51280},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1608, col: 11, offset: 51895},
+																										pos: position{line: 1609, col: 11, offset: 51997},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1608, col: 11, offset: 51895},
+																											pos: position{line: 1609, col: 11, offset: 51997},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1608, col: 11, offset: 51895},
+																													pos: position{line: 1609, col: 11, offset: 51997},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1608, col: 12, offset: 51896},
+																														pos:        position{line: 1609, col: 12, offset: 51998},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -25617,7 +25952,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1608, col: 20, offset: 51904},
+																													pos:        position{line: 1609, col: 20, offset: 52006},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25626,20 +25961,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1610, col: 13, offset: 52021},
+																										pos: position{line: 1611, col: 13, offset: 52123},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 13, offset: 52021},
+																											pos: position{line: 1611, col: 13, offset: 52123},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1610, col: 14, offset: 52022},
+																													pos:        position{line: 1611, col: 14, offset: 52124},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1610, col: 21, offset: 52029},
+																													pos:        position{line: 1611, col: 21, offset: 52131},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25648,20 +25983,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1612, col: 13, offset: 52149},
+																										pos: position{line: 1613, col: 13, offset: 52251},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1612, col: 13, offset: 52149},
+																											pos: position{line: 1613, col: 13, offset: 52251},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1612, col: 14, offset: 52150},
+																													pos:        position{line: 1613, col: 14, offset: 52252},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1612, col: 21, offset: 52157},
+																													pos:        position{line: 1613, col: 21, offset: 52259},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25670,15 +26005,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1614, col: 13, offset: 52277},
+																										pos: position{line: 1615, col: 13, offset: 52379},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1614, col: 13, offset: 52277},
+																											pos: position{line: 1615, col: 13, offset: 52379},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1614, col: 13, offset: 52277},
+																													pos: position{line: 1615, col: 13, offset: 52379},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1614, col: 14, offset: 52278},
+																														pos:        position{line: 1615, col: 14, offset: 52380},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -25686,7 +26021,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1614, col: 26, offset: 52290},
+																													pos:        position{line: 1615, col: 26, offset: 52392},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25695,15 +26030,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1616, col: 13, offset: 52410},
+																										pos: position{line: 1617, col: 13, offset: 52512},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1616, col: 13, offset: 52410},
+																											pos: position{line: 1617, col: 13, offset: 52512},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1616, col: 13, offset: 52410},
+																													pos: position{line: 1617, col: 13, offset: 52512},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1616, col: 14, offset: 52411},
+																														pos:        position{line: 1617, col: 14, offset: 52513},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -25711,7 +26046,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1616, col: 26, offset: 52423},
+																													pos:        position{line: 1617, col: 26, offset: 52525},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25723,12 +26058,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2905, col: 11, offset: 91544},
+																							pos: position{line: 2906, col: 11, offset: 91694},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2905, col: 11, offset: 91544},
+																								pos: position{line: 2906, col: 11, offset: 91694},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 11, offset: 91544},
+																									pos:        position{line: 2906, col: 11, offset: 91694},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25741,26 +26076,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1577, col: 5, offset: 50831},
+																			pos:   position{line: 1578, col: 5, offset: 50933},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1524, col: 5, offset: 49298},
+																				pos: position{line: 1524, col: 5, offset: 49366},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1524, col: 5, offset: 49298},
+																					pos: position{line: 1524, col: 5, offset: 49366},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1524, col: 5, offset: 49298},
+																							pos:   position{line: 1524, col: 5, offset: 49366},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1524, col: 14, offset: 49307},
+																								pos: position{line: 1524, col: 14, offset: 49375},
 																								expr: &actionExpr{
-																									pos: position{line: 1524, col: 15, offset: 49308},
+																									pos: position{line: 1524, col: 15, offset: 49376},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1524, col: 15, offset: 49308},
+																										pos: position{line: 1524, col: 15, offset: 49376},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1524, col: 15, offset: 49308},
+																											pos:        position{line: 1524, col: 15, offset: 49376},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25771,28 +26106,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25801,9 +26136,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -25816,27 +26151,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1626, col: 5, offset: 52689},
+																pos: position{line: 1627, col: 5, offset: 52791},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1626, col: 5, offset: 52689},
+																	pos: position{line: 1627, col: 5, offset: 52791},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1626, col: 5, offset: 52689},
+																			pos:   position{line: 1627, col: 5, offset: 52791},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1633, col: 5, offset: 52962},
+																				pos: position{line: 1634, col: 5, offset: 53064},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1633, col: 5, offset: 52962},
+																					pos: position{line: 1634, col: 5, offset: 53064},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1633, col: 5, offset: 52962},
+																							pos: position{line: 1634, col: 5, offset: 53064},
 																							expr: &actionExpr{
-																								pos: position{line: 2901, col: 10, offset: 91483},
+																								pos: position{line: 2902, col: 10, offset: 91633},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2901, col: 10, offset: 91483},
+																									pos:        position{line: 2902, col: 10, offset: 91633},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25845,24 +26180,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1634, col: 5, offset: 52974},
+																							pos:   position{line: 1635, col: 5, offset: 53076},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1635, col: 9, offset: 52990},
+																								pos: position{line: 1636, col: 9, offset: 53092},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1635, col: 10, offset: 52991},
+																									pos: position{line: 1636, col: 10, offset: 53093},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1635, col: 11, offset: 52992},
+																											pos:        position{line: 1636, col: 11, offset: 53094},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1635, col: 18, offset: 52999},
+																											pos: position{line: 1636, col: 18, offset: 53101},
 																											expr: &litMatcher{
-																												pos:        position{line: 1635, col: 19, offset: 53000},
+																												pos:        position{line: 1636, col: 19, offset: 53102},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -25873,16 +26208,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1638, col: 7, offset: 53090},
+																							pos: position{line: 1639, col: 7, offset: 53192},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2905, col: 11, offset: 91544},
+																							pos: position{line: 2906, col: 11, offset: 91694},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2905, col: 11, offset: 91544},
+																								pos: position{line: 2906, col: 11, offset: 91694},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 11, offset: 91544},
+																									pos:        position{line: 2906, col: 11, offset: 91694},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25895,56 +26230,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1627, col: 5, offset: 52730},
+																			pos:   position{line: 1628, col: 5, offset: 52832},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1627, col: 16, offset: 52741},
+																				pos: position{line: 1628, col: 16, offset: 52843},
 																				expr: &actionExpr{
-																					pos: position{line: 1648, col: 5, offset: 53355},
+																					pos: position{line: 1649, col: 5, offset: 53457},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1648, col: 5, offset: 53355},
+																						pos: position{line: 1649, col: 5, offset: 53457},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1648, col: 5, offset: 53355},
+																								pos: position{line: 1649, col: 5, offset: 53457},
 																								expr: &litMatcher{
-																									pos:        position{line: 1648, col: 6, offset: 53356},
+																									pos:        position{line: 1649, col: 6, offset: 53458},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1648, col: 10, offset: 53360},
+																								pos:   position{line: 1649, col: 10, offset: 53462},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1649, col: 7, offset: 53374},
+																									pos: position{line: 1650, col: 7, offset: 53476},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1649, col: 7, offset: 53374},
+																											pos: position{line: 1650, col: 7, offset: 53476},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1649, col: 7, offset: 53374},
+																												pos:        position{line: 1650, col: 7, offset: 53476},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1650, col: 7, offset: 53419},
+																											pos: position{line: 1651, col: 7, offset: 53521},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1650, col: 7, offset: 53419},
+																												pos:        position{line: 1651, col: 7, offset: 53521},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1651, col: 7, offset: 53462},
+																											pos: position{line: 1652, col: 7, offset: 53564},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1651, col: 7, offset: 53462},
+																												pos:        position{line: 1652, col: 7, offset: 53564},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -25954,12 +26289,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2905, col: 11, offset: 91544},
+																								pos: position{line: 2906, col: 11, offset: 91694},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2905, col: 11, offset: 91544},
+																									pos: position{line: 2906, col: 11, offset: 91694},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2905, col: 11, offset: 91544},
+																										pos:        position{line: 2906, col: 11, offset: 91694},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -25973,26 +26308,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1628, col: 5, offset: 52780},
+																			pos:   position{line: 1629, col: 5, offset: 52882},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1524, col: 5, offset: 49298},
+																				pos: position{line: 1524, col: 5, offset: 49366},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1524, col: 5, offset: 49298},
+																					pos: position{line: 1524, col: 5, offset: 49366},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1524, col: 5, offset: 49298},
+																							pos:   position{line: 1524, col: 5, offset: 49366},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1524, col: 14, offset: 49307},
+																								pos: position{line: 1524, col: 14, offset: 49375},
 																								expr: &actionExpr{
-																									pos: position{line: 1524, col: 15, offset: 49308},
+																									pos: position{line: 1524, col: 15, offset: 49376},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1524, col: 15, offset: 49308},
+																										pos: position{line: 1524, col: 15, offset: 49376},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1524, col: 15, offset: 49308},
+																											pos:        position{line: 1524, col: 15, offset: 49376},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26003,28 +26338,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26033,9 +26368,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -26048,36 +26383,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1716, col: 5, offset: 55302},
+																pos: position{line: 1717, col: 5, offset: 55404},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1716, col: 5, offset: 55302},
+																	pos: position{line: 1717, col: 5, offset: 55404},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1716, col: 5, offset: 55302},
+																			pos:   position{line: 1717, col: 5, offset: 55404},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1722, col: 5, offset: 55499},
+																				pos: position{line: 1723, col: 5, offset: 55601},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1722, col: 5, offset: 55499},
+																					pos: position{line: 1723, col: 5, offset: 55601},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1722, col: 5, offset: 55499},
+																							pos:        position{line: 1723, col: 5, offset: 55601},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1722, col: 9, offset: 55503},
+																							pos:   position{line: 1723, col: 9, offset: 55605},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1722, col: 14, offset: 55508},
+																								pos: position{line: 1723, col: 14, offset: 55610},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1722, col: 14, offset: 55508},
+																									pos: position{line: 1723, col: 14, offset: 55610},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1722, col: 14, offset: 55508},
+																										pos:        position{line: 1723, col: 14, offset: 55610},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26087,18 +26422,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1722, col: 62, offset: 55556},
+																							pos:        position{line: 1723, col: 62, offset: 55658},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2905, col: 11, offset: 91544},
+																							pos: position{line: 2906, col: 11, offset: 91694},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2905, col: 11, offset: 91544},
+																								pos: position{line: 2906, col: 11, offset: 91694},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 11, offset: 91544},
+																									pos:        position{line: 2906, col: 11, offset: 91694},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26111,26 +26446,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1717, col: 5, offset: 55338},
+																			pos:   position{line: 1718, col: 5, offset: 55440},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1524, col: 5, offset: 49298},
+																				pos: position{line: 1524, col: 5, offset: 49366},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1524, col: 5, offset: 49298},
+																					pos: position{line: 1524, col: 5, offset: 49366},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1524, col: 5, offset: 49298},
+																							pos:   position{line: 1524, col: 5, offset: 49366},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1524, col: 14, offset: 49307},
+																								pos: position{line: 1524, col: 14, offset: 49375},
 																								expr: &actionExpr{
-																									pos: position{line: 1524, col: 15, offset: 49308},
+																									pos: position{line: 1524, col: 15, offset: 49376},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1524, col: 15, offset: 49308},
+																										pos: position{line: 1524, col: 15, offset: 49376},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1524, col: 15, offset: 49308},
+																											pos:        position{line: 1524, col: 15, offset: 49376},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26141,28 +26476,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26171,9 +26506,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -26186,40 +26521,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1660, col: 5, offset: 53655},
+																pos: position{line: 1661, col: 5, offset: 53757},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1660, col: 5, offset: 53655},
+																	pos: position{line: 1661, col: 5, offset: 53757},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1660, col: 5, offset: 53655},
+																			pos:   position{line: 1661, col: 5, offset: 53757},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1668, col: 5, offset: 53981},
+																				pos: position{line: 1669, col: 5, offset: 54083},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1668, col: 5, offset: 53981},
+																					pos: position{line: 1669, col: 5, offset: 54083},
 																					expr: &seqExpr{
-																						pos: position{line: 1668, col: 6, offset: 53982},
+																						pos: position{line: 1669, col: 6, offset: 54084},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1668, col: 6, offset: 53982},
+																								pos: position{line: 1669, col: 6, offset: 54084},
 																								expr: &actionExpr{
-																									pos: position{line: 1673, col: 5, offset: 54132},
+																									pos: position{line: 1674, col: 5, offset: 54234},
 																									run: (*parser).callonExtraListElement174,
 																									expr: &seqExpr{
-																										pos: position{line: 1673, col: 5, offset: 54132},
+																										pos: position{line: 1674, col: 5, offset: 54234},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1673, col: 5, offset: 54132},
+																												pos:   position{line: 1674, col: 5, offset: 54234},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1673, col: 16, offset: 54143},
+																													pos: position{line: 1674, col: 16, offset: 54245},
 																													run: (*parser).callonExtraListElement177,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1673, col: 16, offset: 54143},
+																														pos: position{line: 1674, col: 16, offset: 54245},
 																														expr: &litMatcher{
-																															pos:        position{line: 1673, col: 17, offset: 54144},
+																															pos:        position{line: 1674, col: 17, offset: 54246},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -26228,7 +26563,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1676, col: 5, offset: 54201},
+																												pos: position{line: 1677, col: 5, offset: 54303},
 																												run: (*parser).callonExtraListElement180,
 																											},
 																										},
@@ -26236,30 +26571,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1668, col: 35, offset: 54011},
+																								pos: position{line: 1669, col: 35, offset: 54113},
 																								expr: &choiceExpr{
-																									pos: position{line: 2923, col: 8, offset: 91881},
+																									pos: position{line: 2924, col: 8, offset: 92031},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2910, col: 12, offset: 91654},
+																											pos: position{line: 2911, col: 12, offset: 91804},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2910, col: 13, offset: 91655},
+																												pos: position{line: 2911, col: 13, offset: 91805},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 13, offset: 91655},
+																														pos:        position{line: 2911, col: 13, offset: 91805},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 20, offset: 91662},
+																														pos:        position{line: 2911, col: 20, offset: 91812},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 29, offset: 91671},
+																														pos:        position{line: 2911, col: 29, offset: 91821},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26268,16 +26603,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2920, col: 8, offset: 91831},
+																											pos: position{line: 2921, col: 8, offset: 91981},
 																											expr: &anyMatcher{
-																												line: 2920, col: 9, offset: 91832,
+																												line: 2921, col: 9, offset: 91982,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1668, col: 40, offset: 54016,
+																								line: 1669, col: 40, offset: 54118,
 																							},
 																						},
 																					},
@@ -26285,24 +26620,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1661, col: 5, offset: 53690},
+																			pos:   position{line: 1662, col: 5, offset: 53792},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1673, col: 5, offset: 54132},
+																				pos: position{line: 1674, col: 5, offset: 54234},
 																				run: (*parser).callonExtraListElement192,
 																				expr: &seqExpr{
-																					pos: position{line: 1673, col: 5, offset: 54132},
+																					pos: position{line: 1674, col: 5, offset: 54234},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1673, col: 5, offset: 54132},
+																							pos:   position{line: 1674, col: 5, offset: 54234},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1673, col: 16, offset: 54143},
+																								pos: position{line: 1674, col: 16, offset: 54245},
 																								run: (*parser).callonExtraListElement195,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1673, col: 16, offset: 54143},
+																									pos: position{line: 1674, col: 16, offset: 54245},
 																									expr: &litMatcher{
-																										pos:        position{line: 1673, col: 17, offset: 54144},
+																										pos:        position{line: 1674, col: 17, offset: 54246},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26311,7 +26646,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1676, col: 5, offset: 54201},
+																							pos: position{line: 1677, col: 5, offset: 54303},
 																							run: (*parser).callonExtraListElement198,
 																						},
 																					},
@@ -26319,24 +26654,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1662, col: 5, offset: 53735},
+																			pos:   position{line: 1663, col: 5, offset: 53837},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1684, col: 5, offset: 54450},
+																				pos: position{line: 1685, col: 5, offset: 54552},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1686, col: 9, offset: 54516},
+																						pos: position{line: 1687, col: 9, offset: 54618},
 																						run: (*parser).callonExtraListElement201,
 																						expr: &seqExpr{
-																							pos: position{line: 1686, col: 9, offset: 54516},
+																							pos: position{line: 1687, col: 9, offset: 54618},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1686, col: 9, offset: 54516},
+																									pos: position{line: 1687, col: 9, offset: 54618},
 																									expr: &actionExpr{
-																										pos: position{line: 2901, col: 10, offset: 91483},
+																										pos: position{line: 2902, col: 10, offset: 91633},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2901, col: 10, offset: 91483},
+																											pos:        position{line: 2902, col: 10, offset: 91633},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26345,28 +26680,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2923, col: 8, offset: 91881},
+																									pos: position{line: 2924, col: 8, offset: 92031},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2910, col: 12, offset: 91654},
+																											pos: position{line: 2911, col: 12, offset: 91804},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2910, col: 13, offset: 91655},
+																												pos: position{line: 2911, col: 13, offset: 91805},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 13, offset: 91655},
+																														pos:        position{line: 2911, col: 13, offset: 91805},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 20, offset: 91662},
+																														pos:        position{line: 2911, col: 20, offset: 91812},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 29, offset: 91671},
+																														pos:        position{line: 2911, col: 29, offset: 91821},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26375,34 +26710,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2920, col: 8, offset: 91831},
+																											pos: position{line: 2921, col: 8, offset: 91981},
 																											expr: &anyMatcher{
-																												line: 2920, col: 9, offset: 91832,
+																												line: 2921, col: 9, offset: 91982,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1687, col: 9, offset: 54535},
+																									pos: position{line: 1688, col: 9, offset: 54637},
 																									expr: &actionExpr{
-																										pos: position{line: 678, col: 14, offset: 21518},
+																										pos: position{line: 678, col: 14, offset: 21586},
 																										run: (*parser).callonExtraListElement215,
 																										expr: &seqExpr{
-																											pos: position{line: 678, col: 14, offset: 21518},
+																											pos: position{line: 678, col: 14, offset: 21586},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2918, col: 11, offset: 91817},
+																													pos: position{line: 2919, col: 11, offset: 91967},
 																													expr: &anyMatcher{
-																														line: 2918, col: 13, offset: 91819,
+																														line: 2919, col: 13, offset: 91969,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 678, col: 21, offset: 21525},
+																													pos: position{line: 678, col: 21, offset: 21593},
 																													expr: &actionExpr{
-																														pos: position{line: 2901, col: 10, offset: 91483},
+																														pos: position{line: 2902, col: 10, offset: 91633},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2901, col: 10, offset: 91483},
+																															pos:        position{line: 2902, col: 10, offset: 91633},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26411,28 +26746,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2923, col: 8, offset: 91881},
+																													pos: position{line: 2924, col: 8, offset: 92031},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2910, col: 12, offset: 91654},
+																															pos: position{line: 2911, col: 12, offset: 91804},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2910, col: 13, offset: 91655},
+																																pos: position{line: 2911, col: 13, offset: 91805},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2910, col: 13, offset: 91655},
+																																		pos:        position{line: 2911, col: 13, offset: 91805},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2910, col: 20, offset: 91662},
+																																		pos:        position{line: 2911, col: 20, offset: 91812},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2910, col: 29, offset: 91671},
+																																		pos:        position{line: 2911, col: 29, offset: 91821},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26441,9 +26776,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2920, col: 8, offset: 91831},
+																															pos: position{line: 2921, col: 8, offset: 91981},
 																															expr: &anyMatcher{
-																																line: 2920, col: 9, offset: 91832,
+																																line: 2921, col: 9, offset: 91982,
 																															},
 																														},
 																													},
@@ -26456,18 +26791,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1693, col: 9, offset: 54664},
+																						pos: position{line: 1694, col: 9, offset: 54766},
 																						run: (*parser).callonExtraListElement230,
 																						expr: &seqExpr{
-																							pos: position{line: 1693, col: 9, offset: 54664},
+																							pos: position{line: 1694, col: 9, offset: 54766},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 11, offset: 91544},
+																									pos: position{line: 2906, col: 11, offset: 91694},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2905, col: 11, offset: 91544},
+																										pos: position{line: 2906, col: 11, offset: 91694},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2905, col: 11, offset: 91544},
+																											pos:        position{line: 2906, col: 11, offset: 91694},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26476,15 +26811,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1694, col: 9, offset: 54737},
+																									pos:   position{line: 1695, col: 9, offset: 54839},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1694, col: 18, offset: 54746},
+																										pos: position{line: 1695, col: 18, offset: 54848},
 																										run: (*parser).callonExtraListElement236,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1694, col: 18, offset: 54746},
+																											pos: position{line: 1695, col: 18, offset: 54848},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1694, col: 18, offset: 54746},
+																												pos:        position{line: 1695, col: 18, offset: 54848},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26494,28 +26829,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2923, col: 8, offset: 91881},
+																									pos: position{line: 2924, col: 8, offset: 92031},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2910, col: 12, offset: 91654},
+																											pos: position{line: 2911, col: 12, offset: 91804},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2910, col: 13, offset: 91655},
+																												pos: position{line: 2911, col: 13, offset: 91805},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 13, offset: 91655},
+																														pos:        position{line: 2911, col: 13, offset: 91805},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 20, offset: 91662},
+																														pos:        position{line: 2911, col: 20, offset: 91812},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 29, offset: 91671},
+																														pos:        position{line: 2911, col: 29, offset: 91821},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26524,9 +26859,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2920, col: 8, offset: 91831},
+																											pos: position{line: 2921, col: 8, offset: 91981},
 																											expr: &anyMatcher{
-																												line: 2920, col: 9, offset: 91832,
+																												line: 2921, col: 9, offset: 91982,
 																											},
 																										},
 																									},
@@ -26547,50 +26882,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1499, col: 13, offset: 48425},
+										pos: position{line: 1499, col: 13, offset: 48493},
 										run: (*parser).callonExtraListElement247,
 										expr: &seqExpr{
-											pos: position{line: 1499, col: 13, offset: 48425},
+											pos: position{line: 1499, col: 13, offset: 48493},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1499, col: 13, offset: 48425},
+													pos:   position{line: 1499, col: 13, offset: 48493},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1499, col: 24, offset: 48436},
+														pos: position{line: 1499, col: 24, offset: 48504},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1499, col: 25, offset: 48437},
+															pos:  position{line: 1499, col: 25, offset: 48505},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1500, col: 13, offset: 48468},
+													pos:   position{line: 1500, col: 13, offset: 48536},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1500, col: 22, offset: 48477},
+														pos: position{line: 1500, col: 22, offset: 48545},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1576, col: 5, offset: 50792},
+																pos: position{line: 1577, col: 5, offset: 50894},
 																run: (*parser).callonExtraListElement254,
 																expr: &seqExpr{
-																	pos: position{line: 1576, col: 5, offset: 50792},
+																	pos: position{line: 1577, col: 5, offset: 50894},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1576, col: 5, offset: 50792},
+																			pos:   position{line: 1577, col: 5, offset: 50894},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1583, col: 5, offset: 51000},
+																				pos: position{line: 1584, col: 5, offset: 51102},
 																				run: (*parser).callonExtraListElement257,
 																				expr: &seqExpr{
-																					pos: position{line: 1583, col: 5, offset: 51000},
+																					pos: position{line: 1584, col: 5, offset: 51102},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1583, col: 5, offset: 51000},
+																							pos: position{line: 1584, col: 5, offset: 51102},
 																							expr: &actionExpr{
-																								pos: position{line: 2901, col: 10, offset: 91483},
+																								pos: position{line: 2902, col: 10, offset: 91633},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2901, col: 10, offset: 91483},
+																									pos:        position{line: 2902, col: 10, offset: 91633},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26599,27 +26934,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1583, col: 12, offset: 51007},
+																							pos:   position{line: 1584, col: 12, offset: 51109},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1585, col: 9, offset: 51070},
+																								pos: position{line: 1586, col: 9, offset: 51172},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1585, col: 9, offset: 51070},
+																										pos: position{line: 1586, col: 9, offset: 51172},
 																										run: (*parser).callonExtraListElement264,
 																										expr: &seqExpr{
-																											pos: position{line: 1585, col: 9, offset: 51070},
+																											pos: position{line: 1586, col: 9, offset: 51172},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1585, col: 9, offset: 51070},
+																													pos:   position{line: 1586, col: 9, offset: 51172},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1585, col: 16, offset: 51077},
+																														pos: position{line: 1586, col: 16, offset: 51179},
 																														run: (*parser).callonExtraListElement267,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1585, col: 16, offset: 51077},
+																															pos: position{line: 1586, col: 16, offset: 51179},
 																															expr: &litMatcher{
-																																pos:        position{line: 1585, col: 17, offset: 51078},
+																																pos:        position{line: 1586, col: 17, offset: 51180},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26628,22 +26963,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1589, col: 9, offset: 51178},
+																													pos: position{line: 1590, col: 9, offset: 51280},
 																													run: (*parser).callonExtraListElement270,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1608, col: 11, offset: 51895},
+																										pos: position{line: 1609, col: 11, offset: 51997},
 																										run: (*parser).callonExtraListElement271,
 																										expr: &seqExpr{
-																											pos: position{line: 1608, col: 11, offset: 51895},
+																											pos: position{line: 1609, col: 11, offset: 51997},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1608, col: 11, offset: 51895},
+																													pos: position{line: 1609, col: 11, offset: 51997},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1608, col: 12, offset: 51896},
+																														pos:        position{line: 1609, col: 12, offset: 51998},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26651,7 +26986,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1608, col: 20, offset: 51904},
+																													pos:        position{line: 1609, col: 20, offset: 52006},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26660,20 +26995,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1610, col: 13, offset: 52021},
+																										pos: position{line: 1611, col: 13, offset: 52123},
 																										run: (*parser).callonExtraListElement276,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 13, offset: 52021},
+																											pos: position{line: 1611, col: 13, offset: 52123},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1610, col: 14, offset: 52022},
+																													pos:        position{line: 1611, col: 14, offset: 52124},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1610, col: 21, offset: 52029},
+																													pos:        position{line: 1611, col: 21, offset: 52131},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26682,20 +27017,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1612, col: 13, offset: 52149},
+																										pos: position{line: 1613, col: 13, offset: 52251},
 																										run: (*parser).callonExtraListElement280,
 																										expr: &seqExpr{
-																											pos: position{line: 1612, col: 13, offset: 52149},
+																											pos: position{line: 1613, col: 13, offset: 52251},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1612, col: 14, offset: 52150},
+																													pos:        position{line: 1613, col: 14, offset: 52252},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1612, col: 21, offset: 52157},
+																													pos:        position{line: 1613, col: 21, offset: 52259},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26704,15 +27039,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1614, col: 13, offset: 52277},
+																										pos: position{line: 1615, col: 13, offset: 52379},
 																										run: (*parser).callonExtraListElement284,
 																										expr: &seqExpr{
-																											pos: position{line: 1614, col: 13, offset: 52277},
+																											pos: position{line: 1615, col: 13, offset: 52379},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1614, col: 13, offset: 52277},
+																													pos: position{line: 1615, col: 13, offset: 52379},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1614, col: 14, offset: 52278},
+																														pos:        position{line: 1615, col: 14, offset: 52380},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26720,7 +27055,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1614, col: 26, offset: 52290},
+																													pos:        position{line: 1615, col: 26, offset: 52392},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26729,15 +27064,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1616, col: 13, offset: 52410},
+																										pos: position{line: 1617, col: 13, offset: 52512},
 																										run: (*parser).callonExtraListElement289,
 																										expr: &seqExpr{
-																											pos: position{line: 1616, col: 13, offset: 52410},
+																											pos: position{line: 1617, col: 13, offset: 52512},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1616, col: 13, offset: 52410},
+																													pos: position{line: 1617, col: 13, offset: 52512},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1616, col: 14, offset: 52411},
+																														pos:        position{line: 1617, col: 14, offset: 52513},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26745,7 +27080,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1616, col: 26, offset: 52423},
+																													pos:        position{line: 1617, col: 26, offset: 52525},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26757,12 +27092,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2905, col: 11, offset: 91544},
+																							pos: position{line: 2906, col: 11, offset: 91694},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2905, col: 11, offset: 91544},
+																								pos: position{line: 2906, col: 11, offset: 91694},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 11, offset: 91544},
+																									pos:        position{line: 2906, col: 11, offset: 91694},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26775,26 +27110,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1577, col: 5, offset: 50831},
+																			pos:   position{line: 1578, col: 5, offset: 50933},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1524, col: 5, offset: 49298},
+																				pos: position{line: 1524, col: 5, offset: 49366},
 																				run: (*parser).callonExtraListElement298,
 																				expr: &seqExpr{
-																					pos: position{line: 1524, col: 5, offset: 49298},
+																					pos: position{line: 1524, col: 5, offset: 49366},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1524, col: 5, offset: 49298},
+																							pos:   position{line: 1524, col: 5, offset: 49366},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1524, col: 14, offset: 49307},
+																								pos: position{line: 1524, col: 14, offset: 49375},
 																								expr: &actionExpr{
-																									pos: position{line: 1524, col: 15, offset: 49308},
+																									pos: position{line: 1524, col: 15, offset: 49376},
 																									run: (*parser).callonExtraListElement302,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1524, col: 15, offset: 49308},
+																										pos: position{line: 1524, col: 15, offset: 49376},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1524, col: 15, offset: 49308},
+																											pos:        position{line: 1524, col: 15, offset: 49376},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26805,28 +27140,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26835,9 +27170,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -26850,27 +27185,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1626, col: 5, offset: 52689},
+																pos: position{line: 1627, col: 5, offset: 52791},
 																run: (*parser).callonExtraListElement313,
 																expr: &seqExpr{
-																	pos: position{line: 1626, col: 5, offset: 52689},
+																	pos: position{line: 1627, col: 5, offset: 52791},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1626, col: 5, offset: 52689},
+																			pos:   position{line: 1627, col: 5, offset: 52791},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1633, col: 5, offset: 52962},
+																				pos: position{line: 1634, col: 5, offset: 53064},
 																				run: (*parser).callonExtraListElement316,
 																				expr: &seqExpr{
-																					pos: position{line: 1633, col: 5, offset: 52962},
+																					pos: position{line: 1634, col: 5, offset: 53064},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1633, col: 5, offset: 52962},
+																							pos: position{line: 1634, col: 5, offset: 53064},
 																							expr: &actionExpr{
-																								pos: position{line: 2901, col: 10, offset: 91483},
+																								pos: position{line: 2902, col: 10, offset: 91633},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2901, col: 10, offset: 91483},
+																									pos:        position{line: 2902, col: 10, offset: 91633},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26879,24 +27214,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1634, col: 5, offset: 52974},
+																							pos:   position{line: 1635, col: 5, offset: 53076},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1635, col: 9, offset: 52990},
+																								pos: position{line: 1636, col: 9, offset: 53092},
 																								run: (*parser).callonExtraListElement322,
 																								expr: &choiceExpr{
-																									pos: position{line: 1635, col: 10, offset: 52991},
+																									pos: position{line: 1636, col: 10, offset: 53093},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1635, col: 11, offset: 52992},
+																											pos:        position{line: 1636, col: 11, offset: 53094},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1635, col: 18, offset: 52999},
+																											pos: position{line: 1636, col: 18, offset: 53101},
 																											expr: &litMatcher{
-																												pos:        position{line: 1635, col: 19, offset: 53000},
+																												pos:        position{line: 1636, col: 19, offset: 53102},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26907,16 +27242,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1638, col: 7, offset: 53090},
+																							pos: position{line: 1639, col: 7, offset: 53192},
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2905, col: 11, offset: 91544},
+																							pos: position{line: 2906, col: 11, offset: 91694},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2905, col: 11, offset: 91544},
+																								pos: position{line: 2906, col: 11, offset: 91694},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 11, offset: 91544},
+																									pos:        position{line: 2906, col: 11, offset: 91694},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26929,56 +27264,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1627, col: 5, offset: 52730},
+																			pos:   position{line: 1628, col: 5, offset: 52832},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1627, col: 16, offset: 52741},
+																				pos: position{line: 1628, col: 16, offset: 52843},
 																				expr: &actionExpr{
-																					pos: position{line: 1648, col: 5, offset: 53355},
+																					pos: position{line: 1649, col: 5, offset: 53457},
 																					run: (*parser).callonExtraListElement333,
 																					expr: &seqExpr{
-																						pos: position{line: 1648, col: 5, offset: 53355},
+																						pos: position{line: 1649, col: 5, offset: 53457},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1648, col: 5, offset: 53355},
+																								pos: position{line: 1649, col: 5, offset: 53457},
 																								expr: &litMatcher{
-																									pos:        position{line: 1648, col: 6, offset: 53356},
+																									pos:        position{line: 1649, col: 6, offset: 53458},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1648, col: 10, offset: 53360},
+																								pos:   position{line: 1649, col: 10, offset: 53462},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1649, col: 7, offset: 53374},
+																									pos: position{line: 1650, col: 7, offset: 53476},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1649, col: 7, offset: 53374},
+																											pos: position{line: 1650, col: 7, offset: 53476},
 																											run: (*parser).callonExtraListElement339,
 																											expr: &litMatcher{
-																												pos:        position{line: 1649, col: 7, offset: 53374},
+																												pos:        position{line: 1650, col: 7, offset: 53476},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1650, col: 7, offset: 53419},
+																											pos: position{line: 1651, col: 7, offset: 53521},
 																											run: (*parser).callonExtraListElement341,
 																											expr: &litMatcher{
-																												pos:        position{line: 1650, col: 7, offset: 53419},
+																												pos:        position{line: 1651, col: 7, offset: 53521},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1651, col: 7, offset: 53462},
+																											pos: position{line: 1652, col: 7, offset: 53564},
 																											run: (*parser).callonExtraListElement343,
 																											expr: &litMatcher{
-																												pos:        position{line: 1651, col: 7, offset: 53462},
+																												pos:        position{line: 1652, col: 7, offset: 53564},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26988,12 +27323,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2905, col: 11, offset: 91544},
+																								pos: position{line: 2906, col: 11, offset: 91694},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2905, col: 11, offset: 91544},
+																									pos: position{line: 2906, col: 11, offset: 91694},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2905, col: 11, offset: 91544},
+																										pos:        position{line: 2906, col: 11, offset: 91694},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27007,26 +27342,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1628, col: 5, offset: 52780},
+																			pos:   position{line: 1629, col: 5, offset: 52882},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1524, col: 5, offset: 49298},
+																				pos: position{line: 1524, col: 5, offset: 49366},
 																				run: (*parser).callonExtraListElement349,
 																				expr: &seqExpr{
-																					pos: position{line: 1524, col: 5, offset: 49298},
+																					pos: position{line: 1524, col: 5, offset: 49366},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1524, col: 5, offset: 49298},
+																							pos:   position{line: 1524, col: 5, offset: 49366},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1524, col: 14, offset: 49307},
+																								pos: position{line: 1524, col: 14, offset: 49375},
 																								expr: &actionExpr{
-																									pos: position{line: 1524, col: 15, offset: 49308},
+																									pos: position{line: 1524, col: 15, offset: 49376},
 																									run: (*parser).callonExtraListElement353,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1524, col: 15, offset: 49308},
+																										pos: position{line: 1524, col: 15, offset: 49376},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1524, col: 15, offset: 49308},
+																											pos:        position{line: 1524, col: 15, offset: 49376},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27037,28 +27372,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27067,9 +27402,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -27082,36 +27417,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1716, col: 5, offset: 55302},
+																pos: position{line: 1717, col: 5, offset: 55404},
 																run: (*parser).callonExtraListElement364,
 																expr: &seqExpr{
-																	pos: position{line: 1716, col: 5, offset: 55302},
+																	pos: position{line: 1717, col: 5, offset: 55404},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1716, col: 5, offset: 55302},
+																			pos:   position{line: 1717, col: 5, offset: 55404},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1722, col: 5, offset: 55499},
+																				pos: position{line: 1723, col: 5, offset: 55601},
 																				run: (*parser).callonExtraListElement367,
 																				expr: &seqExpr{
-																					pos: position{line: 1722, col: 5, offset: 55499},
+																					pos: position{line: 1723, col: 5, offset: 55601},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1722, col: 5, offset: 55499},
+																							pos:        position{line: 1723, col: 5, offset: 55601},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1722, col: 9, offset: 55503},
+																							pos:   position{line: 1723, col: 9, offset: 55605},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1722, col: 14, offset: 55508},
+																								pos: position{line: 1723, col: 14, offset: 55610},
 																								run: (*parser).callonExtraListElement371,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1722, col: 14, offset: 55508},
+																									pos: position{line: 1723, col: 14, offset: 55610},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1722, col: 14, offset: 55508},
+																										pos:        position{line: 1723, col: 14, offset: 55610},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27121,18 +27456,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1722, col: 62, offset: 55556},
+																							pos:        position{line: 1723, col: 62, offset: 55658},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2905, col: 11, offset: 91544},
+																							pos: position{line: 2906, col: 11, offset: 91694},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2905, col: 11, offset: 91544},
+																								pos: position{line: 2906, col: 11, offset: 91694},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 11, offset: 91544},
+																									pos:        position{line: 2906, col: 11, offset: 91694},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27145,26 +27480,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1717, col: 5, offset: 55338},
+																			pos:   position{line: 1718, col: 5, offset: 55440},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1524, col: 5, offset: 49298},
+																				pos: position{line: 1524, col: 5, offset: 49366},
 																				run: (*parser).callonExtraListElement379,
 																				expr: &seqExpr{
-																					pos: position{line: 1524, col: 5, offset: 49298},
+																					pos: position{line: 1524, col: 5, offset: 49366},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1524, col: 5, offset: 49298},
+																							pos:   position{line: 1524, col: 5, offset: 49366},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1524, col: 14, offset: 49307},
+																								pos: position{line: 1524, col: 14, offset: 49375},
 																								expr: &actionExpr{
-																									pos: position{line: 1524, col: 15, offset: 49308},
+																									pos: position{line: 1524, col: 15, offset: 49376},
 																									run: (*parser).callonExtraListElement383,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1524, col: 15, offset: 49308},
+																										pos: position{line: 1524, col: 15, offset: 49376},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1524, col: 15, offset: 49308},
+																											pos:        position{line: 1524, col: 15, offset: 49376},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27175,28 +27510,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27205,9 +27540,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -27220,40 +27555,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1660, col: 5, offset: 53655},
+																pos: position{line: 1661, col: 5, offset: 53757},
 																run: (*parser).callonExtraListElement394,
 																expr: &seqExpr{
-																	pos: position{line: 1660, col: 5, offset: 53655},
+																	pos: position{line: 1661, col: 5, offset: 53757},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1660, col: 5, offset: 53655},
+																			pos:   position{line: 1661, col: 5, offset: 53757},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1668, col: 5, offset: 53981},
+																				pos: position{line: 1669, col: 5, offset: 54083},
 																				run: (*parser).callonExtraListElement397,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1668, col: 5, offset: 53981},
+																					pos: position{line: 1669, col: 5, offset: 54083},
 																					expr: &seqExpr{
-																						pos: position{line: 1668, col: 6, offset: 53982},
+																						pos: position{line: 1669, col: 6, offset: 54084},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1668, col: 6, offset: 53982},
+																								pos: position{line: 1669, col: 6, offset: 54084},
 																								expr: &actionExpr{
-																									pos: position{line: 1673, col: 5, offset: 54132},
+																									pos: position{line: 1674, col: 5, offset: 54234},
 																									run: (*parser).callonExtraListElement401,
 																									expr: &seqExpr{
-																										pos: position{line: 1673, col: 5, offset: 54132},
+																										pos: position{line: 1674, col: 5, offset: 54234},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1673, col: 5, offset: 54132},
+																												pos:   position{line: 1674, col: 5, offset: 54234},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1673, col: 16, offset: 54143},
+																													pos: position{line: 1674, col: 16, offset: 54245},
 																													run: (*parser).callonExtraListElement404,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1673, col: 16, offset: 54143},
+																														pos: position{line: 1674, col: 16, offset: 54245},
 																														expr: &litMatcher{
-																															pos:        position{line: 1673, col: 17, offset: 54144},
+																															pos:        position{line: 1674, col: 17, offset: 54246},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -27262,7 +27597,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1676, col: 5, offset: 54201},
+																												pos: position{line: 1677, col: 5, offset: 54303},
 																												run: (*parser).callonExtraListElement407,
 																											},
 																										},
@@ -27270,30 +27605,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1668, col: 35, offset: 54011},
+																								pos: position{line: 1669, col: 35, offset: 54113},
 																								expr: &choiceExpr{
-																									pos: position{line: 2923, col: 8, offset: 91881},
+																									pos: position{line: 2924, col: 8, offset: 92031},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2910, col: 12, offset: 91654},
+																											pos: position{line: 2911, col: 12, offset: 91804},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2910, col: 13, offset: 91655},
+																												pos: position{line: 2911, col: 13, offset: 91805},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 13, offset: 91655},
+																														pos:        position{line: 2911, col: 13, offset: 91805},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 20, offset: 91662},
+																														pos:        position{line: 2911, col: 20, offset: 91812},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 29, offset: 91671},
+																														pos:        position{line: 2911, col: 29, offset: 91821},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27302,16 +27637,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2920, col: 8, offset: 91831},
+																											pos: position{line: 2921, col: 8, offset: 91981},
 																											expr: &anyMatcher{
-																												line: 2920, col: 9, offset: 91832,
+																												line: 2921, col: 9, offset: 91982,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1668, col: 40, offset: 54016,
+																								line: 1669, col: 40, offset: 54118,
 																							},
 																						},
 																					},
@@ -27319,24 +27654,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1661, col: 5, offset: 53690},
+																			pos:   position{line: 1662, col: 5, offset: 53792},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1673, col: 5, offset: 54132},
+																				pos: position{line: 1674, col: 5, offset: 54234},
 																				run: (*parser).callonExtraListElement419,
 																				expr: &seqExpr{
-																					pos: position{line: 1673, col: 5, offset: 54132},
+																					pos: position{line: 1674, col: 5, offset: 54234},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1673, col: 5, offset: 54132},
+																							pos:   position{line: 1674, col: 5, offset: 54234},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1673, col: 16, offset: 54143},
+																								pos: position{line: 1674, col: 16, offset: 54245},
 																								run: (*parser).callonExtraListElement422,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1673, col: 16, offset: 54143},
+																									pos: position{line: 1674, col: 16, offset: 54245},
 																									expr: &litMatcher{
-																										pos:        position{line: 1673, col: 17, offset: 54144},
+																										pos:        position{line: 1674, col: 17, offset: 54246},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27345,7 +27680,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1676, col: 5, offset: 54201},
+																							pos: position{line: 1677, col: 5, offset: 54303},
 																							run: (*parser).callonExtraListElement425,
 																						},
 																					},
@@ -27353,24 +27688,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1662, col: 5, offset: 53735},
+																			pos:   position{line: 1663, col: 5, offset: 53837},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1684, col: 5, offset: 54450},
+																				pos: position{line: 1685, col: 5, offset: 54552},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1686, col: 9, offset: 54516},
+																						pos: position{line: 1687, col: 9, offset: 54618},
 																						run: (*parser).callonExtraListElement428,
 																						expr: &seqExpr{
-																							pos: position{line: 1686, col: 9, offset: 54516},
+																							pos: position{line: 1687, col: 9, offset: 54618},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1686, col: 9, offset: 54516},
+																									pos: position{line: 1687, col: 9, offset: 54618},
 																									expr: &actionExpr{
-																										pos: position{line: 2901, col: 10, offset: 91483},
+																										pos: position{line: 2902, col: 10, offset: 91633},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2901, col: 10, offset: 91483},
+																											pos:        position{line: 2902, col: 10, offset: 91633},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27379,28 +27714,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2923, col: 8, offset: 91881},
+																									pos: position{line: 2924, col: 8, offset: 92031},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2910, col: 12, offset: 91654},
+																											pos: position{line: 2911, col: 12, offset: 91804},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2910, col: 13, offset: 91655},
+																												pos: position{line: 2911, col: 13, offset: 91805},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 13, offset: 91655},
+																														pos:        position{line: 2911, col: 13, offset: 91805},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 20, offset: 91662},
+																														pos:        position{line: 2911, col: 20, offset: 91812},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 29, offset: 91671},
+																														pos:        position{line: 2911, col: 29, offset: 91821},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27409,34 +27744,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2920, col: 8, offset: 91831},
+																											pos: position{line: 2921, col: 8, offset: 91981},
 																											expr: &anyMatcher{
-																												line: 2920, col: 9, offset: 91832,
+																												line: 2921, col: 9, offset: 91982,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1687, col: 9, offset: 54535},
+																									pos: position{line: 1688, col: 9, offset: 54637},
 																									expr: &actionExpr{
-																										pos: position{line: 678, col: 14, offset: 21518},
+																										pos: position{line: 678, col: 14, offset: 21586},
 																										run: (*parser).callonExtraListElement442,
 																										expr: &seqExpr{
-																											pos: position{line: 678, col: 14, offset: 21518},
+																											pos: position{line: 678, col: 14, offset: 21586},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2918, col: 11, offset: 91817},
+																													pos: position{line: 2919, col: 11, offset: 91967},
 																													expr: &anyMatcher{
-																														line: 2918, col: 13, offset: 91819,
+																														line: 2919, col: 13, offset: 91969,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 678, col: 21, offset: 21525},
+																													pos: position{line: 678, col: 21, offset: 21593},
 																													expr: &actionExpr{
-																														pos: position{line: 2901, col: 10, offset: 91483},
+																														pos: position{line: 2902, col: 10, offset: 91633},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2901, col: 10, offset: 91483},
+																															pos:        position{line: 2902, col: 10, offset: 91633},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27445,28 +27780,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2923, col: 8, offset: 91881},
+																													pos: position{line: 2924, col: 8, offset: 92031},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2910, col: 12, offset: 91654},
+																															pos: position{line: 2911, col: 12, offset: 91804},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2910, col: 13, offset: 91655},
+																																pos: position{line: 2911, col: 13, offset: 91805},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2910, col: 13, offset: 91655},
+																																		pos:        position{line: 2911, col: 13, offset: 91805},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2910, col: 20, offset: 91662},
+																																		pos:        position{line: 2911, col: 20, offset: 91812},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2910, col: 29, offset: 91671},
+																																		pos:        position{line: 2911, col: 29, offset: 91821},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27475,9 +27810,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2920, col: 8, offset: 91831},
+																															pos: position{line: 2921, col: 8, offset: 91981},
 																															expr: &anyMatcher{
-																																line: 2920, col: 9, offset: 91832,
+																																line: 2921, col: 9, offset: 91982,
 																															},
 																														},
 																													},
@@ -27490,18 +27825,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1693, col: 9, offset: 54664},
+																						pos: position{line: 1694, col: 9, offset: 54766},
 																						run: (*parser).callonExtraListElement457,
 																						expr: &seqExpr{
-																							pos: position{line: 1693, col: 9, offset: 54664},
+																							pos: position{line: 1694, col: 9, offset: 54766},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 11, offset: 91544},
+																									pos: position{line: 2906, col: 11, offset: 91694},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2905, col: 11, offset: 91544},
+																										pos: position{line: 2906, col: 11, offset: 91694},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2905, col: 11, offset: 91544},
+																											pos:        position{line: 2906, col: 11, offset: 91694},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27510,15 +27845,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1694, col: 9, offset: 54737},
+																									pos:   position{line: 1695, col: 9, offset: 54839},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1694, col: 18, offset: 54746},
+																										pos: position{line: 1695, col: 18, offset: 54848},
 																										run: (*parser).callonExtraListElement463,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1694, col: 18, offset: 54746},
+																											pos: position{line: 1695, col: 18, offset: 54848},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1694, col: 18, offset: 54746},
+																												pos:        position{line: 1695, col: 18, offset: 54848},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27528,28 +27863,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2923, col: 8, offset: 91881},
+																									pos: position{line: 2924, col: 8, offset: 92031},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2910, col: 12, offset: 91654},
+																											pos: position{line: 2911, col: 12, offset: 91804},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2910, col: 13, offset: 91655},
+																												pos: position{line: 2911, col: 13, offset: 91805},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 13, offset: 91655},
+																														pos:        position{line: 2911, col: 13, offset: 91805},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 20, offset: 91662},
+																														pos:        position{line: 2911, col: 20, offset: 91812},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 29, offset: 91671},
+																														pos:        position{line: 2911, col: 29, offset: 91821},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27558,9 +27893,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2920, col: 8, offset: 91831},
+																											pos: position{line: 2921, col: 8, offset: 91981},
 																											expr: &anyMatcher{
-																												line: 2920, col: 9, offset: 91832,
+																												line: 2921, col: 9, offset: 91982,
 																											},
 																										},
 																									},
@@ -27581,40 +27916,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1503, col: 11, offset: 48662},
+										pos:  position{line: 1503, col: 11, offset: 48730},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2511, col: 22, offset: 80468},
+										pos: position{line: 2512, col: 22, offset: 80570},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2511, col: 22, offset: 80468},
+											pos: position{line: 2512, col: 22, offset: 80570},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2516, col: 31, offset: 80689},
+													pos:        position{line: 2517, col: 31, offset: 80820},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2516, col: 36, offset: 80694},
+													pos: position{line: 2517, col: 36, offset: 80825},
 													expr: &litMatcher{
-														pos:        position{line: 2516, col: 37, offset: 80695},
-														val:        "//",
+														pos:        position{line: 2517, col: 37, offset: 80826},
+														val:        "/",
 														ignoreCase: false,
-														want:       "\"//\"",
+														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2511, col: 49, offset: 80495},
+													pos:   position{line: 2512, col: 49, offset: 80597},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 13, offset: 90009},
+														pos: position{line: 2848, col: 13, offset: 90159},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2847, col: 13, offset: 90009},
+															pos: position{line: 2848, col: 13, offset: 90159},
 															expr: &charClassMatcher{
-																pos:        position{line: 2847, col: 13, offset: 90009},
+																pos:        position{line: 2848, col: 13, offset: 90159},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -27624,28 +27959,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2923, col: 8, offset: 91881},
+													pos: position{line: 2924, col: 8, offset: 92031},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2910, col: 12, offset: 91654},
+															pos: position{line: 2911, col: 12, offset: 91804},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2910, col: 13, offset: 91655},
+																pos: position{line: 2911, col: 13, offset: 91805},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 13, offset: 91655},
+																		pos:        position{line: 2911, col: 13, offset: 91805},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 20, offset: 91662},
+																		pos:        position{line: 2911, col: 20, offset: 91812},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 29, offset: 91671},
+																		pos:        position{line: 2911, col: 29, offset: 91821},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -27654,9 +27989,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2920, col: 8, offset: 91831},
+															pos: position{line: 2921, col: 8, offset: 91981},
 															expr: &anyMatcher{
-																line: 2920, col: 9, offset: 91832,
+																line: 2921, col: 9, offset: 91982,
 															},
 														},
 													},
@@ -27665,32 +28000,32 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1511, col: 5, offset: 48940},
+										pos: position{line: 1511, col: 5, offset: 49008},
 										run: (*parser).callonExtraListElement492,
 										expr: &seqExpr{
-											pos: position{line: 1511, col: 5, offset: 48940},
+											pos: position{line: 1511, col: 5, offset: 49008},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1511, col: 5, offset: 48940},
+													pos: position{line: 1511, col: 5, offset: 49008},
 													expr: &actionExpr{
-														pos: position{line: 678, col: 14, offset: 21518},
+														pos: position{line: 678, col: 14, offset: 21586},
 														run: (*parser).callonExtraListElement495,
 														expr: &seqExpr{
-															pos: position{line: 678, col: 14, offset: 21518},
+															pos: position{line: 678, col: 14, offset: 21586},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2918, col: 11, offset: 91817},
+																	pos: position{line: 2919, col: 11, offset: 91967},
 																	expr: &anyMatcher{
-																		line: 2918, col: 13, offset: 91819,
+																		line: 2919, col: 13, offset: 91969,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 678, col: 21, offset: 21525},
+																	pos: position{line: 678, col: 21, offset: 21593},
 																	expr: &actionExpr{
-																		pos: position{line: 2901, col: 10, offset: 91483},
+																		pos: position{line: 2902, col: 10, offset: 91633},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2901, col: 10, offset: 91483},
+																			pos:        position{line: 2902, col: 10, offset: 91633},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27699,28 +28034,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2923, col: 8, offset: 91881},
+																	pos: position{line: 2924, col: 8, offset: 92031},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2910, col: 12, offset: 91654},
+																			pos: position{line: 2911, col: 12, offset: 91804},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2910, col: 13, offset: 91655},
+																				pos: position{line: 2911, col: 13, offset: 91805},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91655},
+																						pos:        position{line: 2911, col: 13, offset: 91805},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 20, offset: 91662},
+																						pos:        position{line: 2911, col: 20, offset: 91812},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 29, offset: 91671},
+																						pos:        position{line: 2911, col: 29, offset: 91821},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27729,9 +28064,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2920, col: 8, offset: 91831},
+																			pos: position{line: 2921, col: 8, offset: 91981},
 																			expr: &anyMatcher{
-																				line: 2920, col: 9, offset: 91832,
+																				line: 2921, col: 9, offset: 91982,
 																			},
 																		},
 																	},
@@ -27741,23 +28076,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1512, col: 5, offset: 48955},
+													pos: position{line: 1512, col: 5, offset: 49023},
 													expr: &seqExpr{
-														pos: position{line: 1542, col: 27, offset: 49781},
+														pos: position{line: 1543, col: 27, offset: 49883},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1542, col: 27, offset: 49781},
+																pos:        position{line: 1543, col: 27, offset: 49883},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1542, col: 31, offset: 49785},
+																pos: position{line: 1543, col: 31, offset: 49887},
 																expr: &actionExpr{
-																	pos: position{line: 2901, col: 10, offset: 91483},
+																	pos: position{line: 2902, col: 10, offset: 91633},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2901, col: 10, offset: 91483},
+																		pos:        position{line: 2902, col: 10, offset: 91633},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -27766,25 +28101,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2910, col: 12, offset: 91654},
+																pos: position{line: 2911, col: 12, offset: 91804},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2910, col: 13, offset: 91655},
+																	pos: position{line: 2911, col: 13, offset: 91805},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 13, offset: 91655},
+																			pos:        position{line: 2911, col: 13, offset: 91805},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 20, offset: 91662},
+																			pos:        position{line: 2911, col: 20, offset: 91812},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 29, offset: 91671},
+																			pos:        position{line: 2911, col: 29, offset: 91821},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -27796,20 +28131,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1513, col: 5, offset: 48983},
+													pos: position{line: 1513, col: 5, offset: 49051},
 													expr: &actionExpr{
-														pos: position{line: 1583, col: 5, offset: 51000},
+														pos: position{line: 1584, col: 5, offset: 51102},
 														run: (*parser).callonExtraListElement522,
 														expr: &seqExpr{
-															pos: position{line: 1583, col: 5, offset: 51000},
+															pos: position{line: 1584, col: 5, offset: 51102},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1583, col: 5, offset: 51000},
+																	pos: position{line: 1584, col: 5, offset: 51102},
 																	expr: &actionExpr{
-																		pos: position{line: 2901, col: 10, offset: 91483},
+																		pos: position{line: 2902, col: 10, offset: 91633},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2901, col: 10, offset: 91483},
+																			pos:        position{line: 2902, col: 10, offset: 91633},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27818,27 +28153,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1583, col: 12, offset: 51007},
+																	pos:   position{line: 1584, col: 12, offset: 51109},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1585, col: 9, offset: 51070},
+																		pos: position{line: 1586, col: 9, offset: 51172},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1585, col: 9, offset: 51070},
+																				pos: position{line: 1586, col: 9, offset: 51172},
 																				run: (*parser).callonExtraListElement529,
 																				expr: &seqExpr{
-																					pos: position{line: 1585, col: 9, offset: 51070},
+																					pos: position{line: 1586, col: 9, offset: 51172},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1585, col: 9, offset: 51070},
+																							pos:   position{line: 1586, col: 9, offset: 51172},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1585, col: 16, offset: 51077},
+																								pos: position{line: 1586, col: 16, offset: 51179},
 																								run: (*parser).callonExtraListElement532,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1585, col: 16, offset: 51077},
+																									pos: position{line: 1586, col: 16, offset: 51179},
 																									expr: &litMatcher{
-																										pos:        position{line: 1585, col: 17, offset: 51078},
+																										pos:        position{line: 1586, col: 17, offset: 51180},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -27847,22 +28182,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1589, col: 9, offset: 51178},
+																							pos: position{line: 1590, col: 9, offset: 51280},
 																							run: (*parser).callonExtraListElement535,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 11, offset: 51895},
+																				pos: position{line: 1609, col: 11, offset: 51997},
 																				run: (*parser).callonExtraListElement536,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 11, offset: 51895},
+																					pos: position{line: 1609, col: 11, offset: 51997},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 11, offset: 51895},
+																							pos: position{line: 1609, col: 11, offset: 51997},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 12, offset: 51896},
+																								pos:        position{line: 1609, col: 12, offset: 51998},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -27870,7 +28205,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 20, offset: 51904},
+																							pos:        position{line: 1609, col: 20, offset: 52006},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27879,20 +28214,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52021},
+																				pos: position{line: 1611, col: 13, offset: 52123},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52021},
+																					pos: position{line: 1611, col: 13, offset: 52123},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1610, col: 14, offset: 52022},
+																							pos:        position{line: 1611, col: 14, offset: 52124},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 21, offset: 52029},
+																							pos:        position{line: 1611, col: 21, offset: 52131},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27901,20 +28236,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 13, offset: 52149},
+																				pos: position{line: 1613, col: 13, offset: 52251},
 																				run: (*parser).callonExtraListElement545,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 13, offset: 52149},
+																					pos: position{line: 1613, col: 13, offset: 52251},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1612, col: 14, offset: 52150},
+																							pos:        position{line: 1613, col: 14, offset: 52252},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 21, offset: 52157},
+																							pos:        position{line: 1613, col: 21, offset: 52259},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27923,15 +28258,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52277},
+																				pos: position{line: 1615, col: 13, offset: 52379},
 																				run: (*parser).callonExtraListElement549,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52277},
+																					pos: position{line: 1615, col: 13, offset: 52379},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1614, col: 13, offset: 52277},
+																							pos: position{line: 1615, col: 13, offset: 52379},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1614, col: 14, offset: 52278},
+																								pos:        position{line: 1615, col: 14, offset: 52380},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -27939,7 +28274,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 26, offset: 52290},
+																							pos:        position{line: 1615, col: 26, offset: 52392},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -27948,15 +28283,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52410},
+																				pos: position{line: 1617, col: 13, offset: 52512},
 																				run: (*parser).callonExtraListElement554,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52410},
+																					pos: position{line: 1617, col: 13, offset: 52512},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1616, col: 13, offset: 52410},
+																							pos: position{line: 1617, col: 13, offset: 52512},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1616, col: 14, offset: 52411},
+																								pos:        position{line: 1617, col: 14, offset: 52513},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -27964,7 +28299,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 26, offset: 52423},
+																							pos:        position{line: 1617, col: 26, offset: 52525},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -27976,12 +28311,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2905, col: 11, offset: 91544},
+																	pos: position{line: 2906, col: 11, offset: 91694},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2905, col: 11, offset: 91544},
+																		pos: position{line: 2906, col: 11, offset: 91694},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 11, offset: 91544},
+																			pos:        position{line: 2906, col: 11, offset: 91694},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27994,20 +28329,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1514, col: 5, offset: 49013},
+													pos: position{line: 1514, col: 5, offset: 49081},
 													expr: &actionExpr{
-														pos: position{line: 1633, col: 5, offset: 52962},
+														pos: position{line: 1634, col: 5, offset: 53064},
 														run: (*parser).callonExtraListElement563,
 														expr: &seqExpr{
-															pos: position{line: 1633, col: 5, offset: 52962},
+															pos: position{line: 1634, col: 5, offset: 53064},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1633, col: 5, offset: 52962},
+																	pos: position{line: 1634, col: 5, offset: 53064},
 																	expr: &actionExpr{
-																		pos: position{line: 2901, col: 10, offset: 91483},
+																		pos: position{line: 2902, col: 10, offset: 91633},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2901, col: 10, offset: 91483},
+																			pos:        position{line: 2902, col: 10, offset: 91633},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28016,24 +28351,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1634, col: 5, offset: 52974},
+																	pos:   position{line: 1635, col: 5, offset: 53076},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1635, col: 9, offset: 52990},
+																		pos: position{line: 1636, col: 9, offset: 53092},
 																		run: (*parser).callonExtraListElement569,
 																		expr: &choiceExpr{
-																			pos: position{line: 1635, col: 10, offset: 52991},
+																			pos: position{line: 1636, col: 10, offset: 53093},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1635, col: 11, offset: 52992},
+																					pos:        position{line: 1636, col: 11, offset: 53094},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1635, col: 18, offset: 52999},
+																					pos: position{line: 1636, col: 18, offset: 53101},
 																					expr: &litMatcher{
-																						pos:        position{line: 1635, col: 19, offset: 53000},
+																						pos:        position{line: 1636, col: 19, offset: 53102},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28044,16 +28379,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1638, col: 7, offset: 53090},
+																	pos: position{line: 1639, col: 7, offset: 53192},
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2905, col: 11, offset: 91544},
+																	pos: position{line: 2906, col: 11, offset: 91694},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2905, col: 11, offset: 91544},
+																		pos: position{line: 2906, col: 11, offset: 91694},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 11, offset: 91544},
+																			pos:        position{line: 2906, col: 11, offset: 91694},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28066,29 +28401,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1515, col: 5, offset: 49045},
+													pos: position{line: 1515, col: 5, offset: 49113},
 													expr: &actionExpr{
-														pos: position{line: 1722, col: 5, offset: 55499},
+														pos: position{line: 1723, col: 5, offset: 55601},
 														run: (*parser).callonExtraListElement579,
 														expr: &seqExpr{
-															pos: position{line: 1722, col: 5, offset: 55499},
+															pos: position{line: 1723, col: 5, offset: 55601},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1722, col: 5, offset: 55499},
+																	pos:        position{line: 1723, col: 5, offset: 55601},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1722, col: 9, offset: 55503},
+																	pos:   position{line: 1723, col: 9, offset: 55605},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1722, col: 14, offset: 55508},
+																		pos: position{line: 1723, col: 14, offset: 55610},
 																		run: (*parser).callonExtraListElement583,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1722, col: 14, offset: 55508},
+																			pos: position{line: 1723, col: 14, offset: 55610},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1722, col: 14, offset: 55508},
+																				pos:        position{line: 1723, col: 14, offset: 55610},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28098,18 +28433,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1722, col: 62, offset: 55556},
+																	pos:        position{line: 1723, col: 62, offset: 55658},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2905, col: 11, offset: 91544},
+																	pos: position{line: 2906, col: 11, offset: 91694},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2905, col: 11, offset: 91544},
+																		pos: position{line: 2906, col: 11, offset: 91694},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 11, offset: 91544},
+																			pos:        position{line: 2906, col: 11, offset: 91694},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28122,36 +28457,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1516, col: 5, offset: 49075},
+													pos: position{line: 1516, col: 5, offset: 49143},
 													expr: &seqExpr{
-														pos: position{line: 1516, col: 7, offset: 49077},
+														pos: position{line: 1516, col: 7, offset: 49145},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1668, col: 5, offset: 53981},
+																pos: position{line: 1669, col: 5, offset: 54083},
 																run: (*parser).callonExtraListElement592,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1668, col: 5, offset: 53981},
+																	pos: position{line: 1669, col: 5, offset: 54083},
 																	expr: &seqExpr{
-																		pos: position{line: 1668, col: 6, offset: 53982},
+																		pos: position{line: 1669, col: 6, offset: 54084},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1668, col: 6, offset: 53982},
+																				pos: position{line: 1669, col: 6, offset: 54084},
 																				expr: &actionExpr{
-																					pos: position{line: 1673, col: 5, offset: 54132},
+																					pos: position{line: 1674, col: 5, offset: 54234},
 																					run: (*parser).callonExtraListElement596,
 																					expr: &seqExpr{
-																						pos: position{line: 1673, col: 5, offset: 54132},
+																						pos: position{line: 1674, col: 5, offset: 54234},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1673, col: 5, offset: 54132},
+																								pos:   position{line: 1674, col: 5, offset: 54234},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1673, col: 16, offset: 54143},
+																									pos: position{line: 1674, col: 16, offset: 54245},
 																									run: (*parser).callonExtraListElement599,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1673, col: 16, offset: 54143},
+																										pos: position{line: 1674, col: 16, offset: 54245},
 																										expr: &litMatcher{
-																											pos:        position{line: 1673, col: 17, offset: 54144},
+																											pos:        position{line: 1674, col: 17, offset: 54246},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -28160,7 +28495,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1676, col: 5, offset: 54201},
+																								pos: position{line: 1677, col: 5, offset: 54303},
 																								run: (*parser).callonExtraListElement602,
 																							},
 																						},
@@ -28168,30 +28503,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1668, col: 35, offset: 54011},
+																				pos: position{line: 1669, col: 35, offset: 54113},
 																				expr: &choiceExpr{
-																					pos: position{line: 2923, col: 8, offset: 91881},
+																					pos: position{line: 2924, col: 8, offset: 92031},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2910, col: 12, offset: 91654},
+																							pos: position{line: 2911, col: 12, offset: 91804},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2910, col: 13, offset: 91655},
+																								pos: position{line: 2911, col: 13, offset: 91805},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 13, offset: 91655},
+																										pos:        position{line: 2911, col: 13, offset: 91805},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 20, offset: 91662},
+																										pos:        position{line: 2911, col: 20, offset: 91812},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 29, offset: 91671},
+																										pos:        position{line: 2911, col: 29, offset: 91821},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -28200,37 +28535,37 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2920, col: 8, offset: 91831},
+																							pos: position{line: 2921, col: 8, offset: 91981},
 																							expr: &anyMatcher{
-																								line: 2920, col: 9, offset: 91832,
+																								line: 2921, col: 9, offset: 91982,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1668, col: 40, offset: 54016,
+																				line: 1669, col: 40, offset: 54118,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1673, col: 5, offset: 54132},
+																pos: position{line: 1674, col: 5, offset: 54234},
 																run: (*parser).callonExtraListElement613,
 																expr: &seqExpr{
-																	pos: position{line: 1673, col: 5, offset: 54132},
+																	pos: position{line: 1674, col: 5, offset: 54234},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1673, col: 5, offset: 54132},
+																			pos:   position{line: 1674, col: 5, offset: 54234},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1673, col: 16, offset: 54143},
+																				pos: position{line: 1674, col: 16, offset: 54245},
 																				run: (*parser).callonExtraListElement616,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1673, col: 16, offset: 54143},
+																					pos: position{line: 1674, col: 16, offset: 54245},
 																					expr: &litMatcher{
-																						pos:        position{line: 1673, col: 17, offset: 54144},
+																						pos:        position{line: 1674, col: 17, offset: 54246},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28239,7 +28574,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1676, col: 5, offset: 54201},
+																			pos: position{line: 1677, col: 5, offset: 54303},
 																			run: (*parser).callonExtraListElement619,
 																		},
 																	},
@@ -28249,17 +28584,17 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1517, col: 5, offset: 49133},
+													pos: position{line: 1517, col: 5, offset: 49201},
 													expr: &actionExpr{
-														pos: position{line: 725, col: 5, offset: 23071},
+														pos: position{line: 725, col: 5, offset: 23139},
 														run: (*parser).callonExtraListElement621,
 														expr: &seqExpr{
-															pos: position{line: 725, col: 5, offset: 23071},
+															pos: position{line: 725, col: 5, offset: 23139},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 725, col: 5, offset: 23071},
+																	pos: position{line: 725, col: 5, offset: 23139},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2791, col: 13, offset: 88578},
+																		pos:        position{line: 2792, col: 13, offset: 88728},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28267,36 +28602,36 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 726, col: 5, offset: 23101},
+																	pos:   position{line: 726, col: 5, offset: 23169},
 																	label: "delimiter",
 																	expr: &choiceExpr{
-																		pos: position{line: 727, col: 9, offset: 23121},
+																		pos: position{line: 727, col: 9, offset: 23189},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 741, col: 5, offset: 23613},
+																				pos: position{line: 741, col: 5, offset: 23681},
 																				run: (*parser).callonExtraListElement627,
 																				expr: &seqExpr{
-																					pos: position{line: 741, col: 5, offset: 23613},
+																					pos: position{line: 741, col: 5, offset: 23681},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 741, col: 5, offset: 23613},
+																							pos:   position{line: 741, col: 5, offset: 23681},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 741, col: 16, offset: 23624},
+																								pos: position{line: 741, col: 16, offset: 23692},
 																								run: (*parser).callonExtraListElement630,
 																								expr: &seqExpr{
-																									pos: position{line: 741, col: 16, offset: 23624},
+																									pos: position{line: 741, col: 16, offset: 23692},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 741, col: 16, offset: 23624},
+																											pos:        position{line: 741, col: 16, offset: 23692},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 741, col: 23, offset: 23631},
+																											pos: position{line: 741, col: 23, offset: 23699},
 																											expr: &litMatcher{
-																												pos:        position{line: 741, col: 23, offset: 23631},
+																												pos:        position{line: 741, col: 23, offset: 23699},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -28307,12 +28642,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 743, col: 8, offset: 23715},
+																							pos: position{line: 743, col: 8, offset: 23783},
 																							expr: &actionExpr{
-																								pos: position{line: 2901, col: 10, offset: 91483},
+																								pos: position{line: 2902, col: 10, offset: 91633},
 																								run: (*parser).callonExtraListElement636,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2901, col: 10, offset: 91483},
+																									pos:        position{line: 2902, col: 10, offset: 91633},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28321,28 +28656,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonExtraListElement639,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28351,9 +28686,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -28362,30 +28697,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 748, col: 5, offset: 23861},
+																				pos: position{line: 748, col: 5, offset: 23929},
 																				run: (*parser).callonExtraListElement646,
 																				expr: &seqExpr{
-																					pos: position{line: 748, col: 5, offset: 23861},
+																					pos: position{line: 748, col: 5, offset: 23929},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 748, col: 5, offset: 23861},
+																							pos:   position{line: 748, col: 5, offset: 23929},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 748, col: 16, offset: 23872},
+																								pos: position{line: 748, col: 16, offset: 23940},
 																								run: (*parser).callonExtraListElement649,
 																								expr: &seqExpr{
-																									pos: position{line: 748, col: 16, offset: 23872},
+																									pos: position{line: 748, col: 16, offset: 23940},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 748, col: 16, offset: 23872},
+																											pos:        position{line: 748, col: 16, offset: 23940},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 748, col: 23, offset: 23879},
+																											pos: position{line: 748, col: 23, offset: 23947},
 																											expr: &litMatcher{
-																												pos:        position{line: 748, col: 23, offset: 23879},
+																												pos:        position{line: 748, col: 23, offset: 23947},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -28396,12 +28731,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 750, col: 8, offset: 23963},
+																							pos: position{line: 750, col: 8, offset: 24031},
 																							expr: &actionExpr{
-																								pos: position{line: 2901, col: 10, offset: 91483},
+																								pos: position{line: 2902, col: 10, offset: 91633},
 																								run: (*parser).callonExtraListElement655,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2901, col: 10, offset: 91483},
+																									pos:        position{line: 2902, col: 10, offset: 91633},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28410,28 +28745,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonExtraListElement658,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28440,9 +28775,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -28451,27 +28786,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 761, col: 26, offset: 24349},
+																				pos: position{line: 761, col: 26, offset: 24417},
 																				run: (*parser).callonExtraListElement665,
 																				expr: &seqExpr{
-																					pos: position{line: 761, col: 26, offset: 24349},
+																					pos: position{line: 761, col: 26, offset: 24417},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 761, col: 26, offset: 24349},
+																							pos:        position{line: 761, col: 26, offset: 24417},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 761, col: 32, offset: 24355},
+																							pos:   position{line: 761, col: 32, offset: 24423},
 																							label: "language",
 																							expr: &actionExpr{
-																								pos: position{line: 765, col: 13, offset: 24485},
+																								pos: position{line: 765, col: 13, offset: 24553},
 																								run: (*parser).callonExtraListElement669,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 765, col: 14, offset: 24486},
+																									pos: position{line: 765, col: 14, offset: 24554},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 765, col: 14, offset: 24486},
+																										pos:        position{line: 765, col: 14, offset: 24554},
 																										val:        "[^\\r\\n` ]",
 																										chars:      []rune{'\r', '\n', '`', ' '},
 																										ignoreCase: false,
@@ -28481,12 +28816,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 761, col: 52, offset: 24375},
+																							pos: position{line: 761, col: 52, offset: 24443},
 																							expr: &actionExpr{
-																								pos: position{line: 2901, col: 10, offset: 91483},
+																								pos: position{line: 2902, col: 10, offset: 91633},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2901, col: 10, offset: 91483},
+																									pos:        position{line: 2902, col: 10, offset: 91633},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28495,28 +28830,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28525,9 +28860,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -28536,30 +28871,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 755, col: 5, offset: 24108},
+																				pos: position{line: 755, col: 5, offset: 24176},
 																				run: (*parser).callonExtraListElement683,
 																				expr: &seqExpr{
-																					pos: position{line: 755, col: 5, offset: 24108},
+																					pos: position{line: 755, col: 5, offset: 24176},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 755, col: 5, offset: 24108},
+																							pos:   position{line: 755, col: 5, offset: 24176},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 755, col: 16, offset: 24119},
+																								pos: position{line: 755, col: 16, offset: 24187},
 																								run: (*parser).callonExtraListElement686,
 																								expr: &seqExpr{
-																									pos: position{line: 755, col: 16, offset: 24119},
+																									pos: position{line: 755, col: 16, offset: 24187},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 755, col: 16, offset: 24119},
+																											pos:        position{line: 755, col: 16, offset: 24187},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 755, col: 22, offset: 24125},
+																											pos: position{line: 755, col: 22, offset: 24193},
 																											expr: &litMatcher{
-																												pos:        position{line: 755, col: 22, offset: 24125},
+																												pos:        position{line: 755, col: 22, offset: 24193},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -28570,12 +28905,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 757, col: 8, offset: 24209},
+																							pos: position{line: 757, col: 8, offset: 24277},
 																							expr: &actionExpr{
-																								pos: position{line: 2901, col: 10, offset: 91483},
+																								pos: position{line: 2902, col: 10, offset: 91633},
 																								run: (*parser).callonExtraListElement692,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2901, col: 10, offset: 91483},
+																									pos:        position{line: 2902, col: 10, offset: 91633},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28584,28 +28919,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonExtraListElement695,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28614,9 +28949,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -28625,30 +28960,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 770, col: 5, offset: 24645},
+																				pos: position{line: 770, col: 5, offset: 24713},
 																				run: (*parser).callonExtraListElement702,
 																				expr: &seqExpr{
-																					pos: position{line: 770, col: 5, offset: 24645},
+																					pos: position{line: 770, col: 5, offset: 24713},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 770, col: 5, offset: 24645},
+																							pos:   position{line: 770, col: 5, offset: 24713},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 770, col: 16, offset: 24656},
+																								pos: position{line: 770, col: 16, offset: 24724},
 																								run: (*parser).callonExtraListElement705,
 																								expr: &seqExpr{
-																									pos: position{line: 770, col: 16, offset: 24656},
+																									pos: position{line: 770, col: 16, offset: 24724},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 770, col: 16, offset: 24656},
+																											pos:        position{line: 770, col: 16, offset: 24724},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 770, col: 23, offset: 24663},
+																											pos: position{line: 770, col: 23, offset: 24731},
 																											expr: &litMatcher{
-																												pos:        position{line: 770, col: 23, offset: 24663},
+																												pos:        position{line: 770, col: 23, offset: 24731},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -28659,12 +28994,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 772, col: 8, offset: 24747},
+																							pos: position{line: 772, col: 8, offset: 24815},
 																							expr: &actionExpr{
-																								pos: position{line: 2901, col: 10, offset: 91483},
+																								pos: position{line: 2902, col: 10, offset: 91633},
 																								run: (*parser).callonExtraListElement711,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2901, col: 10, offset: 91483},
+																									pos:        position{line: 2902, col: 10, offset: 91633},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28673,28 +29008,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonExtraListElement714,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28703,9 +29038,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -28714,30 +29049,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 784, col: 5, offset: 25121},
+																				pos: position{line: 784, col: 5, offset: 25189},
 																				run: (*parser).callonExtraListElement721,
 																				expr: &seqExpr{
-																					pos: position{line: 784, col: 5, offset: 25121},
+																					pos: position{line: 784, col: 5, offset: 25189},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 784, col: 5, offset: 25121},
+																							pos:   position{line: 784, col: 5, offset: 25189},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 784, col: 16, offset: 25132},
+																								pos: position{line: 784, col: 16, offset: 25200},
 																								run: (*parser).callonExtraListElement724,
 																								expr: &seqExpr{
-																									pos: position{line: 784, col: 16, offset: 25132},
+																									pos: position{line: 784, col: 16, offset: 25200},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 784, col: 16, offset: 25132},
+																											pos:        position{line: 784, col: 16, offset: 25200},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 784, col: 23, offset: 25139},
+																											pos: position{line: 784, col: 23, offset: 25207},
 																											expr: &litMatcher{
-																												pos:        position{line: 784, col: 23, offset: 25139},
+																												pos:        position{line: 784, col: 23, offset: 25207},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -28748,12 +29083,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 786, col: 8, offset: 25223},
+																							pos: position{line: 786, col: 8, offset: 25291},
 																							expr: &actionExpr{
-																								pos: position{line: 2901, col: 10, offset: 91483},
+																								pos: position{line: 2902, col: 10, offset: 91633},
 																								run: (*parser).callonExtraListElement730,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2901, col: 10, offset: 91483},
+																									pos:        position{line: 2902, col: 10, offset: 91633},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28762,28 +29097,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonExtraListElement733,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28792,9 +29127,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -28803,30 +29138,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 791, col: 5, offset: 25373},
+																				pos: position{line: 791, col: 5, offset: 25441},
 																				run: (*parser).callonExtraListElement740,
 																				expr: &seqExpr{
-																					pos: position{line: 791, col: 5, offset: 25373},
+																					pos: position{line: 791, col: 5, offset: 25441},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 791, col: 5, offset: 25373},
+																							pos:   position{line: 791, col: 5, offset: 25441},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 791, col: 16, offset: 25384},
+																								pos: position{line: 791, col: 16, offset: 25452},
 																								run: (*parser).callonExtraListElement743,
 																								expr: &seqExpr{
-																									pos: position{line: 791, col: 16, offset: 25384},
+																									pos: position{line: 791, col: 16, offset: 25452},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 791, col: 16, offset: 25384},
+																											pos:        position{line: 791, col: 16, offset: 25452},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 791, col: 23, offset: 25391},
+																											pos: position{line: 791, col: 23, offset: 25459},
 																											expr: &litMatcher{
-																												pos:        position{line: 791, col: 23, offset: 25391},
+																												pos:        position{line: 791, col: 23, offset: 25459},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -28837,12 +29172,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 793, col: 8, offset: 25475},
+																							pos: position{line: 793, col: 8, offset: 25543},
 																							expr: &actionExpr{
-																								pos: position{line: 2901, col: 10, offset: 91483},
+																								pos: position{line: 2902, col: 10, offset: 91633},
 																								run: (*parser).callonExtraListElement749,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2901, col: 10, offset: 91483},
+																									pos:        position{line: 2902, col: 10, offset: 91633},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28851,28 +29186,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonExtraListElement752,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28881,9 +29216,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -28892,30 +29227,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 798, col: 5, offset: 25623},
+																				pos: position{line: 798, col: 5, offset: 25691},
 																				run: (*parser).callonExtraListElement759,
 																				expr: &seqExpr{
-																					pos: position{line: 798, col: 5, offset: 25623},
+																					pos: position{line: 798, col: 5, offset: 25691},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 798, col: 5, offset: 25623},
+																							pos:   position{line: 798, col: 5, offset: 25691},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 798, col: 16, offset: 25634},
+																								pos: position{line: 798, col: 16, offset: 25702},
 																								run: (*parser).callonExtraListElement762,
 																								expr: &seqExpr{
-																									pos: position{line: 798, col: 16, offset: 25634},
+																									pos: position{line: 798, col: 16, offset: 25702},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 798, col: 16, offset: 25634},
+																											pos:        position{line: 798, col: 16, offset: 25702},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 798, col: 23, offset: 25641},
+																											pos: position{line: 798, col: 23, offset: 25709},
 																											expr: &litMatcher{
-																												pos:        position{line: 798, col: 23, offset: 25641},
+																												pos:        position{line: 798, col: 23, offset: 25709},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -28926,12 +29261,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 800, col: 8, offset: 25725},
+																							pos: position{line: 800, col: 8, offset: 25793},
 																							expr: &actionExpr{
-																								pos: position{line: 2901, col: 10, offset: 91483},
+																								pos: position{line: 2902, col: 10, offset: 91633},
 																								run: (*parser).callonExtraListElement768,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2901, col: 10, offset: 91483},
+																									pos:        position{line: 2902, col: 10, offset: 91633},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28940,28 +29275,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonExtraListElement771,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28970,9 +29305,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -28981,30 +29316,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 805, col: 5, offset: 25869},
+																				pos: position{line: 805, col: 5, offset: 25937},
 																				run: (*parser).callonExtraListElement778,
 																				expr: &seqExpr{
-																					pos: position{line: 805, col: 5, offset: 25869},
+																					pos: position{line: 805, col: 5, offset: 25937},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 805, col: 5, offset: 25869},
+																							pos:   position{line: 805, col: 5, offset: 25937},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 805, col: 16, offset: 25880},
+																								pos: position{line: 805, col: 16, offset: 25948},
 																								run: (*parser).callonExtraListElement781,
 																								expr: &seqExpr{
-																									pos: position{line: 805, col: 16, offset: 25880},
+																									pos: position{line: 805, col: 16, offset: 25948},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 805, col: 16, offset: 25880},
+																											pos:        position{line: 805, col: 16, offset: 25948},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 805, col: 23, offset: 25887},
+																											pos: position{line: 805, col: 23, offset: 25955},
 																											expr: &litMatcher{
-																												pos:        position{line: 805, col: 23, offset: 25887},
+																												pos:        position{line: 805, col: 23, offset: 25955},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -29015,12 +29350,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 807, col: 8, offset: 25971},
+																							pos: position{line: 807, col: 8, offset: 26039},
 																							expr: &actionExpr{
-																								pos: position{line: 2901, col: 10, offset: 91483},
+																								pos: position{line: 2902, col: 10, offset: 91633},
 																								run: (*parser).callonExtraListElement787,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2901, col: 10, offset: 91483},
+																									pos:        position{line: 2902, col: 10, offset: 91633},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29029,28 +29364,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonExtraListElement790,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29059,9 +29394,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -29077,15 +29412,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1518, col: 5, offset: 49153},
+													pos:   position{line: 1518, col: 5, offset: 49221},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2851, col: 14, offset: 90076},
+														pos: position{line: 2852, col: 14, offset: 90226},
 														run: (*parser).callonExtraListElement798,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2851, col: 14, offset: 90076},
+															pos: position{line: 2852, col: 14, offset: 90226},
 															expr: &charClassMatcher{
-																pos:        position{line: 2851, col: 14, offset: 90076},
+																pos:        position{line: 2852, col: 14, offset: 90226},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29095,28 +29430,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2923, col: 8, offset: 91881},
+													pos: position{line: 2924, col: 8, offset: 92031},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2910, col: 12, offset: 91654},
+															pos: position{line: 2911, col: 12, offset: 91804},
 															run: (*parser).callonExtraListElement802,
 															expr: &choiceExpr{
-																pos: position{line: 2910, col: 13, offset: 91655},
+																pos: position{line: 2911, col: 13, offset: 91805},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 13, offset: 91655},
+																		pos:        position{line: 2911, col: 13, offset: 91805},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 20, offset: 91662},
+																		pos:        position{line: 2911, col: 20, offset: 91812},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 29, offset: 91671},
+																		pos:        position{line: 2911, col: 29, offset: 91821},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29125,9 +29460,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2920, col: 8, offset: 91831},
+															pos: position{line: 2921, col: 8, offset: 91981},
 															expr: &anyMatcher{
-																line: 2920, col: 9, offset: 91832,
+																line: 2921, col: 9, offset: 91982,
 															},
 														},
 													},
@@ -29144,28 +29479,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1534, col: 1, offset: 49544},
+			pos:  position{line: 1534, col: 1, offset: 49612},
 			expr: &actionExpr{
-				pos: position{line: 1535, col: 5, offset: 49569},
+				pos: position{line: 1535, col: 5, offset: 49637},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1535, col: 5, offset: 49569},
+					pos: position{line: 1535, col: 5, offset: 49637},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1535, col: 5, offset: 49569},
+							pos:   position{line: 1535, col: 5, offset: 49637},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1535, col: 12, offset: 49576},
+								pos: position{line: 1535, col: 12, offset: 49644},
 								expr: &seqExpr{
-									pos: position{line: 1535, col: 13, offset: 49577},
+									pos: position{line: 1535, col: 13, offset: 49645},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1535, col: 13, offset: 49577},
+											pos: position{line: 1535, col: 13, offset: 49645},
 											expr: &actionExpr{
-												pos: position{line: 2901, col: 10, offset: 91483},
+												pos: position{line: 2902, col: 10, offset: 91633},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2901, col: 10, offset: 91483},
+													pos:        position{line: 2902, col: 10, offset: 91633},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29174,25 +29509,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2910, col: 12, offset: 91654},
+											pos: position{line: 2911, col: 12, offset: 91804},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2910, col: 13, offset: 91655},
+												pos: position{line: 2911, col: 13, offset: 91805},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2910, col: 13, offset: 91655},
+														pos:        position{line: 2911, col: 13, offset: 91805},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2910, col: 20, offset: 91662},
+														pos:        position{line: 2911, col: 20, offset: 91812},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2910, col: 29, offset: 91671},
+														pos:        position{line: 2911, col: 29, offset: 91821},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29205,18 +29540,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1542, col: 27, offset: 49781},
+							pos:        position{line: 1543, col: 27, offset: 49883},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1542, col: 31, offset: 49785},
+							pos: position{line: 1543, col: 31, offset: 49887},
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 10, offset: 91483},
+								pos: position{line: 2902, col: 10, offset: 91633},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2901, col: 10, offset: 91483},
+									pos:        position{line: 2902, col: 10, offset: 91633},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29225,25 +29560,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2910, col: 12, offset: 91654},
+							pos: position{line: 2911, col: 12, offset: 91804},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2910, col: 13, offset: 91655},
+								pos: position{line: 2911, col: 13, offset: 91805},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2910, col: 13, offset: 91655},
+										pos:        position{line: 2911, col: 13, offset: 91805},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2910, col: 20, offset: 91662},
+										pos:        position{line: 2911, col: 20, offset: 91812},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2910, col: 29, offset: 91671},
+										pos:        position{line: 2911, col: 29, offset: 91821},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29251,13 +29586,96 @@ var g = &grammar{
 								},
 							},
 						},
+						&zeroOrMoreExpr{
+							pos: position{line: 1537, col: 5, offset: 49694},
+							expr: &actionExpr{
+								pos: position{line: 2512, col: 22, offset: 80570},
+								run: (*parser).callonListContinuation24,
+								expr: &seqExpr{
+									pos: position{line: 2512, col: 22, offset: 80570},
+									exprs: []interface{}{
+										&litMatcher{
+											pos:        position{line: 2517, col: 31, offset: 80820},
+											val:        "//",
+											ignoreCase: false,
+											want:       "\"//\"",
+										},
+										&notExpr{
+											pos: position{line: 2517, col: 36, offset: 80825},
+											expr: &litMatcher{
+												pos:        position{line: 2517, col: 37, offset: 80826},
+												val:        "/",
+												ignoreCase: false,
+												want:       "\"/\"",
+											},
+										},
+										&labeledExpr{
+											pos:   position{line: 2512, col: 49, offset: 80597},
+											label: "content",
+											expr: &actionExpr{
+												pos: position{line: 2848, col: 13, offset: 90159},
+												run: (*parser).callonListContinuation30,
+												expr: &zeroOrMoreExpr{
+													pos: position{line: 2848, col: 13, offset: 90159},
+													expr: &charClassMatcher{
+														pos:        position{line: 2848, col: 13, offset: 90159},
+														val:        "[^\\r\\n]",
+														chars:      []rune{'\r', '\n'},
+														ignoreCase: false,
+														inverted:   true,
+													},
+												},
+											},
+										},
+										&choiceExpr{
+											pos: position{line: 2924, col: 8, offset: 92031},
+											alternatives: []interface{}{
+												&actionExpr{
+													pos: position{line: 2911, col: 12, offset: 91804},
+													run: (*parser).callonListContinuation34,
+													expr: &choiceExpr{
+														pos: position{line: 2911, col: 13, offset: 91805},
+														alternatives: []interface{}{
+															&litMatcher{
+																pos:        position{line: 2911, col: 13, offset: 91805},
+																val:        "\n",
+																ignoreCase: false,
+																want:       "\"\\n\"",
+															},
+															&litMatcher{
+																pos:        position{line: 2911, col: 20, offset: 91812},
+																val:        "\r\n",
+																ignoreCase: false,
+																want:       "\"\\r\\n\"",
+															},
+															&litMatcher{
+																pos:        position{line: 2911, col: 29, offset: 91821},
+																val:        "\r",
+																ignoreCase: false,
+																want:       "\"\\r\"",
+															},
+														},
+													},
+												},
+												&notExpr{
+													pos: position{line: 2921, col: 8, offset: 91981},
+													expr: &anyMatcher{
+														line: 2921, col: 9, offset: 91982,
+													},
+												},
+											},
+										},
+									},
+								},
+							},
+						},
 						&labeledExpr{
-							pos:   position{line: 1537, col: 5, offset: 49626},
+							pos:   position{line: 1538, col: 5, offset: 49728},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1537, col: 13, offset: 49634},
+								pos: position{line: 1538, col: 13, offset: 49736},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1537, col: 13, offset: 49634},
+									pos:  position{line: 1538, col: 13, offset: 49736},
 									name: "ListContinuationElement",
 								},
 							},
@@ -29268,46 +29686,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1544, col: 1, offset: 49801},
+			pos:  position{line: 1545, col: 1, offset: 49903},
 			expr: &actionExpr{
-				pos: position{line: 1545, col: 5, offset: 49872},
+				pos: position{line: 1546, col: 5, offset: 49974},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1545, col: 5, offset: 49872},
+					pos: position{line: 1546, col: 5, offset: 49974},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2918, col: 11, offset: 91817},
+							pos: position{line: 2919, col: 11, offset: 91967},
 							expr: &anyMatcher{
-								line: 2918, col: 13, offset: 91819,
+								line: 2919, col: 13, offset: 91969,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1546, col: 5, offset: 49900},
+							pos: position{line: 1547, col: 5, offset: 50002},
 							expr: &choiceExpr{
-								pos: position{line: 1483, col: 5, offset: 47858},
+								pos: position{line: 1483, col: 5, offset: 47926},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1576, col: 5, offset: 50792},
+										pos: position{line: 1577, col: 5, offset: 50894},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1576, col: 5, offset: 50792},
+											pos: position{line: 1577, col: 5, offset: 50894},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1576, col: 5, offset: 50792},
+													pos:   position{line: 1577, col: 5, offset: 50894},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1583, col: 5, offset: 51000},
+														pos: position{line: 1584, col: 5, offset: 51102},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1583, col: 5, offset: 51000},
+															pos: position{line: 1584, col: 5, offset: 51102},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1583, col: 5, offset: 51000},
+																	pos: position{line: 1584, col: 5, offset: 51102},
 																	expr: &actionExpr{
-																		pos: position{line: 2901, col: 10, offset: 91483},
+																		pos: position{line: 2902, col: 10, offset: 91633},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2901, col: 10, offset: 91483},
+																			pos:        position{line: 2902, col: 10, offset: 91633},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29316,27 +29734,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1583, col: 12, offset: 51007},
+																	pos:   position{line: 1584, col: 12, offset: 51109},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1585, col: 9, offset: 51070},
+																		pos: position{line: 1586, col: 9, offset: 51172},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1585, col: 9, offset: 51070},
+																				pos: position{line: 1586, col: 9, offset: 51172},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1585, col: 9, offset: 51070},
+																					pos: position{line: 1586, col: 9, offset: 51172},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1585, col: 9, offset: 51070},
+																							pos:   position{line: 1586, col: 9, offset: 51172},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1585, col: 16, offset: 51077},
+																								pos: position{line: 1586, col: 16, offset: 51179},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1585, col: 16, offset: 51077},
+																									pos: position{line: 1586, col: 16, offset: 51179},
 																									expr: &litMatcher{
-																										pos:        position{line: 1585, col: 17, offset: 51078},
+																										pos:        position{line: 1586, col: 17, offset: 51180},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29345,22 +29763,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1589, col: 9, offset: 51178},
+																							pos: position{line: 1590, col: 9, offset: 51280},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 11, offset: 51895},
+																				pos: position{line: 1609, col: 11, offset: 51997},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 11, offset: 51895},
+																					pos: position{line: 1609, col: 11, offset: 51997},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 11, offset: 51895},
+																							pos: position{line: 1609, col: 11, offset: 51997},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 12, offset: 51896},
+																								pos:        position{line: 1609, col: 12, offset: 51998},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29368,7 +29786,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 20, offset: 51904},
+																							pos:        position{line: 1609, col: 20, offset: 52006},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29377,20 +29795,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52021},
+																				pos: position{line: 1611, col: 13, offset: 52123},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52021},
+																					pos: position{line: 1611, col: 13, offset: 52123},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1610, col: 14, offset: 52022},
+																							pos:        position{line: 1611, col: 14, offset: 52124},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 21, offset: 52029},
+																							pos:        position{line: 1611, col: 21, offset: 52131},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29399,20 +29817,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 13, offset: 52149},
+																				pos: position{line: 1613, col: 13, offset: 52251},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 13, offset: 52149},
+																					pos: position{line: 1613, col: 13, offset: 52251},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1612, col: 14, offset: 52150},
+																							pos:        position{line: 1613, col: 14, offset: 52252},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 21, offset: 52157},
+																							pos:        position{line: 1613, col: 21, offset: 52259},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29421,15 +29839,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52277},
+																				pos: position{line: 1615, col: 13, offset: 52379},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52277},
+																					pos: position{line: 1615, col: 13, offset: 52379},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1614, col: 13, offset: 52277},
+																							pos: position{line: 1615, col: 13, offset: 52379},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1614, col: 14, offset: 52278},
+																								pos:        position{line: 1615, col: 14, offset: 52380},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29437,7 +29855,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 26, offset: 52290},
+																							pos:        position{line: 1615, col: 26, offset: 52392},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29446,15 +29864,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52410},
+																				pos: position{line: 1617, col: 13, offset: 52512},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52410},
+																					pos: position{line: 1617, col: 13, offset: 52512},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1616, col: 13, offset: 52410},
+																							pos: position{line: 1617, col: 13, offset: 52512},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1616, col: 14, offset: 52411},
+																								pos:        position{line: 1617, col: 14, offset: 52513},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29462,7 +29880,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 26, offset: 52423},
+																							pos:        position{line: 1617, col: 26, offset: 52525},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29474,12 +29892,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2905, col: 11, offset: 91544},
+																	pos: position{line: 2906, col: 11, offset: 91694},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2905, col: 11, offset: 91544},
+																		pos: position{line: 2906, col: 11, offset: 91694},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 11, offset: 91544},
+																			pos:        position{line: 2906, col: 11, offset: 91694},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29492,26 +29910,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1577, col: 5, offset: 50831},
+													pos:   position{line: 1578, col: 5, offset: 50933},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1524, col: 5, offset: 49298},
+														pos: position{line: 1524, col: 5, offset: 49366},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1524, col: 5, offset: 49298},
+															pos: position{line: 1524, col: 5, offset: 49366},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1524, col: 5, offset: 49298},
+																	pos:   position{line: 1524, col: 5, offset: 49366},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1524, col: 14, offset: 49307},
+																		pos: position{line: 1524, col: 14, offset: 49375},
 																		expr: &actionExpr{
-																			pos: position{line: 1524, col: 15, offset: 49308},
+																			pos: position{line: 1524, col: 15, offset: 49376},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1524, col: 15, offset: 49308},
+																				pos: position{line: 1524, col: 15, offset: 49376},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1524, col: 15, offset: 49308},
+																					pos:        position{line: 1524, col: 15, offset: 49376},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29522,28 +29940,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2923, col: 8, offset: 91881},
+																	pos: position{line: 2924, col: 8, offset: 92031},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2910, col: 12, offset: 91654},
+																			pos: position{line: 2911, col: 12, offset: 91804},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2910, col: 13, offset: 91655},
+																				pos: position{line: 2911, col: 13, offset: 91805},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91655},
+																						pos:        position{line: 2911, col: 13, offset: 91805},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 20, offset: 91662},
+																						pos:        position{line: 2911, col: 20, offset: 91812},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 29, offset: 91671},
+																						pos:        position{line: 2911, col: 29, offset: 91821},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29552,9 +29970,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2920, col: 8, offset: 91831},
+																			pos: position{line: 2921, col: 8, offset: 91981},
 																			expr: &anyMatcher{
-																				line: 2920, col: 9, offset: 91832,
+																				line: 2921, col: 9, offset: 91982,
 																			},
 																		},
 																	},
@@ -29567,27 +29985,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1626, col: 5, offset: 52689},
+										pos: position{line: 1627, col: 5, offset: 52791},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1626, col: 5, offset: 52689},
+											pos: position{line: 1627, col: 5, offset: 52791},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1626, col: 5, offset: 52689},
+													pos:   position{line: 1627, col: 5, offset: 52791},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1633, col: 5, offset: 52962},
+														pos: position{line: 1634, col: 5, offset: 53064},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1633, col: 5, offset: 52962},
+															pos: position{line: 1634, col: 5, offset: 53064},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1633, col: 5, offset: 52962},
+																	pos: position{line: 1634, col: 5, offset: 53064},
 																	expr: &actionExpr{
-																		pos: position{line: 2901, col: 10, offset: 91483},
+																		pos: position{line: 2902, col: 10, offset: 91633},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2901, col: 10, offset: 91483},
+																			pos:        position{line: 2902, col: 10, offset: 91633},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29596,24 +30014,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1634, col: 5, offset: 52974},
+																	pos:   position{line: 1635, col: 5, offset: 53076},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1635, col: 9, offset: 52990},
+																		pos: position{line: 1636, col: 9, offset: 53092},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1635, col: 10, offset: 52991},
+																			pos: position{line: 1636, col: 10, offset: 53093},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1635, col: 11, offset: 52992},
+																					pos:        position{line: 1636, col: 11, offset: 53094},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1635, col: 18, offset: 52999},
+																					pos: position{line: 1636, col: 18, offset: 53101},
 																					expr: &litMatcher{
-																						pos:        position{line: 1635, col: 19, offset: 53000},
+																						pos:        position{line: 1636, col: 19, offset: 53102},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29624,16 +30042,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1638, col: 7, offset: 53090},
+																	pos: position{line: 1639, col: 7, offset: 53192},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2905, col: 11, offset: 91544},
+																	pos: position{line: 2906, col: 11, offset: 91694},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2905, col: 11, offset: 91544},
+																		pos: position{line: 2906, col: 11, offset: 91694},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 11, offset: 91544},
+																			pos:        position{line: 2906, col: 11, offset: 91694},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29646,56 +30064,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1627, col: 5, offset: 52730},
+													pos:   position{line: 1628, col: 5, offset: 52832},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1627, col: 16, offset: 52741},
+														pos: position{line: 1628, col: 16, offset: 52843},
 														expr: &actionExpr{
-															pos: position{line: 1648, col: 5, offset: 53355},
+															pos: position{line: 1649, col: 5, offset: 53457},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1648, col: 5, offset: 53355},
+																pos: position{line: 1649, col: 5, offset: 53457},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1648, col: 5, offset: 53355},
+																		pos: position{line: 1649, col: 5, offset: 53457},
 																		expr: &litMatcher{
-																			pos:        position{line: 1648, col: 6, offset: 53356},
+																			pos:        position{line: 1649, col: 6, offset: 53458},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1648, col: 10, offset: 53360},
+																		pos:   position{line: 1649, col: 10, offset: 53462},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1649, col: 7, offset: 53374},
+																			pos: position{line: 1650, col: 7, offset: 53476},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1649, col: 7, offset: 53374},
+																					pos: position{line: 1650, col: 7, offset: 53476},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1649, col: 7, offset: 53374},
+																						pos:        position{line: 1650, col: 7, offset: 53476},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1650, col: 7, offset: 53419},
+																					pos: position{line: 1651, col: 7, offset: 53521},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1650, col: 7, offset: 53419},
+																						pos:        position{line: 1651, col: 7, offset: 53521},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1651, col: 7, offset: 53462},
+																					pos: position{line: 1652, col: 7, offset: 53564},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1651, col: 7, offset: 53462},
+																						pos:        position{line: 1652, col: 7, offset: 53564},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -29705,12 +30123,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2905, col: 11, offset: 91544},
+																		pos: position{line: 2906, col: 11, offset: 91694},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2905, col: 11, offset: 91544},
+																			pos: position{line: 2906, col: 11, offset: 91694},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2905, col: 11, offset: 91544},
+																				pos:        position{line: 2906, col: 11, offset: 91694},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29724,26 +30142,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1628, col: 5, offset: 52780},
+													pos:   position{line: 1629, col: 5, offset: 52882},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1524, col: 5, offset: 49298},
+														pos: position{line: 1524, col: 5, offset: 49366},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1524, col: 5, offset: 49298},
+															pos: position{line: 1524, col: 5, offset: 49366},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1524, col: 5, offset: 49298},
+																	pos:   position{line: 1524, col: 5, offset: 49366},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1524, col: 14, offset: 49307},
+																		pos: position{line: 1524, col: 14, offset: 49375},
 																		expr: &actionExpr{
-																			pos: position{line: 1524, col: 15, offset: 49308},
+																			pos: position{line: 1524, col: 15, offset: 49376},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1524, col: 15, offset: 49308},
+																				pos: position{line: 1524, col: 15, offset: 49376},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1524, col: 15, offset: 49308},
+																					pos:        position{line: 1524, col: 15, offset: 49376},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29754,28 +30172,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2923, col: 8, offset: 91881},
+																	pos: position{line: 2924, col: 8, offset: 92031},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2910, col: 12, offset: 91654},
+																			pos: position{line: 2911, col: 12, offset: 91804},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2910, col: 13, offset: 91655},
+																				pos: position{line: 2911, col: 13, offset: 91805},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91655},
+																						pos:        position{line: 2911, col: 13, offset: 91805},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 20, offset: 91662},
+																						pos:        position{line: 2911, col: 20, offset: 91812},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 29, offset: 91671},
+																						pos:        position{line: 2911, col: 29, offset: 91821},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29784,9 +30202,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2920, col: 8, offset: 91831},
+																			pos: position{line: 2921, col: 8, offset: 91981},
 																			expr: &anyMatcher{
-																				line: 2920, col: 9, offset: 91832,
+																				line: 2921, col: 9, offset: 91982,
 																			},
 																		},
 																	},
@@ -29799,36 +30217,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1716, col: 5, offset: 55302},
+										pos: position{line: 1717, col: 5, offset: 55404},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1716, col: 5, offset: 55302},
+											pos: position{line: 1717, col: 5, offset: 55404},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1716, col: 5, offset: 55302},
+													pos:   position{line: 1717, col: 5, offset: 55404},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1722, col: 5, offset: 55499},
+														pos: position{line: 1723, col: 5, offset: 55601},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1722, col: 5, offset: 55499},
+															pos: position{line: 1723, col: 5, offset: 55601},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1722, col: 5, offset: 55499},
+																	pos:        position{line: 1723, col: 5, offset: 55601},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1722, col: 9, offset: 55503},
+																	pos:   position{line: 1723, col: 9, offset: 55605},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1722, col: 14, offset: 55508},
+																		pos: position{line: 1723, col: 14, offset: 55610},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1722, col: 14, offset: 55508},
+																			pos: position{line: 1723, col: 14, offset: 55610},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1722, col: 14, offset: 55508},
+																				pos:        position{line: 1723, col: 14, offset: 55610},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -29838,18 +30256,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1722, col: 62, offset: 55556},
+																	pos:        position{line: 1723, col: 62, offset: 55658},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2905, col: 11, offset: 91544},
+																	pos: position{line: 2906, col: 11, offset: 91694},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2905, col: 11, offset: 91544},
+																		pos: position{line: 2906, col: 11, offset: 91694},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 11, offset: 91544},
+																			pos:        position{line: 2906, col: 11, offset: 91694},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29862,26 +30280,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1717, col: 5, offset: 55338},
+													pos:   position{line: 1718, col: 5, offset: 55440},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1524, col: 5, offset: 49298},
+														pos: position{line: 1524, col: 5, offset: 49366},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1524, col: 5, offset: 49298},
+															pos: position{line: 1524, col: 5, offset: 49366},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1524, col: 5, offset: 49298},
+																	pos:   position{line: 1524, col: 5, offset: 49366},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1524, col: 14, offset: 49307},
+																		pos: position{line: 1524, col: 14, offset: 49375},
 																		expr: &actionExpr{
-																			pos: position{line: 1524, col: 15, offset: 49308},
+																			pos: position{line: 1524, col: 15, offset: 49376},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1524, col: 15, offset: 49308},
+																				pos: position{line: 1524, col: 15, offset: 49376},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1524, col: 15, offset: 49308},
+																					pos:        position{line: 1524, col: 15, offset: 49376},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29892,28 +30310,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2923, col: 8, offset: 91881},
+																	pos: position{line: 2924, col: 8, offset: 92031},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2910, col: 12, offset: 91654},
+																			pos: position{line: 2911, col: 12, offset: 91804},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2910, col: 13, offset: 91655},
+																				pos: position{line: 2911, col: 13, offset: 91805},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91655},
+																						pos:        position{line: 2911, col: 13, offset: 91805},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 20, offset: 91662},
+																						pos:        position{line: 2911, col: 20, offset: 91812},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 29, offset: 91671},
+																						pos:        position{line: 2911, col: 29, offset: 91821},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29922,9 +30340,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2920, col: 8, offset: 91831},
+																			pos: position{line: 2921, col: 8, offset: 91981},
 																			expr: &anyMatcher{
-																				line: 2920, col: 9, offset: 91832,
+																				line: 2921, col: 9, offset: 91982,
 																			},
 																		},
 																	},
@@ -29937,40 +30355,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1660, col: 5, offset: 53655},
+										pos: position{line: 1661, col: 5, offset: 53757},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1660, col: 5, offset: 53655},
+											pos: position{line: 1661, col: 5, offset: 53757},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1660, col: 5, offset: 53655},
+													pos:   position{line: 1661, col: 5, offset: 53757},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1668, col: 5, offset: 53981},
+														pos: position{line: 1669, col: 5, offset: 54083},
 														run: (*parser).callonListContinuationElement150,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1668, col: 5, offset: 53981},
+															pos: position{line: 1669, col: 5, offset: 54083},
 															expr: &seqExpr{
-																pos: position{line: 1668, col: 6, offset: 53982},
+																pos: position{line: 1669, col: 6, offset: 54084},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1668, col: 6, offset: 53982},
+																		pos: position{line: 1669, col: 6, offset: 54084},
 																		expr: &actionExpr{
-																			pos: position{line: 1673, col: 5, offset: 54132},
+																			pos: position{line: 1674, col: 5, offset: 54234},
 																			run: (*parser).callonListContinuationElement154,
 																			expr: &seqExpr{
-																				pos: position{line: 1673, col: 5, offset: 54132},
+																				pos: position{line: 1674, col: 5, offset: 54234},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1673, col: 5, offset: 54132},
+																						pos:   position{line: 1674, col: 5, offset: 54234},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1673, col: 16, offset: 54143},
+																							pos: position{line: 1674, col: 16, offset: 54245},
 																							run: (*parser).callonListContinuationElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1673, col: 16, offset: 54143},
+																								pos: position{line: 1674, col: 16, offset: 54245},
 																								expr: &litMatcher{
-																									pos:        position{line: 1673, col: 17, offset: 54144},
+																									pos:        position{line: 1674, col: 17, offset: 54246},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -29979,7 +30397,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1676, col: 5, offset: 54201},
+																						pos: position{line: 1677, col: 5, offset: 54303},
 																						run: (*parser).callonListContinuationElement160,
 																					},
 																				},
@@ -29987,30 +30405,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1668, col: 35, offset: 54011},
+																		pos: position{line: 1669, col: 35, offset: 54113},
 																		expr: &choiceExpr{
-																			pos: position{line: 2923, col: 8, offset: 91881},
+																			pos: position{line: 2924, col: 8, offset: 92031},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2910, col: 12, offset: 91654},
+																					pos: position{line: 2911, col: 12, offset: 91804},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2910, col: 13, offset: 91655},
+																						pos: position{line: 2911, col: 13, offset: 91805},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 13, offset: 91655},
+																								pos:        position{line: 2911, col: 13, offset: 91805},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 20, offset: 91662},
+																								pos:        position{line: 2911, col: 20, offset: 91812},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 29, offset: 91671},
+																								pos:        position{line: 2911, col: 29, offset: 91821},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30019,16 +30437,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1668, col: 40, offset: 54016,
+																		line: 1669, col: 40, offset: 54118,
 																	},
 																},
 															},
@@ -30036,24 +30454,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1661, col: 5, offset: 53690},
+													pos:   position{line: 1662, col: 5, offset: 53792},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1673, col: 5, offset: 54132},
+														pos: position{line: 1674, col: 5, offset: 54234},
 														run: (*parser).callonListContinuationElement172,
 														expr: &seqExpr{
-															pos: position{line: 1673, col: 5, offset: 54132},
+															pos: position{line: 1674, col: 5, offset: 54234},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1673, col: 5, offset: 54132},
+																	pos:   position{line: 1674, col: 5, offset: 54234},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1673, col: 16, offset: 54143},
+																		pos: position{line: 1674, col: 16, offset: 54245},
 																		run: (*parser).callonListContinuationElement175,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1673, col: 16, offset: 54143},
+																			pos: position{line: 1674, col: 16, offset: 54245},
 																			expr: &litMatcher{
-																				pos:        position{line: 1673, col: 17, offset: 54144},
+																				pos:        position{line: 1674, col: 17, offset: 54246},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30062,7 +30480,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1676, col: 5, offset: 54201},
+																	pos: position{line: 1677, col: 5, offset: 54303},
 																	run: (*parser).callonListContinuationElement178,
 																},
 															},
@@ -30070,24 +30488,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1662, col: 5, offset: 53735},
+													pos:   position{line: 1663, col: 5, offset: 53837},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1684, col: 5, offset: 54450},
+														pos: position{line: 1685, col: 5, offset: 54552},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1686, col: 9, offset: 54516},
+																pos: position{line: 1687, col: 9, offset: 54618},
 																run: (*parser).callonListContinuationElement181,
 																expr: &seqExpr{
-																	pos: position{line: 1686, col: 9, offset: 54516},
+																	pos: position{line: 1687, col: 9, offset: 54618},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1686, col: 9, offset: 54516},
+																			pos: position{line: 1687, col: 9, offset: 54618},
 																			expr: &actionExpr{
-																				pos: position{line: 2901, col: 10, offset: 91483},
+																				pos: position{line: 2902, col: 10, offset: 91633},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2901, col: 10, offset: 91483},
+																					pos:        position{line: 2902, col: 10, offset: 91633},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30096,28 +30514,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2923, col: 8, offset: 91881},
+																			pos: position{line: 2924, col: 8, offset: 92031},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2910, col: 12, offset: 91654},
+																					pos: position{line: 2911, col: 12, offset: 91804},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2910, col: 13, offset: 91655},
+																						pos: position{line: 2911, col: 13, offset: 91805},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 13, offset: 91655},
+																								pos:        position{line: 2911, col: 13, offset: 91805},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 20, offset: 91662},
+																								pos:        position{line: 2911, col: 20, offset: 91812},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 29, offset: 91671},
+																								pos:        position{line: 2911, col: 29, offset: 91821},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30126,34 +30544,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1687, col: 9, offset: 54535},
+																			pos: position{line: 1688, col: 9, offset: 54637},
 																			expr: &actionExpr{
-																				pos: position{line: 678, col: 14, offset: 21518},
+																				pos: position{line: 678, col: 14, offset: 21586},
 																				run: (*parser).callonListContinuationElement195,
 																				expr: &seqExpr{
-																					pos: position{line: 678, col: 14, offset: 21518},
+																					pos: position{line: 678, col: 14, offset: 21586},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2918, col: 11, offset: 91817},
+																							pos: position{line: 2919, col: 11, offset: 91967},
 																							expr: &anyMatcher{
-																								line: 2918, col: 13, offset: 91819,
+																								line: 2919, col: 13, offset: 91969,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 678, col: 21, offset: 21525},
+																							pos: position{line: 678, col: 21, offset: 21593},
 																							expr: &actionExpr{
-																								pos: position{line: 2901, col: 10, offset: 91483},
+																								pos: position{line: 2902, col: 10, offset: 91633},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2901, col: 10, offset: 91483},
+																									pos:        position{line: 2902, col: 10, offset: 91633},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30162,28 +30580,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30192,9 +30610,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -30207,18 +30625,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1693, col: 9, offset: 54664},
+																pos: position{line: 1694, col: 9, offset: 54766},
 																run: (*parser).callonListContinuationElement210,
 																expr: &seqExpr{
-																	pos: position{line: 1693, col: 9, offset: 54664},
+																	pos: position{line: 1694, col: 9, offset: 54766},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 11, offset: 91544},
+																			pos: position{line: 2906, col: 11, offset: 91694},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2905, col: 11, offset: 91544},
+																				pos: position{line: 2906, col: 11, offset: 91694},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2905, col: 11, offset: 91544},
+																					pos:        position{line: 2906, col: 11, offset: 91694},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30227,15 +30645,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1694, col: 9, offset: 54737},
+																			pos:   position{line: 1695, col: 9, offset: 54839},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1694, col: 18, offset: 54746},
+																				pos: position{line: 1695, col: 18, offset: 54848},
 																				run: (*parser).callonListContinuationElement216,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1694, col: 18, offset: 54746},
+																					pos: position{line: 1695, col: 18, offset: 54848},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1694, col: 18, offset: 54746},
+																						pos:        position{line: 1695, col: 18, offset: 54848},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30245,28 +30663,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2923, col: 8, offset: 91881},
+																			pos: position{line: 2924, col: 8, offset: 92031},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2910, col: 12, offset: 91654},
+																					pos: position{line: 2911, col: 12, offset: 91804},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2910, col: 13, offset: 91655},
+																						pos: position{line: 2911, col: 13, offset: 91805},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 13, offset: 91655},
+																								pos:        position{line: 2911, col: 13, offset: 91805},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 20, offset: 91662},
+																								pos:        position{line: 2911, col: 20, offset: 91812},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 29, offset: 91671},
+																								pos:        position{line: 2911, col: 29, offset: 91821},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30275,9 +30693,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
@@ -30295,41 +30713,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1547, col: 5, offset: 49917},
+							pos:   position{line: 1548, col: 5, offset: 50019},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1547, col: 16, offset: 49928},
+								pos: position{line: 1548, col: 16, offset: 50030},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1547, col: 17, offset: 49929},
+									pos:  position{line: 1548, col: 17, offset: 50031},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1548, col: 5, offset: 49951},
+							pos:   position{line: 1549, col: 5, offset: 50053},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1549, col: 9, offset: 49969},
+								pos: position{line: 1550, col: 9, offset: 50071},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 678, col: 14, offset: 21518},
+										pos: position{line: 678, col: 14, offset: 21586},
 										run: (*parser).callonListContinuationElement232,
 										expr: &seqExpr{
-											pos: position{line: 678, col: 14, offset: 21518},
+											pos: position{line: 678, col: 14, offset: 21586},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2918, col: 11, offset: 91817},
+													pos: position{line: 2919, col: 11, offset: 91967},
 													expr: &anyMatcher{
-														line: 2918, col: 13, offset: 91819,
+														line: 2919, col: 13, offset: 91969,
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 678, col: 21, offset: 21525},
+													pos: position{line: 678, col: 21, offset: 21593},
 													expr: &actionExpr{
-														pos: position{line: 2901, col: 10, offset: 91483},
+														pos: position{line: 2902, col: 10, offset: 91633},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2901, col: 10, offset: 91483},
+															pos:        position{line: 2902, col: 10, offset: 91633},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30338,28 +30756,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2923, col: 8, offset: 91881},
+													pos: position{line: 2924, col: 8, offset: 92031},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2910, col: 12, offset: 91654},
+															pos: position{line: 2911, col: 12, offset: 91804},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2910, col: 13, offset: 91655},
+																pos: position{line: 2911, col: 13, offset: 91805},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 13, offset: 91655},
+																		pos:        position{line: 2911, col: 13, offset: 91805},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 20, offset: 91662},
+																		pos:        position{line: 2911, col: 20, offset: 91812},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 29, offset: 91671},
+																		pos:        position{line: 2911, col: 29, offset: 91821},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30368,9 +30786,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2920, col: 8, offset: 91831},
+															pos: position{line: 2921, col: 8, offset: 91981},
 															expr: &anyMatcher{
-																line: 2920, col: 9, offset: 91832,
+																line: 2921, col: 9, offset: 91982,
 															},
 														},
 													},
@@ -30379,7 +30797,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1550, col: 11, offset: 49989},
+										pos:  position{line: 1551, col: 11, offset: 50091},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -30435,10 +30853,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2901, col: 10, offset: 91483},
+														pos: position{line: 2902, col: 10, offset: 91633},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2901, col: 10, offset: 91483},
+															pos:        position{line: 2902, col: 10, offset: 91633},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30447,28 +30865,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2923, col: 8, offset: 91881},
+													pos: position{line: 2924, col: 8, offset: 92031},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2910, col: 12, offset: 91654},
+															pos: position{line: 2911, col: 12, offset: 91804},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2910, col: 13, offset: 91655},
+																pos: position{line: 2911, col: 13, offset: 91805},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 13, offset: 91655},
+																		pos:        position{line: 2911, col: 13, offset: 91805},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 20, offset: 91662},
+																		pos:        position{line: 2911, col: 20, offset: 91812},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 29, offset: 91671},
+																		pos:        position{line: 2911, col: 29, offset: 91821},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30477,9 +30895,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2920, col: 8, offset: 91831},
+															pos: position{line: 2921, col: 8, offset: 91981},
 															expr: &anyMatcher{
-																line: 2920, col: 9, offset: 91832,
+																line: 2921, col: 9, offset: 91982,
 															},
 														},
 													},
@@ -30540,10 +30958,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2901, col: 10, offset: 91483},
+														pos: position{line: 2902, col: 10, offset: 91633},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2901, col: 10, offset: 91483},
+															pos:        position{line: 2902, col: 10, offset: 91633},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30552,28 +30970,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2923, col: 8, offset: 91881},
+													pos: position{line: 2924, col: 8, offset: 92031},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2910, col: 12, offset: 91654},
+															pos: position{line: 2911, col: 12, offset: 91804},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2910, col: 13, offset: 91655},
+																pos: position{line: 2911, col: 13, offset: 91805},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 13, offset: 91655},
+																		pos:        position{line: 2911, col: 13, offset: 91805},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 20, offset: 91662},
+																		pos:        position{line: 2911, col: 20, offset: 91812},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 29, offset: 91671},
+																		pos:        position{line: 2911, col: 29, offset: 91821},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30582,9 +31000,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2920, col: 8, offset: 91831},
+															pos: position{line: 2921, col: 8, offset: 91981},
 															expr: &anyMatcher{
-																line: 2920, col: 9, offset: 91832,
+																line: 2921, col: 9, offset: 91982,
 															},
 														},
 													},
@@ -30593,36 +31011,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 821, col: 5, offset: 26353},
+										pos: position{line: 821, col: 5, offset: 26421},
 										run: (*parser).callonListContinuationElement290,
 										expr: &seqExpr{
-											pos: position{line: 821, col: 5, offset: 26353},
+											pos: position{line: 821, col: 5, offset: 26421},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 741, col: 5, offset: 23613},
+													pos: position{line: 741, col: 5, offset: 23681},
 													run: (*parser).callonListContinuationElement292,
 													expr: &seqExpr{
-														pos: position{line: 741, col: 5, offset: 23613},
+														pos: position{line: 741, col: 5, offset: 23681},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 741, col: 5, offset: 23613},
+																pos:   position{line: 741, col: 5, offset: 23681},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 741, col: 16, offset: 23624},
+																	pos: position{line: 741, col: 16, offset: 23692},
 																	run: (*parser).callonListContinuationElement295,
 																	expr: &seqExpr{
-																		pos: position{line: 741, col: 16, offset: 23624},
+																		pos: position{line: 741, col: 16, offset: 23692},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 741, col: 16, offset: 23624},
+																				pos:        position{line: 741, col: 16, offset: 23692},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 741, col: 23, offset: 23631},
+																				pos: position{line: 741, col: 23, offset: 23699},
 																				expr: &litMatcher{
-																					pos:        position{line: 741, col: 23, offset: 23631},
+																					pos:        position{line: 741, col: 23, offset: 23699},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -30633,12 +31051,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 743, col: 8, offset: 23715},
+																pos: position{line: 743, col: 8, offset: 23783},
 																expr: &actionExpr{
-																	pos: position{line: 2901, col: 10, offset: 91483},
+																	pos: position{line: 2902, col: 10, offset: 91633},
 																	run: (*parser).callonListContinuationElement301,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2901, col: 10, offset: 91483},
+																		pos:        position{line: 2902, col: 10, offset: 91633},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -30647,28 +31065,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2923, col: 8, offset: 91881},
+																pos: position{line: 2924, col: 8, offset: 92031},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2910, col: 12, offset: 91654},
+																		pos: position{line: 2911, col: 12, offset: 91804},
 																		run: (*parser).callonListContinuationElement304,
 																		expr: &choiceExpr{
-																			pos: position{line: 2910, col: 13, offset: 91655},
+																			pos: position{line: 2911, col: 13, offset: 91805},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2910, col: 13, offset: 91655},
+																					pos:        position{line: 2911, col: 13, offset: 91805},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2910, col: 20, offset: 91662},
+																					pos:        position{line: 2911, col: 20, offset: 91812},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2910, col: 29, offset: 91671},
+																					pos:        position{line: 2911, col: 29, offset: 91821},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -30677,9 +31095,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2920, col: 8, offset: 91831},
+																		pos: position{line: 2921, col: 8, offset: 91981},
 																		expr: &anyMatcher{
-																			line: 2920, col: 9, offset: 91832,
+																			line: 2921, col: 9, offset: 91982,
 																		},
 																	},
 																},
@@ -30688,46 +31106,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 822, col: 5, offset: 26384},
+													pos:   position{line: 822, col: 5, offset: 26452},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 832, col: 5, offset: 26670},
+														pos: position{line: 832, col: 5, offset: 26738},
 														expr: &actionExpr{
-															pos: position{line: 832, col: 6, offset: 26671},
+															pos: position{line: 832, col: 6, offset: 26739},
 															run: (*parser).callonListContinuationElement313,
 															expr: &seqExpr{
-																pos: position{line: 832, col: 6, offset: 26671},
+																pos: position{line: 832, col: 6, offset: 26739},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 832, col: 6, offset: 26671},
+																		pos: position{line: 832, col: 6, offset: 26739},
 																		expr: &choiceExpr{
-																			pos: position{line: 829, col: 29, offset: 26613},
+																			pos: position{line: 829, col: 29, offset: 26681},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 741, col: 5, offset: 23613},
+																					pos: position{line: 741, col: 5, offset: 23681},
 																					run: (*parser).callonListContinuationElement317,
 																					expr: &seqExpr{
-																						pos: position{line: 741, col: 5, offset: 23613},
+																						pos: position{line: 741, col: 5, offset: 23681},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 741, col: 5, offset: 23613},
+																								pos:   position{line: 741, col: 5, offset: 23681},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 741, col: 16, offset: 23624},
+																									pos: position{line: 741, col: 16, offset: 23692},
 																									run: (*parser).callonListContinuationElement320,
 																									expr: &seqExpr{
-																										pos: position{line: 741, col: 16, offset: 23624},
+																										pos: position{line: 741, col: 16, offset: 23692},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 741, col: 16, offset: 23624},
+																												pos:        position{line: 741, col: 16, offset: 23692},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 741, col: 23, offset: 23631},
+																												pos: position{line: 741, col: 23, offset: 23699},
 																												expr: &litMatcher{
-																													pos:        position{line: 741, col: 23, offset: 23631},
+																													pos:        position{line: 741, col: 23, offset: 23699},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -30738,12 +31156,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 743, col: 8, offset: 23715},
+																								pos: position{line: 743, col: 8, offset: 23783},
 																								expr: &actionExpr{
-																									pos: position{line: 2901, col: 10, offset: 91483},
+																									pos: position{line: 2902, col: 10, offset: 91633},
 																									run: (*parser).callonListContinuationElement326,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2901, col: 10, offset: 91483},
+																										pos:        position{line: 2902, col: 10, offset: 91633},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -30752,28 +31170,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2923, col: 8, offset: 91881},
+																								pos: position{line: 2924, col: 8, offset: 92031},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2910, col: 12, offset: 91654},
+																										pos: position{line: 2911, col: 12, offset: 91804},
 																										run: (*parser).callonListContinuationElement329,
 																										expr: &choiceExpr{
-																											pos: position{line: 2910, col: 13, offset: 91655},
+																											pos: position{line: 2911, col: 13, offset: 91805},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 13, offset: 91655},
+																													pos:        position{line: 2911, col: 13, offset: 91805},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 20, offset: 91662},
+																													pos:        position{line: 2911, col: 20, offset: 91812},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 29, offset: 91671},
+																													pos:        position{line: 2911, col: 29, offset: 91821},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -30782,9 +31200,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2920, col: 8, offset: 91831},
+																										pos: position{line: 2921, col: 8, offset: 91981},
 																										expr: &anyMatcher{
-																											line: 2920, col: 9, offset: 91832,
+																											line: 2921, col: 9, offset: 91982,
 																										},
 																									},
 																								},
@@ -30793,39 +31211,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 833, col: 5, offset: 26701},
+																		pos:   position{line: 833, col: 5, offset: 26769},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26117},
+																			pos: position{line: 812, col: 5, offset: 26185},
 																			run: (*parser).callonListContinuationElement339,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26117},
+																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2918, col: 11, offset: 91817},
+																						pos: position{line: 2919, col: 11, offset: 91967},
 																						expr: &anyMatcher{
-																							line: 2918, col: 13, offset: 91819,
+																							line: 2919, col: 13, offset: 91969,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26192},
+																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2847, col: 13, offset: 90009},
+																							pos: position{line: 2848, col: 13, offset: 90159},
 																							run: (*parser).callonListContinuationElement344,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2847, col: 13, offset: 90009},
+																								pos: position{line: 2848, col: 13, offset: 90159},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2847, col: 13, offset: 90009},
+																									pos:        position{line: 2848, col: 13, offset: 90159},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -30835,28 +31253,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2923, col: 8, offset: 91881},
+																						pos: position{line: 2924, col: 8, offset: 92031},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2910, col: 12, offset: 91654},
+																								pos: position{line: 2911, col: 12, offset: 91804},
 																								run: (*parser).callonListContinuationElement348,
 																								expr: &choiceExpr{
-																									pos: position{line: 2910, col: 13, offset: 91655},
+																									pos: position{line: 2911, col: 13, offset: 91805},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 13, offset: 91655},
+																											pos:        position{line: 2911, col: 13, offset: 91805},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 20, offset: 91662},
+																											pos:        position{line: 2911, col: 20, offset: 91812},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 29, offset: 91671},
+																											pos:        position{line: 2911, col: 29, offset: 91821},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -30865,9 +31283,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 8, offset: 91831},
+																								pos: position{line: 2921, col: 8, offset: 91981},
 																								expr: &anyMatcher{
-																									line: 2920, col: 9, offset: 91832,
+																									line: 2921, col: 9, offset: 91982,
 																								},
 																							},
 																						},
@@ -30882,35 +31300,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 823, col: 5, offset: 26418},
+													pos: position{line: 823, col: 5, offset: 26486},
 													expr: &choiceExpr{
-														pos: position{line: 829, col: 29, offset: 26613},
+														pos: position{line: 829, col: 29, offset: 26681},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 741, col: 5, offset: 23613},
+																pos: position{line: 741, col: 5, offset: 23681},
 																run: (*parser).callonListContinuationElement357,
 																expr: &seqExpr{
-																	pos: position{line: 741, col: 5, offset: 23613},
+																	pos: position{line: 741, col: 5, offset: 23681},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 741, col: 5, offset: 23613},
+																			pos:   position{line: 741, col: 5, offset: 23681},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 741, col: 16, offset: 23624},
+																				pos: position{line: 741, col: 16, offset: 23692},
 																				run: (*parser).callonListContinuationElement360,
 																				expr: &seqExpr{
-																					pos: position{line: 741, col: 16, offset: 23624},
+																					pos: position{line: 741, col: 16, offset: 23692},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 741, col: 16, offset: 23624},
+																							pos:        position{line: 741, col: 16, offset: 23692},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 741, col: 23, offset: 23631},
+																							pos: position{line: 741, col: 23, offset: 23699},
 																							expr: &litMatcher{
-																								pos:        position{line: 741, col: 23, offset: 23631},
+																								pos:        position{line: 741, col: 23, offset: 23699},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -30921,12 +31339,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 743, col: 8, offset: 23715},
+																			pos: position{line: 743, col: 8, offset: 23783},
 																			expr: &actionExpr{
-																				pos: position{line: 2901, col: 10, offset: 91483},
+																				pos: position{line: 2902, col: 10, offset: 91633},
 																				run: (*parser).callonListContinuationElement366,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2901, col: 10, offset: 91483},
+																					pos:        position{line: 2902, col: 10, offset: 91633},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30935,28 +31353,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2923, col: 8, offset: 91881},
+																			pos: position{line: 2924, col: 8, offset: 92031},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2910, col: 12, offset: 91654},
+																					pos: position{line: 2911, col: 12, offset: 91804},
 																					run: (*parser).callonListContinuationElement369,
 																					expr: &choiceExpr{
-																						pos: position{line: 2910, col: 13, offset: 91655},
+																						pos: position{line: 2911, col: 13, offset: 91805},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 13, offset: 91655},
+																								pos:        position{line: 2911, col: 13, offset: 91805},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 20, offset: 91662},
+																								pos:        position{line: 2911, col: 20, offset: 91812},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 29, offset: 91671},
+																								pos:        position{line: 2911, col: 29, offset: 91821},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30965,9 +31383,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
@@ -30976,9 +31394,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2920, col: 8, offset: 91831},
+																pos: position{line: 2921, col: 8, offset: 91981},
 																expr: &anyMatcher{
-																	line: 2920, col: 9, offset: 91832,
+																	line: 2921, col: 9, offset: 91982,
 																},
 															},
 														},
@@ -30988,39 +31406,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 841, col: 5, offset: 26854},
+										pos: position{line: 841, col: 5, offset: 26922},
 										run: (*parser).callonListContinuationElement378,
 										expr: &seqExpr{
-											pos: position{line: 841, col: 5, offset: 26854},
+											pos: position{line: 841, col: 5, offset: 26922},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 841, col: 5, offset: 26854},
+													pos:   position{line: 841, col: 5, offset: 26922},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 748, col: 5, offset: 23861},
+														pos: position{line: 748, col: 5, offset: 23929},
 														run: (*parser).callonListContinuationElement381,
 														expr: &seqExpr{
-															pos: position{line: 748, col: 5, offset: 23861},
+															pos: position{line: 748, col: 5, offset: 23929},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 748, col: 5, offset: 23861},
+																	pos:   position{line: 748, col: 5, offset: 23929},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 748, col: 16, offset: 23872},
+																		pos: position{line: 748, col: 16, offset: 23940},
 																		run: (*parser).callonListContinuationElement384,
 																		expr: &seqExpr{
-																			pos: position{line: 748, col: 16, offset: 23872},
+																			pos: position{line: 748, col: 16, offset: 23940},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 748, col: 16, offset: 23872},
+																					pos:        position{line: 748, col: 16, offset: 23940},
 																					val:        "====",
 																					ignoreCase: false,
 																					want:       "\"====\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 748, col: 23, offset: 23879},
+																					pos: position{line: 748, col: 23, offset: 23947},
 																					expr: &litMatcher{
-																						pos:        position{line: 748, col: 23, offset: 23879},
+																						pos:        position{line: 748, col: 23, offset: 23947},
 																						val:        "=",
 																						ignoreCase: false,
 																						want:       "\"=\"",
@@ -31031,12 +31449,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 750, col: 8, offset: 23963},
+																	pos: position{line: 750, col: 8, offset: 24031},
 																	expr: &actionExpr{
-																		pos: position{line: 2901, col: 10, offset: 91483},
+																		pos: position{line: 2902, col: 10, offset: 91633},
 																		run: (*parser).callonListContinuationElement390,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2901, col: 10, offset: 91483},
+																			pos:        position{line: 2902, col: 10, offset: 91633},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31045,28 +31463,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2923, col: 8, offset: 91881},
+																	pos: position{line: 2924, col: 8, offset: 92031},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2910, col: 12, offset: 91654},
+																			pos: position{line: 2911, col: 12, offset: 91804},
 																			run: (*parser).callonListContinuationElement393,
 																			expr: &choiceExpr{
-																				pos: position{line: 2910, col: 13, offset: 91655},
+																				pos: position{line: 2911, col: 13, offset: 91805},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91655},
+																						pos:        position{line: 2911, col: 13, offset: 91805},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 20, offset: 91662},
+																						pos:        position{line: 2911, col: 20, offset: 91812},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 29, offset: 91671},
+																						pos:        position{line: 2911, col: 29, offset: 91821},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31075,9 +31493,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2920, col: 8, offset: 91831},
+																			pos: position{line: 2921, col: 8, offset: 91981},
 																			expr: &anyMatcher{
-																				line: 2920, col: 9, offset: 91832,
+																				line: 2921, col: 9, offset: 91982,
 																			},
 																		},
 																	},
@@ -31087,56 +31505,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 842, col: 5, offset: 26893},
+													pos: position{line: 842, col: 5, offset: 26961},
 													run: (*parser).callonListContinuationElement400,
 												},
 												&labeledExpr{
-													pos:   position{line: 845, col: 5, offset: 26985},
+													pos:   position{line: 845, col: 5, offset: 27053},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 860, col: 4, offset: 27382},
+														pos: position{line: 860, col: 4, offset: 27450},
 														expr: &actionExpr{
-															pos: position{line: 860, col: 5, offset: 27383},
+															pos: position{line: 860, col: 5, offset: 27451},
 															run: (*parser).callonListContinuationElement403,
 															expr: &seqExpr{
-																pos: position{line: 860, col: 5, offset: 27383},
+																pos: position{line: 860, col: 5, offset: 27451},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 860, col: 5, offset: 27383},
+																		pos: position{line: 860, col: 5, offset: 27451},
 																		expr: &choiceExpr{
-																			pos: position{line: 853, col: 5, offset: 27225},
+																			pos: position{line: 853, col: 5, offset: 27293},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 853, col: 5, offset: 27225},
+																					pos: position{line: 853, col: 5, offset: 27293},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 853, col: 5, offset: 27225},
+																							pos:   position{line: 853, col: 5, offset: 27293},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 748, col: 5, offset: 23861},
+																								pos: position{line: 748, col: 5, offset: 23929},
 																								run: (*parser).callonListContinuationElement409,
 																								expr: &seqExpr{
-																									pos: position{line: 748, col: 5, offset: 23861},
+																									pos: position{line: 748, col: 5, offset: 23929},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 748, col: 5, offset: 23861},
+																											pos:   position{line: 748, col: 5, offset: 23929},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 748, col: 16, offset: 23872},
+																												pos: position{line: 748, col: 16, offset: 23940},
 																												run: (*parser).callonListContinuationElement412,
 																												expr: &seqExpr{
-																													pos: position{line: 748, col: 16, offset: 23872},
+																													pos: position{line: 748, col: 16, offset: 23940},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 748, col: 16, offset: 23872},
+																															pos:        position{line: 748, col: 16, offset: 23940},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 748, col: 23, offset: 23879},
+																															pos: position{line: 748, col: 23, offset: 23947},
 																															expr: &litMatcher{
-																																pos:        position{line: 748, col: 23, offset: 23879},
+																																pos:        position{line: 748, col: 23, offset: 23947},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -31147,12 +31565,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 750, col: 8, offset: 23963},
+																											pos: position{line: 750, col: 8, offset: 24031},
 																											expr: &actionExpr{
-																												pos: position{line: 2901, col: 10, offset: 91483},
+																												pos: position{line: 2902, col: 10, offset: 91633},
 																												run: (*parser).callonListContinuationElement418,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2901, col: 10, offset: 91483},
+																													pos:        position{line: 2902, col: 10, offset: 91633},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31161,28 +31579,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2923, col: 8, offset: 91881},
+																											pos: position{line: 2924, col: 8, offset: 92031},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2910, col: 12, offset: 91654},
+																													pos: position{line: 2911, col: 12, offset: 91804},
 																													run: (*parser).callonListContinuationElement421,
 																													expr: &choiceExpr{
-																														pos: position{line: 2910, col: 13, offset: 91655},
+																														pos: position{line: 2911, col: 13, offset: 91805},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 13, offset: 91655},
+																																pos:        position{line: 2911, col: 13, offset: 91805},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 20, offset: 91662},
+																																pos:        position{line: 2911, col: 20, offset: 91812},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 29, offset: 91671},
+																																pos:        position{line: 2911, col: 29, offset: 91821},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31191,9 +31609,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2920, col: 8, offset: 91831},
+																													pos: position{line: 2921, col: 8, offset: 91981},
 																													expr: &anyMatcher{
-																														line: 2920, col: 9, offset: 91832,
+																														line: 2921, col: 9, offset: 91982,
 																													},
 																												},
 																											},
@@ -31203,45 +31621,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 854, col: 5, offset: 27256},
+																							pos: position{line: 854, col: 5, offset: 27324},
 																							run: (*parser).callonListContinuationElement428,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 861, col: 5, offset: 27413},
+																		pos:   position{line: 861, col: 5, offset: 27481},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26117},
+																			pos: position{line: 812, col: 5, offset: 26185},
 																			run: (*parser).callonListContinuationElement432,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26117},
+																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2918, col: 11, offset: 91817},
+																						pos: position{line: 2919, col: 11, offset: 91967},
 																						expr: &anyMatcher{
-																							line: 2918, col: 13, offset: 91819,
+																							line: 2919, col: 13, offset: 91969,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26192},
+																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2847, col: 13, offset: 90009},
+																							pos: position{line: 2848, col: 13, offset: 90159},
 																							run: (*parser).callonListContinuationElement437,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2847, col: 13, offset: 90009},
+																								pos: position{line: 2848, col: 13, offset: 90159},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2847, col: 13, offset: 90009},
+																									pos:        position{line: 2848, col: 13, offset: 90159},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31251,28 +31669,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2923, col: 8, offset: 91881},
+																						pos: position{line: 2924, col: 8, offset: 92031},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2910, col: 12, offset: 91654},
+																								pos: position{line: 2911, col: 12, offset: 91804},
 																								run: (*parser).callonListContinuationElement441,
 																								expr: &choiceExpr{
-																									pos: position{line: 2910, col: 13, offset: 91655},
+																									pos: position{line: 2911, col: 13, offset: 91805},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 13, offset: 91655},
+																											pos:        position{line: 2911, col: 13, offset: 91805},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 20, offset: 91662},
+																											pos:        position{line: 2911, col: 20, offset: 91812},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 29, offset: 91671},
+																											pos:        position{line: 2911, col: 29, offset: 91821},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31281,9 +31699,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 8, offset: 91831},
+																								pos: position{line: 2921, col: 8, offset: 91981},
 																								expr: &anyMatcher{
-																									line: 2920, col: 9, offset: 91832,
+																									line: 2921, col: 9, offset: 91982,
 																								},
 																							},
 																						},
@@ -31298,44 +31716,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 846, col: 5, offset: 27019},
+													pos:   position{line: 846, col: 5, offset: 27087},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 846, col: 9, offset: 27023},
+														pos: position{line: 846, col: 9, offset: 27091},
 														expr: &choiceExpr{
-															pos: position{line: 853, col: 5, offset: 27225},
+															pos: position{line: 853, col: 5, offset: 27293},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 853, col: 5, offset: 27225},
+																	pos: position{line: 853, col: 5, offset: 27293},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 853, col: 5, offset: 27225},
+																			pos:   position{line: 853, col: 5, offset: 27293},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 748, col: 5, offset: 23861},
+																				pos: position{line: 748, col: 5, offset: 23929},
 																				run: (*parser).callonListContinuationElement453,
 																				expr: &seqExpr{
-																					pos: position{line: 748, col: 5, offset: 23861},
+																					pos: position{line: 748, col: 5, offset: 23929},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 748, col: 5, offset: 23861},
+																							pos:   position{line: 748, col: 5, offset: 23929},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 748, col: 16, offset: 23872},
+																								pos: position{line: 748, col: 16, offset: 23940},
 																								run: (*parser).callonListContinuationElement456,
 																								expr: &seqExpr{
-																									pos: position{line: 748, col: 16, offset: 23872},
+																									pos: position{line: 748, col: 16, offset: 23940},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 748, col: 16, offset: 23872},
+																											pos:        position{line: 748, col: 16, offset: 23940},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 748, col: 23, offset: 23879},
+																											pos: position{line: 748, col: 23, offset: 23947},
 																											expr: &litMatcher{
-																												pos:        position{line: 748, col: 23, offset: 23879},
+																												pos:        position{line: 748, col: 23, offset: 23947},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -31346,12 +31764,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 750, col: 8, offset: 23963},
+																							pos: position{line: 750, col: 8, offset: 24031},
 																							expr: &actionExpr{
-																								pos: position{line: 2901, col: 10, offset: 91483},
+																								pos: position{line: 2902, col: 10, offset: 91633},
 																								run: (*parser).callonListContinuationElement462,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2901, col: 10, offset: 91483},
+																									pos:        position{line: 2902, col: 10, offset: 91633},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31360,28 +31778,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonListContinuationElement465,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31390,9 +31808,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -31402,15 +31820,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 854, col: 5, offset: 27256},
+																			pos: position{line: 854, col: 5, offset: 27324},
 																			run: (*parser).callonListContinuationElement472,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2920, col: 8, offset: 91831},
+																	pos: position{line: 2921, col: 8, offset: 91981},
 																	expr: &anyMatcher{
-																		line: 2920, col: 9, offset: 91832,
+																		line: 2921, col: 9, offset: 91982,
 																	},
 																},
 															},
@@ -31421,36 +31839,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 953, col: 5, offset: 29705},
+										pos: position{line: 953, col: 5, offset: 29773},
 										run: (*parser).callonListContinuationElement475,
 										expr: &seqExpr{
-											pos: position{line: 953, col: 5, offset: 29705},
+											pos: position{line: 953, col: 5, offset: 29773},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 953, col: 5, offset: 29705},
+													pos:   position{line: 953, col: 5, offset: 29773},
 													label: "delimiter",
 													expr: &actionExpr{
-														pos: position{line: 761, col: 26, offset: 24349},
+														pos: position{line: 761, col: 26, offset: 24417},
 														run: (*parser).callonListContinuationElement478,
 														expr: &seqExpr{
-															pos: position{line: 761, col: 26, offset: 24349},
+															pos: position{line: 761, col: 26, offset: 24417},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 761, col: 26, offset: 24349},
+																	pos:        position{line: 761, col: 26, offset: 24417},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 761, col: 32, offset: 24355},
+																	pos:   position{line: 761, col: 32, offset: 24423},
 																	label: "language",
 																	expr: &actionExpr{
-																		pos: position{line: 765, col: 13, offset: 24485},
+																		pos: position{line: 765, col: 13, offset: 24553},
 																		run: (*parser).callonListContinuationElement482,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 765, col: 14, offset: 24486},
+																			pos: position{line: 765, col: 14, offset: 24554},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 765, col: 14, offset: 24486},
+																				pos:        position{line: 765, col: 14, offset: 24554},
 																				val:        "[^\\r\\n` ]",
 																				chars:      []rune{'\r', '\n', '`', ' '},
 																				ignoreCase: false,
@@ -31460,12 +31878,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 761, col: 52, offset: 24375},
+																	pos: position{line: 761, col: 52, offset: 24443},
 																	expr: &actionExpr{
-																		pos: position{line: 2901, col: 10, offset: 91483},
+																		pos: position{line: 2902, col: 10, offset: 91633},
 																		run: (*parser).callonListContinuationElement486,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2901, col: 10, offset: 91483},
+																			pos:        position{line: 2902, col: 10, offset: 91633},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31474,28 +31892,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2923, col: 8, offset: 91881},
+																	pos: position{line: 2924, col: 8, offset: 92031},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2910, col: 12, offset: 91654},
+																			pos: position{line: 2911, col: 12, offset: 91804},
 																			run: (*parser).callonListContinuationElement489,
 																			expr: &choiceExpr{
-																				pos: position{line: 2910, col: 13, offset: 91655},
+																				pos: position{line: 2911, col: 13, offset: 91805},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91655},
+																						pos:        position{line: 2911, col: 13, offset: 91805},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 20, offset: 91662},
+																						pos:        position{line: 2911, col: 20, offset: 91812},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 29, offset: 91671},
+																						pos:        position{line: 2911, col: 29, offset: 91821},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31504,9 +31922,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2920, col: 8, offset: 91831},
+																			pos: position{line: 2921, col: 8, offset: 91981},
 																			expr: &anyMatcher{
-																				line: 2920, col: 9, offset: 91832,
+																				line: 2921, col: 9, offset: 91982,
 																			},
 																		},
 																	},
@@ -31516,34 +31934,34 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 954, col: 5, offset: 29751},
+													pos:   position{line: 954, col: 5, offset: 29819},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 967, col: 5, offset: 30224},
+														pos: position{line: 967, col: 5, offset: 30292},
 														expr: &actionExpr{
-															pos: position{line: 967, col: 6, offset: 30225},
+															pos: position{line: 967, col: 6, offset: 30293},
 															run: (*parser).callonListContinuationElement498,
 															expr: &seqExpr{
-																pos: position{line: 967, col: 6, offset: 30225},
+																pos: position{line: 967, col: 6, offset: 30293},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 967, col: 6, offset: 30225},
+																		pos: position{line: 967, col: 6, offset: 30293},
 																		expr: &seqExpr{
-																			pos: position{line: 964, col: 34, offset: 30172},
+																			pos: position{line: 964, col: 34, offset: 30240},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 964, col: 34, offset: 30172},
+																					pos:        position{line: 964, col: 34, offset: 30240},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 964, col: 40, offset: 30178},
+																					pos: position{line: 964, col: 40, offset: 30246},
 																					expr: &actionExpr{
-																						pos: position{line: 2901, col: 10, offset: 91483},
+																						pos: position{line: 2902, col: 10, offset: 91633},
 																						run: (*parser).callonListContinuationElement504,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2901, col: 10, offset: 91483},
+																							pos:        position{line: 2902, col: 10, offset: 91633},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -31552,28 +31970,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2923, col: 8, offset: 91881},
+																					pos: position{line: 2924, col: 8, offset: 92031},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2910, col: 12, offset: 91654},
+																							pos: position{line: 2911, col: 12, offset: 91804},
 																							run: (*parser).callonListContinuationElement507,
 																							expr: &choiceExpr{
-																								pos: position{line: 2910, col: 13, offset: 91655},
+																								pos: position{line: 2911, col: 13, offset: 91805},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 13, offset: 91655},
+																										pos:        position{line: 2911, col: 13, offset: 91805},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 20, offset: 91662},
+																										pos:        position{line: 2911, col: 20, offset: 91812},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 29, offset: 91671},
+																										pos:        position{line: 2911, col: 29, offset: 91821},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31582,9 +32000,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2920, col: 8, offset: 91831},
+																							pos: position{line: 2921, col: 8, offset: 91981},
 																							expr: &anyMatcher{
-																								line: 2920, col: 9, offset: 91832,
+																								line: 2921, col: 9, offset: 91982,
 																							},
 																						},
 																					},
@@ -31593,30 +32011,30 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 968, col: 5, offset: 30260},
+																		pos:   position{line: 968, col: 5, offset: 30328},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26117},
+																			pos: position{line: 812, col: 5, offset: 26185},
 																			run: (*parser).callonListContinuationElement515,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26117},
+																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2918, col: 11, offset: 91817},
+																						pos: position{line: 2919, col: 11, offset: 91967},
 																						expr: &anyMatcher{
-																							line: 2918, col: 13, offset: 91819,
+																							line: 2919, col: 13, offset: 91969,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26192},
+																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2847, col: 13, offset: 90009},
+																							pos: position{line: 2848, col: 13, offset: 90159},
 																							run: (*parser).callonListContinuationElement520,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2847, col: 13, offset: 90009},
+																								pos: position{line: 2848, col: 13, offset: 90159},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2847, col: 13, offset: 90009},
+																									pos:        position{line: 2848, col: 13, offset: 90159},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31626,28 +32044,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2923, col: 8, offset: 91881},
+																						pos: position{line: 2924, col: 8, offset: 92031},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2910, col: 12, offset: 91654},
+																								pos: position{line: 2911, col: 12, offset: 91804},
 																								run: (*parser).callonListContinuationElement524,
 																								expr: &choiceExpr{
-																									pos: position{line: 2910, col: 13, offset: 91655},
+																									pos: position{line: 2911, col: 13, offset: 91805},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 13, offset: 91655},
+																											pos:        position{line: 2911, col: 13, offset: 91805},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 20, offset: 91662},
+																											pos:        position{line: 2911, col: 20, offset: 91812},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 29, offset: 91671},
+																											pos:        position{line: 2911, col: 29, offset: 91821},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31656,9 +32074,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 8, offset: 91831},
+																								pos: position{line: 2921, col: 8, offset: 91981},
 																								expr: &anyMatcher{
-																									line: 2920, col: 9, offset: 91832,
+																									line: 2921, col: 9, offset: 91982,
 																								},
 																							},
 																						},
@@ -31673,23 +32091,23 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 955, col: 5, offset: 29790},
+													pos: position{line: 955, col: 5, offset: 29858},
 													expr: &seqExpr{
-														pos: position{line: 964, col: 34, offset: 30172},
+														pos: position{line: 964, col: 34, offset: 30240},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 964, col: 34, offset: 30172},
+																pos:        position{line: 964, col: 34, offset: 30240},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 964, col: 40, offset: 30178},
+																pos: position{line: 964, col: 40, offset: 30246},
 																expr: &actionExpr{
-																	pos: position{line: 2901, col: 10, offset: 91483},
+																	pos: position{line: 2902, col: 10, offset: 91633},
 																	run: (*parser).callonListContinuationElement535,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2901, col: 10, offset: 91483},
+																		pos:        position{line: 2902, col: 10, offset: 91633},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31698,28 +32116,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2923, col: 8, offset: 91881},
+																pos: position{line: 2924, col: 8, offset: 92031},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2910, col: 12, offset: 91654},
+																		pos: position{line: 2911, col: 12, offset: 91804},
 																		run: (*parser).callonListContinuationElement538,
 																		expr: &choiceExpr{
-																			pos: position{line: 2910, col: 13, offset: 91655},
+																			pos: position{line: 2911, col: 13, offset: 91805},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2910, col: 13, offset: 91655},
+																					pos:        position{line: 2911, col: 13, offset: 91805},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2910, col: 20, offset: 91662},
+																					pos:        position{line: 2911, col: 20, offset: 91812},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2910, col: 29, offset: 91671},
+																					pos:        position{line: 2911, col: 29, offset: 91821},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31728,9 +32146,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2920, col: 8, offset: 91831},
+																		pos: position{line: 2921, col: 8, offset: 91981},
 																		expr: &anyMatcher{
-																			line: 2920, col: 9, offset: 91832,
+																			line: 2921, col: 9, offset: 91982,
 																		},
 																	},
 																},
@@ -31742,39 +32160,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 869, col: 5, offset: 27566},
+										pos: position{line: 869, col: 5, offset: 27634},
 										run: (*parser).callonListContinuationElement545,
 										expr: &seqExpr{
-											pos: position{line: 869, col: 5, offset: 27566},
+											pos: position{line: 869, col: 5, offset: 27634},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 869, col: 5, offset: 27566},
+													pos:   position{line: 869, col: 5, offset: 27634},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 755, col: 5, offset: 24108},
+														pos: position{line: 755, col: 5, offset: 24176},
 														run: (*parser).callonListContinuationElement548,
 														expr: &seqExpr{
-															pos: position{line: 755, col: 5, offset: 24108},
+															pos: position{line: 755, col: 5, offset: 24176},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 755, col: 5, offset: 24108},
+																	pos:   position{line: 755, col: 5, offset: 24176},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 755, col: 16, offset: 24119},
+																		pos: position{line: 755, col: 16, offset: 24187},
 																		run: (*parser).callonListContinuationElement551,
 																		expr: &seqExpr{
-																			pos: position{line: 755, col: 16, offset: 24119},
+																			pos: position{line: 755, col: 16, offset: 24187},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 755, col: 16, offset: 24119},
+																					pos:        position{line: 755, col: 16, offset: 24187},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 755, col: 22, offset: 24125},
+																					pos: position{line: 755, col: 22, offset: 24193},
 																					expr: &litMatcher{
-																						pos:        position{line: 755, col: 22, offset: 24125},
+																						pos:        position{line: 755, col: 22, offset: 24193},
 																						val:        "`",
 																						ignoreCase: false,
 																						want:       "\"`\"",
@@ -31785,12 +32203,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 757, col: 8, offset: 24209},
+																	pos: position{line: 757, col: 8, offset: 24277},
 																	expr: &actionExpr{
-																		pos: position{line: 2901, col: 10, offset: 91483},
+																		pos: position{line: 2902, col: 10, offset: 91633},
 																		run: (*parser).callonListContinuationElement557,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2901, col: 10, offset: 91483},
+																			pos:        position{line: 2902, col: 10, offset: 91633},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31799,28 +32217,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2923, col: 8, offset: 91881},
+																	pos: position{line: 2924, col: 8, offset: 92031},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2910, col: 12, offset: 91654},
+																			pos: position{line: 2911, col: 12, offset: 91804},
 																			run: (*parser).callonListContinuationElement560,
 																			expr: &choiceExpr{
-																				pos: position{line: 2910, col: 13, offset: 91655},
+																				pos: position{line: 2911, col: 13, offset: 91805},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91655},
+																						pos:        position{line: 2911, col: 13, offset: 91805},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 20, offset: 91662},
+																						pos:        position{line: 2911, col: 20, offset: 91812},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 29, offset: 91671},
+																						pos:        position{line: 2911, col: 29, offset: 91821},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31829,9 +32247,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2920, col: 8, offset: 91831},
+																			pos: position{line: 2921, col: 8, offset: 91981},
 																			expr: &anyMatcher{
-																				line: 2920, col: 9, offset: 91832,
+																				line: 2921, col: 9, offset: 91982,
 																			},
 																		},
 																	},
@@ -31841,56 +32259,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 870, col: 5, offset: 27604},
+													pos: position{line: 870, col: 5, offset: 27672},
 													run: (*parser).callonListContinuationElement567,
 												},
 												&labeledExpr{
-													pos:   position{line: 873, col: 5, offset: 27696},
+													pos:   position{line: 873, col: 5, offset: 27764},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 888, col: 5, offset: 28086},
+														pos: position{line: 888, col: 5, offset: 28154},
 														expr: &actionExpr{
-															pos: position{line: 888, col: 6, offset: 28087},
+															pos: position{line: 888, col: 6, offset: 28155},
 															run: (*parser).callonListContinuationElement570,
 															expr: &seqExpr{
-																pos: position{line: 888, col: 6, offset: 28087},
+																pos: position{line: 888, col: 6, offset: 28155},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 888, col: 6, offset: 28087},
+																		pos: position{line: 888, col: 6, offset: 28155},
 																		expr: &choiceExpr{
-																			pos: position{line: 881, col: 5, offset: 27930},
+																			pos: position{line: 881, col: 5, offset: 27998},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 881, col: 5, offset: 27930},
+																					pos: position{line: 881, col: 5, offset: 27998},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 881, col: 5, offset: 27930},
+																							pos:   position{line: 881, col: 5, offset: 27998},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 755, col: 5, offset: 24108},
+																								pos: position{line: 755, col: 5, offset: 24176},
 																								run: (*parser).callonListContinuationElement576,
 																								expr: &seqExpr{
-																									pos: position{line: 755, col: 5, offset: 24108},
+																									pos: position{line: 755, col: 5, offset: 24176},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 755, col: 5, offset: 24108},
+																											pos:   position{line: 755, col: 5, offset: 24176},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 755, col: 16, offset: 24119},
+																												pos: position{line: 755, col: 16, offset: 24187},
 																												run: (*parser).callonListContinuationElement579,
 																												expr: &seqExpr{
-																													pos: position{line: 755, col: 16, offset: 24119},
+																													pos: position{line: 755, col: 16, offset: 24187},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 755, col: 16, offset: 24119},
+																															pos:        position{line: 755, col: 16, offset: 24187},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 755, col: 22, offset: 24125},
+																															pos: position{line: 755, col: 22, offset: 24193},
 																															expr: &litMatcher{
-																																pos:        position{line: 755, col: 22, offset: 24125},
+																																pos:        position{line: 755, col: 22, offset: 24193},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -31901,12 +32319,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 757, col: 8, offset: 24209},
+																											pos: position{line: 757, col: 8, offset: 24277},
 																											expr: &actionExpr{
-																												pos: position{line: 2901, col: 10, offset: 91483},
+																												pos: position{line: 2902, col: 10, offset: 91633},
 																												run: (*parser).callonListContinuationElement585,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2901, col: 10, offset: 91483},
+																													pos:        position{line: 2902, col: 10, offset: 91633},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31915,28 +32333,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2923, col: 8, offset: 91881},
+																											pos: position{line: 2924, col: 8, offset: 92031},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2910, col: 12, offset: 91654},
+																													pos: position{line: 2911, col: 12, offset: 91804},
 																													run: (*parser).callonListContinuationElement588,
 																													expr: &choiceExpr{
-																														pos: position{line: 2910, col: 13, offset: 91655},
+																														pos: position{line: 2911, col: 13, offset: 91805},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 13, offset: 91655},
+																																pos:        position{line: 2911, col: 13, offset: 91805},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 20, offset: 91662},
+																																pos:        position{line: 2911, col: 20, offset: 91812},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 29, offset: 91671},
+																																pos:        position{line: 2911, col: 29, offset: 91821},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31945,9 +32363,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2920, col: 8, offset: 91831},
+																													pos: position{line: 2921, col: 8, offset: 91981},
 																													expr: &anyMatcher{
-																														line: 2920, col: 9, offset: 91832,
+																														line: 2921, col: 9, offset: 91982,
 																													},
 																												},
 																											},
@@ -31957,45 +32375,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 882, col: 5, offset: 27960},
+																							pos: position{line: 882, col: 5, offset: 28028},
 																							run: (*parser).callonListContinuationElement595,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 889, col: 5, offset: 28116},
+																		pos:   position{line: 889, col: 5, offset: 28184},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26117},
+																			pos: position{line: 812, col: 5, offset: 26185},
 																			run: (*parser).callonListContinuationElement599,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26117},
+																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2918, col: 11, offset: 91817},
+																						pos: position{line: 2919, col: 11, offset: 91967},
 																						expr: &anyMatcher{
-																							line: 2918, col: 13, offset: 91819,
+																							line: 2919, col: 13, offset: 91969,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26192},
+																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2847, col: 13, offset: 90009},
+																							pos: position{line: 2848, col: 13, offset: 90159},
 																							run: (*parser).callonListContinuationElement604,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2847, col: 13, offset: 90009},
+																								pos: position{line: 2848, col: 13, offset: 90159},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2847, col: 13, offset: 90009},
+																									pos:        position{line: 2848, col: 13, offset: 90159},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32005,28 +32423,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2923, col: 8, offset: 91881},
+																						pos: position{line: 2924, col: 8, offset: 92031},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2910, col: 12, offset: 91654},
+																								pos: position{line: 2911, col: 12, offset: 91804},
 																								run: (*parser).callonListContinuationElement608,
 																								expr: &choiceExpr{
-																									pos: position{line: 2910, col: 13, offset: 91655},
+																									pos: position{line: 2911, col: 13, offset: 91805},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 13, offset: 91655},
+																											pos:        position{line: 2911, col: 13, offset: 91805},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 20, offset: 91662},
+																											pos:        position{line: 2911, col: 20, offset: 91812},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 29, offset: 91671},
+																											pos:        position{line: 2911, col: 29, offset: 91821},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32035,9 +32453,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 8, offset: 91831},
+																								pos: position{line: 2921, col: 8, offset: 91981},
 																								expr: &anyMatcher{
-																									line: 2920, col: 9, offset: 91832,
+																									line: 2921, col: 9, offset: 91982,
 																								},
 																							},
 																						},
@@ -32052,44 +32470,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 874, col: 5, offset: 27729},
+													pos:   position{line: 874, col: 5, offset: 27797},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 874, col: 9, offset: 27733},
+														pos: position{line: 874, col: 9, offset: 27801},
 														expr: &choiceExpr{
-															pos: position{line: 881, col: 5, offset: 27930},
+															pos: position{line: 881, col: 5, offset: 27998},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 881, col: 5, offset: 27930},
+																	pos: position{line: 881, col: 5, offset: 27998},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 881, col: 5, offset: 27930},
+																			pos:   position{line: 881, col: 5, offset: 27998},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 755, col: 5, offset: 24108},
+																				pos: position{line: 755, col: 5, offset: 24176},
 																				run: (*parser).callonListContinuationElement620,
 																				expr: &seqExpr{
-																					pos: position{line: 755, col: 5, offset: 24108},
+																					pos: position{line: 755, col: 5, offset: 24176},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 755, col: 5, offset: 24108},
+																							pos:   position{line: 755, col: 5, offset: 24176},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 755, col: 16, offset: 24119},
+																								pos: position{line: 755, col: 16, offset: 24187},
 																								run: (*parser).callonListContinuationElement623,
 																								expr: &seqExpr{
-																									pos: position{line: 755, col: 16, offset: 24119},
+																									pos: position{line: 755, col: 16, offset: 24187},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 755, col: 16, offset: 24119},
+																											pos:        position{line: 755, col: 16, offset: 24187},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 755, col: 22, offset: 24125},
+																											pos: position{line: 755, col: 22, offset: 24193},
 																											expr: &litMatcher{
-																												pos:        position{line: 755, col: 22, offset: 24125},
+																												pos:        position{line: 755, col: 22, offset: 24193},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -32100,12 +32518,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 757, col: 8, offset: 24209},
+																							pos: position{line: 757, col: 8, offset: 24277},
 																							expr: &actionExpr{
-																								pos: position{line: 2901, col: 10, offset: 91483},
+																								pos: position{line: 2902, col: 10, offset: 91633},
 																								run: (*parser).callonListContinuationElement629,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2901, col: 10, offset: 91483},
+																									pos:        position{line: 2902, col: 10, offset: 91633},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32114,28 +32532,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonListContinuationElement632,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32144,9 +32562,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -32156,15 +32574,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 882, col: 5, offset: 27960},
+																			pos: position{line: 882, col: 5, offset: 28028},
 																			run: (*parser).callonListContinuationElement639,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2920, col: 8, offset: 91831},
+																	pos: position{line: 2921, col: 8, offset: 91981},
 																	expr: &anyMatcher{
-																		line: 2920, col: 9, offset: 91832,
+																		line: 2921, col: 9, offset: 91982,
 																	},
 																},
 															},
@@ -32175,39 +32593,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 897, col: 5, offset: 28271},
+										pos: position{line: 897, col: 5, offset: 28339},
 										run: (*parser).callonListContinuationElement642,
 										expr: &seqExpr{
-											pos: position{line: 897, col: 5, offset: 28271},
+											pos: position{line: 897, col: 5, offset: 28339},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 897, col: 5, offset: 28271},
+													pos:   position{line: 897, col: 5, offset: 28339},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 770, col: 5, offset: 24645},
+														pos: position{line: 770, col: 5, offset: 24713},
 														run: (*parser).callonListContinuationElement645,
 														expr: &seqExpr{
-															pos: position{line: 770, col: 5, offset: 24645},
+															pos: position{line: 770, col: 5, offset: 24713},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 770, col: 5, offset: 24645},
+																	pos:   position{line: 770, col: 5, offset: 24713},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 770, col: 16, offset: 24656},
+																		pos: position{line: 770, col: 16, offset: 24724},
 																		run: (*parser).callonListContinuationElement648,
 																		expr: &seqExpr{
-																			pos: position{line: 770, col: 16, offset: 24656},
+																			pos: position{line: 770, col: 16, offset: 24724},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 770, col: 16, offset: 24656},
+																					pos:        position{line: 770, col: 16, offset: 24724},
 																					val:        "----",
 																					ignoreCase: false,
 																					want:       "\"----\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 770, col: 23, offset: 24663},
+																					pos: position{line: 770, col: 23, offset: 24731},
 																					expr: &litMatcher{
-																						pos:        position{line: 770, col: 23, offset: 24663},
+																						pos:        position{line: 770, col: 23, offset: 24731},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
@@ -32218,12 +32636,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 772, col: 8, offset: 24747},
+																	pos: position{line: 772, col: 8, offset: 24815},
 																	expr: &actionExpr{
-																		pos: position{line: 2901, col: 10, offset: 91483},
+																		pos: position{line: 2902, col: 10, offset: 91633},
 																		run: (*parser).callonListContinuationElement654,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2901, col: 10, offset: 91483},
+																			pos:        position{line: 2902, col: 10, offset: 91633},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32232,28 +32650,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2923, col: 8, offset: 91881},
+																	pos: position{line: 2924, col: 8, offset: 92031},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2910, col: 12, offset: 91654},
+																			pos: position{line: 2911, col: 12, offset: 91804},
 																			run: (*parser).callonListContinuationElement657,
 																			expr: &choiceExpr{
-																				pos: position{line: 2910, col: 13, offset: 91655},
+																				pos: position{line: 2911, col: 13, offset: 91805},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91655},
+																						pos:        position{line: 2911, col: 13, offset: 91805},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 20, offset: 91662},
+																						pos:        position{line: 2911, col: 20, offset: 91812},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 29, offset: 91671},
+																						pos:        position{line: 2911, col: 29, offset: 91821},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32262,9 +32680,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2920, col: 8, offset: 91831},
+																			pos: position{line: 2921, col: 8, offset: 91981},
 																			expr: &anyMatcher{
-																				line: 2920, col: 9, offset: 91832,
+																				line: 2921, col: 9, offset: 91982,
 																			},
 																		},
 																	},
@@ -32274,56 +32692,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 898, col: 5, offset: 28310},
+													pos: position{line: 898, col: 5, offset: 28378},
 													run: (*parser).callonListContinuationElement664,
 												},
 												&labeledExpr{
-													pos:   position{line: 901, col: 5, offset: 28402},
+													pos:   position{line: 901, col: 5, offset: 28470},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 916, col: 5, offset: 28800},
+														pos: position{line: 916, col: 5, offset: 28868},
 														expr: &actionExpr{
-															pos: position{line: 916, col: 6, offset: 28801},
+															pos: position{line: 916, col: 6, offset: 28869},
 															run: (*parser).callonListContinuationElement667,
 															expr: &seqExpr{
-																pos: position{line: 916, col: 6, offset: 28801},
+																pos: position{line: 916, col: 6, offset: 28869},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 916, col: 6, offset: 28801},
+																		pos: position{line: 916, col: 6, offset: 28869},
 																		expr: &choiceExpr{
-																			pos: position{line: 909, col: 5, offset: 28642},
+																			pos: position{line: 909, col: 5, offset: 28710},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 909, col: 5, offset: 28642},
+																					pos: position{line: 909, col: 5, offset: 28710},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 909, col: 5, offset: 28642},
+																							pos:   position{line: 909, col: 5, offset: 28710},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 770, col: 5, offset: 24645},
+																								pos: position{line: 770, col: 5, offset: 24713},
 																								run: (*parser).callonListContinuationElement673,
 																								expr: &seqExpr{
-																									pos: position{line: 770, col: 5, offset: 24645},
+																									pos: position{line: 770, col: 5, offset: 24713},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 770, col: 5, offset: 24645},
+																											pos:   position{line: 770, col: 5, offset: 24713},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 770, col: 16, offset: 24656},
+																												pos: position{line: 770, col: 16, offset: 24724},
 																												run: (*parser).callonListContinuationElement676,
 																												expr: &seqExpr{
-																													pos: position{line: 770, col: 16, offset: 24656},
+																													pos: position{line: 770, col: 16, offset: 24724},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 770, col: 16, offset: 24656},
+																															pos:        position{line: 770, col: 16, offset: 24724},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 770, col: 23, offset: 24663},
+																															pos: position{line: 770, col: 23, offset: 24731},
 																															expr: &litMatcher{
-																																pos:        position{line: 770, col: 23, offset: 24663},
+																																pos:        position{line: 770, col: 23, offset: 24731},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -32334,12 +32752,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 772, col: 8, offset: 24747},
+																											pos: position{line: 772, col: 8, offset: 24815},
 																											expr: &actionExpr{
-																												pos: position{line: 2901, col: 10, offset: 91483},
+																												pos: position{line: 2902, col: 10, offset: 91633},
 																												run: (*parser).callonListContinuationElement682,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2901, col: 10, offset: 91483},
+																													pos:        position{line: 2902, col: 10, offset: 91633},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32348,28 +32766,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2923, col: 8, offset: 91881},
+																											pos: position{line: 2924, col: 8, offset: 92031},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2910, col: 12, offset: 91654},
+																													pos: position{line: 2911, col: 12, offset: 91804},
 																													run: (*parser).callonListContinuationElement685,
 																													expr: &choiceExpr{
-																														pos: position{line: 2910, col: 13, offset: 91655},
+																														pos: position{line: 2911, col: 13, offset: 91805},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 13, offset: 91655},
+																																pos:        position{line: 2911, col: 13, offset: 91805},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 20, offset: 91662},
+																																pos:        position{line: 2911, col: 20, offset: 91812},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 29, offset: 91671},
+																																pos:        position{line: 2911, col: 29, offset: 91821},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32378,9 +32796,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2920, col: 8, offset: 91831},
+																													pos: position{line: 2921, col: 8, offset: 91981},
 																													expr: &anyMatcher{
-																														line: 2920, col: 9, offset: 91832,
+																														line: 2921, col: 9, offset: 91982,
 																													},
 																												},
 																											},
@@ -32390,45 +32808,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 910, col: 5, offset: 28673},
+																							pos: position{line: 910, col: 5, offset: 28741},
 																							run: (*parser).callonListContinuationElement692,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 917, col: 5, offset: 28831},
+																		pos:   position{line: 917, col: 5, offset: 28899},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26117},
+																			pos: position{line: 812, col: 5, offset: 26185},
 																			run: (*parser).callonListContinuationElement696,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26117},
+																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2918, col: 11, offset: 91817},
+																						pos: position{line: 2919, col: 11, offset: 91967},
 																						expr: &anyMatcher{
-																							line: 2918, col: 13, offset: 91819,
+																							line: 2919, col: 13, offset: 91969,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26192},
+																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2847, col: 13, offset: 90009},
+																							pos: position{line: 2848, col: 13, offset: 90159},
 																							run: (*parser).callonListContinuationElement701,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2847, col: 13, offset: 90009},
+																								pos: position{line: 2848, col: 13, offset: 90159},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2847, col: 13, offset: 90009},
+																									pos:        position{line: 2848, col: 13, offset: 90159},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32438,28 +32856,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2923, col: 8, offset: 91881},
+																						pos: position{line: 2924, col: 8, offset: 92031},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2910, col: 12, offset: 91654},
+																								pos: position{line: 2911, col: 12, offset: 91804},
 																								run: (*parser).callonListContinuationElement705,
 																								expr: &choiceExpr{
-																									pos: position{line: 2910, col: 13, offset: 91655},
+																									pos: position{line: 2911, col: 13, offset: 91805},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 13, offset: 91655},
+																											pos:        position{line: 2911, col: 13, offset: 91805},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 20, offset: 91662},
+																											pos:        position{line: 2911, col: 20, offset: 91812},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 29, offset: 91671},
+																											pos:        position{line: 2911, col: 29, offset: 91821},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32468,9 +32886,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 8, offset: 91831},
+																								pos: position{line: 2921, col: 8, offset: 91981},
 																								expr: &anyMatcher{
-																									line: 2920, col: 9, offset: 91832,
+																									line: 2921, col: 9, offset: 91982,
 																								},
 																							},
 																						},
@@ -32485,44 +32903,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 902, col: 5, offset: 28436},
+													pos:   position{line: 902, col: 5, offset: 28504},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 902, col: 9, offset: 28440},
+														pos: position{line: 902, col: 9, offset: 28508},
 														expr: &choiceExpr{
-															pos: position{line: 909, col: 5, offset: 28642},
+															pos: position{line: 909, col: 5, offset: 28710},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 909, col: 5, offset: 28642},
+																	pos: position{line: 909, col: 5, offset: 28710},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 909, col: 5, offset: 28642},
+																			pos:   position{line: 909, col: 5, offset: 28710},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 770, col: 5, offset: 24645},
+																				pos: position{line: 770, col: 5, offset: 24713},
 																				run: (*parser).callonListContinuationElement717,
 																				expr: &seqExpr{
-																					pos: position{line: 770, col: 5, offset: 24645},
+																					pos: position{line: 770, col: 5, offset: 24713},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 770, col: 5, offset: 24645},
+																							pos:   position{line: 770, col: 5, offset: 24713},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 770, col: 16, offset: 24656},
+																								pos: position{line: 770, col: 16, offset: 24724},
 																								run: (*parser).callonListContinuationElement720,
 																								expr: &seqExpr{
-																									pos: position{line: 770, col: 16, offset: 24656},
+																									pos: position{line: 770, col: 16, offset: 24724},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 770, col: 16, offset: 24656},
+																											pos:        position{line: 770, col: 16, offset: 24724},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 770, col: 23, offset: 24663},
+																											pos: position{line: 770, col: 23, offset: 24731},
 																											expr: &litMatcher{
-																												pos:        position{line: 770, col: 23, offset: 24663},
+																												pos:        position{line: 770, col: 23, offset: 24731},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -32533,12 +32951,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 772, col: 8, offset: 24747},
+																							pos: position{line: 772, col: 8, offset: 24815},
 																							expr: &actionExpr{
-																								pos: position{line: 2901, col: 10, offset: 91483},
+																								pos: position{line: 2902, col: 10, offset: 91633},
 																								run: (*parser).callonListContinuationElement726,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2901, col: 10, offset: 91483},
+																									pos:        position{line: 2902, col: 10, offset: 91633},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32547,28 +32965,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonListContinuationElement729,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32577,9 +32995,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -32589,15 +33007,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 910, col: 5, offset: 28673},
+																			pos: position{line: 910, col: 5, offset: 28741},
 																			run: (*parser).callonListContinuationElement736,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2920, col: 8, offset: 91831},
+																	pos: position{line: 2921, col: 8, offset: 91981},
 																	expr: &anyMatcher{
-																		line: 2920, col: 9, offset: 91832,
+																		line: 2921, col: 9, offset: 91982,
 																	},
 																},
 															},
@@ -32608,39 +33026,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 925, col: 5, offset: 28986},
+										pos: position{line: 925, col: 5, offset: 29054},
 										run: (*parser).callonListContinuationElement739,
 										expr: &seqExpr{
-											pos: position{line: 925, col: 5, offset: 28986},
+											pos: position{line: 925, col: 5, offset: 29054},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 925, col: 5, offset: 28986},
+													pos:   position{line: 925, col: 5, offset: 29054},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 784, col: 5, offset: 25121},
+														pos: position{line: 784, col: 5, offset: 25189},
 														run: (*parser).callonListContinuationElement742,
 														expr: &seqExpr{
-															pos: position{line: 784, col: 5, offset: 25121},
+															pos: position{line: 784, col: 5, offset: 25189},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 784, col: 5, offset: 25121},
+																	pos:   position{line: 784, col: 5, offset: 25189},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 784, col: 16, offset: 25132},
+																		pos: position{line: 784, col: 16, offset: 25200},
 																		run: (*parser).callonListContinuationElement745,
 																		expr: &seqExpr{
-																			pos: position{line: 784, col: 16, offset: 25132},
+																			pos: position{line: 784, col: 16, offset: 25200},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 784, col: 16, offset: 25132},
+																					pos:        position{line: 784, col: 16, offset: 25200},
 																					val:        "....",
 																					ignoreCase: false,
 																					want:       "\"....\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 784, col: 23, offset: 25139},
+																					pos: position{line: 784, col: 23, offset: 25207},
 																					expr: &litMatcher{
-																						pos:        position{line: 784, col: 23, offset: 25139},
+																						pos:        position{line: 784, col: 23, offset: 25207},
 																						val:        ".",
 																						ignoreCase: false,
 																						want:       "\".\"",
@@ -32651,12 +33069,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 786, col: 8, offset: 25223},
+																	pos: position{line: 786, col: 8, offset: 25291},
 																	expr: &actionExpr{
-																		pos: position{line: 2901, col: 10, offset: 91483},
+																		pos: position{line: 2902, col: 10, offset: 91633},
 																		run: (*parser).callonListContinuationElement751,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2901, col: 10, offset: 91483},
+																			pos:        position{line: 2902, col: 10, offset: 91633},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32665,28 +33083,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2923, col: 8, offset: 91881},
+																	pos: position{line: 2924, col: 8, offset: 92031},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2910, col: 12, offset: 91654},
+																			pos: position{line: 2911, col: 12, offset: 91804},
 																			run: (*parser).callonListContinuationElement754,
 																			expr: &choiceExpr{
-																				pos: position{line: 2910, col: 13, offset: 91655},
+																				pos: position{line: 2911, col: 13, offset: 91805},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91655},
+																						pos:        position{line: 2911, col: 13, offset: 91805},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 20, offset: 91662},
+																						pos:        position{line: 2911, col: 20, offset: 91812},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 29, offset: 91671},
+																						pos:        position{line: 2911, col: 29, offset: 91821},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32695,9 +33113,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2920, col: 8, offset: 91831},
+																			pos: position{line: 2921, col: 8, offset: 91981},
 																			expr: &anyMatcher{
-																				line: 2920, col: 9, offset: 91832,
+																				line: 2921, col: 9, offset: 91982,
 																			},
 																		},
 																	},
@@ -32707,56 +33125,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 926, col: 5, offset: 29025},
+													pos: position{line: 926, col: 5, offset: 29093},
 													run: (*parser).callonListContinuationElement761,
 												},
 												&labeledExpr{
-													pos:   position{line: 929, col: 5, offset: 29117},
+													pos:   position{line: 929, col: 5, offset: 29185},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 944, col: 5, offset: 29515},
+														pos: position{line: 944, col: 5, offset: 29583},
 														expr: &actionExpr{
-															pos: position{line: 944, col: 6, offset: 29516},
+															pos: position{line: 944, col: 6, offset: 29584},
 															run: (*parser).callonListContinuationElement764,
 															expr: &seqExpr{
-																pos: position{line: 944, col: 6, offset: 29516},
+																pos: position{line: 944, col: 6, offset: 29584},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 944, col: 6, offset: 29516},
+																		pos: position{line: 944, col: 6, offset: 29584},
 																		expr: &choiceExpr{
-																			pos: position{line: 937, col: 5, offset: 29357},
+																			pos: position{line: 937, col: 5, offset: 29425},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 937, col: 5, offset: 29357},
+																					pos: position{line: 937, col: 5, offset: 29425},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 937, col: 5, offset: 29357},
+																							pos:   position{line: 937, col: 5, offset: 29425},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 784, col: 5, offset: 25121},
+																								pos: position{line: 784, col: 5, offset: 25189},
 																								run: (*parser).callonListContinuationElement770,
 																								expr: &seqExpr{
-																									pos: position{line: 784, col: 5, offset: 25121},
+																									pos: position{line: 784, col: 5, offset: 25189},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 784, col: 5, offset: 25121},
+																											pos:   position{line: 784, col: 5, offset: 25189},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 784, col: 16, offset: 25132},
+																												pos: position{line: 784, col: 16, offset: 25200},
 																												run: (*parser).callonListContinuationElement773,
 																												expr: &seqExpr{
-																													pos: position{line: 784, col: 16, offset: 25132},
+																													pos: position{line: 784, col: 16, offset: 25200},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 784, col: 16, offset: 25132},
+																															pos:        position{line: 784, col: 16, offset: 25200},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 784, col: 23, offset: 25139},
+																															pos: position{line: 784, col: 23, offset: 25207},
 																															expr: &litMatcher{
-																																pos:        position{line: 784, col: 23, offset: 25139},
+																																pos:        position{line: 784, col: 23, offset: 25207},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -32767,12 +33185,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 786, col: 8, offset: 25223},
+																											pos: position{line: 786, col: 8, offset: 25291},
 																											expr: &actionExpr{
-																												pos: position{line: 2901, col: 10, offset: 91483},
+																												pos: position{line: 2902, col: 10, offset: 91633},
 																												run: (*parser).callonListContinuationElement779,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2901, col: 10, offset: 91483},
+																													pos:        position{line: 2902, col: 10, offset: 91633},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32781,28 +33199,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2923, col: 8, offset: 91881},
+																											pos: position{line: 2924, col: 8, offset: 92031},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2910, col: 12, offset: 91654},
+																													pos: position{line: 2911, col: 12, offset: 91804},
 																													run: (*parser).callonListContinuationElement782,
 																													expr: &choiceExpr{
-																														pos: position{line: 2910, col: 13, offset: 91655},
+																														pos: position{line: 2911, col: 13, offset: 91805},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 13, offset: 91655},
+																																pos:        position{line: 2911, col: 13, offset: 91805},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 20, offset: 91662},
+																																pos:        position{line: 2911, col: 20, offset: 91812},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 29, offset: 91671},
+																																pos:        position{line: 2911, col: 29, offset: 91821},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32811,9 +33229,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2920, col: 8, offset: 91831},
+																													pos: position{line: 2921, col: 8, offset: 91981},
 																													expr: &anyMatcher{
-																														line: 2920, col: 9, offset: 91832,
+																														line: 2921, col: 9, offset: 91982,
 																													},
 																												},
 																											},
@@ -32823,45 +33241,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 938, col: 5, offset: 29388},
+																							pos: position{line: 938, col: 5, offset: 29456},
 																							run: (*parser).callonListContinuationElement789,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 945, col: 5, offset: 29546},
+																		pos:   position{line: 945, col: 5, offset: 29614},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26117},
+																			pos: position{line: 812, col: 5, offset: 26185},
 																			run: (*parser).callonListContinuationElement793,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26117},
+																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2918, col: 11, offset: 91817},
+																						pos: position{line: 2919, col: 11, offset: 91967},
 																						expr: &anyMatcher{
-																							line: 2918, col: 13, offset: 91819,
+																							line: 2919, col: 13, offset: 91969,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26192},
+																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2847, col: 13, offset: 90009},
+																							pos: position{line: 2848, col: 13, offset: 90159},
 																							run: (*parser).callonListContinuationElement798,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2847, col: 13, offset: 90009},
+																								pos: position{line: 2848, col: 13, offset: 90159},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2847, col: 13, offset: 90009},
+																									pos:        position{line: 2848, col: 13, offset: 90159},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32871,28 +33289,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2923, col: 8, offset: 91881},
+																						pos: position{line: 2924, col: 8, offset: 92031},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2910, col: 12, offset: 91654},
+																								pos: position{line: 2911, col: 12, offset: 91804},
 																								run: (*parser).callonListContinuationElement802,
 																								expr: &choiceExpr{
-																									pos: position{line: 2910, col: 13, offset: 91655},
+																									pos: position{line: 2911, col: 13, offset: 91805},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 13, offset: 91655},
+																											pos:        position{line: 2911, col: 13, offset: 91805},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 20, offset: 91662},
+																											pos:        position{line: 2911, col: 20, offset: 91812},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 29, offset: 91671},
+																											pos:        position{line: 2911, col: 29, offset: 91821},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32901,9 +33319,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 8, offset: 91831},
+																								pos: position{line: 2921, col: 8, offset: 91981},
 																								expr: &anyMatcher{
-																									line: 2920, col: 9, offset: 91832,
+																									line: 2921, col: 9, offset: 91982,
 																								},
 																							},
 																						},
@@ -32918,44 +33336,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 930, col: 5, offset: 29151},
+													pos:   position{line: 930, col: 5, offset: 29219},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 930, col: 9, offset: 29155},
+														pos: position{line: 930, col: 9, offset: 29223},
 														expr: &choiceExpr{
-															pos: position{line: 937, col: 5, offset: 29357},
+															pos: position{line: 937, col: 5, offset: 29425},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 937, col: 5, offset: 29357},
+																	pos: position{line: 937, col: 5, offset: 29425},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 937, col: 5, offset: 29357},
+																			pos:   position{line: 937, col: 5, offset: 29425},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 784, col: 5, offset: 25121},
+																				pos: position{line: 784, col: 5, offset: 25189},
 																				run: (*parser).callonListContinuationElement814,
 																				expr: &seqExpr{
-																					pos: position{line: 784, col: 5, offset: 25121},
+																					pos: position{line: 784, col: 5, offset: 25189},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 784, col: 5, offset: 25121},
+																							pos:   position{line: 784, col: 5, offset: 25189},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 784, col: 16, offset: 25132},
+																								pos: position{line: 784, col: 16, offset: 25200},
 																								run: (*parser).callonListContinuationElement817,
 																								expr: &seqExpr{
-																									pos: position{line: 784, col: 16, offset: 25132},
+																									pos: position{line: 784, col: 16, offset: 25200},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 784, col: 16, offset: 25132},
+																											pos:        position{line: 784, col: 16, offset: 25200},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 784, col: 23, offset: 25139},
+																											pos: position{line: 784, col: 23, offset: 25207},
 																											expr: &litMatcher{
-																												pos:        position{line: 784, col: 23, offset: 25139},
+																												pos:        position{line: 784, col: 23, offset: 25207},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -32966,12 +33384,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 786, col: 8, offset: 25223},
+																							pos: position{line: 786, col: 8, offset: 25291},
 																							expr: &actionExpr{
-																								pos: position{line: 2901, col: 10, offset: 91483},
+																								pos: position{line: 2902, col: 10, offset: 91633},
 																								run: (*parser).callonListContinuationElement823,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2901, col: 10, offset: 91483},
+																									pos:        position{line: 2902, col: 10, offset: 91633},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32980,28 +33398,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonListContinuationElement826,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33010,9 +33428,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -33022,15 +33440,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 938, col: 5, offset: 29388},
+																			pos: position{line: 938, col: 5, offset: 29456},
 																			run: (*parser).callonListContinuationElement833,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2920, col: 8, offset: 91831},
+																	pos: position{line: 2921, col: 8, offset: 91981},
 																	expr: &anyMatcher{
-																		line: 2920, col: 9, offset: 91832,
+																		line: 2921, col: 9, offset: 91982,
 																	},
 																},
 															},
@@ -33041,41 +33459,41 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 976, col: 5, offset: 30429},
+										pos: position{line: 976, col: 5, offset: 30497},
 										run: (*parser).callonListContinuationElement836,
 										expr: &seqExpr{
-											pos: position{line: 976, col: 5, offset: 30429},
+											pos: position{line: 976, col: 5, offset: 30497},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 976, col: 5, offset: 30429},
+													pos:   position{line: 976, col: 5, offset: 30497},
 													label: "firstLine",
 													expr: &actionExpr{
-														pos: position{line: 983, col: 5, offset: 30688},
+														pos: position{line: 983, col: 5, offset: 30756},
 														run: (*parser).callonListContinuationElement839,
 														expr: &seqExpr{
-															pos: position{line: 983, col: 5, offset: 30688},
+															pos: position{line: 983, col: 5, offset: 30756},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 983, col: 5, offset: 30688},
+																	pos: position{line: 983, col: 5, offset: 30756},
 																	expr: &actionExpr{
-																		pos: position{line: 678, col: 14, offset: 21518},
+																		pos: position{line: 678, col: 14, offset: 21586},
 																		run: (*parser).callonListContinuationElement842,
 																		expr: &seqExpr{
-																			pos: position{line: 678, col: 14, offset: 21518},
+																			pos: position{line: 678, col: 14, offset: 21586},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2918, col: 11, offset: 91817},
+																					pos: position{line: 2919, col: 11, offset: 91967},
 																					expr: &anyMatcher{
-																						line: 2918, col: 13, offset: 91819,
+																						line: 2919, col: 13, offset: 91969,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 678, col: 21, offset: 21525},
+																					pos: position{line: 678, col: 21, offset: 21593},
 																					expr: &actionExpr{
-																						pos: position{line: 2901, col: 10, offset: 91483},
+																						pos: position{line: 2902, col: 10, offset: 91633},
 																						run: (*parser).callonListContinuationElement847,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2901, col: 10, offset: 91483},
+																							pos:        position{line: 2902, col: 10, offset: 91633},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33084,28 +33502,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2923, col: 8, offset: 91881},
+																					pos: position{line: 2924, col: 8, offset: 92031},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2910, col: 12, offset: 91654},
+																							pos: position{line: 2911, col: 12, offset: 91804},
 																							run: (*parser).callonListContinuationElement850,
 																							expr: &choiceExpr{
-																								pos: position{line: 2910, col: 13, offset: 91655},
+																								pos: position{line: 2911, col: 13, offset: 91805},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 13, offset: 91655},
+																										pos:        position{line: 2911, col: 13, offset: 91805},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 20, offset: 91662},
+																										pos:        position{line: 2911, col: 20, offset: 91812},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 29, offset: 91671},
+																										pos:        position{line: 2911, col: 29, offset: 91821},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33114,9 +33532,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2920, col: 8, offset: 91831},
+																							pos: position{line: 2921, col: 8, offset: 91981},
 																							expr: &anyMatcher{
-																								line: 2920, col: 9, offset: 91832,
+																								line: 2921, col: 9, offset: 91982,
 																							},
 																						},
 																					},
@@ -33126,21 +33544,21 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 984, col: 5, offset: 30703},
+																	pos:        position{line: 984, col: 5, offset: 30771},
 																	val:        "> ",
 																	ignoreCase: false,
 																	want:       "\"> \"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 985, col: 5, offset: 30713},
+																	pos:   position{line: 985, col: 5, offset: 30781},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2851, col: 14, offset: 90076},
+																		pos: position{line: 2852, col: 14, offset: 90226},
 																		run: (*parser).callonListContinuationElement859,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2851, col: 14, offset: 90076},
+																			pos: position{line: 2852, col: 14, offset: 90226},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2851, col: 14, offset: 90076},
+																				pos:        position{line: 2852, col: 14, offset: 90226},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33150,28 +33568,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2923, col: 8, offset: 91881},
+																	pos: position{line: 2924, col: 8, offset: 92031},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2910, col: 12, offset: 91654},
+																			pos: position{line: 2911, col: 12, offset: 91804},
 																			run: (*parser).callonListContinuationElement863,
 																			expr: &choiceExpr{
-																				pos: position{line: 2910, col: 13, offset: 91655},
+																				pos: position{line: 2911, col: 13, offset: 91805},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91655},
+																						pos:        position{line: 2911, col: 13, offset: 91805},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 20, offset: 91662},
+																						pos:        position{line: 2911, col: 20, offset: 91812},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 29, offset: 91671},
+																						pos:        position{line: 2911, col: 29, offset: 91821},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33180,9 +33598,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2920, col: 8, offset: 91831},
+																			pos: position{line: 2921, col: 8, offset: 91981},
 																			expr: &anyMatcher{
-																				line: 2920, col: 9, offset: 91832,
+																				line: 2921, col: 9, offset: 91982,
 																			},
 																		},
 																	},
@@ -33192,40 +33610,40 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 977, col: 5, offset: 30466},
+													pos:   position{line: 977, col: 5, offset: 30534},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 977, col: 16, offset: 30477},
+														pos: position{line: 977, col: 16, offset: 30545},
 														expr: &choiceExpr{
-															pos: position{line: 977, col: 17, offset: 30478},
+															pos: position{line: 977, col: 17, offset: 30546},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 983, col: 5, offset: 30688},
+																	pos: position{line: 983, col: 5, offset: 30756},
 																	run: (*parser).callonListContinuationElement873,
 																	expr: &seqExpr{
-																		pos: position{line: 983, col: 5, offset: 30688},
+																		pos: position{line: 983, col: 5, offset: 30756},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 983, col: 5, offset: 30688},
+																				pos: position{line: 983, col: 5, offset: 30756},
 																				expr: &actionExpr{
-																					pos: position{line: 678, col: 14, offset: 21518},
+																					pos: position{line: 678, col: 14, offset: 21586},
 																					run: (*parser).callonListContinuationElement876,
 																					expr: &seqExpr{
-																						pos: position{line: 678, col: 14, offset: 21518},
+																						pos: position{line: 678, col: 14, offset: 21586},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2918, col: 11, offset: 91817},
+																								pos: position{line: 2919, col: 11, offset: 91967},
 																								expr: &anyMatcher{
-																									line: 2918, col: 13, offset: 91819,
+																									line: 2919, col: 13, offset: 91969,
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 678, col: 21, offset: 21525},
+																								pos: position{line: 678, col: 21, offset: 21593},
 																								expr: &actionExpr{
-																									pos: position{line: 2901, col: 10, offset: 91483},
+																									pos: position{line: 2902, col: 10, offset: 91633},
 																									run: (*parser).callonListContinuationElement881,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2901, col: 10, offset: 91483},
+																										pos:        position{line: 2902, col: 10, offset: 91633},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33234,28 +33652,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2923, col: 8, offset: 91881},
+																								pos: position{line: 2924, col: 8, offset: 92031},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2910, col: 12, offset: 91654},
+																										pos: position{line: 2911, col: 12, offset: 91804},
 																										run: (*parser).callonListContinuationElement884,
 																										expr: &choiceExpr{
-																											pos: position{line: 2910, col: 13, offset: 91655},
+																											pos: position{line: 2911, col: 13, offset: 91805},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 13, offset: 91655},
+																													pos:        position{line: 2911, col: 13, offset: 91805},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 20, offset: 91662},
+																													pos:        position{line: 2911, col: 20, offset: 91812},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 29, offset: 91671},
+																													pos:        position{line: 2911, col: 29, offset: 91821},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33264,9 +33682,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2920, col: 8, offset: 91831},
+																										pos: position{line: 2921, col: 8, offset: 91981},
 																										expr: &anyMatcher{
-																											line: 2920, col: 9, offset: 91832,
+																											line: 2921, col: 9, offset: 91982,
 																										},
 																									},
 																								},
@@ -33276,21 +33694,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 984, col: 5, offset: 30703},
+																				pos:        position{line: 984, col: 5, offset: 30771},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 985, col: 5, offset: 30713},
+																				pos:   position{line: 985, col: 5, offset: 30781},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2851, col: 14, offset: 90076},
+																					pos: position{line: 2852, col: 14, offset: 90226},
 																					run: (*parser).callonListContinuationElement893,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2851, col: 14, offset: 90076},
+																						pos: position{line: 2852, col: 14, offset: 90226},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2851, col: 14, offset: 90076},
+																							pos:        position{line: 2852, col: 14, offset: 90226},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33300,28 +33718,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2923, col: 8, offset: 91881},
+																				pos: position{line: 2924, col: 8, offset: 92031},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2910, col: 12, offset: 91654},
+																						pos: position{line: 2911, col: 12, offset: 91804},
 																						run: (*parser).callonListContinuationElement897,
 																						expr: &choiceExpr{
-																							pos: position{line: 2910, col: 13, offset: 91655},
+																							pos: position{line: 2911, col: 13, offset: 91805},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2910, col: 13, offset: 91655},
+																									pos:        position{line: 2911, col: 13, offset: 91805},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2910, col: 20, offset: 91662},
+																									pos:        position{line: 2911, col: 20, offset: 91812},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2910, col: 29, offset: 91671},
+																									pos:        position{line: 2911, col: 29, offset: 91821},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33330,9 +33748,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2920, col: 8, offset: 91831},
+																						pos: position{line: 2921, col: 8, offset: 91981},
 																						expr: &anyMatcher{
-																							line: 2920, col: 9, offset: 91832,
+																							line: 2921, col: 9, offset: 91982,
 																						},
 																					},
 																				},
@@ -33341,21 +33759,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1790, col: 5, offset: 57750},
+																	pos: position{line: 1791, col: 5, offset: 57852},
 																	run: (*parser).callonListContinuationElement904,
 																	expr: &seqExpr{
-																		pos: position{line: 1790, col: 5, offset: 57750},
+																		pos: position{line: 1791, col: 5, offset: 57852},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1790, col: 5, offset: 57750},
+																				pos:   position{line: 1791, col: 5, offset: 57852},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2851, col: 14, offset: 90076},
+																					pos: position{line: 2852, col: 14, offset: 90226},
 																					run: (*parser).callonListContinuationElement907,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2851, col: 14, offset: 90076},
+																						pos: position{line: 2852, col: 14, offset: 90226},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2851, col: 14, offset: 90076},
+																							pos:        position{line: 2852, col: 14, offset: 90226},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33365,32 +33783,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1791, col: 5, offset: 57774},
+																				pos: position{line: 1792, col: 5, offset: 57876},
 																				run: (*parser).callonListContinuationElement910,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2923, col: 8, offset: 91881},
+																				pos: position{line: 2924, col: 8, offset: 92031},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2910, col: 12, offset: 91654},
+																						pos: position{line: 2911, col: 12, offset: 91804},
 																						run: (*parser).callonListContinuationElement912,
 																						expr: &choiceExpr{
-																							pos: position{line: 2910, col: 13, offset: 91655},
+																							pos: position{line: 2911, col: 13, offset: 91805},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2910, col: 13, offset: 91655},
+																									pos:        position{line: 2911, col: 13, offset: 91805},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2910, col: 20, offset: 91662},
+																									pos:        position{line: 2911, col: 20, offset: 91812},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2910, col: 29, offset: 91671},
+																									pos:        position{line: 2911, col: 29, offset: 91821},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33399,9 +33817,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2920, col: 8, offset: 91831},
+																						pos: position{line: 2921, col: 8, offset: 91981},
 																						expr: &anyMatcher{
-																							line: 2920, col: 9, offset: 91832,
+																							line: 2921, col: 9, offset: 91982,
 																						},
 																					},
 																				},
@@ -33417,28 +33835,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 998, col: 5, offset: 30978},
+										pos: position{line: 998, col: 5, offset: 31046},
 										run: (*parser).callonListContinuationElement919,
 										expr: &seqExpr{
-											pos: position{line: 998, col: 5, offset: 30978},
+											pos: position{line: 998, col: 5, offset: 31046},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 998, col: 5, offset: 30978},
+													pos:   position{line: 998, col: 5, offset: 31046},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 777, col: 5, offset: 24890},
+														pos: position{line: 777, col: 5, offset: 24958},
 														run: (*parser).callonListContinuationElement922,
 														expr: &seqExpr{
-															pos: position{line: 777, col: 5, offset: 24890},
+															pos: position{line: 777, col: 5, offset: 24958},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 777, col: 5, offset: 24890},
+																	pos:   position{line: 777, col: 5, offset: 24958},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 777, col: 16, offset: 24901},
+																		pos: position{line: 777, col: 16, offset: 24969},
 																		run: (*parser).callonListContinuationElement925,
 																		expr: &litMatcher{
-																			pos:        position{line: 777, col: 16, offset: 24901},
+																			pos:        position{line: 777, col: 16, offset: 24969},
 																			val:        "--",
 																			ignoreCase: false,
 																			want:       "\"--\"",
@@ -33446,12 +33864,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 779, col: 8, offset: 24978},
+																	pos: position{line: 779, col: 8, offset: 25046},
 																	expr: &actionExpr{
-																		pos: position{line: 2901, col: 10, offset: 91483},
+																		pos: position{line: 2902, col: 10, offset: 91633},
 																		run: (*parser).callonListContinuationElement928,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2901, col: 10, offset: 91483},
+																			pos:        position{line: 2902, col: 10, offset: 91633},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33460,28 +33878,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2923, col: 8, offset: 91881},
+																	pos: position{line: 2924, col: 8, offset: 92031},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2910, col: 12, offset: 91654},
+																			pos: position{line: 2911, col: 12, offset: 91804},
 																			run: (*parser).callonListContinuationElement931,
 																			expr: &choiceExpr{
-																				pos: position{line: 2910, col: 13, offset: 91655},
+																				pos: position{line: 2911, col: 13, offset: 91805},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91655},
+																						pos:        position{line: 2911, col: 13, offset: 91805},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 20, offset: 91662},
+																						pos:        position{line: 2911, col: 20, offset: 91812},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 29, offset: 91671},
+																						pos:        position{line: 2911, col: 29, offset: 91821},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33490,9 +33908,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2920, col: 8, offset: 91831},
+																			pos: position{line: 2921, col: 8, offset: 91981},
 																			expr: &anyMatcher{
-																				line: 2920, col: 9, offset: 91832,
+																				line: 2921, col: 9, offset: 91982,
 																			},
 																		},
 																	},
@@ -33502,35 +33920,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 999, col: 5, offset: 31014},
+													pos:   position{line: 999, col: 5, offset: 31082},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1009, col: 5, offset: 31282},
+														pos: position{line: 1009, col: 5, offset: 31350},
 														expr: &actionExpr{
-															pos: position{line: 1009, col: 6, offset: 31283},
+															pos: position{line: 1009, col: 6, offset: 31351},
 															run: (*parser).callonListContinuationElement940,
 															expr: &seqExpr{
-																pos: position{line: 1009, col: 6, offset: 31283},
+																pos: position{line: 1009, col: 6, offset: 31351},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1009, col: 6, offset: 31283},
+																		pos: position{line: 1009, col: 6, offset: 31351},
 																		expr: &choiceExpr{
-																			pos: position{line: 1006, col: 26, offset: 31231},
+																			pos: position{line: 1006, col: 26, offset: 31299},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 777, col: 5, offset: 24890},
+																					pos: position{line: 777, col: 5, offset: 24958},
 																					run: (*parser).callonListContinuationElement944,
 																					expr: &seqExpr{
-																						pos: position{line: 777, col: 5, offset: 24890},
+																						pos: position{line: 777, col: 5, offset: 24958},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 777, col: 5, offset: 24890},
+																								pos:   position{line: 777, col: 5, offset: 24958},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 777, col: 16, offset: 24901},
+																									pos: position{line: 777, col: 16, offset: 24969},
 																									run: (*parser).callonListContinuationElement947,
 																									expr: &litMatcher{
-																										pos:        position{line: 777, col: 16, offset: 24901},
+																										pos:        position{line: 777, col: 16, offset: 24969},
 																										val:        "--",
 																										ignoreCase: false,
 																										want:       "\"--\"",
@@ -33538,12 +33956,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 779, col: 8, offset: 24978},
+																								pos: position{line: 779, col: 8, offset: 25046},
 																								expr: &actionExpr{
-																									pos: position{line: 2901, col: 10, offset: 91483},
+																									pos: position{line: 2902, col: 10, offset: 91633},
 																									run: (*parser).callonListContinuationElement950,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2901, col: 10, offset: 91483},
+																										pos:        position{line: 2902, col: 10, offset: 91633},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33552,28 +33970,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2923, col: 8, offset: 91881},
+																								pos: position{line: 2924, col: 8, offset: 92031},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2910, col: 12, offset: 91654},
+																										pos: position{line: 2911, col: 12, offset: 91804},
 																										run: (*parser).callonListContinuationElement953,
 																										expr: &choiceExpr{
-																											pos: position{line: 2910, col: 13, offset: 91655},
+																											pos: position{line: 2911, col: 13, offset: 91805},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 13, offset: 91655},
+																													pos:        position{line: 2911, col: 13, offset: 91805},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 20, offset: 91662},
+																													pos:        position{line: 2911, col: 20, offset: 91812},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2910, col: 29, offset: 91671},
+																													pos:        position{line: 2911, col: 29, offset: 91821},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33582,9 +34000,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2920, col: 8, offset: 91831},
+																										pos: position{line: 2921, col: 8, offset: 91981},
 																										expr: &anyMatcher{
-																											line: 2920, col: 9, offset: 91832,
+																											line: 2921, col: 9, offset: 91982,
 																										},
 																									},
 																								},
@@ -33593,39 +34011,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1010, col: 5, offset: 31310},
+																		pos:   position{line: 1010, col: 5, offset: 31378},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26117},
+																			pos: position{line: 812, col: 5, offset: 26185},
 																			run: (*parser).callonListContinuationElement963,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26117},
+																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2918, col: 11, offset: 91817},
+																						pos: position{line: 2919, col: 11, offset: 91967},
 																						expr: &anyMatcher{
-																							line: 2918, col: 13, offset: 91819,
+																							line: 2919, col: 13, offset: 91969,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26192},
+																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2847, col: 13, offset: 90009},
+																							pos: position{line: 2848, col: 13, offset: 90159},
 																							run: (*parser).callonListContinuationElement968,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2847, col: 13, offset: 90009},
+																								pos: position{line: 2848, col: 13, offset: 90159},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2847, col: 13, offset: 90009},
+																									pos:        position{line: 2848, col: 13, offset: 90159},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33635,28 +34053,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2923, col: 8, offset: 91881},
+																						pos: position{line: 2924, col: 8, offset: 92031},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2910, col: 12, offset: 91654},
+																								pos: position{line: 2911, col: 12, offset: 91804},
 																								run: (*parser).callonListContinuationElement972,
 																								expr: &choiceExpr{
-																									pos: position{line: 2910, col: 13, offset: 91655},
+																									pos: position{line: 2911, col: 13, offset: 91805},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 13, offset: 91655},
+																											pos:        position{line: 2911, col: 13, offset: 91805},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 20, offset: 91662},
+																											pos:        position{line: 2911, col: 20, offset: 91812},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 29, offset: 91671},
+																											pos:        position{line: 2911, col: 29, offset: 91821},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33665,9 +34083,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 8, offset: 91831},
+																								pos: position{line: 2921, col: 8, offset: 91981},
 																								expr: &anyMatcher{
-																									line: 2920, col: 9, offset: 91832,
+																									line: 2921, col: 9, offset: 91982,
 																								},
 																							},
 																						},
@@ -33682,27 +34100,27 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1000, col: 5, offset: 31045},
+													pos:   position{line: 1000, col: 5, offset: 31113},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1000, col: 9, offset: 31049},
+														pos: position{line: 1000, col: 9, offset: 31117},
 														expr: &choiceExpr{
-															pos: position{line: 1006, col: 26, offset: 31231},
+															pos: position{line: 1006, col: 26, offset: 31299},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 777, col: 5, offset: 24890},
+																	pos: position{line: 777, col: 5, offset: 24958},
 																	run: (*parser).callonListContinuationElement982,
 																	expr: &seqExpr{
-																		pos: position{line: 777, col: 5, offset: 24890},
+																		pos: position{line: 777, col: 5, offset: 24958},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 777, col: 5, offset: 24890},
+																				pos:   position{line: 777, col: 5, offset: 24958},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 777, col: 16, offset: 24901},
+																					pos: position{line: 777, col: 16, offset: 24969},
 																					run: (*parser).callonListContinuationElement985,
 																					expr: &litMatcher{
-																						pos:        position{line: 777, col: 16, offset: 24901},
+																						pos:        position{line: 777, col: 16, offset: 24969},
 																						val:        "--",
 																						ignoreCase: false,
 																						want:       "\"--\"",
@@ -33710,12 +34128,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 779, col: 8, offset: 24978},
+																				pos: position{line: 779, col: 8, offset: 25046},
 																				expr: &actionExpr{
-																					pos: position{line: 2901, col: 10, offset: 91483},
+																					pos: position{line: 2902, col: 10, offset: 91633},
 																					run: (*parser).callonListContinuationElement988,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2901, col: 10, offset: 91483},
+																						pos:        position{line: 2902, col: 10, offset: 91633},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -33724,28 +34142,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2923, col: 8, offset: 91881},
+																				pos: position{line: 2924, col: 8, offset: 92031},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2910, col: 12, offset: 91654},
+																						pos: position{line: 2911, col: 12, offset: 91804},
 																						run: (*parser).callonListContinuationElement991,
 																						expr: &choiceExpr{
-																							pos: position{line: 2910, col: 13, offset: 91655},
+																							pos: position{line: 2911, col: 13, offset: 91805},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2910, col: 13, offset: 91655},
+																									pos:        position{line: 2911, col: 13, offset: 91805},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2910, col: 20, offset: 91662},
+																									pos:        position{line: 2911, col: 20, offset: 91812},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2910, col: 29, offset: 91671},
+																									pos:        position{line: 2911, col: 29, offset: 91821},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33754,9 +34172,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2920, col: 8, offset: 91831},
+																						pos: position{line: 2921, col: 8, offset: 91981},
 																						expr: &anyMatcher{
-																							line: 2920, col: 9, offset: 91832,
+																							line: 2921, col: 9, offset: 91982,
 																						},
 																					},
 																				},
@@ -33765,9 +34183,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2920, col: 8, offset: 91831},
+																	pos: position{line: 2921, col: 8, offset: 91981},
 																	expr: &anyMatcher{
-																		line: 2920, col: 9, offset: 91832,
+																		line: 2921, col: 9, offset: 91982,
 																	},
 																},
 															},
@@ -33778,39 +34196,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1018, col: 5, offset: 31473},
+										pos: position{line: 1018, col: 5, offset: 31541},
 										run: (*parser).callonListContinuationElement1000,
 										expr: &seqExpr{
-											pos: position{line: 1018, col: 5, offset: 31473},
+											pos: position{line: 1018, col: 5, offset: 31541},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1018, col: 5, offset: 31473},
+													pos:   position{line: 1018, col: 5, offset: 31541},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 791, col: 5, offset: 25373},
+														pos: position{line: 791, col: 5, offset: 25441},
 														run: (*parser).callonListContinuationElement1003,
 														expr: &seqExpr{
-															pos: position{line: 791, col: 5, offset: 25373},
+															pos: position{line: 791, col: 5, offset: 25441},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 791, col: 5, offset: 25373},
+																	pos:   position{line: 791, col: 5, offset: 25441},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 791, col: 16, offset: 25384},
+																		pos: position{line: 791, col: 16, offset: 25452},
 																		run: (*parser).callonListContinuationElement1006,
 																		expr: &seqExpr{
-																			pos: position{line: 791, col: 16, offset: 25384},
+																			pos: position{line: 791, col: 16, offset: 25452},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 791, col: 16, offset: 25384},
+																					pos:        position{line: 791, col: 16, offset: 25452},
 																					val:        "++++",
 																					ignoreCase: false,
 																					want:       "\"++++\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 791, col: 23, offset: 25391},
+																					pos: position{line: 791, col: 23, offset: 25459},
 																					expr: &litMatcher{
-																						pos:        position{line: 791, col: 23, offset: 25391},
+																						pos:        position{line: 791, col: 23, offset: 25459},
 																						val:        "+",
 																						ignoreCase: false,
 																						want:       "\"+\"",
@@ -33821,12 +34239,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 793, col: 8, offset: 25475},
+																	pos: position{line: 793, col: 8, offset: 25543},
 																	expr: &actionExpr{
-																		pos: position{line: 2901, col: 10, offset: 91483},
+																		pos: position{line: 2902, col: 10, offset: 91633},
 																		run: (*parser).callonListContinuationElement1012,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2901, col: 10, offset: 91483},
+																			pos:        position{line: 2902, col: 10, offset: 91633},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33835,28 +34253,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2923, col: 8, offset: 91881},
+																	pos: position{line: 2924, col: 8, offset: 92031},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2910, col: 12, offset: 91654},
+																			pos: position{line: 2911, col: 12, offset: 91804},
 																			run: (*parser).callonListContinuationElement1015,
 																			expr: &choiceExpr{
-																				pos: position{line: 2910, col: 13, offset: 91655},
+																				pos: position{line: 2911, col: 13, offset: 91805},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91655},
+																						pos:        position{line: 2911, col: 13, offset: 91805},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 20, offset: 91662},
+																						pos:        position{line: 2911, col: 20, offset: 91812},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 29, offset: 91671},
+																						pos:        position{line: 2911, col: 29, offset: 91821},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33865,9 +34283,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2920, col: 8, offset: 91831},
+																			pos: position{line: 2921, col: 8, offset: 91981},
 																			expr: &anyMatcher{
-																				line: 2920, col: 9, offset: 91832,
+																				line: 2921, col: 9, offset: 91982,
 																			},
 																		},
 																	},
@@ -33877,56 +34295,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1019, col: 5, offset: 31516},
+													pos: position{line: 1019, col: 5, offset: 31584},
 													run: (*parser).callonListContinuationElement1022,
 												},
 												&labeledExpr{
-													pos:   position{line: 1022, col: 5, offset: 31608},
+													pos:   position{line: 1022, col: 5, offset: 31676},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1037, col: 5, offset: 32038},
+														pos: position{line: 1037, col: 5, offset: 32106},
 														expr: &actionExpr{
-															pos: position{line: 1037, col: 6, offset: 32039},
+															pos: position{line: 1037, col: 6, offset: 32107},
 															run: (*parser).callonListContinuationElement1025,
 															expr: &seqExpr{
-																pos: position{line: 1037, col: 6, offset: 32039},
+																pos: position{line: 1037, col: 6, offset: 32107},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1037, col: 6, offset: 32039},
+																		pos: position{line: 1037, col: 6, offset: 32107},
 																		expr: &choiceExpr{
-																			pos: position{line: 1030, col: 5, offset: 31872},
+																			pos: position{line: 1030, col: 5, offset: 31940},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1030, col: 5, offset: 31872},
+																					pos: position{line: 1030, col: 5, offset: 31940},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1030, col: 5, offset: 31872},
+																							pos:   position{line: 1030, col: 5, offset: 31940},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 791, col: 5, offset: 25373},
+																								pos: position{line: 791, col: 5, offset: 25441},
 																								run: (*parser).callonListContinuationElement1031,
 																								expr: &seqExpr{
-																									pos: position{line: 791, col: 5, offset: 25373},
+																									pos: position{line: 791, col: 5, offset: 25441},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 791, col: 5, offset: 25373},
+																											pos:   position{line: 791, col: 5, offset: 25441},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 791, col: 16, offset: 25384},
+																												pos: position{line: 791, col: 16, offset: 25452},
 																												run: (*parser).callonListContinuationElement1034,
 																												expr: &seqExpr{
-																													pos: position{line: 791, col: 16, offset: 25384},
+																													pos: position{line: 791, col: 16, offset: 25452},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 791, col: 16, offset: 25384},
+																															pos:        position{line: 791, col: 16, offset: 25452},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 791, col: 23, offset: 25391},
+																															pos: position{line: 791, col: 23, offset: 25459},
 																															expr: &litMatcher{
-																																pos:        position{line: 791, col: 23, offset: 25391},
+																																pos:        position{line: 791, col: 23, offset: 25459},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -33937,12 +34355,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 793, col: 8, offset: 25475},
+																											pos: position{line: 793, col: 8, offset: 25543},
 																											expr: &actionExpr{
-																												pos: position{line: 2901, col: 10, offset: 91483},
+																												pos: position{line: 2902, col: 10, offset: 91633},
 																												run: (*parser).callonListContinuationElement1040,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2901, col: 10, offset: 91483},
+																													pos:        position{line: 2902, col: 10, offset: 91633},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33951,28 +34369,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2923, col: 8, offset: 91881},
+																											pos: position{line: 2924, col: 8, offset: 92031},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2910, col: 12, offset: 91654},
+																													pos: position{line: 2911, col: 12, offset: 91804},
 																													run: (*parser).callonListContinuationElement1043,
 																													expr: &choiceExpr{
-																														pos: position{line: 2910, col: 13, offset: 91655},
+																														pos: position{line: 2911, col: 13, offset: 91805},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 13, offset: 91655},
+																																pos:        position{line: 2911, col: 13, offset: 91805},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 20, offset: 91662},
+																																pos:        position{line: 2911, col: 20, offset: 91812},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 29, offset: 91671},
+																																pos:        position{line: 2911, col: 29, offset: 91821},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33981,9 +34399,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2920, col: 8, offset: 91831},
+																													pos: position{line: 2921, col: 8, offset: 91981},
 																													expr: &anyMatcher{
-																														line: 2920, col: 9, offset: 91832,
+																														line: 2921, col: 9, offset: 91982,
 																													},
 																												},
 																											},
@@ -33993,45 +34411,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1031, col: 5, offset: 31907},
+																							pos: position{line: 1031, col: 5, offset: 31975},
 																							run: (*parser).callonListContinuationElement1050,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1038, col: 5, offset: 32073},
+																		pos:   position{line: 1038, col: 5, offset: 32141},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26117},
+																			pos: position{line: 812, col: 5, offset: 26185},
 																			run: (*parser).callonListContinuationElement1054,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26117},
+																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2918, col: 11, offset: 91817},
+																						pos: position{line: 2919, col: 11, offset: 91967},
 																						expr: &anyMatcher{
-																							line: 2918, col: 13, offset: 91819,
+																							line: 2919, col: 13, offset: 91969,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26192},
+																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2847, col: 13, offset: 90009},
+																							pos: position{line: 2848, col: 13, offset: 90159},
 																							run: (*parser).callonListContinuationElement1059,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2847, col: 13, offset: 90009},
+																								pos: position{line: 2848, col: 13, offset: 90159},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2847, col: 13, offset: 90009},
+																									pos:        position{line: 2848, col: 13, offset: 90159},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34041,28 +34459,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2923, col: 8, offset: 91881},
+																						pos: position{line: 2924, col: 8, offset: 92031},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2910, col: 12, offset: 91654},
+																								pos: position{line: 2911, col: 12, offset: 91804},
 																								run: (*parser).callonListContinuationElement1063,
 																								expr: &choiceExpr{
-																									pos: position{line: 2910, col: 13, offset: 91655},
+																									pos: position{line: 2911, col: 13, offset: 91805},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 13, offset: 91655},
+																											pos:        position{line: 2911, col: 13, offset: 91805},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 20, offset: 91662},
+																											pos:        position{line: 2911, col: 20, offset: 91812},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 29, offset: 91671},
+																											pos:        position{line: 2911, col: 29, offset: 91821},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34071,9 +34489,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 8, offset: 91831},
+																								pos: position{line: 2921, col: 8, offset: 91981},
 																								expr: &anyMatcher{
-																									line: 2920, col: 9, offset: 91832,
+																									line: 2921, col: 9, offset: 91982,
 																								},
 																							},
 																						},
@@ -34088,44 +34506,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1023, col: 5, offset: 31646},
+													pos:   position{line: 1023, col: 5, offset: 31714},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1023, col: 9, offset: 31650},
+														pos: position{line: 1023, col: 9, offset: 31718},
 														expr: &choiceExpr{
-															pos: position{line: 1030, col: 5, offset: 31872},
+															pos: position{line: 1030, col: 5, offset: 31940},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1030, col: 5, offset: 31872},
+																	pos: position{line: 1030, col: 5, offset: 31940},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1030, col: 5, offset: 31872},
+																			pos:   position{line: 1030, col: 5, offset: 31940},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 791, col: 5, offset: 25373},
+																				pos: position{line: 791, col: 5, offset: 25441},
 																				run: (*parser).callonListContinuationElement1075,
 																				expr: &seqExpr{
-																					pos: position{line: 791, col: 5, offset: 25373},
+																					pos: position{line: 791, col: 5, offset: 25441},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 791, col: 5, offset: 25373},
+																							pos:   position{line: 791, col: 5, offset: 25441},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 791, col: 16, offset: 25384},
+																								pos: position{line: 791, col: 16, offset: 25452},
 																								run: (*parser).callonListContinuationElement1078,
 																								expr: &seqExpr{
-																									pos: position{line: 791, col: 16, offset: 25384},
+																									pos: position{line: 791, col: 16, offset: 25452},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 791, col: 16, offset: 25384},
+																											pos:        position{line: 791, col: 16, offset: 25452},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 791, col: 23, offset: 25391},
+																											pos: position{line: 791, col: 23, offset: 25459},
 																											expr: &litMatcher{
-																												pos:        position{line: 791, col: 23, offset: 25391},
+																												pos:        position{line: 791, col: 23, offset: 25459},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -34136,12 +34554,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 793, col: 8, offset: 25475},
+																							pos: position{line: 793, col: 8, offset: 25543},
 																							expr: &actionExpr{
-																								pos: position{line: 2901, col: 10, offset: 91483},
+																								pos: position{line: 2902, col: 10, offset: 91633},
 																								run: (*parser).callonListContinuationElement1084,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2901, col: 10, offset: 91483},
+																									pos:        position{line: 2902, col: 10, offset: 91633},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34150,28 +34568,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonListContinuationElement1087,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34180,9 +34598,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -34192,15 +34610,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1031, col: 5, offset: 31907},
+																			pos: position{line: 1031, col: 5, offset: 31975},
 																			run: (*parser).callonListContinuationElement1094,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2920, col: 8, offset: 91831},
+																	pos: position{line: 2921, col: 8, offset: 91981},
 																	expr: &anyMatcher{
-																		line: 2920, col: 9, offset: 91832,
+																		line: 2921, col: 9, offset: 91982,
 																	},
 																},
 															},
@@ -34211,39 +34629,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1046, col: 5, offset: 32224},
+										pos: position{line: 1046, col: 5, offset: 32292},
 										run: (*parser).callonListContinuationElement1097,
 										expr: &seqExpr{
-											pos: position{line: 1046, col: 5, offset: 32224},
+											pos: position{line: 1046, col: 5, offset: 32292},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1046, col: 5, offset: 32224},
+													pos:   position{line: 1046, col: 5, offset: 32292},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 798, col: 5, offset: 25623},
+														pos: position{line: 798, col: 5, offset: 25691},
 														run: (*parser).callonListContinuationElement1100,
 														expr: &seqExpr{
-															pos: position{line: 798, col: 5, offset: 25623},
+															pos: position{line: 798, col: 5, offset: 25691},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 798, col: 5, offset: 25623},
+																	pos:   position{line: 798, col: 5, offset: 25691},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 798, col: 16, offset: 25634},
+																		pos: position{line: 798, col: 16, offset: 25702},
 																		run: (*parser).callonListContinuationElement1103,
 																		expr: &seqExpr{
-																			pos: position{line: 798, col: 16, offset: 25634},
+																			pos: position{line: 798, col: 16, offset: 25702},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 798, col: 16, offset: 25634},
+																					pos:        position{line: 798, col: 16, offset: 25702},
 																					val:        "____",
 																					ignoreCase: false,
 																					want:       "\"____\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 798, col: 23, offset: 25641},
+																					pos: position{line: 798, col: 23, offset: 25709},
 																					expr: &litMatcher{
-																						pos:        position{line: 798, col: 23, offset: 25641},
+																						pos:        position{line: 798, col: 23, offset: 25709},
 																						val:        "_",
 																						ignoreCase: false,
 																						want:       "\"_\"",
@@ -34254,12 +34672,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 800, col: 8, offset: 25725},
+																	pos: position{line: 800, col: 8, offset: 25793},
 																	expr: &actionExpr{
-																		pos: position{line: 2901, col: 10, offset: 91483},
+																		pos: position{line: 2902, col: 10, offset: 91633},
 																		run: (*parser).callonListContinuationElement1109,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2901, col: 10, offset: 91483},
+																			pos:        position{line: 2902, col: 10, offset: 91633},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34268,28 +34686,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2923, col: 8, offset: 91881},
+																	pos: position{line: 2924, col: 8, offset: 92031},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2910, col: 12, offset: 91654},
+																			pos: position{line: 2911, col: 12, offset: 91804},
 																			run: (*parser).callonListContinuationElement1112,
 																			expr: &choiceExpr{
-																				pos: position{line: 2910, col: 13, offset: 91655},
+																				pos: position{line: 2911, col: 13, offset: 91805},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91655},
+																						pos:        position{line: 2911, col: 13, offset: 91805},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 20, offset: 91662},
+																						pos:        position{line: 2911, col: 20, offset: 91812},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 29, offset: 91671},
+																						pos:        position{line: 2911, col: 29, offset: 91821},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34298,9 +34716,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2920, col: 8, offset: 91831},
+																			pos: position{line: 2921, col: 8, offset: 91981},
 																			expr: &anyMatcher{
-																				line: 2920, col: 9, offset: 91832,
+																				line: 2921, col: 9, offset: 91982,
 																			},
 																		},
 																	},
@@ -34310,56 +34728,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1047, col: 5, offset: 32261},
+													pos: position{line: 1047, col: 5, offset: 32329},
 													run: (*parser).callonListContinuationElement1119,
 												},
 												&labeledExpr{
-													pos:   position{line: 1050, col: 5, offset: 32353},
+													pos:   position{line: 1050, col: 5, offset: 32421},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1065, col: 4, offset: 32734},
+														pos: position{line: 1065, col: 4, offset: 32802},
 														expr: &actionExpr{
-															pos: position{line: 1065, col: 5, offset: 32735},
+															pos: position{line: 1065, col: 5, offset: 32803},
 															run: (*parser).callonListContinuationElement1122,
 															expr: &seqExpr{
-																pos: position{line: 1065, col: 5, offset: 32735},
+																pos: position{line: 1065, col: 5, offset: 32803},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1065, col: 5, offset: 32735},
+																		pos: position{line: 1065, col: 5, offset: 32803},
 																		expr: &choiceExpr{
-																			pos: position{line: 1058, col: 5, offset: 32581},
+																			pos: position{line: 1058, col: 5, offset: 32649},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1058, col: 5, offset: 32581},
+																					pos: position{line: 1058, col: 5, offset: 32649},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1058, col: 5, offset: 32581},
+																							pos:   position{line: 1058, col: 5, offset: 32649},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 798, col: 5, offset: 25623},
+																								pos: position{line: 798, col: 5, offset: 25691},
 																								run: (*parser).callonListContinuationElement1128,
 																								expr: &seqExpr{
-																									pos: position{line: 798, col: 5, offset: 25623},
+																									pos: position{line: 798, col: 5, offset: 25691},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 798, col: 5, offset: 25623},
+																											pos:   position{line: 798, col: 5, offset: 25691},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 798, col: 16, offset: 25634},
+																												pos: position{line: 798, col: 16, offset: 25702},
 																												run: (*parser).callonListContinuationElement1131,
 																												expr: &seqExpr{
-																													pos: position{line: 798, col: 16, offset: 25634},
+																													pos: position{line: 798, col: 16, offset: 25702},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 798, col: 16, offset: 25634},
+																															pos:        position{line: 798, col: 16, offset: 25702},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 798, col: 23, offset: 25641},
+																															pos: position{line: 798, col: 23, offset: 25709},
 																															expr: &litMatcher{
-																																pos:        position{line: 798, col: 23, offset: 25641},
+																																pos:        position{line: 798, col: 23, offset: 25709},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -34370,12 +34788,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 800, col: 8, offset: 25725},
+																											pos: position{line: 800, col: 8, offset: 25793},
 																											expr: &actionExpr{
-																												pos: position{line: 2901, col: 10, offset: 91483},
+																												pos: position{line: 2902, col: 10, offset: 91633},
 																												run: (*parser).callonListContinuationElement1137,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2901, col: 10, offset: 91483},
+																													pos:        position{line: 2902, col: 10, offset: 91633},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34384,28 +34802,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2923, col: 8, offset: 91881},
+																											pos: position{line: 2924, col: 8, offset: 92031},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2910, col: 12, offset: 91654},
+																													pos: position{line: 2911, col: 12, offset: 91804},
 																													run: (*parser).callonListContinuationElement1140,
 																													expr: &choiceExpr{
-																														pos: position{line: 2910, col: 13, offset: 91655},
+																														pos: position{line: 2911, col: 13, offset: 91805},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 13, offset: 91655},
+																																pos:        position{line: 2911, col: 13, offset: 91805},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 20, offset: 91662},
+																																pos:        position{line: 2911, col: 20, offset: 91812},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 29, offset: 91671},
+																																pos:        position{line: 2911, col: 29, offset: 91821},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34414,9 +34832,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2920, col: 8, offset: 91831},
+																													pos: position{line: 2921, col: 8, offset: 91981},
 																													expr: &anyMatcher{
-																														line: 2920, col: 9, offset: 91832,
+																														line: 2921, col: 9, offset: 91982,
 																													},
 																												},
 																											},
@@ -34426,45 +34844,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1059, col: 5, offset: 32610},
+																							pos: position{line: 1059, col: 5, offset: 32678},
 																							run: (*parser).callonListContinuationElement1147,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1066, col: 5, offset: 32763},
+																		pos:   position{line: 1066, col: 5, offset: 32831},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26117},
+																			pos: position{line: 812, col: 5, offset: 26185},
 																			run: (*parser).callonListContinuationElement1151,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26117},
+																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2918, col: 11, offset: 91817},
+																						pos: position{line: 2919, col: 11, offset: 91967},
 																						expr: &anyMatcher{
-																							line: 2918, col: 13, offset: 91819,
+																							line: 2919, col: 13, offset: 91969,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26192},
+																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2847, col: 13, offset: 90009},
+																							pos: position{line: 2848, col: 13, offset: 90159},
 																							run: (*parser).callonListContinuationElement1156,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2847, col: 13, offset: 90009},
+																								pos: position{line: 2848, col: 13, offset: 90159},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2847, col: 13, offset: 90009},
+																									pos:        position{line: 2848, col: 13, offset: 90159},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34474,28 +34892,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2923, col: 8, offset: 91881},
+																						pos: position{line: 2924, col: 8, offset: 92031},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2910, col: 12, offset: 91654},
+																								pos: position{line: 2911, col: 12, offset: 91804},
 																								run: (*parser).callonListContinuationElement1160,
 																								expr: &choiceExpr{
-																									pos: position{line: 2910, col: 13, offset: 91655},
+																									pos: position{line: 2911, col: 13, offset: 91805},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 13, offset: 91655},
+																											pos:        position{line: 2911, col: 13, offset: 91805},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 20, offset: 91662},
+																											pos:        position{line: 2911, col: 20, offset: 91812},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 29, offset: 91671},
+																											pos:        position{line: 2911, col: 29, offset: 91821},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34504,9 +34922,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 8, offset: 91831},
+																								pos: position{line: 2921, col: 8, offset: 91981},
 																								expr: &anyMatcher{
-																									line: 2920, col: 9, offset: 91832,
+																									line: 2921, col: 9, offset: 91982,
 																								},
 																							},
 																						},
@@ -34521,44 +34939,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1051, col: 5, offset: 32385},
+													pos:   position{line: 1051, col: 5, offset: 32453},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1051, col: 9, offset: 32389},
+														pos: position{line: 1051, col: 9, offset: 32457},
 														expr: &choiceExpr{
-															pos: position{line: 1058, col: 5, offset: 32581},
+															pos: position{line: 1058, col: 5, offset: 32649},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1058, col: 5, offset: 32581},
+																	pos: position{line: 1058, col: 5, offset: 32649},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1058, col: 5, offset: 32581},
+																			pos:   position{line: 1058, col: 5, offset: 32649},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 798, col: 5, offset: 25623},
+																				pos: position{line: 798, col: 5, offset: 25691},
 																				run: (*parser).callonListContinuationElement1172,
 																				expr: &seqExpr{
-																					pos: position{line: 798, col: 5, offset: 25623},
+																					pos: position{line: 798, col: 5, offset: 25691},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 798, col: 5, offset: 25623},
+																							pos:   position{line: 798, col: 5, offset: 25691},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 798, col: 16, offset: 25634},
+																								pos: position{line: 798, col: 16, offset: 25702},
 																								run: (*parser).callonListContinuationElement1175,
 																								expr: &seqExpr{
-																									pos: position{line: 798, col: 16, offset: 25634},
+																									pos: position{line: 798, col: 16, offset: 25702},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 798, col: 16, offset: 25634},
+																											pos:        position{line: 798, col: 16, offset: 25702},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 798, col: 23, offset: 25641},
+																											pos: position{line: 798, col: 23, offset: 25709},
 																											expr: &litMatcher{
-																												pos:        position{line: 798, col: 23, offset: 25641},
+																												pos:        position{line: 798, col: 23, offset: 25709},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -34569,12 +34987,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 800, col: 8, offset: 25725},
+																							pos: position{line: 800, col: 8, offset: 25793},
 																							expr: &actionExpr{
-																								pos: position{line: 2901, col: 10, offset: 91483},
+																								pos: position{line: 2902, col: 10, offset: 91633},
 																								run: (*parser).callonListContinuationElement1181,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2901, col: 10, offset: 91483},
+																									pos:        position{line: 2902, col: 10, offset: 91633},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34583,28 +35001,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonListContinuationElement1184,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34613,9 +35031,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -34625,15 +35043,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1059, col: 5, offset: 32610},
+																			pos: position{line: 1059, col: 5, offset: 32678},
 																			run: (*parser).callonListContinuationElement1191,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2920, col: 8, offset: 91831},
+																	pos: position{line: 2921, col: 8, offset: 91981},
 																	expr: &anyMatcher{
-																		line: 2920, col: 9, offset: 91832,
+																		line: 2921, col: 9, offset: 91982,
 																	},
 																},
 															},
@@ -34644,39 +35062,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1074, col: 5, offset: 32918},
+										pos: position{line: 1074, col: 5, offset: 32986},
 										run: (*parser).callonListContinuationElement1194,
 										expr: &seqExpr{
-											pos: position{line: 1074, col: 5, offset: 32918},
+											pos: position{line: 1074, col: 5, offset: 32986},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1074, col: 5, offset: 32918},
+													pos:   position{line: 1074, col: 5, offset: 32986},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 805, col: 5, offset: 25869},
+														pos: position{line: 805, col: 5, offset: 25937},
 														run: (*parser).callonListContinuationElement1197,
 														expr: &seqExpr{
-															pos: position{line: 805, col: 5, offset: 25869},
+															pos: position{line: 805, col: 5, offset: 25937},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 805, col: 5, offset: 25869},
+																	pos:   position{line: 805, col: 5, offset: 25937},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 805, col: 16, offset: 25880},
+																		pos: position{line: 805, col: 16, offset: 25948},
 																		run: (*parser).callonListContinuationElement1200,
 																		expr: &seqExpr{
-																			pos: position{line: 805, col: 16, offset: 25880},
+																			pos: position{line: 805, col: 16, offset: 25948},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 805, col: 16, offset: 25880},
+																					pos:        position{line: 805, col: 16, offset: 25948},
 																					val:        "****",
 																					ignoreCase: false,
 																					want:       "\"****\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 805, col: 23, offset: 25887},
+																					pos: position{line: 805, col: 23, offset: 25955},
 																					expr: &litMatcher{
-																						pos:        position{line: 805, col: 23, offset: 25887},
+																						pos:        position{line: 805, col: 23, offset: 25955},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -34687,12 +35105,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 807, col: 8, offset: 25971},
+																	pos: position{line: 807, col: 8, offset: 26039},
 																	expr: &actionExpr{
-																		pos: position{line: 2901, col: 10, offset: 91483},
+																		pos: position{line: 2902, col: 10, offset: 91633},
 																		run: (*parser).callonListContinuationElement1206,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2901, col: 10, offset: 91483},
+																			pos:        position{line: 2902, col: 10, offset: 91633},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34701,28 +35119,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2923, col: 8, offset: 91881},
+																	pos: position{line: 2924, col: 8, offset: 92031},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2910, col: 12, offset: 91654},
+																			pos: position{line: 2911, col: 12, offset: 91804},
 																			run: (*parser).callonListContinuationElement1209,
 																			expr: &choiceExpr{
-																				pos: position{line: 2910, col: 13, offset: 91655},
+																				pos: position{line: 2911, col: 13, offset: 91805},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91655},
+																						pos:        position{line: 2911, col: 13, offset: 91805},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 20, offset: 91662},
+																						pos:        position{line: 2911, col: 20, offset: 91812},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 29, offset: 91671},
+																						pos:        position{line: 2911, col: 29, offset: 91821},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34731,9 +35149,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2920, col: 8, offset: 91831},
+																			pos: position{line: 2921, col: 8, offset: 91981},
 																			expr: &anyMatcher{
-																				line: 2920, col: 9, offset: 91832,
+																				line: 2921, col: 9, offset: 91982,
 																			},
 																		},
 																	},
@@ -34743,56 +35161,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1075, col: 5, offset: 32957},
+													pos: position{line: 1075, col: 5, offset: 33025},
 													run: (*parser).callonListContinuationElement1216,
 												},
 												&labeledExpr{
-													pos:   position{line: 1078, col: 5, offset: 33049},
+													pos:   position{line: 1078, col: 5, offset: 33117},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1093, col: 4, offset: 33446},
+														pos: position{line: 1093, col: 4, offset: 33514},
 														expr: &actionExpr{
-															pos: position{line: 1093, col: 5, offset: 33447},
+															pos: position{line: 1093, col: 5, offset: 33515},
 															run: (*parser).callonListContinuationElement1219,
 															expr: &seqExpr{
-																pos: position{line: 1093, col: 5, offset: 33447},
+																pos: position{line: 1093, col: 5, offset: 33515},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1093, col: 5, offset: 33447},
+																		pos: position{line: 1093, col: 5, offset: 33515},
 																		expr: &choiceExpr{
-																			pos: position{line: 1086, col: 5, offset: 33289},
+																			pos: position{line: 1086, col: 5, offset: 33357},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1086, col: 5, offset: 33289},
+																					pos: position{line: 1086, col: 5, offset: 33357},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1086, col: 5, offset: 33289},
+																							pos:   position{line: 1086, col: 5, offset: 33357},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 805, col: 5, offset: 25869},
+																								pos: position{line: 805, col: 5, offset: 25937},
 																								run: (*parser).callonListContinuationElement1225,
 																								expr: &seqExpr{
-																									pos: position{line: 805, col: 5, offset: 25869},
+																									pos: position{line: 805, col: 5, offset: 25937},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 805, col: 5, offset: 25869},
+																											pos:   position{line: 805, col: 5, offset: 25937},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 805, col: 16, offset: 25880},
+																												pos: position{line: 805, col: 16, offset: 25948},
 																												run: (*parser).callonListContinuationElement1228,
 																												expr: &seqExpr{
-																													pos: position{line: 805, col: 16, offset: 25880},
+																													pos: position{line: 805, col: 16, offset: 25948},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 805, col: 16, offset: 25880},
+																															pos:        position{line: 805, col: 16, offset: 25948},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 805, col: 23, offset: 25887},
+																															pos: position{line: 805, col: 23, offset: 25955},
 																															expr: &litMatcher{
-																																pos:        position{line: 805, col: 23, offset: 25887},
+																																pos:        position{line: 805, col: 23, offset: 25955},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -34803,12 +35221,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 807, col: 8, offset: 25971},
+																											pos: position{line: 807, col: 8, offset: 26039},
 																											expr: &actionExpr{
-																												pos: position{line: 2901, col: 10, offset: 91483},
+																												pos: position{line: 2902, col: 10, offset: 91633},
 																												run: (*parser).callonListContinuationElement1234,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2901, col: 10, offset: 91483},
+																													pos:        position{line: 2902, col: 10, offset: 91633},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34817,28 +35235,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2923, col: 8, offset: 91881},
+																											pos: position{line: 2924, col: 8, offset: 92031},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2910, col: 12, offset: 91654},
+																													pos: position{line: 2911, col: 12, offset: 91804},
 																													run: (*parser).callonListContinuationElement1237,
 																													expr: &choiceExpr{
-																														pos: position{line: 2910, col: 13, offset: 91655},
+																														pos: position{line: 2911, col: 13, offset: 91805},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 13, offset: 91655},
+																																pos:        position{line: 2911, col: 13, offset: 91805},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 20, offset: 91662},
+																																pos:        position{line: 2911, col: 20, offset: 91812},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 29, offset: 91671},
+																																pos:        position{line: 2911, col: 29, offset: 91821},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34847,9 +35265,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2920, col: 8, offset: 91831},
+																													pos: position{line: 2921, col: 8, offset: 91981},
 																													expr: &anyMatcher{
-																														line: 2920, col: 9, offset: 91832,
+																														line: 2921, col: 9, offset: 91982,
 																													},
 																												},
 																											},
@@ -34859,45 +35277,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1087, col: 5, offset: 33320},
+																							pos: position{line: 1087, col: 5, offset: 33388},
 																							run: (*parser).callonListContinuationElement1244,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1094, col: 5, offset: 33477},
+																		pos:   position{line: 1094, col: 5, offset: 33545},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26117},
+																			pos: position{line: 812, col: 5, offset: 26185},
 																			run: (*parser).callonListContinuationElement1248,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26117},
+																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2918, col: 11, offset: 91817},
+																						pos: position{line: 2919, col: 11, offset: 91967},
 																						expr: &anyMatcher{
-																							line: 2918, col: 13, offset: 91819,
+																							line: 2919, col: 13, offset: 91969,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26192},
+																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2847, col: 13, offset: 90009},
+																							pos: position{line: 2848, col: 13, offset: 90159},
 																							run: (*parser).callonListContinuationElement1253,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2847, col: 13, offset: 90009},
+																								pos: position{line: 2848, col: 13, offset: 90159},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2847, col: 13, offset: 90009},
+																									pos:        position{line: 2848, col: 13, offset: 90159},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34907,28 +35325,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2923, col: 8, offset: 91881},
+																						pos: position{line: 2924, col: 8, offset: 92031},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2910, col: 12, offset: 91654},
+																								pos: position{line: 2911, col: 12, offset: 91804},
 																								run: (*parser).callonListContinuationElement1257,
 																								expr: &choiceExpr{
-																									pos: position{line: 2910, col: 13, offset: 91655},
+																									pos: position{line: 2911, col: 13, offset: 91805},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 13, offset: 91655},
+																											pos:        position{line: 2911, col: 13, offset: 91805},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 20, offset: 91662},
+																											pos:        position{line: 2911, col: 20, offset: 91812},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 29, offset: 91671},
+																											pos:        position{line: 2911, col: 29, offset: 91821},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34937,9 +35355,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 8, offset: 91831},
+																								pos: position{line: 2921, col: 8, offset: 91981},
 																								expr: &anyMatcher{
-																									line: 2920, col: 9, offset: 91832,
+																									line: 2921, col: 9, offset: 91982,
 																								},
 																							},
 																						},
@@ -34954,44 +35372,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1079, col: 5, offset: 33083},
+													pos:   position{line: 1079, col: 5, offset: 33151},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1079, col: 9, offset: 33087},
+														pos: position{line: 1079, col: 9, offset: 33155},
 														expr: &choiceExpr{
-															pos: position{line: 1086, col: 5, offset: 33289},
+															pos: position{line: 1086, col: 5, offset: 33357},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1086, col: 5, offset: 33289},
+																	pos: position{line: 1086, col: 5, offset: 33357},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1086, col: 5, offset: 33289},
+																			pos:   position{line: 1086, col: 5, offset: 33357},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 805, col: 5, offset: 25869},
+																				pos: position{line: 805, col: 5, offset: 25937},
 																				run: (*parser).callonListContinuationElement1269,
 																				expr: &seqExpr{
-																					pos: position{line: 805, col: 5, offset: 25869},
+																					pos: position{line: 805, col: 5, offset: 25937},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 805, col: 5, offset: 25869},
+																							pos:   position{line: 805, col: 5, offset: 25937},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 805, col: 16, offset: 25880},
+																								pos: position{line: 805, col: 16, offset: 25948},
 																								run: (*parser).callonListContinuationElement1272,
 																								expr: &seqExpr{
-																									pos: position{line: 805, col: 16, offset: 25880},
+																									pos: position{line: 805, col: 16, offset: 25948},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 805, col: 16, offset: 25880},
+																											pos:        position{line: 805, col: 16, offset: 25948},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 805, col: 23, offset: 25887},
+																											pos: position{line: 805, col: 23, offset: 25955},
 																											expr: &litMatcher{
-																												pos:        position{line: 805, col: 23, offset: 25887},
+																												pos:        position{line: 805, col: 23, offset: 25955},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -35002,12 +35420,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 807, col: 8, offset: 25971},
+																							pos: position{line: 807, col: 8, offset: 26039},
 																							expr: &actionExpr{
-																								pos: position{line: 2901, col: 10, offset: 91483},
+																								pos: position{line: 2902, col: 10, offset: 91633},
 																								run: (*parser).callonListContinuationElement1278,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2901, col: 10, offset: 91483},
+																									pos:        position{line: 2902, col: 10, offset: 91633},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35016,28 +35434,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2923, col: 8, offset: 91881},
+																							pos: position{line: 2924, col: 8, offset: 92031},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91654},
+																									pos: position{line: 2911, col: 12, offset: 91804},
 																									run: (*parser).callonListContinuationElement1281,
 																									expr: &choiceExpr{
-																										pos: position{line: 2910, col: 13, offset: 91655},
+																										pos: position{line: 2911, col: 13, offset: 91805},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 13, offset: 91655},
+																												pos:        position{line: 2911, col: 13, offset: 91805},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 20, offset: 91662},
+																												pos:        position{line: 2911, col: 20, offset: 91812},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2910, col: 29, offset: 91671},
+																												pos:        position{line: 2911, col: 29, offset: 91821},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35046,9 +35464,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2920, col: 8, offset: 91831},
+																									pos: position{line: 2921, col: 8, offset: 91981},
 																									expr: &anyMatcher{
-																										line: 2920, col: 9, offset: 91832,
+																										line: 2921, col: 9, offset: 91982,
 																									},
 																								},
 																							},
@@ -35058,15 +35476,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1087, col: 5, offset: 33320},
+																			pos: position{line: 1087, col: 5, offset: 33388},
 																			run: (*parser).callonListContinuationElement1288,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2920, col: 8, offset: 91831},
+																	pos: position{line: 2921, col: 8, offset: 91981},
 																	expr: &anyMatcher{
-																		line: 2920, col: 9, offset: 91832,
+																		line: 2921, col: 9, offset: 91982,
 																	},
 																},
 															},
@@ -35077,52 +35495,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2746, col: 18, offset: 87073},
+										pos: position{line: 2747, col: 18, offset: 87223},
 										run: (*parser).callonListContinuationElement1291,
 										expr: &seqExpr{
-											pos: position{line: 2746, col: 18, offset: 87073},
+											pos: position{line: 2747, col: 18, offset: 87223},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2747, col: 9, offset: 87083},
+													pos: position{line: 2748, col: 9, offset: 87233},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2747, col: 9, offset: 87083},
+															pos:        position{line: 2748, col: 9, offset: 87233},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2748, col: 11, offset: 87119},
+															pos:        position{line: 2749, col: 11, offset: 87269},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2748, col: 19, offset: 87127},
+															pos:        position{line: 2749, col: 19, offset: 87277},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2748, col: 29, offset: 87137},
+															pos:        position{line: 2749, col: 29, offset: 87287},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2748, col: 37, offset: 87145},
+															pos:        position{line: 2749, col: 37, offset: 87295},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2748, col: 47, offset: 87155},
+															pos:        position{line: 2749, col: 47, offset: 87305},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2748, col: 55, offset: 87163},
+															pos:        position{line: 2749, col: 55, offset: 87313},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35130,12 +35548,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2749, col: 11, offset: 87221},
+													pos: position{line: 2750, col: 11, offset: 87371},
 													expr: &actionExpr{
-														pos: position{line: 2901, col: 10, offset: 91483},
+														pos: position{line: 2902, col: 10, offset: 91633},
 														run: (*parser).callonListContinuationElement1302,
 														expr: &charClassMatcher{
-															pos:        position{line: 2901, col: 10, offset: 91483},
+															pos:        position{line: 2902, col: 10, offset: 91633},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35144,28 +35562,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2923, col: 8, offset: 91881},
+													pos: position{line: 2924, col: 8, offset: 92031},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2910, col: 12, offset: 91654},
+															pos: position{line: 2911, col: 12, offset: 91804},
 															run: (*parser).callonListContinuationElement1305,
 															expr: &choiceExpr{
-																pos: position{line: 2910, col: 13, offset: 91655},
+																pos: position{line: 2911, col: 13, offset: 91805},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 13, offset: 91655},
+																		pos:        position{line: 2911, col: 13, offset: 91805},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 20, offset: 91662},
+																		pos:        position{line: 2911, col: 20, offset: 91812},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 29, offset: 91671},
+																		pos:        position{line: 2911, col: 29, offset: 91821},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35174,36 +35592,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2920, col: 8, offset: 91831},
+															pos: position{line: 2921, col: 8, offset: 91981},
 															expr: &anyMatcher{
-																line: 2920, col: 9, offset: 91832,
+																line: 2921, col: 9, offset: 91982,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2923, col: 8, offset: 91881},
+													pos: position{line: 2924, col: 8, offset: 92031},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2910, col: 12, offset: 91654},
+															pos: position{line: 2911, col: 12, offset: 91804},
 															run: (*parser).callonListContinuationElement1313,
 															expr: &choiceExpr{
-																pos: position{line: 2910, col: 13, offset: 91655},
+																pos: position{line: 2911, col: 13, offset: 91805},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 13, offset: 91655},
+																		pos:        position{line: 2911, col: 13, offset: 91805},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 20, offset: 91662},
+																		pos:        position{line: 2911, col: 20, offset: 91812},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 29, offset: 91671},
+																		pos:        position{line: 2911, col: 29, offset: 91821},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35212,9 +35630,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2920, col: 8, offset: 91831},
+															pos: position{line: 2921, col: 8, offset: 91981},
 															expr: &anyMatcher{
-																line: 2920, col: 9, offset: 91832,
+																line: 2921, col: 9, offset: 91982,
 															},
 														},
 													},
@@ -35223,28 +35641,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1554, col: 11, offset: 50131},
+										pos:  position{line: 1555, col: 11, offset: 50233},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2637, col: 5, offset: 84009},
+										pos: position{line: 2638, col: 5, offset: 84139},
 										run: (*parser).callonListContinuationElement1321,
 										expr: &seqExpr{
-											pos: position{line: 2637, col: 5, offset: 84009},
+											pos: position{line: 2638, col: 5, offset: 84139},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2643, col: 19, offset: 84166},
+													pos:        position{line: 2644, col: 19, offset: 84316},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2643, col: 26, offset: 84173},
+													pos: position{line: 2644, col: 26, offset: 84323},
 													expr: &actionExpr{
-														pos: position{line: 2901, col: 10, offset: 91483},
+														pos: position{line: 2902, col: 10, offset: 91633},
 														run: (*parser).callonListContinuationElement1325,
 														expr: &charClassMatcher{
-															pos:        position{line: 2901, col: 10, offset: 91483},
+															pos:        position{line: 2902, col: 10, offset: 91633},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35253,28 +35671,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2923, col: 8, offset: 91881},
+													pos: position{line: 2924, col: 8, offset: 92031},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2910, col: 12, offset: 91654},
+															pos: position{line: 2911, col: 12, offset: 91804},
 															run: (*parser).callonListContinuationElement1328,
 															expr: &choiceExpr{
-																pos: position{line: 2910, col: 13, offset: 91655},
+																pos: position{line: 2911, col: 13, offset: 91805},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 13, offset: 91655},
+																		pos:        position{line: 2911, col: 13, offset: 91805},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 20, offset: 91662},
+																		pos:        position{line: 2911, col: 20, offset: 91812},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 29, offset: 91671},
+																		pos:        position{line: 2911, col: 29, offset: 91821},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35283,40 +35701,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2920, col: 8, offset: 91831},
+															pos: position{line: 2921, col: 8, offset: 91981},
 															expr: &anyMatcher{
-																line: 2920, col: 9, offset: 91832,
+																line: 2921, col: 9, offset: 91982,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2638, col: 5, offset: 84033},
+													pos:   position{line: 2639, col: 5, offset: 84163},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2638, col: 11, offset: 84039},
+														pos: position{line: 2639, col: 11, offset: 84169},
 														expr: &choiceExpr{
-															pos: position{line: 2638, col: 12, offset: 84040},
+															pos: position{line: 2639, col: 12, offset: 84170},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 678, col: 14, offset: 21518},
+																	pos: position{line: 678, col: 14, offset: 21586},
 																	run: (*parser).callonListContinuationElement1338,
 																	expr: &seqExpr{
-																		pos: position{line: 678, col: 14, offset: 21518},
+																		pos: position{line: 678, col: 14, offset: 21586},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2918, col: 11, offset: 91817},
+																				pos: position{line: 2919, col: 11, offset: 91967},
 																				expr: &anyMatcher{
-																					line: 2918, col: 13, offset: 91819,
+																					line: 2919, col: 13, offset: 91969,
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 678, col: 21, offset: 21525},
+																				pos: position{line: 678, col: 21, offset: 21593},
 																				expr: &actionExpr{
-																					pos: position{line: 2901, col: 10, offset: 91483},
+																					pos: position{line: 2902, col: 10, offset: 91633},
 																					run: (*parser).callonListContinuationElement1343,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2901, col: 10, offset: 91483},
+																						pos:        position{line: 2902, col: 10, offset: 91633},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35325,28 +35743,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2923, col: 8, offset: 91881},
+																				pos: position{line: 2924, col: 8, offset: 92031},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2910, col: 12, offset: 91654},
+																						pos: position{line: 2911, col: 12, offset: 91804},
 																						run: (*parser).callonListContinuationElement1346,
 																						expr: &choiceExpr{
-																							pos: position{line: 2910, col: 13, offset: 91655},
+																							pos: position{line: 2911, col: 13, offset: 91805},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2910, col: 13, offset: 91655},
+																									pos:        position{line: 2911, col: 13, offset: 91805},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2910, col: 20, offset: 91662},
+																									pos:        position{line: 2911, col: 20, offset: 91812},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2910, col: 29, offset: 91671},
+																									pos:        position{line: 2911, col: 29, offset: 91821},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35355,9 +35773,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2920, col: 8, offset: 91831},
+																						pos: position{line: 2921, col: 8, offset: 91981},
 																						expr: &anyMatcher{
-																							line: 2920, col: 9, offset: 91832,
+																							line: 2921, col: 9, offset: 91982,
 																						},
 																					},
 																				},
@@ -35366,32 +35784,112 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2650, col: 5, offset: 84285},
+																	pos: position{line: 2512, col: 22, offset: 80570},
 																	run: (*parser).callonListContinuationElement1353,
 																	expr: &seqExpr{
-																		pos: position{line: 2650, col: 5, offset: 84285},
+																		pos: position{line: 2512, col: 22, offset: 80570},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 2517, col: 31, offset: 80820},
+																				val:        "//",
+																				ignoreCase: false,
+																				want:       "\"//\"",
+																			},
+																			&notExpr{
+																				pos: position{line: 2517, col: 36, offset: 80825},
+																				expr: &litMatcher{
+																					pos:        position{line: 2517, col: 37, offset: 80826},
+																					val:        "/",
+																					ignoreCase: false,
+																					want:       "\"/\"",
+																				},
+																			},
+																			&labeledExpr{
+																				pos:   position{line: 2512, col: 49, offset: 80597},
+																				label: "content",
+																				expr: &actionExpr{
+																					pos: position{line: 2848, col: 13, offset: 90159},
+																					run: (*parser).callonListContinuationElement1359,
+																					expr: &zeroOrMoreExpr{
+																						pos: position{line: 2848, col: 13, offset: 90159},
+																						expr: &charClassMatcher{
+																							pos:        position{line: 2848, col: 13, offset: 90159},
+																							val:        "[^\\r\\n]",
+																							chars:      []rune{'\r', '\n'},
+																							ignoreCase: false,
+																							inverted:   true,
+																						},
+																					},
+																				},
+																			},
+																			&choiceExpr{
+																				pos: position{line: 2924, col: 8, offset: 92031},
+																				alternatives: []interface{}{
+																					&actionExpr{
+																						pos: position{line: 2911, col: 12, offset: 91804},
+																						run: (*parser).callonListContinuationElement1363,
+																						expr: &choiceExpr{
+																							pos: position{line: 2911, col: 13, offset: 91805},
+																							alternatives: []interface{}{
+																								&litMatcher{
+																									pos:        position{line: 2911, col: 13, offset: 91805},
+																									val:        "\n",
+																									ignoreCase: false,
+																									want:       "\"\\n\"",
+																								},
+																								&litMatcher{
+																									pos:        position{line: 2911, col: 20, offset: 91812},
+																									val:        "\r\n",
+																									ignoreCase: false,
+																									want:       "\"\\r\\n\"",
+																								},
+																								&litMatcher{
+																									pos:        position{line: 2911, col: 29, offset: 91821},
+																									val:        "\r",
+																									ignoreCase: false,
+																									want:       "\"\\r\"",
+																								},
+																							},
+																						},
+																					},
+																					&notExpr{
+																						pos: position{line: 2921, col: 8, offset: 91981},
+																						expr: &anyMatcher{
+																							line: 2921, col: 9, offset: 91982,
+																						},
+																					},
+																				},
+																			},
+																		},
+																	},
+																},
+																&actionExpr{
+																	pos: position{line: 2651, col: 5, offset: 84435},
+																	run: (*parser).callonListContinuationElement1370,
+																	expr: &seqExpr{
+																		pos: position{line: 2651, col: 5, offset: 84435},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2650, col: 5, offset: 84285},
+																				pos: position{line: 2651, col: 5, offset: 84435},
 																				expr: &choiceExpr{
-																					pos: position{line: 2647, col: 22, offset: 84246},
+																					pos: position{line: 2648, col: 22, offset: 84396},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2643, col: 19, offset: 84166},
+																							pos: position{line: 2644, col: 19, offset: 84316},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2643, col: 19, offset: 84166},
+																									pos:        position{line: 2644, col: 19, offset: 84316},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2643, col: 26, offset: 84173},
+																									pos: position{line: 2644, col: 26, offset: 84323},
 																									expr: &actionExpr{
-																										pos: position{line: 2901, col: 10, offset: 91483},
-																										run: (*parser).callonListContinuationElement1360,
+																										pos: position{line: 2902, col: 10, offset: 91633},
+																										run: (*parser).callonListContinuationElement1377,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2901, col: 10, offset: 91483},
+																											pos:        position{line: 2902, col: 10, offset: 91633},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35400,28 +35898,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2923, col: 8, offset: 91881},
+																									pos: position{line: 2924, col: 8, offset: 92031},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2910, col: 12, offset: 91654},
-																											run: (*parser).callonListContinuationElement1363,
+																											pos: position{line: 2911, col: 12, offset: 91804},
+																											run: (*parser).callonListContinuationElement1380,
 																											expr: &choiceExpr{
-																												pos: position{line: 2910, col: 13, offset: 91655},
+																												pos: position{line: 2911, col: 13, offset: 91805},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 13, offset: 91655},
+																														pos:        position{line: 2911, col: 13, offset: 91805},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 20, offset: 91662},
+																														pos:        position{line: 2911, col: 20, offset: 91812},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 29, offset: 91671},
+																														pos:        position{line: 2911, col: 29, offset: 91821},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35430,9 +35928,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2920, col: 8, offset: 91831},
+																											pos: position{line: 2921, col: 8, offset: 91981},
 																											expr: &anyMatcher{
-																												line: 2920, col: 9, offset: 91832,
+																												line: 2921, col: 9, offset: 91982,
 																											},
 																										},
 																									},
@@ -35440,59 +35938,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2920, col: 8, offset: 91831},
+																							pos: position{line: 2921, col: 8, offset: 91981},
 																							expr: &anyMatcher{
-																								line: 2920, col: 9, offset: 91832,
+																								line: 2921, col: 9, offset: 91982,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2651, col: 5, offset: 84308},
+																				pos:   position{line: 2652, col: 5, offset: 84458},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2652, col: 9, offset: 84326},
+																					pos: position{line: 2653, col: 9, offset: 84476},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2652, col: 10, offset: 84327},
-																							run: (*parser).callonListContinuationElement1374,
+																							pos: position{line: 2653, col: 10, offset: 84477},
+																							run: (*parser).callonListContinuationElement1391,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2652, col: 10, offset: 84327},
+																								pos:   position{line: 2653, col: 10, offset: 84477},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2652, col: 17, offset: 84334},
+																									pos: position{line: 2653, col: 17, offset: 84484},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2660, col: 21, offset: 84530},
-																											run: (*parser).callonListContinuationElement1377,
+																											pos: position{line: 2661, col: 21, offset: 84680},
+																											run: (*parser).callonListContinuationElement1394,
 																											expr: &seqExpr{
-																												pos: position{line: 2660, col: 21, offset: 84530},
+																												pos: position{line: 2661, col: 21, offset: 84680},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2660, col: 21, offset: 84530},
+																														pos:   position{line: 2661, col: 21, offset: 84680},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2660, col: 27, offset: 84536},
+																															pos: position{line: 2661, col: 27, offset: 84686},
 																															expr: &actionExpr{
-																																pos: position{line: 2665, col: 5, offset: 84611},
-																																run: (*parser).callonListContinuationElement1381,
+																																pos: position{line: 2666, col: 5, offset: 84761},
+																																run: (*parser).callonListContinuationElement1398,
 																																expr: &seqExpr{
-																																	pos: position{line: 2665, col: 5, offset: 84611},
+																																	pos: position{line: 2666, col: 5, offset: 84761},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2665, col: 5, offset: 84611},
+																																			pos:        position{line: 2666, col: 5, offset: 84761},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2665, col: 9, offset: 84615},
+																																			pos: position{line: 2666, col: 9, offset: 84765},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2901, col: 10, offset: 91483},
-																																				run: (*parser).callonListContinuationElement1385,
+																																				pos: position{line: 2902, col: 10, offset: 91633},
+																																				run: (*parser).callonListContinuationElement1402,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2901, col: 10, offset: 91483},
+																																					pos:        position{line: 2902, col: 10, offset: 91633},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -35501,21 +35999,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2665, col: 16, offset: 84622},
+																																			pos:   position{line: 2666, col: 16, offset: 84772},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2671, col: 5, offset: 84822},
-																																				run: (*parser).callonListContinuationElement1388,
+																																				pos: position{line: 2672, col: 5, offset: 84972},
+																																				run: (*parser).callonListContinuationElement1405,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2671, col: 5, offset: 84822},
+																																					pos:   position{line: 2672, col: 5, offset: 84972},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2671, col: 14, offset: 84831},
-																																						run: (*parser).callonListContinuationElement1390,
+																																						pos: position{line: 2672, col: 14, offset: 84981},
+																																						run: (*parser).callonListContinuationElement1407,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2671, col: 14, offset: 84831},
+																																							pos: position{line: 2672, col: 14, offset: 84981},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2671, col: 14, offset: 84831},
+																																								pos:        position{line: 2672, col: 14, offset: 84981},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -35532,28 +36030,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2923, col: 8, offset: 91881},
+																														pos: position{line: 2924, col: 8, offset: 92031},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2910, col: 12, offset: 91654},
-																																run: (*parser).callonListContinuationElement1394,
+																																pos: position{line: 2911, col: 12, offset: 91804},
+																																run: (*parser).callonListContinuationElement1411,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2910, col: 13, offset: 91655},
+																																	pos: position{line: 2911, col: 13, offset: 91805},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2910, col: 13, offset: 91655},
+																																			pos:        position{line: 2911, col: 13, offset: 91805},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2910, col: 20, offset: 91662},
+																																			pos:        position{line: 2911, col: 20, offset: 91812},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2910, col: 29, offset: 91671},
+																																			pos:        position{line: 2911, col: 29, offset: 91821},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -35562,9 +36060,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2920, col: 8, offset: 91831},
+																																pos: position{line: 2921, col: 8, offset: 91981},
 																																expr: &anyMatcher{
-																																	line: 2920, col: 9, offset: 91832,
+																																	line: 2921, col: 9, offset: 91982,
 																																},
 																															},
 																														},
@@ -35573,40 +36071,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2677, col: 24, offset: 84967},
-																											run: (*parser).callonListContinuationElement1401,
+																											pos: position{line: 2678, col: 24, offset: 85117},
+																											run: (*parser).callonListContinuationElement1418,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2677, col: 24, offset: 84967},
+																												pos:   position{line: 2678, col: 24, offset: 85117},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2677, col: 30, offset: 84973},
+																													pos: position{line: 2678, col: 30, offset: 85123},
 																													expr: &actionExpr{
-																														pos: position{line: 2682, col: 5, offset: 85049},
-																														run: (*parser).callonListContinuationElement1404,
+																														pos: position{line: 2683, col: 5, offset: 85199},
+																														run: (*parser).callonListContinuationElement1421,
 																														expr: &seqExpr{
-																															pos: position{line: 2682, col: 5, offset: 85049},
+																															pos: position{line: 2683, col: 5, offset: 85199},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2682, col: 5, offset: 85049},
+																																	pos: position{line: 2683, col: 5, offset: 85199},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2647, col: 22, offset: 84246},
+																																		pos: position{line: 2648, col: 22, offset: 84396},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2643, col: 19, offset: 84166},
+																																				pos: position{line: 2644, col: 19, offset: 84316},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2643, col: 19, offset: 84166},
+																																						pos:        position{line: 2644, col: 19, offset: 84316},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2643, col: 26, offset: 84173},
+																																						pos: position{line: 2644, col: 26, offset: 84323},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2901, col: 10, offset: 91483},
-																																							run: (*parser).callonListContinuationElement1411,
+																																							pos: position{line: 2902, col: 10, offset: 91633},
+																																							run: (*parser).callonListContinuationElement1428,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2901, col: 10, offset: 91483},
+																																								pos:        position{line: 2902, col: 10, offset: 91633},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -35615,28 +36113,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2923, col: 8, offset: 91881},
+																																						pos: position{line: 2924, col: 8, offset: 92031},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2910, col: 12, offset: 91654},
-																																								run: (*parser).callonListContinuationElement1414,
+																																								pos: position{line: 2911, col: 12, offset: 91804},
+																																								run: (*parser).callonListContinuationElement1431,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2910, col: 13, offset: 91655},
+																																									pos: position{line: 2911, col: 13, offset: 91805},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2910, col: 13, offset: 91655},
+																																											pos:        position{line: 2911, col: 13, offset: 91805},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2910, col: 20, offset: 91662},
+																																											pos:        position{line: 2911, col: 20, offset: 91812},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2910, col: 29, offset: 91671},
+																																											pos:        position{line: 2911, col: 29, offset: 91821},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -35645,9 +36143,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2920, col: 8, offset: 91831},
+																																								pos: position{line: 2921, col: 8, offset: 91981},
 																																								expr: &anyMatcher{
-																																									line: 2920, col: 9, offset: 91832,
+																																									line: 2921, col: 9, offset: 91982,
 																																								},
 																																							},
 																																						},
@@ -35655,35 +36153,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2920, col: 8, offset: 91831},
+																																				pos: position{line: 2921, col: 8, offset: 91981},
 																																				expr: &anyMatcher{
-																																					line: 2920, col: 9, offset: 91832,
+																																					line: 2921, col: 9, offset: 91982,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2683, col: 5, offset: 85072},
+																																	pos: position{line: 2684, col: 5, offset: 85222},
 																																	expr: &actionExpr{
-																																		pos: position{line: 678, col: 14, offset: 21518},
-																																		run: (*parser).callonListContinuationElement1424,
+																																		pos: position{line: 678, col: 14, offset: 21586},
+																																		run: (*parser).callonListContinuationElement1441,
 																																		expr: &seqExpr{
-																																			pos: position{line: 678, col: 14, offset: 21518},
+																																			pos: position{line: 678, col: 14, offset: 21586},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2918, col: 11, offset: 91817},
+																																					pos: position{line: 2919, col: 11, offset: 91967},
 																																					expr: &anyMatcher{
-																																						line: 2918, col: 13, offset: 91819,
+																																						line: 2919, col: 13, offset: 91969,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 678, col: 21, offset: 21525},
+																																					pos: position{line: 678, col: 21, offset: 21593},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2901, col: 10, offset: 91483},
-																																						run: (*parser).callonListContinuationElement1429,
+																																						pos: position{line: 2902, col: 10, offset: 91633},
+																																						run: (*parser).callonListContinuationElement1446,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2901, col: 10, offset: 91483},
+																																							pos:        position{line: 2902, col: 10, offset: 91633},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -35692,28 +36190,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2923, col: 8, offset: 91881},
+																																					pos: position{line: 2924, col: 8, offset: 92031},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2910, col: 12, offset: 91654},
-																																							run: (*parser).callonListContinuationElement1432,
+																																							pos: position{line: 2911, col: 12, offset: 91804},
+																																							run: (*parser).callonListContinuationElement1449,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2910, col: 13, offset: 91655},
+																																								pos: position{line: 2911, col: 13, offset: 91805},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2910, col: 13, offset: 91655},
+																																										pos:        position{line: 2911, col: 13, offset: 91805},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2910, col: 20, offset: 91662},
+																																										pos:        position{line: 2911, col: 20, offset: 91812},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2910, col: 29, offset: 91671},
+																																										pos:        position{line: 2911, col: 29, offset: 91821},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -35722,9 +36220,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2920, col: 8, offset: 91831},
+																																							pos: position{line: 2921, col: 8, offset: 91981},
 																																							expr: &anyMatcher{
-																																								line: 2920, col: 9, offset: 91832,
+																																								line: 2921, col: 9, offset: 91982,
 																																							},
 																																						},
 																																					},
@@ -35734,17 +36232,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2684, col: 5, offset: 85087},
+																																	pos:   position{line: 2685, col: 5, offset: 85237},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2684, col: 12, offset: 85094},
+																																		pos: position{line: 2685, col: 12, offset: 85244},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2701, col: 20, offset: 85558},
-																																			run: (*parser).callonListContinuationElement1441,
+																																			pos: position{line: 2702, col: 20, offset: 85708},
+																																			run: (*parser).callonListContinuationElement1458,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2701, col: 20, offset: 85558},
+																																				pos: position{line: 2702, col: 20, offset: 85708},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2701, col: 20, offset: 85558},
+																																					pos:        position{line: 2702, col: 20, offset: 85708},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -35755,18 +36253,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2684, col: 31, offset: 85113},
+																																	pos:        position{line: 2685, col: 31, offset: 85263},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2684, col: 35, offset: 85117},
+																																	pos: position{line: 2685, col: 35, offset: 85267},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2901, col: 10, offset: 91483},
-																																		run: (*parser).callonListContinuationElement1446,
+																																		pos: position{line: 2902, col: 10, offset: 91633},
+																																		run: (*parser).callonListContinuationElement1463,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2901, col: 10, offset: 91483},
+																																			pos:        position{line: 2902, col: 10, offset: 91633},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -35775,27 +36273,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2684, col: 42, offset: 85124},
+																																	pos: position{line: 2685, col: 42, offset: 85274},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2910, col: 12, offset: 91654},
-																																		run: (*parser).callonListContinuationElement1449,
+																																		pos: position{line: 2911, col: 12, offset: 91804},
+																																		run: (*parser).callonListContinuationElement1466,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2910, col: 13, offset: 91655},
+																																			pos: position{line: 2911, col: 13, offset: 91805},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2910, col: 13, offset: 91655},
+																																					pos:        position{line: 2911, col: 13, offset: 91805},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2910, col: 20, offset: 91662},
+																																					pos:        position{line: 2911, col: 20, offset: 91812},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2910, col: 29, offset: 91671},
+																																					pos:        position{line: 2911, col: 29, offset: 91821},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -35805,37 +36303,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2684, col: 51, offset: 85133},
+																																	pos:   position{line: 2685, col: 51, offset: 85283},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2690, col: 5, offset: 85292},
+																																		pos: position{line: 2691, col: 5, offset: 85442},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2691, col: 9, offset: 85302},
-																																			run: (*parser).callonListContinuationElement1456,
+																																			pos: position{line: 2692, col: 9, offset: 85452},
+																																			run: (*parser).callonListContinuationElement1473,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2691, col: 9, offset: 85302},
+																																				pos: position{line: 2692, col: 9, offset: 85452},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2691, col: 9, offset: 85302},
+																																						pos: position{line: 2692, col: 9, offset: 85452},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2647, col: 22, offset: 84246},
+																																							pos: position{line: 2648, col: 22, offset: 84396},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2643, col: 19, offset: 84166},
+																																									pos: position{line: 2644, col: 19, offset: 84316},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2643, col: 19, offset: 84166},
+																																											pos:        position{line: 2644, col: 19, offset: 84316},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2643, col: 26, offset: 84173},
+																																											pos: position{line: 2644, col: 26, offset: 84323},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2901, col: 10, offset: 91483},
-																																												run: (*parser).callonListContinuationElement1463,
+																																												pos: position{line: 2902, col: 10, offset: 91633},
+																																												run: (*parser).callonListContinuationElement1480,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2901, col: 10, offset: 91483},
+																																													pos:        position{line: 2902, col: 10, offset: 91633},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -35844,28 +36342,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2923, col: 8, offset: 91881},
+																																											pos: position{line: 2924, col: 8, offset: 92031},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2910, col: 12, offset: 91654},
-																																													run: (*parser).callonListContinuationElement1466,
+																																													pos: position{line: 2911, col: 12, offset: 91804},
+																																													run: (*parser).callonListContinuationElement1483,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2910, col: 13, offset: 91655},
+																																														pos: position{line: 2911, col: 13, offset: 91805},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2910, col: 13, offset: 91655},
+																																																pos:        position{line: 2911, col: 13, offset: 91805},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2910, col: 20, offset: 91662},
+																																																pos:        position{line: 2911, col: 20, offset: 91812},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2910, col: 29, offset: 91671},
+																																																pos:        position{line: 2911, col: 29, offset: 91821},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -35874,9 +36372,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2920, col: 8, offset: 91831},
+																																													pos: position{line: 2921, col: 8, offset: 91981},
 																																													expr: &anyMatcher{
-																																														line: 2920, col: 9, offset: 91832,
+																																														line: 2921, col: 9, offset: 91982,
 																																													},
 																																												},
 																																											},
@@ -35884,35 +36382,35 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2920, col: 8, offset: 91831},
+																																									pos: position{line: 2921, col: 8, offset: 91981},
 																																									expr: &anyMatcher{
-																																										line: 2920, col: 9, offset: 91832,
+																																										line: 2921, col: 9, offset: 91982,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2692, col: 9, offset: 85329},
+																																						pos: position{line: 2693, col: 9, offset: 85479},
 																																						expr: &actionExpr{
-																																							pos: position{line: 678, col: 14, offset: 21518},
-																																							run: (*parser).callonListContinuationElement1476,
+																																							pos: position{line: 678, col: 14, offset: 21586},
+																																							run: (*parser).callonListContinuationElement1493,
 																																							expr: &seqExpr{
-																																								pos: position{line: 678, col: 14, offset: 21518},
+																																								pos: position{line: 678, col: 14, offset: 21586},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2918, col: 11, offset: 91817},
+																																										pos: position{line: 2919, col: 11, offset: 91967},
 																																										expr: &anyMatcher{
-																																											line: 2918, col: 13, offset: 91819,
+																																											line: 2919, col: 13, offset: 91969,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
-																																										pos: position{line: 678, col: 21, offset: 21525},
+																																										pos: position{line: 678, col: 21, offset: 21593},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2901, col: 10, offset: 91483},
-																																											run: (*parser).callonListContinuationElement1481,
+																																											pos: position{line: 2902, col: 10, offset: 91633},
+																																											run: (*parser).callonListContinuationElement1498,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2901, col: 10, offset: 91483},
+																																												pos:        position{line: 2902, col: 10, offset: 91633},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -35921,28 +36419,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2923, col: 8, offset: 91881},
+																																										pos: position{line: 2924, col: 8, offset: 92031},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2910, col: 12, offset: 91654},
-																																												run: (*parser).callonListContinuationElement1484,
+																																												pos: position{line: 2911, col: 12, offset: 91804},
+																																												run: (*parser).callonListContinuationElement1501,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2910, col: 13, offset: 91655},
+																																													pos: position{line: 2911, col: 13, offset: 91805},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2910, col: 13, offset: 91655},
+																																															pos:        position{line: 2911, col: 13, offset: 91805},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2910, col: 20, offset: 91662},
+																																															pos:        position{line: 2911, col: 20, offset: 91812},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2910, col: 29, offset: 91671},
+																																															pos:        position{line: 2911, col: 29, offset: 91821},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -35951,9 +36449,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2920, col: 8, offset: 91831},
+																																												pos: position{line: 2921, col: 8, offset: 91981},
 																																												expr: &anyMatcher{
-																																													line: 2920, col: 9, offset: 91832,
+																																													line: 2921, col: 9, offset: 91982,
 																																												},
 																																											},
 																																										},
@@ -35963,22 +36461,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2693, col: 9, offset: 85348},
+																																						pos: position{line: 2694, col: 9, offset: 85498},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2693, col: 11, offset: 85350},
+																																							pos: position{line: 2694, col: 11, offset: 85500},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2693, col: 11, offset: 85350},
+																																									pos:   position{line: 2694, col: 11, offset: 85500},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2693, col: 18, offset: 85357},
+																																										pos: position{line: 2694, col: 18, offset: 85507},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2701, col: 20, offset: 85558},
-																																											run: (*parser).callonListContinuationElement1495,
+																																											pos: position{line: 2702, col: 20, offset: 85708},
+																																											run: (*parser).callonListContinuationElement1512,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2701, col: 20, offset: 85558},
+																																												pos: position{line: 2702, col: 20, offset: 85708},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2701, col: 20, offset: 85558},
+																																													pos:        position{line: 2702, col: 20, offset: 85708},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -35989,7 +36487,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2693, col: 37, offset: 85376},
+																																									pos:        position{line: 2694, col: 37, offset: 85526},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -35998,15 +36496,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2694, col: 9, offset: 85389},
+																																						pos:   position{line: 2695, col: 9, offset: 85539},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2694, col: 18, offset: 85398},
-																																							run: (*parser).callonListContinuationElement1500,
+																																							pos: position{line: 2695, col: 18, offset: 85548},
+																																							run: (*parser).callonListContinuationElement1517,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2694, col: 18, offset: 85398},
+																																								pos: position{line: 2695, col: 18, offset: 85548},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2694, col: 18, offset: 85398},
+																																									pos:        position{line: 2695, col: 18, offset: 85548},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36016,30 +36514,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2696, col: 12, offset: 85460},
+																																						pos: position{line: 2697, col: 12, offset: 85610},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2923, col: 8, offset: 91881},
+																																							pos: position{line: 2924, col: 8, offset: 92031},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2910, col: 12, offset: 91654},
-																																									run: (*parser).callonListContinuationElement1505,
+																																									pos: position{line: 2911, col: 12, offset: 91804},
+																																									run: (*parser).callonListContinuationElement1522,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2910, col: 13, offset: 91655},
+																																										pos: position{line: 2911, col: 13, offset: 91805},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2910, col: 13, offset: 91655},
+																																												pos:        position{line: 2911, col: 13, offset: 91805},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2910, col: 20, offset: 91662},
+																																												pos:        position{line: 2911, col: 20, offset: 91812},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2910, col: 29, offset: 91671},
+																																												pos:        position{line: 2911, col: 29, offset: 91821},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36048,9 +36546,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2920, col: 8, offset: 91831},
+																																									pos: position{line: 2921, col: 8, offset: 91981},
 																																									expr: &anyMatcher{
-																																										line: 2920, col: 9, offset: 91832,
+																																										line: 2921, col: 9, offset: 91982,
 																																									},
 																																								},
 																																							},
@@ -36072,24 +36570,24 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 678, col: 14, offset: 21518},
-																							run: (*parser).callonListContinuationElement1512,
+																							pos: position{line: 678, col: 14, offset: 21586},
+																							run: (*parser).callonListContinuationElement1529,
 																							expr: &seqExpr{
-																								pos: position{line: 678, col: 14, offset: 21518},
+																								pos: position{line: 678, col: 14, offset: 21586},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2918, col: 11, offset: 91817},
+																										pos: position{line: 2919, col: 11, offset: 91967},
 																										expr: &anyMatcher{
-																											line: 2918, col: 13, offset: 91819,
+																											line: 2919, col: 13, offset: 91969,
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 678, col: 21, offset: 21525},
+																										pos: position{line: 678, col: 21, offset: 21593},
 																										expr: &actionExpr{
-																											pos: position{line: 2901, col: 10, offset: 91483},
-																											run: (*parser).callonListContinuationElement1517,
+																											pos: position{line: 2902, col: 10, offset: 91633},
+																											run: (*parser).callonListContinuationElement1534,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2901, col: 10, offset: 91483},
+																												pos:        position{line: 2902, col: 10, offset: 91633},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36098,28 +36596,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2923, col: 8, offset: 91881},
+																										pos: position{line: 2924, col: 8, offset: 92031},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2910, col: 12, offset: 91654},
-																												run: (*parser).callonListContinuationElement1520,
+																												pos: position{line: 2911, col: 12, offset: 91804},
+																												run: (*parser).callonListContinuationElement1537,
 																												expr: &choiceExpr{
-																													pos: position{line: 2910, col: 13, offset: 91655},
+																													pos: position{line: 2911, col: 13, offset: 91805},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2910, col: 13, offset: 91655},
+																															pos:        position{line: 2911, col: 13, offset: 91805},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2910, col: 20, offset: 91662},
+																															pos:        position{line: 2911, col: 20, offset: 91812},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2910, col: 29, offset: 91671},
+																															pos:        position{line: 2911, col: 29, offset: 91821},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36128,9 +36626,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2920, col: 8, offset: 91831},
+																												pos: position{line: 2921, col: 8, offset: 91981},
 																												expr: &anyMatcher{
-																													line: 2920, col: 9, offset: 91832,
+																													line: 2921, col: 9, offset: 91982,
 																												},
 																											},
 																										},
@@ -36149,24 +36647,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2647, col: 22, offset: 84246},
+													pos: position{line: 2648, col: 22, offset: 84396},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2643, col: 19, offset: 84166},
+															pos: position{line: 2644, col: 19, offset: 84316},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2643, col: 19, offset: 84166},
+																	pos:        position{line: 2644, col: 19, offset: 84316},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2643, col: 26, offset: 84173},
+																	pos: position{line: 2644, col: 26, offset: 84323},
 																	expr: &actionExpr{
-																		pos: position{line: 2901, col: 10, offset: 91483},
-																		run: (*parser).callonListContinuationElement1531,
+																		pos: position{line: 2902, col: 10, offset: 91633},
+																		run: (*parser).callonListContinuationElement1548,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2901, col: 10, offset: 91483},
+																			pos:        position{line: 2902, col: 10, offset: 91633},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36175,28 +36673,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2923, col: 8, offset: 91881},
+																	pos: position{line: 2924, col: 8, offset: 92031},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2910, col: 12, offset: 91654},
-																			run: (*parser).callonListContinuationElement1534,
+																			pos: position{line: 2911, col: 12, offset: 91804},
+																			run: (*parser).callonListContinuationElement1551,
 																			expr: &choiceExpr{
-																				pos: position{line: 2910, col: 13, offset: 91655},
+																				pos: position{line: 2911, col: 13, offset: 91805},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91655},
+																						pos:        position{line: 2911, col: 13, offset: 91805},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 20, offset: 91662},
+																						pos:        position{line: 2911, col: 20, offset: 91812},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 29, offset: 91671},
+																						pos:        position{line: 2911, col: 29, offset: 91821},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36205,9 +36703,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2920, col: 8, offset: 91831},
+																			pos: position{line: 2921, col: 8, offset: 91981},
 																			expr: &anyMatcher{
-																				line: 2920, col: 9, offset: 91832,
+																				line: 2921, col: 9, offset: 91982,
 																			},
 																		},
 																	},
@@ -36215,9 +36713,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2920, col: 8, offset: 91831},
+															pos: position{line: 2921, col: 8, offset: 91981},
 															expr: &anyMatcher{
-																line: 2920, col: 9, offset: 91832,
+																line: 2921, col: 9, offset: 91982,
 															},
 														},
 													},
@@ -36226,36 +36724,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2511, col: 22, offset: 80468},
-										run: (*parser).callonListContinuationElement1543,
+										pos: position{line: 2512, col: 22, offset: 80570},
+										run: (*parser).callonListContinuationElement1560,
 										expr: &seqExpr{
-											pos: position{line: 2511, col: 22, offset: 80468},
+											pos: position{line: 2512, col: 22, offset: 80570},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2516, col: 31, offset: 80689},
+													pos:        position{line: 2517, col: 31, offset: 80820},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2516, col: 36, offset: 80694},
+													pos: position{line: 2517, col: 36, offset: 80825},
 													expr: &litMatcher{
-														pos:        position{line: 2516, col: 37, offset: 80695},
-														val:        "//",
+														pos:        position{line: 2517, col: 37, offset: 80826},
+														val:        "/",
 														ignoreCase: false,
-														want:       "\"//\"",
+														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2511, col: 49, offset: 80495},
+													pos:   position{line: 2512, col: 49, offset: 80597},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 13, offset: 90009},
-														run: (*parser).callonListContinuationElement1549,
+														pos: position{line: 2848, col: 13, offset: 90159},
+														run: (*parser).callonListContinuationElement1566,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2847, col: 13, offset: 90009},
+															pos: position{line: 2848, col: 13, offset: 90159},
 															expr: &charClassMatcher{
-																pos:        position{line: 2847, col: 13, offset: 90009},
+																pos:        position{line: 2848, col: 13, offset: 90159},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36265,28 +36763,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2923, col: 8, offset: 91881},
+													pos: position{line: 2924, col: 8, offset: 92031},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2910, col: 12, offset: 91654},
-															run: (*parser).callonListContinuationElement1553,
+															pos: position{line: 2911, col: 12, offset: 91804},
+															run: (*parser).callonListContinuationElement1570,
 															expr: &choiceExpr{
-																pos: position{line: 2910, col: 13, offset: 91655},
+																pos: position{line: 2911, col: 13, offset: 91805},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 13, offset: 91655},
+																		pos:        position{line: 2911, col: 13, offset: 91805},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 20, offset: 91662},
+																		pos:        position{line: 2911, col: 20, offset: 91812},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 29, offset: 91671},
+																		pos:        position{line: 2911, col: 29, offset: 91821},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36295,9 +36793,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2920, col: 8, offset: 91831},
+															pos: position{line: 2921, col: 8, offset: 91981},
 															expr: &anyMatcher{
-																line: 2920, col: 9, offset: 91832,
+																line: 2921, col: 9, offset: 91982,
 															},
 														},
 													},
@@ -36306,94 +36804,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1567, col: 5, offset: 50561},
-										run: (*parser).callonListContinuationElement1560,
+										pos: position{line: 1568, col: 5, offset: 50663},
+										run: (*parser).callonListContinuationElement1577,
 										expr: &seqExpr{
-											pos: position{line: 1567, col: 5, offset: 50561},
+											pos: position{line: 1568, col: 5, offset: 50663},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1567, col: 5, offset: 50561},
+													pos:   position{line: 1568, col: 5, offset: 50663},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1567, col: 11, offset: 50567},
+														pos: position{line: 1568, col: 11, offset: 50669},
 														expr: &actionExpr{
-															pos: position{line: 1731, col: 5, offset: 55884},
-															run: (*parser).callonListContinuationElement1564,
+															pos: position{line: 1732, col: 5, offset: 55986},
+															run: (*parser).callonListContinuationElement1581,
 															expr: &seqExpr{
-																pos: position{line: 1731, col: 5, offset: 55884},
+																pos: position{line: 1732, col: 5, offset: 55986},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1731, col: 5, offset: 55884},
-																		run: (*parser).callonListContinuationElement1566,
+																		pos: position{line: 1732, col: 5, offset: 55986},
+																		run: (*parser).callonListContinuationElement1583,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1734, col: 5, offset: 55947},
+																		pos:   position{line: 1735, col: 5, offset: 56049},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1734, col: 12, offset: 55954},
+																			pos: position{line: 1735, col: 12, offset: 56056},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1734, col: 12, offset: 55954},
-																					run: (*parser).callonListContinuationElement1569,
+																					pos: position{line: 1735, col: 12, offset: 56056},
+																					run: (*parser).callonListContinuationElement1586,
 																					expr: &litMatcher{
-																						pos:        position{line: 1734, col: 12, offset: 55954},
+																						pos:        position{line: 1735, col: 12, offset: 56056},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1736, col: 13, offset: 56010},
-																					run: (*parser).callonListContinuationElement1571,
+																					pos: position{line: 1737, col: 13, offset: 56112},
+																					run: (*parser).callonListContinuationElement1588,
 																					expr: &litMatcher{
-																						pos:        position{line: 1736, col: 13, offset: 56010},
+																						pos:        position{line: 1737, col: 13, offset: 56112},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1738, col: 13, offset: 56068},
-																					run: (*parser).callonListContinuationElement1573,
+																					pos: position{line: 1739, col: 13, offset: 56170},
+																					run: (*parser).callonListContinuationElement1590,
 																					expr: &litMatcher{
-																						pos:        position{line: 1738, col: 13, offset: 56068},
+																						pos:        position{line: 1739, col: 13, offset: 56170},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1740, col: 13, offset: 56136},
-																					run: (*parser).callonListContinuationElement1575,
+																					pos: position{line: 1741, col: 13, offset: 56238},
+																					run: (*parser).callonListContinuationElement1592,
 																					expr: &litMatcher{
-																						pos:        position{line: 1740, col: 13, offset: 56136},
+																						pos:        position{line: 1741, col: 13, offset: 56238},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1742, col: 13, offset: 56200},
-																					run: (*parser).callonListContinuationElement1577,
+																					pos: position{line: 1743, col: 13, offset: 56302},
+																					run: (*parser).callonListContinuationElement1594,
 																					expr: &litMatcher{
-																						pos:        position{line: 1742, col: 13, offset: 56200},
+																						pos:        position{line: 1743, col: 13, offset: 56302},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1744, col: 13, offset: 56264},
-																					run: (*parser).callonListContinuationElement1579,
+																					pos: position{line: 1745, col: 13, offset: 56366},
+																					run: (*parser).callonListContinuationElement1596,
 																					expr: &andExpr{
-																						pos: position{line: 1744, col: 13, offset: 56264},
+																						pos: position{line: 1745, col: 13, offset: 56366},
 																						expr: &actionExpr{
-																							pos: position{line: 2905, col: 11, offset: 91544},
-																							run: (*parser).callonListContinuationElement1581,
+																							pos: position{line: 2906, col: 11, offset: 91694},
+																							run: (*parser).callonListContinuationElement1598,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2905, col: 11, offset: 91544},
+																								pos: position{line: 2906, col: 11, offset: 91694},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 11, offset: 91544},
+																									pos:        position{line: 2906, col: 11, offset: 91694},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36412,35 +36910,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1568, col: 5, offset: 50590},
+													pos:   position{line: 1569, col: 5, offset: 50692},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1511, col: 5, offset: 48940},
-														run: (*parser).callonListContinuationElement1585,
+														pos: position{line: 1511, col: 5, offset: 49008},
+														run: (*parser).callonListContinuationElement1602,
 														expr: &seqExpr{
-															pos: position{line: 1511, col: 5, offset: 48940},
+															pos: position{line: 1511, col: 5, offset: 49008},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1511, col: 5, offset: 48940},
+																	pos: position{line: 1511, col: 5, offset: 49008},
 																	expr: &actionExpr{
-																		pos: position{line: 678, col: 14, offset: 21518},
-																		run: (*parser).callonListContinuationElement1588,
+																		pos: position{line: 678, col: 14, offset: 21586},
+																		run: (*parser).callonListContinuationElement1605,
 																		expr: &seqExpr{
-																			pos: position{line: 678, col: 14, offset: 21518},
+																			pos: position{line: 678, col: 14, offset: 21586},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2918, col: 11, offset: 91817},
+																					pos: position{line: 2919, col: 11, offset: 91967},
 																					expr: &anyMatcher{
-																						line: 2918, col: 13, offset: 91819,
+																						line: 2919, col: 13, offset: 91969,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 678, col: 21, offset: 21525},
+																					pos: position{line: 678, col: 21, offset: 21593},
 																					expr: &actionExpr{
-																						pos: position{line: 2901, col: 10, offset: 91483},
-																						run: (*parser).callonListContinuationElement1593,
+																						pos: position{line: 2902, col: 10, offset: 91633},
+																						run: (*parser).callonListContinuationElement1610,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2901, col: 10, offset: 91483},
+																							pos:        position{line: 2902, col: 10, offset: 91633},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36449,28 +36947,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2923, col: 8, offset: 91881},
+																					pos: position{line: 2924, col: 8, offset: 92031},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2910, col: 12, offset: 91654},
-																							run: (*parser).callonListContinuationElement1596,
+																							pos: position{line: 2911, col: 12, offset: 91804},
+																							run: (*parser).callonListContinuationElement1613,
 																							expr: &choiceExpr{
-																								pos: position{line: 2910, col: 13, offset: 91655},
+																								pos: position{line: 2911, col: 13, offset: 91805},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 13, offset: 91655},
+																										pos:        position{line: 2911, col: 13, offset: 91805},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 20, offset: 91662},
+																										pos:        position{line: 2911, col: 20, offset: 91812},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 29, offset: 91671},
+																										pos:        position{line: 2911, col: 29, offset: 91821},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36479,9 +36977,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2920, col: 8, offset: 91831},
+																							pos: position{line: 2921, col: 8, offset: 91981},
 																							expr: &anyMatcher{
-																								line: 2920, col: 9, offset: 91832,
+																								line: 2921, col: 9, offset: 91982,
 																							},
 																						},
 																					},
@@ -36491,23 +36989,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1512, col: 5, offset: 48955},
+																	pos: position{line: 1512, col: 5, offset: 49023},
 																	expr: &seqExpr{
-																		pos: position{line: 1542, col: 27, offset: 49781},
+																		pos: position{line: 1543, col: 27, offset: 49883},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1542, col: 27, offset: 49781},
+																				pos:        position{line: 1543, col: 27, offset: 49883},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1542, col: 31, offset: 49785},
+																				pos: position{line: 1543, col: 31, offset: 49887},
 																				expr: &actionExpr{
-																					pos: position{line: 2901, col: 10, offset: 91483},
-																					run: (*parser).callonListContinuationElement1607,
+																					pos: position{line: 2902, col: 10, offset: 91633},
+																					run: (*parser).callonListContinuationElement1624,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2901, col: 10, offset: 91483},
+																						pos:        position{line: 2902, col: 10, offset: 91633},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36516,25 +37014,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2910, col: 12, offset: 91654},
-																				run: (*parser).callonListContinuationElement1609,
+																				pos: position{line: 2911, col: 12, offset: 91804},
+																				run: (*parser).callonListContinuationElement1626,
 																				expr: &choiceExpr{
-																					pos: position{line: 2910, col: 13, offset: 91655},
+																					pos: position{line: 2911, col: 13, offset: 91805},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 13, offset: 91655},
+																							pos:        position{line: 2911, col: 13, offset: 91805},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 20, offset: 91662},
+																							pos:        position{line: 2911, col: 20, offset: 91812},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 29, offset: 91671},
+																							pos:        position{line: 2911, col: 29, offset: 91821},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -36546,20 +37044,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1513, col: 5, offset: 48983},
+																	pos: position{line: 1513, col: 5, offset: 49051},
 																	expr: &actionExpr{
-																		pos: position{line: 1583, col: 5, offset: 51000},
-																		run: (*parser).callonListContinuationElement1615,
+																		pos: position{line: 1584, col: 5, offset: 51102},
+																		run: (*parser).callonListContinuationElement1632,
 																		expr: &seqExpr{
-																			pos: position{line: 1583, col: 5, offset: 51000},
+																			pos: position{line: 1584, col: 5, offset: 51102},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1583, col: 5, offset: 51000},
+																					pos: position{line: 1584, col: 5, offset: 51102},
 																					expr: &actionExpr{
-																						pos: position{line: 2901, col: 10, offset: 91483},
-																						run: (*parser).callonListContinuationElement1618,
+																						pos: position{line: 2902, col: 10, offset: 91633},
+																						run: (*parser).callonListContinuationElement1635,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2901, col: 10, offset: 91483},
+																							pos:        position{line: 2902, col: 10, offset: 91633},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36568,27 +37066,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1583, col: 12, offset: 51007},
+																					pos:   position{line: 1584, col: 12, offset: 51109},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1585, col: 9, offset: 51070},
+																						pos: position{line: 1586, col: 9, offset: 51172},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1585, col: 9, offset: 51070},
-																								run: (*parser).callonListContinuationElement1622,
+																								pos: position{line: 1586, col: 9, offset: 51172},
+																								run: (*parser).callonListContinuationElement1639,
 																								expr: &seqExpr{
-																									pos: position{line: 1585, col: 9, offset: 51070},
+																									pos: position{line: 1586, col: 9, offset: 51172},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1585, col: 9, offset: 51070},
+																											pos:   position{line: 1586, col: 9, offset: 51172},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1585, col: 16, offset: 51077},
-																												run: (*parser).callonListContinuationElement1625,
+																												pos: position{line: 1586, col: 16, offset: 51179},
+																												run: (*parser).callonListContinuationElement1642,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1585, col: 16, offset: 51077},
+																													pos: position{line: 1586, col: 16, offset: 51179},
 																													expr: &litMatcher{
-																														pos:        position{line: 1585, col: 17, offset: 51078},
+																														pos:        position{line: 1586, col: 17, offset: 51180},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -36597,22 +37095,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1589, col: 9, offset: 51178},
-																											run: (*parser).callonListContinuationElement1628,
+																											pos: position{line: 1590, col: 9, offset: 51280},
+																											run: (*parser).callonListContinuationElement1645,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1608, col: 11, offset: 51895},
-																								run: (*parser).callonListContinuationElement1629,
+																								pos: position{line: 1609, col: 11, offset: 51997},
+																								run: (*parser).callonListContinuationElement1646,
 																								expr: &seqExpr{
-																									pos: position{line: 1608, col: 11, offset: 51895},
+																									pos: position{line: 1609, col: 11, offset: 51997},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1608, col: 11, offset: 51895},
+																											pos: position{line: 1609, col: 11, offset: 51997},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1608, col: 12, offset: 51896},
+																												pos:        position{line: 1609, col: 12, offset: 51998},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -36620,7 +37118,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1608, col: 20, offset: 51904},
+																											pos:        position{line: 1609, col: 20, offset: 52006},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36629,20 +37127,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1610, col: 13, offset: 52021},
-																								run: (*parser).callonListContinuationElement1634,
+																								pos: position{line: 1611, col: 13, offset: 52123},
+																								run: (*parser).callonListContinuationElement1651,
 																								expr: &seqExpr{
-																									pos: position{line: 1610, col: 13, offset: 52021},
+																									pos: position{line: 1611, col: 13, offset: 52123},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1610, col: 14, offset: 52022},
+																											pos:        position{line: 1611, col: 14, offset: 52124},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1610, col: 21, offset: 52029},
+																											pos:        position{line: 1611, col: 21, offset: 52131},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36651,20 +37149,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1612, col: 13, offset: 52149},
-																								run: (*parser).callonListContinuationElement1638,
+																								pos: position{line: 1613, col: 13, offset: 52251},
+																								run: (*parser).callonListContinuationElement1655,
 																								expr: &seqExpr{
-																									pos: position{line: 1612, col: 13, offset: 52149},
+																									pos: position{line: 1613, col: 13, offset: 52251},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1612, col: 14, offset: 52150},
+																											pos:        position{line: 1613, col: 14, offset: 52252},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1612, col: 21, offset: 52157},
+																											pos:        position{line: 1613, col: 21, offset: 52259},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36673,15 +37171,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1614, col: 13, offset: 52277},
-																								run: (*parser).callonListContinuationElement1642,
+																								pos: position{line: 1615, col: 13, offset: 52379},
+																								run: (*parser).callonListContinuationElement1659,
 																								expr: &seqExpr{
-																									pos: position{line: 1614, col: 13, offset: 52277},
+																									pos: position{line: 1615, col: 13, offset: 52379},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1614, col: 13, offset: 52277},
+																											pos: position{line: 1615, col: 13, offset: 52379},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1614, col: 14, offset: 52278},
+																												pos:        position{line: 1615, col: 14, offset: 52380},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -36689,7 +37187,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1614, col: 26, offset: 52290},
+																											pos:        position{line: 1615, col: 26, offset: 52392},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -36698,15 +37196,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1616, col: 13, offset: 52410},
-																								run: (*parser).callonListContinuationElement1647,
+																								pos: position{line: 1617, col: 13, offset: 52512},
+																								run: (*parser).callonListContinuationElement1664,
 																								expr: &seqExpr{
-																									pos: position{line: 1616, col: 13, offset: 52410},
+																									pos: position{line: 1617, col: 13, offset: 52512},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1616, col: 13, offset: 52410},
+																											pos: position{line: 1617, col: 13, offset: 52512},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1616, col: 14, offset: 52411},
+																												pos:        position{line: 1617, col: 14, offset: 52513},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -36714,7 +37212,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1616, col: 26, offset: 52423},
+																											pos:        position{line: 1617, col: 26, offset: 52525},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -36726,12 +37224,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2905, col: 11, offset: 91544},
-																					run: (*parser).callonListContinuationElement1652,
+																					pos: position{line: 2906, col: 11, offset: 91694},
+																					run: (*parser).callonListContinuationElement1669,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2905, col: 11, offset: 91544},
+																						pos: position{line: 2906, col: 11, offset: 91694},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2905, col: 11, offset: 91544},
+																							pos:        position{line: 2906, col: 11, offset: 91694},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36744,20 +37242,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1514, col: 5, offset: 49013},
+																	pos: position{line: 1514, col: 5, offset: 49081},
 																	expr: &actionExpr{
-																		pos: position{line: 1633, col: 5, offset: 52962},
-																		run: (*parser).callonListContinuationElement1656,
+																		pos: position{line: 1634, col: 5, offset: 53064},
+																		run: (*parser).callonListContinuationElement1673,
 																		expr: &seqExpr{
-																			pos: position{line: 1633, col: 5, offset: 52962},
+																			pos: position{line: 1634, col: 5, offset: 53064},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1633, col: 5, offset: 52962},
+																					pos: position{line: 1634, col: 5, offset: 53064},
 																					expr: &actionExpr{
-																						pos: position{line: 2901, col: 10, offset: 91483},
-																						run: (*parser).callonListContinuationElement1659,
+																						pos: position{line: 2902, col: 10, offset: 91633},
+																						run: (*parser).callonListContinuationElement1676,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2901, col: 10, offset: 91483},
+																							pos:        position{line: 2902, col: 10, offset: 91633},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36766,24 +37264,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1634, col: 5, offset: 52974},
+																					pos:   position{line: 1635, col: 5, offset: 53076},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1635, col: 9, offset: 52990},
-																						run: (*parser).callonListContinuationElement1662,
+																						pos: position{line: 1636, col: 9, offset: 53092},
+																						run: (*parser).callonListContinuationElement1679,
 																						expr: &choiceExpr{
-																							pos: position{line: 1635, col: 10, offset: 52991},
+																							pos: position{line: 1636, col: 10, offset: 53093},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1635, col: 11, offset: 52992},
+																									pos:        position{line: 1636, col: 11, offset: 53094},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1635, col: 18, offset: 52999},
+																									pos: position{line: 1636, col: 18, offset: 53101},
 																									expr: &litMatcher{
-																										pos:        position{line: 1635, col: 19, offset: 53000},
+																										pos:        position{line: 1636, col: 19, offset: 53102},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -36794,16 +37292,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1638, col: 7, offset: 53090},
-																					run: (*parser).callonListContinuationElement1667,
+																					pos: position{line: 1639, col: 7, offset: 53192},
+																					run: (*parser).callonListContinuationElement1684,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2905, col: 11, offset: 91544},
-																					run: (*parser).callonListContinuationElement1668,
+																					pos: position{line: 2906, col: 11, offset: 91694},
+																					run: (*parser).callonListContinuationElement1685,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2905, col: 11, offset: 91544},
+																						pos: position{line: 2906, col: 11, offset: 91694},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2905, col: 11, offset: 91544},
+																							pos:        position{line: 2906, col: 11, offset: 91694},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36816,29 +37314,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1515, col: 5, offset: 49045},
+																	pos: position{line: 1515, col: 5, offset: 49113},
 																	expr: &actionExpr{
-																		pos: position{line: 1722, col: 5, offset: 55499},
-																		run: (*parser).callonListContinuationElement1672,
+																		pos: position{line: 1723, col: 5, offset: 55601},
+																		run: (*parser).callonListContinuationElement1689,
 																		expr: &seqExpr{
-																			pos: position{line: 1722, col: 5, offset: 55499},
+																			pos: position{line: 1723, col: 5, offset: 55601},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1722, col: 5, offset: 55499},
+																					pos:        position{line: 1723, col: 5, offset: 55601},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1722, col: 9, offset: 55503},
+																					pos:   position{line: 1723, col: 9, offset: 55605},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1722, col: 14, offset: 55508},
-																						run: (*parser).callonListContinuationElement1676,
+																						pos: position{line: 1723, col: 14, offset: 55610},
+																						run: (*parser).callonListContinuationElement1693,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1722, col: 14, offset: 55508},
+																							pos: position{line: 1723, col: 14, offset: 55610},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1722, col: 14, offset: 55508},
+																								pos:        position{line: 1723, col: 14, offset: 55610},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -36848,18 +37346,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1722, col: 62, offset: 55556},
+																					pos:        position{line: 1723, col: 62, offset: 55658},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2905, col: 11, offset: 91544},
-																					run: (*parser).callonListContinuationElement1680,
+																					pos: position{line: 2906, col: 11, offset: 91694},
+																					run: (*parser).callonListContinuationElement1697,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2905, col: 11, offset: 91544},
+																						pos: position{line: 2906, col: 11, offset: 91694},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2905, col: 11, offset: 91544},
+																							pos:        position{line: 2906, col: 11, offset: 91694},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36872,36 +37370,36 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1516, col: 5, offset: 49075},
+																	pos: position{line: 1516, col: 5, offset: 49143},
 																	expr: &seqExpr{
-																		pos: position{line: 1516, col: 7, offset: 49077},
+																		pos: position{line: 1516, col: 7, offset: 49145},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1668, col: 5, offset: 53981},
-																				run: (*parser).callonListContinuationElement1685,
+																				pos: position{line: 1669, col: 5, offset: 54083},
+																				run: (*parser).callonListContinuationElement1702,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1668, col: 5, offset: 53981},
+																					pos: position{line: 1669, col: 5, offset: 54083},
 																					expr: &seqExpr{
-																						pos: position{line: 1668, col: 6, offset: 53982},
+																						pos: position{line: 1669, col: 6, offset: 54084},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1668, col: 6, offset: 53982},
+																								pos: position{line: 1669, col: 6, offset: 54084},
 																								expr: &actionExpr{
-																									pos: position{line: 1673, col: 5, offset: 54132},
-																									run: (*parser).callonListContinuationElement1689,
+																									pos: position{line: 1674, col: 5, offset: 54234},
+																									run: (*parser).callonListContinuationElement1706,
 																									expr: &seqExpr{
-																										pos: position{line: 1673, col: 5, offset: 54132},
+																										pos: position{line: 1674, col: 5, offset: 54234},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1673, col: 5, offset: 54132},
+																												pos:   position{line: 1674, col: 5, offset: 54234},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1673, col: 16, offset: 54143},
-																													run: (*parser).callonListContinuationElement1692,
+																													pos: position{line: 1674, col: 16, offset: 54245},
+																													run: (*parser).callonListContinuationElement1709,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1673, col: 16, offset: 54143},
+																														pos: position{line: 1674, col: 16, offset: 54245},
 																														expr: &litMatcher{
-																															pos:        position{line: 1673, col: 17, offset: 54144},
+																															pos:        position{line: 1674, col: 17, offset: 54246},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -36910,38 +37408,38 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1676, col: 5, offset: 54201},
-																												run: (*parser).callonListContinuationElement1695,
+																												pos: position{line: 1677, col: 5, offset: 54303},
+																												run: (*parser).callonListContinuationElement1712,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1668, col: 35, offset: 54011},
+																								pos: position{line: 1669, col: 35, offset: 54113},
 																								expr: &choiceExpr{
-																									pos: position{line: 2923, col: 8, offset: 91881},
+																									pos: position{line: 2924, col: 8, offset: 92031},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2910, col: 12, offset: 91654},
-																											run: (*parser).callonListContinuationElement1698,
+																											pos: position{line: 2911, col: 12, offset: 91804},
+																											run: (*parser).callonListContinuationElement1715,
 																											expr: &choiceExpr{
-																												pos: position{line: 2910, col: 13, offset: 91655},
+																												pos: position{line: 2911, col: 13, offset: 91805},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 13, offset: 91655},
+																														pos:        position{line: 2911, col: 13, offset: 91805},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 20, offset: 91662},
+																														pos:        position{line: 2911, col: 20, offset: 91812},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2910, col: 29, offset: 91671},
+																														pos:        position{line: 2911, col: 29, offset: 91821},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36950,37 +37448,37 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2920, col: 8, offset: 91831},
+																											pos: position{line: 2921, col: 8, offset: 91981},
 																											expr: &anyMatcher{
-																												line: 2920, col: 9, offset: 91832,
+																												line: 2921, col: 9, offset: 91982,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1668, col: 40, offset: 54016,
+																								line: 1669, col: 40, offset: 54118,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1673, col: 5, offset: 54132},
-																				run: (*parser).callonListContinuationElement1706,
+																				pos: position{line: 1674, col: 5, offset: 54234},
+																				run: (*parser).callonListContinuationElement1723,
 																				expr: &seqExpr{
-																					pos: position{line: 1673, col: 5, offset: 54132},
+																					pos: position{line: 1674, col: 5, offset: 54234},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1673, col: 5, offset: 54132},
+																							pos:   position{line: 1674, col: 5, offset: 54234},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1673, col: 16, offset: 54143},
-																								run: (*parser).callonListContinuationElement1709,
+																								pos: position{line: 1674, col: 16, offset: 54245},
+																								run: (*parser).callonListContinuationElement1726,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1673, col: 16, offset: 54143},
+																									pos: position{line: 1674, col: 16, offset: 54245},
 																									expr: &litMatcher{
-																										pos:        position{line: 1673, col: 17, offset: 54144},
+																										pos:        position{line: 1674, col: 17, offset: 54246},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -36989,8 +37487,8 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1676, col: 5, offset: 54201},
-																							run: (*parser).callonListContinuationElement1712,
+																							pos: position{line: 1677, col: 5, offset: 54303},
+																							run: (*parser).callonListContinuationElement1729,
 																						},
 																					},
 																				},
@@ -36999,17 +37497,17 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1517, col: 5, offset: 49133},
+																	pos: position{line: 1517, col: 5, offset: 49201},
 																	expr: &actionExpr{
-																		pos: position{line: 725, col: 5, offset: 23071},
-																		run: (*parser).callonListContinuationElement1714,
+																		pos: position{line: 725, col: 5, offset: 23139},
+																		run: (*parser).callonListContinuationElement1731,
 																		expr: &seqExpr{
-																			pos: position{line: 725, col: 5, offset: 23071},
+																			pos: position{line: 725, col: 5, offset: 23139},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 725, col: 5, offset: 23071},
+																					pos: position{line: 725, col: 5, offset: 23139},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2791, col: 13, offset: 88578},
+																						pos:        position{line: 2792, col: 13, offset: 88728},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37017,36 +37515,36 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 726, col: 5, offset: 23101},
+																					pos:   position{line: 726, col: 5, offset: 23169},
 																					label: "delimiter",
 																					expr: &choiceExpr{
-																						pos: position{line: 727, col: 9, offset: 23121},
+																						pos: position{line: 727, col: 9, offset: 23189},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 741, col: 5, offset: 23613},
-																								run: (*parser).callonListContinuationElement1720,
+																								pos: position{line: 741, col: 5, offset: 23681},
+																								run: (*parser).callonListContinuationElement1737,
 																								expr: &seqExpr{
-																									pos: position{line: 741, col: 5, offset: 23613},
+																									pos: position{line: 741, col: 5, offset: 23681},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 741, col: 5, offset: 23613},
+																											pos:   position{line: 741, col: 5, offset: 23681},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 741, col: 16, offset: 23624},
-																												run: (*parser).callonListContinuationElement1723,
+																												pos: position{line: 741, col: 16, offset: 23692},
+																												run: (*parser).callonListContinuationElement1740,
 																												expr: &seqExpr{
-																													pos: position{line: 741, col: 16, offset: 23624},
+																													pos: position{line: 741, col: 16, offset: 23692},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 741, col: 16, offset: 23624},
+																															pos:        position{line: 741, col: 16, offset: 23692},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 741, col: 23, offset: 23631},
+																															pos: position{line: 741, col: 23, offset: 23699},
 																															expr: &litMatcher{
-																																pos:        position{line: 741, col: 23, offset: 23631},
+																																pos:        position{line: 741, col: 23, offset: 23699},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -37057,186 +37555,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 743, col: 8, offset: 23715},
-																											expr: &actionExpr{
-																												pos: position{line: 2901, col: 10, offset: 91483},
-																												run: (*parser).callonListContinuationElement1729,
-																												expr: &charClassMatcher{
-																													pos:        position{line: 2901, col: 10, offset: 91483},
-																													val:        "[\\t ]",
-																													chars:      []rune{'\t', ' '},
-																													ignoreCase: false,
-																													inverted:   false,
-																												},
-																											},
-																										},
-																										&choiceExpr{
-																											pos: position{line: 2923, col: 8, offset: 91881},
-																											alternatives: []interface{}{
-																												&actionExpr{
-																													pos: position{line: 2910, col: 12, offset: 91654},
-																													run: (*parser).callonListContinuationElement1732,
-																													expr: &choiceExpr{
-																														pos: position{line: 2910, col: 13, offset: 91655},
-																														alternatives: []interface{}{
-																															&litMatcher{
-																																pos:        position{line: 2910, col: 13, offset: 91655},
-																																val:        "\n",
-																																ignoreCase: false,
-																																want:       "\"\\n\"",
-																															},
-																															&litMatcher{
-																																pos:        position{line: 2910, col: 20, offset: 91662},
-																																val:        "\r\n",
-																																ignoreCase: false,
-																																want:       "\"\\r\\n\"",
-																															},
-																															&litMatcher{
-																																pos:        position{line: 2910, col: 29, offset: 91671},
-																																val:        "\r",
-																																ignoreCase: false,
-																																want:       "\"\\r\"",
-																															},
-																														},
-																													},
-																												},
-																												&notExpr{
-																													pos: position{line: 2920, col: 8, offset: 91831},
-																													expr: &anyMatcher{
-																														line: 2920, col: 9, offset: 91832,
-																													},
-																												},
-																											},
-																										},
-																									},
-																								},
-																							},
-																							&actionExpr{
-																								pos: position{line: 748, col: 5, offset: 23861},
-																								run: (*parser).callonListContinuationElement1739,
-																								expr: &seqExpr{
-																									pos: position{line: 748, col: 5, offset: 23861},
-																									exprs: []interface{}{
-																										&labeledExpr{
-																											pos:   position{line: 748, col: 5, offset: 23861},
-																											label: "delimiter",
-																											expr: &actionExpr{
-																												pos: position{line: 748, col: 16, offset: 23872},
-																												run: (*parser).callonListContinuationElement1742,
-																												expr: &seqExpr{
-																													pos: position{line: 748, col: 16, offset: 23872},
-																													exprs: []interface{}{
-																														&litMatcher{
-																															pos:        position{line: 748, col: 16, offset: 23872},
-																															val:        "====",
-																															ignoreCase: false,
-																															want:       "\"====\"",
-																														},
-																														&zeroOrMoreExpr{
-																															pos: position{line: 748, col: 23, offset: 23879},
-																															expr: &litMatcher{
-																																pos:        position{line: 748, col: 23, offset: 23879},
-																																val:        "=",
-																																ignoreCase: false,
-																																want:       "\"=\"",
-																															},
-																														},
-																													},
-																												},
-																											},
-																										},
-																										&zeroOrMoreExpr{
-																											pos: position{line: 750, col: 8, offset: 23963},
-																											expr: &actionExpr{
-																												pos: position{line: 2901, col: 10, offset: 91483},
-																												run: (*parser).callonListContinuationElement1748,
-																												expr: &charClassMatcher{
-																													pos:        position{line: 2901, col: 10, offset: 91483},
-																													val:        "[\\t ]",
-																													chars:      []rune{'\t', ' '},
-																													ignoreCase: false,
-																													inverted:   false,
-																												},
-																											},
-																										},
-																										&choiceExpr{
-																											pos: position{line: 2923, col: 8, offset: 91881},
-																											alternatives: []interface{}{
-																												&actionExpr{
-																													pos: position{line: 2910, col: 12, offset: 91654},
-																													run: (*parser).callonListContinuationElement1751,
-																													expr: &choiceExpr{
-																														pos: position{line: 2910, col: 13, offset: 91655},
-																														alternatives: []interface{}{
-																															&litMatcher{
-																																pos:        position{line: 2910, col: 13, offset: 91655},
-																																val:        "\n",
-																																ignoreCase: false,
-																																want:       "\"\\n\"",
-																															},
-																															&litMatcher{
-																																pos:        position{line: 2910, col: 20, offset: 91662},
-																																val:        "\r\n",
-																																ignoreCase: false,
-																																want:       "\"\\r\\n\"",
-																															},
-																															&litMatcher{
-																																pos:        position{line: 2910, col: 29, offset: 91671},
-																																val:        "\r",
-																																ignoreCase: false,
-																																want:       "\"\\r\"",
-																															},
-																														},
-																													},
-																												},
-																												&notExpr{
-																													pos: position{line: 2920, col: 8, offset: 91831},
-																													expr: &anyMatcher{
-																														line: 2920, col: 9, offset: 91832,
-																													},
-																												},
-																											},
-																										},
-																									},
-																								},
-																							},
-																							&actionExpr{
-																								pos: position{line: 761, col: 26, offset: 24349},
-																								run: (*parser).callonListContinuationElement1758,
-																								expr: &seqExpr{
-																									pos: position{line: 761, col: 26, offset: 24349},
-																									exprs: []interface{}{
-																										&litMatcher{
-																											pos:        position{line: 761, col: 26, offset: 24349},
-																											val:        "```",
-																											ignoreCase: false,
-																											want:       "\"```\"",
-																										},
-																										&labeledExpr{
-																											pos:   position{line: 761, col: 32, offset: 24355},
-																											label: "language",
-																											expr: &actionExpr{
-																												pos: position{line: 765, col: 13, offset: 24485},
-																												run: (*parser).callonListContinuationElement1762,
-																												expr: &oneOrMoreExpr{
-																													pos: position{line: 765, col: 14, offset: 24486},
-																													expr: &charClassMatcher{
-																														pos:        position{line: 765, col: 14, offset: 24486},
-																														val:        "[^\\r\\n` ]",
-																														chars:      []rune{'\r', '\n', '`', ' '},
-																														ignoreCase: false,
-																														inverted:   true,
-																													},
-																												},
-																											},
-																										},
-																										&zeroOrMoreExpr{
-																											pos: position{line: 761, col: 52, offset: 24375},
+																											pos: position{line: 743, col: 8, offset: 23783},
 																											expr: &actionExpr{
-																												pos: position{line: 2901, col: 10, offset: 91483},
-																												run: (*parser).callonListContinuationElement1766,
+																												pos: position{line: 2902, col: 10, offset: 91633},
+																												run: (*parser).callonListContinuationElement1746,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2901, col: 10, offset: 91483},
+																													pos:        position{line: 2902, col: 10, offset: 91633},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37245,28 +37569,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2923, col: 8, offset: 91881},
+																											pos: position{line: 2924, col: 8, offset: 92031},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2910, col: 12, offset: 91654},
-																													run: (*parser).callonListContinuationElement1769,
+																													pos: position{line: 2911, col: 12, offset: 91804},
+																													run: (*parser).callonListContinuationElement1749,
 																													expr: &choiceExpr{
-																														pos: position{line: 2910, col: 13, offset: 91655},
+																														pos: position{line: 2911, col: 13, offset: 91805},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 13, offset: 91655},
+																																pos:        position{line: 2911, col: 13, offset: 91805},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 20, offset: 91662},
+																																pos:        position{line: 2911, col: 20, offset: 91812},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 29, offset: 91671},
+																																pos:        position{line: 2911, col: 29, offset: 91821},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37275,9 +37599,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2920, col: 8, offset: 91831},
+																													pos: position{line: 2921, col: 8, offset: 91981},
 																													expr: &anyMatcher{
-																														line: 2920, col: 9, offset: 91832,
+																														line: 2921, col: 9, offset: 91982,
 																													},
 																												},
 																											},
@@ -37286,30 +37610,204 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 755, col: 5, offset: 24108},
-																								run: (*parser).callonListContinuationElement1776,
+																								pos: position{line: 748, col: 5, offset: 23929},
+																								run: (*parser).callonListContinuationElement1756,
 																								expr: &seqExpr{
-																									pos: position{line: 755, col: 5, offset: 24108},
+																									pos: position{line: 748, col: 5, offset: 23929},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 755, col: 5, offset: 24108},
+																											pos:   position{line: 748, col: 5, offset: 23929},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 755, col: 16, offset: 24119},
+																												pos: position{line: 748, col: 16, offset: 23940},
+																												run: (*parser).callonListContinuationElement1759,
+																												expr: &seqExpr{
+																													pos: position{line: 748, col: 16, offset: 23940},
+																													exprs: []interface{}{
+																														&litMatcher{
+																															pos:        position{line: 748, col: 16, offset: 23940},
+																															val:        "====",
+																															ignoreCase: false,
+																															want:       "\"====\"",
+																														},
+																														&zeroOrMoreExpr{
+																															pos: position{line: 748, col: 23, offset: 23947},
+																															expr: &litMatcher{
+																																pos:        position{line: 748, col: 23, offset: 23947},
+																																val:        "=",
+																																ignoreCase: false,
+																																want:       "\"=\"",
+																															},
+																														},
+																													},
+																												},
+																											},
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 750, col: 8, offset: 24031},
+																											expr: &actionExpr{
+																												pos: position{line: 2902, col: 10, offset: 91633},
+																												run: (*parser).callonListContinuationElement1765,
+																												expr: &charClassMatcher{
+																													pos:        position{line: 2902, col: 10, offset: 91633},
+																													val:        "[\\t ]",
+																													chars:      []rune{'\t', ' '},
+																													ignoreCase: false,
+																													inverted:   false,
+																												},
+																											},
+																										},
+																										&choiceExpr{
+																											pos: position{line: 2924, col: 8, offset: 92031},
+																											alternatives: []interface{}{
+																												&actionExpr{
+																													pos: position{line: 2911, col: 12, offset: 91804},
+																													run: (*parser).callonListContinuationElement1768,
+																													expr: &choiceExpr{
+																														pos: position{line: 2911, col: 13, offset: 91805},
+																														alternatives: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 2911, col: 13, offset: 91805},
+																																val:        "\n",
+																																ignoreCase: false,
+																																want:       "\"\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2911, col: 20, offset: 91812},
+																																val:        "\r\n",
+																																ignoreCase: false,
+																																want:       "\"\\r\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2911, col: 29, offset: 91821},
+																																val:        "\r",
+																																ignoreCase: false,
+																																want:       "\"\\r\"",
+																															},
+																														},
+																													},
+																												},
+																												&notExpr{
+																													pos: position{line: 2921, col: 8, offset: 91981},
+																													expr: &anyMatcher{
+																														line: 2921, col: 9, offset: 91982,
+																													},
+																												},
+																											},
+																										},
+																									},
+																								},
+																							},
+																							&actionExpr{
+																								pos: position{line: 761, col: 26, offset: 24417},
+																								run: (*parser).callonListContinuationElement1775,
+																								expr: &seqExpr{
+																									pos: position{line: 761, col: 26, offset: 24417},
+																									exprs: []interface{}{
+																										&litMatcher{
+																											pos:        position{line: 761, col: 26, offset: 24417},
+																											val:        "```",
+																											ignoreCase: false,
+																											want:       "\"```\"",
+																										},
+																										&labeledExpr{
+																											pos:   position{line: 761, col: 32, offset: 24423},
+																											label: "language",
+																											expr: &actionExpr{
+																												pos: position{line: 765, col: 13, offset: 24553},
 																												run: (*parser).callonListContinuationElement1779,
+																												expr: &oneOrMoreExpr{
+																													pos: position{line: 765, col: 14, offset: 24554},
+																													expr: &charClassMatcher{
+																														pos:        position{line: 765, col: 14, offset: 24554},
+																														val:        "[^\\r\\n` ]",
+																														chars:      []rune{'\r', '\n', '`', ' '},
+																														ignoreCase: false,
+																														inverted:   true,
+																													},
+																												},
+																											},
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 761, col: 52, offset: 24443},
+																											expr: &actionExpr{
+																												pos: position{line: 2902, col: 10, offset: 91633},
+																												run: (*parser).callonListContinuationElement1783,
+																												expr: &charClassMatcher{
+																													pos:        position{line: 2902, col: 10, offset: 91633},
+																													val:        "[\\t ]",
+																													chars:      []rune{'\t', ' '},
+																													ignoreCase: false,
+																													inverted:   false,
+																												},
+																											},
+																										},
+																										&choiceExpr{
+																											pos: position{line: 2924, col: 8, offset: 92031},
+																											alternatives: []interface{}{
+																												&actionExpr{
+																													pos: position{line: 2911, col: 12, offset: 91804},
+																													run: (*parser).callonListContinuationElement1786,
+																													expr: &choiceExpr{
+																														pos: position{line: 2911, col: 13, offset: 91805},
+																														alternatives: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 2911, col: 13, offset: 91805},
+																																val:        "\n",
+																																ignoreCase: false,
+																																want:       "\"\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2911, col: 20, offset: 91812},
+																																val:        "\r\n",
+																																ignoreCase: false,
+																																want:       "\"\\r\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2911, col: 29, offset: 91821},
+																																val:        "\r",
+																																ignoreCase: false,
+																																want:       "\"\\r\"",
+																															},
+																														},
+																													},
+																												},
+																												&notExpr{
+																													pos: position{line: 2921, col: 8, offset: 91981},
+																													expr: &anyMatcher{
+																														line: 2921, col: 9, offset: 91982,
+																													},
+																												},
+																											},
+																										},
+																									},
+																								},
+																							},
+																							&actionExpr{
+																								pos: position{line: 755, col: 5, offset: 24176},
+																								run: (*parser).callonListContinuationElement1793,
+																								expr: &seqExpr{
+																									pos: position{line: 755, col: 5, offset: 24176},
+																									exprs: []interface{}{
+																										&labeledExpr{
+																											pos:   position{line: 755, col: 5, offset: 24176},
+																											label: "delimiter",
+																											expr: &actionExpr{
+																												pos: position{line: 755, col: 16, offset: 24187},
+																												run: (*parser).callonListContinuationElement1796,
 																												expr: &seqExpr{
-																													pos: position{line: 755, col: 16, offset: 24119},
+																													pos: position{line: 755, col: 16, offset: 24187},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 755, col: 16, offset: 24119},
+																															pos:        position{line: 755, col: 16, offset: 24187},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 755, col: 22, offset: 24125},
+																															pos: position{line: 755, col: 22, offset: 24193},
 																															expr: &litMatcher{
-																																pos:        position{line: 755, col: 22, offset: 24125},
+																																pos:        position{line: 755, col: 22, offset: 24193},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -37320,12 +37818,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 757, col: 8, offset: 24209},
+																											pos: position{line: 757, col: 8, offset: 24277},
 																											expr: &actionExpr{
-																												pos: position{line: 2901, col: 10, offset: 91483},
-																												run: (*parser).callonListContinuationElement1785,
+																												pos: position{line: 2902, col: 10, offset: 91633},
+																												run: (*parser).callonListContinuationElement1802,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2901, col: 10, offset: 91483},
+																													pos:        position{line: 2902, col: 10, offset: 91633},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37334,28 +37832,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2923, col: 8, offset: 91881},
+																											pos: position{line: 2924, col: 8, offset: 92031},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2910, col: 12, offset: 91654},
-																													run: (*parser).callonListContinuationElement1788,
+																													pos: position{line: 2911, col: 12, offset: 91804},
+																													run: (*parser).callonListContinuationElement1805,
 																													expr: &choiceExpr{
-																														pos: position{line: 2910, col: 13, offset: 91655},
+																														pos: position{line: 2911, col: 13, offset: 91805},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 13, offset: 91655},
+																																pos:        position{line: 2911, col: 13, offset: 91805},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 20, offset: 91662},
+																																pos:        position{line: 2911, col: 20, offset: 91812},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 29, offset: 91671},
+																																pos:        position{line: 2911, col: 29, offset: 91821},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37364,9 +37862,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2920, col: 8, offset: 91831},
+																													pos: position{line: 2921, col: 8, offset: 91981},
 																													expr: &anyMatcher{
-																														line: 2920, col: 9, offset: 91832,
+																														line: 2921, col: 9, offset: 91982,
 																													},
 																												},
 																											},
@@ -37375,30 +37873,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 770, col: 5, offset: 24645},
-																								run: (*parser).callonListContinuationElement1795,
+																								pos: position{line: 770, col: 5, offset: 24713},
+																								run: (*parser).callonListContinuationElement1812,
 																								expr: &seqExpr{
-																									pos: position{line: 770, col: 5, offset: 24645},
+																									pos: position{line: 770, col: 5, offset: 24713},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 770, col: 5, offset: 24645},
+																											pos:   position{line: 770, col: 5, offset: 24713},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 770, col: 16, offset: 24656},
-																												run: (*parser).callonListContinuationElement1798,
+																												pos: position{line: 770, col: 16, offset: 24724},
+																												run: (*parser).callonListContinuationElement1815,
 																												expr: &seqExpr{
-																													pos: position{line: 770, col: 16, offset: 24656},
+																													pos: position{line: 770, col: 16, offset: 24724},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 770, col: 16, offset: 24656},
+																															pos:        position{line: 770, col: 16, offset: 24724},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 770, col: 23, offset: 24663},
+																															pos: position{line: 770, col: 23, offset: 24731},
 																															expr: &litMatcher{
-																																pos:        position{line: 770, col: 23, offset: 24663},
+																																pos:        position{line: 770, col: 23, offset: 24731},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -37409,12 +37907,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 772, col: 8, offset: 24747},
+																											pos: position{line: 772, col: 8, offset: 24815},
 																											expr: &actionExpr{
-																												pos: position{line: 2901, col: 10, offset: 91483},
-																												run: (*parser).callonListContinuationElement1804,
+																												pos: position{line: 2902, col: 10, offset: 91633},
+																												run: (*parser).callonListContinuationElement1821,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2901, col: 10, offset: 91483},
+																													pos:        position{line: 2902, col: 10, offset: 91633},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37423,28 +37921,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2923, col: 8, offset: 91881},
+																											pos: position{line: 2924, col: 8, offset: 92031},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2910, col: 12, offset: 91654},
-																													run: (*parser).callonListContinuationElement1807,
+																													pos: position{line: 2911, col: 12, offset: 91804},
+																													run: (*parser).callonListContinuationElement1824,
 																													expr: &choiceExpr{
-																														pos: position{line: 2910, col: 13, offset: 91655},
+																														pos: position{line: 2911, col: 13, offset: 91805},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 13, offset: 91655},
+																																pos:        position{line: 2911, col: 13, offset: 91805},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 20, offset: 91662},
+																																pos:        position{line: 2911, col: 20, offset: 91812},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 29, offset: 91671},
+																																pos:        position{line: 2911, col: 29, offset: 91821},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37453,9 +37951,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2920, col: 8, offset: 91831},
+																													pos: position{line: 2921, col: 8, offset: 91981},
 																													expr: &anyMatcher{
-																														line: 2920, col: 9, offset: 91832,
+																														line: 2921, col: 9, offset: 91982,
 																													},
 																												},
 																											},
@@ -37464,30 +37962,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 784, col: 5, offset: 25121},
-																								run: (*parser).callonListContinuationElement1814,
+																								pos: position{line: 784, col: 5, offset: 25189},
+																								run: (*parser).callonListContinuationElement1831,
 																								expr: &seqExpr{
-																									pos: position{line: 784, col: 5, offset: 25121},
+																									pos: position{line: 784, col: 5, offset: 25189},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 784, col: 5, offset: 25121},
+																											pos:   position{line: 784, col: 5, offset: 25189},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 784, col: 16, offset: 25132},
-																												run: (*parser).callonListContinuationElement1817,
+																												pos: position{line: 784, col: 16, offset: 25200},
+																												run: (*parser).callonListContinuationElement1834,
 																												expr: &seqExpr{
-																													pos: position{line: 784, col: 16, offset: 25132},
+																													pos: position{line: 784, col: 16, offset: 25200},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 784, col: 16, offset: 25132},
+																															pos:        position{line: 784, col: 16, offset: 25200},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 784, col: 23, offset: 25139},
+																															pos: position{line: 784, col: 23, offset: 25207},
 																															expr: &litMatcher{
-																																pos:        position{line: 784, col: 23, offset: 25139},
+																																pos:        position{line: 784, col: 23, offset: 25207},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -37498,12 +37996,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 786, col: 8, offset: 25223},
+																											pos: position{line: 786, col: 8, offset: 25291},
 																											expr: &actionExpr{
-																												pos: position{line: 2901, col: 10, offset: 91483},
-																												run: (*parser).callonListContinuationElement1823,
+																												pos: position{line: 2902, col: 10, offset: 91633},
+																												run: (*parser).callonListContinuationElement1840,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2901, col: 10, offset: 91483},
+																													pos:        position{line: 2902, col: 10, offset: 91633},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37512,28 +38010,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2923, col: 8, offset: 91881},
+																											pos: position{line: 2924, col: 8, offset: 92031},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2910, col: 12, offset: 91654},
-																													run: (*parser).callonListContinuationElement1826,
+																													pos: position{line: 2911, col: 12, offset: 91804},
+																													run: (*parser).callonListContinuationElement1843,
 																													expr: &choiceExpr{
-																														pos: position{line: 2910, col: 13, offset: 91655},
+																														pos: position{line: 2911, col: 13, offset: 91805},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 13, offset: 91655},
+																																pos:        position{line: 2911, col: 13, offset: 91805},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 20, offset: 91662},
+																																pos:        position{line: 2911, col: 20, offset: 91812},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 29, offset: 91671},
+																																pos:        position{line: 2911, col: 29, offset: 91821},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37542,9 +38040,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2920, col: 8, offset: 91831},
+																													pos: position{line: 2921, col: 8, offset: 91981},
 																													expr: &anyMatcher{
-																														line: 2920, col: 9, offset: 91832,
+																														line: 2921, col: 9, offset: 91982,
 																													},
 																												},
 																											},
@@ -37553,30 +38051,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 791, col: 5, offset: 25373},
-																								run: (*parser).callonListContinuationElement1833,
+																								pos: position{line: 791, col: 5, offset: 25441},
+																								run: (*parser).callonListContinuationElement1850,
 																								expr: &seqExpr{
-																									pos: position{line: 791, col: 5, offset: 25373},
+																									pos: position{line: 791, col: 5, offset: 25441},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 791, col: 5, offset: 25373},
+																											pos:   position{line: 791, col: 5, offset: 25441},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 791, col: 16, offset: 25384},
-																												run: (*parser).callonListContinuationElement1836,
+																												pos: position{line: 791, col: 16, offset: 25452},
+																												run: (*parser).callonListContinuationElement1853,
 																												expr: &seqExpr{
-																													pos: position{line: 791, col: 16, offset: 25384},
+																													pos: position{line: 791, col: 16, offset: 25452},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 791, col: 16, offset: 25384},
+																															pos:        position{line: 791, col: 16, offset: 25452},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 791, col: 23, offset: 25391},
+																															pos: position{line: 791, col: 23, offset: 25459},
 																															expr: &litMatcher{
-																																pos:        position{line: 791, col: 23, offset: 25391},
+																																pos:        position{line: 791, col: 23, offset: 25459},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -37587,12 +38085,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 793, col: 8, offset: 25475},
+																											pos: position{line: 793, col: 8, offset: 25543},
 																											expr: &actionExpr{
-																												pos: position{line: 2901, col: 10, offset: 91483},
-																												run: (*parser).callonListContinuationElement1842,
+																												pos: position{line: 2902, col: 10, offset: 91633},
+																												run: (*parser).callonListContinuationElement1859,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2901, col: 10, offset: 91483},
+																													pos:        position{line: 2902, col: 10, offset: 91633},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37601,28 +38099,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2923, col: 8, offset: 91881},
+																											pos: position{line: 2924, col: 8, offset: 92031},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2910, col: 12, offset: 91654},
-																													run: (*parser).callonListContinuationElement1845,
+																													pos: position{line: 2911, col: 12, offset: 91804},
+																													run: (*parser).callonListContinuationElement1862,
 																													expr: &choiceExpr{
-																														pos: position{line: 2910, col: 13, offset: 91655},
+																														pos: position{line: 2911, col: 13, offset: 91805},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 13, offset: 91655},
+																																pos:        position{line: 2911, col: 13, offset: 91805},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 20, offset: 91662},
+																																pos:        position{line: 2911, col: 20, offset: 91812},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 29, offset: 91671},
+																																pos:        position{line: 2911, col: 29, offset: 91821},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37631,9 +38129,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2920, col: 8, offset: 91831},
+																													pos: position{line: 2921, col: 8, offset: 91981},
 																													expr: &anyMatcher{
-																														line: 2920, col: 9, offset: 91832,
+																														line: 2921, col: 9, offset: 91982,
 																													},
 																												},
 																											},
@@ -37642,30 +38140,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 798, col: 5, offset: 25623},
-																								run: (*parser).callonListContinuationElement1852,
+																								pos: position{line: 798, col: 5, offset: 25691},
+																								run: (*parser).callonListContinuationElement1869,
 																								expr: &seqExpr{
-																									pos: position{line: 798, col: 5, offset: 25623},
+																									pos: position{line: 798, col: 5, offset: 25691},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 798, col: 5, offset: 25623},
+																											pos:   position{line: 798, col: 5, offset: 25691},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 798, col: 16, offset: 25634},
-																												run: (*parser).callonListContinuationElement1855,
+																												pos: position{line: 798, col: 16, offset: 25702},
+																												run: (*parser).callonListContinuationElement1872,
 																												expr: &seqExpr{
-																													pos: position{line: 798, col: 16, offset: 25634},
+																													pos: position{line: 798, col: 16, offset: 25702},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 798, col: 16, offset: 25634},
+																															pos:        position{line: 798, col: 16, offset: 25702},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 798, col: 23, offset: 25641},
+																															pos: position{line: 798, col: 23, offset: 25709},
 																															expr: &litMatcher{
-																																pos:        position{line: 798, col: 23, offset: 25641},
+																																pos:        position{line: 798, col: 23, offset: 25709},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -37676,12 +38174,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 800, col: 8, offset: 25725},
+																											pos: position{line: 800, col: 8, offset: 25793},
 																											expr: &actionExpr{
-																												pos: position{line: 2901, col: 10, offset: 91483},
-																												run: (*parser).callonListContinuationElement1861,
+																												pos: position{line: 2902, col: 10, offset: 91633},
+																												run: (*parser).callonListContinuationElement1878,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2901, col: 10, offset: 91483},
+																													pos:        position{line: 2902, col: 10, offset: 91633},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37690,28 +38188,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2923, col: 8, offset: 91881},
+																											pos: position{line: 2924, col: 8, offset: 92031},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2910, col: 12, offset: 91654},
-																													run: (*parser).callonListContinuationElement1864,
+																													pos: position{line: 2911, col: 12, offset: 91804},
+																													run: (*parser).callonListContinuationElement1881,
 																													expr: &choiceExpr{
-																														pos: position{line: 2910, col: 13, offset: 91655},
+																														pos: position{line: 2911, col: 13, offset: 91805},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 13, offset: 91655},
+																																pos:        position{line: 2911, col: 13, offset: 91805},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 20, offset: 91662},
+																																pos:        position{line: 2911, col: 20, offset: 91812},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 29, offset: 91671},
+																																pos:        position{line: 2911, col: 29, offset: 91821},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37720,9 +38218,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2920, col: 8, offset: 91831},
+																													pos: position{line: 2921, col: 8, offset: 91981},
 																													expr: &anyMatcher{
-																														line: 2920, col: 9, offset: 91832,
+																														line: 2921, col: 9, offset: 91982,
 																													},
 																												},
 																											},
@@ -37731,30 +38229,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 805, col: 5, offset: 25869},
-																								run: (*parser).callonListContinuationElement1871,
+																								pos: position{line: 805, col: 5, offset: 25937},
+																								run: (*parser).callonListContinuationElement1888,
 																								expr: &seqExpr{
-																									pos: position{line: 805, col: 5, offset: 25869},
+																									pos: position{line: 805, col: 5, offset: 25937},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 805, col: 5, offset: 25869},
+																											pos:   position{line: 805, col: 5, offset: 25937},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 805, col: 16, offset: 25880},
-																												run: (*parser).callonListContinuationElement1874,
+																												pos: position{line: 805, col: 16, offset: 25948},
+																												run: (*parser).callonListContinuationElement1891,
 																												expr: &seqExpr{
-																													pos: position{line: 805, col: 16, offset: 25880},
+																													pos: position{line: 805, col: 16, offset: 25948},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 805, col: 16, offset: 25880},
+																															pos:        position{line: 805, col: 16, offset: 25948},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 805, col: 23, offset: 25887},
+																															pos: position{line: 805, col: 23, offset: 25955},
 																															expr: &litMatcher{
-																																pos:        position{line: 805, col: 23, offset: 25887},
+																																pos:        position{line: 805, col: 23, offset: 25955},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -37765,12 +38263,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 807, col: 8, offset: 25971},
+																											pos: position{line: 807, col: 8, offset: 26039},
 																											expr: &actionExpr{
-																												pos: position{line: 2901, col: 10, offset: 91483},
-																												run: (*parser).callonListContinuationElement1880,
+																												pos: position{line: 2902, col: 10, offset: 91633},
+																												run: (*parser).callonListContinuationElement1897,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2901, col: 10, offset: 91483},
+																													pos:        position{line: 2902, col: 10, offset: 91633},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37779,28 +38277,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2923, col: 8, offset: 91881},
+																											pos: position{line: 2924, col: 8, offset: 92031},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2910, col: 12, offset: 91654},
-																													run: (*parser).callonListContinuationElement1883,
+																													pos: position{line: 2911, col: 12, offset: 91804},
+																													run: (*parser).callonListContinuationElement1900,
 																													expr: &choiceExpr{
-																														pos: position{line: 2910, col: 13, offset: 91655},
+																														pos: position{line: 2911, col: 13, offset: 91805},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 13, offset: 91655},
+																																pos:        position{line: 2911, col: 13, offset: 91805},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 20, offset: 91662},
+																																pos:        position{line: 2911, col: 20, offset: 91812},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2910, col: 29, offset: 91671},
+																																pos:        position{line: 2911, col: 29, offset: 91821},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37809,9 +38307,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2920, col: 8, offset: 91831},
+																													pos: position{line: 2921, col: 8, offset: 91981},
 																													expr: &anyMatcher{
-																														line: 2920, col: 9, offset: 91832,
+																														line: 2921, col: 9, offset: 91982,
 																													},
 																												},
 																											},
@@ -37827,15 +38325,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1518, col: 5, offset: 49221},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2851, col: 14, offset: 90076},
-																		run: (*parser).callonListContinuationElement1891,
+																		pos: position{line: 2852, col: 14, offset: 90226},
+																		run: (*parser).callonListContinuationElement1908,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2851, col: 14, offset: 90076},
+																			pos: position{line: 2852, col: 14, offset: 90226},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2851, col: 14, offset: 90076},
+																				pos:        position{line: 2852, col: 14, offset: 90226},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -37845,28 +38343,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2923, col: 8, offset: 91881},
+																	pos: position{line: 2924, col: 8, offset: 92031},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2910, col: 12, offset: 91654},
-																			run: (*parser).callonListContinuationElement1895,
+																			pos: position{line: 2911, col: 12, offset: 91804},
+																			run: (*parser).callonListContinuationElement1912,
 																			expr: &choiceExpr{
-																				pos: position{line: 2910, col: 13, offset: 91655},
+																				pos: position{line: 2911, col: 13, offset: 91805},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91655},
+																						pos:        position{line: 2911, col: 13, offset: 91805},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 20, offset: 91662},
+																						pos:        position{line: 2911, col: 20, offset: 91812},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 29, offset: 91671},
+																						pos:        position{line: 2911, col: 29, offset: 91821},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37875,9 +38373,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2920, col: 8, offset: 91831},
+																			pos: position{line: 2921, col: 8, offset: 91981},
 																			expr: &anyMatcher{
-																				line: 2920, col: 9, offset: 91832,
+																				line: 2921, col: 9, offset: 91982,
 																			},
 																		},
 																	},
@@ -37898,33 +38396,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1706, col: 1, offset: 54993},
+			pos:  position{line: 1707, col: 1, offset: 55095},
 			expr: &actionExpr{
-				pos: position{line: 1708, col: 5, offset: 55071},
+				pos: position{line: 1709, col: 5, offset: 55173},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1708, col: 5, offset: 55071},
+					pos: position{line: 1709, col: 5, offset: 55173},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1708, col: 5, offset: 55071},
+							pos: position{line: 1709, col: 5, offset: 55173},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1711, col: 5, offset: 55138},
+							pos:        position{line: 1712, col: 5, offset: 55240},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1711, col: 9, offset: 55142},
+							pos:   position{line: 1712, col: 9, offset: 55244},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1711, col: 14, offset: 55147},
+								pos: position{line: 1712, col: 14, offset: 55249},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1711, col: 14, offset: 55147},
+									pos: position{line: 1712, col: 14, offset: 55249},
 									expr: &charClassMatcher{
-										pos:        position{line: 1711, col: 14, offset: 55147},
+										pos:        position{line: 1712, col: 14, offset: 55249},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -37934,18 +38432,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1711, col: 62, offset: 55195},
+							pos:        position{line: 1712, col: 62, offset: 55297},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1711, col: 66, offset: 55199},
+							pos: position{line: 1712, col: 66, offset: 55301},
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 10, offset: 91483},
+								pos: position{line: 2902, col: 10, offset: 91633},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2901, col: 10, offset: 91483},
+									pos:        position{line: 2902, col: 10, offset: 91633},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -37954,30 +38452,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1711, col: 73, offset: 55206},
+							pos: position{line: 1712, col: 73, offset: 55308},
 							expr: &choiceExpr{
-								pos: position{line: 1711, col: 75, offset: 55208},
+								pos: position{line: 1712, col: 75, offset: 55310},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2910, col: 12, offset: 91654},
+										pos: position{line: 2911, col: 12, offset: 91804},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2910, col: 13, offset: 91655},
+											pos: position{line: 2911, col: 13, offset: 91805},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2910, col: 13, offset: 91655},
+													pos:        position{line: 2911, col: 13, offset: 91805},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2910, col: 20, offset: 91662},
+													pos:        position{line: 2911, col: 20, offset: 91812},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2910, col: 29, offset: 91671},
+													pos:        position{line: 2911, col: 29, offset: 91821},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -37986,13 +38484,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2920, col: 8, offset: 91831},
+										pos: position{line: 2921, col: 8, offset: 91981},
 										expr: &anyMatcher{
-											line: 2920, col: 9, offset: 91832,
+											line: 2921, col: 9, offset: 91982,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1711, col: 81, offset: 55214},
+										pos:  position{line: 1712, col: 81, offset: 55316},
 										name: "Callout",
 									},
 								},
@@ -38004,44 +38502,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1750, col: 1, offset: 56387},
+			pos:  position{line: 1751, col: 1, offset: 56489},
 			expr: &actionExpr{
-				pos: position{line: 1752, col: 5, offset: 56461},
+				pos: position{line: 1753, col: 5, offset: 56563},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1752, col: 5, offset: 56461},
+					pos: position{line: 1753, col: 5, offset: 56563},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1752, col: 5, offset: 56461},
+							pos: position{line: 1753, col: 5, offset: 56563},
 							expr: &seqExpr{
-								pos: position{line: 1752, col: 7, offset: 56463},
+								pos: position{line: 1753, col: 7, offset: 56565},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2791, col: 13, offset: 88578},
+										pos:        position{line: 2792, col: 13, offset: 88728},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1752, col: 16, offset: 56472},
+										pos: position{line: 1753, col: 16, offset: 56574},
 										expr: &seqExpr{
-											pos: position{line: 1752, col: 18, offset: 56474},
+											pos: position{line: 1753, col: 18, offset: 56576},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1752, col: 19, offset: 56475},
+													pos:        position{line: 1753, col: 19, offset: 56577},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2905, col: 11, offset: 91544},
+													pos: position{line: 2906, col: 11, offset: 91694},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2905, col: 11, offset: 91544},
+														pos: position{line: 2906, col: 11, offset: 91694},
 														expr: &charClassMatcher{
-															pos:        position{line: 2905, col: 11, offset: 91544},
+															pos:        position{line: 2906, col: 11, offset: 91694},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38056,88 +38554,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1753, col: 5, offset: 56615},
+							pos:   position{line: 1754, col: 5, offset: 56717},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1753, col: 11, offset: 56621},
+								pos: position{line: 1754, col: 11, offset: 56723},
 								expr: &actionExpr{
-									pos: position{line: 1731, col: 5, offset: 55884},
+									pos: position{line: 1732, col: 5, offset: 55986},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1731, col: 5, offset: 55884},
+										pos: position{line: 1732, col: 5, offset: 55986},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1731, col: 5, offset: 55884},
+												pos: position{line: 1732, col: 5, offset: 55986},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1734, col: 5, offset: 55947},
+												pos:   position{line: 1735, col: 5, offset: 56049},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1734, col: 12, offset: 55954},
+													pos: position{line: 1735, col: 12, offset: 56056},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1734, col: 12, offset: 55954},
+															pos: position{line: 1735, col: 12, offset: 56056},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1734, col: 12, offset: 55954},
+																pos:        position{line: 1735, col: 12, offset: 56056},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1736, col: 13, offset: 56010},
+															pos: position{line: 1737, col: 13, offset: 56112},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1736, col: 13, offset: 56010},
+																pos:        position{line: 1737, col: 13, offset: 56112},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1738, col: 13, offset: 56068},
+															pos: position{line: 1739, col: 13, offset: 56170},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1738, col: 13, offset: 56068},
+																pos:        position{line: 1739, col: 13, offset: 56170},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1740, col: 13, offset: 56136},
+															pos: position{line: 1741, col: 13, offset: 56238},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1740, col: 13, offset: 56136},
+																pos:        position{line: 1741, col: 13, offset: 56238},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1742, col: 13, offset: 56200},
+															pos: position{line: 1743, col: 13, offset: 56302},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1742, col: 13, offset: 56200},
+																pos:        position{line: 1743, col: 13, offset: 56302},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1744, col: 13, offset: 56264},
+															pos: position{line: 1745, col: 13, offset: 56366},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1744, col: 13, offset: 56264},
+																pos: position{line: 1745, col: 13, offset: 56366},
 																expr: &actionExpr{
-																	pos: position{line: 2905, col: 11, offset: 91544},
+																	pos: position{line: 2906, col: 11, offset: 91694},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2905, col: 11, offset: 91544},
+																		pos: position{line: 2906, col: 11, offset: 91694},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 11, offset: 91544},
+																			pos:        position{line: 2906, col: 11, offset: 91694},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38156,24 +38654,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1754, col: 5, offset: 56643},
+							pos:   position{line: 1755, col: 5, offset: 56745},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1790, col: 5, offset: 57750},
+								pos: position{line: 1791, col: 5, offset: 57852},
 								run: (*parser).callonShortcutParagraph35,
 								expr: &seqExpr{
-									pos: position{line: 1790, col: 5, offset: 57750},
+									pos: position{line: 1791, col: 5, offset: 57852},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1790, col: 5, offset: 57750},
+											pos:   position{line: 1791, col: 5, offset: 57852},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2851, col: 14, offset: 90076},
+												pos: position{line: 2852, col: 14, offset: 90226},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2851, col: 14, offset: 90076},
+													pos: position{line: 2852, col: 14, offset: 90226},
 													expr: &charClassMatcher{
-														pos:        position{line: 2851, col: 14, offset: 90076},
+														pos:        position{line: 2852, col: 14, offset: 90226},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -38183,32 +38681,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1791, col: 5, offset: 57774},
+											pos: position{line: 1792, col: 5, offset: 57876},
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2923, col: 8, offset: 91881},
+											pos: position{line: 2924, col: 8, offset: 92031},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2910, col: 12, offset: 91654},
+													pos: position{line: 2911, col: 12, offset: 91804},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2910, col: 13, offset: 91655},
+														pos: position{line: 2911, col: 13, offset: 91805},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2910, col: 13, offset: 91655},
+																pos:        position{line: 2911, col: 13, offset: 91805},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2910, col: 20, offset: 91662},
+																pos:        position{line: 2911, col: 20, offset: 91812},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2910, col: 29, offset: 91671},
+																pos:        position{line: 2911, col: 29, offset: 91821},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -38217,9 +38715,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2920, col: 8, offset: 91831},
+													pos: position{line: 2921, col: 8, offset: 91981},
 													expr: &anyMatcher{
-														line: 2920, col: 9, offset: 91832,
+														line: 2921, col: 9, offset: 91982,
 													},
 												},
 											},
@@ -38229,47 +38727,47 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1755, col: 5, offset: 56677},
+							pos: position{line: 1756, col: 5, offset: 56779},
 							run: (*parser).callonShortcutParagraph50,
 						},
 						&labeledExpr{
-							pos:   position{line: 1762, col: 5, offset: 57007},
+							pos:   position{line: 1763, col: 5, offset: 57109},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1762, col: 16, offset: 57018},
+								pos: position{line: 1763, col: 16, offset: 57120},
 								expr: &actionExpr{
-									pos: position{line: 1763, col: 9, offset: 57028},
+									pos: position{line: 1764, col: 9, offset: 57130},
 									run: (*parser).callonShortcutParagraph53,
 									expr: &seqExpr{
-										pos: position{line: 1763, col: 9, offset: 57028},
+										pos: position{line: 1764, col: 9, offset: 57130},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2918, col: 11, offset: 91817},
+												pos: position{line: 2919, col: 11, offset: 91967},
 												expr: &anyMatcher{
-													line: 2918, col: 13, offset: 91819,
+													line: 2919, col: 13, offset: 91969,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1764, col: 9, offset: 57044},
+												pos: position{line: 1765, col: 9, offset: 57146},
 												expr: &actionExpr{
-													pos: position{line: 678, col: 14, offset: 21518},
+													pos: position{line: 678, col: 14, offset: 21586},
 													run: (*parser).callonShortcutParagraph58,
 													expr: &seqExpr{
-														pos: position{line: 678, col: 14, offset: 21518},
+														pos: position{line: 678, col: 14, offset: 21586},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2918, col: 11, offset: 91817},
+																pos: position{line: 2919, col: 11, offset: 91967},
 																expr: &anyMatcher{
-																	line: 2918, col: 13, offset: 91819,
+																	line: 2919, col: 13, offset: 91969,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 678, col: 21, offset: 21525},
+																pos: position{line: 678, col: 21, offset: 21593},
 																expr: &actionExpr{
-																	pos: position{line: 2901, col: 10, offset: 91483},
+																	pos: position{line: 2902, col: 10, offset: 91633},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2901, col: 10, offset: 91483},
+																		pos:        position{line: 2902, col: 10, offset: 91633},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38278,28 +38776,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2923, col: 8, offset: 91881},
+																pos: position{line: 2924, col: 8, offset: 92031},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2910, col: 12, offset: 91654},
+																		pos: position{line: 2911, col: 12, offset: 91804},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2910, col: 13, offset: 91655},
+																			pos: position{line: 2911, col: 13, offset: 91805},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2910, col: 13, offset: 91655},
+																					pos:        position{line: 2911, col: 13, offset: 91805},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2910, col: 20, offset: 91662},
+																					pos:        position{line: 2911, col: 20, offset: 91812},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2910, col: 29, offset: 91671},
+																					pos:        position{line: 2911, col: 29, offset: 91821},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38308,9 +38806,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2920, col: 8, offset: 91831},
+																		pos: position{line: 2921, col: 8, offset: 91981},
 																		expr: &anyMatcher{
-																			line: 2920, col: 9, offset: 91832,
+																			line: 2921, col: 9, offset: 91982,
 																		},
 																	},
 																},
@@ -38320,24 +38818,24 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1765, col: 9, offset: 57063},
+												pos: position{line: 1766, col: 9, offset: 57165},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1765, col: 10, offset: 57064},
+													pos:  position{line: 1766, col: 10, offset: 57166},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1766, col: 9, offset: 57088},
+												pos: position{line: 1767, col: 9, offset: 57190},
 												expr: &actionExpr{
-													pos: position{line: 725, col: 5, offset: 23071},
+													pos: position{line: 725, col: 5, offset: 23139},
 													run: (*parser).callonShortcutParagraph76,
 													expr: &seqExpr{
-														pos: position{line: 725, col: 5, offset: 23071},
+														pos: position{line: 725, col: 5, offset: 23139},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 725, col: 5, offset: 23071},
+																pos: position{line: 725, col: 5, offset: 23139},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2791, col: 13, offset: 88578},
+																	pos:        position{line: 2792, col: 13, offset: 88728},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -38345,36 +38843,36 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 726, col: 5, offset: 23101},
+																pos:   position{line: 726, col: 5, offset: 23169},
 																label: "delimiter",
 																expr: &choiceExpr{
-																	pos: position{line: 727, col: 9, offset: 23121},
+																	pos: position{line: 727, col: 9, offset: 23189},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 741, col: 5, offset: 23613},
+																			pos: position{line: 741, col: 5, offset: 23681},
 																			run: (*parser).callonShortcutParagraph82,
 																			expr: &seqExpr{
-																				pos: position{line: 741, col: 5, offset: 23613},
+																				pos: position{line: 741, col: 5, offset: 23681},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 741, col: 5, offset: 23613},
+																						pos:   position{line: 741, col: 5, offset: 23681},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 741, col: 16, offset: 23624},
+																							pos: position{line: 741, col: 16, offset: 23692},
 																							run: (*parser).callonShortcutParagraph85,
 																							expr: &seqExpr{
-																								pos: position{line: 741, col: 16, offset: 23624},
+																								pos: position{line: 741, col: 16, offset: 23692},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 741, col: 16, offset: 23624},
+																										pos:        position{line: 741, col: 16, offset: 23692},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 741, col: 23, offset: 23631},
+																										pos: position{line: 741, col: 23, offset: 23699},
 																										expr: &litMatcher{
-																											pos:        position{line: 741, col: 23, offset: 23631},
+																											pos:        position{line: 741, col: 23, offset: 23699},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -38385,12 +38883,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 743, col: 8, offset: 23715},
+																						pos: position{line: 743, col: 8, offset: 23783},
 																						expr: &actionExpr{
-																							pos: position{line: 2901, col: 10, offset: 91483},
+																							pos: position{line: 2902, col: 10, offset: 91633},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2901, col: 10, offset: 91483},
+																								pos:        position{line: 2902, col: 10, offset: 91633},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38399,28 +38897,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2923, col: 8, offset: 91881},
+																						pos: position{line: 2924, col: 8, offset: 92031},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2910, col: 12, offset: 91654},
+																								pos: position{line: 2911, col: 12, offset: 91804},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2910, col: 13, offset: 91655},
+																									pos: position{line: 2911, col: 13, offset: 91805},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 13, offset: 91655},
+																											pos:        position{line: 2911, col: 13, offset: 91805},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 20, offset: 91662},
+																											pos:        position{line: 2911, col: 20, offset: 91812},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 29, offset: 91671},
+																											pos:        position{line: 2911, col: 29, offset: 91821},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38429,9 +38927,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 8, offset: 91831},
+																								pos: position{line: 2921, col: 8, offset: 91981},
 																								expr: &anyMatcher{
-																									line: 2920, col: 9, offset: 91832,
+																									line: 2921, col: 9, offset: 91982,
 																								},
 																							},
 																						},
@@ -38440,30 +38938,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 748, col: 5, offset: 23861},
+																			pos: position{line: 748, col: 5, offset: 23929},
 																			run: (*parser).callonShortcutParagraph101,
 																			expr: &seqExpr{
-																				pos: position{line: 748, col: 5, offset: 23861},
+																				pos: position{line: 748, col: 5, offset: 23929},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 748, col: 5, offset: 23861},
+																						pos:   position{line: 748, col: 5, offset: 23929},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 748, col: 16, offset: 23872},
+																							pos: position{line: 748, col: 16, offset: 23940},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &seqExpr{
-																								pos: position{line: 748, col: 16, offset: 23872},
+																								pos: position{line: 748, col: 16, offset: 23940},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 748, col: 16, offset: 23872},
+																										pos:        position{line: 748, col: 16, offset: 23940},
 																										val:        "====",
 																										ignoreCase: false,
 																										want:       "\"====\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 748, col: 23, offset: 23879},
+																										pos: position{line: 748, col: 23, offset: 23947},
 																										expr: &litMatcher{
-																											pos:        position{line: 748, col: 23, offset: 23879},
+																											pos:        position{line: 748, col: 23, offset: 23947},
 																											val:        "=",
 																											ignoreCase: false,
 																											want:       "\"=\"",
@@ -38474,12 +38972,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 750, col: 8, offset: 23963},
+																						pos: position{line: 750, col: 8, offset: 24031},
 																						expr: &actionExpr{
-																							pos: position{line: 2901, col: 10, offset: 91483},
+																							pos: position{line: 2902, col: 10, offset: 91633},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2901, col: 10, offset: 91483},
+																								pos:        position{line: 2902, col: 10, offset: 91633},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38488,28 +38986,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2923, col: 8, offset: 91881},
+																						pos: position{line: 2924, col: 8, offset: 92031},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2910, col: 12, offset: 91654},
+																								pos: position{line: 2911, col: 12, offset: 91804},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2910, col: 13, offset: 91655},
+																									pos: position{line: 2911, col: 13, offset: 91805},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 13, offset: 91655},
+																											pos:        position{line: 2911, col: 13, offset: 91805},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 20, offset: 91662},
+																											pos:        position{line: 2911, col: 20, offset: 91812},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 29, offset: 91671},
+																											pos:        position{line: 2911, col: 29, offset: 91821},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38518,9 +39016,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 8, offset: 91831},
+																								pos: position{line: 2921, col: 8, offset: 91981},
 																								expr: &anyMatcher{
-																									line: 2920, col: 9, offset: 91832,
+																									line: 2921, col: 9, offset: 91982,
 																								},
 																							},
 																						},
@@ -38529,27 +39027,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 761, col: 26, offset: 24349},
+																			pos: position{line: 761, col: 26, offset: 24417},
 																			run: (*parser).callonShortcutParagraph120,
 																			expr: &seqExpr{
-																				pos: position{line: 761, col: 26, offset: 24349},
+																				pos: position{line: 761, col: 26, offset: 24417},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 761, col: 26, offset: 24349},
+																						pos:        position{line: 761, col: 26, offset: 24417},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 761, col: 32, offset: 24355},
+																						pos:   position{line: 761, col: 32, offset: 24423},
 																						label: "language",
 																						expr: &actionExpr{
-																							pos: position{line: 765, col: 13, offset: 24485},
+																							pos: position{line: 765, col: 13, offset: 24553},
 																							run: (*parser).callonShortcutParagraph124,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 765, col: 14, offset: 24486},
+																								pos: position{line: 765, col: 14, offset: 24554},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 765, col: 14, offset: 24486},
+																									pos:        position{line: 765, col: 14, offset: 24554},
 																									val:        "[^\\r\\n` ]",
 																									chars:      []rune{'\r', '\n', '`', ' '},
 																									ignoreCase: false,
@@ -38559,12 +39057,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 761, col: 52, offset: 24375},
+																						pos: position{line: 761, col: 52, offset: 24443},
 																						expr: &actionExpr{
-																							pos: position{line: 2901, col: 10, offset: 91483},
+																							pos: position{line: 2902, col: 10, offset: 91633},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2901, col: 10, offset: 91483},
+																								pos:        position{line: 2902, col: 10, offset: 91633},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38573,28 +39071,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2923, col: 8, offset: 91881},
+																						pos: position{line: 2924, col: 8, offset: 92031},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2910, col: 12, offset: 91654},
+																								pos: position{line: 2911, col: 12, offset: 91804},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2910, col: 13, offset: 91655},
+																									pos: position{line: 2911, col: 13, offset: 91805},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 13, offset: 91655},
+																											pos:        position{line: 2911, col: 13, offset: 91805},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 20, offset: 91662},
+																											pos:        position{line: 2911, col: 20, offset: 91812},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 29, offset: 91671},
+																											pos:        position{line: 2911, col: 29, offset: 91821},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38603,9 +39101,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 8, offset: 91831},
+																								pos: position{line: 2921, col: 8, offset: 91981},
 																								expr: &anyMatcher{
-																									line: 2920, col: 9, offset: 91832,
+																									line: 2921, col: 9, offset: 91982,
 																								},
 																							},
 																						},
@@ -38614,30 +39112,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 755, col: 5, offset: 24108},
+																			pos: position{line: 755, col: 5, offset: 24176},
 																			run: (*parser).callonShortcutParagraph138,
 																			expr: &seqExpr{
-																				pos: position{line: 755, col: 5, offset: 24108},
+																				pos: position{line: 755, col: 5, offset: 24176},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 755, col: 5, offset: 24108},
+																						pos:   position{line: 755, col: 5, offset: 24176},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 755, col: 16, offset: 24119},
+																							pos: position{line: 755, col: 16, offset: 24187},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &seqExpr{
-																								pos: position{line: 755, col: 16, offset: 24119},
+																								pos: position{line: 755, col: 16, offset: 24187},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 755, col: 16, offset: 24119},
+																										pos:        position{line: 755, col: 16, offset: 24187},
 																										val:        "```",
 																										ignoreCase: false,
 																										want:       "\"```\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 755, col: 22, offset: 24125},
+																										pos: position{line: 755, col: 22, offset: 24193},
 																										expr: &litMatcher{
-																											pos:        position{line: 755, col: 22, offset: 24125},
+																											pos:        position{line: 755, col: 22, offset: 24193},
 																											val:        "`",
 																											ignoreCase: false,
 																											want:       "\"`\"",
@@ -38648,12 +39146,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 757, col: 8, offset: 24209},
+																						pos: position{line: 757, col: 8, offset: 24277},
 																						expr: &actionExpr{
-																							pos: position{line: 2901, col: 10, offset: 91483},
+																							pos: position{line: 2902, col: 10, offset: 91633},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2901, col: 10, offset: 91483},
+																								pos:        position{line: 2902, col: 10, offset: 91633},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38662,28 +39160,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2923, col: 8, offset: 91881},
+																						pos: position{line: 2924, col: 8, offset: 92031},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2910, col: 12, offset: 91654},
+																								pos: position{line: 2911, col: 12, offset: 91804},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2910, col: 13, offset: 91655},
+																									pos: position{line: 2911, col: 13, offset: 91805},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 13, offset: 91655},
+																											pos:        position{line: 2911, col: 13, offset: 91805},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 20, offset: 91662},
+																											pos:        position{line: 2911, col: 20, offset: 91812},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 29, offset: 91671},
+																											pos:        position{line: 2911, col: 29, offset: 91821},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38692,9 +39190,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 8, offset: 91831},
+																								pos: position{line: 2921, col: 8, offset: 91981},
 																								expr: &anyMatcher{
-																									line: 2920, col: 9, offset: 91832,
+																									line: 2921, col: 9, offset: 91982,
 																								},
 																							},
 																						},
@@ -38703,30 +39201,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 770, col: 5, offset: 24645},
+																			pos: position{line: 770, col: 5, offset: 24713},
 																			run: (*parser).callonShortcutParagraph157,
 																			expr: &seqExpr{
-																				pos: position{line: 770, col: 5, offset: 24645},
+																				pos: position{line: 770, col: 5, offset: 24713},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 770, col: 5, offset: 24645},
+																						pos:   position{line: 770, col: 5, offset: 24713},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 770, col: 16, offset: 24656},
+																							pos: position{line: 770, col: 16, offset: 24724},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &seqExpr{
-																								pos: position{line: 770, col: 16, offset: 24656},
+																								pos: position{line: 770, col: 16, offset: 24724},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 770, col: 16, offset: 24656},
+																										pos:        position{line: 770, col: 16, offset: 24724},
 																										val:        "----",
 																										ignoreCase: false,
 																										want:       "\"----\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 770, col: 23, offset: 24663},
+																										pos: position{line: 770, col: 23, offset: 24731},
 																										expr: &litMatcher{
-																											pos:        position{line: 770, col: 23, offset: 24663},
+																											pos:        position{line: 770, col: 23, offset: 24731},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
@@ -38737,12 +39235,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 772, col: 8, offset: 24747},
+																						pos: position{line: 772, col: 8, offset: 24815},
 																						expr: &actionExpr{
-																							pos: position{line: 2901, col: 10, offset: 91483},
+																							pos: position{line: 2902, col: 10, offset: 91633},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2901, col: 10, offset: 91483},
+																								pos:        position{line: 2902, col: 10, offset: 91633},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38751,28 +39249,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2923, col: 8, offset: 91881},
+																						pos: position{line: 2924, col: 8, offset: 92031},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2910, col: 12, offset: 91654},
+																								pos: position{line: 2911, col: 12, offset: 91804},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2910, col: 13, offset: 91655},
+																									pos: position{line: 2911, col: 13, offset: 91805},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 13, offset: 91655},
+																											pos:        position{line: 2911, col: 13, offset: 91805},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 20, offset: 91662},
+																											pos:        position{line: 2911, col: 20, offset: 91812},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 29, offset: 91671},
+																											pos:        position{line: 2911, col: 29, offset: 91821},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38781,9 +39279,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 8, offset: 91831},
+																								pos: position{line: 2921, col: 8, offset: 91981},
 																								expr: &anyMatcher{
-																									line: 2920, col: 9, offset: 91832,
+																									line: 2921, col: 9, offset: 91982,
 																								},
 																							},
 																						},
@@ -38792,30 +39290,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 784, col: 5, offset: 25121},
+																			pos: position{line: 784, col: 5, offset: 25189},
 																			run: (*parser).callonShortcutParagraph176,
 																			expr: &seqExpr{
-																				pos: position{line: 784, col: 5, offset: 25121},
+																				pos: position{line: 784, col: 5, offset: 25189},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 784, col: 5, offset: 25121},
+																						pos:   position{line: 784, col: 5, offset: 25189},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 784, col: 16, offset: 25132},
+																							pos: position{line: 784, col: 16, offset: 25200},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &seqExpr{
-																								pos: position{line: 784, col: 16, offset: 25132},
+																								pos: position{line: 784, col: 16, offset: 25200},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 784, col: 16, offset: 25132},
+																										pos:        position{line: 784, col: 16, offset: 25200},
 																										val:        "....",
 																										ignoreCase: false,
 																										want:       "\"....\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 784, col: 23, offset: 25139},
+																										pos: position{line: 784, col: 23, offset: 25207},
 																										expr: &litMatcher{
-																											pos:        position{line: 784, col: 23, offset: 25139},
+																											pos:        position{line: 784, col: 23, offset: 25207},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38826,12 +39324,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 786, col: 8, offset: 25223},
+																						pos: position{line: 786, col: 8, offset: 25291},
 																						expr: &actionExpr{
-																							pos: position{line: 2901, col: 10, offset: 91483},
+																							pos: position{line: 2902, col: 10, offset: 91633},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2901, col: 10, offset: 91483},
+																								pos:        position{line: 2902, col: 10, offset: 91633},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38840,28 +39338,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2923, col: 8, offset: 91881},
+																						pos: position{line: 2924, col: 8, offset: 92031},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2910, col: 12, offset: 91654},
+																								pos: position{line: 2911, col: 12, offset: 91804},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2910, col: 13, offset: 91655},
+																									pos: position{line: 2911, col: 13, offset: 91805},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 13, offset: 91655},
+																											pos:        position{line: 2911, col: 13, offset: 91805},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 20, offset: 91662},
+																											pos:        position{line: 2911, col: 20, offset: 91812},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 29, offset: 91671},
+																											pos:        position{line: 2911, col: 29, offset: 91821},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38870,9 +39368,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 8, offset: 91831},
+																								pos: position{line: 2921, col: 8, offset: 91981},
 																								expr: &anyMatcher{
-																									line: 2920, col: 9, offset: 91832,
+																									line: 2921, col: 9, offset: 91982,
 																								},
 																							},
 																						},
@@ -38881,30 +39379,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 791, col: 5, offset: 25373},
+																			pos: position{line: 791, col: 5, offset: 25441},
 																			run: (*parser).callonShortcutParagraph195,
 																			expr: &seqExpr{
-																				pos: position{line: 791, col: 5, offset: 25373},
+																				pos: position{line: 791, col: 5, offset: 25441},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 791, col: 5, offset: 25373},
+																						pos:   position{line: 791, col: 5, offset: 25441},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 791, col: 16, offset: 25384},
+																							pos: position{line: 791, col: 16, offset: 25452},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &seqExpr{
-																								pos: position{line: 791, col: 16, offset: 25384},
+																								pos: position{line: 791, col: 16, offset: 25452},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 791, col: 16, offset: 25384},
+																										pos:        position{line: 791, col: 16, offset: 25452},
 																										val:        "++++",
 																										ignoreCase: false,
 																										want:       "\"++++\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 791, col: 23, offset: 25391},
+																										pos: position{line: 791, col: 23, offset: 25459},
 																										expr: &litMatcher{
-																											pos:        position{line: 791, col: 23, offset: 25391},
+																											pos:        position{line: 791, col: 23, offset: 25459},
 																											val:        "+",
 																											ignoreCase: false,
 																											want:       "\"+\"",
@@ -38915,12 +39413,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 793, col: 8, offset: 25475},
+																						pos: position{line: 793, col: 8, offset: 25543},
 																						expr: &actionExpr{
-																							pos: position{line: 2901, col: 10, offset: 91483},
+																							pos: position{line: 2902, col: 10, offset: 91633},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2901, col: 10, offset: 91483},
+																								pos:        position{line: 2902, col: 10, offset: 91633},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38929,28 +39427,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2923, col: 8, offset: 91881},
+																						pos: position{line: 2924, col: 8, offset: 92031},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2910, col: 12, offset: 91654},
+																								pos: position{line: 2911, col: 12, offset: 91804},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2910, col: 13, offset: 91655},
+																									pos: position{line: 2911, col: 13, offset: 91805},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 13, offset: 91655},
+																											pos:        position{line: 2911, col: 13, offset: 91805},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 20, offset: 91662},
+																											pos:        position{line: 2911, col: 20, offset: 91812},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 29, offset: 91671},
+																											pos:        position{line: 2911, col: 29, offset: 91821},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38959,9 +39457,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 8, offset: 91831},
+																								pos: position{line: 2921, col: 8, offset: 91981},
 																								expr: &anyMatcher{
-																									line: 2920, col: 9, offset: 91832,
+																									line: 2921, col: 9, offset: 91982,
 																								},
 																							},
 																						},
@@ -38970,30 +39468,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 798, col: 5, offset: 25623},
+																			pos: position{line: 798, col: 5, offset: 25691},
 																			run: (*parser).callonShortcutParagraph214,
 																			expr: &seqExpr{
-																				pos: position{line: 798, col: 5, offset: 25623},
+																				pos: position{line: 798, col: 5, offset: 25691},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 798, col: 5, offset: 25623},
+																						pos:   position{line: 798, col: 5, offset: 25691},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 798, col: 16, offset: 25634},
+																							pos: position{line: 798, col: 16, offset: 25702},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &seqExpr{
-																								pos: position{line: 798, col: 16, offset: 25634},
+																								pos: position{line: 798, col: 16, offset: 25702},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 798, col: 16, offset: 25634},
+																										pos:        position{line: 798, col: 16, offset: 25702},
 																										val:        "____",
 																										ignoreCase: false,
 																										want:       "\"____\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 798, col: 23, offset: 25641},
+																										pos: position{line: 798, col: 23, offset: 25709},
 																										expr: &litMatcher{
-																											pos:        position{line: 798, col: 23, offset: 25641},
+																											pos:        position{line: 798, col: 23, offset: 25709},
 																											val:        "_",
 																											ignoreCase: false,
 																											want:       "\"_\"",
@@ -39004,12 +39502,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 800, col: 8, offset: 25725},
+																						pos: position{line: 800, col: 8, offset: 25793},
 																						expr: &actionExpr{
-																							pos: position{line: 2901, col: 10, offset: 91483},
+																							pos: position{line: 2902, col: 10, offset: 91633},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2901, col: 10, offset: 91483},
+																								pos:        position{line: 2902, col: 10, offset: 91633},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39018,28 +39516,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2923, col: 8, offset: 91881},
+																						pos: position{line: 2924, col: 8, offset: 92031},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2910, col: 12, offset: 91654},
+																								pos: position{line: 2911, col: 12, offset: 91804},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2910, col: 13, offset: 91655},
+																									pos: position{line: 2911, col: 13, offset: 91805},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 13, offset: 91655},
+																											pos:        position{line: 2911, col: 13, offset: 91805},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 20, offset: 91662},
+																											pos:        position{line: 2911, col: 20, offset: 91812},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 29, offset: 91671},
+																											pos:        position{line: 2911, col: 29, offset: 91821},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39048,9 +39546,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 8, offset: 91831},
+																								pos: position{line: 2921, col: 8, offset: 91981},
 																								expr: &anyMatcher{
-																									line: 2920, col: 9, offset: 91832,
+																									line: 2921, col: 9, offset: 91982,
 																								},
 																							},
 																						},
@@ -39059,30 +39557,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 805, col: 5, offset: 25869},
+																			pos: position{line: 805, col: 5, offset: 25937},
 																			run: (*parser).callonShortcutParagraph233,
 																			expr: &seqExpr{
-																				pos: position{line: 805, col: 5, offset: 25869},
+																				pos: position{line: 805, col: 5, offset: 25937},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 805, col: 5, offset: 25869},
+																						pos:   position{line: 805, col: 5, offset: 25937},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 805, col: 16, offset: 25880},
+																							pos: position{line: 805, col: 16, offset: 25948},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &seqExpr{
-																								pos: position{line: 805, col: 16, offset: 25880},
+																								pos: position{line: 805, col: 16, offset: 25948},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 805, col: 16, offset: 25880},
+																										pos:        position{line: 805, col: 16, offset: 25948},
 																										val:        "****",
 																										ignoreCase: false,
 																										want:       "\"****\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 805, col: 23, offset: 25887},
+																										pos: position{line: 805, col: 23, offset: 25955},
 																										expr: &litMatcher{
-																											pos:        position{line: 805, col: 23, offset: 25887},
+																											pos:        position{line: 805, col: 23, offset: 25955},
 																											val:        "*",
 																											ignoreCase: false,
 																											want:       "\"*\"",
@@ -39093,12 +39591,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 807, col: 8, offset: 25971},
+																						pos: position{line: 807, col: 8, offset: 26039},
 																						expr: &actionExpr{
-																							pos: position{line: 2901, col: 10, offset: 91483},
+																							pos: position{line: 2902, col: 10, offset: 91633},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2901, col: 10, offset: 91483},
+																								pos:        position{line: 2902, col: 10, offset: 91633},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39107,28 +39605,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2923, col: 8, offset: 91881},
+																						pos: position{line: 2924, col: 8, offset: 92031},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2910, col: 12, offset: 91654},
+																								pos: position{line: 2911, col: 12, offset: 91804},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2910, col: 13, offset: 91655},
+																									pos: position{line: 2911, col: 13, offset: 91805},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 13, offset: 91655},
+																											pos:        position{line: 2911, col: 13, offset: 91805},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 20, offset: 91662},
+																											pos:        position{line: 2911, col: 20, offset: 91812},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2910, col: 29, offset: 91671},
+																											pos:        position{line: 2911, col: 29, offset: 91821},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39137,9 +39635,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 8, offset: 91831},
+																								pos: position{line: 2921, col: 8, offset: 91981},
 																								expr: &anyMatcher{
-																									line: 2920, col: 9, offset: 91832,
+																									line: 2921, col: 9, offset: 91982,
 																								},
 																							},
 																						},
@@ -39155,23 +39653,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1767, col: 9, offset: 57112},
+												pos: position{line: 1768, col: 9, offset: 57214},
 												expr: &seqExpr{
-													pos: position{line: 1542, col: 27, offset: 49781},
+													pos: position{line: 1543, col: 27, offset: 49883},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1542, col: 27, offset: 49781},
+															pos:        position{line: 1543, col: 27, offset: 49883},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1542, col: 31, offset: 49785},
+															pos: position{line: 1543, col: 31, offset: 49887},
 															expr: &actionExpr{
-																pos: position{line: 2901, col: 10, offset: 91483},
+																pos: position{line: 2902, col: 10, offset: 91633},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2901, col: 10, offset: 91483},
+																	pos:        position{line: 2902, col: 10, offset: 91633},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39180,25 +39678,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2910, col: 12, offset: 91654},
+															pos: position{line: 2911, col: 12, offset: 91804},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2910, col: 13, offset: 91655},
+																pos: position{line: 2911, col: 13, offset: 91805},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 13, offset: 91655},
+																		pos:        position{line: 2911, col: 13, offset: 91805},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 20, offset: 91662},
+																		pos:        position{line: 2911, col: 20, offset: 91812},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 29, offset: 91671},
+																		pos:        position{line: 2911, col: 29, offset: 91821},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -39210,42 +39708,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1768, col: 9, offset: 57144},
+												pos:   position{line: 1769, col: 9, offset: 57246},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1768, col: 15, offset: 57150},
+													pos: position{line: 1769, col: 15, offset: 57252},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2511, col: 22, offset: 80468},
+															pos: position{line: 2512, col: 22, offset: 80570},
 															run: (*parser).callonShortcutParagraph265,
 															expr: &seqExpr{
-																pos: position{line: 2511, col: 22, offset: 80468},
+																pos: position{line: 2512, col: 22, offset: 80570},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2516, col: 31, offset: 80689},
+																		pos:        position{line: 2517, col: 31, offset: 80820},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2516, col: 36, offset: 80694},
+																		pos: position{line: 2517, col: 36, offset: 80825},
 																		expr: &litMatcher{
-																			pos:        position{line: 2516, col: 37, offset: 80695},
-																			val:        "//",
+																			pos:        position{line: 2517, col: 37, offset: 80826},
+																			val:        "/",
 																			ignoreCase: false,
-																			want:       "\"//\"",
+																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2511, col: 49, offset: 80495},
+																		pos:   position{line: 2512, col: 49, offset: 80597},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2847, col: 13, offset: 90009},
+																			pos: position{line: 2848, col: 13, offset: 90159},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2847, col: 13, offset: 90009},
+																				pos: position{line: 2848, col: 13, offset: 90159},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2847, col: 13, offset: 90009},
+																					pos:        position{line: 2848, col: 13, offset: 90159},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39255,28 +39753,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2923, col: 8, offset: 91881},
+																		pos: position{line: 2924, col: 8, offset: 92031},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2910, col: 12, offset: 91654},
+																				pos: position{line: 2911, col: 12, offset: 91804},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2910, col: 13, offset: 91655},
+																					pos: position{line: 2911, col: 13, offset: 91805},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 13, offset: 91655},
+																							pos:        position{line: 2911, col: 13, offset: 91805},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 20, offset: 91662},
+																							pos:        position{line: 2911, col: 20, offset: 91812},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 29, offset: 91671},
+																							pos:        position{line: 2911, col: 29, offset: 91821},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39285,9 +39783,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2920, col: 8, offset: 91831},
+																				pos: position{line: 2921, col: 8, offset: 91981},
 																				expr: &anyMatcher{
-																					line: 2920, col: 9, offset: 91832,
+																					line: 2921, col: 9, offset: 91982,
 																				},
 																			},
 																		},
@@ -39296,21 +39794,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1790, col: 5, offset: 57750},
+															pos: position{line: 1791, col: 5, offset: 57852},
 															run: (*parser).callonShortcutParagraph282,
 															expr: &seqExpr{
-																pos: position{line: 1790, col: 5, offset: 57750},
+																pos: position{line: 1791, col: 5, offset: 57852},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1790, col: 5, offset: 57750},
+																		pos:   position{line: 1791, col: 5, offset: 57852},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2851, col: 14, offset: 90076},
+																			pos: position{line: 2852, col: 14, offset: 90226},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2851, col: 14, offset: 90076},
+																				pos: position{line: 2852, col: 14, offset: 90226},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2851, col: 14, offset: 90076},
+																					pos:        position{line: 2852, col: 14, offset: 90226},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39320,32 +39818,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1791, col: 5, offset: 57774},
+																		pos: position{line: 1792, col: 5, offset: 57876},
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2923, col: 8, offset: 91881},
+																		pos: position{line: 2924, col: 8, offset: 92031},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2910, col: 12, offset: 91654},
+																				pos: position{line: 2911, col: 12, offset: 91804},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2910, col: 13, offset: 91655},
+																					pos: position{line: 2911, col: 13, offset: 91805},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 13, offset: 91655},
+																							pos:        position{line: 2911, col: 13, offset: 91805},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 20, offset: 91662},
+																							pos:        position{line: 2911, col: 20, offset: 91812},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 29, offset: 91671},
+																							pos:        position{line: 2911, col: 29, offset: 91821},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39354,9 +39852,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2920, col: 8, offset: 91831},
+																				pos: position{line: 2921, col: 8, offset: 91981},
 																				expr: &anyMatcher{
-																					line: 2920, col: 9, offset: 91832,
+																					line: 2921, col: 9, offset: 91982,
 																				},
 																			},
 																		},
@@ -39378,96 +39876,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1775, col: 1, offset: 57354},
+			pos:  position{line: 1776, col: 1, offset: 57456},
 			expr: &actionExpr{
-				pos: position{line: 1776, col: 5, offset: 57372},
+				pos: position{line: 1777, col: 5, offset: 57474},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1776, col: 5, offset: 57372},
+					pos: position{line: 1777, col: 5, offset: 57474},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1776, col: 5, offset: 57372},
+							pos:   position{line: 1777, col: 5, offset: 57474},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1776, col: 11, offset: 57378},
+								pos: position{line: 1777, col: 11, offset: 57480},
 								expr: &actionExpr{
-									pos: position{line: 1731, col: 5, offset: 55884},
+									pos: position{line: 1732, col: 5, offset: 55986},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1731, col: 5, offset: 55884},
+										pos: position{line: 1732, col: 5, offset: 55986},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1731, col: 5, offset: 55884},
+												pos: position{line: 1732, col: 5, offset: 55986},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1734, col: 5, offset: 55947},
+												pos:   position{line: 1735, col: 5, offset: 56049},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1734, col: 12, offset: 55954},
+													pos: position{line: 1735, col: 12, offset: 56056},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1734, col: 12, offset: 55954},
+															pos: position{line: 1735, col: 12, offset: 56056},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1734, col: 12, offset: 55954},
+																pos:        position{line: 1735, col: 12, offset: 56056},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1736, col: 13, offset: 56010},
+															pos: position{line: 1737, col: 13, offset: 56112},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1736, col: 13, offset: 56010},
+																pos:        position{line: 1737, col: 13, offset: 56112},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1738, col: 13, offset: 56068},
+															pos: position{line: 1739, col: 13, offset: 56170},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1738, col: 13, offset: 56068},
+																pos:        position{line: 1739, col: 13, offset: 56170},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1740, col: 13, offset: 56136},
+															pos: position{line: 1741, col: 13, offset: 56238},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1740, col: 13, offset: 56136},
+																pos:        position{line: 1741, col: 13, offset: 56238},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1742, col: 13, offset: 56200},
+															pos: position{line: 1743, col: 13, offset: 56302},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1742, col: 13, offset: 56200},
+																pos:        position{line: 1743, col: 13, offset: 56302},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1744, col: 13, offset: 56264},
+															pos: position{line: 1745, col: 13, offset: 56366},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1744, col: 13, offset: 56264},
+																pos: position{line: 1745, col: 13, offset: 56366},
 																expr: &actionExpr{
-																	pos: position{line: 2905, col: 11, offset: 91544},
+																	pos: position{line: 2906, col: 11, offset: 91694},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2905, col: 11, offset: 91544},
+																		pos: position{line: 2906, col: 11, offset: 91694},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 11, offset: 91544},
+																			pos:        position{line: 2906, col: 11, offset: 91694},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39486,24 +39984,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1777, col: 5, offset: 57401},
+							pos:   position{line: 1778, col: 5, offset: 57503},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1790, col: 5, offset: 57750},
+								pos: position{line: 1791, col: 5, offset: 57852},
 								run: (*parser).callonParagraph26,
 								expr: &seqExpr{
-									pos: position{line: 1790, col: 5, offset: 57750},
+									pos: position{line: 1791, col: 5, offset: 57852},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1790, col: 5, offset: 57750},
+											pos:   position{line: 1791, col: 5, offset: 57852},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2851, col: 14, offset: 90076},
+												pos: position{line: 2852, col: 14, offset: 90226},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2851, col: 14, offset: 90076},
+													pos: position{line: 2852, col: 14, offset: 90226},
 													expr: &charClassMatcher{
-														pos:        position{line: 2851, col: 14, offset: 90076},
+														pos:        position{line: 2852, col: 14, offset: 90226},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39513,32 +40011,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1791, col: 5, offset: 57774},
+											pos: position{line: 1792, col: 5, offset: 57876},
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2923, col: 8, offset: 91881},
+											pos: position{line: 2924, col: 8, offset: 92031},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2910, col: 12, offset: 91654},
+													pos: position{line: 2911, col: 12, offset: 91804},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2910, col: 13, offset: 91655},
+														pos: position{line: 2911, col: 13, offset: 91805},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2910, col: 13, offset: 91655},
+																pos:        position{line: 2911, col: 13, offset: 91805},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2910, col: 20, offset: 91662},
+																pos:        position{line: 2911, col: 20, offset: 91812},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2910, col: 29, offset: 91671},
+																pos:        position{line: 2911, col: 29, offset: 91821},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39547,9 +40045,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2920, col: 8, offset: 91831},
+													pos: position{line: 2921, col: 8, offset: 91981},
 													expr: &anyMatcher{
-														line: 2920, col: 9, offset: 91832,
+														line: 2921, col: 9, offset: 91982,
 													},
 												},
 											},
@@ -39559,43 +40057,43 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1778, col: 5, offset: 57435},
+							pos:   position{line: 1779, col: 5, offset: 57537},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1778, col: 16, offset: 57446},
+								pos: position{line: 1779, col: 16, offset: 57548},
 								expr: &actionExpr{
-									pos: position{line: 1779, col: 9, offset: 57456},
+									pos: position{line: 1780, col: 9, offset: 57558},
 									run: (*parser).callonParagraph43,
 									expr: &seqExpr{
-										pos: position{line: 1779, col: 9, offset: 57456},
+										pos: position{line: 1780, col: 9, offset: 57558},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2918, col: 11, offset: 91817},
+												pos: position{line: 2919, col: 11, offset: 91967},
 												expr: &anyMatcher{
-													line: 2918, col: 13, offset: 91819,
+													line: 2919, col: 13, offset: 91969,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1780, col: 9, offset: 57471},
+												pos: position{line: 1781, col: 9, offset: 57573},
 												expr: &actionExpr{
-													pos: position{line: 678, col: 14, offset: 21518},
+													pos: position{line: 678, col: 14, offset: 21586},
 													run: (*parser).callonParagraph48,
 													expr: &seqExpr{
-														pos: position{line: 678, col: 14, offset: 21518},
+														pos: position{line: 678, col: 14, offset: 21586},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2918, col: 11, offset: 91817},
+																pos: position{line: 2919, col: 11, offset: 91967},
 																expr: &anyMatcher{
-																	line: 2918, col: 13, offset: 91819,
+																	line: 2919, col: 13, offset: 91969,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 678, col: 21, offset: 21525},
+																pos: position{line: 678, col: 21, offset: 21593},
 																expr: &actionExpr{
-																	pos: position{line: 2901, col: 10, offset: 91483},
+																	pos: position{line: 2902, col: 10, offset: 91633},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2901, col: 10, offset: 91483},
+																		pos:        position{line: 2902, col: 10, offset: 91633},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39604,28 +40102,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2923, col: 8, offset: 91881},
+																pos: position{line: 2924, col: 8, offset: 92031},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2910, col: 12, offset: 91654},
+																		pos: position{line: 2911, col: 12, offset: 91804},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2910, col: 13, offset: 91655},
+																			pos: position{line: 2911, col: 13, offset: 91805},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2910, col: 13, offset: 91655},
+																					pos:        position{line: 2911, col: 13, offset: 91805},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2910, col: 20, offset: 91662},
+																					pos:        position{line: 2911, col: 20, offset: 91812},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2910, col: 29, offset: 91671},
+																					pos:        position{line: 2911, col: 29, offset: 91821},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39634,9 +40132,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2920, col: 8, offset: 91831},
+																		pos: position{line: 2921, col: 8, offset: 91981},
 																		expr: &anyMatcher{
-																			line: 2920, col: 9, offset: 91832,
+																			line: 2921, col: 9, offset: 91982,
 																		},
 																	},
 																},
@@ -39646,49 +40144,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1781, col: 9, offset: 57490},
+												pos: position{line: 1782, col: 9, offset: 57592},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1781, col: 10, offset: 57491},
+													pos:  position{line: 1782, col: 10, offset: 57593},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1782, col: 9, offset: 57515},
+												pos:   position{line: 1783, col: 9, offset: 57617},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1782, col: 15, offset: 57521},
+													pos: position{line: 1783, col: 15, offset: 57623},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2511, col: 22, offset: 80468},
+															pos: position{line: 2512, col: 22, offset: 80570},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 2511, col: 22, offset: 80468},
+																pos: position{line: 2512, col: 22, offset: 80570},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2516, col: 31, offset: 80689},
+																		pos:        position{line: 2517, col: 31, offset: 80820},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2516, col: 36, offset: 80694},
+																		pos: position{line: 2517, col: 36, offset: 80825},
 																		expr: &litMatcher{
-																			pos:        position{line: 2516, col: 37, offset: 80695},
-																			val:        "//",
+																			pos:        position{line: 2517, col: 37, offset: 80826},
+																			val:        "/",
 																			ignoreCase: false,
-																			want:       "\"//\"",
+																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2511, col: 49, offset: 80495},
+																		pos:   position{line: 2512, col: 49, offset: 80597},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2847, col: 13, offset: 90009},
+																			pos: position{line: 2848, col: 13, offset: 90159},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2847, col: 13, offset: 90009},
+																				pos: position{line: 2848, col: 13, offset: 90159},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2847, col: 13, offset: 90009},
+																					pos:        position{line: 2848, col: 13, offset: 90159},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39698,28 +40196,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2923, col: 8, offset: 91881},
+																		pos: position{line: 2924, col: 8, offset: 92031},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2910, col: 12, offset: 91654},
+																				pos: position{line: 2911, col: 12, offset: 91804},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2910, col: 13, offset: 91655},
+																					pos: position{line: 2911, col: 13, offset: 91805},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 13, offset: 91655},
+																							pos:        position{line: 2911, col: 13, offset: 91805},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 20, offset: 91662},
+																							pos:        position{line: 2911, col: 20, offset: 91812},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 29, offset: 91671},
+																							pos:        position{line: 2911, col: 29, offset: 91821},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39728,9 +40226,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2920, col: 8, offset: 91831},
+																				pos: position{line: 2921, col: 8, offset: 91981},
 																				expr: &anyMatcher{
-																					line: 2920, col: 9, offset: 91832,
+																					line: 2921, col: 9, offset: 91982,
 																				},
 																			},
 																		},
@@ -39739,21 +40237,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1790, col: 5, offset: 57750},
+															pos: position{line: 1791, col: 5, offset: 57852},
 															run: (*parser).callonParagraph84,
 															expr: &seqExpr{
-																pos: position{line: 1790, col: 5, offset: 57750},
+																pos: position{line: 1791, col: 5, offset: 57852},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1790, col: 5, offset: 57750},
+																		pos:   position{line: 1791, col: 5, offset: 57852},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2851, col: 14, offset: 90076},
+																			pos: position{line: 2852, col: 14, offset: 90226},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2851, col: 14, offset: 90076},
+																				pos: position{line: 2852, col: 14, offset: 90226},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2851, col: 14, offset: 90076},
+																					pos:        position{line: 2852, col: 14, offset: 90226},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39763,32 +40261,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1791, col: 5, offset: 57774},
+																		pos: position{line: 1792, col: 5, offset: 57876},
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2923, col: 8, offset: 91881},
+																		pos: position{line: 2924, col: 8, offset: 92031},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2910, col: 12, offset: 91654},
+																				pos: position{line: 2911, col: 12, offset: 91804},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2910, col: 13, offset: 91655},
+																					pos: position{line: 2911, col: 13, offset: 91805},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 13, offset: 91655},
+																							pos:        position{line: 2911, col: 13, offset: 91805},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 20, offset: 91662},
+																							pos:        position{line: 2911, col: 20, offset: 91812},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 29, offset: 91671},
+																							pos:        position{line: 2911, col: 29, offset: 91821},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39797,9 +40295,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2920, col: 8, offset: 91831},
+																				pos: position{line: 2921, col: 8, offset: 91981},
 																				expr: &anyMatcher{
-																					line: 2920, col: 9, offset: 91832,
+																					line: 2921, col: 9, offset: 91982,
 																				},
 																			},
 																		},
@@ -39821,16 +40319,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1801, col: 1, offset: 58260},
+			pos:  position{line: 1802, col: 1, offset: 58362},
 			expr: &choiceExpr{
-				pos: position{line: 1801, col: 15, offset: 58274},
+				pos: position{line: 1802, col: 15, offset: 58376},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1801, col: 15, offset: 58274},
+						pos:  position{line: 1802, col: 15, offset: 58376},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1801, col: 35, offset: 58294},
+						pos:  position{line: 1802, col: 35, offset: 58396},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -39838,65 +40336,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1803, col: 1, offset: 58315},
+			pos:  position{line: 1804, col: 1, offset: 58417},
 			expr: &actionExpr{
-				pos: position{line: 1804, col: 5, offset: 58340},
+				pos: position{line: 1805, col: 5, offset: 58442},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1804, col: 5, offset: 58340},
+					pos: position{line: 1805, col: 5, offset: 58442},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1804, col: 5, offset: 58340},
+							pos:   position{line: 1805, col: 5, offset: 58442},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1804, col: 16, offset: 58351},
+								pos: position{line: 1805, col: 16, offset: 58453},
 								expr: &actionExpr{
-									pos: position{line: 1804, col: 17, offset: 58352},
+									pos: position{line: 1805, col: 17, offset: 58454},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1804, col: 17, offset: 58352},
+										pos:  position{line: 1805, col: 17, offset: 58454},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1807, col: 5, offset: 58420},
+							pos: position{line: 1808, col: 5, offset: 58522},
 							expr: &litMatcher{
-								pos:        position{line: 1807, col: 7, offset: 58422},
+								pos:        position{line: 1808, col: 7, offset: 58524},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1808, col: 5, offset: 58431},
+							pos:   position{line: 1809, col: 5, offset: 58533},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1809, col: 9, offset: 58449},
+								pos: position{line: 1810, col: 9, offset: 58551},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1809, col: 9, offset: 58449},
+										pos:  position{line: 1810, col: 9, offset: 58551},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1810, col: 11, offset: 58476},
+										pos:  position{line: 1811, col: 11, offset: 58578},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1811, col: 11, offset: 58504},
+										pos:  position{line: 1812, col: 11, offset: 58606},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1812, col: 11, offset: 58535},
+										pos:  position{line: 1813, col: 11, offset: 58637},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1813, col: 11, offset: 58563},
+										pos:  position{line: 1814, col: 11, offset: 58665},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1814, col: 11, offset: 58594},
+										pos:  position{line: 1815, col: 11, offset: 58696},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -39908,36 +40406,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1819, col: 1, offset: 58714},
+			pos:  position{line: 1820, col: 1, offset: 58816},
 			expr: &actionExpr{
-				pos: position{line: 1820, col: 5, offset: 58756},
+				pos: position{line: 1821, col: 5, offset: 58858},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1820, col: 5, offset: 58756},
+					pos: position{line: 1821, col: 5, offset: 58858},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1820, col: 5, offset: 58756},
+							pos:   position{line: 1821, col: 5, offset: 58858},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1820, col: 16, offset: 58767},
+								pos: position{line: 1821, col: 16, offset: 58869},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1820, col: 17, offset: 58768},
+									pos:  position{line: 1821, col: 17, offset: 58870},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1821, col: 5, offset: 58793},
+							pos:   position{line: 1822, col: 5, offset: 58895},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1821, col: 14, offset: 58802},
+								pos: position{line: 1822, col: 14, offset: 58904},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1821, col: 14, offset: 58802},
+										pos:  position{line: 1822, col: 14, offset: 58904},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1821, col: 33, offset: 58821},
+										pos:  position{line: 1822, col: 33, offset: 58923},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -39949,32 +40447,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1829, col: 1, offset: 59052},
+			pos:  position{line: 1830, col: 1, offset: 59154},
 			expr: &choiceExpr{
-				pos: position{line: 1830, col: 5, offset: 59077},
+				pos: position{line: 1831, col: 5, offset: 59179},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1830, col: 5, offset: 59077},
+						pos:  position{line: 1831, col: 5, offset: 59179},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1831, col: 7, offset: 59104},
+						pos:  position{line: 1832, col: 7, offset: 59206},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1832, col: 7, offset: 59132},
+						pos:  position{line: 1833, col: 7, offset: 59234},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1833, col: 7, offset: 59164},
+						pos:  position{line: 1834, col: 7, offset: 59266},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1834, col: 7, offset: 59192},
+						pos:  position{line: 1835, col: 7, offset: 59294},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 7, offset: 59213},
+						pos:  position{line: 1836, col: 7, offset: 59315},
 						name: "SuperscriptText",
 					},
 				},
@@ -39982,24 +40480,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1837, col: 1, offset: 59231},
+			pos:  position{line: 1838, col: 1, offset: 59333},
 			expr: &choiceExpr{
-				pos: position{line: 1838, col: 5, offset: 59256},
+				pos: position{line: 1839, col: 5, offset: 59358},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1838, col: 5, offset: 59256},
+						pos:  position{line: 1839, col: 5, offset: 59358},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1839, col: 7, offset: 59282},
+						pos:  position{line: 1840, col: 7, offset: 59384},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1840, col: 7, offset: 59310},
+						pos:  position{line: 1841, col: 7, offset: 59412},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1841, col: 7, offset: 59341},
+						pos:  position{line: 1842, col: 7, offset: 59443},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -40007,26 +40505,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1855, col: 1, offset: 59695},
+			pos:  position{line: 1856, col: 1, offset: 59797},
 			expr: &choiceExpr{
-				pos: position{line: 1856, col: 5, offset: 59721},
+				pos: position{line: 1857, col: 5, offset: 59823},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2800, col: 5, offset: 88725},
+						pos: position{line: 2801, col: 5, offset: 88875},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2800, col: 5, offset: 88725},
+							pos: position{line: 2801, col: 5, offset: 88875},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2800, col: 5, offset: 88725},
+									pos:   position{line: 2801, col: 5, offset: 88875},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2800, col: 11, offset: 88731},
+										pos: position{line: 2801, col: 11, offset: 88881},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2800, col: 11, offset: 88731},
+											pos: position{line: 2801, col: 11, offset: 88881},
 											expr: &charClassMatcher{
-												pos:        position{line: 2800, col: 11, offset: 88731},
+												pos:        position{line: 2801, col: 11, offset: 88881},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40036,36 +40534,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2803, col: 5, offset: 88789},
+									pos: position{line: 2804, col: 5, offset: 88939},
 									expr: &seqExpr{
-										pos: position{line: 2804, col: 9, offset: 88800},
+										pos: position{line: 2805, col: 9, offset: 88950},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2804, col: 9, offset: 88800},
+												pos:        position{line: 2805, col: 9, offset: 88950},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2805, col: 9, offset: 88849},
+												pos: position{line: 2806, col: 9, offset: 88999},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2809, col: 5, offset: 88929},
+									pos: position{line: 2810, col: 5, offset: 89079},
 									expr: &seqExpr{
-										pos: position{line: 2810, col: 9, offset: 88940},
+										pos: position{line: 2811, col: 9, offset: 89090},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2810, col: 9, offset: 88940},
+												pos:        position{line: 2811, col: 9, offset: 89090},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2810, col: 13, offset: 88944},
+												pos:        position{line: 2811, col: 13, offset: 89094},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40078,12 +40576,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2905, col: 11, offset: 91544},
+						pos: position{line: 2906, col: 11, offset: 91694},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2905, col: 11, offset: 91544},
+							pos: position{line: 2906, col: 11, offset: 91694},
 							expr: &charClassMatcher{
-								pos:        position{line: 2905, col: 11, offset: 91544},
+								pos:        position{line: 2906, col: 11, offset: 91694},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -40092,25 +40590,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1858, col: 7, offset: 59784},
+						pos:  position{line: 1859, col: 7, offset: 59886},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2529, col: 5, offset: 81185},
+						pos: position{line: 2530, col: 5, offset: 81315},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2529, col: 5, offset: 81185},
+							pos: position{line: 2530, col: 5, offset: 81315},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2529, col: 5, offset: 81185},
+									pos:        position{line: 2530, col: 5, offset: 81315},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2529, col: 10, offset: 81190},
+									pos: position{line: 2530, col: 10, offset: 81320},
 									expr: &charClassMatcher{
-										pos:        position{line: 2529, col: 11, offset: 81191},
+										pos:        position{line: 2530, col: 11, offset: 81321},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40121,29 +40619,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2535, col: 5, offset: 81383},
+						pos: position{line: 2536, col: 5, offset: 81513},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2535, col: 5, offset: 81383},
+							pos: position{line: 2536, col: 5, offset: 81513},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2535, col: 5, offset: 81383},
+									pos: position{line: 2536, col: 5, offset: 81513},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2538, col: 5, offset: 81454},
+									pos: position{line: 2539, col: 5, offset: 81584},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2542, col: 5, offset: 81579},
+									pos:        position{line: 2543, col: 5, offset: 81709},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2542, col: 9, offset: 81583},
+									pos: position{line: 2543, col: 9, offset: 81713},
 									expr: &charClassMatcher{
-										pos:        position{line: 2542, col: 10, offset: 81584},
+										pos:        position{line: 2543, col: 10, offset: 81714},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40154,27 +40652,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2818, col: 5, offset: 89137},
+						pos: position{line: 2819, col: 5, offset: 89287},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2819, col: 9, offset: 89147},
+							pos: position{line: 2820, col: 9, offset: 89297},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2819, col: 10, offset: 89148},
+									pos:        position{line: 2820, col: 10, offset: 89298},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2821, col: 13, offset: 89245},
+									pos: position{line: 2822, col: 13, offset: 89395},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2821, col: 13, offset: 89245},
+											pos: position{line: 2822, col: 13, offset: 89395},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2824, col: 13, offset: 89345},
+											pos:        position{line: 2825, col: 13, offset: 89495},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -40182,20 +40680,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2824, col: 19, offset: 89351},
+									pos:        position{line: 2825, col: 19, offset: 89501},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2827, col: 13, offset: 89389},
+									pos: position{line: 2828, col: 13, offset: 89539},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2827, col: 13, offset: 89389},
+											pos: position{line: 2828, col: 13, offset: 89539},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2830, col: 14, offset: 89482},
+											pos:        position{line: 2831, col: 14, offset: 89632},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -40204,18 +40702,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2832, col: 12, offset: 89526},
+									pos: position{line: 2833, col: 12, offset: 89676},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2832, col: 12, offset: 89526},
+											pos:        position{line: 2833, col: 12, offset: 89676},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2832, col: 16, offset: 89530},
+											pos: position{line: 2833, col: 16, offset: 89680},
 											expr: &litMatcher{
-												pos:        position{line: 2832, col: 17, offset: 89531},
+												pos:        position{line: 2833, col: 17, offset: 89681},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -40227,35 +40725,35 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 637, col: 5, offset: 20136},
+						pos: position{line: 637, col: 5, offset: 20204},
 						run: (*parser).callonQuotedTextElement46,
 						expr: &seqExpr{
-							pos: position{line: 637, col: 5, offset: 20136},
+							pos: position{line: 637, col: 5, offset: 20204},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 637, col: 5, offset: 20136},
+									pos: position{line: 637, col: 5, offset: 20204},
 									run: (*parser).callonQuotedTextElement48,
 								},
 								&labeledExpr{
-									pos:   position{line: 640, col: 5, offset: 20208},
+									pos:   position{line: 640, col: 5, offset: 20276},
 									label: "element",
 									expr: &choiceExpr{
-										pos: position{line: 640, col: 14, offset: 20217},
+										pos: position{line: 640, col: 14, offset: 20285},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 646, col: 5, offset: 20346},
+												pos: position{line: 646, col: 5, offset: 20414},
 												run: (*parser).callonQuotedTextElement51,
 												expr: &seqExpr{
-													pos: position{line: 646, col: 5, offset: 20346},
+													pos: position{line: 646, col: 5, offset: 20414},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 646, col: 5, offset: 20346},
+															pos:        position{line: 646, col: 5, offset: 20414},
 															val:        "\\{",
 															ignoreCase: false,
 															want:       "\"\\\\{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 646, col: 13, offset: 20354},
+															pos:   position{line: 646, col: 13, offset: 20422},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
@@ -40287,7 +40785,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 646, col: 32, offset: 20373},
+															pos:        position{line: 646, col: 32, offset: 20441},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -40296,19 +40794,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 653, col: 5, offset: 20614},
+												pos: position{line: 653, col: 5, offset: 20682},
 												run: (*parser).callonQuotedTextElement61,
 												expr: &seqExpr{
-													pos: position{line: 653, col: 5, offset: 20614},
+													pos: position{line: 653, col: 5, offset: 20682},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 653, col: 5, offset: 20614},
+															pos:        position{line: 653, col: 5, offset: 20682},
 															val:        "{",
 															ignoreCase: false,
 															want:       "\"{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 653, col: 9, offset: 20618},
+															pos:   position{line: 653, col: 9, offset: 20686},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
@@ -40340,7 +40838,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 653, col: 28, offset: 20637},
+															pos:        position{line: 653, col: 28, offset: 20705},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -40349,19 +40847,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 659, col: 25, offset: 20818},
+												pos: position{line: 659, col: 25, offset: 20886},
 												run: (*parser).callonQuotedTextElement71,
 												expr: &seqExpr{
-													pos: position{line: 659, col: 25, offset: 20818},
+													pos: position{line: 659, col: 25, offset: 20886},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 659, col: 25, offset: 20818},
+															pos:        position{line: 659, col: 25, offset: 20886},
 															val:        "{counter:",
 															ignoreCase: false,
 															want:       "\"{counter:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 659, col: 37, offset: 20830},
+															pos:   position{line: 659, col: 37, offset: 20898},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
@@ -40393,33 +40891,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 659, col: 56, offset: 20849},
+															pos:   position{line: 659, col: 56, offset: 20917},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 659, col: 62, offset: 20855},
+																pos: position{line: 659, col: 62, offset: 20923},
 																expr: &actionExpr{
-																	pos: position{line: 667, col: 17, offset: 21152},
+																	pos: position{line: 667, col: 17, offset: 21220},
 																	run: (*parser).callonQuotedTextElement82,
 																	expr: &seqExpr{
-																		pos: position{line: 667, col: 17, offset: 21152},
+																		pos: position{line: 667, col: 17, offset: 21220},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 667, col: 17, offset: 21152},
+																				pos:        position{line: 667, col: 17, offset: 21220},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 667, col: 21, offset: 21156},
+																				pos:   position{line: 667, col: 21, offset: 21224},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 667, col: 28, offset: 21163},
+																					pos: position{line: 667, col: 28, offset: 21231},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 667, col: 28, offset: 21163},
+																							pos: position{line: 667, col: 28, offset: 21231},
 																							run: (*parser).callonQuotedTextElement87,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 667, col: 28, offset: 21163},
+																								pos:        position{line: 667, col: 28, offset: 21231},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -40427,12 +40925,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 669, col: 9, offset: 21217},
+																							pos: position{line: 669, col: 9, offset: 21285},
 																							run: (*parser).callonQuotedTextElement89,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 669, col: 9, offset: 21217},
+																								pos: position{line: 669, col: 9, offset: 21285},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 669, col: 9, offset: 21217},
+																									pos:        position{line: 669, col: 9, offset: 21285},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -40449,7 +40947,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 659, col: 78, offset: 20871},
+															pos:        position{line: 659, col: 78, offset: 20939},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -40458,19 +40956,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 663, col: 25, offset: 20989},
+												pos: position{line: 663, col: 25, offset: 21057},
 												run: (*parser).callonQuotedTextElement93,
 												expr: &seqExpr{
-													pos: position{line: 663, col: 25, offset: 20989},
+													pos: position{line: 663, col: 25, offset: 21057},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 663, col: 25, offset: 20989},
+															pos:        position{line: 663, col: 25, offset: 21057},
 															val:        "{counter2:",
 															ignoreCase: false,
 															want:       "\"{counter2:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 663, col: 38, offset: 21002},
+															pos:   position{line: 663, col: 38, offset: 21070},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
@@ -40502,33 +41000,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 663, col: 57, offset: 21021},
+															pos:   position{line: 663, col: 57, offset: 21089},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 663, col: 63, offset: 21027},
+																pos: position{line: 663, col: 63, offset: 21095},
 																expr: &actionExpr{
-																	pos: position{line: 667, col: 17, offset: 21152},
+																	pos: position{line: 667, col: 17, offset: 21220},
 																	run: (*parser).callonQuotedTextElement104,
 																	expr: &seqExpr{
-																		pos: position{line: 667, col: 17, offset: 21152},
+																		pos: position{line: 667, col: 17, offset: 21220},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 667, col: 17, offset: 21152},
+																				pos:        position{line: 667, col: 17, offset: 21220},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 667, col: 21, offset: 21156},
+																				pos:   position{line: 667, col: 21, offset: 21224},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 667, col: 28, offset: 21163},
+																					pos: position{line: 667, col: 28, offset: 21231},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 667, col: 28, offset: 21163},
+																							pos: position{line: 667, col: 28, offset: 21231},
 																							run: (*parser).callonQuotedTextElement109,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 667, col: 28, offset: 21163},
+																								pos:        position{line: 667, col: 28, offset: 21231},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -40536,12 +41034,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 669, col: 9, offset: 21217},
+																							pos: position{line: 669, col: 9, offset: 21285},
 																							run: (*parser).callonQuotedTextElement111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 669, col: 9, offset: 21217},
+																								pos: position{line: 669, col: 9, offset: 21285},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 669, col: 9, offset: 21217},
+																									pos:        position{line: 669, col: 9, offset: 21285},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -40558,7 +41056,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 663, col: 79, offset: 21043},
+															pos:        position{line: 663, col: 79, offset: 21111},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -40573,31 +41071,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2914, col: 18, offset: 91754},
+						pos: position{line: 2915, col: 18, offset: 91904},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2914, col: 18, offset: 91754},
+							pos: position{line: 2915, col: 18, offset: 91904},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2910, col: 12, offset: 91654},
+									pos: position{line: 2911, col: 12, offset: 91804},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2910, col: 13, offset: 91655},
+										pos: position{line: 2911, col: 13, offset: 91805},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2910, col: 13, offset: 91655},
+												pos:        position{line: 2911, col: 13, offset: 91805},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2910, col: 20, offset: 91662},
+												pos:        position{line: 2911, col: 20, offset: 91812},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2910, col: 29, offset: 91671},
+												pos:        position{line: 2911, col: 29, offset: 91821},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -40606,27 +41104,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2914, col: 26, offset: 91762},
+									pos: position{line: 2915, col: 26, offset: 91912},
 									expr: &actionExpr{
-										pos: position{line: 2910, col: 12, offset: 91654},
+										pos: position{line: 2911, col: 12, offset: 91804},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2910, col: 13, offset: 91655},
+											pos: position{line: 2911, col: 13, offset: 91805},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2910, col: 13, offset: 91655},
+													pos:        position{line: 2911, col: 13, offset: 91805},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2910, col: 20, offset: 91662},
+													pos:        position{line: 2911, col: 20, offset: 91812},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2910, col: 29, offset: 91671},
+													pos:        position{line: 2911, col: 29, offset: 91821},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -40639,31 +41137,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1863, col: 7, offset: 59951},
+						pos:  position{line: 1864, col: 7, offset: 60053},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1864, col: 7, offset: 59998},
+						pos:  position{line: 1865, col: 7, offset: 60100},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2498, col: 5, offset: 80014},
+						pos: position{line: 2499, col: 5, offset: 80116},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2498, col: 5, offset: 80014},
+							pos: position{line: 2499, col: 5, offset: 80116},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2498, col: 5, offset: 80014},
+									pos: position{line: 2499, col: 5, offset: 80116},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2501, col: 5, offset: 80090},
+									pos:   position{line: 2502, col: 5, offset: 80192},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2502, col: 9, offset: 80108},
+										pos: position{line: 2503, col: 9, offset: 80210},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2502, col: 10, offset: 80109},
+											pos:        position{line: 2503, col: 10, offset: 80211},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -40675,27 +41173,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1199, col: 23, offset: 37001},
+						pos: position{line: 1199, col: 23, offset: 37069},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 1199, col: 23, offset: 37001},
+							pos: position{line: 1199, col: 23, offset: 37069},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1197, col: 32, offset: 36969},
+									pos:        position{line: 1197, col: 32, offset: 37037},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1199, col: 51, offset: 37029},
+									pos:   position{line: 1199, col: 51, offset: 37097},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1199, col: 56, offset: 37034},
+										pos: position{line: 1199, col: 56, offset: 37102},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1199, col: 56, offset: 37034},
+											pos: position{line: 1199, col: 56, offset: 37102},
 											expr: &charClassMatcher{
-												pos:        position{line: 1199, col: 56, offset: 37034},
+												pos:        position{line: 1199, col: 56, offset: 37102},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -40705,7 +41203,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1197, col: 32, offset: 36969},
+									pos:        position{line: 1197, col: 32, offset: 37037},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
@@ -40714,10 +41212,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2840, col: 12, offset: 89791},
+						pos: position{line: 2841, col: 12, offset: 89941},
 						run: (*parser).callonQuotedTextElement144,
 						expr: &charClassMatcher{
-							pos:        position{line: 2840, col: 12, offset: 89791},
+							pos:        position{line: 2841, col: 12, offset: 89941},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -40729,29 +41227,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1882, col: 1, offset: 60468},
+			pos:  position{line: 1883, col: 1, offset: 60570},
 			expr: &actionExpr{
-				pos: position{line: 1883, col: 5, offset: 60496},
+				pos: position{line: 1884, col: 5, offset: 60598},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1883, col: 5, offset: 60496},
+					pos: position{line: 1884, col: 5, offset: 60598},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1878, col: 38, offset: 60421},
+							pos:        position{line: 1879, col: 38, offset: 60523},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1884, col: 5, offset: 60535},
+							pos:   position{line: 1885, col: 5, offset: 60637},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1884, col: 15, offset: 60545},
+								pos:  position{line: 1885, col: 15, offset: 60647},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1880, col: 36, offset: 60462},
+							pos:        position{line: 1881, col: 36, offset: 60564},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -40762,24 +41260,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1889, col: 1, offset: 60705},
+			pos:  position{line: 1890, col: 1, offset: 60807},
 			expr: &actionExpr{
-				pos: position{line: 1890, col: 5, offset: 60740},
+				pos: position{line: 1891, col: 5, offset: 60842},
 				run: (*parser).callonDoubleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1890, col: 5, offset: 60740},
+					pos: position{line: 1891, col: 5, offset: 60842},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1890, col: 5, offset: 60740},
+							pos: position{line: 1891, col: 5, offset: 60842},
 							run: (*parser).callonDoubleQuoteBoldTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1894, col: 5, offset: 60860},
+							pos:   position{line: 1895, col: 5, offset: 60962},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1894, col: 14, offset: 60869},
+								pos: position{line: 1895, col: 14, offset: 60971},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1894, col: 15, offset: 60870},
+									pos:  position{line: 1895, col: 15, offset: 60972},
 									name: "DoubleQuoteBoldTextElement",
 								},
 							},
@@ -40790,33 +41288,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1898, col: 1, offset: 60937},
+			pos:  position{line: 1899, col: 1, offset: 61039},
 			expr: &actionExpr{
-				pos: position{line: 1899, col: 5, offset: 60972},
+				pos: position{line: 1900, col: 5, offset: 61074},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1899, col: 5, offset: 60972},
+					pos: position{line: 1900, col: 5, offset: 61074},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2918, col: 11, offset: 91817},
+							pos: position{line: 2919, col: 11, offset: 91967},
 							expr: &anyMatcher{
-								line: 2918, col: 13, offset: 91819,
+								line: 2919, col: 13, offset: 91969,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1900, col: 5, offset: 60983},
+							pos: position{line: 1901, col: 5, offset: 61085},
 							expr: &litMatcher{
-								pos:        position{line: 1880, col: 36, offset: 60462},
+								pos:        position{line: 1881, col: 36, offset: 60564},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1901, col: 5, offset: 61020},
+							pos:   position{line: 1902, col: 5, offset: 61122},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1901, col: 14, offset: 61029},
+								pos:  position{line: 1902, col: 14, offset: 61131},
 								name: "QuotedTextElement",
 							},
 						},
@@ -40826,29 +41324,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1926, col: 1, offset: 61709},
+			pos:  position{line: 1927, col: 1, offset: 61811},
 			expr: &actionExpr{
-				pos: position{line: 1927, col: 5, offset: 61737},
+				pos: position{line: 1928, col: 5, offset: 61839},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1927, col: 5, offset: 61737},
+					pos: position{line: 1928, col: 5, offset: 61839},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1910, col: 5, offset: 61263},
+							pos:        position{line: 1911, col: 5, offset: 61365},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1911, col: 5, offset: 61272},
+							pos: position{line: 1912, col: 5, offset: 61374},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1915, col: 5, offset: 61390},
+							pos: position{line: 1916, col: 5, offset: 61492},
 							expr: &notExpr{
-								pos: position{line: 1915, col: 7, offset: 61392},
+								pos: position{line: 1916, col: 7, offset: 61494},
 								expr: &litMatcher{
-									pos:        position{line: 1915, col: 8, offset: 61393},
+									pos:        position{line: 1916, col: 8, offset: 61495},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -40856,38 +41354,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1928, col: 5, offset: 61775},
+							pos:   position{line: 1929, col: 5, offset: 61877},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1928, col: 15, offset: 61785},
+								pos:  position{line: 1929, col: 15, offset: 61887},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1918, col: 5, offset: 61513},
+							pos:        position{line: 1919, col: 5, offset: 61615},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1919, col: 5, offset: 61522},
+							pos: position{line: 1920, col: 5, offset: 61624},
 							expr: &litMatcher{
-								pos:        position{line: 1919, col: 6, offset: 61523},
+								pos:        position{line: 1920, col: 6, offset: 61625},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1920, col: 5, offset: 61586},
+							pos: position{line: 1921, col: 5, offset: 61688},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1924, col: 5, offset: 61695},
+							pos: position{line: 1925, col: 5, offset: 61797},
 							expr: &notExpr{
-								pos: position{line: 1924, col: 7, offset: 61697},
+								pos: position{line: 1925, col: 7, offset: 61799},
 								expr: &charClassMatcher{
-									pos:        position{line: 2791, col: 13, offset: 88578},
+									pos:        position{line: 2792, col: 13, offset: 88728},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -40901,20 +41399,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1933, col: 1, offset: 61945},
+			pos:  position{line: 1934, col: 1, offset: 62047},
 			expr: &actionExpr{
-				pos: position{line: 1934, col: 5, offset: 61982},
+				pos: position{line: 1935, col: 5, offset: 62084},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1934, col: 5, offset: 61982},
+					pos: position{line: 1935, col: 5, offset: 62084},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1934, col: 5, offset: 61982},
+							pos: position{line: 1935, col: 5, offset: 62084},
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 10, offset: 91483},
+								pos: position{line: 2902, col: 10, offset: 91633},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2901, col: 10, offset: 91483},
+									pos:        position{line: 2902, col: 10, offset: 91633},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -40923,18 +41421,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1935, col: 5, offset: 62021},
+							pos:   position{line: 1936, col: 5, offset: 62123},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1935, col: 14, offset: 62030},
+								pos: position{line: 1936, col: 14, offset: 62132},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1935, col: 15, offset: 62031},
+									pos:  position{line: 1936, col: 15, offset: 62133},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1936, col: 5, offset: 62065},
+							pos: position{line: 1937, col: 5, offset: 62167},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -40943,49 +41441,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1942, col: 1, offset: 62206},
+			pos:  position{line: 1943, col: 1, offset: 62308},
 			expr: &actionExpr{
-				pos: position{line: 1943, col: 5, offset: 62241},
+				pos: position{line: 1944, col: 5, offset: 62343},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1943, col: 5, offset: 62241},
+					pos: position{line: 1944, col: 5, offset: 62343},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2918, col: 11, offset: 91817},
+							pos: position{line: 2919, col: 11, offset: 91967},
 							expr: &anyMatcher{
-								line: 2918, col: 13, offset: 91819,
+								line: 2919, col: 13, offset: 91969,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1944, col: 5, offset: 62269},
+							pos: position{line: 1945, col: 5, offset: 62371},
 							expr: &seqExpr{
-								pos: position{line: 1918, col: 5, offset: 61513},
+								pos: position{line: 1919, col: 5, offset: 61615},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1918, col: 5, offset: 61513},
+										pos:        position{line: 1919, col: 5, offset: 61615},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1919, col: 5, offset: 61522},
+										pos: position{line: 1920, col: 5, offset: 61624},
 										expr: &litMatcher{
-											pos:        position{line: 1919, col: 6, offset: 61523},
+											pos:        position{line: 1920, col: 6, offset: 61625},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1920, col: 5, offset: 61586},
+										pos: position{line: 1921, col: 5, offset: 61688},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1924, col: 5, offset: 61695},
+										pos: position{line: 1925, col: 5, offset: 61797},
 										expr: &notExpr{
-											pos: position{line: 1924, col: 7, offset: 61697},
+											pos: position{line: 1925, col: 7, offset: 61799},
 											expr: &charClassMatcher{
-												pos:        position{line: 2791, col: 13, offset: 88578},
+												pos:        position{line: 2792, col: 13, offset: 88728},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40997,10 +41495,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1945, col: 5, offset: 62306},
+							pos:   position{line: 1946, col: 5, offset: 62408},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1945, col: 14, offset: 62315},
+								pos:  position{line: 1946, col: 14, offset: 62417},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41010,35 +41508,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1950, col: 1, offset: 62403},
+			pos:  position{line: 1951, col: 1, offset: 62505},
 			expr: &choiceExpr{
-				pos: position{line: 1952, col: 5, offset: 62464},
+				pos: position{line: 1953, col: 5, offset: 62566},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1952, col: 5, offset: 62464},
+						pos: position{line: 1953, col: 5, offset: 62566},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1952, col: 5, offset: 62464},
+							pos: position{line: 1953, col: 5, offset: 62566},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1952, col: 5, offset: 62464},
+									pos:   position{line: 1953, col: 5, offset: 62566},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1851, col: 25, offset: 59641},
+										pos: position{line: 1852, col: 25, offset: 59743},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1851, col: 25, offset: 59641},
+											pos: position{line: 1852, col: 25, offset: 59743},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1851, col: 25, offset: 59641},
+													pos:        position{line: 1852, col: 25, offset: 59743},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1851, col: 30, offset: 59646},
+													pos: position{line: 1852, col: 30, offset: 59748},
 													expr: &litMatcher{
-														pos:        position{line: 1851, col: 30, offset: 59646},
+														pos:        position{line: 1852, col: 30, offset: 59748},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41049,21 +41547,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1952, col: 40, offset: 62499},
+									pos:        position{line: 1953, col: 40, offset: 62601},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1952, col: 45, offset: 62504},
+									pos:   position{line: 1953, col: 45, offset: 62606},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1952, col: 55, offset: 62514},
+										pos:  position{line: 1953, col: 55, offset: 62616},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1952, col: 84, offset: 62543},
+									pos:        position{line: 1953, col: 84, offset: 62645},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41072,21 +41570,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1956, col: 7, offset: 62707},
+						pos: position{line: 1957, col: 7, offset: 62809},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1956, col: 7, offset: 62707},
+							pos: position{line: 1957, col: 7, offset: 62809},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1956, col: 7, offset: 62707},
+									pos:   position{line: 1957, col: 7, offset: 62809},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1847, col: 25, offset: 59568},
+										pos: position{line: 1848, col: 25, offset: 59670},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1847, col: 25, offset: 59568},
+											pos: position{line: 1848, col: 25, offset: 59670},
 											expr: &litMatcher{
-												pos:        position{line: 1847, col: 25, offset: 59568},
+												pos:        position{line: 1848, col: 25, offset: 59670},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41095,21 +41593,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1956, col: 42, offset: 62742},
+									pos:        position{line: 1957, col: 42, offset: 62844},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1956, col: 47, offset: 62747},
+									pos:   position{line: 1957, col: 47, offset: 62849},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1956, col: 57, offset: 62757},
+										pos:  position{line: 1957, col: 57, offset: 62859},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1956, col: 86, offset: 62786},
+									pos:        position{line: 1957, col: 86, offset: 62888},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41118,21 +41616,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1961, col: 7, offset: 62988},
+						pos: position{line: 1962, col: 7, offset: 63090},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1961, col: 7, offset: 62988},
+							pos: position{line: 1962, col: 7, offset: 63090},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1961, col: 7, offset: 62988},
+									pos:   position{line: 1962, col: 7, offset: 63090},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1847, col: 25, offset: 59568},
+										pos: position{line: 1848, col: 25, offset: 59670},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1847, col: 25, offset: 59568},
+											pos: position{line: 1848, col: 25, offset: 59670},
 											expr: &litMatcher{
-												pos:        position{line: 1847, col: 25, offset: 59568},
+												pos:        position{line: 1848, col: 25, offset: 59670},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41141,21 +41639,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1961, col: 42, offset: 63023},
+									pos:        position{line: 1962, col: 42, offset: 63125},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1961, col: 46, offset: 63027},
+									pos:   position{line: 1962, col: 46, offset: 63129},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1961, col: 56, offset: 63037},
+										pos:  position{line: 1962, col: 56, offset: 63139},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1961, col: 85, offset: 63066},
+									pos:        position{line: 1962, col: 85, offset: 63168},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41168,29 +41666,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1978, col: 1, offset: 63546},
+			pos:  position{line: 1979, col: 1, offset: 63648},
 			expr: &actionExpr{
-				pos: position{line: 1979, col: 5, offset: 63576},
+				pos: position{line: 1980, col: 5, offset: 63678},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1979, col: 5, offset: 63576},
+					pos: position{line: 1980, col: 5, offset: 63678},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1974, col: 40, offset: 63497},
+							pos:        position{line: 1975, col: 40, offset: 63599},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1980, col: 5, offset: 63617},
+							pos:   position{line: 1981, col: 5, offset: 63719},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1980, col: 15, offset: 63627},
+								pos:  position{line: 1981, col: 15, offset: 63729},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1976, col: 38, offset: 63540},
+							pos:        position{line: 1977, col: 38, offset: 63642},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -41201,24 +41699,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1985, col: 1, offset: 63792},
+			pos:  position{line: 1986, col: 1, offset: 63894},
 			expr: &actionExpr{
-				pos: position{line: 1986, col: 5, offset: 63829},
+				pos: position{line: 1987, col: 5, offset: 63931},
 				run: (*parser).callonDoubleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1986, col: 5, offset: 63829},
+					pos: position{line: 1987, col: 5, offset: 63931},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1986, col: 5, offset: 63829},
+							pos: position{line: 1987, col: 5, offset: 63931},
 							run: (*parser).callonDoubleQuoteItalicTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1990, col: 5, offset: 63949},
+							pos:   position{line: 1991, col: 5, offset: 64051},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1990, col: 14, offset: 63958},
+								pos: position{line: 1991, col: 14, offset: 64060},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1990, col: 15, offset: 63959},
+									pos:  position{line: 1991, col: 15, offset: 64061},
 									name: "DoubleQuoteItalicTextElement",
 								},
 							},
@@ -41229,33 +41727,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1994, col: 1, offset: 64028},
+			pos:  position{line: 1995, col: 1, offset: 64130},
 			expr: &actionExpr{
-				pos: position{line: 1995, col: 5, offset: 64065},
+				pos: position{line: 1996, col: 5, offset: 64167},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1995, col: 5, offset: 64065},
+					pos: position{line: 1996, col: 5, offset: 64167},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2918, col: 11, offset: 91817},
+							pos: position{line: 2919, col: 11, offset: 91967},
 							expr: &anyMatcher{
-								line: 2918, col: 13, offset: 91819,
+								line: 2919, col: 13, offset: 91969,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1996, col: 5, offset: 64076},
+							pos: position{line: 1997, col: 5, offset: 64178},
 							expr: &litMatcher{
-								pos:        position{line: 1976, col: 38, offset: 63540},
+								pos:        position{line: 1977, col: 38, offset: 63642},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1997, col: 5, offset: 64115},
+							pos:   position{line: 1998, col: 5, offset: 64217},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1997, col: 14, offset: 64124},
+								pos:  position{line: 1998, col: 14, offset: 64226},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41265,29 +41763,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2023, col: 1, offset: 64808},
+			pos:  position{line: 2024, col: 1, offset: 64910},
 			expr: &actionExpr{
-				pos: position{line: 2024, col: 5, offset: 64838},
+				pos: position{line: 2025, col: 5, offset: 64940},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2024, col: 5, offset: 64838},
+					pos: position{line: 2025, col: 5, offset: 64940},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2006, col: 5, offset: 64366},
+							pos:        position{line: 2007, col: 5, offset: 64468},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2007, col: 5, offset: 64375},
+							pos: position{line: 2008, col: 5, offset: 64477},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2011, col: 5, offset: 64495},
+							pos: position{line: 2012, col: 5, offset: 64597},
 							expr: &notExpr{
-								pos: position{line: 2011, col: 7, offset: 64497},
+								pos: position{line: 2012, col: 7, offset: 64599},
 								expr: &litMatcher{
-									pos:        position{line: 2011, col: 8, offset: 64498},
+									pos:        position{line: 2012, col: 8, offset: 64600},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41295,38 +41793,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2025, col: 5, offset: 64878},
+							pos:   position{line: 2026, col: 5, offset: 64980},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2025, col: 15, offset: 64888},
+								pos:  position{line: 2026, col: 15, offset: 64990},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2015, col: 5, offset: 64608},
+							pos:        position{line: 2016, col: 5, offset: 64710},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2016, col: 5, offset: 64617},
+							pos: position{line: 2017, col: 5, offset: 64719},
 							expr: &litMatcher{
-								pos:        position{line: 2016, col: 6, offset: 64618},
+								pos:        position{line: 2017, col: 6, offset: 64720},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2017, col: 5, offset: 64683},
+							pos: position{line: 2018, col: 5, offset: 64785},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2021, col: 5, offset: 64794},
+							pos: position{line: 2022, col: 5, offset: 64896},
 							expr: &notExpr{
-								pos: position{line: 2021, col: 7, offset: 64796},
+								pos: position{line: 2022, col: 7, offset: 64898},
 								expr: &charClassMatcher{
-									pos:        position{line: 2791, col: 13, offset: 88578},
+									pos:        position{line: 2792, col: 13, offset: 88728},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41340,20 +41838,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2030, col: 1, offset: 65055},
+			pos:  position{line: 2031, col: 1, offset: 65157},
 			expr: &actionExpr{
-				pos: position{line: 2031, col: 5, offset: 65093},
+				pos: position{line: 2032, col: 5, offset: 65195},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2031, col: 5, offset: 65093},
+					pos: position{line: 2032, col: 5, offset: 65195},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2031, col: 5, offset: 65093},
+							pos: position{line: 2032, col: 5, offset: 65195},
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 10, offset: 91483},
+								pos: position{line: 2902, col: 10, offset: 91633},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2901, col: 10, offset: 91483},
+									pos:        position{line: 2902, col: 10, offset: 91633},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41362,18 +41860,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2032, col: 5, offset: 65132},
+							pos:   position{line: 2033, col: 5, offset: 65234},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2032, col: 14, offset: 65141},
+								pos: position{line: 2033, col: 14, offset: 65243},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2032, col: 15, offset: 65142},
+									pos:  position{line: 2033, col: 15, offset: 65244},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2033, col: 5, offset: 65177},
+							pos: position{line: 2034, col: 5, offset: 65279},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -41382,49 +41880,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2039, col: 1, offset: 65318},
+			pos:  position{line: 2040, col: 1, offset: 65420},
 			expr: &actionExpr{
-				pos: position{line: 2040, col: 5, offset: 65355},
+				pos: position{line: 2041, col: 5, offset: 65457},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2040, col: 5, offset: 65355},
+					pos: position{line: 2041, col: 5, offset: 65457},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2918, col: 11, offset: 91817},
+							pos: position{line: 2919, col: 11, offset: 91967},
 							expr: &anyMatcher{
-								line: 2918, col: 13, offset: 91819,
+								line: 2919, col: 13, offset: 91969,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2041, col: 5, offset: 65366},
+							pos: position{line: 2042, col: 5, offset: 65468},
 							expr: &seqExpr{
-								pos: position{line: 2015, col: 5, offset: 64608},
+								pos: position{line: 2016, col: 5, offset: 64710},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2015, col: 5, offset: 64608},
+										pos:        position{line: 2016, col: 5, offset: 64710},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2016, col: 5, offset: 64617},
+										pos: position{line: 2017, col: 5, offset: 64719},
 										expr: &litMatcher{
-											pos:        position{line: 2016, col: 6, offset: 64618},
+											pos:        position{line: 2017, col: 6, offset: 64720},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2017, col: 5, offset: 64683},
+										pos: position{line: 2018, col: 5, offset: 64785},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2021, col: 5, offset: 64794},
+										pos: position{line: 2022, col: 5, offset: 64896},
 										expr: &notExpr{
-											pos: position{line: 2021, col: 7, offset: 64796},
+											pos: position{line: 2022, col: 7, offset: 64898},
 											expr: &charClassMatcher{
-												pos:        position{line: 2791, col: 13, offset: 88578},
+												pos:        position{line: 2792, col: 13, offset: 88728},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41436,10 +41934,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2042, col: 5, offset: 65405},
+							pos:   position{line: 2043, col: 5, offset: 65507},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2042, col: 14, offset: 65414},
+								pos:  position{line: 2043, col: 14, offset: 65516},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41449,35 +41947,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2047, col: 1, offset: 65502},
+			pos:  position{line: 2048, col: 1, offset: 65604},
 			expr: &choiceExpr{
-				pos: position{line: 2049, col: 5, offset: 65567},
+				pos: position{line: 2050, col: 5, offset: 65669},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2049, col: 5, offset: 65567},
+						pos: position{line: 2050, col: 5, offset: 65669},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2049, col: 5, offset: 65567},
+							pos: position{line: 2050, col: 5, offset: 65669},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2049, col: 5, offset: 65567},
+									pos:   position{line: 2050, col: 5, offset: 65669},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1851, col: 25, offset: 59641},
+										pos: position{line: 1852, col: 25, offset: 59743},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1851, col: 25, offset: 59641},
+											pos: position{line: 1852, col: 25, offset: 59743},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1851, col: 25, offset: 59641},
+													pos:        position{line: 1852, col: 25, offset: 59743},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1851, col: 30, offset: 59646},
+													pos: position{line: 1852, col: 30, offset: 59748},
 													expr: &litMatcher{
-														pos:        position{line: 1851, col: 30, offset: 59646},
+														pos:        position{line: 1852, col: 30, offset: 59748},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41488,21 +41986,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2049, col: 40, offset: 65602},
+									pos:        position{line: 2050, col: 40, offset: 65704},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2049, col: 45, offset: 65607},
+									pos:   position{line: 2050, col: 45, offset: 65709},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2049, col: 55, offset: 65617},
+										pos:  position{line: 2050, col: 55, offset: 65719},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2049, col: 86, offset: 65648},
+									pos:        position{line: 2050, col: 86, offset: 65750},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -41511,21 +42009,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2053, col: 7, offset: 65813},
+						pos: position{line: 2054, col: 7, offset: 65915},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2053, col: 7, offset: 65813},
+							pos: position{line: 2054, col: 7, offset: 65915},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2053, col: 7, offset: 65813},
+									pos:   position{line: 2054, col: 7, offset: 65915},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1847, col: 25, offset: 59568},
+										pos: position{line: 1848, col: 25, offset: 59670},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1847, col: 25, offset: 59568},
+											pos: position{line: 1848, col: 25, offset: 59670},
 											expr: &litMatcher{
-												pos:        position{line: 1847, col: 25, offset: 59568},
+												pos:        position{line: 1848, col: 25, offset: 59670},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41534,21 +42032,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2053, col: 42, offset: 65848},
+									pos:        position{line: 2054, col: 42, offset: 65950},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2053, col: 47, offset: 65853},
+									pos:   position{line: 2054, col: 47, offset: 65955},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2053, col: 57, offset: 65863},
+										pos:  position{line: 2054, col: 57, offset: 65965},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2053, col: 88, offset: 65894},
+									pos:        position{line: 2054, col: 88, offset: 65996},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41557,21 +42055,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2058, col: 7, offset: 66135},
+						pos: position{line: 2059, col: 7, offset: 66237},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2058, col: 7, offset: 66135},
+							pos: position{line: 2059, col: 7, offset: 66237},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2058, col: 7, offset: 66135},
+									pos:   position{line: 2059, col: 7, offset: 66237},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1847, col: 25, offset: 59568},
+										pos: position{line: 1848, col: 25, offset: 59670},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1847, col: 25, offset: 59568},
+											pos: position{line: 1848, col: 25, offset: 59670},
 											expr: &litMatcher{
-												pos:        position{line: 1847, col: 25, offset: 59568},
+												pos:        position{line: 1848, col: 25, offset: 59670},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41580,21 +42078,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2058, col: 42, offset: 66170},
+									pos:        position{line: 2059, col: 42, offset: 66272},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2058, col: 46, offset: 66174},
+									pos:   position{line: 2059, col: 46, offset: 66276},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2058, col: 56, offset: 66184},
+										pos:  position{line: 2059, col: 56, offset: 66286},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2058, col: 87, offset: 66215},
+									pos:        position{line: 2059, col: 87, offset: 66317},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41607,29 +42105,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2075, col: 1, offset: 66779},
+			pos:  position{line: 2076, col: 1, offset: 66881},
 			expr: &actionExpr{
-				pos: position{line: 2076, col: 5, offset: 66812},
+				pos: position{line: 2077, col: 5, offset: 66914},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2076, col: 5, offset: 66812},
+					pos: position{line: 2077, col: 5, offset: 66914},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2071, col: 43, offset: 66727},
+							pos:        position{line: 2072, col: 43, offset: 66829},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2077, col: 5, offset: 66856},
+							pos:   position{line: 2078, col: 5, offset: 66958},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2077, col: 15, offset: 66866},
+								pos:  position{line: 2078, col: 15, offset: 66968},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2073, col: 41, offset: 66773},
+							pos:        position{line: 2074, col: 41, offset: 66875},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -41640,24 +42138,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2082, col: 1, offset: 67041},
+			pos:  position{line: 2083, col: 1, offset: 67143},
 			expr: &actionExpr{
-				pos: position{line: 2083, col: 5, offset: 67114},
+				pos: position{line: 2084, col: 5, offset: 67216},
 				run: (*parser).callonDoubleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2083, col: 5, offset: 67114},
+					pos: position{line: 2084, col: 5, offset: 67216},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2083, col: 5, offset: 67114},
+							pos: position{line: 2084, col: 5, offset: 67216},
 							run: (*parser).callonDoubleQuoteMonospaceTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2087, col: 5, offset: 67234},
+							pos:   position{line: 2088, col: 5, offset: 67336},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2087, col: 14, offset: 67243},
+								pos: position{line: 2088, col: 14, offset: 67345},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2087, col: 15, offset: 67244},
+									pos:  position{line: 2088, col: 15, offset: 67346},
 									name: "DoubleQuoteMonospaceTextElement",
 								},
 							},
@@ -41668,33 +42166,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2091, col: 1, offset: 67316},
+			pos:  position{line: 2092, col: 1, offset: 67418},
 			expr: &actionExpr{
-				pos: position{line: 2092, col: 5, offset: 67356},
+				pos: position{line: 2093, col: 5, offset: 67458},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2092, col: 5, offset: 67356},
+					pos: position{line: 2093, col: 5, offset: 67458},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2918, col: 11, offset: 91817},
+							pos: position{line: 2919, col: 11, offset: 91967},
 							expr: &anyMatcher{
-								line: 2918, col: 13, offset: 91819,
+								line: 2919, col: 13, offset: 91969,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2093, col: 5, offset: 67367},
+							pos: position{line: 2094, col: 5, offset: 67469},
 							expr: &litMatcher{
-								pos:        position{line: 2073, col: 41, offset: 66773},
+								pos:        position{line: 2074, col: 41, offset: 66875},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2094, col: 5, offset: 67409},
+							pos:   position{line: 2095, col: 5, offset: 67511},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2094, col: 14, offset: 67418},
+								pos:  position{line: 2095, col: 14, offset: 67520},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41704,33 +42202,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2112, col: 1, offset: 67960},
+			pos:  position{line: 2113, col: 1, offset: 68062},
 			expr: &seqExpr{
-				pos: position{line: 2113, col: 5, offset: 68005},
+				pos: position{line: 2114, col: 5, offset: 68107},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2113, col: 5, offset: 68005},
+						pos: position{line: 2114, col: 5, offset: 68107},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2113, col: 6, offset: 68006},
+							pos:  position{line: 2114, col: 6, offset: 68108},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2114, col: 5, offset: 68025},
+						pos:        position{line: 2115, col: 5, offset: 68127},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2115, col: 5, offset: 68033},
+						pos: position{line: 2116, col: 5, offset: 68135},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2119, col: 5, offset: 68147},
+						pos: position{line: 2120, col: 5, offset: 68249},
 						expr: &notExpr{
-							pos: position{line: 2119, col: 7, offset: 68149},
+							pos: position{line: 2120, col: 7, offset: 68251},
 							expr: &charClassMatcher{
-								pos:        position{line: 2791, col: 13, offset: 88578},
+								pos:        position{line: 2792, col: 13, offset: 88728},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -41743,29 +42241,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2122, col: 1, offset: 68166},
+			pos:  position{line: 2123, col: 1, offset: 68268},
 			expr: &actionExpr{
-				pos: position{line: 2123, col: 5, offset: 68199},
+				pos: position{line: 2124, col: 5, offset: 68301},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2123, col: 5, offset: 68199},
+					pos: position{line: 2124, col: 5, offset: 68301},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2105, col: 5, offset: 67762},
+							pos:        position{line: 2106, col: 5, offset: 67864},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2106, col: 5, offset: 67771},
+							pos: position{line: 2107, col: 5, offset: 67873},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2110, col: 5, offset: 67894},
+							pos: position{line: 2111, col: 5, offset: 67996},
 							expr: &notExpr{
-								pos: position{line: 2110, col: 7, offset: 67896},
+								pos: position{line: 2111, col: 7, offset: 67998},
 								expr: &litMatcher{
-									pos:        position{line: 2110, col: 8, offset: 67897},
+									pos:        position{line: 2111, col: 8, offset: 67999},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41773,15 +42271,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2124, col: 5, offset: 68243},
+							pos:   position{line: 2125, col: 5, offset: 68345},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2124, col: 15, offset: 68253},
+								pos:  position{line: 2125, col: 15, offset: 68355},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2125, col: 5, offset: 68292},
+							pos:  position{line: 2126, col: 5, offset: 68394},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -41790,20 +42288,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2129, col: 1, offset: 68429},
+			pos:  position{line: 2130, col: 1, offset: 68531},
 			expr: &actionExpr{
-				pos: position{line: 2130, col: 5, offset: 68470},
+				pos: position{line: 2131, col: 5, offset: 68572},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2130, col: 5, offset: 68470},
+					pos: position{line: 2131, col: 5, offset: 68572},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2130, col: 5, offset: 68470},
+							pos: position{line: 2131, col: 5, offset: 68572},
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 10, offset: 91483},
+								pos: position{line: 2902, col: 10, offset: 91633},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2901, col: 10, offset: 91483},
+									pos:        position{line: 2902, col: 10, offset: 91633},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41812,18 +42310,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2131, col: 5, offset: 68509},
+							pos:   position{line: 2132, col: 5, offset: 68611},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2131, col: 14, offset: 68518},
+								pos: position{line: 2132, col: 14, offset: 68620},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2131, col: 15, offset: 68519},
+									pos:  position{line: 2132, col: 15, offset: 68621},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2132, col: 5, offset: 68557},
+							pos: position{line: 2133, col: 5, offset: 68659},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -41832,31 +42330,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2138, col: 1, offset: 68698},
+			pos:  position{line: 2139, col: 1, offset: 68800},
 			expr: &actionExpr{
-				pos: position{line: 2139, col: 5, offset: 68738},
+				pos: position{line: 2140, col: 5, offset: 68840},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2139, col: 5, offset: 68738},
+					pos: position{line: 2140, col: 5, offset: 68840},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2918, col: 11, offset: 91817},
+							pos: position{line: 2919, col: 11, offset: 91967},
 							expr: &anyMatcher{
-								line: 2918, col: 13, offset: 91819,
+								line: 2919, col: 13, offset: 91969,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2140, col: 5, offset: 68749},
+							pos: position{line: 2141, col: 5, offset: 68851},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2140, col: 6, offset: 68750},
+								pos:  position{line: 2141, col: 6, offset: 68852},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2141, col: 5, offset: 68791},
+							pos:   position{line: 2142, col: 5, offset: 68893},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2141, col: 14, offset: 68800},
+								pos:  position{line: 2142, col: 14, offset: 68902},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41866,35 +42364,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2146, col: 1, offset: 68888},
+			pos:  position{line: 2147, col: 1, offset: 68990},
 			expr: &choiceExpr{
-				pos: position{line: 2148, col: 5, offset: 68959},
+				pos: position{line: 2149, col: 5, offset: 69061},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2148, col: 5, offset: 68959},
+						pos: position{line: 2149, col: 5, offset: 69061},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2148, col: 5, offset: 68959},
+							pos: position{line: 2149, col: 5, offset: 69061},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2148, col: 5, offset: 68959},
+									pos:   position{line: 2149, col: 5, offset: 69061},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1851, col: 25, offset: 59641},
+										pos: position{line: 1852, col: 25, offset: 59743},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1851, col: 25, offset: 59641},
+											pos: position{line: 1852, col: 25, offset: 59743},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1851, col: 25, offset: 59641},
+													pos:        position{line: 1852, col: 25, offset: 59743},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1851, col: 30, offset: 59646},
+													pos: position{line: 1852, col: 30, offset: 59748},
 													expr: &litMatcher{
-														pos:        position{line: 1851, col: 30, offset: 59646},
+														pos:        position{line: 1852, col: 30, offset: 59748},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41905,21 +42403,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2148, col: 40, offset: 68994},
+									pos:        position{line: 2149, col: 40, offset: 69096},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2148, col: 45, offset: 68999},
+									pos:   position{line: 2149, col: 45, offset: 69101},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2148, col: 55, offset: 69009},
+										pos:  position{line: 2149, col: 55, offset: 69111},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2148, col: 89, offset: 69043},
+									pos:        position{line: 2149, col: 89, offset: 69145},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -41928,21 +42426,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2152, col: 7, offset: 69212},
+						pos: position{line: 2153, col: 7, offset: 69314},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2152, col: 7, offset: 69212},
+							pos: position{line: 2153, col: 7, offset: 69314},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2152, col: 7, offset: 69212},
+									pos:   position{line: 2153, col: 7, offset: 69314},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1847, col: 25, offset: 59568},
+										pos: position{line: 1848, col: 25, offset: 59670},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1847, col: 25, offset: 59568},
+											pos: position{line: 1848, col: 25, offset: 59670},
 											expr: &litMatcher{
-												pos:        position{line: 1847, col: 25, offset: 59568},
+												pos:        position{line: 1848, col: 25, offset: 59670},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41951,21 +42449,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2152, col: 42, offset: 69247},
+									pos:        position{line: 2153, col: 42, offset: 69349},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2152, col: 47, offset: 69252},
+									pos:   position{line: 2153, col: 47, offset: 69354},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2152, col: 57, offset: 69262},
+										pos:  position{line: 2153, col: 57, offset: 69364},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2152, col: 91, offset: 69296},
+									pos:        position{line: 2153, col: 91, offset: 69398},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41974,21 +42472,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2157, col: 7, offset: 69502},
+						pos: position{line: 2158, col: 7, offset: 69604},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2157, col: 7, offset: 69502},
+							pos: position{line: 2158, col: 7, offset: 69604},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2157, col: 7, offset: 69502},
+									pos:   position{line: 2158, col: 7, offset: 69604},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1847, col: 25, offset: 59568},
+										pos: position{line: 1848, col: 25, offset: 59670},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1847, col: 25, offset: 59568},
+											pos: position{line: 1848, col: 25, offset: 59670},
 											expr: &litMatcher{
-												pos:        position{line: 1847, col: 25, offset: 59568},
+												pos:        position{line: 1848, col: 25, offset: 59670},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41997,21 +42495,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2157, col: 42, offset: 69537},
+									pos:        position{line: 2158, col: 42, offset: 69639},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2157, col: 46, offset: 69541},
+									pos:   position{line: 2158, col: 46, offset: 69643},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2157, col: 56, offset: 69551},
+										pos:  position{line: 2158, col: 56, offset: 69653},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2157, col: 90, offset: 69585},
+									pos:        position{line: 2158, col: 90, offset: 69687},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42024,29 +42522,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2174, col: 1, offset: 70070},
+			pos:  position{line: 2175, col: 1, offset: 70172},
 			expr: &actionExpr{
-				pos: position{line: 2175, col: 5, offset: 70100},
+				pos: position{line: 2176, col: 5, offset: 70202},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2175, col: 5, offset: 70100},
+					pos: position{line: 2176, col: 5, offset: 70202},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2170, col: 40, offset: 70021},
+							pos:        position{line: 2171, col: 40, offset: 70123},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2176, col: 5, offset: 70141},
+							pos:   position{line: 2177, col: 5, offset: 70243},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2176, col: 15, offset: 70151},
+								pos:  position{line: 2177, col: 15, offset: 70253},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2172, col: 38, offset: 70064},
+							pos:        position{line: 2173, col: 38, offset: 70166},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -42057,24 +42555,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2181, col: 1, offset: 70317},
+			pos:  position{line: 2182, col: 1, offset: 70419},
 			expr: &actionExpr{
-				pos: position{line: 2182, col: 5, offset: 70354},
+				pos: position{line: 2183, col: 5, offset: 70456},
 				run: (*parser).callonDoubleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2182, col: 5, offset: 70354},
+					pos: position{line: 2183, col: 5, offset: 70456},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2182, col: 5, offset: 70354},
+							pos: position{line: 2183, col: 5, offset: 70456},
 							run: (*parser).callonDoubleQuoteMarkedTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2186, col: 5, offset: 70474},
+							pos:   position{line: 2187, col: 5, offset: 70576},
 							label: "elements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2186, col: 14, offset: 70483},
+								pos: position{line: 2187, col: 14, offset: 70585},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2186, col: 15, offset: 70484},
+									pos:  position{line: 2187, col: 15, offset: 70586},
 									name: "DoubleQuoteMarkedTextElement",
 								},
 							},
@@ -42085,33 +42583,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2190, col: 1, offset: 70553},
+			pos:  position{line: 2191, col: 1, offset: 70655},
 			expr: &actionExpr{
-				pos: position{line: 2191, col: 5, offset: 70622},
+				pos: position{line: 2192, col: 5, offset: 70724},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2191, col: 5, offset: 70622},
+					pos: position{line: 2192, col: 5, offset: 70724},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2918, col: 11, offset: 91817},
+							pos: position{line: 2919, col: 11, offset: 91967},
 							expr: &anyMatcher{
-								line: 2918, col: 13, offset: 91819,
+								line: 2919, col: 13, offset: 91969,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2192, col: 5, offset: 70633},
+							pos: position{line: 2193, col: 5, offset: 70735},
 							expr: &litMatcher{
-								pos:        position{line: 2172, col: 38, offset: 70064},
+								pos:        position{line: 2173, col: 38, offset: 70166},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2193, col: 5, offset: 70672},
+							pos:   position{line: 2194, col: 5, offset: 70774},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2193, col: 14, offset: 70681},
+								pos:  position{line: 2194, col: 14, offset: 70783},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42121,29 +42619,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2218, col: 1, offset: 71363},
+			pos:  position{line: 2219, col: 1, offset: 71465},
 			expr: &actionExpr{
-				pos: position{line: 2219, col: 5, offset: 71393},
+				pos: position{line: 2220, col: 5, offset: 71495},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2219, col: 5, offset: 71393},
+					pos: position{line: 2220, col: 5, offset: 71495},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2202, col: 5, offset: 70929},
+							pos:        position{line: 2203, col: 5, offset: 71031},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2203, col: 5, offset: 70938},
+							pos: position{line: 2204, col: 5, offset: 71040},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2207, col: 5, offset: 71058},
+							pos: position{line: 2208, col: 5, offset: 71160},
 							expr: &notExpr{
-								pos: position{line: 2207, col: 7, offset: 71060},
+								pos: position{line: 2208, col: 7, offset: 71162},
 								expr: &litMatcher{
-									pos:        position{line: 2207, col: 8, offset: 71061},
+									pos:        position{line: 2208, col: 8, offset: 71163},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42151,38 +42649,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2220, col: 5, offset: 71433},
+							pos:   position{line: 2221, col: 5, offset: 71535},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2220, col: 15, offset: 71443},
+								pos:  position{line: 2221, col: 15, offset: 71545},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2210, col: 5, offset: 71166},
+							pos:        position{line: 2211, col: 5, offset: 71268},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2211, col: 5, offset: 71174},
+							pos: position{line: 2212, col: 5, offset: 71276},
 							expr: &litMatcher{
-								pos:        position{line: 2211, col: 6, offset: 71175},
+								pos:        position{line: 2212, col: 6, offset: 71277},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2212, col: 5, offset: 71238},
+							pos: position{line: 2213, col: 5, offset: 71340},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2216, col: 5, offset: 71349},
+							pos: position{line: 2217, col: 5, offset: 71451},
 							expr: &notExpr{
-								pos: position{line: 2216, col: 7, offset: 71351},
+								pos: position{line: 2217, col: 7, offset: 71453},
 								expr: &charClassMatcher{
-									pos:        position{line: 2791, col: 13, offset: 88578},
+									pos:        position{line: 2792, col: 13, offset: 88728},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42196,20 +42694,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2225, col: 1, offset: 71610},
+			pos:  position{line: 2226, col: 1, offset: 71712},
 			expr: &actionExpr{
-				pos: position{line: 2226, col: 5, offset: 71648},
+				pos: position{line: 2227, col: 5, offset: 71750},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2226, col: 5, offset: 71648},
+					pos: position{line: 2227, col: 5, offset: 71750},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2226, col: 5, offset: 71648},
+							pos: position{line: 2227, col: 5, offset: 71750},
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 10, offset: 91483},
+								pos: position{line: 2902, col: 10, offset: 91633},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2901, col: 10, offset: 91483},
+									pos:        position{line: 2902, col: 10, offset: 91633},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42218,18 +42716,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2227, col: 5, offset: 71687},
+							pos:   position{line: 2228, col: 5, offset: 71789},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2227, col: 14, offset: 71696},
+								pos: position{line: 2228, col: 14, offset: 71798},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2227, col: 15, offset: 71697},
+									pos:  position{line: 2228, col: 15, offset: 71799},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2228, col: 5, offset: 71733},
+							pos: position{line: 2229, col: 5, offset: 71835},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -42238,49 +42736,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2234, col: 1, offset: 71874},
+			pos:  position{line: 2235, col: 1, offset: 71976},
 			expr: &actionExpr{
-				pos: position{line: 2235, col: 5, offset: 71911},
+				pos: position{line: 2236, col: 5, offset: 72013},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2235, col: 5, offset: 71911},
+					pos: position{line: 2236, col: 5, offset: 72013},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2918, col: 11, offset: 91817},
+							pos: position{line: 2919, col: 11, offset: 91967},
 							expr: &anyMatcher{
-								line: 2918, col: 13, offset: 91819,
+								line: 2919, col: 13, offset: 91969,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2236, col: 5, offset: 71922},
+							pos: position{line: 2237, col: 5, offset: 72024},
 							expr: &seqExpr{
-								pos: position{line: 2210, col: 5, offset: 71166},
+								pos: position{line: 2211, col: 5, offset: 71268},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2210, col: 5, offset: 71166},
+										pos:        position{line: 2211, col: 5, offset: 71268},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2211, col: 5, offset: 71174},
+										pos: position{line: 2212, col: 5, offset: 71276},
 										expr: &litMatcher{
-											pos:        position{line: 2211, col: 6, offset: 71175},
+											pos:        position{line: 2212, col: 6, offset: 71277},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2212, col: 5, offset: 71238},
+										pos: position{line: 2213, col: 5, offset: 71340},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2216, col: 5, offset: 71349},
+										pos: position{line: 2217, col: 5, offset: 71451},
 										expr: &notExpr{
-											pos: position{line: 2216, col: 7, offset: 71351},
+											pos: position{line: 2217, col: 7, offset: 71453},
 											expr: &charClassMatcher{
-												pos:        position{line: 2791, col: 13, offset: 88578},
+												pos:        position{line: 2792, col: 13, offset: 88728},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42292,10 +42790,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2237, col: 5, offset: 71961},
+							pos:   position{line: 2238, col: 5, offset: 72063},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2237, col: 14, offset: 71970},
+								pos:  position{line: 2238, col: 14, offset: 72072},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42305,35 +42803,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2242, col: 1, offset: 72058},
+			pos:  position{line: 2243, col: 1, offset: 72160},
 			expr: &choiceExpr{
-				pos: position{line: 2244, col: 5, offset: 72122},
+				pos: position{line: 2245, col: 5, offset: 72224},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2244, col: 5, offset: 72122},
+						pos: position{line: 2245, col: 5, offset: 72224},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2244, col: 5, offset: 72122},
+							pos: position{line: 2245, col: 5, offset: 72224},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2244, col: 5, offset: 72122},
+									pos:   position{line: 2245, col: 5, offset: 72224},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1851, col: 25, offset: 59641},
+										pos: position{line: 1852, col: 25, offset: 59743},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1851, col: 25, offset: 59641},
+											pos: position{line: 1852, col: 25, offset: 59743},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1851, col: 25, offset: 59641},
+													pos:        position{line: 1852, col: 25, offset: 59743},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1851, col: 30, offset: 59646},
+													pos: position{line: 1852, col: 30, offset: 59748},
 													expr: &litMatcher{
-														pos:        position{line: 1851, col: 30, offset: 59646},
+														pos:        position{line: 1852, col: 30, offset: 59748},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42344,21 +42842,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2244, col: 40, offset: 72157},
+									pos:        position{line: 2245, col: 40, offset: 72259},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2244, col: 45, offset: 72162},
+									pos:   position{line: 2245, col: 45, offset: 72264},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2244, col: 55, offset: 72172},
+										pos:  position{line: 2245, col: 55, offset: 72274},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2244, col: 86, offset: 72203},
+									pos:        position{line: 2245, col: 86, offset: 72305},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -42367,21 +42865,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2248, col: 7, offset: 72368},
+						pos: position{line: 2249, col: 7, offset: 72470},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2248, col: 7, offset: 72368},
+							pos: position{line: 2249, col: 7, offset: 72470},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2248, col: 7, offset: 72368},
+									pos:   position{line: 2249, col: 7, offset: 72470},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1847, col: 25, offset: 59568},
+										pos: position{line: 1848, col: 25, offset: 59670},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1847, col: 25, offset: 59568},
+											pos: position{line: 1848, col: 25, offset: 59670},
 											expr: &litMatcher{
-												pos:        position{line: 1847, col: 25, offset: 59568},
+												pos:        position{line: 1848, col: 25, offset: 59670},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42390,21 +42888,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2248, col: 42, offset: 72403},
+									pos:        position{line: 2249, col: 42, offset: 72505},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2248, col: 47, offset: 72408},
+									pos:   position{line: 2249, col: 47, offset: 72510},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2248, col: 57, offset: 72418},
+										pos:  position{line: 2249, col: 57, offset: 72520},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2248, col: 88, offset: 72449},
+									pos:        position{line: 2249, col: 88, offset: 72551},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42413,21 +42911,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2253, col: 7, offset: 72652},
+						pos: position{line: 2254, col: 7, offset: 72754},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2253, col: 7, offset: 72652},
+							pos: position{line: 2254, col: 7, offset: 72754},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2253, col: 7, offset: 72652},
+									pos:   position{line: 2254, col: 7, offset: 72754},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1847, col: 25, offset: 59568},
+										pos: position{line: 1848, col: 25, offset: 59670},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1847, col: 25, offset: 59568},
+											pos: position{line: 1848, col: 25, offset: 59670},
 											expr: &litMatcher{
-												pos:        position{line: 1847, col: 25, offset: 59568},
+												pos:        position{line: 1848, col: 25, offset: 59670},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42436,21 +42934,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2253, col: 42, offset: 72687},
+									pos:        position{line: 2254, col: 42, offset: 72789},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2253, col: 46, offset: 72691},
+									pos:   position{line: 2254, col: 46, offset: 72793},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2253, col: 56, offset: 72701},
+										pos:  position{line: 2254, col: 56, offset: 72803},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2253, col: 87, offset: 72732},
+									pos:        position{line: 2254, col: 87, offset: 72834},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42463,29 +42961,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2260, col: 1, offset: 72999},
+			pos:  position{line: 2261, col: 1, offset: 73101},
 			expr: &actionExpr{
-				pos: position{line: 2261, col: 5, offset: 73021},
+				pos: position{line: 2262, col: 5, offset: 73123},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2261, col: 5, offset: 73021},
+					pos: position{line: 2262, col: 5, offset: 73123},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2267, col: 27, offset: 73236},
+							pos:        position{line: 2268, col: 27, offset: 73338},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2262, col: 5, offset: 73048},
+							pos:   position{line: 2263, col: 5, offset: 73150},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2262, col: 14, offset: 73057},
+								pos:  position{line: 2263, col: 14, offset: 73159},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2267, col: 27, offset: 73236},
+							pos:        position{line: 2268, col: 27, offset: 73338},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42496,34 +42994,34 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2269, col: 1, offset: 73241},
+			pos:  position{line: 2270, col: 1, offset: 73343},
 			expr: &actionExpr{
-				pos: position{line: 2270, col: 5, offset: 73269},
+				pos: position{line: 2271, col: 5, offset: 73371},
 				run: (*parser).callonSubscriptTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2270, col: 5, offset: 73269},
+					pos: position{line: 2271, col: 5, offset: 73371},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2270, col: 5, offset: 73269},
+							pos: position{line: 2271, col: 5, offset: 73371},
 							run: (*parser).callonSubscriptTextElement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2274, col: 5, offset: 73389},
+							pos:   position{line: 2275, col: 5, offset: 73491},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2274, col: 14, offset: 73398},
+								pos: position{line: 2275, col: 14, offset: 73500},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2274, col: 14, offset: 73398},
+										pos:  position{line: 2275, col: 14, offset: 73500},
 										name: "QuotedText",
 									},
 									&actionExpr{
-										pos: position{line: 2278, col: 21, offset: 73486},
+										pos: position{line: 2279, col: 21, offset: 73588},
 										run: (*parser).callonSubscriptTextElement7,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2278, col: 21, offset: 73486},
+											pos: position{line: 2279, col: 21, offset: 73588},
 											expr: &charClassMatcher{
-												pos:        position{line: 2278, col: 21, offset: 73486},
+												pos:        position{line: 2279, col: 21, offset: 73588},
 												val:        "[^\\r\\n ~]",
 												chars:      []rune{'\r', '\n', ' ', '~'},
 												ignoreCase: false,
@@ -42540,23 +43038,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2282, col: 1, offset: 73571},
+			pos:  position{line: 2283, col: 1, offset: 73673},
 			expr: &actionExpr{
-				pos: position{line: 2284, col: 5, offset: 73638},
+				pos: position{line: 2285, col: 5, offset: 73740},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2284, col: 5, offset: 73638},
+					pos: position{line: 2285, col: 5, offset: 73740},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2284, col: 5, offset: 73638},
+							pos:   position{line: 2285, col: 5, offset: 73740},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1847, col: 25, offset: 59568},
+								pos: position{line: 1848, col: 25, offset: 59670},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1847, col: 25, offset: 59568},
+									pos: position{line: 1848, col: 25, offset: 59670},
 									expr: &litMatcher{
-										pos:        position{line: 1847, col: 25, offset: 59568},
+										pos:        position{line: 1848, col: 25, offset: 59670},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42565,21 +43063,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2267, col: 27, offset: 73236},
+							pos:        position{line: 2268, col: 27, offset: 73338},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2286, col: 5, offset: 73706},
+							pos:   position{line: 2287, col: 5, offset: 73808},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2286, col: 14, offset: 73715},
+								pos:  position{line: 2287, col: 14, offset: 73817},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2267, col: 27, offset: 73236},
+							pos:        position{line: 2268, col: 27, offset: 73338},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42590,29 +43088,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2294, col: 1, offset: 73978},
+			pos:  position{line: 2295, col: 1, offset: 74080},
 			expr: &actionExpr{
-				pos: position{line: 2295, col: 5, offset: 74002},
+				pos: position{line: 2296, col: 5, offset: 74104},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2295, col: 5, offset: 74002},
+					pos: position{line: 2296, col: 5, offset: 74104},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2301, col: 29, offset: 74229},
+							pos:        position{line: 2302, col: 29, offset: 74331},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2296, col: 5, offset: 74032},
+							pos:   position{line: 2297, col: 5, offset: 74134},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2296, col: 14, offset: 74041},
+								pos:  position{line: 2297, col: 14, offset: 74143},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2301, col: 29, offset: 74229},
+							pos:        position{line: 2302, col: 29, offset: 74331},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42623,34 +43121,34 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2303, col: 1, offset: 74234},
+			pos:  position{line: 2304, col: 1, offset: 74336},
 			expr: &actionExpr{
-				pos: position{line: 2304, col: 5, offset: 74264},
+				pos: position{line: 2305, col: 5, offset: 74366},
 				run: (*parser).callonSuperscriptTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2304, col: 5, offset: 74264},
+					pos: position{line: 2305, col: 5, offset: 74366},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2304, col: 5, offset: 74264},
+							pos: position{line: 2305, col: 5, offset: 74366},
 							run: (*parser).callonSuperscriptTextElement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2308, col: 5, offset: 74384},
+							pos:   position{line: 2309, col: 5, offset: 74486},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2308, col: 14, offset: 74393},
+								pos: position{line: 2309, col: 14, offset: 74495},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2308, col: 14, offset: 74393},
+										pos:  position{line: 2309, col: 14, offset: 74495},
 										name: "QuotedText",
 									},
 									&actionExpr{
-										pos: position{line: 2312, col: 23, offset: 74485},
+										pos: position{line: 2313, col: 23, offset: 74587},
 										run: (*parser).callonSuperscriptTextElement7,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2312, col: 23, offset: 74485},
+											pos: position{line: 2313, col: 23, offset: 74587},
 											expr: &charClassMatcher{
-												pos:        position{line: 2312, col: 23, offset: 74485},
+												pos:        position{line: 2313, col: 23, offset: 74587},
 												val:        "[^\\r\\n ^]",
 												chars:      []rune{'\r', '\n', ' ', '^'},
 												ignoreCase: false,
@@ -42667,23 +43165,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2316, col: 1, offset: 74570},
+			pos:  position{line: 2317, col: 1, offset: 74672},
 			expr: &actionExpr{
-				pos: position{line: 2318, col: 5, offset: 74642},
+				pos: position{line: 2319, col: 5, offset: 74744},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2318, col: 5, offset: 74642},
+					pos: position{line: 2319, col: 5, offset: 74744},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2318, col: 5, offset: 74642},
+							pos:   position{line: 2319, col: 5, offset: 74744},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1847, col: 25, offset: 59568},
+								pos: position{line: 1848, col: 25, offset: 59670},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1847, col: 25, offset: 59568},
+									pos: position{line: 1848, col: 25, offset: 59670},
 									expr: &litMatcher{
-										pos:        position{line: 1847, col: 25, offset: 59568},
+										pos:        position{line: 1848, col: 25, offset: 59670},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42692,21 +43190,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2301, col: 29, offset: 74229},
+							pos:        position{line: 2302, col: 29, offset: 74331},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2320, col: 5, offset: 74712},
+							pos:   position{line: 2321, col: 5, offset: 74814},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2320, col: 14, offset: 74721},
+								pos:  position{line: 2321, col: 14, offset: 74823},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2301, col: 29, offset: 74229},
+							pos:        position{line: 2302, col: 29, offset: 74331},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42717,27 +43215,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2329, col: 1, offset: 75190},
+			pos:  position{line: 2330, col: 1, offset: 75292},
 			expr: &actionExpr{
-				pos: position{line: 2330, col: 5, offset: 75206},
+				pos: position{line: 2331, col: 5, offset: 75308},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2330, col: 5, offset: 75206},
+					pos: position{line: 2331, col: 5, offset: 75308},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2330, col: 5, offset: 75206},
+							pos: position{line: 2331, col: 5, offset: 75308},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2333, col: 5, offset: 75269},
+							pos:   position{line: 2334, col: 5, offset: 75371},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2333, col: 12, offset: 75276},
+								pos: position{line: 2334, col: 12, offset: 75378},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2333, col: 12, offset: 75276},
+									pos: position{line: 2334, col: 12, offset: 75378},
 									expr: &litMatcher{
-										pos:        position{line: 2333, col: 13, offset: 75277},
+										pos:        position{line: 2334, col: 13, offset: 75379},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -42746,16 +43244,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2337, col: 5, offset: 75385},
+							pos: position{line: 2338, col: 5, offset: 75487},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2905, col: 11, offset: 91544},
+							pos: position{line: 2906, col: 11, offset: 91694},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2905, col: 11, offset: 91544},
+								pos: position{line: 2906, col: 11, offset: 91694},
 								expr: &charClassMatcher{
-									pos:        position{line: 2905, col: 11, offset: 91544},
+									pos:        position{line: 2906, col: 11, offset: 91694},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42764,36 +43262,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2341, col: 12, offset: 75544},
+							pos:   position{line: 2342, col: 12, offset: 75646},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2341, col: 19, offset: 75551},
+								pos:  position{line: 2342, col: 19, offset: 75653},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2923, col: 8, offset: 91881},
+							pos: position{line: 2924, col: 8, offset: 92031},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2910, col: 12, offset: 91654},
+									pos: position{line: 2911, col: 12, offset: 91804},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2910, col: 13, offset: 91655},
+										pos: position{line: 2911, col: 13, offset: 91805},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2910, col: 13, offset: 91655},
+												pos:        position{line: 2911, col: 13, offset: 91805},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2910, col: 20, offset: 91662},
+												pos:        position{line: 2911, col: 20, offset: 91812},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2910, col: 29, offset: 91671},
+												pos:        position{line: 2911, col: 29, offset: 91821},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -42802,9 +43300,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2920, col: 8, offset: 91831},
+									pos: position{line: 2921, col: 8, offset: 91981},
 									expr: &anyMatcher{
-										line: 2920, col: 9, offset: 91832,
+										line: 2921, col: 9, offset: 91982,
 									},
 								},
 							},
@@ -42815,24 +43313,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2345, col: 1, offset: 75647},
+			pos:  position{line: 2346, col: 1, offset: 75749},
 			expr: &actionExpr{
-				pos: position{line: 2346, col: 5, offset: 75668},
+				pos: position{line: 2347, col: 5, offset: 75770},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2346, col: 5, offset: 75668},
+					pos: position{line: 2347, col: 5, offset: 75770},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2346, col: 5, offset: 75668},
+							pos: position{line: 2347, col: 5, offset: 75770},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2352, col: 5, offset: 75859},
+							pos:   position{line: 2353, col: 5, offset: 75961},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2352, col: 14, offset: 75868},
+								pos: position{line: 2353, col: 14, offset: 75970},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2352, col: 15, offset: 75869},
+									pos:  position{line: 2353, col: 15, offset: 75971},
 									name: "SectionTitleElement",
 								},
 							},
@@ -42843,38 +43341,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2356, col: 1, offset: 75950},
+			pos:  position{line: 2357, col: 1, offset: 76052},
 			expr: &actionExpr{
-				pos: position{line: 2357, col: 5, offset: 75977},
+				pos: position{line: 2358, col: 5, offset: 76079},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2357, col: 5, offset: 75977},
+					pos: position{line: 2358, col: 5, offset: 76079},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2357, col: 5, offset: 75977},
+							pos: position{line: 2358, col: 5, offset: 76079},
 							expr: &choiceExpr{
-								pos: position{line: 2923, col: 8, offset: 91881},
+								pos: position{line: 2924, col: 8, offset: 92031},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2910, col: 12, offset: 91654},
+										pos: position{line: 2911, col: 12, offset: 91804},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2910, col: 13, offset: 91655},
+											pos: position{line: 2911, col: 13, offset: 91805},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2910, col: 13, offset: 91655},
+													pos:        position{line: 2911, col: 13, offset: 91805},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2910, col: 20, offset: 91662},
+													pos:        position{line: 2911, col: 20, offset: 91812},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2910, col: 29, offset: 91671},
+													pos:        position{line: 2911, col: 29, offset: 91821},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -42883,36 +43381,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2920, col: 8, offset: 91831},
+										pos: position{line: 2921, col: 8, offset: 91981},
 										expr: &anyMatcher{
-											line: 2920, col: 9, offset: 91832,
+											line: 2921, col: 9, offset: 91982,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2358, col: 5, offset: 75986},
+							pos:   position{line: 2359, col: 5, offset: 76088},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2359, col: 9, offset: 76004},
+								pos: position{line: 2360, col: 9, offset: 76106},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2800, col: 5, offset: 88725},
+										pos: position{line: 2801, col: 5, offset: 88875},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2800, col: 5, offset: 88725},
+											pos: position{line: 2801, col: 5, offset: 88875},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2800, col: 5, offset: 88725},
+													pos:   position{line: 2801, col: 5, offset: 88875},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2800, col: 11, offset: 88731},
+														pos: position{line: 2801, col: 11, offset: 88881},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2800, col: 11, offset: 88731},
+															pos: position{line: 2801, col: 11, offset: 88881},
 															expr: &charClassMatcher{
-																pos:        position{line: 2800, col: 11, offset: 88731},
+																pos:        position{line: 2801, col: 11, offset: 88881},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -42922,36 +43420,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2803, col: 5, offset: 88789},
+													pos: position{line: 2804, col: 5, offset: 88939},
 													expr: &seqExpr{
-														pos: position{line: 2804, col: 9, offset: 88800},
+														pos: position{line: 2805, col: 9, offset: 88950},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2804, col: 9, offset: 88800},
+																pos:        position{line: 2805, col: 9, offset: 88950},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2805, col: 9, offset: 88849},
+																pos: position{line: 2806, col: 9, offset: 88999},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2809, col: 5, offset: 88929},
+													pos: position{line: 2810, col: 5, offset: 89079},
 													expr: &seqExpr{
-														pos: position{line: 2810, col: 9, offset: 88940},
+														pos: position{line: 2811, col: 9, offset: 89090},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2810, col: 9, offset: 88940},
+																pos:        position{line: 2811, col: 9, offset: 89090},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2810, col: 13, offset: 88944},
+																pos:        position{line: 2811, col: 13, offset: 89094},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -42964,12 +43462,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2905, col: 11, offset: 91544},
+										pos: position{line: 2906, col: 11, offset: 91694},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2905, col: 11, offset: 91544},
+											pos: position{line: 2906, col: 11, offset: 91694},
 											expr: &charClassMatcher{
-												pos:        position{line: 2905, col: 11, offset: 91544},
+												pos:        position{line: 2906, col: 11, offset: 91694},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -42978,21 +43476,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2529, col: 5, offset: 81185},
+										pos: position{line: 2530, col: 5, offset: 81315},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2529, col: 5, offset: 81185},
+											pos: position{line: 2530, col: 5, offset: 81315},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2529, col: 5, offset: 81185},
+													pos:        position{line: 2530, col: 5, offset: 81315},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2529, col: 10, offset: 81190},
+													pos: position{line: 2530, col: 10, offset: 81320},
 													expr: &charClassMatcher{
-														pos:        position{line: 2529, col: 11, offset: 81191},
+														pos:        position{line: 2530, col: 11, offset: 81321},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43003,29 +43501,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2535, col: 5, offset: 81383},
+										pos: position{line: 2536, col: 5, offset: 81513},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2535, col: 5, offset: 81383},
+											pos: position{line: 2536, col: 5, offset: 81513},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2535, col: 5, offset: 81383},
+													pos: position{line: 2536, col: 5, offset: 81513},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2538, col: 5, offset: 81454},
+													pos: position{line: 2539, col: 5, offset: 81584},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2542, col: 5, offset: 81579},
+													pos:        position{line: 2543, col: 5, offset: 81709},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2542, col: 9, offset: 81583},
+													pos: position{line: 2543, col: 9, offset: 81713},
 													expr: &charClassMatcher{
-														pos:        position{line: 2542, col: 10, offset: 81584},
+														pos:        position{line: 2543, col: 10, offset: 81714},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43036,31 +43534,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2362, col: 11, offset: 76069},
+										pos:  position{line: 2363, col: 11, offset: 76171},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2818, col: 5, offset: 89137},
+										pos: position{line: 2819, col: 5, offset: 89287},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2819, col: 9, offset: 89147},
+											pos: position{line: 2820, col: 9, offset: 89297},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2819, col: 10, offset: 89148},
+													pos:        position{line: 2820, col: 10, offset: 89298},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2821, col: 13, offset: 89245},
+													pos: position{line: 2822, col: 13, offset: 89395},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2821, col: 13, offset: 89245},
+															pos: position{line: 2822, col: 13, offset: 89395},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2824, col: 13, offset: 89345},
+															pos:        position{line: 2825, col: 13, offset: 89495},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43068,20 +43566,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2824, col: 19, offset: 89351},
+													pos:        position{line: 2825, col: 19, offset: 89501},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2827, col: 13, offset: 89389},
+													pos: position{line: 2828, col: 13, offset: 89539},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2827, col: 13, offset: 89389},
+															pos: position{line: 2828, col: 13, offset: 89539},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2830, col: 14, offset: 89482},
+															pos:        position{line: 2831, col: 14, offset: 89632},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -43090,18 +43588,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2832, col: 12, offset: 89526},
+													pos: position{line: 2833, col: 12, offset: 89676},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2832, col: 12, offset: 89526},
+															pos:        position{line: 2833, col: 12, offset: 89676},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2832, col: 16, offset: 89530},
+															pos: position{line: 2833, col: 16, offset: 89680},
 															expr: &litMatcher{
-																pos:        position{line: 2832, col: 17, offset: 89531},
+																pos:        position{line: 2833, col: 17, offset: 89681},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -43113,35 +43611,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2364, col: 11, offset: 76142},
+										pos:  position{line: 2365, col: 11, offset: 76244},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2365, col: 11, offset: 76158},
+										pos:  position{line: 2366, col: 11, offset: 76260},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2366, col: 11, offset: 76186},
+										pos:  position{line: 2367, col: 11, offset: 76288},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2498, col: 5, offset: 80014},
+										pos: position{line: 2499, col: 5, offset: 80116},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2498, col: 5, offset: 80014},
+											pos: position{line: 2499, col: 5, offset: 80116},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2498, col: 5, offset: 80014},
+													pos: position{line: 2499, col: 5, offset: 80116},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2501, col: 5, offset: 80090},
+													pos:   position{line: 2502, col: 5, offset: 80192},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2502, col: 9, offset: 80108},
+														pos: position{line: 2503, col: 9, offset: 80210},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2502, col: 10, offset: 80109},
+															pos:        position{line: 2503, col: 10, offset: 80211},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -43153,39 +43651,39 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2368, col: 11, offset: 76271},
+										pos:  position{line: 2369, col: 11, offset: 76373},
 										name: "InlineIcon",
 									},
 									&actionExpr{
-										pos: position{line: 637, col: 5, offset: 20136},
+										pos: position{line: 637, col: 5, offset: 20204},
 										run: (*parser).callonSectionTitleElement68,
 										expr: &seqExpr{
-											pos: position{line: 637, col: 5, offset: 20136},
+											pos: position{line: 637, col: 5, offset: 20204},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 637, col: 5, offset: 20136},
+													pos: position{line: 637, col: 5, offset: 20204},
 													run: (*parser).callonSectionTitleElement70,
 												},
 												&labeledExpr{
-													pos:   position{line: 640, col: 5, offset: 20208},
+													pos:   position{line: 640, col: 5, offset: 20276},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 640, col: 14, offset: 20217},
+														pos: position{line: 640, col: 14, offset: 20285},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 646, col: 5, offset: 20346},
+																pos: position{line: 646, col: 5, offset: 20414},
 																run: (*parser).callonSectionTitleElement73,
 																expr: &seqExpr{
-																	pos: position{line: 646, col: 5, offset: 20346},
+																	pos: position{line: 646, col: 5, offset: 20414},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 646, col: 5, offset: 20346},
+																			pos:        position{line: 646, col: 5, offset: 20414},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 646, col: 13, offset: 20354},
+																			pos:   position{line: 646, col: 13, offset: 20422},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -43217,7 +43715,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 646, col: 32, offset: 20373},
+																			pos:        position{line: 646, col: 32, offset: 20441},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -43226,19 +43724,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 653, col: 5, offset: 20614},
+																pos: position{line: 653, col: 5, offset: 20682},
 																run: (*parser).callonSectionTitleElement83,
 																expr: &seqExpr{
-																	pos: position{line: 653, col: 5, offset: 20614},
+																	pos: position{line: 653, col: 5, offset: 20682},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 653, col: 5, offset: 20614},
+																			pos:        position{line: 653, col: 5, offset: 20682},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 653, col: 9, offset: 20618},
+																			pos:   position{line: 653, col: 9, offset: 20686},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -43270,7 +43768,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 653, col: 28, offset: 20637},
+																			pos:        position{line: 653, col: 28, offset: 20705},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -43279,19 +43777,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 659, col: 25, offset: 20818},
+																pos: position{line: 659, col: 25, offset: 20886},
 																run: (*parser).callonSectionTitleElement93,
 																expr: &seqExpr{
-																	pos: position{line: 659, col: 25, offset: 20818},
+																	pos: position{line: 659, col: 25, offset: 20886},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 659, col: 25, offset: 20818},
+																			pos:        position{line: 659, col: 25, offset: 20886},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 659, col: 37, offset: 20830},
+																			pos:   position{line: 659, col: 37, offset: 20898},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -43323,33 +43821,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 659, col: 56, offset: 20849},
+																			pos:   position{line: 659, col: 56, offset: 20917},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 659, col: 62, offset: 20855},
+																				pos: position{line: 659, col: 62, offset: 20923},
 																				expr: &actionExpr{
-																					pos: position{line: 667, col: 17, offset: 21152},
+																					pos: position{line: 667, col: 17, offset: 21220},
 																					run: (*parser).callonSectionTitleElement104,
 																					expr: &seqExpr{
-																						pos: position{line: 667, col: 17, offset: 21152},
+																						pos: position{line: 667, col: 17, offset: 21220},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 667, col: 17, offset: 21152},
+																								pos:        position{line: 667, col: 17, offset: 21220},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 667, col: 21, offset: 21156},
+																								pos:   position{line: 667, col: 21, offset: 21224},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 667, col: 28, offset: 21163},
+																									pos: position{line: 667, col: 28, offset: 21231},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 667, col: 28, offset: 21163},
+																											pos: position{line: 667, col: 28, offset: 21231},
 																											run: (*parser).callonSectionTitleElement109,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 667, col: 28, offset: 21163},
+																												pos:        position{line: 667, col: 28, offset: 21231},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -43357,12 +43855,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 669, col: 9, offset: 21217},
+																											pos: position{line: 669, col: 9, offset: 21285},
 																											run: (*parser).callonSectionTitleElement111,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 669, col: 9, offset: 21217},
+																												pos: position{line: 669, col: 9, offset: 21285},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 669, col: 9, offset: 21217},
+																													pos:        position{line: 669, col: 9, offset: 21285},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -43379,7 +43877,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 659, col: 78, offset: 20871},
+																			pos:        position{line: 659, col: 78, offset: 20939},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -43388,19 +43886,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 663, col: 25, offset: 20989},
+																pos: position{line: 663, col: 25, offset: 21057},
 																run: (*parser).callonSectionTitleElement115,
 																expr: &seqExpr{
-																	pos: position{line: 663, col: 25, offset: 20989},
+																	pos: position{line: 663, col: 25, offset: 21057},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 663, col: 25, offset: 20989},
+																			pos:        position{line: 663, col: 25, offset: 21057},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 663, col: 38, offset: 21002},
+																			pos:   position{line: 663, col: 38, offset: 21070},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -43432,33 +43930,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 663, col: 57, offset: 21021},
+																			pos:   position{line: 663, col: 57, offset: 21089},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 663, col: 63, offset: 21027},
+																				pos: position{line: 663, col: 63, offset: 21095},
 																				expr: &actionExpr{
-																					pos: position{line: 667, col: 17, offset: 21152},
+																					pos: position{line: 667, col: 17, offset: 21220},
 																					run: (*parser).callonSectionTitleElement126,
 																					expr: &seqExpr{
-																						pos: position{line: 667, col: 17, offset: 21152},
+																						pos: position{line: 667, col: 17, offset: 21220},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 667, col: 17, offset: 21152},
+																								pos:        position{line: 667, col: 17, offset: 21220},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 667, col: 21, offset: 21156},
+																								pos:   position{line: 667, col: 21, offset: 21224},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 667, col: 28, offset: 21163},
+																									pos: position{line: 667, col: 28, offset: 21231},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 667, col: 28, offset: 21163},
+																											pos: position{line: 667, col: 28, offset: 21231},
 																											run: (*parser).callonSectionTitleElement131,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 667, col: 28, offset: 21163},
+																												pos:        position{line: 667, col: 28, offset: 21231},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -43466,12 +43964,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 669, col: 9, offset: 21217},
+																											pos: position{line: 669, col: 9, offset: 21285},
 																											run: (*parser).callonSectionTitleElement133,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 669, col: 9, offset: 21217},
+																												pos: position{line: 669, col: 9, offset: 21285},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 669, col: 9, offset: 21217},
+																													pos:        position{line: 669, col: 9, offset: 21285},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -43488,7 +43986,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 663, col: 79, offset: 21043},
+																			pos:        position{line: 663, col: 79, offset: 21111},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -43503,27 +44001,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1199, col: 23, offset: 37001},
+										pos: position{line: 1199, col: 23, offset: 37069},
 										run: (*parser).callonSectionTitleElement137,
 										expr: &seqExpr{
-											pos: position{line: 1199, col: 23, offset: 37001},
+											pos: position{line: 1199, col: 23, offset: 37069},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1197, col: 32, offset: 36969},
+													pos:        position{line: 1197, col: 32, offset: 37037},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1199, col: 51, offset: 37029},
+													pos:   position{line: 1199, col: 51, offset: 37097},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1199, col: 56, offset: 37034},
+														pos: position{line: 1199, col: 56, offset: 37102},
 														run: (*parser).callonSectionTitleElement141,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1199, col: 56, offset: 37034},
+															pos: position{line: 1199, col: 56, offset: 37102},
 															expr: &charClassMatcher{
-																pos:        position{line: 1199, col: 56, offset: 37034},
+																pos:        position{line: 1199, col: 56, offset: 37102},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -43533,7 +44031,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1197, col: 32, offset: 36969},
+													pos:        position{line: 1197, col: 32, offset: 37037},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -43542,51 +44040,51 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2381, col: 5, offset: 76724},
+										pos: position{line: 2382, col: 5, offset: 76826},
 										run: (*parser).callonSectionTitleElement145,
 										expr: &seqExpr{
-											pos: position{line: 2381, col: 5, offset: 76724},
+											pos: position{line: 2382, col: 5, offset: 76826},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2381, col: 5, offset: 76724},
+													pos: position{line: 2382, col: 5, offset: 76826},
 													run: (*parser).callonSectionTitleElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2384, col: 5, offset: 76779},
+													pos:   position{line: 2385, col: 5, offset: 76881},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 404, col: 5, offset: 12337},
+														pos: position{line: 404, col: 5, offset: 12405},
 														run: (*parser).callonSectionTitleElement149,
 														expr: &seqExpr{
-															pos: position{line: 404, col: 5, offset: 12337},
+															pos: position{line: 404, col: 5, offset: 12405},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 404, col: 5, offset: 12337},
+																	pos:        position{line: 404, col: 5, offset: 12405},
 																	val:        "[[",
 																	ignoreCase: false,
 																	want:       "\"[[\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 405, col: 5, offset: 12347},
+																	pos:   position{line: 405, col: 5, offset: 12415},
 																	label: "id",
 																	expr: &actionExpr{
-																		pos: position{line: 406, col: 9, offset: 12360},
+																		pos: position{line: 406, col: 9, offset: 12428},
 																		run: (*parser).callonSectionTitleElement153,
 																		expr: &labeledExpr{
-																			pos:   position{line: 406, col: 9, offset: 12360},
+																			pos:   position{line: 406, col: 9, offset: 12428},
 																			label: "elements",
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 406, col: 18, offset: 12369},
+																				pos: position{line: 406, col: 18, offset: 12437},
 																				expr: &choiceExpr{
-																					pos: position{line: 407, col: 13, offset: 12383},
+																					pos: position{line: 407, col: 13, offset: 12451},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 407, col: 14, offset: 12384},
+																							pos: position{line: 407, col: 14, offset: 12452},
 																							run: (*parser).callonSectionTitleElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 407, col: 14, offset: 12384},
+																								pos: position{line: 407, col: 14, offset: 12452},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 407, col: 14, offset: 12384},
+																									pos:        position{line: 407, col: 14, offset: 12452},
 																									val:        "[^=\\r\\n�{]]",
 																									chars:      []rune{'=', '\r', '\n', '�', '{', ']'},
 																									ignoreCase: false,
@@ -43595,27 +44093,27 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 1199, col: 23, offset: 37001},
+																							pos: position{line: 1199, col: 23, offset: 37069},
 																							run: (*parser).callonSectionTitleElement160,
 																							expr: &seqExpr{
-																								pos: position{line: 1199, col: 23, offset: 37001},
+																								pos: position{line: 1199, col: 23, offset: 37069},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1197, col: 32, offset: 36969},
+																										pos:        position{line: 1197, col: 32, offset: 37037},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1199, col: 51, offset: 37029},
+																										pos:   position{line: 1199, col: 51, offset: 37097},
 																										label: "ref",
 																										expr: &actionExpr{
-																											pos: position{line: 1199, col: 56, offset: 37034},
+																											pos: position{line: 1199, col: 56, offset: 37102},
 																											run: (*parser).callonSectionTitleElement164,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1199, col: 56, offset: 37034},
+																												pos: position{line: 1199, col: 56, offset: 37102},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1199, col: 56, offset: 37034},
+																													pos:        position{line: 1199, col: 56, offset: 37102},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -43625,7 +44123,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1197, col: 32, offset: 36969},
+																										pos:        position{line: 1197, col: 32, offset: 37037},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
@@ -43634,35 +44132,35 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 637, col: 5, offset: 20136},
+																							pos: position{line: 637, col: 5, offset: 20204},
 																							run: (*parser).callonSectionTitleElement168,
 																							expr: &seqExpr{
-																								pos: position{line: 637, col: 5, offset: 20136},
+																								pos: position{line: 637, col: 5, offset: 20204},
 																								exprs: []interface{}{
 																									&andCodeExpr{
-																										pos: position{line: 637, col: 5, offset: 20136},
+																										pos: position{line: 637, col: 5, offset: 20204},
 																										run: (*parser).callonSectionTitleElement170,
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 640, col: 5, offset: 20208},
+																										pos:   position{line: 640, col: 5, offset: 20276},
 																										label: "element",
 																										expr: &choiceExpr{
-																											pos: position{line: 640, col: 14, offset: 20217},
+																											pos: position{line: 640, col: 14, offset: 20285},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 646, col: 5, offset: 20346},
+																													pos: position{line: 646, col: 5, offset: 20414},
 																													run: (*parser).callonSectionTitleElement173,
 																													expr: &seqExpr{
-																														pos: position{line: 646, col: 5, offset: 20346},
+																														pos: position{line: 646, col: 5, offset: 20414},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 646, col: 5, offset: 20346},
+																																pos:        position{line: 646, col: 5, offset: 20414},
 																																val:        "\\{",
 																																ignoreCase: false,
 																																want:       "\"\\\\{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 646, col: 13, offset: 20354},
+																																pos:   position{line: 646, col: 13, offset: 20422},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9736},
@@ -43694,7 +44192,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 646, col: 32, offset: 20373},
+																																pos:        position{line: 646, col: 32, offset: 20441},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -43703,19 +44201,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 653, col: 5, offset: 20614},
+																													pos: position{line: 653, col: 5, offset: 20682},
 																													run: (*parser).callonSectionTitleElement183,
 																													expr: &seqExpr{
-																														pos: position{line: 653, col: 5, offset: 20614},
+																														pos: position{line: 653, col: 5, offset: 20682},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 653, col: 5, offset: 20614},
+																																pos:        position{line: 653, col: 5, offset: 20682},
 																																val:        "{",
 																																ignoreCase: false,
 																																want:       "\"{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 653, col: 9, offset: 20618},
+																																pos:   position{line: 653, col: 9, offset: 20686},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9736},
@@ -43747,7 +44245,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 653, col: 28, offset: 20637},
+																																pos:        position{line: 653, col: 28, offset: 20705},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -43756,19 +44254,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 659, col: 25, offset: 20818},
+																													pos: position{line: 659, col: 25, offset: 20886},
 																													run: (*parser).callonSectionTitleElement193,
 																													expr: &seqExpr{
-																														pos: position{line: 659, col: 25, offset: 20818},
+																														pos: position{line: 659, col: 25, offset: 20886},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 659, col: 25, offset: 20818},
+																																pos:        position{line: 659, col: 25, offset: 20886},
 																																val:        "{counter:",
 																																ignoreCase: false,
 																																want:       "\"{counter:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 659, col: 37, offset: 20830},
+																																pos:   position{line: 659, col: 37, offset: 20898},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9736},
@@ -43800,33 +44298,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 659, col: 56, offset: 20849},
+																																pos:   position{line: 659, col: 56, offset: 20917},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 659, col: 62, offset: 20855},
+																																	pos: position{line: 659, col: 62, offset: 20923},
 																																	expr: &actionExpr{
-																																		pos: position{line: 667, col: 17, offset: 21152},
+																																		pos: position{line: 667, col: 17, offset: 21220},
 																																		run: (*parser).callonSectionTitleElement204,
 																																		expr: &seqExpr{
-																																			pos: position{line: 667, col: 17, offset: 21152},
+																																			pos: position{line: 667, col: 17, offset: 21220},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 667, col: 17, offset: 21152},
+																																					pos:        position{line: 667, col: 17, offset: 21220},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 667, col: 21, offset: 21156},
+																																					pos:   position{line: 667, col: 21, offset: 21224},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 667, col: 28, offset: 21163},
+																																						pos: position{line: 667, col: 28, offset: 21231},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 667, col: 28, offset: 21163},
+																																								pos: position{line: 667, col: 28, offset: 21231},
 																																								run: (*parser).callonSectionTitleElement209,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 667, col: 28, offset: 21163},
+																																									pos:        position{line: 667, col: 28, offset: 21231},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -43834,12 +44332,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 669, col: 9, offset: 21217},
+																																								pos: position{line: 669, col: 9, offset: 21285},
 																																								run: (*parser).callonSectionTitleElement211,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 669, col: 9, offset: 21217},
+																																									pos: position{line: 669, col: 9, offset: 21285},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 669, col: 9, offset: 21217},
+																																										pos:        position{line: 669, col: 9, offset: 21285},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -43856,7 +44354,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 659, col: 78, offset: 20871},
+																																pos:        position{line: 659, col: 78, offset: 20939},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -43865,19 +44363,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 663, col: 25, offset: 20989},
+																													pos: position{line: 663, col: 25, offset: 21057},
 																													run: (*parser).callonSectionTitleElement215,
 																													expr: &seqExpr{
-																														pos: position{line: 663, col: 25, offset: 20989},
+																														pos: position{line: 663, col: 25, offset: 21057},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 663, col: 25, offset: 20989},
+																																pos:        position{line: 663, col: 25, offset: 21057},
 																																val:        "{counter2:",
 																																ignoreCase: false,
 																																want:       "\"{counter2:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 663, col: 38, offset: 21002},
+																																pos:   position{line: 663, col: 38, offset: 21070},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9736},
@@ -43909,33 +44407,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 663, col: 57, offset: 21021},
+																																pos:   position{line: 663, col: 57, offset: 21089},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 663, col: 63, offset: 21027},
+																																	pos: position{line: 663, col: 63, offset: 21095},
 																																	expr: &actionExpr{
-																																		pos: position{line: 667, col: 17, offset: 21152},
+																																		pos: position{line: 667, col: 17, offset: 21220},
 																																		run: (*parser).callonSectionTitleElement226,
 																																		expr: &seqExpr{
-																																			pos: position{line: 667, col: 17, offset: 21152},
+																																			pos: position{line: 667, col: 17, offset: 21220},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 667, col: 17, offset: 21152},
+																																					pos:        position{line: 667, col: 17, offset: 21220},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 667, col: 21, offset: 21156},
+																																					pos:   position{line: 667, col: 21, offset: 21224},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 667, col: 28, offset: 21163},
+																																						pos: position{line: 667, col: 28, offset: 21231},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 667, col: 28, offset: 21163},
+																																								pos: position{line: 667, col: 28, offset: 21231},
 																																								run: (*parser).callonSectionTitleElement231,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 667, col: 28, offset: 21163},
+																																									pos:        position{line: 667, col: 28, offset: 21231},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -43943,12 +44441,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 669, col: 9, offset: 21217},
+																																								pos: position{line: 669, col: 9, offset: 21285},
 																																								run: (*parser).callonSectionTitleElement233,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 669, col: 9, offset: 21217},
+																																									pos: position{line: 669, col: 9, offset: 21285},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 669, col: 9, offset: 21217},
+																																										pos:        position{line: 669, col: 9, offset: 21285},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -43965,7 +44463,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 663, col: 79, offset: 21043},
+																																pos:        position{line: 663, col: 79, offset: 21111},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -43980,10 +44478,10 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 412, col: 16, offset: 12617},
+																							pos: position{line: 412, col: 16, offset: 12685},
 																							run: (*parser).callonSectionTitleElement237,
 																							expr: &litMatcher{
-																								pos:        position{line: 412, col: 16, offset: 12617},
+																								pos:        position{line: 412, col: 16, offset: 12685},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
@@ -43996,7 +44494,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 418, col: 5, offset: 12803},
+																	pos:        position{line: 418, col: 5, offset: 12871},
 																	val:        "]]",
 																	ignoreCase: false,
 																	want:       "\"]]\"",
@@ -44006,12 +44504,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2384, col: 26, offset: 76800},
+													pos: position{line: 2385, col: 26, offset: 76902},
 													expr: &actionExpr{
-														pos: position{line: 2901, col: 10, offset: 91483},
+														pos: position{line: 2902, col: 10, offset: 91633},
 														run: (*parser).callonSectionTitleElement241,
 														expr: &charClassMatcher{
-															pos:        position{line: 2901, col: 10, offset: 91483},
+															pos:        position{line: 2902, col: 10, offset: 91633},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44020,30 +44518,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2384, col: 33, offset: 76807},
+													pos: position{line: 2385, col: 33, offset: 76909},
 													expr: &choiceExpr{
-														pos: position{line: 2923, col: 8, offset: 91881},
+														pos: position{line: 2924, col: 8, offset: 92031},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2910, col: 12, offset: 91654},
+																pos: position{line: 2911, col: 12, offset: 91804},
 																run: (*parser).callonSectionTitleElement245,
 																expr: &choiceExpr{
-																	pos: position{line: 2910, col: 13, offset: 91655},
+																	pos: position{line: 2911, col: 13, offset: 91805},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 13, offset: 91655},
+																			pos:        position{line: 2911, col: 13, offset: 91805},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 20, offset: 91662},
+																			pos:        position{line: 2911, col: 20, offset: 91812},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2910, col: 29, offset: 91671},
+																			pos:        position{line: 2911, col: 29, offset: 91821},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44052,9 +44550,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2920, col: 8, offset: 91831},
+																pos: position{line: 2921, col: 8, offset: 91981},
 																expr: &anyMatcher{
-																	line: 2920, col: 9, offset: 91832,
+																	line: 2921, col: 9, offset: 91982,
 																},
 															},
 														},
@@ -44064,27 +44562,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1254, col: 5, offset: 38761},
+										pos: position{line: 1254, col: 5, offset: 38829},
 										run: (*parser).callonSectionTitleElement252,
 										expr: &seqExpr{
-											pos: position{line: 1254, col: 5, offset: 38761},
+											pos: position{line: 1254, col: 5, offset: 38829},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1254, col: 5, offset: 38761},
+													pos:        position{line: 1254, col: 5, offset: 38829},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1254, col: 14, offset: 38770},
+													pos:   position{line: 1254, col: 14, offset: 38838},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 7, offset: 91135},
+														pos: position{line: 2887, col: 7, offset: 91285},
 														run: (*parser).callonSectionTitleElement256,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2886, col: 7, offset: 91135},
+															pos: position{line: 2887, col: 7, offset: 91285},
 															expr: &charClassMatcher{
-																pos:        position{line: 2886, col: 7, offset: 91135},
+																pos:        position{line: 2887, col: 7, offset: 91285},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -44094,7 +44592,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1254, col: 22, offset: 38778},
+													pos:        position{line: 1254, col: 22, offset: 38846},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44103,27 +44601,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1259, col: 5, offset: 38897},
+										pos: position{line: 1259, col: 5, offset: 38965},
 										run: (*parser).callonSectionTitleElement260,
 										expr: &seqExpr{
-											pos: position{line: 1259, col: 5, offset: 38897},
+											pos: position{line: 1259, col: 5, offset: 38965},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1259, col: 5, offset: 38897},
+													pos:        position{line: 1259, col: 5, offset: 38965},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1259, col: 10, offset: 38902},
+													pos:   position{line: 1259, col: 10, offset: 38970},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 7, offset: 91135},
+														pos: position{line: 2887, col: 7, offset: 91285},
 														run: (*parser).callonSectionTitleElement264,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2886, col: 7, offset: 91135},
+															pos: position{line: 2887, col: 7, offset: 91285},
 															expr: &charClassMatcher{
-																pos:        position{line: 2886, col: 7, offset: 91135},
+																pos:        position{line: 2887, col: 7, offset: 91285},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -44133,7 +44631,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1259, col: 18, offset: 38910},
+													pos:        position{line: 1259, col: 18, offset: 38978},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44142,14 +44640,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2373, col: 11, offset: 76525},
+										pos:  position{line: 2374, col: 11, offset: 76627},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2840, col: 12, offset: 89791},
+										pos: position{line: 2841, col: 12, offset: 89941},
 										run: (*parser).callonSectionTitleElement269,
 										expr: &charClassMatcher{
-											pos:        position{line: 2840, col: 12, offset: 89791},
+											pos:        position{line: 2841, col: 12, offset: 89941},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -44165,52 +44663,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2394, col: 1, offset: 77069},
+			pos:  position{line: 2395, col: 1, offset: 77171},
 			expr: &actionExpr{
-				pos: position{line: 2395, col: 5, offset: 77156},
+				pos: position{line: 2396, col: 5, offset: 77258},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2395, col: 5, offset: 77156},
+					pos: position{line: 2396, col: 5, offset: 77258},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2395, col: 5, offset: 77156},
+							pos:   position{line: 2396, col: 5, offset: 77258},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2395, col: 14, offset: 77165},
+								pos: position{line: 2396, col: 14, offset: 77267},
 								expr: &actionExpr{
-									pos: position{line: 2397, col: 9, offset: 77191},
+									pos: position{line: 2398, col: 9, offset: 77293},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2397, col: 9, offset: 77191},
+										pos: position{line: 2398, col: 9, offset: 77293},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2918, col: 11, offset: 91817},
+												pos: position{line: 2919, col: 11, offset: 91967},
 												expr: &anyMatcher{
-													line: 2918, col: 13, offset: 91819,
+													line: 2919, col: 13, offset: 91969,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2398, col: 9, offset: 77206},
+												pos:   position{line: 2399, col: 9, offset: 77308},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2399, col: 13, offset: 77228},
+													pos: position{line: 2400, col: 13, offset: 77330},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2800, col: 5, offset: 88725},
+															pos: position{line: 2801, col: 5, offset: 88875},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2800, col: 5, offset: 88725},
+																pos: position{line: 2801, col: 5, offset: 88875},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2800, col: 5, offset: 88725},
+																		pos:   position{line: 2801, col: 5, offset: 88875},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2800, col: 11, offset: 88731},
+																			pos: position{line: 2801, col: 11, offset: 88881},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2800, col: 11, offset: 88731},
+																				pos: position{line: 2801, col: 11, offset: 88881},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2800, col: 11, offset: 88731},
+																					pos:        position{line: 2801, col: 11, offset: 88881},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44220,36 +44718,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2803, col: 5, offset: 88789},
+																		pos: position{line: 2804, col: 5, offset: 88939},
 																		expr: &seqExpr{
-																			pos: position{line: 2804, col: 9, offset: 88800},
+																			pos: position{line: 2805, col: 9, offset: 88950},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2804, col: 9, offset: 88800},
+																					pos:        position{line: 2805, col: 9, offset: 88950},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2805, col: 9, offset: 88849},
+																					pos: position{line: 2806, col: 9, offset: 88999},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2809, col: 5, offset: 88929},
+																		pos: position{line: 2810, col: 5, offset: 89079},
 																		expr: &seqExpr{
-																			pos: position{line: 2810, col: 9, offset: 88940},
+																			pos: position{line: 2811, col: 9, offset: 89090},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2810, col: 9, offset: 88940},
+																					pos:        position{line: 2811, col: 9, offset: 89090},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2810, col: 13, offset: 88944},
+																					pos:        position{line: 2811, col: 13, offset: 89094},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44262,12 +44760,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2905, col: 11, offset: 91544},
+															pos: position{line: 2906, col: 11, offset: 91694},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2905, col: 11, offset: 91544},
+																pos: position{line: 2906, col: 11, offset: 91694},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2905, col: 11, offset: 91544},
+																	pos:        position{line: 2906, col: 11, offset: 91694},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -44276,25 +44774,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2401, col: 15, offset: 77274},
+															pos:  position{line: 2402, col: 15, offset: 77376},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2529, col: 5, offset: 81185},
+															pos: position{line: 2530, col: 5, offset: 81315},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2529, col: 5, offset: 81185},
+																pos: position{line: 2530, col: 5, offset: 81315},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2529, col: 5, offset: 81185},
+																		pos:        position{line: 2530, col: 5, offset: 81315},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2529, col: 10, offset: 81190},
+																		pos: position{line: 2530, col: 10, offset: 81320},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2529, col: 11, offset: 81191},
+																			pos:        position{line: 2530, col: 11, offset: 81321},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44305,29 +44803,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2535, col: 5, offset: 81383},
+															pos: position{line: 2536, col: 5, offset: 81513},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2535, col: 5, offset: 81383},
+																pos: position{line: 2536, col: 5, offset: 81513},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2535, col: 5, offset: 81383},
+																		pos: position{line: 2536, col: 5, offset: 81513},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2538, col: 5, offset: 81454},
+																		pos: position{line: 2539, col: 5, offset: 81584},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2542, col: 5, offset: 81579},
+																		pos:        position{line: 2543, col: 5, offset: 81709},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2542, col: 9, offset: 81583},
+																		pos: position{line: 2543, col: 9, offset: 81713},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2542, col: 10, offset: 81584},
+																			pos:        position{line: 2543, col: 10, offset: 81714},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44338,27 +44836,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2818, col: 5, offset: 89137},
+															pos: position{line: 2819, col: 5, offset: 89287},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2819, col: 9, offset: 89147},
+																pos: position{line: 2820, col: 9, offset: 89297},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2819, col: 10, offset: 89148},
+																		pos:        position{line: 2820, col: 10, offset: 89298},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2821, col: 13, offset: 89245},
+																		pos: position{line: 2822, col: 13, offset: 89395},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2821, col: 13, offset: 89245},
+																				pos: position{line: 2822, col: 13, offset: 89395},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2824, col: 13, offset: 89345},
+																				pos:        position{line: 2825, col: 13, offset: 89495},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -44366,20 +44864,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2824, col: 19, offset: 89351},
+																		pos:        position{line: 2825, col: 19, offset: 89501},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2827, col: 13, offset: 89389},
+																		pos: position{line: 2828, col: 13, offset: 89539},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2827, col: 13, offset: 89389},
+																				pos: position{line: 2828, col: 13, offset: 89539},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2830, col: 14, offset: 89482},
+																				pos:        position{line: 2831, col: 14, offset: 89632},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -44388,18 +44886,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2832, col: 12, offset: 89526},
+																		pos: position{line: 2833, col: 12, offset: 89676},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2832, col: 12, offset: 89526},
+																				pos:        position{line: 2833, col: 12, offset: 89676},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2832, col: 16, offset: 89530},
+																				pos: position{line: 2833, col: 16, offset: 89680},
 																				expr: &litMatcher{
-																					pos:        position{line: 2832, col: 17, offset: 89531},
+																					pos:        position{line: 2833, col: 17, offset: 89681},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -44411,25 +44909,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2910, col: 12, offset: 91654},
+															pos: position{line: 2911, col: 12, offset: 91804},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2910, col: 13, offset: 91655},
+																pos: position{line: 2911, col: 13, offset: 91805},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 13, offset: 91655},
+																		pos:        position{line: 2911, col: 13, offset: 91805},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 20, offset: 91662},
+																		pos:        position{line: 2911, col: 20, offset: 91812},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 29, offset: 91671},
+																		pos:        position{line: 2911, col: 29, offset: 91821},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -44438,35 +44936,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 637, col: 5, offset: 20136},
+															pos: position{line: 637, col: 5, offset: 20204},
 															run: (*parser).callonNormalGroup60,
 															expr: &seqExpr{
-																pos: position{line: 637, col: 5, offset: 20136},
+																pos: position{line: 637, col: 5, offset: 20204},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 637, col: 5, offset: 20136},
+																		pos: position{line: 637, col: 5, offset: 20204},
 																		run: (*parser).callonNormalGroup62,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 640, col: 5, offset: 20208},
+																		pos:   position{line: 640, col: 5, offset: 20276},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 640, col: 14, offset: 20217},
+																			pos: position{line: 640, col: 14, offset: 20285},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 646, col: 5, offset: 20346},
+																					pos: position{line: 646, col: 5, offset: 20414},
 																					run: (*parser).callonNormalGroup65,
 																					expr: &seqExpr{
-																						pos: position{line: 646, col: 5, offset: 20346},
+																						pos: position{line: 646, col: 5, offset: 20414},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 646, col: 5, offset: 20346},
+																								pos:        position{line: 646, col: 5, offset: 20414},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 646, col: 13, offset: 20354},
+																								pos:   position{line: 646, col: 13, offset: 20422},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -44498,7 +44996,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 646, col: 32, offset: 20373},
+																								pos:        position{line: 646, col: 32, offset: 20441},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -44507,19 +45005,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 653, col: 5, offset: 20614},
+																					pos: position{line: 653, col: 5, offset: 20682},
 																					run: (*parser).callonNormalGroup75,
 																					expr: &seqExpr{
-																						pos: position{line: 653, col: 5, offset: 20614},
+																						pos: position{line: 653, col: 5, offset: 20682},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 653, col: 5, offset: 20614},
+																								pos:        position{line: 653, col: 5, offset: 20682},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 653, col: 9, offset: 20618},
+																								pos:   position{line: 653, col: 9, offset: 20686},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -44551,7 +45049,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 653, col: 28, offset: 20637},
+																								pos:        position{line: 653, col: 28, offset: 20705},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -44560,19 +45058,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 659, col: 25, offset: 20818},
+																					pos: position{line: 659, col: 25, offset: 20886},
 																					run: (*parser).callonNormalGroup85,
 																					expr: &seqExpr{
-																						pos: position{line: 659, col: 25, offset: 20818},
+																						pos: position{line: 659, col: 25, offset: 20886},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 659, col: 25, offset: 20818},
+																								pos:        position{line: 659, col: 25, offset: 20886},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 659, col: 37, offset: 20830},
+																								pos:   position{line: 659, col: 37, offset: 20898},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -44604,33 +45102,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 659, col: 56, offset: 20849},
+																								pos:   position{line: 659, col: 56, offset: 20917},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 659, col: 62, offset: 20855},
+																									pos: position{line: 659, col: 62, offset: 20923},
 																									expr: &actionExpr{
-																										pos: position{line: 667, col: 17, offset: 21152},
+																										pos: position{line: 667, col: 17, offset: 21220},
 																										run: (*parser).callonNormalGroup96,
 																										expr: &seqExpr{
-																											pos: position{line: 667, col: 17, offset: 21152},
+																											pos: position{line: 667, col: 17, offset: 21220},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 667, col: 17, offset: 21152},
+																													pos:        position{line: 667, col: 17, offset: 21220},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 667, col: 21, offset: 21156},
+																													pos:   position{line: 667, col: 21, offset: 21224},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 667, col: 28, offset: 21163},
+																														pos: position{line: 667, col: 28, offset: 21231},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 667, col: 28, offset: 21163},
+																																pos: position{line: 667, col: 28, offset: 21231},
 																																run: (*parser).callonNormalGroup101,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 667, col: 28, offset: 21163},
+																																	pos:        position{line: 667, col: 28, offset: 21231},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -44638,12 +45136,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 669, col: 9, offset: 21217},
+																																pos: position{line: 669, col: 9, offset: 21285},
 																																run: (*parser).callonNormalGroup103,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 669, col: 9, offset: 21217},
+																																	pos: position{line: 669, col: 9, offset: 21285},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 669, col: 9, offset: 21217},
+																																		pos:        position{line: 669, col: 9, offset: 21285},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -44660,7 +45158,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 659, col: 78, offset: 20871},
+																								pos:        position{line: 659, col: 78, offset: 20939},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -44669,19 +45167,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 663, col: 25, offset: 20989},
+																					pos: position{line: 663, col: 25, offset: 21057},
 																					run: (*parser).callonNormalGroup107,
 																					expr: &seqExpr{
-																						pos: position{line: 663, col: 25, offset: 20989},
+																						pos: position{line: 663, col: 25, offset: 21057},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 663, col: 25, offset: 20989},
+																								pos:        position{line: 663, col: 25, offset: 21057},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 663, col: 38, offset: 21002},
+																								pos:   position{line: 663, col: 38, offset: 21070},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -44713,33 +45211,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 663, col: 57, offset: 21021},
+																								pos:   position{line: 663, col: 57, offset: 21089},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 663, col: 63, offset: 21027},
+																									pos: position{line: 663, col: 63, offset: 21095},
 																									expr: &actionExpr{
-																										pos: position{line: 667, col: 17, offset: 21152},
+																										pos: position{line: 667, col: 17, offset: 21220},
 																										run: (*parser).callonNormalGroup118,
 																										expr: &seqExpr{
-																											pos: position{line: 667, col: 17, offset: 21152},
+																											pos: position{line: 667, col: 17, offset: 21220},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 667, col: 17, offset: 21152},
+																													pos:        position{line: 667, col: 17, offset: 21220},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 667, col: 21, offset: 21156},
+																													pos:   position{line: 667, col: 21, offset: 21224},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 667, col: 28, offset: 21163},
+																														pos: position{line: 667, col: 28, offset: 21231},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 667, col: 28, offset: 21163},
+																																pos: position{line: 667, col: 28, offset: 21231},
 																																run: (*parser).callonNormalGroup123,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 667, col: 28, offset: 21163},
+																																	pos:        position{line: 667, col: 28, offset: 21231},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -44747,12 +45245,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 669, col: 9, offset: 21217},
+																																pos: position{line: 669, col: 9, offset: 21285},
 																																run: (*parser).callonNormalGroup125,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 669, col: 9, offset: 21217},
+																																	pos: position{line: 669, col: 9, offset: 21285},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 669, col: 9, offset: 21217},
+																																		pos:        position{line: 669, col: 9, offset: 21285},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -44769,7 +45267,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 663, col: 79, offset: 21043},
+																								pos:        position{line: 663, col: 79, offset: 21111},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -44784,35 +45282,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2406, col: 15, offset: 77441},
+															pos:  position{line: 2407, col: 15, offset: 77543},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2407, col: 15, offset: 77461},
+															pos:  position{line: 2408, col: 15, offset: 77563},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2408, col: 15, offset: 77550},
+															pos:  position{line: 2409, col: 15, offset: 77652},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2498, col: 5, offset: 80014},
+															pos: position{line: 2499, col: 5, offset: 80116},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2498, col: 5, offset: 80014},
+																pos: position{line: 2499, col: 5, offset: 80116},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2498, col: 5, offset: 80014},
+																		pos: position{line: 2499, col: 5, offset: 80116},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2501, col: 5, offset: 80090},
+																		pos:   position{line: 2502, col: 5, offset: 80192},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2502, col: 9, offset: 80108},
+																			pos: position{line: 2503, col: 9, offset: 80210},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2502, col: 10, offset: 80109},
+																				pos:        position{line: 2503, col: 10, offset: 80211},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -44824,32 +45322,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1207, col: 5, offset: 37447},
+															pos: position{line: 1207, col: 5, offset: 37515},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 1207, col: 5, offset: 37447},
+																pos: position{line: 1207, col: 5, offset: 37515},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1207, col: 5, offset: 37447},
+																		pos: position{line: 1207, col: 5, offset: 37515},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1210, col: 5, offset: 37523},
+																		pos:        position{line: 1210, col: 5, offset: 37591},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1211, col: 5, offset: 37531},
+																		pos: position{line: 1211, col: 5, offset: 37599},
 																		run: (*parser).callonNormalGroup142,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1215, col: 5, offset: 37618},
+																		pos: position{line: 1215, col: 5, offset: 37686},
 																		expr: &actionExpr{
-																			pos: position{line: 2901, col: 10, offset: 91483},
+																			pos: position{line: 2902, col: 10, offset: 91633},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2901, col: 10, offset: 91483},
+																				pos:        position{line: 2902, col: 10, offset: 91633},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -44858,30 +45356,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1215, col: 12, offset: 37625},
+																		pos: position{line: 1215, col: 12, offset: 37693},
 																		expr: &choiceExpr{
-																			pos: position{line: 2923, col: 8, offset: 91881},
+																			pos: position{line: 2924, col: 8, offset: 92031},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2910, col: 12, offset: 91654},
+																					pos: position{line: 2911, col: 12, offset: 91804},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2910, col: 13, offset: 91655},
+																						pos: position{line: 2911, col: 13, offset: 91805},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 13, offset: 91655},
+																								pos:        position{line: 2911, col: 13, offset: 91805},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 20, offset: 91662},
+																								pos:        position{line: 2911, col: 20, offset: 91812},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 29, offset: 91671},
+																								pos:        position{line: 2911, col: 29, offset: 91821},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -44890,9 +45388,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2920, col: 8, offset: 91831},
+																					pos: position{line: 2921, col: 8, offset: 91981},
 																					expr: &anyMatcher{
-																						line: 2920, col: 9, offset: 91832,
+																						line: 2921, col: 9, offset: 91982,
 																					},
 																				},
 																			},
@@ -44902,31 +45400,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2411, col: 15, offset: 77732},
+															pos:  position{line: 2412, col: 15, offset: 77834},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1199, col: 23, offset: 37001},
+															pos: position{line: 1199, col: 23, offset: 37069},
 															run: (*parser).callonNormalGroup156,
 															expr: &seqExpr{
-																pos: position{line: 1199, col: 23, offset: 37001},
+																pos: position{line: 1199, col: 23, offset: 37069},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1197, col: 32, offset: 36969},
+																		pos:        position{line: 1197, col: 32, offset: 37037},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1199, col: 51, offset: 37029},
+																		pos:   position{line: 1199, col: 51, offset: 37097},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1199, col: 56, offset: 37034},
+																			pos: position{line: 1199, col: 56, offset: 37102},
 																			run: (*parser).callonNormalGroup160,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1199, col: 56, offset: 37034},
+																				pos: position{line: 1199, col: 56, offset: 37102},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1199, col: 56, offset: 37034},
+																					pos:        position{line: 1199, col: 56, offset: 37102},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -44936,7 +45434,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1197, col: 32, offset: 36969},
+																		pos:        position{line: 1197, col: 32, offset: 37037},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -44945,10 +45443,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2840, col: 12, offset: 89791},
+															pos: position{line: 2841, col: 12, offset: 89941},
 															run: (*parser).callonNormalGroup164,
 															expr: &charClassMatcher{
-																pos:        position{line: 2840, col: 12, offset: 89791},
+																pos:        position{line: 2841, col: 12, offset: 89941},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -44964,9 +45462,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2920, col: 8, offset: 91831},
+							pos: position{line: 2921, col: 8, offset: 91981},
 							expr: &anyMatcher{
-								line: 2920, col: 9, offset: 91832,
+								line: 2921, col: 9, offset: 91982,
 							},
 						},
 					},
@@ -44975,28 +45473,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2422, col: 1, offset: 78170},
+			pos:  position{line: 2423, col: 1, offset: 78272},
 			expr: &actionExpr{
-				pos: position{line: 2423, col: 5, offset: 78203},
+				pos: position{line: 2424, col: 5, offset: 78305},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2423, col: 5, offset: 78203},
+					pos: position{line: 2424, col: 5, offset: 78305},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2423, col: 5, offset: 78203},
+							pos:   position{line: 2424, col: 5, offset: 78305},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2423, col: 14, offset: 78212},
+								pos: position{line: 2424, col: 14, offset: 78314},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2423, col: 15, offset: 78213},
+									pos:  position{line: 2424, col: 15, offset: 78315},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2920, col: 8, offset: 91831},
+							pos: position{line: 2921, col: 8, offset: 91981},
 							expr: &anyMatcher{
-								line: 2920, col: 9, offset: 91832,
+								line: 2921, col: 9, offset: 91982,
 							},
 						},
 					},
@@ -45005,41 +45503,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2427, col: 1, offset: 78310},
+			pos:  position{line: 2428, col: 1, offset: 78412},
 			expr: &actionExpr{
-				pos: position{line: 2428, col: 5, offset: 78350},
+				pos: position{line: 2429, col: 5, offset: 78452},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2428, col: 5, offset: 78350},
+					pos: position{line: 2429, col: 5, offset: 78452},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2918, col: 11, offset: 91817},
+							pos: position{line: 2919, col: 11, offset: 91967},
 							expr: &anyMatcher{
-								line: 2918, col: 13, offset: 91819,
+								line: 2919, col: 13, offset: 91969,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2429, col: 5, offset: 78361},
+							pos:   position{line: 2430, col: 5, offset: 78463},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2430, col: 9, offset: 78379},
+								pos: position{line: 2431, col: 9, offset: 78481},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2800, col: 5, offset: 88725},
+										pos: position{line: 2801, col: 5, offset: 88875},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2800, col: 5, offset: 88725},
+											pos: position{line: 2801, col: 5, offset: 88875},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2800, col: 5, offset: 88725},
+													pos:   position{line: 2801, col: 5, offset: 88875},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2800, col: 11, offset: 88731},
+														pos: position{line: 2801, col: 11, offset: 88881},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2800, col: 11, offset: 88731},
+															pos: position{line: 2801, col: 11, offset: 88881},
 															expr: &charClassMatcher{
-																pos:        position{line: 2800, col: 11, offset: 88731},
+																pos:        position{line: 2801, col: 11, offset: 88881},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45049,36 +45547,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2803, col: 5, offset: 88789},
+													pos: position{line: 2804, col: 5, offset: 88939},
 													expr: &seqExpr{
-														pos: position{line: 2804, col: 9, offset: 88800},
+														pos: position{line: 2805, col: 9, offset: 88950},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2804, col: 9, offset: 88800},
+																pos:        position{line: 2805, col: 9, offset: 88950},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2805, col: 9, offset: 88849},
+																pos: position{line: 2806, col: 9, offset: 88999},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2809, col: 5, offset: 88929},
+													pos: position{line: 2810, col: 5, offset: 89079},
 													expr: &seqExpr{
-														pos: position{line: 2810, col: 9, offset: 88940},
+														pos: position{line: 2811, col: 9, offset: 89090},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2810, col: 9, offset: 88940},
+																pos:        position{line: 2811, col: 9, offset: 89090},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2810, col: 13, offset: 88944},
+																pos:        position{line: 2811, col: 13, offset: 89094},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45091,10 +45589,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2901, col: 10, offset: 91483},
+										pos: position{line: 2902, col: 10, offset: 91633},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2901, col: 10, offset: 91483},
+											pos:        position{line: 2902, col: 10, offset: 91633},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45102,31 +45600,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2432, col: 11, offset: 78417},
+										pos:  position{line: 2433, col: 11, offset: 78519},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2818, col: 5, offset: 89137},
+										pos: position{line: 2819, col: 5, offset: 89287},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2819, col: 9, offset: 89147},
+											pos: position{line: 2820, col: 9, offset: 89297},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2819, col: 10, offset: 89148},
+													pos:        position{line: 2820, col: 10, offset: 89298},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2821, col: 13, offset: 89245},
+													pos: position{line: 2822, col: 13, offset: 89395},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2821, col: 13, offset: 89245},
+															pos: position{line: 2822, col: 13, offset: 89395},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2824, col: 13, offset: 89345},
+															pos:        position{line: 2825, col: 13, offset: 89495},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45134,20 +45632,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2824, col: 19, offset: 89351},
+													pos:        position{line: 2825, col: 19, offset: 89501},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2827, col: 13, offset: 89389},
+													pos: position{line: 2828, col: 13, offset: 89539},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2827, col: 13, offset: 89389},
+															pos: position{line: 2828, col: 13, offset: 89539},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2830, col: 14, offset: 89482},
+															pos:        position{line: 2831, col: 14, offset: 89632},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -45156,18 +45654,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2832, col: 12, offset: 89526},
+													pos: position{line: 2833, col: 12, offset: 89676},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2832, col: 12, offset: 89526},
+															pos:        position{line: 2833, col: 12, offset: 89676},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2832, col: 16, offset: 89530},
+															pos: position{line: 2833, col: 16, offset: 89680},
 															expr: &litMatcher{
-																pos:        position{line: 2832, col: 17, offset: 89531},
+																pos:        position{line: 2833, col: 17, offset: 89681},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45179,31 +45677,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2434, col: 11, offset: 78490},
+										pos:  position{line: 2435, col: 11, offset: 78592},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2435, col: 11, offset: 78506},
+										pos:  position{line: 2436, col: 11, offset: 78608},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2498, col: 5, offset: 80014},
+										pos: position{line: 2499, col: 5, offset: 80116},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2498, col: 5, offset: 80014},
+											pos: position{line: 2499, col: 5, offset: 80116},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2498, col: 5, offset: 80014},
+													pos: position{line: 2499, col: 5, offset: 80116},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2501, col: 5, offset: 80090},
+													pos:   position{line: 2502, col: 5, offset: 80192},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2502, col: 9, offset: 80108},
+														pos: position{line: 2503, col: 9, offset: 80210},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2502, col: 10, offset: 80109},
+															pos:        position{line: 2503, col: 10, offset: 80211},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45215,27 +45713,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1199, col: 23, offset: 37001},
+										pos: position{line: 1199, col: 23, offset: 37069},
 										run: (*parser).callonAttributeStructuredValueElement46,
 										expr: &seqExpr{
-											pos: position{line: 1199, col: 23, offset: 37001},
+											pos: position{line: 1199, col: 23, offset: 37069},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1197, col: 32, offset: 36969},
+													pos:        position{line: 1197, col: 32, offset: 37037},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1199, col: 51, offset: 37029},
+													pos:   position{line: 1199, col: 51, offset: 37097},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1199, col: 56, offset: 37034},
+														pos: position{line: 1199, col: 56, offset: 37102},
 														run: (*parser).callonAttributeStructuredValueElement50,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1199, col: 56, offset: 37034},
+															pos: position{line: 1199, col: 56, offset: 37102},
 															expr: &charClassMatcher{
-																pos:        position{line: 1199, col: 56, offset: 37034},
+																pos:        position{line: 1199, col: 56, offset: 37102},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -45245,7 +45743,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1197, col: 32, offset: 36969},
+													pos:        position{line: 1197, col: 32, offset: 37037},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -45254,25 +45752,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2910, col: 12, offset: 91654},
+										pos: position{line: 2911, col: 12, offset: 91804},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2910, col: 13, offset: 91655},
+											pos: position{line: 2911, col: 13, offset: 91805},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2910, col: 13, offset: 91655},
+													pos:        position{line: 2911, col: 13, offset: 91805},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2910, col: 20, offset: 91662},
+													pos:        position{line: 2911, col: 20, offset: 91812},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2910, col: 29, offset: 91671},
+													pos:        position{line: 2911, col: 29, offset: 91821},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45281,10 +45779,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2840, col: 12, offset: 89791},
+										pos: position{line: 2841, col: 12, offset: 89941},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2840, col: 12, offset: 89791},
+											pos:        position{line: 2841, col: 12, offset: 89941},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45300,73 +45798,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2446, col: 1, offset: 78776},
+			pos:  position{line: 2447, col: 1, offset: 78878},
 			expr: &actionExpr{
-				pos: position{line: 2448, col: 5, offset: 78858},
+				pos: position{line: 2449, col: 5, offset: 78960},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2448, col: 5, offset: 78858},
+					pos: position{line: 2449, col: 5, offset: 78960},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2448, col: 5, offset: 78858},
+							pos: position{line: 2449, col: 5, offset: 78960},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2451, col: 5, offset: 78923},
+							pos:   position{line: 2452, col: 5, offset: 79025},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2452, col: 9, offset: 78941},
+								pos: position{line: 2453, col: 9, offset: 79043},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2452, col: 9, offset: 78941},
+										pos:  position{line: 2453, col: 9, offset: 79043},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2453, col: 11, offset: 78962},
+										pos:  position{line: 2454, col: 11, offset: 79064},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2454, col: 11, offset: 78985},
+										pos:  position{line: 2455, col: 11, offset: 79087},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2455, col: 11, offset: 79001},
+										pos:  position{line: 2456, col: 11, offset: 79103},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2456, col: 11, offset: 79030},
+										pos:  position{line: 2457, col: 11, offset: 79132},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2457, col: 11, offset: 79056},
+										pos:  position{line: 2458, col: 11, offset: 79158},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2458, col: 11, offset: 79082},
+										pos:  position{line: 2459, col: 11, offset: 79184},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1254, col: 5, offset: 38761},
+										pos: position{line: 1254, col: 5, offset: 38829},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1254, col: 5, offset: 38761},
+											pos: position{line: 1254, col: 5, offset: 38829},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1254, col: 5, offset: 38761},
+													pos:        position{line: 1254, col: 5, offset: 38829},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1254, col: 14, offset: 38770},
+													pos:   position{line: 1254, col: 14, offset: 38838},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 7, offset: 91135},
+														pos: position{line: 2887, col: 7, offset: 91285},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2886, col: 7, offset: 91135},
+															pos: position{line: 2887, col: 7, offset: 91285},
 															expr: &charClassMatcher{
-																pos:        position{line: 2886, col: 7, offset: 91135},
+																pos:        position{line: 2887, col: 7, offset: 91285},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45376,7 +45874,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1254, col: 22, offset: 38778},
+													pos:        position{line: 1254, col: 22, offset: 38846},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45385,27 +45883,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1259, col: 5, offset: 38897},
+										pos: position{line: 1259, col: 5, offset: 38965},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1259, col: 5, offset: 38897},
+											pos: position{line: 1259, col: 5, offset: 38965},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1259, col: 5, offset: 38897},
+													pos:        position{line: 1259, col: 5, offset: 38965},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1259, col: 10, offset: 38902},
+													pos:   position{line: 1259, col: 10, offset: 38970},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 7, offset: 91135},
+														pos: position{line: 2887, col: 7, offset: 91285},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2886, col: 7, offset: 91135},
+															pos: position{line: 2887, col: 7, offset: 91285},
 															expr: &charClassMatcher{
-																pos:        position{line: 2886, col: 7, offset: 91135},
+																pos:        position{line: 2887, col: 7, offset: 91285},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45415,7 +45913,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1259, col: 18, offset: 38910},
+													pos:        position{line: 1259, col: 18, offset: 38978},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45424,40 +45922,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1298, col: 23, offset: 40386},
+										pos: position{line: 1298, col: 23, offset: 40454},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1298, col: 23, offset: 40386},
+											pos: position{line: 1298, col: 23, offset: 40454},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1298, col: 23, offset: 40386},
+													pos:        position{line: 1298, col: 23, offset: 40454},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1298, col: 29, offset: 40392},
+													pos:   position{line: 1298, col: 29, offset: 40460},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1305, col: 30, offset: 40723},
+														pos: position{line: 1305, col: 30, offset: 40791},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1305, col: 30, offset: 40723},
+															pos: position{line: 1305, col: 30, offset: 40791},
 															expr: &choiceExpr{
-																pos: position{line: 1305, col: 31, offset: 40724},
+																pos: position{line: 1305, col: 31, offset: 40792},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2791, col: 13, offset: 88578},
+																		pos:        position{line: 2792, col: 13, offset: 88728},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2901, col: 10, offset: 91483},
+																		pos: position{line: 2902, col: 10, offset: 91633},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2901, col: 10, offset: 91483},
+																			pos:        position{line: 2902, col: 10, offset: 91633},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -45470,23 +45968,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1299, col: 5, offset: 40431},
+													pos:   position{line: 1299, col: 5, offset: 40499},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1299, col: 11, offset: 40437},
+														pos: position{line: 1299, col: 11, offset: 40505},
 														expr: &actionExpr{
-															pos: position{line: 1299, col: 12, offset: 40438},
+															pos: position{line: 1299, col: 12, offset: 40506},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1299, col: 12, offset: 40438},
+																pos: position{line: 1299, col: 12, offset: 40506},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1299, col: 12, offset: 40438},
+																		pos: position{line: 1299, col: 12, offset: 40506},
 																		expr: &actionExpr{
-																			pos: position{line: 2901, col: 10, offset: 91483},
+																			pos: position{line: 2902, col: 10, offset: 91633},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2901, col: 10, offset: 91483},
+																				pos:        position{line: 2902, col: 10, offset: 91633},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45495,18 +45993,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1299, col: 19, offset: 40445},
+																		pos:        position{line: 1299, col: 19, offset: 40513},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1299, col: 23, offset: 40449},
+																		pos: position{line: 1299, col: 23, offset: 40517},
 																		expr: &actionExpr{
-																			pos: position{line: 2901, col: 10, offset: 91483},
+																			pos: position{line: 2902, col: 10, offset: 91633},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2901, col: 10, offset: 91483},
+																				pos:        position{line: 2902, col: 10, offset: 91633},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45515,28 +46013,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1299, col: 30, offset: 40456},
+																		pos:   position{line: 1299, col: 30, offset: 40524},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1305, col: 30, offset: 40723},
+																			pos: position{line: 1305, col: 30, offset: 40791},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1305, col: 30, offset: 40723},
+																				pos: position{line: 1305, col: 30, offset: 40791},
 																				expr: &choiceExpr{
-																					pos: position{line: 1305, col: 31, offset: 40724},
+																					pos: position{line: 1305, col: 31, offset: 40792},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2791, col: 13, offset: 88578},
+																							pos:        position{line: 2792, col: 13, offset: 88728},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2901, col: 10, offset: 91483},
+																							pos: position{line: 2902, col: 10, offset: 91633},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2901, col: 10, offset: 91483},
+																								pos:        position{line: 2902, col: 10, offset: 91633},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -45554,23 +46052,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1300, col: 5, offset: 40523},
+													pos:   position{line: 1300, col: 5, offset: 40591},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1300, col: 11, offset: 40529},
+														pos: position{line: 1300, col: 11, offset: 40597},
 														expr: &actionExpr{
-															pos: position{line: 1300, col: 12, offset: 40530},
+															pos: position{line: 1300, col: 12, offset: 40598},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1300, col: 12, offset: 40530},
+																pos: position{line: 1300, col: 12, offset: 40598},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1300, col: 12, offset: 40530},
+																		pos: position{line: 1300, col: 12, offset: 40598},
 																		expr: &actionExpr{
-																			pos: position{line: 2901, col: 10, offset: 91483},
+																			pos: position{line: 2902, col: 10, offset: 91633},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2901, col: 10, offset: 91483},
+																				pos:        position{line: 2902, col: 10, offset: 91633},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45579,18 +46077,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1300, col: 19, offset: 40537},
+																		pos:        position{line: 1300, col: 19, offset: 40605},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1300, col: 23, offset: 40541},
+																		pos: position{line: 1300, col: 23, offset: 40609},
 																		expr: &actionExpr{
-																			pos: position{line: 2901, col: 10, offset: 91483},
+																			pos: position{line: 2902, col: 10, offset: 91633},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2901, col: 10, offset: 91483},
+																				pos:        position{line: 2902, col: 10, offset: 91633},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45599,28 +46097,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1300, col: 30, offset: 40548},
+																		pos:   position{line: 1300, col: 30, offset: 40616},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1305, col: 30, offset: 40723},
+																			pos: position{line: 1305, col: 30, offset: 40791},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1305, col: 30, offset: 40723},
+																				pos: position{line: 1305, col: 30, offset: 40791},
 																				expr: &choiceExpr{
-																					pos: position{line: 1305, col: 31, offset: 40724},
+																					pos: position{line: 1305, col: 31, offset: 40792},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2791, col: 13, offset: 88578},
+																							pos:        position{line: 2792, col: 13, offset: 88728},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2901, col: 10, offset: 91483},
+																							pos: position{line: 2902, col: 10, offset: 91633},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2901, col: 10, offset: 91483},
+																								pos:        position{line: 2902, col: 10, offset: 91633},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -45638,7 +46136,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1301, col: 5, offset: 40615},
+													pos:        position{line: 1301, col: 5, offset: 40683},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -45647,15 +46145,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2461, col: 11, offset: 79161},
+										pos:  position{line: 2462, col: 11, offset: 79263},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2462, col: 11, offset: 79181},
+										pos:  position{line: 2463, col: 11, offset: 79283},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2463, col: 11, offset: 79204},
+										pos:  position{line: 2464, col: 11, offset: 79306},
 										name: "InlineMenu",
 									},
 								},
@@ -45667,80 +46165,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2467, col: 1, offset: 79261},
+			pos:  position{line: 2468, col: 1, offset: 79363},
 			expr: &actionExpr{
-				pos: position{line: 2469, col: 5, offset: 79349},
+				pos: position{line: 2470, col: 5, offset: 79451},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2469, col: 5, offset: 79349},
+					pos: position{line: 2470, col: 5, offset: 79451},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2469, col: 5, offset: 79349},
+							pos: position{line: 2470, col: 5, offset: 79451},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2472, col: 5, offset: 79426},
+							pos:   position{line: 2473, col: 5, offset: 79528},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2473, col: 9, offset: 79444},
+								pos: position{line: 2474, col: 9, offset: 79546},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1385, col: 26, offset: 44109},
+										pos: position{line: 1385, col: 26, offset: 44177},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1385, col: 26, offset: 44109},
+											pos: position{line: 1385, col: 26, offset: 44177},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1383, col: 32, offset: 44077},
+													pos:        position{line: 1383, col: 32, offset: 44145},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1385, col: 54, offset: 44137},
+													pos:   position{line: 1385, col: 54, offset: 44205},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1389, col: 33, offset: 44350},
+														pos: position{line: 1389, col: 33, offset: 44418},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1389, col: 34, offset: 44351},
+																pos: position{line: 1389, col: 34, offset: 44419},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1389, col: 34, offset: 44351},
+																	pos: position{line: 1389, col: 34, offset: 44419},
 																	expr: &seqExpr{
-																		pos: position{line: 1389, col: 35, offset: 44352},
+																		pos: position{line: 1389, col: 35, offset: 44420},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1389, col: 35, offset: 44352},
+																				pos: position{line: 1389, col: 35, offset: 44420},
 																				expr: &litMatcher{
-																					pos:        position{line: 1383, col: 32, offset: 44077},
+																					pos:        position{line: 1383, col: 32, offset: 44145},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1389, col: 64, offset: 44381,
+																				line: 1389, col: 64, offset: 44449,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1391, col: 11, offset: 44554},
+																pos: position{line: 1391, col: 11, offset: 44622},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1391, col: 11, offset: 44554},
+																	pos: position{line: 1391, col: 11, offset: 44622},
 																	expr: &seqExpr{
-																		pos: position{line: 1391, col: 12, offset: 44555},
+																		pos: position{line: 1391, col: 12, offset: 44623},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1391, col: 12, offset: 44555},
+																				pos: position{line: 1391, col: 12, offset: 44623},
 																				expr: &actionExpr{
-																					pos: position{line: 2901, col: 10, offset: 91483},
+																					pos: position{line: 2902, col: 10, offset: 91633},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2901, col: 10, offset: 91483},
+																						pos:        position{line: 2902, col: 10, offset: 91633},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -45749,27 +46247,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1391, col: 19, offset: 44562},
+																				pos: position{line: 1391, col: 19, offset: 44630},
 																				expr: &actionExpr{
-																					pos: position{line: 2910, col: 12, offset: 91654},
+																					pos: position{line: 2911, col: 12, offset: 91804},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2910, col: 13, offset: 91655},
+																						pos: position{line: 2911, col: 13, offset: 91805},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 13, offset: 91655},
+																								pos:        position{line: 2911, col: 13, offset: 91805},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 20, offset: 91662},
+																								pos:        position{line: 2911, col: 20, offset: 91812},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2910, col: 29, offset: 91671},
+																								pos:        position{line: 2911, col: 29, offset: 91821},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45779,16 +46277,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1391, col: 28, offset: 44571},
+																				pos: position{line: 1391, col: 28, offset: 44639},
 																				expr: &litMatcher{
-																					pos:        position{line: 1383, col: 32, offset: 44077},
+																					pos:        position{line: 1383, col: 32, offset: 44145},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1391, col: 57, offset: 44600,
+																				line: 1391, col: 57, offset: 44668,
 																			},
 																		},
 																	},
@@ -45798,15 +46296,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1383, col: 32, offset: 44077},
+													pos:        position{line: 1383, col: 32, offset: 44145},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1385, col: 121, offset: 44204},
+													pos: position{line: 1385, col: 121, offset: 44272},
 													expr: &charClassMatcher{
-														pos:        position{line: 2791, col: 13, offset: 88578},
+														pos:        position{line: 2792, col: 13, offset: 88728},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -45817,45 +46315,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1373, col: 26, offset: 43392},
+										pos: position{line: 1373, col: 26, offset: 43460},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1373, col: 26, offset: 43392},
+											pos: position{line: 1373, col: 26, offset: 43460},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1371, col: 32, offset: 43362},
+													pos:        position{line: 1371, col: 32, offset: 43430},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1373, col: 54, offset: 43420},
+													pos:   position{line: 1373, col: 54, offset: 43488},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1377, col: 33, offset: 43633},
+														pos: position{line: 1377, col: 33, offset: 43701},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1377, col: 34, offset: 43634},
+																pos: position{line: 1377, col: 34, offset: 43702},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1377, col: 34, offset: 43634},
+																	pos: position{line: 1377, col: 34, offset: 43702},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1377, col: 35, offset: 43635},
+																			pos: position{line: 1377, col: 35, offset: 43703},
 																			expr: &litMatcher{
-																				pos:        position{line: 1371, col: 32, offset: 43362},
+																				pos:        position{line: 1371, col: 32, offset: 43430},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1377, col: 64, offset: 43664},
+																			pos: position{line: 1377, col: 64, offset: 43732},
 																			expr: &actionExpr{
-																				pos: position{line: 2901, col: 10, offset: 91483},
+																				pos: position{line: 2902, col: 10, offset: 91633},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2901, col: 10, offset: 91483},
+																					pos:        position{line: 2902, col: 10, offset: 91633},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -45864,27 +46362,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1377, col: 71, offset: 43671},
+																			pos: position{line: 1377, col: 71, offset: 43739},
 																			expr: &actionExpr{
-																				pos: position{line: 2910, col: 12, offset: 91654},
+																				pos: position{line: 2911, col: 12, offset: 91804},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2910, col: 13, offset: 91655},
+																					pos: position{line: 2911, col: 13, offset: 91805},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 13, offset: 91655},
+																							pos:        position{line: 2911, col: 13, offset: 91805},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 20, offset: 91662},
+																							pos:        position{line: 2911, col: 20, offset: 91812},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 29, offset: 91671},
+																							pos:        position{line: 2911, col: 29, offset: 91821},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -45894,25 +46392,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1377, col: 80, offset: 43680,
+																			line: 1377, col: 80, offset: 43748,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1377, col: 83, offset: 43683},
+																			pos: position{line: 1377, col: 83, offset: 43751},
 																			expr: &seqExpr{
-																				pos: position{line: 1377, col: 84, offset: 43684},
+																				pos: position{line: 1377, col: 84, offset: 43752},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1377, col: 84, offset: 43684},
+																						pos: position{line: 1377, col: 84, offset: 43752},
 																						expr: &seqExpr{
-																							pos: position{line: 1377, col: 86, offset: 43686},
+																							pos: position{line: 1377, col: 86, offset: 43754},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 11, offset: 91544},
+																									pos: position{line: 2906, col: 11, offset: 91694},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2905, col: 11, offset: 91544},
+																										pos: position{line: 2906, col: 11, offset: 91694},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2905, col: 11, offset: 91544},
+																											pos:        position{line: 2906, col: 11, offset: 91694},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -45921,7 +46419,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1371, col: 32, offset: 43362},
+																									pos:        position{line: 1371, col: 32, offset: 43430},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -45930,36 +46428,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1377, col: 122, offset: 43722},
+																						pos: position{line: 1377, col: 122, offset: 43790},
 																						expr: &litMatcher{
-																							pos:        position{line: 1371, col: 32, offset: 43362},
+																							pos:        position{line: 1371, col: 32, offset: 43430},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1377, col: 151, offset: 43751},
+																						pos: position{line: 1377, col: 151, offset: 43819},
 																						expr: &actionExpr{
-																							pos: position{line: 2910, col: 12, offset: 91654},
+																							pos: position{line: 2911, col: 12, offset: 91804},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2910, col: 13, offset: 91655},
+																								pos: position{line: 2911, col: 13, offset: 91805},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 13, offset: 91655},
+																										pos:        position{line: 2911, col: 13, offset: 91805},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 20, offset: 91662},
+																										pos:        position{line: 2911, col: 20, offset: 91812},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2910, col: 29, offset: 91671},
+																										pos:        position{line: 2911, col: 29, offset: 91821},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -45969,7 +46467,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1377, col: 160, offset: 43760,
+																						line: 1377, col: 160, offset: 43828,
 																					},
 																				},
 																			},
@@ -45978,18 +46476,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1379, col: 11, offset: 43910},
+																pos: position{line: 1379, col: 11, offset: 43978},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1379, col: 12, offset: 43911},
+																	pos: position{line: 1379, col: 12, offset: 43979},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1379, col: 12, offset: 43911},
+																			pos: position{line: 1379, col: 12, offset: 43979},
 																			expr: &actionExpr{
-																				pos: position{line: 2901, col: 10, offset: 91483},
+																				pos: position{line: 2902, col: 10, offset: 91633},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2901, col: 10, offset: 91483},
+																					pos:        position{line: 2902, col: 10, offset: 91633},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -45998,27 +46496,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1379, col: 19, offset: 43918},
+																			pos: position{line: 1379, col: 19, offset: 43986},
 																			expr: &actionExpr{
-																				pos: position{line: 2910, col: 12, offset: 91654},
+																				pos: position{line: 2911, col: 12, offset: 91804},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2910, col: 13, offset: 91655},
+																					pos: position{line: 2911, col: 13, offset: 91805},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 13, offset: 91655},
+																							pos:        position{line: 2911, col: 13, offset: 91805},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 20, offset: 91662},
+																							pos:        position{line: 2911, col: 20, offset: 91812},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2910, col: 29, offset: 91671},
+																							pos:        position{line: 2911, col: 29, offset: 91821},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46028,16 +46526,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1379, col: 28, offset: 43927},
+																			pos: position{line: 1379, col: 28, offset: 43995},
 																			expr: &litMatcher{
-																				pos:        position{line: 1371, col: 32, offset: 43362},
+																				pos:        position{line: 1371, col: 32, offset: 43430},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1379, col: 57, offset: 43956,
+																			line: 1379, col: 57, offset: 44024,
 																		},
 																	},
 																},
@@ -46046,15 +46544,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1371, col: 32, offset: 43362},
+													pos:        position{line: 1371, col: 32, offset: 43430},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1373, col: 121, offset: 43487},
+													pos: position{line: 1373, col: 121, offset: 43555},
 													expr: &charClassMatcher{
-														pos:        position{line: 2791, col: 13, offset: 88578},
+														pos:        position{line: 2792, col: 13, offset: 88728},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46065,7 +46563,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2473, col: 57, offset: 79492},
+										pos:  position{line: 2474, col: 57, offset: 79594},
 										name: "PassthroughMacro",
 									},
 								},
@@ -46077,16 +46575,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2478, col: 1, offset: 79552},
+			pos:  position{line: 2479, col: 1, offset: 79654},
 			expr: &seqExpr{
-				pos: position{line: 2480, col: 5, offset: 79628},
+				pos: position{line: 2481, col: 5, offset: 79730},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2480, col: 5, offset: 79628},
+						pos: position{line: 2481, col: 5, offset: 79730},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2483, col: 5, offset: 79693},
+						pos:  position{line: 2484, col: 5, offset: 79795},
 						name: "QuotedText",
 					},
 				},
@@ -46094,22 +46592,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2485, col: 1, offset: 79706},
+			pos:  position{line: 2486, col: 1, offset: 79808},
 			expr: &actionExpr{
-				pos: position{line: 2487, col: 5, offset: 79788},
+				pos: position{line: 2488, col: 5, offset: 79890},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2487, col: 5, offset: 79788},
+					pos: position{line: 2488, col: 5, offset: 79890},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2487, col: 5, offset: 79788},
+							pos: position{line: 2488, col: 5, offset: 79890},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2490, col: 5, offset: 79859},
+							pos:   position{line: 2491, col: 5, offset: 79961},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2491, col: 9, offset: 79877},
+								pos:  position{line: 2492, col: 9, offset: 79979},
 								name: "Symbol",
 							},
 						},
@@ -46119,103 +46617,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2546, col: 1, offset: 81636},
+			pos:  position{line: 2547, col: 1, offset: 81766},
 			expr: &choiceExpr{
-				pos: position{line: 2548, col: 5, offset: 81666},
+				pos: position{line: 2549, col: 5, offset: 81796},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2548, col: 5, offset: 81666},
+						pos: position{line: 2549, col: 5, offset: 81796},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2548, col: 5, offset: 81666},
+							pos: position{line: 2549, col: 5, offset: 81796},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2548, col: 5, offset: 81666},
+									pos:        position{line: 2549, col: 5, offset: 81796},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2548, col: 10, offset: 81671},
+									pos: position{line: 2549, col: 10, offset: 81801},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2548, col: 10, offset: 81671},
+											pos:  position{line: 2549, col: 10, offset: 81801},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2577, col: 14, offset: 82775},
+											pos: position{line: 2578, col: 14, offset: 82905},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2577, col: 14, offset: 82775},
+												pos:        position{line: 2578, col: 14, offset: 82905},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2581, col: 14, offset: 82841},
+											pos: position{line: 2582, col: 14, offset: 82971},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2581, col: 14, offset: 82841},
+												pos:        position{line: 2582, col: 14, offset: 82971},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2585, col: 15, offset: 82910},
+											pos: position{line: 2586, col: 15, offset: 83040},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2585, col: 15, offset: 82910},
+												pos:        position{line: 2586, col: 15, offset: 83040},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2589, col: 13, offset: 82975},
+											pos: position{line: 2590, col: 13, offset: 83105},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2589, col: 13, offset: 82975},
+												pos:        position{line: 2590, col: 13, offset: 83105},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2617, col: 21, offset: 83545},
+											pos: position{line: 2618, col: 21, offset: 83675},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2617, col: 21, offset: 83545},
+												pos:        position{line: 2618, col: 21, offset: 83675},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2596, col: 5, offset: 83131},
+											pos: position{line: 2597, col: 5, offset: 83261},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2596, col: 5, offset: 83131},
+												pos: position{line: 2597, col: 5, offset: 83261},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2596, col: 5, offset: 83131},
+														pos:        position{line: 2597, col: 5, offset: 83261},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2597, col: 5, offset: 83141},
+														pos: position{line: 2598, col: 5, offset: 83271},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2601, col: 6, offset: 83228},
+														pos: position{line: 2602, col: 6, offset: 83358},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2901, col: 10, offset: 91483},
+																pos: position{line: 2902, col: 10, offset: 91633},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2901, col: 10, offset: 91483},
+																	pos:        position{line: 2902, col: 10, offset: 91633},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46223,30 +46721,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2601, col: 14, offset: 83236},
+																pos: position{line: 2602, col: 14, offset: 83366},
 																expr: &choiceExpr{
-																	pos: position{line: 2923, col: 8, offset: 91881},
+																	pos: position{line: 2924, col: 8, offset: 92031},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2910, col: 12, offset: 91654},
+																			pos: position{line: 2911, col: 12, offset: 91804},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2910, col: 13, offset: 91655},
+																				pos: position{line: 2911, col: 13, offset: 91805},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91655},
+																						pos:        position{line: 2911, col: 13, offset: 91805},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 20, offset: 91662},
+																						pos:        position{line: 2911, col: 20, offset: 91812},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2910, col: 29, offset: 91671},
+																						pos:        position{line: 2911, col: 29, offset: 91821},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -46255,9 +46753,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2920, col: 8, offset: 91831},
+																			pos: position{line: 2921, col: 8, offset: 91981},
 																			expr: &anyMatcher{
-																				line: 2920, col: 9, offset: 91832,
+																				line: 2921, col: 9, offset: 91982,
 																			},
 																		},
 																	},
@@ -46269,53 +46767,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2606, col: 5, offset: 83356},
+											pos: position{line: 2607, col: 5, offset: 83486},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2606, col: 5, offset: 83356},
+												pos: position{line: 2607, col: 5, offset: 83486},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2606, col: 5, offset: 83356},
+														pos:        position{line: 2607, col: 5, offset: 83486},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2607, col: 5, offset: 83366},
+														pos: position{line: 2608, col: 5, offset: 83496},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2611, col: 5, offset: 83455},
+														pos: position{line: 2612, col: 5, offset: 83585},
 														expr: &choiceExpr{
-															pos: position{line: 2611, col: 7, offset: 83457},
+															pos: position{line: 2612, col: 7, offset: 83587},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2791, col: 13, offset: 88578},
+																	pos:        position{line: 2792, col: 13, offset: 88728},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2910, col: 12, offset: 91654},
+																	pos: position{line: 2911, col: 12, offset: 91804},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2910, col: 13, offset: 91655},
+																		pos: position{line: 2911, col: 13, offset: 91805},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2910, col: 13, offset: 91655},
+																				pos:        position{line: 2911, col: 13, offset: 91805},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2910, col: 20, offset: 91662},
+																				pos:        position{line: 2911, col: 20, offset: 91812},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2910, col: 29, offset: 91671},
+																				pos:        position{line: 2911, col: 29, offset: 91821},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -46324,9 +46822,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2920, col: 8, offset: 91831},
+																	pos: position{line: 2921, col: 8, offset: 91981},
 																	expr: &anyMatcher{
-																		line: 2920, col: 9, offset: 91832,
+																		line: 2921, col: 9, offset: 91982,
 																	},
 																},
 															},
@@ -46336,30 +46834,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2621, col: 20, offset: 83615},
+											pos: position{line: 2622, col: 20, offset: 83745},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2621, col: 20, offset: 83615},
+												pos:        position{line: 2622, col: 20, offset: 83745},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2625, col: 21, offset: 83686},
+											pos: position{line: 2626, col: 21, offset: 83816},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2625, col: 21, offset: 83686},
+												pos:        position{line: 2626, col: 21, offset: 83816},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2629, col: 20, offset: 83756},
+											pos: position{line: 2630, col: 20, offset: 83886},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2629, col: 20, offset: 83756},
+												pos:        position{line: 2630, col: 20, offset: 83886},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -46371,73 +46869,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2552, col: 7, offset: 81926},
+						pos:  position{line: 2553, col: 7, offset: 82056},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2577, col: 14, offset: 82775},
+						pos: position{line: 2578, col: 14, offset: 82905},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2577, col: 14, offset: 82775},
+							pos:        position{line: 2578, col: 14, offset: 82905},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2581, col: 14, offset: 82841},
+						pos: position{line: 2582, col: 14, offset: 82971},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2581, col: 14, offset: 82841},
+							pos:        position{line: 2582, col: 14, offset: 82971},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2585, col: 15, offset: 82910},
+						pos: position{line: 2586, col: 15, offset: 83040},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2585, col: 15, offset: 82910},
+							pos:        position{line: 2586, col: 15, offset: 83040},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2589, col: 13, offset: 82975},
+						pos: position{line: 2590, col: 13, offset: 83105},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2589, col: 13, offset: 82975},
+							pos:        position{line: 2590, col: 13, offset: 83105},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2596, col: 5, offset: 83131},
+						pos: position{line: 2597, col: 5, offset: 83261},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2596, col: 5, offset: 83131},
+							pos: position{line: 2597, col: 5, offset: 83261},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2596, col: 5, offset: 83131},
+									pos:        position{line: 2597, col: 5, offset: 83261},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2597, col: 5, offset: 83141},
+									pos: position{line: 2598, col: 5, offset: 83271},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2601, col: 6, offset: 83228},
+									pos: position{line: 2602, col: 6, offset: 83358},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2901, col: 10, offset: 91483},
+											pos: position{line: 2902, col: 10, offset: 91633},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2901, col: 10, offset: 91483},
+												pos:        position{line: 2902, col: 10, offset: 91633},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46445,30 +46943,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2601, col: 14, offset: 83236},
+											pos: position{line: 2602, col: 14, offset: 83366},
 											expr: &choiceExpr{
-												pos: position{line: 2923, col: 8, offset: 91881},
+												pos: position{line: 2924, col: 8, offset: 92031},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2910, col: 12, offset: 91654},
+														pos: position{line: 2911, col: 12, offset: 91804},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2910, col: 13, offset: 91655},
+															pos: position{line: 2911, col: 13, offset: 91805},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2910, col: 13, offset: 91655},
+																	pos:        position{line: 2911, col: 13, offset: 91805},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 20, offset: 91662},
+																	pos:        position{line: 2911, col: 20, offset: 91812},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 29, offset: 91671},
+																	pos:        position{line: 2911, col: 29, offset: 91821},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -46477,9 +46975,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2920, col: 8, offset: 91831},
+														pos: position{line: 2921, col: 8, offset: 91981},
 														expr: &anyMatcher{
-															line: 2920, col: 9, offset: 91832,
+															line: 2921, col: 9, offset: 91982,
 														},
 													},
 												},
@@ -46491,53 +46989,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2606, col: 5, offset: 83356},
+						pos: position{line: 2607, col: 5, offset: 83486},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2606, col: 5, offset: 83356},
+							pos: position{line: 2607, col: 5, offset: 83486},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2606, col: 5, offset: 83356},
+									pos:        position{line: 2607, col: 5, offset: 83486},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2607, col: 5, offset: 83366},
+									pos: position{line: 2608, col: 5, offset: 83496},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2611, col: 5, offset: 83455},
+									pos: position{line: 2612, col: 5, offset: 83585},
 									expr: &choiceExpr{
-										pos: position{line: 2611, col: 7, offset: 83457},
+										pos: position{line: 2612, col: 7, offset: 83587},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2791, col: 13, offset: 88578},
+												pos:        position{line: 2792, col: 13, offset: 88728},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2910, col: 12, offset: 91654},
+												pos: position{line: 2911, col: 12, offset: 91804},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2910, col: 13, offset: 91655},
+													pos: position{line: 2911, col: 13, offset: 91805},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2910, col: 13, offset: 91655},
+															pos:        position{line: 2911, col: 13, offset: 91805},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2910, col: 20, offset: 91662},
+															pos:        position{line: 2911, col: 20, offset: 91812},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2910, col: 29, offset: 91671},
+															pos:        position{line: 2911, col: 29, offset: 91821},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -46546,9 +47044,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2920, col: 8, offset: 91831},
+												pos: position{line: 2921, col: 8, offset: 91981},
 												expr: &anyMatcher{
-													line: 2920, col: 9, offset: 91832,
+													line: 2921, col: 9, offset: 91982,
 												},
 											},
 										},
@@ -46558,40 +47056,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2617, col: 21, offset: 83545},
+						pos: position{line: 2618, col: 21, offset: 83675},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2617, col: 21, offset: 83545},
+							pos:        position{line: 2618, col: 21, offset: 83675},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2621, col: 20, offset: 83615},
+						pos: position{line: 2622, col: 20, offset: 83745},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2621, col: 20, offset: 83615},
+							pos:        position{line: 2622, col: 20, offset: 83745},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2625, col: 21, offset: 83686},
+						pos: position{line: 2626, col: 21, offset: 83816},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2625, col: 21, offset: 83686},
+							pos:        position{line: 2626, col: 21, offset: 83816},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2629, col: 20, offset: 83756},
+						pos: position{line: 2630, col: 20, offset: 83886},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2629, col: 20, offset: 83756},
+							pos:        position{line: 2630, col: 20, offset: 83886},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -46602,43 +47100,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2563, col: 1, offset: 82116},
+			pos:  position{line: 2564, col: 1, offset: 82246},
 			expr: &choiceExpr{
-				pos: position{line: 2564, col: 5, offset: 82138},
+				pos: position{line: 2565, col: 5, offset: 82268},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2564, col: 5, offset: 82138},
+						pos: position{line: 2565, col: 5, offset: 82268},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2564, col: 5, offset: 82138},
+							pos: position{line: 2565, col: 5, offset: 82268},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2564, col: 5, offset: 82138},
+									pos:        position{line: 2565, col: 5, offset: 82268},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2564, col: 11, offset: 82144},
+									pos: position{line: 2565, col: 11, offset: 82274},
 									expr: &seqExpr{
-										pos: position{line: 2105, col: 5, offset: 67762},
+										pos: position{line: 2106, col: 5, offset: 67864},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2105, col: 5, offset: 67762},
+												pos:        position{line: 2106, col: 5, offset: 67864},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2106, col: 5, offset: 67771},
+												pos: position{line: 2107, col: 5, offset: 67873},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2110, col: 5, offset: 67894},
+												pos: position{line: 2111, col: 5, offset: 67996},
 												expr: &notExpr{
-													pos: position{line: 2110, col: 7, offset: 67896},
+													pos: position{line: 2111, col: 7, offset: 67998},
 													expr: &litMatcher{
-														pos:        position{line: 2110, col: 8, offset: 67897},
+														pos:        position{line: 2111, col: 8, offset: 67999},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -46652,21 +47150,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2567, col: 7, offset: 82297},
+						pos: position{line: 2568, col: 7, offset: 82427},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2567, col: 7, offset: 82297},
+							pos: position{line: 2568, col: 7, offset: 82427},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2567, col: 7, offset: 82297},
+									pos:        position{line: 2568, col: 7, offset: 82427},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2567, col: 13, offset: 82303},
+									pos: position{line: 2568, col: 13, offset: 82433},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2567, col: 14, offset: 82304},
+										pos:  position{line: 2568, col: 14, offset: 82434},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46674,38 +47172,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2570, col: 7, offset: 82454},
+						pos: position{line: 2571, col: 7, offset: 82584},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2570, col: 7, offset: 82454},
+							pos: position{line: 2571, col: 7, offset: 82584},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2570, col: 7, offset: 82454},
+									pos:        position{line: 2571, col: 7, offset: 82584},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2570, col: 12, offset: 82459},
+									pos: position{line: 2571, col: 12, offset: 82589},
 									expr: &seqExpr{
-										pos: position{line: 2105, col: 5, offset: 67762},
+										pos: position{line: 2106, col: 5, offset: 67864},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2105, col: 5, offset: 67762},
+												pos:        position{line: 2106, col: 5, offset: 67864},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2106, col: 5, offset: 67771},
+												pos: position{line: 2107, col: 5, offset: 67873},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2110, col: 5, offset: 67894},
+												pos: position{line: 2111, col: 5, offset: 67996},
 												expr: &notExpr{
-													pos: position{line: 2110, col: 7, offset: 67896},
+													pos: position{line: 2111, col: 7, offset: 67998},
 													expr: &litMatcher{
-														pos:        position{line: 2110, col: 8, offset: 67897},
+														pos:        position{line: 2111, col: 8, offset: 67999},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -46719,21 +47217,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2573, col: 7, offset: 82612},
+						pos: position{line: 2574, col: 7, offset: 82742},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2573, col: 7, offset: 82612},
+							pos: position{line: 2574, col: 7, offset: 82742},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2573, col: 7, offset: 82612},
+									pos:        position{line: 2574, col: 7, offset: 82742},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2573, col: 12, offset: 82617},
+									pos: position{line: 2574, col: 12, offset: 82747},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2573, col: 13, offset: 82618},
+										pos:  position{line: 2574, col: 13, offset: 82748},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46745,63 +47243,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2706, col: 1, offset: 85658},
+			pos:  position{line: 2707, col: 1, offset: 85808},
 			expr: &actionExpr{
-				pos: position{line: 2706, col: 26, offset: 85683},
+				pos: position{line: 2707, col: 26, offset: 85833},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2706, col: 26, offset: 85683},
+					pos: position{line: 2707, col: 26, offset: 85833},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2706, col: 26, offset: 85683},
+							pos:   position{line: 2707, col: 26, offset: 85833},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2706, col: 31, offset: 85688},
+								pos: position{line: 2707, col: 31, offset: 85838},
 								expr: &actionExpr{
-									pos: position{line: 2711, col: 5, offset: 85751},
+									pos: position{line: 2712, col: 5, offset: 85901},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2711, col: 5, offset: 85751},
+										pos: position{line: 2712, col: 5, offset: 85901},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2918, col: 11, offset: 91817},
+												pos: position{line: 2919, col: 11, offset: 91967},
 												expr: &anyMatcher{
-													line: 2918, col: 13, offset: 91819,
+													line: 2919, col: 13, offset: 91969,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2714, col: 5, offset: 85877},
+												pos:   position{line: 2715, col: 5, offset: 86027},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2714, col: 16, offset: 85888},
+													pos: position{line: 2715, col: 16, offset: 86038},
 													expr: &actionExpr{
-														pos: position{line: 2714, col: 17, offset: 85889},
+														pos: position{line: 2715, col: 17, offset: 86039},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2714, col: 17, offset: 85889},
+															pos: position{line: 2715, col: 17, offset: 86039},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2714, col: 17, offset: 85889},
+																	pos:   position{line: 2715, col: 17, offset: 86039},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2893, col: 12, offset: 91310},
+																		pos: position{line: 2894, col: 12, offset: 91460},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2893, col: 13, offset: 91311},
+																			pos: position{line: 2894, col: 13, offset: 91461},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2893, col: 13, offset: 91311},
+																					pos: position{line: 2894, col: 13, offset: 91461},
 																					expr: &litMatcher{
-																						pos:        position{line: 2893, col: 13, offset: 91311},
+																						pos:        position{line: 2894, col: 13, offset: 91461},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2893, col: 18, offset: 91316},
+																					pos: position{line: 2894, col: 18, offset: 91466},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2893, col: 18, offset: 91316},
+																						pos:        position{line: 2894, col: 18, offset: 91466},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -46813,7 +47311,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2714, col: 27, offset: 85899},
+																	pos:        position{line: 2715, col: 27, offset: 86049},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -46824,38 +47322,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2715, col: 5, offset: 85927},
+												pos:   position{line: 2716, col: 5, offset: 86077},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2715, col: 12, offset: 85934},
+													pos: position{line: 2716, col: 12, offset: 86084},
 													expr: &choiceExpr{
-														pos: position{line: 2716, col: 9, offset: 85944},
+														pos: position{line: 2717, col: 9, offset: 86094},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2716, col: 9, offset: 85944},
+																pos: position{line: 2717, col: 9, offset: 86094},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2716, col: 9, offset: 85944},
+																	pos:        position{line: 2717, col: 9, offset: 86094},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2717, col: 11, offset: 85991},
+																pos: position{line: 2718, col: 11, offset: 86141},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2717, col: 11, offset: 85991},
+																	pos:        position{line: 2718, col: 11, offset: 86141},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2718, col: 11, offset: 86039},
+																pos: position{line: 2719, col: 11, offset: 86189},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2718, col: 11, offset: 86039},
+																	pos:        position{line: 2719, col: 11, offset: 86189},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -46866,38 +47364,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2720, col: 5, offset: 86089},
+												pos:   position{line: 2721, col: 5, offset: 86239},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2720, col: 12, offset: 86096},
+													pos: position{line: 2721, col: 12, offset: 86246},
 													expr: &choiceExpr{
-														pos: position{line: 2721, col: 9, offset: 86106},
+														pos: position{line: 2722, col: 9, offset: 86256},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2721, col: 9, offset: 86106},
+																pos: position{line: 2722, col: 9, offset: 86256},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2721, col: 9, offset: 86106},
+																	pos:        position{line: 2722, col: 9, offset: 86256},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2722, col: 11, offset: 86153},
+																pos: position{line: 2723, col: 11, offset: 86303},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2722, col: 11, offset: 86153},
+																	pos:        position{line: 2723, col: 11, offset: 86303},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2723, col: 11, offset: 86203},
+																pos: position{line: 2724, col: 11, offset: 86353},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2723, col: 11, offset: 86203},
+																	pos:        position{line: 2724, col: 11, offset: 86353},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -46908,32 +47406,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2725, col: 5, offset: 86254},
+												pos:   position{line: 2726, col: 5, offset: 86404},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2725, col: 12, offset: 86261},
+													pos: position{line: 2726, col: 12, offset: 86411},
 													expr: &choiceExpr{
-														pos: position{line: 2725, col: 13, offset: 86262},
+														pos: position{line: 2726, col: 13, offset: 86412},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2893, col: 12, offset: 91310},
+																pos: position{line: 2894, col: 12, offset: 91460},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2893, col: 13, offset: 91311},
+																	pos: position{line: 2894, col: 13, offset: 91461},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2893, col: 13, offset: 91311},
+																			pos: position{line: 2894, col: 13, offset: 91461},
 																			expr: &litMatcher{
-																				pos:        position{line: 2893, col: 13, offset: 91311},
+																				pos:        position{line: 2894, col: 13, offset: 91461},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2893, col: 18, offset: 91316},
+																			pos: position{line: 2894, col: 18, offset: 91466},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2893, col: 18, offset: 91316},
+																				pos:        position{line: 2894, col: 18, offset: 91466},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -46944,10 +47442,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2725, col: 24, offset: 86273},
+																pos: position{line: 2726, col: 24, offset: 86423},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2725, col: 24, offset: 86273},
+																	pos:        position{line: 2726, col: 24, offset: 86423},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -46958,15 +47456,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2726, col: 5, offset: 86315},
+												pos:   position{line: 2727, col: 5, offset: 86465},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2726, col: 11, offset: 86321},
+													pos: position{line: 2727, col: 11, offset: 86471},
 													expr: &actionExpr{
-														pos: position{line: 2726, col: 12, offset: 86322},
+														pos: position{line: 2727, col: 12, offset: 86472},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2726, col: 12, offset: 86322},
+															pos:        position{line: 2727, col: 12, offset: 86472},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -46976,12 +47474,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2728, col: 5, offset: 86452},
+												pos:   position{line: 2729, col: 5, offset: 86602},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2728, col: 11, offset: 86458},
+													pos: position{line: 2729, col: 11, offset: 86608},
 													expr: &litMatcher{
-														pos:        position{line: 2728, col: 12, offset: 86459},
+														pos:        position{line: 2729, col: 12, offset: 86609},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -46989,7 +47487,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2729, col: 5, offset: 86469},
+												pos: position{line: 2730, col: 5, offset: 86619},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -46998,9 +47496,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2920, col: 8, offset: 91831},
+							pos: position{line: 2921, col: 8, offset: 91981},
 							expr: &anyMatcher{
-								line: 2920, col: 9, offset: 91832,
+								line: 2921, col: 9, offset: 91982,
 							},
 						},
 					},
@@ -47009,23 +47507,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2756, col: 1, offset: 87478},
+			pos:  position{line: 2757, col: 1, offset: 87628},
 			expr: &actionExpr{
-				pos: position{line: 2757, col: 5, offset: 87501},
+				pos: position{line: 2758, col: 5, offset: 87651},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2757, col: 5, offset: 87501},
+					pos: position{line: 2758, col: 5, offset: 87651},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2757, col: 5, offset: 87501},
+							pos:   position{line: 2758, col: 5, offset: 87651},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2780, col: 18, offset: 88242},
+								pos: position{line: 2781, col: 18, offset: 88392},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2780, col: 19, offset: 88243},
+									pos: position{line: 2781, col: 19, offset: 88393},
 									expr: &charClassMatcher{
-										pos:        position{line: 2780, col: 19, offset: 88243},
+										pos:        position{line: 2781, col: 19, offset: 88393},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47036,25 +47534,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2758, col: 5, offset: 87527},
+							pos: position{line: 2759, col: 5, offset: 87677},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2762, col: 5, offset: 87655},
+							pos:        position{line: 2763, col: 5, offset: 87805},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2763, col: 5, offset: 87665},
+							pos:   position{line: 2764, col: 5, offset: 87815},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2784, col: 19, offset: 88318},
+								pos: position{line: 2785, col: 19, offset: 88468},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2784, col: 19, offset: 88318},
+									pos: position{line: 2785, col: 19, offset: 88468},
 									expr: &charClassMatcher{
-										pos:        position{line: 2784, col: 19, offset: 88318},
+										pos:        position{line: 2785, col: 19, offset: 88468},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47064,36 +47562,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2764, col: 5, offset: 87693},
+							pos:   position{line: 2765, col: 5, offset: 87843},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2764, col: 17, offset: 87705},
+								pos:  position{line: 2765, col: 17, offset: 87855},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2923, col: 8, offset: 91881},
+							pos: position{line: 2924, col: 8, offset: 92031},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2910, col: 12, offset: 91654},
+									pos: position{line: 2911, col: 12, offset: 91804},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2910, col: 13, offset: 91655},
+										pos: position{line: 2911, col: 13, offset: 91805},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2910, col: 13, offset: 91655},
+												pos:        position{line: 2911, col: 13, offset: 91805},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2910, col: 20, offset: 91662},
+												pos:        position{line: 2911, col: 20, offset: 91812},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2910, col: 29, offset: 91671},
+												pos:        position{line: 2911, col: 29, offset: 91821},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -47102,9 +47600,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2920, col: 8, offset: 91831},
+									pos: position{line: 2921, col: 8, offset: 91981},
 									expr: &anyMatcher{
-										line: 2920, col: 9, offset: 91832,
+										line: 2921, col: 9, offset: 91982,
 									},
 								},
 							},
@@ -47115,23 +47613,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2768, col: 1, offset: 87853},
+			pos:  position{line: 2769, col: 1, offset: 88003},
 			expr: &actionExpr{
-				pos: position{line: 2769, col: 5, offset: 87877},
+				pos: position{line: 2770, col: 5, offset: 88027},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2769, col: 5, offset: 87877},
+					pos: position{line: 2770, col: 5, offset: 88027},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2769, col: 5, offset: 87877},
+							pos:   position{line: 2770, col: 5, offset: 88027},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2780, col: 18, offset: 88242},
+								pos: position{line: 2781, col: 18, offset: 88392},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2780, col: 19, offset: 88243},
+									pos: position{line: 2781, col: 19, offset: 88393},
 									expr: &charClassMatcher{
-										pos:        position{line: 2780, col: 19, offset: 88243},
+										pos:        position{line: 2781, col: 19, offset: 88393},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47142,25 +47640,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2770, col: 5, offset: 87903},
+							pos: position{line: 2771, col: 5, offset: 88053},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2774, col: 5, offset: 88031},
+							pos:        position{line: 2775, col: 5, offset: 88181},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2775, col: 5, offset: 88040},
+							pos:   position{line: 2776, col: 5, offset: 88190},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2784, col: 19, offset: 88318},
+								pos: position{line: 2785, col: 19, offset: 88468},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2784, col: 19, offset: 88318},
+									pos: position{line: 2785, col: 19, offset: 88468},
 									expr: &charClassMatcher{
-										pos:        position{line: 2784, col: 19, offset: 88318},
+										pos:        position{line: 2785, col: 19, offset: 88468},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47170,10 +47668,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2776, col: 5, offset: 88068},
+							pos:   position{line: 2777, col: 5, offset: 88218},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2776, col: 17, offset: 88080},
+								pos:  position{line: 2777, col: 17, offset: 88230},
 								name: "InlineAttributes",
 							},
 						},
@@ -47183,43 +47681,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2855, col: 1, offset: 90130},
+			pos:  position{line: 2856, col: 1, offset: 90280},
 			expr: &actionExpr{
-				pos: position{line: 2855, col: 17, offset: 90146},
+				pos: position{line: 2856, col: 17, offset: 90296},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2855, col: 17, offset: 90146},
+					pos:   position{line: 2856, col: 17, offset: 90296},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2872, col: 5, offset: 90600},
+						pos: position{line: 2873, col: 5, offset: 90750},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2872, col: 5, offset: 90600},
+							pos:   position{line: 2873, col: 5, offset: 90750},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2872, col: 14, offset: 90609},
+								pos: position{line: 2873, col: 14, offset: 90759},
 								expr: &choiceExpr{
-									pos: position{line: 2873, col: 9, offset: 90619},
+									pos: position{line: 2874, col: 9, offset: 90769},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2873, col: 9, offset: 90619},
+											pos: position{line: 2874, col: 9, offset: 90769},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2873, col: 9, offset: 90619},
+												pos: position{line: 2874, col: 9, offset: 90769},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2873, col: 9, offset: 90619},
+														pos: position{line: 2874, col: 9, offset: 90769},
 														expr: &litMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90620},
+															pos:        position{line: 2874, col: 10, offset: 90770},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2874, col: 9, offset: 90648},
+														pos: position{line: 2875, col: 9, offset: 90798},
 														expr: &charClassMatcher{
-															pos:        position{line: 2874, col: 10, offset: 90649},
+															pos:        position{line: 2875, col: 10, offset: 90799},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -47230,27 +47728,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2877, col: 11, offset: 90861},
+											pos: position{line: 2878, col: 11, offset: 91011},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2877, col: 11, offset: 90861},
+													pos:        position{line: 2878, col: 11, offset: 91011},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2877, col: 19, offset: 90869},
+													pos: position{line: 2878, col: 19, offset: 91019},
 													expr: &seqExpr{
-														pos: position{line: 2877, col: 21, offset: 90871},
+														pos: position{line: 2878, col: 21, offset: 91021},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2877, col: 21, offset: 90871},
+																pos: position{line: 2878, col: 21, offset: 91021},
 																expr: &actionExpr{
-																	pos: position{line: 2901, col: 10, offset: 91483},
+																	pos: position{line: 2902, col: 10, offset: 91633},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2901, col: 10, offset: 91483},
+																		pos:        position{line: 2902, col: 10, offset: 91633},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -47259,11 +47757,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2877, col: 28, offset: 90878},
+																pos: position{line: 2878, col: 28, offset: 91028},
 																expr: &notExpr{
-																	pos: position{line: 2920, col: 8, offset: 91831},
+																	pos: position{line: 2921, col: 8, offset: 91981},
 																	expr: &anyMatcher{
-																		line: 2920, col: 9, offset: 91832,
+																		line: 2921, col: 9, offset: 91982,
 																	},
 																},
 															},
@@ -47273,35 +47771,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 637, col: 5, offset: 20136},
+											pos: position{line: 637, col: 5, offset: 20204},
 											run: (*parser).callonFileLocation23,
 											expr: &seqExpr{
-												pos: position{line: 637, col: 5, offset: 20136},
+												pos: position{line: 637, col: 5, offset: 20204},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 637, col: 5, offset: 20136},
+														pos: position{line: 637, col: 5, offset: 20204},
 														run: (*parser).callonFileLocation25,
 													},
 													&labeledExpr{
-														pos:   position{line: 640, col: 5, offset: 20208},
+														pos:   position{line: 640, col: 5, offset: 20276},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 640, col: 14, offset: 20217},
+															pos: position{line: 640, col: 14, offset: 20285},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 646, col: 5, offset: 20346},
+																	pos: position{line: 646, col: 5, offset: 20414},
 																	run: (*parser).callonFileLocation28,
 																	expr: &seqExpr{
-																		pos: position{line: 646, col: 5, offset: 20346},
+																		pos: position{line: 646, col: 5, offset: 20414},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 646, col: 5, offset: 20346},
+																				pos:        position{line: 646, col: 5, offset: 20414},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 646, col: 13, offset: 20354},
+																				pos:   position{line: 646, col: 13, offset: 20422},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -47333,7 +47831,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 646, col: 32, offset: 20373},
+																				pos:        position{line: 646, col: 32, offset: 20441},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -47342,19 +47840,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 653, col: 5, offset: 20614},
+																	pos: position{line: 653, col: 5, offset: 20682},
 																	run: (*parser).callonFileLocation38,
 																	expr: &seqExpr{
-																		pos: position{line: 653, col: 5, offset: 20614},
+																		pos: position{line: 653, col: 5, offset: 20682},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 653, col: 5, offset: 20614},
+																				pos:        position{line: 653, col: 5, offset: 20682},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 653, col: 9, offset: 20618},
+																				pos:   position{line: 653, col: 9, offset: 20686},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -47386,7 +47884,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 653, col: 28, offset: 20637},
+																				pos:        position{line: 653, col: 28, offset: 20705},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -47395,19 +47893,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 659, col: 25, offset: 20818},
+																	pos: position{line: 659, col: 25, offset: 20886},
 																	run: (*parser).callonFileLocation48,
 																	expr: &seqExpr{
-																		pos: position{line: 659, col: 25, offset: 20818},
+																		pos: position{line: 659, col: 25, offset: 20886},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 659, col: 25, offset: 20818},
+																				pos:        position{line: 659, col: 25, offset: 20886},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 659, col: 37, offset: 20830},
+																				pos:   position{line: 659, col: 37, offset: 20898},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -47439,33 +47937,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 659, col: 56, offset: 20849},
+																				pos:   position{line: 659, col: 56, offset: 20917},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 659, col: 62, offset: 20855},
+																					pos: position{line: 659, col: 62, offset: 20923},
 																					expr: &actionExpr{
-																						pos: position{line: 667, col: 17, offset: 21152},
+																						pos: position{line: 667, col: 17, offset: 21220},
 																						run: (*parser).callonFileLocation59,
 																						expr: &seqExpr{
-																							pos: position{line: 667, col: 17, offset: 21152},
+																							pos: position{line: 667, col: 17, offset: 21220},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 667, col: 17, offset: 21152},
+																									pos:        position{line: 667, col: 17, offset: 21220},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 667, col: 21, offset: 21156},
+																									pos:   position{line: 667, col: 21, offset: 21224},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 667, col: 28, offset: 21163},
+																										pos: position{line: 667, col: 28, offset: 21231},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 667, col: 28, offset: 21163},
+																												pos: position{line: 667, col: 28, offset: 21231},
 																												run: (*parser).callonFileLocation64,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 667, col: 28, offset: 21163},
+																													pos:        position{line: 667, col: 28, offset: 21231},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -47473,12 +47971,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 669, col: 9, offset: 21217},
+																												pos: position{line: 669, col: 9, offset: 21285},
 																												run: (*parser).callonFileLocation66,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 669, col: 9, offset: 21217},
+																													pos: position{line: 669, col: 9, offset: 21285},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 669, col: 9, offset: 21217},
+																														pos:        position{line: 669, col: 9, offset: 21285},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -47495,7 +47993,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 659, col: 78, offset: 20871},
+																				pos:        position{line: 659, col: 78, offset: 20939},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -47504,19 +48002,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 663, col: 25, offset: 20989},
+																	pos: position{line: 663, col: 25, offset: 21057},
 																	run: (*parser).callonFileLocation70,
 																	expr: &seqExpr{
-																		pos: position{line: 663, col: 25, offset: 20989},
+																		pos: position{line: 663, col: 25, offset: 21057},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 663, col: 25, offset: 20989},
+																				pos:        position{line: 663, col: 25, offset: 21057},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 663, col: 38, offset: 21002},
+																				pos:   position{line: 663, col: 38, offset: 21070},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -47548,33 +48046,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 663, col: 57, offset: 21021},
+																				pos:   position{line: 663, col: 57, offset: 21089},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 663, col: 63, offset: 21027},
+																					pos: position{line: 663, col: 63, offset: 21095},
 																					expr: &actionExpr{
-																						pos: position{line: 667, col: 17, offset: 21152},
+																						pos: position{line: 667, col: 17, offset: 21220},
 																						run: (*parser).callonFileLocation81,
 																						expr: &seqExpr{
-																							pos: position{line: 667, col: 17, offset: 21152},
+																							pos: position{line: 667, col: 17, offset: 21220},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 667, col: 17, offset: 21152},
+																									pos:        position{line: 667, col: 17, offset: 21220},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 667, col: 21, offset: 21156},
+																									pos:   position{line: 667, col: 21, offset: 21224},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 667, col: 28, offset: 21163},
+																										pos: position{line: 667, col: 28, offset: 21231},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 667, col: 28, offset: 21163},
+																												pos: position{line: 667, col: 28, offset: 21231},
 																												run: (*parser).callonFileLocation86,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 667, col: 28, offset: 21163},
+																													pos:        position{line: 667, col: 28, offset: 21231},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -47582,12 +48080,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 669, col: 9, offset: 21217},
+																												pos: position{line: 669, col: 9, offset: 21285},
 																												run: (*parser).callonFileLocation88,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 669, col: 9, offset: 21217},
+																													pos: position{line: 669, col: 9, offset: 21285},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 669, col: 9, offset: 21217},
+																														pos:        position{line: 669, col: 9, offset: 21285},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -47604,7 +48102,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 663, col: 79, offset: 21043},
+																				pos:        position{line: 663, col: 79, offset: 21111},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -47619,27 +48117,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1199, col: 23, offset: 37001},
+											pos: position{line: 1199, col: 23, offset: 37069},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1199, col: 23, offset: 37001},
+												pos: position{line: 1199, col: 23, offset: 37069},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1197, col: 32, offset: 36969},
+														pos:        position{line: 1197, col: 32, offset: 37037},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1199, col: 51, offset: 37029},
+														pos:   position{line: 1199, col: 51, offset: 37097},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1199, col: 56, offset: 37034},
+															pos: position{line: 1199, col: 56, offset: 37102},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1199, col: 56, offset: 37034},
+																pos: position{line: 1199, col: 56, offset: 37102},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1199, col: 56, offset: 37034},
+																	pos:        position{line: 1199, col: 56, offset: 37102},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -47649,7 +48147,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1197, col: 32, offset: 36969},
+														pos:        position{line: 1197, col: 32, offset: 37037},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -47658,10 +48156,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2880, col: 11, offset: 90998},
+											pos: position{line: 2881, col: 11, offset: 91148},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2880, col: 11, offset: 90998},
+												pos:        position{line: 2881, col: 11, offset: 91148},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -52459,16 +52957,16 @@ func (p *parser) callonDocumentFragment1123() (interface{}, error) {
 	return p.cur.onDocumentFragment1123()
 }
 
-func (c *current) onDocumentFragment1145() (interface{}, error) {
+func (c *current) onDocumentFragment1144() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1145() (interface{}, error) {
+func (p *parser) callonDocumentFragment1144() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1145()
+	return p.cur.onDocumentFragment1144()
 }
 
 func (c *current) onDocumentFragment1148() (interface{}, error) {
@@ -52482,361 +52980,395 @@ func (p *parser) callonDocumentFragment1148() (interface{}, error) {
 	return p.cur.onDocumentFragment1148()
 }
 
-func (c *current) onDocumentFragment1170() (interface{}, error) {
+func (c *current) onDocumentFragment1138(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
+
+}
+
+func (p *parser) callonDocumentFragment1138() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1138(stack["content"])
+}
+
+func (c *current) onDocumentFragment1162() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment1162() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1162()
+}
+
+func (c *current) onDocumentFragment1165() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment1165() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1165()
+}
+
+func (c *current) onDocumentFragment1187() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1170() (interface{}, error) {
+func (p *parser) callonDocumentFragment1187() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1170()
+	return p.cur.onDocumentFragment1187()
 }
 
-func (c *current) onDocumentFragment1175() (interface{}, error) {
+func (c *current) onDocumentFragment1192() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1175() (interface{}, error) {
+func (p *parser) callonDocumentFragment1192() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1175()
+	return p.cur.onDocumentFragment1192()
 }
 
-func (c *current) onDocumentFragment1173(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1190(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1173() (interface{}, error) {
+func (p *parser) callonDocumentFragment1190() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1173(stack["content"])
+	return p.cur.onDocumentFragment1190(stack["content"])
 }
 
-func (c *current) onDocumentFragment1166(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1183(content interface{}) (interface{}, error) {
 	return types.NewInlineTableCell(content.(*types.RawLine))
 
 }
 
-func (p *parser) callonDocumentFragment1166() (interface{}, error) {
+func (p *parser) callonDocumentFragment1183() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1166(stack["content"])
+	return p.cur.onDocumentFragment1183(stack["content"])
 }
 
-func (c *current) onDocumentFragment1179() (interface{}, error) {
+func (c *current) onDocumentFragment1196() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1179() (interface{}, error) {
+func (p *parser) callonDocumentFragment1196() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1179()
+	return p.cur.onDocumentFragment1196()
 }
 
-func (c *current) onDocumentFragment1162(cells interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1179(cells interface{}) (interface{}, error) {
 
 	return cells, nil
 }
 
-func (p *parser) callonDocumentFragment1162() (interface{}, error) {
+func (p *parser) callonDocumentFragment1179() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1162(stack["cells"])
+	return p.cur.onDocumentFragment1179(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1196() (interface{}, error) {
+func (c *current) onDocumentFragment1213() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1196() (interface{}, error) {
+func (p *parser) callonDocumentFragment1213() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1196()
+	return p.cur.onDocumentFragment1213()
 }
 
-func (c *current) onDocumentFragment1199() (interface{}, error) {
+func (c *current) onDocumentFragment1216() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1199() (interface{}, error) {
+func (p *parser) callonDocumentFragment1216() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1199()
+	return p.cur.onDocumentFragment1216()
 }
 
-func (c *current) onDocumentFragment1214() (interface{}, error) {
+func (c *current) onDocumentFragment1231() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1214() (interface{}, error) {
+func (p *parser) callonDocumentFragment1231() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1214()
+	return p.cur.onDocumentFragment1231()
 }
 
-func (c *current) onDocumentFragment1217() (interface{}, error) {
+func (c *current) onDocumentFragment1234() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1217() (interface{}, error) {
+func (p *parser) callonDocumentFragment1234() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1217()
+	return p.cur.onDocumentFragment1234()
 }
 
-func (c *current) onDocumentFragment1209() (interface{}, error) {
+func (c *current) onDocumentFragment1226() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1209() (interface{}, error) {
+func (p *parser) callonDocumentFragment1226() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1209()
+	return p.cur.onDocumentFragment1226()
 }
 
-func (c *current) onDocumentFragment1226() (interface{}, error) {
+func (c *current) onDocumentFragment1243() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1226() (interface{}, error) {
+func (p *parser) callonDocumentFragment1243() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1226()
+	return p.cur.onDocumentFragment1243()
 }
 
-func (c *current) onDocumentFragment1231() (interface{}, error) {
+func (c *current) onDocumentFragment1248() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1231() (interface{}, error) {
+func (p *parser) callonDocumentFragment1248() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1231()
+	return p.cur.onDocumentFragment1248()
 }
 
-func (c *current) onDocumentFragment1234() (interface{}, error) {
+func (c *current) onDocumentFragment1251() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1234() (interface{}, error) {
+func (p *parser) callonDocumentFragment1251() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1234()
+	return p.cur.onDocumentFragment1251()
 }
 
-func (c *current) onDocumentFragment1248() (interface{}, error) {
+func (c *current) onDocumentFragment1265() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1248() (interface{}, error) {
+func (p *parser) callonDocumentFragment1265() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1248()
+	return p.cur.onDocumentFragment1265()
 }
 
-func (c *current) onDocumentFragment1251() (interface{}, error) {
+func (c *current) onDocumentFragment1268() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1251() (interface{}, error) {
+func (p *parser) callonDocumentFragment1268() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1251()
+	return p.cur.onDocumentFragment1268()
 }
 
-func (c *current) onDocumentFragment1266() (interface{}, error) {
+func (c *current) onDocumentFragment1283() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1266() (interface{}, error) {
+func (p *parser) callonDocumentFragment1283() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1266()
+	return p.cur.onDocumentFragment1283()
 }
 
-func (c *current) onDocumentFragment1269() (interface{}, error) {
+func (c *current) onDocumentFragment1286() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1269() (interface{}, error) {
+func (p *parser) callonDocumentFragment1286() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1269()
+	return p.cur.onDocumentFragment1286()
 }
 
-func (c *current) onDocumentFragment1261() (interface{}, error) {
+func (c *current) onDocumentFragment1278() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1261() (interface{}, error) {
+func (p *parser) callonDocumentFragment1278() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1261()
+	return p.cur.onDocumentFragment1278()
 }
 
-func (c *current) onDocumentFragment1280() (interface{}, error) {
+func (c *current) onDocumentFragment1297() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1280() (interface{}, error) {
+func (p *parser) callonDocumentFragment1297() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1280()
+	return p.cur.onDocumentFragment1297()
 }
 
-func (c *current) onDocumentFragment1285() (interface{}, error) {
+func (c *current) onDocumentFragment1302() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1285() (interface{}, error) {
+func (p *parser) callonDocumentFragment1302() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1285()
+	return p.cur.onDocumentFragment1302()
 }
 
-func (c *current) onDocumentFragment1290() (interface{}, error) {
+func (c *current) onDocumentFragment1307() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1290() (interface{}, error) {
+func (p *parser) callonDocumentFragment1307() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1290()
+	return p.cur.onDocumentFragment1307()
 }
 
-func (c *current) onDocumentFragment1241(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1258(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1241() (interface{}, error) {
+func (p *parser) callonDocumentFragment1258() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1241(stack["content"])
+	return p.cur.onDocumentFragment1258(stack["content"])
 }
 
-func (c *current) onDocumentFragment1189(format, content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1206(format, content interface{}) (interface{}, error) {
 	return types.NewMultilineTableCell(content.([]interface{}), format)
 
 }
 
-func (p *parser) callonDocumentFragment1189() (interface{}, error) {
+func (p *parser) callonDocumentFragment1206() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1189(stack["format"], stack["content"])
+	return p.cur.onDocumentFragment1206(stack["format"], stack["content"])
 }
 
-func (c *current) onDocumentFragment1186(cells interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1203(cells interface{}) (interface{}, error) {
 	return cells, nil
 }
 
-func (p *parser) callonDocumentFragment1186() (interface{}, error) {
+func (p *parser) callonDocumentFragment1203() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1186(stack["cells"])
+	return p.cur.onDocumentFragment1203(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1159(cells interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1176(cells interface{}) (interface{}, error) {
 	return types.NewTableRow(cells.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment1159() (interface{}, error) {
+func (p *parser) callonDocumentFragment1176() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1159(stack["cells"])
+	return p.cur.onDocumentFragment1176(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1302() (interface{}, error) {
+func (c *current) onDocumentFragment1319() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1302() (interface{}, error) {
+func (p *parser) callonDocumentFragment1319() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1302()
+	return p.cur.onDocumentFragment1319()
 }
 
-func (c *current) onDocumentFragment1305() (interface{}, error) {
+func (c *current) onDocumentFragment1322() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1305() (interface{}, error) {
+func (p *parser) callonDocumentFragment1322() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1305()
+	return p.cur.onDocumentFragment1322()
 }
 
-func (c *current) onDocumentFragment1297() (interface{}, error) {
+func (c *current) onDocumentFragment1314() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1297() (interface{}, error) {
+func (p *parser) callonDocumentFragment1314() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1297()
+	return p.cur.onDocumentFragment1314()
 }
 
-func (c *current) onDocumentFragment1138(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1155(content interface{}) (interface{}, error) {
 	return content, nil
 
 }
 
-func (p *parser) callonDocumentFragment1138() (interface{}, error) {
+func (p *parser) callonDocumentFragment1155() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1138(stack["content"])
+	return p.cur.onDocumentFragment1155(stack["content"])
 }
 
-func (c *current) onDocumentFragment1316() (interface{}, error) {
+func (c *current) onDocumentFragment1333() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1316() (interface{}, error) {
+func (p *parser) callonDocumentFragment1333() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1316()
+	return p.cur.onDocumentFragment1333()
 }
 
-func (c *current) onDocumentFragment1319() (interface{}, error) {
+func (c *current) onDocumentFragment1336() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1319() (interface{}, error) {
+func (p *parser) callonDocumentFragment1336() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1319()
+	return p.cur.onDocumentFragment1336()
 }
 
 func (c *current) onDocumentFragment1106(lines interface{}) (interface{}, error) {
@@ -52850,161 +53382,161 @@ func (p *parser) callonDocumentFragment1106() (interface{}, error) {
 	return p.cur.onDocumentFragment1106(stack["lines"])
 }
 
-func (c *current) onDocumentFragment1334() (interface{}, error) {
+func (c *current) onDocumentFragment1351() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1334() (interface{}, error) {
+func (p *parser) callonDocumentFragment1351() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1334()
+	return p.cur.onDocumentFragment1351()
 }
 
-func (c *current) onDocumentFragment1338() (interface{}, error) {
+func (c *current) onDocumentFragment1355() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1338() (interface{}, error) {
+func (p *parser) callonDocumentFragment1355() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1338()
+	return p.cur.onDocumentFragment1355()
 }
 
-func (c *current) onDocumentFragment1328(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1345(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1328() (interface{}, error) {
+func (p *parser) callonDocumentFragment1345() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1328(stack["content"])
+	return p.cur.onDocumentFragment1345(stack["content"])
 }
 
-func (c *current) onDocumentFragment1347() (bool, error) {
+func (c *current) onDocumentFragment1364() (bool, error) {
 	return c.isFrontMatterAllowed(), nil
 
 }
 
-func (p *parser) callonDocumentFragment1347() (bool, error) {
+func (p *parser) callonDocumentFragment1364() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1347()
+	return p.cur.onDocumentFragment1364()
 }
 
-func (c *current) onDocumentFragment1353() (interface{}, error) {
+func (c *current) onDocumentFragment1370() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1353() (interface{}, error) {
+func (p *parser) callonDocumentFragment1370() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1353()
+	return p.cur.onDocumentFragment1370()
 }
 
-func (c *current) onDocumentFragment1356() (interface{}, error) {
+func (c *current) onDocumentFragment1373() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1356() (interface{}, error) {
+func (p *parser) callonDocumentFragment1373() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1356()
+	return p.cur.onDocumentFragment1373()
 }
 
-func (c *current) onDocumentFragment1373() (interface{}, error) {
+func (c *current) onDocumentFragment1390() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1373() (interface{}, error) {
+func (p *parser) callonDocumentFragment1390() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1373()
+	return p.cur.onDocumentFragment1390()
 }
 
-func (c *current) onDocumentFragment1376() (interface{}, error) {
+func (c *current) onDocumentFragment1393() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1376() (interface{}, error) {
+func (p *parser) callonDocumentFragment1393() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1376()
+	return p.cur.onDocumentFragment1393()
 }
 
-func (c *current) onDocumentFragment1365() (interface{}, error) {
+func (c *current) onDocumentFragment1382() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1365() (interface{}, error) {
+func (p *parser) callonDocumentFragment1382() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1365()
+	return p.cur.onDocumentFragment1382()
 }
 
-func (c *current) onDocumentFragment1386() (interface{}, error) {
+func (c *current) onDocumentFragment1403() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1386() (interface{}, error) {
+func (p *parser) callonDocumentFragment1403() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1386()
+	return p.cur.onDocumentFragment1403()
 }
 
-func (c *current) onDocumentFragment1389() (interface{}, error) {
+func (c *current) onDocumentFragment1406() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1389() (interface{}, error) {
+func (p *parser) callonDocumentFragment1406() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1389()
+	return p.cur.onDocumentFragment1406()
 }
 
-func (c *current) onDocumentFragment1349(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1366(content interface{}) (interface{}, error) {
 	return types.NewYamlFrontMatter(content.(string))
 }
 
-func (p *parser) callonDocumentFragment1349() (interface{}, error) {
+func (p *parser) callonDocumentFragment1366() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1349(stack["content"])
+	return p.cur.onDocumentFragment1366(stack["content"])
 }
 
-func (c *current) onDocumentFragment1345(frontmatter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1362(frontmatter interface{}) (interface{}, error) {
 	return frontmatter, nil
 
 }
 
-func (p *parser) callonDocumentFragment1345() (interface{}, error) {
+func (p *parser) callonDocumentFragment1362() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1345(stack["frontmatter"])
+	return p.cur.onDocumentFragment1362(stack["frontmatter"])
 }
 
-func (c *current) onDocumentFragment1397(attributes, element interface{}) (bool, error) {
+func (c *current) onDocumentFragment1414(attributes, element interface{}) (bool, error) {
 	// there must be at least `attributes` or `element`
 	return attributes != nil || element != nil, nil
 
 }
 
-func (p *parser) callonDocumentFragment1397() (bool, error) {
+func (p *parser) callonDocumentFragment1414() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1397(stack["attributes"], stack["element"])
+	return p.cur.onDocumentFragment1414(stack["attributes"], stack["element"])
 }
 
 func (c *current) onDocumentFragment1(attributes, element interface{}) (interface{}, error) {
@@ -53726,38 +54258,72 @@ func (p *parser) callonBlockAttributes103() (interface{}, error) {
 	return p.cur.onBlockAttributes103()
 }
 
-func (c *current) onBlockAttributes116() (interface{}, error) {
+func (c *current) onBlockAttributes117() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes116() (interface{}, error) {
+func (p *parser) callonBlockAttributes117() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes116()
+	return p.cur.onBlockAttributes117()
 }
 
-func (c *current) onBlockAttributes119() (interface{}, error) {
+func (c *current) onBlockAttributes120() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes119() (interface{}, error) {
+func (p *parser) callonBlockAttributes120() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes119()
+	return p.cur.onBlockAttributes120()
 }
 
-func (c *current) onBlockAttributes111() (interface{}, error) {
+func (c *current) onBlockAttributes112() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonBlockAttributes111() (interface{}, error) {
+func (p *parser) callonBlockAttributes112() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes112()
+}
+
+func (c *current) onBlockAttributes133() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonBlockAttributes133() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes133()
+}
+
+func (c *current) onBlockAttributes137() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonBlockAttributes137() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes137()
+}
+
+func (c *current) onBlockAttributes127(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
+
+}
+
+func (p *parser) callonBlockAttributes127() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes111()
+	return p.cur.onBlockAttributes127(stack["content"])
 }
 
 func (c *current) onBlockAttributes5(anchor interface{}) (interface{}, error) {
@@ -53771,78 +54337,78 @@ func (p *parser) callonBlockAttributes5() (interface{}, error) {
 	return p.cur.onBlockAttributes5(stack["anchor"])
 }
 
-func (c *current) onBlockAttributes137() (interface{}, error) {
+func (c *current) onBlockAttributes155() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes137() (interface{}, error) {
+func (p *parser) callonBlockAttributes155() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes137()
+	return p.cur.onBlockAttributes155()
 }
 
-func (c *current) onBlockAttributes140() (interface{}, error) {
+func (c *current) onBlockAttributes158() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes140() (interface{}, error) {
+func (p *parser) callonBlockAttributes158() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes140()
+	return p.cur.onBlockAttributes158()
 }
 
-func (c *current) onBlockAttributes146() (bool, error) {
+func (c *current) onBlockAttributes164() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonBlockAttributes146() (bool, error) {
+func (p *parser) callonBlockAttributes164() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes146()
+	return p.cur.onBlockAttributes164()
 }
 
-func (c *current) onBlockAttributes150() (bool, error) {
+func (c *current) onBlockAttributes168() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonBlockAttributes150() (bool, error) {
+func (p *parser) callonBlockAttributes168() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes150()
+	return p.cur.onBlockAttributes168()
 }
 
-func (c *current) onBlockAttributes142() (interface{}, error) {
+func (c *current) onBlockAttributes160() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes142() (interface{}, error) {
+func (p *parser) callonBlockAttributes160() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes142()
+	return p.cur.onBlockAttributes160()
 }
 
-func (c *current) onBlockAttributes160() (interface{}, error) {
+func (c *current) onBlockAttributes178() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes160() (interface{}, error) {
+func (p *parser) callonBlockAttributes178() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes160()
+	return p.cur.onBlockAttributes178()
 }
 
-func (c *current) onBlockAttributes156(name interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes174(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -53850,146 +54416,146 @@ func (c *current) onBlockAttributes156(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonBlockAttributes156() (interface{}, error) {
+func (p *parser) callonBlockAttributes174() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes156(stack["name"])
+	return p.cur.onBlockAttributes174(stack["name"])
 }
 
-func (c *current) onBlockAttributes170() (interface{}, error) {
+func (c *current) onBlockAttributes188() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes170() (interface{}, error) {
+func (p *parser) callonBlockAttributes188() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes170()
+	return p.cur.onBlockAttributes188()
 }
 
-func (c *current) onBlockAttributes166(name interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes184(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonBlockAttributes166() (interface{}, error) {
+func (p *parser) callonBlockAttributes184() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes166(stack["name"])
+	return p.cur.onBlockAttributes184(stack["name"])
 }
 
-func (c *current) onBlockAttributes180() (interface{}, error) {
+func (c *current) onBlockAttributes198() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes180() (interface{}, error) {
+func (p *parser) callonBlockAttributes198() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes180()
+	return p.cur.onBlockAttributes198()
 }
 
-func (c *current) onBlockAttributes192() (interface{}, error) {
+func (c *current) onBlockAttributes210() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes192() (interface{}, error) {
+func (p *parser) callonBlockAttributes210() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes192()
+	return p.cur.onBlockAttributes210()
 }
 
-func (c *current) onBlockAttributes194() (interface{}, error) {
+func (c *current) onBlockAttributes212() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonBlockAttributes194() (interface{}, error) {
+func (p *parser) callonBlockAttributes212() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes194()
+	return p.cur.onBlockAttributes212()
 }
 
-func (c *current) onBlockAttributes187(start interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes205(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonBlockAttributes187() (interface{}, error) {
+func (p *parser) callonBlockAttributes205() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes187(stack["start"])
+	return p.cur.onBlockAttributes205(stack["start"])
 }
 
-func (c *current) onBlockAttributes176(name, start interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes194(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonBlockAttributes176() (interface{}, error) {
+func (p *parser) callonBlockAttributes194() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes176(stack["name"], stack["start"])
+	return p.cur.onBlockAttributes194(stack["name"], stack["start"])
 }
 
-func (c *current) onBlockAttributes202() (interface{}, error) {
+func (c *current) onBlockAttributes220() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes202() (interface{}, error) {
+func (p *parser) callonBlockAttributes220() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes202()
+	return p.cur.onBlockAttributes220()
 }
 
-func (c *current) onBlockAttributes214() (interface{}, error) {
+func (c *current) onBlockAttributes232() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes214() (interface{}, error) {
+func (p *parser) callonBlockAttributes232() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes214()
+	return p.cur.onBlockAttributes232()
 }
 
-func (c *current) onBlockAttributes216() (interface{}, error) {
+func (c *current) onBlockAttributes234() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonBlockAttributes216() (interface{}, error) {
+func (p *parser) callonBlockAttributes234() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes216()
+	return p.cur.onBlockAttributes234()
 }
 
-func (c *current) onBlockAttributes209(start interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes227(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonBlockAttributes209() (interface{}, error) {
+func (p *parser) callonBlockAttributes227() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes209(stack["start"])
+	return p.cur.onBlockAttributes227(stack["start"])
 }
 
-func (c *current) onBlockAttributes198(name, start interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes216(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
-func (p *parser) callonBlockAttributes198() (interface{}, error) {
+func (p *parser) callonBlockAttributes216() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes198(stack["name"], stack["start"])
+	return p.cur.onBlockAttributes216(stack["name"], stack["start"])
 }
 
-func (c *current) onBlockAttributes220() (interface{}, error) {
+func (c *current) onBlockAttributes238() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -53998,157 +54564,225 @@ func (c *current) onBlockAttributes220() (interface{}, error) {
 
 }
 
-func (p *parser) callonBlockAttributes220() (interface{}, error) {
+func (p *parser) callonBlockAttributes238() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes220()
+	return p.cur.onBlockAttributes238()
 }
 
-func (c *current) onBlockAttributes129(elements interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes147(elements interface{}) (interface{}, error) {
 	return types.NewTitleAttribute(types.Reduce(elements, strings.TrimSpace))
 
 }
 
-func (p *parser) callonBlockAttributes129() (interface{}, error) {
+func (p *parser) callonBlockAttributes147() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes129(stack["elements"])
+	return p.cur.onBlockAttributes147(stack["elements"])
 }
 
-func (c *current) onBlockAttributes223() (interface{}, error) {
+func (c *current) onBlockAttributes241() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes223() (interface{}, error) {
+func (p *parser) callonBlockAttributes241() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes223()
+	return p.cur.onBlockAttributes241()
 }
 
-func (c *current) onBlockAttributes226() (interface{}, error) {
+func (c *current) onBlockAttributes244() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes226() (interface{}, error) {
+func (p *parser) callonBlockAttributes244() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes226()
+	return p.cur.onBlockAttributes244()
 }
 
-func (c *current) onBlockAttributes239() (interface{}, error) {
+func (c *current) onBlockAttributes258() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes239() (interface{}, error) {
+func (p *parser) callonBlockAttributes258() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes239()
+	return p.cur.onBlockAttributes258()
 }
 
-func (c *current) onBlockAttributes242() (interface{}, error) {
+func (c *current) onBlockAttributes261() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes242() (interface{}, error) {
+func (p *parser) callonBlockAttributes261() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes242()
+	return p.cur.onBlockAttributes261()
 }
 
-func (c *current) onBlockAttributes234() (interface{}, error) {
+func (c *current) onBlockAttributes253() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonBlockAttributes234() (interface{}, error) {
+func (p *parser) callonBlockAttributes253() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes234()
+	return p.cur.onBlockAttributes253()
+}
+
+func (c *current) onBlockAttributes274() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonBlockAttributes274() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes274()
 }
 
-func (c *current) onBlockAttributes126(title interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes278() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonBlockAttributes278() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes278()
+}
+
+func (c *current) onBlockAttributes268(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
+
+}
+
+func (p *parser) callonBlockAttributes268() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes268(stack["content"])
+}
+
+func (c *current) onBlockAttributes144(title interface{}) (interface{}, error) {
 	return title, nil
 
 }
 
-func (p *parser) callonBlockAttributes126() (interface{}, error) {
+func (p *parser) callonBlockAttributes144() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes126(stack["title"])
+	return p.cur.onBlockAttributes144(stack["title"])
 }
 
-func (c *current) onBlockAttributes254() (interface{}, error) {
+func (c *current) onBlockAttributes290() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes254() (interface{}, error) {
+func (p *parser) callonBlockAttributes290() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes254()
+	return p.cur.onBlockAttributes290()
 }
 
-func (c *current) onBlockAttributes257() (interface{}, error) {
+func (c *current) onBlockAttributes293() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes257() (interface{}, error) {
+func (p *parser) callonBlockAttributes293() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes257()
+	return p.cur.onBlockAttributes293()
 }
 
-func (c *current) onBlockAttributes270() (interface{}, error) {
+func (c *current) onBlockAttributes307() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes270() (interface{}, error) {
+func (p *parser) callonBlockAttributes307() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes270()
+	return p.cur.onBlockAttributes307()
 }
 
-func (c *current) onBlockAttributes273() (interface{}, error) {
+func (c *current) onBlockAttributes310() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes273() (interface{}, error) {
+func (p *parser) callonBlockAttributes310() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes273()
+	return p.cur.onBlockAttributes310()
 }
 
-func (c *current) onBlockAttributes265() (interface{}, error) {
+func (c *current) onBlockAttributes302() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonBlockAttributes265() (interface{}, error) {
+func (p *parser) callonBlockAttributes302() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes302()
+}
+
+func (c *current) onBlockAttributes323() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonBlockAttributes323() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes323()
+}
+
+func (c *current) onBlockAttributes327() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonBlockAttributes327() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes265()
+	return p.cur.onBlockAttributes327()
 }
 
-func (c *current) onBlockAttributes249(attributes interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes317(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
+
+}
+
+func (p *parser) callonBlockAttributes317() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes317(stack["content"])
+}
+
+func (c *current) onBlockAttributes285(attributes interface{}) (interface{}, error) {
 	return attributes, nil
 
 }
 
-func (p *parser) callonBlockAttributes249() (interface{}, error) {
+func (p *parser) callonBlockAttributes285() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes249(stack["attributes"])
+	return p.cur.onBlockAttributes285(stack["attributes"])
 }
 
 func (c *current) onBlockAttributes1(attributes interface{}) (interface{}, error) {
@@ -63054,6 +63688,40 @@ func (p *parser) callonListContinuation18() (interface{}, error) {
 	return p.cur.onListContinuation18(stack["offset"])
 }
 
+func (c *current) onListContinuation30() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuation30() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuation30()
+}
+
+func (c *current) onListContinuation34() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuation34() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuation34()
+}
+
+func (c *current) onListContinuation24(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
+
+}
+
+func (p *parser) callonListContinuation24() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuation24(stack["content"])
+}
+
 func (c *current) onListContinuation1(offset, element interface{}) (interface{}, error) {
 	return types.NewListContinuation(len(offset.([]interface{})), element)
 
@@ -66285,16 +66953,16 @@ func (p *parser) callonListContinuationElement1338() (interface{}, error) {
 	return p.cur.onListContinuationElement1338()
 }
 
-func (c *current) onListContinuationElement1360() (interface{}, error) {
+func (c *current) onListContinuationElement1359() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1360() (interface{}, error) {
+func (p *parser) callonListContinuationElement1359() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1360()
+	return p.cur.onListContinuationElement1359()
 }
 
 func (c *current) onListContinuationElement1363() (interface{}, error) {
@@ -66308,361 +66976,395 @@ func (p *parser) callonListContinuationElement1363() (interface{}, error) {
 	return p.cur.onListContinuationElement1363()
 }
 
-func (c *current) onListContinuationElement1385() (interface{}, error) {
+func (c *current) onListContinuationElement1353(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
+
+}
+
+func (p *parser) callonListContinuationElement1353() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1353(stack["content"])
+}
+
+func (c *current) onListContinuationElement1377() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1377() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1377()
+}
+
+func (c *current) onListContinuationElement1380() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1380() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1380()
+}
+
+func (c *current) onListContinuationElement1402() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1385() (interface{}, error) {
+func (p *parser) callonListContinuationElement1402() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1385()
+	return p.cur.onListContinuationElement1402()
 }
 
-func (c *current) onListContinuationElement1390() (interface{}, error) {
+func (c *current) onListContinuationElement1407() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1390() (interface{}, error) {
+func (p *parser) callonListContinuationElement1407() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1390()
+	return p.cur.onListContinuationElement1407()
 }
 
-func (c *current) onListContinuationElement1388(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1405(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1388() (interface{}, error) {
+func (p *parser) callonListContinuationElement1405() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1388(stack["content"])
+	return p.cur.onListContinuationElement1405(stack["content"])
 }
 
-func (c *current) onListContinuationElement1381(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1398(content interface{}) (interface{}, error) {
 	return types.NewInlineTableCell(content.(*types.RawLine))
 
 }
 
-func (p *parser) callonListContinuationElement1381() (interface{}, error) {
+func (p *parser) callonListContinuationElement1398() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1381(stack["content"])
+	return p.cur.onListContinuationElement1398(stack["content"])
 }
 
-func (c *current) onListContinuationElement1394() (interface{}, error) {
+func (c *current) onListContinuationElement1411() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1394() (interface{}, error) {
+func (p *parser) callonListContinuationElement1411() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1394()
+	return p.cur.onListContinuationElement1411()
 }
 
-func (c *current) onListContinuationElement1377(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1394(cells interface{}) (interface{}, error) {
 
 	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1377() (interface{}, error) {
+func (p *parser) callonListContinuationElement1394() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1377(stack["cells"])
+	return p.cur.onListContinuationElement1394(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1411() (interface{}, error) {
+func (c *current) onListContinuationElement1428() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1411() (interface{}, error) {
+func (p *parser) callonListContinuationElement1428() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1411()
+	return p.cur.onListContinuationElement1428()
 }
 
-func (c *current) onListContinuationElement1414() (interface{}, error) {
+func (c *current) onListContinuationElement1431() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1414() (interface{}, error) {
+func (p *parser) callonListContinuationElement1431() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1414()
+	return p.cur.onListContinuationElement1431()
 }
 
-func (c *current) onListContinuationElement1429() (interface{}, error) {
+func (c *current) onListContinuationElement1446() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1429() (interface{}, error) {
+func (p *parser) callonListContinuationElement1446() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1429()
+	return p.cur.onListContinuationElement1446()
 }
 
-func (c *current) onListContinuationElement1432() (interface{}, error) {
+func (c *current) onListContinuationElement1449() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1432() (interface{}, error) {
+func (p *parser) callonListContinuationElement1449() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1432()
+	return p.cur.onListContinuationElement1449()
 }
 
-func (c *current) onListContinuationElement1424() (interface{}, error) {
+func (c *current) onListContinuationElement1441() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1424() (interface{}, error) {
+func (p *parser) callonListContinuationElement1441() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1424()
+	return p.cur.onListContinuationElement1441()
 }
 
-func (c *current) onListContinuationElement1441() (interface{}, error) {
+func (c *current) onListContinuationElement1458() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1441() (interface{}, error) {
+func (p *parser) callonListContinuationElement1458() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1441()
+	return p.cur.onListContinuationElement1458()
 }
 
-func (c *current) onListContinuationElement1446() (interface{}, error) {
+func (c *current) onListContinuationElement1463() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1446() (interface{}, error) {
+func (p *parser) callonListContinuationElement1463() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1446()
+	return p.cur.onListContinuationElement1463()
 }
 
-func (c *current) onListContinuationElement1449() (interface{}, error) {
+func (c *current) onListContinuationElement1466() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1449() (interface{}, error) {
+func (p *parser) callonListContinuationElement1466() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1449()
+	return p.cur.onListContinuationElement1466()
 }
 
-func (c *current) onListContinuationElement1463() (interface{}, error) {
+func (c *current) onListContinuationElement1480() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1463() (interface{}, error) {
+func (p *parser) callonListContinuationElement1480() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1463()
+	return p.cur.onListContinuationElement1480()
 }
 
-func (c *current) onListContinuationElement1466() (interface{}, error) {
+func (c *current) onListContinuationElement1483() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1466() (interface{}, error) {
+func (p *parser) callonListContinuationElement1483() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1466()
+	return p.cur.onListContinuationElement1483()
 }
 
-func (c *current) onListContinuationElement1481() (interface{}, error) {
+func (c *current) onListContinuationElement1498() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1481() (interface{}, error) {
+func (p *parser) callonListContinuationElement1498() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1481()
+	return p.cur.onListContinuationElement1498()
 }
 
-func (c *current) onListContinuationElement1484() (interface{}, error) {
+func (c *current) onListContinuationElement1501() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1484() (interface{}, error) {
+func (p *parser) callonListContinuationElement1501() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1484()
+	return p.cur.onListContinuationElement1501()
 }
 
-func (c *current) onListContinuationElement1476() (interface{}, error) {
+func (c *current) onListContinuationElement1493() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1476() (interface{}, error) {
+func (p *parser) callonListContinuationElement1493() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1476()
+	return p.cur.onListContinuationElement1493()
 }
 
-func (c *current) onListContinuationElement1495() (interface{}, error) {
+func (c *current) onListContinuationElement1512() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1495() (interface{}, error) {
+func (p *parser) callonListContinuationElement1512() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1495()
+	return p.cur.onListContinuationElement1512()
 }
 
-func (c *current) onListContinuationElement1500() (interface{}, error) {
+func (c *current) onListContinuationElement1517() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1500() (interface{}, error) {
+func (p *parser) callonListContinuationElement1517() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1500()
+	return p.cur.onListContinuationElement1517()
 }
 
-func (c *current) onListContinuationElement1505() (interface{}, error) {
+func (c *current) onListContinuationElement1522() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1505() (interface{}, error) {
+func (p *parser) callonListContinuationElement1522() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1505()
+	return p.cur.onListContinuationElement1522()
 }
 
-func (c *current) onListContinuationElement1456(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1473(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1456() (interface{}, error) {
+func (p *parser) callonListContinuationElement1473() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1456(stack["content"])
+	return p.cur.onListContinuationElement1473(stack["content"])
 }
 
-func (c *current) onListContinuationElement1404(format, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1421(format, content interface{}) (interface{}, error) {
 	return types.NewMultilineTableCell(content.([]interface{}), format)
 
 }
 
-func (p *parser) callonListContinuationElement1404() (interface{}, error) {
+func (p *parser) callonListContinuationElement1421() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1404(stack["format"], stack["content"])
+	return p.cur.onListContinuationElement1421(stack["format"], stack["content"])
 }
 
-func (c *current) onListContinuationElement1401(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1418(cells interface{}) (interface{}, error) {
 	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1401() (interface{}, error) {
+func (p *parser) callonListContinuationElement1418() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1401(stack["cells"])
+	return p.cur.onListContinuationElement1418(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1374(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1391(cells interface{}) (interface{}, error) {
 	return types.NewTableRow(cells.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1374() (interface{}, error) {
+func (p *parser) callonListContinuationElement1391() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1374(stack["cells"])
+	return p.cur.onListContinuationElement1391(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1517() (interface{}, error) {
+func (c *current) onListContinuationElement1534() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1517() (interface{}, error) {
+func (p *parser) callonListContinuationElement1534() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1517()
+	return p.cur.onListContinuationElement1534()
 }
 
-func (c *current) onListContinuationElement1520() (interface{}, error) {
+func (c *current) onListContinuationElement1537() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1520() (interface{}, error) {
+func (p *parser) callonListContinuationElement1537() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1520()
+	return p.cur.onListContinuationElement1537()
 }
 
-func (c *current) onListContinuationElement1512() (interface{}, error) {
+func (c *current) onListContinuationElement1529() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1512() (interface{}, error) {
+func (p *parser) callonListContinuationElement1529() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1512()
+	return p.cur.onListContinuationElement1529()
 }
 
-func (c *current) onListContinuationElement1353(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1370(content interface{}) (interface{}, error) {
 	return content, nil
 
 }
 
-func (p *parser) callonListContinuationElement1353() (interface{}, error) {
+func (p *parser) callonListContinuationElement1370() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1353(stack["content"])
+	return p.cur.onListContinuationElement1370(stack["content"])
 }
 
-func (c *current) onListContinuationElement1531() (interface{}, error) {
+func (c *current) onListContinuationElement1548() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1531() (interface{}, error) {
+func (p *parser) callonListContinuationElement1548() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1531()
+	return p.cur.onListContinuationElement1548()
 }
 
-func (c *current) onListContinuationElement1534() (interface{}, error) {
+func (c *current) onListContinuationElement1551() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1534() (interface{}, error) {
+func (p *parser) callonListContinuationElement1551() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1534()
+	return p.cur.onListContinuationElement1551()
 }
 
 func (c *current) onListContinuationElement1321(lines interface{}) (interface{}, error) {
@@ -66676,237 +67378,237 @@ func (p *parser) callonListContinuationElement1321() (interface{}, error) {
 	return p.cur.onListContinuationElement1321(stack["lines"])
 }
 
-func (c *current) onListContinuationElement1549() (interface{}, error) {
+func (c *current) onListContinuationElement1566() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1549() (interface{}, error) {
+func (p *parser) callonListContinuationElement1566() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1549()
+	return p.cur.onListContinuationElement1566()
 }
 
-func (c *current) onListContinuationElement1553() (interface{}, error) {
+func (c *current) onListContinuationElement1570() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1553() (interface{}, error) {
+func (p *parser) callonListContinuationElement1570() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1553()
+	return p.cur.onListContinuationElement1570()
 }
 
-func (c *current) onListContinuationElement1543(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1560(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1543() (interface{}, error) {
+func (p *parser) callonListContinuationElement1560() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1543(stack["content"])
+	return p.cur.onListContinuationElement1560(stack["content"])
 }
 
-func (c *current) onListContinuationElement1566() (bool, error) {
+func (c *current) onListContinuationElement1583() (bool, error) {
 	return !c.isWithinLiteralParagraph(), nil
 
 }
 
-func (p *parser) callonListContinuationElement1566() (bool, error) {
+func (p *parser) callonListContinuationElement1583() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1566()
+	return p.cur.onListContinuationElement1583()
 }
 
-func (c *current) onListContinuationElement1569() (interface{}, error) {
+func (c *current) onListContinuationElement1586() (interface{}, error) {
 	return types.Tip, nil
 
 }
 
-func (p *parser) callonListContinuationElement1569() (interface{}, error) {
+func (p *parser) callonListContinuationElement1586() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1569()
+	return p.cur.onListContinuationElement1586()
 }
 
-func (c *current) onListContinuationElement1571() (interface{}, error) {
+func (c *current) onListContinuationElement1588() (interface{}, error) {
 	return types.Note, nil
 
 }
 
-func (p *parser) callonListContinuationElement1571() (interface{}, error) {
+func (p *parser) callonListContinuationElement1588() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1571()
+	return p.cur.onListContinuationElement1588()
 }
 
-func (c *current) onListContinuationElement1573() (interface{}, error) {
+func (c *current) onListContinuationElement1590() (interface{}, error) {
 	return types.Important, nil
 
 }
 
-func (p *parser) callonListContinuationElement1573() (interface{}, error) {
+func (p *parser) callonListContinuationElement1590() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1573()
+	return p.cur.onListContinuationElement1590()
 }
 
-func (c *current) onListContinuationElement1575() (interface{}, error) {
+func (c *current) onListContinuationElement1592() (interface{}, error) {
 	return types.Warning, nil
 
 }
 
-func (p *parser) callonListContinuationElement1575() (interface{}, error) {
+func (p *parser) callonListContinuationElement1592() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1575()
+	return p.cur.onListContinuationElement1592()
 }
 
-func (c *current) onListContinuationElement1577() (interface{}, error) {
+func (c *current) onListContinuationElement1594() (interface{}, error) {
 	return types.Caution, nil
 
 }
 
-func (p *parser) callonListContinuationElement1577() (interface{}, error) {
+func (p *parser) callonListContinuationElement1594() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1577()
+	return p.cur.onListContinuationElement1594()
 }
 
-func (c *current) onListContinuationElement1581() (interface{}, error) {
+func (c *current) onListContinuationElement1598() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1581() (interface{}, error) {
+func (p *parser) callonListContinuationElement1598() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1581()
+	return p.cur.onListContinuationElement1598()
 }
 
-func (c *current) onListContinuationElement1579() (interface{}, error) {
+func (c *current) onListContinuationElement1596() (interface{}, error) {
 	// check
 	return types.LiteralParagraph, nil
 
 }
 
-func (p *parser) callonListContinuationElement1579() (interface{}, error) {
+func (p *parser) callonListContinuationElement1596() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1579()
+	return p.cur.onListContinuationElement1596()
 }
 
-func (c *current) onListContinuationElement1564(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1581(style interface{}) (interface{}, error) {
 	return style, nil
 
 }
 
-func (p *parser) callonListContinuationElement1564() (interface{}, error) {
+func (p *parser) callonListContinuationElement1581() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1564(stack["style"])
+	return p.cur.onListContinuationElement1581(stack["style"])
 }
 
-func (c *current) onListContinuationElement1593() (interface{}, error) {
+func (c *current) onListContinuationElement1610() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1593() (interface{}, error) {
+func (p *parser) callonListContinuationElement1610() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1593()
+	return p.cur.onListContinuationElement1610()
 }
 
-func (c *current) onListContinuationElement1596() (interface{}, error) {
+func (c *current) onListContinuationElement1613() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1596() (interface{}, error) {
+func (p *parser) callonListContinuationElement1613() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1596()
+	return p.cur.onListContinuationElement1613()
 }
 
-func (c *current) onListContinuationElement1588() (interface{}, error) {
+func (c *current) onListContinuationElement1605() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1588() (interface{}, error) {
+func (p *parser) callonListContinuationElement1605() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1588()
+	return p.cur.onListContinuationElement1605()
 }
 
-func (c *current) onListContinuationElement1607() (interface{}, error) {
+func (c *current) onListContinuationElement1624() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1607() (interface{}, error) {
+func (p *parser) callonListContinuationElement1624() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1607()
+	return p.cur.onListContinuationElement1624()
 }
 
-func (c *current) onListContinuationElement1609() (interface{}, error) {
+func (c *current) onListContinuationElement1626() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1609() (interface{}, error) {
+func (p *parser) callonListContinuationElement1626() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1609()
+	return p.cur.onListContinuationElement1626()
 }
 
-func (c *current) onListContinuationElement1618() (interface{}, error) {
+func (c *current) onListContinuationElement1635() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1618() (interface{}, error) {
+func (p *parser) callonListContinuationElement1635() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1618()
+	return p.cur.onListContinuationElement1635()
 }
 
-func (c *current) onListContinuationElement1625() (interface{}, error) {
+func (c *current) onListContinuationElement1642() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonListContinuationElement1625() (interface{}, error) {
+func (p *parser) callonListContinuationElement1642() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1625()
+	return p.cur.onListContinuationElement1642()
 }
 
-func (c *current) onListContinuationElement1628(depth interface{}) (bool, error) {
+func (c *current) onListContinuationElement1645(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1628() (bool, error) {
+func (p *parser) callonListContinuationElement1645() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1628(stack["depth"])
+	return p.cur.onListContinuationElement1645(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1622(depth interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1639(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -66922,756 +67624,756 @@ func (c *current) onListContinuationElement1622(depth interface{}) (interface{},
 
 }
 
-func (p *parser) callonListContinuationElement1622() (interface{}, error) {
+func (p *parser) callonListContinuationElement1639() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1622(stack["depth"])
+	return p.cur.onListContinuationElement1639(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1629() (interface{}, error) {
+func (c *current) onListContinuationElement1646() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonListContinuationElement1629() (interface{}, error) {
+func (p *parser) callonListContinuationElement1646() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1629()
+	return p.cur.onListContinuationElement1646()
 }
 
-func (c *current) onListContinuationElement1634() (interface{}, error) {
+func (c *current) onListContinuationElement1651() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1634() (interface{}, error) {
+func (p *parser) callonListContinuationElement1651() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1634()
+	return p.cur.onListContinuationElement1651()
 }
 
-func (c *current) onListContinuationElement1638() (interface{}, error) {
+func (c *current) onListContinuationElement1655() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1638() (interface{}, error) {
+func (p *parser) callonListContinuationElement1655() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1638()
+	return p.cur.onListContinuationElement1655()
 }
 
-func (c *current) onListContinuationElement1642() (interface{}, error) {
+func (c *current) onListContinuationElement1659() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1642() (interface{}, error) {
+func (p *parser) callonListContinuationElement1659() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1642()
+	return p.cur.onListContinuationElement1659()
 }
 
-func (c *current) onListContinuationElement1647() (interface{}, error) {
+func (c *current) onListContinuationElement1664() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1647() (interface{}, error) {
+func (p *parser) callonListContinuationElement1664() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1647()
+	return p.cur.onListContinuationElement1664()
 }
 
-func (c *current) onListContinuationElement1652(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1669(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1652() (interface{}, error) {
+func (p *parser) callonListContinuationElement1669() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1652(stack["prefix"])
+	return p.cur.onListContinuationElement1669(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1615(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1632(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonListContinuationElement1615() (interface{}, error) {
+func (p *parser) callonListContinuationElement1632() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1615(stack["prefix"])
+	return p.cur.onListContinuationElement1632(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1659() (interface{}, error) {
+func (c *current) onListContinuationElement1676() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1659() (interface{}, error) {
+func (p *parser) callonListContinuationElement1676() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1659()
+	return p.cur.onListContinuationElement1676()
 }
 
-func (c *current) onListContinuationElement1662() (interface{}, error) {
+func (c *current) onListContinuationElement1679() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1662() (interface{}, error) {
+func (p *parser) callonListContinuationElement1679() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1662()
+	return p.cur.onListContinuationElement1679()
 }
 
-func (c *current) onListContinuationElement1667(style interface{}) (bool, error) {
+func (c *current) onListContinuationElement1684(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1667() (bool, error) {
+func (p *parser) callonListContinuationElement1684() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1667(stack["style"])
+	return p.cur.onListContinuationElement1684(stack["style"])
 }
 
-func (c *current) onListContinuationElement1668(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1685(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1668() (interface{}, error) {
+func (p *parser) callonListContinuationElement1685() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1668(stack["style"])
+	return p.cur.onListContinuationElement1685(stack["style"])
 }
 
-func (c *current) onListContinuationElement1656(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1673(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1656() (interface{}, error) {
+func (p *parser) callonListContinuationElement1673() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1656(stack["style"])
+	return p.cur.onListContinuationElement1673(stack["style"])
 }
 
-func (c *current) onListContinuationElement1676() (interface{}, error) {
+func (c *current) onListContinuationElement1693() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1676() (interface{}, error) {
+func (p *parser) callonListContinuationElement1693() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1676()
+	return p.cur.onListContinuationElement1693()
 }
 
-func (c *current) onListContinuationElement1680(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1697(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1680() (interface{}, error) {
+func (p *parser) callonListContinuationElement1697() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1680(stack["ref"])
+	return p.cur.onListContinuationElement1697(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1672(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1689(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonListContinuationElement1672() (interface{}, error) {
+func (p *parser) callonListContinuationElement1689() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1672(stack["ref"])
+	return p.cur.onListContinuationElement1689(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1692() (interface{}, error) {
+func (c *current) onListContinuationElement1709() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1692() (interface{}, error) {
+func (p *parser) callonListContinuationElement1709() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1692()
+	return p.cur.onListContinuationElement1709()
 }
 
-func (c *current) onListContinuationElement1695(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1712(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1695() (bool, error) {
+func (p *parser) callonListContinuationElement1712() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1695(stack["separator"])
+	return p.cur.onListContinuationElement1712(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1689(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1706(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1689() (interface{}, error) {
+func (p *parser) callonListContinuationElement1706() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1689(stack["separator"])
+	return p.cur.onListContinuationElement1706(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1698() (interface{}, error) {
+func (c *current) onListContinuationElement1715() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1698() (interface{}, error) {
+func (p *parser) callonListContinuationElement1715() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1698()
+	return p.cur.onListContinuationElement1715()
 }
 
-func (c *current) onListContinuationElement1685() (interface{}, error) {
+func (c *current) onListContinuationElement1702() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonListContinuationElement1685() (interface{}, error) {
+func (p *parser) callonListContinuationElement1702() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1685()
+	return p.cur.onListContinuationElement1702()
 }
 
-func (c *current) onListContinuationElement1709() (interface{}, error) {
+func (c *current) onListContinuationElement1726() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1709() (interface{}, error) {
+func (p *parser) callonListContinuationElement1726() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1709()
+	return p.cur.onListContinuationElement1726()
 }
 
-func (c *current) onListContinuationElement1712(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1729(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1712() (bool, error) {
+func (p *parser) callonListContinuationElement1729() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1712(stack["separator"])
+	return p.cur.onListContinuationElement1729(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1706(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1723(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1706() (interface{}, error) {
+func (p *parser) callonListContinuationElement1723() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1706(stack["separator"])
+	return p.cur.onListContinuationElement1723(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1723() (interface{}, error) {
+func (c *current) onListContinuationElement1740() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1723() (interface{}, error) {
+func (p *parser) callonListContinuationElement1740() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1723()
+	return p.cur.onListContinuationElement1740()
 }
 
-func (c *current) onListContinuationElement1729() (interface{}, error) {
+func (c *current) onListContinuationElement1746() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1729() (interface{}, error) {
+func (p *parser) callonListContinuationElement1746() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1729()
+	return p.cur.onListContinuationElement1746()
 }
 
-func (c *current) onListContinuationElement1732() (interface{}, error) {
+func (c *current) onListContinuationElement1749() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1732() (interface{}, error) {
+func (p *parser) callonListContinuationElement1749() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1732()
+	return p.cur.onListContinuationElement1749()
 }
 
-func (c *current) onListContinuationElement1720(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1737(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1720() (interface{}, error) {
+func (p *parser) callonListContinuationElement1737() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1720(stack["delimiter"])
+	return p.cur.onListContinuationElement1737(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1742() (interface{}, error) {
+func (c *current) onListContinuationElement1759() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1742() (interface{}, error) {
+func (p *parser) callonListContinuationElement1759() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1742()
+	return p.cur.onListContinuationElement1759()
 }
 
-func (c *current) onListContinuationElement1748() (interface{}, error) {
+func (c *current) onListContinuationElement1765() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1748() (interface{}, error) {
+func (p *parser) callonListContinuationElement1765() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1748()
+	return p.cur.onListContinuationElement1765()
 }
 
-func (c *current) onListContinuationElement1751() (interface{}, error) {
+func (c *current) onListContinuationElement1768() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1751() (interface{}, error) {
+func (p *parser) callonListContinuationElement1768() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1751()
+	return p.cur.onListContinuationElement1768()
 }
 
-func (c *current) onListContinuationElement1739(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1756(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1739() (interface{}, error) {
+func (p *parser) callonListContinuationElement1756() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1739(stack["delimiter"])
+	return p.cur.onListContinuationElement1756(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1762() (interface{}, error) {
+func (c *current) onListContinuationElement1779() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1762() (interface{}, error) {
+func (p *parser) callonListContinuationElement1779() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1762()
+	return p.cur.onListContinuationElement1779()
 }
 
-func (c *current) onListContinuationElement1766() (interface{}, error) {
+func (c *current) onListContinuationElement1783() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1766() (interface{}, error) {
+func (p *parser) callonListContinuationElement1783() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1766()
+	return p.cur.onListContinuationElement1783()
 }
 
-func (c *current) onListContinuationElement1769() (interface{}, error) {
+func (c *current) onListContinuationElement1786() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1769() (interface{}, error) {
+func (p *parser) callonListContinuationElement1786() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1769()
+	return p.cur.onListContinuationElement1786()
 }
 
-func (c *current) onListContinuationElement1758(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1775(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1758() (interface{}, error) {
+func (p *parser) callonListContinuationElement1775() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1758(stack["language"])
+	return p.cur.onListContinuationElement1775(stack["language"])
 }
 
-func (c *current) onListContinuationElement1779() (interface{}, error) {
+func (c *current) onListContinuationElement1796() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1779() (interface{}, error) {
+func (p *parser) callonListContinuationElement1796() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1779()
+	return p.cur.onListContinuationElement1796()
 }
 
-func (c *current) onListContinuationElement1785() (interface{}, error) {
+func (c *current) onListContinuationElement1802() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1785() (interface{}, error) {
+func (p *parser) callonListContinuationElement1802() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1785()
+	return p.cur.onListContinuationElement1802()
 }
 
-func (c *current) onListContinuationElement1788() (interface{}, error) {
+func (c *current) onListContinuationElement1805() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1788() (interface{}, error) {
+func (p *parser) callonListContinuationElement1805() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1788()
+	return p.cur.onListContinuationElement1805()
 }
 
-func (c *current) onListContinuationElement1776(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1793(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1776() (interface{}, error) {
+func (p *parser) callonListContinuationElement1793() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1776(stack["delimiter"])
+	return p.cur.onListContinuationElement1793(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1798() (interface{}, error) {
+func (c *current) onListContinuationElement1815() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1798() (interface{}, error) {
+func (p *parser) callonListContinuationElement1815() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1798()
+	return p.cur.onListContinuationElement1815()
 }
 
-func (c *current) onListContinuationElement1804() (interface{}, error) {
+func (c *current) onListContinuationElement1821() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1804() (interface{}, error) {
+func (p *parser) callonListContinuationElement1821() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1804()
+	return p.cur.onListContinuationElement1821()
 }
 
-func (c *current) onListContinuationElement1807() (interface{}, error) {
+func (c *current) onListContinuationElement1824() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1807() (interface{}, error) {
+func (p *parser) callonListContinuationElement1824() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1807()
+	return p.cur.onListContinuationElement1824()
 }
 
-func (c *current) onListContinuationElement1795(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1812(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1795() (interface{}, error) {
+func (p *parser) callonListContinuationElement1812() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1795(stack["delimiter"])
+	return p.cur.onListContinuationElement1812(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1817() (interface{}, error) {
+func (c *current) onListContinuationElement1834() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1817() (interface{}, error) {
+func (p *parser) callonListContinuationElement1834() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1817()
+	return p.cur.onListContinuationElement1834()
 }
 
-func (c *current) onListContinuationElement1823() (interface{}, error) {
+func (c *current) onListContinuationElement1840() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1823() (interface{}, error) {
+func (p *parser) callonListContinuationElement1840() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1823()
+	return p.cur.onListContinuationElement1840()
 }
 
-func (c *current) onListContinuationElement1826() (interface{}, error) {
+func (c *current) onListContinuationElement1843() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1826() (interface{}, error) {
+func (p *parser) callonListContinuationElement1843() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1826()
+	return p.cur.onListContinuationElement1843()
 }
 
-func (c *current) onListContinuationElement1814(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1831(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1814() (interface{}, error) {
+func (p *parser) callonListContinuationElement1831() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1814(stack["delimiter"])
+	return p.cur.onListContinuationElement1831(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1836() (interface{}, error) {
+func (c *current) onListContinuationElement1853() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1836() (interface{}, error) {
+func (p *parser) callonListContinuationElement1853() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1836()
+	return p.cur.onListContinuationElement1853()
 }
 
-func (c *current) onListContinuationElement1842() (interface{}, error) {
+func (c *current) onListContinuationElement1859() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1842() (interface{}, error) {
+func (p *parser) callonListContinuationElement1859() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1842()
+	return p.cur.onListContinuationElement1859()
 }
 
-func (c *current) onListContinuationElement1845() (interface{}, error) {
+func (c *current) onListContinuationElement1862() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1845() (interface{}, error) {
+func (p *parser) callonListContinuationElement1862() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1845()
+	return p.cur.onListContinuationElement1862()
 }
 
-func (c *current) onListContinuationElement1833(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1850(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1833() (interface{}, error) {
+func (p *parser) callonListContinuationElement1850() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1833(stack["delimiter"])
+	return p.cur.onListContinuationElement1850(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1855() (interface{}, error) {
+func (c *current) onListContinuationElement1872() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1855() (interface{}, error) {
+func (p *parser) callonListContinuationElement1872() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1855()
+	return p.cur.onListContinuationElement1872()
 }
 
-func (c *current) onListContinuationElement1861() (interface{}, error) {
+func (c *current) onListContinuationElement1878() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1861() (interface{}, error) {
+func (p *parser) callonListContinuationElement1878() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1861()
+	return p.cur.onListContinuationElement1878()
 }
 
-func (c *current) onListContinuationElement1864() (interface{}, error) {
+func (c *current) onListContinuationElement1881() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1864() (interface{}, error) {
+func (p *parser) callonListContinuationElement1881() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1864()
+	return p.cur.onListContinuationElement1881()
 }
 
-func (c *current) onListContinuationElement1852(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1869(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1852() (interface{}, error) {
+func (p *parser) callonListContinuationElement1869() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1852(stack["delimiter"])
+	return p.cur.onListContinuationElement1869(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1874() (interface{}, error) {
+func (c *current) onListContinuationElement1891() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1874() (interface{}, error) {
+func (p *parser) callonListContinuationElement1891() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1874()
+	return p.cur.onListContinuationElement1891()
 }
 
-func (c *current) onListContinuationElement1880() (interface{}, error) {
+func (c *current) onListContinuationElement1897() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1880() (interface{}, error) {
+func (p *parser) callonListContinuationElement1897() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1880()
+	return p.cur.onListContinuationElement1897()
 }
 
-func (c *current) onListContinuationElement1883() (interface{}, error) {
+func (c *current) onListContinuationElement1900() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1883() (interface{}, error) {
+func (p *parser) callonListContinuationElement1900() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1883()
+	return p.cur.onListContinuationElement1900()
 }
 
-func (c *current) onListContinuationElement1871(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1888(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1871() (interface{}, error) {
+func (p *parser) callonListContinuationElement1888() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1871(stack["delimiter"])
+	return p.cur.onListContinuationElement1888(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1714(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1731(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonListContinuationElement1714() (interface{}, error) {
+func (p *parser) callonListContinuationElement1731() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1714(stack["delimiter"])
+	return p.cur.onListContinuationElement1731(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1891() (interface{}, error) {
+func (c *current) onListContinuationElement1908() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1891() (interface{}, error) {
+func (p *parser) callonListContinuationElement1908() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1891()
+	return p.cur.onListContinuationElement1908()
 }
 
-func (c *current) onListContinuationElement1895() (interface{}, error) {
+func (c *current) onListContinuationElement1912() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1895() (interface{}, error) {
+func (p *parser) callonListContinuationElement1912() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1895()
+	return p.cur.onListContinuationElement1912()
 }
 
-func (c *current) onListContinuationElement1585(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1602(content interface{}) (interface{}, error) {
 	// do not retain the EOL chars
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1585() (interface{}, error) {
+func (p *parser) callonListContinuationElement1602() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1585(stack["content"])
+	return p.cur.onListContinuationElement1602(stack["content"])
 }
 
-func (c *current) onListContinuationElement1560(style, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1577(style, content interface{}) (interface{}, error) {
 	return types.NewParagraph(style, content)
 
 }
 
-func (p *parser) callonListContinuationElement1560() (interface{}, error) {
+func (p *parser) callonListContinuationElement1577() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1560(stack["style"], stack["content"])
+	return p.cur.onListContinuationElement1577(stack["style"], stack["content"])
 }
 
 func (c *current) onListContinuationElement1(attributes, element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 6fdf8b8..64f4c23 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -369,15 +369,15 @@ AttributeReset <- ":!" name:(AttributeName) ":" Space* EOL {
 BlockAttributes <-
     attributes:(
         // shorthand syntax for anchors. Eg: `[[an_id]]`
-        (anchor:(LegacyElementID) Space* EOL BlankLine* {
+        (anchor:(LegacyElementID) Space* EOL (BlankLine / SinglelineComment)* {
             return anchor, nil
         })
         // shorthand syntax for titles. Eg: `.a title`
-        / (title:(ShortHandTitle) Space* EOL BlankLine*{
+        / (title:(ShortHandTitle) Space* EOL (BlankLine / SinglelineComment)* {
             return title, nil
         })
         // default syntax
-        / (attributes:(LongHandAttributes) Space* EOL BlankLine*{
+        / (attributes:(LongHandAttributes) Space* EOL (BlankLine / SinglelineComment)* {
             return attributes, nil
         })
     )+ {
@@ -1534,6 +1534,7 @@ ListElementContent <-
 ListContinuation <- 
     offset:(Space* Newline)* 
     ListContinuationMarker
+    SinglelineComment* // ignored
     element:ListContinuationElement?
     {
         return types.NewListContinuation(len(offset.([]interface{})), element)    
@@ -2512,8 +2513,8 @@ SinglelineComment <- SinglelineCommentDelimiter content:(SinglelineCommentConten
         return types.NewSinglelineComment(content.(string))
     }
 
-// can be `//` but not `////` (comment block delimiter)
-SinglelineCommentDelimiter <- "//" !"//" 
+// can be `//` but neither `///` (regular text) nor `////` (comment block delimiter)
+SinglelineCommentDelimiter <- "//" !"/" 
 
 SinglelineCommentContent <- AnyChars
 
@@ -2635,7 +2636,7 @@ DoubleLeftArrow <- "<=" {
 // -------------------------------------------------------------------------------------
 Table <- 
     TableStartDelimiter
-    lines:(BlankLine / TableLine)*
+    lines:(BlankLine / SinglelineComment / TableLine)*
     TableEndDelimiter {
         return types.NewTable(lines.([]interface{}))
     }
-- 
2.43.0


From 0b5204138cedf324c494c4f7e270ed52f7e7fd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:45 +0000
Subject: [PATCH 24/75] fix: lines of verbatim paragraphs lost when they look
 like comments

---
 pkg/types/types.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 8f00482..a98ef50 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -1775,6 +1775,7 @@ func (p *Paragraph) AddElement(e interface{}) error {
 		r.Append("\n")
 	}
 	p.Elements = append(p.Elements, e)
+	p.retainVerbatimLines()
 	return nil
 }
 
@@ -1812,6 +1813,26 @@ func (p *Paragraph) mapAttributes() {
 			AttrPositional3: AttrQuoteTitle,
 		})
 	}
+	p.retainVerbatimLines()
+}
+
+// retainVerbatimLines replaces the single line comments with regular lines if the content of this paragraph
+// is to be taken as-is (there are no comments in such a content)
+func (p *Paragraph) retainVerbatimLines() {
+	switch p.Attributes[AttrStyle] {
+	case Listing, Source, Literal, LiteralParagraph, Verse, Passthrough:
+		for i, e := range p.Elements {
+			if c, ok := e.(*SinglelineComment); ok {
+				content := "//" + c.Content
+				if i < len(p.Elements)-1 {
+					content += "\n"
+				}
+				p.Elements[i] = &RawLine{
+					Content: content,
+				}
+			}
+		}
+	}
 }
 
 var _ Referencable = &Paragraph{}
-- 
2.43.0


From dbfcbba7e944e43d4805968aa87461d249743a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:22 +0000
Subject: [PATCH 25/75] fix: title of the document lost when attributes or
 comments come before

---
 libasciidoc.go                                | 14 +++++-----
 pkg/parser/document_processing_aggregate.go   | 26 ++++++-------------
 .../document_processing_parse_fragments.go    | 13 ++++++----
 pkg/renderer/sgml/sgml.go                     | 26 ++++++++++---------
 pkg/types/types.go                            | 15 ++++-------
 5 files changed, 43 insertions(+), 51 deletions(-)

diff --git a/libasciidoc.go b/libasciidoc.go
index e0fc7f3..3060d4f 100644
--- a/libasciidoc.go
+++ b/libasciidoc.go
@@ -118,19 +118,21 @@ func docType(doc *types.Document, config *configuration.Configuration) string {
 		case *types.AttributeReset:
 			delete(attrs, e.Name)
 			return true
+		case *types.FrontMatter:
+			return true // skip
 		}
 		return false
 	}
-	if header, _ := doc.Header(); header != nil {
-		for _, e := range header.Elements {
-			apply(e)
-		}
-	}
-	// also, standalone attribute declarations before any other element
+	// standalone attribute declarations before any other element
 	for _, e := range doc.Elements {
 		if !apply(e) {
 			break
 		}
 	}
+	if header, _ := doc.Header(); header != nil {
+		for _, e := range header.Elements {
+			apply(e)
+		}
+	}
 	return attrs.GetAsStringWithDefault(types.AttrDocType, "article")
 }
diff --git a/pkg/parser/document_processing_aggregate.go b/pkg/parser/document_processing_aggregate.go
index 3be3cd6..d916b3c 100644
--- a/pkg/parser/document_processing_aggregate.go
+++ b/pkg/parser/document_processing_aggregate.go
@@ -212,37 +212,27 @@ func insertPreamble(doc *types.Document) {
 		log.Debugf("no preamble to insert")
 		return
 	}
-	// now, insert the preamble instead of the 'n' blocks that belong to the preamble
+	// now, insert the preamble after the header, instead of the 'n' blocks that belong to the preamble
 	// and copy the other items
+	_, offset := doc.Header()
 	elements := make([]interface{}, len(doc.Elements)-len(preamble.Elements)+1)
-	if frontmatter := doc.FrontMatter(); frontmatter != nil {
-		elements[0] = frontmatter
-	}
-	if header, offset := doc.Header(); header != nil {
-		log.Debug("inserting preamble after header")
-		elements[0+offset] = header
-		elements[1+offset] = preamble
-		copy(elements[2+offset:], doc.Elements[1+len(preamble.Elements)+offset:])
-	} else {
-		log.Debug("inserting preamble at beginning of document")
-		elements[0] = preamble
-		copy(elements[1:], doc.Elements[len(preamble.Elements):])
-	}
+	copy(elements, doc.Elements[:offset+1])
+	elements[offset+1] = preamble
+	copy(elements[offset+2:], doc.Elements[offset+1+len(preamble.Elements):])
 	doc.Elements = elements
 }
 
 func newPreamble(doc *types.Document) *types.Preamble {
-	if header, _ := doc.Header(); header == nil || header.Title == nil {
+	header, offset := doc.Header()
+	if header == nil || header.Title == nil {
 		log.Debug("skipping preamble: no header in doc")
 		return nil
 	}
 	preamble := &types.Preamble{
 		Elements: make([]interface{}, 0, len(doc.Elements)),
 	}
-	for _, e := range doc.Elements {
+	for _, e := range doc.Elements[offset+1:] {
 		switch e.(type) {
-		case *types.DocumentHeader, *types.FrontMatter:
-			continue
 		case *types.Section:
 			return preamble
 		default:
diff --git a/pkg/parser/document_processing_parse_fragments.go b/pkg/parser/document_processing_parse_fragments.go
index c90cfea..fe48c08 100644
--- a/pkg/parser/document_processing_parse_fragments.go
+++ b/pkg/parser/document_processing_parse_fragments.go
@@ -95,14 +95,17 @@ func (c *current) isDocumentHeaderAllowed() bool {
 	return found && allowed && !c.isWithinDelimitedBlock()
 }
 
-// disables the `DocumentHeader` grammar rule if the element is anything but a BlankLine or a FrontMatter
+// disables the `DocumentHeader` grammar rule if the element is anything but a BlankLine, a FrontMatter, an attribute or a comment
 func (c *current) disableDocumentHeaderRule(element interface{}) {
-	switch element.(type) {
-	case *types.BlankLine, *types.FrontMatter, *types.AttributeDeclaration:
+	switch element := element.(type) {
+	case *types.BlankLine, *types.FrontMatter, *types.AttributeDeclaration, *types.AttributeReset, *types.SinglelineComment:
 		return
-	default:
-		c.globalStore[documentHeaderKey] = false
+	case *types.DelimitedBlock:
+		if element.Kind == types.Comment {
+			return
+		}
 	}
+	c.globalStore[documentHeaderKey] = false
 }
 
 const blockAttributesKey = "block_attributes"
diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index 26189af..a1cc92a 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -48,18 +48,7 @@ func Render(doc *types.Document, config *configuration.Configuration, output io.
 	if !exists {
 		renderedTitle = DefaultTitle
 	}
-	// process attribute declaration in the header
-	if header, _ := doc.Header(); header != nil {
-		for _, e := range header.Elements {
-			switch e := e.(type) {
-			case *types.AttributeDeclaration:
-				ctx.setAttribute(e.Name, e.Value)
-			case *types.AttributeReset:
-				ctx.unsetAttribute(e.Name)
-			}
-		}
-	}
-	// also, process standalone attriute declaration before the first section
+	// process standalone attribute declarations at the beginning of the document (ie, before the header or the first section)
 elements:
 	for _, e := range doc.Elements {
 		switch e := e.(type) {
@@ -67,10 +56,23 @@ elements:
 			ctx.setAttribute(e.Name, e.Value)
 		case *types.AttributeReset:
 			ctx.unsetAttribute(e.Name)
+		case *types.BlankLine, *types.FrontMatter:
+			// skip
 		default:
 			break elements
 		}
 	}
+	// also, process attribute declaration in the header
+	if header, _ := doc.Header(); header != nil {
+		for _, e := range header.Elements {
+			switch e := e.(type) {
+			case *types.AttributeDeclaration:
+				ctx.setAttribute(e.Name, e.Value)
+			case *types.AttributeReset:
+				ctx.unsetAttribute(e.Name)
+			}
+		}
+	}
 	if ctx.sectionNumbering, err = doc.SectionNumbersWithAttributes(ctx.config.Attributes); err != nil {
 		return metadata, errors.Wrapf(err, "unable to render full document")
 	}
diff --git a/pkg/types/types.go b/pkg/types/types.go
index a98ef50..f5046b7 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -114,8 +114,8 @@ elements:
 		switch e := e.(type) {
 		case *DocumentHeader:
 			return e, i
-		case *BlankLine, *FrontMatter:
-			// expect DocumentHeader to be positioned after optional FrontMatter and blanklines in-between
+		case *BlankLine, *FrontMatter, *AttributeDeclaration, *AttributeReset:
+			// expect DocumentHeader to be positioned after optional FrontMatter, attributes and blanklines in-between
 			continue
 		default:
 			log.Debugf("no header in document")
@@ -130,14 +130,9 @@ func (d *Document) BodyElements() []interface{} {
 	if len(d.Elements) == 0 {
 		return nil
 	}
-	elements := make([]interface{}, 0, len(d.Elements))
-	for i, e := range d.Elements {
-		if _, ok := e.(*DocumentHeader); ok {
-			elements = append(elements, d.Elements[i+1:]...)
-			return elements
-		}
-		elements = append(elements, e)
-	}
+	_, offset := d.Header() // `-1` if there is no header
+	elements := make([]interface{}, len(d.Elements)-(offset+1))
+	copy(elements, d.Elements[offset+1:])
 	return elements
 }
 
-- 
2.43.0


From d1285178199d0ea99854872b2f4204357482889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:03 +0000
Subject: [PATCH 26/75] fix: lists lost, paragraphs of list items split and
 text of table cells mixed up with comments

---
 pkg/parser/parser.go     | 9868 ++++++++++++++++++++------------------
 pkg/parser/parser.peg    |    7 +
 pkg/parser/parser_ext.go |    5 +
 pkg/types/types.go       |   26 +-
 4 files changed, 5129 insertions(+), 4777 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 5465723..6026cfe 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 10, offset: 91633},
+														pos: position{line: 2909, col: 10, offset: 91792},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2902, col: 10, offset: 91633},
+															pos:        position{line: 2909, col: 10, offset: 91792},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2924, col: 8, offset: 92031},
+													pos: position{line: 2931, col: 8, offset: 92190},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2911, col: 12, offset: 91804},
+															pos: position{line: 2918, col: 12, offset: 91963},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2911, col: 13, offset: 91805},
+																pos: position{line: 2918, col: 13, offset: 91964},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 13, offset: 91805},
+																		pos:        position{line: 2918, col: 13, offset: 91964},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 20, offset: 91812},
+																		pos:        position{line: 2918, col: 20, offset: 91971},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 29, offset: 91821},
+																		pos:        position{line: 2918, col: 29, offset: 91980},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2921, col: 8, offset: 91981},
+															pos: position{line: 2928, col: 8, offset: 92140},
 															expr: &anyMatcher{
-																line: 2921, col: 9, offset: 91982,
+																line: 2928, col: 9, offset: 92141,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 10, offset: 91633},
+														pos: position{line: 2909, col: 10, offset: 91792},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2902, col: 10, offset: 91633},
+															pos:        position{line: 2909, col: 10, offset: 91792},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2924, col: 8, offset: 92031},
+													pos: position{line: 2931, col: 8, offset: 92190},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2911, col: 12, offset: 91804},
+															pos: position{line: 2918, col: 12, offset: 91963},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2911, col: 13, offset: 91805},
+																pos: position{line: 2918, col: 13, offset: 91964},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 13, offset: 91805},
+																		pos:        position{line: 2918, col: 13, offset: 91964},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 20, offset: 91812},
+																		pos:        position{line: 2918, col: 20, offset: 91971},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 29, offset: 91821},
+																		pos:        position{line: 2918, col: 29, offset: 91980},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2921, col: 8, offset: 91981},
+															pos: position{line: 2928, col: 8, offset: 92140},
 															expr: &anyMatcher{
-																line: 2921, col: 9, offset: 91982,
+																line: 2928, col: 9, offset: 92141,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 10, offset: 91633},
+														pos: position{line: 2909, col: 10, offset: 91792},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2902, col: 10, offset: 91633},
+															pos:        position{line: 2909, col: 10, offset: 91792},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2921, col: 8, offset: 91981},
+													pos: position{line: 2928, col: 8, offset: 92140},
 													expr: &anyMatcher{
-														line: 2921, col: 9, offset: 91982,
+														line: 2928, col: 9, offset: 92141,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 10, offset: 91633},
+														pos: position{line: 2909, col: 10, offset: 91792},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2902, col: 10, offset: 91633},
+															pos:        position{line: 2909, col: 10, offset: 91792},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2921, col: 8, offset: 91981},
+													pos: position{line: 2928, col: 8, offset: 92140},
 													expr: &anyMatcher{
-														line: 2921, col: 9, offset: 91982,
+														line: 2928, col: 9, offset: 92141,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2894, col: 12, offset: 91460},
+																pos: position{line: 2901, col: 12, offset: 91619},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2894, col: 13, offset: 91461},
+																	pos: position{line: 2901, col: 13, offset: 91620},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2894, col: 13, offset: 91461},
+																			pos: position{line: 2901, col: 13, offset: 91620},
 																			expr: &litMatcher{
-																				pos:        position{line: 2894, col: 13, offset: 91461},
+																				pos:        position{line: 2901, col: 13, offset: 91620},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2894, col: 18, offset: 91466},
+																			pos: position{line: 2901, col: 18, offset: 91625},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2894, col: 18, offset: 91466},
+																				pos:        position{line: 2901, col: 18, offset: 91625},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 10, offset: 91633},
+														pos: position{line: 2909, col: 10, offset: 91792},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2902, col: 10, offset: 91633},
+															pos:        position{line: 2909, col: 10, offset: 91792},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 10, offset: 91633},
+														pos: position{line: 2909, col: 10, offset: 91792},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2902, col: 10, offset: 91633},
+															pos:        position{line: 2909, col: 10, offset: 91792},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2894, col: 12, offset: 91460},
+																pos: position{line: 2901, col: 12, offset: 91619},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2894, col: 13, offset: 91461},
+																	pos: position{line: 2901, col: 13, offset: 91620},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2894, col: 13, offset: 91461},
+																			pos: position{line: 2901, col: 13, offset: 91620},
 																			expr: &litMatcher{
-																				pos:        position{line: 2894, col: 13, offset: 91461},
+																				pos:        position{line: 2901, col: 13, offset: 91620},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2894, col: 18, offset: 91466},
+																			pos: position{line: 2901, col: 18, offset: 91625},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2894, col: 18, offset: 91466},
+																				pos:        position{line: 2901, col: 18, offset: 91625},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 10, offset: 91633},
+														pos: position{line: 2909, col: 10, offset: 91792},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2902, col: 10, offset: 91633},
+															pos:        position{line: 2909, col: 10, offset: 91792},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2921, col: 8, offset: 91981},
+													pos: position{line: 2928, col: 8, offset: 92140},
 													expr: &anyMatcher{
-														line: 2921, col: 9, offset: 91982,
+														line: 2928, col: 9, offset: 92141,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 10, offset: 91633},
+														pos: position{line: 2909, col: 10, offset: 91792},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2902, col: 10, offset: 91633},
+															pos:        position{line: 2909, col: 10, offset: 91792},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2921, col: 8, offset: 91981},
+													pos: position{line: 2928, col: 8, offset: 92140},
 													expr: &anyMatcher{
-														line: 2921, col: 9, offset: 91982,
+														line: 2928, col: 9, offset: 92141,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 725, col: 5, offset: 23139},
 													expr: &charClassMatcher{
-														pos:        position{line: 2792, col: 13, offset: 88728},
+														pos:        position{line: 2799, col: 13, offset: 88887},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23783},
 																			expr: &actionExpr{
-																				pos: position{line: 2902, col: 10, offset: 91633},
+																				pos: position{line: 2909, col: 10, offset: 91792},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2902, col: 10, offset: 91633},
+																					pos:        position{line: 2909, col: 10, offset: 91792},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2924, col: 8, offset: 92031},
+																			pos: position{line: 2931, col: 8, offset: 92190},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2911, col: 12, offset: 91804},
+																					pos: position{line: 2918, col: 12, offset: 91963},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2911, col: 13, offset: 91805},
+																						pos: position{line: 2918, col: 13, offset: 91964},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 13, offset: 91805},
+																								pos:        position{line: 2918, col: 13, offset: 91964},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 20, offset: 91812},
+																								pos:        position{line: 2918, col: 20, offset: 91971},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 29, offset: 91821},
+																								pos:        position{line: 2918, col: 29, offset: 91980},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 750, col: 8, offset: 24031},
 																			expr: &actionExpr{
-																				pos: position{line: 2902, col: 10, offset: 91633},
+																				pos: position{line: 2909, col: 10, offset: 91792},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2902, col: 10, offset: 91633},
+																					pos:        position{line: 2909, col: 10, offset: 91792},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2924, col: 8, offset: 92031},
+																			pos: position{line: 2931, col: 8, offset: 92190},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2911, col: 12, offset: 91804},
+																					pos: position{line: 2918, col: 12, offset: 91963},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2911, col: 13, offset: 91805},
+																						pos: position{line: 2918, col: 13, offset: 91964},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 13, offset: 91805},
+																								pos:        position{line: 2918, col: 13, offset: 91964},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 20, offset: 91812},
+																								pos:        position{line: 2918, col: 20, offset: 91971},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 29, offset: 91821},
+																								pos:        position{line: 2918, col: 29, offset: 91980},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 761, col: 52, offset: 24443},
 																			expr: &actionExpr{
-																				pos: position{line: 2902, col: 10, offset: 91633},
+																				pos: position{line: 2909, col: 10, offset: 91792},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2902, col: 10, offset: 91633},
+																					pos:        position{line: 2909, col: 10, offset: 91792},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2924, col: 8, offset: 92031},
+																			pos: position{line: 2931, col: 8, offset: 92190},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2911, col: 12, offset: 91804},
+																					pos: position{line: 2918, col: 12, offset: 91963},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2911, col: 13, offset: 91805},
+																						pos: position{line: 2918, col: 13, offset: 91964},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 13, offset: 91805},
+																								pos:        position{line: 2918, col: 13, offset: 91964},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 20, offset: 91812},
+																								pos:        position{line: 2918, col: 20, offset: 91971},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 29, offset: 91821},
+																								pos:        position{line: 2918, col: 29, offset: 91980},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 757, col: 8, offset: 24277},
 																			expr: &actionExpr{
-																				pos: position{line: 2902, col: 10, offset: 91633},
+																				pos: position{line: 2909, col: 10, offset: 91792},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2902, col: 10, offset: 91633},
+																					pos:        position{line: 2909, col: 10, offset: 91792},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2924, col: 8, offset: 92031},
+																			pos: position{line: 2931, col: 8, offset: 92190},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2911, col: 12, offset: 91804},
+																					pos: position{line: 2918, col: 12, offset: 91963},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2911, col: 13, offset: 91805},
+																						pos: position{line: 2918, col: 13, offset: 91964},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 13, offset: 91805},
+																								pos:        position{line: 2918, col: 13, offset: 91964},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 20, offset: 91812},
+																								pos:        position{line: 2918, col: 20, offset: 91971},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 29, offset: 91821},
+																								pos:        position{line: 2918, col: 29, offset: 91980},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 772, col: 8, offset: 24815},
 																			expr: &actionExpr{
-																				pos: position{line: 2902, col: 10, offset: 91633},
+																				pos: position{line: 2909, col: 10, offset: 91792},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2902, col: 10, offset: 91633},
+																					pos:        position{line: 2909, col: 10, offset: 91792},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2924, col: 8, offset: 92031},
+																			pos: position{line: 2931, col: 8, offset: 92190},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2911, col: 12, offset: 91804},
+																					pos: position{line: 2918, col: 12, offset: 91963},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2911, col: 13, offset: 91805},
+																						pos: position{line: 2918, col: 13, offset: 91964},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 13, offset: 91805},
+																								pos:        position{line: 2918, col: 13, offset: 91964},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 20, offset: 91812},
+																								pos:        position{line: 2918, col: 20, offset: 91971},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 29, offset: 91821},
+																								pos:        position{line: 2918, col: 29, offset: 91980},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 786, col: 8, offset: 25291},
 																			expr: &actionExpr{
-																				pos: position{line: 2902, col: 10, offset: 91633},
+																				pos: position{line: 2909, col: 10, offset: 91792},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2902, col: 10, offset: 91633},
+																					pos:        position{line: 2909, col: 10, offset: 91792},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2924, col: 8, offset: 92031},
+																			pos: position{line: 2931, col: 8, offset: 92190},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2911, col: 12, offset: 91804},
+																					pos: position{line: 2918, col: 12, offset: 91963},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2911, col: 13, offset: 91805},
+																						pos: position{line: 2918, col: 13, offset: 91964},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 13, offset: 91805},
+																								pos:        position{line: 2918, col: 13, offset: 91964},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 20, offset: 91812},
+																								pos:        position{line: 2918, col: 20, offset: 91971},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 29, offset: 91821},
+																								pos:        position{line: 2918, col: 29, offset: 91980},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 793, col: 8, offset: 25543},
 																			expr: &actionExpr{
-																				pos: position{line: 2902, col: 10, offset: 91633},
+																				pos: position{line: 2909, col: 10, offset: 91792},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2902, col: 10, offset: 91633},
+																					pos:        position{line: 2909, col: 10, offset: 91792},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2924, col: 8, offset: 92031},
+																			pos: position{line: 2931, col: 8, offset: 92190},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2911, col: 12, offset: 91804},
+																					pos: position{line: 2918, col: 12, offset: 91963},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2911, col: 13, offset: 91805},
+																						pos: position{line: 2918, col: 13, offset: 91964},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 13, offset: 91805},
+																								pos:        position{line: 2918, col: 13, offset: 91964},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 20, offset: 91812},
+																								pos:        position{line: 2918, col: 20, offset: 91971},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 29, offset: 91821},
+																								pos:        position{line: 2918, col: 29, offset: 91980},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 800, col: 8, offset: 25793},
 																			expr: &actionExpr{
-																				pos: position{line: 2902, col: 10, offset: 91633},
+																				pos: position{line: 2909, col: 10, offset: 91792},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2902, col: 10, offset: 91633},
+																					pos:        position{line: 2909, col: 10, offset: 91792},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2924, col: 8, offset: 92031},
+																			pos: position{line: 2931, col: 8, offset: 92190},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2911, col: 12, offset: 91804},
+																					pos: position{line: 2918, col: 12, offset: 91963},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2911, col: 13, offset: 91805},
+																						pos: position{line: 2918, col: 13, offset: 91964},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 13, offset: 91805},
+																								pos:        position{line: 2918, col: 13, offset: 91964},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 20, offset: 91812},
+																								pos:        position{line: 2918, col: 20, offset: 91971},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 29, offset: 91821},
+																								pos:        position{line: 2918, col: 29, offset: 91980},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 807, col: 8, offset: 26039},
 																			expr: &actionExpr{
-																				pos: position{line: 2902, col: 10, offset: 91633},
+																				pos: position{line: 2909, col: 10, offset: 91792},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2902, col: 10, offset: 91633},
+																					pos:        position{line: 2909, col: 10, offset: 91792},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2924, col: 8, offset: 92031},
+																			pos: position{line: 2931, col: 8, offset: 92190},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2911, col: 12, offset: 91804},
+																					pos: position{line: 2918, col: 12, offset: 91963},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2911, col: 13, offset: 91805},
+																						pos: position{line: 2918, col: 13, offset: 91964},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 13, offset: 91805},
+																								pos:        position{line: 2918, col: 13, offset: 91964},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 20, offset: 91812},
+																								pos:        position{line: 2918, col: 20, offset: 91971},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 29, offset: 91821},
+																								pos:        position{line: 2918, col: 29, offset: 91980},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2906, col: 11, offset: 91694},
+													pos: position{line: 2913, col: 11, offset: 91853},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2906, col: 11, offset: 91694},
+														pos: position{line: 2913, col: 11, offset: 91853},
 														expr: &charClassMatcher{
-															pos:        position{line: 2906, col: 11, offset: 91694},
+															pos:        position{line: 2913, col: 11, offset: 91853},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2852, col: 14, offset: 90226},
+													pos: position{line: 2859, col: 14, offset: 90385},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2852, col: 14, offset: 90226},
+														pos: position{line: 2859, col: 14, offset: 90385},
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 14, offset: 90226},
+															pos:        position{line: 2859, col: 14, offset: 90385},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2921, col: 8, offset: 91981},
+													pos: position{line: 2928, col: 8, offset: 92140},
 													expr: &anyMatcher{
-														line: 2921, col: 9, offset: 91982,
+														line: 2928, col: 9, offset: 92141,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2921, col: 8, offset: 91981},
+							pos: position{line: 2928, col: 8, offset: 92140},
 							expr: &anyMatcher{
-								line: 2921, col: 9, offset: 91982,
+								line: 2928, col: 9, offset: 92141,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2856, col: 17, offset: 90296},
+												pos: position{line: 2863, col: 17, offset: 90455},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2856, col: 17, offset: 90296},
+													pos:   position{line: 2863, col: 17, offset: 90455},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 5, offset: 90750},
+														pos: position{line: 2880, col: 5, offset: 90909},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2873, col: 5, offset: 90750},
+															pos:   position{line: 2880, col: 5, offset: 90909},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2873, col: 14, offset: 90759},
+																pos: position{line: 2880, col: 14, offset: 90918},
 																expr: &choiceExpr{
-																	pos: position{line: 2874, col: 9, offset: 90769},
+																	pos: position{line: 2881, col: 9, offset: 90928},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 9, offset: 90769},
+																			pos: position{line: 2881, col: 9, offset: 90928},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2874, col: 9, offset: 90769},
+																				pos: position{line: 2881, col: 9, offset: 90928},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2874, col: 9, offset: 90769},
+																						pos: position{line: 2881, col: 9, offset: 90928},
 																						expr: &litMatcher{
-																							pos:        position{line: 2874, col: 10, offset: 90770},
+																							pos:        position{line: 2881, col: 10, offset: 90929},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2875, col: 9, offset: 90798},
+																						pos: position{line: 2882, col: 9, offset: 90957},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2875, col: 10, offset: 90799},
+																							pos:        position{line: 2882, col: 10, offset: 90958},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2878, col: 11, offset: 91011},
+																			pos: position{line: 2885, col: 11, offset: 91170},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2878, col: 11, offset: 91011},
+																					pos:        position{line: 2885, col: 11, offset: 91170},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2878, col: 19, offset: 91019},
+																					pos: position{line: 2885, col: 19, offset: 91178},
 																					expr: &seqExpr{
-																						pos: position{line: 2878, col: 21, offset: 91021},
+																						pos: position{line: 2885, col: 21, offset: 91180},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2878, col: 21, offset: 91021},
+																								pos: position{line: 2885, col: 21, offset: 91180},
 																								expr: &actionExpr{
-																									pos: position{line: 2902, col: 10, offset: 91633},
+																									pos: position{line: 2909, col: 10, offset: 91792},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2902, col: 10, offset: 91633},
+																										pos:        position{line: 2909, col: 10, offset: 91792},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2878, col: 28, offset: 91028},
+																								pos: position{line: 2885, col: 28, offset: 91187},
 																								expr: &notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2881, col: 11, offset: 91148},
+																			pos: position{line: 2888, col: 11, offset: 91307},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2881, col: 11, offset: 91148},
+																				pos:        position{line: 2888, col: 11, offset: 91307},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 10, offset: 91633},
+								pos: position{line: 2909, col: 10, offset: 91792},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2902, col: 10, offset: 91633},
+									pos:        position{line: 2909, col: 10, offset: 91792},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2924, col: 8, offset: 92031},
+							pos: position{line: 2931, col: 8, offset: 92190},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2911, col: 12, offset: 91804},
+									pos: position{line: 2918, col: 12, offset: 91963},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2911, col: 13, offset: 91805},
+										pos: position{line: 2918, col: 13, offset: 91964},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2911, col: 13, offset: 91805},
+												pos:        position{line: 2918, col: 13, offset: 91964},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2911, col: 20, offset: 91812},
+												pos:        position{line: 2918, col: 20, offset: 91971},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2911, col: 29, offset: 91821},
+												pos:        position{line: 2918, col: 29, offset: 91980},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2921, col: 8, offset: 91981},
+									pos: position{line: 2928, col: 8, offset: 92140},
 									expr: &anyMatcher{
-										line: 2921, col: 9, offset: 91982,
+										line: 2928, col: 9, offset: 92141,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2894, col: 12, offset: 91460},
+																				pos: position{line: 2901, col: 12, offset: 91619},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2894, col: 13, offset: 91461},
+																					pos: position{line: 2901, col: 13, offset: 91620},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2894, col: 13, offset: 91461},
+																							pos: position{line: 2901, col: 13, offset: 91620},
 																							expr: &litMatcher{
-																								pos:        position{line: 2894, col: 13, offset: 91461},
+																								pos:        position{line: 2901, col: 13, offset: 91620},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2894, col: 18, offset: 91466},
+																							pos: position{line: 2901, col: 18, offset: 91625},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2894, col: 18, offset: 91466},
+																								pos:        position{line: 2901, col: 18, offset: 91625},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2894, col: 12, offset: 91460},
+																				pos: position{line: 2901, col: 12, offset: 91619},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2894, col: 13, offset: 91461},
+																					pos: position{line: 2901, col: 13, offset: 91620},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2894, col: 13, offset: 91461},
+																							pos: position{line: 2901, col: 13, offset: 91620},
 																							expr: &litMatcher{
-																								pos:        position{line: 2894, col: 13, offset: 91461},
+																								pos:        position{line: 2901, col: 13, offset: 91620},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2894, col: 18, offset: 91466},
+																							pos: position{line: 2901, col: 18, offset: 91625},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2894, col: 18, offset: 91466},
+																								pos:        position{line: 2901, col: 18, offset: 91625},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2894, col: 12, offset: 91460},
+																		pos: position{line: 2901, col: 12, offset: 91619},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2894, col: 13, offset: 91461},
+																			pos: position{line: 2901, col: 13, offset: 91620},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2894, col: 13, offset: 91461},
+																					pos: position{line: 2901, col: 13, offset: 91620},
 																					expr: &litMatcher{
-																						pos:        position{line: 2894, col: 13, offset: 91461},
+																						pos:        position{line: 2901, col: 13, offset: 91620},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2894, col: 18, offset: 91466},
+																					pos: position{line: 2901, col: 18, offset: 91625},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2894, col: 18, offset: 91466},
+																						pos:        position{line: 2901, col: 18, offset: 91625},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2894, col: 12, offset: 91460},
+																									pos: position{line: 2901, col: 12, offset: 91619},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2894, col: 13, offset: 91461},
+																										pos: position{line: 2901, col: 13, offset: 91620},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2894, col: 13, offset: 91461},
+																												pos: position{line: 2901, col: 13, offset: 91620},
 																												expr: &litMatcher{
-																													pos:        position{line: 2894, col: 13, offset: 91461},
+																													pos:        position{line: 2901, col: 13, offset: 91620},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2894, col: 18, offset: 91466},
+																												pos: position{line: 2901, col: 18, offset: 91625},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2894, col: 18, offset: 91466},
+																													pos:        position{line: 2901, col: 18, offset: 91625},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2894, col: 12, offset: 91460},
+																									pos: position{line: 2901, col: 12, offset: 91619},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2894, col: 13, offset: 91461},
+																										pos: position{line: 2901, col: 13, offset: 91620},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2894, col: 13, offset: 91461},
+																												pos: position{line: 2901, col: 13, offset: 91620},
 																												expr: &litMatcher{
-																													pos:        position{line: 2894, col: 13, offset: 91461},
+																													pos:        position{line: 2901, col: 13, offset: 91620},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2894, col: 18, offset: 91466},
+																												pos: position{line: 2901, col: 18, offset: 91625},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2894, col: 18, offset: 91466},
+																													pos:        position{line: 2901, col: 18, offset: 91625},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2894, col: 12, offset: 91460},
+																							pos: position{line: 2901, col: 12, offset: 91619},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2894, col: 13, offset: 91461},
+																								pos: position{line: 2901, col: 13, offset: 91620},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2894, col: 13, offset: 91461},
+																										pos: position{line: 2901, col: 13, offset: 91620},
 																										expr: &litMatcher{
-																											pos:        position{line: 2894, col: 13, offset: 91461},
+																											pos:        position{line: 2901, col: 13, offset: 91620},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2894, col: 18, offset: 91466},
+																										pos: position{line: 2901, col: 18, offset: 91625},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2894, col: 18, offset: 91466},
+																											pos:        position{line: 2901, col: 18, offset: 91625},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2894, col: 12, offset: 91460},
+														pos: position{line: 2901, col: 12, offset: 91619},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2894, col: 13, offset: 91461},
+															pos: position{line: 2901, col: 13, offset: 91620},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2894, col: 13, offset: 91461},
+																	pos: position{line: 2901, col: 13, offset: 91620},
 																	expr: &litMatcher{
-																		pos:        position{line: 2894, col: 13, offset: 91461},
+																		pos:        position{line: 2901, col: 13, offset: 91620},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2894, col: 18, offset: 91466},
+																	pos: position{line: 2901, col: 18, offset: 91625},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2894, col: 18, offset: 91466},
+																		pos:        position{line: 2901, col: 18, offset: 91625},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2894, col: 12, offset: 91460},
+														pos: position{line: 2901, col: 12, offset: 91619},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2894, col: 13, offset: 91461},
+															pos: position{line: 2901, col: 13, offset: 91620},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2894, col: 13, offset: 91461},
+																	pos: position{line: 2901, col: 13, offset: 91620},
 																	expr: &litMatcher{
-																		pos:        position{line: 2894, col: 13, offset: 91461},
+																		pos:        position{line: 2901, col: 13, offset: 91620},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2894, col: 18, offset: 91466},
+																	pos: position{line: 2901, col: 18, offset: 91625},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2894, col: 18, offset: 91466},
+																		pos:        position{line: 2901, col: 18, offset: 91625},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2894, col: 12, offset: 91460},
+												pos: position{line: 2901, col: 12, offset: 91619},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2894, col: 13, offset: 91461},
+													pos: position{line: 2901, col: 13, offset: 91620},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2894, col: 13, offset: 91461},
+															pos: position{line: 2901, col: 13, offset: 91620},
 															expr: &litMatcher{
-																pos:        position{line: 2894, col: 13, offset: 91461},
+																pos:        position{line: 2901, col: 13, offset: 91620},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2894, col: 18, offset: 91466},
+															pos: position{line: 2901, col: 18, offset: 91625},
 															expr: &charClassMatcher{
-																pos:        position{line: 2894, col: 18, offset: 91466},
+																pos:        position{line: 2901, col: 18, offset: 91625},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2921, col: 8, offset: 91981},
+							pos: position{line: 2928, col: 8, offset: 92140},
 							expr: &anyMatcher{
-								line: 2921, col: 9, offset: 91982,
+								line: 2928, col: 9, offset: 92141,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2796, col: 14, offset: 88802},
+																		pos: position{line: 2803, col: 14, offset: 88961},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2796, col: 14, offset: 88802},
+																			pos: position{line: 2803, col: 14, offset: 88961},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2796, col: 14, offset: 88802},
+																				pos:        position{line: 2803, col: 14, offset: 88961},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2796, col: 14, offset: 88802},
+																				pos: position{line: 2803, col: 14, offset: 88961},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2796, col: 14, offset: 88802},
+																					pos: position{line: 2803, col: 14, offset: 88961},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2796, col: 14, offset: 88802},
+																						pos:        position{line: 2803, col: 14, offset: 88961},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2796, col: 14, offset: 88802},
+																							pos: position{line: 2803, col: 14, offset: 88961},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2796, col: 14, offset: 88802},
+																								pos: position{line: 2803, col: 14, offset: 88961},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2796, col: 14, offset: 88802},
+																									pos:        position{line: 2803, col: 14, offset: 88961},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2796, col: 14, offset: 88802},
+																									pos: position{line: 2803, col: 14, offset: 88961},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2796, col: 14, offset: 88802},
+																										pos: position{line: 2803, col: 14, offset: 88961},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2796, col: 14, offset: 88802},
+																											pos:        position{line: 2803, col: 14, offset: 88961},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2921, col: 8, offset: 91981},
+							pos: position{line: 2928, col: 8, offset: 92140},
 							expr: &anyMatcher{
-								line: 2921, col: 9, offset: 91982,
+								line: 2928, col: 9, offset: 92141,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2796, col: 14, offset: 88802},
+																pos: position{line: 2803, col: 14, offset: 88961},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2796, col: 14, offset: 88802},
+																	pos: position{line: 2803, col: 14, offset: 88961},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2796, col: 14, offset: 88802},
+																		pos:        position{line: 2803, col: 14, offset: 88961},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2796, col: 14, offset: 88802},
+																pos: position{line: 2803, col: 14, offset: 88961},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2796, col: 14, offset: 88802},
+																	pos: position{line: 2803, col: 14, offset: 88961},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2796, col: 14, offset: 88802},
+																		pos:        position{line: 2803, col: 14, offset: 88961},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2924, col: 8, offset: 92031},
+							pos: position{line: 2931, col: 8, offset: 92190},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2911, col: 12, offset: 91804},
+									pos: position{line: 2918, col: 12, offset: 91963},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2911, col: 13, offset: 91805},
+										pos: position{line: 2918, col: 13, offset: 91964},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2911, col: 13, offset: 91805},
+												pos:        position{line: 2918, col: 13, offset: 91964},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2911, col: 20, offset: 91812},
+												pos:        position{line: 2918, col: 20, offset: 91971},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2911, col: 29, offset: 91821},
+												pos:        position{line: 2918, col: 29, offset: 91980},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2921, col: 8, offset: 91981},
+									pos: position{line: 2928, col: 8, offset: 92140},
 									expr: &anyMatcher{
-										line: 2921, col: 9, offset: 91982,
+										line: 2928, col: 9, offset: 92141,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2919, col: 11, offset: 91967},
+							pos: position{line: 2926, col: 11, offset: 92126},
 							expr: &anyMatcher{
-								line: 2919, col: 13, offset: 91969,
+								line: 2926, col: 13, offset: 92128,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2902, col: 10, offset: 91633},
+															pos: position{line: 2909, col: 10, offset: 91792},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2902, col: 10, offset: 91633},
+																pos:        position{line: 2909, col: 10, offset: 91792},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2924, col: 8, offset: 92031},
+														pos: position{line: 2931, col: 8, offset: 92190},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2911, col: 12, offset: 91804},
+																pos: position{line: 2918, col: 12, offset: 91963},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2911, col: 13, offset: 91805},
+																	pos: position{line: 2918, col: 13, offset: 91964},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 13, offset: 91805},
+																			pos:        position{line: 2918, col: 13, offset: 91964},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 20, offset: 91812},
+																			pos:        position{line: 2918, col: 20, offset: 91971},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 29, offset: 91821},
+																			pos:        position{line: 2918, col: 29, offset: 91980},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2921, col: 8, offset: 91981},
+																pos: position{line: 2928, col: 8, offset: 92140},
 																expr: &anyMatcher{
-																	line: 2921, col: 9, offset: 91982,
+																	line: 2928, col: 9, offset: 92141,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2902, col: 10, offset: 91633},
+															pos: position{line: 2909, col: 10, offset: 91792},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2902, col: 10, offset: 91633},
+																pos:        position{line: 2909, col: 10, offset: 91792},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2924, col: 8, offset: 92031},
+														pos: position{line: 2931, col: 8, offset: 92190},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2911, col: 12, offset: 91804},
+																pos: position{line: 2918, col: 12, offset: 91963},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2911, col: 13, offset: 91805},
+																	pos: position{line: 2918, col: 13, offset: 91964},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 13, offset: 91805},
+																			pos:        position{line: 2918, col: 13, offset: 91964},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 20, offset: 91812},
+																			pos:        position{line: 2918, col: 20, offset: 91971},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 29, offset: 91821},
+																			pos:        position{line: 2918, col: 29, offset: 91980},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2921, col: 8, offset: 91981},
+																pos: position{line: 2928, col: 8, offset: 92140},
 																expr: &anyMatcher{
-																	line: 2921, col: 9, offset: 91982,
+																	line: 2928, col: 9, offset: 92141,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 678, col: 14, offset: 21586},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2919, col: 11, offset: 91967},
+														pos: position{line: 2926, col: 11, offset: 92126},
 														expr: &anyMatcher{
-															line: 2919, col: 13, offset: 91969,
+															line: 2926, col: 13, offset: 92128,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 678, col: 21, offset: 21593},
 														expr: &actionExpr{
-															pos: position{line: 2902, col: 10, offset: 91633},
+															pos: position{line: 2909, col: 10, offset: 91792},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2902, col: 10, offset: 91633},
+																pos:        position{line: 2909, col: 10, offset: 91792},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2924, col: 8, offset: 92031},
+														pos: position{line: 2931, col: 8, offset: 92190},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2911, col: 12, offset: 91804},
+																pos: position{line: 2918, col: 12, offset: 91963},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2911, col: 13, offset: 91805},
+																	pos: position{line: 2918, col: 13, offset: 91964},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 13, offset: 91805},
+																			pos:        position{line: 2918, col: 13, offset: 91964},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 20, offset: 91812},
+																			pos:        position{line: 2918, col: 20, offset: 91971},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 29, offset: 91821},
+																			pos:        position{line: 2918, col: 29, offset: 91980},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2921, col: 8, offset: 91981},
+																pos: position{line: 2928, col: 8, offset: 92140},
 																expr: &anyMatcher{
-																	line: 2921, col: 9, offset: 91982,
+																	line: 2928, col: 9, offset: 92141,
 																},
 															},
 														},
@@ -4453,10 +4453,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 743, col: 8, offset: 23783},
 																	expr: &actionExpr{
-																		pos: position{line: 2902, col: 10, offset: 91633},
+																		pos: position{line: 2909, col: 10, offset: 91792},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2902, col: 10, offset: 91633},
+																			pos:        position{line: 2909, col: 10, offset: 91792},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4465,28 +4465,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2924, col: 8, offset: 92031},
+																	pos: position{line: 2931, col: 8, offset: 92190},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2911, col: 12, offset: 91804},
+																			pos: position{line: 2918, col: 12, offset: 91963},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2911, col: 13, offset: 91805},
+																				pos: position{line: 2918, col: 13, offset: 91964},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 13, offset: 91805},
+																						pos:        position{line: 2918, col: 13, offset: 91964},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 20, offset: 91812},
+																						pos:        position{line: 2918, col: 20, offset: 91971},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 29, offset: 91821},
+																						pos:        position{line: 2918, col: 29, offset: 91980},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4495,9 +4495,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2921, col: 8, offset: 91981},
+																			pos: position{line: 2928, col: 8, offset: 92140},
 																			expr: &anyMatcher{
-																				line: 2921, col: 9, offset: 91982,
+																				line: 2928, col: 9, offset: 92141,
 																			},
 																		},
 																	},
@@ -4558,10 +4558,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 743, col: 8, offset: 23783},
 																									expr: &actionExpr{
-																										pos: position{line: 2902, col: 10, offset: 91633},
+																										pos: position{line: 2909, col: 10, offset: 91792},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2902, col: 10, offset: 91633},
+																											pos:        position{line: 2909, col: 10, offset: 91792},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4570,28 +4570,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2924, col: 8, offset: 92031},
+																									pos: position{line: 2931, col: 8, offset: 92190},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2911, col: 12, offset: 91804},
+																											pos: position{line: 2918, col: 12, offset: 91963},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2911, col: 13, offset: 91805},
+																												pos: position{line: 2918, col: 13, offset: 91964},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 13, offset: 91805},
+																														pos:        position{line: 2918, col: 13, offset: 91964},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 20, offset: 91812},
+																														pos:        position{line: 2918, col: 20, offset: 91971},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 29, offset: 91821},
+																														pos:        position{line: 2918, col: 29, offset: 91980},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4600,9 +4600,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2921, col: 8, offset: 91981},
+																											pos: position{line: 2928, col: 8, offset: 92140},
 																											expr: &anyMatcher{
-																												line: 2921, col: 9, offset: 91982,
+																												line: 2928, col: 9, offset: 92141,
 																											},
 																										},
 																									},
@@ -4611,9 +4611,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2921, col: 8, offset: 91981},
+																						pos: position{line: 2928, col: 8, offset: 92140},
 																						expr: &anyMatcher{
-																							line: 2921, col: 9, offset: 91982,
+																							line: 2928, col: 9, offset: 92141,
 																						},
 																					},
 																				},
@@ -4629,21 +4629,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2919, col: 11, offset: 91967},
+																							pos: position{line: 2926, col: 11, offset: 92126},
 																							expr: &anyMatcher{
-																								line: 2919, col: 13, offset: 91969,
+																								line: 2926, col: 13, offset: 92128,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2848, col: 13, offset: 90159},
+																								pos: position{line: 2855, col: 13, offset: 90318},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2848, col: 13, offset: 90159},
+																									pos: position{line: 2855, col: 13, offset: 90318},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2848, col: 13, offset: 90159},
+																										pos:        position{line: 2855, col: 13, offset: 90318},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4653,28 +4653,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4683,9 +4683,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -4741,10 +4741,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 743, col: 8, offset: 23783},
 																				expr: &actionExpr{
-																					pos: position{line: 2902, col: 10, offset: 91633},
+																					pos: position{line: 2909, col: 10, offset: 91792},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2902, col: 10, offset: 91633},
+																						pos:        position{line: 2909, col: 10, offset: 91792},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4753,28 +4753,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2924, col: 8, offset: 92031},
+																				pos: position{line: 2931, col: 8, offset: 92190},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2911, col: 12, offset: 91804},
+																						pos: position{line: 2918, col: 12, offset: 91963},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2911, col: 13, offset: 91805},
+																							pos: position{line: 2918, col: 13, offset: 91964},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2911, col: 13, offset: 91805},
+																									pos:        position{line: 2918, col: 13, offset: 91964},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2911, col: 20, offset: 91812},
+																									pos:        position{line: 2918, col: 20, offset: 91971},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2911, col: 29, offset: 91821},
+																									pos:        position{line: 2918, col: 29, offset: 91980},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4783,9 +4783,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2921, col: 8, offset: 91981},
+																						pos: position{line: 2928, col: 8, offset: 92140},
 																						expr: &anyMatcher{
-																							line: 2921, col: 9, offset: 91982,
+																							line: 2928, col: 9, offset: 92141,
 																						},
 																					},
 																				},
@@ -4794,9 +4794,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2921, col: 8, offset: 91981},
+																	pos: position{line: 2928, col: 8, offset: 92140},
 																	expr: &anyMatcher{
-																		line: 2921, col: 9, offset: 91982,
+																		line: 2928, col: 9, offset: 92141,
 																	},
 																},
 															},
@@ -4851,10 +4851,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 750, col: 8, offset: 24031},
 																		expr: &actionExpr{
-																			pos: position{line: 2902, col: 10, offset: 91633},
+																			pos: position{line: 2909, col: 10, offset: 91792},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2902, col: 10, offset: 91633},
+																				pos:        position{line: 2909, col: 10, offset: 91792},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4863,28 +4863,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2924, col: 8, offset: 92031},
+																		pos: position{line: 2931, col: 8, offset: 92190},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
+																				pos: position{line: 2918, col: 12, offset: 91963},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4893,9 +4893,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2921, col: 8, offset: 91981},
+																				pos: position{line: 2928, col: 8, offset: 92140},
 																				expr: &anyMatcher{
-																					line: 2921, col: 9, offset: 91982,
+																					line: 2928, col: 9, offset: 92141,
 																				},
 																			},
 																		},
@@ -4967,10 +4967,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 750, col: 8, offset: 24031},
 																												expr: &actionExpr{
-																													pos: position{line: 2902, col: 10, offset: 91633},
+																													pos: position{line: 2909, col: 10, offset: 91792},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2902, col: 10, offset: 91633},
+																														pos:        position{line: 2909, col: 10, offset: 91792},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4979,28 +4979,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2924, col: 8, offset: 92031},
+																												pos: position{line: 2931, col: 8, offset: 92190},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2911, col: 12, offset: 91804},
+																														pos: position{line: 2918, col: 12, offset: 91963},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2911, col: 13, offset: 91805},
+																															pos: position{line: 2918, col: 13, offset: 91964},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2911, col: 13, offset: 91805},
+																																	pos:        position{line: 2918, col: 13, offset: 91964},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2911, col: 20, offset: 91812},
+																																	pos:        position{line: 2918, col: 20, offset: 91971},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2911, col: 29, offset: 91821},
+																																	pos:        position{line: 2918, col: 29, offset: 91980},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5009,9 +5009,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2921, col: 8, offset: 91981},
+																														pos: position{line: 2928, col: 8, offset: 92140},
 																														expr: &anyMatcher{
-																															line: 2921, col: 9, offset: 91982,
+																															line: 2928, col: 9, offset: 92141,
 																														},
 																													},
 																												},
@@ -5027,9 +5027,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2921, col: 8, offset: 91981},
+																						pos: position{line: 2928, col: 8, offset: 92140},
 																						expr: &anyMatcher{
-																							line: 2921, col: 9, offset: 91982,
+																							line: 2928, col: 9, offset: 92141,
 																						},
 																					},
 																				},
@@ -5045,21 +5045,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2919, col: 11, offset: 91967},
+																							pos: position{line: 2926, col: 11, offset: 92126},
 																							expr: &anyMatcher{
-																								line: 2919, col: 13, offset: 91969,
+																								line: 2926, col: 13, offset: 92128,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2848, col: 13, offset: 90159},
+																								pos: position{line: 2855, col: 13, offset: 90318},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2848, col: 13, offset: 90159},
+																									pos: position{line: 2855, col: 13, offset: 90318},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2848, col: 13, offset: 90159},
+																										pos:        position{line: 2855, col: 13, offset: 90318},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5069,28 +5069,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5099,9 +5099,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -5166,10 +5166,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 750, col: 8, offset: 24031},
 																								expr: &actionExpr{
-																									pos: position{line: 2902, col: 10, offset: 91633},
+																									pos: position{line: 2909, col: 10, offset: 91792},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2902, col: 10, offset: 91633},
+																										pos:        position{line: 2909, col: 10, offset: 91792},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5178,28 +5178,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2924, col: 8, offset: 92031},
+																								pos: position{line: 2931, col: 8, offset: 92190},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2911, col: 12, offset: 91804},
+																										pos: position{line: 2918, col: 12, offset: 91963},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2911, col: 13, offset: 91805},
+																											pos: position{line: 2918, col: 13, offset: 91964},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 13, offset: 91805},
+																													pos:        position{line: 2918, col: 13, offset: 91964},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 20, offset: 91812},
+																													pos:        position{line: 2918, col: 20, offset: 91971},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 29, offset: 91821},
+																													pos:        position{line: 2918, col: 29, offset: 91980},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5208,9 +5208,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2921, col: 8, offset: 91981},
+																										pos: position{line: 2928, col: 8, offset: 92140},
 																										expr: &anyMatcher{
-																											line: 2921, col: 9, offset: 91982,
+																											line: 2928, col: 9, offset: 92141,
 																										},
 																									},
 																								},
@@ -5226,9 +5226,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2921, col: 8, offset: 91981},
+																		pos: position{line: 2928, col: 8, offset: 92140},
 																		expr: &anyMatcher{
-																			line: 2921, col: 9, offset: 91982,
+																			line: 2928, col: 9, offset: 92141,
 																		},
 																	},
 																},
@@ -5280,10 +5280,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 761, col: 52, offset: 24443},
 																		expr: &actionExpr{
-																			pos: position{line: 2902, col: 10, offset: 91633},
+																			pos: position{line: 2909, col: 10, offset: 91792},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2902, col: 10, offset: 91633},
+																				pos:        position{line: 2909, col: 10, offset: 91792},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5292,28 +5292,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2924, col: 8, offset: 92031},
+																		pos: position{line: 2931, col: 8, offset: 92190},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
+																				pos: position{line: 2918, col: 12, offset: 91963},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5322,9 +5322,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2921, col: 8, offset: 91981},
+																				pos: position{line: 2928, col: 8, offset: 92140},
 																				expr: &anyMatcher{
-																					line: 2921, col: 9, offset: 91982,
+																					line: 2928, col: 9, offset: 92141,
 																				},
 																			},
 																		},
@@ -5358,10 +5358,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 964, col: 40, offset: 30246},
 																						expr: &actionExpr{
-																							pos: position{line: 2902, col: 10, offset: 91633},
+																							pos: position{line: 2909, col: 10, offset: 91792},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2902, col: 10, offset: 91633},
+																								pos:        position{line: 2909, col: 10, offset: 91792},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5370,28 +5370,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2924, col: 8, offset: 92031},
+																						pos: position{line: 2931, col: 8, offset: 92190},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2911, col: 12, offset: 91804},
+																								pos: position{line: 2918, col: 12, offset: 91963},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2911, col: 13, offset: 91805},
+																									pos: position{line: 2918, col: 13, offset: 91964},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 13, offset: 91805},
+																											pos:        position{line: 2918, col: 13, offset: 91964},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 20, offset: 91812},
+																											pos:        position{line: 2918, col: 20, offset: 91971},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 29, offset: 91821},
+																											pos:        position{line: 2918, col: 29, offset: 91980},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5400,9 +5400,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2921, col: 8, offset: 91981},
+																								pos: position{line: 2928, col: 8, offset: 92140},
 																								expr: &anyMatcher{
-																									line: 2921, col: 9, offset: 91982,
+																									line: 2928, col: 9, offset: 92141,
 																								},
 																							},
 																						},
@@ -5420,21 +5420,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2919, col: 11, offset: 91967},
+																							pos: position{line: 2926, col: 11, offset: 92126},
 																							expr: &anyMatcher{
-																								line: 2919, col: 13, offset: 91969,
+																								line: 2926, col: 13, offset: 92128,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2848, col: 13, offset: 90159},
+																								pos: position{line: 2855, col: 13, offset: 90318},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2848, col: 13, offset: 90159},
+																									pos: position{line: 2855, col: 13, offset: 90318},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2848, col: 13, offset: 90159},
+																										pos:        position{line: 2855, col: 13, offset: 90318},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5444,28 +5444,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5474,9 +5474,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -5504,10 +5504,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 964, col: 40, offset: 30246},
 																	expr: &actionExpr{
-																		pos: position{line: 2902, col: 10, offset: 91633},
+																		pos: position{line: 2909, col: 10, offset: 91792},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2902, col: 10, offset: 91633},
+																			pos:        position{line: 2909, col: 10, offset: 91792},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5516,28 +5516,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2924, col: 8, offset: 92031},
+																	pos: position{line: 2931, col: 8, offset: 92190},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2911, col: 12, offset: 91804},
+																			pos: position{line: 2918, col: 12, offset: 91963},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2911, col: 13, offset: 91805},
+																				pos: position{line: 2918, col: 13, offset: 91964},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 13, offset: 91805},
+																						pos:        position{line: 2918, col: 13, offset: 91964},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 20, offset: 91812},
+																						pos:        position{line: 2918, col: 20, offset: 91971},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 29, offset: 91821},
+																						pos:        position{line: 2918, col: 29, offset: 91980},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5546,9 +5546,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2921, col: 8, offset: 91981},
+																			pos: position{line: 2928, col: 8, offset: 92140},
 																			expr: &anyMatcher{
-																				line: 2921, col: 9, offset: 91982,
+																				line: 2928, col: 9, offset: 92141,
 																			},
 																		},
 																	},
@@ -5605,10 +5605,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 757, col: 8, offset: 24277},
 																		expr: &actionExpr{
-																			pos: position{line: 2902, col: 10, offset: 91633},
+																			pos: position{line: 2909, col: 10, offset: 91792},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2902, col: 10, offset: 91633},
+																				pos:        position{line: 2909, col: 10, offset: 91792},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5617,28 +5617,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2924, col: 8, offset: 92031},
+																		pos: position{line: 2931, col: 8, offset: 92190},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
+																				pos: position{line: 2918, col: 12, offset: 91963},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5647,9 +5647,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2921, col: 8, offset: 91981},
+																				pos: position{line: 2928, col: 8, offset: 92140},
 																				expr: &anyMatcher{
-																					line: 2921, col: 9, offset: 91982,
+																					line: 2928, col: 9, offset: 92141,
 																				},
 																			},
 																		},
@@ -5721,10 +5721,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 757, col: 8, offset: 24277},
 																												expr: &actionExpr{
-																													pos: position{line: 2902, col: 10, offset: 91633},
+																													pos: position{line: 2909, col: 10, offset: 91792},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2902, col: 10, offset: 91633},
+																														pos:        position{line: 2909, col: 10, offset: 91792},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5733,28 +5733,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2924, col: 8, offset: 92031},
+																												pos: position{line: 2931, col: 8, offset: 92190},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2911, col: 12, offset: 91804},
+																														pos: position{line: 2918, col: 12, offset: 91963},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2911, col: 13, offset: 91805},
+																															pos: position{line: 2918, col: 13, offset: 91964},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2911, col: 13, offset: 91805},
+																																	pos:        position{line: 2918, col: 13, offset: 91964},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2911, col: 20, offset: 91812},
+																																	pos:        position{line: 2918, col: 20, offset: 91971},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2911, col: 29, offset: 91821},
+																																	pos:        position{line: 2918, col: 29, offset: 91980},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5763,9 +5763,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2921, col: 8, offset: 91981},
+																														pos: position{line: 2928, col: 8, offset: 92140},
 																														expr: &anyMatcher{
-																															line: 2921, col: 9, offset: 91982,
+																															line: 2928, col: 9, offset: 92141,
 																														},
 																													},
 																												},
@@ -5781,9 +5781,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2921, col: 8, offset: 91981},
+																						pos: position{line: 2928, col: 8, offset: 92140},
 																						expr: &anyMatcher{
-																							line: 2921, col: 9, offset: 91982,
+																							line: 2928, col: 9, offset: 92141,
 																						},
 																					},
 																				},
@@ -5799,21 +5799,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2919, col: 11, offset: 91967},
+																							pos: position{line: 2926, col: 11, offset: 92126},
 																							expr: &anyMatcher{
-																								line: 2919, col: 13, offset: 91969,
+																								line: 2926, col: 13, offset: 92128,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2848, col: 13, offset: 90159},
+																								pos: position{line: 2855, col: 13, offset: 90318},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2848, col: 13, offset: 90159},
+																									pos: position{line: 2855, col: 13, offset: 90318},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2848, col: 13, offset: 90159},
+																										pos:        position{line: 2855, col: 13, offset: 90318},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5823,28 +5823,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5853,9 +5853,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -5920,10 +5920,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 757, col: 8, offset: 24277},
 																								expr: &actionExpr{
-																									pos: position{line: 2902, col: 10, offset: 91633},
+																									pos: position{line: 2909, col: 10, offset: 91792},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2902, col: 10, offset: 91633},
+																										pos:        position{line: 2909, col: 10, offset: 91792},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5932,28 +5932,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2924, col: 8, offset: 92031},
+																								pos: position{line: 2931, col: 8, offset: 92190},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2911, col: 12, offset: 91804},
+																										pos: position{line: 2918, col: 12, offset: 91963},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2911, col: 13, offset: 91805},
+																											pos: position{line: 2918, col: 13, offset: 91964},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 13, offset: 91805},
+																													pos:        position{line: 2918, col: 13, offset: 91964},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 20, offset: 91812},
+																													pos:        position{line: 2918, col: 20, offset: 91971},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 29, offset: 91821},
+																													pos:        position{line: 2918, col: 29, offset: 91980},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5962,9 +5962,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2921, col: 8, offset: 91981},
+																										pos: position{line: 2928, col: 8, offset: 92140},
 																										expr: &anyMatcher{
-																											line: 2921, col: 9, offset: 91982,
+																											line: 2928, col: 9, offset: 92141,
 																										},
 																									},
 																								},
@@ -5980,9 +5980,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2921, col: 8, offset: 91981},
+																		pos: position{line: 2928, col: 8, offset: 92140},
 																		expr: &anyMatcher{
-																			line: 2921, col: 9, offset: 91982,
+																			line: 2928, col: 9, offset: 92141,
 																		},
 																	},
 																},
@@ -6038,10 +6038,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 772, col: 8, offset: 24815},
 																		expr: &actionExpr{
-																			pos: position{line: 2902, col: 10, offset: 91633},
+																			pos: position{line: 2909, col: 10, offset: 91792},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2902, col: 10, offset: 91633},
+																				pos:        position{line: 2909, col: 10, offset: 91792},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6050,28 +6050,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2924, col: 8, offset: 92031},
+																		pos: position{line: 2931, col: 8, offset: 92190},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
+																				pos: position{line: 2918, col: 12, offset: 91963},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6080,9 +6080,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2921, col: 8, offset: 91981},
+																				pos: position{line: 2928, col: 8, offset: 92140},
 																				expr: &anyMatcher{
-																					line: 2921, col: 9, offset: 91982,
+																					line: 2928, col: 9, offset: 92141,
 																				},
 																			},
 																		},
@@ -6154,10 +6154,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 772, col: 8, offset: 24815},
 																												expr: &actionExpr{
-																													pos: position{line: 2902, col: 10, offset: 91633},
+																													pos: position{line: 2909, col: 10, offset: 91792},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2902, col: 10, offset: 91633},
+																														pos:        position{line: 2909, col: 10, offset: 91792},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6166,28 +6166,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2924, col: 8, offset: 92031},
+																												pos: position{line: 2931, col: 8, offset: 92190},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2911, col: 12, offset: 91804},
+																														pos: position{line: 2918, col: 12, offset: 91963},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2911, col: 13, offset: 91805},
+																															pos: position{line: 2918, col: 13, offset: 91964},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2911, col: 13, offset: 91805},
+																																	pos:        position{line: 2918, col: 13, offset: 91964},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2911, col: 20, offset: 91812},
+																																	pos:        position{line: 2918, col: 20, offset: 91971},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2911, col: 29, offset: 91821},
+																																	pos:        position{line: 2918, col: 29, offset: 91980},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6196,9 +6196,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2921, col: 8, offset: 91981},
+																														pos: position{line: 2928, col: 8, offset: 92140},
 																														expr: &anyMatcher{
-																															line: 2921, col: 9, offset: 91982,
+																															line: 2928, col: 9, offset: 92141,
 																														},
 																													},
 																												},
@@ -6214,9 +6214,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2921, col: 8, offset: 91981},
+																						pos: position{line: 2928, col: 8, offset: 92140},
 																						expr: &anyMatcher{
-																							line: 2921, col: 9, offset: 91982,
+																							line: 2928, col: 9, offset: 92141,
 																						},
 																					},
 																				},
@@ -6232,21 +6232,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2919, col: 11, offset: 91967},
+																							pos: position{line: 2926, col: 11, offset: 92126},
 																							expr: &anyMatcher{
-																								line: 2919, col: 13, offset: 91969,
+																								line: 2926, col: 13, offset: 92128,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2848, col: 13, offset: 90159},
+																								pos: position{line: 2855, col: 13, offset: 90318},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2848, col: 13, offset: 90159},
+																									pos: position{line: 2855, col: 13, offset: 90318},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2848, col: 13, offset: 90159},
+																										pos:        position{line: 2855, col: 13, offset: 90318},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6256,28 +6256,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6286,9 +6286,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -6353,10 +6353,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 772, col: 8, offset: 24815},
 																								expr: &actionExpr{
-																									pos: position{line: 2902, col: 10, offset: 91633},
+																									pos: position{line: 2909, col: 10, offset: 91792},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2902, col: 10, offset: 91633},
+																										pos:        position{line: 2909, col: 10, offset: 91792},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6365,28 +6365,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2924, col: 8, offset: 92031},
+																								pos: position{line: 2931, col: 8, offset: 92190},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2911, col: 12, offset: 91804},
+																										pos: position{line: 2918, col: 12, offset: 91963},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2911, col: 13, offset: 91805},
+																											pos: position{line: 2918, col: 13, offset: 91964},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 13, offset: 91805},
+																													pos:        position{line: 2918, col: 13, offset: 91964},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 20, offset: 91812},
+																													pos:        position{line: 2918, col: 20, offset: 91971},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 29, offset: 91821},
+																													pos:        position{line: 2918, col: 29, offset: 91980},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6395,9 +6395,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2921, col: 8, offset: 91981},
+																										pos: position{line: 2928, col: 8, offset: 92140},
 																										expr: &anyMatcher{
-																											line: 2921, col: 9, offset: 91982,
+																											line: 2928, col: 9, offset: 92141,
 																										},
 																									},
 																								},
@@ -6413,9 +6413,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2921, col: 8, offset: 91981},
+																		pos: position{line: 2928, col: 8, offset: 92140},
 																		expr: &anyMatcher{
-																			line: 2921, col: 9, offset: 91982,
+																			line: 2928, col: 9, offset: 92141,
 																		},
 																	},
 																},
@@ -6471,10 +6471,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 786, col: 8, offset: 25291},
 																		expr: &actionExpr{
-																			pos: position{line: 2902, col: 10, offset: 91633},
+																			pos: position{line: 2909, col: 10, offset: 91792},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2902, col: 10, offset: 91633},
+																				pos:        position{line: 2909, col: 10, offset: 91792},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6483,28 +6483,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2924, col: 8, offset: 92031},
+																		pos: position{line: 2931, col: 8, offset: 92190},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
+																				pos: position{line: 2918, col: 12, offset: 91963},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6513,9 +6513,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2921, col: 8, offset: 91981},
+																				pos: position{line: 2928, col: 8, offset: 92140},
 																				expr: &anyMatcher{
-																					line: 2921, col: 9, offset: 91982,
+																					line: 2928, col: 9, offset: 92141,
 																				},
 																			},
 																		},
@@ -6587,10 +6587,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 786, col: 8, offset: 25291},
 																												expr: &actionExpr{
-																													pos: position{line: 2902, col: 10, offset: 91633},
+																													pos: position{line: 2909, col: 10, offset: 91792},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2902, col: 10, offset: 91633},
+																														pos:        position{line: 2909, col: 10, offset: 91792},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6599,28 +6599,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2924, col: 8, offset: 92031},
+																												pos: position{line: 2931, col: 8, offset: 92190},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2911, col: 12, offset: 91804},
+																														pos: position{line: 2918, col: 12, offset: 91963},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2911, col: 13, offset: 91805},
+																															pos: position{line: 2918, col: 13, offset: 91964},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2911, col: 13, offset: 91805},
+																																	pos:        position{line: 2918, col: 13, offset: 91964},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2911, col: 20, offset: 91812},
+																																	pos:        position{line: 2918, col: 20, offset: 91971},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2911, col: 29, offset: 91821},
+																																	pos:        position{line: 2918, col: 29, offset: 91980},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6629,9 +6629,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2921, col: 8, offset: 91981},
+																														pos: position{line: 2928, col: 8, offset: 92140},
 																														expr: &anyMatcher{
-																															line: 2921, col: 9, offset: 91982,
+																															line: 2928, col: 9, offset: 92141,
 																														},
 																													},
 																												},
@@ -6647,9 +6647,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2921, col: 8, offset: 91981},
+																						pos: position{line: 2928, col: 8, offset: 92140},
 																						expr: &anyMatcher{
-																							line: 2921, col: 9, offset: 91982,
+																							line: 2928, col: 9, offset: 92141,
 																						},
 																					},
 																				},
@@ -6665,21 +6665,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2919, col: 11, offset: 91967},
+																							pos: position{line: 2926, col: 11, offset: 92126},
 																							expr: &anyMatcher{
-																								line: 2919, col: 13, offset: 91969,
+																								line: 2926, col: 13, offset: 92128,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2848, col: 13, offset: 90159},
+																								pos: position{line: 2855, col: 13, offset: 90318},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2848, col: 13, offset: 90159},
+																									pos: position{line: 2855, col: 13, offset: 90318},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2848, col: 13, offset: 90159},
+																										pos:        position{line: 2855, col: 13, offset: 90318},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6689,28 +6689,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6719,9 +6719,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -6786,10 +6786,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 786, col: 8, offset: 25291},
 																								expr: &actionExpr{
-																									pos: position{line: 2902, col: 10, offset: 91633},
+																									pos: position{line: 2909, col: 10, offset: 91792},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2902, col: 10, offset: 91633},
+																										pos:        position{line: 2909, col: 10, offset: 91792},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6798,28 +6798,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2924, col: 8, offset: 92031},
+																								pos: position{line: 2931, col: 8, offset: 92190},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2911, col: 12, offset: 91804},
+																										pos: position{line: 2918, col: 12, offset: 91963},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2911, col: 13, offset: 91805},
+																											pos: position{line: 2918, col: 13, offset: 91964},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 13, offset: 91805},
+																													pos:        position{line: 2918, col: 13, offset: 91964},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 20, offset: 91812},
+																													pos:        position{line: 2918, col: 20, offset: 91971},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 29, offset: 91821},
+																													pos:        position{line: 2918, col: 29, offset: 91980},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6828,9 +6828,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2921, col: 8, offset: 91981},
+																										pos: position{line: 2928, col: 8, offset: 92140},
 																										expr: &anyMatcher{
-																											line: 2921, col: 9, offset: 91982,
+																											line: 2928, col: 9, offset: 92141,
 																										},
 																									},
 																								},
@@ -6846,9 +6846,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2921, col: 8, offset: 91981},
+																		pos: position{line: 2928, col: 8, offset: 92140},
 																		expr: &anyMatcher{
-																			line: 2921, col: 9, offset: 91982,
+																			line: 2928, col: 9, offset: 92141,
 																		},
 																	},
 																},
@@ -6882,18 +6882,18 @@ var g = &grammar{
 																				pos: position{line: 678, col: 14, offset: 21586},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2919, col: 11, offset: 91967},
+																						pos: position{line: 2926, col: 11, offset: 92126},
 																						expr: &anyMatcher{
-																							line: 2919, col: 13, offset: 91969,
+																							line: 2926, col: 13, offset: 92128,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 678, col: 21, offset: 21593},
 																						expr: &actionExpr{
-																							pos: position{line: 2902, col: 10, offset: 91633},
+																							pos: position{line: 2909, col: 10, offset: 91792},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2902, col: 10, offset: 91633},
+																								pos:        position{line: 2909, col: 10, offset: 91792},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6902,28 +6902,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2924, col: 8, offset: 92031},
+																						pos: position{line: 2931, col: 8, offset: 92190},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2911, col: 12, offset: 91804},
+																								pos: position{line: 2918, col: 12, offset: 91963},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2911, col: 13, offset: 91805},
+																									pos: position{line: 2918, col: 13, offset: 91964},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 13, offset: 91805},
+																											pos:        position{line: 2918, col: 13, offset: 91964},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 20, offset: 91812},
+																											pos:        position{line: 2918, col: 20, offset: 91971},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 29, offset: 91821},
+																											pos:        position{line: 2918, col: 29, offset: 91980},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6932,9 +6932,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2921, col: 8, offset: 91981},
+																								pos: position{line: 2928, col: 8, offset: 92140},
 																								expr: &anyMatcher{
-																									line: 2921, col: 9, offset: 91982,
+																									line: 2928, col: 9, offset: 92141,
 																								},
 																							},
 																						},
@@ -6953,12 +6953,12 @@ var g = &grammar{
 																		pos:   position{line: 985, col: 5, offset: 30781},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 14, offset: 90226},
+																			pos: position{line: 2859, col: 14, offset: 90385},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2852, col: 14, offset: 90226},
+																				pos: position{line: 2859, col: 14, offset: 90385},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 14, offset: 90226},
+																					pos:        position{line: 2859, col: 14, offset: 90385},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -6968,28 +6968,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2924, col: 8, offset: 92031},
+																		pos: position{line: 2931, col: 8, offset: 92190},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
+																				pos: position{line: 2918, col: 12, offset: 91963},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6998,9 +6998,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2921, col: 8, offset: 91981},
+																				pos: position{line: 2928, col: 8, offset: 92140},
 																				expr: &anyMatcher{
-																					line: 2921, col: 9, offset: 91982,
+																					line: 2928, col: 9, offset: 92141,
 																				},
 																			},
 																		},
@@ -7032,18 +7032,18 @@ var g = &grammar{
 																							pos: position{line: 678, col: 14, offset: 21586},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2919, col: 11, offset: 91967},
+																									pos: position{line: 2926, col: 11, offset: 92126},
 																									expr: &anyMatcher{
-																										line: 2919, col: 13, offset: 91969,
+																										line: 2926, col: 13, offset: 92128,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 678, col: 21, offset: 21593},
 																									expr: &actionExpr{
-																										pos: position{line: 2902, col: 10, offset: 91633},
+																										pos: position{line: 2909, col: 10, offset: 91792},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2902, col: 10, offset: 91633},
+																											pos:        position{line: 2909, col: 10, offset: 91792},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7052,28 +7052,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2924, col: 8, offset: 92031},
+																									pos: position{line: 2931, col: 8, offset: 92190},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2911, col: 12, offset: 91804},
+																											pos: position{line: 2918, col: 12, offset: 91963},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2911, col: 13, offset: 91805},
+																												pos: position{line: 2918, col: 13, offset: 91964},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 13, offset: 91805},
+																														pos:        position{line: 2918, col: 13, offset: 91964},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 20, offset: 91812},
+																														pos:        position{line: 2918, col: 20, offset: 91971},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 29, offset: 91821},
+																														pos:        position{line: 2918, col: 29, offset: 91980},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7082,9 +7082,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2921, col: 8, offset: 91981},
+																											pos: position{line: 2928, col: 8, offset: 92140},
 																											expr: &anyMatcher{
-																												line: 2921, col: 9, offset: 91982,
+																												line: 2928, col: 9, offset: 92141,
 																											},
 																										},
 																									},
@@ -7103,12 +7103,12 @@ var g = &grammar{
 																					pos:   position{line: 985, col: 5, offset: 30781},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 14, offset: 90226},
+																						pos: position{line: 2859, col: 14, offset: 90385},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2852, col: 14, offset: 90226},
+																							pos: position{line: 2859, col: 14, offset: 90385},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 14, offset: 90226},
+																								pos:        position{line: 2859, col: 14, offset: 90385},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7118,28 +7118,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2924, col: 8, offset: 92031},
+																					pos: position{line: 2931, col: 8, offset: 92190},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2911, col: 12, offset: 91804},
+																							pos: position{line: 2918, col: 12, offset: 91963},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2911, col: 13, offset: 91805},
+																								pos: position{line: 2918, col: 13, offset: 91964},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 13, offset: 91805},
+																										pos:        position{line: 2918, col: 13, offset: 91964},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 20, offset: 91812},
+																										pos:        position{line: 2918, col: 20, offset: 91971},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 29, offset: 91821},
+																										pos:        position{line: 2918, col: 29, offset: 91980},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7148,9 +7148,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2921, col: 8, offset: 91981},
+																							pos: position{line: 2928, col: 8, offset: 92140},
 																							expr: &anyMatcher{
-																								line: 2921, col: 9, offset: 91982,
+																								line: 2928, col: 9, offset: 92141,
 																							},
 																						},
 																					},
@@ -7168,12 +7168,12 @@ var g = &grammar{
 																					pos:   position{line: 1791, col: 5, offset: 57852},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 14, offset: 90226},
+																						pos: position{line: 2859, col: 14, offset: 90385},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2852, col: 14, offset: 90226},
+																							pos: position{line: 2859, col: 14, offset: 90385},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 14, offset: 90226},
+																								pos:        position{line: 2859, col: 14, offset: 90385},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7187,28 +7187,28 @@ var g = &grammar{
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2924, col: 8, offset: 92031},
+																					pos: position{line: 2931, col: 8, offset: 92190},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2911, col: 12, offset: 91804},
+																							pos: position{line: 2918, col: 12, offset: 91963},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2911, col: 13, offset: 91805},
+																								pos: position{line: 2918, col: 13, offset: 91964},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 13, offset: 91805},
+																										pos:        position{line: 2918, col: 13, offset: 91964},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 20, offset: 91812},
+																										pos:        position{line: 2918, col: 20, offset: 91971},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 29, offset: 91821},
+																										pos:        position{line: 2918, col: 29, offset: 91980},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7217,9 +7217,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2921, col: 8, offset: 91981},
+																							pos: position{line: 2928, col: 8, offset: 92140},
 																							expr: &anyMatcher{
-																								line: 2921, col: 9, offset: 91982,
+																								line: 2928, col: 9, offset: 92141,
 																							},
 																						},
 																					},
@@ -7266,10 +7266,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 779, col: 8, offset: 25046},
 																		expr: &actionExpr{
-																			pos: position{line: 2902, col: 10, offset: 91633},
+																			pos: position{line: 2909, col: 10, offset: 91792},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2902, col: 10, offset: 91633},
+																				pos:        position{line: 2909, col: 10, offset: 91792},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7278,28 +7278,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2924, col: 8, offset: 92031},
+																		pos: position{line: 2931, col: 8, offset: 92190},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
+																				pos: position{line: 2918, col: 12, offset: 91963},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7308,9 +7308,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2921, col: 8, offset: 91981},
+																				pos: position{line: 2928, col: 8, offset: 92140},
 																				expr: &anyMatcher{
-																					line: 2921, col: 9, offset: 91982,
+																					line: 2928, col: 9, offset: 92141,
 																				},
 																			},
 																		},
@@ -7358,10 +7358,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 779, col: 8, offset: 25046},
 																									expr: &actionExpr{
-																										pos: position{line: 2902, col: 10, offset: 91633},
+																										pos: position{line: 2909, col: 10, offset: 91792},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2902, col: 10, offset: 91633},
+																											pos:        position{line: 2909, col: 10, offset: 91792},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7370,28 +7370,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2924, col: 8, offset: 92031},
+																									pos: position{line: 2931, col: 8, offset: 92190},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2911, col: 12, offset: 91804},
+																											pos: position{line: 2918, col: 12, offset: 91963},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2911, col: 13, offset: 91805},
+																												pos: position{line: 2918, col: 13, offset: 91964},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 13, offset: 91805},
+																														pos:        position{line: 2918, col: 13, offset: 91964},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 20, offset: 91812},
+																														pos:        position{line: 2918, col: 20, offset: 91971},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 29, offset: 91821},
+																														pos:        position{line: 2918, col: 29, offset: 91980},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7400,9 +7400,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2921, col: 8, offset: 91981},
+																											pos: position{line: 2928, col: 8, offset: 92140},
 																											expr: &anyMatcher{
-																												line: 2921, col: 9, offset: 91982,
+																												line: 2928, col: 9, offset: 92141,
 																											},
 																										},
 																									},
@@ -7411,9 +7411,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2921, col: 8, offset: 91981},
+																						pos: position{line: 2928, col: 8, offset: 92140},
 																						expr: &anyMatcher{
-																							line: 2921, col: 9, offset: 91982,
+																							line: 2928, col: 9, offset: 92141,
 																						},
 																					},
 																				},
@@ -7429,21 +7429,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2919, col: 11, offset: 91967},
+																							pos: position{line: 2926, col: 11, offset: 92126},
 																							expr: &anyMatcher{
-																								line: 2919, col: 13, offset: 91969,
+																								line: 2926, col: 13, offset: 92128,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2848, col: 13, offset: 90159},
+																								pos: position{line: 2855, col: 13, offset: 90318},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2848, col: 13, offset: 90159},
+																									pos: position{line: 2855, col: 13, offset: 90318},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2848, col: 13, offset: 90159},
+																										pos:        position{line: 2855, col: 13, offset: 90318},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7453,28 +7453,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7483,9 +7483,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -7530,10 +7530,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 779, col: 8, offset: 25046},
 																					expr: &actionExpr{
-																						pos: position{line: 2902, col: 10, offset: 91633},
+																						pos: position{line: 2909, col: 10, offset: 91792},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2902, col: 10, offset: 91633},
+																							pos:        position{line: 2909, col: 10, offset: 91792},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7542,28 +7542,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2924, col: 8, offset: 92031},
+																					pos: position{line: 2931, col: 8, offset: 92190},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2911, col: 12, offset: 91804},
+																							pos: position{line: 2918, col: 12, offset: 91963},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2911, col: 13, offset: 91805},
+																								pos: position{line: 2918, col: 13, offset: 91964},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 13, offset: 91805},
+																										pos:        position{line: 2918, col: 13, offset: 91964},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 20, offset: 91812},
+																										pos:        position{line: 2918, col: 20, offset: 91971},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 29, offset: 91821},
+																										pos:        position{line: 2918, col: 29, offset: 91980},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7572,9 +7572,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2921, col: 8, offset: 91981},
+																							pos: position{line: 2928, col: 8, offset: 92140},
 																							expr: &anyMatcher{
-																								line: 2921, col: 9, offset: 91982,
+																								line: 2928, col: 9, offset: 92141,
 																							},
 																						},
 																					},
@@ -7583,9 +7583,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2921, col: 8, offset: 91981},
+																		pos: position{line: 2928, col: 8, offset: 92140},
 																		expr: &anyMatcher{
-																			line: 2921, col: 9, offset: 91982,
+																			line: 2928, col: 9, offset: 92141,
 																		},
 																	},
 																},
@@ -7641,10 +7641,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 793, col: 8, offset: 25543},
 																		expr: &actionExpr{
-																			pos: position{line: 2902, col: 10, offset: 91633},
+																			pos: position{line: 2909, col: 10, offset: 91792},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2902, col: 10, offset: 91633},
+																				pos:        position{line: 2909, col: 10, offset: 91792},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7653,28 +7653,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2924, col: 8, offset: 92031},
+																		pos: position{line: 2931, col: 8, offset: 92190},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
+																				pos: position{line: 2918, col: 12, offset: 91963},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7683,9 +7683,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2921, col: 8, offset: 91981},
+																				pos: position{line: 2928, col: 8, offset: 92140},
 																				expr: &anyMatcher{
-																					line: 2921, col: 9, offset: 91982,
+																					line: 2928, col: 9, offset: 92141,
 																				},
 																			},
 																		},
@@ -7757,10 +7757,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 793, col: 8, offset: 25543},
 																												expr: &actionExpr{
-																													pos: position{line: 2902, col: 10, offset: 91633},
+																													pos: position{line: 2909, col: 10, offset: 91792},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2902, col: 10, offset: 91633},
+																														pos:        position{line: 2909, col: 10, offset: 91792},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7769,28 +7769,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2924, col: 8, offset: 92031},
+																												pos: position{line: 2931, col: 8, offset: 92190},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2911, col: 12, offset: 91804},
+																														pos: position{line: 2918, col: 12, offset: 91963},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2911, col: 13, offset: 91805},
+																															pos: position{line: 2918, col: 13, offset: 91964},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2911, col: 13, offset: 91805},
+																																	pos:        position{line: 2918, col: 13, offset: 91964},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2911, col: 20, offset: 91812},
+																																	pos:        position{line: 2918, col: 20, offset: 91971},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2911, col: 29, offset: 91821},
+																																	pos:        position{line: 2918, col: 29, offset: 91980},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7799,9 +7799,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2921, col: 8, offset: 91981},
+																														pos: position{line: 2928, col: 8, offset: 92140},
 																														expr: &anyMatcher{
-																															line: 2921, col: 9, offset: 91982,
+																															line: 2928, col: 9, offset: 92141,
 																														},
 																													},
 																												},
@@ -7817,9 +7817,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2921, col: 8, offset: 91981},
+																						pos: position{line: 2928, col: 8, offset: 92140},
 																						expr: &anyMatcher{
-																							line: 2921, col: 9, offset: 91982,
+																							line: 2928, col: 9, offset: 92141,
 																						},
 																					},
 																				},
@@ -7835,21 +7835,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2919, col: 11, offset: 91967},
+																							pos: position{line: 2926, col: 11, offset: 92126},
 																							expr: &anyMatcher{
-																								line: 2919, col: 13, offset: 91969,
+																								line: 2926, col: 13, offset: 92128,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2848, col: 13, offset: 90159},
+																								pos: position{line: 2855, col: 13, offset: 90318},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2848, col: 13, offset: 90159},
+																									pos: position{line: 2855, col: 13, offset: 90318},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2848, col: 13, offset: 90159},
+																										pos:        position{line: 2855, col: 13, offset: 90318},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7859,28 +7859,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7889,9 +7889,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -7956,10 +7956,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 793, col: 8, offset: 25543},
 																								expr: &actionExpr{
-																									pos: position{line: 2902, col: 10, offset: 91633},
+																									pos: position{line: 2909, col: 10, offset: 91792},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2902, col: 10, offset: 91633},
+																										pos:        position{line: 2909, col: 10, offset: 91792},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7968,28 +7968,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2924, col: 8, offset: 92031},
+																								pos: position{line: 2931, col: 8, offset: 92190},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2911, col: 12, offset: 91804},
+																										pos: position{line: 2918, col: 12, offset: 91963},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2911, col: 13, offset: 91805},
+																											pos: position{line: 2918, col: 13, offset: 91964},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 13, offset: 91805},
+																													pos:        position{line: 2918, col: 13, offset: 91964},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 20, offset: 91812},
+																													pos:        position{line: 2918, col: 20, offset: 91971},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 29, offset: 91821},
+																													pos:        position{line: 2918, col: 29, offset: 91980},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -7998,9 +7998,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2921, col: 8, offset: 91981},
+																										pos: position{line: 2928, col: 8, offset: 92140},
 																										expr: &anyMatcher{
-																											line: 2921, col: 9, offset: 91982,
+																											line: 2928, col: 9, offset: 92141,
 																										},
 																									},
 																								},
@@ -8016,9 +8016,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2921, col: 8, offset: 91981},
+																		pos: position{line: 2928, col: 8, offset: 92140},
 																		expr: &anyMatcher{
-																			line: 2921, col: 9, offset: 91982,
+																			line: 2928, col: 9, offset: 92141,
 																		},
 																	},
 																},
@@ -8074,10 +8074,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 800, col: 8, offset: 25793},
 																		expr: &actionExpr{
-																			pos: position{line: 2902, col: 10, offset: 91633},
+																			pos: position{line: 2909, col: 10, offset: 91792},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2902, col: 10, offset: 91633},
+																				pos:        position{line: 2909, col: 10, offset: 91792},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8086,28 +8086,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2924, col: 8, offset: 92031},
+																		pos: position{line: 2931, col: 8, offset: 92190},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
+																				pos: position{line: 2918, col: 12, offset: 91963},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8116,9 +8116,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2921, col: 8, offset: 91981},
+																				pos: position{line: 2928, col: 8, offset: 92140},
 																				expr: &anyMatcher{
-																					line: 2921, col: 9, offset: 91982,
+																					line: 2928, col: 9, offset: 92141,
 																				},
 																			},
 																		},
@@ -8190,10 +8190,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 800, col: 8, offset: 25793},
 																												expr: &actionExpr{
-																													pos: position{line: 2902, col: 10, offset: 91633},
+																													pos: position{line: 2909, col: 10, offset: 91792},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2902, col: 10, offset: 91633},
+																														pos:        position{line: 2909, col: 10, offset: 91792},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8202,28 +8202,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2924, col: 8, offset: 92031},
+																												pos: position{line: 2931, col: 8, offset: 92190},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2911, col: 12, offset: 91804},
+																														pos: position{line: 2918, col: 12, offset: 91963},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2911, col: 13, offset: 91805},
+																															pos: position{line: 2918, col: 13, offset: 91964},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2911, col: 13, offset: 91805},
+																																	pos:        position{line: 2918, col: 13, offset: 91964},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2911, col: 20, offset: 91812},
+																																	pos:        position{line: 2918, col: 20, offset: 91971},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2911, col: 29, offset: 91821},
+																																	pos:        position{line: 2918, col: 29, offset: 91980},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8232,9 +8232,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2921, col: 8, offset: 91981},
+																														pos: position{line: 2928, col: 8, offset: 92140},
 																														expr: &anyMatcher{
-																															line: 2921, col: 9, offset: 91982,
+																															line: 2928, col: 9, offset: 92141,
 																														},
 																													},
 																												},
@@ -8250,9 +8250,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2921, col: 8, offset: 91981},
+																						pos: position{line: 2928, col: 8, offset: 92140},
 																						expr: &anyMatcher{
-																							line: 2921, col: 9, offset: 91982,
+																							line: 2928, col: 9, offset: 92141,
 																						},
 																					},
 																				},
@@ -8268,21 +8268,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2919, col: 11, offset: 91967},
+																							pos: position{line: 2926, col: 11, offset: 92126},
 																							expr: &anyMatcher{
-																								line: 2919, col: 13, offset: 91969,
+																								line: 2926, col: 13, offset: 92128,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2848, col: 13, offset: 90159},
+																								pos: position{line: 2855, col: 13, offset: 90318},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2848, col: 13, offset: 90159},
+																									pos: position{line: 2855, col: 13, offset: 90318},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2848, col: 13, offset: 90159},
+																										pos:        position{line: 2855, col: 13, offset: 90318},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8292,28 +8292,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8322,9 +8322,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -8389,10 +8389,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 800, col: 8, offset: 25793},
 																								expr: &actionExpr{
-																									pos: position{line: 2902, col: 10, offset: 91633},
+																									pos: position{line: 2909, col: 10, offset: 91792},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2902, col: 10, offset: 91633},
+																										pos:        position{line: 2909, col: 10, offset: 91792},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8401,28 +8401,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2924, col: 8, offset: 92031},
+																								pos: position{line: 2931, col: 8, offset: 92190},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2911, col: 12, offset: 91804},
+																										pos: position{line: 2918, col: 12, offset: 91963},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2911, col: 13, offset: 91805},
+																											pos: position{line: 2918, col: 13, offset: 91964},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 13, offset: 91805},
+																													pos:        position{line: 2918, col: 13, offset: 91964},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 20, offset: 91812},
+																													pos:        position{line: 2918, col: 20, offset: 91971},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 29, offset: 91821},
+																													pos:        position{line: 2918, col: 29, offset: 91980},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8431,9 +8431,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2921, col: 8, offset: 91981},
+																										pos: position{line: 2928, col: 8, offset: 92140},
 																										expr: &anyMatcher{
-																											line: 2921, col: 9, offset: 91982,
+																											line: 2928, col: 9, offset: 92141,
 																										},
 																									},
 																								},
@@ -8449,9 +8449,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2921, col: 8, offset: 91981},
+																		pos: position{line: 2928, col: 8, offset: 92140},
 																		expr: &anyMatcher{
-																			line: 2921, col: 9, offset: 91982,
+																			line: 2928, col: 9, offset: 92141,
 																		},
 																	},
 																},
@@ -8507,10 +8507,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 807, col: 8, offset: 26039},
 																		expr: &actionExpr{
-																			pos: position{line: 2902, col: 10, offset: 91633},
+																			pos: position{line: 2909, col: 10, offset: 91792},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2902, col: 10, offset: 91633},
+																				pos:        position{line: 2909, col: 10, offset: 91792},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8519,28 +8519,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2924, col: 8, offset: 92031},
+																		pos: position{line: 2931, col: 8, offset: 92190},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
+																				pos: position{line: 2918, col: 12, offset: 91963},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8549,9 +8549,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2921, col: 8, offset: 91981},
+																				pos: position{line: 2928, col: 8, offset: 92140},
 																				expr: &anyMatcher{
-																					line: 2921, col: 9, offset: 91982,
+																					line: 2928, col: 9, offset: 92141,
 																				},
 																			},
 																		},
@@ -8623,10 +8623,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 807, col: 8, offset: 26039},
 																												expr: &actionExpr{
-																													pos: position{line: 2902, col: 10, offset: 91633},
+																													pos: position{line: 2909, col: 10, offset: 91792},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2902, col: 10, offset: 91633},
+																														pos:        position{line: 2909, col: 10, offset: 91792},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8635,28 +8635,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2924, col: 8, offset: 92031},
+																												pos: position{line: 2931, col: 8, offset: 92190},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2911, col: 12, offset: 91804},
+																														pos: position{line: 2918, col: 12, offset: 91963},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2911, col: 13, offset: 91805},
+																															pos: position{line: 2918, col: 13, offset: 91964},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2911, col: 13, offset: 91805},
+																																	pos:        position{line: 2918, col: 13, offset: 91964},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2911, col: 20, offset: 91812},
+																																	pos:        position{line: 2918, col: 20, offset: 91971},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2911, col: 29, offset: 91821},
+																																	pos:        position{line: 2918, col: 29, offset: 91980},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8665,9 +8665,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2921, col: 8, offset: 91981},
+																														pos: position{line: 2928, col: 8, offset: 92140},
 																														expr: &anyMatcher{
-																															line: 2921, col: 9, offset: 91982,
+																															line: 2928, col: 9, offset: 92141,
 																														},
 																													},
 																												},
@@ -8683,9 +8683,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2921, col: 8, offset: 91981},
+																						pos: position{line: 2928, col: 8, offset: 92140},
 																						expr: &anyMatcher{
-																							line: 2921, col: 9, offset: 91982,
+																							line: 2928, col: 9, offset: 92141,
 																						},
 																					},
 																				},
@@ -8701,21 +8701,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2919, col: 11, offset: 91967},
+																							pos: position{line: 2926, col: 11, offset: 92126},
 																							expr: &anyMatcher{
-																								line: 2919, col: 13, offset: 91969,
+																								line: 2926, col: 13, offset: 92128,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2848, col: 13, offset: 90159},
+																								pos: position{line: 2855, col: 13, offset: 90318},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2848, col: 13, offset: 90159},
+																									pos: position{line: 2855, col: 13, offset: 90318},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2848, col: 13, offset: 90159},
+																										pos:        position{line: 2855, col: 13, offset: 90318},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8725,28 +8725,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8755,9 +8755,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -8822,10 +8822,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 807, col: 8, offset: 26039},
 																								expr: &actionExpr{
-																									pos: position{line: 2902, col: 10, offset: 91633},
+																									pos: position{line: 2909, col: 10, offset: 91792},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2902, col: 10, offset: 91633},
+																										pos:        position{line: 2909, col: 10, offset: 91792},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8834,28 +8834,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2924, col: 8, offset: 92031},
+																								pos: position{line: 2931, col: 8, offset: 92190},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2911, col: 12, offset: 91804},
+																										pos: position{line: 2918, col: 12, offset: 91963},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2911, col: 13, offset: 91805},
+																											pos: position{line: 2918, col: 13, offset: 91964},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 13, offset: 91805},
+																													pos:        position{line: 2918, col: 13, offset: 91964},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 20, offset: 91812},
+																													pos:        position{line: 2918, col: 20, offset: 91971},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 29, offset: 91821},
+																													pos:        position{line: 2918, col: 29, offset: 91980},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8864,9 +8864,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2921, col: 8, offset: 91981},
+																										pos: position{line: 2928, col: 8, offset: 92140},
 																										expr: &anyMatcher{
-																											line: 2921, col: 9, offset: 91982,
+																											line: 2928, col: 9, offset: 92141,
 																										},
 																									},
 																								},
@@ -8882,9 +8882,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2921, col: 8, offset: 91981},
+																		pos: position{line: 2928, col: 8, offset: 92140},
 																		expr: &anyMatcher{
-																			line: 2921, col: 9, offset: 91982,
+																			line: 2928, col: 9, offset: 92141,
 																		},
 																	},
 																},
@@ -8895,52 +8895,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2747, col: 18, offset: 87223},
+											pos: position{line: 2754, col: 18, offset: 87382},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2747, col: 18, offset: 87223},
+												pos: position{line: 2754, col: 18, offset: 87382},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2748, col: 9, offset: 87233},
+														pos: position{line: 2755, col: 9, offset: 87392},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2748, col: 9, offset: 87233},
+																pos:        position{line: 2755, col: 9, offset: 87392},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2749, col: 11, offset: 87269},
+																pos:        position{line: 2756, col: 11, offset: 87428},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2749, col: 19, offset: 87277},
+																pos:        position{line: 2756, col: 19, offset: 87436},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2749, col: 29, offset: 87287},
+																pos:        position{line: 2756, col: 29, offset: 87446},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2749, col: 37, offset: 87295},
+																pos:        position{line: 2756, col: 37, offset: 87454},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2749, col: 47, offset: 87305},
+																pos:        position{line: 2756, col: 47, offset: 87464},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2749, col: 55, offset: 87313},
+																pos:        position{line: 2756, col: 55, offset: 87472},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -8948,12 +8948,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2750, col: 11, offset: 87371},
+														pos: position{line: 2757, col: 11, offset: 87530},
 														expr: &actionExpr{
-															pos: position{line: 2902, col: 10, offset: 91633},
+															pos: position{line: 2909, col: 10, offset: 91792},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2902, col: 10, offset: 91633},
+																pos:        position{line: 2909, col: 10, offset: 91792},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -8962,28 +8962,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2924, col: 8, offset: 92031},
+														pos: position{line: 2931, col: 8, offset: 92190},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2911, col: 12, offset: 91804},
+																pos: position{line: 2918, col: 12, offset: 91963},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2911, col: 13, offset: 91805},
+																	pos: position{line: 2918, col: 13, offset: 91964},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 13, offset: 91805},
+																			pos:        position{line: 2918, col: 13, offset: 91964},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 20, offset: 91812},
+																			pos:        position{line: 2918, col: 20, offset: 91971},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 29, offset: 91821},
+																			pos:        position{line: 2918, col: 29, offset: 91980},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -8992,36 +8992,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2921, col: 8, offset: 91981},
+																pos: position{line: 2928, col: 8, offset: 92140},
 																expr: &anyMatcher{
-																	line: 2921, col: 9, offset: 91982,
+																	line: 2928, col: 9, offset: 92141,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2924, col: 8, offset: 92031},
+														pos: position{line: 2931, col: 8, offset: 92190},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2911, col: 12, offset: 91804},
+																pos: position{line: 2918, col: 12, offset: 91963},
 																run: (*parser).callonDocumentFragment1098,
 																expr: &choiceExpr{
-																	pos: position{line: 2911, col: 13, offset: 91805},
+																	pos: position{line: 2918, col: 13, offset: 91964},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 13, offset: 91805},
+																			pos:        position{line: 2918, col: 13, offset: 91964},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 20, offset: 91812},
+																			pos:        position{line: 2918, col: 20, offset: 91971},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 29, offset: 91821},
+																			pos:        position{line: 2918, col: 29, offset: 91980},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9030,9 +9030,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2921, col: 8, offset: 91981},
+																pos: position{line: 2928, col: 8, offset: 92140},
 																expr: &anyMatcher{
-																	line: 2921, col: 9, offset: 91982,
+																	line: 2928, col: 9, offset: 92141,
 																},
 															},
 														},
@@ -9059,10 +9059,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 2644, col: 26, offset: 84323},
 														expr: &actionExpr{
-															pos: position{line: 2902, col: 10, offset: 91633},
+															pos: position{line: 2909, col: 10, offset: 91792},
 															run: (*parser).callonDocumentFragment1110,
 															expr: &charClassMatcher{
-																pos:        position{line: 2902, col: 10, offset: 91633},
+																pos:        position{line: 2909, col: 10, offset: 91792},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9071,28 +9071,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2924, col: 8, offset: 92031},
+														pos: position{line: 2931, col: 8, offset: 92190},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2911, col: 12, offset: 91804},
+																pos: position{line: 2918, col: 12, offset: 91963},
 																run: (*parser).callonDocumentFragment1113,
 																expr: &choiceExpr{
-																	pos: position{line: 2911, col: 13, offset: 91805},
+																	pos: position{line: 2918, col: 13, offset: 91964},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 13, offset: 91805},
+																			pos:        position{line: 2918, col: 13, offset: 91964},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 20, offset: 91812},
+																			pos:        position{line: 2918, col: 20, offset: 91971},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 29, offset: 91821},
+																			pos:        position{line: 2918, col: 29, offset: 91980},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9101,9 +9101,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2921, col: 8, offset: 91981},
+																pos: position{line: 2928, col: 8, offset: 92140},
 																expr: &anyMatcher{
-																	line: 2921, col: 9, offset: 91982,
+																	line: 2928, col: 9, offset: 92141,
 																},
 															},
 														},
@@ -9123,18 +9123,18 @@ var g = &grammar{
 																			pos: position{line: 678, col: 14, offset: 21586},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2919, col: 11, offset: 91967},
+																					pos: position{line: 2926, col: 11, offset: 92126},
 																					expr: &anyMatcher{
-																						line: 2919, col: 13, offset: 91969,
+																						line: 2926, col: 13, offset: 92128,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 678, col: 21, offset: 21593},
 																					expr: &actionExpr{
-																						pos: position{line: 2902, col: 10, offset: 91633},
+																						pos: position{line: 2909, col: 10, offset: 91792},
 																						run: (*parser).callonDocumentFragment1128,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2902, col: 10, offset: 91633},
+																							pos:        position{line: 2909, col: 10, offset: 91792},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9143,28 +9143,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2924, col: 8, offset: 92031},
+																					pos: position{line: 2931, col: 8, offset: 92190},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2911, col: 12, offset: 91804},
+																							pos: position{line: 2918, col: 12, offset: 91963},
 																							run: (*parser).callonDocumentFragment1131,
 																							expr: &choiceExpr{
-																								pos: position{line: 2911, col: 13, offset: 91805},
+																								pos: position{line: 2918, col: 13, offset: 91964},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 13, offset: 91805},
+																										pos:        position{line: 2918, col: 13, offset: 91964},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 20, offset: 91812},
+																										pos:        position{line: 2918, col: 20, offset: 91971},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 29, offset: 91821},
+																										pos:        position{line: 2918, col: 29, offset: 91980},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9173,9 +9173,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2921, col: 8, offset: 91981},
+																							pos: position{line: 2928, col: 8, offset: 92140},
 																							expr: &anyMatcher{
-																								line: 2921, col: 9, offset: 91982,
+																								line: 2928, col: 9, offset: 92141,
 																							},
 																						},
 																					},
@@ -9208,12 +9208,12 @@ var g = &grammar{
 																					pos:   position{line: 2512, col: 49, offset: 80597},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2848, col: 13, offset: 90159},
+																						pos: position{line: 2855, col: 13, offset: 90318},
 																						run: (*parser).callonDocumentFragment1144,
 																						expr: &zeroOrMoreExpr{
-																							pos: position{line: 2848, col: 13, offset: 90159},
+																							pos: position{line: 2855, col: 13, offset: 90318},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2848, col: 13, offset: 90159},
+																								pos:        position{line: 2855, col: 13, offset: 90318},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -9223,28 +9223,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2924, col: 8, offset: 92031},
+																					pos: position{line: 2931, col: 8, offset: 92190},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2911, col: 12, offset: 91804},
+																							pos: position{line: 2918, col: 12, offset: 91963},
 																							run: (*parser).callonDocumentFragment1148,
 																							expr: &choiceExpr{
-																								pos: position{line: 2911, col: 13, offset: 91805},
+																								pos: position{line: 2918, col: 13, offset: 91964},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 13, offset: 91805},
+																										pos:        position{line: 2918, col: 13, offset: 91964},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 20, offset: 91812},
+																										pos:        position{line: 2918, col: 20, offset: 91971},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 29, offset: 91821},
+																										pos:        position{line: 2918, col: 29, offset: 91980},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9253,9 +9253,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2921, col: 8, offset: 91981},
+																							pos: position{line: 2928, col: 8, offset: 92140},
 																							expr: &anyMatcher{
-																								line: 2921, col: 9, offset: 91982,
+																								line: 2928, col: 9, offset: 92141,
 																							},
 																						},
 																					},
@@ -9286,10 +9286,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 2644, col: 26, offset: 84323},
 																										expr: &actionExpr{
-																											pos: position{line: 2902, col: 10, offset: 91633},
+																											pos: position{line: 2909, col: 10, offset: 91792},
 																											run: (*parser).callonDocumentFragment1162,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2902, col: 10, offset: 91633},
+																												pos:        position{line: 2909, col: 10, offset: 91792},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9298,28 +9298,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2924, col: 8, offset: 92031},
+																										pos: position{line: 2931, col: 8, offset: 92190},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2911, col: 12, offset: 91804},
+																												pos: position{line: 2918, col: 12, offset: 91963},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &choiceExpr{
-																													pos: position{line: 2911, col: 13, offset: 91805},
+																													pos: position{line: 2918, col: 13, offset: 91964},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2911, col: 13, offset: 91805},
+																															pos:        position{line: 2918, col: 13, offset: 91964},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2911, col: 20, offset: 91812},
+																															pos:        position{line: 2918, col: 20, offset: 91971},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2911, col: 29, offset: 91821},
+																															pos:        position{line: 2918, col: 29, offset: 91980},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9328,9 +9328,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2921, col: 8, offset: 91981},
+																												pos: position{line: 2928, col: 8, offset: 92140},
 																												expr: &anyMatcher{
-																													line: 2921, col: 9, offset: 91982,
+																													line: 2928, col: 9, offset: 92141,
 																												},
 																											},
 																										},
@@ -9338,9 +9338,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2921, col: 8, offset: 91981},
+																								pos: position{line: 2928, col: 8, offset: 92140},
 																								expr: &anyMatcher{
-																									line: 2921, col: 9, offset: 91982,
+																									line: 2928, col: 9, offset: 92141,
 																								},
 																							},
 																						},
@@ -9387,10 +9387,10 @@ var g = &grammar{
 																																			&zeroOrMoreExpr{
 																																				pos: position{line: 2666, col: 9, offset: 84765},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2902, col: 10, offset: 91633},
+																																					pos: position{line: 2909, col: 10, offset: 91792},
 																																					run: (*parser).callonDocumentFragment1187,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2902, col: 10, offset: 91633},
+																																						pos:        position{line: 2909, col: 10, offset: 91792},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9430,28 +9430,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2924, col: 8, offset: 92031},
+																															pos: position{line: 2931, col: 8, offset: 92190},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2911, col: 12, offset: 91804},
+																																	pos: position{line: 2918, col: 12, offset: 91963},
 																																	run: (*parser).callonDocumentFragment1196,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2911, col: 13, offset: 91805},
+																																		pos: position{line: 2918, col: 13, offset: 91964},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2911, col: 13, offset: 91805},
+																																				pos:        position{line: 2918, col: 13, offset: 91964},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2911, col: 20, offset: 91812},
+																																				pos:        position{line: 2918, col: 20, offset: 91971},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2911, col: 29, offset: 91821},
+																																				pos:        position{line: 2918, col: 29, offset: 91980},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9460,9 +9460,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2921, col: 8, offset: 91981},
+																																	pos: position{line: 2928, col: 8, offset: 92140},
 																																	expr: &anyMatcher{
-																																		line: 2921, col: 9, offset: 91982,
+																																		line: 2928, col: 9, offset: 92141,
 																																	},
 																																},
 																															},
@@ -9501,10 +9501,10 @@ var g = &grammar{
 																																						&zeroOrMoreExpr{
 																																							pos: position{line: 2644, col: 26, offset: 84323},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2902, col: 10, offset: 91633},
+																																								pos: position{line: 2909, col: 10, offset: 91792},
 																																								run: (*parser).callonDocumentFragment1213,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2902, col: 10, offset: 91633},
+																																									pos:        position{line: 2909, col: 10, offset: 91792},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9513,28 +9513,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2924, col: 8, offset: 92031},
+																																							pos: position{line: 2931, col: 8, offset: 92190},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2911, col: 12, offset: 91804},
+																																									pos: position{line: 2918, col: 12, offset: 91963},
 																																									run: (*parser).callonDocumentFragment1216,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2911, col: 13, offset: 91805},
+																																										pos: position{line: 2918, col: 13, offset: 91964},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2911, col: 13, offset: 91805},
+																																												pos:        position{line: 2918, col: 13, offset: 91964},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2911, col: 20, offset: 91812},
+																																												pos:        position{line: 2918, col: 20, offset: 91971},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2911, col: 29, offset: 91821},
+																																												pos:        position{line: 2918, col: 29, offset: 91980},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9543,9 +9543,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2921, col: 8, offset: 91981},
+																																									pos: position{line: 2928, col: 8, offset: 92140},
 																																									expr: &anyMatcher{
-																																										line: 2921, col: 9, offset: 91982,
+																																										line: 2928, col: 9, offset: 92141,
 																																									},
 																																								},
 																																							},
@@ -9553,9 +9553,9 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2921, col: 8, offset: 91981},
+																																					pos: position{line: 2928, col: 8, offset: 92140},
 																																					expr: &anyMatcher{
-																																						line: 2921, col: 9, offset: 91982,
+																																						line: 2928, col: 9, offset: 92141,
 																																					},
 																																				},
 																																			},
@@ -9570,18 +9570,18 @@ var g = &grammar{
 																																				pos: position{line: 678, col: 14, offset: 21586},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2919, col: 11, offset: 91967},
+																																						pos: position{line: 2926, col: 11, offset: 92126},
 																																						expr: &anyMatcher{
-																																							line: 2919, col: 13, offset: 91969,
+																																							line: 2926, col: 13, offset: 92128,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 678, col: 21, offset: 21593},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2902, col: 10, offset: 91633},
+																																							pos: position{line: 2909, col: 10, offset: 91792},
 																																							run: (*parser).callonDocumentFragment1231,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2902, col: 10, offset: 91633},
+																																								pos:        position{line: 2909, col: 10, offset: 91792},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9590,28 +9590,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2924, col: 8, offset: 92031},
+																																						pos: position{line: 2931, col: 8, offset: 92190},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2911, col: 12, offset: 91804},
+																																								pos: position{line: 2918, col: 12, offset: 91963},
 																																								run: (*parser).callonDocumentFragment1234,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2911, col: 13, offset: 91805},
+																																									pos: position{line: 2918, col: 13, offset: 91964},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2911, col: 13, offset: 91805},
+																																											pos:        position{line: 2918, col: 13, offset: 91964},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2911, col: 20, offset: 91812},
+																																											pos:        position{line: 2918, col: 20, offset: 91971},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2911, col: 29, offset: 91821},
+																																											pos:        position{line: 2918, col: 29, offset: 91980},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9620,9 +9620,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2921, col: 8, offset: 91981},
+																																								pos: position{line: 2928, col: 8, offset: 92140},
 																																								expr: &anyMatcher{
-																																									line: 2921, col: 9, offset: 91982,
+																																									line: 2928, col: 9, offset: 92141,
 																																								},
 																																							},
 																																						},
@@ -9637,12 +9637,12 @@ var g = &grammar{
 																																		expr: &zeroOrOneExpr{
 																																			pos: position{line: 2685, col: 12, offset: 85244},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2702, col: 20, offset: 85708},
+																																				pos: position{line: 2709, col: 20, offset: 85867},
 																																				run: (*parser).callonDocumentFragment1243,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2702, col: 20, offset: 85708},
+																																					pos: position{line: 2709, col: 20, offset: 85867},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2702, col: 20, offset: 85708},
+																																						pos:        position{line: 2709, col: 20, offset: 85867},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9661,10 +9661,10 @@ var g = &grammar{
 																																	&zeroOrMoreExpr{
 																																		pos: position{line: 2685, col: 35, offset: 85267},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2902, col: 10, offset: 91633},
+																																			pos: position{line: 2909, col: 10, offset: 91792},
 																																			run: (*parser).callonDocumentFragment1248,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2902, col: 10, offset: 91633},
+																																				pos:        position{line: 2909, col: 10, offset: 91792},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9675,25 +9675,25 @@ var g = &grammar{
 																																	&zeroOrOneExpr{
 																																		pos: position{line: 2685, col: 42, offset: 85274},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2911, col: 12, offset: 91804},
+																																			pos: position{line: 2918, col: 12, offset: 91963},
 																																			run: (*parser).callonDocumentFragment1251,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2911, col: 13, offset: 91805},
+																																				pos: position{line: 2918, col: 13, offset: 91964},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2911, col: 13, offset: 91805},
+																																						pos:        position{line: 2918, col: 13, offset: 91964},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2911, col: 20, offset: 91812},
+																																						pos:        position{line: 2918, col: 20, offset: 91971},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2911, col: 29, offset: 91821},
+																																						pos:        position{line: 2918, col: 29, offset: 91980},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9707,250 +9707,352 @@ var g = &grammar{
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
 																																			pos: position{line: 2691, col: 5, offset: 85442},
-																																			expr: &actionExpr{
+																																			expr: &choiceExpr{
 																																				pos: position{line: 2692, col: 9, offset: 85452},
-																																				run: (*parser).callonDocumentFragment1258,
-																																				expr: &seqExpr{
-																																					pos: position{line: 2692, col: 9, offset: 85452},
-																																					exprs: []interface{}{
-																																						&notExpr{
+																																				alternatives: []interface{}{
+																																					&actionExpr{
+																																						pos: position{line: 2692, col: 9, offset: 85452},
+																																						run: (*parser).callonDocumentFragment1259,
+																																						expr: &seqExpr{
 																																							pos: position{line: 2692, col: 9, offset: 85452},
-																																							expr: &choiceExpr{
-																																								pos: position{line: 2648, col: 22, offset: 84396},
-																																								alternatives: []interface{}{
-																																									&seqExpr{
-																																										pos: position{line: 2644, col: 19, offset: 84316},
-																																										exprs: []interface{}{
-																																											&litMatcher{
-																																												pos:        position{line: 2644, col: 19, offset: 84316},
-																																												val:        "|===",
-																																												ignoreCase: false,
-																																												want:       "\"|===\"",
-																																											},
-																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2644, col: 26, offset: 84323},
-																																												expr: &actionExpr{
-																																													pos: position{line: 2902, col: 10, offset: 91633},
-																																													run: (*parser).callonDocumentFragment1265,
-																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2902, col: 10, offset: 91633},
-																																														val:        "[\\t ]",
-																																														chars:      []rune{'\t', ' '},
+																																							exprs: []interface{}{
+																																								&andCodeExpr{
+																																									pos: position{line: 2692, col: 9, offset: 85452},
+																																									run: (*parser).callonDocumentFragment1261,
+																																								},
+																																								&labeledExpr{
+																																									pos:   position{line: 2695, col: 9, offset: 85521},
+																																									label: "comment",
+																																									expr: &actionExpr{
+																																										pos: position{line: 2512, col: 22, offset: 80570},
+																																										run: (*parser).callonDocumentFragment1263,
+																																										expr: &seqExpr{
+																																											pos: position{line: 2512, col: 22, offset: 80570},
+																																											exprs: []interface{}{
+																																												&litMatcher{
+																																													pos:        position{line: 2517, col: 31, offset: 80820},
+																																													val:        "//",
+																																													ignoreCase: false,
+																																													want:       "\"//\"",
+																																												},
+																																												&notExpr{
+																																													pos: position{line: 2517, col: 36, offset: 80825},
+																																													expr: &litMatcher{
+																																														pos:        position{line: 2517, col: 37, offset: 80826},
+																																														val:        "/",
 																																														ignoreCase: false,
-																																														inverted:   false,
+																																														want:       "\"/\"",
 																																													},
 																																												},
-																																											},
-																																											&choiceExpr{
-																																												pos: position{line: 2924, col: 8, offset: 92031},
-																																												alternatives: []interface{}{
-																																													&actionExpr{
-																																														pos: position{line: 2911, col: 12, offset: 91804},
-																																														run: (*parser).callonDocumentFragment1268,
-																																														expr: &choiceExpr{
-																																															pos: position{line: 2911, col: 13, offset: 91805},
-																																															alternatives: []interface{}{
-																																																&litMatcher{
-																																																	pos:        position{line: 2911, col: 13, offset: 91805},
-																																																	val:        "\n",
-																																																	ignoreCase: false,
-																																																	want:       "\"\\n\"",
-																																																},
-																																																&litMatcher{
-																																																	pos:        position{line: 2911, col: 20, offset: 91812},
-																																																	val:        "\r\n",
-																																																	ignoreCase: false,
-																																																	want:       "\"\\r\\n\"",
-																																																},
-																																																&litMatcher{
-																																																	pos:        position{line: 2911, col: 29, offset: 91821},
-																																																	val:        "\r",
-																																																	ignoreCase: false,
-																																																	want:       "\"\\r\"",
-																																																},
+																																												&labeledExpr{
+																																													pos:   position{line: 2512, col: 49, offset: 80597},
+																																													label: "content",
+																																													expr: &actionExpr{
+																																														pos: position{line: 2855, col: 13, offset: 90318},
+																																														run: (*parser).callonDocumentFragment1269,
+																																														expr: &zeroOrMoreExpr{
+																																															pos: position{line: 2855, col: 13, offset: 90318},
+																																															expr: &charClassMatcher{
+																																																pos:        position{line: 2855, col: 13, offset: 90318},
+																																																val:        "[^\\r\\n]",
+																																																chars:      []rune{'\r', '\n'},
+																																																ignoreCase: false,
+																																																inverted:   true,
 																																															},
 																																														},
 																																													},
-																																													&notExpr{
-																																														pos: position{line: 2921, col: 8, offset: 91981},
-																																														expr: &anyMatcher{
-																																															line: 2921, col: 9, offset: 91982,
+																																												},
+																																												&choiceExpr{
+																																													pos: position{line: 2931, col: 8, offset: 92190},
+																																													alternatives: []interface{}{
+																																														&actionExpr{
+																																															pos: position{line: 2918, col: 12, offset: 91963},
+																																															run: (*parser).callonDocumentFragment1273,
+																																															expr: &choiceExpr{
+																																																pos: position{line: 2918, col: 13, offset: 91964},
+																																																alternatives: []interface{}{
+																																																	&litMatcher{
+																																																		pos:        position{line: 2918, col: 13, offset: 91964},
+																																																		val:        "\n",
+																																																		ignoreCase: false,
+																																																		want:       "\"\\n\"",
+																																																	},
+																																																	&litMatcher{
+																																																		pos:        position{line: 2918, col: 20, offset: 91971},
+																																																		val:        "\r\n",
+																																																		ignoreCase: false,
+																																																		want:       "\"\\r\\n\"",
+																																																	},
+																																																	&litMatcher{
+																																																		pos:        position{line: 2918, col: 29, offset: 91980},
+																																																		val:        "\r",
+																																																		ignoreCase: false,
+																																																		want:       "\"\\r\"",
+																																																	},
+																																																},
+																																															},
+																																														},
+																																														&notExpr{
+																																															pos: position{line: 2928, col: 8, offset: 92140},
+																																															expr: &anyMatcher{
+																																																line: 2928, col: 9, offset: 92141,
+																																															},
 																																														},
 																																													},
 																																												},
 																																											},
 																																										},
 																																									},
-																																									&notExpr{
-																																										pos: position{line: 2921, col: 8, offset: 91981},
-																																										expr: &anyMatcher{
-																																											line: 2921, col: 9, offset: 91982,
-																																										},
-																																									},
 																																								},
 																																							},
 																																						},
-																																						&notExpr{
-																																							pos: position{line: 2693, col: 9, offset: 85479},
-																																							expr: &actionExpr{
-																																								pos: position{line: 678, col: 14, offset: 21586},
-																																								run: (*parser).callonDocumentFragment1278,
-																																								expr: &seqExpr{
-																																									pos: position{line: 678, col: 14, offset: 21586},
-																																									exprs: []interface{}{
-																																										&andExpr{
-																																											pos: position{line: 2919, col: 11, offset: 91967},
-																																											expr: &anyMatcher{
-																																												line: 2919, col: 13, offset: 91969,
-																																											},
-																																										},
-																																										&zeroOrMoreExpr{
-																																											pos: position{line: 678, col: 21, offset: 21593},
-																																											expr: &actionExpr{
-																																												pos: position{line: 2902, col: 10, offset: 91633},
-																																												run: (*parser).callonDocumentFragment1283,
-																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2902, col: 10, offset: 91633},
-																																													val:        "[\\t ]",
-																																													chars:      []rune{'\t', ' '},
-																																													ignoreCase: false,
-																																													inverted:   false,
-																																												},
-																																											},
-																																										},
-																																										&choiceExpr{
-																																											pos: position{line: 2924, col: 8, offset: 92031},
-																																											alternatives: []interface{}{
-																																												&actionExpr{
-																																													pos: position{line: 2911, col: 12, offset: 91804},
-																																													run: (*parser).callonDocumentFragment1286,
-																																													expr: &choiceExpr{
-																																														pos: position{line: 2911, col: 13, offset: 91805},
-																																														alternatives: []interface{}{
-																																															&litMatcher{
-																																																pos:        position{line: 2911, col: 13, offset: 91805},
-																																																val:        "\n",
+																																					},
+																																					&actionExpr{
+																																						pos: position{line: 2699, col: 9, offset: 85611},
+																																						run: (*parser).callonDocumentFragment1280,
+																																						expr: &seqExpr{
+																																							pos: position{line: 2699, col: 9, offset: 85611},
+																																							exprs: []interface{}{
+																																								&notExpr{
+																																									pos: position{line: 2699, col: 9, offset: 85611},
+																																									expr: &choiceExpr{
+																																										pos: position{line: 2648, col: 22, offset: 84396},
+																																										alternatives: []interface{}{
+																																											&seqExpr{
+																																												pos: position{line: 2644, col: 19, offset: 84316},
+																																												exprs: []interface{}{
+																																													&litMatcher{
+																																														pos:        position{line: 2644, col: 19, offset: 84316},
+																																														val:        "|===",
+																																														ignoreCase: false,
+																																														want:       "\"|===\"",
+																																													},
+																																													&zeroOrMoreExpr{
+																																														pos: position{line: 2644, col: 26, offset: 84323},
+																																														expr: &actionExpr{
+																																															pos: position{line: 2909, col: 10, offset: 91792},
+																																															run: (*parser).callonDocumentFragment1287,
+																																															expr: &charClassMatcher{
+																																																pos:        position{line: 2909, col: 10, offset: 91792},
+																																																val:        "[\\t ]",
+																																																chars:      []rune{'\t', ' '},
 																																																ignoreCase: false,
-																																																want:       "\"\\n\"",
+																																																inverted:   false,
 																																															},
-																																															&litMatcher{
-																																																pos:        position{line: 2911, col: 20, offset: 91812},
-																																																val:        "\r\n",
-																																																ignoreCase: false,
-																																																want:       "\"\\r\\n\"",
+																																														},
+																																													},
+																																													&choiceExpr{
+																																														pos: position{line: 2931, col: 8, offset: 92190},
+																																														alternatives: []interface{}{
+																																															&actionExpr{
+																																																pos: position{line: 2918, col: 12, offset: 91963},
+																																																run: (*parser).callonDocumentFragment1290,
+																																																expr: &choiceExpr{
+																																																	pos: position{line: 2918, col: 13, offset: 91964},
+																																																	alternatives: []interface{}{
+																																																		&litMatcher{
+																																																			pos:        position{line: 2918, col: 13, offset: 91964},
+																																																			val:        "\n",
+																																																			ignoreCase: false,
+																																																			want:       "\"\\n\"",
+																																																		},
+																																																		&litMatcher{
+																																																			pos:        position{line: 2918, col: 20, offset: 91971},
+																																																			val:        "\r\n",
+																																																			ignoreCase: false,
+																																																			want:       "\"\\r\\n\"",
+																																																		},
+																																																		&litMatcher{
+																																																			pos:        position{line: 2918, col: 29, offset: 91980},
+																																																			val:        "\r",
+																																																			ignoreCase: false,
+																																																			want:       "\"\\r\"",
+																																																		},
+																																																	},
+																																																},
 																																															},
-																																															&litMatcher{
-																																																pos:        position{line: 2911, col: 29, offset: 91821},
-																																																val:        "\r",
-																																																ignoreCase: false,
-																																																want:       "\"\\r\"",
+																																															&notExpr{
+																																																pos: position{line: 2928, col: 8, offset: 92140},
+																																																expr: &anyMatcher{
+																																																	line: 2928, col: 9, offset: 92141,
+																																																},
 																																															},
 																																														},
 																																													},
 																																												},
-																																												&notExpr{
-																																													pos: position{line: 2921, col: 8, offset: 91981},
+																																											},
+																																											&notExpr{
+																																												pos: position{line: 2928, col: 8, offset: 92140},
+																																												expr: &anyMatcher{
+																																													line: 2928, col: 9, offset: 92141,
+																																												},
+																																											},
+																																										},
+																																									},
+																																								},
+																																								&notExpr{
+																																									pos: position{line: 2700, col: 9, offset: 85638},
+																																									expr: &actionExpr{
+																																										pos: position{line: 678, col: 14, offset: 21586},
+																																										run: (*parser).callonDocumentFragment1300,
+																																										expr: &seqExpr{
+																																											pos: position{line: 678, col: 14, offset: 21586},
+																																											exprs: []interface{}{
+																																												&andExpr{
+																																													pos: position{line: 2926, col: 11, offset: 92126},
 																																													expr: &anyMatcher{
-																																														line: 2921, col: 9, offset: 91982,
+																																														line: 2926, col: 13, offset: 92128,
+																																													},
+																																												},
+																																												&zeroOrMoreExpr{
+																																													pos: position{line: 678, col: 21, offset: 21593},
+																																													expr: &actionExpr{
+																																														pos: position{line: 2909, col: 10, offset: 91792},
+																																														run: (*parser).callonDocumentFragment1305,
+																																														expr: &charClassMatcher{
+																																															pos:        position{line: 2909, col: 10, offset: 91792},
+																																															val:        "[\\t ]",
+																																															chars:      []rune{'\t', ' '},
+																																															ignoreCase: false,
+																																															inverted:   false,
+																																														},
+																																													},
+																																												},
+																																												&choiceExpr{
+																																													pos: position{line: 2931, col: 8, offset: 92190},
+																																													alternatives: []interface{}{
+																																														&actionExpr{
+																																															pos: position{line: 2918, col: 12, offset: 91963},
+																																															run: (*parser).callonDocumentFragment1308,
+																																															expr: &choiceExpr{
+																																																pos: position{line: 2918, col: 13, offset: 91964},
+																																																alternatives: []interface{}{
+																																																	&litMatcher{
+																																																		pos:        position{line: 2918, col: 13, offset: 91964},
+																																																		val:        "\n",
+																																																		ignoreCase: false,
+																																																		want:       "\"\\n\"",
+																																																	},
+																																																	&litMatcher{
+																																																		pos:        position{line: 2918, col: 20, offset: 91971},
+																																																		val:        "\r\n",
+																																																		ignoreCase: false,
+																																																		want:       "\"\\r\\n\"",
+																																																	},
+																																																	&litMatcher{
+																																																		pos:        position{line: 2918, col: 29, offset: 91980},
+																																																		val:        "\r",
+																																																		ignoreCase: false,
+																																																		want:       "\"\\r\"",
+																																																	},
+																																																},
+																																															},
+																																														},
+																																														&notExpr{
+																																															pos: position{line: 2928, col: 8, offset: 92140},
+																																															expr: &anyMatcher{
+																																																line: 2928, col: 9, offset: 92141,
+																																															},
+																																														},
 																																													},
 																																												},
 																																											},
 																																										},
 																																									},
 																																								},
-																																							},
-																																						},
-																																						&notExpr{
-																																							pos: position{line: 2694, col: 9, offset: 85498},
-																																							expr: &seqExpr{
-																																								pos: position{line: 2694, col: 11, offset: 85500},
-																																								exprs: []interface{}{
-																																									&labeledExpr{
-																																										pos:   position{line: 2694, col: 11, offset: 85500},
-																																										label: "format",
-																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2694, col: 18, offset: 85507},
-																																											expr: &actionExpr{
-																																												pos: position{line: 2702, col: 20, offset: 85708},
-																																												run: (*parser).callonDocumentFragment1297,
-																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2702, col: 20, offset: 85708},
-																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2702, col: 20, offset: 85708},
-																																														val:        "[^ |\\r\\n]",
-																																														chars:      []rune{' ', '|', '\r', '\n'},
-																																														ignoreCase: false,
-																																														inverted:   true,
+																																								&notExpr{
+																																									pos: position{line: 2701, col: 9, offset: 85657},
+																																									expr: &seqExpr{
+																																										pos: position{line: 2701, col: 11, offset: 85659},
+																																										exprs: []interface{}{
+																																											&labeledExpr{
+																																												pos:   position{line: 2701, col: 11, offset: 85659},
+																																												label: "format",
+																																												expr: &zeroOrOneExpr{
+																																													pos: position{line: 2701, col: 18, offset: 85666},
+																																													expr: &actionExpr{
+																																														pos: position{line: 2709, col: 20, offset: 85867},
+																																														run: (*parser).callonDocumentFragment1319,
+																																														expr: &zeroOrMoreExpr{
+																																															pos: position{line: 2709, col: 20, offset: 85867},
+																																															expr: &charClassMatcher{
+																																																pos:        position{line: 2709, col: 20, offset: 85867},
+																																																val:        "[^ |\\r\\n]",
+																																																chars:      []rune{' ', '|', '\r', '\n'},
+																																																ignoreCase: false,
+																																																inverted:   true,
+																																															},
+																																														},
 																																													},
 																																												},
 																																											},
+																																											&litMatcher{
+																																												pos:        position{line: 2701, col: 37, offset: 85685},
+																																												val:        "|",
+																																												ignoreCase: false,
+																																												want:       "\"|\"",
+																																											},
 																																										},
 																																									},
-																																									&litMatcher{
-																																										pos:        position{line: 2694, col: 37, offset: 85526},
-																																										val:        "|",
-																																										ignoreCase: false,
-																																										want:       "\"|\"",
-																																									},
 																																								},
-																																							},
-																																						},
-																																						&labeledExpr{
-																																							pos:   position{line: 2695, col: 9, offset: 85539},
-																																							label: "content",
-																																							expr: &actionExpr{
-																																								pos: position{line: 2695, col: 18, offset: 85548},
-																																								run: (*parser).callonDocumentFragment1302,
-																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2695, col: 18, offset: 85548},
-																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2695, col: 18, offset: 85548},
-																																										val:        "[^|\\r\\n]",
-																																										chars:      []rune{'|', '\r', '\n'},
-																																										ignoreCase: false,
-																																										inverted:   true,
+																																								&labeledExpr{
+																																									pos:   position{line: 2702, col: 9, offset: 85698},
+																																									label: "content",
+																																									expr: &actionExpr{
+																																										pos: position{line: 2702, col: 18, offset: 85707},
+																																										run: (*parser).callonDocumentFragment1324,
+																																										expr: &zeroOrMoreExpr{
+																																											pos: position{line: 2702, col: 18, offset: 85707},
+																																											expr: &charClassMatcher{
+																																												pos:        position{line: 2702, col: 18, offset: 85707},
+																																												val:        "[^|\\r\\n]",
+																																												chars:      []rune{'|', '\r', '\n'},
+																																												ignoreCase: false,
+																																												inverted:   true,
+																																											},
+																																										},
 																																									},
 																																								},
-																																							},
-																																						},
-																																						&zeroOrOneExpr{
-																																							pos: position{line: 2697, col: 12, offset: 85610},
-																																							expr: &choiceExpr{
-																																								pos: position{line: 2924, col: 8, offset: 92031},
-																																								alternatives: []interface{}{
-																																									&actionExpr{
-																																										pos: position{line: 2911, col: 12, offset: 91804},
-																																										run: (*parser).callonDocumentFragment1307,
-																																										expr: &choiceExpr{
-																																											pos: position{line: 2911, col: 13, offset: 91805},
-																																											alternatives: []interface{}{
-																																												&litMatcher{
-																																													pos:        position{line: 2911, col: 13, offset: 91805},
-																																													val:        "\n",
-																																													ignoreCase: false,
-																																													want:       "\"\\n\"",
-																																												},
-																																												&litMatcher{
-																																													pos:        position{line: 2911, col: 20, offset: 91812},
-																																													val:        "\r\n",
-																																													ignoreCase: false,
-																																													want:       "\"\\r\\n\"",
+																																								&zeroOrOneExpr{
+																																									pos: position{line: 2704, col: 12, offset: 85769},
+																																									expr: &choiceExpr{
+																																										pos: position{line: 2931, col: 8, offset: 92190},
+																																										alternatives: []interface{}{
+																																											&actionExpr{
+																																												pos: position{line: 2918, col: 12, offset: 91963},
+																																												run: (*parser).callonDocumentFragment1329,
+																																												expr: &choiceExpr{
+																																													pos: position{line: 2918, col: 13, offset: 91964},
+																																													alternatives: []interface{}{
+																																														&litMatcher{
+																																															pos:        position{line: 2918, col: 13, offset: 91964},
+																																															val:        "\n",
+																																															ignoreCase: false,
+																																															want:       "\"\\n\"",
+																																														},
+																																														&litMatcher{
+																																															pos:        position{line: 2918, col: 20, offset: 91971},
+																																															val:        "\r\n",
+																																															ignoreCase: false,
+																																															want:       "\"\\r\\n\"",
+																																														},
+																																														&litMatcher{
+																																															pos:        position{line: 2918, col: 29, offset: 91980},
+																																															val:        "\r",
+																																															ignoreCase: false,
+																																															want:       "\"\\r\"",
+																																														},
+																																													},
 																																												},
-																																												&litMatcher{
-																																													pos:        position{line: 2911, col: 29, offset: 91821},
-																																													val:        "\r",
-																																													ignoreCase: false,
-																																													want:       "\"\\r\"",
+																																											},
+																																											&notExpr{
+																																												pos: position{line: 2928, col: 8, offset: 92140},
+																																												expr: &anyMatcher{
+																																													line: 2928, col: 9, offset: 92141,
 																																												},
 																																											},
 																																										},
 																																									},
-																																									&notExpr{
-																																										pos: position{line: 2921, col: 8, offset: 91981},
-																																										expr: &anyMatcher{
-																																											line: 2921, col: 9, offset: 91982,
-																																										},
-																																									},
 																																								},
 																																							},
 																																						},
@@ -9971,23 +10073,23 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 678, col: 14, offset: 21586},
-																								run: (*parser).callonDocumentFragment1314,
+																								run: (*parser).callonDocumentFragment1336,
 																								expr: &seqExpr{
 																									pos: position{line: 678, col: 14, offset: 21586},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2919, col: 11, offset: 91967},
+																											pos: position{line: 2926, col: 11, offset: 92126},
 																											expr: &anyMatcher{
-																												line: 2919, col: 13, offset: 91969,
+																												line: 2926, col: 13, offset: 92128,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 678, col: 21, offset: 21593},
 																											expr: &actionExpr{
-																												pos: position{line: 2902, col: 10, offset: 91633},
-																												run: (*parser).callonDocumentFragment1319,
+																												pos: position{line: 2909, col: 10, offset: 91792},
+																												run: (*parser).callonDocumentFragment1341,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2902, col: 10, offset: 91633},
+																													pos:        position{line: 2909, col: 10, offset: 91792},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -9996,28 +10098,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2924, col: 8, offset: 92031},
+																											pos: position{line: 2931, col: 8, offset: 92190},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2911, col: 12, offset: 91804},
-																													run: (*parser).callonDocumentFragment1322,
+																													pos: position{line: 2918, col: 12, offset: 91963},
+																													run: (*parser).callonDocumentFragment1344,
 																													expr: &choiceExpr{
-																														pos: position{line: 2911, col: 13, offset: 91805},
+																														pos: position{line: 2918, col: 13, offset: 91964},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 13, offset: 91805},
+																																pos:        position{line: 2918, col: 13, offset: 91964},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 20, offset: 91812},
+																																pos:        position{line: 2918, col: 20, offset: 91971},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 29, offset: 91821},
+																																pos:        position{line: 2918, col: 29, offset: 91980},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10026,9 +10128,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2921, col: 8, offset: 91981},
+																													pos: position{line: 2928, col: 8, offset: 92140},
 																													expr: &anyMatcher{
-																														line: 2921, col: 9, offset: 91982,
+																														line: 2928, col: 9, offset: 92141,
 																													},
 																												},
 																											},
@@ -10061,10 +10163,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 2644, col: 26, offset: 84323},
 																		expr: &actionExpr{
-																			pos: position{line: 2902, col: 10, offset: 91633},
-																			run: (*parser).callonDocumentFragment1333,
+																			pos: position{line: 2909, col: 10, offset: 91792},
+																			run: (*parser).callonDocumentFragment1355,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2902, col: 10, offset: 91633},
+																				pos:        position{line: 2909, col: 10, offset: 91792},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10073,28 +10175,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2924, col: 8, offset: 92031},
+																		pos: position{line: 2931, col: 8, offset: 92190},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
-																				run: (*parser).callonDocumentFragment1336,
+																				pos: position{line: 2918, col: 12, offset: 91963},
+																				run: (*parser).callonDocumentFragment1358,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10103,9 +10205,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2921, col: 8, offset: 91981},
+																				pos: position{line: 2928, col: 8, offset: 92140},
 																				expr: &anyMatcher{
-																					line: 2921, col: 9, offset: 91982,
+																					line: 2928, col: 9, offset: 92141,
 																				},
 																			},
 																		},
@@ -10113,9 +10215,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2921, col: 8, offset: 91981},
+																pos: position{line: 2928, col: 8, offset: 92140},
 																expr: &anyMatcher{
-																	line: 2921, col: 9, offset: 91982,
+																	line: 2928, col: 9, offset: 92141,
 																},
 															},
 														},
@@ -10125,7 +10227,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 2512, col: 22, offset: 80570},
-											run: (*parser).callonDocumentFragment1345,
+											run: (*parser).callonDocumentFragment1367,
 											expr: &seqExpr{
 												pos: position{line: 2512, col: 22, offset: 80570},
 												exprs: []interface{}{
@@ -10148,12 +10250,12 @@ var g = &grammar{
 														pos:   position{line: 2512, col: 49, offset: 80597},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2848, col: 13, offset: 90159},
-															run: (*parser).callonDocumentFragment1351,
+															pos: position{line: 2855, col: 13, offset: 90318},
+															run: (*parser).callonDocumentFragment1373,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2848, col: 13, offset: 90159},
+																pos: position{line: 2855, col: 13, offset: 90318},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2848, col: 13, offset: 90159},
+																	pos:        position{line: 2855, col: 13, offset: 90318},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10163,28 +10265,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2924, col: 8, offset: 92031},
+														pos: position{line: 2931, col: 8, offset: 92190},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2911, col: 12, offset: 91804},
-																run: (*parser).callonDocumentFragment1355,
+																pos: position{line: 2918, col: 12, offset: 91963},
+																run: (*parser).callonDocumentFragment1377,
 																expr: &choiceExpr{
-																	pos: position{line: 2911, col: 13, offset: 91805},
+																	pos: position{line: 2918, col: 13, offset: 91964},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 13, offset: 91805},
+																			pos:        position{line: 2918, col: 13, offset: 91964},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 20, offset: 91812},
+																			pos:        position{line: 2918, col: 20, offset: 91971},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 29, offset: 91821},
+																			pos:        position{line: 2918, col: 29, offset: 91980},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10193,9 +10295,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2921, col: 8, offset: 91981},
+																pos: position{line: 2928, col: 8, offset: 92140},
 																expr: &anyMatcher{
-																	line: 2921, col: 9, offset: 91982,
+																	line: 2928, col: 9, offset: 92141,
 																},
 															},
 														},
@@ -10205,20 +10307,20 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 1223, col: 5, offset: 37963},
-											run: (*parser).callonDocumentFragment1362,
+											run: (*parser).callonDocumentFragment1384,
 											expr: &seqExpr{
 												pos: position{line: 1223, col: 5, offset: 37963},
 												exprs: []interface{}{
 													&andCodeExpr{
 														pos: position{line: 1223, col: 5, offset: 37963},
-														run: (*parser).callonDocumentFragment1364,
+														run: (*parser).callonDocumentFragment1386,
 													},
 													&labeledExpr{
 														pos:   position{line: 1226, col: 5, offset: 38021},
 														label: "frontmatter",
 														expr: &actionExpr{
 															pos: position{line: 1231, col: 20, offset: 38116},
-															run: (*parser).callonDocumentFragment1366,
+															run: (*parser).callonDocumentFragment1388,
 															expr: &seqExpr{
 																pos: position{line: 1231, col: 20, offset: 38116},
 																exprs: []interface{}{
@@ -10231,10 +10333,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1235, col: 36, offset: 38294},
 																		expr: &actionExpr{
-																			pos: position{line: 2902, col: 10, offset: 91633},
-																			run: (*parser).callonDocumentFragment1370,
+																			pos: position{line: 2909, col: 10, offset: 91792},
+																			run: (*parser).callonDocumentFragment1392,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2902, col: 10, offset: 91633},
+																				pos:        position{line: 2909, col: 10, offset: 91792},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10243,28 +10345,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2924, col: 8, offset: 92031},
+																		pos: position{line: 2931, col: 8, offset: 92190},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
-																				run: (*parser).callonDocumentFragment1373,
+																				pos: position{line: 2918, col: 12, offset: 91963},
+																				run: (*parser).callonDocumentFragment1395,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10273,9 +10375,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2921, col: 8, offset: 91981},
+																				pos: position{line: 2928, col: 8, offset: 92140},
 																				expr: &anyMatcher{
-																					line: 2921, col: 9, offset: 91982,
+																					line: 2928, col: 9, offset: 92141,
 																				},
 																			},
 																		},
@@ -10287,7 +10389,7 @@ var g = &grammar{
 																			pos: position{line: 1231, col: 53, offset: 38149},
 																			expr: &actionExpr{
 																				pos: position{line: 1237, col: 27, offset: 38332},
-																				run: (*parser).callonDocumentFragment1382,
+																				run: (*parser).callonDocumentFragment1404,
 																				expr: &zeroOrMoreExpr{
 																					pos: position{line: 1237, col: 27, offset: 38332},
 																					expr: &oneOrMoreExpr{
@@ -10309,10 +10411,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1235, col: 36, offset: 38294},
 																												expr: &actionExpr{
-																													pos: position{line: 2902, col: 10, offset: 91633},
-																													run: (*parser).callonDocumentFragment1390,
+																													pos: position{line: 2909, col: 10, offset: 91792},
+																													run: (*parser).callonDocumentFragment1412,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2902, col: 10, offset: 91633},
+																														pos:        position{line: 2909, col: 10, offset: 91792},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10321,28 +10423,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2924, col: 8, offset: 92031},
+																												pos: position{line: 2931, col: 8, offset: 92190},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2911, col: 12, offset: 91804},
-																														run: (*parser).callonDocumentFragment1393,
+																														pos: position{line: 2918, col: 12, offset: 91963},
+																														run: (*parser).callonDocumentFragment1415,
 																														expr: &choiceExpr{
-																															pos: position{line: 2911, col: 13, offset: 91805},
+																															pos: position{line: 2918, col: 13, offset: 91964},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2911, col: 13, offset: 91805},
+																																	pos:        position{line: 2918, col: 13, offset: 91964},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2911, col: 20, offset: 91812},
+																																	pos:        position{line: 2918, col: 20, offset: 91971},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2911, col: 29, offset: 91821},
+																																	pos:        position{line: 2918, col: 29, offset: 91980},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10351,9 +10453,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2921, col: 8, offset: 91981},
+																														pos: position{line: 2928, col: 8, offset: 92140},
 																														expr: &anyMatcher{
-																															line: 2921, col: 9, offset: 91982,
+																															line: 2928, col: 9, offset: 92141,
 																														},
 																													},
 																												},
@@ -10380,10 +10482,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1235, col: 36, offset: 38294},
 																		expr: &actionExpr{
-																			pos: position{line: 2902, col: 10, offset: 91633},
-																			run: (*parser).callonDocumentFragment1403,
+																			pos: position{line: 2909, col: 10, offset: 91792},
+																			run: (*parser).callonDocumentFragment1425,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2902, col: 10, offset: 91633},
+																				pos:        position{line: 2909, col: 10, offset: 91792},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10392,28 +10494,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2924, col: 8, offset: 92031},
+																		pos: position{line: 2931, col: 8, offset: 92190},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
-																				run: (*parser).callonDocumentFragment1406,
+																				pos: position{line: 2918, col: 12, offset: 91963},
+																				run: (*parser).callonDocumentFragment1428,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10422,9 +10524,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2921, col: 8, offset: 91981},
+																				pos: position{line: 2928, col: 8, offset: 92140},
 																				expr: &anyMatcher{
-																					line: 2921, col: 9, offset: 91982,
+																					line: 2928, col: 9, offset: 92141,
 																				},
 																			},
 																		},
@@ -10446,7 +10548,7 @@ var g = &grammar{
 						},
 						&andCodeExpr{
 							pos: position{line: 253, col: 5, offset: 7555},
-							run: (*parser).callonDocumentFragment1414,
+							run: (*parser).callonDocumentFragment1436,
 						},
 					},
 				},
@@ -10521,9 +10623,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2921, col: 8, offset: 91981},
+							pos: position{line: 2928, col: 8, offset: 92140},
 							expr: &anyMatcher{
-								line: 2921, col: 9, offset: 91982,
+								line: 2928, col: 9, offset: 92141,
 							},
 						},
 					},
@@ -10595,12 +10697,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2906, col: 11, offset: 91694},
+												pos: position{line: 2913, col: 11, offset: 91853},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2906, col: 11, offset: 91694},
+													pos: position{line: 2913, col: 11, offset: 91853},
 													expr: &charClassMatcher{
-														pos:        position{line: 2906, col: 11, offset: 91694},
+														pos:        position{line: 2913, col: 11, offset: 91853},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10622,28 +10724,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2924, col: 8, offset: 92031},
+							pos: position{line: 2931, col: 8, offset: 92190},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2911, col: 12, offset: 91804},
+									pos: position{line: 2918, col: 12, offset: 91963},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2911, col: 13, offset: 91805},
+										pos: position{line: 2918, col: 13, offset: 91964},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2911, col: 13, offset: 91805},
+												pos:        position{line: 2918, col: 13, offset: 91964},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2911, col: 20, offset: 91812},
+												pos:        position{line: 2918, col: 20, offset: 91971},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2911, col: 29, offset: 91821},
+												pos:        position{line: 2918, col: 29, offset: 91980},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10652,9 +10754,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2921, col: 8, offset: 91981},
+									pos: position{line: 2928, col: 8, offset: 92140},
 									expr: &anyMatcher{
-										line: 2921, col: 9, offset: 91982,
+										line: 2928, col: 9, offset: 92141,
 									},
 								},
 							},
@@ -10698,25 +10800,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2911, col: 12, offset: 91804},
+												pos: position{line: 2918, col: 12, offset: 91963},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2911, col: 13, offset: 91805},
+													pos: position{line: 2918, col: 13, offset: 91964},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2911, col: 13, offset: 91805},
+															pos:        position{line: 2918, col: 13, offset: 91964},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2911, col: 20, offset: 91812},
+															pos:        position{line: 2918, col: 20, offset: 91971},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2911, col: 29, offset: 91821},
+															pos:        position{line: 2918, col: 29, offset: 91980},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10727,10 +10829,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2902, col: 10, offset: 91633},
+													pos: position{line: 2909, col: 10, offset: 91792},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2902, col: 10, offset: 91633},
+														pos:        position{line: 2909, col: 10, offset: 91792},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10800,10 +10902,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2902, col: 10, offset: 91633},
+											pos: position{line: 2909, col: 10, offset: 91792},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2902, col: 10, offset: 91633},
+												pos:        position{line: 2909, col: 10, offset: 91792},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10812,28 +10914,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2924, col: 8, offset: 92031},
+										pos: position{line: 2931, col: 8, offset: 92190},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2911, col: 12, offset: 91804},
+												pos: position{line: 2918, col: 12, offset: 91963},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2911, col: 13, offset: 91805},
+													pos: position{line: 2918, col: 13, offset: 91964},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2911, col: 13, offset: 91805},
+															pos:        position{line: 2918, col: 13, offset: 91964},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2911, col: 20, offset: 91812},
+															pos:        position{line: 2918, col: 20, offset: 91971},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2911, col: 29, offset: 91821},
+															pos:        position{line: 2918, col: 29, offset: 91980},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10842,9 +10944,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2921, col: 8, offset: 91981},
+												pos: position{line: 2928, col: 8, offset: 92140},
 												expr: &anyMatcher{
-													line: 2921, col: 9, offset: 91982,
+													line: 2928, col: 9, offset: 92141,
 												},
 											},
 										},
@@ -10905,10 +11007,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2902, col: 10, offset: 91633},
+										pos: position{line: 2909, col: 10, offset: 91792},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2902, col: 10, offset: 91633},
+											pos:        position{line: 2909, col: 10, offset: 91792},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11745,10 +11847,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 35, offset: 11487},
 												expr: &actionExpr{
-													pos: position{line: 2902, col: 10, offset: 91633},
+													pos: position{line: 2909, col: 10, offset: 91792},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2902, col: 10, offset: 91633},
+														pos:        position{line: 2909, col: 10, offset: 91792},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11757,28 +11859,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2924, col: 8, offset: 92031},
+												pos: position{line: 2931, col: 8, offset: 92190},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2911, col: 12, offset: 91804},
+														pos: position{line: 2918, col: 12, offset: 91963},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2911, col: 13, offset: 91805},
+															pos: position{line: 2918, col: 13, offset: 91964},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2911, col: 13, offset: 91805},
+																	pos:        position{line: 2918, col: 13, offset: 91964},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2911, col: 20, offset: 91812},
+																	pos:        position{line: 2918, col: 20, offset: 91971},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2911, col: 29, offset: 91821},
+																	pos:        position{line: 2918, col: 29, offset: 91980},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11787,9 +11889,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2921, col: 8, offset: 91981},
+														pos: position{line: 2928, col: 8, offset: 92140},
 														expr: &anyMatcher{
-															line: 2921, col: 9, offset: 91982,
+															line: 2928, col: 9, offset: 92141,
 														},
 													},
 												},
@@ -11806,18 +11908,18 @@ var g = &grammar{
 																pos: position{line: 678, col: 14, offset: 21586},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2919, col: 11, offset: 91967},
+																		pos: position{line: 2926, col: 11, offset: 92126},
 																		expr: &anyMatcher{
-																			line: 2919, col: 13, offset: 91969,
+																			line: 2926, col: 13, offset: 92128,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 678, col: 21, offset: 21593},
 																		expr: &actionExpr{
-																			pos: position{line: 2902, col: 10, offset: 91633},
+																			pos: position{line: 2909, col: 10, offset: 91792},
 																			run: (*parser).callonBlockAttributes117,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2902, col: 10, offset: 91633},
+																				pos:        position{line: 2909, col: 10, offset: 91792},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -11826,28 +11928,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2924, col: 8, offset: 92031},
+																		pos: position{line: 2931, col: 8, offset: 92190},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
+																				pos: position{line: 2918, col: 12, offset: 91963},
 																				run: (*parser).callonBlockAttributes120,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -11856,9 +11958,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2921, col: 8, offset: 91981},
+																				pos: position{line: 2928, col: 8, offset: 92140},
 																				expr: &anyMatcher{
-																					line: 2921, col: 9, offset: 91982,
+																					line: 2928, col: 9, offset: 92141,
 																				},
 																			},
 																		},
@@ -11891,12 +11993,12 @@ var g = &grammar{
 																		pos:   position{line: 2512, col: 49, offset: 80597},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2848, col: 13, offset: 90159},
+																			pos: position{line: 2855, col: 13, offset: 90318},
 																			run: (*parser).callonBlockAttributes133,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2848, col: 13, offset: 90159},
+																				pos: position{line: 2855, col: 13, offset: 90318},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2848, col: 13, offset: 90159},
+																					pos:        position{line: 2855, col: 13, offset: 90318},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -11906,28 +12008,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2924, col: 8, offset: 92031},
+																		pos: position{line: 2931, col: 8, offset: 92190},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
+																				pos: position{line: 2918, col: 12, offset: 91963},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -11936,9 +12038,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2921, col: 8, offset: 91981},
+																				pos: position{line: 2928, col: 8, offset: 92140},
 																				expr: &anyMatcher{
-																					line: 2921, col: 9, offset: 91982,
+																					line: 2928, col: 9, offset: 92141,
 																				},
 																			},
 																		},
@@ -11992,12 +12094,12 @@ var g = &grammar{
 																		pos: position{line: 426, col: 9, offset: 13131},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2796, col: 14, offset: 88802},
+																				pos: position{line: 2803, col: 14, offset: 88961},
 																				run: (*parser).callonBlockAttributes155,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2796, col: 14, offset: 88802},
+																					pos: position{line: 2803, col: 14, offset: 88961},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2796, col: 14, offset: 88802},
+																						pos:        position{line: 2803, col: 14, offset: 88961},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12006,10 +12108,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2902, col: 10, offset: 91633},
+																				pos: position{line: 2909, col: 10, offset: 91792},
 																				run: (*parser).callonBlockAttributes158,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2902, col: 10, offset: 91633},
+																					pos:        position{line: 2909, col: 10, offset: 91792},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12017,27 +12119,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2819, col: 5, offset: 89287},
+																				pos: position{line: 2826, col: 5, offset: 89446},
 																				run: (*parser).callonBlockAttributes160,
 																				expr: &choiceExpr{
-																					pos: position{line: 2820, col: 9, offset: 89297},
+																					pos: position{line: 2827, col: 9, offset: 89456},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2820, col: 10, offset: 89298},
+																							pos:        position{line: 2827, col: 10, offset: 89457},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2822, col: 13, offset: 89395},
+																							pos: position{line: 2829, col: 13, offset: 89554},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2822, col: 13, offset: 89395},
+																									pos: position{line: 2829, col: 13, offset: 89554},
 																									run: (*parser).callonBlockAttributes164,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2825, col: 13, offset: 89495},
+																									pos:        position{line: 2832, col: 13, offset: 89654},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12045,20 +12147,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2825, col: 19, offset: 89501},
+																							pos:        position{line: 2832, col: 19, offset: 89660},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2828, col: 13, offset: 89539},
+																							pos: position{line: 2835, col: 13, offset: 89698},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2828, col: 13, offset: 89539},
+																									pos: position{line: 2835, col: 13, offset: 89698},
 																									run: (*parser).callonBlockAttributes168,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2831, col: 14, offset: 89632},
+																									pos:        position{line: 2838, col: 14, offset: 89791},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12067,18 +12169,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2833, col: 12, offset: 89676},
+																							pos: position{line: 2840, col: 12, offset: 89835},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2833, col: 12, offset: 89676},
+																									pos:        position{line: 2840, col: 12, offset: 89835},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2833, col: 16, offset: 89680},
+																									pos: position{line: 2840, col: 16, offset: 89839},
 																									expr: &litMatcher{
-																										pos:        position{line: 2833, col: 17, offset: 89681},
+																										pos:        position{line: 2840, col: 17, offset: 89840},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12414,10 +12516,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2841, col: 12, offset: 89941},
+																				pos: position{line: 2848, col: 12, offset: 90100},
 																				run: (*parser).callonBlockAttributes238,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2841, col: 12, offset: 89941},
+																					pos:        position{line: 2848, col: 12, offset: 90100},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12435,10 +12537,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 376, col: 35, offset: 11664},
 												expr: &actionExpr{
-													pos: position{line: 2902, col: 10, offset: 91633},
+													pos: position{line: 2909, col: 10, offset: 91792},
 													run: (*parser).callonBlockAttributes241,
 													expr: &charClassMatcher{
-														pos:        position{line: 2902, col: 10, offset: 91633},
+														pos:        position{line: 2909, col: 10, offset: 91792},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12447,28 +12549,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2924, col: 8, offset: 92031},
+												pos: position{line: 2931, col: 8, offset: 92190},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2911, col: 12, offset: 91804},
+														pos: position{line: 2918, col: 12, offset: 91963},
 														run: (*parser).callonBlockAttributes244,
 														expr: &choiceExpr{
-															pos: position{line: 2911, col: 13, offset: 91805},
+															pos: position{line: 2918, col: 13, offset: 91964},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2911, col: 13, offset: 91805},
+																	pos:        position{line: 2918, col: 13, offset: 91964},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2911, col: 20, offset: 91812},
+																	pos:        position{line: 2918, col: 20, offset: 91971},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2911, col: 29, offset: 91821},
+																	pos:        position{line: 2918, col: 29, offset: 91980},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12477,9 +12579,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2921, col: 8, offset: 91981},
+														pos: position{line: 2928, col: 8, offset: 92140},
 														expr: &anyMatcher{
-															line: 2921, col: 9, offset: 91982,
+															line: 2928, col: 9, offset: 92141,
 														},
 													},
 												},
@@ -12496,18 +12598,18 @@ var g = &grammar{
 																pos: position{line: 678, col: 14, offset: 21586},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2919, col: 11, offset: 91967},
+																		pos: position{line: 2926, col: 11, offset: 92126},
 																		expr: &anyMatcher{
-																			line: 2919, col: 13, offset: 91969,
+																			line: 2926, col: 13, offset: 92128,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 678, col: 21, offset: 21593},
 																		expr: &actionExpr{
-																			pos: position{line: 2902, col: 10, offset: 91633},
+																			pos: position{line: 2909, col: 10, offset: 91792},
 																			run: (*parser).callonBlockAttributes258,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2902, col: 10, offset: 91633},
+																				pos:        position{line: 2909, col: 10, offset: 91792},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12516,28 +12618,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2924, col: 8, offset: 92031},
+																		pos: position{line: 2931, col: 8, offset: 92190},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
+																				pos: position{line: 2918, col: 12, offset: 91963},
 																				run: (*parser).callonBlockAttributes261,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12546,9 +12648,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2921, col: 8, offset: 91981},
+																				pos: position{line: 2928, col: 8, offset: 92140},
 																				expr: &anyMatcher{
-																					line: 2921, col: 9, offset: 91982,
+																					line: 2928, col: 9, offset: 92141,
 																				},
 																			},
 																		},
@@ -12581,12 +12683,12 @@ var g = &grammar{
 																		pos:   position{line: 2512, col: 49, offset: 80597},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2848, col: 13, offset: 90159},
+																			pos: position{line: 2855, col: 13, offset: 90318},
 																			run: (*parser).callonBlockAttributes274,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2848, col: 13, offset: 90159},
+																				pos: position{line: 2855, col: 13, offset: 90318},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2848, col: 13, offset: 90159},
+																					pos:        position{line: 2855, col: 13, offset: 90318},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12596,28 +12698,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2924, col: 8, offset: 92031},
+																		pos: position{line: 2931, col: 8, offset: 92190},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
+																				pos: position{line: 2918, col: 12, offset: 91963},
 																				run: (*parser).callonBlockAttributes278,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12626,9 +12728,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2921, col: 8, offset: 91981},
+																				pos: position{line: 2928, col: 8, offset: 92140},
 																				expr: &anyMatcher{
-																					line: 2921, col: 9, offset: 91982,
+																					line: 2928, col: 9, offset: 92141,
 																				},
 																			},
 																		},
@@ -12659,10 +12761,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 380, col: 44, offset: 11820},
 												expr: &actionExpr{
-													pos: position{line: 2902, col: 10, offset: 91633},
+													pos: position{line: 2909, col: 10, offset: 91792},
 													run: (*parser).callonBlockAttributes290,
 													expr: &charClassMatcher{
-														pos:        position{line: 2902, col: 10, offset: 91633},
+														pos:        position{line: 2909, col: 10, offset: 91792},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12671,28 +12773,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2924, col: 8, offset: 92031},
+												pos: position{line: 2931, col: 8, offset: 92190},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2911, col: 12, offset: 91804},
+														pos: position{line: 2918, col: 12, offset: 91963},
 														run: (*parser).callonBlockAttributes293,
 														expr: &choiceExpr{
-															pos: position{line: 2911, col: 13, offset: 91805},
+															pos: position{line: 2918, col: 13, offset: 91964},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2911, col: 13, offset: 91805},
+																	pos:        position{line: 2918, col: 13, offset: 91964},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2911, col: 20, offset: 91812},
+																	pos:        position{line: 2918, col: 20, offset: 91971},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2911, col: 29, offset: 91821},
+																	pos:        position{line: 2918, col: 29, offset: 91980},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12701,9 +12803,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2921, col: 8, offset: 91981},
+														pos: position{line: 2928, col: 8, offset: 92140},
 														expr: &anyMatcher{
-															line: 2921, col: 9, offset: 91982,
+															line: 2928, col: 9, offset: 92141,
 														},
 													},
 												},
@@ -12720,18 +12822,18 @@ var g = &grammar{
 																pos: position{line: 678, col: 14, offset: 21586},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2919, col: 11, offset: 91967},
+																		pos: position{line: 2926, col: 11, offset: 92126},
 																		expr: &anyMatcher{
-																			line: 2919, col: 13, offset: 91969,
+																			line: 2926, col: 13, offset: 92128,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 678, col: 21, offset: 21593},
 																		expr: &actionExpr{
-																			pos: position{line: 2902, col: 10, offset: 91633},
+																			pos: position{line: 2909, col: 10, offset: 91792},
 																			run: (*parser).callonBlockAttributes307,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2902, col: 10, offset: 91633},
+																				pos:        position{line: 2909, col: 10, offset: 91792},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12740,28 +12842,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2924, col: 8, offset: 92031},
+																		pos: position{line: 2931, col: 8, offset: 92190},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
+																				pos: position{line: 2918, col: 12, offset: 91963},
 																				run: (*parser).callonBlockAttributes310,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12770,9 +12872,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2921, col: 8, offset: 91981},
+																				pos: position{line: 2928, col: 8, offset: 92140},
 																				expr: &anyMatcher{
-																					line: 2921, col: 9, offset: 91982,
+																					line: 2928, col: 9, offset: 92141,
 																				},
 																			},
 																		},
@@ -12805,12 +12907,12 @@ var g = &grammar{
 																		pos:   position{line: 2512, col: 49, offset: 80597},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2848, col: 13, offset: 90159},
+																			pos: position{line: 2855, col: 13, offset: 90318},
 																			run: (*parser).callonBlockAttributes323,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2848, col: 13, offset: 90159},
+																				pos: position{line: 2855, col: 13, offset: 90318},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2848, col: 13, offset: 90159},
+																					pos:        position{line: 2855, col: 13, offset: 90318},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12820,28 +12922,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2924, col: 8, offset: 92031},
+																		pos: position{line: 2931, col: 8, offset: 92190},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
+																				pos: position{line: 2918, col: 12, offset: 91963},
 																				run: (*parser).callonBlockAttributes327,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12850,9 +12952,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2921, col: 8, offset: 91981},
+																				pos: position{line: 2928, col: 8, offset: 92140},
 																				expr: &anyMatcher{
-																					line: 2921, col: 9, offset: 91982,
+																					line: 2928, col: 9, offset: 92141,
 																				},
 																			},
 																		},
@@ -13102,10 +13204,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 467, col: 13, offset: 14626},
 										expr: &actionExpr{
-											pos: position{line: 2902, col: 10, offset: 91633},
+											pos: position{line: 2909, col: 10, offset: 91792},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2902, col: 10, offset: 91633},
+												pos:        position{line: 2909, col: 10, offset: 91792},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13637,10 +13739,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 519, col: 9, offset: 16208},
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 10, offset: 91633},
+														pos: position{line: 2909, col: 10, offset: 91792},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2902, col: 10, offset: 91633},
+															pos:        position{line: 2909, col: 10, offset: 91792},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13701,10 +13803,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 525, col: 34, offset: 16351},
 														expr: &actionExpr{
-															pos: position{line: 2902, col: 10, offset: 91633},
+															pos: position{line: 2909, col: 10, offset: 91792},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2902, col: 10, offset: 91633},
+																pos:        position{line: 2909, col: 10, offset: 91792},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13744,10 +13846,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 530, col: 13, offset: 16515},
 												expr: &actionExpr{
-													pos: position{line: 2902, col: 10, offset: 91633},
+													pos: position{line: 2909, col: 10, offset: 91792},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2902, col: 10, offset: 91633},
+														pos:        position{line: 2909, col: 10, offset: 91792},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13770,10 +13872,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 530, col: 26, offset: 16528},
 																expr: &actionExpr{
-																	pos: position{line: 2902, col: 10, offset: 91633},
+																	pos: position{line: 2909, col: 10, offset: 91792},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2902, col: 10, offset: 91633},
+																		pos:        position{line: 2909, col: 10, offset: 91792},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13828,10 +13930,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 550, col: 22, offset: 17175},
 											expr: &actionExpr{
-												pos: position{line: 2902, col: 10, offset: 91633},
+												pos: position{line: 2909, col: 10, offset: 91792},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2902, col: 10, offset: 91633},
+													pos:        position{line: 2909, col: 10, offset: 91792},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13862,10 +13964,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 543, col: 9, offset: 16920},
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 10, offset: 91633},
+								pos: position{line: 2909, col: 10, offset: 91792},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2902, col: 10, offset: 91633},
+									pos:        position{line: 2909, col: 10, offset: 91792},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13895,10 +13997,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 544, col: 33, offset: 16960},
 										expr: &actionExpr{
-											pos: position{line: 2902, col: 10, offset: 91633},
+											pos: position{line: 2909, col: 10, offset: 91792},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2902, col: 10, offset: 91633},
+												pos:        position{line: 2909, col: 10, offset: 91792},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13953,10 +14055,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 560, col: 9, offset: 17392},
 											expr: &actionExpr{
-												pos: position{line: 2902, col: 10, offset: 91633},
+												pos: position{line: 2909, col: 10, offset: 91792},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2902, col: 10, offset: 91633},
+													pos:        position{line: 2909, col: 10, offset: 91792},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14035,12 +14137,12 @@ var g = &grammar{
 							pos: position{line: 573, col: 9, offset: 17709},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2796, col: 14, offset: 88802},
+									pos: position{line: 2803, col: 14, offset: 88961},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2796, col: 14, offset: 88802},
+										pos: position{line: 2803, col: 14, offset: 88961},
 										expr: &charClassMatcher{
-											pos:        position{line: 2796, col: 14, offset: 88802},
+											pos:        position{line: 2803, col: 14, offset: 88961},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14049,10 +14151,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2902, col: 10, offset: 91633},
+									pos: position{line: 2909, col: 10, offset: 91792},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2902, col: 10, offset: 91633},
+										pos:        position{line: 2909, col: 10, offset: 91792},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14509,10 +14611,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 593, col: 14, offset: 18449},
 											expr: &actionExpr{
-												pos: position{line: 2902, col: 10, offset: 91633},
+												pos: position{line: 2909, col: 10, offset: 91792},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2902, col: 10, offset: 91633},
+													pos:        position{line: 2909, col: 10, offset: 91792},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14549,12 +14651,12 @@ var g = &grammar{
 							pos: position{line: 599, col: 9, offset: 18560},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2796, col: 14, offset: 88802},
+									pos: position{line: 2803, col: 14, offset: 88961},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2796, col: 14, offset: 88802},
+										pos: position{line: 2803, col: 14, offset: 88961},
 										expr: &charClassMatcher{
-											pos:        position{line: 2796, col: 14, offset: 88802},
+											pos:        position{line: 2803, col: 14, offset: 88961},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14563,10 +14665,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2902, col: 10, offset: 91633},
+									pos: position{line: 2909, col: 10, offset: 91792},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2902, col: 10, offset: 91633},
+										pos:        position{line: 2909, col: 10, offset: 91792},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14993,10 +15095,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 620, col: 5, offset: 19416},
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 10, offset: 91633},
+								pos: position{line: 2909, col: 10, offset: 91792},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2902, col: 10, offset: 91633},
+									pos:        position{line: 2909, col: 10, offset: 91792},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15386,10 +15488,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2902, col: 10, offset: 91633},
+											pos: position{line: 2909, col: 10, offset: 91792},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2902, col: 10, offset: 91633},
+												pos:        position{line: 2909, col: 10, offset: 91792},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15440,12 +15542,12 @@ var g = &grammar{
 									pos:   position{line: 687, col: 32, offset: 21946},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2887, col: 7, offset: 91285},
+										pos: position{line: 2894, col: 7, offset: 91444},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2887, col: 7, offset: 91285},
+											pos: position{line: 2894, col: 7, offset: 91444},
 											expr: &charClassMatcher{
-												pos:        position{line: 2887, col: 7, offset: 91285},
+												pos:        position{line: 2894, col: 7, offset: 91444},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15457,10 +15559,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 687, col: 40, offset: 21954},
 									expr: &actionExpr{
-										pos: position{line: 2902, col: 10, offset: 91633},
+										pos: position{line: 2909, col: 10, offset: 91792},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2902, col: 10, offset: 91633},
+											pos:        position{line: 2909, col: 10, offset: 91792},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15653,12 +15755,12 @@ var g = &grammar{
 									pos:   position{line: 689, col: 14, offset: 22071},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2887, col: 7, offset: 91285},
+										pos: position{line: 2894, col: 7, offset: 91444},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2887, col: 7, offset: 91285},
+											pos: position{line: 2894, col: 7, offset: 91444},
 											expr: &charClassMatcher{
-												pos:        position{line: 2887, col: 7, offset: 91285},
+												pos:        position{line: 2894, col: 7, offset: 91444},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15702,41 +15804,41 @@ var g = &grammar{
 							pos:   position{line: 693, col: 35, offset: 22184},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2856, col: 17, offset: 90296},
+								pos: position{line: 2863, col: 17, offset: 90455},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2856, col: 17, offset: 90296},
+									pos:   position{line: 2863, col: 17, offset: 90455},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2873, col: 5, offset: 90750},
+										pos: position{line: 2880, col: 5, offset: 90909},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2873, col: 5, offset: 90750},
+											pos:   position{line: 2880, col: 5, offset: 90909},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2873, col: 14, offset: 90759},
+												pos: position{line: 2880, col: 14, offset: 90918},
 												expr: &choiceExpr{
-													pos: position{line: 2874, col: 9, offset: 90769},
+													pos: position{line: 2881, col: 9, offset: 90928},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2874, col: 9, offset: 90769},
+															pos: position{line: 2881, col: 9, offset: 90928},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2874, col: 9, offset: 90769},
+																pos: position{line: 2881, col: 9, offset: 90928},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2874, col: 9, offset: 90769},
+																		pos: position{line: 2881, col: 9, offset: 90928},
 																		expr: &litMatcher{
-																			pos:        position{line: 2874, col: 10, offset: 90770},
+																			pos:        position{line: 2881, col: 10, offset: 90929},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2875, col: 9, offset: 90798},
+																		pos: position{line: 2882, col: 9, offset: 90957},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 90799},
+																			pos:        position{line: 2882, col: 10, offset: 90958},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15747,27 +15849,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2878, col: 11, offset: 91011},
+															pos: position{line: 2885, col: 11, offset: 91170},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2878, col: 11, offset: 91011},
+																	pos:        position{line: 2885, col: 11, offset: 91170},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2878, col: 19, offset: 91019},
+																	pos: position{line: 2885, col: 19, offset: 91178},
 																	expr: &seqExpr{
-																		pos: position{line: 2878, col: 21, offset: 91021},
+																		pos: position{line: 2885, col: 21, offset: 91180},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2878, col: 21, offset: 91021},
+																				pos: position{line: 2885, col: 21, offset: 91180},
 																				expr: &actionExpr{
-																					pos: position{line: 2902, col: 10, offset: 91633},
+																					pos: position{line: 2909, col: 10, offset: 91792},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2902, col: 10, offset: 91633},
+																						pos:        position{line: 2909, col: 10, offset: 91792},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15776,11 +15878,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2878, col: 28, offset: 91028},
+																				pos: position{line: 2885, col: 28, offset: 91187},
 																				expr: &notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -16175,10 +16277,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2881, col: 11, offset: 91148},
+															pos: position{line: 2888, col: 11, offset: 91307},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2881, col: 11, offset: 91148},
+																pos:        position{line: 2888, col: 11, offset: 91307},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16223,12 +16325,12 @@ var g = &grammar{
 							pos:   position{line: 990, col: 11, offset: 30903},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 14, offset: 90226},
+								pos: position{line: 2859, col: 14, offset: 90385},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2852, col: 14, offset: 90226},
+									pos: position{line: 2859, col: 14, offset: 90385},
 									expr: &charClassMatcher{
-										pos:        position{line: 2852, col: 14, offset: 90226},
+										pos:        position{line: 2859, col: 14, offset: 90385},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16238,28 +16340,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2924, col: 8, offset: 92031},
+							pos: position{line: 2931, col: 8, offset: 92190},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2911, col: 12, offset: 91804},
+									pos: position{line: 2918, col: 12, offset: 91963},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2911, col: 13, offset: 91805},
+										pos: position{line: 2918, col: 13, offset: 91964},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2911, col: 13, offset: 91805},
+												pos:        position{line: 2918, col: 13, offset: 91964},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2911, col: 20, offset: 91812},
+												pos:        position{line: 2918, col: 20, offset: 91971},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2911, col: 29, offset: 91821},
+												pos:        position{line: 2918, col: 29, offset: 91980},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16268,9 +16370,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2921, col: 8, offset: 91981},
+									pos: position{line: 2928, col: 8, offset: 92140},
 									expr: &anyMatcher{
-										line: 2921, col: 9, offset: 91982,
+										line: 2928, col: 9, offset: 92141,
 									},
 								},
 							},
@@ -16322,12 +16424,12 @@ var g = &grammar{
 													pos:   position{line: 2512, col: 49, offset: 80597},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2848, col: 13, offset: 90159},
+														pos: position{line: 2855, col: 13, offset: 90318},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2848, col: 13, offset: 90159},
+															pos: position{line: 2855, col: 13, offset: 90318},
 															expr: &charClassMatcher{
-																pos:        position{line: 2848, col: 13, offset: 90159},
+																pos:        position{line: 2855, col: 13, offset: 90318},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16337,28 +16439,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2924, col: 8, offset: 92031},
+													pos: position{line: 2931, col: 8, offset: 92190},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2911, col: 12, offset: 91804},
+															pos: position{line: 2918, col: 12, offset: 91963},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2911, col: 13, offset: 91805},
+																pos: position{line: 2918, col: 13, offset: 91964},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 13, offset: 91805},
+																		pos:        position{line: 2918, col: 13, offset: 91964},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 20, offset: 91812},
+																		pos:        position{line: 2918, col: 20, offset: 91971},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 29, offset: 91821},
+																		pos:        position{line: 2918, col: 29, offset: 91980},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16367,9 +16469,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2921, col: 8, offset: 91981},
+															pos: position{line: 2928, col: 8, offset: 92140},
 															expr: &anyMatcher{
-																line: 2921, col: 9, offset: 91982,
+																line: 2928, col: 9, offset: 92141,
 															},
 														},
 													},
@@ -16420,10 +16522,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 743, col: 8, offset: 23783},
 																expr: &actionExpr{
-																	pos: position{line: 2902, col: 10, offset: 91633},
+																	pos: position{line: 2909, col: 10, offset: 91792},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2902, col: 10, offset: 91633},
+																		pos:        position{line: 2909, col: 10, offset: 91792},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16432,28 +16534,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2924, col: 8, offset: 92031},
+																pos: position{line: 2931, col: 8, offset: 92190},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2911, col: 12, offset: 91804},
+																		pos: position{line: 2918, col: 12, offset: 91963},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2911, col: 13, offset: 91805},
+																			pos: position{line: 2918, col: 13, offset: 91964},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2911, col: 13, offset: 91805},
+																					pos:        position{line: 2918, col: 13, offset: 91964},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2911, col: 20, offset: 91812},
+																					pos:        position{line: 2918, col: 20, offset: 91971},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2911, col: 29, offset: 91821},
+																					pos:        position{line: 2918, col: 29, offset: 91980},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16462,9 +16564,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2921, col: 8, offset: 91981},
+																		pos: position{line: 2928, col: 8, offset: 92140},
 																		expr: &anyMatcher{
-																			line: 2921, col: 9, offset: 91982,
+																			line: 2928, col: 9, offset: 92141,
 																		},
 																	},
 																},
@@ -16525,10 +16627,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23783},
 																								expr: &actionExpr{
-																									pos: position{line: 2902, col: 10, offset: 91633},
+																									pos: position{line: 2909, col: 10, offset: 91792},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2902, col: 10, offset: 91633},
+																										pos:        position{line: 2909, col: 10, offset: 91792},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16537,28 +16639,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2924, col: 8, offset: 92031},
+																								pos: position{line: 2931, col: 8, offset: 92190},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2911, col: 12, offset: 91804},
+																										pos: position{line: 2918, col: 12, offset: 91963},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2911, col: 13, offset: 91805},
+																											pos: position{line: 2918, col: 13, offset: 91964},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 13, offset: 91805},
+																													pos:        position{line: 2918, col: 13, offset: 91964},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 20, offset: 91812},
+																													pos:        position{line: 2918, col: 20, offset: 91971},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 29, offset: 91821},
+																													pos:        position{line: 2918, col: 29, offset: 91980},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16567,9 +16669,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2921, col: 8, offset: 91981},
+																										pos: position{line: 2928, col: 8, offset: 92140},
 																										expr: &anyMatcher{
-																											line: 2921, col: 9, offset: 91982,
+																											line: 2928, col: 9, offset: 92141,
 																										},
 																									},
 																								},
@@ -16578,9 +16680,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -16596,21 +16698,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2919, col: 11, offset: 91967},
+																						pos: position{line: 2926, col: 11, offset: 92126},
 																						expr: &anyMatcher{
-																							line: 2919, col: 13, offset: 91969,
+																							line: 2926, col: 13, offset: 92128,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2848, col: 13, offset: 90159},
+																							pos: position{line: 2855, col: 13, offset: 90318},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2848, col: 13, offset: 90159},
+																								pos: position{line: 2855, col: 13, offset: 90318},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2848, col: 13, offset: 90159},
+																									pos:        position{line: 2855, col: 13, offset: 90318},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16620,28 +16722,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2924, col: 8, offset: 92031},
+																						pos: position{line: 2931, col: 8, offset: 92190},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2911, col: 12, offset: 91804},
+																								pos: position{line: 2918, col: 12, offset: 91963},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2911, col: 13, offset: 91805},
+																									pos: position{line: 2918, col: 13, offset: 91964},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 13, offset: 91805},
+																											pos:        position{line: 2918, col: 13, offset: 91964},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 20, offset: 91812},
+																											pos:        position{line: 2918, col: 20, offset: 91971},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 29, offset: 91821},
+																											pos:        position{line: 2918, col: 29, offset: 91980},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16650,9 +16752,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2921, col: 8, offset: 91981},
+																								pos: position{line: 2928, col: 8, offset: 92140},
 																								expr: &anyMatcher{
-																									line: 2921, col: 9, offset: 91982,
+																									line: 2928, col: 9, offset: 92141,
 																								},
 																							},
 																						},
@@ -16708,10 +16810,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23783},
 																			expr: &actionExpr{
-																				pos: position{line: 2902, col: 10, offset: 91633},
+																				pos: position{line: 2909, col: 10, offset: 91792},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2902, col: 10, offset: 91633},
+																					pos:        position{line: 2909, col: 10, offset: 91792},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16720,28 +16822,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2924, col: 8, offset: 92031},
+																			pos: position{line: 2931, col: 8, offset: 92190},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2911, col: 12, offset: 91804},
+																					pos: position{line: 2918, col: 12, offset: 91963},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2911, col: 13, offset: 91805},
+																						pos: position{line: 2918, col: 13, offset: 91964},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 13, offset: 91805},
+																								pos:        position{line: 2918, col: 13, offset: 91964},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 20, offset: 91812},
+																								pos:        position{line: 2918, col: 20, offset: 91971},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 29, offset: 91821},
+																								pos:        position{line: 2918, col: 29, offset: 91980},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16750,9 +16852,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -16761,9 +16863,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2921, col: 8, offset: 91981},
+																pos: position{line: 2928, col: 8, offset: 92140},
 																expr: &anyMatcher{
-																	line: 2921, col: 9, offset: 91982,
+																	line: 2928, col: 9, offset: 92141,
 																},
 															},
 														},
@@ -16813,12 +16915,12 @@ var g = &grammar{
 													pos:   position{line: 2512, col: 49, offset: 80597},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2848, col: 13, offset: 90159},
+														pos: position{line: 2855, col: 13, offset: 90318},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2848, col: 13, offset: 90159},
+															pos: position{line: 2855, col: 13, offset: 90318},
 															expr: &charClassMatcher{
-																pos:        position{line: 2848, col: 13, offset: 90159},
+																pos:        position{line: 2855, col: 13, offset: 90318},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16828,28 +16930,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2924, col: 8, offset: 92031},
+													pos: position{line: 2931, col: 8, offset: 92190},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2911, col: 12, offset: 91804},
+															pos: position{line: 2918, col: 12, offset: 91963},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2911, col: 13, offset: 91805},
+																pos: position{line: 2918, col: 13, offset: 91964},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 13, offset: 91805},
+																		pos:        position{line: 2918, col: 13, offset: 91964},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 20, offset: 91812},
+																		pos:        position{line: 2918, col: 20, offset: 91971},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 29, offset: 91821},
+																		pos:        position{line: 2918, col: 29, offset: 91980},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16858,9 +16960,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2921, col: 8, offset: 91981},
+															pos: position{line: 2928, col: 8, offset: 92140},
 															expr: &anyMatcher{
-																line: 2921, col: 9, offset: 91982,
+																line: 2928, col: 9, offset: 92141,
 															},
 														},
 													},
@@ -16911,10 +17013,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 743, col: 8, offset: 23783},
 																expr: &actionExpr{
-																	pos: position{line: 2902, col: 10, offset: 91633},
+																	pos: position{line: 2909, col: 10, offset: 91792},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2902, col: 10, offset: 91633},
+																		pos:        position{line: 2909, col: 10, offset: 91792},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16923,28 +17025,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2924, col: 8, offset: 92031},
+																pos: position{line: 2931, col: 8, offset: 92190},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2911, col: 12, offset: 91804},
+																		pos: position{line: 2918, col: 12, offset: 91963},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2911, col: 13, offset: 91805},
+																			pos: position{line: 2918, col: 13, offset: 91964},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2911, col: 13, offset: 91805},
+																					pos:        position{line: 2918, col: 13, offset: 91964},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2911, col: 20, offset: 91812},
+																					pos:        position{line: 2918, col: 20, offset: 91971},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2911, col: 29, offset: 91821},
+																					pos:        position{line: 2918, col: 29, offset: 91980},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16953,9 +17055,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2921, col: 8, offset: 91981},
+																		pos: position{line: 2928, col: 8, offset: 92140},
 																		expr: &anyMatcher{
-																			line: 2921, col: 9, offset: 91982,
+																			line: 2928, col: 9, offset: 92141,
 																		},
 																	},
 																},
@@ -17016,10 +17118,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23783},
 																								expr: &actionExpr{
-																									pos: position{line: 2902, col: 10, offset: 91633},
+																									pos: position{line: 2909, col: 10, offset: 91792},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2902, col: 10, offset: 91633},
+																										pos:        position{line: 2909, col: 10, offset: 91792},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17028,28 +17130,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2924, col: 8, offset: 92031},
+																								pos: position{line: 2931, col: 8, offset: 92190},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2911, col: 12, offset: 91804},
+																										pos: position{line: 2918, col: 12, offset: 91963},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2911, col: 13, offset: 91805},
+																											pos: position{line: 2918, col: 13, offset: 91964},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 13, offset: 91805},
+																													pos:        position{line: 2918, col: 13, offset: 91964},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 20, offset: 91812},
+																													pos:        position{line: 2918, col: 20, offset: 91971},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 29, offset: 91821},
+																													pos:        position{line: 2918, col: 29, offset: 91980},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17058,9 +17160,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2921, col: 8, offset: 91981},
+																										pos: position{line: 2928, col: 8, offset: 92140},
 																										expr: &anyMatcher{
-																											line: 2921, col: 9, offset: 91982,
+																											line: 2928, col: 9, offset: 92141,
 																										},
 																									},
 																								},
@@ -17069,9 +17171,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -17087,21 +17189,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2919, col: 11, offset: 91967},
+																						pos: position{line: 2926, col: 11, offset: 92126},
 																						expr: &anyMatcher{
-																							line: 2919, col: 13, offset: 91969,
+																							line: 2926, col: 13, offset: 92128,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2848, col: 13, offset: 90159},
+																							pos: position{line: 2855, col: 13, offset: 90318},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2848, col: 13, offset: 90159},
+																								pos: position{line: 2855, col: 13, offset: 90318},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2848, col: 13, offset: 90159},
+																									pos:        position{line: 2855, col: 13, offset: 90318},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17111,28 +17213,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2924, col: 8, offset: 92031},
+																						pos: position{line: 2931, col: 8, offset: 92190},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2911, col: 12, offset: 91804},
+																								pos: position{line: 2918, col: 12, offset: 91963},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2911, col: 13, offset: 91805},
+																									pos: position{line: 2918, col: 13, offset: 91964},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 13, offset: 91805},
+																											pos:        position{line: 2918, col: 13, offset: 91964},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 20, offset: 91812},
+																											pos:        position{line: 2918, col: 20, offset: 91971},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 29, offset: 91821},
+																											pos:        position{line: 2918, col: 29, offset: 91980},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17141,9 +17243,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2921, col: 8, offset: 91981},
+																								pos: position{line: 2928, col: 8, offset: 92140},
 																								expr: &anyMatcher{
-																									line: 2921, col: 9, offset: 91982,
+																									line: 2928, col: 9, offset: 92141,
 																								},
 																							},
 																						},
@@ -17199,10 +17301,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23783},
 																			expr: &actionExpr{
-																				pos: position{line: 2902, col: 10, offset: 91633},
+																				pos: position{line: 2909, col: 10, offset: 91792},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2902, col: 10, offset: 91633},
+																					pos:        position{line: 2909, col: 10, offset: 91792},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -17211,28 +17313,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2924, col: 8, offset: 92031},
+																			pos: position{line: 2931, col: 8, offset: 92190},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2911, col: 12, offset: 91804},
+																					pos: position{line: 2918, col: 12, offset: 91963},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2911, col: 13, offset: 91805},
+																						pos: position{line: 2918, col: 13, offset: 91964},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 13, offset: 91805},
+																								pos:        position{line: 2918, col: 13, offset: 91964},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 20, offset: 91812},
+																								pos:        position{line: 2918, col: 20, offset: 91971},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 29, offset: 91821},
+																								pos:        position{line: 2918, col: 29, offset: 91980},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -17241,9 +17343,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -17252,9 +17354,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2921, col: 8, offset: 91981},
+																pos: position{line: 2928, col: 8, offset: 92140},
 																expr: &anyMatcher{
-																	line: 2921, col: 9, offset: 91982,
+																	line: 2928, col: 9, offset: 92141,
 																},
 															},
 														},
@@ -17298,10 +17400,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1126, col: 20, offset: 34783},
 																expr: &actionExpr{
-																	pos: position{line: 2902, col: 10, offset: 91633},
+																	pos: position{line: 2909, col: 10, offset: 91792},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2902, col: 10, offset: 91633},
+																		pos:        position{line: 2909, col: 10, offset: 91792},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17352,10 +17454,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1145, col: 5, offset: 35388},
 																										expr: &actionExpr{
-																											pos: position{line: 2902, col: 10, offset: 91633},
+																											pos: position{line: 2909, col: 10, offset: 91792},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2902, col: 10, offset: 91633},
+																												pos:        position{line: 2909, col: 10, offset: 91792},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17387,10 +17489,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1149, col: 5, offset: 35487},
 																										expr: &actionExpr{
-																											pos: position{line: 2902, col: 10, offset: 91633},
+																											pos: position{line: 2909, col: 10, offset: 91792},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2902, col: 10, offset: 91633},
+																												pos:        position{line: 2909, col: 10, offset: 91792},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17422,10 +17524,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1153, col: 5, offset: 35584},
 																										expr: &actionExpr{
-																											pos: position{line: 2902, col: 10, offset: 91633},
+																											pos: position{line: 2909, col: 10, offset: 91792},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2902, col: 10, offset: 91633},
+																												pos:        position{line: 2909, col: 10, offset: 91792},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17450,9 +17552,9 @@ var g = &grammar{
 																								pos: position{line: 1159, col: 5, offset: 35706},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2919, col: 11, offset: 91967},
+																										pos: position{line: 2926, col: 11, offset: 92126},
 																										expr: &anyMatcher{
-																											line: 2919, col: 13, offset: 91969,
+																											line: 2926, col: 13, offset: 92128,
 																										},
 																									},
 																									&litMatcher{
@@ -17493,10 +17595,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1131, col: 69, offset: 34976},
 																					expr: &actionExpr{
-																						pos: position{line: 2902, col: 10, offset: 91633},
+																						pos: position{line: 2909, col: 10, offset: 91792},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2902, col: 10, offset: 91633},
+																							pos:        position{line: 2909, col: 10, offset: 91792},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17516,10 +17618,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1131, col: 81, offset: 34988},
 																					expr: &actionExpr{
-																						pos: position{line: 2902, col: 10, offset: 91633},
+																						pos: position{line: 2909, col: 10, offset: 91792},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2902, col: 10, offset: 91633},
+																							pos:        position{line: 2909, col: 10, offset: 91792},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17537,28 +17639,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2924, col: 8, offset: 92031},
+																pos: position{line: 2931, col: 8, offset: 92190},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2911, col: 12, offset: 91804},
+																		pos: position{line: 2918, col: 12, offset: 91963},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2911, col: 13, offset: 91805},
+																			pos: position{line: 2918, col: 13, offset: 91964},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2911, col: 13, offset: 91805},
+																					pos:        position{line: 2918, col: 13, offset: 91964},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2911, col: 20, offset: 91812},
+																					pos:        position{line: 2918, col: 20, offset: 91971},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2911, col: 29, offset: 91821},
+																					pos:        position{line: 2918, col: 29, offset: 91980},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17567,9 +17669,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2921, col: 8, offset: 91981},
+																		pos: position{line: 2928, col: 8, offset: 92140},
 																		expr: &anyMatcher{
-																			line: 2921, col: 9, offset: 91982,
+																			line: 2928, col: 9, offset: 92141,
 																		},
 																	},
 																},
@@ -17608,12 +17710,12 @@ var g = &grammar{
 																		pos:   position{line: 2512, col: 49, offset: 80597},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2848, col: 13, offset: 90159},
+																			pos: position{line: 2855, col: 13, offset: 90318},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2848, col: 13, offset: 90159},
+																				pos: position{line: 2855, col: 13, offset: 90318},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2848, col: 13, offset: 90159},
+																					pos:        position{line: 2855, col: 13, offset: 90318},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17623,28 +17725,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2924, col: 8, offset: 92031},
+																		pos: position{line: 2931, col: 8, offset: 92190},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
+																				pos: position{line: 2918, col: 12, offset: 91963},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17653,9 +17755,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2921, col: 8, offset: 91981},
+																				pos: position{line: 2928, col: 8, offset: 92140},
 																				expr: &anyMatcher{
-																					line: 2921, col: 9, offset: 91982,
+																					line: 2928, col: 9, offset: 92141,
 																				},
 																			},
 																		},
@@ -17706,10 +17808,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 743, col: 8, offset: 23783},
 																					expr: &actionExpr{
-																						pos: position{line: 2902, col: 10, offset: 91633},
+																						pos: position{line: 2909, col: 10, offset: 91792},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2902, col: 10, offset: 91633},
+																							pos:        position{line: 2909, col: 10, offset: 91792},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17718,28 +17820,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2924, col: 8, offset: 92031},
+																					pos: position{line: 2931, col: 8, offset: 92190},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2911, col: 12, offset: 91804},
+																							pos: position{line: 2918, col: 12, offset: 91963},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2911, col: 13, offset: 91805},
+																								pos: position{line: 2918, col: 13, offset: 91964},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 13, offset: 91805},
+																										pos:        position{line: 2918, col: 13, offset: 91964},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 20, offset: 91812},
+																										pos:        position{line: 2918, col: 20, offset: 91971},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 29, offset: 91821},
+																										pos:        position{line: 2918, col: 29, offset: 91980},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17748,9 +17850,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2921, col: 8, offset: 91981},
+																							pos: position{line: 2928, col: 8, offset: 92140},
 																							expr: &anyMatcher{
-																								line: 2921, col: 9, offset: 91982,
+																								line: 2928, col: 9, offset: 92141,
 																							},
 																						},
 																					},
@@ -17811,10 +17913,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 743, col: 8, offset: 23783},
 																													expr: &actionExpr{
-																														pos: position{line: 2902, col: 10, offset: 91633},
+																														pos: position{line: 2909, col: 10, offset: 91792},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2902, col: 10, offset: 91633},
+																															pos:        position{line: 2909, col: 10, offset: 91792},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17823,28 +17925,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2924, col: 8, offset: 92031},
+																													pos: position{line: 2931, col: 8, offset: 92190},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2911, col: 12, offset: 91804},
+																															pos: position{line: 2918, col: 12, offset: 91963},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2911, col: 13, offset: 91805},
+																																pos: position{line: 2918, col: 13, offset: 91964},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2911, col: 13, offset: 91805},
+																																		pos:        position{line: 2918, col: 13, offset: 91964},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2911, col: 20, offset: 91812},
+																																		pos:        position{line: 2918, col: 20, offset: 91971},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2911, col: 29, offset: 91821},
+																																		pos:        position{line: 2918, col: 29, offset: 91980},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17853,9 +17955,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2921, col: 8, offset: 91981},
+																															pos: position{line: 2928, col: 8, offset: 92140},
 																															expr: &anyMatcher{
-																																line: 2921, col: 9, offset: 91982,
+																																line: 2928, col: 9, offset: 92141,
 																															},
 																														},
 																													},
@@ -17864,9 +17966,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2921, col: 8, offset: 91981},
+																										pos: position{line: 2928, col: 8, offset: 92140},
 																										expr: &anyMatcher{
-																											line: 2921, col: 9, offset: 91982,
+																											line: 2928, col: 9, offset: 92141,
 																										},
 																									},
 																								},
@@ -17882,21 +17984,21 @@ var g = &grammar{
 																									pos: position{line: 812, col: 5, offset: 26185},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2919, col: 11, offset: 91967},
+																											pos: position{line: 2926, col: 11, offset: 92126},
 																											expr: &anyMatcher{
-																												line: 2919, col: 13, offset: 91969,
+																												line: 2926, col: 13, offset: 92128,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 813, col: 5, offset: 26260},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2848, col: 13, offset: 90159},
+																												pos: position{line: 2855, col: 13, offset: 90318},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2848, col: 13, offset: 90159},
+																													pos: position{line: 2855, col: 13, offset: 90318},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2848, col: 13, offset: 90159},
+																														pos:        position{line: 2855, col: 13, offset: 90318},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17906,28 +18008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2924, col: 8, offset: 92031},
+																											pos: position{line: 2931, col: 8, offset: 92190},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2911, col: 12, offset: 91804},
+																													pos: position{line: 2918, col: 12, offset: 91963},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2911, col: 13, offset: 91805},
+																														pos: position{line: 2918, col: 13, offset: 91964},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 13, offset: 91805},
+																																pos:        position{line: 2918, col: 13, offset: 91964},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 20, offset: 91812},
+																																pos:        position{line: 2918, col: 20, offset: 91971},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 29, offset: 91821},
+																																pos:        position{line: 2918, col: 29, offset: 91980},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17936,9 +18038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2921, col: 8, offset: 91981},
+																													pos: position{line: 2928, col: 8, offset: 92140},
 																													expr: &anyMatcher{
-																														line: 2921, col: 9, offset: 91982,
+																														line: 2928, col: 9, offset: 92141,
 																													},
 																												},
 																											},
@@ -17994,10 +18096,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23783},
 																								expr: &actionExpr{
-																									pos: position{line: 2902, col: 10, offset: 91633},
+																									pos: position{line: 2909, col: 10, offset: 91792},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2902, col: 10, offset: 91633},
+																										pos:        position{line: 2909, col: 10, offset: 91792},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -18006,28 +18108,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2924, col: 8, offset: 92031},
+																								pos: position{line: 2931, col: 8, offset: 92190},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2911, col: 12, offset: 91804},
+																										pos: position{line: 2918, col: 12, offset: 91963},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2911, col: 13, offset: 91805},
+																											pos: position{line: 2918, col: 13, offset: 91964},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 13, offset: 91805},
+																													pos:        position{line: 2918, col: 13, offset: 91964},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 20, offset: 91812},
+																													pos:        position{line: 2918, col: 20, offset: 91971},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 29, offset: 91821},
+																													pos:        position{line: 2918, col: 29, offset: 91980},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -18036,9 +18138,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2921, col: 8, offset: 91981},
+																										pos: position{line: 2928, col: 8, offset: 92140},
 																										expr: &anyMatcher{
-																											line: 2921, col: 9, offset: 91982,
+																											line: 2928, col: 9, offset: 92141,
 																										},
 																									},
 																								},
@@ -18047,9 +18149,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -18075,10 +18177,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1170, col: 21, offset: 35984},
 																	expr: &actionExpr{
-																		pos: position{line: 2902, col: 10, offset: 91633},
+																		pos: position{line: 2909, col: 10, offset: 91792},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2902, col: 10, offset: 91633},
+																			pos:        position{line: 2909, col: 10, offset: 91792},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18180,10 +18282,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1182, col: 28, offset: 36615},
 																													expr: &actionExpr{
-																														pos: position{line: 2902, col: 10, offset: 91633},
+																														pos: position{line: 2909, col: 10, offset: 91792},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2902, col: 10, offset: 91633},
+																															pos:        position{line: 2909, col: 10, offset: 91792},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18330,28 +18432,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2924, col: 8, offset: 92031},
+																	pos: position{line: 2931, col: 8, offset: 92190},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2911, col: 12, offset: 91804},
+																			pos: position{line: 2918, col: 12, offset: 91963},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2911, col: 13, offset: 91805},
+																				pos: position{line: 2918, col: 13, offset: 91964},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 13, offset: 91805},
+																						pos:        position{line: 2918, col: 13, offset: 91964},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 20, offset: 91812},
+																						pos:        position{line: 2918, col: 20, offset: 91971},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 29, offset: 91821},
+																						pos:        position{line: 2918, col: 29, offset: 91980},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18360,9 +18462,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2921, col: 8, offset: 91981},
+																			pos: position{line: 2928, col: 8, offset: 92140},
 																			expr: &anyMatcher{
-																				line: 2921, col: 9, offset: 91982,
+																				line: 2928, col: 9, offset: 92141,
 																			},
 																		},
 																	},
@@ -18442,10 +18544,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2902, col: 10, offset: 91633},
+															pos: position{line: 2909, col: 10, offset: 91792},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2902, col: 10, offset: 91633},
+																pos:        position{line: 2909, col: 10, offset: 91792},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18454,28 +18556,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2924, col: 8, offset: 92031},
+														pos: position{line: 2931, col: 8, offset: 92190},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2911, col: 12, offset: 91804},
+																pos: position{line: 2918, col: 12, offset: 91963},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2911, col: 13, offset: 91805},
+																	pos: position{line: 2918, col: 13, offset: 91964},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 13, offset: 91805},
+																			pos:        position{line: 2918, col: 13, offset: 91964},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 20, offset: 91812},
+																			pos:        position{line: 2918, col: 20, offset: 91971},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 29, offset: 91821},
+																			pos:        position{line: 2918, col: 29, offset: 91980},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18484,9 +18586,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2921, col: 8, offset: 91981},
+																pos: position{line: 2928, col: 8, offset: 92140},
 																expr: &anyMatcher{
-																	line: 2921, col: 9, offset: 91982,
+																	line: 2928, col: 9, offset: 92141,
 																},
 															},
 														},
@@ -18547,10 +18649,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2902, col: 10, offset: 91633},
+															pos: position{line: 2909, col: 10, offset: 91792},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2902, col: 10, offset: 91633},
+																pos:        position{line: 2909, col: 10, offset: 91792},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18559,28 +18661,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2924, col: 8, offset: 92031},
+														pos: position{line: 2931, col: 8, offset: 92190},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2911, col: 12, offset: 91804},
+																pos: position{line: 2918, col: 12, offset: 91963},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2911, col: 13, offset: 91805},
+																	pos: position{line: 2918, col: 13, offset: 91964},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 13, offset: 91805},
+																			pos:        position{line: 2918, col: 13, offset: 91964},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 20, offset: 91812},
+																			pos:        position{line: 2918, col: 20, offset: 91971},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 29, offset: 91821},
+																			pos:        position{line: 2918, col: 29, offset: 91980},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18589,9 +18691,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2921, col: 8, offset: 91981},
+																pos: position{line: 2928, col: 8, offset: 92140},
 																expr: &anyMatcher{
-																	line: 2921, col: 9, offset: 91982,
+																	line: 2928, col: 9, offset: 92141,
 																},
 															},
 														},
@@ -18624,12 +18726,12 @@ var g = &grammar{
 														pos:   position{line: 2512, col: 49, offset: 80597},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2848, col: 13, offset: 90159},
+															pos: position{line: 2855, col: 13, offset: 90318},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2848, col: 13, offset: 90159},
+																pos: position{line: 2855, col: 13, offset: 90318},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2848, col: 13, offset: 90159},
+																	pos:        position{line: 2855, col: 13, offset: 90318},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18639,28 +18741,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2924, col: 8, offset: 92031},
+														pos: position{line: 2931, col: 8, offset: 92190},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2911, col: 12, offset: 91804},
+																pos: position{line: 2918, col: 12, offset: 91963},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2911, col: 13, offset: 91805},
+																	pos: position{line: 2918, col: 13, offset: 91964},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 13, offset: 91805},
+																			pos:        position{line: 2918, col: 13, offset: 91964},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 20, offset: 91812},
+																			pos:        position{line: 2918, col: 20, offset: 91971},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 29, offset: 91821},
+																			pos:        position{line: 2918, col: 29, offset: 91980},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18669,9 +18771,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2921, col: 8, offset: 91981},
+																pos: position{line: 2928, col: 8, offset: 92140},
 																expr: &anyMatcher{
-																	line: 2921, col: 9, offset: 91982,
+																	line: 2928, col: 9, offset: 92141,
 																},
 															},
 														},
@@ -18722,10 +18824,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 743, col: 8, offset: 23783},
 																	expr: &actionExpr{
-																		pos: position{line: 2902, col: 10, offset: 91633},
+																		pos: position{line: 2909, col: 10, offset: 91792},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2902, col: 10, offset: 91633},
+																			pos:        position{line: 2909, col: 10, offset: 91792},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18734,28 +18836,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2924, col: 8, offset: 92031},
+																	pos: position{line: 2931, col: 8, offset: 92190},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2911, col: 12, offset: 91804},
+																			pos: position{line: 2918, col: 12, offset: 91963},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2911, col: 13, offset: 91805},
+																				pos: position{line: 2918, col: 13, offset: 91964},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 13, offset: 91805},
+																						pos:        position{line: 2918, col: 13, offset: 91964},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 20, offset: 91812},
+																						pos:        position{line: 2918, col: 20, offset: 91971},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 29, offset: 91821},
+																						pos:        position{line: 2918, col: 29, offset: 91980},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18764,9 +18866,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2921, col: 8, offset: 91981},
+																			pos: position{line: 2928, col: 8, offset: 92140},
 																			expr: &anyMatcher{
-																				line: 2921, col: 9, offset: 91982,
+																				line: 2928, col: 9, offset: 92141,
 																			},
 																		},
 																	},
@@ -18827,10 +18929,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 743, col: 8, offset: 23783},
 																									expr: &actionExpr{
-																										pos: position{line: 2902, col: 10, offset: 91633},
+																										pos: position{line: 2909, col: 10, offset: 91792},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2902, col: 10, offset: 91633},
+																											pos:        position{line: 2909, col: 10, offset: 91792},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18839,28 +18941,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2924, col: 8, offset: 92031},
+																									pos: position{line: 2931, col: 8, offset: 92190},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2911, col: 12, offset: 91804},
+																											pos: position{line: 2918, col: 12, offset: 91963},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2911, col: 13, offset: 91805},
+																												pos: position{line: 2918, col: 13, offset: 91964},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 13, offset: 91805},
+																														pos:        position{line: 2918, col: 13, offset: 91964},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 20, offset: 91812},
+																														pos:        position{line: 2918, col: 20, offset: 91971},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 29, offset: 91821},
+																														pos:        position{line: 2918, col: 29, offset: 91980},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18869,9 +18971,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2921, col: 8, offset: 91981},
+																											pos: position{line: 2928, col: 8, offset: 92140},
 																											expr: &anyMatcher{
-																												line: 2921, col: 9, offset: 91982,
+																												line: 2928, col: 9, offset: 92141,
 																											},
 																										},
 																									},
@@ -18880,9 +18982,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2921, col: 8, offset: 91981},
+																						pos: position{line: 2928, col: 8, offset: 92140},
 																						expr: &anyMatcher{
-																							line: 2921, col: 9, offset: 91982,
+																							line: 2928, col: 9, offset: 92141,
 																						},
 																					},
 																				},
@@ -18898,21 +19000,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2919, col: 11, offset: 91967},
+																							pos: position{line: 2926, col: 11, offset: 92126},
 																							expr: &anyMatcher{
-																								line: 2919, col: 13, offset: 91969,
+																								line: 2926, col: 13, offset: 92128,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2848, col: 13, offset: 90159},
+																								pos: position{line: 2855, col: 13, offset: 90318},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2848, col: 13, offset: 90159},
+																									pos: position{line: 2855, col: 13, offset: 90318},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2848, col: 13, offset: 90159},
+																										pos:        position{line: 2855, col: 13, offset: 90318},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18922,28 +19024,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18952,9 +19054,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -19010,10 +19112,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 743, col: 8, offset: 23783},
 																				expr: &actionExpr{
-																					pos: position{line: 2902, col: 10, offset: 91633},
+																					pos: position{line: 2909, col: 10, offset: 91792},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2902, col: 10, offset: 91633},
+																						pos:        position{line: 2909, col: 10, offset: 91792},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -19022,28 +19124,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2924, col: 8, offset: 92031},
+																				pos: position{line: 2931, col: 8, offset: 92190},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2911, col: 12, offset: 91804},
+																						pos: position{line: 2918, col: 12, offset: 91963},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2911, col: 13, offset: 91805},
+																							pos: position{line: 2918, col: 13, offset: 91964},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2911, col: 13, offset: 91805},
+																									pos:        position{line: 2918, col: 13, offset: 91964},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2911, col: 20, offset: 91812},
+																									pos:        position{line: 2918, col: 20, offset: 91971},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2911, col: 29, offset: 91821},
+																									pos:        position{line: 2918, col: 29, offset: 91980},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -19052,9 +19154,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2921, col: 8, offset: 91981},
+																						pos: position{line: 2928, col: 8, offset: 92140},
 																						expr: &anyMatcher{
-																							line: 2921, col: 9, offset: 91982,
+																							line: 2928, col: 9, offset: 92141,
 																						},
 																					},
 																				},
@@ -19063,9 +19165,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2921, col: 8, offset: 91981},
+																	pos: position{line: 2928, col: 8, offset: 92140},
 																	expr: &anyMatcher{
-																		line: 2921, col: 9, offset: 91982,
+																		line: 2928, col: 9, offset: 92141,
 																	},
 																},
 															},
@@ -19098,12 +19200,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2906, col: 11, offset: 91694},
+							pos: position{line: 2913, col: 11, offset: 91853},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2906, col: 11, offset: 91694},
+								pos: position{line: 2913, col: 11, offset: 91853},
 								expr: &charClassMatcher{
-									pos:        position{line: 2906, col: 11, offset: 91694},
+									pos:        position{line: 2913, col: 11, offset: 91853},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19120,28 +19222,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2924, col: 8, offset: 92031},
+							pos: position{line: 2931, col: 8, offset: 92190},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2911, col: 12, offset: 91804},
+									pos: position{line: 2918, col: 12, offset: 91963},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2911, col: 13, offset: 91805},
+										pos: position{line: 2918, col: 13, offset: 91964},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2911, col: 13, offset: 91805},
+												pos:        position{line: 2918, col: 13, offset: 91964},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2911, col: 20, offset: 91812},
+												pos:        position{line: 2918, col: 20, offset: 91971},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2911, col: 29, offset: 91821},
+												pos:        position{line: 2918, col: 29, offset: 91980},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19150,9 +19252,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2921, col: 8, offset: 91981},
+									pos: position{line: 2928, col: 8, offset: 92140},
 									expr: &anyMatcher{
-										line: 2921, col: 9, offset: 91982,
+										line: 2928, col: 9, offset: 92141,
 									},
 								},
 							},
@@ -19191,10 +19293,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1145, col: 5, offset: 35388},
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 10, offset: 91633},
+								pos: position{line: 2909, col: 10, offset: 91792},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2902, col: 10, offset: 91633},
+									pos:        position{line: 2909, col: 10, offset: 91792},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19226,10 +19328,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1149, col: 5, offset: 35487},
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 10, offset: 91633},
+								pos: position{line: 2909, col: 10, offset: 91792},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2902, col: 10, offset: 91633},
+									pos:        position{line: 2909, col: 10, offset: 91792},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19261,10 +19363,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1153, col: 5, offset: 35584},
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 10, offset: 91633},
+								pos: position{line: 2909, col: 10, offset: 91792},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2902, col: 10, offset: 91633},
+									pos:        position{line: 2909, col: 10, offset: 91792},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19330,12 +19432,12 @@ var g = &grammar{
 							pos:   position{line: 1281, col: 13, offset: 39786},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2887, col: 7, offset: 91285},
+								pos: position{line: 2894, col: 7, offset: 91444},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2887, col: 7, offset: 91285},
+									pos: position{line: 2894, col: 7, offset: 91444},
 									expr: &charClassMatcher{
-										pos:        position{line: 2887, col: 7, offset: 91285},
+										pos:        position{line: 2894, col: 7, offset: 91444},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19404,12 +19506,12 @@ var g = &grammar{
 							pos: position{line: 1292, col: 31, offset: 40246},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2796, col: 14, offset: 88802},
+									pos: position{line: 2803, col: 14, offset: 88961},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2796, col: 14, offset: 88802},
+										pos: position{line: 2803, col: 14, offset: 88961},
 										expr: &charClassMatcher{
-											pos:        position{line: 2796, col: 14, offset: 88802},
+											pos:        position{line: 2803, col: 14, offset: 88961},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19422,10 +19524,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2902, col: 10, offset: 91633},
+									pos: position{line: 2909, col: 10, offset: 91792},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2902, col: 10, offset: 91633},
+										pos:        position{line: 2909, col: 10, offset: 91792},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19545,48 +19647,48 @@ var g = &grammar{
 							pos:   position{line: 1313, col: 15, offset: 41064},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2860, col: 13, offset: 90392},
+								pos: position{line: 2867, col: 13, offset: 90551},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2860, col: 13, offset: 90392},
+									pos: position{line: 2867, col: 13, offset: 90551},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2860, col: 13, offset: 90392},
+											pos:   position{line: 2867, col: 13, offset: 90551},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2860, col: 20, offset: 90399},
+												pos: position{line: 2867, col: 20, offset: 90558},
 												expr: &actionExpr{
-													pos: position{line: 2868, col: 11, offset: 90638},
+													pos: position{line: 2875, col: 11, offset: 90797},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2868, col: 12, offset: 90639},
+														pos: position{line: 2875, col: 12, offset: 90798},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2868, col: 12, offset: 90639},
+																pos:        position{line: 2875, col: 12, offset: 90798},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2868, col: 24, offset: 90651},
+																pos:        position{line: 2875, col: 24, offset: 90810},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2868, col: 37, offset: 90664},
+																pos:        position{line: 2875, col: 37, offset: 90823},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2868, col: 48, offset: 90675},
+																pos:        position{line: 2875, col: 48, offset: 90834},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2868, col: 59, offset: 90686},
+																pos:        position{line: 2875, col: 59, offset: 90845},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19597,38 +19699,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2860, col: 30, offset: 90409},
+											pos:   position{line: 2867, col: 30, offset: 90568},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2873, col: 5, offset: 90750},
+												pos: position{line: 2880, col: 5, offset: 90909},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2873, col: 5, offset: 90750},
+													pos:   position{line: 2880, col: 5, offset: 90909},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2873, col: 14, offset: 90759},
+														pos: position{line: 2880, col: 14, offset: 90918},
 														expr: &choiceExpr{
-															pos: position{line: 2874, col: 9, offset: 90769},
+															pos: position{line: 2881, col: 9, offset: 90928},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2874, col: 9, offset: 90769},
+																	pos: position{line: 2881, col: 9, offset: 90928},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2874, col: 9, offset: 90769},
+																		pos: position{line: 2881, col: 9, offset: 90928},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2874, col: 9, offset: 90769},
+																				pos: position{line: 2881, col: 9, offset: 90928},
 																				expr: &litMatcher{
-																					pos:        position{line: 2874, col: 10, offset: 90770},
+																					pos:        position{line: 2881, col: 10, offset: 90929},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2875, col: 9, offset: 90798},
+																				pos: position{line: 2882, col: 9, offset: 90957},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2875, col: 10, offset: 90799},
+																					pos:        position{line: 2882, col: 10, offset: 90958},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19639,27 +19741,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2878, col: 11, offset: 91011},
+																	pos: position{line: 2885, col: 11, offset: 91170},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2878, col: 11, offset: 91011},
+																			pos:        position{line: 2885, col: 11, offset: 91170},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2878, col: 19, offset: 91019},
+																			pos: position{line: 2885, col: 19, offset: 91178},
 																			expr: &seqExpr{
-																				pos: position{line: 2878, col: 21, offset: 91021},
+																				pos: position{line: 2885, col: 21, offset: 91180},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2878, col: 21, offset: 91021},
+																						pos: position{line: 2885, col: 21, offset: 91180},
 																						expr: &actionExpr{
-																							pos: position{line: 2902, col: 10, offset: 91633},
+																							pos: position{line: 2909, col: 10, offset: 91792},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2902, col: 10, offset: 91633},
+																								pos:        position{line: 2909, col: 10, offset: 91792},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19668,11 +19770,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2878, col: 28, offset: 91028},
+																						pos: position{line: 2885, col: 28, offset: 91187},
 																						expr: &notExpr{
-																							pos: position{line: 2921, col: 8, offset: 91981},
+																							pos: position{line: 2928, col: 8, offset: 92140},
 																							expr: &anyMatcher{
-																								line: 2921, col: 9, offset: 91982,
+																								line: 2928, col: 9, offset: 92141,
 																							},
 																						},
 																					},
@@ -20067,10 +20169,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91148},
+																	pos: position{line: 2888, col: 11, offset: 91307},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2881, col: 11, offset: 91148},
+																		pos:        position{line: 2888, col: 11, offset: 91307},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20097,10 +20199,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1313, col: 61, offset: 41110},
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 10, offset: 91633},
+								pos: position{line: 2909, col: 10, offset: 91792},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2902, col: 10, offset: 91633},
+									pos:        position{line: 2909, col: 10, offset: 91792},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20109,28 +20211,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2924, col: 8, offset: 92031},
+							pos: position{line: 2931, col: 8, offset: 92190},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2911, col: 12, offset: 91804},
+									pos: position{line: 2918, col: 12, offset: 91963},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2911, col: 13, offset: 91805},
+										pos: position{line: 2918, col: 13, offset: 91964},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2911, col: 13, offset: 91805},
+												pos:        position{line: 2918, col: 13, offset: 91964},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2911, col: 20, offset: 91812},
+												pos:        position{line: 2918, col: 20, offset: 91971},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2911, col: 29, offset: 91821},
+												pos:        position{line: 2918, col: 29, offset: 91980},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20139,9 +20241,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2921, col: 8, offset: 91981},
+									pos: position{line: 2928, col: 8, offset: 92140},
 									expr: &anyMatcher{
-										line: 2921, col: 9, offset: 91982,
+										line: 2928, col: 9, offset: 92141,
 									},
 								},
 							},
@@ -20178,48 +20280,48 @@ var g = &grammar{
 							pos:   position{line: 1318, col: 30, offset: 41356},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2860, col: 13, offset: 90392},
+								pos: position{line: 2867, col: 13, offset: 90551},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2860, col: 13, offset: 90392},
+									pos: position{line: 2867, col: 13, offset: 90551},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2860, col: 13, offset: 90392},
+											pos:   position{line: 2867, col: 13, offset: 90551},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2860, col: 20, offset: 90399},
+												pos: position{line: 2867, col: 20, offset: 90558},
 												expr: &actionExpr{
-													pos: position{line: 2868, col: 11, offset: 90638},
+													pos: position{line: 2875, col: 11, offset: 90797},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2868, col: 12, offset: 90639},
+														pos: position{line: 2875, col: 12, offset: 90798},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2868, col: 12, offset: 90639},
+																pos:        position{line: 2875, col: 12, offset: 90798},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2868, col: 24, offset: 90651},
+																pos:        position{line: 2875, col: 24, offset: 90810},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2868, col: 37, offset: 90664},
+																pos:        position{line: 2875, col: 37, offset: 90823},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2868, col: 48, offset: 90675},
+																pos:        position{line: 2875, col: 48, offset: 90834},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2868, col: 59, offset: 90686},
+																pos:        position{line: 2875, col: 59, offset: 90845},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20230,38 +20332,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2860, col: 30, offset: 90409},
+											pos:   position{line: 2867, col: 30, offset: 90568},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2873, col: 5, offset: 90750},
+												pos: position{line: 2880, col: 5, offset: 90909},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2873, col: 5, offset: 90750},
+													pos:   position{line: 2880, col: 5, offset: 90909},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2873, col: 14, offset: 90759},
+														pos: position{line: 2880, col: 14, offset: 90918},
 														expr: &choiceExpr{
-															pos: position{line: 2874, col: 9, offset: 90769},
+															pos: position{line: 2881, col: 9, offset: 90928},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2874, col: 9, offset: 90769},
+																	pos: position{line: 2881, col: 9, offset: 90928},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2874, col: 9, offset: 90769},
+																		pos: position{line: 2881, col: 9, offset: 90928},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2874, col: 9, offset: 90769},
+																				pos: position{line: 2881, col: 9, offset: 90928},
 																				expr: &litMatcher{
-																					pos:        position{line: 2874, col: 10, offset: 90770},
+																					pos:        position{line: 2881, col: 10, offset: 90929},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2875, col: 9, offset: 90798},
+																				pos: position{line: 2882, col: 9, offset: 90957},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2875, col: 10, offset: 90799},
+																					pos:        position{line: 2882, col: 10, offset: 90958},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20272,27 +20374,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2878, col: 11, offset: 91011},
+																	pos: position{line: 2885, col: 11, offset: 91170},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2878, col: 11, offset: 91011},
+																			pos:        position{line: 2885, col: 11, offset: 91170},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2878, col: 19, offset: 91019},
+																			pos: position{line: 2885, col: 19, offset: 91178},
 																			expr: &seqExpr{
-																				pos: position{line: 2878, col: 21, offset: 91021},
+																				pos: position{line: 2885, col: 21, offset: 91180},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2878, col: 21, offset: 91021},
+																						pos: position{line: 2885, col: 21, offset: 91180},
 																						expr: &actionExpr{
-																							pos: position{line: 2902, col: 10, offset: 91633},
+																							pos: position{line: 2909, col: 10, offset: 91792},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2902, col: 10, offset: 91633},
+																								pos:        position{line: 2909, col: 10, offset: 91792},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20301,11 +20403,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2878, col: 28, offset: 91028},
+																						pos: position{line: 2885, col: 28, offset: 91187},
 																						expr: &notExpr{
-																							pos: position{line: 2921, col: 8, offset: 91981},
+																							pos: position{line: 2928, col: 8, offset: 92140},
 																							expr: &anyMatcher{
-																								line: 2921, col: 9, offset: 91982,
+																								line: 2928, col: 9, offset: 92141,
 																							},
 																						},
 																					},
@@ -20700,10 +20802,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91148},
+																	pos: position{line: 2888, col: 11, offset: 91307},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2881, col: 11, offset: 91148},
+																		pos:        position{line: 2888, col: 11, offset: 91307},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20798,12 +20900,12 @@ var g = &grammar{
 							expr: &zeroOrOneExpr{
 								pos: position{line: 1332, col: 35, offset: 42264},
 								expr: &actionExpr{
-									pos: position{line: 2796, col: 14, offset: 88802},
+									pos: position{line: 2803, col: 14, offset: 88961},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2796, col: 14, offset: 88802},
+										pos: position{line: 2803, col: 14, offset: 88961},
 										expr: &charClassMatcher{
-											pos:        position{line: 2796, col: 14, offset: 88802},
+											pos:        position{line: 2803, col: 14, offset: 88961},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20890,21 +20992,21 @@ var g = &grammar{
 								pos: position{line: 1350, col: 9, offset: 42758},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2801, col: 5, offset: 88875},
+										pos: position{line: 2808, col: 5, offset: 89034},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2801, col: 5, offset: 88875},
+											pos: position{line: 2808, col: 5, offset: 89034},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2801, col: 5, offset: 88875},
+													pos:   position{line: 2808, col: 5, offset: 89034},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2801, col: 11, offset: 88881},
+														pos: position{line: 2808, col: 11, offset: 89040},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2801, col: 11, offset: 88881},
+															pos: position{line: 2808, col: 11, offset: 89040},
 															expr: &charClassMatcher{
-																pos:        position{line: 2801, col: 11, offset: 88881},
+																pos:        position{line: 2808, col: 11, offset: 89040},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20914,36 +21016,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2804, col: 5, offset: 88939},
+													pos: position{line: 2811, col: 5, offset: 89098},
 													expr: &seqExpr{
-														pos: position{line: 2805, col: 9, offset: 88950},
+														pos: position{line: 2812, col: 9, offset: 89109},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2805, col: 9, offset: 88950},
+																pos:        position{line: 2812, col: 9, offset: 89109},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2806, col: 9, offset: 88999},
+																pos: position{line: 2813, col: 9, offset: 89158},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2810, col: 5, offset: 89079},
+													pos: position{line: 2817, col: 5, offset: 89238},
 													expr: &seqExpr{
-														pos: position{line: 2811, col: 9, offset: 89090},
+														pos: position{line: 2818, col: 9, offset: 89249},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2811, col: 9, offset: 89090},
+																pos:        position{line: 2818, col: 9, offset: 89249},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2811, col: 13, offset: 89094},
+																pos:        position{line: 2818, col: 13, offset: 89253},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20956,12 +21058,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2906, col: 11, offset: 91694},
+										pos: position{line: 2913, col: 11, offset: 91853},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2906, col: 11, offset: 91694},
+											pos: position{line: 2913, col: 11, offset: 91853},
 											expr: &charClassMatcher{
-												pos:        position{line: 2906, col: 11, offset: 91694},
+												pos:        position{line: 2913, col: 11, offset: 91853},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21036,27 +21138,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2819, col: 5, offset: 89287},
+										pos: position{line: 2826, col: 5, offset: 89446},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2820, col: 9, offset: 89297},
+											pos: position{line: 2827, col: 9, offset: 89456},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2820, col: 10, offset: 89298},
+													pos:        position{line: 2827, col: 10, offset: 89457},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2822, col: 13, offset: 89395},
+													pos: position{line: 2829, col: 13, offset: 89554},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2822, col: 13, offset: 89395},
+															pos: position{line: 2829, col: 13, offset: 89554},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2825, col: 13, offset: 89495},
+															pos:        position{line: 2832, col: 13, offset: 89654},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21064,20 +21166,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2825, col: 19, offset: 89501},
+													pos:        position{line: 2832, col: 19, offset: 89660},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2828, col: 13, offset: 89539},
+													pos: position{line: 2835, col: 13, offset: 89698},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2828, col: 13, offset: 89539},
+															pos: position{line: 2835, col: 13, offset: 89698},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2831, col: 14, offset: 89632},
+															pos:        position{line: 2838, col: 14, offset: 89791},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21086,18 +21188,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2833, col: 12, offset: 89676},
+													pos: position{line: 2840, col: 12, offset: 89835},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2833, col: 12, offset: 89676},
+															pos:        position{line: 2840, col: 12, offset: 89835},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2833, col: 16, offset: 89680},
+															pos: position{line: 2840, col: 16, offset: 89839},
 															expr: &litMatcher{
-																pos:        position{line: 2833, col: 17, offset: 89681},
+																pos:        position{line: 2840, col: 17, offset: 89840},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21135,10 +21237,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1215, col: 5, offset: 37686},
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 10, offset: 91633},
+														pos: position{line: 2909, col: 10, offset: 91792},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2902, col: 10, offset: 91633},
+															pos:        position{line: 2909, col: 10, offset: 91792},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21149,28 +21251,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1215, col: 12, offset: 37693},
 													expr: &choiceExpr{
-														pos: position{line: 2924, col: 8, offset: 92031},
+														pos: position{line: 2931, col: 8, offset: 92190},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2911, col: 12, offset: 91804},
+																pos: position{line: 2918, col: 12, offset: 91963},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2911, col: 13, offset: 91805},
+																	pos: position{line: 2918, col: 13, offset: 91964},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 13, offset: 91805},
+																			pos:        position{line: 2918, col: 13, offset: 91964},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 20, offset: 91812},
+																			pos:        position{line: 2918, col: 20, offset: 91971},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 29, offset: 91821},
+																			pos:        position{line: 2918, col: 29, offset: 91980},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21179,9 +21281,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2921, col: 8, offset: 91981},
+																pos: position{line: 2928, col: 8, offset: 92140},
 																expr: &anyMatcher{
-																	line: 2921, col: 9, offset: 91982,
+																	line: 2928, col: 9, offset: 92141,
 																},
 															},
 														},
@@ -21565,25 +21667,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2911, col: 12, offset: 91804},
+										pos: position{line: 2918, col: 12, offset: 91963},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2911, col: 13, offset: 91805},
+											pos: position{line: 2918, col: 13, offset: 91964},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2911, col: 13, offset: 91805},
+													pos:        position{line: 2918, col: 13, offset: 91964},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2911, col: 20, offset: 91812},
+													pos:        position{line: 2918, col: 20, offset: 91971},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2911, col: 29, offset: 91821},
+													pos:        position{line: 2918, col: 29, offset: 91980},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21592,10 +21694,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2841, col: 12, offset: 89941},
+										pos: position{line: 2848, col: 12, offset: 90100},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2841, col: 12, offset: 89941},
+											pos:        position{line: 2848, col: 12, offset: 90100},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21727,55 +21829,55 @@ var g = &grammar{
 									pos:   position{line: 1412, col: 5, offset: 45464},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2864, col: 23, offset: 90519},
+										pos: position{line: 2871, col: 23, offset: 90678},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2864, col: 23, offset: 90519},
+											pos: position{line: 2871, col: 23, offset: 90678},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2864, col: 23, offset: 90519},
+													pos: position{line: 2871, col: 23, offset: 90678},
 													expr: &litMatcher{
-														pos:        position{line: 2864, col: 24, offset: 90520},
+														pos:        position{line: 2871, col: 24, offset: 90679},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2864, col: 28, offset: 90524},
+													pos:   position{line: 2871, col: 28, offset: 90683},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 11, offset: 90638},
+														pos: position{line: 2875, col: 11, offset: 90797},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2868, col: 12, offset: 90639},
+															pos: position{line: 2875, col: 12, offset: 90798},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2868, col: 12, offset: 90639},
+																	pos:        position{line: 2875, col: 12, offset: 90798},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2868, col: 24, offset: 90651},
+																	pos:        position{line: 2875, col: 24, offset: 90810},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2868, col: 37, offset: 90664},
+																	pos:        position{line: 2875, col: 37, offset: 90823},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2868, col: 48, offset: 90675},
+																	pos:        position{line: 2875, col: 48, offset: 90834},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2868, col: 59, offset: 90686},
+																	pos:        position{line: 2875, col: 59, offset: 90845},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21785,38 +21887,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2864, col: 44, offset: 90540},
+													pos:   position{line: 2871, col: 44, offset: 90699},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 5, offset: 90750},
+														pos: position{line: 2880, col: 5, offset: 90909},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2873, col: 5, offset: 90750},
+															pos:   position{line: 2880, col: 5, offset: 90909},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2873, col: 14, offset: 90759},
+																pos: position{line: 2880, col: 14, offset: 90918},
 																expr: &choiceExpr{
-																	pos: position{line: 2874, col: 9, offset: 90769},
+																	pos: position{line: 2881, col: 9, offset: 90928},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 9, offset: 90769},
+																			pos: position{line: 2881, col: 9, offset: 90928},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2874, col: 9, offset: 90769},
+																				pos: position{line: 2881, col: 9, offset: 90928},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2874, col: 9, offset: 90769},
+																						pos: position{line: 2881, col: 9, offset: 90928},
 																						expr: &litMatcher{
-																							pos:        position{line: 2874, col: 10, offset: 90770},
+																							pos:        position{line: 2881, col: 10, offset: 90929},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2875, col: 9, offset: 90798},
+																						pos: position{line: 2882, col: 9, offset: 90957},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2875, col: 10, offset: 90799},
+																							pos:        position{line: 2882, col: 10, offset: 90958},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21827,27 +21929,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2878, col: 11, offset: 91011},
+																			pos: position{line: 2885, col: 11, offset: 91170},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2878, col: 11, offset: 91011},
+																					pos:        position{line: 2885, col: 11, offset: 91170},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2878, col: 19, offset: 91019},
+																					pos: position{line: 2885, col: 19, offset: 91178},
 																					expr: &seqExpr{
-																						pos: position{line: 2878, col: 21, offset: 91021},
+																						pos: position{line: 2885, col: 21, offset: 91180},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2878, col: 21, offset: 91021},
+																								pos: position{line: 2885, col: 21, offset: 91180},
 																								expr: &actionExpr{
-																									pos: position{line: 2902, col: 10, offset: 91633},
+																									pos: position{line: 2909, col: 10, offset: 91792},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2902, col: 10, offset: 91633},
+																										pos:        position{line: 2909, col: 10, offset: 91792},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21856,11 +21958,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2878, col: 28, offset: 91028},
+																								pos: position{line: 2885, col: 28, offset: 91187},
 																								expr: &notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -22255,10 +22357,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2881, col: 11, offset: 91148},
+																			pos: position{line: 2888, col: 11, offset: 91307},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2881, col: 11, offset: 91148},
+																				pos:        position{line: 2888, col: 11, offset: 91307},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22433,48 +22535,48 @@ var g = &grammar{
 									pos:   position{line: 1425, col: 17, offset: 45879},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2860, col: 13, offset: 90392},
+										pos: position{line: 2867, col: 13, offset: 90551},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2860, col: 13, offset: 90392},
+											pos: position{line: 2867, col: 13, offset: 90551},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2860, col: 13, offset: 90392},
+													pos:   position{line: 2867, col: 13, offset: 90551},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2860, col: 20, offset: 90399},
+														pos: position{line: 2867, col: 20, offset: 90558},
 														expr: &actionExpr{
-															pos: position{line: 2868, col: 11, offset: 90638},
+															pos: position{line: 2875, col: 11, offset: 90797},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2868, col: 12, offset: 90639},
+																pos: position{line: 2875, col: 12, offset: 90798},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2868, col: 12, offset: 90639},
+																		pos:        position{line: 2875, col: 12, offset: 90798},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2868, col: 24, offset: 90651},
+																		pos:        position{line: 2875, col: 24, offset: 90810},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2868, col: 37, offset: 90664},
+																		pos:        position{line: 2875, col: 37, offset: 90823},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2868, col: 48, offset: 90675},
+																		pos:        position{line: 2875, col: 48, offset: 90834},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2868, col: 59, offset: 90686},
+																		pos:        position{line: 2875, col: 59, offset: 90845},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22485,38 +22587,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2860, col: 30, offset: 90409},
+													pos:   position{line: 2867, col: 30, offset: 90568},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 5, offset: 90750},
+														pos: position{line: 2880, col: 5, offset: 90909},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2873, col: 5, offset: 90750},
+															pos:   position{line: 2880, col: 5, offset: 90909},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2873, col: 14, offset: 90759},
+																pos: position{line: 2880, col: 14, offset: 90918},
 																expr: &choiceExpr{
-																	pos: position{line: 2874, col: 9, offset: 90769},
+																	pos: position{line: 2881, col: 9, offset: 90928},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 9, offset: 90769},
+																			pos: position{line: 2881, col: 9, offset: 90928},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2874, col: 9, offset: 90769},
+																				pos: position{line: 2881, col: 9, offset: 90928},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2874, col: 9, offset: 90769},
+																						pos: position{line: 2881, col: 9, offset: 90928},
 																						expr: &litMatcher{
-																							pos:        position{line: 2874, col: 10, offset: 90770},
+																							pos:        position{line: 2881, col: 10, offset: 90929},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2875, col: 9, offset: 90798},
+																						pos: position{line: 2882, col: 9, offset: 90957},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2875, col: 10, offset: 90799},
+																							pos:        position{line: 2882, col: 10, offset: 90958},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22527,27 +22629,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2878, col: 11, offset: 91011},
+																			pos: position{line: 2885, col: 11, offset: 91170},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2878, col: 11, offset: 91011},
+																					pos:        position{line: 2885, col: 11, offset: 91170},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2878, col: 19, offset: 91019},
+																					pos: position{line: 2885, col: 19, offset: 91178},
 																					expr: &seqExpr{
-																						pos: position{line: 2878, col: 21, offset: 91021},
+																						pos: position{line: 2885, col: 21, offset: 91180},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2878, col: 21, offset: 91021},
+																								pos: position{line: 2885, col: 21, offset: 91180},
 																								expr: &actionExpr{
-																									pos: position{line: 2902, col: 10, offset: 91633},
+																									pos: position{line: 2909, col: 10, offset: 91792},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2902, col: 10, offset: 91633},
+																										pos:        position{line: 2909, col: 10, offset: 91792},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22556,11 +22658,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2878, col: 28, offset: 91028},
+																								pos: position{line: 2885, col: 28, offset: 91187},
 																								expr: &notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -22955,10 +23057,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2881, col: 11, offset: 91148},
+																			pos: position{line: 2888, col: 11, offset: 91307},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2881, col: 11, offset: 91148},
+																				pos:        position{line: 2888, col: 11, offset: 91307},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23001,48 +23103,48 @@ var g = &grammar{
 									pos:   position{line: 1430, col: 13, offset: 46046},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2860, col: 13, offset: 90392},
+										pos: position{line: 2867, col: 13, offset: 90551},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2860, col: 13, offset: 90392},
+											pos: position{line: 2867, col: 13, offset: 90551},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2860, col: 13, offset: 90392},
+													pos:   position{line: 2867, col: 13, offset: 90551},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2860, col: 20, offset: 90399},
+														pos: position{line: 2867, col: 20, offset: 90558},
 														expr: &actionExpr{
-															pos: position{line: 2868, col: 11, offset: 90638},
+															pos: position{line: 2875, col: 11, offset: 90797},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2868, col: 12, offset: 90639},
+																pos: position{line: 2875, col: 12, offset: 90798},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2868, col: 12, offset: 90639},
+																		pos:        position{line: 2875, col: 12, offset: 90798},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2868, col: 24, offset: 90651},
+																		pos:        position{line: 2875, col: 24, offset: 90810},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2868, col: 37, offset: 90664},
+																		pos:        position{line: 2875, col: 37, offset: 90823},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2868, col: 48, offset: 90675},
+																		pos:        position{line: 2875, col: 48, offset: 90834},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2868, col: 59, offset: 90686},
+																		pos:        position{line: 2875, col: 59, offset: 90845},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23053,38 +23155,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2860, col: 30, offset: 90409},
+													pos:   position{line: 2867, col: 30, offset: 90568},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 5, offset: 90750},
+														pos: position{line: 2880, col: 5, offset: 90909},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2873, col: 5, offset: 90750},
+															pos:   position{line: 2880, col: 5, offset: 90909},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2873, col: 14, offset: 90759},
+																pos: position{line: 2880, col: 14, offset: 90918},
 																expr: &choiceExpr{
-																	pos: position{line: 2874, col: 9, offset: 90769},
+																	pos: position{line: 2881, col: 9, offset: 90928},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 9, offset: 90769},
+																			pos: position{line: 2881, col: 9, offset: 90928},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2874, col: 9, offset: 90769},
+																				pos: position{line: 2881, col: 9, offset: 90928},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2874, col: 9, offset: 90769},
+																						pos: position{line: 2881, col: 9, offset: 90928},
 																						expr: &litMatcher{
-																							pos:        position{line: 2874, col: 10, offset: 90770},
+																							pos:        position{line: 2881, col: 10, offset: 90929},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2875, col: 9, offset: 90798},
+																						pos: position{line: 2882, col: 9, offset: 90957},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2875, col: 10, offset: 90799},
+																							pos:        position{line: 2882, col: 10, offset: 90958},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23095,27 +23197,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2878, col: 11, offset: 91011},
+																			pos: position{line: 2885, col: 11, offset: 91170},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2878, col: 11, offset: 91011},
+																					pos:        position{line: 2885, col: 11, offset: 91170},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2878, col: 19, offset: 91019},
+																					pos: position{line: 2885, col: 19, offset: 91178},
 																					expr: &seqExpr{
-																						pos: position{line: 2878, col: 21, offset: 91021},
+																						pos: position{line: 2885, col: 21, offset: 91180},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2878, col: 21, offset: 91021},
+																								pos: position{line: 2885, col: 21, offset: 91180},
 																								expr: &actionExpr{
-																									pos: position{line: 2902, col: 10, offset: 91633},
+																									pos: position{line: 2909, col: 10, offset: 91792},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2902, col: 10, offset: 91633},
+																										pos:        position{line: 2909, col: 10, offset: 91792},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23124,11 +23226,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2878, col: 28, offset: 91028},
+																								pos: position{line: 2885, col: 28, offset: 91187},
 																								expr: &notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -23523,10 +23625,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2881, col: 11, offset: 91148},
+																			pos: position{line: 2888, col: 11, offset: 91307},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2881, col: 11, offset: 91148},
+																				pos:        position{line: 2888, col: 11, offset: 91307},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23578,55 +23680,55 @@ var g = &grammar{
 									pos:   position{line: 1437, col: 9, offset: 46355},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2864, col: 23, offset: 90519},
+										pos: position{line: 2871, col: 23, offset: 90678},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2864, col: 23, offset: 90519},
+											pos: position{line: 2871, col: 23, offset: 90678},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2864, col: 23, offset: 90519},
+													pos: position{line: 2871, col: 23, offset: 90678},
 													expr: &litMatcher{
-														pos:        position{line: 2864, col: 24, offset: 90520},
+														pos:        position{line: 2871, col: 24, offset: 90679},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2864, col: 28, offset: 90524},
+													pos:   position{line: 2871, col: 28, offset: 90683},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 11, offset: 90638},
+														pos: position{line: 2875, col: 11, offset: 90797},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2868, col: 12, offset: 90639},
+															pos: position{line: 2875, col: 12, offset: 90798},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2868, col: 12, offset: 90639},
+																	pos:        position{line: 2875, col: 12, offset: 90798},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2868, col: 24, offset: 90651},
+																	pos:        position{line: 2875, col: 24, offset: 90810},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2868, col: 37, offset: 90664},
+																	pos:        position{line: 2875, col: 37, offset: 90823},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2868, col: 48, offset: 90675},
+																	pos:        position{line: 2875, col: 48, offset: 90834},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2868, col: 59, offset: 90686},
+																	pos:        position{line: 2875, col: 59, offset: 90845},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23636,38 +23738,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2864, col: 44, offset: 90540},
+													pos:   position{line: 2871, col: 44, offset: 90699},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 5, offset: 90750},
+														pos: position{line: 2880, col: 5, offset: 90909},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2873, col: 5, offset: 90750},
+															pos:   position{line: 2880, col: 5, offset: 90909},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2873, col: 14, offset: 90759},
+																pos: position{line: 2880, col: 14, offset: 90918},
 																expr: &choiceExpr{
-																	pos: position{line: 2874, col: 9, offset: 90769},
+																	pos: position{line: 2881, col: 9, offset: 90928},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 9, offset: 90769},
+																			pos: position{line: 2881, col: 9, offset: 90928},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2874, col: 9, offset: 90769},
+																				pos: position{line: 2881, col: 9, offset: 90928},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2874, col: 9, offset: 90769},
+																						pos: position{line: 2881, col: 9, offset: 90928},
 																						expr: &litMatcher{
-																							pos:        position{line: 2874, col: 10, offset: 90770},
+																							pos:        position{line: 2881, col: 10, offset: 90929},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2875, col: 9, offset: 90798},
+																						pos: position{line: 2882, col: 9, offset: 90957},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2875, col: 10, offset: 90799},
+																							pos:        position{line: 2882, col: 10, offset: 90958},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23678,27 +23780,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2878, col: 11, offset: 91011},
+																			pos: position{line: 2885, col: 11, offset: 91170},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2878, col: 11, offset: 91011},
+																					pos:        position{line: 2885, col: 11, offset: 91170},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2878, col: 19, offset: 91019},
+																					pos: position{line: 2885, col: 19, offset: 91178},
 																					expr: &seqExpr{
-																						pos: position{line: 2878, col: 21, offset: 91021},
+																						pos: position{line: 2885, col: 21, offset: 91180},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2878, col: 21, offset: 91021},
+																								pos: position{line: 2885, col: 21, offset: 91180},
 																								expr: &actionExpr{
-																									pos: position{line: 2902, col: 10, offset: 91633},
+																									pos: position{line: 2909, col: 10, offset: 91792},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2902, col: 10, offset: 91633},
+																										pos:        position{line: 2909, col: 10, offset: 91792},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23707,11 +23809,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2878, col: 28, offset: 91028},
+																								pos: position{line: 2885, col: 28, offset: 91187},
 																								expr: &notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -24106,10 +24208,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2881, col: 11, offset: 91148},
+																			pos: position{line: 2888, col: 11, offset: 91307},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2881, col: 11, offset: 91148},
+																				pos:        position{line: 2888, col: 11, offset: 91307},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24149,55 +24251,55 @@ var g = &grammar{
 									pos:   position{line: 1442, col: 5, offset: 46525},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2864, col: 23, offset: 90519},
+										pos: position{line: 2871, col: 23, offset: 90678},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2864, col: 23, offset: 90519},
+											pos: position{line: 2871, col: 23, offset: 90678},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2864, col: 23, offset: 90519},
+													pos: position{line: 2871, col: 23, offset: 90678},
 													expr: &litMatcher{
-														pos:        position{line: 2864, col: 24, offset: 90520},
+														pos:        position{line: 2871, col: 24, offset: 90679},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2864, col: 28, offset: 90524},
+													pos:   position{line: 2871, col: 28, offset: 90683},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 11, offset: 90638},
+														pos: position{line: 2875, col: 11, offset: 90797},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2868, col: 12, offset: 90639},
+															pos: position{line: 2875, col: 12, offset: 90798},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2868, col: 12, offset: 90639},
+																	pos:        position{line: 2875, col: 12, offset: 90798},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2868, col: 24, offset: 90651},
+																	pos:        position{line: 2875, col: 24, offset: 90810},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2868, col: 37, offset: 90664},
+																	pos:        position{line: 2875, col: 37, offset: 90823},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2868, col: 48, offset: 90675},
+																	pos:        position{line: 2875, col: 48, offset: 90834},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2868, col: 59, offset: 90686},
+																	pos:        position{line: 2875, col: 59, offset: 90845},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24207,38 +24309,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2864, col: 44, offset: 90540},
+													pos:   position{line: 2871, col: 44, offset: 90699},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 5, offset: 90750},
+														pos: position{line: 2880, col: 5, offset: 90909},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2873, col: 5, offset: 90750},
+															pos:   position{line: 2880, col: 5, offset: 90909},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2873, col: 14, offset: 90759},
+																pos: position{line: 2880, col: 14, offset: 90918},
 																expr: &choiceExpr{
-																	pos: position{line: 2874, col: 9, offset: 90769},
+																	pos: position{line: 2881, col: 9, offset: 90928},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 9, offset: 90769},
+																			pos: position{line: 2881, col: 9, offset: 90928},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2874, col: 9, offset: 90769},
+																				pos: position{line: 2881, col: 9, offset: 90928},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2874, col: 9, offset: 90769},
+																						pos: position{line: 2881, col: 9, offset: 90928},
 																						expr: &litMatcher{
-																							pos:        position{line: 2874, col: 10, offset: 90770},
+																							pos:        position{line: 2881, col: 10, offset: 90929},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2875, col: 9, offset: 90798},
+																						pos: position{line: 2882, col: 9, offset: 90957},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2875, col: 10, offset: 90799},
+																							pos:        position{line: 2882, col: 10, offset: 90958},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24249,27 +24351,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2878, col: 11, offset: 91011},
+																			pos: position{line: 2885, col: 11, offset: 91170},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2878, col: 11, offset: 91011},
+																					pos:        position{line: 2885, col: 11, offset: 91170},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2878, col: 19, offset: 91019},
+																					pos: position{line: 2885, col: 19, offset: 91178},
 																					expr: &seqExpr{
-																						pos: position{line: 2878, col: 21, offset: 91021},
+																						pos: position{line: 2885, col: 21, offset: 91180},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2878, col: 21, offset: 91021},
+																								pos: position{line: 2885, col: 21, offset: 91180},
 																								expr: &actionExpr{
-																									pos: position{line: 2902, col: 10, offset: 91633},
+																									pos: position{line: 2909, col: 10, offset: 91792},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2902, col: 10, offset: 91633},
+																										pos:        position{line: 2909, col: 10, offset: 91792},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24278,11 +24380,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2878, col: 28, offset: 91028},
+																								pos: position{line: 2885, col: 28, offset: 91187},
 																								expr: &notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -24677,10 +24779,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2881, col: 11, offset: 91148},
+																			pos: position{line: 2888, col: 11, offset: 91307},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2881, col: 11, offset: 91148},
+																				pos:        position{line: 2888, col: 11, offset: 91307},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24746,10 +24848,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1584, col: 5, offset: 51102},
 																	expr: &actionExpr{
-																		pos: position{line: 2902, col: 10, offset: 91633},
+																		pos: position{line: 2909, col: 10, offset: 91792},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2902, col: 10, offset: 91633},
+																			pos:        position{line: 2909, col: 10, offset: 91792},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24916,12 +25018,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2906, col: 11, offset: 91694},
+																	pos: position{line: 2913, col: 11, offset: 91853},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2906, col: 11, offset: 91694},
+																		pos: position{line: 2913, col: 11, offset: 91853},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2906, col: 11, offset: 91694},
+																			pos:        position{line: 2913, col: 11, offset: 91853},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24964,28 +25066,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2924, col: 8, offset: 92031},
+																	pos: position{line: 2931, col: 8, offset: 92190},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2911, col: 12, offset: 91804},
+																			pos: position{line: 2918, col: 12, offset: 91963},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2911, col: 13, offset: 91805},
+																				pos: position{line: 2918, col: 13, offset: 91964},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 13, offset: 91805},
+																						pos:        position{line: 2918, col: 13, offset: 91964},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 20, offset: 91812},
+																						pos:        position{line: 2918, col: 20, offset: 91971},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 29, offset: 91821},
+																						pos:        position{line: 2918, col: 29, offset: 91980},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24994,9 +25096,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2921, col: 8, offset: 91981},
+																			pos: position{line: 2928, col: 8, offset: 92140},
 																			expr: &anyMatcher{
-																				line: 2921, col: 9, offset: 91982,
+																				line: 2928, col: 9, offset: 92141,
 																			},
 																		},
 																	},
@@ -25026,10 +25128,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1634, col: 5, offset: 53064},
 																	expr: &actionExpr{
-																		pos: position{line: 2902, col: 10, offset: 91633},
+																		pos: position{line: 2909, col: 10, offset: 91792},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2902, col: 10, offset: 91633},
+																			pos:        position{line: 2909, col: 10, offset: 91792},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25070,12 +25172,12 @@ var g = &grammar{
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2906, col: 11, offset: 91694},
+																	pos: position{line: 2913, col: 11, offset: 91853},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2906, col: 11, offset: 91694},
+																		pos: position{line: 2913, col: 11, offset: 91853},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2906, col: 11, offset: 91694},
+																			pos:        position{line: 2913, col: 11, offset: 91853},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25147,12 +25249,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2906, col: 11, offset: 91694},
+																		pos: position{line: 2913, col: 11, offset: 91853},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2906, col: 11, offset: 91694},
+																			pos: position{line: 2913, col: 11, offset: 91853},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2906, col: 11, offset: 91694},
+																				pos:        position{line: 2913, col: 11, offset: 91853},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25196,28 +25298,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2924, col: 8, offset: 92031},
+																	pos: position{line: 2931, col: 8, offset: 92190},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2911, col: 12, offset: 91804},
+																			pos: position{line: 2918, col: 12, offset: 91963},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2911, col: 13, offset: 91805},
+																				pos: position{line: 2918, col: 13, offset: 91964},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 13, offset: 91805},
+																						pos:        position{line: 2918, col: 13, offset: 91964},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 20, offset: 91812},
+																						pos:        position{line: 2918, col: 20, offset: 91971},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 29, offset: 91821},
+																						pos:        position{line: 2918, col: 29, offset: 91980},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25226,9 +25328,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2921, col: 8, offset: 91981},
+																			pos: position{line: 2928, col: 8, offset: 92140},
 																			expr: &anyMatcher{
-																				line: 2921, col: 9, offset: 91982,
+																				line: 2928, col: 9, offset: 92141,
 																			},
 																		},
 																	},
@@ -25286,12 +25388,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2906, col: 11, offset: 91694},
+																	pos: position{line: 2913, col: 11, offset: 91853},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2906, col: 11, offset: 91694},
+																		pos: position{line: 2913, col: 11, offset: 91853},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2906, col: 11, offset: 91694},
+																			pos:        position{line: 2913, col: 11, offset: 91853},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25334,28 +25436,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2924, col: 8, offset: 92031},
+																	pos: position{line: 2931, col: 8, offset: 92190},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2911, col: 12, offset: 91804},
+																			pos: position{line: 2918, col: 12, offset: 91963},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2911, col: 13, offset: 91805},
+																				pos: position{line: 2918, col: 13, offset: 91964},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 13, offset: 91805},
+																						pos:        position{line: 2918, col: 13, offset: 91964},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 20, offset: 91812},
+																						pos:        position{line: 2918, col: 20, offset: 91971},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 29, offset: 91821},
+																						pos:        position{line: 2918, col: 29, offset: 91980},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25364,9 +25466,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2921, col: 8, offset: 91981},
+																			pos: position{line: 2928, col: 8, offset: 92140},
 																			expr: &anyMatcher{
-																				line: 2921, col: 9, offset: 91982,
+																				line: 2928, col: 9, offset: 92141,
 																			},
 																		},
 																	},
@@ -25431,28 +25533,28 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 1669, col: 35, offset: 54113},
 																		expr: &choiceExpr{
-																			pos: position{line: 2924, col: 8, offset: 92031},
+																			pos: position{line: 2931, col: 8, offset: 92190},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2911, col: 12, offset: 91804},
+																					pos: position{line: 2918, col: 12, offset: 91963},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2911, col: 13, offset: 91805},
+																						pos: position{line: 2918, col: 13, offset: 91964},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 13, offset: 91805},
+																								pos:        position{line: 2918, col: 13, offset: 91964},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 20, offset: 91812},
+																								pos:        position{line: 2918, col: 20, offset: 91971},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 29, offset: 91821},
+																								pos:        position{line: 2918, col: 29, offset: 91980},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25461,9 +25563,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -25526,10 +25628,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1687, col: 9, offset: 54618},
 																			expr: &actionExpr{
-																				pos: position{line: 2902, col: 10, offset: 91633},
+																				pos: position{line: 2909, col: 10, offset: 91792},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2902, col: 10, offset: 91633},
+																					pos:        position{line: 2909, col: 10, offset: 91792},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25538,28 +25640,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2924, col: 8, offset: 92031},
+																			pos: position{line: 2931, col: 8, offset: 92190},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2911, col: 12, offset: 91804},
+																					pos: position{line: 2918, col: 12, offset: 91963},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2911, col: 13, offset: 91805},
+																						pos: position{line: 2918, col: 13, offset: 91964},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 13, offset: 91805},
+																								pos:        position{line: 2918, col: 13, offset: 91964},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 20, offset: 91812},
+																								pos:        position{line: 2918, col: 20, offset: 91971},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 29, offset: 91821},
+																								pos:        position{line: 2918, col: 29, offset: 91980},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25568,9 +25670,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -25584,18 +25686,18 @@ var g = &grammar{
 																					pos: position{line: 678, col: 14, offset: 21586},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2919, col: 11, offset: 91967},
+																							pos: position{line: 2926, col: 11, offset: 92126},
 																							expr: &anyMatcher{
-																								line: 2919, col: 13, offset: 91969,
+																								line: 2926, col: 13, offset: 92128,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 678, col: 21, offset: 21593},
 																							expr: &actionExpr{
-																								pos: position{line: 2902, col: 10, offset: 91633},
+																								pos: position{line: 2909, col: 10, offset: 91792},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2902, col: 10, offset: 91633},
+																									pos:        position{line: 2909, col: 10, offset: 91792},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25604,28 +25706,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25634,9 +25736,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -25655,12 +25757,12 @@ var g = &grammar{
 																	pos: position{line: 1694, col: 9, offset: 54766},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2906, col: 11, offset: 91694},
+																			pos: position{line: 2913, col: 11, offset: 91853},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2906, col: 11, offset: 91694},
+																				pos: position{line: 2913, col: 11, offset: 91853},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2906, col: 11, offset: 91694},
+																					pos:        position{line: 2913, col: 11, offset: 91853},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25687,28 +25789,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2924, col: 8, offset: 92031},
+																			pos: position{line: 2931, col: 8, offset: 92190},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2911, col: 12, offset: 91804},
+																					pos: position{line: 2918, col: 12, offset: 91963},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2911, col: 13, offset: 91805},
+																						pos: position{line: 2918, col: 13, offset: 91964},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 13, offset: 91805},
+																								pos:        position{line: 2918, col: 13, offset: 91964},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 20, offset: 91812},
+																								pos:        position{line: 2918, col: 20, offset: 91971},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 29, offset: 91821},
+																								pos:        position{line: 2918, col: 29, offset: 91980},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25717,9 +25819,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -25777,9 +25879,9 @@ var g = &grammar{
 					pos: position{line: 1493, col: 5, offset: 48275},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2919, col: 11, offset: 91967},
+							pos: position{line: 2926, col: 11, offset: 92126},
 							expr: &anyMatcher{
-								line: 2919, col: 13, offset: 91969,
+								line: 2926, col: 13, offset: 92128,
 							},
 						},
 						&labeledExpr{
@@ -25803,18 +25905,18 @@ var g = &grammar{
 															pos: position{line: 678, col: 14, offset: 21586},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2919, col: 11, offset: 91967},
+																	pos: position{line: 2926, col: 11, offset: 92126},
 																	expr: &anyMatcher{
-																		line: 2919, col: 13, offset: 91969,
+																		line: 2926, col: 13, offset: 92128,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 678, col: 21, offset: 21593},
 																	expr: &actionExpr{
-																		pos: position{line: 2902, col: 10, offset: 91633},
+																		pos: position{line: 2909, col: 10, offset: 91792},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2902, col: 10, offset: 91633},
+																			pos:        position{line: 2909, col: 10, offset: 91792},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25823,28 +25925,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2924, col: 8, offset: 92031},
+																	pos: position{line: 2931, col: 8, offset: 92190},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2911, col: 12, offset: 91804},
+																			pos: position{line: 2918, col: 12, offset: 91963},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2911, col: 13, offset: 91805},
+																				pos: position{line: 2918, col: 13, offset: 91964},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 13, offset: 91805},
+																						pos:        position{line: 2918, col: 13, offset: 91964},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 20, offset: 91812},
+																						pos:        position{line: 2918, col: 20, offset: 91971},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 29, offset: 91821},
+																						pos:        position{line: 2918, col: 29, offset: 91980},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25853,9 +25955,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2921, col: 8, offset: 91981},
+																			pos: position{line: 2928, col: 8, offset: 92140},
 																			expr: &anyMatcher{
-																				line: 2921, col: 9, offset: 91982,
+																				line: 2928, col: 9, offset: 92141,
 																			},
 																		},
 																	},
@@ -25888,10 +25990,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1584, col: 5, offset: 51102},
 																							expr: &actionExpr{
-																								pos: position{line: 2902, col: 10, offset: 91633},
+																								pos: position{line: 2909, col: 10, offset: 91792},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2902, col: 10, offset: 91633},
+																									pos:        position{line: 2909, col: 10, offset: 91792},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26058,12 +26160,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2906, col: 11, offset: 91694},
+																							pos: position{line: 2913, col: 11, offset: 91853},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2906, col: 11, offset: 91694},
+																								pos: position{line: 2913, col: 11, offset: 91853},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2906, col: 11, offset: 91694},
+																									pos:        position{line: 2913, col: 11, offset: 91853},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26106,28 +26208,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26136,9 +26238,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -26168,10 +26270,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1634, col: 5, offset: 53064},
 																							expr: &actionExpr{
-																								pos: position{line: 2902, col: 10, offset: 91633},
+																								pos: position{line: 2909, col: 10, offset: 91792},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2902, col: 10, offset: 91633},
+																									pos:        position{line: 2909, col: 10, offset: 91792},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26212,12 +26314,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2906, col: 11, offset: 91694},
+																							pos: position{line: 2913, col: 11, offset: 91853},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2906, col: 11, offset: 91694},
+																								pos: position{line: 2913, col: 11, offset: 91853},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2906, col: 11, offset: 91694},
+																									pos:        position{line: 2913, col: 11, offset: 91853},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26289,12 +26391,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2906, col: 11, offset: 91694},
+																								pos: position{line: 2913, col: 11, offset: 91853},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2906, col: 11, offset: 91694},
+																									pos: position{line: 2913, col: 11, offset: 91853},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2906, col: 11, offset: 91694},
+																										pos:        position{line: 2913, col: 11, offset: 91853},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26338,28 +26440,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26368,9 +26470,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -26428,12 +26530,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2906, col: 11, offset: 91694},
+																							pos: position{line: 2913, col: 11, offset: 91853},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2906, col: 11, offset: 91694},
+																								pos: position{line: 2913, col: 11, offset: 91853},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2906, col: 11, offset: 91694},
+																									pos:        position{line: 2913, col: 11, offset: 91853},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26476,28 +26578,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26506,9 +26608,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -26573,28 +26675,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1669, col: 35, offset: 54113},
 																								expr: &choiceExpr{
-																									pos: position{line: 2924, col: 8, offset: 92031},
+																									pos: position{line: 2931, col: 8, offset: 92190},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2911, col: 12, offset: 91804},
+																											pos: position{line: 2918, col: 12, offset: 91963},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2911, col: 13, offset: 91805},
+																												pos: position{line: 2918, col: 13, offset: 91964},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 13, offset: 91805},
+																														pos:        position{line: 2918, col: 13, offset: 91964},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 20, offset: 91812},
+																														pos:        position{line: 2918, col: 20, offset: 91971},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 29, offset: 91821},
+																														pos:        position{line: 2918, col: 29, offset: 91980},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26603,9 +26705,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2921, col: 8, offset: 91981},
+																											pos: position{line: 2928, col: 8, offset: 92140},
 																											expr: &anyMatcher{
-																												line: 2921, col: 9, offset: 91982,
+																												line: 2928, col: 9, offset: 92141,
 																											},
 																										},
 																									},
@@ -26668,10 +26770,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1687, col: 9, offset: 54618},
 																									expr: &actionExpr{
-																										pos: position{line: 2902, col: 10, offset: 91633},
+																										pos: position{line: 2909, col: 10, offset: 91792},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2902, col: 10, offset: 91633},
+																											pos:        position{line: 2909, col: 10, offset: 91792},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26680,28 +26782,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2924, col: 8, offset: 92031},
+																									pos: position{line: 2931, col: 8, offset: 92190},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2911, col: 12, offset: 91804},
+																											pos: position{line: 2918, col: 12, offset: 91963},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2911, col: 13, offset: 91805},
+																												pos: position{line: 2918, col: 13, offset: 91964},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 13, offset: 91805},
+																														pos:        position{line: 2918, col: 13, offset: 91964},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 20, offset: 91812},
+																														pos:        position{line: 2918, col: 20, offset: 91971},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 29, offset: 91821},
+																														pos:        position{line: 2918, col: 29, offset: 91980},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26710,9 +26812,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2921, col: 8, offset: 91981},
+																											pos: position{line: 2928, col: 8, offset: 92140},
 																											expr: &anyMatcher{
-																												line: 2921, col: 9, offset: 91982,
+																												line: 2928, col: 9, offset: 92141,
 																											},
 																										},
 																									},
@@ -26726,18 +26828,18 @@ var g = &grammar{
 																											pos: position{line: 678, col: 14, offset: 21586},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2919, col: 11, offset: 91967},
+																													pos: position{line: 2926, col: 11, offset: 92126},
 																													expr: &anyMatcher{
-																														line: 2919, col: 13, offset: 91969,
+																														line: 2926, col: 13, offset: 92128,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 678, col: 21, offset: 21593},
 																													expr: &actionExpr{
-																														pos: position{line: 2902, col: 10, offset: 91633},
+																														pos: position{line: 2909, col: 10, offset: 91792},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2902, col: 10, offset: 91633},
+																															pos:        position{line: 2909, col: 10, offset: 91792},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26746,28 +26848,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2924, col: 8, offset: 92031},
+																													pos: position{line: 2931, col: 8, offset: 92190},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2911, col: 12, offset: 91804},
+																															pos: position{line: 2918, col: 12, offset: 91963},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2911, col: 13, offset: 91805},
+																																pos: position{line: 2918, col: 13, offset: 91964},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2911, col: 13, offset: 91805},
+																																		pos:        position{line: 2918, col: 13, offset: 91964},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2911, col: 20, offset: 91812},
+																																		pos:        position{line: 2918, col: 20, offset: 91971},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2911, col: 29, offset: 91821},
+																																		pos:        position{line: 2918, col: 29, offset: 91980},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26776,9 +26878,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2921, col: 8, offset: 91981},
+																															pos: position{line: 2928, col: 8, offset: 92140},
 																															expr: &anyMatcher{
-																																line: 2921, col: 9, offset: 91982,
+																																line: 2928, col: 9, offset: 92141,
 																															},
 																														},
 																													},
@@ -26797,12 +26899,12 @@ var g = &grammar{
 																							pos: position{line: 1694, col: 9, offset: 54766},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2906, col: 11, offset: 91694},
+																									pos: position{line: 2913, col: 11, offset: 91853},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2906, col: 11, offset: 91694},
+																										pos: position{line: 2913, col: 11, offset: 91853},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2906, col: 11, offset: 91694},
+																											pos:        position{line: 2913, col: 11, offset: 91853},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26829,28 +26931,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2924, col: 8, offset: 92031},
+																									pos: position{line: 2931, col: 8, offset: 92190},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2911, col: 12, offset: 91804},
+																											pos: position{line: 2918, col: 12, offset: 91963},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2911, col: 13, offset: 91805},
+																												pos: position{line: 2918, col: 13, offset: 91964},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 13, offset: 91805},
+																														pos:        position{line: 2918, col: 13, offset: 91964},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 20, offset: 91812},
+																														pos:        position{line: 2918, col: 20, offset: 91971},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 29, offset: 91821},
+																														pos:        position{line: 2918, col: 29, offset: 91980},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26859,9 +26961,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2921, col: 8, offset: 91981},
+																											pos: position{line: 2928, col: 8, offset: 92140},
 																											expr: &anyMatcher{
-																												line: 2921, col: 9, offset: 91982,
+																												line: 2928, col: 9, offset: 92141,
 																											},
 																										},
 																									},
@@ -26922,10 +27024,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1584, col: 5, offset: 51102},
 																							expr: &actionExpr{
-																								pos: position{line: 2902, col: 10, offset: 91633},
+																								pos: position{line: 2909, col: 10, offset: 91792},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2902, col: 10, offset: 91633},
+																									pos:        position{line: 2909, col: 10, offset: 91792},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27092,12 +27194,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2906, col: 11, offset: 91694},
+																							pos: position{line: 2913, col: 11, offset: 91853},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2906, col: 11, offset: 91694},
+																								pos: position{line: 2913, col: 11, offset: 91853},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2906, col: 11, offset: 91694},
+																									pos:        position{line: 2913, col: 11, offset: 91853},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27140,28 +27242,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27170,9 +27272,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -27202,10 +27304,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1634, col: 5, offset: 53064},
 																							expr: &actionExpr{
-																								pos: position{line: 2902, col: 10, offset: 91633},
+																								pos: position{line: 2909, col: 10, offset: 91792},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2902, col: 10, offset: 91633},
+																									pos:        position{line: 2909, col: 10, offset: 91792},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27246,12 +27348,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2906, col: 11, offset: 91694},
+																							pos: position{line: 2913, col: 11, offset: 91853},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2906, col: 11, offset: 91694},
+																								pos: position{line: 2913, col: 11, offset: 91853},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2906, col: 11, offset: 91694},
+																									pos:        position{line: 2913, col: 11, offset: 91853},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27323,12 +27425,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2906, col: 11, offset: 91694},
+																								pos: position{line: 2913, col: 11, offset: 91853},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2906, col: 11, offset: 91694},
+																									pos: position{line: 2913, col: 11, offset: 91853},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2906, col: 11, offset: 91694},
+																										pos:        position{line: 2913, col: 11, offset: 91853},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27372,28 +27474,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27402,9 +27504,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -27462,12 +27564,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2906, col: 11, offset: 91694},
+																							pos: position{line: 2913, col: 11, offset: 91853},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2906, col: 11, offset: 91694},
+																								pos: position{line: 2913, col: 11, offset: 91853},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2906, col: 11, offset: 91694},
+																									pos:        position{line: 2913, col: 11, offset: 91853},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27510,28 +27612,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27540,9 +27642,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -27607,28 +27709,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1669, col: 35, offset: 54113},
 																								expr: &choiceExpr{
-																									pos: position{line: 2924, col: 8, offset: 92031},
+																									pos: position{line: 2931, col: 8, offset: 92190},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2911, col: 12, offset: 91804},
+																											pos: position{line: 2918, col: 12, offset: 91963},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2911, col: 13, offset: 91805},
+																												pos: position{line: 2918, col: 13, offset: 91964},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 13, offset: 91805},
+																														pos:        position{line: 2918, col: 13, offset: 91964},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 20, offset: 91812},
+																														pos:        position{line: 2918, col: 20, offset: 91971},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 29, offset: 91821},
+																														pos:        position{line: 2918, col: 29, offset: 91980},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27637,9 +27739,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2921, col: 8, offset: 91981},
+																											pos: position{line: 2928, col: 8, offset: 92140},
 																											expr: &anyMatcher{
-																												line: 2921, col: 9, offset: 91982,
+																												line: 2928, col: 9, offset: 92141,
 																											},
 																										},
 																									},
@@ -27702,10 +27804,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1687, col: 9, offset: 54618},
 																									expr: &actionExpr{
-																										pos: position{line: 2902, col: 10, offset: 91633},
+																										pos: position{line: 2909, col: 10, offset: 91792},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2902, col: 10, offset: 91633},
+																											pos:        position{line: 2909, col: 10, offset: 91792},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27714,28 +27816,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2924, col: 8, offset: 92031},
+																									pos: position{line: 2931, col: 8, offset: 92190},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2911, col: 12, offset: 91804},
+																											pos: position{line: 2918, col: 12, offset: 91963},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2911, col: 13, offset: 91805},
+																												pos: position{line: 2918, col: 13, offset: 91964},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 13, offset: 91805},
+																														pos:        position{line: 2918, col: 13, offset: 91964},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 20, offset: 91812},
+																														pos:        position{line: 2918, col: 20, offset: 91971},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 29, offset: 91821},
+																														pos:        position{line: 2918, col: 29, offset: 91980},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27744,9 +27846,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2921, col: 8, offset: 91981},
+																											pos: position{line: 2928, col: 8, offset: 92140},
 																											expr: &anyMatcher{
-																												line: 2921, col: 9, offset: 91982,
+																												line: 2928, col: 9, offset: 92141,
 																											},
 																										},
 																									},
@@ -27760,18 +27862,18 @@ var g = &grammar{
 																											pos: position{line: 678, col: 14, offset: 21586},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2919, col: 11, offset: 91967},
+																													pos: position{line: 2926, col: 11, offset: 92126},
 																													expr: &anyMatcher{
-																														line: 2919, col: 13, offset: 91969,
+																														line: 2926, col: 13, offset: 92128,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 678, col: 21, offset: 21593},
 																													expr: &actionExpr{
-																														pos: position{line: 2902, col: 10, offset: 91633},
+																														pos: position{line: 2909, col: 10, offset: 91792},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2902, col: 10, offset: 91633},
+																															pos:        position{line: 2909, col: 10, offset: 91792},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27780,28 +27882,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2924, col: 8, offset: 92031},
+																													pos: position{line: 2931, col: 8, offset: 92190},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2911, col: 12, offset: 91804},
+																															pos: position{line: 2918, col: 12, offset: 91963},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2911, col: 13, offset: 91805},
+																																pos: position{line: 2918, col: 13, offset: 91964},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2911, col: 13, offset: 91805},
+																																		pos:        position{line: 2918, col: 13, offset: 91964},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2911, col: 20, offset: 91812},
+																																		pos:        position{line: 2918, col: 20, offset: 91971},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2911, col: 29, offset: 91821},
+																																		pos:        position{line: 2918, col: 29, offset: 91980},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27810,9 +27912,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2921, col: 8, offset: 91981},
+																															pos: position{line: 2928, col: 8, offset: 92140},
 																															expr: &anyMatcher{
-																																line: 2921, col: 9, offset: 91982,
+																																line: 2928, col: 9, offset: 92141,
 																															},
 																														},
 																													},
@@ -27831,12 +27933,12 @@ var g = &grammar{
 																							pos: position{line: 1694, col: 9, offset: 54766},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2906, col: 11, offset: 91694},
+																									pos: position{line: 2913, col: 11, offset: 91853},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2906, col: 11, offset: 91694},
+																										pos: position{line: 2913, col: 11, offset: 91853},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2906, col: 11, offset: 91694},
+																											pos:        position{line: 2913, col: 11, offset: 91853},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27863,28 +27965,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2924, col: 8, offset: 92031},
+																									pos: position{line: 2931, col: 8, offset: 92190},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2911, col: 12, offset: 91804},
+																											pos: position{line: 2918, col: 12, offset: 91963},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2911, col: 13, offset: 91805},
+																												pos: position{line: 2918, col: 13, offset: 91964},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 13, offset: 91805},
+																														pos:        position{line: 2918, col: 13, offset: 91964},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 20, offset: 91812},
+																														pos:        position{line: 2918, col: 20, offset: 91971},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 29, offset: 91821},
+																														pos:        position{line: 2918, col: 29, offset: 91980},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27893,9 +27995,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2921, col: 8, offset: 91981},
+																											pos: position{line: 2928, col: 8, offset: 92140},
 																											expr: &anyMatcher{
-																												line: 2921, col: 9, offset: 91982,
+																												line: 2928, col: 9, offset: 92141,
 																											},
 																										},
 																									},
@@ -27944,12 +28046,12 @@ var g = &grammar{
 													pos:   position{line: 2512, col: 49, offset: 80597},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2848, col: 13, offset: 90159},
+														pos: position{line: 2855, col: 13, offset: 90318},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2848, col: 13, offset: 90159},
+															pos: position{line: 2855, col: 13, offset: 90318},
 															expr: &charClassMatcher{
-																pos:        position{line: 2848, col: 13, offset: 90159},
+																pos:        position{line: 2855, col: 13, offset: 90318},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -27959,28 +28061,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2924, col: 8, offset: 92031},
+													pos: position{line: 2931, col: 8, offset: 92190},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2911, col: 12, offset: 91804},
+															pos: position{line: 2918, col: 12, offset: 91963},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2911, col: 13, offset: 91805},
+																pos: position{line: 2918, col: 13, offset: 91964},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 13, offset: 91805},
+																		pos:        position{line: 2918, col: 13, offset: 91964},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 20, offset: 91812},
+																		pos:        position{line: 2918, col: 20, offset: 91971},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 29, offset: 91821},
+																		pos:        position{line: 2918, col: 29, offset: 91980},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -27989,9 +28091,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2921, col: 8, offset: 91981},
+															pos: position{line: 2928, col: 8, offset: 92140},
 															expr: &anyMatcher{
-																line: 2921, col: 9, offset: 91982,
+																line: 2928, col: 9, offset: 92141,
 															},
 														},
 													},
@@ -28014,18 +28116,18 @@ var g = &grammar{
 															pos: position{line: 678, col: 14, offset: 21586},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2919, col: 11, offset: 91967},
+																	pos: position{line: 2926, col: 11, offset: 92126},
 																	expr: &anyMatcher{
-																		line: 2919, col: 13, offset: 91969,
+																		line: 2926, col: 13, offset: 92128,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 678, col: 21, offset: 21593},
 																	expr: &actionExpr{
-																		pos: position{line: 2902, col: 10, offset: 91633},
+																		pos: position{line: 2909, col: 10, offset: 91792},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2902, col: 10, offset: 91633},
+																			pos:        position{line: 2909, col: 10, offset: 91792},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28034,28 +28136,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2924, col: 8, offset: 92031},
+																	pos: position{line: 2931, col: 8, offset: 92190},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2911, col: 12, offset: 91804},
+																			pos: position{line: 2918, col: 12, offset: 91963},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2911, col: 13, offset: 91805},
+																				pos: position{line: 2918, col: 13, offset: 91964},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 13, offset: 91805},
+																						pos:        position{line: 2918, col: 13, offset: 91964},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 20, offset: 91812},
+																						pos:        position{line: 2918, col: 20, offset: 91971},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 29, offset: 91821},
+																						pos:        position{line: 2918, col: 29, offset: 91980},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28064,9 +28166,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2921, col: 8, offset: 91981},
+																			pos: position{line: 2928, col: 8, offset: 92140},
 																			expr: &anyMatcher{
-																				line: 2921, col: 9, offset: 91982,
+																				line: 2928, col: 9, offset: 92141,
 																			},
 																		},
 																	},
@@ -28089,10 +28191,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1543, col: 31, offset: 49887},
 																expr: &actionExpr{
-																	pos: position{line: 2902, col: 10, offset: 91633},
+																	pos: position{line: 2909, col: 10, offset: 91792},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2902, col: 10, offset: 91633},
+																		pos:        position{line: 2909, col: 10, offset: 91792},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28101,25 +28203,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2911, col: 12, offset: 91804},
+																pos: position{line: 2918, col: 12, offset: 91963},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2911, col: 13, offset: 91805},
+																	pos: position{line: 2918, col: 13, offset: 91964},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 13, offset: 91805},
+																			pos:        position{line: 2918, col: 13, offset: 91964},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 20, offset: 91812},
+																			pos:        position{line: 2918, col: 20, offset: 91971},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 29, offset: 91821},
+																			pos:        position{line: 2918, col: 29, offset: 91980},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28141,10 +28243,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1584, col: 5, offset: 51102},
 																	expr: &actionExpr{
-																		pos: position{line: 2902, col: 10, offset: 91633},
+																		pos: position{line: 2909, col: 10, offset: 91792},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2902, col: 10, offset: 91633},
+																			pos:        position{line: 2909, col: 10, offset: 91792},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28311,12 +28413,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2906, col: 11, offset: 91694},
+																	pos: position{line: 2913, col: 11, offset: 91853},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2906, col: 11, offset: 91694},
+																		pos: position{line: 2913, col: 11, offset: 91853},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2906, col: 11, offset: 91694},
+																			pos:        position{line: 2913, col: 11, offset: 91853},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28339,10 +28441,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1634, col: 5, offset: 53064},
 																	expr: &actionExpr{
-																		pos: position{line: 2902, col: 10, offset: 91633},
+																		pos: position{line: 2909, col: 10, offset: 91792},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2902, col: 10, offset: 91633},
+																			pos:        position{line: 2909, col: 10, offset: 91792},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28383,12 +28485,12 @@ var g = &grammar{
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2906, col: 11, offset: 91694},
+																	pos: position{line: 2913, col: 11, offset: 91853},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2906, col: 11, offset: 91694},
+																		pos: position{line: 2913, col: 11, offset: 91853},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2906, col: 11, offset: 91694},
+																			pos:        position{line: 2913, col: 11, offset: 91853},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28439,12 +28541,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2906, col: 11, offset: 91694},
+																	pos: position{line: 2913, col: 11, offset: 91853},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2906, col: 11, offset: 91694},
+																		pos: position{line: 2913, col: 11, offset: 91853},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2906, col: 11, offset: 91694},
+																			pos:        position{line: 2913, col: 11, offset: 91853},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28505,28 +28607,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1669, col: 35, offset: 54113},
 																				expr: &choiceExpr{
-																					pos: position{line: 2924, col: 8, offset: 92031},
+																					pos: position{line: 2931, col: 8, offset: 92190},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2911, col: 12, offset: 91804},
+																							pos: position{line: 2918, col: 12, offset: 91963},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2911, col: 13, offset: 91805},
+																								pos: position{line: 2918, col: 13, offset: 91964},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 13, offset: 91805},
+																										pos:        position{line: 2918, col: 13, offset: 91964},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 20, offset: 91812},
+																										pos:        position{line: 2918, col: 20, offset: 91971},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 29, offset: 91821},
+																										pos:        position{line: 2918, col: 29, offset: 91980},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -28535,9 +28637,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2921, col: 8, offset: 91981},
+																							pos: position{line: 2928, col: 8, offset: 92140},
 																							expr: &anyMatcher{
-																								line: 2921, col: 9, offset: 91982,
+																								line: 2928, col: 9, offset: 92141,
 																							},
 																						},
 																					},
@@ -28594,7 +28696,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 725, col: 5, offset: 23139},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2792, col: 13, offset: 88728},
+																		pos:        position{line: 2799, col: 13, offset: 88887},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28644,10 +28746,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 743, col: 8, offset: 23783},
 																							expr: &actionExpr{
-																								pos: position{line: 2902, col: 10, offset: 91633},
+																								pos: position{line: 2909, col: 10, offset: 91792},
 																								run: (*parser).callonExtraListElement636,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2902, col: 10, offset: 91633},
+																									pos:        position{line: 2909, col: 10, offset: 91792},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28656,28 +28758,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonExtraListElement639,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28686,9 +28788,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -28733,10 +28835,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 750, col: 8, offset: 24031},
 																							expr: &actionExpr{
-																								pos: position{line: 2902, col: 10, offset: 91633},
+																								pos: position{line: 2909, col: 10, offset: 91792},
 																								run: (*parser).callonExtraListElement655,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2902, col: 10, offset: 91633},
+																									pos:        position{line: 2909, col: 10, offset: 91792},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28745,28 +28847,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonExtraListElement658,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28775,9 +28877,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -28818,10 +28920,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 761, col: 52, offset: 24443},
 																							expr: &actionExpr{
-																								pos: position{line: 2902, col: 10, offset: 91633},
+																								pos: position{line: 2909, col: 10, offset: 91792},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2902, col: 10, offset: 91633},
+																									pos:        position{line: 2909, col: 10, offset: 91792},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28830,28 +28932,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28860,9 +28962,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -28907,10 +29009,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 757, col: 8, offset: 24277},
 																							expr: &actionExpr{
-																								pos: position{line: 2902, col: 10, offset: 91633},
+																								pos: position{line: 2909, col: 10, offset: 91792},
 																								run: (*parser).callonExtraListElement692,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2902, col: 10, offset: 91633},
+																									pos:        position{line: 2909, col: 10, offset: 91792},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28919,28 +29021,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonExtraListElement695,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28949,9 +29051,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -28996,10 +29098,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 772, col: 8, offset: 24815},
 																							expr: &actionExpr{
-																								pos: position{line: 2902, col: 10, offset: 91633},
+																								pos: position{line: 2909, col: 10, offset: 91792},
 																								run: (*parser).callonExtraListElement711,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2902, col: 10, offset: 91633},
+																									pos:        position{line: 2909, col: 10, offset: 91792},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29008,28 +29110,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonExtraListElement714,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29038,9 +29140,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -29085,10 +29187,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 786, col: 8, offset: 25291},
 																							expr: &actionExpr{
-																								pos: position{line: 2902, col: 10, offset: 91633},
+																								pos: position{line: 2909, col: 10, offset: 91792},
 																								run: (*parser).callonExtraListElement730,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2902, col: 10, offset: 91633},
+																									pos:        position{line: 2909, col: 10, offset: 91792},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29097,28 +29199,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonExtraListElement733,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29127,9 +29229,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -29174,10 +29276,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 793, col: 8, offset: 25543},
 																							expr: &actionExpr{
-																								pos: position{line: 2902, col: 10, offset: 91633},
+																								pos: position{line: 2909, col: 10, offset: 91792},
 																								run: (*parser).callonExtraListElement749,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2902, col: 10, offset: 91633},
+																									pos:        position{line: 2909, col: 10, offset: 91792},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29186,28 +29288,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonExtraListElement752,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29216,9 +29318,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -29263,10 +29365,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 800, col: 8, offset: 25793},
 																							expr: &actionExpr{
-																								pos: position{line: 2902, col: 10, offset: 91633},
+																								pos: position{line: 2909, col: 10, offset: 91792},
 																								run: (*parser).callonExtraListElement768,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2902, col: 10, offset: 91633},
+																									pos:        position{line: 2909, col: 10, offset: 91792},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29275,28 +29377,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonExtraListElement771,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29305,9 +29407,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -29352,10 +29454,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 807, col: 8, offset: 26039},
 																							expr: &actionExpr{
-																								pos: position{line: 2902, col: 10, offset: 91633},
+																								pos: position{line: 2909, col: 10, offset: 91792},
 																								run: (*parser).callonExtraListElement787,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2902, col: 10, offset: 91633},
+																									pos:        position{line: 2909, col: 10, offset: 91792},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29364,28 +29466,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonExtraListElement790,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29394,9 +29496,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -29415,12 +29517,12 @@ var g = &grammar{
 													pos:   position{line: 1518, col: 5, offset: 49221},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 14, offset: 90226},
+														pos: position{line: 2859, col: 14, offset: 90385},
 														run: (*parser).callonExtraListElement798,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2852, col: 14, offset: 90226},
+															pos: position{line: 2859, col: 14, offset: 90385},
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 14, offset: 90226},
+																pos:        position{line: 2859, col: 14, offset: 90385},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29430,28 +29532,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2924, col: 8, offset: 92031},
+													pos: position{line: 2931, col: 8, offset: 92190},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2911, col: 12, offset: 91804},
+															pos: position{line: 2918, col: 12, offset: 91963},
 															run: (*parser).callonExtraListElement802,
 															expr: &choiceExpr{
-																pos: position{line: 2911, col: 13, offset: 91805},
+																pos: position{line: 2918, col: 13, offset: 91964},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 13, offset: 91805},
+																		pos:        position{line: 2918, col: 13, offset: 91964},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 20, offset: 91812},
+																		pos:        position{line: 2918, col: 20, offset: 91971},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 29, offset: 91821},
+																		pos:        position{line: 2918, col: 29, offset: 91980},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29460,9 +29562,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2921, col: 8, offset: 91981},
+															pos: position{line: 2928, col: 8, offset: 92140},
 															expr: &anyMatcher{
-																line: 2921, col: 9, offset: 91982,
+																line: 2928, col: 9, offset: 92141,
 															},
 														},
 													},
@@ -29497,10 +29599,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1535, col: 13, offset: 49645},
 											expr: &actionExpr{
-												pos: position{line: 2902, col: 10, offset: 91633},
+												pos: position{line: 2909, col: 10, offset: 91792},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2902, col: 10, offset: 91633},
+													pos:        position{line: 2909, col: 10, offset: 91792},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29509,25 +29611,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2911, col: 12, offset: 91804},
+											pos: position{line: 2918, col: 12, offset: 91963},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2911, col: 13, offset: 91805},
+												pos: position{line: 2918, col: 13, offset: 91964},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2911, col: 13, offset: 91805},
+														pos:        position{line: 2918, col: 13, offset: 91964},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2911, col: 20, offset: 91812},
+														pos:        position{line: 2918, col: 20, offset: 91971},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2911, col: 29, offset: 91821},
+														pos:        position{line: 2918, col: 29, offset: 91980},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29548,10 +29650,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1543, col: 31, offset: 49887},
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 10, offset: 91633},
+								pos: position{line: 2909, col: 10, offset: 91792},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2902, col: 10, offset: 91633},
+									pos:        position{line: 2909, col: 10, offset: 91792},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29560,25 +29662,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2911, col: 12, offset: 91804},
+							pos: position{line: 2918, col: 12, offset: 91963},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2911, col: 13, offset: 91805},
+								pos: position{line: 2918, col: 13, offset: 91964},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2911, col: 13, offset: 91805},
+										pos:        position{line: 2918, col: 13, offset: 91964},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2911, col: 20, offset: 91812},
+										pos:        position{line: 2918, col: 20, offset: 91971},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2911, col: 29, offset: 91821},
+										pos:        position{line: 2918, col: 29, offset: 91980},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29613,12 +29715,12 @@ var g = &grammar{
 											pos:   position{line: 2512, col: 49, offset: 80597},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2848, col: 13, offset: 90159},
+												pos: position{line: 2855, col: 13, offset: 90318},
 												run: (*parser).callonListContinuation30,
 												expr: &zeroOrMoreExpr{
-													pos: position{line: 2848, col: 13, offset: 90159},
+													pos: position{line: 2855, col: 13, offset: 90318},
 													expr: &charClassMatcher{
-														pos:        position{line: 2848, col: 13, offset: 90159},
+														pos:        position{line: 2855, col: 13, offset: 90318},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -29628,28 +29730,28 @@ var g = &grammar{
 											},
 										},
 										&choiceExpr{
-											pos: position{line: 2924, col: 8, offset: 92031},
+											pos: position{line: 2931, col: 8, offset: 92190},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2911, col: 12, offset: 91804},
+													pos: position{line: 2918, col: 12, offset: 91963},
 													run: (*parser).callonListContinuation34,
 													expr: &choiceExpr{
-														pos: position{line: 2911, col: 13, offset: 91805},
+														pos: position{line: 2918, col: 13, offset: 91964},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2911, col: 13, offset: 91805},
+																pos:        position{line: 2918, col: 13, offset: 91964},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2911, col: 20, offset: 91812},
+																pos:        position{line: 2918, col: 20, offset: 91971},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2911, col: 29, offset: 91821},
+																pos:        position{line: 2918, col: 29, offset: 91980},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -29658,9 +29760,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2921, col: 8, offset: 91981},
+													pos: position{line: 2928, col: 8, offset: 92140},
 													expr: &anyMatcher{
-														line: 2921, col: 9, offset: 91982,
+														line: 2928, col: 9, offset: 92141,
 													},
 												},
 											},
@@ -29694,9 +29796,9 @@ var g = &grammar{
 					pos: position{line: 1546, col: 5, offset: 49974},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2919, col: 11, offset: 91967},
+							pos: position{line: 2926, col: 11, offset: 92126},
 							expr: &anyMatcher{
-								line: 2919, col: 13, offset: 91969,
+								line: 2926, col: 13, offset: 92128,
 							},
 						},
 						&notExpr{
@@ -29722,10 +29824,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1584, col: 5, offset: 51102},
 																	expr: &actionExpr{
-																		pos: position{line: 2902, col: 10, offset: 91633},
+																		pos: position{line: 2909, col: 10, offset: 91792},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2902, col: 10, offset: 91633},
+																			pos:        position{line: 2909, col: 10, offset: 91792},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29892,12 +29994,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2906, col: 11, offset: 91694},
+																	pos: position{line: 2913, col: 11, offset: 91853},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2906, col: 11, offset: 91694},
+																		pos: position{line: 2913, col: 11, offset: 91853},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2906, col: 11, offset: 91694},
+																			pos:        position{line: 2913, col: 11, offset: 91853},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29940,28 +30042,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2924, col: 8, offset: 92031},
+																	pos: position{line: 2931, col: 8, offset: 92190},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2911, col: 12, offset: 91804},
+																			pos: position{line: 2918, col: 12, offset: 91963},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2911, col: 13, offset: 91805},
+																				pos: position{line: 2918, col: 13, offset: 91964},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 13, offset: 91805},
+																						pos:        position{line: 2918, col: 13, offset: 91964},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 20, offset: 91812},
+																						pos:        position{line: 2918, col: 20, offset: 91971},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 29, offset: 91821},
+																						pos:        position{line: 2918, col: 29, offset: 91980},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29970,9 +30072,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2921, col: 8, offset: 91981},
+																			pos: position{line: 2928, col: 8, offset: 92140},
 																			expr: &anyMatcher{
-																				line: 2921, col: 9, offset: 91982,
+																				line: 2928, col: 9, offset: 92141,
 																			},
 																		},
 																	},
@@ -30002,10 +30104,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1634, col: 5, offset: 53064},
 																	expr: &actionExpr{
-																		pos: position{line: 2902, col: 10, offset: 91633},
+																		pos: position{line: 2909, col: 10, offset: 91792},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2902, col: 10, offset: 91633},
+																			pos:        position{line: 2909, col: 10, offset: 91792},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30046,12 +30148,12 @@ var g = &grammar{
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2906, col: 11, offset: 91694},
+																	pos: position{line: 2913, col: 11, offset: 91853},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2906, col: 11, offset: 91694},
+																		pos: position{line: 2913, col: 11, offset: 91853},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2906, col: 11, offset: 91694},
+																			pos:        position{line: 2913, col: 11, offset: 91853},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30123,12 +30225,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2906, col: 11, offset: 91694},
+																		pos: position{line: 2913, col: 11, offset: 91853},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2906, col: 11, offset: 91694},
+																			pos: position{line: 2913, col: 11, offset: 91853},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2906, col: 11, offset: 91694},
+																				pos:        position{line: 2913, col: 11, offset: 91853},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30172,28 +30274,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2924, col: 8, offset: 92031},
+																	pos: position{line: 2931, col: 8, offset: 92190},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2911, col: 12, offset: 91804},
+																			pos: position{line: 2918, col: 12, offset: 91963},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2911, col: 13, offset: 91805},
+																				pos: position{line: 2918, col: 13, offset: 91964},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 13, offset: 91805},
+																						pos:        position{line: 2918, col: 13, offset: 91964},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 20, offset: 91812},
+																						pos:        position{line: 2918, col: 20, offset: 91971},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 29, offset: 91821},
+																						pos:        position{line: 2918, col: 29, offset: 91980},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30202,9 +30304,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2921, col: 8, offset: 91981},
+																			pos: position{line: 2928, col: 8, offset: 92140},
 																			expr: &anyMatcher{
-																				line: 2921, col: 9, offset: 91982,
+																				line: 2928, col: 9, offset: 92141,
 																			},
 																		},
 																	},
@@ -30262,12 +30364,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2906, col: 11, offset: 91694},
+																	pos: position{line: 2913, col: 11, offset: 91853},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2906, col: 11, offset: 91694},
+																		pos: position{line: 2913, col: 11, offset: 91853},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2906, col: 11, offset: 91694},
+																			pos:        position{line: 2913, col: 11, offset: 91853},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30310,28 +30412,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2924, col: 8, offset: 92031},
+																	pos: position{line: 2931, col: 8, offset: 92190},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2911, col: 12, offset: 91804},
+																			pos: position{line: 2918, col: 12, offset: 91963},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2911, col: 13, offset: 91805},
+																				pos: position{line: 2918, col: 13, offset: 91964},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 13, offset: 91805},
+																						pos:        position{line: 2918, col: 13, offset: 91964},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 20, offset: 91812},
+																						pos:        position{line: 2918, col: 20, offset: 91971},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 29, offset: 91821},
+																						pos:        position{line: 2918, col: 29, offset: 91980},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30340,9 +30442,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2921, col: 8, offset: 91981},
+																			pos: position{line: 2928, col: 8, offset: 92140},
 																			expr: &anyMatcher{
-																				line: 2921, col: 9, offset: 91982,
+																				line: 2928, col: 9, offset: 92141,
 																			},
 																		},
 																	},
@@ -30407,28 +30509,28 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 1669, col: 35, offset: 54113},
 																		expr: &choiceExpr{
-																			pos: position{line: 2924, col: 8, offset: 92031},
+																			pos: position{line: 2931, col: 8, offset: 92190},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2911, col: 12, offset: 91804},
+																					pos: position{line: 2918, col: 12, offset: 91963},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2911, col: 13, offset: 91805},
+																						pos: position{line: 2918, col: 13, offset: 91964},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 13, offset: 91805},
+																								pos:        position{line: 2918, col: 13, offset: 91964},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 20, offset: 91812},
+																								pos:        position{line: 2918, col: 20, offset: 91971},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 29, offset: 91821},
+																								pos:        position{line: 2918, col: 29, offset: 91980},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30437,9 +30539,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -30502,10 +30604,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1687, col: 9, offset: 54618},
 																			expr: &actionExpr{
-																				pos: position{line: 2902, col: 10, offset: 91633},
+																				pos: position{line: 2909, col: 10, offset: 91792},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2902, col: 10, offset: 91633},
+																					pos:        position{line: 2909, col: 10, offset: 91792},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30514,28 +30616,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2924, col: 8, offset: 92031},
+																			pos: position{line: 2931, col: 8, offset: 92190},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2911, col: 12, offset: 91804},
+																					pos: position{line: 2918, col: 12, offset: 91963},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2911, col: 13, offset: 91805},
+																						pos: position{line: 2918, col: 13, offset: 91964},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 13, offset: 91805},
+																								pos:        position{line: 2918, col: 13, offset: 91964},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 20, offset: 91812},
+																								pos:        position{line: 2918, col: 20, offset: 91971},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 29, offset: 91821},
+																								pos:        position{line: 2918, col: 29, offset: 91980},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30544,9 +30646,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -30560,18 +30662,18 @@ var g = &grammar{
 																					pos: position{line: 678, col: 14, offset: 21586},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2919, col: 11, offset: 91967},
+																							pos: position{line: 2926, col: 11, offset: 92126},
 																							expr: &anyMatcher{
-																								line: 2919, col: 13, offset: 91969,
+																								line: 2926, col: 13, offset: 92128,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 678, col: 21, offset: 21593},
 																							expr: &actionExpr{
-																								pos: position{line: 2902, col: 10, offset: 91633},
+																								pos: position{line: 2909, col: 10, offset: 91792},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2902, col: 10, offset: 91633},
+																									pos:        position{line: 2909, col: 10, offset: 91792},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30580,28 +30682,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30610,9 +30712,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -30631,12 +30733,12 @@ var g = &grammar{
 																	pos: position{line: 1694, col: 9, offset: 54766},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2906, col: 11, offset: 91694},
+																			pos: position{line: 2913, col: 11, offset: 91853},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2906, col: 11, offset: 91694},
+																				pos: position{line: 2913, col: 11, offset: 91853},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2906, col: 11, offset: 91694},
+																					pos:        position{line: 2913, col: 11, offset: 91853},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30663,28 +30765,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2924, col: 8, offset: 92031},
+																			pos: position{line: 2931, col: 8, offset: 92190},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2911, col: 12, offset: 91804},
+																					pos: position{line: 2918, col: 12, offset: 91963},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2911, col: 13, offset: 91805},
+																						pos: position{line: 2918, col: 13, offset: 91964},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 13, offset: 91805},
+																								pos:        position{line: 2918, col: 13, offset: 91964},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 20, offset: 91812},
+																								pos:        position{line: 2918, col: 20, offset: 91971},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 29, offset: 91821},
+																								pos:        position{line: 2918, col: 29, offset: 91980},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30693,9 +30795,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -30736,18 +30838,18 @@ var g = &grammar{
 											pos: position{line: 678, col: 14, offset: 21586},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2919, col: 11, offset: 91967},
+													pos: position{line: 2926, col: 11, offset: 92126},
 													expr: &anyMatcher{
-														line: 2919, col: 13, offset: 91969,
+														line: 2926, col: 13, offset: 92128,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 678, col: 21, offset: 21593},
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 10, offset: 91633},
+														pos: position{line: 2909, col: 10, offset: 91792},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2902, col: 10, offset: 91633},
+															pos:        position{line: 2909, col: 10, offset: 91792},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30756,28 +30858,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2924, col: 8, offset: 92031},
+													pos: position{line: 2931, col: 8, offset: 92190},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2911, col: 12, offset: 91804},
+															pos: position{line: 2918, col: 12, offset: 91963},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2911, col: 13, offset: 91805},
+																pos: position{line: 2918, col: 13, offset: 91964},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 13, offset: 91805},
+																		pos:        position{line: 2918, col: 13, offset: 91964},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 20, offset: 91812},
+																		pos:        position{line: 2918, col: 20, offset: 91971},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 29, offset: 91821},
+																		pos:        position{line: 2918, col: 29, offset: 91980},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30786,9 +30888,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2921, col: 8, offset: 91981},
+															pos: position{line: 2928, col: 8, offset: 92140},
 															expr: &anyMatcher{
-																line: 2921, col: 9, offset: 91982,
+																line: 2928, col: 9, offset: 92141,
 															},
 														},
 													},
@@ -30853,10 +30955,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 10, offset: 91633},
+														pos: position{line: 2909, col: 10, offset: 91792},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2902, col: 10, offset: 91633},
+															pos:        position{line: 2909, col: 10, offset: 91792},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30865,28 +30967,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2924, col: 8, offset: 92031},
+													pos: position{line: 2931, col: 8, offset: 92190},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2911, col: 12, offset: 91804},
+															pos: position{line: 2918, col: 12, offset: 91963},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2911, col: 13, offset: 91805},
+																pos: position{line: 2918, col: 13, offset: 91964},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 13, offset: 91805},
+																		pos:        position{line: 2918, col: 13, offset: 91964},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 20, offset: 91812},
+																		pos:        position{line: 2918, col: 20, offset: 91971},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 29, offset: 91821},
+																		pos:        position{line: 2918, col: 29, offset: 91980},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30895,9 +30997,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2921, col: 8, offset: 91981},
+															pos: position{line: 2928, col: 8, offset: 92140},
 															expr: &anyMatcher{
-																line: 2921, col: 9, offset: 91982,
+																line: 2928, col: 9, offset: 92141,
 															},
 														},
 													},
@@ -30958,10 +31060,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 10, offset: 91633},
+														pos: position{line: 2909, col: 10, offset: 91792},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2902, col: 10, offset: 91633},
+															pos:        position{line: 2909, col: 10, offset: 91792},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30970,28 +31072,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2924, col: 8, offset: 92031},
+													pos: position{line: 2931, col: 8, offset: 92190},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2911, col: 12, offset: 91804},
+															pos: position{line: 2918, col: 12, offset: 91963},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2911, col: 13, offset: 91805},
+																pos: position{line: 2918, col: 13, offset: 91964},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 13, offset: 91805},
+																		pos:        position{line: 2918, col: 13, offset: 91964},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 20, offset: 91812},
+																		pos:        position{line: 2918, col: 20, offset: 91971},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 29, offset: 91821},
+																		pos:        position{line: 2918, col: 29, offset: 91980},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31000,9 +31102,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2921, col: 8, offset: 91981},
+															pos: position{line: 2928, col: 8, offset: 92140},
 															expr: &anyMatcher{
-																line: 2921, col: 9, offset: 91982,
+																line: 2928, col: 9, offset: 92141,
 															},
 														},
 													},
@@ -31053,10 +31155,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 743, col: 8, offset: 23783},
 																expr: &actionExpr{
-																	pos: position{line: 2902, col: 10, offset: 91633},
+																	pos: position{line: 2909, col: 10, offset: 91792},
 																	run: (*parser).callonListContinuationElement301,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2902, col: 10, offset: 91633},
+																		pos:        position{line: 2909, col: 10, offset: 91792},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31065,28 +31167,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2924, col: 8, offset: 92031},
+																pos: position{line: 2931, col: 8, offset: 92190},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2911, col: 12, offset: 91804},
+																		pos: position{line: 2918, col: 12, offset: 91963},
 																		run: (*parser).callonListContinuationElement304,
 																		expr: &choiceExpr{
-																			pos: position{line: 2911, col: 13, offset: 91805},
+																			pos: position{line: 2918, col: 13, offset: 91964},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2911, col: 13, offset: 91805},
+																					pos:        position{line: 2918, col: 13, offset: 91964},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2911, col: 20, offset: 91812},
+																					pos:        position{line: 2918, col: 20, offset: 91971},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2911, col: 29, offset: 91821},
+																					pos:        position{line: 2918, col: 29, offset: 91980},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31095,9 +31197,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2921, col: 8, offset: 91981},
+																		pos: position{line: 2928, col: 8, offset: 92140},
 																		expr: &anyMatcher{
-																			line: 2921, col: 9, offset: 91982,
+																			line: 2928, col: 9, offset: 92141,
 																		},
 																	},
 																},
@@ -31158,10 +31260,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23783},
 																								expr: &actionExpr{
-																									pos: position{line: 2902, col: 10, offset: 91633},
+																									pos: position{line: 2909, col: 10, offset: 91792},
 																									run: (*parser).callonListContinuationElement326,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2902, col: 10, offset: 91633},
+																										pos:        position{line: 2909, col: 10, offset: 91792},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -31170,28 +31272,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2924, col: 8, offset: 92031},
+																								pos: position{line: 2931, col: 8, offset: 92190},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2911, col: 12, offset: 91804},
+																										pos: position{line: 2918, col: 12, offset: 91963},
 																										run: (*parser).callonListContinuationElement329,
 																										expr: &choiceExpr{
-																											pos: position{line: 2911, col: 13, offset: 91805},
+																											pos: position{line: 2918, col: 13, offset: 91964},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 13, offset: 91805},
+																													pos:        position{line: 2918, col: 13, offset: 91964},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 20, offset: 91812},
+																													pos:        position{line: 2918, col: 20, offset: 91971},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 29, offset: 91821},
+																													pos:        position{line: 2918, col: 29, offset: 91980},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -31200,9 +31302,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2921, col: 8, offset: 91981},
+																										pos: position{line: 2928, col: 8, offset: 92140},
 																										expr: &anyMatcher{
-																											line: 2921, col: 9, offset: 91982,
+																											line: 2928, col: 9, offset: 92141,
 																										},
 																									},
 																								},
@@ -31211,9 +31313,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -31229,21 +31331,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2919, col: 11, offset: 91967},
+																						pos: position{line: 2926, col: 11, offset: 92126},
 																						expr: &anyMatcher{
-																							line: 2919, col: 13, offset: 91969,
+																							line: 2926, col: 13, offset: 92128,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2848, col: 13, offset: 90159},
+																							pos: position{line: 2855, col: 13, offset: 90318},
 																							run: (*parser).callonListContinuationElement344,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2848, col: 13, offset: 90159},
+																								pos: position{line: 2855, col: 13, offset: 90318},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2848, col: 13, offset: 90159},
+																									pos:        position{line: 2855, col: 13, offset: 90318},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31253,28 +31355,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2924, col: 8, offset: 92031},
+																						pos: position{line: 2931, col: 8, offset: 92190},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2911, col: 12, offset: 91804},
+																								pos: position{line: 2918, col: 12, offset: 91963},
 																								run: (*parser).callonListContinuationElement348,
 																								expr: &choiceExpr{
-																									pos: position{line: 2911, col: 13, offset: 91805},
+																									pos: position{line: 2918, col: 13, offset: 91964},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 13, offset: 91805},
+																											pos:        position{line: 2918, col: 13, offset: 91964},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 20, offset: 91812},
+																											pos:        position{line: 2918, col: 20, offset: 91971},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 29, offset: 91821},
+																											pos:        position{line: 2918, col: 29, offset: 91980},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31283,9 +31385,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2921, col: 8, offset: 91981},
+																								pos: position{line: 2928, col: 8, offset: 92140},
 																								expr: &anyMatcher{
-																									line: 2921, col: 9, offset: 91982,
+																									line: 2928, col: 9, offset: 92141,
 																								},
 																							},
 																						},
@@ -31341,10 +31443,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23783},
 																			expr: &actionExpr{
-																				pos: position{line: 2902, col: 10, offset: 91633},
+																				pos: position{line: 2909, col: 10, offset: 91792},
 																				run: (*parser).callonListContinuationElement366,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2902, col: 10, offset: 91633},
+																					pos:        position{line: 2909, col: 10, offset: 91792},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31353,28 +31455,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2924, col: 8, offset: 92031},
+																			pos: position{line: 2931, col: 8, offset: 92190},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2911, col: 12, offset: 91804},
+																					pos: position{line: 2918, col: 12, offset: 91963},
 																					run: (*parser).callonListContinuationElement369,
 																					expr: &choiceExpr{
-																						pos: position{line: 2911, col: 13, offset: 91805},
+																						pos: position{line: 2918, col: 13, offset: 91964},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 13, offset: 91805},
+																								pos:        position{line: 2918, col: 13, offset: 91964},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 20, offset: 91812},
+																								pos:        position{line: 2918, col: 20, offset: 91971},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 29, offset: 91821},
+																								pos:        position{line: 2918, col: 29, offset: 91980},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31383,9 +31485,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -31394,9 +31496,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2921, col: 8, offset: 91981},
+																pos: position{line: 2928, col: 8, offset: 92140},
 																expr: &anyMatcher{
-																	line: 2921, col: 9, offset: 91982,
+																	line: 2928, col: 9, offset: 92141,
 																},
 															},
 														},
@@ -31451,10 +31553,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 750, col: 8, offset: 24031},
 																	expr: &actionExpr{
-																		pos: position{line: 2902, col: 10, offset: 91633},
+																		pos: position{line: 2909, col: 10, offset: 91792},
 																		run: (*parser).callonListContinuationElement390,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2902, col: 10, offset: 91633},
+																			pos:        position{line: 2909, col: 10, offset: 91792},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31463,28 +31565,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2924, col: 8, offset: 92031},
+																	pos: position{line: 2931, col: 8, offset: 92190},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2911, col: 12, offset: 91804},
+																			pos: position{line: 2918, col: 12, offset: 91963},
 																			run: (*parser).callonListContinuationElement393,
 																			expr: &choiceExpr{
-																				pos: position{line: 2911, col: 13, offset: 91805},
+																				pos: position{line: 2918, col: 13, offset: 91964},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 13, offset: 91805},
+																						pos:        position{line: 2918, col: 13, offset: 91964},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 20, offset: 91812},
+																						pos:        position{line: 2918, col: 20, offset: 91971},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 29, offset: 91821},
+																						pos:        position{line: 2918, col: 29, offset: 91980},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31493,9 +31595,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2921, col: 8, offset: 91981},
+																			pos: position{line: 2928, col: 8, offset: 92140},
 																			expr: &anyMatcher{
-																				line: 2921, col: 9, offset: 91982,
+																				line: 2928, col: 9, offset: 92141,
 																			},
 																		},
 																	},
@@ -31567,10 +31669,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 750, col: 8, offset: 24031},
 																											expr: &actionExpr{
-																												pos: position{line: 2902, col: 10, offset: 91633},
+																												pos: position{line: 2909, col: 10, offset: 91792},
 																												run: (*parser).callonListContinuationElement418,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2902, col: 10, offset: 91633},
+																													pos:        position{line: 2909, col: 10, offset: 91792},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31579,28 +31681,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2924, col: 8, offset: 92031},
+																											pos: position{line: 2931, col: 8, offset: 92190},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2911, col: 12, offset: 91804},
+																													pos: position{line: 2918, col: 12, offset: 91963},
 																													run: (*parser).callonListContinuationElement421,
 																													expr: &choiceExpr{
-																														pos: position{line: 2911, col: 13, offset: 91805},
+																														pos: position{line: 2918, col: 13, offset: 91964},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 13, offset: 91805},
+																																pos:        position{line: 2918, col: 13, offset: 91964},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 20, offset: 91812},
+																																pos:        position{line: 2918, col: 20, offset: 91971},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 29, offset: 91821},
+																																pos:        position{line: 2918, col: 29, offset: 91980},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31609,9 +31711,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2921, col: 8, offset: 91981},
+																													pos: position{line: 2928, col: 8, offset: 92140},
 																													expr: &anyMatcher{
-																														line: 2921, col: 9, offset: 91982,
+																														line: 2928, col: 9, offset: 92141,
 																													},
 																												},
 																											},
@@ -31627,9 +31729,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -31645,21 +31747,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2919, col: 11, offset: 91967},
+																						pos: position{line: 2926, col: 11, offset: 92126},
 																						expr: &anyMatcher{
-																							line: 2919, col: 13, offset: 91969,
+																							line: 2926, col: 13, offset: 92128,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2848, col: 13, offset: 90159},
+																							pos: position{line: 2855, col: 13, offset: 90318},
 																							run: (*parser).callonListContinuationElement437,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2848, col: 13, offset: 90159},
+																								pos: position{line: 2855, col: 13, offset: 90318},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2848, col: 13, offset: 90159},
+																									pos:        position{line: 2855, col: 13, offset: 90318},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31669,28 +31771,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2924, col: 8, offset: 92031},
+																						pos: position{line: 2931, col: 8, offset: 92190},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2911, col: 12, offset: 91804},
+																								pos: position{line: 2918, col: 12, offset: 91963},
 																								run: (*parser).callonListContinuationElement441,
 																								expr: &choiceExpr{
-																									pos: position{line: 2911, col: 13, offset: 91805},
+																									pos: position{line: 2918, col: 13, offset: 91964},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 13, offset: 91805},
+																											pos:        position{line: 2918, col: 13, offset: 91964},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 20, offset: 91812},
+																											pos:        position{line: 2918, col: 20, offset: 91971},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 29, offset: 91821},
+																											pos:        position{line: 2918, col: 29, offset: 91980},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31699,9 +31801,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2921, col: 8, offset: 91981},
+																								pos: position{line: 2928, col: 8, offset: 92140},
 																								expr: &anyMatcher{
-																									line: 2921, col: 9, offset: 91982,
+																									line: 2928, col: 9, offset: 92141,
 																								},
 																							},
 																						},
@@ -31766,10 +31868,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 750, col: 8, offset: 24031},
 																							expr: &actionExpr{
-																								pos: position{line: 2902, col: 10, offset: 91633},
+																								pos: position{line: 2909, col: 10, offset: 91792},
 																								run: (*parser).callonListContinuationElement462,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2902, col: 10, offset: 91633},
+																									pos:        position{line: 2909, col: 10, offset: 91792},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31778,28 +31880,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonListContinuationElement465,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31808,9 +31910,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -31826,9 +31928,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2921, col: 8, offset: 91981},
+																	pos: position{line: 2928, col: 8, offset: 92140},
 																	expr: &anyMatcher{
-																		line: 2921, col: 9, offset: 91982,
+																		line: 2928, col: 9, offset: 92141,
 																	},
 																},
 															},
@@ -31880,10 +31982,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 761, col: 52, offset: 24443},
 																	expr: &actionExpr{
-																		pos: position{line: 2902, col: 10, offset: 91633},
+																		pos: position{line: 2909, col: 10, offset: 91792},
 																		run: (*parser).callonListContinuationElement486,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2902, col: 10, offset: 91633},
+																			pos:        position{line: 2909, col: 10, offset: 91792},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31892,28 +31994,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2924, col: 8, offset: 92031},
+																	pos: position{line: 2931, col: 8, offset: 92190},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2911, col: 12, offset: 91804},
+																			pos: position{line: 2918, col: 12, offset: 91963},
 																			run: (*parser).callonListContinuationElement489,
 																			expr: &choiceExpr{
-																				pos: position{line: 2911, col: 13, offset: 91805},
+																				pos: position{line: 2918, col: 13, offset: 91964},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 13, offset: 91805},
+																						pos:        position{line: 2918, col: 13, offset: 91964},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 20, offset: 91812},
+																						pos:        position{line: 2918, col: 20, offset: 91971},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 29, offset: 91821},
+																						pos:        position{line: 2918, col: 29, offset: 91980},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31922,9 +32024,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2921, col: 8, offset: 91981},
+																			pos: position{line: 2928, col: 8, offset: 92140},
 																			expr: &anyMatcher{
-																				line: 2921, col: 9, offset: 91982,
+																				line: 2928, col: 9, offset: 92141,
 																			},
 																		},
 																	},
@@ -31958,10 +32060,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 964, col: 40, offset: 30246},
 																					expr: &actionExpr{
-																						pos: position{line: 2902, col: 10, offset: 91633},
+																						pos: position{line: 2909, col: 10, offset: 91792},
 																						run: (*parser).callonListContinuationElement504,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2902, col: 10, offset: 91633},
+																							pos:        position{line: 2909, col: 10, offset: 91792},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -31970,28 +32072,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2924, col: 8, offset: 92031},
+																					pos: position{line: 2931, col: 8, offset: 92190},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2911, col: 12, offset: 91804},
+																							pos: position{line: 2918, col: 12, offset: 91963},
 																							run: (*parser).callonListContinuationElement507,
 																							expr: &choiceExpr{
-																								pos: position{line: 2911, col: 13, offset: 91805},
+																								pos: position{line: 2918, col: 13, offset: 91964},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 13, offset: 91805},
+																										pos:        position{line: 2918, col: 13, offset: 91964},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 20, offset: 91812},
+																										pos:        position{line: 2918, col: 20, offset: 91971},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 29, offset: 91821},
+																										pos:        position{line: 2918, col: 29, offset: 91980},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32000,9 +32102,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2921, col: 8, offset: 91981},
+																							pos: position{line: 2928, col: 8, offset: 92140},
 																							expr: &anyMatcher{
-																								line: 2921, col: 9, offset: 91982,
+																								line: 2928, col: 9, offset: 92141,
 																							},
 																						},
 																					},
@@ -32020,21 +32122,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2919, col: 11, offset: 91967},
+																						pos: position{line: 2926, col: 11, offset: 92126},
 																						expr: &anyMatcher{
-																							line: 2919, col: 13, offset: 91969,
+																							line: 2926, col: 13, offset: 92128,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2848, col: 13, offset: 90159},
+																							pos: position{line: 2855, col: 13, offset: 90318},
 																							run: (*parser).callonListContinuationElement520,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2848, col: 13, offset: 90159},
+																								pos: position{line: 2855, col: 13, offset: 90318},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2848, col: 13, offset: 90159},
+																									pos:        position{line: 2855, col: 13, offset: 90318},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32044,28 +32146,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2924, col: 8, offset: 92031},
+																						pos: position{line: 2931, col: 8, offset: 92190},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2911, col: 12, offset: 91804},
+																								pos: position{line: 2918, col: 12, offset: 91963},
 																								run: (*parser).callonListContinuationElement524,
 																								expr: &choiceExpr{
-																									pos: position{line: 2911, col: 13, offset: 91805},
+																									pos: position{line: 2918, col: 13, offset: 91964},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 13, offset: 91805},
+																											pos:        position{line: 2918, col: 13, offset: 91964},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 20, offset: 91812},
+																											pos:        position{line: 2918, col: 20, offset: 91971},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 29, offset: 91821},
+																											pos:        position{line: 2918, col: 29, offset: 91980},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32074,9 +32176,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2921, col: 8, offset: 91981},
+																								pos: position{line: 2928, col: 8, offset: 92140},
 																								expr: &anyMatcher{
-																									line: 2921, col: 9, offset: 91982,
+																									line: 2928, col: 9, offset: 92141,
 																								},
 																							},
 																						},
@@ -32104,10 +32206,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 964, col: 40, offset: 30246},
 																expr: &actionExpr{
-																	pos: position{line: 2902, col: 10, offset: 91633},
+																	pos: position{line: 2909, col: 10, offset: 91792},
 																	run: (*parser).callonListContinuationElement535,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2902, col: 10, offset: 91633},
+																		pos:        position{line: 2909, col: 10, offset: 91792},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32116,28 +32218,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2924, col: 8, offset: 92031},
+																pos: position{line: 2931, col: 8, offset: 92190},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2911, col: 12, offset: 91804},
+																		pos: position{line: 2918, col: 12, offset: 91963},
 																		run: (*parser).callonListContinuationElement538,
 																		expr: &choiceExpr{
-																			pos: position{line: 2911, col: 13, offset: 91805},
+																			pos: position{line: 2918, col: 13, offset: 91964},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2911, col: 13, offset: 91805},
+																					pos:        position{line: 2918, col: 13, offset: 91964},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2911, col: 20, offset: 91812},
+																					pos:        position{line: 2918, col: 20, offset: 91971},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2911, col: 29, offset: 91821},
+																					pos:        position{line: 2918, col: 29, offset: 91980},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32146,9 +32248,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2921, col: 8, offset: 91981},
+																		pos: position{line: 2928, col: 8, offset: 92140},
 																		expr: &anyMatcher{
-																			line: 2921, col: 9, offset: 91982,
+																			line: 2928, col: 9, offset: 92141,
 																		},
 																	},
 																},
@@ -32205,10 +32307,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 757, col: 8, offset: 24277},
 																	expr: &actionExpr{
-																		pos: position{line: 2902, col: 10, offset: 91633},
+																		pos: position{line: 2909, col: 10, offset: 91792},
 																		run: (*parser).callonListContinuationElement557,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2902, col: 10, offset: 91633},
+																			pos:        position{line: 2909, col: 10, offset: 91792},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32217,28 +32319,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2924, col: 8, offset: 92031},
+																	pos: position{line: 2931, col: 8, offset: 92190},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2911, col: 12, offset: 91804},
+																			pos: position{line: 2918, col: 12, offset: 91963},
 																			run: (*parser).callonListContinuationElement560,
 																			expr: &choiceExpr{
-																				pos: position{line: 2911, col: 13, offset: 91805},
+																				pos: position{line: 2918, col: 13, offset: 91964},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 13, offset: 91805},
+																						pos:        position{line: 2918, col: 13, offset: 91964},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 20, offset: 91812},
+																						pos:        position{line: 2918, col: 20, offset: 91971},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 29, offset: 91821},
+																						pos:        position{line: 2918, col: 29, offset: 91980},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32247,9 +32349,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2921, col: 8, offset: 91981},
+																			pos: position{line: 2928, col: 8, offset: 92140},
 																			expr: &anyMatcher{
-																				line: 2921, col: 9, offset: 91982,
+																				line: 2928, col: 9, offset: 92141,
 																			},
 																		},
 																	},
@@ -32321,10 +32423,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 757, col: 8, offset: 24277},
 																											expr: &actionExpr{
-																												pos: position{line: 2902, col: 10, offset: 91633},
+																												pos: position{line: 2909, col: 10, offset: 91792},
 																												run: (*parser).callonListContinuationElement585,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2902, col: 10, offset: 91633},
+																													pos:        position{line: 2909, col: 10, offset: 91792},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32333,28 +32435,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2924, col: 8, offset: 92031},
+																											pos: position{line: 2931, col: 8, offset: 92190},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2911, col: 12, offset: 91804},
+																													pos: position{line: 2918, col: 12, offset: 91963},
 																													run: (*parser).callonListContinuationElement588,
 																													expr: &choiceExpr{
-																														pos: position{line: 2911, col: 13, offset: 91805},
+																														pos: position{line: 2918, col: 13, offset: 91964},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 13, offset: 91805},
+																																pos:        position{line: 2918, col: 13, offset: 91964},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 20, offset: 91812},
+																																pos:        position{line: 2918, col: 20, offset: 91971},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 29, offset: 91821},
+																																pos:        position{line: 2918, col: 29, offset: 91980},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32363,9 +32465,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2921, col: 8, offset: 91981},
+																													pos: position{line: 2928, col: 8, offset: 92140},
 																													expr: &anyMatcher{
-																														line: 2921, col: 9, offset: 91982,
+																														line: 2928, col: 9, offset: 92141,
 																													},
 																												},
 																											},
@@ -32381,9 +32483,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -32399,21 +32501,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2919, col: 11, offset: 91967},
+																						pos: position{line: 2926, col: 11, offset: 92126},
 																						expr: &anyMatcher{
-																							line: 2919, col: 13, offset: 91969,
+																							line: 2926, col: 13, offset: 92128,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2848, col: 13, offset: 90159},
+																							pos: position{line: 2855, col: 13, offset: 90318},
 																							run: (*parser).callonListContinuationElement604,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2848, col: 13, offset: 90159},
+																								pos: position{line: 2855, col: 13, offset: 90318},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2848, col: 13, offset: 90159},
+																									pos:        position{line: 2855, col: 13, offset: 90318},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32423,28 +32525,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2924, col: 8, offset: 92031},
+																						pos: position{line: 2931, col: 8, offset: 92190},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2911, col: 12, offset: 91804},
+																								pos: position{line: 2918, col: 12, offset: 91963},
 																								run: (*parser).callonListContinuationElement608,
 																								expr: &choiceExpr{
-																									pos: position{line: 2911, col: 13, offset: 91805},
+																									pos: position{line: 2918, col: 13, offset: 91964},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 13, offset: 91805},
+																											pos:        position{line: 2918, col: 13, offset: 91964},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 20, offset: 91812},
+																											pos:        position{line: 2918, col: 20, offset: 91971},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 29, offset: 91821},
+																											pos:        position{line: 2918, col: 29, offset: 91980},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32453,9 +32555,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2921, col: 8, offset: 91981},
+																								pos: position{line: 2928, col: 8, offset: 92140},
 																								expr: &anyMatcher{
-																									line: 2921, col: 9, offset: 91982,
+																									line: 2928, col: 9, offset: 92141,
 																								},
 																							},
 																						},
@@ -32520,10 +32622,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 757, col: 8, offset: 24277},
 																							expr: &actionExpr{
-																								pos: position{line: 2902, col: 10, offset: 91633},
+																								pos: position{line: 2909, col: 10, offset: 91792},
 																								run: (*parser).callonListContinuationElement629,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2902, col: 10, offset: 91633},
+																									pos:        position{line: 2909, col: 10, offset: 91792},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32532,28 +32634,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonListContinuationElement632,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32562,9 +32664,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -32580,9 +32682,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2921, col: 8, offset: 91981},
+																	pos: position{line: 2928, col: 8, offset: 92140},
 																	expr: &anyMatcher{
-																		line: 2921, col: 9, offset: 91982,
+																		line: 2928, col: 9, offset: 92141,
 																	},
 																},
 															},
@@ -32638,10 +32740,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 772, col: 8, offset: 24815},
 																	expr: &actionExpr{
-																		pos: position{line: 2902, col: 10, offset: 91633},
+																		pos: position{line: 2909, col: 10, offset: 91792},
 																		run: (*parser).callonListContinuationElement654,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2902, col: 10, offset: 91633},
+																			pos:        position{line: 2909, col: 10, offset: 91792},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32650,28 +32752,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2924, col: 8, offset: 92031},
+																	pos: position{line: 2931, col: 8, offset: 92190},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2911, col: 12, offset: 91804},
+																			pos: position{line: 2918, col: 12, offset: 91963},
 																			run: (*parser).callonListContinuationElement657,
 																			expr: &choiceExpr{
-																				pos: position{line: 2911, col: 13, offset: 91805},
+																				pos: position{line: 2918, col: 13, offset: 91964},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 13, offset: 91805},
+																						pos:        position{line: 2918, col: 13, offset: 91964},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 20, offset: 91812},
+																						pos:        position{line: 2918, col: 20, offset: 91971},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 29, offset: 91821},
+																						pos:        position{line: 2918, col: 29, offset: 91980},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32680,9 +32782,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2921, col: 8, offset: 91981},
+																			pos: position{line: 2928, col: 8, offset: 92140},
 																			expr: &anyMatcher{
-																				line: 2921, col: 9, offset: 91982,
+																				line: 2928, col: 9, offset: 92141,
 																			},
 																		},
 																	},
@@ -32754,10 +32856,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 772, col: 8, offset: 24815},
 																											expr: &actionExpr{
-																												pos: position{line: 2902, col: 10, offset: 91633},
+																												pos: position{line: 2909, col: 10, offset: 91792},
 																												run: (*parser).callonListContinuationElement682,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2902, col: 10, offset: 91633},
+																													pos:        position{line: 2909, col: 10, offset: 91792},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32766,28 +32868,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2924, col: 8, offset: 92031},
+																											pos: position{line: 2931, col: 8, offset: 92190},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2911, col: 12, offset: 91804},
+																													pos: position{line: 2918, col: 12, offset: 91963},
 																													run: (*parser).callonListContinuationElement685,
 																													expr: &choiceExpr{
-																														pos: position{line: 2911, col: 13, offset: 91805},
+																														pos: position{line: 2918, col: 13, offset: 91964},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 13, offset: 91805},
+																																pos:        position{line: 2918, col: 13, offset: 91964},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 20, offset: 91812},
+																																pos:        position{line: 2918, col: 20, offset: 91971},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 29, offset: 91821},
+																																pos:        position{line: 2918, col: 29, offset: 91980},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32796,9 +32898,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2921, col: 8, offset: 91981},
+																													pos: position{line: 2928, col: 8, offset: 92140},
 																													expr: &anyMatcher{
-																														line: 2921, col: 9, offset: 91982,
+																														line: 2928, col: 9, offset: 92141,
 																													},
 																												},
 																											},
@@ -32814,9 +32916,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -32832,21 +32934,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2919, col: 11, offset: 91967},
+																						pos: position{line: 2926, col: 11, offset: 92126},
 																						expr: &anyMatcher{
-																							line: 2919, col: 13, offset: 91969,
+																							line: 2926, col: 13, offset: 92128,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2848, col: 13, offset: 90159},
+																							pos: position{line: 2855, col: 13, offset: 90318},
 																							run: (*parser).callonListContinuationElement701,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2848, col: 13, offset: 90159},
+																								pos: position{line: 2855, col: 13, offset: 90318},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2848, col: 13, offset: 90159},
+																									pos:        position{line: 2855, col: 13, offset: 90318},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32856,28 +32958,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2924, col: 8, offset: 92031},
+																						pos: position{line: 2931, col: 8, offset: 92190},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2911, col: 12, offset: 91804},
+																								pos: position{line: 2918, col: 12, offset: 91963},
 																								run: (*parser).callonListContinuationElement705,
 																								expr: &choiceExpr{
-																									pos: position{line: 2911, col: 13, offset: 91805},
+																									pos: position{line: 2918, col: 13, offset: 91964},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 13, offset: 91805},
+																											pos:        position{line: 2918, col: 13, offset: 91964},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 20, offset: 91812},
+																											pos:        position{line: 2918, col: 20, offset: 91971},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 29, offset: 91821},
+																											pos:        position{line: 2918, col: 29, offset: 91980},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32886,9 +32988,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2921, col: 8, offset: 91981},
+																								pos: position{line: 2928, col: 8, offset: 92140},
 																								expr: &anyMatcher{
-																									line: 2921, col: 9, offset: 91982,
+																									line: 2928, col: 9, offset: 92141,
 																								},
 																							},
 																						},
@@ -32953,10 +33055,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 772, col: 8, offset: 24815},
 																							expr: &actionExpr{
-																								pos: position{line: 2902, col: 10, offset: 91633},
+																								pos: position{line: 2909, col: 10, offset: 91792},
 																								run: (*parser).callonListContinuationElement726,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2902, col: 10, offset: 91633},
+																									pos:        position{line: 2909, col: 10, offset: 91792},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32965,28 +33067,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonListContinuationElement729,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32995,9 +33097,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -33013,9 +33115,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2921, col: 8, offset: 91981},
+																	pos: position{line: 2928, col: 8, offset: 92140},
 																	expr: &anyMatcher{
-																		line: 2921, col: 9, offset: 91982,
+																		line: 2928, col: 9, offset: 92141,
 																	},
 																},
 															},
@@ -33071,10 +33173,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 786, col: 8, offset: 25291},
 																	expr: &actionExpr{
-																		pos: position{line: 2902, col: 10, offset: 91633},
+																		pos: position{line: 2909, col: 10, offset: 91792},
 																		run: (*parser).callonListContinuationElement751,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2902, col: 10, offset: 91633},
+																			pos:        position{line: 2909, col: 10, offset: 91792},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33083,28 +33185,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2924, col: 8, offset: 92031},
+																	pos: position{line: 2931, col: 8, offset: 92190},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2911, col: 12, offset: 91804},
+																			pos: position{line: 2918, col: 12, offset: 91963},
 																			run: (*parser).callonListContinuationElement754,
 																			expr: &choiceExpr{
-																				pos: position{line: 2911, col: 13, offset: 91805},
+																				pos: position{line: 2918, col: 13, offset: 91964},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 13, offset: 91805},
+																						pos:        position{line: 2918, col: 13, offset: 91964},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 20, offset: 91812},
+																						pos:        position{line: 2918, col: 20, offset: 91971},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 29, offset: 91821},
+																						pos:        position{line: 2918, col: 29, offset: 91980},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33113,9 +33215,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2921, col: 8, offset: 91981},
+																			pos: position{line: 2928, col: 8, offset: 92140},
 																			expr: &anyMatcher{
-																				line: 2921, col: 9, offset: 91982,
+																				line: 2928, col: 9, offset: 92141,
 																			},
 																		},
 																	},
@@ -33187,10 +33289,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 786, col: 8, offset: 25291},
 																											expr: &actionExpr{
-																												pos: position{line: 2902, col: 10, offset: 91633},
+																												pos: position{line: 2909, col: 10, offset: 91792},
 																												run: (*parser).callonListContinuationElement779,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2902, col: 10, offset: 91633},
+																													pos:        position{line: 2909, col: 10, offset: 91792},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33199,28 +33301,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2924, col: 8, offset: 92031},
+																											pos: position{line: 2931, col: 8, offset: 92190},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2911, col: 12, offset: 91804},
+																													pos: position{line: 2918, col: 12, offset: 91963},
 																													run: (*parser).callonListContinuationElement782,
 																													expr: &choiceExpr{
-																														pos: position{line: 2911, col: 13, offset: 91805},
+																														pos: position{line: 2918, col: 13, offset: 91964},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 13, offset: 91805},
+																																pos:        position{line: 2918, col: 13, offset: 91964},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 20, offset: 91812},
+																																pos:        position{line: 2918, col: 20, offset: 91971},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 29, offset: 91821},
+																																pos:        position{line: 2918, col: 29, offset: 91980},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33229,9 +33331,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2921, col: 8, offset: 91981},
+																													pos: position{line: 2928, col: 8, offset: 92140},
 																													expr: &anyMatcher{
-																														line: 2921, col: 9, offset: 91982,
+																														line: 2928, col: 9, offset: 92141,
 																													},
 																												},
 																											},
@@ -33247,9 +33349,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -33265,21 +33367,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2919, col: 11, offset: 91967},
+																						pos: position{line: 2926, col: 11, offset: 92126},
 																						expr: &anyMatcher{
-																							line: 2919, col: 13, offset: 91969,
+																							line: 2926, col: 13, offset: 92128,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2848, col: 13, offset: 90159},
+																							pos: position{line: 2855, col: 13, offset: 90318},
 																							run: (*parser).callonListContinuationElement798,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2848, col: 13, offset: 90159},
+																								pos: position{line: 2855, col: 13, offset: 90318},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2848, col: 13, offset: 90159},
+																									pos:        position{line: 2855, col: 13, offset: 90318},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33289,28 +33391,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2924, col: 8, offset: 92031},
+																						pos: position{line: 2931, col: 8, offset: 92190},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2911, col: 12, offset: 91804},
+																								pos: position{line: 2918, col: 12, offset: 91963},
 																								run: (*parser).callonListContinuationElement802,
 																								expr: &choiceExpr{
-																									pos: position{line: 2911, col: 13, offset: 91805},
+																									pos: position{line: 2918, col: 13, offset: 91964},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 13, offset: 91805},
+																											pos:        position{line: 2918, col: 13, offset: 91964},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 20, offset: 91812},
+																											pos:        position{line: 2918, col: 20, offset: 91971},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 29, offset: 91821},
+																											pos:        position{line: 2918, col: 29, offset: 91980},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33319,9 +33421,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2921, col: 8, offset: 91981},
+																								pos: position{line: 2928, col: 8, offset: 92140},
 																								expr: &anyMatcher{
-																									line: 2921, col: 9, offset: 91982,
+																									line: 2928, col: 9, offset: 92141,
 																								},
 																							},
 																						},
@@ -33386,10 +33488,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 786, col: 8, offset: 25291},
 																							expr: &actionExpr{
-																								pos: position{line: 2902, col: 10, offset: 91633},
+																								pos: position{line: 2909, col: 10, offset: 91792},
 																								run: (*parser).callonListContinuationElement823,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2902, col: 10, offset: 91633},
+																									pos:        position{line: 2909, col: 10, offset: 91792},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33398,28 +33500,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonListContinuationElement826,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33428,9 +33530,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -33446,9 +33548,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2921, col: 8, offset: 91981},
+																	pos: position{line: 2928, col: 8, offset: 92140},
 																	expr: &anyMatcher{
-																		line: 2921, col: 9, offset: 91982,
+																		line: 2928, col: 9, offset: 92141,
 																	},
 																},
 															},
@@ -33482,18 +33584,18 @@ var g = &grammar{
 																			pos: position{line: 678, col: 14, offset: 21586},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2919, col: 11, offset: 91967},
+																					pos: position{line: 2926, col: 11, offset: 92126},
 																					expr: &anyMatcher{
-																						line: 2919, col: 13, offset: 91969,
+																						line: 2926, col: 13, offset: 92128,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 678, col: 21, offset: 21593},
 																					expr: &actionExpr{
-																						pos: position{line: 2902, col: 10, offset: 91633},
+																						pos: position{line: 2909, col: 10, offset: 91792},
 																						run: (*parser).callonListContinuationElement847,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2902, col: 10, offset: 91633},
+																							pos:        position{line: 2909, col: 10, offset: 91792},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33502,28 +33604,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2924, col: 8, offset: 92031},
+																					pos: position{line: 2931, col: 8, offset: 92190},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2911, col: 12, offset: 91804},
+																							pos: position{line: 2918, col: 12, offset: 91963},
 																							run: (*parser).callonListContinuationElement850,
 																							expr: &choiceExpr{
-																								pos: position{line: 2911, col: 13, offset: 91805},
+																								pos: position{line: 2918, col: 13, offset: 91964},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 13, offset: 91805},
+																										pos:        position{line: 2918, col: 13, offset: 91964},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 20, offset: 91812},
+																										pos:        position{line: 2918, col: 20, offset: 91971},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 29, offset: 91821},
+																										pos:        position{line: 2918, col: 29, offset: 91980},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33532,9 +33634,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2921, col: 8, offset: 91981},
+																							pos: position{line: 2928, col: 8, offset: 92140},
 																							expr: &anyMatcher{
-																								line: 2921, col: 9, offset: 91982,
+																								line: 2928, col: 9, offset: 92141,
 																							},
 																						},
 																					},
@@ -33553,12 +33655,12 @@ var g = &grammar{
 																	pos:   position{line: 985, col: 5, offset: 30781},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 14, offset: 90226},
+																		pos: position{line: 2859, col: 14, offset: 90385},
 																		run: (*parser).callonListContinuationElement859,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2852, col: 14, offset: 90226},
+																			pos: position{line: 2859, col: 14, offset: 90385},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 14, offset: 90226},
+																				pos:        position{line: 2859, col: 14, offset: 90385},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33568,28 +33670,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2924, col: 8, offset: 92031},
+																	pos: position{line: 2931, col: 8, offset: 92190},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2911, col: 12, offset: 91804},
+																			pos: position{line: 2918, col: 12, offset: 91963},
 																			run: (*parser).callonListContinuationElement863,
 																			expr: &choiceExpr{
-																				pos: position{line: 2911, col: 13, offset: 91805},
+																				pos: position{line: 2918, col: 13, offset: 91964},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 13, offset: 91805},
+																						pos:        position{line: 2918, col: 13, offset: 91964},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 20, offset: 91812},
+																						pos:        position{line: 2918, col: 20, offset: 91971},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 29, offset: 91821},
+																						pos:        position{line: 2918, col: 29, offset: 91980},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33598,9 +33700,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2921, col: 8, offset: 91981},
+																			pos: position{line: 2928, col: 8, offset: 92140},
 																			expr: &anyMatcher{
-																				line: 2921, col: 9, offset: 91982,
+																				line: 2928, col: 9, offset: 92141,
 																			},
 																		},
 																	},
@@ -33632,18 +33734,18 @@ var g = &grammar{
 																						pos: position{line: 678, col: 14, offset: 21586},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2919, col: 11, offset: 91967},
+																								pos: position{line: 2926, col: 11, offset: 92126},
 																								expr: &anyMatcher{
-																									line: 2919, col: 13, offset: 91969,
+																									line: 2926, col: 13, offset: 92128,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 678, col: 21, offset: 21593},
 																								expr: &actionExpr{
-																									pos: position{line: 2902, col: 10, offset: 91633},
+																									pos: position{line: 2909, col: 10, offset: 91792},
 																									run: (*parser).callonListContinuationElement881,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2902, col: 10, offset: 91633},
+																										pos:        position{line: 2909, col: 10, offset: 91792},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33652,28 +33754,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2924, col: 8, offset: 92031},
+																								pos: position{line: 2931, col: 8, offset: 92190},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2911, col: 12, offset: 91804},
+																										pos: position{line: 2918, col: 12, offset: 91963},
 																										run: (*parser).callonListContinuationElement884,
 																										expr: &choiceExpr{
-																											pos: position{line: 2911, col: 13, offset: 91805},
+																											pos: position{line: 2918, col: 13, offset: 91964},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 13, offset: 91805},
+																													pos:        position{line: 2918, col: 13, offset: 91964},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 20, offset: 91812},
+																													pos:        position{line: 2918, col: 20, offset: 91971},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 29, offset: 91821},
+																													pos:        position{line: 2918, col: 29, offset: 91980},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33682,9 +33784,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2921, col: 8, offset: 91981},
+																										pos: position{line: 2928, col: 8, offset: 92140},
 																										expr: &anyMatcher{
-																											line: 2921, col: 9, offset: 91982,
+																											line: 2928, col: 9, offset: 92141,
 																										},
 																									},
 																								},
@@ -33703,12 +33805,12 @@ var g = &grammar{
 																				pos:   position{line: 985, col: 5, offset: 30781},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 14, offset: 90226},
+																					pos: position{line: 2859, col: 14, offset: 90385},
 																					run: (*parser).callonListContinuationElement893,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2852, col: 14, offset: 90226},
+																						pos: position{line: 2859, col: 14, offset: 90385},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 14, offset: 90226},
+																							pos:        position{line: 2859, col: 14, offset: 90385},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33718,28 +33820,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2924, col: 8, offset: 92031},
+																				pos: position{line: 2931, col: 8, offset: 92190},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2911, col: 12, offset: 91804},
+																						pos: position{line: 2918, col: 12, offset: 91963},
 																						run: (*parser).callonListContinuationElement897,
 																						expr: &choiceExpr{
-																							pos: position{line: 2911, col: 13, offset: 91805},
+																							pos: position{line: 2918, col: 13, offset: 91964},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2911, col: 13, offset: 91805},
+																									pos:        position{line: 2918, col: 13, offset: 91964},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2911, col: 20, offset: 91812},
+																									pos:        position{line: 2918, col: 20, offset: 91971},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2911, col: 29, offset: 91821},
+																									pos:        position{line: 2918, col: 29, offset: 91980},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33748,9 +33850,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2921, col: 8, offset: 91981},
+																						pos: position{line: 2928, col: 8, offset: 92140},
 																						expr: &anyMatcher{
-																							line: 2921, col: 9, offset: 91982,
+																							line: 2928, col: 9, offset: 92141,
 																						},
 																					},
 																				},
@@ -33768,12 +33870,12 @@ var g = &grammar{
 																				pos:   position{line: 1791, col: 5, offset: 57852},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 14, offset: 90226},
+																					pos: position{line: 2859, col: 14, offset: 90385},
 																					run: (*parser).callonListContinuationElement907,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2852, col: 14, offset: 90226},
+																						pos: position{line: 2859, col: 14, offset: 90385},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 14, offset: 90226},
+																							pos:        position{line: 2859, col: 14, offset: 90385},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33787,28 +33889,28 @@ var g = &grammar{
 																				run: (*parser).callonListContinuationElement910,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2924, col: 8, offset: 92031},
+																				pos: position{line: 2931, col: 8, offset: 92190},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2911, col: 12, offset: 91804},
+																						pos: position{line: 2918, col: 12, offset: 91963},
 																						run: (*parser).callonListContinuationElement912,
 																						expr: &choiceExpr{
-																							pos: position{line: 2911, col: 13, offset: 91805},
+																							pos: position{line: 2918, col: 13, offset: 91964},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2911, col: 13, offset: 91805},
+																									pos:        position{line: 2918, col: 13, offset: 91964},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2911, col: 20, offset: 91812},
+																									pos:        position{line: 2918, col: 20, offset: 91971},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2911, col: 29, offset: 91821},
+																									pos:        position{line: 2918, col: 29, offset: 91980},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33817,9 +33919,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2921, col: 8, offset: 91981},
+																						pos: position{line: 2928, col: 8, offset: 92140},
 																						expr: &anyMatcher{
-																							line: 2921, col: 9, offset: 91982,
+																							line: 2928, col: 9, offset: 92141,
 																						},
 																					},
 																				},
@@ -33866,10 +33968,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 779, col: 8, offset: 25046},
 																	expr: &actionExpr{
-																		pos: position{line: 2902, col: 10, offset: 91633},
+																		pos: position{line: 2909, col: 10, offset: 91792},
 																		run: (*parser).callonListContinuationElement928,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2902, col: 10, offset: 91633},
+																			pos:        position{line: 2909, col: 10, offset: 91792},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33878,28 +33980,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2924, col: 8, offset: 92031},
+																	pos: position{line: 2931, col: 8, offset: 92190},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2911, col: 12, offset: 91804},
+																			pos: position{line: 2918, col: 12, offset: 91963},
 																			run: (*parser).callonListContinuationElement931,
 																			expr: &choiceExpr{
-																				pos: position{line: 2911, col: 13, offset: 91805},
+																				pos: position{line: 2918, col: 13, offset: 91964},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 13, offset: 91805},
+																						pos:        position{line: 2918, col: 13, offset: 91964},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 20, offset: 91812},
+																						pos:        position{line: 2918, col: 20, offset: 91971},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 29, offset: 91821},
+																						pos:        position{line: 2918, col: 29, offset: 91980},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33908,9 +34010,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2921, col: 8, offset: 91981},
+																			pos: position{line: 2928, col: 8, offset: 92140},
 																			expr: &anyMatcher{
-																				line: 2921, col: 9, offset: 91982,
+																				line: 2928, col: 9, offset: 92141,
 																			},
 																		},
 																	},
@@ -33958,10 +34060,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 779, col: 8, offset: 25046},
 																								expr: &actionExpr{
-																									pos: position{line: 2902, col: 10, offset: 91633},
+																									pos: position{line: 2909, col: 10, offset: 91792},
 																									run: (*parser).callonListContinuationElement950,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2902, col: 10, offset: 91633},
+																										pos:        position{line: 2909, col: 10, offset: 91792},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33970,28 +34072,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2924, col: 8, offset: 92031},
+																								pos: position{line: 2931, col: 8, offset: 92190},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2911, col: 12, offset: 91804},
+																										pos: position{line: 2918, col: 12, offset: 91963},
 																										run: (*parser).callonListContinuationElement953,
 																										expr: &choiceExpr{
-																											pos: position{line: 2911, col: 13, offset: 91805},
+																											pos: position{line: 2918, col: 13, offset: 91964},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 13, offset: 91805},
+																													pos:        position{line: 2918, col: 13, offset: 91964},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 20, offset: 91812},
+																													pos:        position{line: 2918, col: 20, offset: 91971},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2911, col: 29, offset: 91821},
+																													pos:        position{line: 2918, col: 29, offset: 91980},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34000,9 +34102,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2921, col: 8, offset: 91981},
+																										pos: position{line: 2928, col: 8, offset: 92140},
 																										expr: &anyMatcher{
-																											line: 2921, col: 9, offset: 91982,
+																											line: 2928, col: 9, offset: 92141,
 																										},
 																									},
 																								},
@@ -34011,9 +34113,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -34029,21 +34131,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2919, col: 11, offset: 91967},
+																						pos: position{line: 2926, col: 11, offset: 92126},
 																						expr: &anyMatcher{
-																							line: 2919, col: 13, offset: 91969,
+																							line: 2926, col: 13, offset: 92128,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2848, col: 13, offset: 90159},
+																							pos: position{line: 2855, col: 13, offset: 90318},
 																							run: (*parser).callonListContinuationElement968,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2848, col: 13, offset: 90159},
+																								pos: position{line: 2855, col: 13, offset: 90318},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2848, col: 13, offset: 90159},
+																									pos:        position{line: 2855, col: 13, offset: 90318},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34053,28 +34155,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2924, col: 8, offset: 92031},
+																						pos: position{line: 2931, col: 8, offset: 92190},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2911, col: 12, offset: 91804},
+																								pos: position{line: 2918, col: 12, offset: 91963},
 																								run: (*parser).callonListContinuationElement972,
 																								expr: &choiceExpr{
-																									pos: position{line: 2911, col: 13, offset: 91805},
+																									pos: position{line: 2918, col: 13, offset: 91964},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 13, offset: 91805},
+																											pos:        position{line: 2918, col: 13, offset: 91964},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 20, offset: 91812},
+																											pos:        position{line: 2918, col: 20, offset: 91971},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 29, offset: 91821},
+																											pos:        position{line: 2918, col: 29, offset: 91980},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34083,9 +34185,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2921, col: 8, offset: 91981},
+																								pos: position{line: 2928, col: 8, offset: 92140},
 																								expr: &anyMatcher{
-																									line: 2921, col: 9, offset: 91982,
+																									line: 2928, col: 9, offset: 92141,
 																								},
 																							},
 																						},
@@ -34130,10 +34232,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 779, col: 8, offset: 25046},
 																				expr: &actionExpr{
-																					pos: position{line: 2902, col: 10, offset: 91633},
+																					pos: position{line: 2909, col: 10, offset: 91792},
 																					run: (*parser).callonListContinuationElement988,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2902, col: 10, offset: 91633},
+																						pos:        position{line: 2909, col: 10, offset: 91792},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34142,28 +34244,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2924, col: 8, offset: 92031},
+																				pos: position{line: 2931, col: 8, offset: 92190},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2911, col: 12, offset: 91804},
+																						pos: position{line: 2918, col: 12, offset: 91963},
 																						run: (*parser).callonListContinuationElement991,
 																						expr: &choiceExpr{
-																							pos: position{line: 2911, col: 13, offset: 91805},
+																							pos: position{line: 2918, col: 13, offset: 91964},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2911, col: 13, offset: 91805},
+																									pos:        position{line: 2918, col: 13, offset: 91964},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2911, col: 20, offset: 91812},
+																									pos:        position{line: 2918, col: 20, offset: 91971},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2911, col: 29, offset: 91821},
+																									pos:        position{line: 2918, col: 29, offset: 91980},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34172,9 +34274,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2921, col: 8, offset: 91981},
+																						pos: position{line: 2928, col: 8, offset: 92140},
 																						expr: &anyMatcher{
-																							line: 2921, col: 9, offset: 91982,
+																							line: 2928, col: 9, offset: 92141,
 																						},
 																					},
 																				},
@@ -34183,9 +34285,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2921, col: 8, offset: 91981},
+																	pos: position{line: 2928, col: 8, offset: 92140},
 																	expr: &anyMatcher{
-																		line: 2921, col: 9, offset: 91982,
+																		line: 2928, col: 9, offset: 92141,
 																	},
 																},
 															},
@@ -34241,10 +34343,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 793, col: 8, offset: 25543},
 																	expr: &actionExpr{
-																		pos: position{line: 2902, col: 10, offset: 91633},
+																		pos: position{line: 2909, col: 10, offset: 91792},
 																		run: (*parser).callonListContinuationElement1012,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2902, col: 10, offset: 91633},
+																			pos:        position{line: 2909, col: 10, offset: 91792},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34253,28 +34355,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2924, col: 8, offset: 92031},
+																	pos: position{line: 2931, col: 8, offset: 92190},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2911, col: 12, offset: 91804},
+																			pos: position{line: 2918, col: 12, offset: 91963},
 																			run: (*parser).callonListContinuationElement1015,
 																			expr: &choiceExpr{
-																				pos: position{line: 2911, col: 13, offset: 91805},
+																				pos: position{line: 2918, col: 13, offset: 91964},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 13, offset: 91805},
+																						pos:        position{line: 2918, col: 13, offset: 91964},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 20, offset: 91812},
+																						pos:        position{line: 2918, col: 20, offset: 91971},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 29, offset: 91821},
+																						pos:        position{line: 2918, col: 29, offset: 91980},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34283,9 +34385,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2921, col: 8, offset: 91981},
+																			pos: position{line: 2928, col: 8, offset: 92140},
 																			expr: &anyMatcher{
-																				line: 2921, col: 9, offset: 91982,
+																				line: 2928, col: 9, offset: 92141,
 																			},
 																		},
 																	},
@@ -34357,10 +34459,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 793, col: 8, offset: 25543},
 																											expr: &actionExpr{
-																												pos: position{line: 2902, col: 10, offset: 91633},
+																												pos: position{line: 2909, col: 10, offset: 91792},
 																												run: (*parser).callonListContinuationElement1040,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2902, col: 10, offset: 91633},
+																													pos:        position{line: 2909, col: 10, offset: 91792},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34369,28 +34471,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2924, col: 8, offset: 92031},
+																											pos: position{line: 2931, col: 8, offset: 92190},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2911, col: 12, offset: 91804},
+																													pos: position{line: 2918, col: 12, offset: 91963},
 																													run: (*parser).callonListContinuationElement1043,
 																													expr: &choiceExpr{
-																														pos: position{line: 2911, col: 13, offset: 91805},
+																														pos: position{line: 2918, col: 13, offset: 91964},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 13, offset: 91805},
+																																pos:        position{line: 2918, col: 13, offset: 91964},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 20, offset: 91812},
+																																pos:        position{line: 2918, col: 20, offset: 91971},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 29, offset: 91821},
+																																pos:        position{line: 2918, col: 29, offset: 91980},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34399,9 +34501,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2921, col: 8, offset: 91981},
+																													pos: position{line: 2928, col: 8, offset: 92140},
 																													expr: &anyMatcher{
-																														line: 2921, col: 9, offset: 91982,
+																														line: 2928, col: 9, offset: 92141,
 																													},
 																												},
 																											},
@@ -34417,9 +34519,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -34435,21 +34537,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2919, col: 11, offset: 91967},
+																						pos: position{line: 2926, col: 11, offset: 92126},
 																						expr: &anyMatcher{
-																							line: 2919, col: 13, offset: 91969,
+																							line: 2926, col: 13, offset: 92128,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2848, col: 13, offset: 90159},
+																							pos: position{line: 2855, col: 13, offset: 90318},
 																							run: (*parser).callonListContinuationElement1059,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2848, col: 13, offset: 90159},
+																								pos: position{line: 2855, col: 13, offset: 90318},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2848, col: 13, offset: 90159},
+																									pos:        position{line: 2855, col: 13, offset: 90318},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34459,28 +34561,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2924, col: 8, offset: 92031},
+																						pos: position{line: 2931, col: 8, offset: 92190},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2911, col: 12, offset: 91804},
+																								pos: position{line: 2918, col: 12, offset: 91963},
 																								run: (*parser).callonListContinuationElement1063,
 																								expr: &choiceExpr{
-																									pos: position{line: 2911, col: 13, offset: 91805},
+																									pos: position{line: 2918, col: 13, offset: 91964},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 13, offset: 91805},
+																											pos:        position{line: 2918, col: 13, offset: 91964},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 20, offset: 91812},
+																											pos:        position{line: 2918, col: 20, offset: 91971},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 29, offset: 91821},
+																											pos:        position{line: 2918, col: 29, offset: 91980},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34489,9 +34591,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2921, col: 8, offset: 91981},
+																								pos: position{line: 2928, col: 8, offset: 92140},
 																								expr: &anyMatcher{
-																									line: 2921, col: 9, offset: 91982,
+																									line: 2928, col: 9, offset: 92141,
 																								},
 																							},
 																						},
@@ -34556,10 +34658,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 793, col: 8, offset: 25543},
 																							expr: &actionExpr{
-																								pos: position{line: 2902, col: 10, offset: 91633},
+																								pos: position{line: 2909, col: 10, offset: 91792},
 																								run: (*parser).callonListContinuationElement1084,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2902, col: 10, offset: 91633},
+																									pos:        position{line: 2909, col: 10, offset: 91792},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34568,28 +34670,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonListContinuationElement1087,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34598,9 +34700,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -34616,9 +34718,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2921, col: 8, offset: 91981},
+																	pos: position{line: 2928, col: 8, offset: 92140},
 																	expr: &anyMatcher{
-																		line: 2921, col: 9, offset: 91982,
+																		line: 2928, col: 9, offset: 92141,
 																	},
 																},
 															},
@@ -34674,10 +34776,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 800, col: 8, offset: 25793},
 																	expr: &actionExpr{
-																		pos: position{line: 2902, col: 10, offset: 91633},
+																		pos: position{line: 2909, col: 10, offset: 91792},
 																		run: (*parser).callonListContinuationElement1109,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2902, col: 10, offset: 91633},
+																			pos:        position{line: 2909, col: 10, offset: 91792},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34686,28 +34788,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2924, col: 8, offset: 92031},
+																	pos: position{line: 2931, col: 8, offset: 92190},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2911, col: 12, offset: 91804},
+																			pos: position{line: 2918, col: 12, offset: 91963},
 																			run: (*parser).callonListContinuationElement1112,
 																			expr: &choiceExpr{
-																				pos: position{line: 2911, col: 13, offset: 91805},
+																				pos: position{line: 2918, col: 13, offset: 91964},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 13, offset: 91805},
+																						pos:        position{line: 2918, col: 13, offset: 91964},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 20, offset: 91812},
+																						pos:        position{line: 2918, col: 20, offset: 91971},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 29, offset: 91821},
+																						pos:        position{line: 2918, col: 29, offset: 91980},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34716,9 +34818,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2921, col: 8, offset: 91981},
+																			pos: position{line: 2928, col: 8, offset: 92140},
 																			expr: &anyMatcher{
-																				line: 2921, col: 9, offset: 91982,
+																				line: 2928, col: 9, offset: 92141,
 																			},
 																		},
 																	},
@@ -34790,10 +34892,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 800, col: 8, offset: 25793},
 																											expr: &actionExpr{
-																												pos: position{line: 2902, col: 10, offset: 91633},
+																												pos: position{line: 2909, col: 10, offset: 91792},
 																												run: (*parser).callonListContinuationElement1137,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2902, col: 10, offset: 91633},
+																													pos:        position{line: 2909, col: 10, offset: 91792},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34802,28 +34904,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2924, col: 8, offset: 92031},
+																											pos: position{line: 2931, col: 8, offset: 92190},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2911, col: 12, offset: 91804},
+																													pos: position{line: 2918, col: 12, offset: 91963},
 																													run: (*parser).callonListContinuationElement1140,
 																													expr: &choiceExpr{
-																														pos: position{line: 2911, col: 13, offset: 91805},
+																														pos: position{line: 2918, col: 13, offset: 91964},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 13, offset: 91805},
+																																pos:        position{line: 2918, col: 13, offset: 91964},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 20, offset: 91812},
+																																pos:        position{line: 2918, col: 20, offset: 91971},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 29, offset: 91821},
+																																pos:        position{line: 2918, col: 29, offset: 91980},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34832,9 +34934,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2921, col: 8, offset: 91981},
+																													pos: position{line: 2928, col: 8, offset: 92140},
 																													expr: &anyMatcher{
-																														line: 2921, col: 9, offset: 91982,
+																														line: 2928, col: 9, offset: 92141,
 																													},
 																												},
 																											},
@@ -34850,9 +34952,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -34868,21 +34970,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2919, col: 11, offset: 91967},
+																						pos: position{line: 2926, col: 11, offset: 92126},
 																						expr: &anyMatcher{
-																							line: 2919, col: 13, offset: 91969,
+																							line: 2926, col: 13, offset: 92128,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2848, col: 13, offset: 90159},
+																							pos: position{line: 2855, col: 13, offset: 90318},
 																							run: (*parser).callonListContinuationElement1156,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2848, col: 13, offset: 90159},
+																								pos: position{line: 2855, col: 13, offset: 90318},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2848, col: 13, offset: 90159},
+																									pos:        position{line: 2855, col: 13, offset: 90318},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34892,28 +34994,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2924, col: 8, offset: 92031},
+																						pos: position{line: 2931, col: 8, offset: 92190},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2911, col: 12, offset: 91804},
+																								pos: position{line: 2918, col: 12, offset: 91963},
 																								run: (*parser).callonListContinuationElement1160,
 																								expr: &choiceExpr{
-																									pos: position{line: 2911, col: 13, offset: 91805},
+																									pos: position{line: 2918, col: 13, offset: 91964},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 13, offset: 91805},
+																											pos:        position{line: 2918, col: 13, offset: 91964},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 20, offset: 91812},
+																											pos:        position{line: 2918, col: 20, offset: 91971},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 29, offset: 91821},
+																											pos:        position{line: 2918, col: 29, offset: 91980},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34922,9 +35024,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2921, col: 8, offset: 91981},
+																								pos: position{line: 2928, col: 8, offset: 92140},
 																								expr: &anyMatcher{
-																									line: 2921, col: 9, offset: 91982,
+																									line: 2928, col: 9, offset: 92141,
 																								},
 																							},
 																						},
@@ -34989,10 +35091,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 800, col: 8, offset: 25793},
 																							expr: &actionExpr{
-																								pos: position{line: 2902, col: 10, offset: 91633},
+																								pos: position{line: 2909, col: 10, offset: 91792},
 																								run: (*parser).callonListContinuationElement1181,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2902, col: 10, offset: 91633},
+																									pos:        position{line: 2909, col: 10, offset: 91792},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35001,28 +35103,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonListContinuationElement1184,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35031,9 +35133,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -35049,9 +35151,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2921, col: 8, offset: 91981},
+																	pos: position{line: 2928, col: 8, offset: 92140},
 																	expr: &anyMatcher{
-																		line: 2921, col: 9, offset: 91982,
+																		line: 2928, col: 9, offset: 92141,
 																	},
 																},
 															},
@@ -35107,10 +35209,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 807, col: 8, offset: 26039},
 																	expr: &actionExpr{
-																		pos: position{line: 2902, col: 10, offset: 91633},
+																		pos: position{line: 2909, col: 10, offset: 91792},
 																		run: (*parser).callonListContinuationElement1206,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2902, col: 10, offset: 91633},
+																			pos:        position{line: 2909, col: 10, offset: 91792},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35119,28 +35221,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2924, col: 8, offset: 92031},
+																	pos: position{line: 2931, col: 8, offset: 92190},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2911, col: 12, offset: 91804},
+																			pos: position{line: 2918, col: 12, offset: 91963},
 																			run: (*parser).callonListContinuationElement1209,
 																			expr: &choiceExpr{
-																				pos: position{line: 2911, col: 13, offset: 91805},
+																				pos: position{line: 2918, col: 13, offset: 91964},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 13, offset: 91805},
+																						pos:        position{line: 2918, col: 13, offset: 91964},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 20, offset: 91812},
+																						pos:        position{line: 2918, col: 20, offset: 91971},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 29, offset: 91821},
+																						pos:        position{line: 2918, col: 29, offset: 91980},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35149,9 +35251,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2921, col: 8, offset: 91981},
+																			pos: position{line: 2928, col: 8, offset: 92140},
 																			expr: &anyMatcher{
-																				line: 2921, col: 9, offset: 91982,
+																				line: 2928, col: 9, offset: 92141,
 																			},
 																		},
 																	},
@@ -35223,10 +35325,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 807, col: 8, offset: 26039},
 																											expr: &actionExpr{
-																												pos: position{line: 2902, col: 10, offset: 91633},
+																												pos: position{line: 2909, col: 10, offset: 91792},
 																												run: (*parser).callonListContinuationElement1234,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2902, col: 10, offset: 91633},
+																													pos:        position{line: 2909, col: 10, offset: 91792},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35235,28 +35337,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2924, col: 8, offset: 92031},
+																											pos: position{line: 2931, col: 8, offset: 92190},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2911, col: 12, offset: 91804},
+																													pos: position{line: 2918, col: 12, offset: 91963},
 																													run: (*parser).callonListContinuationElement1237,
 																													expr: &choiceExpr{
-																														pos: position{line: 2911, col: 13, offset: 91805},
+																														pos: position{line: 2918, col: 13, offset: 91964},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 13, offset: 91805},
+																																pos:        position{line: 2918, col: 13, offset: 91964},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 20, offset: 91812},
+																																pos:        position{line: 2918, col: 20, offset: 91971},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 29, offset: 91821},
+																																pos:        position{line: 2918, col: 29, offset: 91980},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35265,9 +35367,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2921, col: 8, offset: 91981},
+																													pos: position{line: 2928, col: 8, offset: 92140},
 																													expr: &anyMatcher{
-																														line: 2921, col: 9, offset: 91982,
+																														line: 2928, col: 9, offset: 92141,
 																													},
 																												},
 																											},
@@ -35283,9 +35385,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -35301,21 +35403,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2919, col: 11, offset: 91967},
+																						pos: position{line: 2926, col: 11, offset: 92126},
 																						expr: &anyMatcher{
-																							line: 2919, col: 13, offset: 91969,
+																							line: 2926, col: 13, offset: 92128,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2848, col: 13, offset: 90159},
+																							pos: position{line: 2855, col: 13, offset: 90318},
 																							run: (*parser).callonListContinuationElement1253,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2848, col: 13, offset: 90159},
+																								pos: position{line: 2855, col: 13, offset: 90318},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2848, col: 13, offset: 90159},
+																									pos:        position{line: 2855, col: 13, offset: 90318},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35325,28 +35427,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2924, col: 8, offset: 92031},
+																						pos: position{line: 2931, col: 8, offset: 92190},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2911, col: 12, offset: 91804},
+																								pos: position{line: 2918, col: 12, offset: 91963},
 																								run: (*parser).callonListContinuationElement1257,
 																								expr: &choiceExpr{
-																									pos: position{line: 2911, col: 13, offset: 91805},
+																									pos: position{line: 2918, col: 13, offset: 91964},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 13, offset: 91805},
+																											pos:        position{line: 2918, col: 13, offset: 91964},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 20, offset: 91812},
+																											pos:        position{line: 2918, col: 20, offset: 91971},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 29, offset: 91821},
+																											pos:        position{line: 2918, col: 29, offset: 91980},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35355,9 +35457,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2921, col: 8, offset: 91981},
+																								pos: position{line: 2928, col: 8, offset: 92140},
 																								expr: &anyMatcher{
-																									line: 2921, col: 9, offset: 91982,
+																									line: 2928, col: 9, offset: 92141,
 																								},
 																							},
 																						},
@@ -35422,10 +35524,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 807, col: 8, offset: 26039},
 																							expr: &actionExpr{
-																								pos: position{line: 2902, col: 10, offset: 91633},
+																								pos: position{line: 2909, col: 10, offset: 91792},
 																								run: (*parser).callonListContinuationElement1278,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2902, col: 10, offset: 91633},
+																									pos:        position{line: 2909, col: 10, offset: 91792},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35434,28 +35536,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2924, col: 8, offset: 92031},
+																							pos: position{line: 2931, col: 8, offset: 92190},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2911, col: 12, offset: 91804},
+																									pos: position{line: 2918, col: 12, offset: 91963},
 																									run: (*parser).callonListContinuationElement1281,
 																									expr: &choiceExpr{
-																										pos: position{line: 2911, col: 13, offset: 91805},
+																										pos: position{line: 2918, col: 13, offset: 91964},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 13, offset: 91805},
+																												pos:        position{line: 2918, col: 13, offset: 91964},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 20, offset: 91812},
+																												pos:        position{line: 2918, col: 20, offset: 91971},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2911, col: 29, offset: 91821},
+																												pos:        position{line: 2918, col: 29, offset: 91980},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35464,9 +35566,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2921, col: 8, offset: 91981},
+																									pos: position{line: 2928, col: 8, offset: 92140},
 																									expr: &anyMatcher{
-																										line: 2921, col: 9, offset: 91982,
+																										line: 2928, col: 9, offset: 92141,
 																									},
 																								},
 																							},
@@ -35482,9 +35584,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2921, col: 8, offset: 91981},
+																	pos: position{line: 2928, col: 8, offset: 92140},
 																	expr: &anyMatcher{
-																		line: 2921, col: 9, offset: 91982,
+																		line: 2928, col: 9, offset: 92141,
 																	},
 																},
 															},
@@ -35495,52 +35597,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2747, col: 18, offset: 87223},
+										pos: position{line: 2754, col: 18, offset: 87382},
 										run: (*parser).callonListContinuationElement1291,
 										expr: &seqExpr{
-											pos: position{line: 2747, col: 18, offset: 87223},
+											pos: position{line: 2754, col: 18, offset: 87382},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2748, col: 9, offset: 87233},
+													pos: position{line: 2755, col: 9, offset: 87392},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2748, col: 9, offset: 87233},
+															pos:        position{line: 2755, col: 9, offset: 87392},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2749, col: 11, offset: 87269},
+															pos:        position{line: 2756, col: 11, offset: 87428},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2749, col: 19, offset: 87277},
+															pos:        position{line: 2756, col: 19, offset: 87436},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2749, col: 29, offset: 87287},
+															pos:        position{line: 2756, col: 29, offset: 87446},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2749, col: 37, offset: 87295},
+															pos:        position{line: 2756, col: 37, offset: 87454},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2749, col: 47, offset: 87305},
+															pos:        position{line: 2756, col: 47, offset: 87464},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2749, col: 55, offset: 87313},
+															pos:        position{line: 2756, col: 55, offset: 87472},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35548,12 +35650,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2750, col: 11, offset: 87371},
+													pos: position{line: 2757, col: 11, offset: 87530},
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 10, offset: 91633},
+														pos: position{line: 2909, col: 10, offset: 91792},
 														run: (*parser).callonListContinuationElement1302,
 														expr: &charClassMatcher{
-															pos:        position{line: 2902, col: 10, offset: 91633},
+															pos:        position{line: 2909, col: 10, offset: 91792},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35562,28 +35664,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2924, col: 8, offset: 92031},
+													pos: position{line: 2931, col: 8, offset: 92190},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2911, col: 12, offset: 91804},
+															pos: position{line: 2918, col: 12, offset: 91963},
 															run: (*parser).callonListContinuationElement1305,
 															expr: &choiceExpr{
-																pos: position{line: 2911, col: 13, offset: 91805},
+																pos: position{line: 2918, col: 13, offset: 91964},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 13, offset: 91805},
+																		pos:        position{line: 2918, col: 13, offset: 91964},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 20, offset: 91812},
+																		pos:        position{line: 2918, col: 20, offset: 91971},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 29, offset: 91821},
+																		pos:        position{line: 2918, col: 29, offset: 91980},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35592,36 +35694,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2921, col: 8, offset: 91981},
+															pos: position{line: 2928, col: 8, offset: 92140},
 															expr: &anyMatcher{
-																line: 2921, col: 9, offset: 91982,
+																line: 2928, col: 9, offset: 92141,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2924, col: 8, offset: 92031},
+													pos: position{line: 2931, col: 8, offset: 92190},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2911, col: 12, offset: 91804},
+															pos: position{line: 2918, col: 12, offset: 91963},
 															run: (*parser).callonListContinuationElement1313,
 															expr: &choiceExpr{
-																pos: position{line: 2911, col: 13, offset: 91805},
+																pos: position{line: 2918, col: 13, offset: 91964},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 13, offset: 91805},
+																		pos:        position{line: 2918, col: 13, offset: 91964},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 20, offset: 91812},
+																		pos:        position{line: 2918, col: 20, offset: 91971},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 29, offset: 91821},
+																		pos:        position{line: 2918, col: 29, offset: 91980},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35630,9 +35732,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2921, col: 8, offset: 91981},
+															pos: position{line: 2928, col: 8, offset: 92140},
 															expr: &anyMatcher{
-																line: 2921, col: 9, offset: 91982,
+																line: 2928, col: 9, offset: 92141,
 															},
 														},
 													},
@@ -35659,10 +35761,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 2644, col: 26, offset: 84323},
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 10, offset: 91633},
+														pos: position{line: 2909, col: 10, offset: 91792},
 														run: (*parser).callonListContinuationElement1325,
 														expr: &charClassMatcher{
-															pos:        position{line: 2902, col: 10, offset: 91633},
+															pos:        position{line: 2909, col: 10, offset: 91792},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35671,28 +35773,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2924, col: 8, offset: 92031},
+													pos: position{line: 2931, col: 8, offset: 92190},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2911, col: 12, offset: 91804},
+															pos: position{line: 2918, col: 12, offset: 91963},
 															run: (*parser).callonListContinuationElement1328,
 															expr: &choiceExpr{
-																pos: position{line: 2911, col: 13, offset: 91805},
+																pos: position{line: 2918, col: 13, offset: 91964},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 13, offset: 91805},
+																		pos:        position{line: 2918, col: 13, offset: 91964},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 20, offset: 91812},
+																		pos:        position{line: 2918, col: 20, offset: 91971},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 29, offset: 91821},
+																		pos:        position{line: 2918, col: 29, offset: 91980},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35701,9 +35803,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2921, col: 8, offset: 91981},
+															pos: position{line: 2928, col: 8, offset: 92140},
 															expr: &anyMatcher{
-																line: 2921, col: 9, offset: 91982,
+																line: 2928, col: 9, offset: 92141,
 															},
 														},
 													},
@@ -35723,18 +35825,18 @@ var g = &grammar{
 																		pos: position{line: 678, col: 14, offset: 21586},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2919, col: 11, offset: 91967},
+																				pos: position{line: 2926, col: 11, offset: 92126},
 																				expr: &anyMatcher{
-																					line: 2919, col: 13, offset: 91969,
+																					line: 2926, col: 13, offset: 92128,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 678, col: 21, offset: 21593},
 																				expr: &actionExpr{
-																					pos: position{line: 2902, col: 10, offset: 91633},
+																					pos: position{line: 2909, col: 10, offset: 91792},
 																					run: (*parser).callonListContinuationElement1343,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2902, col: 10, offset: 91633},
+																						pos:        position{line: 2909, col: 10, offset: 91792},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35743,28 +35845,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2924, col: 8, offset: 92031},
+																				pos: position{line: 2931, col: 8, offset: 92190},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2911, col: 12, offset: 91804},
+																						pos: position{line: 2918, col: 12, offset: 91963},
 																						run: (*parser).callonListContinuationElement1346,
 																						expr: &choiceExpr{
-																							pos: position{line: 2911, col: 13, offset: 91805},
+																							pos: position{line: 2918, col: 13, offset: 91964},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2911, col: 13, offset: 91805},
+																									pos:        position{line: 2918, col: 13, offset: 91964},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2911, col: 20, offset: 91812},
+																									pos:        position{line: 2918, col: 20, offset: 91971},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2911, col: 29, offset: 91821},
+																									pos:        position{line: 2918, col: 29, offset: 91980},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35773,9 +35875,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2921, col: 8, offset: 91981},
+																						pos: position{line: 2928, col: 8, offset: 92140},
 																						expr: &anyMatcher{
-																							line: 2921, col: 9, offset: 91982,
+																							line: 2928, col: 9, offset: 92141,
 																						},
 																					},
 																				},
@@ -35808,12 +35910,12 @@ var g = &grammar{
 																				pos:   position{line: 2512, col: 49, offset: 80597},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2848, col: 13, offset: 90159},
+																					pos: position{line: 2855, col: 13, offset: 90318},
 																					run: (*parser).callonListContinuationElement1359,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2848, col: 13, offset: 90159},
+																						pos: position{line: 2855, col: 13, offset: 90318},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2848, col: 13, offset: 90159},
+																							pos:        position{line: 2855, col: 13, offset: 90318},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35823,28 +35925,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2924, col: 8, offset: 92031},
+																				pos: position{line: 2931, col: 8, offset: 92190},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2911, col: 12, offset: 91804},
+																						pos: position{line: 2918, col: 12, offset: 91963},
 																						run: (*parser).callonListContinuationElement1363,
 																						expr: &choiceExpr{
-																							pos: position{line: 2911, col: 13, offset: 91805},
+																							pos: position{line: 2918, col: 13, offset: 91964},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2911, col: 13, offset: 91805},
+																									pos:        position{line: 2918, col: 13, offset: 91964},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2911, col: 20, offset: 91812},
+																									pos:        position{line: 2918, col: 20, offset: 91971},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2911, col: 29, offset: 91821},
+																									pos:        position{line: 2918, col: 29, offset: 91980},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35853,9 +35955,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2921, col: 8, offset: 91981},
+																						pos: position{line: 2928, col: 8, offset: 92140},
 																						expr: &anyMatcher{
-																							line: 2921, col: 9, offset: 91982,
+																							line: 2928, col: 9, offset: 92141,
 																						},
 																					},
 																				},
@@ -35886,10 +35988,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 2644, col: 26, offset: 84323},
 																									expr: &actionExpr{
-																										pos: position{line: 2902, col: 10, offset: 91633},
+																										pos: position{line: 2909, col: 10, offset: 91792},
 																										run: (*parser).callonListContinuationElement1377,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2902, col: 10, offset: 91633},
+																											pos:        position{line: 2909, col: 10, offset: 91792},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35898,28 +36000,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2924, col: 8, offset: 92031},
+																									pos: position{line: 2931, col: 8, offset: 92190},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2911, col: 12, offset: 91804},
+																											pos: position{line: 2918, col: 12, offset: 91963},
 																											run: (*parser).callonListContinuationElement1380,
 																											expr: &choiceExpr{
-																												pos: position{line: 2911, col: 13, offset: 91805},
+																												pos: position{line: 2918, col: 13, offset: 91964},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 13, offset: 91805},
+																														pos:        position{line: 2918, col: 13, offset: 91964},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 20, offset: 91812},
+																														pos:        position{line: 2918, col: 20, offset: 91971},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 29, offset: 91821},
+																														pos:        position{line: 2918, col: 29, offset: 91980},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35928,9 +36030,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2921, col: 8, offset: 91981},
+																											pos: position{line: 2928, col: 8, offset: 92140},
 																											expr: &anyMatcher{
-																												line: 2921, col: 9, offset: 91982,
+																												line: 2928, col: 9, offset: 92141,
 																											},
 																										},
 																									},
@@ -35938,9 +36040,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2921, col: 8, offset: 91981},
+																							pos: position{line: 2928, col: 8, offset: 92140},
 																							expr: &anyMatcher{
-																								line: 2921, col: 9, offset: 91982,
+																								line: 2928, col: 9, offset: 92141,
 																							},
 																						},
 																					},
@@ -35987,10 +36089,10 @@ var g = &grammar{
 																																		&zeroOrMoreExpr{
 																																			pos: position{line: 2666, col: 9, offset: 84765},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2902, col: 10, offset: 91633},
+																																				pos: position{line: 2909, col: 10, offset: 91792},
 																																				run: (*parser).callonListContinuationElement1402,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2902, col: 10, offset: 91633},
+																																					pos:        position{line: 2909, col: 10, offset: 91792},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36030,28 +36132,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2924, col: 8, offset: 92031},
+																														pos: position{line: 2931, col: 8, offset: 92190},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2911, col: 12, offset: 91804},
+																																pos: position{line: 2918, col: 12, offset: 91963},
 																																run: (*parser).callonListContinuationElement1411,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2911, col: 13, offset: 91805},
+																																	pos: position{line: 2918, col: 13, offset: 91964},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2911, col: 13, offset: 91805},
+																																			pos:        position{line: 2918, col: 13, offset: 91964},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2911, col: 20, offset: 91812},
+																																			pos:        position{line: 2918, col: 20, offset: 91971},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2911, col: 29, offset: 91821},
+																																			pos:        position{line: 2918, col: 29, offset: 91980},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36060,9 +36162,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2921, col: 8, offset: 91981},
+																																pos: position{line: 2928, col: 8, offset: 92140},
 																																expr: &anyMatcher{
-																																	line: 2921, col: 9, offset: 91982,
+																																	line: 2928, col: 9, offset: 92141,
 																																},
 																															},
 																														},
@@ -36101,10 +36203,10 @@ var g = &grammar{
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 2644, col: 26, offset: 84323},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2902, col: 10, offset: 91633},
+																																							pos: position{line: 2909, col: 10, offset: 91792},
 																																							run: (*parser).callonListContinuationElement1428,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2902, col: 10, offset: 91633},
+																																								pos:        position{line: 2909, col: 10, offset: 91792},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36113,28 +36215,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2924, col: 8, offset: 92031},
+																																						pos: position{line: 2931, col: 8, offset: 92190},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2911, col: 12, offset: 91804},
+																																								pos: position{line: 2918, col: 12, offset: 91963},
 																																								run: (*parser).callonListContinuationElement1431,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2911, col: 13, offset: 91805},
+																																									pos: position{line: 2918, col: 13, offset: 91964},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2911, col: 13, offset: 91805},
+																																											pos:        position{line: 2918, col: 13, offset: 91964},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2911, col: 20, offset: 91812},
+																																											pos:        position{line: 2918, col: 20, offset: 91971},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2911, col: 29, offset: 91821},
+																																											pos:        position{line: 2918, col: 29, offset: 91980},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36143,9 +36245,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2921, col: 8, offset: 91981},
+																																								pos: position{line: 2928, col: 8, offset: 92140},
 																																								expr: &anyMatcher{
-																																									line: 2921, col: 9, offset: 91982,
+																																									line: 2928, col: 9, offset: 92141,
 																																								},
 																																							},
 																																						},
@@ -36153,9 +36255,9 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2921, col: 8, offset: 91981},
+																																				pos: position{line: 2928, col: 8, offset: 92140},
 																																				expr: &anyMatcher{
-																																					line: 2921, col: 9, offset: 91982,
+																																					line: 2928, col: 9, offset: 92141,
 																																				},
 																																			},
 																																		},
@@ -36170,18 +36272,18 @@ var g = &grammar{
 																																			pos: position{line: 678, col: 14, offset: 21586},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2919, col: 11, offset: 91967},
+																																					pos: position{line: 2926, col: 11, offset: 92126},
 																																					expr: &anyMatcher{
-																																						line: 2919, col: 13, offset: 91969,
+																																						line: 2926, col: 13, offset: 92128,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 678, col: 21, offset: 21593},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2902, col: 10, offset: 91633},
+																																						pos: position{line: 2909, col: 10, offset: 91792},
 																																						run: (*parser).callonListContinuationElement1446,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2902, col: 10, offset: 91633},
+																																							pos:        position{line: 2909, col: 10, offset: 91792},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36190,28 +36292,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2924, col: 8, offset: 92031},
+																																					pos: position{line: 2931, col: 8, offset: 92190},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2911, col: 12, offset: 91804},
+																																							pos: position{line: 2918, col: 12, offset: 91963},
 																																							run: (*parser).callonListContinuationElement1449,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2911, col: 13, offset: 91805},
+																																								pos: position{line: 2918, col: 13, offset: 91964},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2911, col: 13, offset: 91805},
+																																										pos:        position{line: 2918, col: 13, offset: 91964},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2911, col: 20, offset: 91812},
+																																										pos:        position{line: 2918, col: 20, offset: 91971},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2911, col: 29, offset: 91821},
+																																										pos:        position{line: 2918, col: 29, offset: 91980},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36220,9 +36322,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2921, col: 8, offset: 91981},
+																																							pos: position{line: 2928, col: 8, offset: 92140},
 																																							expr: &anyMatcher{
-																																								line: 2921, col: 9, offset: 91982,
+																																								line: 2928, col: 9, offset: 92141,
 																																							},
 																																						},
 																																					},
@@ -36237,12 +36339,12 @@ var g = &grammar{
 																																	expr: &zeroOrOneExpr{
 																																		pos: position{line: 2685, col: 12, offset: 85244},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2702, col: 20, offset: 85708},
+																																			pos: position{line: 2709, col: 20, offset: 85867},
 																																			run: (*parser).callonListContinuationElement1458,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2702, col: 20, offset: 85708},
+																																				pos: position{line: 2709, col: 20, offset: 85867},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2702, col: 20, offset: 85708},
+																																					pos:        position{line: 2709, col: 20, offset: 85867},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36261,10 +36363,10 @@ var g = &grammar{
 																																&zeroOrMoreExpr{
 																																	pos: position{line: 2685, col: 35, offset: 85267},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2902, col: 10, offset: 91633},
+																																		pos: position{line: 2909, col: 10, offset: 91792},
 																																		run: (*parser).callonListContinuationElement1463,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2902, col: 10, offset: 91633},
+																																			pos:        position{line: 2909, col: 10, offset: 91792},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36275,25 +36377,25 @@ var g = &grammar{
 																																&zeroOrOneExpr{
 																																	pos: position{line: 2685, col: 42, offset: 85274},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2911, col: 12, offset: 91804},
+																																		pos: position{line: 2918, col: 12, offset: 91963},
 																																		run: (*parser).callonListContinuationElement1466,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2911, col: 13, offset: 91805},
+																																			pos: position{line: 2918, col: 13, offset: 91964},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2911, col: 13, offset: 91805},
+																																					pos:        position{line: 2918, col: 13, offset: 91964},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2911, col: 20, offset: 91812},
+																																					pos:        position{line: 2918, col: 20, offset: 91971},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2911, col: 29, offset: 91821},
+																																					pos:        position{line: 2918, col: 29, offset: 91980},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36307,250 +36409,352 @@ var g = &grammar{
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
 																																		pos: position{line: 2691, col: 5, offset: 85442},
-																																		expr: &actionExpr{
+																																		expr: &choiceExpr{
 																																			pos: position{line: 2692, col: 9, offset: 85452},
-																																			run: (*parser).callonListContinuationElement1473,
-																																			expr: &seqExpr{
-																																				pos: position{line: 2692, col: 9, offset: 85452},
-																																				exprs: []interface{}{
-																																					&notExpr{
+																																			alternatives: []interface{}{
+																																				&actionExpr{
+																																					pos: position{line: 2692, col: 9, offset: 85452},
+																																					run: (*parser).callonListContinuationElement1474,
+																																					expr: &seqExpr{
 																																						pos: position{line: 2692, col: 9, offset: 85452},
-																																						expr: &choiceExpr{
-																																							pos: position{line: 2648, col: 22, offset: 84396},
-																																							alternatives: []interface{}{
-																																								&seqExpr{
-																																									pos: position{line: 2644, col: 19, offset: 84316},
-																																									exprs: []interface{}{
-																																										&litMatcher{
-																																											pos:        position{line: 2644, col: 19, offset: 84316},
-																																											val:        "|===",
-																																											ignoreCase: false,
-																																											want:       "\"|===\"",
-																																										},
-																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2644, col: 26, offset: 84323},
-																																											expr: &actionExpr{
-																																												pos: position{line: 2902, col: 10, offset: 91633},
-																																												run: (*parser).callonListContinuationElement1480,
-																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2902, col: 10, offset: 91633},
-																																													val:        "[\\t ]",
-																																													chars:      []rune{'\t', ' '},
+																																						exprs: []interface{}{
+																																							&andCodeExpr{
+																																								pos: position{line: 2692, col: 9, offset: 85452},
+																																								run: (*parser).callonListContinuationElement1476,
+																																							},
+																																							&labeledExpr{
+																																								pos:   position{line: 2695, col: 9, offset: 85521},
+																																								label: "comment",
+																																								expr: &actionExpr{
+																																									pos: position{line: 2512, col: 22, offset: 80570},
+																																									run: (*parser).callonListContinuationElement1478,
+																																									expr: &seqExpr{
+																																										pos: position{line: 2512, col: 22, offset: 80570},
+																																										exprs: []interface{}{
+																																											&litMatcher{
+																																												pos:        position{line: 2517, col: 31, offset: 80820},
+																																												val:        "//",
+																																												ignoreCase: false,
+																																												want:       "\"//\"",
+																																											},
+																																											&notExpr{
+																																												pos: position{line: 2517, col: 36, offset: 80825},
+																																												expr: &litMatcher{
+																																													pos:        position{line: 2517, col: 37, offset: 80826},
+																																													val:        "/",
 																																													ignoreCase: false,
-																																													inverted:   false,
+																																													want:       "\"/\"",
 																																												},
 																																											},
-																																										},
-																																										&choiceExpr{
-																																											pos: position{line: 2924, col: 8, offset: 92031},
-																																											alternatives: []interface{}{
-																																												&actionExpr{
-																																													pos: position{line: 2911, col: 12, offset: 91804},
-																																													run: (*parser).callonListContinuationElement1483,
-																																													expr: &choiceExpr{
-																																														pos: position{line: 2911, col: 13, offset: 91805},
-																																														alternatives: []interface{}{
-																																															&litMatcher{
-																																																pos:        position{line: 2911, col: 13, offset: 91805},
-																																																val:        "\n",
-																																																ignoreCase: false,
-																																																want:       "\"\\n\"",
-																																															},
-																																															&litMatcher{
-																																																pos:        position{line: 2911, col: 20, offset: 91812},
-																																																val:        "\r\n",
-																																																ignoreCase: false,
-																																																want:       "\"\\r\\n\"",
-																																															},
-																																															&litMatcher{
-																																																pos:        position{line: 2911, col: 29, offset: 91821},
-																																																val:        "\r",
-																																																ignoreCase: false,
-																																																want:       "\"\\r\"",
-																																															},
+																																											&labeledExpr{
+																																												pos:   position{line: 2512, col: 49, offset: 80597},
+																																												label: "content",
+																																												expr: &actionExpr{
+																																													pos: position{line: 2855, col: 13, offset: 90318},
+																																													run: (*parser).callonListContinuationElement1484,
+																																													expr: &zeroOrMoreExpr{
+																																														pos: position{line: 2855, col: 13, offset: 90318},
+																																														expr: &charClassMatcher{
+																																															pos:        position{line: 2855, col: 13, offset: 90318},
+																																															val:        "[^\\r\\n]",
+																																															chars:      []rune{'\r', '\n'},
+																																															ignoreCase: false,
+																																															inverted:   true,
 																																														},
 																																													},
 																																												},
-																																												&notExpr{
-																																													pos: position{line: 2921, col: 8, offset: 91981},
-																																													expr: &anyMatcher{
-																																														line: 2921, col: 9, offset: 91982,
+																																											},
+																																											&choiceExpr{
+																																												pos: position{line: 2931, col: 8, offset: 92190},
+																																												alternatives: []interface{}{
+																																													&actionExpr{
+																																														pos: position{line: 2918, col: 12, offset: 91963},
+																																														run: (*parser).callonListContinuationElement1488,
+																																														expr: &choiceExpr{
+																																															pos: position{line: 2918, col: 13, offset: 91964},
+																																															alternatives: []interface{}{
+																																																&litMatcher{
+																																																	pos:        position{line: 2918, col: 13, offset: 91964},
+																																																	val:        "\n",
+																																																	ignoreCase: false,
+																																																	want:       "\"\\n\"",
+																																																},
+																																																&litMatcher{
+																																																	pos:        position{line: 2918, col: 20, offset: 91971},
+																																																	val:        "\r\n",
+																																																	ignoreCase: false,
+																																																	want:       "\"\\r\\n\"",
+																																																},
+																																																&litMatcher{
+																																																	pos:        position{line: 2918, col: 29, offset: 91980},
+																																																	val:        "\r",
+																																																	ignoreCase: false,
+																																																	want:       "\"\\r\"",
+																																																},
+																																															},
+																																														},
+																																													},
+																																													&notExpr{
+																																														pos: position{line: 2928, col: 8, offset: 92140},
+																																														expr: &anyMatcher{
+																																															line: 2928, col: 9, offset: 92141,
+																																														},
 																																													},
 																																												},
 																																											},
 																																										},
 																																									},
 																																								},
-																																								&notExpr{
-																																									pos: position{line: 2921, col: 8, offset: 91981},
-																																									expr: &anyMatcher{
-																																										line: 2921, col: 9, offset: 91982,
-																																									},
-																																								},
 																																							},
 																																						},
 																																					},
-																																					&notExpr{
-																																						pos: position{line: 2693, col: 9, offset: 85479},
-																																						expr: &actionExpr{
-																																							pos: position{line: 678, col: 14, offset: 21586},
-																																							run: (*parser).callonListContinuationElement1493,
-																																							expr: &seqExpr{
-																																								pos: position{line: 678, col: 14, offset: 21586},
-																																								exprs: []interface{}{
-																																									&andExpr{
-																																										pos: position{line: 2919, col: 11, offset: 91967},
-																																										expr: &anyMatcher{
-																																											line: 2919, col: 13, offset: 91969,
-																																										},
-																																									},
-																																									&zeroOrMoreExpr{
-																																										pos: position{line: 678, col: 21, offset: 21593},
-																																										expr: &actionExpr{
-																																											pos: position{line: 2902, col: 10, offset: 91633},
-																																											run: (*parser).callonListContinuationElement1498,
-																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2902, col: 10, offset: 91633},
-																																												val:        "[\\t ]",
-																																												chars:      []rune{'\t', ' '},
-																																												ignoreCase: false,
-																																												inverted:   false,
-																																											},
-																																										},
-																																									},
-																																									&choiceExpr{
-																																										pos: position{line: 2924, col: 8, offset: 92031},
-																																										alternatives: []interface{}{
-																																											&actionExpr{
-																																												pos: position{line: 2911, col: 12, offset: 91804},
-																																												run: (*parser).callonListContinuationElement1501,
-																																												expr: &choiceExpr{
-																																													pos: position{line: 2911, col: 13, offset: 91805},
-																																													alternatives: []interface{}{
-																																														&litMatcher{
-																																															pos:        position{line: 2911, col: 13, offset: 91805},
-																																															val:        "\n",
+																																				},
+																																				&actionExpr{
+																																					pos: position{line: 2699, col: 9, offset: 85611},
+																																					run: (*parser).callonListContinuationElement1495,
+																																					expr: &seqExpr{
+																																						pos: position{line: 2699, col: 9, offset: 85611},
+																																						exprs: []interface{}{
+																																							&notExpr{
+																																								pos: position{line: 2699, col: 9, offset: 85611},
+																																								expr: &choiceExpr{
+																																									pos: position{line: 2648, col: 22, offset: 84396},
+																																									alternatives: []interface{}{
+																																										&seqExpr{
+																																											pos: position{line: 2644, col: 19, offset: 84316},
+																																											exprs: []interface{}{
+																																												&litMatcher{
+																																													pos:        position{line: 2644, col: 19, offset: 84316},
+																																													val:        "|===",
+																																													ignoreCase: false,
+																																													want:       "\"|===\"",
+																																												},
+																																												&zeroOrMoreExpr{
+																																													pos: position{line: 2644, col: 26, offset: 84323},
+																																													expr: &actionExpr{
+																																														pos: position{line: 2909, col: 10, offset: 91792},
+																																														run: (*parser).callonListContinuationElement1502,
+																																														expr: &charClassMatcher{
+																																															pos:        position{line: 2909, col: 10, offset: 91792},
+																																															val:        "[\\t ]",
+																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
-																																															want:       "\"\\n\"",
+																																															inverted:   false,
 																																														},
-																																														&litMatcher{
-																																															pos:        position{line: 2911, col: 20, offset: 91812},
-																																															val:        "\r\n",
-																																															ignoreCase: false,
-																																															want:       "\"\\r\\n\"",
+																																													},
+																																												},
+																																												&choiceExpr{
+																																													pos: position{line: 2931, col: 8, offset: 92190},
+																																													alternatives: []interface{}{
+																																														&actionExpr{
+																																															pos: position{line: 2918, col: 12, offset: 91963},
+																																															run: (*parser).callonListContinuationElement1505,
+																																															expr: &choiceExpr{
+																																																pos: position{line: 2918, col: 13, offset: 91964},
+																																																alternatives: []interface{}{
+																																																	&litMatcher{
+																																																		pos:        position{line: 2918, col: 13, offset: 91964},
+																																																		val:        "\n",
+																																																		ignoreCase: false,
+																																																		want:       "\"\\n\"",
+																																																	},
+																																																	&litMatcher{
+																																																		pos:        position{line: 2918, col: 20, offset: 91971},
+																																																		val:        "\r\n",
+																																																		ignoreCase: false,
+																																																		want:       "\"\\r\\n\"",
+																																																	},
+																																																	&litMatcher{
+																																																		pos:        position{line: 2918, col: 29, offset: 91980},
+																																																		val:        "\r",
+																																																		ignoreCase: false,
+																																																		want:       "\"\\r\"",
+																																																	},
+																																																},
+																																															},
 																																														},
-																																														&litMatcher{
-																																															pos:        position{line: 2911, col: 29, offset: 91821},
-																																															val:        "\r",
-																																															ignoreCase: false,
-																																															want:       "\"\\r\"",
+																																														&notExpr{
+																																															pos: position{line: 2928, col: 8, offset: 92140},
+																																															expr: &anyMatcher{
+																																																line: 2928, col: 9, offset: 92141,
+																																															},
 																																														},
 																																													},
 																																												},
 																																											},
-																																											&notExpr{
-																																												pos: position{line: 2921, col: 8, offset: 91981},
+																																										},
+																																										&notExpr{
+																																											pos: position{line: 2928, col: 8, offset: 92140},
+																																											expr: &anyMatcher{
+																																												line: 2928, col: 9, offset: 92141,
+																																											},
+																																										},
+																																									},
+																																								},
+																																							},
+																																							&notExpr{
+																																								pos: position{line: 2700, col: 9, offset: 85638},
+																																								expr: &actionExpr{
+																																									pos: position{line: 678, col: 14, offset: 21586},
+																																									run: (*parser).callonListContinuationElement1515,
+																																									expr: &seqExpr{
+																																										pos: position{line: 678, col: 14, offset: 21586},
+																																										exprs: []interface{}{
+																																											&andExpr{
+																																												pos: position{line: 2926, col: 11, offset: 92126},
 																																												expr: &anyMatcher{
-																																													line: 2921, col: 9, offset: 91982,
+																																													line: 2926, col: 13, offset: 92128,
+																																												},
+																																											},
+																																											&zeroOrMoreExpr{
+																																												pos: position{line: 678, col: 21, offset: 21593},
+																																												expr: &actionExpr{
+																																													pos: position{line: 2909, col: 10, offset: 91792},
+																																													run: (*parser).callonListContinuationElement1520,
+																																													expr: &charClassMatcher{
+																																														pos:        position{line: 2909, col: 10, offset: 91792},
+																																														val:        "[\\t ]",
+																																														chars:      []rune{'\t', ' '},
+																																														ignoreCase: false,
+																																														inverted:   false,
+																																													},
+																																												},
+																																											},
+																																											&choiceExpr{
+																																												pos: position{line: 2931, col: 8, offset: 92190},
+																																												alternatives: []interface{}{
+																																													&actionExpr{
+																																														pos: position{line: 2918, col: 12, offset: 91963},
+																																														run: (*parser).callonListContinuationElement1523,
+																																														expr: &choiceExpr{
+																																															pos: position{line: 2918, col: 13, offset: 91964},
+																																															alternatives: []interface{}{
+																																																&litMatcher{
+																																																	pos:        position{line: 2918, col: 13, offset: 91964},
+																																																	val:        "\n",
+																																																	ignoreCase: false,
+																																																	want:       "\"\\n\"",
+																																																},
+																																																&litMatcher{
+																																																	pos:        position{line: 2918, col: 20, offset: 91971},
+																																																	val:        "\r\n",
+																																																	ignoreCase: false,
+																																																	want:       "\"\\r\\n\"",
+																																																},
+																																																&litMatcher{
+																																																	pos:        position{line: 2918, col: 29, offset: 91980},
+																																																	val:        "\r",
+																																																	ignoreCase: false,
+																																																	want:       "\"\\r\"",
+																																																},
+																																															},
+																																														},
+																																													},
+																																													&notExpr{
+																																														pos: position{line: 2928, col: 8, offset: 92140},
+																																														expr: &anyMatcher{
+																																															line: 2928, col: 9, offset: 92141,
+																																														},
+																																													},
 																																												},
 																																											},
 																																										},
 																																									},
 																																								},
 																																							},
-																																						},
-																																					},
-																																					&notExpr{
-																																						pos: position{line: 2694, col: 9, offset: 85498},
-																																						expr: &seqExpr{
-																																							pos: position{line: 2694, col: 11, offset: 85500},
-																																							exprs: []interface{}{
-																																								&labeledExpr{
-																																									pos:   position{line: 2694, col: 11, offset: 85500},
-																																									label: "format",
-																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2694, col: 18, offset: 85507},
-																																										expr: &actionExpr{
-																																											pos: position{line: 2702, col: 20, offset: 85708},
-																																											run: (*parser).callonListContinuationElement1512,
-																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2702, col: 20, offset: 85708},
-																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2702, col: 20, offset: 85708},
-																																													val:        "[^ |\\r\\n]",
-																																													chars:      []rune{' ', '|', '\r', '\n'},
-																																													ignoreCase: false,
-																																													inverted:   true,
+																																							&notExpr{
+																																								pos: position{line: 2701, col: 9, offset: 85657},
+																																								expr: &seqExpr{
+																																									pos: position{line: 2701, col: 11, offset: 85659},
+																																									exprs: []interface{}{
+																																										&labeledExpr{
+																																											pos:   position{line: 2701, col: 11, offset: 85659},
+																																											label: "format",
+																																											expr: &zeroOrOneExpr{
+																																												pos: position{line: 2701, col: 18, offset: 85666},
+																																												expr: &actionExpr{
+																																													pos: position{line: 2709, col: 20, offset: 85867},
+																																													run: (*parser).callonListContinuationElement1534,
+																																													expr: &zeroOrMoreExpr{
+																																														pos: position{line: 2709, col: 20, offset: 85867},
+																																														expr: &charClassMatcher{
+																																															pos:        position{line: 2709, col: 20, offset: 85867},
+																																															val:        "[^ |\\r\\n]",
+																																															chars:      []rune{' ', '|', '\r', '\n'},
+																																															ignoreCase: false,
+																																															inverted:   true,
+																																														},
+																																													},
 																																												},
 																																											},
 																																										},
+																																										&litMatcher{
+																																											pos:        position{line: 2701, col: 37, offset: 85685},
+																																											val:        "|",
+																																											ignoreCase: false,
+																																											want:       "\"|\"",
+																																										},
 																																									},
 																																								},
-																																								&litMatcher{
-																																									pos:        position{line: 2694, col: 37, offset: 85526},
-																																									val:        "|",
-																																									ignoreCase: false,
-																																									want:       "\"|\"",
-																																								},
 																																							},
-																																						},
-																																					},
-																																					&labeledExpr{
-																																						pos:   position{line: 2695, col: 9, offset: 85539},
-																																						label: "content",
-																																						expr: &actionExpr{
-																																							pos: position{line: 2695, col: 18, offset: 85548},
-																																							run: (*parser).callonListContinuationElement1517,
-																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2695, col: 18, offset: 85548},
-																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2695, col: 18, offset: 85548},
-																																									val:        "[^|\\r\\n]",
-																																									chars:      []rune{'|', '\r', '\n'},
-																																									ignoreCase: false,
-																																									inverted:   true,
+																																							&labeledExpr{
+																																								pos:   position{line: 2702, col: 9, offset: 85698},
+																																								label: "content",
+																																								expr: &actionExpr{
+																																									pos: position{line: 2702, col: 18, offset: 85707},
+																																									run: (*parser).callonListContinuationElement1539,
+																																									expr: &zeroOrMoreExpr{
+																																										pos: position{line: 2702, col: 18, offset: 85707},
+																																										expr: &charClassMatcher{
+																																											pos:        position{line: 2702, col: 18, offset: 85707},
+																																											val:        "[^|\\r\\n]",
+																																											chars:      []rune{'|', '\r', '\n'},
+																																											ignoreCase: false,
+																																											inverted:   true,
+																																										},
+																																									},
 																																								},
 																																							},
-																																						},
-																																					},
-																																					&zeroOrOneExpr{
-																																						pos: position{line: 2697, col: 12, offset: 85610},
-																																						expr: &choiceExpr{
-																																							pos: position{line: 2924, col: 8, offset: 92031},
-																																							alternatives: []interface{}{
-																																								&actionExpr{
-																																									pos: position{line: 2911, col: 12, offset: 91804},
-																																									run: (*parser).callonListContinuationElement1522,
-																																									expr: &choiceExpr{
-																																										pos: position{line: 2911, col: 13, offset: 91805},
-																																										alternatives: []interface{}{
-																																											&litMatcher{
-																																												pos:        position{line: 2911, col: 13, offset: 91805},
-																																												val:        "\n",
-																																												ignoreCase: false,
-																																												want:       "\"\\n\"",
-																																											},
-																																											&litMatcher{
-																																												pos:        position{line: 2911, col: 20, offset: 91812},
-																																												val:        "\r\n",
-																																												ignoreCase: false,
-																																												want:       "\"\\r\\n\"",
+																																							&zeroOrOneExpr{
+																																								pos: position{line: 2704, col: 12, offset: 85769},
+																																								expr: &choiceExpr{
+																																									pos: position{line: 2931, col: 8, offset: 92190},
+																																									alternatives: []interface{}{
+																																										&actionExpr{
+																																											pos: position{line: 2918, col: 12, offset: 91963},
+																																											run: (*parser).callonListContinuationElement1544,
+																																											expr: &choiceExpr{
+																																												pos: position{line: 2918, col: 13, offset: 91964},
+																																												alternatives: []interface{}{
+																																													&litMatcher{
+																																														pos:        position{line: 2918, col: 13, offset: 91964},
+																																														val:        "\n",
+																																														ignoreCase: false,
+																																														want:       "\"\\n\"",
+																																													},
+																																													&litMatcher{
+																																														pos:        position{line: 2918, col: 20, offset: 91971},
+																																														val:        "\r\n",
+																																														ignoreCase: false,
+																																														want:       "\"\\r\\n\"",
+																																													},
+																																													&litMatcher{
+																																														pos:        position{line: 2918, col: 29, offset: 91980},
+																																														val:        "\r",
+																																														ignoreCase: false,
+																																														want:       "\"\\r\"",
+																																													},
+																																												},
 																																											},
-																																											&litMatcher{
-																																												pos:        position{line: 2911, col: 29, offset: 91821},
-																																												val:        "\r",
-																																												ignoreCase: false,
-																																												want:       "\"\\r\"",
+																																										},
+																																										&notExpr{
+																																											pos: position{line: 2928, col: 8, offset: 92140},
+																																											expr: &anyMatcher{
+																																												line: 2928, col: 9, offset: 92141,
 																																											},
 																																										},
 																																									},
 																																								},
-																																								&notExpr{
-																																									pos: position{line: 2921, col: 8, offset: 91981},
-																																									expr: &anyMatcher{
-																																										line: 2921, col: 9, offset: 91982,
-																																									},
-																																								},
 																																							},
 																																						},
 																																					},
@@ -36571,23 +36775,23 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 678, col: 14, offset: 21586},
-																							run: (*parser).callonListContinuationElement1529,
+																							run: (*parser).callonListContinuationElement1551,
 																							expr: &seqExpr{
 																								pos: position{line: 678, col: 14, offset: 21586},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2919, col: 11, offset: 91967},
+																										pos: position{line: 2926, col: 11, offset: 92126},
 																										expr: &anyMatcher{
-																											line: 2919, col: 13, offset: 91969,
+																											line: 2926, col: 13, offset: 92128,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 678, col: 21, offset: 21593},
 																										expr: &actionExpr{
-																											pos: position{line: 2902, col: 10, offset: 91633},
-																											run: (*parser).callonListContinuationElement1534,
+																											pos: position{line: 2909, col: 10, offset: 91792},
+																											run: (*parser).callonListContinuationElement1556,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2902, col: 10, offset: 91633},
+																												pos:        position{line: 2909, col: 10, offset: 91792},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36596,28 +36800,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2924, col: 8, offset: 92031},
+																										pos: position{line: 2931, col: 8, offset: 92190},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2911, col: 12, offset: 91804},
-																												run: (*parser).callonListContinuationElement1537,
+																												pos: position{line: 2918, col: 12, offset: 91963},
+																												run: (*parser).callonListContinuationElement1559,
 																												expr: &choiceExpr{
-																													pos: position{line: 2911, col: 13, offset: 91805},
+																													pos: position{line: 2918, col: 13, offset: 91964},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2911, col: 13, offset: 91805},
+																															pos:        position{line: 2918, col: 13, offset: 91964},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2911, col: 20, offset: 91812},
+																															pos:        position{line: 2918, col: 20, offset: 91971},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2911, col: 29, offset: 91821},
+																															pos:        position{line: 2918, col: 29, offset: 91980},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36626,9 +36830,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2921, col: 8, offset: 91981},
+																												pos: position{line: 2928, col: 8, offset: 92140},
 																												expr: &anyMatcher{
-																													line: 2921, col: 9, offset: 91982,
+																													line: 2928, col: 9, offset: 92141,
 																												},
 																											},
 																										},
@@ -36661,10 +36865,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 2644, col: 26, offset: 84323},
 																	expr: &actionExpr{
-																		pos: position{line: 2902, col: 10, offset: 91633},
-																		run: (*parser).callonListContinuationElement1548,
+																		pos: position{line: 2909, col: 10, offset: 91792},
+																		run: (*parser).callonListContinuationElement1570,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2902, col: 10, offset: 91633},
+																			pos:        position{line: 2909, col: 10, offset: 91792},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36673,28 +36877,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2924, col: 8, offset: 92031},
+																	pos: position{line: 2931, col: 8, offset: 92190},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2911, col: 12, offset: 91804},
-																			run: (*parser).callonListContinuationElement1551,
+																			pos: position{line: 2918, col: 12, offset: 91963},
+																			run: (*parser).callonListContinuationElement1573,
 																			expr: &choiceExpr{
-																				pos: position{line: 2911, col: 13, offset: 91805},
+																				pos: position{line: 2918, col: 13, offset: 91964},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 13, offset: 91805},
+																						pos:        position{line: 2918, col: 13, offset: 91964},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 20, offset: 91812},
+																						pos:        position{line: 2918, col: 20, offset: 91971},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 29, offset: 91821},
+																						pos:        position{line: 2918, col: 29, offset: 91980},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36703,9 +36907,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2921, col: 8, offset: 91981},
+																			pos: position{line: 2928, col: 8, offset: 92140},
 																			expr: &anyMatcher{
-																				line: 2921, col: 9, offset: 91982,
+																				line: 2928, col: 9, offset: 92141,
 																			},
 																		},
 																	},
@@ -36713,9 +36917,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2921, col: 8, offset: 91981},
+															pos: position{line: 2928, col: 8, offset: 92140},
 															expr: &anyMatcher{
-																line: 2921, col: 9, offset: 91982,
+																line: 2928, col: 9, offset: 92141,
 															},
 														},
 													},
@@ -36725,7 +36929,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2512, col: 22, offset: 80570},
-										run: (*parser).callonListContinuationElement1560,
+										run: (*parser).callonListContinuationElement1582,
 										expr: &seqExpr{
 											pos: position{line: 2512, col: 22, offset: 80570},
 											exprs: []interface{}{
@@ -36748,12 +36952,12 @@ var g = &grammar{
 													pos:   position{line: 2512, col: 49, offset: 80597},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2848, col: 13, offset: 90159},
-														run: (*parser).callonListContinuationElement1566,
+														pos: position{line: 2855, col: 13, offset: 90318},
+														run: (*parser).callonListContinuationElement1588,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2848, col: 13, offset: 90159},
+															pos: position{line: 2855, col: 13, offset: 90318},
 															expr: &charClassMatcher{
-																pos:        position{line: 2848, col: 13, offset: 90159},
+																pos:        position{line: 2855, col: 13, offset: 90318},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36763,28 +36967,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2924, col: 8, offset: 92031},
+													pos: position{line: 2931, col: 8, offset: 92190},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2911, col: 12, offset: 91804},
-															run: (*parser).callonListContinuationElement1570,
+															pos: position{line: 2918, col: 12, offset: 91963},
+															run: (*parser).callonListContinuationElement1592,
 															expr: &choiceExpr{
-																pos: position{line: 2911, col: 13, offset: 91805},
+																pos: position{line: 2918, col: 13, offset: 91964},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 13, offset: 91805},
+																		pos:        position{line: 2918, col: 13, offset: 91964},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 20, offset: 91812},
+																		pos:        position{line: 2918, col: 20, offset: 91971},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 29, offset: 91821},
+																		pos:        position{line: 2918, col: 29, offset: 91980},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36793,9 +36997,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2921, col: 8, offset: 91981},
+															pos: position{line: 2928, col: 8, offset: 92140},
 															expr: &anyMatcher{
-																line: 2921, col: 9, offset: 91982,
+																line: 2928, col: 9, offset: 92141,
 															},
 														},
 													},
@@ -36805,7 +37009,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1568, col: 5, offset: 50663},
-										run: (*parser).callonListContinuationElement1577,
+										run: (*parser).callonListContinuationElement1599,
 										expr: &seqExpr{
 											pos: position{line: 1568, col: 5, offset: 50663},
 											exprs: []interface{}{
@@ -36816,13 +37020,13 @@ var g = &grammar{
 														pos: position{line: 1568, col: 11, offset: 50669},
 														expr: &actionExpr{
 															pos: position{line: 1732, col: 5, offset: 55986},
-															run: (*parser).callonListContinuationElement1581,
+															run: (*parser).callonListContinuationElement1603,
 															expr: &seqExpr{
 																pos: position{line: 1732, col: 5, offset: 55986},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 1732, col: 5, offset: 55986},
-																		run: (*parser).callonListContinuationElement1583,
+																		run: (*parser).callonListContinuationElement1605,
 																	},
 																	&labeledExpr{
 																		pos:   position{line: 1735, col: 5, offset: 56049},
@@ -36832,7 +37036,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 1735, col: 12, offset: 56056},
-																					run: (*parser).callonListContinuationElement1586,
+																					run: (*parser).callonListContinuationElement1608,
 																					expr: &litMatcher{
 																						pos:        position{line: 1735, col: 12, offset: 56056},
 																						val:        "TIP: ",
@@ -36842,7 +37046,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1737, col: 13, offset: 56112},
-																					run: (*parser).callonListContinuationElement1588,
+																					run: (*parser).callonListContinuationElement1610,
 																					expr: &litMatcher{
 																						pos:        position{line: 1737, col: 13, offset: 56112},
 																						val:        "NOTE: ",
@@ -36852,7 +37056,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1739, col: 13, offset: 56170},
-																					run: (*parser).callonListContinuationElement1590,
+																					run: (*parser).callonListContinuationElement1612,
 																					expr: &litMatcher{
 																						pos:        position{line: 1739, col: 13, offset: 56170},
 																						val:        "IMPORTANT: ",
@@ -36862,7 +37066,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1741, col: 13, offset: 56238},
-																					run: (*parser).callonListContinuationElement1592,
+																					run: (*parser).callonListContinuationElement1614,
 																					expr: &litMatcher{
 																						pos:        position{line: 1741, col: 13, offset: 56238},
 																						val:        "WARNING: ",
@@ -36872,7 +37076,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1743, col: 13, offset: 56302},
-																					run: (*parser).callonListContinuationElement1594,
+																					run: (*parser).callonListContinuationElement1616,
 																					expr: &litMatcher{
 																						pos:        position{line: 1743, col: 13, offset: 56302},
 																						val:        "CAUTION: ",
@@ -36882,16 +37086,16 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1745, col: 13, offset: 56366},
-																					run: (*parser).callonListContinuationElement1596,
+																					run: (*parser).callonListContinuationElement1618,
 																					expr: &andExpr{
 																						pos: position{line: 1745, col: 13, offset: 56366},
 																						expr: &actionExpr{
-																							pos: position{line: 2906, col: 11, offset: 91694},
-																							run: (*parser).callonListContinuationElement1598,
+																							pos: position{line: 2913, col: 11, offset: 91853},
+																							run: (*parser).callonListContinuationElement1620,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2906, col: 11, offset: 91694},
+																								pos: position{line: 2913, col: 11, offset: 91853},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2906, col: 11, offset: 91694},
+																									pos:        position{line: 2913, col: 11, offset: 91853},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36914,7 +37118,7 @@ var g = &grammar{
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1511, col: 5, offset: 49008},
-														run: (*parser).callonListContinuationElement1602,
+														run: (*parser).callonListContinuationElement1624,
 														expr: &seqExpr{
 															pos: position{line: 1511, col: 5, offset: 49008},
 															exprs: []interface{}{
@@ -36922,23 +37126,23 @@ var g = &grammar{
 																	pos: position{line: 1511, col: 5, offset: 49008},
 																	expr: &actionExpr{
 																		pos: position{line: 678, col: 14, offset: 21586},
-																		run: (*parser).callonListContinuationElement1605,
+																		run: (*parser).callonListContinuationElement1627,
 																		expr: &seqExpr{
 																			pos: position{line: 678, col: 14, offset: 21586},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2919, col: 11, offset: 91967},
+																					pos: position{line: 2926, col: 11, offset: 92126},
 																					expr: &anyMatcher{
-																						line: 2919, col: 13, offset: 91969,
+																						line: 2926, col: 13, offset: 92128,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 678, col: 21, offset: 21593},
 																					expr: &actionExpr{
-																						pos: position{line: 2902, col: 10, offset: 91633},
-																						run: (*parser).callonListContinuationElement1610,
+																						pos: position{line: 2909, col: 10, offset: 91792},
+																						run: (*parser).callonListContinuationElement1632,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2902, col: 10, offset: 91633},
+																							pos:        position{line: 2909, col: 10, offset: 91792},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36947,28 +37151,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2924, col: 8, offset: 92031},
+																					pos: position{line: 2931, col: 8, offset: 92190},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2911, col: 12, offset: 91804},
-																							run: (*parser).callonListContinuationElement1613,
+																							pos: position{line: 2918, col: 12, offset: 91963},
+																							run: (*parser).callonListContinuationElement1635,
 																							expr: &choiceExpr{
-																								pos: position{line: 2911, col: 13, offset: 91805},
+																								pos: position{line: 2918, col: 13, offset: 91964},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 13, offset: 91805},
+																										pos:        position{line: 2918, col: 13, offset: 91964},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 20, offset: 91812},
+																										pos:        position{line: 2918, col: 20, offset: 91971},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 29, offset: 91821},
+																										pos:        position{line: 2918, col: 29, offset: 91980},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36977,9 +37181,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2921, col: 8, offset: 91981},
+																							pos: position{line: 2928, col: 8, offset: 92140},
 																							expr: &anyMatcher{
-																								line: 2921, col: 9, offset: 91982,
+																								line: 2928, col: 9, offset: 92141,
 																							},
 																						},
 																					},
@@ -37002,10 +37206,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1543, col: 31, offset: 49887},
 																				expr: &actionExpr{
-																					pos: position{line: 2902, col: 10, offset: 91633},
-																					run: (*parser).callonListContinuationElement1624,
+																					pos: position{line: 2909, col: 10, offset: 91792},
+																					run: (*parser).callonListContinuationElement1646,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2902, col: 10, offset: 91633},
+																						pos:        position{line: 2909, col: 10, offset: 91792},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37014,25 +37218,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
-																				run: (*parser).callonListContinuationElement1626,
+																				pos: position{line: 2918, col: 12, offset: 91963},
+																				run: (*parser).callonListContinuationElement1648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37047,17 +37251,17 @@ var g = &grammar{
 																	pos: position{line: 1513, col: 5, offset: 49051},
 																	expr: &actionExpr{
 																		pos: position{line: 1584, col: 5, offset: 51102},
-																		run: (*parser).callonListContinuationElement1632,
+																		run: (*parser).callonListContinuationElement1654,
 																		expr: &seqExpr{
 																			pos: position{line: 1584, col: 5, offset: 51102},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1584, col: 5, offset: 51102},
 																					expr: &actionExpr{
-																						pos: position{line: 2902, col: 10, offset: 91633},
-																						run: (*parser).callonListContinuationElement1635,
+																						pos: position{line: 2909, col: 10, offset: 91792},
+																						run: (*parser).callonListContinuationElement1657,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2902, col: 10, offset: 91633},
+																							pos:        position{line: 2909, col: 10, offset: 91792},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37073,7 +37277,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 1586, col: 9, offset: 51172},
-																								run: (*parser).callonListContinuationElement1639,
+																								run: (*parser).callonListContinuationElement1661,
 																								expr: &seqExpr{
 																									pos: position{line: 1586, col: 9, offset: 51172},
 																									exprs: []interface{}{
@@ -37082,7 +37286,7 @@ var g = &grammar{
 																											label: "depth",
 																											expr: &actionExpr{
 																												pos: position{line: 1586, col: 16, offset: 51179},
-																												run: (*parser).callonListContinuationElement1642,
+																												run: (*parser).callonListContinuationElement1664,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 1586, col: 16, offset: 51179},
 																													expr: &litMatcher{
@@ -37096,14 +37300,14 @@ var g = &grammar{
 																										},
 																										&andCodeExpr{
 																											pos: position{line: 1590, col: 9, offset: 51280},
-																											run: (*parser).callonListContinuationElement1645,
+																											run: (*parser).callonListContinuationElement1667,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
 																								pos: position{line: 1609, col: 11, offset: 51997},
-																								run: (*parser).callonListContinuationElement1646,
+																								run: (*parser).callonListContinuationElement1668,
 																								expr: &seqExpr{
 																									pos: position{line: 1609, col: 11, offset: 51997},
 																									exprs: []interface{}{
@@ -37128,7 +37332,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1611, col: 13, offset: 52123},
-																								run: (*parser).callonListContinuationElement1651,
+																								run: (*parser).callonListContinuationElement1673,
 																								expr: &seqExpr{
 																									pos: position{line: 1611, col: 13, offset: 52123},
 																									exprs: []interface{}{
@@ -37150,7 +37354,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1613, col: 13, offset: 52251},
-																								run: (*parser).callonListContinuationElement1655,
+																								run: (*parser).callonListContinuationElement1677,
 																								expr: &seqExpr{
 																									pos: position{line: 1613, col: 13, offset: 52251},
 																									exprs: []interface{}{
@@ -37172,7 +37376,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1615, col: 13, offset: 52379},
-																								run: (*parser).callonListContinuationElement1659,
+																								run: (*parser).callonListContinuationElement1681,
 																								expr: &seqExpr{
 																									pos: position{line: 1615, col: 13, offset: 52379},
 																									exprs: []interface{}{
@@ -37197,7 +37401,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1617, col: 13, offset: 52512},
-																								run: (*parser).callonListContinuationElement1664,
+																								run: (*parser).callonListContinuationElement1686,
 																								expr: &seqExpr{
 																									pos: position{line: 1617, col: 13, offset: 52512},
 																									exprs: []interface{}{
@@ -37224,12 +37428,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2906, col: 11, offset: 91694},
-																					run: (*parser).callonListContinuationElement1669,
+																					pos: position{line: 2913, col: 11, offset: 91853},
+																					run: (*parser).callonListContinuationElement1691,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2906, col: 11, offset: 91694},
+																						pos: position{line: 2913, col: 11, offset: 91853},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2906, col: 11, offset: 91694},
+																							pos:        position{line: 2913, col: 11, offset: 91853},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37245,17 +37449,17 @@ var g = &grammar{
 																	pos: position{line: 1514, col: 5, offset: 49081},
 																	expr: &actionExpr{
 																		pos: position{line: 1634, col: 5, offset: 53064},
-																		run: (*parser).callonListContinuationElement1673,
+																		run: (*parser).callonListContinuationElement1695,
 																		expr: &seqExpr{
 																			pos: position{line: 1634, col: 5, offset: 53064},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1634, col: 5, offset: 53064},
 																					expr: &actionExpr{
-																						pos: position{line: 2902, col: 10, offset: 91633},
-																						run: (*parser).callonListContinuationElement1676,
+																						pos: position{line: 2909, col: 10, offset: 91792},
+																						run: (*parser).callonListContinuationElement1698,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2902, col: 10, offset: 91633},
+																							pos:        position{line: 2909, col: 10, offset: 91792},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37268,7 +37472,7 @@ var g = &grammar{
 																					label: "style",
 																					expr: &actionExpr{
 																						pos: position{line: 1636, col: 9, offset: 53092},
-																						run: (*parser).callonListContinuationElement1679,
+																						run: (*parser).callonListContinuationElement1701,
 																						expr: &choiceExpr{
 																							pos: position{line: 1636, col: 10, offset: 53093},
 																							alternatives: []interface{}{
@@ -37293,15 +37497,15 @@ var g = &grammar{
 																				},
 																				&andCodeExpr{
 																					pos: position{line: 1639, col: 7, offset: 53192},
-																					run: (*parser).callonListContinuationElement1684,
+																					run: (*parser).callonListContinuationElement1706,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2906, col: 11, offset: 91694},
-																					run: (*parser).callonListContinuationElement1685,
+																					pos: position{line: 2913, col: 11, offset: 91853},
+																					run: (*parser).callonListContinuationElement1707,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2906, col: 11, offset: 91694},
+																						pos: position{line: 2913, col: 11, offset: 91853},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2906, col: 11, offset: 91694},
+																							pos:        position{line: 2913, col: 11, offset: 91853},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37317,7 +37521,7 @@ var g = &grammar{
 																	pos: position{line: 1515, col: 5, offset: 49113},
 																	expr: &actionExpr{
 																		pos: position{line: 1723, col: 5, offset: 55601},
-																		run: (*parser).callonListContinuationElement1689,
+																		run: (*parser).callonListContinuationElement1711,
 																		expr: &seqExpr{
 																			pos: position{line: 1723, col: 5, offset: 55601},
 																			exprs: []interface{}{
@@ -37332,7 +37536,7 @@ var g = &grammar{
 																					label: "ref",
 																					expr: &actionExpr{
 																						pos: position{line: 1723, col: 14, offset: 55610},
-																						run: (*parser).callonListContinuationElement1693,
+																						run: (*parser).callonListContinuationElement1715,
 																						expr: &oneOrMoreExpr{
 																							pos: position{line: 1723, col: 14, offset: 55610},
 																							expr: &charClassMatcher{
@@ -37352,12 +37556,12 @@ var g = &grammar{
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2906, col: 11, offset: 91694},
-																					run: (*parser).callonListContinuationElement1697,
+																					pos: position{line: 2913, col: 11, offset: 91853},
+																					run: (*parser).callonListContinuationElement1719,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2906, col: 11, offset: 91694},
+																						pos: position{line: 2913, col: 11, offset: 91853},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2906, col: 11, offset: 91694},
+																							pos:        position{line: 2913, col: 11, offset: 91853},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37376,7 +37580,7 @@ var g = &grammar{
 																		exprs: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 1669, col: 5, offset: 54083},
-																				run: (*parser).callonListContinuationElement1702,
+																				run: (*parser).callonListContinuationElement1724,
 																				expr: &oneOrMoreExpr{
 																					pos: position{line: 1669, col: 5, offset: 54083},
 																					expr: &seqExpr{
@@ -37386,7 +37590,7 @@ var g = &grammar{
 																								pos: position{line: 1669, col: 6, offset: 54084},
 																								expr: &actionExpr{
 																									pos: position{line: 1674, col: 5, offset: 54234},
-																									run: (*parser).callonListContinuationElement1706,
+																									run: (*parser).callonListContinuationElement1728,
 																									expr: &seqExpr{
 																										pos: position{line: 1674, col: 5, offset: 54234},
 																										exprs: []interface{}{
@@ -37395,7 +37599,7 @@ var g = &grammar{
 																												label: "separator",
 																												expr: &actionExpr{
 																													pos: position{line: 1674, col: 16, offset: 54245},
-																													run: (*parser).callonListContinuationElement1709,
+																													run: (*parser).callonListContinuationElement1731,
 																													expr: &oneOrMoreExpr{
 																														pos: position{line: 1674, col: 16, offset: 54245},
 																														expr: &litMatcher{
@@ -37409,7 +37613,7 @@ var g = &grammar{
 																											},
 																											&andCodeExpr{
 																												pos: position{line: 1677, col: 5, offset: 54303},
-																												run: (*parser).callonListContinuationElement1712,
+																												run: (*parser).callonListContinuationElement1734,
 																											},
 																										},
 																									},
@@ -37418,28 +37622,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1669, col: 35, offset: 54113},
 																								expr: &choiceExpr{
-																									pos: position{line: 2924, col: 8, offset: 92031},
+																									pos: position{line: 2931, col: 8, offset: 92190},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2911, col: 12, offset: 91804},
-																											run: (*parser).callonListContinuationElement1715,
+																											pos: position{line: 2918, col: 12, offset: 91963},
+																											run: (*parser).callonListContinuationElement1737,
 																											expr: &choiceExpr{
-																												pos: position{line: 2911, col: 13, offset: 91805},
+																												pos: position{line: 2918, col: 13, offset: 91964},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 13, offset: 91805},
+																														pos:        position{line: 2918, col: 13, offset: 91964},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 20, offset: 91812},
+																														pos:        position{line: 2918, col: 20, offset: 91971},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2911, col: 29, offset: 91821},
+																														pos:        position{line: 2918, col: 29, offset: 91980},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -37448,9 +37652,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2921, col: 8, offset: 91981},
+																											pos: position{line: 2928, col: 8, offset: 92140},
 																											expr: &anyMatcher{
-																												line: 2921, col: 9, offset: 91982,
+																												line: 2928, col: 9, offset: 92141,
 																											},
 																										},
 																									},
@@ -37465,7 +37669,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1674, col: 5, offset: 54234},
-																				run: (*parser).callonListContinuationElement1723,
+																				run: (*parser).callonListContinuationElement1745,
 																				expr: &seqExpr{
 																					pos: position{line: 1674, col: 5, offset: 54234},
 																					exprs: []interface{}{
@@ -37474,7 +37678,7 @@ var g = &grammar{
 																							label: "separator",
 																							expr: &actionExpr{
 																								pos: position{line: 1674, col: 16, offset: 54245},
-																								run: (*parser).callonListContinuationElement1726,
+																								run: (*parser).callonListContinuationElement1748,
 																								expr: &oneOrMoreExpr{
 																									pos: position{line: 1674, col: 16, offset: 54245},
 																									expr: &litMatcher{
@@ -37488,7 +37692,7 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1677, col: 5, offset: 54303},
-																							run: (*parser).callonListContinuationElement1729,
+																							run: (*parser).callonListContinuationElement1751,
 																						},
 																					},
 																				},
@@ -37500,14 +37704,14 @@ var g = &grammar{
 																	pos: position{line: 1517, col: 5, offset: 49201},
 																	expr: &actionExpr{
 																		pos: position{line: 725, col: 5, offset: 23139},
-																		run: (*parser).callonListContinuationElement1731,
+																		run: (*parser).callonListContinuationElement1753,
 																		expr: &seqExpr{
 																			pos: position{line: 725, col: 5, offset: 23139},
 																			exprs: []interface{}{
 																				&notExpr{
 																					pos: position{line: 725, col: 5, offset: 23139},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2792, col: 13, offset: 88728},
+																						pos:        position{line: 2799, col: 13, offset: 88887},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37522,7 +37726,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 741, col: 5, offset: 23681},
-																								run: (*parser).callonListContinuationElement1737,
+																								run: (*parser).callonListContinuationElement1759,
 																								expr: &seqExpr{
 																									pos: position{line: 741, col: 5, offset: 23681},
 																									exprs: []interface{}{
@@ -37531,7 +37735,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 741, col: 16, offset: 23692},
-																												run: (*parser).callonListContinuationElement1740,
+																												run: (*parser).callonListContinuationElement1762,
 																												expr: &seqExpr{
 																													pos: position{line: 741, col: 16, offset: 23692},
 																													exprs: []interface{}{
@@ -37557,10 +37761,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 743, col: 8, offset: 23783},
 																											expr: &actionExpr{
-																												pos: position{line: 2902, col: 10, offset: 91633},
-																												run: (*parser).callonListContinuationElement1746,
+																												pos: position{line: 2909, col: 10, offset: 91792},
+																												run: (*parser).callonListContinuationElement1768,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2902, col: 10, offset: 91633},
+																													pos:        position{line: 2909, col: 10, offset: 91792},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37569,28 +37773,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2924, col: 8, offset: 92031},
+																											pos: position{line: 2931, col: 8, offset: 92190},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2911, col: 12, offset: 91804},
-																													run: (*parser).callonListContinuationElement1749,
+																													pos: position{line: 2918, col: 12, offset: 91963},
+																													run: (*parser).callonListContinuationElement1771,
 																													expr: &choiceExpr{
-																														pos: position{line: 2911, col: 13, offset: 91805},
+																														pos: position{line: 2918, col: 13, offset: 91964},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 13, offset: 91805},
+																																pos:        position{line: 2918, col: 13, offset: 91964},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 20, offset: 91812},
+																																pos:        position{line: 2918, col: 20, offset: 91971},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 29, offset: 91821},
+																																pos:        position{line: 2918, col: 29, offset: 91980},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37599,9 +37803,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2921, col: 8, offset: 91981},
+																													pos: position{line: 2928, col: 8, offset: 92140},
 																													expr: &anyMatcher{
-																														line: 2921, col: 9, offset: 91982,
+																														line: 2928, col: 9, offset: 92141,
 																													},
 																												},
 																											},
@@ -37611,7 +37815,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 748, col: 5, offset: 23929},
-																								run: (*parser).callonListContinuationElement1756,
+																								run: (*parser).callonListContinuationElement1778,
 																								expr: &seqExpr{
 																									pos: position{line: 748, col: 5, offset: 23929},
 																									exprs: []interface{}{
@@ -37620,7 +37824,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 748, col: 16, offset: 23940},
-																												run: (*parser).callonListContinuationElement1759,
+																												run: (*parser).callonListContinuationElement1781,
 																												expr: &seqExpr{
 																													pos: position{line: 748, col: 16, offset: 23940},
 																													exprs: []interface{}{
@@ -37646,10 +37850,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 750, col: 8, offset: 24031},
 																											expr: &actionExpr{
-																												pos: position{line: 2902, col: 10, offset: 91633},
-																												run: (*parser).callonListContinuationElement1765,
+																												pos: position{line: 2909, col: 10, offset: 91792},
+																												run: (*parser).callonListContinuationElement1787,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2902, col: 10, offset: 91633},
+																													pos:        position{line: 2909, col: 10, offset: 91792},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37658,28 +37862,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2924, col: 8, offset: 92031},
+																											pos: position{line: 2931, col: 8, offset: 92190},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2911, col: 12, offset: 91804},
-																													run: (*parser).callonListContinuationElement1768,
+																													pos: position{line: 2918, col: 12, offset: 91963},
+																													run: (*parser).callonListContinuationElement1790,
 																													expr: &choiceExpr{
-																														pos: position{line: 2911, col: 13, offset: 91805},
+																														pos: position{line: 2918, col: 13, offset: 91964},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 13, offset: 91805},
+																																pos:        position{line: 2918, col: 13, offset: 91964},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 20, offset: 91812},
+																																pos:        position{line: 2918, col: 20, offset: 91971},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 29, offset: 91821},
+																																pos:        position{line: 2918, col: 29, offset: 91980},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37688,9 +37892,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2921, col: 8, offset: 91981},
+																													pos: position{line: 2928, col: 8, offset: 92140},
 																													expr: &anyMatcher{
-																														line: 2921, col: 9, offset: 91982,
+																														line: 2928, col: 9, offset: 92141,
 																													},
 																												},
 																											},
@@ -37700,7 +37904,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 761, col: 26, offset: 24417},
-																								run: (*parser).callonListContinuationElement1775,
+																								run: (*parser).callonListContinuationElement1797,
 																								expr: &seqExpr{
 																									pos: position{line: 761, col: 26, offset: 24417},
 																									exprs: []interface{}{
@@ -37715,7 +37919,7 @@ var g = &grammar{
 																											label: "language",
 																											expr: &actionExpr{
 																												pos: position{line: 765, col: 13, offset: 24553},
-																												run: (*parser).callonListContinuationElement1779,
+																												run: (*parser).callonListContinuationElement1801,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 765, col: 14, offset: 24554},
 																													expr: &charClassMatcher{
@@ -37731,10 +37935,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 761, col: 52, offset: 24443},
 																											expr: &actionExpr{
-																												pos: position{line: 2902, col: 10, offset: 91633},
-																												run: (*parser).callonListContinuationElement1783,
+																												pos: position{line: 2909, col: 10, offset: 91792},
+																												run: (*parser).callonListContinuationElement1805,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2902, col: 10, offset: 91633},
+																													pos:        position{line: 2909, col: 10, offset: 91792},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37743,28 +37947,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2924, col: 8, offset: 92031},
+																											pos: position{line: 2931, col: 8, offset: 92190},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2911, col: 12, offset: 91804},
-																													run: (*parser).callonListContinuationElement1786,
+																													pos: position{line: 2918, col: 12, offset: 91963},
+																													run: (*parser).callonListContinuationElement1808,
 																													expr: &choiceExpr{
-																														pos: position{line: 2911, col: 13, offset: 91805},
+																														pos: position{line: 2918, col: 13, offset: 91964},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 13, offset: 91805},
+																																pos:        position{line: 2918, col: 13, offset: 91964},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 20, offset: 91812},
+																																pos:        position{line: 2918, col: 20, offset: 91971},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 29, offset: 91821},
+																																pos:        position{line: 2918, col: 29, offset: 91980},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37773,9 +37977,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2921, col: 8, offset: 91981},
+																													pos: position{line: 2928, col: 8, offset: 92140},
 																													expr: &anyMatcher{
-																														line: 2921, col: 9, offset: 91982,
+																														line: 2928, col: 9, offset: 92141,
 																													},
 																												},
 																											},
@@ -37785,7 +37989,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 755, col: 5, offset: 24176},
-																								run: (*parser).callonListContinuationElement1793,
+																								run: (*parser).callonListContinuationElement1815,
 																								expr: &seqExpr{
 																									pos: position{line: 755, col: 5, offset: 24176},
 																									exprs: []interface{}{
@@ -37794,7 +37998,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 755, col: 16, offset: 24187},
-																												run: (*parser).callonListContinuationElement1796,
+																												run: (*parser).callonListContinuationElement1818,
 																												expr: &seqExpr{
 																													pos: position{line: 755, col: 16, offset: 24187},
 																													exprs: []interface{}{
@@ -37820,10 +38024,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 757, col: 8, offset: 24277},
 																											expr: &actionExpr{
-																												pos: position{line: 2902, col: 10, offset: 91633},
-																												run: (*parser).callonListContinuationElement1802,
+																												pos: position{line: 2909, col: 10, offset: 91792},
+																												run: (*parser).callonListContinuationElement1824,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2902, col: 10, offset: 91633},
+																													pos:        position{line: 2909, col: 10, offset: 91792},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37832,28 +38036,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2924, col: 8, offset: 92031},
+																											pos: position{line: 2931, col: 8, offset: 92190},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2911, col: 12, offset: 91804},
-																													run: (*parser).callonListContinuationElement1805,
+																													pos: position{line: 2918, col: 12, offset: 91963},
+																													run: (*parser).callonListContinuationElement1827,
 																													expr: &choiceExpr{
-																														pos: position{line: 2911, col: 13, offset: 91805},
+																														pos: position{line: 2918, col: 13, offset: 91964},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 13, offset: 91805},
+																																pos:        position{line: 2918, col: 13, offset: 91964},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 20, offset: 91812},
+																																pos:        position{line: 2918, col: 20, offset: 91971},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 29, offset: 91821},
+																																pos:        position{line: 2918, col: 29, offset: 91980},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37862,9 +38066,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2921, col: 8, offset: 91981},
+																													pos: position{line: 2928, col: 8, offset: 92140},
 																													expr: &anyMatcher{
-																														line: 2921, col: 9, offset: 91982,
+																														line: 2928, col: 9, offset: 92141,
 																													},
 																												},
 																											},
@@ -37874,7 +38078,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 770, col: 5, offset: 24713},
-																								run: (*parser).callonListContinuationElement1812,
+																								run: (*parser).callonListContinuationElement1834,
 																								expr: &seqExpr{
 																									pos: position{line: 770, col: 5, offset: 24713},
 																									exprs: []interface{}{
@@ -37883,7 +38087,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 770, col: 16, offset: 24724},
-																												run: (*parser).callonListContinuationElement1815,
+																												run: (*parser).callonListContinuationElement1837,
 																												expr: &seqExpr{
 																													pos: position{line: 770, col: 16, offset: 24724},
 																													exprs: []interface{}{
@@ -37909,10 +38113,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 772, col: 8, offset: 24815},
 																											expr: &actionExpr{
-																												pos: position{line: 2902, col: 10, offset: 91633},
-																												run: (*parser).callonListContinuationElement1821,
+																												pos: position{line: 2909, col: 10, offset: 91792},
+																												run: (*parser).callonListContinuationElement1843,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2902, col: 10, offset: 91633},
+																													pos:        position{line: 2909, col: 10, offset: 91792},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37921,28 +38125,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2924, col: 8, offset: 92031},
+																											pos: position{line: 2931, col: 8, offset: 92190},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2911, col: 12, offset: 91804},
-																													run: (*parser).callonListContinuationElement1824,
+																													pos: position{line: 2918, col: 12, offset: 91963},
+																													run: (*parser).callonListContinuationElement1846,
 																													expr: &choiceExpr{
-																														pos: position{line: 2911, col: 13, offset: 91805},
+																														pos: position{line: 2918, col: 13, offset: 91964},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 13, offset: 91805},
+																																pos:        position{line: 2918, col: 13, offset: 91964},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 20, offset: 91812},
+																																pos:        position{line: 2918, col: 20, offset: 91971},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 29, offset: 91821},
+																																pos:        position{line: 2918, col: 29, offset: 91980},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37951,9 +38155,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2921, col: 8, offset: 91981},
+																													pos: position{line: 2928, col: 8, offset: 92140},
 																													expr: &anyMatcher{
-																														line: 2921, col: 9, offset: 91982,
+																														line: 2928, col: 9, offset: 92141,
 																													},
 																												},
 																											},
@@ -37963,7 +38167,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 784, col: 5, offset: 25189},
-																								run: (*parser).callonListContinuationElement1831,
+																								run: (*parser).callonListContinuationElement1853,
 																								expr: &seqExpr{
 																									pos: position{line: 784, col: 5, offset: 25189},
 																									exprs: []interface{}{
@@ -37972,7 +38176,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 784, col: 16, offset: 25200},
-																												run: (*parser).callonListContinuationElement1834,
+																												run: (*parser).callonListContinuationElement1856,
 																												expr: &seqExpr{
 																													pos: position{line: 784, col: 16, offset: 25200},
 																													exprs: []interface{}{
@@ -37998,10 +38202,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 786, col: 8, offset: 25291},
 																											expr: &actionExpr{
-																												pos: position{line: 2902, col: 10, offset: 91633},
-																												run: (*parser).callonListContinuationElement1840,
+																												pos: position{line: 2909, col: 10, offset: 91792},
+																												run: (*parser).callonListContinuationElement1862,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2902, col: 10, offset: 91633},
+																													pos:        position{line: 2909, col: 10, offset: 91792},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38010,28 +38214,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2924, col: 8, offset: 92031},
+																											pos: position{line: 2931, col: 8, offset: 92190},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2911, col: 12, offset: 91804},
-																													run: (*parser).callonListContinuationElement1843,
+																													pos: position{line: 2918, col: 12, offset: 91963},
+																													run: (*parser).callonListContinuationElement1865,
 																													expr: &choiceExpr{
-																														pos: position{line: 2911, col: 13, offset: 91805},
+																														pos: position{line: 2918, col: 13, offset: 91964},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 13, offset: 91805},
+																																pos:        position{line: 2918, col: 13, offset: 91964},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 20, offset: 91812},
+																																pos:        position{line: 2918, col: 20, offset: 91971},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 29, offset: 91821},
+																																pos:        position{line: 2918, col: 29, offset: 91980},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38040,9 +38244,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2921, col: 8, offset: 91981},
+																													pos: position{line: 2928, col: 8, offset: 92140},
 																													expr: &anyMatcher{
-																														line: 2921, col: 9, offset: 91982,
+																														line: 2928, col: 9, offset: 92141,
 																													},
 																												},
 																											},
@@ -38052,7 +38256,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 791, col: 5, offset: 25441},
-																								run: (*parser).callonListContinuationElement1850,
+																								run: (*parser).callonListContinuationElement1872,
 																								expr: &seqExpr{
 																									pos: position{line: 791, col: 5, offset: 25441},
 																									exprs: []interface{}{
@@ -38061,7 +38265,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 791, col: 16, offset: 25452},
-																												run: (*parser).callonListContinuationElement1853,
+																												run: (*parser).callonListContinuationElement1875,
 																												expr: &seqExpr{
 																													pos: position{line: 791, col: 16, offset: 25452},
 																													exprs: []interface{}{
@@ -38087,10 +38291,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 793, col: 8, offset: 25543},
 																											expr: &actionExpr{
-																												pos: position{line: 2902, col: 10, offset: 91633},
-																												run: (*parser).callonListContinuationElement1859,
+																												pos: position{line: 2909, col: 10, offset: 91792},
+																												run: (*parser).callonListContinuationElement1881,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2902, col: 10, offset: 91633},
+																													pos:        position{line: 2909, col: 10, offset: 91792},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38099,28 +38303,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2924, col: 8, offset: 92031},
+																											pos: position{line: 2931, col: 8, offset: 92190},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2911, col: 12, offset: 91804},
-																													run: (*parser).callonListContinuationElement1862,
+																													pos: position{line: 2918, col: 12, offset: 91963},
+																													run: (*parser).callonListContinuationElement1884,
 																													expr: &choiceExpr{
-																														pos: position{line: 2911, col: 13, offset: 91805},
+																														pos: position{line: 2918, col: 13, offset: 91964},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 13, offset: 91805},
+																																pos:        position{line: 2918, col: 13, offset: 91964},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 20, offset: 91812},
+																																pos:        position{line: 2918, col: 20, offset: 91971},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 29, offset: 91821},
+																																pos:        position{line: 2918, col: 29, offset: 91980},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38129,9 +38333,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2921, col: 8, offset: 91981},
+																													pos: position{line: 2928, col: 8, offset: 92140},
 																													expr: &anyMatcher{
-																														line: 2921, col: 9, offset: 91982,
+																														line: 2928, col: 9, offset: 92141,
 																													},
 																												},
 																											},
@@ -38141,7 +38345,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 798, col: 5, offset: 25691},
-																								run: (*parser).callonListContinuationElement1869,
+																								run: (*parser).callonListContinuationElement1891,
 																								expr: &seqExpr{
 																									pos: position{line: 798, col: 5, offset: 25691},
 																									exprs: []interface{}{
@@ -38150,7 +38354,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 798, col: 16, offset: 25702},
-																												run: (*parser).callonListContinuationElement1872,
+																												run: (*parser).callonListContinuationElement1894,
 																												expr: &seqExpr{
 																													pos: position{line: 798, col: 16, offset: 25702},
 																													exprs: []interface{}{
@@ -38176,10 +38380,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 800, col: 8, offset: 25793},
 																											expr: &actionExpr{
-																												pos: position{line: 2902, col: 10, offset: 91633},
-																												run: (*parser).callonListContinuationElement1878,
+																												pos: position{line: 2909, col: 10, offset: 91792},
+																												run: (*parser).callonListContinuationElement1900,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2902, col: 10, offset: 91633},
+																													pos:        position{line: 2909, col: 10, offset: 91792},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38188,28 +38392,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2924, col: 8, offset: 92031},
+																											pos: position{line: 2931, col: 8, offset: 92190},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2911, col: 12, offset: 91804},
-																													run: (*parser).callonListContinuationElement1881,
+																													pos: position{line: 2918, col: 12, offset: 91963},
+																													run: (*parser).callonListContinuationElement1903,
 																													expr: &choiceExpr{
-																														pos: position{line: 2911, col: 13, offset: 91805},
+																														pos: position{line: 2918, col: 13, offset: 91964},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 13, offset: 91805},
+																																pos:        position{line: 2918, col: 13, offset: 91964},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 20, offset: 91812},
+																																pos:        position{line: 2918, col: 20, offset: 91971},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 29, offset: 91821},
+																																pos:        position{line: 2918, col: 29, offset: 91980},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38218,9 +38422,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2921, col: 8, offset: 91981},
+																													pos: position{line: 2928, col: 8, offset: 92140},
 																													expr: &anyMatcher{
-																														line: 2921, col: 9, offset: 91982,
+																														line: 2928, col: 9, offset: 92141,
 																													},
 																												},
 																											},
@@ -38230,7 +38434,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 805, col: 5, offset: 25937},
-																								run: (*parser).callonListContinuationElement1888,
+																								run: (*parser).callonListContinuationElement1910,
 																								expr: &seqExpr{
 																									pos: position{line: 805, col: 5, offset: 25937},
 																									exprs: []interface{}{
@@ -38239,7 +38443,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 805, col: 16, offset: 25948},
-																												run: (*parser).callonListContinuationElement1891,
+																												run: (*parser).callonListContinuationElement1913,
 																												expr: &seqExpr{
 																													pos: position{line: 805, col: 16, offset: 25948},
 																													exprs: []interface{}{
@@ -38265,10 +38469,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 807, col: 8, offset: 26039},
 																											expr: &actionExpr{
-																												pos: position{line: 2902, col: 10, offset: 91633},
-																												run: (*parser).callonListContinuationElement1897,
+																												pos: position{line: 2909, col: 10, offset: 91792},
+																												run: (*parser).callonListContinuationElement1919,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2902, col: 10, offset: 91633},
+																													pos:        position{line: 2909, col: 10, offset: 91792},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38277,28 +38481,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2924, col: 8, offset: 92031},
+																											pos: position{line: 2931, col: 8, offset: 92190},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2911, col: 12, offset: 91804},
-																													run: (*parser).callonListContinuationElement1900,
+																													pos: position{line: 2918, col: 12, offset: 91963},
+																													run: (*parser).callonListContinuationElement1922,
 																													expr: &choiceExpr{
-																														pos: position{line: 2911, col: 13, offset: 91805},
+																														pos: position{line: 2918, col: 13, offset: 91964},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 13, offset: 91805},
+																																pos:        position{line: 2918, col: 13, offset: 91964},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 20, offset: 91812},
+																																pos:        position{line: 2918, col: 20, offset: 91971},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2911, col: 29, offset: 91821},
+																																pos:        position{line: 2918, col: 29, offset: 91980},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38307,9 +38511,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2921, col: 8, offset: 91981},
+																													pos: position{line: 2928, col: 8, offset: 92140},
 																													expr: &anyMatcher{
-																														line: 2921, col: 9, offset: 91982,
+																														line: 2928, col: 9, offset: 92141,
 																													},
 																												},
 																											},
@@ -38328,12 +38532,12 @@ var g = &grammar{
 																	pos:   position{line: 1518, col: 5, offset: 49221},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 14, offset: 90226},
-																		run: (*parser).callonListContinuationElement1908,
+																		pos: position{line: 2859, col: 14, offset: 90385},
+																		run: (*parser).callonListContinuationElement1930,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2852, col: 14, offset: 90226},
+																			pos: position{line: 2859, col: 14, offset: 90385},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 14, offset: 90226},
+																				pos:        position{line: 2859, col: 14, offset: 90385},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38343,28 +38547,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2924, col: 8, offset: 92031},
+																	pos: position{line: 2931, col: 8, offset: 92190},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2911, col: 12, offset: 91804},
-																			run: (*parser).callonListContinuationElement1912,
+																			pos: position{line: 2918, col: 12, offset: 91963},
+																			run: (*parser).callonListContinuationElement1934,
 																			expr: &choiceExpr{
-																				pos: position{line: 2911, col: 13, offset: 91805},
+																				pos: position{line: 2918, col: 13, offset: 91964},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 13, offset: 91805},
+																						pos:        position{line: 2918, col: 13, offset: 91964},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 20, offset: 91812},
+																						pos:        position{line: 2918, col: 20, offset: 91971},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 29, offset: 91821},
+																						pos:        position{line: 2918, col: 29, offset: 91980},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38373,9 +38577,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2921, col: 8, offset: 91981},
+																			pos: position{line: 2928, col: 8, offset: 92140},
 																			expr: &anyMatcher{
-																				line: 2921, col: 9, offset: 91982,
+																				line: 2928, col: 9, offset: 92141,
 																			},
 																		},
 																	},
@@ -38440,10 +38644,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1712, col: 66, offset: 55301},
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 10, offset: 91633},
+								pos: position{line: 2909, col: 10, offset: 91792},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2902, col: 10, offset: 91633},
+									pos:        position{line: 2909, col: 10, offset: 91792},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38457,25 +38661,25 @@ var g = &grammar{
 								pos: position{line: 1712, col: 75, offset: 55310},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2911, col: 12, offset: 91804},
+										pos: position{line: 2918, col: 12, offset: 91963},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2911, col: 13, offset: 91805},
+											pos: position{line: 2918, col: 13, offset: 91964},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2911, col: 13, offset: 91805},
+													pos:        position{line: 2918, col: 13, offset: 91964},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2911, col: 20, offset: 91812},
+													pos:        position{line: 2918, col: 20, offset: 91971},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2911, col: 29, offset: 91821},
+													pos:        position{line: 2918, col: 29, offset: 91980},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38484,9 +38688,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2921, col: 8, offset: 91981},
+										pos: position{line: 2928, col: 8, offset: 92140},
 										expr: &anyMatcher{
-											line: 2921, col: 9, offset: 91982,
+											line: 2928, col: 9, offset: 92141,
 										},
 									},
 									&ruleRefExpr{
@@ -38515,7 +38719,7 @@ var g = &grammar{
 								pos: position{line: 1753, col: 7, offset: 56565},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2792, col: 13, offset: 88728},
+										pos:        position{line: 2799, col: 13, offset: 88887},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
@@ -38534,12 +38738,12 @@ var g = &grammar{
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2906, col: 11, offset: 91694},
+													pos: position{line: 2913, col: 11, offset: 91853},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2906, col: 11, offset: 91694},
+														pos: position{line: 2913, col: 11, offset: 91853},
 														expr: &charClassMatcher{
-															pos:        position{line: 2906, col: 11, offset: 91694},
+															pos:        position{line: 2913, col: 11, offset: 91853},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38630,12 +38834,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1745, col: 13, offset: 56366},
 																expr: &actionExpr{
-																	pos: position{line: 2906, col: 11, offset: 91694},
+																	pos: position{line: 2913, col: 11, offset: 91853},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2906, col: 11, offset: 91694},
+																		pos: position{line: 2913, col: 11, offset: 91853},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2906, col: 11, offset: 91694},
+																			pos:        position{line: 2913, col: 11, offset: 91853},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38666,12 +38870,12 @@ var g = &grammar{
 											pos:   position{line: 1791, col: 5, offset: 57852},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2852, col: 14, offset: 90226},
+												pos: position{line: 2859, col: 14, offset: 90385},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2852, col: 14, offset: 90226},
+													pos: position{line: 2859, col: 14, offset: 90385},
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 14, offset: 90226},
+														pos:        position{line: 2859, col: 14, offset: 90385},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -38685,28 +38889,28 @@ var g = &grammar{
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2924, col: 8, offset: 92031},
+											pos: position{line: 2931, col: 8, offset: 92190},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2911, col: 12, offset: 91804},
+													pos: position{line: 2918, col: 12, offset: 91963},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2911, col: 13, offset: 91805},
+														pos: position{line: 2918, col: 13, offset: 91964},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2911, col: 13, offset: 91805},
+																pos:        position{line: 2918, col: 13, offset: 91964},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2911, col: 20, offset: 91812},
+																pos:        position{line: 2918, col: 20, offset: 91971},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2911, col: 29, offset: 91821},
+																pos:        position{line: 2918, col: 29, offset: 91980},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -38715,9 +38919,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2921, col: 8, offset: 91981},
+													pos: position{line: 2928, col: 8, offset: 92140},
 													expr: &anyMatcher{
-														line: 2921, col: 9, offset: 91982,
+														line: 2928, col: 9, offset: 92141,
 													},
 												},
 											},
@@ -38742,9 +38946,9 @@ var g = &grammar{
 										pos: position{line: 1764, col: 9, offset: 57130},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2919, col: 11, offset: 91967},
+												pos: position{line: 2926, col: 11, offset: 92126},
 												expr: &anyMatcher{
-													line: 2919, col: 13, offset: 91969,
+													line: 2926, col: 13, offset: 92128,
 												},
 											},
 											&notExpr{
@@ -38756,18 +38960,18 @@ var g = &grammar{
 														pos: position{line: 678, col: 14, offset: 21586},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2919, col: 11, offset: 91967},
+																pos: position{line: 2926, col: 11, offset: 92126},
 																expr: &anyMatcher{
-																	line: 2919, col: 13, offset: 91969,
+																	line: 2926, col: 13, offset: 92128,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 678, col: 21, offset: 21593},
 																expr: &actionExpr{
-																	pos: position{line: 2902, col: 10, offset: 91633},
+																	pos: position{line: 2909, col: 10, offset: 91792},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2902, col: 10, offset: 91633},
+																		pos:        position{line: 2909, col: 10, offset: 91792},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38776,28 +38980,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2924, col: 8, offset: 92031},
+																pos: position{line: 2931, col: 8, offset: 92190},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2911, col: 12, offset: 91804},
+																		pos: position{line: 2918, col: 12, offset: 91963},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2911, col: 13, offset: 91805},
+																			pos: position{line: 2918, col: 13, offset: 91964},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2911, col: 13, offset: 91805},
+																					pos:        position{line: 2918, col: 13, offset: 91964},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2911, col: 20, offset: 91812},
+																					pos:        position{line: 2918, col: 20, offset: 91971},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2911, col: 29, offset: 91821},
+																					pos:        position{line: 2918, col: 29, offset: 91980},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38806,9 +39010,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2921, col: 8, offset: 91981},
+																		pos: position{line: 2928, col: 8, offset: 92140},
 																		expr: &anyMatcher{
-																			line: 2921, col: 9, offset: 91982,
+																			line: 2928, col: 9, offset: 92141,
 																		},
 																	},
 																},
@@ -38835,7 +39039,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 725, col: 5, offset: 23139},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2792, col: 13, offset: 88728},
+																	pos:        position{line: 2799, col: 13, offset: 88887},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -38885,10 +39089,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 743, col: 8, offset: 23783},
 																						expr: &actionExpr{
-																							pos: position{line: 2902, col: 10, offset: 91633},
+																							pos: position{line: 2909, col: 10, offset: 91792},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2902, col: 10, offset: 91633},
+																								pos:        position{line: 2909, col: 10, offset: 91792},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38897,28 +39101,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2924, col: 8, offset: 92031},
+																						pos: position{line: 2931, col: 8, offset: 92190},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2911, col: 12, offset: 91804},
+																								pos: position{line: 2918, col: 12, offset: 91963},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2911, col: 13, offset: 91805},
+																									pos: position{line: 2918, col: 13, offset: 91964},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 13, offset: 91805},
+																											pos:        position{line: 2918, col: 13, offset: 91964},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 20, offset: 91812},
+																											pos:        position{line: 2918, col: 20, offset: 91971},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 29, offset: 91821},
+																											pos:        position{line: 2918, col: 29, offset: 91980},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38927,9 +39131,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2921, col: 8, offset: 91981},
+																								pos: position{line: 2928, col: 8, offset: 92140},
 																								expr: &anyMatcher{
-																									line: 2921, col: 9, offset: 91982,
+																									line: 2928, col: 9, offset: 92141,
 																								},
 																							},
 																						},
@@ -38974,10 +39178,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 750, col: 8, offset: 24031},
 																						expr: &actionExpr{
-																							pos: position{line: 2902, col: 10, offset: 91633},
+																							pos: position{line: 2909, col: 10, offset: 91792},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2902, col: 10, offset: 91633},
+																								pos:        position{line: 2909, col: 10, offset: 91792},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38986,28 +39190,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2924, col: 8, offset: 92031},
+																						pos: position{line: 2931, col: 8, offset: 92190},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2911, col: 12, offset: 91804},
+																								pos: position{line: 2918, col: 12, offset: 91963},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2911, col: 13, offset: 91805},
+																									pos: position{line: 2918, col: 13, offset: 91964},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 13, offset: 91805},
+																											pos:        position{line: 2918, col: 13, offset: 91964},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 20, offset: 91812},
+																											pos:        position{line: 2918, col: 20, offset: 91971},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 29, offset: 91821},
+																											pos:        position{line: 2918, col: 29, offset: 91980},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39016,9 +39220,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2921, col: 8, offset: 91981},
+																								pos: position{line: 2928, col: 8, offset: 92140},
 																								expr: &anyMatcher{
-																									line: 2921, col: 9, offset: 91982,
+																									line: 2928, col: 9, offset: 92141,
 																								},
 																							},
 																						},
@@ -39059,10 +39263,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 761, col: 52, offset: 24443},
 																						expr: &actionExpr{
-																							pos: position{line: 2902, col: 10, offset: 91633},
+																							pos: position{line: 2909, col: 10, offset: 91792},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2902, col: 10, offset: 91633},
+																								pos:        position{line: 2909, col: 10, offset: 91792},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39071,28 +39275,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2924, col: 8, offset: 92031},
+																						pos: position{line: 2931, col: 8, offset: 92190},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2911, col: 12, offset: 91804},
+																								pos: position{line: 2918, col: 12, offset: 91963},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2911, col: 13, offset: 91805},
+																									pos: position{line: 2918, col: 13, offset: 91964},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 13, offset: 91805},
+																											pos:        position{line: 2918, col: 13, offset: 91964},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 20, offset: 91812},
+																											pos:        position{line: 2918, col: 20, offset: 91971},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 29, offset: 91821},
+																											pos:        position{line: 2918, col: 29, offset: 91980},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39101,9 +39305,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2921, col: 8, offset: 91981},
+																								pos: position{line: 2928, col: 8, offset: 92140},
 																								expr: &anyMatcher{
-																									line: 2921, col: 9, offset: 91982,
+																									line: 2928, col: 9, offset: 92141,
 																								},
 																							},
 																						},
@@ -39148,10 +39352,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 757, col: 8, offset: 24277},
 																						expr: &actionExpr{
-																							pos: position{line: 2902, col: 10, offset: 91633},
+																							pos: position{line: 2909, col: 10, offset: 91792},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2902, col: 10, offset: 91633},
+																								pos:        position{line: 2909, col: 10, offset: 91792},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39160,28 +39364,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2924, col: 8, offset: 92031},
+																						pos: position{line: 2931, col: 8, offset: 92190},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2911, col: 12, offset: 91804},
+																								pos: position{line: 2918, col: 12, offset: 91963},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2911, col: 13, offset: 91805},
+																									pos: position{line: 2918, col: 13, offset: 91964},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 13, offset: 91805},
+																											pos:        position{line: 2918, col: 13, offset: 91964},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 20, offset: 91812},
+																											pos:        position{line: 2918, col: 20, offset: 91971},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 29, offset: 91821},
+																											pos:        position{line: 2918, col: 29, offset: 91980},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39190,9 +39394,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2921, col: 8, offset: 91981},
+																								pos: position{line: 2928, col: 8, offset: 92140},
 																								expr: &anyMatcher{
-																									line: 2921, col: 9, offset: 91982,
+																									line: 2928, col: 9, offset: 92141,
 																								},
 																							},
 																						},
@@ -39237,10 +39441,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 772, col: 8, offset: 24815},
 																						expr: &actionExpr{
-																							pos: position{line: 2902, col: 10, offset: 91633},
+																							pos: position{line: 2909, col: 10, offset: 91792},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2902, col: 10, offset: 91633},
+																								pos:        position{line: 2909, col: 10, offset: 91792},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39249,28 +39453,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2924, col: 8, offset: 92031},
+																						pos: position{line: 2931, col: 8, offset: 92190},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2911, col: 12, offset: 91804},
+																								pos: position{line: 2918, col: 12, offset: 91963},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2911, col: 13, offset: 91805},
+																									pos: position{line: 2918, col: 13, offset: 91964},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 13, offset: 91805},
+																											pos:        position{line: 2918, col: 13, offset: 91964},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 20, offset: 91812},
+																											pos:        position{line: 2918, col: 20, offset: 91971},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 29, offset: 91821},
+																											pos:        position{line: 2918, col: 29, offset: 91980},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39279,9 +39483,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2921, col: 8, offset: 91981},
+																								pos: position{line: 2928, col: 8, offset: 92140},
 																								expr: &anyMatcher{
-																									line: 2921, col: 9, offset: 91982,
+																									line: 2928, col: 9, offset: 92141,
 																								},
 																							},
 																						},
@@ -39326,10 +39530,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 786, col: 8, offset: 25291},
 																						expr: &actionExpr{
-																							pos: position{line: 2902, col: 10, offset: 91633},
+																							pos: position{line: 2909, col: 10, offset: 91792},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2902, col: 10, offset: 91633},
+																								pos:        position{line: 2909, col: 10, offset: 91792},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39338,28 +39542,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2924, col: 8, offset: 92031},
+																						pos: position{line: 2931, col: 8, offset: 92190},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2911, col: 12, offset: 91804},
+																								pos: position{line: 2918, col: 12, offset: 91963},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2911, col: 13, offset: 91805},
+																									pos: position{line: 2918, col: 13, offset: 91964},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 13, offset: 91805},
+																											pos:        position{line: 2918, col: 13, offset: 91964},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 20, offset: 91812},
+																											pos:        position{line: 2918, col: 20, offset: 91971},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 29, offset: 91821},
+																											pos:        position{line: 2918, col: 29, offset: 91980},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39368,9 +39572,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2921, col: 8, offset: 91981},
+																								pos: position{line: 2928, col: 8, offset: 92140},
 																								expr: &anyMatcher{
-																									line: 2921, col: 9, offset: 91982,
+																									line: 2928, col: 9, offset: 92141,
 																								},
 																							},
 																						},
@@ -39415,10 +39619,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 793, col: 8, offset: 25543},
 																						expr: &actionExpr{
-																							pos: position{line: 2902, col: 10, offset: 91633},
+																							pos: position{line: 2909, col: 10, offset: 91792},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2902, col: 10, offset: 91633},
+																								pos:        position{line: 2909, col: 10, offset: 91792},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39427,28 +39631,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2924, col: 8, offset: 92031},
+																						pos: position{line: 2931, col: 8, offset: 92190},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2911, col: 12, offset: 91804},
+																								pos: position{line: 2918, col: 12, offset: 91963},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2911, col: 13, offset: 91805},
+																									pos: position{line: 2918, col: 13, offset: 91964},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 13, offset: 91805},
+																											pos:        position{line: 2918, col: 13, offset: 91964},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 20, offset: 91812},
+																											pos:        position{line: 2918, col: 20, offset: 91971},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 29, offset: 91821},
+																											pos:        position{line: 2918, col: 29, offset: 91980},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39457,9 +39661,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2921, col: 8, offset: 91981},
+																								pos: position{line: 2928, col: 8, offset: 92140},
 																								expr: &anyMatcher{
-																									line: 2921, col: 9, offset: 91982,
+																									line: 2928, col: 9, offset: 92141,
 																								},
 																							},
 																						},
@@ -39504,10 +39708,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 800, col: 8, offset: 25793},
 																						expr: &actionExpr{
-																							pos: position{line: 2902, col: 10, offset: 91633},
+																							pos: position{line: 2909, col: 10, offset: 91792},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2902, col: 10, offset: 91633},
+																								pos:        position{line: 2909, col: 10, offset: 91792},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39516,28 +39720,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2924, col: 8, offset: 92031},
+																						pos: position{line: 2931, col: 8, offset: 92190},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2911, col: 12, offset: 91804},
+																								pos: position{line: 2918, col: 12, offset: 91963},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2911, col: 13, offset: 91805},
+																									pos: position{line: 2918, col: 13, offset: 91964},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 13, offset: 91805},
+																											pos:        position{line: 2918, col: 13, offset: 91964},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 20, offset: 91812},
+																											pos:        position{line: 2918, col: 20, offset: 91971},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 29, offset: 91821},
+																											pos:        position{line: 2918, col: 29, offset: 91980},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39546,9 +39750,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2921, col: 8, offset: 91981},
+																								pos: position{line: 2928, col: 8, offset: 92140},
 																								expr: &anyMatcher{
-																									line: 2921, col: 9, offset: 91982,
+																									line: 2928, col: 9, offset: 92141,
 																								},
 																							},
 																						},
@@ -39593,10 +39797,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 807, col: 8, offset: 26039},
 																						expr: &actionExpr{
-																							pos: position{line: 2902, col: 10, offset: 91633},
+																							pos: position{line: 2909, col: 10, offset: 91792},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2902, col: 10, offset: 91633},
+																								pos:        position{line: 2909, col: 10, offset: 91792},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39605,28 +39809,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2924, col: 8, offset: 92031},
+																						pos: position{line: 2931, col: 8, offset: 92190},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2911, col: 12, offset: 91804},
+																								pos: position{line: 2918, col: 12, offset: 91963},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2911, col: 13, offset: 91805},
+																									pos: position{line: 2918, col: 13, offset: 91964},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 13, offset: 91805},
+																											pos:        position{line: 2918, col: 13, offset: 91964},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 20, offset: 91812},
+																											pos:        position{line: 2918, col: 20, offset: 91971},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2911, col: 29, offset: 91821},
+																											pos:        position{line: 2918, col: 29, offset: 91980},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39635,9 +39839,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2921, col: 8, offset: 91981},
+																								pos: position{line: 2928, col: 8, offset: 92140},
 																								expr: &anyMatcher{
-																									line: 2921, col: 9, offset: 91982,
+																									line: 2928, col: 9, offset: 92141,
 																								},
 																							},
 																						},
@@ -39666,10 +39870,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1543, col: 31, offset: 49887},
 															expr: &actionExpr{
-																pos: position{line: 2902, col: 10, offset: 91633},
+																pos: position{line: 2909, col: 10, offset: 91792},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2902, col: 10, offset: 91633},
+																	pos:        position{line: 2909, col: 10, offset: 91792},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39678,25 +39882,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2911, col: 12, offset: 91804},
+															pos: position{line: 2918, col: 12, offset: 91963},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2911, col: 13, offset: 91805},
+																pos: position{line: 2918, col: 13, offset: 91964},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 13, offset: 91805},
+																		pos:        position{line: 2918, col: 13, offset: 91964},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 20, offset: 91812},
+																		pos:        position{line: 2918, col: 20, offset: 91971},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 29, offset: 91821},
+																		pos:        position{line: 2918, col: 29, offset: 91980},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -39738,12 +39942,12 @@ var g = &grammar{
 																		pos:   position{line: 2512, col: 49, offset: 80597},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2848, col: 13, offset: 90159},
+																			pos: position{line: 2855, col: 13, offset: 90318},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2848, col: 13, offset: 90159},
+																				pos: position{line: 2855, col: 13, offset: 90318},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2848, col: 13, offset: 90159},
+																					pos:        position{line: 2855, col: 13, offset: 90318},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39753,28 +39957,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2924, col: 8, offset: 92031},
+																		pos: position{line: 2931, col: 8, offset: 92190},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
+																				pos: position{line: 2918, col: 12, offset: 91963},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39783,9 +39987,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2921, col: 8, offset: 91981},
+																				pos: position{line: 2928, col: 8, offset: 92140},
 																				expr: &anyMatcher{
-																					line: 2921, col: 9, offset: 91982,
+																					line: 2928, col: 9, offset: 92141,
 																				},
 																			},
 																		},
@@ -39803,12 +40007,12 @@ var g = &grammar{
 																		pos:   position{line: 1791, col: 5, offset: 57852},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 14, offset: 90226},
+																			pos: position{line: 2859, col: 14, offset: 90385},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2852, col: 14, offset: 90226},
+																				pos: position{line: 2859, col: 14, offset: 90385},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 14, offset: 90226},
+																					pos:        position{line: 2859, col: 14, offset: 90385},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39822,28 +40026,28 @@ var g = &grammar{
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2924, col: 8, offset: 92031},
+																		pos: position{line: 2931, col: 8, offset: 92190},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
+																				pos: position{line: 2918, col: 12, offset: 91963},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39852,9 +40056,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2921, col: 8, offset: 91981},
+																				pos: position{line: 2928, col: 8, offset: 92140},
 																				expr: &anyMatcher{
-																					line: 2921, col: 9, offset: 91982,
+																					line: 2928, col: 9, offset: 92141,
 																				},
 																			},
 																		},
@@ -39960,12 +40164,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1745, col: 13, offset: 56366},
 																expr: &actionExpr{
-																	pos: position{line: 2906, col: 11, offset: 91694},
+																	pos: position{line: 2913, col: 11, offset: 91853},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2906, col: 11, offset: 91694},
+																		pos: position{line: 2913, col: 11, offset: 91853},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2906, col: 11, offset: 91694},
+																			pos:        position{line: 2913, col: 11, offset: 91853},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39996,12 +40200,12 @@ var g = &grammar{
 											pos:   position{line: 1791, col: 5, offset: 57852},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2852, col: 14, offset: 90226},
+												pos: position{line: 2859, col: 14, offset: 90385},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2852, col: 14, offset: 90226},
+													pos: position{line: 2859, col: 14, offset: 90385},
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 14, offset: 90226},
+														pos:        position{line: 2859, col: 14, offset: 90385},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40015,28 +40219,28 @@ var g = &grammar{
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2924, col: 8, offset: 92031},
+											pos: position{line: 2931, col: 8, offset: 92190},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2911, col: 12, offset: 91804},
+													pos: position{line: 2918, col: 12, offset: 91963},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2911, col: 13, offset: 91805},
+														pos: position{line: 2918, col: 13, offset: 91964},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2911, col: 13, offset: 91805},
+																pos:        position{line: 2918, col: 13, offset: 91964},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2911, col: 20, offset: 91812},
+																pos:        position{line: 2918, col: 20, offset: 91971},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2911, col: 29, offset: 91821},
+																pos:        position{line: 2918, col: 29, offset: 91980},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40045,9 +40249,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2921, col: 8, offset: 91981},
+													pos: position{line: 2928, col: 8, offset: 92140},
 													expr: &anyMatcher{
-														line: 2921, col: 9, offset: 91982,
+														line: 2928, col: 9, offset: 92141,
 													},
 												},
 											},
@@ -40068,9 +40272,9 @@ var g = &grammar{
 										pos: position{line: 1780, col: 9, offset: 57558},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2919, col: 11, offset: 91967},
+												pos: position{line: 2926, col: 11, offset: 92126},
 												expr: &anyMatcher{
-													line: 2919, col: 13, offset: 91969,
+													line: 2926, col: 13, offset: 92128,
 												},
 											},
 											&notExpr{
@@ -40082,18 +40286,18 @@ var g = &grammar{
 														pos: position{line: 678, col: 14, offset: 21586},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2919, col: 11, offset: 91967},
+																pos: position{line: 2926, col: 11, offset: 92126},
 																expr: &anyMatcher{
-																	line: 2919, col: 13, offset: 91969,
+																	line: 2926, col: 13, offset: 92128,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 678, col: 21, offset: 21593},
 																expr: &actionExpr{
-																	pos: position{line: 2902, col: 10, offset: 91633},
+																	pos: position{line: 2909, col: 10, offset: 91792},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2902, col: 10, offset: 91633},
+																		pos:        position{line: 2909, col: 10, offset: 91792},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40102,28 +40306,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2924, col: 8, offset: 92031},
+																pos: position{line: 2931, col: 8, offset: 92190},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2911, col: 12, offset: 91804},
+																		pos: position{line: 2918, col: 12, offset: 91963},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2911, col: 13, offset: 91805},
+																			pos: position{line: 2918, col: 13, offset: 91964},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2911, col: 13, offset: 91805},
+																					pos:        position{line: 2918, col: 13, offset: 91964},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2911, col: 20, offset: 91812},
+																					pos:        position{line: 2918, col: 20, offset: 91971},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2911, col: 29, offset: 91821},
+																					pos:        position{line: 2918, col: 29, offset: 91980},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40132,9 +40336,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2921, col: 8, offset: 91981},
+																		pos: position{line: 2928, col: 8, offset: 92140},
 																		expr: &anyMatcher{
-																			line: 2921, col: 9, offset: 91982,
+																			line: 2928, col: 9, offset: 92141,
 																		},
 																	},
 																},
@@ -40181,12 +40385,12 @@ var g = &grammar{
 																		pos:   position{line: 2512, col: 49, offset: 80597},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2848, col: 13, offset: 90159},
+																			pos: position{line: 2855, col: 13, offset: 90318},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2848, col: 13, offset: 90159},
+																				pos: position{line: 2855, col: 13, offset: 90318},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2848, col: 13, offset: 90159},
+																					pos:        position{line: 2855, col: 13, offset: 90318},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40196,28 +40400,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2924, col: 8, offset: 92031},
+																		pos: position{line: 2931, col: 8, offset: 92190},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
+																				pos: position{line: 2918, col: 12, offset: 91963},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40226,9 +40430,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2921, col: 8, offset: 91981},
+																				pos: position{line: 2928, col: 8, offset: 92140},
 																				expr: &anyMatcher{
-																					line: 2921, col: 9, offset: 91982,
+																					line: 2928, col: 9, offset: 92141,
 																				},
 																			},
 																		},
@@ -40246,12 +40450,12 @@ var g = &grammar{
 																		pos:   position{line: 1791, col: 5, offset: 57852},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 14, offset: 90226},
+																			pos: position{line: 2859, col: 14, offset: 90385},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2852, col: 14, offset: 90226},
+																				pos: position{line: 2859, col: 14, offset: 90385},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 14, offset: 90226},
+																					pos:        position{line: 2859, col: 14, offset: 90385},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40265,28 +40469,28 @@ var g = &grammar{
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2924, col: 8, offset: 92031},
+																		pos: position{line: 2931, col: 8, offset: 92190},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
+																				pos: position{line: 2918, col: 12, offset: 91963},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40295,9 +40499,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2921, col: 8, offset: 91981},
+																				pos: position{line: 2928, col: 8, offset: 92140},
 																				expr: &anyMatcher{
-																					line: 2921, col: 9, offset: 91982,
+																					line: 2928, col: 9, offset: 92141,
 																				},
 																			},
 																		},
@@ -40510,21 +40714,21 @@ var g = &grammar{
 				pos: position{line: 1857, col: 5, offset: 59823},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2801, col: 5, offset: 88875},
+						pos: position{line: 2808, col: 5, offset: 89034},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2801, col: 5, offset: 88875},
+							pos: position{line: 2808, col: 5, offset: 89034},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2801, col: 5, offset: 88875},
+									pos:   position{line: 2808, col: 5, offset: 89034},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2801, col: 11, offset: 88881},
+										pos: position{line: 2808, col: 11, offset: 89040},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2801, col: 11, offset: 88881},
+											pos: position{line: 2808, col: 11, offset: 89040},
 											expr: &charClassMatcher{
-												pos:        position{line: 2801, col: 11, offset: 88881},
+												pos:        position{line: 2808, col: 11, offset: 89040},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40534,36 +40738,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2804, col: 5, offset: 88939},
+									pos: position{line: 2811, col: 5, offset: 89098},
 									expr: &seqExpr{
-										pos: position{line: 2805, col: 9, offset: 88950},
+										pos: position{line: 2812, col: 9, offset: 89109},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2805, col: 9, offset: 88950},
+												pos:        position{line: 2812, col: 9, offset: 89109},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2806, col: 9, offset: 88999},
+												pos: position{line: 2813, col: 9, offset: 89158},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2810, col: 5, offset: 89079},
+									pos: position{line: 2817, col: 5, offset: 89238},
 									expr: &seqExpr{
-										pos: position{line: 2811, col: 9, offset: 89090},
+										pos: position{line: 2818, col: 9, offset: 89249},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2811, col: 9, offset: 89090},
+												pos:        position{line: 2818, col: 9, offset: 89249},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2811, col: 13, offset: 89094},
+												pos:        position{line: 2818, col: 13, offset: 89253},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40576,12 +40780,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2906, col: 11, offset: 91694},
+						pos: position{line: 2913, col: 11, offset: 91853},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2906, col: 11, offset: 91694},
+							pos: position{line: 2913, col: 11, offset: 91853},
 							expr: &charClassMatcher{
-								pos:        position{line: 2906, col: 11, offset: 91694},
+								pos:        position{line: 2913, col: 11, offset: 91853},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -40652,27 +40856,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2819, col: 5, offset: 89287},
+						pos: position{line: 2826, col: 5, offset: 89446},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2820, col: 9, offset: 89297},
+							pos: position{line: 2827, col: 9, offset: 89456},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2820, col: 10, offset: 89298},
+									pos:        position{line: 2827, col: 10, offset: 89457},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2822, col: 13, offset: 89395},
+									pos: position{line: 2829, col: 13, offset: 89554},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2822, col: 13, offset: 89395},
+											pos: position{line: 2829, col: 13, offset: 89554},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2825, col: 13, offset: 89495},
+											pos:        position{line: 2832, col: 13, offset: 89654},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -40680,20 +40884,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2825, col: 19, offset: 89501},
+									pos:        position{line: 2832, col: 19, offset: 89660},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2828, col: 13, offset: 89539},
+									pos: position{line: 2835, col: 13, offset: 89698},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2828, col: 13, offset: 89539},
+											pos: position{line: 2835, col: 13, offset: 89698},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2831, col: 14, offset: 89632},
+											pos:        position{line: 2838, col: 14, offset: 89791},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -40702,18 +40906,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2833, col: 12, offset: 89676},
+									pos: position{line: 2840, col: 12, offset: 89835},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2833, col: 12, offset: 89676},
+											pos:        position{line: 2840, col: 12, offset: 89835},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2833, col: 16, offset: 89680},
+											pos: position{line: 2840, col: 16, offset: 89839},
 											expr: &litMatcher{
-												pos:        position{line: 2833, col: 17, offset: 89681},
+												pos:        position{line: 2840, col: 17, offset: 89840},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -41071,31 +41275,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2915, col: 18, offset: 91904},
+						pos: position{line: 2922, col: 18, offset: 92063},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2915, col: 18, offset: 91904},
+							pos: position{line: 2922, col: 18, offset: 92063},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2911, col: 12, offset: 91804},
+									pos: position{line: 2918, col: 12, offset: 91963},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2911, col: 13, offset: 91805},
+										pos: position{line: 2918, col: 13, offset: 91964},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2911, col: 13, offset: 91805},
+												pos:        position{line: 2918, col: 13, offset: 91964},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2911, col: 20, offset: 91812},
+												pos:        position{line: 2918, col: 20, offset: 91971},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2911, col: 29, offset: 91821},
+												pos:        position{line: 2918, col: 29, offset: 91980},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41104,27 +41308,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2915, col: 26, offset: 91912},
+									pos: position{line: 2922, col: 26, offset: 92071},
 									expr: &actionExpr{
-										pos: position{line: 2911, col: 12, offset: 91804},
+										pos: position{line: 2918, col: 12, offset: 91963},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2911, col: 13, offset: 91805},
+											pos: position{line: 2918, col: 13, offset: 91964},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2911, col: 13, offset: 91805},
+													pos:        position{line: 2918, col: 13, offset: 91964},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2911, col: 20, offset: 91812},
+													pos:        position{line: 2918, col: 20, offset: 91971},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2911, col: 29, offset: 91821},
+													pos:        position{line: 2918, col: 29, offset: 91980},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41212,10 +41416,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2841, col: 12, offset: 89941},
+						pos: position{line: 2848, col: 12, offset: 90100},
 						run: (*parser).callonQuotedTextElement144,
 						expr: &charClassMatcher{
-							pos:        position{line: 2841, col: 12, offset: 89941},
+							pos:        position{line: 2848, col: 12, offset: 90100},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41296,9 +41500,9 @@ var g = &grammar{
 					pos: position{line: 1900, col: 5, offset: 61074},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2919, col: 11, offset: 91967},
+							pos: position{line: 2926, col: 11, offset: 92126},
 							expr: &anyMatcher{
-								line: 2919, col: 13, offset: 91969,
+								line: 2926, col: 13, offset: 92128,
 							},
 						},
 						&notExpr{
@@ -41385,7 +41589,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 1925, col: 7, offset: 61799},
 								expr: &charClassMatcher{
-									pos:        position{line: 2792, col: 13, offset: 88728},
+									pos:        position{line: 2799, col: 13, offset: 88887},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41409,10 +41613,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 1935, col: 5, offset: 62084},
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 10, offset: 91633},
+								pos: position{line: 2909, col: 10, offset: 91792},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2902, col: 10, offset: 91633},
+									pos:        position{line: 2909, col: 10, offset: 91792},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41449,9 +41653,9 @@ var g = &grammar{
 					pos: position{line: 1944, col: 5, offset: 62343},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2919, col: 11, offset: 91967},
+							pos: position{line: 2926, col: 11, offset: 92126},
 							expr: &anyMatcher{
-								line: 2919, col: 13, offset: 91969,
+								line: 2926, col: 13, offset: 92128,
 							},
 						},
 						&notExpr{
@@ -41483,7 +41687,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 1925, col: 7, offset: 61799},
 											expr: &charClassMatcher{
-												pos:        position{line: 2792, col: 13, offset: 88728},
+												pos:        position{line: 2799, col: 13, offset: 88887},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41735,9 +41939,9 @@ var g = &grammar{
 					pos: position{line: 1996, col: 5, offset: 64167},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2919, col: 11, offset: 91967},
+							pos: position{line: 2926, col: 11, offset: 92126},
 							expr: &anyMatcher{
-								line: 2919, col: 13, offset: 91969,
+								line: 2926, col: 13, offset: 92128,
 							},
 						},
 						&notExpr{
@@ -41824,7 +42028,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 2022, col: 7, offset: 64898},
 								expr: &charClassMatcher{
-									pos:        position{line: 2792, col: 13, offset: 88728},
+									pos:        position{line: 2799, col: 13, offset: 88887},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41848,10 +42052,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2032, col: 5, offset: 65195},
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 10, offset: 91633},
+								pos: position{line: 2909, col: 10, offset: 91792},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2902, col: 10, offset: 91633},
+									pos:        position{line: 2909, col: 10, offset: 91792},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41888,9 +42092,9 @@ var g = &grammar{
 					pos: position{line: 2041, col: 5, offset: 65457},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2919, col: 11, offset: 91967},
+							pos: position{line: 2926, col: 11, offset: 92126},
 							expr: &anyMatcher{
-								line: 2919, col: 13, offset: 91969,
+								line: 2926, col: 13, offset: 92128,
 							},
 						},
 						&notExpr{
@@ -41922,7 +42126,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 2022, col: 7, offset: 64898},
 											expr: &charClassMatcher{
-												pos:        position{line: 2792, col: 13, offset: 88728},
+												pos:        position{line: 2799, col: 13, offset: 88887},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42174,9 +42378,9 @@ var g = &grammar{
 					pos: position{line: 2093, col: 5, offset: 67458},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2919, col: 11, offset: 91967},
+							pos: position{line: 2926, col: 11, offset: 92126},
 							expr: &anyMatcher{
-								line: 2919, col: 13, offset: 91969,
+								line: 2926, col: 13, offset: 92128,
 							},
 						},
 						&notExpr{
@@ -42228,7 +42432,7 @@ var g = &grammar{
 						expr: &notExpr{
 							pos: position{line: 2120, col: 7, offset: 68251},
 							expr: &charClassMatcher{
-								pos:        position{line: 2792, col: 13, offset: 88728},
+								pos:        position{line: 2799, col: 13, offset: 88887},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42298,10 +42502,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2131, col: 5, offset: 68572},
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 10, offset: 91633},
+								pos: position{line: 2909, col: 10, offset: 91792},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2902, col: 10, offset: 91633},
+									pos:        position{line: 2909, col: 10, offset: 91792},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42338,9 +42542,9 @@ var g = &grammar{
 					pos: position{line: 2140, col: 5, offset: 68840},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2919, col: 11, offset: 91967},
+							pos: position{line: 2926, col: 11, offset: 92126},
 							expr: &anyMatcher{
-								line: 2919, col: 13, offset: 91969,
+								line: 2926, col: 13, offset: 92128,
 							},
 						},
 						&notExpr{
@@ -42591,9 +42795,9 @@ var g = &grammar{
 					pos: position{line: 2192, col: 5, offset: 70724},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2919, col: 11, offset: 91967},
+							pos: position{line: 2926, col: 11, offset: 92126},
 							expr: &anyMatcher{
-								line: 2919, col: 13, offset: 91969,
+								line: 2926, col: 13, offset: 92128,
 							},
 						},
 						&notExpr{
@@ -42680,7 +42884,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 2217, col: 7, offset: 71453},
 								expr: &charClassMatcher{
-									pos:        position{line: 2792, col: 13, offset: 88728},
+									pos:        position{line: 2799, col: 13, offset: 88887},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42704,10 +42908,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2227, col: 5, offset: 71750},
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 10, offset: 91633},
+								pos: position{line: 2909, col: 10, offset: 91792},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2902, col: 10, offset: 91633},
+									pos:        position{line: 2909, col: 10, offset: 91792},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42744,9 +42948,9 @@ var g = &grammar{
 					pos: position{line: 2236, col: 5, offset: 72013},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2919, col: 11, offset: 91967},
+							pos: position{line: 2926, col: 11, offset: 92126},
 							expr: &anyMatcher{
-								line: 2919, col: 13, offset: 91969,
+								line: 2926, col: 13, offset: 92128,
 							},
 						},
 						&notExpr{
@@ -42778,7 +42982,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 2217, col: 7, offset: 71453},
 											expr: &charClassMatcher{
-												pos:        position{line: 2792, col: 13, offset: 88728},
+												pos:        position{line: 2799, col: 13, offset: 88887},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43248,12 +43452,12 @@ var g = &grammar{
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2906, col: 11, offset: 91694},
+							pos: position{line: 2913, col: 11, offset: 91853},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2906, col: 11, offset: 91694},
+								pos: position{line: 2913, col: 11, offset: 91853},
 								expr: &charClassMatcher{
-									pos:        position{line: 2906, col: 11, offset: 91694},
+									pos:        position{line: 2913, col: 11, offset: 91853},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43270,28 +43474,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2924, col: 8, offset: 92031},
+							pos: position{line: 2931, col: 8, offset: 92190},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2911, col: 12, offset: 91804},
+									pos: position{line: 2918, col: 12, offset: 91963},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2911, col: 13, offset: 91805},
+										pos: position{line: 2918, col: 13, offset: 91964},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2911, col: 13, offset: 91805},
+												pos:        position{line: 2918, col: 13, offset: 91964},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2911, col: 20, offset: 91812},
+												pos:        position{line: 2918, col: 20, offset: 91971},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2911, col: 29, offset: 91821},
+												pos:        position{line: 2918, col: 29, offset: 91980},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43300,9 +43504,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2921, col: 8, offset: 91981},
+									pos: position{line: 2928, col: 8, offset: 92140},
 									expr: &anyMatcher{
-										line: 2921, col: 9, offset: 91982,
+										line: 2928, col: 9, offset: 92141,
 									},
 								},
 							},
@@ -43351,28 +43555,28 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2358, col: 5, offset: 76079},
 							expr: &choiceExpr{
-								pos: position{line: 2924, col: 8, offset: 92031},
+								pos: position{line: 2931, col: 8, offset: 92190},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2911, col: 12, offset: 91804},
+										pos: position{line: 2918, col: 12, offset: 91963},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2911, col: 13, offset: 91805},
+											pos: position{line: 2918, col: 13, offset: 91964},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2911, col: 13, offset: 91805},
+													pos:        position{line: 2918, col: 13, offset: 91964},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2911, col: 20, offset: 91812},
+													pos:        position{line: 2918, col: 20, offset: 91971},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2911, col: 29, offset: 91821},
+													pos:        position{line: 2918, col: 29, offset: 91980},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43381,9 +43585,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2921, col: 8, offset: 91981},
+										pos: position{line: 2928, col: 8, offset: 92140},
 										expr: &anyMatcher{
-											line: 2921, col: 9, offset: 91982,
+											line: 2928, col: 9, offset: 92141,
 										},
 									},
 								},
@@ -43396,21 +43600,21 @@ var g = &grammar{
 								pos: position{line: 2360, col: 9, offset: 76106},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2801, col: 5, offset: 88875},
+										pos: position{line: 2808, col: 5, offset: 89034},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2801, col: 5, offset: 88875},
+											pos: position{line: 2808, col: 5, offset: 89034},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2801, col: 5, offset: 88875},
+													pos:   position{line: 2808, col: 5, offset: 89034},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2801, col: 11, offset: 88881},
+														pos: position{line: 2808, col: 11, offset: 89040},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2801, col: 11, offset: 88881},
+															pos: position{line: 2808, col: 11, offset: 89040},
 															expr: &charClassMatcher{
-																pos:        position{line: 2801, col: 11, offset: 88881},
+																pos:        position{line: 2808, col: 11, offset: 89040},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43420,36 +43624,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2804, col: 5, offset: 88939},
+													pos: position{line: 2811, col: 5, offset: 89098},
 													expr: &seqExpr{
-														pos: position{line: 2805, col: 9, offset: 88950},
+														pos: position{line: 2812, col: 9, offset: 89109},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2805, col: 9, offset: 88950},
+																pos:        position{line: 2812, col: 9, offset: 89109},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2806, col: 9, offset: 88999},
+																pos: position{line: 2813, col: 9, offset: 89158},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2810, col: 5, offset: 89079},
+													pos: position{line: 2817, col: 5, offset: 89238},
 													expr: &seqExpr{
-														pos: position{line: 2811, col: 9, offset: 89090},
+														pos: position{line: 2818, col: 9, offset: 89249},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2811, col: 9, offset: 89090},
+																pos:        position{line: 2818, col: 9, offset: 89249},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2811, col: 13, offset: 89094},
+																pos:        position{line: 2818, col: 13, offset: 89253},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43462,12 +43666,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2906, col: 11, offset: 91694},
+										pos: position{line: 2913, col: 11, offset: 91853},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2906, col: 11, offset: 91694},
+											pos: position{line: 2913, col: 11, offset: 91853},
 											expr: &charClassMatcher{
-												pos:        position{line: 2906, col: 11, offset: 91694},
+												pos:        position{line: 2913, col: 11, offset: 91853},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43538,27 +43742,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2819, col: 5, offset: 89287},
+										pos: position{line: 2826, col: 5, offset: 89446},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2820, col: 9, offset: 89297},
+											pos: position{line: 2827, col: 9, offset: 89456},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2820, col: 10, offset: 89298},
+													pos:        position{line: 2827, col: 10, offset: 89457},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2822, col: 13, offset: 89395},
+													pos: position{line: 2829, col: 13, offset: 89554},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2822, col: 13, offset: 89395},
+															pos: position{line: 2829, col: 13, offset: 89554},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2825, col: 13, offset: 89495},
+															pos:        position{line: 2832, col: 13, offset: 89654},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43566,20 +43770,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2825, col: 19, offset: 89501},
+													pos:        position{line: 2832, col: 19, offset: 89660},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2828, col: 13, offset: 89539},
+													pos: position{line: 2835, col: 13, offset: 89698},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2828, col: 13, offset: 89539},
+															pos: position{line: 2835, col: 13, offset: 89698},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2831, col: 14, offset: 89632},
+															pos:        position{line: 2838, col: 14, offset: 89791},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -43588,18 +43792,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2833, col: 12, offset: 89676},
+													pos: position{line: 2840, col: 12, offset: 89835},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2833, col: 12, offset: 89676},
+															pos:        position{line: 2840, col: 12, offset: 89835},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2833, col: 16, offset: 89680},
+															pos: position{line: 2840, col: 16, offset: 89839},
 															expr: &litMatcher{
-																pos:        position{line: 2833, col: 17, offset: 89681},
+																pos:        position{line: 2840, col: 17, offset: 89840},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -44506,10 +44710,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 2385, col: 26, offset: 76902},
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 10, offset: 91633},
+														pos: position{line: 2909, col: 10, offset: 91792},
 														run: (*parser).callonSectionTitleElement241,
 														expr: &charClassMatcher{
-															pos:        position{line: 2902, col: 10, offset: 91633},
+															pos:        position{line: 2909, col: 10, offset: 91792},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44520,28 +44724,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 2385, col: 33, offset: 76909},
 													expr: &choiceExpr{
-														pos: position{line: 2924, col: 8, offset: 92031},
+														pos: position{line: 2931, col: 8, offset: 92190},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2911, col: 12, offset: 91804},
+																pos: position{line: 2918, col: 12, offset: 91963},
 																run: (*parser).callonSectionTitleElement245,
 																expr: &choiceExpr{
-																	pos: position{line: 2911, col: 13, offset: 91805},
+																	pos: position{line: 2918, col: 13, offset: 91964},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 13, offset: 91805},
+																			pos:        position{line: 2918, col: 13, offset: 91964},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 20, offset: 91812},
+																			pos:        position{line: 2918, col: 20, offset: 91971},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2911, col: 29, offset: 91821},
+																			pos:        position{line: 2918, col: 29, offset: 91980},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44550,9 +44754,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2921, col: 8, offset: 91981},
+																pos: position{line: 2928, col: 8, offset: 92140},
 																expr: &anyMatcher{
-																	line: 2921, col: 9, offset: 91982,
+																	line: 2928, col: 9, offset: 92141,
 																},
 															},
 														},
@@ -44577,12 +44781,12 @@ var g = &grammar{
 													pos:   position{line: 1254, col: 14, offset: 38838},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2887, col: 7, offset: 91285},
+														pos: position{line: 2894, col: 7, offset: 91444},
 														run: (*parser).callonSectionTitleElement256,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2887, col: 7, offset: 91285},
+															pos: position{line: 2894, col: 7, offset: 91444},
 															expr: &charClassMatcher{
-																pos:        position{line: 2887, col: 7, offset: 91285},
+																pos:        position{line: 2894, col: 7, offset: 91444},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -44616,12 +44820,12 @@ var g = &grammar{
 													pos:   position{line: 1259, col: 10, offset: 38970},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2887, col: 7, offset: 91285},
+														pos: position{line: 2894, col: 7, offset: 91444},
 														run: (*parser).callonSectionTitleElement264,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2887, col: 7, offset: 91285},
+															pos: position{line: 2894, col: 7, offset: 91444},
 															expr: &charClassMatcher{
-																pos:        position{line: 2887, col: 7, offset: 91285},
+																pos:        position{line: 2894, col: 7, offset: 91444},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -44644,10 +44848,10 @@ var g = &grammar{
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2841, col: 12, offset: 89941},
+										pos: position{line: 2848, col: 12, offset: 90100},
 										run: (*parser).callonSectionTitleElement269,
 										expr: &charClassMatcher{
-											pos:        position{line: 2841, col: 12, offset: 89941},
+											pos:        position{line: 2848, col: 12, offset: 90100},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -44682,9 +44886,9 @@ var g = &grammar{
 										pos: position{line: 2398, col: 9, offset: 77293},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2919, col: 11, offset: 91967},
+												pos: position{line: 2926, col: 11, offset: 92126},
 												expr: &anyMatcher{
-													line: 2919, col: 13, offset: 91969,
+													line: 2926, col: 13, offset: 92128,
 												},
 											},
 											&labeledExpr{
@@ -44694,21 +44898,21 @@ var g = &grammar{
 													pos: position{line: 2400, col: 13, offset: 77330},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2801, col: 5, offset: 88875},
+															pos: position{line: 2808, col: 5, offset: 89034},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2801, col: 5, offset: 88875},
+																pos: position{line: 2808, col: 5, offset: 89034},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2801, col: 5, offset: 88875},
+																		pos:   position{line: 2808, col: 5, offset: 89034},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2801, col: 11, offset: 88881},
+																			pos: position{line: 2808, col: 11, offset: 89040},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2801, col: 11, offset: 88881},
+																				pos: position{line: 2808, col: 11, offset: 89040},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2801, col: 11, offset: 88881},
+																					pos:        position{line: 2808, col: 11, offset: 89040},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44718,36 +44922,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2804, col: 5, offset: 88939},
+																		pos: position{line: 2811, col: 5, offset: 89098},
 																		expr: &seqExpr{
-																			pos: position{line: 2805, col: 9, offset: 88950},
+																			pos: position{line: 2812, col: 9, offset: 89109},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2805, col: 9, offset: 88950},
+																					pos:        position{line: 2812, col: 9, offset: 89109},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2806, col: 9, offset: 88999},
+																					pos: position{line: 2813, col: 9, offset: 89158},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2810, col: 5, offset: 89079},
+																		pos: position{line: 2817, col: 5, offset: 89238},
 																		expr: &seqExpr{
-																			pos: position{line: 2811, col: 9, offset: 89090},
+																			pos: position{line: 2818, col: 9, offset: 89249},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2811, col: 9, offset: 89090},
+																					pos:        position{line: 2818, col: 9, offset: 89249},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2811, col: 13, offset: 89094},
+																					pos:        position{line: 2818, col: 13, offset: 89253},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44760,12 +44964,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2906, col: 11, offset: 91694},
+															pos: position{line: 2913, col: 11, offset: 91853},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2906, col: 11, offset: 91694},
+																pos: position{line: 2913, col: 11, offset: 91853},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2906, col: 11, offset: 91694},
+																	pos:        position{line: 2913, col: 11, offset: 91853},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -44836,27 +45040,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2819, col: 5, offset: 89287},
+															pos: position{line: 2826, col: 5, offset: 89446},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2820, col: 9, offset: 89297},
+																pos: position{line: 2827, col: 9, offset: 89456},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2820, col: 10, offset: 89298},
+																		pos:        position{line: 2827, col: 10, offset: 89457},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2822, col: 13, offset: 89395},
+																		pos: position{line: 2829, col: 13, offset: 89554},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2822, col: 13, offset: 89395},
+																				pos: position{line: 2829, col: 13, offset: 89554},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2825, col: 13, offset: 89495},
+																				pos:        position{line: 2832, col: 13, offset: 89654},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -44864,20 +45068,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2825, col: 19, offset: 89501},
+																		pos:        position{line: 2832, col: 19, offset: 89660},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2828, col: 13, offset: 89539},
+																		pos: position{line: 2835, col: 13, offset: 89698},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2828, col: 13, offset: 89539},
+																				pos: position{line: 2835, col: 13, offset: 89698},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2831, col: 14, offset: 89632},
+																				pos:        position{line: 2838, col: 14, offset: 89791},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -44886,18 +45090,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2833, col: 12, offset: 89676},
+																		pos: position{line: 2840, col: 12, offset: 89835},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2833, col: 12, offset: 89676},
+																				pos:        position{line: 2840, col: 12, offset: 89835},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2833, col: 16, offset: 89680},
+																				pos: position{line: 2840, col: 16, offset: 89839},
 																				expr: &litMatcher{
-																					pos:        position{line: 2833, col: 17, offset: 89681},
+																					pos:        position{line: 2840, col: 17, offset: 89840},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -44909,25 +45113,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2911, col: 12, offset: 91804},
+															pos: position{line: 2918, col: 12, offset: 91963},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2911, col: 13, offset: 91805},
+																pos: position{line: 2918, col: 13, offset: 91964},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 13, offset: 91805},
+																		pos:        position{line: 2918, col: 13, offset: 91964},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 20, offset: 91812},
+																		pos:        position{line: 2918, col: 20, offset: 91971},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2911, col: 29, offset: 91821},
+																		pos:        position{line: 2918, col: 29, offset: 91980},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45344,10 +45548,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1215, col: 5, offset: 37686},
 																		expr: &actionExpr{
-																			pos: position{line: 2902, col: 10, offset: 91633},
+																			pos: position{line: 2909, col: 10, offset: 91792},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2902, col: 10, offset: 91633},
+																				pos:        position{line: 2909, col: 10, offset: 91792},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45358,28 +45562,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1215, col: 12, offset: 37693},
 																		expr: &choiceExpr{
-																			pos: position{line: 2924, col: 8, offset: 92031},
+																			pos: position{line: 2931, col: 8, offset: 92190},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2911, col: 12, offset: 91804},
+																					pos: position{line: 2918, col: 12, offset: 91963},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2911, col: 13, offset: 91805},
+																						pos: position{line: 2918, col: 13, offset: 91964},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 13, offset: 91805},
+																								pos:        position{line: 2918, col: 13, offset: 91964},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 20, offset: 91812},
+																								pos:        position{line: 2918, col: 20, offset: 91971},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 29, offset: 91821},
+																								pos:        position{line: 2918, col: 29, offset: 91980},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45388,9 +45592,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2921, col: 8, offset: 91981},
+																					pos: position{line: 2928, col: 8, offset: 92140},
 																					expr: &anyMatcher{
-																						line: 2921, col: 9, offset: 91982,
+																						line: 2928, col: 9, offset: 92141,
 																					},
 																				},
 																			},
@@ -45443,10 +45647,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2841, col: 12, offset: 89941},
+															pos: position{line: 2848, col: 12, offset: 90100},
 															run: (*parser).callonNormalGroup164,
 															expr: &charClassMatcher{
-																pos:        position{line: 2841, col: 12, offset: 89941},
+																pos:        position{line: 2848, col: 12, offset: 90100},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45462,9 +45666,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2921, col: 8, offset: 91981},
+							pos: position{line: 2928, col: 8, offset: 92140},
 							expr: &anyMatcher{
-								line: 2921, col: 9, offset: 91982,
+								line: 2928, col: 9, offset: 92141,
 							},
 						},
 					},
@@ -45492,9 +45696,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2921, col: 8, offset: 91981},
+							pos: position{line: 2928, col: 8, offset: 92140},
 							expr: &anyMatcher{
-								line: 2921, col: 9, offset: 91982,
+								line: 2928, col: 9, offset: 92141,
 							},
 						},
 					},
@@ -45511,9 +45715,9 @@ var g = &grammar{
 					pos: position{line: 2429, col: 5, offset: 78452},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2919, col: 11, offset: 91967},
+							pos: position{line: 2926, col: 11, offset: 92126},
 							expr: &anyMatcher{
-								line: 2919, col: 13, offset: 91969,
+								line: 2926, col: 13, offset: 92128,
 							},
 						},
 						&labeledExpr{
@@ -45523,21 +45727,21 @@ var g = &grammar{
 								pos: position{line: 2431, col: 9, offset: 78481},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2801, col: 5, offset: 88875},
+										pos: position{line: 2808, col: 5, offset: 89034},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2801, col: 5, offset: 88875},
+											pos: position{line: 2808, col: 5, offset: 89034},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2801, col: 5, offset: 88875},
+													pos:   position{line: 2808, col: 5, offset: 89034},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2801, col: 11, offset: 88881},
+														pos: position{line: 2808, col: 11, offset: 89040},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2801, col: 11, offset: 88881},
+															pos: position{line: 2808, col: 11, offset: 89040},
 															expr: &charClassMatcher{
-																pos:        position{line: 2801, col: 11, offset: 88881},
+																pos:        position{line: 2808, col: 11, offset: 89040},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45547,36 +45751,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2804, col: 5, offset: 88939},
+													pos: position{line: 2811, col: 5, offset: 89098},
 													expr: &seqExpr{
-														pos: position{line: 2805, col: 9, offset: 88950},
+														pos: position{line: 2812, col: 9, offset: 89109},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2805, col: 9, offset: 88950},
+																pos:        position{line: 2812, col: 9, offset: 89109},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2806, col: 9, offset: 88999},
+																pos: position{line: 2813, col: 9, offset: 89158},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2810, col: 5, offset: 89079},
+													pos: position{line: 2817, col: 5, offset: 89238},
 													expr: &seqExpr{
-														pos: position{line: 2811, col: 9, offset: 89090},
+														pos: position{line: 2818, col: 9, offset: 89249},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2811, col: 9, offset: 89090},
+																pos:        position{line: 2818, col: 9, offset: 89249},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2811, col: 13, offset: 89094},
+																pos:        position{line: 2818, col: 13, offset: 89253},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45589,10 +45793,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2902, col: 10, offset: 91633},
+										pos: position{line: 2909, col: 10, offset: 91792},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2902, col: 10, offset: 91633},
+											pos:        position{line: 2909, col: 10, offset: 91792},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45604,27 +45808,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2819, col: 5, offset: 89287},
+										pos: position{line: 2826, col: 5, offset: 89446},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2820, col: 9, offset: 89297},
+											pos: position{line: 2827, col: 9, offset: 89456},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2820, col: 10, offset: 89298},
+													pos:        position{line: 2827, col: 10, offset: 89457},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2822, col: 13, offset: 89395},
+													pos: position{line: 2829, col: 13, offset: 89554},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2822, col: 13, offset: 89395},
+															pos: position{line: 2829, col: 13, offset: 89554},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2825, col: 13, offset: 89495},
+															pos:        position{line: 2832, col: 13, offset: 89654},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45632,20 +45836,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2825, col: 19, offset: 89501},
+													pos:        position{line: 2832, col: 19, offset: 89660},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2828, col: 13, offset: 89539},
+													pos: position{line: 2835, col: 13, offset: 89698},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2828, col: 13, offset: 89539},
+															pos: position{line: 2835, col: 13, offset: 89698},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2831, col: 14, offset: 89632},
+															pos:        position{line: 2838, col: 14, offset: 89791},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -45654,18 +45858,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2833, col: 12, offset: 89676},
+													pos: position{line: 2840, col: 12, offset: 89835},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2833, col: 12, offset: 89676},
+															pos:        position{line: 2840, col: 12, offset: 89835},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2833, col: 16, offset: 89680},
+															pos: position{line: 2840, col: 16, offset: 89839},
 															expr: &litMatcher{
-																pos:        position{line: 2833, col: 17, offset: 89681},
+																pos:        position{line: 2840, col: 17, offset: 89840},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45752,25 +45956,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2911, col: 12, offset: 91804},
+										pos: position{line: 2918, col: 12, offset: 91963},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2911, col: 13, offset: 91805},
+											pos: position{line: 2918, col: 13, offset: 91964},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2911, col: 13, offset: 91805},
+													pos:        position{line: 2918, col: 13, offset: 91964},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2911, col: 20, offset: 91812},
+													pos:        position{line: 2918, col: 20, offset: 91971},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2911, col: 29, offset: 91821},
+													pos:        position{line: 2918, col: 29, offset: 91980},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45779,10 +45983,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2841, col: 12, offset: 89941},
+										pos: position{line: 2848, col: 12, offset: 90100},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2841, col: 12, offset: 89941},
+											pos:        position{line: 2848, col: 12, offset: 90100},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45859,12 +46063,12 @@ var g = &grammar{
 													pos:   position{line: 1254, col: 14, offset: 38838},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2887, col: 7, offset: 91285},
+														pos: position{line: 2894, col: 7, offset: 91444},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2887, col: 7, offset: 91285},
+															pos: position{line: 2894, col: 7, offset: 91444},
 															expr: &charClassMatcher{
-																pos:        position{line: 2887, col: 7, offset: 91285},
+																pos:        position{line: 2894, col: 7, offset: 91444},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45898,12 +46102,12 @@ var g = &grammar{
 													pos:   position{line: 1259, col: 10, offset: 38970},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2887, col: 7, offset: 91285},
+														pos: position{line: 2894, col: 7, offset: 91444},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2887, col: 7, offset: 91285},
+															pos: position{line: 2894, col: 7, offset: 91444},
 															expr: &charClassMatcher{
-																pos:        position{line: 2887, col: 7, offset: 91285},
+																pos:        position{line: 2894, col: 7, offset: 91444},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45945,17 +46149,17 @@ var g = &grammar{
 																pos: position{line: 1305, col: 31, offset: 40792},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2792, col: 13, offset: 88728},
+																		pos:        position{line: 2799, col: 13, offset: 88887},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2902, col: 10, offset: 91633},
+																		pos: position{line: 2909, col: 10, offset: 91792},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2902, col: 10, offset: 91633},
+																			pos:        position{line: 2909, col: 10, offset: 91792},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -45981,10 +46185,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1299, col: 12, offset: 40506},
 																		expr: &actionExpr{
-																			pos: position{line: 2902, col: 10, offset: 91633},
+																			pos: position{line: 2909, col: 10, offset: 91792},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2902, col: 10, offset: 91633},
+																				pos:        position{line: 2909, col: 10, offset: 91792},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46001,10 +46205,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1299, col: 23, offset: 40517},
 																		expr: &actionExpr{
-																			pos: position{line: 2902, col: 10, offset: 91633},
+																			pos: position{line: 2909, col: 10, offset: 91792},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2902, col: 10, offset: 91633},
+																				pos:        position{line: 2909, col: 10, offset: 91792},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46024,17 +46228,17 @@ var g = &grammar{
 																					pos: position{line: 1305, col: 31, offset: 40792},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2792, col: 13, offset: 88728},
+																							pos:        position{line: 2799, col: 13, offset: 88887},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2902, col: 10, offset: 91633},
+																							pos: position{line: 2909, col: 10, offset: 91792},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2902, col: 10, offset: 91633},
+																								pos:        position{line: 2909, col: 10, offset: 91792},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46065,10 +46269,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1300, col: 12, offset: 40598},
 																		expr: &actionExpr{
-																			pos: position{line: 2902, col: 10, offset: 91633},
+																			pos: position{line: 2909, col: 10, offset: 91792},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2902, col: 10, offset: 91633},
+																				pos:        position{line: 2909, col: 10, offset: 91792},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46085,10 +46289,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1300, col: 23, offset: 40609},
 																		expr: &actionExpr{
-																			pos: position{line: 2902, col: 10, offset: 91633},
+																			pos: position{line: 2909, col: 10, offset: 91792},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2902, col: 10, offset: 91633},
+																				pos:        position{line: 2909, col: 10, offset: 91792},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46108,17 +46312,17 @@ var g = &grammar{
 																					pos: position{line: 1305, col: 31, offset: 40792},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2792, col: 13, offset: 88728},
+																							pos:        position{line: 2799, col: 13, offset: 88887},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2902, col: 10, offset: 91633},
+																							pos: position{line: 2909, col: 10, offset: 91792},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2902, col: 10, offset: 91633},
+																								pos:        position{line: 2909, col: 10, offset: 91792},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46235,10 +46439,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1391, col: 12, offset: 44623},
 																				expr: &actionExpr{
-																					pos: position{line: 2902, col: 10, offset: 91633},
+																					pos: position{line: 2909, col: 10, offset: 91792},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2902, col: 10, offset: 91633},
+																						pos:        position{line: 2909, col: 10, offset: 91792},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46249,25 +46453,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1391, col: 19, offset: 44630},
 																				expr: &actionExpr{
-																					pos: position{line: 2911, col: 12, offset: 91804},
+																					pos: position{line: 2918, col: 12, offset: 91963},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2911, col: 13, offset: 91805},
+																						pos: position{line: 2918, col: 13, offset: 91964},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 13, offset: 91805},
+																								pos:        position{line: 2918, col: 13, offset: 91964},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 20, offset: 91812},
+																								pos:        position{line: 2918, col: 20, offset: 91971},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2911, col: 29, offset: 91821},
+																								pos:        position{line: 2918, col: 29, offset: 91980},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46304,7 +46508,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1385, col: 121, offset: 44272},
 													expr: &charClassMatcher{
-														pos:        position{line: 2792, col: 13, offset: 88728},
+														pos:        position{line: 2799, col: 13, offset: 88887},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46350,10 +46554,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1377, col: 64, offset: 43732},
 																			expr: &actionExpr{
-																				pos: position{line: 2902, col: 10, offset: 91633},
+																				pos: position{line: 2909, col: 10, offset: 91792},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2902, col: 10, offset: 91633},
+																					pos:        position{line: 2909, col: 10, offset: 91792},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46364,25 +46568,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1377, col: 71, offset: 43739},
 																			expr: &actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
+																				pos: position{line: 2918, col: 12, offset: 91963},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46405,12 +46609,12 @@ var g = &grammar{
 																							pos: position{line: 1377, col: 86, offset: 43754},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2906, col: 11, offset: 91694},
+																									pos: position{line: 2913, col: 11, offset: 91853},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2906, col: 11, offset: 91694},
+																										pos: position{line: 2913, col: 11, offset: 91853},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2906, col: 11, offset: 91694},
+																											pos:        position{line: 2913, col: 11, offset: 91853},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46439,25 +46643,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1377, col: 151, offset: 43819},
 																						expr: &actionExpr{
-																							pos: position{line: 2911, col: 12, offset: 91804},
+																							pos: position{line: 2918, col: 12, offset: 91963},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2911, col: 13, offset: 91805},
+																								pos: position{line: 2918, col: 13, offset: 91964},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 13, offset: 91805},
+																										pos:        position{line: 2918, col: 13, offset: 91964},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 20, offset: 91812},
+																										pos:        position{line: 2918, col: 20, offset: 91971},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2911, col: 29, offset: 91821},
+																										pos:        position{line: 2918, col: 29, offset: 91980},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46484,10 +46688,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1379, col: 12, offset: 43979},
 																			expr: &actionExpr{
-																				pos: position{line: 2902, col: 10, offset: 91633},
+																				pos: position{line: 2909, col: 10, offset: 91792},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2902, col: 10, offset: 91633},
+																					pos:        position{line: 2909, col: 10, offset: 91792},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46498,25 +46702,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1379, col: 19, offset: 43986},
 																			expr: &actionExpr{
-																				pos: position{line: 2911, col: 12, offset: 91804},
+																				pos: position{line: 2918, col: 12, offset: 91963},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 13, offset: 91805},
+																					pos: position{line: 2918, col: 13, offset: 91964},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 13, offset: 91805},
+																							pos:        position{line: 2918, col: 13, offset: 91964},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 20, offset: 91812},
+																							pos:        position{line: 2918, col: 20, offset: 91971},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2911, col: 29, offset: 91821},
+																							pos:        position{line: 2918, col: 29, offset: 91980},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46552,7 +46756,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1373, col: 121, offset: 43555},
 													expr: &charClassMatcher{
-														pos:        position{line: 2792, col: 13, offset: 88728},
+														pos:        position{line: 2799, col: 13, offset: 88887},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46710,10 +46914,10 @@ var g = &grammar{
 														pos: position{line: 2602, col: 6, offset: 83358},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2902, col: 10, offset: 91633},
+																pos: position{line: 2909, col: 10, offset: 91792},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2902, col: 10, offset: 91633},
+																	pos:        position{line: 2909, col: 10, offset: 91792},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46723,28 +46927,28 @@ var g = &grammar{
 															&andExpr{
 																pos: position{line: 2602, col: 14, offset: 83366},
 																expr: &choiceExpr{
-																	pos: position{line: 2924, col: 8, offset: 92031},
+																	pos: position{line: 2931, col: 8, offset: 92190},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2911, col: 12, offset: 91804},
+																			pos: position{line: 2918, col: 12, offset: 91963},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2911, col: 13, offset: 91805},
+																				pos: position{line: 2918, col: 13, offset: 91964},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 13, offset: 91805},
+																						pos:        position{line: 2918, col: 13, offset: 91964},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 20, offset: 91812},
+																						pos:        position{line: 2918, col: 20, offset: 91971},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2911, col: 29, offset: 91821},
+																						pos:        position{line: 2918, col: 29, offset: 91980},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -46753,9 +46957,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2921, col: 8, offset: 91981},
+																			pos: position{line: 2928, col: 8, offset: 92140},
 																			expr: &anyMatcher{
-																				line: 2921, col: 9, offset: 91982,
+																				line: 2928, col: 9, offset: 92141,
 																			},
 																		},
 																	},
@@ -46788,32 +46992,32 @@ var g = &grammar{
 															pos: position{line: 2612, col: 7, offset: 83587},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2792, col: 13, offset: 88728},
+																	pos:        position{line: 2799, col: 13, offset: 88887},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2911, col: 12, offset: 91804},
+																	pos: position{line: 2918, col: 12, offset: 91963},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2911, col: 13, offset: 91805},
+																		pos: position{line: 2918, col: 13, offset: 91964},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2911, col: 13, offset: 91805},
+																				pos:        position{line: 2918, col: 13, offset: 91964},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2911, col: 20, offset: 91812},
+																				pos:        position{line: 2918, col: 20, offset: 91971},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2911, col: 29, offset: 91821},
+																				pos:        position{line: 2918, col: 29, offset: 91980},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -46822,9 +47026,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2921, col: 8, offset: 91981},
+																	pos: position{line: 2928, col: 8, offset: 92140},
 																	expr: &anyMatcher{
-																		line: 2921, col: 9, offset: 91982,
+																		line: 2928, col: 9, offset: 92141,
 																	},
 																},
 															},
@@ -46932,10 +47136,10 @@ var g = &grammar{
 									pos: position{line: 2602, col: 6, offset: 83358},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2902, col: 10, offset: 91633},
+											pos: position{line: 2909, col: 10, offset: 91792},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2902, col: 10, offset: 91633},
+												pos:        position{line: 2909, col: 10, offset: 91792},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46945,28 +47149,28 @@ var g = &grammar{
 										&andExpr{
 											pos: position{line: 2602, col: 14, offset: 83366},
 											expr: &choiceExpr{
-												pos: position{line: 2924, col: 8, offset: 92031},
+												pos: position{line: 2931, col: 8, offset: 92190},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2911, col: 12, offset: 91804},
+														pos: position{line: 2918, col: 12, offset: 91963},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2911, col: 13, offset: 91805},
+															pos: position{line: 2918, col: 13, offset: 91964},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2911, col: 13, offset: 91805},
+																	pos:        position{line: 2918, col: 13, offset: 91964},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2911, col: 20, offset: 91812},
+																	pos:        position{line: 2918, col: 20, offset: 91971},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2911, col: 29, offset: 91821},
+																	pos:        position{line: 2918, col: 29, offset: 91980},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -46975,9 +47179,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2921, col: 8, offset: 91981},
+														pos: position{line: 2928, col: 8, offset: 92140},
 														expr: &anyMatcher{
-															line: 2921, col: 9, offset: 91982,
+															line: 2928, col: 9, offset: 92141,
 														},
 													},
 												},
@@ -47010,32 +47214,32 @@ var g = &grammar{
 										pos: position{line: 2612, col: 7, offset: 83587},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2792, col: 13, offset: 88728},
+												pos:        position{line: 2799, col: 13, offset: 88887},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2911, col: 12, offset: 91804},
+												pos: position{line: 2918, col: 12, offset: 91963},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2911, col: 13, offset: 91805},
+													pos: position{line: 2918, col: 13, offset: 91964},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2911, col: 13, offset: 91805},
+															pos:        position{line: 2918, col: 13, offset: 91964},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2911, col: 20, offset: 91812},
+															pos:        position{line: 2918, col: 20, offset: 91971},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2911, col: 29, offset: 91821},
+															pos:        position{line: 2918, col: 29, offset: 91980},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47044,9 +47248,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2921, col: 8, offset: 91981},
+												pos: position{line: 2928, col: 8, offset: 92140},
 												expr: &anyMatcher{
-													line: 2921, col: 9, offset: 91982,
+													line: 2928, col: 9, offset: 92141,
 												},
 											},
 										},
@@ -47243,63 +47447,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2707, col: 1, offset: 85808},
+			pos:  position{line: 2714, col: 1, offset: 85967},
 			expr: &actionExpr{
-				pos: position{line: 2707, col: 26, offset: 85833},
+				pos: position{line: 2714, col: 26, offset: 85992},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2707, col: 26, offset: 85833},
+					pos: position{line: 2714, col: 26, offset: 85992},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2707, col: 26, offset: 85833},
+							pos:   position{line: 2714, col: 26, offset: 85992},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2707, col: 31, offset: 85838},
+								pos: position{line: 2714, col: 31, offset: 85997},
 								expr: &actionExpr{
-									pos: position{line: 2712, col: 5, offset: 85901},
+									pos: position{line: 2719, col: 5, offset: 86060},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2712, col: 5, offset: 85901},
+										pos: position{line: 2719, col: 5, offset: 86060},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2919, col: 11, offset: 91967},
+												pos: position{line: 2926, col: 11, offset: 92126},
 												expr: &anyMatcher{
-													line: 2919, col: 13, offset: 91969,
+													line: 2926, col: 13, offset: 92128,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2715, col: 5, offset: 86027},
+												pos:   position{line: 2722, col: 5, offset: 86186},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2715, col: 16, offset: 86038},
+													pos: position{line: 2722, col: 16, offset: 86197},
 													expr: &actionExpr{
-														pos: position{line: 2715, col: 17, offset: 86039},
+														pos: position{line: 2722, col: 17, offset: 86198},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2715, col: 17, offset: 86039},
+															pos: position{line: 2722, col: 17, offset: 86198},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2715, col: 17, offset: 86039},
+																	pos:   position{line: 2722, col: 17, offset: 86198},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2894, col: 12, offset: 91460},
+																		pos: position{line: 2901, col: 12, offset: 91619},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2894, col: 13, offset: 91461},
+																			pos: position{line: 2901, col: 13, offset: 91620},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2894, col: 13, offset: 91461},
+																					pos: position{line: 2901, col: 13, offset: 91620},
 																					expr: &litMatcher{
-																						pos:        position{line: 2894, col: 13, offset: 91461},
+																						pos:        position{line: 2901, col: 13, offset: 91620},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2894, col: 18, offset: 91466},
+																					pos: position{line: 2901, col: 18, offset: 91625},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2894, col: 18, offset: 91466},
+																						pos:        position{line: 2901, col: 18, offset: 91625},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47311,7 +47515,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2715, col: 27, offset: 86049},
+																	pos:        position{line: 2722, col: 27, offset: 86208},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47322,38 +47526,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2716, col: 5, offset: 86077},
+												pos:   position{line: 2723, col: 5, offset: 86236},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2716, col: 12, offset: 86084},
+													pos: position{line: 2723, col: 12, offset: 86243},
 													expr: &choiceExpr{
-														pos: position{line: 2717, col: 9, offset: 86094},
+														pos: position{line: 2724, col: 9, offset: 86253},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2717, col: 9, offset: 86094},
+																pos: position{line: 2724, col: 9, offset: 86253},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2717, col: 9, offset: 86094},
+																	pos:        position{line: 2724, col: 9, offset: 86253},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2718, col: 11, offset: 86141},
+																pos: position{line: 2725, col: 11, offset: 86300},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2718, col: 11, offset: 86141},
+																	pos:        position{line: 2725, col: 11, offset: 86300},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2719, col: 11, offset: 86189},
+																pos: position{line: 2726, col: 11, offset: 86348},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2719, col: 11, offset: 86189},
+																	pos:        position{line: 2726, col: 11, offset: 86348},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47364,38 +47568,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2721, col: 5, offset: 86239},
+												pos:   position{line: 2728, col: 5, offset: 86398},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2721, col: 12, offset: 86246},
+													pos: position{line: 2728, col: 12, offset: 86405},
 													expr: &choiceExpr{
-														pos: position{line: 2722, col: 9, offset: 86256},
+														pos: position{line: 2729, col: 9, offset: 86415},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2722, col: 9, offset: 86256},
+																pos: position{line: 2729, col: 9, offset: 86415},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2722, col: 9, offset: 86256},
+																	pos:        position{line: 2729, col: 9, offset: 86415},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2723, col: 11, offset: 86303},
+																pos: position{line: 2730, col: 11, offset: 86462},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2723, col: 11, offset: 86303},
+																	pos:        position{line: 2730, col: 11, offset: 86462},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2724, col: 11, offset: 86353},
+																pos: position{line: 2731, col: 11, offset: 86512},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2724, col: 11, offset: 86353},
+																	pos:        position{line: 2731, col: 11, offset: 86512},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47406,32 +47610,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2726, col: 5, offset: 86404},
+												pos:   position{line: 2733, col: 5, offset: 86563},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2726, col: 12, offset: 86411},
+													pos: position{line: 2733, col: 12, offset: 86570},
 													expr: &choiceExpr{
-														pos: position{line: 2726, col: 13, offset: 86412},
+														pos: position{line: 2733, col: 13, offset: 86571},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2894, col: 12, offset: 91460},
+																pos: position{line: 2901, col: 12, offset: 91619},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2894, col: 13, offset: 91461},
+																	pos: position{line: 2901, col: 13, offset: 91620},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2894, col: 13, offset: 91461},
+																			pos: position{line: 2901, col: 13, offset: 91620},
 																			expr: &litMatcher{
-																				pos:        position{line: 2894, col: 13, offset: 91461},
+																				pos:        position{line: 2901, col: 13, offset: 91620},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2894, col: 18, offset: 91466},
+																			pos: position{line: 2901, col: 18, offset: 91625},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2894, col: 18, offset: 91466},
+																				pos:        position{line: 2901, col: 18, offset: 91625},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47442,10 +47646,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2726, col: 24, offset: 86423},
+																pos: position{line: 2733, col: 24, offset: 86582},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2726, col: 24, offset: 86423},
+																	pos:        position{line: 2733, col: 24, offset: 86582},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47456,15 +47660,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2727, col: 5, offset: 86465},
+												pos:   position{line: 2734, col: 5, offset: 86624},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2727, col: 11, offset: 86471},
+													pos: position{line: 2734, col: 11, offset: 86630},
 													expr: &actionExpr{
-														pos: position{line: 2727, col: 12, offset: 86472},
+														pos: position{line: 2734, col: 12, offset: 86631},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2727, col: 12, offset: 86472},
+															pos:        position{line: 2734, col: 12, offset: 86631},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47474,12 +47678,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2729, col: 5, offset: 86602},
+												pos:   position{line: 2736, col: 5, offset: 86761},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2729, col: 11, offset: 86608},
+													pos: position{line: 2736, col: 11, offset: 86767},
 													expr: &litMatcher{
-														pos:        position{line: 2729, col: 12, offset: 86609},
+														pos:        position{line: 2736, col: 12, offset: 86768},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47487,7 +47691,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2730, col: 5, offset: 86619},
+												pos: position{line: 2737, col: 5, offset: 86778},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47496,9 +47700,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2921, col: 8, offset: 91981},
+							pos: position{line: 2928, col: 8, offset: 92140},
 							expr: &anyMatcher{
-								line: 2921, col: 9, offset: 91982,
+								line: 2928, col: 9, offset: 92141,
 							},
 						},
 					},
@@ -47507,23 +47711,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2757, col: 1, offset: 87628},
+			pos:  position{line: 2764, col: 1, offset: 87787},
 			expr: &actionExpr{
-				pos: position{line: 2758, col: 5, offset: 87651},
+				pos: position{line: 2765, col: 5, offset: 87810},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2758, col: 5, offset: 87651},
+					pos: position{line: 2765, col: 5, offset: 87810},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2758, col: 5, offset: 87651},
+							pos:   position{line: 2765, col: 5, offset: 87810},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2781, col: 18, offset: 88392},
+								pos: position{line: 2788, col: 18, offset: 88551},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2781, col: 19, offset: 88393},
+									pos: position{line: 2788, col: 19, offset: 88552},
 									expr: &charClassMatcher{
-										pos:        position{line: 2781, col: 19, offset: 88393},
+										pos:        position{line: 2788, col: 19, offset: 88552},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47534,25 +47738,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2759, col: 5, offset: 87677},
+							pos: position{line: 2766, col: 5, offset: 87836},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2763, col: 5, offset: 87805},
+							pos:        position{line: 2770, col: 5, offset: 87964},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2764, col: 5, offset: 87815},
+							pos:   position{line: 2771, col: 5, offset: 87974},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2785, col: 19, offset: 88468},
+								pos: position{line: 2792, col: 19, offset: 88627},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2785, col: 19, offset: 88468},
+									pos: position{line: 2792, col: 19, offset: 88627},
 									expr: &charClassMatcher{
-										pos:        position{line: 2785, col: 19, offset: 88468},
+										pos:        position{line: 2792, col: 19, offset: 88627},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47562,36 +47766,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2765, col: 5, offset: 87843},
+							pos:   position{line: 2772, col: 5, offset: 88002},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2765, col: 17, offset: 87855},
+								pos:  position{line: 2772, col: 17, offset: 88014},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2924, col: 8, offset: 92031},
+							pos: position{line: 2931, col: 8, offset: 92190},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2911, col: 12, offset: 91804},
+									pos: position{line: 2918, col: 12, offset: 91963},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2911, col: 13, offset: 91805},
+										pos: position{line: 2918, col: 13, offset: 91964},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2911, col: 13, offset: 91805},
+												pos:        position{line: 2918, col: 13, offset: 91964},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2911, col: 20, offset: 91812},
+												pos:        position{line: 2918, col: 20, offset: 91971},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2911, col: 29, offset: 91821},
+												pos:        position{line: 2918, col: 29, offset: 91980},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -47600,9 +47804,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2921, col: 8, offset: 91981},
+									pos: position{line: 2928, col: 8, offset: 92140},
 									expr: &anyMatcher{
-										line: 2921, col: 9, offset: 91982,
+										line: 2928, col: 9, offset: 92141,
 									},
 								},
 							},
@@ -47613,23 +47817,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2769, col: 1, offset: 88003},
+			pos:  position{line: 2776, col: 1, offset: 88162},
 			expr: &actionExpr{
-				pos: position{line: 2770, col: 5, offset: 88027},
+				pos: position{line: 2777, col: 5, offset: 88186},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2770, col: 5, offset: 88027},
+					pos: position{line: 2777, col: 5, offset: 88186},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2770, col: 5, offset: 88027},
+							pos:   position{line: 2777, col: 5, offset: 88186},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2781, col: 18, offset: 88392},
+								pos: position{line: 2788, col: 18, offset: 88551},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2781, col: 19, offset: 88393},
+									pos: position{line: 2788, col: 19, offset: 88552},
 									expr: &charClassMatcher{
-										pos:        position{line: 2781, col: 19, offset: 88393},
+										pos:        position{line: 2788, col: 19, offset: 88552},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47640,25 +47844,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2771, col: 5, offset: 88053},
+							pos: position{line: 2778, col: 5, offset: 88212},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2775, col: 5, offset: 88181},
+							pos:        position{line: 2782, col: 5, offset: 88340},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2776, col: 5, offset: 88190},
+							pos:   position{line: 2783, col: 5, offset: 88349},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2785, col: 19, offset: 88468},
+								pos: position{line: 2792, col: 19, offset: 88627},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2785, col: 19, offset: 88468},
+									pos: position{line: 2792, col: 19, offset: 88627},
 									expr: &charClassMatcher{
-										pos:        position{line: 2785, col: 19, offset: 88468},
+										pos:        position{line: 2792, col: 19, offset: 88627},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47668,10 +47872,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2777, col: 5, offset: 88218},
+							pos:   position{line: 2784, col: 5, offset: 88377},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2777, col: 17, offset: 88230},
+								pos:  position{line: 2784, col: 17, offset: 88389},
 								name: "InlineAttributes",
 							},
 						},
@@ -47681,43 +47885,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2856, col: 1, offset: 90280},
+			pos:  position{line: 2863, col: 1, offset: 90439},
 			expr: &actionExpr{
-				pos: position{line: 2856, col: 17, offset: 90296},
+				pos: position{line: 2863, col: 17, offset: 90455},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2856, col: 17, offset: 90296},
+					pos:   position{line: 2863, col: 17, offset: 90455},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2873, col: 5, offset: 90750},
+						pos: position{line: 2880, col: 5, offset: 90909},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2873, col: 5, offset: 90750},
+							pos:   position{line: 2880, col: 5, offset: 90909},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2873, col: 14, offset: 90759},
+								pos: position{line: 2880, col: 14, offset: 90918},
 								expr: &choiceExpr{
-									pos: position{line: 2874, col: 9, offset: 90769},
+									pos: position{line: 2881, col: 9, offset: 90928},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2874, col: 9, offset: 90769},
+											pos: position{line: 2881, col: 9, offset: 90928},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2874, col: 9, offset: 90769},
+												pos: position{line: 2881, col: 9, offset: 90928},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2874, col: 9, offset: 90769},
+														pos: position{line: 2881, col: 9, offset: 90928},
 														expr: &litMatcher{
-															pos:        position{line: 2874, col: 10, offset: 90770},
+															pos:        position{line: 2881, col: 10, offset: 90929},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2875, col: 9, offset: 90798},
+														pos: position{line: 2882, col: 9, offset: 90957},
 														expr: &charClassMatcher{
-															pos:        position{line: 2875, col: 10, offset: 90799},
+															pos:        position{line: 2882, col: 10, offset: 90958},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -47728,27 +47932,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2878, col: 11, offset: 91011},
+											pos: position{line: 2885, col: 11, offset: 91170},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2878, col: 11, offset: 91011},
+													pos:        position{line: 2885, col: 11, offset: 91170},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2878, col: 19, offset: 91019},
+													pos: position{line: 2885, col: 19, offset: 91178},
 													expr: &seqExpr{
-														pos: position{line: 2878, col: 21, offset: 91021},
+														pos: position{line: 2885, col: 21, offset: 91180},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2878, col: 21, offset: 91021},
+																pos: position{line: 2885, col: 21, offset: 91180},
 																expr: &actionExpr{
-																	pos: position{line: 2902, col: 10, offset: 91633},
+																	pos: position{line: 2909, col: 10, offset: 91792},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2902, col: 10, offset: 91633},
+																		pos:        position{line: 2909, col: 10, offset: 91792},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -47757,11 +47961,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2878, col: 28, offset: 91028},
+																pos: position{line: 2885, col: 28, offset: 91187},
 																expr: &notExpr{
-																	pos: position{line: 2921, col: 8, offset: 91981},
+																	pos: position{line: 2928, col: 8, offset: 92140},
 																	expr: &anyMatcher{
-																		line: 2921, col: 9, offset: 91982,
+																		line: 2928, col: 9, offset: 92141,
 																	},
 																},
 															},
@@ -48156,10 +48360,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2881, col: 11, offset: 91148},
+											pos: position{line: 2888, col: 11, offset: 91307},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2881, col: 11, offset: 91148},
+												pos:        position{line: 2888, col: 11, offset: 91307},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -53171,104 +53375,160 @@ func (p *parser) callonDocumentFragment1251() (interface{}, error) {
 	return p.cur.onDocumentFragment1251()
 }
 
-func (c *current) onDocumentFragment1265() (interface{}, error) {
+func (c *current) onDocumentFragment1261() (bool, error) {
+	return c.isAtBeginningOfLine(), nil
+
+}
+
+func (p *parser) callonDocumentFragment1261() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1261()
+}
+
+func (c *current) onDocumentFragment1269() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1265() (interface{}, error) {
+func (p *parser) callonDocumentFragment1269() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1265()
+	return p.cur.onDocumentFragment1269()
 }
 
-func (c *current) onDocumentFragment1268() (interface{}, error) {
+func (c *current) onDocumentFragment1273() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1268() (interface{}, error) {
+func (p *parser) callonDocumentFragment1273() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1273()
+}
+
+func (c *current) onDocumentFragment1263(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
+
+}
+
+func (p *parser) callonDocumentFragment1263() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1268()
+	return p.cur.onDocumentFragment1263(stack["content"])
 }
 
-func (c *current) onDocumentFragment1283() (interface{}, error) {
+func (c *current) onDocumentFragment1259(comment interface{}) (interface{}, error) {
+	return comment, nil
+
+}
+
+func (p *parser) callonDocumentFragment1259() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1259(stack["comment"])
+}
+
+func (c *current) onDocumentFragment1287() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1283() (interface{}, error) {
+func (p *parser) callonDocumentFragment1287() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1283()
+	return p.cur.onDocumentFragment1287()
 }
 
-func (c *current) onDocumentFragment1286() (interface{}, error) {
+func (c *current) onDocumentFragment1290() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1286() (interface{}, error) {
+func (p *parser) callonDocumentFragment1290() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1286()
+	return p.cur.onDocumentFragment1290()
+}
+
+func (c *current) onDocumentFragment1305() (interface{}, error) {
+
+	return string(c.text), nil
+
 }
 
-func (c *current) onDocumentFragment1278() (interface{}, error) {
+func (p *parser) callonDocumentFragment1305() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1305()
+}
+
+func (c *current) onDocumentFragment1308() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment1308() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1308()
+}
+
+func (c *current) onDocumentFragment1300() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1278() (interface{}, error) {
+func (p *parser) callonDocumentFragment1300() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1278()
+	return p.cur.onDocumentFragment1300()
 }
 
-func (c *current) onDocumentFragment1297() (interface{}, error) {
+func (c *current) onDocumentFragment1319() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1297() (interface{}, error) {
+func (p *parser) callonDocumentFragment1319() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1297()
+	return p.cur.onDocumentFragment1319()
 }
 
-func (c *current) onDocumentFragment1302() (interface{}, error) {
+func (c *current) onDocumentFragment1324() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1302() (interface{}, error) {
+func (p *parser) callonDocumentFragment1324() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1302()
+	return p.cur.onDocumentFragment1324()
 }
 
-func (c *current) onDocumentFragment1307() (interface{}, error) {
+func (c *current) onDocumentFragment1329() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1307() (interface{}, error) {
+func (p *parser) callonDocumentFragment1329() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1307()
+	return p.cur.onDocumentFragment1329()
 }
 
-func (c *current) onDocumentFragment1258(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1280(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1258() (interface{}, error) {
+func (p *parser) callonDocumentFragment1280() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1258(stack["content"])
+	return p.cur.onDocumentFragment1280(stack["content"])
 }
 
 func (c *current) onDocumentFragment1206(format, content interface{}) (interface{}, error) {
@@ -53303,38 +53563,38 @@ func (p *parser) callonDocumentFragment1176() (interface{}, error) {
 	return p.cur.onDocumentFragment1176(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1319() (interface{}, error) {
+func (c *current) onDocumentFragment1341() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1319() (interface{}, error) {
+func (p *parser) callonDocumentFragment1341() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1319()
+	return p.cur.onDocumentFragment1341()
 }
 
-func (c *current) onDocumentFragment1322() (interface{}, error) {
+func (c *current) onDocumentFragment1344() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1322() (interface{}, error) {
+func (p *parser) callonDocumentFragment1344() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1322()
+	return p.cur.onDocumentFragment1344()
 }
 
-func (c *current) onDocumentFragment1314() (interface{}, error) {
+func (c *current) onDocumentFragment1336() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1314() (interface{}, error) {
+func (p *parser) callonDocumentFragment1336() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1314()
+	return p.cur.onDocumentFragment1336()
 }
 
 func (c *current) onDocumentFragment1155(content interface{}) (interface{}, error) {
@@ -53348,27 +53608,27 @@ func (p *parser) callonDocumentFragment1155() (interface{}, error) {
 	return p.cur.onDocumentFragment1155(stack["content"])
 }
 
-func (c *current) onDocumentFragment1333() (interface{}, error) {
+func (c *current) onDocumentFragment1355() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1333() (interface{}, error) {
+func (p *parser) callonDocumentFragment1355() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1333()
+	return p.cur.onDocumentFragment1355()
 }
 
-func (c *current) onDocumentFragment1336() (interface{}, error) {
+func (c *current) onDocumentFragment1358() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1336() (interface{}, error) {
+func (p *parser) callonDocumentFragment1358() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1336()
+	return p.cur.onDocumentFragment1358()
 }
 
 func (c *current) onDocumentFragment1106(lines interface{}) (interface{}, error) {
@@ -53382,161 +53642,161 @@ func (p *parser) callonDocumentFragment1106() (interface{}, error) {
 	return p.cur.onDocumentFragment1106(stack["lines"])
 }
 
-func (c *current) onDocumentFragment1351() (interface{}, error) {
+func (c *current) onDocumentFragment1373() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1351() (interface{}, error) {
+func (p *parser) callonDocumentFragment1373() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1351()
+	return p.cur.onDocumentFragment1373()
 }
 
-func (c *current) onDocumentFragment1355() (interface{}, error) {
+func (c *current) onDocumentFragment1377() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1355() (interface{}, error) {
+func (p *parser) callonDocumentFragment1377() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1355()
+	return p.cur.onDocumentFragment1377()
 }
 
-func (c *current) onDocumentFragment1345(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1367(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1345() (interface{}, error) {
+func (p *parser) callonDocumentFragment1367() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1345(stack["content"])
+	return p.cur.onDocumentFragment1367(stack["content"])
 }
 
-func (c *current) onDocumentFragment1364() (bool, error) {
+func (c *current) onDocumentFragment1386() (bool, error) {
 	return c.isFrontMatterAllowed(), nil
 
 }
 
-func (p *parser) callonDocumentFragment1364() (bool, error) {
+func (p *parser) callonDocumentFragment1386() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1364()
+	return p.cur.onDocumentFragment1386()
 }
 
-func (c *current) onDocumentFragment1370() (interface{}, error) {
+func (c *current) onDocumentFragment1392() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1370() (interface{}, error) {
+func (p *parser) callonDocumentFragment1392() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1370()
+	return p.cur.onDocumentFragment1392()
 }
 
-func (c *current) onDocumentFragment1373() (interface{}, error) {
+func (c *current) onDocumentFragment1395() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1373() (interface{}, error) {
+func (p *parser) callonDocumentFragment1395() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1373()
+	return p.cur.onDocumentFragment1395()
 }
 
-func (c *current) onDocumentFragment1390() (interface{}, error) {
+func (c *current) onDocumentFragment1412() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1390() (interface{}, error) {
+func (p *parser) callonDocumentFragment1412() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1390()
+	return p.cur.onDocumentFragment1412()
 }
 
-func (c *current) onDocumentFragment1393() (interface{}, error) {
+func (c *current) onDocumentFragment1415() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1393() (interface{}, error) {
+func (p *parser) callonDocumentFragment1415() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1393()
+	return p.cur.onDocumentFragment1415()
 }
 
-func (c *current) onDocumentFragment1382() (interface{}, error) {
+func (c *current) onDocumentFragment1404() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1382() (interface{}, error) {
+func (p *parser) callonDocumentFragment1404() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1382()
+	return p.cur.onDocumentFragment1404()
 }
 
-func (c *current) onDocumentFragment1403() (interface{}, error) {
+func (c *current) onDocumentFragment1425() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1403() (interface{}, error) {
+func (p *parser) callonDocumentFragment1425() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1403()
+	return p.cur.onDocumentFragment1425()
 }
 
-func (c *current) onDocumentFragment1406() (interface{}, error) {
+func (c *current) onDocumentFragment1428() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1406() (interface{}, error) {
+func (p *parser) callonDocumentFragment1428() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1406()
+	return p.cur.onDocumentFragment1428()
 }
 
-func (c *current) onDocumentFragment1366(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1388(content interface{}) (interface{}, error) {
 	return types.NewYamlFrontMatter(content.(string))
 }
 
-func (p *parser) callonDocumentFragment1366() (interface{}, error) {
+func (p *parser) callonDocumentFragment1388() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1366(stack["content"])
+	return p.cur.onDocumentFragment1388(stack["content"])
 }
 
-func (c *current) onDocumentFragment1362(frontmatter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1384(frontmatter interface{}) (interface{}, error) {
 	return frontmatter, nil
 
 }
 
-func (p *parser) callonDocumentFragment1362() (interface{}, error) {
+func (p *parser) callonDocumentFragment1384() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1362(stack["frontmatter"])
+	return p.cur.onDocumentFragment1384(stack["frontmatter"])
 }
 
-func (c *current) onDocumentFragment1414(attributes, element interface{}) (bool, error) {
+func (c *current) onDocumentFragment1436(attributes, element interface{}) (bool, error) {
 	// there must be at least `attributes` or `element`
 	return attributes != nil || element != nil, nil
 
 }
 
-func (p *parser) callonDocumentFragment1414() (bool, error) {
+func (p *parser) callonDocumentFragment1436() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1414(stack["attributes"], stack["element"])
+	return p.cur.onDocumentFragment1436(stack["attributes"], stack["element"])
 }
 
 func (c *current) onDocumentFragment1(attributes, element interface{}) (interface{}, error) {
@@ -67167,104 +67427,160 @@ func (p *parser) callonListContinuationElement1466() (interface{}, error) {
 	return p.cur.onListContinuationElement1466()
 }
 
-func (c *current) onListContinuationElement1480() (interface{}, error) {
+func (c *current) onListContinuationElement1476() (bool, error) {
+	return c.isAtBeginningOfLine(), nil
+
+}
+
+func (p *parser) callonListContinuationElement1476() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1476()
+}
+
+func (c *current) onListContinuationElement1484() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1480() (interface{}, error) {
+func (p *parser) callonListContinuationElement1484() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1480()
+	return p.cur.onListContinuationElement1484()
 }
 
-func (c *current) onListContinuationElement1483() (interface{}, error) {
+func (c *current) onListContinuationElement1488() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1483() (interface{}, error) {
+func (p *parser) callonListContinuationElement1488() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1483()
+	return p.cur.onListContinuationElement1488()
 }
 
-func (c *current) onListContinuationElement1498() (interface{}, error) {
+func (c *current) onListContinuationElement1478(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
+
+}
+
+func (p *parser) callonListContinuationElement1478() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1478(stack["content"])
+}
+
+func (c *current) onListContinuationElement1474(comment interface{}) (interface{}, error) {
+	return comment, nil
+
+}
+
+func (p *parser) callonListContinuationElement1474() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1474(stack["comment"])
+}
+
+func (c *current) onListContinuationElement1502() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1498() (interface{}, error) {
+func (p *parser) callonListContinuationElement1502() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1498()
+	return p.cur.onListContinuationElement1502()
 }
 
-func (c *current) onListContinuationElement1501() (interface{}, error) {
+func (c *current) onListContinuationElement1505() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1501() (interface{}, error) {
+func (p *parser) callonListContinuationElement1505() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1501()
+	return p.cur.onListContinuationElement1505()
 }
 
-func (c *current) onListContinuationElement1493() (interface{}, error) {
+func (c *current) onListContinuationElement1520() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1520() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1520()
+}
+
+func (c *current) onListContinuationElement1523() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1523() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1523()
+}
+
+func (c *current) onListContinuationElement1515() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1493() (interface{}, error) {
+func (p *parser) callonListContinuationElement1515() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1493()
+	return p.cur.onListContinuationElement1515()
 }
 
-func (c *current) onListContinuationElement1512() (interface{}, error) {
+func (c *current) onListContinuationElement1534() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1512() (interface{}, error) {
+func (p *parser) callonListContinuationElement1534() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1512()
+	return p.cur.onListContinuationElement1534()
 }
 
-func (c *current) onListContinuationElement1517() (interface{}, error) {
+func (c *current) onListContinuationElement1539() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1517() (interface{}, error) {
+func (p *parser) callonListContinuationElement1539() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1517()
+	return p.cur.onListContinuationElement1539()
 }
 
-func (c *current) onListContinuationElement1522() (interface{}, error) {
+func (c *current) onListContinuationElement1544() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1522() (interface{}, error) {
+func (p *parser) callonListContinuationElement1544() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1522()
+	return p.cur.onListContinuationElement1544()
 }
 
-func (c *current) onListContinuationElement1473(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1495(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1473() (interface{}, error) {
+func (p *parser) callonListContinuationElement1495() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1473(stack["content"])
+	return p.cur.onListContinuationElement1495(stack["content"])
 }
 
 func (c *current) onListContinuationElement1421(format, content interface{}) (interface{}, error) {
@@ -67299,38 +67615,38 @@ func (p *parser) callonListContinuationElement1391() (interface{}, error) {
 	return p.cur.onListContinuationElement1391(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1534() (interface{}, error) {
+func (c *current) onListContinuationElement1556() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1534() (interface{}, error) {
+func (p *parser) callonListContinuationElement1556() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1534()
+	return p.cur.onListContinuationElement1556()
 }
 
-func (c *current) onListContinuationElement1537() (interface{}, error) {
+func (c *current) onListContinuationElement1559() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1537() (interface{}, error) {
+func (p *parser) callonListContinuationElement1559() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1537()
+	return p.cur.onListContinuationElement1559()
 }
 
-func (c *current) onListContinuationElement1529() (interface{}, error) {
+func (c *current) onListContinuationElement1551() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1529() (interface{}, error) {
+func (p *parser) callonListContinuationElement1551() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1529()
+	return p.cur.onListContinuationElement1551()
 }
 
 func (c *current) onListContinuationElement1370(content interface{}) (interface{}, error) {
@@ -67344,27 +67660,27 @@ func (p *parser) callonListContinuationElement1370() (interface{}, error) {
 	return p.cur.onListContinuationElement1370(stack["content"])
 }
 
-func (c *current) onListContinuationElement1548() (interface{}, error) {
+func (c *current) onListContinuationElement1570() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1548() (interface{}, error) {
+func (p *parser) callonListContinuationElement1570() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1548()
+	return p.cur.onListContinuationElement1570()
 }
 
-func (c *current) onListContinuationElement1551() (interface{}, error) {
+func (c *current) onListContinuationElement1573() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1551() (interface{}, error) {
+func (p *parser) callonListContinuationElement1573() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1551()
+	return p.cur.onListContinuationElement1573()
 }
 
 func (c *current) onListContinuationElement1321(lines interface{}) (interface{}, error) {
@@ -67378,237 +67694,237 @@ func (p *parser) callonListContinuationElement1321() (interface{}, error) {
 	return p.cur.onListContinuationElement1321(stack["lines"])
 }
 
-func (c *current) onListContinuationElement1566() (interface{}, error) {
+func (c *current) onListContinuationElement1588() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1566() (interface{}, error) {
+func (p *parser) callonListContinuationElement1588() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1566()
+	return p.cur.onListContinuationElement1588()
 }
 
-func (c *current) onListContinuationElement1570() (interface{}, error) {
+func (c *current) onListContinuationElement1592() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1570() (interface{}, error) {
+func (p *parser) callonListContinuationElement1592() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1570()
+	return p.cur.onListContinuationElement1592()
 }
 
-func (c *current) onListContinuationElement1560(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1582(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1560() (interface{}, error) {
+func (p *parser) callonListContinuationElement1582() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1560(stack["content"])
+	return p.cur.onListContinuationElement1582(stack["content"])
 }
 
-func (c *current) onListContinuationElement1583() (bool, error) {
+func (c *current) onListContinuationElement1605() (bool, error) {
 	return !c.isWithinLiteralParagraph(), nil
 
 }
 
-func (p *parser) callonListContinuationElement1583() (bool, error) {
+func (p *parser) callonListContinuationElement1605() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1583()
+	return p.cur.onListContinuationElement1605()
 }
 
-func (c *current) onListContinuationElement1586() (interface{}, error) {
+func (c *current) onListContinuationElement1608() (interface{}, error) {
 	return types.Tip, nil
 
 }
 
-func (p *parser) callonListContinuationElement1586() (interface{}, error) {
+func (p *parser) callonListContinuationElement1608() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1586()
+	return p.cur.onListContinuationElement1608()
 }
 
-func (c *current) onListContinuationElement1588() (interface{}, error) {
+func (c *current) onListContinuationElement1610() (interface{}, error) {
 	return types.Note, nil
 
 }
 
-func (p *parser) callonListContinuationElement1588() (interface{}, error) {
+func (p *parser) callonListContinuationElement1610() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1588()
+	return p.cur.onListContinuationElement1610()
 }
 
-func (c *current) onListContinuationElement1590() (interface{}, error) {
+func (c *current) onListContinuationElement1612() (interface{}, error) {
 	return types.Important, nil
 
 }
 
-func (p *parser) callonListContinuationElement1590() (interface{}, error) {
+func (p *parser) callonListContinuationElement1612() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1590()
+	return p.cur.onListContinuationElement1612()
 }
 
-func (c *current) onListContinuationElement1592() (interface{}, error) {
+func (c *current) onListContinuationElement1614() (interface{}, error) {
 	return types.Warning, nil
 
 }
 
-func (p *parser) callonListContinuationElement1592() (interface{}, error) {
+func (p *parser) callonListContinuationElement1614() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1592()
+	return p.cur.onListContinuationElement1614()
 }
 
-func (c *current) onListContinuationElement1594() (interface{}, error) {
+func (c *current) onListContinuationElement1616() (interface{}, error) {
 	return types.Caution, nil
 
 }
 
-func (p *parser) callonListContinuationElement1594() (interface{}, error) {
+func (p *parser) callonListContinuationElement1616() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1594()
+	return p.cur.onListContinuationElement1616()
 }
 
-func (c *current) onListContinuationElement1598() (interface{}, error) {
+func (c *current) onListContinuationElement1620() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1598() (interface{}, error) {
+func (p *parser) callonListContinuationElement1620() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1598()
+	return p.cur.onListContinuationElement1620()
 }
 
-func (c *current) onListContinuationElement1596() (interface{}, error) {
+func (c *current) onListContinuationElement1618() (interface{}, error) {
 	// check
 	return types.LiteralParagraph, nil
 
 }
 
-func (p *parser) callonListContinuationElement1596() (interface{}, error) {
+func (p *parser) callonListContinuationElement1618() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1596()
+	return p.cur.onListContinuationElement1618()
 }
 
-func (c *current) onListContinuationElement1581(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1603(style interface{}) (interface{}, error) {
 	return style, nil
 
 }
 
-func (p *parser) callonListContinuationElement1581() (interface{}, error) {
+func (p *parser) callonListContinuationElement1603() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1581(stack["style"])
+	return p.cur.onListContinuationElement1603(stack["style"])
 }
 
-func (c *current) onListContinuationElement1610() (interface{}, error) {
+func (c *current) onListContinuationElement1632() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1610() (interface{}, error) {
+func (p *parser) callonListContinuationElement1632() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1610()
+	return p.cur.onListContinuationElement1632()
 }
 
-func (c *current) onListContinuationElement1613() (interface{}, error) {
+func (c *current) onListContinuationElement1635() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1613() (interface{}, error) {
+func (p *parser) callonListContinuationElement1635() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1613()
+	return p.cur.onListContinuationElement1635()
 }
 
-func (c *current) onListContinuationElement1605() (interface{}, error) {
+func (c *current) onListContinuationElement1627() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1605() (interface{}, error) {
+func (p *parser) callonListContinuationElement1627() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1605()
+	return p.cur.onListContinuationElement1627()
 }
 
-func (c *current) onListContinuationElement1624() (interface{}, error) {
+func (c *current) onListContinuationElement1646() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1624() (interface{}, error) {
+func (p *parser) callonListContinuationElement1646() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1624()
+	return p.cur.onListContinuationElement1646()
 }
 
-func (c *current) onListContinuationElement1626() (interface{}, error) {
+func (c *current) onListContinuationElement1648() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1626() (interface{}, error) {
+func (p *parser) callonListContinuationElement1648() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1626()
+	return p.cur.onListContinuationElement1648()
 }
 
-func (c *current) onListContinuationElement1635() (interface{}, error) {
+func (c *current) onListContinuationElement1657() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1635() (interface{}, error) {
+func (p *parser) callonListContinuationElement1657() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1635()
+	return p.cur.onListContinuationElement1657()
 }
 
-func (c *current) onListContinuationElement1642() (interface{}, error) {
+func (c *current) onListContinuationElement1664() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonListContinuationElement1642() (interface{}, error) {
+func (p *parser) callonListContinuationElement1664() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1642()
+	return p.cur.onListContinuationElement1664()
 }
 
-func (c *current) onListContinuationElement1645(depth interface{}) (bool, error) {
+func (c *current) onListContinuationElement1667(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1645() (bool, error) {
+func (p *parser) callonListContinuationElement1667() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1645(stack["depth"])
+	return p.cur.onListContinuationElement1667(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1639(depth interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1661(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -67624,756 +67940,756 @@ func (c *current) onListContinuationElement1639(depth interface{}) (interface{},
 
 }
 
-func (p *parser) callonListContinuationElement1639() (interface{}, error) {
+func (p *parser) callonListContinuationElement1661() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1639(stack["depth"])
+	return p.cur.onListContinuationElement1661(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1646() (interface{}, error) {
+func (c *current) onListContinuationElement1668() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonListContinuationElement1646() (interface{}, error) {
+func (p *parser) callonListContinuationElement1668() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1646()
+	return p.cur.onListContinuationElement1668()
 }
 
-func (c *current) onListContinuationElement1651() (interface{}, error) {
+func (c *current) onListContinuationElement1673() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1651() (interface{}, error) {
+func (p *parser) callonListContinuationElement1673() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1651()
+	return p.cur.onListContinuationElement1673()
 }
 
-func (c *current) onListContinuationElement1655() (interface{}, error) {
+func (c *current) onListContinuationElement1677() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1655() (interface{}, error) {
+func (p *parser) callonListContinuationElement1677() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1655()
+	return p.cur.onListContinuationElement1677()
 }
 
-func (c *current) onListContinuationElement1659() (interface{}, error) {
+func (c *current) onListContinuationElement1681() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1659() (interface{}, error) {
+func (p *parser) callonListContinuationElement1681() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1659()
+	return p.cur.onListContinuationElement1681()
 }
 
-func (c *current) onListContinuationElement1664() (interface{}, error) {
+func (c *current) onListContinuationElement1686() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1664() (interface{}, error) {
+func (p *parser) callonListContinuationElement1686() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1664()
+	return p.cur.onListContinuationElement1686()
 }
 
-func (c *current) onListContinuationElement1669(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1691(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1669() (interface{}, error) {
+func (p *parser) callonListContinuationElement1691() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1669(stack["prefix"])
+	return p.cur.onListContinuationElement1691(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1632(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1654(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonListContinuationElement1632() (interface{}, error) {
+func (p *parser) callonListContinuationElement1654() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1632(stack["prefix"])
+	return p.cur.onListContinuationElement1654(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1676() (interface{}, error) {
+func (c *current) onListContinuationElement1698() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1676() (interface{}, error) {
+func (p *parser) callonListContinuationElement1698() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1676()
+	return p.cur.onListContinuationElement1698()
 }
 
-func (c *current) onListContinuationElement1679() (interface{}, error) {
+func (c *current) onListContinuationElement1701() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1679() (interface{}, error) {
+func (p *parser) callonListContinuationElement1701() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1679()
+	return p.cur.onListContinuationElement1701()
 }
 
-func (c *current) onListContinuationElement1684(style interface{}) (bool, error) {
+func (c *current) onListContinuationElement1706(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1684() (bool, error) {
+func (p *parser) callonListContinuationElement1706() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1684(stack["style"])
+	return p.cur.onListContinuationElement1706(stack["style"])
 }
 
-func (c *current) onListContinuationElement1685(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1707(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1685() (interface{}, error) {
+func (p *parser) callonListContinuationElement1707() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1685(stack["style"])
+	return p.cur.onListContinuationElement1707(stack["style"])
 }
 
-func (c *current) onListContinuationElement1673(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1695(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1673() (interface{}, error) {
+func (p *parser) callonListContinuationElement1695() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1673(stack["style"])
+	return p.cur.onListContinuationElement1695(stack["style"])
 }
 
-func (c *current) onListContinuationElement1693() (interface{}, error) {
+func (c *current) onListContinuationElement1715() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1693() (interface{}, error) {
+func (p *parser) callonListContinuationElement1715() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1693()
+	return p.cur.onListContinuationElement1715()
 }
 
-func (c *current) onListContinuationElement1697(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1719(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1697() (interface{}, error) {
+func (p *parser) callonListContinuationElement1719() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1697(stack["ref"])
+	return p.cur.onListContinuationElement1719(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1689(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1711(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonListContinuationElement1689() (interface{}, error) {
+func (p *parser) callonListContinuationElement1711() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1689(stack["ref"])
+	return p.cur.onListContinuationElement1711(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1709() (interface{}, error) {
+func (c *current) onListContinuationElement1731() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1709() (interface{}, error) {
+func (p *parser) callonListContinuationElement1731() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1709()
+	return p.cur.onListContinuationElement1731()
 }
 
-func (c *current) onListContinuationElement1712(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1734(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1712() (bool, error) {
+func (p *parser) callonListContinuationElement1734() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1712(stack["separator"])
+	return p.cur.onListContinuationElement1734(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1706(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1728(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1706() (interface{}, error) {
+func (p *parser) callonListContinuationElement1728() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1706(stack["separator"])
+	return p.cur.onListContinuationElement1728(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1715() (interface{}, error) {
+func (c *current) onListContinuationElement1737() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1715() (interface{}, error) {
+func (p *parser) callonListContinuationElement1737() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1715()
+	return p.cur.onListContinuationElement1737()
 }
 
-func (c *current) onListContinuationElement1702() (interface{}, error) {
+func (c *current) onListContinuationElement1724() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonListContinuationElement1702() (interface{}, error) {
+func (p *parser) callonListContinuationElement1724() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1702()
+	return p.cur.onListContinuationElement1724()
 }
 
-func (c *current) onListContinuationElement1726() (interface{}, error) {
+func (c *current) onListContinuationElement1748() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1726() (interface{}, error) {
+func (p *parser) callonListContinuationElement1748() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1726()
+	return p.cur.onListContinuationElement1748()
 }
 
-func (c *current) onListContinuationElement1729(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1751(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1729() (bool, error) {
+func (p *parser) callonListContinuationElement1751() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1729(stack["separator"])
+	return p.cur.onListContinuationElement1751(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1723(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1745(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1723() (interface{}, error) {
+func (p *parser) callonListContinuationElement1745() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1723(stack["separator"])
+	return p.cur.onListContinuationElement1745(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1740() (interface{}, error) {
+func (c *current) onListContinuationElement1762() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1740() (interface{}, error) {
+func (p *parser) callonListContinuationElement1762() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1740()
+	return p.cur.onListContinuationElement1762()
 }
 
-func (c *current) onListContinuationElement1746() (interface{}, error) {
+func (c *current) onListContinuationElement1768() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1746() (interface{}, error) {
+func (p *parser) callonListContinuationElement1768() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1746()
+	return p.cur.onListContinuationElement1768()
 }
 
-func (c *current) onListContinuationElement1749() (interface{}, error) {
+func (c *current) onListContinuationElement1771() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1749() (interface{}, error) {
+func (p *parser) callonListContinuationElement1771() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1749()
+	return p.cur.onListContinuationElement1771()
 }
 
-func (c *current) onListContinuationElement1737(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1759(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1737() (interface{}, error) {
+func (p *parser) callonListContinuationElement1759() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1737(stack["delimiter"])
+	return p.cur.onListContinuationElement1759(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1759() (interface{}, error) {
+func (c *current) onListContinuationElement1781() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1759() (interface{}, error) {
+func (p *parser) callonListContinuationElement1781() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1759()
+	return p.cur.onListContinuationElement1781()
 }
 
-func (c *current) onListContinuationElement1765() (interface{}, error) {
+func (c *current) onListContinuationElement1787() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1765() (interface{}, error) {
+func (p *parser) callonListContinuationElement1787() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1765()
+	return p.cur.onListContinuationElement1787()
 }
 
-func (c *current) onListContinuationElement1768() (interface{}, error) {
+func (c *current) onListContinuationElement1790() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1768() (interface{}, error) {
+func (p *parser) callonListContinuationElement1790() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1768()
+	return p.cur.onListContinuationElement1790()
 }
 
-func (c *current) onListContinuationElement1756(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1778(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1756() (interface{}, error) {
+func (p *parser) callonListContinuationElement1778() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1756(stack["delimiter"])
+	return p.cur.onListContinuationElement1778(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1779() (interface{}, error) {
+func (c *current) onListContinuationElement1801() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1779() (interface{}, error) {
+func (p *parser) callonListContinuationElement1801() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1779()
+	return p.cur.onListContinuationElement1801()
 }
 
-func (c *current) onListContinuationElement1783() (interface{}, error) {
+func (c *current) onListContinuationElement1805() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1783() (interface{}, error) {
+func (p *parser) callonListContinuationElement1805() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1783()
+	return p.cur.onListContinuationElement1805()
 }
 
-func (c *current) onListContinuationElement1786() (interface{}, error) {
+func (c *current) onListContinuationElement1808() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1786() (interface{}, error) {
+func (p *parser) callonListContinuationElement1808() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1786()
+	return p.cur.onListContinuationElement1808()
 }
 
-func (c *current) onListContinuationElement1775(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1797(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1775() (interface{}, error) {
+func (p *parser) callonListContinuationElement1797() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1775(stack["language"])
+	return p.cur.onListContinuationElement1797(stack["language"])
 }
 
-func (c *current) onListContinuationElement1796() (interface{}, error) {
+func (c *current) onListContinuationElement1818() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1796() (interface{}, error) {
+func (p *parser) callonListContinuationElement1818() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1796()
+	return p.cur.onListContinuationElement1818()
 }
 
-func (c *current) onListContinuationElement1802() (interface{}, error) {
+func (c *current) onListContinuationElement1824() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1802() (interface{}, error) {
+func (p *parser) callonListContinuationElement1824() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1802()
+	return p.cur.onListContinuationElement1824()
 }
 
-func (c *current) onListContinuationElement1805() (interface{}, error) {
+func (c *current) onListContinuationElement1827() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1805() (interface{}, error) {
+func (p *parser) callonListContinuationElement1827() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1805()
+	return p.cur.onListContinuationElement1827()
 }
 
-func (c *current) onListContinuationElement1793(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1815(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1793() (interface{}, error) {
+func (p *parser) callonListContinuationElement1815() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1793(stack["delimiter"])
+	return p.cur.onListContinuationElement1815(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1815() (interface{}, error) {
+func (c *current) onListContinuationElement1837() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1815() (interface{}, error) {
+func (p *parser) callonListContinuationElement1837() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1815()
+	return p.cur.onListContinuationElement1837()
 }
 
-func (c *current) onListContinuationElement1821() (interface{}, error) {
+func (c *current) onListContinuationElement1843() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1821() (interface{}, error) {
+func (p *parser) callonListContinuationElement1843() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1821()
+	return p.cur.onListContinuationElement1843()
 }
 
-func (c *current) onListContinuationElement1824() (interface{}, error) {
+func (c *current) onListContinuationElement1846() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1824() (interface{}, error) {
+func (p *parser) callonListContinuationElement1846() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1824()
+	return p.cur.onListContinuationElement1846()
 }
 
-func (c *current) onListContinuationElement1812(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1834(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1812() (interface{}, error) {
+func (p *parser) callonListContinuationElement1834() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1812(stack["delimiter"])
+	return p.cur.onListContinuationElement1834(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1834() (interface{}, error) {
+func (c *current) onListContinuationElement1856() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1834() (interface{}, error) {
+func (p *parser) callonListContinuationElement1856() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1834()
+	return p.cur.onListContinuationElement1856()
 }
 
-func (c *current) onListContinuationElement1840() (interface{}, error) {
+func (c *current) onListContinuationElement1862() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1840() (interface{}, error) {
+func (p *parser) callonListContinuationElement1862() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1840()
+	return p.cur.onListContinuationElement1862()
 }
 
-func (c *current) onListContinuationElement1843() (interface{}, error) {
+func (c *current) onListContinuationElement1865() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1843() (interface{}, error) {
+func (p *parser) callonListContinuationElement1865() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1843()
+	return p.cur.onListContinuationElement1865()
 }
 
-func (c *current) onListContinuationElement1831(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1853(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1831() (interface{}, error) {
+func (p *parser) callonListContinuationElement1853() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1831(stack["delimiter"])
+	return p.cur.onListContinuationElement1853(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1853() (interface{}, error) {
+func (c *current) onListContinuationElement1875() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1853() (interface{}, error) {
+func (p *parser) callonListContinuationElement1875() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1853()
+	return p.cur.onListContinuationElement1875()
 }
 
-func (c *current) onListContinuationElement1859() (interface{}, error) {
+func (c *current) onListContinuationElement1881() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1859() (interface{}, error) {
+func (p *parser) callonListContinuationElement1881() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1859()
+	return p.cur.onListContinuationElement1881()
 }
 
-func (c *current) onListContinuationElement1862() (interface{}, error) {
+func (c *current) onListContinuationElement1884() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1862() (interface{}, error) {
+func (p *parser) callonListContinuationElement1884() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1862()
+	return p.cur.onListContinuationElement1884()
 }
 
-func (c *current) onListContinuationElement1850(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1872(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1850() (interface{}, error) {
+func (p *parser) callonListContinuationElement1872() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1850(stack["delimiter"])
+	return p.cur.onListContinuationElement1872(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1872() (interface{}, error) {
+func (c *current) onListContinuationElement1894() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1872() (interface{}, error) {
+func (p *parser) callonListContinuationElement1894() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1872()
+	return p.cur.onListContinuationElement1894()
 }
 
-func (c *current) onListContinuationElement1878() (interface{}, error) {
+func (c *current) onListContinuationElement1900() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1878() (interface{}, error) {
+func (p *parser) callonListContinuationElement1900() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1878()
+	return p.cur.onListContinuationElement1900()
 }
 
-func (c *current) onListContinuationElement1881() (interface{}, error) {
+func (c *current) onListContinuationElement1903() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1881() (interface{}, error) {
+func (p *parser) callonListContinuationElement1903() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1881()
+	return p.cur.onListContinuationElement1903()
 }
 
-func (c *current) onListContinuationElement1869(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1891(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1869() (interface{}, error) {
+func (p *parser) callonListContinuationElement1891() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1869(stack["delimiter"])
+	return p.cur.onListContinuationElement1891(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1891() (interface{}, error) {
+func (c *current) onListContinuationElement1913() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1891() (interface{}, error) {
+func (p *parser) callonListContinuationElement1913() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1891()
+	return p.cur.onListContinuationElement1913()
 }
 
-func (c *current) onListContinuationElement1897() (interface{}, error) {
+func (c *current) onListContinuationElement1919() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1897() (interface{}, error) {
+func (p *parser) callonListContinuationElement1919() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1897()
+	return p.cur.onListContinuationElement1919()
 }
 
-func (c *current) onListContinuationElement1900() (interface{}, error) {
+func (c *current) onListContinuationElement1922() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1900() (interface{}, error) {
+func (p *parser) callonListContinuationElement1922() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1900()
+	return p.cur.onListContinuationElement1922()
 }
 
-func (c *current) onListContinuationElement1888(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1910(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1888() (interface{}, error) {
+func (p *parser) callonListContinuationElement1910() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1888(stack["delimiter"])
+	return p.cur.onListContinuationElement1910(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1731(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1753(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonListContinuationElement1731() (interface{}, error) {
+func (p *parser) callonListContinuationElement1753() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1731(stack["delimiter"])
+	return p.cur.onListContinuationElement1753(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1908() (interface{}, error) {
+func (c *current) onListContinuationElement1930() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1908() (interface{}, error) {
+func (p *parser) callonListContinuationElement1930() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1908()
+	return p.cur.onListContinuationElement1930()
 }
 
-func (c *current) onListContinuationElement1912() (interface{}, error) {
+func (c *current) onListContinuationElement1934() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1912() (interface{}, error) {
+func (p *parser) callonListContinuationElement1934() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1912()
+	return p.cur.onListContinuationElement1934()
 }
 
-func (c *current) onListContinuationElement1602(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1624(content interface{}) (interface{}, error) {
 	// do not retain the EOL chars
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1602() (interface{}, error) {
+func (p *parser) callonListContinuationElement1624() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1602(stack["content"])
+	return p.cur.onListContinuationElement1624(stack["content"])
 }
 
-func (c *current) onListContinuationElement1577(style, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1599(style, content interface{}) (interface{}, error) {
 	return types.NewParagraph(style, content)
 
 }
 
-func (p *parser) callonListContinuationElement1577() (interface{}, error) {
+func (p *parser) callonListContinuationElement1599() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1577(stack["style"], stack["content"])
+	return p.cur.onListContinuationElement1599(stack["style"], stack["content"])
 }
 
 func (c *current) onListContinuationElement1(attributes, element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 64f4c23..6e020a5 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -2689,6 +2689,13 @@ MultilineTableCell <-
 
 MultilineTableCellContent <- 
     (
+        &{
+            return c.isAtBeginningOfLine(), nil
+        }
+        comment:(SinglelineComment) {
+            return comment, nil
+        }
+        /
         !TableEndDelimiter
         !BlankLine
         !(format:(TableCellFormat)? "|")
diff --git a/pkg/parser/parser_ext.go b/pkg/parser/parser_ext.go
index 2e62a05..b155e59 100644
--- a/pkg/parser/parser_ext.go
+++ b/pkg/parser/parser_ext.go
@@ -132,6 +132,11 @@ func (c *current) resetElementTracking() {
 	delete(c.globalStore, suffixTrackingKey)
 }
 
+// isAtBeginningOfLine checks if the parser is positioned on the first character of a line
+func (c *current) isAtBeginningOfLine() bool {
+	return c.pos.col == 1
+}
+
 func (c *current) isPrecededBySpace() bool {
 	if r, ok := c.globalStore[suffixTrackingKey].(rune); ok {
 		log.Debugf("---checking if preceded by space (tracked='%s')", string(r))
diff --git a/pkg/types/types.go b/pkg/types/types.go
index f5046b7..24b24fa 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -918,10 +918,34 @@ func NewListElements(elements []interface{}) (*ListElements, error) {
 				attrs = nil
 			}
 			elmts = append(elmts, e)
-		case *RawLine, *SinglelineComment:
+		case *SinglelineComment:
+			// ignore, unless it belongs to an attached paragraph (whose content may be verbatim)
+			if len(elmts) > 0 {
+				if c, ok := elmts[len(elmts)-1].(*ListContinuation); ok {
+					if p, ok := c.Element.(*Paragraph); ok {
+						if err := p.AddElement(e); err != nil {
+							return nil, errors.Errorf("unable to attach element of type '%T' in a list", e)
+						}
+					}
+				}
+			}
+		case *RawLine:
 			// append to last element
 			if len(elmts) > 0 {
 				switch elmt := elmts[len(elmts)-1].(type) {
+				case *ListContinuation:
+					if _, ok := elmt.Element.(WithElementAddition); !ok {
+						// attach as a new paragraph
+						elmts = append(elmts, &ListContinuation{
+							Element: &Paragraph{
+								Elements: []interface{}{e},
+							},
+						})
+						continue
+					}
+					if err := elmt.AddElement(e); err != nil {
+						return nil, errors.Errorf("unable to attach element of type '%T' in a list", e)
+					}
 				case WithElementAddition:
 					if err := elmt.AddElement(e); err != nil {
 						return nil, errors.Errorf("unable to attach element of type '%T' in a list", e)
-- 
2.43.0


From e0463e7b6411894c67b12b65e77234a5ef17d95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:51 +0000
Subject: [PATCH 27/75] fix: text after multibyte characters and comments taken
 for the middle of a word

---
 pkg/parser/parser_ext.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/parser_ext.go b/pkg/parser/parser_ext.go
index b155e59..d71bb16 100644
--- a/pkg/parser/parser_ext.go
+++ b/pkg/parser/parser_ext.go
@@ -6,6 +6,7 @@ import (
 	"sort"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/bytesparadise/libasciidoc/pkg/configuration"
 	"github.com/bytesparadise/libasciidoc/pkg/types"
@@ -124,7 +125,8 @@ func (c *current) trackElement(element interface{}) {
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("---tracking element of type '%T' at pos=%s text='%s'", element, c.pos.String(), string(c.text))
 	}
-	c.globalStore[suffixTrackingKey] = rune(c.text[len(c.text)-1])
+	r, _ := utf8.DecodeLastRune(c.text)
+	c.globalStore[suffixTrackingKey] = r
 }
 
 // resetElementTracking discards the last tracked character, ie: what follows is the beginning of some content
-- 
2.43.0


From 610a3d2f0e92c0764f16bcc1a1b03949f50230d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:41 +0000
Subject: [PATCH 28/75] fix: comments taken for the term of a labeled list

---
 pkg/parser/parser.go  | 15634 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |     1 +
 2 files changed, 7902 insertions(+), 7733 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 6026cfe..81bb33e 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2909, col: 10, offset: 91792},
+														pos: position{line: 2910, col: 10, offset: 91824},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2909, col: 10, offset: 91792},
+															pos:        position{line: 2910, col: 10, offset: 91824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2931, col: 8, offset: 92190},
+													pos: position{line: 2932, col: 8, offset: 92222},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2918, col: 12, offset: 91963},
+															pos: position{line: 2919, col: 12, offset: 91995},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2918, col: 13, offset: 91964},
+																pos: position{line: 2919, col: 13, offset: 91996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 13, offset: 91964},
+																		pos:        position{line: 2919, col: 13, offset: 91996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 20, offset: 91971},
+																		pos:        position{line: 2919, col: 20, offset: 92003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 29, offset: 91980},
+																		pos:        position{line: 2919, col: 29, offset: 92012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2928, col: 8, offset: 92140},
+															pos: position{line: 2929, col: 8, offset: 92172},
 															expr: &anyMatcher{
-																line: 2928, col: 9, offset: 92141,
+																line: 2929, col: 9, offset: 92173,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2909, col: 10, offset: 91792},
+														pos: position{line: 2910, col: 10, offset: 91824},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2909, col: 10, offset: 91792},
+															pos:        position{line: 2910, col: 10, offset: 91824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2931, col: 8, offset: 92190},
+													pos: position{line: 2932, col: 8, offset: 92222},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2918, col: 12, offset: 91963},
+															pos: position{line: 2919, col: 12, offset: 91995},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2918, col: 13, offset: 91964},
+																pos: position{line: 2919, col: 13, offset: 91996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 13, offset: 91964},
+																		pos:        position{line: 2919, col: 13, offset: 91996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 20, offset: 91971},
+																		pos:        position{line: 2919, col: 20, offset: 92003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 29, offset: 91980},
+																		pos:        position{line: 2919, col: 29, offset: 92012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2928, col: 8, offset: 92140},
+															pos: position{line: 2929, col: 8, offset: 92172},
 															expr: &anyMatcher{
-																line: 2928, col: 9, offset: 92141,
+																line: 2929, col: 9, offset: 92173,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2909, col: 10, offset: 91792},
+														pos: position{line: 2910, col: 10, offset: 91824},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2909, col: 10, offset: 91792},
+															pos:        position{line: 2910, col: 10, offset: 91824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2928, col: 8, offset: 92140},
+													pos: position{line: 2929, col: 8, offset: 92172},
 													expr: &anyMatcher{
-														line: 2928, col: 9, offset: 92141,
+														line: 2929, col: 9, offset: 92173,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2909, col: 10, offset: 91792},
+														pos: position{line: 2910, col: 10, offset: 91824},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2909, col: 10, offset: 91792},
+															pos:        position{line: 2910, col: 10, offset: 91824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2928, col: 8, offset: 92140},
+													pos: position{line: 2929, col: 8, offset: 92172},
 													expr: &anyMatcher{
-														line: 2928, col: 9, offset: 92141,
+														line: 2929, col: 9, offset: 92173,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2901, col: 12, offset: 91619},
+																pos: position{line: 2902, col: 12, offset: 91651},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2901, col: 13, offset: 91620},
+																	pos: position{line: 2902, col: 13, offset: 91652},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2901, col: 13, offset: 91620},
+																			pos: position{line: 2902, col: 13, offset: 91652},
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 13, offset: 91620},
+																				pos:        position{line: 2902, col: 13, offset: 91652},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2901, col: 18, offset: 91625},
+																			pos: position{line: 2902, col: 18, offset: 91657},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2901, col: 18, offset: 91625},
+																				pos:        position{line: 2902, col: 18, offset: 91657},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2909, col: 10, offset: 91792},
+														pos: position{line: 2910, col: 10, offset: 91824},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2909, col: 10, offset: 91792},
+															pos:        position{line: 2910, col: 10, offset: 91824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2909, col: 10, offset: 91792},
+														pos: position{line: 2910, col: 10, offset: 91824},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2909, col: 10, offset: 91792},
+															pos:        position{line: 2910, col: 10, offset: 91824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2901, col: 12, offset: 91619},
+																pos: position{line: 2902, col: 12, offset: 91651},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2901, col: 13, offset: 91620},
+																	pos: position{line: 2902, col: 13, offset: 91652},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2901, col: 13, offset: 91620},
+																			pos: position{line: 2902, col: 13, offset: 91652},
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 13, offset: 91620},
+																				pos:        position{line: 2902, col: 13, offset: 91652},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2901, col: 18, offset: 91625},
+																			pos: position{line: 2902, col: 18, offset: 91657},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2901, col: 18, offset: 91625},
+																				pos:        position{line: 2902, col: 18, offset: 91657},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2909, col: 10, offset: 91792},
+														pos: position{line: 2910, col: 10, offset: 91824},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2909, col: 10, offset: 91792},
+															pos:        position{line: 2910, col: 10, offset: 91824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2928, col: 8, offset: 92140},
+													pos: position{line: 2929, col: 8, offset: 92172},
 													expr: &anyMatcher{
-														line: 2928, col: 9, offset: 92141,
+														line: 2929, col: 9, offset: 92173,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2909, col: 10, offset: 91792},
+														pos: position{line: 2910, col: 10, offset: 91824},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2909, col: 10, offset: 91792},
+															pos:        position{line: 2910, col: 10, offset: 91824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2928, col: 8, offset: 92140},
+													pos: position{line: 2929, col: 8, offset: 92172},
 													expr: &anyMatcher{
-														line: 2928, col: 9, offset: 92141,
+														line: 2929, col: 9, offset: 92173,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 725, col: 5, offset: 23139},
 													expr: &charClassMatcher{
-														pos:        position{line: 2799, col: 13, offset: 88887},
+														pos:        position{line: 2800, col: 13, offset: 88919},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23783},
 																			expr: &actionExpr{
-																				pos: position{line: 2909, col: 10, offset: 91792},
+																				pos: position{line: 2910, col: 10, offset: 91824},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2909, col: 10, offset: 91792},
+																					pos:        position{line: 2910, col: 10, offset: 91824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2931, col: 8, offset: 92190},
+																			pos: position{line: 2932, col: 8, offset: 92222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2918, col: 12, offset: 91963},
+																					pos: position{line: 2919, col: 12, offset: 91995},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2918, col: 13, offset: 91964},
+																						pos: position{line: 2919, col: 13, offset: 91996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 13, offset: 91964},
+																								pos:        position{line: 2919, col: 13, offset: 91996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 20, offset: 91971},
+																								pos:        position{line: 2919, col: 20, offset: 92003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 29, offset: 91980},
+																								pos:        position{line: 2919, col: 29, offset: 92012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 750, col: 8, offset: 24031},
 																			expr: &actionExpr{
-																				pos: position{line: 2909, col: 10, offset: 91792},
+																				pos: position{line: 2910, col: 10, offset: 91824},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2909, col: 10, offset: 91792},
+																					pos:        position{line: 2910, col: 10, offset: 91824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2931, col: 8, offset: 92190},
+																			pos: position{line: 2932, col: 8, offset: 92222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2918, col: 12, offset: 91963},
+																					pos: position{line: 2919, col: 12, offset: 91995},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2918, col: 13, offset: 91964},
+																						pos: position{line: 2919, col: 13, offset: 91996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 13, offset: 91964},
+																								pos:        position{line: 2919, col: 13, offset: 91996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 20, offset: 91971},
+																								pos:        position{line: 2919, col: 20, offset: 92003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 29, offset: 91980},
+																								pos:        position{line: 2919, col: 29, offset: 92012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 761, col: 52, offset: 24443},
 																			expr: &actionExpr{
-																				pos: position{line: 2909, col: 10, offset: 91792},
+																				pos: position{line: 2910, col: 10, offset: 91824},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2909, col: 10, offset: 91792},
+																					pos:        position{line: 2910, col: 10, offset: 91824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2931, col: 8, offset: 92190},
+																			pos: position{line: 2932, col: 8, offset: 92222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2918, col: 12, offset: 91963},
+																					pos: position{line: 2919, col: 12, offset: 91995},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2918, col: 13, offset: 91964},
+																						pos: position{line: 2919, col: 13, offset: 91996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 13, offset: 91964},
+																								pos:        position{line: 2919, col: 13, offset: 91996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 20, offset: 91971},
+																								pos:        position{line: 2919, col: 20, offset: 92003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 29, offset: 91980},
+																								pos:        position{line: 2919, col: 29, offset: 92012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 757, col: 8, offset: 24277},
 																			expr: &actionExpr{
-																				pos: position{line: 2909, col: 10, offset: 91792},
+																				pos: position{line: 2910, col: 10, offset: 91824},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2909, col: 10, offset: 91792},
+																					pos:        position{line: 2910, col: 10, offset: 91824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2931, col: 8, offset: 92190},
+																			pos: position{line: 2932, col: 8, offset: 92222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2918, col: 12, offset: 91963},
+																					pos: position{line: 2919, col: 12, offset: 91995},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2918, col: 13, offset: 91964},
+																						pos: position{line: 2919, col: 13, offset: 91996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 13, offset: 91964},
+																								pos:        position{line: 2919, col: 13, offset: 91996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 20, offset: 91971},
+																								pos:        position{line: 2919, col: 20, offset: 92003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 29, offset: 91980},
+																								pos:        position{line: 2919, col: 29, offset: 92012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 772, col: 8, offset: 24815},
 																			expr: &actionExpr{
-																				pos: position{line: 2909, col: 10, offset: 91792},
+																				pos: position{line: 2910, col: 10, offset: 91824},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2909, col: 10, offset: 91792},
+																					pos:        position{line: 2910, col: 10, offset: 91824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2931, col: 8, offset: 92190},
+																			pos: position{line: 2932, col: 8, offset: 92222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2918, col: 12, offset: 91963},
+																					pos: position{line: 2919, col: 12, offset: 91995},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2918, col: 13, offset: 91964},
+																						pos: position{line: 2919, col: 13, offset: 91996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 13, offset: 91964},
+																								pos:        position{line: 2919, col: 13, offset: 91996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 20, offset: 91971},
+																								pos:        position{line: 2919, col: 20, offset: 92003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 29, offset: 91980},
+																								pos:        position{line: 2919, col: 29, offset: 92012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 786, col: 8, offset: 25291},
 																			expr: &actionExpr{
-																				pos: position{line: 2909, col: 10, offset: 91792},
+																				pos: position{line: 2910, col: 10, offset: 91824},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2909, col: 10, offset: 91792},
+																					pos:        position{line: 2910, col: 10, offset: 91824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2931, col: 8, offset: 92190},
+																			pos: position{line: 2932, col: 8, offset: 92222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2918, col: 12, offset: 91963},
+																					pos: position{line: 2919, col: 12, offset: 91995},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2918, col: 13, offset: 91964},
+																						pos: position{line: 2919, col: 13, offset: 91996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 13, offset: 91964},
+																								pos:        position{line: 2919, col: 13, offset: 91996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 20, offset: 91971},
+																								pos:        position{line: 2919, col: 20, offset: 92003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 29, offset: 91980},
+																								pos:        position{line: 2919, col: 29, offset: 92012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 793, col: 8, offset: 25543},
 																			expr: &actionExpr{
-																				pos: position{line: 2909, col: 10, offset: 91792},
+																				pos: position{line: 2910, col: 10, offset: 91824},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2909, col: 10, offset: 91792},
+																					pos:        position{line: 2910, col: 10, offset: 91824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2931, col: 8, offset: 92190},
+																			pos: position{line: 2932, col: 8, offset: 92222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2918, col: 12, offset: 91963},
+																					pos: position{line: 2919, col: 12, offset: 91995},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2918, col: 13, offset: 91964},
+																						pos: position{line: 2919, col: 13, offset: 91996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 13, offset: 91964},
+																								pos:        position{line: 2919, col: 13, offset: 91996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 20, offset: 91971},
+																								pos:        position{line: 2919, col: 20, offset: 92003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 29, offset: 91980},
+																								pos:        position{line: 2919, col: 29, offset: 92012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 800, col: 8, offset: 25793},
 																			expr: &actionExpr{
-																				pos: position{line: 2909, col: 10, offset: 91792},
+																				pos: position{line: 2910, col: 10, offset: 91824},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2909, col: 10, offset: 91792},
+																					pos:        position{line: 2910, col: 10, offset: 91824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2931, col: 8, offset: 92190},
+																			pos: position{line: 2932, col: 8, offset: 92222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2918, col: 12, offset: 91963},
+																					pos: position{line: 2919, col: 12, offset: 91995},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2918, col: 13, offset: 91964},
+																						pos: position{line: 2919, col: 13, offset: 91996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 13, offset: 91964},
+																								pos:        position{line: 2919, col: 13, offset: 91996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 20, offset: 91971},
+																								pos:        position{line: 2919, col: 20, offset: 92003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 29, offset: 91980},
+																								pos:        position{line: 2919, col: 29, offset: 92012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 807, col: 8, offset: 26039},
 																			expr: &actionExpr{
-																				pos: position{line: 2909, col: 10, offset: 91792},
+																				pos: position{line: 2910, col: 10, offset: 91824},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2909, col: 10, offset: 91792},
+																					pos:        position{line: 2910, col: 10, offset: 91824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2931, col: 8, offset: 92190},
+																			pos: position{line: 2932, col: 8, offset: 92222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2918, col: 12, offset: 91963},
+																					pos: position{line: 2919, col: 12, offset: 91995},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2918, col: 13, offset: 91964},
+																						pos: position{line: 2919, col: 13, offset: 91996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 13, offset: 91964},
+																								pos:        position{line: 2919, col: 13, offset: 91996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 20, offset: 91971},
+																								pos:        position{line: 2919, col: 20, offset: 92003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 29, offset: 91980},
+																								pos:        position{line: 2919, col: 29, offset: 92012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2913, col: 11, offset: 91853},
+													pos: position{line: 2914, col: 11, offset: 91885},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2913, col: 11, offset: 91853},
+														pos: position{line: 2914, col: 11, offset: 91885},
 														expr: &charClassMatcher{
-															pos:        position{line: 2913, col: 11, offset: 91853},
+															pos:        position{line: 2914, col: 11, offset: 91885},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2859, col: 14, offset: 90385},
+													pos: position{line: 2860, col: 14, offset: 90417},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2859, col: 14, offset: 90385},
+														pos: position{line: 2860, col: 14, offset: 90417},
 														expr: &charClassMatcher{
-															pos:        position{line: 2859, col: 14, offset: 90385},
+															pos:        position{line: 2860, col: 14, offset: 90417},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2928, col: 8, offset: 92140},
+													pos: position{line: 2929, col: 8, offset: 92172},
 													expr: &anyMatcher{
-														line: 2928, col: 9, offset: 92141,
+														line: 2929, col: 9, offset: 92173,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2928, col: 8, offset: 92140},
+							pos: position{line: 2929, col: 8, offset: 92172},
 							expr: &anyMatcher{
-								line: 2928, col: 9, offset: 92141,
+								line: 2929, col: 9, offset: 92173,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2863, col: 17, offset: 90455},
+												pos: position{line: 2864, col: 17, offset: 90487},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2863, col: 17, offset: 90455},
+													pos:   position{line: 2864, col: 17, offset: 90487},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 5, offset: 90909},
+														pos: position{line: 2881, col: 5, offset: 90941},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2880, col: 5, offset: 90909},
+															pos:   position{line: 2881, col: 5, offset: 90941},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2880, col: 14, offset: 90918},
+																pos: position{line: 2881, col: 14, offset: 90950},
 																expr: &choiceExpr{
-																	pos: position{line: 2881, col: 9, offset: 90928},
+																	pos: position{line: 2882, col: 9, offset: 90960},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 9, offset: 90928},
+																			pos: position{line: 2882, col: 9, offset: 90960},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2881, col: 9, offset: 90928},
+																				pos: position{line: 2882, col: 9, offset: 90960},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2881, col: 9, offset: 90928},
+																						pos: position{line: 2882, col: 9, offset: 90960},
 																						expr: &litMatcher{
-																							pos:        position{line: 2881, col: 10, offset: 90929},
+																							pos:        position{line: 2882, col: 10, offset: 90961},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2882, col: 9, offset: 90957},
+																						pos: position{line: 2883, col: 9, offset: 90989},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2882, col: 10, offset: 90958},
+																							pos:        position{line: 2883, col: 10, offset: 90990},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2885, col: 11, offset: 91170},
+																			pos: position{line: 2886, col: 11, offset: 91202},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2885, col: 11, offset: 91170},
+																					pos:        position{line: 2886, col: 11, offset: 91202},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2885, col: 19, offset: 91178},
+																					pos: position{line: 2886, col: 19, offset: 91210},
 																					expr: &seqExpr{
-																						pos: position{line: 2885, col: 21, offset: 91180},
+																						pos: position{line: 2886, col: 21, offset: 91212},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2885, col: 21, offset: 91180},
+																								pos: position{line: 2886, col: 21, offset: 91212},
 																								expr: &actionExpr{
-																									pos: position{line: 2909, col: 10, offset: 91792},
+																									pos: position{line: 2910, col: 10, offset: 91824},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2909, col: 10, offset: 91792},
+																										pos:        position{line: 2910, col: 10, offset: 91824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 28, offset: 91187},
+																								pos: position{line: 2886, col: 28, offset: 91219},
 																								expr: &notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2888, col: 11, offset: 91307},
+																			pos: position{line: 2889, col: 11, offset: 91339},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2888, col: 11, offset: 91307},
+																				pos:        position{line: 2889, col: 11, offset: 91339},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2909, col: 10, offset: 91792},
+								pos: position{line: 2910, col: 10, offset: 91824},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2909, col: 10, offset: 91792},
+									pos:        position{line: 2910, col: 10, offset: 91824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2931, col: 8, offset: 92190},
+							pos: position{line: 2932, col: 8, offset: 92222},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2918, col: 12, offset: 91963},
+									pos: position{line: 2919, col: 12, offset: 91995},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2918, col: 13, offset: 91964},
+										pos: position{line: 2919, col: 13, offset: 91996},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2918, col: 13, offset: 91964},
+												pos:        position{line: 2919, col: 13, offset: 91996},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2918, col: 20, offset: 91971},
+												pos:        position{line: 2919, col: 20, offset: 92003},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2918, col: 29, offset: 91980},
+												pos:        position{line: 2919, col: 29, offset: 92012},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2928, col: 8, offset: 92140},
+									pos: position{line: 2929, col: 8, offset: 92172},
 									expr: &anyMatcher{
-										line: 2928, col: 9, offset: 92141,
+										line: 2929, col: 9, offset: 92173,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2901, col: 12, offset: 91619},
+																				pos: position{line: 2902, col: 12, offset: 91651},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2901, col: 13, offset: 91620},
+																					pos: position{line: 2902, col: 13, offset: 91652},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2901, col: 13, offset: 91620},
+																							pos: position{line: 2902, col: 13, offset: 91652},
 																							expr: &litMatcher{
-																								pos:        position{line: 2901, col: 13, offset: 91620},
+																								pos:        position{line: 2902, col: 13, offset: 91652},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2901, col: 18, offset: 91625},
+																							pos: position{line: 2902, col: 18, offset: 91657},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2901, col: 18, offset: 91625},
+																								pos:        position{line: 2902, col: 18, offset: 91657},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2901, col: 12, offset: 91619},
+																				pos: position{line: 2902, col: 12, offset: 91651},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2901, col: 13, offset: 91620},
+																					pos: position{line: 2902, col: 13, offset: 91652},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2901, col: 13, offset: 91620},
+																							pos: position{line: 2902, col: 13, offset: 91652},
 																							expr: &litMatcher{
-																								pos:        position{line: 2901, col: 13, offset: 91620},
+																								pos:        position{line: 2902, col: 13, offset: 91652},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2901, col: 18, offset: 91625},
+																							pos: position{line: 2902, col: 18, offset: 91657},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2901, col: 18, offset: 91625},
+																								pos:        position{line: 2902, col: 18, offset: 91657},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2901, col: 12, offset: 91619},
+																		pos: position{line: 2902, col: 12, offset: 91651},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2901, col: 13, offset: 91620},
+																			pos: position{line: 2902, col: 13, offset: 91652},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2901, col: 13, offset: 91620},
+																					pos: position{line: 2902, col: 13, offset: 91652},
 																					expr: &litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91620},
+																						pos:        position{line: 2902, col: 13, offset: 91652},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2901, col: 18, offset: 91625},
+																					pos: position{line: 2902, col: 18, offset: 91657},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2901, col: 18, offset: 91625},
+																						pos:        position{line: 2902, col: 18, offset: 91657},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91619},
+																									pos: position{line: 2902, col: 12, offset: 91651},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2901, col: 13, offset: 91620},
+																										pos: position{line: 2902, col: 13, offset: 91652},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2901, col: 13, offset: 91620},
+																												pos: position{line: 2902, col: 13, offset: 91652},
 																												expr: &litMatcher{
-																													pos:        position{line: 2901, col: 13, offset: 91620},
+																													pos:        position{line: 2902, col: 13, offset: 91652},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2901, col: 18, offset: 91625},
+																												pos: position{line: 2902, col: 18, offset: 91657},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2901, col: 18, offset: 91625},
+																													pos:        position{line: 2902, col: 18, offset: 91657},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91619},
+																									pos: position{line: 2902, col: 12, offset: 91651},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2901, col: 13, offset: 91620},
+																										pos: position{line: 2902, col: 13, offset: 91652},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2901, col: 13, offset: 91620},
+																												pos: position{line: 2902, col: 13, offset: 91652},
 																												expr: &litMatcher{
-																													pos:        position{line: 2901, col: 13, offset: 91620},
+																													pos:        position{line: 2902, col: 13, offset: 91652},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2901, col: 18, offset: 91625},
+																												pos: position{line: 2902, col: 18, offset: 91657},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2901, col: 18, offset: 91625},
+																													pos:        position{line: 2902, col: 18, offset: 91657},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2901, col: 12, offset: 91619},
+																							pos: position{line: 2902, col: 12, offset: 91651},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2901, col: 13, offset: 91620},
+																								pos: position{line: 2902, col: 13, offset: 91652},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2901, col: 13, offset: 91620},
+																										pos: position{line: 2902, col: 13, offset: 91652},
 																										expr: &litMatcher{
-																											pos:        position{line: 2901, col: 13, offset: 91620},
+																											pos:        position{line: 2902, col: 13, offset: 91652},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2901, col: 18, offset: 91625},
+																										pos: position{line: 2902, col: 18, offset: 91657},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2901, col: 18, offset: 91625},
+																											pos:        position{line: 2902, col: 18, offset: 91657},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2901, col: 12, offset: 91619},
+														pos: position{line: 2902, col: 12, offset: 91651},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2901, col: 13, offset: 91620},
+															pos: position{line: 2902, col: 13, offset: 91652},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2901, col: 13, offset: 91620},
+																	pos: position{line: 2902, col: 13, offset: 91652},
 																	expr: &litMatcher{
-																		pos:        position{line: 2901, col: 13, offset: 91620},
+																		pos:        position{line: 2902, col: 13, offset: 91652},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2901, col: 18, offset: 91625},
+																	pos: position{line: 2902, col: 18, offset: 91657},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2901, col: 18, offset: 91625},
+																		pos:        position{line: 2902, col: 18, offset: 91657},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2901, col: 12, offset: 91619},
+														pos: position{line: 2902, col: 12, offset: 91651},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2901, col: 13, offset: 91620},
+															pos: position{line: 2902, col: 13, offset: 91652},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2901, col: 13, offset: 91620},
+																	pos: position{line: 2902, col: 13, offset: 91652},
 																	expr: &litMatcher{
-																		pos:        position{line: 2901, col: 13, offset: 91620},
+																		pos:        position{line: 2902, col: 13, offset: 91652},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2901, col: 18, offset: 91625},
+																	pos: position{line: 2902, col: 18, offset: 91657},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2901, col: 18, offset: 91625},
+																		pos:        position{line: 2902, col: 18, offset: 91657},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2901, col: 12, offset: 91619},
+												pos: position{line: 2902, col: 12, offset: 91651},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2901, col: 13, offset: 91620},
+													pos: position{line: 2902, col: 13, offset: 91652},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2901, col: 13, offset: 91620},
+															pos: position{line: 2902, col: 13, offset: 91652},
 															expr: &litMatcher{
-																pos:        position{line: 2901, col: 13, offset: 91620},
+																pos:        position{line: 2902, col: 13, offset: 91652},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2901, col: 18, offset: 91625},
+															pos: position{line: 2902, col: 18, offset: 91657},
 															expr: &charClassMatcher{
-																pos:        position{line: 2901, col: 18, offset: 91625},
+																pos:        position{line: 2902, col: 18, offset: 91657},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2928, col: 8, offset: 92140},
+							pos: position{line: 2929, col: 8, offset: 92172},
 							expr: &anyMatcher{
-								line: 2928, col: 9, offset: 92141,
+								line: 2929, col: 9, offset: 92173,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2803, col: 14, offset: 88961},
+																		pos: position{line: 2804, col: 14, offset: 88993},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2803, col: 14, offset: 88961},
+																			pos: position{line: 2804, col: 14, offset: 88993},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2803, col: 14, offset: 88961},
+																				pos:        position{line: 2804, col: 14, offset: 88993},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2803, col: 14, offset: 88961},
+																				pos: position{line: 2804, col: 14, offset: 88993},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2803, col: 14, offset: 88961},
+																					pos: position{line: 2804, col: 14, offset: 88993},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2803, col: 14, offset: 88961},
+																						pos:        position{line: 2804, col: 14, offset: 88993},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2803, col: 14, offset: 88961},
+																							pos: position{line: 2804, col: 14, offset: 88993},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2803, col: 14, offset: 88961},
+																								pos: position{line: 2804, col: 14, offset: 88993},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2803, col: 14, offset: 88961},
+																									pos:        position{line: 2804, col: 14, offset: 88993},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2803, col: 14, offset: 88961},
+																									pos: position{line: 2804, col: 14, offset: 88993},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2803, col: 14, offset: 88961},
+																										pos: position{line: 2804, col: 14, offset: 88993},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2803, col: 14, offset: 88961},
+																											pos:        position{line: 2804, col: 14, offset: 88993},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2928, col: 8, offset: 92140},
+							pos: position{line: 2929, col: 8, offset: 92172},
 							expr: &anyMatcher{
-								line: 2928, col: 9, offset: 92141,
+								line: 2929, col: 9, offset: 92173,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2803, col: 14, offset: 88961},
+																pos: position{line: 2804, col: 14, offset: 88993},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2803, col: 14, offset: 88961},
+																	pos: position{line: 2804, col: 14, offset: 88993},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2803, col: 14, offset: 88961},
+																		pos:        position{line: 2804, col: 14, offset: 88993},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2803, col: 14, offset: 88961},
+																pos: position{line: 2804, col: 14, offset: 88993},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2803, col: 14, offset: 88961},
+																	pos: position{line: 2804, col: 14, offset: 88993},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2803, col: 14, offset: 88961},
+																		pos:        position{line: 2804, col: 14, offset: 88993},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2931, col: 8, offset: 92190},
+							pos: position{line: 2932, col: 8, offset: 92222},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2918, col: 12, offset: 91963},
+									pos: position{line: 2919, col: 12, offset: 91995},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2918, col: 13, offset: 91964},
+										pos: position{line: 2919, col: 13, offset: 91996},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2918, col: 13, offset: 91964},
+												pos:        position{line: 2919, col: 13, offset: 91996},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2918, col: 20, offset: 91971},
+												pos:        position{line: 2919, col: 20, offset: 92003},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2918, col: 29, offset: 91980},
+												pos:        position{line: 2919, col: 29, offset: 92012},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2928, col: 8, offset: 92140},
+									pos: position{line: 2929, col: 8, offset: 92172},
 									expr: &anyMatcher{
-										line: 2928, col: 9, offset: 92141,
+										line: 2929, col: 9, offset: 92173,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2926, col: 11, offset: 92126},
+							pos: position{line: 2927, col: 11, offset: 92158},
 							expr: &anyMatcher{
-								line: 2926, col: 13, offset: 92128,
+								line: 2927, col: 13, offset: 92160,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2909, col: 10, offset: 91792},
+															pos: position{line: 2910, col: 10, offset: 91824},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2909, col: 10, offset: 91792},
+																pos:        position{line: 2910, col: 10, offset: 91824},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2931, col: 8, offset: 92190},
+														pos: position{line: 2932, col: 8, offset: 92222},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2918, col: 12, offset: 91963},
+																pos: position{line: 2919, col: 12, offset: 91995},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2918, col: 13, offset: 91964},
+																	pos: position{line: 2919, col: 13, offset: 91996},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 13, offset: 91964},
+																			pos:        position{line: 2919, col: 13, offset: 91996},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 20, offset: 91971},
+																			pos:        position{line: 2919, col: 20, offset: 92003},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 29, offset: 91980},
+																			pos:        position{line: 2919, col: 29, offset: 92012},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2928, col: 8, offset: 92140},
+																pos: position{line: 2929, col: 8, offset: 92172},
 																expr: &anyMatcher{
-																	line: 2928, col: 9, offset: 92141,
+																	line: 2929, col: 9, offset: 92173,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2909, col: 10, offset: 91792},
+															pos: position{line: 2910, col: 10, offset: 91824},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2909, col: 10, offset: 91792},
+																pos:        position{line: 2910, col: 10, offset: 91824},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2931, col: 8, offset: 92190},
+														pos: position{line: 2932, col: 8, offset: 92222},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2918, col: 12, offset: 91963},
+																pos: position{line: 2919, col: 12, offset: 91995},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2918, col: 13, offset: 91964},
+																	pos: position{line: 2919, col: 13, offset: 91996},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 13, offset: 91964},
+																			pos:        position{line: 2919, col: 13, offset: 91996},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 20, offset: 91971},
+																			pos:        position{line: 2919, col: 20, offset: 92003},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 29, offset: 91980},
+																			pos:        position{line: 2919, col: 29, offset: 92012},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2928, col: 8, offset: 92140},
+																pos: position{line: 2929, col: 8, offset: 92172},
 																expr: &anyMatcher{
-																	line: 2928, col: 9, offset: 92141,
+																	line: 2929, col: 9, offset: 92173,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 678, col: 14, offset: 21586},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2926, col: 11, offset: 92126},
+														pos: position{line: 2927, col: 11, offset: 92158},
 														expr: &anyMatcher{
-															line: 2926, col: 13, offset: 92128,
+															line: 2927, col: 13, offset: 92160,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 678, col: 21, offset: 21593},
 														expr: &actionExpr{
-															pos: position{line: 2909, col: 10, offset: 91792},
+															pos: position{line: 2910, col: 10, offset: 91824},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2909, col: 10, offset: 91792},
+																pos:        position{line: 2910, col: 10, offset: 91824},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2931, col: 8, offset: 92190},
+														pos: position{line: 2932, col: 8, offset: 92222},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2918, col: 12, offset: 91963},
+																pos: position{line: 2919, col: 12, offset: 91995},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2918, col: 13, offset: 91964},
+																	pos: position{line: 2919, col: 13, offset: 91996},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 13, offset: 91964},
+																			pos:        position{line: 2919, col: 13, offset: 91996},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 20, offset: 91971},
+																			pos:        position{line: 2919, col: 20, offset: 92003},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 29, offset: 91980},
+																			pos:        position{line: 2919, col: 29, offset: 92012},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2928, col: 8, offset: 92140},
+																pos: position{line: 2929, col: 8, offset: 92172},
 																expr: &anyMatcher{
-																	line: 2928, col: 9, offset: 92141,
+																	line: 2929, col: 9, offset: 92173,
 																},
 															},
 														},
@@ -4453,10 +4453,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 743, col: 8, offset: 23783},
 																	expr: &actionExpr{
-																		pos: position{line: 2909, col: 10, offset: 91792},
+																		pos: position{line: 2910, col: 10, offset: 91824},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 10, offset: 91792},
+																			pos:        position{line: 2910, col: 10, offset: 91824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4465,28 +4465,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2931, col: 8, offset: 92190},
+																	pos: position{line: 2932, col: 8, offset: 92222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2918, col: 12, offset: 91963},
+																			pos: position{line: 2919, col: 12, offset: 91995},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2918, col: 13, offset: 91964},
+																				pos: position{line: 2919, col: 13, offset: 91996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 13, offset: 91964},
+																						pos:        position{line: 2919, col: 13, offset: 91996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 20, offset: 91971},
+																						pos:        position{line: 2919, col: 20, offset: 92003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 29, offset: 91980},
+																						pos:        position{line: 2919, col: 29, offset: 92012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4495,9 +4495,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2928, col: 8, offset: 92140},
+																			pos: position{line: 2929, col: 8, offset: 92172},
 																			expr: &anyMatcher{
-																				line: 2928, col: 9, offset: 92141,
+																				line: 2929, col: 9, offset: 92173,
 																			},
 																		},
 																	},
@@ -4558,10 +4558,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 743, col: 8, offset: 23783},
 																									expr: &actionExpr{
-																										pos: position{line: 2909, col: 10, offset: 91792},
+																										pos: position{line: 2910, col: 10, offset: 91824},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2909, col: 10, offset: 91792},
+																											pos:        position{line: 2910, col: 10, offset: 91824},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4570,28 +4570,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2931, col: 8, offset: 92190},
+																									pos: position{line: 2932, col: 8, offset: 92222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2918, col: 12, offset: 91963},
+																											pos: position{line: 2919, col: 12, offset: 91995},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2918, col: 13, offset: 91964},
+																												pos: position{line: 2919, col: 13, offset: 91996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 13, offset: 91964},
+																														pos:        position{line: 2919, col: 13, offset: 91996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 20, offset: 91971},
+																														pos:        position{line: 2919, col: 20, offset: 92003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 29, offset: 91980},
+																														pos:        position{line: 2919, col: 29, offset: 92012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4600,9 +4600,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2928, col: 8, offset: 92140},
+																											pos: position{line: 2929, col: 8, offset: 92172},
 																											expr: &anyMatcher{
-																												line: 2928, col: 9, offset: 92141,
+																												line: 2929, col: 9, offset: 92173,
 																											},
 																										},
 																									},
@@ -4611,9 +4611,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2928, col: 8, offset: 92140},
+																						pos: position{line: 2929, col: 8, offset: 92172},
 																						expr: &anyMatcher{
-																							line: 2928, col: 9, offset: 92141,
+																							line: 2929, col: 9, offset: 92173,
 																						},
 																					},
 																				},
@@ -4629,21 +4629,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2926, col: 11, offset: 92126},
+																							pos: position{line: 2927, col: 11, offset: 92158},
 																							expr: &anyMatcher{
-																								line: 2926, col: 13, offset: 92128,
+																								line: 2927, col: 13, offset: 92160,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2855, col: 13, offset: 90318},
+																								pos: position{line: 2856, col: 13, offset: 90350},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2855, col: 13, offset: 90318},
+																									pos: position{line: 2856, col: 13, offset: 90350},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2855, col: 13, offset: 90318},
+																										pos:        position{line: 2856, col: 13, offset: 90350},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4653,28 +4653,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
+																									pos: position{line: 2919, col: 12, offset: 91995},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4683,9 +4683,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -4741,10 +4741,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 743, col: 8, offset: 23783},
 																				expr: &actionExpr{
-																					pos: position{line: 2909, col: 10, offset: 91792},
+																					pos: position{line: 2910, col: 10, offset: 91824},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2909, col: 10, offset: 91792},
+																						pos:        position{line: 2910, col: 10, offset: 91824},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4753,28 +4753,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2931, col: 8, offset: 92190},
+																				pos: position{line: 2932, col: 8, offset: 92222},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2918, col: 12, offset: 91963},
+																						pos: position{line: 2919, col: 12, offset: 91995},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2918, col: 13, offset: 91964},
+																							pos: position{line: 2919, col: 13, offset: 91996},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2918, col: 13, offset: 91964},
+																									pos:        position{line: 2919, col: 13, offset: 91996},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2918, col: 20, offset: 91971},
+																									pos:        position{line: 2919, col: 20, offset: 92003},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2918, col: 29, offset: 91980},
+																									pos:        position{line: 2919, col: 29, offset: 92012},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4783,9 +4783,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2928, col: 8, offset: 92140},
+																						pos: position{line: 2929, col: 8, offset: 92172},
 																						expr: &anyMatcher{
-																							line: 2928, col: 9, offset: 92141,
+																							line: 2929, col: 9, offset: 92173,
 																						},
 																					},
 																				},
@@ -4794,9 +4794,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2928, col: 8, offset: 92140},
+																	pos: position{line: 2929, col: 8, offset: 92172},
 																	expr: &anyMatcher{
-																		line: 2928, col: 9, offset: 92141,
+																		line: 2929, col: 9, offset: 92173,
 																	},
 																},
 															},
@@ -4851,10 +4851,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 750, col: 8, offset: 24031},
 																		expr: &actionExpr{
-																			pos: position{line: 2909, col: 10, offset: 91792},
+																			pos: position{line: 2910, col: 10, offset: 91824},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2909, col: 10, offset: 91792},
+																				pos:        position{line: 2910, col: 10, offset: 91824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4863,28 +4863,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2931, col: 8, offset: 92190},
+																		pos: position{line: 2932, col: 8, offset: 92222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
+																				pos: position{line: 2919, col: 12, offset: 91995},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4893,9 +4893,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2928, col: 8, offset: 92140},
+																				pos: position{line: 2929, col: 8, offset: 92172},
 																				expr: &anyMatcher{
-																					line: 2928, col: 9, offset: 92141,
+																					line: 2929, col: 9, offset: 92173,
 																				},
 																			},
 																		},
@@ -4967,10 +4967,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 750, col: 8, offset: 24031},
 																												expr: &actionExpr{
-																													pos: position{line: 2909, col: 10, offset: 91792},
+																													pos: position{line: 2910, col: 10, offset: 91824},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2909, col: 10, offset: 91792},
+																														pos:        position{line: 2910, col: 10, offset: 91824},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4979,28 +4979,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2931, col: 8, offset: 92190},
+																												pos: position{line: 2932, col: 8, offset: 92222},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2918, col: 12, offset: 91963},
+																														pos: position{line: 2919, col: 12, offset: 91995},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2918, col: 13, offset: 91964},
+																															pos: position{line: 2919, col: 13, offset: 91996},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2918, col: 13, offset: 91964},
+																																	pos:        position{line: 2919, col: 13, offset: 91996},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2918, col: 20, offset: 91971},
+																																	pos:        position{line: 2919, col: 20, offset: 92003},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2918, col: 29, offset: 91980},
+																																	pos:        position{line: 2919, col: 29, offset: 92012},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5009,9 +5009,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2928, col: 8, offset: 92140},
+																														pos: position{line: 2929, col: 8, offset: 92172},
 																														expr: &anyMatcher{
-																															line: 2928, col: 9, offset: 92141,
+																															line: 2929, col: 9, offset: 92173,
 																														},
 																													},
 																												},
@@ -5027,9 +5027,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2928, col: 8, offset: 92140},
+																						pos: position{line: 2929, col: 8, offset: 92172},
 																						expr: &anyMatcher{
-																							line: 2928, col: 9, offset: 92141,
+																							line: 2929, col: 9, offset: 92173,
 																						},
 																					},
 																				},
@@ -5045,21 +5045,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2926, col: 11, offset: 92126},
+																							pos: position{line: 2927, col: 11, offset: 92158},
 																							expr: &anyMatcher{
-																								line: 2926, col: 13, offset: 92128,
+																								line: 2927, col: 13, offset: 92160,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2855, col: 13, offset: 90318},
+																								pos: position{line: 2856, col: 13, offset: 90350},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2855, col: 13, offset: 90318},
+																									pos: position{line: 2856, col: 13, offset: 90350},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2855, col: 13, offset: 90318},
+																										pos:        position{line: 2856, col: 13, offset: 90350},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5069,28 +5069,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
+																									pos: position{line: 2919, col: 12, offset: 91995},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5099,9 +5099,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -5166,10 +5166,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 750, col: 8, offset: 24031},
 																								expr: &actionExpr{
-																									pos: position{line: 2909, col: 10, offset: 91792},
+																									pos: position{line: 2910, col: 10, offset: 91824},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2909, col: 10, offset: 91792},
+																										pos:        position{line: 2910, col: 10, offset: 91824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5178,28 +5178,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2931, col: 8, offset: 92190},
+																								pos: position{line: 2932, col: 8, offset: 92222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2918, col: 12, offset: 91963},
+																										pos: position{line: 2919, col: 12, offset: 91995},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2918, col: 13, offset: 91964},
+																											pos: position{line: 2919, col: 13, offset: 91996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 13, offset: 91964},
+																													pos:        position{line: 2919, col: 13, offset: 91996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 20, offset: 91971},
+																													pos:        position{line: 2919, col: 20, offset: 92003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 29, offset: 91980},
+																													pos:        position{line: 2919, col: 29, offset: 92012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5208,9 +5208,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2928, col: 8, offset: 92140},
+																										pos: position{line: 2929, col: 8, offset: 92172},
 																										expr: &anyMatcher{
-																											line: 2928, col: 9, offset: 92141,
+																											line: 2929, col: 9, offset: 92173,
 																										},
 																									},
 																								},
@@ -5226,9 +5226,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2928, col: 8, offset: 92140},
+																		pos: position{line: 2929, col: 8, offset: 92172},
 																		expr: &anyMatcher{
-																			line: 2928, col: 9, offset: 92141,
+																			line: 2929, col: 9, offset: 92173,
 																		},
 																	},
 																},
@@ -5280,10 +5280,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 761, col: 52, offset: 24443},
 																		expr: &actionExpr{
-																			pos: position{line: 2909, col: 10, offset: 91792},
+																			pos: position{line: 2910, col: 10, offset: 91824},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2909, col: 10, offset: 91792},
+																				pos:        position{line: 2910, col: 10, offset: 91824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5292,28 +5292,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2931, col: 8, offset: 92190},
+																		pos: position{line: 2932, col: 8, offset: 92222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
+																				pos: position{line: 2919, col: 12, offset: 91995},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5322,9 +5322,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2928, col: 8, offset: 92140},
+																				pos: position{line: 2929, col: 8, offset: 92172},
 																				expr: &anyMatcher{
-																					line: 2928, col: 9, offset: 92141,
+																					line: 2929, col: 9, offset: 92173,
 																				},
 																			},
 																		},
@@ -5358,10 +5358,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 964, col: 40, offset: 30246},
 																						expr: &actionExpr{
-																							pos: position{line: 2909, col: 10, offset: 91792},
+																							pos: position{line: 2910, col: 10, offset: 91824},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2909, col: 10, offset: 91792},
+																								pos:        position{line: 2910, col: 10, offset: 91824},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5370,28 +5370,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2931, col: 8, offset: 92190},
+																						pos: position{line: 2932, col: 8, offset: 92222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2918, col: 12, offset: 91963},
+																								pos: position{line: 2919, col: 12, offset: 91995},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2918, col: 13, offset: 91964},
+																									pos: position{line: 2919, col: 13, offset: 91996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 13, offset: 91964},
+																											pos:        position{line: 2919, col: 13, offset: 91996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 20, offset: 91971},
+																											pos:        position{line: 2919, col: 20, offset: 92003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 29, offset: 91980},
+																											pos:        position{line: 2919, col: 29, offset: 92012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5400,9 +5400,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2928, col: 8, offset: 92140},
+																								pos: position{line: 2929, col: 8, offset: 92172},
 																								expr: &anyMatcher{
-																									line: 2928, col: 9, offset: 92141,
+																									line: 2929, col: 9, offset: 92173,
 																								},
 																							},
 																						},
@@ -5420,21 +5420,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2926, col: 11, offset: 92126},
+																							pos: position{line: 2927, col: 11, offset: 92158},
 																							expr: &anyMatcher{
-																								line: 2926, col: 13, offset: 92128,
+																								line: 2927, col: 13, offset: 92160,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2855, col: 13, offset: 90318},
+																								pos: position{line: 2856, col: 13, offset: 90350},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2855, col: 13, offset: 90318},
+																									pos: position{line: 2856, col: 13, offset: 90350},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2855, col: 13, offset: 90318},
+																										pos:        position{line: 2856, col: 13, offset: 90350},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5444,28 +5444,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
+																									pos: position{line: 2919, col: 12, offset: 91995},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5474,9 +5474,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -5504,10 +5504,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 964, col: 40, offset: 30246},
 																	expr: &actionExpr{
-																		pos: position{line: 2909, col: 10, offset: 91792},
+																		pos: position{line: 2910, col: 10, offset: 91824},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 10, offset: 91792},
+																			pos:        position{line: 2910, col: 10, offset: 91824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5516,28 +5516,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2931, col: 8, offset: 92190},
+																	pos: position{line: 2932, col: 8, offset: 92222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2918, col: 12, offset: 91963},
+																			pos: position{line: 2919, col: 12, offset: 91995},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2918, col: 13, offset: 91964},
+																				pos: position{line: 2919, col: 13, offset: 91996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 13, offset: 91964},
+																						pos:        position{line: 2919, col: 13, offset: 91996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 20, offset: 91971},
+																						pos:        position{line: 2919, col: 20, offset: 92003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 29, offset: 91980},
+																						pos:        position{line: 2919, col: 29, offset: 92012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5546,9 +5546,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2928, col: 8, offset: 92140},
+																			pos: position{line: 2929, col: 8, offset: 92172},
 																			expr: &anyMatcher{
-																				line: 2928, col: 9, offset: 92141,
+																				line: 2929, col: 9, offset: 92173,
 																			},
 																		},
 																	},
@@ -5605,10 +5605,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 757, col: 8, offset: 24277},
 																		expr: &actionExpr{
-																			pos: position{line: 2909, col: 10, offset: 91792},
+																			pos: position{line: 2910, col: 10, offset: 91824},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2909, col: 10, offset: 91792},
+																				pos:        position{line: 2910, col: 10, offset: 91824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5617,28 +5617,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2931, col: 8, offset: 92190},
+																		pos: position{line: 2932, col: 8, offset: 92222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
+																				pos: position{line: 2919, col: 12, offset: 91995},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5647,9 +5647,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2928, col: 8, offset: 92140},
+																				pos: position{line: 2929, col: 8, offset: 92172},
 																				expr: &anyMatcher{
-																					line: 2928, col: 9, offset: 92141,
+																					line: 2929, col: 9, offset: 92173,
 																				},
 																			},
 																		},
@@ -5721,10 +5721,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 757, col: 8, offset: 24277},
 																												expr: &actionExpr{
-																													pos: position{line: 2909, col: 10, offset: 91792},
+																													pos: position{line: 2910, col: 10, offset: 91824},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2909, col: 10, offset: 91792},
+																														pos:        position{line: 2910, col: 10, offset: 91824},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5733,28 +5733,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2931, col: 8, offset: 92190},
+																												pos: position{line: 2932, col: 8, offset: 92222},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2918, col: 12, offset: 91963},
+																														pos: position{line: 2919, col: 12, offset: 91995},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2918, col: 13, offset: 91964},
+																															pos: position{line: 2919, col: 13, offset: 91996},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2918, col: 13, offset: 91964},
+																																	pos:        position{line: 2919, col: 13, offset: 91996},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2918, col: 20, offset: 91971},
+																																	pos:        position{line: 2919, col: 20, offset: 92003},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2918, col: 29, offset: 91980},
+																																	pos:        position{line: 2919, col: 29, offset: 92012},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5763,9 +5763,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2928, col: 8, offset: 92140},
+																														pos: position{line: 2929, col: 8, offset: 92172},
 																														expr: &anyMatcher{
-																															line: 2928, col: 9, offset: 92141,
+																															line: 2929, col: 9, offset: 92173,
 																														},
 																													},
 																												},
@@ -5781,9 +5781,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2928, col: 8, offset: 92140},
+																						pos: position{line: 2929, col: 8, offset: 92172},
 																						expr: &anyMatcher{
-																							line: 2928, col: 9, offset: 92141,
+																							line: 2929, col: 9, offset: 92173,
 																						},
 																					},
 																				},
@@ -5799,21 +5799,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2926, col: 11, offset: 92126},
+																							pos: position{line: 2927, col: 11, offset: 92158},
 																							expr: &anyMatcher{
-																								line: 2926, col: 13, offset: 92128,
+																								line: 2927, col: 13, offset: 92160,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2855, col: 13, offset: 90318},
+																								pos: position{line: 2856, col: 13, offset: 90350},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2855, col: 13, offset: 90318},
+																									pos: position{line: 2856, col: 13, offset: 90350},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2855, col: 13, offset: 90318},
+																										pos:        position{line: 2856, col: 13, offset: 90350},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5823,28 +5823,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
+																									pos: position{line: 2919, col: 12, offset: 91995},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5853,9 +5853,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -5920,10 +5920,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 757, col: 8, offset: 24277},
 																								expr: &actionExpr{
-																									pos: position{line: 2909, col: 10, offset: 91792},
+																									pos: position{line: 2910, col: 10, offset: 91824},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2909, col: 10, offset: 91792},
+																										pos:        position{line: 2910, col: 10, offset: 91824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5932,28 +5932,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2931, col: 8, offset: 92190},
+																								pos: position{line: 2932, col: 8, offset: 92222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2918, col: 12, offset: 91963},
+																										pos: position{line: 2919, col: 12, offset: 91995},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2918, col: 13, offset: 91964},
+																											pos: position{line: 2919, col: 13, offset: 91996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 13, offset: 91964},
+																													pos:        position{line: 2919, col: 13, offset: 91996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 20, offset: 91971},
+																													pos:        position{line: 2919, col: 20, offset: 92003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 29, offset: 91980},
+																													pos:        position{line: 2919, col: 29, offset: 92012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5962,9 +5962,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2928, col: 8, offset: 92140},
+																										pos: position{line: 2929, col: 8, offset: 92172},
 																										expr: &anyMatcher{
-																											line: 2928, col: 9, offset: 92141,
+																											line: 2929, col: 9, offset: 92173,
 																										},
 																									},
 																								},
@@ -5980,9 +5980,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2928, col: 8, offset: 92140},
+																		pos: position{line: 2929, col: 8, offset: 92172},
 																		expr: &anyMatcher{
-																			line: 2928, col: 9, offset: 92141,
+																			line: 2929, col: 9, offset: 92173,
 																		},
 																	},
 																},
@@ -6038,10 +6038,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 772, col: 8, offset: 24815},
 																		expr: &actionExpr{
-																			pos: position{line: 2909, col: 10, offset: 91792},
+																			pos: position{line: 2910, col: 10, offset: 91824},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2909, col: 10, offset: 91792},
+																				pos:        position{line: 2910, col: 10, offset: 91824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6050,28 +6050,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2931, col: 8, offset: 92190},
+																		pos: position{line: 2932, col: 8, offset: 92222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
+																				pos: position{line: 2919, col: 12, offset: 91995},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6080,9 +6080,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2928, col: 8, offset: 92140},
+																				pos: position{line: 2929, col: 8, offset: 92172},
 																				expr: &anyMatcher{
-																					line: 2928, col: 9, offset: 92141,
+																					line: 2929, col: 9, offset: 92173,
 																				},
 																			},
 																		},
@@ -6154,10 +6154,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 772, col: 8, offset: 24815},
 																												expr: &actionExpr{
-																													pos: position{line: 2909, col: 10, offset: 91792},
+																													pos: position{line: 2910, col: 10, offset: 91824},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2909, col: 10, offset: 91792},
+																														pos:        position{line: 2910, col: 10, offset: 91824},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6166,28 +6166,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2931, col: 8, offset: 92190},
+																												pos: position{line: 2932, col: 8, offset: 92222},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2918, col: 12, offset: 91963},
+																														pos: position{line: 2919, col: 12, offset: 91995},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2918, col: 13, offset: 91964},
+																															pos: position{line: 2919, col: 13, offset: 91996},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2918, col: 13, offset: 91964},
+																																	pos:        position{line: 2919, col: 13, offset: 91996},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2918, col: 20, offset: 91971},
+																																	pos:        position{line: 2919, col: 20, offset: 92003},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2918, col: 29, offset: 91980},
+																																	pos:        position{line: 2919, col: 29, offset: 92012},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6196,9 +6196,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2928, col: 8, offset: 92140},
+																														pos: position{line: 2929, col: 8, offset: 92172},
 																														expr: &anyMatcher{
-																															line: 2928, col: 9, offset: 92141,
+																															line: 2929, col: 9, offset: 92173,
 																														},
 																													},
 																												},
@@ -6214,9 +6214,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2928, col: 8, offset: 92140},
+																						pos: position{line: 2929, col: 8, offset: 92172},
 																						expr: &anyMatcher{
-																							line: 2928, col: 9, offset: 92141,
+																							line: 2929, col: 9, offset: 92173,
 																						},
 																					},
 																				},
@@ -6232,21 +6232,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2926, col: 11, offset: 92126},
+																							pos: position{line: 2927, col: 11, offset: 92158},
 																							expr: &anyMatcher{
-																								line: 2926, col: 13, offset: 92128,
+																								line: 2927, col: 13, offset: 92160,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2855, col: 13, offset: 90318},
+																								pos: position{line: 2856, col: 13, offset: 90350},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2855, col: 13, offset: 90318},
+																									pos: position{line: 2856, col: 13, offset: 90350},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2855, col: 13, offset: 90318},
+																										pos:        position{line: 2856, col: 13, offset: 90350},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6256,28 +6256,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
+																									pos: position{line: 2919, col: 12, offset: 91995},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6286,9 +6286,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -6353,10 +6353,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 772, col: 8, offset: 24815},
 																								expr: &actionExpr{
-																									pos: position{line: 2909, col: 10, offset: 91792},
+																									pos: position{line: 2910, col: 10, offset: 91824},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2909, col: 10, offset: 91792},
+																										pos:        position{line: 2910, col: 10, offset: 91824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6365,28 +6365,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2931, col: 8, offset: 92190},
+																								pos: position{line: 2932, col: 8, offset: 92222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2918, col: 12, offset: 91963},
+																										pos: position{line: 2919, col: 12, offset: 91995},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2918, col: 13, offset: 91964},
+																											pos: position{line: 2919, col: 13, offset: 91996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 13, offset: 91964},
+																													pos:        position{line: 2919, col: 13, offset: 91996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 20, offset: 91971},
+																													pos:        position{line: 2919, col: 20, offset: 92003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 29, offset: 91980},
+																													pos:        position{line: 2919, col: 29, offset: 92012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6395,9 +6395,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2928, col: 8, offset: 92140},
+																										pos: position{line: 2929, col: 8, offset: 92172},
 																										expr: &anyMatcher{
-																											line: 2928, col: 9, offset: 92141,
+																											line: 2929, col: 9, offset: 92173,
 																										},
 																									},
 																								},
@@ -6413,9 +6413,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2928, col: 8, offset: 92140},
+																		pos: position{line: 2929, col: 8, offset: 92172},
 																		expr: &anyMatcher{
-																			line: 2928, col: 9, offset: 92141,
+																			line: 2929, col: 9, offset: 92173,
 																		},
 																	},
 																},
@@ -6471,10 +6471,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 786, col: 8, offset: 25291},
 																		expr: &actionExpr{
-																			pos: position{line: 2909, col: 10, offset: 91792},
+																			pos: position{line: 2910, col: 10, offset: 91824},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2909, col: 10, offset: 91792},
+																				pos:        position{line: 2910, col: 10, offset: 91824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6483,28 +6483,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2931, col: 8, offset: 92190},
+																		pos: position{line: 2932, col: 8, offset: 92222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
+																				pos: position{line: 2919, col: 12, offset: 91995},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6513,9 +6513,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2928, col: 8, offset: 92140},
+																				pos: position{line: 2929, col: 8, offset: 92172},
 																				expr: &anyMatcher{
-																					line: 2928, col: 9, offset: 92141,
+																					line: 2929, col: 9, offset: 92173,
 																				},
 																			},
 																		},
@@ -6587,10 +6587,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 786, col: 8, offset: 25291},
 																												expr: &actionExpr{
-																													pos: position{line: 2909, col: 10, offset: 91792},
+																													pos: position{line: 2910, col: 10, offset: 91824},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2909, col: 10, offset: 91792},
+																														pos:        position{line: 2910, col: 10, offset: 91824},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6599,28 +6599,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2931, col: 8, offset: 92190},
+																												pos: position{line: 2932, col: 8, offset: 92222},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2918, col: 12, offset: 91963},
+																														pos: position{line: 2919, col: 12, offset: 91995},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2918, col: 13, offset: 91964},
+																															pos: position{line: 2919, col: 13, offset: 91996},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2918, col: 13, offset: 91964},
+																																	pos:        position{line: 2919, col: 13, offset: 91996},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2918, col: 20, offset: 91971},
+																																	pos:        position{line: 2919, col: 20, offset: 92003},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2918, col: 29, offset: 91980},
+																																	pos:        position{line: 2919, col: 29, offset: 92012},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6629,9 +6629,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2928, col: 8, offset: 92140},
+																														pos: position{line: 2929, col: 8, offset: 92172},
 																														expr: &anyMatcher{
-																															line: 2928, col: 9, offset: 92141,
+																															line: 2929, col: 9, offset: 92173,
 																														},
 																													},
 																												},
@@ -6647,9 +6647,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2928, col: 8, offset: 92140},
+																						pos: position{line: 2929, col: 8, offset: 92172},
 																						expr: &anyMatcher{
-																							line: 2928, col: 9, offset: 92141,
+																							line: 2929, col: 9, offset: 92173,
 																						},
 																					},
 																				},
@@ -6665,21 +6665,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2926, col: 11, offset: 92126},
+																							pos: position{line: 2927, col: 11, offset: 92158},
 																							expr: &anyMatcher{
-																								line: 2926, col: 13, offset: 92128,
+																								line: 2927, col: 13, offset: 92160,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2855, col: 13, offset: 90318},
+																								pos: position{line: 2856, col: 13, offset: 90350},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2855, col: 13, offset: 90318},
+																									pos: position{line: 2856, col: 13, offset: 90350},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2855, col: 13, offset: 90318},
+																										pos:        position{line: 2856, col: 13, offset: 90350},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6689,28 +6689,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
+																									pos: position{line: 2919, col: 12, offset: 91995},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6719,9 +6719,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -6786,10 +6786,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 786, col: 8, offset: 25291},
 																								expr: &actionExpr{
-																									pos: position{line: 2909, col: 10, offset: 91792},
+																									pos: position{line: 2910, col: 10, offset: 91824},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2909, col: 10, offset: 91792},
+																										pos:        position{line: 2910, col: 10, offset: 91824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6798,28 +6798,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2931, col: 8, offset: 92190},
+																								pos: position{line: 2932, col: 8, offset: 92222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2918, col: 12, offset: 91963},
+																										pos: position{line: 2919, col: 12, offset: 91995},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2918, col: 13, offset: 91964},
+																											pos: position{line: 2919, col: 13, offset: 91996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 13, offset: 91964},
+																													pos:        position{line: 2919, col: 13, offset: 91996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 20, offset: 91971},
+																													pos:        position{line: 2919, col: 20, offset: 92003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 29, offset: 91980},
+																													pos:        position{line: 2919, col: 29, offset: 92012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6828,9 +6828,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2928, col: 8, offset: 92140},
+																										pos: position{line: 2929, col: 8, offset: 92172},
 																										expr: &anyMatcher{
-																											line: 2928, col: 9, offset: 92141,
+																											line: 2929, col: 9, offset: 92173,
 																										},
 																									},
 																								},
@@ -6846,9 +6846,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2928, col: 8, offset: 92140},
+																		pos: position{line: 2929, col: 8, offset: 92172},
 																		expr: &anyMatcher{
-																			line: 2928, col: 9, offset: 92141,
+																			line: 2929, col: 9, offset: 92173,
 																		},
 																	},
 																},
@@ -6882,18 +6882,18 @@ var g = &grammar{
 																				pos: position{line: 678, col: 14, offset: 21586},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2926, col: 11, offset: 92126},
+																						pos: position{line: 2927, col: 11, offset: 92158},
 																						expr: &anyMatcher{
-																							line: 2926, col: 13, offset: 92128,
+																							line: 2927, col: 13, offset: 92160,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 678, col: 21, offset: 21593},
 																						expr: &actionExpr{
-																							pos: position{line: 2909, col: 10, offset: 91792},
+																							pos: position{line: 2910, col: 10, offset: 91824},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2909, col: 10, offset: 91792},
+																								pos:        position{line: 2910, col: 10, offset: 91824},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6902,28 +6902,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2931, col: 8, offset: 92190},
+																						pos: position{line: 2932, col: 8, offset: 92222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2918, col: 12, offset: 91963},
+																								pos: position{line: 2919, col: 12, offset: 91995},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2918, col: 13, offset: 91964},
+																									pos: position{line: 2919, col: 13, offset: 91996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 13, offset: 91964},
+																											pos:        position{line: 2919, col: 13, offset: 91996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 20, offset: 91971},
+																											pos:        position{line: 2919, col: 20, offset: 92003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 29, offset: 91980},
+																											pos:        position{line: 2919, col: 29, offset: 92012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6932,9 +6932,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2928, col: 8, offset: 92140},
+																								pos: position{line: 2929, col: 8, offset: 92172},
 																								expr: &anyMatcher{
-																									line: 2928, col: 9, offset: 92141,
+																									line: 2929, col: 9, offset: 92173,
 																								},
 																							},
 																						},
@@ -6953,12 +6953,12 @@ var g = &grammar{
 																		pos:   position{line: 985, col: 5, offset: 30781},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2859, col: 14, offset: 90385},
+																			pos: position{line: 2860, col: 14, offset: 90417},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2859, col: 14, offset: 90385},
+																				pos: position{line: 2860, col: 14, offset: 90417},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2859, col: 14, offset: 90385},
+																					pos:        position{line: 2860, col: 14, offset: 90417},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -6968,28 +6968,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2931, col: 8, offset: 92190},
+																		pos: position{line: 2932, col: 8, offset: 92222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
+																				pos: position{line: 2919, col: 12, offset: 91995},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6998,9 +6998,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2928, col: 8, offset: 92140},
+																				pos: position{line: 2929, col: 8, offset: 92172},
 																				expr: &anyMatcher{
-																					line: 2928, col: 9, offset: 92141,
+																					line: 2929, col: 9, offset: 92173,
 																				},
 																			},
 																		},
@@ -7032,18 +7032,18 @@ var g = &grammar{
 																							pos: position{line: 678, col: 14, offset: 21586},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2926, col: 11, offset: 92126},
+																									pos: position{line: 2927, col: 11, offset: 92158},
 																									expr: &anyMatcher{
-																										line: 2926, col: 13, offset: 92128,
+																										line: 2927, col: 13, offset: 92160,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 678, col: 21, offset: 21593},
 																									expr: &actionExpr{
-																										pos: position{line: 2909, col: 10, offset: 91792},
+																										pos: position{line: 2910, col: 10, offset: 91824},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2909, col: 10, offset: 91792},
+																											pos:        position{line: 2910, col: 10, offset: 91824},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7052,28 +7052,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2931, col: 8, offset: 92190},
+																									pos: position{line: 2932, col: 8, offset: 92222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2918, col: 12, offset: 91963},
+																											pos: position{line: 2919, col: 12, offset: 91995},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2918, col: 13, offset: 91964},
+																												pos: position{line: 2919, col: 13, offset: 91996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 13, offset: 91964},
+																														pos:        position{line: 2919, col: 13, offset: 91996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 20, offset: 91971},
+																														pos:        position{line: 2919, col: 20, offset: 92003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 29, offset: 91980},
+																														pos:        position{line: 2919, col: 29, offset: 92012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7082,9 +7082,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2928, col: 8, offset: 92140},
+																											pos: position{line: 2929, col: 8, offset: 92172},
 																											expr: &anyMatcher{
-																												line: 2928, col: 9, offset: 92141,
+																												line: 2929, col: 9, offset: 92173,
 																											},
 																										},
 																									},
@@ -7103,12 +7103,12 @@ var g = &grammar{
 																					pos:   position{line: 985, col: 5, offset: 30781},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2859, col: 14, offset: 90385},
+																						pos: position{line: 2860, col: 14, offset: 90417},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2859, col: 14, offset: 90385},
+																							pos: position{line: 2860, col: 14, offset: 90417},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2859, col: 14, offset: 90385},
+																								pos:        position{line: 2860, col: 14, offset: 90417},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7118,28 +7118,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2931, col: 8, offset: 92190},
+																					pos: position{line: 2932, col: 8, offset: 92222},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2918, col: 12, offset: 91963},
+																							pos: position{line: 2919, col: 12, offset: 91995},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2918, col: 13, offset: 91964},
+																								pos: position{line: 2919, col: 13, offset: 91996},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 13, offset: 91964},
+																										pos:        position{line: 2919, col: 13, offset: 91996},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 20, offset: 91971},
+																										pos:        position{line: 2919, col: 20, offset: 92003},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 29, offset: 91980},
+																										pos:        position{line: 2919, col: 29, offset: 92012},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7148,9 +7148,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2928, col: 8, offset: 92140},
+																							pos: position{line: 2929, col: 8, offset: 92172},
 																							expr: &anyMatcher{
-																								line: 2928, col: 9, offset: 92141,
+																								line: 2929, col: 9, offset: 92173,
 																							},
 																						},
 																					},
@@ -7159,21 +7159,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1791, col: 5, offset: 57852},
+																		pos: position{line: 1792, col: 5, offset: 57884},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1791, col: 5, offset: 57852},
+																			pos: position{line: 1792, col: 5, offset: 57884},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1791, col: 5, offset: 57852},
+																					pos:   position{line: 1792, col: 5, offset: 57884},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2859, col: 14, offset: 90385},
+																						pos: position{line: 2860, col: 14, offset: 90417},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2859, col: 14, offset: 90385},
+																							pos: position{line: 2860, col: 14, offset: 90417},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2859, col: 14, offset: 90385},
+																								pos:        position{line: 2860, col: 14, offset: 90417},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7183,32 +7183,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1792, col: 5, offset: 57876},
+																					pos: position{line: 1793, col: 5, offset: 57908},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2931, col: 8, offset: 92190},
+																					pos: position{line: 2932, col: 8, offset: 92222},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2918, col: 12, offset: 91963},
+																							pos: position{line: 2919, col: 12, offset: 91995},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2918, col: 13, offset: 91964},
+																								pos: position{line: 2919, col: 13, offset: 91996},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 13, offset: 91964},
+																										pos:        position{line: 2919, col: 13, offset: 91996},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 20, offset: 91971},
+																										pos:        position{line: 2919, col: 20, offset: 92003},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 29, offset: 91980},
+																										pos:        position{line: 2919, col: 29, offset: 92012},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7217,9 +7217,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2928, col: 8, offset: 92140},
+																							pos: position{line: 2929, col: 8, offset: 92172},
 																							expr: &anyMatcher{
-																								line: 2928, col: 9, offset: 92141,
+																								line: 2929, col: 9, offset: 92173,
 																							},
 																						},
 																					},
@@ -7266,10 +7266,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 779, col: 8, offset: 25046},
 																		expr: &actionExpr{
-																			pos: position{line: 2909, col: 10, offset: 91792},
+																			pos: position{line: 2910, col: 10, offset: 91824},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2909, col: 10, offset: 91792},
+																				pos:        position{line: 2910, col: 10, offset: 91824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7278,28 +7278,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2931, col: 8, offset: 92190},
+																		pos: position{line: 2932, col: 8, offset: 92222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
+																				pos: position{line: 2919, col: 12, offset: 91995},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7308,9 +7308,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2928, col: 8, offset: 92140},
+																				pos: position{line: 2929, col: 8, offset: 92172},
 																				expr: &anyMatcher{
-																					line: 2928, col: 9, offset: 92141,
+																					line: 2929, col: 9, offset: 92173,
 																				},
 																			},
 																		},
@@ -7358,10 +7358,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 779, col: 8, offset: 25046},
 																									expr: &actionExpr{
-																										pos: position{line: 2909, col: 10, offset: 91792},
+																										pos: position{line: 2910, col: 10, offset: 91824},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2909, col: 10, offset: 91792},
+																											pos:        position{line: 2910, col: 10, offset: 91824},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7370,28 +7370,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2931, col: 8, offset: 92190},
+																									pos: position{line: 2932, col: 8, offset: 92222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2918, col: 12, offset: 91963},
+																											pos: position{line: 2919, col: 12, offset: 91995},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2918, col: 13, offset: 91964},
+																												pos: position{line: 2919, col: 13, offset: 91996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 13, offset: 91964},
+																														pos:        position{line: 2919, col: 13, offset: 91996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 20, offset: 91971},
+																														pos:        position{line: 2919, col: 20, offset: 92003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 29, offset: 91980},
+																														pos:        position{line: 2919, col: 29, offset: 92012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7400,9 +7400,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2928, col: 8, offset: 92140},
+																											pos: position{line: 2929, col: 8, offset: 92172},
 																											expr: &anyMatcher{
-																												line: 2928, col: 9, offset: 92141,
+																												line: 2929, col: 9, offset: 92173,
 																											},
 																										},
 																									},
@@ -7411,9 +7411,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2928, col: 8, offset: 92140},
+																						pos: position{line: 2929, col: 8, offset: 92172},
 																						expr: &anyMatcher{
-																							line: 2928, col: 9, offset: 92141,
+																							line: 2929, col: 9, offset: 92173,
 																						},
 																					},
 																				},
@@ -7429,21 +7429,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2926, col: 11, offset: 92126},
+																							pos: position{line: 2927, col: 11, offset: 92158},
 																							expr: &anyMatcher{
-																								line: 2926, col: 13, offset: 92128,
+																								line: 2927, col: 13, offset: 92160,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2855, col: 13, offset: 90318},
+																								pos: position{line: 2856, col: 13, offset: 90350},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2855, col: 13, offset: 90318},
+																									pos: position{line: 2856, col: 13, offset: 90350},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2855, col: 13, offset: 90318},
+																										pos:        position{line: 2856, col: 13, offset: 90350},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7453,28 +7453,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
+																									pos: position{line: 2919, col: 12, offset: 91995},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7483,9 +7483,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -7530,10 +7530,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 779, col: 8, offset: 25046},
 																					expr: &actionExpr{
-																						pos: position{line: 2909, col: 10, offset: 91792},
+																						pos: position{line: 2910, col: 10, offset: 91824},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 91792},
+																							pos:        position{line: 2910, col: 10, offset: 91824},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7542,28 +7542,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2931, col: 8, offset: 92190},
+																					pos: position{line: 2932, col: 8, offset: 92222},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2918, col: 12, offset: 91963},
+																							pos: position{line: 2919, col: 12, offset: 91995},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2918, col: 13, offset: 91964},
+																								pos: position{line: 2919, col: 13, offset: 91996},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 13, offset: 91964},
+																										pos:        position{line: 2919, col: 13, offset: 91996},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 20, offset: 91971},
+																										pos:        position{line: 2919, col: 20, offset: 92003},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 29, offset: 91980},
+																										pos:        position{line: 2919, col: 29, offset: 92012},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7572,9 +7572,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2928, col: 8, offset: 92140},
+																							pos: position{line: 2929, col: 8, offset: 92172},
 																							expr: &anyMatcher{
-																								line: 2928, col: 9, offset: 92141,
+																								line: 2929, col: 9, offset: 92173,
 																							},
 																						},
 																					},
@@ -7583,9 +7583,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2928, col: 8, offset: 92140},
+																		pos: position{line: 2929, col: 8, offset: 92172},
 																		expr: &anyMatcher{
-																			line: 2928, col: 9, offset: 92141,
+																			line: 2929, col: 9, offset: 92173,
 																		},
 																	},
 																},
@@ -7641,10 +7641,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 793, col: 8, offset: 25543},
 																		expr: &actionExpr{
-																			pos: position{line: 2909, col: 10, offset: 91792},
+																			pos: position{line: 2910, col: 10, offset: 91824},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2909, col: 10, offset: 91792},
+																				pos:        position{line: 2910, col: 10, offset: 91824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7653,28 +7653,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2931, col: 8, offset: 92190},
+																		pos: position{line: 2932, col: 8, offset: 92222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
+																				pos: position{line: 2919, col: 12, offset: 91995},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7683,9 +7683,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2928, col: 8, offset: 92140},
+																				pos: position{line: 2929, col: 8, offset: 92172},
 																				expr: &anyMatcher{
-																					line: 2928, col: 9, offset: 92141,
+																					line: 2929, col: 9, offset: 92173,
 																				},
 																			},
 																		},
@@ -7757,10 +7757,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 793, col: 8, offset: 25543},
 																												expr: &actionExpr{
-																													pos: position{line: 2909, col: 10, offset: 91792},
+																													pos: position{line: 2910, col: 10, offset: 91824},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2909, col: 10, offset: 91792},
+																														pos:        position{line: 2910, col: 10, offset: 91824},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7769,28 +7769,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2931, col: 8, offset: 92190},
+																												pos: position{line: 2932, col: 8, offset: 92222},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2918, col: 12, offset: 91963},
+																														pos: position{line: 2919, col: 12, offset: 91995},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2918, col: 13, offset: 91964},
+																															pos: position{line: 2919, col: 13, offset: 91996},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2918, col: 13, offset: 91964},
+																																	pos:        position{line: 2919, col: 13, offset: 91996},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2918, col: 20, offset: 91971},
+																																	pos:        position{line: 2919, col: 20, offset: 92003},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2918, col: 29, offset: 91980},
+																																	pos:        position{line: 2919, col: 29, offset: 92012},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7799,9 +7799,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2928, col: 8, offset: 92140},
+																														pos: position{line: 2929, col: 8, offset: 92172},
 																														expr: &anyMatcher{
-																															line: 2928, col: 9, offset: 92141,
+																															line: 2929, col: 9, offset: 92173,
 																														},
 																													},
 																												},
@@ -7817,9 +7817,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2928, col: 8, offset: 92140},
+																						pos: position{line: 2929, col: 8, offset: 92172},
 																						expr: &anyMatcher{
-																							line: 2928, col: 9, offset: 92141,
+																							line: 2929, col: 9, offset: 92173,
 																						},
 																					},
 																				},
@@ -7835,21 +7835,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2926, col: 11, offset: 92126},
+																							pos: position{line: 2927, col: 11, offset: 92158},
 																							expr: &anyMatcher{
-																								line: 2926, col: 13, offset: 92128,
+																								line: 2927, col: 13, offset: 92160,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2855, col: 13, offset: 90318},
+																								pos: position{line: 2856, col: 13, offset: 90350},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2855, col: 13, offset: 90318},
+																									pos: position{line: 2856, col: 13, offset: 90350},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2855, col: 13, offset: 90318},
+																										pos:        position{line: 2856, col: 13, offset: 90350},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7859,28 +7859,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
+																									pos: position{line: 2919, col: 12, offset: 91995},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7889,9 +7889,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -7956,10 +7956,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 793, col: 8, offset: 25543},
 																								expr: &actionExpr{
-																									pos: position{line: 2909, col: 10, offset: 91792},
+																									pos: position{line: 2910, col: 10, offset: 91824},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2909, col: 10, offset: 91792},
+																										pos:        position{line: 2910, col: 10, offset: 91824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7968,28 +7968,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2931, col: 8, offset: 92190},
+																								pos: position{line: 2932, col: 8, offset: 92222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2918, col: 12, offset: 91963},
+																										pos: position{line: 2919, col: 12, offset: 91995},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2918, col: 13, offset: 91964},
+																											pos: position{line: 2919, col: 13, offset: 91996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 13, offset: 91964},
+																													pos:        position{line: 2919, col: 13, offset: 91996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 20, offset: 91971},
+																													pos:        position{line: 2919, col: 20, offset: 92003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 29, offset: 91980},
+																													pos:        position{line: 2919, col: 29, offset: 92012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -7998,9 +7998,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2928, col: 8, offset: 92140},
+																										pos: position{line: 2929, col: 8, offset: 92172},
 																										expr: &anyMatcher{
-																											line: 2928, col: 9, offset: 92141,
+																											line: 2929, col: 9, offset: 92173,
 																										},
 																									},
 																								},
@@ -8016,9 +8016,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2928, col: 8, offset: 92140},
+																		pos: position{line: 2929, col: 8, offset: 92172},
 																		expr: &anyMatcher{
-																			line: 2928, col: 9, offset: 92141,
+																			line: 2929, col: 9, offset: 92173,
 																		},
 																	},
 																},
@@ -8074,10 +8074,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 800, col: 8, offset: 25793},
 																		expr: &actionExpr{
-																			pos: position{line: 2909, col: 10, offset: 91792},
+																			pos: position{line: 2910, col: 10, offset: 91824},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2909, col: 10, offset: 91792},
+																				pos:        position{line: 2910, col: 10, offset: 91824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8086,28 +8086,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2931, col: 8, offset: 92190},
+																		pos: position{line: 2932, col: 8, offset: 92222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
+																				pos: position{line: 2919, col: 12, offset: 91995},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8116,9 +8116,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2928, col: 8, offset: 92140},
+																				pos: position{line: 2929, col: 8, offset: 92172},
 																				expr: &anyMatcher{
-																					line: 2928, col: 9, offset: 92141,
+																					line: 2929, col: 9, offset: 92173,
 																				},
 																			},
 																		},
@@ -8190,10 +8190,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 800, col: 8, offset: 25793},
 																												expr: &actionExpr{
-																													pos: position{line: 2909, col: 10, offset: 91792},
+																													pos: position{line: 2910, col: 10, offset: 91824},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2909, col: 10, offset: 91792},
+																														pos:        position{line: 2910, col: 10, offset: 91824},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8202,28 +8202,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2931, col: 8, offset: 92190},
+																												pos: position{line: 2932, col: 8, offset: 92222},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2918, col: 12, offset: 91963},
+																														pos: position{line: 2919, col: 12, offset: 91995},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2918, col: 13, offset: 91964},
+																															pos: position{line: 2919, col: 13, offset: 91996},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2918, col: 13, offset: 91964},
+																																	pos:        position{line: 2919, col: 13, offset: 91996},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2918, col: 20, offset: 91971},
+																																	pos:        position{line: 2919, col: 20, offset: 92003},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2918, col: 29, offset: 91980},
+																																	pos:        position{line: 2919, col: 29, offset: 92012},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8232,9 +8232,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2928, col: 8, offset: 92140},
+																														pos: position{line: 2929, col: 8, offset: 92172},
 																														expr: &anyMatcher{
-																															line: 2928, col: 9, offset: 92141,
+																															line: 2929, col: 9, offset: 92173,
 																														},
 																													},
 																												},
@@ -8250,9 +8250,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2928, col: 8, offset: 92140},
+																						pos: position{line: 2929, col: 8, offset: 92172},
 																						expr: &anyMatcher{
-																							line: 2928, col: 9, offset: 92141,
+																							line: 2929, col: 9, offset: 92173,
 																						},
 																					},
 																				},
@@ -8268,21 +8268,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2926, col: 11, offset: 92126},
+																							pos: position{line: 2927, col: 11, offset: 92158},
 																							expr: &anyMatcher{
-																								line: 2926, col: 13, offset: 92128,
+																								line: 2927, col: 13, offset: 92160,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2855, col: 13, offset: 90318},
+																								pos: position{line: 2856, col: 13, offset: 90350},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2855, col: 13, offset: 90318},
+																									pos: position{line: 2856, col: 13, offset: 90350},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2855, col: 13, offset: 90318},
+																										pos:        position{line: 2856, col: 13, offset: 90350},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8292,28 +8292,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
+																									pos: position{line: 2919, col: 12, offset: 91995},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8322,9 +8322,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -8389,10 +8389,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 800, col: 8, offset: 25793},
 																								expr: &actionExpr{
-																									pos: position{line: 2909, col: 10, offset: 91792},
+																									pos: position{line: 2910, col: 10, offset: 91824},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2909, col: 10, offset: 91792},
+																										pos:        position{line: 2910, col: 10, offset: 91824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8401,28 +8401,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2931, col: 8, offset: 92190},
+																								pos: position{line: 2932, col: 8, offset: 92222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2918, col: 12, offset: 91963},
+																										pos: position{line: 2919, col: 12, offset: 91995},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2918, col: 13, offset: 91964},
+																											pos: position{line: 2919, col: 13, offset: 91996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 13, offset: 91964},
+																													pos:        position{line: 2919, col: 13, offset: 91996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 20, offset: 91971},
+																													pos:        position{line: 2919, col: 20, offset: 92003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 29, offset: 91980},
+																													pos:        position{line: 2919, col: 29, offset: 92012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8431,9 +8431,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2928, col: 8, offset: 92140},
+																										pos: position{line: 2929, col: 8, offset: 92172},
 																										expr: &anyMatcher{
-																											line: 2928, col: 9, offset: 92141,
+																											line: 2929, col: 9, offset: 92173,
 																										},
 																									},
 																								},
@@ -8449,9 +8449,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2928, col: 8, offset: 92140},
+																		pos: position{line: 2929, col: 8, offset: 92172},
 																		expr: &anyMatcher{
-																			line: 2928, col: 9, offset: 92141,
+																			line: 2929, col: 9, offset: 92173,
 																		},
 																	},
 																},
@@ -8507,10 +8507,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 807, col: 8, offset: 26039},
 																		expr: &actionExpr{
-																			pos: position{line: 2909, col: 10, offset: 91792},
+																			pos: position{line: 2910, col: 10, offset: 91824},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2909, col: 10, offset: 91792},
+																				pos:        position{line: 2910, col: 10, offset: 91824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8519,28 +8519,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2931, col: 8, offset: 92190},
+																		pos: position{line: 2932, col: 8, offset: 92222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
+																				pos: position{line: 2919, col: 12, offset: 91995},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8549,9 +8549,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2928, col: 8, offset: 92140},
+																				pos: position{line: 2929, col: 8, offset: 92172},
 																				expr: &anyMatcher{
-																					line: 2928, col: 9, offset: 92141,
+																					line: 2929, col: 9, offset: 92173,
 																				},
 																			},
 																		},
@@ -8623,10 +8623,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 807, col: 8, offset: 26039},
 																												expr: &actionExpr{
-																													pos: position{line: 2909, col: 10, offset: 91792},
+																													pos: position{line: 2910, col: 10, offset: 91824},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2909, col: 10, offset: 91792},
+																														pos:        position{line: 2910, col: 10, offset: 91824},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8635,28 +8635,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2931, col: 8, offset: 92190},
+																												pos: position{line: 2932, col: 8, offset: 92222},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2918, col: 12, offset: 91963},
+																														pos: position{line: 2919, col: 12, offset: 91995},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2918, col: 13, offset: 91964},
+																															pos: position{line: 2919, col: 13, offset: 91996},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2918, col: 13, offset: 91964},
+																																	pos:        position{line: 2919, col: 13, offset: 91996},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2918, col: 20, offset: 91971},
+																																	pos:        position{line: 2919, col: 20, offset: 92003},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2918, col: 29, offset: 91980},
+																																	pos:        position{line: 2919, col: 29, offset: 92012},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8665,9 +8665,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2928, col: 8, offset: 92140},
+																														pos: position{line: 2929, col: 8, offset: 92172},
 																														expr: &anyMatcher{
-																															line: 2928, col: 9, offset: 92141,
+																															line: 2929, col: 9, offset: 92173,
 																														},
 																													},
 																												},
@@ -8683,9 +8683,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2928, col: 8, offset: 92140},
+																						pos: position{line: 2929, col: 8, offset: 92172},
 																						expr: &anyMatcher{
-																							line: 2928, col: 9, offset: 92141,
+																							line: 2929, col: 9, offset: 92173,
 																						},
 																					},
 																				},
@@ -8701,21 +8701,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2926, col: 11, offset: 92126},
+																							pos: position{line: 2927, col: 11, offset: 92158},
 																							expr: &anyMatcher{
-																								line: 2926, col: 13, offset: 92128,
+																								line: 2927, col: 13, offset: 92160,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2855, col: 13, offset: 90318},
+																								pos: position{line: 2856, col: 13, offset: 90350},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2855, col: 13, offset: 90318},
+																									pos: position{line: 2856, col: 13, offset: 90350},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2855, col: 13, offset: 90318},
+																										pos:        position{line: 2856, col: 13, offset: 90350},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8725,28 +8725,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
+																									pos: position{line: 2919, col: 12, offset: 91995},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8755,9 +8755,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -8822,10 +8822,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 807, col: 8, offset: 26039},
 																								expr: &actionExpr{
-																									pos: position{line: 2909, col: 10, offset: 91792},
+																									pos: position{line: 2910, col: 10, offset: 91824},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2909, col: 10, offset: 91792},
+																										pos:        position{line: 2910, col: 10, offset: 91824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8834,28 +8834,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2931, col: 8, offset: 92190},
+																								pos: position{line: 2932, col: 8, offset: 92222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2918, col: 12, offset: 91963},
+																										pos: position{line: 2919, col: 12, offset: 91995},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2918, col: 13, offset: 91964},
+																											pos: position{line: 2919, col: 13, offset: 91996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 13, offset: 91964},
+																													pos:        position{line: 2919, col: 13, offset: 91996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 20, offset: 91971},
+																													pos:        position{line: 2919, col: 20, offset: 92003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 29, offset: 91980},
+																													pos:        position{line: 2919, col: 29, offset: 92012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8864,9 +8864,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2928, col: 8, offset: 92140},
+																										pos: position{line: 2929, col: 8, offset: 92172},
 																										expr: &anyMatcher{
-																											line: 2928, col: 9, offset: 92141,
+																											line: 2929, col: 9, offset: 92173,
 																										},
 																									},
 																								},
@@ -8882,9 +8882,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2928, col: 8, offset: 92140},
+																		pos: position{line: 2929, col: 8, offset: 92172},
 																		expr: &anyMatcher{
-																			line: 2928, col: 9, offset: 92141,
+																			line: 2929, col: 9, offset: 92173,
 																		},
 																	},
 																},
@@ -8895,52 +8895,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2754, col: 18, offset: 87382},
+											pos: position{line: 2755, col: 18, offset: 87414},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2754, col: 18, offset: 87382},
+												pos: position{line: 2755, col: 18, offset: 87414},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2755, col: 9, offset: 87392},
+														pos: position{line: 2756, col: 9, offset: 87424},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2755, col: 9, offset: 87392},
+																pos:        position{line: 2756, col: 9, offset: 87424},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2756, col: 11, offset: 87428},
+																pos:        position{line: 2757, col: 11, offset: 87460},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2756, col: 19, offset: 87436},
+																pos:        position{line: 2757, col: 19, offset: 87468},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2756, col: 29, offset: 87446},
+																pos:        position{line: 2757, col: 29, offset: 87478},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2756, col: 37, offset: 87454},
+																pos:        position{line: 2757, col: 37, offset: 87486},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2756, col: 47, offset: 87464},
+																pos:        position{line: 2757, col: 47, offset: 87496},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2756, col: 55, offset: 87472},
+																pos:        position{line: 2757, col: 55, offset: 87504},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -8948,12 +8948,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2757, col: 11, offset: 87530},
+														pos: position{line: 2758, col: 11, offset: 87562},
 														expr: &actionExpr{
-															pos: position{line: 2909, col: 10, offset: 91792},
+															pos: position{line: 2910, col: 10, offset: 91824},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2909, col: 10, offset: 91792},
+																pos:        position{line: 2910, col: 10, offset: 91824},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -8962,28 +8962,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2931, col: 8, offset: 92190},
+														pos: position{line: 2932, col: 8, offset: 92222},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2918, col: 12, offset: 91963},
+																pos: position{line: 2919, col: 12, offset: 91995},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2918, col: 13, offset: 91964},
+																	pos: position{line: 2919, col: 13, offset: 91996},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 13, offset: 91964},
+																			pos:        position{line: 2919, col: 13, offset: 91996},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 20, offset: 91971},
+																			pos:        position{line: 2919, col: 20, offset: 92003},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 29, offset: 91980},
+																			pos:        position{line: 2919, col: 29, offset: 92012},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -8992,36 +8992,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2928, col: 8, offset: 92140},
+																pos: position{line: 2929, col: 8, offset: 92172},
 																expr: &anyMatcher{
-																	line: 2928, col: 9, offset: 92141,
+																	line: 2929, col: 9, offset: 92173,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2931, col: 8, offset: 92190},
+														pos: position{line: 2932, col: 8, offset: 92222},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2918, col: 12, offset: 91963},
+																pos: position{line: 2919, col: 12, offset: 91995},
 																run: (*parser).callonDocumentFragment1098,
 																expr: &choiceExpr{
-																	pos: position{line: 2918, col: 13, offset: 91964},
+																	pos: position{line: 2919, col: 13, offset: 91996},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 13, offset: 91964},
+																			pos:        position{line: 2919, col: 13, offset: 91996},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 20, offset: 91971},
+																			pos:        position{line: 2919, col: 20, offset: 92003},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 29, offset: 91980},
+																			pos:        position{line: 2919, col: 29, offset: 92012},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9030,9 +9030,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2928, col: 8, offset: 92140},
+																pos: position{line: 2929, col: 8, offset: 92172},
 																expr: &anyMatcher{
-																	line: 2928, col: 9, offset: 92141,
+																	line: 2929, col: 9, offset: 92173,
 																},
 															},
 														},
@@ -9045,24 +9045,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2638, col: 5, offset: 84139},
+											pos: position{line: 2639, col: 5, offset: 84171},
 											run: (*parser).callonDocumentFragment1106,
 											expr: &seqExpr{
-												pos: position{line: 2638, col: 5, offset: 84139},
+												pos: position{line: 2639, col: 5, offset: 84171},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2644, col: 19, offset: 84316},
+														pos:        position{line: 2645, col: 19, offset: 84348},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2644, col: 26, offset: 84323},
+														pos: position{line: 2645, col: 26, offset: 84355},
 														expr: &actionExpr{
-															pos: position{line: 2909, col: 10, offset: 91792},
+															pos: position{line: 2910, col: 10, offset: 91824},
 															run: (*parser).callonDocumentFragment1110,
 															expr: &charClassMatcher{
-																pos:        position{line: 2909, col: 10, offset: 91792},
+																pos:        position{line: 2910, col: 10, offset: 91824},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9071,28 +9071,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2931, col: 8, offset: 92190},
+														pos: position{line: 2932, col: 8, offset: 92222},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2918, col: 12, offset: 91963},
+																pos: position{line: 2919, col: 12, offset: 91995},
 																run: (*parser).callonDocumentFragment1113,
 																expr: &choiceExpr{
-																	pos: position{line: 2918, col: 13, offset: 91964},
+																	pos: position{line: 2919, col: 13, offset: 91996},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 13, offset: 91964},
+																			pos:        position{line: 2919, col: 13, offset: 91996},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 20, offset: 91971},
+																			pos:        position{line: 2919, col: 20, offset: 92003},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 29, offset: 91980},
+																			pos:        position{line: 2919, col: 29, offset: 92012},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9101,20 +9101,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2928, col: 8, offset: 92140},
+																pos: position{line: 2929, col: 8, offset: 92172},
 																expr: &anyMatcher{
-																	line: 2928, col: 9, offset: 92141,
+																	line: 2929, col: 9, offset: 92173,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2639, col: 5, offset: 84163},
+														pos:   position{line: 2640, col: 5, offset: 84195},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2639, col: 11, offset: 84169},
+															pos: position{line: 2640, col: 11, offset: 84201},
 															expr: &choiceExpr{
-																pos: position{line: 2639, col: 12, offset: 84170},
+																pos: position{line: 2640, col: 12, offset: 84202},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 678, col: 14, offset: 21586},
@@ -9123,18 +9123,18 @@ var g = &grammar{
 																			pos: position{line: 678, col: 14, offset: 21586},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2926, col: 11, offset: 92126},
+																					pos: position{line: 2927, col: 11, offset: 92158},
 																					expr: &anyMatcher{
-																						line: 2926, col: 13, offset: 92128,
+																						line: 2927, col: 13, offset: 92160,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 678, col: 21, offset: 21593},
 																					expr: &actionExpr{
-																						pos: position{line: 2909, col: 10, offset: 91792},
+																						pos: position{line: 2910, col: 10, offset: 91824},
 																						run: (*parser).callonDocumentFragment1128,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 91792},
+																							pos:        position{line: 2910, col: 10, offset: 91824},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9143,28 +9143,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2931, col: 8, offset: 92190},
+																					pos: position{line: 2932, col: 8, offset: 92222},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2918, col: 12, offset: 91963},
+																							pos: position{line: 2919, col: 12, offset: 91995},
 																							run: (*parser).callonDocumentFragment1131,
 																							expr: &choiceExpr{
-																								pos: position{line: 2918, col: 13, offset: 91964},
+																								pos: position{line: 2919, col: 13, offset: 91996},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 13, offset: 91964},
+																										pos:        position{line: 2919, col: 13, offset: 91996},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 20, offset: 91971},
+																										pos:        position{line: 2919, col: 20, offset: 92003},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 29, offset: 91980},
+																										pos:        position{line: 2919, col: 29, offset: 92012},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9173,9 +9173,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2928, col: 8, offset: 92140},
+																							pos: position{line: 2929, col: 8, offset: 92172},
 																							expr: &anyMatcher{
-																								line: 2928, col: 9, offset: 92141,
+																								line: 2929, col: 9, offset: 92173,
 																							},
 																						},
 																					},
@@ -9184,36 +9184,36 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2512, col: 22, offset: 80570},
+																		pos: position{line: 2513, col: 22, offset: 80602},
 																		run: (*parser).callonDocumentFragment1138,
 																		expr: &seqExpr{
-																			pos: position{line: 2512, col: 22, offset: 80570},
+																			pos: position{line: 2513, col: 22, offset: 80602},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2517, col: 31, offset: 80820},
+																					pos:        position{line: 2518, col: 31, offset: 80852},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																				&notExpr{
-																					pos: position{line: 2517, col: 36, offset: 80825},
+																					pos: position{line: 2518, col: 36, offset: 80857},
 																					expr: &litMatcher{
-																						pos:        position{line: 2517, col: 37, offset: 80826},
+																						pos:        position{line: 2518, col: 37, offset: 80858},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2512, col: 49, offset: 80597},
+																					pos:   position{line: 2513, col: 49, offset: 80629},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2855, col: 13, offset: 90318},
+																						pos: position{line: 2856, col: 13, offset: 90350},
 																						run: (*parser).callonDocumentFragment1144,
 																						expr: &zeroOrMoreExpr{
-																							pos: position{line: 2855, col: 13, offset: 90318},
+																							pos: position{line: 2856, col: 13, offset: 90350},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2855, col: 13, offset: 90318},
+																								pos:        position{line: 2856, col: 13, offset: 90350},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -9223,28 +9223,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2931, col: 8, offset: 92190},
+																					pos: position{line: 2932, col: 8, offset: 92222},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2918, col: 12, offset: 91963},
+																							pos: position{line: 2919, col: 12, offset: 91995},
 																							run: (*parser).callonDocumentFragment1148,
 																							expr: &choiceExpr{
-																								pos: position{line: 2918, col: 13, offset: 91964},
+																								pos: position{line: 2919, col: 13, offset: 91996},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 13, offset: 91964},
+																										pos:        position{line: 2919, col: 13, offset: 91996},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 20, offset: 91971},
+																										pos:        position{line: 2919, col: 20, offset: 92003},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 29, offset: 91980},
+																										pos:        position{line: 2919, col: 29, offset: 92012},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9253,9 +9253,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2928, col: 8, offset: 92140},
+																							pos: position{line: 2929, col: 8, offset: 92172},
 																							expr: &anyMatcher{
-																								line: 2928, col: 9, offset: 92141,
+																								line: 2929, col: 9, offset: 92173,
 																							},
 																						},
 																					},
@@ -9264,32 +9264,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2651, col: 5, offset: 84435},
+																		pos: position{line: 2652, col: 5, offset: 84467},
 																		run: (*parser).callonDocumentFragment1155,
 																		expr: &seqExpr{
-																			pos: position{line: 2651, col: 5, offset: 84435},
+																			pos: position{line: 2652, col: 5, offset: 84467},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2651, col: 5, offset: 84435},
+																					pos: position{line: 2652, col: 5, offset: 84467},
 																					expr: &choiceExpr{
-																						pos: position{line: 2648, col: 22, offset: 84396},
+																						pos: position{line: 2649, col: 22, offset: 84428},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2644, col: 19, offset: 84316},
+																								pos: position{line: 2645, col: 19, offset: 84348},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2644, col: 19, offset: 84316},
+																										pos:        position{line: 2645, col: 19, offset: 84348},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2644, col: 26, offset: 84323},
+																										pos: position{line: 2645, col: 26, offset: 84355},
 																										expr: &actionExpr{
-																											pos: position{line: 2909, col: 10, offset: 91792},
+																											pos: position{line: 2910, col: 10, offset: 91824},
 																											run: (*parser).callonDocumentFragment1162,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2909, col: 10, offset: 91792},
+																												pos:        position{line: 2910, col: 10, offset: 91824},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9298,28 +9298,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2931, col: 8, offset: 92190},
+																										pos: position{line: 2932, col: 8, offset: 92222},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2918, col: 12, offset: 91963},
+																												pos: position{line: 2919, col: 12, offset: 91995},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &choiceExpr{
-																													pos: position{line: 2918, col: 13, offset: 91964},
+																													pos: position{line: 2919, col: 13, offset: 91996},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2918, col: 13, offset: 91964},
+																															pos:        position{line: 2919, col: 13, offset: 91996},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2918, col: 20, offset: 91971},
+																															pos:        position{line: 2919, col: 20, offset: 92003},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2918, col: 29, offset: 91980},
+																															pos:        position{line: 2919, col: 29, offset: 92012},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9328,9 +9328,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2928, col: 8, offset: 92140},
+																												pos: position{line: 2929, col: 8, offset: 92172},
 																												expr: &anyMatcher{
-																													line: 2928, col: 9, offset: 92141,
+																													line: 2929, col: 9, offset: 92173,
 																												},
 																											},
 																										},
@@ -9338,59 +9338,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2928, col: 8, offset: 92140},
+																								pos: position{line: 2929, col: 8, offset: 92172},
 																								expr: &anyMatcher{
-																									line: 2928, col: 9, offset: 92141,
+																									line: 2929, col: 9, offset: 92173,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2652, col: 5, offset: 84458},
+																					pos:   position{line: 2653, col: 5, offset: 84490},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2653, col: 9, offset: 84476},
+																						pos: position{line: 2654, col: 9, offset: 84508},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2653, col: 10, offset: 84477},
+																								pos: position{line: 2654, col: 10, offset: 84509},
 																								run: (*parser).callonDocumentFragment1176,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2653, col: 10, offset: 84477},
+																									pos:   position{line: 2654, col: 10, offset: 84509},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2653, col: 17, offset: 84484},
+																										pos: position{line: 2654, col: 17, offset: 84516},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2661, col: 21, offset: 84680},
+																												pos: position{line: 2662, col: 21, offset: 84712},
 																												run: (*parser).callonDocumentFragment1179,
 																												expr: &seqExpr{
-																													pos: position{line: 2661, col: 21, offset: 84680},
+																													pos: position{line: 2662, col: 21, offset: 84712},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2661, col: 21, offset: 84680},
+																															pos:   position{line: 2662, col: 21, offset: 84712},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2661, col: 27, offset: 84686},
+																																pos: position{line: 2662, col: 27, offset: 84718},
 																																expr: &actionExpr{
-																																	pos: position{line: 2666, col: 5, offset: 84761},
+																																	pos: position{line: 2667, col: 5, offset: 84793},
 																																	run: (*parser).callonDocumentFragment1183,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2666, col: 5, offset: 84761},
+																																		pos: position{line: 2667, col: 5, offset: 84793},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2666, col: 5, offset: 84761},
+																																				pos:        position{line: 2667, col: 5, offset: 84793},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2666, col: 9, offset: 84765},
+																																				pos: position{line: 2667, col: 9, offset: 84797},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2909, col: 10, offset: 91792},
+																																					pos: position{line: 2910, col: 10, offset: 91824},
 																																					run: (*parser).callonDocumentFragment1187,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2909, col: 10, offset: 91792},
+																																						pos:        position{line: 2910, col: 10, offset: 91824},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9399,21 +9399,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2666, col: 16, offset: 84772},
+																																				pos:   position{line: 2667, col: 16, offset: 84804},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2672, col: 5, offset: 84972},
+																																					pos: position{line: 2673, col: 5, offset: 85004},
 																																					run: (*parser).callonDocumentFragment1190,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2672, col: 5, offset: 84972},
+																																						pos:   position{line: 2673, col: 5, offset: 85004},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2672, col: 14, offset: 84981},
+																																							pos: position{line: 2673, col: 14, offset: 85013},
 																																							run: (*parser).callonDocumentFragment1192,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2672, col: 14, offset: 84981},
+																																								pos: position{line: 2673, col: 14, offset: 85013},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2672, col: 14, offset: 84981},
+																																									pos:        position{line: 2673, col: 14, offset: 85013},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9430,28 +9430,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2931, col: 8, offset: 92190},
+																															pos: position{line: 2932, col: 8, offset: 92222},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2918, col: 12, offset: 91963},
+																																	pos: position{line: 2919, col: 12, offset: 91995},
 																																	run: (*parser).callonDocumentFragment1196,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2918, col: 13, offset: 91964},
+																																		pos: position{line: 2919, col: 13, offset: 91996},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2918, col: 13, offset: 91964},
+																																				pos:        position{line: 2919, col: 13, offset: 91996},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2918, col: 20, offset: 91971},
+																																				pos:        position{line: 2919, col: 20, offset: 92003},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2918, col: 29, offset: 91980},
+																																				pos:        position{line: 2919, col: 29, offset: 92012},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9460,9 +9460,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2928, col: 8, offset: 92140},
+																																	pos: position{line: 2929, col: 8, offset: 92172},
 																																	expr: &anyMatcher{
-																																		line: 2928, col: 9, offset: 92141,
+																																		line: 2929, col: 9, offset: 92173,
 																																	},
 																																},
 																															},
@@ -9471,40 +9471,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2678, col: 24, offset: 85117},
+																												pos: position{line: 2679, col: 24, offset: 85149},
 																												run: (*parser).callonDocumentFragment1203,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2678, col: 24, offset: 85117},
+																													pos:   position{line: 2679, col: 24, offset: 85149},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2678, col: 30, offset: 85123},
+																														pos: position{line: 2679, col: 30, offset: 85155},
 																														expr: &actionExpr{
-																															pos: position{line: 2683, col: 5, offset: 85199},
+																															pos: position{line: 2684, col: 5, offset: 85231},
 																															run: (*parser).callonDocumentFragment1206,
 																															expr: &seqExpr{
-																																pos: position{line: 2683, col: 5, offset: 85199},
+																																pos: position{line: 2684, col: 5, offset: 85231},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2683, col: 5, offset: 85199},
+																																		pos: position{line: 2684, col: 5, offset: 85231},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2648, col: 22, offset: 84396},
+																																			pos: position{line: 2649, col: 22, offset: 84428},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2644, col: 19, offset: 84316},
+																																					pos: position{line: 2645, col: 19, offset: 84348},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2644, col: 19, offset: 84316},
+																																							pos:        position{line: 2645, col: 19, offset: 84348},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2644, col: 26, offset: 84323},
+																																							pos: position{line: 2645, col: 26, offset: 84355},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2909, col: 10, offset: 91792},
+																																								pos: position{line: 2910, col: 10, offset: 91824},
 																																								run: (*parser).callonDocumentFragment1213,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2909, col: 10, offset: 91792},
+																																									pos:        position{line: 2910, col: 10, offset: 91824},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9513,28 +9513,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2931, col: 8, offset: 92190},
+																																							pos: position{line: 2932, col: 8, offset: 92222},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2918, col: 12, offset: 91963},
+																																									pos: position{line: 2919, col: 12, offset: 91995},
 																																									run: (*parser).callonDocumentFragment1216,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2918, col: 13, offset: 91964},
+																																										pos: position{line: 2919, col: 13, offset: 91996},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2918, col: 13, offset: 91964},
+																																												pos:        position{line: 2919, col: 13, offset: 91996},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2918, col: 20, offset: 91971},
+																																												pos:        position{line: 2919, col: 20, offset: 92003},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2918, col: 29, offset: 91980},
+																																												pos:        position{line: 2919, col: 29, offset: 92012},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9543,9 +9543,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2928, col: 8, offset: 92140},
+																																									pos: position{line: 2929, col: 8, offset: 92172},
 																																									expr: &anyMatcher{
-																																										line: 2928, col: 9, offset: 92141,
+																																										line: 2929, col: 9, offset: 92173,
 																																									},
 																																								},
 																																							},
@@ -9553,16 +9553,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2928, col: 8, offset: 92140},
+																																					pos: position{line: 2929, col: 8, offset: 92172},
 																																					expr: &anyMatcher{
-																																						line: 2928, col: 9, offset: 92141,
+																																						line: 2929, col: 9, offset: 92173,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2684, col: 5, offset: 85222},
+																																		pos: position{line: 2685, col: 5, offset: 85254},
 																																		expr: &actionExpr{
 																																			pos: position{line: 678, col: 14, offset: 21586},
 																																			run: (*parser).callonDocumentFragment1226,
@@ -9570,18 +9570,18 @@ var g = &grammar{
 																																				pos: position{line: 678, col: 14, offset: 21586},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2926, col: 11, offset: 92126},
+																																						pos: position{line: 2927, col: 11, offset: 92158},
 																																						expr: &anyMatcher{
-																																							line: 2926, col: 13, offset: 92128,
+																																							line: 2927, col: 13, offset: 92160,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 678, col: 21, offset: 21593},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2909, col: 10, offset: 91792},
+																																							pos: position{line: 2910, col: 10, offset: 91824},
 																																							run: (*parser).callonDocumentFragment1231,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2909, col: 10, offset: 91792},
+																																								pos:        position{line: 2910, col: 10, offset: 91824},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9590,28 +9590,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2931, col: 8, offset: 92190},
+																																						pos: position{line: 2932, col: 8, offset: 92222},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2918, col: 12, offset: 91963},
+																																								pos: position{line: 2919, col: 12, offset: 91995},
 																																								run: (*parser).callonDocumentFragment1234,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2918, col: 13, offset: 91964},
+																																									pos: position{line: 2919, col: 13, offset: 91996},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2918, col: 13, offset: 91964},
+																																											pos:        position{line: 2919, col: 13, offset: 91996},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2918, col: 20, offset: 91971},
+																																											pos:        position{line: 2919, col: 20, offset: 92003},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2918, col: 29, offset: 91980},
+																																											pos:        position{line: 2919, col: 29, offset: 92012},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9620,9 +9620,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2928, col: 8, offset: 92140},
+																																								pos: position{line: 2929, col: 8, offset: 92172},
 																																								expr: &anyMatcher{
-																																									line: 2928, col: 9, offset: 92141,
+																																									line: 2929, col: 9, offset: 92173,
 																																								},
 																																							},
 																																						},
@@ -9632,17 +9632,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2685, col: 5, offset: 85237},
+																																		pos:   position{line: 2686, col: 5, offset: 85269},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2685, col: 12, offset: 85244},
+																																			pos: position{line: 2686, col: 12, offset: 85276},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2709, col: 20, offset: 85867},
+																																				pos: position{line: 2710, col: 20, offset: 85899},
 																																				run: (*parser).callonDocumentFragment1243,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2709, col: 20, offset: 85867},
+																																					pos: position{line: 2710, col: 20, offset: 85899},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2709, col: 20, offset: 85867},
+																																						pos:        position{line: 2710, col: 20, offset: 85899},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9653,18 +9653,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2685, col: 31, offset: 85263},
+																																		pos:        position{line: 2686, col: 31, offset: 85295},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2685, col: 35, offset: 85267},
+																																		pos: position{line: 2686, col: 35, offset: 85299},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2909, col: 10, offset: 91792},
+																																			pos: position{line: 2910, col: 10, offset: 91824},
 																																			run: (*parser).callonDocumentFragment1248,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2909, col: 10, offset: 91792},
+																																				pos:        position{line: 2910, col: 10, offset: 91824},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9673,27 +9673,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2685, col: 42, offset: 85274},
+																																		pos: position{line: 2686, col: 42, offset: 85306},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2918, col: 12, offset: 91963},
+																																			pos: position{line: 2919, col: 12, offset: 91995},
 																																			run: (*parser).callonDocumentFragment1251,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2918, col: 13, offset: 91964},
+																																				pos: position{line: 2919, col: 13, offset: 91996},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2918, col: 13, offset: 91964},
+																																						pos:        position{line: 2919, col: 13, offset: 91996},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2918, col: 20, offset: 91971},
+																																						pos:        position{line: 2919, col: 20, offset: 92003},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2918, col: 29, offset: 91980},
+																																						pos:        position{line: 2919, col: 29, offset: 92012},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9703,57 +9703,57 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2685, col: 51, offset: 85283},
+																																		pos:   position{line: 2686, col: 51, offset: 85315},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2691, col: 5, offset: 85442},
+																																			pos: position{line: 2692, col: 5, offset: 85474},
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2692, col: 9, offset: 85452},
+																																				pos: position{line: 2693, col: 9, offset: 85484},
 																																				alternatives: []interface{}{
 																																					&actionExpr{
-																																						pos: position{line: 2692, col: 9, offset: 85452},
+																																						pos: position{line: 2693, col: 9, offset: 85484},
 																																						run: (*parser).callonDocumentFragment1259,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2692, col: 9, offset: 85452},
+																																							pos: position{line: 2693, col: 9, offset: 85484},
 																																							exprs: []interface{}{
 																																								&andCodeExpr{
-																																									pos: position{line: 2692, col: 9, offset: 85452},
+																																									pos: position{line: 2693, col: 9, offset: 85484},
 																																									run: (*parser).callonDocumentFragment1261,
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2695, col: 9, offset: 85521},
+																																									pos:   position{line: 2696, col: 9, offset: 85553},
 																																									label: "comment",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2512, col: 22, offset: 80570},
+																																										pos: position{line: 2513, col: 22, offset: 80602},
 																																										run: (*parser).callonDocumentFragment1263,
 																																										expr: &seqExpr{
-																																											pos: position{line: 2512, col: 22, offset: 80570},
+																																											pos: position{line: 2513, col: 22, offset: 80602},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2517, col: 31, offset: 80820},
+																																													pos:        position{line: 2518, col: 31, offset: 80852},
 																																													val:        "//",
 																																													ignoreCase: false,
 																																													want:       "\"//\"",
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2517, col: 36, offset: 80825},
+																																													pos: position{line: 2518, col: 36, offset: 80857},
 																																													expr: &litMatcher{
-																																														pos:        position{line: 2517, col: 37, offset: 80826},
+																																														pos:        position{line: 2518, col: 37, offset: 80858},
 																																														val:        "/",
 																																														ignoreCase: false,
 																																														want:       "\"/\"",
 																																													},
 																																												},
 																																												&labeledExpr{
-																																													pos:   position{line: 2512, col: 49, offset: 80597},
+																																													pos:   position{line: 2513, col: 49, offset: 80629},
 																																													label: "content",
 																																													expr: &actionExpr{
-																																														pos: position{line: 2855, col: 13, offset: 90318},
+																																														pos: position{line: 2856, col: 13, offset: 90350},
 																																														run: (*parser).callonDocumentFragment1269,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2855, col: 13, offset: 90318},
+																																															pos: position{line: 2856, col: 13, offset: 90350},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2855, col: 13, offset: 90318},
+																																																pos:        position{line: 2856, col: 13, offset: 90350},
 																																																val:        "[^\\r\\n]",
 																																																chars:      []rune{'\r', '\n'},
 																																																ignoreCase: false,
@@ -9763,28 +9763,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2931, col: 8, offset: 92190},
+																																													pos: position{line: 2932, col: 8, offset: 92222},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2918, col: 12, offset: 91963},
+																																															pos: position{line: 2919, col: 12, offset: 91995},
 																																															run: (*parser).callonDocumentFragment1273,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2918, col: 13, offset: 91964},
+																																																pos: position{line: 2919, col: 13, offset: 91996},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2918, col: 13, offset: 91964},
+																																																		pos:        position{line: 2919, col: 13, offset: 91996},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2918, col: 20, offset: 91971},
+																																																		pos:        position{line: 2919, col: 20, offset: 92003},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2918, col: 29, offset: 91980},
+																																																		pos:        position{line: 2919, col: 29, offset: 92012},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -9793,9 +9793,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2928, col: 8, offset: 92140},
+																																															pos: position{line: 2929, col: 8, offset: 92172},
 																																															expr: &anyMatcher{
-																																																line: 2928, col: 9, offset: 92141,
+																																																line: 2929, col: 9, offset: 92173,
 																																															},
 																																														},
 																																													},
@@ -9808,32 +9808,32 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&actionExpr{
-																																						pos: position{line: 2699, col: 9, offset: 85611},
+																																						pos: position{line: 2700, col: 9, offset: 85643},
 																																						run: (*parser).callonDocumentFragment1280,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2699, col: 9, offset: 85611},
+																																							pos: position{line: 2700, col: 9, offset: 85643},
 																																							exprs: []interface{}{
 																																								&notExpr{
-																																									pos: position{line: 2699, col: 9, offset: 85611},
+																																									pos: position{line: 2700, col: 9, offset: 85643},
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2648, col: 22, offset: 84396},
+																																										pos: position{line: 2649, col: 22, offset: 84428},
 																																										alternatives: []interface{}{
 																																											&seqExpr{
-																																												pos: position{line: 2644, col: 19, offset: 84316},
+																																												pos: position{line: 2645, col: 19, offset: 84348},
 																																												exprs: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2644, col: 19, offset: 84316},
+																																														pos:        position{line: 2645, col: 19, offset: 84348},
 																																														val:        "|===",
 																																														ignoreCase: false,
 																																														want:       "\"|===\"",
 																																													},
 																																													&zeroOrMoreExpr{
-																																														pos: position{line: 2644, col: 26, offset: 84323},
+																																														pos: position{line: 2645, col: 26, offset: 84355},
 																																														expr: &actionExpr{
-																																															pos: position{line: 2909, col: 10, offset: 91792},
+																																															pos: position{line: 2910, col: 10, offset: 91824},
 																																															run: (*parser).callonDocumentFragment1287,
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2909, col: 10, offset: 91792},
+																																																pos:        position{line: 2910, col: 10, offset: 91824},
 																																																val:        "[\\t ]",
 																																																chars:      []rune{'\t', ' '},
 																																																ignoreCase: false,
@@ -9842,28 +9842,28 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&choiceExpr{
-																																														pos: position{line: 2931, col: 8, offset: 92190},
+																																														pos: position{line: 2932, col: 8, offset: 92222},
 																																														alternatives: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2918, col: 12, offset: 91963},
+																																																pos: position{line: 2919, col: 12, offset: 91995},
 																																																run: (*parser).callonDocumentFragment1290,
 																																																expr: &choiceExpr{
-																																																	pos: position{line: 2918, col: 13, offset: 91964},
+																																																	pos: position{line: 2919, col: 13, offset: 91996},
 																																																	alternatives: []interface{}{
 																																																		&litMatcher{
-																																																			pos:        position{line: 2918, col: 13, offset: 91964},
+																																																			pos:        position{line: 2919, col: 13, offset: 91996},
 																																																			val:        "\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2918, col: 20, offset: 91971},
+																																																			pos:        position{line: 2919, col: 20, offset: 92003},
 																																																			val:        "\r\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2918, col: 29, offset: 91980},
+																																																			pos:        position{line: 2919, col: 29, offset: 92012},
 																																																			val:        "\r",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\"",
@@ -9872,9 +9872,9 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&notExpr{
-																																																pos: position{line: 2928, col: 8, offset: 92140},
+																																																pos: position{line: 2929, col: 8, offset: 92172},
 																																																expr: &anyMatcher{
-																																																	line: 2928, col: 9, offset: 92141,
+																																																	line: 2929, col: 9, offset: 92173,
 																																																},
 																																															},
 																																														},
@@ -9882,16 +9882,16 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2928, col: 8, offset: 92140},
+																																												pos: position{line: 2929, col: 8, offset: 92172},
 																																												expr: &anyMatcher{
-																																													line: 2928, col: 9, offset: 92141,
+																																													line: 2929, col: 9, offset: 92173,
 																																												},
 																																											},
 																																										},
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2700, col: 9, offset: 85638},
+																																									pos: position{line: 2701, col: 9, offset: 85670},
 																																									expr: &actionExpr{
 																																										pos: position{line: 678, col: 14, offset: 21586},
 																																										run: (*parser).callonDocumentFragment1300,
@@ -9899,18 +9899,18 @@ var g = &grammar{
 																																											pos: position{line: 678, col: 14, offset: 21586},
 																																											exprs: []interface{}{
 																																												&andExpr{
-																																													pos: position{line: 2926, col: 11, offset: 92126},
+																																													pos: position{line: 2927, col: 11, offset: 92158},
 																																													expr: &anyMatcher{
-																																														line: 2926, col: 13, offset: 92128,
+																																														line: 2927, col: 13, offset: 92160,
 																																													},
 																																												},
 																																												&zeroOrMoreExpr{
 																																													pos: position{line: 678, col: 21, offset: 21593},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2909, col: 10, offset: 91792},
+																																														pos: position{line: 2910, col: 10, offset: 91824},
 																																														run: (*parser).callonDocumentFragment1305,
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2909, col: 10, offset: 91792},
+																																															pos:        position{line: 2910, col: 10, offset: 91824},
 																																															val:        "[\\t ]",
 																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
@@ -9919,28 +9919,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2931, col: 8, offset: 92190},
+																																													pos: position{line: 2932, col: 8, offset: 92222},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2918, col: 12, offset: 91963},
+																																															pos: position{line: 2919, col: 12, offset: 91995},
 																																															run: (*parser).callonDocumentFragment1308,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2918, col: 13, offset: 91964},
+																																																pos: position{line: 2919, col: 13, offset: 91996},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2918, col: 13, offset: 91964},
+																																																		pos:        position{line: 2919, col: 13, offset: 91996},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2918, col: 20, offset: 91971},
+																																																		pos:        position{line: 2919, col: 20, offset: 92003},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2918, col: 29, offset: 91980},
+																																																		pos:        position{line: 2919, col: 29, offset: 92012},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -9949,9 +9949,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2928, col: 8, offset: 92140},
+																																															pos: position{line: 2929, col: 8, offset: 92172},
 																																															expr: &anyMatcher{
-																																																line: 2928, col: 9, offset: 92141,
+																																																line: 2929, col: 9, offset: 92173,
 																																															},
 																																														},
 																																													},
@@ -9961,22 +9961,22 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2701, col: 9, offset: 85657},
+																																									pos: position{line: 2702, col: 9, offset: 85689},
 																																									expr: &seqExpr{
-																																										pos: position{line: 2701, col: 11, offset: 85659},
+																																										pos: position{line: 2702, col: 11, offset: 85691},
 																																										exprs: []interface{}{
 																																											&labeledExpr{
-																																												pos:   position{line: 2701, col: 11, offset: 85659},
+																																												pos:   position{line: 2702, col: 11, offset: 85691},
 																																												label: "format",
 																																												expr: &zeroOrOneExpr{
-																																													pos: position{line: 2701, col: 18, offset: 85666},
+																																													pos: position{line: 2702, col: 18, offset: 85698},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2709, col: 20, offset: 85867},
+																																														pos: position{line: 2710, col: 20, offset: 85899},
 																																														run: (*parser).callonDocumentFragment1319,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2709, col: 20, offset: 85867},
+																																															pos: position{line: 2710, col: 20, offset: 85899},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2709, col: 20, offset: 85867},
+																																																pos:        position{line: 2710, col: 20, offset: 85899},
 																																																val:        "[^ |\\r\\n]",
 																																																chars:      []rune{' ', '|', '\r', '\n'},
 																																																ignoreCase: false,
@@ -9987,7 +9987,7 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2701, col: 37, offset: 85685},
+																																												pos:        position{line: 2702, col: 37, offset: 85717},
 																																												val:        "|",
 																																												ignoreCase: false,
 																																												want:       "\"|\"",
@@ -9996,15 +9996,15 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2702, col: 9, offset: 85698},
+																																									pos:   position{line: 2703, col: 9, offset: 85730},
 																																									label: "content",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2702, col: 18, offset: 85707},
+																																										pos: position{line: 2703, col: 18, offset: 85739},
 																																										run: (*parser).callonDocumentFragment1324,
 																																										expr: &zeroOrMoreExpr{
-																																											pos: position{line: 2702, col: 18, offset: 85707},
+																																											pos: position{line: 2703, col: 18, offset: 85739},
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2702, col: 18, offset: 85707},
+																																												pos:        position{line: 2703, col: 18, offset: 85739},
 																																												val:        "[^|\\r\\n]",
 																																												chars:      []rune{'|', '\r', '\n'},
 																																												ignoreCase: false,
@@ -10014,30 +10014,30 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&zeroOrOneExpr{
-																																									pos: position{line: 2704, col: 12, offset: 85769},
+																																									pos: position{line: 2705, col: 12, offset: 85801},
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2931, col: 8, offset: 92190},
+																																										pos: position{line: 2932, col: 8, offset: 92222},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2918, col: 12, offset: 91963},
+																																												pos: position{line: 2919, col: 12, offset: 91995},
 																																												run: (*parser).callonDocumentFragment1329,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2918, col: 13, offset: 91964},
+																																													pos: position{line: 2919, col: 13, offset: 91996},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2918, col: 13, offset: 91964},
+																																															pos:        position{line: 2919, col: 13, offset: 91996},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2918, col: 20, offset: 91971},
+																																															pos:        position{line: 2919, col: 20, offset: 92003},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2918, col: 29, offset: 91980},
+																																															pos:        position{line: 2919, col: 29, offset: 92012},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -10046,9 +10046,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2928, col: 8, offset: 92140},
+																																												pos: position{line: 2929, col: 8, offset: 92172},
 																																												expr: &anyMatcher{
-																																													line: 2928, col: 9, offset: 92141,
+																																													line: 2929, col: 9, offset: 92173,
 																																												},
 																																											},
 																																										},
@@ -10078,18 +10078,18 @@ var g = &grammar{
 																									pos: position{line: 678, col: 14, offset: 21586},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2926, col: 11, offset: 92126},
+																											pos: position{line: 2927, col: 11, offset: 92158},
 																											expr: &anyMatcher{
-																												line: 2926, col: 13, offset: 92128,
+																												line: 2927, col: 13, offset: 92160,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 678, col: 21, offset: 21593},
 																											expr: &actionExpr{
-																												pos: position{line: 2909, col: 10, offset: 91792},
+																												pos: position{line: 2910, col: 10, offset: 91824},
 																												run: (*parser).callonDocumentFragment1341,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2909, col: 10, offset: 91792},
+																													pos:        position{line: 2910, col: 10, offset: 91824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10098,28 +10098,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2931, col: 8, offset: 92190},
+																											pos: position{line: 2932, col: 8, offset: 92222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2918, col: 12, offset: 91963},
+																													pos: position{line: 2919, col: 12, offset: 91995},
 																													run: (*parser).callonDocumentFragment1344,
 																													expr: &choiceExpr{
-																														pos: position{line: 2918, col: 13, offset: 91964},
+																														pos: position{line: 2919, col: 13, offset: 91996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 13, offset: 91964},
+																																pos:        position{line: 2919, col: 13, offset: 91996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 20, offset: 91971},
+																																pos:        position{line: 2919, col: 20, offset: 92003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 29, offset: 91980},
+																																pos:        position{line: 2919, col: 29, offset: 92012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10128,9 +10128,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2928, col: 8, offset: 92140},
+																													pos: position{line: 2929, col: 8, offset: 92172},
 																													expr: &anyMatcher{
-																														line: 2928, col: 9, offset: 92141,
+																														line: 2929, col: 9, offset: 92173,
 																													},
 																												},
 																											},
@@ -10149,24 +10149,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2648, col: 22, offset: 84396},
+														pos: position{line: 2649, col: 22, offset: 84428},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2644, col: 19, offset: 84316},
+																pos: position{line: 2645, col: 19, offset: 84348},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2644, col: 19, offset: 84316},
+																		pos:        position{line: 2645, col: 19, offset: 84348},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2644, col: 26, offset: 84323},
+																		pos: position{line: 2645, col: 26, offset: 84355},
 																		expr: &actionExpr{
-																			pos: position{line: 2909, col: 10, offset: 91792},
+																			pos: position{line: 2910, col: 10, offset: 91824},
 																			run: (*parser).callonDocumentFragment1355,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2909, col: 10, offset: 91792},
+																				pos:        position{line: 2910, col: 10, offset: 91824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10175,28 +10175,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2931, col: 8, offset: 92190},
+																		pos: position{line: 2932, col: 8, offset: 92222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
+																				pos: position{line: 2919, col: 12, offset: 91995},
 																				run: (*parser).callonDocumentFragment1358,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10205,9 +10205,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2928, col: 8, offset: 92140},
+																				pos: position{line: 2929, col: 8, offset: 92172},
 																				expr: &anyMatcher{
-																					line: 2928, col: 9, offset: 92141,
+																					line: 2929, col: 9, offset: 92173,
 																				},
 																			},
 																		},
@@ -10215,9 +10215,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2928, col: 8, offset: 92140},
+																pos: position{line: 2929, col: 8, offset: 92172},
 																expr: &anyMatcher{
-																	line: 2928, col: 9, offset: 92141,
+																	line: 2929, col: 9, offset: 92173,
 																},
 															},
 														},
@@ -10226,36 +10226,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2512, col: 22, offset: 80570},
+											pos: position{line: 2513, col: 22, offset: 80602},
 											run: (*parser).callonDocumentFragment1367,
 											expr: &seqExpr{
-												pos: position{line: 2512, col: 22, offset: 80570},
+												pos: position{line: 2513, col: 22, offset: 80602},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2517, col: 31, offset: 80820},
+														pos:        position{line: 2518, col: 31, offset: 80852},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2517, col: 36, offset: 80825},
+														pos: position{line: 2518, col: 36, offset: 80857},
 														expr: &litMatcher{
-															pos:        position{line: 2517, col: 37, offset: 80826},
+															pos:        position{line: 2518, col: 37, offset: 80858},
 															val:        "/",
 															ignoreCase: false,
 															want:       "\"/\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2512, col: 49, offset: 80597},
+														pos:   position{line: 2513, col: 49, offset: 80629},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2855, col: 13, offset: 90318},
+															pos: position{line: 2856, col: 13, offset: 90350},
 															run: (*parser).callonDocumentFragment1373,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2855, col: 13, offset: 90318},
+																pos: position{line: 2856, col: 13, offset: 90350},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2855, col: 13, offset: 90318},
+																	pos:        position{line: 2856, col: 13, offset: 90350},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10265,28 +10265,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2931, col: 8, offset: 92190},
+														pos: position{line: 2932, col: 8, offset: 92222},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2918, col: 12, offset: 91963},
+																pos: position{line: 2919, col: 12, offset: 91995},
 																run: (*parser).callonDocumentFragment1377,
 																expr: &choiceExpr{
-																	pos: position{line: 2918, col: 13, offset: 91964},
+																	pos: position{line: 2919, col: 13, offset: 91996},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 13, offset: 91964},
+																			pos:        position{line: 2919, col: 13, offset: 91996},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 20, offset: 91971},
+																			pos:        position{line: 2919, col: 20, offset: 92003},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 29, offset: 91980},
+																			pos:        position{line: 2919, col: 29, offset: 92012},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10295,9 +10295,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2928, col: 8, offset: 92140},
+																pos: position{line: 2929, col: 8, offset: 92172},
 																expr: &anyMatcher{
-																	line: 2928, col: 9, offset: 92141,
+																	line: 2929, col: 9, offset: 92173,
 																},
 															},
 														},
@@ -10333,10 +10333,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1235, col: 36, offset: 38294},
 																		expr: &actionExpr{
-																			pos: position{line: 2909, col: 10, offset: 91792},
+																			pos: position{line: 2910, col: 10, offset: 91824},
 																			run: (*parser).callonDocumentFragment1392,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2909, col: 10, offset: 91792},
+																				pos:        position{line: 2910, col: 10, offset: 91824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10345,28 +10345,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2931, col: 8, offset: 92190},
+																		pos: position{line: 2932, col: 8, offset: 92222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
+																				pos: position{line: 2919, col: 12, offset: 91995},
 																				run: (*parser).callonDocumentFragment1395,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10375,9 +10375,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2928, col: 8, offset: 92140},
+																				pos: position{line: 2929, col: 8, offset: 92172},
 																				expr: &anyMatcher{
-																					line: 2928, col: 9, offset: 92141,
+																					line: 2929, col: 9, offset: 92173,
 																				},
 																			},
 																		},
@@ -10411,10 +10411,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1235, col: 36, offset: 38294},
 																												expr: &actionExpr{
-																													pos: position{line: 2909, col: 10, offset: 91792},
+																													pos: position{line: 2910, col: 10, offset: 91824},
 																													run: (*parser).callonDocumentFragment1412,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2909, col: 10, offset: 91792},
+																														pos:        position{line: 2910, col: 10, offset: 91824},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10423,28 +10423,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2931, col: 8, offset: 92190},
+																												pos: position{line: 2932, col: 8, offset: 92222},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2918, col: 12, offset: 91963},
+																														pos: position{line: 2919, col: 12, offset: 91995},
 																														run: (*parser).callonDocumentFragment1415,
 																														expr: &choiceExpr{
-																															pos: position{line: 2918, col: 13, offset: 91964},
+																															pos: position{line: 2919, col: 13, offset: 91996},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2918, col: 13, offset: 91964},
+																																	pos:        position{line: 2919, col: 13, offset: 91996},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2918, col: 20, offset: 91971},
+																																	pos:        position{line: 2919, col: 20, offset: 92003},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2918, col: 29, offset: 91980},
+																																	pos:        position{line: 2919, col: 29, offset: 92012},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10453,9 +10453,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2928, col: 8, offset: 92140},
+																														pos: position{line: 2929, col: 8, offset: 92172},
 																														expr: &anyMatcher{
-																															line: 2928, col: 9, offset: 92141,
+																															line: 2929, col: 9, offset: 92173,
 																														},
 																													},
 																												},
@@ -10482,10 +10482,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1235, col: 36, offset: 38294},
 																		expr: &actionExpr{
-																			pos: position{line: 2909, col: 10, offset: 91792},
+																			pos: position{line: 2910, col: 10, offset: 91824},
 																			run: (*parser).callonDocumentFragment1425,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2909, col: 10, offset: 91792},
+																				pos:        position{line: 2910, col: 10, offset: 91824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10494,28 +10494,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2931, col: 8, offset: 92190},
+																		pos: position{line: 2932, col: 8, offset: 92222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
+																				pos: position{line: 2919, col: 12, offset: 91995},
 																				run: (*parser).callonDocumentFragment1428,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10524,9 +10524,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2928, col: 8, offset: 92140},
+																				pos: position{line: 2929, col: 8, offset: 92172},
 																				expr: &anyMatcher{
-																					line: 2928, col: 9, offset: 92141,
+																					line: 2929, col: 9, offset: 92173,
 																				},
 																			},
 																		},
@@ -10623,9 +10623,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2928, col: 8, offset: 92140},
+							pos: position{line: 2929, col: 8, offset: 92172},
 							expr: &anyMatcher{
-								line: 2928, col: 9, offset: 92141,
+								line: 2929, col: 9, offset: 92173,
 							},
 						},
 					},
@@ -10697,12 +10697,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2913, col: 11, offset: 91853},
+												pos: position{line: 2914, col: 11, offset: 91885},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2913, col: 11, offset: 91853},
+													pos: position{line: 2914, col: 11, offset: 91885},
 													expr: &charClassMatcher{
-														pos:        position{line: 2913, col: 11, offset: 91853},
+														pos:        position{line: 2914, col: 11, offset: 91885},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10724,28 +10724,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2931, col: 8, offset: 92190},
+							pos: position{line: 2932, col: 8, offset: 92222},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2918, col: 12, offset: 91963},
+									pos: position{line: 2919, col: 12, offset: 91995},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2918, col: 13, offset: 91964},
+										pos: position{line: 2919, col: 13, offset: 91996},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2918, col: 13, offset: 91964},
+												pos:        position{line: 2919, col: 13, offset: 91996},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2918, col: 20, offset: 91971},
+												pos:        position{line: 2919, col: 20, offset: 92003},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2918, col: 29, offset: 91980},
+												pos:        position{line: 2919, col: 29, offset: 92012},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10754,9 +10754,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2928, col: 8, offset: 92140},
+									pos: position{line: 2929, col: 8, offset: 92172},
 									expr: &anyMatcher{
-										line: 2928, col: 9, offset: 92141,
+										line: 2929, col: 9, offset: 92173,
 									},
 								},
 							},
@@ -10800,25 +10800,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2918, col: 12, offset: 91963},
+												pos: position{line: 2919, col: 12, offset: 91995},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2918, col: 13, offset: 91964},
+													pos: position{line: 2919, col: 13, offset: 91996},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2918, col: 13, offset: 91964},
+															pos:        position{line: 2919, col: 13, offset: 91996},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2918, col: 20, offset: 91971},
+															pos:        position{line: 2919, col: 20, offset: 92003},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2918, col: 29, offset: 91980},
+															pos:        position{line: 2919, col: 29, offset: 92012},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10829,10 +10829,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2909, col: 10, offset: 91792},
+													pos: position{line: 2910, col: 10, offset: 91824},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2909, col: 10, offset: 91792},
+														pos:        position{line: 2910, col: 10, offset: 91824},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10902,10 +10902,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2909, col: 10, offset: 91792},
+											pos: position{line: 2910, col: 10, offset: 91824},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2909, col: 10, offset: 91792},
+												pos:        position{line: 2910, col: 10, offset: 91824},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10914,28 +10914,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2931, col: 8, offset: 92190},
+										pos: position{line: 2932, col: 8, offset: 92222},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2918, col: 12, offset: 91963},
+												pos: position{line: 2919, col: 12, offset: 91995},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2918, col: 13, offset: 91964},
+													pos: position{line: 2919, col: 13, offset: 91996},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2918, col: 13, offset: 91964},
+															pos:        position{line: 2919, col: 13, offset: 91996},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2918, col: 20, offset: 91971},
+															pos:        position{line: 2919, col: 20, offset: 92003},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2918, col: 29, offset: 91980},
+															pos:        position{line: 2919, col: 29, offset: 92012},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10944,9 +10944,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2928, col: 8, offset: 92140},
+												pos: position{line: 2929, col: 8, offset: 92172},
 												expr: &anyMatcher{
-													line: 2928, col: 9, offset: 92141,
+													line: 2929, col: 9, offset: 92173,
 												},
 											},
 										},
@@ -10979,23 +10979,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2499, col: 5, offset: 80116},
+										pos: position{line: 2500, col: 5, offset: 80148},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2499, col: 5, offset: 80116},
+											pos: position{line: 2500, col: 5, offset: 80148},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2499, col: 5, offset: 80116},
+													pos: position{line: 2500, col: 5, offset: 80148},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2502, col: 5, offset: 80192},
+													pos:   position{line: 2503, col: 5, offset: 80224},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2503, col: 9, offset: 80210},
+														pos: position{line: 2504, col: 9, offset: 80242},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2503, col: 10, offset: 80211},
+															pos:        position{line: 2504, col: 10, offset: 80243},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -11007,10 +11007,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2909, col: 10, offset: 91792},
+										pos: position{line: 2910, col: 10, offset: 91824},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2909, col: 10, offset: 91792},
+											pos:        position{line: 2910, col: 10, offset: 91824},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11847,10 +11847,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 35, offset: 11487},
 												expr: &actionExpr{
-													pos: position{line: 2909, col: 10, offset: 91792},
+													pos: position{line: 2910, col: 10, offset: 91824},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2909, col: 10, offset: 91792},
+														pos:        position{line: 2910, col: 10, offset: 91824},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11859,28 +11859,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2931, col: 8, offset: 92190},
+												pos: position{line: 2932, col: 8, offset: 92222},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2918, col: 12, offset: 91963},
+														pos: position{line: 2919, col: 12, offset: 91995},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2918, col: 13, offset: 91964},
+															pos: position{line: 2919, col: 13, offset: 91996},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2918, col: 13, offset: 91964},
+																	pos:        position{line: 2919, col: 13, offset: 91996},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2918, col: 20, offset: 91971},
+																	pos:        position{line: 2919, col: 20, offset: 92003},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2918, col: 29, offset: 91980},
+																	pos:        position{line: 2919, col: 29, offset: 92012},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11889,9 +11889,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2928, col: 8, offset: 92140},
+														pos: position{line: 2929, col: 8, offset: 92172},
 														expr: &anyMatcher{
-															line: 2928, col: 9, offset: 92141,
+															line: 2929, col: 9, offset: 92173,
 														},
 													},
 												},
@@ -11908,18 +11908,18 @@ var g = &grammar{
 																pos: position{line: 678, col: 14, offset: 21586},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2926, col: 11, offset: 92126},
+																		pos: position{line: 2927, col: 11, offset: 92158},
 																		expr: &anyMatcher{
-																			line: 2926, col: 13, offset: 92128,
+																			line: 2927, col: 13, offset: 92160,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 678, col: 21, offset: 21593},
 																		expr: &actionExpr{
-																			pos: position{line: 2909, col: 10, offset: 91792},
+																			pos: position{line: 2910, col: 10, offset: 91824},
 																			run: (*parser).callonBlockAttributes117,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2909, col: 10, offset: 91792},
+																				pos:        position{line: 2910, col: 10, offset: 91824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -11928,28 +11928,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2931, col: 8, offset: 92190},
+																		pos: position{line: 2932, col: 8, offset: 92222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
+																				pos: position{line: 2919, col: 12, offset: 91995},
 																				run: (*parser).callonBlockAttributes120,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -11958,9 +11958,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2928, col: 8, offset: 92140},
+																				pos: position{line: 2929, col: 8, offset: 92172},
 																				expr: &anyMatcher{
-																					line: 2928, col: 9, offset: 92141,
+																					line: 2929, col: 9, offset: 92173,
 																				},
 																			},
 																		},
@@ -11969,36 +11969,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2512, col: 22, offset: 80570},
+															pos: position{line: 2513, col: 22, offset: 80602},
 															run: (*parser).callonBlockAttributes127,
 															expr: &seqExpr{
-																pos: position{line: 2512, col: 22, offset: 80570},
+																pos: position{line: 2513, col: 22, offset: 80602},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2517, col: 31, offset: 80820},
+																		pos:        position{line: 2518, col: 31, offset: 80852},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2517, col: 36, offset: 80825},
+																		pos: position{line: 2518, col: 36, offset: 80857},
 																		expr: &litMatcher{
-																			pos:        position{line: 2517, col: 37, offset: 80826},
+																			pos:        position{line: 2518, col: 37, offset: 80858},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2512, col: 49, offset: 80597},
+																		pos:   position{line: 2513, col: 49, offset: 80629},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2855, col: 13, offset: 90318},
+																			pos: position{line: 2856, col: 13, offset: 90350},
 																			run: (*parser).callonBlockAttributes133,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2855, col: 13, offset: 90318},
+																				pos: position{line: 2856, col: 13, offset: 90350},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2855, col: 13, offset: 90318},
+																					pos:        position{line: 2856, col: 13, offset: 90350},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12008,28 +12008,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2931, col: 8, offset: 92190},
+																		pos: position{line: 2932, col: 8, offset: 92222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
+																				pos: position{line: 2919, col: 12, offset: 91995},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12038,9 +12038,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2928, col: 8, offset: 92140},
+																				pos: position{line: 2929, col: 8, offset: 92172},
 																				expr: &anyMatcher{
-																					line: 2928, col: 9, offset: 92141,
+																					line: 2929, col: 9, offset: 92173,
 																				},
 																			},
 																		},
@@ -12094,12 +12094,12 @@ var g = &grammar{
 																		pos: position{line: 426, col: 9, offset: 13131},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2803, col: 14, offset: 88961},
+																				pos: position{line: 2804, col: 14, offset: 88993},
 																				run: (*parser).callonBlockAttributes155,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2803, col: 14, offset: 88961},
+																					pos: position{line: 2804, col: 14, offset: 88993},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2803, col: 14, offset: 88961},
+																						pos:        position{line: 2804, col: 14, offset: 88993},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12108,10 +12108,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2909, col: 10, offset: 91792},
+																				pos: position{line: 2910, col: 10, offset: 91824},
 																				run: (*parser).callonBlockAttributes158,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2909, col: 10, offset: 91792},
+																					pos:        position{line: 2910, col: 10, offset: 91824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12119,27 +12119,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2826, col: 5, offset: 89446},
+																				pos: position{line: 2827, col: 5, offset: 89478},
 																				run: (*parser).callonBlockAttributes160,
 																				expr: &choiceExpr{
-																					pos: position{line: 2827, col: 9, offset: 89456},
+																					pos: position{line: 2828, col: 9, offset: 89488},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2827, col: 10, offset: 89457},
+																							pos:        position{line: 2828, col: 10, offset: 89489},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2829, col: 13, offset: 89554},
+																							pos: position{line: 2830, col: 13, offset: 89586},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2829, col: 13, offset: 89554},
+																									pos: position{line: 2830, col: 13, offset: 89586},
 																									run: (*parser).callonBlockAttributes164,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2832, col: 13, offset: 89654},
+																									pos:        position{line: 2833, col: 13, offset: 89686},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12147,20 +12147,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2832, col: 19, offset: 89660},
+																							pos:        position{line: 2833, col: 19, offset: 89692},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2835, col: 13, offset: 89698},
+																							pos: position{line: 2836, col: 13, offset: 89730},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2835, col: 13, offset: 89698},
+																									pos: position{line: 2836, col: 13, offset: 89730},
 																									run: (*parser).callonBlockAttributes168,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2838, col: 14, offset: 89791},
+																									pos:        position{line: 2839, col: 14, offset: 89823},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12169,18 +12169,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2840, col: 12, offset: 89835},
+																							pos: position{line: 2841, col: 12, offset: 89867},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2840, col: 12, offset: 89835},
+																									pos:        position{line: 2841, col: 12, offset: 89867},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2840, col: 16, offset: 89839},
+																									pos: position{line: 2841, col: 16, offset: 89871},
 																									expr: &litMatcher{
-																										pos:        position{line: 2840, col: 17, offset: 89840},
+																										pos:        position{line: 2841, col: 17, offset: 89872},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12516,10 +12516,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2848, col: 12, offset: 90100},
+																				pos: position{line: 2849, col: 12, offset: 90132},
 																				run: (*parser).callonBlockAttributes238,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2848, col: 12, offset: 90100},
+																					pos:        position{line: 2849, col: 12, offset: 90132},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12537,10 +12537,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 376, col: 35, offset: 11664},
 												expr: &actionExpr{
-													pos: position{line: 2909, col: 10, offset: 91792},
+													pos: position{line: 2910, col: 10, offset: 91824},
 													run: (*parser).callonBlockAttributes241,
 													expr: &charClassMatcher{
-														pos:        position{line: 2909, col: 10, offset: 91792},
+														pos:        position{line: 2910, col: 10, offset: 91824},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12549,28 +12549,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2931, col: 8, offset: 92190},
+												pos: position{line: 2932, col: 8, offset: 92222},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2918, col: 12, offset: 91963},
+														pos: position{line: 2919, col: 12, offset: 91995},
 														run: (*parser).callonBlockAttributes244,
 														expr: &choiceExpr{
-															pos: position{line: 2918, col: 13, offset: 91964},
+															pos: position{line: 2919, col: 13, offset: 91996},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2918, col: 13, offset: 91964},
+																	pos:        position{line: 2919, col: 13, offset: 91996},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2918, col: 20, offset: 91971},
+																	pos:        position{line: 2919, col: 20, offset: 92003},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2918, col: 29, offset: 91980},
+																	pos:        position{line: 2919, col: 29, offset: 92012},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12579,9 +12579,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2928, col: 8, offset: 92140},
+														pos: position{line: 2929, col: 8, offset: 92172},
 														expr: &anyMatcher{
-															line: 2928, col: 9, offset: 92141,
+															line: 2929, col: 9, offset: 92173,
 														},
 													},
 												},
@@ -12598,18 +12598,18 @@ var g = &grammar{
 																pos: position{line: 678, col: 14, offset: 21586},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2926, col: 11, offset: 92126},
+																		pos: position{line: 2927, col: 11, offset: 92158},
 																		expr: &anyMatcher{
-																			line: 2926, col: 13, offset: 92128,
+																			line: 2927, col: 13, offset: 92160,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 678, col: 21, offset: 21593},
 																		expr: &actionExpr{
-																			pos: position{line: 2909, col: 10, offset: 91792},
+																			pos: position{line: 2910, col: 10, offset: 91824},
 																			run: (*parser).callonBlockAttributes258,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2909, col: 10, offset: 91792},
+																				pos:        position{line: 2910, col: 10, offset: 91824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12618,28 +12618,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2931, col: 8, offset: 92190},
+																		pos: position{line: 2932, col: 8, offset: 92222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
+																				pos: position{line: 2919, col: 12, offset: 91995},
 																				run: (*parser).callonBlockAttributes261,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12648,9 +12648,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2928, col: 8, offset: 92140},
+																				pos: position{line: 2929, col: 8, offset: 92172},
 																				expr: &anyMatcher{
-																					line: 2928, col: 9, offset: 92141,
+																					line: 2929, col: 9, offset: 92173,
 																				},
 																			},
 																		},
@@ -12659,36 +12659,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2512, col: 22, offset: 80570},
+															pos: position{line: 2513, col: 22, offset: 80602},
 															run: (*parser).callonBlockAttributes268,
 															expr: &seqExpr{
-																pos: position{line: 2512, col: 22, offset: 80570},
+																pos: position{line: 2513, col: 22, offset: 80602},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2517, col: 31, offset: 80820},
+																		pos:        position{line: 2518, col: 31, offset: 80852},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2517, col: 36, offset: 80825},
+																		pos: position{line: 2518, col: 36, offset: 80857},
 																		expr: &litMatcher{
-																			pos:        position{line: 2517, col: 37, offset: 80826},
+																			pos:        position{line: 2518, col: 37, offset: 80858},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2512, col: 49, offset: 80597},
+																		pos:   position{line: 2513, col: 49, offset: 80629},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2855, col: 13, offset: 90318},
+																			pos: position{line: 2856, col: 13, offset: 90350},
 																			run: (*parser).callonBlockAttributes274,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2855, col: 13, offset: 90318},
+																				pos: position{line: 2856, col: 13, offset: 90350},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2855, col: 13, offset: 90318},
+																					pos:        position{line: 2856, col: 13, offset: 90350},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12698,28 +12698,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2931, col: 8, offset: 92190},
+																		pos: position{line: 2932, col: 8, offset: 92222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
+																				pos: position{line: 2919, col: 12, offset: 91995},
 																				run: (*parser).callonBlockAttributes278,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12728,9 +12728,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2928, col: 8, offset: 92140},
+																				pos: position{line: 2929, col: 8, offset: 92172},
 																				expr: &anyMatcher{
-																					line: 2928, col: 9, offset: 92141,
+																					line: 2929, col: 9, offset: 92173,
 																				},
 																			},
 																		},
@@ -12761,10 +12761,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 380, col: 44, offset: 11820},
 												expr: &actionExpr{
-													pos: position{line: 2909, col: 10, offset: 91792},
+													pos: position{line: 2910, col: 10, offset: 91824},
 													run: (*parser).callonBlockAttributes290,
 													expr: &charClassMatcher{
-														pos:        position{line: 2909, col: 10, offset: 91792},
+														pos:        position{line: 2910, col: 10, offset: 91824},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12773,28 +12773,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2931, col: 8, offset: 92190},
+												pos: position{line: 2932, col: 8, offset: 92222},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2918, col: 12, offset: 91963},
+														pos: position{line: 2919, col: 12, offset: 91995},
 														run: (*parser).callonBlockAttributes293,
 														expr: &choiceExpr{
-															pos: position{line: 2918, col: 13, offset: 91964},
+															pos: position{line: 2919, col: 13, offset: 91996},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2918, col: 13, offset: 91964},
+																	pos:        position{line: 2919, col: 13, offset: 91996},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2918, col: 20, offset: 91971},
+																	pos:        position{line: 2919, col: 20, offset: 92003},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2918, col: 29, offset: 91980},
+																	pos:        position{line: 2919, col: 29, offset: 92012},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12803,9 +12803,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2928, col: 8, offset: 92140},
+														pos: position{line: 2929, col: 8, offset: 92172},
 														expr: &anyMatcher{
-															line: 2928, col: 9, offset: 92141,
+															line: 2929, col: 9, offset: 92173,
 														},
 													},
 												},
@@ -12822,18 +12822,18 @@ var g = &grammar{
 																pos: position{line: 678, col: 14, offset: 21586},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2926, col: 11, offset: 92126},
+																		pos: position{line: 2927, col: 11, offset: 92158},
 																		expr: &anyMatcher{
-																			line: 2926, col: 13, offset: 92128,
+																			line: 2927, col: 13, offset: 92160,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 678, col: 21, offset: 21593},
 																		expr: &actionExpr{
-																			pos: position{line: 2909, col: 10, offset: 91792},
+																			pos: position{line: 2910, col: 10, offset: 91824},
 																			run: (*parser).callonBlockAttributes307,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2909, col: 10, offset: 91792},
+																				pos:        position{line: 2910, col: 10, offset: 91824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12842,28 +12842,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2931, col: 8, offset: 92190},
+																		pos: position{line: 2932, col: 8, offset: 92222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
+																				pos: position{line: 2919, col: 12, offset: 91995},
 																				run: (*parser).callonBlockAttributes310,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12872,9 +12872,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2928, col: 8, offset: 92140},
+																				pos: position{line: 2929, col: 8, offset: 92172},
 																				expr: &anyMatcher{
-																					line: 2928, col: 9, offset: 92141,
+																					line: 2929, col: 9, offset: 92173,
 																				},
 																			},
 																		},
@@ -12883,36 +12883,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2512, col: 22, offset: 80570},
+															pos: position{line: 2513, col: 22, offset: 80602},
 															run: (*parser).callonBlockAttributes317,
 															expr: &seqExpr{
-																pos: position{line: 2512, col: 22, offset: 80570},
+																pos: position{line: 2513, col: 22, offset: 80602},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2517, col: 31, offset: 80820},
+																		pos:        position{line: 2518, col: 31, offset: 80852},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2517, col: 36, offset: 80825},
+																		pos: position{line: 2518, col: 36, offset: 80857},
 																		expr: &litMatcher{
-																			pos:        position{line: 2517, col: 37, offset: 80826},
+																			pos:        position{line: 2518, col: 37, offset: 80858},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2512, col: 49, offset: 80597},
+																		pos:   position{line: 2513, col: 49, offset: 80629},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2855, col: 13, offset: 90318},
+																			pos: position{line: 2856, col: 13, offset: 90350},
 																			run: (*parser).callonBlockAttributes323,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2855, col: 13, offset: 90318},
+																				pos: position{line: 2856, col: 13, offset: 90350},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2855, col: 13, offset: 90318},
+																					pos:        position{line: 2856, col: 13, offset: 90350},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12922,28 +12922,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2931, col: 8, offset: 92190},
+																		pos: position{line: 2932, col: 8, offset: 92222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
+																				pos: position{line: 2919, col: 12, offset: 91995},
 																				run: (*parser).callonBlockAttributes327,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12952,9 +12952,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2928, col: 8, offset: 92140},
+																				pos: position{line: 2929, col: 8, offset: 92172},
 																				expr: &anyMatcher{
-																					line: 2928, col: 9, offset: 92141,
+																					line: 2929, col: 9, offset: 92173,
 																				},
 																			},
 																		},
@@ -13204,10 +13204,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 467, col: 13, offset: 14626},
 										expr: &actionExpr{
-											pos: position{line: 2909, col: 10, offset: 91792},
+											pos: position{line: 2910, col: 10, offset: 91824},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2909, col: 10, offset: 91792},
+												pos:        position{line: 2910, col: 10, offset: 91824},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13739,10 +13739,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 519, col: 9, offset: 16208},
 													expr: &actionExpr{
-														pos: position{line: 2909, col: 10, offset: 91792},
+														pos: position{line: 2910, col: 10, offset: 91824},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2909, col: 10, offset: 91792},
+															pos:        position{line: 2910, col: 10, offset: 91824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13803,10 +13803,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 525, col: 34, offset: 16351},
 														expr: &actionExpr{
-															pos: position{line: 2909, col: 10, offset: 91792},
+															pos: position{line: 2910, col: 10, offset: 91824},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2909, col: 10, offset: 91792},
+																pos:        position{line: 2910, col: 10, offset: 91824},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13846,10 +13846,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 530, col: 13, offset: 16515},
 												expr: &actionExpr{
-													pos: position{line: 2909, col: 10, offset: 91792},
+													pos: position{line: 2910, col: 10, offset: 91824},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2909, col: 10, offset: 91792},
+														pos:        position{line: 2910, col: 10, offset: 91824},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13872,10 +13872,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 530, col: 26, offset: 16528},
 																expr: &actionExpr{
-																	pos: position{line: 2909, col: 10, offset: 91792},
+																	pos: position{line: 2910, col: 10, offset: 91824},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2909, col: 10, offset: 91792},
+																		pos:        position{line: 2910, col: 10, offset: 91824},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13930,10 +13930,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 550, col: 22, offset: 17175},
 											expr: &actionExpr{
-												pos: position{line: 2909, col: 10, offset: 91792},
+												pos: position{line: 2910, col: 10, offset: 91824},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2909, col: 10, offset: 91792},
+													pos:        position{line: 2910, col: 10, offset: 91824},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13964,10 +13964,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 543, col: 9, offset: 16920},
 							expr: &actionExpr{
-								pos: position{line: 2909, col: 10, offset: 91792},
+								pos: position{line: 2910, col: 10, offset: 91824},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2909, col: 10, offset: 91792},
+									pos:        position{line: 2910, col: 10, offset: 91824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13997,10 +13997,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 544, col: 33, offset: 16960},
 										expr: &actionExpr{
-											pos: position{line: 2909, col: 10, offset: 91792},
+											pos: position{line: 2910, col: 10, offset: 91824},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2909, col: 10, offset: 91792},
+												pos:        position{line: 2910, col: 10, offset: 91824},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14055,10 +14055,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 560, col: 9, offset: 17392},
 											expr: &actionExpr{
-												pos: position{line: 2909, col: 10, offset: 91792},
+												pos: position{line: 2910, col: 10, offset: 91824},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2909, col: 10, offset: 91792},
+													pos:        position{line: 2910, col: 10, offset: 91824},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14137,12 +14137,12 @@ var g = &grammar{
 							pos: position{line: 573, col: 9, offset: 17709},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2803, col: 14, offset: 88961},
+									pos: position{line: 2804, col: 14, offset: 88993},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2803, col: 14, offset: 88961},
+										pos: position{line: 2804, col: 14, offset: 88993},
 										expr: &charClassMatcher{
-											pos:        position{line: 2803, col: 14, offset: 88961},
+											pos:        position{line: 2804, col: 14, offset: 88993},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14151,10 +14151,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2909, col: 10, offset: 91792},
+									pos: position{line: 2910, col: 10, offset: 91824},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2909, col: 10, offset: 91792},
+										pos:        position{line: 2910, col: 10, offset: 91824},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14611,10 +14611,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 593, col: 14, offset: 18449},
 											expr: &actionExpr{
-												pos: position{line: 2909, col: 10, offset: 91792},
+												pos: position{line: 2910, col: 10, offset: 91824},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2909, col: 10, offset: 91792},
+													pos:        position{line: 2910, col: 10, offset: 91824},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14651,12 +14651,12 @@ var g = &grammar{
 							pos: position{line: 599, col: 9, offset: 18560},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2803, col: 14, offset: 88961},
+									pos: position{line: 2804, col: 14, offset: 88993},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2803, col: 14, offset: 88961},
+										pos: position{line: 2804, col: 14, offset: 88993},
 										expr: &charClassMatcher{
-											pos:        position{line: 2803, col: 14, offset: 88961},
+											pos:        position{line: 2804, col: 14, offset: 88993},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14665,10 +14665,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2909, col: 10, offset: 91792},
+									pos: position{line: 2910, col: 10, offset: 91824},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2909, col: 10, offset: 91792},
+										pos:        position{line: 2910, col: 10, offset: 91824},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15095,10 +15095,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 620, col: 5, offset: 19416},
 							expr: &actionExpr{
-								pos: position{line: 2909, col: 10, offset: 91792},
+								pos: position{line: 2910, col: 10, offset: 91824},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2909, col: 10, offset: 91792},
+									pos:        position{line: 2910, col: 10, offset: 91824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15488,10 +15488,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2909, col: 10, offset: 91792},
+											pos: position{line: 2910, col: 10, offset: 91824},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2909, col: 10, offset: 91792},
+												pos:        position{line: 2910, col: 10, offset: 91824},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15542,12 +15542,12 @@ var g = &grammar{
 									pos:   position{line: 687, col: 32, offset: 21946},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2894, col: 7, offset: 91444},
+										pos: position{line: 2895, col: 7, offset: 91476},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2894, col: 7, offset: 91444},
+											pos: position{line: 2895, col: 7, offset: 91476},
 											expr: &charClassMatcher{
-												pos:        position{line: 2894, col: 7, offset: 91444},
+												pos:        position{line: 2895, col: 7, offset: 91476},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15559,10 +15559,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 687, col: 40, offset: 21954},
 									expr: &actionExpr{
-										pos: position{line: 2909, col: 10, offset: 91792},
+										pos: position{line: 2910, col: 10, offset: 91824},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2909, col: 10, offset: 91792},
+											pos:        position{line: 2910, col: 10, offset: 91824},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15755,12 +15755,12 @@ var g = &grammar{
 									pos:   position{line: 689, col: 14, offset: 22071},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2894, col: 7, offset: 91444},
+										pos: position{line: 2895, col: 7, offset: 91476},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2894, col: 7, offset: 91444},
+											pos: position{line: 2895, col: 7, offset: 91476},
 											expr: &charClassMatcher{
-												pos:        position{line: 2894, col: 7, offset: 91444},
+												pos:        position{line: 2895, col: 7, offset: 91476},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15804,41 +15804,41 @@ var g = &grammar{
 							pos:   position{line: 693, col: 35, offset: 22184},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2863, col: 17, offset: 90455},
+								pos: position{line: 2864, col: 17, offset: 90487},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2863, col: 17, offset: 90455},
+									pos:   position{line: 2864, col: 17, offset: 90487},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2880, col: 5, offset: 90909},
+										pos: position{line: 2881, col: 5, offset: 90941},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2880, col: 5, offset: 90909},
+											pos:   position{line: 2881, col: 5, offset: 90941},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2880, col: 14, offset: 90918},
+												pos: position{line: 2881, col: 14, offset: 90950},
 												expr: &choiceExpr{
-													pos: position{line: 2881, col: 9, offset: 90928},
+													pos: position{line: 2882, col: 9, offset: 90960},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2881, col: 9, offset: 90928},
+															pos: position{line: 2882, col: 9, offset: 90960},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2881, col: 9, offset: 90928},
+																pos: position{line: 2882, col: 9, offset: 90960},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2881, col: 9, offset: 90928},
+																		pos: position{line: 2882, col: 9, offset: 90960},
 																		expr: &litMatcher{
-																			pos:        position{line: 2881, col: 10, offset: 90929},
+																			pos:        position{line: 2882, col: 10, offset: 90961},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2882, col: 9, offset: 90957},
+																		pos: position{line: 2883, col: 9, offset: 90989},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2882, col: 10, offset: 90958},
+																			pos:        position{line: 2883, col: 10, offset: 90990},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15849,27 +15849,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2885, col: 11, offset: 91170},
+															pos: position{line: 2886, col: 11, offset: 91202},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2885, col: 11, offset: 91170},
+																	pos:        position{line: 2886, col: 11, offset: 91202},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2885, col: 19, offset: 91178},
+																	pos: position{line: 2886, col: 19, offset: 91210},
 																	expr: &seqExpr{
-																		pos: position{line: 2885, col: 21, offset: 91180},
+																		pos: position{line: 2886, col: 21, offset: 91212},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2885, col: 21, offset: 91180},
+																				pos: position{line: 2886, col: 21, offset: 91212},
 																				expr: &actionExpr{
-																					pos: position{line: 2909, col: 10, offset: 91792},
+																					pos: position{line: 2910, col: 10, offset: 91824},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2909, col: 10, offset: 91792},
+																						pos:        position{line: 2910, col: 10, offset: 91824},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15878,11 +15878,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 28, offset: 91187},
+																				pos: position{line: 2886, col: 28, offset: 91219},
 																				expr: &notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -16277,10 +16277,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2888, col: 11, offset: 91307},
+															pos: position{line: 2889, col: 11, offset: 91339},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2888, col: 11, offset: 91307},
+																pos:        position{line: 2889, col: 11, offset: 91339},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16325,12 +16325,12 @@ var g = &grammar{
 							pos:   position{line: 990, col: 11, offset: 30903},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2859, col: 14, offset: 90385},
+								pos: position{line: 2860, col: 14, offset: 90417},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2859, col: 14, offset: 90385},
+									pos: position{line: 2860, col: 14, offset: 90417},
 									expr: &charClassMatcher{
-										pos:        position{line: 2859, col: 14, offset: 90385},
+										pos:        position{line: 2860, col: 14, offset: 90417},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16340,28 +16340,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2931, col: 8, offset: 92190},
+							pos: position{line: 2932, col: 8, offset: 92222},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2918, col: 12, offset: 91963},
+									pos: position{line: 2919, col: 12, offset: 91995},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2918, col: 13, offset: 91964},
+										pos: position{line: 2919, col: 13, offset: 91996},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2918, col: 13, offset: 91964},
+												pos:        position{line: 2919, col: 13, offset: 91996},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2918, col: 20, offset: 91971},
+												pos:        position{line: 2919, col: 20, offset: 92003},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2918, col: 29, offset: 91980},
+												pos:        position{line: 2919, col: 29, offset: 92012},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16370,9 +16370,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2928, col: 8, offset: 92140},
+									pos: position{line: 2929, col: 8, offset: 92172},
 									expr: &anyMatcher{
-										line: 2928, col: 9, offset: 92141,
+										line: 2929, col: 9, offset: 92173,
 									},
 								},
 							},
@@ -16400,36 +16400,36 @@ var g = &grammar{
 								pos: position{line: 1105, col: 6, offset: 33905},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2512, col: 22, offset: 80570},
+										pos: position{line: 2513, col: 22, offset: 80602},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 22, offset: 80570},
+											pos: position{line: 2513, col: 22, offset: 80602},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2517, col: 31, offset: 80820},
+													pos:        position{line: 2518, col: 31, offset: 80852},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2517, col: 36, offset: 80825},
+													pos: position{line: 2518, col: 36, offset: 80857},
 													expr: &litMatcher{
-														pos:        position{line: 2517, col: 37, offset: 80826},
+														pos:        position{line: 2518, col: 37, offset: 80858},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2512, col: 49, offset: 80597},
+													pos:   position{line: 2513, col: 49, offset: 80629},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2855, col: 13, offset: 90318},
+														pos: position{line: 2856, col: 13, offset: 90350},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2855, col: 13, offset: 90318},
+															pos: position{line: 2856, col: 13, offset: 90350},
 															expr: &charClassMatcher{
-																pos:        position{line: 2855, col: 13, offset: 90318},
+																pos:        position{line: 2856, col: 13, offset: 90350},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16439,28 +16439,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2931, col: 8, offset: 92190},
+													pos: position{line: 2932, col: 8, offset: 92222},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2918, col: 12, offset: 91963},
+															pos: position{line: 2919, col: 12, offset: 91995},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2918, col: 13, offset: 91964},
+																pos: position{line: 2919, col: 13, offset: 91996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 13, offset: 91964},
+																		pos:        position{line: 2919, col: 13, offset: 91996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 20, offset: 91971},
+																		pos:        position{line: 2919, col: 20, offset: 92003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 29, offset: 91980},
+																		pos:        position{line: 2919, col: 29, offset: 92012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16469,9 +16469,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2928, col: 8, offset: 92140},
+															pos: position{line: 2929, col: 8, offset: 92172},
 															expr: &anyMatcher{
-																line: 2928, col: 9, offset: 92141,
+																line: 2929, col: 9, offset: 92173,
 															},
 														},
 													},
@@ -16522,10 +16522,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 743, col: 8, offset: 23783},
 																expr: &actionExpr{
-																	pos: position{line: 2909, col: 10, offset: 91792},
+																	pos: position{line: 2910, col: 10, offset: 91824},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2909, col: 10, offset: 91792},
+																		pos:        position{line: 2910, col: 10, offset: 91824},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16534,28 +16534,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2931, col: 8, offset: 92190},
+																pos: position{line: 2932, col: 8, offset: 92222},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2918, col: 12, offset: 91963},
+																		pos: position{line: 2919, col: 12, offset: 91995},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2918, col: 13, offset: 91964},
+																			pos: position{line: 2919, col: 13, offset: 91996},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2918, col: 13, offset: 91964},
+																					pos:        position{line: 2919, col: 13, offset: 91996},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2918, col: 20, offset: 91971},
+																					pos:        position{line: 2919, col: 20, offset: 92003},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2918, col: 29, offset: 91980},
+																					pos:        position{line: 2919, col: 29, offset: 92012},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16564,9 +16564,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2928, col: 8, offset: 92140},
+																		pos: position{line: 2929, col: 8, offset: 92172},
 																		expr: &anyMatcher{
-																			line: 2928, col: 9, offset: 92141,
+																			line: 2929, col: 9, offset: 92173,
 																		},
 																	},
 																},
@@ -16627,10 +16627,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23783},
 																								expr: &actionExpr{
-																									pos: position{line: 2909, col: 10, offset: 91792},
+																									pos: position{line: 2910, col: 10, offset: 91824},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2909, col: 10, offset: 91792},
+																										pos:        position{line: 2910, col: 10, offset: 91824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16639,28 +16639,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2931, col: 8, offset: 92190},
+																								pos: position{line: 2932, col: 8, offset: 92222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2918, col: 12, offset: 91963},
+																										pos: position{line: 2919, col: 12, offset: 91995},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2918, col: 13, offset: 91964},
+																											pos: position{line: 2919, col: 13, offset: 91996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 13, offset: 91964},
+																													pos:        position{line: 2919, col: 13, offset: 91996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 20, offset: 91971},
+																													pos:        position{line: 2919, col: 20, offset: 92003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 29, offset: 91980},
+																													pos:        position{line: 2919, col: 29, offset: 92012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16669,9 +16669,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2928, col: 8, offset: 92140},
+																										pos: position{line: 2929, col: 8, offset: 92172},
 																										expr: &anyMatcher{
-																											line: 2928, col: 9, offset: 92141,
+																											line: 2929, col: 9, offset: 92173,
 																										},
 																									},
 																								},
@@ -16680,9 +16680,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -16698,21 +16698,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2926, col: 11, offset: 92126},
+																						pos: position{line: 2927, col: 11, offset: 92158},
 																						expr: &anyMatcher{
-																							line: 2926, col: 13, offset: 92128,
+																							line: 2927, col: 13, offset: 92160,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2855, col: 13, offset: 90318},
+																							pos: position{line: 2856, col: 13, offset: 90350},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2855, col: 13, offset: 90318},
+																								pos: position{line: 2856, col: 13, offset: 90350},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2855, col: 13, offset: 90318},
+																									pos:        position{line: 2856, col: 13, offset: 90350},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16722,28 +16722,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2931, col: 8, offset: 92190},
+																						pos: position{line: 2932, col: 8, offset: 92222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2918, col: 12, offset: 91963},
+																								pos: position{line: 2919, col: 12, offset: 91995},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2918, col: 13, offset: 91964},
+																									pos: position{line: 2919, col: 13, offset: 91996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 13, offset: 91964},
+																											pos:        position{line: 2919, col: 13, offset: 91996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 20, offset: 91971},
+																											pos:        position{line: 2919, col: 20, offset: 92003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 29, offset: 91980},
+																											pos:        position{line: 2919, col: 29, offset: 92012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16752,9 +16752,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2928, col: 8, offset: 92140},
+																								pos: position{line: 2929, col: 8, offset: 92172},
 																								expr: &anyMatcher{
-																									line: 2928, col: 9, offset: 92141,
+																									line: 2929, col: 9, offset: 92173,
 																								},
 																							},
 																						},
@@ -16810,10 +16810,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23783},
 																			expr: &actionExpr{
-																				pos: position{line: 2909, col: 10, offset: 91792},
+																				pos: position{line: 2910, col: 10, offset: 91824},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2909, col: 10, offset: 91792},
+																					pos:        position{line: 2910, col: 10, offset: 91824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16822,28 +16822,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2931, col: 8, offset: 92190},
+																			pos: position{line: 2932, col: 8, offset: 92222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2918, col: 12, offset: 91963},
+																					pos: position{line: 2919, col: 12, offset: 91995},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2918, col: 13, offset: 91964},
+																						pos: position{line: 2919, col: 13, offset: 91996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 13, offset: 91964},
+																								pos:        position{line: 2919, col: 13, offset: 91996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 20, offset: 91971},
+																								pos:        position{line: 2919, col: 20, offset: 92003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 29, offset: 91980},
+																								pos:        position{line: 2919, col: 29, offset: 92012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16852,9 +16852,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -16863,9 +16863,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2928, col: 8, offset: 92140},
+																pos: position{line: 2929, col: 8, offset: 92172},
 																expr: &anyMatcher{
-																	line: 2928, col: 9, offset: 92141,
+																	line: 2929, col: 9, offset: 92173,
 																},
 															},
 														},
@@ -16891,36 +16891,36 @@ var g = &grammar{
 								pos: position{line: 1107, col: 6, offset: 34028},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2512, col: 22, offset: 80570},
+										pos: position{line: 2513, col: 22, offset: 80602},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 22, offset: 80570},
+											pos: position{line: 2513, col: 22, offset: 80602},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2517, col: 31, offset: 80820},
+													pos:        position{line: 2518, col: 31, offset: 80852},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2517, col: 36, offset: 80825},
+													pos: position{line: 2518, col: 36, offset: 80857},
 													expr: &litMatcher{
-														pos:        position{line: 2517, col: 37, offset: 80826},
+														pos:        position{line: 2518, col: 37, offset: 80858},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2512, col: 49, offset: 80597},
+													pos:   position{line: 2513, col: 49, offset: 80629},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2855, col: 13, offset: 90318},
+														pos: position{line: 2856, col: 13, offset: 90350},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2855, col: 13, offset: 90318},
+															pos: position{line: 2856, col: 13, offset: 90350},
 															expr: &charClassMatcher{
-																pos:        position{line: 2855, col: 13, offset: 90318},
+																pos:        position{line: 2856, col: 13, offset: 90350},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16930,28 +16930,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2931, col: 8, offset: 92190},
+													pos: position{line: 2932, col: 8, offset: 92222},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2918, col: 12, offset: 91963},
+															pos: position{line: 2919, col: 12, offset: 91995},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2918, col: 13, offset: 91964},
+																pos: position{line: 2919, col: 13, offset: 91996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 13, offset: 91964},
+																		pos:        position{line: 2919, col: 13, offset: 91996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 20, offset: 91971},
+																		pos:        position{line: 2919, col: 20, offset: 92003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 29, offset: 91980},
+																		pos:        position{line: 2919, col: 29, offset: 92012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16960,9 +16960,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2928, col: 8, offset: 92140},
+															pos: position{line: 2929, col: 8, offset: 92172},
 															expr: &anyMatcher{
-																line: 2928, col: 9, offset: 92141,
+																line: 2929, col: 9, offset: 92173,
 															},
 														},
 													},
@@ -17013,10 +17013,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 743, col: 8, offset: 23783},
 																expr: &actionExpr{
-																	pos: position{line: 2909, col: 10, offset: 91792},
+																	pos: position{line: 2910, col: 10, offset: 91824},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2909, col: 10, offset: 91792},
+																		pos:        position{line: 2910, col: 10, offset: 91824},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17025,28 +17025,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2931, col: 8, offset: 92190},
+																pos: position{line: 2932, col: 8, offset: 92222},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2918, col: 12, offset: 91963},
+																		pos: position{line: 2919, col: 12, offset: 91995},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2918, col: 13, offset: 91964},
+																			pos: position{line: 2919, col: 13, offset: 91996},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2918, col: 13, offset: 91964},
+																					pos:        position{line: 2919, col: 13, offset: 91996},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2918, col: 20, offset: 91971},
+																					pos:        position{line: 2919, col: 20, offset: 92003},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2918, col: 29, offset: 91980},
+																					pos:        position{line: 2919, col: 29, offset: 92012},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17055,9 +17055,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2928, col: 8, offset: 92140},
+																		pos: position{line: 2929, col: 8, offset: 92172},
 																		expr: &anyMatcher{
-																			line: 2928, col: 9, offset: 92141,
+																			line: 2929, col: 9, offset: 92173,
 																		},
 																	},
 																},
@@ -17118,10 +17118,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23783},
 																								expr: &actionExpr{
-																									pos: position{line: 2909, col: 10, offset: 91792},
+																									pos: position{line: 2910, col: 10, offset: 91824},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2909, col: 10, offset: 91792},
+																										pos:        position{line: 2910, col: 10, offset: 91824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17130,28 +17130,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2931, col: 8, offset: 92190},
+																								pos: position{line: 2932, col: 8, offset: 92222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2918, col: 12, offset: 91963},
+																										pos: position{line: 2919, col: 12, offset: 91995},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2918, col: 13, offset: 91964},
+																											pos: position{line: 2919, col: 13, offset: 91996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 13, offset: 91964},
+																													pos:        position{line: 2919, col: 13, offset: 91996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 20, offset: 91971},
+																													pos:        position{line: 2919, col: 20, offset: 92003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 29, offset: 91980},
+																													pos:        position{line: 2919, col: 29, offset: 92012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17160,9 +17160,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2928, col: 8, offset: 92140},
+																										pos: position{line: 2929, col: 8, offset: 92172},
 																										expr: &anyMatcher{
-																											line: 2928, col: 9, offset: 92141,
+																											line: 2929, col: 9, offset: 92173,
 																										},
 																									},
 																								},
@@ -17171,9 +17171,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -17189,21 +17189,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2926, col: 11, offset: 92126},
+																						pos: position{line: 2927, col: 11, offset: 92158},
 																						expr: &anyMatcher{
-																							line: 2926, col: 13, offset: 92128,
+																							line: 2927, col: 13, offset: 92160,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2855, col: 13, offset: 90318},
+																							pos: position{line: 2856, col: 13, offset: 90350},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2855, col: 13, offset: 90318},
+																								pos: position{line: 2856, col: 13, offset: 90350},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2855, col: 13, offset: 90318},
+																									pos:        position{line: 2856, col: 13, offset: 90350},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17213,28 +17213,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2931, col: 8, offset: 92190},
+																						pos: position{line: 2932, col: 8, offset: 92222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2918, col: 12, offset: 91963},
+																								pos: position{line: 2919, col: 12, offset: 91995},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2918, col: 13, offset: 91964},
+																									pos: position{line: 2919, col: 13, offset: 91996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 13, offset: 91964},
+																											pos:        position{line: 2919, col: 13, offset: 91996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 20, offset: 91971},
+																											pos:        position{line: 2919, col: 20, offset: 92003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 29, offset: 91980},
+																											pos:        position{line: 2919, col: 29, offset: 92012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17243,9 +17243,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2928, col: 8, offset: 92140},
+																								pos: position{line: 2929, col: 8, offset: 92172},
 																								expr: &anyMatcher{
-																									line: 2928, col: 9, offset: 92141,
+																									line: 2929, col: 9, offset: 92173,
 																								},
 																							},
 																						},
@@ -17301,10 +17301,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23783},
 																			expr: &actionExpr{
-																				pos: position{line: 2909, col: 10, offset: 91792},
+																				pos: position{line: 2910, col: 10, offset: 91824},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2909, col: 10, offset: 91792},
+																					pos:        position{line: 2910, col: 10, offset: 91824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -17313,28 +17313,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2931, col: 8, offset: 92190},
+																			pos: position{line: 2932, col: 8, offset: 92222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2918, col: 12, offset: 91963},
+																					pos: position{line: 2919, col: 12, offset: 91995},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2918, col: 13, offset: 91964},
+																						pos: position{line: 2919, col: 13, offset: 91996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 13, offset: 91964},
+																								pos:        position{line: 2919, col: 13, offset: 91996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 20, offset: 91971},
+																								pos:        position{line: 2919, col: 20, offset: 92003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 29, offset: 91980},
+																								pos:        position{line: 2919, col: 29, offset: 92012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -17343,9 +17343,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -17354,9 +17354,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2928, col: 8, offset: 92140},
+																pos: position{line: 2929, col: 8, offset: 92172},
 																expr: &anyMatcher{
-																	line: 2928, col: 9, offset: 92141,
+																	line: 2929, col: 9, offset: 92173,
 																},
 															},
 														},
@@ -17400,10 +17400,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1126, col: 20, offset: 34783},
 																expr: &actionExpr{
-																	pos: position{line: 2909, col: 10, offset: 91792},
+																	pos: position{line: 2910, col: 10, offset: 91824},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2909, col: 10, offset: 91792},
+																		pos:        position{line: 2910, col: 10, offset: 91824},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17454,10 +17454,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1145, col: 5, offset: 35388},
 																										expr: &actionExpr{
-																											pos: position{line: 2909, col: 10, offset: 91792},
+																											pos: position{line: 2910, col: 10, offset: 91824},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2909, col: 10, offset: 91792},
+																												pos:        position{line: 2910, col: 10, offset: 91824},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17489,10 +17489,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1149, col: 5, offset: 35487},
 																										expr: &actionExpr{
-																											pos: position{line: 2909, col: 10, offset: 91792},
+																											pos: position{line: 2910, col: 10, offset: 91824},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2909, col: 10, offset: 91792},
+																												pos:        position{line: 2910, col: 10, offset: 91824},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17524,10 +17524,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1153, col: 5, offset: 35584},
 																										expr: &actionExpr{
-																											pos: position{line: 2909, col: 10, offset: 91792},
+																											pos: position{line: 2910, col: 10, offset: 91824},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2909, col: 10, offset: 91792},
+																												pos:        position{line: 2910, col: 10, offset: 91824},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17552,9 +17552,9 @@ var g = &grammar{
 																								pos: position{line: 1159, col: 5, offset: 35706},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2926, col: 11, offset: 92126},
+																										pos: position{line: 2927, col: 11, offset: 92158},
 																										expr: &anyMatcher{
-																											line: 2926, col: 13, offset: 92128,
+																											line: 2927, col: 13, offset: 92160,
 																										},
 																									},
 																									&litMatcher{
@@ -17595,10 +17595,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1131, col: 69, offset: 34976},
 																					expr: &actionExpr{
-																						pos: position{line: 2909, col: 10, offset: 91792},
+																						pos: position{line: 2910, col: 10, offset: 91824},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 91792},
+																							pos:        position{line: 2910, col: 10, offset: 91824},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17618,10 +17618,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1131, col: 81, offset: 34988},
 																					expr: &actionExpr{
-																						pos: position{line: 2909, col: 10, offset: 91792},
+																						pos: position{line: 2910, col: 10, offset: 91824},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 91792},
+																							pos:        position{line: 2910, col: 10, offset: 91824},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17639,28 +17639,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2931, col: 8, offset: 92190},
+																pos: position{line: 2932, col: 8, offset: 92222},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2918, col: 12, offset: 91963},
+																		pos: position{line: 2919, col: 12, offset: 91995},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2918, col: 13, offset: 91964},
+																			pos: position{line: 2919, col: 13, offset: 91996},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2918, col: 13, offset: 91964},
+																					pos:        position{line: 2919, col: 13, offset: 91996},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2918, col: 20, offset: 91971},
+																					pos:        position{line: 2919, col: 20, offset: 92003},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2918, col: 29, offset: 91980},
+																					pos:        position{line: 2919, col: 29, offset: 92012},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17669,9 +17669,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2928, col: 8, offset: 92140},
+																		pos: position{line: 2929, col: 8, offset: 92172},
 																		expr: &anyMatcher{
-																			line: 2928, col: 9, offset: 92141,
+																			line: 2929, col: 9, offset: 92173,
 																		},
 																	},
 																},
@@ -17686,36 +17686,36 @@ var g = &grammar{
 													pos: position{line: 1121, col: 6, offset: 34558},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2512, col: 22, offset: 80570},
+															pos: position{line: 2513, col: 22, offset: 80602},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2512, col: 22, offset: 80570},
+																pos: position{line: 2513, col: 22, offset: 80602},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2517, col: 31, offset: 80820},
+																		pos:        position{line: 2518, col: 31, offset: 80852},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2517, col: 36, offset: 80825},
+																		pos: position{line: 2518, col: 36, offset: 80857},
 																		expr: &litMatcher{
-																			pos:        position{line: 2517, col: 37, offset: 80826},
+																			pos:        position{line: 2518, col: 37, offset: 80858},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2512, col: 49, offset: 80597},
+																		pos:   position{line: 2513, col: 49, offset: 80629},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2855, col: 13, offset: 90318},
+																			pos: position{line: 2856, col: 13, offset: 90350},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2855, col: 13, offset: 90318},
+																				pos: position{line: 2856, col: 13, offset: 90350},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2855, col: 13, offset: 90318},
+																					pos:        position{line: 2856, col: 13, offset: 90350},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17725,28 +17725,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2931, col: 8, offset: 92190},
+																		pos: position{line: 2932, col: 8, offset: 92222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
+																				pos: position{line: 2919, col: 12, offset: 91995},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17755,9 +17755,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2928, col: 8, offset: 92140},
+																				pos: position{line: 2929, col: 8, offset: 92172},
 																				expr: &anyMatcher{
-																					line: 2928, col: 9, offset: 92141,
+																					line: 2929, col: 9, offset: 92173,
 																				},
 																			},
 																		},
@@ -17808,10 +17808,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 743, col: 8, offset: 23783},
 																					expr: &actionExpr{
-																						pos: position{line: 2909, col: 10, offset: 91792},
+																						pos: position{line: 2910, col: 10, offset: 91824},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 91792},
+																							pos:        position{line: 2910, col: 10, offset: 91824},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17820,28 +17820,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2931, col: 8, offset: 92190},
+																					pos: position{line: 2932, col: 8, offset: 92222},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2918, col: 12, offset: 91963},
+																							pos: position{line: 2919, col: 12, offset: 91995},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2918, col: 13, offset: 91964},
+																								pos: position{line: 2919, col: 13, offset: 91996},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 13, offset: 91964},
+																										pos:        position{line: 2919, col: 13, offset: 91996},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 20, offset: 91971},
+																										pos:        position{line: 2919, col: 20, offset: 92003},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 29, offset: 91980},
+																										pos:        position{line: 2919, col: 29, offset: 92012},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17850,9 +17850,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2928, col: 8, offset: 92140},
+																							pos: position{line: 2929, col: 8, offset: 92172},
 																							expr: &anyMatcher{
-																								line: 2928, col: 9, offset: 92141,
+																								line: 2929, col: 9, offset: 92173,
 																							},
 																						},
 																					},
@@ -17913,10 +17913,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 743, col: 8, offset: 23783},
 																													expr: &actionExpr{
-																														pos: position{line: 2909, col: 10, offset: 91792},
+																														pos: position{line: 2910, col: 10, offset: 91824},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2909, col: 10, offset: 91792},
+																															pos:        position{line: 2910, col: 10, offset: 91824},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17925,28 +17925,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2931, col: 8, offset: 92190},
+																													pos: position{line: 2932, col: 8, offset: 92222},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2918, col: 12, offset: 91963},
+																															pos: position{line: 2919, col: 12, offset: 91995},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2918, col: 13, offset: 91964},
+																																pos: position{line: 2919, col: 13, offset: 91996},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2918, col: 13, offset: 91964},
+																																		pos:        position{line: 2919, col: 13, offset: 91996},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2918, col: 20, offset: 91971},
+																																		pos:        position{line: 2919, col: 20, offset: 92003},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2918, col: 29, offset: 91980},
+																																		pos:        position{line: 2919, col: 29, offset: 92012},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17955,9 +17955,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2928, col: 8, offset: 92140},
+																															pos: position{line: 2929, col: 8, offset: 92172},
 																															expr: &anyMatcher{
-																																line: 2928, col: 9, offset: 92141,
+																																line: 2929, col: 9, offset: 92173,
 																															},
 																														},
 																													},
@@ -17966,9 +17966,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2928, col: 8, offset: 92140},
+																										pos: position{line: 2929, col: 8, offset: 92172},
 																										expr: &anyMatcher{
-																											line: 2928, col: 9, offset: 92141,
+																											line: 2929, col: 9, offset: 92173,
 																										},
 																									},
 																								},
@@ -17984,21 +17984,21 @@ var g = &grammar{
 																									pos: position{line: 812, col: 5, offset: 26185},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2926, col: 11, offset: 92126},
+																											pos: position{line: 2927, col: 11, offset: 92158},
 																											expr: &anyMatcher{
-																												line: 2926, col: 13, offset: 92128,
+																												line: 2927, col: 13, offset: 92160,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 813, col: 5, offset: 26260},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2855, col: 13, offset: 90318},
+																												pos: position{line: 2856, col: 13, offset: 90350},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2855, col: 13, offset: 90318},
+																													pos: position{line: 2856, col: 13, offset: 90350},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2855, col: 13, offset: 90318},
+																														pos:        position{line: 2856, col: 13, offset: 90350},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18008,28 +18008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2931, col: 8, offset: 92190},
+																											pos: position{line: 2932, col: 8, offset: 92222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2918, col: 12, offset: 91963},
+																													pos: position{line: 2919, col: 12, offset: 91995},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2918, col: 13, offset: 91964},
+																														pos: position{line: 2919, col: 13, offset: 91996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 13, offset: 91964},
+																																pos:        position{line: 2919, col: 13, offset: 91996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 20, offset: 91971},
+																																pos:        position{line: 2919, col: 20, offset: 92003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 29, offset: 91980},
+																																pos:        position{line: 2919, col: 29, offset: 92012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18038,9 +18038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2928, col: 8, offset: 92140},
+																													pos: position{line: 2929, col: 8, offset: 92172},
 																													expr: &anyMatcher{
-																														line: 2928, col: 9, offset: 92141,
+																														line: 2929, col: 9, offset: 92173,
 																													},
 																												},
 																											},
@@ -18096,10 +18096,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23783},
 																								expr: &actionExpr{
-																									pos: position{line: 2909, col: 10, offset: 91792},
+																									pos: position{line: 2910, col: 10, offset: 91824},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2909, col: 10, offset: 91792},
+																										pos:        position{line: 2910, col: 10, offset: 91824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -18108,28 +18108,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2931, col: 8, offset: 92190},
+																								pos: position{line: 2932, col: 8, offset: 92222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2918, col: 12, offset: 91963},
+																										pos: position{line: 2919, col: 12, offset: 91995},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2918, col: 13, offset: 91964},
+																											pos: position{line: 2919, col: 13, offset: 91996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 13, offset: 91964},
+																													pos:        position{line: 2919, col: 13, offset: 91996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 20, offset: 91971},
+																													pos:        position{line: 2919, col: 20, offset: 92003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 29, offset: 91980},
+																													pos:        position{line: 2919, col: 29, offset: 92012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -18138,9 +18138,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2928, col: 8, offset: 92140},
+																										pos: position{line: 2929, col: 8, offset: 92172},
 																										expr: &anyMatcher{
-																											line: 2928, col: 9, offset: 92141,
+																											line: 2929, col: 9, offset: 92173,
 																										},
 																									},
 																								},
@@ -18149,9 +18149,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -18177,10 +18177,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1170, col: 21, offset: 35984},
 																	expr: &actionExpr{
-																		pos: position{line: 2909, col: 10, offset: 91792},
+																		pos: position{line: 2910, col: 10, offset: 91824},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 10, offset: 91792},
+																			pos:        position{line: 2910, col: 10, offset: 91824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18282,10 +18282,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1182, col: 28, offset: 36615},
 																													expr: &actionExpr{
-																														pos: position{line: 2909, col: 10, offset: 91792},
+																														pos: position{line: 2910, col: 10, offset: 91824},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2909, col: 10, offset: 91792},
+																															pos:        position{line: 2910, col: 10, offset: 91824},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18432,28 +18432,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2931, col: 8, offset: 92190},
+																	pos: position{line: 2932, col: 8, offset: 92222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2918, col: 12, offset: 91963},
+																			pos: position{line: 2919, col: 12, offset: 91995},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2918, col: 13, offset: 91964},
+																				pos: position{line: 2919, col: 13, offset: 91996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 13, offset: 91964},
+																						pos:        position{line: 2919, col: 13, offset: 91996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 20, offset: 91971},
+																						pos:        position{line: 2919, col: 20, offset: 92003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 29, offset: 91980},
+																						pos:        position{line: 2919, col: 29, offset: 92012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18462,9 +18462,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2928, col: 8, offset: 92140},
+																			pos: position{line: 2929, col: 8, offset: 92172},
 																			expr: &anyMatcher{
-																				line: 2928, col: 9, offset: 92141,
+																				line: 2929, col: 9, offset: 92173,
 																			},
 																		},
 																	},
@@ -18544,10 +18544,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2909, col: 10, offset: 91792},
+															pos: position{line: 2910, col: 10, offset: 91824},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2909, col: 10, offset: 91792},
+																pos:        position{line: 2910, col: 10, offset: 91824},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18556,28 +18556,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2931, col: 8, offset: 92190},
+														pos: position{line: 2932, col: 8, offset: 92222},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2918, col: 12, offset: 91963},
+																pos: position{line: 2919, col: 12, offset: 91995},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2918, col: 13, offset: 91964},
+																	pos: position{line: 2919, col: 13, offset: 91996},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 13, offset: 91964},
+																			pos:        position{line: 2919, col: 13, offset: 91996},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 20, offset: 91971},
+																			pos:        position{line: 2919, col: 20, offset: 92003},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 29, offset: 91980},
+																			pos:        position{line: 2919, col: 29, offset: 92012},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18586,9 +18586,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2928, col: 8, offset: 92140},
+																pos: position{line: 2929, col: 8, offset: 92172},
 																expr: &anyMatcher{
-																	line: 2928, col: 9, offset: 92141,
+																	line: 2929, col: 9, offset: 92173,
 																},
 															},
 														},
@@ -18649,10 +18649,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2909, col: 10, offset: 91792},
+															pos: position{line: 2910, col: 10, offset: 91824},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2909, col: 10, offset: 91792},
+																pos:        position{line: 2910, col: 10, offset: 91824},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18661,28 +18661,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2931, col: 8, offset: 92190},
+														pos: position{line: 2932, col: 8, offset: 92222},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2918, col: 12, offset: 91963},
+																pos: position{line: 2919, col: 12, offset: 91995},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2918, col: 13, offset: 91964},
+																	pos: position{line: 2919, col: 13, offset: 91996},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 13, offset: 91964},
+																			pos:        position{line: 2919, col: 13, offset: 91996},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 20, offset: 91971},
+																			pos:        position{line: 2919, col: 20, offset: 92003},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 29, offset: 91980},
+																			pos:        position{line: 2919, col: 29, offset: 92012},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18691,9 +18691,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2928, col: 8, offset: 92140},
+																pos: position{line: 2929, col: 8, offset: 92172},
 																expr: &anyMatcher{
-																	line: 2928, col: 9, offset: 92141,
+																	line: 2929, col: 9, offset: 92173,
 																},
 															},
 														},
@@ -18702,36 +18702,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2512, col: 22, offset: 80570},
+											pos: position{line: 2513, col: 22, offset: 80602},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2512, col: 22, offset: 80570},
+												pos: position{line: 2513, col: 22, offset: 80602},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2517, col: 31, offset: 80820},
+														pos:        position{line: 2518, col: 31, offset: 80852},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2517, col: 36, offset: 80825},
+														pos: position{line: 2518, col: 36, offset: 80857},
 														expr: &litMatcher{
-															pos:        position{line: 2517, col: 37, offset: 80826},
+															pos:        position{line: 2518, col: 37, offset: 80858},
 															val:        "/",
 															ignoreCase: false,
 															want:       "\"/\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2512, col: 49, offset: 80597},
+														pos:   position{line: 2513, col: 49, offset: 80629},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2855, col: 13, offset: 90318},
+															pos: position{line: 2856, col: 13, offset: 90350},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2855, col: 13, offset: 90318},
+																pos: position{line: 2856, col: 13, offset: 90350},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2855, col: 13, offset: 90318},
+																	pos:        position{line: 2856, col: 13, offset: 90350},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18741,28 +18741,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2931, col: 8, offset: 92190},
+														pos: position{line: 2932, col: 8, offset: 92222},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2918, col: 12, offset: 91963},
+																pos: position{line: 2919, col: 12, offset: 91995},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2918, col: 13, offset: 91964},
+																	pos: position{line: 2919, col: 13, offset: 91996},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 13, offset: 91964},
+																			pos:        position{line: 2919, col: 13, offset: 91996},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 20, offset: 91971},
+																			pos:        position{line: 2919, col: 20, offset: 92003},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 29, offset: 91980},
+																			pos:        position{line: 2919, col: 29, offset: 92012},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18771,9 +18771,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2928, col: 8, offset: 92140},
+																pos: position{line: 2929, col: 8, offset: 92172},
 																expr: &anyMatcher{
-																	line: 2928, col: 9, offset: 92141,
+																	line: 2929, col: 9, offset: 92173,
 																},
 															},
 														},
@@ -18824,10 +18824,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 743, col: 8, offset: 23783},
 																	expr: &actionExpr{
-																		pos: position{line: 2909, col: 10, offset: 91792},
+																		pos: position{line: 2910, col: 10, offset: 91824},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 10, offset: 91792},
+																			pos:        position{line: 2910, col: 10, offset: 91824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18836,28 +18836,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2931, col: 8, offset: 92190},
+																	pos: position{line: 2932, col: 8, offset: 92222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2918, col: 12, offset: 91963},
+																			pos: position{line: 2919, col: 12, offset: 91995},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2918, col: 13, offset: 91964},
+																				pos: position{line: 2919, col: 13, offset: 91996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 13, offset: 91964},
+																						pos:        position{line: 2919, col: 13, offset: 91996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 20, offset: 91971},
+																						pos:        position{line: 2919, col: 20, offset: 92003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 29, offset: 91980},
+																						pos:        position{line: 2919, col: 29, offset: 92012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18866,9 +18866,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2928, col: 8, offset: 92140},
+																			pos: position{line: 2929, col: 8, offset: 92172},
 																			expr: &anyMatcher{
-																				line: 2928, col: 9, offset: 92141,
+																				line: 2929, col: 9, offset: 92173,
 																			},
 																		},
 																	},
@@ -18929,10 +18929,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 743, col: 8, offset: 23783},
 																									expr: &actionExpr{
-																										pos: position{line: 2909, col: 10, offset: 91792},
+																										pos: position{line: 2910, col: 10, offset: 91824},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2909, col: 10, offset: 91792},
+																											pos:        position{line: 2910, col: 10, offset: 91824},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18941,28 +18941,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2931, col: 8, offset: 92190},
+																									pos: position{line: 2932, col: 8, offset: 92222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2918, col: 12, offset: 91963},
+																											pos: position{line: 2919, col: 12, offset: 91995},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2918, col: 13, offset: 91964},
+																												pos: position{line: 2919, col: 13, offset: 91996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 13, offset: 91964},
+																														pos:        position{line: 2919, col: 13, offset: 91996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 20, offset: 91971},
+																														pos:        position{line: 2919, col: 20, offset: 92003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 29, offset: 91980},
+																														pos:        position{line: 2919, col: 29, offset: 92012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18971,9 +18971,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2928, col: 8, offset: 92140},
+																											pos: position{line: 2929, col: 8, offset: 92172},
 																											expr: &anyMatcher{
-																												line: 2928, col: 9, offset: 92141,
+																												line: 2929, col: 9, offset: 92173,
 																											},
 																										},
 																									},
@@ -18982,9 +18982,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2928, col: 8, offset: 92140},
+																						pos: position{line: 2929, col: 8, offset: 92172},
 																						expr: &anyMatcher{
-																							line: 2928, col: 9, offset: 92141,
+																							line: 2929, col: 9, offset: 92173,
 																						},
 																					},
 																				},
@@ -19000,21 +19000,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26185},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2926, col: 11, offset: 92126},
+																							pos: position{line: 2927, col: 11, offset: 92158},
 																							expr: &anyMatcher{
-																								line: 2926, col: 13, offset: 92128,
+																								line: 2927, col: 13, offset: 92160,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26260},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2855, col: 13, offset: 90318},
+																								pos: position{line: 2856, col: 13, offset: 90350},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2855, col: 13, offset: 90318},
+																									pos: position{line: 2856, col: 13, offset: 90350},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2855, col: 13, offset: 90318},
+																										pos:        position{line: 2856, col: 13, offset: 90350},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19024,28 +19024,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
+																									pos: position{line: 2919, col: 12, offset: 91995},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19054,9 +19054,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -19112,10 +19112,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 743, col: 8, offset: 23783},
 																				expr: &actionExpr{
-																					pos: position{line: 2909, col: 10, offset: 91792},
+																					pos: position{line: 2910, col: 10, offset: 91824},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2909, col: 10, offset: 91792},
+																						pos:        position{line: 2910, col: 10, offset: 91824},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -19124,28 +19124,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2931, col: 8, offset: 92190},
+																				pos: position{line: 2932, col: 8, offset: 92222},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2918, col: 12, offset: 91963},
+																						pos: position{line: 2919, col: 12, offset: 91995},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2918, col: 13, offset: 91964},
+																							pos: position{line: 2919, col: 13, offset: 91996},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2918, col: 13, offset: 91964},
+																									pos:        position{line: 2919, col: 13, offset: 91996},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2918, col: 20, offset: 91971},
+																									pos:        position{line: 2919, col: 20, offset: 92003},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2918, col: 29, offset: 91980},
+																									pos:        position{line: 2919, col: 29, offset: 92012},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -19154,9 +19154,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2928, col: 8, offset: 92140},
+																						pos: position{line: 2929, col: 8, offset: 92172},
 																						expr: &anyMatcher{
-																							line: 2928, col: 9, offset: 92141,
+																							line: 2929, col: 9, offset: 92173,
 																						},
 																					},
 																				},
@@ -19165,9 +19165,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2928, col: 8, offset: 92140},
+																	pos: position{line: 2929, col: 8, offset: 92172},
 																	expr: &anyMatcher{
-																		line: 2928, col: 9, offset: 92141,
+																		line: 2929, col: 9, offset: 92173,
 																	},
 																},
 															},
@@ -19200,12 +19200,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2913, col: 11, offset: 91853},
+							pos: position{line: 2914, col: 11, offset: 91885},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2913, col: 11, offset: 91853},
+								pos: position{line: 2914, col: 11, offset: 91885},
 								expr: &charClassMatcher{
-									pos:        position{line: 2913, col: 11, offset: 91853},
+									pos:        position{line: 2914, col: 11, offset: 91885},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19222,28 +19222,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2931, col: 8, offset: 92190},
+							pos: position{line: 2932, col: 8, offset: 92222},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2918, col: 12, offset: 91963},
+									pos: position{line: 2919, col: 12, offset: 91995},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2918, col: 13, offset: 91964},
+										pos: position{line: 2919, col: 13, offset: 91996},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2918, col: 13, offset: 91964},
+												pos:        position{line: 2919, col: 13, offset: 91996},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2918, col: 20, offset: 91971},
+												pos:        position{line: 2919, col: 20, offset: 92003},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2918, col: 29, offset: 91980},
+												pos:        position{line: 2919, col: 29, offset: 92012},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19252,9 +19252,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2928, col: 8, offset: 92140},
+									pos: position{line: 2929, col: 8, offset: 92172},
 									expr: &anyMatcher{
-										line: 2928, col: 9, offset: 92141,
+										line: 2929, col: 9, offset: 92173,
 									},
 								},
 							},
@@ -19293,10 +19293,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1145, col: 5, offset: 35388},
 							expr: &actionExpr{
-								pos: position{line: 2909, col: 10, offset: 91792},
+								pos: position{line: 2910, col: 10, offset: 91824},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2909, col: 10, offset: 91792},
+									pos:        position{line: 2910, col: 10, offset: 91824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19328,10 +19328,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1149, col: 5, offset: 35487},
 							expr: &actionExpr{
-								pos: position{line: 2909, col: 10, offset: 91792},
+								pos: position{line: 2910, col: 10, offset: 91824},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2909, col: 10, offset: 91792},
+									pos:        position{line: 2910, col: 10, offset: 91824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19363,10 +19363,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1153, col: 5, offset: 35584},
 							expr: &actionExpr{
-								pos: position{line: 2909, col: 10, offset: 91792},
+								pos: position{line: 2910, col: 10, offset: 91824},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2909, col: 10, offset: 91792},
+									pos:        position{line: 2910, col: 10, offset: 91824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19432,12 +19432,12 @@ var g = &grammar{
 							pos:   position{line: 1281, col: 13, offset: 39786},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2894, col: 7, offset: 91444},
+								pos: position{line: 2895, col: 7, offset: 91476},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2894, col: 7, offset: 91444},
+									pos: position{line: 2895, col: 7, offset: 91476},
 									expr: &charClassMatcher{
-										pos:        position{line: 2894, col: 7, offset: 91444},
+										pos:        position{line: 2895, col: 7, offset: 91476},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19506,12 +19506,12 @@ var g = &grammar{
 							pos: position{line: 1292, col: 31, offset: 40246},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2803, col: 14, offset: 88961},
+									pos: position{line: 2804, col: 14, offset: 88993},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2803, col: 14, offset: 88961},
+										pos: position{line: 2804, col: 14, offset: 88993},
 										expr: &charClassMatcher{
-											pos:        position{line: 2803, col: 14, offset: 88961},
+											pos:        position{line: 2804, col: 14, offset: 88993},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19524,10 +19524,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2909, col: 10, offset: 91792},
+									pos: position{line: 2910, col: 10, offset: 91824},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2909, col: 10, offset: 91792},
+										pos:        position{line: 2910, col: 10, offset: 91824},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19535,23 +19535,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2499, col: 5, offset: 80116},
+									pos: position{line: 2500, col: 5, offset: 80148},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2499, col: 5, offset: 80116},
+										pos: position{line: 2500, col: 5, offset: 80148},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2499, col: 5, offset: 80116},
+												pos: position{line: 2500, col: 5, offset: 80148},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2502, col: 5, offset: 80192},
+												pos:   position{line: 2503, col: 5, offset: 80224},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2503, col: 9, offset: 80210},
+													pos: position{line: 2504, col: 9, offset: 80242},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2503, col: 10, offset: 80211},
+														pos:        position{line: 2504, col: 10, offset: 80243},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19647,48 +19647,48 @@ var g = &grammar{
 							pos:   position{line: 1313, col: 15, offset: 41064},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2867, col: 13, offset: 90551},
+								pos: position{line: 2868, col: 13, offset: 90583},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2867, col: 13, offset: 90551},
+									pos: position{line: 2868, col: 13, offset: 90583},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2867, col: 13, offset: 90551},
+											pos:   position{line: 2868, col: 13, offset: 90583},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2867, col: 20, offset: 90558},
+												pos: position{line: 2868, col: 20, offset: 90590},
 												expr: &actionExpr{
-													pos: position{line: 2875, col: 11, offset: 90797},
+													pos: position{line: 2876, col: 11, offset: 90829},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2875, col: 12, offset: 90798},
+														pos: position{line: 2876, col: 12, offset: 90830},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2875, col: 12, offset: 90798},
+																pos:        position{line: 2876, col: 12, offset: 90830},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2875, col: 24, offset: 90810},
+																pos:        position{line: 2876, col: 24, offset: 90842},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2875, col: 37, offset: 90823},
+																pos:        position{line: 2876, col: 37, offset: 90855},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2875, col: 48, offset: 90834},
+																pos:        position{line: 2876, col: 48, offset: 90866},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2875, col: 59, offset: 90845},
+																pos:        position{line: 2876, col: 59, offset: 90877},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19699,38 +19699,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2867, col: 30, offset: 90568},
+											pos:   position{line: 2868, col: 30, offset: 90600},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2880, col: 5, offset: 90909},
+												pos: position{line: 2881, col: 5, offset: 90941},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2880, col: 5, offset: 90909},
+													pos:   position{line: 2881, col: 5, offset: 90941},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2880, col: 14, offset: 90918},
+														pos: position{line: 2881, col: 14, offset: 90950},
 														expr: &choiceExpr{
-															pos: position{line: 2881, col: 9, offset: 90928},
+															pos: position{line: 2882, col: 9, offset: 90960},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2881, col: 9, offset: 90928},
+																	pos: position{line: 2882, col: 9, offset: 90960},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2881, col: 9, offset: 90928},
+																		pos: position{line: 2882, col: 9, offset: 90960},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2881, col: 9, offset: 90928},
+																				pos: position{line: 2882, col: 9, offset: 90960},
 																				expr: &litMatcher{
-																					pos:        position{line: 2881, col: 10, offset: 90929},
+																					pos:        position{line: 2882, col: 10, offset: 90961},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2882, col: 9, offset: 90957},
+																				pos: position{line: 2883, col: 9, offset: 90989},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2882, col: 10, offset: 90958},
+																					pos:        position{line: 2883, col: 10, offset: 90990},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19741,27 +19741,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2885, col: 11, offset: 91170},
+																	pos: position{line: 2886, col: 11, offset: 91202},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2885, col: 11, offset: 91170},
+																			pos:        position{line: 2886, col: 11, offset: 91202},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2885, col: 19, offset: 91178},
+																			pos: position{line: 2886, col: 19, offset: 91210},
 																			expr: &seqExpr{
-																				pos: position{line: 2885, col: 21, offset: 91180},
+																				pos: position{line: 2886, col: 21, offset: 91212},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2885, col: 21, offset: 91180},
+																						pos: position{line: 2886, col: 21, offset: 91212},
 																						expr: &actionExpr{
-																							pos: position{line: 2909, col: 10, offset: 91792},
+																							pos: position{line: 2910, col: 10, offset: 91824},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2909, col: 10, offset: 91792},
+																								pos:        position{line: 2910, col: 10, offset: 91824},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19770,11 +19770,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 28, offset: 91187},
+																						pos: position{line: 2886, col: 28, offset: 91219},
 																						expr: &notExpr{
-																							pos: position{line: 2928, col: 8, offset: 92140},
+																							pos: position{line: 2929, col: 8, offset: 92172},
 																							expr: &anyMatcher{
-																								line: 2928, col: 9, offset: 92141,
+																								line: 2929, col: 9, offset: 92173,
 																							},
 																						},
 																					},
@@ -20169,10 +20169,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2888, col: 11, offset: 91307},
+																	pos: position{line: 2889, col: 11, offset: 91339},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2888, col: 11, offset: 91307},
+																		pos:        position{line: 2889, col: 11, offset: 91339},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20199,10 +20199,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1313, col: 61, offset: 41110},
 							expr: &actionExpr{
-								pos: position{line: 2909, col: 10, offset: 91792},
+								pos: position{line: 2910, col: 10, offset: 91824},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2909, col: 10, offset: 91792},
+									pos:        position{line: 2910, col: 10, offset: 91824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20211,28 +20211,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2931, col: 8, offset: 92190},
+							pos: position{line: 2932, col: 8, offset: 92222},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2918, col: 12, offset: 91963},
+									pos: position{line: 2919, col: 12, offset: 91995},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2918, col: 13, offset: 91964},
+										pos: position{line: 2919, col: 13, offset: 91996},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2918, col: 13, offset: 91964},
+												pos:        position{line: 2919, col: 13, offset: 91996},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2918, col: 20, offset: 91971},
+												pos:        position{line: 2919, col: 20, offset: 92003},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2918, col: 29, offset: 91980},
+												pos:        position{line: 2919, col: 29, offset: 92012},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20241,9 +20241,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2928, col: 8, offset: 92140},
+									pos: position{line: 2929, col: 8, offset: 92172},
 									expr: &anyMatcher{
-										line: 2928, col: 9, offset: 92141,
+										line: 2929, col: 9, offset: 92173,
 									},
 								},
 							},
@@ -20280,48 +20280,48 @@ var g = &grammar{
 							pos:   position{line: 1318, col: 30, offset: 41356},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2867, col: 13, offset: 90551},
+								pos: position{line: 2868, col: 13, offset: 90583},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2867, col: 13, offset: 90551},
+									pos: position{line: 2868, col: 13, offset: 90583},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2867, col: 13, offset: 90551},
+											pos:   position{line: 2868, col: 13, offset: 90583},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2867, col: 20, offset: 90558},
+												pos: position{line: 2868, col: 20, offset: 90590},
 												expr: &actionExpr{
-													pos: position{line: 2875, col: 11, offset: 90797},
+													pos: position{line: 2876, col: 11, offset: 90829},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2875, col: 12, offset: 90798},
+														pos: position{line: 2876, col: 12, offset: 90830},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2875, col: 12, offset: 90798},
+																pos:        position{line: 2876, col: 12, offset: 90830},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2875, col: 24, offset: 90810},
+																pos:        position{line: 2876, col: 24, offset: 90842},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2875, col: 37, offset: 90823},
+																pos:        position{line: 2876, col: 37, offset: 90855},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2875, col: 48, offset: 90834},
+																pos:        position{line: 2876, col: 48, offset: 90866},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2875, col: 59, offset: 90845},
+																pos:        position{line: 2876, col: 59, offset: 90877},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20332,38 +20332,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2867, col: 30, offset: 90568},
+											pos:   position{line: 2868, col: 30, offset: 90600},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2880, col: 5, offset: 90909},
+												pos: position{line: 2881, col: 5, offset: 90941},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2880, col: 5, offset: 90909},
+													pos:   position{line: 2881, col: 5, offset: 90941},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2880, col: 14, offset: 90918},
+														pos: position{line: 2881, col: 14, offset: 90950},
 														expr: &choiceExpr{
-															pos: position{line: 2881, col: 9, offset: 90928},
+															pos: position{line: 2882, col: 9, offset: 90960},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2881, col: 9, offset: 90928},
+																	pos: position{line: 2882, col: 9, offset: 90960},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2881, col: 9, offset: 90928},
+																		pos: position{line: 2882, col: 9, offset: 90960},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2881, col: 9, offset: 90928},
+																				pos: position{line: 2882, col: 9, offset: 90960},
 																				expr: &litMatcher{
-																					pos:        position{line: 2881, col: 10, offset: 90929},
+																					pos:        position{line: 2882, col: 10, offset: 90961},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2882, col: 9, offset: 90957},
+																				pos: position{line: 2883, col: 9, offset: 90989},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2882, col: 10, offset: 90958},
+																					pos:        position{line: 2883, col: 10, offset: 90990},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20374,27 +20374,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2885, col: 11, offset: 91170},
+																	pos: position{line: 2886, col: 11, offset: 91202},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2885, col: 11, offset: 91170},
+																			pos:        position{line: 2886, col: 11, offset: 91202},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2885, col: 19, offset: 91178},
+																			pos: position{line: 2886, col: 19, offset: 91210},
 																			expr: &seqExpr{
-																				pos: position{line: 2885, col: 21, offset: 91180},
+																				pos: position{line: 2886, col: 21, offset: 91212},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2885, col: 21, offset: 91180},
+																						pos: position{line: 2886, col: 21, offset: 91212},
 																						expr: &actionExpr{
-																							pos: position{line: 2909, col: 10, offset: 91792},
+																							pos: position{line: 2910, col: 10, offset: 91824},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2909, col: 10, offset: 91792},
+																								pos:        position{line: 2910, col: 10, offset: 91824},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20403,11 +20403,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 28, offset: 91187},
+																						pos: position{line: 2886, col: 28, offset: 91219},
 																						expr: &notExpr{
-																							pos: position{line: 2928, col: 8, offset: 92140},
+																							pos: position{line: 2929, col: 8, offset: 92172},
 																							expr: &anyMatcher{
-																								line: 2928, col: 9, offset: 92141,
+																								line: 2929, col: 9, offset: 92173,
 																							},
 																						},
 																					},
@@ -20802,10 +20802,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2888, col: 11, offset: 91307},
+																	pos: position{line: 2889, col: 11, offset: 91339},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2888, col: 11, offset: 91307},
+																		pos:        position{line: 2889, col: 11, offset: 91339},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20900,12 +20900,12 @@ var g = &grammar{
 							expr: &zeroOrOneExpr{
 								pos: position{line: 1332, col: 35, offset: 42264},
 								expr: &actionExpr{
-									pos: position{line: 2803, col: 14, offset: 88961},
+									pos: position{line: 2804, col: 14, offset: 88993},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2803, col: 14, offset: 88961},
+										pos: position{line: 2804, col: 14, offset: 88993},
 										expr: &charClassMatcher{
-											pos:        position{line: 2803, col: 14, offset: 88961},
+											pos:        position{line: 2804, col: 14, offset: 88993},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20992,21 +20992,21 @@ var g = &grammar{
 								pos: position{line: 1350, col: 9, offset: 42758},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2808, col: 5, offset: 89034},
+										pos: position{line: 2809, col: 5, offset: 89066},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2808, col: 5, offset: 89034},
+											pos: position{line: 2809, col: 5, offset: 89066},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2808, col: 5, offset: 89034},
+													pos:   position{line: 2809, col: 5, offset: 89066},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2808, col: 11, offset: 89040},
+														pos: position{line: 2809, col: 11, offset: 89072},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2808, col: 11, offset: 89040},
+															pos: position{line: 2809, col: 11, offset: 89072},
 															expr: &charClassMatcher{
-																pos:        position{line: 2808, col: 11, offset: 89040},
+																pos:        position{line: 2809, col: 11, offset: 89072},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21016,36 +21016,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2811, col: 5, offset: 89098},
+													pos: position{line: 2812, col: 5, offset: 89130},
 													expr: &seqExpr{
-														pos: position{line: 2812, col: 9, offset: 89109},
+														pos: position{line: 2813, col: 9, offset: 89141},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2812, col: 9, offset: 89109},
+																pos:        position{line: 2813, col: 9, offset: 89141},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2813, col: 9, offset: 89158},
+																pos: position{line: 2814, col: 9, offset: 89190},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2817, col: 5, offset: 89238},
+													pos: position{line: 2818, col: 5, offset: 89270},
 													expr: &seqExpr{
-														pos: position{line: 2818, col: 9, offset: 89249},
+														pos: position{line: 2819, col: 9, offset: 89281},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2818, col: 9, offset: 89249},
+																pos:        position{line: 2819, col: 9, offset: 89281},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2818, col: 13, offset: 89253},
+																pos:        position{line: 2819, col: 13, offset: 89285},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21058,12 +21058,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2913, col: 11, offset: 91853},
+										pos: position{line: 2914, col: 11, offset: 91885},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2913, col: 11, offset: 91853},
+											pos: position{line: 2914, col: 11, offset: 91885},
 											expr: &charClassMatcher{
-												pos:        position{line: 2913, col: 11, offset: 91853},
+												pos:        position{line: 2914, col: 11, offset: 91885},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21072,21 +21072,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2530, col: 5, offset: 81315},
+										pos: position{line: 2531, col: 5, offset: 81347},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2530, col: 5, offset: 81315},
+											pos: position{line: 2531, col: 5, offset: 81347},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2530, col: 5, offset: 81315},
+													pos:        position{line: 2531, col: 5, offset: 81347},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2530, col: 10, offset: 81320},
+													pos: position{line: 2531, col: 10, offset: 81352},
 													expr: &charClassMatcher{
-														pos:        position{line: 2530, col: 11, offset: 81321},
+														pos:        position{line: 2531, col: 11, offset: 81353},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21097,29 +21097,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2536, col: 5, offset: 81513},
+										pos: position{line: 2537, col: 5, offset: 81545},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2536, col: 5, offset: 81513},
+											pos: position{line: 2537, col: 5, offset: 81545},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2536, col: 5, offset: 81513},
+													pos: position{line: 2537, col: 5, offset: 81545},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2539, col: 5, offset: 81584},
+													pos: position{line: 2540, col: 5, offset: 81616},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2543, col: 5, offset: 81709},
+													pos:        position{line: 2544, col: 5, offset: 81741},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2543, col: 9, offset: 81713},
+													pos: position{line: 2544, col: 9, offset: 81745},
 													expr: &charClassMatcher{
-														pos:        position{line: 2543, col: 10, offset: 81714},
+														pos:        position{line: 2544, col: 10, offset: 81746},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21138,27 +21138,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2826, col: 5, offset: 89446},
+										pos: position{line: 2827, col: 5, offset: 89478},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2827, col: 9, offset: 89456},
+											pos: position{line: 2828, col: 9, offset: 89488},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2827, col: 10, offset: 89457},
+													pos:        position{line: 2828, col: 10, offset: 89489},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2829, col: 13, offset: 89554},
+													pos: position{line: 2830, col: 13, offset: 89586},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2829, col: 13, offset: 89554},
+															pos: position{line: 2830, col: 13, offset: 89586},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2832, col: 13, offset: 89654},
+															pos:        position{line: 2833, col: 13, offset: 89686},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21166,20 +21166,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2832, col: 19, offset: 89660},
+													pos:        position{line: 2833, col: 19, offset: 89692},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2835, col: 13, offset: 89698},
+													pos: position{line: 2836, col: 13, offset: 89730},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2835, col: 13, offset: 89698},
+															pos: position{line: 2836, col: 13, offset: 89730},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2838, col: 14, offset: 89791},
+															pos:        position{line: 2839, col: 14, offset: 89823},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21188,18 +21188,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2840, col: 12, offset: 89835},
+													pos: position{line: 2841, col: 12, offset: 89867},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2840, col: 12, offset: 89835},
+															pos:        position{line: 2841, col: 12, offset: 89867},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2840, col: 16, offset: 89839},
+															pos: position{line: 2841, col: 16, offset: 89871},
 															expr: &litMatcher{
-																pos:        position{line: 2840, col: 17, offset: 89840},
+																pos:        position{line: 2841, col: 17, offset: 89872},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21237,10 +21237,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1215, col: 5, offset: 37686},
 													expr: &actionExpr{
-														pos: position{line: 2909, col: 10, offset: 91792},
+														pos: position{line: 2910, col: 10, offset: 91824},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2909, col: 10, offset: 91792},
+															pos:        position{line: 2910, col: 10, offset: 91824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21251,28 +21251,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1215, col: 12, offset: 37693},
 													expr: &choiceExpr{
-														pos: position{line: 2931, col: 8, offset: 92190},
+														pos: position{line: 2932, col: 8, offset: 92222},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2918, col: 12, offset: 91963},
+																pos: position{line: 2919, col: 12, offset: 91995},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2918, col: 13, offset: 91964},
+																	pos: position{line: 2919, col: 13, offset: 91996},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 13, offset: 91964},
+																			pos:        position{line: 2919, col: 13, offset: 91996},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 20, offset: 91971},
+																			pos:        position{line: 2919, col: 20, offset: 92003},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 29, offset: 91980},
+																			pos:        position{line: 2919, col: 29, offset: 92012},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21281,9 +21281,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2928, col: 8, offset: 92140},
+																pos: position{line: 2929, col: 8, offset: 92172},
 																expr: &anyMatcher{
-																	line: 2928, col: 9, offset: 92141,
+																	line: 2929, col: 9, offset: 92173,
 																},
 															},
 														},
@@ -21639,23 +21639,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2499, col: 5, offset: 80116},
+										pos: position{line: 2500, col: 5, offset: 80148},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2499, col: 5, offset: 80116},
+											pos: position{line: 2500, col: 5, offset: 80148},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2499, col: 5, offset: 80116},
+													pos: position{line: 2500, col: 5, offset: 80148},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2502, col: 5, offset: 80192},
+													pos:   position{line: 2503, col: 5, offset: 80224},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2503, col: 9, offset: 80210},
+														pos: position{line: 2504, col: 9, offset: 80242},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2503, col: 10, offset: 80211},
+															pos:        position{line: 2504, col: 10, offset: 80243},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21667,25 +21667,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2918, col: 12, offset: 91963},
+										pos: position{line: 2919, col: 12, offset: 91995},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2918, col: 13, offset: 91964},
+											pos: position{line: 2919, col: 13, offset: 91996},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2918, col: 13, offset: 91964},
+													pos:        position{line: 2919, col: 13, offset: 91996},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2918, col: 20, offset: 91971},
+													pos:        position{line: 2919, col: 20, offset: 92003},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2918, col: 29, offset: 91980},
+													pos:        position{line: 2919, col: 29, offset: 92012},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21694,10 +21694,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2848, col: 12, offset: 90100},
+										pos: position{line: 2849, col: 12, offset: 90132},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2848, col: 12, offset: 90100},
+											pos:        position{line: 2849, col: 12, offset: 90132},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21829,55 +21829,55 @@ var g = &grammar{
 									pos:   position{line: 1412, col: 5, offset: 45464},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2871, col: 23, offset: 90678},
+										pos: position{line: 2872, col: 23, offset: 90710},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2871, col: 23, offset: 90678},
+											pos: position{line: 2872, col: 23, offset: 90710},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2871, col: 23, offset: 90678},
+													pos: position{line: 2872, col: 23, offset: 90710},
 													expr: &litMatcher{
-														pos:        position{line: 2871, col: 24, offset: 90679},
+														pos:        position{line: 2872, col: 24, offset: 90711},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2871, col: 28, offset: 90683},
+													pos:   position{line: 2872, col: 28, offset: 90715},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2875, col: 11, offset: 90797},
+														pos: position{line: 2876, col: 11, offset: 90829},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2875, col: 12, offset: 90798},
+															pos: position{line: 2876, col: 12, offset: 90830},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2875, col: 12, offset: 90798},
+																	pos:        position{line: 2876, col: 12, offset: 90830},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 24, offset: 90810},
+																	pos:        position{line: 2876, col: 24, offset: 90842},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 37, offset: 90823},
+																	pos:        position{line: 2876, col: 37, offset: 90855},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 48, offset: 90834},
+																	pos:        position{line: 2876, col: 48, offset: 90866},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 59, offset: 90845},
+																	pos:        position{line: 2876, col: 59, offset: 90877},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21887,38 +21887,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2871, col: 44, offset: 90699},
+													pos:   position{line: 2872, col: 44, offset: 90731},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 5, offset: 90909},
+														pos: position{line: 2881, col: 5, offset: 90941},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2880, col: 5, offset: 90909},
+															pos:   position{line: 2881, col: 5, offset: 90941},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2880, col: 14, offset: 90918},
+																pos: position{line: 2881, col: 14, offset: 90950},
 																expr: &choiceExpr{
-																	pos: position{line: 2881, col: 9, offset: 90928},
+																	pos: position{line: 2882, col: 9, offset: 90960},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 9, offset: 90928},
+																			pos: position{line: 2882, col: 9, offset: 90960},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2881, col: 9, offset: 90928},
+																				pos: position{line: 2882, col: 9, offset: 90960},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2881, col: 9, offset: 90928},
+																						pos: position{line: 2882, col: 9, offset: 90960},
 																						expr: &litMatcher{
-																							pos:        position{line: 2881, col: 10, offset: 90929},
+																							pos:        position{line: 2882, col: 10, offset: 90961},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2882, col: 9, offset: 90957},
+																						pos: position{line: 2883, col: 9, offset: 90989},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2882, col: 10, offset: 90958},
+																							pos:        position{line: 2883, col: 10, offset: 90990},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21929,27 +21929,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2885, col: 11, offset: 91170},
+																			pos: position{line: 2886, col: 11, offset: 91202},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2885, col: 11, offset: 91170},
+																					pos:        position{line: 2886, col: 11, offset: 91202},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2885, col: 19, offset: 91178},
+																					pos: position{line: 2886, col: 19, offset: 91210},
 																					expr: &seqExpr{
-																						pos: position{line: 2885, col: 21, offset: 91180},
+																						pos: position{line: 2886, col: 21, offset: 91212},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2885, col: 21, offset: 91180},
+																								pos: position{line: 2886, col: 21, offset: 91212},
 																								expr: &actionExpr{
-																									pos: position{line: 2909, col: 10, offset: 91792},
+																									pos: position{line: 2910, col: 10, offset: 91824},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2909, col: 10, offset: 91792},
+																										pos:        position{line: 2910, col: 10, offset: 91824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21958,11 +21958,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 28, offset: 91187},
+																								pos: position{line: 2886, col: 28, offset: 91219},
 																								expr: &notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -22357,10 +22357,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2888, col: 11, offset: 91307},
+																			pos: position{line: 2889, col: 11, offset: 91339},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2888, col: 11, offset: 91307},
+																				pos:        position{line: 2889, col: 11, offset: 91339},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22535,48 +22535,48 @@ var g = &grammar{
 									pos:   position{line: 1425, col: 17, offset: 45879},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2867, col: 13, offset: 90551},
+										pos: position{line: 2868, col: 13, offset: 90583},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2867, col: 13, offset: 90551},
+											pos: position{line: 2868, col: 13, offset: 90583},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2867, col: 13, offset: 90551},
+													pos:   position{line: 2868, col: 13, offset: 90583},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2867, col: 20, offset: 90558},
+														pos: position{line: 2868, col: 20, offset: 90590},
 														expr: &actionExpr{
-															pos: position{line: 2875, col: 11, offset: 90797},
+															pos: position{line: 2876, col: 11, offset: 90829},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 12, offset: 90798},
+																pos: position{line: 2876, col: 12, offset: 90830},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 12, offset: 90798},
+																		pos:        position{line: 2876, col: 12, offset: 90830},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 24, offset: 90810},
+																		pos:        position{line: 2876, col: 24, offset: 90842},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 37, offset: 90823},
+																		pos:        position{line: 2876, col: 37, offset: 90855},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 48, offset: 90834},
+																		pos:        position{line: 2876, col: 48, offset: 90866},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 59, offset: 90845},
+																		pos:        position{line: 2876, col: 59, offset: 90877},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22587,38 +22587,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2867, col: 30, offset: 90568},
+													pos:   position{line: 2868, col: 30, offset: 90600},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 5, offset: 90909},
+														pos: position{line: 2881, col: 5, offset: 90941},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2880, col: 5, offset: 90909},
+															pos:   position{line: 2881, col: 5, offset: 90941},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2880, col: 14, offset: 90918},
+																pos: position{line: 2881, col: 14, offset: 90950},
 																expr: &choiceExpr{
-																	pos: position{line: 2881, col: 9, offset: 90928},
+																	pos: position{line: 2882, col: 9, offset: 90960},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 9, offset: 90928},
+																			pos: position{line: 2882, col: 9, offset: 90960},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2881, col: 9, offset: 90928},
+																				pos: position{line: 2882, col: 9, offset: 90960},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2881, col: 9, offset: 90928},
+																						pos: position{line: 2882, col: 9, offset: 90960},
 																						expr: &litMatcher{
-																							pos:        position{line: 2881, col: 10, offset: 90929},
+																							pos:        position{line: 2882, col: 10, offset: 90961},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2882, col: 9, offset: 90957},
+																						pos: position{line: 2883, col: 9, offset: 90989},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2882, col: 10, offset: 90958},
+																							pos:        position{line: 2883, col: 10, offset: 90990},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22629,27 +22629,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2885, col: 11, offset: 91170},
+																			pos: position{line: 2886, col: 11, offset: 91202},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2885, col: 11, offset: 91170},
+																					pos:        position{line: 2886, col: 11, offset: 91202},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2885, col: 19, offset: 91178},
+																					pos: position{line: 2886, col: 19, offset: 91210},
 																					expr: &seqExpr{
-																						pos: position{line: 2885, col: 21, offset: 91180},
+																						pos: position{line: 2886, col: 21, offset: 91212},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2885, col: 21, offset: 91180},
+																								pos: position{line: 2886, col: 21, offset: 91212},
 																								expr: &actionExpr{
-																									pos: position{line: 2909, col: 10, offset: 91792},
+																									pos: position{line: 2910, col: 10, offset: 91824},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2909, col: 10, offset: 91792},
+																										pos:        position{line: 2910, col: 10, offset: 91824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22658,11 +22658,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 28, offset: 91187},
+																								pos: position{line: 2886, col: 28, offset: 91219},
 																								expr: &notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -23057,10 +23057,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2888, col: 11, offset: 91307},
+																			pos: position{line: 2889, col: 11, offset: 91339},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2888, col: 11, offset: 91307},
+																				pos:        position{line: 2889, col: 11, offset: 91339},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23103,48 +23103,48 @@ var g = &grammar{
 									pos:   position{line: 1430, col: 13, offset: 46046},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2867, col: 13, offset: 90551},
+										pos: position{line: 2868, col: 13, offset: 90583},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2867, col: 13, offset: 90551},
+											pos: position{line: 2868, col: 13, offset: 90583},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2867, col: 13, offset: 90551},
+													pos:   position{line: 2868, col: 13, offset: 90583},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2867, col: 20, offset: 90558},
+														pos: position{line: 2868, col: 20, offset: 90590},
 														expr: &actionExpr{
-															pos: position{line: 2875, col: 11, offset: 90797},
+															pos: position{line: 2876, col: 11, offset: 90829},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 12, offset: 90798},
+																pos: position{line: 2876, col: 12, offset: 90830},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 12, offset: 90798},
+																		pos:        position{line: 2876, col: 12, offset: 90830},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 24, offset: 90810},
+																		pos:        position{line: 2876, col: 24, offset: 90842},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 37, offset: 90823},
+																		pos:        position{line: 2876, col: 37, offset: 90855},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 48, offset: 90834},
+																		pos:        position{line: 2876, col: 48, offset: 90866},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 59, offset: 90845},
+																		pos:        position{line: 2876, col: 59, offset: 90877},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23155,38 +23155,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2867, col: 30, offset: 90568},
+													pos:   position{line: 2868, col: 30, offset: 90600},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 5, offset: 90909},
+														pos: position{line: 2881, col: 5, offset: 90941},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2880, col: 5, offset: 90909},
+															pos:   position{line: 2881, col: 5, offset: 90941},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2880, col: 14, offset: 90918},
+																pos: position{line: 2881, col: 14, offset: 90950},
 																expr: &choiceExpr{
-																	pos: position{line: 2881, col: 9, offset: 90928},
+																	pos: position{line: 2882, col: 9, offset: 90960},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 9, offset: 90928},
+																			pos: position{line: 2882, col: 9, offset: 90960},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2881, col: 9, offset: 90928},
+																				pos: position{line: 2882, col: 9, offset: 90960},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2881, col: 9, offset: 90928},
+																						pos: position{line: 2882, col: 9, offset: 90960},
 																						expr: &litMatcher{
-																							pos:        position{line: 2881, col: 10, offset: 90929},
+																							pos:        position{line: 2882, col: 10, offset: 90961},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2882, col: 9, offset: 90957},
+																						pos: position{line: 2883, col: 9, offset: 90989},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2882, col: 10, offset: 90958},
+																							pos:        position{line: 2883, col: 10, offset: 90990},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23197,27 +23197,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2885, col: 11, offset: 91170},
+																			pos: position{line: 2886, col: 11, offset: 91202},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2885, col: 11, offset: 91170},
+																					pos:        position{line: 2886, col: 11, offset: 91202},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2885, col: 19, offset: 91178},
+																					pos: position{line: 2886, col: 19, offset: 91210},
 																					expr: &seqExpr{
-																						pos: position{line: 2885, col: 21, offset: 91180},
+																						pos: position{line: 2886, col: 21, offset: 91212},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2885, col: 21, offset: 91180},
+																								pos: position{line: 2886, col: 21, offset: 91212},
 																								expr: &actionExpr{
-																									pos: position{line: 2909, col: 10, offset: 91792},
+																									pos: position{line: 2910, col: 10, offset: 91824},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2909, col: 10, offset: 91792},
+																										pos:        position{line: 2910, col: 10, offset: 91824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23226,11 +23226,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 28, offset: 91187},
+																								pos: position{line: 2886, col: 28, offset: 91219},
 																								expr: &notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -23625,10 +23625,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2888, col: 11, offset: 91307},
+																			pos: position{line: 2889, col: 11, offset: 91339},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2888, col: 11, offset: 91307},
+																				pos:        position{line: 2889, col: 11, offset: 91339},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23680,55 +23680,55 @@ var g = &grammar{
 									pos:   position{line: 1437, col: 9, offset: 46355},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2871, col: 23, offset: 90678},
+										pos: position{line: 2872, col: 23, offset: 90710},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2871, col: 23, offset: 90678},
+											pos: position{line: 2872, col: 23, offset: 90710},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2871, col: 23, offset: 90678},
+													pos: position{line: 2872, col: 23, offset: 90710},
 													expr: &litMatcher{
-														pos:        position{line: 2871, col: 24, offset: 90679},
+														pos:        position{line: 2872, col: 24, offset: 90711},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2871, col: 28, offset: 90683},
+													pos:   position{line: 2872, col: 28, offset: 90715},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2875, col: 11, offset: 90797},
+														pos: position{line: 2876, col: 11, offset: 90829},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2875, col: 12, offset: 90798},
+															pos: position{line: 2876, col: 12, offset: 90830},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2875, col: 12, offset: 90798},
+																	pos:        position{line: 2876, col: 12, offset: 90830},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 24, offset: 90810},
+																	pos:        position{line: 2876, col: 24, offset: 90842},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 37, offset: 90823},
+																	pos:        position{line: 2876, col: 37, offset: 90855},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 48, offset: 90834},
+																	pos:        position{line: 2876, col: 48, offset: 90866},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 59, offset: 90845},
+																	pos:        position{line: 2876, col: 59, offset: 90877},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23738,38 +23738,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2871, col: 44, offset: 90699},
+													pos:   position{line: 2872, col: 44, offset: 90731},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 5, offset: 90909},
+														pos: position{line: 2881, col: 5, offset: 90941},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2880, col: 5, offset: 90909},
+															pos:   position{line: 2881, col: 5, offset: 90941},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2880, col: 14, offset: 90918},
+																pos: position{line: 2881, col: 14, offset: 90950},
 																expr: &choiceExpr{
-																	pos: position{line: 2881, col: 9, offset: 90928},
+																	pos: position{line: 2882, col: 9, offset: 90960},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 9, offset: 90928},
+																			pos: position{line: 2882, col: 9, offset: 90960},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2881, col: 9, offset: 90928},
+																				pos: position{line: 2882, col: 9, offset: 90960},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2881, col: 9, offset: 90928},
+																						pos: position{line: 2882, col: 9, offset: 90960},
 																						expr: &litMatcher{
-																							pos:        position{line: 2881, col: 10, offset: 90929},
+																							pos:        position{line: 2882, col: 10, offset: 90961},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2882, col: 9, offset: 90957},
+																						pos: position{line: 2883, col: 9, offset: 90989},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2882, col: 10, offset: 90958},
+																							pos:        position{line: 2883, col: 10, offset: 90990},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23780,27 +23780,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2885, col: 11, offset: 91170},
+																			pos: position{line: 2886, col: 11, offset: 91202},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2885, col: 11, offset: 91170},
+																					pos:        position{line: 2886, col: 11, offset: 91202},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2885, col: 19, offset: 91178},
+																					pos: position{line: 2886, col: 19, offset: 91210},
 																					expr: &seqExpr{
-																						pos: position{line: 2885, col: 21, offset: 91180},
+																						pos: position{line: 2886, col: 21, offset: 91212},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2885, col: 21, offset: 91180},
+																								pos: position{line: 2886, col: 21, offset: 91212},
 																								expr: &actionExpr{
-																									pos: position{line: 2909, col: 10, offset: 91792},
+																									pos: position{line: 2910, col: 10, offset: 91824},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2909, col: 10, offset: 91792},
+																										pos:        position{line: 2910, col: 10, offset: 91824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23809,11 +23809,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 28, offset: 91187},
+																								pos: position{line: 2886, col: 28, offset: 91219},
 																								expr: &notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -24208,10 +24208,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2888, col: 11, offset: 91307},
+																			pos: position{line: 2889, col: 11, offset: 91339},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2888, col: 11, offset: 91307},
+																				pos:        position{line: 2889, col: 11, offset: 91339},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24251,55 +24251,55 @@ var g = &grammar{
 									pos:   position{line: 1442, col: 5, offset: 46525},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2871, col: 23, offset: 90678},
+										pos: position{line: 2872, col: 23, offset: 90710},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2871, col: 23, offset: 90678},
+											pos: position{line: 2872, col: 23, offset: 90710},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2871, col: 23, offset: 90678},
+													pos: position{line: 2872, col: 23, offset: 90710},
 													expr: &litMatcher{
-														pos:        position{line: 2871, col: 24, offset: 90679},
+														pos:        position{line: 2872, col: 24, offset: 90711},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2871, col: 28, offset: 90683},
+													pos:   position{line: 2872, col: 28, offset: 90715},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2875, col: 11, offset: 90797},
+														pos: position{line: 2876, col: 11, offset: 90829},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2875, col: 12, offset: 90798},
+															pos: position{line: 2876, col: 12, offset: 90830},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2875, col: 12, offset: 90798},
+																	pos:        position{line: 2876, col: 12, offset: 90830},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 24, offset: 90810},
+																	pos:        position{line: 2876, col: 24, offset: 90842},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 37, offset: 90823},
+																	pos:        position{line: 2876, col: 37, offset: 90855},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 48, offset: 90834},
+																	pos:        position{line: 2876, col: 48, offset: 90866},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 59, offset: 90845},
+																	pos:        position{line: 2876, col: 59, offset: 90877},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24309,38 +24309,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2871, col: 44, offset: 90699},
+													pos:   position{line: 2872, col: 44, offset: 90731},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 5, offset: 90909},
+														pos: position{line: 2881, col: 5, offset: 90941},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2880, col: 5, offset: 90909},
+															pos:   position{line: 2881, col: 5, offset: 90941},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2880, col: 14, offset: 90918},
+																pos: position{line: 2881, col: 14, offset: 90950},
 																expr: &choiceExpr{
-																	pos: position{line: 2881, col: 9, offset: 90928},
+																	pos: position{line: 2882, col: 9, offset: 90960},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 9, offset: 90928},
+																			pos: position{line: 2882, col: 9, offset: 90960},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2881, col: 9, offset: 90928},
+																				pos: position{line: 2882, col: 9, offset: 90960},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2881, col: 9, offset: 90928},
+																						pos: position{line: 2882, col: 9, offset: 90960},
 																						expr: &litMatcher{
-																							pos:        position{line: 2881, col: 10, offset: 90929},
+																							pos:        position{line: 2882, col: 10, offset: 90961},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2882, col: 9, offset: 90957},
+																						pos: position{line: 2883, col: 9, offset: 90989},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2882, col: 10, offset: 90958},
+																							pos:        position{line: 2883, col: 10, offset: 90990},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24351,27 +24351,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2885, col: 11, offset: 91170},
+																			pos: position{line: 2886, col: 11, offset: 91202},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2885, col: 11, offset: 91170},
+																					pos:        position{line: 2886, col: 11, offset: 91202},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2885, col: 19, offset: 91178},
+																					pos: position{line: 2886, col: 19, offset: 91210},
 																					expr: &seqExpr{
-																						pos: position{line: 2885, col: 21, offset: 91180},
+																						pos: position{line: 2886, col: 21, offset: 91212},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2885, col: 21, offset: 91180},
+																								pos: position{line: 2886, col: 21, offset: 91212},
 																								expr: &actionExpr{
-																									pos: position{line: 2909, col: 10, offset: 91792},
+																									pos: position{line: 2910, col: 10, offset: 91824},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2909, col: 10, offset: 91792},
+																										pos:        position{line: 2910, col: 10, offset: 91824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24380,11 +24380,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 28, offset: 91187},
+																								pos: position{line: 2886, col: 28, offset: 91219},
 																								expr: &notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -24779,10 +24779,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2888, col: 11, offset: 91307},
+																			pos: position{line: 2889, col: 11, offset: 91339},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2888, col: 11, offset: 91307},
+																				pos:        position{line: 2889, col: 11, offset: 91339},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24848,10 +24848,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1584, col: 5, offset: 51102},
 																	expr: &actionExpr{
-																		pos: position{line: 2909, col: 10, offset: 91792},
+																		pos: position{line: 2910, col: 10, offset: 91824},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 10, offset: 91792},
+																			pos:        position{line: 2910, col: 10, offset: 91824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25018,12 +25018,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2913, col: 11, offset: 91853},
+																	pos: position{line: 2914, col: 11, offset: 91885},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2913, col: 11, offset: 91853},
+																		pos: position{line: 2914, col: 11, offset: 91885},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2913, col: 11, offset: 91853},
+																			pos:        position{line: 2914, col: 11, offset: 91885},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25066,28 +25066,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2931, col: 8, offset: 92190},
+																	pos: position{line: 2932, col: 8, offset: 92222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2918, col: 12, offset: 91963},
+																			pos: position{line: 2919, col: 12, offset: 91995},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2918, col: 13, offset: 91964},
+																				pos: position{line: 2919, col: 13, offset: 91996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 13, offset: 91964},
+																						pos:        position{line: 2919, col: 13, offset: 91996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 20, offset: 91971},
+																						pos:        position{line: 2919, col: 20, offset: 92003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 29, offset: 91980},
+																						pos:        position{line: 2919, col: 29, offset: 92012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25096,9 +25096,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2928, col: 8, offset: 92140},
+																			pos: position{line: 2929, col: 8, offset: 92172},
 																			expr: &anyMatcher{
-																				line: 2928, col: 9, offset: 92141,
+																				line: 2929, col: 9, offset: 92173,
 																			},
 																		},
 																	},
@@ -25128,10 +25128,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1634, col: 5, offset: 53064},
 																	expr: &actionExpr{
-																		pos: position{line: 2909, col: 10, offset: 91792},
+																		pos: position{line: 2910, col: 10, offset: 91824},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 10, offset: 91792},
+																			pos:        position{line: 2910, col: 10, offset: 91824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25172,12 +25172,12 @@ var g = &grammar{
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2913, col: 11, offset: 91853},
+																	pos: position{line: 2914, col: 11, offset: 91885},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2913, col: 11, offset: 91853},
+																		pos: position{line: 2914, col: 11, offset: 91885},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2913, col: 11, offset: 91853},
+																			pos:        position{line: 2914, col: 11, offset: 91885},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25249,12 +25249,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2913, col: 11, offset: 91853},
+																		pos: position{line: 2914, col: 11, offset: 91885},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2913, col: 11, offset: 91853},
+																			pos: position{line: 2914, col: 11, offset: 91885},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2913, col: 11, offset: 91853},
+																				pos:        position{line: 2914, col: 11, offset: 91885},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25298,28 +25298,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2931, col: 8, offset: 92190},
+																	pos: position{line: 2932, col: 8, offset: 92222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2918, col: 12, offset: 91963},
+																			pos: position{line: 2919, col: 12, offset: 91995},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2918, col: 13, offset: 91964},
+																				pos: position{line: 2919, col: 13, offset: 91996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 13, offset: 91964},
+																						pos:        position{line: 2919, col: 13, offset: 91996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 20, offset: 91971},
+																						pos:        position{line: 2919, col: 20, offset: 92003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 29, offset: 91980},
+																						pos:        position{line: 2919, col: 29, offset: 92012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25328,9 +25328,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2928, col: 8, offset: 92140},
+																			pos: position{line: 2929, col: 8, offset: 92172},
 																			expr: &anyMatcher{
-																				line: 2928, col: 9, offset: 92141,
+																				line: 2929, col: 9, offset: 92173,
 																			},
 																		},
 																	},
@@ -25343,36 +25343,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1717, col: 5, offset: 55404},
+										pos: position{line: 1718, col: 5, offset: 55436},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1717, col: 5, offset: 55404},
+											pos: position{line: 1718, col: 5, offset: 55436},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1717, col: 5, offset: 55404},
+													pos:   position{line: 1718, col: 5, offset: 55436},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1723, col: 5, offset: 55601},
+														pos: position{line: 1724, col: 5, offset: 55633},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1723, col: 5, offset: 55601},
+															pos: position{line: 1724, col: 5, offset: 55633},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1723, col: 5, offset: 55601},
+																	pos:        position{line: 1724, col: 5, offset: 55633},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1723, col: 9, offset: 55605},
+																	pos:   position{line: 1724, col: 9, offset: 55637},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1723, col: 14, offset: 55610},
+																		pos: position{line: 1724, col: 14, offset: 55642},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1723, col: 14, offset: 55610},
+																			pos: position{line: 1724, col: 14, offset: 55642},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1723, col: 14, offset: 55610},
+																				pos:        position{line: 1724, col: 14, offset: 55642},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25382,18 +25382,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1723, col: 62, offset: 55658},
+																	pos:        position{line: 1724, col: 62, offset: 55690},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2913, col: 11, offset: 91853},
+																	pos: position{line: 2914, col: 11, offset: 91885},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2913, col: 11, offset: 91853},
+																		pos: position{line: 2914, col: 11, offset: 91885},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2913, col: 11, offset: 91853},
+																			pos:        position{line: 2914, col: 11, offset: 91885},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25406,7 +25406,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1718, col: 5, offset: 55440},
+													pos:   position{line: 1719, col: 5, offset: 55472},
 													label: "description",
 													expr: &actionExpr{
 														pos: position{line: 1524, col: 5, offset: 49366},
@@ -25436,28 +25436,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2931, col: 8, offset: 92190},
+																	pos: position{line: 2932, col: 8, offset: 92222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2918, col: 12, offset: 91963},
+																			pos: position{line: 2919, col: 12, offset: 91995},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2918, col: 13, offset: 91964},
+																				pos: position{line: 2919, col: 13, offset: 91996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 13, offset: 91964},
+																						pos:        position{line: 2919, col: 13, offset: 91996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 20, offset: 91971},
+																						pos:        position{line: 2919, col: 20, offset: 92003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 29, offset: 91980},
+																						pos:        position{line: 2919, col: 29, offset: 92012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25466,9 +25466,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2928, col: 8, offset: 92140},
+																			pos: position{line: 2929, col: 8, offset: 92172},
 																			expr: &anyMatcher{
-																				line: 2928, col: 9, offset: 92141,
+																				line: 2929, col: 9, offset: 92173,
 																			},
 																		},
 																	},
@@ -25492,88 +25492,116 @@ var g = &grammar{
 													expr: &actionExpr{
 														pos: position{line: 1669, col: 5, offset: 54083},
 														run: (*parser).callonListElements148,
-														expr: &oneOrMoreExpr{
+														expr: &seqExpr{
 															pos: position{line: 1669, col: 5, offset: 54083},
-															expr: &seqExpr{
-																pos: position{line: 1669, col: 6, offset: 54084},
-																exprs: []interface{}{
-																	&notExpr{
-																		pos: position{line: 1669, col: 6, offset: 54084},
-																		expr: &actionExpr{
-																			pos: position{line: 1674, col: 5, offset: 54234},
-																			run: (*parser).callonListElements152,
-																			expr: &seqExpr{
-																				pos: position{line: 1674, col: 5, offset: 54234},
-																				exprs: []interface{}{
-																					&labeledExpr{
-																						pos:   position{line: 1674, col: 5, offset: 54234},
-																						label: "separator",
-																						expr: &actionExpr{
-																							pos: position{line: 1674, col: 16, offset: 54245},
-																							run: (*parser).callonListElements155,
-																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1674, col: 16, offset: 54245},
-																								expr: &litMatcher{
-																									pos:        position{line: 1674, col: 17, offset: 54246},
-																									val:        ":",
-																									ignoreCase: false,
-																									want:       "\":\"",
-																								},
-																							},
-																						},
-																					},
-																					&andCodeExpr{
-																						pos: position{line: 1677, col: 5, offset: 54303},
-																						run: (*parser).callonListElements158,
-																					},
+															exprs: []interface{}{
+																&notExpr{
+																	pos: position{line: 1669, col: 5, offset: 54083},
+																	expr: &seqExpr{
+																		pos: position{line: 2518, col: 31, offset: 80852},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 2518, col: 31, offset: 80852},
+																				val:        "//",
+																				ignoreCase: false,
+																				want:       "\"//\"",
+																			},
+																			&notExpr{
+																				pos: position{line: 2518, col: 36, offset: 80857},
+																				expr: &litMatcher{
+																					pos:        position{line: 2518, col: 37, offset: 80858},
+																					val:        "/",
+																					ignoreCase: false,
+																					want:       "\"/\"",
 																				},
 																			},
 																		},
 																	},
-																	&notExpr{
-																		pos: position{line: 1669, col: 35, offset: 54113},
-																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 8, offset: 92190},
-																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 2918, col: 12, offset: 91963},
-																					run: (*parser).callonListElements161,
-																					expr: &choiceExpr{
-																						pos: position{line: 2918, col: 13, offset: 91964},
-																						alternatives: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 2918, col: 13, offset: 91964},
-																								val:        "\n",
-																								ignoreCase: false,
-																								want:       "\"\\n\"",
-																							},
-																							&litMatcher{
-																								pos:        position{line: 2918, col: 20, offset: 91971},
-																								val:        "\r\n",
-																								ignoreCase: false,
-																								want:       "\"\\r\\n\"",
+																},
+																&oneOrMoreExpr{
+																	pos: position{line: 1670, col: 5, offset: 54115},
+																	expr: &seqExpr{
+																		pos: position{line: 1670, col: 6, offset: 54116},
+																		exprs: []interface{}{
+																			&notExpr{
+																				pos: position{line: 1670, col: 6, offset: 54116},
+																				expr: &actionExpr{
+																					pos: position{line: 1675, col: 5, offset: 54266},
+																					run: (*parser).callonListElements158,
+																					expr: &seqExpr{
+																						pos: position{line: 1675, col: 5, offset: 54266},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 1675, col: 5, offset: 54266},
+																								label: "separator",
+																								expr: &actionExpr{
+																									pos: position{line: 1675, col: 16, offset: 54277},
+																									run: (*parser).callonListElements161,
+																									expr: &oneOrMoreExpr{
+																										pos: position{line: 1675, col: 16, offset: 54277},
+																										expr: &litMatcher{
+																											pos:        position{line: 1675, col: 17, offset: 54278},
+																											val:        ":",
+																											ignoreCase: false,
+																											want:       "\":\"",
+																										},
+																									},
+																								},
 																							},
-																							&litMatcher{
-																								pos:        position{line: 2918, col: 29, offset: 91980},
-																								val:        "\r",
-																								ignoreCase: false,
-																								want:       "\"\\r\"",
+																							&andCodeExpr{
+																								pos: position{line: 1678, col: 5, offset: 54335},
+																								run: (*parser).callonListElements164,
 																							},
 																						},
 																					},
 																				},
-																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
-																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																			},
+																			&notExpr{
+																				pos: position{line: 1670, col: 35, offset: 54145},
+																				expr: &choiceExpr{
+																					pos: position{line: 2932, col: 8, offset: 92222},
+																					alternatives: []interface{}{
+																						&actionExpr{
+																							pos: position{line: 2919, col: 12, offset: 91995},
+																							run: (*parser).callonListElements167,
+																							expr: &choiceExpr{
+																								pos: position{line: 2919, col: 13, offset: 91996},
+																								alternatives: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2919, col: 13, offset: 91996},
+																										val:        "\n",
+																										ignoreCase: false,
+																										want:       "\"\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2919, col: 20, offset: 92003},
+																										val:        "\r\n",
+																										ignoreCase: false,
+																										want:       "\"\\r\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2919, col: 29, offset: 92012},
+																										val:        "\r",
+																										ignoreCase: false,
+																										want:       "\"\\r\"",
+																									},
+																								},
+																							},
+																						},
+																						&notExpr{
+																							pos: position{line: 2929, col: 8, offset: 92172},
+																							expr: &anyMatcher{
+																								line: 2929, col: 9, offset: 92173,
+																							},
+																						},
 																					},
 																				},
 																			},
+																			&anyMatcher{
+																				line: 1670, col: 40, offset: 54150,
+																			},
 																		},
 																	},
-																	&anyMatcher{
-																		line: 1669, col: 40, offset: 54118,
-																	},
 																},
 															},
 														},
@@ -25583,21 +25611,21 @@ var g = &grammar{
 													pos:   position{line: 1662, col: 5, offset: 53792},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1674, col: 5, offset: 54234},
-														run: (*parser).callonListElements170,
+														pos: position{line: 1675, col: 5, offset: 54266},
+														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1674, col: 5, offset: 54234},
+															pos: position{line: 1675, col: 5, offset: 54266},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1674, col: 5, offset: 54234},
+																	pos:   position{line: 1675, col: 5, offset: 54266},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1674, col: 16, offset: 54245},
-																		run: (*parser).callonListElements173,
+																		pos: position{line: 1675, col: 16, offset: 54277},
+																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1674, col: 16, offset: 54245},
+																			pos: position{line: 1675, col: 16, offset: 54277},
 																			expr: &litMatcher{
-																				pos:        position{line: 1674, col: 17, offset: 54246},
+																				pos:        position{line: 1675, col: 17, offset: 54278},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25606,8 +25634,8 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1677, col: 5, offset: 54303},
-																	run: (*parser).callonListElements176,
+																	pos: position{line: 1678, col: 5, offset: 54335},
+																	run: (*parser).callonListElements182,
 																},
 															},
 														},
@@ -25617,21 +25645,21 @@ var g = &grammar{
 													pos:   position{line: 1663, col: 5, offset: 53837},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1685, col: 5, offset: 54552},
+														pos: position{line: 1686, col: 5, offset: 54584},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1687, col: 9, offset: 54618},
-																run: (*parser).callonListElements179,
+																pos: position{line: 1688, col: 9, offset: 54650},
+																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 9, offset: 54618},
+																	pos: position{line: 1688, col: 9, offset: 54650},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1687, col: 9, offset: 54618},
+																			pos: position{line: 1688, col: 9, offset: 54650},
 																			expr: &actionExpr{
-																				pos: position{line: 2909, col: 10, offset: 91792},
-																				run: (*parser).callonListElements182,
+																				pos: position{line: 2910, col: 10, offset: 91824},
+																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2909, col: 10, offset: 91792},
+																					pos:        position{line: 2910, col: 10, offset: 91824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25640,28 +25668,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2931, col: 8, offset: 92190},
+																			pos: position{line: 2932, col: 8, offset: 92222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2918, col: 12, offset: 91963},
-																					run: (*parser).callonListElements185,
+																					pos: position{line: 2919, col: 12, offset: 91995},
+																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2918, col: 13, offset: 91964},
+																						pos: position{line: 2919, col: 13, offset: 91996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 13, offset: 91964},
+																								pos:        position{line: 2919, col: 13, offset: 91996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 20, offset: 91971},
+																								pos:        position{line: 2919, col: 20, offset: 92003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 29, offset: 91980},
+																								pos:        position{line: 2919, col: 29, offset: 92012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25670,34 +25698,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1688, col: 9, offset: 54637},
+																			pos: position{line: 1689, col: 9, offset: 54669},
 																			expr: &actionExpr{
 																				pos: position{line: 678, col: 14, offset: 21586},
-																				run: (*parser).callonListElements193,
+																				run: (*parser).callonListElements199,
 																				expr: &seqExpr{
 																					pos: position{line: 678, col: 14, offset: 21586},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2926, col: 11, offset: 92126},
+																							pos: position{line: 2927, col: 11, offset: 92158},
 																							expr: &anyMatcher{
-																								line: 2926, col: 13, offset: 92128,
+																								line: 2927, col: 13, offset: 92160,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 678, col: 21, offset: 21593},
 																							expr: &actionExpr{
-																								pos: position{line: 2909, col: 10, offset: 91792},
-																								run: (*parser).callonListElements198,
+																								pos: position{line: 2910, col: 10, offset: 91824},
+																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 10, offset: 91792},
+																									pos:        position{line: 2910, col: 10, offset: 91824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25706,28 +25734,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
-																									run: (*parser).callonListElements201,
+																									pos: position{line: 2919, col: 12, offset: 91995},
+																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25736,9 +25764,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -25751,18 +25779,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1694, col: 9, offset: 54766},
-																run: (*parser).callonListElements208,
+																pos: position{line: 1695, col: 9, offset: 54798},
+																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1694, col: 9, offset: 54766},
+																	pos: position{line: 1695, col: 9, offset: 54798},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2913, col: 11, offset: 91853},
-																			run: (*parser).callonListElements210,
+																			pos: position{line: 2914, col: 11, offset: 91885},
+																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2913, col: 11, offset: 91853},
+																				pos: position{line: 2914, col: 11, offset: 91885},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2913, col: 11, offset: 91853},
+																					pos:        position{line: 2914, col: 11, offset: 91885},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25771,15 +25799,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1695, col: 9, offset: 54839},
+																			pos:   position{line: 1696, col: 9, offset: 54871},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1695, col: 18, offset: 54848},
-																				run: (*parser).callonListElements214,
+																				pos: position{line: 1696, col: 18, offset: 54880},
+																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1695, col: 18, offset: 54848},
+																					pos: position{line: 1696, col: 18, offset: 54880},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1695, col: 18, offset: 54848},
+																						pos:        position{line: 1696, col: 18, offset: 54880},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25789,28 +25817,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2931, col: 8, offset: 92190},
+																			pos: position{line: 2932, col: 8, offset: 92222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2918, col: 12, offset: 91963},
-																					run: (*parser).callonListElements218,
+																					pos: position{line: 2919, col: 12, offset: 91995},
+																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2918, col: 13, offset: 91964},
+																						pos: position{line: 2919, col: 13, offset: 91996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 13, offset: 91964},
+																								pos:        position{line: 2919, col: 13, offset: 91996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 20, offset: 91971},
+																								pos:        position{line: 2919, col: 20, offset: 92003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 29, offset: 91980},
+																								pos:        position{line: 2919, col: 29, offset: 92012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25819,9 +25847,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -25879,9 +25907,9 @@ var g = &grammar{
 					pos: position{line: 1493, col: 5, offset: 48275},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2926, col: 11, offset: 92126},
+							pos: position{line: 2927, col: 11, offset: 92158},
 							expr: &anyMatcher{
-								line: 2926, col: 13, offset: 92128,
+								line: 2927, col: 13, offset: 92160,
 							},
 						},
 						&labeledExpr{
@@ -25905,18 +25933,18 @@ var g = &grammar{
 															pos: position{line: 678, col: 14, offset: 21586},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2926, col: 11, offset: 92126},
+																	pos: position{line: 2927, col: 11, offset: 92158},
 																	expr: &anyMatcher{
-																		line: 2926, col: 13, offset: 92128,
+																		line: 2927, col: 13, offset: 92160,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 678, col: 21, offset: 21593},
 																	expr: &actionExpr{
-																		pos: position{line: 2909, col: 10, offset: 91792},
+																		pos: position{line: 2910, col: 10, offset: 91824},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 10, offset: 91792},
+																			pos:        position{line: 2910, col: 10, offset: 91824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25925,28 +25953,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2931, col: 8, offset: 92190},
+																	pos: position{line: 2932, col: 8, offset: 92222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2918, col: 12, offset: 91963},
+																			pos: position{line: 2919, col: 12, offset: 91995},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2918, col: 13, offset: 91964},
+																				pos: position{line: 2919, col: 13, offset: 91996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 13, offset: 91964},
+																						pos:        position{line: 2919, col: 13, offset: 91996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 20, offset: 91971},
+																						pos:        position{line: 2919, col: 20, offset: 92003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 29, offset: 91980},
+																						pos:        position{line: 2919, col: 29, offset: 92012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25955,9 +25983,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2928, col: 8, offset: 92140},
+																			pos: position{line: 2929, col: 8, offset: 92172},
 																			expr: &anyMatcher{
-																				line: 2928, col: 9, offset: 92141,
+																				line: 2929, col: 9, offset: 92173,
 																			},
 																		},
 																	},
@@ -25990,10 +26018,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1584, col: 5, offset: 51102},
 																							expr: &actionExpr{
-																								pos: position{line: 2909, col: 10, offset: 91792},
+																								pos: position{line: 2910, col: 10, offset: 91824},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 10, offset: 91792},
+																									pos:        position{line: 2910, col: 10, offset: 91824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26160,12 +26188,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2913, col: 11, offset: 91853},
+																							pos: position{line: 2914, col: 11, offset: 91885},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2913, col: 11, offset: 91853},
+																								pos: position{line: 2914, col: 11, offset: 91885},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2913, col: 11, offset: 91853},
+																									pos:        position{line: 2914, col: 11, offset: 91885},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26208,28 +26236,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
+																									pos: position{line: 2919, col: 12, offset: 91995},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26238,9 +26266,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -26270,10 +26298,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1634, col: 5, offset: 53064},
 																							expr: &actionExpr{
-																								pos: position{line: 2909, col: 10, offset: 91792},
+																								pos: position{line: 2910, col: 10, offset: 91824},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 10, offset: 91792},
+																									pos:        position{line: 2910, col: 10, offset: 91824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26314,12 +26342,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2913, col: 11, offset: 91853},
+																							pos: position{line: 2914, col: 11, offset: 91885},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2913, col: 11, offset: 91853},
+																								pos: position{line: 2914, col: 11, offset: 91885},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2913, col: 11, offset: 91853},
+																									pos:        position{line: 2914, col: 11, offset: 91885},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26391,12 +26419,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2913, col: 11, offset: 91853},
+																								pos: position{line: 2914, col: 11, offset: 91885},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2913, col: 11, offset: 91853},
+																									pos: position{line: 2914, col: 11, offset: 91885},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2913, col: 11, offset: 91853},
+																										pos:        position{line: 2914, col: 11, offset: 91885},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26440,28 +26468,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
+																									pos: position{line: 2919, col: 12, offset: 91995},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26470,9 +26498,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -26485,36 +26513,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1717, col: 5, offset: 55404},
+																pos: position{line: 1718, col: 5, offset: 55436},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1717, col: 5, offset: 55404},
+																	pos: position{line: 1718, col: 5, offset: 55436},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1717, col: 5, offset: 55404},
+																			pos:   position{line: 1718, col: 5, offset: 55436},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1723, col: 5, offset: 55601},
+																				pos: position{line: 1724, col: 5, offset: 55633},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1723, col: 5, offset: 55601},
+																					pos: position{line: 1724, col: 5, offset: 55633},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1723, col: 5, offset: 55601},
+																							pos:        position{line: 1724, col: 5, offset: 55633},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1723, col: 9, offset: 55605},
+																							pos:   position{line: 1724, col: 9, offset: 55637},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1723, col: 14, offset: 55610},
+																								pos: position{line: 1724, col: 14, offset: 55642},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1723, col: 14, offset: 55610},
+																									pos: position{line: 1724, col: 14, offset: 55642},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1723, col: 14, offset: 55610},
+																										pos:        position{line: 1724, col: 14, offset: 55642},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26524,18 +26552,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1723, col: 62, offset: 55658},
+																							pos:        position{line: 1724, col: 62, offset: 55690},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2913, col: 11, offset: 91853},
+																							pos: position{line: 2914, col: 11, offset: 91885},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2913, col: 11, offset: 91853},
+																								pos: position{line: 2914, col: 11, offset: 91885},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2913, col: 11, offset: 91853},
+																									pos:        position{line: 2914, col: 11, offset: 91885},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26548,7 +26576,7 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1718, col: 5, offset: 55440},
+																			pos:   position{line: 1719, col: 5, offset: 55472},
 																			label: "description",
 																			expr: &actionExpr{
 																				pos: position{line: 1524, col: 5, offset: 49366},
@@ -26578,28 +26606,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
+																									pos: position{line: 2919, col: 12, offset: 91995},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26608,9 +26636,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -26634,88 +26662,116 @@ var g = &grammar{
 																			expr: &actionExpr{
 																				pos: position{line: 1669, col: 5, offset: 54083},
 																				run: (*parser).callonExtraListElement170,
-																				expr: &oneOrMoreExpr{
+																				expr: &seqExpr{
 																					pos: position{line: 1669, col: 5, offset: 54083},
-																					expr: &seqExpr{
-																						pos: position{line: 1669, col: 6, offset: 54084},
-																						exprs: []interface{}{
-																							&notExpr{
-																								pos: position{line: 1669, col: 6, offset: 54084},
-																								expr: &actionExpr{
-																									pos: position{line: 1674, col: 5, offset: 54234},
-																									run: (*parser).callonExtraListElement174,
-																									expr: &seqExpr{
-																										pos: position{line: 1674, col: 5, offset: 54234},
-																										exprs: []interface{}{
-																											&labeledExpr{
-																												pos:   position{line: 1674, col: 5, offset: 54234},
-																												label: "separator",
-																												expr: &actionExpr{
-																													pos: position{line: 1674, col: 16, offset: 54245},
-																													run: (*parser).callonExtraListElement177,
-																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1674, col: 16, offset: 54245},
-																														expr: &litMatcher{
-																															pos:        position{line: 1674, col: 17, offset: 54246},
-																															val:        ":",
-																															ignoreCase: false,
-																															want:       "\":\"",
-																														},
-																													},
-																												},
-																											},
-																											&andCodeExpr{
-																												pos: position{line: 1677, col: 5, offset: 54303},
-																												run: (*parser).callonExtraListElement180,
-																											},
+																					exprs: []interface{}{
+																						&notExpr{
+																							pos: position{line: 1669, col: 5, offset: 54083},
+																							expr: &seqExpr{
+																								pos: position{line: 2518, col: 31, offset: 80852},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2518, col: 31, offset: 80852},
+																										val:        "//",
+																										ignoreCase: false,
+																										want:       "\"//\"",
+																									},
+																									&notExpr{
+																										pos: position{line: 2518, col: 36, offset: 80857},
+																										expr: &litMatcher{
+																											pos:        position{line: 2518, col: 37, offset: 80858},
+																											val:        "/",
+																											ignoreCase: false,
+																											want:       "\"/\"",
 																										},
 																									},
 																								},
 																							},
-																							&notExpr{
-																								pos: position{line: 1669, col: 35, offset: 54113},
-																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 8, offset: 92190},
-																									alternatives: []interface{}{
-																										&actionExpr{
-																											pos: position{line: 2918, col: 12, offset: 91963},
-																											run: (*parser).callonExtraListElement183,
-																											expr: &choiceExpr{
-																												pos: position{line: 2918, col: 13, offset: 91964},
-																												alternatives: []interface{}{
-																													&litMatcher{
-																														pos:        position{line: 2918, col: 13, offset: 91964},
-																														val:        "\n",
-																														ignoreCase: false,
-																														want:       "\"\\n\"",
-																													},
-																													&litMatcher{
-																														pos:        position{line: 2918, col: 20, offset: 91971},
-																														val:        "\r\n",
-																														ignoreCase: false,
-																														want:       "\"\\r\\n\"",
+																						},
+																						&oneOrMoreExpr{
+																							pos: position{line: 1670, col: 5, offset: 54115},
+																							expr: &seqExpr{
+																								pos: position{line: 1670, col: 6, offset: 54116},
+																								exprs: []interface{}{
+																									&notExpr{
+																										pos: position{line: 1670, col: 6, offset: 54116},
+																										expr: &actionExpr{
+																											pos: position{line: 1675, col: 5, offset: 54266},
+																											run: (*parser).callonExtraListElement180,
+																											expr: &seqExpr{
+																												pos: position{line: 1675, col: 5, offset: 54266},
+																												exprs: []interface{}{
+																													&labeledExpr{
+																														pos:   position{line: 1675, col: 5, offset: 54266},
+																														label: "separator",
+																														expr: &actionExpr{
+																															pos: position{line: 1675, col: 16, offset: 54277},
+																															run: (*parser).callonExtraListElement183,
+																															expr: &oneOrMoreExpr{
+																																pos: position{line: 1675, col: 16, offset: 54277},
+																																expr: &litMatcher{
+																																	pos:        position{line: 1675, col: 17, offset: 54278},
+																																	val:        ":",
+																																	ignoreCase: false,
+																																	want:       "\":\"",
+																																},
+																															},
+																														},
 																													},
-																													&litMatcher{
-																														pos:        position{line: 2918, col: 29, offset: 91980},
-																														val:        "\r",
-																														ignoreCase: false,
-																														want:       "\"\\r\"",
+																													&andCodeExpr{
+																														pos: position{line: 1678, col: 5, offset: 54335},
+																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
 																											},
 																										},
-																										&notExpr{
-																											pos: position{line: 2928, col: 8, offset: 92140},
-																											expr: &anyMatcher{
-																												line: 2928, col: 9, offset: 92141,
+																									},
+																									&notExpr{
+																										pos: position{line: 1670, col: 35, offset: 54145},
+																										expr: &choiceExpr{
+																											pos: position{line: 2932, col: 8, offset: 92222},
+																											alternatives: []interface{}{
+																												&actionExpr{
+																													pos: position{line: 2919, col: 12, offset: 91995},
+																													run: (*parser).callonExtraListElement189,
+																													expr: &choiceExpr{
+																														pos: position{line: 2919, col: 13, offset: 91996},
+																														alternatives: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 2919, col: 13, offset: 91996},
+																																val:        "\n",
+																																ignoreCase: false,
+																																want:       "\"\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2919, col: 20, offset: 92003},
+																																val:        "\r\n",
+																																ignoreCase: false,
+																																want:       "\"\\r\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2919, col: 29, offset: 92012},
+																																val:        "\r",
+																																ignoreCase: false,
+																																want:       "\"\\r\"",
+																															},
+																														},
+																													},
+																												},
+																												&notExpr{
+																													pos: position{line: 2929, col: 8, offset: 92172},
+																													expr: &anyMatcher{
+																														line: 2929, col: 9, offset: 92173,
+																													},
+																												},
 																											},
 																										},
 																									},
+																									&anyMatcher{
+																										line: 1670, col: 40, offset: 54150,
+																									},
 																								},
 																							},
-																							&anyMatcher{
-																								line: 1669, col: 40, offset: 54118,
-																							},
 																						},
 																					},
 																				},
@@ -26725,21 +26781,21 @@ var g = &grammar{
 																			pos:   position{line: 1662, col: 5, offset: 53792},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1674, col: 5, offset: 54234},
-																				run: (*parser).callonExtraListElement192,
+																				pos: position{line: 1675, col: 5, offset: 54266},
+																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1674, col: 5, offset: 54234},
+																					pos: position{line: 1675, col: 5, offset: 54266},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1674, col: 5, offset: 54234},
+																							pos:   position{line: 1675, col: 5, offset: 54266},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1674, col: 16, offset: 54245},
-																								run: (*parser).callonExtraListElement195,
+																								pos: position{line: 1675, col: 16, offset: 54277},
+																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1674, col: 16, offset: 54245},
+																									pos: position{line: 1675, col: 16, offset: 54277},
 																									expr: &litMatcher{
-																										pos:        position{line: 1674, col: 17, offset: 54246},
+																										pos:        position{line: 1675, col: 17, offset: 54278},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26748,8 +26804,8 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1677, col: 5, offset: 54303},
-																							run: (*parser).callonExtraListElement198,
+																							pos: position{line: 1678, col: 5, offset: 54335},
+																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
 																				},
@@ -26759,21 +26815,21 @@ var g = &grammar{
 																			pos:   position{line: 1663, col: 5, offset: 53837},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1685, col: 5, offset: 54552},
+																				pos: position{line: 1686, col: 5, offset: 54584},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1687, col: 9, offset: 54618},
-																						run: (*parser).callonExtraListElement201,
+																						pos: position{line: 1688, col: 9, offset: 54650},
+																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1687, col: 9, offset: 54618},
+																							pos: position{line: 1688, col: 9, offset: 54650},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1687, col: 9, offset: 54618},
+																									pos: position{line: 1688, col: 9, offset: 54650},
 																									expr: &actionExpr{
-																										pos: position{line: 2909, col: 10, offset: 91792},
-																										run: (*parser).callonExtraListElement204,
+																										pos: position{line: 2910, col: 10, offset: 91824},
+																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2909, col: 10, offset: 91792},
+																											pos:        position{line: 2910, col: 10, offset: 91824},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26782,28 +26838,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2931, col: 8, offset: 92190},
+																									pos: position{line: 2932, col: 8, offset: 92222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2918, col: 12, offset: 91963},
-																											run: (*parser).callonExtraListElement207,
+																											pos: position{line: 2919, col: 12, offset: 91995},
+																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2918, col: 13, offset: 91964},
+																												pos: position{line: 2919, col: 13, offset: 91996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 13, offset: 91964},
+																														pos:        position{line: 2919, col: 13, offset: 91996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 20, offset: 91971},
+																														pos:        position{line: 2919, col: 20, offset: 92003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 29, offset: 91980},
+																														pos:        position{line: 2919, col: 29, offset: 92012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26812,34 +26868,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2928, col: 8, offset: 92140},
+																											pos: position{line: 2929, col: 8, offset: 92172},
 																											expr: &anyMatcher{
-																												line: 2928, col: 9, offset: 92141,
+																												line: 2929, col: 9, offset: 92173,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1688, col: 9, offset: 54637},
+																									pos: position{line: 1689, col: 9, offset: 54669},
 																									expr: &actionExpr{
 																										pos: position{line: 678, col: 14, offset: 21586},
-																										run: (*parser).callonExtraListElement215,
+																										run: (*parser).callonExtraListElement221,
 																										expr: &seqExpr{
 																											pos: position{line: 678, col: 14, offset: 21586},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2926, col: 11, offset: 92126},
+																													pos: position{line: 2927, col: 11, offset: 92158},
 																													expr: &anyMatcher{
-																														line: 2926, col: 13, offset: 92128,
+																														line: 2927, col: 13, offset: 92160,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 678, col: 21, offset: 21593},
 																													expr: &actionExpr{
-																														pos: position{line: 2909, col: 10, offset: 91792},
-																														run: (*parser).callonExtraListElement220,
+																														pos: position{line: 2910, col: 10, offset: 91824},
+																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2909, col: 10, offset: 91792},
+																															pos:        position{line: 2910, col: 10, offset: 91824},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26848,28 +26904,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2931, col: 8, offset: 92190},
+																													pos: position{line: 2932, col: 8, offset: 92222},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2918, col: 12, offset: 91963},
-																															run: (*parser).callonExtraListElement223,
+																															pos: position{line: 2919, col: 12, offset: 91995},
+																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2918, col: 13, offset: 91964},
+																																pos: position{line: 2919, col: 13, offset: 91996},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2918, col: 13, offset: 91964},
+																																		pos:        position{line: 2919, col: 13, offset: 91996},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2918, col: 20, offset: 91971},
+																																		pos:        position{line: 2919, col: 20, offset: 92003},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2918, col: 29, offset: 91980},
+																																		pos:        position{line: 2919, col: 29, offset: 92012},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26878,9 +26934,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2928, col: 8, offset: 92140},
+																															pos: position{line: 2929, col: 8, offset: 92172},
 																															expr: &anyMatcher{
-																																line: 2928, col: 9, offset: 92141,
+																																line: 2929, col: 9, offset: 92173,
 																															},
 																														},
 																													},
@@ -26893,18 +26949,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1694, col: 9, offset: 54766},
-																						run: (*parser).callonExtraListElement230,
+																						pos: position{line: 1695, col: 9, offset: 54798},
+																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1694, col: 9, offset: 54766},
+																							pos: position{line: 1695, col: 9, offset: 54798},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2913, col: 11, offset: 91853},
-																									run: (*parser).callonExtraListElement232,
+																									pos: position{line: 2914, col: 11, offset: 91885},
+																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2913, col: 11, offset: 91853},
+																										pos: position{line: 2914, col: 11, offset: 91885},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2913, col: 11, offset: 91853},
+																											pos:        position{line: 2914, col: 11, offset: 91885},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26913,15 +26969,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1695, col: 9, offset: 54839},
+																									pos:   position{line: 1696, col: 9, offset: 54871},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1695, col: 18, offset: 54848},
-																										run: (*parser).callonExtraListElement236,
+																										pos: position{line: 1696, col: 18, offset: 54880},
+																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1695, col: 18, offset: 54848},
+																											pos: position{line: 1696, col: 18, offset: 54880},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1695, col: 18, offset: 54848},
+																												pos:        position{line: 1696, col: 18, offset: 54880},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26931,28 +26987,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2931, col: 8, offset: 92190},
+																									pos: position{line: 2932, col: 8, offset: 92222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2918, col: 12, offset: 91963},
-																											run: (*parser).callonExtraListElement240,
+																											pos: position{line: 2919, col: 12, offset: 91995},
+																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2918, col: 13, offset: 91964},
+																												pos: position{line: 2919, col: 13, offset: 91996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 13, offset: 91964},
+																														pos:        position{line: 2919, col: 13, offset: 91996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 20, offset: 91971},
+																														pos:        position{line: 2919, col: 20, offset: 92003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 29, offset: 91980},
+																														pos:        position{line: 2919, col: 29, offset: 92012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26961,9 +27017,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2928, col: 8, offset: 92140},
+																											pos: position{line: 2929, col: 8, offset: 92172},
 																											expr: &anyMatcher{
-																												line: 2928, col: 9, offset: 92141,
+																												line: 2929, col: 9, offset: 92173,
 																											},
 																										},
 																									},
@@ -26985,7 +27041,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1499, col: 13, offset: 48493},
-										run: (*parser).callonExtraListElement247,
+										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
 											pos: position{line: 1499, col: 13, offset: 48493},
 											exprs: []interface{}{
@@ -27008,7 +27064,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 1577, col: 5, offset: 50894},
-																run: (*parser).callonExtraListElement254,
+																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
 																	pos: position{line: 1577, col: 5, offset: 50894},
 																	exprs: []interface{}{
@@ -27017,17 +27073,17 @@ var g = &grammar{
 																			label: "prefix",
 																			expr: &actionExpr{
 																				pos: position{line: 1584, col: 5, offset: 51102},
-																				run: (*parser).callonExtraListElement257,
+																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
 																					pos: position{line: 1584, col: 5, offset: 51102},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1584, col: 5, offset: 51102},
 																							expr: &actionExpr{
-																								pos: position{line: 2909, col: 10, offset: 91792},
-																								run: (*parser).callonExtraListElement260,
+																								pos: position{line: 2910, col: 10, offset: 91824},
+																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 10, offset: 91792},
+																									pos:        position{line: 2910, col: 10, offset: 91824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27043,7 +27099,7 @@ var g = &grammar{
 																								alternatives: []interface{}{
 																									&actionExpr{
 																										pos: position{line: 1586, col: 9, offset: 51172},
-																										run: (*parser).callonExtraListElement264,
+																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
 																											pos: position{line: 1586, col: 9, offset: 51172},
 																											exprs: []interface{}{
@@ -27052,7 +27108,7 @@ var g = &grammar{
 																													label: "depth",
 																													expr: &actionExpr{
 																														pos: position{line: 1586, col: 16, offset: 51179},
-																														run: (*parser).callonExtraListElement267,
+																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
 																															pos: position{line: 1586, col: 16, offset: 51179},
 																															expr: &litMatcher{
@@ -27066,14 +27122,14 @@ var g = &grammar{
 																												},
 																												&andCodeExpr{
 																													pos: position{line: 1590, col: 9, offset: 51280},
-																													run: (*parser).callonExtraListElement270,
+																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
 																										pos: position{line: 1609, col: 11, offset: 51997},
-																										run: (*parser).callonExtraListElement271,
+																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
 																											pos: position{line: 1609, col: 11, offset: 51997},
 																											exprs: []interface{}{
@@ -27098,7 +27154,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 1611, col: 13, offset: 52123},
-																										run: (*parser).callonExtraListElement276,
+																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
 																											pos: position{line: 1611, col: 13, offset: 52123},
 																											exprs: []interface{}{
@@ -27120,7 +27176,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 1613, col: 13, offset: 52251},
-																										run: (*parser).callonExtraListElement280,
+																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
 																											pos: position{line: 1613, col: 13, offset: 52251},
 																											exprs: []interface{}{
@@ -27142,7 +27198,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 1615, col: 13, offset: 52379},
-																										run: (*parser).callonExtraListElement284,
+																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
 																											pos: position{line: 1615, col: 13, offset: 52379},
 																											exprs: []interface{}{
@@ -27167,7 +27223,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 1617, col: 13, offset: 52512},
-																										run: (*parser).callonExtraListElement289,
+																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
 																											pos: position{line: 1617, col: 13, offset: 52512},
 																											exprs: []interface{}{
@@ -27194,12 +27250,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2913, col: 11, offset: 91853},
-																							run: (*parser).callonExtraListElement294,
+																							pos: position{line: 2914, col: 11, offset: 91885},
+																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2913, col: 11, offset: 91853},
+																								pos: position{line: 2914, col: 11, offset: 91885},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2913, col: 11, offset: 91853},
+																									pos:        position{line: 2914, col: 11, offset: 91885},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27216,7 +27272,7 @@ var g = &grammar{
 																			label: "content",
 																			expr: &actionExpr{
 																				pos: position{line: 1524, col: 5, offset: 49366},
-																				run: (*parser).callonExtraListElement298,
+																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
 																					pos: position{line: 1524, col: 5, offset: 49366},
 																					exprs: []interface{}{
@@ -27227,7 +27283,7 @@ var g = &grammar{
 																								pos: position{line: 1524, col: 14, offset: 49375},
 																								expr: &actionExpr{
 																									pos: position{line: 1524, col: 15, offset: 49376},
-																									run: (*parser).callonExtraListElement302,
+																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
 																										pos: position{line: 1524, col: 15, offset: 49376},
 																										expr: &charClassMatcher{
@@ -27242,28 +27298,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
-																									run: (*parser).callonExtraListElement306,
+																									pos: position{line: 2919, col: 12, offset: 91995},
+																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27272,9 +27328,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -27288,7 +27344,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 1627, col: 5, offset: 52791},
-																run: (*parser).callonExtraListElement313,
+																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
 																	pos: position{line: 1627, col: 5, offset: 52791},
 																	exprs: []interface{}{
@@ -27297,17 +27353,17 @@ var g = &grammar{
 																			label: "prefix",
 																			expr: &actionExpr{
 																				pos: position{line: 1634, col: 5, offset: 53064},
-																				run: (*parser).callonExtraListElement316,
+																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
 																					pos: position{line: 1634, col: 5, offset: 53064},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1634, col: 5, offset: 53064},
 																							expr: &actionExpr{
-																								pos: position{line: 2909, col: 10, offset: 91792},
-																								run: (*parser).callonExtraListElement319,
+																								pos: position{line: 2910, col: 10, offset: 91824},
+																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 10, offset: 91792},
+																									pos:        position{line: 2910, col: 10, offset: 91824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27320,7 +27376,7 @@ var g = &grammar{
 																							label: "style",
 																							expr: &actionExpr{
 																								pos: position{line: 1636, col: 9, offset: 53092},
-																								run: (*parser).callonExtraListElement322,
+																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
 																									pos: position{line: 1636, col: 10, offset: 53093},
 																									alternatives: []interface{}{
@@ -27345,15 +27401,15 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1639, col: 7, offset: 53192},
-																							run: (*parser).callonExtraListElement327,
+																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2913, col: 11, offset: 91853},
-																							run: (*parser).callonExtraListElement328,
+																							pos: position{line: 2914, col: 11, offset: 91885},
+																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2913, col: 11, offset: 91853},
+																								pos: position{line: 2914, col: 11, offset: 91885},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2913, col: 11, offset: 91853},
+																									pos:        position{line: 2914, col: 11, offset: 91885},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27372,7 +27428,7 @@ var g = &grammar{
 																				pos: position{line: 1628, col: 16, offset: 52843},
 																				expr: &actionExpr{
 																					pos: position{line: 1649, col: 5, offset: 53457},
-																					run: (*parser).callonExtraListElement333,
+																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
 																						pos: position{line: 1649, col: 5, offset: 53457},
 																						exprs: []interface{}{
@@ -27393,7 +27449,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 1650, col: 7, offset: 53476},
-																											run: (*parser).callonExtraListElement339,
+																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
 																												pos:        position{line: 1650, col: 7, offset: 53476},
 																												val:        "[ ]",
@@ -27403,7 +27459,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 1651, col: 7, offset: 53521},
-																											run: (*parser).callonExtraListElement341,
+																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
 																												pos:        position{line: 1651, col: 7, offset: 53521},
 																												val:        "[*]",
@@ -27413,7 +27469,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 1652, col: 7, offset: 53564},
-																											run: (*parser).callonExtraListElement343,
+																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
 																												pos:        position{line: 1652, col: 7, offset: 53564},
 																												val:        "[x]",
@@ -27425,12 +27481,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2913, col: 11, offset: 91853},
-																								run: (*parser).callonExtraListElement345,
+																								pos: position{line: 2914, col: 11, offset: 91885},
+																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2913, col: 11, offset: 91853},
+																									pos: position{line: 2914, col: 11, offset: 91885},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2913, col: 11, offset: 91853},
+																										pos:        position{line: 2914, col: 11, offset: 91885},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27448,7 +27504,7 @@ var g = &grammar{
 																			label: "content",
 																			expr: &actionExpr{
 																				pos: position{line: 1524, col: 5, offset: 49366},
-																				run: (*parser).callonExtraListElement349,
+																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
 																					pos: position{line: 1524, col: 5, offset: 49366},
 																					exprs: []interface{}{
@@ -27459,7 +27515,7 @@ var g = &grammar{
 																								pos: position{line: 1524, col: 14, offset: 49375},
 																								expr: &actionExpr{
 																									pos: position{line: 1524, col: 15, offset: 49376},
-																									run: (*parser).callonExtraListElement353,
+																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
 																										pos: position{line: 1524, col: 15, offset: 49376},
 																										expr: &charClassMatcher{
@@ -27474,28 +27530,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
-																									run: (*parser).callonExtraListElement357,
+																									pos: position{line: 2919, col: 12, offset: 91995},
+																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27504,9 +27560,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -27519,36 +27575,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1717, col: 5, offset: 55404},
-																run: (*parser).callonExtraListElement364,
+																pos: position{line: 1718, col: 5, offset: 55436},
+																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1717, col: 5, offset: 55404},
+																	pos: position{line: 1718, col: 5, offset: 55436},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1717, col: 5, offset: 55404},
+																			pos:   position{line: 1718, col: 5, offset: 55436},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1723, col: 5, offset: 55601},
-																				run: (*parser).callonExtraListElement367,
+																				pos: position{line: 1724, col: 5, offset: 55633},
+																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1723, col: 5, offset: 55601},
+																					pos: position{line: 1724, col: 5, offset: 55633},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1723, col: 5, offset: 55601},
+																							pos:        position{line: 1724, col: 5, offset: 55633},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1723, col: 9, offset: 55605},
+																							pos:   position{line: 1724, col: 9, offset: 55637},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1723, col: 14, offset: 55610},
-																								run: (*parser).callonExtraListElement371,
+																								pos: position{line: 1724, col: 14, offset: 55642},
+																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1723, col: 14, offset: 55610},
+																									pos: position{line: 1724, col: 14, offset: 55642},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1723, col: 14, offset: 55610},
+																										pos:        position{line: 1724, col: 14, offset: 55642},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27558,18 +27614,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1723, col: 62, offset: 55658},
+																							pos:        position{line: 1724, col: 62, offset: 55690},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2913, col: 11, offset: 91853},
-																							run: (*parser).callonExtraListElement375,
+																							pos: position{line: 2914, col: 11, offset: 91885},
+																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2913, col: 11, offset: 91853},
+																								pos: position{line: 2914, col: 11, offset: 91885},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2913, col: 11, offset: 91853},
+																									pos:        position{line: 2914, col: 11, offset: 91885},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27582,11 +27638,11 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1718, col: 5, offset: 55440},
+																			pos:   position{line: 1719, col: 5, offset: 55472},
 																			label: "description",
 																			expr: &actionExpr{
 																				pos: position{line: 1524, col: 5, offset: 49366},
-																				run: (*parser).callonExtraListElement379,
+																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
 																					pos: position{line: 1524, col: 5, offset: 49366},
 																					exprs: []interface{}{
@@ -27597,7 +27653,7 @@ var g = &grammar{
 																								pos: position{line: 1524, col: 14, offset: 49375},
 																								expr: &actionExpr{
 																									pos: position{line: 1524, col: 15, offset: 49376},
-																									run: (*parser).callonExtraListElement383,
+																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
 																										pos: position{line: 1524, col: 15, offset: 49376},
 																										expr: &charClassMatcher{
@@ -27612,28 +27668,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
-																									run: (*parser).callonExtraListElement387,
+																									pos: position{line: 2919, col: 12, offset: 91995},
+																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27642,9 +27698,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -27658,7 +27714,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 1661, col: 5, offset: 53757},
-																run: (*parser).callonExtraListElement394,
+																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
 																	pos: position{line: 1661, col: 5, offset: 53757},
 																	exprs: []interface{}{
@@ -27667,89 +27723,117 @@ var g = &grammar{
 																			label: "term",
 																			expr: &actionExpr{
 																				pos: position{line: 1669, col: 5, offset: 54083},
-																				run: (*parser).callonExtraListElement397,
-																				expr: &oneOrMoreExpr{
+																				run: (*parser).callonExtraListElement403,
+																				expr: &seqExpr{
 																					pos: position{line: 1669, col: 5, offset: 54083},
-																					expr: &seqExpr{
-																						pos: position{line: 1669, col: 6, offset: 54084},
-																						exprs: []interface{}{
-																							&notExpr{
-																								pos: position{line: 1669, col: 6, offset: 54084},
-																								expr: &actionExpr{
-																									pos: position{line: 1674, col: 5, offset: 54234},
-																									run: (*parser).callonExtraListElement401,
-																									expr: &seqExpr{
-																										pos: position{line: 1674, col: 5, offset: 54234},
-																										exprs: []interface{}{
-																											&labeledExpr{
-																												pos:   position{line: 1674, col: 5, offset: 54234},
-																												label: "separator",
-																												expr: &actionExpr{
-																													pos: position{line: 1674, col: 16, offset: 54245},
-																													run: (*parser).callonExtraListElement404,
-																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1674, col: 16, offset: 54245},
-																														expr: &litMatcher{
-																															pos:        position{line: 1674, col: 17, offset: 54246},
-																															val:        ":",
-																															ignoreCase: false,
-																															want:       "\":\"",
-																														},
-																													},
-																												},
-																											},
-																											&andCodeExpr{
-																												pos: position{line: 1677, col: 5, offset: 54303},
-																												run: (*parser).callonExtraListElement407,
-																											},
+																					exprs: []interface{}{
+																						&notExpr{
+																							pos: position{line: 1669, col: 5, offset: 54083},
+																							expr: &seqExpr{
+																								pos: position{line: 2518, col: 31, offset: 80852},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2518, col: 31, offset: 80852},
+																										val:        "//",
+																										ignoreCase: false,
+																										want:       "\"//\"",
+																									},
+																									&notExpr{
+																										pos: position{line: 2518, col: 36, offset: 80857},
+																										expr: &litMatcher{
+																											pos:        position{line: 2518, col: 37, offset: 80858},
+																											val:        "/",
+																											ignoreCase: false,
+																											want:       "\"/\"",
 																										},
 																									},
 																								},
 																							},
-																							&notExpr{
-																								pos: position{line: 1669, col: 35, offset: 54113},
-																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 8, offset: 92190},
-																									alternatives: []interface{}{
-																										&actionExpr{
-																											pos: position{line: 2918, col: 12, offset: 91963},
-																											run: (*parser).callonExtraListElement410,
-																											expr: &choiceExpr{
-																												pos: position{line: 2918, col: 13, offset: 91964},
-																												alternatives: []interface{}{
-																													&litMatcher{
-																														pos:        position{line: 2918, col: 13, offset: 91964},
-																														val:        "\n",
-																														ignoreCase: false,
-																														want:       "\"\\n\"",
+																						},
+																						&oneOrMoreExpr{
+																							pos: position{line: 1670, col: 5, offset: 54115},
+																							expr: &seqExpr{
+																								pos: position{line: 1670, col: 6, offset: 54116},
+																								exprs: []interface{}{
+																									&notExpr{
+																										pos: position{line: 1670, col: 6, offset: 54116},
+																										expr: &actionExpr{
+																											pos: position{line: 1675, col: 5, offset: 54266},
+																											run: (*parser).callonExtraListElement413,
+																											expr: &seqExpr{
+																												pos: position{line: 1675, col: 5, offset: 54266},
+																												exprs: []interface{}{
+																													&labeledExpr{
+																														pos:   position{line: 1675, col: 5, offset: 54266},
+																														label: "separator",
+																														expr: &actionExpr{
+																															pos: position{line: 1675, col: 16, offset: 54277},
+																															run: (*parser).callonExtraListElement416,
+																															expr: &oneOrMoreExpr{
+																																pos: position{line: 1675, col: 16, offset: 54277},
+																																expr: &litMatcher{
+																																	pos:        position{line: 1675, col: 17, offset: 54278},
+																																	val:        ":",
+																																	ignoreCase: false,
+																																	want:       "\":\"",
+																																},
+																															},
+																														},
 																													},
-																													&litMatcher{
-																														pos:        position{line: 2918, col: 20, offset: 91971},
-																														val:        "\r\n",
-																														ignoreCase: false,
-																														want:       "\"\\r\\n\"",
-																													},
-																													&litMatcher{
-																														pos:        position{line: 2918, col: 29, offset: 91980},
-																														val:        "\r",
-																														ignoreCase: false,
-																														want:       "\"\\r\"",
+																													&andCodeExpr{
+																														pos: position{line: 1678, col: 5, offset: 54335},
+																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
 																											},
 																										},
-																										&notExpr{
-																											pos: position{line: 2928, col: 8, offset: 92140},
-																											expr: &anyMatcher{
-																												line: 2928, col: 9, offset: 92141,
+																									},
+																									&notExpr{
+																										pos: position{line: 1670, col: 35, offset: 54145},
+																										expr: &choiceExpr{
+																											pos: position{line: 2932, col: 8, offset: 92222},
+																											alternatives: []interface{}{
+																												&actionExpr{
+																													pos: position{line: 2919, col: 12, offset: 91995},
+																													run: (*parser).callonExtraListElement422,
+																													expr: &choiceExpr{
+																														pos: position{line: 2919, col: 13, offset: 91996},
+																														alternatives: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 2919, col: 13, offset: 91996},
+																																val:        "\n",
+																																ignoreCase: false,
+																																want:       "\"\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2919, col: 20, offset: 92003},
+																																val:        "\r\n",
+																																ignoreCase: false,
+																																want:       "\"\\r\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2919, col: 29, offset: 92012},
+																																val:        "\r",
+																																ignoreCase: false,
+																																want:       "\"\\r\"",
+																															},
+																														},
+																													},
+																												},
+																												&notExpr{
+																													pos: position{line: 2929, col: 8, offset: 92172},
+																													expr: &anyMatcher{
+																														line: 2929, col: 9, offset: 92173,
+																													},
+																												},
 																											},
 																										},
 																									},
+																									&anyMatcher{
+																										line: 1670, col: 40, offset: 54150,
+																									},
 																								},
 																							},
-																							&anyMatcher{
-																								line: 1669, col: 40, offset: 54118,
-																							},
 																						},
 																					},
 																				},
@@ -27759,21 +27843,21 @@ var g = &grammar{
 																			pos:   position{line: 1662, col: 5, offset: 53792},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1674, col: 5, offset: 54234},
-																				run: (*parser).callonExtraListElement419,
+																				pos: position{line: 1675, col: 5, offset: 54266},
+																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1674, col: 5, offset: 54234},
+																					pos: position{line: 1675, col: 5, offset: 54266},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1674, col: 5, offset: 54234},
+																							pos:   position{line: 1675, col: 5, offset: 54266},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1674, col: 16, offset: 54245},
-																								run: (*parser).callonExtraListElement422,
+																								pos: position{line: 1675, col: 16, offset: 54277},
+																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1674, col: 16, offset: 54245},
+																									pos: position{line: 1675, col: 16, offset: 54277},
 																									expr: &litMatcher{
-																										pos:        position{line: 1674, col: 17, offset: 54246},
+																										pos:        position{line: 1675, col: 17, offset: 54278},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27782,8 +27866,8 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1677, col: 5, offset: 54303},
-																							run: (*parser).callonExtraListElement425,
+																							pos: position{line: 1678, col: 5, offset: 54335},
+																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
 																				},
@@ -27793,21 +27877,21 @@ var g = &grammar{
 																			pos:   position{line: 1663, col: 5, offset: 53837},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1685, col: 5, offset: 54552},
+																				pos: position{line: 1686, col: 5, offset: 54584},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1687, col: 9, offset: 54618},
-																						run: (*parser).callonExtraListElement428,
+																						pos: position{line: 1688, col: 9, offset: 54650},
+																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1687, col: 9, offset: 54618},
+																							pos: position{line: 1688, col: 9, offset: 54650},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1687, col: 9, offset: 54618},
+																									pos: position{line: 1688, col: 9, offset: 54650},
 																									expr: &actionExpr{
-																										pos: position{line: 2909, col: 10, offset: 91792},
-																										run: (*parser).callonExtraListElement431,
+																										pos: position{line: 2910, col: 10, offset: 91824},
+																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2909, col: 10, offset: 91792},
+																											pos:        position{line: 2910, col: 10, offset: 91824},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27816,28 +27900,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2931, col: 8, offset: 92190},
+																									pos: position{line: 2932, col: 8, offset: 92222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2918, col: 12, offset: 91963},
-																											run: (*parser).callonExtraListElement434,
+																											pos: position{line: 2919, col: 12, offset: 91995},
+																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2918, col: 13, offset: 91964},
+																												pos: position{line: 2919, col: 13, offset: 91996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 13, offset: 91964},
+																														pos:        position{line: 2919, col: 13, offset: 91996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 20, offset: 91971},
+																														pos:        position{line: 2919, col: 20, offset: 92003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 29, offset: 91980},
+																														pos:        position{line: 2919, col: 29, offset: 92012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27846,34 +27930,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2928, col: 8, offset: 92140},
+																											pos: position{line: 2929, col: 8, offset: 92172},
 																											expr: &anyMatcher{
-																												line: 2928, col: 9, offset: 92141,
+																												line: 2929, col: 9, offset: 92173,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1688, col: 9, offset: 54637},
+																									pos: position{line: 1689, col: 9, offset: 54669},
 																									expr: &actionExpr{
 																										pos: position{line: 678, col: 14, offset: 21586},
-																										run: (*parser).callonExtraListElement442,
+																										run: (*parser).callonExtraListElement454,
 																										expr: &seqExpr{
 																											pos: position{line: 678, col: 14, offset: 21586},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2926, col: 11, offset: 92126},
+																													pos: position{line: 2927, col: 11, offset: 92158},
 																													expr: &anyMatcher{
-																														line: 2926, col: 13, offset: 92128,
+																														line: 2927, col: 13, offset: 92160,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 678, col: 21, offset: 21593},
 																													expr: &actionExpr{
-																														pos: position{line: 2909, col: 10, offset: 91792},
-																														run: (*parser).callonExtraListElement447,
+																														pos: position{line: 2910, col: 10, offset: 91824},
+																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2909, col: 10, offset: 91792},
+																															pos:        position{line: 2910, col: 10, offset: 91824},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27882,28 +27966,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2931, col: 8, offset: 92190},
+																													pos: position{line: 2932, col: 8, offset: 92222},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2918, col: 12, offset: 91963},
-																															run: (*parser).callonExtraListElement450,
+																															pos: position{line: 2919, col: 12, offset: 91995},
+																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2918, col: 13, offset: 91964},
+																																pos: position{line: 2919, col: 13, offset: 91996},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2918, col: 13, offset: 91964},
+																																		pos:        position{line: 2919, col: 13, offset: 91996},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2918, col: 20, offset: 91971},
+																																		pos:        position{line: 2919, col: 20, offset: 92003},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2918, col: 29, offset: 91980},
+																																		pos:        position{line: 2919, col: 29, offset: 92012},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27912,9 +27996,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2928, col: 8, offset: 92140},
+																															pos: position{line: 2929, col: 8, offset: 92172},
 																															expr: &anyMatcher{
-																																line: 2928, col: 9, offset: 92141,
+																																line: 2929, col: 9, offset: 92173,
 																															},
 																														},
 																													},
@@ -27927,18 +28011,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1694, col: 9, offset: 54766},
-																						run: (*parser).callonExtraListElement457,
+																						pos: position{line: 1695, col: 9, offset: 54798},
+																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1694, col: 9, offset: 54766},
+																							pos: position{line: 1695, col: 9, offset: 54798},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2913, col: 11, offset: 91853},
-																									run: (*parser).callonExtraListElement459,
+																									pos: position{line: 2914, col: 11, offset: 91885},
+																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2913, col: 11, offset: 91853},
+																										pos: position{line: 2914, col: 11, offset: 91885},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2913, col: 11, offset: 91853},
+																											pos:        position{line: 2914, col: 11, offset: 91885},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27947,15 +28031,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1695, col: 9, offset: 54839},
+																									pos:   position{line: 1696, col: 9, offset: 54871},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1695, col: 18, offset: 54848},
-																										run: (*parser).callonExtraListElement463,
+																										pos: position{line: 1696, col: 18, offset: 54880},
+																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1695, col: 18, offset: 54848},
+																											pos: position{line: 1696, col: 18, offset: 54880},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1695, col: 18, offset: 54848},
+																												pos:        position{line: 1696, col: 18, offset: 54880},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27965,28 +28049,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2931, col: 8, offset: 92190},
+																									pos: position{line: 2932, col: 8, offset: 92222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2918, col: 12, offset: 91963},
-																											run: (*parser).callonExtraListElement467,
+																											pos: position{line: 2919, col: 12, offset: 91995},
+																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2918, col: 13, offset: 91964},
+																												pos: position{line: 2919, col: 13, offset: 91996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 13, offset: 91964},
+																														pos:        position{line: 2919, col: 13, offset: 91996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 20, offset: 91971},
+																														pos:        position{line: 2919, col: 20, offset: 92003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 29, offset: 91980},
+																														pos:        position{line: 2919, col: 29, offset: 92012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27995,9 +28079,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2928, col: 8, offset: 92140},
+																											pos: position{line: 2929, col: 8, offset: 92172},
 																											expr: &anyMatcher{
-																												line: 2928, col: 9, offset: 92141,
+																												line: 2929, col: 9, offset: 92173,
 																											},
 																										},
 																									},
@@ -28022,36 +28106,36 @@ var g = &grammar{
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 22, offset: 80570},
-										run: (*parser).callonExtraListElement475,
+										pos: position{line: 2513, col: 22, offset: 80602},
+										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 22, offset: 80570},
+											pos: position{line: 2513, col: 22, offset: 80602},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2517, col: 31, offset: 80820},
+													pos:        position{line: 2518, col: 31, offset: 80852},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2517, col: 36, offset: 80825},
+													pos: position{line: 2518, col: 36, offset: 80857},
 													expr: &litMatcher{
-														pos:        position{line: 2517, col: 37, offset: 80826},
+														pos:        position{line: 2518, col: 37, offset: 80858},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2512, col: 49, offset: 80597},
+													pos:   position{line: 2513, col: 49, offset: 80629},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2855, col: 13, offset: 90318},
-														run: (*parser).callonExtraListElement481,
+														pos: position{line: 2856, col: 13, offset: 90350},
+														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2855, col: 13, offset: 90318},
+															pos: position{line: 2856, col: 13, offset: 90350},
 															expr: &charClassMatcher{
-																pos:        position{line: 2855, col: 13, offset: 90318},
+																pos:        position{line: 2856, col: 13, offset: 90350},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28061,28 +28145,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2931, col: 8, offset: 92190},
+													pos: position{line: 2932, col: 8, offset: 92222},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2918, col: 12, offset: 91963},
-															run: (*parser).callonExtraListElement485,
+															pos: position{line: 2919, col: 12, offset: 91995},
+															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2918, col: 13, offset: 91964},
+																pos: position{line: 2919, col: 13, offset: 91996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 13, offset: 91964},
+																		pos:        position{line: 2919, col: 13, offset: 91996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 20, offset: 91971},
+																		pos:        position{line: 2919, col: 20, offset: 92003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 29, offset: 91980},
+																		pos:        position{line: 2919, col: 29, offset: 92012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28091,9 +28175,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2928, col: 8, offset: 92140},
+															pos: position{line: 2929, col: 8, offset: 92172},
 															expr: &anyMatcher{
-																line: 2928, col: 9, offset: 92141,
+																line: 2929, col: 9, offset: 92173,
 															},
 														},
 													},
@@ -28103,7 +28187,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1511, col: 5, offset: 49008},
-										run: (*parser).callonExtraListElement492,
+										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
 											pos: position{line: 1511, col: 5, offset: 49008},
 											exprs: []interface{}{
@@ -28111,23 +28195,23 @@ var g = &grammar{
 													pos: position{line: 1511, col: 5, offset: 49008},
 													expr: &actionExpr{
 														pos: position{line: 678, col: 14, offset: 21586},
-														run: (*parser).callonExtraListElement495,
+														run: (*parser).callonExtraListElement507,
 														expr: &seqExpr{
 															pos: position{line: 678, col: 14, offset: 21586},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2926, col: 11, offset: 92126},
+																	pos: position{line: 2927, col: 11, offset: 92158},
 																	expr: &anyMatcher{
-																		line: 2926, col: 13, offset: 92128,
+																		line: 2927, col: 13, offset: 92160,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 678, col: 21, offset: 21593},
 																	expr: &actionExpr{
-																		pos: position{line: 2909, col: 10, offset: 91792},
-																		run: (*parser).callonExtraListElement500,
+																		pos: position{line: 2910, col: 10, offset: 91824},
+																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 10, offset: 91792},
+																			pos:        position{line: 2910, col: 10, offset: 91824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28136,28 +28220,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2931, col: 8, offset: 92190},
+																	pos: position{line: 2932, col: 8, offset: 92222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2918, col: 12, offset: 91963},
-																			run: (*parser).callonExtraListElement503,
+																			pos: position{line: 2919, col: 12, offset: 91995},
+																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2918, col: 13, offset: 91964},
+																				pos: position{line: 2919, col: 13, offset: 91996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 13, offset: 91964},
+																						pos:        position{line: 2919, col: 13, offset: 91996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 20, offset: 91971},
+																						pos:        position{line: 2919, col: 20, offset: 92003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 29, offset: 91980},
+																						pos:        position{line: 2919, col: 29, offset: 92012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28166,9 +28250,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2928, col: 8, offset: 92140},
+																			pos: position{line: 2929, col: 8, offset: 92172},
 																			expr: &anyMatcher{
-																				line: 2928, col: 9, offset: 92141,
+																				line: 2929, col: 9, offset: 92173,
 																			},
 																		},
 																	},
@@ -28191,10 +28275,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1543, col: 31, offset: 49887},
 																expr: &actionExpr{
-																	pos: position{line: 2909, col: 10, offset: 91792},
-																	run: (*parser).callonExtraListElement514,
+																	pos: position{line: 2910, col: 10, offset: 91824},
+																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2909, col: 10, offset: 91792},
+																		pos:        position{line: 2910, col: 10, offset: 91824},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28203,25 +28287,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2918, col: 12, offset: 91963},
-																run: (*parser).callonExtraListElement516,
+																pos: position{line: 2919, col: 12, offset: 91995},
+																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2918, col: 13, offset: 91964},
+																	pos: position{line: 2919, col: 13, offset: 91996},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 13, offset: 91964},
+																			pos:        position{line: 2919, col: 13, offset: 91996},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 20, offset: 91971},
+																			pos:        position{line: 2919, col: 20, offset: 92003},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 29, offset: 91980},
+																			pos:        position{line: 2919, col: 29, offset: 92012},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28236,17 +28320,17 @@ var g = &grammar{
 													pos: position{line: 1513, col: 5, offset: 49051},
 													expr: &actionExpr{
 														pos: position{line: 1584, col: 5, offset: 51102},
-														run: (*parser).callonExtraListElement522,
+														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
 															pos: position{line: 1584, col: 5, offset: 51102},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1584, col: 5, offset: 51102},
 																	expr: &actionExpr{
-																		pos: position{line: 2909, col: 10, offset: 91792},
-																		run: (*parser).callonExtraListElement525,
+																		pos: position{line: 2910, col: 10, offset: 91824},
+																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 10, offset: 91792},
+																			pos:        position{line: 2910, col: 10, offset: 91824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28262,7 +28346,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 1586, col: 9, offset: 51172},
-																				run: (*parser).callonExtraListElement529,
+																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
 																					pos: position{line: 1586, col: 9, offset: 51172},
 																					exprs: []interface{}{
@@ -28271,7 +28355,7 @@ var g = &grammar{
 																							label: "depth",
 																							expr: &actionExpr{
 																								pos: position{line: 1586, col: 16, offset: 51179},
-																								run: (*parser).callonExtraListElement532,
+																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
 																									pos: position{line: 1586, col: 16, offset: 51179},
 																									expr: &litMatcher{
@@ -28285,14 +28369,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1590, col: 9, offset: 51280},
-																							run: (*parser).callonExtraListElement535,
+																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
 																				pos: position{line: 1609, col: 11, offset: 51997},
-																				run: (*parser).callonExtraListElement536,
+																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
 																					pos: position{line: 1609, col: 11, offset: 51997},
 																					exprs: []interface{}{
@@ -28317,7 +28401,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1611, col: 13, offset: 52123},
-																				run: (*parser).callonExtraListElement541,
+																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
 																					pos: position{line: 1611, col: 13, offset: 52123},
 																					exprs: []interface{}{
@@ -28339,7 +28423,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1613, col: 13, offset: 52251},
-																				run: (*parser).callonExtraListElement545,
+																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
 																					pos: position{line: 1613, col: 13, offset: 52251},
 																					exprs: []interface{}{
@@ -28361,7 +28445,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1615, col: 13, offset: 52379},
-																				run: (*parser).callonExtraListElement549,
+																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
 																					pos: position{line: 1615, col: 13, offset: 52379},
 																					exprs: []interface{}{
@@ -28386,7 +28470,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1617, col: 13, offset: 52512},
-																				run: (*parser).callonExtraListElement554,
+																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
 																					pos: position{line: 1617, col: 13, offset: 52512},
 																					exprs: []interface{}{
@@ -28413,12 +28497,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2913, col: 11, offset: 91853},
-																	run: (*parser).callonExtraListElement559,
+																	pos: position{line: 2914, col: 11, offset: 91885},
+																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2913, col: 11, offset: 91853},
+																		pos: position{line: 2914, col: 11, offset: 91885},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2913, col: 11, offset: 91853},
+																			pos:        position{line: 2914, col: 11, offset: 91885},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28434,17 +28518,17 @@ var g = &grammar{
 													pos: position{line: 1514, col: 5, offset: 49081},
 													expr: &actionExpr{
 														pos: position{line: 1634, col: 5, offset: 53064},
-														run: (*parser).callonExtraListElement563,
+														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
 															pos: position{line: 1634, col: 5, offset: 53064},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1634, col: 5, offset: 53064},
 																	expr: &actionExpr{
-																		pos: position{line: 2909, col: 10, offset: 91792},
-																		run: (*parser).callonExtraListElement566,
+																		pos: position{line: 2910, col: 10, offset: 91824},
+																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 10, offset: 91792},
+																			pos:        position{line: 2910, col: 10, offset: 91824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28457,7 +28541,7 @@ var g = &grammar{
 																	label: "style",
 																	expr: &actionExpr{
 																		pos: position{line: 1636, col: 9, offset: 53092},
-																		run: (*parser).callonExtraListElement569,
+																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
 																			pos: position{line: 1636, col: 10, offset: 53093},
 																			alternatives: []interface{}{
@@ -28482,15 +28566,15 @@ var g = &grammar{
 																},
 																&andCodeExpr{
 																	pos: position{line: 1639, col: 7, offset: 53192},
-																	run: (*parser).callonExtraListElement574,
+																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2913, col: 11, offset: 91853},
-																	run: (*parser).callonExtraListElement575,
+																	pos: position{line: 2914, col: 11, offset: 91885},
+																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2913, col: 11, offset: 91853},
+																		pos: position{line: 2914, col: 11, offset: 91885},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2913, col: 11, offset: 91853},
+																			pos:        position{line: 2914, col: 11, offset: 91885},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28505,27 +28589,27 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1515, col: 5, offset: 49113},
 													expr: &actionExpr{
-														pos: position{line: 1723, col: 5, offset: 55601},
-														run: (*parser).callonExtraListElement579,
+														pos: position{line: 1724, col: 5, offset: 55633},
+														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1723, col: 5, offset: 55601},
+															pos: position{line: 1724, col: 5, offset: 55633},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1723, col: 5, offset: 55601},
+																	pos:        position{line: 1724, col: 5, offset: 55633},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1723, col: 9, offset: 55605},
+																	pos:   position{line: 1724, col: 9, offset: 55637},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1723, col: 14, offset: 55610},
-																		run: (*parser).callonExtraListElement583,
+																		pos: position{line: 1724, col: 14, offset: 55642},
+																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1723, col: 14, offset: 55610},
+																			pos: position{line: 1724, col: 14, offset: 55642},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1723, col: 14, offset: 55610},
+																				pos:        position{line: 1724, col: 14, offset: 55642},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28535,18 +28619,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1723, col: 62, offset: 55658},
+																	pos:        position{line: 1724, col: 62, offset: 55690},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2913, col: 11, offset: 91853},
-																	run: (*parser).callonExtraListElement587,
+																	pos: position{line: 2914, col: 11, offset: 91885},
+																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2913, col: 11, offset: 91853},
+																		pos: position{line: 2914, col: 11, offset: 91885},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2913, col: 11, offset: 91853},
+																			pos:        position{line: 2914, col: 11, offset: 91885},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28565,109 +28649,137 @@ var g = &grammar{
 														exprs: []interface{}{
 															&actionExpr{
 																pos: position{line: 1669, col: 5, offset: 54083},
-																run: (*parser).callonExtraListElement592,
-																expr: &oneOrMoreExpr{
+																run: (*parser).callonExtraListElement604,
+																expr: &seqExpr{
 																	pos: position{line: 1669, col: 5, offset: 54083},
-																	expr: &seqExpr{
-																		pos: position{line: 1669, col: 6, offset: 54084},
-																		exprs: []interface{}{
-																			&notExpr{
-																				pos: position{line: 1669, col: 6, offset: 54084},
-																				expr: &actionExpr{
-																					pos: position{line: 1674, col: 5, offset: 54234},
-																					run: (*parser).callonExtraListElement596,
-																					expr: &seqExpr{
-																						pos: position{line: 1674, col: 5, offset: 54234},
-																						exprs: []interface{}{
-																							&labeledExpr{
-																								pos:   position{line: 1674, col: 5, offset: 54234},
-																								label: "separator",
-																								expr: &actionExpr{
-																									pos: position{line: 1674, col: 16, offset: 54245},
-																									run: (*parser).callonExtraListElement599,
-																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1674, col: 16, offset: 54245},
-																										expr: &litMatcher{
-																											pos:        position{line: 1674, col: 17, offset: 54246},
-																											val:        ":",
-																											ignoreCase: false,
-																											want:       "\":\"",
-																										},
-																									},
-																								},
-																							},
-																							&andCodeExpr{
-																								pos: position{line: 1677, col: 5, offset: 54303},
-																								run: (*parser).callonExtraListElement602,
-																							},
+																	exprs: []interface{}{
+																		&notExpr{
+																			pos: position{line: 1669, col: 5, offset: 54083},
+																			expr: &seqExpr{
+																				pos: position{line: 2518, col: 31, offset: 80852},
+																				exprs: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 2518, col: 31, offset: 80852},
+																						val:        "//",
+																						ignoreCase: false,
+																						want:       "\"//\"",
+																					},
+																					&notExpr{
+																						pos: position{line: 2518, col: 36, offset: 80857},
+																						expr: &litMatcher{
+																							pos:        position{line: 2518, col: 37, offset: 80858},
+																							val:        "/",
+																							ignoreCase: false,
+																							want:       "\"/\"",
 																						},
 																					},
 																				},
 																			},
-																			&notExpr{
-																				pos: position{line: 1669, col: 35, offset: 54113},
-																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 8, offset: 92190},
-																					alternatives: []interface{}{
-																						&actionExpr{
-																							pos: position{line: 2918, col: 12, offset: 91963},
-																							run: (*parser).callonExtraListElement605,
-																							expr: &choiceExpr{
-																								pos: position{line: 2918, col: 13, offset: 91964},
-																								alternatives: []interface{}{
-																									&litMatcher{
-																										pos:        position{line: 2918, col: 13, offset: 91964},
-																										val:        "\n",
-																										ignoreCase: false,
-																										want:       "\"\\n\"",
-																									},
-																									&litMatcher{
-																										pos:        position{line: 2918, col: 20, offset: 91971},
-																										val:        "\r\n",
-																										ignoreCase: false,
-																										want:       "\"\\r\\n\"",
+																		},
+																		&oneOrMoreExpr{
+																			pos: position{line: 1670, col: 5, offset: 54115},
+																			expr: &seqExpr{
+																				pos: position{line: 1670, col: 6, offset: 54116},
+																				exprs: []interface{}{
+																					&notExpr{
+																						pos: position{line: 1670, col: 6, offset: 54116},
+																						expr: &actionExpr{
+																							pos: position{line: 1675, col: 5, offset: 54266},
+																							run: (*parser).callonExtraListElement614,
+																							expr: &seqExpr{
+																								pos: position{line: 1675, col: 5, offset: 54266},
+																								exprs: []interface{}{
+																									&labeledExpr{
+																										pos:   position{line: 1675, col: 5, offset: 54266},
+																										label: "separator",
+																										expr: &actionExpr{
+																											pos: position{line: 1675, col: 16, offset: 54277},
+																											run: (*parser).callonExtraListElement617,
+																											expr: &oneOrMoreExpr{
+																												pos: position{line: 1675, col: 16, offset: 54277},
+																												expr: &litMatcher{
+																													pos:        position{line: 1675, col: 17, offset: 54278},
+																													val:        ":",
+																													ignoreCase: false,
+																													want:       "\":\"",
+																												},
+																											},
+																										},
 																									},
-																									&litMatcher{
-																										pos:        position{line: 2918, col: 29, offset: 91980},
-																										val:        "\r",
-																										ignoreCase: false,
-																										want:       "\"\\r\"",
+																									&andCodeExpr{
+																										pos: position{line: 1678, col: 5, offset: 54335},
+																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
 																							},
 																						},
-																						&notExpr{
-																							pos: position{line: 2928, col: 8, offset: 92140},
-																							expr: &anyMatcher{
-																								line: 2928, col: 9, offset: 92141,
+																					},
+																					&notExpr{
+																						pos: position{line: 1670, col: 35, offset: 54145},
+																						expr: &choiceExpr{
+																							pos: position{line: 2932, col: 8, offset: 92222},
+																							alternatives: []interface{}{
+																								&actionExpr{
+																									pos: position{line: 2919, col: 12, offset: 91995},
+																									run: (*parser).callonExtraListElement623,
+																									expr: &choiceExpr{
+																										pos: position{line: 2919, col: 13, offset: 91996},
+																										alternatives: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												val:        "\n",
+																												ignoreCase: false,
+																												want:       "\"\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												val:        "\r\n",
+																												ignoreCase: false,
+																												want:       "\"\\r\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												val:        "\r",
+																												ignoreCase: false,
+																												want:       "\"\\r\"",
+																											},
+																										},
+																									},
+																								},
+																								&notExpr{
+																									pos: position{line: 2929, col: 8, offset: 92172},
+																									expr: &anyMatcher{
+																										line: 2929, col: 9, offset: 92173,
+																									},
+																								},
 																							},
 																						},
 																					},
+																					&anyMatcher{
+																						line: 1670, col: 40, offset: 54150,
+																					},
 																				},
 																			},
-																			&anyMatcher{
-																				line: 1669, col: 40, offset: 54118,
-																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1674, col: 5, offset: 54234},
-																run: (*parser).callonExtraListElement613,
+																pos: position{line: 1675, col: 5, offset: 54266},
+																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1674, col: 5, offset: 54234},
+																	pos: position{line: 1675, col: 5, offset: 54266},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1674, col: 5, offset: 54234},
+																			pos:   position{line: 1675, col: 5, offset: 54266},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1674, col: 16, offset: 54245},
-																				run: (*parser).callonExtraListElement616,
+																				pos: position{line: 1675, col: 16, offset: 54277},
+																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1674, col: 16, offset: 54245},
+																					pos: position{line: 1675, col: 16, offset: 54277},
 																					expr: &litMatcher{
-																						pos:        position{line: 1674, col: 17, offset: 54246},
+																						pos:        position{line: 1675, col: 17, offset: 54278},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28676,8 +28788,8 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1677, col: 5, offset: 54303},
-																			run: (*parser).callonExtraListElement619,
+																			pos: position{line: 1678, col: 5, offset: 54335},
+																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
 																},
@@ -28689,14 +28801,14 @@ var g = &grammar{
 													pos: position{line: 1517, col: 5, offset: 49201},
 													expr: &actionExpr{
 														pos: position{line: 725, col: 5, offset: 23139},
-														run: (*parser).callonExtraListElement621,
+														run: (*parser).callonExtraListElement639,
 														expr: &seqExpr{
 															pos: position{line: 725, col: 5, offset: 23139},
 															exprs: []interface{}{
 																&notExpr{
 																	pos: position{line: 725, col: 5, offset: 23139},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2799, col: 13, offset: 88887},
+																		pos:        position{line: 2800, col: 13, offset: 88919},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28711,7 +28823,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 741, col: 5, offset: 23681},
-																				run: (*parser).callonExtraListElement627,
+																				run: (*parser).callonExtraListElement645,
 																				expr: &seqExpr{
 																					pos: position{line: 741, col: 5, offset: 23681},
 																					exprs: []interface{}{
@@ -28720,7 +28832,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 741, col: 16, offset: 23692},
-																								run: (*parser).callonExtraListElement630,
+																								run: (*parser).callonExtraListElement648,
 																								expr: &seqExpr{
 																									pos: position{line: 741, col: 16, offset: 23692},
 																									exprs: []interface{}{
@@ -28746,10 +28858,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 743, col: 8, offset: 23783},
 																							expr: &actionExpr{
-																								pos: position{line: 2909, col: 10, offset: 91792},
-																								run: (*parser).callonExtraListElement636,
+																								pos: position{line: 2910, col: 10, offset: 91824},
+																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 10, offset: 91792},
+																									pos:        position{line: 2910, col: 10, offset: 91824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28758,28 +28870,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
-																									run: (*parser).callonExtraListElement639,
+																									pos: position{line: 2919, col: 12, offset: 91995},
+																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28788,9 +28900,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -28800,7 +28912,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 748, col: 5, offset: 23929},
-																				run: (*parser).callonExtraListElement646,
+																				run: (*parser).callonExtraListElement664,
 																				expr: &seqExpr{
 																					pos: position{line: 748, col: 5, offset: 23929},
 																					exprs: []interface{}{
@@ -28809,7 +28921,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 748, col: 16, offset: 23940},
-																								run: (*parser).callonExtraListElement649,
+																								run: (*parser).callonExtraListElement667,
 																								expr: &seqExpr{
 																									pos: position{line: 748, col: 16, offset: 23940},
 																									exprs: []interface{}{
@@ -28835,10 +28947,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 750, col: 8, offset: 24031},
 																							expr: &actionExpr{
-																								pos: position{line: 2909, col: 10, offset: 91792},
-																								run: (*parser).callonExtraListElement655,
+																								pos: position{line: 2910, col: 10, offset: 91824},
+																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 10, offset: 91792},
+																									pos:        position{line: 2910, col: 10, offset: 91824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28847,28 +28959,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
-																									run: (*parser).callonExtraListElement658,
+																									pos: position{line: 2919, col: 12, offset: 91995},
+																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28877,9 +28989,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -28889,7 +29001,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 761, col: 26, offset: 24417},
-																				run: (*parser).callonExtraListElement665,
+																				run: (*parser).callonExtraListElement683,
 																				expr: &seqExpr{
 																					pos: position{line: 761, col: 26, offset: 24417},
 																					exprs: []interface{}{
@@ -28904,7 +29016,7 @@ var g = &grammar{
 																							label: "language",
 																							expr: &actionExpr{
 																								pos: position{line: 765, col: 13, offset: 24553},
-																								run: (*parser).callonExtraListElement669,
+																								run: (*parser).callonExtraListElement687,
 																								expr: &oneOrMoreExpr{
 																									pos: position{line: 765, col: 14, offset: 24554},
 																									expr: &charClassMatcher{
@@ -28920,10 +29032,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 761, col: 52, offset: 24443},
 																							expr: &actionExpr{
-																								pos: position{line: 2909, col: 10, offset: 91792},
-																								run: (*parser).callonExtraListElement673,
+																								pos: position{line: 2910, col: 10, offset: 91824},
+																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 10, offset: 91792},
+																									pos:        position{line: 2910, col: 10, offset: 91824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28932,28 +29044,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
-																									run: (*parser).callonExtraListElement676,
+																									pos: position{line: 2919, col: 12, offset: 91995},
+																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28962,9 +29074,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -28974,7 +29086,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 755, col: 5, offset: 24176},
-																				run: (*parser).callonExtraListElement683,
+																				run: (*parser).callonExtraListElement701,
 																				expr: &seqExpr{
 																					pos: position{line: 755, col: 5, offset: 24176},
 																					exprs: []interface{}{
@@ -28983,7 +29095,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 755, col: 16, offset: 24187},
-																								run: (*parser).callonExtraListElement686,
+																								run: (*parser).callonExtraListElement704,
 																								expr: &seqExpr{
 																									pos: position{line: 755, col: 16, offset: 24187},
 																									exprs: []interface{}{
@@ -29009,10 +29121,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 757, col: 8, offset: 24277},
 																							expr: &actionExpr{
-																								pos: position{line: 2909, col: 10, offset: 91792},
-																								run: (*parser).callonExtraListElement692,
+																								pos: position{line: 2910, col: 10, offset: 91824},
+																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 10, offset: 91792},
+																									pos:        position{line: 2910, col: 10, offset: 91824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29021,28 +29133,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
-																									run: (*parser).callonExtraListElement695,
+																									pos: position{line: 2919, col: 12, offset: 91995},
+																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29051,9 +29163,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -29063,7 +29175,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 770, col: 5, offset: 24713},
-																				run: (*parser).callonExtraListElement702,
+																				run: (*parser).callonExtraListElement720,
 																				expr: &seqExpr{
 																					pos: position{line: 770, col: 5, offset: 24713},
 																					exprs: []interface{}{
@@ -29072,7 +29184,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 770, col: 16, offset: 24724},
-																								run: (*parser).callonExtraListElement705,
+																								run: (*parser).callonExtraListElement723,
 																								expr: &seqExpr{
 																									pos: position{line: 770, col: 16, offset: 24724},
 																									exprs: []interface{}{
@@ -29098,10 +29210,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 772, col: 8, offset: 24815},
 																							expr: &actionExpr{
-																								pos: position{line: 2909, col: 10, offset: 91792},
-																								run: (*parser).callonExtraListElement711,
+																								pos: position{line: 2910, col: 10, offset: 91824},
+																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 10, offset: 91792},
+																									pos:        position{line: 2910, col: 10, offset: 91824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29110,28 +29222,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
-																									run: (*parser).callonExtraListElement714,
+																									pos: position{line: 2919, col: 12, offset: 91995},
+																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29140,9 +29252,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -29152,7 +29264,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 784, col: 5, offset: 25189},
-																				run: (*parser).callonExtraListElement721,
+																				run: (*parser).callonExtraListElement739,
 																				expr: &seqExpr{
 																					pos: position{line: 784, col: 5, offset: 25189},
 																					exprs: []interface{}{
@@ -29161,7 +29273,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 784, col: 16, offset: 25200},
-																								run: (*parser).callonExtraListElement724,
+																								run: (*parser).callonExtraListElement742,
 																								expr: &seqExpr{
 																									pos: position{line: 784, col: 16, offset: 25200},
 																									exprs: []interface{}{
@@ -29187,10 +29299,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 786, col: 8, offset: 25291},
 																							expr: &actionExpr{
-																								pos: position{line: 2909, col: 10, offset: 91792},
-																								run: (*parser).callonExtraListElement730,
+																								pos: position{line: 2910, col: 10, offset: 91824},
+																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 10, offset: 91792},
+																									pos:        position{line: 2910, col: 10, offset: 91824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29199,28 +29311,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
-																									run: (*parser).callonExtraListElement733,
+																									pos: position{line: 2919, col: 12, offset: 91995},
+																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29229,9 +29341,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -29241,7 +29353,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 791, col: 5, offset: 25441},
-																				run: (*parser).callonExtraListElement740,
+																				run: (*parser).callonExtraListElement758,
 																				expr: &seqExpr{
 																					pos: position{line: 791, col: 5, offset: 25441},
 																					exprs: []interface{}{
@@ -29250,7 +29362,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 791, col: 16, offset: 25452},
-																								run: (*parser).callonExtraListElement743,
+																								run: (*parser).callonExtraListElement761,
 																								expr: &seqExpr{
 																									pos: position{line: 791, col: 16, offset: 25452},
 																									exprs: []interface{}{
@@ -29276,10 +29388,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 793, col: 8, offset: 25543},
 																							expr: &actionExpr{
-																								pos: position{line: 2909, col: 10, offset: 91792},
-																								run: (*parser).callonExtraListElement749,
+																								pos: position{line: 2910, col: 10, offset: 91824},
+																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 10, offset: 91792},
+																									pos:        position{line: 2910, col: 10, offset: 91824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29288,28 +29400,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
-																									run: (*parser).callonExtraListElement752,
+																									pos: position{line: 2919, col: 12, offset: 91995},
+																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29318,9 +29430,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -29330,7 +29442,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 798, col: 5, offset: 25691},
-																				run: (*parser).callonExtraListElement759,
+																				run: (*parser).callonExtraListElement777,
 																				expr: &seqExpr{
 																					pos: position{line: 798, col: 5, offset: 25691},
 																					exprs: []interface{}{
@@ -29339,7 +29451,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 798, col: 16, offset: 25702},
-																								run: (*parser).callonExtraListElement762,
+																								run: (*parser).callonExtraListElement780,
 																								expr: &seqExpr{
 																									pos: position{line: 798, col: 16, offset: 25702},
 																									exprs: []interface{}{
@@ -29365,10 +29477,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 800, col: 8, offset: 25793},
 																							expr: &actionExpr{
-																								pos: position{line: 2909, col: 10, offset: 91792},
-																								run: (*parser).callonExtraListElement768,
+																								pos: position{line: 2910, col: 10, offset: 91824},
+																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 10, offset: 91792},
+																									pos:        position{line: 2910, col: 10, offset: 91824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29377,28 +29489,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
-																									run: (*parser).callonExtraListElement771,
+																									pos: position{line: 2919, col: 12, offset: 91995},
+																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29407,9 +29519,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -29419,7 +29531,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 805, col: 5, offset: 25937},
-																				run: (*parser).callonExtraListElement778,
+																				run: (*parser).callonExtraListElement796,
 																				expr: &seqExpr{
 																					pos: position{line: 805, col: 5, offset: 25937},
 																					exprs: []interface{}{
@@ -29428,7 +29540,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 805, col: 16, offset: 25948},
-																								run: (*parser).callonExtraListElement781,
+																								run: (*parser).callonExtraListElement799,
 																								expr: &seqExpr{
 																									pos: position{line: 805, col: 16, offset: 25948},
 																									exprs: []interface{}{
@@ -29454,10 +29566,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 807, col: 8, offset: 26039},
 																							expr: &actionExpr{
-																								pos: position{line: 2909, col: 10, offset: 91792},
-																								run: (*parser).callonExtraListElement787,
+																								pos: position{line: 2910, col: 10, offset: 91824},
+																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 10, offset: 91792},
+																									pos:        position{line: 2910, col: 10, offset: 91824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29466,28 +29578,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
-																									run: (*parser).callonExtraListElement790,
+																									pos: position{line: 2919, col: 12, offset: 91995},
+																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29496,9 +29608,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -29517,12 +29629,12 @@ var g = &grammar{
 													pos:   position{line: 1518, col: 5, offset: 49221},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2859, col: 14, offset: 90385},
-														run: (*parser).callonExtraListElement798,
+														pos: position{line: 2860, col: 14, offset: 90417},
+														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2859, col: 14, offset: 90385},
+															pos: position{line: 2860, col: 14, offset: 90417},
 															expr: &charClassMatcher{
-																pos:        position{line: 2859, col: 14, offset: 90385},
+																pos:        position{line: 2860, col: 14, offset: 90417},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29532,28 +29644,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2931, col: 8, offset: 92190},
+													pos: position{line: 2932, col: 8, offset: 92222},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2918, col: 12, offset: 91963},
-															run: (*parser).callonExtraListElement802,
+															pos: position{line: 2919, col: 12, offset: 91995},
+															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2918, col: 13, offset: 91964},
+																pos: position{line: 2919, col: 13, offset: 91996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 13, offset: 91964},
+																		pos:        position{line: 2919, col: 13, offset: 91996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 20, offset: 91971},
+																		pos:        position{line: 2919, col: 20, offset: 92003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 29, offset: 91980},
+																		pos:        position{line: 2919, col: 29, offset: 92012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29562,9 +29674,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2928, col: 8, offset: 92140},
+															pos: position{line: 2929, col: 8, offset: 92172},
 															expr: &anyMatcher{
-																line: 2928, col: 9, offset: 92141,
+																line: 2929, col: 9, offset: 92173,
 															},
 														},
 													},
@@ -29599,10 +29711,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1535, col: 13, offset: 49645},
 											expr: &actionExpr{
-												pos: position{line: 2909, col: 10, offset: 91792},
+												pos: position{line: 2910, col: 10, offset: 91824},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2909, col: 10, offset: 91792},
+													pos:        position{line: 2910, col: 10, offset: 91824},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29611,25 +29723,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2918, col: 12, offset: 91963},
+											pos: position{line: 2919, col: 12, offset: 91995},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2918, col: 13, offset: 91964},
+												pos: position{line: 2919, col: 13, offset: 91996},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2918, col: 13, offset: 91964},
+														pos:        position{line: 2919, col: 13, offset: 91996},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2918, col: 20, offset: 91971},
+														pos:        position{line: 2919, col: 20, offset: 92003},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2918, col: 29, offset: 91980},
+														pos:        position{line: 2919, col: 29, offset: 92012},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29650,10 +29762,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1543, col: 31, offset: 49887},
 							expr: &actionExpr{
-								pos: position{line: 2909, col: 10, offset: 91792},
+								pos: position{line: 2910, col: 10, offset: 91824},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2909, col: 10, offset: 91792},
+									pos:        position{line: 2910, col: 10, offset: 91824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29662,25 +29774,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2918, col: 12, offset: 91963},
+							pos: position{line: 2919, col: 12, offset: 91995},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2918, col: 13, offset: 91964},
+								pos: position{line: 2919, col: 13, offset: 91996},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2918, col: 13, offset: 91964},
+										pos:        position{line: 2919, col: 13, offset: 91996},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2918, col: 20, offset: 91971},
+										pos:        position{line: 2919, col: 20, offset: 92003},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2918, col: 29, offset: 91980},
+										pos:        position{line: 2919, col: 29, offset: 92012},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29691,36 +29803,36 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1537, col: 5, offset: 49694},
 							expr: &actionExpr{
-								pos: position{line: 2512, col: 22, offset: 80570},
+								pos: position{line: 2513, col: 22, offset: 80602},
 								run: (*parser).callonListContinuation24,
 								expr: &seqExpr{
-									pos: position{line: 2512, col: 22, offset: 80570},
+									pos: position{line: 2513, col: 22, offset: 80602},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2517, col: 31, offset: 80820},
+											pos:        position{line: 2518, col: 31, offset: 80852},
 											val:        "//",
 											ignoreCase: false,
 											want:       "\"//\"",
 										},
 										&notExpr{
-											pos: position{line: 2517, col: 36, offset: 80825},
+											pos: position{line: 2518, col: 36, offset: 80857},
 											expr: &litMatcher{
-												pos:        position{line: 2517, col: 37, offset: 80826},
+												pos:        position{line: 2518, col: 37, offset: 80858},
 												val:        "/",
 												ignoreCase: false,
 												want:       "\"/\"",
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2512, col: 49, offset: 80597},
+											pos:   position{line: 2513, col: 49, offset: 80629},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2855, col: 13, offset: 90318},
+												pos: position{line: 2856, col: 13, offset: 90350},
 												run: (*parser).callonListContinuation30,
 												expr: &zeroOrMoreExpr{
-													pos: position{line: 2855, col: 13, offset: 90318},
+													pos: position{line: 2856, col: 13, offset: 90350},
 													expr: &charClassMatcher{
-														pos:        position{line: 2855, col: 13, offset: 90318},
+														pos:        position{line: 2856, col: 13, offset: 90350},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -29730,28 +29842,28 @@ var g = &grammar{
 											},
 										},
 										&choiceExpr{
-											pos: position{line: 2931, col: 8, offset: 92190},
+											pos: position{line: 2932, col: 8, offset: 92222},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2918, col: 12, offset: 91963},
+													pos: position{line: 2919, col: 12, offset: 91995},
 													run: (*parser).callonListContinuation34,
 													expr: &choiceExpr{
-														pos: position{line: 2918, col: 13, offset: 91964},
+														pos: position{line: 2919, col: 13, offset: 91996},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2918, col: 13, offset: 91964},
+																pos:        position{line: 2919, col: 13, offset: 91996},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2918, col: 20, offset: 91971},
+																pos:        position{line: 2919, col: 20, offset: 92003},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2918, col: 29, offset: 91980},
+																pos:        position{line: 2919, col: 29, offset: 92012},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -29760,9 +29872,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2928, col: 8, offset: 92140},
+													pos: position{line: 2929, col: 8, offset: 92172},
 													expr: &anyMatcher{
-														line: 2928, col: 9, offset: 92141,
+														line: 2929, col: 9, offset: 92173,
 													},
 												},
 											},
@@ -29796,9 +29908,9 @@ var g = &grammar{
 					pos: position{line: 1546, col: 5, offset: 49974},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2926, col: 11, offset: 92126},
+							pos: position{line: 2927, col: 11, offset: 92158},
 							expr: &anyMatcher{
-								line: 2926, col: 13, offset: 92128,
+								line: 2927, col: 13, offset: 92160,
 							},
 						},
 						&notExpr{
@@ -29824,10 +29936,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1584, col: 5, offset: 51102},
 																	expr: &actionExpr{
-																		pos: position{line: 2909, col: 10, offset: 91792},
+																		pos: position{line: 2910, col: 10, offset: 91824},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 10, offset: 91792},
+																			pos:        position{line: 2910, col: 10, offset: 91824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29994,12 +30106,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2913, col: 11, offset: 91853},
+																	pos: position{line: 2914, col: 11, offset: 91885},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2913, col: 11, offset: 91853},
+																		pos: position{line: 2914, col: 11, offset: 91885},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2913, col: 11, offset: 91853},
+																			pos:        position{line: 2914, col: 11, offset: 91885},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30042,28 +30154,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2931, col: 8, offset: 92190},
+																	pos: position{line: 2932, col: 8, offset: 92222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2918, col: 12, offset: 91963},
+																			pos: position{line: 2919, col: 12, offset: 91995},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2918, col: 13, offset: 91964},
+																				pos: position{line: 2919, col: 13, offset: 91996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 13, offset: 91964},
+																						pos:        position{line: 2919, col: 13, offset: 91996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 20, offset: 91971},
+																						pos:        position{line: 2919, col: 20, offset: 92003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 29, offset: 91980},
+																						pos:        position{line: 2919, col: 29, offset: 92012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30072,9 +30184,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2928, col: 8, offset: 92140},
+																			pos: position{line: 2929, col: 8, offset: 92172},
 																			expr: &anyMatcher{
-																				line: 2928, col: 9, offset: 92141,
+																				line: 2929, col: 9, offset: 92173,
 																			},
 																		},
 																	},
@@ -30104,10 +30216,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1634, col: 5, offset: 53064},
 																	expr: &actionExpr{
-																		pos: position{line: 2909, col: 10, offset: 91792},
+																		pos: position{line: 2910, col: 10, offset: 91824},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 10, offset: 91792},
+																			pos:        position{line: 2910, col: 10, offset: 91824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30148,12 +30260,12 @@ var g = &grammar{
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2913, col: 11, offset: 91853},
+																	pos: position{line: 2914, col: 11, offset: 91885},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2913, col: 11, offset: 91853},
+																		pos: position{line: 2914, col: 11, offset: 91885},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2913, col: 11, offset: 91853},
+																			pos:        position{line: 2914, col: 11, offset: 91885},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30225,12 +30337,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2913, col: 11, offset: 91853},
+																		pos: position{line: 2914, col: 11, offset: 91885},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2913, col: 11, offset: 91853},
+																			pos: position{line: 2914, col: 11, offset: 91885},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2913, col: 11, offset: 91853},
+																				pos:        position{line: 2914, col: 11, offset: 91885},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30274,28 +30386,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2931, col: 8, offset: 92190},
+																	pos: position{line: 2932, col: 8, offset: 92222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2918, col: 12, offset: 91963},
+																			pos: position{line: 2919, col: 12, offset: 91995},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2918, col: 13, offset: 91964},
+																				pos: position{line: 2919, col: 13, offset: 91996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 13, offset: 91964},
+																						pos:        position{line: 2919, col: 13, offset: 91996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 20, offset: 91971},
+																						pos:        position{line: 2919, col: 20, offset: 92003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 29, offset: 91980},
+																						pos:        position{line: 2919, col: 29, offset: 92012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30304,9 +30416,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2928, col: 8, offset: 92140},
+																			pos: position{line: 2929, col: 8, offset: 92172},
 																			expr: &anyMatcher{
-																				line: 2928, col: 9, offset: 92141,
+																				line: 2929, col: 9, offset: 92173,
 																			},
 																		},
 																	},
@@ -30319,36 +30431,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1717, col: 5, offset: 55404},
+										pos: position{line: 1718, col: 5, offset: 55436},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1717, col: 5, offset: 55404},
+											pos: position{line: 1718, col: 5, offset: 55436},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1717, col: 5, offset: 55404},
+													pos:   position{line: 1718, col: 5, offset: 55436},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1723, col: 5, offset: 55601},
+														pos: position{line: 1724, col: 5, offset: 55633},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1723, col: 5, offset: 55601},
+															pos: position{line: 1724, col: 5, offset: 55633},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1723, col: 5, offset: 55601},
+																	pos:        position{line: 1724, col: 5, offset: 55633},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1723, col: 9, offset: 55605},
+																	pos:   position{line: 1724, col: 9, offset: 55637},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1723, col: 14, offset: 55610},
+																		pos: position{line: 1724, col: 14, offset: 55642},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1723, col: 14, offset: 55610},
+																			pos: position{line: 1724, col: 14, offset: 55642},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1723, col: 14, offset: 55610},
+																				pos:        position{line: 1724, col: 14, offset: 55642},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30358,18 +30470,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1723, col: 62, offset: 55658},
+																	pos:        position{line: 1724, col: 62, offset: 55690},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2913, col: 11, offset: 91853},
+																	pos: position{line: 2914, col: 11, offset: 91885},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2913, col: 11, offset: 91853},
+																		pos: position{line: 2914, col: 11, offset: 91885},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2913, col: 11, offset: 91853},
+																			pos:        position{line: 2914, col: 11, offset: 91885},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30382,7 +30494,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1718, col: 5, offset: 55440},
+													pos:   position{line: 1719, col: 5, offset: 55472},
 													label: "description",
 													expr: &actionExpr{
 														pos: position{line: 1524, col: 5, offset: 49366},
@@ -30412,28 +30524,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2931, col: 8, offset: 92190},
+																	pos: position{line: 2932, col: 8, offset: 92222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2918, col: 12, offset: 91963},
+																			pos: position{line: 2919, col: 12, offset: 91995},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2918, col: 13, offset: 91964},
+																				pos: position{line: 2919, col: 13, offset: 91996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 13, offset: 91964},
+																						pos:        position{line: 2919, col: 13, offset: 91996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 20, offset: 91971},
+																						pos:        position{line: 2919, col: 20, offset: 92003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 29, offset: 91980},
+																						pos:        position{line: 2919, col: 29, offset: 92012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30442,9 +30554,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2928, col: 8, offset: 92140},
+																			pos: position{line: 2929, col: 8, offset: 92172},
 																			expr: &anyMatcher{
-																				line: 2928, col: 9, offset: 92141,
+																				line: 2929, col: 9, offset: 92173,
 																			},
 																		},
 																	},
@@ -30468,88 +30580,116 @@ var g = &grammar{
 													expr: &actionExpr{
 														pos: position{line: 1669, col: 5, offset: 54083},
 														run: (*parser).callonListContinuationElement150,
-														expr: &oneOrMoreExpr{
+														expr: &seqExpr{
 															pos: position{line: 1669, col: 5, offset: 54083},
-															expr: &seqExpr{
-																pos: position{line: 1669, col: 6, offset: 54084},
-																exprs: []interface{}{
-																	&notExpr{
-																		pos: position{line: 1669, col: 6, offset: 54084},
-																		expr: &actionExpr{
-																			pos: position{line: 1674, col: 5, offset: 54234},
-																			run: (*parser).callonListContinuationElement154,
-																			expr: &seqExpr{
-																				pos: position{line: 1674, col: 5, offset: 54234},
-																				exprs: []interface{}{
-																					&labeledExpr{
-																						pos:   position{line: 1674, col: 5, offset: 54234},
-																						label: "separator",
-																						expr: &actionExpr{
-																							pos: position{line: 1674, col: 16, offset: 54245},
-																							run: (*parser).callonListContinuationElement157,
-																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1674, col: 16, offset: 54245},
-																								expr: &litMatcher{
-																									pos:        position{line: 1674, col: 17, offset: 54246},
-																									val:        ":",
-																									ignoreCase: false,
-																									want:       "\":\"",
-																								},
-																							},
-																						},
-																					},
-																					&andCodeExpr{
-																						pos: position{line: 1677, col: 5, offset: 54303},
-																						run: (*parser).callonListContinuationElement160,
-																					},
+															exprs: []interface{}{
+																&notExpr{
+																	pos: position{line: 1669, col: 5, offset: 54083},
+																	expr: &seqExpr{
+																		pos: position{line: 2518, col: 31, offset: 80852},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 2518, col: 31, offset: 80852},
+																				val:        "//",
+																				ignoreCase: false,
+																				want:       "\"//\"",
+																			},
+																			&notExpr{
+																				pos: position{line: 2518, col: 36, offset: 80857},
+																				expr: &litMatcher{
+																					pos:        position{line: 2518, col: 37, offset: 80858},
+																					val:        "/",
+																					ignoreCase: false,
+																					want:       "\"/\"",
 																				},
 																			},
 																		},
 																	},
-																	&notExpr{
-																		pos: position{line: 1669, col: 35, offset: 54113},
-																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 8, offset: 92190},
-																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 2918, col: 12, offset: 91963},
-																					run: (*parser).callonListContinuationElement163,
-																					expr: &choiceExpr{
-																						pos: position{line: 2918, col: 13, offset: 91964},
-																						alternatives: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 2918, col: 13, offset: 91964},
-																								val:        "\n",
-																								ignoreCase: false,
-																								want:       "\"\\n\"",
-																							},
-																							&litMatcher{
-																								pos:        position{line: 2918, col: 20, offset: 91971},
-																								val:        "\r\n",
-																								ignoreCase: false,
-																								want:       "\"\\r\\n\"",
+																},
+																&oneOrMoreExpr{
+																	pos: position{line: 1670, col: 5, offset: 54115},
+																	expr: &seqExpr{
+																		pos: position{line: 1670, col: 6, offset: 54116},
+																		exprs: []interface{}{
+																			&notExpr{
+																				pos: position{line: 1670, col: 6, offset: 54116},
+																				expr: &actionExpr{
+																					pos: position{line: 1675, col: 5, offset: 54266},
+																					run: (*parser).callonListContinuationElement160,
+																					expr: &seqExpr{
+																						pos: position{line: 1675, col: 5, offset: 54266},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 1675, col: 5, offset: 54266},
+																								label: "separator",
+																								expr: &actionExpr{
+																									pos: position{line: 1675, col: 16, offset: 54277},
+																									run: (*parser).callonListContinuationElement163,
+																									expr: &oneOrMoreExpr{
+																										pos: position{line: 1675, col: 16, offset: 54277},
+																										expr: &litMatcher{
+																											pos:        position{line: 1675, col: 17, offset: 54278},
+																											val:        ":",
+																											ignoreCase: false,
+																											want:       "\":\"",
+																										},
+																									},
+																								},
 																							},
-																							&litMatcher{
-																								pos:        position{line: 2918, col: 29, offset: 91980},
-																								val:        "\r",
-																								ignoreCase: false,
-																								want:       "\"\\r\"",
+																							&andCodeExpr{
+																								pos: position{line: 1678, col: 5, offset: 54335},
+																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
 																					},
 																				},
-																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
-																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																			},
+																			&notExpr{
+																				pos: position{line: 1670, col: 35, offset: 54145},
+																				expr: &choiceExpr{
+																					pos: position{line: 2932, col: 8, offset: 92222},
+																					alternatives: []interface{}{
+																						&actionExpr{
+																							pos: position{line: 2919, col: 12, offset: 91995},
+																							run: (*parser).callonListContinuationElement169,
+																							expr: &choiceExpr{
+																								pos: position{line: 2919, col: 13, offset: 91996},
+																								alternatives: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2919, col: 13, offset: 91996},
+																										val:        "\n",
+																										ignoreCase: false,
+																										want:       "\"\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2919, col: 20, offset: 92003},
+																										val:        "\r\n",
+																										ignoreCase: false,
+																										want:       "\"\\r\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2919, col: 29, offset: 92012},
+																										val:        "\r",
+																										ignoreCase: false,
+																										want:       "\"\\r\"",
+																									},
+																								},
+																							},
+																						},
+																						&notExpr{
+																							pos: position{line: 2929, col: 8, offset: 92172},
+																							expr: &anyMatcher{
+																								line: 2929, col: 9, offset: 92173,
+																							},
+																						},
 																					},
 																				},
 																			},
+																			&anyMatcher{
+																				line: 1670, col: 40, offset: 54150,
+																			},
 																		},
 																	},
-																	&anyMatcher{
-																		line: 1669, col: 40, offset: 54118,
-																	},
 																},
 															},
 														},
@@ -30559,21 +30699,21 @@ var g = &grammar{
 													pos:   position{line: 1662, col: 5, offset: 53792},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1674, col: 5, offset: 54234},
-														run: (*parser).callonListContinuationElement172,
+														pos: position{line: 1675, col: 5, offset: 54266},
+														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1674, col: 5, offset: 54234},
+															pos: position{line: 1675, col: 5, offset: 54266},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1674, col: 5, offset: 54234},
+																	pos:   position{line: 1675, col: 5, offset: 54266},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1674, col: 16, offset: 54245},
-																		run: (*parser).callonListContinuationElement175,
+																		pos: position{line: 1675, col: 16, offset: 54277},
+																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1674, col: 16, offset: 54245},
+																			pos: position{line: 1675, col: 16, offset: 54277},
 																			expr: &litMatcher{
-																				pos:        position{line: 1674, col: 17, offset: 54246},
+																				pos:        position{line: 1675, col: 17, offset: 54278},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30582,8 +30722,8 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1677, col: 5, offset: 54303},
-																	run: (*parser).callonListContinuationElement178,
+																	pos: position{line: 1678, col: 5, offset: 54335},
+																	run: (*parser).callonListContinuationElement184,
 																},
 															},
 														},
@@ -30593,21 +30733,21 @@ var g = &grammar{
 													pos:   position{line: 1663, col: 5, offset: 53837},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1685, col: 5, offset: 54552},
+														pos: position{line: 1686, col: 5, offset: 54584},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1687, col: 9, offset: 54618},
-																run: (*parser).callonListContinuationElement181,
+																pos: position{line: 1688, col: 9, offset: 54650},
+																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 9, offset: 54618},
+																	pos: position{line: 1688, col: 9, offset: 54650},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1687, col: 9, offset: 54618},
+																			pos: position{line: 1688, col: 9, offset: 54650},
 																			expr: &actionExpr{
-																				pos: position{line: 2909, col: 10, offset: 91792},
-																				run: (*parser).callonListContinuationElement184,
+																				pos: position{line: 2910, col: 10, offset: 91824},
+																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2909, col: 10, offset: 91792},
+																					pos:        position{line: 2910, col: 10, offset: 91824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30616,28 +30756,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2931, col: 8, offset: 92190},
+																			pos: position{line: 2932, col: 8, offset: 92222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2918, col: 12, offset: 91963},
-																					run: (*parser).callonListContinuationElement187,
+																					pos: position{line: 2919, col: 12, offset: 91995},
+																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2918, col: 13, offset: 91964},
+																						pos: position{line: 2919, col: 13, offset: 91996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 13, offset: 91964},
+																								pos:        position{line: 2919, col: 13, offset: 91996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 20, offset: 91971},
+																								pos:        position{line: 2919, col: 20, offset: 92003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 29, offset: 91980},
+																								pos:        position{line: 2919, col: 29, offset: 92012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30646,34 +30786,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1688, col: 9, offset: 54637},
+																			pos: position{line: 1689, col: 9, offset: 54669},
 																			expr: &actionExpr{
 																				pos: position{line: 678, col: 14, offset: 21586},
-																				run: (*parser).callonListContinuationElement195,
+																				run: (*parser).callonListContinuationElement201,
 																				expr: &seqExpr{
 																					pos: position{line: 678, col: 14, offset: 21586},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2926, col: 11, offset: 92126},
+																							pos: position{line: 2927, col: 11, offset: 92158},
 																							expr: &anyMatcher{
-																								line: 2926, col: 13, offset: 92128,
+																								line: 2927, col: 13, offset: 92160,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 678, col: 21, offset: 21593},
 																							expr: &actionExpr{
-																								pos: position{line: 2909, col: 10, offset: 91792},
-																								run: (*parser).callonListContinuationElement200,
+																								pos: position{line: 2910, col: 10, offset: 91824},
+																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 10, offset: 91792},
+																									pos:        position{line: 2910, col: 10, offset: 91824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30682,28 +30822,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
-																									run: (*parser).callonListContinuationElement203,
+																									pos: position{line: 2919, col: 12, offset: 91995},
+																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30712,9 +30852,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -30727,18 +30867,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1694, col: 9, offset: 54766},
-																run: (*parser).callonListContinuationElement210,
+																pos: position{line: 1695, col: 9, offset: 54798},
+																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1694, col: 9, offset: 54766},
+																	pos: position{line: 1695, col: 9, offset: 54798},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2913, col: 11, offset: 91853},
-																			run: (*parser).callonListContinuationElement212,
+																			pos: position{line: 2914, col: 11, offset: 91885},
+																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2913, col: 11, offset: 91853},
+																				pos: position{line: 2914, col: 11, offset: 91885},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2913, col: 11, offset: 91853},
+																					pos:        position{line: 2914, col: 11, offset: 91885},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30747,15 +30887,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1695, col: 9, offset: 54839},
+																			pos:   position{line: 1696, col: 9, offset: 54871},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1695, col: 18, offset: 54848},
-																				run: (*parser).callonListContinuationElement216,
+																				pos: position{line: 1696, col: 18, offset: 54880},
+																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1695, col: 18, offset: 54848},
+																					pos: position{line: 1696, col: 18, offset: 54880},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1695, col: 18, offset: 54848},
+																						pos:        position{line: 1696, col: 18, offset: 54880},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30765,28 +30905,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2931, col: 8, offset: 92190},
+																			pos: position{line: 2932, col: 8, offset: 92222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2918, col: 12, offset: 91963},
-																					run: (*parser).callonListContinuationElement220,
+																					pos: position{line: 2919, col: 12, offset: 91995},
+																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2918, col: 13, offset: 91964},
+																						pos: position{line: 2919, col: 13, offset: 91996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 13, offset: 91964},
+																								pos:        position{line: 2919, col: 13, offset: 91996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 20, offset: 91971},
+																								pos:        position{line: 2919, col: 20, offset: 92003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 29, offset: 91980},
+																								pos:        position{line: 2919, col: 29, offset: 92012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30795,9 +30935,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -30833,23 +30973,23 @@ var g = &grammar{
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 678, col: 14, offset: 21586},
-										run: (*parser).callonListContinuationElement232,
+										run: (*parser).callonListContinuationElement238,
 										expr: &seqExpr{
 											pos: position{line: 678, col: 14, offset: 21586},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2926, col: 11, offset: 92126},
+													pos: position{line: 2927, col: 11, offset: 92158},
 													expr: &anyMatcher{
-														line: 2926, col: 13, offset: 92128,
+														line: 2927, col: 13, offset: 92160,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 678, col: 21, offset: 21593},
 													expr: &actionExpr{
-														pos: position{line: 2909, col: 10, offset: 91792},
-														run: (*parser).callonListContinuationElement237,
+														pos: position{line: 2910, col: 10, offset: 91824},
+														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2909, col: 10, offset: 91792},
+															pos:        position{line: 2910, col: 10, offset: 91824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30858,28 +30998,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2931, col: 8, offset: 92190},
+													pos: position{line: 2932, col: 8, offset: 92222},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2918, col: 12, offset: 91963},
-															run: (*parser).callonListContinuationElement240,
+															pos: position{line: 2919, col: 12, offset: 91995},
+															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2918, col: 13, offset: 91964},
+																pos: position{line: 2919, col: 13, offset: 91996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 13, offset: 91964},
+																		pos:        position{line: 2919, col: 13, offset: 91996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 20, offset: 91971},
+																		pos:        position{line: 2919, col: 20, offset: 92003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 29, offset: 91980},
+																		pos:        position{line: 2919, col: 29, offset: 92012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30888,9 +31028,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2928, col: 8, offset: 92140},
+															pos: position{line: 2929, col: 8, offset: 92172},
 															expr: &anyMatcher{
-																line: 2928, col: 9, offset: 92141,
+																line: 2929, col: 9, offset: 92173,
 															},
 														},
 													},
@@ -30904,7 +31044,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 360, col: 19, offset: 10910},
-										run: (*parser).callonListContinuationElement248,
+										run: (*parser).callonListContinuationElement254,
 										expr: &seqExpr{
 											pos: position{line: 360, col: 19, offset: 10910},
 											exprs: []interface{}{
@@ -30919,7 +31059,7 @@ var g = &grammar{
 													label: "name",
 													expr: &actionExpr{
 														pos: position{line: 318, col: 18, offset: 9736},
-														run: (*parser).callonListContinuationElement252,
+														run: (*parser).callonListContinuationElement258,
 														expr: &seqExpr{
 															pos: position{line: 318, col: 18, offset: 9736},
 															exprs: []interface{}{
@@ -30955,10 +31095,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2909, col: 10, offset: 91792},
-														run: (*parser).callonListContinuationElement259,
+														pos: position{line: 2910, col: 10, offset: 91824},
+														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2909, col: 10, offset: 91792},
+															pos:        position{line: 2910, col: 10, offset: 91824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30967,28 +31107,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2931, col: 8, offset: 92190},
+													pos: position{line: 2932, col: 8, offset: 92222},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2918, col: 12, offset: 91963},
-															run: (*parser).callonListContinuationElement262,
+															pos: position{line: 2919, col: 12, offset: 91995},
+															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2918, col: 13, offset: 91964},
+																pos: position{line: 2919, col: 13, offset: 91996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 13, offset: 91964},
+																		pos:        position{line: 2919, col: 13, offset: 91996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 20, offset: 91971},
+																		pos:        position{line: 2919, col: 20, offset: 92003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 29, offset: 91980},
+																		pos:        position{line: 2919, col: 29, offset: 92012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30997,9 +31137,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2928, col: 8, offset: 92140},
+															pos: position{line: 2929, col: 8, offset: 92172},
 															expr: &anyMatcher{
-																line: 2928, col: 9, offset: 92141,
+																line: 2929, col: 9, offset: 92173,
 															},
 														},
 													},
@@ -31009,7 +31149,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 362, col: 9, offset: 11031},
-										run: (*parser).callonListContinuationElement269,
+										run: (*parser).callonListContinuationElement275,
 										expr: &seqExpr{
 											pos: position{line: 362, col: 9, offset: 11031},
 											exprs: []interface{}{
@@ -31024,7 +31164,7 @@ var g = &grammar{
 													label: "name",
 													expr: &actionExpr{
 														pos: position{line: 318, col: 18, offset: 9736},
-														run: (*parser).callonListContinuationElement273,
+														run: (*parser).callonListContinuationElement279,
 														expr: &seqExpr{
 															pos: position{line: 318, col: 18, offset: 9736},
 															exprs: []interface{}{
@@ -31060,10 +31200,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2909, col: 10, offset: 91792},
-														run: (*parser).callonListContinuationElement280,
+														pos: position{line: 2910, col: 10, offset: 91824},
+														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2909, col: 10, offset: 91792},
+															pos:        position{line: 2910, col: 10, offset: 91824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31072,28 +31212,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2931, col: 8, offset: 92190},
+													pos: position{line: 2932, col: 8, offset: 92222},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2918, col: 12, offset: 91963},
-															run: (*parser).callonListContinuationElement283,
+															pos: position{line: 2919, col: 12, offset: 91995},
+															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2918, col: 13, offset: 91964},
+																pos: position{line: 2919, col: 13, offset: 91996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 13, offset: 91964},
+																		pos:        position{line: 2919, col: 13, offset: 91996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 20, offset: 91971},
+																		pos:        position{line: 2919, col: 20, offset: 92003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 29, offset: 91980},
+																		pos:        position{line: 2919, col: 29, offset: 92012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31102,9 +31242,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2928, col: 8, offset: 92140},
+															pos: position{line: 2929, col: 8, offset: 92172},
 															expr: &anyMatcher{
-																line: 2928, col: 9, offset: 92141,
+																line: 2929, col: 9, offset: 92173,
 															},
 														},
 													},
@@ -31114,13 +31254,13 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 821, col: 5, offset: 26421},
-										run: (*parser).callonListContinuationElement290,
+										run: (*parser).callonListContinuationElement296,
 										expr: &seqExpr{
 											pos: position{line: 821, col: 5, offset: 26421},
 											exprs: []interface{}{
 												&actionExpr{
 													pos: position{line: 741, col: 5, offset: 23681},
-													run: (*parser).callonListContinuationElement292,
+													run: (*parser).callonListContinuationElement298,
 													expr: &seqExpr{
 														pos: position{line: 741, col: 5, offset: 23681},
 														exprs: []interface{}{
@@ -31129,7 +31269,7 @@ var g = &grammar{
 																label: "delimiter",
 																expr: &actionExpr{
 																	pos: position{line: 741, col: 16, offset: 23692},
-																	run: (*parser).callonListContinuationElement295,
+																	run: (*parser).callonListContinuationElement301,
 																	expr: &seqExpr{
 																		pos: position{line: 741, col: 16, offset: 23692},
 																		exprs: []interface{}{
@@ -31155,10 +31295,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 743, col: 8, offset: 23783},
 																expr: &actionExpr{
-																	pos: position{line: 2909, col: 10, offset: 91792},
-																	run: (*parser).callonListContinuationElement301,
+																	pos: position{line: 2910, col: 10, offset: 91824},
+																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2909, col: 10, offset: 91792},
+																		pos:        position{line: 2910, col: 10, offset: 91824},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31167,28 +31307,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2931, col: 8, offset: 92190},
+																pos: position{line: 2932, col: 8, offset: 92222},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2918, col: 12, offset: 91963},
-																		run: (*parser).callonListContinuationElement304,
+																		pos: position{line: 2919, col: 12, offset: 91995},
+																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2918, col: 13, offset: 91964},
+																			pos: position{line: 2919, col: 13, offset: 91996},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2918, col: 13, offset: 91964},
+																					pos:        position{line: 2919, col: 13, offset: 91996},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2918, col: 20, offset: 91971},
+																					pos:        position{line: 2919, col: 20, offset: 92003},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2918, col: 29, offset: 91980},
+																					pos:        position{line: 2919, col: 29, offset: 92012},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31197,9 +31337,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2928, col: 8, offset: 92140},
+																		pos: position{line: 2929, col: 8, offset: 92172},
 																		expr: &anyMatcher{
-																			line: 2928, col: 9, offset: 92141,
+																			line: 2929, col: 9, offset: 92173,
 																		},
 																	},
 																},
@@ -31214,7 +31354,7 @@ var g = &grammar{
 														pos: position{line: 832, col: 5, offset: 26738},
 														expr: &actionExpr{
 															pos: position{line: 832, col: 6, offset: 26739},
-															run: (*parser).callonListContinuationElement313,
+															run: (*parser).callonListContinuationElement319,
 															expr: &seqExpr{
 																pos: position{line: 832, col: 6, offset: 26739},
 																exprs: []interface{}{
@@ -31225,7 +31365,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 741, col: 5, offset: 23681},
-																					run: (*parser).callonListContinuationElement317,
+																					run: (*parser).callonListContinuationElement323,
 																					expr: &seqExpr{
 																						pos: position{line: 741, col: 5, offset: 23681},
 																						exprs: []interface{}{
@@ -31234,7 +31374,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 741, col: 16, offset: 23692},
-																									run: (*parser).callonListContinuationElement320,
+																									run: (*parser).callonListContinuationElement326,
 																									expr: &seqExpr{
 																										pos: position{line: 741, col: 16, offset: 23692},
 																										exprs: []interface{}{
@@ -31260,10 +31400,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23783},
 																								expr: &actionExpr{
-																									pos: position{line: 2909, col: 10, offset: 91792},
-																									run: (*parser).callonListContinuationElement326,
+																									pos: position{line: 2910, col: 10, offset: 91824},
+																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2909, col: 10, offset: 91792},
+																										pos:        position{line: 2910, col: 10, offset: 91824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -31272,28 +31412,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2931, col: 8, offset: 92190},
+																								pos: position{line: 2932, col: 8, offset: 92222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2918, col: 12, offset: 91963},
-																										run: (*parser).callonListContinuationElement329,
+																										pos: position{line: 2919, col: 12, offset: 91995},
+																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2918, col: 13, offset: 91964},
+																											pos: position{line: 2919, col: 13, offset: 91996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 13, offset: 91964},
+																													pos:        position{line: 2919, col: 13, offset: 91996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 20, offset: 91971},
+																													pos:        position{line: 2919, col: 20, offset: 92003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 29, offset: 91980},
+																													pos:        position{line: 2919, col: 29, offset: 92012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -31302,9 +31442,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2928, col: 8, offset: 92140},
+																										pos: position{line: 2929, col: 8, offset: 92172},
 																										expr: &anyMatcher{
-																											line: 2928, col: 9, offset: 92141,
+																											line: 2929, col: 9, offset: 92173,
 																										},
 																									},
 																								},
@@ -31313,9 +31453,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -31326,26 +31466,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 812, col: 5, offset: 26185},
-																			run: (*parser).callonListContinuationElement339,
+																			run: (*parser).callonListContinuationElement345,
 																			expr: &seqExpr{
 																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2926, col: 11, offset: 92126},
+																						pos: position{line: 2927, col: 11, offset: 92158},
 																						expr: &anyMatcher{
-																							line: 2926, col: 13, offset: 92128,
+																							line: 2927, col: 13, offset: 92160,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2855, col: 13, offset: 90318},
-																							run: (*parser).callonListContinuationElement344,
+																							pos: position{line: 2856, col: 13, offset: 90350},
+																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2855, col: 13, offset: 90318},
+																								pos: position{line: 2856, col: 13, offset: 90350},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2855, col: 13, offset: 90318},
+																									pos:        position{line: 2856, col: 13, offset: 90350},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31355,28 +31495,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2931, col: 8, offset: 92190},
+																						pos: position{line: 2932, col: 8, offset: 92222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2918, col: 12, offset: 91963},
-																								run: (*parser).callonListContinuationElement348,
+																								pos: position{line: 2919, col: 12, offset: 91995},
+																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2918, col: 13, offset: 91964},
+																									pos: position{line: 2919, col: 13, offset: 91996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 13, offset: 91964},
+																											pos:        position{line: 2919, col: 13, offset: 91996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 20, offset: 91971},
+																											pos:        position{line: 2919, col: 20, offset: 92003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 29, offset: 91980},
+																											pos:        position{line: 2919, col: 29, offset: 92012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31385,9 +31525,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2928, col: 8, offset: 92140},
+																								pos: position{line: 2929, col: 8, offset: 92172},
 																								expr: &anyMatcher{
-																									line: 2928, col: 9, offset: 92141,
+																									line: 2929, col: 9, offset: 92173,
 																								},
 																							},
 																						},
@@ -31408,7 +31548,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 741, col: 5, offset: 23681},
-																run: (*parser).callonListContinuationElement357,
+																run: (*parser).callonListContinuationElement363,
 																expr: &seqExpr{
 																	pos: position{line: 741, col: 5, offset: 23681},
 																	exprs: []interface{}{
@@ -31417,7 +31557,7 @@ var g = &grammar{
 																			label: "delimiter",
 																			expr: &actionExpr{
 																				pos: position{line: 741, col: 16, offset: 23692},
-																				run: (*parser).callonListContinuationElement360,
+																				run: (*parser).callonListContinuationElement366,
 																				expr: &seqExpr{
 																					pos: position{line: 741, col: 16, offset: 23692},
 																					exprs: []interface{}{
@@ -31443,10 +31583,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23783},
 																			expr: &actionExpr{
-																				pos: position{line: 2909, col: 10, offset: 91792},
-																				run: (*parser).callonListContinuationElement366,
+																				pos: position{line: 2910, col: 10, offset: 91824},
+																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2909, col: 10, offset: 91792},
+																					pos:        position{line: 2910, col: 10, offset: 91824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31455,28 +31595,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2931, col: 8, offset: 92190},
+																			pos: position{line: 2932, col: 8, offset: 92222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2918, col: 12, offset: 91963},
-																					run: (*parser).callonListContinuationElement369,
+																					pos: position{line: 2919, col: 12, offset: 91995},
+																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2918, col: 13, offset: 91964},
+																						pos: position{line: 2919, col: 13, offset: 91996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 13, offset: 91964},
+																								pos:        position{line: 2919, col: 13, offset: 91996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 20, offset: 91971},
+																								pos:        position{line: 2919, col: 20, offset: 92003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 29, offset: 91980},
+																								pos:        position{line: 2919, col: 29, offset: 92012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31485,9 +31625,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -31496,9 +31636,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2928, col: 8, offset: 92140},
+																pos: position{line: 2929, col: 8, offset: 92172},
 																expr: &anyMatcher{
-																	line: 2928, col: 9, offset: 92141,
+																	line: 2929, col: 9, offset: 92173,
 																},
 															},
 														},
@@ -31509,7 +31649,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 841, col: 5, offset: 26922},
-										run: (*parser).callonListContinuationElement378,
+										run: (*parser).callonListContinuationElement384,
 										expr: &seqExpr{
 											pos: position{line: 841, col: 5, offset: 26922},
 											exprs: []interface{}{
@@ -31518,7 +31658,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 748, col: 5, offset: 23929},
-														run: (*parser).callonListContinuationElement381,
+														run: (*parser).callonListContinuationElement387,
 														expr: &seqExpr{
 															pos: position{line: 748, col: 5, offset: 23929},
 															exprs: []interface{}{
@@ -31527,7 +31667,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 748, col: 16, offset: 23940},
-																		run: (*parser).callonListContinuationElement384,
+																		run: (*parser).callonListContinuationElement390,
 																		expr: &seqExpr{
 																			pos: position{line: 748, col: 16, offset: 23940},
 																			exprs: []interface{}{
@@ -31553,10 +31693,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 750, col: 8, offset: 24031},
 																	expr: &actionExpr{
-																		pos: position{line: 2909, col: 10, offset: 91792},
-																		run: (*parser).callonListContinuationElement390,
+																		pos: position{line: 2910, col: 10, offset: 91824},
+																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 10, offset: 91792},
+																			pos:        position{line: 2910, col: 10, offset: 91824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31565,28 +31705,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2931, col: 8, offset: 92190},
+																	pos: position{line: 2932, col: 8, offset: 92222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2918, col: 12, offset: 91963},
-																			run: (*parser).callonListContinuationElement393,
+																			pos: position{line: 2919, col: 12, offset: 91995},
+																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2918, col: 13, offset: 91964},
+																				pos: position{line: 2919, col: 13, offset: 91996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 13, offset: 91964},
+																						pos:        position{line: 2919, col: 13, offset: 91996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 20, offset: 91971},
+																						pos:        position{line: 2919, col: 20, offset: 92003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 29, offset: 91980},
+																						pos:        position{line: 2919, col: 29, offset: 92012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31595,9 +31735,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2928, col: 8, offset: 92140},
+																			pos: position{line: 2929, col: 8, offset: 92172},
 																			expr: &anyMatcher{
-																				line: 2928, col: 9, offset: 92141,
+																				line: 2929, col: 9, offset: 92173,
 																			},
 																		},
 																	},
@@ -31608,7 +31748,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 842, col: 5, offset: 26961},
-													run: (*parser).callonListContinuationElement400,
+													run: (*parser).callonListContinuationElement406,
 												},
 												&labeledExpr{
 													pos:   position{line: 845, col: 5, offset: 27053},
@@ -31617,7 +31757,7 @@ var g = &grammar{
 														pos: position{line: 860, col: 4, offset: 27450},
 														expr: &actionExpr{
 															pos: position{line: 860, col: 5, offset: 27451},
-															run: (*parser).callonListContinuationElement403,
+															run: (*parser).callonListContinuationElement409,
 															expr: &seqExpr{
 																pos: position{line: 860, col: 5, offset: 27451},
 																exprs: []interface{}{
@@ -31634,7 +31774,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 748, col: 5, offset: 23929},
-																								run: (*parser).callonListContinuationElement409,
+																								run: (*parser).callonListContinuationElement415,
 																								expr: &seqExpr{
 																									pos: position{line: 748, col: 5, offset: 23929},
 																									exprs: []interface{}{
@@ -31643,7 +31783,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 748, col: 16, offset: 23940},
-																												run: (*parser).callonListContinuationElement412,
+																												run: (*parser).callonListContinuationElement418,
 																												expr: &seqExpr{
 																													pos: position{line: 748, col: 16, offset: 23940},
 																													exprs: []interface{}{
@@ -31669,10 +31809,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 750, col: 8, offset: 24031},
 																											expr: &actionExpr{
-																												pos: position{line: 2909, col: 10, offset: 91792},
-																												run: (*parser).callonListContinuationElement418,
+																												pos: position{line: 2910, col: 10, offset: 91824},
+																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2909, col: 10, offset: 91792},
+																													pos:        position{line: 2910, col: 10, offset: 91824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31681,28 +31821,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2931, col: 8, offset: 92190},
+																											pos: position{line: 2932, col: 8, offset: 92222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2918, col: 12, offset: 91963},
-																													run: (*parser).callonListContinuationElement421,
+																													pos: position{line: 2919, col: 12, offset: 91995},
+																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2918, col: 13, offset: 91964},
+																														pos: position{line: 2919, col: 13, offset: 91996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 13, offset: 91964},
+																																pos:        position{line: 2919, col: 13, offset: 91996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 20, offset: 91971},
+																																pos:        position{line: 2919, col: 20, offset: 92003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 29, offset: 91980},
+																																pos:        position{line: 2919, col: 29, offset: 92012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31711,9 +31851,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2928, col: 8, offset: 92140},
+																													pos: position{line: 2929, col: 8, offset: 92172},
 																													expr: &anyMatcher{
-																														line: 2928, col: 9, offset: 92141,
+																														line: 2929, col: 9, offset: 92173,
 																													},
 																												},
 																											},
@@ -31724,14 +31864,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 854, col: 5, offset: 27324},
-																							run: (*parser).callonListContinuationElement428,
+																							run: (*parser).callonListContinuationElement434,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -31742,26 +31882,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 812, col: 5, offset: 26185},
-																			run: (*parser).callonListContinuationElement432,
+																			run: (*parser).callonListContinuationElement438,
 																			expr: &seqExpr{
 																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2926, col: 11, offset: 92126},
+																						pos: position{line: 2927, col: 11, offset: 92158},
 																						expr: &anyMatcher{
-																							line: 2926, col: 13, offset: 92128,
+																							line: 2927, col: 13, offset: 92160,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2855, col: 13, offset: 90318},
-																							run: (*parser).callonListContinuationElement437,
+																							pos: position{line: 2856, col: 13, offset: 90350},
+																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2855, col: 13, offset: 90318},
+																								pos: position{line: 2856, col: 13, offset: 90350},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2855, col: 13, offset: 90318},
+																									pos:        position{line: 2856, col: 13, offset: 90350},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31771,28 +31911,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2931, col: 8, offset: 92190},
+																						pos: position{line: 2932, col: 8, offset: 92222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2918, col: 12, offset: 91963},
-																								run: (*parser).callonListContinuationElement441,
+																								pos: position{line: 2919, col: 12, offset: 91995},
+																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2918, col: 13, offset: 91964},
+																									pos: position{line: 2919, col: 13, offset: 91996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 13, offset: 91964},
+																											pos:        position{line: 2919, col: 13, offset: 91996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 20, offset: 91971},
+																											pos:        position{line: 2919, col: 20, offset: 92003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 29, offset: 91980},
+																											pos:        position{line: 2919, col: 29, offset: 92012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31801,9 +31941,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2928, col: 8, offset: 92140},
+																								pos: position{line: 2929, col: 8, offset: 92172},
 																								expr: &anyMatcher{
-																									line: 2928, col: 9, offset: 92141,
+																									line: 2929, col: 9, offset: 92173,
 																								},
 																							},
 																						},
@@ -31833,7 +31973,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 748, col: 5, offset: 23929},
-																				run: (*parser).callonListContinuationElement453,
+																				run: (*parser).callonListContinuationElement459,
 																				expr: &seqExpr{
 																					pos: position{line: 748, col: 5, offset: 23929},
 																					exprs: []interface{}{
@@ -31842,7 +31982,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 748, col: 16, offset: 23940},
-																								run: (*parser).callonListContinuationElement456,
+																								run: (*parser).callonListContinuationElement462,
 																								expr: &seqExpr{
 																									pos: position{line: 748, col: 16, offset: 23940},
 																									exprs: []interface{}{
@@ -31868,10 +32008,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 750, col: 8, offset: 24031},
 																							expr: &actionExpr{
-																								pos: position{line: 2909, col: 10, offset: 91792},
-																								run: (*parser).callonListContinuationElement462,
+																								pos: position{line: 2910, col: 10, offset: 91824},
+																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 10, offset: 91792},
+																									pos:        position{line: 2910, col: 10, offset: 91824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31880,28 +32020,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
-																									run: (*parser).callonListContinuationElement465,
+																									pos: position{line: 2919, col: 12, offset: 91995},
+																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31910,9 +32050,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -31923,14 +32063,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 854, col: 5, offset: 27324},
-																			run: (*parser).callonListContinuationElement472,
+																			run: (*parser).callonListContinuationElement478,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2928, col: 8, offset: 92140},
+																	pos: position{line: 2929, col: 8, offset: 92172},
 																	expr: &anyMatcher{
-																		line: 2928, col: 9, offset: 92141,
+																		line: 2929, col: 9, offset: 92173,
 																	},
 																},
 															},
@@ -31942,7 +32082,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 953, col: 5, offset: 29773},
-										run: (*parser).callonListContinuationElement475,
+										run: (*parser).callonListContinuationElement481,
 										expr: &seqExpr{
 											pos: position{line: 953, col: 5, offset: 29773},
 											exprs: []interface{}{
@@ -31951,7 +32091,7 @@ var g = &grammar{
 													label: "delimiter",
 													expr: &actionExpr{
 														pos: position{line: 761, col: 26, offset: 24417},
-														run: (*parser).callonListContinuationElement478,
+														run: (*parser).callonListContinuationElement484,
 														expr: &seqExpr{
 															pos: position{line: 761, col: 26, offset: 24417},
 															exprs: []interface{}{
@@ -31966,7 +32106,7 @@ var g = &grammar{
 																	label: "language",
 																	expr: &actionExpr{
 																		pos: position{line: 765, col: 13, offset: 24553},
-																		run: (*parser).callonListContinuationElement482,
+																		run: (*parser).callonListContinuationElement488,
 																		expr: &oneOrMoreExpr{
 																			pos: position{line: 765, col: 14, offset: 24554},
 																			expr: &charClassMatcher{
@@ -31982,10 +32122,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 761, col: 52, offset: 24443},
 																	expr: &actionExpr{
-																		pos: position{line: 2909, col: 10, offset: 91792},
-																		run: (*parser).callonListContinuationElement486,
+																		pos: position{line: 2910, col: 10, offset: 91824},
+																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 10, offset: 91792},
+																			pos:        position{line: 2910, col: 10, offset: 91824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31994,28 +32134,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2931, col: 8, offset: 92190},
+																	pos: position{line: 2932, col: 8, offset: 92222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2918, col: 12, offset: 91963},
-																			run: (*parser).callonListContinuationElement489,
+																			pos: position{line: 2919, col: 12, offset: 91995},
+																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2918, col: 13, offset: 91964},
+																				pos: position{line: 2919, col: 13, offset: 91996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 13, offset: 91964},
+																						pos:        position{line: 2919, col: 13, offset: 91996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 20, offset: 91971},
+																						pos:        position{line: 2919, col: 20, offset: 92003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 29, offset: 91980},
+																						pos:        position{line: 2919, col: 29, offset: 92012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32024,9 +32164,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2928, col: 8, offset: 92140},
+																			pos: position{line: 2929, col: 8, offset: 92172},
 																			expr: &anyMatcher{
-																				line: 2928, col: 9, offset: 92141,
+																				line: 2929, col: 9, offset: 92173,
 																			},
 																		},
 																	},
@@ -32042,7 +32182,7 @@ var g = &grammar{
 														pos: position{line: 967, col: 5, offset: 30292},
 														expr: &actionExpr{
 															pos: position{line: 967, col: 6, offset: 30293},
-															run: (*parser).callonListContinuationElement498,
+															run: (*parser).callonListContinuationElement504,
 															expr: &seqExpr{
 																pos: position{line: 967, col: 6, offset: 30293},
 																exprs: []interface{}{
@@ -32060,10 +32200,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 964, col: 40, offset: 30246},
 																					expr: &actionExpr{
-																						pos: position{line: 2909, col: 10, offset: 91792},
-																						run: (*parser).callonListContinuationElement504,
+																						pos: position{line: 2910, col: 10, offset: 91824},
+																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 91792},
+																							pos:        position{line: 2910, col: 10, offset: 91824},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32072,28 +32212,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2931, col: 8, offset: 92190},
+																					pos: position{line: 2932, col: 8, offset: 92222},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2918, col: 12, offset: 91963},
-																							run: (*parser).callonListContinuationElement507,
+																							pos: position{line: 2919, col: 12, offset: 91995},
+																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2918, col: 13, offset: 91964},
+																								pos: position{line: 2919, col: 13, offset: 91996},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 13, offset: 91964},
+																										pos:        position{line: 2919, col: 13, offset: 91996},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 20, offset: 91971},
+																										pos:        position{line: 2919, col: 20, offset: 92003},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 29, offset: 91980},
+																										pos:        position{line: 2919, col: 29, offset: 92012},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32102,9 +32242,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2928, col: 8, offset: 92140},
+																							pos: position{line: 2929, col: 8, offset: 92172},
 																							expr: &anyMatcher{
-																								line: 2928, col: 9, offset: 92141,
+																								line: 2929, col: 9, offset: 92173,
 																							},
 																						},
 																					},
@@ -32117,26 +32257,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 812, col: 5, offset: 26185},
-																			run: (*parser).callonListContinuationElement515,
+																			run: (*parser).callonListContinuationElement521,
 																			expr: &seqExpr{
 																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2926, col: 11, offset: 92126},
+																						pos: position{line: 2927, col: 11, offset: 92158},
 																						expr: &anyMatcher{
-																							line: 2926, col: 13, offset: 92128,
+																							line: 2927, col: 13, offset: 92160,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2855, col: 13, offset: 90318},
-																							run: (*parser).callonListContinuationElement520,
+																							pos: position{line: 2856, col: 13, offset: 90350},
+																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2855, col: 13, offset: 90318},
+																								pos: position{line: 2856, col: 13, offset: 90350},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2855, col: 13, offset: 90318},
+																									pos:        position{line: 2856, col: 13, offset: 90350},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32146,28 +32286,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2931, col: 8, offset: 92190},
+																						pos: position{line: 2932, col: 8, offset: 92222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2918, col: 12, offset: 91963},
-																								run: (*parser).callonListContinuationElement524,
+																								pos: position{line: 2919, col: 12, offset: 91995},
+																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2918, col: 13, offset: 91964},
+																									pos: position{line: 2919, col: 13, offset: 91996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 13, offset: 91964},
+																											pos:        position{line: 2919, col: 13, offset: 91996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 20, offset: 91971},
+																											pos:        position{line: 2919, col: 20, offset: 92003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 29, offset: 91980},
+																											pos:        position{line: 2919, col: 29, offset: 92012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32176,9 +32316,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2928, col: 8, offset: 92140},
+																								pos: position{line: 2929, col: 8, offset: 92172},
 																								expr: &anyMatcher{
-																									line: 2928, col: 9, offset: 92141,
+																									line: 2929, col: 9, offset: 92173,
 																								},
 																							},
 																						},
@@ -32206,10 +32346,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 964, col: 40, offset: 30246},
 																expr: &actionExpr{
-																	pos: position{line: 2909, col: 10, offset: 91792},
-																	run: (*parser).callonListContinuationElement535,
+																	pos: position{line: 2910, col: 10, offset: 91824},
+																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2909, col: 10, offset: 91792},
+																		pos:        position{line: 2910, col: 10, offset: 91824},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32218,28 +32358,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2931, col: 8, offset: 92190},
+																pos: position{line: 2932, col: 8, offset: 92222},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2918, col: 12, offset: 91963},
-																		run: (*parser).callonListContinuationElement538,
+																		pos: position{line: 2919, col: 12, offset: 91995},
+																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2918, col: 13, offset: 91964},
+																			pos: position{line: 2919, col: 13, offset: 91996},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2918, col: 13, offset: 91964},
+																					pos:        position{line: 2919, col: 13, offset: 91996},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2918, col: 20, offset: 91971},
+																					pos:        position{line: 2919, col: 20, offset: 92003},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2918, col: 29, offset: 91980},
+																					pos:        position{line: 2919, col: 29, offset: 92012},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32248,9 +32388,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2928, col: 8, offset: 92140},
+																		pos: position{line: 2929, col: 8, offset: 92172},
 																		expr: &anyMatcher{
-																			line: 2928, col: 9, offset: 92141,
+																			line: 2929, col: 9, offset: 92173,
 																		},
 																	},
 																},
@@ -32263,7 +32403,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 869, col: 5, offset: 27634},
-										run: (*parser).callonListContinuationElement545,
+										run: (*parser).callonListContinuationElement551,
 										expr: &seqExpr{
 											pos: position{line: 869, col: 5, offset: 27634},
 											exprs: []interface{}{
@@ -32272,7 +32412,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 755, col: 5, offset: 24176},
-														run: (*parser).callonListContinuationElement548,
+														run: (*parser).callonListContinuationElement554,
 														expr: &seqExpr{
 															pos: position{line: 755, col: 5, offset: 24176},
 															exprs: []interface{}{
@@ -32281,7 +32421,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 755, col: 16, offset: 24187},
-																		run: (*parser).callonListContinuationElement551,
+																		run: (*parser).callonListContinuationElement557,
 																		expr: &seqExpr{
 																			pos: position{line: 755, col: 16, offset: 24187},
 																			exprs: []interface{}{
@@ -32307,10 +32447,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 757, col: 8, offset: 24277},
 																	expr: &actionExpr{
-																		pos: position{line: 2909, col: 10, offset: 91792},
-																		run: (*parser).callonListContinuationElement557,
+																		pos: position{line: 2910, col: 10, offset: 91824},
+																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 10, offset: 91792},
+																			pos:        position{line: 2910, col: 10, offset: 91824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32319,28 +32459,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2931, col: 8, offset: 92190},
+																	pos: position{line: 2932, col: 8, offset: 92222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2918, col: 12, offset: 91963},
-																			run: (*parser).callonListContinuationElement560,
+																			pos: position{line: 2919, col: 12, offset: 91995},
+																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2918, col: 13, offset: 91964},
+																				pos: position{line: 2919, col: 13, offset: 91996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 13, offset: 91964},
+																						pos:        position{line: 2919, col: 13, offset: 91996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 20, offset: 91971},
+																						pos:        position{line: 2919, col: 20, offset: 92003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 29, offset: 91980},
+																						pos:        position{line: 2919, col: 29, offset: 92012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32349,9 +32489,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2928, col: 8, offset: 92140},
+																			pos: position{line: 2929, col: 8, offset: 92172},
 																			expr: &anyMatcher{
-																				line: 2928, col: 9, offset: 92141,
+																				line: 2929, col: 9, offset: 92173,
 																			},
 																		},
 																	},
@@ -32362,7 +32502,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 870, col: 5, offset: 27672},
-													run: (*parser).callonListContinuationElement567,
+													run: (*parser).callonListContinuationElement573,
 												},
 												&labeledExpr{
 													pos:   position{line: 873, col: 5, offset: 27764},
@@ -32371,7 +32511,7 @@ var g = &grammar{
 														pos: position{line: 888, col: 5, offset: 28154},
 														expr: &actionExpr{
 															pos: position{line: 888, col: 6, offset: 28155},
-															run: (*parser).callonListContinuationElement570,
+															run: (*parser).callonListContinuationElement576,
 															expr: &seqExpr{
 																pos: position{line: 888, col: 6, offset: 28155},
 																exprs: []interface{}{
@@ -32388,7 +32528,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 755, col: 5, offset: 24176},
-																								run: (*parser).callonListContinuationElement576,
+																								run: (*parser).callonListContinuationElement582,
 																								expr: &seqExpr{
 																									pos: position{line: 755, col: 5, offset: 24176},
 																									exprs: []interface{}{
@@ -32397,7 +32537,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 755, col: 16, offset: 24187},
-																												run: (*parser).callonListContinuationElement579,
+																												run: (*parser).callonListContinuationElement585,
 																												expr: &seqExpr{
 																													pos: position{line: 755, col: 16, offset: 24187},
 																													exprs: []interface{}{
@@ -32423,10 +32563,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 757, col: 8, offset: 24277},
 																											expr: &actionExpr{
-																												pos: position{line: 2909, col: 10, offset: 91792},
-																												run: (*parser).callonListContinuationElement585,
+																												pos: position{line: 2910, col: 10, offset: 91824},
+																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2909, col: 10, offset: 91792},
+																													pos:        position{line: 2910, col: 10, offset: 91824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32435,28 +32575,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2931, col: 8, offset: 92190},
+																											pos: position{line: 2932, col: 8, offset: 92222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2918, col: 12, offset: 91963},
-																													run: (*parser).callonListContinuationElement588,
+																													pos: position{line: 2919, col: 12, offset: 91995},
+																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2918, col: 13, offset: 91964},
+																														pos: position{line: 2919, col: 13, offset: 91996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 13, offset: 91964},
+																																pos:        position{line: 2919, col: 13, offset: 91996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 20, offset: 91971},
+																																pos:        position{line: 2919, col: 20, offset: 92003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 29, offset: 91980},
+																																pos:        position{line: 2919, col: 29, offset: 92012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32465,9 +32605,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2928, col: 8, offset: 92140},
+																													pos: position{line: 2929, col: 8, offset: 92172},
 																													expr: &anyMatcher{
-																														line: 2928, col: 9, offset: 92141,
+																														line: 2929, col: 9, offset: 92173,
 																													},
 																												},
 																											},
@@ -32478,14 +32618,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 882, col: 5, offset: 28028},
-																							run: (*parser).callonListContinuationElement595,
+																							run: (*parser).callonListContinuationElement601,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -32496,26 +32636,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 812, col: 5, offset: 26185},
-																			run: (*parser).callonListContinuationElement599,
+																			run: (*parser).callonListContinuationElement605,
 																			expr: &seqExpr{
 																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2926, col: 11, offset: 92126},
+																						pos: position{line: 2927, col: 11, offset: 92158},
 																						expr: &anyMatcher{
-																							line: 2926, col: 13, offset: 92128,
+																							line: 2927, col: 13, offset: 92160,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2855, col: 13, offset: 90318},
-																							run: (*parser).callonListContinuationElement604,
+																							pos: position{line: 2856, col: 13, offset: 90350},
+																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2855, col: 13, offset: 90318},
+																								pos: position{line: 2856, col: 13, offset: 90350},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2855, col: 13, offset: 90318},
+																									pos:        position{line: 2856, col: 13, offset: 90350},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32525,28 +32665,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2931, col: 8, offset: 92190},
+																						pos: position{line: 2932, col: 8, offset: 92222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2918, col: 12, offset: 91963},
-																								run: (*parser).callonListContinuationElement608,
+																								pos: position{line: 2919, col: 12, offset: 91995},
+																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2918, col: 13, offset: 91964},
+																									pos: position{line: 2919, col: 13, offset: 91996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 13, offset: 91964},
+																											pos:        position{line: 2919, col: 13, offset: 91996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 20, offset: 91971},
+																											pos:        position{line: 2919, col: 20, offset: 92003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 29, offset: 91980},
+																											pos:        position{line: 2919, col: 29, offset: 92012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32555,9 +32695,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2928, col: 8, offset: 92140},
+																								pos: position{line: 2929, col: 8, offset: 92172},
 																								expr: &anyMatcher{
-																									line: 2928, col: 9, offset: 92141,
+																									line: 2929, col: 9, offset: 92173,
 																								},
 																							},
 																						},
@@ -32587,7 +32727,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 755, col: 5, offset: 24176},
-																				run: (*parser).callonListContinuationElement620,
+																				run: (*parser).callonListContinuationElement626,
 																				expr: &seqExpr{
 																					pos: position{line: 755, col: 5, offset: 24176},
 																					exprs: []interface{}{
@@ -32596,7 +32736,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 755, col: 16, offset: 24187},
-																								run: (*parser).callonListContinuationElement623,
+																								run: (*parser).callonListContinuationElement629,
 																								expr: &seqExpr{
 																									pos: position{line: 755, col: 16, offset: 24187},
 																									exprs: []interface{}{
@@ -32622,10 +32762,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 757, col: 8, offset: 24277},
 																							expr: &actionExpr{
-																								pos: position{line: 2909, col: 10, offset: 91792},
-																								run: (*parser).callonListContinuationElement629,
+																								pos: position{line: 2910, col: 10, offset: 91824},
+																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 10, offset: 91792},
+																									pos:        position{line: 2910, col: 10, offset: 91824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32634,28 +32774,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
-																									run: (*parser).callonListContinuationElement632,
+																									pos: position{line: 2919, col: 12, offset: 91995},
+																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32664,9 +32804,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -32677,14 +32817,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 882, col: 5, offset: 28028},
-																			run: (*parser).callonListContinuationElement639,
+																			run: (*parser).callonListContinuationElement645,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2928, col: 8, offset: 92140},
+																	pos: position{line: 2929, col: 8, offset: 92172},
 																	expr: &anyMatcher{
-																		line: 2928, col: 9, offset: 92141,
+																		line: 2929, col: 9, offset: 92173,
 																	},
 																},
 															},
@@ -32696,7 +32836,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 897, col: 5, offset: 28339},
-										run: (*parser).callonListContinuationElement642,
+										run: (*parser).callonListContinuationElement648,
 										expr: &seqExpr{
 											pos: position{line: 897, col: 5, offset: 28339},
 											exprs: []interface{}{
@@ -32705,7 +32845,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 770, col: 5, offset: 24713},
-														run: (*parser).callonListContinuationElement645,
+														run: (*parser).callonListContinuationElement651,
 														expr: &seqExpr{
 															pos: position{line: 770, col: 5, offset: 24713},
 															exprs: []interface{}{
@@ -32714,7 +32854,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 770, col: 16, offset: 24724},
-																		run: (*parser).callonListContinuationElement648,
+																		run: (*parser).callonListContinuationElement654,
 																		expr: &seqExpr{
 																			pos: position{line: 770, col: 16, offset: 24724},
 																			exprs: []interface{}{
@@ -32740,10 +32880,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 772, col: 8, offset: 24815},
 																	expr: &actionExpr{
-																		pos: position{line: 2909, col: 10, offset: 91792},
-																		run: (*parser).callonListContinuationElement654,
+																		pos: position{line: 2910, col: 10, offset: 91824},
+																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 10, offset: 91792},
+																			pos:        position{line: 2910, col: 10, offset: 91824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32752,28 +32892,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2931, col: 8, offset: 92190},
+																	pos: position{line: 2932, col: 8, offset: 92222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2918, col: 12, offset: 91963},
-																			run: (*parser).callonListContinuationElement657,
+																			pos: position{line: 2919, col: 12, offset: 91995},
+																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2918, col: 13, offset: 91964},
+																				pos: position{line: 2919, col: 13, offset: 91996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 13, offset: 91964},
+																						pos:        position{line: 2919, col: 13, offset: 91996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 20, offset: 91971},
+																						pos:        position{line: 2919, col: 20, offset: 92003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 29, offset: 91980},
+																						pos:        position{line: 2919, col: 29, offset: 92012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32782,9 +32922,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2928, col: 8, offset: 92140},
+																			pos: position{line: 2929, col: 8, offset: 92172},
 																			expr: &anyMatcher{
-																				line: 2928, col: 9, offset: 92141,
+																				line: 2929, col: 9, offset: 92173,
 																			},
 																		},
 																	},
@@ -32795,7 +32935,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 898, col: 5, offset: 28378},
-													run: (*parser).callonListContinuationElement664,
+													run: (*parser).callonListContinuationElement670,
 												},
 												&labeledExpr{
 													pos:   position{line: 901, col: 5, offset: 28470},
@@ -32804,7 +32944,7 @@ var g = &grammar{
 														pos: position{line: 916, col: 5, offset: 28868},
 														expr: &actionExpr{
 															pos: position{line: 916, col: 6, offset: 28869},
-															run: (*parser).callonListContinuationElement667,
+															run: (*parser).callonListContinuationElement673,
 															expr: &seqExpr{
 																pos: position{line: 916, col: 6, offset: 28869},
 																exprs: []interface{}{
@@ -32821,7 +32961,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 770, col: 5, offset: 24713},
-																								run: (*parser).callonListContinuationElement673,
+																								run: (*parser).callonListContinuationElement679,
 																								expr: &seqExpr{
 																									pos: position{line: 770, col: 5, offset: 24713},
 																									exprs: []interface{}{
@@ -32830,7 +32970,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 770, col: 16, offset: 24724},
-																												run: (*parser).callonListContinuationElement676,
+																												run: (*parser).callonListContinuationElement682,
 																												expr: &seqExpr{
 																													pos: position{line: 770, col: 16, offset: 24724},
 																													exprs: []interface{}{
@@ -32856,10 +32996,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 772, col: 8, offset: 24815},
 																											expr: &actionExpr{
-																												pos: position{line: 2909, col: 10, offset: 91792},
-																												run: (*parser).callonListContinuationElement682,
+																												pos: position{line: 2910, col: 10, offset: 91824},
+																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2909, col: 10, offset: 91792},
+																													pos:        position{line: 2910, col: 10, offset: 91824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32868,28 +33008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2931, col: 8, offset: 92190},
+																											pos: position{line: 2932, col: 8, offset: 92222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2918, col: 12, offset: 91963},
-																													run: (*parser).callonListContinuationElement685,
+																													pos: position{line: 2919, col: 12, offset: 91995},
+																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2918, col: 13, offset: 91964},
+																														pos: position{line: 2919, col: 13, offset: 91996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 13, offset: 91964},
+																																pos:        position{line: 2919, col: 13, offset: 91996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 20, offset: 91971},
+																																pos:        position{line: 2919, col: 20, offset: 92003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 29, offset: 91980},
+																																pos:        position{line: 2919, col: 29, offset: 92012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32898,9 +33038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2928, col: 8, offset: 92140},
+																													pos: position{line: 2929, col: 8, offset: 92172},
 																													expr: &anyMatcher{
-																														line: 2928, col: 9, offset: 92141,
+																														line: 2929, col: 9, offset: 92173,
 																													},
 																												},
 																											},
@@ -32911,14 +33051,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 910, col: 5, offset: 28741},
-																							run: (*parser).callonListContinuationElement692,
+																							run: (*parser).callonListContinuationElement698,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -32929,26 +33069,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 812, col: 5, offset: 26185},
-																			run: (*parser).callonListContinuationElement696,
+																			run: (*parser).callonListContinuationElement702,
 																			expr: &seqExpr{
 																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2926, col: 11, offset: 92126},
+																						pos: position{line: 2927, col: 11, offset: 92158},
 																						expr: &anyMatcher{
-																							line: 2926, col: 13, offset: 92128,
+																							line: 2927, col: 13, offset: 92160,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2855, col: 13, offset: 90318},
-																							run: (*parser).callonListContinuationElement701,
+																							pos: position{line: 2856, col: 13, offset: 90350},
+																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2855, col: 13, offset: 90318},
+																								pos: position{line: 2856, col: 13, offset: 90350},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2855, col: 13, offset: 90318},
+																									pos:        position{line: 2856, col: 13, offset: 90350},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32958,28 +33098,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2931, col: 8, offset: 92190},
+																						pos: position{line: 2932, col: 8, offset: 92222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2918, col: 12, offset: 91963},
-																								run: (*parser).callonListContinuationElement705,
+																								pos: position{line: 2919, col: 12, offset: 91995},
+																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2918, col: 13, offset: 91964},
+																									pos: position{line: 2919, col: 13, offset: 91996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 13, offset: 91964},
+																											pos:        position{line: 2919, col: 13, offset: 91996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 20, offset: 91971},
+																											pos:        position{line: 2919, col: 20, offset: 92003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 29, offset: 91980},
+																											pos:        position{line: 2919, col: 29, offset: 92012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32988,9 +33128,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2928, col: 8, offset: 92140},
+																								pos: position{line: 2929, col: 8, offset: 92172},
 																								expr: &anyMatcher{
-																									line: 2928, col: 9, offset: 92141,
+																									line: 2929, col: 9, offset: 92173,
 																								},
 																							},
 																						},
@@ -33020,7 +33160,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 770, col: 5, offset: 24713},
-																				run: (*parser).callonListContinuationElement717,
+																				run: (*parser).callonListContinuationElement723,
 																				expr: &seqExpr{
 																					pos: position{line: 770, col: 5, offset: 24713},
 																					exprs: []interface{}{
@@ -33029,7 +33169,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 770, col: 16, offset: 24724},
-																								run: (*parser).callonListContinuationElement720,
+																								run: (*parser).callonListContinuationElement726,
 																								expr: &seqExpr{
 																									pos: position{line: 770, col: 16, offset: 24724},
 																									exprs: []interface{}{
@@ -33055,10 +33195,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 772, col: 8, offset: 24815},
 																							expr: &actionExpr{
-																								pos: position{line: 2909, col: 10, offset: 91792},
-																								run: (*parser).callonListContinuationElement726,
+																								pos: position{line: 2910, col: 10, offset: 91824},
+																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 10, offset: 91792},
+																									pos:        position{line: 2910, col: 10, offset: 91824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33067,28 +33207,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
-																									run: (*parser).callonListContinuationElement729,
+																									pos: position{line: 2919, col: 12, offset: 91995},
+																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33097,9 +33237,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -33110,14 +33250,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 910, col: 5, offset: 28741},
-																			run: (*parser).callonListContinuationElement736,
+																			run: (*parser).callonListContinuationElement742,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2928, col: 8, offset: 92140},
+																	pos: position{line: 2929, col: 8, offset: 92172},
 																	expr: &anyMatcher{
-																		line: 2928, col: 9, offset: 92141,
+																		line: 2929, col: 9, offset: 92173,
 																	},
 																},
 															},
@@ -33129,7 +33269,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 925, col: 5, offset: 29054},
-										run: (*parser).callonListContinuationElement739,
+										run: (*parser).callonListContinuationElement745,
 										expr: &seqExpr{
 											pos: position{line: 925, col: 5, offset: 29054},
 											exprs: []interface{}{
@@ -33138,7 +33278,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 784, col: 5, offset: 25189},
-														run: (*parser).callonListContinuationElement742,
+														run: (*parser).callonListContinuationElement748,
 														expr: &seqExpr{
 															pos: position{line: 784, col: 5, offset: 25189},
 															exprs: []interface{}{
@@ -33147,7 +33287,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 784, col: 16, offset: 25200},
-																		run: (*parser).callonListContinuationElement745,
+																		run: (*parser).callonListContinuationElement751,
 																		expr: &seqExpr{
 																			pos: position{line: 784, col: 16, offset: 25200},
 																			exprs: []interface{}{
@@ -33173,10 +33313,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 786, col: 8, offset: 25291},
 																	expr: &actionExpr{
-																		pos: position{line: 2909, col: 10, offset: 91792},
-																		run: (*parser).callonListContinuationElement751,
+																		pos: position{line: 2910, col: 10, offset: 91824},
+																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 10, offset: 91792},
+																			pos:        position{line: 2910, col: 10, offset: 91824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33185,28 +33325,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2931, col: 8, offset: 92190},
+																	pos: position{line: 2932, col: 8, offset: 92222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2918, col: 12, offset: 91963},
-																			run: (*parser).callonListContinuationElement754,
+																			pos: position{line: 2919, col: 12, offset: 91995},
+																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2918, col: 13, offset: 91964},
+																				pos: position{line: 2919, col: 13, offset: 91996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 13, offset: 91964},
+																						pos:        position{line: 2919, col: 13, offset: 91996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 20, offset: 91971},
+																						pos:        position{line: 2919, col: 20, offset: 92003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 29, offset: 91980},
+																						pos:        position{line: 2919, col: 29, offset: 92012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33215,9 +33355,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2928, col: 8, offset: 92140},
+																			pos: position{line: 2929, col: 8, offset: 92172},
 																			expr: &anyMatcher{
-																				line: 2928, col: 9, offset: 92141,
+																				line: 2929, col: 9, offset: 92173,
 																			},
 																		},
 																	},
@@ -33228,7 +33368,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 926, col: 5, offset: 29093},
-													run: (*parser).callonListContinuationElement761,
+													run: (*parser).callonListContinuationElement767,
 												},
 												&labeledExpr{
 													pos:   position{line: 929, col: 5, offset: 29185},
@@ -33237,7 +33377,7 @@ var g = &grammar{
 														pos: position{line: 944, col: 5, offset: 29583},
 														expr: &actionExpr{
 															pos: position{line: 944, col: 6, offset: 29584},
-															run: (*parser).callonListContinuationElement764,
+															run: (*parser).callonListContinuationElement770,
 															expr: &seqExpr{
 																pos: position{line: 944, col: 6, offset: 29584},
 																exprs: []interface{}{
@@ -33254,7 +33394,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 784, col: 5, offset: 25189},
-																								run: (*parser).callonListContinuationElement770,
+																								run: (*parser).callonListContinuationElement776,
 																								expr: &seqExpr{
 																									pos: position{line: 784, col: 5, offset: 25189},
 																									exprs: []interface{}{
@@ -33263,7 +33403,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 784, col: 16, offset: 25200},
-																												run: (*parser).callonListContinuationElement773,
+																												run: (*parser).callonListContinuationElement779,
 																												expr: &seqExpr{
 																													pos: position{line: 784, col: 16, offset: 25200},
 																													exprs: []interface{}{
@@ -33289,10 +33429,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 786, col: 8, offset: 25291},
 																											expr: &actionExpr{
-																												pos: position{line: 2909, col: 10, offset: 91792},
-																												run: (*parser).callonListContinuationElement779,
+																												pos: position{line: 2910, col: 10, offset: 91824},
+																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2909, col: 10, offset: 91792},
+																													pos:        position{line: 2910, col: 10, offset: 91824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33301,28 +33441,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2931, col: 8, offset: 92190},
+																											pos: position{line: 2932, col: 8, offset: 92222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2918, col: 12, offset: 91963},
-																													run: (*parser).callonListContinuationElement782,
+																													pos: position{line: 2919, col: 12, offset: 91995},
+																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2918, col: 13, offset: 91964},
+																														pos: position{line: 2919, col: 13, offset: 91996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 13, offset: 91964},
+																																pos:        position{line: 2919, col: 13, offset: 91996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 20, offset: 91971},
+																																pos:        position{line: 2919, col: 20, offset: 92003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 29, offset: 91980},
+																																pos:        position{line: 2919, col: 29, offset: 92012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33331,9 +33471,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2928, col: 8, offset: 92140},
+																													pos: position{line: 2929, col: 8, offset: 92172},
 																													expr: &anyMatcher{
-																														line: 2928, col: 9, offset: 92141,
+																														line: 2929, col: 9, offset: 92173,
 																													},
 																												},
 																											},
@@ -33344,14 +33484,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 938, col: 5, offset: 29456},
-																							run: (*parser).callonListContinuationElement789,
+																							run: (*parser).callonListContinuationElement795,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -33362,26 +33502,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 812, col: 5, offset: 26185},
-																			run: (*parser).callonListContinuationElement793,
+																			run: (*parser).callonListContinuationElement799,
 																			expr: &seqExpr{
 																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2926, col: 11, offset: 92126},
+																						pos: position{line: 2927, col: 11, offset: 92158},
 																						expr: &anyMatcher{
-																							line: 2926, col: 13, offset: 92128,
+																							line: 2927, col: 13, offset: 92160,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2855, col: 13, offset: 90318},
-																							run: (*parser).callonListContinuationElement798,
+																							pos: position{line: 2856, col: 13, offset: 90350},
+																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2855, col: 13, offset: 90318},
+																								pos: position{line: 2856, col: 13, offset: 90350},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2855, col: 13, offset: 90318},
+																									pos:        position{line: 2856, col: 13, offset: 90350},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33391,28 +33531,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2931, col: 8, offset: 92190},
+																						pos: position{line: 2932, col: 8, offset: 92222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2918, col: 12, offset: 91963},
-																								run: (*parser).callonListContinuationElement802,
+																								pos: position{line: 2919, col: 12, offset: 91995},
+																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2918, col: 13, offset: 91964},
+																									pos: position{line: 2919, col: 13, offset: 91996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 13, offset: 91964},
+																											pos:        position{line: 2919, col: 13, offset: 91996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 20, offset: 91971},
+																											pos:        position{line: 2919, col: 20, offset: 92003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 29, offset: 91980},
+																											pos:        position{line: 2919, col: 29, offset: 92012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33421,9 +33561,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2928, col: 8, offset: 92140},
+																								pos: position{line: 2929, col: 8, offset: 92172},
 																								expr: &anyMatcher{
-																									line: 2928, col: 9, offset: 92141,
+																									line: 2929, col: 9, offset: 92173,
 																								},
 																							},
 																						},
@@ -33453,7 +33593,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 784, col: 5, offset: 25189},
-																				run: (*parser).callonListContinuationElement814,
+																				run: (*parser).callonListContinuationElement820,
 																				expr: &seqExpr{
 																					pos: position{line: 784, col: 5, offset: 25189},
 																					exprs: []interface{}{
@@ -33462,7 +33602,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 784, col: 16, offset: 25200},
-																								run: (*parser).callonListContinuationElement817,
+																								run: (*parser).callonListContinuationElement823,
 																								expr: &seqExpr{
 																									pos: position{line: 784, col: 16, offset: 25200},
 																									exprs: []interface{}{
@@ -33488,10 +33628,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 786, col: 8, offset: 25291},
 																							expr: &actionExpr{
-																								pos: position{line: 2909, col: 10, offset: 91792},
-																								run: (*parser).callonListContinuationElement823,
+																								pos: position{line: 2910, col: 10, offset: 91824},
+																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 10, offset: 91792},
+																									pos:        position{line: 2910, col: 10, offset: 91824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33500,28 +33640,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
-																									run: (*parser).callonListContinuationElement826,
+																									pos: position{line: 2919, col: 12, offset: 91995},
+																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33530,9 +33670,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -33543,14 +33683,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 938, col: 5, offset: 29456},
-																			run: (*parser).callonListContinuationElement833,
+																			run: (*parser).callonListContinuationElement839,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2928, col: 8, offset: 92140},
+																	pos: position{line: 2929, col: 8, offset: 92172},
 																	expr: &anyMatcher{
-																		line: 2928, col: 9, offset: 92141,
+																		line: 2929, col: 9, offset: 92173,
 																	},
 																},
 															},
@@ -33562,7 +33702,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 976, col: 5, offset: 30497},
-										run: (*parser).callonListContinuationElement836,
+										run: (*parser).callonListContinuationElement842,
 										expr: &seqExpr{
 											pos: position{line: 976, col: 5, offset: 30497},
 											exprs: []interface{}{
@@ -33571,7 +33711,7 @@ var g = &grammar{
 													label: "firstLine",
 													expr: &actionExpr{
 														pos: position{line: 983, col: 5, offset: 30756},
-														run: (*parser).callonListContinuationElement839,
+														run: (*parser).callonListContinuationElement845,
 														expr: &seqExpr{
 															pos: position{line: 983, col: 5, offset: 30756},
 															exprs: []interface{}{
@@ -33579,23 +33719,23 @@ var g = &grammar{
 																	pos: position{line: 983, col: 5, offset: 30756},
 																	expr: &actionExpr{
 																		pos: position{line: 678, col: 14, offset: 21586},
-																		run: (*parser).callonListContinuationElement842,
+																		run: (*parser).callonListContinuationElement848,
 																		expr: &seqExpr{
 																			pos: position{line: 678, col: 14, offset: 21586},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2926, col: 11, offset: 92126},
+																					pos: position{line: 2927, col: 11, offset: 92158},
 																					expr: &anyMatcher{
-																						line: 2926, col: 13, offset: 92128,
+																						line: 2927, col: 13, offset: 92160,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 678, col: 21, offset: 21593},
 																					expr: &actionExpr{
-																						pos: position{line: 2909, col: 10, offset: 91792},
-																						run: (*parser).callonListContinuationElement847,
+																						pos: position{line: 2910, col: 10, offset: 91824},
+																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 91792},
+																							pos:        position{line: 2910, col: 10, offset: 91824},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33604,28 +33744,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2931, col: 8, offset: 92190},
+																					pos: position{line: 2932, col: 8, offset: 92222},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2918, col: 12, offset: 91963},
-																							run: (*parser).callonListContinuationElement850,
+																							pos: position{line: 2919, col: 12, offset: 91995},
+																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2918, col: 13, offset: 91964},
+																								pos: position{line: 2919, col: 13, offset: 91996},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 13, offset: 91964},
+																										pos:        position{line: 2919, col: 13, offset: 91996},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 20, offset: 91971},
+																										pos:        position{line: 2919, col: 20, offset: 92003},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 29, offset: 91980},
+																										pos:        position{line: 2919, col: 29, offset: 92012},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33634,9 +33774,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2928, col: 8, offset: 92140},
+																							pos: position{line: 2929, col: 8, offset: 92172},
 																							expr: &anyMatcher{
-																								line: 2928, col: 9, offset: 92141,
+																								line: 2929, col: 9, offset: 92173,
 																							},
 																						},
 																					},
@@ -33655,12 +33795,12 @@ var g = &grammar{
 																	pos:   position{line: 985, col: 5, offset: 30781},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2859, col: 14, offset: 90385},
-																		run: (*parser).callonListContinuationElement859,
+																		pos: position{line: 2860, col: 14, offset: 90417},
+																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2859, col: 14, offset: 90385},
+																			pos: position{line: 2860, col: 14, offset: 90417},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2859, col: 14, offset: 90385},
+																				pos:        position{line: 2860, col: 14, offset: 90417},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33670,28 +33810,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2931, col: 8, offset: 92190},
+																	pos: position{line: 2932, col: 8, offset: 92222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2918, col: 12, offset: 91963},
-																			run: (*parser).callonListContinuationElement863,
+																			pos: position{line: 2919, col: 12, offset: 91995},
+																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2918, col: 13, offset: 91964},
+																				pos: position{line: 2919, col: 13, offset: 91996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 13, offset: 91964},
+																						pos:        position{line: 2919, col: 13, offset: 91996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 20, offset: 91971},
+																						pos:        position{line: 2919, col: 20, offset: 92003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 29, offset: 91980},
+																						pos:        position{line: 2919, col: 29, offset: 92012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33700,9 +33840,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2928, col: 8, offset: 92140},
+																			pos: position{line: 2929, col: 8, offset: 92172},
 																			expr: &anyMatcher{
-																				line: 2928, col: 9, offset: 92141,
+																				line: 2929, col: 9, offset: 92173,
 																			},
 																		},
 																	},
@@ -33721,7 +33861,7 @@ var g = &grammar{
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 983, col: 5, offset: 30756},
-																	run: (*parser).callonListContinuationElement873,
+																	run: (*parser).callonListContinuationElement879,
 																	expr: &seqExpr{
 																		pos: position{line: 983, col: 5, offset: 30756},
 																		exprs: []interface{}{
@@ -33729,23 +33869,23 @@ var g = &grammar{
 																				pos: position{line: 983, col: 5, offset: 30756},
 																				expr: &actionExpr{
 																					pos: position{line: 678, col: 14, offset: 21586},
-																					run: (*parser).callonListContinuationElement876,
+																					run: (*parser).callonListContinuationElement882,
 																					expr: &seqExpr{
 																						pos: position{line: 678, col: 14, offset: 21586},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2926, col: 11, offset: 92126},
+																								pos: position{line: 2927, col: 11, offset: 92158},
 																								expr: &anyMatcher{
-																									line: 2926, col: 13, offset: 92128,
+																									line: 2927, col: 13, offset: 92160,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 678, col: 21, offset: 21593},
 																								expr: &actionExpr{
-																									pos: position{line: 2909, col: 10, offset: 91792},
-																									run: (*parser).callonListContinuationElement881,
+																									pos: position{line: 2910, col: 10, offset: 91824},
+																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2909, col: 10, offset: 91792},
+																										pos:        position{line: 2910, col: 10, offset: 91824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33754,28 +33894,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2931, col: 8, offset: 92190},
+																								pos: position{line: 2932, col: 8, offset: 92222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2918, col: 12, offset: 91963},
-																										run: (*parser).callonListContinuationElement884,
+																										pos: position{line: 2919, col: 12, offset: 91995},
+																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2918, col: 13, offset: 91964},
+																											pos: position{line: 2919, col: 13, offset: 91996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 13, offset: 91964},
+																													pos:        position{line: 2919, col: 13, offset: 91996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 20, offset: 91971},
+																													pos:        position{line: 2919, col: 20, offset: 92003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 29, offset: 91980},
+																													pos:        position{line: 2919, col: 29, offset: 92012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33784,9 +33924,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2928, col: 8, offset: 92140},
+																										pos: position{line: 2929, col: 8, offset: 92172},
 																										expr: &anyMatcher{
-																											line: 2928, col: 9, offset: 92141,
+																											line: 2929, col: 9, offset: 92173,
 																										},
 																									},
 																								},
@@ -33805,12 +33945,12 @@ var g = &grammar{
 																				pos:   position{line: 985, col: 5, offset: 30781},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2859, col: 14, offset: 90385},
-																					run: (*parser).callonListContinuationElement893,
+																					pos: position{line: 2860, col: 14, offset: 90417},
+																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2859, col: 14, offset: 90385},
+																						pos: position{line: 2860, col: 14, offset: 90417},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2859, col: 14, offset: 90385},
+																							pos:        position{line: 2860, col: 14, offset: 90417},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33820,28 +33960,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2931, col: 8, offset: 92190},
+																				pos: position{line: 2932, col: 8, offset: 92222},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2918, col: 12, offset: 91963},
-																						run: (*parser).callonListContinuationElement897,
+																						pos: position{line: 2919, col: 12, offset: 91995},
+																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2918, col: 13, offset: 91964},
+																							pos: position{line: 2919, col: 13, offset: 91996},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2918, col: 13, offset: 91964},
+																									pos:        position{line: 2919, col: 13, offset: 91996},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2918, col: 20, offset: 91971},
+																									pos:        position{line: 2919, col: 20, offset: 92003},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2918, col: 29, offset: 91980},
+																									pos:        position{line: 2919, col: 29, offset: 92012},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33850,9 +33990,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2928, col: 8, offset: 92140},
+																						pos: position{line: 2929, col: 8, offset: 92172},
 																						expr: &anyMatcher{
-																							line: 2928, col: 9, offset: 92141,
+																							line: 2929, col: 9, offset: 92173,
 																						},
 																					},
 																				},
@@ -33861,21 +34001,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1791, col: 5, offset: 57852},
-																	run: (*parser).callonListContinuationElement904,
+																	pos: position{line: 1792, col: 5, offset: 57884},
+																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 1791, col: 5, offset: 57852},
+																		pos: position{line: 1792, col: 5, offset: 57884},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1791, col: 5, offset: 57852},
+																				pos:   position{line: 1792, col: 5, offset: 57884},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2859, col: 14, offset: 90385},
-																					run: (*parser).callonListContinuationElement907,
+																					pos: position{line: 2860, col: 14, offset: 90417},
+																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2859, col: 14, offset: 90385},
+																						pos: position{line: 2860, col: 14, offset: 90417},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2859, col: 14, offset: 90385},
+																							pos:        position{line: 2860, col: 14, offset: 90417},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33885,32 +34025,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1792, col: 5, offset: 57876},
-																				run: (*parser).callonListContinuationElement910,
+																				pos: position{line: 1793, col: 5, offset: 57908},
+																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2931, col: 8, offset: 92190},
+																				pos: position{line: 2932, col: 8, offset: 92222},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2918, col: 12, offset: 91963},
-																						run: (*parser).callonListContinuationElement912,
+																						pos: position{line: 2919, col: 12, offset: 91995},
+																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2918, col: 13, offset: 91964},
+																							pos: position{line: 2919, col: 13, offset: 91996},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2918, col: 13, offset: 91964},
+																									pos:        position{line: 2919, col: 13, offset: 91996},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2918, col: 20, offset: 91971},
+																									pos:        position{line: 2919, col: 20, offset: 92003},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2918, col: 29, offset: 91980},
+																									pos:        position{line: 2919, col: 29, offset: 92012},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33919,9 +34059,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2928, col: 8, offset: 92140},
+																						pos: position{line: 2929, col: 8, offset: 92172},
 																						expr: &anyMatcher{
-																							line: 2928, col: 9, offset: 92141,
+																							line: 2929, col: 9, offset: 92173,
 																						},
 																					},
 																				},
@@ -33938,7 +34078,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 998, col: 5, offset: 31046},
-										run: (*parser).callonListContinuationElement919,
+										run: (*parser).callonListContinuationElement925,
 										expr: &seqExpr{
 											pos: position{line: 998, col: 5, offset: 31046},
 											exprs: []interface{}{
@@ -33947,7 +34087,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 777, col: 5, offset: 24958},
-														run: (*parser).callonListContinuationElement922,
+														run: (*parser).callonListContinuationElement928,
 														expr: &seqExpr{
 															pos: position{line: 777, col: 5, offset: 24958},
 															exprs: []interface{}{
@@ -33956,7 +34096,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 777, col: 16, offset: 24969},
-																		run: (*parser).callonListContinuationElement925,
+																		run: (*parser).callonListContinuationElement931,
 																		expr: &litMatcher{
 																			pos:        position{line: 777, col: 16, offset: 24969},
 																			val:        "--",
@@ -33968,10 +34108,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 779, col: 8, offset: 25046},
 																	expr: &actionExpr{
-																		pos: position{line: 2909, col: 10, offset: 91792},
-																		run: (*parser).callonListContinuationElement928,
+																		pos: position{line: 2910, col: 10, offset: 91824},
+																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 10, offset: 91792},
+																			pos:        position{line: 2910, col: 10, offset: 91824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33980,28 +34120,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2931, col: 8, offset: 92190},
+																	pos: position{line: 2932, col: 8, offset: 92222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2918, col: 12, offset: 91963},
-																			run: (*parser).callonListContinuationElement931,
+																			pos: position{line: 2919, col: 12, offset: 91995},
+																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2918, col: 13, offset: 91964},
+																				pos: position{line: 2919, col: 13, offset: 91996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 13, offset: 91964},
+																						pos:        position{line: 2919, col: 13, offset: 91996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 20, offset: 91971},
+																						pos:        position{line: 2919, col: 20, offset: 92003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 29, offset: 91980},
+																						pos:        position{line: 2919, col: 29, offset: 92012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34010,9 +34150,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2928, col: 8, offset: 92140},
+																			pos: position{line: 2929, col: 8, offset: 92172},
 																			expr: &anyMatcher{
-																				line: 2928, col: 9, offset: 92141,
+																				line: 2929, col: 9, offset: 92173,
 																			},
 																		},
 																	},
@@ -34028,7 +34168,7 @@ var g = &grammar{
 														pos: position{line: 1009, col: 5, offset: 31350},
 														expr: &actionExpr{
 															pos: position{line: 1009, col: 6, offset: 31351},
-															run: (*parser).callonListContinuationElement940,
+															run: (*parser).callonListContinuationElement946,
 															expr: &seqExpr{
 																pos: position{line: 1009, col: 6, offset: 31351},
 																exprs: []interface{}{
@@ -34039,7 +34179,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 777, col: 5, offset: 24958},
-																					run: (*parser).callonListContinuationElement944,
+																					run: (*parser).callonListContinuationElement950,
 																					expr: &seqExpr{
 																						pos: position{line: 777, col: 5, offset: 24958},
 																						exprs: []interface{}{
@@ -34048,7 +34188,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 777, col: 16, offset: 24969},
-																									run: (*parser).callonListContinuationElement947,
+																									run: (*parser).callonListContinuationElement953,
 																									expr: &litMatcher{
 																										pos:        position{line: 777, col: 16, offset: 24969},
 																										val:        "--",
@@ -34060,10 +34200,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 779, col: 8, offset: 25046},
 																								expr: &actionExpr{
-																									pos: position{line: 2909, col: 10, offset: 91792},
-																									run: (*parser).callonListContinuationElement950,
+																									pos: position{line: 2910, col: 10, offset: 91824},
+																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2909, col: 10, offset: 91792},
+																										pos:        position{line: 2910, col: 10, offset: 91824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34072,28 +34212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2931, col: 8, offset: 92190},
+																								pos: position{line: 2932, col: 8, offset: 92222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2918, col: 12, offset: 91963},
-																										run: (*parser).callonListContinuationElement953,
+																										pos: position{line: 2919, col: 12, offset: 91995},
+																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2918, col: 13, offset: 91964},
+																											pos: position{line: 2919, col: 13, offset: 91996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 13, offset: 91964},
+																													pos:        position{line: 2919, col: 13, offset: 91996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 20, offset: 91971},
+																													pos:        position{line: 2919, col: 20, offset: 92003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2918, col: 29, offset: 91980},
+																													pos:        position{line: 2919, col: 29, offset: 92012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34102,9 +34242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2928, col: 8, offset: 92140},
+																										pos: position{line: 2929, col: 8, offset: 92172},
 																										expr: &anyMatcher{
-																											line: 2928, col: 9, offset: 92141,
+																											line: 2929, col: 9, offset: 92173,
 																										},
 																									},
 																								},
@@ -34113,9 +34253,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -34126,26 +34266,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 812, col: 5, offset: 26185},
-																			run: (*parser).callonListContinuationElement963,
+																			run: (*parser).callonListContinuationElement969,
 																			expr: &seqExpr{
 																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2926, col: 11, offset: 92126},
+																						pos: position{line: 2927, col: 11, offset: 92158},
 																						expr: &anyMatcher{
-																							line: 2926, col: 13, offset: 92128,
+																							line: 2927, col: 13, offset: 92160,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2855, col: 13, offset: 90318},
-																							run: (*parser).callonListContinuationElement968,
+																							pos: position{line: 2856, col: 13, offset: 90350},
+																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2855, col: 13, offset: 90318},
+																								pos: position{line: 2856, col: 13, offset: 90350},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2855, col: 13, offset: 90318},
+																									pos:        position{line: 2856, col: 13, offset: 90350},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34155,28 +34295,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2931, col: 8, offset: 92190},
+																						pos: position{line: 2932, col: 8, offset: 92222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2918, col: 12, offset: 91963},
-																								run: (*parser).callonListContinuationElement972,
+																								pos: position{line: 2919, col: 12, offset: 91995},
+																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2918, col: 13, offset: 91964},
+																									pos: position{line: 2919, col: 13, offset: 91996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 13, offset: 91964},
+																											pos:        position{line: 2919, col: 13, offset: 91996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 20, offset: 91971},
+																											pos:        position{line: 2919, col: 20, offset: 92003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 29, offset: 91980},
+																											pos:        position{line: 2919, col: 29, offset: 92012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34185,9 +34325,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2928, col: 8, offset: 92140},
+																								pos: position{line: 2929, col: 8, offset: 92172},
 																								expr: &anyMatcher{
-																									line: 2928, col: 9, offset: 92141,
+																									line: 2929, col: 9, offset: 92173,
 																								},
 																							},
 																						},
@@ -34211,7 +34351,7 @@ var g = &grammar{
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 777, col: 5, offset: 24958},
-																	run: (*parser).callonListContinuationElement982,
+																	run: (*parser).callonListContinuationElement988,
 																	expr: &seqExpr{
 																		pos: position{line: 777, col: 5, offset: 24958},
 																		exprs: []interface{}{
@@ -34220,7 +34360,7 @@ var g = &grammar{
 																				label: "delimiter",
 																				expr: &actionExpr{
 																					pos: position{line: 777, col: 16, offset: 24969},
-																					run: (*parser).callonListContinuationElement985,
+																					run: (*parser).callonListContinuationElement991,
 																					expr: &litMatcher{
 																						pos:        position{line: 777, col: 16, offset: 24969},
 																						val:        "--",
@@ -34232,10 +34372,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 779, col: 8, offset: 25046},
 																				expr: &actionExpr{
-																					pos: position{line: 2909, col: 10, offset: 91792},
-																					run: (*parser).callonListContinuationElement988,
+																					pos: position{line: 2910, col: 10, offset: 91824},
+																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2909, col: 10, offset: 91792},
+																						pos:        position{line: 2910, col: 10, offset: 91824},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34244,28 +34384,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2931, col: 8, offset: 92190},
+																				pos: position{line: 2932, col: 8, offset: 92222},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2918, col: 12, offset: 91963},
-																						run: (*parser).callonListContinuationElement991,
+																						pos: position{line: 2919, col: 12, offset: 91995},
+																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2918, col: 13, offset: 91964},
+																							pos: position{line: 2919, col: 13, offset: 91996},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2918, col: 13, offset: 91964},
+																									pos:        position{line: 2919, col: 13, offset: 91996},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2918, col: 20, offset: 91971},
+																									pos:        position{line: 2919, col: 20, offset: 92003},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2918, col: 29, offset: 91980},
+																									pos:        position{line: 2919, col: 29, offset: 92012},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34274,9 +34414,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2928, col: 8, offset: 92140},
+																						pos: position{line: 2929, col: 8, offset: 92172},
 																						expr: &anyMatcher{
-																							line: 2928, col: 9, offset: 92141,
+																							line: 2929, col: 9, offset: 92173,
 																						},
 																					},
 																				},
@@ -34285,9 +34425,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2928, col: 8, offset: 92140},
+																	pos: position{line: 2929, col: 8, offset: 92172},
 																	expr: &anyMatcher{
-																		line: 2928, col: 9, offset: 92141,
+																		line: 2929, col: 9, offset: 92173,
 																	},
 																},
 															},
@@ -34299,7 +34439,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1018, col: 5, offset: 31541},
-										run: (*parser).callonListContinuationElement1000,
+										run: (*parser).callonListContinuationElement1006,
 										expr: &seqExpr{
 											pos: position{line: 1018, col: 5, offset: 31541},
 											exprs: []interface{}{
@@ -34308,7 +34448,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 791, col: 5, offset: 25441},
-														run: (*parser).callonListContinuationElement1003,
+														run: (*parser).callonListContinuationElement1009,
 														expr: &seqExpr{
 															pos: position{line: 791, col: 5, offset: 25441},
 															exprs: []interface{}{
@@ -34317,7 +34457,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 791, col: 16, offset: 25452},
-																		run: (*parser).callonListContinuationElement1006,
+																		run: (*parser).callonListContinuationElement1012,
 																		expr: &seqExpr{
 																			pos: position{line: 791, col: 16, offset: 25452},
 																			exprs: []interface{}{
@@ -34343,10 +34483,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 793, col: 8, offset: 25543},
 																	expr: &actionExpr{
-																		pos: position{line: 2909, col: 10, offset: 91792},
-																		run: (*parser).callonListContinuationElement1012,
+																		pos: position{line: 2910, col: 10, offset: 91824},
+																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 10, offset: 91792},
+																			pos:        position{line: 2910, col: 10, offset: 91824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34355,28 +34495,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2931, col: 8, offset: 92190},
+																	pos: position{line: 2932, col: 8, offset: 92222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2918, col: 12, offset: 91963},
-																			run: (*parser).callonListContinuationElement1015,
+																			pos: position{line: 2919, col: 12, offset: 91995},
+																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2918, col: 13, offset: 91964},
+																				pos: position{line: 2919, col: 13, offset: 91996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 13, offset: 91964},
+																						pos:        position{line: 2919, col: 13, offset: 91996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 20, offset: 91971},
+																						pos:        position{line: 2919, col: 20, offset: 92003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 29, offset: 91980},
+																						pos:        position{line: 2919, col: 29, offset: 92012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34385,9 +34525,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2928, col: 8, offset: 92140},
+																			pos: position{line: 2929, col: 8, offset: 92172},
 																			expr: &anyMatcher{
-																				line: 2928, col: 9, offset: 92141,
+																				line: 2929, col: 9, offset: 92173,
 																			},
 																		},
 																	},
@@ -34398,7 +34538,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1019, col: 5, offset: 31584},
-													run: (*parser).callonListContinuationElement1022,
+													run: (*parser).callonListContinuationElement1028,
 												},
 												&labeledExpr{
 													pos:   position{line: 1022, col: 5, offset: 31676},
@@ -34407,7 +34547,7 @@ var g = &grammar{
 														pos: position{line: 1037, col: 5, offset: 32106},
 														expr: &actionExpr{
 															pos: position{line: 1037, col: 6, offset: 32107},
-															run: (*parser).callonListContinuationElement1025,
+															run: (*parser).callonListContinuationElement1031,
 															expr: &seqExpr{
 																pos: position{line: 1037, col: 6, offset: 32107},
 																exprs: []interface{}{
@@ -34424,7 +34564,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 791, col: 5, offset: 25441},
-																								run: (*parser).callonListContinuationElement1031,
+																								run: (*parser).callonListContinuationElement1037,
 																								expr: &seqExpr{
 																									pos: position{line: 791, col: 5, offset: 25441},
 																									exprs: []interface{}{
@@ -34433,7 +34573,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 791, col: 16, offset: 25452},
-																												run: (*parser).callonListContinuationElement1034,
+																												run: (*parser).callonListContinuationElement1040,
 																												expr: &seqExpr{
 																													pos: position{line: 791, col: 16, offset: 25452},
 																													exprs: []interface{}{
@@ -34459,10 +34599,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 793, col: 8, offset: 25543},
 																											expr: &actionExpr{
-																												pos: position{line: 2909, col: 10, offset: 91792},
-																												run: (*parser).callonListContinuationElement1040,
+																												pos: position{line: 2910, col: 10, offset: 91824},
+																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2909, col: 10, offset: 91792},
+																													pos:        position{line: 2910, col: 10, offset: 91824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34471,28 +34611,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2931, col: 8, offset: 92190},
+																											pos: position{line: 2932, col: 8, offset: 92222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2918, col: 12, offset: 91963},
-																													run: (*parser).callonListContinuationElement1043,
+																													pos: position{line: 2919, col: 12, offset: 91995},
+																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2918, col: 13, offset: 91964},
+																														pos: position{line: 2919, col: 13, offset: 91996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 13, offset: 91964},
+																																pos:        position{line: 2919, col: 13, offset: 91996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 20, offset: 91971},
+																																pos:        position{line: 2919, col: 20, offset: 92003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 29, offset: 91980},
+																																pos:        position{line: 2919, col: 29, offset: 92012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34501,9 +34641,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2928, col: 8, offset: 92140},
+																													pos: position{line: 2929, col: 8, offset: 92172},
 																													expr: &anyMatcher{
-																														line: 2928, col: 9, offset: 92141,
+																														line: 2929, col: 9, offset: 92173,
 																													},
 																												},
 																											},
@@ -34514,14 +34654,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1031, col: 5, offset: 31975},
-																							run: (*parser).callonListContinuationElement1050,
+																							run: (*parser).callonListContinuationElement1056,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -34532,26 +34672,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 812, col: 5, offset: 26185},
-																			run: (*parser).callonListContinuationElement1054,
+																			run: (*parser).callonListContinuationElement1060,
 																			expr: &seqExpr{
 																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2926, col: 11, offset: 92126},
+																						pos: position{line: 2927, col: 11, offset: 92158},
 																						expr: &anyMatcher{
-																							line: 2926, col: 13, offset: 92128,
+																							line: 2927, col: 13, offset: 92160,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2855, col: 13, offset: 90318},
-																							run: (*parser).callonListContinuationElement1059,
+																							pos: position{line: 2856, col: 13, offset: 90350},
+																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2855, col: 13, offset: 90318},
+																								pos: position{line: 2856, col: 13, offset: 90350},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2855, col: 13, offset: 90318},
+																									pos:        position{line: 2856, col: 13, offset: 90350},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34561,28 +34701,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2931, col: 8, offset: 92190},
+																						pos: position{line: 2932, col: 8, offset: 92222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2918, col: 12, offset: 91963},
-																								run: (*parser).callonListContinuationElement1063,
+																								pos: position{line: 2919, col: 12, offset: 91995},
+																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2918, col: 13, offset: 91964},
+																									pos: position{line: 2919, col: 13, offset: 91996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 13, offset: 91964},
+																											pos:        position{line: 2919, col: 13, offset: 91996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 20, offset: 91971},
+																											pos:        position{line: 2919, col: 20, offset: 92003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 29, offset: 91980},
+																											pos:        position{line: 2919, col: 29, offset: 92012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34591,9 +34731,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2928, col: 8, offset: 92140},
+																								pos: position{line: 2929, col: 8, offset: 92172},
 																								expr: &anyMatcher{
-																									line: 2928, col: 9, offset: 92141,
+																									line: 2929, col: 9, offset: 92173,
 																								},
 																							},
 																						},
@@ -34623,7 +34763,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 791, col: 5, offset: 25441},
-																				run: (*parser).callonListContinuationElement1075,
+																				run: (*parser).callonListContinuationElement1081,
 																				expr: &seqExpr{
 																					pos: position{line: 791, col: 5, offset: 25441},
 																					exprs: []interface{}{
@@ -34632,7 +34772,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 791, col: 16, offset: 25452},
-																								run: (*parser).callonListContinuationElement1078,
+																								run: (*parser).callonListContinuationElement1084,
 																								expr: &seqExpr{
 																									pos: position{line: 791, col: 16, offset: 25452},
 																									exprs: []interface{}{
@@ -34658,10 +34798,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 793, col: 8, offset: 25543},
 																							expr: &actionExpr{
-																								pos: position{line: 2909, col: 10, offset: 91792},
-																								run: (*parser).callonListContinuationElement1084,
+																								pos: position{line: 2910, col: 10, offset: 91824},
+																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 10, offset: 91792},
+																									pos:        position{line: 2910, col: 10, offset: 91824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34670,28 +34810,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
-																									run: (*parser).callonListContinuationElement1087,
+																									pos: position{line: 2919, col: 12, offset: 91995},
+																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34700,9 +34840,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -34713,14 +34853,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 1031, col: 5, offset: 31975},
-																			run: (*parser).callonListContinuationElement1094,
+																			run: (*parser).callonListContinuationElement1100,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2928, col: 8, offset: 92140},
+																	pos: position{line: 2929, col: 8, offset: 92172},
 																	expr: &anyMatcher{
-																		line: 2928, col: 9, offset: 92141,
+																		line: 2929, col: 9, offset: 92173,
 																	},
 																},
 															},
@@ -34732,7 +34872,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1046, col: 5, offset: 32292},
-										run: (*parser).callonListContinuationElement1097,
+										run: (*parser).callonListContinuationElement1103,
 										expr: &seqExpr{
 											pos: position{line: 1046, col: 5, offset: 32292},
 											exprs: []interface{}{
@@ -34741,7 +34881,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 798, col: 5, offset: 25691},
-														run: (*parser).callonListContinuationElement1100,
+														run: (*parser).callonListContinuationElement1106,
 														expr: &seqExpr{
 															pos: position{line: 798, col: 5, offset: 25691},
 															exprs: []interface{}{
@@ -34750,7 +34890,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 798, col: 16, offset: 25702},
-																		run: (*parser).callonListContinuationElement1103,
+																		run: (*parser).callonListContinuationElement1109,
 																		expr: &seqExpr{
 																			pos: position{line: 798, col: 16, offset: 25702},
 																			exprs: []interface{}{
@@ -34776,10 +34916,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 800, col: 8, offset: 25793},
 																	expr: &actionExpr{
-																		pos: position{line: 2909, col: 10, offset: 91792},
-																		run: (*parser).callonListContinuationElement1109,
+																		pos: position{line: 2910, col: 10, offset: 91824},
+																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 10, offset: 91792},
+																			pos:        position{line: 2910, col: 10, offset: 91824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34788,28 +34928,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2931, col: 8, offset: 92190},
+																	pos: position{line: 2932, col: 8, offset: 92222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2918, col: 12, offset: 91963},
-																			run: (*parser).callonListContinuationElement1112,
+																			pos: position{line: 2919, col: 12, offset: 91995},
+																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2918, col: 13, offset: 91964},
+																				pos: position{line: 2919, col: 13, offset: 91996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 13, offset: 91964},
+																						pos:        position{line: 2919, col: 13, offset: 91996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 20, offset: 91971},
+																						pos:        position{line: 2919, col: 20, offset: 92003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 29, offset: 91980},
+																						pos:        position{line: 2919, col: 29, offset: 92012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34818,9 +34958,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2928, col: 8, offset: 92140},
+																			pos: position{line: 2929, col: 8, offset: 92172},
 																			expr: &anyMatcher{
-																				line: 2928, col: 9, offset: 92141,
+																				line: 2929, col: 9, offset: 92173,
 																			},
 																		},
 																	},
@@ -34831,7 +34971,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1047, col: 5, offset: 32329},
-													run: (*parser).callonListContinuationElement1119,
+													run: (*parser).callonListContinuationElement1125,
 												},
 												&labeledExpr{
 													pos:   position{line: 1050, col: 5, offset: 32421},
@@ -34840,7 +34980,7 @@ var g = &grammar{
 														pos: position{line: 1065, col: 4, offset: 32802},
 														expr: &actionExpr{
 															pos: position{line: 1065, col: 5, offset: 32803},
-															run: (*parser).callonListContinuationElement1122,
+															run: (*parser).callonListContinuationElement1128,
 															expr: &seqExpr{
 																pos: position{line: 1065, col: 5, offset: 32803},
 																exprs: []interface{}{
@@ -34857,7 +34997,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 798, col: 5, offset: 25691},
-																								run: (*parser).callonListContinuationElement1128,
+																								run: (*parser).callonListContinuationElement1134,
 																								expr: &seqExpr{
 																									pos: position{line: 798, col: 5, offset: 25691},
 																									exprs: []interface{}{
@@ -34866,7 +35006,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 798, col: 16, offset: 25702},
-																												run: (*parser).callonListContinuationElement1131,
+																												run: (*parser).callonListContinuationElement1137,
 																												expr: &seqExpr{
 																													pos: position{line: 798, col: 16, offset: 25702},
 																													exprs: []interface{}{
@@ -34892,10 +35032,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 800, col: 8, offset: 25793},
 																											expr: &actionExpr{
-																												pos: position{line: 2909, col: 10, offset: 91792},
-																												run: (*parser).callonListContinuationElement1137,
+																												pos: position{line: 2910, col: 10, offset: 91824},
+																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2909, col: 10, offset: 91792},
+																													pos:        position{line: 2910, col: 10, offset: 91824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34904,28 +35044,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2931, col: 8, offset: 92190},
+																											pos: position{line: 2932, col: 8, offset: 92222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2918, col: 12, offset: 91963},
-																													run: (*parser).callonListContinuationElement1140,
+																													pos: position{line: 2919, col: 12, offset: 91995},
+																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2918, col: 13, offset: 91964},
+																														pos: position{line: 2919, col: 13, offset: 91996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 13, offset: 91964},
+																																pos:        position{line: 2919, col: 13, offset: 91996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 20, offset: 91971},
+																																pos:        position{line: 2919, col: 20, offset: 92003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 29, offset: 91980},
+																																pos:        position{line: 2919, col: 29, offset: 92012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34934,9 +35074,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2928, col: 8, offset: 92140},
+																													pos: position{line: 2929, col: 8, offset: 92172},
 																													expr: &anyMatcher{
-																														line: 2928, col: 9, offset: 92141,
+																														line: 2929, col: 9, offset: 92173,
 																													},
 																												},
 																											},
@@ -34947,14 +35087,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1059, col: 5, offset: 32678},
-																							run: (*parser).callonListContinuationElement1147,
+																							run: (*parser).callonListContinuationElement1153,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -34965,26 +35105,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 812, col: 5, offset: 26185},
-																			run: (*parser).callonListContinuationElement1151,
+																			run: (*parser).callonListContinuationElement1157,
 																			expr: &seqExpr{
 																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2926, col: 11, offset: 92126},
+																						pos: position{line: 2927, col: 11, offset: 92158},
 																						expr: &anyMatcher{
-																							line: 2926, col: 13, offset: 92128,
+																							line: 2927, col: 13, offset: 92160,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2855, col: 13, offset: 90318},
-																							run: (*parser).callonListContinuationElement1156,
+																							pos: position{line: 2856, col: 13, offset: 90350},
+																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2855, col: 13, offset: 90318},
+																								pos: position{line: 2856, col: 13, offset: 90350},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2855, col: 13, offset: 90318},
+																									pos:        position{line: 2856, col: 13, offset: 90350},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34994,28 +35134,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2931, col: 8, offset: 92190},
+																						pos: position{line: 2932, col: 8, offset: 92222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2918, col: 12, offset: 91963},
-																								run: (*parser).callonListContinuationElement1160,
+																								pos: position{line: 2919, col: 12, offset: 91995},
+																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2918, col: 13, offset: 91964},
+																									pos: position{line: 2919, col: 13, offset: 91996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 13, offset: 91964},
+																											pos:        position{line: 2919, col: 13, offset: 91996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 20, offset: 91971},
+																											pos:        position{line: 2919, col: 20, offset: 92003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 29, offset: 91980},
+																											pos:        position{line: 2919, col: 29, offset: 92012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35024,9 +35164,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2928, col: 8, offset: 92140},
+																								pos: position{line: 2929, col: 8, offset: 92172},
 																								expr: &anyMatcher{
-																									line: 2928, col: 9, offset: 92141,
+																									line: 2929, col: 9, offset: 92173,
 																								},
 																							},
 																						},
@@ -35056,7 +35196,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 798, col: 5, offset: 25691},
-																				run: (*parser).callonListContinuationElement1172,
+																				run: (*parser).callonListContinuationElement1178,
 																				expr: &seqExpr{
 																					pos: position{line: 798, col: 5, offset: 25691},
 																					exprs: []interface{}{
@@ -35065,7 +35205,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 798, col: 16, offset: 25702},
-																								run: (*parser).callonListContinuationElement1175,
+																								run: (*parser).callonListContinuationElement1181,
 																								expr: &seqExpr{
 																									pos: position{line: 798, col: 16, offset: 25702},
 																									exprs: []interface{}{
@@ -35091,10 +35231,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 800, col: 8, offset: 25793},
 																							expr: &actionExpr{
-																								pos: position{line: 2909, col: 10, offset: 91792},
-																								run: (*parser).callonListContinuationElement1181,
+																								pos: position{line: 2910, col: 10, offset: 91824},
+																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 10, offset: 91792},
+																									pos:        position{line: 2910, col: 10, offset: 91824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35103,28 +35243,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
-																									run: (*parser).callonListContinuationElement1184,
+																									pos: position{line: 2919, col: 12, offset: 91995},
+																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35133,9 +35273,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -35146,14 +35286,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 1059, col: 5, offset: 32678},
-																			run: (*parser).callonListContinuationElement1191,
+																			run: (*parser).callonListContinuationElement1197,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2928, col: 8, offset: 92140},
+																	pos: position{line: 2929, col: 8, offset: 92172},
 																	expr: &anyMatcher{
-																		line: 2928, col: 9, offset: 92141,
+																		line: 2929, col: 9, offset: 92173,
 																	},
 																},
 															},
@@ -35165,7 +35305,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1074, col: 5, offset: 32986},
-										run: (*parser).callonListContinuationElement1194,
+										run: (*parser).callonListContinuationElement1200,
 										expr: &seqExpr{
 											pos: position{line: 1074, col: 5, offset: 32986},
 											exprs: []interface{}{
@@ -35174,7 +35314,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 805, col: 5, offset: 25937},
-														run: (*parser).callonListContinuationElement1197,
+														run: (*parser).callonListContinuationElement1203,
 														expr: &seqExpr{
 															pos: position{line: 805, col: 5, offset: 25937},
 															exprs: []interface{}{
@@ -35183,7 +35323,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 805, col: 16, offset: 25948},
-																		run: (*parser).callonListContinuationElement1200,
+																		run: (*parser).callonListContinuationElement1206,
 																		expr: &seqExpr{
 																			pos: position{line: 805, col: 16, offset: 25948},
 																			exprs: []interface{}{
@@ -35209,10 +35349,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 807, col: 8, offset: 26039},
 																	expr: &actionExpr{
-																		pos: position{line: 2909, col: 10, offset: 91792},
-																		run: (*parser).callonListContinuationElement1206,
+																		pos: position{line: 2910, col: 10, offset: 91824},
+																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 10, offset: 91792},
+																			pos:        position{line: 2910, col: 10, offset: 91824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35221,28 +35361,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2931, col: 8, offset: 92190},
+																	pos: position{line: 2932, col: 8, offset: 92222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2918, col: 12, offset: 91963},
-																			run: (*parser).callonListContinuationElement1209,
+																			pos: position{line: 2919, col: 12, offset: 91995},
+																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2918, col: 13, offset: 91964},
+																				pos: position{line: 2919, col: 13, offset: 91996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 13, offset: 91964},
+																						pos:        position{line: 2919, col: 13, offset: 91996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 20, offset: 91971},
+																						pos:        position{line: 2919, col: 20, offset: 92003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 29, offset: 91980},
+																						pos:        position{line: 2919, col: 29, offset: 92012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35251,9 +35391,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2928, col: 8, offset: 92140},
+																			pos: position{line: 2929, col: 8, offset: 92172},
 																			expr: &anyMatcher{
-																				line: 2928, col: 9, offset: 92141,
+																				line: 2929, col: 9, offset: 92173,
 																			},
 																		},
 																	},
@@ -35264,7 +35404,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1075, col: 5, offset: 33025},
-													run: (*parser).callonListContinuationElement1216,
+													run: (*parser).callonListContinuationElement1222,
 												},
 												&labeledExpr{
 													pos:   position{line: 1078, col: 5, offset: 33117},
@@ -35273,7 +35413,7 @@ var g = &grammar{
 														pos: position{line: 1093, col: 4, offset: 33514},
 														expr: &actionExpr{
 															pos: position{line: 1093, col: 5, offset: 33515},
-															run: (*parser).callonListContinuationElement1219,
+															run: (*parser).callonListContinuationElement1225,
 															expr: &seqExpr{
 																pos: position{line: 1093, col: 5, offset: 33515},
 																exprs: []interface{}{
@@ -35290,7 +35430,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 805, col: 5, offset: 25937},
-																								run: (*parser).callonListContinuationElement1225,
+																								run: (*parser).callonListContinuationElement1231,
 																								expr: &seqExpr{
 																									pos: position{line: 805, col: 5, offset: 25937},
 																									exprs: []interface{}{
@@ -35299,7 +35439,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 805, col: 16, offset: 25948},
-																												run: (*parser).callonListContinuationElement1228,
+																												run: (*parser).callonListContinuationElement1234,
 																												expr: &seqExpr{
 																													pos: position{line: 805, col: 16, offset: 25948},
 																													exprs: []interface{}{
@@ -35325,10 +35465,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 807, col: 8, offset: 26039},
 																											expr: &actionExpr{
-																												pos: position{line: 2909, col: 10, offset: 91792},
-																												run: (*parser).callonListContinuationElement1234,
+																												pos: position{line: 2910, col: 10, offset: 91824},
+																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2909, col: 10, offset: 91792},
+																													pos:        position{line: 2910, col: 10, offset: 91824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35337,28 +35477,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2931, col: 8, offset: 92190},
+																											pos: position{line: 2932, col: 8, offset: 92222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2918, col: 12, offset: 91963},
-																													run: (*parser).callonListContinuationElement1237,
+																													pos: position{line: 2919, col: 12, offset: 91995},
+																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2918, col: 13, offset: 91964},
+																														pos: position{line: 2919, col: 13, offset: 91996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 13, offset: 91964},
+																																pos:        position{line: 2919, col: 13, offset: 91996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 20, offset: 91971},
+																																pos:        position{line: 2919, col: 20, offset: 92003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 29, offset: 91980},
+																																pos:        position{line: 2919, col: 29, offset: 92012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35367,9 +35507,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2928, col: 8, offset: 92140},
+																													pos: position{line: 2929, col: 8, offset: 92172},
 																													expr: &anyMatcher{
-																														line: 2928, col: 9, offset: 92141,
+																														line: 2929, col: 9, offset: 92173,
 																													},
 																												},
 																											},
@@ -35380,14 +35520,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1087, col: 5, offset: 33388},
-																							run: (*parser).callonListContinuationElement1244,
+																							run: (*parser).callonListContinuationElement1250,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -35398,26 +35538,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 812, col: 5, offset: 26185},
-																			run: (*parser).callonListContinuationElement1248,
+																			run: (*parser).callonListContinuationElement1254,
 																			expr: &seqExpr{
 																				pos: position{line: 812, col: 5, offset: 26185},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2926, col: 11, offset: 92126},
+																						pos: position{line: 2927, col: 11, offset: 92158},
 																						expr: &anyMatcher{
-																							line: 2926, col: 13, offset: 92128,
+																							line: 2927, col: 13, offset: 92160,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26260},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2855, col: 13, offset: 90318},
-																							run: (*parser).callonListContinuationElement1253,
+																							pos: position{line: 2856, col: 13, offset: 90350},
+																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2855, col: 13, offset: 90318},
+																								pos: position{line: 2856, col: 13, offset: 90350},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2855, col: 13, offset: 90318},
+																									pos:        position{line: 2856, col: 13, offset: 90350},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35427,28 +35567,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2931, col: 8, offset: 92190},
+																						pos: position{line: 2932, col: 8, offset: 92222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2918, col: 12, offset: 91963},
-																								run: (*parser).callonListContinuationElement1257,
+																								pos: position{line: 2919, col: 12, offset: 91995},
+																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2918, col: 13, offset: 91964},
+																									pos: position{line: 2919, col: 13, offset: 91996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 13, offset: 91964},
+																											pos:        position{line: 2919, col: 13, offset: 91996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 20, offset: 91971},
+																											pos:        position{line: 2919, col: 20, offset: 92003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 29, offset: 91980},
+																											pos:        position{line: 2919, col: 29, offset: 92012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35457,9 +35597,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2928, col: 8, offset: 92140},
+																								pos: position{line: 2929, col: 8, offset: 92172},
 																								expr: &anyMatcher{
-																									line: 2928, col: 9, offset: 92141,
+																									line: 2929, col: 9, offset: 92173,
 																								},
 																							},
 																						},
@@ -35489,7 +35629,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 805, col: 5, offset: 25937},
-																				run: (*parser).callonListContinuationElement1269,
+																				run: (*parser).callonListContinuationElement1275,
 																				expr: &seqExpr{
 																					pos: position{line: 805, col: 5, offset: 25937},
 																					exprs: []interface{}{
@@ -35498,7 +35638,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 805, col: 16, offset: 25948},
-																								run: (*parser).callonListContinuationElement1272,
+																								run: (*parser).callonListContinuationElement1278,
 																								expr: &seqExpr{
 																									pos: position{line: 805, col: 16, offset: 25948},
 																									exprs: []interface{}{
@@ -35524,10 +35664,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 807, col: 8, offset: 26039},
 																							expr: &actionExpr{
-																								pos: position{line: 2909, col: 10, offset: 91792},
-																								run: (*parser).callonListContinuationElement1278,
+																								pos: position{line: 2910, col: 10, offset: 91824},
+																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 10, offset: 91792},
+																									pos:        position{line: 2910, col: 10, offset: 91824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35536,28 +35676,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2931, col: 8, offset: 92190},
+																							pos: position{line: 2932, col: 8, offset: 92222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2918, col: 12, offset: 91963},
-																									run: (*parser).callonListContinuationElement1281,
+																									pos: position{line: 2919, col: 12, offset: 91995},
+																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2918, col: 13, offset: 91964},
+																										pos: position{line: 2919, col: 13, offset: 91996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 13, offset: 91964},
+																												pos:        position{line: 2919, col: 13, offset: 91996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 20, offset: 91971},
+																												pos:        position{line: 2919, col: 20, offset: 92003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2918, col: 29, offset: 91980},
+																												pos:        position{line: 2919, col: 29, offset: 92012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35566,9 +35706,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2928, col: 8, offset: 92140},
+																									pos: position{line: 2929, col: 8, offset: 92172},
 																									expr: &anyMatcher{
-																										line: 2928, col: 9, offset: 92141,
+																										line: 2929, col: 9, offset: 92173,
 																									},
 																								},
 																							},
@@ -35579,14 +35719,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 1087, col: 5, offset: 33388},
-																			run: (*parser).callonListContinuationElement1288,
+																			run: (*parser).callonListContinuationElement1294,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2928, col: 8, offset: 92140},
+																	pos: position{line: 2929, col: 8, offset: 92172},
 																	expr: &anyMatcher{
-																		line: 2928, col: 9, offset: 92141,
+																		line: 2929, col: 9, offset: 92173,
 																	},
 																},
 															},
@@ -35597,52 +35737,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2754, col: 18, offset: 87382},
-										run: (*parser).callonListContinuationElement1291,
+										pos: position{line: 2755, col: 18, offset: 87414},
+										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2754, col: 18, offset: 87382},
+											pos: position{line: 2755, col: 18, offset: 87414},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2755, col: 9, offset: 87392},
+													pos: position{line: 2756, col: 9, offset: 87424},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2755, col: 9, offset: 87392},
+															pos:        position{line: 2756, col: 9, offset: 87424},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2756, col: 11, offset: 87428},
+															pos:        position{line: 2757, col: 11, offset: 87460},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2756, col: 19, offset: 87436},
+															pos:        position{line: 2757, col: 19, offset: 87468},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2756, col: 29, offset: 87446},
+															pos:        position{line: 2757, col: 29, offset: 87478},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2756, col: 37, offset: 87454},
+															pos:        position{line: 2757, col: 37, offset: 87486},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2756, col: 47, offset: 87464},
+															pos:        position{line: 2757, col: 47, offset: 87496},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2756, col: 55, offset: 87472},
+															pos:        position{line: 2757, col: 55, offset: 87504},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35650,12 +35790,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2757, col: 11, offset: 87530},
+													pos: position{line: 2758, col: 11, offset: 87562},
 													expr: &actionExpr{
-														pos: position{line: 2909, col: 10, offset: 91792},
-														run: (*parser).callonListContinuationElement1302,
+														pos: position{line: 2910, col: 10, offset: 91824},
+														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2909, col: 10, offset: 91792},
+															pos:        position{line: 2910, col: 10, offset: 91824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35664,28 +35804,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2931, col: 8, offset: 92190},
+													pos: position{line: 2932, col: 8, offset: 92222},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2918, col: 12, offset: 91963},
-															run: (*parser).callonListContinuationElement1305,
+															pos: position{line: 2919, col: 12, offset: 91995},
+															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2918, col: 13, offset: 91964},
+																pos: position{line: 2919, col: 13, offset: 91996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 13, offset: 91964},
+																		pos:        position{line: 2919, col: 13, offset: 91996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 20, offset: 91971},
+																		pos:        position{line: 2919, col: 20, offset: 92003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 29, offset: 91980},
+																		pos:        position{line: 2919, col: 29, offset: 92012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35694,36 +35834,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2928, col: 8, offset: 92140},
+															pos: position{line: 2929, col: 8, offset: 92172},
 															expr: &anyMatcher{
-																line: 2928, col: 9, offset: 92141,
+																line: 2929, col: 9, offset: 92173,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2931, col: 8, offset: 92190},
+													pos: position{line: 2932, col: 8, offset: 92222},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2918, col: 12, offset: 91963},
-															run: (*parser).callonListContinuationElement1313,
+															pos: position{line: 2919, col: 12, offset: 91995},
+															run: (*parser).callonListContinuationElement1319,
 															expr: &choiceExpr{
-																pos: position{line: 2918, col: 13, offset: 91964},
+																pos: position{line: 2919, col: 13, offset: 91996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 13, offset: 91964},
+																		pos:        position{line: 2919, col: 13, offset: 91996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 20, offset: 91971},
+																		pos:        position{line: 2919, col: 20, offset: 92003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 29, offset: 91980},
+																		pos:        position{line: 2919, col: 29, offset: 92012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35732,9 +35872,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2928, col: 8, offset: 92140},
+															pos: position{line: 2929, col: 8, offset: 92172},
 															expr: &anyMatcher{
-																line: 2928, col: 9, offset: 92141,
+																line: 2929, col: 9, offset: 92173,
 															},
 														},
 													},
@@ -35747,24 +35887,24 @@ var g = &grammar{
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2638, col: 5, offset: 84139},
-										run: (*parser).callonListContinuationElement1321,
+										pos: position{line: 2639, col: 5, offset: 84171},
+										run: (*parser).callonListContinuationElement1327,
 										expr: &seqExpr{
-											pos: position{line: 2638, col: 5, offset: 84139},
+											pos: position{line: 2639, col: 5, offset: 84171},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2644, col: 19, offset: 84316},
+													pos:        position{line: 2645, col: 19, offset: 84348},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2644, col: 26, offset: 84323},
+													pos: position{line: 2645, col: 26, offset: 84355},
 													expr: &actionExpr{
-														pos: position{line: 2909, col: 10, offset: 91792},
-														run: (*parser).callonListContinuationElement1325,
+														pos: position{line: 2910, col: 10, offset: 91824},
+														run: (*parser).callonListContinuationElement1331,
 														expr: &charClassMatcher{
-															pos:        position{line: 2909, col: 10, offset: 91792},
+															pos:        position{line: 2910, col: 10, offset: 91824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35773,28 +35913,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2931, col: 8, offset: 92190},
+													pos: position{line: 2932, col: 8, offset: 92222},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2918, col: 12, offset: 91963},
-															run: (*parser).callonListContinuationElement1328,
+															pos: position{line: 2919, col: 12, offset: 91995},
+															run: (*parser).callonListContinuationElement1334,
 															expr: &choiceExpr{
-																pos: position{line: 2918, col: 13, offset: 91964},
+																pos: position{line: 2919, col: 13, offset: 91996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 13, offset: 91964},
+																		pos:        position{line: 2919, col: 13, offset: 91996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 20, offset: 91971},
+																		pos:        position{line: 2919, col: 20, offset: 92003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 29, offset: 91980},
+																		pos:        position{line: 2919, col: 29, offset: 92012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35803,40 +35943,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2928, col: 8, offset: 92140},
+															pos: position{line: 2929, col: 8, offset: 92172},
 															expr: &anyMatcher{
-																line: 2928, col: 9, offset: 92141,
+																line: 2929, col: 9, offset: 92173,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2639, col: 5, offset: 84163},
+													pos:   position{line: 2640, col: 5, offset: 84195},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2639, col: 11, offset: 84169},
+														pos: position{line: 2640, col: 11, offset: 84201},
 														expr: &choiceExpr{
-															pos: position{line: 2639, col: 12, offset: 84170},
+															pos: position{line: 2640, col: 12, offset: 84202},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 678, col: 14, offset: 21586},
-																	run: (*parser).callonListContinuationElement1338,
+																	run: (*parser).callonListContinuationElement1344,
 																	expr: &seqExpr{
 																		pos: position{line: 678, col: 14, offset: 21586},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2926, col: 11, offset: 92126},
+																				pos: position{line: 2927, col: 11, offset: 92158},
 																				expr: &anyMatcher{
-																					line: 2926, col: 13, offset: 92128,
+																					line: 2927, col: 13, offset: 92160,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 678, col: 21, offset: 21593},
 																				expr: &actionExpr{
-																					pos: position{line: 2909, col: 10, offset: 91792},
-																					run: (*parser).callonListContinuationElement1343,
+																					pos: position{line: 2910, col: 10, offset: 91824},
+																					run: (*parser).callonListContinuationElement1349,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2909, col: 10, offset: 91792},
+																						pos:        position{line: 2910, col: 10, offset: 91824},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35845,28 +35985,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2931, col: 8, offset: 92190},
+																				pos: position{line: 2932, col: 8, offset: 92222},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2918, col: 12, offset: 91963},
-																						run: (*parser).callonListContinuationElement1346,
+																						pos: position{line: 2919, col: 12, offset: 91995},
+																						run: (*parser).callonListContinuationElement1352,
 																						expr: &choiceExpr{
-																							pos: position{line: 2918, col: 13, offset: 91964},
+																							pos: position{line: 2919, col: 13, offset: 91996},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2918, col: 13, offset: 91964},
+																									pos:        position{line: 2919, col: 13, offset: 91996},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2918, col: 20, offset: 91971},
+																									pos:        position{line: 2919, col: 20, offset: 92003},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2918, col: 29, offset: 91980},
+																									pos:        position{line: 2919, col: 29, offset: 92012},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35875,9 +36015,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2928, col: 8, offset: 92140},
+																						pos: position{line: 2929, col: 8, offset: 92172},
 																						expr: &anyMatcher{
-																							line: 2928, col: 9, offset: 92141,
+																							line: 2929, col: 9, offset: 92173,
 																						},
 																					},
 																				},
@@ -35886,36 +36026,36 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2512, col: 22, offset: 80570},
-																	run: (*parser).callonListContinuationElement1353,
+																	pos: position{line: 2513, col: 22, offset: 80602},
+																	run: (*parser).callonListContinuationElement1359,
 																	expr: &seqExpr{
-																		pos: position{line: 2512, col: 22, offset: 80570},
+																		pos: position{line: 2513, col: 22, offset: 80602},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2517, col: 31, offset: 80820},
+																				pos:        position{line: 2518, col: 31, offset: 80852},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2517, col: 36, offset: 80825},
+																				pos: position{line: 2518, col: 36, offset: 80857},
 																				expr: &litMatcher{
-																					pos:        position{line: 2517, col: 37, offset: 80826},
+																					pos:        position{line: 2518, col: 37, offset: 80858},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2512, col: 49, offset: 80597},
+																				pos:   position{line: 2513, col: 49, offset: 80629},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2855, col: 13, offset: 90318},
-																					run: (*parser).callonListContinuationElement1359,
+																					pos: position{line: 2856, col: 13, offset: 90350},
+																					run: (*parser).callonListContinuationElement1365,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2855, col: 13, offset: 90318},
+																						pos: position{line: 2856, col: 13, offset: 90350},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2855, col: 13, offset: 90318},
+																							pos:        position{line: 2856, col: 13, offset: 90350},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35925,28 +36065,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2931, col: 8, offset: 92190},
+																				pos: position{line: 2932, col: 8, offset: 92222},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2918, col: 12, offset: 91963},
-																						run: (*parser).callonListContinuationElement1363,
+																						pos: position{line: 2919, col: 12, offset: 91995},
+																						run: (*parser).callonListContinuationElement1369,
 																						expr: &choiceExpr{
-																							pos: position{line: 2918, col: 13, offset: 91964},
+																							pos: position{line: 2919, col: 13, offset: 91996},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2918, col: 13, offset: 91964},
+																									pos:        position{line: 2919, col: 13, offset: 91996},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2918, col: 20, offset: 91971},
+																									pos:        position{line: 2919, col: 20, offset: 92003},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2918, col: 29, offset: 91980},
+																									pos:        position{line: 2919, col: 29, offset: 92012},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35955,9 +36095,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2928, col: 8, offset: 92140},
+																						pos: position{line: 2929, col: 8, offset: 92172},
 																						expr: &anyMatcher{
-																							line: 2928, col: 9, offset: 92141,
+																							line: 2929, col: 9, offset: 92173,
 																						},
 																					},
 																				},
@@ -35966,32 +36106,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2651, col: 5, offset: 84435},
-																	run: (*parser).callonListContinuationElement1370,
+																	pos: position{line: 2652, col: 5, offset: 84467},
+																	run: (*parser).callonListContinuationElement1376,
 																	expr: &seqExpr{
-																		pos: position{line: 2651, col: 5, offset: 84435},
+																		pos: position{line: 2652, col: 5, offset: 84467},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2651, col: 5, offset: 84435},
+																				pos: position{line: 2652, col: 5, offset: 84467},
 																				expr: &choiceExpr{
-																					pos: position{line: 2648, col: 22, offset: 84396},
+																					pos: position{line: 2649, col: 22, offset: 84428},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2644, col: 19, offset: 84316},
+																							pos: position{line: 2645, col: 19, offset: 84348},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2644, col: 19, offset: 84316},
+																									pos:        position{line: 2645, col: 19, offset: 84348},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2644, col: 26, offset: 84323},
+																									pos: position{line: 2645, col: 26, offset: 84355},
 																									expr: &actionExpr{
-																										pos: position{line: 2909, col: 10, offset: 91792},
-																										run: (*parser).callonListContinuationElement1377,
+																										pos: position{line: 2910, col: 10, offset: 91824},
+																										run: (*parser).callonListContinuationElement1383,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2909, col: 10, offset: 91792},
+																											pos:        position{line: 2910, col: 10, offset: 91824},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36000,28 +36140,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2931, col: 8, offset: 92190},
+																									pos: position{line: 2932, col: 8, offset: 92222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2918, col: 12, offset: 91963},
-																											run: (*parser).callonListContinuationElement1380,
+																											pos: position{line: 2919, col: 12, offset: 91995},
+																											run: (*parser).callonListContinuationElement1386,
 																											expr: &choiceExpr{
-																												pos: position{line: 2918, col: 13, offset: 91964},
+																												pos: position{line: 2919, col: 13, offset: 91996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 13, offset: 91964},
+																														pos:        position{line: 2919, col: 13, offset: 91996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 20, offset: 91971},
+																														pos:        position{line: 2919, col: 20, offset: 92003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2918, col: 29, offset: 91980},
+																														pos:        position{line: 2919, col: 29, offset: 92012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36030,9 +36170,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2928, col: 8, offset: 92140},
+																											pos: position{line: 2929, col: 8, offset: 92172},
 																											expr: &anyMatcher{
-																												line: 2928, col: 9, offset: 92141,
+																												line: 2929, col: 9, offset: 92173,
 																											},
 																										},
 																									},
@@ -36040,59 +36180,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2928, col: 8, offset: 92140},
+																							pos: position{line: 2929, col: 8, offset: 92172},
 																							expr: &anyMatcher{
-																								line: 2928, col: 9, offset: 92141,
+																								line: 2929, col: 9, offset: 92173,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2652, col: 5, offset: 84458},
+																				pos:   position{line: 2653, col: 5, offset: 84490},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2653, col: 9, offset: 84476},
+																					pos: position{line: 2654, col: 9, offset: 84508},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2653, col: 10, offset: 84477},
-																							run: (*parser).callonListContinuationElement1391,
+																							pos: position{line: 2654, col: 10, offset: 84509},
+																							run: (*parser).callonListContinuationElement1397,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2653, col: 10, offset: 84477},
+																								pos:   position{line: 2654, col: 10, offset: 84509},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2653, col: 17, offset: 84484},
+																									pos: position{line: 2654, col: 17, offset: 84516},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2661, col: 21, offset: 84680},
-																											run: (*parser).callonListContinuationElement1394,
+																											pos: position{line: 2662, col: 21, offset: 84712},
+																											run: (*parser).callonListContinuationElement1400,
 																											expr: &seqExpr{
-																												pos: position{line: 2661, col: 21, offset: 84680},
+																												pos: position{line: 2662, col: 21, offset: 84712},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2661, col: 21, offset: 84680},
+																														pos:   position{line: 2662, col: 21, offset: 84712},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2661, col: 27, offset: 84686},
+																															pos: position{line: 2662, col: 27, offset: 84718},
 																															expr: &actionExpr{
-																																pos: position{line: 2666, col: 5, offset: 84761},
-																																run: (*parser).callonListContinuationElement1398,
+																																pos: position{line: 2667, col: 5, offset: 84793},
+																																run: (*parser).callonListContinuationElement1404,
 																																expr: &seqExpr{
-																																	pos: position{line: 2666, col: 5, offset: 84761},
+																																	pos: position{line: 2667, col: 5, offset: 84793},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2666, col: 5, offset: 84761},
+																																			pos:        position{line: 2667, col: 5, offset: 84793},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2666, col: 9, offset: 84765},
+																																			pos: position{line: 2667, col: 9, offset: 84797},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2909, col: 10, offset: 91792},
-																																				run: (*parser).callonListContinuationElement1402,
+																																				pos: position{line: 2910, col: 10, offset: 91824},
+																																				run: (*parser).callonListContinuationElement1408,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2909, col: 10, offset: 91792},
+																																					pos:        position{line: 2910, col: 10, offset: 91824},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36101,21 +36241,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2666, col: 16, offset: 84772},
+																																			pos:   position{line: 2667, col: 16, offset: 84804},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2672, col: 5, offset: 84972},
-																																				run: (*parser).callonListContinuationElement1405,
+																																				pos: position{line: 2673, col: 5, offset: 85004},
+																																				run: (*parser).callonListContinuationElement1411,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2672, col: 5, offset: 84972},
+																																					pos:   position{line: 2673, col: 5, offset: 85004},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2672, col: 14, offset: 84981},
-																																						run: (*parser).callonListContinuationElement1407,
+																																						pos: position{line: 2673, col: 14, offset: 85013},
+																																						run: (*parser).callonListContinuationElement1413,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2672, col: 14, offset: 84981},
+																																							pos: position{line: 2673, col: 14, offset: 85013},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2672, col: 14, offset: 84981},
+																																								pos:        position{line: 2673, col: 14, offset: 85013},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36132,28 +36272,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2931, col: 8, offset: 92190},
+																														pos: position{line: 2932, col: 8, offset: 92222},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2918, col: 12, offset: 91963},
-																																run: (*parser).callonListContinuationElement1411,
+																																pos: position{line: 2919, col: 12, offset: 91995},
+																																run: (*parser).callonListContinuationElement1417,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2918, col: 13, offset: 91964},
+																																	pos: position{line: 2919, col: 13, offset: 91996},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2918, col: 13, offset: 91964},
+																																			pos:        position{line: 2919, col: 13, offset: 91996},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2918, col: 20, offset: 91971},
+																																			pos:        position{line: 2919, col: 20, offset: 92003},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2918, col: 29, offset: 91980},
+																																			pos:        position{line: 2919, col: 29, offset: 92012},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36162,9 +36302,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2928, col: 8, offset: 92140},
+																																pos: position{line: 2929, col: 8, offset: 92172},
 																																expr: &anyMatcher{
-																																	line: 2928, col: 9, offset: 92141,
+																																	line: 2929, col: 9, offset: 92173,
 																																},
 																															},
 																														},
@@ -36173,40 +36313,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2678, col: 24, offset: 85117},
-																											run: (*parser).callonListContinuationElement1418,
+																											pos: position{line: 2679, col: 24, offset: 85149},
+																											run: (*parser).callonListContinuationElement1424,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2678, col: 24, offset: 85117},
+																												pos:   position{line: 2679, col: 24, offset: 85149},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2678, col: 30, offset: 85123},
+																													pos: position{line: 2679, col: 30, offset: 85155},
 																													expr: &actionExpr{
-																														pos: position{line: 2683, col: 5, offset: 85199},
-																														run: (*parser).callonListContinuationElement1421,
+																														pos: position{line: 2684, col: 5, offset: 85231},
+																														run: (*parser).callonListContinuationElement1427,
 																														expr: &seqExpr{
-																															pos: position{line: 2683, col: 5, offset: 85199},
+																															pos: position{line: 2684, col: 5, offset: 85231},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2683, col: 5, offset: 85199},
+																																	pos: position{line: 2684, col: 5, offset: 85231},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2648, col: 22, offset: 84396},
+																																		pos: position{line: 2649, col: 22, offset: 84428},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2644, col: 19, offset: 84316},
+																																				pos: position{line: 2645, col: 19, offset: 84348},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2644, col: 19, offset: 84316},
+																																						pos:        position{line: 2645, col: 19, offset: 84348},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2644, col: 26, offset: 84323},
+																																						pos: position{line: 2645, col: 26, offset: 84355},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2909, col: 10, offset: 91792},
-																																							run: (*parser).callonListContinuationElement1428,
+																																							pos: position{line: 2910, col: 10, offset: 91824},
+																																							run: (*parser).callonListContinuationElement1434,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2909, col: 10, offset: 91792},
+																																								pos:        position{line: 2910, col: 10, offset: 91824},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36215,28 +36355,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2931, col: 8, offset: 92190},
+																																						pos: position{line: 2932, col: 8, offset: 92222},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2918, col: 12, offset: 91963},
-																																								run: (*parser).callonListContinuationElement1431,
+																																								pos: position{line: 2919, col: 12, offset: 91995},
+																																								run: (*parser).callonListContinuationElement1437,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2918, col: 13, offset: 91964},
+																																									pos: position{line: 2919, col: 13, offset: 91996},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2918, col: 13, offset: 91964},
+																																											pos:        position{line: 2919, col: 13, offset: 91996},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2918, col: 20, offset: 91971},
+																																											pos:        position{line: 2919, col: 20, offset: 92003},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2918, col: 29, offset: 91980},
+																																											pos:        position{line: 2919, col: 29, offset: 92012},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36245,9 +36385,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2928, col: 8, offset: 92140},
+																																								pos: position{line: 2929, col: 8, offset: 92172},
 																																								expr: &anyMatcher{
-																																									line: 2928, col: 9, offset: 92141,
+																																									line: 2929, col: 9, offset: 92173,
 																																								},
 																																							},
 																																						},
@@ -36255,35 +36395,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2928, col: 8, offset: 92140},
+																																				pos: position{line: 2929, col: 8, offset: 92172},
 																																				expr: &anyMatcher{
-																																					line: 2928, col: 9, offset: 92141,
+																																					line: 2929, col: 9, offset: 92173,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2684, col: 5, offset: 85222},
+																																	pos: position{line: 2685, col: 5, offset: 85254},
 																																	expr: &actionExpr{
 																																		pos: position{line: 678, col: 14, offset: 21586},
-																																		run: (*parser).callonListContinuationElement1441,
+																																		run: (*parser).callonListContinuationElement1447,
 																																		expr: &seqExpr{
 																																			pos: position{line: 678, col: 14, offset: 21586},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2926, col: 11, offset: 92126},
+																																					pos: position{line: 2927, col: 11, offset: 92158},
 																																					expr: &anyMatcher{
-																																						line: 2926, col: 13, offset: 92128,
+																																						line: 2927, col: 13, offset: 92160,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 678, col: 21, offset: 21593},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2909, col: 10, offset: 91792},
-																																						run: (*parser).callonListContinuationElement1446,
+																																						pos: position{line: 2910, col: 10, offset: 91824},
+																																						run: (*parser).callonListContinuationElement1452,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2909, col: 10, offset: 91792},
+																																							pos:        position{line: 2910, col: 10, offset: 91824},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36292,28 +36432,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2931, col: 8, offset: 92190},
+																																					pos: position{line: 2932, col: 8, offset: 92222},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2918, col: 12, offset: 91963},
-																																							run: (*parser).callonListContinuationElement1449,
+																																							pos: position{line: 2919, col: 12, offset: 91995},
+																																							run: (*parser).callonListContinuationElement1455,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2918, col: 13, offset: 91964},
+																																								pos: position{line: 2919, col: 13, offset: 91996},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2918, col: 13, offset: 91964},
+																																										pos:        position{line: 2919, col: 13, offset: 91996},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2918, col: 20, offset: 91971},
+																																										pos:        position{line: 2919, col: 20, offset: 92003},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2918, col: 29, offset: 91980},
+																																										pos:        position{line: 2919, col: 29, offset: 92012},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36322,9 +36462,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2928, col: 8, offset: 92140},
+																																							pos: position{line: 2929, col: 8, offset: 92172},
 																																							expr: &anyMatcher{
-																																								line: 2928, col: 9, offset: 92141,
+																																								line: 2929, col: 9, offset: 92173,
 																																							},
 																																						},
 																																					},
@@ -36334,17 +36474,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2685, col: 5, offset: 85237},
+																																	pos:   position{line: 2686, col: 5, offset: 85269},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2685, col: 12, offset: 85244},
+																																		pos: position{line: 2686, col: 12, offset: 85276},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2709, col: 20, offset: 85867},
-																																			run: (*parser).callonListContinuationElement1458,
+																																			pos: position{line: 2710, col: 20, offset: 85899},
+																																			run: (*parser).callonListContinuationElement1464,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2709, col: 20, offset: 85867},
+																																				pos: position{line: 2710, col: 20, offset: 85899},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2709, col: 20, offset: 85867},
+																																					pos:        position{line: 2710, col: 20, offset: 85899},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36355,18 +36495,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2685, col: 31, offset: 85263},
+																																	pos:        position{line: 2686, col: 31, offset: 85295},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2685, col: 35, offset: 85267},
+																																	pos: position{line: 2686, col: 35, offset: 85299},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2909, col: 10, offset: 91792},
-																																		run: (*parser).callonListContinuationElement1463,
+																																		pos: position{line: 2910, col: 10, offset: 91824},
+																																		run: (*parser).callonListContinuationElement1469,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2909, col: 10, offset: 91792},
+																																			pos:        position{line: 2910, col: 10, offset: 91824},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36375,27 +36515,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2685, col: 42, offset: 85274},
+																																	pos: position{line: 2686, col: 42, offset: 85306},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2918, col: 12, offset: 91963},
-																																		run: (*parser).callonListContinuationElement1466,
+																																		pos: position{line: 2919, col: 12, offset: 91995},
+																																		run: (*parser).callonListContinuationElement1472,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2918, col: 13, offset: 91964},
+																																			pos: position{line: 2919, col: 13, offset: 91996},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2918, col: 13, offset: 91964},
+																																					pos:        position{line: 2919, col: 13, offset: 91996},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2918, col: 20, offset: 91971},
+																																					pos:        position{line: 2919, col: 20, offset: 92003},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2918, col: 29, offset: 91980},
+																																					pos:        position{line: 2919, col: 29, offset: 92012},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36405,57 +36545,57 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2685, col: 51, offset: 85283},
+																																	pos:   position{line: 2686, col: 51, offset: 85315},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2691, col: 5, offset: 85442},
+																																		pos: position{line: 2692, col: 5, offset: 85474},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2692, col: 9, offset: 85452},
+																																			pos: position{line: 2693, col: 9, offset: 85484},
 																																			alternatives: []interface{}{
 																																				&actionExpr{
-																																					pos: position{line: 2692, col: 9, offset: 85452},
-																																					run: (*parser).callonListContinuationElement1474,
+																																					pos: position{line: 2693, col: 9, offset: 85484},
+																																					run: (*parser).callonListContinuationElement1480,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2692, col: 9, offset: 85452},
+																																						pos: position{line: 2693, col: 9, offset: 85484},
 																																						exprs: []interface{}{
 																																							&andCodeExpr{
-																																								pos: position{line: 2692, col: 9, offset: 85452},
-																																								run: (*parser).callonListContinuationElement1476,
+																																								pos: position{line: 2693, col: 9, offset: 85484},
+																																								run: (*parser).callonListContinuationElement1482,
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2695, col: 9, offset: 85521},
+																																								pos:   position{line: 2696, col: 9, offset: 85553},
 																																								label: "comment",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2512, col: 22, offset: 80570},
-																																									run: (*parser).callonListContinuationElement1478,
+																																									pos: position{line: 2513, col: 22, offset: 80602},
+																																									run: (*parser).callonListContinuationElement1484,
 																																									expr: &seqExpr{
-																																										pos: position{line: 2512, col: 22, offset: 80570},
+																																										pos: position{line: 2513, col: 22, offset: 80602},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2517, col: 31, offset: 80820},
+																																												pos:        position{line: 2518, col: 31, offset: 80852},
 																																												val:        "//",
 																																												ignoreCase: false,
 																																												want:       "\"//\"",
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2517, col: 36, offset: 80825},
+																																												pos: position{line: 2518, col: 36, offset: 80857},
 																																												expr: &litMatcher{
-																																													pos:        position{line: 2517, col: 37, offset: 80826},
+																																													pos:        position{line: 2518, col: 37, offset: 80858},
 																																													val:        "/",
 																																													ignoreCase: false,
 																																													want:       "\"/\"",
 																																												},
 																																											},
 																																											&labeledExpr{
-																																												pos:   position{line: 2512, col: 49, offset: 80597},
+																																												pos:   position{line: 2513, col: 49, offset: 80629},
 																																												label: "content",
 																																												expr: &actionExpr{
-																																													pos: position{line: 2855, col: 13, offset: 90318},
-																																													run: (*parser).callonListContinuationElement1484,
+																																													pos: position{line: 2856, col: 13, offset: 90350},
+																																													run: (*parser).callonListContinuationElement1490,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2855, col: 13, offset: 90318},
+																																														pos: position{line: 2856, col: 13, offset: 90350},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2855, col: 13, offset: 90318},
+																																															pos:        position{line: 2856, col: 13, offset: 90350},
 																																															val:        "[^\\r\\n]",
 																																															chars:      []rune{'\r', '\n'},
 																																															ignoreCase: false,
@@ -36465,28 +36605,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2931, col: 8, offset: 92190},
+																																												pos: position{line: 2932, col: 8, offset: 92222},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2918, col: 12, offset: 91963},
-																																														run: (*parser).callonListContinuationElement1488,
+																																														pos: position{line: 2919, col: 12, offset: 91995},
+																																														run: (*parser).callonListContinuationElement1494,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2918, col: 13, offset: 91964},
+																																															pos: position{line: 2919, col: 13, offset: 91996},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2918, col: 13, offset: 91964},
+																																																	pos:        position{line: 2919, col: 13, offset: 91996},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2918, col: 20, offset: 91971},
+																																																	pos:        position{line: 2919, col: 20, offset: 92003},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2918, col: 29, offset: 91980},
+																																																	pos:        position{line: 2919, col: 29, offset: 92012},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -36495,9 +36635,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2928, col: 8, offset: 92140},
+																																														pos: position{line: 2929, col: 8, offset: 92172},
 																																														expr: &anyMatcher{
-																																															line: 2928, col: 9, offset: 92141,
+																																															line: 2929, col: 9, offset: 92173,
 																																														},
 																																													},
 																																												},
@@ -36510,32 +36650,32 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&actionExpr{
-																																					pos: position{line: 2699, col: 9, offset: 85611},
-																																					run: (*parser).callonListContinuationElement1495,
+																																					pos: position{line: 2700, col: 9, offset: 85643},
+																																					run: (*parser).callonListContinuationElement1501,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2699, col: 9, offset: 85611},
+																																						pos: position{line: 2700, col: 9, offset: 85643},
 																																						exprs: []interface{}{
 																																							&notExpr{
-																																								pos: position{line: 2699, col: 9, offset: 85611},
+																																								pos: position{line: 2700, col: 9, offset: 85643},
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2648, col: 22, offset: 84396},
+																																									pos: position{line: 2649, col: 22, offset: 84428},
 																																									alternatives: []interface{}{
 																																										&seqExpr{
-																																											pos: position{line: 2644, col: 19, offset: 84316},
+																																											pos: position{line: 2645, col: 19, offset: 84348},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2644, col: 19, offset: 84316},
+																																													pos:        position{line: 2645, col: 19, offset: 84348},
 																																													val:        "|===",
 																																													ignoreCase: false,
 																																													want:       "\"|===\"",
 																																												},
 																																												&zeroOrMoreExpr{
-																																													pos: position{line: 2644, col: 26, offset: 84323},
+																																													pos: position{line: 2645, col: 26, offset: 84355},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2909, col: 10, offset: 91792},
-																																														run: (*parser).callonListContinuationElement1502,
+																																														pos: position{line: 2910, col: 10, offset: 91824},
+																																														run: (*parser).callonListContinuationElement1508,
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2909, col: 10, offset: 91792},
+																																															pos:        position{line: 2910, col: 10, offset: 91824},
 																																															val:        "[\\t ]",
 																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
@@ -36544,28 +36684,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2931, col: 8, offset: 92190},
+																																													pos: position{line: 2932, col: 8, offset: 92222},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2918, col: 12, offset: 91963},
-																																															run: (*parser).callonListContinuationElement1505,
+																																															pos: position{line: 2919, col: 12, offset: 91995},
+																																															run: (*parser).callonListContinuationElement1511,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2918, col: 13, offset: 91964},
+																																																pos: position{line: 2919, col: 13, offset: 91996},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2918, col: 13, offset: 91964},
+																																																		pos:        position{line: 2919, col: 13, offset: 91996},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2918, col: 20, offset: 91971},
+																																																		pos:        position{line: 2919, col: 20, offset: 92003},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2918, col: 29, offset: 91980},
+																																																		pos:        position{line: 2919, col: 29, offset: 92012},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -36574,9 +36714,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2928, col: 8, offset: 92140},
+																																															pos: position{line: 2929, col: 8, offset: 92172},
 																																															expr: &anyMatcher{
-																																																line: 2928, col: 9, offset: 92141,
+																																																line: 2929, col: 9, offset: 92173,
 																																															},
 																																														},
 																																													},
@@ -36584,35 +36724,35 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2928, col: 8, offset: 92140},
+																																											pos: position{line: 2929, col: 8, offset: 92172},
 																																											expr: &anyMatcher{
-																																												line: 2928, col: 9, offset: 92141,
+																																												line: 2929, col: 9, offset: 92173,
 																																											},
 																																										},
 																																									},
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2700, col: 9, offset: 85638},
+																																								pos: position{line: 2701, col: 9, offset: 85670},
 																																								expr: &actionExpr{
 																																									pos: position{line: 678, col: 14, offset: 21586},
-																																									run: (*parser).callonListContinuationElement1515,
+																																									run: (*parser).callonListContinuationElement1521,
 																																									expr: &seqExpr{
 																																										pos: position{line: 678, col: 14, offset: 21586},
 																																										exprs: []interface{}{
 																																											&andExpr{
-																																												pos: position{line: 2926, col: 11, offset: 92126},
+																																												pos: position{line: 2927, col: 11, offset: 92158},
 																																												expr: &anyMatcher{
-																																													line: 2926, col: 13, offset: 92128,
+																																													line: 2927, col: 13, offset: 92160,
 																																												},
 																																											},
 																																											&zeroOrMoreExpr{
 																																												pos: position{line: 678, col: 21, offset: 21593},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2909, col: 10, offset: 91792},
-																																													run: (*parser).callonListContinuationElement1520,
+																																													pos: position{line: 2910, col: 10, offset: 91824},
+																																													run: (*parser).callonListContinuationElement1526,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2909, col: 10, offset: 91792},
+																																														pos:        position{line: 2910, col: 10, offset: 91824},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -36621,28 +36761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2931, col: 8, offset: 92190},
+																																												pos: position{line: 2932, col: 8, offset: 92222},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2918, col: 12, offset: 91963},
-																																														run: (*parser).callonListContinuationElement1523,
+																																														pos: position{line: 2919, col: 12, offset: 91995},
+																																														run: (*parser).callonListContinuationElement1529,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2918, col: 13, offset: 91964},
+																																															pos: position{line: 2919, col: 13, offset: 91996},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2918, col: 13, offset: 91964},
+																																																	pos:        position{line: 2919, col: 13, offset: 91996},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2918, col: 20, offset: 91971},
+																																																	pos:        position{line: 2919, col: 20, offset: 92003},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2918, col: 29, offset: 91980},
+																																																	pos:        position{line: 2919, col: 29, offset: 92012},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -36651,9 +36791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2928, col: 8, offset: 92140},
+																																														pos: position{line: 2929, col: 8, offset: 92172},
 																																														expr: &anyMatcher{
-																																															line: 2928, col: 9, offset: 92141,
+																																															line: 2929, col: 9, offset: 92173,
 																																														},
 																																													},
 																																												},
@@ -36663,22 +36803,22 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2701, col: 9, offset: 85657},
+																																								pos: position{line: 2702, col: 9, offset: 85689},
 																																								expr: &seqExpr{
-																																									pos: position{line: 2701, col: 11, offset: 85659},
+																																									pos: position{line: 2702, col: 11, offset: 85691},
 																																									exprs: []interface{}{
 																																										&labeledExpr{
-																																											pos:   position{line: 2701, col: 11, offset: 85659},
+																																											pos:   position{line: 2702, col: 11, offset: 85691},
 																																											label: "format",
 																																											expr: &zeroOrOneExpr{
-																																												pos: position{line: 2701, col: 18, offset: 85666},
+																																												pos: position{line: 2702, col: 18, offset: 85698},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2709, col: 20, offset: 85867},
-																																													run: (*parser).callonListContinuationElement1534,
+																																													pos: position{line: 2710, col: 20, offset: 85899},
+																																													run: (*parser).callonListContinuationElement1540,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2709, col: 20, offset: 85867},
+																																														pos: position{line: 2710, col: 20, offset: 85899},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2709, col: 20, offset: 85867},
+																																															pos:        position{line: 2710, col: 20, offset: 85899},
 																																															val:        "[^ |\\r\\n]",
 																																															chars:      []rune{' ', '|', '\r', '\n'},
 																																															ignoreCase: false,
@@ -36689,7 +36829,7 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2701, col: 37, offset: 85685},
+																																											pos:        position{line: 2702, col: 37, offset: 85717},
 																																											val:        "|",
 																																											ignoreCase: false,
 																																											want:       "\"|\"",
@@ -36698,15 +36838,15 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2702, col: 9, offset: 85698},
+																																								pos:   position{line: 2703, col: 9, offset: 85730},
 																																								label: "content",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2702, col: 18, offset: 85707},
-																																									run: (*parser).callonListContinuationElement1539,
+																																									pos: position{line: 2703, col: 18, offset: 85739},
+																																									run: (*parser).callonListContinuationElement1545,
 																																									expr: &zeroOrMoreExpr{
-																																										pos: position{line: 2702, col: 18, offset: 85707},
+																																										pos: position{line: 2703, col: 18, offset: 85739},
 																																										expr: &charClassMatcher{
-																																											pos:        position{line: 2702, col: 18, offset: 85707},
+																																											pos:        position{line: 2703, col: 18, offset: 85739},
 																																											val:        "[^|\\r\\n]",
 																																											chars:      []rune{'|', '\r', '\n'},
 																																											ignoreCase: false,
@@ -36716,30 +36856,30 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&zeroOrOneExpr{
-																																								pos: position{line: 2704, col: 12, offset: 85769},
+																																								pos: position{line: 2705, col: 12, offset: 85801},
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2931, col: 8, offset: 92190},
+																																									pos: position{line: 2932, col: 8, offset: 92222},
 																																									alternatives: []interface{}{
 																																										&actionExpr{
-																																											pos: position{line: 2918, col: 12, offset: 91963},
-																																											run: (*parser).callonListContinuationElement1544,
+																																											pos: position{line: 2919, col: 12, offset: 91995},
+																																											run: (*parser).callonListContinuationElement1550,
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2918, col: 13, offset: 91964},
+																																												pos: position{line: 2919, col: 13, offset: 91996},
 																																												alternatives: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2918, col: 13, offset: 91964},
+																																														pos:        position{line: 2919, col: 13, offset: 91996},
 																																														val:        "\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2918, col: 20, offset: 91971},
+																																														pos:        position{line: 2919, col: 20, offset: 92003},
 																																														val:        "\r\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2918, col: 29, offset: 91980},
+																																														pos:        position{line: 2919, col: 29, offset: 92012},
 																																														val:        "\r",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\"",
@@ -36748,9 +36888,9 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2928, col: 8, offset: 92140},
+																																											pos: position{line: 2929, col: 8, offset: 92172},
 																																											expr: &anyMatcher{
-																																												line: 2928, col: 9, offset: 92141,
+																																												line: 2929, col: 9, offset: 92173,
 																																											},
 																																										},
 																																									},
@@ -36775,23 +36915,23 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 678, col: 14, offset: 21586},
-																							run: (*parser).callonListContinuationElement1551,
+																							run: (*parser).callonListContinuationElement1557,
 																							expr: &seqExpr{
 																								pos: position{line: 678, col: 14, offset: 21586},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2926, col: 11, offset: 92126},
+																										pos: position{line: 2927, col: 11, offset: 92158},
 																										expr: &anyMatcher{
-																											line: 2926, col: 13, offset: 92128,
+																											line: 2927, col: 13, offset: 92160,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 678, col: 21, offset: 21593},
 																										expr: &actionExpr{
-																											pos: position{line: 2909, col: 10, offset: 91792},
-																											run: (*parser).callonListContinuationElement1556,
+																											pos: position{line: 2910, col: 10, offset: 91824},
+																											run: (*parser).callonListContinuationElement1562,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2909, col: 10, offset: 91792},
+																												pos:        position{line: 2910, col: 10, offset: 91824},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36800,28 +36940,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2931, col: 8, offset: 92190},
+																										pos: position{line: 2932, col: 8, offset: 92222},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2918, col: 12, offset: 91963},
-																												run: (*parser).callonListContinuationElement1559,
+																												pos: position{line: 2919, col: 12, offset: 91995},
+																												run: (*parser).callonListContinuationElement1565,
 																												expr: &choiceExpr{
-																													pos: position{line: 2918, col: 13, offset: 91964},
+																													pos: position{line: 2919, col: 13, offset: 91996},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2918, col: 13, offset: 91964},
+																															pos:        position{line: 2919, col: 13, offset: 91996},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2918, col: 20, offset: 91971},
+																															pos:        position{line: 2919, col: 20, offset: 92003},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2918, col: 29, offset: 91980},
+																															pos:        position{line: 2919, col: 29, offset: 92012},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36830,9 +36970,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2928, col: 8, offset: 92140},
+																												pos: position{line: 2929, col: 8, offset: 92172},
 																												expr: &anyMatcher{
-																													line: 2928, col: 9, offset: 92141,
+																													line: 2929, col: 9, offset: 92173,
 																												},
 																											},
 																										},
@@ -36851,24 +36991,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2648, col: 22, offset: 84396},
+													pos: position{line: 2649, col: 22, offset: 84428},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2644, col: 19, offset: 84316},
+															pos: position{line: 2645, col: 19, offset: 84348},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2644, col: 19, offset: 84316},
+																	pos:        position{line: 2645, col: 19, offset: 84348},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2644, col: 26, offset: 84323},
+																	pos: position{line: 2645, col: 26, offset: 84355},
 																	expr: &actionExpr{
-																		pos: position{line: 2909, col: 10, offset: 91792},
-																		run: (*parser).callonListContinuationElement1570,
+																		pos: position{line: 2910, col: 10, offset: 91824},
+																		run: (*parser).callonListContinuationElement1576,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 10, offset: 91792},
+																			pos:        position{line: 2910, col: 10, offset: 91824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36877,28 +37017,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2931, col: 8, offset: 92190},
+																	pos: position{line: 2932, col: 8, offset: 92222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2918, col: 12, offset: 91963},
-																			run: (*parser).callonListContinuationElement1573,
+																			pos: position{line: 2919, col: 12, offset: 91995},
+																			run: (*parser).callonListContinuationElement1579,
 																			expr: &choiceExpr{
-																				pos: position{line: 2918, col: 13, offset: 91964},
+																				pos: position{line: 2919, col: 13, offset: 91996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 13, offset: 91964},
+																						pos:        position{line: 2919, col: 13, offset: 91996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 20, offset: 91971},
+																						pos:        position{line: 2919, col: 20, offset: 92003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 29, offset: 91980},
+																						pos:        position{line: 2919, col: 29, offset: 92012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36907,9 +37047,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2928, col: 8, offset: 92140},
+																			pos: position{line: 2929, col: 8, offset: 92172},
 																			expr: &anyMatcher{
-																				line: 2928, col: 9, offset: 92141,
+																				line: 2929, col: 9, offset: 92173,
 																			},
 																		},
 																	},
@@ -36917,9 +37057,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2928, col: 8, offset: 92140},
+															pos: position{line: 2929, col: 8, offset: 92172},
 															expr: &anyMatcher{
-																line: 2928, col: 9, offset: 92141,
+																line: 2929, col: 9, offset: 92173,
 															},
 														},
 													},
@@ -36928,36 +37068,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 22, offset: 80570},
-										run: (*parser).callonListContinuationElement1582,
+										pos: position{line: 2513, col: 22, offset: 80602},
+										run: (*parser).callonListContinuationElement1588,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 22, offset: 80570},
+											pos: position{line: 2513, col: 22, offset: 80602},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2517, col: 31, offset: 80820},
+													pos:        position{line: 2518, col: 31, offset: 80852},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2517, col: 36, offset: 80825},
+													pos: position{line: 2518, col: 36, offset: 80857},
 													expr: &litMatcher{
-														pos:        position{line: 2517, col: 37, offset: 80826},
+														pos:        position{line: 2518, col: 37, offset: 80858},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2512, col: 49, offset: 80597},
+													pos:   position{line: 2513, col: 49, offset: 80629},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2855, col: 13, offset: 90318},
-														run: (*parser).callonListContinuationElement1588,
+														pos: position{line: 2856, col: 13, offset: 90350},
+														run: (*parser).callonListContinuationElement1594,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2855, col: 13, offset: 90318},
+															pos: position{line: 2856, col: 13, offset: 90350},
 															expr: &charClassMatcher{
-																pos:        position{line: 2855, col: 13, offset: 90318},
+																pos:        position{line: 2856, col: 13, offset: 90350},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36967,28 +37107,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2931, col: 8, offset: 92190},
+													pos: position{line: 2932, col: 8, offset: 92222},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2918, col: 12, offset: 91963},
-															run: (*parser).callonListContinuationElement1592,
+															pos: position{line: 2919, col: 12, offset: 91995},
+															run: (*parser).callonListContinuationElement1598,
 															expr: &choiceExpr{
-																pos: position{line: 2918, col: 13, offset: 91964},
+																pos: position{line: 2919, col: 13, offset: 91996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 13, offset: 91964},
+																		pos:        position{line: 2919, col: 13, offset: 91996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 20, offset: 91971},
+																		pos:        position{line: 2919, col: 20, offset: 92003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 29, offset: 91980},
+																		pos:        position{line: 2919, col: 29, offset: 92012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36997,9 +37137,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2928, col: 8, offset: 92140},
+															pos: position{line: 2929, col: 8, offset: 92172},
 															expr: &anyMatcher{
-																line: 2928, col: 9, offset: 92141,
+																line: 2929, col: 9, offset: 92173,
 															},
 														},
 													},
@@ -37009,7 +37149,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1568, col: 5, offset: 50663},
-										run: (*parser).callonListContinuationElement1599,
+										run: (*parser).callonListContinuationElement1605,
 										expr: &seqExpr{
 											pos: position{line: 1568, col: 5, offset: 50663},
 											exprs: []interface{}{
@@ -37019,83 +37159,83 @@ var g = &grammar{
 													expr: &zeroOrOneExpr{
 														pos: position{line: 1568, col: 11, offset: 50669},
 														expr: &actionExpr{
-															pos: position{line: 1732, col: 5, offset: 55986},
-															run: (*parser).callonListContinuationElement1603,
+															pos: position{line: 1733, col: 5, offset: 56018},
+															run: (*parser).callonListContinuationElement1609,
 															expr: &seqExpr{
-																pos: position{line: 1732, col: 5, offset: 55986},
+																pos: position{line: 1733, col: 5, offset: 56018},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1732, col: 5, offset: 55986},
-																		run: (*parser).callonListContinuationElement1605,
+																		pos: position{line: 1733, col: 5, offset: 56018},
+																		run: (*parser).callonListContinuationElement1611,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1735, col: 5, offset: 56049},
+																		pos:   position{line: 1736, col: 5, offset: 56081},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1735, col: 12, offset: 56056},
+																			pos: position{line: 1736, col: 12, offset: 56088},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1735, col: 12, offset: 56056},
-																					run: (*parser).callonListContinuationElement1608,
+																					pos: position{line: 1736, col: 12, offset: 56088},
+																					run: (*parser).callonListContinuationElement1614,
 																					expr: &litMatcher{
-																						pos:        position{line: 1735, col: 12, offset: 56056},
+																						pos:        position{line: 1736, col: 12, offset: 56088},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1737, col: 13, offset: 56112},
-																					run: (*parser).callonListContinuationElement1610,
+																					pos: position{line: 1738, col: 13, offset: 56144},
+																					run: (*parser).callonListContinuationElement1616,
 																					expr: &litMatcher{
-																						pos:        position{line: 1737, col: 13, offset: 56112},
+																						pos:        position{line: 1738, col: 13, offset: 56144},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1739, col: 13, offset: 56170},
-																					run: (*parser).callonListContinuationElement1612,
+																					pos: position{line: 1740, col: 13, offset: 56202},
+																					run: (*parser).callonListContinuationElement1618,
 																					expr: &litMatcher{
-																						pos:        position{line: 1739, col: 13, offset: 56170},
+																						pos:        position{line: 1740, col: 13, offset: 56202},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1741, col: 13, offset: 56238},
-																					run: (*parser).callonListContinuationElement1614,
+																					pos: position{line: 1742, col: 13, offset: 56270},
+																					run: (*parser).callonListContinuationElement1620,
 																					expr: &litMatcher{
-																						pos:        position{line: 1741, col: 13, offset: 56238},
+																						pos:        position{line: 1742, col: 13, offset: 56270},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1743, col: 13, offset: 56302},
-																					run: (*parser).callonListContinuationElement1616,
+																					pos: position{line: 1744, col: 13, offset: 56334},
+																					run: (*parser).callonListContinuationElement1622,
 																					expr: &litMatcher{
-																						pos:        position{line: 1743, col: 13, offset: 56302},
+																						pos:        position{line: 1744, col: 13, offset: 56334},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1745, col: 13, offset: 56366},
-																					run: (*parser).callonListContinuationElement1618,
+																					pos: position{line: 1746, col: 13, offset: 56398},
+																					run: (*parser).callonListContinuationElement1624,
 																					expr: &andExpr{
-																						pos: position{line: 1745, col: 13, offset: 56366},
+																						pos: position{line: 1746, col: 13, offset: 56398},
 																						expr: &actionExpr{
-																							pos: position{line: 2913, col: 11, offset: 91853},
-																							run: (*parser).callonListContinuationElement1620,
+																							pos: position{line: 2914, col: 11, offset: 91885},
+																							run: (*parser).callonListContinuationElement1626,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2913, col: 11, offset: 91853},
+																								pos: position{line: 2914, col: 11, offset: 91885},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2913, col: 11, offset: 91853},
+																									pos:        position{line: 2914, col: 11, offset: 91885},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37118,7 +37258,7 @@ var g = &grammar{
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1511, col: 5, offset: 49008},
-														run: (*parser).callonListContinuationElement1624,
+														run: (*parser).callonListContinuationElement1630,
 														expr: &seqExpr{
 															pos: position{line: 1511, col: 5, offset: 49008},
 															exprs: []interface{}{
@@ -37126,23 +37266,23 @@ var g = &grammar{
 																	pos: position{line: 1511, col: 5, offset: 49008},
 																	expr: &actionExpr{
 																		pos: position{line: 678, col: 14, offset: 21586},
-																		run: (*parser).callonListContinuationElement1627,
+																		run: (*parser).callonListContinuationElement1633,
 																		expr: &seqExpr{
 																			pos: position{line: 678, col: 14, offset: 21586},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2926, col: 11, offset: 92126},
+																					pos: position{line: 2927, col: 11, offset: 92158},
 																					expr: &anyMatcher{
-																						line: 2926, col: 13, offset: 92128,
+																						line: 2927, col: 13, offset: 92160,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 678, col: 21, offset: 21593},
 																					expr: &actionExpr{
-																						pos: position{line: 2909, col: 10, offset: 91792},
-																						run: (*parser).callonListContinuationElement1632,
+																						pos: position{line: 2910, col: 10, offset: 91824},
+																						run: (*parser).callonListContinuationElement1638,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 91792},
+																							pos:        position{line: 2910, col: 10, offset: 91824},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37151,28 +37291,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2931, col: 8, offset: 92190},
+																					pos: position{line: 2932, col: 8, offset: 92222},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2918, col: 12, offset: 91963},
-																							run: (*parser).callonListContinuationElement1635,
+																							pos: position{line: 2919, col: 12, offset: 91995},
+																							run: (*parser).callonListContinuationElement1641,
 																							expr: &choiceExpr{
-																								pos: position{line: 2918, col: 13, offset: 91964},
+																								pos: position{line: 2919, col: 13, offset: 91996},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 13, offset: 91964},
+																										pos:        position{line: 2919, col: 13, offset: 91996},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 20, offset: 91971},
+																										pos:        position{line: 2919, col: 20, offset: 92003},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 29, offset: 91980},
+																										pos:        position{line: 2919, col: 29, offset: 92012},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37181,9 +37321,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2928, col: 8, offset: 92140},
+																							pos: position{line: 2929, col: 8, offset: 92172},
 																							expr: &anyMatcher{
-																								line: 2928, col: 9, offset: 92141,
+																								line: 2929, col: 9, offset: 92173,
 																							},
 																						},
 																					},
@@ -37206,10 +37346,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1543, col: 31, offset: 49887},
 																				expr: &actionExpr{
-																					pos: position{line: 2909, col: 10, offset: 91792},
-																					run: (*parser).callonListContinuationElement1646,
+																					pos: position{line: 2910, col: 10, offset: 91824},
+																					run: (*parser).callonListContinuationElement1652,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2909, col: 10, offset: 91792},
+																						pos:        position{line: 2910, col: 10, offset: 91824},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37218,25 +37358,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
-																				run: (*parser).callonListContinuationElement1648,
+																				pos: position{line: 2919, col: 12, offset: 91995},
+																				run: (*parser).callonListContinuationElement1654,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37251,17 +37391,17 @@ var g = &grammar{
 																	pos: position{line: 1513, col: 5, offset: 49051},
 																	expr: &actionExpr{
 																		pos: position{line: 1584, col: 5, offset: 51102},
-																		run: (*parser).callonListContinuationElement1654,
+																		run: (*parser).callonListContinuationElement1660,
 																		expr: &seqExpr{
 																			pos: position{line: 1584, col: 5, offset: 51102},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1584, col: 5, offset: 51102},
 																					expr: &actionExpr{
-																						pos: position{line: 2909, col: 10, offset: 91792},
-																						run: (*parser).callonListContinuationElement1657,
+																						pos: position{line: 2910, col: 10, offset: 91824},
+																						run: (*parser).callonListContinuationElement1663,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 91792},
+																							pos:        position{line: 2910, col: 10, offset: 91824},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37277,7 +37417,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 1586, col: 9, offset: 51172},
-																								run: (*parser).callonListContinuationElement1661,
+																								run: (*parser).callonListContinuationElement1667,
 																								expr: &seqExpr{
 																									pos: position{line: 1586, col: 9, offset: 51172},
 																									exprs: []interface{}{
@@ -37286,7 +37426,7 @@ var g = &grammar{
 																											label: "depth",
 																											expr: &actionExpr{
 																												pos: position{line: 1586, col: 16, offset: 51179},
-																												run: (*parser).callonListContinuationElement1664,
+																												run: (*parser).callonListContinuationElement1670,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 1586, col: 16, offset: 51179},
 																													expr: &litMatcher{
@@ -37300,14 +37440,14 @@ var g = &grammar{
 																										},
 																										&andCodeExpr{
 																											pos: position{line: 1590, col: 9, offset: 51280},
-																											run: (*parser).callonListContinuationElement1667,
+																											run: (*parser).callonListContinuationElement1673,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
 																								pos: position{line: 1609, col: 11, offset: 51997},
-																								run: (*parser).callonListContinuationElement1668,
+																								run: (*parser).callonListContinuationElement1674,
 																								expr: &seqExpr{
 																									pos: position{line: 1609, col: 11, offset: 51997},
 																									exprs: []interface{}{
@@ -37332,7 +37472,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1611, col: 13, offset: 52123},
-																								run: (*parser).callonListContinuationElement1673,
+																								run: (*parser).callonListContinuationElement1679,
 																								expr: &seqExpr{
 																									pos: position{line: 1611, col: 13, offset: 52123},
 																									exprs: []interface{}{
@@ -37354,7 +37494,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1613, col: 13, offset: 52251},
-																								run: (*parser).callonListContinuationElement1677,
+																								run: (*parser).callonListContinuationElement1683,
 																								expr: &seqExpr{
 																									pos: position{line: 1613, col: 13, offset: 52251},
 																									exprs: []interface{}{
@@ -37376,7 +37516,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1615, col: 13, offset: 52379},
-																								run: (*parser).callonListContinuationElement1681,
+																								run: (*parser).callonListContinuationElement1687,
 																								expr: &seqExpr{
 																									pos: position{line: 1615, col: 13, offset: 52379},
 																									exprs: []interface{}{
@@ -37401,7 +37541,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1617, col: 13, offset: 52512},
-																								run: (*parser).callonListContinuationElement1686,
+																								run: (*parser).callonListContinuationElement1692,
 																								expr: &seqExpr{
 																									pos: position{line: 1617, col: 13, offset: 52512},
 																									exprs: []interface{}{
@@ -37428,12 +37568,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2913, col: 11, offset: 91853},
-																					run: (*parser).callonListContinuationElement1691,
+																					pos: position{line: 2914, col: 11, offset: 91885},
+																					run: (*parser).callonListContinuationElement1697,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2913, col: 11, offset: 91853},
+																						pos: position{line: 2914, col: 11, offset: 91885},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2913, col: 11, offset: 91853},
+																							pos:        position{line: 2914, col: 11, offset: 91885},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37449,17 +37589,17 @@ var g = &grammar{
 																	pos: position{line: 1514, col: 5, offset: 49081},
 																	expr: &actionExpr{
 																		pos: position{line: 1634, col: 5, offset: 53064},
-																		run: (*parser).callonListContinuationElement1695,
+																		run: (*parser).callonListContinuationElement1701,
 																		expr: &seqExpr{
 																			pos: position{line: 1634, col: 5, offset: 53064},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1634, col: 5, offset: 53064},
 																					expr: &actionExpr{
-																						pos: position{line: 2909, col: 10, offset: 91792},
-																						run: (*parser).callonListContinuationElement1698,
+																						pos: position{line: 2910, col: 10, offset: 91824},
+																						run: (*parser).callonListContinuationElement1704,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 91792},
+																							pos:        position{line: 2910, col: 10, offset: 91824},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37472,7 +37612,7 @@ var g = &grammar{
 																					label: "style",
 																					expr: &actionExpr{
 																						pos: position{line: 1636, col: 9, offset: 53092},
-																						run: (*parser).callonListContinuationElement1701,
+																						run: (*parser).callonListContinuationElement1707,
 																						expr: &choiceExpr{
 																							pos: position{line: 1636, col: 10, offset: 53093},
 																							alternatives: []interface{}{
@@ -37497,15 +37637,15 @@ var g = &grammar{
 																				},
 																				&andCodeExpr{
 																					pos: position{line: 1639, col: 7, offset: 53192},
-																					run: (*parser).callonListContinuationElement1706,
+																					run: (*parser).callonListContinuationElement1712,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2913, col: 11, offset: 91853},
-																					run: (*parser).callonListContinuationElement1707,
+																					pos: position{line: 2914, col: 11, offset: 91885},
+																					run: (*parser).callonListContinuationElement1713,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2913, col: 11, offset: 91853},
+																						pos: position{line: 2914, col: 11, offset: 91885},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2913, col: 11, offset: 91853},
+																							pos:        position{line: 2914, col: 11, offset: 91885},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37520,27 +37660,27 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1515, col: 5, offset: 49113},
 																	expr: &actionExpr{
-																		pos: position{line: 1723, col: 5, offset: 55601},
-																		run: (*parser).callonListContinuationElement1711,
+																		pos: position{line: 1724, col: 5, offset: 55633},
+																		run: (*parser).callonListContinuationElement1717,
 																		expr: &seqExpr{
-																			pos: position{line: 1723, col: 5, offset: 55601},
+																			pos: position{line: 1724, col: 5, offset: 55633},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1723, col: 5, offset: 55601},
+																					pos:        position{line: 1724, col: 5, offset: 55633},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1723, col: 9, offset: 55605},
+																					pos:   position{line: 1724, col: 9, offset: 55637},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1723, col: 14, offset: 55610},
-																						run: (*parser).callonListContinuationElement1715,
+																						pos: position{line: 1724, col: 14, offset: 55642},
+																						run: (*parser).callonListContinuationElement1721,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1723, col: 14, offset: 55610},
+																							pos: position{line: 1724, col: 14, offset: 55642},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1723, col: 14, offset: 55610},
+																								pos:        position{line: 1724, col: 14, offset: 55642},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37550,18 +37690,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1723, col: 62, offset: 55658},
+																					pos:        position{line: 1724, col: 62, offset: 55690},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2913, col: 11, offset: 91853},
-																					run: (*parser).callonListContinuationElement1719,
+																					pos: position{line: 2914, col: 11, offset: 91885},
+																					run: (*parser).callonListContinuationElement1725,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2913, col: 11, offset: 91853},
+																						pos: position{line: 2914, col: 11, offset: 91885},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2913, col: 11, offset: 91853},
+																							pos:        position{line: 2914, col: 11, offset: 91885},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37580,109 +37720,137 @@ var g = &grammar{
 																		exprs: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 1669, col: 5, offset: 54083},
-																				run: (*parser).callonListContinuationElement1724,
-																				expr: &oneOrMoreExpr{
+																				run: (*parser).callonListContinuationElement1730,
+																				expr: &seqExpr{
 																					pos: position{line: 1669, col: 5, offset: 54083},
-																					expr: &seqExpr{
-																						pos: position{line: 1669, col: 6, offset: 54084},
-																						exprs: []interface{}{
-																							&notExpr{
-																								pos: position{line: 1669, col: 6, offset: 54084},
-																								expr: &actionExpr{
-																									pos: position{line: 1674, col: 5, offset: 54234},
-																									run: (*parser).callonListContinuationElement1728,
-																									expr: &seqExpr{
-																										pos: position{line: 1674, col: 5, offset: 54234},
-																										exprs: []interface{}{
-																											&labeledExpr{
-																												pos:   position{line: 1674, col: 5, offset: 54234},
-																												label: "separator",
-																												expr: &actionExpr{
-																													pos: position{line: 1674, col: 16, offset: 54245},
-																													run: (*parser).callonListContinuationElement1731,
-																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1674, col: 16, offset: 54245},
-																														expr: &litMatcher{
-																															pos:        position{line: 1674, col: 17, offset: 54246},
-																															val:        ":",
-																															ignoreCase: false,
-																															want:       "\":\"",
-																														},
-																													},
-																												},
-																											},
-																											&andCodeExpr{
-																												pos: position{line: 1677, col: 5, offset: 54303},
-																												run: (*parser).callonListContinuationElement1734,
-																											},
+																					exprs: []interface{}{
+																						&notExpr{
+																							pos: position{line: 1669, col: 5, offset: 54083},
+																							expr: &seqExpr{
+																								pos: position{line: 2518, col: 31, offset: 80852},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2518, col: 31, offset: 80852},
+																										val:        "//",
+																										ignoreCase: false,
+																										want:       "\"//\"",
+																									},
+																									&notExpr{
+																										pos: position{line: 2518, col: 36, offset: 80857},
+																										expr: &litMatcher{
+																											pos:        position{line: 2518, col: 37, offset: 80858},
+																											val:        "/",
+																											ignoreCase: false,
+																											want:       "\"/\"",
 																										},
 																									},
 																								},
 																							},
-																							&notExpr{
-																								pos: position{line: 1669, col: 35, offset: 54113},
-																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 8, offset: 92190},
-																									alternatives: []interface{}{
-																										&actionExpr{
-																											pos: position{line: 2918, col: 12, offset: 91963},
-																											run: (*parser).callonListContinuationElement1737,
-																											expr: &choiceExpr{
-																												pos: position{line: 2918, col: 13, offset: 91964},
-																												alternatives: []interface{}{
-																													&litMatcher{
-																														pos:        position{line: 2918, col: 13, offset: 91964},
-																														val:        "\n",
-																														ignoreCase: false,
-																														want:       "\"\\n\"",
-																													},
-																													&litMatcher{
-																														pos:        position{line: 2918, col: 20, offset: 91971},
-																														val:        "\r\n",
-																														ignoreCase: false,
-																														want:       "\"\\r\\n\"",
+																						},
+																						&oneOrMoreExpr{
+																							pos: position{line: 1670, col: 5, offset: 54115},
+																							expr: &seqExpr{
+																								pos: position{line: 1670, col: 6, offset: 54116},
+																								exprs: []interface{}{
+																									&notExpr{
+																										pos: position{line: 1670, col: 6, offset: 54116},
+																										expr: &actionExpr{
+																											pos: position{line: 1675, col: 5, offset: 54266},
+																											run: (*parser).callonListContinuationElement1740,
+																											expr: &seqExpr{
+																												pos: position{line: 1675, col: 5, offset: 54266},
+																												exprs: []interface{}{
+																													&labeledExpr{
+																														pos:   position{line: 1675, col: 5, offset: 54266},
+																														label: "separator",
+																														expr: &actionExpr{
+																															pos: position{line: 1675, col: 16, offset: 54277},
+																															run: (*parser).callonListContinuationElement1743,
+																															expr: &oneOrMoreExpr{
+																																pos: position{line: 1675, col: 16, offset: 54277},
+																																expr: &litMatcher{
+																																	pos:        position{line: 1675, col: 17, offset: 54278},
+																																	val:        ":",
+																																	ignoreCase: false,
+																																	want:       "\":\"",
+																																},
+																															},
+																														},
 																													},
-																													&litMatcher{
-																														pos:        position{line: 2918, col: 29, offset: 91980},
-																														val:        "\r",
-																														ignoreCase: false,
-																														want:       "\"\\r\"",
+																													&andCodeExpr{
+																														pos: position{line: 1678, col: 5, offset: 54335},
+																														run: (*parser).callonListContinuationElement1746,
 																													},
 																												},
 																											},
 																										},
-																										&notExpr{
-																											pos: position{line: 2928, col: 8, offset: 92140},
-																											expr: &anyMatcher{
-																												line: 2928, col: 9, offset: 92141,
+																									},
+																									&notExpr{
+																										pos: position{line: 1670, col: 35, offset: 54145},
+																										expr: &choiceExpr{
+																											pos: position{line: 2932, col: 8, offset: 92222},
+																											alternatives: []interface{}{
+																												&actionExpr{
+																													pos: position{line: 2919, col: 12, offset: 91995},
+																													run: (*parser).callonListContinuationElement1749,
+																													expr: &choiceExpr{
+																														pos: position{line: 2919, col: 13, offset: 91996},
+																														alternatives: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 2919, col: 13, offset: 91996},
+																																val:        "\n",
+																																ignoreCase: false,
+																																want:       "\"\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2919, col: 20, offset: 92003},
+																																val:        "\r\n",
+																																ignoreCase: false,
+																																want:       "\"\\r\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2919, col: 29, offset: 92012},
+																																val:        "\r",
+																																ignoreCase: false,
+																																want:       "\"\\r\"",
+																															},
+																														},
+																													},
+																												},
+																												&notExpr{
+																													pos: position{line: 2929, col: 8, offset: 92172},
+																													expr: &anyMatcher{
+																														line: 2929, col: 9, offset: 92173,
+																													},
+																												},
 																											},
 																										},
 																									},
+																									&anyMatcher{
+																										line: 1670, col: 40, offset: 54150,
+																									},
 																								},
 																							},
-																							&anyMatcher{
-																								line: 1669, col: 40, offset: 54118,
-																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1674, col: 5, offset: 54234},
-																				run: (*parser).callonListContinuationElement1745,
+																				pos: position{line: 1675, col: 5, offset: 54266},
+																				run: (*parser).callonListContinuationElement1757,
 																				expr: &seqExpr{
-																					pos: position{line: 1674, col: 5, offset: 54234},
+																					pos: position{line: 1675, col: 5, offset: 54266},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1674, col: 5, offset: 54234},
+																							pos:   position{line: 1675, col: 5, offset: 54266},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1674, col: 16, offset: 54245},
-																								run: (*parser).callonListContinuationElement1748,
+																								pos: position{line: 1675, col: 16, offset: 54277},
+																								run: (*parser).callonListContinuationElement1760,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1674, col: 16, offset: 54245},
+																									pos: position{line: 1675, col: 16, offset: 54277},
 																									expr: &litMatcher{
-																										pos:        position{line: 1674, col: 17, offset: 54246},
+																										pos:        position{line: 1675, col: 17, offset: 54278},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37691,8 +37859,8 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1677, col: 5, offset: 54303},
-																							run: (*parser).callonListContinuationElement1751,
+																							pos: position{line: 1678, col: 5, offset: 54335},
+																							run: (*parser).callonListContinuationElement1763,
 																						},
 																					},
 																				},
@@ -37704,14 +37872,14 @@ var g = &grammar{
 																	pos: position{line: 1517, col: 5, offset: 49201},
 																	expr: &actionExpr{
 																		pos: position{line: 725, col: 5, offset: 23139},
-																		run: (*parser).callonListContinuationElement1753,
+																		run: (*parser).callonListContinuationElement1765,
 																		expr: &seqExpr{
 																			pos: position{line: 725, col: 5, offset: 23139},
 																			exprs: []interface{}{
 																				&notExpr{
 																					pos: position{line: 725, col: 5, offset: 23139},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2799, col: 13, offset: 88887},
+																						pos:        position{line: 2800, col: 13, offset: 88919},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37726,7 +37894,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 741, col: 5, offset: 23681},
-																								run: (*parser).callonListContinuationElement1759,
+																								run: (*parser).callonListContinuationElement1771,
 																								expr: &seqExpr{
 																									pos: position{line: 741, col: 5, offset: 23681},
 																									exprs: []interface{}{
@@ -37735,7 +37903,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 741, col: 16, offset: 23692},
-																												run: (*parser).callonListContinuationElement1762,
+																												run: (*parser).callonListContinuationElement1774,
 																												expr: &seqExpr{
 																													pos: position{line: 741, col: 16, offset: 23692},
 																													exprs: []interface{}{
@@ -37761,10 +37929,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 743, col: 8, offset: 23783},
 																											expr: &actionExpr{
-																												pos: position{line: 2909, col: 10, offset: 91792},
-																												run: (*parser).callonListContinuationElement1768,
+																												pos: position{line: 2910, col: 10, offset: 91824},
+																												run: (*parser).callonListContinuationElement1780,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2909, col: 10, offset: 91792},
+																													pos:        position{line: 2910, col: 10, offset: 91824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37773,28 +37941,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2931, col: 8, offset: 92190},
+																											pos: position{line: 2932, col: 8, offset: 92222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2918, col: 12, offset: 91963},
-																													run: (*parser).callonListContinuationElement1771,
+																													pos: position{line: 2919, col: 12, offset: 91995},
+																													run: (*parser).callonListContinuationElement1783,
 																													expr: &choiceExpr{
-																														pos: position{line: 2918, col: 13, offset: 91964},
+																														pos: position{line: 2919, col: 13, offset: 91996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 13, offset: 91964},
+																																pos:        position{line: 2919, col: 13, offset: 91996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 20, offset: 91971},
+																																pos:        position{line: 2919, col: 20, offset: 92003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 29, offset: 91980},
+																																pos:        position{line: 2919, col: 29, offset: 92012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37803,9 +37971,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2928, col: 8, offset: 92140},
+																													pos: position{line: 2929, col: 8, offset: 92172},
 																													expr: &anyMatcher{
-																														line: 2928, col: 9, offset: 92141,
+																														line: 2929, col: 9, offset: 92173,
 																													},
 																												},
 																											},
@@ -37815,7 +37983,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 748, col: 5, offset: 23929},
-																								run: (*parser).callonListContinuationElement1778,
+																								run: (*parser).callonListContinuationElement1790,
 																								expr: &seqExpr{
 																									pos: position{line: 748, col: 5, offset: 23929},
 																									exprs: []interface{}{
@@ -37824,7 +37992,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 748, col: 16, offset: 23940},
-																												run: (*parser).callonListContinuationElement1781,
+																												run: (*parser).callonListContinuationElement1793,
 																												expr: &seqExpr{
 																													pos: position{line: 748, col: 16, offset: 23940},
 																													exprs: []interface{}{
@@ -37850,10 +38018,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 750, col: 8, offset: 24031},
 																											expr: &actionExpr{
-																												pos: position{line: 2909, col: 10, offset: 91792},
-																												run: (*parser).callonListContinuationElement1787,
+																												pos: position{line: 2910, col: 10, offset: 91824},
+																												run: (*parser).callonListContinuationElement1799,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2909, col: 10, offset: 91792},
+																													pos:        position{line: 2910, col: 10, offset: 91824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37862,28 +38030,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2931, col: 8, offset: 92190},
+																											pos: position{line: 2932, col: 8, offset: 92222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2918, col: 12, offset: 91963},
-																													run: (*parser).callonListContinuationElement1790,
+																													pos: position{line: 2919, col: 12, offset: 91995},
+																													run: (*parser).callonListContinuationElement1802,
 																													expr: &choiceExpr{
-																														pos: position{line: 2918, col: 13, offset: 91964},
+																														pos: position{line: 2919, col: 13, offset: 91996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 13, offset: 91964},
+																																pos:        position{line: 2919, col: 13, offset: 91996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 20, offset: 91971},
+																																pos:        position{line: 2919, col: 20, offset: 92003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 29, offset: 91980},
+																																pos:        position{line: 2919, col: 29, offset: 92012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37892,9 +38060,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2928, col: 8, offset: 92140},
+																													pos: position{line: 2929, col: 8, offset: 92172},
 																													expr: &anyMatcher{
-																														line: 2928, col: 9, offset: 92141,
+																														line: 2929, col: 9, offset: 92173,
 																													},
 																												},
 																											},
@@ -37904,7 +38072,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 761, col: 26, offset: 24417},
-																								run: (*parser).callonListContinuationElement1797,
+																								run: (*parser).callonListContinuationElement1809,
 																								expr: &seqExpr{
 																									pos: position{line: 761, col: 26, offset: 24417},
 																									exprs: []interface{}{
@@ -37919,7 +38087,7 @@ var g = &grammar{
 																											label: "language",
 																											expr: &actionExpr{
 																												pos: position{line: 765, col: 13, offset: 24553},
-																												run: (*parser).callonListContinuationElement1801,
+																												run: (*parser).callonListContinuationElement1813,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 765, col: 14, offset: 24554},
 																													expr: &charClassMatcher{
@@ -37935,10 +38103,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 761, col: 52, offset: 24443},
 																											expr: &actionExpr{
-																												pos: position{line: 2909, col: 10, offset: 91792},
-																												run: (*parser).callonListContinuationElement1805,
+																												pos: position{line: 2910, col: 10, offset: 91824},
+																												run: (*parser).callonListContinuationElement1817,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2909, col: 10, offset: 91792},
+																													pos:        position{line: 2910, col: 10, offset: 91824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37947,28 +38115,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2931, col: 8, offset: 92190},
+																											pos: position{line: 2932, col: 8, offset: 92222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2918, col: 12, offset: 91963},
-																													run: (*parser).callonListContinuationElement1808,
+																													pos: position{line: 2919, col: 12, offset: 91995},
+																													run: (*parser).callonListContinuationElement1820,
 																													expr: &choiceExpr{
-																														pos: position{line: 2918, col: 13, offset: 91964},
+																														pos: position{line: 2919, col: 13, offset: 91996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 13, offset: 91964},
+																																pos:        position{line: 2919, col: 13, offset: 91996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 20, offset: 91971},
+																																pos:        position{line: 2919, col: 20, offset: 92003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 29, offset: 91980},
+																																pos:        position{line: 2919, col: 29, offset: 92012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37977,9 +38145,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2928, col: 8, offset: 92140},
+																													pos: position{line: 2929, col: 8, offset: 92172},
 																													expr: &anyMatcher{
-																														line: 2928, col: 9, offset: 92141,
+																														line: 2929, col: 9, offset: 92173,
 																													},
 																												},
 																											},
@@ -37989,7 +38157,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 755, col: 5, offset: 24176},
-																								run: (*parser).callonListContinuationElement1815,
+																								run: (*parser).callonListContinuationElement1827,
 																								expr: &seqExpr{
 																									pos: position{line: 755, col: 5, offset: 24176},
 																									exprs: []interface{}{
@@ -37998,7 +38166,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 755, col: 16, offset: 24187},
-																												run: (*parser).callonListContinuationElement1818,
+																												run: (*parser).callonListContinuationElement1830,
 																												expr: &seqExpr{
 																													pos: position{line: 755, col: 16, offset: 24187},
 																													exprs: []interface{}{
@@ -38024,10 +38192,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 757, col: 8, offset: 24277},
 																											expr: &actionExpr{
-																												pos: position{line: 2909, col: 10, offset: 91792},
-																												run: (*parser).callonListContinuationElement1824,
+																												pos: position{line: 2910, col: 10, offset: 91824},
+																												run: (*parser).callonListContinuationElement1836,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2909, col: 10, offset: 91792},
+																													pos:        position{line: 2910, col: 10, offset: 91824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38036,28 +38204,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2931, col: 8, offset: 92190},
+																											pos: position{line: 2932, col: 8, offset: 92222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2918, col: 12, offset: 91963},
-																													run: (*parser).callonListContinuationElement1827,
+																													pos: position{line: 2919, col: 12, offset: 91995},
+																													run: (*parser).callonListContinuationElement1839,
 																													expr: &choiceExpr{
-																														pos: position{line: 2918, col: 13, offset: 91964},
+																														pos: position{line: 2919, col: 13, offset: 91996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 13, offset: 91964},
+																																pos:        position{line: 2919, col: 13, offset: 91996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 20, offset: 91971},
+																																pos:        position{line: 2919, col: 20, offset: 92003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 29, offset: 91980},
+																																pos:        position{line: 2919, col: 29, offset: 92012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38066,9 +38234,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2928, col: 8, offset: 92140},
+																													pos: position{line: 2929, col: 8, offset: 92172},
 																													expr: &anyMatcher{
-																														line: 2928, col: 9, offset: 92141,
+																														line: 2929, col: 9, offset: 92173,
 																													},
 																												},
 																											},
@@ -38078,7 +38246,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 770, col: 5, offset: 24713},
-																								run: (*parser).callonListContinuationElement1834,
+																								run: (*parser).callonListContinuationElement1846,
 																								expr: &seqExpr{
 																									pos: position{line: 770, col: 5, offset: 24713},
 																									exprs: []interface{}{
@@ -38087,7 +38255,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 770, col: 16, offset: 24724},
-																												run: (*parser).callonListContinuationElement1837,
+																												run: (*parser).callonListContinuationElement1849,
 																												expr: &seqExpr{
 																													pos: position{line: 770, col: 16, offset: 24724},
 																													exprs: []interface{}{
@@ -38113,10 +38281,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 772, col: 8, offset: 24815},
 																											expr: &actionExpr{
-																												pos: position{line: 2909, col: 10, offset: 91792},
-																												run: (*parser).callonListContinuationElement1843,
+																												pos: position{line: 2910, col: 10, offset: 91824},
+																												run: (*parser).callonListContinuationElement1855,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2909, col: 10, offset: 91792},
+																													pos:        position{line: 2910, col: 10, offset: 91824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38125,28 +38293,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2931, col: 8, offset: 92190},
+																											pos: position{line: 2932, col: 8, offset: 92222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2918, col: 12, offset: 91963},
-																													run: (*parser).callonListContinuationElement1846,
+																													pos: position{line: 2919, col: 12, offset: 91995},
+																													run: (*parser).callonListContinuationElement1858,
 																													expr: &choiceExpr{
-																														pos: position{line: 2918, col: 13, offset: 91964},
+																														pos: position{line: 2919, col: 13, offset: 91996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 13, offset: 91964},
+																																pos:        position{line: 2919, col: 13, offset: 91996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 20, offset: 91971},
+																																pos:        position{line: 2919, col: 20, offset: 92003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 29, offset: 91980},
+																																pos:        position{line: 2919, col: 29, offset: 92012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38155,9 +38323,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2928, col: 8, offset: 92140},
+																													pos: position{line: 2929, col: 8, offset: 92172},
 																													expr: &anyMatcher{
-																														line: 2928, col: 9, offset: 92141,
+																														line: 2929, col: 9, offset: 92173,
 																													},
 																												},
 																											},
@@ -38167,7 +38335,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 784, col: 5, offset: 25189},
-																								run: (*parser).callonListContinuationElement1853,
+																								run: (*parser).callonListContinuationElement1865,
 																								expr: &seqExpr{
 																									pos: position{line: 784, col: 5, offset: 25189},
 																									exprs: []interface{}{
@@ -38176,7 +38344,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 784, col: 16, offset: 25200},
-																												run: (*parser).callonListContinuationElement1856,
+																												run: (*parser).callonListContinuationElement1868,
 																												expr: &seqExpr{
 																													pos: position{line: 784, col: 16, offset: 25200},
 																													exprs: []interface{}{
@@ -38202,10 +38370,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 786, col: 8, offset: 25291},
 																											expr: &actionExpr{
-																												pos: position{line: 2909, col: 10, offset: 91792},
-																												run: (*parser).callonListContinuationElement1862,
+																												pos: position{line: 2910, col: 10, offset: 91824},
+																												run: (*parser).callonListContinuationElement1874,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2909, col: 10, offset: 91792},
+																													pos:        position{line: 2910, col: 10, offset: 91824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38214,28 +38382,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2931, col: 8, offset: 92190},
+																											pos: position{line: 2932, col: 8, offset: 92222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2918, col: 12, offset: 91963},
-																													run: (*parser).callonListContinuationElement1865,
+																													pos: position{line: 2919, col: 12, offset: 91995},
+																													run: (*parser).callonListContinuationElement1877,
 																													expr: &choiceExpr{
-																														pos: position{line: 2918, col: 13, offset: 91964},
+																														pos: position{line: 2919, col: 13, offset: 91996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 13, offset: 91964},
+																																pos:        position{line: 2919, col: 13, offset: 91996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 20, offset: 91971},
+																																pos:        position{line: 2919, col: 20, offset: 92003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 29, offset: 91980},
+																																pos:        position{line: 2919, col: 29, offset: 92012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38244,9 +38412,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2928, col: 8, offset: 92140},
+																													pos: position{line: 2929, col: 8, offset: 92172},
 																													expr: &anyMatcher{
-																														line: 2928, col: 9, offset: 92141,
+																														line: 2929, col: 9, offset: 92173,
 																													},
 																												},
 																											},
@@ -38256,7 +38424,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 791, col: 5, offset: 25441},
-																								run: (*parser).callonListContinuationElement1872,
+																								run: (*parser).callonListContinuationElement1884,
 																								expr: &seqExpr{
 																									pos: position{line: 791, col: 5, offset: 25441},
 																									exprs: []interface{}{
@@ -38265,7 +38433,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 791, col: 16, offset: 25452},
-																												run: (*parser).callonListContinuationElement1875,
+																												run: (*parser).callonListContinuationElement1887,
 																												expr: &seqExpr{
 																													pos: position{line: 791, col: 16, offset: 25452},
 																													exprs: []interface{}{
@@ -38291,10 +38459,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 793, col: 8, offset: 25543},
 																											expr: &actionExpr{
-																												pos: position{line: 2909, col: 10, offset: 91792},
-																												run: (*parser).callonListContinuationElement1881,
+																												pos: position{line: 2910, col: 10, offset: 91824},
+																												run: (*parser).callonListContinuationElement1893,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2909, col: 10, offset: 91792},
+																													pos:        position{line: 2910, col: 10, offset: 91824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38303,28 +38471,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2931, col: 8, offset: 92190},
+																											pos: position{line: 2932, col: 8, offset: 92222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2918, col: 12, offset: 91963},
-																													run: (*parser).callonListContinuationElement1884,
+																													pos: position{line: 2919, col: 12, offset: 91995},
+																													run: (*parser).callonListContinuationElement1896,
 																													expr: &choiceExpr{
-																														pos: position{line: 2918, col: 13, offset: 91964},
+																														pos: position{line: 2919, col: 13, offset: 91996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 13, offset: 91964},
+																																pos:        position{line: 2919, col: 13, offset: 91996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 20, offset: 91971},
+																																pos:        position{line: 2919, col: 20, offset: 92003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 29, offset: 91980},
+																																pos:        position{line: 2919, col: 29, offset: 92012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38333,9 +38501,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2928, col: 8, offset: 92140},
+																													pos: position{line: 2929, col: 8, offset: 92172},
 																													expr: &anyMatcher{
-																														line: 2928, col: 9, offset: 92141,
+																														line: 2929, col: 9, offset: 92173,
 																													},
 																												},
 																											},
@@ -38345,7 +38513,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 798, col: 5, offset: 25691},
-																								run: (*parser).callonListContinuationElement1891,
+																								run: (*parser).callonListContinuationElement1903,
 																								expr: &seqExpr{
 																									pos: position{line: 798, col: 5, offset: 25691},
 																									exprs: []interface{}{
@@ -38354,7 +38522,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 798, col: 16, offset: 25702},
-																												run: (*parser).callonListContinuationElement1894,
+																												run: (*parser).callonListContinuationElement1906,
 																												expr: &seqExpr{
 																													pos: position{line: 798, col: 16, offset: 25702},
 																													exprs: []interface{}{
@@ -38380,10 +38548,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 800, col: 8, offset: 25793},
 																											expr: &actionExpr{
-																												pos: position{line: 2909, col: 10, offset: 91792},
-																												run: (*parser).callonListContinuationElement1900,
+																												pos: position{line: 2910, col: 10, offset: 91824},
+																												run: (*parser).callonListContinuationElement1912,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2909, col: 10, offset: 91792},
+																													pos:        position{line: 2910, col: 10, offset: 91824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38392,28 +38560,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2931, col: 8, offset: 92190},
+																											pos: position{line: 2932, col: 8, offset: 92222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2918, col: 12, offset: 91963},
-																													run: (*parser).callonListContinuationElement1903,
+																													pos: position{line: 2919, col: 12, offset: 91995},
+																													run: (*parser).callonListContinuationElement1915,
 																													expr: &choiceExpr{
-																														pos: position{line: 2918, col: 13, offset: 91964},
+																														pos: position{line: 2919, col: 13, offset: 91996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 13, offset: 91964},
+																																pos:        position{line: 2919, col: 13, offset: 91996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 20, offset: 91971},
+																																pos:        position{line: 2919, col: 20, offset: 92003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 29, offset: 91980},
+																																pos:        position{line: 2919, col: 29, offset: 92012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38422,9 +38590,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2928, col: 8, offset: 92140},
+																													pos: position{line: 2929, col: 8, offset: 92172},
 																													expr: &anyMatcher{
-																														line: 2928, col: 9, offset: 92141,
+																														line: 2929, col: 9, offset: 92173,
 																													},
 																												},
 																											},
@@ -38434,7 +38602,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 805, col: 5, offset: 25937},
-																								run: (*parser).callonListContinuationElement1910,
+																								run: (*parser).callonListContinuationElement1922,
 																								expr: &seqExpr{
 																									pos: position{line: 805, col: 5, offset: 25937},
 																									exprs: []interface{}{
@@ -38443,7 +38611,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 805, col: 16, offset: 25948},
-																												run: (*parser).callonListContinuationElement1913,
+																												run: (*parser).callonListContinuationElement1925,
 																												expr: &seqExpr{
 																													pos: position{line: 805, col: 16, offset: 25948},
 																													exprs: []interface{}{
@@ -38469,10 +38637,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 807, col: 8, offset: 26039},
 																											expr: &actionExpr{
-																												pos: position{line: 2909, col: 10, offset: 91792},
-																												run: (*parser).callonListContinuationElement1919,
+																												pos: position{line: 2910, col: 10, offset: 91824},
+																												run: (*parser).callonListContinuationElement1931,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2909, col: 10, offset: 91792},
+																													pos:        position{line: 2910, col: 10, offset: 91824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38481,28 +38649,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2931, col: 8, offset: 92190},
+																											pos: position{line: 2932, col: 8, offset: 92222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2918, col: 12, offset: 91963},
-																													run: (*parser).callonListContinuationElement1922,
+																													pos: position{line: 2919, col: 12, offset: 91995},
+																													run: (*parser).callonListContinuationElement1934,
 																													expr: &choiceExpr{
-																														pos: position{line: 2918, col: 13, offset: 91964},
+																														pos: position{line: 2919, col: 13, offset: 91996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 13, offset: 91964},
+																																pos:        position{line: 2919, col: 13, offset: 91996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 20, offset: 91971},
+																																pos:        position{line: 2919, col: 20, offset: 92003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2918, col: 29, offset: 91980},
+																																pos:        position{line: 2919, col: 29, offset: 92012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38511,9 +38679,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2928, col: 8, offset: 92140},
+																													pos: position{line: 2929, col: 8, offset: 92172},
 																													expr: &anyMatcher{
-																														line: 2928, col: 9, offset: 92141,
+																														line: 2929, col: 9, offset: 92173,
 																													},
 																												},
 																											},
@@ -38532,12 +38700,12 @@ var g = &grammar{
 																	pos:   position{line: 1518, col: 5, offset: 49221},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2859, col: 14, offset: 90385},
-																		run: (*parser).callonListContinuationElement1930,
+																		pos: position{line: 2860, col: 14, offset: 90417},
+																		run: (*parser).callonListContinuationElement1942,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2859, col: 14, offset: 90385},
+																			pos: position{line: 2860, col: 14, offset: 90417},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2859, col: 14, offset: 90385},
+																				pos:        position{line: 2860, col: 14, offset: 90417},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38547,28 +38715,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2931, col: 8, offset: 92190},
+																	pos: position{line: 2932, col: 8, offset: 92222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2918, col: 12, offset: 91963},
-																			run: (*parser).callonListContinuationElement1934,
+																			pos: position{line: 2919, col: 12, offset: 91995},
+																			run: (*parser).callonListContinuationElement1946,
 																			expr: &choiceExpr{
-																				pos: position{line: 2918, col: 13, offset: 91964},
+																				pos: position{line: 2919, col: 13, offset: 91996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 13, offset: 91964},
+																						pos:        position{line: 2919, col: 13, offset: 91996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 20, offset: 91971},
+																						pos:        position{line: 2919, col: 20, offset: 92003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 29, offset: 91980},
+																						pos:        position{line: 2919, col: 29, offset: 92012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38577,9 +38745,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2928, col: 8, offset: 92140},
+																			pos: position{line: 2929, col: 8, offset: 92172},
 																			expr: &anyMatcher{
-																				line: 2928, col: 9, offset: 92141,
+																				line: 2929, col: 9, offset: 92173,
 																			},
 																		},
 																	},
@@ -38600,33 +38768,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1707, col: 1, offset: 55095},
+			pos:  position{line: 1708, col: 1, offset: 55127},
 			expr: &actionExpr{
-				pos: position{line: 1709, col: 5, offset: 55173},
+				pos: position{line: 1710, col: 5, offset: 55205},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1709, col: 5, offset: 55173},
+					pos: position{line: 1710, col: 5, offset: 55205},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1709, col: 5, offset: 55173},
+							pos: position{line: 1710, col: 5, offset: 55205},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1712, col: 5, offset: 55240},
+							pos:        position{line: 1713, col: 5, offset: 55272},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1712, col: 9, offset: 55244},
+							pos:   position{line: 1713, col: 9, offset: 55276},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1712, col: 14, offset: 55249},
+								pos: position{line: 1713, col: 14, offset: 55281},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1712, col: 14, offset: 55249},
+									pos: position{line: 1713, col: 14, offset: 55281},
 									expr: &charClassMatcher{
-										pos:        position{line: 1712, col: 14, offset: 55249},
+										pos:        position{line: 1713, col: 14, offset: 55281},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -38636,18 +38804,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1712, col: 62, offset: 55297},
+							pos:        position{line: 1713, col: 62, offset: 55329},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1712, col: 66, offset: 55301},
+							pos: position{line: 1713, col: 66, offset: 55333},
 							expr: &actionExpr{
-								pos: position{line: 2909, col: 10, offset: 91792},
+								pos: position{line: 2910, col: 10, offset: 91824},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2909, col: 10, offset: 91792},
+									pos:        position{line: 2910, col: 10, offset: 91824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38656,30 +38824,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1712, col: 73, offset: 55308},
+							pos: position{line: 1713, col: 73, offset: 55340},
 							expr: &choiceExpr{
-								pos: position{line: 1712, col: 75, offset: 55310},
+								pos: position{line: 1713, col: 75, offset: 55342},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2918, col: 12, offset: 91963},
+										pos: position{line: 2919, col: 12, offset: 91995},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2918, col: 13, offset: 91964},
+											pos: position{line: 2919, col: 13, offset: 91996},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2918, col: 13, offset: 91964},
+													pos:        position{line: 2919, col: 13, offset: 91996},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2918, col: 20, offset: 91971},
+													pos:        position{line: 2919, col: 20, offset: 92003},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2918, col: 29, offset: 91980},
+													pos:        position{line: 2919, col: 29, offset: 92012},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38688,13 +38856,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2928, col: 8, offset: 92140},
+										pos: position{line: 2929, col: 8, offset: 92172},
 										expr: &anyMatcher{
-											line: 2928, col: 9, offset: 92141,
+											line: 2929, col: 9, offset: 92173,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1712, col: 81, offset: 55316},
+										pos:  position{line: 1713, col: 81, offset: 55348},
 										name: "Callout",
 									},
 								},
@@ -38706,44 +38874,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1751, col: 1, offset: 56489},
+			pos:  position{line: 1752, col: 1, offset: 56521},
 			expr: &actionExpr{
-				pos: position{line: 1753, col: 5, offset: 56563},
+				pos: position{line: 1754, col: 5, offset: 56595},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1753, col: 5, offset: 56563},
+					pos: position{line: 1754, col: 5, offset: 56595},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1753, col: 5, offset: 56563},
+							pos: position{line: 1754, col: 5, offset: 56595},
 							expr: &seqExpr{
-								pos: position{line: 1753, col: 7, offset: 56565},
+								pos: position{line: 1754, col: 7, offset: 56597},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2799, col: 13, offset: 88887},
+										pos:        position{line: 2800, col: 13, offset: 88919},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1753, col: 16, offset: 56574},
+										pos: position{line: 1754, col: 16, offset: 56606},
 										expr: &seqExpr{
-											pos: position{line: 1753, col: 18, offset: 56576},
+											pos: position{line: 1754, col: 18, offset: 56608},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1753, col: 19, offset: 56577},
+													pos:        position{line: 1754, col: 19, offset: 56609},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2913, col: 11, offset: 91853},
+													pos: position{line: 2914, col: 11, offset: 91885},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2913, col: 11, offset: 91853},
+														pos: position{line: 2914, col: 11, offset: 91885},
 														expr: &charClassMatcher{
-															pos:        position{line: 2913, col: 11, offset: 91853},
+															pos:        position{line: 2914, col: 11, offset: 91885},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38758,88 +38926,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1754, col: 5, offset: 56717},
+							pos:   position{line: 1755, col: 5, offset: 56749},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1754, col: 11, offset: 56723},
+								pos: position{line: 1755, col: 11, offset: 56755},
 								expr: &actionExpr{
-									pos: position{line: 1732, col: 5, offset: 55986},
+									pos: position{line: 1733, col: 5, offset: 56018},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1732, col: 5, offset: 55986},
+										pos: position{line: 1733, col: 5, offset: 56018},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1732, col: 5, offset: 55986},
+												pos: position{line: 1733, col: 5, offset: 56018},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1735, col: 5, offset: 56049},
+												pos:   position{line: 1736, col: 5, offset: 56081},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1735, col: 12, offset: 56056},
+													pos: position{line: 1736, col: 12, offset: 56088},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1735, col: 12, offset: 56056},
+															pos: position{line: 1736, col: 12, offset: 56088},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1735, col: 12, offset: 56056},
+																pos:        position{line: 1736, col: 12, offset: 56088},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1737, col: 13, offset: 56112},
+															pos: position{line: 1738, col: 13, offset: 56144},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1737, col: 13, offset: 56112},
+																pos:        position{line: 1738, col: 13, offset: 56144},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1739, col: 13, offset: 56170},
+															pos: position{line: 1740, col: 13, offset: 56202},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1739, col: 13, offset: 56170},
+																pos:        position{line: 1740, col: 13, offset: 56202},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1741, col: 13, offset: 56238},
+															pos: position{line: 1742, col: 13, offset: 56270},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1741, col: 13, offset: 56238},
+																pos:        position{line: 1742, col: 13, offset: 56270},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1743, col: 13, offset: 56302},
+															pos: position{line: 1744, col: 13, offset: 56334},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1743, col: 13, offset: 56302},
+																pos:        position{line: 1744, col: 13, offset: 56334},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1745, col: 13, offset: 56366},
+															pos: position{line: 1746, col: 13, offset: 56398},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1745, col: 13, offset: 56366},
+																pos: position{line: 1746, col: 13, offset: 56398},
 																expr: &actionExpr{
-																	pos: position{line: 2913, col: 11, offset: 91853},
+																	pos: position{line: 2914, col: 11, offset: 91885},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2913, col: 11, offset: 91853},
+																		pos: position{line: 2914, col: 11, offset: 91885},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2913, col: 11, offset: 91853},
+																			pos:        position{line: 2914, col: 11, offset: 91885},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38858,24 +39026,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1755, col: 5, offset: 56745},
+							pos:   position{line: 1756, col: 5, offset: 56777},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1791, col: 5, offset: 57852},
+								pos: position{line: 1792, col: 5, offset: 57884},
 								run: (*parser).callonShortcutParagraph35,
 								expr: &seqExpr{
-									pos: position{line: 1791, col: 5, offset: 57852},
+									pos: position{line: 1792, col: 5, offset: 57884},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1791, col: 5, offset: 57852},
+											pos:   position{line: 1792, col: 5, offset: 57884},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2859, col: 14, offset: 90385},
+												pos: position{line: 2860, col: 14, offset: 90417},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2859, col: 14, offset: 90385},
+													pos: position{line: 2860, col: 14, offset: 90417},
 													expr: &charClassMatcher{
-														pos:        position{line: 2859, col: 14, offset: 90385},
+														pos:        position{line: 2860, col: 14, offset: 90417},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -38885,32 +39053,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1792, col: 5, offset: 57876},
+											pos: position{line: 1793, col: 5, offset: 57908},
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2931, col: 8, offset: 92190},
+											pos: position{line: 2932, col: 8, offset: 92222},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2918, col: 12, offset: 91963},
+													pos: position{line: 2919, col: 12, offset: 91995},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2918, col: 13, offset: 91964},
+														pos: position{line: 2919, col: 13, offset: 91996},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2918, col: 13, offset: 91964},
+																pos:        position{line: 2919, col: 13, offset: 91996},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2918, col: 20, offset: 91971},
+																pos:        position{line: 2919, col: 20, offset: 92003},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2918, col: 29, offset: 91980},
+																pos:        position{line: 2919, col: 29, offset: 92012},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -38919,9 +39087,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2928, col: 8, offset: 92140},
+													pos: position{line: 2929, col: 8, offset: 92172},
 													expr: &anyMatcher{
-														line: 2928, col: 9, offset: 92141,
+														line: 2929, col: 9, offset: 92173,
 													},
 												},
 											},
@@ -38931,28 +39099,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1756, col: 5, offset: 56779},
+							pos: position{line: 1757, col: 5, offset: 56811},
 							run: (*parser).callonShortcutParagraph50,
 						},
 						&labeledExpr{
-							pos:   position{line: 1763, col: 5, offset: 57109},
+							pos:   position{line: 1764, col: 5, offset: 57141},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1763, col: 16, offset: 57120},
+								pos: position{line: 1764, col: 16, offset: 57152},
 								expr: &actionExpr{
-									pos: position{line: 1764, col: 9, offset: 57130},
+									pos: position{line: 1765, col: 9, offset: 57162},
 									run: (*parser).callonShortcutParagraph53,
 									expr: &seqExpr{
-										pos: position{line: 1764, col: 9, offset: 57130},
+										pos: position{line: 1765, col: 9, offset: 57162},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2926, col: 11, offset: 92126},
+												pos: position{line: 2927, col: 11, offset: 92158},
 												expr: &anyMatcher{
-													line: 2926, col: 13, offset: 92128,
+													line: 2927, col: 13, offset: 92160,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1765, col: 9, offset: 57146},
+												pos: position{line: 1766, col: 9, offset: 57178},
 												expr: &actionExpr{
 													pos: position{line: 678, col: 14, offset: 21586},
 													run: (*parser).callonShortcutParagraph58,
@@ -38960,18 +39128,18 @@ var g = &grammar{
 														pos: position{line: 678, col: 14, offset: 21586},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2926, col: 11, offset: 92126},
+																pos: position{line: 2927, col: 11, offset: 92158},
 																expr: &anyMatcher{
-																	line: 2926, col: 13, offset: 92128,
+																	line: 2927, col: 13, offset: 92160,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 678, col: 21, offset: 21593},
 																expr: &actionExpr{
-																	pos: position{line: 2909, col: 10, offset: 91792},
+																	pos: position{line: 2910, col: 10, offset: 91824},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2909, col: 10, offset: 91792},
+																		pos:        position{line: 2910, col: 10, offset: 91824},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38980,28 +39148,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2931, col: 8, offset: 92190},
+																pos: position{line: 2932, col: 8, offset: 92222},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2918, col: 12, offset: 91963},
+																		pos: position{line: 2919, col: 12, offset: 91995},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2918, col: 13, offset: 91964},
+																			pos: position{line: 2919, col: 13, offset: 91996},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2918, col: 13, offset: 91964},
+																					pos:        position{line: 2919, col: 13, offset: 91996},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2918, col: 20, offset: 91971},
+																					pos:        position{line: 2919, col: 20, offset: 92003},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2918, col: 29, offset: 91980},
+																					pos:        position{line: 2919, col: 29, offset: 92012},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39010,9 +39178,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2928, col: 8, offset: 92140},
+																		pos: position{line: 2929, col: 8, offset: 92172},
 																		expr: &anyMatcher{
-																			line: 2928, col: 9, offset: 92141,
+																			line: 2929, col: 9, offset: 92173,
 																		},
 																	},
 																},
@@ -39022,14 +39190,14 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1766, col: 9, offset: 57165},
+												pos: position{line: 1767, col: 9, offset: 57197},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1766, col: 10, offset: 57166},
+													pos:  position{line: 1767, col: 10, offset: 57198},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1767, col: 9, offset: 57190},
+												pos: position{line: 1768, col: 9, offset: 57222},
 												expr: &actionExpr{
 													pos: position{line: 725, col: 5, offset: 23139},
 													run: (*parser).callonShortcutParagraph76,
@@ -39039,7 +39207,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 725, col: 5, offset: 23139},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2799, col: 13, offset: 88887},
+																	pos:        position{line: 2800, col: 13, offset: 88919},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -39089,10 +39257,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 743, col: 8, offset: 23783},
 																						expr: &actionExpr{
-																							pos: position{line: 2909, col: 10, offset: 91792},
+																							pos: position{line: 2910, col: 10, offset: 91824},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2909, col: 10, offset: 91792},
+																								pos:        position{line: 2910, col: 10, offset: 91824},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39101,28 +39269,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2931, col: 8, offset: 92190},
+																						pos: position{line: 2932, col: 8, offset: 92222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2918, col: 12, offset: 91963},
+																								pos: position{line: 2919, col: 12, offset: 91995},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2918, col: 13, offset: 91964},
+																									pos: position{line: 2919, col: 13, offset: 91996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 13, offset: 91964},
+																											pos:        position{line: 2919, col: 13, offset: 91996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 20, offset: 91971},
+																											pos:        position{line: 2919, col: 20, offset: 92003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 29, offset: 91980},
+																											pos:        position{line: 2919, col: 29, offset: 92012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39131,9 +39299,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2928, col: 8, offset: 92140},
+																								pos: position{line: 2929, col: 8, offset: 92172},
 																								expr: &anyMatcher{
-																									line: 2928, col: 9, offset: 92141,
+																									line: 2929, col: 9, offset: 92173,
 																								},
 																							},
 																						},
@@ -39178,10 +39346,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 750, col: 8, offset: 24031},
 																						expr: &actionExpr{
-																							pos: position{line: 2909, col: 10, offset: 91792},
+																							pos: position{line: 2910, col: 10, offset: 91824},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2909, col: 10, offset: 91792},
+																								pos:        position{line: 2910, col: 10, offset: 91824},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39190,28 +39358,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2931, col: 8, offset: 92190},
+																						pos: position{line: 2932, col: 8, offset: 92222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2918, col: 12, offset: 91963},
+																								pos: position{line: 2919, col: 12, offset: 91995},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2918, col: 13, offset: 91964},
+																									pos: position{line: 2919, col: 13, offset: 91996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 13, offset: 91964},
+																											pos:        position{line: 2919, col: 13, offset: 91996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 20, offset: 91971},
+																											pos:        position{line: 2919, col: 20, offset: 92003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 29, offset: 91980},
+																											pos:        position{line: 2919, col: 29, offset: 92012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39220,9 +39388,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2928, col: 8, offset: 92140},
+																								pos: position{line: 2929, col: 8, offset: 92172},
 																								expr: &anyMatcher{
-																									line: 2928, col: 9, offset: 92141,
+																									line: 2929, col: 9, offset: 92173,
 																								},
 																							},
 																						},
@@ -39263,10 +39431,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 761, col: 52, offset: 24443},
 																						expr: &actionExpr{
-																							pos: position{line: 2909, col: 10, offset: 91792},
+																							pos: position{line: 2910, col: 10, offset: 91824},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2909, col: 10, offset: 91792},
+																								pos:        position{line: 2910, col: 10, offset: 91824},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39275,28 +39443,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2931, col: 8, offset: 92190},
+																						pos: position{line: 2932, col: 8, offset: 92222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2918, col: 12, offset: 91963},
+																								pos: position{line: 2919, col: 12, offset: 91995},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2918, col: 13, offset: 91964},
+																									pos: position{line: 2919, col: 13, offset: 91996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 13, offset: 91964},
+																											pos:        position{line: 2919, col: 13, offset: 91996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 20, offset: 91971},
+																											pos:        position{line: 2919, col: 20, offset: 92003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 29, offset: 91980},
+																											pos:        position{line: 2919, col: 29, offset: 92012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39305,9 +39473,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2928, col: 8, offset: 92140},
+																								pos: position{line: 2929, col: 8, offset: 92172},
 																								expr: &anyMatcher{
-																									line: 2928, col: 9, offset: 92141,
+																									line: 2929, col: 9, offset: 92173,
 																								},
 																							},
 																						},
@@ -39352,10 +39520,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 757, col: 8, offset: 24277},
 																						expr: &actionExpr{
-																							pos: position{line: 2909, col: 10, offset: 91792},
+																							pos: position{line: 2910, col: 10, offset: 91824},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2909, col: 10, offset: 91792},
+																								pos:        position{line: 2910, col: 10, offset: 91824},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39364,28 +39532,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2931, col: 8, offset: 92190},
+																						pos: position{line: 2932, col: 8, offset: 92222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2918, col: 12, offset: 91963},
+																								pos: position{line: 2919, col: 12, offset: 91995},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2918, col: 13, offset: 91964},
+																									pos: position{line: 2919, col: 13, offset: 91996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 13, offset: 91964},
+																											pos:        position{line: 2919, col: 13, offset: 91996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 20, offset: 91971},
+																											pos:        position{line: 2919, col: 20, offset: 92003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 29, offset: 91980},
+																											pos:        position{line: 2919, col: 29, offset: 92012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39394,9 +39562,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2928, col: 8, offset: 92140},
+																								pos: position{line: 2929, col: 8, offset: 92172},
 																								expr: &anyMatcher{
-																									line: 2928, col: 9, offset: 92141,
+																									line: 2929, col: 9, offset: 92173,
 																								},
 																							},
 																						},
@@ -39441,10 +39609,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 772, col: 8, offset: 24815},
 																						expr: &actionExpr{
-																							pos: position{line: 2909, col: 10, offset: 91792},
+																							pos: position{line: 2910, col: 10, offset: 91824},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2909, col: 10, offset: 91792},
+																								pos:        position{line: 2910, col: 10, offset: 91824},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39453,28 +39621,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2931, col: 8, offset: 92190},
+																						pos: position{line: 2932, col: 8, offset: 92222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2918, col: 12, offset: 91963},
+																								pos: position{line: 2919, col: 12, offset: 91995},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2918, col: 13, offset: 91964},
+																									pos: position{line: 2919, col: 13, offset: 91996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 13, offset: 91964},
+																											pos:        position{line: 2919, col: 13, offset: 91996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 20, offset: 91971},
+																											pos:        position{line: 2919, col: 20, offset: 92003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 29, offset: 91980},
+																											pos:        position{line: 2919, col: 29, offset: 92012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39483,9 +39651,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2928, col: 8, offset: 92140},
+																								pos: position{line: 2929, col: 8, offset: 92172},
 																								expr: &anyMatcher{
-																									line: 2928, col: 9, offset: 92141,
+																									line: 2929, col: 9, offset: 92173,
 																								},
 																							},
 																						},
@@ -39530,10 +39698,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 786, col: 8, offset: 25291},
 																						expr: &actionExpr{
-																							pos: position{line: 2909, col: 10, offset: 91792},
+																							pos: position{line: 2910, col: 10, offset: 91824},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2909, col: 10, offset: 91792},
+																								pos:        position{line: 2910, col: 10, offset: 91824},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39542,28 +39710,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2931, col: 8, offset: 92190},
+																						pos: position{line: 2932, col: 8, offset: 92222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2918, col: 12, offset: 91963},
+																								pos: position{line: 2919, col: 12, offset: 91995},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2918, col: 13, offset: 91964},
+																									pos: position{line: 2919, col: 13, offset: 91996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 13, offset: 91964},
+																											pos:        position{line: 2919, col: 13, offset: 91996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 20, offset: 91971},
+																											pos:        position{line: 2919, col: 20, offset: 92003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 29, offset: 91980},
+																											pos:        position{line: 2919, col: 29, offset: 92012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39572,9 +39740,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2928, col: 8, offset: 92140},
+																								pos: position{line: 2929, col: 8, offset: 92172},
 																								expr: &anyMatcher{
-																									line: 2928, col: 9, offset: 92141,
+																									line: 2929, col: 9, offset: 92173,
 																								},
 																							},
 																						},
@@ -39619,10 +39787,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 793, col: 8, offset: 25543},
 																						expr: &actionExpr{
-																							pos: position{line: 2909, col: 10, offset: 91792},
+																							pos: position{line: 2910, col: 10, offset: 91824},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2909, col: 10, offset: 91792},
+																								pos:        position{line: 2910, col: 10, offset: 91824},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39631,28 +39799,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2931, col: 8, offset: 92190},
+																						pos: position{line: 2932, col: 8, offset: 92222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2918, col: 12, offset: 91963},
+																								pos: position{line: 2919, col: 12, offset: 91995},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2918, col: 13, offset: 91964},
+																									pos: position{line: 2919, col: 13, offset: 91996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 13, offset: 91964},
+																											pos:        position{line: 2919, col: 13, offset: 91996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 20, offset: 91971},
+																											pos:        position{line: 2919, col: 20, offset: 92003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 29, offset: 91980},
+																											pos:        position{line: 2919, col: 29, offset: 92012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39661,9 +39829,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2928, col: 8, offset: 92140},
+																								pos: position{line: 2929, col: 8, offset: 92172},
 																								expr: &anyMatcher{
-																									line: 2928, col: 9, offset: 92141,
+																									line: 2929, col: 9, offset: 92173,
 																								},
 																							},
 																						},
@@ -39708,10 +39876,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 800, col: 8, offset: 25793},
 																						expr: &actionExpr{
-																							pos: position{line: 2909, col: 10, offset: 91792},
+																							pos: position{line: 2910, col: 10, offset: 91824},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2909, col: 10, offset: 91792},
+																								pos:        position{line: 2910, col: 10, offset: 91824},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39720,28 +39888,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2931, col: 8, offset: 92190},
+																						pos: position{line: 2932, col: 8, offset: 92222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2918, col: 12, offset: 91963},
+																								pos: position{line: 2919, col: 12, offset: 91995},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2918, col: 13, offset: 91964},
+																									pos: position{line: 2919, col: 13, offset: 91996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 13, offset: 91964},
+																											pos:        position{line: 2919, col: 13, offset: 91996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 20, offset: 91971},
+																											pos:        position{line: 2919, col: 20, offset: 92003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 29, offset: 91980},
+																											pos:        position{line: 2919, col: 29, offset: 92012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39750,9 +39918,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2928, col: 8, offset: 92140},
+																								pos: position{line: 2929, col: 8, offset: 92172},
 																								expr: &anyMatcher{
-																									line: 2928, col: 9, offset: 92141,
+																									line: 2929, col: 9, offset: 92173,
 																								},
 																							},
 																						},
@@ -39797,10 +39965,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 807, col: 8, offset: 26039},
 																						expr: &actionExpr{
-																							pos: position{line: 2909, col: 10, offset: 91792},
+																							pos: position{line: 2910, col: 10, offset: 91824},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2909, col: 10, offset: 91792},
+																								pos:        position{line: 2910, col: 10, offset: 91824},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39809,28 +39977,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2931, col: 8, offset: 92190},
+																						pos: position{line: 2932, col: 8, offset: 92222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2918, col: 12, offset: 91963},
+																								pos: position{line: 2919, col: 12, offset: 91995},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2918, col: 13, offset: 91964},
+																									pos: position{line: 2919, col: 13, offset: 91996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 13, offset: 91964},
+																											pos:        position{line: 2919, col: 13, offset: 91996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 20, offset: 91971},
+																											pos:        position{line: 2919, col: 20, offset: 92003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2918, col: 29, offset: 91980},
+																											pos:        position{line: 2919, col: 29, offset: 92012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39839,9 +40007,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2928, col: 8, offset: 92140},
+																								pos: position{line: 2929, col: 8, offset: 92172},
 																								expr: &anyMatcher{
-																									line: 2928, col: 9, offset: 92141,
+																									line: 2929, col: 9, offset: 92173,
 																								},
 																							},
 																						},
@@ -39857,7 +40025,7 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1768, col: 9, offset: 57214},
+												pos: position{line: 1769, col: 9, offset: 57246},
 												expr: &seqExpr{
 													pos: position{line: 1543, col: 27, offset: 49883},
 													exprs: []interface{}{
@@ -39870,10 +40038,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1543, col: 31, offset: 49887},
 															expr: &actionExpr{
-																pos: position{line: 2909, col: 10, offset: 91792},
+																pos: position{line: 2910, col: 10, offset: 91824},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2909, col: 10, offset: 91792},
+																	pos:        position{line: 2910, col: 10, offset: 91824},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39882,25 +40050,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2918, col: 12, offset: 91963},
+															pos: position{line: 2919, col: 12, offset: 91995},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2918, col: 13, offset: 91964},
+																pos: position{line: 2919, col: 13, offset: 91996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 13, offset: 91964},
+																		pos:        position{line: 2919, col: 13, offset: 91996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 20, offset: 91971},
+																		pos:        position{line: 2919, col: 20, offset: 92003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 29, offset: 91980},
+																		pos:        position{line: 2919, col: 29, offset: 92012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -39912,42 +40080,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1769, col: 9, offset: 57246},
+												pos:   position{line: 1770, col: 9, offset: 57278},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1769, col: 15, offset: 57252},
+													pos: position{line: 1770, col: 15, offset: 57284},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2512, col: 22, offset: 80570},
+															pos: position{line: 2513, col: 22, offset: 80602},
 															run: (*parser).callonShortcutParagraph265,
 															expr: &seqExpr{
-																pos: position{line: 2512, col: 22, offset: 80570},
+																pos: position{line: 2513, col: 22, offset: 80602},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2517, col: 31, offset: 80820},
+																		pos:        position{line: 2518, col: 31, offset: 80852},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2517, col: 36, offset: 80825},
+																		pos: position{line: 2518, col: 36, offset: 80857},
 																		expr: &litMatcher{
-																			pos:        position{line: 2517, col: 37, offset: 80826},
+																			pos:        position{line: 2518, col: 37, offset: 80858},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2512, col: 49, offset: 80597},
+																		pos:   position{line: 2513, col: 49, offset: 80629},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2855, col: 13, offset: 90318},
+																			pos: position{line: 2856, col: 13, offset: 90350},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2855, col: 13, offset: 90318},
+																				pos: position{line: 2856, col: 13, offset: 90350},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2855, col: 13, offset: 90318},
+																					pos:        position{line: 2856, col: 13, offset: 90350},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39957,28 +40125,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2931, col: 8, offset: 92190},
+																		pos: position{line: 2932, col: 8, offset: 92222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
+																				pos: position{line: 2919, col: 12, offset: 91995},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39987,9 +40155,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2928, col: 8, offset: 92140},
+																				pos: position{line: 2929, col: 8, offset: 92172},
 																				expr: &anyMatcher{
-																					line: 2928, col: 9, offset: 92141,
+																					line: 2929, col: 9, offset: 92173,
 																				},
 																			},
 																		},
@@ -39998,21 +40166,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1791, col: 5, offset: 57852},
+															pos: position{line: 1792, col: 5, offset: 57884},
 															run: (*parser).callonShortcutParagraph282,
 															expr: &seqExpr{
-																pos: position{line: 1791, col: 5, offset: 57852},
+																pos: position{line: 1792, col: 5, offset: 57884},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1791, col: 5, offset: 57852},
+																		pos:   position{line: 1792, col: 5, offset: 57884},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2859, col: 14, offset: 90385},
+																			pos: position{line: 2860, col: 14, offset: 90417},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2859, col: 14, offset: 90385},
+																				pos: position{line: 2860, col: 14, offset: 90417},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2859, col: 14, offset: 90385},
+																					pos:        position{line: 2860, col: 14, offset: 90417},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40022,32 +40190,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1792, col: 5, offset: 57876},
+																		pos: position{line: 1793, col: 5, offset: 57908},
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2931, col: 8, offset: 92190},
+																		pos: position{line: 2932, col: 8, offset: 92222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
+																				pos: position{line: 2919, col: 12, offset: 91995},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40056,9 +40224,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2928, col: 8, offset: 92140},
+																				pos: position{line: 2929, col: 8, offset: 92172},
 																				expr: &anyMatcher{
-																					line: 2928, col: 9, offset: 92141,
+																					line: 2929, col: 9, offset: 92173,
 																				},
 																			},
 																		},
@@ -40080,96 +40248,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1776, col: 1, offset: 57456},
+			pos:  position{line: 1777, col: 1, offset: 57488},
 			expr: &actionExpr{
-				pos: position{line: 1777, col: 5, offset: 57474},
+				pos: position{line: 1778, col: 5, offset: 57506},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1777, col: 5, offset: 57474},
+					pos: position{line: 1778, col: 5, offset: 57506},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1777, col: 5, offset: 57474},
+							pos:   position{line: 1778, col: 5, offset: 57506},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1777, col: 11, offset: 57480},
+								pos: position{line: 1778, col: 11, offset: 57512},
 								expr: &actionExpr{
-									pos: position{line: 1732, col: 5, offset: 55986},
+									pos: position{line: 1733, col: 5, offset: 56018},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1732, col: 5, offset: 55986},
+										pos: position{line: 1733, col: 5, offset: 56018},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1732, col: 5, offset: 55986},
+												pos: position{line: 1733, col: 5, offset: 56018},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1735, col: 5, offset: 56049},
+												pos:   position{line: 1736, col: 5, offset: 56081},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1735, col: 12, offset: 56056},
+													pos: position{line: 1736, col: 12, offset: 56088},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1735, col: 12, offset: 56056},
+															pos: position{line: 1736, col: 12, offset: 56088},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1735, col: 12, offset: 56056},
+																pos:        position{line: 1736, col: 12, offset: 56088},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1737, col: 13, offset: 56112},
+															pos: position{line: 1738, col: 13, offset: 56144},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1737, col: 13, offset: 56112},
+																pos:        position{line: 1738, col: 13, offset: 56144},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1739, col: 13, offset: 56170},
+															pos: position{line: 1740, col: 13, offset: 56202},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1739, col: 13, offset: 56170},
+																pos:        position{line: 1740, col: 13, offset: 56202},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1741, col: 13, offset: 56238},
+															pos: position{line: 1742, col: 13, offset: 56270},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1741, col: 13, offset: 56238},
+																pos:        position{line: 1742, col: 13, offset: 56270},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1743, col: 13, offset: 56302},
+															pos: position{line: 1744, col: 13, offset: 56334},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1743, col: 13, offset: 56302},
+																pos:        position{line: 1744, col: 13, offset: 56334},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1745, col: 13, offset: 56366},
+															pos: position{line: 1746, col: 13, offset: 56398},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1745, col: 13, offset: 56366},
+																pos: position{line: 1746, col: 13, offset: 56398},
 																expr: &actionExpr{
-																	pos: position{line: 2913, col: 11, offset: 91853},
+																	pos: position{line: 2914, col: 11, offset: 91885},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2913, col: 11, offset: 91853},
+																		pos: position{line: 2914, col: 11, offset: 91885},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2913, col: 11, offset: 91853},
+																			pos:        position{line: 2914, col: 11, offset: 91885},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40188,24 +40356,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1778, col: 5, offset: 57503},
+							pos:   position{line: 1779, col: 5, offset: 57535},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1791, col: 5, offset: 57852},
+								pos: position{line: 1792, col: 5, offset: 57884},
 								run: (*parser).callonParagraph26,
 								expr: &seqExpr{
-									pos: position{line: 1791, col: 5, offset: 57852},
+									pos: position{line: 1792, col: 5, offset: 57884},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1791, col: 5, offset: 57852},
+											pos:   position{line: 1792, col: 5, offset: 57884},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2859, col: 14, offset: 90385},
+												pos: position{line: 2860, col: 14, offset: 90417},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2859, col: 14, offset: 90385},
+													pos: position{line: 2860, col: 14, offset: 90417},
 													expr: &charClassMatcher{
-														pos:        position{line: 2859, col: 14, offset: 90385},
+														pos:        position{line: 2860, col: 14, offset: 90417},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40215,32 +40383,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1792, col: 5, offset: 57876},
+											pos: position{line: 1793, col: 5, offset: 57908},
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2931, col: 8, offset: 92190},
+											pos: position{line: 2932, col: 8, offset: 92222},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2918, col: 12, offset: 91963},
+													pos: position{line: 2919, col: 12, offset: 91995},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2918, col: 13, offset: 91964},
+														pos: position{line: 2919, col: 13, offset: 91996},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2918, col: 13, offset: 91964},
+																pos:        position{line: 2919, col: 13, offset: 91996},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2918, col: 20, offset: 91971},
+																pos:        position{line: 2919, col: 20, offset: 92003},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2918, col: 29, offset: 91980},
+																pos:        position{line: 2919, col: 29, offset: 92012},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40249,9 +40417,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2928, col: 8, offset: 92140},
+													pos: position{line: 2929, col: 8, offset: 92172},
 													expr: &anyMatcher{
-														line: 2928, col: 9, offset: 92141,
+														line: 2929, col: 9, offset: 92173,
 													},
 												},
 											},
@@ -40261,24 +40429,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1779, col: 5, offset: 57537},
+							pos:   position{line: 1780, col: 5, offset: 57569},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1779, col: 16, offset: 57548},
+								pos: position{line: 1780, col: 16, offset: 57580},
 								expr: &actionExpr{
-									pos: position{line: 1780, col: 9, offset: 57558},
+									pos: position{line: 1781, col: 9, offset: 57590},
 									run: (*parser).callonParagraph43,
 									expr: &seqExpr{
-										pos: position{line: 1780, col: 9, offset: 57558},
+										pos: position{line: 1781, col: 9, offset: 57590},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2926, col: 11, offset: 92126},
+												pos: position{line: 2927, col: 11, offset: 92158},
 												expr: &anyMatcher{
-													line: 2926, col: 13, offset: 92128,
+													line: 2927, col: 13, offset: 92160,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1781, col: 9, offset: 57573},
+												pos: position{line: 1782, col: 9, offset: 57605},
 												expr: &actionExpr{
 													pos: position{line: 678, col: 14, offset: 21586},
 													run: (*parser).callonParagraph48,
@@ -40286,18 +40454,18 @@ var g = &grammar{
 														pos: position{line: 678, col: 14, offset: 21586},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2926, col: 11, offset: 92126},
+																pos: position{line: 2927, col: 11, offset: 92158},
 																expr: &anyMatcher{
-																	line: 2926, col: 13, offset: 92128,
+																	line: 2927, col: 13, offset: 92160,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 678, col: 21, offset: 21593},
 																expr: &actionExpr{
-																	pos: position{line: 2909, col: 10, offset: 91792},
+																	pos: position{line: 2910, col: 10, offset: 91824},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2909, col: 10, offset: 91792},
+																		pos:        position{line: 2910, col: 10, offset: 91824},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40306,28 +40474,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2931, col: 8, offset: 92190},
+																pos: position{line: 2932, col: 8, offset: 92222},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2918, col: 12, offset: 91963},
+																		pos: position{line: 2919, col: 12, offset: 91995},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2918, col: 13, offset: 91964},
+																			pos: position{line: 2919, col: 13, offset: 91996},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2918, col: 13, offset: 91964},
+																					pos:        position{line: 2919, col: 13, offset: 91996},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2918, col: 20, offset: 91971},
+																					pos:        position{line: 2919, col: 20, offset: 92003},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2918, col: 29, offset: 91980},
+																					pos:        position{line: 2919, col: 29, offset: 92012},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40336,9 +40504,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2928, col: 8, offset: 92140},
+																		pos: position{line: 2929, col: 8, offset: 92172},
 																		expr: &anyMatcher{
-																			line: 2928, col: 9, offset: 92141,
+																			line: 2929, col: 9, offset: 92173,
 																		},
 																	},
 																},
@@ -40348,49 +40516,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1782, col: 9, offset: 57592},
+												pos: position{line: 1783, col: 9, offset: 57624},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1782, col: 10, offset: 57593},
+													pos:  position{line: 1783, col: 10, offset: 57625},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1783, col: 9, offset: 57617},
+												pos:   position{line: 1784, col: 9, offset: 57649},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1783, col: 15, offset: 57623},
+													pos: position{line: 1784, col: 15, offset: 57655},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2512, col: 22, offset: 80570},
+															pos: position{line: 2513, col: 22, offset: 80602},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 2512, col: 22, offset: 80570},
+																pos: position{line: 2513, col: 22, offset: 80602},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2517, col: 31, offset: 80820},
+																		pos:        position{line: 2518, col: 31, offset: 80852},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2517, col: 36, offset: 80825},
+																		pos: position{line: 2518, col: 36, offset: 80857},
 																		expr: &litMatcher{
-																			pos:        position{line: 2517, col: 37, offset: 80826},
+																			pos:        position{line: 2518, col: 37, offset: 80858},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2512, col: 49, offset: 80597},
+																		pos:   position{line: 2513, col: 49, offset: 80629},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2855, col: 13, offset: 90318},
+																			pos: position{line: 2856, col: 13, offset: 90350},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2855, col: 13, offset: 90318},
+																				pos: position{line: 2856, col: 13, offset: 90350},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2855, col: 13, offset: 90318},
+																					pos:        position{line: 2856, col: 13, offset: 90350},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40400,28 +40568,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2931, col: 8, offset: 92190},
+																		pos: position{line: 2932, col: 8, offset: 92222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
+																				pos: position{line: 2919, col: 12, offset: 91995},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40430,9 +40598,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2928, col: 8, offset: 92140},
+																				pos: position{line: 2929, col: 8, offset: 92172},
 																				expr: &anyMatcher{
-																					line: 2928, col: 9, offset: 92141,
+																					line: 2929, col: 9, offset: 92173,
 																				},
 																			},
 																		},
@@ -40441,21 +40609,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1791, col: 5, offset: 57852},
+															pos: position{line: 1792, col: 5, offset: 57884},
 															run: (*parser).callonParagraph84,
 															expr: &seqExpr{
-																pos: position{line: 1791, col: 5, offset: 57852},
+																pos: position{line: 1792, col: 5, offset: 57884},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1791, col: 5, offset: 57852},
+																		pos:   position{line: 1792, col: 5, offset: 57884},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2859, col: 14, offset: 90385},
+																			pos: position{line: 2860, col: 14, offset: 90417},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2859, col: 14, offset: 90385},
+																				pos: position{line: 2860, col: 14, offset: 90417},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2859, col: 14, offset: 90385},
+																					pos:        position{line: 2860, col: 14, offset: 90417},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40465,32 +40633,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1792, col: 5, offset: 57876},
+																		pos: position{line: 1793, col: 5, offset: 57908},
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2931, col: 8, offset: 92190},
+																		pos: position{line: 2932, col: 8, offset: 92222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
+																				pos: position{line: 2919, col: 12, offset: 91995},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40499,9 +40667,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2928, col: 8, offset: 92140},
+																				pos: position{line: 2929, col: 8, offset: 92172},
 																				expr: &anyMatcher{
-																					line: 2928, col: 9, offset: 92141,
+																					line: 2929, col: 9, offset: 92173,
 																				},
 																			},
 																		},
@@ -40523,16 +40691,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1802, col: 1, offset: 58362},
+			pos:  position{line: 1803, col: 1, offset: 58394},
 			expr: &choiceExpr{
-				pos: position{line: 1802, col: 15, offset: 58376},
+				pos: position{line: 1803, col: 15, offset: 58408},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1802, col: 15, offset: 58376},
+						pos:  position{line: 1803, col: 15, offset: 58408},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1802, col: 35, offset: 58396},
+						pos:  position{line: 1803, col: 35, offset: 58428},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -40540,65 +40708,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1804, col: 1, offset: 58417},
+			pos:  position{line: 1805, col: 1, offset: 58449},
 			expr: &actionExpr{
-				pos: position{line: 1805, col: 5, offset: 58442},
+				pos: position{line: 1806, col: 5, offset: 58474},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1805, col: 5, offset: 58442},
+					pos: position{line: 1806, col: 5, offset: 58474},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1805, col: 5, offset: 58442},
+							pos:   position{line: 1806, col: 5, offset: 58474},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1805, col: 16, offset: 58453},
+								pos: position{line: 1806, col: 16, offset: 58485},
 								expr: &actionExpr{
-									pos: position{line: 1805, col: 17, offset: 58454},
+									pos: position{line: 1806, col: 17, offset: 58486},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1805, col: 17, offset: 58454},
+										pos:  position{line: 1806, col: 17, offset: 58486},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1808, col: 5, offset: 58522},
+							pos: position{line: 1809, col: 5, offset: 58554},
 							expr: &litMatcher{
-								pos:        position{line: 1808, col: 7, offset: 58524},
+								pos:        position{line: 1809, col: 7, offset: 58556},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1809, col: 5, offset: 58533},
+							pos:   position{line: 1810, col: 5, offset: 58565},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1810, col: 9, offset: 58551},
+								pos: position{line: 1811, col: 9, offset: 58583},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1810, col: 9, offset: 58551},
+										pos:  position{line: 1811, col: 9, offset: 58583},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1811, col: 11, offset: 58578},
+										pos:  position{line: 1812, col: 11, offset: 58610},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1812, col: 11, offset: 58606},
+										pos:  position{line: 1813, col: 11, offset: 58638},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1813, col: 11, offset: 58637},
+										pos:  position{line: 1814, col: 11, offset: 58669},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1814, col: 11, offset: 58665},
+										pos:  position{line: 1815, col: 11, offset: 58697},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 11, offset: 58696},
+										pos:  position{line: 1816, col: 11, offset: 58728},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -40610,36 +40778,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1820, col: 1, offset: 58816},
+			pos:  position{line: 1821, col: 1, offset: 58848},
 			expr: &actionExpr{
-				pos: position{line: 1821, col: 5, offset: 58858},
+				pos: position{line: 1822, col: 5, offset: 58890},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1821, col: 5, offset: 58858},
+					pos: position{line: 1822, col: 5, offset: 58890},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1821, col: 5, offset: 58858},
+							pos:   position{line: 1822, col: 5, offset: 58890},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1821, col: 16, offset: 58869},
+								pos: position{line: 1822, col: 16, offset: 58901},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1821, col: 17, offset: 58870},
+									pos:  position{line: 1822, col: 17, offset: 58902},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1822, col: 5, offset: 58895},
+							pos:   position{line: 1823, col: 5, offset: 58927},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1822, col: 14, offset: 58904},
+								pos: position{line: 1823, col: 14, offset: 58936},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1822, col: 14, offset: 58904},
+										pos:  position{line: 1823, col: 14, offset: 58936},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1822, col: 33, offset: 58923},
+										pos:  position{line: 1823, col: 33, offset: 58955},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -40651,32 +40819,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1830, col: 1, offset: 59154},
+			pos:  position{line: 1831, col: 1, offset: 59186},
 			expr: &choiceExpr{
-				pos: position{line: 1831, col: 5, offset: 59179},
+				pos: position{line: 1832, col: 5, offset: 59211},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1831, col: 5, offset: 59179},
+						pos:  position{line: 1832, col: 5, offset: 59211},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1832, col: 7, offset: 59206},
+						pos:  position{line: 1833, col: 7, offset: 59238},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1833, col: 7, offset: 59234},
+						pos:  position{line: 1834, col: 7, offset: 59266},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1834, col: 7, offset: 59266},
+						pos:  position{line: 1835, col: 7, offset: 59298},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 7, offset: 59294},
+						pos:  position{line: 1836, col: 7, offset: 59326},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1836, col: 7, offset: 59315},
+						pos:  position{line: 1837, col: 7, offset: 59347},
 						name: "SuperscriptText",
 					},
 				},
@@ -40684,24 +40852,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1838, col: 1, offset: 59333},
+			pos:  position{line: 1839, col: 1, offset: 59365},
 			expr: &choiceExpr{
-				pos: position{line: 1839, col: 5, offset: 59358},
+				pos: position{line: 1840, col: 5, offset: 59390},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1839, col: 5, offset: 59358},
+						pos:  position{line: 1840, col: 5, offset: 59390},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1840, col: 7, offset: 59384},
+						pos:  position{line: 1841, col: 7, offset: 59416},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1841, col: 7, offset: 59412},
+						pos:  position{line: 1842, col: 7, offset: 59444},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1842, col: 7, offset: 59443},
+						pos:  position{line: 1843, col: 7, offset: 59475},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -40709,26 +40877,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1856, col: 1, offset: 59797},
+			pos:  position{line: 1857, col: 1, offset: 59829},
 			expr: &choiceExpr{
-				pos: position{line: 1857, col: 5, offset: 59823},
+				pos: position{line: 1858, col: 5, offset: 59855},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2808, col: 5, offset: 89034},
+						pos: position{line: 2809, col: 5, offset: 89066},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2808, col: 5, offset: 89034},
+							pos: position{line: 2809, col: 5, offset: 89066},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2808, col: 5, offset: 89034},
+									pos:   position{line: 2809, col: 5, offset: 89066},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2808, col: 11, offset: 89040},
+										pos: position{line: 2809, col: 11, offset: 89072},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2808, col: 11, offset: 89040},
+											pos: position{line: 2809, col: 11, offset: 89072},
 											expr: &charClassMatcher{
-												pos:        position{line: 2808, col: 11, offset: 89040},
+												pos:        position{line: 2809, col: 11, offset: 89072},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40738,36 +40906,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2811, col: 5, offset: 89098},
+									pos: position{line: 2812, col: 5, offset: 89130},
 									expr: &seqExpr{
-										pos: position{line: 2812, col: 9, offset: 89109},
+										pos: position{line: 2813, col: 9, offset: 89141},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2812, col: 9, offset: 89109},
+												pos:        position{line: 2813, col: 9, offset: 89141},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2813, col: 9, offset: 89158},
+												pos: position{line: 2814, col: 9, offset: 89190},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2817, col: 5, offset: 89238},
+									pos: position{line: 2818, col: 5, offset: 89270},
 									expr: &seqExpr{
-										pos: position{line: 2818, col: 9, offset: 89249},
+										pos: position{line: 2819, col: 9, offset: 89281},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2818, col: 9, offset: 89249},
+												pos:        position{line: 2819, col: 9, offset: 89281},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2818, col: 13, offset: 89253},
+												pos:        position{line: 2819, col: 13, offset: 89285},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40780,12 +40948,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2913, col: 11, offset: 91853},
+						pos: position{line: 2914, col: 11, offset: 91885},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2913, col: 11, offset: 91853},
+							pos: position{line: 2914, col: 11, offset: 91885},
 							expr: &charClassMatcher{
-								pos:        position{line: 2913, col: 11, offset: 91853},
+								pos:        position{line: 2914, col: 11, offset: 91885},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -40794,25 +40962,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1859, col: 7, offset: 59886},
+						pos:  position{line: 1860, col: 7, offset: 59918},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2530, col: 5, offset: 81315},
+						pos: position{line: 2531, col: 5, offset: 81347},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2530, col: 5, offset: 81315},
+							pos: position{line: 2531, col: 5, offset: 81347},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2530, col: 5, offset: 81315},
+									pos:        position{line: 2531, col: 5, offset: 81347},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2530, col: 10, offset: 81320},
+									pos: position{line: 2531, col: 10, offset: 81352},
 									expr: &charClassMatcher{
-										pos:        position{line: 2530, col: 11, offset: 81321},
+										pos:        position{line: 2531, col: 11, offset: 81353},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40823,29 +40991,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2536, col: 5, offset: 81513},
+						pos: position{line: 2537, col: 5, offset: 81545},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2536, col: 5, offset: 81513},
+							pos: position{line: 2537, col: 5, offset: 81545},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2536, col: 5, offset: 81513},
+									pos: position{line: 2537, col: 5, offset: 81545},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2539, col: 5, offset: 81584},
+									pos: position{line: 2540, col: 5, offset: 81616},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2543, col: 5, offset: 81709},
+									pos:        position{line: 2544, col: 5, offset: 81741},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2543, col: 9, offset: 81713},
+									pos: position{line: 2544, col: 9, offset: 81745},
 									expr: &charClassMatcher{
-										pos:        position{line: 2543, col: 10, offset: 81714},
+										pos:        position{line: 2544, col: 10, offset: 81746},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40856,27 +41024,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2826, col: 5, offset: 89446},
+						pos: position{line: 2827, col: 5, offset: 89478},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2827, col: 9, offset: 89456},
+							pos: position{line: 2828, col: 9, offset: 89488},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2827, col: 10, offset: 89457},
+									pos:        position{line: 2828, col: 10, offset: 89489},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2829, col: 13, offset: 89554},
+									pos: position{line: 2830, col: 13, offset: 89586},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2829, col: 13, offset: 89554},
+											pos: position{line: 2830, col: 13, offset: 89586},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2832, col: 13, offset: 89654},
+											pos:        position{line: 2833, col: 13, offset: 89686},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -40884,20 +41052,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2832, col: 19, offset: 89660},
+									pos:        position{line: 2833, col: 19, offset: 89692},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2835, col: 13, offset: 89698},
+									pos: position{line: 2836, col: 13, offset: 89730},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2835, col: 13, offset: 89698},
+											pos: position{line: 2836, col: 13, offset: 89730},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2838, col: 14, offset: 89791},
+											pos:        position{line: 2839, col: 14, offset: 89823},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -40906,18 +41074,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2840, col: 12, offset: 89835},
+									pos: position{line: 2841, col: 12, offset: 89867},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2840, col: 12, offset: 89835},
+											pos:        position{line: 2841, col: 12, offset: 89867},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2840, col: 16, offset: 89839},
+											pos: position{line: 2841, col: 16, offset: 89871},
 											expr: &litMatcher{
-												pos:        position{line: 2840, col: 17, offset: 89840},
+												pos:        position{line: 2841, col: 17, offset: 89872},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -41275,31 +41443,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2922, col: 18, offset: 92063},
+						pos: position{line: 2923, col: 18, offset: 92095},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2922, col: 18, offset: 92063},
+							pos: position{line: 2923, col: 18, offset: 92095},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2918, col: 12, offset: 91963},
+									pos: position{line: 2919, col: 12, offset: 91995},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2918, col: 13, offset: 91964},
+										pos: position{line: 2919, col: 13, offset: 91996},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2918, col: 13, offset: 91964},
+												pos:        position{line: 2919, col: 13, offset: 91996},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2918, col: 20, offset: 91971},
+												pos:        position{line: 2919, col: 20, offset: 92003},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2918, col: 29, offset: 91980},
+												pos:        position{line: 2919, col: 29, offset: 92012},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41308,27 +41476,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2922, col: 26, offset: 92071},
+									pos: position{line: 2923, col: 26, offset: 92103},
 									expr: &actionExpr{
-										pos: position{line: 2918, col: 12, offset: 91963},
+										pos: position{line: 2919, col: 12, offset: 91995},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2918, col: 13, offset: 91964},
+											pos: position{line: 2919, col: 13, offset: 91996},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2918, col: 13, offset: 91964},
+													pos:        position{line: 2919, col: 13, offset: 91996},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2918, col: 20, offset: 91971},
+													pos:        position{line: 2919, col: 20, offset: 92003},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2918, col: 29, offset: 91980},
+													pos:        position{line: 2919, col: 29, offset: 92012},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41341,31 +41509,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1864, col: 7, offset: 60053},
+						pos:  position{line: 1865, col: 7, offset: 60085},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1865, col: 7, offset: 60100},
+						pos:  position{line: 1866, col: 7, offset: 60132},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2499, col: 5, offset: 80116},
+						pos: position{line: 2500, col: 5, offset: 80148},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2499, col: 5, offset: 80116},
+							pos: position{line: 2500, col: 5, offset: 80148},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2499, col: 5, offset: 80116},
+									pos: position{line: 2500, col: 5, offset: 80148},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2502, col: 5, offset: 80192},
+									pos:   position{line: 2503, col: 5, offset: 80224},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2503, col: 9, offset: 80210},
+										pos: position{line: 2504, col: 9, offset: 80242},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2503, col: 10, offset: 80211},
+											pos:        position{line: 2504, col: 10, offset: 80243},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -41416,10 +41584,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2848, col: 12, offset: 90100},
+						pos: position{line: 2849, col: 12, offset: 90132},
 						run: (*parser).callonQuotedTextElement144,
 						expr: &charClassMatcher{
-							pos:        position{line: 2848, col: 12, offset: 90100},
+							pos:        position{line: 2849, col: 12, offset: 90132},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41431,29 +41599,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1883, col: 1, offset: 60570},
+			pos:  position{line: 1884, col: 1, offset: 60602},
 			expr: &actionExpr{
-				pos: position{line: 1884, col: 5, offset: 60598},
+				pos: position{line: 1885, col: 5, offset: 60630},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1884, col: 5, offset: 60598},
+					pos: position{line: 1885, col: 5, offset: 60630},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1879, col: 38, offset: 60523},
+							pos:        position{line: 1880, col: 38, offset: 60555},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1885, col: 5, offset: 60637},
+							pos:   position{line: 1886, col: 5, offset: 60669},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1885, col: 15, offset: 60647},
+								pos:  position{line: 1886, col: 15, offset: 60679},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1881, col: 36, offset: 60564},
+							pos:        position{line: 1882, col: 36, offset: 60596},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -41464,24 +41632,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1890, col: 1, offset: 60807},
+			pos:  position{line: 1891, col: 1, offset: 60839},
 			expr: &actionExpr{
-				pos: position{line: 1891, col: 5, offset: 60842},
+				pos: position{line: 1892, col: 5, offset: 60874},
 				run: (*parser).callonDoubleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1891, col: 5, offset: 60842},
+					pos: position{line: 1892, col: 5, offset: 60874},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1891, col: 5, offset: 60842},
+							pos: position{line: 1892, col: 5, offset: 60874},
 							run: (*parser).callonDoubleQuoteBoldTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1895, col: 5, offset: 60962},
+							pos:   position{line: 1896, col: 5, offset: 60994},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1895, col: 14, offset: 60971},
+								pos: position{line: 1896, col: 14, offset: 61003},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1895, col: 15, offset: 60972},
+									pos:  position{line: 1896, col: 15, offset: 61004},
 									name: "DoubleQuoteBoldTextElement",
 								},
 							},
@@ -41492,33 +41660,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1899, col: 1, offset: 61039},
+			pos:  position{line: 1900, col: 1, offset: 61071},
 			expr: &actionExpr{
-				pos: position{line: 1900, col: 5, offset: 61074},
+				pos: position{line: 1901, col: 5, offset: 61106},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1900, col: 5, offset: 61074},
+					pos: position{line: 1901, col: 5, offset: 61106},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2926, col: 11, offset: 92126},
+							pos: position{line: 2927, col: 11, offset: 92158},
 							expr: &anyMatcher{
-								line: 2926, col: 13, offset: 92128,
+								line: 2927, col: 13, offset: 92160,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1901, col: 5, offset: 61085},
+							pos: position{line: 1902, col: 5, offset: 61117},
 							expr: &litMatcher{
-								pos:        position{line: 1881, col: 36, offset: 60564},
+								pos:        position{line: 1882, col: 36, offset: 60596},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1902, col: 5, offset: 61122},
+							pos:   position{line: 1903, col: 5, offset: 61154},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1902, col: 14, offset: 61131},
+								pos:  position{line: 1903, col: 14, offset: 61163},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41528,29 +41696,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1927, col: 1, offset: 61811},
+			pos:  position{line: 1928, col: 1, offset: 61843},
 			expr: &actionExpr{
-				pos: position{line: 1928, col: 5, offset: 61839},
+				pos: position{line: 1929, col: 5, offset: 61871},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1928, col: 5, offset: 61839},
+					pos: position{line: 1929, col: 5, offset: 61871},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1911, col: 5, offset: 61365},
+							pos:        position{line: 1912, col: 5, offset: 61397},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1912, col: 5, offset: 61374},
+							pos: position{line: 1913, col: 5, offset: 61406},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1916, col: 5, offset: 61492},
+							pos: position{line: 1917, col: 5, offset: 61524},
 							expr: &notExpr{
-								pos: position{line: 1916, col: 7, offset: 61494},
+								pos: position{line: 1917, col: 7, offset: 61526},
 								expr: &litMatcher{
-									pos:        position{line: 1916, col: 8, offset: 61495},
+									pos:        position{line: 1917, col: 8, offset: 61527},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41558,38 +41726,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1929, col: 5, offset: 61877},
+							pos:   position{line: 1930, col: 5, offset: 61909},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1929, col: 15, offset: 61887},
+								pos:  position{line: 1930, col: 15, offset: 61919},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1919, col: 5, offset: 61615},
+							pos:        position{line: 1920, col: 5, offset: 61647},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1920, col: 5, offset: 61624},
+							pos: position{line: 1921, col: 5, offset: 61656},
 							expr: &litMatcher{
-								pos:        position{line: 1920, col: 6, offset: 61625},
+								pos:        position{line: 1921, col: 6, offset: 61657},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1921, col: 5, offset: 61688},
+							pos: position{line: 1922, col: 5, offset: 61720},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1925, col: 5, offset: 61797},
+							pos: position{line: 1926, col: 5, offset: 61829},
 							expr: &notExpr{
-								pos: position{line: 1925, col: 7, offset: 61799},
+								pos: position{line: 1926, col: 7, offset: 61831},
 								expr: &charClassMatcher{
-									pos:        position{line: 2799, col: 13, offset: 88887},
+									pos:        position{line: 2800, col: 13, offset: 88919},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41603,20 +41771,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1934, col: 1, offset: 62047},
+			pos:  position{line: 1935, col: 1, offset: 62079},
 			expr: &actionExpr{
-				pos: position{line: 1935, col: 5, offset: 62084},
+				pos: position{line: 1936, col: 5, offset: 62116},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1935, col: 5, offset: 62084},
+					pos: position{line: 1936, col: 5, offset: 62116},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1935, col: 5, offset: 62084},
+							pos: position{line: 1936, col: 5, offset: 62116},
 							expr: &actionExpr{
-								pos: position{line: 2909, col: 10, offset: 91792},
+								pos: position{line: 2910, col: 10, offset: 91824},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2909, col: 10, offset: 91792},
+									pos:        position{line: 2910, col: 10, offset: 91824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41625,18 +41793,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1936, col: 5, offset: 62123},
+							pos:   position{line: 1937, col: 5, offset: 62155},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1936, col: 14, offset: 62132},
+								pos: position{line: 1937, col: 14, offset: 62164},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1936, col: 15, offset: 62133},
+									pos:  position{line: 1937, col: 15, offset: 62165},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1937, col: 5, offset: 62167},
+							pos: position{line: 1938, col: 5, offset: 62199},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -41645,49 +41813,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1943, col: 1, offset: 62308},
+			pos:  position{line: 1944, col: 1, offset: 62340},
 			expr: &actionExpr{
-				pos: position{line: 1944, col: 5, offset: 62343},
+				pos: position{line: 1945, col: 5, offset: 62375},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1944, col: 5, offset: 62343},
+					pos: position{line: 1945, col: 5, offset: 62375},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2926, col: 11, offset: 92126},
+							pos: position{line: 2927, col: 11, offset: 92158},
 							expr: &anyMatcher{
-								line: 2926, col: 13, offset: 92128,
+								line: 2927, col: 13, offset: 92160,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1945, col: 5, offset: 62371},
+							pos: position{line: 1946, col: 5, offset: 62403},
 							expr: &seqExpr{
-								pos: position{line: 1919, col: 5, offset: 61615},
+								pos: position{line: 1920, col: 5, offset: 61647},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1919, col: 5, offset: 61615},
+										pos:        position{line: 1920, col: 5, offset: 61647},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1920, col: 5, offset: 61624},
+										pos: position{line: 1921, col: 5, offset: 61656},
 										expr: &litMatcher{
-											pos:        position{line: 1920, col: 6, offset: 61625},
+											pos:        position{line: 1921, col: 6, offset: 61657},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1921, col: 5, offset: 61688},
+										pos: position{line: 1922, col: 5, offset: 61720},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1925, col: 5, offset: 61797},
+										pos: position{line: 1926, col: 5, offset: 61829},
 										expr: &notExpr{
-											pos: position{line: 1925, col: 7, offset: 61799},
+											pos: position{line: 1926, col: 7, offset: 61831},
 											expr: &charClassMatcher{
-												pos:        position{line: 2799, col: 13, offset: 88887},
+												pos:        position{line: 2800, col: 13, offset: 88919},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41699,10 +41867,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1946, col: 5, offset: 62408},
+							pos:   position{line: 1947, col: 5, offset: 62440},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1946, col: 14, offset: 62417},
+								pos:  position{line: 1947, col: 14, offset: 62449},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41712,35 +41880,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1951, col: 1, offset: 62505},
+			pos:  position{line: 1952, col: 1, offset: 62537},
 			expr: &choiceExpr{
-				pos: position{line: 1953, col: 5, offset: 62566},
+				pos: position{line: 1954, col: 5, offset: 62598},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1953, col: 5, offset: 62566},
+						pos: position{line: 1954, col: 5, offset: 62598},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1953, col: 5, offset: 62566},
+							pos: position{line: 1954, col: 5, offset: 62598},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1953, col: 5, offset: 62566},
+									pos:   position{line: 1954, col: 5, offset: 62598},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59743},
+										pos: position{line: 1853, col: 25, offset: 59775},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1852, col: 25, offset: 59743},
+											pos: position{line: 1853, col: 25, offset: 59775},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1852, col: 25, offset: 59743},
+													pos:        position{line: 1853, col: 25, offset: 59775},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1852, col: 30, offset: 59748},
+													pos: position{line: 1853, col: 30, offset: 59780},
 													expr: &litMatcher{
-														pos:        position{line: 1852, col: 30, offset: 59748},
+														pos:        position{line: 1853, col: 30, offset: 59780},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41751,21 +41919,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1953, col: 40, offset: 62601},
+									pos:        position{line: 1954, col: 40, offset: 62633},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1953, col: 45, offset: 62606},
+									pos:   position{line: 1954, col: 45, offset: 62638},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1953, col: 55, offset: 62616},
+										pos:  position{line: 1954, col: 55, offset: 62648},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1953, col: 84, offset: 62645},
+									pos:        position{line: 1954, col: 84, offset: 62677},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41774,21 +41942,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1957, col: 7, offset: 62809},
+						pos: position{line: 1958, col: 7, offset: 62841},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1957, col: 7, offset: 62809},
+							pos: position{line: 1958, col: 7, offset: 62841},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1957, col: 7, offset: 62809},
+									pos:   position{line: 1958, col: 7, offset: 62841},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1848, col: 25, offset: 59670},
+										pos: position{line: 1849, col: 25, offset: 59702},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1848, col: 25, offset: 59670},
+											pos: position{line: 1849, col: 25, offset: 59702},
 											expr: &litMatcher{
-												pos:        position{line: 1848, col: 25, offset: 59670},
+												pos:        position{line: 1849, col: 25, offset: 59702},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41797,21 +41965,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1957, col: 42, offset: 62844},
+									pos:        position{line: 1958, col: 42, offset: 62876},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1957, col: 47, offset: 62849},
+									pos:   position{line: 1958, col: 47, offset: 62881},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1957, col: 57, offset: 62859},
+										pos:  position{line: 1958, col: 57, offset: 62891},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1957, col: 86, offset: 62888},
+									pos:        position{line: 1958, col: 86, offset: 62920},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41820,21 +41988,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1962, col: 7, offset: 63090},
+						pos: position{line: 1963, col: 7, offset: 63122},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1962, col: 7, offset: 63090},
+							pos: position{line: 1963, col: 7, offset: 63122},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1962, col: 7, offset: 63090},
+									pos:   position{line: 1963, col: 7, offset: 63122},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1848, col: 25, offset: 59670},
+										pos: position{line: 1849, col: 25, offset: 59702},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1848, col: 25, offset: 59670},
+											pos: position{line: 1849, col: 25, offset: 59702},
 											expr: &litMatcher{
-												pos:        position{line: 1848, col: 25, offset: 59670},
+												pos:        position{line: 1849, col: 25, offset: 59702},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41843,21 +42011,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1962, col: 42, offset: 63125},
+									pos:        position{line: 1963, col: 42, offset: 63157},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1962, col: 46, offset: 63129},
+									pos:   position{line: 1963, col: 46, offset: 63161},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1962, col: 56, offset: 63139},
+										pos:  position{line: 1963, col: 56, offset: 63171},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1962, col: 85, offset: 63168},
+									pos:        position{line: 1963, col: 85, offset: 63200},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41870,29 +42038,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1979, col: 1, offset: 63648},
+			pos:  position{line: 1980, col: 1, offset: 63680},
 			expr: &actionExpr{
-				pos: position{line: 1980, col: 5, offset: 63678},
+				pos: position{line: 1981, col: 5, offset: 63710},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1980, col: 5, offset: 63678},
+					pos: position{line: 1981, col: 5, offset: 63710},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1975, col: 40, offset: 63599},
+							pos:        position{line: 1976, col: 40, offset: 63631},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1981, col: 5, offset: 63719},
+							pos:   position{line: 1982, col: 5, offset: 63751},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1981, col: 15, offset: 63729},
+								pos:  position{line: 1982, col: 15, offset: 63761},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1977, col: 38, offset: 63642},
+							pos:        position{line: 1978, col: 38, offset: 63674},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -41903,24 +42071,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1986, col: 1, offset: 63894},
+			pos:  position{line: 1987, col: 1, offset: 63926},
 			expr: &actionExpr{
-				pos: position{line: 1987, col: 5, offset: 63931},
+				pos: position{line: 1988, col: 5, offset: 63963},
 				run: (*parser).callonDoubleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1987, col: 5, offset: 63931},
+					pos: position{line: 1988, col: 5, offset: 63963},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1987, col: 5, offset: 63931},
+							pos: position{line: 1988, col: 5, offset: 63963},
 							run: (*parser).callonDoubleQuoteItalicTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1991, col: 5, offset: 64051},
+							pos:   position{line: 1992, col: 5, offset: 64083},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1991, col: 14, offset: 64060},
+								pos: position{line: 1992, col: 14, offset: 64092},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1991, col: 15, offset: 64061},
+									pos:  position{line: 1992, col: 15, offset: 64093},
 									name: "DoubleQuoteItalicTextElement",
 								},
 							},
@@ -41931,33 +42099,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1995, col: 1, offset: 64130},
+			pos:  position{line: 1996, col: 1, offset: 64162},
 			expr: &actionExpr{
-				pos: position{line: 1996, col: 5, offset: 64167},
+				pos: position{line: 1997, col: 5, offset: 64199},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1996, col: 5, offset: 64167},
+					pos: position{line: 1997, col: 5, offset: 64199},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2926, col: 11, offset: 92126},
+							pos: position{line: 2927, col: 11, offset: 92158},
 							expr: &anyMatcher{
-								line: 2926, col: 13, offset: 92128,
+								line: 2927, col: 13, offset: 92160,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1997, col: 5, offset: 64178},
+							pos: position{line: 1998, col: 5, offset: 64210},
 							expr: &litMatcher{
-								pos:        position{line: 1977, col: 38, offset: 63642},
+								pos:        position{line: 1978, col: 38, offset: 63674},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1998, col: 5, offset: 64217},
+							pos:   position{line: 1999, col: 5, offset: 64249},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1998, col: 14, offset: 64226},
+								pos:  position{line: 1999, col: 14, offset: 64258},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41967,29 +42135,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2024, col: 1, offset: 64910},
+			pos:  position{line: 2025, col: 1, offset: 64942},
 			expr: &actionExpr{
-				pos: position{line: 2025, col: 5, offset: 64940},
+				pos: position{line: 2026, col: 5, offset: 64972},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2025, col: 5, offset: 64940},
+					pos: position{line: 2026, col: 5, offset: 64972},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2007, col: 5, offset: 64468},
+							pos:        position{line: 2008, col: 5, offset: 64500},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2008, col: 5, offset: 64477},
+							pos: position{line: 2009, col: 5, offset: 64509},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2012, col: 5, offset: 64597},
+							pos: position{line: 2013, col: 5, offset: 64629},
 							expr: &notExpr{
-								pos: position{line: 2012, col: 7, offset: 64599},
+								pos: position{line: 2013, col: 7, offset: 64631},
 								expr: &litMatcher{
-									pos:        position{line: 2012, col: 8, offset: 64600},
+									pos:        position{line: 2013, col: 8, offset: 64632},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41997,38 +42165,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2026, col: 5, offset: 64980},
+							pos:   position{line: 2027, col: 5, offset: 65012},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2026, col: 15, offset: 64990},
+								pos:  position{line: 2027, col: 15, offset: 65022},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2016, col: 5, offset: 64710},
+							pos:        position{line: 2017, col: 5, offset: 64742},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2017, col: 5, offset: 64719},
+							pos: position{line: 2018, col: 5, offset: 64751},
 							expr: &litMatcher{
-								pos:        position{line: 2017, col: 6, offset: 64720},
+								pos:        position{line: 2018, col: 6, offset: 64752},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2018, col: 5, offset: 64785},
+							pos: position{line: 2019, col: 5, offset: 64817},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2022, col: 5, offset: 64896},
+							pos: position{line: 2023, col: 5, offset: 64928},
 							expr: &notExpr{
-								pos: position{line: 2022, col: 7, offset: 64898},
+								pos: position{line: 2023, col: 7, offset: 64930},
 								expr: &charClassMatcher{
-									pos:        position{line: 2799, col: 13, offset: 88887},
+									pos:        position{line: 2800, col: 13, offset: 88919},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42042,20 +42210,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2031, col: 1, offset: 65157},
+			pos:  position{line: 2032, col: 1, offset: 65189},
 			expr: &actionExpr{
-				pos: position{line: 2032, col: 5, offset: 65195},
+				pos: position{line: 2033, col: 5, offset: 65227},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2032, col: 5, offset: 65195},
+					pos: position{line: 2033, col: 5, offset: 65227},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2032, col: 5, offset: 65195},
+							pos: position{line: 2033, col: 5, offset: 65227},
 							expr: &actionExpr{
-								pos: position{line: 2909, col: 10, offset: 91792},
+								pos: position{line: 2910, col: 10, offset: 91824},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2909, col: 10, offset: 91792},
+									pos:        position{line: 2910, col: 10, offset: 91824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42064,18 +42232,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2033, col: 5, offset: 65234},
+							pos:   position{line: 2034, col: 5, offset: 65266},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2033, col: 14, offset: 65243},
+								pos: position{line: 2034, col: 14, offset: 65275},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2033, col: 15, offset: 65244},
+									pos:  position{line: 2034, col: 15, offset: 65276},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2034, col: 5, offset: 65279},
+							pos: position{line: 2035, col: 5, offset: 65311},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -42084,49 +42252,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2040, col: 1, offset: 65420},
+			pos:  position{line: 2041, col: 1, offset: 65452},
 			expr: &actionExpr{
-				pos: position{line: 2041, col: 5, offset: 65457},
+				pos: position{line: 2042, col: 5, offset: 65489},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2041, col: 5, offset: 65457},
+					pos: position{line: 2042, col: 5, offset: 65489},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2926, col: 11, offset: 92126},
+							pos: position{line: 2927, col: 11, offset: 92158},
 							expr: &anyMatcher{
-								line: 2926, col: 13, offset: 92128,
+								line: 2927, col: 13, offset: 92160,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2042, col: 5, offset: 65468},
+							pos: position{line: 2043, col: 5, offset: 65500},
 							expr: &seqExpr{
-								pos: position{line: 2016, col: 5, offset: 64710},
+								pos: position{line: 2017, col: 5, offset: 64742},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2016, col: 5, offset: 64710},
+										pos:        position{line: 2017, col: 5, offset: 64742},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2017, col: 5, offset: 64719},
+										pos: position{line: 2018, col: 5, offset: 64751},
 										expr: &litMatcher{
-											pos:        position{line: 2017, col: 6, offset: 64720},
+											pos:        position{line: 2018, col: 6, offset: 64752},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2018, col: 5, offset: 64785},
+										pos: position{line: 2019, col: 5, offset: 64817},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2022, col: 5, offset: 64896},
+										pos: position{line: 2023, col: 5, offset: 64928},
 										expr: &notExpr{
-											pos: position{line: 2022, col: 7, offset: 64898},
+											pos: position{line: 2023, col: 7, offset: 64930},
 											expr: &charClassMatcher{
-												pos:        position{line: 2799, col: 13, offset: 88887},
+												pos:        position{line: 2800, col: 13, offset: 88919},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42138,10 +42306,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2043, col: 5, offset: 65507},
+							pos:   position{line: 2044, col: 5, offset: 65539},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2043, col: 14, offset: 65516},
+								pos:  position{line: 2044, col: 14, offset: 65548},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42151,35 +42319,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2048, col: 1, offset: 65604},
+			pos:  position{line: 2049, col: 1, offset: 65636},
 			expr: &choiceExpr{
-				pos: position{line: 2050, col: 5, offset: 65669},
+				pos: position{line: 2051, col: 5, offset: 65701},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2050, col: 5, offset: 65669},
+						pos: position{line: 2051, col: 5, offset: 65701},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2050, col: 5, offset: 65669},
+							pos: position{line: 2051, col: 5, offset: 65701},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2050, col: 5, offset: 65669},
+									pos:   position{line: 2051, col: 5, offset: 65701},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59743},
+										pos: position{line: 1853, col: 25, offset: 59775},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1852, col: 25, offset: 59743},
+											pos: position{line: 1853, col: 25, offset: 59775},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1852, col: 25, offset: 59743},
+													pos:        position{line: 1853, col: 25, offset: 59775},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1852, col: 30, offset: 59748},
+													pos: position{line: 1853, col: 30, offset: 59780},
 													expr: &litMatcher{
-														pos:        position{line: 1852, col: 30, offset: 59748},
+														pos:        position{line: 1853, col: 30, offset: 59780},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42190,21 +42358,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2050, col: 40, offset: 65704},
+									pos:        position{line: 2051, col: 40, offset: 65736},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2050, col: 45, offset: 65709},
+									pos:   position{line: 2051, col: 45, offset: 65741},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2050, col: 55, offset: 65719},
+										pos:  position{line: 2051, col: 55, offset: 65751},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2050, col: 86, offset: 65750},
+									pos:        position{line: 2051, col: 86, offset: 65782},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -42213,21 +42381,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2054, col: 7, offset: 65915},
+						pos: position{line: 2055, col: 7, offset: 65947},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2054, col: 7, offset: 65915},
+							pos: position{line: 2055, col: 7, offset: 65947},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2054, col: 7, offset: 65915},
+									pos:   position{line: 2055, col: 7, offset: 65947},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1848, col: 25, offset: 59670},
+										pos: position{line: 1849, col: 25, offset: 59702},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1848, col: 25, offset: 59670},
+											pos: position{line: 1849, col: 25, offset: 59702},
 											expr: &litMatcher{
-												pos:        position{line: 1848, col: 25, offset: 59670},
+												pos:        position{line: 1849, col: 25, offset: 59702},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42236,21 +42404,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2054, col: 42, offset: 65950},
+									pos:        position{line: 2055, col: 42, offset: 65982},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2054, col: 47, offset: 65955},
+									pos:   position{line: 2055, col: 47, offset: 65987},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2054, col: 57, offset: 65965},
+										pos:  position{line: 2055, col: 57, offset: 65997},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2054, col: 88, offset: 65996},
+									pos:        position{line: 2055, col: 88, offset: 66028},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42259,21 +42427,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2059, col: 7, offset: 66237},
+						pos: position{line: 2060, col: 7, offset: 66269},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2059, col: 7, offset: 66237},
+							pos: position{line: 2060, col: 7, offset: 66269},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2059, col: 7, offset: 66237},
+									pos:   position{line: 2060, col: 7, offset: 66269},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1848, col: 25, offset: 59670},
+										pos: position{line: 1849, col: 25, offset: 59702},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1848, col: 25, offset: 59670},
+											pos: position{line: 1849, col: 25, offset: 59702},
 											expr: &litMatcher{
-												pos:        position{line: 1848, col: 25, offset: 59670},
+												pos:        position{line: 1849, col: 25, offset: 59702},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42282,21 +42450,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2059, col: 42, offset: 66272},
+									pos:        position{line: 2060, col: 42, offset: 66304},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2059, col: 46, offset: 66276},
+									pos:   position{line: 2060, col: 46, offset: 66308},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2059, col: 56, offset: 66286},
+										pos:  position{line: 2060, col: 56, offset: 66318},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2059, col: 87, offset: 66317},
+									pos:        position{line: 2060, col: 87, offset: 66349},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42309,29 +42477,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2076, col: 1, offset: 66881},
+			pos:  position{line: 2077, col: 1, offset: 66913},
 			expr: &actionExpr{
-				pos: position{line: 2077, col: 5, offset: 66914},
+				pos: position{line: 2078, col: 5, offset: 66946},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2077, col: 5, offset: 66914},
+					pos: position{line: 2078, col: 5, offset: 66946},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2072, col: 43, offset: 66829},
+							pos:        position{line: 2073, col: 43, offset: 66861},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2078, col: 5, offset: 66958},
+							pos:   position{line: 2079, col: 5, offset: 66990},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2078, col: 15, offset: 66968},
+								pos:  position{line: 2079, col: 15, offset: 67000},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2074, col: 41, offset: 66875},
+							pos:        position{line: 2075, col: 41, offset: 66907},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -42342,24 +42510,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2083, col: 1, offset: 67143},
+			pos:  position{line: 2084, col: 1, offset: 67175},
 			expr: &actionExpr{
-				pos: position{line: 2084, col: 5, offset: 67216},
+				pos: position{line: 2085, col: 5, offset: 67248},
 				run: (*parser).callonDoubleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2084, col: 5, offset: 67216},
+					pos: position{line: 2085, col: 5, offset: 67248},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2084, col: 5, offset: 67216},
+							pos: position{line: 2085, col: 5, offset: 67248},
 							run: (*parser).callonDoubleQuoteMonospaceTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2088, col: 5, offset: 67336},
+							pos:   position{line: 2089, col: 5, offset: 67368},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2088, col: 14, offset: 67345},
+								pos: position{line: 2089, col: 14, offset: 67377},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2088, col: 15, offset: 67346},
+									pos:  position{line: 2089, col: 15, offset: 67378},
 									name: "DoubleQuoteMonospaceTextElement",
 								},
 							},
@@ -42370,33 +42538,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2092, col: 1, offset: 67418},
+			pos:  position{line: 2093, col: 1, offset: 67450},
 			expr: &actionExpr{
-				pos: position{line: 2093, col: 5, offset: 67458},
+				pos: position{line: 2094, col: 5, offset: 67490},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2093, col: 5, offset: 67458},
+					pos: position{line: 2094, col: 5, offset: 67490},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2926, col: 11, offset: 92126},
+							pos: position{line: 2927, col: 11, offset: 92158},
 							expr: &anyMatcher{
-								line: 2926, col: 13, offset: 92128,
+								line: 2927, col: 13, offset: 92160,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2094, col: 5, offset: 67469},
+							pos: position{line: 2095, col: 5, offset: 67501},
 							expr: &litMatcher{
-								pos:        position{line: 2074, col: 41, offset: 66875},
+								pos:        position{line: 2075, col: 41, offset: 66907},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2095, col: 5, offset: 67511},
+							pos:   position{line: 2096, col: 5, offset: 67543},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2095, col: 14, offset: 67520},
+								pos:  position{line: 2096, col: 14, offset: 67552},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42406,33 +42574,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2113, col: 1, offset: 68062},
+			pos:  position{line: 2114, col: 1, offset: 68094},
 			expr: &seqExpr{
-				pos: position{line: 2114, col: 5, offset: 68107},
+				pos: position{line: 2115, col: 5, offset: 68139},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2114, col: 5, offset: 68107},
+						pos: position{line: 2115, col: 5, offset: 68139},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2114, col: 6, offset: 68108},
+							pos:  position{line: 2115, col: 6, offset: 68140},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2115, col: 5, offset: 68127},
+						pos:        position{line: 2116, col: 5, offset: 68159},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2116, col: 5, offset: 68135},
+						pos: position{line: 2117, col: 5, offset: 68167},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2120, col: 5, offset: 68249},
+						pos: position{line: 2121, col: 5, offset: 68281},
 						expr: &notExpr{
-							pos: position{line: 2120, col: 7, offset: 68251},
+							pos: position{line: 2121, col: 7, offset: 68283},
 							expr: &charClassMatcher{
-								pos:        position{line: 2799, col: 13, offset: 88887},
+								pos:        position{line: 2800, col: 13, offset: 88919},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42445,29 +42613,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2123, col: 1, offset: 68268},
+			pos:  position{line: 2124, col: 1, offset: 68300},
 			expr: &actionExpr{
-				pos: position{line: 2124, col: 5, offset: 68301},
+				pos: position{line: 2125, col: 5, offset: 68333},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2124, col: 5, offset: 68301},
+					pos: position{line: 2125, col: 5, offset: 68333},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2106, col: 5, offset: 67864},
+							pos:        position{line: 2107, col: 5, offset: 67896},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2107, col: 5, offset: 67873},
+							pos: position{line: 2108, col: 5, offset: 67905},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2111, col: 5, offset: 67996},
+							pos: position{line: 2112, col: 5, offset: 68028},
 							expr: &notExpr{
-								pos: position{line: 2111, col: 7, offset: 67998},
+								pos: position{line: 2112, col: 7, offset: 68030},
 								expr: &litMatcher{
-									pos:        position{line: 2111, col: 8, offset: 67999},
+									pos:        position{line: 2112, col: 8, offset: 68031},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42475,15 +42643,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2125, col: 5, offset: 68345},
+							pos:   position{line: 2126, col: 5, offset: 68377},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2125, col: 15, offset: 68355},
+								pos:  position{line: 2126, col: 15, offset: 68387},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2126, col: 5, offset: 68394},
+							pos:  position{line: 2127, col: 5, offset: 68426},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -42492,20 +42660,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2130, col: 1, offset: 68531},
+			pos:  position{line: 2131, col: 1, offset: 68563},
 			expr: &actionExpr{
-				pos: position{line: 2131, col: 5, offset: 68572},
+				pos: position{line: 2132, col: 5, offset: 68604},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2131, col: 5, offset: 68572},
+					pos: position{line: 2132, col: 5, offset: 68604},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2131, col: 5, offset: 68572},
+							pos: position{line: 2132, col: 5, offset: 68604},
 							expr: &actionExpr{
-								pos: position{line: 2909, col: 10, offset: 91792},
+								pos: position{line: 2910, col: 10, offset: 91824},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2909, col: 10, offset: 91792},
+									pos:        position{line: 2910, col: 10, offset: 91824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42514,18 +42682,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2132, col: 5, offset: 68611},
+							pos:   position{line: 2133, col: 5, offset: 68643},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2132, col: 14, offset: 68620},
+								pos: position{line: 2133, col: 14, offset: 68652},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2132, col: 15, offset: 68621},
+									pos:  position{line: 2133, col: 15, offset: 68653},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2133, col: 5, offset: 68659},
+							pos: position{line: 2134, col: 5, offset: 68691},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -42534,31 +42702,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2139, col: 1, offset: 68800},
+			pos:  position{line: 2140, col: 1, offset: 68832},
 			expr: &actionExpr{
-				pos: position{line: 2140, col: 5, offset: 68840},
+				pos: position{line: 2141, col: 5, offset: 68872},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2140, col: 5, offset: 68840},
+					pos: position{line: 2141, col: 5, offset: 68872},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2926, col: 11, offset: 92126},
+							pos: position{line: 2927, col: 11, offset: 92158},
 							expr: &anyMatcher{
-								line: 2926, col: 13, offset: 92128,
+								line: 2927, col: 13, offset: 92160,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2141, col: 5, offset: 68851},
+							pos: position{line: 2142, col: 5, offset: 68883},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2141, col: 6, offset: 68852},
+								pos:  position{line: 2142, col: 6, offset: 68884},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2142, col: 5, offset: 68893},
+							pos:   position{line: 2143, col: 5, offset: 68925},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2142, col: 14, offset: 68902},
+								pos:  position{line: 2143, col: 14, offset: 68934},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42568,35 +42736,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2147, col: 1, offset: 68990},
+			pos:  position{line: 2148, col: 1, offset: 69022},
 			expr: &choiceExpr{
-				pos: position{line: 2149, col: 5, offset: 69061},
+				pos: position{line: 2150, col: 5, offset: 69093},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2149, col: 5, offset: 69061},
+						pos: position{line: 2150, col: 5, offset: 69093},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2149, col: 5, offset: 69061},
+							pos: position{line: 2150, col: 5, offset: 69093},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2149, col: 5, offset: 69061},
+									pos:   position{line: 2150, col: 5, offset: 69093},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59743},
+										pos: position{line: 1853, col: 25, offset: 59775},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1852, col: 25, offset: 59743},
+											pos: position{line: 1853, col: 25, offset: 59775},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1852, col: 25, offset: 59743},
+													pos:        position{line: 1853, col: 25, offset: 59775},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1852, col: 30, offset: 59748},
+													pos: position{line: 1853, col: 30, offset: 59780},
 													expr: &litMatcher{
-														pos:        position{line: 1852, col: 30, offset: 59748},
+														pos:        position{line: 1853, col: 30, offset: 59780},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42607,21 +42775,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2149, col: 40, offset: 69096},
+									pos:        position{line: 2150, col: 40, offset: 69128},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2149, col: 45, offset: 69101},
+									pos:   position{line: 2150, col: 45, offset: 69133},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2149, col: 55, offset: 69111},
+										pos:  position{line: 2150, col: 55, offset: 69143},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2149, col: 89, offset: 69145},
+									pos:        position{line: 2150, col: 89, offset: 69177},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -42630,21 +42798,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2153, col: 7, offset: 69314},
+						pos: position{line: 2154, col: 7, offset: 69346},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2153, col: 7, offset: 69314},
+							pos: position{line: 2154, col: 7, offset: 69346},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2153, col: 7, offset: 69314},
+									pos:   position{line: 2154, col: 7, offset: 69346},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1848, col: 25, offset: 59670},
+										pos: position{line: 1849, col: 25, offset: 59702},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1848, col: 25, offset: 59670},
+											pos: position{line: 1849, col: 25, offset: 59702},
 											expr: &litMatcher{
-												pos:        position{line: 1848, col: 25, offset: 59670},
+												pos:        position{line: 1849, col: 25, offset: 59702},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42653,21 +42821,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2153, col: 42, offset: 69349},
+									pos:        position{line: 2154, col: 42, offset: 69381},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2153, col: 47, offset: 69354},
+									pos:   position{line: 2154, col: 47, offset: 69386},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2153, col: 57, offset: 69364},
+										pos:  position{line: 2154, col: 57, offset: 69396},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2153, col: 91, offset: 69398},
+									pos:        position{line: 2154, col: 91, offset: 69430},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42676,21 +42844,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2158, col: 7, offset: 69604},
+						pos: position{line: 2159, col: 7, offset: 69636},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2158, col: 7, offset: 69604},
+							pos: position{line: 2159, col: 7, offset: 69636},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2158, col: 7, offset: 69604},
+									pos:   position{line: 2159, col: 7, offset: 69636},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1848, col: 25, offset: 59670},
+										pos: position{line: 1849, col: 25, offset: 59702},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1848, col: 25, offset: 59670},
+											pos: position{line: 1849, col: 25, offset: 59702},
 											expr: &litMatcher{
-												pos:        position{line: 1848, col: 25, offset: 59670},
+												pos:        position{line: 1849, col: 25, offset: 59702},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42699,21 +42867,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2158, col: 42, offset: 69639},
+									pos:        position{line: 2159, col: 42, offset: 69671},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2158, col: 46, offset: 69643},
+									pos:   position{line: 2159, col: 46, offset: 69675},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2158, col: 56, offset: 69653},
+										pos:  position{line: 2159, col: 56, offset: 69685},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2158, col: 90, offset: 69687},
+									pos:        position{line: 2159, col: 90, offset: 69719},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42726,29 +42894,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2175, col: 1, offset: 70172},
+			pos:  position{line: 2176, col: 1, offset: 70204},
 			expr: &actionExpr{
-				pos: position{line: 2176, col: 5, offset: 70202},
+				pos: position{line: 2177, col: 5, offset: 70234},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2176, col: 5, offset: 70202},
+					pos: position{line: 2177, col: 5, offset: 70234},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2171, col: 40, offset: 70123},
+							pos:        position{line: 2172, col: 40, offset: 70155},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2177, col: 5, offset: 70243},
+							pos:   position{line: 2178, col: 5, offset: 70275},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2177, col: 15, offset: 70253},
+								pos:  position{line: 2178, col: 15, offset: 70285},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2173, col: 38, offset: 70166},
+							pos:        position{line: 2174, col: 38, offset: 70198},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -42759,24 +42927,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2182, col: 1, offset: 70419},
+			pos:  position{line: 2183, col: 1, offset: 70451},
 			expr: &actionExpr{
-				pos: position{line: 2183, col: 5, offset: 70456},
+				pos: position{line: 2184, col: 5, offset: 70488},
 				run: (*parser).callonDoubleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2183, col: 5, offset: 70456},
+					pos: position{line: 2184, col: 5, offset: 70488},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2183, col: 5, offset: 70456},
+							pos: position{line: 2184, col: 5, offset: 70488},
 							run: (*parser).callonDoubleQuoteMarkedTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2187, col: 5, offset: 70576},
+							pos:   position{line: 2188, col: 5, offset: 70608},
 							label: "elements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2187, col: 14, offset: 70585},
+								pos: position{line: 2188, col: 14, offset: 70617},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2187, col: 15, offset: 70586},
+									pos:  position{line: 2188, col: 15, offset: 70618},
 									name: "DoubleQuoteMarkedTextElement",
 								},
 							},
@@ -42787,33 +42955,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2191, col: 1, offset: 70655},
+			pos:  position{line: 2192, col: 1, offset: 70687},
 			expr: &actionExpr{
-				pos: position{line: 2192, col: 5, offset: 70724},
+				pos: position{line: 2193, col: 5, offset: 70756},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2192, col: 5, offset: 70724},
+					pos: position{line: 2193, col: 5, offset: 70756},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2926, col: 11, offset: 92126},
+							pos: position{line: 2927, col: 11, offset: 92158},
 							expr: &anyMatcher{
-								line: 2926, col: 13, offset: 92128,
+								line: 2927, col: 13, offset: 92160,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2193, col: 5, offset: 70735},
+							pos: position{line: 2194, col: 5, offset: 70767},
 							expr: &litMatcher{
-								pos:        position{line: 2173, col: 38, offset: 70166},
+								pos:        position{line: 2174, col: 38, offset: 70198},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2194, col: 5, offset: 70774},
+							pos:   position{line: 2195, col: 5, offset: 70806},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2194, col: 14, offset: 70783},
+								pos:  position{line: 2195, col: 14, offset: 70815},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42823,29 +42991,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2219, col: 1, offset: 71465},
+			pos:  position{line: 2220, col: 1, offset: 71497},
 			expr: &actionExpr{
-				pos: position{line: 2220, col: 5, offset: 71495},
+				pos: position{line: 2221, col: 5, offset: 71527},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2220, col: 5, offset: 71495},
+					pos: position{line: 2221, col: 5, offset: 71527},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2203, col: 5, offset: 71031},
+							pos:        position{line: 2204, col: 5, offset: 71063},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2204, col: 5, offset: 71040},
+							pos: position{line: 2205, col: 5, offset: 71072},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2208, col: 5, offset: 71160},
+							pos: position{line: 2209, col: 5, offset: 71192},
 							expr: &notExpr{
-								pos: position{line: 2208, col: 7, offset: 71162},
+								pos: position{line: 2209, col: 7, offset: 71194},
 								expr: &litMatcher{
-									pos:        position{line: 2208, col: 8, offset: 71163},
+									pos:        position{line: 2209, col: 8, offset: 71195},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42853,38 +43021,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2221, col: 5, offset: 71535},
+							pos:   position{line: 2222, col: 5, offset: 71567},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2221, col: 15, offset: 71545},
+								pos:  position{line: 2222, col: 15, offset: 71577},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2211, col: 5, offset: 71268},
+							pos:        position{line: 2212, col: 5, offset: 71300},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2212, col: 5, offset: 71276},
+							pos: position{line: 2213, col: 5, offset: 71308},
 							expr: &litMatcher{
-								pos:        position{line: 2212, col: 6, offset: 71277},
+								pos:        position{line: 2213, col: 6, offset: 71309},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2213, col: 5, offset: 71340},
+							pos: position{line: 2214, col: 5, offset: 71372},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2217, col: 5, offset: 71451},
+							pos: position{line: 2218, col: 5, offset: 71483},
 							expr: &notExpr{
-								pos: position{line: 2217, col: 7, offset: 71453},
+								pos: position{line: 2218, col: 7, offset: 71485},
 								expr: &charClassMatcher{
-									pos:        position{line: 2799, col: 13, offset: 88887},
+									pos:        position{line: 2800, col: 13, offset: 88919},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42898,20 +43066,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2226, col: 1, offset: 71712},
+			pos:  position{line: 2227, col: 1, offset: 71744},
 			expr: &actionExpr{
-				pos: position{line: 2227, col: 5, offset: 71750},
+				pos: position{line: 2228, col: 5, offset: 71782},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2227, col: 5, offset: 71750},
+					pos: position{line: 2228, col: 5, offset: 71782},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2227, col: 5, offset: 71750},
+							pos: position{line: 2228, col: 5, offset: 71782},
 							expr: &actionExpr{
-								pos: position{line: 2909, col: 10, offset: 91792},
+								pos: position{line: 2910, col: 10, offset: 91824},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2909, col: 10, offset: 91792},
+									pos:        position{line: 2910, col: 10, offset: 91824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42920,18 +43088,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2228, col: 5, offset: 71789},
+							pos:   position{line: 2229, col: 5, offset: 71821},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2228, col: 14, offset: 71798},
+								pos: position{line: 2229, col: 14, offset: 71830},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2228, col: 15, offset: 71799},
+									pos:  position{line: 2229, col: 15, offset: 71831},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2229, col: 5, offset: 71835},
+							pos: position{line: 2230, col: 5, offset: 71867},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -42940,49 +43108,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2235, col: 1, offset: 71976},
+			pos:  position{line: 2236, col: 1, offset: 72008},
 			expr: &actionExpr{
-				pos: position{line: 2236, col: 5, offset: 72013},
+				pos: position{line: 2237, col: 5, offset: 72045},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2236, col: 5, offset: 72013},
+					pos: position{line: 2237, col: 5, offset: 72045},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2926, col: 11, offset: 92126},
+							pos: position{line: 2927, col: 11, offset: 92158},
 							expr: &anyMatcher{
-								line: 2926, col: 13, offset: 92128,
+								line: 2927, col: 13, offset: 92160,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2237, col: 5, offset: 72024},
+							pos: position{line: 2238, col: 5, offset: 72056},
 							expr: &seqExpr{
-								pos: position{line: 2211, col: 5, offset: 71268},
+								pos: position{line: 2212, col: 5, offset: 71300},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2211, col: 5, offset: 71268},
+										pos:        position{line: 2212, col: 5, offset: 71300},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2212, col: 5, offset: 71276},
+										pos: position{line: 2213, col: 5, offset: 71308},
 										expr: &litMatcher{
-											pos:        position{line: 2212, col: 6, offset: 71277},
+											pos:        position{line: 2213, col: 6, offset: 71309},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2213, col: 5, offset: 71340},
+										pos: position{line: 2214, col: 5, offset: 71372},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2217, col: 5, offset: 71451},
+										pos: position{line: 2218, col: 5, offset: 71483},
 										expr: &notExpr{
-											pos: position{line: 2217, col: 7, offset: 71453},
+											pos: position{line: 2218, col: 7, offset: 71485},
 											expr: &charClassMatcher{
-												pos:        position{line: 2799, col: 13, offset: 88887},
+												pos:        position{line: 2800, col: 13, offset: 88919},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42994,10 +43162,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2238, col: 5, offset: 72063},
+							pos:   position{line: 2239, col: 5, offset: 72095},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2238, col: 14, offset: 72072},
+								pos:  position{line: 2239, col: 14, offset: 72104},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43007,35 +43175,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2243, col: 1, offset: 72160},
+			pos:  position{line: 2244, col: 1, offset: 72192},
 			expr: &choiceExpr{
-				pos: position{line: 2245, col: 5, offset: 72224},
+				pos: position{line: 2246, col: 5, offset: 72256},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2245, col: 5, offset: 72224},
+						pos: position{line: 2246, col: 5, offset: 72256},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2245, col: 5, offset: 72224},
+							pos: position{line: 2246, col: 5, offset: 72256},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2245, col: 5, offset: 72224},
+									pos:   position{line: 2246, col: 5, offset: 72256},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59743},
+										pos: position{line: 1853, col: 25, offset: 59775},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1852, col: 25, offset: 59743},
+											pos: position{line: 1853, col: 25, offset: 59775},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1852, col: 25, offset: 59743},
+													pos:        position{line: 1853, col: 25, offset: 59775},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1852, col: 30, offset: 59748},
+													pos: position{line: 1853, col: 30, offset: 59780},
 													expr: &litMatcher{
-														pos:        position{line: 1852, col: 30, offset: 59748},
+														pos:        position{line: 1853, col: 30, offset: 59780},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43046,21 +43214,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2245, col: 40, offset: 72259},
+									pos:        position{line: 2246, col: 40, offset: 72291},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2245, col: 45, offset: 72264},
+									pos:   position{line: 2246, col: 45, offset: 72296},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2245, col: 55, offset: 72274},
+										pos:  position{line: 2246, col: 55, offset: 72306},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2245, col: 86, offset: 72305},
+									pos:        position{line: 2246, col: 86, offset: 72337},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -43069,21 +43237,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2249, col: 7, offset: 72470},
+						pos: position{line: 2250, col: 7, offset: 72502},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2249, col: 7, offset: 72470},
+							pos: position{line: 2250, col: 7, offset: 72502},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2249, col: 7, offset: 72470},
+									pos:   position{line: 2250, col: 7, offset: 72502},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1848, col: 25, offset: 59670},
+										pos: position{line: 1849, col: 25, offset: 59702},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1848, col: 25, offset: 59670},
+											pos: position{line: 1849, col: 25, offset: 59702},
 											expr: &litMatcher{
-												pos:        position{line: 1848, col: 25, offset: 59670},
+												pos:        position{line: 1849, col: 25, offset: 59702},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43092,21 +43260,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2249, col: 42, offset: 72505},
+									pos:        position{line: 2250, col: 42, offset: 72537},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2249, col: 47, offset: 72510},
+									pos:   position{line: 2250, col: 47, offset: 72542},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2249, col: 57, offset: 72520},
+										pos:  position{line: 2250, col: 57, offset: 72552},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2249, col: 88, offset: 72551},
+									pos:        position{line: 2250, col: 88, offset: 72583},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43115,21 +43283,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2254, col: 7, offset: 72754},
+						pos: position{line: 2255, col: 7, offset: 72786},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2254, col: 7, offset: 72754},
+							pos: position{line: 2255, col: 7, offset: 72786},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2254, col: 7, offset: 72754},
+									pos:   position{line: 2255, col: 7, offset: 72786},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1848, col: 25, offset: 59670},
+										pos: position{line: 1849, col: 25, offset: 59702},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1848, col: 25, offset: 59670},
+											pos: position{line: 1849, col: 25, offset: 59702},
 											expr: &litMatcher{
-												pos:        position{line: 1848, col: 25, offset: 59670},
+												pos:        position{line: 1849, col: 25, offset: 59702},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43138,21 +43306,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2254, col: 42, offset: 72789},
+									pos:        position{line: 2255, col: 42, offset: 72821},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2254, col: 46, offset: 72793},
+									pos:   position{line: 2255, col: 46, offset: 72825},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2254, col: 56, offset: 72803},
+										pos:  position{line: 2255, col: 56, offset: 72835},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2254, col: 87, offset: 72834},
+									pos:        position{line: 2255, col: 87, offset: 72866},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43165,29 +43333,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2261, col: 1, offset: 73101},
+			pos:  position{line: 2262, col: 1, offset: 73133},
 			expr: &actionExpr{
-				pos: position{line: 2262, col: 5, offset: 73123},
+				pos: position{line: 2263, col: 5, offset: 73155},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2262, col: 5, offset: 73123},
+					pos: position{line: 2263, col: 5, offset: 73155},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2268, col: 27, offset: 73338},
+							pos:        position{line: 2269, col: 27, offset: 73370},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2263, col: 5, offset: 73150},
+							pos:   position{line: 2264, col: 5, offset: 73182},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2263, col: 14, offset: 73159},
+								pos:  position{line: 2264, col: 14, offset: 73191},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2268, col: 27, offset: 73338},
+							pos:        position{line: 2269, col: 27, offset: 73370},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43198,34 +43366,34 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2270, col: 1, offset: 73343},
+			pos:  position{line: 2271, col: 1, offset: 73375},
 			expr: &actionExpr{
-				pos: position{line: 2271, col: 5, offset: 73371},
+				pos: position{line: 2272, col: 5, offset: 73403},
 				run: (*parser).callonSubscriptTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2271, col: 5, offset: 73371},
+					pos: position{line: 2272, col: 5, offset: 73403},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2271, col: 5, offset: 73371},
+							pos: position{line: 2272, col: 5, offset: 73403},
 							run: (*parser).callonSubscriptTextElement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2275, col: 5, offset: 73491},
+							pos:   position{line: 2276, col: 5, offset: 73523},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2275, col: 14, offset: 73500},
+								pos: position{line: 2276, col: 14, offset: 73532},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2275, col: 14, offset: 73500},
+										pos:  position{line: 2276, col: 14, offset: 73532},
 										name: "QuotedText",
 									},
 									&actionExpr{
-										pos: position{line: 2279, col: 21, offset: 73588},
+										pos: position{line: 2280, col: 21, offset: 73620},
 										run: (*parser).callonSubscriptTextElement7,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2279, col: 21, offset: 73588},
+											pos: position{line: 2280, col: 21, offset: 73620},
 											expr: &charClassMatcher{
-												pos:        position{line: 2279, col: 21, offset: 73588},
+												pos:        position{line: 2280, col: 21, offset: 73620},
 												val:        "[^\\r\\n ~]",
 												chars:      []rune{'\r', '\n', ' ', '~'},
 												ignoreCase: false,
@@ -43242,23 +43410,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2283, col: 1, offset: 73673},
+			pos:  position{line: 2284, col: 1, offset: 73705},
 			expr: &actionExpr{
-				pos: position{line: 2285, col: 5, offset: 73740},
+				pos: position{line: 2286, col: 5, offset: 73772},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2285, col: 5, offset: 73740},
+					pos: position{line: 2286, col: 5, offset: 73772},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2285, col: 5, offset: 73740},
+							pos:   position{line: 2286, col: 5, offset: 73772},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1848, col: 25, offset: 59670},
+								pos: position{line: 1849, col: 25, offset: 59702},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1848, col: 25, offset: 59670},
+									pos: position{line: 1849, col: 25, offset: 59702},
 									expr: &litMatcher{
-										pos:        position{line: 1848, col: 25, offset: 59670},
+										pos:        position{line: 1849, col: 25, offset: 59702},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43267,21 +43435,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2268, col: 27, offset: 73338},
+							pos:        position{line: 2269, col: 27, offset: 73370},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2287, col: 5, offset: 73808},
+							pos:   position{line: 2288, col: 5, offset: 73840},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2287, col: 14, offset: 73817},
+								pos:  position{line: 2288, col: 14, offset: 73849},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2268, col: 27, offset: 73338},
+							pos:        position{line: 2269, col: 27, offset: 73370},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43292,29 +43460,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2295, col: 1, offset: 74080},
+			pos:  position{line: 2296, col: 1, offset: 74112},
 			expr: &actionExpr{
-				pos: position{line: 2296, col: 5, offset: 74104},
+				pos: position{line: 2297, col: 5, offset: 74136},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2296, col: 5, offset: 74104},
+					pos: position{line: 2297, col: 5, offset: 74136},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2302, col: 29, offset: 74331},
+							pos:        position{line: 2303, col: 29, offset: 74363},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2297, col: 5, offset: 74134},
+							pos:   position{line: 2298, col: 5, offset: 74166},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2297, col: 14, offset: 74143},
+								pos:  position{line: 2298, col: 14, offset: 74175},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2302, col: 29, offset: 74331},
+							pos:        position{line: 2303, col: 29, offset: 74363},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43325,34 +43493,34 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2304, col: 1, offset: 74336},
+			pos:  position{line: 2305, col: 1, offset: 74368},
 			expr: &actionExpr{
-				pos: position{line: 2305, col: 5, offset: 74366},
+				pos: position{line: 2306, col: 5, offset: 74398},
 				run: (*parser).callonSuperscriptTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2305, col: 5, offset: 74366},
+					pos: position{line: 2306, col: 5, offset: 74398},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2305, col: 5, offset: 74366},
+							pos: position{line: 2306, col: 5, offset: 74398},
 							run: (*parser).callonSuperscriptTextElement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2309, col: 5, offset: 74486},
+							pos:   position{line: 2310, col: 5, offset: 74518},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2309, col: 14, offset: 74495},
+								pos: position{line: 2310, col: 14, offset: 74527},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2309, col: 14, offset: 74495},
+										pos:  position{line: 2310, col: 14, offset: 74527},
 										name: "QuotedText",
 									},
 									&actionExpr{
-										pos: position{line: 2313, col: 23, offset: 74587},
+										pos: position{line: 2314, col: 23, offset: 74619},
 										run: (*parser).callonSuperscriptTextElement7,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2313, col: 23, offset: 74587},
+											pos: position{line: 2314, col: 23, offset: 74619},
 											expr: &charClassMatcher{
-												pos:        position{line: 2313, col: 23, offset: 74587},
+												pos:        position{line: 2314, col: 23, offset: 74619},
 												val:        "[^\\r\\n ^]",
 												chars:      []rune{'\r', '\n', ' ', '^'},
 												ignoreCase: false,
@@ -43369,23 +43537,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2317, col: 1, offset: 74672},
+			pos:  position{line: 2318, col: 1, offset: 74704},
 			expr: &actionExpr{
-				pos: position{line: 2319, col: 5, offset: 74744},
+				pos: position{line: 2320, col: 5, offset: 74776},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2319, col: 5, offset: 74744},
+					pos: position{line: 2320, col: 5, offset: 74776},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2319, col: 5, offset: 74744},
+							pos:   position{line: 2320, col: 5, offset: 74776},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1848, col: 25, offset: 59670},
+								pos: position{line: 1849, col: 25, offset: 59702},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1848, col: 25, offset: 59670},
+									pos: position{line: 1849, col: 25, offset: 59702},
 									expr: &litMatcher{
-										pos:        position{line: 1848, col: 25, offset: 59670},
+										pos:        position{line: 1849, col: 25, offset: 59702},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43394,21 +43562,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2302, col: 29, offset: 74331},
+							pos:        position{line: 2303, col: 29, offset: 74363},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2321, col: 5, offset: 74814},
+							pos:   position{line: 2322, col: 5, offset: 74846},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2321, col: 14, offset: 74823},
+								pos:  position{line: 2322, col: 14, offset: 74855},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2302, col: 29, offset: 74331},
+							pos:        position{line: 2303, col: 29, offset: 74363},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43419,27 +43587,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2330, col: 1, offset: 75292},
+			pos:  position{line: 2331, col: 1, offset: 75324},
 			expr: &actionExpr{
-				pos: position{line: 2331, col: 5, offset: 75308},
+				pos: position{line: 2332, col: 5, offset: 75340},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2331, col: 5, offset: 75308},
+					pos: position{line: 2332, col: 5, offset: 75340},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2331, col: 5, offset: 75308},
+							pos: position{line: 2332, col: 5, offset: 75340},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2334, col: 5, offset: 75371},
+							pos:   position{line: 2335, col: 5, offset: 75403},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2334, col: 12, offset: 75378},
+								pos: position{line: 2335, col: 12, offset: 75410},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2334, col: 12, offset: 75378},
+									pos: position{line: 2335, col: 12, offset: 75410},
 									expr: &litMatcher{
-										pos:        position{line: 2334, col: 13, offset: 75379},
+										pos:        position{line: 2335, col: 13, offset: 75411},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -43448,16 +43616,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2338, col: 5, offset: 75487},
+							pos: position{line: 2339, col: 5, offset: 75519},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2913, col: 11, offset: 91853},
+							pos: position{line: 2914, col: 11, offset: 91885},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2913, col: 11, offset: 91853},
+								pos: position{line: 2914, col: 11, offset: 91885},
 								expr: &charClassMatcher{
-									pos:        position{line: 2913, col: 11, offset: 91853},
+									pos:        position{line: 2914, col: 11, offset: 91885},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43466,36 +43634,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2342, col: 12, offset: 75646},
+							pos:   position{line: 2343, col: 12, offset: 75678},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2342, col: 19, offset: 75653},
+								pos:  position{line: 2343, col: 19, offset: 75685},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2931, col: 8, offset: 92190},
+							pos: position{line: 2932, col: 8, offset: 92222},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2918, col: 12, offset: 91963},
+									pos: position{line: 2919, col: 12, offset: 91995},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2918, col: 13, offset: 91964},
+										pos: position{line: 2919, col: 13, offset: 91996},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2918, col: 13, offset: 91964},
+												pos:        position{line: 2919, col: 13, offset: 91996},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2918, col: 20, offset: 91971},
+												pos:        position{line: 2919, col: 20, offset: 92003},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2918, col: 29, offset: 91980},
+												pos:        position{line: 2919, col: 29, offset: 92012},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43504,9 +43672,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2928, col: 8, offset: 92140},
+									pos: position{line: 2929, col: 8, offset: 92172},
 									expr: &anyMatcher{
-										line: 2928, col: 9, offset: 92141,
+										line: 2929, col: 9, offset: 92173,
 									},
 								},
 							},
@@ -43517,24 +43685,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2346, col: 1, offset: 75749},
+			pos:  position{line: 2347, col: 1, offset: 75781},
 			expr: &actionExpr{
-				pos: position{line: 2347, col: 5, offset: 75770},
+				pos: position{line: 2348, col: 5, offset: 75802},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2347, col: 5, offset: 75770},
+					pos: position{line: 2348, col: 5, offset: 75802},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2347, col: 5, offset: 75770},
+							pos: position{line: 2348, col: 5, offset: 75802},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2353, col: 5, offset: 75961},
+							pos:   position{line: 2354, col: 5, offset: 75993},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2353, col: 14, offset: 75970},
+								pos: position{line: 2354, col: 14, offset: 76002},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2353, col: 15, offset: 75971},
+									pos:  position{line: 2354, col: 15, offset: 76003},
 									name: "SectionTitleElement",
 								},
 							},
@@ -43545,38 +43713,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2357, col: 1, offset: 76052},
+			pos:  position{line: 2358, col: 1, offset: 76084},
 			expr: &actionExpr{
-				pos: position{line: 2358, col: 5, offset: 76079},
+				pos: position{line: 2359, col: 5, offset: 76111},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2358, col: 5, offset: 76079},
+					pos: position{line: 2359, col: 5, offset: 76111},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2358, col: 5, offset: 76079},
+							pos: position{line: 2359, col: 5, offset: 76111},
 							expr: &choiceExpr{
-								pos: position{line: 2931, col: 8, offset: 92190},
+								pos: position{line: 2932, col: 8, offset: 92222},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2918, col: 12, offset: 91963},
+										pos: position{line: 2919, col: 12, offset: 91995},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2918, col: 13, offset: 91964},
+											pos: position{line: 2919, col: 13, offset: 91996},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2918, col: 13, offset: 91964},
+													pos:        position{line: 2919, col: 13, offset: 91996},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2918, col: 20, offset: 91971},
+													pos:        position{line: 2919, col: 20, offset: 92003},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2918, col: 29, offset: 91980},
+													pos:        position{line: 2919, col: 29, offset: 92012},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43585,36 +43753,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2928, col: 8, offset: 92140},
+										pos: position{line: 2929, col: 8, offset: 92172},
 										expr: &anyMatcher{
-											line: 2928, col: 9, offset: 92141,
+											line: 2929, col: 9, offset: 92173,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2359, col: 5, offset: 76088},
+							pos:   position{line: 2360, col: 5, offset: 76120},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2360, col: 9, offset: 76106},
+								pos: position{line: 2361, col: 9, offset: 76138},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2808, col: 5, offset: 89034},
+										pos: position{line: 2809, col: 5, offset: 89066},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2808, col: 5, offset: 89034},
+											pos: position{line: 2809, col: 5, offset: 89066},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2808, col: 5, offset: 89034},
+													pos:   position{line: 2809, col: 5, offset: 89066},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2808, col: 11, offset: 89040},
+														pos: position{line: 2809, col: 11, offset: 89072},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2808, col: 11, offset: 89040},
+															pos: position{line: 2809, col: 11, offset: 89072},
 															expr: &charClassMatcher{
-																pos:        position{line: 2808, col: 11, offset: 89040},
+																pos:        position{line: 2809, col: 11, offset: 89072},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43624,36 +43792,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2811, col: 5, offset: 89098},
+													pos: position{line: 2812, col: 5, offset: 89130},
 													expr: &seqExpr{
-														pos: position{line: 2812, col: 9, offset: 89109},
+														pos: position{line: 2813, col: 9, offset: 89141},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2812, col: 9, offset: 89109},
+																pos:        position{line: 2813, col: 9, offset: 89141},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2813, col: 9, offset: 89158},
+																pos: position{line: 2814, col: 9, offset: 89190},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2817, col: 5, offset: 89238},
+													pos: position{line: 2818, col: 5, offset: 89270},
 													expr: &seqExpr{
-														pos: position{line: 2818, col: 9, offset: 89249},
+														pos: position{line: 2819, col: 9, offset: 89281},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2818, col: 9, offset: 89249},
+																pos:        position{line: 2819, col: 9, offset: 89281},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2818, col: 13, offset: 89253},
+																pos:        position{line: 2819, col: 13, offset: 89285},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43666,12 +43834,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2913, col: 11, offset: 91853},
+										pos: position{line: 2914, col: 11, offset: 91885},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2913, col: 11, offset: 91853},
+											pos: position{line: 2914, col: 11, offset: 91885},
 											expr: &charClassMatcher{
-												pos:        position{line: 2913, col: 11, offset: 91853},
+												pos:        position{line: 2914, col: 11, offset: 91885},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43680,21 +43848,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2530, col: 5, offset: 81315},
+										pos: position{line: 2531, col: 5, offset: 81347},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2530, col: 5, offset: 81315},
+											pos: position{line: 2531, col: 5, offset: 81347},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2530, col: 5, offset: 81315},
+													pos:        position{line: 2531, col: 5, offset: 81347},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2530, col: 10, offset: 81320},
+													pos: position{line: 2531, col: 10, offset: 81352},
 													expr: &charClassMatcher{
-														pos:        position{line: 2530, col: 11, offset: 81321},
+														pos:        position{line: 2531, col: 11, offset: 81353},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43705,29 +43873,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2536, col: 5, offset: 81513},
+										pos: position{line: 2537, col: 5, offset: 81545},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2536, col: 5, offset: 81513},
+											pos: position{line: 2537, col: 5, offset: 81545},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2536, col: 5, offset: 81513},
+													pos: position{line: 2537, col: 5, offset: 81545},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2539, col: 5, offset: 81584},
+													pos: position{line: 2540, col: 5, offset: 81616},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2543, col: 5, offset: 81709},
+													pos:        position{line: 2544, col: 5, offset: 81741},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2543, col: 9, offset: 81713},
+													pos: position{line: 2544, col: 9, offset: 81745},
 													expr: &charClassMatcher{
-														pos:        position{line: 2543, col: 10, offset: 81714},
+														pos:        position{line: 2544, col: 10, offset: 81746},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43738,31 +43906,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2363, col: 11, offset: 76171},
+										pos:  position{line: 2364, col: 11, offset: 76203},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2826, col: 5, offset: 89446},
+										pos: position{line: 2827, col: 5, offset: 89478},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2827, col: 9, offset: 89456},
+											pos: position{line: 2828, col: 9, offset: 89488},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2827, col: 10, offset: 89457},
+													pos:        position{line: 2828, col: 10, offset: 89489},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2829, col: 13, offset: 89554},
+													pos: position{line: 2830, col: 13, offset: 89586},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2829, col: 13, offset: 89554},
+															pos: position{line: 2830, col: 13, offset: 89586},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2832, col: 13, offset: 89654},
+															pos:        position{line: 2833, col: 13, offset: 89686},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43770,20 +43938,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2832, col: 19, offset: 89660},
+													pos:        position{line: 2833, col: 19, offset: 89692},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2835, col: 13, offset: 89698},
+													pos: position{line: 2836, col: 13, offset: 89730},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2835, col: 13, offset: 89698},
+															pos: position{line: 2836, col: 13, offset: 89730},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2838, col: 14, offset: 89791},
+															pos:        position{line: 2839, col: 14, offset: 89823},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -43792,18 +43960,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2840, col: 12, offset: 89835},
+													pos: position{line: 2841, col: 12, offset: 89867},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2840, col: 12, offset: 89835},
+															pos:        position{line: 2841, col: 12, offset: 89867},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2840, col: 16, offset: 89839},
+															pos: position{line: 2841, col: 16, offset: 89871},
 															expr: &litMatcher{
-																pos:        position{line: 2840, col: 17, offset: 89840},
+																pos:        position{line: 2841, col: 17, offset: 89872},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -43815,35 +43983,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2365, col: 11, offset: 76244},
+										pos:  position{line: 2366, col: 11, offset: 76276},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2366, col: 11, offset: 76260},
+										pos:  position{line: 2367, col: 11, offset: 76292},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2367, col: 11, offset: 76288},
+										pos:  position{line: 2368, col: 11, offset: 76320},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2499, col: 5, offset: 80116},
+										pos: position{line: 2500, col: 5, offset: 80148},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2499, col: 5, offset: 80116},
+											pos: position{line: 2500, col: 5, offset: 80148},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2499, col: 5, offset: 80116},
+													pos: position{line: 2500, col: 5, offset: 80148},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2502, col: 5, offset: 80192},
+													pos:   position{line: 2503, col: 5, offset: 80224},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2503, col: 9, offset: 80210},
+														pos: position{line: 2504, col: 9, offset: 80242},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2503, col: 10, offset: 80211},
+															pos:        position{line: 2504, col: 10, offset: 80243},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -43855,7 +44023,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2369, col: 11, offset: 76373},
+										pos:  position{line: 2370, col: 11, offset: 76405},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -44244,17 +44412,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2382, col: 5, offset: 76826},
+										pos: position{line: 2383, col: 5, offset: 76858},
 										run: (*parser).callonSectionTitleElement145,
 										expr: &seqExpr{
-											pos: position{line: 2382, col: 5, offset: 76826},
+											pos: position{line: 2383, col: 5, offset: 76858},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2382, col: 5, offset: 76826},
+													pos: position{line: 2383, col: 5, offset: 76858},
 													run: (*parser).callonSectionTitleElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2385, col: 5, offset: 76881},
+													pos:   position{line: 2386, col: 5, offset: 76913},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 404, col: 5, offset: 12405},
@@ -44708,12 +44876,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2385, col: 26, offset: 76902},
+													pos: position{line: 2386, col: 26, offset: 76934},
 													expr: &actionExpr{
-														pos: position{line: 2909, col: 10, offset: 91792},
+														pos: position{line: 2910, col: 10, offset: 91824},
 														run: (*parser).callonSectionTitleElement241,
 														expr: &charClassMatcher{
-															pos:        position{line: 2909, col: 10, offset: 91792},
+															pos:        position{line: 2910, col: 10, offset: 91824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44722,30 +44890,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2385, col: 33, offset: 76909},
+													pos: position{line: 2386, col: 33, offset: 76941},
 													expr: &choiceExpr{
-														pos: position{line: 2931, col: 8, offset: 92190},
+														pos: position{line: 2932, col: 8, offset: 92222},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2918, col: 12, offset: 91963},
+																pos: position{line: 2919, col: 12, offset: 91995},
 																run: (*parser).callonSectionTitleElement245,
 																expr: &choiceExpr{
-																	pos: position{line: 2918, col: 13, offset: 91964},
+																	pos: position{line: 2919, col: 13, offset: 91996},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 13, offset: 91964},
+																			pos:        position{line: 2919, col: 13, offset: 91996},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 20, offset: 91971},
+																			pos:        position{line: 2919, col: 20, offset: 92003},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2918, col: 29, offset: 91980},
+																			pos:        position{line: 2919, col: 29, offset: 92012},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44754,9 +44922,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2928, col: 8, offset: 92140},
+																pos: position{line: 2929, col: 8, offset: 92172},
 																expr: &anyMatcher{
-																	line: 2928, col: 9, offset: 92141,
+																	line: 2929, col: 9, offset: 92173,
 																},
 															},
 														},
@@ -44781,12 +44949,12 @@ var g = &grammar{
 													pos:   position{line: 1254, col: 14, offset: 38838},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2894, col: 7, offset: 91444},
+														pos: position{line: 2895, col: 7, offset: 91476},
 														run: (*parser).callonSectionTitleElement256,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2894, col: 7, offset: 91444},
+															pos: position{line: 2895, col: 7, offset: 91476},
 															expr: &charClassMatcher{
-																pos:        position{line: 2894, col: 7, offset: 91444},
+																pos:        position{line: 2895, col: 7, offset: 91476},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -44820,12 +44988,12 @@ var g = &grammar{
 													pos:   position{line: 1259, col: 10, offset: 38970},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2894, col: 7, offset: 91444},
+														pos: position{line: 2895, col: 7, offset: 91476},
 														run: (*parser).callonSectionTitleElement264,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2894, col: 7, offset: 91444},
+															pos: position{line: 2895, col: 7, offset: 91476},
 															expr: &charClassMatcher{
-																pos:        position{line: 2894, col: 7, offset: 91444},
+																pos:        position{line: 2895, col: 7, offset: 91476},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -44844,14 +45012,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2374, col: 11, offset: 76627},
+										pos:  position{line: 2375, col: 11, offset: 76659},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2848, col: 12, offset: 90100},
+										pos: position{line: 2849, col: 12, offset: 90132},
 										run: (*parser).callonSectionTitleElement269,
 										expr: &charClassMatcher{
-											pos:        position{line: 2848, col: 12, offset: 90100},
+											pos:        position{line: 2849, col: 12, offset: 90132},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -44867,52 +45035,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2395, col: 1, offset: 77171},
+			pos:  position{line: 2396, col: 1, offset: 77203},
 			expr: &actionExpr{
-				pos: position{line: 2396, col: 5, offset: 77258},
+				pos: position{line: 2397, col: 5, offset: 77290},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2396, col: 5, offset: 77258},
+					pos: position{line: 2397, col: 5, offset: 77290},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2396, col: 5, offset: 77258},
+							pos:   position{line: 2397, col: 5, offset: 77290},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2396, col: 14, offset: 77267},
+								pos: position{line: 2397, col: 14, offset: 77299},
 								expr: &actionExpr{
-									pos: position{line: 2398, col: 9, offset: 77293},
+									pos: position{line: 2399, col: 9, offset: 77325},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2398, col: 9, offset: 77293},
+										pos: position{line: 2399, col: 9, offset: 77325},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2926, col: 11, offset: 92126},
+												pos: position{line: 2927, col: 11, offset: 92158},
 												expr: &anyMatcher{
-													line: 2926, col: 13, offset: 92128,
+													line: 2927, col: 13, offset: 92160,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2399, col: 9, offset: 77308},
+												pos:   position{line: 2400, col: 9, offset: 77340},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2400, col: 13, offset: 77330},
+													pos: position{line: 2401, col: 13, offset: 77362},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2808, col: 5, offset: 89034},
+															pos: position{line: 2809, col: 5, offset: 89066},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2808, col: 5, offset: 89034},
+																pos: position{line: 2809, col: 5, offset: 89066},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2808, col: 5, offset: 89034},
+																		pos:   position{line: 2809, col: 5, offset: 89066},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2808, col: 11, offset: 89040},
+																			pos: position{line: 2809, col: 11, offset: 89072},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2808, col: 11, offset: 89040},
+																				pos: position{line: 2809, col: 11, offset: 89072},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2808, col: 11, offset: 89040},
+																					pos:        position{line: 2809, col: 11, offset: 89072},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44922,36 +45090,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2811, col: 5, offset: 89098},
+																		pos: position{line: 2812, col: 5, offset: 89130},
 																		expr: &seqExpr{
-																			pos: position{line: 2812, col: 9, offset: 89109},
+																			pos: position{line: 2813, col: 9, offset: 89141},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2812, col: 9, offset: 89109},
+																					pos:        position{line: 2813, col: 9, offset: 89141},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2813, col: 9, offset: 89158},
+																					pos: position{line: 2814, col: 9, offset: 89190},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2817, col: 5, offset: 89238},
+																		pos: position{line: 2818, col: 5, offset: 89270},
 																		expr: &seqExpr{
-																			pos: position{line: 2818, col: 9, offset: 89249},
+																			pos: position{line: 2819, col: 9, offset: 89281},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2818, col: 9, offset: 89249},
+																					pos:        position{line: 2819, col: 9, offset: 89281},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2818, col: 13, offset: 89253},
+																					pos:        position{line: 2819, col: 13, offset: 89285},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44964,12 +45132,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2913, col: 11, offset: 91853},
+															pos: position{line: 2914, col: 11, offset: 91885},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2913, col: 11, offset: 91853},
+																pos: position{line: 2914, col: 11, offset: 91885},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2913, col: 11, offset: 91853},
+																	pos:        position{line: 2914, col: 11, offset: 91885},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -44978,25 +45146,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2402, col: 15, offset: 77376},
+															pos:  position{line: 2403, col: 15, offset: 77408},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2530, col: 5, offset: 81315},
+															pos: position{line: 2531, col: 5, offset: 81347},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2530, col: 5, offset: 81315},
+																pos: position{line: 2531, col: 5, offset: 81347},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 5, offset: 81315},
+																		pos:        position{line: 2531, col: 5, offset: 81347},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2530, col: 10, offset: 81320},
+																		pos: position{line: 2531, col: 10, offset: 81352},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2530, col: 11, offset: 81321},
+																			pos:        position{line: 2531, col: 11, offset: 81353},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45007,29 +45175,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2536, col: 5, offset: 81513},
+															pos: position{line: 2537, col: 5, offset: 81545},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2536, col: 5, offset: 81513},
+																pos: position{line: 2537, col: 5, offset: 81545},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2536, col: 5, offset: 81513},
+																		pos: position{line: 2537, col: 5, offset: 81545},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2539, col: 5, offset: 81584},
+																		pos: position{line: 2540, col: 5, offset: 81616},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2543, col: 5, offset: 81709},
+																		pos:        position{line: 2544, col: 5, offset: 81741},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2543, col: 9, offset: 81713},
+																		pos: position{line: 2544, col: 9, offset: 81745},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2543, col: 10, offset: 81714},
+																			pos:        position{line: 2544, col: 10, offset: 81746},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45040,27 +45208,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2826, col: 5, offset: 89446},
+															pos: position{line: 2827, col: 5, offset: 89478},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2827, col: 9, offset: 89456},
+																pos: position{line: 2828, col: 9, offset: 89488},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2827, col: 10, offset: 89457},
+																		pos:        position{line: 2828, col: 10, offset: 89489},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2829, col: 13, offset: 89554},
+																		pos: position{line: 2830, col: 13, offset: 89586},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2829, col: 13, offset: 89554},
+																				pos: position{line: 2830, col: 13, offset: 89586},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2832, col: 13, offset: 89654},
+																				pos:        position{line: 2833, col: 13, offset: 89686},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45068,20 +45236,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2832, col: 19, offset: 89660},
+																		pos:        position{line: 2833, col: 19, offset: 89692},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2835, col: 13, offset: 89698},
+																		pos: position{line: 2836, col: 13, offset: 89730},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2835, col: 13, offset: 89698},
+																				pos: position{line: 2836, col: 13, offset: 89730},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2838, col: 14, offset: 89791},
+																				pos:        position{line: 2839, col: 14, offset: 89823},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45090,18 +45258,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2840, col: 12, offset: 89835},
+																		pos: position{line: 2841, col: 12, offset: 89867},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2840, col: 12, offset: 89835},
+																				pos:        position{line: 2841, col: 12, offset: 89867},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2840, col: 16, offset: 89839},
+																				pos: position{line: 2841, col: 16, offset: 89871},
 																				expr: &litMatcher{
-																					pos:        position{line: 2840, col: 17, offset: 89840},
+																					pos:        position{line: 2841, col: 17, offset: 89872},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45113,25 +45281,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2918, col: 12, offset: 91963},
+															pos: position{line: 2919, col: 12, offset: 91995},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2918, col: 13, offset: 91964},
+																pos: position{line: 2919, col: 13, offset: 91996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 13, offset: 91964},
+																		pos:        position{line: 2919, col: 13, offset: 91996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 20, offset: 91971},
+																		pos:        position{line: 2919, col: 20, offset: 92003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2918, col: 29, offset: 91980},
+																		pos:        position{line: 2919, col: 29, offset: 92012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45486,35 +45654,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2407, col: 15, offset: 77543},
+															pos:  position{line: 2408, col: 15, offset: 77575},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2408, col: 15, offset: 77563},
+															pos:  position{line: 2409, col: 15, offset: 77595},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2409, col: 15, offset: 77652},
+															pos:  position{line: 2410, col: 15, offset: 77684},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2499, col: 5, offset: 80116},
+															pos: position{line: 2500, col: 5, offset: 80148},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2499, col: 5, offset: 80116},
+																pos: position{line: 2500, col: 5, offset: 80148},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2499, col: 5, offset: 80116},
+																		pos: position{line: 2500, col: 5, offset: 80148},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2502, col: 5, offset: 80192},
+																		pos:   position{line: 2503, col: 5, offset: 80224},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2503, col: 9, offset: 80210},
+																			pos: position{line: 2504, col: 9, offset: 80242},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2503, col: 10, offset: 80211},
+																				pos:        position{line: 2504, col: 10, offset: 80243},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -45548,10 +45716,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1215, col: 5, offset: 37686},
 																		expr: &actionExpr{
-																			pos: position{line: 2909, col: 10, offset: 91792},
+																			pos: position{line: 2910, col: 10, offset: 91824},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2909, col: 10, offset: 91792},
+																				pos:        position{line: 2910, col: 10, offset: 91824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45562,28 +45730,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1215, col: 12, offset: 37693},
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 8, offset: 92190},
+																			pos: position{line: 2932, col: 8, offset: 92222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2918, col: 12, offset: 91963},
+																					pos: position{line: 2919, col: 12, offset: 91995},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2918, col: 13, offset: 91964},
+																						pos: position{line: 2919, col: 13, offset: 91996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 13, offset: 91964},
+																								pos:        position{line: 2919, col: 13, offset: 91996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 20, offset: 91971},
+																								pos:        position{line: 2919, col: 20, offset: 92003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 29, offset: 91980},
+																								pos:        position{line: 2919, col: 29, offset: 92012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45592,9 +45760,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2928, col: 8, offset: 92140},
+																					pos: position{line: 2929, col: 8, offset: 92172},
 																					expr: &anyMatcher{
-																						line: 2928, col: 9, offset: 92141,
+																						line: 2929, col: 9, offset: 92173,
 																					},
 																				},
 																			},
@@ -45604,7 +45772,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2412, col: 15, offset: 77834},
+															pos:  position{line: 2413, col: 15, offset: 77866},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -45647,10 +45815,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2848, col: 12, offset: 90100},
+															pos: position{line: 2849, col: 12, offset: 90132},
 															run: (*parser).callonNormalGroup164,
 															expr: &charClassMatcher{
-																pos:        position{line: 2848, col: 12, offset: 90100},
+																pos:        position{line: 2849, col: 12, offset: 90132},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45666,9 +45834,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2928, col: 8, offset: 92140},
+							pos: position{line: 2929, col: 8, offset: 92172},
 							expr: &anyMatcher{
-								line: 2928, col: 9, offset: 92141,
+								line: 2929, col: 9, offset: 92173,
 							},
 						},
 					},
@@ -45677,28 +45845,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2423, col: 1, offset: 78272},
+			pos:  position{line: 2424, col: 1, offset: 78304},
 			expr: &actionExpr{
-				pos: position{line: 2424, col: 5, offset: 78305},
+				pos: position{line: 2425, col: 5, offset: 78337},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2424, col: 5, offset: 78305},
+					pos: position{line: 2425, col: 5, offset: 78337},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2424, col: 5, offset: 78305},
+							pos:   position{line: 2425, col: 5, offset: 78337},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2424, col: 14, offset: 78314},
+								pos: position{line: 2425, col: 14, offset: 78346},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2424, col: 15, offset: 78315},
+									pos:  position{line: 2425, col: 15, offset: 78347},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2928, col: 8, offset: 92140},
+							pos: position{line: 2929, col: 8, offset: 92172},
 							expr: &anyMatcher{
-								line: 2928, col: 9, offset: 92141,
+								line: 2929, col: 9, offset: 92173,
 							},
 						},
 					},
@@ -45707,41 +45875,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2428, col: 1, offset: 78412},
+			pos:  position{line: 2429, col: 1, offset: 78444},
 			expr: &actionExpr{
-				pos: position{line: 2429, col: 5, offset: 78452},
+				pos: position{line: 2430, col: 5, offset: 78484},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2429, col: 5, offset: 78452},
+					pos: position{line: 2430, col: 5, offset: 78484},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2926, col: 11, offset: 92126},
+							pos: position{line: 2927, col: 11, offset: 92158},
 							expr: &anyMatcher{
-								line: 2926, col: 13, offset: 92128,
+								line: 2927, col: 13, offset: 92160,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2430, col: 5, offset: 78463},
+							pos:   position{line: 2431, col: 5, offset: 78495},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2431, col: 9, offset: 78481},
+								pos: position{line: 2432, col: 9, offset: 78513},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2808, col: 5, offset: 89034},
+										pos: position{line: 2809, col: 5, offset: 89066},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2808, col: 5, offset: 89034},
+											pos: position{line: 2809, col: 5, offset: 89066},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2808, col: 5, offset: 89034},
+													pos:   position{line: 2809, col: 5, offset: 89066},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2808, col: 11, offset: 89040},
+														pos: position{line: 2809, col: 11, offset: 89072},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2808, col: 11, offset: 89040},
+															pos: position{line: 2809, col: 11, offset: 89072},
 															expr: &charClassMatcher{
-																pos:        position{line: 2808, col: 11, offset: 89040},
+																pos:        position{line: 2809, col: 11, offset: 89072},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45751,36 +45919,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2811, col: 5, offset: 89098},
+													pos: position{line: 2812, col: 5, offset: 89130},
 													expr: &seqExpr{
-														pos: position{line: 2812, col: 9, offset: 89109},
+														pos: position{line: 2813, col: 9, offset: 89141},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2812, col: 9, offset: 89109},
+																pos:        position{line: 2813, col: 9, offset: 89141},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2813, col: 9, offset: 89158},
+																pos: position{line: 2814, col: 9, offset: 89190},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2817, col: 5, offset: 89238},
+													pos: position{line: 2818, col: 5, offset: 89270},
 													expr: &seqExpr{
-														pos: position{line: 2818, col: 9, offset: 89249},
+														pos: position{line: 2819, col: 9, offset: 89281},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2818, col: 9, offset: 89249},
+																pos:        position{line: 2819, col: 9, offset: 89281},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2818, col: 13, offset: 89253},
+																pos:        position{line: 2819, col: 13, offset: 89285},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45793,10 +45961,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2909, col: 10, offset: 91792},
+										pos: position{line: 2910, col: 10, offset: 91824},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2909, col: 10, offset: 91792},
+											pos:        position{line: 2910, col: 10, offset: 91824},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45804,31 +45972,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2433, col: 11, offset: 78519},
+										pos:  position{line: 2434, col: 11, offset: 78551},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2826, col: 5, offset: 89446},
+										pos: position{line: 2827, col: 5, offset: 89478},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2827, col: 9, offset: 89456},
+											pos: position{line: 2828, col: 9, offset: 89488},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2827, col: 10, offset: 89457},
+													pos:        position{line: 2828, col: 10, offset: 89489},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2829, col: 13, offset: 89554},
+													pos: position{line: 2830, col: 13, offset: 89586},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2829, col: 13, offset: 89554},
+															pos: position{line: 2830, col: 13, offset: 89586},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2832, col: 13, offset: 89654},
+															pos:        position{line: 2833, col: 13, offset: 89686},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45836,20 +46004,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2832, col: 19, offset: 89660},
+													pos:        position{line: 2833, col: 19, offset: 89692},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2835, col: 13, offset: 89698},
+													pos: position{line: 2836, col: 13, offset: 89730},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2835, col: 13, offset: 89698},
+															pos: position{line: 2836, col: 13, offset: 89730},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2838, col: 14, offset: 89791},
+															pos:        position{line: 2839, col: 14, offset: 89823},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -45858,18 +46026,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2840, col: 12, offset: 89835},
+													pos: position{line: 2841, col: 12, offset: 89867},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2840, col: 12, offset: 89835},
+															pos:        position{line: 2841, col: 12, offset: 89867},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2840, col: 16, offset: 89839},
+															pos: position{line: 2841, col: 16, offset: 89871},
 															expr: &litMatcher{
-																pos:        position{line: 2840, col: 17, offset: 89840},
+																pos:        position{line: 2841, col: 17, offset: 89872},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45881,31 +46049,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2435, col: 11, offset: 78592},
+										pos:  position{line: 2436, col: 11, offset: 78624},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2436, col: 11, offset: 78608},
+										pos:  position{line: 2437, col: 11, offset: 78640},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2499, col: 5, offset: 80116},
+										pos: position{line: 2500, col: 5, offset: 80148},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2499, col: 5, offset: 80116},
+											pos: position{line: 2500, col: 5, offset: 80148},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2499, col: 5, offset: 80116},
+													pos: position{line: 2500, col: 5, offset: 80148},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2502, col: 5, offset: 80192},
+													pos:   position{line: 2503, col: 5, offset: 80224},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2503, col: 9, offset: 80210},
+														pos: position{line: 2504, col: 9, offset: 80242},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2503, col: 10, offset: 80211},
+															pos:        position{line: 2504, col: 10, offset: 80243},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45956,25 +46124,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2918, col: 12, offset: 91963},
+										pos: position{line: 2919, col: 12, offset: 91995},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2918, col: 13, offset: 91964},
+											pos: position{line: 2919, col: 13, offset: 91996},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2918, col: 13, offset: 91964},
+													pos:        position{line: 2919, col: 13, offset: 91996},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2918, col: 20, offset: 91971},
+													pos:        position{line: 2919, col: 20, offset: 92003},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2918, col: 29, offset: 91980},
+													pos:        position{line: 2919, col: 29, offset: 92012},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45983,10 +46151,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2848, col: 12, offset: 90100},
+										pos: position{line: 2849, col: 12, offset: 90132},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2848, col: 12, offset: 90100},
+											pos:        position{line: 2849, col: 12, offset: 90132},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46002,49 +46170,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2447, col: 1, offset: 78878},
+			pos:  position{line: 2448, col: 1, offset: 78910},
 			expr: &actionExpr{
-				pos: position{line: 2449, col: 5, offset: 78960},
+				pos: position{line: 2450, col: 5, offset: 78992},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2449, col: 5, offset: 78960},
+					pos: position{line: 2450, col: 5, offset: 78992},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2449, col: 5, offset: 78960},
+							pos: position{line: 2450, col: 5, offset: 78992},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2452, col: 5, offset: 79025},
+							pos:   position{line: 2453, col: 5, offset: 79057},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2453, col: 9, offset: 79043},
+								pos: position{line: 2454, col: 9, offset: 79075},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2453, col: 9, offset: 79043},
+										pos:  position{line: 2454, col: 9, offset: 79075},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2454, col: 11, offset: 79064},
+										pos:  position{line: 2455, col: 11, offset: 79096},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2455, col: 11, offset: 79087},
+										pos:  position{line: 2456, col: 11, offset: 79119},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2456, col: 11, offset: 79103},
+										pos:  position{line: 2457, col: 11, offset: 79135},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2457, col: 11, offset: 79132},
+										pos:  position{line: 2458, col: 11, offset: 79164},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2458, col: 11, offset: 79158},
+										pos:  position{line: 2459, col: 11, offset: 79190},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2459, col: 11, offset: 79184},
+										pos:  position{line: 2460, col: 11, offset: 79216},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -46063,12 +46231,12 @@ var g = &grammar{
 													pos:   position{line: 1254, col: 14, offset: 38838},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2894, col: 7, offset: 91444},
+														pos: position{line: 2895, col: 7, offset: 91476},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2894, col: 7, offset: 91444},
+															pos: position{line: 2895, col: 7, offset: 91476},
 															expr: &charClassMatcher{
-																pos:        position{line: 2894, col: 7, offset: 91444},
+																pos:        position{line: 2895, col: 7, offset: 91476},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46102,12 +46270,12 @@ var g = &grammar{
 													pos:   position{line: 1259, col: 10, offset: 38970},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2894, col: 7, offset: 91444},
+														pos: position{line: 2895, col: 7, offset: 91476},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2894, col: 7, offset: 91444},
+															pos: position{line: 2895, col: 7, offset: 91476},
 															expr: &charClassMatcher{
-																pos:        position{line: 2894, col: 7, offset: 91444},
+																pos:        position{line: 2895, col: 7, offset: 91476},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46149,17 +46317,17 @@ var g = &grammar{
 																pos: position{line: 1305, col: 31, offset: 40792},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2799, col: 13, offset: 88887},
+																		pos:        position{line: 2800, col: 13, offset: 88919},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2909, col: 10, offset: 91792},
+																		pos: position{line: 2910, col: 10, offset: 91824},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 10, offset: 91792},
+																			pos:        position{line: 2910, col: 10, offset: 91824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46185,10 +46353,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1299, col: 12, offset: 40506},
 																		expr: &actionExpr{
-																			pos: position{line: 2909, col: 10, offset: 91792},
+																			pos: position{line: 2910, col: 10, offset: 91824},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2909, col: 10, offset: 91792},
+																				pos:        position{line: 2910, col: 10, offset: 91824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46205,10 +46373,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1299, col: 23, offset: 40517},
 																		expr: &actionExpr{
-																			pos: position{line: 2909, col: 10, offset: 91792},
+																			pos: position{line: 2910, col: 10, offset: 91824},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2909, col: 10, offset: 91792},
+																				pos:        position{line: 2910, col: 10, offset: 91824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46228,17 +46396,17 @@ var g = &grammar{
 																					pos: position{line: 1305, col: 31, offset: 40792},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2799, col: 13, offset: 88887},
+																							pos:        position{line: 2800, col: 13, offset: 88919},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2909, col: 10, offset: 91792},
+																							pos: position{line: 2910, col: 10, offset: 91824},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2909, col: 10, offset: 91792},
+																								pos:        position{line: 2910, col: 10, offset: 91824},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46269,10 +46437,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1300, col: 12, offset: 40598},
 																		expr: &actionExpr{
-																			pos: position{line: 2909, col: 10, offset: 91792},
+																			pos: position{line: 2910, col: 10, offset: 91824},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2909, col: 10, offset: 91792},
+																				pos:        position{line: 2910, col: 10, offset: 91824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46289,10 +46457,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1300, col: 23, offset: 40609},
 																		expr: &actionExpr{
-																			pos: position{line: 2909, col: 10, offset: 91792},
+																			pos: position{line: 2910, col: 10, offset: 91824},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2909, col: 10, offset: 91792},
+																				pos:        position{line: 2910, col: 10, offset: 91824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46312,17 +46480,17 @@ var g = &grammar{
 																					pos: position{line: 1305, col: 31, offset: 40792},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2799, col: 13, offset: 88887},
+																							pos:        position{line: 2800, col: 13, offset: 88919},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2909, col: 10, offset: 91792},
+																							pos: position{line: 2910, col: 10, offset: 91824},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2909, col: 10, offset: 91792},
+																								pos:        position{line: 2910, col: 10, offset: 91824},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46349,15 +46517,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2462, col: 11, offset: 79263},
+										pos:  position{line: 2463, col: 11, offset: 79295},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2463, col: 11, offset: 79283},
+										pos:  position{line: 2464, col: 11, offset: 79315},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2464, col: 11, offset: 79306},
+										pos:  position{line: 2465, col: 11, offset: 79338},
 										name: "InlineMenu",
 									},
 								},
@@ -46369,22 +46537,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2468, col: 1, offset: 79363},
+			pos:  position{line: 2469, col: 1, offset: 79395},
 			expr: &actionExpr{
-				pos: position{line: 2470, col: 5, offset: 79451},
+				pos: position{line: 2471, col: 5, offset: 79483},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2470, col: 5, offset: 79451},
+					pos: position{line: 2471, col: 5, offset: 79483},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2470, col: 5, offset: 79451},
+							pos: position{line: 2471, col: 5, offset: 79483},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2473, col: 5, offset: 79528},
+							pos:   position{line: 2474, col: 5, offset: 79560},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2474, col: 9, offset: 79546},
+								pos: position{line: 2475, col: 9, offset: 79578},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1385, col: 26, offset: 44177},
@@ -46439,10 +46607,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1391, col: 12, offset: 44623},
 																				expr: &actionExpr{
-																					pos: position{line: 2909, col: 10, offset: 91792},
+																					pos: position{line: 2910, col: 10, offset: 91824},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2909, col: 10, offset: 91792},
+																						pos:        position{line: 2910, col: 10, offset: 91824},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46453,25 +46621,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1391, col: 19, offset: 44630},
 																				expr: &actionExpr{
-																					pos: position{line: 2918, col: 12, offset: 91963},
+																					pos: position{line: 2919, col: 12, offset: 91995},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2918, col: 13, offset: 91964},
+																						pos: position{line: 2919, col: 13, offset: 91996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 13, offset: 91964},
+																								pos:        position{line: 2919, col: 13, offset: 91996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 20, offset: 91971},
+																								pos:        position{line: 2919, col: 20, offset: 92003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2918, col: 29, offset: 91980},
+																								pos:        position{line: 2919, col: 29, offset: 92012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46508,7 +46676,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1385, col: 121, offset: 44272},
 													expr: &charClassMatcher{
-														pos:        position{line: 2799, col: 13, offset: 88887},
+														pos:        position{line: 2800, col: 13, offset: 88919},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46554,10 +46722,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1377, col: 64, offset: 43732},
 																			expr: &actionExpr{
-																				pos: position{line: 2909, col: 10, offset: 91792},
+																				pos: position{line: 2910, col: 10, offset: 91824},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2909, col: 10, offset: 91792},
+																					pos:        position{line: 2910, col: 10, offset: 91824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46568,25 +46736,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1377, col: 71, offset: 43739},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
+																				pos: position{line: 2919, col: 12, offset: 91995},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46609,12 +46777,12 @@ var g = &grammar{
 																							pos: position{line: 1377, col: 86, offset: 43754},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2913, col: 11, offset: 91853},
+																									pos: position{line: 2914, col: 11, offset: 91885},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2913, col: 11, offset: 91853},
+																										pos: position{line: 2914, col: 11, offset: 91885},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2913, col: 11, offset: 91853},
+																											pos:        position{line: 2914, col: 11, offset: 91885},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46643,25 +46811,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1377, col: 151, offset: 43819},
 																						expr: &actionExpr{
-																							pos: position{line: 2918, col: 12, offset: 91963},
+																							pos: position{line: 2919, col: 12, offset: 91995},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2918, col: 13, offset: 91964},
+																								pos: position{line: 2919, col: 13, offset: 91996},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 13, offset: 91964},
+																										pos:        position{line: 2919, col: 13, offset: 91996},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 20, offset: 91971},
+																										pos:        position{line: 2919, col: 20, offset: 92003},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2918, col: 29, offset: 91980},
+																										pos:        position{line: 2919, col: 29, offset: 92012},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46688,10 +46856,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1379, col: 12, offset: 43979},
 																			expr: &actionExpr{
-																				pos: position{line: 2909, col: 10, offset: 91792},
+																				pos: position{line: 2910, col: 10, offset: 91824},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2909, col: 10, offset: 91792},
+																					pos:        position{line: 2910, col: 10, offset: 91824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46702,25 +46870,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1379, col: 19, offset: 43986},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 12, offset: 91963},
+																				pos: position{line: 2919, col: 12, offset: 91995},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 13, offset: 91964},
+																					pos: position{line: 2919, col: 13, offset: 91996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 13, offset: 91964},
+																							pos:        position{line: 2919, col: 13, offset: 91996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 20, offset: 91971},
+																							pos:        position{line: 2919, col: 20, offset: 92003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2918, col: 29, offset: 91980},
+																							pos:        position{line: 2919, col: 29, offset: 92012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46756,7 +46924,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1373, col: 121, offset: 43555},
 													expr: &charClassMatcher{
-														pos:        position{line: 2799, col: 13, offset: 88887},
+														pos:        position{line: 2800, col: 13, offset: 88919},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46767,7 +46935,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2474, col: 57, offset: 79594},
+										pos:  position{line: 2475, col: 57, offset: 79626},
 										name: "PassthroughMacro",
 									},
 								},
@@ -46779,16 +46947,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2479, col: 1, offset: 79654},
+			pos:  position{line: 2480, col: 1, offset: 79686},
 			expr: &seqExpr{
-				pos: position{line: 2481, col: 5, offset: 79730},
+				pos: position{line: 2482, col: 5, offset: 79762},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2481, col: 5, offset: 79730},
+						pos: position{line: 2482, col: 5, offset: 79762},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2484, col: 5, offset: 79795},
+						pos:  position{line: 2485, col: 5, offset: 79827},
 						name: "QuotedText",
 					},
 				},
@@ -46796,22 +46964,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2486, col: 1, offset: 79808},
+			pos:  position{line: 2487, col: 1, offset: 79840},
 			expr: &actionExpr{
-				pos: position{line: 2488, col: 5, offset: 79890},
+				pos: position{line: 2489, col: 5, offset: 79922},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2488, col: 5, offset: 79890},
+					pos: position{line: 2489, col: 5, offset: 79922},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2488, col: 5, offset: 79890},
+							pos: position{line: 2489, col: 5, offset: 79922},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2491, col: 5, offset: 79961},
+							pos:   position{line: 2492, col: 5, offset: 79993},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2492, col: 9, offset: 79979},
+								pos:  position{line: 2493, col: 9, offset: 80011},
 								name: "Symbol",
 							},
 						},
@@ -46821,103 +46989,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2547, col: 1, offset: 81766},
+			pos:  position{line: 2548, col: 1, offset: 81798},
 			expr: &choiceExpr{
-				pos: position{line: 2549, col: 5, offset: 81796},
+				pos: position{line: 2550, col: 5, offset: 81828},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2549, col: 5, offset: 81796},
+						pos: position{line: 2550, col: 5, offset: 81828},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2549, col: 5, offset: 81796},
+							pos: position{line: 2550, col: 5, offset: 81828},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2549, col: 5, offset: 81796},
+									pos:        position{line: 2550, col: 5, offset: 81828},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2549, col: 10, offset: 81801},
+									pos: position{line: 2550, col: 10, offset: 81833},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2549, col: 10, offset: 81801},
+											pos:  position{line: 2550, col: 10, offset: 81833},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2578, col: 14, offset: 82905},
+											pos: position{line: 2579, col: 14, offset: 82937},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2578, col: 14, offset: 82905},
+												pos:        position{line: 2579, col: 14, offset: 82937},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2582, col: 14, offset: 82971},
+											pos: position{line: 2583, col: 14, offset: 83003},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2582, col: 14, offset: 82971},
+												pos:        position{line: 2583, col: 14, offset: 83003},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2586, col: 15, offset: 83040},
+											pos: position{line: 2587, col: 15, offset: 83072},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2586, col: 15, offset: 83040},
+												pos:        position{line: 2587, col: 15, offset: 83072},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2590, col: 13, offset: 83105},
+											pos: position{line: 2591, col: 13, offset: 83137},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2590, col: 13, offset: 83105},
+												pos:        position{line: 2591, col: 13, offset: 83137},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2618, col: 21, offset: 83675},
+											pos: position{line: 2619, col: 21, offset: 83707},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2618, col: 21, offset: 83675},
+												pos:        position{line: 2619, col: 21, offset: 83707},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2597, col: 5, offset: 83261},
+											pos: position{line: 2598, col: 5, offset: 83293},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2597, col: 5, offset: 83261},
+												pos: position{line: 2598, col: 5, offset: 83293},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2597, col: 5, offset: 83261},
+														pos:        position{line: 2598, col: 5, offset: 83293},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2598, col: 5, offset: 83271},
+														pos: position{line: 2599, col: 5, offset: 83303},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2602, col: 6, offset: 83358},
+														pos: position{line: 2603, col: 6, offset: 83390},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2909, col: 10, offset: 91792},
+																pos: position{line: 2910, col: 10, offset: 91824},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2909, col: 10, offset: 91792},
+																	pos:        position{line: 2910, col: 10, offset: 91824},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46925,30 +47093,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2602, col: 14, offset: 83366},
+																pos: position{line: 2603, col: 14, offset: 83398},
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 8, offset: 92190},
+																	pos: position{line: 2932, col: 8, offset: 92222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2918, col: 12, offset: 91963},
+																			pos: position{line: 2919, col: 12, offset: 91995},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2918, col: 13, offset: 91964},
+																				pos: position{line: 2919, col: 13, offset: 91996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 13, offset: 91964},
+																						pos:        position{line: 2919, col: 13, offset: 91996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 20, offset: 91971},
+																						pos:        position{line: 2919, col: 20, offset: 92003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2918, col: 29, offset: 91980},
+																						pos:        position{line: 2919, col: 29, offset: 92012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -46957,9 +47125,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2928, col: 8, offset: 92140},
+																			pos: position{line: 2929, col: 8, offset: 92172},
 																			expr: &anyMatcher{
-																				line: 2928, col: 9, offset: 92141,
+																				line: 2929, col: 9, offset: 92173,
 																			},
 																		},
 																	},
@@ -46971,53 +47139,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2607, col: 5, offset: 83486},
+											pos: position{line: 2608, col: 5, offset: 83518},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2607, col: 5, offset: 83486},
+												pos: position{line: 2608, col: 5, offset: 83518},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2607, col: 5, offset: 83486},
+														pos:        position{line: 2608, col: 5, offset: 83518},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2608, col: 5, offset: 83496},
+														pos: position{line: 2609, col: 5, offset: 83528},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2612, col: 5, offset: 83585},
+														pos: position{line: 2613, col: 5, offset: 83617},
 														expr: &choiceExpr{
-															pos: position{line: 2612, col: 7, offset: 83587},
+															pos: position{line: 2613, col: 7, offset: 83619},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2799, col: 13, offset: 88887},
+																	pos:        position{line: 2800, col: 13, offset: 88919},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2918, col: 12, offset: 91963},
+																	pos: position{line: 2919, col: 12, offset: 91995},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2918, col: 13, offset: 91964},
+																		pos: position{line: 2919, col: 13, offset: 91996},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2918, col: 13, offset: 91964},
+																				pos:        position{line: 2919, col: 13, offset: 91996},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2918, col: 20, offset: 91971},
+																				pos:        position{line: 2919, col: 20, offset: 92003},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2918, col: 29, offset: 91980},
+																				pos:        position{line: 2919, col: 29, offset: 92012},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47026,9 +47194,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2928, col: 8, offset: 92140},
+																	pos: position{line: 2929, col: 8, offset: 92172},
 																	expr: &anyMatcher{
-																		line: 2928, col: 9, offset: 92141,
+																		line: 2929, col: 9, offset: 92173,
 																	},
 																},
 															},
@@ -47038,30 +47206,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2622, col: 20, offset: 83745},
+											pos: position{line: 2623, col: 20, offset: 83777},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2622, col: 20, offset: 83745},
+												pos:        position{line: 2623, col: 20, offset: 83777},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2626, col: 21, offset: 83816},
+											pos: position{line: 2627, col: 21, offset: 83848},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2626, col: 21, offset: 83816},
+												pos:        position{line: 2627, col: 21, offset: 83848},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2630, col: 20, offset: 83886},
+											pos: position{line: 2631, col: 20, offset: 83918},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2630, col: 20, offset: 83886},
+												pos:        position{line: 2631, col: 20, offset: 83918},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -47073,73 +47241,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2553, col: 7, offset: 82056},
+						pos:  position{line: 2554, col: 7, offset: 82088},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2578, col: 14, offset: 82905},
+						pos: position{line: 2579, col: 14, offset: 82937},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2578, col: 14, offset: 82905},
+							pos:        position{line: 2579, col: 14, offset: 82937},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2582, col: 14, offset: 82971},
+						pos: position{line: 2583, col: 14, offset: 83003},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2582, col: 14, offset: 82971},
+							pos:        position{line: 2583, col: 14, offset: 83003},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2586, col: 15, offset: 83040},
+						pos: position{line: 2587, col: 15, offset: 83072},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2586, col: 15, offset: 83040},
+							pos:        position{line: 2587, col: 15, offset: 83072},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2590, col: 13, offset: 83105},
+						pos: position{line: 2591, col: 13, offset: 83137},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2590, col: 13, offset: 83105},
+							pos:        position{line: 2591, col: 13, offset: 83137},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2597, col: 5, offset: 83261},
+						pos: position{line: 2598, col: 5, offset: 83293},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2597, col: 5, offset: 83261},
+							pos: position{line: 2598, col: 5, offset: 83293},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2597, col: 5, offset: 83261},
+									pos:        position{line: 2598, col: 5, offset: 83293},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2598, col: 5, offset: 83271},
+									pos: position{line: 2599, col: 5, offset: 83303},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2602, col: 6, offset: 83358},
+									pos: position{line: 2603, col: 6, offset: 83390},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2909, col: 10, offset: 91792},
+											pos: position{line: 2910, col: 10, offset: 91824},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2909, col: 10, offset: 91792},
+												pos:        position{line: 2910, col: 10, offset: 91824},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47147,30 +47315,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2602, col: 14, offset: 83366},
+											pos: position{line: 2603, col: 14, offset: 83398},
 											expr: &choiceExpr{
-												pos: position{line: 2931, col: 8, offset: 92190},
+												pos: position{line: 2932, col: 8, offset: 92222},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2918, col: 12, offset: 91963},
+														pos: position{line: 2919, col: 12, offset: 91995},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2918, col: 13, offset: 91964},
+															pos: position{line: 2919, col: 13, offset: 91996},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2918, col: 13, offset: 91964},
+																	pos:        position{line: 2919, col: 13, offset: 91996},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2918, col: 20, offset: 91971},
+																	pos:        position{line: 2919, col: 20, offset: 92003},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2918, col: 29, offset: 91980},
+																	pos:        position{line: 2919, col: 29, offset: 92012},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47179,9 +47347,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2928, col: 8, offset: 92140},
+														pos: position{line: 2929, col: 8, offset: 92172},
 														expr: &anyMatcher{
-															line: 2928, col: 9, offset: 92141,
+															line: 2929, col: 9, offset: 92173,
 														},
 													},
 												},
@@ -47193,53 +47361,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2607, col: 5, offset: 83486},
+						pos: position{line: 2608, col: 5, offset: 83518},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2607, col: 5, offset: 83486},
+							pos: position{line: 2608, col: 5, offset: 83518},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2607, col: 5, offset: 83486},
+									pos:        position{line: 2608, col: 5, offset: 83518},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2608, col: 5, offset: 83496},
+									pos: position{line: 2609, col: 5, offset: 83528},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2612, col: 5, offset: 83585},
+									pos: position{line: 2613, col: 5, offset: 83617},
 									expr: &choiceExpr{
-										pos: position{line: 2612, col: 7, offset: 83587},
+										pos: position{line: 2613, col: 7, offset: 83619},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2799, col: 13, offset: 88887},
+												pos:        position{line: 2800, col: 13, offset: 88919},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2918, col: 12, offset: 91963},
+												pos: position{line: 2919, col: 12, offset: 91995},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2918, col: 13, offset: 91964},
+													pos: position{line: 2919, col: 13, offset: 91996},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2918, col: 13, offset: 91964},
+															pos:        position{line: 2919, col: 13, offset: 91996},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2918, col: 20, offset: 91971},
+															pos:        position{line: 2919, col: 20, offset: 92003},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2918, col: 29, offset: 91980},
+															pos:        position{line: 2919, col: 29, offset: 92012},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47248,9 +47416,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2928, col: 8, offset: 92140},
+												pos: position{line: 2929, col: 8, offset: 92172},
 												expr: &anyMatcher{
-													line: 2928, col: 9, offset: 92141,
+													line: 2929, col: 9, offset: 92173,
 												},
 											},
 										},
@@ -47260,40 +47428,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2618, col: 21, offset: 83675},
+						pos: position{line: 2619, col: 21, offset: 83707},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2618, col: 21, offset: 83675},
+							pos:        position{line: 2619, col: 21, offset: 83707},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2622, col: 20, offset: 83745},
+						pos: position{line: 2623, col: 20, offset: 83777},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2622, col: 20, offset: 83745},
+							pos:        position{line: 2623, col: 20, offset: 83777},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2626, col: 21, offset: 83816},
+						pos: position{line: 2627, col: 21, offset: 83848},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2626, col: 21, offset: 83816},
+							pos:        position{line: 2627, col: 21, offset: 83848},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2630, col: 20, offset: 83886},
+						pos: position{line: 2631, col: 20, offset: 83918},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2630, col: 20, offset: 83886},
+							pos:        position{line: 2631, col: 20, offset: 83918},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -47304,43 +47472,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2564, col: 1, offset: 82246},
+			pos:  position{line: 2565, col: 1, offset: 82278},
 			expr: &choiceExpr{
-				pos: position{line: 2565, col: 5, offset: 82268},
+				pos: position{line: 2566, col: 5, offset: 82300},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2565, col: 5, offset: 82268},
+						pos: position{line: 2566, col: 5, offset: 82300},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2565, col: 5, offset: 82268},
+							pos: position{line: 2566, col: 5, offset: 82300},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2565, col: 5, offset: 82268},
+									pos:        position{line: 2566, col: 5, offset: 82300},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2565, col: 11, offset: 82274},
+									pos: position{line: 2566, col: 11, offset: 82306},
 									expr: &seqExpr{
-										pos: position{line: 2106, col: 5, offset: 67864},
+										pos: position{line: 2107, col: 5, offset: 67896},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2106, col: 5, offset: 67864},
+												pos:        position{line: 2107, col: 5, offset: 67896},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2107, col: 5, offset: 67873},
+												pos: position{line: 2108, col: 5, offset: 67905},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2111, col: 5, offset: 67996},
+												pos: position{line: 2112, col: 5, offset: 68028},
 												expr: &notExpr{
-													pos: position{line: 2111, col: 7, offset: 67998},
+													pos: position{line: 2112, col: 7, offset: 68030},
 													expr: &litMatcher{
-														pos:        position{line: 2111, col: 8, offset: 67999},
+														pos:        position{line: 2112, col: 8, offset: 68031},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47354,21 +47522,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2568, col: 7, offset: 82427},
+						pos: position{line: 2569, col: 7, offset: 82459},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2568, col: 7, offset: 82427},
+							pos: position{line: 2569, col: 7, offset: 82459},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2568, col: 7, offset: 82427},
+									pos:        position{line: 2569, col: 7, offset: 82459},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2568, col: 13, offset: 82433},
+									pos: position{line: 2569, col: 13, offset: 82465},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2568, col: 14, offset: 82434},
+										pos:  position{line: 2569, col: 14, offset: 82466},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47376,38 +47544,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2571, col: 7, offset: 82584},
+						pos: position{line: 2572, col: 7, offset: 82616},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2571, col: 7, offset: 82584},
+							pos: position{line: 2572, col: 7, offset: 82616},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2571, col: 7, offset: 82584},
+									pos:        position{line: 2572, col: 7, offset: 82616},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2571, col: 12, offset: 82589},
+									pos: position{line: 2572, col: 12, offset: 82621},
 									expr: &seqExpr{
-										pos: position{line: 2106, col: 5, offset: 67864},
+										pos: position{line: 2107, col: 5, offset: 67896},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2106, col: 5, offset: 67864},
+												pos:        position{line: 2107, col: 5, offset: 67896},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2107, col: 5, offset: 67873},
+												pos: position{line: 2108, col: 5, offset: 67905},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2111, col: 5, offset: 67996},
+												pos: position{line: 2112, col: 5, offset: 68028},
 												expr: &notExpr{
-													pos: position{line: 2111, col: 7, offset: 67998},
+													pos: position{line: 2112, col: 7, offset: 68030},
 													expr: &litMatcher{
-														pos:        position{line: 2111, col: 8, offset: 67999},
+														pos:        position{line: 2112, col: 8, offset: 68031},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47421,21 +47589,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2574, col: 7, offset: 82742},
+						pos: position{line: 2575, col: 7, offset: 82774},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2574, col: 7, offset: 82742},
+							pos: position{line: 2575, col: 7, offset: 82774},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2574, col: 7, offset: 82742},
+									pos:        position{line: 2575, col: 7, offset: 82774},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2574, col: 12, offset: 82747},
+									pos: position{line: 2575, col: 12, offset: 82779},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2574, col: 13, offset: 82748},
+										pos:  position{line: 2575, col: 13, offset: 82780},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47447,63 +47615,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2714, col: 1, offset: 85967},
+			pos:  position{line: 2715, col: 1, offset: 85999},
 			expr: &actionExpr{
-				pos: position{line: 2714, col: 26, offset: 85992},
+				pos: position{line: 2715, col: 26, offset: 86024},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2714, col: 26, offset: 85992},
+					pos: position{line: 2715, col: 26, offset: 86024},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2714, col: 26, offset: 85992},
+							pos:   position{line: 2715, col: 26, offset: 86024},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2714, col: 31, offset: 85997},
+								pos: position{line: 2715, col: 31, offset: 86029},
 								expr: &actionExpr{
-									pos: position{line: 2719, col: 5, offset: 86060},
+									pos: position{line: 2720, col: 5, offset: 86092},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2719, col: 5, offset: 86060},
+										pos: position{line: 2720, col: 5, offset: 86092},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2926, col: 11, offset: 92126},
+												pos: position{line: 2927, col: 11, offset: 92158},
 												expr: &anyMatcher{
-													line: 2926, col: 13, offset: 92128,
+													line: 2927, col: 13, offset: 92160,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2722, col: 5, offset: 86186},
+												pos:   position{line: 2723, col: 5, offset: 86218},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2722, col: 16, offset: 86197},
+													pos: position{line: 2723, col: 16, offset: 86229},
 													expr: &actionExpr{
-														pos: position{line: 2722, col: 17, offset: 86198},
+														pos: position{line: 2723, col: 17, offset: 86230},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2722, col: 17, offset: 86198},
+															pos: position{line: 2723, col: 17, offset: 86230},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2722, col: 17, offset: 86198},
+																	pos:   position{line: 2723, col: 17, offset: 86230},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2901, col: 12, offset: 91619},
+																		pos: position{line: 2902, col: 12, offset: 91651},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2901, col: 13, offset: 91620},
+																			pos: position{line: 2902, col: 13, offset: 91652},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2901, col: 13, offset: 91620},
+																					pos: position{line: 2902, col: 13, offset: 91652},
 																					expr: &litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91620},
+																						pos:        position{line: 2902, col: 13, offset: 91652},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2901, col: 18, offset: 91625},
+																					pos: position{line: 2902, col: 18, offset: 91657},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2901, col: 18, offset: 91625},
+																						pos:        position{line: 2902, col: 18, offset: 91657},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47515,7 +47683,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2722, col: 27, offset: 86208},
+																	pos:        position{line: 2723, col: 27, offset: 86240},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47526,38 +47694,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2723, col: 5, offset: 86236},
+												pos:   position{line: 2724, col: 5, offset: 86268},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2723, col: 12, offset: 86243},
+													pos: position{line: 2724, col: 12, offset: 86275},
 													expr: &choiceExpr{
-														pos: position{line: 2724, col: 9, offset: 86253},
+														pos: position{line: 2725, col: 9, offset: 86285},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2724, col: 9, offset: 86253},
+																pos: position{line: 2725, col: 9, offset: 86285},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2724, col: 9, offset: 86253},
+																	pos:        position{line: 2725, col: 9, offset: 86285},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2725, col: 11, offset: 86300},
+																pos: position{line: 2726, col: 11, offset: 86332},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2725, col: 11, offset: 86300},
+																	pos:        position{line: 2726, col: 11, offset: 86332},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2726, col: 11, offset: 86348},
+																pos: position{line: 2727, col: 11, offset: 86380},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2726, col: 11, offset: 86348},
+																	pos:        position{line: 2727, col: 11, offset: 86380},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47568,38 +47736,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2728, col: 5, offset: 86398},
+												pos:   position{line: 2729, col: 5, offset: 86430},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2728, col: 12, offset: 86405},
+													pos: position{line: 2729, col: 12, offset: 86437},
 													expr: &choiceExpr{
-														pos: position{line: 2729, col: 9, offset: 86415},
+														pos: position{line: 2730, col: 9, offset: 86447},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2729, col: 9, offset: 86415},
+																pos: position{line: 2730, col: 9, offset: 86447},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2729, col: 9, offset: 86415},
+																	pos:        position{line: 2730, col: 9, offset: 86447},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2730, col: 11, offset: 86462},
+																pos: position{line: 2731, col: 11, offset: 86494},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2730, col: 11, offset: 86462},
+																	pos:        position{line: 2731, col: 11, offset: 86494},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2731, col: 11, offset: 86512},
+																pos: position{line: 2732, col: 11, offset: 86544},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2731, col: 11, offset: 86512},
+																	pos:        position{line: 2732, col: 11, offset: 86544},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47610,32 +47778,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2733, col: 5, offset: 86563},
+												pos:   position{line: 2734, col: 5, offset: 86595},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2733, col: 12, offset: 86570},
+													pos: position{line: 2734, col: 12, offset: 86602},
 													expr: &choiceExpr{
-														pos: position{line: 2733, col: 13, offset: 86571},
+														pos: position{line: 2734, col: 13, offset: 86603},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2901, col: 12, offset: 91619},
+																pos: position{line: 2902, col: 12, offset: 91651},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2901, col: 13, offset: 91620},
+																	pos: position{line: 2902, col: 13, offset: 91652},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2901, col: 13, offset: 91620},
+																			pos: position{line: 2902, col: 13, offset: 91652},
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 13, offset: 91620},
+																				pos:        position{line: 2902, col: 13, offset: 91652},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2901, col: 18, offset: 91625},
+																			pos: position{line: 2902, col: 18, offset: 91657},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2901, col: 18, offset: 91625},
+																				pos:        position{line: 2902, col: 18, offset: 91657},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47646,10 +47814,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2733, col: 24, offset: 86582},
+																pos: position{line: 2734, col: 24, offset: 86614},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2733, col: 24, offset: 86582},
+																	pos:        position{line: 2734, col: 24, offset: 86614},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47660,15 +47828,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2734, col: 5, offset: 86624},
+												pos:   position{line: 2735, col: 5, offset: 86656},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2734, col: 11, offset: 86630},
+													pos: position{line: 2735, col: 11, offset: 86662},
 													expr: &actionExpr{
-														pos: position{line: 2734, col: 12, offset: 86631},
+														pos: position{line: 2735, col: 12, offset: 86663},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2734, col: 12, offset: 86631},
+															pos:        position{line: 2735, col: 12, offset: 86663},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47678,12 +47846,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2736, col: 5, offset: 86761},
+												pos:   position{line: 2737, col: 5, offset: 86793},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2736, col: 11, offset: 86767},
+													pos: position{line: 2737, col: 11, offset: 86799},
 													expr: &litMatcher{
-														pos:        position{line: 2736, col: 12, offset: 86768},
+														pos:        position{line: 2737, col: 12, offset: 86800},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47691,7 +47859,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2737, col: 5, offset: 86778},
+												pos: position{line: 2738, col: 5, offset: 86810},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47700,9 +47868,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2928, col: 8, offset: 92140},
+							pos: position{line: 2929, col: 8, offset: 92172},
 							expr: &anyMatcher{
-								line: 2928, col: 9, offset: 92141,
+								line: 2929, col: 9, offset: 92173,
 							},
 						},
 					},
@@ -47711,23 +47879,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2764, col: 1, offset: 87787},
+			pos:  position{line: 2765, col: 1, offset: 87819},
 			expr: &actionExpr{
-				pos: position{line: 2765, col: 5, offset: 87810},
+				pos: position{line: 2766, col: 5, offset: 87842},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2765, col: 5, offset: 87810},
+					pos: position{line: 2766, col: 5, offset: 87842},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2765, col: 5, offset: 87810},
+							pos:   position{line: 2766, col: 5, offset: 87842},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2788, col: 18, offset: 88551},
+								pos: position{line: 2789, col: 18, offset: 88583},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2788, col: 19, offset: 88552},
+									pos: position{line: 2789, col: 19, offset: 88584},
 									expr: &charClassMatcher{
-										pos:        position{line: 2788, col: 19, offset: 88552},
+										pos:        position{line: 2789, col: 19, offset: 88584},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47738,25 +47906,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2766, col: 5, offset: 87836},
+							pos: position{line: 2767, col: 5, offset: 87868},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2770, col: 5, offset: 87964},
+							pos:        position{line: 2771, col: 5, offset: 87996},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2771, col: 5, offset: 87974},
+							pos:   position{line: 2772, col: 5, offset: 88006},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2792, col: 19, offset: 88627},
+								pos: position{line: 2793, col: 19, offset: 88659},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2792, col: 19, offset: 88627},
+									pos: position{line: 2793, col: 19, offset: 88659},
 									expr: &charClassMatcher{
-										pos:        position{line: 2792, col: 19, offset: 88627},
+										pos:        position{line: 2793, col: 19, offset: 88659},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47766,36 +47934,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2772, col: 5, offset: 88002},
+							pos:   position{line: 2773, col: 5, offset: 88034},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2772, col: 17, offset: 88014},
+								pos:  position{line: 2773, col: 17, offset: 88046},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2931, col: 8, offset: 92190},
+							pos: position{line: 2932, col: 8, offset: 92222},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2918, col: 12, offset: 91963},
+									pos: position{line: 2919, col: 12, offset: 91995},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2918, col: 13, offset: 91964},
+										pos: position{line: 2919, col: 13, offset: 91996},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2918, col: 13, offset: 91964},
+												pos:        position{line: 2919, col: 13, offset: 91996},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2918, col: 20, offset: 91971},
+												pos:        position{line: 2919, col: 20, offset: 92003},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2918, col: 29, offset: 91980},
+												pos:        position{line: 2919, col: 29, offset: 92012},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -47804,9 +47972,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2928, col: 8, offset: 92140},
+									pos: position{line: 2929, col: 8, offset: 92172},
 									expr: &anyMatcher{
-										line: 2928, col: 9, offset: 92141,
+										line: 2929, col: 9, offset: 92173,
 									},
 								},
 							},
@@ -47817,23 +47985,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2776, col: 1, offset: 88162},
+			pos:  position{line: 2777, col: 1, offset: 88194},
 			expr: &actionExpr{
-				pos: position{line: 2777, col: 5, offset: 88186},
+				pos: position{line: 2778, col: 5, offset: 88218},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2777, col: 5, offset: 88186},
+					pos: position{line: 2778, col: 5, offset: 88218},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2777, col: 5, offset: 88186},
+							pos:   position{line: 2778, col: 5, offset: 88218},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2788, col: 18, offset: 88551},
+								pos: position{line: 2789, col: 18, offset: 88583},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2788, col: 19, offset: 88552},
+									pos: position{line: 2789, col: 19, offset: 88584},
 									expr: &charClassMatcher{
-										pos:        position{line: 2788, col: 19, offset: 88552},
+										pos:        position{line: 2789, col: 19, offset: 88584},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47844,25 +48012,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2778, col: 5, offset: 88212},
+							pos: position{line: 2779, col: 5, offset: 88244},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2782, col: 5, offset: 88340},
+							pos:        position{line: 2783, col: 5, offset: 88372},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2783, col: 5, offset: 88349},
+							pos:   position{line: 2784, col: 5, offset: 88381},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2792, col: 19, offset: 88627},
+								pos: position{line: 2793, col: 19, offset: 88659},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2792, col: 19, offset: 88627},
+									pos: position{line: 2793, col: 19, offset: 88659},
 									expr: &charClassMatcher{
-										pos:        position{line: 2792, col: 19, offset: 88627},
+										pos:        position{line: 2793, col: 19, offset: 88659},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47872,10 +48040,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2784, col: 5, offset: 88377},
+							pos:   position{line: 2785, col: 5, offset: 88409},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2784, col: 17, offset: 88389},
+								pos:  position{line: 2785, col: 17, offset: 88421},
 								name: "InlineAttributes",
 							},
 						},
@@ -47885,43 +48053,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2863, col: 1, offset: 90439},
+			pos:  position{line: 2864, col: 1, offset: 90471},
 			expr: &actionExpr{
-				pos: position{line: 2863, col: 17, offset: 90455},
+				pos: position{line: 2864, col: 17, offset: 90487},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2863, col: 17, offset: 90455},
+					pos:   position{line: 2864, col: 17, offset: 90487},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2880, col: 5, offset: 90909},
+						pos: position{line: 2881, col: 5, offset: 90941},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2880, col: 5, offset: 90909},
+							pos:   position{line: 2881, col: 5, offset: 90941},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2880, col: 14, offset: 90918},
+								pos: position{line: 2881, col: 14, offset: 90950},
 								expr: &choiceExpr{
-									pos: position{line: 2881, col: 9, offset: 90928},
+									pos: position{line: 2882, col: 9, offset: 90960},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2881, col: 9, offset: 90928},
+											pos: position{line: 2882, col: 9, offset: 90960},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2881, col: 9, offset: 90928},
+												pos: position{line: 2882, col: 9, offset: 90960},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2881, col: 9, offset: 90928},
+														pos: position{line: 2882, col: 9, offset: 90960},
 														expr: &litMatcher{
-															pos:        position{line: 2881, col: 10, offset: 90929},
+															pos:        position{line: 2882, col: 10, offset: 90961},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2882, col: 9, offset: 90957},
+														pos: position{line: 2883, col: 9, offset: 90989},
 														expr: &charClassMatcher{
-															pos:        position{line: 2882, col: 10, offset: 90958},
+															pos:        position{line: 2883, col: 10, offset: 90990},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -47932,27 +48100,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2885, col: 11, offset: 91170},
+											pos: position{line: 2886, col: 11, offset: 91202},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2885, col: 11, offset: 91170},
+													pos:        position{line: 2886, col: 11, offset: 91202},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2885, col: 19, offset: 91178},
+													pos: position{line: 2886, col: 19, offset: 91210},
 													expr: &seqExpr{
-														pos: position{line: 2885, col: 21, offset: 91180},
+														pos: position{line: 2886, col: 21, offset: 91212},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2885, col: 21, offset: 91180},
+																pos: position{line: 2886, col: 21, offset: 91212},
 																expr: &actionExpr{
-																	pos: position{line: 2909, col: 10, offset: 91792},
+																	pos: position{line: 2910, col: 10, offset: 91824},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2909, col: 10, offset: 91792},
+																		pos:        position{line: 2910, col: 10, offset: 91824},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -47961,11 +48129,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 28, offset: 91187},
+																pos: position{line: 2886, col: 28, offset: 91219},
 																expr: &notExpr{
-																	pos: position{line: 2928, col: 8, offset: 92140},
+																	pos: position{line: 2929, col: 8, offset: 92172},
 																	expr: &anyMatcher{
-																		line: 2928, col: 9, offset: 92141,
+																		line: 2929, col: 9, offset: 92173,
 																	},
 																},
 															},
@@ -48360,10 +48528,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2888, col: 11, offset: 91307},
+											pos: position{line: 2889, col: 11, offset: 91339},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2888, col: 11, offset: 91307},
+												pos:        position{line: 2889, col: 11, offset: 91339},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -61432,51 +61600,51 @@ func (p *parser) callonListElements115() (interface{}, error) {
 	return p.cur.onListElements115(stack["ref"], stack["description"])
 }
 
-func (c *current) onListElements155() (interface{}, error) {
+func (c *current) onListElements161() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListElements155() (interface{}, error) {
+func (p *parser) callonListElements161() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements155()
+	return p.cur.onListElements161()
 }
 
-func (c *current) onListElements158(separator interface{}) (bool, error) {
+func (c *current) onListElements164(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListElements158() (bool, error) {
+func (p *parser) callonListElements164() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements158(stack["separator"])
+	return p.cur.onListElements164(stack["separator"])
 }
 
-func (c *current) onListElements152(separator interface{}) (interface{}, error) {
+func (c *current) onListElements158(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListElements152() (interface{}, error) {
+func (p *parser) callonListElements158() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements152(stack["separator"])
+	return p.cur.onListElements158(stack["separator"])
 }
 
-func (c *current) onListElements161() (interface{}, error) {
+func (c *current) onListElements167() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListElements161() (interface{}, error) {
+func (p *parser) callonListElements167() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements161()
+	return p.cur.onListElements167()
 }
 
 func (c *current) onListElements148() (interface{}, error) {
@@ -61490,153 +61658,153 @@ func (p *parser) callonListElements148() (interface{}, error) {
 	return p.cur.onListElements148()
 }
 
-func (c *current) onListElements173() (interface{}, error) {
+func (c *current) onListElements179() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListElements173() (interface{}, error) {
+func (p *parser) callonListElements179() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements173()
+	return p.cur.onListElements179()
 }
 
-func (c *current) onListElements176(separator interface{}) (bool, error) {
+func (c *current) onListElements182(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListElements176() (bool, error) {
+func (p *parser) callonListElements182() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements176(stack["separator"])
+	return p.cur.onListElements182(stack["separator"])
 }
 
-func (c *current) onListElements170(separator interface{}) (interface{}, error) {
+func (c *current) onListElements176(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListElements170() (interface{}, error) {
+func (p *parser) callonListElements176() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements170(stack["separator"])
+	return p.cur.onListElements176(stack["separator"])
 }
 
-func (c *current) onListElements182() (interface{}, error) {
+func (c *current) onListElements188() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListElements182() (interface{}, error) {
+func (p *parser) callonListElements188() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements182()
+	return p.cur.onListElements188()
 }
 
-func (c *current) onListElements185() (interface{}, error) {
+func (c *current) onListElements191() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListElements185() (interface{}, error) {
+func (p *parser) callonListElements191() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements185()
+	return p.cur.onListElements191()
 }
 
-func (c *current) onListElements198() (interface{}, error) {
+func (c *current) onListElements204() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListElements198() (interface{}, error) {
+func (p *parser) callonListElements204() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements198()
+	return p.cur.onListElements204()
 }
 
-func (c *current) onListElements201() (interface{}, error) {
+func (c *current) onListElements207() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListElements201() (interface{}, error) {
+func (p *parser) callonListElements207() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements201()
+	return p.cur.onListElements207()
 }
 
-func (c *current) onListElements193() (interface{}, error) {
+func (c *current) onListElements199() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListElements193() (interface{}, error) {
+func (p *parser) callonListElements199() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements193()
+	return p.cur.onListElements199()
 }
 
-func (c *current) onListElements179() (interface{}, error) {
+func (c *current) onListElements185() (interface{}, error) {
 	return nil, nil
 
 }
 
-func (p *parser) callonListElements179() (interface{}, error) {
+func (p *parser) callonListElements185() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements179()
+	return p.cur.onListElements185()
 }
 
-func (c *current) onListElements210() (interface{}, error) {
+func (c *current) onListElements216() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListElements210() (interface{}, error) {
+func (p *parser) callonListElements216() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements210()
+	return p.cur.onListElements216()
 }
 
-func (c *current) onListElements214() (interface{}, error) {
+func (c *current) onListElements220() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonListElements214() (interface{}, error) {
+func (p *parser) callonListElements220() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements214()
+	return p.cur.onListElements220()
 }
 
-func (c *current) onListElements218() (interface{}, error) {
+func (c *current) onListElements224() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListElements218() (interface{}, error) {
+func (p *parser) callonListElements224() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements218()
+	return p.cur.onListElements224()
 }
 
-func (c *current) onListElements208(content interface{}) (interface{}, error) {
+func (c *current) onListElements214(content interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, content)
 
 }
 
-func (p *parser) callonListElements208() (interface{}, error) {
+func (p *parser) callonListElements214() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements208(stack["content"])
+	return p.cur.onListElements214(stack["content"])
 }
 
 func (c *current) onListElements145(term, separator, description interface{}) (interface{}, error) {
@@ -62125,51 +62293,51 @@ func (p *parser) callonExtraListElement137() (interface{}, error) {
 	return p.cur.onExtraListElement137(stack["ref"], stack["description"])
 }
 
-func (c *current) onExtraListElement177() (interface{}, error) {
+func (c *current) onExtraListElement183() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement177() (interface{}, error) {
+func (p *parser) callonExtraListElement183() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement177()
+	return p.cur.onExtraListElement183()
 }
 
-func (c *current) onExtraListElement180(separator interface{}) (bool, error) {
+func (c *current) onExtraListElement186(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonExtraListElement180() (bool, error) {
+func (p *parser) callonExtraListElement186() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement180(stack["separator"])
+	return p.cur.onExtraListElement186(stack["separator"])
 }
 
-func (c *current) onExtraListElement174(separator interface{}) (interface{}, error) {
+func (c *current) onExtraListElement180(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonExtraListElement174() (interface{}, error) {
+func (p *parser) callonExtraListElement180() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement174(stack["separator"])
+	return p.cur.onExtraListElement180(stack["separator"])
 }
 
-func (c *current) onExtraListElement183() (interface{}, error) {
+func (c *current) onExtraListElement189() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement183() (interface{}, error) {
+func (p *parser) callonExtraListElement189() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement183()
+	return p.cur.onExtraListElement189()
 }
 
 func (c *current) onExtraListElement170() (interface{}, error) {
@@ -62183,153 +62351,153 @@ func (p *parser) callonExtraListElement170() (interface{}, error) {
 	return p.cur.onExtraListElement170()
 }
 
-func (c *current) onExtraListElement195() (interface{}, error) {
+func (c *current) onExtraListElement201() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement195() (interface{}, error) {
+func (p *parser) callonExtraListElement201() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement195()
+	return p.cur.onExtraListElement201()
 }
 
-func (c *current) onExtraListElement198(separator interface{}) (bool, error) {
+func (c *current) onExtraListElement204(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonExtraListElement198() (bool, error) {
+func (p *parser) callonExtraListElement204() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement198(stack["separator"])
+	return p.cur.onExtraListElement204(stack["separator"])
 }
 
-func (c *current) onExtraListElement192(separator interface{}) (interface{}, error) {
+func (c *current) onExtraListElement198(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonExtraListElement192() (interface{}, error) {
+func (p *parser) callonExtraListElement198() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement192(stack["separator"])
+	return p.cur.onExtraListElement198(stack["separator"])
 }
 
-func (c *current) onExtraListElement204() (interface{}, error) {
+func (c *current) onExtraListElement210() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement204() (interface{}, error) {
+func (p *parser) callonExtraListElement210() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement204()
+	return p.cur.onExtraListElement210()
 }
 
-func (c *current) onExtraListElement207() (interface{}, error) {
+func (c *current) onExtraListElement213() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement207() (interface{}, error) {
+func (p *parser) callonExtraListElement213() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement207()
+	return p.cur.onExtraListElement213()
 }
 
-func (c *current) onExtraListElement220() (interface{}, error) {
+func (c *current) onExtraListElement226() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement220() (interface{}, error) {
+func (p *parser) callonExtraListElement226() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement220()
+	return p.cur.onExtraListElement226()
 }
 
-func (c *current) onExtraListElement223() (interface{}, error) {
+func (c *current) onExtraListElement229() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement223() (interface{}, error) {
+func (p *parser) callonExtraListElement229() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement223()
+	return p.cur.onExtraListElement229()
 }
 
-func (c *current) onExtraListElement215() (interface{}, error) {
+func (c *current) onExtraListElement221() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonExtraListElement215() (interface{}, error) {
+func (p *parser) callonExtraListElement221() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement215()
+	return p.cur.onExtraListElement221()
 }
 
-func (c *current) onExtraListElement201() (interface{}, error) {
+func (c *current) onExtraListElement207() (interface{}, error) {
 	return nil, nil
 
 }
 
-func (p *parser) callonExtraListElement201() (interface{}, error) {
+func (p *parser) callonExtraListElement207() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement201()
+	return p.cur.onExtraListElement207()
 }
 
-func (c *current) onExtraListElement232() (interface{}, error) {
+func (c *current) onExtraListElement238() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement232() (interface{}, error) {
+func (p *parser) callonExtraListElement238() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement232()
+	return p.cur.onExtraListElement238()
 }
 
-func (c *current) onExtraListElement236() (interface{}, error) {
+func (c *current) onExtraListElement242() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement236() (interface{}, error) {
+func (p *parser) callonExtraListElement242() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement236()
+	return p.cur.onExtraListElement242()
 }
 
-func (c *current) onExtraListElement240() (interface{}, error) {
+func (c *current) onExtraListElement246() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement240() (interface{}, error) {
+func (p *parser) callonExtraListElement246() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement240()
+	return p.cur.onExtraListElement246()
 }
 
-func (c *current) onExtraListElement230(content interface{}) (interface{}, error) {
+func (c *current) onExtraListElement236(content interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, content)
 
 }
 
-func (p *parser) callonExtraListElement230() (interface{}, error) {
+func (p *parser) callonExtraListElement236() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement230(stack["content"])
+	return p.cur.onExtraListElement236(stack["content"])
 }
 
 func (c *current) onExtraListElement167(term, separator, description interface{}) (interface{}, error) {
@@ -62355,45 +62523,45 @@ func (p *parser) callonExtraListElement7() (interface{}, error) {
 	return p.cur.onExtraListElement7(stack["element"])
 }
 
-func (c *current) onExtraListElement260() (interface{}, error) {
+func (c *current) onExtraListElement266() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement260() (interface{}, error) {
+func (p *parser) callonExtraListElement266() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement260()
+	return p.cur.onExtraListElement266()
 }
 
-func (c *current) onExtraListElement267() (interface{}, error) {
+func (c *current) onExtraListElement273() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonExtraListElement267() (interface{}, error) {
+func (p *parser) callonExtraListElement273() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement267()
+	return p.cur.onExtraListElement273()
 }
 
-func (c *current) onExtraListElement270(depth interface{}) (bool, error) {
+func (c *current) onExtraListElement276(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonExtraListElement270() (bool, error) {
+func (p *parser) callonExtraListElement276() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement270(stack["depth"])
+	return p.cur.onExtraListElement276(stack["depth"])
 }
 
-func (c *current) onExtraListElement264(depth interface{}) (interface{}, error) {
+func (c *current) onExtraListElement270(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -62409,732 +62577,732 @@ func (c *current) onExtraListElement264(depth interface{}) (interface{}, error)
 
 }
 
-func (p *parser) callonExtraListElement264() (interface{}, error) {
+func (p *parser) callonExtraListElement270() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement264(stack["depth"])
+	return p.cur.onExtraListElement270(stack["depth"])
 }
 
-func (c *current) onExtraListElement271() (interface{}, error) {
+func (c *current) onExtraListElement277() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonExtraListElement271() (interface{}, error) {
+func (p *parser) callonExtraListElement277() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement271()
+	return p.cur.onExtraListElement277()
 }
 
-func (c *current) onExtraListElement276() (interface{}, error) {
+func (c *current) onExtraListElement282() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonExtraListElement276() (interface{}, error) {
+func (p *parser) callonExtraListElement282() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement276()
+	return p.cur.onExtraListElement282()
 }
 
-func (c *current) onExtraListElement280() (interface{}, error) {
+func (c *current) onExtraListElement286() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonExtraListElement280() (interface{}, error) {
+func (p *parser) callonExtraListElement286() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement280()
+	return p.cur.onExtraListElement286()
 }
 
-func (c *current) onExtraListElement284() (interface{}, error) {
+func (c *current) onExtraListElement290() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonExtraListElement284() (interface{}, error) {
+func (p *parser) callonExtraListElement290() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement284()
+	return p.cur.onExtraListElement290()
 }
 
-func (c *current) onExtraListElement289() (interface{}, error) {
+func (c *current) onExtraListElement295() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonExtraListElement289() (interface{}, error) {
+func (p *parser) callonExtraListElement295() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement289()
+	return p.cur.onExtraListElement295()
 }
 
-func (c *current) onExtraListElement294(prefix interface{}) (interface{}, error) {
+func (c *current) onExtraListElement300(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement294() (interface{}, error) {
+func (p *parser) callonExtraListElement300() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement294(stack["prefix"])
+	return p.cur.onExtraListElement300(stack["prefix"])
 }
 
-func (c *current) onExtraListElement257(prefix interface{}) (interface{}, error) {
+func (c *current) onExtraListElement263(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonExtraListElement257() (interface{}, error) {
+func (p *parser) callonExtraListElement263() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement257(stack["prefix"])
+	return p.cur.onExtraListElement263(stack["prefix"])
 }
 
-func (c *current) onExtraListElement302() (interface{}, error) {
+func (c *current) onExtraListElement308() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement302() (interface{}, error) {
+func (p *parser) callonExtraListElement308() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement302()
+	return p.cur.onExtraListElement308()
 }
 
-func (c *current) onExtraListElement306() (interface{}, error) {
+func (c *current) onExtraListElement312() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement306() (interface{}, error) {
+func (p *parser) callonExtraListElement312() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement306()
+	return p.cur.onExtraListElement312()
 }
 
-func (c *current) onExtraListElement298(rawLines interface{}) (interface{}, error) {
+func (c *current) onExtraListElement304(rawLines interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, rawLines.([]interface{})...)
 
 }
 
-func (p *parser) callonExtraListElement298() (interface{}, error) {
+func (p *parser) callonExtraListElement304() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement298(stack["rawLines"])
+	return p.cur.onExtraListElement304(stack["rawLines"])
 }
 
-func (c *current) onExtraListElement254(prefix, content interface{}) (interface{}, error) {
+func (c *current) onExtraListElement260(prefix, content interface{}) (interface{}, error) {
 	return types.NewOrderedListElement(prefix.(types.OrderedListElementPrefix), content)
 
 }
 
-func (p *parser) callonExtraListElement254() (interface{}, error) {
+func (p *parser) callonExtraListElement260() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement254(stack["prefix"], stack["content"])
+	return p.cur.onExtraListElement260(stack["prefix"], stack["content"])
 }
 
-func (c *current) onExtraListElement319() (interface{}, error) {
+func (c *current) onExtraListElement325() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement319() (interface{}, error) {
+func (p *parser) callonExtraListElement325() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement319()
+	return p.cur.onExtraListElement325()
 }
 
-func (c *current) onExtraListElement322() (interface{}, error) {
+func (c *current) onExtraListElement328() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement322() (interface{}, error) {
+func (p *parser) callonExtraListElement328() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement322()
+	return p.cur.onExtraListElement328()
 }
 
-func (c *current) onExtraListElement327(style interface{}) (bool, error) {
+func (c *current) onExtraListElement333(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonExtraListElement327() (bool, error) {
+func (p *parser) callonExtraListElement333() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement327(stack["style"])
+	return p.cur.onExtraListElement333(stack["style"])
 }
 
-func (c *current) onExtraListElement328(style interface{}) (interface{}, error) {
+func (c *current) onExtraListElement334(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement328() (interface{}, error) {
+func (p *parser) callonExtraListElement334() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement328(stack["style"])
+	return p.cur.onExtraListElement334(stack["style"])
 }
 
-func (c *current) onExtraListElement316(style interface{}) (interface{}, error) {
+func (c *current) onExtraListElement322(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonExtraListElement316() (interface{}, error) {
+func (p *parser) callonExtraListElement322() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement316(stack["style"])
+	return p.cur.onExtraListElement322(stack["style"])
 }
 
-func (c *current) onExtraListElement339() (interface{}, error) {
+func (c *current) onExtraListElement345() (interface{}, error) {
 	return types.Unchecked, nil
 }
 
-func (p *parser) callonExtraListElement339() (interface{}, error) {
+func (p *parser) callonExtraListElement345() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement339()
+	return p.cur.onExtraListElement345()
 }
 
-func (c *current) onExtraListElement341() (interface{}, error) {
+func (c *current) onExtraListElement347() (interface{}, error) {
 	return types.Checked, nil
 }
 
-func (p *parser) callonExtraListElement341() (interface{}, error) {
+func (p *parser) callonExtraListElement347() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement341()
+	return p.cur.onExtraListElement347()
 }
 
-func (c *current) onExtraListElement343() (interface{}, error) {
+func (c *current) onExtraListElement349() (interface{}, error) {
 	return types.Checked, nil
 }
 
-func (p *parser) callonExtraListElement343() (interface{}, error) {
+func (p *parser) callonExtraListElement349() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement343()
+	return p.cur.onExtraListElement349()
 }
 
-func (c *current) onExtraListElement345(style interface{}) (interface{}, error) {
+func (c *current) onExtraListElement351(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement345() (interface{}, error) {
+func (p *parser) callonExtraListElement351() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement345(stack["style"])
+	return p.cur.onExtraListElement351(stack["style"])
 }
 
-func (c *current) onExtraListElement333(style interface{}) (interface{}, error) {
+func (c *current) onExtraListElement339(style interface{}) (interface{}, error) {
 	return style, nil
 
 }
 
-func (p *parser) callonExtraListElement333() (interface{}, error) {
+func (p *parser) callonExtraListElement339() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement333(stack["style"])
+	return p.cur.onExtraListElement339(stack["style"])
 }
 
-func (c *current) onExtraListElement353() (interface{}, error) {
+func (c *current) onExtraListElement359() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement353() (interface{}, error) {
+func (p *parser) callonExtraListElement359() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement353()
+	return p.cur.onExtraListElement359()
 }
 
-func (c *current) onExtraListElement357() (interface{}, error) {
+func (c *current) onExtraListElement363() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement357() (interface{}, error) {
+func (p *parser) callonExtraListElement363() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement357()
+	return p.cur.onExtraListElement363()
 }
 
-func (c *current) onExtraListElement349(rawLines interface{}) (interface{}, error) {
+func (c *current) onExtraListElement355(rawLines interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, rawLines.([]interface{})...)
 
 }
 
-func (p *parser) callonExtraListElement349() (interface{}, error) {
+func (p *parser) callonExtraListElement355() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement349(stack["rawLines"])
+	return p.cur.onExtraListElement355(stack["rawLines"])
 }
 
-func (c *current) onExtraListElement313(prefix, checkstyle, content interface{}) (interface{}, error) {
+func (c *current) onExtraListElement319(prefix, checkstyle, content interface{}) (interface{}, error) {
 	return types.NewUnorderedListElement(prefix.(types.UnorderedListElementPrefix), checkstyle, content)
 
 }
 
-func (p *parser) callonExtraListElement313() (interface{}, error) {
+func (p *parser) callonExtraListElement319() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement313(stack["prefix"], stack["checkstyle"], stack["content"])
+	return p.cur.onExtraListElement319(stack["prefix"], stack["checkstyle"], stack["content"])
 }
 
-func (c *current) onExtraListElement371() (interface{}, error) {
+func (c *current) onExtraListElement377() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonExtraListElement371() (interface{}, error) {
+func (p *parser) callonExtraListElement377() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement371()
+	return p.cur.onExtraListElement377()
 }
 
-func (c *current) onExtraListElement375(ref interface{}) (interface{}, error) {
+func (c *current) onExtraListElement381(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement375() (interface{}, error) {
+func (p *parser) callonExtraListElement381() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement375(stack["ref"])
+	return p.cur.onExtraListElement381(stack["ref"])
 }
 
-func (c *current) onExtraListElement367(ref interface{}) (interface{}, error) {
+func (c *current) onExtraListElement373(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonExtraListElement367() (interface{}, error) {
+func (p *parser) callonExtraListElement373() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement367(stack["ref"])
+	return p.cur.onExtraListElement373(stack["ref"])
 }
 
-func (c *current) onExtraListElement383() (interface{}, error) {
+func (c *current) onExtraListElement389() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement383() (interface{}, error) {
+func (p *parser) callonExtraListElement389() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement383()
+	return p.cur.onExtraListElement389()
 }
 
-func (c *current) onExtraListElement387() (interface{}, error) {
+func (c *current) onExtraListElement393() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement387() (interface{}, error) {
+func (p *parser) callonExtraListElement393() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement387()
+	return p.cur.onExtraListElement393()
 }
 
-func (c *current) onExtraListElement379(rawLines interface{}) (interface{}, error) {
+func (c *current) onExtraListElement385(rawLines interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, rawLines.([]interface{})...)
 
 }
 
-func (p *parser) callonExtraListElement379() (interface{}, error) {
+func (p *parser) callonExtraListElement385() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement379(stack["rawLines"])
+	return p.cur.onExtraListElement385(stack["rawLines"])
 }
 
-func (c *current) onExtraListElement364(ref, description interface{}) (interface{}, error) {
+func (c *current) onExtraListElement370(ref, description interface{}) (interface{}, error) {
 	return types.NewCalloutListElement(ref.(int), description.(*types.Paragraph))
 
 }
 
-func (p *parser) callonExtraListElement364() (interface{}, error) {
+func (p *parser) callonExtraListElement370() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement364(stack["ref"], stack["description"])
+	return p.cur.onExtraListElement370(stack["ref"], stack["description"])
 }
 
-func (c *current) onExtraListElement404() (interface{}, error) {
+func (c *current) onExtraListElement416() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement404() (interface{}, error) {
+func (p *parser) callonExtraListElement416() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement404()
+	return p.cur.onExtraListElement416()
 }
 
-func (c *current) onExtraListElement407(separator interface{}) (bool, error) {
+func (c *current) onExtraListElement419(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonExtraListElement407() (bool, error) {
+func (p *parser) callonExtraListElement419() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement407(stack["separator"])
+	return p.cur.onExtraListElement419(stack["separator"])
 }
 
-func (c *current) onExtraListElement401(separator interface{}) (interface{}, error) {
+func (c *current) onExtraListElement413(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonExtraListElement401() (interface{}, error) {
+func (p *parser) callonExtraListElement413() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement401(stack["separator"])
+	return p.cur.onExtraListElement413(stack["separator"])
 }
 
-func (c *current) onExtraListElement410() (interface{}, error) {
+func (c *current) onExtraListElement422() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement410() (interface{}, error) {
+func (p *parser) callonExtraListElement422() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement410()
+	return p.cur.onExtraListElement422()
 }
 
-func (c *current) onExtraListElement397() (interface{}, error) {
+func (c *current) onExtraListElement403() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonExtraListElement397() (interface{}, error) {
+func (p *parser) callonExtraListElement403() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement397()
+	return p.cur.onExtraListElement403()
 }
 
-func (c *current) onExtraListElement422() (interface{}, error) {
+func (c *current) onExtraListElement434() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement422() (interface{}, error) {
+func (p *parser) callonExtraListElement434() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement422()
+	return p.cur.onExtraListElement434()
 }
 
-func (c *current) onExtraListElement425(separator interface{}) (bool, error) {
+func (c *current) onExtraListElement437(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonExtraListElement425() (bool, error) {
+func (p *parser) callonExtraListElement437() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement425(stack["separator"])
+	return p.cur.onExtraListElement437(stack["separator"])
 }
 
-func (c *current) onExtraListElement419(separator interface{}) (interface{}, error) {
+func (c *current) onExtraListElement431(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonExtraListElement419() (interface{}, error) {
+func (p *parser) callonExtraListElement431() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement419(stack["separator"])
+	return p.cur.onExtraListElement431(stack["separator"])
 }
 
-func (c *current) onExtraListElement431() (interface{}, error) {
+func (c *current) onExtraListElement443() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement431() (interface{}, error) {
+func (p *parser) callonExtraListElement443() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement431()
+	return p.cur.onExtraListElement443()
 }
 
-func (c *current) onExtraListElement434() (interface{}, error) {
+func (c *current) onExtraListElement446() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement434() (interface{}, error) {
+func (p *parser) callonExtraListElement446() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement434()
+	return p.cur.onExtraListElement446()
 }
 
-func (c *current) onExtraListElement447() (interface{}, error) {
+func (c *current) onExtraListElement459() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement447() (interface{}, error) {
+func (p *parser) callonExtraListElement459() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement447()
+	return p.cur.onExtraListElement459()
 }
 
-func (c *current) onExtraListElement450() (interface{}, error) {
+func (c *current) onExtraListElement462() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement450() (interface{}, error) {
+func (p *parser) callonExtraListElement462() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement450()
+	return p.cur.onExtraListElement462()
 }
 
-func (c *current) onExtraListElement442() (interface{}, error) {
+func (c *current) onExtraListElement454() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonExtraListElement442() (interface{}, error) {
+func (p *parser) callonExtraListElement454() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement442()
+	return p.cur.onExtraListElement454()
 }
 
-func (c *current) onExtraListElement428() (interface{}, error) {
+func (c *current) onExtraListElement440() (interface{}, error) {
 	return nil, nil
 
 }
 
-func (p *parser) callonExtraListElement428() (interface{}, error) {
+func (p *parser) callonExtraListElement440() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement428()
+	return p.cur.onExtraListElement440()
 }
 
-func (c *current) onExtraListElement459() (interface{}, error) {
+func (c *current) onExtraListElement471() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement459() (interface{}, error) {
+func (p *parser) callonExtraListElement471() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement459()
+	return p.cur.onExtraListElement471()
 }
 
-func (c *current) onExtraListElement463() (interface{}, error) {
+func (c *current) onExtraListElement475() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement463() (interface{}, error) {
+func (p *parser) callonExtraListElement475() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement463()
+	return p.cur.onExtraListElement475()
 }
 
-func (c *current) onExtraListElement467() (interface{}, error) {
+func (c *current) onExtraListElement479() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement467() (interface{}, error) {
+func (p *parser) callonExtraListElement479() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement467()
+	return p.cur.onExtraListElement479()
 }
 
-func (c *current) onExtraListElement457(content interface{}) (interface{}, error) {
+func (c *current) onExtraListElement469(content interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, content)
 
 }
 
-func (p *parser) callonExtraListElement457() (interface{}, error) {
+func (p *parser) callonExtraListElement469() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement457(stack["content"])
+	return p.cur.onExtraListElement469(stack["content"])
 }
 
-func (c *current) onExtraListElement394(term, separator, description interface{}) (interface{}, error) {
+func (c *current) onExtraListElement400(term, separator, description interface{}) (interface{}, error) {
 	return types.NewLabeledListElement(len(separator.(string))-1, term, description)
 
 }
 
-func (p *parser) callonExtraListElement394() (interface{}, error) {
+func (p *parser) callonExtraListElement400() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement394(stack["term"], stack["separator"], stack["description"])
+	return p.cur.onExtraListElement400(stack["term"], stack["separator"], stack["description"])
 }
 
-func (c *current) onExtraListElement247(attributes, element interface{}) (interface{}, error) {
+func (c *current) onExtraListElement253(attributes, element interface{}) (interface{}, error) {
 
 	return append(attributes.([]interface{}), element), nil
 
 }
 
-func (p *parser) callonExtraListElement247() (interface{}, error) {
+func (p *parser) callonExtraListElement253() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement247(stack["attributes"], stack["element"])
+	return p.cur.onExtraListElement253(stack["attributes"], stack["element"])
 }
 
-func (c *current) onExtraListElement481() (interface{}, error) {
+func (c *current) onExtraListElement493() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement481() (interface{}, error) {
+func (p *parser) callonExtraListElement493() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement481()
+	return p.cur.onExtraListElement493()
 }
 
-func (c *current) onExtraListElement485() (interface{}, error) {
+func (c *current) onExtraListElement497() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement485() (interface{}, error) {
+func (p *parser) callonExtraListElement497() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement485()
+	return p.cur.onExtraListElement497()
 }
 
-func (c *current) onExtraListElement475(content interface{}) (interface{}, error) {
+func (c *current) onExtraListElement487(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonExtraListElement475() (interface{}, error) {
+func (p *parser) callonExtraListElement487() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement475(stack["content"])
+	return p.cur.onExtraListElement487(stack["content"])
 }
 
-func (c *current) onExtraListElement500() (interface{}, error) {
+func (c *current) onExtraListElement512() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement500() (interface{}, error) {
+func (p *parser) callonExtraListElement512() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement500()
+	return p.cur.onExtraListElement512()
 }
 
-func (c *current) onExtraListElement503() (interface{}, error) {
+func (c *current) onExtraListElement515() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement503() (interface{}, error) {
+func (p *parser) callonExtraListElement515() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement503()
+	return p.cur.onExtraListElement515()
 }
 
-func (c *current) onExtraListElement495() (interface{}, error) {
+func (c *current) onExtraListElement507() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonExtraListElement495() (interface{}, error) {
+func (p *parser) callonExtraListElement507() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement495()
+	return p.cur.onExtraListElement507()
 }
 
-func (c *current) onExtraListElement514() (interface{}, error) {
+func (c *current) onExtraListElement526() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement514() (interface{}, error) {
+func (p *parser) callonExtraListElement526() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement514()
+	return p.cur.onExtraListElement526()
 }
 
-func (c *current) onExtraListElement516() (interface{}, error) {
+func (c *current) onExtraListElement528() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement516() (interface{}, error) {
+func (p *parser) callonExtraListElement528() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement516()
+	return p.cur.onExtraListElement528()
 }
 
-func (c *current) onExtraListElement525() (interface{}, error) {
+func (c *current) onExtraListElement537() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement525() (interface{}, error) {
+func (p *parser) callonExtraListElement537() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement525()
+	return p.cur.onExtraListElement537()
 }
 
-func (c *current) onExtraListElement532() (interface{}, error) {
+func (c *current) onExtraListElement544() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonExtraListElement532() (interface{}, error) {
+func (p *parser) callonExtraListElement544() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement532()
+	return p.cur.onExtraListElement544()
 }
 
-func (c *current) onExtraListElement535(depth interface{}) (bool, error) {
+func (c *current) onExtraListElement547(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonExtraListElement535() (bool, error) {
+func (p *parser) callonExtraListElement547() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement535(stack["depth"])
+	return p.cur.onExtraListElement547(stack["depth"])
 }
 
-func (c *current) onExtraListElement529(depth interface{}) (interface{}, error) {
+func (c *current) onExtraListElement541(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -63150,745 +63318,745 @@ func (c *current) onExtraListElement529(depth interface{}) (interface{}, error)
 
 }
 
-func (p *parser) callonExtraListElement529() (interface{}, error) {
+func (p *parser) callonExtraListElement541() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement529(stack["depth"])
+	return p.cur.onExtraListElement541(stack["depth"])
 }
 
-func (c *current) onExtraListElement536() (interface{}, error) {
+func (c *current) onExtraListElement548() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonExtraListElement536() (interface{}, error) {
+func (p *parser) callonExtraListElement548() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement536()
+	return p.cur.onExtraListElement548()
 }
 
-func (c *current) onExtraListElement541() (interface{}, error) {
+func (c *current) onExtraListElement553() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonExtraListElement541() (interface{}, error) {
+func (p *parser) callonExtraListElement553() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement541()
+	return p.cur.onExtraListElement553()
 }
 
-func (c *current) onExtraListElement545() (interface{}, error) {
+func (c *current) onExtraListElement557() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonExtraListElement545() (interface{}, error) {
+func (p *parser) callonExtraListElement557() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement545()
+	return p.cur.onExtraListElement557()
 }
 
-func (c *current) onExtraListElement549() (interface{}, error) {
+func (c *current) onExtraListElement561() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonExtraListElement549() (interface{}, error) {
+func (p *parser) callonExtraListElement561() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement549()
+	return p.cur.onExtraListElement561()
 }
 
-func (c *current) onExtraListElement554() (interface{}, error) {
+func (c *current) onExtraListElement566() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonExtraListElement554() (interface{}, error) {
+func (p *parser) callonExtraListElement566() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement554()
+	return p.cur.onExtraListElement566()
 }
 
-func (c *current) onExtraListElement559(prefix interface{}) (interface{}, error) {
+func (c *current) onExtraListElement571(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement559() (interface{}, error) {
+func (p *parser) callonExtraListElement571() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement559(stack["prefix"])
+	return p.cur.onExtraListElement571(stack["prefix"])
 }
 
-func (c *current) onExtraListElement522(prefix interface{}) (interface{}, error) {
+func (c *current) onExtraListElement534(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonExtraListElement522() (interface{}, error) {
+func (p *parser) callonExtraListElement534() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement522(stack["prefix"])
+	return p.cur.onExtraListElement534(stack["prefix"])
 }
 
-func (c *current) onExtraListElement566() (interface{}, error) {
+func (c *current) onExtraListElement578() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement566() (interface{}, error) {
+func (p *parser) callonExtraListElement578() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement566()
+	return p.cur.onExtraListElement578()
 }
 
-func (c *current) onExtraListElement569() (interface{}, error) {
+func (c *current) onExtraListElement581() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement569() (interface{}, error) {
+func (p *parser) callonExtraListElement581() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement569()
+	return p.cur.onExtraListElement581()
 }
 
-func (c *current) onExtraListElement574(style interface{}) (bool, error) {
+func (c *current) onExtraListElement586(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonExtraListElement574() (bool, error) {
+func (p *parser) callonExtraListElement586() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement574(stack["style"])
+	return p.cur.onExtraListElement586(stack["style"])
 }
 
-func (c *current) onExtraListElement575(style interface{}) (interface{}, error) {
+func (c *current) onExtraListElement587(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement575() (interface{}, error) {
+func (p *parser) callonExtraListElement587() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement575(stack["style"])
+	return p.cur.onExtraListElement587(stack["style"])
 }
 
-func (c *current) onExtraListElement563(style interface{}) (interface{}, error) {
+func (c *current) onExtraListElement575(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonExtraListElement563() (interface{}, error) {
+func (p *parser) callonExtraListElement575() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement563(stack["style"])
+	return p.cur.onExtraListElement575(stack["style"])
 }
 
-func (c *current) onExtraListElement583() (interface{}, error) {
+func (c *current) onExtraListElement595() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonExtraListElement583() (interface{}, error) {
+func (p *parser) callonExtraListElement595() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement583()
+	return p.cur.onExtraListElement595()
 }
 
-func (c *current) onExtraListElement587(ref interface{}) (interface{}, error) {
+func (c *current) onExtraListElement599(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement587() (interface{}, error) {
+func (p *parser) callonExtraListElement599() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement587(stack["ref"])
+	return p.cur.onExtraListElement599(stack["ref"])
 }
 
-func (c *current) onExtraListElement579(ref interface{}) (interface{}, error) {
+func (c *current) onExtraListElement591(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonExtraListElement579() (interface{}, error) {
+func (p *parser) callonExtraListElement591() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement579(stack["ref"])
+	return p.cur.onExtraListElement591(stack["ref"])
 }
 
-func (c *current) onExtraListElement599() (interface{}, error) {
+func (c *current) onExtraListElement617() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement599() (interface{}, error) {
+func (p *parser) callonExtraListElement617() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement599()
+	return p.cur.onExtraListElement617()
 }
 
-func (c *current) onExtraListElement602(separator interface{}) (bool, error) {
+func (c *current) onExtraListElement620(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonExtraListElement602() (bool, error) {
+func (p *parser) callonExtraListElement620() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement602(stack["separator"])
+	return p.cur.onExtraListElement620(stack["separator"])
 }
 
-func (c *current) onExtraListElement596(separator interface{}) (interface{}, error) {
+func (c *current) onExtraListElement614(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonExtraListElement596() (interface{}, error) {
+func (p *parser) callonExtraListElement614() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement596(stack["separator"])
+	return p.cur.onExtraListElement614(stack["separator"])
 }
 
-func (c *current) onExtraListElement605() (interface{}, error) {
+func (c *current) onExtraListElement623() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement605() (interface{}, error) {
+func (p *parser) callonExtraListElement623() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement605()
+	return p.cur.onExtraListElement623()
 }
 
-func (c *current) onExtraListElement592() (interface{}, error) {
+func (c *current) onExtraListElement604() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonExtraListElement592() (interface{}, error) {
+func (p *parser) callonExtraListElement604() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement592()
+	return p.cur.onExtraListElement604()
 }
 
-func (c *current) onExtraListElement616() (interface{}, error) {
+func (c *current) onExtraListElement634() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement616() (interface{}, error) {
+func (p *parser) callonExtraListElement634() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement616()
+	return p.cur.onExtraListElement634()
 }
 
-func (c *current) onExtraListElement619(separator interface{}) (bool, error) {
+func (c *current) onExtraListElement637(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonExtraListElement619() (bool, error) {
+func (p *parser) callonExtraListElement637() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement619(stack["separator"])
+	return p.cur.onExtraListElement637(stack["separator"])
 }
 
-func (c *current) onExtraListElement613(separator interface{}) (interface{}, error) {
+func (c *current) onExtraListElement631(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonExtraListElement613() (interface{}, error) {
+func (p *parser) callonExtraListElement631() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement613(stack["separator"])
+	return p.cur.onExtraListElement631(stack["separator"])
 }
 
-func (c *current) onExtraListElement630() (interface{}, error) {
+func (c *current) onExtraListElement648() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement630() (interface{}, error) {
+func (p *parser) callonExtraListElement648() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement630()
+	return p.cur.onExtraListElement648()
 }
 
-func (c *current) onExtraListElement636() (interface{}, error) {
+func (c *current) onExtraListElement654() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement636() (interface{}, error) {
+func (p *parser) callonExtraListElement654() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement636()
+	return p.cur.onExtraListElement654()
 }
 
-func (c *current) onExtraListElement639() (interface{}, error) {
+func (c *current) onExtraListElement657() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement639() (interface{}, error) {
+func (p *parser) callonExtraListElement657() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement639()
+	return p.cur.onExtraListElement657()
 }
 
-func (c *current) onExtraListElement627(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement645(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement627() (interface{}, error) {
+func (p *parser) callonExtraListElement645() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement627(stack["delimiter"])
+	return p.cur.onExtraListElement645(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement649() (interface{}, error) {
+func (c *current) onExtraListElement667() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement649() (interface{}, error) {
+func (p *parser) callonExtraListElement667() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement649()
+	return p.cur.onExtraListElement667()
 }
 
-func (c *current) onExtraListElement655() (interface{}, error) {
+func (c *current) onExtraListElement673() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement655() (interface{}, error) {
+func (p *parser) callonExtraListElement673() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement655()
+	return p.cur.onExtraListElement673()
 }
 
-func (c *current) onExtraListElement658() (interface{}, error) {
+func (c *current) onExtraListElement676() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement658() (interface{}, error) {
+func (p *parser) callonExtraListElement676() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement658()
+	return p.cur.onExtraListElement676()
 }
 
-func (c *current) onExtraListElement646(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement664(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement646() (interface{}, error) {
+func (p *parser) callonExtraListElement664() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement646(stack["delimiter"])
+	return p.cur.onExtraListElement664(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement669() (interface{}, error) {
+func (c *current) onExtraListElement687() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement669() (interface{}, error) {
+func (p *parser) callonExtraListElement687() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement669()
+	return p.cur.onExtraListElement687()
 }
 
-func (c *current) onExtraListElement673() (interface{}, error) {
+func (c *current) onExtraListElement691() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement673() (interface{}, error) {
+func (p *parser) callonExtraListElement691() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement673()
+	return p.cur.onExtraListElement691()
 }
 
-func (c *current) onExtraListElement676() (interface{}, error) {
+func (c *current) onExtraListElement694() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement676() (interface{}, error) {
+func (p *parser) callonExtraListElement694() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement676()
+	return p.cur.onExtraListElement694()
 }
 
-func (c *current) onExtraListElement665(language interface{}) (interface{}, error) {
+func (c *current) onExtraListElement683(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonExtraListElement665() (interface{}, error) {
+func (p *parser) callonExtraListElement683() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement665(stack["language"])
+	return p.cur.onExtraListElement683(stack["language"])
 }
 
-func (c *current) onExtraListElement686() (interface{}, error) {
+func (c *current) onExtraListElement704() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement686() (interface{}, error) {
+func (p *parser) callonExtraListElement704() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement686()
+	return p.cur.onExtraListElement704()
 }
 
-func (c *current) onExtraListElement692() (interface{}, error) {
+func (c *current) onExtraListElement710() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement692() (interface{}, error) {
+func (p *parser) callonExtraListElement710() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement692()
+	return p.cur.onExtraListElement710()
 }
 
-func (c *current) onExtraListElement695() (interface{}, error) {
+func (c *current) onExtraListElement713() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement695() (interface{}, error) {
+func (p *parser) callonExtraListElement713() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement695()
+	return p.cur.onExtraListElement713()
 }
 
-func (c *current) onExtraListElement683(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement701(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement683() (interface{}, error) {
+func (p *parser) callonExtraListElement701() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement683(stack["delimiter"])
+	return p.cur.onExtraListElement701(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement705() (interface{}, error) {
+func (c *current) onExtraListElement723() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement705() (interface{}, error) {
+func (p *parser) callonExtraListElement723() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement705()
+	return p.cur.onExtraListElement723()
 }
 
-func (c *current) onExtraListElement711() (interface{}, error) {
+func (c *current) onExtraListElement729() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement711() (interface{}, error) {
+func (p *parser) callonExtraListElement729() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement711()
+	return p.cur.onExtraListElement729()
 }
 
-func (c *current) onExtraListElement714() (interface{}, error) {
+func (c *current) onExtraListElement732() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement714() (interface{}, error) {
+func (p *parser) callonExtraListElement732() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement714()
+	return p.cur.onExtraListElement732()
 }
 
-func (c *current) onExtraListElement702(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement720(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement702() (interface{}, error) {
+func (p *parser) callonExtraListElement720() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement702(stack["delimiter"])
+	return p.cur.onExtraListElement720(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement724() (interface{}, error) {
+func (c *current) onExtraListElement742() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement724() (interface{}, error) {
+func (p *parser) callonExtraListElement742() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement724()
+	return p.cur.onExtraListElement742()
 }
 
-func (c *current) onExtraListElement730() (interface{}, error) {
+func (c *current) onExtraListElement748() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement730() (interface{}, error) {
+func (p *parser) callonExtraListElement748() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement730()
+	return p.cur.onExtraListElement748()
 }
 
-func (c *current) onExtraListElement733() (interface{}, error) {
+func (c *current) onExtraListElement751() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement733() (interface{}, error) {
+func (p *parser) callonExtraListElement751() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement733()
+	return p.cur.onExtraListElement751()
 }
 
-func (c *current) onExtraListElement721(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement739(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement721() (interface{}, error) {
+func (p *parser) callonExtraListElement739() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement721(stack["delimiter"])
+	return p.cur.onExtraListElement739(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement743() (interface{}, error) {
+func (c *current) onExtraListElement761() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement743() (interface{}, error) {
+func (p *parser) callonExtraListElement761() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement743()
+	return p.cur.onExtraListElement761()
 }
 
-func (c *current) onExtraListElement749() (interface{}, error) {
+func (c *current) onExtraListElement767() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement749() (interface{}, error) {
+func (p *parser) callonExtraListElement767() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement749()
+	return p.cur.onExtraListElement767()
 }
 
-func (c *current) onExtraListElement752() (interface{}, error) {
+func (c *current) onExtraListElement770() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement752() (interface{}, error) {
+func (p *parser) callonExtraListElement770() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement752()
+	return p.cur.onExtraListElement770()
 }
 
-func (c *current) onExtraListElement740(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement758(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement740() (interface{}, error) {
+func (p *parser) callonExtraListElement758() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement740(stack["delimiter"])
+	return p.cur.onExtraListElement758(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement762() (interface{}, error) {
+func (c *current) onExtraListElement780() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement762() (interface{}, error) {
+func (p *parser) callonExtraListElement780() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement762()
+	return p.cur.onExtraListElement780()
 }
 
-func (c *current) onExtraListElement768() (interface{}, error) {
+func (c *current) onExtraListElement786() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement768() (interface{}, error) {
+func (p *parser) callonExtraListElement786() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement768()
+	return p.cur.onExtraListElement786()
 }
 
-func (c *current) onExtraListElement771() (interface{}, error) {
+func (c *current) onExtraListElement789() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement771() (interface{}, error) {
+func (p *parser) callonExtraListElement789() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement771()
+	return p.cur.onExtraListElement789()
 }
 
-func (c *current) onExtraListElement759(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement777(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement759() (interface{}, error) {
+func (p *parser) callonExtraListElement777() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement759(stack["delimiter"])
+	return p.cur.onExtraListElement777(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement781() (interface{}, error) {
+func (c *current) onExtraListElement799() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement781() (interface{}, error) {
+func (p *parser) callonExtraListElement799() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement781()
+	return p.cur.onExtraListElement799()
 }
 
-func (c *current) onExtraListElement787() (interface{}, error) {
+func (c *current) onExtraListElement805() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement787() (interface{}, error) {
+func (p *parser) callonExtraListElement805() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement787()
+	return p.cur.onExtraListElement805()
 }
 
-func (c *current) onExtraListElement790() (interface{}, error) {
+func (c *current) onExtraListElement808() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement790() (interface{}, error) {
+func (p *parser) callonExtraListElement808() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement790()
+	return p.cur.onExtraListElement808()
 }
 
-func (c *current) onExtraListElement778(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement796(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement778() (interface{}, error) {
+func (p *parser) callonExtraListElement796() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement778(stack["delimiter"])
+	return p.cur.onExtraListElement796(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement621(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement639(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonExtraListElement621() (interface{}, error) {
+func (p *parser) callonExtraListElement639() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement621(stack["delimiter"])
+	return p.cur.onExtraListElement639(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement798() (interface{}, error) {
+func (c *current) onExtraListElement816() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement798() (interface{}, error) {
+func (p *parser) callonExtraListElement816() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement798()
+	return p.cur.onExtraListElement816()
 }
 
-func (c *current) onExtraListElement802() (interface{}, error) {
+func (c *current) onExtraListElement820() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement802() (interface{}, error) {
+func (p *parser) callonExtraListElement820() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement802()
+	return p.cur.onExtraListElement820()
 }
 
-func (c *current) onExtraListElement492(content interface{}) (interface{}, error) {
+func (c *current) onExtraListElement504(content interface{}) (interface{}, error) {
 	// do not retain the EOL chars
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonExtraListElement492() (interface{}, error) {
+func (p *parser) callonExtraListElement504() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement492(stack["content"])
+	return p.cur.onExtraListElement504(stack["content"])
 }
 
 func (c *current) onExtraListElement1(element interface{}) (interface{}, error) {
@@ -64413,51 +64581,51 @@ func (p *parser) callonListContinuationElement117() (interface{}, error) {
 	return p.cur.onListContinuationElement117(stack["ref"], stack["description"])
 }
 
-func (c *current) onListContinuationElement157() (interface{}, error) {
+func (c *current) onListContinuationElement163() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement157() (interface{}, error) {
+func (p *parser) callonListContinuationElement163() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement157()
+	return p.cur.onListContinuationElement163()
 }
 
-func (c *current) onListContinuationElement160(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement166(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement160() (bool, error) {
+func (p *parser) callonListContinuationElement166() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement160(stack["separator"])
+	return p.cur.onListContinuationElement166(stack["separator"])
 }
 
-func (c *current) onListContinuationElement154(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement160(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement154() (interface{}, error) {
+func (p *parser) callonListContinuationElement160() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement154(stack["separator"])
+	return p.cur.onListContinuationElement160(stack["separator"])
 }
 
-func (c *current) onListContinuationElement163() (interface{}, error) {
+func (c *current) onListContinuationElement169() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement163() (interface{}, error) {
+func (p *parser) callonListContinuationElement169() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement163()
+	return p.cur.onListContinuationElement169()
 }
 
 func (c *current) onListContinuationElement150() (interface{}, error) {
@@ -64471,153 +64639,153 @@ func (p *parser) callonListContinuationElement150() (interface{}, error) {
 	return p.cur.onListContinuationElement150()
 }
 
-func (c *current) onListContinuationElement175() (interface{}, error) {
+func (c *current) onListContinuationElement181() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement175() (interface{}, error) {
+func (p *parser) callonListContinuationElement181() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement175()
+	return p.cur.onListContinuationElement181()
 }
 
-func (c *current) onListContinuationElement178(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement184(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement178() (bool, error) {
+func (p *parser) callonListContinuationElement184() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement178(stack["separator"])
+	return p.cur.onListContinuationElement184(stack["separator"])
 }
 
-func (c *current) onListContinuationElement172(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement178(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement172() (interface{}, error) {
+func (p *parser) callonListContinuationElement178() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement172(stack["separator"])
+	return p.cur.onListContinuationElement178(stack["separator"])
 }
 
-func (c *current) onListContinuationElement184() (interface{}, error) {
+func (c *current) onListContinuationElement190() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement184() (interface{}, error) {
+func (p *parser) callonListContinuationElement190() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement184()
+	return p.cur.onListContinuationElement190()
 }
 
-func (c *current) onListContinuationElement187() (interface{}, error) {
+func (c *current) onListContinuationElement193() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement187() (interface{}, error) {
+func (p *parser) callonListContinuationElement193() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement187()
+	return p.cur.onListContinuationElement193()
 }
 
-func (c *current) onListContinuationElement200() (interface{}, error) {
+func (c *current) onListContinuationElement206() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement200() (interface{}, error) {
+func (p *parser) callonListContinuationElement206() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement200()
+	return p.cur.onListContinuationElement206()
 }
 
-func (c *current) onListContinuationElement203() (interface{}, error) {
+func (c *current) onListContinuationElement209() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement203() (interface{}, error) {
+func (p *parser) callonListContinuationElement209() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement203()
+	return p.cur.onListContinuationElement209()
 }
 
-func (c *current) onListContinuationElement195() (interface{}, error) {
+func (c *current) onListContinuationElement201() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement195() (interface{}, error) {
+func (p *parser) callonListContinuationElement201() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement195()
+	return p.cur.onListContinuationElement201()
 }
 
-func (c *current) onListContinuationElement181() (interface{}, error) {
+func (c *current) onListContinuationElement187() (interface{}, error) {
 	return nil, nil
 
 }
 
-func (p *parser) callonListContinuationElement181() (interface{}, error) {
+func (p *parser) callonListContinuationElement187() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement181()
+	return p.cur.onListContinuationElement187()
 }
 
-func (c *current) onListContinuationElement212() (interface{}, error) {
+func (c *current) onListContinuationElement218() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement212() (interface{}, error) {
+func (p *parser) callonListContinuationElement218() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement212()
+	return p.cur.onListContinuationElement218()
 }
 
-func (c *current) onListContinuationElement216() (interface{}, error) {
+func (c *current) onListContinuationElement222() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement216() (interface{}, error) {
+func (p *parser) callonListContinuationElement222() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement216()
+	return p.cur.onListContinuationElement222()
 }
 
-func (c *current) onListContinuationElement220() (interface{}, error) {
+func (c *current) onListContinuationElement226() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement220() (interface{}, error) {
+func (p *parser) callonListContinuationElement226() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement220()
+	return p.cur.onListContinuationElement226()
 }
 
-func (c *current) onListContinuationElement210(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement216(content interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, content)
 
 }
 
-func (p *parser) callonListContinuationElement210() (interface{}, error) {
+func (p *parser) callonListContinuationElement216() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement210(stack["content"])
+	return p.cur.onListContinuationElement216(stack["content"])
 }
 
 func (c *current) onListContinuationElement147(term, separator, description interface{}) (interface{}, error) {
@@ -64631,696 +64799,696 @@ func (p *parser) callonListContinuationElement147() (interface{}, error) {
 	return p.cur.onListContinuationElement147(stack["term"], stack["separator"], stack["description"])
 }
 
-func (c *current) onListContinuationElement237() (interface{}, error) {
+func (c *current) onListContinuationElement243() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement237() (interface{}, error) {
+func (p *parser) callonListContinuationElement243() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement237()
+	return p.cur.onListContinuationElement243()
 }
 
-func (c *current) onListContinuationElement240() (interface{}, error) {
+func (c *current) onListContinuationElement246() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement240() (interface{}, error) {
+func (p *parser) callonListContinuationElement246() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement240()
+	return p.cur.onListContinuationElement246()
 }
 
-func (c *current) onListContinuationElement232() (interface{}, error) {
+func (c *current) onListContinuationElement238() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement232() (interface{}, error) {
+func (p *parser) callonListContinuationElement238() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement232()
+	return p.cur.onListContinuationElement238()
 }
 
-func (c *current) onListContinuationElement252() (interface{}, error) {
+func (c *current) onListContinuationElement258() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement252() (interface{}, error) {
+func (p *parser) callonListContinuationElement258() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement252()
+	return p.cur.onListContinuationElement258()
 }
 
-func (c *current) onListContinuationElement259() (interface{}, error) {
+func (c *current) onListContinuationElement265() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement259() (interface{}, error) {
+func (p *parser) callonListContinuationElement265() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement259()
+	return p.cur.onListContinuationElement265()
 }
 
-func (c *current) onListContinuationElement262() (interface{}, error) {
+func (c *current) onListContinuationElement268() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement262() (interface{}, error) {
+func (p *parser) callonListContinuationElement268() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement262()
+	return p.cur.onListContinuationElement268()
 }
 
-func (c *current) onListContinuationElement248(name interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement254(name interface{}) (interface{}, error) {
 	return types.NewAttributeReset(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement248() (interface{}, error) {
+func (p *parser) callonListContinuationElement254() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement248(stack["name"])
+	return p.cur.onListContinuationElement254(stack["name"])
 }
 
-func (c *current) onListContinuationElement273() (interface{}, error) {
+func (c *current) onListContinuationElement279() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement273() (interface{}, error) {
+func (p *parser) callonListContinuationElement279() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement273()
+	return p.cur.onListContinuationElement279()
 }
 
-func (c *current) onListContinuationElement280() (interface{}, error) {
+func (c *current) onListContinuationElement286() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement280() (interface{}, error) {
+func (p *parser) callonListContinuationElement286() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement280()
+	return p.cur.onListContinuationElement286()
 }
 
-func (c *current) onListContinuationElement283() (interface{}, error) {
+func (c *current) onListContinuationElement289() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement283() (interface{}, error) {
+func (p *parser) callonListContinuationElement289() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement283()
+	return p.cur.onListContinuationElement289()
 }
 
-func (c *current) onListContinuationElement269(name interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement275(name interface{}) (interface{}, error) {
 	return types.NewAttributeReset(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement269() (interface{}, error) {
+func (p *parser) callonListContinuationElement275() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement269(stack["name"])
+	return p.cur.onListContinuationElement275(stack["name"])
 }
 
-func (c *current) onListContinuationElement295() (interface{}, error) {
+func (c *current) onListContinuationElement301() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement295() (interface{}, error) {
+func (p *parser) callonListContinuationElement301() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement295()
+	return p.cur.onListContinuationElement301()
 }
 
-func (c *current) onListContinuationElement301() (interface{}, error) {
+func (c *current) onListContinuationElement307() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement301() (interface{}, error) {
+func (p *parser) callonListContinuationElement307() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement301()
+	return p.cur.onListContinuationElement307()
 }
 
-func (c *current) onListContinuationElement304() (interface{}, error) {
+func (c *current) onListContinuationElement310() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement304() (interface{}, error) {
+func (p *parser) callonListContinuationElement310() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement304()
+	return p.cur.onListContinuationElement310()
 }
 
-func (c *current) onListContinuationElement292(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement298(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement292() (interface{}, error) {
+func (p *parser) callonListContinuationElement298() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement292(stack["delimiter"])
+	return p.cur.onListContinuationElement298(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement320() (interface{}, error) {
+func (c *current) onListContinuationElement326() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement320() (interface{}, error) {
+func (p *parser) callonListContinuationElement326() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement320()
+	return p.cur.onListContinuationElement326()
 }
 
-func (c *current) onListContinuationElement326() (interface{}, error) {
+func (c *current) onListContinuationElement332() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement326() (interface{}, error) {
+func (p *parser) callonListContinuationElement332() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement326()
+	return p.cur.onListContinuationElement332()
 }
 
-func (c *current) onListContinuationElement329() (interface{}, error) {
+func (c *current) onListContinuationElement335() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement329() (interface{}, error) {
+func (p *parser) callonListContinuationElement335() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement329()
+	return p.cur.onListContinuationElement335()
 }
 
-func (c *current) onListContinuationElement317(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement323(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement317() (interface{}, error) {
+func (p *parser) callonListContinuationElement323() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement317(stack["delimiter"])
+	return p.cur.onListContinuationElement323(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement344() (interface{}, error) {
+func (c *current) onListContinuationElement350() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement344() (interface{}, error) {
+func (p *parser) callonListContinuationElement350() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement344()
+	return p.cur.onListContinuationElement350()
 }
 
-func (c *current) onListContinuationElement348() (interface{}, error) {
+func (c *current) onListContinuationElement354() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement348() (interface{}, error) {
+func (p *parser) callonListContinuationElement354() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement348()
+	return p.cur.onListContinuationElement354()
 }
 
-func (c *current) onListContinuationElement339(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement345(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement339() (interface{}, error) {
+func (p *parser) callonListContinuationElement345() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement339(stack["content"])
+	return p.cur.onListContinuationElement345(stack["content"])
 }
 
-func (c *current) onListContinuationElement313(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement319(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement313() (interface{}, error) {
+func (p *parser) callonListContinuationElement319() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement313(stack["line"])
+	return p.cur.onListContinuationElement319(stack["line"])
 }
 
-func (c *current) onListContinuationElement360() (interface{}, error) {
+func (c *current) onListContinuationElement366() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement360() (interface{}, error) {
+func (p *parser) callonListContinuationElement366() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement360()
+	return p.cur.onListContinuationElement366()
 }
 
-func (c *current) onListContinuationElement366() (interface{}, error) {
+func (c *current) onListContinuationElement372() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement366() (interface{}, error) {
+func (p *parser) callonListContinuationElement372() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement366()
+	return p.cur.onListContinuationElement372()
 }
 
-func (c *current) onListContinuationElement369() (interface{}, error) {
+func (c *current) onListContinuationElement375() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement369() (interface{}, error) {
+func (p *parser) callonListContinuationElement375() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement369()
+	return p.cur.onListContinuationElement375()
 }
 
-func (c *current) onListContinuationElement357(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement363(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement357() (interface{}, error) {
+func (p *parser) callonListContinuationElement363() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement357(stack["delimiter"])
+	return p.cur.onListContinuationElement363(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement290(delimiter, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement296(delimiter, content interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement290() (interface{}, error) {
+func (p *parser) callonListContinuationElement296() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement290(stack["delimiter"], stack["content"])
+	return p.cur.onListContinuationElement296(stack["delimiter"], stack["content"])
 }
 
-func (c *current) onListContinuationElement384() (interface{}, error) {
+func (c *current) onListContinuationElement390() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement384() (interface{}, error) {
+func (p *parser) callonListContinuationElement390() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement384()
+	return p.cur.onListContinuationElement390()
 }
 
-func (c *current) onListContinuationElement390() (interface{}, error) {
+func (c *current) onListContinuationElement396() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement390() (interface{}, error) {
+func (p *parser) callonListContinuationElement396() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement390()
+	return p.cur.onListContinuationElement396()
 }
 
-func (c *current) onListContinuationElement393() (interface{}, error) {
+func (c *current) onListContinuationElement399() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement393() (interface{}, error) {
+func (p *parser) callonListContinuationElement399() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement393()
+	return p.cur.onListContinuationElement399()
 }
 
-func (c *current) onListContinuationElement381(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement387(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement381() (interface{}, error) {
+func (p *parser) callonListContinuationElement387() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement381(stack["delimiter"])
+	return p.cur.onListContinuationElement387(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement400(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement406(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement400() (bool, error) {
+func (p *parser) callonListContinuationElement406() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement400(stack["start"])
+	return p.cur.onListContinuationElement406(stack["start"])
 }
 
-func (c *current) onListContinuationElement412() (interface{}, error) {
+func (c *current) onListContinuationElement418() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement412() (interface{}, error) {
+func (p *parser) callonListContinuationElement418() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement412()
+	return p.cur.onListContinuationElement418()
 }
 
-func (c *current) onListContinuationElement418() (interface{}, error) {
+func (c *current) onListContinuationElement424() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement418() (interface{}, error) {
+func (p *parser) callonListContinuationElement424() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement418()
+	return p.cur.onListContinuationElement424()
 }
 
-func (c *current) onListContinuationElement421() (interface{}, error) {
+func (c *current) onListContinuationElement427() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement421() (interface{}, error) {
+func (p *parser) callonListContinuationElement427() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement421()
+	return p.cur.onListContinuationElement427()
 }
 
-func (c *current) onListContinuationElement409(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement415(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement409() (interface{}, error) {
+func (p *parser) callonListContinuationElement415() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement409(stack["delimiter"])
+	return p.cur.onListContinuationElement415(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement428(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement434(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement428() (bool, error) {
+func (p *parser) callonListContinuationElement434() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement428(stack["end"])
+	return p.cur.onListContinuationElement434(stack["end"])
 }
 
-func (c *current) onListContinuationElement437() (interface{}, error) {
+func (c *current) onListContinuationElement443() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement437() (interface{}, error) {
+func (p *parser) callonListContinuationElement443() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement437()
+	return p.cur.onListContinuationElement443()
 }
 
-func (c *current) onListContinuationElement441() (interface{}, error) {
+func (c *current) onListContinuationElement447() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement441() (interface{}, error) {
+func (p *parser) callonListContinuationElement447() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement441()
+	return p.cur.onListContinuationElement447()
 }
 
-func (c *current) onListContinuationElement432(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement438(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement432() (interface{}, error) {
+func (p *parser) callonListContinuationElement438() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement432(stack["content"])
+	return p.cur.onListContinuationElement438(stack["content"])
 }
 
-func (c *current) onListContinuationElement403(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement409(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement403() (interface{}, error) {
+func (p *parser) callonListContinuationElement409() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement403(stack["line"])
+	return p.cur.onListContinuationElement409(stack["line"])
 }
 
-func (c *current) onListContinuationElement456() (interface{}, error) {
+func (c *current) onListContinuationElement462() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement456() (interface{}, error) {
+func (p *parser) callonListContinuationElement462() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement456()
+	return p.cur.onListContinuationElement462()
 }
 
-func (c *current) onListContinuationElement462() (interface{}, error) {
+func (c *current) onListContinuationElement468() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement462() (interface{}, error) {
+func (p *parser) callonListContinuationElement468() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement462()
+	return p.cur.onListContinuationElement468()
 }
 
-func (c *current) onListContinuationElement465() (interface{}, error) {
+func (c *current) onListContinuationElement471() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement465() (interface{}, error) {
+func (p *parser) callonListContinuationElement471() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement465()
+	return p.cur.onListContinuationElement471()
 }
 
-func (c *current) onListContinuationElement453(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement459(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement453() (interface{}, error) {
+func (p *parser) callonListContinuationElement459() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement453(stack["delimiter"])
+	return p.cur.onListContinuationElement459(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement472(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement478(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement472() (bool, error) {
+func (p *parser) callonListContinuationElement478() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement472(stack["end"])
+	return p.cur.onListContinuationElement478(stack["end"])
 }
 
-func (c *current) onListContinuationElement378(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement384(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Example, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement378() (interface{}, error) {
+func (p *parser) callonListContinuationElement384() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement378(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement384(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement482() (interface{}, error) {
+func (c *current) onListContinuationElement488() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement482() (interface{}, error) {
+func (p *parser) callonListContinuationElement488() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement482()
+	return p.cur.onListContinuationElement488()
 }
 
-func (c *current) onListContinuationElement486() (interface{}, error) {
+func (c *current) onListContinuationElement492() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement486() (interface{}, error) {
+func (p *parser) callonListContinuationElement492() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement486()
+	return p.cur.onListContinuationElement492()
 }
 
-func (c *current) onListContinuationElement489() (interface{}, error) {
+func (c *current) onListContinuationElement495() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement489() (interface{}, error) {
+func (p *parser) callonListContinuationElement495() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement489()
+	return p.cur.onListContinuationElement495()
 }
 
-func (c *current) onListContinuationElement478(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement484(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement478() (interface{}, error) {
+func (p *parser) callonListContinuationElement484() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement478(stack["language"])
+	return p.cur.onListContinuationElement484(stack["language"])
 }
 
-func (c *current) onListContinuationElement504() (interface{}, error) {
+func (c *current) onListContinuationElement510() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement504() (interface{}, error) {
+func (p *parser) callonListContinuationElement510() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement504()
+	return p.cur.onListContinuationElement510()
 }
 
-func (c *current) onListContinuationElement507() (interface{}, error) {
+func (c *current) onListContinuationElement513() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement507() (interface{}, error) {
+func (p *parser) callonListContinuationElement513() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement507()
+	return p.cur.onListContinuationElement513()
 }
 
-func (c *current) onListContinuationElement520() (interface{}, error) {
+func (c *current) onListContinuationElement526() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement520() (interface{}, error) {
+func (p *parser) callonListContinuationElement526() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement520()
+	return p.cur.onListContinuationElement526()
 }
 
-func (c *current) onListContinuationElement524() (interface{}, error) {
+func (c *current) onListContinuationElement530() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement524() (interface{}, error) {
+func (p *parser) callonListContinuationElement530() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement524()
+	return p.cur.onListContinuationElement530()
 }
 
-func (c *current) onListContinuationElement515(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement521(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement515() (interface{}, error) {
+func (p *parser) callonListContinuationElement521() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement515(stack["content"])
+	return p.cur.onListContinuationElement521(stack["content"])
 }
 
-func (c *current) onListContinuationElement498(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement504(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement498() (interface{}, error) {
+func (p *parser) callonListContinuationElement504() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement498(stack["line"])
+	return p.cur.onListContinuationElement504(stack["line"])
 }
 
-func (c *current) onListContinuationElement535() (interface{}, error) {
+func (c *current) onListContinuationElement541() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement535() (interface{}, error) {
+func (p *parser) callonListContinuationElement541() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement535()
+	return p.cur.onListContinuationElement541()
 }
 
-func (c *current) onListContinuationElement538() (interface{}, error) {
+func (c *current) onListContinuationElement544() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement538() (interface{}, error) {
+func (p *parser) callonListContinuationElement544() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement538()
+	return p.cur.onListContinuationElement544()
 }
 
-func (c *current) onListContinuationElement475(delimiter, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement481(delimiter, content interface{}) (interface{}, error) {
 	// Markdown code with fences is a "listing/source" block in Asciidoc
 	b, err := types.NewDelimitedBlock(types.Listing, content.([]interface{}))
 	b.AddAttributes(delimiter.(*types.BlockDelimiter).Attributes)
@@ -65328,2603 +65496,2603 @@ func (c *current) onListContinuationElement475(delimiter, content interface{}) (
 
 }
 
-func (p *parser) callonListContinuationElement475() (interface{}, error) {
+func (p *parser) callonListContinuationElement481() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement475(stack["delimiter"], stack["content"])
+	return p.cur.onListContinuationElement481(stack["delimiter"], stack["content"])
 }
 
-func (c *current) onListContinuationElement551() (interface{}, error) {
+func (c *current) onListContinuationElement557() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement551() (interface{}, error) {
+func (p *parser) callonListContinuationElement557() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement551()
+	return p.cur.onListContinuationElement557()
 }
 
-func (c *current) onListContinuationElement557() (interface{}, error) {
+func (c *current) onListContinuationElement563() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement557() (interface{}, error) {
+func (p *parser) callonListContinuationElement563() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement557()
+	return p.cur.onListContinuationElement563()
 }
 
-func (c *current) onListContinuationElement560() (interface{}, error) {
+func (c *current) onListContinuationElement566() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement560() (interface{}, error) {
+func (p *parser) callonListContinuationElement566() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement560()
+	return p.cur.onListContinuationElement566()
 }
 
-func (c *current) onListContinuationElement548(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement554(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement548() (interface{}, error) {
+func (p *parser) callonListContinuationElement554() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement548(stack["delimiter"])
+	return p.cur.onListContinuationElement554(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement567(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement573(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement567() (bool, error) {
+func (p *parser) callonListContinuationElement573() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement567(stack["start"])
+	return p.cur.onListContinuationElement573(stack["start"])
 }
 
-func (c *current) onListContinuationElement579() (interface{}, error) {
+func (c *current) onListContinuationElement585() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement579() (interface{}, error) {
+func (p *parser) callonListContinuationElement585() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement579()
+	return p.cur.onListContinuationElement585()
 }
 
-func (c *current) onListContinuationElement585() (interface{}, error) {
+func (c *current) onListContinuationElement591() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement585() (interface{}, error) {
+func (p *parser) callonListContinuationElement591() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement585()
+	return p.cur.onListContinuationElement591()
 }
 
-func (c *current) onListContinuationElement588() (interface{}, error) {
+func (c *current) onListContinuationElement594() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement588() (interface{}, error) {
+func (p *parser) callonListContinuationElement594() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement588()
+	return p.cur.onListContinuationElement594()
 }
 
-func (c *current) onListContinuationElement576(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement582(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement576() (interface{}, error) {
+func (p *parser) callonListContinuationElement582() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement576(stack["delimiter"])
+	return p.cur.onListContinuationElement582(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement595(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement601(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement595() (bool, error) {
+func (p *parser) callonListContinuationElement601() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement595(stack["end"])
+	return p.cur.onListContinuationElement601(stack["end"])
 }
 
-func (c *current) onListContinuationElement604() (interface{}, error) {
+func (c *current) onListContinuationElement610() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement604() (interface{}, error) {
+func (p *parser) callonListContinuationElement610() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement604()
+	return p.cur.onListContinuationElement610()
 }
 
-func (c *current) onListContinuationElement608() (interface{}, error) {
+func (c *current) onListContinuationElement614() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement608() (interface{}, error) {
+func (p *parser) callonListContinuationElement614() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement608()
+	return p.cur.onListContinuationElement614()
 }
 
-func (c *current) onListContinuationElement599(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement605(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement599() (interface{}, error) {
+func (p *parser) callonListContinuationElement605() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement599(stack["content"])
+	return p.cur.onListContinuationElement605(stack["content"])
 }
 
-func (c *current) onListContinuationElement570(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement576(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement570() (interface{}, error) {
+func (p *parser) callonListContinuationElement576() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement570(stack["line"])
+	return p.cur.onListContinuationElement576(stack["line"])
 }
 
-func (c *current) onListContinuationElement623() (interface{}, error) {
+func (c *current) onListContinuationElement629() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement623() (interface{}, error) {
+func (p *parser) callonListContinuationElement629() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement623()
+	return p.cur.onListContinuationElement629()
 }
 
-func (c *current) onListContinuationElement629() (interface{}, error) {
+func (c *current) onListContinuationElement635() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement629() (interface{}, error) {
+func (p *parser) callonListContinuationElement635() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement629()
+	return p.cur.onListContinuationElement635()
 }
 
-func (c *current) onListContinuationElement632() (interface{}, error) {
+func (c *current) onListContinuationElement638() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement632() (interface{}, error) {
+func (p *parser) callonListContinuationElement638() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement632()
+	return p.cur.onListContinuationElement638()
 }
 
-func (c *current) onListContinuationElement620(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement626(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement620() (interface{}, error) {
+func (p *parser) callonListContinuationElement626() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement620(stack["delimiter"])
+	return p.cur.onListContinuationElement626(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement639(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement645(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement639() (bool, error) {
+func (p *parser) callonListContinuationElement645() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement639(stack["end"])
+	return p.cur.onListContinuationElement645(stack["end"])
 }
 
-func (c *current) onListContinuationElement545(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement551(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Fenced, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement545() (interface{}, error) {
+func (p *parser) callonListContinuationElement551() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement545(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement551(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement648() (interface{}, error) {
+func (c *current) onListContinuationElement654() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement648() (interface{}, error) {
+func (p *parser) callonListContinuationElement654() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement648()
+	return p.cur.onListContinuationElement654()
 }
 
-func (c *current) onListContinuationElement654() (interface{}, error) {
+func (c *current) onListContinuationElement660() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement654() (interface{}, error) {
+func (p *parser) callonListContinuationElement660() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement654()
+	return p.cur.onListContinuationElement660()
 }
 
-func (c *current) onListContinuationElement657() (interface{}, error) {
+func (c *current) onListContinuationElement663() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement657() (interface{}, error) {
+func (p *parser) callonListContinuationElement663() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement657()
+	return p.cur.onListContinuationElement663()
 }
 
-func (c *current) onListContinuationElement645(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement651(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement645() (interface{}, error) {
+func (p *parser) callonListContinuationElement651() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement645(stack["delimiter"])
+	return p.cur.onListContinuationElement651(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement664(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement670(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement664() (bool, error) {
+func (p *parser) callonListContinuationElement670() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement664(stack["start"])
+	return p.cur.onListContinuationElement670(stack["start"])
 }
 
-func (c *current) onListContinuationElement676() (interface{}, error) {
+func (c *current) onListContinuationElement682() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement676() (interface{}, error) {
+func (p *parser) callonListContinuationElement682() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement676()
+	return p.cur.onListContinuationElement682()
 }
 
-func (c *current) onListContinuationElement682() (interface{}, error) {
+func (c *current) onListContinuationElement688() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement682() (interface{}, error) {
+func (p *parser) callonListContinuationElement688() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement682()
+	return p.cur.onListContinuationElement688()
 }
 
-func (c *current) onListContinuationElement685() (interface{}, error) {
+func (c *current) onListContinuationElement691() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement685() (interface{}, error) {
+func (p *parser) callonListContinuationElement691() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement685()
+	return p.cur.onListContinuationElement691()
 }
 
-func (c *current) onListContinuationElement673(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement679(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement673() (interface{}, error) {
+func (p *parser) callonListContinuationElement679() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement673(stack["delimiter"])
+	return p.cur.onListContinuationElement679(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement692(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement698(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement692() (bool, error) {
+func (p *parser) callonListContinuationElement698() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement692(stack["end"])
+	return p.cur.onListContinuationElement698(stack["end"])
 }
 
-func (c *current) onListContinuationElement701() (interface{}, error) {
+func (c *current) onListContinuationElement707() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement701() (interface{}, error) {
+func (p *parser) callonListContinuationElement707() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement701()
+	return p.cur.onListContinuationElement707()
 }
 
-func (c *current) onListContinuationElement705() (interface{}, error) {
+func (c *current) onListContinuationElement711() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement705() (interface{}, error) {
+func (p *parser) callonListContinuationElement711() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement705()
+	return p.cur.onListContinuationElement711()
 }
 
-func (c *current) onListContinuationElement696(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement702(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement696() (interface{}, error) {
+func (p *parser) callonListContinuationElement702() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement696(stack["content"])
+	return p.cur.onListContinuationElement702(stack["content"])
 }
 
-func (c *current) onListContinuationElement667(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement673(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement667() (interface{}, error) {
+func (p *parser) callonListContinuationElement673() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement667(stack["line"])
+	return p.cur.onListContinuationElement673(stack["line"])
 }
 
-func (c *current) onListContinuationElement720() (interface{}, error) {
+func (c *current) onListContinuationElement726() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement720() (interface{}, error) {
+func (p *parser) callonListContinuationElement726() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement720()
+	return p.cur.onListContinuationElement726()
 }
 
-func (c *current) onListContinuationElement726() (interface{}, error) {
+func (c *current) onListContinuationElement732() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement726() (interface{}, error) {
+func (p *parser) callonListContinuationElement732() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement726()
+	return p.cur.onListContinuationElement732()
 }
 
-func (c *current) onListContinuationElement729() (interface{}, error) {
+func (c *current) onListContinuationElement735() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement729() (interface{}, error) {
+func (p *parser) callonListContinuationElement735() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement729()
+	return p.cur.onListContinuationElement735()
 }
 
-func (c *current) onListContinuationElement717(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement723(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement717() (interface{}, error) {
+func (p *parser) callonListContinuationElement723() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement717(stack["delimiter"])
+	return p.cur.onListContinuationElement723(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement736(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement742(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement736() (bool, error) {
+func (p *parser) callonListContinuationElement742() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement736(stack["end"])
+	return p.cur.onListContinuationElement742(stack["end"])
 }
 
-func (c *current) onListContinuationElement642(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement648(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Listing, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement642() (interface{}, error) {
+func (p *parser) callonListContinuationElement648() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement642(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement648(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement745() (interface{}, error) {
+func (c *current) onListContinuationElement751() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement745() (interface{}, error) {
+func (p *parser) callonListContinuationElement751() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement745()
+	return p.cur.onListContinuationElement751()
 }
 
-func (c *current) onListContinuationElement751() (interface{}, error) {
+func (c *current) onListContinuationElement757() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement751() (interface{}, error) {
+func (p *parser) callonListContinuationElement757() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement751()
+	return p.cur.onListContinuationElement757()
 }
 
-func (c *current) onListContinuationElement754() (interface{}, error) {
+func (c *current) onListContinuationElement760() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement754() (interface{}, error) {
+func (p *parser) callonListContinuationElement760() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement754()
+	return p.cur.onListContinuationElement760()
 }
 
-func (c *current) onListContinuationElement742(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement748(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement742() (interface{}, error) {
+func (p *parser) callonListContinuationElement748() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement742(stack["delimiter"])
+	return p.cur.onListContinuationElement748(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement761(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement767(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement761() (bool, error) {
+func (p *parser) callonListContinuationElement767() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement761(stack["start"])
+	return p.cur.onListContinuationElement767(stack["start"])
 }
 
-func (c *current) onListContinuationElement773() (interface{}, error) {
+func (c *current) onListContinuationElement779() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement773() (interface{}, error) {
+func (p *parser) callonListContinuationElement779() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement773()
+	return p.cur.onListContinuationElement779()
 }
 
-func (c *current) onListContinuationElement779() (interface{}, error) {
+func (c *current) onListContinuationElement785() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement779() (interface{}, error) {
+func (p *parser) callonListContinuationElement785() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement779()
+	return p.cur.onListContinuationElement785()
 }
 
-func (c *current) onListContinuationElement782() (interface{}, error) {
+func (c *current) onListContinuationElement788() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement782() (interface{}, error) {
+func (p *parser) callonListContinuationElement788() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement782()
+	return p.cur.onListContinuationElement788()
 }
 
-func (c *current) onListContinuationElement770(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement776(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement770() (interface{}, error) {
+func (p *parser) callonListContinuationElement776() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement770(stack["delimiter"])
+	return p.cur.onListContinuationElement776(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement789(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement795(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement789() (bool, error) {
+func (p *parser) callonListContinuationElement795() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement789(stack["end"])
+	return p.cur.onListContinuationElement795(stack["end"])
 }
 
-func (c *current) onListContinuationElement798() (interface{}, error) {
+func (c *current) onListContinuationElement804() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement798() (interface{}, error) {
+func (p *parser) callonListContinuationElement804() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement798()
+	return p.cur.onListContinuationElement804()
 }
 
-func (c *current) onListContinuationElement802() (interface{}, error) {
+func (c *current) onListContinuationElement808() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement802() (interface{}, error) {
+func (p *parser) callonListContinuationElement808() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement802()
+	return p.cur.onListContinuationElement808()
 }
 
-func (c *current) onListContinuationElement793(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement799(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement793() (interface{}, error) {
+func (p *parser) callonListContinuationElement799() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement793(stack["content"])
+	return p.cur.onListContinuationElement799(stack["content"])
 }
 
-func (c *current) onListContinuationElement764(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement770(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement764() (interface{}, error) {
+func (p *parser) callonListContinuationElement770() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement764(stack["line"])
+	return p.cur.onListContinuationElement770(stack["line"])
 }
 
-func (c *current) onListContinuationElement817() (interface{}, error) {
+func (c *current) onListContinuationElement823() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement817() (interface{}, error) {
+func (p *parser) callonListContinuationElement823() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement817()
+	return p.cur.onListContinuationElement823()
 }
 
-func (c *current) onListContinuationElement823() (interface{}, error) {
+func (c *current) onListContinuationElement829() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement823() (interface{}, error) {
+func (p *parser) callonListContinuationElement829() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement823()
+	return p.cur.onListContinuationElement829()
 }
 
-func (c *current) onListContinuationElement826() (interface{}, error) {
+func (c *current) onListContinuationElement832() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement826() (interface{}, error) {
+func (p *parser) callonListContinuationElement832() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement826()
+	return p.cur.onListContinuationElement832()
 }
 
-func (c *current) onListContinuationElement814(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement820(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement814() (interface{}, error) {
+func (p *parser) callonListContinuationElement820() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement814(stack["delimiter"])
+	return p.cur.onListContinuationElement820(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement833(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement839(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement833() (bool, error) {
+func (p *parser) callonListContinuationElement839() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement833(stack["end"])
+	return p.cur.onListContinuationElement839(stack["end"])
 }
 
-func (c *current) onListContinuationElement739(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement745(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Literal, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement739() (interface{}, error) {
+func (p *parser) callonListContinuationElement745() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement739(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement745(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement847() (interface{}, error) {
+func (c *current) onListContinuationElement853() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement847() (interface{}, error) {
+func (p *parser) callonListContinuationElement853() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement847()
+	return p.cur.onListContinuationElement853()
 }
 
-func (c *current) onListContinuationElement850() (interface{}, error) {
+func (c *current) onListContinuationElement856() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement850() (interface{}, error) {
+func (p *parser) callonListContinuationElement856() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement850()
+	return p.cur.onListContinuationElement856()
 }
 
-func (c *current) onListContinuationElement842() (interface{}, error) {
+func (c *current) onListContinuationElement848() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement842() (interface{}, error) {
+func (p *parser) callonListContinuationElement848() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement842()
+	return p.cur.onListContinuationElement848()
 }
 
-func (c *current) onListContinuationElement859() (interface{}, error) {
+func (c *current) onListContinuationElement865() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement859() (interface{}, error) {
+func (p *parser) callonListContinuationElement865() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement859()
+	return p.cur.onListContinuationElement865()
 }
 
-func (c *current) onListContinuationElement863() (interface{}, error) {
+func (c *current) onListContinuationElement869() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement863() (interface{}, error) {
+func (p *parser) callonListContinuationElement869() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement863()
+	return p.cur.onListContinuationElement869()
 }
 
-func (c *current) onListContinuationElement839(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement845(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement839() (interface{}, error) {
+func (p *parser) callonListContinuationElement845() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement839(stack["content"])
+	return p.cur.onListContinuationElement845(stack["content"])
 }
 
-func (c *current) onListContinuationElement881() (interface{}, error) {
+func (c *current) onListContinuationElement887() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement881() (interface{}, error) {
+func (p *parser) callonListContinuationElement887() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement881()
+	return p.cur.onListContinuationElement887()
 }
 
-func (c *current) onListContinuationElement884() (interface{}, error) {
+func (c *current) onListContinuationElement890() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement884() (interface{}, error) {
+func (p *parser) callonListContinuationElement890() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement884()
+	return p.cur.onListContinuationElement890()
 }
 
-func (c *current) onListContinuationElement876() (interface{}, error) {
+func (c *current) onListContinuationElement882() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement876() (interface{}, error) {
+func (p *parser) callonListContinuationElement882() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement876()
+	return p.cur.onListContinuationElement882()
 }
 
-func (c *current) onListContinuationElement893() (interface{}, error) {
+func (c *current) onListContinuationElement899() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement893() (interface{}, error) {
+func (p *parser) callonListContinuationElement899() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement893()
+	return p.cur.onListContinuationElement899()
 }
 
-func (c *current) onListContinuationElement897() (interface{}, error) {
+func (c *current) onListContinuationElement903() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement897() (interface{}, error) {
+func (p *parser) callonListContinuationElement903() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement897()
+	return p.cur.onListContinuationElement903()
 }
 
-func (c *current) onListContinuationElement873(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement879(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement873() (interface{}, error) {
+func (p *parser) callonListContinuationElement879() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement873(stack["content"])
+	return p.cur.onListContinuationElement879(stack["content"])
 }
 
-func (c *current) onListContinuationElement907() (interface{}, error) {
+func (c *current) onListContinuationElement913() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement907() (interface{}, error) {
+func (p *parser) callonListContinuationElement913() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement907()
+	return p.cur.onListContinuationElement913()
 }
 
-func (c *current) onListContinuationElement910(content interface{}) (bool, error) {
+func (c *current) onListContinuationElement916(content interface{}) (bool, error) {
 	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
 
 }
 
-func (p *parser) callonListContinuationElement910() (bool, error) {
+func (p *parser) callonListContinuationElement916() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement910(stack["content"])
+	return p.cur.onListContinuationElement916(stack["content"])
 }
 
-func (c *current) onListContinuationElement912() (interface{}, error) {
+func (c *current) onListContinuationElement918() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement912() (interface{}, error) {
+func (p *parser) callonListContinuationElement918() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement912()
+	return p.cur.onListContinuationElement918()
 }
 
-func (c *current) onListContinuationElement904(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement910(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement904() (interface{}, error) {
+func (p *parser) callonListContinuationElement910() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement904(stack["content"])
+	return p.cur.onListContinuationElement910(stack["content"])
 }
 
-func (c *current) onListContinuationElement836(firstLine, otherLines interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement842(firstLine, otherLines interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.MarkdownQuote, append([]interface{}{firstLine}, otherLines.([]interface{})...))
 
 }
 
-func (p *parser) callonListContinuationElement836() (interface{}, error) {
+func (p *parser) callonListContinuationElement842() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement836(stack["firstLine"], stack["otherLines"])
+	return p.cur.onListContinuationElement842(stack["firstLine"], stack["otherLines"])
 }
 
-func (c *current) onListContinuationElement925() (interface{}, error) {
+func (c *current) onListContinuationElement931() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement925() (interface{}, error) {
+func (p *parser) callonListContinuationElement931() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement925()
+	return p.cur.onListContinuationElement931()
 }
 
-func (c *current) onListContinuationElement928() (interface{}, error) {
+func (c *current) onListContinuationElement934() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement928() (interface{}, error) {
+func (p *parser) callonListContinuationElement934() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement928()
+	return p.cur.onListContinuationElement934()
 }
 
-func (c *current) onListContinuationElement931() (interface{}, error) {
+func (c *current) onListContinuationElement937() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement931() (interface{}, error) {
+func (p *parser) callonListContinuationElement937() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement931()
+	return p.cur.onListContinuationElement937()
 }
 
-func (c *current) onListContinuationElement922(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement928(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement922() (interface{}, error) {
+func (p *parser) callonListContinuationElement928() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement922(stack["delimiter"])
+	return p.cur.onListContinuationElement928(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement947() (interface{}, error) {
+func (c *current) onListContinuationElement953() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement947() (interface{}, error) {
+func (p *parser) callonListContinuationElement953() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement947()
+	return p.cur.onListContinuationElement953()
 }
 
-func (c *current) onListContinuationElement950() (interface{}, error) {
+func (c *current) onListContinuationElement956() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement950() (interface{}, error) {
+func (p *parser) callonListContinuationElement956() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement950()
+	return p.cur.onListContinuationElement956()
 }
 
-func (c *current) onListContinuationElement953() (interface{}, error) {
+func (c *current) onListContinuationElement959() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement953() (interface{}, error) {
+func (p *parser) callonListContinuationElement959() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement953()
+	return p.cur.onListContinuationElement959()
 }
 
-func (c *current) onListContinuationElement944(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement950(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement944() (interface{}, error) {
+func (p *parser) callonListContinuationElement950() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement944(stack["delimiter"])
+	return p.cur.onListContinuationElement950(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement968() (interface{}, error) {
+func (c *current) onListContinuationElement974() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement968() (interface{}, error) {
+func (p *parser) callonListContinuationElement974() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement968()
+	return p.cur.onListContinuationElement974()
 }
 
-func (c *current) onListContinuationElement972() (interface{}, error) {
+func (c *current) onListContinuationElement978() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement972() (interface{}, error) {
+func (p *parser) callonListContinuationElement978() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement972()
+	return p.cur.onListContinuationElement978()
 }
 
-func (c *current) onListContinuationElement963(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement969(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement963() (interface{}, error) {
+func (p *parser) callonListContinuationElement969() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement963(stack["content"])
+	return p.cur.onListContinuationElement969(stack["content"])
 }
 
-func (c *current) onListContinuationElement940(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement946(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement940() (interface{}, error) {
+func (p *parser) callonListContinuationElement946() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement940(stack["line"])
+	return p.cur.onListContinuationElement946(stack["line"])
 }
 
-func (c *current) onListContinuationElement985() (interface{}, error) {
+func (c *current) onListContinuationElement991() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement985() (interface{}, error) {
+func (p *parser) callonListContinuationElement991() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement985()
+	return p.cur.onListContinuationElement991()
 }
 
-func (c *current) onListContinuationElement988() (interface{}, error) {
+func (c *current) onListContinuationElement994() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement988() (interface{}, error) {
+func (p *parser) callonListContinuationElement994() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement988()
+	return p.cur.onListContinuationElement994()
 }
 
-func (c *current) onListContinuationElement991() (interface{}, error) {
+func (c *current) onListContinuationElement997() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement991() (interface{}, error) {
+func (p *parser) callonListContinuationElement997() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement991()
+	return p.cur.onListContinuationElement997()
 }
 
-func (c *current) onListContinuationElement982(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement988(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement982() (interface{}, error) {
+func (p *parser) callonListContinuationElement988() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement982(stack["delimiter"])
+	return p.cur.onListContinuationElement988(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement919(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement925(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Open, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement919() (interface{}, error) {
+func (p *parser) callonListContinuationElement925() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement919(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement925(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1006() (interface{}, error) {
+func (c *current) onListContinuationElement1012() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1006() (interface{}, error) {
+func (p *parser) callonListContinuationElement1012() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1006()
+	return p.cur.onListContinuationElement1012()
 }
 
-func (c *current) onListContinuationElement1012() (interface{}, error) {
+func (c *current) onListContinuationElement1018() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1012() (interface{}, error) {
+func (p *parser) callonListContinuationElement1018() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1012()
+	return p.cur.onListContinuationElement1018()
 }
 
-func (c *current) onListContinuationElement1015() (interface{}, error) {
+func (c *current) onListContinuationElement1021() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1015() (interface{}, error) {
+func (p *parser) callonListContinuationElement1021() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1015()
+	return p.cur.onListContinuationElement1021()
 }
 
-func (c *current) onListContinuationElement1003(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1009(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1003() (interface{}, error) {
+func (p *parser) callonListContinuationElement1009() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1003(stack["delimiter"])
+	return p.cur.onListContinuationElement1009(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1022(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement1028(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1022() (bool, error) {
+func (p *parser) callonListContinuationElement1028() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1022(stack["start"])
+	return p.cur.onListContinuationElement1028(stack["start"])
 }
 
-func (c *current) onListContinuationElement1034() (interface{}, error) {
+func (c *current) onListContinuationElement1040() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1034() (interface{}, error) {
+func (p *parser) callonListContinuationElement1040() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1034()
+	return p.cur.onListContinuationElement1040()
 }
 
-func (c *current) onListContinuationElement1040() (interface{}, error) {
+func (c *current) onListContinuationElement1046() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1040() (interface{}, error) {
+func (p *parser) callonListContinuationElement1046() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1040()
+	return p.cur.onListContinuationElement1046()
 }
 
-func (c *current) onListContinuationElement1043() (interface{}, error) {
+func (c *current) onListContinuationElement1049() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1043() (interface{}, error) {
+func (p *parser) callonListContinuationElement1049() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1043()
+	return p.cur.onListContinuationElement1049()
 }
 
-func (c *current) onListContinuationElement1031(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1037(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1031() (interface{}, error) {
+func (p *parser) callonListContinuationElement1037() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1031(stack["delimiter"])
+	return p.cur.onListContinuationElement1037(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1050(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1056(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1050() (bool, error) {
+func (p *parser) callonListContinuationElement1056() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1050(stack["end"])
+	return p.cur.onListContinuationElement1056(stack["end"])
 }
 
-func (c *current) onListContinuationElement1059() (interface{}, error) {
+func (c *current) onListContinuationElement1065() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1059() (interface{}, error) {
+func (p *parser) callonListContinuationElement1065() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1059()
+	return p.cur.onListContinuationElement1065()
 }
 
-func (c *current) onListContinuationElement1063() (interface{}, error) {
+func (c *current) onListContinuationElement1069() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1063() (interface{}, error) {
+func (p *parser) callonListContinuationElement1069() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1063()
+	return p.cur.onListContinuationElement1069()
 }
 
-func (c *current) onListContinuationElement1054(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1060(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1054() (interface{}, error) {
+func (p *parser) callonListContinuationElement1060() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1054(stack["content"])
+	return p.cur.onListContinuationElement1060(stack["content"])
 }
 
-func (c *current) onListContinuationElement1025(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1031(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement1025() (interface{}, error) {
+func (p *parser) callonListContinuationElement1031() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1025(stack["line"])
+	return p.cur.onListContinuationElement1031(stack["line"])
 }
 
-func (c *current) onListContinuationElement1078() (interface{}, error) {
+func (c *current) onListContinuationElement1084() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1078() (interface{}, error) {
+func (p *parser) callonListContinuationElement1084() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1078()
+	return p.cur.onListContinuationElement1084()
 }
 
-func (c *current) onListContinuationElement1084() (interface{}, error) {
+func (c *current) onListContinuationElement1090() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1084() (interface{}, error) {
+func (p *parser) callonListContinuationElement1090() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1084()
+	return p.cur.onListContinuationElement1090()
 }
 
-func (c *current) onListContinuationElement1087() (interface{}, error) {
+func (c *current) onListContinuationElement1093() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1087() (interface{}, error) {
+func (p *parser) callonListContinuationElement1093() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1087()
+	return p.cur.onListContinuationElement1093()
 }
 
-func (c *current) onListContinuationElement1075(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1081(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1075() (interface{}, error) {
+func (p *parser) callonListContinuationElement1081() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1075(stack["delimiter"])
+	return p.cur.onListContinuationElement1081(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1094(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1100(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1094() (bool, error) {
+func (p *parser) callonListContinuationElement1100() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1094(stack["end"])
+	return p.cur.onListContinuationElement1100(stack["end"])
 }
 
-func (c *current) onListContinuationElement1000(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1006(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Passthrough, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1000() (interface{}, error) {
+func (p *parser) callonListContinuationElement1006() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1000(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement1006(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1103() (interface{}, error) {
+func (c *current) onListContinuationElement1109() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1103() (interface{}, error) {
+func (p *parser) callonListContinuationElement1109() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1103()
+	return p.cur.onListContinuationElement1109()
 }
 
-func (c *current) onListContinuationElement1109() (interface{}, error) {
+func (c *current) onListContinuationElement1115() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1109() (interface{}, error) {
+func (p *parser) callonListContinuationElement1115() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1109()
+	return p.cur.onListContinuationElement1115()
 }
 
-func (c *current) onListContinuationElement1112() (interface{}, error) {
+func (c *current) onListContinuationElement1118() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1112() (interface{}, error) {
+func (p *parser) callonListContinuationElement1118() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1112()
+	return p.cur.onListContinuationElement1118()
 }
 
-func (c *current) onListContinuationElement1100(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1106(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1100() (interface{}, error) {
+func (p *parser) callonListContinuationElement1106() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1100(stack["delimiter"])
+	return p.cur.onListContinuationElement1106(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1119(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement1125(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1119() (bool, error) {
+func (p *parser) callonListContinuationElement1125() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1119(stack["start"])
+	return p.cur.onListContinuationElement1125(stack["start"])
 }
 
-func (c *current) onListContinuationElement1131() (interface{}, error) {
+func (c *current) onListContinuationElement1137() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1131() (interface{}, error) {
+func (p *parser) callonListContinuationElement1137() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1131()
+	return p.cur.onListContinuationElement1137()
 }
 
-func (c *current) onListContinuationElement1137() (interface{}, error) {
+func (c *current) onListContinuationElement1143() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1137() (interface{}, error) {
+func (p *parser) callonListContinuationElement1143() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1137()
+	return p.cur.onListContinuationElement1143()
 }
 
-func (c *current) onListContinuationElement1140() (interface{}, error) {
+func (c *current) onListContinuationElement1146() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1140() (interface{}, error) {
+func (p *parser) callonListContinuationElement1146() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1140()
+	return p.cur.onListContinuationElement1146()
 }
 
-func (c *current) onListContinuationElement1128(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1134(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1128() (interface{}, error) {
+func (p *parser) callonListContinuationElement1134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1128(stack["delimiter"])
+	return p.cur.onListContinuationElement1134(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1147(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1153(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1147() (bool, error) {
+func (p *parser) callonListContinuationElement1153() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1147(stack["end"])
+	return p.cur.onListContinuationElement1153(stack["end"])
 }
 
-func (c *current) onListContinuationElement1156() (interface{}, error) {
+func (c *current) onListContinuationElement1162() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1156() (interface{}, error) {
+func (p *parser) callonListContinuationElement1162() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1156()
+	return p.cur.onListContinuationElement1162()
 }
 
-func (c *current) onListContinuationElement1160() (interface{}, error) {
+func (c *current) onListContinuationElement1166() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1160() (interface{}, error) {
+func (p *parser) callonListContinuationElement1166() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1160()
+	return p.cur.onListContinuationElement1166()
 }
 
-func (c *current) onListContinuationElement1151(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1157(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1151() (interface{}, error) {
+func (p *parser) callonListContinuationElement1157() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1151(stack["content"])
+	return p.cur.onListContinuationElement1157(stack["content"])
 }
 
-func (c *current) onListContinuationElement1122(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1128(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement1122() (interface{}, error) {
+func (p *parser) callonListContinuationElement1128() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1122(stack["line"])
+	return p.cur.onListContinuationElement1128(stack["line"])
 }
 
-func (c *current) onListContinuationElement1175() (interface{}, error) {
+func (c *current) onListContinuationElement1181() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1175() (interface{}, error) {
+func (p *parser) callonListContinuationElement1181() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1175()
+	return p.cur.onListContinuationElement1181()
 }
 
-func (c *current) onListContinuationElement1181() (interface{}, error) {
+func (c *current) onListContinuationElement1187() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1181() (interface{}, error) {
+func (p *parser) callonListContinuationElement1187() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1181()
+	return p.cur.onListContinuationElement1187()
 }
 
-func (c *current) onListContinuationElement1184() (interface{}, error) {
+func (c *current) onListContinuationElement1190() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1184() (interface{}, error) {
+func (p *parser) callonListContinuationElement1190() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1184()
+	return p.cur.onListContinuationElement1190()
 }
 
-func (c *current) onListContinuationElement1172(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1178(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1172() (interface{}, error) {
+func (p *parser) callonListContinuationElement1178() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1172(stack["delimiter"])
+	return p.cur.onListContinuationElement1178(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1191(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1197(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1191() (bool, error) {
+func (p *parser) callonListContinuationElement1197() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1191(stack["end"])
+	return p.cur.onListContinuationElement1197(stack["end"])
 }
 
-func (c *current) onListContinuationElement1097(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1103(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Quote, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1097() (interface{}, error) {
+func (p *parser) callonListContinuationElement1103() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1097(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement1103(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1200() (interface{}, error) {
+func (c *current) onListContinuationElement1206() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1200() (interface{}, error) {
+func (p *parser) callonListContinuationElement1206() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1200()
+	return p.cur.onListContinuationElement1206()
 }
 
-func (c *current) onListContinuationElement1206() (interface{}, error) {
+func (c *current) onListContinuationElement1212() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1206() (interface{}, error) {
+func (p *parser) callonListContinuationElement1212() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1206()
+	return p.cur.onListContinuationElement1212()
 }
 
-func (c *current) onListContinuationElement1209() (interface{}, error) {
+func (c *current) onListContinuationElement1215() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1209() (interface{}, error) {
+func (p *parser) callonListContinuationElement1215() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1209()
+	return p.cur.onListContinuationElement1215()
 }
 
-func (c *current) onListContinuationElement1197(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1203(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1197() (interface{}, error) {
+func (p *parser) callonListContinuationElement1203() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1197(stack["delimiter"])
+	return p.cur.onListContinuationElement1203(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1216(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement1222(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1216() (bool, error) {
+func (p *parser) callonListContinuationElement1222() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1216(stack["start"])
+	return p.cur.onListContinuationElement1222(stack["start"])
 }
 
-func (c *current) onListContinuationElement1228() (interface{}, error) {
+func (c *current) onListContinuationElement1234() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1228() (interface{}, error) {
+func (p *parser) callonListContinuationElement1234() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1228()
+	return p.cur.onListContinuationElement1234()
 }
 
-func (c *current) onListContinuationElement1234() (interface{}, error) {
+func (c *current) onListContinuationElement1240() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1234() (interface{}, error) {
+func (p *parser) callonListContinuationElement1240() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1234()
+	return p.cur.onListContinuationElement1240()
 }
 
-func (c *current) onListContinuationElement1237() (interface{}, error) {
+func (c *current) onListContinuationElement1243() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1237() (interface{}, error) {
+func (p *parser) callonListContinuationElement1243() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1237()
+	return p.cur.onListContinuationElement1243()
 }
 
-func (c *current) onListContinuationElement1225(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1231(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1225() (interface{}, error) {
+func (p *parser) callonListContinuationElement1231() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1225(stack["delimiter"])
+	return p.cur.onListContinuationElement1231(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1244(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1250(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1244() (bool, error) {
+func (p *parser) callonListContinuationElement1250() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1244(stack["end"])
+	return p.cur.onListContinuationElement1250(stack["end"])
 }
 
-func (c *current) onListContinuationElement1253() (interface{}, error) {
+func (c *current) onListContinuationElement1259() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1253() (interface{}, error) {
+func (p *parser) callonListContinuationElement1259() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1253()
+	return p.cur.onListContinuationElement1259()
 }
 
-func (c *current) onListContinuationElement1257() (interface{}, error) {
+func (c *current) onListContinuationElement1263() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1257() (interface{}, error) {
+func (p *parser) callonListContinuationElement1263() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1257()
+	return p.cur.onListContinuationElement1263()
 }
 
-func (c *current) onListContinuationElement1248(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1254(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1248() (interface{}, error) {
+func (p *parser) callonListContinuationElement1254() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1248(stack["content"])
+	return p.cur.onListContinuationElement1254(stack["content"])
 }
 
-func (c *current) onListContinuationElement1219(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1225(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement1219() (interface{}, error) {
+func (p *parser) callonListContinuationElement1225() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1219(stack["line"])
+	return p.cur.onListContinuationElement1225(stack["line"])
 }
 
-func (c *current) onListContinuationElement1272() (interface{}, error) {
+func (c *current) onListContinuationElement1278() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1272() (interface{}, error) {
+func (p *parser) callonListContinuationElement1278() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1272()
+	return p.cur.onListContinuationElement1278()
 }
 
-func (c *current) onListContinuationElement1278() (interface{}, error) {
+func (c *current) onListContinuationElement1284() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1278() (interface{}, error) {
+func (p *parser) callonListContinuationElement1284() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1278()
+	return p.cur.onListContinuationElement1284()
 }
 
-func (c *current) onListContinuationElement1281() (interface{}, error) {
+func (c *current) onListContinuationElement1287() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1281() (interface{}, error) {
+func (p *parser) callonListContinuationElement1287() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1281()
+	return p.cur.onListContinuationElement1287()
 }
 
-func (c *current) onListContinuationElement1269(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1275(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1269() (interface{}, error) {
+func (p *parser) callonListContinuationElement1275() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1269(stack["delimiter"])
+	return p.cur.onListContinuationElement1275(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1288(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1294(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1288() (bool, error) {
+func (p *parser) callonListContinuationElement1294() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1288(stack["end"])
+	return p.cur.onListContinuationElement1294(stack["end"])
 }
 
-func (c *current) onListContinuationElement1194(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1200(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Sidebar, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1194() (interface{}, error) {
+func (p *parser) callonListContinuationElement1200() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1194(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement1200(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1302() (interface{}, error) {
+func (c *current) onListContinuationElement1308() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1302() (interface{}, error) {
+func (p *parser) callonListContinuationElement1308() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1302()
+	return p.cur.onListContinuationElement1308()
 }
 
-func (c *current) onListContinuationElement1305() (interface{}, error) {
+func (c *current) onListContinuationElement1311() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1305() (interface{}, error) {
+func (p *parser) callonListContinuationElement1311() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1305()
+	return p.cur.onListContinuationElement1311()
 }
 
-func (c *current) onListContinuationElement1313() (interface{}, error) {
+func (c *current) onListContinuationElement1319() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1313() (interface{}, error) {
+func (p *parser) callonListContinuationElement1319() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1313()
+	return p.cur.onListContinuationElement1319()
 }
 
-func (c *current) onListContinuationElement1291() (interface{}, error) {
+func (c *current) onListContinuationElement1297() (interface{}, error) {
 
 	return types.NewThematicBreak()
 
 }
 
-func (p *parser) callonListContinuationElement1291() (interface{}, error) {
+func (p *parser) callonListContinuationElement1297() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1291()
+	return p.cur.onListContinuationElement1297()
 }
 
-func (c *current) onListContinuationElement1325() (interface{}, error) {
+func (c *current) onListContinuationElement1331() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1325() (interface{}, error) {
+func (p *parser) callonListContinuationElement1331() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1325()
+	return p.cur.onListContinuationElement1331()
 }
 
-func (c *current) onListContinuationElement1328() (interface{}, error) {
+func (c *current) onListContinuationElement1334() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1328() (interface{}, error) {
+func (p *parser) callonListContinuationElement1334() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1328()
+	return p.cur.onListContinuationElement1334()
 }
 
-func (c *current) onListContinuationElement1343() (interface{}, error) {
+func (c *current) onListContinuationElement1349() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1343() (interface{}, error) {
+func (p *parser) callonListContinuationElement1349() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1343()
+	return p.cur.onListContinuationElement1349()
 }
 
-func (c *current) onListContinuationElement1346() (interface{}, error) {
+func (c *current) onListContinuationElement1352() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1346() (interface{}, error) {
+func (p *parser) callonListContinuationElement1352() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1346()
+	return p.cur.onListContinuationElement1352()
 }
 
-func (c *current) onListContinuationElement1338() (interface{}, error) {
+func (c *current) onListContinuationElement1344() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1338() (interface{}, error) {
+func (p *parser) callonListContinuationElement1344() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1338()
+	return p.cur.onListContinuationElement1344()
 }
 
-func (c *current) onListContinuationElement1359() (interface{}, error) {
+func (c *current) onListContinuationElement1365() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1359() (interface{}, error) {
+func (p *parser) callonListContinuationElement1365() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1359()
+	return p.cur.onListContinuationElement1365()
 }
 
-func (c *current) onListContinuationElement1363() (interface{}, error) {
+func (c *current) onListContinuationElement1369() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1363() (interface{}, error) {
+func (p *parser) callonListContinuationElement1369() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1363()
+	return p.cur.onListContinuationElement1369()
 }
 
-func (c *current) onListContinuationElement1353(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1359(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1353() (interface{}, error) {
+func (p *parser) callonListContinuationElement1359() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1353(stack["content"])
+	return p.cur.onListContinuationElement1359(stack["content"])
 }
 
-func (c *current) onListContinuationElement1377() (interface{}, error) {
+func (c *current) onListContinuationElement1383() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1377() (interface{}, error) {
+func (p *parser) callonListContinuationElement1383() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1377()
+	return p.cur.onListContinuationElement1383()
 }
 
-func (c *current) onListContinuationElement1380() (interface{}, error) {
+func (c *current) onListContinuationElement1386() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1380() (interface{}, error) {
+func (p *parser) callonListContinuationElement1386() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1380()
+	return p.cur.onListContinuationElement1386()
 }
 
-func (c *current) onListContinuationElement1402() (interface{}, error) {
+func (c *current) onListContinuationElement1408() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1402() (interface{}, error) {
+func (p *parser) callonListContinuationElement1408() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1402()
+	return p.cur.onListContinuationElement1408()
 }
 
-func (c *current) onListContinuationElement1407() (interface{}, error) {
+func (c *current) onListContinuationElement1413() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1407() (interface{}, error) {
+func (p *parser) callonListContinuationElement1413() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1407()
+	return p.cur.onListContinuationElement1413()
 }
 
-func (c *current) onListContinuationElement1405(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1411(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1405() (interface{}, error) {
+func (p *parser) callonListContinuationElement1411() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1405(stack["content"])
+	return p.cur.onListContinuationElement1411(stack["content"])
 }
 
-func (c *current) onListContinuationElement1398(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1404(content interface{}) (interface{}, error) {
 	return types.NewInlineTableCell(content.(*types.RawLine))
 
 }
 
-func (p *parser) callonListContinuationElement1398() (interface{}, error) {
+func (p *parser) callonListContinuationElement1404() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1398(stack["content"])
+	return p.cur.onListContinuationElement1404(stack["content"])
 }
 
-func (c *current) onListContinuationElement1411() (interface{}, error) {
+func (c *current) onListContinuationElement1417() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1411() (interface{}, error) {
+func (p *parser) callonListContinuationElement1417() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1411()
+	return p.cur.onListContinuationElement1417()
 }
 
-func (c *current) onListContinuationElement1394(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1400(cells interface{}) (interface{}, error) {
 
 	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1394() (interface{}, error) {
+func (p *parser) callonListContinuationElement1400() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1394(stack["cells"])
+	return p.cur.onListContinuationElement1400(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1428() (interface{}, error) {
+func (c *current) onListContinuationElement1434() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1428() (interface{}, error) {
+func (p *parser) callonListContinuationElement1434() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1428()
+	return p.cur.onListContinuationElement1434()
 }
 
-func (c *current) onListContinuationElement1431() (interface{}, error) {
+func (c *current) onListContinuationElement1437() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1431() (interface{}, error) {
+func (p *parser) callonListContinuationElement1437() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1431()
+	return p.cur.onListContinuationElement1437()
 }
 
-func (c *current) onListContinuationElement1446() (interface{}, error) {
+func (c *current) onListContinuationElement1452() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1446() (interface{}, error) {
+func (p *parser) callonListContinuationElement1452() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1446()
+	return p.cur.onListContinuationElement1452()
 }
 
-func (c *current) onListContinuationElement1449() (interface{}, error) {
+func (c *current) onListContinuationElement1455() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1449() (interface{}, error) {
+func (p *parser) callonListContinuationElement1455() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1449()
+	return p.cur.onListContinuationElement1455()
 }
 
-func (c *current) onListContinuationElement1441() (interface{}, error) {
+func (c *current) onListContinuationElement1447() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1441() (interface{}, error) {
+func (p *parser) callonListContinuationElement1447() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1441()
+	return p.cur.onListContinuationElement1447()
 }
 
-func (c *current) onListContinuationElement1458() (interface{}, error) {
+func (c *current) onListContinuationElement1464() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1458() (interface{}, error) {
+func (p *parser) callonListContinuationElement1464() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1458()
+	return p.cur.onListContinuationElement1464()
 }
 
-func (c *current) onListContinuationElement1463() (interface{}, error) {
+func (c *current) onListContinuationElement1469() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1463() (interface{}, error) {
+func (p *parser) callonListContinuationElement1469() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1463()
+	return p.cur.onListContinuationElement1469()
 }
 
-func (c *current) onListContinuationElement1466() (interface{}, error) {
+func (c *current) onListContinuationElement1472() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1466() (interface{}, error) {
+func (p *parser) callonListContinuationElement1472() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1466()
+	return p.cur.onListContinuationElement1472()
 }
 
-func (c *current) onListContinuationElement1476() (bool, error) {
+func (c *current) onListContinuationElement1482() (bool, error) {
 	return c.isAtBeginningOfLine(), nil
 
 }
 
-func (p *parser) callonListContinuationElement1476() (bool, error) {
+func (p *parser) callonListContinuationElement1482() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1476()
+	return p.cur.onListContinuationElement1482()
 }
 
-func (c *current) onListContinuationElement1484() (interface{}, error) {
+func (c *current) onListContinuationElement1490() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1484() (interface{}, error) {
+func (p *parser) callonListContinuationElement1490() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1484()
+	return p.cur.onListContinuationElement1490()
 }
 
-func (c *current) onListContinuationElement1488() (interface{}, error) {
+func (c *current) onListContinuationElement1494() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1488() (interface{}, error) {
+func (p *parser) callonListContinuationElement1494() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1488()
+	return p.cur.onListContinuationElement1494()
 }
 
-func (c *current) onListContinuationElement1478(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1484(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1478() (interface{}, error) {
+func (p *parser) callonListContinuationElement1484() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1478(stack["content"])
+	return p.cur.onListContinuationElement1484(stack["content"])
 }
 
-func (c *current) onListContinuationElement1474(comment interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1480(comment interface{}) (interface{}, error) {
 	return comment, nil
 
 }
 
-func (p *parser) callonListContinuationElement1474() (interface{}, error) {
+func (p *parser) callonListContinuationElement1480() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1474(stack["comment"])
+	return p.cur.onListContinuationElement1480(stack["comment"])
 }
 
-func (c *current) onListContinuationElement1502() (interface{}, error) {
+func (c *current) onListContinuationElement1508() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1502() (interface{}, error) {
+func (p *parser) callonListContinuationElement1508() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1502()
+	return p.cur.onListContinuationElement1508()
 }
 
-func (c *current) onListContinuationElement1505() (interface{}, error) {
+func (c *current) onListContinuationElement1511() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1505() (interface{}, error) {
+func (p *parser) callonListContinuationElement1511() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1505()
+	return p.cur.onListContinuationElement1511()
 }
 
-func (c *current) onListContinuationElement1520() (interface{}, error) {
+func (c *current) onListContinuationElement1526() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1520() (interface{}, error) {
+func (p *parser) callonListContinuationElement1526() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1520()
+	return p.cur.onListContinuationElement1526()
 }
 
-func (c *current) onListContinuationElement1523() (interface{}, error) {
+func (c *current) onListContinuationElement1529() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1523() (interface{}, error) {
+func (p *parser) callonListContinuationElement1529() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1523()
+	return p.cur.onListContinuationElement1529()
 }
 
-func (c *current) onListContinuationElement1515() (interface{}, error) {
+func (c *current) onListContinuationElement1521() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1515() (interface{}, error) {
+func (p *parser) callonListContinuationElement1521() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1515()
+	return p.cur.onListContinuationElement1521()
 }
 
-func (c *current) onListContinuationElement1534() (interface{}, error) {
+func (c *current) onListContinuationElement1540() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1534() (interface{}, error) {
+func (p *parser) callonListContinuationElement1540() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1534()
+	return p.cur.onListContinuationElement1540()
 }
 
-func (c *current) onListContinuationElement1539() (interface{}, error) {
+func (c *current) onListContinuationElement1545() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1539() (interface{}, error) {
+func (p *parser) callonListContinuationElement1545() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1539()
+	return p.cur.onListContinuationElement1545()
 }
 
-func (c *current) onListContinuationElement1544() (interface{}, error) {
+func (c *current) onListContinuationElement1550() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1544() (interface{}, error) {
+func (p *parser) callonListContinuationElement1550() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1544()
+	return p.cur.onListContinuationElement1550()
 }
 
-func (c *current) onListContinuationElement1495(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1501(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1495() (interface{}, error) {
+func (p *parser) callonListContinuationElement1501() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1495(stack["content"])
+	return p.cur.onListContinuationElement1501(stack["content"])
 }
 
-func (c *current) onListContinuationElement1421(format, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1427(format, content interface{}) (interface{}, error) {
 	return types.NewMultilineTableCell(content.([]interface{}), format)
 
 }
 
-func (p *parser) callonListContinuationElement1421() (interface{}, error) {
+func (p *parser) callonListContinuationElement1427() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1421(stack["format"], stack["content"])
+	return p.cur.onListContinuationElement1427(stack["format"], stack["content"])
 }
 
-func (c *current) onListContinuationElement1418(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1424(cells interface{}) (interface{}, error) {
 	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1418() (interface{}, error) {
+func (p *parser) callonListContinuationElement1424() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1418(stack["cells"])
+	return p.cur.onListContinuationElement1424(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1391(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1397(cells interface{}) (interface{}, error) {
 	return types.NewTableRow(cells.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1391() (interface{}, error) {
+func (p *parser) callonListContinuationElement1397() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1391(stack["cells"])
+	return p.cur.onListContinuationElement1397(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1556() (interface{}, error) {
+func (c *current) onListContinuationElement1562() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1556() (interface{}, error) {
+func (p *parser) callonListContinuationElement1562() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1556()
+	return p.cur.onListContinuationElement1562()
 }
 
-func (c *current) onListContinuationElement1559() (interface{}, error) {
+func (c *current) onListContinuationElement1565() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1559() (interface{}, error) {
+func (p *parser) callonListContinuationElement1565() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1559()
+	return p.cur.onListContinuationElement1565()
 }
 
-func (c *current) onListContinuationElement1551() (interface{}, error) {
+func (c *current) onListContinuationElement1557() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1551() (interface{}, error) {
+func (p *parser) callonListContinuationElement1557() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1551()
+	return p.cur.onListContinuationElement1557()
 }
 
-func (c *current) onListContinuationElement1370(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1376(content interface{}) (interface{}, error) {
 	return content, nil
 
 }
 
-func (p *parser) callonListContinuationElement1370() (interface{}, error) {
+func (p *parser) callonListContinuationElement1376() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1370(stack["content"])
+	return p.cur.onListContinuationElement1376(stack["content"])
 }
 
-func (c *current) onListContinuationElement1570() (interface{}, error) {
+func (c *current) onListContinuationElement1576() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1570() (interface{}, error) {
+func (p *parser) callonListContinuationElement1576() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1570()
+	return p.cur.onListContinuationElement1576()
 }
 
-func (c *current) onListContinuationElement1573() (interface{}, error) {
+func (c *current) onListContinuationElement1579() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1573() (interface{}, error) {
+func (p *parser) callonListContinuationElement1579() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1573()
+	return p.cur.onListContinuationElement1579()
 }
 
-func (c *current) onListContinuationElement1321(lines interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1327(lines interface{}) (interface{}, error) {
 	return types.NewTable(lines.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1321() (interface{}, error) {
+func (p *parser) callonListContinuationElement1327() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1321(stack["lines"])
+	return p.cur.onListContinuationElement1327(stack["lines"])
 }
 
-func (c *current) onListContinuationElement1588() (interface{}, error) {
+func (c *current) onListContinuationElement1594() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1588() (interface{}, error) {
+func (p *parser) callonListContinuationElement1594() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1588()
+	return p.cur.onListContinuationElement1594()
 }
 
-func (c *current) onListContinuationElement1592() (interface{}, error) {
+func (c *current) onListContinuationElement1598() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1592() (interface{}, error) {
+func (p *parser) callonListContinuationElement1598() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1592()
+	return p.cur.onListContinuationElement1598()
 }
 
-func (c *current) onListContinuationElement1582(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1588(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1582() (interface{}, error) {
+func (p *parser) callonListContinuationElement1588() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1582(stack["content"])
+	return p.cur.onListContinuationElement1588(stack["content"])
 }
 
-func (c *current) onListContinuationElement1605() (bool, error) {
+func (c *current) onListContinuationElement1611() (bool, error) {
 	return !c.isWithinLiteralParagraph(), nil
 
 }
 
-func (p *parser) callonListContinuationElement1605() (bool, error) {
+func (p *parser) callonListContinuationElement1611() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1605()
+	return p.cur.onListContinuationElement1611()
 }
 
-func (c *current) onListContinuationElement1608() (interface{}, error) {
+func (c *current) onListContinuationElement1614() (interface{}, error) {
 	return types.Tip, nil
 
 }
 
-func (p *parser) callonListContinuationElement1608() (interface{}, error) {
+func (p *parser) callonListContinuationElement1614() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1608()
+	return p.cur.onListContinuationElement1614()
 }
 
-func (c *current) onListContinuationElement1610() (interface{}, error) {
+func (c *current) onListContinuationElement1616() (interface{}, error) {
 	return types.Note, nil
 
 }
 
-func (p *parser) callonListContinuationElement1610() (interface{}, error) {
+func (p *parser) callonListContinuationElement1616() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1610()
+	return p.cur.onListContinuationElement1616()
 }
 
-func (c *current) onListContinuationElement1612() (interface{}, error) {
+func (c *current) onListContinuationElement1618() (interface{}, error) {
 	return types.Important, nil
 
 }
 
-func (p *parser) callonListContinuationElement1612() (interface{}, error) {
+func (p *parser) callonListContinuationElement1618() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1612()
+	return p.cur.onListContinuationElement1618()
 }
 
-func (c *current) onListContinuationElement1614() (interface{}, error) {
+func (c *current) onListContinuationElement1620() (interface{}, error) {
 	return types.Warning, nil
 
 }
 
-func (p *parser) callonListContinuationElement1614() (interface{}, error) {
+func (p *parser) callonListContinuationElement1620() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1614()
+	return p.cur.onListContinuationElement1620()
 }
 
-func (c *current) onListContinuationElement1616() (interface{}, error) {
+func (c *current) onListContinuationElement1622() (interface{}, error) {
 	return types.Caution, nil
 
 }
 
-func (p *parser) callonListContinuationElement1616() (interface{}, error) {
+func (p *parser) callonListContinuationElement1622() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1616()
+	return p.cur.onListContinuationElement1622()
 }
 
-func (c *current) onListContinuationElement1620() (interface{}, error) {
+func (c *current) onListContinuationElement1626() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1620() (interface{}, error) {
+func (p *parser) callonListContinuationElement1626() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1620()
+	return p.cur.onListContinuationElement1626()
 }
 
-func (c *current) onListContinuationElement1618() (interface{}, error) {
+func (c *current) onListContinuationElement1624() (interface{}, error) {
 	// check
 	return types.LiteralParagraph, nil
 
 }
 
-func (p *parser) callonListContinuationElement1618() (interface{}, error) {
+func (p *parser) callonListContinuationElement1624() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1618()
+	return p.cur.onListContinuationElement1624()
 }
 
-func (c *current) onListContinuationElement1603(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1609(style interface{}) (interface{}, error) {
 	return style, nil
 
 }
 
-func (p *parser) callonListContinuationElement1603() (interface{}, error) {
+func (p *parser) callonListContinuationElement1609() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1603(stack["style"])
+	return p.cur.onListContinuationElement1609(stack["style"])
 }
 
-func (c *current) onListContinuationElement1632() (interface{}, error) {
+func (c *current) onListContinuationElement1638() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1632() (interface{}, error) {
+func (p *parser) callonListContinuationElement1638() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1632()
+	return p.cur.onListContinuationElement1638()
 }
 
-func (c *current) onListContinuationElement1635() (interface{}, error) {
+func (c *current) onListContinuationElement1641() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1635() (interface{}, error) {
+func (p *parser) callonListContinuationElement1641() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1635()
+	return p.cur.onListContinuationElement1641()
 }
 
-func (c *current) onListContinuationElement1627() (interface{}, error) {
+func (c *current) onListContinuationElement1633() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1627() (interface{}, error) {
+func (p *parser) callonListContinuationElement1633() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1627()
+	return p.cur.onListContinuationElement1633()
 }
 
-func (c *current) onListContinuationElement1646() (interface{}, error) {
+func (c *current) onListContinuationElement1652() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1646() (interface{}, error) {
+func (p *parser) callonListContinuationElement1652() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1646()
+	return p.cur.onListContinuationElement1652()
 }
 
-func (c *current) onListContinuationElement1648() (interface{}, error) {
+func (c *current) onListContinuationElement1654() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1648() (interface{}, error) {
+func (p *parser) callonListContinuationElement1654() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1648()
+	return p.cur.onListContinuationElement1654()
 }
 
-func (c *current) onListContinuationElement1657() (interface{}, error) {
+func (c *current) onListContinuationElement1663() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1657() (interface{}, error) {
+func (p *parser) callonListContinuationElement1663() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1657()
+	return p.cur.onListContinuationElement1663()
 }
 
-func (c *current) onListContinuationElement1664() (interface{}, error) {
+func (c *current) onListContinuationElement1670() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonListContinuationElement1664() (interface{}, error) {
+func (p *parser) callonListContinuationElement1670() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1664()
+	return p.cur.onListContinuationElement1670()
 }
 
-func (c *current) onListContinuationElement1667(depth interface{}) (bool, error) {
+func (c *current) onListContinuationElement1673(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1667() (bool, error) {
+func (p *parser) callonListContinuationElement1673() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1667(stack["depth"])
+	return p.cur.onListContinuationElement1673(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1661(depth interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1667(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -67940,756 +68108,756 @@ func (c *current) onListContinuationElement1661(depth interface{}) (interface{},
 
 }
 
-func (p *parser) callonListContinuationElement1661() (interface{}, error) {
+func (p *parser) callonListContinuationElement1667() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1661(stack["depth"])
+	return p.cur.onListContinuationElement1667(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1668() (interface{}, error) {
+func (c *current) onListContinuationElement1674() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonListContinuationElement1668() (interface{}, error) {
+func (p *parser) callonListContinuationElement1674() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1668()
+	return p.cur.onListContinuationElement1674()
 }
 
-func (c *current) onListContinuationElement1673() (interface{}, error) {
+func (c *current) onListContinuationElement1679() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1673() (interface{}, error) {
+func (p *parser) callonListContinuationElement1679() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1673()
+	return p.cur.onListContinuationElement1679()
 }
 
-func (c *current) onListContinuationElement1677() (interface{}, error) {
+func (c *current) onListContinuationElement1683() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1677() (interface{}, error) {
+func (p *parser) callonListContinuationElement1683() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1677()
+	return p.cur.onListContinuationElement1683()
 }
 
-func (c *current) onListContinuationElement1681() (interface{}, error) {
+func (c *current) onListContinuationElement1687() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1681() (interface{}, error) {
+func (p *parser) callonListContinuationElement1687() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1681()
+	return p.cur.onListContinuationElement1687()
 }
 
-func (c *current) onListContinuationElement1686() (interface{}, error) {
+func (c *current) onListContinuationElement1692() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1686() (interface{}, error) {
+func (p *parser) callonListContinuationElement1692() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1686()
+	return p.cur.onListContinuationElement1692()
 }
 
-func (c *current) onListContinuationElement1691(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1697(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1691() (interface{}, error) {
+func (p *parser) callonListContinuationElement1697() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1691(stack["prefix"])
+	return p.cur.onListContinuationElement1697(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1654(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1660(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonListContinuationElement1654() (interface{}, error) {
+func (p *parser) callonListContinuationElement1660() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1654(stack["prefix"])
+	return p.cur.onListContinuationElement1660(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1698() (interface{}, error) {
+func (c *current) onListContinuationElement1704() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1698() (interface{}, error) {
+func (p *parser) callonListContinuationElement1704() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1698()
+	return p.cur.onListContinuationElement1704()
 }
 
-func (c *current) onListContinuationElement1701() (interface{}, error) {
+func (c *current) onListContinuationElement1707() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1701() (interface{}, error) {
+func (p *parser) callonListContinuationElement1707() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1701()
+	return p.cur.onListContinuationElement1707()
 }
 
-func (c *current) onListContinuationElement1706(style interface{}) (bool, error) {
+func (c *current) onListContinuationElement1712(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1706() (bool, error) {
+func (p *parser) callonListContinuationElement1712() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1706(stack["style"])
+	return p.cur.onListContinuationElement1712(stack["style"])
 }
 
-func (c *current) onListContinuationElement1707(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1713(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1707() (interface{}, error) {
+func (p *parser) callonListContinuationElement1713() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1707(stack["style"])
+	return p.cur.onListContinuationElement1713(stack["style"])
 }
 
-func (c *current) onListContinuationElement1695(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1701(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1695() (interface{}, error) {
+func (p *parser) callonListContinuationElement1701() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1695(stack["style"])
+	return p.cur.onListContinuationElement1701(stack["style"])
 }
 
-func (c *current) onListContinuationElement1715() (interface{}, error) {
+func (c *current) onListContinuationElement1721() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1715() (interface{}, error) {
+func (p *parser) callonListContinuationElement1721() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1715()
+	return p.cur.onListContinuationElement1721()
 }
 
-func (c *current) onListContinuationElement1719(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1725(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1719() (interface{}, error) {
+func (p *parser) callonListContinuationElement1725() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1719(stack["ref"])
+	return p.cur.onListContinuationElement1725(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1711(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1717(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonListContinuationElement1711() (interface{}, error) {
+func (p *parser) callonListContinuationElement1717() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1711(stack["ref"])
+	return p.cur.onListContinuationElement1717(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1731() (interface{}, error) {
+func (c *current) onListContinuationElement1743() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1731() (interface{}, error) {
+func (p *parser) callonListContinuationElement1743() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1731()
+	return p.cur.onListContinuationElement1743()
 }
 
-func (c *current) onListContinuationElement1734(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1746(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1734() (bool, error) {
+func (p *parser) callonListContinuationElement1746() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1734(stack["separator"])
+	return p.cur.onListContinuationElement1746(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1728(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1740(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1728() (interface{}, error) {
+func (p *parser) callonListContinuationElement1740() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1728(stack["separator"])
+	return p.cur.onListContinuationElement1740(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1737() (interface{}, error) {
+func (c *current) onListContinuationElement1749() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1737() (interface{}, error) {
+func (p *parser) callonListContinuationElement1749() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1737()
+	return p.cur.onListContinuationElement1749()
 }
 
-func (c *current) onListContinuationElement1724() (interface{}, error) {
+func (c *current) onListContinuationElement1730() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonListContinuationElement1724() (interface{}, error) {
+func (p *parser) callonListContinuationElement1730() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1724()
+	return p.cur.onListContinuationElement1730()
 }
 
-func (c *current) onListContinuationElement1748() (interface{}, error) {
+func (c *current) onListContinuationElement1760() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1748() (interface{}, error) {
+func (p *parser) callonListContinuationElement1760() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1748()
+	return p.cur.onListContinuationElement1760()
 }
 
-func (c *current) onListContinuationElement1751(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1763(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1751() (bool, error) {
+func (p *parser) callonListContinuationElement1763() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1751(stack["separator"])
+	return p.cur.onListContinuationElement1763(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1745(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1757(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1745() (interface{}, error) {
+func (p *parser) callonListContinuationElement1757() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1745(stack["separator"])
+	return p.cur.onListContinuationElement1757(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1762() (interface{}, error) {
+func (c *current) onListContinuationElement1774() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1762() (interface{}, error) {
+func (p *parser) callonListContinuationElement1774() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1762()
+	return p.cur.onListContinuationElement1774()
 }
 
-func (c *current) onListContinuationElement1768() (interface{}, error) {
+func (c *current) onListContinuationElement1780() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1768() (interface{}, error) {
+func (p *parser) callonListContinuationElement1780() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1768()
+	return p.cur.onListContinuationElement1780()
 }
 
-func (c *current) onListContinuationElement1771() (interface{}, error) {
+func (c *current) onListContinuationElement1783() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1771() (interface{}, error) {
+func (p *parser) callonListContinuationElement1783() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1771()
+	return p.cur.onListContinuationElement1783()
 }
 
-func (c *current) onListContinuationElement1759(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1771(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1759() (interface{}, error) {
+func (p *parser) callonListContinuationElement1771() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1759(stack["delimiter"])
+	return p.cur.onListContinuationElement1771(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1781() (interface{}, error) {
+func (c *current) onListContinuationElement1793() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1781() (interface{}, error) {
+func (p *parser) callonListContinuationElement1793() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1781()
+	return p.cur.onListContinuationElement1793()
 }
 
-func (c *current) onListContinuationElement1787() (interface{}, error) {
+func (c *current) onListContinuationElement1799() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1787() (interface{}, error) {
+func (p *parser) callonListContinuationElement1799() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1787()
+	return p.cur.onListContinuationElement1799()
 }
 
-func (c *current) onListContinuationElement1790() (interface{}, error) {
+func (c *current) onListContinuationElement1802() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1790() (interface{}, error) {
+func (p *parser) callonListContinuationElement1802() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1790()
+	return p.cur.onListContinuationElement1802()
 }
 
-func (c *current) onListContinuationElement1778(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1790(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1778() (interface{}, error) {
+func (p *parser) callonListContinuationElement1790() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1778(stack["delimiter"])
+	return p.cur.onListContinuationElement1790(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1801() (interface{}, error) {
+func (c *current) onListContinuationElement1813() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1801() (interface{}, error) {
+func (p *parser) callonListContinuationElement1813() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1801()
+	return p.cur.onListContinuationElement1813()
 }
 
-func (c *current) onListContinuationElement1805() (interface{}, error) {
+func (c *current) onListContinuationElement1817() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1805() (interface{}, error) {
+func (p *parser) callonListContinuationElement1817() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1805()
+	return p.cur.onListContinuationElement1817()
 }
 
-func (c *current) onListContinuationElement1808() (interface{}, error) {
+func (c *current) onListContinuationElement1820() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1808() (interface{}, error) {
+func (p *parser) callonListContinuationElement1820() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1808()
+	return p.cur.onListContinuationElement1820()
 }
 
-func (c *current) onListContinuationElement1797(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1809(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1797() (interface{}, error) {
+func (p *parser) callonListContinuationElement1809() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1797(stack["language"])
+	return p.cur.onListContinuationElement1809(stack["language"])
 }
 
-func (c *current) onListContinuationElement1818() (interface{}, error) {
+func (c *current) onListContinuationElement1830() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1818() (interface{}, error) {
+func (p *parser) callonListContinuationElement1830() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1818()
+	return p.cur.onListContinuationElement1830()
 }
 
-func (c *current) onListContinuationElement1824() (interface{}, error) {
+func (c *current) onListContinuationElement1836() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1824() (interface{}, error) {
+func (p *parser) callonListContinuationElement1836() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1824()
+	return p.cur.onListContinuationElement1836()
 }
 
-func (c *current) onListContinuationElement1827() (interface{}, error) {
+func (c *current) onListContinuationElement1839() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1827() (interface{}, error) {
+func (p *parser) callonListContinuationElement1839() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1827()
+	return p.cur.onListContinuationElement1839()
 }
 
-func (c *current) onListContinuationElement1815(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1827(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1815() (interface{}, error) {
+func (p *parser) callonListContinuationElement1827() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1815(stack["delimiter"])
+	return p.cur.onListContinuationElement1827(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1837() (interface{}, error) {
+func (c *current) onListContinuationElement1849() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1837() (interface{}, error) {
+func (p *parser) callonListContinuationElement1849() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1837()
+	return p.cur.onListContinuationElement1849()
 }
 
-func (c *current) onListContinuationElement1843() (interface{}, error) {
+func (c *current) onListContinuationElement1855() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1843() (interface{}, error) {
+func (p *parser) callonListContinuationElement1855() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1843()
+	return p.cur.onListContinuationElement1855()
 }
 
-func (c *current) onListContinuationElement1846() (interface{}, error) {
+func (c *current) onListContinuationElement1858() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1846() (interface{}, error) {
+func (p *parser) callonListContinuationElement1858() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1846()
+	return p.cur.onListContinuationElement1858()
 }
 
-func (c *current) onListContinuationElement1834(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1846(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1834() (interface{}, error) {
+func (p *parser) callonListContinuationElement1846() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1834(stack["delimiter"])
+	return p.cur.onListContinuationElement1846(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1856() (interface{}, error) {
+func (c *current) onListContinuationElement1868() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1856() (interface{}, error) {
+func (p *parser) callonListContinuationElement1868() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1856()
+	return p.cur.onListContinuationElement1868()
 }
 
-func (c *current) onListContinuationElement1862() (interface{}, error) {
+func (c *current) onListContinuationElement1874() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1862() (interface{}, error) {
+func (p *parser) callonListContinuationElement1874() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1862()
+	return p.cur.onListContinuationElement1874()
 }
 
-func (c *current) onListContinuationElement1865() (interface{}, error) {
+func (c *current) onListContinuationElement1877() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1865() (interface{}, error) {
+func (p *parser) callonListContinuationElement1877() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1865()
+	return p.cur.onListContinuationElement1877()
 }
 
-func (c *current) onListContinuationElement1853(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1865(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1853() (interface{}, error) {
+func (p *parser) callonListContinuationElement1865() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1853(stack["delimiter"])
+	return p.cur.onListContinuationElement1865(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1875() (interface{}, error) {
+func (c *current) onListContinuationElement1887() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1875() (interface{}, error) {
+func (p *parser) callonListContinuationElement1887() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1875()
+	return p.cur.onListContinuationElement1887()
 }
 
-func (c *current) onListContinuationElement1881() (interface{}, error) {
+func (c *current) onListContinuationElement1893() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1881() (interface{}, error) {
+func (p *parser) callonListContinuationElement1893() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1881()
+	return p.cur.onListContinuationElement1893()
 }
 
-func (c *current) onListContinuationElement1884() (interface{}, error) {
+func (c *current) onListContinuationElement1896() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1884() (interface{}, error) {
+func (p *parser) callonListContinuationElement1896() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1884()
+	return p.cur.onListContinuationElement1896()
 }
 
-func (c *current) onListContinuationElement1872(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1884(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1872() (interface{}, error) {
+func (p *parser) callonListContinuationElement1884() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1872(stack["delimiter"])
+	return p.cur.onListContinuationElement1884(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1894() (interface{}, error) {
+func (c *current) onListContinuationElement1906() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1894() (interface{}, error) {
+func (p *parser) callonListContinuationElement1906() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1894()
+	return p.cur.onListContinuationElement1906()
 }
 
-func (c *current) onListContinuationElement1900() (interface{}, error) {
+func (c *current) onListContinuationElement1912() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1900() (interface{}, error) {
+func (p *parser) callonListContinuationElement1912() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1900()
+	return p.cur.onListContinuationElement1912()
 }
 
-func (c *current) onListContinuationElement1903() (interface{}, error) {
+func (c *current) onListContinuationElement1915() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1903() (interface{}, error) {
+func (p *parser) callonListContinuationElement1915() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1903()
+	return p.cur.onListContinuationElement1915()
 }
 
-func (c *current) onListContinuationElement1891(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1903(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1891() (interface{}, error) {
+func (p *parser) callonListContinuationElement1903() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1891(stack["delimiter"])
+	return p.cur.onListContinuationElement1903(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1913() (interface{}, error) {
+func (c *current) onListContinuationElement1925() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1913() (interface{}, error) {
+func (p *parser) callonListContinuationElement1925() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1913()
+	return p.cur.onListContinuationElement1925()
 }
 
-func (c *current) onListContinuationElement1919() (interface{}, error) {
+func (c *current) onListContinuationElement1931() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1919() (interface{}, error) {
+func (p *parser) callonListContinuationElement1931() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1919()
+	return p.cur.onListContinuationElement1931()
 }
 
-func (c *current) onListContinuationElement1922() (interface{}, error) {
+func (c *current) onListContinuationElement1934() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1922() (interface{}, error) {
+func (p *parser) callonListContinuationElement1934() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1922()
+	return p.cur.onListContinuationElement1934()
 }
 
-func (c *current) onListContinuationElement1910(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1922(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1910() (interface{}, error) {
+func (p *parser) callonListContinuationElement1922() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1910(stack["delimiter"])
+	return p.cur.onListContinuationElement1922(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1753(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1765(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonListContinuationElement1753() (interface{}, error) {
+func (p *parser) callonListContinuationElement1765() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1753(stack["delimiter"])
+	return p.cur.onListContinuationElement1765(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1930() (interface{}, error) {
+func (c *current) onListContinuationElement1942() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1930() (interface{}, error) {
+func (p *parser) callonListContinuationElement1942() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1930()
+	return p.cur.onListContinuationElement1942()
 }
 
-func (c *current) onListContinuationElement1934() (interface{}, error) {
+func (c *current) onListContinuationElement1946() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1934() (interface{}, error) {
+func (p *parser) callonListContinuationElement1946() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1934()
+	return p.cur.onListContinuationElement1946()
 }
 
-func (c *current) onListContinuationElement1624(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1630(content interface{}) (interface{}, error) {
 	// do not retain the EOL chars
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1624() (interface{}, error) {
+func (p *parser) callonListContinuationElement1630() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1624(stack["content"])
+	return p.cur.onListContinuationElement1630(stack["content"])
 }
 
-func (c *current) onListContinuationElement1599(style, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1605(style, content interface{}) (interface{}, error) {
 	return types.NewParagraph(style, content)
 
 }
 
-func (p *parser) callonListContinuationElement1599() (interface{}, error) {
+func (p *parser) callonListContinuationElement1605() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1599(stack["style"], stack["content"])
+	return p.cur.onListContinuationElement1605(stack["style"], stack["content"])
 }
 
 func (c *current) onListContinuationElement1(attributes, element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 6e020a5..de5164a 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1666,6 +1666,7 @@ LabeledListElement <-
     }
 
 LabeledListElementTerm <- 
+    !SinglelineCommentDelimiter
     (!LabeledListElementSeparator !EOL .)+ {
         return types.NewRawLine(strings.TrimSpace(string(c.text)))
     }
-- 
2.43.0


From 3ef0ee2c7196de5897b43363325a198d3a8d0b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:24 +0000
Subject: [PATCH 29/75] fix: style of a literal block leaks to the following
 paragraphs

---
 pkg/parser/parser.go  | 20372 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |     2 +
 2 files changed, 10189 insertions(+), 10185 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 81bb33e..4e0c71e 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -45,28 +45,28 @@ var g = &grammar{
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
-										pos: position{line: 360, col: 19, offset: 10910},
+										pos: position{line: 362, col: 19, offset: 11011},
 										run: (*parser).callonDocumentRawLine6,
 										expr: &seqExpr{
-											pos: position{line: 360, col: 19, offset: 10910},
+											pos: position{line: 362, col: 19, offset: 11011},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 360, col: 19, offset: 10910},
+													pos:        position{line: 362, col: 19, offset: 11011},
 													val:        ":!",
 													ignoreCase: false,
 													want:       "\":!\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 360, col: 24, offset: 10915},
+													pos:   position{line: 362, col: 24, offset: 11016},
 													label: "name",
 													expr: &actionExpr{
-														pos: position{line: 318, col: 18, offset: 9736},
+														pos: position{line: 320, col: 18, offset: 9837},
 														run: (*parser).callonDocumentRawLine10,
 														expr: &seqExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 320, col: 18, offset: 9837},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 318, col: 18, offset: 9736},
+																	pos:        position{line: 320, col: 18, offset: 9837},
 																	val:        "[_\\pL\\pN]",
 																	chars:      []rune{'_'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -74,9 +74,9 @@ var g = &grammar{
 																	inverted:   false,
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 318, col: 28, offset: 9746},
+																	pos: position{line: 320, col: 28, offset: 9847},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 318, col: 29, offset: 9747},
+																		pos:        position{line: 320, col: 29, offset: 9848},
 																		val:        "[-\\pL\\pN]",
 																		chars:      []rune{'-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -89,18 +89,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 360, col: 45, offset: 10936},
+													pos:        position{line: 362, col: 45, offset: 11037},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 360, col: 49, offset: 10940},
+													pos: position{line: 362, col: 49, offset: 11041},
 													expr: &actionExpr{
-														pos: position{line: 2910, col: 10, offset: 91824},
+														pos: position{line: 2912, col: 10, offset: 91925},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2910, col: 10, offset: 91824},
+															pos:        position{line: 2912, col: 10, offset: 91925},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2932, col: 8, offset: 92222},
+													pos: position{line: 2934, col: 8, offset: 92323},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2919, col: 12, offset: 91995},
+															pos: position{line: 2921, col: 12, offset: 92096},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2919, col: 13, offset: 91996},
+																pos: position{line: 2921, col: 13, offset: 92097},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 13, offset: 91996},
+																		pos:        position{line: 2921, col: 13, offset: 92097},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 20, offset: 92003},
+																		pos:        position{line: 2921, col: 20, offset: 92104},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 29, offset: 92012},
+																		pos:        position{line: 2921, col: 29, offset: 92113},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2929, col: 8, offset: 92172},
+															pos: position{line: 2931, col: 8, offset: 92273},
 															expr: &anyMatcher{
-																line: 2929, col: 9, offset: 92173,
+																line: 2931, col: 9, offset: 92274,
 															},
 														},
 													},
@@ -150,28 +150,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 362, col: 9, offset: 11031},
+										pos: position{line: 364, col: 9, offset: 11132},
 										run: (*parser).callonDocumentRawLine27,
 										expr: &seqExpr{
-											pos: position{line: 362, col: 9, offset: 11031},
+											pos: position{line: 364, col: 9, offset: 11132},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 362, col: 9, offset: 11031},
+													pos:        position{line: 364, col: 9, offset: 11132},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 362, col: 13, offset: 11035},
+													pos:   position{line: 364, col: 13, offset: 11136},
 													label: "name",
 													expr: &actionExpr{
-														pos: position{line: 318, col: 18, offset: 9736},
+														pos: position{line: 320, col: 18, offset: 9837},
 														run: (*parser).callonDocumentRawLine31,
 														expr: &seqExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 320, col: 18, offset: 9837},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 318, col: 18, offset: 9736},
+																	pos:        position{line: 320, col: 18, offset: 9837},
 																	val:        "[_\\pL\\pN]",
 																	chars:      []rune{'_'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -179,9 +179,9 @@ var g = &grammar{
 																	inverted:   false,
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 318, col: 28, offset: 9746},
+																	pos: position{line: 320, col: 28, offset: 9847},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 318, col: 29, offset: 9747},
+																		pos:        position{line: 320, col: 29, offset: 9848},
 																		val:        "[-\\pL\\pN]",
 																		chars:      []rune{'-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -194,18 +194,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 362, col: 34, offset: 11056},
+													pos:        position{line: 364, col: 34, offset: 11157},
 													val:        "!:",
 													ignoreCase: false,
 													want:       "\"!:\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 362, col: 39, offset: 11061},
+													pos: position{line: 364, col: 39, offset: 11162},
 													expr: &actionExpr{
-														pos: position{line: 2910, col: 10, offset: 91824},
+														pos: position{line: 2912, col: 10, offset: 91925},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2910, col: 10, offset: 91824},
+															pos:        position{line: 2912, col: 10, offset: 91925},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2932, col: 8, offset: 92222},
+													pos: position{line: 2934, col: 8, offset: 92323},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2919, col: 12, offset: 91995},
+															pos: position{line: 2921, col: 12, offset: 92096},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2919, col: 13, offset: 91996},
+																pos: position{line: 2921, col: 13, offset: 92097},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 13, offset: 91996},
+																		pos:        position{line: 2921, col: 13, offset: 92097},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 20, offset: 92003},
+																		pos:        position{line: 2921, col: 20, offset: 92104},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 29, offset: 92012},
+																		pos:        position{line: 2921, col: 29, offset: 92113},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2929, col: 8, offset: 92172},
+															pos: position{line: 2931, col: 8, offset: 92273},
 															expr: &anyMatcher{
-																line: 2929, col: 9, offset: 92173,
+																line: 2931, col: 9, offset: 92274,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2910, col: 10, offset: 91824},
+														pos: position{line: 2912, col: 10, offset: 91925},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2910, col: 10, offset: 91824},
+															pos:        position{line: 2912, col: 10, offset: 91925},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2929, col: 8, offset: 92172},
+													pos: position{line: 2931, col: 8, offset: 92273},
 													expr: &anyMatcher{
-														line: 2929, col: 9, offset: 92173,
+														line: 2931, col: 9, offset: 92274,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2910, col: 10, offset: 91824},
+														pos: position{line: 2912, col: 10, offset: 91925},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2910, col: 10, offset: 91824},
+															pos:        position{line: 2912, col: 10, offset: 91925},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2929, col: 8, offset: 92172},
+													pos: position{line: 2931, col: 8, offset: 92273},
 													expr: &anyMatcher{
-														line: 2929, col: 9, offset: 92173,
+														line: 2931, col: 9, offset: 92274,
 													},
 												},
 											},
@@ -464,31 +464,31 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 646, col: 5, offset: 20414},
+																				pos: position{line: 648, col: 5, offset: 20515},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 646, col: 5, offset: 20414},
+																						pos: position{line: 648, col: 5, offset: 20515},
 																						run: (*parser).callonDocumentRawLine97,
 																						expr: &seqExpr{
-																							pos: position{line: 646, col: 5, offset: 20414},
+																							pos: position{line: 648, col: 5, offset: 20515},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 646, col: 5, offset: 20414},
+																									pos:        position{line: 648, col: 5, offset: 20515},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 646, col: 13, offset: 20422},
+																									pos:   position{line: 648, col: 13, offset: 20523},
 																									label: "name",
 																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 320, col: 18, offset: 9837},
 																										run: (*parser).callonDocumentRawLine101,
 																										expr: &seqExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 320, col: 18, offset: 9837},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
+																													pos:        position{line: 320, col: 18, offset: 9837},
 																													val:        "[_\\pL\\pN]",
 																													chars:      []rune{'_'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -496,9 +496,9 @@ var g = &grammar{
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
+																													pos: position{line: 320, col: 28, offset: 9847},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
+																														pos:        position{line: 320, col: 29, offset: 9848},
 																														val:        "[-\\pL\\pN]",
 																														chars:      []rune{'-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -511,7 +511,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 646, col: 32, offset: 20441},
+																									pos:        position{line: 648, col: 32, offset: 20542},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -520,28 +520,28 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 653, col: 5, offset: 20682},
+																						pos: position{line: 655, col: 5, offset: 20783},
 																						run: (*parser).callonDocumentRawLine107,
 																						expr: &seqExpr{
-																							pos: position{line: 653, col: 5, offset: 20682},
+																							pos: position{line: 655, col: 5, offset: 20783},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 653, col: 5, offset: 20682},
+																									pos:        position{line: 655, col: 5, offset: 20783},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 653, col: 9, offset: 20686},
+																									pos:   position{line: 655, col: 9, offset: 20787},
 																									label: "name",
 																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 320, col: 18, offset: 9837},
 																										run: (*parser).callonDocumentRawLine111,
 																										expr: &seqExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 320, col: 18, offset: 9837},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
+																													pos:        position{line: 320, col: 18, offset: 9837},
 																													val:        "[_\\pL\\pN]",
 																													chars:      []rune{'_'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -549,9 +549,9 @@ var g = &grammar{
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
+																													pos: position{line: 320, col: 28, offset: 9847},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
+																														pos:        position{line: 320, col: 29, offset: 9848},
 																														val:        "[-\\pL\\pN]",
 																														chars:      []rune{'-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -564,7 +564,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 653, col: 28, offset: 20705},
+																									pos:        position{line: 655, col: 28, offset: 20806},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -600,31 +600,31 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 646, col: 5, offset: 20414},
+																				pos: position{line: 648, col: 5, offset: 20515},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 646, col: 5, offset: 20414},
+																						pos: position{line: 648, col: 5, offset: 20515},
 																						run: (*parser).callonDocumentRawLine123,
 																						expr: &seqExpr{
-																							pos: position{line: 646, col: 5, offset: 20414},
+																							pos: position{line: 648, col: 5, offset: 20515},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 646, col: 5, offset: 20414},
+																									pos:        position{line: 648, col: 5, offset: 20515},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 646, col: 13, offset: 20422},
+																									pos:   position{line: 648, col: 13, offset: 20523},
 																									label: "name",
 																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 320, col: 18, offset: 9837},
 																										run: (*parser).callonDocumentRawLine127,
 																										expr: &seqExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 320, col: 18, offset: 9837},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
+																													pos:        position{line: 320, col: 18, offset: 9837},
 																													val:        "[_\\pL\\pN]",
 																													chars:      []rune{'_'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -632,9 +632,9 @@ var g = &grammar{
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
+																													pos: position{line: 320, col: 28, offset: 9847},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
+																														pos:        position{line: 320, col: 29, offset: 9848},
 																														val:        "[-\\pL\\pN]",
 																														chars:      []rune{'-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -647,7 +647,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 646, col: 32, offset: 20441},
+																									pos:        position{line: 648, col: 32, offset: 20542},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -656,28 +656,28 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 653, col: 5, offset: 20682},
+																						pos: position{line: 655, col: 5, offset: 20783},
 																						run: (*parser).callonDocumentRawLine133,
 																						expr: &seqExpr{
-																							pos: position{line: 653, col: 5, offset: 20682},
+																							pos: position{line: 655, col: 5, offset: 20783},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 653, col: 5, offset: 20682},
+																									pos:        position{line: 655, col: 5, offset: 20783},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 653, col: 9, offset: 20686},
+																									pos:   position{line: 655, col: 9, offset: 20787},
 																									label: "name",
 																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 320, col: 18, offset: 9837},
 																										run: (*parser).callonDocumentRawLine137,
 																										expr: &seqExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 320, col: 18, offset: 9837},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
+																													pos:        position{line: 320, col: 18, offset: 9837},
 																													val:        "[_\\pL\\pN]",
 																													chars:      []rune{'_'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -685,9 +685,9 @@ var g = &grammar{
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
+																													pos: position{line: 320, col: 28, offset: 9847},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
+																														pos:        position{line: 320, col: 29, offset: 9848},
 																														val:        "[-\\pL\\pN]",
 																														chars:      []rune{'-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -700,7 +700,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 653, col: 28, offset: 20705},
+																									pos:        position{line: 655, col: 28, offset: 20806},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -727,31 +727,31 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 646, col: 5, offset: 20414},
+																		pos: position{line: 648, col: 5, offset: 20515},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 646, col: 5, offset: 20414},
+																				pos: position{line: 648, col: 5, offset: 20515},
 																				run: (*parser).callonDocumentRawLine147,
 																				expr: &seqExpr{
-																					pos: position{line: 646, col: 5, offset: 20414},
+																					pos: position{line: 648, col: 5, offset: 20515},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 646, col: 5, offset: 20414},
+																							pos:        position{line: 648, col: 5, offset: 20515},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 646, col: 13, offset: 20422},
+																							pos:   position{line: 648, col: 13, offset: 20523},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 320, col: 18, offset: 9837},
 																								run: (*parser).callonDocumentRawLine151,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 320, col: 18, offset: 9837},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 320, col: 18, offset: 9837},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -759,9 +759,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 320, col: 28, offset: 9847},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 320, col: 29, offset: 9848},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -774,7 +774,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 646, col: 32, offset: 20441},
+																							pos:        position{line: 648, col: 32, offset: 20542},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -783,28 +783,28 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 653, col: 5, offset: 20682},
+																				pos: position{line: 655, col: 5, offset: 20783},
 																				run: (*parser).callonDocumentRawLine157,
 																				expr: &seqExpr{
-																					pos: position{line: 653, col: 5, offset: 20682},
+																					pos: position{line: 655, col: 5, offset: 20783},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 653, col: 5, offset: 20682},
+																							pos:        position{line: 655, col: 5, offset: 20783},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 653, col: 9, offset: 20686},
+																							pos:   position{line: 655, col: 9, offset: 20787},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 320, col: 18, offset: 9837},
 																								run: (*parser).callonDocumentRawLine161,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 320, col: 18, offset: 9837},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 320, col: 18, offset: 9837},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -812,9 +812,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 320, col: 28, offset: 9847},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 320, col: 29, offset: 9848},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -827,7 +827,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 653, col: 28, offset: 20705},
+																							pos:        position{line: 655, col: 28, offset: 20806},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2902, col: 12, offset: 91651},
+																pos: position{line: 2904, col: 12, offset: 91752},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2902, col: 13, offset: 91652},
+																	pos: position{line: 2904, col: 13, offset: 91753},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2902, col: 13, offset: 91652},
+																			pos: position{line: 2904, col: 13, offset: 91753},
 																			expr: &litMatcher{
-																				pos:        position{line: 2902, col: 13, offset: 91652},
+																				pos:        position{line: 2904, col: 13, offset: 91753},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2902, col: 18, offset: 91657},
+																			pos: position{line: 2904, col: 18, offset: 91758},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2902, col: 18, offset: 91657},
+																				pos:        position{line: 2904, col: 18, offset: 91758},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2910, col: 10, offset: 91824},
+														pos: position{line: 2912, col: 10, offset: 91925},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2910, col: 10, offset: 91824},
+															pos:        position{line: 2912, col: 10, offset: 91925},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2910, col: 10, offset: 91824},
+														pos: position{line: 2912, col: 10, offset: 91925},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2910, col: 10, offset: 91824},
+															pos:        position{line: 2912, col: 10, offset: 91925},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1069,31 +1069,31 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 646, col: 5, offset: 20414},
+																				pos: position{line: 648, col: 5, offset: 20515},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 646, col: 5, offset: 20414},
+																						pos: position{line: 648, col: 5, offset: 20515},
 																						run: (*parser).callonDocumentRawLine216,
 																						expr: &seqExpr{
-																							pos: position{line: 646, col: 5, offset: 20414},
+																							pos: position{line: 648, col: 5, offset: 20515},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 646, col: 5, offset: 20414},
+																									pos:        position{line: 648, col: 5, offset: 20515},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 646, col: 13, offset: 20422},
+																									pos:   position{line: 648, col: 13, offset: 20523},
 																									label: "name",
 																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 320, col: 18, offset: 9837},
 																										run: (*parser).callonDocumentRawLine220,
 																										expr: &seqExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 320, col: 18, offset: 9837},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
+																													pos:        position{line: 320, col: 18, offset: 9837},
 																													val:        "[_\\pL\\pN]",
 																													chars:      []rune{'_'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1101,9 +1101,9 @@ var g = &grammar{
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
+																													pos: position{line: 320, col: 28, offset: 9847},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
+																														pos:        position{line: 320, col: 29, offset: 9848},
 																														val:        "[-\\pL\\pN]",
 																														chars:      []rune{'-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1116,7 +1116,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 646, col: 32, offset: 20441},
+																									pos:        position{line: 648, col: 32, offset: 20542},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1125,28 +1125,28 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 653, col: 5, offset: 20682},
+																						pos: position{line: 655, col: 5, offset: 20783},
 																						run: (*parser).callonDocumentRawLine226,
 																						expr: &seqExpr{
-																							pos: position{line: 653, col: 5, offset: 20682},
+																							pos: position{line: 655, col: 5, offset: 20783},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 653, col: 5, offset: 20682},
+																									pos:        position{line: 655, col: 5, offset: 20783},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 653, col: 9, offset: 20686},
+																									pos:   position{line: 655, col: 9, offset: 20787},
 																									label: "name",
 																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 320, col: 18, offset: 9837},
 																										run: (*parser).callonDocumentRawLine230,
 																										expr: &seqExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 320, col: 18, offset: 9837},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
+																													pos:        position{line: 320, col: 18, offset: 9837},
 																													val:        "[_\\pL\\pN]",
 																													chars:      []rune{'_'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1154,9 +1154,9 @@ var g = &grammar{
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
+																													pos: position{line: 320, col: 28, offset: 9847},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
+																														pos:        position{line: 320, col: 29, offset: 9848},
 																														val:        "[-\\pL\\pN]",
 																														chars:      []rune{'-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1169,7 +1169,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 653, col: 28, offset: 20705},
+																									pos:        position{line: 655, col: 28, offset: 20806},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1205,31 +1205,31 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 646, col: 5, offset: 20414},
+																				pos: position{line: 648, col: 5, offset: 20515},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 646, col: 5, offset: 20414},
+																						pos: position{line: 648, col: 5, offset: 20515},
 																						run: (*parser).callonDocumentRawLine242,
 																						expr: &seqExpr{
-																							pos: position{line: 646, col: 5, offset: 20414},
+																							pos: position{line: 648, col: 5, offset: 20515},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 646, col: 5, offset: 20414},
+																									pos:        position{line: 648, col: 5, offset: 20515},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 646, col: 13, offset: 20422},
+																									pos:   position{line: 648, col: 13, offset: 20523},
 																									label: "name",
 																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 320, col: 18, offset: 9837},
 																										run: (*parser).callonDocumentRawLine246,
 																										expr: &seqExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 320, col: 18, offset: 9837},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
+																													pos:        position{line: 320, col: 18, offset: 9837},
 																													val:        "[_\\pL\\pN]",
 																													chars:      []rune{'_'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1237,9 +1237,9 @@ var g = &grammar{
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
+																													pos: position{line: 320, col: 28, offset: 9847},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
+																														pos:        position{line: 320, col: 29, offset: 9848},
 																														val:        "[-\\pL\\pN]",
 																														chars:      []rune{'-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1252,7 +1252,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 646, col: 32, offset: 20441},
+																									pos:        position{line: 648, col: 32, offset: 20542},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1261,28 +1261,28 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 653, col: 5, offset: 20682},
+																						pos: position{line: 655, col: 5, offset: 20783},
 																						run: (*parser).callonDocumentRawLine252,
 																						expr: &seqExpr{
-																							pos: position{line: 653, col: 5, offset: 20682},
+																							pos: position{line: 655, col: 5, offset: 20783},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 653, col: 5, offset: 20682},
+																									pos:        position{line: 655, col: 5, offset: 20783},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 653, col: 9, offset: 20686},
+																									pos:   position{line: 655, col: 9, offset: 20787},
 																									label: "name",
 																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 320, col: 18, offset: 9837},
 																										run: (*parser).callonDocumentRawLine256,
 																										expr: &seqExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 320, col: 18, offset: 9837},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
+																													pos:        position{line: 320, col: 18, offset: 9837},
 																													val:        "[_\\pL\\pN]",
 																													chars:      []rune{'_'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1290,9 +1290,9 @@ var g = &grammar{
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
+																													pos: position{line: 320, col: 28, offset: 9847},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
+																														pos:        position{line: 320, col: 29, offset: 9848},
 																														val:        "[-\\pL\\pN]",
 																														chars:      []rune{'-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1305,7 +1305,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 653, col: 28, offset: 20705},
+																									pos:        position{line: 655, col: 28, offset: 20806},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1332,31 +1332,31 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 646, col: 5, offset: 20414},
+																		pos: position{line: 648, col: 5, offset: 20515},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 646, col: 5, offset: 20414},
+																				pos: position{line: 648, col: 5, offset: 20515},
 																				run: (*parser).callonDocumentRawLine266,
 																				expr: &seqExpr{
-																					pos: position{line: 646, col: 5, offset: 20414},
+																					pos: position{line: 648, col: 5, offset: 20515},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 646, col: 5, offset: 20414},
+																							pos:        position{line: 648, col: 5, offset: 20515},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 646, col: 13, offset: 20422},
+																							pos:   position{line: 648, col: 13, offset: 20523},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 320, col: 18, offset: 9837},
 																								run: (*parser).callonDocumentRawLine270,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 320, col: 18, offset: 9837},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 320, col: 18, offset: 9837},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1364,9 +1364,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 320, col: 28, offset: 9847},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 320, col: 29, offset: 9848},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1379,7 +1379,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 646, col: 32, offset: 20441},
+																							pos:        position{line: 648, col: 32, offset: 20542},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1388,28 +1388,28 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 653, col: 5, offset: 20682},
+																				pos: position{line: 655, col: 5, offset: 20783},
 																				run: (*parser).callonDocumentRawLine276,
 																				expr: &seqExpr{
-																					pos: position{line: 653, col: 5, offset: 20682},
+																					pos: position{line: 655, col: 5, offset: 20783},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 653, col: 5, offset: 20682},
+																							pos:        position{line: 655, col: 5, offset: 20783},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 653, col: 9, offset: 20686},
+																							pos:   position{line: 655, col: 9, offset: 20787},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 320, col: 18, offset: 9837},
 																								run: (*parser).callonDocumentRawLine280,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 320, col: 18, offset: 9837},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 320, col: 18, offset: 9837},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1417,9 +1417,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 320, col: 28, offset: 9847},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 320, col: 29, offset: 9848},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1432,7 +1432,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 653, col: 28, offset: 20705},
+																							pos:        position{line: 655, col: 28, offset: 20806},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2902, col: 12, offset: 91651},
+																pos: position{line: 2904, col: 12, offset: 91752},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2902, col: 13, offset: 91652},
+																	pos: position{line: 2904, col: 13, offset: 91753},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2902, col: 13, offset: 91652},
+																			pos: position{line: 2904, col: 13, offset: 91753},
 																			expr: &litMatcher{
-																				pos:        position{line: 2902, col: 13, offset: 91652},
+																				pos:        position{line: 2904, col: 13, offset: 91753},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2902, col: 18, offset: 91657},
+																			pos: position{line: 2904, col: 18, offset: 91758},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2902, col: 18, offset: 91657},
+																				pos:        position{line: 2904, col: 18, offset: 91758},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2910, col: 10, offset: 91824},
+														pos: position{line: 2912, col: 10, offset: 91925},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2910, col: 10, offset: 91824},
+															pos:        position{line: 2912, col: 10, offset: 91925},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2929, col: 8, offset: 92172},
+													pos: position{line: 2931, col: 8, offset: 92273},
 													expr: &anyMatcher{
-														line: 2929, col: 9, offset: 92173,
+														line: 2931, col: 9, offset: 92274,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2910, col: 10, offset: 91824},
+														pos: position{line: 2912, col: 10, offset: 91925},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2910, col: 10, offset: 91824},
+															pos:        position{line: 2912, col: 10, offset: 91925},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,24 +1665,24 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2929, col: 8, offset: 92172},
+													pos: position{line: 2931, col: 8, offset: 92273},
 													expr: &anyMatcher{
-														line: 2929, col: 9, offset: 92173,
+														line: 2931, col: 9, offset: 92274,
 													},
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 725, col: 5, offset: 23139},
+										pos: position{line: 727, col: 5, offset: 23240},
 										run: (*parser).callonDocumentRawLine334,
 										expr: &seqExpr{
-											pos: position{line: 725, col: 5, offset: 23139},
+											pos: position{line: 727, col: 5, offset: 23240},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 725, col: 5, offset: 23139},
+													pos: position{line: 727, col: 5, offset: 23240},
 													expr: &charClassMatcher{
-														pos:        position{line: 2800, col: 13, offset: 88919},
+														pos:        position{line: 2802, col: 13, offset: 89020},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1690,36 +1690,36 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 726, col: 5, offset: 23169},
+													pos:   position{line: 728, col: 5, offset: 23270},
 													label: "delimiter",
 													expr: &choiceExpr{
-														pos: position{line: 727, col: 9, offset: 23189},
+														pos: position{line: 729, col: 9, offset: 23290},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 741, col: 5, offset: 23681},
+																pos: position{line: 743, col: 5, offset: 23782},
 																run: (*parser).callonDocumentRawLine340,
 																expr: &seqExpr{
-																	pos: position{line: 741, col: 5, offset: 23681},
+																	pos: position{line: 743, col: 5, offset: 23782},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 741, col: 5, offset: 23681},
+																			pos:   position{line: 743, col: 5, offset: 23782},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 741, col: 16, offset: 23692},
+																				pos: position{line: 743, col: 16, offset: 23793},
 																				run: (*parser).callonDocumentRawLine343,
 																				expr: &seqExpr{
-																					pos: position{line: 741, col: 16, offset: 23692},
+																					pos: position{line: 743, col: 16, offset: 23793},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 741, col: 16, offset: 23692},
+																							pos:        position{line: 743, col: 16, offset: 23793},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 741, col: 23, offset: 23699},
+																							pos: position{line: 743, col: 23, offset: 23800},
 																							expr: &litMatcher{
-																								pos:        position{line: 741, col: 23, offset: 23699},
+																								pos:        position{line: 743, col: 23, offset: 23800},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -1730,12 +1730,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 743, col: 8, offset: 23783},
+																			pos: position{line: 745, col: 8, offset: 23884},
 																			expr: &actionExpr{
-																				pos: position{line: 2910, col: 10, offset: 91824},
+																				pos: position{line: 2912, col: 10, offset: 91925},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2910, col: 10, offset: 91824},
+																					pos:        position{line: 2912, col: 10, offset: 91925},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2932, col: 8, offset: 92222},
+																			pos: position{line: 2934, col: 8, offset: 92323},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2919, col: 12, offset: 91995},
+																					pos: position{line: 2921, col: 12, offset: 92096},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2919, col: 13, offset: 91996},
+																						pos: position{line: 2921, col: 13, offset: 92097},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 13, offset: 91996},
+																								pos:        position{line: 2921, col: 13, offset: 92097},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 20, offset: 92003},
+																								pos:        position{line: 2921, col: 20, offset: 92104},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 29, offset: 92012},
+																								pos:        position{line: 2921, col: 29, offset: 92113},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
@@ -1785,30 +1785,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 748, col: 5, offset: 23929},
+																pos: position{line: 750, col: 5, offset: 24030},
 																run: (*parser).callonDocumentRawLine359,
 																expr: &seqExpr{
-																	pos: position{line: 748, col: 5, offset: 23929},
+																	pos: position{line: 750, col: 5, offset: 24030},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 748, col: 5, offset: 23929},
+																			pos:   position{line: 750, col: 5, offset: 24030},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 748, col: 16, offset: 23940},
+																				pos: position{line: 750, col: 16, offset: 24041},
 																				run: (*parser).callonDocumentRawLine362,
 																				expr: &seqExpr{
-																					pos: position{line: 748, col: 16, offset: 23940},
+																					pos: position{line: 750, col: 16, offset: 24041},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 748, col: 16, offset: 23940},
+																							pos:        position{line: 750, col: 16, offset: 24041},
 																							val:        "====",
 																							ignoreCase: false,
 																							want:       "\"====\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 748, col: 23, offset: 23947},
+																							pos: position{line: 750, col: 23, offset: 24048},
 																							expr: &litMatcher{
-																								pos:        position{line: 748, col: 23, offset: 23947},
+																								pos:        position{line: 750, col: 23, offset: 24048},
 																								val:        "=",
 																								ignoreCase: false,
 																								want:       "\"=\"",
@@ -1819,12 +1819,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 750, col: 8, offset: 24031},
+																			pos: position{line: 752, col: 8, offset: 24132},
 																			expr: &actionExpr{
-																				pos: position{line: 2910, col: 10, offset: 91824},
+																				pos: position{line: 2912, col: 10, offset: 91925},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2910, col: 10, offset: 91824},
+																					pos:        position{line: 2912, col: 10, offset: 91925},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2932, col: 8, offset: 92222},
+																			pos: position{line: 2934, col: 8, offset: 92323},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2919, col: 12, offset: 91995},
+																					pos: position{line: 2921, col: 12, offset: 92096},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2919, col: 13, offset: 91996},
+																						pos: position{line: 2921, col: 13, offset: 92097},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 13, offset: 91996},
+																								pos:        position{line: 2921, col: 13, offset: 92097},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 20, offset: 92003},
+																								pos:        position{line: 2921, col: 20, offset: 92104},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 29, offset: 92012},
+																								pos:        position{line: 2921, col: 29, offset: 92113},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
@@ -1874,27 +1874,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 761, col: 26, offset: 24417},
+																pos: position{line: 763, col: 26, offset: 24518},
 																run: (*parser).callonDocumentRawLine378,
 																expr: &seqExpr{
-																	pos: position{line: 761, col: 26, offset: 24417},
+																	pos: position{line: 763, col: 26, offset: 24518},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 761, col: 26, offset: 24417},
+																			pos:        position{line: 763, col: 26, offset: 24518},
 																			val:        "```",
 																			ignoreCase: false,
 																			want:       "\"```\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 761, col: 32, offset: 24423},
+																			pos:   position{line: 763, col: 32, offset: 24524},
 																			label: "language",
 																			expr: &actionExpr{
-																				pos: position{line: 765, col: 13, offset: 24553},
+																				pos: position{line: 767, col: 13, offset: 24654},
 																				run: (*parser).callonDocumentRawLine382,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 765, col: 14, offset: 24554},
+																					pos: position{line: 767, col: 14, offset: 24655},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 765, col: 14, offset: 24554},
+																						pos:        position{line: 767, col: 14, offset: 24655},
 																						val:        "[^\\r\\n` ]",
 																						chars:      []rune{'\r', '\n', '`', ' '},
 																						ignoreCase: false,
@@ -1904,12 +1904,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 761, col: 52, offset: 24443},
+																			pos: position{line: 763, col: 52, offset: 24544},
 																			expr: &actionExpr{
-																				pos: position{line: 2910, col: 10, offset: 91824},
+																				pos: position{line: 2912, col: 10, offset: 91925},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2910, col: 10, offset: 91824},
+																					pos:        position{line: 2912, col: 10, offset: 91925},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2932, col: 8, offset: 92222},
+																			pos: position{line: 2934, col: 8, offset: 92323},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2919, col: 12, offset: 91995},
+																					pos: position{line: 2921, col: 12, offset: 92096},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2919, col: 13, offset: 91996},
+																						pos: position{line: 2921, col: 13, offset: 92097},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 13, offset: 91996},
+																								pos:        position{line: 2921, col: 13, offset: 92097},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 20, offset: 92003},
+																								pos:        position{line: 2921, col: 20, offset: 92104},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 29, offset: 92012},
+																								pos:        position{line: 2921, col: 29, offset: 92113},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
@@ -1959,30 +1959,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 755, col: 5, offset: 24176},
+																pos: position{line: 757, col: 5, offset: 24277},
 																run: (*parser).callonDocumentRawLine396,
 																expr: &seqExpr{
-																	pos: position{line: 755, col: 5, offset: 24176},
+																	pos: position{line: 757, col: 5, offset: 24277},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 755, col: 5, offset: 24176},
+																			pos:   position{line: 757, col: 5, offset: 24277},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 755, col: 16, offset: 24187},
+																				pos: position{line: 757, col: 16, offset: 24288},
 																				run: (*parser).callonDocumentRawLine399,
 																				expr: &seqExpr{
-																					pos: position{line: 755, col: 16, offset: 24187},
+																					pos: position{line: 757, col: 16, offset: 24288},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 755, col: 16, offset: 24187},
+																							pos:        position{line: 757, col: 16, offset: 24288},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 755, col: 22, offset: 24193},
+																							pos: position{line: 757, col: 22, offset: 24294},
 																							expr: &litMatcher{
-																								pos:        position{line: 755, col: 22, offset: 24193},
+																								pos:        position{line: 757, col: 22, offset: 24294},
 																								val:        "`",
 																								ignoreCase: false,
 																								want:       "\"`\"",
@@ -1993,12 +1993,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 757, col: 8, offset: 24277},
+																			pos: position{line: 759, col: 8, offset: 24378},
 																			expr: &actionExpr{
-																				pos: position{line: 2910, col: 10, offset: 91824},
+																				pos: position{line: 2912, col: 10, offset: 91925},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2910, col: 10, offset: 91824},
+																					pos:        position{line: 2912, col: 10, offset: 91925},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2932, col: 8, offset: 92222},
+																			pos: position{line: 2934, col: 8, offset: 92323},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2919, col: 12, offset: 91995},
+																					pos: position{line: 2921, col: 12, offset: 92096},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2919, col: 13, offset: 91996},
+																						pos: position{line: 2921, col: 13, offset: 92097},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 13, offset: 91996},
+																								pos:        position{line: 2921, col: 13, offset: 92097},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 20, offset: 92003},
+																								pos:        position{line: 2921, col: 20, offset: 92104},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 29, offset: 92012},
+																								pos:        position{line: 2921, col: 29, offset: 92113},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
@@ -2048,30 +2048,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 770, col: 5, offset: 24713},
+																pos: position{line: 772, col: 5, offset: 24814},
 																run: (*parser).callonDocumentRawLine415,
 																expr: &seqExpr{
-																	pos: position{line: 770, col: 5, offset: 24713},
+																	pos: position{line: 772, col: 5, offset: 24814},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 770, col: 5, offset: 24713},
+																			pos:   position{line: 772, col: 5, offset: 24814},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 770, col: 16, offset: 24724},
+																				pos: position{line: 772, col: 16, offset: 24825},
 																				run: (*parser).callonDocumentRawLine418,
 																				expr: &seqExpr{
-																					pos: position{line: 770, col: 16, offset: 24724},
+																					pos: position{line: 772, col: 16, offset: 24825},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 770, col: 16, offset: 24724},
+																							pos:        position{line: 772, col: 16, offset: 24825},
 																							val:        "----",
 																							ignoreCase: false,
 																							want:       "\"----\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 770, col: 23, offset: 24731},
+																							pos: position{line: 772, col: 23, offset: 24832},
 																							expr: &litMatcher{
-																								pos:        position{line: 770, col: 23, offset: 24731},
+																								pos:        position{line: 772, col: 23, offset: 24832},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
@@ -2082,12 +2082,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 772, col: 8, offset: 24815},
+																			pos: position{line: 774, col: 8, offset: 24916},
 																			expr: &actionExpr{
-																				pos: position{line: 2910, col: 10, offset: 91824},
+																				pos: position{line: 2912, col: 10, offset: 91925},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2910, col: 10, offset: 91824},
+																					pos:        position{line: 2912, col: 10, offset: 91925},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2932, col: 8, offset: 92222},
+																			pos: position{line: 2934, col: 8, offset: 92323},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2919, col: 12, offset: 91995},
+																					pos: position{line: 2921, col: 12, offset: 92096},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2919, col: 13, offset: 91996},
+																						pos: position{line: 2921, col: 13, offset: 92097},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 13, offset: 91996},
+																								pos:        position{line: 2921, col: 13, offset: 92097},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 20, offset: 92003},
+																								pos:        position{line: 2921, col: 20, offset: 92104},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 29, offset: 92012},
+																								pos:        position{line: 2921, col: 29, offset: 92113},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
@@ -2137,30 +2137,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 784, col: 5, offset: 25189},
+																pos: position{line: 786, col: 5, offset: 25290},
 																run: (*parser).callonDocumentRawLine434,
 																expr: &seqExpr{
-																	pos: position{line: 784, col: 5, offset: 25189},
+																	pos: position{line: 786, col: 5, offset: 25290},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 784, col: 5, offset: 25189},
+																			pos:   position{line: 786, col: 5, offset: 25290},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 784, col: 16, offset: 25200},
+																				pos: position{line: 786, col: 16, offset: 25301},
 																				run: (*parser).callonDocumentRawLine437,
 																				expr: &seqExpr{
-																					pos: position{line: 784, col: 16, offset: 25200},
+																					pos: position{line: 786, col: 16, offset: 25301},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 784, col: 16, offset: 25200},
+																							pos:        position{line: 786, col: 16, offset: 25301},
 																							val:        "....",
 																							ignoreCase: false,
 																							want:       "\"....\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 784, col: 23, offset: 25207},
+																							pos: position{line: 786, col: 23, offset: 25308},
 																							expr: &litMatcher{
-																								pos:        position{line: 784, col: 23, offset: 25207},
+																								pos:        position{line: 786, col: 23, offset: 25308},
 																								val:        ".",
 																								ignoreCase: false,
 																								want:       "\".\"",
@@ -2171,12 +2171,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 786, col: 8, offset: 25291},
+																			pos: position{line: 788, col: 8, offset: 25392},
 																			expr: &actionExpr{
-																				pos: position{line: 2910, col: 10, offset: 91824},
+																				pos: position{line: 2912, col: 10, offset: 91925},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2910, col: 10, offset: 91824},
+																					pos:        position{line: 2912, col: 10, offset: 91925},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2932, col: 8, offset: 92222},
+																			pos: position{line: 2934, col: 8, offset: 92323},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2919, col: 12, offset: 91995},
+																					pos: position{line: 2921, col: 12, offset: 92096},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2919, col: 13, offset: 91996},
+																						pos: position{line: 2921, col: 13, offset: 92097},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 13, offset: 91996},
+																								pos:        position{line: 2921, col: 13, offset: 92097},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 20, offset: 92003},
+																								pos:        position{line: 2921, col: 20, offset: 92104},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 29, offset: 92012},
+																								pos:        position{line: 2921, col: 29, offset: 92113},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
@@ -2226,30 +2226,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 791, col: 5, offset: 25441},
+																pos: position{line: 793, col: 5, offset: 25542},
 																run: (*parser).callonDocumentRawLine453,
 																expr: &seqExpr{
-																	pos: position{line: 791, col: 5, offset: 25441},
+																	pos: position{line: 793, col: 5, offset: 25542},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 791, col: 5, offset: 25441},
+																			pos:   position{line: 793, col: 5, offset: 25542},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 791, col: 16, offset: 25452},
+																				pos: position{line: 793, col: 16, offset: 25553},
 																				run: (*parser).callonDocumentRawLine456,
 																				expr: &seqExpr{
-																					pos: position{line: 791, col: 16, offset: 25452},
+																					pos: position{line: 793, col: 16, offset: 25553},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 791, col: 16, offset: 25452},
+																							pos:        position{line: 793, col: 16, offset: 25553},
 																							val:        "++++",
 																							ignoreCase: false,
 																							want:       "\"++++\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 791, col: 23, offset: 25459},
+																							pos: position{line: 793, col: 23, offset: 25560},
 																							expr: &litMatcher{
-																								pos:        position{line: 791, col: 23, offset: 25459},
+																								pos:        position{line: 793, col: 23, offset: 25560},
 																								val:        "+",
 																								ignoreCase: false,
 																								want:       "\"+\"",
@@ -2260,12 +2260,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 793, col: 8, offset: 25543},
+																			pos: position{line: 795, col: 8, offset: 25644},
 																			expr: &actionExpr{
-																				pos: position{line: 2910, col: 10, offset: 91824},
+																				pos: position{line: 2912, col: 10, offset: 91925},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2910, col: 10, offset: 91824},
+																					pos:        position{line: 2912, col: 10, offset: 91925},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2932, col: 8, offset: 92222},
+																			pos: position{line: 2934, col: 8, offset: 92323},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2919, col: 12, offset: 91995},
+																					pos: position{line: 2921, col: 12, offset: 92096},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2919, col: 13, offset: 91996},
+																						pos: position{line: 2921, col: 13, offset: 92097},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 13, offset: 91996},
+																								pos:        position{line: 2921, col: 13, offset: 92097},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 20, offset: 92003},
+																								pos:        position{line: 2921, col: 20, offset: 92104},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 29, offset: 92012},
+																								pos:        position{line: 2921, col: 29, offset: 92113},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
@@ -2315,30 +2315,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 798, col: 5, offset: 25691},
+																pos: position{line: 800, col: 5, offset: 25792},
 																run: (*parser).callonDocumentRawLine472,
 																expr: &seqExpr{
-																	pos: position{line: 798, col: 5, offset: 25691},
+																	pos: position{line: 800, col: 5, offset: 25792},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 798, col: 5, offset: 25691},
+																			pos:   position{line: 800, col: 5, offset: 25792},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 798, col: 16, offset: 25702},
+																				pos: position{line: 800, col: 16, offset: 25803},
 																				run: (*parser).callonDocumentRawLine475,
 																				expr: &seqExpr{
-																					pos: position{line: 798, col: 16, offset: 25702},
+																					pos: position{line: 800, col: 16, offset: 25803},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 798, col: 16, offset: 25702},
+																							pos:        position{line: 800, col: 16, offset: 25803},
 																							val:        "____",
 																							ignoreCase: false,
 																							want:       "\"____\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 798, col: 23, offset: 25709},
+																							pos: position{line: 800, col: 23, offset: 25810},
 																							expr: &litMatcher{
-																								pos:        position{line: 798, col: 23, offset: 25709},
+																								pos:        position{line: 800, col: 23, offset: 25810},
 																								val:        "_",
 																								ignoreCase: false,
 																								want:       "\"_\"",
@@ -2349,12 +2349,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 800, col: 8, offset: 25793},
+																			pos: position{line: 802, col: 8, offset: 25894},
 																			expr: &actionExpr{
-																				pos: position{line: 2910, col: 10, offset: 91824},
+																				pos: position{line: 2912, col: 10, offset: 91925},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2910, col: 10, offset: 91824},
+																					pos:        position{line: 2912, col: 10, offset: 91925},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2932, col: 8, offset: 92222},
+																			pos: position{line: 2934, col: 8, offset: 92323},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2919, col: 12, offset: 91995},
+																					pos: position{line: 2921, col: 12, offset: 92096},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2919, col: 13, offset: 91996},
+																						pos: position{line: 2921, col: 13, offset: 92097},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 13, offset: 91996},
+																								pos:        position{line: 2921, col: 13, offset: 92097},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 20, offset: 92003},
+																								pos:        position{line: 2921, col: 20, offset: 92104},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 29, offset: 92012},
+																								pos:        position{line: 2921, col: 29, offset: 92113},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
@@ -2404,30 +2404,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 805, col: 5, offset: 25937},
+																pos: position{line: 807, col: 5, offset: 26038},
 																run: (*parser).callonDocumentRawLine491,
 																expr: &seqExpr{
-																	pos: position{line: 805, col: 5, offset: 25937},
+																	pos: position{line: 807, col: 5, offset: 26038},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 805, col: 5, offset: 25937},
+																			pos:   position{line: 807, col: 5, offset: 26038},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 805, col: 16, offset: 25948},
+																				pos: position{line: 807, col: 16, offset: 26049},
 																				run: (*parser).callonDocumentRawLine494,
 																				expr: &seqExpr{
-																					pos: position{line: 805, col: 16, offset: 25948},
+																					pos: position{line: 807, col: 16, offset: 26049},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 805, col: 16, offset: 25948},
+																							pos:        position{line: 807, col: 16, offset: 26049},
 																							val:        "****",
 																							ignoreCase: false,
 																							want:       "\"****\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 805, col: 23, offset: 25955},
+																							pos: position{line: 807, col: 23, offset: 26056},
 																							expr: &litMatcher{
-																								pos:        position{line: 805, col: 23, offset: 25955},
+																								pos:        position{line: 807, col: 23, offset: 26056},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -2438,12 +2438,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 807, col: 8, offset: 26039},
+																			pos: position{line: 809, col: 8, offset: 26140},
 																			expr: &actionExpr{
-																				pos: position{line: 2910, col: 10, offset: 91824},
+																				pos: position{line: 2912, col: 10, offset: 91925},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2910, col: 10, offset: 91824},
+																					pos:        position{line: 2912, col: 10, offset: 91925},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2932, col: 8, offset: 92222},
+																			pos: position{line: 2934, col: 8, offset: 92323},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2919, col: 12, offset: 91995},
+																					pos: position{line: 2921, col: 12, offset: 92096},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2919, col: 13, offset: 91996},
+																						pos: position{line: 2921, col: 13, offset: 92097},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 13, offset: 91996},
+																								pos:        position{line: 2921, col: 13, offset: 92097},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 20, offset: 92003},
+																								pos:        position{line: 2921, col: 20, offset: 92104},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 29, offset: 92012},
+																								pos:        position{line: 2921, col: 29, offset: 92113},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2914, col: 11, offset: 91885},
+													pos: position{line: 2916, col: 11, offset: 91986},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2914, col: 11, offset: 91885},
+														pos: position{line: 2916, col: 11, offset: 91986},
 														expr: &charClassMatcher{
-															pos:        position{line: 2914, col: 11, offset: 91885},
+															pos:        position{line: 2916, col: 11, offset: 91986},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2860, col: 14, offset: 90417},
+													pos: position{line: 2862, col: 14, offset: 90518},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2860, col: 14, offset: 90417},
+														pos: position{line: 2862, col: 14, offset: 90518},
 														expr: &charClassMatcher{
-															pos:        position{line: 2860, col: 14, offset: 90417},
+															pos:        position{line: 2862, col: 14, offset: 90518},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2929, col: 8, offset: 92172},
+													pos: position{line: 2931, col: 8, offset: 92273},
 													expr: &anyMatcher{
-														line: 2929, col: 9, offset: 92173,
+														line: 2931, col: 9, offset: 92274,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2929, col: 8, offset: 92172},
+							pos: position{line: 2931, col: 8, offset: 92273},
 							expr: &anyMatcher{
-								line: 2929, col: 9, offset: 92173,
+								line: 2931, col: 9, offset: 92274,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2864, col: 17, offset: 90487},
+												pos: position{line: 2866, col: 17, offset: 90588},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2864, col: 17, offset: 90487},
+													pos:   position{line: 2866, col: 17, offset: 90588},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 5, offset: 90941},
+														pos: position{line: 2883, col: 5, offset: 91042},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2881, col: 5, offset: 90941},
+															pos:   position{line: 2883, col: 5, offset: 91042},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2881, col: 14, offset: 90950},
+																pos: position{line: 2883, col: 14, offset: 91051},
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 9, offset: 90960},
+																	pos: position{line: 2884, col: 9, offset: 91061},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 9, offset: 90960},
+																			pos: position{line: 2884, col: 9, offset: 91061},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2882, col: 9, offset: 90960},
+																				pos: position{line: 2884, col: 9, offset: 91061},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2882, col: 9, offset: 90960},
+																						pos: position{line: 2884, col: 9, offset: 91061},
 																						expr: &litMatcher{
-																							pos:        position{line: 2882, col: 10, offset: 90961},
+																							pos:        position{line: 2884, col: 10, offset: 91062},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2883, col: 9, offset: 90989},
+																						pos: position{line: 2885, col: 9, offset: 91090},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2883, col: 10, offset: 90990},
+																							pos:        position{line: 2885, col: 10, offset: 91091},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2886, col: 11, offset: 91202},
+																			pos: position{line: 2888, col: 11, offset: 91303},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2886, col: 11, offset: 91202},
+																					pos:        position{line: 2888, col: 11, offset: 91303},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2886, col: 19, offset: 91210},
+																					pos: position{line: 2888, col: 19, offset: 91311},
 																					expr: &seqExpr{
-																						pos: position{line: 2886, col: 21, offset: 91212},
+																						pos: position{line: 2888, col: 21, offset: 91313},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2886, col: 21, offset: 91212},
+																								pos: position{line: 2888, col: 21, offset: 91313},
 																								expr: &actionExpr{
-																									pos: position{line: 2910, col: 10, offset: 91824},
+																									pos: position{line: 2912, col: 10, offset: 91925},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2910, col: 10, offset: 91824},
+																										pos:        position{line: 2912, col: 10, offset: 91925},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 28, offset: 91219},
+																								pos: position{line: 2888, col: 28, offset: 91320},
 																								expr: &notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -2699,44 +2699,44 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 637, col: 5, offset: 20204},
+																			pos: position{line: 639, col: 5, offset: 20305},
 																			run: (*parser).callonFileInclusion30,
 																			expr: &seqExpr{
-																				pos: position{line: 637, col: 5, offset: 20204},
+																				pos: position{line: 639, col: 5, offset: 20305},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 637, col: 5, offset: 20204},
+																						pos: position{line: 639, col: 5, offset: 20305},
 																						run: (*parser).callonFileInclusion32,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 640, col: 5, offset: 20276},
+																						pos:   position{line: 642, col: 5, offset: 20377},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 640, col: 14, offset: 20285},
+																							pos: position{line: 642, col: 14, offset: 20386},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 646, col: 5, offset: 20414},
+																									pos: position{line: 648, col: 5, offset: 20515},
 																									run: (*parser).callonFileInclusion35,
 																									expr: &seqExpr{
-																										pos: position{line: 646, col: 5, offset: 20414},
+																										pos: position{line: 648, col: 5, offset: 20515},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 646, col: 5, offset: 20414},
+																												pos:        position{line: 648, col: 5, offset: 20515},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 646, col: 13, offset: 20422},
+																												pos:   position{line: 648, col: 13, offset: 20523},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 320, col: 18, offset: 9837},
 																													run: (*parser).callonFileInclusion39,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 320, col: 18, offset: 9837},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2744,9 +2744,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 320, col: 29, offset: 9848},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2759,7 +2759,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 646, col: 32, offset: 20441},
+																												pos:        position{line: 648, col: 32, offset: 20542},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2768,28 +2768,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 653, col: 5, offset: 20682},
+																									pos: position{line: 655, col: 5, offset: 20783},
 																									run: (*parser).callonFileInclusion45,
 																									expr: &seqExpr{
-																										pos: position{line: 653, col: 5, offset: 20682},
+																										pos: position{line: 655, col: 5, offset: 20783},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 653, col: 5, offset: 20682},
+																												pos:        position{line: 655, col: 5, offset: 20783},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 653, col: 9, offset: 20686},
+																												pos:   position{line: 655, col: 9, offset: 20787},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 320, col: 18, offset: 9837},
 																													run: (*parser).callonFileInclusion49,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 320, col: 18, offset: 9837},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2797,9 +2797,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 320, col: 29, offset: 9848},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2812,7 +2812,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 653, col: 28, offset: 20705},
+																												pos:        position{line: 655, col: 28, offset: 20806},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2821,28 +2821,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 659, col: 25, offset: 20886},
+																									pos: position{line: 661, col: 25, offset: 20987},
 																									run: (*parser).callonFileInclusion55,
 																									expr: &seqExpr{
-																										pos: position{line: 659, col: 25, offset: 20886},
+																										pos: position{line: 661, col: 25, offset: 20987},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 659, col: 25, offset: 20886},
+																												pos:        position{line: 661, col: 25, offset: 20987},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 37, offset: 20898},
+																												pos:   position{line: 661, col: 37, offset: 20999},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 320, col: 18, offset: 9837},
 																													run: (*parser).callonFileInclusion59,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 320, col: 18, offset: 9837},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2850,9 +2850,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 320, col: 29, offset: 9848},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2865,33 +2865,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 56, offset: 20917},
+																												pos:   position{line: 661, col: 56, offset: 21018},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 659, col: 62, offset: 20923},
+																													pos: position{line: 661, col: 62, offset: 21024},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21220},
+																														pos: position{line: 669, col: 17, offset: 21321},
 																														run: (*parser).callonFileInclusion66,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21220},
+																															pos: position{line: 669, col: 17, offset: 21321},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21220},
+																																	pos:        position{line: 669, col: 17, offset: 21321},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21224},
+																																	pos:   position{line: 669, col: 21, offset: 21325},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21231},
+																																		pos: position{line: 669, col: 28, offset: 21332},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21231},
+																																				pos: position{line: 669, col: 28, offset: 21332},
 																																				run: (*parser).callonFileInclusion71,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21231},
+																																					pos:        position{line: 669, col: 28, offset: 21332},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -2899,12 +2899,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21285},
+																																				pos: position{line: 671, col: 9, offset: 21386},
 																																				run: (*parser).callonFileInclusion73,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21285},
+																																					pos: position{line: 671, col: 9, offset: 21386},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21285},
+																																						pos:        position{line: 671, col: 9, offset: 21386},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -2921,7 +2921,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 659, col: 78, offset: 20939},
+																												pos:        position{line: 661, col: 78, offset: 21040},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2930,28 +2930,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 663, col: 25, offset: 21057},
+																									pos: position{line: 665, col: 25, offset: 21158},
 																									run: (*parser).callonFileInclusion77,
 																									expr: &seqExpr{
-																										pos: position{line: 663, col: 25, offset: 21057},
+																										pos: position{line: 665, col: 25, offset: 21158},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 663, col: 25, offset: 21057},
+																												pos:        position{line: 665, col: 25, offset: 21158},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 38, offset: 21070},
+																												pos:   position{line: 665, col: 38, offset: 21171},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 320, col: 18, offset: 9837},
 																													run: (*parser).callonFileInclusion81,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 320, col: 18, offset: 9837},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2959,9 +2959,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 320, col: 29, offset: 9848},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2974,33 +2974,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 57, offset: 21089},
+																												pos:   position{line: 665, col: 57, offset: 21190},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 663, col: 63, offset: 21095},
+																													pos: position{line: 665, col: 63, offset: 21196},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21220},
+																														pos: position{line: 669, col: 17, offset: 21321},
 																														run: (*parser).callonFileInclusion88,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21220},
+																															pos: position{line: 669, col: 17, offset: 21321},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21220},
+																																	pos:        position{line: 669, col: 17, offset: 21321},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21224},
+																																	pos:   position{line: 669, col: 21, offset: 21325},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21231},
+																																		pos: position{line: 669, col: 28, offset: 21332},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21231},
+																																				pos: position{line: 669, col: 28, offset: 21332},
 																																				run: (*parser).callonFileInclusion93,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21231},
+																																					pos:        position{line: 669, col: 28, offset: 21332},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3008,12 +3008,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21285},
+																																				pos: position{line: 671, col: 9, offset: 21386},
 																																				run: (*parser).callonFileInclusion95,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21285},
+																																					pos: position{line: 671, col: 9, offset: 21386},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21285},
+																																						pos:        position{line: 671, col: 9, offset: 21386},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3030,7 +3030,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 663, col: 79, offset: 21111},
+																												pos:        position{line: 665, col: 79, offset: 21212},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -3045,27 +3045,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1199, col: 23, offset: 37069},
+																			pos: position{line: 1201, col: 23, offset: 37170},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1199, col: 23, offset: 37069},
+																				pos: position{line: 1201, col: 23, offset: 37170},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1197, col: 32, offset: 37037},
+																						pos:        position{line: 1199, col: 32, offset: 37138},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1199, col: 51, offset: 37097},
+																						pos:   position{line: 1201, col: 51, offset: 37198},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1199, col: 56, offset: 37102},
+																							pos: position{line: 1201, col: 56, offset: 37203},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1199, col: 56, offset: 37102},
+																								pos: position{line: 1201, col: 56, offset: 37203},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1199, col: 56, offset: 37102},
+																									pos:        position{line: 1201, col: 56, offset: 37203},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3075,7 +3075,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1197, col: 32, offset: 37037},
+																						pos:        position{line: 1199, col: 32, offset: 37138},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2889, col: 11, offset: 91339},
+																			pos: position{line: 2891, col: 11, offset: 91440},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2889, col: 11, offset: 91339},
+																				pos:        position{line: 2891, col: 11, offset: 91440},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2910, col: 10, offset: 91824},
+								pos: position{line: 2912, col: 10, offset: 91925},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2910, col: 10, offset: 91824},
+									pos:        position{line: 2912, col: 10, offset: 91925},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2932, col: 8, offset: 92222},
+							pos: position{line: 2934, col: 8, offset: 92323},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2919, col: 12, offset: 91995},
+									pos: position{line: 2921, col: 12, offset: 92096},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2919, col: 13, offset: 91996},
+										pos: position{line: 2921, col: 13, offset: 92097},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2919, col: 13, offset: 91996},
+												pos:        position{line: 2921, col: 13, offset: 92097},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2919, col: 20, offset: 92003},
+												pos:        position{line: 2921, col: 20, offset: 92104},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2919, col: 29, offset: 92012},
+												pos:        position{line: 2921, col: 29, offset: 92113},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2929, col: 8, offset: 92172},
+									pos: position{line: 2931, col: 8, offset: 92273},
 									expr: &anyMatcher{
-										line: 2929, col: 9, offset: 92173,
+										line: 2931, col: 9, offset: 92274,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2902, col: 12, offset: 91651},
+																				pos: position{line: 2904, col: 12, offset: 91752},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2902, col: 13, offset: 91652},
+																					pos: position{line: 2904, col: 13, offset: 91753},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2902, col: 13, offset: 91652},
+																							pos: position{line: 2904, col: 13, offset: 91753},
 																							expr: &litMatcher{
-																								pos:        position{line: 2902, col: 13, offset: 91652},
+																								pos:        position{line: 2904, col: 13, offset: 91753},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2902, col: 18, offset: 91657},
+																							pos: position{line: 2904, col: 18, offset: 91758},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2902, col: 18, offset: 91657},
+																								pos:        position{line: 2904, col: 18, offset: 91758},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2902, col: 12, offset: 91651},
+																				pos: position{line: 2904, col: 12, offset: 91752},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2902, col: 13, offset: 91652},
+																					pos: position{line: 2904, col: 13, offset: 91753},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2902, col: 13, offset: 91652},
+																							pos: position{line: 2904, col: 13, offset: 91753},
 																							expr: &litMatcher{
-																								pos:        position{line: 2902, col: 13, offset: 91652},
+																								pos:        position{line: 2904, col: 13, offset: 91753},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2902, col: 18, offset: 91657},
+																							pos: position{line: 2904, col: 18, offset: 91758},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2902, col: 18, offset: 91657},
+																								pos:        position{line: 2904, col: 18, offset: 91758},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2902, col: 12, offset: 91651},
+																		pos: position{line: 2904, col: 12, offset: 91752},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2902, col: 13, offset: 91652},
+																			pos: position{line: 2904, col: 13, offset: 91753},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2902, col: 13, offset: 91652},
+																					pos: position{line: 2904, col: 13, offset: 91753},
 																					expr: &litMatcher{
-																						pos:        position{line: 2902, col: 13, offset: 91652},
+																						pos:        position{line: 2904, col: 13, offset: 91753},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2902, col: 18, offset: 91657},
+																					pos: position{line: 2904, col: 18, offset: 91758},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2902, col: 18, offset: 91657},
+																						pos:        position{line: 2904, col: 18, offset: 91758},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2902, col: 12, offset: 91651},
+																									pos: position{line: 2904, col: 12, offset: 91752},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2902, col: 13, offset: 91652},
+																										pos: position{line: 2904, col: 13, offset: 91753},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2902, col: 13, offset: 91652},
+																												pos: position{line: 2904, col: 13, offset: 91753},
 																												expr: &litMatcher{
-																													pos:        position{line: 2902, col: 13, offset: 91652},
+																													pos:        position{line: 2904, col: 13, offset: 91753},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2902, col: 18, offset: 91657},
+																												pos: position{line: 2904, col: 18, offset: 91758},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2902, col: 18, offset: 91657},
+																													pos:        position{line: 2904, col: 18, offset: 91758},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2902, col: 12, offset: 91651},
+																									pos: position{line: 2904, col: 12, offset: 91752},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2902, col: 13, offset: 91652},
+																										pos: position{line: 2904, col: 13, offset: 91753},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2902, col: 13, offset: 91652},
+																												pos: position{line: 2904, col: 13, offset: 91753},
 																												expr: &litMatcher{
-																													pos:        position{line: 2902, col: 13, offset: 91652},
+																													pos:        position{line: 2904, col: 13, offset: 91753},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2902, col: 18, offset: 91657},
+																												pos: position{line: 2904, col: 18, offset: 91758},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2902, col: 18, offset: 91657},
+																													pos:        position{line: 2904, col: 18, offset: 91758},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2902, col: 12, offset: 91651},
+																							pos: position{line: 2904, col: 12, offset: 91752},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2902, col: 13, offset: 91652},
+																								pos: position{line: 2904, col: 13, offset: 91753},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2902, col: 13, offset: 91652},
+																										pos: position{line: 2904, col: 13, offset: 91753},
 																										expr: &litMatcher{
-																											pos:        position{line: 2902, col: 13, offset: 91652},
+																											pos:        position{line: 2904, col: 13, offset: 91753},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2902, col: 18, offset: 91657},
+																										pos: position{line: 2904, col: 18, offset: 91758},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2902, col: 18, offset: 91657},
+																											pos:        position{line: 2904, col: 18, offset: 91758},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 12, offset: 91651},
+														pos: position{line: 2904, col: 12, offset: 91752},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2902, col: 13, offset: 91652},
+															pos: position{line: 2904, col: 13, offset: 91753},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2902, col: 13, offset: 91652},
+																	pos: position{line: 2904, col: 13, offset: 91753},
 																	expr: &litMatcher{
-																		pos:        position{line: 2902, col: 13, offset: 91652},
+																		pos:        position{line: 2904, col: 13, offset: 91753},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2902, col: 18, offset: 91657},
+																	pos: position{line: 2904, col: 18, offset: 91758},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2902, col: 18, offset: 91657},
+																		pos:        position{line: 2904, col: 18, offset: 91758},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 12, offset: 91651},
+														pos: position{line: 2904, col: 12, offset: 91752},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2902, col: 13, offset: 91652},
+															pos: position{line: 2904, col: 13, offset: 91753},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2902, col: 13, offset: 91652},
+																	pos: position{line: 2904, col: 13, offset: 91753},
 																	expr: &litMatcher{
-																		pos:        position{line: 2902, col: 13, offset: 91652},
+																		pos:        position{line: 2904, col: 13, offset: 91753},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2902, col: 18, offset: 91657},
+																	pos: position{line: 2904, col: 18, offset: 91758},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2902, col: 18, offset: 91657},
+																		pos:        position{line: 2904, col: 18, offset: 91758},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2902, col: 12, offset: 91651},
+												pos: position{line: 2904, col: 12, offset: 91752},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2902, col: 13, offset: 91652},
+													pos: position{line: 2904, col: 13, offset: 91753},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2902, col: 13, offset: 91652},
+															pos: position{line: 2904, col: 13, offset: 91753},
 															expr: &litMatcher{
-																pos:        position{line: 2902, col: 13, offset: 91652},
+																pos:        position{line: 2904, col: 13, offset: 91753},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2902, col: 18, offset: 91657},
+															pos: position{line: 2904, col: 18, offset: 91758},
 															expr: &charClassMatcher{
-																pos:        position{line: 2902, col: 18, offset: 91657},
+																pos:        position{line: 2904, col: 18, offset: 91758},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2929, col: 8, offset: 92172},
+							pos: position{line: 2931, col: 8, offset: 92273},
 							expr: &anyMatcher{
-								line: 2929, col: 9, offset: 92173,
+								line: 2931, col: 9, offset: 92274,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2804, col: 14, offset: 88993},
+																		pos: position{line: 2806, col: 14, offset: 89094},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2804, col: 14, offset: 88993},
+																			pos: position{line: 2806, col: 14, offset: 89094},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2804, col: 14, offset: 88993},
+																				pos:        position{line: 2806, col: 14, offset: 89094},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2804, col: 14, offset: 88993},
+																				pos: position{line: 2806, col: 14, offset: 89094},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2804, col: 14, offset: 88993},
+																					pos: position{line: 2806, col: 14, offset: 89094},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2804, col: 14, offset: 88993},
+																						pos:        position{line: 2806, col: 14, offset: 89094},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2804, col: 14, offset: 88993},
+																							pos: position{line: 2806, col: 14, offset: 89094},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2804, col: 14, offset: 88993},
+																								pos: position{line: 2806, col: 14, offset: 89094},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2804, col: 14, offset: 88993},
+																									pos:        position{line: 2806, col: 14, offset: 89094},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2804, col: 14, offset: 88993},
+																									pos: position{line: 2806, col: 14, offset: 89094},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2804, col: 14, offset: 88993},
+																										pos: position{line: 2806, col: 14, offset: 89094},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2804, col: 14, offset: 88993},
+																											pos:        position{line: 2806, col: 14, offset: 89094},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2929, col: 8, offset: 92172},
+							pos: position{line: 2931, col: 8, offset: 92273},
 							expr: &anyMatcher{
-								line: 2929, col: 9, offset: 92173,
+								line: 2931, col: 9, offset: 92274,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2804, col: 14, offset: 88993},
+																pos: position{line: 2806, col: 14, offset: 89094},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2804, col: 14, offset: 88993},
+																	pos: position{line: 2806, col: 14, offset: 89094},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2804, col: 14, offset: 88993},
+																		pos:        position{line: 2806, col: 14, offset: 89094},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2804, col: 14, offset: 88993},
+																pos: position{line: 2806, col: 14, offset: 89094},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2804, col: 14, offset: 88993},
+																	pos: position{line: 2806, col: 14, offset: 89094},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2804, col: 14, offset: 88993},
+																		pos:        position{line: 2806, col: 14, offset: 89094},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2932, col: 8, offset: 92222},
+							pos: position{line: 2934, col: 8, offset: 92323},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2919, col: 12, offset: 91995},
+									pos: position{line: 2921, col: 12, offset: 92096},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2919, col: 13, offset: 91996},
+										pos: position{line: 2921, col: 13, offset: 92097},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2919, col: 13, offset: 91996},
+												pos:        position{line: 2921, col: 13, offset: 92097},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2919, col: 20, offset: 92003},
+												pos:        position{line: 2921, col: 20, offset: 92104},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2919, col: 29, offset: 92012},
+												pos:        position{line: 2921, col: 29, offset: 92113},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2929, col: 8, offset: 92172},
+									pos: position{line: 2931, col: 8, offset: 92273},
 									expr: &anyMatcher{
-										line: 2929, col: 9, offset: 92173,
+										line: 2931, col: 9, offset: 92274,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2927, col: 11, offset: 92158},
+							pos: position{line: 2929, col: 11, offset: 92259},
 							expr: &anyMatcher{
-								line: 2927, col: 13, offset: 92160,
+								line: 2929, col: 13, offset: 92261,
 							},
 						},
 						&labeledExpr{
@@ -4102,52 +4102,52 @@ var g = &grammar{
 							run: (*parser).callonDocumentFragment8,
 						},
 						&labeledExpr{
-							pos:   position{line: 236, col: 5, offset: 6999},
+							pos:   position{line: 238, col: 5, offset: 7100},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 236, col: 13, offset: 7007},
+								pos: position{line: 238, col: 13, offset: 7108},
 								expr: &choiceExpr{
-									pos: position{line: 237, col: 9, offset: 7017},
+									pos: position{line: 239, col: 9, offset: 7118},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 237, col: 9, offset: 7017},
+											pos:  position{line: 239, col: 9, offset: 7118},
 											name: "ImageBlock",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 238, col: 11, offset: 7078},
+											pos:  position{line: 240, col: 11, offset: 7179},
 											name: "UserMacroBlock",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 239, col: 11, offset: 7143},
+											pos:  position{line: 241, col: 11, offset: 7244},
 											name: "ShortcutParagraph",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 240, col: 11, offset: 7171},
+											pos:  position{line: 242, col: 11, offset: 7272},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
-											pos: position{line: 360, col: 19, offset: 10910},
+											pos: position{line: 362, col: 19, offset: 11011},
 											run: (*parser).callonDocumentFragment16,
 											expr: &seqExpr{
-												pos: position{line: 360, col: 19, offset: 10910},
+												pos: position{line: 362, col: 19, offset: 11011},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 360, col: 19, offset: 10910},
+														pos:        position{line: 362, col: 19, offset: 11011},
 														val:        ":!",
 														ignoreCase: false,
 														want:       "\":!\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 360, col: 24, offset: 10915},
+														pos:   position{line: 362, col: 24, offset: 11016},
 														label: "name",
 														expr: &actionExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 320, col: 18, offset: 9837},
 															run: (*parser).callonDocumentFragment20,
 															expr: &seqExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 320, col: 18, offset: 9837},
 																exprs: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 318, col: 18, offset: 9736},
+																		pos:        position{line: 320, col: 18, offset: 9837},
 																		val:        "[_\\pL\\pN]",
 																		chars:      []rune{'_'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -4155,9 +4155,9 @@ var g = &grammar{
 																		inverted:   false,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 318, col: 28, offset: 9746},
+																		pos: position{line: 320, col: 28, offset: 9847},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 318, col: 29, offset: 9747},
+																			pos:        position{line: 320, col: 29, offset: 9848},
 																			val:        "[-\\pL\\pN]",
 																			chars:      []rune{'-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -4170,18 +4170,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 360, col: 45, offset: 10936},
+														pos:        position{line: 362, col: 45, offset: 11037},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 360, col: 49, offset: 10940},
+														pos: position{line: 362, col: 49, offset: 11041},
 														expr: &actionExpr{
-															pos: position{line: 2910, col: 10, offset: 91824},
+															pos: position{line: 2912, col: 10, offset: 91925},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2910, col: 10, offset: 91824},
+																pos:        position{line: 2912, col: 10, offset: 91925},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2932, col: 8, offset: 92222},
+														pos: position{line: 2934, col: 8, offset: 92323},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2919, col: 12, offset: 91995},
+																pos: position{line: 2921, col: 12, offset: 92096},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2919, col: 13, offset: 91996},
+																	pos: position{line: 2921, col: 13, offset: 92097},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 13, offset: 91996},
+																			pos:        position{line: 2921, col: 13, offset: 92097},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 20, offset: 92003},
+																			pos:        position{line: 2921, col: 20, offset: 92104},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 29, offset: 92012},
+																			pos:        position{line: 2921, col: 29, offset: 92113},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2929, col: 8, offset: 92172},
+																pos: position{line: 2931, col: 8, offset: 92273},
 																expr: &anyMatcher{
-																	line: 2929, col: 9, offset: 92173,
+																	line: 2931, col: 9, offset: 92274,
 																},
 															},
 														},
@@ -4231,28 +4231,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 362, col: 9, offset: 11031},
+											pos: position{line: 364, col: 9, offset: 11132},
 											run: (*parser).callonDocumentFragment37,
 											expr: &seqExpr{
-												pos: position{line: 362, col: 9, offset: 11031},
+												pos: position{line: 364, col: 9, offset: 11132},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 362, col: 9, offset: 11031},
+														pos:        position{line: 364, col: 9, offset: 11132},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 362, col: 13, offset: 11035},
+														pos:   position{line: 364, col: 13, offset: 11136},
 														label: "name",
 														expr: &actionExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 320, col: 18, offset: 9837},
 															run: (*parser).callonDocumentFragment41,
 															expr: &seqExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 320, col: 18, offset: 9837},
 																exprs: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 318, col: 18, offset: 9736},
+																		pos:        position{line: 320, col: 18, offset: 9837},
 																		val:        "[_\\pL\\pN]",
 																		chars:      []rune{'_'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -4260,9 +4260,9 @@ var g = &grammar{
 																		inverted:   false,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 318, col: 28, offset: 9746},
+																		pos: position{line: 320, col: 28, offset: 9847},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 318, col: 29, offset: 9747},
+																			pos:        position{line: 320, col: 29, offset: 9848},
 																			val:        "[-\\pL\\pN]",
 																			chars:      []rune{'-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -4275,18 +4275,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 362, col: 34, offset: 11056},
+														pos:        position{line: 364, col: 34, offset: 11157},
 														val:        "!:",
 														ignoreCase: false,
 														want:       "\"!:\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 362, col: 39, offset: 11061},
+														pos: position{line: 364, col: 39, offset: 11162},
 														expr: &actionExpr{
-															pos: position{line: 2910, col: 10, offset: 91824},
+															pos: position{line: 2912, col: 10, offset: 91925},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2910, col: 10, offset: 91824},
+																pos:        position{line: 2912, col: 10, offset: 91925},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2932, col: 8, offset: 92222},
+														pos: position{line: 2934, col: 8, offset: 92323},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2919, col: 12, offset: 91995},
+																pos: position{line: 2921, col: 12, offset: 92096},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2919, col: 13, offset: 91996},
+																	pos: position{line: 2921, col: 13, offset: 92097},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 13, offset: 91996},
+																			pos:        position{line: 2921, col: 13, offset: 92097},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 20, offset: 92003},
+																			pos:        position{line: 2921, col: 20, offset: 92104},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 29, offset: 92012},
+																			pos:        position{line: 2921, col: 29, offset: 92113},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2929, col: 8, offset: 92172},
+																pos: position{line: 2931, col: 8, offset: 92273},
 																expr: &anyMatcher{
-																	line: 2929, col: 9, offset: 92173,
+																	line: 2931, col: 9, offset: 92274,
 																},
 															},
 														},
@@ -4336,24 +4336,24 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 678, col: 14, offset: 21586},
+											pos: position{line: 680, col: 14, offset: 21687},
 											run: (*parser).callonDocumentFragment58,
 											expr: &seqExpr{
-												pos: position{line: 678, col: 14, offset: 21586},
+												pos: position{line: 680, col: 14, offset: 21687},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2927, col: 11, offset: 92158},
+														pos: position{line: 2929, col: 11, offset: 92259},
 														expr: &anyMatcher{
-															line: 2927, col: 13, offset: 92160,
+															line: 2929, col: 13, offset: 92261,
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 678, col: 21, offset: 21593},
+														pos: position{line: 680, col: 21, offset: 21694},
 														expr: &actionExpr{
-															pos: position{line: 2910, col: 10, offset: 91824},
+															pos: position{line: 2912, col: 10, offset: 91925},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2910, col: 10, offset: 91824},
+																pos:        position{line: 2912, col: 10, offset: 91925},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2932, col: 8, offset: 92222},
+														pos: position{line: 2934, col: 8, offset: 92323},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2919, col: 12, offset: 91995},
+																pos: position{line: 2921, col: 12, offset: 92096},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2919, col: 13, offset: 91996},
+																	pos: position{line: 2921, col: 13, offset: 92097},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 13, offset: 91996},
+																			pos:        position{line: 2921, col: 13, offset: 92097},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 20, offset: 92003},
+																			pos:        position{line: 2921, col: 20, offset: 92104},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 29, offset: 92012},
+																			pos:        position{line: 2921, col: 29, offset: 92113},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2929, col: 8, offset: 92172},
+																pos: position{line: 2931, col: 8, offset: 92273},
 																expr: &anyMatcher{
-																	line: 2929, col: 9, offset: 92173,
+																	line: 2931, col: 9, offset: 92274,
 																},
 															},
 														},
@@ -4403,44 +4403,44 @@ var g = &grammar{
 											},
 										},
 										&ruleRefExpr{
-											pos:  position{line: 243, col: 11, offset: 7247},
+											pos:  position{line: 245, col: 11, offset: 7348},
 											name: "DocumentHeader",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 244, col: 11, offset: 7273},
+											pos:  position{line: 246, col: 11, offset: 7374},
 											name: "Section",
 										},
 										&actionExpr{
-											pos: position{line: 821, col: 5, offset: 26421},
+											pos: position{line: 823, col: 5, offset: 26522},
 											run: (*parser).callonDocumentFragment75,
 											expr: &seqExpr{
-												pos: position{line: 821, col: 5, offset: 26421},
+												pos: position{line: 823, col: 5, offset: 26522},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 741, col: 5, offset: 23681},
+														pos: position{line: 743, col: 5, offset: 23782},
 														run: (*parser).callonDocumentFragment77,
 														expr: &seqExpr{
-															pos: position{line: 741, col: 5, offset: 23681},
+															pos: position{line: 743, col: 5, offset: 23782},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 741, col: 5, offset: 23681},
+																	pos:   position{line: 743, col: 5, offset: 23782},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 741, col: 16, offset: 23692},
+																		pos: position{line: 743, col: 16, offset: 23793},
 																		run: (*parser).callonDocumentFragment80,
 																		expr: &seqExpr{
-																			pos: position{line: 741, col: 16, offset: 23692},
+																			pos: position{line: 743, col: 16, offset: 23793},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 741, col: 16, offset: 23692},
+																					pos:        position{line: 743, col: 16, offset: 23793},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 741, col: 23, offset: 23699},
+																					pos: position{line: 743, col: 23, offset: 23800},
 																					expr: &litMatcher{
-																						pos:        position{line: 741, col: 23, offset: 23699},
+																						pos:        position{line: 743, col: 23, offset: 23800},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -4451,12 +4451,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 743, col: 8, offset: 23783},
+																	pos: position{line: 745, col: 8, offset: 23884},
 																	expr: &actionExpr{
-																		pos: position{line: 2910, col: 10, offset: 91824},
+																		pos: position{line: 2912, col: 10, offset: 91925},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2910, col: 10, offset: 91824},
+																			pos:        position{line: 2912, col: 10, offset: 91925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4465,28 +4465,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2932, col: 8, offset: 92222},
+																	pos: position{line: 2934, col: 8, offset: 92323},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2919, col: 12, offset: 91995},
+																			pos: position{line: 2921, col: 12, offset: 92096},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2919, col: 13, offset: 91996},
+																				pos: position{line: 2921, col: 13, offset: 92097},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 13, offset: 91996},
+																						pos:        position{line: 2921, col: 13, offset: 92097},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 20, offset: 92003},
+																						pos:        position{line: 2921, col: 20, offset: 92104},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 29, offset: 92012},
+																						pos:        position{line: 2921, col: 29, offset: 92113},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4495,9 +4495,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2929, col: 8, offset: 92172},
+																			pos: position{line: 2931, col: 8, offset: 92273},
 																			expr: &anyMatcher{
-																				line: 2929, col: 9, offset: 92173,
+																				line: 2931, col: 9, offset: 92274,
 																			},
 																		},
 																	},
@@ -4506,46 +4506,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 822, col: 5, offset: 26452},
+														pos:   position{line: 824, col: 5, offset: 26553},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 832, col: 5, offset: 26738},
+															pos: position{line: 834, col: 5, offset: 26839},
 															expr: &actionExpr{
-																pos: position{line: 832, col: 6, offset: 26739},
+																pos: position{line: 834, col: 6, offset: 26840},
 																run: (*parser).callonDocumentFragment98,
 																expr: &seqExpr{
-																	pos: position{line: 832, col: 6, offset: 26739},
+																	pos: position{line: 834, col: 6, offset: 26840},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 832, col: 6, offset: 26739},
+																			pos: position{line: 834, col: 6, offset: 26840},
 																			expr: &choiceExpr{
-																				pos: position{line: 829, col: 29, offset: 26681},
+																				pos: position{line: 831, col: 29, offset: 26782},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 741, col: 5, offset: 23681},
+																						pos: position{line: 743, col: 5, offset: 23782},
 																						run: (*parser).callonDocumentFragment102,
 																						expr: &seqExpr{
-																							pos: position{line: 741, col: 5, offset: 23681},
+																							pos: position{line: 743, col: 5, offset: 23782},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 741, col: 5, offset: 23681},
+																									pos:   position{line: 743, col: 5, offset: 23782},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 741, col: 16, offset: 23692},
+																										pos: position{line: 743, col: 16, offset: 23793},
 																										run: (*parser).callonDocumentFragment105,
 																										expr: &seqExpr{
-																											pos: position{line: 741, col: 16, offset: 23692},
+																											pos: position{line: 743, col: 16, offset: 23793},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 741, col: 16, offset: 23692},
+																													pos:        position{line: 743, col: 16, offset: 23793},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 741, col: 23, offset: 23699},
+																													pos: position{line: 743, col: 23, offset: 23800},
 																													expr: &litMatcher{
-																														pos:        position{line: 741, col: 23, offset: 23699},
+																														pos:        position{line: 743, col: 23, offset: 23800},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -4556,12 +4556,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 743, col: 8, offset: 23783},
+																									pos: position{line: 745, col: 8, offset: 23884},
 																									expr: &actionExpr{
-																										pos: position{line: 2910, col: 10, offset: 91824},
+																										pos: position{line: 2912, col: 10, offset: 91925},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2910, col: 10, offset: 91824},
+																											pos:        position{line: 2912, col: 10, offset: 91925},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4570,28 +4570,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2932, col: 8, offset: 92222},
+																									pos: position{line: 2934, col: 8, offset: 92323},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2919, col: 12, offset: 91995},
+																											pos: position{line: 2921, col: 12, offset: 92096},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2919, col: 13, offset: 91996},
+																												pos: position{line: 2921, col: 13, offset: 92097},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 13, offset: 91996},
+																														pos:        position{line: 2921, col: 13, offset: 92097},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 20, offset: 92003},
+																														pos:        position{line: 2921, col: 20, offset: 92104},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 29, offset: 92012},
+																														pos:        position{line: 2921, col: 29, offset: 92113},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4600,9 +4600,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2929, col: 8, offset: 92172},
+																											pos: position{line: 2931, col: 8, offset: 92273},
 																											expr: &anyMatcher{
-																												line: 2929, col: 9, offset: 92173,
+																												line: 2931, col: 9, offset: 92274,
 																											},
 																										},
 																									},
@@ -4611,39 +4611,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2929, col: 8, offset: 92172},
+																						pos: position{line: 2931, col: 8, offset: 92273},
 																						expr: &anyMatcher{
-																							line: 2929, col: 9, offset: 92173,
+																							line: 2931, col: 9, offset: 92274,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 833, col: 5, offset: 26769},
+																			pos:   position{line: 835, col: 5, offset: 26870},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26185},
+																				pos: position{line: 814, col: 5, offset: 26286},
 																				run: (*parser).callonDocumentFragment124,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26185},
+																					pos: position{line: 814, col: 5, offset: 26286},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2927, col: 11, offset: 92158},
+																							pos: position{line: 2929, col: 11, offset: 92259},
 																							expr: &anyMatcher{
-																								line: 2927, col: 13, offset: 92160,
+																								line: 2929, col: 13, offset: 92261,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26260},
+																							pos:   position{line: 815, col: 5, offset: 26361},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2856, col: 13, offset: 90350},
+																								pos: position{line: 2858, col: 13, offset: 90451},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2856, col: 13, offset: 90350},
+																									pos: position{line: 2858, col: 13, offset: 90451},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2856, col: 13, offset: 90350},
+																										pos:        position{line: 2858, col: 13, offset: 90451},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4653,28 +4653,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4683,9 +4683,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -4700,35 +4700,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 823, col: 5, offset: 26486},
+														pos: position{line: 825, col: 5, offset: 26587},
 														expr: &choiceExpr{
-															pos: position{line: 829, col: 29, offset: 26681},
+															pos: position{line: 831, col: 29, offset: 26782},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 741, col: 5, offset: 23681},
+																	pos: position{line: 743, col: 5, offset: 23782},
 																	run: (*parser).callonDocumentFragment142,
 																	expr: &seqExpr{
-																		pos: position{line: 741, col: 5, offset: 23681},
+																		pos: position{line: 743, col: 5, offset: 23782},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 741, col: 5, offset: 23681},
+																				pos:   position{line: 743, col: 5, offset: 23782},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 741, col: 16, offset: 23692},
+																					pos: position{line: 743, col: 16, offset: 23793},
 																					run: (*parser).callonDocumentFragment145,
 																					expr: &seqExpr{
-																						pos: position{line: 741, col: 16, offset: 23692},
+																						pos: position{line: 743, col: 16, offset: 23793},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 741, col: 16, offset: 23692},
+																								pos:        position{line: 743, col: 16, offset: 23793},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 741, col: 23, offset: 23699},
+																								pos: position{line: 743, col: 23, offset: 23800},
 																								expr: &litMatcher{
-																									pos:        position{line: 741, col: 23, offset: 23699},
+																									pos:        position{line: 743, col: 23, offset: 23800},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -4739,12 +4739,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 743, col: 8, offset: 23783},
+																				pos: position{line: 745, col: 8, offset: 23884},
 																				expr: &actionExpr{
-																					pos: position{line: 2910, col: 10, offset: 91824},
+																					pos: position{line: 2912, col: 10, offset: 91925},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2910, col: 10, offset: 91824},
+																						pos:        position{line: 2912, col: 10, offset: 91925},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4753,28 +4753,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2932, col: 8, offset: 92222},
+																				pos: position{line: 2934, col: 8, offset: 92323},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2919, col: 12, offset: 91995},
+																						pos: position{line: 2921, col: 12, offset: 92096},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2919, col: 13, offset: 91996},
+																							pos: position{line: 2921, col: 13, offset: 92097},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2919, col: 13, offset: 91996},
+																									pos:        position{line: 2921, col: 13, offset: 92097},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2919, col: 20, offset: 92003},
+																									pos:        position{line: 2921, col: 20, offset: 92104},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2919, col: 29, offset: 92012},
+																									pos:        position{line: 2921, col: 29, offset: 92113},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4783,9 +4783,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2929, col: 8, offset: 92172},
+																						pos: position{line: 2931, col: 8, offset: 92273},
 																						expr: &anyMatcher{
-																							line: 2929, col: 9, offset: 92173,
+																							line: 2931, col: 9, offset: 92274,
 																						},
 																					},
 																				},
@@ -4794,9 +4794,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2929, col: 8, offset: 92172},
+																	pos: position{line: 2931, col: 8, offset: 92273},
 																	expr: &anyMatcher{
-																		line: 2929, col: 9, offset: 92173,
+																		line: 2931, col: 9, offset: 92274,
 																	},
 																},
 															},
@@ -4806,39 +4806,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 841, col: 5, offset: 26922},
+											pos: position{line: 843, col: 5, offset: 27023},
 											run: (*parser).callonDocumentFragment163,
 											expr: &seqExpr{
-												pos: position{line: 841, col: 5, offset: 26922},
+												pos: position{line: 843, col: 5, offset: 27023},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 841, col: 5, offset: 26922},
+														pos:   position{line: 843, col: 5, offset: 27023},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 748, col: 5, offset: 23929},
+															pos: position{line: 750, col: 5, offset: 24030},
 															run: (*parser).callonDocumentFragment166,
 															expr: &seqExpr{
-																pos: position{line: 748, col: 5, offset: 23929},
+																pos: position{line: 750, col: 5, offset: 24030},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 748, col: 5, offset: 23929},
+																		pos:   position{line: 750, col: 5, offset: 24030},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 748, col: 16, offset: 23940},
+																			pos: position{line: 750, col: 16, offset: 24041},
 																			run: (*parser).callonDocumentFragment169,
 																			expr: &seqExpr{
-																				pos: position{line: 748, col: 16, offset: 23940},
+																				pos: position{line: 750, col: 16, offset: 24041},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 748, col: 16, offset: 23940},
+																						pos:        position{line: 750, col: 16, offset: 24041},
 																						val:        "====",
 																						ignoreCase: false,
 																						want:       "\"====\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 748, col: 23, offset: 23947},
+																						pos: position{line: 750, col: 23, offset: 24048},
 																						expr: &litMatcher{
-																							pos:        position{line: 748, col: 23, offset: 23947},
+																							pos:        position{line: 750, col: 23, offset: 24048},
 																							val:        "=",
 																							ignoreCase: false,
 																							want:       "\"=\"",
@@ -4849,12 +4849,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 750, col: 8, offset: 24031},
+																		pos: position{line: 752, col: 8, offset: 24132},
 																		expr: &actionExpr{
-																			pos: position{line: 2910, col: 10, offset: 91824},
+																			pos: position{line: 2912, col: 10, offset: 91925},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2910, col: 10, offset: 91824},
+																				pos:        position{line: 2912, col: 10, offset: 91925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4863,28 +4863,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2932, col: 8, offset: 92222},
+																		pos: position{line: 2934, col: 8, offset: 92323},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4893,9 +4893,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2929, col: 8, offset: 92172},
+																				pos: position{line: 2931, col: 8, offset: 92273},
 																				expr: &anyMatcher{
-																					line: 2929, col: 9, offset: 92173,
+																					line: 2931, col: 9, offset: 92274,
 																				},
 																			},
 																		},
@@ -4905,56 +4905,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 842, col: 5, offset: 26961},
+														pos: position{line: 844, col: 5, offset: 27062},
 														run: (*parser).callonDocumentFragment185,
 													},
 													&labeledExpr{
-														pos:   position{line: 845, col: 5, offset: 27053},
+														pos:   position{line: 847, col: 5, offset: 27154},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 860, col: 4, offset: 27450},
+															pos: position{line: 862, col: 4, offset: 27551},
 															expr: &actionExpr{
-																pos: position{line: 860, col: 5, offset: 27451},
+																pos: position{line: 862, col: 5, offset: 27552},
 																run: (*parser).callonDocumentFragment188,
 																expr: &seqExpr{
-																	pos: position{line: 860, col: 5, offset: 27451},
+																	pos: position{line: 862, col: 5, offset: 27552},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 860, col: 5, offset: 27451},
+																			pos: position{line: 862, col: 5, offset: 27552},
 																			expr: &choiceExpr{
-																				pos: position{line: 853, col: 5, offset: 27293},
+																				pos: position{line: 855, col: 5, offset: 27394},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 853, col: 5, offset: 27293},
+																						pos: position{line: 855, col: 5, offset: 27394},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 853, col: 5, offset: 27293},
+																								pos:   position{line: 855, col: 5, offset: 27394},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 748, col: 5, offset: 23929},
+																									pos: position{line: 750, col: 5, offset: 24030},
 																									run: (*parser).callonDocumentFragment194,
 																									expr: &seqExpr{
-																										pos: position{line: 748, col: 5, offset: 23929},
+																										pos: position{line: 750, col: 5, offset: 24030},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 748, col: 5, offset: 23929},
+																												pos:   position{line: 750, col: 5, offset: 24030},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 748, col: 16, offset: 23940},
+																													pos: position{line: 750, col: 16, offset: 24041},
 																													run: (*parser).callonDocumentFragment197,
 																													expr: &seqExpr{
-																														pos: position{line: 748, col: 16, offset: 23940},
+																														pos: position{line: 750, col: 16, offset: 24041},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 748, col: 16, offset: 23940},
+																																pos:        position{line: 750, col: 16, offset: 24041},
 																																val:        "====",
 																																ignoreCase: false,
 																																want:       "\"====\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 748, col: 23, offset: 23947},
+																																pos: position{line: 750, col: 23, offset: 24048},
 																																expr: &litMatcher{
-																																	pos:        position{line: 748, col: 23, offset: 23947},
+																																	pos:        position{line: 750, col: 23, offset: 24048},
 																																	val:        "=",
 																																	ignoreCase: false,
 																																	want:       "\"=\"",
@@ -4965,12 +4965,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 750, col: 8, offset: 24031},
+																												pos: position{line: 752, col: 8, offset: 24132},
 																												expr: &actionExpr{
-																													pos: position{line: 2910, col: 10, offset: 91824},
+																													pos: position{line: 2912, col: 10, offset: 91925},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2910, col: 10, offset: 91824},
+																														pos:        position{line: 2912, col: 10, offset: 91925},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4979,28 +4979,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2932, col: 8, offset: 92222},
+																												pos: position{line: 2934, col: 8, offset: 92323},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2919, col: 12, offset: 91995},
+																														pos: position{line: 2921, col: 12, offset: 92096},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2919, col: 13, offset: 91996},
+																															pos: position{line: 2921, col: 13, offset: 92097},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2919, col: 13, offset: 91996},
+																																	pos:        position{line: 2921, col: 13, offset: 92097},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2919, col: 20, offset: 92003},
+																																	pos:        position{line: 2921, col: 20, offset: 92104},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2919, col: 29, offset: 92012},
+																																	pos:        position{line: 2921, col: 29, offset: 92113},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5009,9 +5009,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2929, col: 8, offset: 92172},
+																														pos: position{line: 2931, col: 8, offset: 92273},
 																														expr: &anyMatcher{
-																															line: 2929, col: 9, offset: 92173,
+																															line: 2931, col: 9, offset: 92274,
 																														},
 																													},
 																												},
@@ -5021,45 +5021,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 854, col: 5, offset: 27324},
+																								pos: position{line: 856, col: 5, offset: 27425},
 																								run: (*parser).callonDocumentFragment213,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2929, col: 8, offset: 92172},
+																						pos: position{line: 2931, col: 8, offset: 92273},
 																						expr: &anyMatcher{
-																							line: 2929, col: 9, offset: 92173,
+																							line: 2931, col: 9, offset: 92274,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 861, col: 5, offset: 27481},
+																			pos:   position{line: 863, col: 5, offset: 27582},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26185},
+																				pos: position{line: 814, col: 5, offset: 26286},
 																				run: (*parser).callonDocumentFragment217,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26185},
+																					pos: position{line: 814, col: 5, offset: 26286},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2927, col: 11, offset: 92158},
+																							pos: position{line: 2929, col: 11, offset: 92259},
 																							expr: &anyMatcher{
-																								line: 2927, col: 13, offset: 92160,
+																								line: 2929, col: 13, offset: 92261,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26260},
+																							pos:   position{line: 815, col: 5, offset: 26361},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2856, col: 13, offset: 90350},
+																								pos: position{line: 2858, col: 13, offset: 90451},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2856, col: 13, offset: 90350},
+																									pos: position{line: 2858, col: 13, offset: 90451},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2856, col: 13, offset: 90350},
+																										pos:        position{line: 2858, col: 13, offset: 90451},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5069,28 +5069,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5099,9 +5099,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -5116,44 +5116,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 846, col: 5, offset: 27087},
+														pos:   position{line: 848, col: 5, offset: 27188},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 846, col: 9, offset: 27091},
+															pos: position{line: 848, col: 9, offset: 27192},
 															expr: &choiceExpr{
-																pos: position{line: 853, col: 5, offset: 27293},
+																pos: position{line: 855, col: 5, offset: 27394},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 853, col: 5, offset: 27293},
+																		pos: position{line: 855, col: 5, offset: 27394},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 853, col: 5, offset: 27293},
+																				pos:   position{line: 855, col: 5, offset: 27394},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 748, col: 5, offset: 23929},
+																					pos: position{line: 750, col: 5, offset: 24030},
 																					run: (*parser).callonDocumentFragment238,
 																					expr: &seqExpr{
-																						pos: position{line: 748, col: 5, offset: 23929},
+																						pos: position{line: 750, col: 5, offset: 24030},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 748, col: 5, offset: 23929},
+																								pos:   position{line: 750, col: 5, offset: 24030},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 748, col: 16, offset: 23940},
+																									pos: position{line: 750, col: 16, offset: 24041},
 																									run: (*parser).callonDocumentFragment241,
 																									expr: &seqExpr{
-																										pos: position{line: 748, col: 16, offset: 23940},
+																										pos: position{line: 750, col: 16, offset: 24041},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 748, col: 16, offset: 23940},
+																												pos:        position{line: 750, col: 16, offset: 24041},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 748, col: 23, offset: 23947},
+																												pos: position{line: 750, col: 23, offset: 24048},
 																												expr: &litMatcher{
-																													pos:        position{line: 748, col: 23, offset: 23947},
+																													pos:        position{line: 750, col: 23, offset: 24048},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -5164,12 +5164,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 750, col: 8, offset: 24031},
+																								pos: position{line: 752, col: 8, offset: 24132},
 																								expr: &actionExpr{
-																									pos: position{line: 2910, col: 10, offset: 91824},
+																									pos: position{line: 2912, col: 10, offset: 91925},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2910, col: 10, offset: 91824},
+																										pos:        position{line: 2912, col: 10, offset: 91925},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5178,28 +5178,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2932, col: 8, offset: 92222},
+																								pos: position{line: 2934, col: 8, offset: 92323},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2919, col: 12, offset: 91995},
+																										pos: position{line: 2921, col: 12, offset: 92096},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2919, col: 13, offset: 91996},
+																											pos: position{line: 2921, col: 13, offset: 92097},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 13, offset: 91996},
+																													pos:        position{line: 2921, col: 13, offset: 92097},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 20, offset: 92003},
+																													pos:        position{line: 2921, col: 20, offset: 92104},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 29, offset: 92012},
+																													pos:        position{line: 2921, col: 29, offset: 92113},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5208,9 +5208,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2929, col: 8, offset: 92172},
+																										pos: position{line: 2931, col: 8, offset: 92273},
 																										expr: &anyMatcher{
-																											line: 2929, col: 9, offset: 92173,
+																											line: 2931, col: 9, offset: 92274,
 																										},
 																									},
 																								},
@@ -5220,15 +5220,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 854, col: 5, offset: 27324},
+																				pos: position{line: 856, col: 5, offset: 27425},
 																				run: (*parser).callonDocumentFragment257,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2929, col: 8, offset: 92172},
+																		pos: position{line: 2931, col: 8, offset: 92273},
 																		expr: &anyMatcher{
-																			line: 2929, col: 9, offset: 92173,
+																			line: 2931, col: 9, offset: 92274,
 																		},
 																	},
 																},
@@ -5239,36 +5239,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 953, col: 5, offset: 29773},
+											pos: position{line: 955, col: 5, offset: 29874},
 											run: (*parser).callonDocumentFragment260,
 											expr: &seqExpr{
-												pos: position{line: 953, col: 5, offset: 29773},
+												pos: position{line: 955, col: 5, offset: 29874},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 953, col: 5, offset: 29773},
+														pos:   position{line: 955, col: 5, offset: 29874},
 														label: "delimiter",
 														expr: &actionExpr{
-															pos: position{line: 761, col: 26, offset: 24417},
+															pos: position{line: 763, col: 26, offset: 24518},
 															run: (*parser).callonDocumentFragment263,
 															expr: &seqExpr{
-																pos: position{line: 761, col: 26, offset: 24417},
+																pos: position{line: 763, col: 26, offset: 24518},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 761, col: 26, offset: 24417},
+																		pos:        position{line: 763, col: 26, offset: 24518},
 																		val:        "```",
 																		ignoreCase: false,
 																		want:       "\"```\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 761, col: 32, offset: 24423},
+																		pos:   position{line: 763, col: 32, offset: 24524},
 																		label: "language",
 																		expr: &actionExpr{
-																			pos: position{line: 765, col: 13, offset: 24553},
+																			pos: position{line: 767, col: 13, offset: 24654},
 																			run: (*parser).callonDocumentFragment267,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 765, col: 14, offset: 24554},
+																				pos: position{line: 767, col: 14, offset: 24655},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 765, col: 14, offset: 24554},
+																					pos:        position{line: 767, col: 14, offset: 24655},
 																					val:        "[^\\r\\n` ]",
 																					chars:      []rune{'\r', '\n', '`', ' '},
 																					ignoreCase: false,
@@ -5278,12 +5278,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 761, col: 52, offset: 24443},
+																		pos: position{line: 763, col: 52, offset: 24544},
 																		expr: &actionExpr{
-																			pos: position{line: 2910, col: 10, offset: 91824},
+																			pos: position{line: 2912, col: 10, offset: 91925},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2910, col: 10, offset: 91824},
+																				pos:        position{line: 2912, col: 10, offset: 91925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5292,28 +5292,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2932, col: 8, offset: 92222},
+																		pos: position{line: 2934, col: 8, offset: 92323},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5322,9 +5322,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2929, col: 8, offset: 92172},
+																				pos: position{line: 2931, col: 8, offset: 92273},
 																				expr: &anyMatcher{
-																					line: 2929, col: 9, offset: 92173,
+																					line: 2931, col: 9, offset: 92274,
 																				},
 																			},
 																		},
@@ -5334,34 +5334,34 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 954, col: 5, offset: 29819},
+														pos:   position{line: 956, col: 5, offset: 29920},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 967, col: 5, offset: 30292},
+															pos: position{line: 969, col: 5, offset: 30393},
 															expr: &actionExpr{
-																pos: position{line: 967, col: 6, offset: 30293},
+																pos: position{line: 969, col: 6, offset: 30394},
 																run: (*parser).callonDocumentFragment283,
 																expr: &seqExpr{
-																	pos: position{line: 967, col: 6, offset: 30293},
+																	pos: position{line: 969, col: 6, offset: 30394},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 967, col: 6, offset: 30293},
+																			pos: position{line: 969, col: 6, offset: 30394},
 																			expr: &seqExpr{
-																				pos: position{line: 964, col: 34, offset: 30240},
+																				pos: position{line: 966, col: 34, offset: 30341},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 964, col: 34, offset: 30240},
+																						pos:        position{line: 966, col: 34, offset: 30341},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 964, col: 40, offset: 30246},
+																						pos: position{line: 966, col: 40, offset: 30347},
 																						expr: &actionExpr{
-																							pos: position{line: 2910, col: 10, offset: 91824},
+																							pos: position{line: 2912, col: 10, offset: 91925},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2910, col: 10, offset: 91824},
+																								pos:        position{line: 2912, col: 10, offset: 91925},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5370,28 +5370,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2932, col: 8, offset: 92222},
+																						pos: position{line: 2934, col: 8, offset: 92323},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2919, col: 12, offset: 91995},
+																								pos: position{line: 2921, col: 12, offset: 92096},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2919, col: 13, offset: 91996},
+																									pos: position{line: 2921, col: 13, offset: 92097},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 13, offset: 91996},
+																											pos:        position{line: 2921, col: 13, offset: 92097},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 20, offset: 92003},
+																											pos:        position{line: 2921, col: 20, offset: 92104},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 29, offset: 92012},
+																											pos:        position{line: 2921, col: 29, offset: 92113},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5400,9 +5400,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2929, col: 8, offset: 92172},
+																								pos: position{line: 2931, col: 8, offset: 92273},
 																								expr: &anyMatcher{
-																									line: 2929, col: 9, offset: 92173,
+																									line: 2931, col: 9, offset: 92274,
 																								},
 																							},
 																						},
@@ -5411,30 +5411,30 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 968, col: 5, offset: 30328},
+																			pos:   position{line: 970, col: 5, offset: 30429},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26185},
+																				pos: position{line: 814, col: 5, offset: 26286},
 																				run: (*parser).callonDocumentFragment300,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26185},
+																					pos: position{line: 814, col: 5, offset: 26286},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2927, col: 11, offset: 92158},
+																							pos: position{line: 2929, col: 11, offset: 92259},
 																							expr: &anyMatcher{
-																								line: 2927, col: 13, offset: 92160,
+																								line: 2929, col: 13, offset: 92261,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26260},
+																							pos:   position{line: 815, col: 5, offset: 26361},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2856, col: 13, offset: 90350},
+																								pos: position{line: 2858, col: 13, offset: 90451},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2856, col: 13, offset: 90350},
+																									pos: position{line: 2858, col: 13, offset: 90451},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2856, col: 13, offset: 90350},
+																										pos:        position{line: 2858, col: 13, offset: 90451},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5444,28 +5444,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5474,9 +5474,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -5491,23 +5491,23 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 955, col: 5, offset: 29858},
+														pos: position{line: 957, col: 5, offset: 29959},
 														expr: &seqExpr{
-															pos: position{line: 964, col: 34, offset: 30240},
+															pos: position{line: 966, col: 34, offset: 30341},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 964, col: 34, offset: 30240},
+																	pos:        position{line: 966, col: 34, offset: 30341},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 964, col: 40, offset: 30246},
+																	pos: position{line: 966, col: 40, offset: 30347},
 																	expr: &actionExpr{
-																		pos: position{line: 2910, col: 10, offset: 91824},
+																		pos: position{line: 2912, col: 10, offset: 91925},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2910, col: 10, offset: 91824},
+																			pos:        position{line: 2912, col: 10, offset: 91925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5516,28 +5516,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2932, col: 8, offset: 92222},
+																	pos: position{line: 2934, col: 8, offset: 92323},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2919, col: 12, offset: 91995},
+																			pos: position{line: 2921, col: 12, offset: 92096},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2919, col: 13, offset: 91996},
+																				pos: position{line: 2921, col: 13, offset: 92097},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 13, offset: 91996},
+																						pos:        position{line: 2921, col: 13, offset: 92097},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 20, offset: 92003},
+																						pos:        position{line: 2921, col: 20, offset: 92104},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 29, offset: 92012},
+																						pos:        position{line: 2921, col: 29, offset: 92113},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5546,9 +5546,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2929, col: 8, offset: 92172},
+																			pos: position{line: 2931, col: 8, offset: 92273},
 																			expr: &anyMatcher{
-																				line: 2929, col: 9, offset: 92173,
+																				line: 2931, col: 9, offset: 92274,
 																			},
 																		},
 																	},
@@ -5560,39 +5560,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 869, col: 5, offset: 27634},
+											pos: position{line: 871, col: 5, offset: 27735},
 											run: (*parser).callonDocumentFragment330,
 											expr: &seqExpr{
-												pos: position{line: 869, col: 5, offset: 27634},
+												pos: position{line: 871, col: 5, offset: 27735},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 869, col: 5, offset: 27634},
+														pos:   position{line: 871, col: 5, offset: 27735},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 755, col: 5, offset: 24176},
+															pos: position{line: 757, col: 5, offset: 24277},
 															run: (*parser).callonDocumentFragment333,
 															expr: &seqExpr{
-																pos: position{line: 755, col: 5, offset: 24176},
+																pos: position{line: 757, col: 5, offset: 24277},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 755, col: 5, offset: 24176},
+																		pos:   position{line: 757, col: 5, offset: 24277},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 755, col: 16, offset: 24187},
+																			pos: position{line: 757, col: 16, offset: 24288},
 																			run: (*parser).callonDocumentFragment336,
 																			expr: &seqExpr{
-																				pos: position{line: 755, col: 16, offset: 24187},
+																				pos: position{line: 757, col: 16, offset: 24288},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 755, col: 16, offset: 24187},
+																						pos:        position{line: 757, col: 16, offset: 24288},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 755, col: 22, offset: 24193},
+																						pos: position{line: 757, col: 22, offset: 24294},
 																						expr: &litMatcher{
-																							pos:        position{line: 755, col: 22, offset: 24193},
+																							pos:        position{line: 757, col: 22, offset: 24294},
 																							val:        "`",
 																							ignoreCase: false,
 																							want:       "\"`\"",
@@ -5603,12 +5603,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 757, col: 8, offset: 24277},
+																		pos: position{line: 759, col: 8, offset: 24378},
 																		expr: &actionExpr{
-																			pos: position{line: 2910, col: 10, offset: 91824},
+																			pos: position{line: 2912, col: 10, offset: 91925},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2910, col: 10, offset: 91824},
+																				pos:        position{line: 2912, col: 10, offset: 91925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5617,28 +5617,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2932, col: 8, offset: 92222},
+																		pos: position{line: 2934, col: 8, offset: 92323},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5647,9 +5647,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2929, col: 8, offset: 92172},
+																				pos: position{line: 2931, col: 8, offset: 92273},
 																				expr: &anyMatcher{
-																					line: 2929, col: 9, offset: 92173,
+																					line: 2931, col: 9, offset: 92274,
 																				},
 																			},
 																		},
@@ -5659,56 +5659,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 870, col: 5, offset: 27672},
+														pos: position{line: 872, col: 5, offset: 27773},
 														run: (*parser).callonDocumentFragment352,
 													},
 													&labeledExpr{
-														pos:   position{line: 873, col: 5, offset: 27764},
+														pos:   position{line: 875, col: 5, offset: 27865},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 888, col: 5, offset: 28154},
+															pos: position{line: 890, col: 5, offset: 28255},
 															expr: &actionExpr{
-																pos: position{line: 888, col: 6, offset: 28155},
+																pos: position{line: 890, col: 6, offset: 28256},
 																run: (*parser).callonDocumentFragment355,
 																expr: &seqExpr{
-																	pos: position{line: 888, col: 6, offset: 28155},
+																	pos: position{line: 890, col: 6, offset: 28256},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 888, col: 6, offset: 28155},
+																			pos: position{line: 890, col: 6, offset: 28256},
 																			expr: &choiceExpr{
-																				pos: position{line: 881, col: 5, offset: 27998},
+																				pos: position{line: 883, col: 5, offset: 28099},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 881, col: 5, offset: 27998},
+																						pos: position{line: 883, col: 5, offset: 28099},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 881, col: 5, offset: 27998},
+																								pos:   position{line: 883, col: 5, offset: 28099},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 755, col: 5, offset: 24176},
+																									pos: position{line: 757, col: 5, offset: 24277},
 																									run: (*parser).callonDocumentFragment361,
 																									expr: &seqExpr{
-																										pos: position{line: 755, col: 5, offset: 24176},
+																										pos: position{line: 757, col: 5, offset: 24277},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 755, col: 5, offset: 24176},
+																												pos:   position{line: 757, col: 5, offset: 24277},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 755, col: 16, offset: 24187},
+																													pos: position{line: 757, col: 16, offset: 24288},
 																													run: (*parser).callonDocumentFragment364,
 																													expr: &seqExpr{
-																														pos: position{line: 755, col: 16, offset: 24187},
+																														pos: position{line: 757, col: 16, offset: 24288},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 755, col: 16, offset: 24187},
+																																pos:        position{line: 757, col: 16, offset: 24288},
 																																val:        "```",
 																																ignoreCase: false,
 																																want:       "\"```\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 755, col: 22, offset: 24193},
+																																pos: position{line: 757, col: 22, offset: 24294},
 																																expr: &litMatcher{
-																																	pos:        position{line: 755, col: 22, offset: 24193},
+																																	pos:        position{line: 757, col: 22, offset: 24294},
 																																	val:        "`",
 																																	ignoreCase: false,
 																																	want:       "\"`\"",
@@ -5719,12 +5719,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 757, col: 8, offset: 24277},
+																												pos: position{line: 759, col: 8, offset: 24378},
 																												expr: &actionExpr{
-																													pos: position{line: 2910, col: 10, offset: 91824},
+																													pos: position{line: 2912, col: 10, offset: 91925},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2910, col: 10, offset: 91824},
+																														pos:        position{line: 2912, col: 10, offset: 91925},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5733,28 +5733,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2932, col: 8, offset: 92222},
+																												pos: position{line: 2934, col: 8, offset: 92323},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2919, col: 12, offset: 91995},
+																														pos: position{line: 2921, col: 12, offset: 92096},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2919, col: 13, offset: 91996},
+																															pos: position{line: 2921, col: 13, offset: 92097},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2919, col: 13, offset: 91996},
+																																	pos:        position{line: 2921, col: 13, offset: 92097},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2919, col: 20, offset: 92003},
+																																	pos:        position{line: 2921, col: 20, offset: 92104},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2919, col: 29, offset: 92012},
+																																	pos:        position{line: 2921, col: 29, offset: 92113},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5763,9 +5763,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2929, col: 8, offset: 92172},
+																														pos: position{line: 2931, col: 8, offset: 92273},
 																														expr: &anyMatcher{
-																															line: 2929, col: 9, offset: 92173,
+																															line: 2931, col: 9, offset: 92274,
 																														},
 																													},
 																												},
@@ -5775,45 +5775,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 882, col: 5, offset: 28028},
+																								pos: position{line: 884, col: 5, offset: 28129},
 																								run: (*parser).callonDocumentFragment380,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2929, col: 8, offset: 92172},
+																						pos: position{line: 2931, col: 8, offset: 92273},
 																						expr: &anyMatcher{
-																							line: 2929, col: 9, offset: 92173,
+																							line: 2931, col: 9, offset: 92274,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 889, col: 5, offset: 28184},
+																			pos:   position{line: 891, col: 5, offset: 28285},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26185},
+																				pos: position{line: 814, col: 5, offset: 26286},
 																				run: (*parser).callonDocumentFragment384,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26185},
+																					pos: position{line: 814, col: 5, offset: 26286},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2927, col: 11, offset: 92158},
+																							pos: position{line: 2929, col: 11, offset: 92259},
 																							expr: &anyMatcher{
-																								line: 2927, col: 13, offset: 92160,
+																								line: 2929, col: 13, offset: 92261,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26260},
+																							pos:   position{line: 815, col: 5, offset: 26361},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2856, col: 13, offset: 90350},
+																								pos: position{line: 2858, col: 13, offset: 90451},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2856, col: 13, offset: 90350},
+																									pos: position{line: 2858, col: 13, offset: 90451},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2856, col: 13, offset: 90350},
+																										pos:        position{line: 2858, col: 13, offset: 90451},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5823,28 +5823,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5853,9 +5853,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -5870,44 +5870,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 874, col: 5, offset: 27797},
+														pos:   position{line: 876, col: 5, offset: 27898},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 874, col: 9, offset: 27801},
+															pos: position{line: 876, col: 9, offset: 27902},
 															expr: &choiceExpr{
-																pos: position{line: 881, col: 5, offset: 27998},
+																pos: position{line: 883, col: 5, offset: 28099},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 881, col: 5, offset: 27998},
+																		pos: position{line: 883, col: 5, offset: 28099},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 881, col: 5, offset: 27998},
+																				pos:   position{line: 883, col: 5, offset: 28099},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 755, col: 5, offset: 24176},
+																					pos: position{line: 757, col: 5, offset: 24277},
 																					run: (*parser).callonDocumentFragment405,
 																					expr: &seqExpr{
-																						pos: position{line: 755, col: 5, offset: 24176},
+																						pos: position{line: 757, col: 5, offset: 24277},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 755, col: 5, offset: 24176},
+																								pos:   position{line: 757, col: 5, offset: 24277},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 755, col: 16, offset: 24187},
+																									pos: position{line: 757, col: 16, offset: 24288},
 																									run: (*parser).callonDocumentFragment408,
 																									expr: &seqExpr{
-																										pos: position{line: 755, col: 16, offset: 24187},
+																										pos: position{line: 757, col: 16, offset: 24288},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 755, col: 16, offset: 24187},
+																												pos:        position{line: 757, col: 16, offset: 24288},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 755, col: 22, offset: 24193},
+																												pos: position{line: 757, col: 22, offset: 24294},
 																												expr: &litMatcher{
-																													pos:        position{line: 755, col: 22, offset: 24193},
+																													pos:        position{line: 757, col: 22, offset: 24294},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -5918,12 +5918,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 757, col: 8, offset: 24277},
+																								pos: position{line: 759, col: 8, offset: 24378},
 																								expr: &actionExpr{
-																									pos: position{line: 2910, col: 10, offset: 91824},
+																									pos: position{line: 2912, col: 10, offset: 91925},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2910, col: 10, offset: 91824},
+																										pos:        position{line: 2912, col: 10, offset: 91925},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5932,28 +5932,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2932, col: 8, offset: 92222},
+																								pos: position{line: 2934, col: 8, offset: 92323},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2919, col: 12, offset: 91995},
+																										pos: position{line: 2921, col: 12, offset: 92096},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2919, col: 13, offset: 91996},
+																											pos: position{line: 2921, col: 13, offset: 92097},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 13, offset: 91996},
+																													pos:        position{line: 2921, col: 13, offset: 92097},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 20, offset: 92003},
+																													pos:        position{line: 2921, col: 20, offset: 92104},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 29, offset: 92012},
+																													pos:        position{line: 2921, col: 29, offset: 92113},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5962,9 +5962,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2929, col: 8, offset: 92172},
+																										pos: position{line: 2931, col: 8, offset: 92273},
 																										expr: &anyMatcher{
-																											line: 2929, col: 9, offset: 92173,
+																											line: 2931, col: 9, offset: 92274,
 																										},
 																									},
 																								},
@@ -5974,15 +5974,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 882, col: 5, offset: 28028},
+																				pos: position{line: 884, col: 5, offset: 28129},
 																				run: (*parser).callonDocumentFragment424,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2929, col: 8, offset: 92172},
+																		pos: position{line: 2931, col: 8, offset: 92273},
 																		expr: &anyMatcher{
-																			line: 2929, col: 9, offset: 92173,
+																			line: 2931, col: 9, offset: 92274,
 																		},
 																	},
 																},
@@ -5993,39 +5993,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 897, col: 5, offset: 28339},
+											pos: position{line: 899, col: 5, offset: 28440},
 											run: (*parser).callonDocumentFragment427,
 											expr: &seqExpr{
-												pos: position{line: 897, col: 5, offset: 28339},
+												pos: position{line: 899, col: 5, offset: 28440},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 897, col: 5, offset: 28339},
+														pos:   position{line: 899, col: 5, offset: 28440},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 770, col: 5, offset: 24713},
+															pos: position{line: 772, col: 5, offset: 24814},
 															run: (*parser).callonDocumentFragment430,
 															expr: &seqExpr{
-																pos: position{line: 770, col: 5, offset: 24713},
+																pos: position{line: 772, col: 5, offset: 24814},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 770, col: 5, offset: 24713},
+																		pos:   position{line: 772, col: 5, offset: 24814},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 770, col: 16, offset: 24724},
+																			pos: position{line: 772, col: 16, offset: 24825},
 																			run: (*parser).callonDocumentFragment433,
 																			expr: &seqExpr{
-																				pos: position{line: 770, col: 16, offset: 24724},
+																				pos: position{line: 772, col: 16, offset: 24825},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 770, col: 16, offset: 24724},
+																						pos:        position{line: 772, col: 16, offset: 24825},
 																						val:        "----",
 																						ignoreCase: false,
 																						want:       "\"----\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 770, col: 23, offset: 24731},
+																						pos: position{line: 772, col: 23, offset: 24832},
 																						expr: &litMatcher{
-																							pos:        position{line: 770, col: 23, offset: 24731},
+																							pos:        position{line: 772, col: 23, offset: 24832},
 																							val:        "-",
 																							ignoreCase: false,
 																							want:       "\"-\"",
@@ -6036,12 +6036,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 772, col: 8, offset: 24815},
+																		pos: position{line: 774, col: 8, offset: 24916},
 																		expr: &actionExpr{
-																			pos: position{line: 2910, col: 10, offset: 91824},
+																			pos: position{line: 2912, col: 10, offset: 91925},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2910, col: 10, offset: 91824},
+																				pos:        position{line: 2912, col: 10, offset: 91925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6050,28 +6050,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2932, col: 8, offset: 92222},
+																		pos: position{line: 2934, col: 8, offset: 92323},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6080,9 +6080,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2929, col: 8, offset: 92172},
+																				pos: position{line: 2931, col: 8, offset: 92273},
 																				expr: &anyMatcher{
-																					line: 2929, col: 9, offset: 92173,
+																					line: 2931, col: 9, offset: 92274,
 																				},
 																			},
 																		},
@@ -6092,56 +6092,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 898, col: 5, offset: 28378},
+														pos: position{line: 900, col: 5, offset: 28479},
 														run: (*parser).callonDocumentFragment449,
 													},
 													&labeledExpr{
-														pos:   position{line: 901, col: 5, offset: 28470},
+														pos:   position{line: 903, col: 5, offset: 28571},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 916, col: 5, offset: 28868},
+															pos: position{line: 918, col: 5, offset: 28969},
 															expr: &actionExpr{
-																pos: position{line: 916, col: 6, offset: 28869},
+																pos: position{line: 918, col: 6, offset: 28970},
 																run: (*parser).callonDocumentFragment452,
 																expr: &seqExpr{
-																	pos: position{line: 916, col: 6, offset: 28869},
+																	pos: position{line: 918, col: 6, offset: 28970},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 916, col: 6, offset: 28869},
+																			pos: position{line: 918, col: 6, offset: 28970},
 																			expr: &choiceExpr{
-																				pos: position{line: 909, col: 5, offset: 28710},
+																				pos: position{line: 911, col: 5, offset: 28811},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 909, col: 5, offset: 28710},
+																						pos: position{line: 911, col: 5, offset: 28811},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 909, col: 5, offset: 28710},
+																								pos:   position{line: 911, col: 5, offset: 28811},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 770, col: 5, offset: 24713},
+																									pos: position{line: 772, col: 5, offset: 24814},
 																									run: (*parser).callonDocumentFragment458,
 																									expr: &seqExpr{
-																										pos: position{line: 770, col: 5, offset: 24713},
+																										pos: position{line: 772, col: 5, offset: 24814},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 770, col: 5, offset: 24713},
+																												pos:   position{line: 772, col: 5, offset: 24814},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 770, col: 16, offset: 24724},
+																													pos: position{line: 772, col: 16, offset: 24825},
 																													run: (*parser).callonDocumentFragment461,
 																													expr: &seqExpr{
-																														pos: position{line: 770, col: 16, offset: 24724},
+																														pos: position{line: 772, col: 16, offset: 24825},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 770, col: 16, offset: 24724},
+																																pos:        position{line: 772, col: 16, offset: 24825},
 																																val:        "----",
 																																ignoreCase: false,
 																																want:       "\"----\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 770, col: 23, offset: 24731},
+																																pos: position{line: 772, col: 23, offset: 24832},
 																																expr: &litMatcher{
-																																	pos:        position{line: 770, col: 23, offset: 24731},
+																																	pos:        position{line: 772, col: 23, offset: 24832},
 																																	val:        "-",
 																																	ignoreCase: false,
 																																	want:       "\"-\"",
@@ -6152,12 +6152,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 772, col: 8, offset: 24815},
+																												pos: position{line: 774, col: 8, offset: 24916},
 																												expr: &actionExpr{
-																													pos: position{line: 2910, col: 10, offset: 91824},
+																													pos: position{line: 2912, col: 10, offset: 91925},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2910, col: 10, offset: 91824},
+																														pos:        position{line: 2912, col: 10, offset: 91925},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6166,28 +6166,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2932, col: 8, offset: 92222},
+																												pos: position{line: 2934, col: 8, offset: 92323},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2919, col: 12, offset: 91995},
+																														pos: position{line: 2921, col: 12, offset: 92096},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2919, col: 13, offset: 91996},
+																															pos: position{line: 2921, col: 13, offset: 92097},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2919, col: 13, offset: 91996},
+																																	pos:        position{line: 2921, col: 13, offset: 92097},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2919, col: 20, offset: 92003},
+																																	pos:        position{line: 2921, col: 20, offset: 92104},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2919, col: 29, offset: 92012},
+																																	pos:        position{line: 2921, col: 29, offset: 92113},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6196,9 +6196,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2929, col: 8, offset: 92172},
+																														pos: position{line: 2931, col: 8, offset: 92273},
 																														expr: &anyMatcher{
-																															line: 2929, col: 9, offset: 92173,
+																															line: 2931, col: 9, offset: 92274,
 																														},
 																													},
 																												},
@@ -6208,45 +6208,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 910, col: 5, offset: 28741},
+																								pos: position{line: 912, col: 5, offset: 28842},
 																								run: (*parser).callonDocumentFragment477,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2929, col: 8, offset: 92172},
+																						pos: position{line: 2931, col: 8, offset: 92273},
 																						expr: &anyMatcher{
-																							line: 2929, col: 9, offset: 92173,
+																							line: 2931, col: 9, offset: 92274,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 917, col: 5, offset: 28899},
+																			pos:   position{line: 919, col: 5, offset: 29000},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26185},
+																				pos: position{line: 814, col: 5, offset: 26286},
 																				run: (*parser).callonDocumentFragment481,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26185},
+																					pos: position{line: 814, col: 5, offset: 26286},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2927, col: 11, offset: 92158},
+																							pos: position{line: 2929, col: 11, offset: 92259},
 																							expr: &anyMatcher{
-																								line: 2927, col: 13, offset: 92160,
+																								line: 2929, col: 13, offset: 92261,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26260},
+																							pos:   position{line: 815, col: 5, offset: 26361},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2856, col: 13, offset: 90350},
+																								pos: position{line: 2858, col: 13, offset: 90451},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2856, col: 13, offset: 90350},
+																									pos: position{line: 2858, col: 13, offset: 90451},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2856, col: 13, offset: 90350},
+																										pos:        position{line: 2858, col: 13, offset: 90451},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6256,28 +6256,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6286,9 +6286,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -6303,44 +6303,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 902, col: 5, offset: 28504},
+														pos:   position{line: 904, col: 5, offset: 28605},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 902, col: 9, offset: 28508},
+															pos: position{line: 904, col: 9, offset: 28609},
 															expr: &choiceExpr{
-																pos: position{line: 909, col: 5, offset: 28710},
+																pos: position{line: 911, col: 5, offset: 28811},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 909, col: 5, offset: 28710},
+																		pos: position{line: 911, col: 5, offset: 28811},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 909, col: 5, offset: 28710},
+																				pos:   position{line: 911, col: 5, offset: 28811},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 770, col: 5, offset: 24713},
+																					pos: position{line: 772, col: 5, offset: 24814},
 																					run: (*parser).callonDocumentFragment502,
 																					expr: &seqExpr{
-																						pos: position{line: 770, col: 5, offset: 24713},
+																						pos: position{line: 772, col: 5, offset: 24814},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 770, col: 5, offset: 24713},
+																								pos:   position{line: 772, col: 5, offset: 24814},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 770, col: 16, offset: 24724},
+																									pos: position{line: 772, col: 16, offset: 24825},
 																									run: (*parser).callonDocumentFragment505,
 																									expr: &seqExpr{
-																										pos: position{line: 770, col: 16, offset: 24724},
+																										pos: position{line: 772, col: 16, offset: 24825},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 770, col: 16, offset: 24724},
+																												pos:        position{line: 772, col: 16, offset: 24825},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 770, col: 23, offset: 24731},
+																												pos: position{line: 772, col: 23, offset: 24832},
 																												expr: &litMatcher{
-																													pos:        position{line: 770, col: 23, offset: 24731},
+																													pos:        position{line: 772, col: 23, offset: 24832},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -6351,12 +6351,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 772, col: 8, offset: 24815},
+																								pos: position{line: 774, col: 8, offset: 24916},
 																								expr: &actionExpr{
-																									pos: position{line: 2910, col: 10, offset: 91824},
+																									pos: position{line: 2912, col: 10, offset: 91925},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2910, col: 10, offset: 91824},
+																										pos:        position{line: 2912, col: 10, offset: 91925},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6365,28 +6365,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2932, col: 8, offset: 92222},
+																								pos: position{line: 2934, col: 8, offset: 92323},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2919, col: 12, offset: 91995},
+																										pos: position{line: 2921, col: 12, offset: 92096},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2919, col: 13, offset: 91996},
+																											pos: position{line: 2921, col: 13, offset: 92097},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 13, offset: 91996},
+																													pos:        position{line: 2921, col: 13, offset: 92097},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 20, offset: 92003},
+																													pos:        position{line: 2921, col: 20, offset: 92104},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 29, offset: 92012},
+																													pos:        position{line: 2921, col: 29, offset: 92113},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6395,9 +6395,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2929, col: 8, offset: 92172},
+																										pos: position{line: 2931, col: 8, offset: 92273},
 																										expr: &anyMatcher{
-																											line: 2929, col: 9, offset: 92173,
+																											line: 2931, col: 9, offset: 92274,
 																										},
 																									},
 																								},
@@ -6407,15 +6407,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 910, col: 5, offset: 28741},
+																				pos: position{line: 912, col: 5, offset: 28842},
 																				run: (*parser).callonDocumentFragment521,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2929, col: 8, offset: 92172},
+																		pos: position{line: 2931, col: 8, offset: 92273},
 																		expr: &anyMatcher{
-																			line: 2929, col: 9, offset: 92173,
+																			line: 2931, col: 9, offset: 92274,
 																		},
 																	},
 																},
@@ -6426,39 +6426,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 925, col: 5, offset: 29054},
+											pos: position{line: 927, col: 5, offset: 29155},
 											run: (*parser).callonDocumentFragment524,
 											expr: &seqExpr{
-												pos: position{line: 925, col: 5, offset: 29054},
+												pos: position{line: 927, col: 5, offset: 29155},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 925, col: 5, offset: 29054},
+														pos:   position{line: 927, col: 5, offset: 29155},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 784, col: 5, offset: 25189},
+															pos: position{line: 786, col: 5, offset: 25290},
 															run: (*parser).callonDocumentFragment527,
 															expr: &seqExpr{
-																pos: position{line: 784, col: 5, offset: 25189},
+																pos: position{line: 786, col: 5, offset: 25290},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 784, col: 5, offset: 25189},
+																		pos:   position{line: 786, col: 5, offset: 25290},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 784, col: 16, offset: 25200},
+																			pos: position{line: 786, col: 16, offset: 25301},
 																			run: (*parser).callonDocumentFragment530,
 																			expr: &seqExpr{
-																				pos: position{line: 784, col: 16, offset: 25200},
+																				pos: position{line: 786, col: 16, offset: 25301},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 784, col: 16, offset: 25200},
+																						pos:        position{line: 786, col: 16, offset: 25301},
 																						val:        "....",
 																						ignoreCase: false,
 																						want:       "\"....\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 784, col: 23, offset: 25207},
+																						pos: position{line: 786, col: 23, offset: 25308},
 																						expr: &litMatcher{
-																							pos:        position{line: 784, col: 23, offset: 25207},
+																							pos:        position{line: 786, col: 23, offset: 25308},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -6469,12 +6469,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 786, col: 8, offset: 25291},
+																		pos: position{line: 788, col: 8, offset: 25392},
 																		expr: &actionExpr{
-																			pos: position{line: 2910, col: 10, offset: 91824},
+																			pos: position{line: 2912, col: 10, offset: 91925},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2910, col: 10, offset: 91824},
+																				pos:        position{line: 2912, col: 10, offset: 91925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6483,28 +6483,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2932, col: 8, offset: 92222},
+																		pos: position{line: 2934, col: 8, offset: 92323},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6513,9 +6513,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2929, col: 8, offset: 92172},
+																				pos: position{line: 2931, col: 8, offset: 92273},
 																				expr: &anyMatcher{
-																					line: 2929, col: 9, offset: 92173,
+																					line: 2931, col: 9, offset: 92274,
 																				},
 																			},
 																		},
@@ -6525,56 +6525,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 926, col: 5, offset: 29093},
+														pos: position{line: 928, col: 5, offset: 29194},
 														run: (*parser).callonDocumentFragment546,
 													},
 													&labeledExpr{
-														pos:   position{line: 929, col: 5, offset: 29185},
+														pos:   position{line: 931, col: 5, offset: 29286},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 944, col: 5, offset: 29583},
+															pos: position{line: 946, col: 5, offset: 29684},
 															expr: &actionExpr{
-																pos: position{line: 944, col: 6, offset: 29584},
+																pos: position{line: 946, col: 6, offset: 29685},
 																run: (*parser).callonDocumentFragment549,
 																expr: &seqExpr{
-																	pos: position{line: 944, col: 6, offset: 29584},
+																	pos: position{line: 946, col: 6, offset: 29685},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 944, col: 6, offset: 29584},
+																			pos: position{line: 946, col: 6, offset: 29685},
 																			expr: &choiceExpr{
-																				pos: position{line: 937, col: 5, offset: 29425},
+																				pos: position{line: 939, col: 5, offset: 29526},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 937, col: 5, offset: 29425},
+																						pos: position{line: 939, col: 5, offset: 29526},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 937, col: 5, offset: 29425},
+																								pos:   position{line: 939, col: 5, offset: 29526},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 784, col: 5, offset: 25189},
+																									pos: position{line: 786, col: 5, offset: 25290},
 																									run: (*parser).callonDocumentFragment555,
 																									expr: &seqExpr{
-																										pos: position{line: 784, col: 5, offset: 25189},
+																										pos: position{line: 786, col: 5, offset: 25290},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 784, col: 5, offset: 25189},
+																												pos:   position{line: 786, col: 5, offset: 25290},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 784, col: 16, offset: 25200},
+																													pos: position{line: 786, col: 16, offset: 25301},
 																													run: (*parser).callonDocumentFragment558,
 																													expr: &seqExpr{
-																														pos: position{line: 784, col: 16, offset: 25200},
+																														pos: position{line: 786, col: 16, offset: 25301},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 784, col: 16, offset: 25200},
+																																pos:        position{line: 786, col: 16, offset: 25301},
 																																val:        "....",
 																																ignoreCase: false,
 																																want:       "\"....\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 784, col: 23, offset: 25207},
+																																pos: position{line: 786, col: 23, offset: 25308},
 																																expr: &litMatcher{
-																																	pos:        position{line: 784, col: 23, offset: 25207},
+																																	pos:        position{line: 786, col: 23, offset: 25308},
 																																	val:        ".",
 																																	ignoreCase: false,
 																																	want:       "\".\"",
@@ -6585,12 +6585,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 786, col: 8, offset: 25291},
+																												pos: position{line: 788, col: 8, offset: 25392},
 																												expr: &actionExpr{
-																													pos: position{line: 2910, col: 10, offset: 91824},
+																													pos: position{line: 2912, col: 10, offset: 91925},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2910, col: 10, offset: 91824},
+																														pos:        position{line: 2912, col: 10, offset: 91925},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6599,28 +6599,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2932, col: 8, offset: 92222},
+																												pos: position{line: 2934, col: 8, offset: 92323},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2919, col: 12, offset: 91995},
+																														pos: position{line: 2921, col: 12, offset: 92096},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2919, col: 13, offset: 91996},
+																															pos: position{line: 2921, col: 13, offset: 92097},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2919, col: 13, offset: 91996},
+																																	pos:        position{line: 2921, col: 13, offset: 92097},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2919, col: 20, offset: 92003},
+																																	pos:        position{line: 2921, col: 20, offset: 92104},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2919, col: 29, offset: 92012},
+																																	pos:        position{line: 2921, col: 29, offset: 92113},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6629,9 +6629,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2929, col: 8, offset: 92172},
+																														pos: position{line: 2931, col: 8, offset: 92273},
 																														expr: &anyMatcher{
-																															line: 2929, col: 9, offset: 92173,
+																															line: 2931, col: 9, offset: 92274,
 																														},
 																													},
 																												},
@@ -6641,45 +6641,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 938, col: 5, offset: 29456},
+																								pos: position{line: 940, col: 5, offset: 29557},
 																								run: (*parser).callonDocumentFragment574,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2929, col: 8, offset: 92172},
+																						pos: position{line: 2931, col: 8, offset: 92273},
 																						expr: &anyMatcher{
-																							line: 2929, col: 9, offset: 92173,
+																							line: 2931, col: 9, offset: 92274,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 945, col: 5, offset: 29614},
+																			pos:   position{line: 947, col: 5, offset: 29715},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26185},
+																				pos: position{line: 814, col: 5, offset: 26286},
 																				run: (*parser).callonDocumentFragment578,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26185},
+																					pos: position{line: 814, col: 5, offset: 26286},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2927, col: 11, offset: 92158},
+																							pos: position{line: 2929, col: 11, offset: 92259},
 																							expr: &anyMatcher{
-																								line: 2927, col: 13, offset: 92160,
+																								line: 2929, col: 13, offset: 92261,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26260},
+																							pos:   position{line: 815, col: 5, offset: 26361},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2856, col: 13, offset: 90350},
+																								pos: position{line: 2858, col: 13, offset: 90451},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2856, col: 13, offset: 90350},
+																									pos: position{line: 2858, col: 13, offset: 90451},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2856, col: 13, offset: 90350},
+																										pos:        position{line: 2858, col: 13, offset: 90451},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6689,28 +6689,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6719,9 +6719,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -6736,44 +6736,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 930, col: 5, offset: 29219},
+														pos:   position{line: 932, col: 5, offset: 29320},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 930, col: 9, offset: 29223},
+															pos: position{line: 932, col: 9, offset: 29324},
 															expr: &choiceExpr{
-																pos: position{line: 937, col: 5, offset: 29425},
+																pos: position{line: 939, col: 5, offset: 29526},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 937, col: 5, offset: 29425},
+																		pos: position{line: 939, col: 5, offset: 29526},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 937, col: 5, offset: 29425},
+																				pos:   position{line: 939, col: 5, offset: 29526},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 784, col: 5, offset: 25189},
+																					pos: position{line: 786, col: 5, offset: 25290},
 																					run: (*parser).callonDocumentFragment599,
 																					expr: &seqExpr{
-																						pos: position{line: 784, col: 5, offset: 25189},
+																						pos: position{line: 786, col: 5, offset: 25290},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 784, col: 5, offset: 25189},
+																								pos:   position{line: 786, col: 5, offset: 25290},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 784, col: 16, offset: 25200},
+																									pos: position{line: 786, col: 16, offset: 25301},
 																									run: (*parser).callonDocumentFragment602,
 																									expr: &seqExpr{
-																										pos: position{line: 784, col: 16, offset: 25200},
+																										pos: position{line: 786, col: 16, offset: 25301},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 784, col: 16, offset: 25200},
+																												pos:        position{line: 786, col: 16, offset: 25301},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 784, col: 23, offset: 25207},
+																												pos: position{line: 786, col: 23, offset: 25308},
 																												expr: &litMatcher{
-																													pos:        position{line: 784, col: 23, offset: 25207},
+																													pos:        position{line: 786, col: 23, offset: 25308},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -6784,12 +6784,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 786, col: 8, offset: 25291},
+																								pos: position{line: 788, col: 8, offset: 25392},
 																								expr: &actionExpr{
-																									pos: position{line: 2910, col: 10, offset: 91824},
+																									pos: position{line: 2912, col: 10, offset: 91925},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2910, col: 10, offset: 91824},
+																										pos:        position{line: 2912, col: 10, offset: 91925},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6798,28 +6798,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2932, col: 8, offset: 92222},
+																								pos: position{line: 2934, col: 8, offset: 92323},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2919, col: 12, offset: 91995},
+																										pos: position{line: 2921, col: 12, offset: 92096},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2919, col: 13, offset: 91996},
+																											pos: position{line: 2921, col: 13, offset: 92097},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 13, offset: 91996},
+																													pos:        position{line: 2921, col: 13, offset: 92097},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 20, offset: 92003},
+																													pos:        position{line: 2921, col: 20, offset: 92104},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 29, offset: 92012},
+																													pos:        position{line: 2921, col: 29, offset: 92113},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6828,9 +6828,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2929, col: 8, offset: 92172},
+																										pos: position{line: 2931, col: 8, offset: 92273},
 																										expr: &anyMatcher{
-																											line: 2929, col: 9, offset: 92173,
+																											line: 2931, col: 9, offset: 92274,
 																										},
 																									},
 																								},
@@ -6840,15 +6840,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 938, col: 5, offset: 29456},
+																				pos: position{line: 940, col: 5, offset: 29557},
 																				run: (*parser).callonDocumentFragment618,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2929, col: 8, offset: 92172},
+																		pos: position{line: 2931, col: 8, offset: 92273},
 																		expr: &anyMatcher{
-																			line: 2929, col: 9, offset: 92173,
+																			line: 2931, col: 9, offset: 92274,
 																		},
 																	},
 																},
@@ -6859,41 +6859,41 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 976, col: 5, offset: 30497},
+											pos: position{line: 978, col: 5, offset: 30598},
 											run: (*parser).callonDocumentFragment621,
 											expr: &seqExpr{
-												pos: position{line: 976, col: 5, offset: 30497},
+												pos: position{line: 978, col: 5, offset: 30598},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 976, col: 5, offset: 30497},
+														pos:   position{line: 978, col: 5, offset: 30598},
 														label: "firstLine",
 														expr: &actionExpr{
-															pos: position{line: 983, col: 5, offset: 30756},
+															pos: position{line: 985, col: 5, offset: 30857},
 															run: (*parser).callonDocumentFragment624,
 															expr: &seqExpr{
-																pos: position{line: 983, col: 5, offset: 30756},
+																pos: position{line: 985, col: 5, offset: 30857},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 983, col: 5, offset: 30756},
+																		pos: position{line: 985, col: 5, offset: 30857},
 																		expr: &actionExpr{
-																			pos: position{line: 678, col: 14, offset: 21586},
+																			pos: position{line: 680, col: 14, offset: 21687},
 																			run: (*parser).callonDocumentFragment627,
 																			expr: &seqExpr{
-																				pos: position{line: 678, col: 14, offset: 21586},
+																				pos: position{line: 680, col: 14, offset: 21687},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2927, col: 11, offset: 92158},
+																						pos: position{line: 2929, col: 11, offset: 92259},
 																						expr: &anyMatcher{
-																							line: 2927, col: 13, offset: 92160,
+																							line: 2929, col: 13, offset: 92261,
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 678, col: 21, offset: 21593},
+																						pos: position{line: 680, col: 21, offset: 21694},
 																						expr: &actionExpr{
-																							pos: position{line: 2910, col: 10, offset: 91824},
+																							pos: position{line: 2912, col: 10, offset: 91925},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2910, col: 10, offset: 91824},
+																								pos:        position{line: 2912, col: 10, offset: 91925},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6902,28 +6902,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2932, col: 8, offset: 92222},
+																						pos: position{line: 2934, col: 8, offset: 92323},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2919, col: 12, offset: 91995},
+																								pos: position{line: 2921, col: 12, offset: 92096},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2919, col: 13, offset: 91996},
+																									pos: position{line: 2921, col: 13, offset: 92097},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 13, offset: 91996},
+																											pos:        position{line: 2921, col: 13, offset: 92097},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 20, offset: 92003},
+																											pos:        position{line: 2921, col: 20, offset: 92104},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 29, offset: 92012},
+																											pos:        position{line: 2921, col: 29, offset: 92113},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6932,9 +6932,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2929, col: 8, offset: 92172},
+																								pos: position{line: 2931, col: 8, offset: 92273},
 																								expr: &anyMatcher{
-																									line: 2929, col: 9, offset: 92173,
+																									line: 2931, col: 9, offset: 92274,
 																								},
 																							},
 																						},
@@ -6944,21 +6944,21 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 984, col: 5, offset: 30771},
+																		pos:        position{line: 986, col: 5, offset: 30872},
 																		val:        "> ",
 																		ignoreCase: false,
 																		want:       "\"> \"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 985, col: 5, offset: 30781},
+																		pos:   position{line: 987, col: 5, offset: 30882},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2860, col: 14, offset: 90417},
+																			pos: position{line: 2862, col: 14, offset: 90518},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2860, col: 14, offset: 90417},
+																				pos: position{line: 2862, col: 14, offset: 90518},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2860, col: 14, offset: 90417},
+																					pos:        position{line: 2862, col: 14, offset: 90518},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -6968,28 +6968,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2932, col: 8, offset: 92222},
+																		pos: position{line: 2934, col: 8, offset: 92323},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6998,9 +6998,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2929, col: 8, offset: 92172},
+																				pos: position{line: 2931, col: 8, offset: 92273},
 																				expr: &anyMatcher{
-																					line: 2929, col: 9, offset: 92173,
+																					line: 2931, col: 9, offset: 92274,
 																				},
 																			},
 																		},
@@ -7010,40 +7010,40 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 977, col: 5, offset: 30534},
+														pos:   position{line: 979, col: 5, offset: 30635},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 977, col: 16, offset: 30545},
+															pos: position{line: 979, col: 16, offset: 30646},
 															expr: &choiceExpr{
-																pos: position{line: 977, col: 17, offset: 30546},
+																pos: position{line: 979, col: 17, offset: 30647},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 983, col: 5, offset: 30756},
+																		pos: position{line: 985, col: 5, offset: 30857},
 																		run: (*parser).callonDocumentFragment658,
 																		expr: &seqExpr{
-																			pos: position{line: 983, col: 5, offset: 30756},
+																			pos: position{line: 985, col: 5, offset: 30857},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 983, col: 5, offset: 30756},
+																					pos: position{line: 985, col: 5, offset: 30857},
 																					expr: &actionExpr{
-																						pos: position{line: 678, col: 14, offset: 21586},
+																						pos: position{line: 680, col: 14, offset: 21687},
 																						run: (*parser).callonDocumentFragment661,
 																						expr: &seqExpr{
-																							pos: position{line: 678, col: 14, offset: 21586},
+																							pos: position{line: 680, col: 14, offset: 21687},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2927, col: 11, offset: 92158},
+																									pos: position{line: 2929, col: 11, offset: 92259},
 																									expr: &anyMatcher{
-																										line: 2927, col: 13, offset: 92160,
+																										line: 2929, col: 13, offset: 92261,
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 678, col: 21, offset: 21593},
+																									pos: position{line: 680, col: 21, offset: 21694},
 																									expr: &actionExpr{
-																										pos: position{line: 2910, col: 10, offset: 91824},
+																										pos: position{line: 2912, col: 10, offset: 91925},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2910, col: 10, offset: 91824},
+																											pos:        position{line: 2912, col: 10, offset: 91925},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7052,28 +7052,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2932, col: 8, offset: 92222},
+																									pos: position{line: 2934, col: 8, offset: 92323},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2919, col: 12, offset: 91995},
+																											pos: position{line: 2921, col: 12, offset: 92096},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2919, col: 13, offset: 91996},
+																												pos: position{line: 2921, col: 13, offset: 92097},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 13, offset: 91996},
+																														pos:        position{line: 2921, col: 13, offset: 92097},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 20, offset: 92003},
+																														pos:        position{line: 2921, col: 20, offset: 92104},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 29, offset: 92012},
+																														pos:        position{line: 2921, col: 29, offset: 92113},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7082,9 +7082,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2929, col: 8, offset: 92172},
+																											pos: position{line: 2931, col: 8, offset: 92273},
 																											expr: &anyMatcher{
-																												line: 2929, col: 9, offset: 92173,
+																												line: 2931, col: 9, offset: 92274,
 																											},
 																										},
 																									},
@@ -7094,21 +7094,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 984, col: 5, offset: 30771},
+																					pos:        position{line: 986, col: 5, offset: 30872},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 985, col: 5, offset: 30781},
+																					pos:   position{line: 987, col: 5, offset: 30882},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2860, col: 14, offset: 90417},
+																						pos: position{line: 2862, col: 14, offset: 90518},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2860, col: 14, offset: 90417},
+																							pos: position{line: 2862, col: 14, offset: 90518},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2860, col: 14, offset: 90417},
+																								pos:        position{line: 2862, col: 14, offset: 90518},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7118,28 +7118,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2932, col: 8, offset: 92222},
+																					pos: position{line: 2934, col: 8, offset: 92323},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2919, col: 12, offset: 91995},
+																							pos: position{line: 2921, col: 12, offset: 92096},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2919, col: 13, offset: 91996},
+																								pos: position{line: 2921, col: 13, offset: 92097},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 13, offset: 91996},
+																										pos:        position{line: 2921, col: 13, offset: 92097},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 20, offset: 92003},
+																										pos:        position{line: 2921, col: 20, offset: 92104},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 29, offset: 92012},
+																										pos:        position{line: 2921, col: 29, offset: 92113},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7148,9 +7148,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2929, col: 8, offset: 92172},
+																							pos: position{line: 2931, col: 8, offset: 92273},
 																							expr: &anyMatcher{
-																								line: 2929, col: 9, offset: 92173,
+																								line: 2931, col: 9, offset: 92274,
 																							},
 																						},
 																					},
@@ -7159,21 +7159,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1792, col: 5, offset: 57884},
+																		pos: position{line: 1794, col: 5, offset: 57985},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1792, col: 5, offset: 57884},
+																			pos: position{line: 1794, col: 5, offset: 57985},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1792, col: 5, offset: 57884},
+																					pos:   position{line: 1794, col: 5, offset: 57985},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2860, col: 14, offset: 90417},
+																						pos: position{line: 2862, col: 14, offset: 90518},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2860, col: 14, offset: 90417},
+																							pos: position{line: 2862, col: 14, offset: 90518},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2860, col: 14, offset: 90417},
+																								pos:        position{line: 2862, col: 14, offset: 90518},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7183,32 +7183,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1793, col: 5, offset: 57908},
+																					pos: position{line: 1795, col: 5, offset: 58009},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2932, col: 8, offset: 92222},
+																					pos: position{line: 2934, col: 8, offset: 92323},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2919, col: 12, offset: 91995},
+																							pos: position{line: 2921, col: 12, offset: 92096},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2919, col: 13, offset: 91996},
+																								pos: position{line: 2921, col: 13, offset: 92097},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 13, offset: 91996},
+																										pos:        position{line: 2921, col: 13, offset: 92097},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 20, offset: 92003},
+																										pos:        position{line: 2921, col: 20, offset: 92104},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 29, offset: 92012},
+																										pos:        position{line: 2921, col: 29, offset: 92113},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7217,9 +7217,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2929, col: 8, offset: 92172},
+																							pos: position{line: 2931, col: 8, offset: 92273},
 																							expr: &anyMatcher{
-																								line: 2929, col: 9, offset: 92173,
+																								line: 2931, col: 9, offset: 92274,
 																							},
 																						},
 																					},
@@ -7235,28 +7235,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 998, col: 5, offset: 31046},
+											pos: position{line: 1000, col: 5, offset: 31147},
 											run: (*parser).callonDocumentFragment704,
 											expr: &seqExpr{
-												pos: position{line: 998, col: 5, offset: 31046},
+												pos: position{line: 1000, col: 5, offset: 31147},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 998, col: 5, offset: 31046},
+														pos:   position{line: 1000, col: 5, offset: 31147},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 777, col: 5, offset: 24958},
+															pos: position{line: 779, col: 5, offset: 25059},
 															run: (*parser).callonDocumentFragment707,
 															expr: &seqExpr{
-																pos: position{line: 777, col: 5, offset: 24958},
+																pos: position{line: 779, col: 5, offset: 25059},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 777, col: 5, offset: 24958},
+																		pos:   position{line: 779, col: 5, offset: 25059},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 777, col: 16, offset: 24969},
+																			pos: position{line: 779, col: 16, offset: 25070},
 																			run: (*parser).callonDocumentFragment710,
 																			expr: &litMatcher{
-																				pos:        position{line: 777, col: 16, offset: 24969},
+																				pos:        position{line: 779, col: 16, offset: 25070},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -7264,12 +7264,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 779, col: 8, offset: 25046},
+																		pos: position{line: 781, col: 8, offset: 25147},
 																		expr: &actionExpr{
-																			pos: position{line: 2910, col: 10, offset: 91824},
+																			pos: position{line: 2912, col: 10, offset: 91925},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2910, col: 10, offset: 91824},
+																				pos:        position{line: 2912, col: 10, offset: 91925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7278,28 +7278,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2932, col: 8, offset: 92222},
+																		pos: position{line: 2934, col: 8, offset: 92323},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7308,9 +7308,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2929, col: 8, offset: 92172},
+																				pos: position{line: 2931, col: 8, offset: 92273},
 																				expr: &anyMatcher{
-																					line: 2929, col: 9, offset: 92173,
+																					line: 2931, col: 9, offset: 92274,
 																				},
 																			},
 																		},
@@ -7320,35 +7320,35 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 999, col: 5, offset: 31082},
+														pos:   position{line: 1001, col: 5, offset: 31183},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1009, col: 5, offset: 31350},
+															pos: position{line: 1011, col: 5, offset: 31451},
 															expr: &actionExpr{
-																pos: position{line: 1009, col: 6, offset: 31351},
+																pos: position{line: 1011, col: 6, offset: 31452},
 																run: (*parser).callonDocumentFragment725,
 																expr: &seqExpr{
-																	pos: position{line: 1009, col: 6, offset: 31351},
+																	pos: position{line: 1011, col: 6, offset: 31452},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1009, col: 6, offset: 31351},
+																			pos: position{line: 1011, col: 6, offset: 31452},
 																			expr: &choiceExpr{
-																				pos: position{line: 1006, col: 26, offset: 31299},
+																				pos: position{line: 1008, col: 26, offset: 31400},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 777, col: 5, offset: 24958},
+																						pos: position{line: 779, col: 5, offset: 25059},
 																						run: (*parser).callonDocumentFragment729,
 																						expr: &seqExpr{
-																							pos: position{line: 777, col: 5, offset: 24958},
+																							pos: position{line: 779, col: 5, offset: 25059},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 777, col: 5, offset: 24958},
+																									pos:   position{line: 779, col: 5, offset: 25059},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 777, col: 16, offset: 24969},
+																										pos: position{line: 779, col: 16, offset: 25070},
 																										run: (*parser).callonDocumentFragment732,
 																										expr: &litMatcher{
-																											pos:        position{line: 777, col: 16, offset: 24969},
+																											pos:        position{line: 779, col: 16, offset: 25070},
 																											val:        "--",
 																											ignoreCase: false,
 																											want:       "\"--\"",
@@ -7356,12 +7356,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 779, col: 8, offset: 25046},
+																									pos: position{line: 781, col: 8, offset: 25147},
 																									expr: &actionExpr{
-																										pos: position{line: 2910, col: 10, offset: 91824},
+																										pos: position{line: 2912, col: 10, offset: 91925},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2910, col: 10, offset: 91824},
+																											pos:        position{line: 2912, col: 10, offset: 91925},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7370,28 +7370,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2932, col: 8, offset: 92222},
+																									pos: position{line: 2934, col: 8, offset: 92323},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2919, col: 12, offset: 91995},
+																											pos: position{line: 2921, col: 12, offset: 92096},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2919, col: 13, offset: 91996},
+																												pos: position{line: 2921, col: 13, offset: 92097},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 13, offset: 91996},
+																														pos:        position{line: 2921, col: 13, offset: 92097},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 20, offset: 92003},
+																														pos:        position{line: 2921, col: 20, offset: 92104},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 29, offset: 92012},
+																														pos:        position{line: 2921, col: 29, offset: 92113},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7400,9 +7400,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2929, col: 8, offset: 92172},
+																											pos: position{line: 2931, col: 8, offset: 92273},
 																											expr: &anyMatcher{
-																												line: 2929, col: 9, offset: 92173,
+																												line: 2931, col: 9, offset: 92274,
 																											},
 																										},
 																									},
@@ -7411,39 +7411,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2929, col: 8, offset: 92172},
+																						pos: position{line: 2931, col: 8, offset: 92273},
 																						expr: &anyMatcher{
-																							line: 2929, col: 9, offset: 92173,
+																							line: 2931, col: 9, offset: 92274,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1010, col: 5, offset: 31378},
+																			pos:   position{line: 1012, col: 5, offset: 31479},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26185},
+																				pos: position{line: 814, col: 5, offset: 26286},
 																				run: (*parser).callonDocumentFragment748,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26185},
+																					pos: position{line: 814, col: 5, offset: 26286},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2927, col: 11, offset: 92158},
+																							pos: position{line: 2929, col: 11, offset: 92259},
 																							expr: &anyMatcher{
-																								line: 2927, col: 13, offset: 92160,
+																								line: 2929, col: 13, offset: 92261,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26260},
+																							pos:   position{line: 815, col: 5, offset: 26361},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2856, col: 13, offset: 90350},
+																								pos: position{line: 2858, col: 13, offset: 90451},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2856, col: 13, offset: 90350},
+																									pos: position{line: 2858, col: 13, offset: 90451},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2856, col: 13, offset: 90350},
+																										pos:        position{line: 2858, col: 13, offset: 90451},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7453,28 +7453,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7483,9 +7483,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -7500,27 +7500,27 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1000, col: 5, offset: 31113},
+														pos:   position{line: 1002, col: 5, offset: 31214},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1000, col: 9, offset: 31117},
+															pos: position{line: 1002, col: 9, offset: 31218},
 															expr: &choiceExpr{
-																pos: position{line: 1006, col: 26, offset: 31299},
+																pos: position{line: 1008, col: 26, offset: 31400},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 777, col: 5, offset: 24958},
+																		pos: position{line: 779, col: 5, offset: 25059},
 																		run: (*parser).callonDocumentFragment767,
 																		expr: &seqExpr{
-																			pos: position{line: 777, col: 5, offset: 24958},
+																			pos: position{line: 779, col: 5, offset: 25059},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 777, col: 5, offset: 24958},
+																					pos:   position{line: 779, col: 5, offset: 25059},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 777, col: 16, offset: 24969},
+																						pos: position{line: 779, col: 16, offset: 25070},
 																						run: (*parser).callonDocumentFragment770,
 																						expr: &litMatcher{
-																							pos:        position{line: 777, col: 16, offset: 24969},
+																							pos:        position{line: 779, col: 16, offset: 25070},
 																							val:        "--",
 																							ignoreCase: false,
 																							want:       "\"--\"",
@@ -7528,12 +7528,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 779, col: 8, offset: 25046},
+																					pos: position{line: 781, col: 8, offset: 25147},
 																					expr: &actionExpr{
-																						pos: position{line: 2910, col: 10, offset: 91824},
+																						pos: position{line: 2912, col: 10, offset: 91925},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2910, col: 10, offset: 91824},
+																							pos:        position{line: 2912, col: 10, offset: 91925},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7542,28 +7542,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2932, col: 8, offset: 92222},
+																					pos: position{line: 2934, col: 8, offset: 92323},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2919, col: 12, offset: 91995},
+																							pos: position{line: 2921, col: 12, offset: 92096},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2919, col: 13, offset: 91996},
+																								pos: position{line: 2921, col: 13, offset: 92097},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 13, offset: 91996},
+																										pos:        position{line: 2921, col: 13, offset: 92097},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 20, offset: 92003},
+																										pos:        position{line: 2921, col: 20, offset: 92104},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 29, offset: 92012},
+																										pos:        position{line: 2921, col: 29, offset: 92113},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7572,9 +7572,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2929, col: 8, offset: 92172},
+																							pos: position{line: 2931, col: 8, offset: 92273},
 																							expr: &anyMatcher{
-																								line: 2929, col: 9, offset: 92173,
+																								line: 2931, col: 9, offset: 92274,
 																							},
 																						},
 																					},
@@ -7583,9 +7583,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2929, col: 8, offset: 92172},
+																		pos: position{line: 2931, col: 8, offset: 92273},
 																		expr: &anyMatcher{
-																			line: 2929, col: 9, offset: 92173,
+																			line: 2931, col: 9, offset: 92274,
 																		},
 																	},
 																},
@@ -7596,39 +7596,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1018, col: 5, offset: 31541},
+											pos: position{line: 1020, col: 5, offset: 31642},
 											run: (*parser).callonDocumentFragment785,
 											expr: &seqExpr{
-												pos: position{line: 1018, col: 5, offset: 31541},
+												pos: position{line: 1020, col: 5, offset: 31642},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1018, col: 5, offset: 31541},
+														pos:   position{line: 1020, col: 5, offset: 31642},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 791, col: 5, offset: 25441},
+															pos: position{line: 793, col: 5, offset: 25542},
 															run: (*parser).callonDocumentFragment788,
 															expr: &seqExpr{
-																pos: position{line: 791, col: 5, offset: 25441},
+																pos: position{line: 793, col: 5, offset: 25542},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 791, col: 5, offset: 25441},
+																		pos:   position{line: 793, col: 5, offset: 25542},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 791, col: 16, offset: 25452},
+																			pos: position{line: 793, col: 16, offset: 25553},
 																			run: (*parser).callonDocumentFragment791,
 																			expr: &seqExpr{
-																				pos: position{line: 791, col: 16, offset: 25452},
+																				pos: position{line: 793, col: 16, offset: 25553},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 791, col: 16, offset: 25452},
+																						pos:        position{line: 793, col: 16, offset: 25553},
 																						val:        "++++",
 																						ignoreCase: false,
 																						want:       "\"++++\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 791, col: 23, offset: 25459},
+																						pos: position{line: 793, col: 23, offset: 25560},
 																						expr: &litMatcher{
-																							pos:        position{line: 791, col: 23, offset: 25459},
+																							pos:        position{line: 793, col: 23, offset: 25560},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
@@ -7639,12 +7639,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 793, col: 8, offset: 25543},
+																		pos: position{line: 795, col: 8, offset: 25644},
 																		expr: &actionExpr{
-																			pos: position{line: 2910, col: 10, offset: 91824},
+																			pos: position{line: 2912, col: 10, offset: 91925},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2910, col: 10, offset: 91824},
+																				pos:        position{line: 2912, col: 10, offset: 91925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7653,28 +7653,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2932, col: 8, offset: 92222},
+																		pos: position{line: 2934, col: 8, offset: 92323},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7683,9 +7683,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2929, col: 8, offset: 92172},
+																				pos: position{line: 2931, col: 8, offset: 92273},
 																				expr: &anyMatcher{
-																					line: 2929, col: 9, offset: 92173,
+																					line: 2931, col: 9, offset: 92274,
 																				},
 																			},
 																		},
@@ -7695,56 +7695,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1019, col: 5, offset: 31584},
+														pos: position{line: 1021, col: 5, offset: 31685},
 														run: (*parser).callonDocumentFragment807,
 													},
 													&labeledExpr{
-														pos:   position{line: 1022, col: 5, offset: 31676},
+														pos:   position{line: 1024, col: 5, offset: 31777},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1037, col: 5, offset: 32106},
+															pos: position{line: 1039, col: 5, offset: 32207},
 															expr: &actionExpr{
-																pos: position{line: 1037, col: 6, offset: 32107},
+																pos: position{line: 1039, col: 6, offset: 32208},
 																run: (*parser).callonDocumentFragment810,
 																expr: &seqExpr{
-																	pos: position{line: 1037, col: 6, offset: 32107},
+																	pos: position{line: 1039, col: 6, offset: 32208},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1037, col: 6, offset: 32107},
+																			pos: position{line: 1039, col: 6, offset: 32208},
 																			expr: &choiceExpr{
-																				pos: position{line: 1030, col: 5, offset: 31940},
+																				pos: position{line: 1032, col: 5, offset: 32041},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1030, col: 5, offset: 31940},
+																						pos: position{line: 1032, col: 5, offset: 32041},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1030, col: 5, offset: 31940},
+																								pos:   position{line: 1032, col: 5, offset: 32041},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 791, col: 5, offset: 25441},
+																									pos: position{line: 793, col: 5, offset: 25542},
 																									run: (*parser).callonDocumentFragment816,
 																									expr: &seqExpr{
-																										pos: position{line: 791, col: 5, offset: 25441},
+																										pos: position{line: 793, col: 5, offset: 25542},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 791, col: 5, offset: 25441},
+																												pos:   position{line: 793, col: 5, offset: 25542},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 791, col: 16, offset: 25452},
+																													pos: position{line: 793, col: 16, offset: 25553},
 																													run: (*parser).callonDocumentFragment819,
 																													expr: &seqExpr{
-																														pos: position{line: 791, col: 16, offset: 25452},
+																														pos: position{line: 793, col: 16, offset: 25553},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 791, col: 16, offset: 25452},
+																																pos:        position{line: 793, col: 16, offset: 25553},
 																																val:        "++++",
 																																ignoreCase: false,
 																																want:       "\"++++\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 791, col: 23, offset: 25459},
+																																pos: position{line: 793, col: 23, offset: 25560},
 																																expr: &litMatcher{
-																																	pos:        position{line: 791, col: 23, offset: 25459},
+																																	pos:        position{line: 793, col: 23, offset: 25560},
 																																	val:        "+",
 																																	ignoreCase: false,
 																																	want:       "\"+\"",
@@ -7755,12 +7755,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 793, col: 8, offset: 25543},
+																												pos: position{line: 795, col: 8, offset: 25644},
 																												expr: &actionExpr{
-																													pos: position{line: 2910, col: 10, offset: 91824},
+																													pos: position{line: 2912, col: 10, offset: 91925},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2910, col: 10, offset: 91824},
+																														pos:        position{line: 2912, col: 10, offset: 91925},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7769,28 +7769,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2932, col: 8, offset: 92222},
+																												pos: position{line: 2934, col: 8, offset: 92323},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2919, col: 12, offset: 91995},
+																														pos: position{line: 2921, col: 12, offset: 92096},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2919, col: 13, offset: 91996},
+																															pos: position{line: 2921, col: 13, offset: 92097},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2919, col: 13, offset: 91996},
+																																	pos:        position{line: 2921, col: 13, offset: 92097},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2919, col: 20, offset: 92003},
+																																	pos:        position{line: 2921, col: 20, offset: 92104},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2919, col: 29, offset: 92012},
+																																	pos:        position{line: 2921, col: 29, offset: 92113},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7799,9 +7799,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2929, col: 8, offset: 92172},
+																														pos: position{line: 2931, col: 8, offset: 92273},
 																														expr: &anyMatcher{
-																															line: 2929, col: 9, offset: 92173,
+																															line: 2931, col: 9, offset: 92274,
 																														},
 																													},
 																												},
@@ -7811,45 +7811,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1031, col: 5, offset: 31975},
+																								pos: position{line: 1033, col: 5, offset: 32076},
 																								run: (*parser).callonDocumentFragment835,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2929, col: 8, offset: 92172},
+																						pos: position{line: 2931, col: 8, offset: 92273},
 																						expr: &anyMatcher{
-																							line: 2929, col: 9, offset: 92173,
+																							line: 2931, col: 9, offset: 92274,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1038, col: 5, offset: 32141},
+																			pos:   position{line: 1040, col: 5, offset: 32242},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26185},
+																				pos: position{line: 814, col: 5, offset: 26286},
 																				run: (*parser).callonDocumentFragment839,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26185},
+																					pos: position{line: 814, col: 5, offset: 26286},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2927, col: 11, offset: 92158},
+																							pos: position{line: 2929, col: 11, offset: 92259},
 																							expr: &anyMatcher{
-																								line: 2927, col: 13, offset: 92160,
+																								line: 2929, col: 13, offset: 92261,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26260},
+																							pos:   position{line: 815, col: 5, offset: 26361},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2856, col: 13, offset: 90350},
+																								pos: position{line: 2858, col: 13, offset: 90451},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2856, col: 13, offset: 90350},
+																									pos: position{line: 2858, col: 13, offset: 90451},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2856, col: 13, offset: 90350},
+																										pos:        position{line: 2858, col: 13, offset: 90451},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7859,28 +7859,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7889,9 +7889,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -7906,44 +7906,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1023, col: 5, offset: 31714},
+														pos:   position{line: 1025, col: 5, offset: 31815},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1023, col: 9, offset: 31718},
+															pos: position{line: 1025, col: 9, offset: 31819},
 															expr: &choiceExpr{
-																pos: position{line: 1030, col: 5, offset: 31940},
+																pos: position{line: 1032, col: 5, offset: 32041},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1030, col: 5, offset: 31940},
+																		pos: position{line: 1032, col: 5, offset: 32041},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1030, col: 5, offset: 31940},
+																				pos:   position{line: 1032, col: 5, offset: 32041},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 791, col: 5, offset: 25441},
+																					pos: position{line: 793, col: 5, offset: 25542},
 																					run: (*parser).callonDocumentFragment860,
 																					expr: &seqExpr{
-																						pos: position{line: 791, col: 5, offset: 25441},
+																						pos: position{line: 793, col: 5, offset: 25542},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 791, col: 5, offset: 25441},
+																								pos:   position{line: 793, col: 5, offset: 25542},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 791, col: 16, offset: 25452},
+																									pos: position{line: 793, col: 16, offset: 25553},
 																									run: (*parser).callonDocumentFragment863,
 																									expr: &seqExpr{
-																										pos: position{line: 791, col: 16, offset: 25452},
+																										pos: position{line: 793, col: 16, offset: 25553},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 791, col: 16, offset: 25452},
+																												pos:        position{line: 793, col: 16, offset: 25553},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 791, col: 23, offset: 25459},
+																												pos: position{line: 793, col: 23, offset: 25560},
 																												expr: &litMatcher{
-																													pos:        position{line: 791, col: 23, offset: 25459},
+																													pos:        position{line: 793, col: 23, offset: 25560},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -7954,12 +7954,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 793, col: 8, offset: 25543},
+																								pos: position{line: 795, col: 8, offset: 25644},
 																								expr: &actionExpr{
-																									pos: position{line: 2910, col: 10, offset: 91824},
+																									pos: position{line: 2912, col: 10, offset: 91925},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2910, col: 10, offset: 91824},
+																										pos:        position{line: 2912, col: 10, offset: 91925},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7968,28 +7968,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2932, col: 8, offset: 92222},
+																								pos: position{line: 2934, col: 8, offset: 92323},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2919, col: 12, offset: 91995},
+																										pos: position{line: 2921, col: 12, offset: 92096},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2919, col: 13, offset: 91996},
+																											pos: position{line: 2921, col: 13, offset: 92097},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 13, offset: 91996},
+																													pos:        position{line: 2921, col: 13, offset: 92097},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 20, offset: 92003},
+																													pos:        position{line: 2921, col: 20, offset: 92104},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 29, offset: 92012},
+																													pos:        position{line: 2921, col: 29, offset: 92113},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -7998,9 +7998,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2929, col: 8, offset: 92172},
+																										pos: position{line: 2931, col: 8, offset: 92273},
 																										expr: &anyMatcher{
-																											line: 2929, col: 9, offset: 92173,
+																											line: 2931, col: 9, offset: 92274,
 																										},
 																									},
 																								},
@@ -8010,15 +8010,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1031, col: 5, offset: 31975},
+																				pos: position{line: 1033, col: 5, offset: 32076},
 																				run: (*parser).callonDocumentFragment879,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2929, col: 8, offset: 92172},
+																		pos: position{line: 2931, col: 8, offset: 92273},
 																		expr: &anyMatcher{
-																			line: 2929, col: 9, offset: 92173,
+																			line: 2931, col: 9, offset: 92274,
 																		},
 																	},
 																},
@@ -8029,39 +8029,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1046, col: 5, offset: 32292},
+											pos: position{line: 1048, col: 5, offset: 32393},
 											run: (*parser).callonDocumentFragment882,
 											expr: &seqExpr{
-												pos: position{line: 1046, col: 5, offset: 32292},
+												pos: position{line: 1048, col: 5, offset: 32393},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1046, col: 5, offset: 32292},
+														pos:   position{line: 1048, col: 5, offset: 32393},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 798, col: 5, offset: 25691},
+															pos: position{line: 800, col: 5, offset: 25792},
 															run: (*parser).callonDocumentFragment885,
 															expr: &seqExpr{
-																pos: position{line: 798, col: 5, offset: 25691},
+																pos: position{line: 800, col: 5, offset: 25792},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 798, col: 5, offset: 25691},
+																		pos:   position{line: 800, col: 5, offset: 25792},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 798, col: 16, offset: 25702},
+																			pos: position{line: 800, col: 16, offset: 25803},
 																			run: (*parser).callonDocumentFragment888,
 																			expr: &seqExpr{
-																				pos: position{line: 798, col: 16, offset: 25702},
+																				pos: position{line: 800, col: 16, offset: 25803},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 798, col: 16, offset: 25702},
+																						pos:        position{line: 800, col: 16, offset: 25803},
 																						val:        "____",
 																						ignoreCase: false,
 																						want:       "\"____\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 798, col: 23, offset: 25709},
+																						pos: position{line: 800, col: 23, offset: 25810},
 																						expr: &litMatcher{
-																							pos:        position{line: 798, col: 23, offset: 25709},
+																							pos:        position{line: 800, col: 23, offset: 25810},
 																							val:        "_",
 																							ignoreCase: false,
 																							want:       "\"_\"",
@@ -8072,12 +8072,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 800, col: 8, offset: 25793},
+																		pos: position{line: 802, col: 8, offset: 25894},
 																		expr: &actionExpr{
-																			pos: position{line: 2910, col: 10, offset: 91824},
+																			pos: position{line: 2912, col: 10, offset: 91925},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2910, col: 10, offset: 91824},
+																				pos:        position{line: 2912, col: 10, offset: 91925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8086,28 +8086,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2932, col: 8, offset: 92222},
+																		pos: position{line: 2934, col: 8, offset: 92323},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8116,9 +8116,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2929, col: 8, offset: 92172},
+																				pos: position{line: 2931, col: 8, offset: 92273},
 																				expr: &anyMatcher{
-																					line: 2929, col: 9, offset: 92173,
+																					line: 2931, col: 9, offset: 92274,
 																				},
 																			},
 																		},
@@ -8128,56 +8128,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1047, col: 5, offset: 32329},
+														pos: position{line: 1049, col: 5, offset: 32430},
 														run: (*parser).callonDocumentFragment904,
 													},
 													&labeledExpr{
-														pos:   position{line: 1050, col: 5, offset: 32421},
+														pos:   position{line: 1052, col: 5, offset: 32522},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1065, col: 4, offset: 32802},
+															pos: position{line: 1067, col: 4, offset: 32903},
 															expr: &actionExpr{
-																pos: position{line: 1065, col: 5, offset: 32803},
+																pos: position{line: 1067, col: 5, offset: 32904},
 																run: (*parser).callonDocumentFragment907,
 																expr: &seqExpr{
-																	pos: position{line: 1065, col: 5, offset: 32803},
+																	pos: position{line: 1067, col: 5, offset: 32904},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1065, col: 5, offset: 32803},
+																			pos: position{line: 1067, col: 5, offset: 32904},
 																			expr: &choiceExpr{
-																				pos: position{line: 1058, col: 5, offset: 32649},
+																				pos: position{line: 1060, col: 5, offset: 32750},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1058, col: 5, offset: 32649},
+																						pos: position{line: 1060, col: 5, offset: 32750},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1058, col: 5, offset: 32649},
+																								pos:   position{line: 1060, col: 5, offset: 32750},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 798, col: 5, offset: 25691},
+																									pos: position{line: 800, col: 5, offset: 25792},
 																									run: (*parser).callonDocumentFragment913,
 																									expr: &seqExpr{
-																										pos: position{line: 798, col: 5, offset: 25691},
+																										pos: position{line: 800, col: 5, offset: 25792},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 798, col: 5, offset: 25691},
+																												pos:   position{line: 800, col: 5, offset: 25792},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 798, col: 16, offset: 25702},
+																													pos: position{line: 800, col: 16, offset: 25803},
 																													run: (*parser).callonDocumentFragment916,
 																													expr: &seqExpr{
-																														pos: position{line: 798, col: 16, offset: 25702},
+																														pos: position{line: 800, col: 16, offset: 25803},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 798, col: 16, offset: 25702},
+																																pos:        position{line: 800, col: 16, offset: 25803},
 																																val:        "____",
 																																ignoreCase: false,
 																																want:       "\"____\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 798, col: 23, offset: 25709},
+																																pos: position{line: 800, col: 23, offset: 25810},
 																																expr: &litMatcher{
-																																	pos:        position{line: 798, col: 23, offset: 25709},
+																																	pos:        position{line: 800, col: 23, offset: 25810},
 																																	val:        "_",
 																																	ignoreCase: false,
 																																	want:       "\"_\"",
@@ -8188,12 +8188,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 800, col: 8, offset: 25793},
+																												pos: position{line: 802, col: 8, offset: 25894},
 																												expr: &actionExpr{
-																													pos: position{line: 2910, col: 10, offset: 91824},
+																													pos: position{line: 2912, col: 10, offset: 91925},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2910, col: 10, offset: 91824},
+																														pos:        position{line: 2912, col: 10, offset: 91925},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8202,28 +8202,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2932, col: 8, offset: 92222},
+																												pos: position{line: 2934, col: 8, offset: 92323},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2919, col: 12, offset: 91995},
+																														pos: position{line: 2921, col: 12, offset: 92096},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2919, col: 13, offset: 91996},
+																															pos: position{line: 2921, col: 13, offset: 92097},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2919, col: 13, offset: 91996},
+																																	pos:        position{line: 2921, col: 13, offset: 92097},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2919, col: 20, offset: 92003},
+																																	pos:        position{line: 2921, col: 20, offset: 92104},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2919, col: 29, offset: 92012},
+																																	pos:        position{line: 2921, col: 29, offset: 92113},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8232,9 +8232,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2929, col: 8, offset: 92172},
+																														pos: position{line: 2931, col: 8, offset: 92273},
 																														expr: &anyMatcher{
-																															line: 2929, col: 9, offset: 92173,
+																															line: 2931, col: 9, offset: 92274,
 																														},
 																													},
 																												},
@@ -8244,45 +8244,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1059, col: 5, offset: 32678},
+																								pos: position{line: 1061, col: 5, offset: 32779},
 																								run: (*parser).callonDocumentFragment932,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2929, col: 8, offset: 92172},
+																						pos: position{line: 2931, col: 8, offset: 92273},
 																						expr: &anyMatcher{
-																							line: 2929, col: 9, offset: 92173,
+																							line: 2931, col: 9, offset: 92274,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1066, col: 5, offset: 32831},
+																			pos:   position{line: 1068, col: 5, offset: 32932},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26185},
+																				pos: position{line: 814, col: 5, offset: 26286},
 																				run: (*parser).callonDocumentFragment936,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26185},
+																					pos: position{line: 814, col: 5, offset: 26286},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2927, col: 11, offset: 92158},
+																							pos: position{line: 2929, col: 11, offset: 92259},
 																							expr: &anyMatcher{
-																								line: 2927, col: 13, offset: 92160,
+																								line: 2929, col: 13, offset: 92261,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26260},
+																							pos:   position{line: 815, col: 5, offset: 26361},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2856, col: 13, offset: 90350},
+																								pos: position{line: 2858, col: 13, offset: 90451},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2856, col: 13, offset: 90350},
+																									pos: position{line: 2858, col: 13, offset: 90451},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2856, col: 13, offset: 90350},
+																										pos:        position{line: 2858, col: 13, offset: 90451},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8292,28 +8292,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8322,9 +8322,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -8339,44 +8339,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1051, col: 5, offset: 32453},
+														pos:   position{line: 1053, col: 5, offset: 32554},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1051, col: 9, offset: 32457},
+															pos: position{line: 1053, col: 9, offset: 32558},
 															expr: &choiceExpr{
-																pos: position{line: 1058, col: 5, offset: 32649},
+																pos: position{line: 1060, col: 5, offset: 32750},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1058, col: 5, offset: 32649},
+																		pos: position{line: 1060, col: 5, offset: 32750},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1058, col: 5, offset: 32649},
+																				pos:   position{line: 1060, col: 5, offset: 32750},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 798, col: 5, offset: 25691},
+																					pos: position{line: 800, col: 5, offset: 25792},
 																					run: (*parser).callonDocumentFragment957,
 																					expr: &seqExpr{
-																						pos: position{line: 798, col: 5, offset: 25691},
+																						pos: position{line: 800, col: 5, offset: 25792},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 798, col: 5, offset: 25691},
+																								pos:   position{line: 800, col: 5, offset: 25792},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 798, col: 16, offset: 25702},
+																									pos: position{line: 800, col: 16, offset: 25803},
 																									run: (*parser).callonDocumentFragment960,
 																									expr: &seqExpr{
-																										pos: position{line: 798, col: 16, offset: 25702},
+																										pos: position{line: 800, col: 16, offset: 25803},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 798, col: 16, offset: 25702},
+																												pos:        position{line: 800, col: 16, offset: 25803},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 798, col: 23, offset: 25709},
+																												pos: position{line: 800, col: 23, offset: 25810},
 																												expr: &litMatcher{
-																													pos:        position{line: 798, col: 23, offset: 25709},
+																													pos:        position{line: 800, col: 23, offset: 25810},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -8387,12 +8387,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 800, col: 8, offset: 25793},
+																								pos: position{line: 802, col: 8, offset: 25894},
 																								expr: &actionExpr{
-																									pos: position{line: 2910, col: 10, offset: 91824},
+																									pos: position{line: 2912, col: 10, offset: 91925},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2910, col: 10, offset: 91824},
+																										pos:        position{line: 2912, col: 10, offset: 91925},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8401,28 +8401,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2932, col: 8, offset: 92222},
+																								pos: position{line: 2934, col: 8, offset: 92323},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2919, col: 12, offset: 91995},
+																										pos: position{line: 2921, col: 12, offset: 92096},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2919, col: 13, offset: 91996},
+																											pos: position{line: 2921, col: 13, offset: 92097},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 13, offset: 91996},
+																													pos:        position{line: 2921, col: 13, offset: 92097},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 20, offset: 92003},
+																													pos:        position{line: 2921, col: 20, offset: 92104},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 29, offset: 92012},
+																													pos:        position{line: 2921, col: 29, offset: 92113},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8431,9 +8431,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2929, col: 8, offset: 92172},
+																										pos: position{line: 2931, col: 8, offset: 92273},
 																										expr: &anyMatcher{
-																											line: 2929, col: 9, offset: 92173,
+																											line: 2931, col: 9, offset: 92274,
 																										},
 																									},
 																								},
@@ -8443,15 +8443,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1059, col: 5, offset: 32678},
+																				pos: position{line: 1061, col: 5, offset: 32779},
 																				run: (*parser).callonDocumentFragment976,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2929, col: 8, offset: 92172},
+																		pos: position{line: 2931, col: 8, offset: 92273},
 																		expr: &anyMatcher{
-																			line: 2929, col: 9, offset: 92173,
+																			line: 2931, col: 9, offset: 92274,
 																		},
 																	},
 																},
@@ -8462,39 +8462,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1074, col: 5, offset: 32986},
+											pos: position{line: 1076, col: 5, offset: 33087},
 											run: (*parser).callonDocumentFragment979,
 											expr: &seqExpr{
-												pos: position{line: 1074, col: 5, offset: 32986},
+												pos: position{line: 1076, col: 5, offset: 33087},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1074, col: 5, offset: 32986},
+														pos:   position{line: 1076, col: 5, offset: 33087},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 805, col: 5, offset: 25937},
+															pos: position{line: 807, col: 5, offset: 26038},
 															run: (*parser).callonDocumentFragment982,
 															expr: &seqExpr{
-																pos: position{line: 805, col: 5, offset: 25937},
+																pos: position{line: 807, col: 5, offset: 26038},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 805, col: 5, offset: 25937},
+																		pos:   position{line: 807, col: 5, offset: 26038},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 805, col: 16, offset: 25948},
+																			pos: position{line: 807, col: 16, offset: 26049},
 																			run: (*parser).callonDocumentFragment985,
 																			expr: &seqExpr{
-																				pos: position{line: 805, col: 16, offset: 25948},
+																				pos: position{line: 807, col: 16, offset: 26049},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 805, col: 16, offset: 25948},
+																						pos:        position{line: 807, col: 16, offset: 26049},
 																						val:        "****",
 																						ignoreCase: false,
 																						want:       "\"****\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 805, col: 23, offset: 25955},
+																						pos: position{line: 807, col: 23, offset: 26056},
 																						expr: &litMatcher{
-																							pos:        position{line: 805, col: 23, offset: 25955},
+																							pos:        position{line: 807, col: 23, offset: 26056},
 																							val:        "*",
 																							ignoreCase: false,
 																							want:       "\"*\"",
@@ -8505,12 +8505,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 807, col: 8, offset: 26039},
+																		pos: position{line: 809, col: 8, offset: 26140},
 																		expr: &actionExpr{
-																			pos: position{line: 2910, col: 10, offset: 91824},
+																			pos: position{line: 2912, col: 10, offset: 91925},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2910, col: 10, offset: 91824},
+																				pos:        position{line: 2912, col: 10, offset: 91925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8519,28 +8519,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2932, col: 8, offset: 92222},
+																		pos: position{line: 2934, col: 8, offset: 92323},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8549,9 +8549,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2929, col: 8, offset: 92172},
+																				pos: position{line: 2931, col: 8, offset: 92273},
 																				expr: &anyMatcher{
-																					line: 2929, col: 9, offset: 92173,
+																					line: 2931, col: 9, offset: 92274,
 																				},
 																			},
 																		},
@@ -8561,56 +8561,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1075, col: 5, offset: 33025},
+														pos: position{line: 1077, col: 5, offset: 33126},
 														run: (*parser).callonDocumentFragment1001,
 													},
 													&labeledExpr{
-														pos:   position{line: 1078, col: 5, offset: 33117},
+														pos:   position{line: 1080, col: 5, offset: 33218},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1093, col: 4, offset: 33514},
+															pos: position{line: 1095, col: 4, offset: 33615},
 															expr: &actionExpr{
-																pos: position{line: 1093, col: 5, offset: 33515},
+																pos: position{line: 1095, col: 5, offset: 33616},
 																run: (*parser).callonDocumentFragment1004,
 																expr: &seqExpr{
-																	pos: position{line: 1093, col: 5, offset: 33515},
+																	pos: position{line: 1095, col: 5, offset: 33616},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1093, col: 5, offset: 33515},
+																			pos: position{line: 1095, col: 5, offset: 33616},
 																			expr: &choiceExpr{
-																				pos: position{line: 1086, col: 5, offset: 33357},
+																				pos: position{line: 1088, col: 5, offset: 33458},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1086, col: 5, offset: 33357},
+																						pos: position{line: 1088, col: 5, offset: 33458},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1086, col: 5, offset: 33357},
+																								pos:   position{line: 1088, col: 5, offset: 33458},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 805, col: 5, offset: 25937},
+																									pos: position{line: 807, col: 5, offset: 26038},
 																									run: (*parser).callonDocumentFragment1010,
 																									expr: &seqExpr{
-																										pos: position{line: 805, col: 5, offset: 25937},
+																										pos: position{line: 807, col: 5, offset: 26038},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 805, col: 5, offset: 25937},
+																												pos:   position{line: 807, col: 5, offset: 26038},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 805, col: 16, offset: 25948},
+																													pos: position{line: 807, col: 16, offset: 26049},
 																													run: (*parser).callonDocumentFragment1013,
 																													expr: &seqExpr{
-																														pos: position{line: 805, col: 16, offset: 25948},
+																														pos: position{line: 807, col: 16, offset: 26049},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 805, col: 16, offset: 25948},
+																																pos:        position{line: 807, col: 16, offset: 26049},
 																																val:        "****",
 																																ignoreCase: false,
 																																want:       "\"****\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 805, col: 23, offset: 25955},
+																																pos: position{line: 807, col: 23, offset: 26056},
 																																expr: &litMatcher{
-																																	pos:        position{line: 805, col: 23, offset: 25955},
+																																	pos:        position{line: 807, col: 23, offset: 26056},
 																																	val:        "*",
 																																	ignoreCase: false,
 																																	want:       "\"*\"",
@@ -8621,12 +8621,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 807, col: 8, offset: 26039},
+																												pos: position{line: 809, col: 8, offset: 26140},
 																												expr: &actionExpr{
-																													pos: position{line: 2910, col: 10, offset: 91824},
+																													pos: position{line: 2912, col: 10, offset: 91925},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2910, col: 10, offset: 91824},
+																														pos:        position{line: 2912, col: 10, offset: 91925},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8635,28 +8635,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2932, col: 8, offset: 92222},
+																												pos: position{line: 2934, col: 8, offset: 92323},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2919, col: 12, offset: 91995},
+																														pos: position{line: 2921, col: 12, offset: 92096},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2919, col: 13, offset: 91996},
+																															pos: position{line: 2921, col: 13, offset: 92097},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2919, col: 13, offset: 91996},
+																																	pos:        position{line: 2921, col: 13, offset: 92097},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2919, col: 20, offset: 92003},
+																																	pos:        position{line: 2921, col: 20, offset: 92104},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2919, col: 29, offset: 92012},
+																																	pos:        position{line: 2921, col: 29, offset: 92113},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8665,9 +8665,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2929, col: 8, offset: 92172},
+																														pos: position{line: 2931, col: 8, offset: 92273},
 																														expr: &anyMatcher{
-																															line: 2929, col: 9, offset: 92173,
+																															line: 2931, col: 9, offset: 92274,
 																														},
 																													},
 																												},
@@ -8677,45 +8677,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1087, col: 5, offset: 33388},
+																								pos: position{line: 1089, col: 5, offset: 33489},
 																								run: (*parser).callonDocumentFragment1029,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2929, col: 8, offset: 92172},
+																						pos: position{line: 2931, col: 8, offset: 92273},
 																						expr: &anyMatcher{
-																							line: 2929, col: 9, offset: 92173,
+																							line: 2931, col: 9, offset: 92274,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1094, col: 5, offset: 33545},
+																			pos:   position{line: 1096, col: 5, offset: 33646},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26185},
+																				pos: position{line: 814, col: 5, offset: 26286},
 																				run: (*parser).callonDocumentFragment1033,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26185},
+																					pos: position{line: 814, col: 5, offset: 26286},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2927, col: 11, offset: 92158},
+																							pos: position{line: 2929, col: 11, offset: 92259},
 																							expr: &anyMatcher{
-																								line: 2927, col: 13, offset: 92160,
+																								line: 2929, col: 13, offset: 92261,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26260},
+																							pos:   position{line: 815, col: 5, offset: 26361},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2856, col: 13, offset: 90350},
+																								pos: position{line: 2858, col: 13, offset: 90451},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2856, col: 13, offset: 90350},
+																									pos: position{line: 2858, col: 13, offset: 90451},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2856, col: 13, offset: 90350},
+																										pos:        position{line: 2858, col: 13, offset: 90451},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8725,28 +8725,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8755,9 +8755,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -8772,44 +8772,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1079, col: 5, offset: 33151},
+														pos:   position{line: 1081, col: 5, offset: 33252},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1079, col: 9, offset: 33155},
+															pos: position{line: 1081, col: 9, offset: 33256},
 															expr: &choiceExpr{
-																pos: position{line: 1086, col: 5, offset: 33357},
+																pos: position{line: 1088, col: 5, offset: 33458},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1086, col: 5, offset: 33357},
+																		pos: position{line: 1088, col: 5, offset: 33458},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1086, col: 5, offset: 33357},
+																				pos:   position{line: 1088, col: 5, offset: 33458},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 805, col: 5, offset: 25937},
+																					pos: position{line: 807, col: 5, offset: 26038},
 																					run: (*parser).callonDocumentFragment1054,
 																					expr: &seqExpr{
-																						pos: position{line: 805, col: 5, offset: 25937},
+																						pos: position{line: 807, col: 5, offset: 26038},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 805, col: 5, offset: 25937},
+																								pos:   position{line: 807, col: 5, offset: 26038},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 805, col: 16, offset: 25948},
+																									pos: position{line: 807, col: 16, offset: 26049},
 																									run: (*parser).callonDocumentFragment1057,
 																									expr: &seqExpr{
-																										pos: position{line: 805, col: 16, offset: 25948},
+																										pos: position{line: 807, col: 16, offset: 26049},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 805, col: 16, offset: 25948},
+																												pos:        position{line: 807, col: 16, offset: 26049},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 805, col: 23, offset: 25955},
+																												pos: position{line: 807, col: 23, offset: 26056},
 																												expr: &litMatcher{
-																													pos:        position{line: 805, col: 23, offset: 25955},
+																													pos:        position{line: 807, col: 23, offset: 26056},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -8820,12 +8820,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 807, col: 8, offset: 26039},
+																								pos: position{line: 809, col: 8, offset: 26140},
 																								expr: &actionExpr{
-																									pos: position{line: 2910, col: 10, offset: 91824},
+																									pos: position{line: 2912, col: 10, offset: 91925},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2910, col: 10, offset: 91824},
+																										pos:        position{line: 2912, col: 10, offset: 91925},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8834,28 +8834,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2932, col: 8, offset: 92222},
+																								pos: position{line: 2934, col: 8, offset: 92323},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2919, col: 12, offset: 91995},
+																										pos: position{line: 2921, col: 12, offset: 92096},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2919, col: 13, offset: 91996},
+																											pos: position{line: 2921, col: 13, offset: 92097},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 13, offset: 91996},
+																													pos:        position{line: 2921, col: 13, offset: 92097},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 20, offset: 92003},
+																													pos:        position{line: 2921, col: 20, offset: 92104},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 29, offset: 92012},
+																													pos:        position{line: 2921, col: 29, offset: 92113},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8864,9 +8864,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2929, col: 8, offset: 92172},
+																										pos: position{line: 2931, col: 8, offset: 92273},
 																										expr: &anyMatcher{
-																											line: 2929, col: 9, offset: 92173,
+																											line: 2931, col: 9, offset: 92274,
 																										},
 																									},
 																								},
@@ -8876,15 +8876,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1087, col: 5, offset: 33388},
+																				pos: position{line: 1089, col: 5, offset: 33489},
 																				run: (*parser).callonDocumentFragment1073,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2929, col: 8, offset: 92172},
+																		pos: position{line: 2931, col: 8, offset: 92273},
 																		expr: &anyMatcher{
-																			line: 2929, col: 9, offset: 92173,
+																			line: 2931, col: 9, offset: 92274,
 																		},
 																	},
 																},
@@ -8895,52 +8895,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2755, col: 18, offset: 87414},
+											pos: position{line: 2757, col: 18, offset: 87515},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2755, col: 18, offset: 87414},
+												pos: position{line: 2757, col: 18, offset: 87515},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2756, col: 9, offset: 87424},
+														pos: position{line: 2758, col: 9, offset: 87525},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2756, col: 9, offset: 87424},
+																pos:        position{line: 2758, col: 9, offset: 87525},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2757, col: 11, offset: 87460},
+																pos:        position{line: 2759, col: 11, offset: 87561},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2757, col: 19, offset: 87468},
+																pos:        position{line: 2759, col: 19, offset: 87569},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2757, col: 29, offset: 87478},
+																pos:        position{line: 2759, col: 29, offset: 87579},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2757, col: 37, offset: 87486},
+																pos:        position{line: 2759, col: 37, offset: 87587},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2757, col: 47, offset: 87496},
+																pos:        position{line: 2759, col: 47, offset: 87597},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2757, col: 55, offset: 87504},
+																pos:        position{line: 2759, col: 55, offset: 87605},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -8948,12 +8948,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2758, col: 11, offset: 87562},
+														pos: position{line: 2760, col: 11, offset: 87663},
 														expr: &actionExpr{
-															pos: position{line: 2910, col: 10, offset: 91824},
+															pos: position{line: 2912, col: 10, offset: 91925},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2910, col: 10, offset: 91824},
+																pos:        position{line: 2912, col: 10, offset: 91925},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -8962,28 +8962,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2932, col: 8, offset: 92222},
+														pos: position{line: 2934, col: 8, offset: 92323},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2919, col: 12, offset: 91995},
+																pos: position{line: 2921, col: 12, offset: 92096},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2919, col: 13, offset: 91996},
+																	pos: position{line: 2921, col: 13, offset: 92097},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 13, offset: 91996},
+																			pos:        position{line: 2921, col: 13, offset: 92097},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 20, offset: 92003},
+																			pos:        position{line: 2921, col: 20, offset: 92104},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 29, offset: 92012},
+																			pos:        position{line: 2921, col: 29, offset: 92113},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -8992,36 +8992,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2929, col: 8, offset: 92172},
+																pos: position{line: 2931, col: 8, offset: 92273},
 																expr: &anyMatcher{
-																	line: 2929, col: 9, offset: 92173,
+																	line: 2931, col: 9, offset: 92274,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2932, col: 8, offset: 92222},
+														pos: position{line: 2934, col: 8, offset: 92323},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2919, col: 12, offset: 91995},
+																pos: position{line: 2921, col: 12, offset: 92096},
 																run: (*parser).callonDocumentFragment1098,
 																expr: &choiceExpr{
-																	pos: position{line: 2919, col: 13, offset: 91996},
+																	pos: position{line: 2921, col: 13, offset: 92097},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 13, offset: 91996},
+																			pos:        position{line: 2921, col: 13, offset: 92097},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 20, offset: 92003},
+																			pos:        position{line: 2921, col: 20, offset: 92104},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 29, offset: 92012},
+																			pos:        position{line: 2921, col: 29, offset: 92113},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9030,9 +9030,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2929, col: 8, offset: 92172},
+																pos: position{line: 2931, col: 8, offset: 92273},
 																expr: &anyMatcher{
-																	line: 2929, col: 9, offset: 92173,
+																	line: 2931, col: 9, offset: 92274,
 																},
 															},
 														},
@@ -9041,28 +9041,28 @@ var g = &grammar{
 											},
 										},
 										&ruleRefExpr{
-											pos:  position{line: 247, col: 11, offset: 7378},
+											pos:  position{line: 249, col: 11, offset: 7479},
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2639, col: 5, offset: 84171},
+											pos: position{line: 2641, col: 5, offset: 84272},
 											run: (*parser).callonDocumentFragment1106,
 											expr: &seqExpr{
-												pos: position{line: 2639, col: 5, offset: 84171},
+												pos: position{line: 2641, col: 5, offset: 84272},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2645, col: 19, offset: 84348},
+														pos:        position{line: 2647, col: 19, offset: 84449},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2645, col: 26, offset: 84355},
+														pos: position{line: 2647, col: 26, offset: 84456},
 														expr: &actionExpr{
-															pos: position{line: 2910, col: 10, offset: 91824},
+															pos: position{line: 2912, col: 10, offset: 91925},
 															run: (*parser).callonDocumentFragment1110,
 															expr: &charClassMatcher{
-																pos:        position{line: 2910, col: 10, offset: 91824},
+																pos:        position{line: 2912, col: 10, offset: 91925},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9071,28 +9071,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2932, col: 8, offset: 92222},
+														pos: position{line: 2934, col: 8, offset: 92323},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2919, col: 12, offset: 91995},
+																pos: position{line: 2921, col: 12, offset: 92096},
 																run: (*parser).callonDocumentFragment1113,
 																expr: &choiceExpr{
-																	pos: position{line: 2919, col: 13, offset: 91996},
+																	pos: position{line: 2921, col: 13, offset: 92097},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 13, offset: 91996},
+																			pos:        position{line: 2921, col: 13, offset: 92097},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 20, offset: 92003},
+																			pos:        position{line: 2921, col: 20, offset: 92104},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 29, offset: 92012},
+																			pos:        position{line: 2921, col: 29, offset: 92113},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9101,40 +9101,40 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2929, col: 8, offset: 92172},
+																pos: position{line: 2931, col: 8, offset: 92273},
 																expr: &anyMatcher{
-																	line: 2929, col: 9, offset: 92173,
+																	line: 2931, col: 9, offset: 92274,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2640, col: 5, offset: 84195},
+														pos:   position{line: 2642, col: 5, offset: 84296},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2640, col: 11, offset: 84201},
+															pos: position{line: 2642, col: 11, offset: 84302},
 															expr: &choiceExpr{
-																pos: position{line: 2640, col: 12, offset: 84202},
+																pos: position{line: 2642, col: 12, offset: 84303},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 678, col: 14, offset: 21586},
+																		pos: position{line: 680, col: 14, offset: 21687},
 																		run: (*parser).callonDocumentFragment1123,
 																		expr: &seqExpr{
-																			pos: position{line: 678, col: 14, offset: 21586},
+																			pos: position{line: 680, col: 14, offset: 21687},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2927, col: 11, offset: 92158},
+																					pos: position{line: 2929, col: 11, offset: 92259},
 																					expr: &anyMatcher{
-																						line: 2927, col: 13, offset: 92160,
+																						line: 2929, col: 13, offset: 92261,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 678, col: 21, offset: 21593},
+																					pos: position{line: 680, col: 21, offset: 21694},
 																					expr: &actionExpr{
-																						pos: position{line: 2910, col: 10, offset: 91824},
+																						pos: position{line: 2912, col: 10, offset: 91925},
 																						run: (*parser).callonDocumentFragment1128,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2910, col: 10, offset: 91824},
+																							pos:        position{line: 2912, col: 10, offset: 91925},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9143,28 +9143,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2932, col: 8, offset: 92222},
+																					pos: position{line: 2934, col: 8, offset: 92323},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2919, col: 12, offset: 91995},
+																							pos: position{line: 2921, col: 12, offset: 92096},
 																							run: (*parser).callonDocumentFragment1131,
 																							expr: &choiceExpr{
-																								pos: position{line: 2919, col: 13, offset: 91996},
+																								pos: position{line: 2921, col: 13, offset: 92097},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 13, offset: 91996},
+																										pos:        position{line: 2921, col: 13, offset: 92097},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 20, offset: 92003},
+																										pos:        position{line: 2921, col: 20, offset: 92104},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 29, offset: 92012},
+																										pos:        position{line: 2921, col: 29, offset: 92113},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9173,9 +9173,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2929, col: 8, offset: 92172},
+																							pos: position{line: 2931, col: 8, offset: 92273},
 																							expr: &anyMatcher{
-																								line: 2929, col: 9, offset: 92173,
+																								line: 2931, col: 9, offset: 92274,
 																							},
 																						},
 																					},
@@ -9184,36 +9184,36 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2513, col: 22, offset: 80602},
+																		pos: position{line: 2515, col: 22, offset: 80703},
 																		run: (*parser).callonDocumentFragment1138,
 																		expr: &seqExpr{
-																			pos: position{line: 2513, col: 22, offset: 80602},
+																			pos: position{line: 2515, col: 22, offset: 80703},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2518, col: 31, offset: 80852},
+																					pos:        position{line: 2520, col: 31, offset: 80953},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																				&notExpr{
-																					pos: position{line: 2518, col: 36, offset: 80857},
+																					pos: position{line: 2520, col: 36, offset: 80958},
 																					expr: &litMatcher{
-																						pos:        position{line: 2518, col: 37, offset: 80858},
+																						pos:        position{line: 2520, col: 37, offset: 80959},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2513, col: 49, offset: 80629},
+																					pos:   position{line: 2515, col: 49, offset: 80730},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2856, col: 13, offset: 90350},
+																						pos: position{line: 2858, col: 13, offset: 90451},
 																						run: (*parser).callonDocumentFragment1144,
 																						expr: &zeroOrMoreExpr{
-																							pos: position{line: 2856, col: 13, offset: 90350},
+																							pos: position{line: 2858, col: 13, offset: 90451},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2856, col: 13, offset: 90350},
+																								pos:        position{line: 2858, col: 13, offset: 90451},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -9223,28 +9223,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2932, col: 8, offset: 92222},
+																					pos: position{line: 2934, col: 8, offset: 92323},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2919, col: 12, offset: 91995},
+																							pos: position{line: 2921, col: 12, offset: 92096},
 																							run: (*parser).callonDocumentFragment1148,
 																							expr: &choiceExpr{
-																								pos: position{line: 2919, col: 13, offset: 91996},
+																								pos: position{line: 2921, col: 13, offset: 92097},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 13, offset: 91996},
+																										pos:        position{line: 2921, col: 13, offset: 92097},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 20, offset: 92003},
+																										pos:        position{line: 2921, col: 20, offset: 92104},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 29, offset: 92012},
+																										pos:        position{line: 2921, col: 29, offset: 92113},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9253,9 +9253,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2929, col: 8, offset: 92172},
+																							pos: position{line: 2931, col: 8, offset: 92273},
 																							expr: &anyMatcher{
-																								line: 2929, col: 9, offset: 92173,
+																								line: 2931, col: 9, offset: 92274,
 																							},
 																						},
 																					},
@@ -9264,32 +9264,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2652, col: 5, offset: 84467},
+																		pos: position{line: 2654, col: 5, offset: 84568},
 																		run: (*parser).callonDocumentFragment1155,
 																		expr: &seqExpr{
-																			pos: position{line: 2652, col: 5, offset: 84467},
+																			pos: position{line: 2654, col: 5, offset: 84568},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2652, col: 5, offset: 84467},
+																					pos: position{line: 2654, col: 5, offset: 84568},
 																					expr: &choiceExpr{
-																						pos: position{line: 2649, col: 22, offset: 84428},
+																						pos: position{line: 2651, col: 22, offset: 84529},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2645, col: 19, offset: 84348},
+																								pos: position{line: 2647, col: 19, offset: 84449},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2645, col: 19, offset: 84348},
+																										pos:        position{line: 2647, col: 19, offset: 84449},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2645, col: 26, offset: 84355},
+																										pos: position{line: 2647, col: 26, offset: 84456},
 																										expr: &actionExpr{
-																											pos: position{line: 2910, col: 10, offset: 91824},
+																											pos: position{line: 2912, col: 10, offset: 91925},
 																											run: (*parser).callonDocumentFragment1162,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2910, col: 10, offset: 91824},
+																												pos:        position{line: 2912, col: 10, offset: 91925},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9298,28 +9298,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2932, col: 8, offset: 92222},
+																										pos: position{line: 2934, col: 8, offset: 92323},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2919, col: 12, offset: 91995},
+																												pos: position{line: 2921, col: 12, offset: 92096},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &choiceExpr{
-																													pos: position{line: 2919, col: 13, offset: 91996},
+																													pos: position{line: 2921, col: 13, offset: 92097},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2919, col: 13, offset: 91996},
+																															pos:        position{line: 2921, col: 13, offset: 92097},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2919, col: 20, offset: 92003},
+																															pos:        position{line: 2921, col: 20, offset: 92104},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2919, col: 29, offset: 92012},
+																															pos:        position{line: 2921, col: 29, offset: 92113},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9328,9 +9328,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2929, col: 8, offset: 92172},
+																												pos: position{line: 2931, col: 8, offset: 92273},
 																												expr: &anyMatcher{
-																													line: 2929, col: 9, offset: 92173,
+																													line: 2931, col: 9, offset: 92274,
 																												},
 																											},
 																										},
@@ -9338,59 +9338,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2929, col: 8, offset: 92172},
+																								pos: position{line: 2931, col: 8, offset: 92273},
 																								expr: &anyMatcher{
-																									line: 2929, col: 9, offset: 92173,
+																									line: 2931, col: 9, offset: 92274,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2653, col: 5, offset: 84490},
+																					pos:   position{line: 2655, col: 5, offset: 84591},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2654, col: 9, offset: 84508},
+																						pos: position{line: 2656, col: 9, offset: 84609},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2654, col: 10, offset: 84509},
+																								pos: position{line: 2656, col: 10, offset: 84610},
 																								run: (*parser).callonDocumentFragment1176,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2654, col: 10, offset: 84509},
+																									pos:   position{line: 2656, col: 10, offset: 84610},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2654, col: 17, offset: 84516},
+																										pos: position{line: 2656, col: 17, offset: 84617},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2662, col: 21, offset: 84712},
+																												pos: position{line: 2664, col: 21, offset: 84813},
 																												run: (*parser).callonDocumentFragment1179,
 																												expr: &seqExpr{
-																													pos: position{line: 2662, col: 21, offset: 84712},
+																													pos: position{line: 2664, col: 21, offset: 84813},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2662, col: 21, offset: 84712},
+																															pos:   position{line: 2664, col: 21, offset: 84813},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2662, col: 27, offset: 84718},
+																																pos: position{line: 2664, col: 27, offset: 84819},
 																																expr: &actionExpr{
-																																	pos: position{line: 2667, col: 5, offset: 84793},
+																																	pos: position{line: 2669, col: 5, offset: 84894},
 																																	run: (*parser).callonDocumentFragment1183,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2667, col: 5, offset: 84793},
+																																		pos: position{line: 2669, col: 5, offset: 84894},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2667, col: 5, offset: 84793},
+																																				pos:        position{line: 2669, col: 5, offset: 84894},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2667, col: 9, offset: 84797},
+																																				pos: position{line: 2669, col: 9, offset: 84898},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2910, col: 10, offset: 91824},
+																																					pos: position{line: 2912, col: 10, offset: 91925},
 																																					run: (*parser).callonDocumentFragment1187,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2910, col: 10, offset: 91824},
+																																						pos:        position{line: 2912, col: 10, offset: 91925},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9399,21 +9399,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2667, col: 16, offset: 84804},
+																																				pos:   position{line: 2669, col: 16, offset: 84905},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2673, col: 5, offset: 85004},
+																																					pos: position{line: 2675, col: 5, offset: 85105},
 																																					run: (*parser).callonDocumentFragment1190,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2673, col: 5, offset: 85004},
+																																						pos:   position{line: 2675, col: 5, offset: 85105},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2673, col: 14, offset: 85013},
+																																							pos: position{line: 2675, col: 14, offset: 85114},
 																																							run: (*parser).callonDocumentFragment1192,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2673, col: 14, offset: 85013},
+																																								pos: position{line: 2675, col: 14, offset: 85114},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2673, col: 14, offset: 85013},
+																																									pos:        position{line: 2675, col: 14, offset: 85114},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9430,28 +9430,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2932, col: 8, offset: 92222},
+																															pos: position{line: 2934, col: 8, offset: 92323},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2919, col: 12, offset: 91995},
+																																	pos: position{line: 2921, col: 12, offset: 92096},
 																																	run: (*parser).callonDocumentFragment1196,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2919, col: 13, offset: 91996},
+																																		pos: position{line: 2921, col: 13, offset: 92097},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2919, col: 13, offset: 91996},
+																																				pos:        position{line: 2921, col: 13, offset: 92097},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2919, col: 20, offset: 92003},
+																																				pos:        position{line: 2921, col: 20, offset: 92104},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2919, col: 29, offset: 92012},
+																																				pos:        position{line: 2921, col: 29, offset: 92113},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9460,9 +9460,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2929, col: 8, offset: 92172},
+																																	pos: position{line: 2931, col: 8, offset: 92273},
 																																	expr: &anyMatcher{
-																																		line: 2929, col: 9, offset: 92173,
+																																		line: 2931, col: 9, offset: 92274,
 																																	},
 																																},
 																															},
@@ -9471,40 +9471,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2679, col: 24, offset: 85149},
+																												pos: position{line: 2681, col: 24, offset: 85250},
 																												run: (*parser).callonDocumentFragment1203,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2679, col: 24, offset: 85149},
+																													pos:   position{line: 2681, col: 24, offset: 85250},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2679, col: 30, offset: 85155},
+																														pos: position{line: 2681, col: 30, offset: 85256},
 																														expr: &actionExpr{
-																															pos: position{line: 2684, col: 5, offset: 85231},
+																															pos: position{line: 2686, col: 5, offset: 85332},
 																															run: (*parser).callonDocumentFragment1206,
 																															expr: &seqExpr{
-																																pos: position{line: 2684, col: 5, offset: 85231},
+																																pos: position{line: 2686, col: 5, offset: 85332},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2684, col: 5, offset: 85231},
+																																		pos: position{line: 2686, col: 5, offset: 85332},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2649, col: 22, offset: 84428},
+																																			pos: position{line: 2651, col: 22, offset: 84529},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2645, col: 19, offset: 84348},
+																																					pos: position{line: 2647, col: 19, offset: 84449},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2645, col: 19, offset: 84348},
+																																							pos:        position{line: 2647, col: 19, offset: 84449},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2645, col: 26, offset: 84355},
+																																							pos: position{line: 2647, col: 26, offset: 84456},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2910, col: 10, offset: 91824},
+																																								pos: position{line: 2912, col: 10, offset: 91925},
 																																								run: (*parser).callonDocumentFragment1213,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2910, col: 10, offset: 91824},
+																																									pos:        position{line: 2912, col: 10, offset: 91925},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9513,28 +9513,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2932, col: 8, offset: 92222},
+																																							pos: position{line: 2934, col: 8, offset: 92323},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2919, col: 12, offset: 91995},
+																																									pos: position{line: 2921, col: 12, offset: 92096},
 																																									run: (*parser).callonDocumentFragment1216,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2919, col: 13, offset: 91996},
+																																										pos: position{line: 2921, col: 13, offset: 92097},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2919, col: 13, offset: 91996},
+																																												pos:        position{line: 2921, col: 13, offset: 92097},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2919, col: 20, offset: 92003},
+																																												pos:        position{line: 2921, col: 20, offset: 92104},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2919, col: 29, offset: 92012},
+																																												pos:        position{line: 2921, col: 29, offset: 92113},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9543,9 +9543,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2929, col: 8, offset: 92172},
+																																									pos: position{line: 2931, col: 8, offset: 92273},
 																																									expr: &anyMatcher{
-																																										line: 2929, col: 9, offset: 92173,
+																																										line: 2931, col: 9, offset: 92274,
 																																									},
 																																								},
 																																							},
@@ -9553,35 +9553,35 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2929, col: 8, offset: 92172},
+																																					pos: position{line: 2931, col: 8, offset: 92273},
 																																					expr: &anyMatcher{
-																																						line: 2929, col: 9, offset: 92173,
+																																						line: 2931, col: 9, offset: 92274,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2685, col: 5, offset: 85254},
+																																		pos: position{line: 2687, col: 5, offset: 85355},
 																																		expr: &actionExpr{
-																																			pos: position{line: 678, col: 14, offset: 21586},
+																																			pos: position{line: 680, col: 14, offset: 21687},
 																																			run: (*parser).callonDocumentFragment1226,
 																																			expr: &seqExpr{
-																																				pos: position{line: 678, col: 14, offset: 21586},
+																																				pos: position{line: 680, col: 14, offset: 21687},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2927, col: 11, offset: 92158},
+																																						pos: position{line: 2929, col: 11, offset: 92259},
 																																						expr: &anyMatcher{
-																																							line: 2927, col: 13, offset: 92160,
+																																							line: 2929, col: 13, offset: 92261,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 678, col: 21, offset: 21593},
+																																						pos: position{line: 680, col: 21, offset: 21694},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2910, col: 10, offset: 91824},
+																																							pos: position{line: 2912, col: 10, offset: 91925},
 																																							run: (*parser).callonDocumentFragment1231,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2910, col: 10, offset: 91824},
+																																								pos:        position{line: 2912, col: 10, offset: 91925},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9590,28 +9590,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2932, col: 8, offset: 92222},
+																																						pos: position{line: 2934, col: 8, offset: 92323},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2919, col: 12, offset: 91995},
+																																								pos: position{line: 2921, col: 12, offset: 92096},
 																																								run: (*parser).callonDocumentFragment1234,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2919, col: 13, offset: 91996},
+																																									pos: position{line: 2921, col: 13, offset: 92097},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2919, col: 13, offset: 91996},
+																																											pos:        position{line: 2921, col: 13, offset: 92097},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2919, col: 20, offset: 92003},
+																																											pos:        position{line: 2921, col: 20, offset: 92104},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2919, col: 29, offset: 92012},
+																																											pos:        position{line: 2921, col: 29, offset: 92113},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9620,9 +9620,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2929, col: 8, offset: 92172},
+																																								pos: position{line: 2931, col: 8, offset: 92273},
 																																								expr: &anyMatcher{
-																																									line: 2929, col: 9, offset: 92173,
+																																									line: 2931, col: 9, offset: 92274,
 																																								},
 																																							},
 																																						},
@@ -9632,17 +9632,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2686, col: 5, offset: 85269},
+																																		pos:   position{line: 2688, col: 5, offset: 85370},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2686, col: 12, offset: 85276},
+																																			pos: position{line: 2688, col: 12, offset: 85377},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2710, col: 20, offset: 85899},
+																																				pos: position{line: 2712, col: 20, offset: 86000},
 																																				run: (*parser).callonDocumentFragment1243,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2710, col: 20, offset: 85899},
+																																					pos: position{line: 2712, col: 20, offset: 86000},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2710, col: 20, offset: 85899},
+																																						pos:        position{line: 2712, col: 20, offset: 86000},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9653,18 +9653,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2686, col: 31, offset: 85295},
+																																		pos:        position{line: 2688, col: 31, offset: 85396},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2686, col: 35, offset: 85299},
+																																		pos: position{line: 2688, col: 35, offset: 85400},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2910, col: 10, offset: 91824},
+																																			pos: position{line: 2912, col: 10, offset: 91925},
 																																			run: (*parser).callonDocumentFragment1248,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2910, col: 10, offset: 91824},
+																																				pos:        position{line: 2912, col: 10, offset: 91925},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9673,27 +9673,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2686, col: 42, offset: 85306},
+																																		pos: position{line: 2688, col: 42, offset: 85407},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2919, col: 12, offset: 91995},
+																																			pos: position{line: 2921, col: 12, offset: 92096},
 																																			run: (*parser).callonDocumentFragment1251,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2919, col: 13, offset: 91996},
+																																				pos: position{line: 2921, col: 13, offset: 92097},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2919, col: 13, offset: 91996},
+																																						pos:        position{line: 2921, col: 13, offset: 92097},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2919, col: 20, offset: 92003},
+																																						pos:        position{line: 2921, col: 20, offset: 92104},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2919, col: 29, offset: 92012},
+																																						pos:        position{line: 2921, col: 29, offset: 92113},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9703,57 +9703,57 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2686, col: 51, offset: 85315},
+																																		pos:   position{line: 2688, col: 51, offset: 85416},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2692, col: 5, offset: 85474},
+																																			pos: position{line: 2694, col: 5, offset: 85575},
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2693, col: 9, offset: 85484},
+																																				pos: position{line: 2695, col: 9, offset: 85585},
 																																				alternatives: []interface{}{
 																																					&actionExpr{
-																																						pos: position{line: 2693, col: 9, offset: 85484},
+																																						pos: position{line: 2695, col: 9, offset: 85585},
 																																						run: (*parser).callonDocumentFragment1259,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2693, col: 9, offset: 85484},
+																																							pos: position{line: 2695, col: 9, offset: 85585},
 																																							exprs: []interface{}{
 																																								&andCodeExpr{
-																																									pos: position{line: 2693, col: 9, offset: 85484},
+																																									pos: position{line: 2695, col: 9, offset: 85585},
 																																									run: (*parser).callonDocumentFragment1261,
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2696, col: 9, offset: 85553},
+																																									pos:   position{line: 2698, col: 9, offset: 85654},
 																																									label: "comment",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2513, col: 22, offset: 80602},
+																																										pos: position{line: 2515, col: 22, offset: 80703},
 																																										run: (*parser).callonDocumentFragment1263,
 																																										expr: &seqExpr{
-																																											pos: position{line: 2513, col: 22, offset: 80602},
+																																											pos: position{line: 2515, col: 22, offset: 80703},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2518, col: 31, offset: 80852},
+																																													pos:        position{line: 2520, col: 31, offset: 80953},
 																																													val:        "//",
 																																													ignoreCase: false,
 																																													want:       "\"//\"",
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2518, col: 36, offset: 80857},
+																																													pos: position{line: 2520, col: 36, offset: 80958},
 																																													expr: &litMatcher{
-																																														pos:        position{line: 2518, col: 37, offset: 80858},
+																																														pos:        position{line: 2520, col: 37, offset: 80959},
 																																														val:        "/",
 																																														ignoreCase: false,
 																																														want:       "\"/\"",
 																																													},
 																																												},
 																																												&labeledExpr{
-																																													pos:   position{line: 2513, col: 49, offset: 80629},
+																																													pos:   position{line: 2515, col: 49, offset: 80730},
 																																													label: "content",
 																																													expr: &actionExpr{
-																																														pos: position{line: 2856, col: 13, offset: 90350},
+																																														pos: position{line: 2858, col: 13, offset: 90451},
 																																														run: (*parser).callonDocumentFragment1269,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2856, col: 13, offset: 90350},
+																																															pos: position{line: 2858, col: 13, offset: 90451},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2856, col: 13, offset: 90350},
+																																																pos:        position{line: 2858, col: 13, offset: 90451},
 																																																val:        "[^\\r\\n]",
 																																																chars:      []rune{'\r', '\n'},
 																																																ignoreCase: false,
@@ -9763,28 +9763,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2932, col: 8, offset: 92222},
+																																													pos: position{line: 2934, col: 8, offset: 92323},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2919, col: 12, offset: 91995},
+																																															pos: position{line: 2921, col: 12, offset: 92096},
 																																															run: (*parser).callonDocumentFragment1273,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2919, col: 13, offset: 91996},
+																																																pos: position{line: 2921, col: 13, offset: 92097},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2919, col: 13, offset: 91996},
+																																																		pos:        position{line: 2921, col: 13, offset: 92097},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2919, col: 20, offset: 92003},
+																																																		pos:        position{line: 2921, col: 20, offset: 92104},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2919, col: 29, offset: 92012},
+																																																		pos:        position{line: 2921, col: 29, offset: 92113},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -9793,9 +9793,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2929, col: 8, offset: 92172},
+																																															pos: position{line: 2931, col: 8, offset: 92273},
 																																															expr: &anyMatcher{
-																																																line: 2929, col: 9, offset: 92173,
+																																																line: 2931, col: 9, offset: 92274,
 																																															},
 																																														},
 																																													},
@@ -9808,32 +9808,32 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&actionExpr{
-																																						pos: position{line: 2700, col: 9, offset: 85643},
+																																						pos: position{line: 2702, col: 9, offset: 85744},
 																																						run: (*parser).callonDocumentFragment1280,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2700, col: 9, offset: 85643},
+																																							pos: position{line: 2702, col: 9, offset: 85744},
 																																							exprs: []interface{}{
 																																								&notExpr{
-																																									pos: position{line: 2700, col: 9, offset: 85643},
+																																									pos: position{line: 2702, col: 9, offset: 85744},
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2649, col: 22, offset: 84428},
+																																										pos: position{line: 2651, col: 22, offset: 84529},
 																																										alternatives: []interface{}{
 																																											&seqExpr{
-																																												pos: position{line: 2645, col: 19, offset: 84348},
+																																												pos: position{line: 2647, col: 19, offset: 84449},
 																																												exprs: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2645, col: 19, offset: 84348},
+																																														pos:        position{line: 2647, col: 19, offset: 84449},
 																																														val:        "|===",
 																																														ignoreCase: false,
 																																														want:       "\"|===\"",
 																																													},
 																																													&zeroOrMoreExpr{
-																																														pos: position{line: 2645, col: 26, offset: 84355},
+																																														pos: position{line: 2647, col: 26, offset: 84456},
 																																														expr: &actionExpr{
-																																															pos: position{line: 2910, col: 10, offset: 91824},
+																																															pos: position{line: 2912, col: 10, offset: 91925},
 																																															run: (*parser).callonDocumentFragment1287,
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2910, col: 10, offset: 91824},
+																																																pos:        position{line: 2912, col: 10, offset: 91925},
 																																																val:        "[\\t ]",
 																																																chars:      []rune{'\t', ' '},
 																																																ignoreCase: false,
@@ -9842,28 +9842,28 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&choiceExpr{
-																																														pos: position{line: 2932, col: 8, offset: 92222},
+																																														pos: position{line: 2934, col: 8, offset: 92323},
 																																														alternatives: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2919, col: 12, offset: 91995},
+																																																pos: position{line: 2921, col: 12, offset: 92096},
 																																																run: (*parser).callonDocumentFragment1290,
 																																																expr: &choiceExpr{
-																																																	pos: position{line: 2919, col: 13, offset: 91996},
+																																																	pos: position{line: 2921, col: 13, offset: 92097},
 																																																	alternatives: []interface{}{
 																																																		&litMatcher{
-																																																			pos:        position{line: 2919, col: 13, offset: 91996},
+																																																			pos:        position{line: 2921, col: 13, offset: 92097},
 																																																			val:        "\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2919, col: 20, offset: 92003},
+																																																			pos:        position{line: 2921, col: 20, offset: 92104},
 																																																			val:        "\r\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2919, col: 29, offset: 92012},
+																																																			pos:        position{line: 2921, col: 29, offset: 92113},
 																																																			val:        "\r",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\"",
@@ -9872,9 +9872,9 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&notExpr{
-																																																pos: position{line: 2929, col: 8, offset: 92172},
+																																																pos: position{line: 2931, col: 8, offset: 92273},
 																																																expr: &anyMatcher{
-																																																	line: 2929, col: 9, offset: 92173,
+																																																	line: 2931, col: 9, offset: 92274,
 																																																},
 																																															},
 																																														},
@@ -9882,35 +9882,35 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2929, col: 8, offset: 92172},
+																																												pos: position{line: 2931, col: 8, offset: 92273},
 																																												expr: &anyMatcher{
-																																													line: 2929, col: 9, offset: 92173,
+																																													line: 2931, col: 9, offset: 92274,
 																																												},
 																																											},
 																																										},
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2701, col: 9, offset: 85670},
+																																									pos: position{line: 2703, col: 9, offset: 85771},
 																																									expr: &actionExpr{
-																																										pos: position{line: 678, col: 14, offset: 21586},
+																																										pos: position{line: 680, col: 14, offset: 21687},
 																																										run: (*parser).callonDocumentFragment1300,
 																																										expr: &seqExpr{
-																																											pos: position{line: 678, col: 14, offset: 21586},
+																																											pos: position{line: 680, col: 14, offset: 21687},
 																																											exprs: []interface{}{
 																																												&andExpr{
-																																													pos: position{line: 2927, col: 11, offset: 92158},
+																																													pos: position{line: 2929, col: 11, offset: 92259},
 																																													expr: &anyMatcher{
-																																														line: 2927, col: 13, offset: 92160,
+																																														line: 2929, col: 13, offset: 92261,
 																																													},
 																																												},
 																																												&zeroOrMoreExpr{
-																																													pos: position{line: 678, col: 21, offset: 21593},
+																																													pos: position{line: 680, col: 21, offset: 21694},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2910, col: 10, offset: 91824},
+																																														pos: position{line: 2912, col: 10, offset: 91925},
 																																														run: (*parser).callonDocumentFragment1305,
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2910, col: 10, offset: 91824},
+																																															pos:        position{line: 2912, col: 10, offset: 91925},
 																																															val:        "[\\t ]",
 																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
@@ -9919,28 +9919,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2932, col: 8, offset: 92222},
+																																													pos: position{line: 2934, col: 8, offset: 92323},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2919, col: 12, offset: 91995},
+																																															pos: position{line: 2921, col: 12, offset: 92096},
 																																															run: (*parser).callonDocumentFragment1308,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2919, col: 13, offset: 91996},
+																																																pos: position{line: 2921, col: 13, offset: 92097},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2919, col: 13, offset: 91996},
+																																																		pos:        position{line: 2921, col: 13, offset: 92097},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2919, col: 20, offset: 92003},
+																																																		pos:        position{line: 2921, col: 20, offset: 92104},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2919, col: 29, offset: 92012},
+																																																		pos:        position{line: 2921, col: 29, offset: 92113},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -9949,9 +9949,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2929, col: 8, offset: 92172},
+																																															pos: position{line: 2931, col: 8, offset: 92273},
 																																															expr: &anyMatcher{
-																																																line: 2929, col: 9, offset: 92173,
+																																																line: 2931, col: 9, offset: 92274,
 																																															},
 																																														},
 																																													},
@@ -9961,22 +9961,22 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2702, col: 9, offset: 85689},
+																																									pos: position{line: 2704, col: 9, offset: 85790},
 																																									expr: &seqExpr{
-																																										pos: position{line: 2702, col: 11, offset: 85691},
+																																										pos: position{line: 2704, col: 11, offset: 85792},
 																																										exprs: []interface{}{
 																																											&labeledExpr{
-																																												pos:   position{line: 2702, col: 11, offset: 85691},
+																																												pos:   position{line: 2704, col: 11, offset: 85792},
 																																												label: "format",
 																																												expr: &zeroOrOneExpr{
-																																													pos: position{line: 2702, col: 18, offset: 85698},
+																																													pos: position{line: 2704, col: 18, offset: 85799},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2710, col: 20, offset: 85899},
+																																														pos: position{line: 2712, col: 20, offset: 86000},
 																																														run: (*parser).callonDocumentFragment1319,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2710, col: 20, offset: 85899},
+																																															pos: position{line: 2712, col: 20, offset: 86000},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2710, col: 20, offset: 85899},
+																																																pos:        position{line: 2712, col: 20, offset: 86000},
 																																																val:        "[^ |\\r\\n]",
 																																																chars:      []rune{' ', '|', '\r', '\n'},
 																																																ignoreCase: false,
@@ -9987,7 +9987,7 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2702, col: 37, offset: 85717},
+																																												pos:        position{line: 2704, col: 37, offset: 85818},
 																																												val:        "|",
 																																												ignoreCase: false,
 																																												want:       "\"|\"",
@@ -9996,15 +9996,15 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2703, col: 9, offset: 85730},
+																																									pos:   position{line: 2705, col: 9, offset: 85831},
 																																									label: "content",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2703, col: 18, offset: 85739},
+																																										pos: position{line: 2705, col: 18, offset: 85840},
 																																										run: (*parser).callonDocumentFragment1324,
 																																										expr: &zeroOrMoreExpr{
-																																											pos: position{line: 2703, col: 18, offset: 85739},
+																																											pos: position{line: 2705, col: 18, offset: 85840},
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2703, col: 18, offset: 85739},
+																																												pos:        position{line: 2705, col: 18, offset: 85840},
 																																												val:        "[^|\\r\\n]",
 																																												chars:      []rune{'|', '\r', '\n'},
 																																												ignoreCase: false,
@@ -10014,30 +10014,30 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&zeroOrOneExpr{
-																																									pos: position{line: 2705, col: 12, offset: 85801},
+																																									pos: position{line: 2707, col: 12, offset: 85902},
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2932, col: 8, offset: 92222},
+																																										pos: position{line: 2934, col: 8, offset: 92323},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2919, col: 12, offset: 91995},
+																																												pos: position{line: 2921, col: 12, offset: 92096},
 																																												run: (*parser).callonDocumentFragment1329,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2919, col: 13, offset: 91996},
+																																													pos: position{line: 2921, col: 13, offset: 92097},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2919, col: 13, offset: 91996},
+																																															pos:        position{line: 2921, col: 13, offset: 92097},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2919, col: 20, offset: 92003},
+																																															pos:        position{line: 2921, col: 20, offset: 92104},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2919, col: 29, offset: 92012},
+																																															pos:        position{line: 2921, col: 29, offset: 92113},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -10046,9 +10046,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2929, col: 8, offset: 92172},
+																																												pos: position{line: 2931, col: 8, offset: 92273},
 																																												expr: &anyMatcher{
-																																													line: 2929, col: 9, offset: 92173,
+																																													line: 2931, col: 9, offset: 92274,
 																																												},
 																																											},
 																																										},
@@ -10072,24 +10072,24 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 678, col: 14, offset: 21586},
+																								pos: position{line: 680, col: 14, offset: 21687},
 																								run: (*parser).callonDocumentFragment1336,
 																								expr: &seqExpr{
-																									pos: position{line: 678, col: 14, offset: 21586},
+																									pos: position{line: 680, col: 14, offset: 21687},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2927, col: 11, offset: 92158},
+																											pos: position{line: 2929, col: 11, offset: 92259},
 																											expr: &anyMatcher{
-																												line: 2927, col: 13, offset: 92160,
+																												line: 2929, col: 13, offset: 92261,
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 678, col: 21, offset: 21593},
+																											pos: position{line: 680, col: 21, offset: 21694},
 																											expr: &actionExpr{
-																												pos: position{line: 2910, col: 10, offset: 91824},
+																												pos: position{line: 2912, col: 10, offset: 91925},
 																												run: (*parser).callonDocumentFragment1341,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2910, col: 10, offset: 91824},
+																													pos:        position{line: 2912, col: 10, offset: 91925},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10098,28 +10098,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2932, col: 8, offset: 92222},
+																											pos: position{line: 2934, col: 8, offset: 92323},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2919, col: 12, offset: 91995},
+																													pos: position{line: 2921, col: 12, offset: 92096},
 																													run: (*parser).callonDocumentFragment1344,
 																													expr: &choiceExpr{
-																														pos: position{line: 2919, col: 13, offset: 91996},
+																														pos: position{line: 2921, col: 13, offset: 92097},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 13, offset: 91996},
+																																pos:        position{line: 2921, col: 13, offset: 92097},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 20, offset: 92003},
+																																pos:        position{line: 2921, col: 20, offset: 92104},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 29, offset: 92012},
+																																pos:        position{line: 2921, col: 29, offset: 92113},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10128,9 +10128,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2929, col: 8, offset: 92172},
+																													pos: position{line: 2931, col: 8, offset: 92273},
 																													expr: &anyMatcher{
-																														line: 2929, col: 9, offset: 92173,
+																														line: 2931, col: 9, offset: 92274,
 																													},
 																												},
 																											},
@@ -10149,24 +10149,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2649, col: 22, offset: 84428},
+														pos: position{line: 2651, col: 22, offset: 84529},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2645, col: 19, offset: 84348},
+																pos: position{line: 2647, col: 19, offset: 84449},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2645, col: 19, offset: 84348},
+																		pos:        position{line: 2647, col: 19, offset: 84449},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2645, col: 26, offset: 84355},
+																		pos: position{line: 2647, col: 26, offset: 84456},
 																		expr: &actionExpr{
-																			pos: position{line: 2910, col: 10, offset: 91824},
+																			pos: position{line: 2912, col: 10, offset: 91925},
 																			run: (*parser).callonDocumentFragment1355,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2910, col: 10, offset: 91824},
+																				pos:        position{line: 2912, col: 10, offset: 91925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10175,28 +10175,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2932, col: 8, offset: 92222},
+																		pos: position{line: 2934, col: 8, offset: 92323},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonDocumentFragment1358,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10205,9 +10205,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2929, col: 8, offset: 92172},
+																				pos: position{line: 2931, col: 8, offset: 92273},
 																				expr: &anyMatcher{
-																					line: 2929, col: 9, offset: 92173,
+																					line: 2931, col: 9, offset: 92274,
 																				},
 																			},
 																		},
@@ -10215,9 +10215,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2929, col: 8, offset: 92172},
+																pos: position{line: 2931, col: 8, offset: 92273},
 																expr: &anyMatcher{
-																	line: 2929, col: 9, offset: 92173,
+																	line: 2931, col: 9, offset: 92274,
 																},
 															},
 														},
@@ -10226,36 +10226,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2513, col: 22, offset: 80602},
+											pos: position{line: 2515, col: 22, offset: 80703},
 											run: (*parser).callonDocumentFragment1367,
 											expr: &seqExpr{
-												pos: position{line: 2513, col: 22, offset: 80602},
+												pos: position{line: 2515, col: 22, offset: 80703},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2518, col: 31, offset: 80852},
+														pos:        position{line: 2520, col: 31, offset: 80953},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2518, col: 36, offset: 80857},
+														pos: position{line: 2520, col: 36, offset: 80958},
 														expr: &litMatcher{
-															pos:        position{line: 2518, col: 37, offset: 80858},
+															pos:        position{line: 2520, col: 37, offset: 80959},
 															val:        "/",
 															ignoreCase: false,
 															want:       "\"/\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2513, col: 49, offset: 80629},
+														pos:   position{line: 2515, col: 49, offset: 80730},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2856, col: 13, offset: 90350},
+															pos: position{line: 2858, col: 13, offset: 90451},
 															run: (*parser).callonDocumentFragment1373,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2856, col: 13, offset: 90350},
+																pos: position{line: 2858, col: 13, offset: 90451},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2856, col: 13, offset: 90350},
+																	pos:        position{line: 2858, col: 13, offset: 90451},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10265,28 +10265,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2932, col: 8, offset: 92222},
+														pos: position{line: 2934, col: 8, offset: 92323},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2919, col: 12, offset: 91995},
+																pos: position{line: 2921, col: 12, offset: 92096},
 																run: (*parser).callonDocumentFragment1377,
 																expr: &choiceExpr{
-																	pos: position{line: 2919, col: 13, offset: 91996},
+																	pos: position{line: 2921, col: 13, offset: 92097},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 13, offset: 91996},
+																			pos:        position{line: 2921, col: 13, offset: 92097},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 20, offset: 92003},
+																			pos:        position{line: 2921, col: 20, offset: 92104},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 29, offset: 92012},
+																			pos:        position{line: 2921, col: 29, offset: 92113},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10295,9 +10295,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2929, col: 8, offset: 92172},
+																pos: position{line: 2931, col: 8, offset: 92273},
 																expr: &anyMatcher{
-																	line: 2929, col: 9, offset: 92173,
+																	line: 2931, col: 9, offset: 92274,
 																},
 															},
 														},
@@ -10306,37 +10306,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1223, col: 5, offset: 37963},
+											pos: position{line: 1225, col: 5, offset: 38064},
 											run: (*parser).callonDocumentFragment1384,
 											expr: &seqExpr{
-												pos: position{line: 1223, col: 5, offset: 37963},
+												pos: position{line: 1225, col: 5, offset: 38064},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1223, col: 5, offset: 37963},
+														pos: position{line: 1225, col: 5, offset: 38064},
 														run: (*parser).callonDocumentFragment1386,
 													},
 													&labeledExpr{
-														pos:   position{line: 1226, col: 5, offset: 38021},
+														pos:   position{line: 1228, col: 5, offset: 38122},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1231, col: 20, offset: 38116},
+															pos: position{line: 1233, col: 20, offset: 38217},
 															run: (*parser).callonDocumentFragment1388,
 															expr: &seqExpr{
-																pos: position{line: 1231, col: 20, offset: 38116},
+																pos: position{line: 1233, col: 20, offset: 38217},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1235, col: 30, offset: 38288},
+																		pos:        position{line: 1237, col: 30, offset: 38389},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1235, col: 36, offset: 38294},
+																		pos: position{line: 1237, col: 36, offset: 38395},
 																		expr: &actionExpr{
-																			pos: position{line: 2910, col: 10, offset: 91824},
+																			pos: position{line: 2912, col: 10, offset: 91925},
 																			run: (*parser).callonDocumentFragment1392,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2910, col: 10, offset: 91824},
+																				pos:        position{line: 2912, col: 10, offset: 91925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10345,28 +10345,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2932, col: 8, offset: 92222},
+																		pos: position{line: 2934, col: 8, offset: 92323},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonDocumentFragment1395,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10375,46 +10375,46 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2929, col: 8, offset: 92172},
+																				pos: position{line: 2931, col: 8, offset: 92273},
 																				expr: &anyMatcher{
-																					line: 2929, col: 9, offset: 92173,
+																					line: 2931, col: 9, offset: 92274,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1231, col: 45, offset: 38141},
+																		pos:   position{line: 1233, col: 45, offset: 38242},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1231, col: 53, offset: 38149},
+																			pos: position{line: 1233, col: 53, offset: 38250},
 																			expr: &actionExpr{
-																				pos: position{line: 1237, col: 27, offset: 38332},
+																				pos: position{line: 1239, col: 27, offset: 38433},
 																				run: (*parser).callonDocumentFragment1404,
 																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1237, col: 27, offset: 38332},
+																					pos: position{line: 1239, col: 27, offset: 38433},
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1237, col: 28, offset: 38333},
+																						pos: position{line: 1239, col: 28, offset: 38434},
 																						expr: &seqExpr{
-																							pos: position{line: 1237, col: 29, offset: 38334},
+																							pos: position{line: 1239, col: 29, offset: 38435},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 1237, col: 29, offset: 38334},
+																									pos: position{line: 1239, col: 29, offset: 38435},
 																									expr: &seqExpr{
-																										pos: position{line: 1235, col: 30, offset: 38288},
+																										pos: position{line: 1237, col: 30, offset: 38389},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 1235, col: 30, offset: 38288},
+																												pos:        position{line: 1237, col: 30, offset: 38389},
 																												val:        "---",
 																												ignoreCase: false,
 																												want:       "\"---\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 1235, col: 36, offset: 38294},
+																												pos: position{line: 1237, col: 36, offset: 38395},
 																												expr: &actionExpr{
-																													pos: position{line: 2910, col: 10, offset: 91824},
+																													pos: position{line: 2912, col: 10, offset: 91925},
 																													run: (*parser).callonDocumentFragment1412,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2910, col: 10, offset: 91824},
+																														pos:        position{line: 2912, col: 10, offset: 91925},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10423,28 +10423,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2932, col: 8, offset: 92222},
+																												pos: position{line: 2934, col: 8, offset: 92323},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2919, col: 12, offset: 91995},
+																														pos: position{line: 2921, col: 12, offset: 92096},
 																														run: (*parser).callonDocumentFragment1415,
 																														expr: &choiceExpr{
-																															pos: position{line: 2919, col: 13, offset: 91996},
+																															pos: position{line: 2921, col: 13, offset: 92097},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2919, col: 13, offset: 91996},
+																																	pos:        position{line: 2921, col: 13, offset: 92097},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2919, col: 20, offset: 92003},
+																																	pos:        position{line: 2921, col: 20, offset: 92104},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2919, col: 29, offset: 92012},
+																																	pos:        position{line: 2921, col: 29, offset: 92113},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10453,9 +10453,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2929, col: 8, offset: 92172},
+																														pos: position{line: 2931, col: 8, offset: 92273},
 																														expr: &anyMatcher{
-																															line: 2929, col: 9, offset: 92173,
+																															line: 2931, col: 9, offset: 92274,
 																														},
 																													},
 																												},
@@ -10464,7 +10464,7 @@ var g = &grammar{
 																									},
 																								},
 																								&anyMatcher{
-																									line: 1237, col: 55, offset: 38360,
+																									line: 1239, col: 55, offset: 38461,
 																								},
 																							},
 																						},
@@ -10474,18 +10474,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1235, col: 30, offset: 38288},
+																		pos:        position{line: 1237, col: 30, offset: 38389},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1235, col: 36, offset: 38294},
+																		pos: position{line: 1237, col: 36, offset: 38395},
 																		expr: &actionExpr{
-																			pos: position{line: 2910, col: 10, offset: 91824},
+																			pos: position{line: 2912, col: 10, offset: 91925},
 																			run: (*parser).callonDocumentFragment1425,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2910, col: 10, offset: 91824},
+																				pos:        position{line: 2912, col: 10, offset: 91925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10494,28 +10494,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2932, col: 8, offset: 92222},
+																		pos: position{line: 2934, col: 8, offset: 92323},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonDocumentFragment1428,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10524,9 +10524,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2929, col: 8, offset: 92172},
+																				pos: position{line: 2931, col: 8, offset: 92273},
 																				expr: &anyMatcher{
-																					line: 2929, col: 9, offset: 92173,
+																					line: 2931, col: 9, offset: 92274,
 																				},
 																			},
 																		},
@@ -10539,7 +10539,7 @@ var g = &grammar{
 											},
 										},
 										&ruleRefExpr{
-											pos:  position{line: 251, col: 11, offset: 7467},
+											pos:  position{line: 253, col: 11, offset: 7568},
 											name: "Paragraph",
 										},
 									},
@@ -10547,7 +10547,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 253, col: 5, offset: 7555},
+							pos: position{line: 255, col: 5, offset: 7656},
 							run: (*parser).callonDocumentFragment1436,
 						},
 					},
@@ -10556,47 +10556,47 @@ var g = &grammar{
 		},
 		{
 			name: "DelimitedBlockElements",
-			pos:  position{line: 276, col: 1, offset: 8257},
+			pos:  position{line: 278, col: 1, offset: 8358},
 			expr: &actionExpr{
-				pos: position{line: 277, col: 5, offset: 8288},
+				pos: position{line: 279, col: 5, offset: 8389},
 				run: (*parser).callonDelimitedBlockElements1,
 				expr: &seqExpr{
-					pos: position{line: 277, col: 5, offset: 8288},
+					pos: position{line: 279, col: 5, offset: 8389},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 277, col: 5, offset: 8288},
+							pos: position{line: 279, col: 5, offset: 8389},
 							run: (*parser).callonDelimitedBlockElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 281, col: 5, offset: 8369},
+							pos:   position{line: 283, col: 5, offset: 8470},
 							label: "elements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 281, col: 14, offset: 8378},
+								pos: position{line: 283, col: 14, offset: 8479},
 								expr: &choiceExpr{
-									pos: position{line: 282, col: 9, offset: 8388},
+									pos: position{line: 284, col: 9, offset: 8489},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1199, col: 23, offset: 37069},
+											pos: position{line: 1201, col: 23, offset: 37170},
 											run: (*parser).callonDelimitedBlockElements7,
 											expr: &seqExpr{
-												pos: position{line: 1199, col: 23, offset: 37069},
+												pos: position{line: 1201, col: 23, offset: 37170},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1197, col: 32, offset: 37037},
+														pos:        position{line: 1199, col: 32, offset: 37138},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1199, col: 51, offset: 37097},
+														pos:   position{line: 1201, col: 51, offset: 37198},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1199, col: 56, offset: 37102},
+															pos: position{line: 1201, col: 56, offset: 37203},
 															run: (*parser).callonDelimitedBlockElements11,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1199, col: 56, offset: 37102},
+																pos: position{line: 1201, col: 56, offset: 37203},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1199, col: 56, offset: 37102},
+																	pos:        position{line: 1201, col: 56, offset: 37203},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -10606,7 +10606,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1197, col: 32, offset: 37037},
+														pos:        position{line: 1199, col: 32, offset: 37138},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -10615,7 +10615,7 @@ var g = &grammar{
 											},
 										},
 										&ruleRefExpr{
-											pos:  position{line: 283, col: 11, offset: 8450},
+											pos:  position{line: 285, col: 11, offset: 8551},
 											name: "DocumentFragment",
 										},
 									},
@@ -10623,9 +10623,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2929, col: 8, offset: 92172},
+							pos: position{line: 2931, col: 8, offset: 92273},
 							expr: &anyMatcher{
-								line: 2929, col: 9, offset: 92173,
+								line: 2931, col: 9, offset: 92274,
 							},
 						},
 					},
@@ -10634,30 +10634,30 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeDeclaration",
-			pos:  position{line: 302, col: 1, offset: 9153},
+			pos:  position{line: 304, col: 1, offset: 9254},
 			expr: &actionExpr{
-				pos: position{line: 303, col: 5, offset: 9182},
+				pos: position{line: 305, col: 5, offset: 9283},
 				run: (*parser).callonAttributeDeclaration1,
 				expr: &seqExpr{
-					pos: position{line: 303, col: 5, offset: 9182},
+					pos: position{line: 305, col: 5, offset: 9283},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 303, col: 5, offset: 9182},
+							pos:        position{line: 305, col: 5, offset: 9283},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 303, col: 9, offset: 9186},
+							pos:   position{line: 305, col: 9, offset: 9287},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 318, col: 18, offset: 9736},
+								pos: position{line: 320, col: 18, offset: 9837},
 								run: (*parser).callonAttributeDeclaration5,
 								expr: &seqExpr{
-									pos: position{line: 318, col: 18, offset: 9736},
+									pos: position{line: 320, col: 18, offset: 9837},
 									exprs: []interface{}{
 										&charClassMatcher{
-											pos:        position{line: 318, col: 18, offset: 9736},
+											pos:        position{line: 320, col: 18, offset: 9837},
 											val:        "[_\\pL\\pN]",
 											chars:      []rune{'_'},
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -10665,9 +10665,9 @@ var g = &grammar{
 											inverted:   false,
 										},
 										&zeroOrMoreExpr{
-											pos: position{line: 318, col: 28, offset: 9746},
+											pos: position{line: 320, col: 28, offset: 9847},
 											expr: &charClassMatcher{
-												pos:        position{line: 318, col: 29, offset: 9747},
+												pos:        position{line: 320, col: 29, offset: 9848},
 												val:        "[-\\pL\\pN]",
 												chars:      []rune{'-'},
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -10680,29 +10680,29 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 303, col: 30, offset: 9207},
+							pos:        position{line: 305, col: 30, offset: 9308},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 304, col: 5, offset: 9216},
+							pos:   position{line: 306, col: 5, offset: 9317},
 							label: "value",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 304, col: 11, offset: 9222},
+								pos: position{line: 306, col: 11, offset: 9323},
 								expr: &actionExpr{
-									pos: position{line: 305, col: 9, offset: 9232},
+									pos: position{line: 307, col: 9, offset: 9333},
 									run: (*parser).callonAttributeDeclaration13,
 									expr: &seqExpr{
-										pos: position{line: 305, col: 9, offset: 9232},
+										pos: position{line: 307, col: 9, offset: 9333},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2914, col: 11, offset: 91885},
+												pos: position{line: 2916, col: 11, offset: 91986},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2914, col: 11, offset: 91885},
+													pos: position{line: 2916, col: 11, offset: 91986},
 													expr: &charClassMatcher{
-														pos:        position{line: 2914, col: 11, offset: 91885},
+														pos:        position{line: 2916, col: 11, offset: 91986},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10711,10 +10711,10 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 306, col: 9, offset: 9324},
+												pos:   position{line: 308, col: 9, offset: 9425},
 												label: "value",
 												expr: &ruleRefExpr{
-													pos:  position{line: 306, col: 16, offset: 9331},
+													pos:  position{line: 308, col: 16, offset: 9432},
 													name: "AttributeDeclarationValue",
 												},
 											},
@@ -10724,28 +10724,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2932, col: 8, offset: 92222},
+							pos: position{line: 2934, col: 8, offset: 92323},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2919, col: 12, offset: 91995},
+									pos: position{line: 2921, col: 12, offset: 92096},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2919, col: 13, offset: 91996},
+										pos: position{line: 2921, col: 13, offset: 92097},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2919, col: 13, offset: 91996},
+												pos:        position{line: 2921, col: 13, offset: 92097},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2919, col: 20, offset: 92003},
+												pos:        position{line: 2921, col: 20, offset: 92104},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2919, col: 29, offset: 92012},
+												pos:        position{line: 2921, col: 29, offset: 92113},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10754,9 +10754,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2929, col: 8, offset: 92172},
+									pos: position{line: 2931, col: 8, offset: 92273},
 									expr: &anyMatcher{
-										line: 2929, col: 9, offset: 92173,
+										line: 2931, col: 9, offset: 92274,
 									},
 								},
 							},
@@ -10767,58 +10767,58 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeDeclarationValue",
-			pos:  position{line: 322, col: 1, offset: 9803},
+			pos:  position{line: 324, col: 1, offset: 9904},
 			expr: &actionExpr{
-				pos: position{line: 323, col: 5, offset: 9837},
+				pos: position{line: 325, col: 5, offset: 9938},
 				run: (*parser).callonAttributeDeclarationValue1,
 				expr: &seqExpr{
-					pos: position{line: 323, col: 5, offset: 9837},
+					pos: position{line: 325, col: 5, offset: 9938},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 323, col: 5, offset: 9837},
+							pos:   position{line: 325, col: 5, offset: 9938},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 323, col: 15, offset: 9847},
+								pos:  position{line: 325, col: 15, offset: 9948},
 								name: "AttributeDeclarationValueElements",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 324, col: 5, offset: 9887},
+							pos:   position{line: 326, col: 5, offset: 9988},
 							label: "otherElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 324, col: 19, offset: 9901},
+								pos: position{line: 326, col: 19, offset: 10002},
 								expr: &actionExpr{
-									pos: position{line: 325, col: 9, offset: 9911},
+									pos: position{line: 327, col: 9, offset: 10012},
 									run: (*parser).callonAttributeDeclarationValue7,
 									expr: &seqExpr{
-										pos: position{line: 325, col: 9, offset: 9911},
+										pos: position{line: 327, col: 9, offset: 10012},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 325, col: 9, offset: 9911},
+												pos:        position{line: 327, col: 9, offset: 10012},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2919, col: 12, offset: 91995},
+												pos: position{line: 2921, col: 12, offset: 92096},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2919, col: 13, offset: 91996},
+													pos: position{line: 2921, col: 13, offset: 92097},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2919, col: 13, offset: 91996},
+															pos:        position{line: 2921, col: 13, offset: 92097},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2919, col: 20, offset: 92003},
+															pos:        position{line: 2921, col: 20, offset: 92104},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2919, col: 29, offset: 92012},
+															pos:        position{line: 2921, col: 29, offset: 92113},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10827,12 +10827,12 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 326, col: 9, offset: 9933},
+												pos: position{line: 328, col: 9, offset: 10034},
 												expr: &actionExpr{
-													pos: position{line: 2910, col: 10, offset: 91824},
+													pos: position{line: 2912, col: 10, offset: 91925},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2910, col: 10, offset: 91824},
+														pos:        position{line: 2912, col: 10, offset: 91925},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10841,10 +10841,10 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 327, col: 9, offset: 9948},
+												pos:   position{line: 329, col: 9, offset: 10049},
 												label: "elements",
 												expr: &ruleRefExpr{
-													pos:  position{line: 327, col: 19, offset: 9958},
+													pos:  position{line: 329, col: 19, offset: 10059},
 													name: "AttributeDeclarationValueElements",
 												},
 											},
@@ -10859,17 +10859,17 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeDeclarationValueElements",
-			pos:  position{line: 338, col: 1, offset: 10288},
+			pos:  position{line: 340, col: 1, offset: 10389},
 			expr: &actionExpr{
-				pos: position{line: 339, col: 5, offset: 10330},
+				pos: position{line: 341, col: 5, offset: 10431},
 				run: (*parser).callonAttributeDeclarationValueElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 339, col: 5, offset: 10330},
+					pos:   position{line: 341, col: 5, offset: 10431},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 339, col: 14, offset: 10339},
+						pos: position{line: 341, col: 14, offset: 10440},
 						expr: &ruleRefExpr{
-							pos:  position{line: 339, col: 15, offset: 10340},
+							pos:  position{line: 341, col: 15, offset: 10441},
 							name: "AttributeDeclarationValueElement",
 						},
 					},
@@ -10878,34 +10878,34 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeDeclarationValueElement",
-			pos:  position{line: 343, col: 1, offset: 10429},
+			pos:  position{line: 345, col: 1, offset: 10530},
 			expr: &actionExpr{
-				pos: position{line: 344, col: 5, offset: 10470},
+				pos: position{line: 346, col: 5, offset: 10571},
 				run: (*parser).callonAttributeDeclarationValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 344, col: 5, offset: 10470},
+					pos: position{line: 346, col: 5, offset: 10571},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 344, col: 5, offset: 10470},
+							pos: position{line: 346, col: 5, offset: 10571},
 							expr: &seqExpr{
-								pos: position{line: 344, col: 7, offset: 10472},
+								pos: position{line: 346, col: 7, offset: 10573},
 								exprs: []interface{}{
 									&zeroOrOneExpr{
-										pos: position{line: 344, col: 7, offset: 10472},
+										pos: position{line: 346, col: 7, offset: 10573},
 										expr: &litMatcher{
-											pos:        position{line: 344, col: 7, offset: 10472},
+											pos:        position{line: 346, col: 7, offset: 10573},
 											val:        "\\",
 											ignoreCase: false,
 											want:       "\"\\\\\"",
 										},
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 344, col: 13, offset: 10478},
+										pos: position{line: 346, col: 13, offset: 10579},
 										expr: &actionExpr{
-											pos: position{line: 2910, col: 10, offset: 91824},
+											pos: position{line: 2912, col: 10, offset: 91925},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2910, col: 10, offset: 91824},
+												pos:        position{line: 2912, col: 10, offset: 91925},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10914,28 +10914,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2932, col: 8, offset: 92222},
+										pos: position{line: 2934, col: 8, offset: 92323},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2919, col: 12, offset: 91995},
+												pos: position{line: 2921, col: 12, offset: 92096},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2919, col: 13, offset: 91996},
+													pos: position{line: 2921, col: 13, offset: 92097},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2919, col: 13, offset: 91996},
+															pos:        position{line: 2921, col: 13, offset: 92097},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2919, col: 20, offset: 92003},
+															pos:        position{line: 2921, col: 20, offset: 92104},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2919, col: 29, offset: 92012},
+															pos:        position{line: 2921, col: 29, offset: 92113},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10944,9 +10944,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2929, col: 8, offset: 92172},
+												pos: position{line: 2931, col: 8, offset: 92273},
 												expr: &anyMatcher{
-													line: 2929, col: 9, offset: 92173,
+													line: 2931, col: 9, offset: 92274,
 												},
 											},
 										},
@@ -10955,22 +10955,22 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 345, col: 5, offset: 10494},
+							pos:   position{line: 347, col: 5, offset: 10595},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 346, col: 9, offset: 10512},
+								pos: position{line: 348, col: 9, offset: 10613},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 346, col: 9, offset: 10512},
+										pos:  position{line: 348, col: 9, offset: 10613},
 										name: "InlinePassthrough",
 									},
 									&actionExpr{
-										pos: position{line: 347, col: 12, offset: 10541},
+										pos: position{line: 349, col: 12, offset: 10642},
 										run: (*parser).callonAttributeDeclarationValueElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 347, col: 12, offset: 10541},
+											pos: position{line: 349, col: 12, offset: 10642},
 											expr: &charClassMatcher{
-												pos:        position{line: 347, col: 12, offset: 10541},
+												pos:        position{line: 349, col: 12, offset: 10642},
 												val:        "[^\\r\\n<>&{ ]",
 												chars:      []rune{'\r', '\n', '<', '>', '&', '{', ' '},
 												ignoreCase: false,
@@ -10979,23 +10979,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2500, col: 5, offset: 80148},
+										pos: position{line: 2502, col: 5, offset: 80249},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2500, col: 5, offset: 80148},
+											pos: position{line: 2502, col: 5, offset: 80249},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2500, col: 5, offset: 80148},
+													pos: position{line: 2502, col: 5, offset: 80249},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2503, col: 5, offset: 80224},
+													pos:   position{line: 2505, col: 5, offset: 80325},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2504, col: 9, offset: 80242},
+														pos: position{line: 2506, col: 9, offset: 80343},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2504, col: 10, offset: 80243},
+															pos:        position{line: 2506, col: 10, offset: 80344},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -11007,10 +11007,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2910, col: 10, offset: 91824},
+										pos: position{line: 2912, col: 10, offset: 91925},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2910, col: 10, offset: 91824},
+											pos:        position{line: 2912, col: 10, offset: 91925},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11018,44 +11018,44 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 637, col: 5, offset: 20204},
+										pos: position{line: 639, col: 5, offset: 20305},
 										run: (*parser).callonAttributeDeclarationValueElement32,
 										expr: &seqExpr{
-											pos: position{line: 637, col: 5, offset: 20204},
+											pos: position{line: 639, col: 5, offset: 20305},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 637, col: 5, offset: 20204},
+													pos: position{line: 639, col: 5, offset: 20305},
 													run: (*parser).callonAttributeDeclarationValueElement34,
 												},
 												&labeledExpr{
-													pos:   position{line: 640, col: 5, offset: 20276},
+													pos:   position{line: 642, col: 5, offset: 20377},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 640, col: 14, offset: 20285},
+														pos: position{line: 642, col: 14, offset: 20386},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 646, col: 5, offset: 20414},
+																pos: position{line: 648, col: 5, offset: 20515},
 																run: (*parser).callonAttributeDeclarationValueElement37,
 																expr: &seqExpr{
-																	pos: position{line: 646, col: 5, offset: 20414},
+																	pos: position{line: 648, col: 5, offset: 20515},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 646, col: 5, offset: 20414},
+																			pos:        position{line: 648, col: 5, offset: 20515},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 646, col: 13, offset: 20422},
+																			pos:   position{line: 648, col: 13, offset: 20523},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 320, col: 18, offset: 9837},
 																				run: (*parser).callonAttributeDeclarationValueElement41,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 320, col: 18, offset: 9837},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 320, col: 18, offset: 9837},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11063,9 +11063,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 320, col: 28, offset: 9847},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 320, col: 29, offset: 9848},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11078,7 +11078,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 646, col: 32, offset: 20441},
+																			pos:        position{line: 648, col: 32, offset: 20542},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11087,28 +11087,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 653, col: 5, offset: 20682},
+																pos: position{line: 655, col: 5, offset: 20783},
 																run: (*parser).callonAttributeDeclarationValueElement47,
 																expr: &seqExpr{
-																	pos: position{line: 653, col: 5, offset: 20682},
+																	pos: position{line: 655, col: 5, offset: 20783},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 653, col: 5, offset: 20682},
+																			pos:        position{line: 655, col: 5, offset: 20783},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 653, col: 9, offset: 20686},
+																			pos:   position{line: 655, col: 9, offset: 20787},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 320, col: 18, offset: 9837},
 																				run: (*parser).callonAttributeDeclarationValueElement51,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 320, col: 18, offset: 9837},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 320, col: 18, offset: 9837},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11116,9 +11116,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 320, col: 28, offset: 9847},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 320, col: 29, offset: 9848},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11131,7 +11131,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 653, col: 28, offset: 20705},
+																			pos:        position{line: 655, col: 28, offset: 20806},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11140,28 +11140,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 659, col: 25, offset: 20886},
+																pos: position{line: 661, col: 25, offset: 20987},
 																run: (*parser).callonAttributeDeclarationValueElement57,
 																expr: &seqExpr{
-																	pos: position{line: 659, col: 25, offset: 20886},
+																	pos: position{line: 661, col: 25, offset: 20987},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 659, col: 25, offset: 20886},
+																			pos:        position{line: 661, col: 25, offset: 20987},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 659, col: 37, offset: 20898},
+																			pos:   position{line: 661, col: 37, offset: 20999},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 320, col: 18, offset: 9837},
 																				run: (*parser).callonAttributeDeclarationValueElement61,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 320, col: 18, offset: 9837},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 320, col: 18, offset: 9837},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11169,9 +11169,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 320, col: 28, offset: 9847},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 320, col: 29, offset: 9848},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11184,33 +11184,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 659, col: 56, offset: 20917},
+																			pos:   position{line: 661, col: 56, offset: 21018},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 659, col: 62, offset: 20923},
+																				pos: position{line: 661, col: 62, offset: 21024},
 																				expr: &actionExpr{
-																					pos: position{line: 667, col: 17, offset: 21220},
+																					pos: position{line: 669, col: 17, offset: 21321},
 																					run: (*parser).callonAttributeDeclarationValueElement68,
 																					expr: &seqExpr{
-																						pos: position{line: 667, col: 17, offset: 21220},
+																						pos: position{line: 669, col: 17, offset: 21321},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 667, col: 17, offset: 21220},
+																								pos:        position{line: 669, col: 17, offset: 21321},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 667, col: 21, offset: 21224},
+																								pos:   position{line: 669, col: 21, offset: 21325},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 667, col: 28, offset: 21231},
+																									pos: position{line: 669, col: 28, offset: 21332},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 667, col: 28, offset: 21231},
+																											pos: position{line: 669, col: 28, offset: 21332},
 																											run: (*parser).callonAttributeDeclarationValueElement73,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 667, col: 28, offset: 21231},
+																												pos:        position{line: 669, col: 28, offset: 21332},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11218,12 +11218,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 669, col: 9, offset: 21285},
+																											pos: position{line: 671, col: 9, offset: 21386},
 																											run: (*parser).callonAttributeDeclarationValueElement75,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 669, col: 9, offset: 21285},
+																												pos: position{line: 671, col: 9, offset: 21386},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 669, col: 9, offset: 21285},
+																													pos:        position{line: 671, col: 9, offset: 21386},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11240,7 +11240,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 659, col: 78, offset: 20939},
+																			pos:        position{line: 661, col: 78, offset: 21040},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11249,28 +11249,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 663, col: 25, offset: 21057},
+																pos: position{line: 665, col: 25, offset: 21158},
 																run: (*parser).callonAttributeDeclarationValueElement79,
 																expr: &seqExpr{
-																	pos: position{line: 663, col: 25, offset: 21057},
+																	pos: position{line: 665, col: 25, offset: 21158},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 663, col: 25, offset: 21057},
+																			pos:        position{line: 665, col: 25, offset: 21158},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 663, col: 38, offset: 21070},
+																			pos:   position{line: 665, col: 38, offset: 21171},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 320, col: 18, offset: 9837},
 																				run: (*parser).callonAttributeDeclarationValueElement83,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 320, col: 18, offset: 9837},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 320, col: 18, offset: 9837},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11278,9 +11278,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 320, col: 28, offset: 9847},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 320, col: 29, offset: 9848},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11293,33 +11293,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 663, col: 57, offset: 21089},
+																			pos:   position{line: 665, col: 57, offset: 21190},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 663, col: 63, offset: 21095},
+																				pos: position{line: 665, col: 63, offset: 21196},
 																				expr: &actionExpr{
-																					pos: position{line: 667, col: 17, offset: 21220},
+																					pos: position{line: 669, col: 17, offset: 21321},
 																					run: (*parser).callonAttributeDeclarationValueElement90,
 																					expr: &seqExpr{
-																						pos: position{line: 667, col: 17, offset: 21220},
+																						pos: position{line: 669, col: 17, offset: 21321},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 667, col: 17, offset: 21220},
+																								pos:        position{line: 669, col: 17, offset: 21321},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 667, col: 21, offset: 21224},
+																								pos:   position{line: 669, col: 21, offset: 21325},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 667, col: 28, offset: 21231},
+																									pos: position{line: 669, col: 28, offset: 21332},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 667, col: 28, offset: 21231},
+																											pos: position{line: 669, col: 28, offset: 21332},
 																											run: (*parser).callonAttributeDeclarationValueElement95,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 667, col: 28, offset: 21231},
+																												pos:        position{line: 669, col: 28, offset: 21332},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11327,12 +11327,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 669, col: 9, offset: 21285},
+																											pos: position{line: 671, col: 9, offset: 21386},
 																											run: (*parser).callonAttributeDeclarationValueElement97,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 669, col: 9, offset: 21285},
+																												pos: position{line: 671, col: 9, offset: 21386},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 669, col: 9, offset: 21285},
+																													pos:        position{line: 671, col: 9, offset: 21386},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11349,7 +11349,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 663, col: 79, offset: 21111},
+																			pos:        position{line: 665, col: 79, offset: 21212},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11372,60 +11372,60 @@ var g = &grammar{
 		},
 		{
 			name: "BlockAttributes",
-			pos:  position{line: 369, col: 1, offset: 11360},
+			pos:  position{line: 371, col: 1, offset: 11461},
 			expr: &actionExpr{
-				pos: position{line: 370, col: 5, offset: 11383},
+				pos: position{line: 372, col: 5, offset: 11484},
 				run: (*parser).callonBlockAttributes1,
 				expr: &labeledExpr{
-					pos:   position{line: 370, col: 5, offset: 11383},
+					pos:   position{line: 372, col: 5, offset: 11484},
 					label: "attributes",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 370, col: 16, offset: 11394},
+						pos: position{line: 372, col: 16, offset: 11495},
 						expr: &choiceExpr{
-							pos: position{line: 372, col: 9, offset: 11461},
+							pos: position{line: 374, col: 9, offset: 11562},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 372, col: 10, offset: 11462},
+									pos: position{line: 374, col: 10, offset: 11563},
 									run: (*parser).callonBlockAttributes5,
 									expr: &seqExpr{
-										pos: position{line: 372, col: 10, offset: 11462},
+										pos: position{line: 374, col: 10, offset: 11563},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 372, col: 10, offset: 11462},
+												pos:   position{line: 374, col: 10, offset: 11563},
 												label: "anchor",
 												expr: &actionExpr{
-													pos: position{line: 404, col: 5, offset: 12405},
+													pos: position{line: 406, col: 5, offset: 12506},
 													run: (*parser).callonBlockAttributes8,
 													expr: &seqExpr{
-														pos: position{line: 404, col: 5, offset: 12405},
+														pos: position{line: 406, col: 5, offset: 12506},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 404, col: 5, offset: 12405},
+																pos:        position{line: 406, col: 5, offset: 12506},
 																val:        "[[",
 																ignoreCase: false,
 																want:       "\"[[\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 405, col: 5, offset: 12415},
+																pos:   position{line: 407, col: 5, offset: 12516},
 																label: "id",
 																expr: &actionExpr{
-																	pos: position{line: 406, col: 9, offset: 12428},
+																	pos: position{line: 408, col: 9, offset: 12529},
 																	run: (*parser).callonBlockAttributes12,
 																	expr: &labeledExpr{
-																		pos:   position{line: 406, col: 9, offset: 12428},
+																		pos:   position{line: 408, col: 9, offset: 12529},
 																		label: "elements",
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 406, col: 18, offset: 12437},
+																			pos: position{line: 408, col: 18, offset: 12538},
 																			expr: &choiceExpr{
-																				pos: position{line: 407, col: 13, offset: 12451},
+																				pos: position{line: 409, col: 13, offset: 12552},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 407, col: 14, offset: 12452},
+																						pos: position{line: 409, col: 14, offset: 12553},
 																						run: (*parser).callonBlockAttributes16,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 407, col: 14, offset: 12452},
+																							pos: position{line: 409, col: 14, offset: 12553},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 407, col: 14, offset: 12452},
+																								pos:        position{line: 409, col: 14, offset: 12553},
 																								val:        "[^=\\r\\n�{]]",
 																								chars:      []rune{'=', '\r', '\n', '�', '{', ']'},
 																								ignoreCase: false,
@@ -11434,27 +11434,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1199, col: 23, offset: 37069},
+																						pos: position{line: 1201, col: 23, offset: 37170},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1199, col: 23, offset: 37069},
+																							pos: position{line: 1201, col: 23, offset: 37170},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1197, col: 32, offset: 37037},
+																									pos:        position{line: 1199, col: 32, offset: 37138},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1199, col: 51, offset: 37097},
+																									pos:   position{line: 1201, col: 51, offset: 37198},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1199, col: 56, offset: 37102},
+																										pos: position{line: 1201, col: 56, offset: 37203},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1199, col: 56, offset: 37102},
+																											pos: position{line: 1201, col: 56, offset: 37203},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1199, col: 56, offset: 37102},
+																												pos:        position{line: 1201, col: 56, offset: 37203},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11464,7 +11464,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1197, col: 32, offset: 37037},
+																									pos:        position{line: 1199, col: 32, offset: 37138},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
@@ -11473,44 +11473,44 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 637, col: 5, offset: 20204},
+																						pos: position{line: 639, col: 5, offset: 20305},
 																						run: (*parser).callonBlockAttributes27,
 																						expr: &seqExpr{
-																							pos: position{line: 637, col: 5, offset: 20204},
+																							pos: position{line: 639, col: 5, offset: 20305},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 637, col: 5, offset: 20204},
+																									pos: position{line: 639, col: 5, offset: 20305},
 																									run: (*parser).callonBlockAttributes29,
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 640, col: 5, offset: 20276},
+																									pos:   position{line: 642, col: 5, offset: 20377},
 																									label: "element",
 																									expr: &choiceExpr{
-																										pos: position{line: 640, col: 14, offset: 20285},
+																										pos: position{line: 642, col: 14, offset: 20386},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 646, col: 5, offset: 20414},
+																												pos: position{line: 648, col: 5, offset: 20515},
 																												run: (*parser).callonBlockAttributes32,
 																												expr: &seqExpr{
-																													pos: position{line: 646, col: 5, offset: 20414},
+																													pos: position{line: 648, col: 5, offset: 20515},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 646, col: 5, offset: 20414},
+																															pos:        position{line: 648, col: 5, offset: 20515},
 																															val:        "\\{",
 																															ignoreCase: false,
 																															want:       "\"\\\\{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 646, col: 13, offset: 20422},
+																															pos:   position{line: 648, col: 13, offset: 20523},
 																															label: "name",
 																															expr: &actionExpr{
-																																pos: position{line: 318, col: 18, offset: 9736},
+																																pos: position{line: 320, col: 18, offset: 9837},
 																																run: (*parser).callonBlockAttributes36,
 																																expr: &seqExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 320, col: 18, offset: 9837},
 																																	exprs: []interface{}{
 																																		&charClassMatcher{
-																																			pos:        position{line: 318, col: 18, offset: 9736},
+																																			pos:        position{line: 320, col: 18, offset: 9837},
 																																			val:        "[_\\pL\\pN]",
 																																			chars:      []rune{'_'},
 																																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11518,9 +11518,9 @@ var g = &grammar{
 																																			inverted:   false,
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 318, col: 28, offset: 9746},
+																																			pos: position{line: 320, col: 28, offset: 9847},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 318, col: 29, offset: 9747},
+																																				pos:        position{line: 320, col: 29, offset: 9848},
 																																				val:        "[-\\pL\\pN]",
 																																				chars:      []rune{'-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11533,7 +11533,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 646, col: 32, offset: 20441},
+																															pos:        position{line: 648, col: 32, offset: 20542},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11542,28 +11542,28 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 653, col: 5, offset: 20682},
+																												pos: position{line: 655, col: 5, offset: 20783},
 																												run: (*parser).callonBlockAttributes42,
 																												expr: &seqExpr{
-																													pos: position{line: 653, col: 5, offset: 20682},
+																													pos: position{line: 655, col: 5, offset: 20783},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 653, col: 5, offset: 20682},
+																															pos:        position{line: 655, col: 5, offset: 20783},
 																															val:        "{",
 																															ignoreCase: false,
 																															want:       "\"{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 653, col: 9, offset: 20686},
+																															pos:   position{line: 655, col: 9, offset: 20787},
 																															label: "name",
 																															expr: &actionExpr{
-																																pos: position{line: 318, col: 18, offset: 9736},
+																																pos: position{line: 320, col: 18, offset: 9837},
 																																run: (*parser).callonBlockAttributes46,
 																																expr: &seqExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 320, col: 18, offset: 9837},
 																																	exprs: []interface{}{
 																																		&charClassMatcher{
-																																			pos:        position{line: 318, col: 18, offset: 9736},
+																																			pos:        position{line: 320, col: 18, offset: 9837},
 																																			val:        "[_\\pL\\pN]",
 																																			chars:      []rune{'_'},
 																																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11571,9 +11571,9 @@ var g = &grammar{
 																																			inverted:   false,
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 318, col: 28, offset: 9746},
+																																			pos: position{line: 320, col: 28, offset: 9847},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 318, col: 29, offset: 9747},
+																																				pos:        position{line: 320, col: 29, offset: 9848},
 																																				val:        "[-\\pL\\pN]",
 																																				chars:      []rune{'-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11586,7 +11586,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 653, col: 28, offset: 20705},
+																															pos:        position{line: 655, col: 28, offset: 20806},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11595,28 +11595,28 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 659, col: 25, offset: 20886},
+																												pos: position{line: 661, col: 25, offset: 20987},
 																												run: (*parser).callonBlockAttributes52,
 																												expr: &seqExpr{
-																													pos: position{line: 659, col: 25, offset: 20886},
+																													pos: position{line: 661, col: 25, offset: 20987},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 659, col: 25, offset: 20886},
+																															pos:        position{line: 661, col: 25, offset: 20987},
 																															val:        "{counter:",
 																															ignoreCase: false,
 																															want:       "\"{counter:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 659, col: 37, offset: 20898},
+																															pos:   position{line: 661, col: 37, offset: 20999},
 																															label: "name",
 																															expr: &actionExpr{
-																																pos: position{line: 318, col: 18, offset: 9736},
+																																pos: position{line: 320, col: 18, offset: 9837},
 																																run: (*parser).callonBlockAttributes56,
 																																expr: &seqExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 320, col: 18, offset: 9837},
 																																	exprs: []interface{}{
 																																		&charClassMatcher{
-																																			pos:        position{line: 318, col: 18, offset: 9736},
+																																			pos:        position{line: 320, col: 18, offset: 9837},
 																																			val:        "[_\\pL\\pN]",
 																																			chars:      []rune{'_'},
 																																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11624,9 +11624,9 @@ var g = &grammar{
 																																			inverted:   false,
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 318, col: 28, offset: 9746},
+																																			pos: position{line: 320, col: 28, offset: 9847},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 318, col: 29, offset: 9747},
+																																				pos:        position{line: 320, col: 29, offset: 9848},
 																																				val:        "[-\\pL\\pN]",
 																																				chars:      []rune{'-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11639,33 +11639,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 659, col: 56, offset: 20917},
+																															pos:   position{line: 661, col: 56, offset: 21018},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 659, col: 62, offset: 20923},
+																																pos: position{line: 661, col: 62, offset: 21024},
 																																expr: &actionExpr{
-																																	pos: position{line: 667, col: 17, offset: 21220},
+																																	pos: position{line: 669, col: 17, offset: 21321},
 																																	run: (*parser).callonBlockAttributes63,
 																																	expr: &seqExpr{
-																																		pos: position{line: 667, col: 17, offset: 21220},
+																																		pos: position{line: 669, col: 17, offset: 21321},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 667, col: 17, offset: 21220},
+																																				pos:        position{line: 669, col: 17, offset: 21321},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 667, col: 21, offset: 21224},
+																																				pos:   position{line: 669, col: 21, offset: 21325},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 667, col: 28, offset: 21231},
+																																					pos: position{line: 669, col: 28, offset: 21332},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 667, col: 28, offset: 21231},
+																																							pos: position{line: 669, col: 28, offset: 21332},
 																																							run: (*parser).callonBlockAttributes68,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 667, col: 28, offset: 21231},
+																																								pos:        position{line: 669, col: 28, offset: 21332},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11673,12 +11673,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 669, col: 9, offset: 21285},
+																																							pos: position{line: 671, col: 9, offset: 21386},
 																																							run: (*parser).callonBlockAttributes70,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 669, col: 9, offset: 21285},
+																																								pos: position{line: 671, col: 9, offset: 21386},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 669, col: 9, offset: 21285},
+																																									pos:        position{line: 671, col: 9, offset: 21386},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11695,7 +11695,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 659, col: 78, offset: 20939},
+																															pos:        position{line: 661, col: 78, offset: 21040},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11704,28 +11704,28 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 663, col: 25, offset: 21057},
+																												pos: position{line: 665, col: 25, offset: 21158},
 																												run: (*parser).callonBlockAttributes74,
 																												expr: &seqExpr{
-																													pos: position{line: 663, col: 25, offset: 21057},
+																													pos: position{line: 665, col: 25, offset: 21158},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 663, col: 25, offset: 21057},
+																															pos:        position{line: 665, col: 25, offset: 21158},
 																															val:        "{counter2:",
 																															ignoreCase: false,
 																															want:       "\"{counter2:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 663, col: 38, offset: 21070},
+																															pos:   position{line: 665, col: 38, offset: 21171},
 																															label: "name",
 																															expr: &actionExpr{
-																																pos: position{line: 318, col: 18, offset: 9736},
+																																pos: position{line: 320, col: 18, offset: 9837},
 																																run: (*parser).callonBlockAttributes78,
 																																expr: &seqExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 320, col: 18, offset: 9837},
 																																	exprs: []interface{}{
 																																		&charClassMatcher{
-																																			pos:        position{line: 318, col: 18, offset: 9736},
+																																			pos:        position{line: 320, col: 18, offset: 9837},
 																																			val:        "[_\\pL\\pN]",
 																																			chars:      []rune{'_'},
 																																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11733,9 +11733,9 @@ var g = &grammar{
 																																			inverted:   false,
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 318, col: 28, offset: 9746},
+																																			pos: position{line: 320, col: 28, offset: 9847},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 318, col: 29, offset: 9747},
+																																				pos:        position{line: 320, col: 29, offset: 9848},
 																																				val:        "[-\\pL\\pN]",
 																																				chars:      []rune{'-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11748,33 +11748,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 663, col: 57, offset: 21089},
+																															pos:   position{line: 665, col: 57, offset: 21190},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 663, col: 63, offset: 21095},
+																																pos: position{line: 665, col: 63, offset: 21196},
 																																expr: &actionExpr{
-																																	pos: position{line: 667, col: 17, offset: 21220},
+																																	pos: position{line: 669, col: 17, offset: 21321},
 																																	run: (*parser).callonBlockAttributes85,
 																																	expr: &seqExpr{
-																																		pos: position{line: 667, col: 17, offset: 21220},
+																																		pos: position{line: 669, col: 17, offset: 21321},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 667, col: 17, offset: 21220},
+																																				pos:        position{line: 669, col: 17, offset: 21321},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 667, col: 21, offset: 21224},
+																																				pos:   position{line: 669, col: 21, offset: 21325},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 667, col: 28, offset: 21231},
+																																					pos: position{line: 669, col: 28, offset: 21332},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 667, col: 28, offset: 21231},
+																																							pos: position{line: 669, col: 28, offset: 21332},
 																																							run: (*parser).callonBlockAttributes90,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 667, col: 28, offset: 21231},
+																																								pos:        position{line: 669, col: 28, offset: 21332},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11782,12 +11782,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 669, col: 9, offset: 21285},
+																																							pos: position{line: 671, col: 9, offset: 21386},
 																																							run: (*parser).callonBlockAttributes92,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 669, col: 9, offset: 21285},
+																																								pos: position{line: 671, col: 9, offset: 21386},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 669, col: 9, offset: 21285},
+																																									pos:        position{line: 671, col: 9, offset: 21386},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11804,7 +11804,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 663, col: 79, offset: 21111},
+																															pos:        position{line: 665, col: 79, offset: 21212},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11819,10 +11819,10 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 412, col: 16, offset: 12685},
+																						pos: position{line: 414, col: 16, offset: 12786},
 																						run: (*parser).callonBlockAttributes96,
 																						expr: &litMatcher{
-																							pos:        position{line: 412, col: 16, offset: 12685},
+																							pos:        position{line: 414, col: 16, offset: 12786},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
@@ -11835,7 +11835,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 418, col: 5, offset: 12871},
+																pos:        position{line: 420, col: 5, offset: 12972},
 																val:        "]]",
 																ignoreCase: false,
 																want:       "\"]]\"",
@@ -11845,12 +11845,12 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 372, col: 35, offset: 11487},
+												pos: position{line: 374, col: 35, offset: 11588},
 												expr: &actionExpr{
-													pos: position{line: 2910, col: 10, offset: 91824},
+													pos: position{line: 2912, col: 10, offset: 91925},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2910, col: 10, offset: 91824},
+														pos:        position{line: 2912, col: 10, offset: 91925},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11859,28 +11859,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2932, col: 8, offset: 92222},
+												pos: position{line: 2934, col: 8, offset: 92323},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2919, col: 12, offset: 91995},
+														pos: position{line: 2921, col: 12, offset: 92096},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2919, col: 13, offset: 91996},
+															pos: position{line: 2921, col: 13, offset: 92097},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2919, col: 13, offset: 91996},
+																	pos:        position{line: 2921, col: 13, offset: 92097},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2919, col: 20, offset: 92003},
+																	pos:        position{line: 2921, col: 20, offset: 92104},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2919, col: 29, offset: 92012},
+																	pos:        position{line: 2921, col: 29, offset: 92113},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11889,37 +11889,37 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2929, col: 8, offset: 92172},
+														pos: position{line: 2931, col: 8, offset: 92273},
 														expr: &anyMatcher{
-															line: 2929, col: 9, offset: 92173,
+															line: 2931, col: 9, offset: 92274,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 372, col: 46, offset: 11498},
+												pos: position{line: 374, col: 46, offset: 11599},
 												expr: &choiceExpr{
-													pos: position{line: 372, col: 47, offset: 11499},
+													pos: position{line: 374, col: 47, offset: 11600},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 678, col: 14, offset: 21586},
+															pos: position{line: 680, col: 14, offset: 21687},
 															run: (*parser).callonBlockAttributes112,
 															expr: &seqExpr{
-																pos: position{line: 678, col: 14, offset: 21586},
+																pos: position{line: 680, col: 14, offset: 21687},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2927, col: 11, offset: 92158},
+																		pos: position{line: 2929, col: 11, offset: 92259},
 																		expr: &anyMatcher{
-																			line: 2927, col: 13, offset: 92160,
+																			line: 2929, col: 13, offset: 92261,
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 678, col: 21, offset: 21593},
+																		pos: position{line: 680, col: 21, offset: 21694},
 																		expr: &actionExpr{
-																			pos: position{line: 2910, col: 10, offset: 91824},
+																			pos: position{line: 2912, col: 10, offset: 91925},
 																			run: (*parser).callonBlockAttributes117,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2910, col: 10, offset: 91824},
+																				pos:        position{line: 2912, col: 10, offset: 91925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -11928,28 +11928,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2932, col: 8, offset: 92222},
+																		pos: position{line: 2934, col: 8, offset: 92323},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonBlockAttributes120,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -11958,9 +11958,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2929, col: 8, offset: 92172},
+																				pos: position{line: 2931, col: 8, offset: 92273},
 																				expr: &anyMatcher{
-																					line: 2929, col: 9, offset: 92173,
+																					line: 2931, col: 9, offset: 92274,
 																				},
 																			},
 																		},
@@ -11969,36 +11969,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2513, col: 22, offset: 80602},
+															pos: position{line: 2515, col: 22, offset: 80703},
 															run: (*parser).callonBlockAttributes127,
 															expr: &seqExpr{
-																pos: position{line: 2513, col: 22, offset: 80602},
+																pos: position{line: 2515, col: 22, offset: 80703},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2518, col: 31, offset: 80852},
+																		pos:        position{line: 2520, col: 31, offset: 80953},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2518, col: 36, offset: 80857},
+																		pos: position{line: 2520, col: 36, offset: 80958},
 																		expr: &litMatcher{
-																			pos:        position{line: 2518, col: 37, offset: 80858},
+																			pos:        position{line: 2520, col: 37, offset: 80959},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2513, col: 49, offset: 80629},
+																		pos:   position{line: 2515, col: 49, offset: 80730},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2856, col: 13, offset: 90350},
+																			pos: position{line: 2858, col: 13, offset: 90451},
 																			run: (*parser).callonBlockAttributes133,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2856, col: 13, offset: 90350},
+																				pos: position{line: 2858, col: 13, offset: 90451},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2856, col: 13, offset: 90350},
+																					pos:        position{line: 2858, col: 13, offset: 90451},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12008,28 +12008,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2932, col: 8, offset: 92222},
+																		pos: position{line: 2934, col: 8, offset: 92323},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12038,9 +12038,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2929, col: 8, offset: 92172},
+																				pos: position{line: 2931, col: 8, offset: 92273},
 																				expr: &anyMatcher{
-																					line: 2929, col: 9, offset: 92173,
+																					line: 2931, col: 9, offset: 92274,
 																				},
 																			},
 																		},
@@ -12055,30 +12055,30 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 376, col: 12, offset: 11641},
+									pos: position{line: 378, col: 12, offset: 11742},
 									run: (*parser).callonBlockAttributes144,
 									expr: &seqExpr{
-										pos: position{line: 376, col: 12, offset: 11641},
+										pos: position{line: 378, col: 12, offset: 11742},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 376, col: 12, offset: 11641},
+												pos:   position{line: 378, col: 12, offset: 11742},
 												label: "title",
 												expr: &actionExpr{
-													pos: position{line: 423, col: 19, offset: 12990},
+													pos: position{line: 425, col: 19, offset: 13091},
 													run: (*parser).callonBlockAttributes147,
 													expr: &seqExpr{
-														pos: position{line: 423, col: 19, offset: 12990},
+														pos: position{line: 425, col: 19, offset: 13091},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 423, col: 19, offset: 12990},
+																pos:        position{line: 425, col: 19, offset: 13091},
 																val:        ".",
 																ignoreCase: false,
 																want:       "\".\"",
 															},
 															&notExpr{
-																pos: position{line: 424, col: 5, offset: 12999},
+																pos: position{line: 426, col: 5, offset: 13100},
 																expr: &charClassMatcher{
-																	pos:        position{line: 424, col: 6, offset: 13000},
+																	pos:        position{line: 426, col: 6, offset: 13101},
 																	val:        "[. ]",
 																	chars:      []rune{'.', ' '},
 																	ignoreCase: false,
@@ -12086,20 +12086,20 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 425, col: 5, offset: 13112},
+																pos:   position{line: 427, col: 5, offset: 13213},
 																label: "elements",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 425, col: 14, offset: 13121},
+																	pos: position{line: 427, col: 14, offset: 13222},
 																	expr: &choiceExpr{
-																		pos: position{line: 426, col: 9, offset: 13131},
+																		pos: position{line: 428, col: 9, offset: 13232},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2804, col: 14, offset: 88993},
+																				pos: position{line: 2806, col: 14, offset: 89094},
 																				run: (*parser).callonBlockAttributes155,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2804, col: 14, offset: 88993},
+																					pos: position{line: 2806, col: 14, offset: 89094},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2804, col: 14, offset: 88993},
+																						pos:        position{line: 2806, col: 14, offset: 89094},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12108,10 +12108,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2910, col: 10, offset: 91824},
+																				pos: position{line: 2912, col: 10, offset: 91925},
 																				run: (*parser).callonBlockAttributes158,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2910, col: 10, offset: 91824},
+																					pos:        position{line: 2912, col: 10, offset: 91925},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12119,27 +12119,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2827, col: 5, offset: 89478},
+																				pos: position{line: 2829, col: 5, offset: 89579},
 																				run: (*parser).callonBlockAttributes160,
 																				expr: &choiceExpr{
-																					pos: position{line: 2828, col: 9, offset: 89488},
+																					pos: position{line: 2830, col: 9, offset: 89589},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2828, col: 10, offset: 89489},
+																							pos:        position{line: 2830, col: 10, offset: 89590},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2830, col: 13, offset: 89586},
+																							pos: position{line: 2832, col: 13, offset: 89687},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2830, col: 13, offset: 89586},
+																									pos: position{line: 2832, col: 13, offset: 89687},
 																									run: (*parser).callonBlockAttributes164,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2833, col: 13, offset: 89686},
+																									pos:        position{line: 2835, col: 13, offset: 89787},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12147,20 +12147,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2833, col: 19, offset: 89692},
+																							pos:        position{line: 2835, col: 19, offset: 89793},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2836, col: 13, offset: 89730},
+																							pos: position{line: 2838, col: 13, offset: 89831},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2836, col: 13, offset: 89730},
+																									pos: position{line: 2838, col: 13, offset: 89831},
 																									run: (*parser).callonBlockAttributes168,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2839, col: 14, offset: 89823},
+																									pos:        position{line: 2841, col: 14, offset: 89924},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12169,18 +12169,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2841, col: 12, offset: 89867},
+																							pos: position{line: 2843, col: 12, offset: 89968},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2841, col: 12, offset: 89867},
+																									pos:        position{line: 2843, col: 12, offset: 89968},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2841, col: 16, offset: 89871},
+																									pos: position{line: 2843, col: 16, offset: 89972},
 																									expr: &litMatcher{
-																										pos:        position{line: 2841, col: 17, offset: 89872},
+																										pos:        position{line: 2843, col: 17, offset: 89973},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12192,28 +12192,28 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 646, col: 5, offset: 20414},
+																				pos: position{line: 648, col: 5, offset: 20515},
 																				run: (*parser).callonBlockAttributes174,
 																				expr: &seqExpr{
-																					pos: position{line: 646, col: 5, offset: 20414},
+																					pos: position{line: 648, col: 5, offset: 20515},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 646, col: 5, offset: 20414},
+																							pos:        position{line: 648, col: 5, offset: 20515},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 646, col: 13, offset: 20422},
+																							pos:   position{line: 648, col: 13, offset: 20523},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 320, col: 18, offset: 9837},
 																								run: (*parser).callonBlockAttributes178,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 320, col: 18, offset: 9837},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 320, col: 18, offset: 9837},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12221,9 +12221,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 320, col: 28, offset: 9847},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 320, col: 29, offset: 9848},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12236,7 +12236,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 646, col: 32, offset: 20441},
+																							pos:        position{line: 648, col: 32, offset: 20542},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12245,28 +12245,28 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 653, col: 5, offset: 20682},
+																				pos: position{line: 655, col: 5, offset: 20783},
 																				run: (*parser).callonBlockAttributes184,
 																				expr: &seqExpr{
-																					pos: position{line: 653, col: 5, offset: 20682},
+																					pos: position{line: 655, col: 5, offset: 20783},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 653, col: 5, offset: 20682},
+																							pos:        position{line: 655, col: 5, offset: 20783},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 653, col: 9, offset: 20686},
+																							pos:   position{line: 655, col: 9, offset: 20787},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 320, col: 18, offset: 9837},
 																								run: (*parser).callonBlockAttributes188,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 320, col: 18, offset: 9837},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 320, col: 18, offset: 9837},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12274,9 +12274,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 320, col: 28, offset: 9847},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 320, col: 29, offset: 9848},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12289,7 +12289,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 653, col: 28, offset: 20705},
+																							pos:        position{line: 655, col: 28, offset: 20806},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12298,28 +12298,28 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 659, col: 25, offset: 20886},
+																				pos: position{line: 661, col: 25, offset: 20987},
 																				run: (*parser).callonBlockAttributes194,
 																				expr: &seqExpr{
-																					pos: position{line: 659, col: 25, offset: 20886},
+																					pos: position{line: 661, col: 25, offset: 20987},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 659, col: 25, offset: 20886},
+																							pos:        position{line: 661, col: 25, offset: 20987},
 																							val:        "{counter:",
 																							ignoreCase: false,
 																							want:       "\"{counter:\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 659, col: 37, offset: 20898},
+																							pos:   position{line: 661, col: 37, offset: 20999},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 320, col: 18, offset: 9837},
 																								run: (*parser).callonBlockAttributes198,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 320, col: 18, offset: 9837},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 320, col: 18, offset: 9837},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12327,9 +12327,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 320, col: 28, offset: 9847},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 320, col: 29, offset: 9848},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12342,33 +12342,33 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 659, col: 56, offset: 20917},
+																							pos:   position{line: 661, col: 56, offset: 21018},
 																							label: "start",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 659, col: 62, offset: 20923},
+																								pos: position{line: 661, col: 62, offset: 21024},
 																								expr: &actionExpr{
-																									pos: position{line: 667, col: 17, offset: 21220},
+																									pos: position{line: 669, col: 17, offset: 21321},
 																									run: (*parser).callonBlockAttributes205,
 																									expr: &seqExpr{
-																										pos: position{line: 667, col: 17, offset: 21220},
+																										pos: position{line: 669, col: 17, offset: 21321},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 667, col: 17, offset: 21220},
+																												pos:        position{line: 669, col: 17, offset: 21321},
 																												val:        ":",
 																												ignoreCase: false,
 																												want:       "\":\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 667, col: 21, offset: 21224},
+																												pos:   position{line: 669, col: 21, offset: 21325},
 																												label: "start",
 																												expr: &choiceExpr{
-																													pos: position{line: 667, col: 28, offset: 21231},
+																													pos: position{line: 669, col: 28, offset: 21332},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 667, col: 28, offset: 21231},
+																															pos: position{line: 669, col: 28, offset: 21332},
 																															run: (*parser).callonBlockAttributes210,
 																															expr: &charClassMatcher{
-																																pos:        position{line: 667, col: 28, offset: 21231},
+																																pos:        position{line: 669, col: 28, offset: 21332},
 																																val:        "[A-Za-z]",
 																																ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																ignoreCase: false,
@@ -12376,12 +12376,12 @@ var g = &grammar{
 																															},
 																														},
 																														&actionExpr{
-																															pos: position{line: 669, col: 9, offset: 21285},
+																															pos: position{line: 671, col: 9, offset: 21386},
 																															run: (*parser).callonBlockAttributes212,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 669, col: 9, offset: 21285},
+																																pos: position{line: 671, col: 9, offset: 21386},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 669, col: 9, offset: 21285},
+																																	pos:        position{line: 671, col: 9, offset: 21386},
 																																	val:        "[0-9]",
 																																	ranges:     []rune{'0', '9'},
 																																	ignoreCase: false,
@@ -12398,7 +12398,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 659, col: 78, offset: 20939},
+																							pos:        position{line: 661, col: 78, offset: 21040},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12407,28 +12407,28 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 663, col: 25, offset: 21057},
+																				pos: position{line: 665, col: 25, offset: 21158},
 																				run: (*parser).callonBlockAttributes216,
 																				expr: &seqExpr{
-																					pos: position{line: 663, col: 25, offset: 21057},
+																					pos: position{line: 665, col: 25, offset: 21158},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 663, col: 25, offset: 21057},
+																							pos:        position{line: 665, col: 25, offset: 21158},
 																							val:        "{counter2:",
 																							ignoreCase: false,
 																							want:       "\"{counter2:\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 663, col: 38, offset: 21070},
+																							pos:   position{line: 665, col: 38, offset: 21171},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 320, col: 18, offset: 9837},
 																								run: (*parser).callonBlockAttributes220,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 320, col: 18, offset: 9837},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 320, col: 18, offset: 9837},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12436,9 +12436,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 320, col: 28, offset: 9847},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 320, col: 29, offset: 9848},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12451,33 +12451,33 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 663, col: 57, offset: 21089},
+																							pos:   position{line: 665, col: 57, offset: 21190},
 																							label: "start",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 663, col: 63, offset: 21095},
+																								pos: position{line: 665, col: 63, offset: 21196},
 																								expr: &actionExpr{
-																									pos: position{line: 667, col: 17, offset: 21220},
+																									pos: position{line: 669, col: 17, offset: 21321},
 																									run: (*parser).callonBlockAttributes227,
 																									expr: &seqExpr{
-																										pos: position{line: 667, col: 17, offset: 21220},
+																										pos: position{line: 669, col: 17, offset: 21321},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 667, col: 17, offset: 21220},
+																												pos:        position{line: 669, col: 17, offset: 21321},
 																												val:        ":",
 																												ignoreCase: false,
 																												want:       "\":\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 667, col: 21, offset: 21224},
+																												pos:   position{line: 669, col: 21, offset: 21325},
 																												label: "start",
 																												expr: &choiceExpr{
-																													pos: position{line: 667, col: 28, offset: 21231},
+																													pos: position{line: 669, col: 28, offset: 21332},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 667, col: 28, offset: 21231},
+																															pos: position{line: 669, col: 28, offset: 21332},
 																															run: (*parser).callonBlockAttributes232,
 																															expr: &charClassMatcher{
-																																pos:        position{line: 667, col: 28, offset: 21231},
+																																pos:        position{line: 669, col: 28, offset: 21332},
 																																val:        "[A-Za-z]",
 																																ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																ignoreCase: false,
@@ -12485,12 +12485,12 @@ var g = &grammar{
 																															},
 																														},
 																														&actionExpr{
-																															pos: position{line: 669, col: 9, offset: 21285},
+																															pos: position{line: 671, col: 9, offset: 21386},
 																															run: (*parser).callonBlockAttributes234,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 669, col: 9, offset: 21285},
+																																pos: position{line: 671, col: 9, offset: 21386},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 669, col: 9, offset: 21285},
+																																	pos:        position{line: 671, col: 9, offset: 21386},
 																																	val:        "[0-9]",
 																																	ranges:     []rune{'0', '9'},
 																																	ignoreCase: false,
@@ -12507,7 +12507,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 663, col: 79, offset: 21111},
+																							pos:        position{line: 665, col: 79, offset: 21212},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12516,10 +12516,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2849, col: 12, offset: 90132},
+																				pos: position{line: 2851, col: 12, offset: 90233},
 																				run: (*parser).callonBlockAttributes238,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2849, col: 12, offset: 90132},
+																					pos:        position{line: 2851, col: 12, offset: 90233},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12535,12 +12535,12 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 376, col: 35, offset: 11664},
+												pos: position{line: 378, col: 35, offset: 11765},
 												expr: &actionExpr{
-													pos: position{line: 2910, col: 10, offset: 91824},
+													pos: position{line: 2912, col: 10, offset: 91925},
 													run: (*parser).callonBlockAttributes241,
 													expr: &charClassMatcher{
-														pos:        position{line: 2910, col: 10, offset: 91824},
+														pos:        position{line: 2912, col: 10, offset: 91925},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12549,28 +12549,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2932, col: 8, offset: 92222},
+												pos: position{line: 2934, col: 8, offset: 92323},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2919, col: 12, offset: 91995},
+														pos: position{line: 2921, col: 12, offset: 92096},
 														run: (*parser).callonBlockAttributes244,
 														expr: &choiceExpr{
-															pos: position{line: 2919, col: 13, offset: 91996},
+															pos: position{line: 2921, col: 13, offset: 92097},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2919, col: 13, offset: 91996},
+																	pos:        position{line: 2921, col: 13, offset: 92097},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2919, col: 20, offset: 92003},
+																	pos:        position{line: 2921, col: 20, offset: 92104},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2919, col: 29, offset: 92012},
+																	pos:        position{line: 2921, col: 29, offset: 92113},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12579,37 +12579,37 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2929, col: 8, offset: 92172},
+														pos: position{line: 2931, col: 8, offset: 92273},
 														expr: &anyMatcher{
-															line: 2929, col: 9, offset: 92173,
+															line: 2931, col: 9, offset: 92274,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 376, col: 46, offset: 11675},
+												pos: position{line: 378, col: 46, offset: 11776},
 												expr: &choiceExpr{
-													pos: position{line: 376, col: 47, offset: 11676},
+													pos: position{line: 378, col: 47, offset: 11777},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 678, col: 14, offset: 21586},
+															pos: position{line: 680, col: 14, offset: 21687},
 															run: (*parser).callonBlockAttributes253,
 															expr: &seqExpr{
-																pos: position{line: 678, col: 14, offset: 21586},
+																pos: position{line: 680, col: 14, offset: 21687},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2927, col: 11, offset: 92158},
+																		pos: position{line: 2929, col: 11, offset: 92259},
 																		expr: &anyMatcher{
-																			line: 2927, col: 13, offset: 92160,
+																			line: 2929, col: 13, offset: 92261,
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 678, col: 21, offset: 21593},
+																		pos: position{line: 680, col: 21, offset: 21694},
 																		expr: &actionExpr{
-																			pos: position{line: 2910, col: 10, offset: 91824},
+																			pos: position{line: 2912, col: 10, offset: 91925},
 																			run: (*parser).callonBlockAttributes258,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2910, col: 10, offset: 91824},
+																				pos:        position{line: 2912, col: 10, offset: 91925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12618,28 +12618,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2932, col: 8, offset: 92222},
+																		pos: position{line: 2934, col: 8, offset: 92323},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonBlockAttributes261,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12648,9 +12648,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2929, col: 8, offset: 92172},
+																				pos: position{line: 2931, col: 8, offset: 92273},
 																				expr: &anyMatcher{
-																					line: 2929, col: 9, offset: 92173,
+																					line: 2931, col: 9, offset: 92274,
 																				},
 																			},
 																		},
@@ -12659,36 +12659,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2513, col: 22, offset: 80602},
+															pos: position{line: 2515, col: 22, offset: 80703},
 															run: (*parser).callonBlockAttributes268,
 															expr: &seqExpr{
-																pos: position{line: 2513, col: 22, offset: 80602},
+																pos: position{line: 2515, col: 22, offset: 80703},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2518, col: 31, offset: 80852},
+																		pos:        position{line: 2520, col: 31, offset: 80953},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2518, col: 36, offset: 80857},
+																		pos: position{line: 2520, col: 36, offset: 80958},
 																		expr: &litMatcher{
-																			pos:        position{line: 2518, col: 37, offset: 80858},
+																			pos:        position{line: 2520, col: 37, offset: 80959},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2513, col: 49, offset: 80629},
+																		pos:   position{line: 2515, col: 49, offset: 80730},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2856, col: 13, offset: 90350},
+																			pos: position{line: 2858, col: 13, offset: 90451},
 																			run: (*parser).callonBlockAttributes274,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2856, col: 13, offset: 90350},
+																				pos: position{line: 2858, col: 13, offset: 90451},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2856, col: 13, offset: 90350},
+																					pos:        position{line: 2858, col: 13, offset: 90451},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12698,28 +12698,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2932, col: 8, offset: 92222},
+																		pos: position{line: 2934, col: 8, offset: 92323},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonBlockAttributes278,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12728,9 +12728,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2929, col: 8, offset: 92172},
+																				pos: position{line: 2931, col: 8, offset: 92273},
 																				expr: &anyMatcher{
-																					line: 2929, col: 9, offset: 92173,
+																					line: 2931, col: 9, offset: 92274,
 																				},
 																			},
 																		},
@@ -12745,26 +12745,26 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 380, col: 12, offset: 11788},
+									pos: position{line: 382, col: 12, offset: 11889},
 									run: (*parser).callonBlockAttributes285,
 									expr: &seqExpr{
-										pos: position{line: 380, col: 12, offset: 11788},
+										pos: position{line: 382, col: 12, offset: 11889},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 380, col: 12, offset: 11788},
+												pos:   position{line: 382, col: 12, offset: 11889},
 												label: "attributes",
 												expr: &ruleRefExpr{
-													pos:  position{line: 380, col: 24, offset: 11800},
+													pos:  position{line: 382, col: 24, offset: 11901},
 													name: "LongHandAttributes",
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 380, col: 44, offset: 11820},
+												pos: position{line: 382, col: 44, offset: 11921},
 												expr: &actionExpr{
-													pos: position{line: 2910, col: 10, offset: 91824},
+													pos: position{line: 2912, col: 10, offset: 91925},
 													run: (*parser).callonBlockAttributes290,
 													expr: &charClassMatcher{
-														pos:        position{line: 2910, col: 10, offset: 91824},
+														pos:        position{line: 2912, col: 10, offset: 91925},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12773,28 +12773,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2932, col: 8, offset: 92222},
+												pos: position{line: 2934, col: 8, offset: 92323},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2919, col: 12, offset: 91995},
+														pos: position{line: 2921, col: 12, offset: 92096},
 														run: (*parser).callonBlockAttributes293,
 														expr: &choiceExpr{
-															pos: position{line: 2919, col: 13, offset: 91996},
+															pos: position{line: 2921, col: 13, offset: 92097},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2919, col: 13, offset: 91996},
+																	pos:        position{line: 2921, col: 13, offset: 92097},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2919, col: 20, offset: 92003},
+																	pos:        position{line: 2921, col: 20, offset: 92104},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2919, col: 29, offset: 92012},
+																	pos:        position{line: 2921, col: 29, offset: 92113},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12803,37 +12803,37 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2929, col: 8, offset: 92172},
+														pos: position{line: 2931, col: 8, offset: 92273},
 														expr: &anyMatcher{
-															line: 2929, col: 9, offset: 92173,
+															line: 2931, col: 9, offset: 92274,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 380, col: 55, offset: 11831},
+												pos: position{line: 382, col: 55, offset: 11932},
 												expr: &choiceExpr{
-													pos: position{line: 380, col: 56, offset: 11832},
+													pos: position{line: 382, col: 56, offset: 11933},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 678, col: 14, offset: 21586},
+															pos: position{line: 680, col: 14, offset: 21687},
 															run: (*parser).callonBlockAttributes302,
 															expr: &seqExpr{
-																pos: position{line: 678, col: 14, offset: 21586},
+																pos: position{line: 680, col: 14, offset: 21687},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2927, col: 11, offset: 92158},
+																		pos: position{line: 2929, col: 11, offset: 92259},
 																		expr: &anyMatcher{
-																			line: 2927, col: 13, offset: 92160,
+																			line: 2929, col: 13, offset: 92261,
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 678, col: 21, offset: 21593},
+																		pos: position{line: 680, col: 21, offset: 21694},
 																		expr: &actionExpr{
-																			pos: position{line: 2910, col: 10, offset: 91824},
+																			pos: position{line: 2912, col: 10, offset: 91925},
 																			run: (*parser).callonBlockAttributes307,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2910, col: 10, offset: 91824},
+																				pos:        position{line: 2912, col: 10, offset: 91925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12842,28 +12842,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2932, col: 8, offset: 92222},
+																		pos: position{line: 2934, col: 8, offset: 92323},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonBlockAttributes310,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12872,9 +12872,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2929, col: 8, offset: 92172},
+																				pos: position{line: 2931, col: 8, offset: 92273},
 																				expr: &anyMatcher{
-																					line: 2929, col: 9, offset: 92173,
+																					line: 2931, col: 9, offset: 92274,
 																				},
 																			},
 																		},
@@ -12883,36 +12883,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2513, col: 22, offset: 80602},
+															pos: position{line: 2515, col: 22, offset: 80703},
 															run: (*parser).callonBlockAttributes317,
 															expr: &seqExpr{
-																pos: position{line: 2513, col: 22, offset: 80602},
+																pos: position{line: 2515, col: 22, offset: 80703},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2518, col: 31, offset: 80852},
+																		pos:        position{line: 2520, col: 31, offset: 80953},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2518, col: 36, offset: 80857},
+																		pos: position{line: 2520, col: 36, offset: 80958},
 																		expr: &litMatcher{
-																			pos:        position{line: 2518, col: 37, offset: 80858},
+																			pos:        position{line: 2520, col: 37, offset: 80959},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2513, col: 49, offset: 80629},
+																		pos:   position{line: 2515, col: 49, offset: 80730},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2856, col: 13, offset: 90350},
+																			pos: position{line: 2858, col: 13, offset: 90451},
 																			run: (*parser).callonBlockAttributes323,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2856, col: 13, offset: 90350},
+																				pos: position{line: 2858, col: 13, offset: 90451},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2856, col: 13, offset: 90350},
+																					pos:        position{line: 2858, col: 13, offset: 90451},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12922,28 +12922,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2932, col: 8, offset: 92222},
+																		pos: position{line: 2934, col: 8, offset: 92323},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonBlockAttributes327,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12952,9 +12952,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2929, col: 8, offset: 92172},
+																				pos: position{line: 2931, col: 8, offset: 92273},
 																				expr: &anyMatcher{
-																					line: 2929, col: 9, offset: 92173,
+																					line: 2931, col: 9, offset: 92274,
 																				},
 																			},
 																		},
@@ -12976,51 +12976,51 @@ var g = &grammar{
 		},
 		{
 			name: "InlineAttributes",
-			pos:  position{line: 388, col: 1, offset: 12038},
+			pos:  position{line: 390, col: 1, offset: 12139},
 			expr: &actionExpr{
-				pos: position{line: 389, col: 5, offset: 12062},
+				pos: position{line: 391, col: 5, offset: 12163},
 				run: (*parser).callonInlineAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 389, col: 5, offset: 12062},
+					pos: position{line: 391, col: 5, offset: 12163},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 389, col: 5, offset: 12062},
+							pos:        position{line: 391, col: 5, offset: 12163},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 390, col: 5, offset: 12070},
+							pos:   position{line: 392, col: 5, offset: 12171},
 							label: "attributes",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 390, col: 16, offset: 12081},
+								pos: position{line: 392, col: 16, offset: 12182},
 								expr: &actionExpr{
-									pos: position{line: 391, col: 9, offset: 12091},
+									pos: position{line: 393, col: 9, offset: 12192},
 									run: (*parser).callonInlineAttributes6,
 									expr: &seqExpr{
-										pos: position{line: 392, col: 13, offset: 12105},
+										pos: position{line: 394, col: 13, offset: 12206},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 392, col: 13, offset: 12105},
+												pos: position{line: 394, col: 13, offset: 12206},
 												expr: &litMatcher{
-													pos:        position{line: 392, col: 14, offset: 12106},
+													pos:        position{line: 394, col: 14, offset: 12207},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 393, col: 13, offset: 12138},
+												pos:   position{line: 395, col: 13, offset: 12239},
 												label: "attribute",
 												expr: &choiceExpr{
-													pos: position{line: 393, col: 24, offset: 12149},
+													pos: position{line: 395, col: 24, offset: 12250},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 393, col: 24, offset: 12149},
+															pos:  position{line: 395, col: 24, offset: 12250},
 															name: "PositionalAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 393, col: 46, offset: 12171},
+															pos:  position{line: 395, col: 46, offset: 12272},
 															name: "NamedAttribute",
 														},
 													},
@@ -13032,7 +13032,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 398, col: 5, offset: 12254},
+							pos:        position{line: 400, col: 5, offset: 12355},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -13043,62 +13043,62 @@ var g = &grammar{
 		},
 		{
 			name: "LongHandAttributes",
-			pos:  position{line: 438, col: 1, offset: 13539},
+			pos:  position{line: 440, col: 1, offset: 13640},
 			expr: &actionExpr{
-				pos: position{line: 439, col: 5, offset: 13565},
+				pos: position{line: 441, col: 5, offset: 13666},
 				run: (*parser).callonLongHandAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 439, col: 5, offset: 13565},
+					pos: position{line: 441, col: 5, offset: 13666},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 439, col: 5, offset: 13565},
+							pos: position{line: 441, col: 5, offset: 13666},
 							expr: &litMatcher{
-								pos:        position{line: 439, col: 6, offset: 13566},
+								pos:        position{line: 441, col: 6, offset: 13667},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 439, col: 10, offset: 13570},
+							pos:        position{line: 441, col: 10, offset: 13671},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&notExpr{
-							pos: position{line: 439, col: 14, offset: 13574},
+							pos: position{line: 441, col: 14, offset: 13675},
 							expr: &litMatcher{
-								pos:        position{line: 439, col: 15, offset: 13575},
+								pos:        position{line: 441, col: 15, offset: 13676},
 								val:        "[",
 								ignoreCase: false,
 								want:       "\"[\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 440, col: 5, offset: 13688},
+							pos:   position{line: 442, col: 5, offset: 13789},
 							label: "firstPositionalAttributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 440, col: 31, offset: 13714},
+								pos: position{line: 442, col: 31, offset: 13815},
 								expr: &ruleRefExpr{
-									pos:  position{line: 440, col: 32, offset: 13715},
+									pos:  position{line: 442, col: 32, offset: 13816},
 									name: "FirstPositionalAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 441, col: 5, offset: 13747},
+							pos:   position{line: 443, col: 5, offset: 13848},
 							label: "otherAttributes",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 441, col: 21, offset: 13763},
+								pos: position{line: 443, col: 21, offset: 13864},
 								expr: &choiceExpr{
-									pos: position{line: 441, col: 22, offset: 13764},
+									pos: position{line: 443, col: 22, offset: 13865},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 441, col: 22, offset: 13764},
+											pos:  position{line: 443, col: 22, offset: 13865},
 											name: "PositionalAttribute",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 441, col: 44, offset: 13786},
+											pos:  position{line: 443, col: 44, offset: 13887},
 											name: "NamedAttribute",
 										},
 									},
@@ -13106,7 +13106,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 442, col: 5, offset: 13807},
+							pos:        position{line: 444, col: 5, offset: 13908},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -13117,69 +13117,69 @@ var g = &grammar{
 		},
 		{
 			name: "FirstPositionalAttributes",
-			pos:  position{line: 455, col: 1, offset: 14335},
+			pos:  position{line: 457, col: 1, offset: 14436},
 			expr: &actionExpr{
-				pos: position{line: 456, col: 5, offset: 14369},
+				pos: position{line: 458, col: 5, offset: 14470},
 				run: (*parser).callonFirstPositionalAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 456, col: 5, offset: 14369},
+					pos: position{line: 458, col: 5, offset: 14470},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 456, col: 5, offset: 14369},
+							pos:   position{line: 458, col: 5, offset: 14470},
 							label: "main",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 456, col: 10, offset: 14374},
+								pos: position{line: 458, col: 10, offset: 14475},
 								expr: &ruleRefExpr{
-									pos:  position{line: 457, col: 9, offset: 14384},
+									pos:  position{line: 459, col: 9, offset: 14485},
 									name: "ShortHandAttribute",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 459, col: 5, offset: 14414},
+							pos:   position{line: 461, col: 5, offset: 14515},
 							label: "extras",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 459, col: 12, offset: 14421},
+								pos: position{line: 461, col: 12, offset: 14522},
 								expr: &actionExpr{
-									pos: position{line: 460, col: 9, offset: 14432},
+									pos: position{line: 462, col: 9, offset: 14533},
 									run: (*parser).callonFirstPositionalAttributes8,
 									expr: &seqExpr{
-										pos: position{line: 460, col: 9, offset: 14432},
+										pos: position{line: 462, col: 9, offset: 14533},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 460, col: 9, offset: 14432},
+												pos: position{line: 462, col: 9, offset: 14533},
 												expr: &litMatcher{
-													pos:        position{line: 460, col: 10, offset: 14433},
+													pos:        position{line: 462, col: 10, offset: 14534},
 													val:        ",",
 													ignoreCase: false,
 													want:       "\",\"",
 												},
 											},
 											&notExpr{
-												pos: position{line: 460, col: 14, offset: 14437},
+												pos: position{line: 462, col: 14, offset: 14538},
 												expr: &litMatcher{
-													pos:        position{line: 460, col: 15, offset: 14438},
+													pos:        position{line: 462, col: 15, offset: 14539},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 461, col: 9, offset: 14450},
+												pos:   position{line: 463, col: 9, offset: 14551},
 												label: "extra",
 												expr: &choiceExpr{
-													pos: position{line: 462, col: 13, offset: 14470},
+													pos: position{line: 464, col: 13, offset: 14571},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 462, col: 13, offset: 14470},
+															pos:  position{line: 464, col: 13, offset: 14571},
 															name: "ShortHandIDAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 463, col: 15, offset: 14506},
+															pos:  position{line: 465, col: 15, offset: 14607},
 															name: "ShortHandOptionAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 464, col: 15, offset: 14545},
+															pos:  position{line: 466, col: 15, offset: 14646},
 															name: "ShortHandDotRoleAttribute",
 														},
 													},
@@ -13191,23 +13191,23 @@ var g = &grammar{
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 467, col: 8, offset: 14621},
+							pos: position{line: 469, col: 8, offset: 14722},
 							expr: &seqExpr{
-								pos: position{line: 467, col: 9, offset: 14622},
+								pos: position{line: 469, col: 9, offset: 14723},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 467, col: 9, offset: 14622},
+										pos:        position{line: 469, col: 9, offset: 14723},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 467, col: 13, offset: 14626},
+										pos: position{line: 469, col: 13, offset: 14727},
 										expr: &actionExpr{
-											pos: position{line: 2910, col: 10, offset: 91824},
+											pos: position{line: 2912, col: 10, offset: 91925},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2910, col: 10, offset: 91824},
+												pos:        position{line: 2912, col: 10, offset: 91925},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13219,7 +13219,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 468, col: 5, offset: 14640},
+							pos: position{line: 470, col: 5, offset: 14741},
 							run: (*parser).callonFirstPositionalAttributes25,
 						},
 					},
@@ -13228,24 +13228,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandIDAttribute",
-			pos:  position{line: 484, col: 1, offset: 15056},
+			pos:  position{line: 486, col: 1, offset: 15157},
 			expr: &actionExpr{
-				pos: position{line: 484, col: 25, offset: 15080},
+				pos: position{line: 486, col: 25, offset: 15181},
 				run: (*parser).callonShortHandIDAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 484, col: 25, offset: 15080},
+					pos: position{line: 486, col: 25, offset: 15181},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 484, col: 25, offset: 15080},
+							pos:        position{line: 486, col: 25, offset: 15181},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 484, col: 29, offset: 15084},
+							pos:   position{line: 486, col: 29, offset: 15185},
 							label: "id",
 							expr: &ruleRefExpr{
-								pos:  position{line: 484, col: 33, offset: 15088},
+								pos:  position{line: 486, col: 33, offset: 15189},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -13255,15 +13255,15 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttribute",
-			pos:  position{line: 488, col: 1, offset: 15162},
+			pos:  position{line: 490, col: 1, offset: 15263},
 			expr: &actionExpr{
-				pos: position{line: 488, col: 23, offset: 15184},
+				pos: position{line: 490, col: 23, offset: 15285},
 				run: (*parser).callonShortHandAttribute1,
 				expr: &labeledExpr{
-					pos:   position{line: 488, col: 23, offset: 15184},
+					pos:   position{line: 490, col: 23, offset: 15285},
 					label: "value",
 					expr: &ruleRefExpr{
-						pos:  position{line: 488, col: 30, offset: 15191},
+						pos:  position{line: 490, col: 30, offset: 15292},
 						name: "ShortHandAttributeValue",
 					},
 				},
@@ -13271,24 +13271,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandDotRoleAttribute",
-			pos:  position{line: 493, col: 1, offset: 15317},
+			pos:  position{line: 495, col: 1, offset: 15418},
 			expr: &actionExpr{
-				pos: position{line: 493, col: 30, offset: 15346},
+				pos: position{line: 495, col: 30, offset: 15447},
 				run: (*parser).callonShortHandDotRoleAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 493, col: 30, offset: 15346},
+					pos: position{line: 495, col: 30, offset: 15447},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 493, col: 30, offset: 15346},
+							pos:        position{line: 495, col: 30, offset: 15447},
 							val:        ".",
 							ignoreCase: false,
 							want:       "\".\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 493, col: 34, offset: 15350},
+							pos:   position{line: 495, col: 34, offset: 15451},
 							label: "role",
 							expr: &ruleRefExpr{
-								pos:  position{line: 493, col: 40, offset: 15356},
+								pos:  position{line: 495, col: 40, offset: 15457},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -13298,24 +13298,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandOptionAttribute",
-			pos:  position{line: 498, col: 1, offset: 15478},
+			pos:  position{line: 500, col: 1, offset: 15579},
 			expr: &actionExpr{
-				pos: position{line: 498, col: 29, offset: 15506},
+				pos: position{line: 500, col: 29, offset: 15607},
 				run: (*parser).callonShortHandOptionAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 498, col: 29, offset: 15506},
+					pos: position{line: 500, col: 29, offset: 15607},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 498, col: 29, offset: 15506},
+							pos:        position{line: 500, col: 29, offset: 15607},
 							val:        "%",
 							ignoreCase: false,
 							want:       "\"%\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 498, col: 33, offset: 15510},
+							pos:   position{line: 500, col: 33, offset: 15611},
 							label: "option",
 							expr: &ruleRefExpr{
-								pos:  position{line: 498, col: 41, offset: 15518},
+								pos:  position{line: 500, col: 41, offset: 15619},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -13325,43 +13325,43 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttributeValue",
-			pos:  position{line: 503, col: 1, offset: 15631},
+			pos:  position{line: 505, col: 1, offset: 15732},
 			expr: &choiceExpr{
-				pos: position{line: 504, col: 5, offset: 15663},
+				pos: position{line: 506, col: 5, offset: 15764},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 504, col: 5, offset: 15663},
+						pos:  position{line: 506, col: 5, offset: 15764},
 						name: "SingleQuotedAttributeValue",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 505, col: 7, offset: 15697},
+						pos:  position{line: 507, col: 7, offset: 15798},
 						name: "DoubleQuotedAttributeValue",
 					},
 					&actionExpr{
-						pos: position{line: 506, col: 7, offset: 15731},
+						pos: position{line: 508, col: 7, offset: 15832},
 						run: (*parser).callonShortHandAttributeValue4,
 						expr: &seqExpr{
-							pos: position{line: 506, col: 7, offset: 15731},
+							pos: position{line: 508, col: 7, offset: 15832},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 506, col: 7, offset: 15731},
+									pos:   position{line: 508, col: 7, offset: 15832},
 									label: "elements",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 506, col: 16, offset: 15740},
+										pos: position{line: 508, col: 16, offset: 15841},
 										expr: &choiceExpr{
-											pos: position{line: 509, col: 9, offset: 15922},
+											pos: position{line: 511, col: 9, offset: 16023},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 509, col: 9, offset: 15922},
+													pos:  position{line: 511, col: 9, offset: 16023},
 													name: "QuotationMark",
 												},
 												&actionExpr{
-													pos: position{line: 510, col: 12, offset: 15948},
+													pos: position{line: 512, col: 12, offset: 16049},
 													run: (*parser).callonShortHandAttributeValue10,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 510, col: 12, offset: 15948},
+														pos: position{line: 512, col: 12, offset: 16049},
 														expr: &charClassMatcher{
-															pos:        position{line: 510, col: 12, offset: 15948},
+															pos:        position{line: 512, col: 12, offset: 16049},
 															val:        "[^,=.%# \\r\\n�{]]",
 															chars:      []rune{',', '=', '.', '%', '#', ' ', '\r', '\n', '�', '{', ']'},
 															ignoreCase: false,
@@ -13370,44 +13370,44 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 637, col: 5, offset: 20204},
+													pos: position{line: 639, col: 5, offset: 20305},
 													run: (*parser).callonShortHandAttributeValue13,
 													expr: &seqExpr{
-														pos: position{line: 637, col: 5, offset: 20204},
+														pos: position{line: 639, col: 5, offset: 20305},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 637, col: 5, offset: 20204},
+																pos: position{line: 639, col: 5, offset: 20305},
 																run: (*parser).callonShortHandAttributeValue15,
 															},
 															&labeledExpr{
-																pos:   position{line: 640, col: 5, offset: 20276},
+																pos:   position{line: 642, col: 5, offset: 20377},
 																label: "element",
 																expr: &choiceExpr{
-																	pos: position{line: 640, col: 14, offset: 20285},
+																	pos: position{line: 642, col: 14, offset: 20386},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 646, col: 5, offset: 20414},
+																			pos: position{line: 648, col: 5, offset: 20515},
 																			run: (*parser).callonShortHandAttributeValue18,
 																			expr: &seqExpr{
-																				pos: position{line: 646, col: 5, offset: 20414},
+																				pos: position{line: 648, col: 5, offset: 20515},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 646, col: 5, offset: 20414},
+																						pos:        position{line: 648, col: 5, offset: 20515},
 																						val:        "\\{",
 																						ignoreCase: false,
 																						want:       "\"\\\\{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 646, col: 13, offset: 20422},
+																						pos:   position{line: 648, col: 13, offset: 20523},
 																						label: "name",
 																						expr: &actionExpr{
-																							pos: position{line: 318, col: 18, offset: 9736},
+																							pos: position{line: 320, col: 18, offset: 9837},
 																							run: (*parser).callonShortHandAttributeValue22,
 																							expr: &seqExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 320, col: 18, offset: 9837},
 																								exprs: []interface{}{
 																									&charClassMatcher{
-																										pos:        position{line: 318, col: 18, offset: 9736},
+																										pos:        position{line: 320, col: 18, offset: 9837},
 																										val:        "[_\\pL\\pN]",
 																										chars:      []rune{'_'},
 																										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13415,9 +13415,9 @@ var g = &grammar{
 																										inverted:   false,
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 318, col: 28, offset: 9746},
+																										pos: position{line: 320, col: 28, offset: 9847},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 318, col: 29, offset: 9747},
+																											pos:        position{line: 320, col: 29, offset: 9848},
 																											val:        "[-\\pL\\pN]",
 																											chars:      []rune{'-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13430,7 +13430,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 646, col: 32, offset: 20441},
+																						pos:        position{line: 648, col: 32, offset: 20542},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13439,28 +13439,28 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 653, col: 5, offset: 20682},
+																			pos: position{line: 655, col: 5, offset: 20783},
 																			run: (*parser).callonShortHandAttributeValue28,
 																			expr: &seqExpr{
-																				pos: position{line: 653, col: 5, offset: 20682},
+																				pos: position{line: 655, col: 5, offset: 20783},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 653, col: 5, offset: 20682},
+																						pos:        position{line: 655, col: 5, offset: 20783},
 																						val:        "{",
 																						ignoreCase: false,
 																						want:       "\"{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 653, col: 9, offset: 20686},
+																						pos:   position{line: 655, col: 9, offset: 20787},
 																						label: "name",
 																						expr: &actionExpr{
-																							pos: position{line: 318, col: 18, offset: 9736},
+																							pos: position{line: 320, col: 18, offset: 9837},
 																							run: (*parser).callonShortHandAttributeValue32,
 																							expr: &seqExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 320, col: 18, offset: 9837},
 																								exprs: []interface{}{
 																									&charClassMatcher{
-																										pos:        position{line: 318, col: 18, offset: 9736},
+																										pos:        position{line: 320, col: 18, offset: 9837},
 																										val:        "[_\\pL\\pN]",
 																										chars:      []rune{'_'},
 																										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13468,9 +13468,9 @@ var g = &grammar{
 																										inverted:   false,
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 318, col: 28, offset: 9746},
+																										pos: position{line: 320, col: 28, offset: 9847},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 318, col: 29, offset: 9747},
+																											pos:        position{line: 320, col: 29, offset: 9848},
 																											val:        "[-\\pL\\pN]",
 																											chars:      []rune{'-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13483,7 +13483,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 653, col: 28, offset: 20705},
+																						pos:        position{line: 655, col: 28, offset: 20806},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13492,28 +13492,28 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 659, col: 25, offset: 20886},
+																			pos: position{line: 661, col: 25, offset: 20987},
 																			run: (*parser).callonShortHandAttributeValue38,
 																			expr: &seqExpr{
-																				pos: position{line: 659, col: 25, offset: 20886},
+																				pos: position{line: 661, col: 25, offset: 20987},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 659, col: 25, offset: 20886},
+																						pos:        position{line: 661, col: 25, offset: 20987},
 																						val:        "{counter:",
 																						ignoreCase: false,
 																						want:       "\"{counter:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 659, col: 37, offset: 20898},
+																						pos:   position{line: 661, col: 37, offset: 20999},
 																						label: "name",
 																						expr: &actionExpr{
-																							pos: position{line: 318, col: 18, offset: 9736},
+																							pos: position{line: 320, col: 18, offset: 9837},
 																							run: (*parser).callonShortHandAttributeValue42,
 																							expr: &seqExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 320, col: 18, offset: 9837},
 																								exprs: []interface{}{
 																									&charClassMatcher{
-																										pos:        position{line: 318, col: 18, offset: 9736},
+																										pos:        position{line: 320, col: 18, offset: 9837},
 																										val:        "[_\\pL\\pN]",
 																										chars:      []rune{'_'},
 																										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13521,9 +13521,9 @@ var g = &grammar{
 																										inverted:   false,
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 318, col: 28, offset: 9746},
+																										pos: position{line: 320, col: 28, offset: 9847},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 318, col: 29, offset: 9747},
+																											pos:        position{line: 320, col: 29, offset: 9848},
 																											val:        "[-\\pL\\pN]",
 																											chars:      []rune{'-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13536,33 +13536,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 659, col: 56, offset: 20917},
+																						pos:   position{line: 661, col: 56, offset: 21018},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 659, col: 62, offset: 20923},
+																							pos: position{line: 661, col: 62, offset: 21024},
 																							expr: &actionExpr{
-																								pos: position{line: 667, col: 17, offset: 21220},
+																								pos: position{line: 669, col: 17, offset: 21321},
 																								run: (*parser).callonShortHandAttributeValue49,
 																								expr: &seqExpr{
-																									pos: position{line: 667, col: 17, offset: 21220},
+																									pos: position{line: 669, col: 17, offset: 21321},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 667, col: 17, offset: 21220},
+																											pos:        position{line: 669, col: 17, offset: 21321},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 667, col: 21, offset: 21224},
+																											pos:   position{line: 669, col: 21, offset: 21325},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 667, col: 28, offset: 21231},
+																												pos: position{line: 669, col: 28, offset: 21332},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 667, col: 28, offset: 21231},
+																														pos: position{line: 669, col: 28, offset: 21332},
 																														run: (*parser).callonShortHandAttributeValue54,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 667, col: 28, offset: 21231},
+																															pos:        position{line: 669, col: 28, offset: 21332},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13570,12 +13570,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 669, col: 9, offset: 21285},
+																														pos: position{line: 671, col: 9, offset: 21386},
 																														run: (*parser).callonShortHandAttributeValue56,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 669, col: 9, offset: 21285},
+																															pos: position{line: 671, col: 9, offset: 21386},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 669, col: 9, offset: 21285},
+																																pos:        position{line: 671, col: 9, offset: 21386},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13592,7 +13592,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 659, col: 78, offset: 20939},
+																						pos:        position{line: 661, col: 78, offset: 21040},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13601,28 +13601,28 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 663, col: 25, offset: 21057},
+																			pos: position{line: 665, col: 25, offset: 21158},
 																			run: (*parser).callonShortHandAttributeValue60,
 																			expr: &seqExpr{
-																				pos: position{line: 663, col: 25, offset: 21057},
+																				pos: position{line: 665, col: 25, offset: 21158},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 663, col: 25, offset: 21057},
+																						pos:        position{line: 665, col: 25, offset: 21158},
 																						val:        "{counter2:",
 																						ignoreCase: false,
 																						want:       "\"{counter2:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 663, col: 38, offset: 21070},
+																						pos:   position{line: 665, col: 38, offset: 21171},
 																						label: "name",
 																						expr: &actionExpr{
-																							pos: position{line: 318, col: 18, offset: 9736},
+																							pos: position{line: 320, col: 18, offset: 9837},
 																							run: (*parser).callonShortHandAttributeValue64,
 																							expr: &seqExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 320, col: 18, offset: 9837},
 																								exprs: []interface{}{
 																									&charClassMatcher{
-																										pos:        position{line: 318, col: 18, offset: 9736},
+																										pos:        position{line: 320, col: 18, offset: 9837},
 																										val:        "[_\\pL\\pN]",
 																										chars:      []rune{'_'},
 																										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13630,9 +13630,9 @@ var g = &grammar{
 																										inverted:   false,
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 318, col: 28, offset: 9746},
+																										pos: position{line: 320, col: 28, offset: 9847},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 318, col: 29, offset: 9747},
+																											pos:        position{line: 320, col: 29, offset: 9848},
 																											val:        "[-\\pL\\pN]",
 																											chars:      []rune{'-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13645,33 +13645,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 663, col: 57, offset: 21089},
+																						pos:   position{line: 665, col: 57, offset: 21190},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 663, col: 63, offset: 21095},
+																							pos: position{line: 665, col: 63, offset: 21196},
 																							expr: &actionExpr{
-																								pos: position{line: 667, col: 17, offset: 21220},
+																								pos: position{line: 669, col: 17, offset: 21321},
 																								run: (*parser).callonShortHandAttributeValue71,
 																								expr: &seqExpr{
-																									pos: position{line: 667, col: 17, offset: 21220},
+																									pos: position{line: 669, col: 17, offset: 21321},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 667, col: 17, offset: 21220},
+																											pos:        position{line: 669, col: 17, offset: 21321},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 667, col: 21, offset: 21224},
+																											pos:   position{line: 669, col: 21, offset: 21325},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 667, col: 28, offset: 21231},
+																												pos: position{line: 669, col: 28, offset: 21332},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 667, col: 28, offset: 21231},
+																														pos: position{line: 669, col: 28, offset: 21332},
 																														run: (*parser).callonShortHandAttributeValue76,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 667, col: 28, offset: 21231},
+																															pos:        position{line: 669, col: 28, offset: 21332},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13679,12 +13679,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 669, col: 9, offset: 21285},
+																														pos: position{line: 671, col: 9, offset: 21386},
 																														run: (*parser).callonShortHandAttributeValue78,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 669, col: 9, offset: 21285},
+																															pos: position{line: 671, col: 9, offset: 21386},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 669, col: 9, offset: 21285},
+																																pos:        position{line: 671, col: 9, offset: 21386},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13701,7 +13701,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 663, col: 79, offset: 21111},
+																						pos:        position{line: 665, col: 79, offset: 21212},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13716,10 +13716,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 515, col: 12, offset: 16116},
+													pos: position{line: 517, col: 12, offset: 16217},
 													run: (*parser).callonShortHandAttributeValue82,
 													expr: &litMatcher{
-														pos:        position{line: 515, col: 12, offset: 16116},
+														pos:        position{line: 517, col: 12, offset: 16217},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -13730,19 +13730,19 @@ var g = &grammar{
 									},
 								},
 								&andExpr{
-									pos: position{line: 519, col: 5, offset: 16204},
+									pos: position{line: 521, col: 5, offset: 16305},
 									expr: &notExpr{
-										pos: position{line: 519, col: 7, offset: 16206},
+										pos: position{line: 521, col: 7, offset: 16307},
 										expr: &seqExpr{
-											pos: position{line: 519, col: 9, offset: 16208},
+											pos: position{line: 521, col: 9, offset: 16309},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 519, col: 9, offset: 16208},
+													pos: position{line: 521, col: 9, offset: 16309},
 													expr: &actionExpr{
-														pos: position{line: 2910, col: 10, offset: 91824},
+														pos: position{line: 2912, col: 10, offset: 91925},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2910, col: 10, offset: 91824},
+															pos:        position{line: 2912, col: 10, offset: 91925},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13751,7 +13751,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 519, col: 16, offset: 16215},
+													pos:        position{line: 521, col: 16, offset: 16316},
 													val:        "=",
 													ignoreCase: false,
 													want:       "\"=\"",
@@ -13768,45 +13768,45 @@ var g = &grammar{
 		},
 		{
 			name: "PositionalAttribute",
-			pos:  position{line: 524, col: 1, offset: 16293},
+			pos:  position{line: 526, col: 1, offset: 16394},
 			expr: &choiceExpr{
-				pos: position{line: 524, col: 24, offset: 16316},
+				pos: position{line: 526, col: 24, offset: 16417},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 525, col: 5, offset: 16322},
+						pos: position{line: 527, col: 5, offset: 16423},
 						run: (*parser).callonPositionalAttribute2,
 						expr: &seqExpr{
-							pos: position{line: 525, col: 5, offset: 16322},
+							pos: position{line: 527, col: 5, offset: 16423},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 525, col: 5, offset: 16322},
+									pos:   position{line: 527, col: 5, offset: 16423},
 									label: "value",
 									expr: &ruleRefExpr{
-										pos:  position{line: 525, col: 12, offset: 16329},
+										pos:  position{line: 527, col: 12, offset: 16430},
 										name: "AttributeValue",
 									},
 								},
 								&choiceExpr{
-									pos: position{line: 525, col: 29, offset: 16346},
+									pos: position{line: 527, col: 29, offset: 16447},
 									alternatives: []interface{}{
 										&zeroOrOneExpr{
-											pos: position{line: 525, col: 29, offset: 16346},
+											pos: position{line: 527, col: 29, offset: 16447},
 											expr: &seqExpr{
-												pos: position{line: 525, col: 30, offset: 16347},
+												pos: position{line: 527, col: 30, offset: 16448},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 525, col: 30, offset: 16347},
+														pos:        position{line: 527, col: 30, offset: 16448},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 525, col: 34, offset: 16351},
+														pos: position{line: 527, col: 34, offset: 16452},
 														expr: &actionExpr{
-															pos: position{line: 2910, col: 10, offset: 91824},
+															pos: position{line: 2912, col: 10, offset: 91925},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2910, col: 10, offset: 91824},
+																pos:        position{line: 2912, col: 10, offset: 91925},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13818,9 +13818,9 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 525, col: 45, offset: 16362},
+											pos: position{line: 527, col: 45, offset: 16463},
 											expr: &litMatcher{
-												pos:        position{line: 525, col: 46, offset: 16363},
+												pos:        position{line: 527, col: 46, offset: 16464},
 												val:        "]",
 												ignoreCase: false,
 												want:       "\"]\"",
@@ -13832,24 +13832,24 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 530, col: 6, offset: 16508},
+						pos: position{line: 532, col: 6, offset: 16609},
 						run: (*parser).callonPositionalAttribute15,
 						expr: &seqExpr{
-							pos: position{line: 530, col: 6, offset: 16508},
+							pos: position{line: 532, col: 6, offset: 16609},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 530, col: 6, offset: 16508},
+									pos:   position{line: 532, col: 6, offset: 16609},
 									label: "value",
 									expr: &seqExpr{
-										pos: position{line: 530, col: 13, offset: 16515},
+										pos: position{line: 532, col: 13, offset: 16616},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 530, col: 13, offset: 16515},
+												pos: position{line: 532, col: 13, offset: 16616},
 												expr: &actionExpr{
-													pos: position{line: 2910, col: 10, offset: 91824},
+													pos: position{line: 2912, col: 10, offset: 91925},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2910, col: 10, offset: 91824},
+														pos:        position{line: 2912, col: 10, offset: 91925},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13858,24 +13858,24 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 530, col: 21, offset: 16523},
+												pos: position{line: 532, col: 21, offset: 16624},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 530, col: 22, offset: 16524},
+														pos: position{line: 532, col: 22, offset: 16625},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 530, col: 22, offset: 16524},
+																pos:        position{line: 532, col: 22, offset: 16625},
 																val:        ",",
 																ignoreCase: false,
 																want:       "\",\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 530, col: 26, offset: 16528},
+																pos: position{line: 532, col: 26, offset: 16629},
 																expr: &actionExpr{
-																	pos: position{line: 2910, col: 10, offset: 91824},
+																	pos: position{line: 2912, col: 10, offset: 91925},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2910, col: 10, offset: 91824},
+																		pos:        position{line: 2912, col: 10, offset: 91925},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13886,9 +13886,9 @@ var g = &grammar{
 														},
 													},
 													&andExpr{
-														pos: position{line: 530, col: 36, offset: 16538},
+														pos: position{line: 532, col: 36, offset: 16639},
 														expr: &litMatcher{
-															pos:        position{line: 530, col: 37, offset: 16539},
+															pos:        position{line: 532, col: 37, offset: 16640},
 															val:        "]",
 															ignoreCase: false,
 															want:       "\"]\"",
@@ -13900,7 +13900,7 @@ var g = &grammar{
 									},
 								},
 								&andCodeExpr{
-									pos: position{line: 531, col: 5, offset: 16549},
+									pos: position{line: 533, col: 5, offset: 16650},
 									run: (*parser).callonPositionalAttribute30,
 								},
 							},
@@ -13911,29 +13911,29 @@ var g = &grammar{
 		},
 		{
 			name: "NamedAttribute",
-			pos:  position{line: 541, col: 1, offset: 16864},
+			pos:  position{line: 543, col: 1, offset: 16965},
 			expr: &actionExpr{
-				pos: position{line: 542, col: 5, offset: 16887},
+				pos: position{line: 544, col: 5, offset: 16988},
 				run: (*parser).callonNamedAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 542, col: 5, offset: 16887},
+					pos: position{line: 544, col: 5, offset: 16988},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 542, col: 5, offset: 16887},
+							pos:   position{line: 544, col: 5, offset: 16988},
 							label: "key",
 							expr: &actionExpr{
-								pos: position{line: 550, col: 22, offset: 17175},
+								pos: position{line: 552, col: 22, offset: 17276},
 								run: (*parser).callonNamedAttribute4,
 								expr: &seqExpr{
-									pos: position{line: 550, col: 22, offset: 17175},
+									pos: position{line: 552, col: 22, offset: 17276},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 550, col: 22, offset: 17175},
+											pos: position{line: 552, col: 22, offset: 17276},
 											expr: &actionExpr{
-												pos: position{line: 2910, col: 10, offset: 91824},
+												pos: position{line: 2912, col: 10, offset: 91925},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2910, col: 10, offset: 91824},
+													pos:        position{line: 2912, col: 10, offset: 91925},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13942,9 +13942,9 @@ var g = &grammar{
 											},
 										},
 										&oneOrMoreExpr{
-											pos: position{line: 550, col: 29, offset: 17182},
+											pos: position{line: 552, col: 29, offset: 17283},
 											expr: &charClassMatcher{
-												pos:        position{line: 550, col: 29, offset: 17182},
+												pos:        position{line: 552, col: 29, offset: 17283},
 												val:        "[^\\r\\n=,]]",
 												chars:      []rune{'\r', '\n', '=', ',', ']'},
 												ignoreCase: false,
@@ -13956,18 +13956,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 543, col: 5, offset: 16916},
+							pos:        position{line: 545, col: 5, offset: 17017},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 543, col: 9, offset: 16920},
+							pos: position{line: 545, col: 9, offset: 17021},
 							expr: &actionExpr{
-								pos: position{line: 2910, col: 10, offset: 91824},
+								pos: position{line: 2912, col: 10, offset: 91925},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2910, col: 10, offset: 91824},
+									pos:        position{line: 2912, col: 10, offset: 91925},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13976,31 +13976,31 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 544, col: 5, offset: 16932},
+							pos:   position{line: 546, col: 5, offset: 17033},
 							label: "value",
 							expr: &ruleRefExpr{
-								pos:  position{line: 544, col: 12, offset: 16939},
+								pos:  position{line: 546, col: 12, offset: 17040},
 								name: "AttributeValue",
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 544, col: 28, offset: 16955},
+							pos: position{line: 546, col: 28, offset: 17056},
 							expr: &seqExpr{
-								pos: position{line: 544, col: 29, offset: 16956},
+								pos: position{line: 546, col: 29, offset: 17057},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 544, col: 29, offset: 16956},
+										pos:        position{line: 546, col: 29, offset: 17057},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 544, col: 33, offset: 16960},
+										pos: position{line: 546, col: 33, offset: 17061},
 										expr: &actionExpr{
-											pos: position{line: 2910, col: 10, offset: 91824},
+											pos: position{line: 2912, col: 10, offset: 91925},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2910, col: 10, offset: 91824},
+												pos:        position{line: 2912, col: 10, offset: 91925},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14017,48 +14017,48 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeValue",
-			pos:  position{line: 554, col: 1, offset: 17239},
+			pos:  position{line: 556, col: 1, offset: 17340},
 			expr: &actionExpr{
-				pos: position{line: 555, col: 5, offset: 17262},
+				pos: position{line: 557, col: 5, offset: 17363},
 				run: (*parser).callonAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 555, col: 5, offset: 17262},
+					pos: position{line: 557, col: 5, offset: 17363},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 555, col: 5, offset: 17262},
+							pos:   position{line: 557, col: 5, offset: 17363},
 							label: "value",
 							expr: &choiceExpr{
-								pos: position{line: 556, col: 9, offset: 17278},
+								pos: position{line: 558, col: 9, offset: 17379},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 556, col: 9, offset: 17278},
+										pos:  position{line: 558, col: 9, offset: 17379},
 										name: "SingleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 557, col: 11, offset: 17316},
+										pos:  position{line: 559, col: 11, offset: 17417},
 										name: "DoubleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 558, col: 11, offset: 17354},
+										pos:  position{line: 560, col: 11, offset: 17455},
 										name: "UnquotedAttributeValue",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 560, col: 5, offset: 17388},
+							pos: position{line: 562, col: 5, offset: 17489},
 							expr: &notExpr{
-								pos: position{line: 560, col: 7, offset: 17390},
+								pos: position{line: 562, col: 7, offset: 17491},
 								expr: &seqExpr{
-									pos: position{line: 560, col: 9, offset: 17392},
+									pos: position{line: 562, col: 9, offset: 17493},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 560, col: 9, offset: 17392},
+											pos: position{line: 562, col: 9, offset: 17493},
 											expr: &actionExpr{
-												pos: position{line: 2910, col: 10, offset: 91824},
+												pos: position{line: 2912, col: 10, offset: 91925},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2910, col: 10, offset: 91824},
+													pos:        position{line: 2912, col: 10, offset: 91925},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14067,7 +14067,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 560, col: 16, offset: 17399},
+											pos:        position{line: 562, col: 16, offset: 17500},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -14082,38 +14082,38 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValue",
-			pos:  position{line: 564, col: 1, offset: 17440},
+			pos:  position{line: 566, col: 1, offset: 17541},
 			expr: &actionExpr{
-				pos: position{line: 565, col: 5, offset: 17475},
+				pos: position{line: 567, col: 5, offset: 17576},
 				run: (*parser).callonSingleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 565, col: 5, offset: 17475},
+					pos: position{line: 567, col: 5, offset: 17576},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 565, col: 5, offset: 17475},
+							pos:        position{line: 567, col: 5, offset: 17576},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
 						},
 						&notExpr{
-							pos: position{line: 565, col: 9, offset: 17479},
+							pos: position{line: 567, col: 9, offset: 17580},
 							expr: &litMatcher{
-								pos:        position{line: 565, col: 10, offset: 17480},
+								pos:        position{line: 567, col: 10, offset: 17581},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 566, col: 5, offset: 17559},
+							pos:   position{line: 568, col: 5, offset: 17660},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 566, col: 14, offset: 17568},
+								pos:  position{line: 568, col: 14, offset: 17669},
 								name: "SingleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 567, col: 5, offset: 17607},
+							pos:        position{line: 569, col: 5, offset: 17708},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
@@ -14124,25 +14124,25 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValueContent",
-			pos:  position{line: 571, col: 1, offset: 17648},
+			pos:  position{line: 573, col: 1, offset: 17749},
 			expr: &actionExpr{
-				pos: position{line: 572, col: 5, offset: 17690},
+				pos: position{line: 574, col: 5, offset: 17791},
 				run: (*parser).callonSingleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 572, col: 5, offset: 17690},
+					pos:   position{line: 574, col: 5, offset: 17791},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 572, col: 14, offset: 17699},
+						pos: position{line: 574, col: 14, offset: 17800},
 						expr: &choiceExpr{
-							pos: position{line: 573, col: 9, offset: 17709},
+							pos: position{line: 575, col: 9, offset: 17810},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2804, col: 14, offset: 88993},
+									pos: position{line: 2806, col: 14, offset: 89094},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2804, col: 14, offset: 88993},
+										pos: position{line: 2806, col: 14, offset: 89094},
 										expr: &charClassMatcher{
-											pos:        position{line: 2804, col: 14, offset: 88993},
+											pos:        position{line: 2806, col: 14, offset: 89094},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14151,10 +14151,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2910, col: 10, offset: 91824},
+									pos: position{line: 2912, col: 10, offset: 91925},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2910, col: 10, offset: 91824},
+										pos:        position{line: 2912, col: 10, offset: 91925},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14162,48 +14162,48 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 575, col: 11, offset: 17745},
+									pos:  position{line: 577, col: 11, offset: 17846},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 637, col: 5, offset: 20204},
+									pos: position{line: 639, col: 5, offset: 20305},
 									run: (*parser).callonSingleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 637, col: 5, offset: 20204},
+										pos: position{line: 639, col: 5, offset: 20305},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 637, col: 5, offset: 20204},
+												pos: position{line: 639, col: 5, offset: 20305},
 												run: (*parser).callonSingleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 640, col: 5, offset: 20276},
+												pos:   position{line: 642, col: 5, offset: 20377},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 640, col: 14, offset: 20285},
+													pos: position{line: 642, col: 14, offset: 20386},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 646, col: 5, offset: 20414},
+															pos: position{line: 648, col: 5, offset: 20515},
 															run: (*parser).callonSingleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 646, col: 5, offset: 20414},
+																pos: position{line: 648, col: 5, offset: 20515},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 646, col: 5, offset: 20414},
+																		pos:        position{line: 648, col: 5, offset: 20515},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 646, col: 13, offset: 20422},
+																		pos:   position{line: 648, col: 13, offset: 20523},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 320, col: 18, offset: 9837},
 																			run: (*parser).callonSingleQuotedAttributeValueContent20,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 320, col: 18, offset: 9837},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 320, col: 18, offset: 9837},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14211,9 +14211,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 320, col: 28, offset: 9847},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 320, col: 29, offset: 9848},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14226,7 +14226,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 646, col: 32, offset: 20441},
+																		pos:        position{line: 648, col: 32, offset: 20542},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14235,28 +14235,28 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 653, col: 5, offset: 20682},
+															pos: position{line: 655, col: 5, offset: 20783},
 															run: (*parser).callonSingleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 653, col: 5, offset: 20682},
+																pos: position{line: 655, col: 5, offset: 20783},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 653, col: 5, offset: 20682},
+																		pos:        position{line: 655, col: 5, offset: 20783},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 653, col: 9, offset: 20686},
+																		pos:   position{line: 655, col: 9, offset: 20787},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 320, col: 18, offset: 9837},
 																			run: (*parser).callonSingleQuotedAttributeValueContent30,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 320, col: 18, offset: 9837},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 320, col: 18, offset: 9837},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14264,9 +14264,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 320, col: 28, offset: 9847},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 320, col: 29, offset: 9848},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14279,7 +14279,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 653, col: 28, offset: 20705},
+																		pos:        position{line: 655, col: 28, offset: 20806},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14288,28 +14288,28 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 659, col: 25, offset: 20886},
+															pos: position{line: 661, col: 25, offset: 20987},
 															run: (*parser).callonSingleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 659, col: 25, offset: 20886},
+																pos: position{line: 661, col: 25, offset: 20987},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 659, col: 25, offset: 20886},
+																		pos:        position{line: 661, col: 25, offset: 20987},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 659, col: 37, offset: 20898},
+																		pos:   position{line: 661, col: 37, offset: 20999},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 320, col: 18, offset: 9837},
 																			run: (*parser).callonSingleQuotedAttributeValueContent40,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 320, col: 18, offset: 9837},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 320, col: 18, offset: 9837},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14317,9 +14317,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 320, col: 28, offset: 9847},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 320, col: 29, offset: 9848},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14332,33 +14332,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 659, col: 56, offset: 20917},
+																		pos:   position{line: 661, col: 56, offset: 21018},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 659, col: 62, offset: 20923},
+																			pos: position{line: 661, col: 62, offset: 21024},
 																			expr: &actionExpr{
-																				pos: position{line: 667, col: 17, offset: 21220},
+																				pos: position{line: 669, col: 17, offset: 21321},
 																				run: (*parser).callonSingleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 667, col: 17, offset: 21220},
+																					pos: position{line: 669, col: 17, offset: 21321},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 667, col: 17, offset: 21220},
+																							pos:        position{line: 669, col: 17, offset: 21321},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 667, col: 21, offset: 21224},
+																							pos:   position{line: 669, col: 21, offset: 21325},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 667, col: 28, offset: 21231},
+																								pos: position{line: 669, col: 28, offset: 21332},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 667, col: 28, offset: 21231},
+																										pos: position{line: 669, col: 28, offset: 21332},
 																										run: (*parser).callonSingleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 667, col: 28, offset: 21231},
+																											pos:        position{line: 669, col: 28, offset: 21332},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14366,12 +14366,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 669, col: 9, offset: 21285},
+																										pos: position{line: 671, col: 9, offset: 21386},
 																										run: (*parser).callonSingleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 669, col: 9, offset: 21285},
+																											pos: position{line: 671, col: 9, offset: 21386},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 669, col: 9, offset: 21285},
+																												pos:        position{line: 671, col: 9, offset: 21386},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14388,7 +14388,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 659, col: 78, offset: 20939},
+																		pos:        position{line: 661, col: 78, offset: 21040},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14397,28 +14397,28 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 663, col: 25, offset: 21057},
+															pos: position{line: 665, col: 25, offset: 21158},
 															run: (*parser).callonSingleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 663, col: 25, offset: 21057},
+																pos: position{line: 665, col: 25, offset: 21158},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 663, col: 25, offset: 21057},
+																		pos:        position{line: 665, col: 25, offset: 21158},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 663, col: 38, offset: 21070},
+																		pos:   position{line: 665, col: 38, offset: 21171},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 320, col: 18, offset: 9837},
 																			run: (*parser).callonSingleQuotedAttributeValueContent62,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 320, col: 18, offset: 9837},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 320, col: 18, offset: 9837},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14426,9 +14426,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 320, col: 28, offset: 9847},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 320, col: 29, offset: 9848},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14441,33 +14441,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 663, col: 57, offset: 21089},
+																		pos:   position{line: 665, col: 57, offset: 21190},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 663, col: 63, offset: 21095},
+																			pos: position{line: 665, col: 63, offset: 21196},
 																			expr: &actionExpr{
-																				pos: position{line: 667, col: 17, offset: 21220},
+																				pos: position{line: 669, col: 17, offset: 21321},
 																				run: (*parser).callonSingleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 667, col: 17, offset: 21220},
+																					pos: position{line: 669, col: 17, offset: 21321},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 667, col: 17, offset: 21220},
+																							pos:        position{line: 669, col: 17, offset: 21321},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 667, col: 21, offset: 21224},
+																							pos:   position{line: 669, col: 21, offset: 21325},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 667, col: 28, offset: 21231},
+																								pos: position{line: 669, col: 28, offset: 21332},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 667, col: 28, offset: 21231},
+																										pos: position{line: 669, col: 28, offset: 21332},
 																										run: (*parser).callonSingleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 667, col: 28, offset: 21231},
+																											pos:        position{line: 669, col: 28, offset: 21332},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14475,12 +14475,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 669, col: 9, offset: 21285},
+																										pos: position{line: 671, col: 9, offset: 21386},
 																										run: (*parser).callonSingleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 669, col: 9, offset: 21285},
+																											pos: position{line: 671, col: 9, offset: 21386},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 669, col: 9, offset: 21285},
+																												pos:        position{line: 671, col: 9, offset: 21386},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14497,7 +14497,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 663, col: 79, offset: 21111},
+																		pos:        position{line: 665, col: 79, offset: 21212},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14512,44 +14512,44 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 577, col: 12, offset: 17799},
+									pos: position{line: 579, col: 12, offset: 17900},
 									run: (*parser).callonSingleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 577, col: 12, offset: 17799},
+										pos:        position{line: 579, col: 12, offset: 17900},
 										val:        "\\'",
 										ignoreCase: false,
 										want:       "\"\\\\'\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 580, col: 13, offset: 17901},
+									pos:        position{line: 582, col: 13, offset: 18002},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 580, col: 20, offset: 17908},
+									pos:        position{line: 582, col: 20, offset: 18009},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&actionExpr{
-									pos: position{line: 580, col: 27, offset: 17915},
+									pos: position{line: 582, col: 27, offset: 18016},
 									run: (*parser).callonSingleQuotedAttributeValueContent84,
 									expr: &litMatcher{
-										pos:        position{line: 580, col: 27, offset: 17915},
+										pos:        position{line: 582, col: 27, offset: 18016},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 583, col: 12, offset: 18075},
+									pos: position{line: 585, col: 12, offset: 18176},
 									run: (*parser).callonSingleQuotedAttributeValueContent86,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 583, col: 12, offset: 18075},
+										pos: position{line: 585, col: 12, offset: 18176},
 										expr: &charClassMatcher{
-											pos:        position{line: 583, col: 12, offset: 18075},
+											pos:        position{line: 585, col: 12, offset: 18176},
 											val:        "[^\\r\\n\\\\\\ ]",
 											chars:      []rune{'\r', '\n', '\\', '\'', ' '},
 											ignoreCase: false,
@@ -14565,56 +14565,56 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValue",
-			pos:  position{line: 590, col: 1, offset: 18272},
+			pos:  position{line: 592, col: 1, offset: 18373},
 			expr: &actionExpr{
-				pos: position{line: 591, col: 5, offset: 18307},
+				pos: position{line: 593, col: 5, offset: 18408},
 				run: (*parser).callonDoubleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 591, col: 5, offset: 18307},
+					pos: position{line: 593, col: 5, offset: 18408},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 591, col: 5, offset: 18307},
+							pos:        position{line: 593, col: 5, offset: 18408},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&notExpr{
-							pos: position{line: 591, col: 10, offset: 18312},
+							pos: position{line: 593, col: 10, offset: 18413},
 							expr: &litMatcher{
-								pos:        position{line: 591, col: 11, offset: 18313},
+								pos:        position{line: 593, col: 11, offset: 18414},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 592, col: 5, offset: 18392},
+							pos:   position{line: 594, col: 5, offset: 18493},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 592, col: 14, offset: 18401},
+								pos:  position{line: 594, col: 14, offset: 18502},
 								name: "DoubleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 593, col: 5, offset: 18440},
+							pos:        position{line: 595, col: 5, offset: 18541},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&andExpr{
-							pos: position{line: 593, col: 10, offset: 18445},
+							pos: position{line: 595, col: 10, offset: 18546},
 							expr: &notExpr{
-								pos: position{line: 593, col: 12, offset: 18447},
+								pos: position{line: 595, col: 12, offset: 18548},
 								expr: &seqExpr{
-									pos: position{line: 593, col: 14, offset: 18449},
+									pos: position{line: 595, col: 14, offset: 18550},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 593, col: 14, offset: 18449},
+											pos: position{line: 595, col: 14, offset: 18550},
 											expr: &actionExpr{
-												pos: position{line: 2910, col: 10, offset: 91824},
+												pos: position{line: 2912, col: 10, offset: 91925},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2910, col: 10, offset: 91824},
+													pos:        position{line: 2912, col: 10, offset: 91925},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14623,7 +14623,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 593, col: 21, offset: 18456},
+											pos:        position{line: 595, col: 21, offset: 18557},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -14638,25 +14638,25 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValueContent",
-			pos:  position{line: 597, col: 1, offset: 18499},
+			pos:  position{line: 599, col: 1, offset: 18600},
 			expr: &actionExpr{
-				pos: position{line: 598, col: 5, offset: 18541},
+				pos: position{line: 600, col: 5, offset: 18642},
 				run: (*parser).callonDoubleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 598, col: 5, offset: 18541},
+					pos:   position{line: 600, col: 5, offset: 18642},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 598, col: 14, offset: 18550},
+						pos: position{line: 600, col: 14, offset: 18651},
 						expr: &choiceExpr{
-							pos: position{line: 599, col: 9, offset: 18560},
+							pos: position{line: 601, col: 9, offset: 18661},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2804, col: 14, offset: 88993},
+									pos: position{line: 2806, col: 14, offset: 89094},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2804, col: 14, offset: 88993},
+										pos: position{line: 2806, col: 14, offset: 89094},
 										expr: &charClassMatcher{
-											pos:        position{line: 2804, col: 14, offset: 88993},
+											pos:        position{line: 2806, col: 14, offset: 89094},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14665,10 +14665,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2910, col: 10, offset: 91824},
+									pos: position{line: 2912, col: 10, offset: 91925},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2910, col: 10, offset: 91824},
+										pos:        position{line: 2912, col: 10, offset: 91925},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14676,48 +14676,48 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 601, col: 11, offset: 18596},
+									pos:  position{line: 603, col: 11, offset: 18697},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 637, col: 5, offset: 20204},
+									pos: position{line: 639, col: 5, offset: 20305},
 									run: (*parser).callonDoubleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 637, col: 5, offset: 20204},
+										pos: position{line: 639, col: 5, offset: 20305},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 637, col: 5, offset: 20204},
+												pos: position{line: 639, col: 5, offset: 20305},
 												run: (*parser).callonDoubleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 640, col: 5, offset: 20276},
+												pos:   position{line: 642, col: 5, offset: 20377},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 640, col: 14, offset: 20285},
+													pos: position{line: 642, col: 14, offset: 20386},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 646, col: 5, offset: 20414},
+															pos: position{line: 648, col: 5, offset: 20515},
 															run: (*parser).callonDoubleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 646, col: 5, offset: 20414},
+																pos: position{line: 648, col: 5, offset: 20515},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 646, col: 5, offset: 20414},
+																		pos:        position{line: 648, col: 5, offset: 20515},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 646, col: 13, offset: 20422},
+																		pos:   position{line: 648, col: 13, offset: 20523},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 320, col: 18, offset: 9837},
 																			run: (*parser).callonDoubleQuotedAttributeValueContent20,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 320, col: 18, offset: 9837},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 320, col: 18, offset: 9837},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14725,9 +14725,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 320, col: 28, offset: 9847},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 320, col: 29, offset: 9848},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14740,7 +14740,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 646, col: 32, offset: 20441},
+																		pos:        position{line: 648, col: 32, offset: 20542},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14749,28 +14749,28 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 653, col: 5, offset: 20682},
+															pos: position{line: 655, col: 5, offset: 20783},
 															run: (*parser).callonDoubleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 653, col: 5, offset: 20682},
+																pos: position{line: 655, col: 5, offset: 20783},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 653, col: 5, offset: 20682},
+																		pos:        position{line: 655, col: 5, offset: 20783},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 653, col: 9, offset: 20686},
+																		pos:   position{line: 655, col: 9, offset: 20787},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 320, col: 18, offset: 9837},
 																			run: (*parser).callonDoubleQuotedAttributeValueContent30,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 320, col: 18, offset: 9837},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 320, col: 18, offset: 9837},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14778,9 +14778,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 320, col: 28, offset: 9847},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 320, col: 29, offset: 9848},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14793,7 +14793,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 653, col: 28, offset: 20705},
+																		pos:        position{line: 655, col: 28, offset: 20806},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14802,28 +14802,28 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 659, col: 25, offset: 20886},
+															pos: position{line: 661, col: 25, offset: 20987},
 															run: (*parser).callonDoubleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 659, col: 25, offset: 20886},
+																pos: position{line: 661, col: 25, offset: 20987},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 659, col: 25, offset: 20886},
+																		pos:        position{line: 661, col: 25, offset: 20987},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 659, col: 37, offset: 20898},
+																		pos:   position{line: 661, col: 37, offset: 20999},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 320, col: 18, offset: 9837},
 																			run: (*parser).callonDoubleQuotedAttributeValueContent40,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 320, col: 18, offset: 9837},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 320, col: 18, offset: 9837},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14831,9 +14831,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 320, col: 28, offset: 9847},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 320, col: 29, offset: 9848},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14846,33 +14846,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 659, col: 56, offset: 20917},
+																		pos:   position{line: 661, col: 56, offset: 21018},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 659, col: 62, offset: 20923},
+																			pos: position{line: 661, col: 62, offset: 21024},
 																			expr: &actionExpr{
-																				pos: position{line: 667, col: 17, offset: 21220},
+																				pos: position{line: 669, col: 17, offset: 21321},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 667, col: 17, offset: 21220},
+																					pos: position{line: 669, col: 17, offset: 21321},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 667, col: 17, offset: 21220},
+																							pos:        position{line: 669, col: 17, offset: 21321},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 667, col: 21, offset: 21224},
+																							pos:   position{line: 669, col: 21, offset: 21325},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 667, col: 28, offset: 21231},
+																								pos: position{line: 669, col: 28, offset: 21332},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 667, col: 28, offset: 21231},
+																										pos: position{line: 669, col: 28, offset: 21332},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 667, col: 28, offset: 21231},
+																											pos:        position{line: 669, col: 28, offset: 21332},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14880,12 +14880,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 669, col: 9, offset: 21285},
+																										pos: position{line: 671, col: 9, offset: 21386},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 669, col: 9, offset: 21285},
+																											pos: position{line: 671, col: 9, offset: 21386},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 669, col: 9, offset: 21285},
+																												pos:        position{line: 671, col: 9, offset: 21386},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14902,7 +14902,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 659, col: 78, offset: 20939},
+																		pos:        position{line: 661, col: 78, offset: 21040},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14911,28 +14911,28 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 663, col: 25, offset: 21057},
+															pos: position{line: 665, col: 25, offset: 21158},
 															run: (*parser).callonDoubleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 663, col: 25, offset: 21057},
+																pos: position{line: 665, col: 25, offset: 21158},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 663, col: 25, offset: 21057},
+																		pos:        position{line: 665, col: 25, offset: 21158},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 663, col: 38, offset: 21070},
+																		pos:   position{line: 665, col: 38, offset: 21171},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 320, col: 18, offset: 9837},
 																			run: (*parser).callonDoubleQuotedAttributeValueContent62,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 320, col: 18, offset: 9837},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 320, col: 18, offset: 9837},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14940,9 +14940,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 320, col: 28, offset: 9847},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 320, col: 29, offset: 9848},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14955,33 +14955,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 663, col: 57, offset: 21089},
+																		pos:   position{line: 665, col: 57, offset: 21190},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 663, col: 63, offset: 21095},
+																			pos: position{line: 665, col: 63, offset: 21196},
 																			expr: &actionExpr{
-																				pos: position{line: 667, col: 17, offset: 21220},
+																				pos: position{line: 669, col: 17, offset: 21321},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 667, col: 17, offset: 21220},
+																					pos: position{line: 669, col: 17, offset: 21321},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 667, col: 17, offset: 21220},
+																							pos:        position{line: 669, col: 17, offset: 21321},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 667, col: 21, offset: 21224},
+																							pos:   position{line: 669, col: 21, offset: 21325},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 667, col: 28, offset: 21231},
+																								pos: position{line: 669, col: 28, offset: 21332},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 667, col: 28, offset: 21231},
+																										pos: position{line: 669, col: 28, offset: 21332},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 667, col: 28, offset: 21231},
+																											pos:        position{line: 669, col: 28, offset: 21332},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14989,12 +14989,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 669, col: 9, offset: 21285},
+																										pos: position{line: 671, col: 9, offset: 21386},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 669, col: 9, offset: 21285},
+																											pos: position{line: 671, col: 9, offset: 21386},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 669, col: 9, offset: 21285},
+																												pos:        position{line: 671, col: 9, offset: 21386},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -15011,7 +15011,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 663, col: 79, offset: 21111},
+																		pos:        position{line: 665, col: 79, offset: 21212},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -15026,50 +15026,50 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 603, col: 12, offset: 18651},
+									pos: position{line: 605, col: 12, offset: 18752},
 									run: (*parser).callonDoubleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 603, col: 12, offset: 18651},
+										pos:        position{line: 605, col: 12, offset: 18752},
 										val:        "\\\"",
 										ignoreCase: false,
 										want:       "\"\\\\\\\"\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 606, col: 13, offset: 18753},
+									pos:        position{line: 608, col: 13, offset: 18854},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 606, col: 21, offset: 18761},
+									pos:        position{line: 608, col: 21, offset: 18862},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&litMatcher{
-									pos:        position{line: 606, col: 29, offset: 18769},
+									pos:        position{line: 608, col: 29, offset: 18870},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&actionExpr{
-									pos: position{line: 606, col: 35, offset: 18775},
+									pos: position{line: 608, col: 35, offset: 18876},
 									run: (*parser).callonDoubleQuotedAttributeValueContent85,
 									expr: &litMatcher{
-										pos:        position{line: 606, col: 35, offset: 18775},
+										pos:        position{line: 608, col: 35, offset: 18876},
 										val:        "`",
 										ignoreCase: false,
 										want:       "\"`\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 609, col: 12, offset: 18958},
+									pos: position{line: 611, col: 12, offset: 19059},
 									run: (*parser).callonDoubleQuotedAttributeValueContent87,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 609, col: 12, offset: 18958},
+										pos: position{line: 611, col: 12, offset: 19059},
 										expr: &charClassMatcher{
-											pos:        position{line: 609, col: 12, offset: 18958},
+											pos:        position{line: 611, col: 12, offset: 19059},
 											val:        "[^\\r\\n\\\\\"` ]",
 											chars:      []rune{'\r', '\n', '\\', '"', '`', ' '},
 											ignoreCase: false,
@@ -15085,20 +15085,20 @@ var g = &grammar{
 		},
 		{
 			name: "UnquotedAttributeValue",
-			pos:  position{line: 617, col: 1, offset: 19232},
+			pos:  position{line: 619, col: 1, offset: 19333},
 			expr: &actionExpr{
-				pos: position{line: 620, col: 5, offset: 19416},
+				pos: position{line: 622, col: 5, offset: 19517},
 				run: (*parser).callonUnquotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 620, col: 5, offset: 19416},
+					pos: position{line: 622, col: 5, offset: 19517},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 620, col: 5, offset: 19416},
+							pos: position{line: 622, col: 5, offset: 19517},
 							expr: &actionExpr{
-								pos: position{line: 2910, col: 10, offset: 91824},
+								pos: position{line: 2912, col: 10, offset: 91925},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2910, col: 10, offset: 91824},
+									pos:        position{line: 2912, col: 10, offset: 91925},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15107,28 +15107,28 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 621, col: 5, offset: 19485},
+							pos:   position{line: 623, col: 5, offset: 19586},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 621, col: 14, offset: 19494},
+								pos: position{line: 623, col: 14, offset: 19595},
 								expr: &choiceExpr{
-									pos: position{line: 622, col: 9, offset: 19504},
+									pos: position{line: 624, col: 9, offset: 19605},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 622, col: 10, offset: 19505},
+											pos: position{line: 624, col: 10, offset: 19606},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 622, col: 10, offset: 19505},
+													pos:        position{line: 624, col: 10, offset: 19606},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
 												},
 												&ruleRefExpr{
-													pos:  position{line: 622, col: 14, offset: 19509},
+													pos:  position{line: 624, col: 14, offset: 19610},
 													name: "UnquotedAttributeValue",
 												},
 												&litMatcher{
-													pos:        position{line: 622, col: 37, offset: 19532},
+													pos:        position{line: 624, col: 37, offset: 19633},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
@@ -15136,44 +15136,44 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 637, col: 5, offset: 20204},
+											pos: position{line: 639, col: 5, offset: 20305},
 											run: (*parser).callonUnquotedAttributeValue13,
 											expr: &seqExpr{
-												pos: position{line: 637, col: 5, offset: 20204},
+												pos: position{line: 639, col: 5, offset: 20305},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 637, col: 5, offset: 20204},
+														pos: position{line: 639, col: 5, offset: 20305},
 														run: (*parser).callonUnquotedAttributeValue15,
 													},
 													&labeledExpr{
-														pos:   position{line: 640, col: 5, offset: 20276},
+														pos:   position{line: 642, col: 5, offset: 20377},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 640, col: 14, offset: 20285},
+															pos: position{line: 642, col: 14, offset: 20386},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 646, col: 5, offset: 20414},
+																	pos: position{line: 648, col: 5, offset: 20515},
 																	run: (*parser).callonUnquotedAttributeValue18,
 																	expr: &seqExpr{
-																		pos: position{line: 646, col: 5, offset: 20414},
+																		pos: position{line: 648, col: 5, offset: 20515},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 646, col: 5, offset: 20414},
+																				pos:        position{line: 648, col: 5, offset: 20515},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 646, col: 13, offset: 20422},
+																				pos:   position{line: 648, col: 13, offset: 20523},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 320, col: 18, offset: 9837},
 																					run: (*parser).callonUnquotedAttributeValue22,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 320, col: 18, offset: 9837},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 320, col: 18, offset: 9837},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15181,9 +15181,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 320, col: 28, offset: 9847},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 320, col: 29, offset: 9848},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15196,7 +15196,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 646, col: 32, offset: 20441},
+																				pos:        position{line: 648, col: 32, offset: 20542},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15205,28 +15205,28 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 653, col: 5, offset: 20682},
+																	pos: position{line: 655, col: 5, offset: 20783},
 																	run: (*parser).callonUnquotedAttributeValue28,
 																	expr: &seqExpr{
-																		pos: position{line: 653, col: 5, offset: 20682},
+																		pos: position{line: 655, col: 5, offset: 20783},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 653, col: 5, offset: 20682},
+																				pos:        position{line: 655, col: 5, offset: 20783},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 653, col: 9, offset: 20686},
+																				pos:   position{line: 655, col: 9, offset: 20787},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 320, col: 18, offset: 9837},
 																					run: (*parser).callonUnquotedAttributeValue32,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 320, col: 18, offset: 9837},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 320, col: 18, offset: 9837},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15234,9 +15234,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 320, col: 28, offset: 9847},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 320, col: 29, offset: 9848},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15249,7 +15249,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 653, col: 28, offset: 20705},
+																				pos:        position{line: 655, col: 28, offset: 20806},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15258,28 +15258,28 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 659, col: 25, offset: 20886},
+																	pos: position{line: 661, col: 25, offset: 20987},
 																	run: (*parser).callonUnquotedAttributeValue38,
 																	expr: &seqExpr{
-																		pos: position{line: 659, col: 25, offset: 20886},
+																		pos: position{line: 661, col: 25, offset: 20987},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 659, col: 25, offset: 20886},
+																				pos:        position{line: 661, col: 25, offset: 20987},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 659, col: 37, offset: 20898},
+																				pos:   position{line: 661, col: 37, offset: 20999},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 320, col: 18, offset: 9837},
 																					run: (*parser).callonUnquotedAttributeValue42,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 320, col: 18, offset: 9837},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 320, col: 18, offset: 9837},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15287,9 +15287,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 320, col: 28, offset: 9847},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 320, col: 29, offset: 9848},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15302,33 +15302,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 659, col: 56, offset: 20917},
+																				pos:   position{line: 661, col: 56, offset: 21018},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 659, col: 62, offset: 20923},
+																					pos: position{line: 661, col: 62, offset: 21024},
 																					expr: &actionExpr{
-																						pos: position{line: 667, col: 17, offset: 21220},
+																						pos: position{line: 669, col: 17, offset: 21321},
 																						run: (*parser).callonUnquotedAttributeValue49,
 																						expr: &seqExpr{
-																							pos: position{line: 667, col: 17, offset: 21220},
+																							pos: position{line: 669, col: 17, offset: 21321},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 667, col: 17, offset: 21220},
+																									pos:        position{line: 669, col: 17, offset: 21321},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 667, col: 21, offset: 21224},
+																									pos:   position{line: 669, col: 21, offset: 21325},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 667, col: 28, offset: 21231},
+																										pos: position{line: 669, col: 28, offset: 21332},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 667, col: 28, offset: 21231},
+																												pos: position{line: 669, col: 28, offset: 21332},
 																												run: (*parser).callonUnquotedAttributeValue54,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 667, col: 28, offset: 21231},
+																													pos:        position{line: 669, col: 28, offset: 21332},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15336,12 +15336,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 669, col: 9, offset: 21285},
+																												pos: position{line: 671, col: 9, offset: 21386},
 																												run: (*parser).callonUnquotedAttributeValue56,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 669, col: 9, offset: 21285},
+																													pos: position{line: 671, col: 9, offset: 21386},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 669, col: 9, offset: 21285},
+																														pos:        position{line: 671, col: 9, offset: 21386},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15358,7 +15358,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 659, col: 78, offset: 20939},
+																				pos:        position{line: 661, col: 78, offset: 21040},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15367,28 +15367,28 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 663, col: 25, offset: 21057},
+																	pos: position{line: 665, col: 25, offset: 21158},
 																	run: (*parser).callonUnquotedAttributeValue60,
 																	expr: &seqExpr{
-																		pos: position{line: 663, col: 25, offset: 21057},
+																		pos: position{line: 665, col: 25, offset: 21158},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 663, col: 25, offset: 21057},
+																				pos:        position{line: 665, col: 25, offset: 21158},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 663, col: 38, offset: 21070},
+																				pos:   position{line: 665, col: 38, offset: 21171},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 320, col: 18, offset: 9837},
 																					run: (*parser).callonUnquotedAttributeValue64,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 320, col: 18, offset: 9837},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 320, col: 18, offset: 9837},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15396,9 +15396,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 320, col: 28, offset: 9847},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 320, col: 29, offset: 9848},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15411,33 +15411,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 663, col: 57, offset: 21089},
+																				pos:   position{line: 665, col: 57, offset: 21190},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 663, col: 63, offset: 21095},
+																					pos: position{line: 665, col: 63, offset: 21196},
 																					expr: &actionExpr{
-																						pos: position{line: 667, col: 17, offset: 21220},
+																						pos: position{line: 669, col: 17, offset: 21321},
 																						run: (*parser).callonUnquotedAttributeValue71,
 																						expr: &seqExpr{
-																							pos: position{line: 667, col: 17, offset: 21220},
+																							pos: position{line: 669, col: 17, offset: 21321},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 667, col: 17, offset: 21220},
+																									pos:        position{line: 669, col: 17, offset: 21321},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 667, col: 21, offset: 21224},
+																									pos:   position{line: 669, col: 21, offset: 21325},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 667, col: 28, offset: 21231},
+																										pos: position{line: 669, col: 28, offset: 21332},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 667, col: 28, offset: 21231},
+																												pos: position{line: 669, col: 28, offset: 21332},
 																												run: (*parser).callonUnquotedAttributeValue76,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 667, col: 28, offset: 21231},
+																													pos:        position{line: 669, col: 28, offset: 21332},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15445,12 +15445,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 669, col: 9, offset: 21285},
+																												pos: position{line: 671, col: 9, offset: 21386},
 																												run: (*parser).callonUnquotedAttributeValue78,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 669, col: 9, offset: 21285},
+																													pos: position{line: 671, col: 9, offset: 21386},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 669, col: 9, offset: 21285},
+																														pos:        position{line: 671, col: 9, offset: 21386},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15467,7 +15467,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 663, col: 79, offset: 21111},
+																				pos:        position{line: 665, col: 79, offset: 21212},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15482,16 +15482,16 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 623, col: 32, offset: 19619},
+											pos:        position{line: 625, col: 32, offset: 19720},
 											val:        "{",
 											ignoreCase: false,
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2910, col: 10, offset: 91824},
+											pos: position{line: 2912, col: 10, offset: 91925},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2910, col: 10, offset: 91824},
+												pos:        position{line: 2912, col: 10, offset: 91925},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15499,12 +15499,12 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 625, col: 12, offset: 19704},
+											pos: position{line: 627, col: 12, offset: 19805},
 											run: (*parser).callonUnquotedAttributeValue85,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 625, col: 12, offset: 19704},
+												pos: position{line: 627, col: 12, offset: 19805},
 												expr: &charClassMatcher{
-													pos:        position{line: 625, col: 12, offset: 19704},
+													pos:        position{line: 627, col: 12, offset: 19805},
 													val:        "[^=,]{ ]",
 													chars:      []rune{'=', ',', ']', '{', ' '},
 													ignoreCase: false,
@@ -15522,32 +15522,32 @@ var g = &grammar{
 		},
 		{
 			name: "CrossReference",
-			pos:  position{line: 685, col: 1, offset: 21847},
+			pos:  position{line: 687, col: 1, offset: 21948},
 			expr: &choiceExpr{
-				pos: position{line: 685, col: 19, offset: 21865},
+				pos: position{line: 687, col: 19, offset: 21966},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 687, col: 27, offset: 21941},
+						pos: position{line: 689, col: 27, offset: 22042},
 						run: (*parser).callonCrossReference2,
 						expr: &seqExpr{
-							pos: position{line: 687, col: 27, offset: 21941},
+							pos: position{line: 689, col: 27, offset: 22042},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 687, col: 27, offset: 21941},
+									pos:        position{line: 689, col: 27, offset: 22042},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 687, col: 32, offset: 21946},
+									pos:   position{line: 689, col: 32, offset: 22047},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2895, col: 7, offset: 91476},
+										pos: position{line: 2897, col: 7, offset: 91577},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2895, col: 7, offset: 91476},
+											pos: position{line: 2897, col: 7, offset: 91577},
 											expr: &charClassMatcher{
-												pos:        position{line: 2895, col: 7, offset: 91476},
+												pos:        position{line: 2897, col: 7, offset: 91577},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15557,12 +15557,12 @@ var g = &grammar{
 									},
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 687, col: 40, offset: 21954},
+									pos: position{line: 689, col: 40, offset: 22055},
 									expr: &actionExpr{
-										pos: position{line: 2910, col: 10, offset: 91824},
+										pos: position{line: 2912, col: 10, offset: 91925},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2910, col: 10, offset: 91824},
+											pos:        position{line: 2912, col: 10, offset: 91925},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15571,36 +15571,36 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 687, col: 47, offset: 21961},
+									pos:        position{line: 689, col: 47, offset: 22062},
 									val:        ",",
 									ignoreCase: false,
 									want:       "\",\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 687, col: 51, offset: 21965},
+									pos:   position{line: 689, col: 51, offset: 22066},
 									label: "label",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 697, col: 24, offset: 22366},
+										pos: position{line: 699, col: 24, offset: 22467},
 										expr: &choiceExpr{
-											pos: position{line: 698, col: 5, offset: 22372},
+											pos: position{line: 700, col: 5, offset: 22473},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 698, col: 6, offset: 22373},
+													pos: position{line: 700, col: 6, offset: 22474},
 													run: (*parser).callonCrossReference16,
 													expr: &seqExpr{
-														pos: position{line: 698, col: 6, offset: 22373},
+														pos: position{line: 700, col: 6, offset: 22474},
 														exprs: []interface{}{
 															&charClassMatcher{
-																pos:        position{line: 698, col: 6, offset: 22373},
+																pos:        position{line: 700, col: 6, offset: 22474},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
 																inverted:   false,
 															},
 															&oneOrMoreExpr{
-																pos: position{line: 698, col: 14, offset: 22381},
+																pos: position{line: 700, col: 14, offset: 22482},
 																expr: &charClassMatcher{
-																	pos:        position{line: 698, col: 14, offset: 22381},
+																	pos:        position{line: 700, col: 14, offset: 22482},
 																	val:        "[^\\r\\n{<>]",
 																	chars:      []rune{'\r', '\n', '{', '<', '>'},
 																	ignoreCase: false,
@@ -15611,28 +15611,28 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 646, col: 5, offset: 20414},
+													pos: position{line: 648, col: 5, offset: 20515},
 													run: (*parser).callonCrossReference21,
 													expr: &seqExpr{
-														pos: position{line: 646, col: 5, offset: 20414},
+														pos: position{line: 648, col: 5, offset: 20515},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 646, col: 5, offset: 20414},
+																pos:        position{line: 648, col: 5, offset: 20515},
 																val:        "\\{",
 																ignoreCase: false,
 																want:       "\"\\\\{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 646, col: 13, offset: 20422},
+																pos:   position{line: 648, col: 13, offset: 20523},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
+																	pos: position{line: 320, col: 18, offset: 9837},
 																	run: (*parser).callonCrossReference25,
 																	expr: &seqExpr{
-																		pos: position{line: 318, col: 18, offset: 9736},
+																		pos: position{line: 320, col: 18, offset: 9837},
 																		exprs: []interface{}{
 																			&charClassMatcher{
-																				pos:        position{line: 318, col: 18, offset: 9736},
+																				pos:        position{line: 320, col: 18, offset: 9837},
 																				val:        "[_\\pL\\pN]",
 																				chars:      []rune{'_'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15640,9 +15640,9 @@ var g = &grammar{
 																				inverted:   false,
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 318, col: 28, offset: 9746},
+																				pos: position{line: 320, col: 28, offset: 9847},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 318, col: 29, offset: 9747},
+																					pos:        position{line: 320, col: 29, offset: 9848},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15655,7 +15655,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 646, col: 32, offset: 20441},
+																pos:        position{line: 648, col: 32, offset: 20542},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15664,28 +15664,28 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 653, col: 5, offset: 20682},
+													pos: position{line: 655, col: 5, offset: 20783},
 													run: (*parser).callonCrossReference31,
 													expr: &seqExpr{
-														pos: position{line: 653, col: 5, offset: 20682},
+														pos: position{line: 655, col: 5, offset: 20783},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 653, col: 5, offset: 20682},
+																pos:        position{line: 655, col: 5, offset: 20783},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 653, col: 9, offset: 20686},
+																pos:   position{line: 655, col: 9, offset: 20787},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
+																	pos: position{line: 320, col: 18, offset: 9837},
 																	run: (*parser).callonCrossReference35,
 																	expr: &seqExpr{
-																		pos: position{line: 318, col: 18, offset: 9736},
+																		pos: position{line: 320, col: 18, offset: 9837},
 																		exprs: []interface{}{
 																			&charClassMatcher{
-																				pos:        position{line: 318, col: 18, offset: 9736},
+																				pos:        position{line: 320, col: 18, offset: 9837},
 																				val:        "[_\\pL\\pN]",
 																				chars:      []rune{'_'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15693,9 +15693,9 @@ var g = &grammar{
 																				inverted:   false,
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 318, col: 28, offset: 9746},
+																				pos: position{line: 320, col: 28, offset: 9847},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 318, col: 29, offset: 9747},
+																					pos:        position{line: 320, col: 29, offset: 9848},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15708,7 +15708,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 653, col: 28, offset: 20705},
+																pos:        position{line: 655, col: 28, offset: 20806},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15717,10 +15717,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 702, col: 8, offset: 22607},
+													pos: position{line: 704, col: 8, offset: 22708},
 													run: (*parser).callonCrossReference41,
 													expr: &litMatcher{
-														pos:        position{line: 702, col: 8, offset: 22607},
+														pos:        position{line: 704, col: 8, offset: 22708},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -15731,7 +15731,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 687, col: 79, offset: 21993},
+									pos:        position{line: 689, col: 79, offset: 22094},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15740,27 +15740,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 689, col: 9, offset: 22066},
+						pos: position{line: 691, col: 9, offset: 22167},
 						run: (*parser).callonCrossReference44,
 						expr: &seqExpr{
-							pos: position{line: 689, col: 9, offset: 22066},
+							pos: position{line: 691, col: 9, offset: 22167},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 689, col: 9, offset: 22066},
+									pos:        position{line: 691, col: 9, offset: 22167},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 689, col: 14, offset: 22071},
+									pos:   position{line: 691, col: 14, offset: 22172},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2895, col: 7, offset: 91476},
+										pos: position{line: 2897, col: 7, offset: 91577},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2895, col: 7, offset: 91476},
+											pos: position{line: 2897, col: 7, offset: 91577},
 											expr: &charClassMatcher{
-												pos:        position{line: 2895, col: 7, offset: 91476},
+												pos:        position{line: 2897, col: 7, offset: 91577},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15770,7 +15770,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 689, col: 22, offset: 22079},
+									pos:        position{line: 691, col: 22, offset: 22180},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15779,7 +15779,7 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 685, col: 44, offset: 21890},
+						pos:  position{line: 687, col: 44, offset: 21991},
 						name: "ExternalCrossReference",
 					},
 				},
@@ -15787,58 +15787,58 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalCrossReference",
-			pos:  position{line: 693, col: 1, offset: 22150},
+			pos:  position{line: 695, col: 1, offset: 22251},
 			expr: &actionExpr{
-				pos: position{line: 693, col: 27, offset: 22176},
+				pos: position{line: 695, col: 27, offset: 22277},
 				run: (*parser).callonExternalCrossReference1,
 				expr: &seqExpr{
-					pos: position{line: 693, col: 27, offset: 22176},
+					pos: position{line: 695, col: 27, offset: 22277},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 693, col: 27, offset: 22176},
+							pos:        position{line: 695, col: 27, offset: 22277},
 							val:        "xref:",
 							ignoreCase: false,
 							want:       "\"xref:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 693, col: 35, offset: 22184},
+							pos:   position{line: 695, col: 35, offset: 22285},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 17, offset: 90487},
+								pos: position{line: 2866, col: 17, offset: 90588},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2864, col: 17, offset: 90487},
+									pos:   position{line: 2866, col: 17, offset: 90588},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2881, col: 5, offset: 90941},
+										pos: position{line: 2883, col: 5, offset: 91042},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2881, col: 5, offset: 90941},
+											pos:   position{line: 2883, col: 5, offset: 91042},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2881, col: 14, offset: 90950},
+												pos: position{line: 2883, col: 14, offset: 91051},
 												expr: &choiceExpr{
-													pos: position{line: 2882, col: 9, offset: 90960},
+													pos: position{line: 2884, col: 9, offset: 91061},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 9, offset: 90960},
+															pos: position{line: 2884, col: 9, offset: 91061},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2882, col: 9, offset: 90960},
+																pos: position{line: 2884, col: 9, offset: 91061},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2882, col: 9, offset: 90960},
+																		pos: position{line: 2884, col: 9, offset: 91061},
 																		expr: &litMatcher{
-																			pos:        position{line: 2882, col: 10, offset: 90961},
+																			pos:        position{line: 2884, col: 10, offset: 91062},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2883, col: 9, offset: 90989},
+																		pos: position{line: 2885, col: 9, offset: 91090},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 90990},
+																			pos:        position{line: 2885, col: 10, offset: 91091},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15849,27 +15849,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2886, col: 11, offset: 91202},
+															pos: position{line: 2888, col: 11, offset: 91303},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2886, col: 11, offset: 91202},
+																	pos:        position{line: 2888, col: 11, offset: 91303},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2886, col: 19, offset: 91210},
+																	pos: position{line: 2888, col: 19, offset: 91311},
 																	expr: &seqExpr{
-																		pos: position{line: 2886, col: 21, offset: 91212},
+																		pos: position{line: 2888, col: 21, offset: 91313},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2886, col: 21, offset: 91212},
+																				pos: position{line: 2888, col: 21, offset: 91313},
 																				expr: &actionExpr{
-																					pos: position{line: 2910, col: 10, offset: 91824},
+																					pos: position{line: 2912, col: 10, offset: 91925},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2910, col: 10, offset: 91824},
+																						pos:        position{line: 2912, col: 10, offset: 91925},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15878,11 +15878,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2886, col: 28, offset: 91219},
+																				pos: position{line: 2888, col: 28, offset: 91320},
 																				expr: &notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
@@ -15892,44 +15892,44 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 637, col: 5, offset: 20204},
+															pos: position{line: 639, col: 5, offset: 20305},
 															run: (*parser).callonExternalCrossReference27,
 															expr: &seqExpr{
-																pos: position{line: 637, col: 5, offset: 20204},
+																pos: position{line: 639, col: 5, offset: 20305},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 637, col: 5, offset: 20204},
+																		pos: position{line: 639, col: 5, offset: 20305},
 																		run: (*parser).callonExternalCrossReference29,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 640, col: 5, offset: 20276},
+																		pos:   position{line: 642, col: 5, offset: 20377},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 640, col: 14, offset: 20285},
+																			pos: position{line: 642, col: 14, offset: 20386},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 646, col: 5, offset: 20414},
+																					pos: position{line: 648, col: 5, offset: 20515},
 																					run: (*parser).callonExternalCrossReference32,
 																					expr: &seqExpr{
-																						pos: position{line: 646, col: 5, offset: 20414},
+																						pos: position{line: 648, col: 5, offset: 20515},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 646, col: 5, offset: 20414},
+																								pos:        position{line: 648, col: 5, offset: 20515},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 646, col: 13, offset: 20422},
+																								pos:   position{line: 648, col: 13, offset: 20523},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 320, col: 18, offset: 9837},
 																									run: (*parser).callonExternalCrossReference36,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 320, col: 18, offset: 9837},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 320, col: 18, offset: 9837},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15937,9 +15937,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 320, col: 28, offset: 9847},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 320, col: 29, offset: 9848},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15952,7 +15952,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 646, col: 32, offset: 20441},
+																								pos:        position{line: 648, col: 32, offset: 20542},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15961,28 +15961,28 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 653, col: 5, offset: 20682},
+																					pos: position{line: 655, col: 5, offset: 20783},
 																					run: (*parser).callonExternalCrossReference42,
 																					expr: &seqExpr{
-																						pos: position{line: 653, col: 5, offset: 20682},
+																						pos: position{line: 655, col: 5, offset: 20783},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 653, col: 5, offset: 20682},
+																								pos:        position{line: 655, col: 5, offset: 20783},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 653, col: 9, offset: 20686},
+																								pos:   position{line: 655, col: 9, offset: 20787},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 320, col: 18, offset: 9837},
 																									run: (*parser).callonExternalCrossReference46,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 320, col: 18, offset: 9837},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 320, col: 18, offset: 9837},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15990,9 +15990,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 320, col: 28, offset: 9847},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 320, col: 29, offset: 9848},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -16005,7 +16005,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 653, col: 28, offset: 20705},
+																								pos:        position{line: 655, col: 28, offset: 20806},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16014,28 +16014,28 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 659, col: 25, offset: 20886},
+																					pos: position{line: 661, col: 25, offset: 20987},
 																					run: (*parser).callonExternalCrossReference52,
 																					expr: &seqExpr{
-																						pos: position{line: 659, col: 25, offset: 20886},
+																						pos: position{line: 661, col: 25, offset: 20987},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 659, col: 25, offset: 20886},
+																								pos:        position{line: 661, col: 25, offset: 20987},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 659, col: 37, offset: 20898},
+																								pos:   position{line: 661, col: 37, offset: 20999},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 320, col: 18, offset: 9837},
 																									run: (*parser).callonExternalCrossReference56,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 320, col: 18, offset: 9837},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 320, col: 18, offset: 9837},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -16043,9 +16043,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 320, col: 28, offset: 9847},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 320, col: 29, offset: 9848},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -16058,33 +16058,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 659, col: 56, offset: 20917},
+																								pos:   position{line: 661, col: 56, offset: 21018},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 659, col: 62, offset: 20923},
+																									pos: position{line: 661, col: 62, offset: 21024},
 																									expr: &actionExpr{
-																										pos: position{line: 667, col: 17, offset: 21220},
+																										pos: position{line: 669, col: 17, offset: 21321},
 																										run: (*parser).callonExternalCrossReference63,
 																										expr: &seqExpr{
-																											pos: position{line: 667, col: 17, offset: 21220},
+																											pos: position{line: 669, col: 17, offset: 21321},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 667, col: 17, offset: 21220},
+																													pos:        position{line: 669, col: 17, offset: 21321},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 667, col: 21, offset: 21224},
+																													pos:   position{line: 669, col: 21, offset: 21325},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 667, col: 28, offset: 21231},
+																														pos: position{line: 669, col: 28, offset: 21332},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 667, col: 28, offset: 21231},
+																																pos: position{line: 669, col: 28, offset: 21332},
 																																run: (*parser).callonExternalCrossReference68,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 667, col: 28, offset: 21231},
+																																	pos:        position{line: 669, col: 28, offset: 21332},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -16092,12 +16092,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 669, col: 9, offset: 21285},
+																																pos: position{line: 671, col: 9, offset: 21386},
 																																run: (*parser).callonExternalCrossReference70,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 669, col: 9, offset: 21285},
+																																	pos: position{line: 671, col: 9, offset: 21386},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 669, col: 9, offset: 21285},
+																																		pos:        position{line: 671, col: 9, offset: 21386},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -16114,7 +16114,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 659, col: 78, offset: 20939},
+																								pos:        position{line: 661, col: 78, offset: 21040},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16123,28 +16123,28 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 663, col: 25, offset: 21057},
+																					pos: position{line: 665, col: 25, offset: 21158},
 																					run: (*parser).callonExternalCrossReference74,
 																					expr: &seqExpr{
-																						pos: position{line: 663, col: 25, offset: 21057},
+																						pos: position{line: 665, col: 25, offset: 21158},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 663, col: 25, offset: 21057},
+																								pos:        position{line: 665, col: 25, offset: 21158},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 663, col: 38, offset: 21070},
+																								pos:   position{line: 665, col: 38, offset: 21171},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 320, col: 18, offset: 9837},
 																									run: (*parser).callonExternalCrossReference78,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 320, col: 18, offset: 9837},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 320, col: 18, offset: 9837},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -16152,9 +16152,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 320, col: 28, offset: 9847},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 320, col: 29, offset: 9848},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -16167,33 +16167,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 663, col: 57, offset: 21089},
+																								pos:   position{line: 665, col: 57, offset: 21190},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 663, col: 63, offset: 21095},
+																									pos: position{line: 665, col: 63, offset: 21196},
 																									expr: &actionExpr{
-																										pos: position{line: 667, col: 17, offset: 21220},
+																										pos: position{line: 669, col: 17, offset: 21321},
 																										run: (*parser).callonExternalCrossReference85,
 																										expr: &seqExpr{
-																											pos: position{line: 667, col: 17, offset: 21220},
+																											pos: position{line: 669, col: 17, offset: 21321},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 667, col: 17, offset: 21220},
+																													pos:        position{line: 669, col: 17, offset: 21321},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 667, col: 21, offset: 21224},
+																													pos:   position{line: 669, col: 21, offset: 21325},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 667, col: 28, offset: 21231},
+																														pos: position{line: 669, col: 28, offset: 21332},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 667, col: 28, offset: 21231},
+																																pos: position{line: 669, col: 28, offset: 21332},
 																																run: (*parser).callonExternalCrossReference90,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 667, col: 28, offset: 21231},
+																																	pos:        position{line: 669, col: 28, offset: 21332},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -16201,12 +16201,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 669, col: 9, offset: 21285},
+																																pos: position{line: 671, col: 9, offset: 21386},
 																																run: (*parser).callonExternalCrossReference92,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 669, col: 9, offset: 21285},
+																																	pos: position{line: 671, col: 9, offset: 21386},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 669, col: 9, offset: 21285},
+																																		pos:        position{line: 671, col: 9, offset: 21386},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -16223,7 +16223,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 663, col: 79, offset: 21111},
+																								pos:        position{line: 665, col: 79, offset: 21212},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16238,27 +16238,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1199, col: 23, offset: 37069},
+															pos: position{line: 1201, col: 23, offset: 37170},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1199, col: 23, offset: 37069},
+																pos: position{line: 1201, col: 23, offset: 37170},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1197, col: 32, offset: 37037},
+																		pos:        position{line: 1199, col: 32, offset: 37138},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1199, col: 51, offset: 37097},
+																		pos:   position{line: 1201, col: 51, offset: 37198},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1199, col: 56, offset: 37102},
+																			pos: position{line: 1201, col: 56, offset: 37203},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1199, col: 56, offset: 37102},
+																				pos: position{line: 1201, col: 56, offset: 37203},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1199, col: 56, offset: 37102},
+																					pos:        position{line: 1201, col: 56, offset: 37203},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -16268,7 +16268,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1197, col: 32, offset: 37037},
+																		pos:        position{line: 1199, col: 32, offset: 37138},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -16277,10 +16277,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2889, col: 11, offset: 91339},
+															pos: position{line: 2891, col: 11, offset: 91440},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2889, col: 11, offset: 91339},
+																pos:        position{line: 2891, col: 11, offset: 91440},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16295,10 +16295,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 693, col: 54, offset: 22203},
+							pos:   position{line: 695, col: 54, offset: 22304},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 693, col: 66, offset: 22215},
+								pos:  position{line: 695, col: 66, offset: 22316},
 								name: "InlineAttributes",
 							},
 						},
@@ -16308,29 +16308,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 989, col: 1, offset: 30864},
+			pos:  position{line: 991, col: 1, offset: 30965},
 			expr: &actionExpr{
-				pos: position{line: 990, col: 5, offset: 30897},
+				pos: position{line: 992, col: 5, offset: 30998},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 990, col: 5, offset: 30897},
+					pos: position{line: 992, col: 5, offset: 30998},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 990, col: 5, offset: 30897},
+							pos:        position{line: 992, col: 5, offset: 30998},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 990, col: 11, offset: 30903},
+							pos:   position{line: 992, col: 11, offset: 31004},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2860, col: 14, offset: 90417},
+								pos: position{line: 2862, col: 14, offset: 90518},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2860, col: 14, offset: 90417},
+									pos: position{line: 2862, col: 14, offset: 90518},
 									expr: &charClassMatcher{
-										pos:        position{line: 2860, col: 14, offset: 90417},
+										pos:        position{line: 2862, col: 14, offset: 90518},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16340,28 +16340,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2932, col: 8, offset: 92222},
+							pos: position{line: 2934, col: 8, offset: 92323},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2919, col: 12, offset: 91995},
+									pos: position{line: 2921, col: 12, offset: 92096},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2919, col: 13, offset: 91996},
+										pos: position{line: 2921, col: 13, offset: 92097},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2919, col: 13, offset: 91996},
+												pos:        position{line: 2921, col: 13, offset: 92097},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2919, col: 20, offset: 92003},
+												pos:        position{line: 2921, col: 20, offset: 92104},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2919, col: 29, offset: 92012},
+												pos:        position{line: 2921, col: 29, offset: 92113},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16370,9 +16370,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2929, col: 8, offset: 92172},
+									pos: position{line: 2931, col: 8, offset: 92273},
 									expr: &anyMatcher{
-										line: 2929, col: 9, offset: 92173,
+										line: 2931, col: 9, offset: 92274,
 									},
 								},
 							},
@@ -16383,53 +16383,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1101, col: 1, offset: 33820},
+			pos:  position{line: 1103, col: 1, offset: 33921},
 			expr: &actionExpr{
-				pos: position{line: 1102, col: 5, offset: 33843},
+				pos: position{line: 1104, col: 5, offset: 33944},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1102, col: 5, offset: 33843},
+					pos: position{line: 1104, col: 5, offset: 33944},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1102, col: 5, offset: 33843},
+							pos: position{line: 1104, col: 5, offset: 33944},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1105, col: 5, offset: 33904},
+							pos: position{line: 1107, col: 5, offset: 34005},
 							expr: &choiceExpr{
-								pos: position{line: 1105, col: 6, offset: 33905},
+								pos: position{line: 1107, col: 6, offset: 34006},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2513, col: 22, offset: 80602},
+										pos: position{line: 2515, col: 22, offset: 80703},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2513, col: 22, offset: 80602},
+											pos: position{line: 2515, col: 22, offset: 80703},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2518, col: 31, offset: 80852},
+													pos:        position{line: 2520, col: 31, offset: 80953},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2518, col: 36, offset: 80857},
+													pos: position{line: 2520, col: 36, offset: 80958},
 													expr: &litMatcher{
-														pos:        position{line: 2518, col: 37, offset: 80858},
+														pos:        position{line: 2520, col: 37, offset: 80959},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2513, col: 49, offset: 80629},
+													pos:   position{line: 2515, col: 49, offset: 80730},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2856, col: 13, offset: 90350},
+														pos: position{line: 2858, col: 13, offset: 90451},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2856, col: 13, offset: 90350},
+															pos: position{line: 2858, col: 13, offset: 90451},
 															expr: &charClassMatcher{
-																pos:        position{line: 2856, col: 13, offset: 90350},
+																pos:        position{line: 2858, col: 13, offset: 90451},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16439,28 +16439,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2932, col: 8, offset: 92222},
+													pos: position{line: 2934, col: 8, offset: 92323},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2919, col: 12, offset: 91995},
+															pos: position{line: 2921, col: 12, offset: 92096},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2919, col: 13, offset: 91996},
+																pos: position{line: 2921, col: 13, offset: 92097},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 13, offset: 91996},
+																		pos:        position{line: 2921, col: 13, offset: 92097},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 20, offset: 92003},
+																		pos:        position{line: 2921, col: 20, offset: 92104},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 29, offset: 92012},
+																		pos:        position{line: 2921, col: 29, offset: 92113},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16469,9 +16469,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2929, col: 8, offset: 92172},
+															pos: position{line: 2931, col: 8, offset: 92273},
 															expr: &anyMatcher{
-																line: 2929, col: 9, offset: 92173,
+																line: 2931, col: 9, offset: 92274,
 															},
 														},
 													},
@@ -16480,36 +16480,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 821, col: 5, offset: 26421},
+										pos: position{line: 823, col: 5, offset: 26522},
 										run: (*parser).callonDocumentHeader23,
 										expr: &seqExpr{
-											pos: position{line: 821, col: 5, offset: 26421},
+											pos: position{line: 823, col: 5, offset: 26522},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 741, col: 5, offset: 23681},
+													pos: position{line: 743, col: 5, offset: 23782},
 													run: (*parser).callonDocumentHeader25,
 													expr: &seqExpr{
-														pos: position{line: 741, col: 5, offset: 23681},
+														pos: position{line: 743, col: 5, offset: 23782},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 741, col: 5, offset: 23681},
+																pos:   position{line: 743, col: 5, offset: 23782},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 741, col: 16, offset: 23692},
+																	pos: position{line: 743, col: 16, offset: 23793},
 																	run: (*parser).callonDocumentHeader28,
 																	expr: &seqExpr{
-																		pos: position{line: 741, col: 16, offset: 23692},
+																		pos: position{line: 743, col: 16, offset: 23793},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 741, col: 16, offset: 23692},
+																				pos:        position{line: 743, col: 16, offset: 23793},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 741, col: 23, offset: 23699},
+																				pos: position{line: 743, col: 23, offset: 23800},
 																				expr: &litMatcher{
-																					pos:        position{line: 741, col: 23, offset: 23699},
+																					pos:        position{line: 743, col: 23, offset: 23800},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -16520,12 +16520,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 743, col: 8, offset: 23783},
+																pos: position{line: 745, col: 8, offset: 23884},
 																expr: &actionExpr{
-																	pos: position{line: 2910, col: 10, offset: 91824},
+																	pos: position{line: 2912, col: 10, offset: 91925},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2910, col: 10, offset: 91824},
+																		pos:        position{line: 2912, col: 10, offset: 91925},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16534,28 +16534,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2932, col: 8, offset: 92222},
+																pos: position{line: 2934, col: 8, offset: 92323},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2919, col: 12, offset: 91995},
+																		pos: position{line: 2921, col: 12, offset: 92096},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2919, col: 13, offset: 91996},
+																			pos: position{line: 2921, col: 13, offset: 92097},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2919, col: 13, offset: 91996},
+																					pos:        position{line: 2921, col: 13, offset: 92097},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2919, col: 20, offset: 92003},
+																					pos:        position{line: 2921, col: 20, offset: 92104},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2919, col: 29, offset: 92012},
+																					pos:        position{line: 2921, col: 29, offset: 92113},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16564,9 +16564,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2929, col: 8, offset: 92172},
+																		pos: position{line: 2931, col: 8, offset: 92273},
 																		expr: &anyMatcher{
-																			line: 2929, col: 9, offset: 92173,
+																			line: 2931, col: 9, offset: 92274,
 																		},
 																	},
 																},
@@ -16575,46 +16575,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 822, col: 5, offset: 26452},
+													pos:   position{line: 824, col: 5, offset: 26553},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 832, col: 5, offset: 26738},
+														pos: position{line: 834, col: 5, offset: 26839},
 														expr: &actionExpr{
-															pos: position{line: 832, col: 6, offset: 26739},
+															pos: position{line: 834, col: 6, offset: 26840},
 															run: (*parser).callonDocumentHeader46,
 															expr: &seqExpr{
-																pos: position{line: 832, col: 6, offset: 26739},
+																pos: position{line: 834, col: 6, offset: 26840},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 832, col: 6, offset: 26739},
+																		pos: position{line: 834, col: 6, offset: 26840},
 																		expr: &choiceExpr{
-																			pos: position{line: 829, col: 29, offset: 26681},
+																			pos: position{line: 831, col: 29, offset: 26782},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 741, col: 5, offset: 23681},
+																					pos: position{line: 743, col: 5, offset: 23782},
 																					run: (*parser).callonDocumentHeader50,
 																					expr: &seqExpr{
-																						pos: position{line: 741, col: 5, offset: 23681},
+																						pos: position{line: 743, col: 5, offset: 23782},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 741, col: 5, offset: 23681},
+																								pos:   position{line: 743, col: 5, offset: 23782},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 741, col: 16, offset: 23692},
+																									pos: position{line: 743, col: 16, offset: 23793},
 																									run: (*parser).callonDocumentHeader53,
 																									expr: &seqExpr{
-																										pos: position{line: 741, col: 16, offset: 23692},
+																										pos: position{line: 743, col: 16, offset: 23793},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 741, col: 16, offset: 23692},
+																												pos:        position{line: 743, col: 16, offset: 23793},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 741, col: 23, offset: 23699},
+																												pos: position{line: 743, col: 23, offset: 23800},
 																												expr: &litMatcher{
-																													pos:        position{line: 741, col: 23, offset: 23699},
+																													pos:        position{line: 743, col: 23, offset: 23800},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -16625,12 +16625,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 743, col: 8, offset: 23783},
+																								pos: position{line: 745, col: 8, offset: 23884},
 																								expr: &actionExpr{
-																									pos: position{line: 2910, col: 10, offset: 91824},
+																									pos: position{line: 2912, col: 10, offset: 91925},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2910, col: 10, offset: 91824},
+																										pos:        position{line: 2912, col: 10, offset: 91925},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16639,28 +16639,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2932, col: 8, offset: 92222},
+																								pos: position{line: 2934, col: 8, offset: 92323},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2919, col: 12, offset: 91995},
+																										pos: position{line: 2921, col: 12, offset: 92096},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2919, col: 13, offset: 91996},
+																											pos: position{line: 2921, col: 13, offset: 92097},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 13, offset: 91996},
+																													pos:        position{line: 2921, col: 13, offset: 92097},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 20, offset: 92003},
+																													pos:        position{line: 2921, col: 20, offset: 92104},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 29, offset: 92012},
+																													pos:        position{line: 2921, col: 29, offset: 92113},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16669,9 +16669,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2929, col: 8, offset: 92172},
+																										pos: position{line: 2931, col: 8, offset: 92273},
 																										expr: &anyMatcher{
-																											line: 2929, col: 9, offset: 92173,
+																											line: 2931, col: 9, offset: 92274,
 																										},
 																									},
 																								},
@@ -16680,39 +16680,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 833, col: 5, offset: 26769},
+																		pos:   position{line: 835, col: 5, offset: 26870},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26185},
+																			pos: position{line: 814, col: 5, offset: 26286},
 																			run: (*parser).callonDocumentHeader72,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26185},
+																				pos: position{line: 814, col: 5, offset: 26286},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2927, col: 11, offset: 92158},
+																						pos: position{line: 2929, col: 11, offset: 92259},
 																						expr: &anyMatcher{
-																							line: 2927, col: 13, offset: 92160,
+																							line: 2929, col: 13, offset: 92261,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26260},
+																						pos:   position{line: 815, col: 5, offset: 26361},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2856, col: 13, offset: 90350},
+																							pos: position{line: 2858, col: 13, offset: 90451},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2856, col: 13, offset: 90350},
+																								pos: position{line: 2858, col: 13, offset: 90451},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 13, offset: 90350},
+																									pos:        position{line: 2858, col: 13, offset: 90451},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16722,28 +16722,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2932, col: 8, offset: 92222},
+																						pos: position{line: 2934, col: 8, offset: 92323},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2919, col: 12, offset: 91995},
+																								pos: position{line: 2921, col: 12, offset: 92096},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2919, col: 13, offset: 91996},
+																									pos: position{line: 2921, col: 13, offset: 92097},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 13, offset: 91996},
+																											pos:        position{line: 2921, col: 13, offset: 92097},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 20, offset: 92003},
+																											pos:        position{line: 2921, col: 20, offset: 92104},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 29, offset: 92012},
+																											pos:        position{line: 2921, col: 29, offset: 92113},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16752,9 +16752,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2929, col: 8, offset: 92172},
+																								pos: position{line: 2931, col: 8, offset: 92273},
 																								expr: &anyMatcher{
-																									line: 2929, col: 9, offset: 92173,
+																									line: 2931, col: 9, offset: 92274,
 																								},
 																							},
 																						},
@@ -16769,35 +16769,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 823, col: 5, offset: 26486},
+													pos: position{line: 825, col: 5, offset: 26587},
 													expr: &choiceExpr{
-														pos: position{line: 829, col: 29, offset: 26681},
+														pos: position{line: 831, col: 29, offset: 26782},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 741, col: 5, offset: 23681},
+																pos: position{line: 743, col: 5, offset: 23782},
 																run: (*parser).callonDocumentHeader90,
 																expr: &seqExpr{
-																	pos: position{line: 741, col: 5, offset: 23681},
+																	pos: position{line: 743, col: 5, offset: 23782},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 741, col: 5, offset: 23681},
+																			pos:   position{line: 743, col: 5, offset: 23782},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 741, col: 16, offset: 23692},
+																				pos: position{line: 743, col: 16, offset: 23793},
 																				run: (*parser).callonDocumentHeader93,
 																				expr: &seqExpr{
-																					pos: position{line: 741, col: 16, offset: 23692},
+																					pos: position{line: 743, col: 16, offset: 23793},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 741, col: 16, offset: 23692},
+																							pos:        position{line: 743, col: 16, offset: 23793},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 741, col: 23, offset: 23699},
+																							pos: position{line: 743, col: 23, offset: 23800},
 																							expr: &litMatcher{
-																								pos:        position{line: 741, col: 23, offset: 23699},
+																								pos:        position{line: 743, col: 23, offset: 23800},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -16808,12 +16808,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 743, col: 8, offset: 23783},
+																			pos: position{line: 745, col: 8, offset: 23884},
 																			expr: &actionExpr{
-																				pos: position{line: 2910, col: 10, offset: 91824},
+																				pos: position{line: 2912, col: 10, offset: 91925},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2910, col: 10, offset: 91824},
+																					pos:        position{line: 2912, col: 10, offset: 91925},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16822,28 +16822,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2932, col: 8, offset: 92222},
+																			pos: position{line: 2934, col: 8, offset: 92323},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2919, col: 12, offset: 91995},
+																					pos: position{line: 2921, col: 12, offset: 92096},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2919, col: 13, offset: 91996},
+																						pos: position{line: 2921, col: 13, offset: 92097},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 13, offset: 91996},
+																								pos:        position{line: 2921, col: 13, offset: 92097},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 20, offset: 92003},
+																								pos:        position{line: 2921, col: 20, offset: 92104},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 29, offset: 92012},
+																								pos:        position{line: 2921, col: 29, offset: 92113},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16852,9 +16852,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
@@ -16863,9 +16863,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2929, col: 8, offset: 92172},
+																pos: position{line: 2931, col: 8, offset: 92273},
 																expr: &anyMatcher{
-																	line: 2929, col: 9, offset: 92173,
+																	line: 2931, col: 9, offset: 92274,
 																},
 															},
 														},
@@ -16878,49 +16878,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1106, col: 5, offset: 34001},
+							pos:   position{line: 1108, col: 5, offset: 34102},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1106, col: 12, offset: 34008},
+								pos:  position{line: 1108, col: 12, offset: 34109},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1107, col: 5, offset: 34027},
+							pos: position{line: 1109, col: 5, offset: 34128},
 							expr: &choiceExpr{
-								pos: position{line: 1107, col: 6, offset: 34028},
+								pos: position{line: 1109, col: 6, offset: 34129},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2513, col: 22, offset: 80602},
+										pos: position{line: 2515, col: 22, offset: 80703},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2513, col: 22, offset: 80602},
+											pos: position{line: 2515, col: 22, offset: 80703},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2518, col: 31, offset: 80852},
+													pos:        position{line: 2520, col: 31, offset: 80953},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2518, col: 36, offset: 80857},
+													pos: position{line: 2520, col: 36, offset: 80958},
 													expr: &litMatcher{
-														pos:        position{line: 2518, col: 37, offset: 80858},
+														pos:        position{line: 2520, col: 37, offset: 80959},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2513, col: 49, offset: 80629},
+													pos:   position{line: 2515, col: 49, offset: 80730},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2856, col: 13, offset: 90350},
+														pos: position{line: 2858, col: 13, offset: 90451},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2856, col: 13, offset: 90350},
+															pos: position{line: 2858, col: 13, offset: 90451},
 															expr: &charClassMatcher{
-																pos:        position{line: 2856, col: 13, offset: 90350},
+																pos:        position{line: 2858, col: 13, offset: 90451},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16930,28 +16930,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2932, col: 8, offset: 92222},
+													pos: position{line: 2934, col: 8, offset: 92323},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2919, col: 12, offset: 91995},
+															pos: position{line: 2921, col: 12, offset: 92096},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2919, col: 13, offset: 91996},
+																pos: position{line: 2921, col: 13, offset: 92097},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 13, offset: 91996},
+																		pos:        position{line: 2921, col: 13, offset: 92097},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 20, offset: 92003},
+																		pos:        position{line: 2921, col: 20, offset: 92104},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 29, offset: 92012},
+																		pos:        position{line: 2921, col: 29, offset: 92113},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16960,9 +16960,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2929, col: 8, offset: 92172},
+															pos: position{line: 2931, col: 8, offset: 92273},
 															expr: &anyMatcher{
-																line: 2929, col: 9, offset: 92173,
+																line: 2931, col: 9, offset: 92274,
 															},
 														},
 													},
@@ -16971,36 +16971,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 821, col: 5, offset: 26421},
+										pos: position{line: 823, col: 5, offset: 26522},
 										run: (*parser).callonDocumentHeader132,
 										expr: &seqExpr{
-											pos: position{line: 821, col: 5, offset: 26421},
+											pos: position{line: 823, col: 5, offset: 26522},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 741, col: 5, offset: 23681},
+													pos: position{line: 743, col: 5, offset: 23782},
 													run: (*parser).callonDocumentHeader134,
 													expr: &seqExpr{
-														pos: position{line: 741, col: 5, offset: 23681},
+														pos: position{line: 743, col: 5, offset: 23782},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 741, col: 5, offset: 23681},
+																pos:   position{line: 743, col: 5, offset: 23782},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 741, col: 16, offset: 23692},
+																	pos: position{line: 743, col: 16, offset: 23793},
 																	run: (*parser).callonDocumentHeader137,
 																	expr: &seqExpr{
-																		pos: position{line: 741, col: 16, offset: 23692},
+																		pos: position{line: 743, col: 16, offset: 23793},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 741, col: 16, offset: 23692},
+																				pos:        position{line: 743, col: 16, offset: 23793},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 741, col: 23, offset: 23699},
+																				pos: position{line: 743, col: 23, offset: 23800},
 																				expr: &litMatcher{
-																					pos:        position{line: 741, col: 23, offset: 23699},
+																					pos:        position{line: 743, col: 23, offset: 23800},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -17011,12 +17011,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 743, col: 8, offset: 23783},
+																pos: position{line: 745, col: 8, offset: 23884},
 																expr: &actionExpr{
-																	pos: position{line: 2910, col: 10, offset: 91824},
+																	pos: position{line: 2912, col: 10, offset: 91925},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2910, col: 10, offset: 91824},
+																		pos:        position{line: 2912, col: 10, offset: 91925},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17025,28 +17025,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2932, col: 8, offset: 92222},
+																pos: position{line: 2934, col: 8, offset: 92323},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2919, col: 12, offset: 91995},
+																		pos: position{line: 2921, col: 12, offset: 92096},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2919, col: 13, offset: 91996},
+																			pos: position{line: 2921, col: 13, offset: 92097},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2919, col: 13, offset: 91996},
+																					pos:        position{line: 2921, col: 13, offset: 92097},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2919, col: 20, offset: 92003},
+																					pos:        position{line: 2921, col: 20, offset: 92104},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2919, col: 29, offset: 92012},
+																					pos:        position{line: 2921, col: 29, offset: 92113},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17055,9 +17055,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2929, col: 8, offset: 92172},
+																		pos: position{line: 2931, col: 8, offset: 92273},
 																		expr: &anyMatcher{
-																			line: 2929, col: 9, offset: 92173,
+																			line: 2931, col: 9, offset: 92274,
 																		},
 																	},
 																},
@@ -17066,46 +17066,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 822, col: 5, offset: 26452},
+													pos:   position{line: 824, col: 5, offset: 26553},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 832, col: 5, offset: 26738},
+														pos: position{line: 834, col: 5, offset: 26839},
 														expr: &actionExpr{
-															pos: position{line: 832, col: 6, offset: 26739},
+															pos: position{line: 834, col: 6, offset: 26840},
 															run: (*parser).callonDocumentHeader155,
 															expr: &seqExpr{
-																pos: position{line: 832, col: 6, offset: 26739},
+																pos: position{line: 834, col: 6, offset: 26840},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 832, col: 6, offset: 26739},
+																		pos: position{line: 834, col: 6, offset: 26840},
 																		expr: &choiceExpr{
-																			pos: position{line: 829, col: 29, offset: 26681},
+																			pos: position{line: 831, col: 29, offset: 26782},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 741, col: 5, offset: 23681},
+																					pos: position{line: 743, col: 5, offset: 23782},
 																					run: (*parser).callonDocumentHeader159,
 																					expr: &seqExpr{
-																						pos: position{line: 741, col: 5, offset: 23681},
+																						pos: position{line: 743, col: 5, offset: 23782},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 741, col: 5, offset: 23681},
+																								pos:   position{line: 743, col: 5, offset: 23782},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 741, col: 16, offset: 23692},
+																									pos: position{line: 743, col: 16, offset: 23793},
 																									run: (*parser).callonDocumentHeader162,
 																									expr: &seqExpr{
-																										pos: position{line: 741, col: 16, offset: 23692},
+																										pos: position{line: 743, col: 16, offset: 23793},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 741, col: 16, offset: 23692},
+																												pos:        position{line: 743, col: 16, offset: 23793},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 741, col: 23, offset: 23699},
+																												pos: position{line: 743, col: 23, offset: 23800},
 																												expr: &litMatcher{
-																													pos:        position{line: 741, col: 23, offset: 23699},
+																													pos:        position{line: 743, col: 23, offset: 23800},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -17116,12 +17116,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 743, col: 8, offset: 23783},
+																								pos: position{line: 745, col: 8, offset: 23884},
 																								expr: &actionExpr{
-																									pos: position{line: 2910, col: 10, offset: 91824},
+																									pos: position{line: 2912, col: 10, offset: 91925},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2910, col: 10, offset: 91824},
+																										pos:        position{line: 2912, col: 10, offset: 91925},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17130,28 +17130,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2932, col: 8, offset: 92222},
+																								pos: position{line: 2934, col: 8, offset: 92323},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2919, col: 12, offset: 91995},
+																										pos: position{line: 2921, col: 12, offset: 92096},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2919, col: 13, offset: 91996},
+																											pos: position{line: 2921, col: 13, offset: 92097},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 13, offset: 91996},
+																													pos:        position{line: 2921, col: 13, offset: 92097},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 20, offset: 92003},
+																													pos:        position{line: 2921, col: 20, offset: 92104},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 29, offset: 92012},
+																													pos:        position{line: 2921, col: 29, offset: 92113},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17160,9 +17160,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2929, col: 8, offset: 92172},
+																										pos: position{line: 2931, col: 8, offset: 92273},
 																										expr: &anyMatcher{
-																											line: 2929, col: 9, offset: 92173,
+																											line: 2931, col: 9, offset: 92274,
 																										},
 																									},
 																								},
@@ -17171,39 +17171,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 833, col: 5, offset: 26769},
+																		pos:   position{line: 835, col: 5, offset: 26870},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26185},
+																			pos: position{line: 814, col: 5, offset: 26286},
 																			run: (*parser).callonDocumentHeader181,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26185},
+																				pos: position{line: 814, col: 5, offset: 26286},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2927, col: 11, offset: 92158},
+																						pos: position{line: 2929, col: 11, offset: 92259},
 																						expr: &anyMatcher{
-																							line: 2927, col: 13, offset: 92160,
+																							line: 2929, col: 13, offset: 92261,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26260},
+																						pos:   position{line: 815, col: 5, offset: 26361},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2856, col: 13, offset: 90350},
+																							pos: position{line: 2858, col: 13, offset: 90451},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2856, col: 13, offset: 90350},
+																								pos: position{line: 2858, col: 13, offset: 90451},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 13, offset: 90350},
+																									pos:        position{line: 2858, col: 13, offset: 90451},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17213,28 +17213,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2932, col: 8, offset: 92222},
+																						pos: position{line: 2934, col: 8, offset: 92323},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2919, col: 12, offset: 91995},
+																								pos: position{line: 2921, col: 12, offset: 92096},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2919, col: 13, offset: 91996},
+																									pos: position{line: 2921, col: 13, offset: 92097},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 13, offset: 91996},
+																											pos:        position{line: 2921, col: 13, offset: 92097},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 20, offset: 92003},
+																											pos:        position{line: 2921, col: 20, offset: 92104},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 29, offset: 92012},
+																											pos:        position{line: 2921, col: 29, offset: 92113},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17243,9 +17243,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2929, col: 8, offset: 92172},
+																								pos: position{line: 2931, col: 8, offset: 92273},
 																								expr: &anyMatcher{
-																									line: 2929, col: 9, offset: 92173,
+																									line: 2931, col: 9, offset: 92274,
 																								},
 																							},
 																						},
@@ -17260,35 +17260,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 823, col: 5, offset: 26486},
+													pos: position{line: 825, col: 5, offset: 26587},
 													expr: &choiceExpr{
-														pos: position{line: 829, col: 29, offset: 26681},
+														pos: position{line: 831, col: 29, offset: 26782},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 741, col: 5, offset: 23681},
+																pos: position{line: 743, col: 5, offset: 23782},
 																run: (*parser).callonDocumentHeader199,
 																expr: &seqExpr{
-																	pos: position{line: 741, col: 5, offset: 23681},
+																	pos: position{line: 743, col: 5, offset: 23782},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 741, col: 5, offset: 23681},
+																			pos:   position{line: 743, col: 5, offset: 23782},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 741, col: 16, offset: 23692},
+																				pos: position{line: 743, col: 16, offset: 23793},
 																				run: (*parser).callonDocumentHeader202,
 																				expr: &seqExpr{
-																					pos: position{line: 741, col: 16, offset: 23692},
+																					pos: position{line: 743, col: 16, offset: 23793},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 741, col: 16, offset: 23692},
+																							pos:        position{line: 743, col: 16, offset: 23793},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 741, col: 23, offset: 23699},
+																							pos: position{line: 743, col: 23, offset: 23800},
 																							expr: &litMatcher{
-																								pos:        position{line: 741, col: 23, offset: 23699},
+																								pos:        position{line: 743, col: 23, offset: 23800},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -17299,12 +17299,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 743, col: 8, offset: 23783},
+																			pos: position{line: 745, col: 8, offset: 23884},
 																			expr: &actionExpr{
-																				pos: position{line: 2910, col: 10, offset: 91824},
+																				pos: position{line: 2912, col: 10, offset: 91925},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2910, col: 10, offset: 91824},
+																					pos:        position{line: 2912, col: 10, offset: 91925},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -17313,28 +17313,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2932, col: 8, offset: 92222},
+																			pos: position{line: 2934, col: 8, offset: 92323},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2919, col: 12, offset: 91995},
+																					pos: position{line: 2921, col: 12, offset: 92096},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2919, col: 13, offset: 91996},
+																						pos: position{line: 2921, col: 13, offset: 92097},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 13, offset: 91996},
+																								pos:        position{line: 2921, col: 13, offset: 92097},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 20, offset: 92003},
+																								pos:        position{line: 2921, col: 20, offset: 92104},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 29, offset: 92012},
+																								pos:        position{line: 2921, col: 29, offset: 92113},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -17343,9 +17343,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
@@ -17354,9 +17354,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2929, col: 8, offset: 92172},
+																pos: position{line: 2931, col: 8, offset: 92273},
 																expr: &anyMatcher{
-																	line: 2929, col: 9, offset: 92173,
+																	line: 2931, col: 9, offset: 92274,
 																},
 															},
 														},
@@ -17369,41 +17369,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1108, col: 5, offset: 34124},
+							pos:   position{line: 1110, col: 5, offset: 34225},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1108, col: 24, offset: 34143},
+								pos: position{line: 1110, col: 24, offset: 34244},
 								expr: &actionExpr{
-									pos: position{line: 1119, col: 5, offset: 34518},
+									pos: position{line: 1121, col: 5, offset: 34619},
 									run: (*parser).callonDocumentHeader222,
 									expr: &seqExpr{
-										pos: position{line: 1119, col: 5, offset: 34518},
+										pos: position{line: 1121, col: 5, offset: 34619},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1119, col: 5, offset: 34518},
+												pos: position{line: 1121, col: 5, offset: 34619},
 												expr: &litMatcher{
-													pos:        position{line: 1119, col: 6, offset: 34519},
+													pos:        position{line: 1121, col: 6, offset: 34620},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1120, col: 5, offset: 34527},
+												pos:   position{line: 1122, col: 5, offset: 34628},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1126, col: 20, offset: 34783},
+													pos: position{line: 1128, col: 20, offset: 34884},
 													run: (*parser).callonDocumentHeader227,
 													expr: &seqExpr{
-														pos: position{line: 1126, col: 20, offset: 34783},
+														pos: position{line: 1128, col: 20, offset: 34884},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1126, col: 20, offset: 34783},
+																pos: position{line: 1128, col: 20, offset: 34884},
 																expr: &actionExpr{
-																	pos: position{line: 2910, col: 10, offset: 91824},
+																	pos: position{line: 2912, col: 10, offset: 91925},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2910, col: 10, offset: 91824},
+																		pos:        position{line: 2912, col: 10, offset: 91925},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17412,37 +17412,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1126, col: 27, offset: 34790},
+																pos:   position{line: 1128, col: 27, offset: 34891},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1126, col: 36, offset: 34799},
+																	pos: position{line: 1128, col: 36, offset: 34900},
 																	expr: &actionExpr{
-																		pos: position{line: 1131, col: 5, offset: 34912},
+																		pos: position{line: 1133, col: 5, offset: 35013},
 																		run: (*parser).callonDocumentHeader234,
 																		expr: &seqExpr{
-																			pos: position{line: 1131, col: 5, offset: 34912},
+																			pos: position{line: 1133, col: 5, offset: 35013},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1131, col: 5, offset: 34912},
+																					pos:   position{line: 1133, col: 5, offset: 35013},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1131, col: 14, offset: 34921},
+																						pos: position{line: 1133, col: 14, offset: 35022},
 																						expr: &actionExpr{
-																							pos: position{line: 1142, col: 5, offset: 35301},
+																							pos: position{line: 1144, col: 5, offset: 35402},
 																							run: (*parser).callonDocumentHeader238,
 																							expr: &seqExpr{
-																								pos: position{line: 1142, col: 5, offset: 35301},
+																								pos: position{line: 1144, col: 5, offset: 35402},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1142, col: 5, offset: 35301},
+																										pos:   position{line: 1144, col: 5, offset: 35402},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1142, col: 12, offset: 35308},
+																											pos: position{line: 1144, col: 12, offset: 35409},
 																											run: (*parser).callonDocumentHeader241,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1142, col: 12, offset: 35308},
+																												pos: position{line: 1144, col: 12, offset: 35409},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1142, col: 12, offset: 35308},
+																													pos:        position{line: 1144, col: 12, offset: 35409},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -17452,12 +17452,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1145, col: 5, offset: 35388},
+																										pos: position{line: 1147, col: 5, offset: 35489},
 																										expr: &actionExpr{
-																											pos: position{line: 2910, col: 10, offset: 91824},
+																											pos: position{line: 2912, col: 10, offset: 91925},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2910, col: 10, offset: 91824},
+																												pos:        position{line: 2912, col: 10, offset: 91925},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17466,17 +17466,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1146, col: 5, offset: 35399},
+																										pos:   position{line: 1148, col: 5, offset: 35500},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1146, col: 11, offset: 35405},
+																											pos: position{line: 1148, col: 11, offset: 35506},
 																											expr: &actionExpr{
-																												pos: position{line: 1146, col: 12, offset: 35406},
+																												pos: position{line: 1148, col: 12, offset: 35507},
 																												run: (*parser).callonDocumentHeader249,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1146, col: 12, offset: 35406},
+																													pos: position{line: 1148, col: 12, offset: 35507},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1146, col: 12, offset: 35406},
+																														pos:        position{line: 1148, col: 12, offset: 35507},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -17487,12 +17487,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1149, col: 5, offset: 35487},
+																										pos: position{line: 1151, col: 5, offset: 35588},
 																										expr: &actionExpr{
-																											pos: position{line: 2910, col: 10, offset: 91824},
+																											pos: position{line: 2912, col: 10, offset: 91925},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2910, col: 10, offset: 91824},
+																												pos:        position{line: 2912, col: 10, offset: 91925},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17501,17 +17501,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1150, col: 5, offset: 35498},
+																										pos:   position{line: 1152, col: 5, offset: 35599},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1150, col: 11, offset: 35504},
+																											pos: position{line: 1152, col: 11, offset: 35605},
 																											expr: &actionExpr{
-																												pos: position{line: 1150, col: 12, offset: 35505},
+																												pos: position{line: 1152, col: 12, offset: 35606},
 																												run: (*parser).callonDocumentHeader257,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1150, col: 12, offset: 35505},
+																													pos: position{line: 1152, col: 12, offset: 35606},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1150, col: 12, offset: 35505},
+																														pos:        position{line: 1152, col: 12, offset: 35606},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -17522,12 +17522,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1153, col: 5, offset: 35584},
+																										pos: position{line: 1155, col: 5, offset: 35685},
 																										expr: &actionExpr{
-																											pos: position{line: 2910, col: 10, offset: 91824},
+																											pos: position{line: 2912, col: 10, offset: 91925},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2910, col: 10, offset: 91824},
+																												pos:        position{line: 2912, col: 10, offset: 91925},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17541,38 +17541,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1131, col: 40, offset: 34947},
+																					pos:   position{line: 1133, col: 40, offset: 35048},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1131, col: 46, offset: 34953},
+																						pos: position{line: 1133, col: 46, offset: 35054},
 																						expr: &actionExpr{
-																							pos: position{line: 1159, col: 5, offset: 35706},
+																							pos: position{line: 1161, col: 5, offset: 35807},
 																							run: (*parser).callonDocumentHeader265,
 																							expr: &seqExpr{
-																								pos: position{line: 1159, col: 5, offset: 35706},
+																								pos: position{line: 1161, col: 5, offset: 35807},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2927, col: 11, offset: 92158},
+																										pos: position{line: 2929, col: 11, offset: 92259},
 																										expr: &anyMatcher{
-																											line: 2927, col: 13, offset: 92160,
+																											line: 2929, col: 13, offset: 92261,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1160, col: 5, offset: 35718},
+																										pos:        position{line: 1162, col: 5, offset: 35819},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1161, col: 5, offset: 35727},
+																										pos:   position{line: 1163, col: 5, offset: 35828},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1161, col: 12, offset: 35734},
+																											pos: position{line: 1163, col: 12, offset: 35835},
 																											run: (*parser).callonDocumentHeader271,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1161, col: 13, offset: 35735},
+																												pos: position{line: 1163, col: 13, offset: 35836},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1161, col: 13, offset: 35735},
+																													pos:        position{line: 1163, col: 13, offset: 35836},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -17582,7 +17582,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1164, col: 5, offset: 35795},
+																										pos:        position{line: 1166, col: 5, offset: 35896},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -17593,12 +17593,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1131, col: 69, offset: 34976},
+																					pos: position{line: 1133, col: 69, offset: 35077},
 																					expr: &actionExpr{
-																						pos: position{line: 2910, col: 10, offset: 91824},
+																						pos: position{line: 2912, col: 10, offset: 91925},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2910, col: 10, offset: 91824},
+																							pos:        position{line: 2912, col: 10, offset: 91925},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17607,21 +17607,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1131, col: 76, offset: 34983},
+																					pos: position{line: 1133, col: 76, offset: 35084},
 																					expr: &litMatcher{
-																						pos:        position{line: 1131, col: 76, offset: 34983},
+																						pos:        position{line: 1133, col: 76, offset: 35084},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1131, col: 81, offset: 34988},
+																					pos: position{line: 1133, col: 81, offset: 35089},
 																					expr: &actionExpr{
-																						pos: position{line: 2910, col: 10, offset: 91824},
+																						pos: position{line: 2912, col: 10, offset: 91925},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2910, col: 10, offset: 91824},
+																							pos:        position{line: 2912, col: 10, offset: 91925},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17630,7 +17630,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1132, col: 5, offset: 35000},
+																					pos: position{line: 1134, col: 5, offset: 35101},
 																					run: (*parser).callonDocumentHeader283,
 																				},
 																			},
@@ -17639,28 +17639,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2932, col: 8, offset: 92222},
+																pos: position{line: 2934, col: 8, offset: 92323},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2919, col: 12, offset: 91995},
+																		pos: position{line: 2921, col: 12, offset: 92096},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2919, col: 13, offset: 91996},
+																			pos: position{line: 2921, col: 13, offset: 92097},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2919, col: 13, offset: 91996},
+																					pos:        position{line: 2921, col: 13, offset: 92097},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2919, col: 20, offset: 92003},
+																					pos:        position{line: 2921, col: 20, offset: 92104},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2919, col: 29, offset: 92012},
+																					pos:        position{line: 2921, col: 29, offset: 92113},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17669,9 +17669,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2929, col: 8, offset: 92172},
+																		pos: position{line: 2931, col: 8, offset: 92273},
 																		expr: &anyMatcher{
-																			line: 2929, col: 9, offset: 92173,
+																			line: 2931, col: 9, offset: 92274,
 																		},
 																	},
 																},
@@ -17681,41 +17681,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1121, col: 5, offset: 34557},
+												pos: position{line: 1123, col: 5, offset: 34658},
 												expr: &choiceExpr{
-													pos: position{line: 1121, col: 6, offset: 34558},
+													pos: position{line: 1123, col: 6, offset: 34659},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2513, col: 22, offset: 80602},
+															pos: position{line: 2515, col: 22, offset: 80703},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2513, col: 22, offset: 80602},
+																pos: position{line: 2515, col: 22, offset: 80703},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2518, col: 31, offset: 80852},
+																		pos:        position{line: 2520, col: 31, offset: 80953},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2518, col: 36, offset: 80857},
+																		pos: position{line: 2520, col: 36, offset: 80958},
 																		expr: &litMatcher{
-																			pos:        position{line: 2518, col: 37, offset: 80858},
+																			pos:        position{line: 2520, col: 37, offset: 80959},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2513, col: 49, offset: 80629},
+																		pos:   position{line: 2515, col: 49, offset: 80730},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2856, col: 13, offset: 90350},
+																			pos: position{line: 2858, col: 13, offset: 90451},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2856, col: 13, offset: 90350},
+																				pos: position{line: 2858, col: 13, offset: 90451},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2856, col: 13, offset: 90350},
+																					pos:        position{line: 2858, col: 13, offset: 90451},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17725,28 +17725,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2932, col: 8, offset: 92222},
+																		pos: position{line: 2934, col: 8, offset: 92323},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17755,9 +17755,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2929, col: 8, offset: 92172},
+																				pos: position{line: 2931, col: 8, offset: 92273},
 																				expr: &anyMatcher{
-																					line: 2929, col: 9, offset: 92173,
+																					line: 2931, col: 9, offset: 92274,
 																				},
 																			},
 																		},
@@ -17766,36 +17766,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 821, col: 5, offset: 26421},
+															pos: position{line: 823, col: 5, offset: 26522},
 															run: (*parser).callonDocumentHeader311,
 															expr: &seqExpr{
-																pos: position{line: 821, col: 5, offset: 26421},
+																pos: position{line: 823, col: 5, offset: 26522},
 																exprs: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 741, col: 5, offset: 23681},
+																		pos: position{line: 743, col: 5, offset: 23782},
 																		run: (*parser).callonDocumentHeader313,
 																		expr: &seqExpr{
-																			pos: position{line: 741, col: 5, offset: 23681},
+																			pos: position{line: 743, col: 5, offset: 23782},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 741, col: 5, offset: 23681},
+																					pos:   position{line: 743, col: 5, offset: 23782},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 741, col: 16, offset: 23692},
+																						pos: position{line: 743, col: 16, offset: 23793},
 																						run: (*parser).callonDocumentHeader316,
 																						expr: &seqExpr{
-																							pos: position{line: 741, col: 16, offset: 23692},
+																							pos: position{line: 743, col: 16, offset: 23793},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 741, col: 16, offset: 23692},
+																									pos:        position{line: 743, col: 16, offset: 23793},
 																									val:        "////",
 																									ignoreCase: false,
 																									want:       "\"////\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 741, col: 23, offset: 23699},
+																									pos: position{line: 743, col: 23, offset: 23800},
 																									expr: &litMatcher{
-																										pos:        position{line: 741, col: 23, offset: 23699},
+																										pos:        position{line: 743, col: 23, offset: 23800},
 																										val:        "/",
 																										ignoreCase: false,
 																										want:       "\"/\"",
@@ -17806,12 +17806,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 743, col: 8, offset: 23783},
+																					pos: position{line: 745, col: 8, offset: 23884},
 																					expr: &actionExpr{
-																						pos: position{line: 2910, col: 10, offset: 91824},
+																						pos: position{line: 2912, col: 10, offset: 91925},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2910, col: 10, offset: 91824},
+																							pos:        position{line: 2912, col: 10, offset: 91925},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17820,28 +17820,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2932, col: 8, offset: 92222},
+																					pos: position{line: 2934, col: 8, offset: 92323},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2919, col: 12, offset: 91995},
+																							pos: position{line: 2921, col: 12, offset: 92096},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2919, col: 13, offset: 91996},
+																								pos: position{line: 2921, col: 13, offset: 92097},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 13, offset: 91996},
+																										pos:        position{line: 2921, col: 13, offset: 92097},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 20, offset: 92003},
+																										pos:        position{line: 2921, col: 20, offset: 92104},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 29, offset: 92012},
+																										pos:        position{line: 2921, col: 29, offset: 92113},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17850,9 +17850,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2929, col: 8, offset: 92172},
+																							pos: position{line: 2931, col: 8, offset: 92273},
 																							expr: &anyMatcher{
-																								line: 2929, col: 9, offset: 92173,
+																								line: 2931, col: 9, offset: 92274,
 																							},
 																						},
 																					},
@@ -17861,46 +17861,46 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 822, col: 5, offset: 26452},
+																		pos:   position{line: 824, col: 5, offset: 26553},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 832, col: 5, offset: 26738},
+																			pos: position{line: 834, col: 5, offset: 26839},
 																			expr: &actionExpr{
-																				pos: position{line: 832, col: 6, offset: 26739},
+																				pos: position{line: 834, col: 6, offset: 26840},
 																				run: (*parser).callonDocumentHeader334,
 																				expr: &seqExpr{
-																					pos: position{line: 832, col: 6, offset: 26739},
+																					pos: position{line: 834, col: 6, offset: 26840},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 832, col: 6, offset: 26739},
+																							pos: position{line: 834, col: 6, offset: 26840},
 																							expr: &choiceExpr{
-																								pos: position{line: 829, col: 29, offset: 26681},
+																								pos: position{line: 831, col: 29, offset: 26782},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 741, col: 5, offset: 23681},
+																										pos: position{line: 743, col: 5, offset: 23782},
 																										run: (*parser).callonDocumentHeader338,
 																										expr: &seqExpr{
-																											pos: position{line: 741, col: 5, offset: 23681},
+																											pos: position{line: 743, col: 5, offset: 23782},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 741, col: 5, offset: 23681},
+																													pos:   position{line: 743, col: 5, offset: 23782},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 741, col: 16, offset: 23692},
+																														pos: position{line: 743, col: 16, offset: 23793},
 																														run: (*parser).callonDocumentHeader341,
 																														expr: &seqExpr{
-																															pos: position{line: 741, col: 16, offset: 23692},
+																															pos: position{line: 743, col: 16, offset: 23793},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 741, col: 16, offset: 23692},
+																																	pos:        position{line: 743, col: 16, offset: 23793},
 																																	val:        "////",
 																																	ignoreCase: false,
 																																	want:       "\"////\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 741, col: 23, offset: 23699},
+																																	pos: position{line: 743, col: 23, offset: 23800},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 741, col: 23, offset: 23699},
+																																		pos:        position{line: 743, col: 23, offset: 23800},
 																																		val:        "/",
 																																		ignoreCase: false,
 																																		want:       "\"/\"",
@@ -17911,12 +17911,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 743, col: 8, offset: 23783},
+																													pos: position{line: 745, col: 8, offset: 23884},
 																													expr: &actionExpr{
-																														pos: position{line: 2910, col: 10, offset: 91824},
+																														pos: position{line: 2912, col: 10, offset: 91925},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2910, col: 10, offset: 91824},
+																															pos:        position{line: 2912, col: 10, offset: 91925},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17925,28 +17925,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2932, col: 8, offset: 92222},
+																													pos: position{line: 2934, col: 8, offset: 92323},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2919, col: 12, offset: 91995},
+																															pos: position{line: 2921, col: 12, offset: 92096},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2919, col: 13, offset: 91996},
+																																pos: position{line: 2921, col: 13, offset: 92097},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2919, col: 13, offset: 91996},
+																																		pos:        position{line: 2921, col: 13, offset: 92097},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2919, col: 20, offset: 92003},
+																																		pos:        position{line: 2921, col: 20, offset: 92104},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2919, col: 29, offset: 92012},
+																																		pos:        position{line: 2921, col: 29, offset: 92113},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17955,9 +17955,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2929, col: 8, offset: 92172},
+																															pos: position{line: 2931, col: 8, offset: 92273},
 																															expr: &anyMatcher{
-																																line: 2929, col: 9, offset: 92173,
+																																line: 2931, col: 9, offset: 92274,
 																															},
 																														},
 																													},
@@ -17966,39 +17966,39 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2929, col: 8, offset: 92172},
+																										pos: position{line: 2931, col: 8, offset: 92273},
 																										expr: &anyMatcher{
-																											line: 2929, col: 9, offset: 92173,
+																											line: 2931, col: 9, offset: 92274,
 																										},
 																									},
 																								},
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 833, col: 5, offset: 26769},
+																							pos:   position{line: 835, col: 5, offset: 26870},
 																							label: "line",
 																							expr: &actionExpr{
-																								pos: position{line: 812, col: 5, offset: 26185},
+																								pos: position{line: 814, col: 5, offset: 26286},
 																								run: (*parser).callonDocumentHeader360,
 																								expr: &seqExpr{
-																									pos: position{line: 812, col: 5, offset: 26185},
+																									pos: position{line: 814, col: 5, offset: 26286},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2927, col: 11, offset: 92158},
+																											pos: position{line: 2929, col: 11, offset: 92259},
 																											expr: &anyMatcher{
-																												line: 2927, col: 13, offset: 92160,
+																												line: 2929, col: 13, offset: 92261,
 																											},
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 813, col: 5, offset: 26260},
+																											pos:   position{line: 815, col: 5, offset: 26361},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2856, col: 13, offset: 90350},
+																												pos: position{line: 2858, col: 13, offset: 90451},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2856, col: 13, offset: 90350},
+																													pos: position{line: 2858, col: 13, offset: 90451},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2856, col: 13, offset: 90350},
+																														pos:        position{line: 2858, col: 13, offset: 90451},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18008,28 +18008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2932, col: 8, offset: 92222},
+																											pos: position{line: 2934, col: 8, offset: 92323},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2919, col: 12, offset: 91995},
+																													pos: position{line: 2921, col: 12, offset: 92096},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2919, col: 13, offset: 91996},
+																														pos: position{line: 2921, col: 13, offset: 92097},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 13, offset: 91996},
+																																pos:        position{line: 2921, col: 13, offset: 92097},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 20, offset: 92003},
+																																pos:        position{line: 2921, col: 20, offset: 92104},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 29, offset: 92012},
+																																pos:        position{line: 2921, col: 29, offset: 92113},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18038,9 +18038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2929, col: 8, offset: 92172},
+																													pos: position{line: 2931, col: 8, offset: 92273},
 																													expr: &anyMatcher{
-																														line: 2929, col: 9, offset: 92173,
+																														line: 2931, col: 9, offset: 92274,
 																													},
 																												},
 																											},
@@ -18055,35 +18055,35 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrOneExpr{
-																		pos: position{line: 823, col: 5, offset: 26486},
+																		pos: position{line: 825, col: 5, offset: 26587},
 																		expr: &choiceExpr{
-																			pos: position{line: 829, col: 29, offset: 26681},
+																			pos: position{line: 831, col: 29, offset: 26782},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 741, col: 5, offset: 23681},
+																					pos: position{line: 743, col: 5, offset: 23782},
 																					run: (*parser).callonDocumentHeader378,
 																					expr: &seqExpr{
-																						pos: position{line: 741, col: 5, offset: 23681},
+																						pos: position{line: 743, col: 5, offset: 23782},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 741, col: 5, offset: 23681},
+																								pos:   position{line: 743, col: 5, offset: 23782},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 741, col: 16, offset: 23692},
+																									pos: position{line: 743, col: 16, offset: 23793},
 																									run: (*parser).callonDocumentHeader381,
 																									expr: &seqExpr{
-																										pos: position{line: 741, col: 16, offset: 23692},
+																										pos: position{line: 743, col: 16, offset: 23793},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 741, col: 16, offset: 23692},
+																												pos:        position{line: 743, col: 16, offset: 23793},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 741, col: 23, offset: 23699},
+																												pos: position{line: 743, col: 23, offset: 23800},
 																												expr: &litMatcher{
-																													pos:        position{line: 741, col: 23, offset: 23699},
+																													pos:        position{line: 743, col: 23, offset: 23800},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -18094,12 +18094,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 743, col: 8, offset: 23783},
+																								pos: position{line: 745, col: 8, offset: 23884},
 																								expr: &actionExpr{
-																									pos: position{line: 2910, col: 10, offset: 91824},
+																									pos: position{line: 2912, col: 10, offset: 91925},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2910, col: 10, offset: 91824},
+																										pos:        position{line: 2912, col: 10, offset: 91925},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -18108,28 +18108,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2932, col: 8, offset: 92222},
+																								pos: position{line: 2934, col: 8, offset: 92323},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2919, col: 12, offset: 91995},
+																										pos: position{line: 2921, col: 12, offset: 92096},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2919, col: 13, offset: 91996},
+																											pos: position{line: 2921, col: 13, offset: 92097},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 13, offset: 91996},
+																													pos:        position{line: 2921, col: 13, offset: 92097},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 20, offset: 92003},
+																													pos:        position{line: 2921, col: 20, offset: 92104},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 29, offset: 92012},
+																													pos:        position{line: 2921, col: 29, offset: 92113},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -18138,9 +18138,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2929, col: 8, offset: 92172},
+																										pos: position{line: 2931, col: 8, offset: 92273},
 																										expr: &anyMatcher{
-																											line: 2929, col: 9, offset: 92173,
+																											line: 2931, col: 9, offset: 92274,
 																										},
 																									},
 																								},
@@ -18149,9 +18149,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
@@ -18164,23 +18164,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1122, col: 5, offset: 34632},
+												pos:   position{line: 1124, col: 5, offset: 34733},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1122, col: 14, offset: 34641},
+													pos: position{line: 1124, col: 14, offset: 34742},
 													expr: &actionExpr{
-														pos: position{line: 1170, col: 21, offset: 35984},
+														pos: position{line: 1172, col: 21, offset: 36085},
 														run: (*parser).callonDocumentHeader401,
 														expr: &seqExpr{
-															pos: position{line: 1170, col: 21, offset: 35984},
+															pos: position{line: 1172, col: 21, offset: 36085},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1170, col: 21, offset: 35984},
+																	pos: position{line: 1172, col: 21, offset: 36085},
 																	expr: &actionExpr{
-																		pos: position{line: 2910, col: 10, offset: 91824},
+																		pos: position{line: 2912, col: 10, offset: 91925},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2910, col: 10, offset: 91824},
+																			pos:        position{line: 2912, col: 10, offset: 91925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18189,55 +18189,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1170, col: 28, offset: 35991},
+																	pos: position{line: 1172, col: 28, offset: 36092},
 																	expr: &litMatcher{
-																		pos:        position{line: 1170, col: 29, offset: 35992},
+																		pos:        position{line: 1172, col: 29, offset: 36093},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1170, col: 33, offset: 35996},
+																	pos:   position{line: 1172, col: 33, offset: 36097},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1171, col: 9, offset: 36015},
+																		pos: position{line: 1173, col: 9, offset: 36116},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1171, col: 10, offset: 36016},
+																				pos: position{line: 1173, col: 10, offset: 36117},
 																				run: (*parser).callonDocumentHeader410,
 																				expr: &seqExpr{
-																					pos: position{line: 1171, col: 10, offset: 36016},
+																					pos: position{line: 1173, col: 10, offset: 36117},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1171, col: 10, offset: 36016},
+																							pos:   position{line: 1173, col: 10, offset: 36117},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1180, col: 27, offset: 36533},
+																								pos: position{line: 1182, col: 27, offset: 36634},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1180, col: 27, offset: 36533},
+																										pos: position{line: 1182, col: 27, offset: 36634},
 																										run: (*parser).callonDocumentHeader414,
 																										expr: &seqExpr{
-																											pos: position{line: 1180, col: 27, offset: 36533},
+																											pos: position{line: 1182, col: 27, offset: 36634},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1180, col: 27, offset: 36533},
+																													pos:        position{line: 1182, col: 27, offset: 36634},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1180, col: 32, offset: 36538},
+																													pos:        position{line: 1182, col: 32, offset: 36639},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1180, col: 38, offset: 36544},
+																													pos: position{line: 1182, col: 38, offset: 36645},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1180, col: 38, offset: 36544},
+																														pos:        position{line: 1182, col: 38, offset: 36645},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18248,31 +18248,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1182, col: 5, offset: 36592},
+																										pos: position{line: 1184, col: 5, offset: 36693},
 																										run: (*parser).callonDocumentHeader420,
 																										expr: &seqExpr{
-																											pos: position{line: 1182, col: 5, offset: 36592},
+																											pos: position{line: 1184, col: 5, offset: 36693},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1182, col: 5, offset: 36592},
+																													pos: position{line: 1184, col: 5, offset: 36693},
 																													expr: &litMatcher{
-																														pos:        position{line: 1182, col: 5, offset: 36592},
+																														pos:        position{line: 1184, col: 5, offset: 36693},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1182, col: 11, offset: 36598},
+																													pos:        position{line: 1184, col: 11, offset: 36699},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1182, col: 17, offset: 36604},
+																													pos: position{line: 1184, col: 17, offset: 36705},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1182, col: 17, offset: 36604},
+																														pos:        position{line: 1184, col: 17, offset: 36705},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18280,12 +18280,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1182, col: 28, offset: 36615},
+																													pos: position{line: 1184, col: 28, offset: 36716},
 																													expr: &actionExpr{
-																														pos: position{line: 2910, col: 10, offset: 91824},
+																														pos: position{line: 2912, col: 10, offset: 91925},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2910, col: 10, offset: 91824},
+																															pos:        position{line: 2912, col: 10, offset: 91925},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18294,9 +18294,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1182, col: 35, offset: 36622},
+																													pos: position{line: 1184, col: 35, offset: 36723},
 																													expr: &litMatcher{
-																														pos:        position{line: 1182, col: 36, offset: 36623},
+																														pos:        position{line: 1184, col: 36, offset: 36724},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -18309,26 +18309,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1171, col: 45, offset: 36051},
+																							pos: position{line: 1173, col: 45, offset: 36152},
 																							expr: &litMatcher{
-																								pos:        position{line: 1171, col: 45, offset: 36051},
+																								pos:        position{line: 1173, col: 45, offset: 36152},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1171, col: 50, offset: 36056},
+																							pos:   position{line: 1173, col: 50, offset: 36157},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1171, col: 58, offset: 36064},
+																								pos: position{line: 1173, col: 58, offset: 36165},
 																								expr: &actionExpr{
-																									pos: position{line: 1186, col: 25, offset: 36687},
+																									pos: position{line: 1188, col: 25, offset: 36788},
 																									run: (*parser).callonDocumentHeader436,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1186, col: 25, offset: 36687},
+																										pos: position{line: 1188, col: 25, offset: 36788},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1186, col: 25, offset: 36687},
+																											pos:        position{line: 1188, col: 25, offset: 36788},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -18339,26 +18339,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1171, col: 82, offset: 36088},
+																							pos: position{line: 1173, col: 82, offset: 36189},
 																							expr: &litMatcher{
-																								pos:        position{line: 1171, col: 82, offset: 36088},
+																								pos:        position{line: 1173, col: 82, offset: 36189},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1171, col: 87, offset: 36093},
+																							pos:   position{line: 1173, col: 87, offset: 36194},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1171, col: 97, offset: 36103},
+																								pos: position{line: 1173, col: 97, offset: 36204},
 																								expr: &actionExpr{
-																									pos: position{line: 1190, col: 27, offset: 36759},
+																									pos: position{line: 1192, col: 27, offset: 36860},
 																									run: (*parser).callonDocumentHeader443,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1190, col: 27, offset: 36759},
+																										pos: position{line: 1192, col: 27, offset: 36860},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1190, col: 27, offset: 36759},
+																											pos:        position{line: 1192, col: 27, offset: 36860},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18372,21 +18372,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1173, col: 15, offset: 36221},
+																				pos: position{line: 1175, col: 15, offset: 36322},
 																				run: (*parser).callonDocumentHeader446,
 																				expr: &seqExpr{
-																					pos: position{line: 1173, col: 15, offset: 36221},
+																					pos: position{line: 1175, col: 15, offset: 36322},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1173, col: 15, offset: 36221},
+																							pos:   position{line: 1175, col: 15, offset: 36322},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1186, col: 25, offset: 36687},
+																								pos: position{line: 1188, col: 25, offset: 36788},
 																								run: (*parser).callonDocumentHeader449,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1186, col: 25, offset: 36687},
+																									pos: position{line: 1188, col: 25, offset: 36788},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1186, col: 25, offset: 36687},
+																										pos:        position{line: 1188, col: 25, offset: 36788},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -18396,26 +18396,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1173, col: 46, offset: 36252},
+																							pos: position{line: 1175, col: 46, offset: 36353},
 																							expr: &litMatcher{
-																								pos:        position{line: 1173, col: 46, offset: 36252},
+																								pos:        position{line: 1175, col: 46, offset: 36353},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1173, col: 51, offset: 36257},
+																							pos:   position{line: 1175, col: 51, offset: 36358},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1173, col: 61, offset: 36267},
+																								pos: position{line: 1175, col: 61, offset: 36368},
 																								expr: &actionExpr{
-																									pos: position{line: 1190, col: 27, offset: 36759},
+																									pos: position{line: 1192, col: 27, offset: 36860},
 																									run: (*parser).callonDocumentHeader456,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1190, col: 27, offset: 36759},
+																										pos: position{line: 1192, col: 27, offset: 36860},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1190, col: 27, offset: 36759},
+																											pos:        position{line: 1192, col: 27, offset: 36860},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18432,28 +18432,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2932, col: 8, offset: 92222},
+																	pos: position{line: 2934, col: 8, offset: 92323},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2919, col: 12, offset: 91995},
+																			pos: position{line: 2921, col: 12, offset: 92096},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2919, col: 13, offset: 91996},
+																				pos: position{line: 2921, col: 13, offset: 92097},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 13, offset: 91996},
+																						pos:        position{line: 2921, col: 13, offset: 92097},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 20, offset: 92003},
+																						pos:        position{line: 2921, col: 20, offset: 92104},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 29, offset: 92012},
+																						pos:        position{line: 2921, col: 29, offset: 92113},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18462,9 +18462,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2929, col: 8, offset: 92172},
+																			pos: position{line: 2931, col: 8, offset: 92273},
 																			expr: &anyMatcher{
-																				line: 2929, col: 9, offset: 92173,
+																				line: 2931, col: 9, offset: 92274,
 																			},
 																		},
 																	},
@@ -18480,40 +18480,40 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1109, col: 5, offset: 34178},
+							pos:   position{line: 1111, col: 5, offset: 34279},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1109, col: 19, offset: 34192},
+								pos: position{line: 1111, col: 19, offset: 34293},
 								expr: &choiceExpr{
-									pos: position{line: 1109, col: 20, offset: 34193},
+									pos: position{line: 1111, col: 20, offset: 34294},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1109, col: 20, offset: 34193},
+											pos:  position{line: 1111, col: 20, offset: 34294},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
-											pos: position{line: 360, col: 19, offset: 10910},
+											pos: position{line: 362, col: 19, offset: 11011},
 											run: (*parser).callonDocumentHeader471,
 											expr: &seqExpr{
-												pos: position{line: 360, col: 19, offset: 10910},
+												pos: position{line: 362, col: 19, offset: 11011},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 360, col: 19, offset: 10910},
+														pos:        position{line: 362, col: 19, offset: 11011},
 														val:        ":!",
 														ignoreCase: false,
 														want:       "\":!\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 360, col: 24, offset: 10915},
+														pos:   position{line: 362, col: 24, offset: 11016},
 														label: "name",
 														expr: &actionExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 320, col: 18, offset: 9837},
 															run: (*parser).callonDocumentHeader475,
 															expr: &seqExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 320, col: 18, offset: 9837},
 																exprs: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 318, col: 18, offset: 9736},
+																		pos:        position{line: 320, col: 18, offset: 9837},
 																		val:        "[_\\pL\\pN]",
 																		chars:      []rune{'_'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -18521,9 +18521,9 @@ var g = &grammar{
 																		inverted:   false,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 318, col: 28, offset: 9746},
+																		pos: position{line: 320, col: 28, offset: 9847},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 318, col: 29, offset: 9747},
+																			pos:        position{line: 320, col: 29, offset: 9848},
 																			val:        "[-\\pL\\pN]",
 																			chars:      []rune{'-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -18536,18 +18536,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 360, col: 45, offset: 10936},
+														pos:        position{line: 362, col: 45, offset: 11037},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 360, col: 49, offset: 10940},
+														pos: position{line: 362, col: 49, offset: 11041},
 														expr: &actionExpr{
-															pos: position{line: 2910, col: 10, offset: 91824},
+															pos: position{line: 2912, col: 10, offset: 91925},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2910, col: 10, offset: 91824},
+																pos:        position{line: 2912, col: 10, offset: 91925},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18556,28 +18556,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2932, col: 8, offset: 92222},
+														pos: position{line: 2934, col: 8, offset: 92323},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2919, col: 12, offset: 91995},
+																pos: position{line: 2921, col: 12, offset: 92096},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2919, col: 13, offset: 91996},
+																	pos: position{line: 2921, col: 13, offset: 92097},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 13, offset: 91996},
+																			pos:        position{line: 2921, col: 13, offset: 92097},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 20, offset: 92003},
+																			pos:        position{line: 2921, col: 20, offset: 92104},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 29, offset: 92012},
+																			pos:        position{line: 2921, col: 29, offset: 92113},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18586,9 +18586,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2929, col: 8, offset: 92172},
+																pos: position{line: 2931, col: 8, offset: 92273},
 																expr: &anyMatcher{
-																	line: 2929, col: 9, offset: 92173,
+																	line: 2931, col: 9, offset: 92274,
 																},
 															},
 														},
@@ -18597,28 +18597,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 362, col: 9, offset: 11031},
+											pos: position{line: 364, col: 9, offset: 11132},
 											run: (*parser).callonDocumentHeader492,
 											expr: &seqExpr{
-												pos: position{line: 362, col: 9, offset: 11031},
+												pos: position{line: 364, col: 9, offset: 11132},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 362, col: 9, offset: 11031},
+														pos:        position{line: 364, col: 9, offset: 11132},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 362, col: 13, offset: 11035},
+														pos:   position{line: 364, col: 13, offset: 11136},
 														label: "name",
 														expr: &actionExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 320, col: 18, offset: 9837},
 															run: (*parser).callonDocumentHeader496,
 															expr: &seqExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 320, col: 18, offset: 9837},
 																exprs: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 318, col: 18, offset: 9736},
+																		pos:        position{line: 320, col: 18, offset: 9837},
 																		val:        "[_\\pL\\pN]",
 																		chars:      []rune{'_'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -18626,9 +18626,9 @@ var g = &grammar{
 																		inverted:   false,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 318, col: 28, offset: 9746},
+																		pos: position{line: 320, col: 28, offset: 9847},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 318, col: 29, offset: 9747},
+																			pos:        position{line: 320, col: 29, offset: 9848},
 																			val:        "[-\\pL\\pN]",
 																			chars:      []rune{'-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -18641,18 +18641,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 362, col: 34, offset: 11056},
+														pos:        position{line: 364, col: 34, offset: 11157},
 														val:        "!:",
 														ignoreCase: false,
 														want:       "\"!:\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 362, col: 39, offset: 11061},
+														pos: position{line: 364, col: 39, offset: 11162},
 														expr: &actionExpr{
-															pos: position{line: 2910, col: 10, offset: 91824},
+															pos: position{line: 2912, col: 10, offset: 91925},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2910, col: 10, offset: 91824},
+																pos:        position{line: 2912, col: 10, offset: 91925},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18661,28 +18661,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2932, col: 8, offset: 92222},
+														pos: position{line: 2934, col: 8, offset: 92323},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2919, col: 12, offset: 91995},
+																pos: position{line: 2921, col: 12, offset: 92096},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2919, col: 13, offset: 91996},
+																	pos: position{line: 2921, col: 13, offset: 92097},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 13, offset: 91996},
+																			pos:        position{line: 2921, col: 13, offset: 92097},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 20, offset: 92003},
+																			pos:        position{line: 2921, col: 20, offset: 92104},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 29, offset: 92012},
+																			pos:        position{line: 2921, col: 29, offset: 92113},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18691,9 +18691,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2929, col: 8, offset: 92172},
+																pos: position{line: 2931, col: 8, offset: 92273},
 																expr: &anyMatcher{
-																	line: 2929, col: 9, offset: 92173,
+																	line: 2931, col: 9, offset: 92274,
 																},
 															},
 														},
@@ -18702,36 +18702,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2513, col: 22, offset: 80602},
+											pos: position{line: 2515, col: 22, offset: 80703},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2513, col: 22, offset: 80602},
+												pos: position{line: 2515, col: 22, offset: 80703},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2518, col: 31, offset: 80852},
+														pos:        position{line: 2520, col: 31, offset: 80953},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2518, col: 36, offset: 80857},
+														pos: position{line: 2520, col: 36, offset: 80958},
 														expr: &litMatcher{
-															pos:        position{line: 2518, col: 37, offset: 80858},
+															pos:        position{line: 2520, col: 37, offset: 80959},
 															val:        "/",
 															ignoreCase: false,
 															want:       "\"/\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2513, col: 49, offset: 80629},
+														pos:   position{line: 2515, col: 49, offset: 80730},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2856, col: 13, offset: 90350},
+															pos: position{line: 2858, col: 13, offset: 90451},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2856, col: 13, offset: 90350},
+																pos: position{line: 2858, col: 13, offset: 90451},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2856, col: 13, offset: 90350},
+																	pos:        position{line: 2858, col: 13, offset: 90451},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18741,28 +18741,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2932, col: 8, offset: 92222},
+														pos: position{line: 2934, col: 8, offset: 92323},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2919, col: 12, offset: 91995},
+																pos: position{line: 2921, col: 12, offset: 92096},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2919, col: 13, offset: 91996},
+																	pos: position{line: 2921, col: 13, offset: 92097},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 13, offset: 91996},
+																			pos:        position{line: 2921, col: 13, offset: 92097},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 20, offset: 92003},
+																			pos:        position{line: 2921, col: 20, offset: 92104},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 29, offset: 92012},
+																			pos:        position{line: 2921, col: 29, offset: 92113},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18771,9 +18771,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2929, col: 8, offset: 92172},
+																pos: position{line: 2931, col: 8, offset: 92273},
 																expr: &anyMatcher{
-																	line: 2929, col: 9, offset: 92173,
+																	line: 2931, col: 9, offset: 92274,
 																},
 															},
 														},
@@ -18782,36 +18782,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 821, col: 5, offset: 26421},
+											pos: position{line: 823, col: 5, offset: 26522},
 											run: (*parser).callonDocumentHeader530,
 											expr: &seqExpr{
-												pos: position{line: 821, col: 5, offset: 26421},
+												pos: position{line: 823, col: 5, offset: 26522},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 741, col: 5, offset: 23681},
+														pos: position{line: 743, col: 5, offset: 23782},
 														run: (*parser).callonDocumentHeader532,
 														expr: &seqExpr{
-															pos: position{line: 741, col: 5, offset: 23681},
+															pos: position{line: 743, col: 5, offset: 23782},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 741, col: 5, offset: 23681},
+																	pos:   position{line: 743, col: 5, offset: 23782},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 741, col: 16, offset: 23692},
+																		pos: position{line: 743, col: 16, offset: 23793},
 																		run: (*parser).callonDocumentHeader535,
 																		expr: &seqExpr{
-																			pos: position{line: 741, col: 16, offset: 23692},
+																			pos: position{line: 743, col: 16, offset: 23793},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 741, col: 16, offset: 23692},
+																					pos:        position{line: 743, col: 16, offset: 23793},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 741, col: 23, offset: 23699},
+																					pos: position{line: 743, col: 23, offset: 23800},
 																					expr: &litMatcher{
-																						pos:        position{line: 741, col: 23, offset: 23699},
+																						pos:        position{line: 743, col: 23, offset: 23800},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -18822,12 +18822,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 743, col: 8, offset: 23783},
+																	pos: position{line: 745, col: 8, offset: 23884},
 																	expr: &actionExpr{
-																		pos: position{line: 2910, col: 10, offset: 91824},
+																		pos: position{line: 2912, col: 10, offset: 91925},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2910, col: 10, offset: 91824},
+																			pos:        position{line: 2912, col: 10, offset: 91925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18836,28 +18836,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2932, col: 8, offset: 92222},
+																	pos: position{line: 2934, col: 8, offset: 92323},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2919, col: 12, offset: 91995},
+																			pos: position{line: 2921, col: 12, offset: 92096},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2919, col: 13, offset: 91996},
+																				pos: position{line: 2921, col: 13, offset: 92097},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 13, offset: 91996},
+																						pos:        position{line: 2921, col: 13, offset: 92097},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 20, offset: 92003},
+																						pos:        position{line: 2921, col: 20, offset: 92104},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 29, offset: 92012},
+																						pos:        position{line: 2921, col: 29, offset: 92113},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18866,9 +18866,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2929, col: 8, offset: 92172},
+																			pos: position{line: 2931, col: 8, offset: 92273},
 																			expr: &anyMatcher{
-																				line: 2929, col: 9, offset: 92173,
+																				line: 2931, col: 9, offset: 92274,
 																			},
 																		},
 																	},
@@ -18877,46 +18877,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 822, col: 5, offset: 26452},
+														pos:   position{line: 824, col: 5, offset: 26553},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 832, col: 5, offset: 26738},
+															pos: position{line: 834, col: 5, offset: 26839},
 															expr: &actionExpr{
-																pos: position{line: 832, col: 6, offset: 26739},
+																pos: position{line: 834, col: 6, offset: 26840},
 																run: (*parser).callonDocumentHeader553,
 																expr: &seqExpr{
-																	pos: position{line: 832, col: 6, offset: 26739},
+																	pos: position{line: 834, col: 6, offset: 26840},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 832, col: 6, offset: 26739},
+																			pos: position{line: 834, col: 6, offset: 26840},
 																			expr: &choiceExpr{
-																				pos: position{line: 829, col: 29, offset: 26681},
+																				pos: position{line: 831, col: 29, offset: 26782},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 741, col: 5, offset: 23681},
+																						pos: position{line: 743, col: 5, offset: 23782},
 																						run: (*parser).callonDocumentHeader557,
 																						expr: &seqExpr{
-																							pos: position{line: 741, col: 5, offset: 23681},
+																							pos: position{line: 743, col: 5, offset: 23782},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 741, col: 5, offset: 23681},
+																									pos:   position{line: 743, col: 5, offset: 23782},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 741, col: 16, offset: 23692},
+																										pos: position{line: 743, col: 16, offset: 23793},
 																										run: (*parser).callonDocumentHeader560,
 																										expr: &seqExpr{
-																											pos: position{line: 741, col: 16, offset: 23692},
+																											pos: position{line: 743, col: 16, offset: 23793},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 741, col: 16, offset: 23692},
+																													pos:        position{line: 743, col: 16, offset: 23793},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 741, col: 23, offset: 23699},
+																													pos: position{line: 743, col: 23, offset: 23800},
 																													expr: &litMatcher{
-																														pos:        position{line: 741, col: 23, offset: 23699},
+																														pos:        position{line: 743, col: 23, offset: 23800},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -18927,12 +18927,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 743, col: 8, offset: 23783},
+																									pos: position{line: 745, col: 8, offset: 23884},
 																									expr: &actionExpr{
-																										pos: position{line: 2910, col: 10, offset: 91824},
+																										pos: position{line: 2912, col: 10, offset: 91925},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2910, col: 10, offset: 91824},
+																											pos:        position{line: 2912, col: 10, offset: 91925},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18941,28 +18941,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2932, col: 8, offset: 92222},
+																									pos: position{line: 2934, col: 8, offset: 92323},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2919, col: 12, offset: 91995},
+																											pos: position{line: 2921, col: 12, offset: 92096},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2919, col: 13, offset: 91996},
+																												pos: position{line: 2921, col: 13, offset: 92097},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 13, offset: 91996},
+																														pos:        position{line: 2921, col: 13, offset: 92097},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 20, offset: 92003},
+																														pos:        position{line: 2921, col: 20, offset: 92104},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 29, offset: 92012},
+																														pos:        position{line: 2921, col: 29, offset: 92113},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18971,9 +18971,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2929, col: 8, offset: 92172},
+																											pos: position{line: 2931, col: 8, offset: 92273},
 																											expr: &anyMatcher{
-																												line: 2929, col: 9, offset: 92173,
+																												line: 2931, col: 9, offset: 92274,
 																											},
 																										},
 																									},
@@ -18982,39 +18982,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2929, col: 8, offset: 92172},
+																						pos: position{line: 2931, col: 8, offset: 92273},
 																						expr: &anyMatcher{
-																							line: 2929, col: 9, offset: 92173,
+																							line: 2931, col: 9, offset: 92274,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 833, col: 5, offset: 26769},
+																			pos:   position{line: 835, col: 5, offset: 26870},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26185},
+																				pos: position{line: 814, col: 5, offset: 26286},
 																				run: (*parser).callonDocumentHeader579,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26185},
+																					pos: position{line: 814, col: 5, offset: 26286},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2927, col: 11, offset: 92158},
+																							pos: position{line: 2929, col: 11, offset: 92259},
 																							expr: &anyMatcher{
-																								line: 2927, col: 13, offset: 92160,
+																								line: 2929, col: 13, offset: 92261,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26260},
+																							pos:   position{line: 815, col: 5, offset: 26361},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2856, col: 13, offset: 90350},
+																								pos: position{line: 2858, col: 13, offset: 90451},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2856, col: 13, offset: 90350},
+																									pos: position{line: 2858, col: 13, offset: 90451},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2856, col: 13, offset: 90350},
+																										pos:        position{line: 2858, col: 13, offset: 90451},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19024,28 +19024,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19054,9 +19054,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -19071,35 +19071,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 823, col: 5, offset: 26486},
+														pos: position{line: 825, col: 5, offset: 26587},
 														expr: &choiceExpr{
-															pos: position{line: 829, col: 29, offset: 26681},
+															pos: position{line: 831, col: 29, offset: 26782},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 741, col: 5, offset: 23681},
+																	pos: position{line: 743, col: 5, offset: 23782},
 																	run: (*parser).callonDocumentHeader597,
 																	expr: &seqExpr{
-																		pos: position{line: 741, col: 5, offset: 23681},
+																		pos: position{line: 743, col: 5, offset: 23782},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 741, col: 5, offset: 23681},
+																				pos:   position{line: 743, col: 5, offset: 23782},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 741, col: 16, offset: 23692},
+																					pos: position{line: 743, col: 16, offset: 23793},
 																					run: (*parser).callonDocumentHeader600,
 																					expr: &seqExpr{
-																						pos: position{line: 741, col: 16, offset: 23692},
+																						pos: position{line: 743, col: 16, offset: 23793},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 741, col: 16, offset: 23692},
+																								pos:        position{line: 743, col: 16, offset: 23793},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 741, col: 23, offset: 23699},
+																								pos: position{line: 743, col: 23, offset: 23800},
 																								expr: &litMatcher{
-																									pos:        position{line: 741, col: 23, offset: 23699},
+																									pos:        position{line: 743, col: 23, offset: 23800},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -19110,12 +19110,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 743, col: 8, offset: 23783},
+																				pos: position{line: 745, col: 8, offset: 23884},
 																				expr: &actionExpr{
-																					pos: position{line: 2910, col: 10, offset: 91824},
+																					pos: position{line: 2912, col: 10, offset: 91925},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2910, col: 10, offset: 91824},
+																						pos:        position{line: 2912, col: 10, offset: 91925},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -19124,28 +19124,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2932, col: 8, offset: 92222},
+																				pos: position{line: 2934, col: 8, offset: 92323},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2919, col: 12, offset: 91995},
+																						pos: position{line: 2921, col: 12, offset: 92096},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2919, col: 13, offset: 91996},
+																							pos: position{line: 2921, col: 13, offset: 92097},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2919, col: 13, offset: 91996},
+																									pos:        position{line: 2921, col: 13, offset: 92097},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2919, col: 20, offset: 92003},
+																									pos:        position{line: 2921, col: 20, offset: 92104},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2919, col: 29, offset: 92012},
+																									pos:        position{line: 2921, col: 29, offset: 92113},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -19154,9 +19154,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2929, col: 8, offset: 92172},
+																						pos: position{line: 2931, col: 8, offset: 92273},
 																						expr: &anyMatcher{
-																							line: 2929, col: 9, offset: 92173,
+																							line: 2931, col: 9, offset: 92274,
 																						},
 																					},
 																				},
@@ -19165,9 +19165,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2929, col: 8, offset: 92172},
+																	pos: position{line: 2931, col: 8, offset: 92273},
 																	expr: &anyMatcher{
-																		line: 2929, col: 9, offset: 92173,
+																		line: 2931, col: 9, offset: 92274,
 																	},
 																},
 															},
@@ -19186,26 +19186,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1113, col: 1, offset: 34390},
+			pos:  position{line: 1115, col: 1, offset: 34491},
 			expr: &actionExpr{
-				pos: position{line: 1114, col: 5, offset: 34412},
+				pos: position{line: 1116, col: 5, offset: 34513},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1114, col: 5, offset: 34412},
+					pos: position{line: 1116, col: 5, offset: 34513},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1114, col: 5, offset: 34412},
+							pos:        position{line: 1116, col: 5, offset: 34513},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2914, col: 11, offset: 91885},
+							pos: position{line: 2916, col: 11, offset: 91986},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2914, col: 11, offset: 91885},
+								pos: position{line: 2916, col: 11, offset: 91986},
 								expr: &charClassMatcher{
-									pos:        position{line: 2914, col: 11, offset: 91885},
+									pos:        position{line: 2916, col: 11, offset: 91986},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19214,36 +19214,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1114, col: 16, offset: 34423},
+							pos:   position{line: 1116, col: 16, offset: 34524},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1114, col: 23, offset: 34430},
+								pos:  position{line: 1116, col: 23, offset: 34531},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2932, col: 8, offset: 92222},
+							pos: position{line: 2934, col: 8, offset: 92323},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2919, col: 12, offset: 91995},
+									pos: position{line: 2921, col: 12, offset: 92096},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2919, col: 13, offset: 91996},
+										pos: position{line: 2921, col: 13, offset: 92097},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2919, col: 13, offset: 91996},
+												pos:        position{line: 2921, col: 13, offset: 92097},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2919, col: 20, offset: 92003},
+												pos:        position{line: 2921, col: 20, offset: 92104},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2919, col: 29, offset: 92012},
+												pos:        position{line: 2921, col: 29, offset: 92113},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19252,9 +19252,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2929, col: 8, offset: 92172},
+									pos: position{line: 2931, col: 8, offset: 92273},
 									expr: &anyMatcher{
-										line: 2929, col: 9, offset: 92173,
+										line: 2931, col: 9, offset: 92274,
 									},
 								},
 							},
@@ -19265,23 +19265,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1141, col: 1, offset: 35270},
+			pos:  position{line: 1143, col: 1, offset: 35371},
 			expr: &actionExpr{
-				pos: position{line: 1142, col: 5, offset: 35301},
+				pos: position{line: 1144, col: 5, offset: 35402},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1142, col: 5, offset: 35301},
+					pos: position{line: 1144, col: 5, offset: 35402},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1142, col: 5, offset: 35301},
+							pos:   position{line: 1144, col: 5, offset: 35402},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1142, col: 12, offset: 35308},
+								pos: position{line: 1144, col: 12, offset: 35409},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1142, col: 12, offset: 35308},
+									pos: position{line: 1144, col: 12, offset: 35409},
 									expr: &charClassMatcher{
-										pos:        position{line: 1142, col: 12, offset: 35308},
+										pos:        position{line: 1144, col: 12, offset: 35409},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -19291,12 +19291,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1145, col: 5, offset: 35388},
+							pos: position{line: 1147, col: 5, offset: 35489},
 							expr: &actionExpr{
-								pos: position{line: 2910, col: 10, offset: 91824},
+								pos: position{line: 2912, col: 10, offset: 91925},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2910, col: 10, offset: 91824},
+									pos:        position{line: 2912, col: 10, offset: 91925},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19305,17 +19305,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1146, col: 5, offset: 35399},
+							pos:   position{line: 1148, col: 5, offset: 35500},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1146, col: 11, offset: 35405},
+								pos: position{line: 1148, col: 11, offset: 35506},
 								expr: &actionExpr{
-									pos: position{line: 1146, col: 12, offset: 35406},
+									pos: position{line: 1148, col: 12, offset: 35507},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1146, col: 12, offset: 35406},
+										pos: position{line: 1148, col: 12, offset: 35507},
 										expr: &charClassMatcher{
-											pos:        position{line: 1146, col: 12, offset: 35406},
+											pos:        position{line: 1148, col: 12, offset: 35507},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -19326,12 +19326,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1149, col: 5, offset: 35487},
+							pos: position{line: 1151, col: 5, offset: 35588},
 							expr: &actionExpr{
-								pos: position{line: 2910, col: 10, offset: 91824},
+								pos: position{line: 2912, col: 10, offset: 91925},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2910, col: 10, offset: 91824},
+									pos:        position{line: 2912, col: 10, offset: 91925},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19340,17 +19340,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1150, col: 5, offset: 35498},
+							pos:   position{line: 1152, col: 5, offset: 35599},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1150, col: 11, offset: 35504},
+								pos: position{line: 1152, col: 11, offset: 35605},
 								expr: &actionExpr{
-									pos: position{line: 1150, col: 12, offset: 35505},
+									pos: position{line: 1152, col: 12, offset: 35606},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1150, col: 12, offset: 35505},
+										pos: position{line: 1152, col: 12, offset: 35606},
 										expr: &charClassMatcher{
-											pos:        position{line: 1150, col: 12, offset: 35505},
+											pos:        position{line: 1152, col: 12, offset: 35606},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -19361,12 +19361,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1153, col: 5, offset: 35584},
+							pos: position{line: 1155, col: 5, offset: 35685},
 							expr: &actionExpr{
-								pos: position{line: 2910, col: 10, offset: 91824},
+								pos: position{line: 2912, col: 10, offset: 91925},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2910, col: 10, offset: 91824},
+									pos:        position{line: 2912, col: 10, offset: 91925},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19380,28 +19380,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1266, col: 1, offset: 39313},
+			pos:  position{line: 1268, col: 1, offset: 39414},
 			expr: &actionExpr{
-				pos: position{line: 1267, col: 5, offset: 39334},
+				pos: position{line: 1269, col: 5, offset: 39435},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1267, col: 5, offset: 39334},
+					pos: position{line: 1269, col: 5, offset: 39435},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1267, col: 5, offset: 39334},
+							pos: position{line: 1269, col: 5, offset: 39435},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1270, col: 5, offset: 39393},
+							pos:        position{line: 1272, col: 5, offset: 39494},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1270, col: 12, offset: 39400},
+							pos:   position{line: 1272, col: 12, offset: 39501},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1270, col: 24, offset: 39412},
+								pos:  position{line: 1272, col: 24, offset: 39513},
 								name: "InlineAttributes",
 							},
 						},
@@ -19411,33 +19411,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1277, col: 1, offset: 39700},
+			pos:  position{line: 1279, col: 1, offset: 39801},
 			expr: &actionExpr{
-				pos: position{line: 1278, col: 5, offset: 39719},
+				pos: position{line: 1280, col: 5, offset: 39820},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1278, col: 5, offset: 39719},
+					pos: position{line: 1280, col: 5, offset: 39820},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1278, col: 5, offset: 39719},
+							pos: position{line: 1280, col: 5, offset: 39820},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1281, col: 5, offset: 39778},
+							pos:        position{line: 1283, col: 5, offset: 39879},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1281, col: 13, offset: 39786},
+							pos:   position{line: 1283, col: 13, offset: 39887},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2895, col: 7, offset: 91476},
+								pos: position{line: 2897, col: 7, offset: 91577},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2895, col: 7, offset: 91476},
+									pos: position{line: 2897, col: 7, offset: 91577},
 									expr: &charClassMatcher{
-										pos:        position{line: 2895, col: 7, offset: 91476},
+										pos:        position{line: 2897, col: 7, offset: 91577},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19447,10 +19447,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1281, col: 21, offset: 39794},
+							pos:   position{line: 1283, col: 21, offset: 39895},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1281, col: 33, offset: 39806},
+								pos:  position{line: 1283, col: 33, offset: 39907},
 								name: "InlineAttributes",
 							},
 						},
@@ -19460,29 +19460,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1288, col: 1, offset: 40105},
+			pos:  position{line: 1290, col: 1, offset: 40206},
 			expr: &actionExpr{
-				pos: position{line: 1288, col: 14, offset: 40118},
+				pos: position{line: 1290, col: 14, offset: 40219},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1288, col: 14, offset: 40118},
+					pos: position{line: 1290, col: 14, offset: 40219},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1288, col: 14, offset: 40118},
+							pos:        position{line: 1290, col: 14, offset: 40219},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1288, col: 19, offset: 40123},
+							pos:   position{line: 1290, col: 19, offset: 40224},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1288, col: 25, offset: 40129},
+								pos:  position{line: 1290, col: 25, offset: 40230},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1288, col: 43, offset: 40147},
+							pos:        position{line: 1290, col: 43, offset: 40248},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19493,25 +19493,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1292, col: 1, offset: 40216},
+			pos:  position{line: 1294, col: 1, offset: 40317},
 			expr: &actionExpr{
-				pos: position{line: 1292, col: 21, offset: 40236},
+				pos: position{line: 1294, col: 21, offset: 40337},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1292, col: 21, offset: 40236},
+					pos:   position{line: 1294, col: 21, offset: 40337},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1292, col: 30, offset: 40245},
+						pos: position{line: 1294, col: 30, offset: 40346},
 						expr: &choiceExpr{
-							pos: position{line: 1292, col: 31, offset: 40246},
+							pos: position{line: 1294, col: 31, offset: 40347},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2804, col: 14, offset: 88993},
+									pos: position{line: 2806, col: 14, offset: 89094},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2804, col: 14, offset: 88993},
+										pos: position{line: 2806, col: 14, offset: 89094},
 										expr: &charClassMatcher{
-											pos:        position{line: 2804, col: 14, offset: 88993},
+											pos:        position{line: 2806, col: 14, offset: 89094},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19520,14 +19520,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1292, col: 43, offset: 40258},
+									pos:  position{line: 1294, col: 43, offset: 40359},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2910, col: 10, offset: 91824},
+									pos: position{line: 2912, col: 10, offset: 91925},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2910, col: 10, offset: 91824},
+										pos:        position{line: 2912, col: 10, offset: 91925},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19535,23 +19535,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2500, col: 5, offset: 80148},
+									pos: position{line: 2502, col: 5, offset: 80249},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2500, col: 5, offset: 80148},
+										pos: position{line: 2502, col: 5, offset: 80249},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2500, col: 5, offset: 80148},
+												pos: position{line: 2502, col: 5, offset: 80249},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2503, col: 5, offset: 80224},
+												pos:   position{line: 2505, col: 5, offset: 80325},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2504, col: 9, offset: 80242},
+													pos: position{line: 2506, col: 9, offset: 80343},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2504, col: 10, offset: 80243},
+														pos:        position{line: 2506, col: 10, offset: 80344},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19563,27 +19563,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1199, col: 23, offset: 37069},
+									pos: position{line: 1201, col: 23, offset: 37170},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1199, col: 23, offset: 37069},
+										pos: position{line: 1201, col: 23, offset: 37170},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1197, col: 32, offset: 37037},
+												pos:        position{line: 1199, col: 32, offset: 37138},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1199, col: 51, offset: 37097},
+												pos:   position{line: 1201, col: 51, offset: 37198},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1199, col: 56, offset: 37102},
+													pos: position{line: 1201, col: 56, offset: 37203},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1199, col: 56, offset: 37102},
+														pos: position{line: 1201, col: 56, offset: 37203},
 														expr: &charClassMatcher{
-															pos:        position{line: 1199, col: 56, offset: 37102},
+															pos:        position{line: 1201, col: 56, offset: 37203},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -19593,7 +19593,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1197, col: 32, offset: 37037},
+												pos:        position{line: 1199, col: 32, offset: 37138},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
@@ -19602,22 +19602,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1292, col: 104, offset: 40319},
+									pos: position{line: 1294, col: 104, offset: 40420},
 									run: (*parser).callonIndexTermContent25,
 									expr: &seqExpr{
-										pos: position{line: 1292, col: 105, offset: 40320},
+										pos: position{line: 1294, col: 105, offset: 40421},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1292, col: 105, offset: 40320},
+												pos: position{line: 1294, col: 105, offset: 40421},
 												expr: &litMatcher{
-													pos:        position{line: 1292, col: 106, offset: 40321},
+													pos:        position{line: 1294, col: 106, offset: 40422},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1292, col: 111, offset: 40326,
+												line: 1294, col: 111, offset: 40427,
 											},
 										},
 									},
@@ -19630,65 +19630,65 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1312, col: 1, offset: 41035},
+			pos:  position{line: 1314, col: 1, offset: 41136},
 			expr: &actionExpr{
-				pos: position{line: 1313, col: 5, offset: 41054},
+				pos: position{line: 1315, col: 5, offset: 41155},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1313, col: 5, offset: 41054},
+					pos: position{line: 1315, col: 5, offset: 41155},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1313, col: 5, offset: 41054},
+							pos:        position{line: 1315, col: 5, offset: 41155},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1313, col: 15, offset: 41064},
+							pos:   position{line: 1315, col: 15, offset: 41165},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2868, col: 13, offset: 90583},
+								pos: position{line: 2870, col: 13, offset: 90684},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2868, col: 13, offset: 90583},
+									pos: position{line: 2870, col: 13, offset: 90684},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2868, col: 13, offset: 90583},
+											pos:   position{line: 2870, col: 13, offset: 90684},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2868, col: 20, offset: 90590},
+												pos: position{line: 2870, col: 20, offset: 90691},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 11, offset: 90829},
+													pos: position{line: 2878, col: 11, offset: 90930},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2876, col: 12, offset: 90830},
+														pos: position{line: 2878, col: 12, offset: 90931},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2876, col: 12, offset: 90830},
+																pos:        position{line: 2878, col: 12, offset: 90931},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2876, col: 24, offset: 90842},
+																pos:        position{line: 2878, col: 24, offset: 90943},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2876, col: 37, offset: 90855},
+																pos:        position{line: 2878, col: 37, offset: 90956},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2876, col: 48, offset: 90866},
+																pos:        position{line: 2878, col: 48, offset: 90967},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2876, col: 59, offset: 90877},
+																pos:        position{line: 2878, col: 59, offset: 90978},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19699,38 +19699,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2868, col: 30, offset: 90600},
+											pos:   position{line: 2870, col: 30, offset: 90701},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2881, col: 5, offset: 90941},
+												pos: position{line: 2883, col: 5, offset: 91042},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2881, col: 5, offset: 90941},
+													pos:   position{line: 2883, col: 5, offset: 91042},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2881, col: 14, offset: 90950},
+														pos: position{line: 2883, col: 14, offset: 91051},
 														expr: &choiceExpr{
-															pos: position{line: 2882, col: 9, offset: 90960},
+															pos: position{line: 2884, col: 9, offset: 91061},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2882, col: 9, offset: 90960},
+																	pos: position{line: 2884, col: 9, offset: 91061},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2882, col: 9, offset: 90960},
+																		pos: position{line: 2884, col: 9, offset: 91061},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2882, col: 9, offset: 90960},
+																				pos: position{line: 2884, col: 9, offset: 91061},
 																				expr: &litMatcher{
-																					pos:        position{line: 2882, col: 10, offset: 90961},
+																					pos:        position{line: 2884, col: 10, offset: 91062},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2883, col: 9, offset: 90989},
+																				pos: position{line: 2885, col: 9, offset: 91090},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2883, col: 10, offset: 90990},
+																					pos:        position{line: 2885, col: 10, offset: 91091},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19741,27 +19741,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2886, col: 11, offset: 91202},
+																	pos: position{line: 2888, col: 11, offset: 91303},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2886, col: 11, offset: 91202},
+																			pos:        position{line: 2888, col: 11, offset: 91303},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2886, col: 19, offset: 91210},
+																			pos: position{line: 2888, col: 19, offset: 91311},
 																			expr: &seqExpr{
-																				pos: position{line: 2886, col: 21, offset: 91212},
+																				pos: position{line: 2888, col: 21, offset: 91313},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2886, col: 21, offset: 91212},
+																						pos: position{line: 2888, col: 21, offset: 91313},
 																						expr: &actionExpr{
-																							pos: position{line: 2910, col: 10, offset: 91824},
+																							pos: position{line: 2912, col: 10, offset: 91925},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2910, col: 10, offset: 91824},
+																								pos:        position{line: 2912, col: 10, offset: 91925},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19770,11 +19770,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2886, col: 28, offset: 91219},
+																						pos: position{line: 2888, col: 28, offset: 91320},
 																						expr: &notExpr{
-																							pos: position{line: 2929, col: 8, offset: 92172},
+																							pos: position{line: 2931, col: 8, offset: 92273},
 																							expr: &anyMatcher{
-																								line: 2929, col: 9, offset: 92173,
+																								line: 2931, col: 9, offset: 92274,
 																							},
 																						},
 																					},
@@ -19784,44 +19784,44 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 637, col: 5, offset: 20204},
+																	pos: position{line: 639, col: 5, offset: 20305},
 																	run: (*parser).callonImageBlock37,
 																	expr: &seqExpr{
-																		pos: position{line: 637, col: 5, offset: 20204},
+																		pos: position{line: 639, col: 5, offset: 20305},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 637, col: 5, offset: 20204},
+																				pos: position{line: 639, col: 5, offset: 20305},
 																				run: (*parser).callonImageBlock39,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 640, col: 5, offset: 20276},
+																				pos:   position{line: 642, col: 5, offset: 20377},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 640, col: 14, offset: 20285},
+																					pos: position{line: 642, col: 14, offset: 20386},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 646, col: 5, offset: 20414},
+																							pos: position{line: 648, col: 5, offset: 20515},
 																							run: (*parser).callonImageBlock42,
 																							expr: &seqExpr{
-																								pos: position{line: 646, col: 5, offset: 20414},
+																								pos: position{line: 648, col: 5, offset: 20515},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 646, col: 5, offset: 20414},
+																										pos:        position{line: 648, col: 5, offset: 20515},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 646, col: 13, offset: 20422},
+																										pos:   position{line: 648, col: 13, offset: 20523},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 320, col: 18, offset: 9837},
 																											run: (*parser).callonImageBlock46,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 320, col: 18, offset: 9837},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 320, col: 18, offset: 9837},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19829,9 +19829,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 320, col: 28, offset: 9847},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 320, col: 29, offset: 9848},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19844,7 +19844,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 646, col: 32, offset: 20441},
+																										pos:        position{line: 648, col: 32, offset: 20542},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19853,28 +19853,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 653, col: 5, offset: 20682},
+																							pos: position{line: 655, col: 5, offset: 20783},
 																							run: (*parser).callonImageBlock52,
 																							expr: &seqExpr{
-																								pos: position{line: 653, col: 5, offset: 20682},
+																								pos: position{line: 655, col: 5, offset: 20783},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 653, col: 5, offset: 20682},
+																										pos:        position{line: 655, col: 5, offset: 20783},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 653, col: 9, offset: 20686},
+																										pos:   position{line: 655, col: 9, offset: 20787},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 320, col: 18, offset: 9837},
 																											run: (*parser).callonImageBlock56,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 320, col: 18, offset: 9837},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 320, col: 18, offset: 9837},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19882,9 +19882,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 320, col: 28, offset: 9847},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 320, col: 29, offset: 9848},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19897,7 +19897,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 653, col: 28, offset: 20705},
+																										pos:        position{line: 655, col: 28, offset: 20806},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19906,28 +19906,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 659, col: 25, offset: 20886},
+																							pos: position{line: 661, col: 25, offset: 20987},
 																							run: (*parser).callonImageBlock62,
 																							expr: &seqExpr{
-																								pos: position{line: 659, col: 25, offset: 20886},
+																								pos: position{line: 661, col: 25, offset: 20987},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 659, col: 25, offset: 20886},
+																										pos:        position{line: 661, col: 25, offset: 20987},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 659, col: 37, offset: 20898},
+																										pos:   position{line: 661, col: 37, offset: 20999},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 320, col: 18, offset: 9837},
 																											run: (*parser).callonImageBlock66,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 320, col: 18, offset: 9837},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 320, col: 18, offset: 9837},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19935,9 +19935,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 320, col: 28, offset: 9847},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 320, col: 29, offset: 9848},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19950,33 +19950,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 659, col: 56, offset: 20917},
+																										pos:   position{line: 661, col: 56, offset: 21018},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 659, col: 62, offset: 20923},
+																											pos: position{line: 661, col: 62, offset: 21024},
 																											expr: &actionExpr{
-																												pos: position{line: 667, col: 17, offset: 21220},
+																												pos: position{line: 669, col: 17, offset: 21321},
 																												run: (*parser).callonImageBlock73,
 																												expr: &seqExpr{
-																													pos: position{line: 667, col: 17, offset: 21220},
+																													pos: position{line: 669, col: 17, offset: 21321},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 667, col: 17, offset: 21220},
+																															pos:        position{line: 669, col: 17, offset: 21321},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 667, col: 21, offset: 21224},
+																															pos:   position{line: 669, col: 21, offset: 21325},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 667, col: 28, offset: 21231},
+																																pos: position{line: 669, col: 28, offset: 21332},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 667, col: 28, offset: 21231},
+																																		pos: position{line: 669, col: 28, offset: 21332},
 																																		run: (*parser).callonImageBlock78,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 667, col: 28, offset: 21231},
+																																			pos:        position{line: 669, col: 28, offset: 21332},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -19984,12 +19984,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 669, col: 9, offset: 21285},
+																																		pos: position{line: 671, col: 9, offset: 21386},
 																																		run: (*parser).callonImageBlock80,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 669, col: 9, offset: 21285},
+																																			pos: position{line: 671, col: 9, offset: 21386},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 669, col: 9, offset: 21285},
+																																				pos:        position{line: 671, col: 9, offset: 21386},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20006,7 +20006,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 659, col: 78, offset: 20939},
+																										pos:        position{line: 661, col: 78, offset: 21040},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20015,28 +20015,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 663, col: 25, offset: 21057},
+																							pos: position{line: 665, col: 25, offset: 21158},
 																							run: (*parser).callonImageBlock84,
 																							expr: &seqExpr{
-																								pos: position{line: 663, col: 25, offset: 21057},
+																								pos: position{line: 665, col: 25, offset: 21158},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 663, col: 25, offset: 21057},
+																										pos:        position{line: 665, col: 25, offset: 21158},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 663, col: 38, offset: 21070},
+																										pos:   position{line: 665, col: 38, offset: 21171},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 320, col: 18, offset: 9837},
 																											run: (*parser).callonImageBlock88,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 320, col: 18, offset: 9837},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 320, col: 18, offset: 9837},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20044,9 +20044,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 320, col: 28, offset: 9847},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 320, col: 29, offset: 9848},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20059,33 +20059,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 663, col: 57, offset: 21089},
+																										pos:   position{line: 665, col: 57, offset: 21190},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 663, col: 63, offset: 21095},
+																											pos: position{line: 665, col: 63, offset: 21196},
 																											expr: &actionExpr{
-																												pos: position{line: 667, col: 17, offset: 21220},
+																												pos: position{line: 669, col: 17, offset: 21321},
 																												run: (*parser).callonImageBlock95,
 																												expr: &seqExpr{
-																													pos: position{line: 667, col: 17, offset: 21220},
+																													pos: position{line: 669, col: 17, offset: 21321},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 667, col: 17, offset: 21220},
+																															pos:        position{line: 669, col: 17, offset: 21321},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 667, col: 21, offset: 21224},
+																															pos:   position{line: 669, col: 21, offset: 21325},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 667, col: 28, offset: 21231},
+																																pos: position{line: 669, col: 28, offset: 21332},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 667, col: 28, offset: 21231},
+																																		pos: position{line: 669, col: 28, offset: 21332},
 																																		run: (*parser).callonImageBlock100,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 667, col: 28, offset: 21231},
+																																			pos:        position{line: 669, col: 28, offset: 21332},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20093,12 +20093,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 669, col: 9, offset: 21285},
+																																		pos: position{line: 671, col: 9, offset: 21386},
 																																		run: (*parser).callonImageBlock102,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 669, col: 9, offset: 21285},
+																																			pos: position{line: 671, col: 9, offset: 21386},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 669, col: 9, offset: 21285},
+																																				pos:        position{line: 671, col: 9, offset: 21386},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20115,7 +20115,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 663, col: 79, offset: 21111},
+																										pos:        position{line: 665, col: 79, offset: 21212},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20130,27 +20130,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1199, col: 23, offset: 37069},
+																	pos: position{line: 1201, col: 23, offset: 37170},
 																	run: (*parser).callonImageBlock106,
 																	expr: &seqExpr{
-																		pos: position{line: 1199, col: 23, offset: 37069},
+																		pos: position{line: 1201, col: 23, offset: 37170},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1197, col: 32, offset: 37037},
+																				pos:        position{line: 1199, col: 32, offset: 37138},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1199, col: 51, offset: 37097},
+																				pos:   position{line: 1201, col: 51, offset: 37198},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1199, col: 56, offset: 37102},
+																					pos: position{line: 1201, col: 56, offset: 37203},
 																					run: (*parser).callonImageBlock110,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1199, col: 56, offset: 37102},
+																						pos: position{line: 1201, col: 56, offset: 37203},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1199, col: 56, offset: 37102},
+																							pos:        position{line: 1201, col: 56, offset: 37203},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20160,7 +20160,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1197, col: 32, offset: 37037},
+																				pos:        position{line: 1199, col: 32, offset: 37138},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20169,10 +20169,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2889, col: 11, offset: 91339},
+																	pos: position{line: 2891, col: 11, offset: 91440},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2889, col: 11, offset: 91339},
+																		pos:        position{line: 2891, col: 11, offset: 91440},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20189,20 +20189,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1313, col: 31, offset: 41080},
+							pos:   position{line: 1315, col: 31, offset: 41181},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1313, col: 43, offset: 41092},
+								pos:  position{line: 1315, col: 43, offset: 41193},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1313, col: 61, offset: 41110},
+							pos: position{line: 1315, col: 61, offset: 41211},
 							expr: &actionExpr{
-								pos: position{line: 2910, col: 10, offset: 91824},
+								pos: position{line: 2912, col: 10, offset: 91925},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2910, col: 10, offset: 91824},
+									pos:        position{line: 2912, col: 10, offset: 91925},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20211,28 +20211,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2932, col: 8, offset: 92222},
+							pos: position{line: 2934, col: 8, offset: 92323},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2919, col: 12, offset: 91995},
+									pos: position{line: 2921, col: 12, offset: 92096},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2919, col: 13, offset: 91996},
+										pos: position{line: 2921, col: 13, offset: 92097},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2919, col: 13, offset: 91996},
+												pos:        position{line: 2921, col: 13, offset: 92097},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2919, col: 20, offset: 92003},
+												pos:        position{line: 2921, col: 20, offset: 92104},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2919, col: 29, offset: 92012},
+												pos:        position{line: 2921, col: 29, offset: 92113},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20241,9 +20241,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2929, col: 8, offset: 92172},
+									pos: position{line: 2931, col: 8, offset: 92273},
 									expr: &anyMatcher{
-										line: 2929, col: 9, offset: 92173,
+										line: 2931, col: 9, offset: 92274,
 									},
 								},
 							},
@@ -20254,74 +20254,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1318, col: 1, offset: 41327},
+			pos:  position{line: 1320, col: 1, offset: 41428},
 			expr: &actionExpr{
-				pos: position{line: 1318, col: 16, offset: 41342},
+				pos: position{line: 1320, col: 16, offset: 41443},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1318, col: 16, offset: 41342},
+					pos: position{line: 1320, col: 16, offset: 41443},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1318, col: 16, offset: 41342},
+							pos:        position{line: 1320, col: 16, offset: 41443},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1318, col: 25, offset: 41351},
+							pos: position{line: 1320, col: 25, offset: 41452},
 							expr: &litMatcher{
-								pos:        position{line: 1318, col: 26, offset: 41352},
+								pos:        position{line: 1320, col: 26, offset: 41453},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1318, col: 30, offset: 41356},
+							pos:   position{line: 1320, col: 30, offset: 41457},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2868, col: 13, offset: 90583},
+								pos: position{line: 2870, col: 13, offset: 90684},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2868, col: 13, offset: 90583},
+									pos: position{line: 2870, col: 13, offset: 90684},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2868, col: 13, offset: 90583},
+											pos:   position{line: 2870, col: 13, offset: 90684},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2868, col: 20, offset: 90590},
+												pos: position{line: 2870, col: 20, offset: 90691},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 11, offset: 90829},
+													pos: position{line: 2878, col: 11, offset: 90930},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2876, col: 12, offset: 90830},
+														pos: position{line: 2878, col: 12, offset: 90931},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2876, col: 12, offset: 90830},
+																pos:        position{line: 2878, col: 12, offset: 90931},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2876, col: 24, offset: 90842},
+																pos:        position{line: 2878, col: 24, offset: 90943},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2876, col: 37, offset: 90855},
+																pos:        position{line: 2878, col: 37, offset: 90956},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2876, col: 48, offset: 90866},
+																pos:        position{line: 2878, col: 48, offset: 90967},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2876, col: 59, offset: 90877},
+																pos:        position{line: 2878, col: 59, offset: 90978},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20332,38 +20332,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2868, col: 30, offset: 90600},
+											pos:   position{line: 2870, col: 30, offset: 90701},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2881, col: 5, offset: 90941},
+												pos: position{line: 2883, col: 5, offset: 91042},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2881, col: 5, offset: 90941},
+													pos:   position{line: 2883, col: 5, offset: 91042},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2881, col: 14, offset: 90950},
+														pos: position{line: 2883, col: 14, offset: 91051},
 														expr: &choiceExpr{
-															pos: position{line: 2882, col: 9, offset: 90960},
+															pos: position{line: 2884, col: 9, offset: 91061},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2882, col: 9, offset: 90960},
+																	pos: position{line: 2884, col: 9, offset: 91061},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2882, col: 9, offset: 90960},
+																		pos: position{line: 2884, col: 9, offset: 91061},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2882, col: 9, offset: 90960},
+																				pos: position{line: 2884, col: 9, offset: 91061},
 																				expr: &litMatcher{
-																					pos:        position{line: 2882, col: 10, offset: 90961},
+																					pos:        position{line: 2884, col: 10, offset: 91062},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2883, col: 9, offset: 90989},
+																				pos: position{line: 2885, col: 9, offset: 91090},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2883, col: 10, offset: 90990},
+																					pos:        position{line: 2885, col: 10, offset: 91091},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20374,27 +20374,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2886, col: 11, offset: 91202},
+																	pos: position{line: 2888, col: 11, offset: 91303},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2886, col: 11, offset: 91202},
+																			pos:        position{line: 2888, col: 11, offset: 91303},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2886, col: 19, offset: 91210},
+																			pos: position{line: 2888, col: 19, offset: 91311},
 																			expr: &seqExpr{
-																				pos: position{line: 2886, col: 21, offset: 91212},
+																				pos: position{line: 2888, col: 21, offset: 91313},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2886, col: 21, offset: 91212},
+																						pos: position{line: 2888, col: 21, offset: 91313},
 																						expr: &actionExpr{
-																							pos: position{line: 2910, col: 10, offset: 91824},
+																							pos: position{line: 2912, col: 10, offset: 91925},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2910, col: 10, offset: 91824},
+																								pos:        position{line: 2912, col: 10, offset: 91925},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20403,11 +20403,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2886, col: 28, offset: 91219},
+																						pos: position{line: 2888, col: 28, offset: 91320},
 																						expr: &notExpr{
-																							pos: position{line: 2929, col: 8, offset: 92172},
+																							pos: position{line: 2931, col: 8, offset: 92273},
 																							expr: &anyMatcher{
-																								line: 2929, col: 9, offset: 92173,
+																								line: 2931, col: 9, offset: 92274,
 																							},
 																						},
 																					},
@@ -20417,44 +20417,44 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 637, col: 5, offset: 20204},
+																	pos: position{line: 639, col: 5, offset: 20305},
 																	run: (*parser).callonInlineImage39,
 																	expr: &seqExpr{
-																		pos: position{line: 637, col: 5, offset: 20204},
+																		pos: position{line: 639, col: 5, offset: 20305},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 637, col: 5, offset: 20204},
+																				pos: position{line: 639, col: 5, offset: 20305},
 																				run: (*parser).callonInlineImage41,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 640, col: 5, offset: 20276},
+																				pos:   position{line: 642, col: 5, offset: 20377},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 640, col: 14, offset: 20285},
+																					pos: position{line: 642, col: 14, offset: 20386},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 646, col: 5, offset: 20414},
+																							pos: position{line: 648, col: 5, offset: 20515},
 																							run: (*parser).callonInlineImage44,
 																							expr: &seqExpr{
-																								pos: position{line: 646, col: 5, offset: 20414},
+																								pos: position{line: 648, col: 5, offset: 20515},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 646, col: 5, offset: 20414},
+																										pos:        position{line: 648, col: 5, offset: 20515},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 646, col: 13, offset: 20422},
+																										pos:   position{line: 648, col: 13, offset: 20523},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 320, col: 18, offset: 9837},
 																											run: (*parser).callonInlineImage48,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 320, col: 18, offset: 9837},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 320, col: 18, offset: 9837},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20462,9 +20462,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 320, col: 28, offset: 9847},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 320, col: 29, offset: 9848},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20477,7 +20477,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 646, col: 32, offset: 20441},
+																										pos:        position{line: 648, col: 32, offset: 20542},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20486,28 +20486,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 653, col: 5, offset: 20682},
+																							pos: position{line: 655, col: 5, offset: 20783},
 																							run: (*parser).callonInlineImage54,
 																							expr: &seqExpr{
-																								pos: position{line: 653, col: 5, offset: 20682},
+																								pos: position{line: 655, col: 5, offset: 20783},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 653, col: 5, offset: 20682},
+																										pos:        position{line: 655, col: 5, offset: 20783},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 653, col: 9, offset: 20686},
+																										pos:   position{line: 655, col: 9, offset: 20787},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 320, col: 18, offset: 9837},
 																											run: (*parser).callonInlineImage58,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 320, col: 18, offset: 9837},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 320, col: 18, offset: 9837},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20515,9 +20515,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 320, col: 28, offset: 9847},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 320, col: 29, offset: 9848},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20530,7 +20530,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 653, col: 28, offset: 20705},
+																										pos:        position{line: 655, col: 28, offset: 20806},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20539,28 +20539,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 659, col: 25, offset: 20886},
+																							pos: position{line: 661, col: 25, offset: 20987},
 																							run: (*parser).callonInlineImage64,
 																							expr: &seqExpr{
-																								pos: position{line: 659, col: 25, offset: 20886},
+																								pos: position{line: 661, col: 25, offset: 20987},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 659, col: 25, offset: 20886},
+																										pos:        position{line: 661, col: 25, offset: 20987},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 659, col: 37, offset: 20898},
+																										pos:   position{line: 661, col: 37, offset: 20999},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 320, col: 18, offset: 9837},
 																											run: (*parser).callonInlineImage68,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 320, col: 18, offset: 9837},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 320, col: 18, offset: 9837},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20568,9 +20568,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 320, col: 28, offset: 9847},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 320, col: 29, offset: 9848},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20583,33 +20583,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 659, col: 56, offset: 20917},
+																										pos:   position{line: 661, col: 56, offset: 21018},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 659, col: 62, offset: 20923},
+																											pos: position{line: 661, col: 62, offset: 21024},
 																											expr: &actionExpr{
-																												pos: position{line: 667, col: 17, offset: 21220},
+																												pos: position{line: 669, col: 17, offset: 21321},
 																												run: (*parser).callonInlineImage75,
 																												expr: &seqExpr{
-																													pos: position{line: 667, col: 17, offset: 21220},
+																													pos: position{line: 669, col: 17, offset: 21321},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 667, col: 17, offset: 21220},
+																															pos:        position{line: 669, col: 17, offset: 21321},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 667, col: 21, offset: 21224},
+																															pos:   position{line: 669, col: 21, offset: 21325},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 667, col: 28, offset: 21231},
+																																pos: position{line: 669, col: 28, offset: 21332},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 667, col: 28, offset: 21231},
+																																		pos: position{line: 669, col: 28, offset: 21332},
 																																		run: (*parser).callonInlineImage80,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 667, col: 28, offset: 21231},
+																																			pos:        position{line: 669, col: 28, offset: 21332},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20617,12 +20617,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 669, col: 9, offset: 21285},
+																																		pos: position{line: 671, col: 9, offset: 21386},
 																																		run: (*parser).callonInlineImage82,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 669, col: 9, offset: 21285},
+																																			pos: position{line: 671, col: 9, offset: 21386},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 669, col: 9, offset: 21285},
+																																				pos:        position{line: 671, col: 9, offset: 21386},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20639,7 +20639,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 659, col: 78, offset: 20939},
+																										pos:        position{line: 661, col: 78, offset: 21040},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20648,28 +20648,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 663, col: 25, offset: 21057},
+																							pos: position{line: 665, col: 25, offset: 21158},
 																							run: (*parser).callonInlineImage86,
 																							expr: &seqExpr{
-																								pos: position{line: 663, col: 25, offset: 21057},
+																								pos: position{line: 665, col: 25, offset: 21158},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 663, col: 25, offset: 21057},
+																										pos:        position{line: 665, col: 25, offset: 21158},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 663, col: 38, offset: 21070},
+																										pos:   position{line: 665, col: 38, offset: 21171},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 320, col: 18, offset: 9837},
 																											run: (*parser).callonInlineImage90,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 320, col: 18, offset: 9837},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 320, col: 18, offset: 9837},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20677,9 +20677,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 320, col: 28, offset: 9847},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 320, col: 29, offset: 9848},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20692,33 +20692,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 663, col: 57, offset: 21089},
+																										pos:   position{line: 665, col: 57, offset: 21190},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 663, col: 63, offset: 21095},
+																											pos: position{line: 665, col: 63, offset: 21196},
 																											expr: &actionExpr{
-																												pos: position{line: 667, col: 17, offset: 21220},
+																												pos: position{line: 669, col: 17, offset: 21321},
 																												run: (*parser).callonInlineImage97,
 																												expr: &seqExpr{
-																													pos: position{line: 667, col: 17, offset: 21220},
+																													pos: position{line: 669, col: 17, offset: 21321},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 667, col: 17, offset: 21220},
+																															pos:        position{line: 669, col: 17, offset: 21321},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 667, col: 21, offset: 21224},
+																															pos:   position{line: 669, col: 21, offset: 21325},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 667, col: 28, offset: 21231},
+																																pos: position{line: 669, col: 28, offset: 21332},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 667, col: 28, offset: 21231},
+																																		pos: position{line: 669, col: 28, offset: 21332},
 																																		run: (*parser).callonInlineImage102,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 667, col: 28, offset: 21231},
+																																			pos:        position{line: 669, col: 28, offset: 21332},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20726,12 +20726,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 669, col: 9, offset: 21285},
+																																		pos: position{line: 671, col: 9, offset: 21386},
 																																		run: (*parser).callonInlineImage104,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 669, col: 9, offset: 21285},
+																																			pos: position{line: 671, col: 9, offset: 21386},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 669, col: 9, offset: 21285},
+																																				pos:        position{line: 671, col: 9, offset: 21386},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20748,7 +20748,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 663, col: 79, offset: 21111},
+																										pos:        position{line: 665, col: 79, offset: 21212},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20763,27 +20763,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1199, col: 23, offset: 37069},
+																	pos: position{line: 1201, col: 23, offset: 37170},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1199, col: 23, offset: 37069},
+																		pos: position{line: 1201, col: 23, offset: 37170},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1197, col: 32, offset: 37037},
+																				pos:        position{line: 1199, col: 32, offset: 37138},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1199, col: 51, offset: 37097},
+																				pos:   position{line: 1201, col: 51, offset: 37198},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1199, col: 56, offset: 37102},
+																					pos: position{line: 1201, col: 56, offset: 37203},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1199, col: 56, offset: 37102},
+																						pos: position{line: 1201, col: 56, offset: 37203},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1199, col: 56, offset: 37102},
+																							pos:        position{line: 1201, col: 56, offset: 37203},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20793,7 +20793,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1197, col: 32, offset: 37037},
+																				pos:        position{line: 1199, col: 32, offset: 37138},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20802,10 +20802,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2889, col: 11, offset: 91339},
+																	pos: position{line: 2891, col: 11, offset: 91440},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2889, col: 11, offset: 91339},
+																		pos:        position{line: 2891, col: 11, offset: 91440},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20822,10 +20822,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1318, col: 46, offset: 41372},
+							pos:   position{line: 1320, col: 46, offset: 41473},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1318, col: 58, offset: 41384},
+								pos:  position{line: 1320, col: 58, offset: 41485},
 								name: "InlineAttributes",
 							},
 						},
@@ -20835,29 +20835,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1325, col: 1, offset: 41780},
+			pos:  position{line: 1327, col: 1, offset: 41881},
 			expr: &actionExpr{
-				pos: position{line: 1325, col: 15, offset: 41794},
+				pos: position{line: 1327, col: 15, offset: 41895},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1325, col: 15, offset: 41794},
+					pos: position{line: 1327, col: 15, offset: 41895},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1325, col: 15, offset: 41794},
+							pos:        position{line: 1327, col: 15, offset: 41895},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1325, col: 23, offset: 41802},
+							pos:   position{line: 1327, col: 23, offset: 41903},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1325, col: 29, offset: 41808},
+								pos: position{line: 1327, col: 29, offset: 41909},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1325, col: 29, offset: 41808},
+									pos: position{line: 1327, col: 29, offset: 41909},
 									expr: &charClassMatcher{
-										pos:        position{line: 1325, col: 29, offset: 41808},
+										pos:        position{line: 1327, col: 29, offset: 41909},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20868,10 +20868,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1325, col: 73, offset: 41852},
+							pos:   position{line: 1327, col: 73, offset: 41953},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1325, col: 85, offset: 41864},
+								pos:  position{line: 1327, col: 85, offset: 41965},
 								name: "InlineAttributes",
 							},
 						},
@@ -20881,31 +20881,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1332, col: 1, offset: 42230},
+			pos:  position{line: 1334, col: 1, offset: 42331},
 			expr: &actionExpr{
-				pos: position{line: 1332, col: 19, offset: 42248},
+				pos: position{line: 1334, col: 19, offset: 42349},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1332, col: 19, offset: 42248},
+					pos: position{line: 1334, col: 19, offset: 42349},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1332, col: 19, offset: 42248},
+							pos:        position{line: 1334, col: 19, offset: 42349},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1332, col: 31, offset: 42260},
+							pos:   position{line: 1334, col: 31, offset: 42361},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1332, col: 35, offset: 42264},
+								pos: position{line: 1334, col: 35, offset: 42365},
 								expr: &actionExpr{
-									pos: position{line: 2804, col: 14, offset: 88993},
+									pos: position{line: 2806, col: 14, offset: 89094},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2804, col: 14, offset: 88993},
+										pos: position{line: 2806, col: 14, offset: 89094},
 										expr: &charClassMatcher{
-											pos:        position{line: 2804, col: 14, offset: 88993},
+											pos:        position{line: 2806, col: 14, offset: 89094},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20916,21 +20916,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1332, col: 50, offset: 42279},
+							pos:        position{line: 1334, col: 50, offset: 42380},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1332, col: 54, offset: 42283},
+							pos:   position{line: 1334, col: 54, offset: 42384},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1332, col: 64, offset: 42293},
+								pos:  position{line: 1334, col: 64, offset: 42394},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1332, col: 82, offset: 42311},
+							pos:        position{line: 1334, col: 82, offset: 42412},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20941,24 +20941,24 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1338, col: 1, offset: 42468},
+			pos:  position{line: 1340, col: 1, offset: 42569},
 			expr: &actionExpr{
-				pos: position{line: 1339, col: 5, offset: 42493},
+				pos: position{line: 1341, col: 5, offset: 42594},
 				run: (*parser).callonFootnoteElements1,
 				expr: &seqExpr{
-					pos: position{line: 1339, col: 5, offset: 42493},
+					pos: position{line: 1341, col: 5, offset: 42594},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1339, col: 5, offset: 42493},
+							pos: position{line: 1341, col: 5, offset: 42594},
 							run: (*parser).callonFootnoteElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1343, col: 5, offset: 42604},
+							pos:   position{line: 1345, col: 5, offset: 42705},
 							label: "elements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1343, col: 14, offset: 42613},
+								pos: position{line: 1345, col: 14, offset: 42714},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1343, col: 15, offset: 42614},
+									pos:  position{line: 1345, col: 15, offset: 42715},
 									name: "FootnoteElement",
 								},
 							},
@@ -20969,44 +20969,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1347, col: 1, offset: 42706},
+			pos:  position{line: 1349, col: 1, offset: 42807},
 			expr: &actionExpr{
-				pos: position{line: 1348, col: 5, offset: 42730},
+				pos: position{line: 1350, col: 5, offset: 42831},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1348, col: 5, offset: 42730},
+					pos: position{line: 1350, col: 5, offset: 42831},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1348, col: 5, offset: 42730},
+							pos: position{line: 1350, col: 5, offset: 42831},
 							expr: &litMatcher{
-								pos:        position{line: 1348, col: 6, offset: 42731},
+								pos:        position{line: 1350, col: 6, offset: 42832},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1349, col: 5, offset: 42740},
+							pos:   position{line: 1351, col: 5, offset: 42841},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1350, col: 9, offset: 42758},
+								pos: position{line: 1352, col: 9, offset: 42859},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2809, col: 5, offset: 89066},
+										pos: position{line: 2811, col: 5, offset: 89167},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2809, col: 5, offset: 89066},
+											pos: position{line: 2811, col: 5, offset: 89167},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2809, col: 5, offset: 89066},
+													pos:   position{line: 2811, col: 5, offset: 89167},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2809, col: 11, offset: 89072},
+														pos: position{line: 2811, col: 11, offset: 89173},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2809, col: 11, offset: 89072},
+															pos: position{line: 2811, col: 11, offset: 89173},
 															expr: &charClassMatcher{
-																pos:        position{line: 2809, col: 11, offset: 89072},
+																pos:        position{line: 2811, col: 11, offset: 89173},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21016,36 +21016,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2812, col: 5, offset: 89130},
+													pos: position{line: 2814, col: 5, offset: 89231},
 													expr: &seqExpr{
-														pos: position{line: 2813, col: 9, offset: 89141},
+														pos: position{line: 2815, col: 9, offset: 89242},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2813, col: 9, offset: 89141},
+																pos:        position{line: 2815, col: 9, offset: 89242},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2814, col: 9, offset: 89190},
+																pos: position{line: 2816, col: 9, offset: 89291},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2818, col: 5, offset: 89270},
+													pos: position{line: 2820, col: 5, offset: 89371},
 													expr: &seqExpr{
-														pos: position{line: 2819, col: 9, offset: 89281},
+														pos: position{line: 2821, col: 9, offset: 89382},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2819, col: 9, offset: 89281},
+																pos:        position{line: 2821, col: 9, offset: 89382},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2819, col: 13, offset: 89285},
+																pos:        position{line: 2821, col: 13, offset: 89386},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21058,12 +21058,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2914, col: 11, offset: 91885},
+										pos: position{line: 2916, col: 11, offset: 91986},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2914, col: 11, offset: 91885},
+											pos: position{line: 2916, col: 11, offset: 91986},
 											expr: &charClassMatcher{
-												pos:        position{line: 2914, col: 11, offset: 91885},
+												pos:        position{line: 2916, col: 11, offset: 91986},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21072,21 +21072,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2531, col: 5, offset: 81347},
+										pos: position{line: 2533, col: 5, offset: 81448},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2531, col: 5, offset: 81347},
+											pos: position{line: 2533, col: 5, offset: 81448},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2531, col: 5, offset: 81347},
+													pos:        position{line: 2533, col: 5, offset: 81448},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2531, col: 10, offset: 81352},
+													pos: position{line: 2533, col: 10, offset: 81453},
 													expr: &charClassMatcher{
-														pos:        position{line: 2531, col: 11, offset: 81353},
+														pos:        position{line: 2533, col: 11, offset: 81454},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21097,29 +21097,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2537, col: 5, offset: 81545},
+										pos: position{line: 2539, col: 5, offset: 81646},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2537, col: 5, offset: 81545},
+											pos: position{line: 2539, col: 5, offset: 81646},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2537, col: 5, offset: 81545},
+													pos: position{line: 2539, col: 5, offset: 81646},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2540, col: 5, offset: 81616},
+													pos: position{line: 2542, col: 5, offset: 81717},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2544, col: 5, offset: 81741},
+													pos:        position{line: 2546, col: 5, offset: 81842},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2544, col: 9, offset: 81745},
+													pos: position{line: 2546, col: 9, offset: 81846},
 													expr: &charClassMatcher{
-														pos:        position{line: 2544, col: 10, offset: 81746},
+														pos:        position{line: 2546, col: 10, offset: 81847},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21130,35 +21130,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1353, col: 11, offset: 42825},
+										pos:  position{line: 1355, col: 11, offset: 42926},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1354, col: 11, offset: 42841},
+										pos:  position{line: 1356, col: 11, offset: 42942},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2827, col: 5, offset: 89478},
+										pos: position{line: 2829, col: 5, offset: 89579},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2828, col: 9, offset: 89488},
+											pos: position{line: 2830, col: 9, offset: 89589},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2828, col: 10, offset: 89489},
+													pos:        position{line: 2830, col: 10, offset: 89590},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2830, col: 13, offset: 89586},
+													pos: position{line: 2832, col: 13, offset: 89687},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2830, col: 13, offset: 89586},
+															pos: position{line: 2832, col: 13, offset: 89687},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2833, col: 13, offset: 89686},
+															pos:        position{line: 2835, col: 13, offset: 89787},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21166,20 +21166,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2833, col: 19, offset: 89692},
+													pos:        position{line: 2835, col: 19, offset: 89793},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2836, col: 13, offset: 89730},
+													pos: position{line: 2838, col: 13, offset: 89831},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2836, col: 13, offset: 89730},
+															pos: position{line: 2838, col: 13, offset: 89831},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2839, col: 14, offset: 89823},
+															pos:        position{line: 2841, col: 14, offset: 89924},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21188,18 +21188,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2841, col: 12, offset: 89867},
+													pos: position{line: 2843, col: 12, offset: 89968},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2841, col: 12, offset: 89867},
+															pos:        position{line: 2843, col: 12, offset: 89968},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2841, col: 16, offset: 89871},
+															pos: position{line: 2843, col: 16, offset: 89972},
 															expr: &litMatcher{
-																pos:        position{line: 2841, col: 17, offset: 89872},
+																pos:        position{line: 2843, col: 17, offset: 89973},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21211,36 +21211,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1356, col: 11, offset: 42914},
+										pos:  position{line: 1358, col: 11, offset: 43015},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1207, col: 5, offset: 37515},
+										pos: position{line: 1209, col: 5, offset: 37616},
 										run: (*parser).callonFootnoteElement53,
 										expr: &seqExpr{
-											pos: position{line: 1207, col: 5, offset: 37515},
+											pos: position{line: 1209, col: 5, offset: 37616},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1207, col: 5, offset: 37515},
+													pos: position{line: 1209, col: 5, offset: 37616},
 													run: (*parser).callonFootnoteElement55,
 												},
 												&litMatcher{
-													pos:        position{line: 1210, col: 5, offset: 37591},
+													pos:        position{line: 1212, col: 5, offset: 37692},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1211, col: 5, offset: 37599},
+													pos: position{line: 1213, col: 5, offset: 37700},
 													run: (*parser).callonFootnoteElement57,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1215, col: 5, offset: 37686},
+													pos: position{line: 1217, col: 5, offset: 37787},
 													expr: &actionExpr{
-														pos: position{line: 2910, col: 10, offset: 91824},
+														pos: position{line: 2912, col: 10, offset: 91925},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2910, col: 10, offset: 91824},
+															pos:        position{line: 2912, col: 10, offset: 91925},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21249,30 +21249,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1215, col: 12, offset: 37693},
+													pos: position{line: 1217, col: 12, offset: 37794},
 													expr: &choiceExpr{
-														pos: position{line: 2932, col: 8, offset: 92222},
+														pos: position{line: 2934, col: 8, offset: 92323},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2919, col: 12, offset: 91995},
+																pos: position{line: 2921, col: 12, offset: 92096},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2919, col: 13, offset: 91996},
+																	pos: position{line: 2921, col: 13, offset: 92097},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 13, offset: 91996},
+																			pos:        position{line: 2921, col: 13, offset: 92097},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 20, offset: 92003},
+																			pos:        position{line: 2921, col: 20, offset: 92104},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 29, offset: 92012},
+																			pos:        position{line: 2921, col: 29, offset: 92113},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21281,9 +21281,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2929, col: 8, offset: 92172},
+																pos: position{line: 2931, col: 8, offset: 92273},
 																expr: &anyMatcher{
-																	line: 2929, col: 9, offset: 92173,
+																	line: 2931, col: 9, offset: 92274,
 																},
 															},
 														},
@@ -21293,44 +21293,44 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 637, col: 5, offset: 20204},
+										pos: position{line: 639, col: 5, offset: 20305},
 										run: (*parser).callonFootnoteElement70,
 										expr: &seqExpr{
-											pos: position{line: 637, col: 5, offset: 20204},
+											pos: position{line: 639, col: 5, offset: 20305},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 637, col: 5, offset: 20204},
+													pos: position{line: 639, col: 5, offset: 20305},
 													run: (*parser).callonFootnoteElement72,
 												},
 												&labeledExpr{
-													pos:   position{line: 640, col: 5, offset: 20276},
+													pos:   position{line: 642, col: 5, offset: 20377},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 640, col: 14, offset: 20285},
+														pos: position{line: 642, col: 14, offset: 20386},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 646, col: 5, offset: 20414},
+																pos: position{line: 648, col: 5, offset: 20515},
 																run: (*parser).callonFootnoteElement75,
 																expr: &seqExpr{
-																	pos: position{line: 646, col: 5, offset: 20414},
+																	pos: position{line: 648, col: 5, offset: 20515},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 646, col: 5, offset: 20414},
+																			pos:        position{line: 648, col: 5, offset: 20515},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 646, col: 13, offset: 20422},
+																			pos:   position{line: 648, col: 13, offset: 20523},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 320, col: 18, offset: 9837},
 																				run: (*parser).callonFootnoteElement79,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 320, col: 18, offset: 9837},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 320, col: 18, offset: 9837},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21338,9 +21338,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 320, col: 28, offset: 9847},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 320, col: 29, offset: 9848},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21353,7 +21353,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 646, col: 32, offset: 20441},
+																			pos:        position{line: 648, col: 32, offset: 20542},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21362,28 +21362,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 653, col: 5, offset: 20682},
+																pos: position{line: 655, col: 5, offset: 20783},
 																run: (*parser).callonFootnoteElement85,
 																expr: &seqExpr{
-																	pos: position{line: 653, col: 5, offset: 20682},
+																	pos: position{line: 655, col: 5, offset: 20783},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 653, col: 5, offset: 20682},
+																			pos:        position{line: 655, col: 5, offset: 20783},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 653, col: 9, offset: 20686},
+																			pos:   position{line: 655, col: 9, offset: 20787},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 320, col: 18, offset: 9837},
 																				run: (*parser).callonFootnoteElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 320, col: 18, offset: 9837},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 320, col: 18, offset: 9837},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21391,9 +21391,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 320, col: 28, offset: 9847},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 320, col: 29, offset: 9848},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21406,7 +21406,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 653, col: 28, offset: 20705},
+																			pos:        position{line: 655, col: 28, offset: 20806},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21415,28 +21415,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 659, col: 25, offset: 20886},
+																pos: position{line: 661, col: 25, offset: 20987},
 																run: (*parser).callonFootnoteElement95,
 																expr: &seqExpr{
-																	pos: position{line: 659, col: 25, offset: 20886},
+																	pos: position{line: 661, col: 25, offset: 20987},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 659, col: 25, offset: 20886},
+																			pos:        position{line: 661, col: 25, offset: 20987},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 659, col: 37, offset: 20898},
+																			pos:   position{line: 661, col: 37, offset: 20999},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 320, col: 18, offset: 9837},
 																				run: (*parser).callonFootnoteElement99,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 320, col: 18, offset: 9837},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 320, col: 18, offset: 9837},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21444,9 +21444,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 320, col: 28, offset: 9847},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 320, col: 29, offset: 9848},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21459,33 +21459,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 659, col: 56, offset: 20917},
+																			pos:   position{line: 661, col: 56, offset: 21018},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 659, col: 62, offset: 20923},
+																				pos: position{line: 661, col: 62, offset: 21024},
 																				expr: &actionExpr{
-																					pos: position{line: 667, col: 17, offset: 21220},
+																					pos: position{line: 669, col: 17, offset: 21321},
 																					run: (*parser).callonFootnoteElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 667, col: 17, offset: 21220},
+																						pos: position{line: 669, col: 17, offset: 21321},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 667, col: 17, offset: 21220},
+																								pos:        position{line: 669, col: 17, offset: 21321},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 667, col: 21, offset: 21224},
+																								pos:   position{line: 669, col: 21, offset: 21325},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 667, col: 28, offset: 21231},
+																									pos: position{line: 669, col: 28, offset: 21332},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 667, col: 28, offset: 21231},
+																											pos: position{line: 669, col: 28, offset: 21332},
 																											run: (*parser).callonFootnoteElement111,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 667, col: 28, offset: 21231},
+																												pos:        position{line: 669, col: 28, offset: 21332},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21493,12 +21493,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 669, col: 9, offset: 21285},
+																											pos: position{line: 671, col: 9, offset: 21386},
 																											run: (*parser).callonFootnoteElement113,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 669, col: 9, offset: 21285},
+																												pos: position{line: 671, col: 9, offset: 21386},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 669, col: 9, offset: 21285},
+																													pos:        position{line: 671, col: 9, offset: 21386},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21515,7 +21515,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 659, col: 78, offset: 20939},
+																			pos:        position{line: 661, col: 78, offset: 21040},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21524,28 +21524,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 663, col: 25, offset: 21057},
+																pos: position{line: 665, col: 25, offset: 21158},
 																run: (*parser).callonFootnoteElement117,
 																expr: &seqExpr{
-																	pos: position{line: 663, col: 25, offset: 21057},
+																	pos: position{line: 665, col: 25, offset: 21158},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 663, col: 25, offset: 21057},
+																			pos:        position{line: 665, col: 25, offset: 21158},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 663, col: 38, offset: 21070},
+																			pos:   position{line: 665, col: 38, offset: 21171},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 320, col: 18, offset: 9837},
 																				run: (*parser).callonFootnoteElement121,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 320, col: 18, offset: 9837},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 320, col: 18, offset: 9837},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21553,9 +21553,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 320, col: 28, offset: 9847},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 320, col: 29, offset: 9848},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21568,33 +21568,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 663, col: 57, offset: 21089},
+																			pos:   position{line: 665, col: 57, offset: 21190},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 663, col: 63, offset: 21095},
+																				pos: position{line: 665, col: 63, offset: 21196},
 																				expr: &actionExpr{
-																					pos: position{line: 667, col: 17, offset: 21220},
+																					pos: position{line: 669, col: 17, offset: 21321},
 																					run: (*parser).callonFootnoteElement128,
 																					expr: &seqExpr{
-																						pos: position{line: 667, col: 17, offset: 21220},
+																						pos: position{line: 669, col: 17, offset: 21321},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 667, col: 17, offset: 21220},
+																								pos:        position{line: 669, col: 17, offset: 21321},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 667, col: 21, offset: 21224},
+																								pos:   position{line: 669, col: 21, offset: 21325},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 667, col: 28, offset: 21231},
+																									pos: position{line: 669, col: 28, offset: 21332},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 667, col: 28, offset: 21231},
+																											pos: position{line: 669, col: 28, offset: 21332},
 																											run: (*parser).callonFootnoteElement133,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 667, col: 28, offset: 21231},
+																												pos:        position{line: 669, col: 28, offset: 21332},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21602,12 +21602,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 669, col: 9, offset: 21285},
+																											pos: position{line: 671, col: 9, offset: 21386},
 																											run: (*parser).callonFootnoteElement135,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 669, col: 9, offset: 21285},
+																												pos: position{line: 671, col: 9, offset: 21386},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 669, col: 9, offset: 21285},
+																													pos:        position{line: 671, col: 9, offset: 21386},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21624,7 +21624,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 663, col: 79, offset: 21111},
+																			pos:        position{line: 665, col: 79, offset: 21212},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21639,23 +21639,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2500, col: 5, offset: 80148},
+										pos: position{line: 2502, col: 5, offset: 80249},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2500, col: 5, offset: 80148},
+											pos: position{line: 2502, col: 5, offset: 80249},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2500, col: 5, offset: 80148},
+													pos: position{line: 2502, col: 5, offset: 80249},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2503, col: 5, offset: 80224},
+													pos:   position{line: 2505, col: 5, offset: 80325},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2504, col: 9, offset: 80242},
+														pos: position{line: 2506, col: 9, offset: 80343},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2504, col: 10, offset: 80243},
+															pos:        position{line: 2506, col: 10, offset: 80344},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21667,25 +21667,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2919, col: 12, offset: 91995},
+										pos: position{line: 2921, col: 12, offset: 92096},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2919, col: 13, offset: 91996},
+											pos: position{line: 2921, col: 13, offset: 92097},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2919, col: 13, offset: 91996},
+													pos:        position{line: 2921, col: 13, offset: 92097},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2919, col: 20, offset: 92003},
+													pos:        position{line: 2921, col: 20, offset: 92104},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2919, col: 29, offset: 92012},
+													pos:        position{line: 2921, col: 29, offset: 92113},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21694,10 +21694,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2849, col: 12, offset: 90132},
+										pos: position{line: 2851, col: 12, offset: 90233},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2849, col: 12, offset: 90132},
+											pos:        position{line: 2851, col: 12, offset: 90233},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21713,32 +21713,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1395, col: 1, offset: 44759},
+			pos:  position{line: 1397, col: 1, offset: 44860},
 			expr: &choiceExpr{
-				pos: position{line: 1395, col: 21, offset: 44779},
+				pos: position{line: 1397, col: 21, offset: 44880},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1395, col: 21, offset: 44779},
+						pos: position{line: 1397, col: 21, offset: 44880},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1395, col: 21, offset: 44779},
+							pos: position{line: 1397, col: 21, offset: 44880},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1395, col: 21, offset: 44779},
+									pos:        position{line: 1397, col: 21, offset: 44880},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1395, col: 30, offset: 44788},
+									pos:   position{line: 1397, col: 30, offset: 44889},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1395, col: 38, offset: 44796},
+										pos: position{line: 1397, col: 38, offset: 44897},
 										expr: &actionExpr{
-											pos: position{line: 1401, col: 30, offset: 45122},
+											pos: position{line: 1403, col: 30, offset: 45223},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1401, col: 30, offset: 45122},
+												pos:        position{line: 1403, col: 30, offset: 45223},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21748,7 +21748,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1395, col: 67, offset: 44825},
+									pos:        position{line: 1397, col: 67, offset: 44926},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21757,34 +21757,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1397, col: 9, offset: 44929},
+						pos: position{line: 1399, col: 9, offset: 45030},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1397, col: 9, offset: 44929},
+							pos: position{line: 1399, col: 9, offset: 45030},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1397, col: 9, offset: 44929},
+									pos:        position{line: 1399, col: 9, offset: 45030},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1397, col: 19, offset: 44939},
+									pos:   position{line: 1399, col: 19, offset: 45040},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1397, col: 27, offset: 44947},
+										pos: position{line: 1399, col: 27, offset: 45048},
 										expr: &choiceExpr{
-											pos: position{line: 1397, col: 28, offset: 44948},
+											pos: position{line: 1399, col: 28, offset: 45049},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1397, col: 28, offset: 44948},
+													pos:  position{line: 1399, col: 28, offset: 45049},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1401, col: 30, offset: 45122},
+													pos: position{line: 1403, col: 30, offset: 45223},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1401, col: 30, offset: 45122},
+														pos:        position{line: 1403, col: 30, offset: 45223},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -21796,7 +21796,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1397, col: 69, offset: 44989},
+									pos:        position{line: 1399, col: 69, offset: 45090},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21809,75 +21809,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1408, col: 1, offset: 45378},
+			pos:  position{line: 1410, col: 1, offset: 45479},
 			expr: &choiceExpr{
-				pos: position{line: 1408, col: 9, offset: 45386},
+				pos: position{line: 1410, col: 9, offset: 45487},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1411, col: 5, offset: 45455},
+						pos: position{line: 1413, col: 5, offset: 45556},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1411, col: 5, offset: 45455},
+							pos: position{line: 1413, col: 5, offset: 45556},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1411, col: 5, offset: 45455},
+									pos:        position{line: 1413, col: 5, offset: 45556},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1412, col: 5, offset: 45464},
+									pos:   position{line: 1414, col: 5, offset: 45565},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2872, col: 23, offset: 90710},
+										pos: position{line: 2874, col: 23, offset: 90811},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2872, col: 23, offset: 90710},
+											pos: position{line: 2874, col: 23, offset: 90811},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2872, col: 23, offset: 90710},
+													pos: position{line: 2874, col: 23, offset: 90811},
 													expr: &litMatcher{
-														pos:        position{line: 2872, col: 24, offset: 90711},
+														pos:        position{line: 2874, col: 24, offset: 90812},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2872, col: 28, offset: 90715},
+													pos:   position{line: 2874, col: 28, offset: 90816},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 11, offset: 90829},
+														pos: position{line: 2878, col: 11, offset: 90930},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2876, col: 12, offset: 90830},
+															pos: position{line: 2878, col: 12, offset: 90931},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2876, col: 12, offset: 90830},
+																	pos:        position{line: 2878, col: 12, offset: 90931},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 24, offset: 90842},
+																	pos:        position{line: 2878, col: 24, offset: 90943},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 37, offset: 90855},
+																	pos:        position{line: 2878, col: 37, offset: 90956},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 48, offset: 90866},
+																	pos:        position{line: 2878, col: 48, offset: 90967},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 59, offset: 90877},
+																	pos:        position{line: 2878, col: 59, offset: 90978},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21887,38 +21887,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2872, col: 44, offset: 90731},
+													pos:   position{line: 2874, col: 44, offset: 90832},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 5, offset: 90941},
+														pos: position{line: 2883, col: 5, offset: 91042},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2881, col: 5, offset: 90941},
+															pos:   position{line: 2883, col: 5, offset: 91042},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2881, col: 14, offset: 90950},
+																pos: position{line: 2883, col: 14, offset: 91051},
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 9, offset: 90960},
+																	pos: position{line: 2884, col: 9, offset: 91061},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 9, offset: 90960},
+																			pos: position{line: 2884, col: 9, offset: 91061},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2882, col: 9, offset: 90960},
+																				pos: position{line: 2884, col: 9, offset: 91061},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2882, col: 9, offset: 90960},
+																						pos: position{line: 2884, col: 9, offset: 91061},
 																						expr: &litMatcher{
-																							pos:        position{line: 2882, col: 10, offset: 90961},
+																							pos:        position{line: 2884, col: 10, offset: 91062},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2883, col: 9, offset: 90989},
+																						pos: position{line: 2885, col: 9, offset: 91090},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2883, col: 10, offset: 90990},
+																							pos:        position{line: 2885, col: 10, offset: 91091},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21929,27 +21929,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2886, col: 11, offset: 91202},
+																			pos: position{line: 2888, col: 11, offset: 91303},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2886, col: 11, offset: 91202},
+																					pos:        position{line: 2888, col: 11, offset: 91303},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2886, col: 19, offset: 91210},
+																					pos: position{line: 2888, col: 19, offset: 91311},
 																					expr: &seqExpr{
-																						pos: position{line: 2886, col: 21, offset: 91212},
+																						pos: position{line: 2888, col: 21, offset: 91313},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2886, col: 21, offset: 91212},
+																								pos: position{line: 2888, col: 21, offset: 91313},
 																								expr: &actionExpr{
-																									pos: position{line: 2910, col: 10, offset: 91824},
+																									pos: position{line: 2912, col: 10, offset: 91925},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2910, col: 10, offset: 91824},
+																										pos:        position{line: 2912, col: 10, offset: 91925},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21958,11 +21958,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 28, offset: 91219},
+																								pos: position{line: 2888, col: 28, offset: 91320},
 																								expr: &notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -21972,44 +21972,44 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 637, col: 5, offset: 20204},
+																			pos: position{line: 639, col: 5, offset: 20305},
 																			run: (*parser).callonLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 637, col: 5, offset: 20204},
+																				pos: position{line: 639, col: 5, offset: 20305},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 637, col: 5, offset: 20204},
+																						pos: position{line: 639, col: 5, offset: 20305},
 																						run: (*parser).callonLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 640, col: 5, offset: 20276},
+																						pos:   position{line: 642, col: 5, offset: 20377},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 640, col: 14, offset: 20285},
+																							pos: position{line: 642, col: 14, offset: 20386},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 646, col: 5, offset: 20414},
+																									pos: position{line: 648, col: 5, offset: 20515},
 																									run: (*parser).callonLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 646, col: 5, offset: 20414},
+																										pos: position{line: 648, col: 5, offset: 20515},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 646, col: 5, offset: 20414},
+																												pos:        position{line: 648, col: 5, offset: 20515},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 646, col: 13, offset: 20422},
+																												pos:   position{line: 648, col: 13, offset: 20523},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 320, col: 18, offset: 9837},
 																													run: (*parser).callonLink48,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 320, col: 18, offset: 9837},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22017,9 +22017,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 320, col: 29, offset: 9848},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22032,7 +22032,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 646, col: 32, offset: 20441},
+																												pos:        position{line: 648, col: 32, offset: 20542},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22041,28 +22041,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 653, col: 5, offset: 20682},
+																									pos: position{line: 655, col: 5, offset: 20783},
 																									run: (*parser).callonLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 653, col: 5, offset: 20682},
+																										pos: position{line: 655, col: 5, offset: 20783},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 653, col: 5, offset: 20682},
+																												pos:        position{line: 655, col: 5, offset: 20783},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 653, col: 9, offset: 20686},
+																												pos:   position{line: 655, col: 9, offset: 20787},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 320, col: 18, offset: 9837},
 																													run: (*parser).callonLink58,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 320, col: 18, offset: 9837},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22070,9 +22070,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 320, col: 29, offset: 9848},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22085,7 +22085,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 653, col: 28, offset: 20705},
+																												pos:        position{line: 655, col: 28, offset: 20806},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22094,28 +22094,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 659, col: 25, offset: 20886},
+																									pos: position{line: 661, col: 25, offset: 20987},
 																									run: (*parser).callonLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 659, col: 25, offset: 20886},
+																										pos: position{line: 661, col: 25, offset: 20987},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 659, col: 25, offset: 20886},
+																												pos:        position{line: 661, col: 25, offset: 20987},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 37, offset: 20898},
+																												pos:   position{line: 661, col: 37, offset: 20999},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 320, col: 18, offset: 9837},
 																													run: (*parser).callonLink68,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 320, col: 18, offset: 9837},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22123,9 +22123,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 320, col: 29, offset: 9848},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22138,33 +22138,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 56, offset: 20917},
+																												pos:   position{line: 661, col: 56, offset: 21018},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 659, col: 62, offset: 20923},
+																													pos: position{line: 661, col: 62, offset: 21024},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21220},
+																														pos: position{line: 669, col: 17, offset: 21321},
 																														run: (*parser).callonLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21220},
+																															pos: position{line: 669, col: 17, offset: 21321},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21220},
+																																	pos:        position{line: 669, col: 17, offset: 21321},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21224},
+																																	pos:   position{line: 669, col: 21, offset: 21325},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21231},
+																																		pos: position{line: 669, col: 28, offset: 21332},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21231},
+																																				pos: position{line: 669, col: 28, offset: 21332},
 																																				run: (*parser).callonLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21231},
+																																					pos:        position{line: 669, col: 28, offset: 21332},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22172,12 +22172,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21285},
+																																				pos: position{line: 671, col: 9, offset: 21386},
 																																				run: (*parser).callonLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21285},
+																																					pos: position{line: 671, col: 9, offset: 21386},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21285},
+																																						pos:        position{line: 671, col: 9, offset: 21386},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22194,7 +22194,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 659, col: 78, offset: 20939},
+																												pos:        position{line: 661, col: 78, offset: 21040},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22203,28 +22203,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 663, col: 25, offset: 21057},
+																									pos: position{line: 665, col: 25, offset: 21158},
 																									run: (*parser).callonLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 663, col: 25, offset: 21057},
+																										pos: position{line: 665, col: 25, offset: 21158},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 663, col: 25, offset: 21057},
+																												pos:        position{line: 665, col: 25, offset: 21158},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 38, offset: 21070},
+																												pos:   position{line: 665, col: 38, offset: 21171},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 320, col: 18, offset: 9837},
 																													run: (*parser).callonLink90,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 320, col: 18, offset: 9837},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22232,9 +22232,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 320, col: 29, offset: 9848},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22247,33 +22247,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 57, offset: 21089},
+																												pos:   position{line: 665, col: 57, offset: 21190},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 663, col: 63, offset: 21095},
+																													pos: position{line: 665, col: 63, offset: 21196},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21220},
+																														pos: position{line: 669, col: 17, offset: 21321},
 																														run: (*parser).callonLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21220},
+																															pos: position{line: 669, col: 17, offset: 21321},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21220},
+																																	pos:        position{line: 669, col: 17, offset: 21321},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21224},
+																																	pos:   position{line: 669, col: 21, offset: 21325},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21231},
+																																		pos: position{line: 669, col: 28, offset: 21332},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21231},
+																																				pos: position{line: 669, col: 28, offset: 21332},
 																																				run: (*parser).callonLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21231},
+																																					pos:        position{line: 669, col: 28, offset: 21332},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22281,12 +22281,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21285},
+																																				pos: position{line: 671, col: 9, offset: 21386},
 																																				run: (*parser).callonLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21285},
+																																					pos: position{line: 671, col: 9, offset: 21386},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21285},
+																																						pos:        position{line: 671, col: 9, offset: 21386},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22303,7 +22303,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 663, col: 79, offset: 21111},
+																												pos:        position{line: 665, col: 79, offset: 21212},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22318,27 +22318,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1199, col: 23, offset: 37069},
+																			pos: position{line: 1201, col: 23, offset: 37170},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1199, col: 23, offset: 37069},
+																				pos: position{line: 1201, col: 23, offset: 37170},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1197, col: 32, offset: 37037},
+																						pos:        position{line: 1199, col: 32, offset: 37138},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1199, col: 51, offset: 37097},
+																						pos:   position{line: 1201, col: 51, offset: 37198},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1199, col: 56, offset: 37102},
+																							pos: position{line: 1201, col: 56, offset: 37203},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1199, col: 56, offset: 37102},
+																								pos: position{line: 1201, col: 56, offset: 37203},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1199, col: 56, offset: 37102},
+																									pos:        position{line: 1201, col: 56, offset: 37203},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22348,7 +22348,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1197, col: 32, offset: 37037},
+																						pos:        position{line: 1199, col: 32, offset: 37138},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22357,10 +22357,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2889, col: 11, offset: 91339},
+																			pos: position{line: 2891, col: 11, offset: 91440},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2889, col: 11, offset: 91339},
+																				pos:        position{line: 2891, col: 11, offset: 91440},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22377,7 +22377,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1417, col: 5, offset: 45683},
+									pos:        position{line: 1419, col: 5, offset: 45784},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22386,38 +22386,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1408, col: 19, offset: 45396},
+						pos:  position{line: 1410, col: 19, offset: 45497},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1408, col: 34, offset: 45411},
+						pos:  position{line: 1410, col: 34, offset: 45512},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1446, col: 17, offset: 46676},
+						pos: position{line: 1448, col: 17, offset: 46777},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1446, col: 17, offset: 46676},
+							pos: position{line: 1448, col: 17, offset: 46777},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1446, col: 17, offset: 46676},
+									pos:   position{line: 1448, col: 17, offset: 46777},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1451, col: 5, offset: 46841},
+										pos: position{line: 1453, col: 5, offset: 46942},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1451, col: 5, offset: 46841},
+											pos: position{line: 1453, col: 5, offset: 46942},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1451, col: 5, offset: 46841},
+													pos:   position{line: 1453, col: 5, offset: 46942},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1451, col: 12, offset: 46848},
+														pos: position{line: 1453, col: 12, offset: 46949},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1451, col: 12, offset: 46848},
+															pos: position{line: 1453, col: 12, offset: 46949},
 															expr: &charClassMatcher{
-																pos:        position{line: 1451, col: 12, offset: 46848},
+																pos:        position{line: 1453, col: 12, offset: 46949},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22429,7 +22429,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1454, col: 5, offset: 46932},
+													pos: position{line: 1456, col: 5, offset: 47033},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -22437,33 +22437,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1446, col: 43, offset: 46702},
+									pos:        position{line: 1448, col: 43, offset: 46803},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1446, col: 47, offset: 46706},
+									pos:   position{line: 1448, col: 47, offset: 46807},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1463, col: 23, offset: 47226},
+										pos: position{line: 1465, col: 23, offset: 47327},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1463, col: 23, offset: 47226},
+											pos: position{line: 1465, col: 23, offset: 47327},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1463, col: 23, offset: 47226},
+													pos:   position{line: 1465, col: 23, offset: 47327},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1463, col: 31, offset: 47234},
+														pos: position{line: 1465, col: 31, offset: 47335},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1463, col: 31, offset: 47234},
+															pos: position{line: 1465, col: 31, offset: 47335},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1463, col: 31, offset: 47234},
+																	pos: position{line: 1465, col: 31, offset: 47335},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1463, col: 31, offset: 47234},
+																		pos:        position{line: 1465, col: 31, offset: 47335},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -22471,20 +22471,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1463, col: 41, offset: 47244},
+																	pos: position{line: 1465, col: 41, offset: 47345},
 																	expr: &seqExpr{
-																		pos: position{line: 1463, col: 42, offset: 47245},
+																		pos: position{line: 1465, col: 42, offset: 47346},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1463, col: 42, offset: 47245},
+																				pos:        position{line: 1465, col: 42, offset: 47346},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1463, col: 46, offset: 47249},
+																				pos: position{line: 1465, col: 46, offset: 47350},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1463, col: 46, offset: 47249},
+																					pos:        position{line: 1465, col: 46, offset: 47350},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22500,7 +22500,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1466, col: 5, offset: 47310},
+													pos: position{line: 1468, col: 5, offset: 47411},
 													run: (*parser).callonLink145,
 												},
 											},
@@ -22515,68 +22515,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1423, col: 1, offset: 45831},
+			pos:  position{line: 1425, col: 1, offset: 45932},
 			expr: &choiceExpr{
-				pos: position{line: 1425, col: 5, offset: 45867},
+				pos: position{line: 1427, col: 5, offset: 45968},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1425, col: 5, offset: 45867},
+						pos: position{line: 1427, col: 5, offset: 45968},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1425, col: 5, offset: 45867},
+							pos: position{line: 1427, col: 5, offset: 45968},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1425, col: 5, offset: 45867},
+									pos:        position{line: 1427, col: 5, offset: 45968},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1425, col: 17, offset: 45879},
+									pos:   position{line: 1427, col: 17, offset: 45980},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2868, col: 13, offset: 90583},
+										pos: position{line: 2870, col: 13, offset: 90684},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2868, col: 13, offset: 90583},
+											pos: position{line: 2870, col: 13, offset: 90684},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2868, col: 13, offset: 90583},
+													pos:   position{line: 2870, col: 13, offset: 90684},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2868, col: 20, offset: 90590},
+														pos: position{line: 2870, col: 20, offset: 90691},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 11, offset: 90829},
+															pos: position{line: 2878, col: 11, offset: 90930},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2876, col: 12, offset: 90830},
+																pos: position{line: 2878, col: 12, offset: 90931},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 12, offset: 90830},
+																		pos:        position{line: 2878, col: 12, offset: 90931},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 24, offset: 90842},
+																		pos:        position{line: 2878, col: 24, offset: 90943},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 37, offset: 90855},
+																		pos:        position{line: 2878, col: 37, offset: 90956},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 48, offset: 90866},
+																		pos:        position{line: 2878, col: 48, offset: 90967},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 59, offset: 90877},
+																		pos:        position{line: 2878, col: 59, offset: 90978},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22587,38 +22587,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2868, col: 30, offset: 90600},
+													pos:   position{line: 2870, col: 30, offset: 90701},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 5, offset: 90941},
+														pos: position{line: 2883, col: 5, offset: 91042},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2881, col: 5, offset: 90941},
+															pos:   position{line: 2883, col: 5, offset: 91042},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2881, col: 14, offset: 90950},
+																pos: position{line: 2883, col: 14, offset: 91051},
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 9, offset: 90960},
+																	pos: position{line: 2884, col: 9, offset: 91061},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 9, offset: 90960},
+																			pos: position{line: 2884, col: 9, offset: 91061},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2882, col: 9, offset: 90960},
+																				pos: position{line: 2884, col: 9, offset: 91061},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2882, col: 9, offset: 90960},
+																						pos: position{line: 2884, col: 9, offset: 91061},
 																						expr: &litMatcher{
-																							pos:        position{line: 2882, col: 10, offset: 90961},
+																							pos:        position{line: 2884, col: 10, offset: 91062},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2883, col: 9, offset: 90989},
+																						pos: position{line: 2885, col: 9, offset: 91090},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2883, col: 10, offset: 90990},
+																							pos:        position{line: 2885, col: 10, offset: 91091},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22629,27 +22629,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2886, col: 11, offset: 91202},
+																			pos: position{line: 2888, col: 11, offset: 91303},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2886, col: 11, offset: 91202},
+																					pos:        position{line: 2888, col: 11, offset: 91303},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2886, col: 19, offset: 91210},
+																					pos: position{line: 2888, col: 19, offset: 91311},
 																					expr: &seqExpr{
-																						pos: position{line: 2886, col: 21, offset: 91212},
+																						pos: position{line: 2888, col: 21, offset: 91313},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2886, col: 21, offset: 91212},
+																								pos: position{line: 2888, col: 21, offset: 91313},
 																								expr: &actionExpr{
-																									pos: position{line: 2910, col: 10, offset: 91824},
+																									pos: position{line: 2912, col: 10, offset: 91925},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2910, col: 10, offset: 91824},
+																										pos:        position{line: 2912, col: 10, offset: 91925},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22658,11 +22658,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 28, offset: 91219},
+																								pos: position{line: 2888, col: 28, offset: 91320},
 																								expr: &notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -22672,44 +22672,44 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 637, col: 5, offset: 20204},
+																			pos: position{line: 639, col: 5, offset: 20305},
 																			run: (*parser).callonRelativeLink38,
 																			expr: &seqExpr{
-																				pos: position{line: 637, col: 5, offset: 20204},
+																				pos: position{line: 639, col: 5, offset: 20305},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 637, col: 5, offset: 20204},
+																						pos: position{line: 639, col: 5, offset: 20305},
 																						run: (*parser).callonRelativeLink40,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 640, col: 5, offset: 20276},
+																						pos:   position{line: 642, col: 5, offset: 20377},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 640, col: 14, offset: 20285},
+																							pos: position{line: 642, col: 14, offset: 20386},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 646, col: 5, offset: 20414},
+																									pos: position{line: 648, col: 5, offset: 20515},
 																									run: (*parser).callonRelativeLink43,
 																									expr: &seqExpr{
-																										pos: position{line: 646, col: 5, offset: 20414},
+																										pos: position{line: 648, col: 5, offset: 20515},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 646, col: 5, offset: 20414},
+																												pos:        position{line: 648, col: 5, offset: 20515},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 646, col: 13, offset: 20422},
+																												pos:   position{line: 648, col: 13, offset: 20523},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 320, col: 18, offset: 9837},
 																													run: (*parser).callonRelativeLink47,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 320, col: 18, offset: 9837},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22717,9 +22717,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 320, col: 29, offset: 9848},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22732,7 +22732,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 646, col: 32, offset: 20441},
+																												pos:        position{line: 648, col: 32, offset: 20542},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22741,28 +22741,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 653, col: 5, offset: 20682},
+																									pos: position{line: 655, col: 5, offset: 20783},
 																									run: (*parser).callonRelativeLink53,
 																									expr: &seqExpr{
-																										pos: position{line: 653, col: 5, offset: 20682},
+																										pos: position{line: 655, col: 5, offset: 20783},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 653, col: 5, offset: 20682},
+																												pos:        position{line: 655, col: 5, offset: 20783},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 653, col: 9, offset: 20686},
+																												pos:   position{line: 655, col: 9, offset: 20787},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 320, col: 18, offset: 9837},
 																													run: (*parser).callonRelativeLink57,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 320, col: 18, offset: 9837},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22770,9 +22770,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 320, col: 29, offset: 9848},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22785,7 +22785,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 653, col: 28, offset: 20705},
+																												pos:        position{line: 655, col: 28, offset: 20806},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22794,28 +22794,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 659, col: 25, offset: 20886},
+																									pos: position{line: 661, col: 25, offset: 20987},
 																									run: (*parser).callonRelativeLink63,
 																									expr: &seqExpr{
-																										pos: position{line: 659, col: 25, offset: 20886},
+																										pos: position{line: 661, col: 25, offset: 20987},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 659, col: 25, offset: 20886},
+																												pos:        position{line: 661, col: 25, offset: 20987},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 37, offset: 20898},
+																												pos:   position{line: 661, col: 37, offset: 20999},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 320, col: 18, offset: 9837},
 																													run: (*parser).callonRelativeLink67,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 320, col: 18, offset: 9837},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22823,9 +22823,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 320, col: 29, offset: 9848},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22838,33 +22838,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 56, offset: 20917},
+																												pos:   position{line: 661, col: 56, offset: 21018},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 659, col: 62, offset: 20923},
+																													pos: position{line: 661, col: 62, offset: 21024},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21220},
+																														pos: position{line: 669, col: 17, offset: 21321},
 																														run: (*parser).callonRelativeLink74,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21220},
+																															pos: position{line: 669, col: 17, offset: 21321},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21220},
+																																	pos:        position{line: 669, col: 17, offset: 21321},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21224},
+																																	pos:   position{line: 669, col: 21, offset: 21325},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21231},
+																																		pos: position{line: 669, col: 28, offset: 21332},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21231},
+																																				pos: position{line: 669, col: 28, offset: 21332},
 																																				run: (*parser).callonRelativeLink79,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21231},
+																																					pos:        position{line: 669, col: 28, offset: 21332},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22872,12 +22872,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21285},
+																																				pos: position{line: 671, col: 9, offset: 21386},
 																																				run: (*parser).callonRelativeLink81,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21285},
+																																					pos: position{line: 671, col: 9, offset: 21386},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21285},
+																																						pos:        position{line: 671, col: 9, offset: 21386},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22894,7 +22894,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 659, col: 78, offset: 20939},
+																												pos:        position{line: 661, col: 78, offset: 21040},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22903,28 +22903,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 663, col: 25, offset: 21057},
+																									pos: position{line: 665, col: 25, offset: 21158},
 																									run: (*parser).callonRelativeLink85,
 																									expr: &seqExpr{
-																										pos: position{line: 663, col: 25, offset: 21057},
+																										pos: position{line: 665, col: 25, offset: 21158},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 663, col: 25, offset: 21057},
+																												pos:        position{line: 665, col: 25, offset: 21158},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 38, offset: 21070},
+																												pos:   position{line: 665, col: 38, offset: 21171},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 320, col: 18, offset: 9837},
 																													run: (*parser).callonRelativeLink89,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 320, col: 18, offset: 9837},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22932,9 +22932,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 320, col: 29, offset: 9848},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22947,33 +22947,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 57, offset: 21089},
+																												pos:   position{line: 665, col: 57, offset: 21190},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 663, col: 63, offset: 21095},
+																													pos: position{line: 665, col: 63, offset: 21196},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21220},
+																														pos: position{line: 669, col: 17, offset: 21321},
 																														run: (*parser).callonRelativeLink96,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21220},
+																															pos: position{line: 669, col: 17, offset: 21321},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21220},
+																																	pos:        position{line: 669, col: 17, offset: 21321},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21224},
+																																	pos:   position{line: 669, col: 21, offset: 21325},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21231},
+																																		pos: position{line: 669, col: 28, offset: 21332},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21231},
+																																				pos: position{line: 669, col: 28, offset: 21332},
 																																				run: (*parser).callonRelativeLink101,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21231},
+																																					pos:        position{line: 669, col: 28, offset: 21332},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22981,12 +22981,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21285},
+																																				pos: position{line: 671, col: 9, offset: 21386},
 																																				run: (*parser).callonRelativeLink103,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21285},
+																																					pos: position{line: 671, col: 9, offset: 21386},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21285},
+																																						pos:        position{line: 671, col: 9, offset: 21386},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23003,7 +23003,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 663, col: 79, offset: 21111},
+																												pos:        position{line: 665, col: 79, offset: 21212},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23018,27 +23018,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1199, col: 23, offset: 37069},
+																			pos: position{line: 1201, col: 23, offset: 37170},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1199, col: 23, offset: 37069},
+																				pos: position{line: 1201, col: 23, offset: 37170},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1197, col: 32, offset: 37037},
+																						pos:        position{line: 1199, col: 32, offset: 37138},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1199, col: 51, offset: 37097},
+																						pos:   position{line: 1201, col: 51, offset: 37198},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1199, col: 56, offset: 37102},
+																							pos: position{line: 1201, col: 56, offset: 37203},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1199, col: 56, offset: 37102},
+																								pos: position{line: 1201, col: 56, offset: 37203},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1199, col: 56, offset: 37102},
+																									pos:        position{line: 1201, col: 56, offset: 37203},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23048,7 +23048,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1197, col: 32, offset: 37037},
+																						pos:        position{line: 1199, col: 32, offset: 37138},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23057,10 +23057,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2889, col: 11, offset: 91339},
+																			pos: position{line: 2891, col: 11, offset: 91440},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2889, col: 11, offset: 91339},
+																				pos:        position{line: 2891, col: 11, offset: 91440},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23077,10 +23077,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1425, col: 32, offset: 45894},
+									pos:   position{line: 1427, col: 32, offset: 45995},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1425, col: 44, offset: 45906},
+										pos:  position{line: 1427, col: 44, offset: 46007},
 										name: "InlineAttributes",
 									},
 								},
@@ -23088,63 +23088,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1430, col: 5, offset: 46038},
+						pos: position{line: 1432, col: 5, offset: 46139},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1430, col: 5, offset: 46038},
+							pos: position{line: 1432, col: 5, offset: 46139},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1430, col: 5, offset: 46038},
+									pos:        position{line: 1432, col: 5, offset: 46139},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1430, col: 13, offset: 46046},
+									pos:   position{line: 1432, col: 13, offset: 46147},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2868, col: 13, offset: 90583},
+										pos: position{line: 2870, col: 13, offset: 90684},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2868, col: 13, offset: 90583},
+											pos: position{line: 2870, col: 13, offset: 90684},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2868, col: 13, offset: 90583},
+													pos:   position{line: 2870, col: 13, offset: 90684},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2868, col: 20, offset: 90590},
+														pos: position{line: 2870, col: 20, offset: 90691},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 11, offset: 90829},
+															pos: position{line: 2878, col: 11, offset: 90930},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2876, col: 12, offset: 90830},
+																pos: position{line: 2878, col: 12, offset: 90931},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 12, offset: 90830},
+																		pos:        position{line: 2878, col: 12, offset: 90931},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 24, offset: 90842},
+																		pos:        position{line: 2878, col: 24, offset: 90943},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 37, offset: 90855},
+																		pos:        position{line: 2878, col: 37, offset: 90956},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 48, offset: 90866},
+																		pos:        position{line: 2878, col: 48, offset: 90967},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 59, offset: 90877},
+																		pos:        position{line: 2878, col: 59, offset: 90978},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23155,38 +23155,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2868, col: 30, offset: 90600},
+													pos:   position{line: 2870, col: 30, offset: 90701},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 5, offset: 90941},
+														pos: position{line: 2883, col: 5, offset: 91042},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2881, col: 5, offset: 90941},
+															pos:   position{line: 2883, col: 5, offset: 91042},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2881, col: 14, offset: 90950},
+																pos: position{line: 2883, col: 14, offset: 91051},
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 9, offset: 90960},
+																	pos: position{line: 2884, col: 9, offset: 91061},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 9, offset: 90960},
+																			pos: position{line: 2884, col: 9, offset: 91061},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2882, col: 9, offset: 90960},
+																				pos: position{line: 2884, col: 9, offset: 91061},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2882, col: 9, offset: 90960},
+																						pos: position{line: 2884, col: 9, offset: 91061},
 																						expr: &litMatcher{
-																							pos:        position{line: 2882, col: 10, offset: 90961},
+																							pos:        position{line: 2884, col: 10, offset: 91062},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2883, col: 9, offset: 90989},
+																						pos: position{line: 2885, col: 9, offset: 91090},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2883, col: 10, offset: 90990},
+																							pos:        position{line: 2885, col: 10, offset: 91091},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23197,27 +23197,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2886, col: 11, offset: 91202},
+																			pos: position{line: 2888, col: 11, offset: 91303},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2886, col: 11, offset: 91202},
+																					pos:        position{line: 2888, col: 11, offset: 91303},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2886, col: 19, offset: 91210},
+																					pos: position{line: 2888, col: 19, offset: 91311},
 																					expr: &seqExpr{
-																						pos: position{line: 2886, col: 21, offset: 91212},
+																						pos: position{line: 2888, col: 21, offset: 91313},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2886, col: 21, offset: 91212},
+																								pos: position{line: 2888, col: 21, offset: 91313},
 																								expr: &actionExpr{
-																									pos: position{line: 2910, col: 10, offset: 91824},
+																									pos: position{line: 2912, col: 10, offset: 91925},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2910, col: 10, offset: 91824},
+																										pos:        position{line: 2912, col: 10, offset: 91925},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23226,11 +23226,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 28, offset: 91219},
+																								pos: position{line: 2888, col: 28, offset: 91320},
 																								expr: &notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -23240,44 +23240,44 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 637, col: 5, offset: 20204},
+																			pos: position{line: 639, col: 5, offset: 20305},
 																			run: (*parser).callonRelativeLink155,
 																			expr: &seqExpr{
-																				pos: position{line: 637, col: 5, offset: 20204},
+																				pos: position{line: 639, col: 5, offset: 20305},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 637, col: 5, offset: 20204},
+																						pos: position{line: 639, col: 5, offset: 20305},
 																						run: (*parser).callonRelativeLink157,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 640, col: 5, offset: 20276},
+																						pos:   position{line: 642, col: 5, offset: 20377},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 640, col: 14, offset: 20285},
+																							pos: position{line: 642, col: 14, offset: 20386},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 646, col: 5, offset: 20414},
+																									pos: position{line: 648, col: 5, offset: 20515},
 																									run: (*parser).callonRelativeLink160,
 																									expr: &seqExpr{
-																										pos: position{line: 646, col: 5, offset: 20414},
+																										pos: position{line: 648, col: 5, offset: 20515},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 646, col: 5, offset: 20414},
+																												pos:        position{line: 648, col: 5, offset: 20515},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 646, col: 13, offset: 20422},
+																												pos:   position{line: 648, col: 13, offset: 20523},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 320, col: 18, offset: 9837},
 																													run: (*parser).callonRelativeLink164,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 320, col: 18, offset: 9837},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23285,9 +23285,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 320, col: 29, offset: 9848},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23300,7 +23300,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 646, col: 32, offset: 20441},
+																												pos:        position{line: 648, col: 32, offset: 20542},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23309,28 +23309,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 653, col: 5, offset: 20682},
+																									pos: position{line: 655, col: 5, offset: 20783},
 																									run: (*parser).callonRelativeLink170,
 																									expr: &seqExpr{
-																										pos: position{line: 653, col: 5, offset: 20682},
+																										pos: position{line: 655, col: 5, offset: 20783},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 653, col: 5, offset: 20682},
+																												pos:        position{line: 655, col: 5, offset: 20783},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 653, col: 9, offset: 20686},
+																												pos:   position{line: 655, col: 9, offset: 20787},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 320, col: 18, offset: 9837},
 																													run: (*parser).callonRelativeLink174,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 320, col: 18, offset: 9837},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23338,9 +23338,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 320, col: 29, offset: 9848},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23353,7 +23353,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 653, col: 28, offset: 20705},
+																												pos:        position{line: 655, col: 28, offset: 20806},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23362,28 +23362,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 659, col: 25, offset: 20886},
+																									pos: position{line: 661, col: 25, offset: 20987},
 																									run: (*parser).callonRelativeLink180,
 																									expr: &seqExpr{
-																										pos: position{line: 659, col: 25, offset: 20886},
+																										pos: position{line: 661, col: 25, offset: 20987},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 659, col: 25, offset: 20886},
+																												pos:        position{line: 661, col: 25, offset: 20987},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 37, offset: 20898},
+																												pos:   position{line: 661, col: 37, offset: 20999},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 320, col: 18, offset: 9837},
 																													run: (*parser).callonRelativeLink184,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 320, col: 18, offset: 9837},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23391,9 +23391,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 320, col: 29, offset: 9848},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23406,33 +23406,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 56, offset: 20917},
+																												pos:   position{line: 661, col: 56, offset: 21018},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 659, col: 62, offset: 20923},
+																													pos: position{line: 661, col: 62, offset: 21024},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21220},
+																														pos: position{line: 669, col: 17, offset: 21321},
 																														run: (*parser).callonRelativeLink191,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21220},
+																															pos: position{line: 669, col: 17, offset: 21321},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21220},
+																																	pos:        position{line: 669, col: 17, offset: 21321},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21224},
+																																	pos:   position{line: 669, col: 21, offset: 21325},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21231},
+																																		pos: position{line: 669, col: 28, offset: 21332},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21231},
+																																				pos: position{line: 669, col: 28, offset: 21332},
 																																				run: (*parser).callonRelativeLink196,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21231},
+																																					pos:        position{line: 669, col: 28, offset: 21332},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23440,12 +23440,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21285},
+																																				pos: position{line: 671, col: 9, offset: 21386},
 																																				run: (*parser).callonRelativeLink198,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21285},
+																																					pos: position{line: 671, col: 9, offset: 21386},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21285},
+																																						pos:        position{line: 671, col: 9, offset: 21386},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23462,7 +23462,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 659, col: 78, offset: 20939},
+																												pos:        position{line: 661, col: 78, offset: 21040},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23471,28 +23471,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 663, col: 25, offset: 21057},
+																									pos: position{line: 665, col: 25, offset: 21158},
 																									run: (*parser).callonRelativeLink202,
 																									expr: &seqExpr{
-																										pos: position{line: 663, col: 25, offset: 21057},
+																										pos: position{line: 665, col: 25, offset: 21158},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 663, col: 25, offset: 21057},
+																												pos:        position{line: 665, col: 25, offset: 21158},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 38, offset: 21070},
+																												pos:   position{line: 665, col: 38, offset: 21171},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 320, col: 18, offset: 9837},
 																													run: (*parser).callonRelativeLink206,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 320, col: 18, offset: 9837},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23500,9 +23500,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 320, col: 29, offset: 9848},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23515,33 +23515,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 57, offset: 21089},
+																												pos:   position{line: 665, col: 57, offset: 21190},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 663, col: 63, offset: 21095},
+																													pos: position{line: 665, col: 63, offset: 21196},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21220},
+																														pos: position{line: 669, col: 17, offset: 21321},
 																														run: (*parser).callonRelativeLink213,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21220},
+																															pos: position{line: 669, col: 17, offset: 21321},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21220},
+																																	pos:        position{line: 669, col: 17, offset: 21321},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21224},
+																																	pos:   position{line: 669, col: 21, offset: 21325},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21231},
+																																		pos: position{line: 669, col: 28, offset: 21332},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21231},
+																																				pos: position{line: 669, col: 28, offset: 21332},
 																																				run: (*parser).callonRelativeLink218,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21231},
+																																					pos:        position{line: 669, col: 28, offset: 21332},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23549,12 +23549,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21285},
+																																				pos: position{line: 671, col: 9, offset: 21386},
 																																				run: (*parser).callonRelativeLink220,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21285},
+																																					pos: position{line: 671, col: 9, offset: 21386},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21285},
+																																						pos:        position{line: 671, col: 9, offset: 21386},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23571,7 +23571,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 663, col: 79, offset: 21111},
+																												pos:        position{line: 665, col: 79, offset: 21212},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23586,27 +23586,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1199, col: 23, offset: 37069},
+																			pos: position{line: 1201, col: 23, offset: 37170},
 																			run: (*parser).callonRelativeLink224,
 																			expr: &seqExpr{
-																				pos: position{line: 1199, col: 23, offset: 37069},
+																				pos: position{line: 1201, col: 23, offset: 37170},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1197, col: 32, offset: 37037},
+																						pos:        position{line: 1199, col: 32, offset: 37138},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1199, col: 51, offset: 37097},
+																						pos:   position{line: 1201, col: 51, offset: 37198},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1199, col: 56, offset: 37102},
+																							pos: position{line: 1201, col: 56, offset: 37203},
 																							run: (*parser).callonRelativeLink228,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1199, col: 56, offset: 37102},
+																								pos: position{line: 1201, col: 56, offset: 37203},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1199, col: 56, offset: 37102},
+																									pos:        position{line: 1201, col: 56, offset: 37203},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23616,7 +23616,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1197, col: 32, offset: 37037},
+																						pos:        position{line: 1199, col: 32, offset: 37138},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23625,10 +23625,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2889, col: 11, offset: 91339},
+																			pos: position{line: 2891, col: 11, offset: 91440},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2889, col: 11, offset: 91339},
+																				pos:        position{line: 2891, col: 11, offset: 91440},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23645,10 +23645,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1430, col: 28, offset: 46061},
+									pos:   position{line: 1432, col: 28, offset: 46162},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1430, col: 40, offset: 46073},
+										pos:  position{line: 1432, col: 40, offset: 46174},
 										name: "InlineAttributes",
 									},
 								},
@@ -23660,75 +23660,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1434, col: 1, offset: 46189},
+			pos:  position{line: 1436, col: 1, offset: 46290},
 			expr: &choiceExpr{
-				pos: position{line: 1437, col: 5, offset: 46351},
+				pos: position{line: 1439, col: 5, offset: 46452},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1437, col: 5, offset: 46351},
+						pos: position{line: 1439, col: 5, offset: 46452},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1437, col: 5, offset: 46351},
+							pos: position{line: 1439, col: 5, offset: 46452},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1437, col: 5, offset: 46351},
+									pos:        position{line: 1439, col: 5, offset: 46452},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1437, col: 9, offset: 46355},
+									pos:   position{line: 1439, col: 9, offset: 46456},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2872, col: 23, offset: 90710},
+										pos: position{line: 2874, col: 23, offset: 90811},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2872, col: 23, offset: 90710},
+											pos: position{line: 2874, col: 23, offset: 90811},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2872, col: 23, offset: 90710},
+													pos: position{line: 2874, col: 23, offset: 90811},
 													expr: &litMatcher{
-														pos:        position{line: 2872, col: 24, offset: 90711},
+														pos:        position{line: 2874, col: 24, offset: 90812},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2872, col: 28, offset: 90715},
+													pos:   position{line: 2874, col: 28, offset: 90816},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 11, offset: 90829},
+														pos: position{line: 2878, col: 11, offset: 90930},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2876, col: 12, offset: 90830},
+															pos: position{line: 2878, col: 12, offset: 90931},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2876, col: 12, offset: 90830},
+																	pos:        position{line: 2878, col: 12, offset: 90931},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 24, offset: 90842},
+																	pos:        position{line: 2878, col: 24, offset: 90943},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 37, offset: 90855},
+																	pos:        position{line: 2878, col: 37, offset: 90956},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 48, offset: 90866},
+																	pos:        position{line: 2878, col: 48, offset: 90967},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 59, offset: 90877},
+																	pos:        position{line: 2878, col: 59, offset: 90978},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23738,38 +23738,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2872, col: 44, offset: 90731},
+													pos:   position{line: 2874, col: 44, offset: 90832},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 5, offset: 90941},
+														pos: position{line: 2883, col: 5, offset: 91042},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2881, col: 5, offset: 90941},
+															pos:   position{line: 2883, col: 5, offset: 91042},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2881, col: 14, offset: 90950},
+																pos: position{line: 2883, col: 14, offset: 91051},
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 9, offset: 90960},
+																	pos: position{line: 2884, col: 9, offset: 91061},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 9, offset: 90960},
+																			pos: position{line: 2884, col: 9, offset: 91061},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2882, col: 9, offset: 90960},
+																				pos: position{line: 2884, col: 9, offset: 91061},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2882, col: 9, offset: 90960},
+																						pos: position{line: 2884, col: 9, offset: 91061},
 																						expr: &litMatcher{
-																							pos:        position{line: 2882, col: 10, offset: 90961},
+																							pos:        position{line: 2884, col: 10, offset: 91062},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2883, col: 9, offset: 90989},
+																						pos: position{line: 2885, col: 9, offset: 91090},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2883, col: 10, offset: 90990},
+																							pos:        position{line: 2885, col: 10, offset: 91091},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23780,27 +23780,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2886, col: 11, offset: 91202},
+																			pos: position{line: 2888, col: 11, offset: 91303},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2886, col: 11, offset: 91202},
+																					pos:        position{line: 2888, col: 11, offset: 91303},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2886, col: 19, offset: 91210},
+																					pos: position{line: 2888, col: 19, offset: 91311},
 																					expr: &seqExpr{
-																						pos: position{line: 2886, col: 21, offset: 91212},
+																						pos: position{line: 2888, col: 21, offset: 91313},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2886, col: 21, offset: 91212},
+																								pos: position{line: 2888, col: 21, offset: 91313},
 																								expr: &actionExpr{
-																									pos: position{line: 2910, col: 10, offset: 91824},
+																									pos: position{line: 2912, col: 10, offset: 91925},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2910, col: 10, offset: 91824},
+																										pos:        position{line: 2912, col: 10, offset: 91925},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23809,11 +23809,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 28, offset: 91219},
+																								pos: position{line: 2888, col: 28, offset: 91320},
 																								expr: &notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -23823,44 +23823,44 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 637, col: 5, offset: 20204},
+																			pos: position{line: 639, col: 5, offset: 20305},
 																			run: (*parser).callonExternalLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 637, col: 5, offset: 20204},
+																				pos: position{line: 639, col: 5, offset: 20305},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 637, col: 5, offset: 20204},
+																						pos: position{line: 639, col: 5, offset: 20305},
 																						run: (*parser).callonExternalLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 640, col: 5, offset: 20276},
+																						pos:   position{line: 642, col: 5, offset: 20377},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 640, col: 14, offset: 20285},
+																							pos: position{line: 642, col: 14, offset: 20386},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 646, col: 5, offset: 20414},
+																									pos: position{line: 648, col: 5, offset: 20515},
 																									run: (*parser).callonExternalLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 646, col: 5, offset: 20414},
+																										pos: position{line: 648, col: 5, offset: 20515},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 646, col: 5, offset: 20414},
+																												pos:        position{line: 648, col: 5, offset: 20515},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 646, col: 13, offset: 20422},
+																												pos:   position{line: 648, col: 13, offset: 20523},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 320, col: 18, offset: 9837},
 																													run: (*parser).callonExternalLink48,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 320, col: 18, offset: 9837},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23868,9 +23868,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 320, col: 29, offset: 9848},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23883,7 +23883,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 646, col: 32, offset: 20441},
+																												pos:        position{line: 648, col: 32, offset: 20542},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23892,28 +23892,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 653, col: 5, offset: 20682},
+																									pos: position{line: 655, col: 5, offset: 20783},
 																									run: (*parser).callonExternalLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 653, col: 5, offset: 20682},
+																										pos: position{line: 655, col: 5, offset: 20783},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 653, col: 5, offset: 20682},
+																												pos:        position{line: 655, col: 5, offset: 20783},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 653, col: 9, offset: 20686},
+																												pos:   position{line: 655, col: 9, offset: 20787},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 320, col: 18, offset: 9837},
 																													run: (*parser).callonExternalLink58,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 320, col: 18, offset: 9837},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23921,9 +23921,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 320, col: 29, offset: 9848},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23936,7 +23936,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 653, col: 28, offset: 20705},
+																												pos:        position{line: 655, col: 28, offset: 20806},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23945,28 +23945,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 659, col: 25, offset: 20886},
+																									pos: position{line: 661, col: 25, offset: 20987},
 																									run: (*parser).callonExternalLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 659, col: 25, offset: 20886},
+																										pos: position{line: 661, col: 25, offset: 20987},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 659, col: 25, offset: 20886},
+																												pos:        position{line: 661, col: 25, offset: 20987},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 37, offset: 20898},
+																												pos:   position{line: 661, col: 37, offset: 20999},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 320, col: 18, offset: 9837},
 																													run: (*parser).callonExternalLink68,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 320, col: 18, offset: 9837},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23974,9 +23974,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 320, col: 29, offset: 9848},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23989,33 +23989,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 56, offset: 20917},
+																												pos:   position{line: 661, col: 56, offset: 21018},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 659, col: 62, offset: 20923},
+																													pos: position{line: 661, col: 62, offset: 21024},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21220},
+																														pos: position{line: 669, col: 17, offset: 21321},
 																														run: (*parser).callonExternalLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21220},
+																															pos: position{line: 669, col: 17, offset: 21321},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21220},
+																																	pos:        position{line: 669, col: 17, offset: 21321},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21224},
+																																	pos:   position{line: 669, col: 21, offset: 21325},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21231},
+																																		pos: position{line: 669, col: 28, offset: 21332},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21231},
+																																				pos: position{line: 669, col: 28, offset: 21332},
 																																				run: (*parser).callonExternalLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21231},
+																																					pos:        position{line: 669, col: 28, offset: 21332},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24023,12 +24023,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21285},
+																																				pos: position{line: 671, col: 9, offset: 21386},
 																																				run: (*parser).callonExternalLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21285},
+																																					pos: position{line: 671, col: 9, offset: 21386},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21285},
+																																						pos:        position{line: 671, col: 9, offset: 21386},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24045,7 +24045,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 659, col: 78, offset: 20939},
+																												pos:        position{line: 661, col: 78, offset: 21040},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24054,28 +24054,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 663, col: 25, offset: 21057},
+																									pos: position{line: 665, col: 25, offset: 21158},
 																									run: (*parser).callonExternalLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 663, col: 25, offset: 21057},
+																										pos: position{line: 665, col: 25, offset: 21158},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 663, col: 25, offset: 21057},
+																												pos:        position{line: 665, col: 25, offset: 21158},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 38, offset: 21070},
+																												pos:   position{line: 665, col: 38, offset: 21171},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 320, col: 18, offset: 9837},
 																													run: (*parser).callonExternalLink90,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 320, col: 18, offset: 9837},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24083,9 +24083,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 320, col: 29, offset: 9848},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24098,33 +24098,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 57, offset: 21089},
+																												pos:   position{line: 665, col: 57, offset: 21190},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 663, col: 63, offset: 21095},
+																													pos: position{line: 665, col: 63, offset: 21196},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21220},
+																														pos: position{line: 669, col: 17, offset: 21321},
 																														run: (*parser).callonExternalLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21220},
+																															pos: position{line: 669, col: 17, offset: 21321},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21220},
+																																	pos:        position{line: 669, col: 17, offset: 21321},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21224},
+																																	pos:   position{line: 669, col: 21, offset: 21325},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21231},
+																																		pos: position{line: 669, col: 28, offset: 21332},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21231},
+																																				pos: position{line: 669, col: 28, offset: 21332},
 																																				run: (*parser).callonExternalLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21231},
+																																					pos:        position{line: 669, col: 28, offset: 21332},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24132,12 +24132,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21285},
+																																				pos: position{line: 671, col: 9, offset: 21386},
 																																				run: (*parser).callonExternalLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21285},
+																																					pos: position{line: 671, col: 9, offset: 21386},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21285},
+																																						pos:        position{line: 671, col: 9, offset: 21386},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24154,7 +24154,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 663, col: 79, offset: 21111},
+																												pos:        position{line: 665, col: 79, offset: 21212},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24169,27 +24169,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1199, col: 23, offset: 37069},
+																			pos: position{line: 1201, col: 23, offset: 37170},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1199, col: 23, offset: 37069},
+																				pos: position{line: 1201, col: 23, offset: 37170},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1197, col: 32, offset: 37037},
+																						pos:        position{line: 1199, col: 32, offset: 37138},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1199, col: 51, offset: 37097},
+																						pos:   position{line: 1201, col: 51, offset: 37198},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1199, col: 56, offset: 37102},
+																							pos: position{line: 1201, col: 56, offset: 37203},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1199, col: 56, offset: 37102},
+																								pos: position{line: 1201, col: 56, offset: 37203},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1199, col: 56, offset: 37102},
+																									pos:        position{line: 1201, col: 56, offset: 37203},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24199,7 +24199,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1197, col: 32, offset: 37037},
+																						pos:        position{line: 1199, col: 32, offset: 37138},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24208,10 +24208,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2889, col: 11, offset: 91339},
+																			pos: position{line: 2891, col: 11, offset: 91440},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2889, col: 11, offset: 91339},
+																				pos:        position{line: 2891, col: 11, offset: 91440},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24228,12 +24228,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1437, col: 34, offset: 46380},
+									pos:   position{line: 1439, col: 34, offset: 46481},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1437, col: 45, offset: 46391},
+										pos: position{line: 1439, col: 45, offset: 46492},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1437, col: 46, offset: 46392},
+											pos:  position{line: 1439, col: 46, offset: 46493},
 											name: "InlineAttributes",
 										},
 									},
@@ -24242,64 +24242,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1442, col: 5, offset: 46525},
+						pos: position{line: 1444, col: 5, offset: 46626},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1442, col: 5, offset: 46525},
+							pos: position{line: 1444, col: 5, offset: 46626},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1442, col: 5, offset: 46525},
+									pos:   position{line: 1444, col: 5, offset: 46626},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2872, col: 23, offset: 90710},
+										pos: position{line: 2874, col: 23, offset: 90811},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2872, col: 23, offset: 90710},
+											pos: position{line: 2874, col: 23, offset: 90811},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2872, col: 23, offset: 90710},
+													pos: position{line: 2874, col: 23, offset: 90811},
 													expr: &litMatcher{
-														pos:        position{line: 2872, col: 24, offset: 90711},
+														pos:        position{line: 2874, col: 24, offset: 90812},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2872, col: 28, offset: 90715},
+													pos:   position{line: 2874, col: 28, offset: 90816},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 11, offset: 90829},
+														pos: position{line: 2878, col: 11, offset: 90930},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2876, col: 12, offset: 90830},
+															pos: position{line: 2878, col: 12, offset: 90931},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2876, col: 12, offset: 90830},
+																	pos:        position{line: 2878, col: 12, offset: 90931},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 24, offset: 90842},
+																	pos:        position{line: 2878, col: 24, offset: 90943},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 37, offset: 90855},
+																	pos:        position{line: 2878, col: 37, offset: 90956},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 48, offset: 90866},
+																	pos:        position{line: 2878, col: 48, offset: 90967},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 59, offset: 90877},
+																	pos:        position{line: 2878, col: 59, offset: 90978},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24309,38 +24309,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2872, col: 44, offset: 90731},
+													pos:   position{line: 2874, col: 44, offset: 90832},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 5, offset: 90941},
+														pos: position{line: 2883, col: 5, offset: 91042},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2881, col: 5, offset: 90941},
+															pos:   position{line: 2883, col: 5, offset: 91042},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2881, col: 14, offset: 90950},
+																pos: position{line: 2883, col: 14, offset: 91051},
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 9, offset: 90960},
+																	pos: position{line: 2884, col: 9, offset: 91061},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 9, offset: 90960},
+																			pos: position{line: 2884, col: 9, offset: 91061},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2882, col: 9, offset: 90960},
+																				pos: position{line: 2884, col: 9, offset: 91061},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2882, col: 9, offset: 90960},
+																						pos: position{line: 2884, col: 9, offset: 91061},
 																						expr: &litMatcher{
-																							pos:        position{line: 2882, col: 10, offset: 90961},
+																							pos:        position{line: 2884, col: 10, offset: 91062},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2883, col: 9, offset: 90989},
+																						pos: position{line: 2885, col: 9, offset: 91090},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2883, col: 10, offset: 90990},
+																							pos:        position{line: 2885, col: 10, offset: 91091},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24351,27 +24351,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2886, col: 11, offset: 91202},
+																			pos: position{line: 2888, col: 11, offset: 91303},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2886, col: 11, offset: 91202},
+																					pos:        position{line: 2888, col: 11, offset: 91303},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2886, col: 19, offset: 91210},
+																					pos: position{line: 2888, col: 19, offset: 91311},
 																					expr: &seqExpr{
-																						pos: position{line: 2886, col: 21, offset: 91212},
+																						pos: position{line: 2888, col: 21, offset: 91313},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2886, col: 21, offset: 91212},
+																								pos: position{line: 2888, col: 21, offset: 91313},
 																								expr: &actionExpr{
-																									pos: position{line: 2910, col: 10, offset: 91824},
+																									pos: position{line: 2912, col: 10, offset: 91925},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2910, col: 10, offset: 91824},
+																										pos:        position{line: 2912, col: 10, offset: 91925},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24380,11 +24380,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 28, offset: 91219},
+																								pos: position{line: 2888, col: 28, offset: 91320},
 																								expr: &notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -24394,44 +24394,44 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 637, col: 5, offset: 20204},
+																			pos: position{line: 639, col: 5, offset: 20305},
 																			run: (*parser).callonExternalLink157,
 																			expr: &seqExpr{
-																				pos: position{line: 637, col: 5, offset: 20204},
+																				pos: position{line: 639, col: 5, offset: 20305},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 637, col: 5, offset: 20204},
+																						pos: position{line: 639, col: 5, offset: 20305},
 																						run: (*parser).callonExternalLink159,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 640, col: 5, offset: 20276},
+																						pos:   position{line: 642, col: 5, offset: 20377},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 640, col: 14, offset: 20285},
+																							pos: position{line: 642, col: 14, offset: 20386},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 646, col: 5, offset: 20414},
+																									pos: position{line: 648, col: 5, offset: 20515},
 																									run: (*parser).callonExternalLink162,
 																									expr: &seqExpr{
-																										pos: position{line: 646, col: 5, offset: 20414},
+																										pos: position{line: 648, col: 5, offset: 20515},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 646, col: 5, offset: 20414},
+																												pos:        position{line: 648, col: 5, offset: 20515},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 646, col: 13, offset: 20422},
+																												pos:   position{line: 648, col: 13, offset: 20523},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 320, col: 18, offset: 9837},
 																													run: (*parser).callonExternalLink166,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 320, col: 18, offset: 9837},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24439,9 +24439,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 320, col: 29, offset: 9848},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24454,7 +24454,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 646, col: 32, offset: 20441},
+																												pos:        position{line: 648, col: 32, offset: 20542},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24463,28 +24463,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 653, col: 5, offset: 20682},
+																									pos: position{line: 655, col: 5, offset: 20783},
 																									run: (*parser).callonExternalLink172,
 																									expr: &seqExpr{
-																										pos: position{line: 653, col: 5, offset: 20682},
+																										pos: position{line: 655, col: 5, offset: 20783},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 653, col: 5, offset: 20682},
+																												pos:        position{line: 655, col: 5, offset: 20783},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 653, col: 9, offset: 20686},
+																												pos:   position{line: 655, col: 9, offset: 20787},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 320, col: 18, offset: 9837},
 																													run: (*parser).callonExternalLink176,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 320, col: 18, offset: 9837},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24492,9 +24492,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 320, col: 29, offset: 9848},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24507,7 +24507,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 653, col: 28, offset: 20705},
+																												pos:        position{line: 655, col: 28, offset: 20806},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24516,28 +24516,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 659, col: 25, offset: 20886},
+																									pos: position{line: 661, col: 25, offset: 20987},
 																									run: (*parser).callonExternalLink182,
 																									expr: &seqExpr{
-																										pos: position{line: 659, col: 25, offset: 20886},
+																										pos: position{line: 661, col: 25, offset: 20987},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 659, col: 25, offset: 20886},
+																												pos:        position{line: 661, col: 25, offset: 20987},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 37, offset: 20898},
+																												pos:   position{line: 661, col: 37, offset: 20999},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 320, col: 18, offset: 9837},
 																													run: (*parser).callonExternalLink186,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 320, col: 18, offset: 9837},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24545,9 +24545,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 320, col: 29, offset: 9848},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24560,33 +24560,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 56, offset: 20917},
+																												pos:   position{line: 661, col: 56, offset: 21018},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 659, col: 62, offset: 20923},
+																													pos: position{line: 661, col: 62, offset: 21024},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21220},
+																														pos: position{line: 669, col: 17, offset: 21321},
 																														run: (*parser).callonExternalLink193,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21220},
+																															pos: position{line: 669, col: 17, offset: 21321},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21220},
+																																	pos:        position{line: 669, col: 17, offset: 21321},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21224},
+																																	pos:   position{line: 669, col: 21, offset: 21325},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21231},
+																																		pos: position{line: 669, col: 28, offset: 21332},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21231},
+																																				pos: position{line: 669, col: 28, offset: 21332},
 																																				run: (*parser).callonExternalLink198,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21231},
+																																					pos:        position{line: 669, col: 28, offset: 21332},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24594,12 +24594,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21285},
+																																				pos: position{line: 671, col: 9, offset: 21386},
 																																				run: (*parser).callonExternalLink200,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21285},
+																																					pos: position{line: 671, col: 9, offset: 21386},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21285},
+																																						pos:        position{line: 671, col: 9, offset: 21386},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24616,7 +24616,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 659, col: 78, offset: 20939},
+																												pos:        position{line: 661, col: 78, offset: 21040},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24625,28 +24625,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 663, col: 25, offset: 21057},
+																									pos: position{line: 665, col: 25, offset: 21158},
 																									run: (*parser).callonExternalLink204,
 																									expr: &seqExpr{
-																										pos: position{line: 663, col: 25, offset: 21057},
+																										pos: position{line: 665, col: 25, offset: 21158},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 663, col: 25, offset: 21057},
+																												pos:        position{line: 665, col: 25, offset: 21158},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 38, offset: 21070},
+																												pos:   position{line: 665, col: 38, offset: 21171},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 320, col: 18, offset: 9837},
 																													run: (*parser).callonExternalLink208,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 320, col: 18, offset: 9837},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24654,9 +24654,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 320, col: 29, offset: 9848},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24669,33 +24669,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 57, offset: 21089},
+																												pos:   position{line: 665, col: 57, offset: 21190},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 663, col: 63, offset: 21095},
+																													pos: position{line: 665, col: 63, offset: 21196},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21220},
+																														pos: position{line: 669, col: 17, offset: 21321},
 																														run: (*parser).callonExternalLink215,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21220},
+																															pos: position{line: 669, col: 17, offset: 21321},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21220},
+																																	pos:        position{line: 669, col: 17, offset: 21321},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21224},
+																																	pos:   position{line: 669, col: 21, offset: 21325},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21231},
+																																		pos: position{line: 669, col: 28, offset: 21332},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21231},
+																																				pos: position{line: 669, col: 28, offset: 21332},
 																																				run: (*parser).callonExternalLink220,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21231},
+																																					pos:        position{line: 669, col: 28, offset: 21332},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24703,12 +24703,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21285},
+																																				pos: position{line: 671, col: 9, offset: 21386},
 																																				run: (*parser).callonExternalLink222,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21285},
+																																					pos: position{line: 671, col: 9, offset: 21386},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21285},
+																																						pos:        position{line: 671, col: 9, offset: 21386},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24725,7 +24725,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 663, col: 79, offset: 21111},
+																												pos:        position{line: 665, col: 79, offset: 21212},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24740,27 +24740,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1199, col: 23, offset: 37069},
+																			pos: position{line: 1201, col: 23, offset: 37170},
 																			run: (*parser).callonExternalLink226,
 																			expr: &seqExpr{
-																				pos: position{line: 1199, col: 23, offset: 37069},
+																				pos: position{line: 1201, col: 23, offset: 37170},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1197, col: 32, offset: 37037},
+																						pos:        position{line: 1199, col: 32, offset: 37138},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1199, col: 51, offset: 37097},
+																						pos:   position{line: 1201, col: 51, offset: 37198},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1199, col: 56, offset: 37102},
+																							pos: position{line: 1201, col: 56, offset: 37203},
 																							run: (*parser).callonExternalLink230,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1199, col: 56, offset: 37102},
+																								pos: position{line: 1201, col: 56, offset: 37203},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1199, col: 56, offset: 37102},
+																									pos:        position{line: 1201, col: 56, offset: 37203},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24770,7 +24770,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1197, col: 32, offset: 37037},
+																						pos:        position{line: 1199, col: 32, offset: 37138},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24779,10 +24779,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2889, col: 11, offset: 91339},
+																			pos: position{line: 2891, col: 11, offset: 91440},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2889, col: 11, offset: 91339},
+																				pos:        position{line: 2891, col: 11, offset: 91440},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24799,12 +24799,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1442, col: 30, offset: 46550},
+									pos:   position{line: 1444, col: 30, offset: 46651},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1442, col: 41, offset: 46561},
+										pos: position{line: 1444, col: 41, offset: 46662},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1442, col: 42, offset: 46562},
+											pos:  position{line: 1444, col: 42, offset: 46663},
 											name: "InlineAttributes",
 										},
 									},
@@ -24817,41 +24817,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1476, col: 1, offset: 47703},
+			pos:  position{line: 1478, col: 1, offset: 47804},
 			expr: &actionExpr{
-				pos: position{line: 1477, col: 5, offset: 47724},
+				pos: position{line: 1479, col: 5, offset: 47825},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1477, col: 5, offset: 47724},
+					pos: position{line: 1479, col: 5, offset: 47825},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1477, col: 5, offset: 47724},
+							pos:   position{line: 1479, col: 5, offset: 47825},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1483, col: 5, offset: 47926},
+								pos: position{line: 1485, col: 5, offset: 48027},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1577, col: 5, offset: 50894},
+										pos: position{line: 1579, col: 5, offset: 50995},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1577, col: 5, offset: 50894},
+											pos: position{line: 1579, col: 5, offset: 50995},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1577, col: 5, offset: 50894},
+													pos:   position{line: 1579, col: 5, offset: 50995},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1584, col: 5, offset: 51102},
+														pos: position{line: 1586, col: 5, offset: 51203},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1584, col: 5, offset: 51102},
+															pos: position{line: 1586, col: 5, offset: 51203},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1584, col: 5, offset: 51102},
+																	pos: position{line: 1586, col: 5, offset: 51203},
 																	expr: &actionExpr{
-																		pos: position{line: 2910, col: 10, offset: 91824},
+																		pos: position{line: 2912, col: 10, offset: 91925},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2910, col: 10, offset: 91824},
+																			pos:        position{line: 2912, col: 10, offset: 91925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24860,27 +24860,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1584, col: 12, offset: 51109},
+																	pos:   position{line: 1586, col: 12, offset: 51210},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1586, col: 9, offset: 51172},
+																		pos: position{line: 1588, col: 9, offset: 51273},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1586, col: 9, offset: 51172},
+																				pos: position{line: 1588, col: 9, offset: 51273},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1586, col: 9, offset: 51172},
+																					pos: position{line: 1588, col: 9, offset: 51273},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1586, col: 9, offset: 51172},
+																							pos:   position{line: 1588, col: 9, offset: 51273},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1586, col: 16, offset: 51179},
+																								pos: position{line: 1588, col: 16, offset: 51280},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1586, col: 16, offset: 51179},
+																									pos: position{line: 1588, col: 16, offset: 51280},
 																									expr: &litMatcher{
-																										pos:        position{line: 1586, col: 17, offset: 51180},
+																										pos:        position{line: 1588, col: 17, offset: 51281},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24889,22 +24889,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1590, col: 9, offset: 51280},
+																							pos: position{line: 1592, col: 9, offset: 51381},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1609, col: 11, offset: 51997},
+																				pos: position{line: 1611, col: 11, offset: 52098},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1609, col: 11, offset: 51997},
+																					pos: position{line: 1611, col: 11, offset: 52098},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1609, col: 11, offset: 51997},
+																							pos: position{line: 1611, col: 11, offset: 52098},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1609, col: 12, offset: 51998},
+																								pos:        position{line: 1611, col: 12, offset: 52099},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24912,7 +24912,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1609, col: 20, offset: 52006},
+																							pos:        position{line: 1611, col: 20, offset: 52107},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24921,20 +24921,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1611, col: 13, offset: 52123},
+																				pos: position{line: 1613, col: 13, offset: 52224},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1611, col: 13, offset: 52123},
+																					pos: position{line: 1613, col: 13, offset: 52224},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1611, col: 14, offset: 52124},
+																							pos:        position{line: 1613, col: 14, offset: 52225},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1611, col: 21, offset: 52131},
+																							pos:        position{line: 1613, col: 21, offset: 52232},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24943,20 +24943,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1613, col: 13, offset: 52251},
+																				pos: position{line: 1615, col: 13, offset: 52352},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1613, col: 13, offset: 52251},
+																					pos: position{line: 1615, col: 13, offset: 52352},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1613, col: 14, offset: 52252},
+																							pos:        position{line: 1615, col: 14, offset: 52353},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1613, col: 21, offset: 52259},
+																							pos:        position{line: 1615, col: 21, offset: 52360},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24965,15 +24965,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1615, col: 13, offset: 52379},
+																				pos: position{line: 1617, col: 13, offset: 52480},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1615, col: 13, offset: 52379},
+																					pos: position{line: 1617, col: 13, offset: 52480},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1615, col: 13, offset: 52379},
+																							pos: position{line: 1617, col: 13, offset: 52480},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1615, col: 14, offset: 52380},
+																								pos:        position{line: 1617, col: 14, offset: 52481},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -24981,7 +24981,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1615, col: 26, offset: 52392},
+																							pos:        position{line: 1617, col: 26, offset: 52493},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24990,15 +24990,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1617, col: 13, offset: 52512},
+																				pos: position{line: 1619, col: 13, offset: 52613},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 13, offset: 52512},
+																					pos: position{line: 1619, col: 13, offset: 52613},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1617, col: 13, offset: 52512},
+																							pos: position{line: 1619, col: 13, offset: 52613},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1617, col: 14, offset: 52513},
+																								pos:        position{line: 1619, col: 14, offset: 52614},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -25006,7 +25006,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1617, col: 26, offset: 52525},
+																							pos:        position{line: 1619, col: 26, offset: 52626},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25018,12 +25018,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2914, col: 11, offset: 91885},
+																	pos: position{line: 2916, col: 11, offset: 91986},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2914, col: 11, offset: 91885},
+																		pos: position{line: 2916, col: 11, offset: 91986},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2914, col: 11, offset: 91885},
+																			pos:        position{line: 2916, col: 11, offset: 91986},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25036,26 +25036,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1578, col: 5, offset: 50933},
+													pos:   position{line: 1580, col: 5, offset: 51034},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1524, col: 5, offset: 49366},
+														pos: position{line: 1526, col: 5, offset: 49467},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1524, col: 5, offset: 49366},
+															pos: position{line: 1526, col: 5, offset: 49467},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1524, col: 5, offset: 49366},
+																	pos:   position{line: 1526, col: 5, offset: 49467},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1524, col: 14, offset: 49375},
+																		pos: position{line: 1526, col: 14, offset: 49476},
 																		expr: &actionExpr{
-																			pos: position{line: 1524, col: 15, offset: 49376},
+																			pos: position{line: 1526, col: 15, offset: 49477},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1524, col: 15, offset: 49376},
+																				pos: position{line: 1526, col: 15, offset: 49477},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1524, col: 15, offset: 49376},
+																					pos:        position{line: 1526, col: 15, offset: 49477},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25066,28 +25066,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2932, col: 8, offset: 92222},
+																	pos: position{line: 2934, col: 8, offset: 92323},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2919, col: 12, offset: 91995},
+																			pos: position{line: 2921, col: 12, offset: 92096},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2919, col: 13, offset: 91996},
+																				pos: position{line: 2921, col: 13, offset: 92097},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 13, offset: 91996},
+																						pos:        position{line: 2921, col: 13, offset: 92097},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 20, offset: 92003},
+																						pos:        position{line: 2921, col: 20, offset: 92104},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 29, offset: 92012},
+																						pos:        position{line: 2921, col: 29, offset: 92113},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25096,9 +25096,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2929, col: 8, offset: 92172},
+																			pos: position{line: 2931, col: 8, offset: 92273},
 																			expr: &anyMatcher{
-																				line: 2929, col: 9, offset: 92173,
+																				line: 2931, col: 9, offset: 92274,
 																			},
 																		},
 																	},
@@ -25111,27 +25111,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1627, col: 5, offset: 52791},
+										pos: position{line: 1629, col: 5, offset: 52892},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1627, col: 5, offset: 52791},
+											pos: position{line: 1629, col: 5, offset: 52892},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1627, col: 5, offset: 52791},
+													pos:   position{line: 1629, col: 5, offset: 52892},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1634, col: 5, offset: 53064},
+														pos: position{line: 1636, col: 5, offset: 53165},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1634, col: 5, offset: 53064},
+															pos: position{line: 1636, col: 5, offset: 53165},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1634, col: 5, offset: 53064},
+																	pos: position{line: 1636, col: 5, offset: 53165},
 																	expr: &actionExpr{
-																		pos: position{line: 2910, col: 10, offset: 91824},
+																		pos: position{line: 2912, col: 10, offset: 91925},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2910, col: 10, offset: 91824},
+																			pos:        position{line: 2912, col: 10, offset: 91925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25140,24 +25140,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1635, col: 5, offset: 53076},
+																	pos:   position{line: 1637, col: 5, offset: 53177},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1636, col: 9, offset: 53092},
+																		pos: position{line: 1638, col: 9, offset: 53193},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1636, col: 10, offset: 53093},
+																			pos: position{line: 1638, col: 10, offset: 53194},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1636, col: 11, offset: 53094},
+																					pos:        position{line: 1638, col: 11, offset: 53195},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1636, col: 18, offset: 53101},
+																					pos: position{line: 1638, col: 18, offset: 53202},
 																					expr: &litMatcher{
-																						pos:        position{line: 1636, col: 19, offset: 53102},
+																						pos:        position{line: 1638, col: 19, offset: 53203},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -25168,16 +25168,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1639, col: 7, offset: 53192},
+																	pos: position{line: 1641, col: 7, offset: 53293},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2914, col: 11, offset: 91885},
+																	pos: position{line: 2916, col: 11, offset: 91986},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2914, col: 11, offset: 91885},
+																		pos: position{line: 2916, col: 11, offset: 91986},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2914, col: 11, offset: 91885},
+																			pos:        position{line: 2916, col: 11, offset: 91986},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25190,56 +25190,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1628, col: 5, offset: 52832},
+													pos:   position{line: 1630, col: 5, offset: 52933},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1628, col: 16, offset: 52843},
+														pos: position{line: 1630, col: 16, offset: 52944},
 														expr: &actionExpr{
-															pos: position{line: 1649, col: 5, offset: 53457},
+															pos: position{line: 1651, col: 5, offset: 53558},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1649, col: 5, offset: 53457},
+																pos: position{line: 1651, col: 5, offset: 53558},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1649, col: 5, offset: 53457},
+																		pos: position{line: 1651, col: 5, offset: 53558},
 																		expr: &litMatcher{
-																			pos:        position{line: 1649, col: 6, offset: 53458},
+																			pos:        position{line: 1651, col: 6, offset: 53559},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1649, col: 10, offset: 53462},
+																		pos:   position{line: 1651, col: 10, offset: 53563},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1650, col: 7, offset: 53476},
+																			pos: position{line: 1652, col: 7, offset: 53577},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1650, col: 7, offset: 53476},
+																					pos: position{line: 1652, col: 7, offset: 53577},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1650, col: 7, offset: 53476},
+																						pos:        position{line: 1652, col: 7, offset: 53577},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1651, col: 7, offset: 53521},
+																					pos: position{line: 1653, col: 7, offset: 53622},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1651, col: 7, offset: 53521},
+																						pos:        position{line: 1653, col: 7, offset: 53622},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1652, col: 7, offset: 53564},
+																					pos: position{line: 1654, col: 7, offset: 53665},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1652, col: 7, offset: 53564},
+																						pos:        position{line: 1654, col: 7, offset: 53665},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -25249,12 +25249,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2914, col: 11, offset: 91885},
+																		pos: position{line: 2916, col: 11, offset: 91986},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2914, col: 11, offset: 91885},
+																			pos: position{line: 2916, col: 11, offset: 91986},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2914, col: 11, offset: 91885},
+																				pos:        position{line: 2916, col: 11, offset: 91986},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25268,26 +25268,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1629, col: 5, offset: 52882},
+													pos:   position{line: 1631, col: 5, offset: 52983},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1524, col: 5, offset: 49366},
+														pos: position{line: 1526, col: 5, offset: 49467},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1524, col: 5, offset: 49366},
+															pos: position{line: 1526, col: 5, offset: 49467},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1524, col: 5, offset: 49366},
+																	pos:   position{line: 1526, col: 5, offset: 49467},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1524, col: 14, offset: 49375},
+																		pos: position{line: 1526, col: 14, offset: 49476},
 																		expr: &actionExpr{
-																			pos: position{line: 1524, col: 15, offset: 49376},
+																			pos: position{line: 1526, col: 15, offset: 49477},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1524, col: 15, offset: 49376},
+																				pos: position{line: 1526, col: 15, offset: 49477},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1524, col: 15, offset: 49376},
+																					pos:        position{line: 1526, col: 15, offset: 49477},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25298,28 +25298,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2932, col: 8, offset: 92222},
+																	pos: position{line: 2934, col: 8, offset: 92323},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2919, col: 12, offset: 91995},
+																			pos: position{line: 2921, col: 12, offset: 92096},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2919, col: 13, offset: 91996},
+																				pos: position{line: 2921, col: 13, offset: 92097},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 13, offset: 91996},
+																						pos:        position{line: 2921, col: 13, offset: 92097},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 20, offset: 92003},
+																						pos:        position{line: 2921, col: 20, offset: 92104},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 29, offset: 92012},
+																						pos:        position{line: 2921, col: 29, offset: 92113},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25328,9 +25328,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2929, col: 8, offset: 92172},
+																			pos: position{line: 2931, col: 8, offset: 92273},
 																			expr: &anyMatcher{
-																				line: 2929, col: 9, offset: 92173,
+																				line: 2931, col: 9, offset: 92274,
 																			},
 																		},
 																	},
@@ -25343,36 +25343,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1718, col: 5, offset: 55436},
+										pos: position{line: 1720, col: 5, offset: 55537},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1718, col: 5, offset: 55436},
+											pos: position{line: 1720, col: 5, offset: 55537},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1718, col: 5, offset: 55436},
+													pos:   position{line: 1720, col: 5, offset: 55537},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1724, col: 5, offset: 55633},
+														pos: position{line: 1726, col: 5, offset: 55734},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1724, col: 5, offset: 55633},
+															pos: position{line: 1726, col: 5, offset: 55734},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1724, col: 5, offset: 55633},
+																	pos:        position{line: 1726, col: 5, offset: 55734},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1724, col: 9, offset: 55637},
+																	pos:   position{line: 1726, col: 9, offset: 55738},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1724, col: 14, offset: 55642},
+																		pos: position{line: 1726, col: 14, offset: 55743},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1724, col: 14, offset: 55642},
+																			pos: position{line: 1726, col: 14, offset: 55743},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1724, col: 14, offset: 55642},
+																				pos:        position{line: 1726, col: 14, offset: 55743},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25382,18 +25382,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1724, col: 62, offset: 55690},
+																	pos:        position{line: 1726, col: 62, offset: 55791},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2914, col: 11, offset: 91885},
+																	pos: position{line: 2916, col: 11, offset: 91986},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2914, col: 11, offset: 91885},
+																		pos: position{line: 2916, col: 11, offset: 91986},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2914, col: 11, offset: 91885},
+																			pos:        position{line: 2916, col: 11, offset: 91986},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25406,26 +25406,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1719, col: 5, offset: 55472},
+													pos:   position{line: 1721, col: 5, offset: 55573},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1524, col: 5, offset: 49366},
+														pos: position{line: 1526, col: 5, offset: 49467},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1524, col: 5, offset: 49366},
+															pos: position{line: 1526, col: 5, offset: 49467},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1524, col: 5, offset: 49366},
+																	pos:   position{line: 1526, col: 5, offset: 49467},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1524, col: 14, offset: 49375},
+																		pos: position{line: 1526, col: 14, offset: 49476},
 																		expr: &actionExpr{
-																			pos: position{line: 1524, col: 15, offset: 49376},
+																			pos: position{line: 1526, col: 15, offset: 49477},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1524, col: 15, offset: 49376},
+																				pos: position{line: 1526, col: 15, offset: 49477},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1524, col: 15, offset: 49376},
+																					pos:        position{line: 1526, col: 15, offset: 49477},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25436,28 +25436,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2932, col: 8, offset: 92222},
+																	pos: position{line: 2934, col: 8, offset: 92323},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2919, col: 12, offset: 91995},
+																			pos: position{line: 2921, col: 12, offset: 92096},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2919, col: 13, offset: 91996},
+																				pos: position{line: 2921, col: 13, offset: 92097},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 13, offset: 91996},
+																						pos:        position{line: 2921, col: 13, offset: 92097},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 20, offset: 92003},
+																						pos:        position{line: 2921, col: 20, offset: 92104},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 29, offset: 92012},
+																						pos:        position{line: 2921, col: 29, offset: 92113},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25466,9 +25466,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2929, col: 8, offset: 92172},
+																			pos: position{line: 2931, col: 8, offset: 92273},
 																			expr: &anyMatcher{
-																				line: 2929, col: 9, offset: 92173,
+																				line: 2931, col: 9, offset: 92274,
 																			},
 																		},
 																	},
@@ -25481,35 +25481,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1661, col: 5, offset: 53757},
+										pos: position{line: 1663, col: 5, offset: 53858},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1661, col: 5, offset: 53757},
+											pos: position{line: 1663, col: 5, offset: 53858},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1661, col: 5, offset: 53757},
+													pos:   position{line: 1663, col: 5, offset: 53858},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1669, col: 5, offset: 54083},
+														pos: position{line: 1671, col: 5, offset: 54184},
 														run: (*parser).callonListElements148,
 														expr: &seqExpr{
-															pos: position{line: 1669, col: 5, offset: 54083},
+															pos: position{line: 1671, col: 5, offset: 54184},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1669, col: 5, offset: 54083},
+																	pos: position{line: 1671, col: 5, offset: 54184},
 																	expr: &seqExpr{
-																		pos: position{line: 2518, col: 31, offset: 80852},
+																		pos: position{line: 2520, col: 31, offset: 80953},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2518, col: 31, offset: 80852},
+																				pos:        position{line: 2520, col: 31, offset: 80953},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2518, col: 36, offset: 80857},
+																				pos: position{line: 2520, col: 36, offset: 80958},
 																				expr: &litMatcher{
-																					pos:        position{line: 2518, col: 37, offset: 80858},
+																					pos:        position{line: 2520, col: 37, offset: 80959},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -25519,28 +25519,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1670, col: 5, offset: 54115},
+																	pos: position{line: 1672, col: 5, offset: 54216},
 																	expr: &seqExpr{
-																		pos: position{line: 1670, col: 6, offset: 54116},
+																		pos: position{line: 1672, col: 6, offset: 54217},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1670, col: 6, offset: 54116},
+																				pos: position{line: 1672, col: 6, offset: 54217},
 																				expr: &actionExpr{
-																					pos: position{line: 1675, col: 5, offset: 54266},
+																					pos: position{line: 1677, col: 5, offset: 54367},
 																					run: (*parser).callonListElements158,
 																					expr: &seqExpr{
-																						pos: position{line: 1675, col: 5, offset: 54266},
+																						pos: position{line: 1677, col: 5, offset: 54367},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1675, col: 5, offset: 54266},
+																								pos:   position{line: 1677, col: 5, offset: 54367},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1675, col: 16, offset: 54277},
+																									pos: position{line: 1677, col: 16, offset: 54378},
 																									run: (*parser).callonListElements161,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1675, col: 16, offset: 54277},
+																										pos: position{line: 1677, col: 16, offset: 54378},
 																										expr: &litMatcher{
-																											pos:        position{line: 1675, col: 17, offset: 54278},
+																											pos:        position{line: 1677, col: 17, offset: 54379},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -25549,7 +25549,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1678, col: 5, offset: 54335},
+																								pos: position{line: 1680, col: 5, offset: 54436},
 																								run: (*parser).callonListElements164,
 																							},
 																						},
@@ -25557,30 +25557,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1670, col: 35, offset: 54145},
+																				pos: position{line: 1672, col: 35, offset: 54246},
 																				expr: &choiceExpr{
-																					pos: position{line: 2932, col: 8, offset: 92222},
+																					pos: position{line: 2934, col: 8, offset: 92323},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2919, col: 12, offset: 91995},
+																							pos: position{line: 2921, col: 12, offset: 92096},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2919, col: 13, offset: 91996},
+																								pos: position{line: 2921, col: 13, offset: 92097},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 13, offset: 91996},
+																										pos:        position{line: 2921, col: 13, offset: 92097},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 20, offset: 92003},
+																										pos:        position{line: 2921, col: 20, offset: 92104},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 29, offset: 92012},
+																										pos:        position{line: 2921, col: 29, offset: 92113},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25589,16 +25589,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2929, col: 8, offset: 92172},
+																							pos: position{line: 2931, col: 8, offset: 92273},
 																							expr: &anyMatcher{
-																								line: 2929, col: 9, offset: 92173,
+																								line: 2931, col: 9, offset: 92274,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1670, col: 40, offset: 54150,
+																				line: 1672, col: 40, offset: 54251,
 																			},
 																		},
 																	},
@@ -25608,24 +25608,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1662, col: 5, offset: 53792},
+													pos:   position{line: 1664, col: 5, offset: 53893},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1675, col: 5, offset: 54266},
+														pos: position{line: 1677, col: 5, offset: 54367},
 														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1675, col: 5, offset: 54266},
+															pos: position{line: 1677, col: 5, offset: 54367},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1675, col: 5, offset: 54266},
+																	pos:   position{line: 1677, col: 5, offset: 54367},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1675, col: 16, offset: 54277},
+																		pos: position{line: 1677, col: 16, offset: 54378},
 																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1675, col: 16, offset: 54277},
+																			pos: position{line: 1677, col: 16, offset: 54378},
 																			expr: &litMatcher{
-																				pos:        position{line: 1675, col: 17, offset: 54278},
+																				pos:        position{line: 1677, col: 17, offset: 54379},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25634,7 +25634,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1678, col: 5, offset: 54335},
+																	pos: position{line: 1680, col: 5, offset: 54436},
 																	run: (*parser).callonListElements182,
 																},
 															},
@@ -25642,24 +25642,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1663, col: 5, offset: 53837},
+													pos:   position{line: 1665, col: 5, offset: 53938},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1686, col: 5, offset: 54584},
+														pos: position{line: 1688, col: 5, offset: 54685},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1688, col: 9, offset: 54650},
+																pos: position{line: 1690, col: 9, offset: 54751},
 																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1688, col: 9, offset: 54650},
+																	pos: position{line: 1690, col: 9, offset: 54751},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1688, col: 9, offset: 54650},
+																			pos: position{line: 1690, col: 9, offset: 54751},
 																			expr: &actionExpr{
-																				pos: position{line: 2910, col: 10, offset: 91824},
+																				pos: position{line: 2912, col: 10, offset: 91925},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2910, col: 10, offset: 91824},
+																					pos:        position{line: 2912, col: 10, offset: 91925},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25668,28 +25668,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2932, col: 8, offset: 92222},
+																			pos: position{line: 2934, col: 8, offset: 92323},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2919, col: 12, offset: 91995},
+																					pos: position{line: 2921, col: 12, offset: 92096},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2919, col: 13, offset: 91996},
+																						pos: position{line: 2921, col: 13, offset: 92097},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 13, offset: 91996},
+																								pos:        position{line: 2921, col: 13, offset: 92097},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 20, offset: 92003},
+																								pos:        position{line: 2921, col: 20, offset: 92104},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 29, offset: 92012},
+																								pos:        position{line: 2921, col: 29, offset: 92113},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25698,34 +25698,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1689, col: 9, offset: 54669},
+																			pos: position{line: 1691, col: 9, offset: 54770},
 																			expr: &actionExpr{
-																				pos: position{line: 678, col: 14, offset: 21586},
+																				pos: position{line: 680, col: 14, offset: 21687},
 																				run: (*parser).callonListElements199,
 																				expr: &seqExpr{
-																					pos: position{line: 678, col: 14, offset: 21586},
+																					pos: position{line: 680, col: 14, offset: 21687},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2927, col: 11, offset: 92158},
+																							pos: position{line: 2929, col: 11, offset: 92259},
 																							expr: &anyMatcher{
-																								line: 2927, col: 13, offset: 92160,
+																								line: 2929, col: 13, offset: 92261,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 678, col: 21, offset: 21593},
+																							pos: position{line: 680, col: 21, offset: 21694},
 																							expr: &actionExpr{
-																								pos: position{line: 2910, col: 10, offset: 91824},
+																								pos: position{line: 2912, col: 10, offset: 91925},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2910, col: 10, offset: 91824},
+																									pos:        position{line: 2912, col: 10, offset: 91925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25734,28 +25734,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25764,9 +25764,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -25779,18 +25779,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1695, col: 9, offset: 54798},
+																pos: position{line: 1697, col: 9, offset: 54899},
 																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1695, col: 9, offset: 54798},
+																	pos: position{line: 1697, col: 9, offset: 54899},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 11, offset: 91885},
+																			pos: position{line: 2916, col: 11, offset: 91986},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2914, col: 11, offset: 91885},
+																				pos: position{line: 2916, col: 11, offset: 91986},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2914, col: 11, offset: 91885},
+																					pos:        position{line: 2916, col: 11, offset: 91986},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25799,15 +25799,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1696, col: 9, offset: 54871},
+																			pos:   position{line: 1698, col: 9, offset: 54972},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1696, col: 18, offset: 54880},
+																				pos: position{line: 1698, col: 18, offset: 54981},
 																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1696, col: 18, offset: 54880},
+																					pos: position{line: 1698, col: 18, offset: 54981},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1696, col: 18, offset: 54880},
+																						pos:        position{line: 1698, col: 18, offset: 54981},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25817,28 +25817,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2932, col: 8, offset: 92222},
+																			pos: position{line: 2934, col: 8, offset: 92323},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2919, col: 12, offset: 91995},
+																					pos: position{line: 2921, col: 12, offset: 92096},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2919, col: 13, offset: 91996},
+																						pos: position{line: 2921, col: 13, offset: 92097},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 13, offset: 91996},
+																								pos:        position{line: 2921, col: 13, offset: 92097},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 20, offset: 92003},
+																								pos:        position{line: 2921, col: 20, offset: 92104},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 29, offset: 92012},
+																								pos:        position{line: 2921, col: 29, offset: 92113},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25847,9 +25847,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
@@ -25867,10 +25867,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1478, col: 5, offset: 47755},
+							pos:   position{line: 1480, col: 5, offset: 47856},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1478, col: 20, offset: 47770},
+								pos:  position{line: 1480, col: 20, offset: 47871},
 								name: "ExtraListElements",
 							},
 						},
@@ -25880,17 +25880,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1488, col: 1, offset: 48025},
+			pos:  position{line: 1490, col: 1, offset: 48126},
 			expr: &actionExpr{
-				pos: position{line: 1488, col: 22, offset: 48046},
+				pos: position{line: 1490, col: 22, offset: 48147},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1488, col: 22, offset: 48046},
+					pos:   position{line: 1490, col: 22, offset: 48147},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1488, col: 31, offset: 48055},
+						pos: position{line: 1490, col: 31, offset: 48156},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1488, col: 32, offset: 48056},
+							pos:  position{line: 1490, col: 32, offset: 48157},
 							name: "ExtraListElement",
 						},
 					},
@@ -25899,52 +25899,52 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1492, col: 1, offset: 48136},
+			pos:  position{line: 1494, col: 1, offset: 48237},
 			expr: &actionExpr{
-				pos: position{line: 1493, col: 5, offset: 48275},
+				pos: position{line: 1495, col: 5, offset: 48376},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1493, col: 5, offset: 48275},
+					pos: position{line: 1495, col: 5, offset: 48376},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2927, col: 11, offset: 92158},
+							pos: position{line: 2929, col: 11, offset: 92259},
 							expr: &anyMatcher{
-								line: 2927, col: 13, offset: 92160,
+								line: 2929, col: 13, offset: 92261,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1494, col: 5, offset: 48287},
+							pos:   position{line: 1496, col: 5, offset: 48388},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1495, col: 9, offset: 48305},
+								pos: position{line: 1497, col: 9, offset: 48406},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1495, col: 13, offset: 48309},
+										pos: position{line: 1497, col: 13, offset: 48410},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1495, col: 13, offset: 48309},
+											pos: position{line: 1497, col: 13, offset: 48410},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1495, col: 13, offset: 48309},
+													pos: position{line: 1497, col: 13, offset: 48410},
 													expr: &actionExpr{
-														pos: position{line: 678, col: 14, offset: 21586},
+														pos: position{line: 680, col: 14, offset: 21687},
 														run: (*parser).callonExtraListElement10,
 														expr: &seqExpr{
-															pos: position{line: 678, col: 14, offset: 21586},
+															pos: position{line: 680, col: 14, offset: 21687},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2927, col: 11, offset: 92158},
+																	pos: position{line: 2929, col: 11, offset: 92259},
 																	expr: &anyMatcher{
-																		line: 2927, col: 13, offset: 92160,
+																		line: 2929, col: 13, offset: 92261,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 678, col: 21, offset: 21593},
+																	pos: position{line: 680, col: 21, offset: 21694},
 																	expr: &actionExpr{
-																		pos: position{line: 2910, col: 10, offset: 91824},
+																		pos: position{line: 2912, col: 10, offset: 91925},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2910, col: 10, offset: 91824},
+																			pos:        position{line: 2912, col: 10, offset: 91925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25953,28 +25953,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2932, col: 8, offset: 92222},
+																	pos: position{line: 2934, col: 8, offset: 92323},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2919, col: 12, offset: 91995},
+																			pos: position{line: 2921, col: 12, offset: 92096},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2919, col: 13, offset: 91996},
+																				pos: position{line: 2921, col: 13, offset: 92097},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 13, offset: 91996},
+																						pos:        position{line: 2921, col: 13, offset: 92097},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 20, offset: 92003},
+																						pos:        position{line: 2921, col: 20, offset: 92104},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 29, offset: 92012},
+																						pos:        position{line: 2921, col: 29, offset: 92113},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25983,9 +25983,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2929, col: 8, offset: 92172},
+																			pos: position{line: 2931, col: 8, offset: 92273},
 																			expr: &anyMatcher{
-																				line: 2929, col: 9, offset: 92173,
+																				line: 2931, col: 9, offset: 92274,
 																			},
 																		},
 																	},
@@ -25995,33 +25995,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1496, col: 13, offset: 48333},
+													pos:   position{line: 1498, col: 13, offset: 48434},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1496, col: 22, offset: 48342},
+														pos: position{line: 1498, col: 22, offset: 48443},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1577, col: 5, offset: 50894},
+																pos: position{line: 1579, col: 5, offset: 50995},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1577, col: 5, offset: 50894},
+																	pos: position{line: 1579, col: 5, offset: 50995},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1577, col: 5, offset: 50894},
+																			pos:   position{line: 1579, col: 5, offset: 50995},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1584, col: 5, offset: 51102},
+																				pos: position{line: 1586, col: 5, offset: 51203},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1584, col: 5, offset: 51102},
+																					pos: position{line: 1586, col: 5, offset: 51203},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1584, col: 5, offset: 51102},
+																							pos: position{line: 1586, col: 5, offset: 51203},
 																							expr: &actionExpr{
-																								pos: position{line: 2910, col: 10, offset: 91824},
+																								pos: position{line: 2912, col: 10, offset: 91925},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2910, col: 10, offset: 91824},
+																									pos:        position{line: 2912, col: 10, offset: 91925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26030,27 +26030,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1584, col: 12, offset: 51109},
+																							pos:   position{line: 1586, col: 12, offset: 51210},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1586, col: 9, offset: 51172},
+																								pos: position{line: 1588, col: 9, offset: 51273},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1586, col: 9, offset: 51172},
+																										pos: position{line: 1588, col: 9, offset: 51273},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1586, col: 9, offset: 51172},
+																											pos: position{line: 1588, col: 9, offset: 51273},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1586, col: 9, offset: 51172},
+																													pos:   position{line: 1588, col: 9, offset: 51273},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1586, col: 16, offset: 51179},
+																														pos: position{line: 1588, col: 16, offset: 51280},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1586, col: 16, offset: 51179},
+																															pos: position{line: 1588, col: 16, offset: 51280},
 																															expr: &litMatcher{
-																																pos:        position{line: 1586, col: 17, offset: 51180},
+																																pos:        position{line: 1588, col: 17, offset: 51281},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26059,22 +26059,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1590, col: 9, offset: 51280},
+																													pos: position{line: 1592, col: 9, offset: 51381},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1609, col: 11, offset: 51997},
+																										pos: position{line: 1611, col: 11, offset: 52098},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1609, col: 11, offset: 51997},
+																											pos: position{line: 1611, col: 11, offset: 52098},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1609, col: 11, offset: 51997},
+																													pos: position{line: 1611, col: 11, offset: 52098},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1609, col: 12, offset: 51998},
+																														pos:        position{line: 1611, col: 12, offset: 52099},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26082,7 +26082,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1609, col: 20, offset: 52006},
+																													pos:        position{line: 1611, col: 20, offset: 52107},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26091,20 +26091,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1611, col: 13, offset: 52123},
+																										pos: position{line: 1613, col: 13, offset: 52224},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1611, col: 13, offset: 52123},
+																											pos: position{line: 1613, col: 13, offset: 52224},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1611, col: 14, offset: 52124},
+																													pos:        position{line: 1613, col: 14, offset: 52225},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1611, col: 21, offset: 52131},
+																													pos:        position{line: 1613, col: 21, offset: 52232},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26113,20 +26113,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1613, col: 13, offset: 52251},
+																										pos: position{line: 1615, col: 13, offset: 52352},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1613, col: 13, offset: 52251},
+																											pos: position{line: 1615, col: 13, offset: 52352},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1613, col: 14, offset: 52252},
+																													pos:        position{line: 1615, col: 14, offset: 52353},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1613, col: 21, offset: 52259},
+																													pos:        position{line: 1615, col: 21, offset: 52360},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26135,15 +26135,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1615, col: 13, offset: 52379},
+																										pos: position{line: 1617, col: 13, offset: 52480},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1615, col: 13, offset: 52379},
+																											pos: position{line: 1617, col: 13, offset: 52480},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1615, col: 13, offset: 52379},
+																													pos: position{line: 1617, col: 13, offset: 52480},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1615, col: 14, offset: 52380},
+																														pos:        position{line: 1617, col: 14, offset: 52481},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26151,7 +26151,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1615, col: 26, offset: 52392},
+																													pos:        position{line: 1617, col: 26, offset: 52493},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26160,15 +26160,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1617, col: 13, offset: 52512},
+																										pos: position{line: 1619, col: 13, offset: 52613},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1617, col: 13, offset: 52512},
+																											pos: position{line: 1619, col: 13, offset: 52613},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1617, col: 13, offset: 52512},
+																													pos: position{line: 1619, col: 13, offset: 52613},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1617, col: 14, offset: 52513},
+																														pos:        position{line: 1619, col: 14, offset: 52614},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26176,7 +26176,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1617, col: 26, offset: 52525},
+																													pos:        position{line: 1619, col: 26, offset: 52626},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26188,12 +26188,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2914, col: 11, offset: 91885},
+																							pos: position{line: 2916, col: 11, offset: 91986},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2914, col: 11, offset: 91885},
+																								pos: position{line: 2916, col: 11, offset: 91986},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2914, col: 11, offset: 91885},
+																									pos:        position{line: 2916, col: 11, offset: 91986},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26206,26 +26206,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1578, col: 5, offset: 50933},
+																			pos:   position{line: 1580, col: 5, offset: 51034},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1524, col: 5, offset: 49366},
+																				pos: position{line: 1526, col: 5, offset: 49467},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1524, col: 5, offset: 49366},
+																					pos: position{line: 1526, col: 5, offset: 49467},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1524, col: 5, offset: 49366},
+																							pos:   position{line: 1526, col: 5, offset: 49467},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1524, col: 14, offset: 49375},
+																								pos: position{line: 1526, col: 14, offset: 49476},
 																								expr: &actionExpr{
-																									pos: position{line: 1524, col: 15, offset: 49376},
+																									pos: position{line: 1526, col: 15, offset: 49477},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1524, col: 15, offset: 49376},
+																										pos: position{line: 1526, col: 15, offset: 49477},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1524, col: 15, offset: 49376},
+																											pos:        position{line: 1526, col: 15, offset: 49477},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26236,28 +26236,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26266,9 +26266,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -26281,27 +26281,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1627, col: 5, offset: 52791},
+																pos: position{line: 1629, col: 5, offset: 52892},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1627, col: 5, offset: 52791},
+																	pos: position{line: 1629, col: 5, offset: 52892},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1627, col: 5, offset: 52791},
+																			pos:   position{line: 1629, col: 5, offset: 52892},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1634, col: 5, offset: 53064},
+																				pos: position{line: 1636, col: 5, offset: 53165},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1634, col: 5, offset: 53064},
+																					pos: position{line: 1636, col: 5, offset: 53165},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1634, col: 5, offset: 53064},
+																							pos: position{line: 1636, col: 5, offset: 53165},
 																							expr: &actionExpr{
-																								pos: position{line: 2910, col: 10, offset: 91824},
+																								pos: position{line: 2912, col: 10, offset: 91925},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2910, col: 10, offset: 91824},
+																									pos:        position{line: 2912, col: 10, offset: 91925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26310,24 +26310,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1635, col: 5, offset: 53076},
+																							pos:   position{line: 1637, col: 5, offset: 53177},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1636, col: 9, offset: 53092},
+																								pos: position{line: 1638, col: 9, offset: 53193},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1636, col: 10, offset: 53093},
+																									pos: position{line: 1638, col: 10, offset: 53194},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1636, col: 11, offset: 53094},
+																											pos:        position{line: 1638, col: 11, offset: 53195},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1636, col: 18, offset: 53101},
+																											pos: position{line: 1638, col: 18, offset: 53202},
 																											expr: &litMatcher{
-																												pos:        position{line: 1636, col: 19, offset: 53102},
+																												pos:        position{line: 1638, col: 19, offset: 53203},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26338,16 +26338,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1639, col: 7, offset: 53192},
+																							pos: position{line: 1641, col: 7, offset: 53293},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2914, col: 11, offset: 91885},
+																							pos: position{line: 2916, col: 11, offset: 91986},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2914, col: 11, offset: 91885},
+																								pos: position{line: 2916, col: 11, offset: 91986},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2914, col: 11, offset: 91885},
+																									pos:        position{line: 2916, col: 11, offset: 91986},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26360,56 +26360,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1628, col: 5, offset: 52832},
+																			pos:   position{line: 1630, col: 5, offset: 52933},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1628, col: 16, offset: 52843},
+																				pos: position{line: 1630, col: 16, offset: 52944},
 																				expr: &actionExpr{
-																					pos: position{line: 1649, col: 5, offset: 53457},
+																					pos: position{line: 1651, col: 5, offset: 53558},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1649, col: 5, offset: 53457},
+																						pos: position{line: 1651, col: 5, offset: 53558},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1649, col: 5, offset: 53457},
+																								pos: position{line: 1651, col: 5, offset: 53558},
 																								expr: &litMatcher{
-																									pos:        position{line: 1649, col: 6, offset: 53458},
+																									pos:        position{line: 1651, col: 6, offset: 53559},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1649, col: 10, offset: 53462},
+																								pos:   position{line: 1651, col: 10, offset: 53563},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1650, col: 7, offset: 53476},
+																									pos: position{line: 1652, col: 7, offset: 53577},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1650, col: 7, offset: 53476},
+																											pos: position{line: 1652, col: 7, offset: 53577},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1650, col: 7, offset: 53476},
+																												pos:        position{line: 1652, col: 7, offset: 53577},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1651, col: 7, offset: 53521},
+																											pos: position{line: 1653, col: 7, offset: 53622},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1651, col: 7, offset: 53521},
+																												pos:        position{line: 1653, col: 7, offset: 53622},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1652, col: 7, offset: 53564},
+																											pos: position{line: 1654, col: 7, offset: 53665},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1652, col: 7, offset: 53564},
+																												pos:        position{line: 1654, col: 7, offset: 53665},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26419,12 +26419,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2914, col: 11, offset: 91885},
+																								pos: position{line: 2916, col: 11, offset: 91986},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2914, col: 11, offset: 91885},
+																									pos: position{line: 2916, col: 11, offset: 91986},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2914, col: 11, offset: 91885},
+																										pos:        position{line: 2916, col: 11, offset: 91986},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26438,26 +26438,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1629, col: 5, offset: 52882},
+																			pos:   position{line: 1631, col: 5, offset: 52983},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1524, col: 5, offset: 49366},
+																				pos: position{line: 1526, col: 5, offset: 49467},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1524, col: 5, offset: 49366},
+																					pos: position{line: 1526, col: 5, offset: 49467},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1524, col: 5, offset: 49366},
+																							pos:   position{line: 1526, col: 5, offset: 49467},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1524, col: 14, offset: 49375},
+																								pos: position{line: 1526, col: 14, offset: 49476},
 																								expr: &actionExpr{
-																									pos: position{line: 1524, col: 15, offset: 49376},
+																									pos: position{line: 1526, col: 15, offset: 49477},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1524, col: 15, offset: 49376},
+																										pos: position{line: 1526, col: 15, offset: 49477},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1524, col: 15, offset: 49376},
+																											pos:        position{line: 1526, col: 15, offset: 49477},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26468,28 +26468,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26498,9 +26498,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -26513,36 +26513,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1718, col: 5, offset: 55436},
+																pos: position{line: 1720, col: 5, offset: 55537},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1718, col: 5, offset: 55436},
+																	pos: position{line: 1720, col: 5, offset: 55537},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1718, col: 5, offset: 55436},
+																			pos:   position{line: 1720, col: 5, offset: 55537},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1724, col: 5, offset: 55633},
+																				pos: position{line: 1726, col: 5, offset: 55734},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1724, col: 5, offset: 55633},
+																					pos: position{line: 1726, col: 5, offset: 55734},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1724, col: 5, offset: 55633},
+																							pos:        position{line: 1726, col: 5, offset: 55734},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1724, col: 9, offset: 55637},
+																							pos:   position{line: 1726, col: 9, offset: 55738},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1724, col: 14, offset: 55642},
+																								pos: position{line: 1726, col: 14, offset: 55743},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1724, col: 14, offset: 55642},
+																									pos: position{line: 1726, col: 14, offset: 55743},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1724, col: 14, offset: 55642},
+																										pos:        position{line: 1726, col: 14, offset: 55743},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26552,18 +26552,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1724, col: 62, offset: 55690},
+																							pos:        position{line: 1726, col: 62, offset: 55791},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2914, col: 11, offset: 91885},
+																							pos: position{line: 2916, col: 11, offset: 91986},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2914, col: 11, offset: 91885},
+																								pos: position{line: 2916, col: 11, offset: 91986},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2914, col: 11, offset: 91885},
+																									pos:        position{line: 2916, col: 11, offset: 91986},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26576,26 +26576,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1719, col: 5, offset: 55472},
+																			pos:   position{line: 1721, col: 5, offset: 55573},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1524, col: 5, offset: 49366},
+																				pos: position{line: 1526, col: 5, offset: 49467},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1524, col: 5, offset: 49366},
+																					pos: position{line: 1526, col: 5, offset: 49467},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1524, col: 5, offset: 49366},
+																							pos:   position{line: 1526, col: 5, offset: 49467},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1524, col: 14, offset: 49375},
+																								pos: position{line: 1526, col: 14, offset: 49476},
 																								expr: &actionExpr{
-																									pos: position{line: 1524, col: 15, offset: 49376},
+																									pos: position{line: 1526, col: 15, offset: 49477},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1524, col: 15, offset: 49376},
+																										pos: position{line: 1526, col: 15, offset: 49477},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1524, col: 15, offset: 49376},
+																											pos:        position{line: 1526, col: 15, offset: 49477},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26606,28 +26606,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26636,9 +26636,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -26651,35 +26651,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1661, col: 5, offset: 53757},
+																pos: position{line: 1663, col: 5, offset: 53858},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1661, col: 5, offset: 53757},
+																	pos: position{line: 1663, col: 5, offset: 53858},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1661, col: 5, offset: 53757},
+																			pos:   position{line: 1663, col: 5, offset: 53858},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1669, col: 5, offset: 54083},
+																				pos: position{line: 1671, col: 5, offset: 54184},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &seqExpr{
-																					pos: position{line: 1669, col: 5, offset: 54083},
+																					pos: position{line: 1671, col: 5, offset: 54184},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1669, col: 5, offset: 54083},
+																							pos: position{line: 1671, col: 5, offset: 54184},
 																							expr: &seqExpr{
-																								pos: position{line: 2518, col: 31, offset: 80852},
+																								pos: position{line: 2520, col: 31, offset: 80953},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2518, col: 31, offset: 80852},
+																										pos:        position{line: 2520, col: 31, offset: 80953},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2518, col: 36, offset: 80857},
+																										pos: position{line: 2520, col: 36, offset: 80958},
 																										expr: &litMatcher{
-																											pos:        position{line: 2518, col: 37, offset: 80858},
+																											pos:        position{line: 2520, col: 37, offset: 80959},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -26689,28 +26689,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1670, col: 5, offset: 54115},
+																							pos: position{line: 1672, col: 5, offset: 54216},
 																							expr: &seqExpr{
-																								pos: position{line: 1670, col: 6, offset: 54116},
+																								pos: position{line: 1672, col: 6, offset: 54217},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1670, col: 6, offset: 54116},
+																										pos: position{line: 1672, col: 6, offset: 54217},
 																										expr: &actionExpr{
-																											pos: position{line: 1675, col: 5, offset: 54266},
+																											pos: position{line: 1677, col: 5, offset: 54367},
 																											run: (*parser).callonExtraListElement180,
 																											expr: &seqExpr{
-																												pos: position{line: 1675, col: 5, offset: 54266},
+																												pos: position{line: 1677, col: 5, offset: 54367},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1675, col: 5, offset: 54266},
+																														pos:   position{line: 1677, col: 5, offset: 54367},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1675, col: 16, offset: 54277},
+																															pos: position{line: 1677, col: 16, offset: 54378},
 																															run: (*parser).callonExtraListElement183,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1675, col: 16, offset: 54277},
+																																pos: position{line: 1677, col: 16, offset: 54378},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1675, col: 17, offset: 54278},
+																																	pos:        position{line: 1677, col: 17, offset: 54379},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -26719,7 +26719,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1678, col: 5, offset: 54335},
+																														pos: position{line: 1680, col: 5, offset: 54436},
 																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
@@ -26727,30 +26727,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1670, col: 35, offset: 54145},
+																										pos: position{line: 1672, col: 35, offset: 54246},
 																										expr: &choiceExpr{
-																											pos: position{line: 2932, col: 8, offset: 92222},
+																											pos: position{line: 2934, col: 8, offset: 92323},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2919, col: 12, offset: 91995},
+																													pos: position{line: 2921, col: 12, offset: 92096},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2919, col: 13, offset: 91996},
+																														pos: position{line: 2921, col: 13, offset: 92097},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 13, offset: 91996},
+																																pos:        position{line: 2921, col: 13, offset: 92097},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 20, offset: 92003},
+																																pos:        position{line: 2921, col: 20, offset: 92104},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 29, offset: 92012},
+																																pos:        position{line: 2921, col: 29, offset: 92113},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26759,16 +26759,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2929, col: 8, offset: 92172},
+																													pos: position{line: 2931, col: 8, offset: 92273},
 																													expr: &anyMatcher{
-																														line: 2929, col: 9, offset: 92173,
+																														line: 2931, col: 9, offset: 92274,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1670, col: 40, offset: 54150,
+																										line: 1672, col: 40, offset: 54251,
 																									},
 																								},
 																							},
@@ -26778,24 +26778,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1662, col: 5, offset: 53792},
+																			pos:   position{line: 1664, col: 5, offset: 53893},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1675, col: 5, offset: 54266},
+																				pos: position{line: 1677, col: 5, offset: 54367},
 																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1675, col: 5, offset: 54266},
+																					pos: position{line: 1677, col: 5, offset: 54367},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1675, col: 5, offset: 54266},
+																							pos:   position{line: 1677, col: 5, offset: 54367},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1675, col: 16, offset: 54277},
+																								pos: position{line: 1677, col: 16, offset: 54378},
 																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1675, col: 16, offset: 54277},
+																									pos: position{line: 1677, col: 16, offset: 54378},
 																									expr: &litMatcher{
-																										pos:        position{line: 1675, col: 17, offset: 54278},
+																										pos:        position{line: 1677, col: 17, offset: 54379},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26804,7 +26804,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1678, col: 5, offset: 54335},
+																							pos: position{line: 1680, col: 5, offset: 54436},
 																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
@@ -26812,24 +26812,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1663, col: 5, offset: 53837},
+																			pos:   position{line: 1665, col: 5, offset: 53938},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1686, col: 5, offset: 54584},
+																				pos: position{line: 1688, col: 5, offset: 54685},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1688, col: 9, offset: 54650},
+																						pos: position{line: 1690, col: 9, offset: 54751},
 																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1688, col: 9, offset: 54650},
+																							pos: position{line: 1690, col: 9, offset: 54751},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1688, col: 9, offset: 54650},
+																									pos: position{line: 1690, col: 9, offset: 54751},
 																									expr: &actionExpr{
-																										pos: position{line: 2910, col: 10, offset: 91824},
+																										pos: position{line: 2912, col: 10, offset: 91925},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2910, col: 10, offset: 91824},
+																											pos:        position{line: 2912, col: 10, offset: 91925},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26838,28 +26838,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2932, col: 8, offset: 92222},
+																									pos: position{line: 2934, col: 8, offset: 92323},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2919, col: 12, offset: 91995},
+																											pos: position{line: 2921, col: 12, offset: 92096},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2919, col: 13, offset: 91996},
+																												pos: position{line: 2921, col: 13, offset: 92097},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 13, offset: 91996},
+																														pos:        position{line: 2921, col: 13, offset: 92097},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 20, offset: 92003},
+																														pos:        position{line: 2921, col: 20, offset: 92104},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 29, offset: 92012},
+																														pos:        position{line: 2921, col: 29, offset: 92113},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26868,34 +26868,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2929, col: 8, offset: 92172},
+																											pos: position{line: 2931, col: 8, offset: 92273},
 																											expr: &anyMatcher{
-																												line: 2929, col: 9, offset: 92173,
+																												line: 2931, col: 9, offset: 92274,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1689, col: 9, offset: 54669},
+																									pos: position{line: 1691, col: 9, offset: 54770},
 																									expr: &actionExpr{
-																										pos: position{line: 678, col: 14, offset: 21586},
+																										pos: position{line: 680, col: 14, offset: 21687},
 																										run: (*parser).callonExtraListElement221,
 																										expr: &seqExpr{
-																											pos: position{line: 678, col: 14, offset: 21586},
+																											pos: position{line: 680, col: 14, offset: 21687},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2927, col: 11, offset: 92158},
+																													pos: position{line: 2929, col: 11, offset: 92259},
 																													expr: &anyMatcher{
-																														line: 2927, col: 13, offset: 92160,
+																														line: 2929, col: 13, offset: 92261,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 678, col: 21, offset: 21593},
+																													pos: position{line: 680, col: 21, offset: 21694},
 																													expr: &actionExpr{
-																														pos: position{line: 2910, col: 10, offset: 91824},
+																														pos: position{line: 2912, col: 10, offset: 91925},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2910, col: 10, offset: 91824},
+																															pos:        position{line: 2912, col: 10, offset: 91925},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26904,28 +26904,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2932, col: 8, offset: 92222},
+																													pos: position{line: 2934, col: 8, offset: 92323},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2919, col: 12, offset: 91995},
+																															pos: position{line: 2921, col: 12, offset: 92096},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2919, col: 13, offset: 91996},
+																																pos: position{line: 2921, col: 13, offset: 92097},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2919, col: 13, offset: 91996},
+																																		pos:        position{line: 2921, col: 13, offset: 92097},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2919, col: 20, offset: 92003},
+																																		pos:        position{line: 2921, col: 20, offset: 92104},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2919, col: 29, offset: 92012},
+																																		pos:        position{line: 2921, col: 29, offset: 92113},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26934,9 +26934,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2929, col: 8, offset: 92172},
+																															pos: position{line: 2931, col: 8, offset: 92273},
 																															expr: &anyMatcher{
-																																line: 2929, col: 9, offset: 92173,
+																																line: 2931, col: 9, offset: 92274,
 																															},
 																														},
 																													},
@@ -26949,18 +26949,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1695, col: 9, offset: 54798},
+																						pos: position{line: 1697, col: 9, offset: 54899},
 																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1695, col: 9, offset: 54798},
+																							pos: position{line: 1697, col: 9, offset: 54899},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 11, offset: 91885},
+																									pos: position{line: 2916, col: 11, offset: 91986},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2914, col: 11, offset: 91885},
+																										pos: position{line: 2916, col: 11, offset: 91986},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2914, col: 11, offset: 91885},
+																											pos:        position{line: 2916, col: 11, offset: 91986},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26969,15 +26969,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1696, col: 9, offset: 54871},
+																									pos:   position{line: 1698, col: 9, offset: 54972},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1696, col: 18, offset: 54880},
+																										pos: position{line: 1698, col: 18, offset: 54981},
 																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1696, col: 18, offset: 54880},
+																											pos: position{line: 1698, col: 18, offset: 54981},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1696, col: 18, offset: 54880},
+																												pos:        position{line: 1698, col: 18, offset: 54981},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26987,28 +26987,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2932, col: 8, offset: 92222},
+																									pos: position{line: 2934, col: 8, offset: 92323},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2919, col: 12, offset: 91995},
+																											pos: position{line: 2921, col: 12, offset: 92096},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2919, col: 13, offset: 91996},
+																												pos: position{line: 2921, col: 13, offset: 92097},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 13, offset: 91996},
+																														pos:        position{line: 2921, col: 13, offset: 92097},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 20, offset: 92003},
+																														pos:        position{line: 2921, col: 20, offset: 92104},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 29, offset: 92012},
+																														pos:        position{line: 2921, col: 29, offset: 92113},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27017,9 +27017,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2929, col: 8, offset: 92172},
+																											pos: position{line: 2931, col: 8, offset: 92273},
 																											expr: &anyMatcher{
-																												line: 2929, col: 9, offset: 92173,
+																												line: 2931, col: 9, offset: 92274,
 																											},
 																										},
 																									},
@@ -27040,50 +27040,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1499, col: 13, offset: 48493},
+										pos: position{line: 1501, col: 13, offset: 48594},
 										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
-											pos: position{line: 1499, col: 13, offset: 48493},
+											pos: position{line: 1501, col: 13, offset: 48594},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1499, col: 13, offset: 48493},
+													pos:   position{line: 1501, col: 13, offset: 48594},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1499, col: 24, offset: 48504},
+														pos: position{line: 1501, col: 24, offset: 48605},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1499, col: 25, offset: 48505},
+															pos:  position{line: 1501, col: 25, offset: 48606},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1500, col: 13, offset: 48536},
+													pos:   position{line: 1502, col: 13, offset: 48637},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1500, col: 22, offset: 48545},
+														pos: position{line: 1502, col: 22, offset: 48646},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1577, col: 5, offset: 50894},
+																pos: position{line: 1579, col: 5, offset: 50995},
 																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
-																	pos: position{line: 1577, col: 5, offset: 50894},
+																	pos: position{line: 1579, col: 5, offset: 50995},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1577, col: 5, offset: 50894},
+																			pos:   position{line: 1579, col: 5, offset: 50995},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1584, col: 5, offset: 51102},
+																				pos: position{line: 1586, col: 5, offset: 51203},
 																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
-																					pos: position{line: 1584, col: 5, offset: 51102},
+																					pos: position{line: 1586, col: 5, offset: 51203},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1584, col: 5, offset: 51102},
+																							pos: position{line: 1586, col: 5, offset: 51203},
 																							expr: &actionExpr{
-																								pos: position{line: 2910, col: 10, offset: 91824},
+																								pos: position{line: 2912, col: 10, offset: 91925},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2910, col: 10, offset: 91824},
+																									pos:        position{line: 2912, col: 10, offset: 91925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27092,27 +27092,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1584, col: 12, offset: 51109},
+																							pos:   position{line: 1586, col: 12, offset: 51210},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1586, col: 9, offset: 51172},
+																								pos: position{line: 1588, col: 9, offset: 51273},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1586, col: 9, offset: 51172},
+																										pos: position{line: 1588, col: 9, offset: 51273},
 																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
-																											pos: position{line: 1586, col: 9, offset: 51172},
+																											pos: position{line: 1588, col: 9, offset: 51273},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1586, col: 9, offset: 51172},
+																													pos:   position{line: 1588, col: 9, offset: 51273},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1586, col: 16, offset: 51179},
+																														pos: position{line: 1588, col: 16, offset: 51280},
 																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1586, col: 16, offset: 51179},
+																															pos: position{line: 1588, col: 16, offset: 51280},
 																															expr: &litMatcher{
-																																pos:        position{line: 1586, col: 17, offset: 51180},
+																																pos:        position{line: 1588, col: 17, offset: 51281},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27121,22 +27121,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1590, col: 9, offset: 51280},
+																													pos: position{line: 1592, col: 9, offset: 51381},
 																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1609, col: 11, offset: 51997},
+																										pos: position{line: 1611, col: 11, offset: 52098},
 																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
-																											pos: position{line: 1609, col: 11, offset: 51997},
+																											pos: position{line: 1611, col: 11, offset: 52098},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1609, col: 11, offset: 51997},
+																													pos: position{line: 1611, col: 11, offset: 52098},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1609, col: 12, offset: 51998},
+																														pos:        position{line: 1611, col: 12, offset: 52099},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27144,7 +27144,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1609, col: 20, offset: 52006},
+																													pos:        position{line: 1611, col: 20, offset: 52107},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27153,20 +27153,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1611, col: 13, offset: 52123},
+																										pos: position{line: 1613, col: 13, offset: 52224},
 																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
-																											pos: position{line: 1611, col: 13, offset: 52123},
+																											pos: position{line: 1613, col: 13, offset: 52224},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1611, col: 14, offset: 52124},
+																													pos:        position{line: 1613, col: 14, offset: 52225},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1611, col: 21, offset: 52131},
+																													pos:        position{line: 1613, col: 21, offset: 52232},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27175,20 +27175,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1613, col: 13, offset: 52251},
+																										pos: position{line: 1615, col: 13, offset: 52352},
 																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
-																											pos: position{line: 1613, col: 13, offset: 52251},
+																											pos: position{line: 1615, col: 13, offset: 52352},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1613, col: 14, offset: 52252},
+																													pos:        position{line: 1615, col: 14, offset: 52353},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1613, col: 21, offset: 52259},
+																													pos:        position{line: 1615, col: 21, offset: 52360},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27197,15 +27197,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1615, col: 13, offset: 52379},
+																										pos: position{line: 1617, col: 13, offset: 52480},
 																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
-																											pos: position{line: 1615, col: 13, offset: 52379},
+																											pos: position{line: 1617, col: 13, offset: 52480},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1615, col: 13, offset: 52379},
+																													pos: position{line: 1617, col: 13, offset: 52480},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1615, col: 14, offset: 52380},
+																														pos:        position{line: 1617, col: 14, offset: 52481},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27213,7 +27213,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1615, col: 26, offset: 52392},
+																													pos:        position{line: 1617, col: 26, offset: 52493},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27222,15 +27222,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1617, col: 13, offset: 52512},
+																										pos: position{line: 1619, col: 13, offset: 52613},
 																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
-																											pos: position{line: 1617, col: 13, offset: 52512},
+																											pos: position{line: 1619, col: 13, offset: 52613},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1617, col: 13, offset: 52512},
+																													pos: position{line: 1619, col: 13, offset: 52613},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1617, col: 14, offset: 52513},
+																														pos:        position{line: 1619, col: 14, offset: 52614},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27238,7 +27238,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1617, col: 26, offset: 52525},
+																													pos:        position{line: 1619, col: 26, offset: 52626},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27250,12 +27250,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2914, col: 11, offset: 91885},
+																							pos: position{line: 2916, col: 11, offset: 91986},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2914, col: 11, offset: 91885},
+																								pos: position{line: 2916, col: 11, offset: 91986},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2914, col: 11, offset: 91885},
+																									pos:        position{line: 2916, col: 11, offset: 91986},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27268,26 +27268,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1578, col: 5, offset: 50933},
+																			pos:   position{line: 1580, col: 5, offset: 51034},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1524, col: 5, offset: 49366},
+																				pos: position{line: 1526, col: 5, offset: 49467},
 																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
-																					pos: position{line: 1524, col: 5, offset: 49366},
+																					pos: position{line: 1526, col: 5, offset: 49467},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1524, col: 5, offset: 49366},
+																							pos:   position{line: 1526, col: 5, offset: 49467},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1524, col: 14, offset: 49375},
+																								pos: position{line: 1526, col: 14, offset: 49476},
 																								expr: &actionExpr{
-																									pos: position{line: 1524, col: 15, offset: 49376},
+																									pos: position{line: 1526, col: 15, offset: 49477},
 																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1524, col: 15, offset: 49376},
+																										pos: position{line: 1526, col: 15, offset: 49477},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1524, col: 15, offset: 49376},
+																											pos:        position{line: 1526, col: 15, offset: 49477},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27298,28 +27298,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27328,9 +27328,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -27343,27 +27343,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1627, col: 5, offset: 52791},
+																pos: position{line: 1629, col: 5, offset: 52892},
 																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
-																	pos: position{line: 1627, col: 5, offset: 52791},
+																	pos: position{line: 1629, col: 5, offset: 52892},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1627, col: 5, offset: 52791},
+																			pos:   position{line: 1629, col: 5, offset: 52892},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1634, col: 5, offset: 53064},
+																				pos: position{line: 1636, col: 5, offset: 53165},
 																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
-																					pos: position{line: 1634, col: 5, offset: 53064},
+																					pos: position{line: 1636, col: 5, offset: 53165},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1634, col: 5, offset: 53064},
+																							pos: position{line: 1636, col: 5, offset: 53165},
 																							expr: &actionExpr{
-																								pos: position{line: 2910, col: 10, offset: 91824},
+																								pos: position{line: 2912, col: 10, offset: 91925},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2910, col: 10, offset: 91824},
+																									pos:        position{line: 2912, col: 10, offset: 91925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27372,24 +27372,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1635, col: 5, offset: 53076},
+																							pos:   position{line: 1637, col: 5, offset: 53177},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1636, col: 9, offset: 53092},
+																								pos: position{line: 1638, col: 9, offset: 53193},
 																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
-																									pos: position{line: 1636, col: 10, offset: 53093},
+																									pos: position{line: 1638, col: 10, offset: 53194},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1636, col: 11, offset: 53094},
+																											pos:        position{line: 1638, col: 11, offset: 53195},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1636, col: 18, offset: 53101},
+																											pos: position{line: 1638, col: 18, offset: 53202},
 																											expr: &litMatcher{
-																												pos:        position{line: 1636, col: 19, offset: 53102},
+																												pos:        position{line: 1638, col: 19, offset: 53203},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27400,16 +27400,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1639, col: 7, offset: 53192},
+																							pos: position{line: 1641, col: 7, offset: 53293},
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2914, col: 11, offset: 91885},
+																							pos: position{line: 2916, col: 11, offset: 91986},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2914, col: 11, offset: 91885},
+																								pos: position{line: 2916, col: 11, offset: 91986},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2914, col: 11, offset: 91885},
+																									pos:        position{line: 2916, col: 11, offset: 91986},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27422,56 +27422,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1628, col: 5, offset: 52832},
+																			pos:   position{line: 1630, col: 5, offset: 52933},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1628, col: 16, offset: 52843},
+																				pos: position{line: 1630, col: 16, offset: 52944},
 																				expr: &actionExpr{
-																					pos: position{line: 1649, col: 5, offset: 53457},
+																					pos: position{line: 1651, col: 5, offset: 53558},
 																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
-																						pos: position{line: 1649, col: 5, offset: 53457},
+																						pos: position{line: 1651, col: 5, offset: 53558},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1649, col: 5, offset: 53457},
+																								pos: position{line: 1651, col: 5, offset: 53558},
 																								expr: &litMatcher{
-																									pos:        position{line: 1649, col: 6, offset: 53458},
+																									pos:        position{line: 1651, col: 6, offset: 53559},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1649, col: 10, offset: 53462},
+																								pos:   position{line: 1651, col: 10, offset: 53563},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1650, col: 7, offset: 53476},
+																									pos: position{line: 1652, col: 7, offset: 53577},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1650, col: 7, offset: 53476},
+																											pos: position{line: 1652, col: 7, offset: 53577},
 																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
-																												pos:        position{line: 1650, col: 7, offset: 53476},
+																												pos:        position{line: 1652, col: 7, offset: 53577},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1651, col: 7, offset: 53521},
+																											pos: position{line: 1653, col: 7, offset: 53622},
 																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
-																												pos:        position{line: 1651, col: 7, offset: 53521},
+																												pos:        position{line: 1653, col: 7, offset: 53622},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1652, col: 7, offset: 53564},
+																											pos: position{line: 1654, col: 7, offset: 53665},
 																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
-																												pos:        position{line: 1652, col: 7, offset: 53564},
+																												pos:        position{line: 1654, col: 7, offset: 53665},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27481,12 +27481,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2914, col: 11, offset: 91885},
+																								pos: position{line: 2916, col: 11, offset: 91986},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2914, col: 11, offset: 91885},
+																									pos: position{line: 2916, col: 11, offset: 91986},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2914, col: 11, offset: 91885},
+																										pos:        position{line: 2916, col: 11, offset: 91986},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27500,26 +27500,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1629, col: 5, offset: 52882},
+																			pos:   position{line: 1631, col: 5, offset: 52983},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1524, col: 5, offset: 49366},
+																				pos: position{line: 1526, col: 5, offset: 49467},
 																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
-																					pos: position{line: 1524, col: 5, offset: 49366},
+																					pos: position{line: 1526, col: 5, offset: 49467},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1524, col: 5, offset: 49366},
+																							pos:   position{line: 1526, col: 5, offset: 49467},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1524, col: 14, offset: 49375},
+																								pos: position{line: 1526, col: 14, offset: 49476},
 																								expr: &actionExpr{
-																									pos: position{line: 1524, col: 15, offset: 49376},
+																									pos: position{line: 1526, col: 15, offset: 49477},
 																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1524, col: 15, offset: 49376},
+																										pos: position{line: 1526, col: 15, offset: 49477},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1524, col: 15, offset: 49376},
+																											pos:        position{line: 1526, col: 15, offset: 49477},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27530,28 +27530,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27560,9 +27560,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -27575,36 +27575,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1718, col: 5, offset: 55436},
+																pos: position{line: 1720, col: 5, offset: 55537},
 																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1718, col: 5, offset: 55436},
+																	pos: position{line: 1720, col: 5, offset: 55537},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1718, col: 5, offset: 55436},
+																			pos:   position{line: 1720, col: 5, offset: 55537},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1724, col: 5, offset: 55633},
+																				pos: position{line: 1726, col: 5, offset: 55734},
 																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1724, col: 5, offset: 55633},
+																					pos: position{line: 1726, col: 5, offset: 55734},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1724, col: 5, offset: 55633},
+																							pos:        position{line: 1726, col: 5, offset: 55734},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1724, col: 9, offset: 55637},
+																							pos:   position{line: 1726, col: 9, offset: 55738},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1724, col: 14, offset: 55642},
+																								pos: position{line: 1726, col: 14, offset: 55743},
 																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1724, col: 14, offset: 55642},
+																									pos: position{line: 1726, col: 14, offset: 55743},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1724, col: 14, offset: 55642},
+																										pos:        position{line: 1726, col: 14, offset: 55743},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27614,18 +27614,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1724, col: 62, offset: 55690},
+																							pos:        position{line: 1726, col: 62, offset: 55791},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2914, col: 11, offset: 91885},
+																							pos: position{line: 2916, col: 11, offset: 91986},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2914, col: 11, offset: 91885},
+																								pos: position{line: 2916, col: 11, offset: 91986},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2914, col: 11, offset: 91885},
+																									pos:        position{line: 2916, col: 11, offset: 91986},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27638,26 +27638,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1719, col: 5, offset: 55472},
+																			pos:   position{line: 1721, col: 5, offset: 55573},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1524, col: 5, offset: 49366},
+																				pos: position{line: 1526, col: 5, offset: 49467},
 																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
-																					pos: position{line: 1524, col: 5, offset: 49366},
+																					pos: position{line: 1526, col: 5, offset: 49467},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1524, col: 5, offset: 49366},
+																							pos:   position{line: 1526, col: 5, offset: 49467},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1524, col: 14, offset: 49375},
+																								pos: position{line: 1526, col: 14, offset: 49476},
 																								expr: &actionExpr{
-																									pos: position{line: 1524, col: 15, offset: 49376},
+																									pos: position{line: 1526, col: 15, offset: 49477},
 																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1524, col: 15, offset: 49376},
+																										pos: position{line: 1526, col: 15, offset: 49477},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1524, col: 15, offset: 49376},
+																											pos:        position{line: 1526, col: 15, offset: 49477},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27668,28 +27668,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27698,9 +27698,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -27713,35 +27713,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1661, col: 5, offset: 53757},
+																pos: position{line: 1663, col: 5, offset: 53858},
 																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
-																	pos: position{line: 1661, col: 5, offset: 53757},
+																	pos: position{line: 1663, col: 5, offset: 53858},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1661, col: 5, offset: 53757},
+																			pos:   position{line: 1663, col: 5, offset: 53858},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1669, col: 5, offset: 54083},
+																				pos: position{line: 1671, col: 5, offset: 54184},
 																				run: (*parser).callonExtraListElement403,
 																				expr: &seqExpr{
-																					pos: position{line: 1669, col: 5, offset: 54083},
+																					pos: position{line: 1671, col: 5, offset: 54184},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1669, col: 5, offset: 54083},
+																							pos: position{line: 1671, col: 5, offset: 54184},
 																							expr: &seqExpr{
-																								pos: position{line: 2518, col: 31, offset: 80852},
+																								pos: position{line: 2520, col: 31, offset: 80953},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2518, col: 31, offset: 80852},
+																										pos:        position{line: 2520, col: 31, offset: 80953},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2518, col: 36, offset: 80857},
+																										pos: position{line: 2520, col: 36, offset: 80958},
 																										expr: &litMatcher{
-																											pos:        position{line: 2518, col: 37, offset: 80858},
+																											pos:        position{line: 2520, col: 37, offset: 80959},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -27751,28 +27751,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1670, col: 5, offset: 54115},
+																							pos: position{line: 1672, col: 5, offset: 54216},
 																							expr: &seqExpr{
-																								pos: position{line: 1670, col: 6, offset: 54116},
+																								pos: position{line: 1672, col: 6, offset: 54217},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1670, col: 6, offset: 54116},
+																										pos: position{line: 1672, col: 6, offset: 54217},
 																										expr: &actionExpr{
-																											pos: position{line: 1675, col: 5, offset: 54266},
+																											pos: position{line: 1677, col: 5, offset: 54367},
 																											run: (*parser).callonExtraListElement413,
 																											expr: &seqExpr{
-																												pos: position{line: 1675, col: 5, offset: 54266},
+																												pos: position{line: 1677, col: 5, offset: 54367},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1675, col: 5, offset: 54266},
+																														pos:   position{line: 1677, col: 5, offset: 54367},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1675, col: 16, offset: 54277},
+																															pos: position{line: 1677, col: 16, offset: 54378},
 																															run: (*parser).callonExtraListElement416,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1675, col: 16, offset: 54277},
+																																pos: position{line: 1677, col: 16, offset: 54378},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1675, col: 17, offset: 54278},
+																																	pos:        position{line: 1677, col: 17, offset: 54379},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -27781,7 +27781,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1678, col: 5, offset: 54335},
+																														pos: position{line: 1680, col: 5, offset: 54436},
 																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
@@ -27789,30 +27789,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1670, col: 35, offset: 54145},
+																										pos: position{line: 1672, col: 35, offset: 54246},
 																										expr: &choiceExpr{
-																											pos: position{line: 2932, col: 8, offset: 92222},
+																											pos: position{line: 2934, col: 8, offset: 92323},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2919, col: 12, offset: 91995},
+																													pos: position{line: 2921, col: 12, offset: 92096},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2919, col: 13, offset: 91996},
+																														pos: position{line: 2921, col: 13, offset: 92097},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 13, offset: 91996},
+																																pos:        position{line: 2921, col: 13, offset: 92097},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 20, offset: 92003},
+																																pos:        position{line: 2921, col: 20, offset: 92104},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 29, offset: 92012},
+																																pos:        position{line: 2921, col: 29, offset: 92113},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27821,16 +27821,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2929, col: 8, offset: 92172},
+																													pos: position{line: 2931, col: 8, offset: 92273},
 																													expr: &anyMatcher{
-																														line: 2929, col: 9, offset: 92173,
+																														line: 2931, col: 9, offset: 92274,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1670, col: 40, offset: 54150,
+																										line: 1672, col: 40, offset: 54251,
 																									},
 																								},
 																							},
@@ -27840,24 +27840,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1662, col: 5, offset: 53792},
+																			pos:   position{line: 1664, col: 5, offset: 53893},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1675, col: 5, offset: 54266},
+																				pos: position{line: 1677, col: 5, offset: 54367},
 																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1675, col: 5, offset: 54266},
+																					pos: position{line: 1677, col: 5, offset: 54367},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1675, col: 5, offset: 54266},
+																							pos:   position{line: 1677, col: 5, offset: 54367},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1675, col: 16, offset: 54277},
+																								pos: position{line: 1677, col: 16, offset: 54378},
 																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1675, col: 16, offset: 54277},
+																									pos: position{line: 1677, col: 16, offset: 54378},
 																									expr: &litMatcher{
-																										pos:        position{line: 1675, col: 17, offset: 54278},
+																										pos:        position{line: 1677, col: 17, offset: 54379},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27866,7 +27866,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1678, col: 5, offset: 54335},
+																							pos: position{line: 1680, col: 5, offset: 54436},
 																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
@@ -27874,24 +27874,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1663, col: 5, offset: 53837},
+																			pos:   position{line: 1665, col: 5, offset: 53938},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1686, col: 5, offset: 54584},
+																				pos: position{line: 1688, col: 5, offset: 54685},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1688, col: 9, offset: 54650},
+																						pos: position{line: 1690, col: 9, offset: 54751},
 																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1688, col: 9, offset: 54650},
+																							pos: position{line: 1690, col: 9, offset: 54751},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1688, col: 9, offset: 54650},
+																									pos: position{line: 1690, col: 9, offset: 54751},
 																									expr: &actionExpr{
-																										pos: position{line: 2910, col: 10, offset: 91824},
+																										pos: position{line: 2912, col: 10, offset: 91925},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2910, col: 10, offset: 91824},
+																											pos:        position{line: 2912, col: 10, offset: 91925},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27900,28 +27900,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2932, col: 8, offset: 92222},
+																									pos: position{line: 2934, col: 8, offset: 92323},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2919, col: 12, offset: 91995},
+																											pos: position{line: 2921, col: 12, offset: 92096},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2919, col: 13, offset: 91996},
+																												pos: position{line: 2921, col: 13, offset: 92097},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 13, offset: 91996},
+																														pos:        position{line: 2921, col: 13, offset: 92097},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 20, offset: 92003},
+																														pos:        position{line: 2921, col: 20, offset: 92104},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 29, offset: 92012},
+																														pos:        position{line: 2921, col: 29, offset: 92113},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27930,34 +27930,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2929, col: 8, offset: 92172},
+																											pos: position{line: 2931, col: 8, offset: 92273},
 																											expr: &anyMatcher{
-																												line: 2929, col: 9, offset: 92173,
+																												line: 2931, col: 9, offset: 92274,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1689, col: 9, offset: 54669},
+																									pos: position{line: 1691, col: 9, offset: 54770},
 																									expr: &actionExpr{
-																										pos: position{line: 678, col: 14, offset: 21586},
+																										pos: position{line: 680, col: 14, offset: 21687},
 																										run: (*parser).callonExtraListElement454,
 																										expr: &seqExpr{
-																											pos: position{line: 678, col: 14, offset: 21586},
+																											pos: position{line: 680, col: 14, offset: 21687},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2927, col: 11, offset: 92158},
+																													pos: position{line: 2929, col: 11, offset: 92259},
 																													expr: &anyMatcher{
-																														line: 2927, col: 13, offset: 92160,
+																														line: 2929, col: 13, offset: 92261,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 678, col: 21, offset: 21593},
+																													pos: position{line: 680, col: 21, offset: 21694},
 																													expr: &actionExpr{
-																														pos: position{line: 2910, col: 10, offset: 91824},
+																														pos: position{line: 2912, col: 10, offset: 91925},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2910, col: 10, offset: 91824},
+																															pos:        position{line: 2912, col: 10, offset: 91925},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27966,28 +27966,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2932, col: 8, offset: 92222},
+																													pos: position{line: 2934, col: 8, offset: 92323},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2919, col: 12, offset: 91995},
+																															pos: position{line: 2921, col: 12, offset: 92096},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2919, col: 13, offset: 91996},
+																																pos: position{line: 2921, col: 13, offset: 92097},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2919, col: 13, offset: 91996},
+																																		pos:        position{line: 2921, col: 13, offset: 92097},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2919, col: 20, offset: 92003},
+																																		pos:        position{line: 2921, col: 20, offset: 92104},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2919, col: 29, offset: 92012},
+																																		pos:        position{line: 2921, col: 29, offset: 92113},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27996,9 +27996,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2929, col: 8, offset: 92172},
+																															pos: position{line: 2931, col: 8, offset: 92273},
 																															expr: &anyMatcher{
-																																line: 2929, col: 9, offset: 92173,
+																																line: 2931, col: 9, offset: 92274,
 																															},
 																														},
 																													},
@@ -28011,18 +28011,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1695, col: 9, offset: 54798},
+																						pos: position{line: 1697, col: 9, offset: 54899},
 																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1695, col: 9, offset: 54798},
+																							pos: position{line: 1697, col: 9, offset: 54899},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 11, offset: 91885},
+																									pos: position{line: 2916, col: 11, offset: 91986},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2914, col: 11, offset: 91885},
+																										pos: position{line: 2916, col: 11, offset: 91986},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2914, col: 11, offset: 91885},
+																											pos:        position{line: 2916, col: 11, offset: 91986},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28031,15 +28031,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1696, col: 9, offset: 54871},
+																									pos:   position{line: 1698, col: 9, offset: 54972},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1696, col: 18, offset: 54880},
+																										pos: position{line: 1698, col: 18, offset: 54981},
 																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1696, col: 18, offset: 54880},
+																											pos: position{line: 1698, col: 18, offset: 54981},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1696, col: 18, offset: 54880},
+																												pos:        position{line: 1698, col: 18, offset: 54981},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28049,28 +28049,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2932, col: 8, offset: 92222},
+																									pos: position{line: 2934, col: 8, offset: 92323},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2919, col: 12, offset: 91995},
+																											pos: position{line: 2921, col: 12, offset: 92096},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2919, col: 13, offset: 91996},
+																												pos: position{line: 2921, col: 13, offset: 92097},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 13, offset: 91996},
+																														pos:        position{line: 2921, col: 13, offset: 92097},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 20, offset: 92003},
+																														pos:        position{line: 2921, col: 20, offset: 92104},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 29, offset: 92012},
+																														pos:        position{line: 2921, col: 29, offset: 92113},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28079,9 +28079,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2929, col: 8, offset: 92172},
+																											pos: position{line: 2931, col: 8, offset: 92273},
 																											expr: &anyMatcher{
-																												line: 2929, col: 9, offset: 92173,
+																												line: 2931, col: 9, offset: 92274,
 																											},
 																										},
 																									},
@@ -28102,40 +28102,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1503, col: 11, offset: 48730},
+										pos:  position{line: 1505, col: 11, offset: 48831},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2513, col: 22, offset: 80602},
+										pos: position{line: 2515, col: 22, offset: 80703},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2513, col: 22, offset: 80602},
+											pos: position{line: 2515, col: 22, offset: 80703},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2518, col: 31, offset: 80852},
+													pos:        position{line: 2520, col: 31, offset: 80953},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2518, col: 36, offset: 80857},
+													pos: position{line: 2520, col: 36, offset: 80958},
 													expr: &litMatcher{
-														pos:        position{line: 2518, col: 37, offset: 80858},
+														pos:        position{line: 2520, col: 37, offset: 80959},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2513, col: 49, offset: 80629},
+													pos:   position{line: 2515, col: 49, offset: 80730},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2856, col: 13, offset: 90350},
+														pos: position{line: 2858, col: 13, offset: 90451},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2856, col: 13, offset: 90350},
+															pos: position{line: 2858, col: 13, offset: 90451},
 															expr: &charClassMatcher{
-																pos:        position{line: 2856, col: 13, offset: 90350},
+																pos:        position{line: 2858, col: 13, offset: 90451},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28145,28 +28145,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2932, col: 8, offset: 92222},
+													pos: position{line: 2934, col: 8, offset: 92323},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2919, col: 12, offset: 91995},
+															pos: position{line: 2921, col: 12, offset: 92096},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2919, col: 13, offset: 91996},
+																pos: position{line: 2921, col: 13, offset: 92097},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 13, offset: 91996},
+																		pos:        position{line: 2921, col: 13, offset: 92097},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 20, offset: 92003},
+																		pos:        position{line: 2921, col: 20, offset: 92104},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 29, offset: 92012},
+																		pos:        position{line: 2921, col: 29, offset: 92113},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28175,9 +28175,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2929, col: 8, offset: 92172},
+															pos: position{line: 2931, col: 8, offset: 92273},
 															expr: &anyMatcher{
-																line: 2929, col: 9, offset: 92173,
+																line: 2931, col: 9, offset: 92274,
 															},
 														},
 													},
@@ -28186,32 +28186,32 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1511, col: 5, offset: 49008},
+										pos: position{line: 1513, col: 5, offset: 49109},
 										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
-											pos: position{line: 1511, col: 5, offset: 49008},
+											pos: position{line: 1513, col: 5, offset: 49109},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1511, col: 5, offset: 49008},
+													pos: position{line: 1513, col: 5, offset: 49109},
 													expr: &actionExpr{
-														pos: position{line: 678, col: 14, offset: 21586},
+														pos: position{line: 680, col: 14, offset: 21687},
 														run: (*parser).callonExtraListElement507,
 														expr: &seqExpr{
-															pos: position{line: 678, col: 14, offset: 21586},
+															pos: position{line: 680, col: 14, offset: 21687},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2927, col: 11, offset: 92158},
+																	pos: position{line: 2929, col: 11, offset: 92259},
 																	expr: &anyMatcher{
-																		line: 2927, col: 13, offset: 92160,
+																		line: 2929, col: 13, offset: 92261,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 678, col: 21, offset: 21593},
+																	pos: position{line: 680, col: 21, offset: 21694},
 																	expr: &actionExpr{
-																		pos: position{line: 2910, col: 10, offset: 91824},
+																		pos: position{line: 2912, col: 10, offset: 91925},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2910, col: 10, offset: 91824},
+																			pos:        position{line: 2912, col: 10, offset: 91925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28220,28 +28220,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2932, col: 8, offset: 92222},
+																	pos: position{line: 2934, col: 8, offset: 92323},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2919, col: 12, offset: 91995},
+																			pos: position{line: 2921, col: 12, offset: 92096},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2919, col: 13, offset: 91996},
+																				pos: position{line: 2921, col: 13, offset: 92097},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 13, offset: 91996},
+																						pos:        position{line: 2921, col: 13, offset: 92097},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 20, offset: 92003},
+																						pos:        position{line: 2921, col: 20, offset: 92104},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 29, offset: 92012},
+																						pos:        position{line: 2921, col: 29, offset: 92113},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28250,9 +28250,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2929, col: 8, offset: 92172},
+																			pos: position{line: 2931, col: 8, offset: 92273},
 																			expr: &anyMatcher{
-																				line: 2929, col: 9, offset: 92173,
+																				line: 2931, col: 9, offset: 92274,
 																			},
 																		},
 																	},
@@ -28262,23 +28262,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1512, col: 5, offset: 49023},
+													pos: position{line: 1514, col: 5, offset: 49124},
 													expr: &seqExpr{
-														pos: position{line: 1543, col: 27, offset: 49883},
+														pos: position{line: 1545, col: 27, offset: 49984},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1543, col: 27, offset: 49883},
+																pos:        position{line: 1545, col: 27, offset: 49984},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1543, col: 31, offset: 49887},
+																pos: position{line: 1545, col: 31, offset: 49988},
 																expr: &actionExpr{
-																	pos: position{line: 2910, col: 10, offset: 91824},
+																	pos: position{line: 2912, col: 10, offset: 91925},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2910, col: 10, offset: 91824},
+																		pos:        position{line: 2912, col: 10, offset: 91925},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28287,25 +28287,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2919, col: 12, offset: 91995},
+																pos: position{line: 2921, col: 12, offset: 92096},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2919, col: 13, offset: 91996},
+																	pos: position{line: 2921, col: 13, offset: 92097},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 13, offset: 91996},
+																			pos:        position{line: 2921, col: 13, offset: 92097},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 20, offset: 92003},
+																			pos:        position{line: 2921, col: 20, offset: 92104},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 29, offset: 92012},
+																			pos:        position{line: 2921, col: 29, offset: 92113},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28317,20 +28317,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1513, col: 5, offset: 49051},
+													pos: position{line: 1515, col: 5, offset: 49152},
 													expr: &actionExpr{
-														pos: position{line: 1584, col: 5, offset: 51102},
+														pos: position{line: 1586, col: 5, offset: 51203},
 														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
-															pos: position{line: 1584, col: 5, offset: 51102},
+															pos: position{line: 1586, col: 5, offset: 51203},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1584, col: 5, offset: 51102},
+																	pos: position{line: 1586, col: 5, offset: 51203},
 																	expr: &actionExpr{
-																		pos: position{line: 2910, col: 10, offset: 91824},
+																		pos: position{line: 2912, col: 10, offset: 91925},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2910, col: 10, offset: 91824},
+																			pos:        position{line: 2912, col: 10, offset: 91925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28339,27 +28339,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1584, col: 12, offset: 51109},
+																	pos:   position{line: 1586, col: 12, offset: 51210},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1586, col: 9, offset: 51172},
+																		pos: position{line: 1588, col: 9, offset: 51273},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1586, col: 9, offset: 51172},
+																				pos: position{line: 1588, col: 9, offset: 51273},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1586, col: 9, offset: 51172},
+																					pos: position{line: 1588, col: 9, offset: 51273},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1586, col: 9, offset: 51172},
+																							pos:   position{line: 1588, col: 9, offset: 51273},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1586, col: 16, offset: 51179},
+																								pos: position{line: 1588, col: 16, offset: 51280},
 																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1586, col: 16, offset: 51179},
+																									pos: position{line: 1588, col: 16, offset: 51280},
 																									expr: &litMatcher{
-																										pos:        position{line: 1586, col: 17, offset: 51180},
+																										pos:        position{line: 1588, col: 17, offset: 51281},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28368,22 +28368,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1590, col: 9, offset: 51280},
+																							pos: position{line: 1592, col: 9, offset: 51381},
 																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1609, col: 11, offset: 51997},
+																				pos: position{line: 1611, col: 11, offset: 52098},
 																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
-																					pos: position{line: 1609, col: 11, offset: 51997},
+																					pos: position{line: 1611, col: 11, offset: 52098},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1609, col: 11, offset: 51997},
+																							pos: position{line: 1611, col: 11, offset: 52098},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1609, col: 12, offset: 51998},
+																								pos:        position{line: 1611, col: 12, offset: 52099},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28391,7 +28391,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1609, col: 20, offset: 52006},
+																							pos:        position{line: 1611, col: 20, offset: 52107},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28400,20 +28400,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1611, col: 13, offset: 52123},
+																				pos: position{line: 1613, col: 13, offset: 52224},
 																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
-																					pos: position{line: 1611, col: 13, offset: 52123},
+																					pos: position{line: 1613, col: 13, offset: 52224},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1611, col: 14, offset: 52124},
+																							pos:        position{line: 1613, col: 14, offset: 52225},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1611, col: 21, offset: 52131},
+																							pos:        position{line: 1613, col: 21, offset: 52232},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28422,20 +28422,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1613, col: 13, offset: 52251},
+																				pos: position{line: 1615, col: 13, offset: 52352},
 																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
-																					pos: position{line: 1613, col: 13, offset: 52251},
+																					pos: position{line: 1615, col: 13, offset: 52352},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1613, col: 14, offset: 52252},
+																							pos:        position{line: 1615, col: 14, offset: 52353},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1613, col: 21, offset: 52259},
+																							pos:        position{line: 1615, col: 21, offset: 52360},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28444,15 +28444,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1615, col: 13, offset: 52379},
+																				pos: position{line: 1617, col: 13, offset: 52480},
 																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
-																					pos: position{line: 1615, col: 13, offset: 52379},
+																					pos: position{line: 1617, col: 13, offset: 52480},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1615, col: 13, offset: 52379},
+																							pos: position{line: 1617, col: 13, offset: 52480},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1615, col: 14, offset: 52380},
+																								pos:        position{line: 1617, col: 14, offset: 52481},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28460,7 +28460,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1615, col: 26, offset: 52392},
+																							pos:        position{line: 1617, col: 26, offset: 52493},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28469,15 +28469,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1617, col: 13, offset: 52512},
+																				pos: position{line: 1619, col: 13, offset: 52613},
 																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 13, offset: 52512},
+																					pos: position{line: 1619, col: 13, offset: 52613},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1617, col: 13, offset: 52512},
+																							pos: position{line: 1619, col: 13, offset: 52613},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1617, col: 14, offset: 52513},
+																								pos:        position{line: 1619, col: 14, offset: 52614},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28485,7 +28485,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1617, col: 26, offset: 52525},
+																							pos:        position{line: 1619, col: 26, offset: 52626},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28497,12 +28497,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2914, col: 11, offset: 91885},
+																	pos: position{line: 2916, col: 11, offset: 91986},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2914, col: 11, offset: 91885},
+																		pos: position{line: 2916, col: 11, offset: 91986},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2914, col: 11, offset: 91885},
+																			pos:        position{line: 2916, col: 11, offset: 91986},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28515,20 +28515,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1514, col: 5, offset: 49081},
+													pos: position{line: 1516, col: 5, offset: 49182},
 													expr: &actionExpr{
-														pos: position{line: 1634, col: 5, offset: 53064},
+														pos: position{line: 1636, col: 5, offset: 53165},
 														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
-															pos: position{line: 1634, col: 5, offset: 53064},
+															pos: position{line: 1636, col: 5, offset: 53165},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1634, col: 5, offset: 53064},
+																	pos: position{line: 1636, col: 5, offset: 53165},
 																	expr: &actionExpr{
-																		pos: position{line: 2910, col: 10, offset: 91824},
+																		pos: position{line: 2912, col: 10, offset: 91925},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2910, col: 10, offset: 91824},
+																			pos:        position{line: 2912, col: 10, offset: 91925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28537,24 +28537,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1635, col: 5, offset: 53076},
+																	pos:   position{line: 1637, col: 5, offset: 53177},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1636, col: 9, offset: 53092},
+																		pos: position{line: 1638, col: 9, offset: 53193},
 																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
-																			pos: position{line: 1636, col: 10, offset: 53093},
+																			pos: position{line: 1638, col: 10, offset: 53194},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1636, col: 11, offset: 53094},
+																					pos:        position{line: 1638, col: 11, offset: 53195},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1636, col: 18, offset: 53101},
+																					pos: position{line: 1638, col: 18, offset: 53202},
 																					expr: &litMatcher{
-																						pos:        position{line: 1636, col: 19, offset: 53102},
+																						pos:        position{line: 1638, col: 19, offset: 53203},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28565,16 +28565,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1639, col: 7, offset: 53192},
+																	pos: position{line: 1641, col: 7, offset: 53293},
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2914, col: 11, offset: 91885},
+																	pos: position{line: 2916, col: 11, offset: 91986},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2914, col: 11, offset: 91885},
+																		pos: position{line: 2916, col: 11, offset: 91986},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2914, col: 11, offset: 91885},
+																			pos:        position{line: 2916, col: 11, offset: 91986},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28587,29 +28587,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1515, col: 5, offset: 49113},
+													pos: position{line: 1517, col: 5, offset: 49214},
 													expr: &actionExpr{
-														pos: position{line: 1724, col: 5, offset: 55633},
+														pos: position{line: 1726, col: 5, offset: 55734},
 														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1724, col: 5, offset: 55633},
+															pos: position{line: 1726, col: 5, offset: 55734},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1724, col: 5, offset: 55633},
+																	pos:        position{line: 1726, col: 5, offset: 55734},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1724, col: 9, offset: 55637},
+																	pos:   position{line: 1726, col: 9, offset: 55738},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1724, col: 14, offset: 55642},
+																		pos: position{line: 1726, col: 14, offset: 55743},
 																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1724, col: 14, offset: 55642},
+																			pos: position{line: 1726, col: 14, offset: 55743},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1724, col: 14, offset: 55642},
+																				pos:        position{line: 1726, col: 14, offset: 55743},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28619,18 +28619,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1724, col: 62, offset: 55690},
+																	pos:        position{line: 1726, col: 62, offset: 55791},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2914, col: 11, offset: 91885},
+																	pos: position{line: 2916, col: 11, offset: 91986},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2914, col: 11, offset: 91885},
+																		pos: position{line: 2916, col: 11, offset: 91986},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2914, col: 11, offset: 91885},
+																			pos:        position{line: 2916, col: 11, offset: 91986},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28643,31 +28643,31 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1516, col: 5, offset: 49143},
+													pos: position{line: 1518, col: 5, offset: 49244},
 													expr: &seqExpr{
-														pos: position{line: 1516, col: 7, offset: 49145},
+														pos: position{line: 1518, col: 7, offset: 49246},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1669, col: 5, offset: 54083},
+																pos: position{line: 1671, col: 5, offset: 54184},
 																run: (*parser).callonExtraListElement604,
 																expr: &seqExpr{
-																	pos: position{line: 1669, col: 5, offset: 54083},
+																	pos: position{line: 1671, col: 5, offset: 54184},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1669, col: 5, offset: 54083},
+																			pos: position{line: 1671, col: 5, offset: 54184},
 																			expr: &seqExpr{
-																				pos: position{line: 2518, col: 31, offset: 80852},
+																				pos: position{line: 2520, col: 31, offset: 80953},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2518, col: 31, offset: 80852},
+																						pos:        position{line: 2520, col: 31, offset: 80953},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2518, col: 36, offset: 80857},
+																						pos: position{line: 2520, col: 36, offset: 80958},
 																						expr: &litMatcher{
-																							pos:        position{line: 2518, col: 37, offset: 80858},
+																							pos:        position{line: 2520, col: 37, offset: 80959},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -28677,28 +28677,28 @@ var g = &grammar{
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1670, col: 5, offset: 54115},
+																			pos: position{line: 1672, col: 5, offset: 54216},
 																			expr: &seqExpr{
-																				pos: position{line: 1670, col: 6, offset: 54116},
+																				pos: position{line: 1672, col: 6, offset: 54217},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1670, col: 6, offset: 54116},
+																						pos: position{line: 1672, col: 6, offset: 54217},
 																						expr: &actionExpr{
-																							pos: position{line: 1675, col: 5, offset: 54266},
+																							pos: position{line: 1677, col: 5, offset: 54367},
 																							run: (*parser).callonExtraListElement614,
 																							expr: &seqExpr{
-																								pos: position{line: 1675, col: 5, offset: 54266},
+																								pos: position{line: 1677, col: 5, offset: 54367},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1675, col: 5, offset: 54266},
+																										pos:   position{line: 1677, col: 5, offset: 54367},
 																										label: "separator",
 																										expr: &actionExpr{
-																											pos: position{line: 1675, col: 16, offset: 54277},
+																											pos: position{line: 1677, col: 16, offset: 54378},
 																											run: (*parser).callonExtraListElement617,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1675, col: 16, offset: 54277},
+																												pos: position{line: 1677, col: 16, offset: 54378},
 																												expr: &litMatcher{
-																													pos:        position{line: 1675, col: 17, offset: 54278},
+																													pos:        position{line: 1677, col: 17, offset: 54379},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
@@ -28707,7 +28707,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1678, col: 5, offset: 54335},
+																										pos: position{line: 1680, col: 5, offset: 54436},
 																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
@@ -28715,30 +28715,30 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1670, col: 35, offset: 54145},
+																						pos: position{line: 1672, col: 35, offset: 54246},
 																						expr: &choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28747,16 +28747,16 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1670, col: 40, offset: 54150,
+																						line: 1672, col: 40, offset: 54251,
 																					},
 																				},
 																			},
@@ -28765,21 +28765,21 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1675, col: 5, offset: 54266},
+																pos: position{line: 1677, col: 5, offset: 54367},
 																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1675, col: 5, offset: 54266},
+																	pos: position{line: 1677, col: 5, offset: 54367},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1675, col: 5, offset: 54266},
+																			pos:   position{line: 1677, col: 5, offset: 54367},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1675, col: 16, offset: 54277},
+																				pos: position{line: 1677, col: 16, offset: 54378},
 																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1675, col: 16, offset: 54277},
+																					pos: position{line: 1677, col: 16, offset: 54378},
 																					expr: &litMatcher{
-																						pos:        position{line: 1675, col: 17, offset: 54278},
+																						pos:        position{line: 1677, col: 17, offset: 54379},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28788,7 +28788,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1678, col: 5, offset: 54335},
+																			pos: position{line: 1680, col: 5, offset: 54436},
 																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
@@ -28798,17 +28798,17 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1517, col: 5, offset: 49201},
+													pos: position{line: 1519, col: 5, offset: 49302},
 													expr: &actionExpr{
-														pos: position{line: 725, col: 5, offset: 23139},
+														pos: position{line: 727, col: 5, offset: 23240},
 														run: (*parser).callonExtraListElement639,
 														expr: &seqExpr{
-															pos: position{line: 725, col: 5, offset: 23139},
+															pos: position{line: 727, col: 5, offset: 23240},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 725, col: 5, offset: 23139},
+																	pos: position{line: 727, col: 5, offset: 23240},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2800, col: 13, offset: 88919},
+																		pos:        position{line: 2802, col: 13, offset: 89020},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28816,36 +28816,36 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 726, col: 5, offset: 23169},
+																	pos:   position{line: 728, col: 5, offset: 23270},
 																	label: "delimiter",
 																	expr: &choiceExpr{
-																		pos: position{line: 727, col: 9, offset: 23189},
+																		pos: position{line: 729, col: 9, offset: 23290},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 741, col: 5, offset: 23681},
+																				pos: position{line: 743, col: 5, offset: 23782},
 																				run: (*parser).callonExtraListElement645,
 																				expr: &seqExpr{
-																					pos: position{line: 741, col: 5, offset: 23681},
+																					pos: position{line: 743, col: 5, offset: 23782},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 741, col: 5, offset: 23681},
+																							pos:   position{line: 743, col: 5, offset: 23782},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 741, col: 16, offset: 23692},
+																								pos: position{line: 743, col: 16, offset: 23793},
 																								run: (*parser).callonExtraListElement648,
 																								expr: &seqExpr{
-																									pos: position{line: 741, col: 16, offset: 23692},
+																									pos: position{line: 743, col: 16, offset: 23793},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 741, col: 16, offset: 23692},
+																											pos:        position{line: 743, col: 16, offset: 23793},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 741, col: 23, offset: 23699},
+																											pos: position{line: 743, col: 23, offset: 23800},
 																											expr: &litMatcher{
-																												pos:        position{line: 741, col: 23, offset: 23699},
+																												pos:        position{line: 743, col: 23, offset: 23800},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -28856,12 +28856,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 743, col: 8, offset: 23783},
+																							pos: position{line: 745, col: 8, offset: 23884},
 																							expr: &actionExpr{
-																								pos: position{line: 2910, col: 10, offset: 91824},
+																								pos: position{line: 2912, col: 10, offset: 91925},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2910, col: 10, offset: 91824},
+																									pos:        position{line: 2912, col: 10, offset: 91925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28870,28 +28870,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28900,9 +28900,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -28911,30 +28911,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 748, col: 5, offset: 23929},
+																				pos: position{line: 750, col: 5, offset: 24030},
 																				run: (*parser).callonExtraListElement664,
 																				expr: &seqExpr{
-																					pos: position{line: 748, col: 5, offset: 23929},
+																					pos: position{line: 750, col: 5, offset: 24030},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 748, col: 5, offset: 23929},
+																							pos:   position{line: 750, col: 5, offset: 24030},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 748, col: 16, offset: 23940},
+																								pos: position{line: 750, col: 16, offset: 24041},
 																								run: (*parser).callonExtraListElement667,
 																								expr: &seqExpr{
-																									pos: position{line: 748, col: 16, offset: 23940},
+																									pos: position{line: 750, col: 16, offset: 24041},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 748, col: 16, offset: 23940},
+																											pos:        position{line: 750, col: 16, offset: 24041},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 748, col: 23, offset: 23947},
+																											pos: position{line: 750, col: 23, offset: 24048},
 																											expr: &litMatcher{
-																												pos:        position{line: 748, col: 23, offset: 23947},
+																												pos:        position{line: 750, col: 23, offset: 24048},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -28945,12 +28945,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 750, col: 8, offset: 24031},
+																							pos: position{line: 752, col: 8, offset: 24132},
 																							expr: &actionExpr{
-																								pos: position{line: 2910, col: 10, offset: 91824},
+																								pos: position{line: 2912, col: 10, offset: 91925},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2910, col: 10, offset: 91824},
+																									pos:        position{line: 2912, col: 10, offset: 91925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28959,28 +28959,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28989,9 +28989,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -29000,27 +29000,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 761, col: 26, offset: 24417},
+																				pos: position{line: 763, col: 26, offset: 24518},
 																				run: (*parser).callonExtraListElement683,
 																				expr: &seqExpr{
-																					pos: position{line: 761, col: 26, offset: 24417},
+																					pos: position{line: 763, col: 26, offset: 24518},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 761, col: 26, offset: 24417},
+																							pos:        position{line: 763, col: 26, offset: 24518},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 761, col: 32, offset: 24423},
+																							pos:   position{line: 763, col: 32, offset: 24524},
 																							label: "language",
 																							expr: &actionExpr{
-																								pos: position{line: 765, col: 13, offset: 24553},
+																								pos: position{line: 767, col: 13, offset: 24654},
 																								run: (*parser).callonExtraListElement687,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 765, col: 14, offset: 24554},
+																									pos: position{line: 767, col: 14, offset: 24655},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 765, col: 14, offset: 24554},
+																										pos:        position{line: 767, col: 14, offset: 24655},
 																										val:        "[^\\r\\n` ]",
 																										chars:      []rune{'\r', '\n', '`', ' '},
 																										ignoreCase: false,
@@ -29030,12 +29030,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 761, col: 52, offset: 24443},
+																							pos: position{line: 763, col: 52, offset: 24544},
 																							expr: &actionExpr{
-																								pos: position{line: 2910, col: 10, offset: 91824},
+																								pos: position{line: 2912, col: 10, offset: 91925},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2910, col: 10, offset: 91824},
+																									pos:        position{line: 2912, col: 10, offset: 91925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29044,28 +29044,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29074,9 +29074,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -29085,30 +29085,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 755, col: 5, offset: 24176},
+																				pos: position{line: 757, col: 5, offset: 24277},
 																				run: (*parser).callonExtraListElement701,
 																				expr: &seqExpr{
-																					pos: position{line: 755, col: 5, offset: 24176},
+																					pos: position{line: 757, col: 5, offset: 24277},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 755, col: 5, offset: 24176},
+																							pos:   position{line: 757, col: 5, offset: 24277},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 755, col: 16, offset: 24187},
+																								pos: position{line: 757, col: 16, offset: 24288},
 																								run: (*parser).callonExtraListElement704,
 																								expr: &seqExpr{
-																									pos: position{line: 755, col: 16, offset: 24187},
+																									pos: position{line: 757, col: 16, offset: 24288},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 755, col: 16, offset: 24187},
+																											pos:        position{line: 757, col: 16, offset: 24288},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 755, col: 22, offset: 24193},
+																											pos: position{line: 757, col: 22, offset: 24294},
 																											expr: &litMatcher{
-																												pos:        position{line: 755, col: 22, offset: 24193},
+																												pos:        position{line: 757, col: 22, offset: 24294},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -29119,12 +29119,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 757, col: 8, offset: 24277},
+																							pos: position{line: 759, col: 8, offset: 24378},
 																							expr: &actionExpr{
-																								pos: position{line: 2910, col: 10, offset: 91824},
+																								pos: position{line: 2912, col: 10, offset: 91925},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2910, col: 10, offset: 91824},
+																									pos:        position{line: 2912, col: 10, offset: 91925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29133,28 +29133,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29163,9 +29163,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -29174,30 +29174,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 770, col: 5, offset: 24713},
+																				pos: position{line: 772, col: 5, offset: 24814},
 																				run: (*parser).callonExtraListElement720,
 																				expr: &seqExpr{
-																					pos: position{line: 770, col: 5, offset: 24713},
+																					pos: position{line: 772, col: 5, offset: 24814},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 770, col: 5, offset: 24713},
+																							pos:   position{line: 772, col: 5, offset: 24814},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 770, col: 16, offset: 24724},
+																								pos: position{line: 772, col: 16, offset: 24825},
 																								run: (*parser).callonExtraListElement723,
 																								expr: &seqExpr{
-																									pos: position{line: 770, col: 16, offset: 24724},
+																									pos: position{line: 772, col: 16, offset: 24825},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 770, col: 16, offset: 24724},
+																											pos:        position{line: 772, col: 16, offset: 24825},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 770, col: 23, offset: 24731},
+																											pos: position{line: 772, col: 23, offset: 24832},
 																											expr: &litMatcher{
-																												pos:        position{line: 770, col: 23, offset: 24731},
+																												pos:        position{line: 772, col: 23, offset: 24832},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -29208,12 +29208,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 772, col: 8, offset: 24815},
+																							pos: position{line: 774, col: 8, offset: 24916},
 																							expr: &actionExpr{
-																								pos: position{line: 2910, col: 10, offset: 91824},
+																								pos: position{line: 2912, col: 10, offset: 91925},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2910, col: 10, offset: 91824},
+																									pos:        position{line: 2912, col: 10, offset: 91925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29222,28 +29222,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29252,9 +29252,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -29263,30 +29263,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 784, col: 5, offset: 25189},
+																				pos: position{line: 786, col: 5, offset: 25290},
 																				run: (*parser).callonExtraListElement739,
 																				expr: &seqExpr{
-																					pos: position{line: 784, col: 5, offset: 25189},
+																					pos: position{line: 786, col: 5, offset: 25290},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 784, col: 5, offset: 25189},
+																							pos:   position{line: 786, col: 5, offset: 25290},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 784, col: 16, offset: 25200},
+																								pos: position{line: 786, col: 16, offset: 25301},
 																								run: (*parser).callonExtraListElement742,
 																								expr: &seqExpr{
-																									pos: position{line: 784, col: 16, offset: 25200},
+																									pos: position{line: 786, col: 16, offset: 25301},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 784, col: 16, offset: 25200},
+																											pos:        position{line: 786, col: 16, offset: 25301},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 784, col: 23, offset: 25207},
+																											pos: position{line: 786, col: 23, offset: 25308},
 																											expr: &litMatcher{
-																												pos:        position{line: 784, col: 23, offset: 25207},
+																												pos:        position{line: 786, col: 23, offset: 25308},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -29297,12 +29297,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 786, col: 8, offset: 25291},
+																							pos: position{line: 788, col: 8, offset: 25392},
 																							expr: &actionExpr{
-																								pos: position{line: 2910, col: 10, offset: 91824},
+																								pos: position{line: 2912, col: 10, offset: 91925},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2910, col: 10, offset: 91824},
+																									pos:        position{line: 2912, col: 10, offset: 91925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29311,28 +29311,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29341,9 +29341,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -29352,30 +29352,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 791, col: 5, offset: 25441},
+																				pos: position{line: 793, col: 5, offset: 25542},
 																				run: (*parser).callonExtraListElement758,
 																				expr: &seqExpr{
-																					pos: position{line: 791, col: 5, offset: 25441},
+																					pos: position{line: 793, col: 5, offset: 25542},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 791, col: 5, offset: 25441},
+																							pos:   position{line: 793, col: 5, offset: 25542},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 791, col: 16, offset: 25452},
+																								pos: position{line: 793, col: 16, offset: 25553},
 																								run: (*parser).callonExtraListElement761,
 																								expr: &seqExpr{
-																									pos: position{line: 791, col: 16, offset: 25452},
+																									pos: position{line: 793, col: 16, offset: 25553},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 791, col: 16, offset: 25452},
+																											pos:        position{line: 793, col: 16, offset: 25553},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 791, col: 23, offset: 25459},
+																											pos: position{line: 793, col: 23, offset: 25560},
 																											expr: &litMatcher{
-																												pos:        position{line: 791, col: 23, offset: 25459},
+																												pos:        position{line: 793, col: 23, offset: 25560},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -29386,12 +29386,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 793, col: 8, offset: 25543},
+																							pos: position{line: 795, col: 8, offset: 25644},
 																							expr: &actionExpr{
-																								pos: position{line: 2910, col: 10, offset: 91824},
+																								pos: position{line: 2912, col: 10, offset: 91925},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2910, col: 10, offset: 91824},
+																									pos:        position{line: 2912, col: 10, offset: 91925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29400,28 +29400,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29430,9 +29430,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -29441,30 +29441,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 798, col: 5, offset: 25691},
+																				pos: position{line: 800, col: 5, offset: 25792},
 																				run: (*parser).callonExtraListElement777,
 																				expr: &seqExpr{
-																					pos: position{line: 798, col: 5, offset: 25691},
+																					pos: position{line: 800, col: 5, offset: 25792},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 798, col: 5, offset: 25691},
+																							pos:   position{line: 800, col: 5, offset: 25792},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 798, col: 16, offset: 25702},
+																								pos: position{line: 800, col: 16, offset: 25803},
 																								run: (*parser).callonExtraListElement780,
 																								expr: &seqExpr{
-																									pos: position{line: 798, col: 16, offset: 25702},
+																									pos: position{line: 800, col: 16, offset: 25803},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 798, col: 16, offset: 25702},
+																											pos:        position{line: 800, col: 16, offset: 25803},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 798, col: 23, offset: 25709},
+																											pos: position{line: 800, col: 23, offset: 25810},
 																											expr: &litMatcher{
-																												pos:        position{line: 798, col: 23, offset: 25709},
+																												pos:        position{line: 800, col: 23, offset: 25810},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -29475,12 +29475,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 800, col: 8, offset: 25793},
+																							pos: position{line: 802, col: 8, offset: 25894},
 																							expr: &actionExpr{
-																								pos: position{line: 2910, col: 10, offset: 91824},
+																								pos: position{line: 2912, col: 10, offset: 91925},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2910, col: 10, offset: 91824},
+																									pos:        position{line: 2912, col: 10, offset: 91925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29489,28 +29489,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29519,9 +29519,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -29530,30 +29530,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 805, col: 5, offset: 25937},
+																				pos: position{line: 807, col: 5, offset: 26038},
 																				run: (*parser).callonExtraListElement796,
 																				expr: &seqExpr{
-																					pos: position{line: 805, col: 5, offset: 25937},
+																					pos: position{line: 807, col: 5, offset: 26038},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 805, col: 5, offset: 25937},
+																							pos:   position{line: 807, col: 5, offset: 26038},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 805, col: 16, offset: 25948},
+																								pos: position{line: 807, col: 16, offset: 26049},
 																								run: (*parser).callonExtraListElement799,
 																								expr: &seqExpr{
-																									pos: position{line: 805, col: 16, offset: 25948},
+																									pos: position{line: 807, col: 16, offset: 26049},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 805, col: 16, offset: 25948},
+																											pos:        position{line: 807, col: 16, offset: 26049},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 805, col: 23, offset: 25955},
+																											pos: position{line: 807, col: 23, offset: 26056},
 																											expr: &litMatcher{
-																												pos:        position{line: 805, col: 23, offset: 25955},
+																												pos:        position{line: 807, col: 23, offset: 26056},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -29564,12 +29564,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 807, col: 8, offset: 26039},
+																							pos: position{line: 809, col: 8, offset: 26140},
 																							expr: &actionExpr{
-																								pos: position{line: 2910, col: 10, offset: 91824},
+																								pos: position{line: 2912, col: 10, offset: 91925},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2910, col: 10, offset: 91824},
+																									pos:        position{line: 2912, col: 10, offset: 91925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29578,28 +29578,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29608,9 +29608,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -29626,15 +29626,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1518, col: 5, offset: 49221},
+													pos:   position{line: 1520, col: 5, offset: 49322},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 14, offset: 90417},
+														pos: position{line: 2862, col: 14, offset: 90518},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2860, col: 14, offset: 90417},
+															pos: position{line: 2862, col: 14, offset: 90518},
 															expr: &charClassMatcher{
-																pos:        position{line: 2860, col: 14, offset: 90417},
+																pos:        position{line: 2862, col: 14, offset: 90518},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29644,28 +29644,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2932, col: 8, offset: 92222},
+													pos: position{line: 2934, col: 8, offset: 92323},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2919, col: 12, offset: 91995},
+															pos: position{line: 2921, col: 12, offset: 92096},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2919, col: 13, offset: 91996},
+																pos: position{line: 2921, col: 13, offset: 92097},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 13, offset: 91996},
+																		pos:        position{line: 2921, col: 13, offset: 92097},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 20, offset: 92003},
+																		pos:        position{line: 2921, col: 20, offset: 92104},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 29, offset: 92012},
+																		pos:        position{line: 2921, col: 29, offset: 92113},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29674,9 +29674,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2929, col: 8, offset: 92172},
+															pos: position{line: 2931, col: 8, offset: 92273},
 															expr: &anyMatcher{
-																line: 2929, col: 9, offset: 92173,
+																line: 2931, col: 9, offset: 92274,
 															},
 														},
 													},
@@ -29693,28 +29693,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1534, col: 1, offset: 49612},
+			pos:  position{line: 1536, col: 1, offset: 49713},
 			expr: &actionExpr{
-				pos: position{line: 1535, col: 5, offset: 49637},
+				pos: position{line: 1537, col: 5, offset: 49738},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1535, col: 5, offset: 49637},
+					pos: position{line: 1537, col: 5, offset: 49738},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1535, col: 5, offset: 49637},
+							pos:   position{line: 1537, col: 5, offset: 49738},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1535, col: 12, offset: 49644},
+								pos: position{line: 1537, col: 12, offset: 49745},
 								expr: &seqExpr{
-									pos: position{line: 1535, col: 13, offset: 49645},
+									pos: position{line: 1537, col: 13, offset: 49746},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1535, col: 13, offset: 49645},
+											pos: position{line: 1537, col: 13, offset: 49746},
 											expr: &actionExpr{
-												pos: position{line: 2910, col: 10, offset: 91824},
+												pos: position{line: 2912, col: 10, offset: 91925},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2910, col: 10, offset: 91824},
+													pos:        position{line: 2912, col: 10, offset: 91925},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29723,25 +29723,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2919, col: 12, offset: 91995},
+											pos: position{line: 2921, col: 12, offset: 92096},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2919, col: 13, offset: 91996},
+												pos: position{line: 2921, col: 13, offset: 92097},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2919, col: 13, offset: 91996},
+														pos:        position{line: 2921, col: 13, offset: 92097},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2919, col: 20, offset: 92003},
+														pos:        position{line: 2921, col: 20, offset: 92104},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2919, col: 29, offset: 92012},
+														pos:        position{line: 2921, col: 29, offset: 92113},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29754,18 +29754,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1543, col: 27, offset: 49883},
+							pos:        position{line: 1545, col: 27, offset: 49984},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1543, col: 31, offset: 49887},
+							pos: position{line: 1545, col: 31, offset: 49988},
 							expr: &actionExpr{
-								pos: position{line: 2910, col: 10, offset: 91824},
+								pos: position{line: 2912, col: 10, offset: 91925},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2910, col: 10, offset: 91824},
+									pos:        position{line: 2912, col: 10, offset: 91925},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29774,25 +29774,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2919, col: 12, offset: 91995},
+							pos: position{line: 2921, col: 12, offset: 92096},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2919, col: 13, offset: 91996},
+								pos: position{line: 2921, col: 13, offset: 92097},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2919, col: 13, offset: 91996},
+										pos:        position{line: 2921, col: 13, offset: 92097},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2919, col: 20, offset: 92003},
+										pos:        position{line: 2921, col: 20, offset: 92104},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2919, col: 29, offset: 92012},
+										pos:        position{line: 2921, col: 29, offset: 92113},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29801,38 +29801,38 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1537, col: 5, offset: 49694},
+							pos: position{line: 1539, col: 5, offset: 49795},
 							expr: &actionExpr{
-								pos: position{line: 2513, col: 22, offset: 80602},
+								pos: position{line: 2515, col: 22, offset: 80703},
 								run: (*parser).callonListContinuation24,
 								expr: &seqExpr{
-									pos: position{line: 2513, col: 22, offset: 80602},
+									pos: position{line: 2515, col: 22, offset: 80703},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2518, col: 31, offset: 80852},
+											pos:        position{line: 2520, col: 31, offset: 80953},
 											val:        "//",
 											ignoreCase: false,
 											want:       "\"//\"",
 										},
 										&notExpr{
-											pos: position{line: 2518, col: 36, offset: 80857},
+											pos: position{line: 2520, col: 36, offset: 80958},
 											expr: &litMatcher{
-												pos:        position{line: 2518, col: 37, offset: 80858},
+												pos:        position{line: 2520, col: 37, offset: 80959},
 												val:        "/",
 												ignoreCase: false,
 												want:       "\"/\"",
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2513, col: 49, offset: 80629},
+											pos:   position{line: 2515, col: 49, offset: 80730},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2856, col: 13, offset: 90350},
+												pos: position{line: 2858, col: 13, offset: 90451},
 												run: (*parser).callonListContinuation30,
 												expr: &zeroOrMoreExpr{
-													pos: position{line: 2856, col: 13, offset: 90350},
+													pos: position{line: 2858, col: 13, offset: 90451},
 													expr: &charClassMatcher{
-														pos:        position{line: 2856, col: 13, offset: 90350},
+														pos:        position{line: 2858, col: 13, offset: 90451},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -29842,28 +29842,28 @@ var g = &grammar{
 											},
 										},
 										&choiceExpr{
-											pos: position{line: 2932, col: 8, offset: 92222},
+											pos: position{line: 2934, col: 8, offset: 92323},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2919, col: 12, offset: 91995},
+													pos: position{line: 2921, col: 12, offset: 92096},
 													run: (*parser).callonListContinuation34,
 													expr: &choiceExpr{
-														pos: position{line: 2919, col: 13, offset: 91996},
+														pos: position{line: 2921, col: 13, offset: 92097},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2919, col: 13, offset: 91996},
+																pos:        position{line: 2921, col: 13, offset: 92097},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2919, col: 20, offset: 92003},
+																pos:        position{line: 2921, col: 20, offset: 92104},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2919, col: 29, offset: 92012},
+																pos:        position{line: 2921, col: 29, offset: 92113},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -29872,9 +29872,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2929, col: 8, offset: 92172},
+													pos: position{line: 2931, col: 8, offset: 92273},
 													expr: &anyMatcher{
-														line: 2929, col: 9, offset: 92173,
+														line: 2931, col: 9, offset: 92274,
 													},
 												},
 											},
@@ -29884,12 +29884,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1538, col: 5, offset: 49728},
+							pos:   position{line: 1540, col: 5, offset: 49829},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1538, col: 13, offset: 49736},
+								pos: position{line: 1540, col: 13, offset: 49837},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1538, col: 13, offset: 49736},
+									pos:  position{line: 1540, col: 13, offset: 49837},
 									name: "ListContinuationElement",
 								},
 							},
@@ -29900,46 +29900,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1545, col: 1, offset: 49903},
+			pos:  position{line: 1547, col: 1, offset: 50004},
 			expr: &actionExpr{
-				pos: position{line: 1546, col: 5, offset: 49974},
+				pos: position{line: 1548, col: 5, offset: 50075},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1546, col: 5, offset: 49974},
+					pos: position{line: 1548, col: 5, offset: 50075},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2927, col: 11, offset: 92158},
+							pos: position{line: 2929, col: 11, offset: 92259},
 							expr: &anyMatcher{
-								line: 2927, col: 13, offset: 92160,
+								line: 2929, col: 13, offset: 92261,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1547, col: 5, offset: 50002},
+							pos: position{line: 1549, col: 5, offset: 50103},
 							expr: &choiceExpr{
-								pos: position{line: 1483, col: 5, offset: 47926},
+								pos: position{line: 1485, col: 5, offset: 48027},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1577, col: 5, offset: 50894},
+										pos: position{line: 1579, col: 5, offset: 50995},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1577, col: 5, offset: 50894},
+											pos: position{line: 1579, col: 5, offset: 50995},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1577, col: 5, offset: 50894},
+													pos:   position{line: 1579, col: 5, offset: 50995},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1584, col: 5, offset: 51102},
+														pos: position{line: 1586, col: 5, offset: 51203},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1584, col: 5, offset: 51102},
+															pos: position{line: 1586, col: 5, offset: 51203},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1584, col: 5, offset: 51102},
+																	pos: position{line: 1586, col: 5, offset: 51203},
 																	expr: &actionExpr{
-																		pos: position{line: 2910, col: 10, offset: 91824},
+																		pos: position{line: 2912, col: 10, offset: 91925},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2910, col: 10, offset: 91824},
+																			pos:        position{line: 2912, col: 10, offset: 91925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29948,27 +29948,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1584, col: 12, offset: 51109},
+																	pos:   position{line: 1586, col: 12, offset: 51210},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1586, col: 9, offset: 51172},
+																		pos: position{line: 1588, col: 9, offset: 51273},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1586, col: 9, offset: 51172},
+																				pos: position{line: 1588, col: 9, offset: 51273},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1586, col: 9, offset: 51172},
+																					pos: position{line: 1588, col: 9, offset: 51273},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1586, col: 9, offset: 51172},
+																							pos:   position{line: 1588, col: 9, offset: 51273},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1586, col: 16, offset: 51179},
+																								pos: position{line: 1588, col: 16, offset: 51280},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1586, col: 16, offset: 51179},
+																									pos: position{line: 1588, col: 16, offset: 51280},
 																									expr: &litMatcher{
-																										pos:        position{line: 1586, col: 17, offset: 51180},
+																										pos:        position{line: 1588, col: 17, offset: 51281},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29977,22 +29977,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1590, col: 9, offset: 51280},
+																							pos: position{line: 1592, col: 9, offset: 51381},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1609, col: 11, offset: 51997},
+																				pos: position{line: 1611, col: 11, offset: 52098},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1609, col: 11, offset: 51997},
+																					pos: position{line: 1611, col: 11, offset: 52098},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1609, col: 11, offset: 51997},
+																							pos: position{line: 1611, col: 11, offset: 52098},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1609, col: 12, offset: 51998},
+																								pos:        position{line: 1611, col: 12, offset: 52099},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -30000,7 +30000,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1609, col: 20, offset: 52006},
+																							pos:        position{line: 1611, col: 20, offset: 52107},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30009,20 +30009,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1611, col: 13, offset: 52123},
+																				pos: position{line: 1613, col: 13, offset: 52224},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1611, col: 13, offset: 52123},
+																					pos: position{line: 1613, col: 13, offset: 52224},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1611, col: 14, offset: 52124},
+																							pos:        position{line: 1613, col: 14, offset: 52225},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1611, col: 21, offset: 52131},
+																							pos:        position{line: 1613, col: 21, offset: 52232},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30031,20 +30031,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1613, col: 13, offset: 52251},
+																				pos: position{line: 1615, col: 13, offset: 52352},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1613, col: 13, offset: 52251},
+																					pos: position{line: 1615, col: 13, offset: 52352},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1613, col: 14, offset: 52252},
+																							pos:        position{line: 1615, col: 14, offset: 52353},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1613, col: 21, offset: 52259},
+																							pos:        position{line: 1615, col: 21, offset: 52360},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30053,15 +30053,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1615, col: 13, offset: 52379},
+																				pos: position{line: 1617, col: 13, offset: 52480},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1615, col: 13, offset: 52379},
+																					pos: position{line: 1617, col: 13, offset: 52480},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1615, col: 13, offset: 52379},
+																							pos: position{line: 1617, col: 13, offset: 52480},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1615, col: 14, offset: 52380},
+																								pos:        position{line: 1617, col: 14, offset: 52481},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -30069,7 +30069,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1615, col: 26, offset: 52392},
+																							pos:        position{line: 1617, col: 26, offset: 52493},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30078,15 +30078,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1617, col: 13, offset: 52512},
+																				pos: position{line: 1619, col: 13, offset: 52613},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 13, offset: 52512},
+																					pos: position{line: 1619, col: 13, offset: 52613},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1617, col: 13, offset: 52512},
+																							pos: position{line: 1619, col: 13, offset: 52613},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1617, col: 14, offset: 52513},
+																								pos:        position{line: 1619, col: 14, offset: 52614},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -30094,7 +30094,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1617, col: 26, offset: 52525},
+																							pos:        position{line: 1619, col: 26, offset: 52626},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30106,12 +30106,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2914, col: 11, offset: 91885},
+																	pos: position{line: 2916, col: 11, offset: 91986},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2914, col: 11, offset: 91885},
+																		pos: position{line: 2916, col: 11, offset: 91986},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2914, col: 11, offset: 91885},
+																			pos:        position{line: 2916, col: 11, offset: 91986},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30124,26 +30124,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1578, col: 5, offset: 50933},
+													pos:   position{line: 1580, col: 5, offset: 51034},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1524, col: 5, offset: 49366},
+														pos: position{line: 1526, col: 5, offset: 49467},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1524, col: 5, offset: 49366},
+															pos: position{line: 1526, col: 5, offset: 49467},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1524, col: 5, offset: 49366},
+																	pos:   position{line: 1526, col: 5, offset: 49467},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1524, col: 14, offset: 49375},
+																		pos: position{line: 1526, col: 14, offset: 49476},
 																		expr: &actionExpr{
-																			pos: position{line: 1524, col: 15, offset: 49376},
+																			pos: position{line: 1526, col: 15, offset: 49477},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1524, col: 15, offset: 49376},
+																				pos: position{line: 1526, col: 15, offset: 49477},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1524, col: 15, offset: 49376},
+																					pos:        position{line: 1526, col: 15, offset: 49477},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30154,28 +30154,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2932, col: 8, offset: 92222},
+																	pos: position{line: 2934, col: 8, offset: 92323},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2919, col: 12, offset: 91995},
+																			pos: position{line: 2921, col: 12, offset: 92096},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2919, col: 13, offset: 91996},
+																				pos: position{line: 2921, col: 13, offset: 92097},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 13, offset: 91996},
+																						pos:        position{line: 2921, col: 13, offset: 92097},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 20, offset: 92003},
+																						pos:        position{line: 2921, col: 20, offset: 92104},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 29, offset: 92012},
+																						pos:        position{line: 2921, col: 29, offset: 92113},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30184,9 +30184,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2929, col: 8, offset: 92172},
+																			pos: position{line: 2931, col: 8, offset: 92273},
 																			expr: &anyMatcher{
-																				line: 2929, col: 9, offset: 92173,
+																				line: 2931, col: 9, offset: 92274,
 																			},
 																		},
 																	},
@@ -30199,27 +30199,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1627, col: 5, offset: 52791},
+										pos: position{line: 1629, col: 5, offset: 52892},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1627, col: 5, offset: 52791},
+											pos: position{line: 1629, col: 5, offset: 52892},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1627, col: 5, offset: 52791},
+													pos:   position{line: 1629, col: 5, offset: 52892},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1634, col: 5, offset: 53064},
+														pos: position{line: 1636, col: 5, offset: 53165},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1634, col: 5, offset: 53064},
+															pos: position{line: 1636, col: 5, offset: 53165},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1634, col: 5, offset: 53064},
+																	pos: position{line: 1636, col: 5, offset: 53165},
 																	expr: &actionExpr{
-																		pos: position{line: 2910, col: 10, offset: 91824},
+																		pos: position{line: 2912, col: 10, offset: 91925},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2910, col: 10, offset: 91824},
+																			pos:        position{line: 2912, col: 10, offset: 91925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30228,24 +30228,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1635, col: 5, offset: 53076},
+																	pos:   position{line: 1637, col: 5, offset: 53177},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1636, col: 9, offset: 53092},
+																		pos: position{line: 1638, col: 9, offset: 53193},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1636, col: 10, offset: 53093},
+																			pos: position{line: 1638, col: 10, offset: 53194},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1636, col: 11, offset: 53094},
+																					pos:        position{line: 1638, col: 11, offset: 53195},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1636, col: 18, offset: 53101},
+																					pos: position{line: 1638, col: 18, offset: 53202},
 																					expr: &litMatcher{
-																						pos:        position{line: 1636, col: 19, offset: 53102},
+																						pos:        position{line: 1638, col: 19, offset: 53203},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -30256,16 +30256,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1639, col: 7, offset: 53192},
+																	pos: position{line: 1641, col: 7, offset: 53293},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2914, col: 11, offset: 91885},
+																	pos: position{line: 2916, col: 11, offset: 91986},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2914, col: 11, offset: 91885},
+																		pos: position{line: 2916, col: 11, offset: 91986},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2914, col: 11, offset: 91885},
+																			pos:        position{line: 2916, col: 11, offset: 91986},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30278,56 +30278,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1628, col: 5, offset: 52832},
+													pos:   position{line: 1630, col: 5, offset: 52933},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1628, col: 16, offset: 52843},
+														pos: position{line: 1630, col: 16, offset: 52944},
 														expr: &actionExpr{
-															pos: position{line: 1649, col: 5, offset: 53457},
+															pos: position{line: 1651, col: 5, offset: 53558},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1649, col: 5, offset: 53457},
+																pos: position{line: 1651, col: 5, offset: 53558},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1649, col: 5, offset: 53457},
+																		pos: position{line: 1651, col: 5, offset: 53558},
 																		expr: &litMatcher{
-																			pos:        position{line: 1649, col: 6, offset: 53458},
+																			pos:        position{line: 1651, col: 6, offset: 53559},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1649, col: 10, offset: 53462},
+																		pos:   position{line: 1651, col: 10, offset: 53563},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1650, col: 7, offset: 53476},
+																			pos: position{line: 1652, col: 7, offset: 53577},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1650, col: 7, offset: 53476},
+																					pos: position{line: 1652, col: 7, offset: 53577},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1650, col: 7, offset: 53476},
+																						pos:        position{line: 1652, col: 7, offset: 53577},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1651, col: 7, offset: 53521},
+																					pos: position{line: 1653, col: 7, offset: 53622},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1651, col: 7, offset: 53521},
+																						pos:        position{line: 1653, col: 7, offset: 53622},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1652, col: 7, offset: 53564},
+																					pos: position{line: 1654, col: 7, offset: 53665},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1652, col: 7, offset: 53564},
+																						pos:        position{line: 1654, col: 7, offset: 53665},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -30337,12 +30337,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2914, col: 11, offset: 91885},
+																		pos: position{line: 2916, col: 11, offset: 91986},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2914, col: 11, offset: 91885},
+																			pos: position{line: 2916, col: 11, offset: 91986},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2914, col: 11, offset: 91885},
+																				pos:        position{line: 2916, col: 11, offset: 91986},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30356,26 +30356,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1629, col: 5, offset: 52882},
+													pos:   position{line: 1631, col: 5, offset: 52983},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1524, col: 5, offset: 49366},
+														pos: position{line: 1526, col: 5, offset: 49467},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1524, col: 5, offset: 49366},
+															pos: position{line: 1526, col: 5, offset: 49467},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1524, col: 5, offset: 49366},
+																	pos:   position{line: 1526, col: 5, offset: 49467},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1524, col: 14, offset: 49375},
+																		pos: position{line: 1526, col: 14, offset: 49476},
 																		expr: &actionExpr{
-																			pos: position{line: 1524, col: 15, offset: 49376},
+																			pos: position{line: 1526, col: 15, offset: 49477},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1524, col: 15, offset: 49376},
+																				pos: position{line: 1526, col: 15, offset: 49477},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1524, col: 15, offset: 49376},
+																					pos:        position{line: 1526, col: 15, offset: 49477},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30386,28 +30386,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2932, col: 8, offset: 92222},
+																	pos: position{line: 2934, col: 8, offset: 92323},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2919, col: 12, offset: 91995},
+																			pos: position{line: 2921, col: 12, offset: 92096},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2919, col: 13, offset: 91996},
+																				pos: position{line: 2921, col: 13, offset: 92097},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 13, offset: 91996},
+																						pos:        position{line: 2921, col: 13, offset: 92097},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 20, offset: 92003},
+																						pos:        position{line: 2921, col: 20, offset: 92104},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 29, offset: 92012},
+																						pos:        position{line: 2921, col: 29, offset: 92113},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30416,9 +30416,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2929, col: 8, offset: 92172},
+																			pos: position{line: 2931, col: 8, offset: 92273},
 																			expr: &anyMatcher{
-																				line: 2929, col: 9, offset: 92173,
+																				line: 2931, col: 9, offset: 92274,
 																			},
 																		},
 																	},
@@ -30431,36 +30431,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1718, col: 5, offset: 55436},
+										pos: position{line: 1720, col: 5, offset: 55537},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1718, col: 5, offset: 55436},
+											pos: position{line: 1720, col: 5, offset: 55537},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1718, col: 5, offset: 55436},
+													pos:   position{line: 1720, col: 5, offset: 55537},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1724, col: 5, offset: 55633},
+														pos: position{line: 1726, col: 5, offset: 55734},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1724, col: 5, offset: 55633},
+															pos: position{line: 1726, col: 5, offset: 55734},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1724, col: 5, offset: 55633},
+																	pos:        position{line: 1726, col: 5, offset: 55734},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1724, col: 9, offset: 55637},
+																	pos:   position{line: 1726, col: 9, offset: 55738},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1724, col: 14, offset: 55642},
+																		pos: position{line: 1726, col: 14, offset: 55743},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1724, col: 14, offset: 55642},
+																			pos: position{line: 1726, col: 14, offset: 55743},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1724, col: 14, offset: 55642},
+																				pos:        position{line: 1726, col: 14, offset: 55743},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30470,18 +30470,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1724, col: 62, offset: 55690},
+																	pos:        position{line: 1726, col: 62, offset: 55791},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2914, col: 11, offset: 91885},
+																	pos: position{line: 2916, col: 11, offset: 91986},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2914, col: 11, offset: 91885},
+																		pos: position{line: 2916, col: 11, offset: 91986},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2914, col: 11, offset: 91885},
+																			pos:        position{line: 2916, col: 11, offset: 91986},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30494,26 +30494,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1719, col: 5, offset: 55472},
+													pos:   position{line: 1721, col: 5, offset: 55573},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1524, col: 5, offset: 49366},
+														pos: position{line: 1526, col: 5, offset: 49467},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1524, col: 5, offset: 49366},
+															pos: position{line: 1526, col: 5, offset: 49467},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1524, col: 5, offset: 49366},
+																	pos:   position{line: 1526, col: 5, offset: 49467},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1524, col: 14, offset: 49375},
+																		pos: position{line: 1526, col: 14, offset: 49476},
 																		expr: &actionExpr{
-																			pos: position{line: 1524, col: 15, offset: 49376},
+																			pos: position{line: 1526, col: 15, offset: 49477},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1524, col: 15, offset: 49376},
+																				pos: position{line: 1526, col: 15, offset: 49477},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1524, col: 15, offset: 49376},
+																					pos:        position{line: 1526, col: 15, offset: 49477},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30524,28 +30524,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2932, col: 8, offset: 92222},
+																	pos: position{line: 2934, col: 8, offset: 92323},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2919, col: 12, offset: 91995},
+																			pos: position{line: 2921, col: 12, offset: 92096},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2919, col: 13, offset: 91996},
+																				pos: position{line: 2921, col: 13, offset: 92097},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 13, offset: 91996},
+																						pos:        position{line: 2921, col: 13, offset: 92097},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 20, offset: 92003},
+																						pos:        position{line: 2921, col: 20, offset: 92104},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 29, offset: 92012},
+																						pos:        position{line: 2921, col: 29, offset: 92113},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30554,9 +30554,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2929, col: 8, offset: 92172},
+																			pos: position{line: 2931, col: 8, offset: 92273},
 																			expr: &anyMatcher{
-																				line: 2929, col: 9, offset: 92173,
+																				line: 2931, col: 9, offset: 92274,
 																			},
 																		},
 																	},
@@ -30569,35 +30569,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1661, col: 5, offset: 53757},
+										pos: position{line: 1663, col: 5, offset: 53858},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1661, col: 5, offset: 53757},
+											pos: position{line: 1663, col: 5, offset: 53858},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1661, col: 5, offset: 53757},
+													pos:   position{line: 1663, col: 5, offset: 53858},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1669, col: 5, offset: 54083},
+														pos: position{line: 1671, col: 5, offset: 54184},
 														run: (*parser).callonListContinuationElement150,
 														expr: &seqExpr{
-															pos: position{line: 1669, col: 5, offset: 54083},
+															pos: position{line: 1671, col: 5, offset: 54184},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1669, col: 5, offset: 54083},
+																	pos: position{line: 1671, col: 5, offset: 54184},
 																	expr: &seqExpr{
-																		pos: position{line: 2518, col: 31, offset: 80852},
+																		pos: position{line: 2520, col: 31, offset: 80953},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2518, col: 31, offset: 80852},
+																				pos:        position{line: 2520, col: 31, offset: 80953},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2518, col: 36, offset: 80857},
+																				pos: position{line: 2520, col: 36, offset: 80958},
 																				expr: &litMatcher{
-																					pos:        position{line: 2518, col: 37, offset: 80858},
+																					pos:        position{line: 2520, col: 37, offset: 80959},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -30607,28 +30607,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1670, col: 5, offset: 54115},
+																	pos: position{line: 1672, col: 5, offset: 54216},
 																	expr: &seqExpr{
-																		pos: position{line: 1670, col: 6, offset: 54116},
+																		pos: position{line: 1672, col: 6, offset: 54217},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1670, col: 6, offset: 54116},
+																				pos: position{line: 1672, col: 6, offset: 54217},
 																				expr: &actionExpr{
-																					pos: position{line: 1675, col: 5, offset: 54266},
+																					pos: position{line: 1677, col: 5, offset: 54367},
 																					run: (*parser).callonListContinuationElement160,
 																					expr: &seqExpr{
-																						pos: position{line: 1675, col: 5, offset: 54266},
+																						pos: position{line: 1677, col: 5, offset: 54367},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1675, col: 5, offset: 54266},
+																								pos:   position{line: 1677, col: 5, offset: 54367},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1675, col: 16, offset: 54277},
+																									pos: position{line: 1677, col: 16, offset: 54378},
 																									run: (*parser).callonListContinuationElement163,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1675, col: 16, offset: 54277},
+																										pos: position{line: 1677, col: 16, offset: 54378},
 																										expr: &litMatcher{
-																											pos:        position{line: 1675, col: 17, offset: 54278},
+																											pos:        position{line: 1677, col: 17, offset: 54379},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -30637,7 +30637,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1678, col: 5, offset: 54335},
+																								pos: position{line: 1680, col: 5, offset: 54436},
 																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
@@ -30645,30 +30645,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1670, col: 35, offset: 54145},
+																				pos: position{line: 1672, col: 35, offset: 54246},
 																				expr: &choiceExpr{
-																					pos: position{line: 2932, col: 8, offset: 92222},
+																					pos: position{line: 2934, col: 8, offset: 92323},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2919, col: 12, offset: 91995},
+																							pos: position{line: 2921, col: 12, offset: 92096},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2919, col: 13, offset: 91996},
+																								pos: position{line: 2921, col: 13, offset: 92097},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 13, offset: 91996},
+																										pos:        position{line: 2921, col: 13, offset: 92097},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 20, offset: 92003},
+																										pos:        position{line: 2921, col: 20, offset: 92104},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 29, offset: 92012},
+																										pos:        position{line: 2921, col: 29, offset: 92113},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30677,16 +30677,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2929, col: 8, offset: 92172},
+																							pos: position{line: 2931, col: 8, offset: 92273},
 																							expr: &anyMatcher{
-																								line: 2929, col: 9, offset: 92173,
+																								line: 2931, col: 9, offset: 92274,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1670, col: 40, offset: 54150,
+																				line: 1672, col: 40, offset: 54251,
 																			},
 																		},
 																	},
@@ -30696,24 +30696,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1662, col: 5, offset: 53792},
+													pos:   position{line: 1664, col: 5, offset: 53893},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1675, col: 5, offset: 54266},
+														pos: position{line: 1677, col: 5, offset: 54367},
 														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1675, col: 5, offset: 54266},
+															pos: position{line: 1677, col: 5, offset: 54367},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1675, col: 5, offset: 54266},
+																	pos:   position{line: 1677, col: 5, offset: 54367},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1675, col: 16, offset: 54277},
+																		pos: position{line: 1677, col: 16, offset: 54378},
 																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1675, col: 16, offset: 54277},
+																			pos: position{line: 1677, col: 16, offset: 54378},
 																			expr: &litMatcher{
-																				pos:        position{line: 1675, col: 17, offset: 54278},
+																				pos:        position{line: 1677, col: 17, offset: 54379},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30722,7 +30722,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1678, col: 5, offset: 54335},
+																	pos: position{line: 1680, col: 5, offset: 54436},
 																	run: (*parser).callonListContinuationElement184,
 																},
 															},
@@ -30730,24 +30730,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1663, col: 5, offset: 53837},
+													pos:   position{line: 1665, col: 5, offset: 53938},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1686, col: 5, offset: 54584},
+														pos: position{line: 1688, col: 5, offset: 54685},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1688, col: 9, offset: 54650},
+																pos: position{line: 1690, col: 9, offset: 54751},
 																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1688, col: 9, offset: 54650},
+																	pos: position{line: 1690, col: 9, offset: 54751},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1688, col: 9, offset: 54650},
+																			pos: position{line: 1690, col: 9, offset: 54751},
 																			expr: &actionExpr{
-																				pos: position{line: 2910, col: 10, offset: 91824},
+																				pos: position{line: 2912, col: 10, offset: 91925},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2910, col: 10, offset: 91824},
+																					pos:        position{line: 2912, col: 10, offset: 91925},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30756,28 +30756,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2932, col: 8, offset: 92222},
+																			pos: position{line: 2934, col: 8, offset: 92323},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2919, col: 12, offset: 91995},
+																					pos: position{line: 2921, col: 12, offset: 92096},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2919, col: 13, offset: 91996},
+																						pos: position{line: 2921, col: 13, offset: 92097},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 13, offset: 91996},
+																								pos:        position{line: 2921, col: 13, offset: 92097},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 20, offset: 92003},
+																								pos:        position{line: 2921, col: 20, offset: 92104},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 29, offset: 92012},
+																								pos:        position{line: 2921, col: 29, offset: 92113},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30786,34 +30786,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1689, col: 9, offset: 54669},
+																			pos: position{line: 1691, col: 9, offset: 54770},
 																			expr: &actionExpr{
-																				pos: position{line: 678, col: 14, offset: 21586},
+																				pos: position{line: 680, col: 14, offset: 21687},
 																				run: (*parser).callonListContinuationElement201,
 																				expr: &seqExpr{
-																					pos: position{line: 678, col: 14, offset: 21586},
+																					pos: position{line: 680, col: 14, offset: 21687},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2927, col: 11, offset: 92158},
+																							pos: position{line: 2929, col: 11, offset: 92259},
 																							expr: &anyMatcher{
-																								line: 2927, col: 13, offset: 92160,
+																								line: 2929, col: 13, offset: 92261,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 678, col: 21, offset: 21593},
+																							pos: position{line: 680, col: 21, offset: 21694},
 																							expr: &actionExpr{
-																								pos: position{line: 2910, col: 10, offset: 91824},
+																								pos: position{line: 2912, col: 10, offset: 91925},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2910, col: 10, offset: 91824},
+																									pos:        position{line: 2912, col: 10, offset: 91925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30822,28 +30822,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30852,9 +30852,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -30867,18 +30867,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1695, col: 9, offset: 54798},
+																pos: position{line: 1697, col: 9, offset: 54899},
 																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1695, col: 9, offset: 54798},
+																	pos: position{line: 1697, col: 9, offset: 54899},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 11, offset: 91885},
+																			pos: position{line: 2916, col: 11, offset: 91986},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2914, col: 11, offset: 91885},
+																				pos: position{line: 2916, col: 11, offset: 91986},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2914, col: 11, offset: 91885},
+																					pos:        position{line: 2916, col: 11, offset: 91986},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30887,15 +30887,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1696, col: 9, offset: 54871},
+																			pos:   position{line: 1698, col: 9, offset: 54972},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1696, col: 18, offset: 54880},
+																				pos: position{line: 1698, col: 18, offset: 54981},
 																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1696, col: 18, offset: 54880},
+																					pos: position{line: 1698, col: 18, offset: 54981},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1696, col: 18, offset: 54880},
+																						pos:        position{line: 1698, col: 18, offset: 54981},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30905,28 +30905,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2932, col: 8, offset: 92222},
+																			pos: position{line: 2934, col: 8, offset: 92323},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2919, col: 12, offset: 91995},
+																					pos: position{line: 2921, col: 12, offset: 92096},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2919, col: 13, offset: 91996},
+																						pos: position{line: 2921, col: 13, offset: 92097},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 13, offset: 91996},
+																								pos:        position{line: 2921, col: 13, offset: 92097},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 20, offset: 92003},
+																								pos:        position{line: 2921, col: 20, offset: 92104},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 29, offset: 92012},
+																								pos:        position{line: 2921, col: 29, offset: 92113},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30935,9 +30935,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
@@ -30955,41 +30955,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1548, col: 5, offset: 50019},
+							pos:   position{line: 1550, col: 5, offset: 50120},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1548, col: 16, offset: 50030},
+								pos: position{line: 1550, col: 16, offset: 50131},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1548, col: 17, offset: 50031},
+									pos:  position{line: 1550, col: 17, offset: 50132},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1549, col: 5, offset: 50053},
+							pos:   position{line: 1551, col: 5, offset: 50154},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1550, col: 9, offset: 50071},
+								pos: position{line: 1552, col: 9, offset: 50172},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 678, col: 14, offset: 21586},
+										pos: position{line: 680, col: 14, offset: 21687},
 										run: (*parser).callonListContinuationElement238,
 										expr: &seqExpr{
-											pos: position{line: 678, col: 14, offset: 21586},
+											pos: position{line: 680, col: 14, offset: 21687},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2927, col: 11, offset: 92158},
+													pos: position{line: 2929, col: 11, offset: 92259},
 													expr: &anyMatcher{
-														line: 2927, col: 13, offset: 92160,
+														line: 2929, col: 13, offset: 92261,
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 678, col: 21, offset: 21593},
+													pos: position{line: 680, col: 21, offset: 21694},
 													expr: &actionExpr{
-														pos: position{line: 2910, col: 10, offset: 91824},
+														pos: position{line: 2912, col: 10, offset: 91925},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2910, col: 10, offset: 91824},
+															pos:        position{line: 2912, col: 10, offset: 91925},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30998,28 +30998,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2932, col: 8, offset: 92222},
+													pos: position{line: 2934, col: 8, offset: 92323},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2919, col: 12, offset: 91995},
+															pos: position{line: 2921, col: 12, offset: 92096},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2919, col: 13, offset: 91996},
+																pos: position{line: 2921, col: 13, offset: 92097},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 13, offset: 91996},
+																		pos:        position{line: 2921, col: 13, offset: 92097},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 20, offset: 92003},
+																		pos:        position{line: 2921, col: 20, offset: 92104},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 29, offset: 92012},
+																		pos:        position{line: 2921, col: 29, offset: 92113},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31028,9 +31028,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2929, col: 8, offset: 92172},
+															pos: position{line: 2931, col: 8, offset: 92273},
 															expr: &anyMatcher{
-																line: 2929, col: 9, offset: 92173,
+																line: 2931, col: 9, offset: 92274,
 															},
 														},
 													},
@@ -31039,32 +31039,32 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1551, col: 11, offset: 50091},
+										pos:  position{line: 1553, col: 11, offset: 50192},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
-										pos: position{line: 360, col: 19, offset: 10910},
+										pos: position{line: 362, col: 19, offset: 11011},
 										run: (*parser).callonListContinuationElement254,
 										expr: &seqExpr{
-											pos: position{line: 360, col: 19, offset: 10910},
+											pos: position{line: 362, col: 19, offset: 11011},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 360, col: 19, offset: 10910},
+													pos:        position{line: 362, col: 19, offset: 11011},
 													val:        ":!",
 													ignoreCase: false,
 													want:       "\":!\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 360, col: 24, offset: 10915},
+													pos:   position{line: 362, col: 24, offset: 11016},
 													label: "name",
 													expr: &actionExpr{
-														pos: position{line: 318, col: 18, offset: 9736},
+														pos: position{line: 320, col: 18, offset: 9837},
 														run: (*parser).callonListContinuationElement258,
 														expr: &seqExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 320, col: 18, offset: 9837},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 318, col: 18, offset: 9736},
+																	pos:        position{line: 320, col: 18, offset: 9837},
 																	val:        "[_\\pL\\pN]",
 																	chars:      []rune{'_'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -31072,9 +31072,9 @@ var g = &grammar{
 																	inverted:   false,
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 318, col: 28, offset: 9746},
+																	pos: position{line: 320, col: 28, offset: 9847},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 318, col: 29, offset: 9747},
+																		pos:        position{line: 320, col: 29, offset: 9848},
 																		val:        "[-\\pL\\pN]",
 																		chars:      []rune{'-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -31087,18 +31087,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 360, col: 45, offset: 10936},
+													pos:        position{line: 362, col: 45, offset: 11037},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 360, col: 49, offset: 10940},
+													pos: position{line: 362, col: 49, offset: 11041},
 													expr: &actionExpr{
-														pos: position{line: 2910, col: 10, offset: 91824},
+														pos: position{line: 2912, col: 10, offset: 91925},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2910, col: 10, offset: 91824},
+															pos:        position{line: 2912, col: 10, offset: 91925},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31107,28 +31107,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2932, col: 8, offset: 92222},
+													pos: position{line: 2934, col: 8, offset: 92323},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2919, col: 12, offset: 91995},
+															pos: position{line: 2921, col: 12, offset: 92096},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2919, col: 13, offset: 91996},
+																pos: position{line: 2921, col: 13, offset: 92097},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 13, offset: 91996},
+																		pos:        position{line: 2921, col: 13, offset: 92097},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 20, offset: 92003},
+																		pos:        position{line: 2921, col: 20, offset: 92104},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 29, offset: 92012},
+																		pos:        position{line: 2921, col: 29, offset: 92113},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31137,9 +31137,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2929, col: 8, offset: 92172},
+															pos: position{line: 2931, col: 8, offset: 92273},
 															expr: &anyMatcher{
-																line: 2929, col: 9, offset: 92173,
+																line: 2931, col: 9, offset: 92274,
 															},
 														},
 													},
@@ -31148,28 +31148,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 362, col: 9, offset: 11031},
+										pos: position{line: 364, col: 9, offset: 11132},
 										run: (*parser).callonListContinuationElement275,
 										expr: &seqExpr{
-											pos: position{line: 362, col: 9, offset: 11031},
+											pos: position{line: 364, col: 9, offset: 11132},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 362, col: 9, offset: 11031},
+													pos:        position{line: 364, col: 9, offset: 11132},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 362, col: 13, offset: 11035},
+													pos:   position{line: 364, col: 13, offset: 11136},
 													label: "name",
 													expr: &actionExpr{
-														pos: position{line: 318, col: 18, offset: 9736},
+														pos: position{line: 320, col: 18, offset: 9837},
 														run: (*parser).callonListContinuationElement279,
 														expr: &seqExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 320, col: 18, offset: 9837},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 318, col: 18, offset: 9736},
+																	pos:        position{line: 320, col: 18, offset: 9837},
 																	val:        "[_\\pL\\pN]",
 																	chars:      []rune{'_'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -31177,9 +31177,9 @@ var g = &grammar{
 																	inverted:   false,
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 318, col: 28, offset: 9746},
+																	pos: position{line: 320, col: 28, offset: 9847},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 318, col: 29, offset: 9747},
+																		pos:        position{line: 320, col: 29, offset: 9848},
 																		val:        "[-\\pL\\pN]",
 																		chars:      []rune{'-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -31192,18 +31192,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 362, col: 34, offset: 11056},
+													pos:        position{line: 364, col: 34, offset: 11157},
 													val:        "!:",
 													ignoreCase: false,
 													want:       "\"!:\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 362, col: 39, offset: 11061},
+													pos: position{line: 364, col: 39, offset: 11162},
 													expr: &actionExpr{
-														pos: position{line: 2910, col: 10, offset: 91824},
+														pos: position{line: 2912, col: 10, offset: 91925},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2910, col: 10, offset: 91824},
+															pos:        position{line: 2912, col: 10, offset: 91925},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31212,28 +31212,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2932, col: 8, offset: 92222},
+													pos: position{line: 2934, col: 8, offset: 92323},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2919, col: 12, offset: 91995},
+															pos: position{line: 2921, col: 12, offset: 92096},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2919, col: 13, offset: 91996},
+																pos: position{line: 2921, col: 13, offset: 92097},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 13, offset: 91996},
+																		pos:        position{line: 2921, col: 13, offset: 92097},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 20, offset: 92003},
+																		pos:        position{line: 2921, col: 20, offset: 92104},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 29, offset: 92012},
+																		pos:        position{line: 2921, col: 29, offset: 92113},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31242,9 +31242,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2929, col: 8, offset: 92172},
+															pos: position{line: 2931, col: 8, offset: 92273},
 															expr: &anyMatcher{
-																line: 2929, col: 9, offset: 92173,
+																line: 2931, col: 9, offset: 92274,
 															},
 														},
 													},
@@ -31253,36 +31253,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 821, col: 5, offset: 26421},
+										pos: position{line: 823, col: 5, offset: 26522},
 										run: (*parser).callonListContinuationElement296,
 										expr: &seqExpr{
-											pos: position{line: 821, col: 5, offset: 26421},
+											pos: position{line: 823, col: 5, offset: 26522},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 741, col: 5, offset: 23681},
+													pos: position{line: 743, col: 5, offset: 23782},
 													run: (*parser).callonListContinuationElement298,
 													expr: &seqExpr{
-														pos: position{line: 741, col: 5, offset: 23681},
+														pos: position{line: 743, col: 5, offset: 23782},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 741, col: 5, offset: 23681},
+																pos:   position{line: 743, col: 5, offset: 23782},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 741, col: 16, offset: 23692},
+																	pos: position{line: 743, col: 16, offset: 23793},
 																	run: (*parser).callonListContinuationElement301,
 																	expr: &seqExpr{
-																		pos: position{line: 741, col: 16, offset: 23692},
+																		pos: position{line: 743, col: 16, offset: 23793},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 741, col: 16, offset: 23692},
+																				pos:        position{line: 743, col: 16, offset: 23793},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 741, col: 23, offset: 23699},
+																				pos: position{line: 743, col: 23, offset: 23800},
 																				expr: &litMatcher{
-																					pos:        position{line: 741, col: 23, offset: 23699},
+																					pos:        position{line: 743, col: 23, offset: 23800},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -31293,12 +31293,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 743, col: 8, offset: 23783},
+																pos: position{line: 745, col: 8, offset: 23884},
 																expr: &actionExpr{
-																	pos: position{line: 2910, col: 10, offset: 91824},
+																	pos: position{line: 2912, col: 10, offset: 91925},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2910, col: 10, offset: 91824},
+																		pos:        position{line: 2912, col: 10, offset: 91925},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31307,28 +31307,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2932, col: 8, offset: 92222},
+																pos: position{line: 2934, col: 8, offset: 92323},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2919, col: 12, offset: 91995},
+																		pos: position{line: 2921, col: 12, offset: 92096},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2919, col: 13, offset: 91996},
+																			pos: position{line: 2921, col: 13, offset: 92097},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2919, col: 13, offset: 91996},
+																					pos:        position{line: 2921, col: 13, offset: 92097},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2919, col: 20, offset: 92003},
+																					pos:        position{line: 2921, col: 20, offset: 92104},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2919, col: 29, offset: 92012},
+																					pos:        position{line: 2921, col: 29, offset: 92113},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31337,9 +31337,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2929, col: 8, offset: 92172},
+																		pos: position{line: 2931, col: 8, offset: 92273},
 																		expr: &anyMatcher{
-																			line: 2929, col: 9, offset: 92173,
+																			line: 2931, col: 9, offset: 92274,
 																		},
 																	},
 																},
@@ -31348,46 +31348,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 822, col: 5, offset: 26452},
+													pos:   position{line: 824, col: 5, offset: 26553},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 832, col: 5, offset: 26738},
+														pos: position{line: 834, col: 5, offset: 26839},
 														expr: &actionExpr{
-															pos: position{line: 832, col: 6, offset: 26739},
+															pos: position{line: 834, col: 6, offset: 26840},
 															run: (*parser).callonListContinuationElement319,
 															expr: &seqExpr{
-																pos: position{line: 832, col: 6, offset: 26739},
+																pos: position{line: 834, col: 6, offset: 26840},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 832, col: 6, offset: 26739},
+																		pos: position{line: 834, col: 6, offset: 26840},
 																		expr: &choiceExpr{
-																			pos: position{line: 829, col: 29, offset: 26681},
+																			pos: position{line: 831, col: 29, offset: 26782},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 741, col: 5, offset: 23681},
+																					pos: position{line: 743, col: 5, offset: 23782},
 																					run: (*parser).callonListContinuationElement323,
 																					expr: &seqExpr{
-																						pos: position{line: 741, col: 5, offset: 23681},
+																						pos: position{line: 743, col: 5, offset: 23782},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 741, col: 5, offset: 23681},
+																								pos:   position{line: 743, col: 5, offset: 23782},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 741, col: 16, offset: 23692},
+																									pos: position{line: 743, col: 16, offset: 23793},
 																									run: (*parser).callonListContinuationElement326,
 																									expr: &seqExpr{
-																										pos: position{line: 741, col: 16, offset: 23692},
+																										pos: position{line: 743, col: 16, offset: 23793},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 741, col: 16, offset: 23692},
+																												pos:        position{line: 743, col: 16, offset: 23793},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 741, col: 23, offset: 23699},
+																												pos: position{line: 743, col: 23, offset: 23800},
 																												expr: &litMatcher{
-																													pos:        position{line: 741, col: 23, offset: 23699},
+																													pos:        position{line: 743, col: 23, offset: 23800},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -31398,12 +31398,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 743, col: 8, offset: 23783},
+																								pos: position{line: 745, col: 8, offset: 23884},
 																								expr: &actionExpr{
-																									pos: position{line: 2910, col: 10, offset: 91824},
+																									pos: position{line: 2912, col: 10, offset: 91925},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2910, col: 10, offset: 91824},
+																										pos:        position{line: 2912, col: 10, offset: 91925},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -31412,28 +31412,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2932, col: 8, offset: 92222},
+																								pos: position{line: 2934, col: 8, offset: 92323},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2919, col: 12, offset: 91995},
+																										pos: position{line: 2921, col: 12, offset: 92096},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2919, col: 13, offset: 91996},
+																											pos: position{line: 2921, col: 13, offset: 92097},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 13, offset: 91996},
+																													pos:        position{line: 2921, col: 13, offset: 92097},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 20, offset: 92003},
+																													pos:        position{line: 2921, col: 20, offset: 92104},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 29, offset: 92012},
+																													pos:        position{line: 2921, col: 29, offset: 92113},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -31442,9 +31442,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2929, col: 8, offset: 92172},
+																										pos: position{line: 2931, col: 8, offset: 92273},
 																										expr: &anyMatcher{
-																											line: 2929, col: 9, offset: 92173,
+																											line: 2931, col: 9, offset: 92274,
 																										},
 																									},
 																								},
@@ -31453,39 +31453,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 833, col: 5, offset: 26769},
+																		pos:   position{line: 835, col: 5, offset: 26870},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26185},
+																			pos: position{line: 814, col: 5, offset: 26286},
 																			run: (*parser).callonListContinuationElement345,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26185},
+																				pos: position{line: 814, col: 5, offset: 26286},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2927, col: 11, offset: 92158},
+																						pos: position{line: 2929, col: 11, offset: 92259},
 																						expr: &anyMatcher{
-																							line: 2927, col: 13, offset: 92160,
+																							line: 2929, col: 13, offset: 92261,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26260},
+																						pos:   position{line: 815, col: 5, offset: 26361},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2856, col: 13, offset: 90350},
+																							pos: position{line: 2858, col: 13, offset: 90451},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2856, col: 13, offset: 90350},
+																								pos: position{line: 2858, col: 13, offset: 90451},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 13, offset: 90350},
+																									pos:        position{line: 2858, col: 13, offset: 90451},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31495,28 +31495,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2932, col: 8, offset: 92222},
+																						pos: position{line: 2934, col: 8, offset: 92323},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2919, col: 12, offset: 91995},
+																								pos: position{line: 2921, col: 12, offset: 92096},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2919, col: 13, offset: 91996},
+																									pos: position{line: 2921, col: 13, offset: 92097},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 13, offset: 91996},
+																											pos:        position{line: 2921, col: 13, offset: 92097},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 20, offset: 92003},
+																											pos:        position{line: 2921, col: 20, offset: 92104},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 29, offset: 92012},
+																											pos:        position{line: 2921, col: 29, offset: 92113},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31525,9 +31525,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2929, col: 8, offset: 92172},
+																								pos: position{line: 2931, col: 8, offset: 92273},
 																								expr: &anyMatcher{
-																									line: 2929, col: 9, offset: 92173,
+																									line: 2931, col: 9, offset: 92274,
 																								},
 																							},
 																						},
@@ -31542,35 +31542,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 823, col: 5, offset: 26486},
+													pos: position{line: 825, col: 5, offset: 26587},
 													expr: &choiceExpr{
-														pos: position{line: 829, col: 29, offset: 26681},
+														pos: position{line: 831, col: 29, offset: 26782},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 741, col: 5, offset: 23681},
+																pos: position{line: 743, col: 5, offset: 23782},
 																run: (*parser).callonListContinuationElement363,
 																expr: &seqExpr{
-																	pos: position{line: 741, col: 5, offset: 23681},
+																	pos: position{line: 743, col: 5, offset: 23782},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 741, col: 5, offset: 23681},
+																			pos:   position{line: 743, col: 5, offset: 23782},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 741, col: 16, offset: 23692},
+																				pos: position{line: 743, col: 16, offset: 23793},
 																				run: (*parser).callonListContinuationElement366,
 																				expr: &seqExpr{
-																					pos: position{line: 741, col: 16, offset: 23692},
+																					pos: position{line: 743, col: 16, offset: 23793},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 741, col: 16, offset: 23692},
+																							pos:        position{line: 743, col: 16, offset: 23793},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 741, col: 23, offset: 23699},
+																							pos: position{line: 743, col: 23, offset: 23800},
 																							expr: &litMatcher{
-																								pos:        position{line: 741, col: 23, offset: 23699},
+																								pos:        position{line: 743, col: 23, offset: 23800},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -31581,12 +31581,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 743, col: 8, offset: 23783},
+																			pos: position{line: 745, col: 8, offset: 23884},
 																			expr: &actionExpr{
-																				pos: position{line: 2910, col: 10, offset: 91824},
+																				pos: position{line: 2912, col: 10, offset: 91925},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2910, col: 10, offset: 91824},
+																					pos:        position{line: 2912, col: 10, offset: 91925},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31595,28 +31595,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2932, col: 8, offset: 92222},
+																			pos: position{line: 2934, col: 8, offset: 92323},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2919, col: 12, offset: 91995},
+																					pos: position{line: 2921, col: 12, offset: 92096},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2919, col: 13, offset: 91996},
+																						pos: position{line: 2921, col: 13, offset: 92097},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 13, offset: 91996},
+																								pos:        position{line: 2921, col: 13, offset: 92097},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 20, offset: 92003},
+																								pos:        position{line: 2921, col: 20, offset: 92104},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 29, offset: 92012},
+																								pos:        position{line: 2921, col: 29, offset: 92113},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31625,9 +31625,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
@@ -31636,9 +31636,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2929, col: 8, offset: 92172},
+																pos: position{line: 2931, col: 8, offset: 92273},
 																expr: &anyMatcher{
-																	line: 2929, col: 9, offset: 92173,
+																	line: 2931, col: 9, offset: 92274,
 																},
 															},
 														},
@@ -31648,39 +31648,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 841, col: 5, offset: 26922},
+										pos: position{line: 843, col: 5, offset: 27023},
 										run: (*parser).callonListContinuationElement384,
 										expr: &seqExpr{
-											pos: position{line: 841, col: 5, offset: 26922},
+											pos: position{line: 843, col: 5, offset: 27023},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 841, col: 5, offset: 26922},
+													pos:   position{line: 843, col: 5, offset: 27023},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 748, col: 5, offset: 23929},
+														pos: position{line: 750, col: 5, offset: 24030},
 														run: (*parser).callonListContinuationElement387,
 														expr: &seqExpr{
-															pos: position{line: 748, col: 5, offset: 23929},
+															pos: position{line: 750, col: 5, offset: 24030},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 748, col: 5, offset: 23929},
+																	pos:   position{line: 750, col: 5, offset: 24030},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 748, col: 16, offset: 23940},
+																		pos: position{line: 750, col: 16, offset: 24041},
 																		run: (*parser).callonListContinuationElement390,
 																		expr: &seqExpr{
-																			pos: position{line: 748, col: 16, offset: 23940},
+																			pos: position{line: 750, col: 16, offset: 24041},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 748, col: 16, offset: 23940},
+																					pos:        position{line: 750, col: 16, offset: 24041},
 																					val:        "====",
 																					ignoreCase: false,
 																					want:       "\"====\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 748, col: 23, offset: 23947},
+																					pos: position{line: 750, col: 23, offset: 24048},
 																					expr: &litMatcher{
-																						pos:        position{line: 748, col: 23, offset: 23947},
+																						pos:        position{line: 750, col: 23, offset: 24048},
 																						val:        "=",
 																						ignoreCase: false,
 																						want:       "\"=\"",
@@ -31691,12 +31691,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 750, col: 8, offset: 24031},
+																	pos: position{line: 752, col: 8, offset: 24132},
 																	expr: &actionExpr{
-																		pos: position{line: 2910, col: 10, offset: 91824},
+																		pos: position{line: 2912, col: 10, offset: 91925},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2910, col: 10, offset: 91824},
+																			pos:        position{line: 2912, col: 10, offset: 91925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31705,28 +31705,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2932, col: 8, offset: 92222},
+																	pos: position{line: 2934, col: 8, offset: 92323},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2919, col: 12, offset: 91995},
+																			pos: position{line: 2921, col: 12, offset: 92096},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2919, col: 13, offset: 91996},
+																				pos: position{line: 2921, col: 13, offset: 92097},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 13, offset: 91996},
+																						pos:        position{line: 2921, col: 13, offset: 92097},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 20, offset: 92003},
+																						pos:        position{line: 2921, col: 20, offset: 92104},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 29, offset: 92012},
+																						pos:        position{line: 2921, col: 29, offset: 92113},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31735,9 +31735,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2929, col: 8, offset: 92172},
+																			pos: position{line: 2931, col: 8, offset: 92273},
 																			expr: &anyMatcher{
-																				line: 2929, col: 9, offset: 92173,
+																				line: 2931, col: 9, offset: 92274,
 																			},
 																		},
 																	},
@@ -31747,56 +31747,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 842, col: 5, offset: 26961},
+													pos: position{line: 844, col: 5, offset: 27062},
 													run: (*parser).callonListContinuationElement406,
 												},
 												&labeledExpr{
-													pos:   position{line: 845, col: 5, offset: 27053},
+													pos:   position{line: 847, col: 5, offset: 27154},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 860, col: 4, offset: 27450},
+														pos: position{line: 862, col: 4, offset: 27551},
 														expr: &actionExpr{
-															pos: position{line: 860, col: 5, offset: 27451},
+															pos: position{line: 862, col: 5, offset: 27552},
 															run: (*parser).callonListContinuationElement409,
 															expr: &seqExpr{
-																pos: position{line: 860, col: 5, offset: 27451},
+																pos: position{line: 862, col: 5, offset: 27552},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 860, col: 5, offset: 27451},
+																		pos: position{line: 862, col: 5, offset: 27552},
 																		expr: &choiceExpr{
-																			pos: position{line: 853, col: 5, offset: 27293},
+																			pos: position{line: 855, col: 5, offset: 27394},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 853, col: 5, offset: 27293},
+																					pos: position{line: 855, col: 5, offset: 27394},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 853, col: 5, offset: 27293},
+																							pos:   position{line: 855, col: 5, offset: 27394},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 748, col: 5, offset: 23929},
+																								pos: position{line: 750, col: 5, offset: 24030},
 																								run: (*parser).callonListContinuationElement415,
 																								expr: &seqExpr{
-																									pos: position{line: 748, col: 5, offset: 23929},
+																									pos: position{line: 750, col: 5, offset: 24030},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 748, col: 5, offset: 23929},
+																											pos:   position{line: 750, col: 5, offset: 24030},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 748, col: 16, offset: 23940},
+																												pos: position{line: 750, col: 16, offset: 24041},
 																												run: (*parser).callonListContinuationElement418,
 																												expr: &seqExpr{
-																													pos: position{line: 748, col: 16, offset: 23940},
+																													pos: position{line: 750, col: 16, offset: 24041},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 748, col: 16, offset: 23940},
+																															pos:        position{line: 750, col: 16, offset: 24041},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 748, col: 23, offset: 23947},
+																															pos: position{line: 750, col: 23, offset: 24048},
 																															expr: &litMatcher{
-																																pos:        position{line: 748, col: 23, offset: 23947},
+																																pos:        position{line: 750, col: 23, offset: 24048},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -31807,12 +31807,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 750, col: 8, offset: 24031},
+																											pos: position{line: 752, col: 8, offset: 24132},
 																											expr: &actionExpr{
-																												pos: position{line: 2910, col: 10, offset: 91824},
+																												pos: position{line: 2912, col: 10, offset: 91925},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2910, col: 10, offset: 91824},
+																													pos:        position{line: 2912, col: 10, offset: 91925},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31821,28 +31821,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2932, col: 8, offset: 92222},
+																											pos: position{line: 2934, col: 8, offset: 92323},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2919, col: 12, offset: 91995},
+																													pos: position{line: 2921, col: 12, offset: 92096},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2919, col: 13, offset: 91996},
+																														pos: position{line: 2921, col: 13, offset: 92097},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 13, offset: 91996},
+																																pos:        position{line: 2921, col: 13, offset: 92097},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 20, offset: 92003},
+																																pos:        position{line: 2921, col: 20, offset: 92104},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 29, offset: 92012},
+																																pos:        position{line: 2921, col: 29, offset: 92113},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31851,9 +31851,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2929, col: 8, offset: 92172},
+																													pos: position{line: 2931, col: 8, offset: 92273},
 																													expr: &anyMatcher{
-																														line: 2929, col: 9, offset: 92173,
+																														line: 2931, col: 9, offset: 92274,
 																													},
 																												},
 																											},
@@ -31863,45 +31863,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 854, col: 5, offset: 27324},
+																							pos: position{line: 856, col: 5, offset: 27425},
 																							run: (*parser).callonListContinuationElement434,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 861, col: 5, offset: 27481},
+																		pos:   position{line: 863, col: 5, offset: 27582},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26185},
+																			pos: position{line: 814, col: 5, offset: 26286},
 																			run: (*parser).callonListContinuationElement438,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26185},
+																				pos: position{line: 814, col: 5, offset: 26286},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2927, col: 11, offset: 92158},
+																						pos: position{line: 2929, col: 11, offset: 92259},
 																						expr: &anyMatcher{
-																							line: 2927, col: 13, offset: 92160,
+																							line: 2929, col: 13, offset: 92261,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26260},
+																						pos:   position{line: 815, col: 5, offset: 26361},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2856, col: 13, offset: 90350},
+																							pos: position{line: 2858, col: 13, offset: 90451},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2856, col: 13, offset: 90350},
+																								pos: position{line: 2858, col: 13, offset: 90451},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 13, offset: 90350},
+																									pos:        position{line: 2858, col: 13, offset: 90451},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31911,28 +31911,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2932, col: 8, offset: 92222},
+																						pos: position{line: 2934, col: 8, offset: 92323},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2919, col: 12, offset: 91995},
+																								pos: position{line: 2921, col: 12, offset: 92096},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2919, col: 13, offset: 91996},
+																									pos: position{line: 2921, col: 13, offset: 92097},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 13, offset: 91996},
+																											pos:        position{line: 2921, col: 13, offset: 92097},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 20, offset: 92003},
+																											pos:        position{line: 2921, col: 20, offset: 92104},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 29, offset: 92012},
+																											pos:        position{line: 2921, col: 29, offset: 92113},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31941,9 +31941,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2929, col: 8, offset: 92172},
+																								pos: position{line: 2931, col: 8, offset: 92273},
 																								expr: &anyMatcher{
-																									line: 2929, col: 9, offset: 92173,
+																									line: 2931, col: 9, offset: 92274,
 																								},
 																							},
 																						},
@@ -31958,44 +31958,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 846, col: 5, offset: 27087},
+													pos:   position{line: 848, col: 5, offset: 27188},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 846, col: 9, offset: 27091},
+														pos: position{line: 848, col: 9, offset: 27192},
 														expr: &choiceExpr{
-															pos: position{line: 853, col: 5, offset: 27293},
+															pos: position{line: 855, col: 5, offset: 27394},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 853, col: 5, offset: 27293},
+																	pos: position{line: 855, col: 5, offset: 27394},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 853, col: 5, offset: 27293},
+																			pos:   position{line: 855, col: 5, offset: 27394},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 748, col: 5, offset: 23929},
+																				pos: position{line: 750, col: 5, offset: 24030},
 																				run: (*parser).callonListContinuationElement459,
 																				expr: &seqExpr{
-																					pos: position{line: 748, col: 5, offset: 23929},
+																					pos: position{line: 750, col: 5, offset: 24030},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 748, col: 5, offset: 23929},
+																							pos:   position{line: 750, col: 5, offset: 24030},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 748, col: 16, offset: 23940},
+																								pos: position{line: 750, col: 16, offset: 24041},
 																								run: (*parser).callonListContinuationElement462,
 																								expr: &seqExpr{
-																									pos: position{line: 748, col: 16, offset: 23940},
+																									pos: position{line: 750, col: 16, offset: 24041},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 748, col: 16, offset: 23940},
+																											pos:        position{line: 750, col: 16, offset: 24041},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 748, col: 23, offset: 23947},
+																											pos: position{line: 750, col: 23, offset: 24048},
 																											expr: &litMatcher{
-																												pos:        position{line: 748, col: 23, offset: 23947},
+																												pos:        position{line: 750, col: 23, offset: 24048},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -32006,12 +32006,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 750, col: 8, offset: 24031},
+																							pos: position{line: 752, col: 8, offset: 24132},
 																							expr: &actionExpr{
-																								pos: position{line: 2910, col: 10, offset: 91824},
+																								pos: position{line: 2912, col: 10, offset: 91925},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2910, col: 10, offset: 91824},
+																									pos:        position{line: 2912, col: 10, offset: 91925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32020,28 +32020,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32050,9 +32050,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -32062,15 +32062,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 854, col: 5, offset: 27324},
+																			pos: position{line: 856, col: 5, offset: 27425},
 																			run: (*parser).callonListContinuationElement478,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2929, col: 8, offset: 92172},
+																	pos: position{line: 2931, col: 8, offset: 92273},
 																	expr: &anyMatcher{
-																		line: 2929, col: 9, offset: 92173,
+																		line: 2931, col: 9, offset: 92274,
 																	},
 																},
 															},
@@ -32081,36 +32081,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 953, col: 5, offset: 29773},
+										pos: position{line: 955, col: 5, offset: 29874},
 										run: (*parser).callonListContinuationElement481,
 										expr: &seqExpr{
-											pos: position{line: 953, col: 5, offset: 29773},
+											pos: position{line: 955, col: 5, offset: 29874},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 953, col: 5, offset: 29773},
+													pos:   position{line: 955, col: 5, offset: 29874},
 													label: "delimiter",
 													expr: &actionExpr{
-														pos: position{line: 761, col: 26, offset: 24417},
+														pos: position{line: 763, col: 26, offset: 24518},
 														run: (*parser).callonListContinuationElement484,
 														expr: &seqExpr{
-															pos: position{line: 761, col: 26, offset: 24417},
+															pos: position{line: 763, col: 26, offset: 24518},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 761, col: 26, offset: 24417},
+																	pos:        position{line: 763, col: 26, offset: 24518},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 761, col: 32, offset: 24423},
+																	pos:   position{line: 763, col: 32, offset: 24524},
 																	label: "language",
 																	expr: &actionExpr{
-																		pos: position{line: 765, col: 13, offset: 24553},
+																		pos: position{line: 767, col: 13, offset: 24654},
 																		run: (*parser).callonListContinuationElement488,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 765, col: 14, offset: 24554},
+																			pos: position{line: 767, col: 14, offset: 24655},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 765, col: 14, offset: 24554},
+																				pos:        position{line: 767, col: 14, offset: 24655},
 																				val:        "[^\\r\\n` ]",
 																				chars:      []rune{'\r', '\n', '`', ' '},
 																				ignoreCase: false,
@@ -32120,12 +32120,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 761, col: 52, offset: 24443},
+																	pos: position{line: 763, col: 52, offset: 24544},
 																	expr: &actionExpr{
-																		pos: position{line: 2910, col: 10, offset: 91824},
+																		pos: position{line: 2912, col: 10, offset: 91925},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2910, col: 10, offset: 91824},
+																			pos:        position{line: 2912, col: 10, offset: 91925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32134,28 +32134,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2932, col: 8, offset: 92222},
+																	pos: position{line: 2934, col: 8, offset: 92323},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2919, col: 12, offset: 91995},
+																			pos: position{line: 2921, col: 12, offset: 92096},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2919, col: 13, offset: 91996},
+																				pos: position{line: 2921, col: 13, offset: 92097},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 13, offset: 91996},
+																						pos:        position{line: 2921, col: 13, offset: 92097},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 20, offset: 92003},
+																						pos:        position{line: 2921, col: 20, offset: 92104},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 29, offset: 92012},
+																						pos:        position{line: 2921, col: 29, offset: 92113},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32164,9 +32164,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2929, col: 8, offset: 92172},
+																			pos: position{line: 2931, col: 8, offset: 92273},
 																			expr: &anyMatcher{
-																				line: 2929, col: 9, offset: 92173,
+																				line: 2931, col: 9, offset: 92274,
 																			},
 																		},
 																	},
@@ -32176,34 +32176,34 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 954, col: 5, offset: 29819},
+													pos:   position{line: 956, col: 5, offset: 29920},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 967, col: 5, offset: 30292},
+														pos: position{line: 969, col: 5, offset: 30393},
 														expr: &actionExpr{
-															pos: position{line: 967, col: 6, offset: 30293},
+															pos: position{line: 969, col: 6, offset: 30394},
 															run: (*parser).callonListContinuationElement504,
 															expr: &seqExpr{
-																pos: position{line: 967, col: 6, offset: 30293},
+																pos: position{line: 969, col: 6, offset: 30394},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 967, col: 6, offset: 30293},
+																		pos: position{line: 969, col: 6, offset: 30394},
 																		expr: &seqExpr{
-																			pos: position{line: 964, col: 34, offset: 30240},
+																			pos: position{line: 966, col: 34, offset: 30341},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 964, col: 34, offset: 30240},
+																					pos:        position{line: 966, col: 34, offset: 30341},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 964, col: 40, offset: 30246},
+																					pos: position{line: 966, col: 40, offset: 30347},
 																					expr: &actionExpr{
-																						pos: position{line: 2910, col: 10, offset: 91824},
+																						pos: position{line: 2912, col: 10, offset: 91925},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2910, col: 10, offset: 91824},
+																							pos:        position{line: 2912, col: 10, offset: 91925},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32212,28 +32212,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2932, col: 8, offset: 92222},
+																					pos: position{line: 2934, col: 8, offset: 92323},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2919, col: 12, offset: 91995},
+																							pos: position{line: 2921, col: 12, offset: 92096},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2919, col: 13, offset: 91996},
+																								pos: position{line: 2921, col: 13, offset: 92097},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 13, offset: 91996},
+																										pos:        position{line: 2921, col: 13, offset: 92097},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 20, offset: 92003},
+																										pos:        position{line: 2921, col: 20, offset: 92104},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 29, offset: 92012},
+																										pos:        position{line: 2921, col: 29, offset: 92113},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32242,9 +32242,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2929, col: 8, offset: 92172},
+																							pos: position{line: 2931, col: 8, offset: 92273},
 																							expr: &anyMatcher{
-																								line: 2929, col: 9, offset: 92173,
+																								line: 2931, col: 9, offset: 92274,
 																							},
 																						},
 																					},
@@ -32253,30 +32253,30 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 968, col: 5, offset: 30328},
+																		pos:   position{line: 970, col: 5, offset: 30429},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26185},
+																			pos: position{line: 814, col: 5, offset: 26286},
 																			run: (*parser).callonListContinuationElement521,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26185},
+																				pos: position{line: 814, col: 5, offset: 26286},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2927, col: 11, offset: 92158},
+																						pos: position{line: 2929, col: 11, offset: 92259},
 																						expr: &anyMatcher{
-																							line: 2927, col: 13, offset: 92160,
+																							line: 2929, col: 13, offset: 92261,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26260},
+																						pos:   position{line: 815, col: 5, offset: 26361},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2856, col: 13, offset: 90350},
+																							pos: position{line: 2858, col: 13, offset: 90451},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2856, col: 13, offset: 90350},
+																								pos: position{line: 2858, col: 13, offset: 90451},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 13, offset: 90350},
+																									pos:        position{line: 2858, col: 13, offset: 90451},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32286,28 +32286,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2932, col: 8, offset: 92222},
+																						pos: position{line: 2934, col: 8, offset: 92323},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2919, col: 12, offset: 91995},
+																								pos: position{line: 2921, col: 12, offset: 92096},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2919, col: 13, offset: 91996},
+																									pos: position{line: 2921, col: 13, offset: 92097},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 13, offset: 91996},
+																											pos:        position{line: 2921, col: 13, offset: 92097},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 20, offset: 92003},
+																											pos:        position{line: 2921, col: 20, offset: 92104},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 29, offset: 92012},
+																											pos:        position{line: 2921, col: 29, offset: 92113},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32316,9 +32316,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2929, col: 8, offset: 92172},
+																								pos: position{line: 2931, col: 8, offset: 92273},
 																								expr: &anyMatcher{
-																									line: 2929, col: 9, offset: 92173,
+																									line: 2931, col: 9, offset: 92274,
 																								},
 																							},
 																						},
@@ -32333,23 +32333,23 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 955, col: 5, offset: 29858},
+													pos: position{line: 957, col: 5, offset: 29959},
 													expr: &seqExpr{
-														pos: position{line: 964, col: 34, offset: 30240},
+														pos: position{line: 966, col: 34, offset: 30341},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 964, col: 34, offset: 30240},
+																pos:        position{line: 966, col: 34, offset: 30341},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 964, col: 40, offset: 30246},
+																pos: position{line: 966, col: 40, offset: 30347},
 																expr: &actionExpr{
-																	pos: position{line: 2910, col: 10, offset: 91824},
+																	pos: position{line: 2912, col: 10, offset: 91925},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2910, col: 10, offset: 91824},
+																		pos:        position{line: 2912, col: 10, offset: 91925},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32358,28 +32358,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2932, col: 8, offset: 92222},
+																pos: position{line: 2934, col: 8, offset: 92323},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2919, col: 12, offset: 91995},
+																		pos: position{line: 2921, col: 12, offset: 92096},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2919, col: 13, offset: 91996},
+																			pos: position{line: 2921, col: 13, offset: 92097},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2919, col: 13, offset: 91996},
+																					pos:        position{line: 2921, col: 13, offset: 92097},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2919, col: 20, offset: 92003},
+																					pos:        position{line: 2921, col: 20, offset: 92104},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2919, col: 29, offset: 92012},
+																					pos:        position{line: 2921, col: 29, offset: 92113},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32388,9 +32388,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2929, col: 8, offset: 92172},
+																		pos: position{line: 2931, col: 8, offset: 92273},
 																		expr: &anyMatcher{
-																			line: 2929, col: 9, offset: 92173,
+																			line: 2931, col: 9, offset: 92274,
 																		},
 																	},
 																},
@@ -32402,39 +32402,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 869, col: 5, offset: 27634},
+										pos: position{line: 871, col: 5, offset: 27735},
 										run: (*parser).callonListContinuationElement551,
 										expr: &seqExpr{
-											pos: position{line: 869, col: 5, offset: 27634},
+											pos: position{line: 871, col: 5, offset: 27735},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 869, col: 5, offset: 27634},
+													pos:   position{line: 871, col: 5, offset: 27735},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 755, col: 5, offset: 24176},
+														pos: position{line: 757, col: 5, offset: 24277},
 														run: (*parser).callonListContinuationElement554,
 														expr: &seqExpr{
-															pos: position{line: 755, col: 5, offset: 24176},
+															pos: position{line: 757, col: 5, offset: 24277},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 755, col: 5, offset: 24176},
+																	pos:   position{line: 757, col: 5, offset: 24277},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 755, col: 16, offset: 24187},
+																		pos: position{line: 757, col: 16, offset: 24288},
 																		run: (*parser).callonListContinuationElement557,
 																		expr: &seqExpr{
-																			pos: position{line: 755, col: 16, offset: 24187},
+																			pos: position{line: 757, col: 16, offset: 24288},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 755, col: 16, offset: 24187},
+																					pos:        position{line: 757, col: 16, offset: 24288},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 755, col: 22, offset: 24193},
+																					pos: position{line: 757, col: 22, offset: 24294},
 																					expr: &litMatcher{
-																						pos:        position{line: 755, col: 22, offset: 24193},
+																						pos:        position{line: 757, col: 22, offset: 24294},
 																						val:        "`",
 																						ignoreCase: false,
 																						want:       "\"`\"",
@@ -32445,12 +32445,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 757, col: 8, offset: 24277},
+																	pos: position{line: 759, col: 8, offset: 24378},
 																	expr: &actionExpr{
-																		pos: position{line: 2910, col: 10, offset: 91824},
+																		pos: position{line: 2912, col: 10, offset: 91925},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2910, col: 10, offset: 91824},
+																			pos:        position{line: 2912, col: 10, offset: 91925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32459,28 +32459,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2932, col: 8, offset: 92222},
+																	pos: position{line: 2934, col: 8, offset: 92323},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2919, col: 12, offset: 91995},
+																			pos: position{line: 2921, col: 12, offset: 92096},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2919, col: 13, offset: 91996},
+																				pos: position{line: 2921, col: 13, offset: 92097},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 13, offset: 91996},
+																						pos:        position{line: 2921, col: 13, offset: 92097},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 20, offset: 92003},
+																						pos:        position{line: 2921, col: 20, offset: 92104},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 29, offset: 92012},
+																						pos:        position{line: 2921, col: 29, offset: 92113},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32489,9 +32489,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2929, col: 8, offset: 92172},
+																			pos: position{line: 2931, col: 8, offset: 92273},
 																			expr: &anyMatcher{
-																				line: 2929, col: 9, offset: 92173,
+																				line: 2931, col: 9, offset: 92274,
 																			},
 																		},
 																	},
@@ -32501,56 +32501,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 870, col: 5, offset: 27672},
+													pos: position{line: 872, col: 5, offset: 27773},
 													run: (*parser).callonListContinuationElement573,
 												},
 												&labeledExpr{
-													pos:   position{line: 873, col: 5, offset: 27764},
+													pos:   position{line: 875, col: 5, offset: 27865},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 888, col: 5, offset: 28154},
+														pos: position{line: 890, col: 5, offset: 28255},
 														expr: &actionExpr{
-															pos: position{line: 888, col: 6, offset: 28155},
+															pos: position{line: 890, col: 6, offset: 28256},
 															run: (*parser).callonListContinuationElement576,
 															expr: &seqExpr{
-																pos: position{line: 888, col: 6, offset: 28155},
+																pos: position{line: 890, col: 6, offset: 28256},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 888, col: 6, offset: 28155},
+																		pos: position{line: 890, col: 6, offset: 28256},
 																		expr: &choiceExpr{
-																			pos: position{line: 881, col: 5, offset: 27998},
+																			pos: position{line: 883, col: 5, offset: 28099},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 881, col: 5, offset: 27998},
+																					pos: position{line: 883, col: 5, offset: 28099},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 881, col: 5, offset: 27998},
+																							pos:   position{line: 883, col: 5, offset: 28099},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 755, col: 5, offset: 24176},
+																								pos: position{line: 757, col: 5, offset: 24277},
 																								run: (*parser).callonListContinuationElement582,
 																								expr: &seqExpr{
-																									pos: position{line: 755, col: 5, offset: 24176},
+																									pos: position{line: 757, col: 5, offset: 24277},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 755, col: 5, offset: 24176},
+																											pos:   position{line: 757, col: 5, offset: 24277},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 755, col: 16, offset: 24187},
+																												pos: position{line: 757, col: 16, offset: 24288},
 																												run: (*parser).callonListContinuationElement585,
 																												expr: &seqExpr{
-																													pos: position{line: 755, col: 16, offset: 24187},
+																													pos: position{line: 757, col: 16, offset: 24288},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 755, col: 16, offset: 24187},
+																															pos:        position{line: 757, col: 16, offset: 24288},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 755, col: 22, offset: 24193},
+																															pos: position{line: 757, col: 22, offset: 24294},
 																															expr: &litMatcher{
-																																pos:        position{line: 755, col: 22, offset: 24193},
+																																pos:        position{line: 757, col: 22, offset: 24294},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -32561,12 +32561,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 757, col: 8, offset: 24277},
+																											pos: position{line: 759, col: 8, offset: 24378},
 																											expr: &actionExpr{
-																												pos: position{line: 2910, col: 10, offset: 91824},
+																												pos: position{line: 2912, col: 10, offset: 91925},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2910, col: 10, offset: 91824},
+																													pos:        position{line: 2912, col: 10, offset: 91925},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32575,28 +32575,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2932, col: 8, offset: 92222},
+																											pos: position{line: 2934, col: 8, offset: 92323},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2919, col: 12, offset: 91995},
+																													pos: position{line: 2921, col: 12, offset: 92096},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2919, col: 13, offset: 91996},
+																														pos: position{line: 2921, col: 13, offset: 92097},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 13, offset: 91996},
+																																pos:        position{line: 2921, col: 13, offset: 92097},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 20, offset: 92003},
+																																pos:        position{line: 2921, col: 20, offset: 92104},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 29, offset: 92012},
+																																pos:        position{line: 2921, col: 29, offset: 92113},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32605,9 +32605,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2929, col: 8, offset: 92172},
+																													pos: position{line: 2931, col: 8, offset: 92273},
 																													expr: &anyMatcher{
-																														line: 2929, col: 9, offset: 92173,
+																														line: 2931, col: 9, offset: 92274,
 																													},
 																												},
 																											},
@@ -32617,45 +32617,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 882, col: 5, offset: 28028},
+																							pos: position{line: 884, col: 5, offset: 28129},
 																							run: (*parser).callonListContinuationElement601,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 889, col: 5, offset: 28184},
+																		pos:   position{line: 891, col: 5, offset: 28285},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26185},
+																			pos: position{line: 814, col: 5, offset: 26286},
 																			run: (*parser).callonListContinuationElement605,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26185},
+																				pos: position{line: 814, col: 5, offset: 26286},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2927, col: 11, offset: 92158},
+																						pos: position{line: 2929, col: 11, offset: 92259},
 																						expr: &anyMatcher{
-																							line: 2927, col: 13, offset: 92160,
+																							line: 2929, col: 13, offset: 92261,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26260},
+																						pos:   position{line: 815, col: 5, offset: 26361},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2856, col: 13, offset: 90350},
+																							pos: position{line: 2858, col: 13, offset: 90451},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2856, col: 13, offset: 90350},
+																								pos: position{line: 2858, col: 13, offset: 90451},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 13, offset: 90350},
+																									pos:        position{line: 2858, col: 13, offset: 90451},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32665,28 +32665,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2932, col: 8, offset: 92222},
+																						pos: position{line: 2934, col: 8, offset: 92323},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2919, col: 12, offset: 91995},
+																								pos: position{line: 2921, col: 12, offset: 92096},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2919, col: 13, offset: 91996},
+																									pos: position{line: 2921, col: 13, offset: 92097},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 13, offset: 91996},
+																											pos:        position{line: 2921, col: 13, offset: 92097},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 20, offset: 92003},
+																											pos:        position{line: 2921, col: 20, offset: 92104},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 29, offset: 92012},
+																											pos:        position{line: 2921, col: 29, offset: 92113},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32695,9 +32695,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2929, col: 8, offset: 92172},
+																								pos: position{line: 2931, col: 8, offset: 92273},
 																								expr: &anyMatcher{
-																									line: 2929, col: 9, offset: 92173,
+																									line: 2931, col: 9, offset: 92274,
 																								},
 																							},
 																						},
@@ -32712,44 +32712,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 874, col: 5, offset: 27797},
+													pos:   position{line: 876, col: 5, offset: 27898},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 874, col: 9, offset: 27801},
+														pos: position{line: 876, col: 9, offset: 27902},
 														expr: &choiceExpr{
-															pos: position{line: 881, col: 5, offset: 27998},
+															pos: position{line: 883, col: 5, offset: 28099},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 881, col: 5, offset: 27998},
+																	pos: position{line: 883, col: 5, offset: 28099},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 881, col: 5, offset: 27998},
+																			pos:   position{line: 883, col: 5, offset: 28099},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 755, col: 5, offset: 24176},
+																				pos: position{line: 757, col: 5, offset: 24277},
 																				run: (*parser).callonListContinuationElement626,
 																				expr: &seqExpr{
-																					pos: position{line: 755, col: 5, offset: 24176},
+																					pos: position{line: 757, col: 5, offset: 24277},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 755, col: 5, offset: 24176},
+																							pos:   position{line: 757, col: 5, offset: 24277},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 755, col: 16, offset: 24187},
+																								pos: position{line: 757, col: 16, offset: 24288},
 																								run: (*parser).callonListContinuationElement629,
 																								expr: &seqExpr{
-																									pos: position{line: 755, col: 16, offset: 24187},
+																									pos: position{line: 757, col: 16, offset: 24288},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 755, col: 16, offset: 24187},
+																											pos:        position{line: 757, col: 16, offset: 24288},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 755, col: 22, offset: 24193},
+																											pos: position{line: 757, col: 22, offset: 24294},
 																											expr: &litMatcher{
-																												pos:        position{line: 755, col: 22, offset: 24193},
+																												pos:        position{line: 757, col: 22, offset: 24294},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -32760,12 +32760,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 757, col: 8, offset: 24277},
+																							pos: position{line: 759, col: 8, offset: 24378},
 																							expr: &actionExpr{
-																								pos: position{line: 2910, col: 10, offset: 91824},
+																								pos: position{line: 2912, col: 10, offset: 91925},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2910, col: 10, offset: 91824},
+																									pos:        position{line: 2912, col: 10, offset: 91925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32774,28 +32774,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32804,9 +32804,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -32816,15 +32816,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 882, col: 5, offset: 28028},
+																			pos: position{line: 884, col: 5, offset: 28129},
 																			run: (*parser).callonListContinuationElement645,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2929, col: 8, offset: 92172},
+																	pos: position{line: 2931, col: 8, offset: 92273},
 																	expr: &anyMatcher{
-																		line: 2929, col: 9, offset: 92173,
+																		line: 2931, col: 9, offset: 92274,
 																	},
 																},
 															},
@@ -32835,39 +32835,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 897, col: 5, offset: 28339},
+										pos: position{line: 899, col: 5, offset: 28440},
 										run: (*parser).callonListContinuationElement648,
 										expr: &seqExpr{
-											pos: position{line: 897, col: 5, offset: 28339},
+											pos: position{line: 899, col: 5, offset: 28440},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 897, col: 5, offset: 28339},
+													pos:   position{line: 899, col: 5, offset: 28440},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 770, col: 5, offset: 24713},
+														pos: position{line: 772, col: 5, offset: 24814},
 														run: (*parser).callonListContinuationElement651,
 														expr: &seqExpr{
-															pos: position{line: 770, col: 5, offset: 24713},
+															pos: position{line: 772, col: 5, offset: 24814},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 770, col: 5, offset: 24713},
+																	pos:   position{line: 772, col: 5, offset: 24814},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 770, col: 16, offset: 24724},
+																		pos: position{line: 772, col: 16, offset: 24825},
 																		run: (*parser).callonListContinuationElement654,
 																		expr: &seqExpr{
-																			pos: position{line: 770, col: 16, offset: 24724},
+																			pos: position{line: 772, col: 16, offset: 24825},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 770, col: 16, offset: 24724},
+																					pos:        position{line: 772, col: 16, offset: 24825},
 																					val:        "----",
 																					ignoreCase: false,
 																					want:       "\"----\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 770, col: 23, offset: 24731},
+																					pos: position{line: 772, col: 23, offset: 24832},
 																					expr: &litMatcher{
-																						pos:        position{line: 770, col: 23, offset: 24731},
+																						pos:        position{line: 772, col: 23, offset: 24832},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
@@ -32878,12 +32878,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 772, col: 8, offset: 24815},
+																	pos: position{line: 774, col: 8, offset: 24916},
 																	expr: &actionExpr{
-																		pos: position{line: 2910, col: 10, offset: 91824},
+																		pos: position{line: 2912, col: 10, offset: 91925},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2910, col: 10, offset: 91824},
+																			pos:        position{line: 2912, col: 10, offset: 91925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32892,28 +32892,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2932, col: 8, offset: 92222},
+																	pos: position{line: 2934, col: 8, offset: 92323},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2919, col: 12, offset: 91995},
+																			pos: position{line: 2921, col: 12, offset: 92096},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2919, col: 13, offset: 91996},
+																				pos: position{line: 2921, col: 13, offset: 92097},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 13, offset: 91996},
+																						pos:        position{line: 2921, col: 13, offset: 92097},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 20, offset: 92003},
+																						pos:        position{line: 2921, col: 20, offset: 92104},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 29, offset: 92012},
+																						pos:        position{line: 2921, col: 29, offset: 92113},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32922,9 +32922,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2929, col: 8, offset: 92172},
+																			pos: position{line: 2931, col: 8, offset: 92273},
 																			expr: &anyMatcher{
-																				line: 2929, col: 9, offset: 92173,
+																				line: 2931, col: 9, offset: 92274,
 																			},
 																		},
 																	},
@@ -32934,56 +32934,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 898, col: 5, offset: 28378},
+													pos: position{line: 900, col: 5, offset: 28479},
 													run: (*parser).callonListContinuationElement670,
 												},
 												&labeledExpr{
-													pos:   position{line: 901, col: 5, offset: 28470},
+													pos:   position{line: 903, col: 5, offset: 28571},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 916, col: 5, offset: 28868},
+														pos: position{line: 918, col: 5, offset: 28969},
 														expr: &actionExpr{
-															pos: position{line: 916, col: 6, offset: 28869},
+															pos: position{line: 918, col: 6, offset: 28970},
 															run: (*parser).callonListContinuationElement673,
 															expr: &seqExpr{
-																pos: position{line: 916, col: 6, offset: 28869},
+																pos: position{line: 918, col: 6, offset: 28970},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 916, col: 6, offset: 28869},
+																		pos: position{line: 918, col: 6, offset: 28970},
 																		expr: &choiceExpr{
-																			pos: position{line: 909, col: 5, offset: 28710},
+																			pos: position{line: 911, col: 5, offset: 28811},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 909, col: 5, offset: 28710},
+																					pos: position{line: 911, col: 5, offset: 28811},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 909, col: 5, offset: 28710},
+																							pos:   position{line: 911, col: 5, offset: 28811},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 770, col: 5, offset: 24713},
+																								pos: position{line: 772, col: 5, offset: 24814},
 																								run: (*parser).callonListContinuationElement679,
 																								expr: &seqExpr{
-																									pos: position{line: 770, col: 5, offset: 24713},
+																									pos: position{line: 772, col: 5, offset: 24814},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 770, col: 5, offset: 24713},
+																											pos:   position{line: 772, col: 5, offset: 24814},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 770, col: 16, offset: 24724},
+																												pos: position{line: 772, col: 16, offset: 24825},
 																												run: (*parser).callonListContinuationElement682,
 																												expr: &seqExpr{
-																													pos: position{line: 770, col: 16, offset: 24724},
+																													pos: position{line: 772, col: 16, offset: 24825},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 770, col: 16, offset: 24724},
+																															pos:        position{line: 772, col: 16, offset: 24825},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 770, col: 23, offset: 24731},
+																															pos: position{line: 772, col: 23, offset: 24832},
 																															expr: &litMatcher{
-																																pos:        position{line: 770, col: 23, offset: 24731},
+																																pos:        position{line: 772, col: 23, offset: 24832},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -32994,12 +32994,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 772, col: 8, offset: 24815},
+																											pos: position{line: 774, col: 8, offset: 24916},
 																											expr: &actionExpr{
-																												pos: position{line: 2910, col: 10, offset: 91824},
+																												pos: position{line: 2912, col: 10, offset: 91925},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2910, col: 10, offset: 91824},
+																													pos:        position{line: 2912, col: 10, offset: 91925},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33008,28 +33008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2932, col: 8, offset: 92222},
+																											pos: position{line: 2934, col: 8, offset: 92323},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2919, col: 12, offset: 91995},
+																													pos: position{line: 2921, col: 12, offset: 92096},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2919, col: 13, offset: 91996},
+																														pos: position{line: 2921, col: 13, offset: 92097},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 13, offset: 91996},
+																																pos:        position{line: 2921, col: 13, offset: 92097},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 20, offset: 92003},
+																																pos:        position{line: 2921, col: 20, offset: 92104},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 29, offset: 92012},
+																																pos:        position{line: 2921, col: 29, offset: 92113},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33038,9 +33038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2929, col: 8, offset: 92172},
+																													pos: position{line: 2931, col: 8, offset: 92273},
 																													expr: &anyMatcher{
-																														line: 2929, col: 9, offset: 92173,
+																														line: 2931, col: 9, offset: 92274,
 																													},
 																												},
 																											},
@@ -33050,45 +33050,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 910, col: 5, offset: 28741},
+																							pos: position{line: 912, col: 5, offset: 28842},
 																							run: (*parser).callonListContinuationElement698,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 917, col: 5, offset: 28899},
+																		pos:   position{line: 919, col: 5, offset: 29000},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26185},
+																			pos: position{line: 814, col: 5, offset: 26286},
 																			run: (*parser).callonListContinuationElement702,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26185},
+																				pos: position{line: 814, col: 5, offset: 26286},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2927, col: 11, offset: 92158},
+																						pos: position{line: 2929, col: 11, offset: 92259},
 																						expr: &anyMatcher{
-																							line: 2927, col: 13, offset: 92160,
+																							line: 2929, col: 13, offset: 92261,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26260},
+																						pos:   position{line: 815, col: 5, offset: 26361},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2856, col: 13, offset: 90350},
+																							pos: position{line: 2858, col: 13, offset: 90451},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2856, col: 13, offset: 90350},
+																								pos: position{line: 2858, col: 13, offset: 90451},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 13, offset: 90350},
+																									pos:        position{line: 2858, col: 13, offset: 90451},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33098,28 +33098,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2932, col: 8, offset: 92222},
+																						pos: position{line: 2934, col: 8, offset: 92323},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2919, col: 12, offset: 91995},
+																								pos: position{line: 2921, col: 12, offset: 92096},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2919, col: 13, offset: 91996},
+																									pos: position{line: 2921, col: 13, offset: 92097},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 13, offset: 91996},
+																											pos:        position{line: 2921, col: 13, offset: 92097},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 20, offset: 92003},
+																											pos:        position{line: 2921, col: 20, offset: 92104},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 29, offset: 92012},
+																											pos:        position{line: 2921, col: 29, offset: 92113},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33128,9 +33128,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2929, col: 8, offset: 92172},
+																								pos: position{line: 2931, col: 8, offset: 92273},
 																								expr: &anyMatcher{
-																									line: 2929, col: 9, offset: 92173,
+																									line: 2931, col: 9, offset: 92274,
 																								},
 																							},
 																						},
@@ -33145,44 +33145,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 902, col: 5, offset: 28504},
+													pos:   position{line: 904, col: 5, offset: 28605},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 902, col: 9, offset: 28508},
+														pos: position{line: 904, col: 9, offset: 28609},
 														expr: &choiceExpr{
-															pos: position{line: 909, col: 5, offset: 28710},
+															pos: position{line: 911, col: 5, offset: 28811},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 909, col: 5, offset: 28710},
+																	pos: position{line: 911, col: 5, offset: 28811},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 909, col: 5, offset: 28710},
+																			pos:   position{line: 911, col: 5, offset: 28811},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 770, col: 5, offset: 24713},
+																				pos: position{line: 772, col: 5, offset: 24814},
 																				run: (*parser).callonListContinuationElement723,
 																				expr: &seqExpr{
-																					pos: position{line: 770, col: 5, offset: 24713},
+																					pos: position{line: 772, col: 5, offset: 24814},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 770, col: 5, offset: 24713},
+																							pos:   position{line: 772, col: 5, offset: 24814},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 770, col: 16, offset: 24724},
+																								pos: position{line: 772, col: 16, offset: 24825},
 																								run: (*parser).callonListContinuationElement726,
 																								expr: &seqExpr{
-																									pos: position{line: 770, col: 16, offset: 24724},
+																									pos: position{line: 772, col: 16, offset: 24825},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 770, col: 16, offset: 24724},
+																											pos:        position{line: 772, col: 16, offset: 24825},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 770, col: 23, offset: 24731},
+																											pos: position{line: 772, col: 23, offset: 24832},
 																											expr: &litMatcher{
-																												pos:        position{line: 770, col: 23, offset: 24731},
+																												pos:        position{line: 772, col: 23, offset: 24832},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -33193,12 +33193,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 772, col: 8, offset: 24815},
+																							pos: position{line: 774, col: 8, offset: 24916},
 																							expr: &actionExpr{
-																								pos: position{line: 2910, col: 10, offset: 91824},
+																								pos: position{line: 2912, col: 10, offset: 91925},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2910, col: 10, offset: 91824},
+																									pos:        position{line: 2912, col: 10, offset: 91925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33207,28 +33207,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33237,9 +33237,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -33249,15 +33249,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 910, col: 5, offset: 28741},
+																			pos: position{line: 912, col: 5, offset: 28842},
 																			run: (*parser).callonListContinuationElement742,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2929, col: 8, offset: 92172},
+																	pos: position{line: 2931, col: 8, offset: 92273},
 																	expr: &anyMatcher{
-																		line: 2929, col: 9, offset: 92173,
+																		line: 2931, col: 9, offset: 92274,
 																	},
 																},
 															},
@@ -33268,39 +33268,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 925, col: 5, offset: 29054},
+										pos: position{line: 927, col: 5, offset: 29155},
 										run: (*parser).callonListContinuationElement745,
 										expr: &seqExpr{
-											pos: position{line: 925, col: 5, offset: 29054},
+											pos: position{line: 927, col: 5, offset: 29155},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 925, col: 5, offset: 29054},
+													pos:   position{line: 927, col: 5, offset: 29155},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 784, col: 5, offset: 25189},
+														pos: position{line: 786, col: 5, offset: 25290},
 														run: (*parser).callonListContinuationElement748,
 														expr: &seqExpr{
-															pos: position{line: 784, col: 5, offset: 25189},
+															pos: position{line: 786, col: 5, offset: 25290},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 784, col: 5, offset: 25189},
+																	pos:   position{line: 786, col: 5, offset: 25290},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 784, col: 16, offset: 25200},
+																		pos: position{line: 786, col: 16, offset: 25301},
 																		run: (*parser).callonListContinuationElement751,
 																		expr: &seqExpr{
-																			pos: position{line: 784, col: 16, offset: 25200},
+																			pos: position{line: 786, col: 16, offset: 25301},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 784, col: 16, offset: 25200},
+																					pos:        position{line: 786, col: 16, offset: 25301},
 																					val:        "....",
 																					ignoreCase: false,
 																					want:       "\"....\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 784, col: 23, offset: 25207},
+																					pos: position{line: 786, col: 23, offset: 25308},
 																					expr: &litMatcher{
-																						pos:        position{line: 784, col: 23, offset: 25207},
+																						pos:        position{line: 786, col: 23, offset: 25308},
 																						val:        ".",
 																						ignoreCase: false,
 																						want:       "\".\"",
@@ -33311,12 +33311,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 786, col: 8, offset: 25291},
+																	pos: position{line: 788, col: 8, offset: 25392},
 																	expr: &actionExpr{
-																		pos: position{line: 2910, col: 10, offset: 91824},
+																		pos: position{line: 2912, col: 10, offset: 91925},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2910, col: 10, offset: 91824},
+																			pos:        position{line: 2912, col: 10, offset: 91925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33325,28 +33325,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2932, col: 8, offset: 92222},
+																	pos: position{line: 2934, col: 8, offset: 92323},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2919, col: 12, offset: 91995},
+																			pos: position{line: 2921, col: 12, offset: 92096},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2919, col: 13, offset: 91996},
+																				pos: position{line: 2921, col: 13, offset: 92097},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 13, offset: 91996},
+																						pos:        position{line: 2921, col: 13, offset: 92097},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 20, offset: 92003},
+																						pos:        position{line: 2921, col: 20, offset: 92104},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 29, offset: 92012},
+																						pos:        position{line: 2921, col: 29, offset: 92113},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33355,9 +33355,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2929, col: 8, offset: 92172},
+																			pos: position{line: 2931, col: 8, offset: 92273},
 																			expr: &anyMatcher{
-																				line: 2929, col: 9, offset: 92173,
+																				line: 2931, col: 9, offset: 92274,
 																			},
 																		},
 																	},
@@ -33367,56 +33367,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 926, col: 5, offset: 29093},
+													pos: position{line: 928, col: 5, offset: 29194},
 													run: (*parser).callonListContinuationElement767,
 												},
 												&labeledExpr{
-													pos:   position{line: 929, col: 5, offset: 29185},
+													pos:   position{line: 931, col: 5, offset: 29286},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 944, col: 5, offset: 29583},
+														pos: position{line: 946, col: 5, offset: 29684},
 														expr: &actionExpr{
-															pos: position{line: 944, col: 6, offset: 29584},
+															pos: position{line: 946, col: 6, offset: 29685},
 															run: (*parser).callonListContinuationElement770,
 															expr: &seqExpr{
-																pos: position{line: 944, col: 6, offset: 29584},
+																pos: position{line: 946, col: 6, offset: 29685},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 944, col: 6, offset: 29584},
+																		pos: position{line: 946, col: 6, offset: 29685},
 																		expr: &choiceExpr{
-																			pos: position{line: 937, col: 5, offset: 29425},
+																			pos: position{line: 939, col: 5, offset: 29526},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 937, col: 5, offset: 29425},
+																					pos: position{line: 939, col: 5, offset: 29526},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 937, col: 5, offset: 29425},
+																							pos:   position{line: 939, col: 5, offset: 29526},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 784, col: 5, offset: 25189},
+																								pos: position{line: 786, col: 5, offset: 25290},
 																								run: (*parser).callonListContinuationElement776,
 																								expr: &seqExpr{
-																									pos: position{line: 784, col: 5, offset: 25189},
+																									pos: position{line: 786, col: 5, offset: 25290},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 784, col: 5, offset: 25189},
+																											pos:   position{line: 786, col: 5, offset: 25290},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 784, col: 16, offset: 25200},
+																												pos: position{line: 786, col: 16, offset: 25301},
 																												run: (*parser).callonListContinuationElement779,
 																												expr: &seqExpr{
-																													pos: position{line: 784, col: 16, offset: 25200},
+																													pos: position{line: 786, col: 16, offset: 25301},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 784, col: 16, offset: 25200},
+																															pos:        position{line: 786, col: 16, offset: 25301},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 784, col: 23, offset: 25207},
+																															pos: position{line: 786, col: 23, offset: 25308},
 																															expr: &litMatcher{
-																																pos:        position{line: 784, col: 23, offset: 25207},
+																																pos:        position{line: 786, col: 23, offset: 25308},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -33427,12 +33427,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 786, col: 8, offset: 25291},
+																											pos: position{line: 788, col: 8, offset: 25392},
 																											expr: &actionExpr{
-																												pos: position{line: 2910, col: 10, offset: 91824},
+																												pos: position{line: 2912, col: 10, offset: 91925},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2910, col: 10, offset: 91824},
+																													pos:        position{line: 2912, col: 10, offset: 91925},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33441,28 +33441,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2932, col: 8, offset: 92222},
+																											pos: position{line: 2934, col: 8, offset: 92323},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2919, col: 12, offset: 91995},
+																													pos: position{line: 2921, col: 12, offset: 92096},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2919, col: 13, offset: 91996},
+																														pos: position{line: 2921, col: 13, offset: 92097},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 13, offset: 91996},
+																																pos:        position{line: 2921, col: 13, offset: 92097},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 20, offset: 92003},
+																																pos:        position{line: 2921, col: 20, offset: 92104},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 29, offset: 92012},
+																																pos:        position{line: 2921, col: 29, offset: 92113},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33471,9 +33471,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2929, col: 8, offset: 92172},
+																													pos: position{line: 2931, col: 8, offset: 92273},
 																													expr: &anyMatcher{
-																														line: 2929, col: 9, offset: 92173,
+																														line: 2931, col: 9, offset: 92274,
 																													},
 																												},
 																											},
@@ -33483,45 +33483,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 938, col: 5, offset: 29456},
+																							pos: position{line: 940, col: 5, offset: 29557},
 																							run: (*parser).callonListContinuationElement795,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 945, col: 5, offset: 29614},
+																		pos:   position{line: 947, col: 5, offset: 29715},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26185},
+																			pos: position{line: 814, col: 5, offset: 26286},
 																			run: (*parser).callonListContinuationElement799,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26185},
+																				pos: position{line: 814, col: 5, offset: 26286},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2927, col: 11, offset: 92158},
+																						pos: position{line: 2929, col: 11, offset: 92259},
 																						expr: &anyMatcher{
-																							line: 2927, col: 13, offset: 92160,
+																							line: 2929, col: 13, offset: 92261,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26260},
+																						pos:   position{line: 815, col: 5, offset: 26361},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2856, col: 13, offset: 90350},
+																							pos: position{line: 2858, col: 13, offset: 90451},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2856, col: 13, offset: 90350},
+																								pos: position{line: 2858, col: 13, offset: 90451},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 13, offset: 90350},
+																									pos:        position{line: 2858, col: 13, offset: 90451},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33531,28 +33531,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2932, col: 8, offset: 92222},
+																						pos: position{line: 2934, col: 8, offset: 92323},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2919, col: 12, offset: 91995},
+																								pos: position{line: 2921, col: 12, offset: 92096},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2919, col: 13, offset: 91996},
+																									pos: position{line: 2921, col: 13, offset: 92097},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 13, offset: 91996},
+																											pos:        position{line: 2921, col: 13, offset: 92097},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 20, offset: 92003},
+																											pos:        position{line: 2921, col: 20, offset: 92104},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 29, offset: 92012},
+																											pos:        position{line: 2921, col: 29, offset: 92113},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33561,9 +33561,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2929, col: 8, offset: 92172},
+																								pos: position{line: 2931, col: 8, offset: 92273},
 																								expr: &anyMatcher{
-																									line: 2929, col: 9, offset: 92173,
+																									line: 2931, col: 9, offset: 92274,
 																								},
 																							},
 																						},
@@ -33578,44 +33578,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 930, col: 5, offset: 29219},
+													pos:   position{line: 932, col: 5, offset: 29320},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 930, col: 9, offset: 29223},
+														pos: position{line: 932, col: 9, offset: 29324},
 														expr: &choiceExpr{
-															pos: position{line: 937, col: 5, offset: 29425},
+															pos: position{line: 939, col: 5, offset: 29526},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 937, col: 5, offset: 29425},
+																	pos: position{line: 939, col: 5, offset: 29526},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 937, col: 5, offset: 29425},
+																			pos:   position{line: 939, col: 5, offset: 29526},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 784, col: 5, offset: 25189},
+																				pos: position{line: 786, col: 5, offset: 25290},
 																				run: (*parser).callonListContinuationElement820,
 																				expr: &seqExpr{
-																					pos: position{line: 784, col: 5, offset: 25189},
+																					pos: position{line: 786, col: 5, offset: 25290},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 784, col: 5, offset: 25189},
+																							pos:   position{line: 786, col: 5, offset: 25290},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 784, col: 16, offset: 25200},
+																								pos: position{line: 786, col: 16, offset: 25301},
 																								run: (*parser).callonListContinuationElement823,
 																								expr: &seqExpr{
-																									pos: position{line: 784, col: 16, offset: 25200},
+																									pos: position{line: 786, col: 16, offset: 25301},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 784, col: 16, offset: 25200},
+																											pos:        position{line: 786, col: 16, offset: 25301},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 784, col: 23, offset: 25207},
+																											pos: position{line: 786, col: 23, offset: 25308},
 																											expr: &litMatcher{
-																												pos:        position{line: 784, col: 23, offset: 25207},
+																												pos:        position{line: 786, col: 23, offset: 25308},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -33626,12 +33626,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 786, col: 8, offset: 25291},
+																							pos: position{line: 788, col: 8, offset: 25392},
 																							expr: &actionExpr{
-																								pos: position{line: 2910, col: 10, offset: 91824},
+																								pos: position{line: 2912, col: 10, offset: 91925},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2910, col: 10, offset: 91824},
+																									pos:        position{line: 2912, col: 10, offset: 91925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33640,28 +33640,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33670,9 +33670,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -33682,15 +33682,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 938, col: 5, offset: 29456},
+																			pos: position{line: 940, col: 5, offset: 29557},
 																			run: (*parser).callonListContinuationElement839,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2929, col: 8, offset: 92172},
+																	pos: position{line: 2931, col: 8, offset: 92273},
 																	expr: &anyMatcher{
-																		line: 2929, col: 9, offset: 92173,
+																		line: 2931, col: 9, offset: 92274,
 																	},
 																},
 															},
@@ -33701,41 +33701,41 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 976, col: 5, offset: 30497},
+										pos: position{line: 978, col: 5, offset: 30598},
 										run: (*parser).callonListContinuationElement842,
 										expr: &seqExpr{
-											pos: position{line: 976, col: 5, offset: 30497},
+											pos: position{line: 978, col: 5, offset: 30598},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 976, col: 5, offset: 30497},
+													pos:   position{line: 978, col: 5, offset: 30598},
 													label: "firstLine",
 													expr: &actionExpr{
-														pos: position{line: 983, col: 5, offset: 30756},
+														pos: position{line: 985, col: 5, offset: 30857},
 														run: (*parser).callonListContinuationElement845,
 														expr: &seqExpr{
-															pos: position{line: 983, col: 5, offset: 30756},
+															pos: position{line: 985, col: 5, offset: 30857},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 983, col: 5, offset: 30756},
+																	pos: position{line: 985, col: 5, offset: 30857},
 																	expr: &actionExpr{
-																		pos: position{line: 678, col: 14, offset: 21586},
+																		pos: position{line: 680, col: 14, offset: 21687},
 																		run: (*parser).callonListContinuationElement848,
 																		expr: &seqExpr{
-																			pos: position{line: 678, col: 14, offset: 21586},
+																			pos: position{line: 680, col: 14, offset: 21687},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2927, col: 11, offset: 92158},
+																					pos: position{line: 2929, col: 11, offset: 92259},
 																					expr: &anyMatcher{
-																						line: 2927, col: 13, offset: 92160,
+																						line: 2929, col: 13, offset: 92261,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 678, col: 21, offset: 21593},
+																					pos: position{line: 680, col: 21, offset: 21694},
 																					expr: &actionExpr{
-																						pos: position{line: 2910, col: 10, offset: 91824},
+																						pos: position{line: 2912, col: 10, offset: 91925},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2910, col: 10, offset: 91824},
+																							pos:        position{line: 2912, col: 10, offset: 91925},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33744,28 +33744,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2932, col: 8, offset: 92222},
+																					pos: position{line: 2934, col: 8, offset: 92323},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2919, col: 12, offset: 91995},
+																							pos: position{line: 2921, col: 12, offset: 92096},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2919, col: 13, offset: 91996},
+																								pos: position{line: 2921, col: 13, offset: 92097},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 13, offset: 91996},
+																										pos:        position{line: 2921, col: 13, offset: 92097},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 20, offset: 92003},
+																										pos:        position{line: 2921, col: 20, offset: 92104},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 29, offset: 92012},
+																										pos:        position{line: 2921, col: 29, offset: 92113},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33774,9 +33774,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2929, col: 8, offset: 92172},
+																							pos: position{line: 2931, col: 8, offset: 92273},
 																							expr: &anyMatcher{
-																								line: 2929, col: 9, offset: 92173,
+																								line: 2931, col: 9, offset: 92274,
 																							},
 																						},
 																					},
@@ -33786,21 +33786,21 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 984, col: 5, offset: 30771},
+																	pos:        position{line: 986, col: 5, offset: 30872},
 																	val:        "> ",
 																	ignoreCase: false,
 																	want:       "\"> \"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 985, col: 5, offset: 30781},
+																	pos:   position{line: 987, col: 5, offset: 30882},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 14, offset: 90417},
+																		pos: position{line: 2862, col: 14, offset: 90518},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2860, col: 14, offset: 90417},
+																			pos: position{line: 2862, col: 14, offset: 90518},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2860, col: 14, offset: 90417},
+																				pos:        position{line: 2862, col: 14, offset: 90518},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33810,28 +33810,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2932, col: 8, offset: 92222},
+																	pos: position{line: 2934, col: 8, offset: 92323},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2919, col: 12, offset: 91995},
+																			pos: position{line: 2921, col: 12, offset: 92096},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2919, col: 13, offset: 91996},
+																				pos: position{line: 2921, col: 13, offset: 92097},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 13, offset: 91996},
+																						pos:        position{line: 2921, col: 13, offset: 92097},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 20, offset: 92003},
+																						pos:        position{line: 2921, col: 20, offset: 92104},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 29, offset: 92012},
+																						pos:        position{line: 2921, col: 29, offset: 92113},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33840,9 +33840,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2929, col: 8, offset: 92172},
+																			pos: position{line: 2931, col: 8, offset: 92273},
 																			expr: &anyMatcher{
-																				line: 2929, col: 9, offset: 92173,
+																				line: 2931, col: 9, offset: 92274,
 																			},
 																		},
 																	},
@@ -33852,40 +33852,40 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 977, col: 5, offset: 30534},
+													pos:   position{line: 979, col: 5, offset: 30635},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 977, col: 16, offset: 30545},
+														pos: position{line: 979, col: 16, offset: 30646},
 														expr: &choiceExpr{
-															pos: position{line: 977, col: 17, offset: 30546},
+															pos: position{line: 979, col: 17, offset: 30647},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 983, col: 5, offset: 30756},
+																	pos: position{line: 985, col: 5, offset: 30857},
 																	run: (*parser).callonListContinuationElement879,
 																	expr: &seqExpr{
-																		pos: position{line: 983, col: 5, offset: 30756},
+																		pos: position{line: 985, col: 5, offset: 30857},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 983, col: 5, offset: 30756},
+																				pos: position{line: 985, col: 5, offset: 30857},
 																				expr: &actionExpr{
-																					pos: position{line: 678, col: 14, offset: 21586},
+																					pos: position{line: 680, col: 14, offset: 21687},
 																					run: (*parser).callonListContinuationElement882,
 																					expr: &seqExpr{
-																						pos: position{line: 678, col: 14, offset: 21586},
+																						pos: position{line: 680, col: 14, offset: 21687},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2927, col: 11, offset: 92158},
+																								pos: position{line: 2929, col: 11, offset: 92259},
 																								expr: &anyMatcher{
-																									line: 2927, col: 13, offset: 92160,
+																									line: 2929, col: 13, offset: 92261,
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 678, col: 21, offset: 21593},
+																								pos: position{line: 680, col: 21, offset: 21694},
 																								expr: &actionExpr{
-																									pos: position{line: 2910, col: 10, offset: 91824},
+																									pos: position{line: 2912, col: 10, offset: 91925},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2910, col: 10, offset: 91824},
+																										pos:        position{line: 2912, col: 10, offset: 91925},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33894,28 +33894,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2932, col: 8, offset: 92222},
+																								pos: position{line: 2934, col: 8, offset: 92323},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2919, col: 12, offset: 91995},
+																										pos: position{line: 2921, col: 12, offset: 92096},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2919, col: 13, offset: 91996},
+																											pos: position{line: 2921, col: 13, offset: 92097},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 13, offset: 91996},
+																													pos:        position{line: 2921, col: 13, offset: 92097},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 20, offset: 92003},
+																													pos:        position{line: 2921, col: 20, offset: 92104},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 29, offset: 92012},
+																													pos:        position{line: 2921, col: 29, offset: 92113},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33924,9 +33924,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2929, col: 8, offset: 92172},
+																										pos: position{line: 2931, col: 8, offset: 92273},
 																										expr: &anyMatcher{
-																											line: 2929, col: 9, offset: 92173,
+																											line: 2931, col: 9, offset: 92274,
 																										},
 																									},
 																								},
@@ -33936,21 +33936,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 984, col: 5, offset: 30771},
+																				pos:        position{line: 986, col: 5, offset: 30872},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 985, col: 5, offset: 30781},
+																				pos:   position{line: 987, col: 5, offset: 30882},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2860, col: 14, offset: 90417},
+																					pos: position{line: 2862, col: 14, offset: 90518},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2860, col: 14, offset: 90417},
+																						pos: position{line: 2862, col: 14, offset: 90518},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2860, col: 14, offset: 90417},
+																							pos:        position{line: 2862, col: 14, offset: 90518},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33960,28 +33960,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2932, col: 8, offset: 92222},
+																				pos: position{line: 2934, col: 8, offset: 92323},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2919, col: 12, offset: 91995},
+																						pos: position{line: 2921, col: 12, offset: 92096},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2919, col: 13, offset: 91996},
+																							pos: position{line: 2921, col: 13, offset: 92097},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2919, col: 13, offset: 91996},
+																									pos:        position{line: 2921, col: 13, offset: 92097},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2919, col: 20, offset: 92003},
+																									pos:        position{line: 2921, col: 20, offset: 92104},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2919, col: 29, offset: 92012},
+																									pos:        position{line: 2921, col: 29, offset: 92113},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33990,9 +33990,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2929, col: 8, offset: 92172},
+																						pos: position{line: 2931, col: 8, offset: 92273},
 																						expr: &anyMatcher{
-																							line: 2929, col: 9, offset: 92173,
+																							line: 2931, col: 9, offset: 92274,
 																						},
 																					},
 																				},
@@ -34001,21 +34001,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1792, col: 5, offset: 57884},
+																	pos: position{line: 1794, col: 5, offset: 57985},
 																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 1792, col: 5, offset: 57884},
+																		pos: position{line: 1794, col: 5, offset: 57985},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1792, col: 5, offset: 57884},
+																				pos:   position{line: 1794, col: 5, offset: 57985},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2860, col: 14, offset: 90417},
+																					pos: position{line: 2862, col: 14, offset: 90518},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2860, col: 14, offset: 90417},
+																						pos: position{line: 2862, col: 14, offset: 90518},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2860, col: 14, offset: 90417},
+																							pos:        position{line: 2862, col: 14, offset: 90518},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34025,32 +34025,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1793, col: 5, offset: 57908},
+																				pos: position{line: 1795, col: 5, offset: 58009},
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2932, col: 8, offset: 92222},
+																				pos: position{line: 2934, col: 8, offset: 92323},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2919, col: 12, offset: 91995},
+																						pos: position{line: 2921, col: 12, offset: 92096},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2919, col: 13, offset: 91996},
+																							pos: position{line: 2921, col: 13, offset: 92097},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2919, col: 13, offset: 91996},
+																									pos:        position{line: 2921, col: 13, offset: 92097},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2919, col: 20, offset: 92003},
+																									pos:        position{line: 2921, col: 20, offset: 92104},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2919, col: 29, offset: 92012},
+																									pos:        position{line: 2921, col: 29, offset: 92113},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34059,9 +34059,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2929, col: 8, offset: 92172},
+																						pos: position{line: 2931, col: 8, offset: 92273},
 																						expr: &anyMatcher{
-																							line: 2929, col: 9, offset: 92173,
+																							line: 2931, col: 9, offset: 92274,
 																						},
 																					},
 																				},
@@ -34077,28 +34077,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 998, col: 5, offset: 31046},
+										pos: position{line: 1000, col: 5, offset: 31147},
 										run: (*parser).callonListContinuationElement925,
 										expr: &seqExpr{
-											pos: position{line: 998, col: 5, offset: 31046},
+											pos: position{line: 1000, col: 5, offset: 31147},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 998, col: 5, offset: 31046},
+													pos:   position{line: 1000, col: 5, offset: 31147},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 777, col: 5, offset: 24958},
+														pos: position{line: 779, col: 5, offset: 25059},
 														run: (*parser).callonListContinuationElement928,
 														expr: &seqExpr{
-															pos: position{line: 777, col: 5, offset: 24958},
+															pos: position{line: 779, col: 5, offset: 25059},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 777, col: 5, offset: 24958},
+																	pos:   position{line: 779, col: 5, offset: 25059},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 777, col: 16, offset: 24969},
+																		pos: position{line: 779, col: 16, offset: 25070},
 																		run: (*parser).callonListContinuationElement931,
 																		expr: &litMatcher{
-																			pos:        position{line: 777, col: 16, offset: 24969},
+																			pos:        position{line: 779, col: 16, offset: 25070},
 																			val:        "--",
 																			ignoreCase: false,
 																			want:       "\"--\"",
@@ -34106,12 +34106,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 779, col: 8, offset: 25046},
+																	pos: position{line: 781, col: 8, offset: 25147},
 																	expr: &actionExpr{
-																		pos: position{line: 2910, col: 10, offset: 91824},
+																		pos: position{line: 2912, col: 10, offset: 91925},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2910, col: 10, offset: 91824},
+																			pos:        position{line: 2912, col: 10, offset: 91925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34120,28 +34120,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2932, col: 8, offset: 92222},
+																	pos: position{line: 2934, col: 8, offset: 92323},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2919, col: 12, offset: 91995},
+																			pos: position{line: 2921, col: 12, offset: 92096},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2919, col: 13, offset: 91996},
+																				pos: position{line: 2921, col: 13, offset: 92097},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 13, offset: 91996},
+																						pos:        position{line: 2921, col: 13, offset: 92097},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 20, offset: 92003},
+																						pos:        position{line: 2921, col: 20, offset: 92104},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 29, offset: 92012},
+																						pos:        position{line: 2921, col: 29, offset: 92113},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34150,9 +34150,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2929, col: 8, offset: 92172},
+																			pos: position{line: 2931, col: 8, offset: 92273},
 																			expr: &anyMatcher{
-																				line: 2929, col: 9, offset: 92173,
+																				line: 2931, col: 9, offset: 92274,
 																			},
 																		},
 																	},
@@ -34162,35 +34162,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 999, col: 5, offset: 31082},
+													pos:   position{line: 1001, col: 5, offset: 31183},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1009, col: 5, offset: 31350},
+														pos: position{line: 1011, col: 5, offset: 31451},
 														expr: &actionExpr{
-															pos: position{line: 1009, col: 6, offset: 31351},
+															pos: position{line: 1011, col: 6, offset: 31452},
 															run: (*parser).callonListContinuationElement946,
 															expr: &seqExpr{
-																pos: position{line: 1009, col: 6, offset: 31351},
+																pos: position{line: 1011, col: 6, offset: 31452},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1009, col: 6, offset: 31351},
+																		pos: position{line: 1011, col: 6, offset: 31452},
 																		expr: &choiceExpr{
-																			pos: position{line: 1006, col: 26, offset: 31299},
+																			pos: position{line: 1008, col: 26, offset: 31400},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 777, col: 5, offset: 24958},
+																					pos: position{line: 779, col: 5, offset: 25059},
 																					run: (*parser).callonListContinuationElement950,
 																					expr: &seqExpr{
-																						pos: position{line: 777, col: 5, offset: 24958},
+																						pos: position{line: 779, col: 5, offset: 25059},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 777, col: 5, offset: 24958},
+																								pos:   position{line: 779, col: 5, offset: 25059},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 777, col: 16, offset: 24969},
+																									pos: position{line: 779, col: 16, offset: 25070},
 																									run: (*parser).callonListContinuationElement953,
 																									expr: &litMatcher{
-																										pos:        position{line: 777, col: 16, offset: 24969},
+																										pos:        position{line: 779, col: 16, offset: 25070},
 																										val:        "--",
 																										ignoreCase: false,
 																										want:       "\"--\"",
@@ -34198,12 +34198,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 779, col: 8, offset: 25046},
+																								pos: position{line: 781, col: 8, offset: 25147},
 																								expr: &actionExpr{
-																									pos: position{line: 2910, col: 10, offset: 91824},
+																									pos: position{line: 2912, col: 10, offset: 91925},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2910, col: 10, offset: 91824},
+																										pos:        position{line: 2912, col: 10, offset: 91925},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34212,28 +34212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2932, col: 8, offset: 92222},
+																								pos: position{line: 2934, col: 8, offset: 92323},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2919, col: 12, offset: 91995},
+																										pos: position{line: 2921, col: 12, offset: 92096},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2919, col: 13, offset: 91996},
+																											pos: position{line: 2921, col: 13, offset: 92097},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 13, offset: 91996},
+																													pos:        position{line: 2921, col: 13, offset: 92097},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 20, offset: 92003},
+																													pos:        position{line: 2921, col: 20, offset: 92104},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2919, col: 29, offset: 92012},
+																													pos:        position{line: 2921, col: 29, offset: 92113},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34242,9 +34242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2929, col: 8, offset: 92172},
+																										pos: position{line: 2931, col: 8, offset: 92273},
 																										expr: &anyMatcher{
-																											line: 2929, col: 9, offset: 92173,
+																											line: 2931, col: 9, offset: 92274,
 																										},
 																									},
 																								},
@@ -34253,39 +34253,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1010, col: 5, offset: 31378},
+																		pos:   position{line: 1012, col: 5, offset: 31479},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26185},
+																			pos: position{line: 814, col: 5, offset: 26286},
 																			run: (*parser).callonListContinuationElement969,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26185},
+																				pos: position{line: 814, col: 5, offset: 26286},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2927, col: 11, offset: 92158},
+																						pos: position{line: 2929, col: 11, offset: 92259},
 																						expr: &anyMatcher{
-																							line: 2927, col: 13, offset: 92160,
+																							line: 2929, col: 13, offset: 92261,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26260},
+																						pos:   position{line: 815, col: 5, offset: 26361},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2856, col: 13, offset: 90350},
+																							pos: position{line: 2858, col: 13, offset: 90451},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2856, col: 13, offset: 90350},
+																								pos: position{line: 2858, col: 13, offset: 90451},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 13, offset: 90350},
+																									pos:        position{line: 2858, col: 13, offset: 90451},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34295,28 +34295,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2932, col: 8, offset: 92222},
+																						pos: position{line: 2934, col: 8, offset: 92323},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2919, col: 12, offset: 91995},
+																								pos: position{line: 2921, col: 12, offset: 92096},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2919, col: 13, offset: 91996},
+																									pos: position{line: 2921, col: 13, offset: 92097},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 13, offset: 91996},
+																											pos:        position{line: 2921, col: 13, offset: 92097},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 20, offset: 92003},
+																											pos:        position{line: 2921, col: 20, offset: 92104},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 29, offset: 92012},
+																											pos:        position{line: 2921, col: 29, offset: 92113},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34325,9 +34325,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2929, col: 8, offset: 92172},
+																								pos: position{line: 2931, col: 8, offset: 92273},
 																								expr: &anyMatcher{
-																									line: 2929, col: 9, offset: 92173,
+																									line: 2931, col: 9, offset: 92274,
 																								},
 																							},
 																						},
@@ -34342,27 +34342,27 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1000, col: 5, offset: 31113},
+													pos:   position{line: 1002, col: 5, offset: 31214},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1000, col: 9, offset: 31117},
+														pos: position{line: 1002, col: 9, offset: 31218},
 														expr: &choiceExpr{
-															pos: position{line: 1006, col: 26, offset: 31299},
+															pos: position{line: 1008, col: 26, offset: 31400},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 777, col: 5, offset: 24958},
+																	pos: position{line: 779, col: 5, offset: 25059},
 																	run: (*parser).callonListContinuationElement988,
 																	expr: &seqExpr{
-																		pos: position{line: 777, col: 5, offset: 24958},
+																		pos: position{line: 779, col: 5, offset: 25059},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 777, col: 5, offset: 24958},
+																				pos:   position{line: 779, col: 5, offset: 25059},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 777, col: 16, offset: 24969},
+																					pos: position{line: 779, col: 16, offset: 25070},
 																					run: (*parser).callonListContinuationElement991,
 																					expr: &litMatcher{
-																						pos:        position{line: 777, col: 16, offset: 24969},
+																						pos:        position{line: 779, col: 16, offset: 25070},
 																						val:        "--",
 																						ignoreCase: false,
 																						want:       "\"--\"",
@@ -34370,12 +34370,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 779, col: 8, offset: 25046},
+																				pos: position{line: 781, col: 8, offset: 25147},
 																				expr: &actionExpr{
-																					pos: position{line: 2910, col: 10, offset: 91824},
+																					pos: position{line: 2912, col: 10, offset: 91925},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2910, col: 10, offset: 91824},
+																						pos:        position{line: 2912, col: 10, offset: 91925},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34384,28 +34384,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2932, col: 8, offset: 92222},
+																				pos: position{line: 2934, col: 8, offset: 92323},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2919, col: 12, offset: 91995},
+																						pos: position{line: 2921, col: 12, offset: 92096},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2919, col: 13, offset: 91996},
+																							pos: position{line: 2921, col: 13, offset: 92097},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2919, col: 13, offset: 91996},
+																									pos:        position{line: 2921, col: 13, offset: 92097},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2919, col: 20, offset: 92003},
+																									pos:        position{line: 2921, col: 20, offset: 92104},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2919, col: 29, offset: 92012},
+																									pos:        position{line: 2921, col: 29, offset: 92113},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34414,9 +34414,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2929, col: 8, offset: 92172},
+																						pos: position{line: 2931, col: 8, offset: 92273},
 																						expr: &anyMatcher{
-																							line: 2929, col: 9, offset: 92173,
+																							line: 2931, col: 9, offset: 92274,
 																						},
 																					},
 																				},
@@ -34425,9 +34425,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2929, col: 8, offset: 92172},
+																	pos: position{line: 2931, col: 8, offset: 92273},
 																	expr: &anyMatcher{
-																		line: 2929, col: 9, offset: 92173,
+																		line: 2931, col: 9, offset: 92274,
 																	},
 																},
 															},
@@ -34438,39 +34438,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1018, col: 5, offset: 31541},
+										pos: position{line: 1020, col: 5, offset: 31642},
 										run: (*parser).callonListContinuationElement1006,
 										expr: &seqExpr{
-											pos: position{line: 1018, col: 5, offset: 31541},
+											pos: position{line: 1020, col: 5, offset: 31642},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1018, col: 5, offset: 31541},
+													pos:   position{line: 1020, col: 5, offset: 31642},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 791, col: 5, offset: 25441},
+														pos: position{line: 793, col: 5, offset: 25542},
 														run: (*parser).callonListContinuationElement1009,
 														expr: &seqExpr{
-															pos: position{line: 791, col: 5, offset: 25441},
+															pos: position{line: 793, col: 5, offset: 25542},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 791, col: 5, offset: 25441},
+																	pos:   position{line: 793, col: 5, offset: 25542},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 791, col: 16, offset: 25452},
+																		pos: position{line: 793, col: 16, offset: 25553},
 																		run: (*parser).callonListContinuationElement1012,
 																		expr: &seqExpr{
-																			pos: position{line: 791, col: 16, offset: 25452},
+																			pos: position{line: 793, col: 16, offset: 25553},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 791, col: 16, offset: 25452},
+																					pos:        position{line: 793, col: 16, offset: 25553},
 																					val:        "++++",
 																					ignoreCase: false,
 																					want:       "\"++++\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 791, col: 23, offset: 25459},
+																					pos: position{line: 793, col: 23, offset: 25560},
 																					expr: &litMatcher{
-																						pos:        position{line: 791, col: 23, offset: 25459},
+																						pos:        position{line: 793, col: 23, offset: 25560},
 																						val:        "+",
 																						ignoreCase: false,
 																						want:       "\"+\"",
@@ -34481,12 +34481,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 793, col: 8, offset: 25543},
+																	pos: position{line: 795, col: 8, offset: 25644},
 																	expr: &actionExpr{
-																		pos: position{line: 2910, col: 10, offset: 91824},
+																		pos: position{line: 2912, col: 10, offset: 91925},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2910, col: 10, offset: 91824},
+																			pos:        position{line: 2912, col: 10, offset: 91925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34495,28 +34495,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2932, col: 8, offset: 92222},
+																	pos: position{line: 2934, col: 8, offset: 92323},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2919, col: 12, offset: 91995},
+																			pos: position{line: 2921, col: 12, offset: 92096},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2919, col: 13, offset: 91996},
+																				pos: position{line: 2921, col: 13, offset: 92097},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 13, offset: 91996},
+																						pos:        position{line: 2921, col: 13, offset: 92097},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 20, offset: 92003},
+																						pos:        position{line: 2921, col: 20, offset: 92104},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 29, offset: 92012},
+																						pos:        position{line: 2921, col: 29, offset: 92113},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34525,9 +34525,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2929, col: 8, offset: 92172},
+																			pos: position{line: 2931, col: 8, offset: 92273},
 																			expr: &anyMatcher{
-																				line: 2929, col: 9, offset: 92173,
+																				line: 2931, col: 9, offset: 92274,
 																			},
 																		},
 																	},
@@ -34537,56 +34537,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1019, col: 5, offset: 31584},
+													pos: position{line: 1021, col: 5, offset: 31685},
 													run: (*parser).callonListContinuationElement1028,
 												},
 												&labeledExpr{
-													pos:   position{line: 1022, col: 5, offset: 31676},
+													pos:   position{line: 1024, col: 5, offset: 31777},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1037, col: 5, offset: 32106},
+														pos: position{line: 1039, col: 5, offset: 32207},
 														expr: &actionExpr{
-															pos: position{line: 1037, col: 6, offset: 32107},
+															pos: position{line: 1039, col: 6, offset: 32208},
 															run: (*parser).callonListContinuationElement1031,
 															expr: &seqExpr{
-																pos: position{line: 1037, col: 6, offset: 32107},
+																pos: position{line: 1039, col: 6, offset: 32208},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1037, col: 6, offset: 32107},
+																		pos: position{line: 1039, col: 6, offset: 32208},
 																		expr: &choiceExpr{
-																			pos: position{line: 1030, col: 5, offset: 31940},
+																			pos: position{line: 1032, col: 5, offset: 32041},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1030, col: 5, offset: 31940},
+																					pos: position{line: 1032, col: 5, offset: 32041},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1030, col: 5, offset: 31940},
+																							pos:   position{line: 1032, col: 5, offset: 32041},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 791, col: 5, offset: 25441},
+																								pos: position{line: 793, col: 5, offset: 25542},
 																								run: (*parser).callonListContinuationElement1037,
 																								expr: &seqExpr{
-																									pos: position{line: 791, col: 5, offset: 25441},
+																									pos: position{line: 793, col: 5, offset: 25542},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 791, col: 5, offset: 25441},
+																											pos:   position{line: 793, col: 5, offset: 25542},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 791, col: 16, offset: 25452},
+																												pos: position{line: 793, col: 16, offset: 25553},
 																												run: (*parser).callonListContinuationElement1040,
 																												expr: &seqExpr{
-																													pos: position{line: 791, col: 16, offset: 25452},
+																													pos: position{line: 793, col: 16, offset: 25553},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 791, col: 16, offset: 25452},
+																															pos:        position{line: 793, col: 16, offset: 25553},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 791, col: 23, offset: 25459},
+																															pos: position{line: 793, col: 23, offset: 25560},
 																															expr: &litMatcher{
-																																pos:        position{line: 791, col: 23, offset: 25459},
+																																pos:        position{line: 793, col: 23, offset: 25560},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -34597,12 +34597,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 793, col: 8, offset: 25543},
+																											pos: position{line: 795, col: 8, offset: 25644},
 																											expr: &actionExpr{
-																												pos: position{line: 2910, col: 10, offset: 91824},
+																												pos: position{line: 2912, col: 10, offset: 91925},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2910, col: 10, offset: 91824},
+																													pos:        position{line: 2912, col: 10, offset: 91925},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34611,28 +34611,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2932, col: 8, offset: 92222},
+																											pos: position{line: 2934, col: 8, offset: 92323},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2919, col: 12, offset: 91995},
+																													pos: position{line: 2921, col: 12, offset: 92096},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2919, col: 13, offset: 91996},
+																														pos: position{line: 2921, col: 13, offset: 92097},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 13, offset: 91996},
+																																pos:        position{line: 2921, col: 13, offset: 92097},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 20, offset: 92003},
+																																pos:        position{line: 2921, col: 20, offset: 92104},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 29, offset: 92012},
+																																pos:        position{line: 2921, col: 29, offset: 92113},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34641,9 +34641,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2929, col: 8, offset: 92172},
+																													pos: position{line: 2931, col: 8, offset: 92273},
 																													expr: &anyMatcher{
-																														line: 2929, col: 9, offset: 92173,
+																														line: 2931, col: 9, offset: 92274,
 																													},
 																												},
 																											},
@@ -34653,45 +34653,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1031, col: 5, offset: 31975},
+																							pos: position{line: 1033, col: 5, offset: 32076},
 																							run: (*parser).callonListContinuationElement1056,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1038, col: 5, offset: 32141},
+																		pos:   position{line: 1040, col: 5, offset: 32242},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26185},
+																			pos: position{line: 814, col: 5, offset: 26286},
 																			run: (*parser).callonListContinuationElement1060,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26185},
+																				pos: position{line: 814, col: 5, offset: 26286},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2927, col: 11, offset: 92158},
+																						pos: position{line: 2929, col: 11, offset: 92259},
 																						expr: &anyMatcher{
-																							line: 2927, col: 13, offset: 92160,
+																							line: 2929, col: 13, offset: 92261,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26260},
+																						pos:   position{line: 815, col: 5, offset: 26361},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2856, col: 13, offset: 90350},
+																							pos: position{line: 2858, col: 13, offset: 90451},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2856, col: 13, offset: 90350},
+																								pos: position{line: 2858, col: 13, offset: 90451},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 13, offset: 90350},
+																									pos:        position{line: 2858, col: 13, offset: 90451},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34701,28 +34701,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2932, col: 8, offset: 92222},
+																						pos: position{line: 2934, col: 8, offset: 92323},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2919, col: 12, offset: 91995},
+																								pos: position{line: 2921, col: 12, offset: 92096},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2919, col: 13, offset: 91996},
+																									pos: position{line: 2921, col: 13, offset: 92097},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 13, offset: 91996},
+																											pos:        position{line: 2921, col: 13, offset: 92097},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 20, offset: 92003},
+																											pos:        position{line: 2921, col: 20, offset: 92104},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 29, offset: 92012},
+																											pos:        position{line: 2921, col: 29, offset: 92113},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34731,9 +34731,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2929, col: 8, offset: 92172},
+																								pos: position{line: 2931, col: 8, offset: 92273},
 																								expr: &anyMatcher{
-																									line: 2929, col: 9, offset: 92173,
+																									line: 2931, col: 9, offset: 92274,
 																								},
 																							},
 																						},
@@ -34748,44 +34748,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1023, col: 5, offset: 31714},
+													pos:   position{line: 1025, col: 5, offset: 31815},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1023, col: 9, offset: 31718},
+														pos: position{line: 1025, col: 9, offset: 31819},
 														expr: &choiceExpr{
-															pos: position{line: 1030, col: 5, offset: 31940},
+															pos: position{line: 1032, col: 5, offset: 32041},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1030, col: 5, offset: 31940},
+																	pos: position{line: 1032, col: 5, offset: 32041},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1030, col: 5, offset: 31940},
+																			pos:   position{line: 1032, col: 5, offset: 32041},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 791, col: 5, offset: 25441},
+																				pos: position{line: 793, col: 5, offset: 25542},
 																				run: (*parser).callonListContinuationElement1081,
 																				expr: &seqExpr{
-																					pos: position{line: 791, col: 5, offset: 25441},
+																					pos: position{line: 793, col: 5, offset: 25542},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 791, col: 5, offset: 25441},
+																							pos:   position{line: 793, col: 5, offset: 25542},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 791, col: 16, offset: 25452},
+																								pos: position{line: 793, col: 16, offset: 25553},
 																								run: (*parser).callonListContinuationElement1084,
 																								expr: &seqExpr{
-																									pos: position{line: 791, col: 16, offset: 25452},
+																									pos: position{line: 793, col: 16, offset: 25553},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 791, col: 16, offset: 25452},
+																											pos:        position{line: 793, col: 16, offset: 25553},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 791, col: 23, offset: 25459},
+																											pos: position{line: 793, col: 23, offset: 25560},
 																											expr: &litMatcher{
-																												pos:        position{line: 791, col: 23, offset: 25459},
+																												pos:        position{line: 793, col: 23, offset: 25560},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -34796,12 +34796,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 793, col: 8, offset: 25543},
+																							pos: position{line: 795, col: 8, offset: 25644},
 																							expr: &actionExpr{
-																								pos: position{line: 2910, col: 10, offset: 91824},
+																								pos: position{line: 2912, col: 10, offset: 91925},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2910, col: 10, offset: 91824},
+																									pos:        position{line: 2912, col: 10, offset: 91925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34810,28 +34810,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34840,9 +34840,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -34852,15 +34852,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1031, col: 5, offset: 31975},
+																			pos: position{line: 1033, col: 5, offset: 32076},
 																			run: (*parser).callonListContinuationElement1100,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2929, col: 8, offset: 92172},
+																	pos: position{line: 2931, col: 8, offset: 92273},
 																	expr: &anyMatcher{
-																		line: 2929, col: 9, offset: 92173,
+																		line: 2931, col: 9, offset: 92274,
 																	},
 																},
 															},
@@ -34871,39 +34871,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1046, col: 5, offset: 32292},
+										pos: position{line: 1048, col: 5, offset: 32393},
 										run: (*parser).callonListContinuationElement1103,
 										expr: &seqExpr{
-											pos: position{line: 1046, col: 5, offset: 32292},
+											pos: position{line: 1048, col: 5, offset: 32393},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1046, col: 5, offset: 32292},
+													pos:   position{line: 1048, col: 5, offset: 32393},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 798, col: 5, offset: 25691},
+														pos: position{line: 800, col: 5, offset: 25792},
 														run: (*parser).callonListContinuationElement1106,
 														expr: &seqExpr{
-															pos: position{line: 798, col: 5, offset: 25691},
+															pos: position{line: 800, col: 5, offset: 25792},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 798, col: 5, offset: 25691},
+																	pos:   position{line: 800, col: 5, offset: 25792},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 798, col: 16, offset: 25702},
+																		pos: position{line: 800, col: 16, offset: 25803},
 																		run: (*parser).callonListContinuationElement1109,
 																		expr: &seqExpr{
-																			pos: position{line: 798, col: 16, offset: 25702},
+																			pos: position{line: 800, col: 16, offset: 25803},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 798, col: 16, offset: 25702},
+																					pos:        position{line: 800, col: 16, offset: 25803},
 																					val:        "____",
 																					ignoreCase: false,
 																					want:       "\"____\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 798, col: 23, offset: 25709},
+																					pos: position{line: 800, col: 23, offset: 25810},
 																					expr: &litMatcher{
-																						pos:        position{line: 798, col: 23, offset: 25709},
+																						pos:        position{line: 800, col: 23, offset: 25810},
 																						val:        "_",
 																						ignoreCase: false,
 																						want:       "\"_\"",
@@ -34914,12 +34914,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 800, col: 8, offset: 25793},
+																	pos: position{line: 802, col: 8, offset: 25894},
 																	expr: &actionExpr{
-																		pos: position{line: 2910, col: 10, offset: 91824},
+																		pos: position{line: 2912, col: 10, offset: 91925},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2910, col: 10, offset: 91824},
+																			pos:        position{line: 2912, col: 10, offset: 91925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34928,28 +34928,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2932, col: 8, offset: 92222},
+																	pos: position{line: 2934, col: 8, offset: 92323},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2919, col: 12, offset: 91995},
+																			pos: position{line: 2921, col: 12, offset: 92096},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2919, col: 13, offset: 91996},
+																				pos: position{line: 2921, col: 13, offset: 92097},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 13, offset: 91996},
+																						pos:        position{line: 2921, col: 13, offset: 92097},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 20, offset: 92003},
+																						pos:        position{line: 2921, col: 20, offset: 92104},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 29, offset: 92012},
+																						pos:        position{line: 2921, col: 29, offset: 92113},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34958,9 +34958,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2929, col: 8, offset: 92172},
+																			pos: position{line: 2931, col: 8, offset: 92273},
 																			expr: &anyMatcher{
-																				line: 2929, col: 9, offset: 92173,
+																				line: 2931, col: 9, offset: 92274,
 																			},
 																		},
 																	},
@@ -34970,56 +34970,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1047, col: 5, offset: 32329},
+													pos: position{line: 1049, col: 5, offset: 32430},
 													run: (*parser).callonListContinuationElement1125,
 												},
 												&labeledExpr{
-													pos:   position{line: 1050, col: 5, offset: 32421},
+													pos:   position{line: 1052, col: 5, offset: 32522},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1065, col: 4, offset: 32802},
+														pos: position{line: 1067, col: 4, offset: 32903},
 														expr: &actionExpr{
-															pos: position{line: 1065, col: 5, offset: 32803},
+															pos: position{line: 1067, col: 5, offset: 32904},
 															run: (*parser).callonListContinuationElement1128,
 															expr: &seqExpr{
-																pos: position{line: 1065, col: 5, offset: 32803},
+																pos: position{line: 1067, col: 5, offset: 32904},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1065, col: 5, offset: 32803},
+																		pos: position{line: 1067, col: 5, offset: 32904},
 																		expr: &choiceExpr{
-																			pos: position{line: 1058, col: 5, offset: 32649},
+																			pos: position{line: 1060, col: 5, offset: 32750},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1058, col: 5, offset: 32649},
+																					pos: position{line: 1060, col: 5, offset: 32750},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1058, col: 5, offset: 32649},
+																							pos:   position{line: 1060, col: 5, offset: 32750},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 798, col: 5, offset: 25691},
+																								pos: position{line: 800, col: 5, offset: 25792},
 																								run: (*parser).callonListContinuationElement1134,
 																								expr: &seqExpr{
-																									pos: position{line: 798, col: 5, offset: 25691},
+																									pos: position{line: 800, col: 5, offset: 25792},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 798, col: 5, offset: 25691},
+																											pos:   position{line: 800, col: 5, offset: 25792},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 798, col: 16, offset: 25702},
+																												pos: position{line: 800, col: 16, offset: 25803},
 																												run: (*parser).callonListContinuationElement1137,
 																												expr: &seqExpr{
-																													pos: position{line: 798, col: 16, offset: 25702},
+																													pos: position{line: 800, col: 16, offset: 25803},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 798, col: 16, offset: 25702},
+																															pos:        position{line: 800, col: 16, offset: 25803},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 798, col: 23, offset: 25709},
+																															pos: position{line: 800, col: 23, offset: 25810},
 																															expr: &litMatcher{
-																																pos:        position{line: 798, col: 23, offset: 25709},
+																																pos:        position{line: 800, col: 23, offset: 25810},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -35030,12 +35030,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 800, col: 8, offset: 25793},
+																											pos: position{line: 802, col: 8, offset: 25894},
 																											expr: &actionExpr{
-																												pos: position{line: 2910, col: 10, offset: 91824},
+																												pos: position{line: 2912, col: 10, offset: 91925},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2910, col: 10, offset: 91824},
+																													pos:        position{line: 2912, col: 10, offset: 91925},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35044,28 +35044,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2932, col: 8, offset: 92222},
+																											pos: position{line: 2934, col: 8, offset: 92323},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2919, col: 12, offset: 91995},
+																													pos: position{line: 2921, col: 12, offset: 92096},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2919, col: 13, offset: 91996},
+																														pos: position{line: 2921, col: 13, offset: 92097},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 13, offset: 91996},
+																																pos:        position{line: 2921, col: 13, offset: 92097},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 20, offset: 92003},
+																																pos:        position{line: 2921, col: 20, offset: 92104},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 29, offset: 92012},
+																																pos:        position{line: 2921, col: 29, offset: 92113},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35074,9 +35074,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2929, col: 8, offset: 92172},
+																													pos: position{line: 2931, col: 8, offset: 92273},
 																													expr: &anyMatcher{
-																														line: 2929, col: 9, offset: 92173,
+																														line: 2931, col: 9, offset: 92274,
 																													},
 																												},
 																											},
@@ -35086,45 +35086,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1059, col: 5, offset: 32678},
+																							pos: position{line: 1061, col: 5, offset: 32779},
 																							run: (*parser).callonListContinuationElement1153,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1066, col: 5, offset: 32831},
+																		pos:   position{line: 1068, col: 5, offset: 32932},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26185},
+																			pos: position{line: 814, col: 5, offset: 26286},
 																			run: (*parser).callonListContinuationElement1157,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26185},
+																				pos: position{line: 814, col: 5, offset: 26286},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2927, col: 11, offset: 92158},
+																						pos: position{line: 2929, col: 11, offset: 92259},
 																						expr: &anyMatcher{
-																							line: 2927, col: 13, offset: 92160,
+																							line: 2929, col: 13, offset: 92261,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26260},
+																						pos:   position{line: 815, col: 5, offset: 26361},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2856, col: 13, offset: 90350},
+																							pos: position{line: 2858, col: 13, offset: 90451},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2856, col: 13, offset: 90350},
+																								pos: position{line: 2858, col: 13, offset: 90451},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 13, offset: 90350},
+																									pos:        position{line: 2858, col: 13, offset: 90451},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35134,28 +35134,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2932, col: 8, offset: 92222},
+																						pos: position{line: 2934, col: 8, offset: 92323},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2919, col: 12, offset: 91995},
+																								pos: position{line: 2921, col: 12, offset: 92096},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2919, col: 13, offset: 91996},
+																									pos: position{line: 2921, col: 13, offset: 92097},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 13, offset: 91996},
+																											pos:        position{line: 2921, col: 13, offset: 92097},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 20, offset: 92003},
+																											pos:        position{line: 2921, col: 20, offset: 92104},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 29, offset: 92012},
+																											pos:        position{line: 2921, col: 29, offset: 92113},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35164,9 +35164,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2929, col: 8, offset: 92172},
+																								pos: position{line: 2931, col: 8, offset: 92273},
 																								expr: &anyMatcher{
-																									line: 2929, col: 9, offset: 92173,
+																									line: 2931, col: 9, offset: 92274,
 																								},
 																							},
 																						},
@@ -35181,44 +35181,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1051, col: 5, offset: 32453},
+													pos:   position{line: 1053, col: 5, offset: 32554},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1051, col: 9, offset: 32457},
+														pos: position{line: 1053, col: 9, offset: 32558},
 														expr: &choiceExpr{
-															pos: position{line: 1058, col: 5, offset: 32649},
+															pos: position{line: 1060, col: 5, offset: 32750},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1058, col: 5, offset: 32649},
+																	pos: position{line: 1060, col: 5, offset: 32750},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1058, col: 5, offset: 32649},
+																			pos:   position{line: 1060, col: 5, offset: 32750},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 798, col: 5, offset: 25691},
+																				pos: position{line: 800, col: 5, offset: 25792},
 																				run: (*parser).callonListContinuationElement1178,
 																				expr: &seqExpr{
-																					pos: position{line: 798, col: 5, offset: 25691},
+																					pos: position{line: 800, col: 5, offset: 25792},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 798, col: 5, offset: 25691},
+																							pos:   position{line: 800, col: 5, offset: 25792},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 798, col: 16, offset: 25702},
+																								pos: position{line: 800, col: 16, offset: 25803},
 																								run: (*parser).callonListContinuationElement1181,
 																								expr: &seqExpr{
-																									pos: position{line: 798, col: 16, offset: 25702},
+																									pos: position{line: 800, col: 16, offset: 25803},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 798, col: 16, offset: 25702},
+																											pos:        position{line: 800, col: 16, offset: 25803},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 798, col: 23, offset: 25709},
+																											pos: position{line: 800, col: 23, offset: 25810},
 																											expr: &litMatcher{
-																												pos:        position{line: 798, col: 23, offset: 25709},
+																												pos:        position{line: 800, col: 23, offset: 25810},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -35229,12 +35229,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 800, col: 8, offset: 25793},
+																							pos: position{line: 802, col: 8, offset: 25894},
 																							expr: &actionExpr{
-																								pos: position{line: 2910, col: 10, offset: 91824},
+																								pos: position{line: 2912, col: 10, offset: 91925},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2910, col: 10, offset: 91824},
+																									pos:        position{line: 2912, col: 10, offset: 91925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35243,28 +35243,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35273,9 +35273,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -35285,15 +35285,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1059, col: 5, offset: 32678},
+																			pos: position{line: 1061, col: 5, offset: 32779},
 																			run: (*parser).callonListContinuationElement1197,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2929, col: 8, offset: 92172},
+																	pos: position{line: 2931, col: 8, offset: 92273},
 																	expr: &anyMatcher{
-																		line: 2929, col: 9, offset: 92173,
+																		line: 2931, col: 9, offset: 92274,
 																	},
 																},
 															},
@@ -35304,39 +35304,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1074, col: 5, offset: 32986},
+										pos: position{line: 1076, col: 5, offset: 33087},
 										run: (*parser).callonListContinuationElement1200,
 										expr: &seqExpr{
-											pos: position{line: 1074, col: 5, offset: 32986},
+											pos: position{line: 1076, col: 5, offset: 33087},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1074, col: 5, offset: 32986},
+													pos:   position{line: 1076, col: 5, offset: 33087},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 805, col: 5, offset: 25937},
+														pos: position{line: 807, col: 5, offset: 26038},
 														run: (*parser).callonListContinuationElement1203,
 														expr: &seqExpr{
-															pos: position{line: 805, col: 5, offset: 25937},
+															pos: position{line: 807, col: 5, offset: 26038},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 805, col: 5, offset: 25937},
+																	pos:   position{line: 807, col: 5, offset: 26038},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 805, col: 16, offset: 25948},
+																		pos: position{line: 807, col: 16, offset: 26049},
 																		run: (*parser).callonListContinuationElement1206,
 																		expr: &seqExpr{
-																			pos: position{line: 805, col: 16, offset: 25948},
+																			pos: position{line: 807, col: 16, offset: 26049},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 805, col: 16, offset: 25948},
+																					pos:        position{line: 807, col: 16, offset: 26049},
 																					val:        "****",
 																					ignoreCase: false,
 																					want:       "\"****\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 805, col: 23, offset: 25955},
+																					pos: position{line: 807, col: 23, offset: 26056},
 																					expr: &litMatcher{
-																						pos:        position{line: 805, col: 23, offset: 25955},
+																						pos:        position{line: 807, col: 23, offset: 26056},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -35347,12 +35347,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 807, col: 8, offset: 26039},
+																	pos: position{line: 809, col: 8, offset: 26140},
 																	expr: &actionExpr{
-																		pos: position{line: 2910, col: 10, offset: 91824},
+																		pos: position{line: 2912, col: 10, offset: 91925},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2910, col: 10, offset: 91824},
+																			pos:        position{line: 2912, col: 10, offset: 91925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35361,28 +35361,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2932, col: 8, offset: 92222},
+																	pos: position{line: 2934, col: 8, offset: 92323},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2919, col: 12, offset: 91995},
+																			pos: position{line: 2921, col: 12, offset: 92096},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2919, col: 13, offset: 91996},
+																				pos: position{line: 2921, col: 13, offset: 92097},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 13, offset: 91996},
+																						pos:        position{line: 2921, col: 13, offset: 92097},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 20, offset: 92003},
+																						pos:        position{line: 2921, col: 20, offset: 92104},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 29, offset: 92012},
+																						pos:        position{line: 2921, col: 29, offset: 92113},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35391,9 +35391,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2929, col: 8, offset: 92172},
+																			pos: position{line: 2931, col: 8, offset: 92273},
 																			expr: &anyMatcher{
-																				line: 2929, col: 9, offset: 92173,
+																				line: 2931, col: 9, offset: 92274,
 																			},
 																		},
 																	},
@@ -35403,56 +35403,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1075, col: 5, offset: 33025},
+													pos: position{line: 1077, col: 5, offset: 33126},
 													run: (*parser).callonListContinuationElement1222,
 												},
 												&labeledExpr{
-													pos:   position{line: 1078, col: 5, offset: 33117},
+													pos:   position{line: 1080, col: 5, offset: 33218},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1093, col: 4, offset: 33514},
+														pos: position{line: 1095, col: 4, offset: 33615},
 														expr: &actionExpr{
-															pos: position{line: 1093, col: 5, offset: 33515},
+															pos: position{line: 1095, col: 5, offset: 33616},
 															run: (*parser).callonListContinuationElement1225,
 															expr: &seqExpr{
-																pos: position{line: 1093, col: 5, offset: 33515},
+																pos: position{line: 1095, col: 5, offset: 33616},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1093, col: 5, offset: 33515},
+																		pos: position{line: 1095, col: 5, offset: 33616},
 																		expr: &choiceExpr{
-																			pos: position{line: 1086, col: 5, offset: 33357},
+																			pos: position{line: 1088, col: 5, offset: 33458},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1086, col: 5, offset: 33357},
+																					pos: position{line: 1088, col: 5, offset: 33458},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1086, col: 5, offset: 33357},
+																							pos:   position{line: 1088, col: 5, offset: 33458},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 805, col: 5, offset: 25937},
+																								pos: position{line: 807, col: 5, offset: 26038},
 																								run: (*parser).callonListContinuationElement1231,
 																								expr: &seqExpr{
-																									pos: position{line: 805, col: 5, offset: 25937},
+																									pos: position{line: 807, col: 5, offset: 26038},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 805, col: 5, offset: 25937},
+																											pos:   position{line: 807, col: 5, offset: 26038},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 805, col: 16, offset: 25948},
+																												pos: position{line: 807, col: 16, offset: 26049},
 																												run: (*parser).callonListContinuationElement1234,
 																												expr: &seqExpr{
-																													pos: position{line: 805, col: 16, offset: 25948},
+																													pos: position{line: 807, col: 16, offset: 26049},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 805, col: 16, offset: 25948},
+																															pos:        position{line: 807, col: 16, offset: 26049},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 805, col: 23, offset: 25955},
+																															pos: position{line: 807, col: 23, offset: 26056},
 																															expr: &litMatcher{
-																																pos:        position{line: 805, col: 23, offset: 25955},
+																																pos:        position{line: 807, col: 23, offset: 26056},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -35463,12 +35463,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 807, col: 8, offset: 26039},
+																											pos: position{line: 809, col: 8, offset: 26140},
 																											expr: &actionExpr{
-																												pos: position{line: 2910, col: 10, offset: 91824},
+																												pos: position{line: 2912, col: 10, offset: 91925},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2910, col: 10, offset: 91824},
+																													pos:        position{line: 2912, col: 10, offset: 91925},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35477,28 +35477,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2932, col: 8, offset: 92222},
+																											pos: position{line: 2934, col: 8, offset: 92323},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2919, col: 12, offset: 91995},
+																													pos: position{line: 2921, col: 12, offset: 92096},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2919, col: 13, offset: 91996},
+																														pos: position{line: 2921, col: 13, offset: 92097},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 13, offset: 91996},
+																																pos:        position{line: 2921, col: 13, offset: 92097},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 20, offset: 92003},
+																																pos:        position{line: 2921, col: 20, offset: 92104},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 29, offset: 92012},
+																																pos:        position{line: 2921, col: 29, offset: 92113},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35507,9 +35507,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2929, col: 8, offset: 92172},
+																													pos: position{line: 2931, col: 8, offset: 92273},
 																													expr: &anyMatcher{
-																														line: 2929, col: 9, offset: 92173,
+																														line: 2931, col: 9, offset: 92274,
 																													},
 																												},
 																											},
@@ -35519,45 +35519,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1087, col: 5, offset: 33388},
+																							pos: position{line: 1089, col: 5, offset: 33489},
 																							run: (*parser).callonListContinuationElement1250,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1094, col: 5, offset: 33545},
+																		pos:   position{line: 1096, col: 5, offset: 33646},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26185},
+																			pos: position{line: 814, col: 5, offset: 26286},
 																			run: (*parser).callonListContinuationElement1254,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26185},
+																				pos: position{line: 814, col: 5, offset: 26286},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2927, col: 11, offset: 92158},
+																						pos: position{line: 2929, col: 11, offset: 92259},
 																						expr: &anyMatcher{
-																							line: 2927, col: 13, offset: 92160,
+																							line: 2929, col: 13, offset: 92261,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26260},
+																						pos:   position{line: 815, col: 5, offset: 26361},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2856, col: 13, offset: 90350},
+																							pos: position{line: 2858, col: 13, offset: 90451},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2856, col: 13, offset: 90350},
+																								pos: position{line: 2858, col: 13, offset: 90451},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 13, offset: 90350},
+																									pos:        position{line: 2858, col: 13, offset: 90451},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35567,28 +35567,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2932, col: 8, offset: 92222},
+																						pos: position{line: 2934, col: 8, offset: 92323},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2919, col: 12, offset: 91995},
+																								pos: position{line: 2921, col: 12, offset: 92096},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2919, col: 13, offset: 91996},
+																									pos: position{line: 2921, col: 13, offset: 92097},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 13, offset: 91996},
+																											pos:        position{line: 2921, col: 13, offset: 92097},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 20, offset: 92003},
+																											pos:        position{line: 2921, col: 20, offset: 92104},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 29, offset: 92012},
+																											pos:        position{line: 2921, col: 29, offset: 92113},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35597,9 +35597,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2929, col: 8, offset: 92172},
+																								pos: position{line: 2931, col: 8, offset: 92273},
 																								expr: &anyMatcher{
-																									line: 2929, col: 9, offset: 92173,
+																									line: 2931, col: 9, offset: 92274,
 																								},
 																							},
 																						},
@@ -35614,44 +35614,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1079, col: 5, offset: 33151},
+													pos:   position{line: 1081, col: 5, offset: 33252},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1079, col: 9, offset: 33155},
+														pos: position{line: 1081, col: 9, offset: 33256},
 														expr: &choiceExpr{
-															pos: position{line: 1086, col: 5, offset: 33357},
+															pos: position{line: 1088, col: 5, offset: 33458},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1086, col: 5, offset: 33357},
+																	pos: position{line: 1088, col: 5, offset: 33458},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1086, col: 5, offset: 33357},
+																			pos:   position{line: 1088, col: 5, offset: 33458},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 805, col: 5, offset: 25937},
+																				pos: position{line: 807, col: 5, offset: 26038},
 																				run: (*parser).callonListContinuationElement1275,
 																				expr: &seqExpr{
-																					pos: position{line: 805, col: 5, offset: 25937},
+																					pos: position{line: 807, col: 5, offset: 26038},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 805, col: 5, offset: 25937},
+																							pos:   position{line: 807, col: 5, offset: 26038},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 805, col: 16, offset: 25948},
+																								pos: position{line: 807, col: 16, offset: 26049},
 																								run: (*parser).callonListContinuationElement1278,
 																								expr: &seqExpr{
-																									pos: position{line: 805, col: 16, offset: 25948},
+																									pos: position{line: 807, col: 16, offset: 26049},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 805, col: 16, offset: 25948},
+																											pos:        position{line: 807, col: 16, offset: 26049},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 805, col: 23, offset: 25955},
+																											pos: position{line: 807, col: 23, offset: 26056},
 																											expr: &litMatcher{
-																												pos:        position{line: 805, col: 23, offset: 25955},
+																												pos:        position{line: 807, col: 23, offset: 26056},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -35662,12 +35662,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 807, col: 8, offset: 26039},
+																							pos: position{line: 809, col: 8, offset: 26140},
 																							expr: &actionExpr{
-																								pos: position{line: 2910, col: 10, offset: 91824},
+																								pos: position{line: 2912, col: 10, offset: 91925},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2910, col: 10, offset: 91824},
+																									pos:        position{line: 2912, col: 10, offset: 91925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35676,28 +35676,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2932, col: 8, offset: 92222},
+																							pos: position{line: 2934, col: 8, offset: 92323},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2919, col: 12, offset: 91995},
+																									pos: position{line: 2921, col: 12, offset: 92096},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2919, col: 13, offset: 91996},
+																										pos: position{line: 2921, col: 13, offset: 92097},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 13, offset: 91996},
+																												pos:        position{line: 2921, col: 13, offset: 92097},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 20, offset: 92003},
+																												pos:        position{line: 2921, col: 20, offset: 92104},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2919, col: 29, offset: 92012},
+																												pos:        position{line: 2921, col: 29, offset: 92113},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35706,9 +35706,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2929, col: 8, offset: 92172},
+																									pos: position{line: 2931, col: 8, offset: 92273},
 																									expr: &anyMatcher{
-																										line: 2929, col: 9, offset: 92173,
+																										line: 2931, col: 9, offset: 92274,
 																									},
 																								},
 																							},
@@ -35718,15 +35718,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1087, col: 5, offset: 33388},
+																			pos: position{line: 1089, col: 5, offset: 33489},
 																			run: (*parser).callonListContinuationElement1294,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2929, col: 8, offset: 92172},
+																	pos: position{line: 2931, col: 8, offset: 92273},
 																	expr: &anyMatcher{
-																		line: 2929, col: 9, offset: 92173,
+																		line: 2931, col: 9, offset: 92274,
 																	},
 																},
 															},
@@ -35737,52 +35737,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2755, col: 18, offset: 87414},
+										pos: position{line: 2757, col: 18, offset: 87515},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2755, col: 18, offset: 87414},
+											pos: position{line: 2757, col: 18, offset: 87515},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2756, col: 9, offset: 87424},
+													pos: position{line: 2758, col: 9, offset: 87525},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2756, col: 9, offset: 87424},
+															pos:        position{line: 2758, col: 9, offset: 87525},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2757, col: 11, offset: 87460},
+															pos:        position{line: 2759, col: 11, offset: 87561},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2757, col: 19, offset: 87468},
+															pos:        position{line: 2759, col: 19, offset: 87569},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2757, col: 29, offset: 87478},
+															pos:        position{line: 2759, col: 29, offset: 87579},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2757, col: 37, offset: 87486},
+															pos:        position{line: 2759, col: 37, offset: 87587},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2757, col: 47, offset: 87496},
+															pos:        position{line: 2759, col: 47, offset: 87597},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2757, col: 55, offset: 87504},
+															pos:        position{line: 2759, col: 55, offset: 87605},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35790,12 +35790,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2758, col: 11, offset: 87562},
+													pos: position{line: 2760, col: 11, offset: 87663},
 													expr: &actionExpr{
-														pos: position{line: 2910, col: 10, offset: 91824},
+														pos: position{line: 2912, col: 10, offset: 91925},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2910, col: 10, offset: 91824},
+															pos:        position{line: 2912, col: 10, offset: 91925},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35804,28 +35804,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2932, col: 8, offset: 92222},
+													pos: position{line: 2934, col: 8, offset: 92323},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2919, col: 12, offset: 91995},
+															pos: position{line: 2921, col: 12, offset: 92096},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2919, col: 13, offset: 91996},
+																pos: position{line: 2921, col: 13, offset: 92097},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 13, offset: 91996},
+																		pos:        position{line: 2921, col: 13, offset: 92097},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 20, offset: 92003},
+																		pos:        position{line: 2921, col: 20, offset: 92104},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 29, offset: 92012},
+																		pos:        position{line: 2921, col: 29, offset: 92113},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35834,36 +35834,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2929, col: 8, offset: 92172},
+															pos: position{line: 2931, col: 8, offset: 92273},
 															expr: &anyMatcher{
-																line: 2929, col: 9, offset: 92173,
+																line: 2931, col: 9, offset: 92274,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2932, col: 8, offset: 92222},
+													pos: position{line: 2934, col: 8, offset: 92323},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2919, col: 12, offset: 91995},
+															pos: position{line: 2921, col: 12, offset: 92096},
 															run: (*parser).callonListContinuationElement1319,
 															expr: &choiceExpr{
-																pos: position{line: 2919, col: 13, offset: 91996},
+																pos: position{line: 2921, col: 13, offset: 92097},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 13, offset: 91996},
+																		pos:        position{line: 2921, col: 13, offset: 92097},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 20, offset: 92003},
+																		pos:        position{line: 2921, col: 20, offset: 92104},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 29, offset: 92012},
+																		pos:        position{line: 2921, col: 29, offset: 92113},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35872,9 +35872,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2929, col: 8, offset: 92172},
+															pos: position{line: 2931, col: 8, offset: 92273},
 															expr: &anyMatcher{
-																line: 2929, col: 9, offset: 92173,
+																line: 2931, col: 9, offset: 92274,
 															},
 														},
 													},
@@ -35883,28 +35883,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1555, col: 11, offset: 50233},
+										pos:  position{line: 1557, col: 11, offset: 50334},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2639, col: 5, offset: 84171},
+										pos: position{line: 2641, col: 5, offset: 84272},
 										run: (*parser).callonListContinuationElement1327,
 										expr: &seqExpr{
-											pos: position{line: 2639, col: 5, offset: 84171},
+											pos: position{line: 2641, col: 5, offset: 84272},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2645, col: 19, offset: 84348},
+													pos:        position{line: 2647, col: 19, offset: 84449},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2645, col: 26, offset: 84355},
+													pos: position{line: 2647, col: 26, offset: 84456},
 													expr: &actionExpr{
-														pos: position{line: 2910, col: 10, offset: 91824},
+														pos: position{line: 2912, col: 10, offset: 91925},
 														run: (*parser).callonListContinuationElement1331,
 														expr: &charClassMatcher{
-															pos:        position{line: 2910, col: 10, offset: 91824},
+															pos:        position{line: 2912, col: 10, offset: 91925},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35913,28 +35913,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2932, col: 8, offset: 92222},
+													pos: position{line: 2934, col: 8, offset: 92323},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2919, col: 12, offset: 91995},
+															pos: position{line: 2921, col: 12, offset: 92096},
 															run: (*parser).callonListContinuationElement1334,
 															expr: &choiceExpr{
-																pos: position{line: 2919, col: 13, offset: 91996},
+																pos: position{line: 2921, col: 13, offset: 92097},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 13, offset: 91996},
+																		pos:        position{line: 2921, col: 13, offset: 92097},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 20, offset: 92003},
+																		pos:        position{line: 2921, col: 20, offset: 92104},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 29, offset: 92012},
+																		pos:        position{line: 2921, col: 29, offset: 92113},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35943,40 +35943,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2929, col: 8, offset: 92172},
+															pos: position{line: 2931, col: 8, offset: 92273},
 															expr: &anyMatcher{
-																line: 2929, col: 9, offset: 92173,
+																line: 2931, col: 9, offset: 92274,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2640, col: 5, offset: 84195},
+													pos:   position{line: 2642, col: 5, offset: 84296},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2640, col: 11, offset: 84201},
+														pos: position{line: 2642, col: 11, offset: 84302},
 														expr: &choiceExpr{
-															pos: position{line: 2640, col: 12, offset: 84202},
+															pos: position{line: 2642, col: 12, offset: 84303},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 678, col: 14, offset: 21586},
+																	pos: position{line: 680, col: 14, offset: 21687},
 																	run: (*parser).callonListContinuationElement1344,
 																	expr: &seqExpr{
-																		pos: position{line: 678, col: 14, offset: 21586},
+																		pos: position{line: 680, col: 14, offset: 21687},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2927, col: 11, offset: 92158},
+																				pos: position{line: 2929, col: 11, offset: 92259},
 																				expr: &anyMatcher{
-																					line: 2927, col: 13, offset: 92160,
+																					line: 2929, col: 13, offset: 92261,
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 678, col: 21, offset: 21593},
+																				pos: position{line: 680, col: 21, offset: 21694},
 																				expr: &actionExpr{
-																					pos: position{line: 2910, col: 10, offset: 91824},
+																					pos: position{line: 2912, col: 10, offset: 91925},
 																					run: (*parser).callonListContinuationElement1349,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2910, col: 10, offset: 91824},
+																						pos:        position{line: 2912, col: 10, offset: 91925},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35985,28 +35985,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2932, col: 8, offset: 92222},
+																				pos: position{line: 2934, col: 8, offset: 92323},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2919, col: 12, offset: 91995},
+																						pos: position{line: 2921, col: 12, offset: 92096},
 																						run: (*parser).callonListContinuationElement1352,
 																						expr: &choiceExpr{
-																							pos: position{line: 2919, col: 13, offset: 91996},
+																							pos: position{line: 2921, col: 13, offset: 92097},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2919, col: 13, offset: 91996},
+																									pos:        position{line: 2921, col: 13, offset: 92097},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2919, col: 20, offset: 92003},
+																									pos:        position{line: 2921, col: 20, offset: 92104},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2919, col: 29, offset: 92012},
+																									pos:        position{line: 2921, col: 29, offset: 92113},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36015,9 +36015,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2929, col: 8, offset: 92172},
+																						pos: position{line: 2931, col: 8, offset: 92273},
 																						expr: &anyMatcher{
-																							line: 2929, col: 9, offset: 92173,
+																							line: 2931, col: 9, offset: 92274,
 																						},
 																					},
 																				},
@@ -36026,36 +36026,36 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2513, col: 22, offset: 80602},
+																	pos: position{line: 2515, col: 22, offset: 80703},
 																	run: (*parser).callonListContinuationElement1359,
 																	expr: &seqExpr{
-																		pos: position{line: 2513, col: 22, offset: 80602},
+																		pos: position{line: 2515, col: 22, offset: 80703},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2518, col: 31, offset: 80852},
+																				pos:        position{line: 2520, col: 31, offset: 80953},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2518, col: 36, offset: 80857},
+																				pos: position{line: 2520, col: 36, offset: 80958},
 																				expr: &litMatcher{
-																					pos:        position{line: 2518, col: 37, offset: 80858},
+																					pos:        position{line: 2520, col: 37, offset: 80959},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2513, col: 49, offset: 80629},
+																				pos:   position{line: 2515, col: 49, offset: 80730},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2856, col: 13, offset: 90350},
+																					pos: position{line: 2858, col: 13, offset: 90451},
 																					run: (*parser).callonListContinuationElement1365,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2856, col: 13, offset: 90350},
+																						pos: position{line: 2858, col: 13, offset: 90451},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2856, col: 13, offset: 90350},
+																							pos:        position{line: 2858, col: 13, offset: 90451},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -36065,28 +36065,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2932, col: 8, offset: 92222},
+																				pos: position{line: 2934, col: 8, offset: 92323},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2919, col: 12, offset: 91995},
+																						pos: position{line: 2921, col: 12, offset: 92096},
 																						run: (*parser).callonListContinuationElement1369,
 																						expr: &choiceExpr{
-																							pos: position{line: 2919, col: 13, offset: 91996},
+																							pos: position{line: 2921, col: 13, offset: 92097},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2919, col: 13, offset: 91996},
+																									pos:        position{line: 2921, col: 13, offset: 92097},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2919, col: 20, offset: 92003},
+																									pos:        position{line: 2921, col: 20, offset: 92104},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2919, col: 29, offset: 92012},
+																									pos:        position{line: 2921, col: 29, offset: 92113},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36095,9 +36095,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2929, col: 8, offset: 92172},
+																						pos: position{line: 2931, col: 8, offset: 92273},
 																						expr: &anyMatcher{
-																							line: 2929, col: 9, offset: 92173,
+																							line: 2931, col: 9, offset: 92274,
 																						},
 																					},
 																				},
@@ -36106,32 +36106,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2652, col: 5, offset: 84467},
+																	pos: position{line: 2654, col: 5, offset: 84568},
 																	run: (*parser).callonListContinuationElement1376,
 																	expr: &seqExpr{
-																		pos: position{line: 2652, col: 5, offset: 84467},
+																		pos: position{line: 2654, col: 5, offset: 84568},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2652, col: 5, offset: 84467},
+																				pos: position{line: 2654, col: 5, offset: 84568},
 																				expr: &choiceExpr{
-																					pos: position{line: 2649, col: 22, offset: 84428},
+																					pos: position{line: 2651, col: 22, offset: 84529},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2645, col: 19, offset: 84348},
+																							pos: position{line: 2647, col: 19, offset: 84449},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2645, col: 19, offset: 84348},
+																									pos:        position{line: 2647, col: 19, offset: 84449},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2645, col: 26, offset: 84355},
+																									pos: position{line: 2647, col: 26, offset: 84456},
 																									expr: &actionExpr{
-																										pos: position{line: 2910, col: 10, offset: 91824},
+																										pos: position{line: 2912, col: 10, offset: 91925},
 																										run: (*parser).callonListContinuationElement1383,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2910, col: 10, offset: 91824},
+																											pos:        position{line: 2912, col: 10, offset: 91925},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36140,28 +36140,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2932, col: 8, offset: 92222},
+																									pos: position{line: 2934, col: 8, offset: 92323},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2919, col: 12, offset: 91995},
+																											pos: position{line: 2921, col: 12, offset: 92096},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &choiceExpr{
-																												pos: position{line: 2919, col: 13, offset: 91996},
+																												pos: position{line: 2921, col: 13, offset: 92097},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 13, offset: 91996},
+																														pos:        position{line: 2921, col: 13, offset: 92097},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 20, offset: 92003},
+																														pos:        position{line: 2921, col: 20, offset: 92104},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2919, col: 29, offset: 92012},
+																														pos:        position{line: 2921, col: 29, offset: 92113},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36170,9 +36170,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2929, col: 8, offset: 92172},
+																											pos: position{line: 2931, col: 8, offset: 92273},
 																											expr: &anyMatcher{
-																												line: 2929, col: 9, offset: 92173,
+																												line: 2931, col: 9, offset: 92274,
 																											},
 																										},
 																									},
@@ -36180,59 +36180,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2929, col: 8, offset: 92172},
+																							pos: position{line: 2931, col: 8, offset: 92273},
 																							expr: &anyMatcher{
-																								line: 2929, col: 9, offset: 92173,
+																								line: 2931, col: 9, offset: 92274,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2653, col: 5, offset: 84490},
+																				pos:   position{line: 2655, col: 5, offset: 84591},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2654, col: 9, offset: 84508},
+																					pos: position{line: 2656, col: 9, offset: 84609},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2654, col: 10, offset: 84509},
+																							pos: position{line: 2656, col: 10, offset: 84610},
 																							run: (*parser).callonListContinuationElement1397,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2654, col: 10, offset: 84509},
+																								pos:   position{line: 2656, col: 10, offset: 84610},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2654, col: 17, offset: 84516},
+																									pos: position{line: 2656, col: 17, offset: 84617},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2662, col: 21, offset: 84712},
+																											pos: position{line: 2664, col: 21, offset: 84813},
 																											run: (*parser).callonListContinuationElement1400,
 																											expr: &seqExpr{
-																												pos: position{line: 2662, col: 21, offset: 84712},
+																												pos: position{line: 2664, col: 21, offset: 84813},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2662, col: 21, offset: 84712},
+																														pos:   position{line: 2664, col: 21, offset: 84813},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2662, col: 27, offset: 84718},
+																															pos: position{line: 2664, col: 27, offset: 84819},
 																															expr: &actionExpr{
-																																pos: position{line: 2667, col: 5, offset: 84793},
+																																pos: position{line: 2669, col: 5, offset: 84894},
 																																run: (*parser).callonListContinuationElement1404,
 																																expr: &seqExpr{
-																																	pos: position{line: 2667, col: 5, offset: 84793},
+																																	pos: position{line: 2669, col: 5, offset: 84894},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2667, col: 5, offset: 84793},
+																																			pos:        position{line: 2669, col: 5, offset: 84894},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2667, col: 9, offset: 84797},
+																																			pos: position{line: 2669, col: 9, offset: 84898},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2910, col: 10, offset: 91824},
+																																				pos: position{line: 2912, col: 10, offset: 91925},
 																																				run: (*parser).callonListContinuationElement1408,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2910, col: 10, offset: 91824},
+																																					pos:        position{line: 2912, col: 10, offset: 91925},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36241,21 +36241,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2667, col: 16, offset: 84804},
+																																			pos:   position{line: 2669, col: 16, offset: 84905},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2673, col: 5, offset: 85004},
+																																				pos: position{line: 2675, col: 5, offset: 85105},
 																																				run: (*parser).callonListContinuationElement1411,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2673, col: 5, offset: 85004},
+																																					pos:   position{line: 2675, col: 5, offset: 85105},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2673, col: 14, offset: 85013},
+																																						pos: position{line: 2675, col: 14, offset: 85114},
 																																						run: (*parser).callonListContinuationElement1413,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2673, col: 14, offset: 85013},
+																																							pos: position{line: 2675, col: 14, offset: 85114},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2673, col: 14, offset: 85013},
+																																								pos:        position{line: 2675, col: 14, offset: 85114},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36272,28 +36272,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2932, col: 8, offset: 92222},
+																														pos: position{line: 2934, col: 8, offset: 92323},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2919, col: 12, offset: 91995},
+																																pos: position{line: 2921, col: 12, offset: 92096},
 																																run: (*parser).callonListContinuationElement1417,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2919, col: 13, offset: 91996},
+																																	pos: position{line: 2921, col: 13, offset: 92097},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2919, col: 13, offset: 91996},
+																																			pos:        position{line: 2921, col: 13, offset: 92097},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2919, col: 20, offset: 92003},
+																																			pos:        position{line: 2921, col: 20, offset: 92104},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2919, col: 29, offset: 92012},
+																																			pos:        position{line: 2921, col: 29, offset: 92113},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36302,9 +36302,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2929, col: 8, offset: 92172},
+																																pos: position{line: 2931, col: 8, offset: 92273},
 																																expr: &anyMatcher{
-																																	line: 2929, col: 9, offset: 92173,
+																																	line: 2931, col: 9, offset: 92274,
 																																},
 																															},
 																														},
@@ -36313,40 +36313,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2679, col: 24, offset: 85149},
+																											pos: position{line: 2681, col: 24, offset: 85250},
 																											run: (*parser).callonListContinuationElement1424,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2679, col: 24, offset: 85149},
+																												pos:   position{line: 2681, col: 24, offset: 85250},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2679, col: 30, offset: 85155},
+																													pos: position{line: 2681, col: 30, offset: 85256},
 																													expr: &actionExpr{
-																														pos: position{line: 2684, col: 5, offset: 85231},
+																														pos: position{line: 2686, col: 5, offset: 85332},
 																														run: (*parser).callonListContinuationElement1427,
 																														expr: &seqExpr{
-																															pos: position{line: 2684, col: 5, offset: 85231},
+																															pos: position{line: 2686, col: 5, offset: 85332},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2684, col: 5, offset: 85231},
+																																	pos: position{line: 2686, col: 5, offset: 85332},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2649, col: 22, offset: 84428},
+																																		pos: position{line: 2651, col: 22, offset: 84529},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2645, col: 19, offset: 84348},
+																																				pos: position{line: 2647, col: 19, offset: 84449},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2645, col: 19, offset: 84348},
+																																						pos:        position{line: 2647, col: 19, offset: 84449},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2645, col: 26, offset: 84355},
+																																						pos: position{line: 2647, col: 26, offset: 84456},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2910, col: 10, offset: 91824},
+																																							pos: position{line: 2912, col: 10, offset: 91925},
 																																							run: (*parser).callonListContinuationElement1434,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2910, col: 10, offset: 91824},
+																																								pos:        position{line: 2912, col: 10, offset: 91925},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36355,28 +36355,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2932, col: 8, offset: 92222},
+																																						pos: position{line: 2934, col: 8, offset: 92323},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2919, col: 12, offset: 91995},
+																																								pos: position{line: 2921, col: 12, offset: 92096},
 																																								run: (*parser).callonListContinuationElement1437,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2919, col: 13, offset: 91996},
+																																									pos: position{line: 2921, col: 13, offset: 92097},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2919, col: 13, offset: 91996},
+																																											pos:        position{line: 2921, col: 13, offset: 92097},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2919, col: 20, offset: 92003},
+																																											pos:        position{line: 2921, col: 20, offset: 92104},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2919, col: 29, offset: 92012},
+																																											pos:        position{line: 2921, col: 29, offset: 92113},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36385,9 +36385,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2929, col: 8, offset: 92172},
+																																								pos: position{line: 2931, col: 8, offset: 92273},
 																																								expr: &anyMatcher{
-																																									line: 2929, col: 9, offset: 92173,
+																																									line: 2931, col: 9, offset: 92274,
 																																								},
 																																							},
 																																						},
@@ -36395,35 +36395,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2929, col: 8, offset: 92172},
+																																				pos: position{line: 2931, col: 8, offset: 92273},
 																																				expr: &anyMatcher{
-																																					line: 2929, col: 9, offset: 92173,
+																																					line: 2931, col: 9, offset: 92274,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2685, col: 5, offset: 85254},
+																																	pos: position{line: 2687, col: 5, offset: 85355},
 																																	expr: &actionExpr{
-																																		pos: position{line: 678, col: 14, offset: 21586},
+																																		pos: position{line: 680, col: 14, offset: 21687},
 																																		run: (*parser).callonListContinuationElement1447,
 																																		expr: &seqExpr{
-																																			pos: position{line: 678, col: 14, offset: 21586},
+																																			pos: position{line: 680, col: 14, offset: 21687},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2927, col: 11, offset: 92158},
+																																					pos: position{line: 2929, col: 11, offset: 92259},
 																																					expr: &anyMatcher{
-																																						line: 2927, col: 13, offset: 92160,
+																																						line: 2929, col: 13, offset: 92261,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 678, col: 21, offset: 21593},
+																																					pos: position{line: 680, col: 21, offset: 21694},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2910, col: 10, offset: 91824},
+																																						pos: position{line: 2912, col: 10, offset: 91925},
 																																						run: (*parser).callonListContinuationElement1452,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2910, col: 10, offset: 91824},
+																																							pos:        position{line: 2912, col: 10, offset: 91925},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36432,28 +36432,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2932, col: 8, offset: 92222},
+																																					pos: position{line: 2934, col: 8, offset: 92323},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2919, col: 12, offset: 91995},
+																																							pos: position{line: 2921, col: 12, offset: 92096},
 																																							run: (*parser).callonListContinuationElement1455,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2919, col: 13, offset: 91996},
+																																								pos: position{line: 2921, col: 13, offset: 92097},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2919, col: 13, offset: 91996},
+																																										pos:        position{line: 2921, col: 13, offset: 92097},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2919, col: 20, offset: 92003},
+																																										pos:        position{line: 2921, col: 20, offset: 92104},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2919, col: 29, offset: 92012},
+																																										pos:        position{line: 2921, col: 29, offset: 92113},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36462,9 +36462,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2929, col: 8, offset: 92172},
+																																							pos: position{line: 2931, col: 8, offset: 92273},
 																																							expr: &anyMatcher{
-																																								line: 2929, col: 9, offset: 92173,
+																																								line: 2931, col: 9, offset: 92274,
 																																							},
 																																						},
 																																					},
@@ -36474,17 +36474,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2686, col: 5, offset: 85269},
+																																	pos:   position{line: 2688, col: 5, offset: 85370},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2686, col: 12, offset: 85276},
+																																		pos: position{line: 2688, col: 12, offset: 85377},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2710, col: 20, offset: 85899},
+																																			pos: position{line: 2712, col: 20, offset: 86000},
 																																			run: (*parser).callonListContinuationElement1464,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2710, col: 20, offset: 85899},
+																																				pos: position{line: 2712, col: 20, offset: 86000},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2710, col: 20, offset: 85899},
+																																					pos:        position{line: 2712, col: 20, offset: 86000},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36495,18 +36495,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2686, col: 31, offset: 85295},
+																																	pos:        position{line: 2688, col: 31, offset: 85396},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2686, col: 35, offset: 85299},
+																																	pos: position{line: 2688, col: 35, offset: 85400},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2910, col: 10, offset: 91824},
+																																		pos: position{line: 2912, col: 10, offset: 91925},
 																																		run: (*parser).callonListContinuationElement1469,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2910, col: 10, offset: 91824},
+																																			pos:        position{line: 2912, col: 10, offset: 91925},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36515,27 +36515,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2686, col: 42, offset: 85306},
+																																	pos: position{line: 2688, col: 42, offset: 85407},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2919, col: 12, offset: 91995},
+																																		pos: position{line: 2921, col: 12, offset: 92096},
 																																		run: (*parser).callonListContinuationElement1472,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2919, col: 13, offset: 91996},
+																																			pos: position{line: 2921, col: 13, offset: 92097},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2919, col: 13, offset: 91996},
+																																					pos:        position{line: 2921, col: 13, offset: 92097},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2919, col: 20, offset: 92003},
+																																					pos:        position{line: 2921, col: 20, offset: 92104},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2919, col: 29, offset: 92012},
+																																					pos:        position{line: 2921, col: 29, offset: 92113},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36545,57 +36545,57 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2686, col: 51, offset: 85315},
+																																	pos:   position{line: 2688, col: 51, offset: 85416},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2692, col: 5, offset: 85474},
+																																		pos: position{line: 2694, col: 5, offset: 85575},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2693, col: 9, offset: 85484},
+																																			pos: position{line: 2695, col: 9, offset: 85585},
 																																			alternatives: []interface{}{
 																																				&actionExpr{
-																																					pos: position{line: 2693, col: 9, offset: 85484},
+																																					pos: position{line: 2695, col: 9, offset: 85585},
 																																					run: (*parser).callonListContinuationElement1480,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2693, col: 9, offset: 85484},
+																																						pos: position{line: 2695, col: 9, offset: 85585},
 																																						exprs: []interface{}{
 																																							&andCodeExpr{
-																																								pos: position{line: 2693, col: 9, offset: 85484},
+																																								pos: position{line: 2695, col: 9, offset: 85585},
 																																								run: (*parser).callonListContinuationElement1482,
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2696, col: 9, offset: 85553},
+																																								pos:   position{line: 2698, col: 9, offset: 85654},
 																																								label: "comment",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2513, col: 22, offset: 80602},
+																																									pos: position{line: 2515, col: 22, offset: 80703},
 																																									run: (*parser).callonListContinuationElement1484,
 																																									expr: &seqExpr{
-																																										pos: position{line: 2513, col: 22, offset: 80602},
+																																										pos: position{line: 2515, col: 22, offset: 80703},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2518, col: 31, offset: 80852},
+																																												pos:        position{line: 2520, col: 31, offset: 80953},
 																																												val:        "//",
 																																												ignoreCase: false,
 																																												want:       "\"//\"",
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2518, col: 36, offset: 80857},
+																																												pos: position{line: 2520, col: 36, offset: 80958},
 																																												expr: &litMatcher{
-																																													pos:        position{line: 2518, col: 37, offset: 80858},
+																																													pos:        position{line: 2520, col: 37, offset: 80959},
 																																													val:        "/",
 																																													ignoreCase: false,
 																																													want:       "\"/\"",
 																																												},
 																																											},
 																																											&labeledExpr{
-																																												pos:   position{line: 2513, col: 49, offset: 80629},
+																																												pos:   position{line: 2515, col: 49, offset: 80730},
 																																												label: "content",
 																																												expr: &actionExpr{
-																																													pos: position{line: 2856, col: 13, offset: 90350},
+																																													pos: position{line: 2858, col: 13, offset: 90451},
 																																													run: (*parser).callonListContinuationElement1490,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2856, col: 13, offset: 90350},
+																																														pos: position{line: 2858, col: 13, offset: 90451},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2856, col: 13, offset: 90350},
+																																															pos:        position{line: 2858, col: 13, offset: 90451},
 																																															val:        "[^\\r\\n]",
 																																															chars:      []rune{'\r', '\n'},
 																																															ignoreCase: false,
@@ -36605,28 +36605,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2932, col: 8, offset: 92222},
+																																												pos: position{line: 2934, col: 8, offset: 92323},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2919, col: 12, offset: 91995},
+																																														pos: position{line: 2921, col: 12, offset: 92096},
 																																														run: (*parser).callonListContinuationElement1494,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2919, col: 13, offset: 91996},
+																																															pos: position{line: 2921, col: 13, offset: 92097},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2919, col: 13, offset: 91996},
+																																																	pos:        position{line: 2921, col: 13, offset: 92097},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2919, col: 20, offset: 92003},
+																																																	pos:        position{line: 2921, col: 20, offset: 92104},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2919, col: 29, offset: 92012},
+																																																	pos:        position{line: 2921, col: 29, offset: 92113},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -36635,9 +36635,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2929, col: 8, offset: 92172},
+																																														pos: position{line: 2931, col: 8, offset: 92273},
 																																														expr: &anyMatcher{
-																																															line: 2929, col: 9, offset: 92173,
+																																															line: 2931, col: 9, offset: 92274,
 																																														},
 																																													},
 																																												},
@@ -36650,32 +36650,32 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&actionExpr{
-																																					pos: position{line: 2700, col: 9, offset: 85643},
+																																					pos: position{line: 2702, col: 9, offset: 85744},
 																																					run: (*parser).callonListContinuationElement1501,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2700, col: 9, offset: 85643},
+																																						pos: position{line: 2702, col: 9, offset: 85744},
 																																						exprs: []interface{}{
 																																							&notExpr{
-																																								pos: position{line: 2700, col: 9, offset: 85643},
+																																								pos: position{line: 2702, col: 9, offset: 85744},
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2649, col: 22, offset: 84428},
+																																									pos: position{line: 2651, col: 22, offset: 84529},
 																																									alternatives: []interface{}{
 																																										&seqExpr{
-																																											pos: position{line: 2645, col: 19, offset: 84348},
+																																											pos: position{line: 2647, col: 19, offset: 84449},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2645, col: 19, offset: 84348},
+																																													pos:        position{line: 2647, col: 19, offset: 84449},
 																																													val:        "|===",
 																																													ignoreCase: false,
 																																													want:       "\"|===\"",
 																																												},
 																																												&zeroOrMoreExpr{
-																																													pos: position{line: 2645, col: 26, offset: 84355},
+																																													pos: position{line: 2647, col: 26, offset: 84456},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2910, col: 10, offset: 91824},
+																																														pos: position{line: 2912, col: 10, offset: 91925},
 																																														run: (*parser).callonListContinuationElement1508,
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2910, col: 10, offset: 91824},
+																																															pos:        position{line: 2912, col: 10, offset: 91925},
 																																															val:        "[\\t ]",
 																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
@@ -36684,28 +36684,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2932, col: 8, offset: 92222},
+																																													pos: position{line: 2934, col: 8, offset: 92323},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2919, col: 12, offset: 91995},
+																																															pos: position{line: 2921, col: 12, offset: 92096},
 																																															run: (*parser).callonListContinuationElement1511,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2919, col: 13, offset: 91996},
+																																																pos: position{line: 2921, col: 13, offset: 92097},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2919, col: 13, offset: 91996},
+																																																		pos:        position{line: 2921, col: 13, offset: 92097},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2919, col: 20, offset: 92003},
+																																																		pos:        position{line: 2921, col: 20, offset: 92104},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2919, col: 29, offset: 92012},
+																																																		pos:        position{line: 2921, col: 29, offset: 92113},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -36714,9 +36714,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2929, col: 8, offset: 92172},
+																																															pos: position{line: 2931, col: 8, offset: 92273},
 																																															expr: &anyMatcher{
-																																																line: 2929, col: 9, offset: 92173,
+																																																line: 2931, col: 9, offset: 92274,
 																																															},
 																																														},
 																																													},
@@ -36724,35 +36724,35 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2929, col: 8, offset: 92172},
+																																											pos: position{line: 2931, col: 8, offset: 92273},
 																																											expr: &anyMatcher{
-																																												line: 2929, col: 9, offset: 92173,
+																																												line: 2931, col: 9, offset: 92274,
 																																											},
 																																										},
 																																									},
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2701, col: 9, offset: 85670},
+																																								pos: position{line: 2703, col: 9, offset: 85771},
 																																								expr: &actionExpr{
-																																									pos: position{line: 678, col: 14, offset: 21586},
+																																									pos: position{line: 680, col: 14, offset: 21687},
 																																									run: (*parser).callonListContinuationElement1521,
 																																									expr: &seqExpr{
-																																										pos: position{line: 678, col: 14, offset: 21586},
+																																										pos: position{line: 680, col: 14, offset: 21687},
 																																										exprs: []interface{}{
 																																											&andExpr{
-																																												pos: position{line: 2927, col: 11, offset: 92158},
+																																												pos: position{line: 2929, col: 11, offset: 92259},
 																																												expr: &anyMatcher{
-																																													line: 2927, col: 13, offset: 92160,
+																																													line: 2929, col: 13, offset: 92261,
 																																												},
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 678, col: 21, offset: 21593},
+																																												pos: position{line: 680, col: 21, offset: 21694},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2910, col: 10, offset: 91824},
+																																													pos: position{line: 2912, col: 10, offset: 91925},
 																																													run: (*parser).callonListContinuationElement1526,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2910, col: 10, offset: 91824},
+																																														pos:        position{line: 2912, col: 10, offset: 91925},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -36761,28 +36761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2932, col: 8, offset: 92222},
+																																												pos: position{line: 2934, col: 8, offset: 92323},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2919, col: 12, offset: 91995},
+																																														pos: position{line: 2921, col: 12, offset: 92096},
 																																														run: (*parser).callonListContinuationElement1529,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2919, col: 13, offset: 91996},
+																																															pos: position{line: 2921, col: 13, offset: 92097},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2919, col: 13, offset: 91996},
+																																																	pos:        position{line: 2921, col: 13, offset: 92097},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2919, col: 20, offset: 92003},
+																																																	pos:        position{line: 2921, col: 20, offset: 92104},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2919, col: 29, offset: 92012},
+																																																	pos:        position{line: 2921, col: 29, offset: 92113},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -36791,9 +36791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2929, col: 8, offset: 92172},
+																																														pos: position{line: 2931, col: 8, offset: 92273},
 																																														expr: &anyMatcher{
-																																															line: 2929, col: 9, offset: 92173,
+																																															line: 2931, col: 9, offset: 92274,
 																																														},
 																																													},
 																																												},
@@ -36803,22 +36803,22 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2702, col: 9, offset: 85689},
+																																								pos: position{line: 2704, col: 9, offset: 85790},
 																																								expr: &seqExpr{
-																																									pos: position{line: 2702, col: 11, offset: 85691},
+																																									pos: position{line: 2704, col: 11, offset: 85792},
 																																									exprs: []interface{}{
 																																										&labeledExpr{
-																																											pos:   position{line: 2702, col: 11, offset: 85691},
+																																											pos:   position{line: 2704, col: 11, offset: 85792},
 																																											label: "format",
 																																											expr: &zeroOrOneExpr{
-																																												pos: position{line: 2702, col: 18, offset: 85698},
+																																												pos: position{line: 2704, col: 18, offset: 85799},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2710, col: 20, offset: 85899},
+																																													pos: position{line: 2712, col: 20, offset: 86000},
 																																													run: (*parser).callonListContinuationElement1540,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2710, col: 20, offset: 85899},
+																																														pos: position{line: 2712, col: 20, offset: 86000},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2710, col: 20, offset: 85899},
+																																															pos:        position{line: 2712, col: 20, offset: 86000},
 																																															val:        "[^ |\\r\\n]",
 																																															chars:      []rune{' ', '|', '\r', '\n'},
 																																															ignoreCase: false,
@@ -36829,7 +36829,7 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2702, col: 37, offset: 85717},
+																																											pos:        position{line: 2704, col: 37, offset: 85818},
 																																											val:        "|",
 																																											ignoreCase: false,
 																																											want:       "\"|\"",
@@ -36838,15 +36838,15 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2703, col: 9, offset: 85730},
+																																								pos:   position{line: 2705, col: 9, offset: 85831},
 																																								label: "content",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2703, col: 18, offset: 85739},
+																																									pos: position{line: 2705, col: 18, offset: 85840},
 																																									run: (*parser).callonListContinuationElement1545,
 																																									expr: &zeroOrMoreExpr{
-																																										pos: position{line: 2703, col: 18, offset: 85739},
+																																										pos: position{line: 2705, col: 18, offset: 85840},
 																																										expr: &charClassMatcher{
-																																											pos:        position{line: 2703, col: 18, offset: 85739},
+																																											pos:        position{line: 2705, col: 18, offset: 85840},
 																																											val:        "[^|\\r\\n]",
 																																											chars:      []rune{'|', '\r', '\n'},
 																																											ignoreCase: false,
@@ -36856,30 +36856,30 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&zeroOrOneExpr{
-																																								pos: position{line: 2705, col: 12, offset: 85801},
+																																								pos: position{line: 2707, col: 12, offset: 85902},
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2932, col: 8, offset: 92222},
+																																									pos: position{line: 2934, col: 8, offset: 92323},
 																																									alternatives: []interface{}{
 																																										&actionExpr{
-																																											pos: position{line: 2919, col: 12, offset: 91995},
+																																											pos: position{line: 2921, col: 12, offset: 92096},
 																																											run: (*parser).callonListContinuationElement1550,
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2919, col: 13, offset: 91996},
+																																												pos: position{line: 2921, col: 13, offset: 92097},
 																																												alternatives: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2919, col: 13, offset: 91996},
+																																														pos:        position{line: 2921, col: 13, offset: 92097},
 																																														val:        "\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2919, col: 20, offset: 92003},
+																																														pos:        position{line: 2921, col: 20, offset: 92104},
 																																														val:        "\r\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2919, col: 29, offset: 92012},
+																																														pos:        position{line: 2921, col: 29, offset: 92113},
 																																														val:        "\r",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\"",
@@ -36888,9 +36888,9 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2929, col: 8, offset: 92172},
+																																											pos: position{line: 2931, col: 8, offset: 92273},
 																																											expr: &anyMatcher{
-																																												line: 2929, col: 9, offset: 92173,
+																																												line: 2931, col: 9, offset: 92274,
 																																											},
 																																										},
 																																									},
@@ -36914,24 +36914,24 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 678, col: 14, offset: 21586},
+																							pos: position{line: 680, col: 14, offset: 21687},
 																							run: (*parser).callonListContinuationElement1557,
 																							expr: &seqExpr{
-																								pos: position{line: 678, col: 14, offset: 21586},
+																								pos: position{line: 680, col: 14, offset: 21687},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2927, col: 11, offset: 92158},
+																										pos: position{line: 2929, col: 11, offset: 92259},
 																										expr: &anyMatcher{
-																											line: 2927, col: 13, offset: 92160,
+																											line: 2929, col: 13, offset: 92261,
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 678, col: 21, offset: 21593},
+																										pos: position{line: 680, col: 21, offset: 21694},
 																										expr: &actionExpr{
-																											pos: position{line: 2910, col: 10, offset: 91824},
+																											pos: position{line: 2912, col: 10, offset: 91925},
 																											run: (*parser).callonListContinuationElement1562,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2910, col: 10, offset: 91824},
+																												pos:        position{line: 2912, col: 10, offset: 91925},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36940,28 +36940,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2932, col: 8, offset: 92222},
+																										pos: position{line: 2934, col: 8, offset: 92323},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2919, col: 12, offset: 91995},
+																												pos: position{line: 2921, col: 12, offset: 92096},
 																												run: (*parser).callonListContinuationElement1565,
 																												expr: &choiceExpr{
-																													pos: position{line: 2919, col: 13, offset: 91996},
+																													pos: position{line: 2921, col: 13, offset: 92097},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2919, col: 13, offset: 91996},
+																															pos:        position{line: 2921, col: 13, offset: 92097},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2919, col: 20, offset: 92003},
+																															pos:        position{line: 2921, col: 20, offset: 92104},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2919, col: 29, offset: 92012},
+																															pos:        position{line: 2921, col: 29, offset: 92113},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36970,9 +36970,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2929, col: 8, offset: 92172},
+																												pos: position{line: 2931, col: 8, offset: 92273},
 																												expr: &anyMatcher{
-																													line: 2929, col: 9, offset: 92173,
+																													line: 2931, col: 9, offset: 92274,
 																												},
 																											},
 																										},
@@ -36991,24 +36991,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2649, col: 22, offset: 84428},
+													pos: position{line: 2651, col: 22, offset: 84529},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2645, col: 19, offset: 84348},
+															pos: position{line: 2647, col: 19, offset: 84449},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2645, col: 19, offset: 84348},
+																	pos:        position{line: 2647, col: 19, offset: 84449},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2645, col: 26, offset: 84355},
+																	pos: position{line: 2647, col: 26, offset: 84456},
 																	expr: &actionExpr{
-																		pos: position{line: 2910, col: 10, offset: 91824},
+																		pos: position{line: 2912, col: 10, offset: 91925},
 																		run: (*parser).callonListContinuationElement1576,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2910, col: 10, offset: 91824},
+																			pos:        position{line: 2912, col: 10, offset: 91925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37017,28 +37017,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2932, col: 8, offset: 92222},
+																	pos: position{line: 2934, col: 8, offset: 92323},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2919, col: 12, offset: 91995},
+																			pos: position{line: 2921, col: 12, offset: 92096},
 																			run: (*parser).callonListContinuationElement1579,
 																			expr: &choiceExpr{
-																				pos: position{line: 2919, col: 13, offset: 91996},
+																				pos: position{line: 2921, col: 13, offset: 92097},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 13, offset: 91996},
+																						pos:        position{line: 2921, col: 13, offset: 92097},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 20, offset: 92003},
+																						pos:        position{line: 2921, col: 20, offset: 92104},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 29, offset: 92012},
+																						pos:        position{line: 2921, col: 29, offset: 92113},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37047,9 +37047,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2929, col: 8, offset: 92172},
+																			pos: position{line: 2931, col: 8, offset: 92273},
 																			expr: &anyMatcher{
-																				line: 2929, col: 9, offset: 92173,
+																				line: 2931, col: 9, offset: 92274,
 																			},
 																		},
 																	},
@@ -37057,9 +37057,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2929, col: 8, offset: 92172},
+															pos: position{line: 2931, col: 8, offset: 92273},
 															expr: &anyMatcher{
-																line: 2929, col: 9, offset: 92173,
+																line: 2931, col: 9, offset: 92274,
 															},
 														},
 													},
@@ -37068,36 +37068,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2513, col: 22, offset: 80602},
+										pos: position{line: 2515, col: 22, offset: 80703},
 										run: (*parser).callonListContinuationElement1588,
 										expr: &seqExpr{
-											pos: position{line: 2513, col: 22, offset: 80602},
+											pos: position{line: 2515, col: 22, offset: 80703},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2518, col: 31, offset: 80852},
+													pos:        position{line: 2520, col: 31, offset: 80953},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2518, col: 36, offset: 80857},
+													pos: position{line: 2520, col: 36, offset: 80958},
 													expr: &litMatcher{
-														pos:        position{line: 2518, col: 37, offset: 80858},
+														pos:        position{line: 2520, col: 37, offset: 80959},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2513, col: 49, offset: 80629},
+													pos:   position{line: 2515, col: 49, offset: 80730},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2856, col: 13, offset: 90350},
+														pos: position{line: 2858, col: 13, offset: 90451},
 														run: (*parser).callonListContinuationElement1594,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2856, col: 13, offset: 90350},
+															pos: position{line: 2858, col: 13, offset: 90451},
 															expr: &charClassMatcher{
-																pos:        position{line: 2856, col: 13, offset: 90350},
+																pos:        position{line: 2858, col: 13, offset: 90451},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37107,28 +37107,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2932, col: 8, offset: 92222},
+													pos: position{line: 2934, col: 8, offset: 92323},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2919, col: 12, offset: 91995},
+															pos: position{line: 2921, col: 12, offset: 92096},
 															run: (*parser).callonListContinuationElement1598,
 															expr: &choiceExpr{
-																pos: position{line: 2919, col: 13, offset: 91996},
+																pos: position{line: 2921, col: 13, offset: 92097},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 13, offset: 91996},
+																		pos:        position{line: 2921, col: 13, offset: 92097},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 20, offset: 92003},
+																		pos:        position{line: 2921, col: 20, offset: 92104},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 29, offset: 92012},
+																		pos:        position{line: 2921, col: 29, offset: 92113},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37137,9 +37137,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2929, col: 8, offset: 92172},
+															pos: position{line: 2931, col: 8, offset: 92273},
 															expr: &anyMatcher{
-																line: 2929, col: 9, offset: 92173,
+																line: 2931, col: 9, offset: 92274,
 															},
 														},
 													},
@@ -37148,94 +37148,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1568, col: 5, offset: 50663},
+										pos: position{line: 1570, col: 5, offset: 50764},
 										run: (*parser).callonListContinuationElement1605,
 										expr: &seqExpr{
-											pos: position{line: 1568, col: 5, offset: 50663},
+											pos: position{line: 1570, col: 5, offset: 50764},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1568, col: 5, offset: 50663},
+													pos:   position{line: 1570, col: 5, offset: 50764},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1568, col: 11, offset: 50669},
+														pos: position{line: 1570, col: 11, offset: 50770},
 														expr: &actionExpr{
-															pos: position{line: 1733, col: 5, offset: 56018},
+															pos: position{line: 1735, col: 5, offset: 56119},
 															run: (*parser).callonListContinuationElement1609,
 															expr: &seqExpr{
-																pos: position{line: 1733, col: 5, offset: 56018},
+																pos: position{line: 1735, col: 5, offset: 56119},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1733, col: 5, offset: 56018},
+																		pos: position{line: 1735, col: 5, offset: 56119},
 																		run: (*parser).callonListContinuationElement1611,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1736, col: 5, offset: 56081},
+																		pos:   position{line: 1738, col: 5, offset: 56182},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1736, col: 12, offset: 56088},
+																			pos: position{line: 1738, col: 12, offset: 56189},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1736, col: 12, offset: 56088},
+																					pos: position{line: 1738, col: 12, offset: 56189},
 																					run: (*parser).callonListContinuationElement1614,
 																					expr: &litMatcher{
-																						pos:        position{line: 1736, col: 12, offset: 56088},
+																						pos:        position{line: 1738, col: 12, offset: 56189},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1738, col: 13, offset: 56144},
+																					pos: position{line: 1740, col: 13, offset: 56245},
 																					run: (*parser).callonListContinuationElement1616,
 																					expr: &litMatcher{
-																						pos:        position{line: 1738, col: 13, offset: 56144},
+																						pos:        position{line: 1740, col: 13, offset: 56245},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1740, col: 13, offset: 56202},
+																					pos: position{line: 1742, col: 13, offset: 56303},
 																					run: (*parser).callonListContinuationElement1618,
 																					expr: &litMatcher{
-																						pos:        position{line: 1740, col: 13, offset: 56202},
+																						pos:        position{line: 1742, col: 13, offset: 56303},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1742, col: 13, offset: 56270},
+																					pos: position{line: 1744, col: 13, offset: 56371},
 																					run: (*parser).callonListContinuationElement1620,
 																					expr: &litMatcher{
-																						pos:        position{line: 1742, col: 13, offset: 56270},
+																						pos:        position{line: 1744, col: 13, offset: 56371},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1744, col: 13, offset: 56334},
+																					pos: position{line: 1746, col: 13, offset: 56435},
 																					run: (*parser).callonListContinuationElement1622,
 																					expr: &litMatcher{
-																						pos:        position{line: 1744, col: 13, offset: 56334},
+																						pos:        position{line: 1746, col: 13, offset: 56435},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1746, col: 13, offset: 56398},
+																					pos: position{line: 1748, col: 13, offset: 56499},
 																					run: (*parser).callonListContinuationElement1624,
 																					expr: &andExpr{
-																						pos: position{line: 1746, col: 13, offset: 56398},
+																						pos: position{line: 1748, col: 13, offset: 56499},
 																						expr: &actionExpr{
-																							pos: position{line: 2914, col: 11, offset: 91885},
+																							pos: position{line: 2916, col: 11, offset: 91986},
 																							run: (*parser).callonListContinuationElement1626,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2914, col: 11, offset: 91885},
+																								pos: position{line: 2916, col: 11, offset: 91986},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2914, col: 11, offset: 91885},
+																									pos:        position{line: 2916, col: 11, offset: 91986},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37254,35 +37254,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1569, col: 5, offset: 50692},
+													pos:   position{line: 1571, col: 5, offset: 50793},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1511, col: 5, offset: 49008},
+														pos: position{line: 1513, col: 5, offset: 49109},
 														run: (*parser).callonListContinuationElement1630,
 														expr: &seqExpr{
-															pos: position{line: 1511, col: 5, offset: 49008},
+															pos: position{line: 1513, col: 5, offset: 49109},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1511, col: 5, offset: 49008},
+																	pos: position{line: 1513, col: 5, offset: 49109},
 																	expr: &actionExpr{
-																		pos: position{line: 678, col: 14, offset: 21586},
+																		pos: position{line: 680, col: 14, offset: 21687},
 																		run: (*parser).callonListContinuationElement1633,
 																		expr: &seqExpr{
-																			pos: position{line: 678, col: 14, offset: 21586},
+																			pos: position{line: 680, col: 14, offset: 21687},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2927, col: 11, offset: 92158},
+																					pos: position{line: 2929, col: 11, offset: 92259},
 																					expr: &anyMatcher{
-																						line: 2927, col: 13, offset: 92160,
+																						line: 2929, col: 13, offset: 92261,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 678, col: 21, offset: 21593},
+																					pos: position{line: 680, col: 21, offset: 21694},
 																					expr: &actionExpr{
-																						pos: position{line: 2910, col: 10, offset: 91824},
+																						pos: position{line: 2912, col: 10, offset: 91925},
 																						run: (*parser).callonListContinuationElement1638,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2910, col: 10, offset: 91824},
+																							pos:        position{line: 2912, col: 10, offset: 91925},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37291,28 +37291,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2932, col: 8, offset: 92222},
+																					pos: position{line: 2934, col: 8, offset: 92323},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2919, col: 12, offset: 91995},
+																							pos: position{line: 2921, col: 12, offset: 92096},
 																							run: (*parser).callonListContinuationElement1641,
 																							expr: &choiceExpr{
-																								pos: position{line: 2919, col: 13, offset: 91996},
+																								pos: position{line: 2921, col: 13, offset: 92097},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 13, offset: 91996},
+																										pos:        position{line: 2921, col: 13, offset: 92097},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 20, offset: 92003},
+																										pos:        position{line: 2921, col: 20, offset: 92104},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 29, offset: 92012},
+																										pos:        position{line: 2921, col: 29, offset: 92113},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37321,9 +37321,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2929, col: 8, offset: 92172},
+																							pos: position{line: 2931, col: 8, offset: 92273},
 																							expr: &anyMatcher{
-																								line: 2929, col: 9, offset: 92173,
+																								line: 2931, col: 9, offset: 92274,
 																							},
 																						},
 																					},
@@ -37333,23 +37333,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1512, col: 5, offset: 49023},
+																	pos: position{line: 1514, col: 5, offset: 49124},
 																	expr: &seqExpr{
-																		pos: position{line: 1543, col: 27, offset: 49883},
+																		pos: position{line: 1545, col: 27, offset: 49984},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1543, col: 27, offset: 49883},
+																				pos:        position{line: 1545, col: 27, offset: 49984},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1543, col: 31, offset: 49887},
+																				pos: position{line: 1545, col: 31, offset: 49988},
 																				expr: &actionExpr{
-																					pos: position{line: 2910, col: 10, offset: 91824},
+																					pos: position{line: 2912, col: 10, offset: 91925},
 																					run: (*parser).callonListContinuationElement1652,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2910, col: 10, offset: 91824},
+																						pos:        position{line: 2912, col: 10, offset: 91925},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37358,25 +37358,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonListContinuationElement1654,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37388,20 +37388,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1513, col: 5, offset: 49051},
+																	pos: position{line: 1515, col: 5, offset: 49152},
 																	expr: &actionExpr{
-																		pos: position{line: 1584, col: 5, offset: 51102},
+																		pos: position{line: 1586, col: 5, offset: 51203},
 																		run: (*parser).callonListContinuationElement1660,
 																		expr: &seqExpr{
-																			pos: position{line: 1584, col: 5, offset: 51102},
+																			pos: position{line: 1586, col: 5, offset: 51203},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1584, col: 5, offset: 51102},
+																					pos: position{line: 1586, col: 5, offset: 51203},
 																					expr: &actionExpr{
-																						pos: position{line: 2910, col: 10, offset: 91824},
+																						pos: position{line: 2912, col: 10, offset: 91925},
 																						run: (*parser).callonListContinuationElement1663,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2910, col: 10, offset: 91824},
+																							pos:        position{line: 2912, col: 10, offset: 91925},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37410,27 +37410,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1584, col: 12, offset: 51109},
+																					pos:   position{line: 1586, col: 12, offset: 51210},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1586, col: 9, offset: 51172},
+																						pos: position{line: 1588, col: 9, offset: 51273},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1586, col: 9, offset: 51172},
+																								pos: position{line: 1588, col: 9, offset: 51273},
 																								run: (*parser).callonListContinuationElement1667,
 																								expr: &seqExpr{
-																									pos: position{line: 1586, col: 9, offset: 51172},
+																									pos: position{line: 1588, col: 9, offset: 51273},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1586, col: 9, offset: 51172},
+																											pos:   position{line: 1588, col: 9, offset: 51273},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1586, col: 16, offset: 51179},
+																												pos: position{line: 1588, col: 16, offset: 51280},
 																												run: (*parser).callonListContinuationElement1670,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1586, col: 16, offset: 51179},
+																													pos: position{line: 1588, col: 16, offset: 51280},
 																													expr: &litMatcher{
-																														pos:        position{line: 1586, col: 17, offset: 51180},
+																														pos:        position{line: 1588, col: 17, offset: 51281},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -37439,22 +37439,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1590, col: 9, offset: 51280},
+																											pos: position{line: 1592, col: 9, offset: 51381},
 																											run: (*parser).callonListContinuationElement1673,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1609, col: 11, offset: 51997},
+																								pos: position{line: 1611, col: 11, offset: 52098},
 																								run: (*parser).callonListContinuationElement1674,
 																								expr: &seqExpr{
-																									pos: position{line: 1609, col: 11, offset: 51997},
+																									pos: position{line: 1611, col: 11, offset: 52098},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1609, col: 11, offset: 51997},
+																											pos: position{line: 1611, col: 11, offset: 52098},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1609, col: 12, offset: 51998},
+																												pos:        position{line: 1611, col: 12, offset: 52099},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -37462,7 +37462,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1609, col: 20, offset: 52006},
+																											pos:        position{line: 1611, col: 20, offset: 52107},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37471,20 +37471,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1611, col: 13, offset: 52123},
+																								pos: position{line: 1613, col: 13, offset: 52224},
 																								run: (*parser).callonListContinuationElement1679,
 																								expr: &seqExpr{
-																									pos: position{line: 1611, col: 13, offset: 52123},
+																									pos: position{line: 1613, col: 13, offset: 52224},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1611, col: 14, offset: 52124},
+																											pos:        position{line: 1613, col: 14, offset: 52225},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1611, col: 21, offset: 52131},
+																											pos:        position{line: 1613, col: 21, offset: 52232},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37493,20 +37493,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1613, col: 13, offset: 52251},
+																								pos: position{line: 1615, col: 13, offset: 52352},
 																								run: (*parser).callonListContinuationElement1683,
 																								expr: &seqExpr{
-																									pos: position{line: 1613, col: 13, offset: 52251},
+																									pos: position{line: 1615, col: 13, offset: 52352},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1613, col: 14, offset: 52252},
+																											pos:        position{line: 1615, col: 14, offset: 52353},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1613, col: 21, offset: 52259},
+																											pos:        position{line: 1615, col: 21, offset: 52360},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37515,15 +37515,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1615, col: 13, offset: 52379},
+																								pos: position{line: 1617, col: 13, offset: 52480},
 																								run: (*parser).callonListContinuationElement1687,
 																								expr: &seqExpr{
-																									pos: position{line: 1615, col: 13, offset: 52379},
+																									pos: position{line: 1617, col: 13, offset: 52480},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1615, col: 13, offset: 52379},
+																											pos: position{line: 1617, col: 13, offset: 52480},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1615, col: 14, offset: 52380},
+																												pos:        position{line: 1617, col: 14, offset: 52481},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -37531,7 +37531,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1615, col: 26, offset: 52392},
+																											pos:        position{line: 1617, col: 26, offset: 52493},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37540,15 +37540,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1617, col: 13, offset: 52512},
+																								pos: position{line: 1619, col: 13, offset: 52613},
 																								run: (*parser).callonListContinuationElement1692,
 																								expr: &seqExpr{
-																									pos: position{line: 1617, col: 13, offset: 52512},
+																									pos: position{line: 1619, col: 13, offset: 52613},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1617, col: 13, offset: 52512},
+																											pos: position{line: 1619, col: 13, offset: 52613},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1617, col: 14, offset: 52513},
+																												pos:        position{line: 1619, col: 14, offset: 52614},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -37556,7 +37556,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1617, col: 26, offset: 52525},
+																											pos:        position{line: 1619, col: 26, offset: 52626},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37568,12 +37568,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2914, col: 11, offset: 91885},
+																					pos: position{line: 2916, col: 11, offset: 91986},
 																					run: (*parser).callonListContinuationElement1697,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2914, col: 11, offset: 91885},
+																						pos: position{line: 2916, col: 11, offset: 91986},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2914, col: 11, offset: 91885},
+																							pos:        position{line: 2916, col: 11, offset: 91986},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37586,20 +37586,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1514, col: 5, offset: 49081},
+																	pos: position{line: 1516, col: 5, offset: 49182},
 																	expr: &actionExpr{
-																		pos: position{line: 1634, col: 5, offset: 53064},
+																		pos: position{line: 1636, col: 5, offset: 53165},
 																		run: (*parser).callonListContinuationElement1701,
 																		expr: &seqExpr{
-																			pos: position{line: 1634, col: 5, offset: 53064},
+																			pos: position{line: 1636, col: 5, offset: 53165},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1634, col: 5, offset: 53064},
+																					pos: position{line: 1636, col: 5, offset: 53165},
 																					expr: &actionExpr{
-																						pos: position{line: 2910, col: 10, offset: 91824},
+																						pos: position{line: 2912, col: 10, offset: 91925},
 																						run: (*parser).callonListContinuationElement1704,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2910, col: 10, offset: 91824},
+																							pos:        position{line: 2912, col: 10, offset: 91925},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37608,24 +37608,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1635, col: 5, offset: 53076},
+																					pos:   position{line: 1637, col: 5, offset: 53177},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1636, col: 9, offset: 53092},
+																						pos: position{line: 1638, col: 9, offset: 53193},
 																						run: (*parser).callonListContinuationElement1707,
 																						expr: &choiceExpr{
-																							pos: position{line: 1636, col: 10, offset: 53093},
+																							pos: position{line: 1638, col: 10, offset: 53194},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1636, col: 11, offset: 53094},
+																									pos:        position{line: 1638, col: 11, offset: 53195},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1636, col: 18, offset: 53101},
+																									pos: position{line: 1638, col: 18, offset: 53202},
 																									expr: &litMatcher{
-																										pos:        position{line: 1636, col: 19, offset: 53102},
+																										pos:        position{line: 1638, col: 19, offset: 53203},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -37636,16 +37636,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1639, col: 7, offset: 53192},
+																					pos: position{line: 1641, col: 7, offset: 53293},
 																					run: (*parser).callonListContinuationElement1712,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2914, col: 11, offset: 91885},
+																					pos: position{line: 2916, col: 11, offset: 91986},
 																					run: (*parser).callonListContinuationElement1713,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2914, col: 11, offset: 91885},
+																						pos: position{line: 2916, col: 11, offset: 91986},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2914, col: 11, offset: 91885},
+																							pos:        position{line: 2916, col: 11, offset: 91986},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37658,29 +37658,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1515, col: 5, offset: 49113},
+																	pos: position{line: 1517, col: 5, offset: 49214},
 																	expr: &actionExpr{
-																		pos: position{line: 1724, col: 5, offset: 55633},
+																		pos: position{line: 1726, col: 5, offset: 55734},
 																		run: (*parser).callonListContinuationElement1717,
 																		expr: &seqExpr{
-																			pos: position{line: 1724, col: 5, offset: 55633},
+																			pos: position{line: 1726, col: 5, offset: 55734},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1724, col: 5, offset: 55633},
+																					pos:        position{line: 1726, col: 5, offset: 55734},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1724, col: 9, offset: 55637},
+																					pos:   position{line: 1726, col: 9, offset: 55738},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1724, col: 14, offset: 55642},
+																						pos: position{line: 1726, col: 14, offset: 55743},
 																						run: (*parser).callonListContinuationElement1721,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1724, col: 14, offset: 55642},
+																							pos: position{line: 1726, col: 14, offset: 55743},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1724, col: 14, offset: 55642},
+																								pos:        position{line: 1726, col: 14, offset: 55743},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37690,18 +37690,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1724, col: 62, offset: 55690},
+																					pos:        position{line: 1726, col: 62, offset: 55791},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2914, col: 11, offset: 91885},
+																					pos: position{line: 2916, col: 11, offset: 91986},
 																					run: (*parser).callonListContinuationElement1725,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2914, col: 11, offset: 91885},
+																						pos: position{line: 2916, col: 11, offset: 91986},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2914, col: 11, offset: 91885},
+																							pos:        position{line: 2916, col: 11, offset: 91986},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37714,31 +37714,31 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1516, col: 5, offset: 49143},
+																	pos: position{line: 1518, col: 5, offset: 49244},
 																	expr: &seqExpr{
-																		pos: position{line: 1516, col: 7, offset: 49145},
+																		pos: position{line: 1518, col: 7, offset: 49246},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1669, col: 5, offset: 54083},
+																				pos: position{line: 1671, col: 5, offset: 54184},
 																				run: (*parser).callonListContinuationElement1730,
 																				expr: &seqExpr{
-																					pos: position{line: 1669, col: 5, offset: 54083},
+																					pos: position{line: 1671, col: 5, offset: 54184},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1669, col: 5, offset: 54083},
+																							pos: position{line: 1671, col: 5, offset: 54184},
 																							expr: &seqExpr{
-																								pos: position{line: 2518, col: 31, offset: 80852},
+																								pos: position{line: 2520, col: 31, offset: 80953},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2518, col: 31, offset: 80852},
+																										pos:        position{line: 2520, col: 31, offset: 80953},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2518, col: 36, offset: 80857},
+																										pos: position{line: 2520, col: 36, offset: 80958},
 																										expr: &litMatcher{
-																											pos:        position{line: 2518, col: 37, offset: 80858},
+																											pos:        position{line: 2520, col: 37, offset: 80959},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -37748,28 +37748,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1670, col: 5, offset: 54115},
+																							pos: position{line: 1672, col: 5, offset: 54216},
 																							expr: &seqExpr{
-																								pos: position{line: 1670, col: 6, offset: 54116},
+																								pos: position{line: 1672, col: 6, offset: 54217},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1670, col: 6, offset: 54116},
+																										pos: position{line: 1672, col: 6, offset: 54217},
 																										expr: &actionExpr{
-																											pos: position{line: 1675, col: 5, offset: 54266},
+																											pos: position{line: 1677, col: 5, offset: 54367},
 																											run: (*parser).callonListContinuationElement1740,
 																											expr: &seqExpr{
-																												pos: position{line: 1675, col: 5, offset: 54266},
+																												pos: position{line: 1677, col: 5, offset: 54367},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1675, col: 5, offset: 54266},
+																														pos:   position{line: 1677, col: 5, offset: 54367},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1675, col: 16, offset: 54277},
+																															pos: position{line: 1677, col: 16, offset: 54378},
 																															run: (*parser).callonListContinuationElement1743,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1675, col: 16, offset: 54277},
+																																pos: position{line: 1677, col: 16, offset: 54378},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1675, col: 17, offset: 54278},
+																																	pos:        position{line: 1677, col: 17, offset: 54379},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -37778,7 +37778,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1678, col: 5, offset: 54335},
+																														pos: position{line: 1680, col: 5, offset: 54436},
 																														run: (*parser).callonListContinuationElement1746,
 																													},
 																												},
@@ -37786,30 +37786,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1670, col: 35, offset: 54145},
+																										pos: position{line: 1672, col: 35, offset: 54246},
 																										expr: &choiceExpr{
-																											pos: position{line: 2932, col: 8, offset: 92222},
+																											pos: position{line: 2934, col: 8, offset: 92323},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2919, col: 12, offset: 91995},
+																													pos: position{line: 2921, col: 12, offset: 92096},
 																													run: (*parser).callonListContinuationElement1749,
 																													expr: &choiceExpr{
-																														pos: position{line: 2919, col: 13, offset: 91996},
+																														pos: position{line: 2921, col: 13, offset: 92097},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 13, offset: 91996},
+																																pos:        position{line: 2921, col: 13, offset: 92097},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 20, offset: 92003},
+																																pos:        position{line: 2921, col: 20, offset: 92104},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 29, offset: 92012},
+																																pos:        position{line: 2921, col: 29, offset: 92113},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37818,16 +37818,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2929, col: 8, offset: 92172},
+																													pos: position{line: 2931, col: 8, offset: 92273},
 																													expr: &anyMatcher{
-																														line: 2929, col: 9, offset: 92173,
+																														line: 2931, col: 9, offset: 92274,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1670, col: 40, offset: 54150,
+																										line: 1672, col: 40, offset: 54251,
 																									},
 																								},
 																							},
@@ -37836,21 +37836,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1675, col: 5, offset: 54266},
+																				pos: position{line: 1677, col: 5, offset: 54367},
 																				run: (*parser).callonListContinuationElement1757,
 																				expr: &seqExpr{
-																					pos: position{line: 1675, col: 5, offset: 54266},
+																					pos: position{line: 1677, col: 5, offset: 54367},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1675, col: 5, offset: 54266},
+																							pos:   position{line: 1677, col: 5, offset: 54367},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1675, col: 16, offset: 54277},
+																								pos: position{line: 1677, col: 16, offset: 54378},
 																								run: (*parser).callonListContinuationElement1760,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1675, col: 16, offset: 54277},
+																									pos: position{line: 1677, col: 16, offset: 54378},
 																									expr: &litMatcher{
-																										pos:        position{line: 1675, col: 17, offset: 54278},
+																										pos:        position{line: 1677, col: 17, offset: 54379},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37859,7 +37859,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1678, col: 5, offset: 54335},
+																							pos: position{line: 1680, col: 5, offset: 54436},
 																							run: (*parser).callonListContinuationElement1763,
 																						},
 																					},
@@ -37869,17 +37869,17 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1517, col: 5, offset: 49201},
+																	pos: position{line: 1519, col: 5, offset: 49302},
 																	expr: &actionExpr{
-																		pos: position{line: 725, col: 5, offset: 23139},
+																		pos: position{line: 727, col: 5, offset: 23240},
 																		run: (*parser).callonListContinuationElement1765,
 																		expr: &seqExpr{
-																			pos: position{line: 725, col: 5, offset: 23139},
+																			pos: position{line: 727, col: 5, offset: 23240},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 725, col: 5, offset: 23139},
+																					pos: position{line: 727, col: 5, offset: 23240},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2800, col: 13, offset: 88919},
+																						pos:        position{line: 2802, col: 13, offset: 89020},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37887,36 +37887,36 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 726, col: 5, offset: 23169},
+																					pos:   position{line: 728, col: 5, offset: 23270},
 																					label: "delimiter",
 																					expr: &choiceExpr{
-																						pos: position{line: 727, col: 9, offset: 23189},
+																						pos: position{line: 729, col: 9, offset: 23290},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 741, col: 5, offset: 23681},
+																								pos: position{line: 743, col: 5, offset: 23782},
 																								run: (*parser).callonListContinuationElement1771,
 																								expr: &seqExpr{
-																									pos: position{line: 741, col: 5, offset: 23681},
+																									pos: position{line: 743, col: 5, offset: 23782},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 741, col: 5, offset: 23681},
+																											pos:   position{line: 743, col: 5, offset: 23782},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 741, col: 16, offset: 23692},
+																												pos: position{line: 743, col: 16, offset: 23793},
 																												run: (*parser).callonListContinuationElement1774,
 																												expr: &seqExpr{
-																													pos: position{line: 741, col: 16, offset: 23692},
+																													pos: position{line: 743, col: 16, offset: 23793},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 741, col: 16, offset: 23692},
+																															pos:        position{line: 743, col: 16, offset: 23793},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 741, col: 23, offset: 23699},
+																															pos: position{line: 743, col: 23, offset: 23800},
 																															expr: &litMatcher{
-																																pos:        position{line: 741, col: 23, offset: 23699},
+																																pos:        position{line: 743, col: 23, offset: 23800},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -37927,12 +37927,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 743, col: 8, offset: 23783},
+																											pos: position{line: 745, col: 8, offset: 23884},
 																											expr: &actionExpr{
-																												pos: position{line: 2910, col: 10, offset: 91824},
+																												pos: position{line: 2912, col: 10, offset: 91925},
 																												run: (*parser).callonListContinuationElement1780,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2910, col: 10, offset: 91824},
+																													pos:        position{line: 2912, col: 10, offset: 91925},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37941,28 +37941,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2932, col: 8, offset: 92222},
+																											pos: position{line: 2934, col: 8, offset: 92323},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2919, col: 12, offset: 91995},
+																													pos: position{line: 2921, col: 12, offset: 92096},
 																													run: (*parser).callonListContinuationElement1783,
 																													expr: &choiceExpr{
-																														pos: position{line: 2919, col: 13, offset: 91996},
+																														pos: position{line: 2921, col: 13, offset: 92097},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 13, offset: 91996},
+																																pos:        position{line: 2921, col: 13, offset: 92097},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 20, offset: 92003},
+																																pos:        position{line: 2921, col: 20, offset: 92104},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 29, offset: 92012},
+																																pos:        position{line: 2921, col: 29, offset: 92113},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37971,9 +37971,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2929, col: 8, offset: 92172},
+																													pos: position{line: 2931, col: 8, offset: 92273},
 																													expr: &anyMatcher{
-																														line: 2929, col: 9, offset: 92173,
+																														line: 2931, col: 9, offset: 92274,
 																													},
 																												},
 																											},
@@ -37982,30 +37982,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 748, col: 5, offset: 23929},
+																								pos: position{line: 750, col: 5, offset: 24030},
 																								run: (*parser).callonListContinuationElement1790,
 																								expr: &seqExpr{
-																									pos: position{line: 748, col: 5, offset: 23929},
+																									pos: position{line: 750, col: 5, offset: 24030},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 748, col: 5, offset: 23929},
+																											pos:   position{line: 750, col: 5, offset: 24030},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 748, col: 16, offset: 23940},
+																												pos: position{line: 750, col: 16, offset: 24041},
 																												run: (*parser).callonListContinuationElement1793,
 																												expr: &seqExpr{
-																													pos: position{line: 748, col: 16, offset: 23940},
+																													pos: position{line: 750, col: 16, offset: 24041},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 748, col: 16, offset: 23940},
+																															pos:        position{line: 750, col: 16, offset: 24041},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 748, col: 23, offset: 23947},
+																															pos: position{line: 750, col: 23, offset: 24048},
 																															expr: &litMatcher{
-																																pos:        position{line: 748, col: 23, offset: 23947},
+																																pos:        position{line: 750, col: 23, offset: 24048},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -38016,12 +38016,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 750, col: 8, offset: 24031},
+																											pos: position{line: 752, col: 8, offset: 24132},
 																											expr: &actionExpr{
-																												pos: position{line: 2910, col: 10, offset: 91824},
+																												pos: position{line: 2912, col: 10, offset: 91925},
 																												run: (*parser).callonListContinuationElement1799,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2910, col: 10, offset: 91824},
+																													pos:        position{line: 2912, col: 10, offset: 91925},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38030,28 +38030,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2932, col: 8, offset: 92222},
+																											pos: position{line: 2934, col: 8, offset: 92323},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2919, col: 12, offset: 91995},
+																													pos: position{line: 2921, col: 12, offset: 92096},
 																													run: (*parser).callonListContinuationElement1802,
 																													expr: &choiceExpr{
-																														pos: position{line: 2919, col: 13, offset: 91996},
+																														pos: position{line: 2921, col: 13, offset: 92097},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 13, offset: 91996},
+																																pos:        position{line: 2921, col: 13, offset: 92097},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 20, offset: 92003},
+																																pos:        position{line: 2921, col: 20, offset: 92104},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 29, offset: 92012},
+																																pos:        position{line: 2921, col: 29, offset: 92113},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38060,9 +38060,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2929, col: 8, offset: 92172},
+																													pos: position{line: 2931, col: 8, offset: 92273},
 																													expr: &anyMatcher{
-																														line: 2929, col: 9, offset: 92173,
+																														line: 2931, col: 9, offset: 92274,
 																													},
 																												},
 																											},
@@ -38071,27 +38071,27 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 761, col: 26, offset: 24417},
+																								pos: position{line: 763, col: 26, offset: 24518},
 																								run: (*parser).callonListContinuationElement1809,
 																								expr: &seqExpr{
-																									pos: position{line: 761, col: 26, offset: 24417},
+																									pos: position{line: 763, col: 26, offset: 24518},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 761, col: 26, offset: 24417},
+																											pos:        position{line: 763, col: 26, offset: 24518},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 761, col: 32, offset: 24423},
+																											pos:   position{line: 763, col: 32, offset: 24524},
 																											label: "language",
 																											expr: &actionExpr{
-																												pos: position{line: 765, col: 13, offset: 24553},
+																												pos: position{line: 767, col: 13, offset: 24654},
 																												run: (*parser).callonListContinuationElement1813,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 765, col: 14, offset: 24554},
+																													pos: position{line: 767, col: 14, offset: 24655},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 765, col: 14, offset: 24554},
+																														pos:        position{line: 767, col: 14, offset: 24655},
 																														val:        "[^\\r\\n` ]",
 																														chars:      []rune{'\r', '\n', '`', ' '},
 																														ignoreCase: false,
@@ -38101,12 +38101,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 761, col: 52, offset: 24443},
+																											pos: position{line: 763, col: 52, offset: 24544},
 																											expr: &actionExpr{
-																												pos: position{line: 2910, col: 10, offset: 91824},
+																												pos: position{line: 2912, col: 10, offset: 91925},
 																												run: (*parser).callonListContinuationElement1817,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2910, col: 10, offset: 91824},
+																													pos:        position{line: 2912, col: 10, offset: 91925},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38115,28 +38115,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2932, col: 8, offset: 92222},
+																											pos: position{line: 2934, col: 8, offset: 92323},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2919, col: 12, offset: 91995},
+																													pos: position{line: 2921, col: 12, offset: 92096},
 																													run: (*parser).callonListContinuationElement1820,
 																													expr: &choiceExpr{
-																														pos: position{line: 2919, col: 13, offset: 91996},
+																														pos: position{line: 2921, col: 13, offset: 92097},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 13, offset: 91996},
+																																pos:        position{line: 2921, col: 13, offset: 92097},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 20, offset: 92003},
+																																pos:        position{line: 2921, col: 20, offset: 92104},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 29, offset: 92012},
+																																pos:        position{line: 2921, col: 29, offset: 92113},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38145,9 +38145,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2929, col: 8, offset: 92172},
+																													pos: position{line: 2931, col: 8, offset: 92273},
 																													expr: &anyMatcher{
-																														line: 2929, col: 9, offset: 92173,
+																														line: 2931, col: 9, offset: 92274,
 																													},
 																												},
 																											},
@@ -38156,30 +38156,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 755, col: 5, offset: 24176},
+																								pos: position{line: 757, col: 5, offset: 24277},
 																								run: (*parser).callonListContinuationElement1827,
 																								expr: &seqExpr{
-																									pos: position{line: 755, col: 5, offset: 24176},
+																									pos: position{line: 757, col: 5, offset: 24277},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 755, col: 5, offset: 24176},
+																											pos:   position{line: 757, col: 5, offset: 24277},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 755, col: 16, offset: 24187},
+																												pos: position{line: 757, col: 16, offset: 24288},
 																												run: (*parser).callonListContinuationElement1830,
 																												expr: &seqExpr{
-																													pos: position{line: 755, col: 16, offset: 24187},
+																													pos: position{line: 757, col: 16, offset: 24288},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 755, col: 16, offset: 24187},
+																															pos:        position{line: 757, col: 16, offset: 24288},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 755, col: 22, offset: 24193},
+																															pos: position{line: 757, col: 22, offset: 24294},
 																															expr: &litMatcher{
-																																pos:        position{line: 755, col: 22, offset: 24193},
+																																pos:        position{line: 757, col: 22, offset: 24294},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -38190,12 +38190,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 757, col: 8, offset: 24277},
+																											pos: position{line: 759, col: 8, offset: 24378},
 																											expr: &actionExpr{
-																												pos: position{line: 2910, col: 10, offset: 91824},
+																												pos: position{line: 2912, col: 10, offset: 91925},
 																												run: (*parser).callonListContinuationElement1836,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2910, col: 10, offset: 91824},
+																													pos:        position{line: 2912, col: 10, offset: 91925},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38204,28 +38204,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2932, col: 8, offset: 92222},
+																											pos: position{line: 2934, col: 8, offset: 92323},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2919, col: 12, offset: 91995},
+																													pos: position{line: 2921, col: 12, offset: 92096},
 																													run: (*parser).callonListContinuationElement1839,
 																													expr: &choiceExpr{
-																														pos: position{line: 2919, col: 13, offset: 91996},
+																														pos: position{line: 2921, col: 13, offset: 92097},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 13, offset: 91996},
+																																pos:        position{line: 2921, col: 13, offset: 92097},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 20, offset: 92003},
+																																pos:        position{line: 2921, col: 20, offset: 92104},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 29, offset: 92012},
+																																pos:        position{line: 2921, col: 29, offset: 92113},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38234,9 +38234,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2929, col: 8, offset: 92172},
+																													pos: position{line: 2931, col: 8, offset: 92273},
 																													expr: &anyMatcher{
-																														line: 2929, col: 9, offset: 92173,
+																														line: 2931, col: 9, offset: 92274,
 																													},
 																												},
 																											},
@@ -38245,30 +38245,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 770, col: 5, offset: 24713},
+																								pos: position{line: 772, col: 5, offset: 24814},
 																								run: (*parser).callonListContinuationElement1846,
 																								expr: &seqExpr{
-																									pos: position{line: 770, col: 5, offset: 24713},
+																									pos: position{line: 772, col: 5, offset: 24814},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 770, col: 5, offset: 24713},
+																											pos:   position{line: 772, col: 5, offset: 24814},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 770, col: 16, offset: 24724},
+																												pos: position{line: 772, col: 16, offset: 24825},
 																												run: (*parser).callonListContinuationElement1849,
 																												expr: &seqExpr{
-																													pos: position{line: 770, col: 16, offset: 24724},
+																													pos: position{line: 772, col: 16, offset: 24825},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 770, col: 16, offset: 24724},
+																															pos:        position{line: 772, col: 16, offset: 24825},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 770, col: 23, offset: 24731},
+																															pos: position{line: 772, col: 23, offset: 24832},
 																															expr: &litMatcher{
-																																pos:        position{line: 770, col: 23, offset: 24731},
+																																pos:        position{line: 772, col: 23, offset: 24832},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -38279,12 +38279,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 772, col: 8, offset: 24815},
+																											pos: position{line: 774, col: 8, offset: 24916},
 																											expr: &actionExpr{
-																												pos: position{line: 2910, col: 10, offset: 91824},
+																												pos: position{line: 2912, col: 10, offset: 91925},
 																												run: (*parser).callonListContinuationElement1855,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2910, col: 10, offset: 91824},
+																													pos:        position{line: 2912, col: 10, offset: 91925},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38293,28 +38293,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2932, col: 8, offset: 92222},
+																											pos: position{line: 2934, col: 8, offset: 92323},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2919, col: 12, offset: 91995},
+																													pos: position{line: 2921, col: 12, offset: 92096},
 																													run: (*parser).callonListContinuationElement1858,
 																													expr: &choiceExpr{
-																														pos: position{line: 2919, col: 13, offset: 91996},
+																														pos: position{line: 2921, col: 13, offset: 92097},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 13, offset: 91996},
+																																pos:        position{line: 2921, col: 13, offset: 92097},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 20, offset: 92003},
+																																pos:        position{line: 2921, col: 20, offset: 92104},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 29, offset: 92012},
+																																pos:        position{line: 2921, col: 29, offset: 92113},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38323,9 +38323,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2929, col: 8, offset: 92172},
+																													pos: position{line: 2931, col: 8, offset: 92273},
 																													expr: &anyMatcher{
-																														line: 2929, col: 9, offset: 92173,
+																														line: 2931, col: 9, offset: 92274,
 																													},
 																												},
 																											},
@@ -38334,30 +38334,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 784, col: 5, offset: 25189},
+																								pos: position{line: 786, col: 5, offset: 25290},
 																								run: (*parser).callonListContinuationElement1865,
 																								expr: &seqExpr{
-																									pos: position{line: 784, col: 5, offset: 25189},
+																									pos: position{line: 786, col: 5, offset: 25290},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 784, col: 5, offset: 25189},
+																											pos:   position{line: 786, col: 5, offset: 25290},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 784, col: 16, offset: 25200},
+																												pos: position{line: 786, col: 16, offset: 25301},
 																												run: (*parser).callonListContinuationElement1868,
 																												expr: &seqExpr{
-																													pos: position{line: 784, col: 16, offset: 25200},
+																													pos: position{line: 786, col: 16, offset: 25301},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 784, col: 16, offset: 25200},
+																															pos:        position{line: 786, col: 16, offset: 25301},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 784, col: 23, offset: 25207},
+																															pos: position{line: 786, col: 23, offset: 25308},
 																															expr: &litMatcher{
-																																pos:        position{line: 784, col: 23, offset: 25207},
+																																pos:        position{line: 786, col: 23, offset: 25308},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -38368,12 +38368,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 786, col: 8, offset: 25291},
+																											pos: position{line: 788, col: 8, offset: 25392},
 																											expr: &actionExpr{
-																												pos: position{line: 2910, col: 10, offset: 91824},
+																												pos: position{line: 2912, col: 10, offset: 91925},
 																												run: (*parser).callonListContinuationElement1874,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2910, col: 10, offset: 91824},
+																													pos:        position{line: 2912, col: 10, offset: 91925},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38382,28 +38382,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2932, col: 8, offset: 92222},
+																											pos: position{line: 2934, col: 8, offset: 92323},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2919, col: 12, offset: 91995},
+																													pos: position{line: 2921, col: 12, offset: 92096},
 																													run: (*parser).callonListContinuationElement1877,
 																													expr: &choiceExpr{
-																														pos: position{line: 2919, col: 13, offset: 91996},
+																														pos: position{line: 2921, col: 13, offset: 92097},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 13, offset: 91996},
+																																pos:        position{line: 2921, col: 13, offset: 92097},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 20, offset: 92003},
+																																pos:        position{line: 2921, col: 20, offset: 92104},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 29, offset: 92012},
+																																pos:        position{line: 2921, col: 29, offset: 92113},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38412,9 +38412,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2929, col: 8, offset: 92172},
+																													pos: position{line: 2931, col: 8, offset: 92273},
 																													expr: &anyMatcher{
-																														line: 2929, col: 9, offset: 92173,
+																														line: 2931, col: 9, offset: 92274,
 																													},
 																												},
 																											},
@@ -38423,30 +38423,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 791, col: 5, offset: 25441},
+																								pos: position{line: 793, col: 5, offset: 25542},
 																								run: (*parser).callonListContinuationElement1884,
 																								expr: &seqExpr{
-																									pos: position{line: 791, col: 5, offset: 25441},
+																									pos: position{line: 793, col: 5, offset: 25542},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 791, col: 5, offset: 25441},
+																											pos:   position{line: 793, col: 5, offset: 25542},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 791, col: 16, offset: 25452},
+																												pos: position{line: 793, col: 16, offset: 25553},
 																												run: (*parser).callonListContinuationElement1887,
 																												expr: &seqExpr{
-																													pos: position{line: 791, col: 16, offset: 25452},
+																													pos: position{line: 793, col: 16, offset: 25553},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 791, col: 16, offset: 25452},
+																															pos:        position{line: 793, col: 16, offset: 25553},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 791, col: 23, offset: 25459},
+																															pos: position{line: 793, col: 23, offset: 25560},
 																															expr: &litMatcher{
-																																pos:        position{line: 791, col: 23, offset: 25459},
+																																pos:        position{line: 793, col: 23, offset: 25560},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -38457,12 +38457,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 793, col: 8, offset: 25543},
+																											pos: position{line: 795, col: 8, offset: 25644},
 																											expr: &actionExpr{
-																												pos: position{line: 2910, col: 10, offset: 91824},
+																												pos: position{line: 2912, col: 10, offset: 91925},
 																												run: (*parser).callonListContinuationElement1893,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2910, col: 10, offset: 91824},
+																													pos:        position{line: 2912, col: 10, offset: 91925},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38471,28 +38471,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2932, col: 8, offset: 92222},
+																											pos: position{line: 2934, col: 8, offset: 92323},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2919, col: 12, offset: 91995},
+																													pos: position{line: 2921, col: 12, offset: 92096},
 																													run: (*parser).callonListContinuationElement1896,
 																													expr: &choiceExpr{
-																														pos: position{line: 2919, col: 13, offset: 91996},
+																														pos: position{line: 2921, col: 13, offset: 92097},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 13, offset: 91996},
+																																pos:        position{line: 2921, col: 13, offset: 92097},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 20, offset: 92003},
+																																pos:        position{line: 2921, col: 20, offset: 92104},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 29, offset: 92012},
+																																pos:        position{line: 2921, col: 29, offset: 92113},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38501,9 +38501,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2929, col: 8, offset: 92172},
+																													pos: position{line: 2931, col: 8, offset: 92273},
 																													expr: &anyMatcher{
-																														line: 2929, col: 9, offset: 92173,
+																														line: 2931, col: 9, offset: 92274,
 																													},
 																												},
 																											},
@@ -38512,30 +38512,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 798, col: 5, offset: 25691},
+																								pos: position{line: 800, col: 5, offset: 25792},
 																								run: (*parser).callonListContinuationElement1903,
 																								expr: &seqExpr{
-																									pos: position{line: 798, col: 5, offset: 25691},
+																									pos: position{line: 800, col: 5, offset: 25792},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 798, col: 5, offset: 25691},
+																											pos:   position{line: 800, col: 5, offset: 25792},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 798, col: 16, offset: 25702},
+																												pos: position{line: 800, col: 16, offset: 25803},
 																												run: (*parser).callonListContinuationElement1906,
 																												expr: &seqExpr{
-																													pos: position{line: 798, col: 16, offset: 25702},
+																													pos: position{line: 800, col: 16, offset: 25803},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 798, col: 16, offset: 25702},
+																															pos:        position{line: 800, col: 16, offset: 25803},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 798, col: 23, offset: 25709},
+																															pos: position{line: 800, col: 23, offset: 25810},
 																															expr: &litMatcher{
-																																pos:        position{line: 798, col: 23, offset: 25709},
+																																pos:        position{line: 800, col: 23, offset: 25810},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -38546,12 +38546,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 800, col: 8, offset: 25793},
+																											pos: position{line: 802, col: 8, offset: 25894},
 																											expr: &actionExpr{
-																												pos: position{line: 2910, col: 10, offset: 91824},
+																												pos: position{line: 2912, col: 10, offset: 91925},
 																												run: (*parser).callonListContinuationElement1912,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2910, col: 10, offset: 91824},
+																													pos:        position{line: 2912, col: 10, offset: 91925},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38560,28 +38560,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2932, col: 8, offset: 92222},
+																											pos: position{line: 2934, col: 8, offset: 92323},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2919, col: 12, offset: 91995},
+																													pos: position{line: 2921, col: 12, offset: 92096},
 																													run: (*parser).callonListContinuationElement1915,
 																													expr: &choiceExpr{
-																														pos: position{line: 2919, col: 13, offset: 91996},
+																														pos: position{line: 2921, col: 13, offset: 92097},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 13, offset: 91996},
+																																pos:        position{line: 2921, col: 13, offset: 92097},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 20, offset: 92003},
+																																pos:        position{line: 2921, col: 20, offset: 92104},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 29, offset: 92012},
+																																pos:        position{line: 2921, col: 29, offset: 92113},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38590,9 +38590,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2929, col: 8, offset: 92172},
+																													pos: position{line: 2931, col: 8, offset: 92273},
 																													expr: &anyMatcher{
-																														line: 2929, col: 9, offset: 92173,
+																														line: 2931, col: 9, offset: 92274,
 																													},
 																												},
 																											},
@@ -38601,30 +38601,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 805, col: 5, offset: 25937},
+																								pos: position{line: 807, col: 5, offset: 26038},
 																								run: (*parser).callonListContinuationElement1922,
 																								expr: &seqExpr{
-																									pos: position{line: 805, col: 5, offset: 25937},
+																									pos: position{line: 807, col: 5, offset: 26038},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 805, col: 5, offset: 25937},
+																											pos:   position{line: 807, col: 5, offset: 26038},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 805, col: 16, offset: 25948},
+																												pos: position{line: 807, col: 16, offset: 26049},
 																												run: (*parser).callonListContinuationElement1925,
 																												expr: &seqExpr{
-																													pos: position{line: 805, col: 16, offset: 25948},
+																													pos: position{line: 807, col: 16, offset: 26049},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 805, col: 16, offset: 25948},
+																															pos:        position{line: 807, col: 16, offset: 26049},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 805, col: 23, offset: 25955},
+																															pos: position{line: 807, col: 23, offset: 26056},
 																															expr: &litMatcher{
-																																pos:        position{line: 805, col: 23, offset: 25955},
+																																pos:        position{line: 807, col: 23, offset: 26056},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -38635,12 +38635,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 807, col: 8, offset: 26039},
+																											pos: position{line: 809, col: 8, offset: 26140},
 																											expr: &actionExpr{
-																												pos: position{line: 2910, col: 10, offset: 91824},
+																												pos: position{line: 2912, col: 10, offset: 91925},
 																												run: (*parser).callonListContinuationElement1931,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2910, col: 10, offset: 91824},
+																													pos:        position{line: 2912, col: 10, offset: 91925},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38649,28 +38649,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2932, col: 8, offset: 92222},
+																											pos: position{line: 2934, col: 8, offset: 92323},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2919, col: 12, offset: 91995},
+																													pos: position{line: 2921, col: 12, offset: 92096},
 																													run: (*parser).callonListContinuationElement1934,
 																													expr: &choiceExpr{
-																														pos: position{line: 2919, col: 13, offset: 91996},
+																														pos: position{line: 2921, col: 13, offset: 92097},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 13, offset: 91996},
+																																pos:        position{line: 2921, col: 13, offset: 92097},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 20, offset: 92003},
+																																pos:        position{line: 2921, col: 20, offset: 92104},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2919, col: 29, offset: 92012},
+																																pos:        position{line: 2921, col: 29, offset: 92113},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38679,9 +38679,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2929, col: 8, offset: 92172},
+																													pos: position{line: 2931, col: 8, offset: 92273},
 																													expr: &anyMatcher{
-																														line: 2929, col: 9, offset: 92173,
+																														line: 2931, col: 9, offset: 92274,
 																													},
 																												},
 																											},
@@ -38697,15 +38697,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49221},
+																	pos:   position{line: 1520, col: 5, offset: 49322},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 14, offset: 90417},
+																		pos: position{line: 2862, col: 14, offset: 90518},
 																		run: (*parser).callonListContinuationElement1942,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2860, col: 14, offset: 90417},
+																			pos: position{line: 2862, col: 14, offset: 90518},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2860, col: 14, offset: 90417},
+																				pos:        position{line: 2862, col: 14, offset: 90518},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38715,28 +38715,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2932, col: 8, offset: 92222},
+																	pos: position{line: 2934, col: 8, offset: 92323},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2919, col: 12, offset: 91995},
+																			pos: position{line: 2921, col: 12, offset: 92096},
 																			run: (*parser).callonListContinuationElement1946,
 																			expr: &choiceExpr{
-																				pos: position{line: 2919, col: 13, offset: 91996},
+																				pos: position{line: 2921, col: 13, offset: 92097},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 13, offset: 91996},
+																						pos:        position{line: 2921, col: 13, offset: 92097},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 20, offset: 92003},
+																						pos:        position{line: 2921, col: 20, offset: 92104},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 29, offset: 92012},
+																						pos:        position{line: 2921, col: 29, offset: 92113},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38745,9 +38745,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2929, col: 8, offset: 92172},
+																			pos: position{line: 2931, col: 8, offset: 92273},
 																			expr: &anyMatcher{
-																				line: 2929, col: 9, offset: 92173,
+																				line: 2931, col: 9, offset: 92274,
 																			},
 																		},
 																	},
@@ -38768,33 +38768,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1708, col: 1, offset: 55127},
+			pos:  position{line: 1710, col: 1, offset: 55228},
 			expr: &actionExpr{
-				pos: position{line: 1710, col: 5, offset: 55205},
+				pos: position{line: 1712, col: 5, offset: 55306},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1710, col: 5, offset: 55205},
+					pos: position{line: 1712, col: 5, offset: 55306},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1710, col: 5, offset: 55205},
+							pos: position{line: 1712, col: 5, offset: 55306},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1713, col: 5, offset: 55272},
+							pos:        position{line: 1715, col: 5, offset: 55373},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1713, col: 9, offset: 55276},
+							pos:   position{line: 1715, col: 9, offset: 55377},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1713, col: 14, offset: 55281},
+								pos: position{line: 1715, col: 14, offset: 55382},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1713, col: 14, offset: 55281},
+									pos: position{line: 1715, col: 14, offset: 55382},
 									expr: &charClassMatcher{
-										pos:        position{line: 1713, col: 14, offset: 55281},
+										pos:        position{line: 1715, col: 14, offset: 55382},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -38804,18 +38804,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1713, col: 62, offset: 55329},
+							pos:        position{line: 1715, col: 62, offset: 55430},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1713, col: 66, offset: 55333},
+							pos: position{line: 1715, col: 66, offset: 55434},
 							expr: &actionExpr{
-								pos: position{line: 2910, col: 10, offset: 91824},
+								pos: position{line: 2912, col: 10, offset: 91925},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2910, col: 10, offset: 91824},
+									pos:        position{line: 2912, col: 10, offset: 91925},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38824,30 +38824,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1713, col: 73, offset: 55340},
+							pos: position{line: 1715, col: 73, offset: 55441},
 							expr: &choiceExpr{
-								pos: position{line: 1713, col: 75, offset: 55342},
+								pos: position{line: 1715, col: 75, offset: 55443},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2919, col: 12, offset: 91995},
+										pos: position{line: 2921, col: 12, offset: 92096},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2919, col: 13, offset: 91996},
+											pos: position{line: 2921, col: 13, offset: 92097},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2919, col: 13, offset: 91996},
+													pos:        position{line: 2921, col: 13, offset: 92097},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2919, col: 20, offset: 92003},
+													pos:        position{line: 2921, col: 20, offset: 92104},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2919, col: 29, offset: 92012},
+													pos:        position{line: 2921, col: 29, offset: 92113},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38856,13 +38856,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2929, col: 8, offset: 92172},
+										pos: position{line: 2931, col: 8, offset: 92273},
 										expr: &anyMatcher{
-											line: 2929, col: 9, offset: 92173,
+											line: 2931, col: 9, offset: 92274,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1713, col: 81, offset: 55348},
+										pos:  position{line: 1715, col: 81, offset: 55449},
 										name: "Callout",
 									},
 								},
@@ -38874,44 +38874,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1752, col: 1, offset: 56521},
+			pos:  position{line: 1754, col: 1, offset: 56622},
 			expr: &actionExpr{
-				pos: position{line: 1754, col: 5, offset: 56595},
+				pos: position{line: 1756, col: 5, offset: 56696},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1754, col: 5, offset: 56595},
+					pos: position{line: 1756, col: 5, offset: 56696},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1754, col: 5, offset: 56595},
+							pos: position{line: 1756, col: 5, offset: 56696},
 							expr: &seqExpr{
-								pos: position{line: 1754, col: 7, offset: 56597},
+								pos: position{line: 1756, col: 7, offset: 56698},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2800, col: 13, offset: 88919},
+										pos:        position{line: 2802, col: 13, offset: 89020},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1754, col: 16, offset: 56606},
+										pos: position{line: 1756, col: 16, offset: 56707},
 										expr: &seqExpr{
-											pos: position{line: 1754, col: 18, offset: 56608},
+											pos: position{line: 1756, col: 18, offset: 56709},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1754, col: 19, offset: 56609},
+													pos:        position{line: 1756, col: 19, offset: 56710},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2914, col: 11, offset: 91885},
+													pos: position{line: 2916, col: 11, offset: 91986},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2914, col: 11, offset: 91885},
+														pos: position{line: 2916, col: 11, offset: 91986},
 														expr: &charClassMatcher{
-															pos:        position{line: 2914, col: 11, offset: 91885},
+															pos:        position{line: 2916, col: 11, offset: 91986},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38926,88 +38926,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1755, col: 5, offset: 56749},
+							pos:   position{line: 1757, col: 5, offset: 56850},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1755, col: 11, offset: 56755},
+								pos: position{line: 1757, col: 11, offset: 56856},
 								expr: &actionExpr{
-									pos: position{line: 1733, col: 5, offset: 56018},
+									pos: position{line: 1735, col: 5, offset: 56119},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1733, col: 5, offset: 56018},
+										pos: position{line: 1735, col: 5, offset: 56119},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1733, col: 5, offset: 56018},
+												pos: position{line: 1735, col: 5, offset: 56119},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1736, col: 5, offset: 56081},
+												pos:   position{line: 1738, col: 5, offset: 56182},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1736, col: 12, offset: 56088},
+													pos: position{line: 1738, col: 12, offset: 56189},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1736, col: 12, offset: 56088},
+															pos: position{line: 1738, col: 12, offset: 56189},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1736, col: 12, offset: 56088},
+																pos:        position{line: 1738, col: 12, offset: 56189},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1738, col: 13, offset: 56144},
+															pos: position{line: 1740, col: 13, offset: 56245},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1738, col: 13, offset: 56144},
+																pos:        position{line: 1740, col: 13, offset: 56245},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1740, col: 13, offset: 56202},
+															pos: position{line: 1742, col: 13, offset: 56303},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1740, col: 13, offset: 56202},
+																pos:        position{line: 1742, col: 13, offset: 56303},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1742, col: 13, offset: 56270},
+															pos: position{line: 1744, col: 13, offset: 56371},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1742, col: 13, offset: 56270},
+																pos:        position{line: 1744, col: 13, offset: 56371},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1744, col: 13, offset: 56334},
+															pos: position{line: 1746, col: 13, offset: 56435},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1744, col: 13, offset: 56334},
+																pos:        position{line: 1746, col: 13, offset: 56435},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1746, col: 13, offset: 56398},
+															pos: position{line: 1748, col: 13, offset: 56499},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1746, col: 13, offset: 56398},
+																pos: position{line: 1748, col: 13, offset: 56499},
 																expr: &actionExpr{
-																	pos: position{line: 2914, col: 11, offset: 91885},
+																	pos: position{line: 2916, col: 11, offset: 91986},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2914, col: 11, offset: 91885},
+																		pos: position{line: 2916, col: 11, offset: 91986},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2914, col: 11, offset: 91885},
+																			pos:        position{line: 2916, col: 11, offset: 91986},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39026,24 +39026,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1756, col: 5, offset: 56777},
+							pos:   position{line: 1758, col: 5, offset: 56878},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1792, col: 5, offset: 57884},
+								pos: position{line: 1794, col: 5, offset: 57985},
 								run: (*parser).callonShortcutParagraph35,
 								expr: &seqExpr{
-									pos: position{line: 1792, col: 5, offset: 57884},
+									pos: position{line: 1794, col: 5, offset: 57985},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1792, col: 5, offset: 57884},
+											pos:   position{line: 1794, col: 5, offset: 57985},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2860, col: 14, offset: 90417},
+												pos: position{line: 2862, col: 14, offset: 90518},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2860, col: 14, offset: 90417},
+													pos: position{line: 2862, col: 14, offset: 90518},
 													expr: &charClassMatcher{
-														pos:        position{line: 2860, col: 14, offset: 90417},
+														pos:        position{line: 2862, col: 14, offset: 90518},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39053,32 +39053,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1793, col: 5, offset: 57908},
+											pos: position{line: 1795, col: 5, offset: 58009},
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2932, col: 8, offset: 92222},
+											pos: position{line: 2934, col: 8, offset: 92323},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2919, col: 12, offset: 91995},
+													pos: position{line: 2921, col: 12, offset: 92096},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2919, col: 13, offset: 91996},
+														pos: position{line: 2921, col: 13, offset: 92097},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2919, col: 13, offset: 91996},
+																pos:        position{line: 2921, col: 13, offset: 92097},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2919, col: 20, offset: 92003},
+																pos:        position{line: 2921, col: 20, offset: 92104},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2919, col: 29, offset: 92012},
+																pos:        position{line: 2921, col: 29, offset: 92113},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39087,9 +39087,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2929, col: 8, offset: 92172},
+													pos: position{line: 2931, col: 8, offset: 92273},
 													expr: &anyMatcher{
-														line: 2929, col: 9, offset: 92173,
+														line: 2931, col: 9, offset: 92274,
 													},
 												},
 											},
@@ -39099,47 +39099,47 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1757, col: 5, offset: 56811},
+							pos: position{line: 1759, col: 5, offset: 56912},
 							run: (*parser).callonShortcutParagraph50,
 						},
 						&labeledExpr{
-							pos:   position{line: 1764, col: 5, offset: 57141},
+							pos:   position{line: 1766, col: 5, offset: 57242},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1764, col: 16, offset: 57152},
+								pos: position{line: 1766, col: 16, offset: 57253},
 								expr: &actionExpr{
-									pos: position{line: 1765, col: 9, offset: 57162},
+									pos: position{line: 1767, col: 9, offset: 57263},
 									run: (*parser).callonShortcutParagraph53,
 									expr: &seqExpr{
-										pos: position{line: 1765, col: 9, offset: 57162},
+										pos: position{line: 1767, col: 9, offset: 57263},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2927, col: 11, offset: 92158},
+												pos: position{line: 2929, col: 11, offset: 92259},
 												expr: &anyMatcher{
-													line: 2927, col: 13, offset: 92160,
+													line: 2929, col: 13, offset: 92261,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1766, col: 9, offset: 57178},
+												pos: position{line: 1768, col: 9, offset: 57279},
 												expr: &actionExpr{
-													pos: position{line: 678, col: 14, offset: 21586},
+													pos: position{line: 680, col: 14, offset: 21687},
 													run: (*parser).callonShortcutParagraph58,
 													expr: &seqExpr{
-														pos: position{line: 678, col: 14, offset: 21586},
+														pos: position{line: 680, col: 14, offset: 21687},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2927, col: 11, offset: 92158},
+																pos: position{line: 2929, col: 11, offset: 92259},
 																expr: &anyMatcher{
-																	line: 2927, col: 13, offset: 92160,
+																	line: 2929, col: 13, offset: 92261,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 678, col: 21, offset: 21593},
+																pos: position{line: 680, col: 21, offset: 21694},
 																expr: &actionExpr{
-																	pos: position{line: 2910, col: 10, offset: 91824},
+																	pos: position{line: 2912, col: 10, offset: 91925},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2910, col: 10, offset: 91824},
+																		pos:        position{line: 2912, col: 10, offset: 91925},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39148,28 +39148,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2932, col: 8, offset: 92222},
+																pos: position{line: 2934, col: 8, offset: 92323},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2919, col: 12, offset: 91995},
+																		pos: position{line: 2921, col: 12, offset: 92096},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2919, col: 13, offset: 91996},
+																			pos: position{line: 2921, col: 13, offset: 92097},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2919, col: 13, offset: 91996},
+																					pos:        position{line: 2921, col: 13, offset: 92097},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2919, col: 20, offset: 92003},
+																					pos:        position{line: 2921, col: 20, offset: 92104},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2919, col: 29, offset: 92012},
+																					pos:        position{line: 2921, col: 29, offset: 92113},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39178,9 +39178,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2929, col: 8, offset: 92172},
+																		pos: position{line: 2931, col: 8, offset: 92273},
 																		expr: &anyMatcher{
-																			line: 2929, col: 9, offset: 92173,
+																			line: 2931, col: 9, offset: 92274,
 																		},
 																	},
 																},
@@ -39190,24 +39190,24 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1767, col: 9, offset: 57197},
+												pos: position{line: 1769, col: 9, offset: 57298},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1767, col: 10, offset: 57198},
+													pos:  position{line: 1769, col: 10, offset: 57299},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1768, col: 9, offset: 57222},
+												pos: position{line: 1770, col: 9, offset: 57323},
 												expr: &actionExpr{
-													pos: position{line: 725, col: 5, offset: 23139},
+													pos: position{line: 727, col: 5, offset: 23240},
 													run: (*parser).callonShortcutParagraph76,
 													expr: &seqExpr{
-														pos: position{line: 725, col: 5, offset: 23139},
+														pos: position{line: 727, col: 5, offset: 23240},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 725, col: 5, offset: 23139},
+																pos: position{line: 727, col: 5, offset: 23240},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2800, col: 13, offset: 88919},
+																	pos:        position{line: 2802, col: 13, offset: 89020},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -39215,36 +39215,36 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 726, col: 5, offset: 23169},
+																pos:   position{line: 728, col: 5, offset: 23270},
 																label: "delimiter",
 																expr: &choiceExpr{
-																	pos: position{line: 727, col: 9, offset: 23189},
+																	pos: position{line: 729, col: 9, offset: 23290},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 741, col: 5, offset: 23681},
+																			pos: position{line: 743, col: 5, offset: 23782},
 																			run: (*parser).callonShortcutParagraph82,
 																			expr: &seqExpr{
-																				pos: position{line: 741, col: 5, offset: 23681},
+																				pos: position{line: 743, col: 5, offset: 23782},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 741, col: 5, offset: 23681},
+																						pos:   position{line: 743, col: 5, offset: 23782},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 741, col: 16, offset: 23692},
+																							pos: position{line: 743, col: 16, offset: 23793},
 																							run: (*parser).callonShortcutParagraph85,
 																							expr: &seqExpr{
-																								pos: position{line: 741, col: 16, offset: 23692},
+																								pos: position{line: 743, col: 16, offset: 23793},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 741, col: 16, offset: 23692},
+																										pos:        position{line: 743, col: 16, offset: 23793},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 741, col: 23, offset: 23699},
+																										pos: position{line: 743, col: 23, offset: 23800},
 																										expr: &litMatcher{
-																											pos:        position{line: 741, col: 23, offset: 23699},
+																											pos:        position{line: 743, col: 23, offset: 23800},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -39255,12 +39255,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 743, col: 8, offset: 23783},
+																						pos: position{line: 745, col: 8, offset: 23884},
 																						expr: &actionExpr{
-																							pos: position{line: 2910, col: 10, offset: 91824},
+																							pos: position{line: 2912, col: 10, offset: 91925},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2910, col: 10, offset: 91824},
+																								pos:        position{line: 2912, col: 10, offset: 91925},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39269,28 +39269,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2932, col: 8, offset: 92222},
+																						pos: position{line: 2934, col: 8, offset: 92323},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2919, col: 12, offset: 91995},
+																								pos: position{line: 2921, col: 12, offset: 92096},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2919, col: 13, offset: 91996},
+																									pos: position{line: 2921, col: 13, offset: 92097},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 13, offset: 91996},
+																											pos:        position{line: 2921, col: 13, offset: 92097},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 20, offset: 92003},
+																											pos:        position{line: 2921, col: 20, offset: 92104},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 29, offset: 92012},
+																											pos:        position{line: 2921, col: 29, offset: 92113},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39299,9 +39299,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2929, col: 8, offset: 92172},
+																								pos: position{line: 2931, col: 8, offset: 92273},
 																								expr: &anyMatcher{
-																									line: 2929, col: 9, offset: 92173,
+																									line: 2931, col: 9, offset: 92274,
 																								},
 																							},
 																						},
@@ -39310,30 +39310,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 748, col: 5, offset: 23929},
+																			pos: position{line: 750, col: 5, offset: 24030},
 																			run: (*parser).callonShortcutParagraph101,
 																			expr: &seqExpr{
-																				pos: position{line: 748, col: 5, offset: 23929},
+																				pos: position{line: 750, col: 5, offset: 24030},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 748, col: 5, offset: 23929},
+																						pos:   position{line: 750, col: 5, offset: 24030},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 748, col: 16, offset: 23940},
+																							pos: position{line: 750, col: 16, offset: 24041},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &seqExpr{
-																								pos: position{line: 748, col: 16, offset: 23940},
+																								pos: position{line: 750, col: 16, offset: 24041},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 748, col: 16, offset: 23940},
+																										pos:        position{line: 750, col: 16, offset: 24041},
 																										val:        "====",
 																										ignoreCase: false,
 																										want:       "\"====\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 748, col: 23, offset: 23947},
+																										pos: position{line: 750, col: 23, offset: 24048},
 																										expr: &litMatcher{
-																											pos:        position{line: 748, col: 23, offset: 23947},
+																											pos:        position{line: 750, col: 23, offset: 24048},
 																											val:        "=",
 																											ignoreCase: false,
 																											want:       "\"=\"",
@@ -39344,12 +39344,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 750, col: 8, offset: 24031},
+																						pos: position{line: 752, col: 8, offset: 24132},
 																						expr: &actionExpr{
-																							pos: position{line: 2910, col: 10, offset: 91824},
+																							pos: position{line: 2912, col: 10, offset: 91925},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2910, col: 10, offset: 91824},
+																								pos:        position{line: 2912, col: 10, offset: 91925},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39358,28 +39358,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2932, col: 8, offset: 92222},
+																						pos: position{line: 2934, col: 8, offset: 92323},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2919, col: 12, offset: 91995},
+																								pos: position{line: 2921, col: 12, offset: 92096},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2919, col: 13, offset: 91996},
+																									pos: position{line: 2921, col: 13, offset: 92097},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 13, offset: 91996},
+																											pos:        position{line: 2921, col: 13, offset: 92097},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 20, offset: 92003},
+																											pos:        position{line: 2921, col: 20, offset: 92104},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 29, offset: 92012},
+																											pos:        position{line: 2921, col: 29, offset: 92113},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39388,9 +39388,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2929, col: 8, offset: 92172},
+																								pos: position{line: 2931, col: 8, offset: 92273},
 																								expr: &anyMatcher{
-																									line: 2929, col: 9, offset: 92173,
+																									line: 2931, col: 9, offset: 92274,
 																								},
 																							},
 																						},
@@ -39399,27 +39399,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 761, col: 26, offset: 24417},
+																			pos: position{line: 763, col: 26, offset: 24518},
 																			run: (*parser).callonShortcutParagraph120,
 																			expr: &seqExpr{
-																				pos: position{line: 761, col: 26, offset: 24417},
+																				pos: position{line: 763, col: 26, offset: 24518},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 761, col: 26, offset: 24417},
+																						pos:        position{line: 763, col: 26, offset: 24518},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 761, col: 32, offset: 24423},
+																						pos:   position{line: 763, col: 32, offset: 24524},
 																						label: "language",
 																						expr: &actionExpr{
-																							pos: position{line: 765, col: 13, offset: 24553},
+																							pos: position{line: 767, col: 13, offset: 24654},
 																							run: (*parser).callonShortcutParagraph124,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 765, col: 14, offset: 24554},
+																								pos: position{line: 767, col: 14, offset: 24655},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 765, col: 14, offset: 24554},
+																									pos:        position{line: 767, col: 14, offset: 24655},
 																									val:        "[^\\r\\n` ]",
 																									chars:      []rune{'\r', '\n', '`', ' '},
 																									ignoreCase: false,
@@ -39429,12 +39429,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 761, col: 52, offset: 24443},
+																						pos: position{line: 763, col: 52, offset: 24544},
 																						expr: &actionExpr{
-																							pos: position{line: 2910, col: 10, offset: 91824},
+																							pos: position{line: 2912, col: 10, offset: 91925},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2910, col: 10, offset: 91824},
+																								pos:        position{line: 2912, col: 10, offset: 91925},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39443,28 +39443,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2932, col: 8, offset: 92222},
+																						pos: position{line: 2934, col: 8, offset: 92323},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2919, col: 12, offset: 91995},
+																								pos: position{line: 2921, col: 12, offset: 92096},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2919, col: 13, offset: 91996},
+																									pos: position{line: 2921, col: 13, offset: 92097},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 13, offset: 91996},
+																											pos:        position{line: 2921, col: 13, offset: 92097},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 20, offset: 92003},
+																											pos:        position{line: 2921, col: 20, offset: 92104},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 29, offset: 92012},
+																											pos:        position{line: 2921, col: 29, offset: 92113},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39473,9 +39473,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2929, col: 8, offset: 92172},
+																								pos: position{line: 2931, col: 8, offset: 92273},
 																								expr: &anyMatcher{
-																									line: 2929, col: 9, offset: 92173,
+																									line: 2931, col: 9, offset: 92274,
 																								},
 																							},
 																						},
@@ -39484,30 +39484,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 755, col: 5, offset: 24176},
+																			pos: position{line: 757, col: 5, offset: 24277},
 																			run: (*parser).callonShortcutParagraph138,
 																			expr: &seqExpr{
-																				pos: position{line: 755, col: 5, offset: 24176},
+																				pos: position{line: 757, col: 5, offset: 24277},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 755, col: 5, offset: 24176},
+																						pos:   position{line: 757, col: 5, offset: 24277},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 755, col: 16, offset: 24187},
+																							pos: position{line: 757, col: 16, offset: 24288},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &seqExpr{
-																								pos: position{line: 755, col: 16, offset: 24187},
+																								pos: position{line: 757, col: 16, offset: 24288},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 755, col: 16, offset: 24187},
+																										pos:        position{line: 757, col: 16, offset: 24288},
 																										val:        "```",
 																										ignoreCase: false,
 																										want:       "\"```\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 755, col: 22, offset: 24193},
+																										pos: position{line: 757, col: 22, offset: 24294},
 																										expr: &litMatcher{
-																											pos:        position{line: 755, col: 22, offset: 24193},
+																											pos:        position{line: 757, col: 22, offset: 24294},
 																											val:        "`",
 																											ignoreCase: false,
 																											want:       "\"`\"",
@@ -39518,12 +39518,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 757, col: 8, offset: 24277},
+																						pos: position{line: 759, col: 8, offset: 24378},
 																						expr: &actionExpr{
-																							pos: position{line: 2910, col: 10, offset: 91824},
+																							pos: position{line: 2912, col: 10, offset: 91925},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2910, col: 10, offset: 91824},
+																								pos:        position{line: 2912, col: 10, offset: 91925},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39532,28 +39532,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2932, col: 8, offset: 92222},
+																						pos: position{line: 2934, col: 8, offset: 92323},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2919, col: 12, offset: 91995},
+																								pos: position{line: 2921, col: 12, offset: 92096},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2919, col: 13, offset: 91996},
+																									pos: position{line: 2921, col: 13, offset: 92097},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 13, offset: 91996},
+																											pos:        position{line: 2921, col: 13, offset: 92097},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 20, offset: 92003},
+																											pos:        position{line: 2921, col: 20, offset: 92104},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 29, offset: 92012},
+																											pos:        position{line: 2921, col: 29, offset: 92113},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39562,9 +39562,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2929, col: 8, offset: 92172},
+																								pos: position{line: 2931, col: 8, offset: 92273},
 																								expr: &anyMatcher{
-																									line: 2929, col: 9, offset: 92173,
+																									line: 2931, col: 9, offset: 92274,
 																								},
 																							},
 																						},
@@ -39573,30 +39573,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 770, col: 5, offset: 24713},
+																			pos: position{line: 772, col: 5, offset: 24814},
 																			run: (*parser).callonShortcutParagraph157,
 																			expr: &seqExpr{
-																				pos: position{line: 770, col: 5, offset: 24713},
+																				pos: position{line: 772, col: 5, offset: 24814},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 770, col: 5, offset: 24713},
+																						pos:   position{line: 772, col: 5, offset: 24814},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 770, col: 16, offset: 24724},
+																							pos: position{line: 772, col: 16, offset: 24825},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &seqExpr{
-																								pos: position{line: 770, col: 16, offset: 24724},
+																								pos: position{line: 772, col: 16, offset: 24825},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 770, col: 16, offset: 24724},
+																										pos:        position{line: 772, col: 16, offset: 24825},
 																										val:        "----",
 																										ignoreCase: false,
 																										want:       "\"----\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 770, col: 23, offset: 24731},
+																										pos: position{line: 772, col: 23, offset: 24832},
 																										expr: &litMatcher{
-																											pos:        position{line: 770, col: 23, offset: 24731},
+																											pos:        position{line: 772, col: 23, offset: 24832},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
@@ -39607,12 +39607,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 772, col: 8, offset: 24815},
+																						pos: position{line: 774, col: 8, offset: 24916},
 																						expr: &actionExpr{
-																							pos: position{line: 2910, col: 10, offset: 91824},
+																							pos: position{line: 2912, col: 10, offset: 91925},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2910, col: 10, offset: 91824},
+																								pos:        position{line: 2912, col: 10, offset: 91925},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39621,28 +39621,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2932, col: 8, offset: 92222},
+																						pos: position{line: 2934, col: 8, offset: 92323},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2919, col: 12, offset: 91995},
+																								pos: position{line: 2921, col: 12, offset: 92096},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2919, col: 13, offset: 91996},
+																									pos: position{line: 2921, col: 13, offset: 92097},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 13, offset: 91996},
+																											pos:        position{line: 2921, col: 13, offset: 92097},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 20, offset: 92003},
+																											pos:        position{line: 2921, col: 20, offset: 92104},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 29, offset: 92012},
+																											pos:        position{line: 2921, col: 29, offset: 92113},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39651,9 +39651,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2929, col: 8, offset: 92172},
+																								pos: position{line: 2931, col: 8, offset: 92273},
 																								expr: &anyMatcher{
-																									line: 2929, col: 9, offset: 92173,
+																									line: 2931, col: 9, offset: 92274,
 																								},
 																							},
 																						},
@@ -39662,30 +39662,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 784, col: 5, offset: 25189},
+																			pos: position{line: 786, col: 5, offset: 25290},
 																			run: (*parser).callonShortcutParagraph176,
 																			expr: &seqExpr{
-																				pos: position{line: 784, col: 5, offset: 25189},
+																				pos: position{line: 786, col: 5, offset: 25290},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 784, col: 5, offset: 25189},
+																						pos:   position{line: 786, col: 5, offset: 25290},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 784, col: 16, offset: 25200},
+																							pos: position{line: 786, col: 16, offset: 25301},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &seqExpr{
-																								pos: position{line: 784, col: 16, offset: 25200},
+																								pos: position{line: 786, col: 16, offset: 25301},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 784, col: 16, offset: 25200},
+																										pos:        position{line: 786, col: 16, offset: 25301},
 																										val:        "....",
 																										ignoreCase: false,
 																										want:       "\"....\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 784, col: 23, offset: 25207},
+																										pos: position{line: 786, col: 23, offset: 25308},
 																										expr: &litMatcher{
-																											pos:        position{line: 784, col: 23, offset: 25207},
+																											pos:        position{line: 786, col: 23, offset: 25308},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -39696,12 +39696,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 786, col: 8, offset: 25291},
+																						pos: position{line: 788, col: 8, offset: 25392},
 																						expr: &actionExpr{
-																							pos: position{line: 2910, col: 10, offset: 91824},
+																							pos: position{line: 2912, col: 10, offset: 91925},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2910, col: 10, offset: 91824},
+																								pos:        position{line: 2912, col: 10, offset: 91925},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39710,28 +39710,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2932, col: 8, offset: 92222},
+																						pos: position{line: 2934, col: 8, offset: 92323},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2919, col: 12, offset: 91995},
+																								pos: position{line: 2921, col: 12, offset: 92096},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2919, col: 13, offset: 91996},
+																									pos: position{line: 2921, col: 13, offset: 92097},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 13, offset: 91996},
+																											pos:        position{line: 2921, col: 13, offset: 92097},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 20, offset: 92003},
+																											pos:        position{line: 2921, col: 20, offset: 92104},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 29, offset: 92012},
+																											pos:        position{line: 2921, col: 29, offset: 92113},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39740,9 +39740,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2929, col: 8, offset: 92172},
+																								pos: position{line: 2931, col: 8, offset: 92273},
 																								expr: &anyMatcher{
-																									line: 2929, col: 9, offset: 92173,
+																									line: 2931, col: 9, offset: 92274,
 																								},
 																							},
 																						},
@@ -39751,30 +39751,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 791, col: 5, offset: 25441},
+																			pos: position{line: 793, col: 5, offset: 25542},
 																			run: (*parser).callonShortcutParagraph195,
 																			expr: &seqExpr{
-																				pos: position{line: 791, col: 5, offset: 25441},
+																				pos: position{line: 793, col: 5, offset: 25542},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 791, col: 5, offset: 25441},
+																						pos:   position{line: 793, col: 5, offset: 25542},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 791, col: 16, offset: 25452},
+																							pos: position{line: 793, col: 16, offset: 25553},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &seqExpr{
-																								pos: position{line: 791, col: 16, offset: 25452},
+																								pos: position{line: 793, col: 16, offset: 25553},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 791, col: 16, offset: 25452},
+																										pos:        position{line: 793, col: 16, offset: 25553},
 																										val:        "++++",
 																										ignoreCase: false,
 																										want:       "\"++++\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 791, col: 23, offset: 25459},
+																										pos: position{line: 793, col: 23, offset: 25560},
 																										expr: &litMatcher{
-																											pos:        position{line: 791, col: 23, offset: 25459},
+																											pos:        position{line: 793, col: 23, offset: 25560},
 																											val:        "+",
 																											ignoreCase: false,
 																											want:       "\"+\"",
@@ -39785,12 +39785,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 793, col: 8, offset: 25543},
+																						pos: position{line: 795, col: 8, offset: 25644},
 																						expr: &actionExpr{
-																							pos: position{line: 2910, col: 10, offset: 91824},
+																							pos: position{line: 2912, col: 10, offset: 91925},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2910, col: 10, offset: 91824},
+																								pos:        position{line: 2912, col: 10, offset: 91925},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39799,28 +39799,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2932, col: 8, offset: 92222},
+																						pos: position{line: 2934, col: 8, offset: 92323},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2919, col: 12, offset: 91995},
+																								pos: position{line: 2921, col: 12, offset: 92096},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2919, col: 13, offset: 91996},
+																									pos: position{line: 2921, col: 13, offset: 92097},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 13, offset: 91996},
+																											pos:        position{line: 2921, col: 13, offset: 92097},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 20, offset: 92003},
+																											pos:        position{line: 2921, col: 20, offset: 92104},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 29, offset: 92012},
+																											pos:        position{line: 2921, col: 29, offset: 92113},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39829,9 +39829,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2929, col: 8, offset: 92172},
+																								pos: position{line: 2931, col: 8, offset: 92273},
 																								expr: &anyMatcher{
-																									line: 2929, col: 9, offset: 92173,
+																									line: 2931, col: 9, offset: 92274,
 																								},
 																							},
 																						},
@@ -39840,30 +39840,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 798, col: 5, offset: 25691},
+																			pos: position{line: 800, col: 5, offset: 25792},
 																			run: (*parser).callonShortcutParagraph214,
 																			expr: &seqExpr{
-																				pos: position{line: 798, col: 5, offset: 25691},
+																				pos: position{line: 800, col: 5, offset: 25792},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 798, col: 5, offset: 25691},
+																						pos:   position{line: 800, col: 5, offset: 25792},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 798, col: 16, offset: 25702},
+																							pos: position{line: 800, col: 16, offset: 25803},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &seqExpr{
-																								pos: position{line: 798, col: 16, offset: 25702},
+																								pos: position{line: 800, col: 16, offset: 25803},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 798, col: 16, offset: 25702},
+																										pos:        position{line: 800, col: 16, offset: 25803},
 																										val:        "____",
 																										ignoreCase: false,
 																										want:       "\"____\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 798, col: 23, offset: 25709},
+																										pos: position{line: 800, col: 23, offset: 25810},
 																										expr: &litMatcher{
-																											pos:        position{line: 798, col: 23, offset: 25709},
+																											pos:        position{line: 800, col: 23, offset: 25810},
 																											val:        "_",
 																											ignoreCase: false,
 																											want:       "\"_\"",
@@ -39874,12 +39874,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 800, col: 8, offset: 25793},
+																						pos: position{line: 802, col: 8, offset: 25894},
 																						expr: &actionExpr{
-																							pos: position{line: 2910, col: 10, offset: 91824},
+																							pos: position{line: 2912, col: 10, offset: 91925},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2910, col: 10, offset: 91824},
+																								pos:        position{line: 2912, col: 10, offset: 91925},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39888,28 +39888,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2932, col: 8, offset: 92222},
+																						pos: position{line: 2934, col: 8, offset: 92323},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2919, col: 12, offset: 91995},
+																								pos: position{line: 2921, col: 12, offset: 92096},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2919, col: 13, offset: 91996},
+																									pos: position{line: 2921, col: 13, offset: 92097},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 13, offset: 91996},
+																											pos:        position{line: 2921, col: 13, offset: 92097},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 20, offset: 92003},
+																											pos:        position{line: 2921, col: 20, offset: 92104},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 29, offset: 92012},
+																											pos:        position{line: 2921, col: 29, offset: 92113},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39918,9 +39918,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2929, col: 8, offset: 92172},
+																								pos: position{line: 2931, col: 8, offset: 92273},
 																								expr: &anyMatcher{
-																									line: 2929, col: 9, offset: 92173,
+																									line: 2931, col: 9, offset: 92274,
 																								},
 																							},
 																						},
@@ -39929,30 +39929,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 805, col: 5, offset: 25937},
+																			pos: position{line: 807, col: 5, offset: 26038},
 																			run: (*parser).callonShortcutParagraph233,
 																			expr: &seqExpr{
-																				pos: position{line: 805, col: 5, offset: 25937},
+																				pos: position{line: 807, col: 5, offset: 26038},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 805, col: 5, offset: 25937},
+																						pos:   position{line: 807, col: 5, offset: 26038},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 805, col: 16, offset: 25948},
+																							pos: position{line: 807, col: 16, offset: 26049},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &seqExpr{
-																								pos: position{line: 805, col: 16, offset: 25948},
+																								pos: position{line: 807, col: 16, offset: 26049},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 805, col: 16, offset: 25948},
+																										pos:        position{line: 807, col: 16, offset: 26049},
 																										val:        "****",
 																										ignoreCase: false,
 																										want:       "\"****\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 805, col: 23, offset: 25955},
+																										pos: position{line: 807, col: 23, offset: 26056},
 																										expr: &litMatcher{
-																											pos:        position{line: 805, col: 23, offset: 25955},
+																											pos:        position{line: 807, col: 23, offset: 26056},
 																											val:        "*",
 																											ignoreCase: false,
 																											want:       "\"*\"",
@@ -39963,12 +39963,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 807, col: 8, offset: 26039},
+																						pos: position{line: 809, col: 8, offset: 26140},
 																						expr: &actionExpr{
-																							pos: position{line: 2910, col: 10, offset: 91824},
+																							pos: position{line: 2912, col: 10, offset: 91925},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2910, col: 10, offset: 91824},
+																								pos:        position{line: 2912, col: 10, offset: 91925},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39977,28 +39977,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2932, col: 8, offset: 92222},
+																						pos: position{line: 2934, col: 8, offset: 92323},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2919, col: 12, offset: 91995},
+																								pos: position{line: 2921, col: 12, offset: 92096},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2919, col: 13, offset: 91996},
+																									pos: position{line: 2921, col: 13, offset: 92097},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 13, offset: 91996},
+																											pos:        position{line: 2921, col: 13, offset: 92097},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 20, offset: 92003},
+																											pos:        position{line: 2921, col: 20, offset: 92104},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2919, col: 29, offset: 92012},
+																											pos:        position{line: 2921, col: 29, offset: 92113},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40007,9 +40007,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2929, col: 8, offset: 92172},
+																								pos: position{line: 2931, col: 8, offset: 92273},
 																								expr: &anyMatcher{
-																									line: 2929, col: 9, offset: 92173,
+																									line: 2931, col: 9, offset: 92274,
 																								},
 																							},
 																						},
@@ -40025,23 +40025,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1769, col: 9, offset: 57246},
+												pos: position{line: 1771, col: 9, offset: 57347},
 												expr: &seqExpr{
-													pos: position{line: 1543, col: 27, offset: 49883},
+													pos: position{line: 1545, col: 27, offset: 49984},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1543, col: 27, offset: 49883},
+															pos:        position{line: 1545, col: 27, offset: 49984},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1543, col: 31, offset: 49887},
+															pos: position{line: 1545, col: 31, offset: 49988},
 															expr: &actionExpr{
-																pos: position{line: 2910, col: 10, offset: 91824},
+																pos: position{line: 2912, col: 10, offset: 91925},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2910, col: 10, offset: 91824},
+																	pos:        position{line: 2912, col: 10, offset: 91925},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40050,25 +40050,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2919, col: 12, offset: 91995},
+															pos: position{line: 2921, col: 12, offset: 92096},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2919, col: 13, offset: 91996},
+																pos: position{line: 2921, col: 13, offset: 92097},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 13, offset: 91996},
+																		pos:        position{line: 2921, col: 13, offset: 92097},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 20, offset: 92003},
+																		pos:        position{line: 2921, col: 20, offset: 92104},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 29, offset: 92012},
+																		pos:        position{line: 2921, col: 29, offset: 92113},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40080,42 +40080,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1770, col: 9, offset: 57278},
+												pos:   position{line: 1772, col: 9, offset: 57379},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1770, col: 15, offset: 57284},
+													pos: position{line: 1772, col: 15, offset: 57385},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2513, col: 22, offset: 80602},
+															pos: position{line: 2515, col: 22, offset: 80703},
 															run: (*parser).callonShortcutParagraph265,
 															expr: &seqExpr{
-																pos: position{line: 2513, col: 22, offset: 80602},
+																pos: position{line: 2515, col: 22, offset: 80703},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2518, col: 31, offset: 80852},
+																		pos:        position{line: 2520, col: 31, offset: 80953},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2518, col: 36, offset: 80857},
+																		pos: position{line: 2520, col: 36, offset: 80958},
 																		expr: &litMatcher{
-																			pos:        position{line: 2518, col: 37, offset: 80858},
+																			pos:        position{line: 2520, col: 37, offset: 80959},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2513, col: 49, offset: 80629},
+																		pos:   position{line: 2515, col: 49, offset: 80730},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2856, col: 13, offset: 90350},
+																			pos: position{line: 2858, col: 13, offset: 90451},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2856, col: 13, offset: 90350},
+																				pos: position{line: 2858, col: 13, offset: 90451},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2856, col: 13, offset: 90350},
+																					pos:        position{line: 2858, col: 13, offset: 90451},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40125,28 +40125,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2932, col: 8, offset: 92222},
+																		pos: position{line: 2934, col: 8, offset: 92323},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40155,9 +40155,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2929, col: 8, offset: 92172},
+																				pos: position{line: 2931, col: 8, offset: 92273},
 																				expr: &anyMatcher{
-																					line: 2929, col: 9, offset: 92173,
+																					line: 2931, col: 9, offset: 92274,
 																				},
 																			},
 																		},
@@ -40166,21 +40166,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1792, col: 5, offset: 57884},
+															pos: position{line: 1794, col: 5, offset: 57985},
 															run: (*parser).callonShortcutParagraph282,
 															expr: &seqExpr{
-																pos: position{line: 1792, col: 5, offset: 57884},
+																pos: position{line: 1794, col: 5, offset: 57985},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1792, col: 5, offset: 57884},
+																		pos:   position{line: 1794, col: 5, offset: 57985},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2860, col: 14, offset: 90417},
+																			pos: position{line: 2862, col: 14, offset: 90518},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2860, col: 14, offset: 90417},
+																				pos: position{line: 2862, col: 14, offset: 90518},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2860, col: 14, offset: 90417},
+																					pos:        position{line: 2862, col: 14, offset: 90518},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40190,32 +40190,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1793, col: 5, offset: 57908},
+																		pos: position{line: 1795, col: 5, offset: 58009},
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2932, col: 8, offset: 92222},
+																		pos: position{line: 2934, col: 8, offset: 92323},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40224,9 +40224,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2929, col: 8, offset: 92172},
+																				pos: position{line: 2931, col: 8, offset: 92273},
 																				expr: &anyMatcher{
-																					line: 2929, col: 9, offset: 92173,
+																					line: 2931, col: 9, offset: 92274,
 																				},
 																			},
 																		},
@@ -40248,96 +40248,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1777, col: 1, offset: 57488},
+			pos:  position{line: 1779, col: 1, offset: 57589},
 			expr: &actionExpr{
-				pos: position{line: 1778, col: 5, offset: 57506},
+				pos: position{line: 1780, col: 5, offset: 57607},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1778, col: 5, offset: 57506},
+					pos: position{line: 1780, col: 5, offset: 57607},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1778, col: 5, offset: 57506},
+							pos:   position{line: 1780, col: 5, offset: 57607},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1778, col: 11, offset: 57512},
+								pos: position{line: 1780, col: 11, offset: 57613},
 								expr: &actionExpr{
-									pos: position{line: 1733, col: 5, offset: 56018},
+									pos: position{line: 1735, col: 5, offset: 56119},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1733, col: 5, offset: 56018},
+										pos: position{line: 1735, col: 5, offset: 56119},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1733, col: 5, offset: 56018},
+												pos: position{line: 1735, col: 5, offset: 56119},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1736, col: 5, offset: 56081},
+												pos:   position{line: 1738, col: 5, offset: 56182},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1736, col: 12, offset: 56088},
+													pos: position{line: 1738, col: 12, offset: 56189},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1736, col: 12, offset: 56088},
+															pos: position{line: 1738, col: 12, offset: 56189},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1736, col: 12, offset: 56088},
+																pos:        position{line: 1738, col: 12, offset: 56189},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1738, col: 13, offset: 56144},
+															pos: position{line: 1740, col: 13, offset: 56245},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1738, col: 13, offset: 56144},
+																pos:        position{line: 1740, col: 13, offset: 56245},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1740, col: 13, offset: 56202},
+															pos: position{line: 1742, col: 13, offset: 56303},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1740, col: 13, offset: 56202},
+																pos:        position{line: 1742, col: 13, offset: 56303},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1742, col: 13, offset: 56270},
+															pos: position{line: 1744, col: 13, offset: 56371},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1742, col: 13, offset: 56270},
+																pos:        position{line: 1744, col: 13, offset: 56371},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1744, col: 13, offset: 56334},
+															pos: position{line: 1746, col: 13, offset: 56435},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1744, col: 13, offset: 56334},
+																pos:        position{line: 1746, col: 13, offset: 56435},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1746, col: 13, offset: 56398},
+															pos: position{line: 1748, col: 13, offset: 56499},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1746, col: 13, offset: 56398},
+																pos: position{line: 1748, col: 13, offset: 56499},
 																expr: &actionExpr{
-																	pos: position{line: 2914, col: 11, offset: 91885},
+																	pos: position{line: 2916, col: 11, offset: 91986},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2914, col: 11, offset: 91885},
+																		pos: position{line: 2916, col: 11, offset: 91986},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2914, col: 11, offset: 91885},
+																			pos:        position{line: 2916, col: 11, offset: 91986},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40356,24 +40356,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1779, col: 5, offset: 57535},
+							pos:   position{line: 1781, col: 5, offset: 57636},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1792, col: 5, offset: 57884},
+								pos: position{line: 1794, col: 5, offset: 57985},
 								run: (*parser).callonParagraph26,
 								expr: &seqExpr{
-									pos: position{line: 1792, col: 5, offset: 57884},
+									pos: position{line: 1794, col: 5, offset: 57985},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1792, col: 5, offset: 57884},
+											pos:   position{line: 1794, col: 5, offset: 57985},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2860, col: 14, offset: 90417},
+												pos: position{line: 2862, col: 14, offset: 90518},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2860, col: 14, offset: 90417},
+													pos: position{line: 2862, col: 14, offset: 90518},
 													expr: &charClassMatcher{
-														pos:        position{line: 2860, col: 14, offset: 90417},
+														pos:        position{line: 2862, col: 14, offset: 90518},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40383,32 +40383,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1793, col: 5, offset: 57908},
+											pos: position{line: 1795, col: 5, offset: 58009},
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2932, col: 8, offset: 92222},
+											pos: position{line: 2934, col: 8, offset: 92323},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2919, col: 12, offset: 91995},
+													pos: position{line: 2921, col: 12, offset: 92096},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2919, col: 13, offset: 91996},
+														pos: position{line: 2921, col: 13, offset: 92097},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2919, col: 13, offset: 91996},
+																pos:        position{line: 2921, col: 13, offset: 92097},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2919, col: 20, offset: 92003},
+																pos:        position{line: 2921, col: 20, offset: 92104},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2919, col: 29, offset: 92012},
+																pos:        position{line: 2921, col: 29, offset: 92113},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40417,9 +40417,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2929, col: 8, offset: 92172},
+													pos: position{line: 2931, col: 8, offset: 92273},
 													expr: &anyMatcher{
-														line: 2929, col: 9, offset: 92173,
+														line: 2931, col: 9, offset: 92274,
 													},
 												},
 											},
@@ -40429,43 +40429,43 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1780, col: 5, offset: 57569},
+							pos:   position{line: 1782, col: 5, offset: 57670},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1780, col: 16, offset: 57580},
+								pos: position{line: 1782, col: 16, offset: 57681},
 								expr: &actionExpr{
-									pos: position{line: 1781, col: 9, offset: 57590},
+									pos: position{line: 1783, col: 9, offset: 57691},
 									run: (*parser).callonParagraph43,
 									expr: &seqExpr{
-										pos: position{line: 1781, col: 9, offset: 57590},
+										pos: position{line: 1783, col: 9, offset: 57691},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2927, col: 11, offset: 92158},
+												pos: position{line: 2929, col: 11, offset: 92259},
 												expr: &anyMatcher{
-													line: 2927, col: 13, offset: 92160,
+													line: 2929, col: 13, offset: 92261,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1782, col: 9, offset: 57605},
+												pos: position{line: 1784, col: 9, offset: 57706},
 												expr: &actionExpr{
-													pos: position{line: 678, col: 14, offset: 21586},
+													pos: position{line: 680, col: 14, offset: 21687},
 													run: (*parser).callonParagraph48,
 													expr: &seqExpr{
-														pos: position{line: 678, col: 14, offset: 21586},
+														pos: position{line: 680, col: 14, offset: 21687},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2927, col: 11, offset: 92158},
+																pos: position{line: 2929, col: 11, offset: 92259},
 																expr: &anyMatcher{
-																	line: 2927, col: 13, offset: 92160,
+																	line: 2929, col: 13, offset: 92261,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 678, col: 21, offset: 21593},
+																pos: position{line: 680, col: 21, offset: 21694},
 																expr: &actionExpr{
-																	pos: position{line: 2910, col: 10, offset: 91824},
+																	pos: position{line: 2912, col: 10, offset: 91925},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2910, col: 10, offset: 91824},
+																		pos:        position{line: 2912, col: 10, offset: 91925},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40474,28 +40474,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2932, col: 8, offset: 92222},
+																pos: position{line: 2934, col: 8, offset: 92323},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2919, col: 12, offset: 91995},
+																		pos: position{line: 2921, col: 12, offset: 92096},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2919, col: 13, offset: 91996},
+																			pos: position{line: 2921, col: 13, offset: 92097},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2919, col: 13, offset: 91996},
+																					pos:        position{line: 2921, col: 13, offset: 92097},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2919, col: 20, offset: 92003},
+																					pos:        position{line: 2921, col: 20, offset: 92104},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2919, col: 29, offset: 92012},
+																					pos:        position{line: 2921, col: 29, offset: 92113},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40504,9 +40504,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2929, col: 8, offset: 92172},
+																		pos: position{line: 2931, col: 8, offset: 92273},
 																		expr: &anyMatcher{
-																			line: 2929, col: 9, offset: 92173,
+																			line: 2931, col: 9, offset: 92274,
 																		},
 																	},
 																},
@@ -40516,49 +40516,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1783, col: 9, offset: 57624},
+												pos: position{line: 1785, col: 9, offset: 57725},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1783, col: 10, offset: 57625},
+													pos:  position{line: 1785, col: 10, offset: 57726},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1784, col: 9, offset: 57649},
+												pos:   position{line: 1786, col: 9, offset: 57750},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1784, col: 15, offset: 57655},
+													pos: position{line: 1786, col: 15, offset: 57756},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2513, col: 22, offset: 80602},
+															pos: position{line: 2515, col: 22, offset: 80703},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 2513, col: 22, offset: 80602},
+																pos: position{line: 2515, col: 22, offset: 80703},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2518, col: 31, offset: 80852},
+																		pos:        position{line: 2520, col: 31, offset: 80953},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2518, col: 36, offset: 80857},
+																		pos: position{line: 2520, col: 36, offset: 80958},
 																		expr: &litMatcher{
-																			pos:        position{line: 2518, col: 37, offset: 80858},
+																			pos:        position{line: 2520, col: 37, offset: 80959},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2513, col: 49, offset: 80629},
+																		pos:   position{line: 2515, col: 49, offset: 80730},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2856, col: 13, offset: 90350},
+																			pos: position{line: 2858, col: 13, offset: 90451},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2856, col: 13, offset: 90350},
+																				pos: position{line: 2858, col: 13, offset: 90451},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2856, col: 13, offset: 90350},
+																					pos:        position{line: 2858, col: 13, offset: 90451},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40568,28 +40568,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2932, col: 8, offset: 92222},
+																		pos: position{line: 2934, col: 8, offset: 92323},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40598,9 +40598,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2929, col: 8, offset: 92172},
+																				pos: position{line: 2931, col: 8, offset: 92273},
 																				expr: &anyMatcher{
-																					line: 2929, col: 9, offset: 92173,
+																					line: 2931, col: 9, offset: 92274,
 																				},
 																			},
 																		},
@@ -40609,21 +40609,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1792, col: 5, offset: 57884},
+															pos: position{line: 1794, col: 5, offset: 57985},
 															run: (*parser).callonParagraph84,
 															expr: &seqExpr{
-																pos: position{line: 1792, col: 5, offset: 57884},
+																pos: position{line: 1794, col: 5, offset: 57985},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1792, col: 5, offset: 57884},
+																		pos:   position{line: 1794, col: 5, offset: 57985},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2860, col: 14, offset: 90417},
+																			pos: position{line: 2862, col: 14, offset: 90518},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2860, col: 14, offset: 90417},
+																				pos: position{line: 2862, col: 14, offset: 90518},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2860, col: 14, offset: 90417},
+																					pos:        position{line: 2862, col: 14, offset: 90518},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40633,32 +40633,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1793, col: 5, offset: 57908},
+																		pos: position{line: 1795, col: 5, offset: 58009},
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2932, col: 8, offset: 92222},
+																		pos: position{line: 2934, col: 8, offset: 92323},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40667,9 +40667,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2929, col: 8, offset: 92172},
+																				pos: position{line: 2931, col: 8, offset: 92273},
 																				expr: &anyMatcher{
-																					line: 2929, col: 9, offset: 92173,
+																					line: 2931, col: 9, offset: 92274,
 																				},
 																			},
 																		},
@@ -40691,16 +40691,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1803, col: 1, offset: 58394},
+			pos:  position{line: 1805, col: 1, offset: 58495},
 			expr: &choiceExpr{
-				pos: position{line: 1803, col: 15, offset: 58408},
+				pos: position{line: 1805, col: 15, offset: 58509},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1803, col: 15, offset: 58408},
+						pos:  position{line: 1805, col: 15, offset: 58509},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1803, col: 35, offset: 58428},
+						pos:  position{line: 1805, col: 35, offset: 58529},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -40708,65 +40708,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1805, col: 1, offset: 58449},
+			pos:  position{line: 1807, col: 1, offset: 58550},
 			expr: &actionExpr{
-				pos: position{line: 1806, col: 5, offset: 58474},
+				pos: position{line: 1808, col: 5, offset: 58575},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1806, col: 5, offset: 58474},
+					pos: position{line: 1808, col: 5, offset: 58575},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1806, col: 5, offset: 58474},
+							pos:   position{line: 1808, col: 5, offset: 58575},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1806, col: 16, offset: 58485},
+								pos: position{line: 1808, col: 16, offset: 58586},
 								expr: &actionExpr{
-									pos: position{line: 1806, col: 17, offset: 58486},
+									pos: position{line: 1808, col: 17, offset: 58587},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1806, col: 17, offset: 58486},
+										pos:  position{line: 1808, col: 17, offset: 58587},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1809, col: 5, offset: 58554},
+							pos: position{line: 1811, col: 5, offset: 58655},
 							expr: &litMatcher{
-								pos:        position{line: 1809, col: 7, offset: 58556},
+								pos:        position{line: 1811, col: 7, offset: 58657},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1810, col: 5, offset: 58565},
+							pos:   position{line: 1812, col: 5, offset: 58666},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1811, col: 9, offset: 58583},
+								pos: position{line: 1813, col: 9, offset: 58684},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1811, col: 9, offset: 58583},
+										pos:  position{line: 1813, col: 9, offset: 58684},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1812, col: 11, offset: 58610},
+										pos:  position{line: 1814, col: 11, offset: 58711},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1813, col: 11, offset: 58638},
+										pos:  position{line: 1815, col: 11, offset: 58739},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1814, col: 11, offset: 58669},
+										pos:  position{line: 1816, col: 11, offset: 58770},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 11, offset: 58697},
+										pos:  position{line: 1817, col: 11, offset: 58798},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1816, col: 11, offset: 58728},
+										pos:  position{line: 1818, col: 11, offset: 58829},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -40778,36 +40778,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1821, col: 1, offset: 58848},
+			pos:  position{line: 1823, col: 1, offset: 58949},
 			expr: &actionExpr{
-				pos: position{line: 1822, col: 5, offset: 58890},
+				pos: position{line: 1824, col: 5, offset: 58991},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1822, col: 5, offset: 58890},
+					pos: position{line: 1824, col: 5, offset: 58991},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1822, col: 5, offset: 58890},
+							pos:   position{line: 1824, col: 5, offset: 58991},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1822, col: 16, offset: 58901},
+								pos: position{line: 1824, col: 16, offset: 59002},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1822, col: 17, offset: 58902},
+									pos:  position{line: 1824, col: 17, offset: 59003},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1823, col: 5, offset: 58927},
+							pos:   position{line: 1825, col: 5, offset: 59028},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1823, col: 14, offset: 58936},
+								pos: position{line: 1825, col: 14, offset: 59037},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1823, col: 14, offset: 58936},
+										pos:  position{line: 1825, col: 14, offset: 59037},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1823, col: 33, offset: 58955},
+										pos:  position{line: 1825, col: 33, offset: 59056},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -40819,32 +40819,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1831, col: 1, offset: 59186},
+			pos:  position{line: 1833, col: 1, offset: 59287},
 			expr: &choiceExpr{
-				pos: position{line: 1832, col: 5, offset: 59211},
+				pos: position{line: 1834, col: 5, offset: 59312},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1832, col: 5, offset: 59211},
+						pos:  position{line: 1834, col: 5, offset: 59312},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1833, col: 7, offset: 59238},
+						pos:  position{line: 1835, col: 7, offset: 59339},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1834, col: 7, offset: 59266},
+						pos:  position{line: 1836, col: 7, offset: 59367},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 7, offset: 59298},
+						pos:  position{line: 1837, col: 7, offset: 59399},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1836, col: 7, offset: 59326},
+						pos:  position{line: 1838, col: 7, offset: 59427},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1837, col: 7, offset: 59347},
+						pos:  position{line: 1839, col: 7, offset: 59448},
 						name: "SuperscriptText",
 					},
 				},
@@ -40852,24 +40852,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1839, col: 1, offset: 59365},
+			pos:  position{line: 1841, col: 1, offset: 59466},
 			expr: &choiceExpr{
-				pos: position{line: 1840, col: 5, offset: 59390},
+				pos: position{line: 1842, col: 5, offset: 59491},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1840, col: 5, offset: 59390},
+						pos:  position{line: 1842, col: 5, offset: 59491},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1841, col: 7, offset: 59416},
+						pos:  position{line: 1843, col: 7, offset: 59517},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1842, col: 7, offset: 59444},
+						pos:  position{line: 1844, col: 7, offset: 59545},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1843, col: 7, offset: 59475},
+						pos:  position{line: 1845, col: 7, offset: 59576},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -40877,26 +40877,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1857, col: 1, offset: 59829},
+			pos:  position{line: 1859, col: 1, offset: 59930},
 			expr: &choiceExpr{
-				pos: position{line: 1858, col: 5, offset: 59855},
+				pos: position{line: 1860, col: 5, offset: 59956},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2809, col: 5, offset: 89066},
+						pos: position{line: 2811, col: 5, offset: 89167},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2809, col: 5, offset: 89066},
+							pos: position{line: 2811, col: 5, offset: 89167},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2809, col: 5, offset: 89066},
+									pos:   position{line: 2811, col: 5, offset: 89167},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2809, col: 11, offset: 89072},
+										pos: position{line: 2811, col: 11, offset: 89173},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2809, col: 11, offset: 89072},
+											pos: position{line: 2811, col: 11, offset: 89173},
 											expr: &charClassMatcher{
-												pos:        position{line: 2809, col: 11, offset: 89072},
+												pos:        position{line: 2811, col: 11, offset: 89173},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40906,36 +40906,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2812, col: 5, offset: 89130},
+									pos: position{line: 2814, col: 5, offset: 89231},
 									expr: &seqExpr{
-										pos: position{line: 2813, col: 9, offset: 89141},
+										pos: position{line: 2815, col: 9, offset: 89242},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2813, col: 9, offset: 89141},
+												pos:        position{line: 2815, col: 9, offset: 89242},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2814, col: 9, offset: 89190},
+												pos: position{line: 2816, col: 9, offset: 89291},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2818, col: 5, offset: 89270},
+									pos: position{line: 2820, col: 5, offset: 89371},
 									expr: &seqExpr{
-										pos: position{line: 2819, col: 9, offset: 89281},
+										pos: position{line: 2821, col: 9, offset: 89382},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2819, col: 9, offset: 89281},
+												pos:        position{line: 2821, col: 9, offset: 89382},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2819, col: 13, offset: 89285},
+												pos:        position{line: 2821, col: 13, offset: 89386},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40948,12 +40948,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2914, col: 11, offset: 91885},
+						pos: position{line: 2916, col: 11, offset: 91986},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2914, col: 11, offset: 91885},
+							pos: position{line: 2916, col: 11, offset: 91986},
 							expr: &charClassMatcher{
-								pos:        position{line: 2914, col: 11, offset: 91885},
+								pos:        position{line: 2916, col: 11, offset: 91986},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -40962,25 +40962,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1860, col: 7, offset: 59918},
+						pos:  position{line: 1862, col: 7, offset: 60019},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2531, col: 5, offset: 81347},
+						pos: position{line: 2533, col: 5, offset: 81448},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2531, col: 5, offset: 81347},
+							pos: position{line: 2533, col: 5, offset: 81448},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2531, col: 5, offset: 81347},
+									pos:        position{line: 2533, col: 5, offset: 81448},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2531, col: 10, offset: 81352},
+									pos: position{line: 2533, col: 10, offset: 81453},
 									expr: &charClassMatcher{
-										pos:        position{line: 2531, col: 11, offset: 81353},
+										pos:        position{line: 2533, col: 11, offset: 81454},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40991,29 +40991,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2537, col: 5, offset: 81545},
+						pos: position{line: 2539, col: 5, offset: 81646},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2537, col: 5, offset: 81545},
+							pos: position{line: 2539, col: 5, offset: 81646},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2537, col: 5, offset: 81545},
+									pos: position{line: 2539, col: 5, offset: 81646},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2540, col: 5, offset: 81616},
+									pos: position{line: 2542, col: 5, offset: 81717},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2544, col: 5, offset: 81741},
+									pos:        position{line: 2546, col: 5, offset: 81842},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2544, col: 9, offset: 81745},
+									pos: position{line: 2546, col: 9, offset: 81846},
 									expr: &charClassMatcher{
-										pos:        position{line: 2544, col: 10, offset: 81746},
+										pos:        position{line: 2546, col: 10, offset: 81847},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41024,27 +41024,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2827, col: 5, offset: 89478},
+						pos: position{line: 2829, col: 5, offset: 89579},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2828, col: 9, offset: 89488},
+							pos: position{line: 2830, col: 9, offset: 89589},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2828, col: 10, offset: 89489},
+									pos:        position{line: 2830, col: 10, offset: 89590},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2830, col: 13, offset: 89586},
+									pos: position{line: 2832, col: 13, offset: 89687},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2830, col: 13, offset: 89586},
+											pos: position{line: 2832, col: 13, offset: 89687},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2833, col: 13, offset: 89686},
+											pos:        position{line: 2835, col: 13, offset: 89787},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -41052,20 +41052,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2833, col: 19, offset: 89692},
+									pos:        position{line: 2835, col: 19, offset: 89793},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2836, col: 13, offset: 89730},
+									pos: position{line: 2838, col: 13, offset: 89831},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2836, col: 13, offset: 89730},
+											pos: position{line: 2838, col: 13, offset: 89831},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2839, col: 14, offset: 89823},
+											pos:        position{line: 2841, col: 14, offset: 89924},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -41074,18 +41074,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2841, col: 12, offset: 89867},
+									pos: position{line: 2843, col: 12, offset: 89968},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2841, col: 12, offset: 89867},
+											pos:        position{line: 2843, col: 12, offset: 89968},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2841, col: 16, offset: 89871},
+											pos: position{line: 2843, col: 16, offset: 89972},
 											expr: &litMatcher{
-												pos:        position{line: 2841, col: 17, offset: 89872},
+												pos:        position{line: 2843, col: 17, offset: 89973},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -41097,44 +41097,44 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 637, col: 5, offset: 20204},
+						pos: position{line: 639, col: 5, offset: 20305},
 						run: (*parser).callonQuotedTextElement46,
 						expr: &seqExpr{
-							pos: position{line: 637, col: 5, offset: 20204},
+							pos: position{line: 639, col: 5, offset: 20305},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 637, col: 5, offset: 20204},
+									pos: position{line: 639, col: 5, offset: 20305},
 									run: (*parser).callonQuotedTextElement48,
 								},
 								&labeledExpr{
-									pos:   position{line: 640, col: 5, offset: 20276},
+									pos:   position{line: 642, col: 5, offset: 20377},
 									label: "element",
 									expr: &choiceExpr{
-										pos: position{line: 640, col: 14, offset: 20285},
+										pos: position{line: 642, col: 14, offset: 20386},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 646, col: 5, offset: 20414},
+												pos: position{line: 648, col: 5, offset: 20515},
 												run: (*parser).callonQuotedTextElement51,
 												expr: &seqExpr{
-													pos: position{line: 646, col: 5, offset: 20414},
+													pos: position{line: 648, col: 5, offset: 20515},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 646, col: 5, offset: 20414},
+															pos:        position{line: 648, col: 5, offset: 20515},
 															val:        "\\{",
 															ignoreCase: false,
 															want:       "\"\\\\{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 646, col: 13, offset: 20422},
+															pos:   position{line: 648, col: 13, offset: 20523},
 															label: "name",
 															expr: &actionExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 320, col: 18, offset: 9837},
 																run: (*parser).callonQuotedTextElement55,
 																expr: &seqExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
+																	pos: position{line: 320, col: 18, offset: 9837},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 318, col: 18, offset: 9736},
+																			pos:        position{line: 320, col: 18, offset: 9837},
 																			val:        "[_\\pL\\pN]",
 																			chars:      []rune{'_'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -41142,9 +41142,9 @@ var g = &grammar{
 																			inverted:   false,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 318, col: 28, offset: 9746},
+																			pos: position{line: 320, col: 28, offset: 9847},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 318, col: 29, offset: 9747},
+																				pos:        position{line: 320, col: 29, offset: 9848},
 																				val:        "[-\\pL\\pN]",
 																				chars:      []rune{'-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -41157,7 +41157,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 646, col: 32, offset: 20441},
+															pos:        position{line: 648, col: 32, offset: 20542},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41166,28 +41166,28 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 653, col: 5, offset: 20682},
+												pos: position{line: 655, col: 5, offset: 20783},
 												run: (*parser).callonQuotedTextElement61,
 												expr: &seqExpr{
-													pos: position{line: 653, col: 5, offset: 20682},
+													pos: position{line: 655, col: 5, offset: 20783},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 653, col: 5, offset: 20682},
+															pos:        position{line: 655, col: 5, offset: 20783},
 															val:        "{",
 															ignoreCase: false,
 															want:       "\"{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 653, col: 9, offset: 20686},
+															pos:   position{line: 655, col: 9, offset: 20787},
 															label: "name",
 															expr: &actionExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 320, col: 18, offset: 9837},
 																run: (*parser).callonQuotedTextElement65,
 																expr: &seqExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
+																	pos: position{line: 320, col: 18, offset: 9837},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 318, col: 18, offset: 9736},
+																			pos:        position{line: 320, col: 18, offset: 9837},
 																			val:        "[_\\pL\\pN]",
 																			chars:      []rune{'_'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -41195,9 +41195,9 @@ var g = &grammar{
 																			inverted:   false,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 318, col: 28, offset: 9746},
+																			pos: position{line: 320, col: 28, offset: 9847},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 318, col: 29, offset: 9747},
+																				pos:        position{line: 320, col: 29, offset: 9848},
 																				val:        "[-\\pL\\pN]",
 																				chars:      []rune{'-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -41210,7 +41210,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 653, col: 28, offset: 20705},
+															pos:        position{line: 655, col: 28, offset: 20806},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41219,28 +41219,28 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 659, col: 25, offset: 20886},
+												pos: position{line: 661, col: 25, offset: 20987},
 												run: (*parser).callonQuotedTextElement71,
 												expr: &seqExpr{
-													pos: position{line: 659, col: 25, offset: 20886},
+													pos: position{line: 661, col: 25, offset: 20987},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 659, col: 25, offset: 20886},
+															pos:        position{line: 661, col: 25, offset: 20987},
 															val:        "{counter:",
 															ignoreCase: false,
 															want:       "\"{counter:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 659, col: 37, offset: 20898},
+															pos:   position{line: 661, col: 37, offset: 20999},
 															label: "name",
 															expr: &actionExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 320, col: 18, offset: 9837},
 																run: (*parser).callonQuotedTextElement75,
 																expr: &seqExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
+																	pos: position{line: 320, col: 18, offset: 9837},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 318, col: 18, offset: 9736},
+																			pos:        position{line: 320, col: 18, offset: 9837},
 																			val:        "[_\\pL\\pN]",
 																			chars:      []rune{'_'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -41248,9 +41248,9 @@ var g = &grammar{
 																			inverted:   false,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 318, col: 28, offset: 9746},
+																			pos: position{line: 320, col: 28, offset: 9847},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 318, col: 29, offset: 9747},
+																				pos:        position{line: 320, col: 29, offset: 9848},
 																				val:        "[-\\pL\\pN]",
 																				chars:      []rune{'-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -41263,33 +41263,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 659, col: 56, offset: 20917},
+															pos:   position{line: 661, col: 56, offset: 21018},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 659, col: 62, offset: 20923},
+																pos: position{line: 661, col: 62, offset: 21024},
 																expr: &actionExpr{
-																	pos: position{line: 667, col: 17, offset: 21220},
+																	pos: position{line: 669, col: 17, offset: 21321},
 																	run: (*parser).callonQuotedTextElement82,
 																	expr: &seqExpr{
-																		pos: position{line: 667, col: 17, offset: 21220},
+																		pos: position{line: 669, col: 17, offset: 21321},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 667, col: 17, offset: 21220},
+																				pos:        position{line: 669, col: 17, offset: 21321},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 667, col: 21, offset: 21224},
+																				pos:   position{line: 669, col: 21, offset: 21325},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 667, col: 28, offset: 21231},
+																					pos: position{line: 669, col: 28, offset: 21332},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 667, col: 28, offset: 21231},
+																							pos: position{line: 669, col: 28, offset: 21332},
 																							run: (*parser).callonQuotedTextElement87,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 667, col: 28, offset: 21231},
+																								pos:        position{line: 669, col: 28, offset: 21332},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -41297,12 +41297,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 669, col: 9, offset: 21285},
+																							pos: position{line: 671, col: 9, offset: 21386},
 																							run: (*parser).callonQuotedTextElement89,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 669, col: 9, offset: 21285},
+																								pos: position{line: 671, col: 9, offset: 21386},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 669, col: 9, offset: 21285},
+																									pos:        position{line: 671, col: 9, offset: 21386},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -41319,7 +41319,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 659, col: 78, offset: 20939},
+															pos:        position{line: 661, col: 78, offset: 21040},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41328,28 +41328,28 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 663, col: 25, offset: 21057},
+												pos: position{line: 665, col: 25, offset: 21158},
 												run: (*parser).callonQuotedTextElement93,
 												expr: &seqExpr{
-													pos: position{line: 663, col: 25, offset: 21057},
+													pos: position{line: 665, col: 25, offset: 21158},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 663, col: 25, offset: 21057},
+															pos:        position{line: 665, col: 25, offset: 21158},
 															val:        "{counter2:",
 															ignoreCase: false,
 															want:       "\"{counter2:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 663, col: 38, offset: 21070},
+															pos:   position{line: 665, col: 38, offset: 21171},
 															label: "name",
 															expr: &actionExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 320, col: 18, offset: 9837},
 																run: (*parser).callonQuotedTextElement97,
 																expr: &seqExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
+																	pos: position{line: 320, col: 18, offset: 9837},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 318, col: 18, offset: 9736},
+																			pos:        position{line: 320, col: 18, offset: 9837},
 																			val:        "[_\\pL\\pN]",
 																			chars:      []rune{'_'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -41357,9 +41357,9 @@ var g = &grammar{
 																			inverted:   false,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 318, col: 28, offset: 9746},
+																			pos: position{line: 320, col: 28, offset: 9847},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 318, col: 29, offset: 9747},
+																				pos:        position{line: 320, col: 29, offset: 9848},
 																				val:        "[-\\pL\\pN]",
 																				chars:      []rune{'-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -41372,33 +41372,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 663, col: 57, offset: 21089},
+															pos:   position{line: 665, col: 57, offset: 21190},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 663, col: 63, offset: 21095},
+																pos: position{line: 665, col: 63, offset: 21196},
 																expr: &actionExpr{
-																	pos: position{line: 667, col: 17, offset: 21220},
+																	pos: position{line: 669, col: 17, offset: 21321},
 																	run: (*parser).callonQuotedTextElement104,
 																	expr: &seqExpr{
-																		pos: position{line: 667, col: 17, offset: 21220},
+																		pos: position{line: 669, col: 17, offset: 21321},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 667, col: 17, offset: 21220},
+																				pos:        position{line: 669, col: 17, offset: 21321},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 667, col: 21, offset: 21224},
+																				pos:   position{line: 669, col: 21, offset: 21325},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 667, col: 28, offset: 21231},
+																					pos: position{line: 669, col: 28, offset: 21332},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 667, col: 28, offset: 21231},
+																							pos: position{line: 669, col: 28, offset: 21332},
 																							run: (*parser).callonQuotedTextElement109,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 667, col: 28, offset: 21231},
+																								pos:        position{line: 669, col: 28, offset: 21332},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -41406,12 +41406,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 669, col: 9, offset: 21285},
+																							pos: position{line: 671, col: 9, offset: 21386},
 																							run: (*parser).callonQuotedTextElement111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 669, col: 9, offset: 21285},
+																								pos: position{line: 671, col: 9, offset: 21386},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 669, col: 9, offset: 21285},
+																									pos:        position{line: 671, col: 9, offset: 21386},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -41428,7 +41428,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 663, col: 79, offset: 21111},
+															pos:        position{line: 665, col: 79, offset: 21212},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41443,31 +41443,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2923, col: 18, offset: 92095},
+						pos: position{line: 2925, col: 18, offset: 92196},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2923, col: 18, offset: 92095},
+							pos: position{line: 2925, col: 18, offset: 92196},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2919, col: 12, offset: 91995},
+									pos: position{line: 2921, col: 12, offset: 92096},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2919, col: 13, offset: 91996},
+										pos: position{line: 2921, col: 13, offset: 92097},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2919, col: 13, offset: 91996},
+												pos:        position{line: 2921, col: 13, offset: 92097},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2919, col: 20, offset: 92003},
+												pos:        position{line: 2921, col: 20, offset: 92104},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2919, col: 29, offset: 92012},
+												pos:        position{line: 2921, col: 29, offset: 92113},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41476,27 +41476,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2923, col: 26, offset: 92103},
+									pos: position{line: 2925, col: 26, offset: 92204},
 									expr: &actionExpr{
-										pos: position{line: 2919, col: 12, offset: 91995},
+										pos: position{line: 2921, col: 12, offset: 92096},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2919, col: 13, offset: 91996},
+											pos: position{line: 2921, col: 13, offset: 92097},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2919, col: 13, offset: 91996},
+													pos:        position{line: 2921, col: 13, offset: 92097},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2919, col: 20, offset: 92003},
+													pos:        position{line: 2921, col: 20, offset: 92104},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2919, col: 29, offset: 92012},
+													pos:        position{line: 2921, col: 29, offset: 92113},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41509,31 +41509,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1865, col: 7, offset: 60085},
+						pos:  position{line: 1867, col: 7, offset: 60186},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1866, col: 7, offset: 60132},
+						pos:  position{line: 1868, col: 7, offset: 60233},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2500, col: 5, offset: 80148},
+						pos: position{line: 2502, col: 5, offset: 80249},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2500, col: 5, offset: 80148},
+							pos: position{line: 2502, col: 5, offset: 80249},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2500, col: 5, offset: 80148},
+									pos: position{line: 2502, col: 5, offset: 80249},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2503, col: 5, offset: 80224},
+									pos:   position{line: 2505, col: 5, offset: 80325},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2504, col: 9, offset: 80242},
+										pos: position{line: 2506, col: 9, offset: 80343},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2504, col: 10, offset: 80243},
+											pos:        position{line: 2506, col: 10, offset: 80344},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -41545,27 +41545,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1199, col: 23, offset: 37069},
+						pos: position{line: 1201, col: 23, offset: 37170},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 1199, col: 23, offset: 37069},
+							pos: position{line: 1201, col: 23, offset: 37170},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1197, col: 32, offset: 37037},
+									pos:        position{line: 1199, col: 32, offset: 37138},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1199, col: 51, offset: 37097},
+									pos:   position{line: 1201, col: 51, offset: 37198},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1199, col: 56, offset: 37102},
+										pos: position{line: 1201, col: 56, offset: 37203},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1199, col: 56, offset: 37102},
+											pos: position{line: 1201, col: 56, offset: 37203},
 											expr: &charClassMatcher{
-												pos:        position{line: 1199, col: 56, offset: 37102},
+												pos:        position{line: 1201, col: 56, offset: 37203},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -41575,7 +41575,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1197, col: 32, offset: 37037},
+									pos:        position{line: 1199, col: 32, offset: 37138},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
@@ -41584,10 +41584,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2849, col: 12, offset: 90132},
+						pos: position{line: 2851, col: 12, offset: 90233},
 						run: (*parser).callonQuotedTextElement144,
 						expr: &charClassMatcher{
-							pos:        position{line: 2849, col: 12, offset: 90132},
+							pos:        position{line: 2851, col: 12, offset: 90233},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41599,29 +41599,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1884, col: 1, offset: 60602},
+			pos:  position{line: 1886, col: 1, offset: 60703},
 			expr: &actionExpr{
-				pos: position{line: 1885, col: 5, offset: 60630},
+				pos: position{line: 1887, col: 5, offset: 60731},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1885, col: 5, offset: 60630},
+					pos: position{line: 1887, col: 5, offset: 60731},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1880, col: 38, offset: 60555},
+							pos:        position{line: 1882, col: 38, offset: 60656},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1886, col: 5, offset: 60669},
+							pos:   position{line: 1888, col: 5, offset: 60770},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1886, col: 15, offset: 60679},
+								pos:  position{line: 1888, col: 15, offset: 60780},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1882, col: 36, offset: 60596},
+							pos:        position{line: 1884, col: 36, offset: 60697},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -41632,24 +41632,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1891, col: 1, offset: 60839},
+			pos:  position{line: 1893, col: 1, offset: 60940},
 			expr: &actionExpr{
-				pos: position{line: 1892, col: 5, offset: 60874},
+				pos: position{line: 1894, col: 5, offset: 60975},
 				run: (*parser).callonDoubleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1892, col: 5, offset: 60874},
+					pos: position{line: 1894, col: 5, offset: 60975},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1892, col: 5, offset: 60874},
+							pos: position{line: 1894, col: 5, offset: 60975},
 							run: (*parser).callonDoubleQuoteBoldTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1896, col: 5, offset: 60994},
+							pos:   position{line: 1898, col: 5, offset: 61095},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1896, col: 14, offset: 61003},
+								pos: position{line: 1898, col: 14, offset: 61104},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1896, col: 15, offset: 61004},
+									pos:  position{line: 1898, col: 15, offset: 61105},
 									name: "DoubleQuoteBoldTextElement",
 								},
 							},
@@ -41660,33 +41660,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1900, col: 1, offset: 61071},
+			pos:  position{line: 1902, col: 1, offset: 61172},
 			expr: &actionExpr{
-				pos: position{line: 1901, col: 5, offset: 61106},
+				pos: position{line: 1903, col: 5, offset: 61207},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1901, col: 5, offset: 61106},
+					pos: position{line: 1903, col: 5, offset: 61207},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2927, col: 11, offset: 92158},
+							pos: position{line: 2929, col: 11, offset: 92259},
 							expr: &anyMatcher{
-								line: 2927, col: 13, offset: 92160,
+								line: 2929, col: 13, offset: 92261,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1902, col: 5, offset: 61117},
+							pos: position{line: 1904, col: 5, offset: 61218},
 							expr: &litMatcher{
-								pos:        position{line: 1882, col: 36, offset: 60596},
+								pos:        position{line: 1884, col: 36, offset: 60697},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1903, col: 5, offset: 61154},
+							pos:   position{line: 1905, col: 5, offset: 61255},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1903, col: 14, offset: 61163},
+								pos:  position{line: 1905, col: 14, offset: 61264},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41696,29 +41696,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1928, col: 1, offset: 61843},
+			pos:  position{line: 1930, col: 1, offset: 61944},
 			expr: &actionExpr{
-				pos: position{line: 1929, col: 5, offset: 61871},
+				pos: position{line: 1931, col: 5, offset: 61972},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1929, col: 5, offset: 61871},
+					pos: position{line: 1931, col: 5, offset: 61972},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1912, col: 5, offset: 61397},
+							pos:        position{line: 1914, col: 5, offset: 61498},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1913, col: 5, offset: 61406},
+							pos: position{line: 1915, col: 5, offset: 61507},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1917, col: 5, offset: 61524},
+							pos: position{line: 1919, col: 5, offset: 61625},
 							expr: &notExpr{
-								pos: position{line: 1917, col: 7, offset: 61526},
+								pos: position{line: 1919, col: 7, offset: 61627},
 								expr: &litMatcher{
-									pos:        position{line: 1917, col: 8, offset: 61527},
+									pos:        position{line: 1919, col: 8, offset: 61628},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41726,38 +41726,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1930, col: 5, offset: 61909},
+							pos:   position{line: 1932, col: 5, offset: 62010},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1930, col: 15, offset: 61919},
+								pos:  position{line: 1932, col: 15, offset: 62020},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1920, col: 5, offset: 61647},
+							pos:        position{line: 1922, col: 5, offset: 61748},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1921, col: 5, offset: 61656},
+							pos: position{line: 1923, col: 5, offset: 61757},
 							expr: &litMatcher{
-								pos:        position{line: 1921, col: 6, offset: 61657},
+								pos:        position{line: 1923, col: 6, offset: 61758},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1922, col: 5, offset: 61720},
+							pos: position{line: 1924, col: 5, offset: 61821},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1926, col: 5, offset: 61829},
+							pos: position{line: 1928, col: 5, offset: 61930},
 							expr: &notExpr{
-								pos: position{line: 1926, col: 7, offset: 61831},
+								pos: position{line: 1928, col: 7, offset: 61932},
 								expr: &charClassMatcher{
-									pos:        position{line: 2800, col: 13, offset: 88919},
+									pos:        position{line: 2802, col: 13, offset: 89020},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41771,20 +41771,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1935, col: 1, offset: 62079},
+			pos:  position{line: 1937, col: 1, offset: 62180},
 			expr: &actionExpr{
-				pos: position{line: 1936, col: 5, offset: 62116},
+				pos: position{line: 1938, col: 5, offset: 62217},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1936, col: 5, offset: 62116},
+					pos: position{line: 1938, col: 5, offset: 62217},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1936, col: 5, offset: 62116},
+							pos: position{line: 1938, col: 5, offset: 62217},
 							expr: &actionExpr{
-								pos: position{line: 2910, col: 10, offset: 91824},
+								pos: position{line: 2912, col: 10, offset: 91925},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2910, col: 10, offset: 91824},
+									pos:        position{line: 2912, col: 10, offset: 91925},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41793,18 +41793,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1937, col: 5, offset: 62155},
+							pos:   position{line: 1939, col: 5, offset: 62256},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1937, col: 14, offset: 62164},
+								pos: position{line: 1939, col: 14, offset: 62265},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1937, col: 15, offset: 62165},
+									pos:  position{line: 1939, col: 15, offset: 62266},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1938, col: 5, offset: 62199},
+							pos: position{line: 1940, col: 5, offset: 62300},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -41813,49 +41813,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1944, col: 1, offset: 62340},
+			pos:  position{line: 1946, col: 1, offset: 62441},
 			expr: &actionExpr{
-				pos: position{line: 1945, col: 5, offset: 62375},
+				pos: position{line: 1947, col: 5, offset: 62476},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1945, col: 5, offset: 62375},
+					pos: position{line: 1947, col: 5, offset: 62476},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2927, col: 11, offset: 92158},
+							pos: position{line: 2929, col: 11, offset: 92259},
 							expr: &anyMatcher{
-								line: 2927, col: 13, offset: 92160,
+								line: 2929, col: 13, offset: 92261,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1946, col: 5, offset: 62403},
+							pos: position{line: 1948, col: 5, offset: 62504},
 							expr: &seqExpr{
-								pos: position{line: 1920, col: 5, offset: 61647},
+								pos: position{line: 1922, col: 5, offset: 61748},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1920, col: 5, offset: 61647},
+										pos:        position{line: 1922, col: 5, offset: 61748},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1921, col: 5, offset: 61656},
+										pos: position{line: 1923, col: 5, offset: 61757},
 										expr: &litMatcher{
-											pos:        position{line: 1921, col: 6, offset: 61657},
+											pos:        position{line: 1923, col: 6, offset: 61758},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1922, col: 5, offset: 61720},
+										pos: position{line: 1924, col: 5, offset: 61821},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1926, col: 5, offset: 61829},
+										pos: position{line: 1928, col: 5, offset: 61930},
 										expr: &notExpr{
-											pos: position{line: 1926, col: 7, offset: 61831},
+											pos: position{line: 1928, col: 7, offset: 61932},
 											expr: &charClassMatcher{
-												pos:        position{line: 2800, col: 13, offset: 88919},
+												pos:        position{line: 2802, col: 13, offset: 89020},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41867,10 +41867,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1947, col: 5, offset: 62440},
+							pos:   position{line: 1949, col: 5, offset: 62541},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1947, col: 14, offset: 62449},
+								pos:  position{line: 1949, col: 14, offset: 62550},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41880,35 +41880,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1952, col: 1, offset: 62537},
+			pos:  position{line: 1954, col: 1, offset: 62638},
 			expr: &choiceExpr{
-				pos: position{line: 1954, col: 5, offset: 62598},
+				pos: position{line: 1956, col: 5, offset: 62699},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1954, col: 5, offset: 62598},
+						pos: position{line: 1956, col: 5, offset: 62699},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1954, col: 5, offset: 62598},
+							pos: position{line: 1956, col: 5, offset: 62699},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1954, col: 5, offset: 62598},
+									pos:   position{line: 1956, col: 5, offset: 62699},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59775},
+										pos: position{line: 1855, col: 25, offset: 59876},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1853, col: 25, offset: 59775},
+											pos: position{line: 1855, col: 25, offset: 59876},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1853, col: 25, offset: 59775},
+													pos:        position{line: 1855, col: 25, offset: 59876},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1853, col: 30, offset: 59780},
+													pos: position{line: 1855, col: 30, offset: 59881},
 													expr: &litMatcher{
-														pos:        position{line: 1853, col: 30, offset: 59780},
+														pos:        position{line: 1855, col: 30, offset: 59881},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41919,21 +41919,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1954, col: 40, offset: 62633},
+									pos:        position{line: 1956, col: 40, offset: 62734},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1954, col: 45, offset: 62638},
+									pos:   position{line: 1956, col: 45, offset: 62739},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1954, col: 55, offset: 62648},
+										pos:  position{line: 1956, col: 55, offset: 62749},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1954, col: 84, offset: 62677},
+									pos:        position{line: 1956, col: 84, offset: 62778},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41942,21 +41942,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1958, col: 7, offset: 62841},
+						pos: position{line: 1960, col: 7, offset: 62942},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1958, col: 7, offset: 62841},
+							pos: position{line: 1960, col: 7, offset: 62942},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1958, col: 7, offset: 62841},
+									pos:   position{line: 1960, col: 7, offset: 62942},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1849, col: 25, offset: 59702},
+										pos: position{line: 1851, col: 25, offset: 59803},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1849, col: 25, offset: 59702},
+											pos: position{line: 1851, col: 25, offset: 59803},
 											expr: &litMatcher{
-												pos:        position{line: 1849, col: 25, offset: 59702},
+												pos:        position{line: 1851, col: 25, offset: 59803},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41965,21 +41965,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1958, col: 42, offset: 62876},
+									pos:        position{line: 1960, col: 42, offset: 62977},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1958, col: 47, offset: 62881},
+									pos:   position{line: 1960, col: 47, offset: 62982},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1958, col: 57, offset: 62891},
+										pos:  position{line: 1960, col: 57, offset: 62992},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1958, col: 86, offset: 62920},
+									pos:        position{line: 1960, col: 86, offset: 63021},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41988,21 +41988,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1963, col: 7, offset: 63122},
+						pos: position{line: 1965, col: 7, offset: 63223},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1963, col: 7, offset: 63122},
+							pos: position{line: 1965, col: 7, offset: 63223},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1963, col: 7, offset: 63122},
+									pos:   position{line: 1965, col: 7, offset: 63223},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1849, col: 25, offset: 59702},
+										pos: position{line: 1851, col: 25, offset: 59803},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1849, col: 25, offset: 59702},
+											pos: position{line: 1851, col: 25, offset: 59803},
 											expr: &litMatcher{
-												pos:        position{line: 1849, col: 25, offset: 59702},
+												pos:        position{line: 1851, col: 25, offset: 59803},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42011,21 +42011,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1963, col: 42, offset: 63157},
+									pos:        position{line: 1965, col: 42, offset: 63258},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1963, col: 46, offset: 63161},
+									pos:   position{line: 1965, col: 46, offset: 63262},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1963, col: 56, offset: 63171},
+										pos:  position{line: 1965, col: 56, offset: 63272},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1963, col: 85, offset: 63200},
+									pos:        position{line: 1965, col: 85, offset: 63301},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42038,29 +42038,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1980, col: 1, offset: 63680},
+			pos:  position{line: 1982, col: 1, offset: 63781},
 			expr: &actionExpr{
-				pos: position{line: 1981, col: 5, offset: 63710},
+				pos: position{line: 1983, col: 5, offset: 63811},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1981, col: 5, offset: 63710},
+					pos: position{line: 1983, col: 5, offset: 63811},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1976, col: 40, offset: 63631},
+							pos:        position{line: 1978, col: 40, offset: 63732},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1982, col: 5, offset: 63751},
+							pos:   position{line: 1984, col: 5, offset: 63852},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1982, col: 15, offset: 63761},
+								pos:  position{line: 1984, col: 15, offset: 63862},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1978, col: 38, offset: 63674},
+							pos:        position{line: 1980, col: 38, offset: 63775},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -42071,24 +42071,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1987, col: 1, offset: 63926},
+			pos:  position{line: 1989, col: 1, offset: 64027},
 			expr: &actionExpr{
-				pos: position{line: 1988, col: 5, offset: 63963},
+				pos: position{line: 1990, col: 5, offset: 64064},
 				run: (*parser).callonDoubleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1988, col: 5, offset: 63963},
+					pos: position{line: 1990, col: 5, offset: 64064},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1988, col: 5, offset: 63963},
+							pos: position{line: 1990, col: 5, offset: 64064},
 							run: (*parser).callonDoubleQuoteItalicTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1992, col: 5, offset: 64083},
+							pos:   position{line: 1994, col: 5, offset: 64184},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1992, col: 14, offset: 64092},
+								pos: position{line: 1994, col: 14, offset: 64193},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1992, col: 15, offset: 64093},
+									pos:  position{line: 1994, col: 15, offset: 64194},
 									name: "DoubleQuoteItalicTextElement",
 								},
 							},
@@ -42099,33 +42099,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1996, col: 1, offset: 64162},
+			pos:  position{line: 1998, col: 1, offset: 64263},
 			expr: &actionExpr{
-				pos: position{line: 1997, col: 5, offset: 64199},
+				pos: position{line: 1999, col: 5, offset: 64300},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1997, col: 5, offset: 64199},
+					pos: position{line: 1999, col: 5, offset: 64300},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2927, col: 11, offset: 92158},
+							pos: position{line: 2929, col: 11, offset: 92259},
 							expr: &anyMatcher{
-								line: 2927, col: 13, offset: 92160,
+								line: 2929, col: 13, offset: 92261,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1998, col: 5, offset: 64210},
+							pos: position{line: 2000, col: 5, offset: 64311},
 							expr: &litMatcher{
-								pos:        position{line: 1978, col: 38, offset: 63674},
+								pos:        position{line: 1980, col: 38, offset: 63775},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1999, col: 5, offset: 64249},
+							pos:   position{line: 2001, col: 5, offset: 64350},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1999, col: 14, offset: 64258},
+								pos:  position{line: 2001, col: 14, offset: 64359},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42135,29 +42135,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2025, col: 1, offset: 64942},
+			pos:  position{line: 2027, col: 1, offset: 65043},
 			expr: &actionExpr{
-				pos: position{line: 2026, col: 5, offset: 64972},
+				pos: position{line: 2028, col: 5, offset: 65073},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2026, col: 5, offset: 64972},
+					pos: position{line: 2028, col: 5, offset: 65073},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2008, col: 5, offset: 64500},
+							pos:        position{line: 2010, col: 5, offset: 64601},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2009, col: 5, offset: 64509},
+							pos: position{line: 2011, col: 5, offset: 64610},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2013, col: 5, offset: 64629},
+							pos: position{line: 2015, col: 5, offset: 64730},
 							expr: &notExpr{
-								pos: position{line: 2013, col: 7, offset: 64631},
+								pos: position{line: 2015, col: 7, offset: 64732},
 								expr: &litMatcher{
-									pos:        position{line: 2013, col: 8, offset: 64632},
+									pos:        position{line: 2015, col: 8, offset: 64733},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42165,38 +42165,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2027, col: 5, offset: 65012},
+							pos:   position{line: 2029, col: 5, offset: 65113},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2027, col: 15, offset: 65022},
+								pos:  position{line: 2029, col: 15, offset: 65123},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2017, col: 5, offset: 64742},
+							pos:        position{line: 2019, col: 5, offset: 64843},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2018, col: 5, offset: 64751},
+							pos: position{line: 2020, col: 5, offset: 64852},
 							expr: &litMatcher{
-								pos:        position{line: 2018, col: 6, offset: 64752},
+								pos:        position{line: 2020, col: 6, offset: 64853},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2019, col: 5, offset: 64817},
+							pos: position{line: 2021, col: 5, offset: 64918},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2023, col: 5, offset: 64928},
+							pos: position{line: 2025, col: 5, offset: 65029},
 							expr: &notExpr{
-								pos: position{line: 2023, col: 7, offset: 64930},
+								pos: position{line: 2025, col: 7, offset: 65031},
 								expr: &charClassMatcher{
-									pos:        position{line: 2800, col: 13, offset: 88919},
+									pos:        position{line: 2802, col: 13, offset: 89020},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42210,20 +42210,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2032, col: 1, offset: 65189},
+			pos:  position{line: 2034, col: 1, offset: 65290},
 			expr: &actionExpr{
-				pos: position{line: 2033, col: 5, offset: 65227},
+				pos: position{line: 2035, col: 5, offset: 65328},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2033, col: 5, offset: 65227},
+					pos: position{line: 2035, col: 5, offset: 65328},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2033, col: 5, offset: 65227},
+							pos: position{line: 2035, col: 5, offset: 65328},
 							expr: &actionExpr{
-								pos: position{line: 2910, col: 10, offset: 91824},
+								pos: position{line: 2912, col: 10, offset: 91925},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2910, col: 10, offset: 91824},
+									pos:        position{line: 2912, col: 10, offset: 91925},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42232,18 +42232,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2034, col: 5, offset: 65266},
+							pos:   position{line: 2036, col: 5, offset: 65367},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2034, col: 14, offset: 65275},
+								pos: position{line: 2036, col: 14, offset: 65376},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2034, col: 15, offset: 65276},
+									pos:  position{line: 2036, col: 15, offset: 65377},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2035, col: 5, offset: 65311},
+							pos: position{line: 2037, col: 5, offset: 65412},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -42252,49 +42252,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2041, col: 1, offset: 65452},
+			pos:  position{line: 2043, col: 1, offset: 65553},
 			expr: &actionExpr{
-				pos: position{line: 2042, col: 5, offset: 65489},
+				pos: position{line: 2044, col: 5, offset: 65590},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2042, col: 5, offset: 65489},
+					pos: position{line: 2044, col: 5, offset: 65590},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2927, col: 11, offset: 92158},
+							pos: position{line: 2929, col: 11, offset: 92259},
 							expr: &anyMatcher{
-								line: 2927, col: 13, offset: 92160,
+								line: 2929, col: 13, offset: 92261,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2043, col: 5, offset: 65500},
+							pos: position{line: 2045, col: 5, offset: 65601},
 							expr: &seqExpr{
-								pos: position{line: 2017, col: 5, offset: 64742},
+								pos: position{line: 2019, col: 5, offset: 64843},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2017, col: 5, offset: 64742},
+										pos:        position{line: 2019, col: 5, offset: 64843},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2018, col: 5, offset: 64751},
+										pos: position{line: 2020, col: 5, offset: 64852},
 										expr: &litMatcher{
-											pos:        position{line: 2018, col: 6, offset: 64752},
+											pos:        position{line: 2020, col: 6, offset: 64853},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2019, col: 5, offset: 64817},
+										pos: position{line: 2021, col: 5, offset: 64918},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2023, col: 5, offset: 64928},
+										pos: position{line: 2025, col: 5, offset: 65029},
 										expr: &notExpr{
-											pos: position{line: 2023, col: 7, offset: 64930},
+											pos: position{line: 2025, col: 7, offset: 65031},
 											expr: &charClassMatcher{
-												pos:        position{line: 2800, col: 13, offset: 88919},
+												pos:        position{line: 2802, col: 13, offset: 89020},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42306,10 +42306,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2044, col: 5, offset: 65539},
+							pos:   position{line: 2046, col: 5, offset: 65640},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2044, col: 14, offset: 65548},
+								pos:  position{line: 2046, col: 14, offset: 65649},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42319,35 +42319,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2049, col: 1, offset: 65636},
+			pos:  position{line: 2051, col: 1, offset: 65737},
 			expr: &choiceExpr{
-				pos: position{line: 2051, col: 5, offset: 65701},
+				pos: position{line: 2053, col: 5, offset: 65802},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2051, col: 5, offset: 65701},
+						pos: position{line: 2053, col: 5, offset: 65802},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2051, col: 5, offset: 65701},
+							pos: position{line: 2053, col: 5, offset: 65802},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2051, col: 5, offset: 65701},
+									pos:   position{line: 2053, col: 5, offset: 65802},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59775},
+										pos: position{line: 1855, col: 25, offset: 59876},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1853, col: 25, offset: 59775},
+											pos: position{line: 1855, col: 25, offset: 59876},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1853, col: 25, offset: 59775},
+													pos:        position{line: 1855, col: 25, offset: 59876},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1853, col: 30, offset: 59780},
+													pos: position{line: 1855, col: 30, offset: 59881},
 													expr: &litMatcher{
-														pos:        position{line: 1853, col: 30, offset: 59780},
+														pos:        position{line: 1855, col: 30, offset: 59881},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42358,21 +42358,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2051, col: 40, offset: 65736},
+									pos:        position{line: 2053, col: 40, offset: 65837},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2051, col: 45, offset: 65741},
+									pos:   position{line: 2053, col: 45, offset: 65842},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2051, col: 55, offset: 65751},
+										pos:  position{line: 2053, col: 55, offset: 65852},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2051, col: 86, offset: 65782},
+									pos:        position{line: 2053, col: 86, offset: 65883},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -42381,21 +42381,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2055, col: 7, offset: 65947},
+						pos: position{line: 2057, col: 7, offset: 66048},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2055, col: 7, offset: 65947},
+							pos: position{line: 2057, col: 7, offset: 66048},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2055, col: 7, offset: 65947},
+									pos:   position{line: 2057, col: 7, offset: 66048},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1849, col: 25, offset: 59702},
+										pos: position{line: 1851, col: 25, offset: 59803},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1849, col: 25, offset: 59702},
+											pos: position{line: 1851, col: 25, offset: 59803},
 											expr: &litMatcher{
-												pos:        position{line: 1849, col: 25, offset: 59702},
+												pos:        position{line: 1851, col: 25, offset: 59803},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42404,21 +42404,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2055, col: 42, offset: 65982},
+									pos:        position{line: 2057, col: 42, offset: 66083},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2055, col: 47, offset: 65987},
+									pos:   position{line: 2057, col: 47, offset: 66088},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2055, col: 57, offset: 65997},
+										pos:  position{line: 2057, col: 57, offset: 66098},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2055, col: 88, offset: 66028},
+									pos:        position{line: 2057, col: 88, offset: 66129},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42427,21 +42427,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2060, col: 7, offset: 66269},
+						pos: position{line: 2062, col: 7, offset: 66370},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2060, col: 7, offset: 66269},
+							pos: position{line: 2062, col: 7, offset: 66370},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2060, col: 7, offset: 66269},
+									pos:   position{line: 2062, col: 7, offset: 66370},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1849, col: 25, offset: 59702},
+										pos: position{line: 1851, col: 25, offset: 59803},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1849, col: 25, offset: 59702},
+											pos: position{line: 1851, col: 25, offset: 59803},
 											expr: &litMatcher{
-												pos:        position{line: 1849, col: 25, offset: 59702},
+												pos:        position{line: 1851, col: 25, offset: 59803},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42450,21 +42450,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2060, col: 42, offset: 66304},
+									pos:        position{line: 2062, col: 42, offset: 66405},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2060, col: 46, offset: 66308},
+									pos:   position{line: 2062, col: 46, offset: 66409},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2060, col: 56, offset: 66318},
+										pos:  position{line: 2062, col: 56, offset: 66419},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2060, col: 87, offset: 66349},
+									pos:        position{line: 2062, col: 87, offset: 66450},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42477,29 +42477,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2077, col: 1, offset: 66913},
+			pos:  position{line: 2079, col: 1, offset: 67014},
 			expr: &actionExpr{
-				pos: position{line: 2078, col: 5, offset: 66946},
+				pos: position{line: 2080, col: 5, offset: 67047},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2078, col: 5, offset: 66946},
+					pos: position{line: 2080, col: 5, offset: 67047},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2073, col: 43, offset: 66861},
+							pos:        position{line: 2075, col: 43, offset: 66962},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2079, col: 5, offset: 66990},
+							pos:   position{line: 2081, col: 5, offset: 67091},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2079, col: 15, offset: 67000},
+								pos:  position{line: 2081, col: 15, offset: 67101},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2075, col: 41, offset: 66907},
+							pos:        position{line: 2077, col: 41, offset: 67008},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -42510,24 +42510,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2084, col: 1, offset: 67175},
+			pos:  position{line: 2086, col: 1, offset: 67276},
 			expr: &actionExpr{
-				pos: position{line: 2085, col: 5, offset: 67248},
+				pos: position{line: 2087, col: 5, offset: 67349},
 				run: (*parser).callonDoubleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2085, col: 5, offset: 67248},
+					pos: position{line: 2087, col: 5, offset: 67349},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2085, col: 5, offset: 67248},
+							pos: position{line: 2087, col: 5, offset: 67349},
 							run: (*parser).callonDoubleQuoteMonospaceTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2089, col: 5, offset: 67368},
+							pos:   position{line: 2091, col: 5, offset: 67469},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2089, col: 14, offset: 67377},
+								pos: position{line: 2091, col: 14, offset: 67478},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2089, col: 15, offset: 67378},
+									pos:  position{line: 2091, col: 15, offset: 67479},
 									name: "DoubleQuoteMonospaceTextElement",
 								},
 							},
@@ -42538,33 +42538,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2093, col: 1, offset: 67450},
+			pos:  position{line: 2095, col: 1, offset: 67551},
 			expr: &actionExpr{
-				pos: position{line: 2094, col: 5, offset: 67490},
+				pos: position{line: 2096, col: 5, offset: 67591},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2094, col: 5, offset: 67490},
+					pos: position{line: 2096, col: 5, offset: 67591},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2927, col: 11, offset: 92158},
+							pos: position{line: 2929, col: 11, offset: 92259},
 							expr: &anyMatcher{
-								line: 2927, col: 13, offset: 92160,
+								line: 2929, col: 13, offset: 92261,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2095, col: 5, offset: 67501},
+							pos: position{line: 2097, col: 5, offset: 67602},
 							expr: &litMatcher{
-								pos:        position{line: 2075, col: 41, offset: 66907},
+								pos:        position{line: 2077, col: 41, offset: 67008},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2096, col: 5, offset: 67543},
+							pos:   position{line: 2098, col: 5, offset: 67644},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2096, col: 14, offset: 67552},
+								pos:  position{line: 2098, col: 14, offset: 67653},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42574,33 +42574,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2114, col: 1, offset: 68094},
+			pos:  position{line: 2116, col: 1, offset: 68195},
 			expr: &seqExpr{
-				pos: position{line: 2115, col: 5, offset: 68139},
+				pos: position{line: 2117, col: 5, offset: 68240},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2115, col: 5, offset: 68139},
+						pos: position{line: 2117, col: 5, offset: 68240},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2115, col: 6, offset: 68140},
+							pos:  position{line: 2117, col: 6, offset: 68241},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2116, col: 5, offset: 68159},
+						pos:        position{line: 2118, col: 5, offset: 68260},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2117, col: 5, offset: 68167},
+						pos: position{line: 2119, col: 5, offset: 68268},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2121, col: 5, offset: 68281},
+						pos: position{line: 2123, col: 5, offset: 68382},
 						expr: &notExpr{
-							pos: position{line: 2121, col: 7, offset: 68283},
+							pos: position{line: 2123, col: 7, offset: 68384},
 							expr: &charClassMatcher{
-								pos:        position{line: 2800, col: 13, offset: 88919},
+								pos:        position{line: 2802, col: 13, offset: 89020},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42613,29 +42613,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2124, col: 1, offset: 68300},
+			pos:  position{line: 2126, col: 1, offset: 68401},
 			expr: &actionExpr{
-				pos: position{line: 2125, col: 5, offset: 68333},
+				pos: position{line: 2127, col: 5, offset: 68434},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2125, col: 5, offset: 68333},
+					pos: position{line: 2127, col: 5, offset: 68434},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2107, col: 5, offset: 67896},
+							pos:        position{line: 2109, col: 5, offset: 67997},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2108, col: 5, offset: 67905},
+							pos: position{line: 2110, col: 5, offset: 68006},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2112, col: 5, offset: 68028},
+							pos: position{line: 2114, col: 5, offset: 68129},
 							expr: &notExpr{
-								pos: position{line: 2112, col: 7, offset: 68030},
+								pos: position{line: 2114, col: 7, offset: 68131},
 								expr: &litMatcher{
-									pos:        position{line: 2112, col: 8, offset: 68031},
+									pos:        position{line: 2114, col: 8, offset: 68132},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42643,15 +42643,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2126, col: 5, offset: 68377},
+							pos:   position{line: 2128, col: 5, offset: 68478},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2126, col: 15, offset: 68387},
+								pos:  position{line: 2128, col: 15, offset: 68488},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2127, col: 5, offset: 68426},
+							pos:  position{line: 2129, col: 5, offset: 68527},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -42660,20 +42660,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2131, col: 1, offset: 68563},
+			pos:  position{line: 2133, col: 1, offset: 68664},
 			expr: &actionExpr{
-				pos: position{line: 2132, col: 5, offset: 68604},
+				pos: position{line: 2134, col: 5, offset: 68705},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2132, col: 5, offset: 68604},
+					pos: position{line: 2134, col: 5, offset: 68705},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2132, col: 5, offset: 68604},
+							pos: position{line: 2134, col: 5, offset: 68705},
 							expr: &actionExpr{
-								pos: position{line: 2910, col: 10, offset: 91824},
+								pos: position{line: 2912, col: 10, offset: 91925},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2910, col: 10, offset: 91824},
+									pos:        position{line: 2912, col: 10, offset: 91925},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42682,18 +42682,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2133, col: 5, offset: 68643},
+							pos:   position{line: 2135, col: 5, offset: 68744},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2133, col: 14, offset: 68652},
+								pos: position{line: 2135, col: 14, offset: 68753},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2133, col: 15, offset: 68653},
+									pos:  position{line: 2135, col: 15, offset: 68754},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2134, col: 5, offset: 68691},
+							pos: position{line: 2136, col: 5, offset: 68792},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -42702,31 +42702,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2140, col: 1, offset: 68832},
+			pos:  position{line: 2142, col: 1, offset: 68933},
 			expr: &actionExpr{
-				pos: position{line: 2141, col: 5, offset: 68872},
+				pos: position{line: 2143, col: 5, offset: 68973},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2141, col: 5, offset: 68872},
+					pos: position{line: 2143, col: 5, offset: 68973},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2927, col: 11, offset: 92158},
+							pos: position{line: 2929, col: 11, offset: 92259},
 							expr: &anyMatcher{
-								line: 2927, col: 13, offset: 92160,
+								line: 2929, col: 13, offset: 92261,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2142, col: 5, offset: 68883},
+							pos: position{line: 2144, col: 5, offset: 68984},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2142, col: 6, offset: 68884},
+								pos:  position{line: 2144, col: 6, offset: 68985},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2143, col: 5, offset: 68925},
+							pos:   position{line: 2145, col: 5, offset: 69026},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2143, col: 14, offset: 68934},
+								pos:  position{line: 2145, col: 14, offset: 69035},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42736,35 +42736,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2148, col: 1, offset: 69022},
+			pos:  position{line: 2150, col: 1, offset: 69123},
 			expr: &choiceExpr{
-				pos: position{line: 2150, col: 5, offset: 69093},
+				pos: position{line: 2152, col: 5, offset: 69194},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2150, col: 5, offset: 69093},
+						pos: position{line: 2152, col: 5, offset: 69194},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2150, col: 5, offset: 69093},
+							pos: position{line: 2152, col: 5, offset: 69194},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2150, col: 5, offset: 69093},
+									pos:   position{line: 2152, col: 5, offset: 69194},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59775},
+										pos: position{line: 1855, col: 25, offset: 59876},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1853, col: 25, offset: 59775},
+											pos: position{line: 1855, col: 25, offset: 59876},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1853, col: 25, offset: 59775},
+													pos:        position{line: 1855, col: 25, offset: 59876},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1853, col: 30, offset: 59780},
+													pos: position{line: 1855, col: 30, offset: 59881},
 													expr: &litMatcher{
-														pos:        position{line: 1853, col: 30, offset: 59780},
+														pos:        position{line: 1855, col: 30, offset: 59881},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42775,21 +42775,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2150, col: 40, offset: 69128},
+									pos:        position{line: 2152, col: 40, offset: 69229},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2150, col: 45, offset: 69133},
+									pos:   position{line: 2152, col: 45, offset: 69234},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2150, col: 55, offset: 69143},
+										pos:  position{line: 2152, col: 55, offset: 69244},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2150, col: 89, offset: 69177},
+									pos:        position{line: 2152, col: 89, offset: 69278},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -42798,21 +42798,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2154, col: 7, offset: 69346},
+						pos: position{line: 2156, col: 7, offset: 69447},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2154, col: 7, offset: 69346},
+							pos: position{line: 2156, col: 7, offset: 69447},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2154, col: 7, offset: 69346},
+									pos:   position{line: 2156, col: 7, offset: 69447},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1849, col: 25, offset: 59702},
+										pos: position{line: 1851, col: 25, offset: 59803},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1849, col: 25, offset: 59702},
+											pos: position{line: 1851, col: 25, offset: 59803},
 											expr: &litMatcher{
-												pos:        position{line: 1849, col: 25, offset: 59702},
+												pos:        position{line: 1851, col: 25, offset: 59803},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42821,21 +42821,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2154, col: 42, offset: 69381},
+									pos:        position{line: 2156, col: 42, offset: 69482},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2154, col: 47, offset: 69386},
+									pos:   position{line: 2156, col: 47, offset: 69487},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2154, col: 57, offset: 69396},
+										pos:  position{line: 2156, col: 57, offset: 69497},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2154, col: 91, offset: 69430},
+									pos:        position{line: 2156, col: 91, offset: 69531},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42844,21 +42844,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2159, col: 7, offset: 69636},
+						pos: position{line: 2161, col: 7, offset: 69737},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2159, col: 7, offset: 69636},
+							pos: position{line: 2161, col: 7, offset: 69737},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2159, col: 7, offset: 69636},
+									pos:   position{line: 2161, col: 7, offset: 69737},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1849, col: 25, offset: 59702},
+										pos: position{line: 1851, col: 25, offset: 59803},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1849, col: 25, offset: 59702},
+											pos: position{line: 1851, col: 25, offset: 59803},
 											expr: &litMatcher{
-												pos:        position{line: 1849, col: 25, offset: 59702},
+												pos:        position{line: 1851, col: 25, offset: 59803},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42867,21 +42867,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2159, col: 42, offset: 69671},
+									pos:        position{line: 2161, col: 42, offset: 69772},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2159, col: 46, offset: 69675},
+									pos:   position{line: 2161, col: 46, offset: 69776},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2159, col: 56, offset: 69685},
+										pos:  position{line: 2161, col: 56, offset: 69786},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2159, col: 90, offset: 69719},
+									pos:        position{line: 2161, col: 90, offset: 69820},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42894,29 +42894,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2176, col: 1, offset: 70204},
+			pos:  position{line: 2178, col: 1, offset: 70305},
 			expr: &actionExpr{
-				pos: position{line: 2177, col: 5, offset: 70234},
+				pos: position{line: 2179, col: 5, offset: 70335},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2177, col: 5, offset: 70234},
+					pos: position{line: 2179, col: 5, offset: 70335},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2172, col: 40, offset: 70155},
+							pos:        position{line: 2174, col: 40, offset: 70256},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2178, col: 5, offset: 70275},
+							pos:   position{line: 2180, col: 5, offset: 70376},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2178, col: 15, offset: 70285},
+								pos:  position{line: 2180, col: 15, offset: 70386},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2174, col: 38, offset: 70198},
+							pos:        position{line: 2176, col: 38, offset: 70299},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -42927,24 +42927,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2183, col: 1, offset: 70451},
+			pos:  position{line: 2185, col: 1, offset: 70552},
 			expr: &actionExpr{
-				pos: position{line: 2184, col: 5, offset: 70488},
+				pos: position{line: 2186, col: 5, offset: 70589},
 				run: (*parser).callonDoubleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2184, col: 5, offset: 70488},
+					pos: position{line: 2186, col: 5, offset: 70589},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2184, col: 5, offset: 70488},
+							pos: position{line: 2186, col: 5, offset: 70589},
 							run: (*parser).callonDoubleQuoteMarkedTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2188, col: 5, offset: 70608},
+							pos:   position{line: 2190, col: 5, offset: 70709},
 							label: "elements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2188, col: 14, offset: 70617},
+								pos: position{line: 2190, col: 14, offset: 70718},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2188, col: 15, offset: 70618},
+									pos:  position{line: 2190, col: 15, offset: 70719},
 									name: "DoubleQuoteMarkedTextElement",
 								},
 							},
@@ -42955,33 +42955,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2192, col: 1, offset: 70687},
+			pos:  position{line: 2194, col: 1, offset: 70788},
 			expr: &actionExpr{
-				pos: position{line: 2193, col: 5, offset: 70756},
+				pos: position{line: 2195, col: 5, offset: 70857},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2193, col: 5, offset: 70756},
+					pos: position{line: 2195, col: 5, offset: 70857},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2927, col: 11, offset: 92158},
+							pos: position{line: 2929, col: 11, offset: 92259},
 							expr: &anyMatcher{
-								line: 2927, col: 13, offset: 92160,
+								line: 2929, col: 13, offset: 92261,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2194, col: 5, offset: 70767},
+							pos: position{line: 2196, col: 5, offset: 70868},
 							expr: &litMatcher{
-								pos:        position{line: 2174, col: 38, offset: 70198},
+								pos:        position{line: 2176, col: 38, offset: 70299},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2195, col: 5, offset: 70806},
+							pos:   position{line: 2197, col: 5, offset: 70907},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2195, col: 14, offset: 70815},
+								pos:  position{line: 2197, col: 14, offset: 70916},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42991,29 +42991,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2220, col: 1, offset: 71497},
+			pos:  position{line: 2222, col: 1, offset: 71598},
 			expr: &actionExpr{
-				pos: position{line: 2221, col: 5, offset: 71527},
+				pos: position{line: 2223, col: 5, offset: 71628},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2221, col: 5, offset: 71527},
+					pos: position{line: 2223, col: 5, offset: 71628},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2204, col: 5, offset: 71063},
+							pos:        position{line: 2206, col: 5, offset: 71164},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2205, col: 5, offset: 71072},
+							pos: position{line: 2207, col: 5, offset: 71173},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2209, col: 5, offset: 71192},
+							pos: position{line: 2211, col: 5, offset: 71293},
 							expr: &notExpr{
-								pos: position{line: 2209, col: 7, offset: 71194},
+								pos: position{line: 2211, col: 7, offset: 71295},
 								expr: &litMatcher{
-									pos:        position{line: 2209, col: 8, offset: 71195},
+									pos:        position{line: 2211, col: 8, offset: 71296},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43021,38 +43021,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2222, col: 5, offset: 71567},
+							pos:   position{line: 2224, col: 5, offset: 71668},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2222, col: 15, offset: 71577},
+								pos:  position{line: 2224, col: 15, offset: 71678},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2212, col: 5, offset: 71300},
+							pos:        position{line: 2214, col: 5, offset: 71401},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2213, col: 5, offset: 71308},
+							pos: position{line: 2215, col: 5, offset: 71409},
 							expr: &litMatcher{
-								pos:        position{line: 2213, col: 6, offset: 71309},
+								pos:        position{line: 2215, col: 6, offset: 71410},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2214, col: 5, offset: 71372},
+							pos: position{line: 2216, col: 5, offset: 71473},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2218, col: 5, offset: 71483},
+							pos: position{line: 2220, col: 5, offset: 71584},
 							expr: &notExpr{
-								pos: position{line: 2218, col: 7, offset: 71485},
+								pos: position{line: 2220, col: 7, offset: 71586},
 								expr: &charClassMatcher{
-									pos:        position{line: 2800, col: 13, offset: 88919},
+									pos:        position{line: 2802, col: 13, offset: 89020},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43066,20 +43066,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2227, col: 1, offset: 71744},
+			pos:  position{line: 2229, col: 1, offset: 71845},
 			expr: &actionExpr{
-				pos: position{line: 2228, col: 5, offset: 71782},
+				pos: position{line: 2230, col: 5, offset: 71883},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2228, col: 5, offset: 71782},
+					pos: position{line: 2230, col: 5, offset: 71883},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2228, col: 5, offset: 71782},
+							pos: position{line: 2230, col: 5, offset: 71883},
 							expr: &actionExpr{
-								pos: position{line: 2910, col: 10, offset: 91824},
+								pos: position{line: 2912, col: 10, offset: 91925},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2910, col: 10, offset: 91824},
+									pos:        position{line: 2912, col: 10, offset: 91925},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43088,18 +43088,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2229, col: 5, offset: 71821},
+							pos:   position{line: 2231, col: 5, offset: 71922},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2229, col: 14, offset: 71830},
+								pos: position{line: 2231, col: 14, offset: 71931},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2229, col: 15, offset: 71831},
+									pos:  position{line: 2231, col: 15, offset: 71932},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2230, col: 5, offset: 71867},
+							pos: position{line: 2232, col: 5, offset: 71968},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -43108,49 +43108,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2236, col: 1, offset: 72008},
+			pos:  position{line: 2238, col: 1, offset: 72109},
 			expr: &actionExpr{
-				pos: position{line: 2237, col: 5, offset: 72045},
+				pos: position{line: 2239, col: 5, offset: 72146},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2237, col: 5, offset: 72045},
+					pos: position{line: 2239, col: 5, offset: 72146},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2927, col: 11, offset: 92158},
+							pos: position{line: 2929, col: 11, offset: 92259},
 							expr: &anyMatcher{
-								line: 2927, col: 13, offset: 92160,
+								line: 2929, col: 13, offset: 92261,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2238, col: 5, offset: 72056},
+							pos: position{line: 2240, col: 5, offset: 72157},
 							expr: &seqExpr{
-								pos: position{line: 2212, col: 5, offset: 71300},
+								pos: position{line: 2214, col: 5, offset: 71401},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2212, col: 5, offset: 71300},
+										pos:        position{line: 2214, col: 5, offset: 71401},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2213, col: 5, offset: 71308},
+										pos: position{line: 2215, col: 5, offset: 71409},
 										expr: &litMatcher{
-											pos:        position{line: 2213, col: 6, offset: 71309},
+											pos:        position{line: 2215, col: 6, offset: 71410},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2214, col: 5, offset: 71372},
+										pos: position{line: 2216, col: 5, offset: 71473},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2218, col: 5, offset: 71483},
+										pos: position{line: 2220, col: 5, offset: 71584},
 										expr: &notExpr{
-											pos: position{line: 2218, col: 7, offset: 71485},
+											pos: position{line: 2220, col: 7, offset: 71586},
 											expr: &charClassMatcher{
-												pos:        position{line: 2800, col: 13, offset: 88919},
+												pos:        position{line: 2802, col: 13, offset: 89020},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43162,10 +43162,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2239, col: 5, offset: 72095},
+							pos:   position{line: 2241, col: 5, offset: 72196},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2239, col: 14, offset: 72104},
+								pos:  position{line: 2241, col: 14, offset: 72205},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43175,35 +43175,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2244, col: 1, offset: 72192},
+			pos:  position{line: 2246, col: 1, offset: 72293},
 			expr: &choiceExpr{
-				pos: position{line: 2246, col: 5, offset: 72256},
+				pos: position{line: 2248, col: 5, offset: 72357},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2246, col: 5, offset: 72256},
+						pos: position{line: 2248, col: 5, offset: 72357},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2246, col: 5, offset: 72256},
+							pos: position{line: 2248, col: 5, offset: 72357},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2246, col: 5, offset: 72256},
+									pos:   position{line: 2248, col: 5, offset: 72357},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59775},
+										pos: position{line: 1855, col: 25, offset: 59876},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1853, col: 25, offset: 59775},
+											pos: position{line: 1855, col: 25, offset: 59876},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1853, col: 25, offset: 59775},
+													pos:        position{line: 1855, col: 25, offset: 59876},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1853, col: 30, offset: 59780},
+													pos: position{line: 1855, col: 30, offset: 59881},
 													expr: &litMatcher{
-														pos:        position{line: 1853, col: 30, offset: 59780},
+														pos:        position{line: 1855, col: 30, offset: 59881},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43214,21 +43214,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2246, col: 40, offset: 72291},
+									pos:        position{line: 2248, col: 40, offset: 72392},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2246, col: 45, offset: 72296},
+									pos:   position{line: 2248, col: 45, offset: 72397},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2246, col: 55, offset: 72306},
+										pos:  position{line: 2248, col: 55, offset: 72407},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2246, col: 86, offset: 72337},
+									pos:        position{line: 2248, col: 86, offset: 72438},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -43237,21 +43237,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2250, col: 7, offset: 72502},
+						pos: position{line: 2252, col: 7, offset: 72603},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2250, col: 7, offset: 72502},
+							pos: position{line: 2252, col: 7, offset: 72603},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2250, col: 7, offset: 72502},
+									pos:   position{line: 2252, col: 7, offset: 72603},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1849, col: 25, offset: 59702},
+										pos: position{line: 1851, col: 25, offset: 59803},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1849, col: 25, offset: 59702},
+											pos: position{line: 1851, col: 25, offset: 59803},
 											expr: &litMatcher{
-												pos:        position{line: 1849, col: 25, offset: 59702},
+												pos:        position{line: 1851, col: 25, offset: 59803},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43260,21 +43260,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2250, col: 42, offset: 72537},
+									pos:        position{line: 2252, col: 42, offset: 72638},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2250, col: 47, offset: 72542},
+									pos:   position{line: 2252, col: 47, offset: 72643},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2250, col: 57, offset: 72552},
+										pos:  position{line: 2252, col: 57, offset: 72653},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2250, col: 88, offset: 72583},
+									pos:        position{line: 2252, col: 88, offset: 72684},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43283,21 +43283,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2255, col: 7, offset: 72786},
+						pos: position{line: 2257, col: 7, offset: 72887},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2255, col: 7, offset: 72786},
+							pos: position{line: 2257, col: 7, offset: 72887},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2255, col: 7, offset: 72786},
+									pos:   position{line: 2257, col: 7, offset: 72887},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1849, col: 25, offset: 59702},
+										pos: position{line: 1851, col: 25, offset: 59803},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1849, col: 25, offset: 59702},
+											pos: position{line: 1851, col: 25, offset: 59803},
 											expr: &litMatcher{
-												pos:        position{line: 1849, col: 25, offset: 59702},
+												pos:        position{line: 1851, col: 25, offset: 59803},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43306,21 +43306,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2255, col: 42, offset: 72821},
+									pos:        position{line: 2257, col: 42, offset: 72922},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2255, col: 46, offset: 72825},
+									pos:   position{line: 2257, col: 46, offset: 72926},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2255, col: 56, offset: 72835},
+										pos:  position{line: 2257, col: 56, offset: 72936},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2255, col: 87, offset: 72866},
+									pos:        position{line: 2257, col: 87, offset: 72967},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43333,29 +43333,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2262, col: 1, offset: 73133},
+			pos:  position{line: 2264, col: 1, offset: 73234},
 			expr: &actionExpr{
-				pos: position{line: 2263, col: 5, offset: 73155},
+				pos: position{line: 2265, col: 5, offset: 73256},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2263, col: 5, offset: 73155},
+					pos: position{line: 2265, col: 5, offset: 73256},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2269, col: 27, offset: 73370},
+							pos:        position{line: 2271, col: 27, offset: 73471},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2264, col: 5, offset: 73182},
+							pos:   position{line: 2266, col: 5, offset: 73283},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2264, col: 14, offset: 73191},
+								pos:  position{line: 2266, col: 14, offset: 73292},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2269, col: 27, offset: 73370},
+							pos:        position{line: 2271, col: 27, offset: 73471},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43366,34 +43366,34 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2271, col: 1, offset: 73375},
+			pos:  position{line: 2273, col: 1, offset: 73476},
 			expr: &actionExpr{
-				pos: position{line: 2272, col: 5, offset: 73403},
+				pos: position{line: 2274, col: 5, offset: 73504},
 				run: (*parser).callonSubscriptTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2272, col: 5, offset: 73403},
+					pos: position{line: 2274, col: 5, offset: 73504},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2272, col: 5, offset: 73403},
+							pos: position{line: 2274, col: 5, offset: 73504},
 							run: (*parser).callonSubscriptTextElement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2276, col: 5, offset: 73523},
+							pos:   position{line: 2278, col: 5, offset: 73624},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2276, col: 14, offset: 73532},
+								pos: position{line: 2278, col: 14, offset: 73633},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2276, col: 14, offset: 73532},
+										pos:  position{line: 2278, col: 14, offset: 73633},
 										name: "QuotedText",
 									},
 									&actionExpr{
-										pos: position{line: 2280, col: 21, offset: 73620},
+										pos: position{line: 2282, col: 21, offset: 73721},
 										run: (*parser).callonSubscriptTextElement7,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2280, col: 21, offset: 73620},
+											pos: position{line: 2282, col: 21, offset: 73721},
 											expr: &charClassMatcher{
-												pos:        position{line: 2280, col: 21, offset: 73620},
+												pos:        position{line: 2282, col: 21, offset: 73721},
 												val:        "[^\\r\\n ~]",
 												chars:      []rune{'\r', '\n', ' ', '~'},
 												ignoreCase: false,
@@ -43410,23 +43410,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2284, col: 1, offset: 73705},
+			pos:  position{line: 2286, col: 1, offset: 73806},
 			expr: &actionExpr{
-				pos: position{line: 2286, col: 5, offset: 73772},
+				pos: position{line: 2288, col: 5, offset: 73873},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2286, col: 5, offset: 73772},
+					pos: position{line: 2288, col: 5, offset: 73873},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2286, col: 5, offset: 73772},
+							pos:   position{line: 2288, col: 5, offset: 73873},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1849, col: 25, offset: 59702},
+								pos: position{line: 1851, col: 25, offset: 59803},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1849, col: 25, offset: 59702},
+									pos: position{line: 1851, col: 25, offset: 59803},
 									expr: &litMatcher{
-										pos:        position{line: 1849, col: 25, offset: 59702},
+										pos:        position{line: 1851, col: 25, offset: 59803},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43435,21 +43435,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2269, col: 27, offset: 73370},
+							pos:        position{line: 2271, col: 27, offset: 73471},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2288, col: 5, offset: 73840},
+							pos:   position{line: 2290, col: 5, offset: 73941},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2288, col: 14, offset: 73849},
+								pos:  position{line: 2290, col: 14, offset: 73950},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2269, col: 27, offset: 73370},
+							pos:        position{line: 2271, col: 27, offset: 73471},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43460,29 +43460,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2296, col: 1, offset: 74112},
+			pos:  position{line: 2298, col: 1, offset: 74213},
 			expr: &actionExpr{
-				pos: position{line: 2297, col: 5, offset: 74136},
+				pos: position{line: 2299, col: 5, offset: 74237},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2297, col: 5, offset: 74136},
+					pos: position{line: 2299, col: 5, offset: 74237},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2303, col: 29, offset: 74363},
+							pos:        position{line: 2305, col: 29, offset: 74464},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2298, col: 5, offset: 74166},
+							pos:   position{line: 2300, col: 5, offset: 74267},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2298, col: 14, offset: 74175},
+								pos:  position{line: 2300, col: 14, offset: 74276},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2303, col: 29, offset: 74363},
+							pos:        position{line: 2305, col: 29, offset: 74464},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43493,34 +43493,34 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2305, col: 1, offset: 74368},
+			pos:  position{line: 2307, col: 1, offset: 74469},
 			expr: &actionExpr{
-				pos: position{line: 2306, col: 5, offset: 74398},
+				pos: position{line: 2308, col: 5, offset: 74499},
 				run: (*parser).callonSuperscriptTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2306, col: 5, offset: 74398},
+					pos: position{line: 2308, col: 5, offset: 74499},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2306, col: 5, offset: 74398},
+							pos: position{line: 2308, col: 5, offset: 74499},
 							run: (*parser).callonSuperscriptTextElement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2310, col: 5, offset: 74518},
+							pos:   position{line: 2312, col: 5, offset: 74619},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2310, col: 14, offset: 74527},
+								pos: position{line: 2312, col: 14, offset: 74628},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2310, col: 14, offset: 74527},
+										pos:  position{line: 2312, col: 14, offset: 74628},
 										name: "QuotedText",
 									},
 									&actionExpr{
-										pos: position{line: 2314, col: 23, offset: 74619},
+										pos: position{line: 2316, col: 23, offset: 74720},
 										run: (*parser).callonSuperscriptTextElement7,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2314, col: 23, offset: 74619},
+											pos: position{line: 2316, col: 23, offset: 74720},
 											expr: &charClassMatcher{
-												pos:        position{line: 2314, col: 23, offset: 74619},
+												pos:        position{line: 2316, col: 23, offset: 74720},
 												val:        "[^\\r\\n ^]",
 												chars:      []rune{'\r', '\n', ' ', '^'},
 												ignoreCase: false,
@@ -43537,23 +43537,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2318, col: 1, offset: 74704},
+			pos:  position{line: 2320, col: 1, offset: 74805},
 			expr: &actionExpr{
-				pos: position{line: 2320, col: 5, offset: 74776},
+				pos: position{line: 2322, col: 5, offset: 74877},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2320, col: 5, offset: 74776},
+					pos: position{line: 2322, col: 5, offset: 74877},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2320, col: 5, offset: 74776},
+							pos:   position{line: 2322, col: 5, offset: 74877},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1849, col: 25, offset: 59702},
+								pos: position{line: 1851, col: 25, offset: 59803},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1849, col: 25, offset: 59702},
+									pos: position{line: 1851, col: 25, offset: 59803},
 									expr: &litMatcher{
-										pos:        position{line: 1849, col: 25, offset: 59702},
+										pos:        position{line: 1851, col: 25, offset: 59803},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43562,21 +43562,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2303, col: 29, offset: 74363},
+							pos:        position{line: 2305, col: 29, offset: 74464},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2322, col: 5, offset: 74846},
+							pos:   position{line: 2324, col: 5, offset: 74947},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2322, col: 14, offset: 74855},
+								pos:  position{line: 2324, col: 14, offset: 74956},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2303, col: 29, offset: 74363},
+							pos:        position{line: 2305, col: 29, offset: 74464},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43587,27 +43587,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2331, col: 1, offset: 75324},
+			pos:  position{line: 2333, col: 1, offset: 75425},
 			expr: &actionExpr{
-				pos: position{line: 2332, col: 5, offset: 75340},
+				pos: position{line: 2334, col: 5, offset: 75441},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2332, col: 5, offset: 75340},
+					pos: position{line: 2334, col: 5, offset: 75441},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2332, col: 5, offset: 75340},
+							pos: position{line: 2334, col: 5, offset: 75441},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2335, col: 5, offset: 75403},
+							pos:   position{line: 2337, col: 5, offset: 75504},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2335, col: 12, offset: 75410},
+								pos: position{line: 2337, col: 12, offset: 75511},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2335, col: 12, offset: 75410},
+									pos: position{line: 2337, col: 12, offset: 75511},
 									expr: &litMatcher{
-										pos:        position{line: 2335, col: 13, offset: 75411},
+										pos:        position{line: 2337, col: 13, offset: 75512},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -43616,16 +43616,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2339, col: 5, offset: 75519},
+							pos: position{line: 2341, col: 5, offset: 75620},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2914, col: 11, offset: 91885},
+							pos: position{line: 2916, col: 11, offset: 91986},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2914, col: 11, offset: 91885},
+								pos: position{line: 2916, col: 11, offset: 91986},
 								expr: &charClassMatcher{
-									pos:        position{line: 2914, col: 11, offset: 91885},
+									pos:        position{line: 2916, col: 11, offset: 91986},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43634,36 +43634,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2343, col: 12, offset: 75678},
+							pos:   position{line: 2345, col: 12, offset: 75779},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2343, col: 19, offset: 75685},
+								pos:  position{line: 2345, col: 19, offset: 75786},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2932, col: 8, offset: 92222},
+							pos: position{line: 2934, col: 8, offset: 92323},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2919, col: 12, offset: 91995},
+									pos: position{line: 2921, col: 12, offset: 92096},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2919, col: 13, offset: 91996},
+										pos: position{line: 2921, col: 13, offset: 92097},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2919, col: 13, offset: 91996},
+												pos:        position{line: 2921, col: 13, offset: 92097},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2919, col: 20, offset: 92003},
+												pos:        position{line: 2921, col: 20, offset: 92104},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2919, col: 29, offset: 92012},
+												pos:        position{line: 2921, col: 29, offset: 92113},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43672,9 +43672,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2929, col: 8, offset: 92172},
+									pos: position{line: 2931, col: 8, offset: 92273},
 									expr: &anyMatcher{
-										line: 2929, col: 9, offset: 92173,
+										line: 2931, col: 9, offset: 92274,
 									},
 								},
 							},
@@ -43685,24 +43685,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2347, col: 1, offset: 75781},
+			pos:  position{line: 2349, col: 1, offset: 75882},
 			expr: &actionExpr{
-				pos: position{line: 2348, col: 5, offset: 75802},
+				pos: position{line: 2350, col: 5, offset: 75903},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2348, col: 5, offset: 75802},
+					pos: position{line: 2350, col: 5, offset: 75903},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2348, col: 5, offset: 75802},
+							pos: position{line: 2350, col: 5, offset: 75903},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2354, col: 5, offset: 75993},
+							pos:   position{line: 2356, col: 5, offset: 76094},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2354, col: 14, offset: 76002},
+								pos: position{line: 2356, col: 14, offset: 76103},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2354, col: 15, offset: 76003},
+									pos:  position{line: 2356, col: 15, offset: 76104},
 									name: "SectionTitleElement",
 								},
 							},
@@ -43713,38 +43713,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2358, col: 1, offset: 76084},
+			pos:  position{line: 2360, col: 1, offset: 76185},
 			expr: &actionExpr{
-				pos: position{line: 2359, col: 5, offset: 76111},
+				pos: position{line: 2361, col: 5, offset: 76212},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2359, col: 5, offset: 76111},
+					pos: position{line: 2361, col: 5, offset: 76212},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2359, col: 5, offset: 76111},
+							pos: position{line: 2361, col: 5, offset: 76212},
 							expr: &choiceExpr{
-								pos: position{line: 2932, col: 8, offset: 92222},
+								pos: position{line: 2934, col: 8, offset: 92323},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2919, col: 12, offset: 91995},
+										pos: position{line: 2921, col: 12, offset: 92096},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2919, col: 13, offset: 91996},
+											pos: position{line: 2921, col: 13, offset: 92097},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2919, col: 13, offset: 91996},
+													pos:        position{line: 2921, col: 13, offset: 92097},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2919, col: 20, offset: 92003},
+													pos:        position{line: 2921, col: 20, offset: 92104},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2919, col: 29, offset: 92012},
+													pos:        position{line: 2921, col: 29, offset: 92113},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43753,36 +43753,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2929, col: 8, offset: 92172},
+										pos: position{line: 2931, col: 8, offset: 92273},
 										expr: &anyMatcher{
-											line: 2929, col: 9, offset: 92173,
+											line: 2931, col: 9, offset: 92274,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2360, col: 5, offset: 76120},
+							pos:   position{line: 2362, col: 5, offset: 76221},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2361, col: 9, offset: 76138},
+								pos: position{line: 2363, col: 9, offset: 76239},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2809, col: 5, offset: 89066},
+										pos: position{line: 2811, col: 5, offset: 89167},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2809, col: 5, offset: 89066},
+											pos: position{line: 2811, col: 5, offset: 89167},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2809, col: 5, offset: 89066},
+													pos:   position{line: 2811, col: 5, offset: 89167},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2809, col: 11, offset: 89072},
+														pos: position{line: 2811, col: 11, offset: 89173},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2809, col: 11, offset: 89072},
+															pos: position{line: 2811, col: 11, offset: 89173},
 															expr: &charClassMatcher{
-																pos:        position{line: 2809, col: 11, offset: 89072},
+																pos:        position{line: 2811, col: 11, offset: 89173},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43792,36 +43792,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2812, col: 5, offset: 89130},
+													pos: position{line: 2814, col: 5, offset: 89231},
 													expr: &seqExpr{
-														pos: position{line: 2813, col: 9, offset: 89141},
+														pos: position{line: 2815, col: 9, offset: 89242},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2813, col: 9, offset: 89141},
+																pos:        position{line: 2815, col: 9, offset: 89242},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2814, col: 9, offset: 89190},
+																pos: position{line: 2816, col: 9, offset: 89291},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2818, col: 5, offset: 89270},
+													pos: position{line: 2820, col: 5, offset: 89371},
 													expr: &seqExpr{
-														pos: position{line: 2819, col: 9, offset: 89281},
+														pos: position{line: 2821, col: 9, offset: 89382},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2819, col: 9, offset: 89281},
+																pos:        position{line: 2821, col: 9, offset: 89382},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2819, col: 13, offset: 89285},
+																pos:        position{line: 2821, col: 13, offset: 89386},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43834,12 +43834,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2914, col: 11, offset: 91885},
+										pos: position{line: 2916, col: 11, offset: 91986},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2914, col: 11, offset: 91885},
+											pos: position{line: 2916, col: 11, offset: 91986},
 											expr: &charClassMatcher{
-												pos:        position{line: 2914, col: 11, offset: 91885},
+												pos:        position{line: 2916, col: 11, offset: 91986},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43848,21 +43848,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2531, col: 5, offset: 81347},
+										pos: position{line: 2533, col: 5, offset: 81448},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2531, col: 5, offset: 81347},
+											pos: position{line: 2533, col: 5, offset: 81448},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2531, col: 5, offset: 81347},
+													pos:        position{line: 2533, col: 5, offset: 81448},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2531, col: 10, offset: 81352},
+													pos: position{line: 2533, col: 10, offset: 81453},
 													expr: &charClassMatcher{
-														pos:        position{line: 2531, col: 11, offset: 81353},
+														pos:        position{line: 2533, col: 11, offset: 81454},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43873,29 +43873,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2537, col: 5, offset: 81545},
+										pos: position{line: 2539, col: 5, offset: 81646},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2537, col: 5, offset: 81545},
+											pos: position{line: 2539, col: 5, offset: 81646},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2537, col: 5, offset: 81545},
+													pos: position{line: 2539, col: 5, offset: 81646},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2540, col: 5, offset: 81616},
+													pos: position{line: 2542, col: 5, offset: 81717},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2544, col: 5, offset: 81741},
+													pos:        position{line: 2546, col: 5, offset: 81842},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2544, col: 9, offset: 81745},
+													pos: position{line: 2546, col: 9, offset: 81846},
 													expr: &charClassMatcher{
-														pos:        position{line: 2544, col: 10, offset: 81746},
+														pos:        position{line: 2546, col: 10, offset: 81847},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43906,31 +43906,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2364, col: 11, offset: 76203},
+										pos:  position{line: 2366, col: 11, offset: 76304},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2827, col: 5, offset: 89478},
+										pos: position{line: 2829, col: 5, offset: 89579},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2828, col: 9, offset: 89488},
+											pos: position{line: 2830, col: 9, offset: 89589},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2828, col: 10, offset: 89489},
+													pos:        position{line: 2830, col: 10, offset: 89590},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2830, col: 13, offset: 89586},
+													pos: position{line: 2832, col: 13, offset: 89687},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2830, col: 13, offset: 89586},
+															pos: position{line: 2832, col: 13, offset: 89687},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2833, col: 13, offset: 89686},
+															pos:        position{line: 2835, col: 13, offset: 89787},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43938,20 +43938,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2833, col: 19, offset: 89692},
+													pos:        position{line: 2835, col: 19, offset: 89793},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2836, col: 13, offset: 89730},
+													pos: position{line: 2838, col: 13, offset: 89831},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2836, col: 13, offset: 89730},
+															pos: position{line: 2838, col: 13, offset: 89831},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2839, col: 14, offset: 89823},
+															pos:        position{line: 2841, col: 14, offset: 89924},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -43960,18 +43960,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2841, col: 12, offset: 89867},
+													pos: position{line: 2843, col: 12, offset: 89968},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2841, col: 12, offset: 89867},
+															pos:        position{line: 2843, col: 12, offset: 89968},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2841, col: 16, offset: 89871},
+															pos: position{line: 2843, col: 16, offset: 89972},
 															expr: &litMatcher{
-																pos:        position{line: 2841, col: 17, offset: 89872},
+																pos:        position{line: 2843, col: 17, offset: 89973},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -43983,35 +43983,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2366, col: 11, offset: 76276},
+										pos:  position{line: 2368, col: 11, offset: 76377},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2367, col: 11, offset: 76292},
+										pos:  position{line: 2369, col: 11, offset: 76393},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2368, col: 11, offset: 76320},
+										pos:  position{line: 2370, col: 11, offset: 76421},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2500, col: 5, offset: 80148},
+										pos: position{line: 2502, col: 5, offset: 80249},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2500, col: 5, offset: 80148},
+											pos: position{line: 2502, col: 5, offset: 80249},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2500, col: 5, offset: 80148},
+													pos: position{line: 2502, col: 5, offset: 80249},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2503, col: 5, offset: 80224},
+													pos:   position{line: 2505, col: 5, offset: 80325},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2504, col: 9, offset: 80242},
+														pos: position{line: 2506, col: 9, offset: 80343},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2504, col: 10, offset: 80243},
+															pos:        position{line: 2506, col: 10, offset: 80344},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -44023,48 +44023,48 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2370, col: 11, offset: 76405},
+										pos:  position{line: 2372, col: 11, offset: 76506},
 										name: "InlineIcon",
 									},
 									&actionExpr{
-										pos: position{line: 637, col: 5, offset: 20204},
+										pos: position{line: 639, col: 5, offset: 20305},
 										run: (*parser).callonSectionTitleElement68,
 										expr: &seqExpr{
-											pos: position{line: 637, col: 5, offset: 20204},
+											pos: position{line: 639, col: 5, offset: 20305},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 637, col: 5, offset: 20204},
+													pos: position{line: 639, col: 5, offset: 20305},
 													run: (*parser).callonSectionTitleElement70,
 												},
 												&labeledExpr{
-													pos:   position{line: 640, col: 5, offset: 20276},
+													pos:   position{line: 642, col: 5, offset: 20377},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 640, col: 14, offset: 20285},
+														pos: position{line: 642, col: 14, offset: 20386},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 646, col: 5, offset: 20414},
+																pos: position{line: 648, col: 5, offset: 20515},
 																run: (*parser).callonSectionTitleElement73,
 																expr: &seqExpr{
-																	pos: position{line: 646, col: 5, offset: 20414},
+																	pos: position{line: 648, col: 5, offset: 20515},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 646, col: 5, offset: 20414},
+																			pos:        position{line: 648, col: 5, offset: 20515},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 646, col: 13, offset: 20422},
+																			pos:   position{line: 648, col: 13, offset: 20523},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 320, col: 18, offset: 9837},
 																				run: (*parser).callonSectionTitleElement77,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 320, col: 18, offset: 9837},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 320, col: 18, offset: 9837},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44072,9 +44072,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 320, col: 28, offset: 9847},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 320, col: 29, offset: 9848},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44087,7 +44087,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 646, col: 32, offset: 20441},
+																			pos:        position{line: 648, col: 32, offset: 20542},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44096,28 +44096,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 653, col: 5, offset: 20682},
+																pos: position{line: 655, col: 5, offset: 20783},
 																run: (*parser).callonSectionTitleElement83,
 																expr: &seqExpr{
-																	pos: position{line: 653, col: 5, offset: 20682},
+																	pos: position{line: 655, col: 5, offset: 20783},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 653, col: 5, offset: 20682},
+																			pos:        position{line: 655, col: 5, offset: 20783},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 653, col: 9, offset: 20686},
+																			pos:   position{line: 655, col: 9, offset: 20787},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 320, col: 18, offset: 9837},
 																				run: (*parser).callonSectionTitleElement87,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 320, col: 18, offset: 9837},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 320, col: 18, offset: 9837},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44125,9 +44125,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 320, col: 28, offset: 9847},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 320, col: 29, offset: 9848},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44140,7 +44140,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 653, col: 28, offset: 20705},
+																			pos:        position{line: 655, col: 28, offset: 20806},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44149,28 +44149,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 659, col: 25, offset: 20886},
+																pos: position{line: 661, col: 25, offset: 20987},
 																run: (*parser).callonSectionTitleElement93,
 																expr: &seqExpr{
-																	pos: position{line: 659, col: 25, offset: 20886},
+																	pos: position{line: 661, col: 25, offset: 20987},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 659, col: 25, offset: 20886},
+																			pos:        position{line: 661, col: 25, offset: 20987},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 659, col: 37, offset: 20898},
+																			pos:   position{line: 661, col: 37, offset: 20999},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 320, col: 18, offset: 9837},
 																				run: (*parser).callonSectionTitleElement97,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 320, col: 18, offset: 9837},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 320, col: 18, offset: 9837},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44178,9 +44178,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 320, col: 28, offset: 9847},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 320, col: 29, offset: 9848},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44193,33 +44193,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 659, col: 56, offset: 20917},
+																			pos:   position{line: 661, col: 56, offset: 21018},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 659, col: 62, offset: 20923},
+																				pos: position{line: 661, col: 62, offset: 21024},
 																				expr: &actionExpr{
-																					pos: position{line: 667, col: 17, offset: 21220},
+																					pos: position{line: 669, col: 17, offset: 21321},
 																					run: (*parser).callonSectionTitleElement104,
 																					expr: &seqExpr{
-																						pos: position{line: 667, col: 17, offset: 21220},
+																						pos: position{line: 669, col: 17, offset: 21321},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 667, col: 17, offset: 21220},
+																								pos:        position{line: 669, col: 17, offset: 21321},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 667, col: 21, offset: 21224},
+																								pos:   position{line: 669, col: 21, offset: 21325},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 667, col: 28, offset: 21231},
+																									pos: position{line: 669, col: 28, offset: 21332},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 667, col: 28, offset: 21231},
+																											pos: position{line: 669, col: 28, offset: 21332},
 																											run: (*parser).callonSectionTitleElement109,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 667, col: 28, offset: 21231},
+																												pos:        position{line: 669, col: 28, offset: 21332},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -44227,12 +44227,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 669, col: 9, offset: 21285},
+																											pos: position{line: 671, col: 9, offset: 21386},
 																											run: (*parser).callonSectionTitleElement111,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 669, col: 9, offset: 21285},
+																												pos: position{line: 671, col: 9, offset: 21386},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 669, col: 9, offset: 21285},
+																													pos:        position{line: 671, col: 9, offset: 21386},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44249,7 +44249,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 659, col: 78, offset: 20939},
+																			pos:        position{line: 661, col: 78, offset: 21040},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44258,28 +44258,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 663, col: 25, offset: 21057},
+																pos: position{line: 665, col: 25, offset: 21158},
 																run: (*parser).callonSectionTitleElement115,
 																expr: &seqExpr{
-																	pos: position{line: 663, col: 25, offset: 21057},
+																	pos: position{line: 665, col: 25, offset: 21158},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 663, col: 25, offset: 21057},
+																			pos:        position{line: 665, col: 25, offset: 21158},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 663, col: 38, offset: 21070},
+																			pos:   position{line: 665, col: 38, offset: 21171},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 320, col: 18, offset: 9837},
 																				run: (*parser).callonSectionTitleElement119,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 320, col: 18, offset: 9837},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 320, col: 18, offset: 9837},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44287,9 +44287,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 320, col: 28, offset: 9847},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 320, col: 29, offset: 9848},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44302,33 +44302,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 663, col: 57, offset: 21089},
+																			pos:   position{line: 665, col: 57, offset: 21190},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 663, col: 63, offset: 21095},
+																				pos: position{line: 665, col: 63, offset: 21196},
 																				expr: &actionExpr{
-																					pos: position{line: 667, col: 17, offset: 21220},
+																					pos: position{line: 669, col: 17, offset: 21321},
 																					run: (*parser).callonSectionTitleElement126,
 																					expr: &seqExpr{
-																						pos: position{line: 667, col: 17, offset: 21220},
+																						pos: position{line: 669, col: 17, offset: 21321},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 667, col: 17, offset: 21220},
+																								pos:        position{line: 669, col: 17, offset: 21321},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 667, col: 21, offset: 21224},
+																								pos:   position{line: 669, col: 21, offset: 21325},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 667, col: 28, offset: 21231},
+																									pos: position{line: 669, col: 28, offset: 21332},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 667, col: 28, offset: 21231},
+																											pos: position{line: 669, col: 28, offset: 21332},
 																											run: (*parser).callonSectionTitleElement131,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 667, col: 28, offset: 21231},
+																												pos:        position{line: 669, col: 28, offset: 21332},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -44336,12 +44336,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 669, col: 9, offset: 21285},
+																											pos: position{line: 671, col: 9, offset: 21386},
 																											run: (*parser).callonSectionTitleElement133,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 669, col: 9, offset: 21285},
+																												pos: position{line: 671, col: 9, offset: 21386},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 669, col: 9, offset: 21285},
+																													pos:        position{line: 671, col: 9, offset: 21386},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44358,7 +44358,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 663, col: 79, offset: 21111},
+																			pos:        position{line: 665, col: 79, offset: 21212},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44373,27 +44373,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1199, col: 23, offset: 37069},
+										pos: position{line: 1201, col: 23, offset: 37170},
 										run: (*parser).callonSectionTitleElement137,
 										expr: &seqExpr{
-											pos: position{line: 1199, col: 23, offset: 37069},
+											pos: position{line: 1201, col: 23, offset: 37170},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1197, col: 32, offset: 37037},
+													pos:        position{line: 1199, col: 32, offset: 37138},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1199, col: 51, offset: 37097},
+													pos:   position{line: 1201, col: 51, offset: 37198},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1199, col: 56, offset: 37102},
+														pos: position{line: 1201, col: 56, offset: 37203},
 														run: (*parser).callonSectionTitleElement141,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1199, col: 56, offset: 37102},
+															pos: position{line: 1201, col: 56, offset: 37203},
 															expr: &charClassMatcher{
-																pos:        position{line: 1199, col: 56, offset: 37102},
+																pos:        position{line: 1201, col: 56, offset: 37203},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -44403,7 +44403,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1197, col: 32, offset: 37037},
+													pos:        position{line: 1199, col: 32, offset: 37138},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -44412,51 +44412,51 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2383, col: 5, offset: 76858},
+										pos: position{line: 2385, col: 5, offset: 76959},
 										run: (*parser).callonSectionTitleElement145,
 										expr: &seqExpr{
-											pos: position{line: 2383, col: 5, offset: 76858},
+											pos: position{line: 2385, col: 5, offset: 76959},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2383, col: 5, offset: 76858},
+													pos: position{line: 2385, col: 5, offset: 76959},
 													run: (*parser).callonSectionTitleElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2386, col: 5, offset: 76913},
+													pos:   position{line: 2388, col: 5, offset: 77014},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 404, col: 5, offset: 12405},
+														pos: position{line: 406, col: 5, offset: 12506},
 														run: (*parser).callonSectionTitleElement149,
 														expr: &seqExpr{
-															pos: position{line: 404, col: 5, offset: 12405},
+															pos: position{line: 406, col: 5, offset: 12506},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 404, col: 5, offset: 12405},
+																	pos:        position{line: 406, col: 5, offset: 12506},
 																	val:        "[[",
 																	ignoreCase: false,
 																	want:       "\"[[\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 405, col: 5, offset: 12415},
+																	pos:   position{line: 407, col: 5, offset: 12516},
 																	label: "id",
 																	expr: &actionExpr{
-																		pos: position{line: 406, col: 9, offset: 12428},
+																		pos: position{line: 408, col: 9, offset: 12529},
 																		run: (*parser).callonSectionTitleElement153,
 																		expr: &labeledExpr{
-																			pos:   position{line: 406, col: 9, offset: 12428},
+																			pos:   position{line: 408, col: 9, offset: 12529},
 																			label: "elements",
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 406, col: 18, offset: 12437},
+																				pos: position{line: 408, col: 18, offset: 12538},
 																				expr: &choiceExpr{
-																					pos: position{line: 407, col: 13, offset: 12451},
+																					pos: position{line: 409, col: 13, offset: 12552},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 407, col: 14, offset: 12452},
+																							pos: position{line: 409, col: 14, offset: 12553},
 																							run: (*parser).callonSectionTitleElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 407, col: 14, offset: 12452},
+																								pos: position{line: 409, col: 14, offset: 12553},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 407, col: 14, offset: 12452},
+																									pos:        position{line: 409, col: 14, offset: 12553},
 																									val:        "[^=\\r\\n�{]]",
 																									chars:      []rune{'=', '\r', '\n', '�', '{', ']'},
 																									ignoreCase: false,
@@ -44465,27 +44465,27 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 1199, col: 23, offset: 37069},
+																							pos: position{line: 1201, col: 23, offset: 37170},
 																							run: (*parser).callonSectionTitleElement160,
 																							expr: &seqExpr{
-																								pos: position{line: 1199, col: 23, offset: 37069},
+																								pos: position{line: 1201, col: 23, offset: 37170},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1197, col: 32, offset: 37037},
+																										pos:        position{line: 1199, col: 32, offset: 37138},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1199, col: 51, offset: 37097},
+																										pos:   position{line: 1201, col: 51, offset: 37198},
 																										label: "ref",
 																										expr: &actionExpr{
-																											pos: position{line: 1199, col: 56, offset: 37102},
+																											pos: position{line: 1201, col: 56, offset: 37203},
 																											run: (*parser).callonSectionTitleElement164,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1199, col: 56, offset: 37102},
+																												pos: position{line: 1201, col: 56, offset: 37203},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1199, col: 56, offset: 37102},
+																													pos:        position{line: 1201, col: 56, offset: 37203},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44495,7 +44495,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1197, col: 32, offset: 37037},
+																										pos:        position{line: 1199, col: 32, offset: 37138},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
@@ -44504,44 +44504,44 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 637, col: 5, offset: 20204},
+																							pos: position{line: 639, col: 5, offset: 20305},
 																							run: (*parser).callonSectionTitleElement168,
 																							expr: &seqExpr{
-																								pos: position{line: 637, col: 5, offset: 20204},
+																								pos: position{line: 639, col: 5, offset: 20305},
 																								exprs: []interface{}{
 																									&andCodeExpr{
-																										pos: position{line: 637, col: 5, offset: 20204},
+																										pos: position{line: 639, col: 5, offset: 20305},
 																										run: (*parser).callonSectionTitleElement170,
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 640, col: 5, offset: 20276},
+																										pos:   position{line: 642, col: 5, offset: 20377},
 																										label: "element",
 																										expr: &choiceExpr{
-																											pos: position{line: 640, col: 14, offset: 20285},
+																											pos: position{line: 642, col: 14, offset: 20386},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 646, col: 5, offset: 20414},
+																													pos: position{line: 648, col: 5, offset: 20515},
 																													run: (*parser).callonSectionTitleElement173,
 																													expr: &seqExpr{
-																														pos: position{line: 646, col: 5, offset: 20414},
+																														pos: position{line: 648, col: 5, offset: 20515},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 646, col: 5, offset: 20414},
+																																pos:        position{line: 648, col: 5, offset: 20515},
 																																val:        "\\{",
 																																ignoreCase: false,
 																																want:       "\"\\\\{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 646, col: 13, offset: 20422},
+																																pos:   position{line: 648, col: 13, offset: 20523},
 																																label: "name",
 																																expr: &actionExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 320, col: 18, offset: 9837},
 																																	run: (*parser).callonSectionTitleElement177,
 																																	expr: &seqExpr{
-																																		pos: position{line: 318, col: 18, offset: 9736},
+																																		pos: position{line: 320, col: 18, offset: 9837},
 																																		exprs: []interface{}{
 																																			&charClassMatcher{
-																																				pos:        position{line: 318, col: 18, offset: 9736},
+																																				pos:        position{line: 320, col: 18, offset: 9837},
 																																				val:        "[_\\pL\\pN]",
 																																				chars:      []rune{'_'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44549,9 +44549,9 @@ var g = &grammar{
 																																				inverted:   false,
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 318, col: 28, offset: 9746},
+																																				pos: position{line: 320, col: 28, offset: 9847},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9747},
+																																					pos:        position{line: 320, col: 29, offset: 9848},
 																																					val:        "[-\\pL\\pN]",
 																																					chars:      []rune{'-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44564,7 +44564,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 646, col: 32, offset: 20441},
+																																pos:        position{line: 648, col: 32, offset: 20542},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44573,28 +44573,28 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 653, col: 5, offset: 20682},
+																													pos: position{line: 655, col: 5, offset: 20783},
 																													run: (*parser).callonSectionTitleElement183,
 																													expr: &seqExpr{
-																														pos: position{line: 653, col: 5, offset: 20682},
+																														pos: position{line: 655, col: 5, offset: 20783},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 653, col: 5, offset: 20682},
+																																pos:        position{line: 655, col: 5, offset: 20783},
 																																val:        "{",
 																																ignoreCase: false,
 																																want:       "\"{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 653, col: 9, offset: 20686},
+																																pos:   position{line: 655, col: 9, offset: 20787},
 																																label: "name",
 																																expr: &actionExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 320, col: 18, offset: 9837},
 																																	run: (*parser).callonSectionTitleElement187,
 																																	expr: &seqExpr{
-																																		pos: position{line: 318, col: 18, offset: 9736},
+																																		pos: position{line: 320, col: 18, offset: 9837},
 																																		exprs: []interface{}{
 																																			&charClassMatcher{
-																																				pos:        position{line: 318, col: 18, offset: 9736},
+																																				pos:        position{line: 320, col: 18, offset: 9837},
 																																				val:        "[_\\pL\\pN]",
 																																				chars:      []rune{'_'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44602,9 +44602,9 @@ var g = &grammar{
 																																				inverted:   false,
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 318, col: 28, offset: 9746},
+																																				pos: position{line: 320, col: 28, offset: 9847},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9747},
+																																					pos:        position{line: 320, col: 29, offset: 9848},
 																																					val:        "[-\\pL\\pN]",
 																																					chars:      []rune{'-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44617,7 +44617,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 653, col: 28, offset: 20705},
+																																pos:        position{line: 655, col: 28, offset: 20806},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44626,28 +44626,28 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 659, col: 25, offset: 20886},
+																													pos: position{line: 661, col: 25, offset: 20987},
 																													run: (*parser).callonSectionTitleElement193,
 																													expr: &seqExpr{
-																														pos: position{line: 659, col: 25, offset: 20886},
+																														pos: position{line: 661, col: 25, offset: 20987},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 659, col: 25, offset: 20886},
+																																pos:        position{line: 661, col: 25, offset: 20987},
 																																val:        "{counter:",
 																																ignoreCase: false,
 																																want:       "\"{counter:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 659, col: 37, offset: 20898},
+																																pos:   position{line: 661, col: 37, offset: 20999},
 																																label: "name",
 																																expr: &actionExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 320, col: 18, offset: 9837},
 																																	run: (*parser).callonSectionTitleElement197,
 																																	expr: &seqExpr{
-																																		pos: position{line: 318, col: 18, offset: 9736},
+																																		pos: position{line: 320, col: 18, offset: 9837},
 																																		exprs: []interface{}{
 																																			&charClassMatcher{
-																																				pos:        position{line: 318, col: 18, offset: 9736},
+																																				pos:        position{line: 320, col: 18, offset: 9837},
 																																				val:        "[_\\pL\\pN]",
 																																				chars:      []rune{'_'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44655,9 +44655,9 @@ var g = &grammar{
 																																				inverted:   false,
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 318, col: 28, offset: 9746},
+																																				pos: position{line: 320, col: 28, offset: 9847},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9747},
+																																					pos:        position{line: 320, col: 29, offset: 9848},
 																																					val:        "[-\\pL\\pN]",
 																																					chars:      []rune{'-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44670,33 +44670,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 659, col: 56, offset: 20917},
+																																pos:   position{line: 661, col: 56, offset: 21018},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 659, col: 62, offset: 20923},
+																																	pos: position{line: 661, col: 62, offset: 21024},
 																																	expr: &actionExpr{
-																																		pos: position{line: 667, col: 17, offset: 21220},
+																																		pos: position{line: 669, col: 17, offset: 21321},
 																																		run: (*parser).callonSectionTitleElement204,
 																																		expr: &seqExpr{
-																																			pos: position{line: 667, col: 17, offset: 21220},
+																																			pos: position{line: 669, col: 17, offset: 21321},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 667, col: 17, offset: 21220},
+																																					pos:        position{line: 669, col: 17, offset: 21321},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 667, col: 21, offset: 21224},
+																																					pos:   position{line: 669, col: 21, offset: 21325},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 667, col: 28, offset: 21231},
+																																						pos: position{line: 669, col: 28, offset: 21332},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 667, col: 28, offset: 21231},
+																																								pos: position{line: 669, col: 28, offset: 21332},
 																																								run: (*parser).callonSectionTitleElement209,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 667, col: 28, offset: 21231},
+																																									pos:        position{line: 669, col: 28, offset: 21332},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -44704,12 +44704,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 669, col: 9, offset: 21285},
+																																								pos: position{line: 671, col: 9, offset: 21386},
 																																								run: (*parser).callonSectionTitleElement211,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 669, col: 9, offset: 21285},
+																																									pos: position{line: 671, col: 9, offset: 21386},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 669, col: 9, offset: 21285},
+																																										pos:        position{line: 671, col: 9, offset: 21386},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -44726,7 +44726,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 659, col: 78, offset: 20939},
+																																pos:        position{line: 661, col: 78, offset: 21040},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44735,28 +44735,28 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 663, col: 25, offset: 21057},
+																													pos: position{line: 665, col: 25, offset: 21158},
 																													run: (*parser).callonSectionTitleElement215,
 																													expr: &seqExpr{
-																														pos: position{line: 663, col: 25, offset: 21057},
+																														pos: position{line: 665, col: 25, offset: 21158},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 663, col: 25, offset: 21057},
+																																pos:        position{line: 665, col: 25, offset: 21158},
 																																val:        "{counter2:",
 																																ignoreCase: false,
 																																want:       "\"{counter2:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 663, col: 38, offset: 21070},
+																																pos:   position{line: 665, col: 38, offset: 21171},
 																																label: "name",
 																																expr: &actionExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 320, col: 18, offset: 9837},
 																																	run: (*parser).callonSectionTitleElement219,
 																																	expr: &seqExpr{
-																																		pos: position{line: 318, col: 18, offset: 9736},
+																																		pos: position{line: 320, col: 18, offset: 9837},
 																																		exprs: []interface{}{
 																																			&charClassMatcher{
-																																				pos:        position{line: 318, col: 18, offset: 9736},
+																																				pos:        position{line: 320, col: 18, offset: 9837},
 																																				val:        "[_\\pL\\pN]",
 																																				chars:      []rune{'_'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44764,9 +44764,9 @@ var g = &grammar{
 																																				inverted:   false,
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 318, col: 28, offset: 9746},
+																																				pos: position{line: 320, col: 28, offset: 9847},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9747},
+																																					pos:        position{line: 320, col: 29, offset: 9848},
 																																					val:        "[-\\pL\\pN]",
 																																					chars:      []rune{'-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44779,33 +44779,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 663, col: 57, offset: 21089},
+																																pos:   position{line: 665, col: 57, offset: 21190},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 663, col: 63, offset: 21095},
+																																	pos: position{line: 665, col: 63, offset: 21196},
 																																	expr: &actionExpr{
-																																		pos: position{line: 667, col: 17, offset: 21220},
+																																		pos: position{line: 669, col: 17, offset: 21321},
 																																		run: (*parser).callonSectionTitleElement226,
 																																		expr: &seqExpr{
-																																			pos: position{line: 667, col: 17, offset: 21220},
+																																			pos: position{line: 669, col: 17, offset: 21321},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 667, col: 17, offset: 21220},
+																																					pos:        position{line: 669, col: 17, offset: 21321},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 667, col: 21, offset: 21224},
+																																					pos:   position{line: 669, col: 21, offset: 21325},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 667, col: 28, offset: 21231},
+																																						pos: position{line: 669, col: 28, offset: 21332},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 667, col: 28, offset: 21231},
+																																								pos: position{line: 669, col: 28, offset: 21332},
 																																								run: (*parser).callonSectionTitleElement231,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 667, col: 28, offset: 21231},
+																																									pos:        position{line: 669, col: 28, offset: 21332},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -44813,12 +44813,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 669, col: 9, offset: 21285},
+																																								pos: position{line: 671, col: 9, offset: 21386},
 																																								run: (*parser).callonSectionTitleElement233,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 669, col: 9, offset: 21285},
+																																									pos: position{line: 671, col: 9, offset: 21386},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 669, col: 9, offset: 21285},
+																																										pos:        position{line: 671, col: 9, offset: 21386},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -44835,7 +44835,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 663, col: 79, offset: 21111},
+																																pos:        position{line: 665, col: 79, offset: 21212},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44850,10 +44850,10 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 412, col: 16, offset: 12685},
+																							pos: position{line: 414, col: 16, offset: 12786},
 																							run: (*parser).callonSectionTitleElement237,
 																							expr: &litMatcher{
-																								pos:        position{line: 412, col: 16, offset: 12685},
+																								pos:        position{line: 414, col: 16, offset: 12786},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
@@ -44866,7 +44866,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 418, col: 5, offset: 12871},
+																	pos:        position{line: 420, col: 5, offset: 12972},
 																	val:        "]]",
 																	ignoreCase: false,
 																	want:       "\"]]\"",
@@ -44876,12 +44876,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2386, col: 26, offset: 76934},
+													pos: position{line: 2388, col: 26, offset: 77035},
 													expr: &actionExpr{
-														pos: position{line: 2910, col: 10, offset: 91824},
+														pos: position{line: 2912, col: 10, offset: 91925},
 														run: (*parser).callonSectionTitleElement241,
 														expr: &charClassMatcher{
-															pos:        position{line: 2910, col: 10, offset: 91824},
+															pos:        position{line: 2912, col: 10, offset: 91925},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44890,30 +44890,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2386, col: 33, offset: 76941},
+													pos: position{line: 2388, col: 33, offset: 77042},
 													expr: &choiceExpr{
-														pos: position{line: 2932, col: 8, offset: 92222},
+														pos: position{line: 2934, col: 8, offset: 92323},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2919, col: 12, offset: 91995},
+																pos: position{line: 2921, col: 12, offset: 92096},
 																run: (*parser).callonSectionTitleElement245,
 																expr: &choiceExpr{
-																	pos: position{line: 2919, col: 13, offset: 91996},
+																	pos: position{line: 2921, col: 13, offset: 92097},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 13, offset: 91996},
+																			pos:        position{line: 2921, col: 13, offset: 92097},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 20, offset: 92003},
+																			pos:        position{line: 2921, col: 20, offset: 92104},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2919, col: 29, offset: 92012},
+																			pos:        position{line: 2921, col: 29, offset: 92113},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44922,9 +44922,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2929, col: 8, offset: 92172},
+																pos: position{line: 2931, col: 8, offset: 92273},
 																expr: &anyMatcher{
-																	line: 2929, col: 9, offset: 92173,
+																	line: 2931, col: 9, offset: 92274,
 																},
 															},
 														},
@@ -44934,27 +44934,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1254, col: 5, offset: 38829},
+										pos: position{line: 1256, col: 5, offset: 38930},
 										run: (*parser).callonSectionTitleElement252,
 										expr: &seqExpr{
-											pos: position{line: 1254, col: 5, offset: 38829},
+											pos: position{line: 1256, col: 5, offset: 38930},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1254, col: 5, offset: 38829},
+													pos:        position{line: 1256, col: 5, offset: 38930},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1254, col: 14, offset: 38838},
+													pos:   position{line: 1256, col: 14, offset: 38939},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2895, col: 7, offset: 91476},
+														pos: position{line: 2897, col: 7, offset: 91577},
 														run: (*parser).callonSectionTitleElement256,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2895, col: 7, offset: 91476},
+															pos: position{line: 2897, col: 7, offset: 91577},
 															expr: &charClassMatcher{
-																pos:        position{line: 2895, col: 7, offset: 91476},
+																pos:        position{line: 2897, col: 7, offset: 91577},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -44964,7 +44964,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1254, col: 22, offset: 38846},
+													pos:        position{line: 1256, col: 22, offset: 38947},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44973,27 +44973,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1259, col: 5, offset: 38965},
+										pos: position{line: 1261, col: 5, offset: 39066},
 										run: (*parser).callonSectionTitleElement260,
 										expr: &seqExpr{
-											pos: position{line: 1259, col: 5, offset: 38965},
+											pos: position{line: 1261, col: 5, offset: 39066},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1259, col: 5, offset: 38965},
+													pos:        position{line: 1261, col: 5, offset: 39066},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1259, col: 10, offset: 38970},
+													pos:   position{line: 1261, col: 10, offset: 39071},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2895, col: 7, offset: 91476},
+														pos: position{line: 2897, col: 7, offset: 91577},
 														run: (*parser).callonSectionTitleElement264,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2895, col: 7, offset: 91476},
+															pos: position{line: 2897, col: 7, offset: 91577},
 															expr: &charClassMatcher{
-																pos:        position{line: 2895, col: 7, offset: 91476},
+																pos:        position{line: 2897, col: 7, offset: 91577},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45003,7 +45003,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1259, col: 18, offset: 38978},
+													pos:        position{line: 1261, col: 18, offset: 39079},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45012,14 +45012,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2375, col: 11, offset: 76659},
+										pos:  position{line: 2377, col: 11, offset: 76760},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2849, col: 12, offset: 90132},
+										pos: position{line: 2851, col: 12, offset: 90233},
 										run: (*parser).callonSectionTitleElement269,
 										expr: &charClassMatcher{
-											pos:        position{line: 2849, col: 12, offset: 90132},
+											pos:        position{line: 2851, col: 12, offset: 90233},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45035,52 +45035,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2396, col: 1, offset: 77203},
+			pos:  position{line: 2398, col: 1, offset: 77304},
 			expr: &actionExpr{
-				pos: position{line: 2397, col: 5, offset: 77290},
+				pos: position{line: 2399, col: 5, offset: 77391},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2397, col: 5, offset: 77290},
+					pos: position{line: 2399, col: 5, offset: 77391},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2397, col: 5, offset: 77290},
+							pos:   position{line: 2399, col: 5, offset: 77391},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2397, col: 14, offset: 77299},
+								pos: position{line: 2399, col: 14, offset: 77400},
 								expr: &actionExpr{
-									pos: position{line: 2399, col: 9, offset: 77325},
+									pos: position{line: 2401, col: 9, offset: 77426},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2399, col: 9, offset: 77325},
+										pos: position{line: 2401, col: 9, offset: 77426},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2927, col: 11, offset: 92158},
+												pos: position{line: 2929, col: 11, offset: 92259},
 												expr: &anyMatcher{
-													line: 2927, col: 13, offset: 92160,
+													line: 2929, col: 13, offset: 92261,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2400, col: 9, offset: 77340},
+												pos:   position{line: 2402, col: 9, offset: 77441},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2401, col: 13, offset: 77362},
+													pos: position{line: 2403, col: 13, offset: 77463},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2809, col: 5, offset: 89066},
+															pos: position{line: 2811, col: 5, offset: 89167},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2809, col: 5, offset: 89066},
+																pos: position{line: 2811, col: 5, offset: 89167},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2809, col: 5, offset: 89066},
+																		pos:   position{line: 2811, col: 5, offset: 89167},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2809, col: 11, offset: 89072},
+																			pos: position{line: 2811, col: 11, offset: 89173},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2809, col: 11, offset: 89072},
+																				pos: position{line: 2811, col: 11, offset: 89173},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2809, col: 11, offset: 89072},
+																					pos:        position{line: 2811, col: 11, offset: 89173},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45090,36 +45090,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2812, col: 5, offset: 89130},
+																		pos: position{line: 2814, col: 5, offset: 89231},
 																		expr: &seqExpr{
-																			pos: position{line: 2813, col: 9, offset: 89141},
+																			pos: position{line: 2815, col: 9, offset: 89242},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2813, col: 9, offset: 89141},
+																					pos:        position{line: 2815, col: 9, offset: 89242},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2814, col: 9, offset: 89190},
+																					pos: position{line: 2816, col: 9, offset: 89291},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2818, col: 5, offset: 89270},
+																		pos: position{line: 2820, col: 5, offset: 89371},
 																		expr: &seqExpr{
-																			pos: position{line: 2819, col: 9, offset: 89281},
+																			pos: position{line: 2821, col: 9, offset: 89382},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2819, col: 9, offset: 89281},
+																					pos:        position{line: 2821, col: 9, offset: 89382},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2819, col: 13, offset: 89285},
+																					pos:        position{line: 2821, col: 13, offset: 89386},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45132,12 +45132,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2914, col: 11, offset: 91885},
+															pos: position{line: 2916, col: 11, offset: 91986},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2914, col: 11, offset: 91885},
+																pos: position{line: 2916, col: 11, offset: 91986},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2914, col: 11, offset: 91885},
+																	pos:        position{line: 2916, col: 11, offset: 91986},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45146,25 +45146,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2403, col: 15, offset: 77408},
+															pos:  position{line: 2405, col: 15, offset: 77509},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2531, col: 5, offset: 81347},
+															pos: position{line: 2533, col: 5, offset: 81448},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2531, col: 5, offset: 81347},
+																pos: position{line: 2533, col: 5, offset: 81448},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2531, col: 5, offset: 81347},
+																		pos:        position{line: 2533, col: 5, offset: 81448},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2531, col: 10, offset: 81352},
+																		pos: position{line: 2533, col: 10, offset: 81453},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2531, col: 11, offset: 81353},
+																			pos:        position{line: 2533, col: 11, offset: 81454},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45175,29 +45175,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2537, col: 5, offset: 81545},
+															pos: position{line: 2539, col: 5, offset: 81646},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2537, col: 5, offset: 81545},
+																pos: position{line: 2539, col: 5, offset: 81646},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2537, col: 5, offset: 81545},
+																		pos: position{line: 2539, col: 5, offset: 81646},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2540, col: 5, offset: 81616},
+																		pos: position{line: 2542, col: 5, offset: 81717},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2544, col: 5, offset: 81741},
+																		pos:        position{line: 2546, col: 5, offset: 81842},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2544, col: 9, offset: 81745},
+																		pos: position{line: 2546, col: 9, offset: 81846},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2544, col: 10, offset: 81746},
+																			pos:        position{line: 2546, col: 10, offset: 81847},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45208,27 +45208,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2827, col: 5, offset: 89478},
+															pos: position{line: 2829, col: 5, offset: 89579},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2828, col: 9, offset: 89488},
+																pos: position{line: 2830, col: 9, offset: 89589},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2828, col: 10, offset: 89489},
+																		pos:        position{line: 2830, col: 10, offset: 89590},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2830, col: 13, offset: 89586},
+																		pos: position{line: 2832, col: 13, offset: 89687},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2830, col: 13, offset: 89586},
+																				pos: position{line: 2832, col: 13, offset: 89687},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2833, col: 13, offset: 89686},
+																				pos:        position{line: 2835, col: 13, offset: 89787},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45236,20 +45236,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2833, col: 19, offset: 89692},
+																		pos:        position{line: 2835, col: 19, offset: 89793},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2836, col: 13, offset: 89730},
+																		pos: position{line: 2838, col: 13, offset: 89831},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2836, col: 13, offset: 89730},
+																				pos: position{line: 2838, col: 13, offset: 89831},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2839, col: 14, offset: 89823},
+																				pos:        position{line: 2841, col: 14, offset: 89924},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45258,18 +45258,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2841, col: 12, offset: 89867},
+																		pos: position{line: 2843, col: 12, offset: 89968},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2841, col: 12, offset: 89867},
+																				pos:        position{line: 2843, col: 12, offset: 89968},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2841, col: 16, offset: 89871},
+																				pos: position{line: 2843, col: 16, offset: 89972},
 																				expr: &litMatcher{
-																					pos:        position{line: 2841, col: 17, offset: 89872},
+																					pos:        position{line: 2843, col: 17, offset: 89973},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45281,25 +45281,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2919, col: 12, offset: 91995},
+															pos: position{line: 2921, col: 12, offset: 92096},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2919, col: 13, offset: 91996},
+																pos: position{line: 2921, col: 13, offset: 92097},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 13, offset: 91996},
+																		pos:        position{line: 2921, col: 13, offset: 92097},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 20, offset: 92003},
+																		pos:        position{line: 2921, col: 20, offset: 92104},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2919, col: 29, offset: 92012},
+																		pos:        position{line: 2921, col: 29, offset: 92113},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45308,44 +45308,44 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 637, col: 5, offset: 20204},
+															pos: position{line: 639, col: 5, offset: 20305},
 															run: (*parser).callonNormalGroup60,
 															expr: &seqExpr{
-																pos: position{line: 637, col: 5, offset: 20204},
+																pos: position{line: 639, col: 5, offset: 20305},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 637, col: 5, offset: 20204},
+																		pos: position{line: 639, col: 5, offset: 20305},
 																		run: (*parser).callonNormalGroup62,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 640, col: 5, offset: 20276},
+																		pos:   position{line: 642, col: 5, offset: 20377},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 640, col: 14, offset: 20285},
+																			pos: position{line: 642, col: 14, offset: 20386},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 646, col: 5, offset: 20414},
+																					pos: position{line: 648, col: 5, offset: 20515},
 																					run: (*parser).callonNormalGroup65,
 																					expr: &seqExpr{
-																						pos: position{line: 646, col: 5, offset: 20414},
+																						pos: position{line: 648, col: 5, offset: 20515},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 646, col: 5, offset: 20414},
+																								pos:        position{line: 648, col: 5, offset: 20515},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 646, col: 13, offset: 20422},
+																								pos:   position{line: 648, col: 13, offset: 20523},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 320, col: 18, offset: 9837},
 																									run: (*parser).callonNormalGroup69,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 320, col: 18, offset: 9837},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 320, col: 18, offset: 9837},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45353,9 +45353,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 320, col: 28, offset: 9847},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 320, col: 29, offset: 9848},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45368,7 +45368,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 646, col: 32, offset: 20441},
+																								pos:        position{line: 648, col: 32, offset: 20542},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45377,28 +45377,28 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 653, col: 5, offset: 20682},
+																					pos: position{line: 655, col: 5, offset: 20783},
 																					run: (*parser).callonNormalGroup75,
 																					expr: &seqExpr{
-																						pos: position{line: 653, col: 5, offset: 20682},
+																						pos: position{line: 655, col: 5, offset: 20783},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 653, col: 5, offset: 20682},
+																								pos:        position{line: 655, col: 5, offset: 20783},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 653, col: 9, offset: 20686},
+																								pos:   position{line: 655, col: 9, offset: 20787},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 320, col: 18, offset: 9837},
 																									run: (*parser).callonNormalGroup79,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 320, col: 18, offset: 9837},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 320, col: 18, offset: 9837},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45406,9 +45406,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 320, col: 28, offset: 9847},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 320, col: 29, offset: 9848},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45421,7 +45421,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 653, col: 28, offset: 20705},
+																								pos:        position{line: 655, col: 28, offset: 20806},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45430,28 +45430,28 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 659, col: 25, offset: 20886},
+																					pos: position{line: 661, col: 25, offset: 20987},
 																					run: (*parser).callonNormalGroup85,
 																					expr: &seqExpr{
-																						pos: position{line: 659, col: 25, offset: 20886},
+																						pos: position{line: 661, col: 25, offset: 20987},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 659, col: 25, offset: 20886},
+																								pos:        position{line: 661, col: 25, offset: 20987},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 659, col: 37, offset: 20898},
+																								pos:   position{line: 661, col: 37, offset: 20999},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 320, col: 18, offset: 9837},
 																									run: (*parser).callonNormalGroup89,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 320, col: 18, offset: 9837},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 320, col: 18, offset: 9837},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45459,9 +45459,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 320, col: 28, offset: 9847},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 320, col: 29, offset: 9848},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45474,33 +45474,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 659, col: 56, offset: 20917},
+																								pos:   position{line: 661, col: 56, offset: 21018},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 659, col: 62, offset: 20923},
+																									pos: position{line: 661, col: 62, offset: 21024},
 																									expr: &actionExpr{
-																										pos: position{line: 667, col: 17, offset: 21220},
+																										pos: position{line: 669, col: 17, offset: 21321},
 																										run: (*parser).callonNormalGroup96,
 																										expr: &seqExpr{
-																											pos: position{line: 667, col: 17, offset: 21220},
+																											pos: position{line: 669, col: 17, offset: 21321},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 667, col: 17, offset: 21220},
+																													pos:        position{line: 669, col: 17, offset: 21321},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 667, col: 21, offset: 21224},
+																													pos:   position{line: 669, col: 21, offset: 21325},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 667, col: 28, offset: 21231},
+																														pos: position{line: 669, col: 28, offset: 21332},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 667, col: 28, offset: 21231},
+																																pos: position{line: 669, col: 28, offset: 21332},
 																																run: (*parser).callonNormalGroup101,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 667, col: 28, offset: 21231},
+																																	pos:        position{line: 669, col: 28, offset: 21332},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -45508,12 +45508,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 669, col: 9, offset: 21285},
+																																pos: position{line: 671, col: 9, offset: 21386},
 																																run: (*parser).callonNormalGroup103,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 669, col: 9, offset: 21285},
+																																	pos: position{line: 671, col: 9, offset: 21386},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 669, col: 9, offset: 21285},
+																																		pos:        position{line: 671, col: 9, offset: 21386},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -45530,7 +45530,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 659, col: 78, offset: 20939},
+																								pos:        position{line: 661, col: 78, offset: 21040},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45539,28 +45539,28 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 663, col: 25, offset: 21057},
+																					pos: position{line: 665, col: 25, offset: 21158},
 																					run: (*parser).callonNormalGroup107,
 																					expr: &seqExpr{
-																						pos: position{line: 663, col: 25, offset: 21057},
+																						pos: position{line: 665, col: 25, offset: 21158},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 663, col: 25, offset: 21057},
+																								pos:        position{line: 665, col: 25, offset: 21158},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 663, col: 38, offset: 21070},
+																								pos:   position{line: 665, col: 38, offset: 21171},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 320, col: 18, offset: 9837},
 																									run: (*parser).callonNormalGroup111,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 320, col: 18, offset: 9837},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 320, col: 18, offset: 9837},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45568,9 +45568,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 320, col: 28, offset: 9847},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 320, col: 29, offset: 9848},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45583,33 +45583,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 663, col: 57, offset: 21089},
+																								pos:   position{line: 665, col: 57, offset: 21190},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 663, col: 63, offset: 21095},
+																									pos: position{line: 665, col: 63, offset: 21196},
 																									expr: &actionExpr{
-																										pos: position{line: 667, col: 17, offset: 21220},
+																										pos: position{line: 669, col: 17, offset: 21321},
 																										run: (*parser).callonNormalGroup118,
 																										expr: &seqExpr{
-																											pos: position{line: 667, col: 17, offset: 21220},
+																											pos: position{line: 669, col: 17, offset: 21321},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 667, col: 17, offset: 21220},
+																													pos:        position{line: 669, col: 17, offset: 21321},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 667, col: 21, offset: 21224},
+																													pos:   position{line: 669, col: 21, offset: 21325},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 667, col: 28, offset: 21231},
+																														pos: position{line: 669, col: 28, offset: 21332},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 667, col: 28, offset: 21231},
+																																pos: position{line: 669, col: 28, offset: 21332},
 																																run: (*parser).callonNormalGroup123,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 667, col: 28, offset: 21231},
+																																	pos:        position{line: 669, col: 28, offset: 21332},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -45617,12 +45617,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 669, col: 9, offset: 21285},
+																																pos: position{line: 671, col: 9, offset: 21386},
 																																run: (*parser).callonNormalGroup125,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 669, col: 9, offset: 21285},
+																																	pos: position{line: 671, col: 9, offset: 21386},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 669, col: 9, offset: 21285},
+																																		pos:        position{line: 671, col: 9, offset: 21386},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -45639,7 +45639,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 663, col: 79, offset: 21111},
+																								pos:        position{line: 665, col: 79, offset: 21212},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45654,35 +45654,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2408, col: 15, offset: 77575},
+															pos:  position{line: 2410, col: 15, offset: 77676},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2409, col: 15, offset: 77595},
+															pos:  position{line: 2411, col: 15, offset: 77696},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2410, col: 15, offset: 77684},
+															pos:  position{line: 2412, col: 15, offset: 77785},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2500, col: 5, offset: 80148},
+															pos: position{line: 2502, col: 5, offset: 80249},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2500, col: 5, offset: 80148},
+																pos: position{line: 2502, col: 5, offset: 80249},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2500, col: 5, offset: 80148},
+																		pos: position{line: 2502, col: 5, offset: 80249},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2503, col: 5, offset: 80224},
+																		pos:   position{line: 2505, col: 5, offset: 80325},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2504, col: 9, offset: 80242},
+																			pos: position{line: 2506, col: 9, offset: 80343},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2504, col: 10, offset: 80243},
+																				pos:        position{line: 2506, col: 10, offset: 80344},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -45694,32 +45694,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1207, col: 5, offset: 37515},
+															pos: position{line: 1209, col: 5, offset: 37616},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 1207, col: 5, offset: 37515},
+																pos: position{line: 1209, col: 5, offset: 37616},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1207, col: 5, offset: 37515},
+																		pos: position{line: 1209, col: 5, offset: 37616},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1210, col: 5, offset: 37591},
+																		pos:        position{line: 1212, col: 5, offset: 37692},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1211, col: 5, offset: 37599},
+																		pos: position{line: 1213, col: 5, offset: 37700},
 																		run: (*parser).callonNormalGroup142,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1215, col: 5, offset: 37686},
+																		pos: position{line: 1217, col: 5, offset: 37787},
 																		expr: &actionExpr{
-																			pos: position{line: 2910, col: 10, offset: 91824},
+																			pos: position{line: 2912, col: 10, offset: 91925},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2910, col: 10, offset: 91824},
+																				pos:        position{line: 2912, col: 10, offset: 91925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45728,30 +45728,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1215, col: 12, offset: 37693},
+																		pos: position{line: 1217, col: 12, offset: 37794},
 																		expr: &choiceExpr{
-																			pos: position{line: 2932, col: 8, offset: 92222},
+																			pos: position{line: 2934, col: 8, offset: 92323},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2919, col: 12, offset: 91995},
+																					pos: position{line: 2921, col: 12, offset: 92096},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2919, col: 13, offset: 91996},
+																						pos: position{line: 2921, col: 13, offset: 92097},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 13, offset: 91996},
+																								pos:        position{line: 2921, col: 13, offset: 92097},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 20, offset: 92003},
+																								pos:        position{line: 2921, col: 20, offset: 92104},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 29, offset: 92012},
+																								pos:        position{line: 2921, col: 29, offset: 92113},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45760,9 +45760,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2929, col: 8, offset: 92172},
+																					pos: position{line: 2931, col: 8, offset: 92273},
 																					expr: &anyMatcher{
-																						line: 2929, col: 9, offset: 92173,
+																						line: 2931, col: 9, offset: 92274,
 																					},
 																				},
 																			},
@@ -45772,31 +45772,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2413, col: 15, offset: 77866},
+															pos:  position{line: 2415, col: 15, offset: 77967},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1199, col: 23, offset: 37069},
+															pos: position{line: 1201, col: 23, offset: 37170},
 															run: (*parser).callonNormalGroup156,
 															expr: &seqExpr{
-																pos: position{line: 1199, col: 23, offset: 37069},
+																pos: position{line: 1201, col: 23, offset: 37170},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1197, col: 32, offset: 37037},
+																		pos:        position{line: 1199, col: 32, offset: 37138},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1199, col: 51, offset: 37097},
+																		pos:   position{line: 1201, col: 51, offset: 37198},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1199, col: 56, offset: 37102},
+																			pos: position{line: 1201, col: 56, offset: 37203},
 																			run: (*parser).callonNormalGroup160,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1199, col: 56, offset: 37102},
+																				pos: position{line: 1201, col: 56, offset: 37203},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1199, col: 56, offset: 37102},
+																					pos:        position{line: 1201, col: 56, offset: 37203},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -45806,7 +45806,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1197, col: 32, offset: 37037},
+																		pos:        position{line: 1199, col: 32, offset: 37138},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -45815,10 +45815,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2849, col: 12, offset: 90132},
+															pos: position{line: 2851, col: 12, offset: 90233},
 															run: (*parser).callonNormalGroup164,
 															expr: &charClassMatcher{
-																pos:        position{line: 2849, col: 12, offset: 90132},
+																pos:        position{line: 2851, col: 12, offset: 90233},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45834,9 +45834,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2929, col: 8, offset: 92172},
+							pos: position{line: 2931, col: 8, offset: 92273},
 							expr: &anyMatcher{
-								line: 2929, col: 9, offset: 92173,
+								line: 2931, col: 9, offset: 92274,
 							},
 						},
 					},
@@ -45845,28 +45845,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2424, col: 1, offset: 78304},
+			pos:  position{line: 2426, col: 1, offset: 78405},
 			expr: &actionExpr{
-				pos: position{line: 2425, col: 5, offset: 78337},
+				pos: position{line: 2427, col: 5, offset: 78438},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2425, col: 5, offset: 78337},
+					pos: position{line: 2427, col: 5, offset: 78438},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2425, col: 5, offset: 78337},
+							pos:   position{line: 2427, col: 5, offset: 78438},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2425, col: 14, offset: 78346},
+								pos: position{line: 2427, col: 14, offset: 78447},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2425, col: 15, offset: 78347},
+									pos:  position{line: 2427, col: 15, offset: 78448},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2929, col: 8, offset: 92172},
+							pos: position{line: 2931, col: 8, offset: 92273},
 							expr: &anyMatcher{
-								line: 2929, col: 9, offset: 92173,
+								line: 2931, col: 9, offset: 92274,
 							},
 						},
 					},
@@ -45875,41 +45875,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2429, col: 1, offset: 78444},
+			pos:  position{line: 2431, col: 1, offset: 78545},
 			expr: &actionExpr{
-				pos: position{line: 2430, col: 5, offset: 78484},
+				pos: position{line: 2432, col: 5, offset: 78585},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2430, col: 5, offset: 78484},
+					pos: position{line: 2432, col: 5, offset: 78585},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2927, col: 11, offset: 92158},
+							pos: position{line: 2929, col: 11, offset: 92259},
 							expr: &anyMatcher{
-								line: 2927, col: 13, offset: 92160,
+								line: 2929, col: 13, offset: 92261,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2431, col: 5, offset: 78495},
+							pos:   position{line: 2433, col: 5, offset: 78596},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2432, col: 9, offset: 78513},
+								pos: position{line: 2434, col: 9, offset: 78614},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2809, col: 5, offset: 89066},
+										pos: position{line: 2811, col: 5, offset: 89167},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2809, col: 5, offset: 89066},
+											pos: position{line: 2811, col: 5, offset: 89167},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2809, col: 5, offset: 89066},
+													pos:   position{line: 2811, col: 5, offset: 89167},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2809, col: 11, offset: 89072},
+														pos: position{line: 2811, col: 11, offset: 89173},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2809, col: 11, offset: 89072},
+															pos: position{line: 2811, col: 11, offset: 89173},
 															expr: &charClassMatcher{
-																pos:        position{line: 2809, col: 11, offset: 89072},
+																pos:        position{line: 2811, col: 11, offset: 89173},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45919,36 +45919,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2812, col: 5, offset: 89130},
+													pos: position{line: 2814, col: 5, offset: 89231},
 													expr: &seqExpr{
-														pos: position{line: 2813, col: 9, offset: 89141},
+														pos: position{line: 2815, col: 9, offset: 89242},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2813, col: 9, offset: 89141},
+																pos:        position{line: 2815, col: 9, offset: 89242},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2814, col: 9, offset: 89190},
+																pos: position{line: 2816, col: 9, offset: 89291},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2818, col: 5, offset: 89270},
+													pos: position{line: 2820, col: 5, offset: 89371},
 													expr: &seqExpr{
-														pos: position{line: 2819, col: 9, offset: 89281},
+														pos: position{line: 2821, col: 9, offset: 89382},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2819, col: 9, offset: 89281},
+																pos:        position{line: 2821, col: 9, offset: 89382},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2819, col: 13, offset: 89285},
+																pos:        position{line: 2821, col: 13, offset: 89386},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45961,10 +45961,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2910, col: 10, offset: 91824},
+										pos: position{line: 2912, col: 10, offset: 91925},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2910, col: 10, offset: 91824},
+											pos:        position{line: 2912, col: 10, offset: 91925},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45972,31 +45972,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2434, col: 11, offset: 78551},
+										pos:  position{line: 2436, col: 11, offset: 78652},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2827, col: 5, offset: 89478},
+										pos: position{line: 2829, col: 5, offset: 89579},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2828, col: 9, offset: 89488},
+											pos: position{line: 2830, col: 9, offset: 89589},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2828, col: 10, offset: 89489},
+													pos:        position{line: 2830, col: 10, offset: 89590},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2830, col: 13, offset: 89586},
+													pos: position{line: 2832, col: 13, offset: 89687},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2830, col: 13, offset: 89586},
+															pos: position{line: 2832, col: 13, offset: 89687},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2833, col: 13, offset: 89686},
+															pos:        position{line: 2835, col: 13, offset: 89787},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46004,20 +46004,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2833, col: 19, offset: 89692},
+													pos:        position{line: 2835, col: 19, offset: 89793},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2836, col: 13, offset: 89730},
+													pos: position{line: 2838, col: 13, offset: 89831},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2836, col: 13, offset: 89730},
+															pos: position{line: 2838, col: 13, offset: 89831},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2839, col: 14, offset: 89823},
+															pos:        position{line: 2841, col: 14, offset: 89924},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46026,18 +46026,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2841, col: 12, offset: 89867},
+													pos: position{line: 2843, col: 12, offset: 89968},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2841, col: 12, offset: 89867},
+															pos:        position{line: 2843, col: 12, offset: 89968},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2841, col: 16, offset: 89871},
+															pos: position{line: 2843, col: 16, offset: 89972},
 															expr: &litMatcher{
-																pos:        position{line: 2841, col: 17, offset: 89872},
+																pos:        position{line: 2843, col: 17, offset: 89973},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46049,31 +46049,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2436, col: 11, offset: 78624},
+										pos:  position{line: 2438, col: 11, offset: 78725},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2437, col: 11, offset: 78640},
+										pos:  position{line: 2439, col: 11, offset: 78741},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2500, col: 5, offset: 80148},
+										pos: position{line: 2502, col: 5, offset: 80249},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2500, col: 5, offset: 80148},
+											pos: position{line: 2502, col: 5, offset: 80249},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2500, col: 5, offset: 80148},
+													pos: position{line: 2502, col: 5, offset: 80249},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2503, col: 5, offset: 80224},
+													pos:   position{line: 2505, col: 5, offset: 80325},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2504, col: 9, offset: 80242},
+														pos: position{line: 2506, col: 9, offset: 80343},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2504, col: 10, offset: 80243},
+															pos:        position{line: 2506, col: 10, offset: 80344},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46085,27 +46085,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1199, col: 23, offset: 37069},
+										pos: position{line: 1201, col: 23, offset: 37170},
 										run: (*parser).callonAttributeStructuredValueElement46,
 										expr: &seqExpr{
-											pos: position{line: 1199, col: 23, offset: 37069},
+											pos: position{line: 1201, col: 23, offset: 37170},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1197, col: 32, offset: 37037},
+													pos:        position{line: 1199, col: 32, offset: 37138},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1199, col: 51, offset: 37097},
+													pos:   position{line: 1201, col: 51, offset: 37198},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1199, col: 56, offset: 37102},
+														pos: position{line: 1201, col: 56, offset: 37203},
 														run: (*parser).callonAttributeStructuredValueElement50,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1199, col: 56, offset: 37102},
+															pos: position{line: 1201, col: 56, offset: 37203},
 															expr: &charClassMatcher{
-																pos:        position{line: 1199, col: 56, offset: 37102},
+																pos:        position{line: 1201, col: 56, offset: 37203},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -46115,7 +46115,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1197, col: 32, offset: 37037},
+													pos:        position{line: 1199, col: 32, offset: 37138},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -46124,25 +46124,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2919, col: 12, offset: 91995},
+										pos: position{line: 2921, col: 12, offset: 92096},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2919, col: 13, offset: 91996},
+											pos: position{line: 2921, col: 13, offset: 92097},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2919, col: 13, offset: 91996},
+													pos:        position{line: 2921, col: 13, offset: 92097},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2919, col: 20, offset: 92003},
+													pos:        position{line: 2921, col: 20, offset: 92104},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2919, col: 29, offset: 92012},
+													pos:        position{line: 2921, col: 29, offset: 92113},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46151,10 +46151,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2849, col: 12, offset: 90132},
+										pos: position{line: 2851, col: 12, offset: 90233},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2849, col: 12, offset: 90132},
+											pos:        position{line: 2851, col: 12, offset: 90233},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46170,73 +46170,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2448, col: 1, offset: 78910},
+			pos:  position{line: 2450, col: 1, offset: 79011},
 			expr: &actionExpr{
-				pos: position{line: 2450, col: 5, offset: 78992},
+				pos: position{line: 2452, col: 5, offset: 79093},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2450, col: 5, offset: 78992},
+					pos: position{line: 2452, col: 5, offset: 79093},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2450, col: 5, offset: 78992},
+							pos: position{line: 2452, col: 5, offset: 79093},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2453, col: 5, offset: 79057},
+							pos:   position{line: 2455, col: 5, offset: 79158},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2454, col: 9, offset: 79075},
+								pos: position{line: 2456, col: 9, offset: 79176},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2454, col: 9, offset: 79075},
+										pos:  position{line: 2456, col: 9, offset: 79176},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2455, col: 11, offset: 79096},
+										pos:  position{line: 2457, col: 11, offset: 79197},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2456, col: 11, offset: 79119},
+										pos:  position{line: 2458, col: 11, offset: 79220},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2457, col: 11, offset: 79135},
+										pos:  position{line: 2459, col: 11, offset: 79236},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2458, col: 11, offset: 79164},
+										pos:  position{line: 2460, col: 11, offset: 79265},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2459, col: 11, offset: 79190},
+										pos:  position{line: 2461, col: 11, offset: 79291},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2460, col: 11, offset: 79216},
+										pos:  position{line: 2462, col: 11, offset: 79317},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1254, col: 5, offset: 38829},
+										pos: position{line: 1256, col: 5, offset: 38930},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1254, col: 5, offset: 38829},
+											pos: position{line: 1256, col: 5, offset: 38930},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1254, col: 5, offset: 38829},
+													pos:        position{line: 1256, col: 5, offset: 38930},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1254, col: 14, offset: 38838},
+													pos:   position{line: 1256, col: 14, offset: 38939},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2895, col: 7, offset: 91476},
+														pos: position{line: 2897, col: 7, offset: 91577},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2895, col: 7, offset: 91476},
+															pos: position{line: 2897, col: 7, offset: 91577},
 															expr: &charClassMatcher{
-																pos:        position{line: 2895, col: 7, offset: 91476},
+																pos:        position{line: 2897, col: 7, offset: 91577},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46246,7 +46246,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1254, col: 22, offset: 38846},
+													pos:        position{line: 1256, col: 22, offset: 38947},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46255,27 +46255,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1259, col: 5, offset: 38965},
+										pos: position{line: 1261, col: 5, offset: 39066},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1259, col: 5, offset: 38965},
+											pos: position{line: 1261, col: 5, offset: 39066},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1259, col: 5, offset: 38965},
+													pos:        position{line: 1261, col: 5, offset: 39066},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1259, col: 10, offset: 38970},
+													pos:   position{line: 1261, col: 10, offset: 39071},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2895, col: 7, offset: 91476},
+														pos: position{line: 2897, col: 7, offset: 91577},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2895, col: 7, offset: 91476},
+															pos: position{line: 2897, col: 7, offset: 91577},
 															expr: &charClassMatcher{
-																pos:        position{line: 2895, col: 7, offset: 91476},
+																pos:        position{line: 2897, col: 7, offset: 91577},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46285,7 +46285,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1259, col: 18, offset: 38978},
+													pos:        position{line: 1261, col: 18, offset: 39079},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46294,40 +46294,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1298, col: 23, offset: 40454},
+										pos: position{line: 1300, col: 23, offset: 40555},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1298, col: 23, offset: 40454},
+											pos: position{line: 1300, col: 23, offset: 40555},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1298, col: 23, offset: 40454},
+													pos:        position{line: 1300, col: 23, offset: 40555},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1298, col: 29, offset: 40460},
+													pos:   position{line: 1300, col: 29, offset: 40561},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1305, col: 30, offset: 40791},
+														pos: position{line: 1307, col: 30, offset: 40892},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1305, col: 30, offset: 40791},
+															pos: position{line: 1307, col: 30, offset: 40892},
 															expr: &choiceExpr{
-																pos: position{line: 1305, col: 31, offset: 40792},
+																pos: position{line: 1307, col: 31, offset: 40893},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2800, col: 13, offset: 88919},
+																		pos:        position{line: 2802, col: 13, offset: 89020},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2910, col: 10, offset: 91824},
+																		pos: position{line: 2912, col: 10, offset: 91925},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2910, col: 10, offset: 91824},
+																			pos:        position{line: 2912, col: 10, offset: 91925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46340,23 +46340,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1299, col: 5, offset: 40499},
+													pos:   position{line: 1301, col: 5, offset: 40600},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1299, col: 11, offset: 40505},
+														pos: position{line: 1301, col: 11, offset: 40606},
 														expr: &actionExpr{
-															pos: position{line: 1299, col: 12, offset: 40506},
+															pos: position{line: 1301, col: 12, offset: 40607},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1299, col: 12, offset: 40506},
+																pos: position{line: 1301, col: 12, offset: 40607},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1299, col: 12, offset: 40506},
+																		pos: position{line: 1301, col: 12, offset: 40607},
 																		expr: &actionExpr{
-																			pos: position{line: 2910, col: 10, offset: 91824},
+																			pos: position{line: 2912, col: 10, offset: 91925},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2910, col: 10, offset: 91824},
+																				pos:        position{line: 2912, col: 10, offset: 91925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46365,18 +46365,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1299, col: 19, offset: 40513},
+																		pos:        position{line: 1301, col: 19, offset: 40614},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1299, col: 23, offset: 40517},
+																		pos: position{line: 1301, col: 23, offset: 40618},
 																		expr: &actionExpr{
-																			pos: position{line: 2910, col: 10, offset: 91824},
+																			pos: position{line: 2912, col: 10, offset: 91925},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2910, col: 10, offset: 91824},
+																				pos:        position{line: 2912, col: 10, offset: 91925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46385,28 +46385,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1299, col: 30, offset: 40524},
+																		pos:   position{line: 1301, col: 30, offset: 40625},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1305, col: 30, offset: 40791},
+																			pos: position{line: 1307, col: 30, offset: 40892},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1305, col: 30, offset: 40791},
+																				pos: position{line: 1307, col: 30, offset: 40892},
 																				expr: &choiceExpr{
-																					pos: position{line: 1305, col: 31, offset: 40792},
+																					pos: position{line: 1307, col: 31, offset: 40893},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2800, col: 13, offset: 88919},
+																							pos:        position{line: 2802, col: 13, offset: 89020},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2910, col: 10, offset: 91824},
+																							pos: position{line: 2912, col: 10, offset: 91925},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2910, col: 10, offset: 91824},
+																								pos:        position{line: 2912, col: 10, offset: 91925},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46424,23 +46424,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1300, col: 5, offset: 40591},
+													pos:   position{line: 1302, col: 5, offset: 40692},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1300, col: 11, offset: 40597},
+														pos: position{line: 1302, col: 11, offset: 40698},
 														expr: &actionExpr{
-															pos: position{line: 1300, col: 12, offset: 40598},
+															pos: position{line: 1302, col: 12, offset: 40699},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1300, col: 12, offset: 40598},
+																pos: position{line: 1302, col: 12, offset: 40699},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1300, col: 12, offset: 40598},
+																		pos: position{line: 1302, col: 12, offset: 40699},
 																		expr: &actionExpr{
-																			pos: position{line: 2910, col: 10, offset: 91824},
+																			pos: position{line: 2912, col: 10, offset: 91925},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2910, col: 10, offset: 91824},
+																				pos:        position{line: 2912, col: 10, offset: 91925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46449,18 +46449,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1300, col: 19, offset: 40605},
+																		pos:        position{line: 1302, col: 19, offset: 40706},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1300, col: 23, offset: 40609},
+																		pos: position{line: 1302, col: 23, offset: 40710},
 																		expr: &actionExpr{
-																			pos: position{line: 2910, col: 10, offset: 91824},
+																			pos: position{line: 2912, col: 10, offset: 91925},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2910, col: 10, offset: 91824},
+																				pos:        position{line: 2912, col: 10, offset: 91925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46469,28 +46469,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1300, col: 30, offset: 40616},
+																		pos:   position{line: 1302, col: 30, offset: 40717},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1305, col: 30, offset: 40791},
+																			pos: position{line: 1307, col: 30, offset: 40892},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1305, col: 30, offset: 40791},
+																				pos: position{line: 1307, col: 30, offset: 40892},
 																				expr: &choiceExpr{
-																					pos: position{line: 1305, col: 31, offset: 40792},
+																					pos: position{line: 1307, col: 31, offset: 40893},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2800, col: 13, offset: 88919},
+																							pos:        position{line: 2802, col: 13, offset: 89020},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2910, col: 10, offset: 91824},
+																							pos: position{line: 2912, col: 10, offset: 91925},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2910, col: 10, offset: 91824},
+																								pos:        position{line: 2912, col: 10, offset: 91925},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46508,7 +46508,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1301, col: 5, offset: 40683},
+													pos:        position{line: 1303, col: 5, offset: 40784},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -46517,15 +46517,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2463, col: 11, offset: 79295},
+										pos:  position{line: 2465, col: 11, offset: 79396},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2464, col: 11, offset: 79315},
+										pos:  position{line: 2466, col: 11, offset: 79416},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2465, col: 11, offset: 79338},
+										pos:  position{line: 2467, col: 11, offset: 79439},
 										name: "InlineMenu",
 									},
 								},
@@ -46537,80 +46537,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2469, col: 1, offset: 79395},
+			pos:  position{line: 2471, col: 1, offset: 79496},
 			expr: &actionExpr{
-				pos: position{line: 2471, col: 5, offset: 79483},
+				pos: position{line: 2473, col: 5, offset: 79584},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2471, col: 5, offset: 79483},
+					pos: position{line: 2473, col: 5, offset: 79584},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2471, col: 5, offset: 79483},
+							pos: position{line: 2473, col: 5, offset: 79584},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2474, col: 5, offset: 79560},
+							pos:   position{line: 2476, col: 5, offset: 79661},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2475, col: 9, offset: 79578},
+								pos: position{line: 2477, col: 9, offset: 79679},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1385, col: 26, offset: 44177},
+										pos: position{line: 1387, col: 26, offset: 44278},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1385, col: 26, offset: 44177},
+											pos: position{line: 1387, col: 26, offset: 44278},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1383, col: 32, offset: 44145},
+													pos:        position{line: 1385, col: 32, offset: 44246},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1385, col: 54, offset: 44205},
+													pos:   position{line: 1387, col: 54, offset: 44306},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1389, col: 33, offset: 44418},
+														pos: position{line: 1391, col: 33, offset: 44519},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1389, col: 34, offset: 44419},
+																pos: position{line: 1391, col: 34, offset: 44520},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1389, col: 34, offset: 44419},
+																	pos: position{line: 1391, col: 34, offset: 44520},
 																	expr: &seqExpr{
-																		pos: position{line: 1389, col: 35, offset: 44420},
+																		pos: position{line: 1391, col: 35, offset: 44521},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1389, col: 35, offset: 44420},
+																				pos: position{line: 1391, col: 35, offset: 44521},
 																				expr: &litMatcher{
-																					pos:        position{line: 1383, col: 32, offset: 44145},
+																					pos:        position{line: 1385, col: 32, offset: 44246},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1389, col: 64, offset: 44449,
+																				line: 1391, col: 64, offset: 44550,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1391, col: 11, offset: 44622},
+																pos: position{line: 1393, col: 11, offset: 44723},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1391, col: 11, offset: 44622},
+																	pos: position{line: 1393, col: 11, offset: 44723},
 																	expr: &seqExpr{
-																		pos: position{line: 1391, col: 12, offset: 44623},
+																		pos: position{line: 1393, col: 12, offset: 44724},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1391, col: 12, offset: 44623},
+																				pos: position{line: 1393, col: 12, offset: 44724},
 																				expr: &actionExpr{
-																					pos: position{line: 2910, col: 10, offset: 91824},
+																					pos: position{line: 2912, col: 10, offset: 91925},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2910, col: 10, offset: 91824},
+																						pos:        position{line: 2912, col: 10, offset: 91925},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46619,27 +46619,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1391, col: 19, offset: 44630},
+																				pos: position{line: 1393, col: 19, offset: 44731},
 																				expr: &actionExpr{
-																					pos: position{line: 2919, col: 12, offset: 91995},
+																					pos: position{line: 2921, col: 12, offset: 92096},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2919, col: 13, offset: 91996},
+																						pos: position{line: 2921, col: 13, offset: 92097},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 13, offset: 91996},
+																								pos:        position{line: 2921, col: 13, offset: 92097},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 20, offset: 92003},
+																								pos:        position{line: 2921, col: 20, offset: 92104},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2919, col: 29, offset: 92012},
+																								pos:        position{line: 2921, col: 29, offset: 92113},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46649,16 +46649,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1391, col: 28, offset: 44639},
+																				pos: position{line: 1393, col: 28, offset: 44740},
 																				expr: &litMatcher{
-																					pos:        position{line: 1383, col: 32, offset: 44145},
+																					pos:        position{line: 1385, col: 32, offset: 44246},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1391, col: 57, offset: 44668,
+																				line: 1393, col: 57, offset: 44769,
 																			},
 																		},
 																	},
@@ -46668,15 +46668,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1383, col: 32, offset: 44145},
+													pos:        position{line: 1385, col: 32, offset: 44246},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1385, col: 121, offset: 44272},
+													pos: position{line: 1387, col: 121, offset: 44373},
 													expr: &charClassMatcher{
-														pos:        position{line: 2800, col: 13, offset: 88919},
+														pos:        position{line: 2802, col: 13, offset: 89020},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46687,45 +46687,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1373, col: 26, offset: 43460},
+										pos: position{line: 1375, col: 26, offset: 43561},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1373, col: 26, offset: 43460},
+											pos: position{line: 1375, col: 26, offset: 43561},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1371, col: 32, offset: 43430},
+													pos:        position{line: 1373, col: 32, offset: 43531},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1373, col: 54, offset: 43488},
+													pos:   position{line: 1375, col: 54, offset: 43589},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1377, col: 33, offset: 43701},
+														pos: position{line: 1379, col: 33, offset: 43802},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1377, col: 34, offset: 43702},
+																pos: position{line: 1379, col: 34, offset: 43803},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1377, col: 34, offset: 43702},
+																	pos: position{line: 1379, col: 34, offset: 43803},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1377, col: 35, offset: 43703},
+																			pos: position{line: 1379, col: 35, offset: 43804},
 																			expr: &litMatcher{
-																				pos:        position{line: 1371, col: 32, offset: 43430},
+																				pos:        position{line: 1373, col: 32, offset: 43531},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1377, col: 64, offset: 43732},
+																			pos: position{line: 1379, col: 64, offset: 43833},
 																			expr: &actionExpr{
-																				pos: position{line: 2910, col: 10, offset: 91824},
+																				pos: position{line: 2912, col: 10, offset: 91925},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2910, col: 10, offset: 91824},
+																					pos:        position{line: 2912, col: 10, offset: 91925},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46734,27 +46734,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1377, col: 71, offset: 43739},
+																			pos: position{line: 1379, col: 71, offset: 43840},
 																			expr: &actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46764,25 +46764,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1377, col: 80, offset: 43748,
+																			line: 1379, col: 80, offset: 43849,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1377, col: 83, offset: 43751},
+																			pos: position{line: 1379, col: 83, offset: 43852},
 																			expr: &seqExpr{
-																				pos: position{line: 1377, col: 84, offset: 43752},
+																				pos: position{line: 1379, col: 84, offset: 43853},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1377, col: 84, offset: 43752},
+																						pos: position{line: 1379, col: 84, offset: 43853},
 																						expr: &seqExpr{
-																							pos: position{line: 1377, col: 86, offset: 43754},
+																							pos: position{line: 1379, col: 86, offset: 43855},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 11, offset: 91885},
+																									pos: position{line: 2916, col: 11, offset: 91986},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2914, col: 11, offset: 91885},
+																										pos: position{line: 2916, col: 11, offset: 91986},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2914, col: 11, offset: 91885},
+																											pos:        position{line: 2916, col: 11, offset: 91986},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46791,7 +46791,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1371, col: 32, offset: 43430},
+																									pos:        position{line: 1373, col: 32, offset: 43531},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -46800,36 +46800,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1377, col: 122, offset: 43790},
+																						pos: position{line: 1379, col: 122, offset: 43891},
 																						expr: &litMatcher{
-																							pos:        position{line: 1371, col: 32, offset: 43430},
+																							pos:        position{line: 1373, col: 32, offset: 43531},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1377, col: 151, offset: 43819},
+																						pos: position{line: 1379, col: 151, offset: 43920},
 																						expr: &actionExpr{
-																							pos: position{line: 2919, col: 12, offset: 91995},
+																							pos: position{line: 2921, col: 12, offset: 92096},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2919, col: 13, offset: 91996},
+																								pos: position{line: 2921, col: 13, offset: 92097},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 13, offset: 91996},
+																										pos:        position{line: 2921, col: 13, offset: 92097},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 20, offset: 92003},
+																										pos:        position{line: 2921, col: 20, offset: 92104},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2919, col: 29, offset: 92012},
+																										pos:        position{line: 2921, col: 29, offset: 92113},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46839,7 +46839,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1377, col: 160, offset: 43828,
+																						line: 1379, col: 160, offset: 43929,
 																					},
 																				},
 																			},
@@ -46848,18 +46848,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1379, col: 11, offset: 43978},
+																pos: position{line: 1381, col: 11, offset: 44079},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1379, col: 12, offset: 43979},
+																	pos: position{line: 1381, col: 12, offset: 44080},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1379, col: 12, offset: 43979},
+																			pos: position{line: 1381, col: 12, offset: 44080},
 																			expr: &actionExpr{
-																				pos: position{line: 2910, col: 10, offset: 91824},
+																				pos: position{line: 2912, col: 10, offset: 91925},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2910, col: 10, offset: 91824},
+																					pos:        position{line: 2912, col: 10, offset: 91925},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46868,27 +46868,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1379, col: 19, offset: 43986},
+																			pos: position{line: 1381, col: 19, offset: 44087},
 																			expr: &actionExpr{
-																				pos: position{line: 2919, col: 12, offset: 91995},
+																				pos: position{line: 2921, col: 12, offset: 92096},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2919, col: 13, offset: 91996},
+																					pos: position{line: 2921, col: 13, offset: 92097},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 13, offset: 91996},
+																							pos:        position{line: 2921, col: 13, offset: 92097},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 20, offset: 92003},
+																							pos:        position{line: 2921, col: 20, offset: 92104},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2919, col: 29, offset: 92012},
+																							pos:        position{line: 2921, col: 29, offset: 92113},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46898,16 +46898,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1379, col: 28, offset: 43995},
+																			pos: position{line: 1381, col: 28, offset: 44096},
 																			expr: &litMatcher{
-																				pos:        position{line: 1371, col: 32, offset: 43430},
+																				pos:        position{line: 1373, col: 32, offset: 43531},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1379, col: 57, offset: 44024,
+																			line: 1381, col: 57, offset: 44125,
 																		},
 																	},
 																},
@@ -46916,15 +46916,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1371, col: 32, offset: 43430},
+													pos:        position{line: 1373, col: 32, offset: 43531},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1373, col: 121, offset: 43555},
+													pos: position{line: 1375, col: 121, offset: 43656},
 													expr: &charClassMatcher{
-														pos:        position{line: 2800, col: 13, offset: 88919},
+														pos:        position{line: 2802, col: 13, offset: 89020},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46935,7 +46935,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2475, col: 57, offset: 79626},
+										pos:  position{line: 2477, col: 57, offset: 79727},
 										name: "PassthroughMacro",
 									},
 								},
@@ -46947,16 +46947,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2480, col: 1, offset: 79686},
+			pos:  position{line: 2482, col: 1, offset: 79787},
 			expr: &seqExpr{
-				pos: position{line: 2482, col: 5, offset: 79762},
+				pos: position{line: 2484, col: 5, offset: 79863},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2482, col: 5, offset: 79762},
+						pos: position{line: 2484, col: 5, offset: 79863},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2485, col: 5, offset: 79827},
+						pos:  position{line: 2487, col: 5, offset: 79928},
 						name: "QuotedText",
 					},
 				},
@@ -46964,22 +46964,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2487, col: 1, offset: 79840},
+			pos:  position{line: 2489, col: 1, offset: 79941},
 			expr: &actionExpr{
-				pos: position{line: 2489, col: 5, offset: 79922},
+				pos: position{line: 2491, col: 5, offset: 80023},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2489, col: 5, offset: 79922},
+					pos: position{line: 2491, col: 5, offset: 80023},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2489, col: 5, offset: 79922},
+							pos: position{line: 2491, col: 5, offset: 80023},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2492, col: 5, offset: 79993},
+							pos:   position{line: 2494, col: 5, offset: 80094},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2493, col: 9, offset: 80011},
+								pos:  position{line: 2495, col: 9, offset: 80112},
 								name: "Symbol",
 							},
 						},
@@ -46989,103 +46989,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2548, col: 1, offset: 81798},
+			pos:  position{line: 2550, col: 1, offset: 81899},
 			expr: &choiceExpr{
-				pos: position{line: 2550, col: 5, offset: 81828},
+				pos: position{line: 2552, col: 5, offset: 81929},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2550, col: 5, offset: 81828},
+						pos: position{line: 2552, col: 5, offset: 81929},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2550, col: 5, offset: 81828},
+							pos: position{line: 2552, col: 5, offset: 81929},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2550, col: 5, offset: 81828},
+									pos:        position{line: 2552, col: 5, offset: 81929},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2550, col: 10, offset: 81833},
+									pos: position{line: 2552, col: 10, offset: 81934},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2550, col: 10, offset: 81833},
+											pos:  position{line: 2552, col: 10, offset: 81934},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2579, col: 14, offset: 82937},
+											pos: position{line: 2581, col: 14, offset: 83038},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2579, col: 14, offset: 82937},
+												pos:        position{line: 2581, col: 14, offset: 83038},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2583, col: 14, offset: 83003},
+											pos: position{line: 2585, col: 14, offset: 83104},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2583, col: 14, offset: 83003},
+												pos:        position{line: 2585, col: 14, offset: 83104},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2587, col: 15, offset: 83072},
+											pos: position{line: 2589, col: 15, offset: 83173},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2587, col: 15, offset: 83072},
+												pos:        position{line: 2589, col: 15, offset: 83173},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2591, col: 13, offset: 83137},
+											pos: position{line: 2593, col: 13, offset: 83238},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2591, col: 13, offset: 83137},
+												pos:        position{line: 2593, col: 13, offset: 83238},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2619, col: 21, offset: 83707},
+											pos: position{line: 2621, col: 21, offset: 83808},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2619, col: 21, offset: 83707},
+												pos:        position{line: 2621, col: 21, offset: 83808},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2598, col: 5, offset: 83293},
+											pos: position{line: 2600, col: 5, offset: 83394},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2598, col: 5, offset: 83293},
+												pos: position{line: 2600, col: 5, offset: 83394},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2598, col: 5, offset: 83293},
+														pos:        position{line: 2600, col: 5, offset: 83394},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2599, col: 5, offset: 83303},
+														pos: position{line: 2601, col: 5, offset: 83404},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2603, col: 6, offset: 83390},
+														pos: position{line: 2605, col: 6, offset: 83491},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2910, col: 10, offset: 91824},
+																pos: position{line: 2912, col: 10, offset: 91925},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2910, col: 10, offset: 91824},
+																	pos:        position{line: 2912, col: 10, offset: 91925},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47093,30 +47093,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2603, col: 14, offset: 83398},
+																pos: position{line: 2605, col: 14, offset: 83499},
 																expr: &choiceExpr{
-																	pos: position{line: 2932, col: 8, offset: 92222},
+																	pos: position{line: 2934, col: 8, offset: 92323},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2919, col: 12, offset: 91995},
+																			pos: position{line: 2921, col: 12, offset: 92096},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2919, col: 13, offset: 91996},
+																				pos: position{line: 2921, col: 13, offset: 92097},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 13, offset: 91996},
+																						pos:        position{line: 2921, col: 13, offset: 92097},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 20, offset: 92003},
+																						pos:        position{line: 2921, col: 20, offset: 92104},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2919, col: 29, offset: 92012},
+																						pos:        position{line: 2921, col: 29, offset: 92113},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47125,9 +47125,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2929, col: 8, offset: 92172},
+																			pos: position{line: 2931, col: 8, offset: 92273},
 																			expr: &anyMatcher{
-																				line: 2929, col: 9, offset: 92173,
+																				line: 2931, col: 9, offset: 92274,
 																			},
 																		},
 																	},
@@ -47139,53 +47139,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2608, col: 5, offset: 83518},
+											pos: position{line: 2610, col: 5, offset: 83619},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2608, col: 5, offset: 83518},
+												pos: position{line: 2610, col: 5, offset: 83619},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2608, col: 5, offset: 83518},
+														pos:        position{line: 2610, col: 5, offset: 83619},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2609, col: 5, offset: 83528},
+														pos: position{line: 2611, col: 5, offset: 83629},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2613, col: 5, offset: 83617},
+														pos: position{line: 2615, col: 5, offset: 83718},
 														expr: &choiceExpr{
-															pos: position{line: 2613, col: 7, offset: 83619},
+															pos: position{line: 2615, col: 7, offset: 83720},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2800, col: 13, offset: 88919},
+																	pos:        position{line: 2802, col: 13, offset: 89020},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2919, col: 12, offset: 91995},
+																	pos: position{line: 2921, col: 12, offset: 92096},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2919, col: 13, offset: 91996},
+																		pos: position{line: 2921, col: 13, offset: 92097},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2919, col: 13, offset: 91996},
+																				pos:        position{line: 2921, col: 13, offset: 92097},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2919, col: 20, offset: 92003},
+																				pos:        position{line: 2921, col: 20, offset: 92104},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2919, col: 29, offset: 92012},
+																				pos:        position{line: 2921, col: 29, offset: 92113},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47194,9 +47194,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2929, col: 8, offset: 92172},
+																	pos: position{line: 2931, col: 8, offset: 92273},
 																	expr: &anyMatcher{
-																		line: 2929, col: 9, offset: 92173,
+																		line: 2931, col: 9, offset: 92274,
 																	},
 																},
 															},
@@ -47206,30 +47206,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2623, col: 20, offset: 83777},
+											pos: position{line: 2625, col: 20, offset: 83878},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2623, col: 20, offset: 83777},
+												pos:        position{line: 2625, col: 20, offset: 83878},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2627, col: 21, offset: 83848},
+											pos: position{line: 2629, col: 21, offset: 83949},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2627, col: 21, offset: 83848},
+												pos:        position{line: 2629, col: 21, offset: 83949},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2631, col: 20, offset: 83918},
+											pos: position{line: 2633, col: 20, offset: 84019},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2631, col: 20, offset: 83918},
+												pos:        position{line: 2633, col: 20, offset: 84019},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -47241,73 +47241,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2554, col: 7, offset: 82088},
+						pos:  position{line: 2556, col: 7, offset: 82189},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2579, col: 14, offset: 82937},
+						pos: position{line: 2581, col: 14, offset: 83038},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2579, col: 14, offset: 82937},
+							pos:        position{line: 2581, col: 14, offset: 83038},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2583, col: 14, offset: 83003},
+						pos: position{line: 2585, col: 14, offset: 83104},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2583, col: 14, offset: 83003},
+							pos:        position{line: 2585, col: 14, offset: 83104},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2587, col: 15, offset: 83072},
+						pos: position{line: 2589, col: 15, offset: 83173},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2587, col: 15, offset: 83072},
+							pos:        position{line: 2589, col: 15, offset: 83173},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2591, col: 13, offset: 83137},
+						pos: position{line: 2593, col: 13, offset: 83238},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2591, col: 13, offset: 83137},
+							pos:        position{line: 2593, col: 13, offset: 83238},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2598, col: 5, offset: 83293},
+						pos: position{line: 2600, col: 5, offset: 83394},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2598, col: 5, offset: 83293},
+							pos: position{line: 2600, col: 5, offset: 83394},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2598, col: 5, offset: 83293},
+									pos:        position{line: 2600, col: 5, offset: 83394},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2599, col: 5, offset: 83303},
+									pos: position{line: 2601, col: 5, offset: 83404},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2603, col: 6, offset: 83390},
+									pos: position{line: 2605, col: 6, offset: 83491},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2910, col: 10, offset: 91824},
+											pos: position{line: 2912, col: 10, offset: 91925},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2910, col: 10, offset: 91824},
+												pos:        position{line: 2912, col: 10, offset: 91925},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47315,30 +47315,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2603, col: 14, offset: 83398},
+											pos: position{line: 2605, col: 14, offset: 83499},
 											expr: &choiceExpr{
-												pos: position{line: 2932, col: 8, offset: 92222},
+												pos: position{line: 2934, col: 8, offset: 92323},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2919, col: 12, offset: 91995},
+														pos: position{line: 2921, col: 12, offset: 92096},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2919, col: 13, offset: 91996},
+															pos: position{line: 2921, col: 13, offset: 92097},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2919, col: 13, offset: 91996},
+																	pos:        position{line: 2921, col: 13, offset: 92097},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2919, col: 20, offset: 92003},
+																	pos:        position{line: 2921, col: 20, offset: 92104},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2919, col: 29, offset: 92012},
+																	pos:        position{line: 2921, col: 29, offset: 92113},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47347,9 +47347,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2929, col: 8, offset: 92172},
+														pos: position{line: 2931, col: 8, offset: 92273},
 														expr: &anyMatcher{
-															line: 2929, col: 9, offset: 92173,
+															line: 2931, col: 9, offset: 92274,
 														},
 													},
 												},
@@ -47361,53 +47361,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2608, col: 5, offset: 83518},
+						pos: position{line: 2610, col: 5, offset: 83619},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2608, col: 5, offset: 83518},
+							pos: position{line: 2610, col: 5, offset: 83619},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2608, col: 5, offset: 83518},
+									pos:        position{line: 2610, col: 5, offset: 83619},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2609, col: 5, offset: 83528},
+									pos: position{line: 2611, col: 5, offset: 83629},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2613, col: 5, offset: 83617},
+									pos: position{line: 2615, col: 5, offset: 83718},
 									expr: &choiceExpr{
-										pos: position{line: 2613, col: 7, offset: 83619},
+										pos: position{line: 2615, col: 7, offset: 83720},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2800, col: 13, offset: 88919},
+												pos:        position{line: 2802, col: 13, offset: 89020},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2919, col: 12, offset: 91995},
+												pos: position{line: 2921, col: 12, offset: 92096},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2919, col: 13, offset: 91996},
+													pos: position{line: 2921, col: 13, offset: 92097},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2919, col: 13, offset: 91996},
+															pos:        position{line: 2921, col: 13, offset: 92097},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2919, col: 20, offset: 92003},
+															pos:        position{line: 2921, col: 20, offset: 92104},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2919, col: 29, offset: 92012},
+															pos:        position{line: 2921, col: 29, offset: 92113},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47416,9 +47416,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2929, col: 8, offset: 92172},
+												pos: position{line: 2931, col: 8, offset: 92273},
 												expr: &anyMatcher{
-													line: 2929, col: 9, offset: 92173,
+													line: 2931, col: 9, offset: 92274,
 												},
 											},
 										},
@@ -47428,40 +47428,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2619, col: 21, offset: 83707},
+						pos: position{line: 2621, col: 21, offset: 83808},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2619, col: 21, offset: 83707},
+							pos:        position{line: 2621, col: 21, offset: 83808},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2623, col: 20, offset: 83777},
+						pos: position{line: 2625, col: 20, offset: 83878},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2623, col: 20, offset: 83777},
+							pos:        position{line: 2625, col: 20, offset: 83878},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2627, col: 21, offset: 83848},
+						pos: position{line: 2629, col: 21, offset: 83949},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2627, col: 21, offset: 83848},
+							pos:        position{line: 2629, col: 21, offset: 83949},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2631, col: 20, offset: 83918},
+						pos: position{line: 2633, col: 20, offset: 84019},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2631, col: 20, offset: 83918},
+							pos:        position{line: 2633, col: 20, offset: 84019},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -47472,43 +47472,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2565, col: 1, offset: 82278},
+			pos:  position{line: 2567, col: 1, offset: 82379},
 			expr: &choiceExpr{
-				pos: position{line: 2566, col: 5, offset: 82300},
+				pos: position{line: 2568, col: 5, offset: 82401},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2566, col: 5, offset: 82300},
+						pos: position{line: 2568, col: 5, offset: 82401},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2566, col: 5, offset: 82300},
+							pos: position{line: 2568, col: 5, offset: 82401},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2566, col: 5, offset: 82300},
+									pos:        position{line: 2568, col: 5, offset: 82401},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2566, col: 11, offset: 82306},
+									pos: position{line: 2568, col: 11, offset: 82407},
 									expr: &seqExpr{
-										pos: position{line: 2107, col: 5, offset: 67896},
+										pos: position{line: 2109, col: 5, offset: 67997},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2107, col: 5, offset: 67896},
+												pos:        position{line: 2109, col: 5, offset: 67997},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2108, col: 5, offset: 67905},
+												pos: position{line: 2110, col: 5, offset: 68006},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2112, col: 5, offset: 68028},
+												pos: position{line: 2114, col: 5, offset: 68129},
 												expr: &notExpr{
-													pos: position{line: 2112, col: 7, offset: 68030},
+													pos: position{line: 2114, col: 7, offset: 68131},
 													expr: &litMatcher{
-														pos:        position{line: 2112, col: 8, offset: 68031},
+														pos:        position{line: 2114, col: 8, offset: 68132},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47522,21 +47522,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2569, col: 7, offset: 82459},
+						pos: position{line: 2571, col: 7, offset: 82560},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2569, col: 7, offset: 82459},
+							pos: position{line: 2571, col: 7, offset: 82560},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2569, col: 7, offset: 82459},
+									pos:        position{line: 2571, col: 7, offset: 82560},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2569, col: 13, offset: 82465},
+									pos: position{line: 2571, col: 13, offset: 82566},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2569, col: 14, offset: 82466},
+										pos:  position{line: 2571, col: 14, offset: 82567},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47544,38 +47544,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2572, col: 7, offset: 82616},
+						pos: position{line: 2574, col: 7, offset: 82717},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2572, col: 7, offset: 82616},
+							pos: position{line: 2574, col: 7, offset: 82717},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2572, col: 7, offset: 82616},
+									pos:        position{line: 2574, col: 7, offset: 82717},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2572, col: 12, offset: 82621},
+									pos: position{line: 2574, col: 12, offset: 82722},
 									expr: &seqExpr{
-										pos: position{line: 2107, col: 5, offset: 67896},
+										pos: position{line: 2109, col: 5, offset: 67997},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2107, col: 5, offset: 67896},
+												pos:        position{line: 2109, col: 5, offset: 67997},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2108, col: 5, offset: 67905},
+												pos: position{line: 2110, col: 5, offset: 68006},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2112, col: 5, offset: 68028},
+												pos: position{line: 2114, col: 5, offset: 68129},
 												expr: &notExpr{
-													pos: position{line: 2112, col: 7, offset: 68030},
+													pos: position{line: 2114, col: 7, offset: 68131},
 													expr: &litMatcher{
-														pos:        position{line: 2112, col: 8, offset: 68031},
+														pos:        position{line: 2114, col: 8, offset: 68132},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47589,21 +47589,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2575, col: 7, offset: 82774},
+						pos: position{line: 2577, col: 7, offset: 82875},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2575, col: 7, offset: 82774},
+							pos: position{line: 2577, col: 7, offset: 82875},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2575, col: 7, offset: 82774},
+									pos:        position{line: 2577, col: 7, offset: 82875},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2575, col: 12, offset: 82779},
+									pos: position{line: 2577, col: 12, offset: 82880},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2575, col: 13, offset: 82780},
+										pos:  position{line: 2577, col: 13, offset: 82881},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47615,63 +47615,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2715, col: 1, offset: 85999},
+			pos:  position{line: 2717, col: 1, offset: 86100},
 			expr: &actionExpr{
-				pos: position{line: 2715, col: 26, offset: 86024},
+				pos: position{line: 2717, col: 26, offset: 86125},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2715, col: 26, offset: 86024},
+					pos: position{line: 2717, col: 26, offset: 86125},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2715, col: 26, offset: 86024},
+							pos:   position{line: 2717, col: 26, offset: 86125},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2715, col: 31, offset: 86029},
+								pos: position{line: 2717, col: 31, offset: 86130},
 								expr: &actionExpr{
-									pos: position{line: 2720, col: 5, offset: 86092},
+									pos: position{line: 2722, col: 5, offset: 86193},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2720, col: 5, offset: 86092},
+										pos: position{line: 2722, col: 5, offset: 86193},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2927, col: 11, offset: 92158},
+												pos: position{line: 2929, col: 11, offset: 92259},
 												expr: &anyMatcher{
-													line: 2927, col: 13, offset: 92160,
+													line: 2929, col: 13, offset: 92261,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2723, col: 5, offset: 86218},
+												pos:   position{line: 2725, col: 5, offset: 86319},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2723, col: 16, offset: 86229},
+													pos: position{line: 2725, col: 16, offset: 86330},
 													expr: &actionExpr{
-														pos: position{line: 2723, col: 17, offset: 86230},
+														pos: position{line: 2725, col: 17, offset: 86331},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2723, col: 17, offset: 86230},
+															pos: position{line: 2725, col: 17, offset: 86331},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2723, col: 17, offset: 86230},
+																	pos:   position{line: 2725, col: 17, offset: 86331},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2902, col: 12, offset: 91651},
+																		pos: position{line: 2904, col: 12, offset: 91752},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2902, col: 13, offset: 91652},
+																			pos: position{line: 2904, col: 13, offset: 91753},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2902, col: 13, offset: 91652},
+																					pos: position{line: 2904, col: 13, offset: 91753},
 																					expr: &litMatcher{
-																						pos:        position{line: 2902, col: 13, offset: 91652},
+																						pos:        position{line: 2904, col: 13, offset: 91753},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2902, col: 18, offset: 91657},
+																					pos: position{line: 2904, col: 18, offset: 91758},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2902, col: 18, offset: 91657},
+																						pos:        position{line: 2904, col: 18, offset: 91758},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47683,7 +47683,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2723, col: 27, offset: 86240},
+																	pos:        position{line: 2725, col: 27, offset: 86341},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47694,38 +47694,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2724, col: 5, offset: 86268},
+												pos:   position{line: 2726, col: 5, offset: 86369},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2724, col: 12, offset: 86275},
+													pos: position{line: 2726, col: 12, offset: 86376},
 													expr: &choiceExpr{
-														pos: position{line: 2725, col: 9, offset: 86285},
+														pos: position{line: 2727, col: 9, offset: 86386},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2725, col: 9, offset: 86285},
+																pos: position{line: 2727, col: 9, offset: 86386},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2725, col: 9, offset: 86285},
+																	pos:        position{line: 2727, col: 9, offset: 86386},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2726, col: 11, offset: 86332},
+																pos: position{line: 2728, col: 11, offset: 86433},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2726, col: 11, offset: 86332},
+																	pos:        position{line: 2728, col: 11, offset: 86433},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2727, col: 11, offset: 86380},
+																pos: position{line: 2729, col: 11, offset: 86481},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2727, col: 11, offset: 86380},
+																	pos:        position{line: 2729, col: 11, offset: 86481},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47736,38 +47736,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2729, col: 5, offset: 86430},
+												pos:   position{line: 2731, col: 5, offset: 86531},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2729, col: 12, offset: 86437},
+													pos: position{line: 2731, col: 12, offset: 86538},
 													expr: &choiceExpr{
-														pos: position{line: 2730, col: 9, offset: 86447},
+														pos: position{line: 2732, col: 9, offset: 86548},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2730, col: 9, offset: 86447},
+																pos: position{line: 2732, col: 9, offset: 86548},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2730, col: 9, offset: 86447},
+																	pos:        position{line: 2732, col: 9, offset: 86548},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2731, col: 11, offset: 86494},
+																pos: position{line: 2733, col: 11, offset: 86595},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2731, col: 11, offset: 86494},
+																	pos:        position{line: 2733, col: 11, offset: 86595},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2732, col: 11, offset: 86544},
+																pos: position{line: 2734, col: 11, offset: 86645},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2732, col: 11, offset: 86544},
+																	pos:        position{line: 2734, col: 11, offset: 86645},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47778,32 +47778,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2734, col: 5, offset: 86595},
+												pos:   position{line: 2736, col: 5, offset: 86696},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2734, col: 12, offset: 86602},
+													pos: position{line: 2736, col: 12, offset: 86703},
 													expr: &choiceExpr{
-														pos: position{line: 2734, col: 13, offset: 86603},
+														pos: position{line: 2736, col: 13, offset: 86704},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2902, col: 12, offset: 91651},
+																pos: position{line: 2904, col: 12, offset: 91752},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2902, col: 13, offset: 91652},
+																	pos: position{line: 2904, col: 13, offset: 91753},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2902, col: 13, offset: 91652},
+																			pos: position{line: 2904, col: 13, offset: 91753},
 																			expr: &litMatcher{
-																				pos:        position{line: 2902, col: 13, offset: 91652},
+																				pos:        position{line: 2904, col: 13, offset: 91753},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2902, col: 18, offset: 91657},
+																			pos: position{line: 2904, col: 18, offset: 91758},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2902, col: 18, offset: 91657},
+																				pos:        position{line: 2904, col: 18, offset: 91758},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47814,10 +47814,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2734, col: 24, offset: 86614},
+																pos: position{line: 2736, col: 24, offset: 86715},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2734, col: 24, offset: 86614},
+																	pos:        position{line: 2736, col: 24, offset: 86715},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47828,15 +47828,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2735, col: 5, offset: 86656},
+												pos:   position{line: 2737, col: 5, offset: 86757},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2735, col: 11, offset: 86662},
+													pos: position{line: 2737, col: 11, offset: 86763},
 													expr: &actionExpr{
-														pos: position{line: 2735, col: 12, offset: 86663},
+														pos: position{line: 2737, col: 12, offset: 86764},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2735, col: 12, offset: 86663},
+															pos:        position{line: 2737, col: 12, offset: 86764},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47846,12 +47846,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2737, col: 5, offset: 86793},
+												pos:   position{line: 2739, col: 5, offset: 86894},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2737, col: 11, offset: 86799},
+													pos: position{line: 2739, col: 11, offset: 86900},
 													expr: &litMatcher{
-														pos:        position{line: 2737, col: 12, offset: 86800},
+														pos:        position{line: 2739, col: 12, offset: 86901},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47859,7 +47859,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2738, col: 5, offset: 86810},
+												pos: position{line: 2740, col: 5, offset: 86911},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47868,9 +47868,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2929, col: 8, offset: 92172},
+							pos: position{line: 2931, col: 8, offset: 92273},
 							expr: &anyMatcher{
-								line: 2929, col: 9, offset: 92173,
+								line: 2931, col: 9, offset: 92274,
 							},
 						},
 					},
@@ -47879,23 +47879,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2765, col: 1, offset: 87819},
+			pos:  position{line: 2767, col: 1, offset: 87920},
 			expr: &actionExpr{
-				pos: position{line: 2766, col: 5, offset: 87842},
+				pos: position{line: 2768, col: 5, offset: 87943},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2766, col: 5, offset: 87842},
+					pos: position{line: 2768, col: 5, offset: 87943},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2766, col: 5, offset: 87842},
+							pos:   position{line: 2768, col: 5, offset: 87943},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2789, col: 18, offset: 88583},
+								pos: position{line: 2791, col: 18, offset: 88684},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2789, col: 19, offset: 88584},
+									pos: position{line: 2791, col: 19, offset: 88685},
 									expr: &charClassMatcher{
-										pos:        position{line: 2789, col: 19, offset: 88584},
+										pos:        position{line: 2791, col: 19, offset: 88685},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47906,25 +47906,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2767, col: 5, offset: 87868},
+							pos: position{line: 2769, col: 5, offset: 87969},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2771, col: 5, offset: 87996},
+							pos:        position{line: 2773, col: 5, offset: 88097},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2772, col: 5, offset: 88006},
+							pos:   position{line: 2774, col: 5, offset: 88107},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2793, col: 19, offset: 88659},
+								pos: position{line: 2795, col: 19, offset: 88760},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2793, col: 19, offset: 88659},
+									pos: position{line: 2795, col: 19, offset: 88760},
 									expr: &charClassMatcher{
-										pos:        position{line: 2793, col: 19, offset: 88659},
+										pos:        position{line: 2795, col: 19, offset: 88760},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47934,36 +47934,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2773, col: 5, offset: 88034},
+							pos:   position{line: 2775, col: 5, offset: 88135},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2773, col: 17, offset: 88046},
+								pos:  position{line: 2775, col: 17, offset: 88147},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2932, col: 8, offset: 92222},
+							pos: position{line: 2934, col: 8, offset: 92323},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2919, col: 12, offset: 91995},
+									pos: position{line: 2921, col: 12, offset: 92096},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2919, col: 13, offset: 91996},
+										pos: position{line: 2921, col: 13, offset: 92097},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2919, col: 13, offset: 91996},
+												pos:        position{line: 2921, col: 13, offset: 92097},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2919, col: 20, offset: 92003},
+												pos:        position{line: 2921, col: 20, offset: 92104},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2919, col: 29, offset: 92012},
+												pos:        position{line: 2921, col: 29, offset: 92113},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -47972,9 +47972,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2929, col: 8, offset: 92172},
+									pos: position{line: 2931, col: 8, offset: 92273},
 									expr: &anyMatcher{
-										line: 2929, col: 9, offset: 92173,
+										line: 2931, col: 9, offset: 92274,
 									},
 								},
 							},
@@ -47985,23 +47985,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2777, col: 1, offset: 88194},
+			pos:  position{line: 2779, col: 1, offset: 88295},
 			expr: &actionExpr{
-				pos: position{line: 2778, col: 5, offset: 88218},
+				pos: position{line: 2780, col: 5, offset: 88319},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2778, col: 5, offset: 88218},
+					pos: position{line: 2780, col: 5, offset: 88319},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2778, col: 5, offset: 88218},
+							pos:   position{line: 2780, col: 5, offset: 88319},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2789, col: 18, offset: 88583},
+								pos: position{line: 2791, col: 18, offset: 88684},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2789, col: 19, offset: 88584},
+									pos: position{line: 2791, col: 19, offset: 88685},
 									expr: &charClassMatcher{
-										pos:        position{line: 2789, col: 19, offset: 88584},
+										pos:        position{line: 2791, col: 19, offset: 88685},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48012,25 +48012,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2779, col: 5, offset: 88244},
+							pos: position{line: 2781, col: 5, offset: 88345},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2783, col: 5, offset: 88372},
+							pos:        position{line: 2785, col: 5, offset: 88473},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2784, col: 5, offset: 88381},
+							pos:   position{line: 2786, col: 5, offset: 88482},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2793, col: 19, offset: 88659},
+								pos: position{line: 2795, col: 19, offset: 88760},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2793, col: 19, offset: 88659},
+									pos: position{line: 2795, col: 19, offset: 88760},
 									expr: &charClassMatcher{
-										pos:        position{line: 2793, col: 19, offset: 88659},
+										pos:        position{line: 2795, col: 19, offset: 88760},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48040,10 +48040,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2785, col: 5, offset: 88409},
+							pos:   position{line: 2787, col: 5, offset: 88510},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2785, col: 17, offset: 88421},
+								pos:  position{line: 2787, col: 17, offset: 88522},
 								name: "InlineAttributes",
 							},
 						},
@@ -48053,43 +48053,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2864, col: 1, offset: 90471},
+			pos:  position{line: 2866, col: 1, offset: 90572},
 			expr: &actionExpr{
-				pos: position{line: 2864, col: 17, offset: 90487},
+				pos: position{line: 2866, col: 17, offset: 90588},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2864, col: 17, offset: 90487},
+					pos:   position{line: 2866, col: 17, offset: 90588},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2881, col: 5, offset: 90941},
+						pos: position{line: 2883, col: 5, offset: 91042},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2881, col: 5, offset: 90941},
+							pos:   position{line: 2883, col: 5, offset: 91042},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2881, col: 14, offset: 90950},
+								pos: position{line: 2883, col: 14, offset: 91051},
 								expr: &choiceExpr{
-									pos: position{line: 2882, col: 9, offset: 90960},
+									pos: position{line: 2884, col: 9, offset: 91061},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2882, col: 9, offset: 90960},
+											pos: position{line: 2884, col: 9, offset: 91061},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2882, col: 9, offset: 90960},
+												pos: position{line: 2884, col: 9, offset: 91061},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2882, col: 9, offset: 90960},
+														pos: position{line: 2884, col: 9, offset: 91061},
 														expr: &litMatcher{
-															pos:        position{line: 2882, col: 10, offset: 90961},
+															pos:        position{line: 2884, col: 10, offset: 91062},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2883, col: 9, offset: 90989},
+														pos: position{line: 2885, col: 9, offset: 91090},
 														expr: &charClassMatcher{
-															pos:        position{line: 2883, col: 10, offset: 90990},
+															pos:        position{line: 2885, col: 10, offset: 91091},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -48100,27 +48100,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2886, col: 11, offset: 91202},
+											pos: position{line: 2888, col: 11, offset: 91303},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2886, col: 11, offset: 91202},
+													pos:        position{line: 2888, col: 11, offset: 91303},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2886, col: 19, offset: 91210},
+													pos: position{line: 2888, col: 19, offset: 91311},
 													expr: &seqExpr{
-														pos: position{line: 2886, col: 21, offset: 91212},
+														pos: position{line: 2888, col: 21, offset: 91313},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2886, col: 21, offset: 91212},
+																pos: position{line: 2888, col: 21, offset: 91313},
 																expr: &actionExpr{
-																	pos: position{line: 2910, col: 10, offset: 91824},
+																	pos: position{line: 2912, col: 10, offset: 91925},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2910, col: 10, offset: 91824},
+																		pos:        position{line: 2912, col: 10, offset: 91925},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48129,11 +48129,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2886, col: 28, offset: 91219},
+																pos: position{line: 2888, col: 28, offset: 91320},
 																expr: &notExpr{
-																	pos: position{line: 2929, col: 8, offset: 92172},
+																	pos: position{line: 2931, col: 8, offset: 92273},
 																	expr: &anyMatcher{
-																		line: 2929, col: 9, offset: 92173,
+																		line: 2931, col: 9, offset: 92274,
 																	},
 																},
 															},
@@ -48143,44 +48143,44 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 637, col: 5, offset: 20204},
+											pos: position{line: 639, col: 5, offset: 20305},
 											run: (*parser).callonFileLocation23,
 											expr: &seqExpr{
-												pos: position{line: 637, col: 5, offset: 20204},
+												pos: position{line: 639, col: 5, offset: 20305},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 637, col: 5, offset: 20204},
+														pos: position{line: 639, col: 5, offset: 20305},
 														run: (*parser).callonFileLocation25,
 													},
 													&labeledExpr{
-														pos:   position{line: 640, col: 5, offset: 20276},
+														pos:   position{line: 642, col: 5, offset: 20377},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 640, col: 14, offset: 20285},
+															pos: position{line: 642, col: 14, offset: 20386},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 646, col: 5, offset: 20414},
+																	pos: position{line: 648, col: 5, offset: 20515},
 																	run: (*parser).callonFileLocation28,
 																	expr: &seqExpr{
-																		pos: position{line: 646, col: 5, offset: 20414},
+																		pos: position{line: 648, col: 5, offset: 20515},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 646, col: 5, offset: 20414},
+																				pos:        position{line: 648, col: 5, offset: 20515},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 646, col: 13, offset: 20422},
+																				pos:   position{line: 648, col: 13, offset: 20523},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 320, col: 18, offset: 9837},
 																					run: (*parser).callonFileLocation32,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 320, col: 18, offset: 9837},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 320, col: 18, offset: 9837},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48188,9 +48188,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 320, col: 28, offset: 9847},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 320, col: 29, offset: 9848},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48203,7 +48203,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 646, col: 32, offset: 20441},
+																				pos:        position{line: 648, col: 32, offset: 20542},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48212,28 +48212,28 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 653, col: 5, offset: 20682},
+																	pos: position{line: 655, col: 5, offset: 20783},
 																	run: (*parser).callonFileLocation38,
 																	expr: &seqExpr{
-																		pos: position{line: 653, col: 5, offset: 20682},
+																		pos: position{line: 655, col: 5, offset: 20783},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 653, col: 5, offset: 20682},
+																				pos:        position{line: 655, col: 5, offset: 20783},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 653, col: 9, offset: 20686},
+																				pos:   position{line: 655, col: 9, offset: 20787},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 320, col: 18, offset: 9837},
 																					run: (*parser).callonFileLocation42,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 320, col: 18, offset: 9837},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 320, col: 18, offset: 9837},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48241,9 +48241,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 320, col: 28, offset: 9847},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 320, col: 29, offset: 9848},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48256,7 +48256,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 653, col: 28, offset: 20705},
+																				pos:        position{line: 655, col: 28, offset: 20806},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48265,28 +48265,28 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 659, col: 25, offset: 20886},
+																	pos: position{line: 661, col: 25, offset: 20987},
 																	run: (*parser).callonFileLocation48,
 																	expr: &seqExpr{
-																		pos: position{line: 659, col: 25, offset: 20886},
+																		pos: position{line: 661, col: 25, offset: 20987},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 659, col: 25, offset: 20886},
+																				pos:        position{line: 661, col: 25, offset: 20987},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 659, col: 37, offset: 20898},
+																				pos:   position{line: 661, col: 37, offset: 20999},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 320, col: 18, offset: 9837},
 																					run: (*parser).callonFileLocation52,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 320, col: 18, offset: 9837},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 320, col: 18, offset: 9837},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48294,9 +48294,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 320, col: 28, offset: 9847},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 320, col: 29, offset: 9848},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48309,33 +48309,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 659, col: 56, offset: 20917},
+																				pos:   position{line: 661, col: 56, offset: 21018},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 659, col: 62, offset: 20923},
+																					pos: position{line: 661, col: 62, offset: 21024},
 																					expr: &actionExpr{
-																						pos: position{line: 667, col: 17, offset: 21220},
+																						pos: position{line: 669, col: 17, offset: 21321},
 																						run: (*parser).callonFileLocation59,
 																						expr: &seqExpr{
-																							pos: position{line: 667, col: 17, offset: 21220},
+																							pos: position{line: 669, col: 17, offset: 21321},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 667, col: 17, offset: 21220},
+																									pos:        position{line: 669, col: 17, offset: 21321},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 667, col: 21, offset: 21224},
+																									pos:   position{line: 669, col: 21, offset: 21325},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 667, col: 28, offset: 21231},
+																										pos: position{line: 669, col: 28, offset: 21332},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 667, col: 28, offset: 21231},
+																												pos: position{line: 669, col: 28, offset: 21332},
 																												run: (*parser).callonFileLocation64,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 667, col: 28, offset: 21231},
+																													pos:        position{line: 669, col: 28, offset: 21332},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -48343,12 +48343,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 669, col: 9, offset: 21285},
+																												pos: position{line: 671, col: 9, offset: 21386},
 																												run: (*parser).callonFileLocation66,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 669, col: 9, offset: 21285},
+																													pos: position{line: 671, col: 9, offset: 21386},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 669, col: 9, offset: 21285},
+																														pos:        position{line: 671, col: 9, offset: 21386},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -48365,7 +48365,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 659, col: 78, offset: 20939},
+																				pos:        position{line: 661, col: 78, offset: 21040},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48374,28 +48374,28 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 663, col: 25, offset: 21057},
+																	pos: position{line: 665, col: 25, offset: 21158},
 																	run: (*parser).callonFileLocation70,
 																	expr: &seqExpr{
-																		pos: position{line: 663, col: 25, offset: 21057},
+																		pos: position{line: 665, col: 25, offset: 21158},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 663, col: 25, offset: 21057},
+																				pos:        position{line: 665, col: 25, offset: 21158},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 663, col: 38, offset: 21070},
+																				pos:   position{line: 665, col: 38, offset: 21171},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 320, col: 18, offset: 9837},
 																					run: (*parser).callonFileLocation74,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 320, col: 18, offset: 9837},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 320, col: 18, offset: 9837},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48403,9 +48403,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 320, col: 28, offset: 9847},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 320, col: 29, offset: 9848},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48418,33 +48418,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 663, col: 57, offset: 21089},
+																				pos:   position{line: 665, col: 57, offset: 21190},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 663, col: 63, offset: 21095},
+																					pos: position{line: 665, col: 63, offset: 21196},
 																					expr: &actionExpr{
-																						pos: position{line: 667, col: 17, offset: 21220},
+																						pos: position{line: 669, col: 17, offset: 21321},
 																						run: (*parser).callonFileLocation81,
 																						expr: &seqExpr{
-																							pos: position{line: 667, col: 17, offset: 21220},
+																							pos: position{line: 669, col: 17, offset: 21321},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 667, col: 17, offset: 21220},
+																									pos:        position{line: 669, col: 17, offset: 21321},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 667, col: 21, offset: 21224},
+																									pos:   position{line: 669, col: 21, offset: 21325},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 667, col: 28, offset: 21231},
+																										pos: position{line: 669, col: 28, offset: 21332},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 667, col: 28, offset: 21231},
+																												pos: position{line: 669, col: 28, offset: 21332},
 																												run: (*parser).callonFileLocation86,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 667, col: 28, offset: 21231},
+																													pos:        position{line: 669, col: 28, offset: 21332},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -48452,12 +48452,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 669, col: 9, offset: 21285},
+																												pos: position{line: 671, col: 9, offset: 21386},
 																												run: (*parser).callonFileLocation88,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 669, col: 9, offset: 21285},
+																													pos: position{line: 671, col: 9, offset: 21386},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 669, col: 9, offset: 21285},
+																														pos:        position{line: 671, col: 9, offset: 21386},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -48474,7 +48474,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 663, col: 79, offset: 21111},
+																				pos:        position{line: 665, col: 79, offset: 21212},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48489,27 +48489,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1199, col: 23, offset: 37069},
+											pos: position{line: 1201, col: 23, offset: 37170},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1199, col: 23, offset: 37069},
+												pos: position{line: 1201, col: 23, offset: 37170},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1197, col: 32, offset: 37037},
+														pos:        position{line: 1199, col: 32, offset: 37138},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1199, col: 51, offset: 37097},
+														pos:   position{line: 1201, col: 51, offset: 37198},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1199, col: 56, offset: 37102},
+															pos: position{line: 1201, col: 56, offset: 37203},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1199, col: 56, offset: 37102},
+																pos: position{line: 1201, col: 56, offset: 37203},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1199, col: 56, offset: 37102},
+																	pos:        position{line: 1201, col: 56, offset: 37203},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -48519,7 +48519,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1197, col: 32, offset: 37037},
+														pos:        position{line: 1199, col: 32, offset: 37138},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -48528,10 +48528,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2889, col: 11, offset: 91339},
+											pos: position{line: 2891, col: 11, offset: 91440},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2889, col: 11, offset: 91339},
+												pos:        position{line: 2891, col: 11, offset: 91440},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -50736,6 +50736,8 @@ func (p *parser) callonIncludedFileLine1() (interface{}, error) {
 func (c *current) onDocumentFragment8(attributes interface{}) error {
 	if attributes, ok := attributes.(types.Attributes); ok {
 		c.storeBlockAttributes(attributes)
+	} else {
+		c.storeBlockAttributes(nil) // discard attributes of the previous block
 	}
 	return nil
 
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index de5164a..525a0c4 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -230,6 +230,8 @@ DocumentFragment <-
     #{
         if attributes, ok := attributes.(types.Attributes); ok {
             c.storeBlockAttributes(attributes)
+        } else {
+            c.storeBlockAttributes(nil) // discard attributes of the previous block
         }
         return nil
     }
-- 
2.43.0


From 00469e4de4465ef51fce968eed6dce76bf0d89e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:04 +0000
Subject: [PATCH 30/75] fix: quotes kept in the value of empty quoted
 attributes

---
 pkg/parser/parser.go  | 18572 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |    10 +-
 2 files changed, 9297 insertions(+), 9285 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 4e0c71e..8079f40 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 49, offset: 11041},
 													expr: &actionExpr{
-														pos: position{line: 2912, col: 10, offset: 91925},
+														pos: position{line: 2918, col: 10, offset: 92139},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2912, col: 10, offset: 91925},
+															pos:        position{line: 2918, col: 10, offset: 92139},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2934, col: 8, offset: 92323},
+													pos: position{line: 2940, col: 8, offset: 92537},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2921, col: 12, offset: 92096},
+															pos: position{line: 2927, col: 12, offset: 92310},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2921, col: 13, offset: 92097},
+																pos: position{line: 2927, col: 13, offset: 92311},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 13, offset: 92097},
+																		pos:        position{line: 2927, col: 13, offset: 92311},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 20, offset: 92104},
+																		pos:        position{line: 2927, col: 20, offset: 92318},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 29, offset: 92113},
+																		pos:        position{line: 2927, col: 29, offset: 92327},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2931, col: 8, offset: 92273},
+															pos: position{line: 2937, col: 8, offset: 92487},
 															expr: &anyMatcher{
-																line: 2931, col: 9, offset: 92274,
+																line: 2937, col: 9, offset: 92488,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 364, col: 39, offset: 11162},
 													expr: &actionExpr{
-														pos: position{line: 2912, col: 10, offset: 91925},
+														pos: position{line: 2918, col: 10, offset: 92139},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2912, col: 10, offset: 91925},
+															pos:        position{line: 2918, col: 10, offset: 92139},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2934, col: 8, offset: 92323},
+													pos: position{line: 2940, col: 8, offset: 92537},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2921, col: 12, offset: 92096},
+															pos: position{line: 2927, col: 12, offset: 92310},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2921, col: 13, offset: 92097},
+																pos: position{line: 2927, col: 13, offset: 92311},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 13, offset: 92097},
+																		pos:        position{line: 2927, col: 13, offset: 92311},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 20, offset: 92104},
+																		pos:        position{line: 2927, col: 20, offset: 92318},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 29, offset: 92113},
+																		pos:        position{line: 2927, col: 29, offset: 92327},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2931, col: 8, offset: 92273},
+															pos: position{line: 2937, col: 8, offset: 92487},
 															expr: &anyMatcher{
-																line: 2931, col: 9, offset: 92274,
+																line: 2937, col: 9, offset: 92488,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2912, col: 10, offset: 91925},
+														pos: position{line: 2918, col: 10, offset: 92139},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2912, col: 10, offset: 91925},
+															pos:        position{line: 2918, col: 10, offset: 92139},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2931, col: 8, offset: 92273},
+													pos: position{line: 2937, col: 8, offset: 92487},
 													expr: &anyMatcher{
-														line: 2931, col: 9, offset: 92274,
+														line: 2937, col: 9, offset: 92488,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2912, col: 10, offset: 91925},
+														pos: position{line: 2918, col: 10, offset: 92139},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2912, col: 10, offset: 91925},
+															pos:        position{line: 2918, col: 10, offset: 92139},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2931, col: 8, offset: 92273},
+													pos: position{line: 2937, col: 8, offset: 92487},
 													expr: &anyMatcher{
-														line: 2931, col: 9, offset: 92274,
+														line: 2937, col: 9, offset: 92488,
 													},
 												},
 											},
@@ -464,22 +464,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 648, col: 5, offset: 20515},
+																				pos: position{line: 654, col: 5, offset: 20729},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 648, col: 5, offset: 20515},
+																						pos: position{line: 654, col: 5, offset: 20729},
 																						run: (*parser).callonDocumentRawLine97,
 																						expr: &seqExpr{
-																							pos: position{line: 648, col: 5, offset: 20515},
+																							pos: position{line: 654, col: 5, offset: 20729},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 648, col: 5, offset: 20515},
+																									pos:        position{line: 654, col: 5, offset: 20729},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 648, col: 13, offset: 20523},
+																									pos:   position{line: 654, col: 13, offset: 20737},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -511,7 +511,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 648, col: 32, offset: 20542},
+																									pos:        position{line: 654, col: 32, offset: 20756},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -520,19 +520,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 655, col: 5, offset: 20783},
+																						pos: position{line: 661, col: 5, offset: 20997},
 																						run: (*parser).callonDocumentRawLine107,
 																						expr: &seqExpr{
-																							pos: position{line: 655, col: 5, offset: 20783},
+																							pos: position{line: 661, col: 5, offset: 20997},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 655, col: 5, offset: 20783},
+																									pos:        position{line: 661, col: 5, offset: 20997},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 655, col: 9, offset: 20787},
+																									pos:   position{line: 661, col: 9, offset: 21001},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -564,7 +564,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 655, col: 28, offset: 20806},
+																									pos:        position{line: 661, col: 28, offset: 21020},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -600,22 +600,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 648, col: 5, offset: 20515},
+																				pos: position{line: 654, col: 5, offset: 20729},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 648, col: 5, offset: 20515},
+																						pos: position{line: 654, col: 5, offset: 20729},
 																						run: (*parser).callonDocumentRawLine123,
 																						expr: &seqExpr{
-																							pos: position{line: 648, col: 5, offset: 20515},
+																							pos: position{line: 654, col: 5, offset: 20729},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 648, col: 5, offset: 20515},
+																									pos:        position{line: 654, col: 5, offset: 20729},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 648, col: 13, offset: 20523},
+																									pos:   position{line: 654, col: 13, offset: 20737},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -647,7 +647,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 648, col: 32, offset: 20542},
+																									pos:        position{line: 654, col: 32, offset: 20756},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -656,19 +656,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 655, col: 5, offset: 20783},
+																						pos: position{line: 661, col: 5, offset: 20997},
 																						run: (*parser).callonDocumentRawLine133,
 																						expr: &seqExpr{
-																							pos: position{line: 655, col: 5, offset: 20783},
+																							pos: position{line: 661, col: 5, offset: 20997},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 655, col: 5, offset: 20783},
+																									pos:        position{line: 661, col: 5, offset: 20997},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 655, col: 9, offset: 20787},
+																									pos:   position{line: 661, col: 9, offset: 21001},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -700,7 +700,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 655, col: 28, offset: 20806},
+																									pos:        position{line: 661, col: 28, offset: 21020},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -727,22 +727,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 648, col: 5, offset: 20515},
+																		pos: position{line: 654, col: 5, offset: 20729},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 648, col: 5, offset: 20515},
+																				pos: position{line: 654, col: 5, offset: 20729},
 																				run: (*parser).callonDocumentRawLine147,
 																				expr: &seqExpr{
-																					pos: position{line: 648, col: 5, offset: 20515},
+																					pos: position{line: 654, col: 5, offset: 20729},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 648, col: 5, offset: 20515},
+																							pos:        position{line: 654, col: 5, offset: 20729},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 648, col: 13, offset: 20523},
+																							pos:   position{line: 654, col: 13, offset: 20737},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -774,7 +774,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 648, col: 32, offset: 20542},
+																							pos:        position{line: 654, col: 32, offset: 20756},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -783,19 +783,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 655, col: 5, offset: 20783},
+																				pos: position{line: 661, col: 5, offset: 20997},
 																				run: (*parser).callonDocumentRawLine157,
 																				expr: &seqExpr{
-																					pos: position{line: 655, col: 5, offset: 20783},
+																					pos: position{line: 661, col: 5, offset: 20997},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 655, col: 5, offset: 20783},
+																							pos:        position{line: 661, col: 5, offset: 20997},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 655, col: 9, offset: 20787},
+																							pos:   position{line: 661, col: 9, offset: 21001},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -827,7 +827,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 655, col: 28, offset: 20806},
+																							pos:        position{line: 661, col: 28, offset: 21020},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2904, col: 12, offset: 91752},
+																pos: position{line: 2910, col: 12, offset: 91966},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2904, col: 13, offset: 91753},
+																	pos: position{line: 2910, col: 13, offset: 91967},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2904, col: 13, offset: 91753},
+																			pos: position{line: 2910, col: 13, offset: 91967},
 																			expr: &litMatcher{
-																				pos:        position{line: 2904, col: 13, offset: 91753},
+																				pos:        position{line: 2910, col: 13, offset: 91967},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2904, col: 18, offset: 91758},
+																			pos: position{line: 2910, col: 18, offset: 91972},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2904, col: 18, offset: 91758},
+																				pos:        position{line: 2910, col: 18, offset: 91972},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2912, col: 10, offset: 91925},
+														pos: position{line: 2918, col: 10, offset: 92139},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2912, col: 10, offset: 91925},
+															pos:        position{line: 2918, col: 10, offset: 92139},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2912, col: 10, offset: 91925},
+														pos: position{line: 2918, col: 10, offset: 92139},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2912, col: 10, offset: 91925},
+															pos:        position{line: 2918, col: 10, offset: 92139},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1069,22 +1069,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 648, col: 5, offset: 20515},
+																				pos: position{line: 654, col: 5, offset: 20729},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 648, col: 5, offset: 20515},
+																						pos: position{line: 654, col: 5, offset: 20729},
 																						run: (*parser).callonDocumentRawLine216,
 																						expr: &seqExpr{
-																							pos: position{line: 648, col: 5, offset: 20515},
+																							pos: position{line: 654, col: 5, offset: 20729},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 648, col: 5, offset: 20515},
+																									pos:        position{line: 654, col: 5, offset: 20729},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 648, col: 13, offset: 20523},
+																									pos:   position{line: 654, col: 13, offset: 20737},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -1116,7 +1116,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 648, col: 32, offset: 20542},
+																									pos:        position{line: 654, col: 32, offset: 20756},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1125,19 +1125,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 655, col: 5, offset: 20783},
+																						pos: position{line: 661, col: 5, offset: 20997},
 																						run: (*parser).callonDocumentRawLine226,
 																						expr: &seqExpr{
-																							pos: position{line: 655, col: 5, offset: 20783},
+																							pos: position{line: 661, col: 5, offset: 20997},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 655, col: 5, offset: 20783},
+																									pos:        position{line: 661, col: 5, offset: 20997},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 655, col: 9, offset: 20787},
+																									pos:   position{line: 661, col: 9, offset: 21001},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -1169,7 +1169,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 655, col: 28, offset: 20806},
+																									pos:        position{line: 661, col: 28, offset: 21020},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1205,22 +1205,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 648, col: 5, offset: 20515},
+																				pos: position{line: 654, col: 5, offset: 20729},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 648, col: 5, offset: 20515},
+																						pos: position{line: 654, col: 5, offset: 20729},
 																						run: (*parser).callonDocumentRawLine242,
 																						expr: &seqExpr{
-																							pos: position{line: 648, col: 5, offset: 20515},
+																							pos: position{line: 654, col: 5, offset: 20729},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 648, col: 5, offset: 20515},
+																									pos:        position{line: 654, col: 5, offset: 20729},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 648, col: 13, offset: 20523},
+																									pos:   position{line: 654, col: 13, offset: 20737},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -1252,7 +1252,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 648, col: 32, offset: 20542},
+																									pos:        position{line: 654, col: 32, offset: 20756},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1261,19 +1261,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 655, col: 5, offset: 20783},
+																						pos: position{line: 661, col: 5, offset: 20997},
 																						run: (*parser).callonDocumentRawLine252,
 																						expr: &seqExpr{
-																							pos: position{line: 655, col: 5, offset: 20783},
+																							pos: position{line: 661, col: 5, offset: 20997},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 655, col: 5, offset: 20783},
+																									pos:        position{line: 661, col: 5, offset: 20997},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 655, col: 9, offset: 20787},
+																									pos:   position{line: 661, col: 9, offset: 21001},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -1305,7 +1305,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 655, col: 28, offset: 20806},
+																									pos:        position{line: 661, col: 28, offset: 21020},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1332,22 +1332,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 648, col: 5, offset: 20515},
+																		pos: position{line: 654, col: 5, offset: 20729},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 648, col: 5, offset: 20515},
+																				pos: position{line: 654, col: 5, offset: 20729},
 																				run: (*parser).callonDocumentRawLine266,
 																				expr: &seqExpr{
-																					pos: position{line: 648, col: 5, offset: 20515},
+																					pos: position{line: 654, col: 5, offset: 20729},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 648, col: 5, offset: 20515},
+																							pos:        position{line: 654, col: 5, offset: 20729},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 648, col: 13, offset: 20523},
+																							pos:   position{line: 654, col: 13, offset: 20737},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -1379,7 +1379,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 648, col: 32, offset: 20542},
+																							pos:        position{line: 654, col: 32, offset: 20756},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1388,19 +1388,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 655, col: 5, offset: 20783},
+																				pos: position{line: 661, col: 5, offset: 20997},
 																				run: (*parser).callonDocumentRawLine276,
 																				expr: &seqExpr{
-																					pos: position{line: 655, col: 5, offset: 20783},
+																					pos: position{line: 661, col: 5, offset: 20997},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 655, col: 5, offset: 20783},
+																							pos:        position{line: 661, col: 5, offset: 20997},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 655, col: 9, offset: 20787},
+																							pos:   position{line: 661, col: 9, offset: 21001},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -1432,7 +1432,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 655, col: 28, offset: 20806},
+																							pos:        position{line: 661, col: 28, offset: 21020},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2904, col: 12, offset: 91752},
+																pos: position{line: 2910, col: 12, offset: 91966},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2904, col: 13, offset: 91753},
+																	pos: position{line: 2910, col: 13, offset: 91967},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2904, col: 13, offset: 91753},
+																			pos: position{line: 2910, col: 13, offset: 91967},
 																			expr: &litMatcher{
-																				pos:        position{line: 2904, col: 13, offset: 91753},
+																				pos:        position{line: 2910, col: 13, offset: 91967},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2904, col: 18, offset: 91758},
+																			pos: position{line: 2910, col: 18, offset: 91972},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2904, col: 18, offset: 91758},
+																				pos:        position{line: 2910, col: 18, offset: 91972},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2912, col: 10, offset: 91925},
+														pos: position{line: 2918, col: 10, offset: 92139},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2912, col: 10, offset: 91925},
+															pos:        position{line: 2918, col: 10, offset: 92139},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2931, col: 8, offset: 92273},
+													pos: position{line: 2937, col: 8, offset: 92487},
 													expr: &anyMatcher{
-														line: 2931, col: 9, offset: 92274,
+														line: 2937, col: 9, offset: 92488,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2912, col: 10, offset: 91925},
+														pos: position{line: 2918, col: 10, offset: 92139},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2912, col: 10, offset: 91925},
+															pos:        position{line: 2918, col: 10, offset: 92139},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,24 +1665,24 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2931, col: 8, offset: 92273},
+													pos: position{line: 2937, col: 8, offset: 92487},
 													expr: &anyMatcher{
-														line: 2931, col: 9, offset: 92274,
+														line: 2937, col: 9, offset: 92488,
 													},
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 727, col: 5, offset: 23240},
+										pos: position{line: 733, col: 5, offset: 23454},
 										run: (*parser).callonDocumentRawLine334,
 										expr: &seqExpr{
-											pos: position{line: 727, col: 5, offset: 23240},
+											pos: position{line: 733, col: 5, offset: 23454},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 727, col: 5, offset: 23240},
+													pos: position{line: 733, col: 5, offset: 23454},
 													expr: &charClassMatcher{
-														pos:        position{line: 2802, col: 13, offset: 89020},
+														pos:        position{line: 2808, col: 13, offset: 89234},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1690,36 +1690,36 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 728, col: 5, offset: 23270},
+													pos:   position{line: 734, col: 5, offset: 23484},
 													label: "delimiter",
 													expr: &choiceExpr{
-														pos: position{line: 729, col: 9, offset: 23290},
+														pos: position{line: 735, col: 9, offset: 23504},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 743, col: 5, offset: 23782},
+																pos: position{line: 749, col: 5, offset: 23996},
 																run: (*parser).callonDocumentRawLine340,
 																expr: &seqExpr{
-																	pos: position{line: 743, col: 5, offset: 23782},
+																	pos: position{line: 749, col: 5, offset: 23996},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 743, col: 5, offset: 23782},
+																			pos:   position{line: 749, col: 5, offset: 23996},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 743, col: 16, offset: 23793},
+																				pos: position{line: 749, col: 16, offset: 24007},
 																				run: (*parser).callonDocumentRawLine343,
 																				expr: &seqExpr{
-																					pos: position{line: 743, col: 16, offset: 23793},
+																					pos: position{line: 749, col: 16, offset: 24007},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 743, col: 16, offset: 23793},
+																							pos:        position{line: 749, col: 16, offset: 24007},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 743, col: 23, offset: 23800},
+																							pos: position{line: 749, col: 23, offset: 24014},
 																							expr: &litMatcher{
-																								pos:        position{line: 743, col: 23, offset: 23800},
+																								pos:        position{line: 749, col: 23, offset: 24014},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -1730,12 +1730,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 745, col: 8, offset: 23884},
+																			pos: position{line: 751, col: 8, offset: 24098},
 																			expr: &actionExpr{
-																				pos: position{line: 2912, col: 10, offset: 91925},
+																				pos: position{line: 2918, col: 10, offset: 92139},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2912, col: 10, offset: 91925},
+																					pos:        position{line: 2918, col: 10, offset: 92139},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2934, col: 8, offset: 92323},
+																			pos: position{line: 2940, col: 8, offset: 92537},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2921, col: 12, offset: 92096},
+																					pos: position{line: 2927, col: 12, offset: 92310},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2921, col: 13, offset: 92097},
+																						pos: position{line: 2927, col: 13, offset: 92311},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 13, offset: 92097},
+																								pos:        position{line: 2927, col: 13, offset: 92311},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 20, offset: 92104},
+																								pos:        position{line: 2927, col: 20, offset: 92318},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 29, offset: 92113},
+																								pos:        position{line: 2927, col: 29, offset: 92327},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
@@ -1785,30 +1785,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 750, col: 5, offset: 24030},
+																pos: position{line: 756, col: 5, offset: 24244},
 																run: (*parser).callonDocumentRawLine359,
 																expr: &seqExpr{
-																	pos: position{line: 750, col: 5, offset: 24030},
+																	pos: position{line: 756, col: 5, offset: 24244},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 750, col: 5, offset: 24030},
+																			pos:   position{line: 756, col: 5, offset: 24244},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 750, col: 16, offset: 24041},
+																				pos: position{line: 756, col: 16, offset: 24255},
 																				run: (*parser).callonDocumentRawLine362,
 																				expr: &seqExpr{
-																					pos: position{line: 750, col: 16, offset: 24041},
+																					pos: position{line: 756, col: 16, offset: 24255},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 750, col: 16, offset: 24041},
+																							pos:        position{line: 756, col: 16, offset: 24255},
 																							val:        "====",
 																							ignoreCase: false,
 																							want:       "\"====\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 750, col: 23, offset: 24048},
+																							pos: position{line: 756, col: 23, offset: 24262},
 																							expr: &litMatcher{
-																								pos:        position{line: 750, col: 23, offset: 24048},
+																								pos:        position{line: 756, col: 23, offset: 24262},
 																								val:        "=",
 																								ignoreCase: false,
 																								want:       "\"=\"",
@@ -1819,12 +1819,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 752, col: 8, offset: 24132},
+																			pos: position{line: 758, col: 8, offset: 24346},
 																			expr: &actionExpr{
-																				pos: position{line: 2912, col: 10, offset: 91925},
+																				pos: position{line: 2918, col: 10, offset: 92139},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2912, col: 10, offset: 91925},
+																					pos:        position{line: 2918, col: 10, offset: 92139},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2934, col: 8, offset: 92323},
+																			pos: position{line: 2940, col: 8, offset: 92537},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2921, col: 12, offset: 92096},
+																					pos: position{line: 2927, col: 12, offset: 92310},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2921, col: 13, offset: 92097},
+																						pos: position{line: 2927, col: 13, offset: 92311},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 13, offset: 92097},
+																								pos:        position{line: 2927, col: 13, offset: 92311},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 20, offset: 92104},
+																								pos:        position{line: 2927, col: 20, offset: 92318},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 29, offset: 92113},
+																								pos:        position{line: 2927, col: 29, offset: 92327},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
@@ -1874,27 +1874,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 763, col: 26, offset: 24518},
+																pos: position{line: 769, col: 26, offset: 24732},
 																run: (*parser).callonDocumentRawLine378,
 																expr: &seqExpr{
-																	pos: position{line: 763, col: 26, offset: 24518},
+																	pos: position{line: 769, col: 26, offset: 24732},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 763, col: 26, offset: 24518},
+																			pos:        position{line: 769, col: 26, offset: 24732},
 																			val:        "```",
 																			ignoreCase: false,
 																			want:       "\"```\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 763, col: 32, offset: 24524},
+																			pos:   position{line: 769, col: 32, offset: 24738},
 																			label: "language",
 																			expr: &actionExpr{
-																				pos: position{line: 767, col: 13, offset: 24654},
+																				pos: position{line: 773, col: 13, offset: 24868},
 																				run: (*parser).callonDocumentRawLine382,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 767, col: 14, offset: 24655},
+																					pos: position{line: 773, col: 14, offset: 24869},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 767, col: 14, offset: 24655},
+																						pos:        position{line: 773, col: 14, offset: 24869},
 																						val:        "[^\\r\\n` ]",
 																						chars:      []rune{'\r', '\n', '`', ' '},
 																						ignoreCase: false,
@@ -1904,12 +1904,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 763, col: 52, offset: 24544},
+																			pos: position{line: 769, col: 52, offset: 24758},
 																			expr: &actionExpr{
-																				pos: position{line: 2912, col: 10, offset: 91925},
+																				pos: position{line: 2918, col: 10, offset: 92139},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2912, col: 10, offset: 91925},
+																					pos:        position{line: 2918, col: 10, offset: 92139},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2934, col: 8, offset: 92323},
+																			pos: position{line: 2940, col: 8, offset: 92537},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2921, col: 12, offset: 92096},
+																					pos: position{line: 2927, col: 12, offset: 92310},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2921, col: 13, offset: 92097},
+																						pos: position{line: 2927, col: 13, offset: 92311},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 13, offset: 92097},
+																								pos:        position{line: 2927, col: 13, offset: 92311},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 20, offset: 92104},
+																								pos:        position{line: 2927, col: 20, offset: 92318},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 29, offset: 92113},
+																								pos:        position{line: 2927, col: 29, offset: 92327},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
@@ -1959,30 +1959,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 757, col: 5, offset: 24277},
+																pos: position{line: 763, col: 5, offset: 24491},
 																run: (*parser).callonDocumentRawLine396,
 																expr: &seqExpr{
-																	pos: position{line: 757, col: 5, offset: 24277},
+																	pos: position{line: 763, col: 5, offset: 24491},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 757, col: 5, offset: 24277},
+																			pos:   position{line: 763, col: 5, offset: 24491},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 757, col: 16, offset: 24288},
+																				pos: position{line: 763, col: 16, offset: 24502},
 																				run: (*parser).callonDocumentRawLine399,
 																				expr: &seqExpr{
-																					pos: position{line: 757, col: 16, offset: 24288},
+																					pos: position{line: 763, col: 16, offset: 24502},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 757, col: 16, offset: 24288},
+																							pos:        position{line: 763, col: 16, offset: 24502},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 757, col: 22, offset: 24294},
+																							pos: position{line: 763, col: 22, offset: 24508},
 																							expr: &litMatcher{
-																								pos:        position{line: 757, col: 22, offset: 24294},
+																								pos:        position{line: 763, col: 22, offset: 24508},
 																								val:        "`",
 																								ignoreCase: false,
 																								want:       "\"`\"",
@@ -1993,12 +1993,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 759, col: 8, offset: 24378},
+																			pos: position{line: 765, col: 8, offset: 24592},
 																			expr: &actionExpr{
-																				pos: position{line: 2912, col: 10, offset: 91925},
+																				pos: position{line: 2918, col: 10, offset: 92139},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2912, col: 10, offset: 91925},
+																					pos:        position{line: 2918, col: 10, offset: 92139},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2934, col: 8, offset: 92323},
+																			pos: position{line: 2940, col: 8, offset: 92537},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2921, col: 12, offset: 92096},
+																					pos: position{line: 2927, col: 12, offset: 92310},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2921, col: 13, offset: 92097},
+																						pos: position{line: 2927, col: 13, offset: 92311},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 13, offset: 92097},
+																								pos:        position{line: 2927, col: 13, offset: 92311},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 20, offset: 92104},
+																								pos:        position{line: 2927, col: 20, offset: 92318},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 29, offset: 92113},
+																								pos:        position{line: 2927, col: 29, offset: 92327},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
@@ -2048,30 +2048,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 772, col: 5, offset: 24814},
+																pos: position{line: 778, col: 5, offset: 25028},
 																run: (*parser).callonDocumentRawLine415,
 																expr: &seqExpr{
-																	pos: position{line: 772, col: 5, offset: 24814},
+																	pos: position{line: 778, col: 5, offset: 25028},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 772, col: 5, offset: 24814},
+																			pos:   position{line: 778, col: 5, offset: 25028},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 772, col: 16, offset: 24825},
+																				pos: position{line: 778, col: 16, offset: 25039},
 																				run: (*parser).callonDocumentRawLine418,
 																				expr: &seqExpr{
-																					pos: position{line: 772, col: 16, offset: 24825},
+																					pos: position{line: 778, col: 16, offset: 25039},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 772, col: 16, offset: 24825},
+																							pos:        position{line: 778, col: 16, offset: 25039},
 																							val:        "----",
 																							ignoreCase: false,
 																							want:       "\"----\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 772, col: 23, offset: 24832},
+																							pos: position{line: 778, col: 23, offset: 25046},
 																							expr: &litMatcher{
-																								pos:        position{line: 772, col: 23, offset: 24832},
+																								pos:        position{line: 778, col: 23, offset: 25046},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
@@ -2082,12 +2082,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 774, col: 8, offset: 24916},
+																			pos: position{line: 780, col: 8, offset: 25130},
 																			expr: &actionExpr{
-																				pos: position{line: 2912, col: 10, offset: 91925},
+																				pos: position{line: 2918, col: 10, offset: 92139},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2912, col: 10, offset: 91925},
+																					pos:        position{line: 2918, col: 10, offset: 92139},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2934, col: 8, offset: 92323},
+																			pos: position{line: 2940, col: 8, offset: 92537},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2921, col: 12, offset: 92096},
+																					pos: position{line: 2927, col: 12, offset: 92310},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2921, col: 13, offset: 92097},
+																						pos: position{line: 2927, col: 13, offset: 92311},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 13, offset: 92097},
+																								pos:        position{line: 2927, col: 13, offset: 92311},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 20, offset: 92104},
+																								pos:        position{line: 2927, col: 20, offset: 92318},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 29, offset: 92113},
+																								pos:        position{line: 2927, col: 29, offset: 92327},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
@@ -2137,30 +2137,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 786, col: 5, offset: 25290},
+																pos: position{line: 792, col: 5, offset: 25504},
 																run: (*parser).callonDocumentRawLine434,
 																expr: &seqExpr{
-																	pos: position{line: 786, col: 5, offset: 25290},
+																	pos: position{line: 792, col: 5, offset: 25504},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 786, col: 5, offset: 25290},
+																			pos:   position{line: 792, col: 5, offset: 25504},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 786, col: 16, offset: 25301},
+																				pos: position{line: 792, col: 16, offset: 25515},
 																				run: (*parser).callonDocumentRawLine437,
 																				expr: &seqExpr{
-																					pos: position{line: 786, col: 16, offset: 25301},
+																					pos: position{line: 792, col: 16, offset: 25515},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 786, col: 16, offset: 25301},
+																							pos:        position{line: 792, col: 16, offset: 25515},
 																							val:        "....",
 																							ignoreCase: false,
 																							want:       "\"....\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 786, col: 23, offset: 25308},
+																							pos: position{line: 792, col: 23, offset: 25522},
 																							expr: &litMatcher{
-																								pos:        position{line: 786, col: 23, offset: 25308},
+																								pos:        position{line: 792, col: 23, offset: 25522},
 																								val:        ".",
 																								ignoreCase: false,
 																								want:       "\".\"",
@@ -2171,12 +2171,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 788, col: 8, offset: 25392},
+																			pos: position{line: 794, col: 8, offset: 25606},
 																			expr: &actionExpr{
-																				pos: position{line: 2912, col: 10, offset: 91925},
+																				pos: position{line: 2918, col: 10, offset: 92139},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2912, col: 10, offset: 91925},
+																					pos:        position{line: 2918, col: 10, offset: 92139},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2934, col: 8, offset: 92323},
+																			pos: position{line: 2940, col: 8, offset: 92537},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2921, col: 12, offset: 92096},
+																					pos: position{line: 2927, col: 12, offset: 92310},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2921, col: 13, offset: 92097},
+																						pos: position{line: 2927, col: 13, offset: 92311},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 13, offset: 92097},
+																								pos:        position{line: 2927, col: 13, offset: 92311},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 20, offset: 92104},
+																								pos:        position{line: 2927, col: 20, offset: 92318},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 29, offset: 92113},
+																								pos:        position{line: 2927, col: 29, offset: 92327},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
@@ -2226,30 +2226,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 793, col: 5, offset: 25542},
+																pos: position{line: 799, col: 5, offset: 25756},
 																run: (*parser).callonDocumentRawLine453,
 																expr: &seqExpr{
-																	pos: position{line: 793, col: 5, offset: 25542},
+																	pos: position{line: 799, col: 5, offset: 25756},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 793, col: 5, offset: 25542},
+																			pos:   position{line: 799, col: 5, offset: 25756},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 793, col: 16, offset: 25553},
+																				pos: position{line: 799, col: 16, offset: 25767},
 																				run: (*parser).callonDocumentRawLine456,
 																				expr: &seqExpr{
-																					pos: position{line: 793, col: 16, offset: 25553},
+																					pos: position{line: 799, col: 16, offset: 25767},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 793, col: 16, offset: 25553},
+																							pos:        position{line: 799, col: 16, offset: 25767},
 																							val:        "++++",
 																							ignoreCase: false,
 																							want:       "\"++++\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 793, col: 23, offset: 25560},
+																							pos: position{line: 799, col: 23, offset: 25774},
 																							expr: &litMatcher{
-																								pos:        position{line: 793, col: 23, offset: 25560},
+																								pos:        position{line: 799, col: 23, offset: 25774},
 																								val:        "+",
 																								ignoreCase: false,
 																								want:       "\"+\"",
@@ -2260,12 +2260,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 795, col: 8, offset: 25644},
+																			pos: position{line: 801, col: 8, offset: 25858},
 																			expr: &actionExpr{
-																				pos: position{line: 2912, col: 10, offset: 91925},
+																				pos: position{line: 2918, col: 10, offset: 92139},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2912, col: 10, offset: 91925},
+																					pos:        position{line: 2918, col: 10, offset: 92139},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2934, col: 8, offset: 92323},
+																			pos: position{line: 2940, col: 8, offset: 92537},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2921, col: 12, offset: 92096},
+																					pos: position{line: 2927, col: 12, offset: 92310},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2921, col: 13, offset: 92097},
+																						pos: position{line: 2927, col: 13, offset: 92311},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 13, offset: 92097},
+																								pos:        position{line: 2927, col: 13, offset: 92311},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 20, offset: 92104},
+																								pos:        position{line: 2927, col: 20, offset: 92318},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 29, offset: 92113},
+																								pos:        position{line: 2927, col: 29, offset: 92327},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
@@ -2315,30 +2315,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 800, col: 5, offset: 25792},
+																pos: position{line: 806, col: 5, offset: 26006},
 																run: (*parser).callonDocumentRawLine472,
 																expr: &seqExpr{
-																	pos: position{line: 800, col: 5, offset: 25792},
+																	pos: position{line: 806, col: 5, offset: 26006},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 800, col: 5, offset: 25792},
+																			pos:   position{line: 806, col: 5, offset: 26006},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 800, col: 16, offset: 25803},
+																				pos: position{line: 806, col: 16, offset: 26017},
 																				run: (*parser).callonDocumentRawLine475,
 																				expr: &seqExpr{
-																					pos: position{line: 800, col: 16, offset: 25803},
+																					pos: position{line: 806, col: 16, offset: 26017},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 800, col: 16, offset: 25803},
+																							pos:        position{line: 806, col: 16, offset: 26017},
 																							val:        "____",
 																							ignoreCase: false,
 																							want:       "\"____\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 800, col: 23, offset: 25810},
+																							pos: position{line: 806, col: 23, offset: 26024},
 																							expr: &litMatcher{
-																								pos:        position{line: 800, col: 23, offset: 25810},
+																								pos:        position{line: 806, col: 23, offset: 26024},
 																								val:        "_",
 																								ignoreCase: false,
 																								want:       "\"_\"",
@@ -2349,12 +2349,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 802, col: 8, offset: 25894},
+																			pos: position{line: 808, col: 8, offset: 26108},
 																			expr: &actionExpr{
-																				pos: position{line: 2912, col: 10, offset: 91925},
+																				pos: position{line: 2918, col: 10, offset: 92139},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2912, col: 10, offset: 91925},
+																					pos:        position{line: 2918, col: 10, offset: 92139},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2934, col: 8, offset: 92323},
+																			pos: position{line: 2940, col: 8, offset: 92537},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2921, col: 12, offset: 92096},
+																					pos: position{line: 2927, col: 12, offset: 92310},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2921, col: 13, offset: 92097},
+																						pos: position{line: 2927, col: 13, offset: 92311},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 13, offset: 92097},
+																								pos:        position{line: 2927, col: 13, offset: 92311},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 20, offset: 92104},
+																								pos:        position{line: 2927, col: 20, offset: 92318},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 29, offset: 92113},
+																								pos:        position{line: 2927, col: 29, offset: 92327},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
@@ -2404,30 +2404,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 807, col: 5, offset: 26038},
+																pos: position{line: 813, col: 5, offset: 26252},
 																run: (*parser).callonDocumentRawLine491,
 																expr: &seqExpr{
-																	pos: position{line: 807, col: 5, offset: 26038},
+																	pos: position{line: 813, col: 5, offset: 26252},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 807, col: 5, offset: 26038},
+																			pos:   position{line: 813, col: 5, offset: 26252},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 807, col: 16, offset: 26049},
+																				pos: position{line: 813, col: 16, offset: 26263},
 																				run: (*parser).callonDocumentRawLine494,
 																				expr: &seqExpr{
-																					pos: position{line: 807, col: 16, offset: 26049},
+																					pos: position{line: 813, col: 16, offset: 26263},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 807, col: 16, offset: 26049},
+																							pos:        position{line: 813, col: 16, offset: 26263},
 																							val:        "****",
 																							ignoreCase: false,
 																							want:       "\"****\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 807, col: 23, offset: 26056},
+																							pos: position{line: 813, col: 23, offset: 26270},
 																							expr: &litMatcher{
-																								pos:        position{line: 807, col: 23, offset: 26056},
+																								pos:        position{line: 813, col: 23, offset: 26270},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -2438,12 +2438,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 809, col: 8, offset: 26140},
+																			pos: position{line: 815, col: 8, offset: 26354},
 																			expr: &actionExpr{
-																				pos: position{line: 2912, col: 10, offset: 91925},
+																				pos: position{line: 2918, col: 10, offset: 92139},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2912, col: 10, offset: 91925},
+																					pos:        position{line: 2918, col: 10, offset: 92139},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2934, col: 8, offset: 92323},
+																			pos: position{line: 2940, col: 8, offset: 92537},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2921, col: 12, offset: 92096},
+																					pos: position{line: 2927, col: 12, offset: 92310},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2921, col: 13, offset: 92097},
+																						pos: position{line: 2927, col: 13, offset: 92311},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 13, offset: 92097},
+																								pos:        position{line: 2927, col: 13, offset: 92311},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 20, offset: 92104},
+																								pos:        position{line: 2927, col: 20, offset: 92318},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 29, offset: 92113},
+																								pos:        position{line: 2927, col: 29, offset: 92327},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2916, col: 11, offset: 91986},
+													pos: position{line: 2922, col: 11, offset: 92200},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2916, col: 11, offset: 91986},
+														pos: position{line: 2922, col: 11, offset: 92200},
 														expr: &charClassMatcher{
-															pos:        position{line: 2916, col: 11, offset: 91986},
+															pos:        position{line: 2922, col: 11, offset: 92200},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2862, col: 14, offset: 90518},
+													pos: position{line: 2868, col: 14, offset: 90732},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2862, col: 14, offset: 90518},
+														pos: position{line: 2868, col: 14, offset: 90732},
 														expr: &charClassMatcher{
-															pos:        position{line: 2862, col: 14, offset: 90518},
+															pos:        position{line: 2868, col: 14, offset: 90732},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2931, col: 8, offset: 92273},
+													pos: position{line: 2937, col: 8, offset: 92487},
 													expr: &anyMatcher{
-														line: 2931, col: 9, offset: 92274,
+														line: 2937, col: 9, offset: 92488,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2931, col: 8, offset: 92273},
+							pos: position{line: 2937, col: 8, offset: 92487},
 							expr: &anyMatcher{
-								line: 2931, col: 9, offset: 92274,
+								line: 2937, col: 9, offset: 92488,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2866, col: 17, offset: 90588},
+												pos: position{line: 2872, col: 17, offset: 90802},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2866, col: 17, offset: 90588},
+													pos:   position{line: 2872, col: 17, offset: 90802},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2883, col: 5, offset: 91042},
+														pos: position{line: 2889, col: 5, offset: 91256},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2883, col: 5, offset: 91042},
+															pos:   position{line: 2889, col: 5, offset: 91256},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2883, col: 14, offset: 91051},
+																pos: position{line: 2889, col: 14, offset: 91265},
 																expr: &choiceExpr{
-																	pos: position{line: 2884, col: 9, offset: 91061},
+																	pos: position{line: 2890, col: 9, offset: 91275},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 9, offset: 91061},
+																			pos: position{line: 2890, col: 9, offset: 91275},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2884, col: 9, offset: 91061},
+																				pos: position{line: 2890, col: 9, offset: 91275},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2884, col: 9, offset: 91061},
+																						pos: position{line: 2890, col: 9, offset: 91275},
 																						expr: &litMatcher{
-																							pos:        position{line: 2884, col: 10, offset: 91062},
+																							pos:        position{line: 2890, col: 10, offset: 91276},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2885, col: 9, offset: 91090},
+																						pos: position{line: 2891, col: 9, offset: 91304},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2885, col: 10, offset: 91091},
+																							pos:        position{line: 2891, col: 10, offset: 91305},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2888, col: 11, offset: 91303},
+																			pos: position{line: 2894, col: 11, offset: 91517},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2888, col: 11, offset: 91303},
+																					pos:        position{line: 2894, col: 11, offset: 91517},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2888, col: 19, offset: 91311},
+																					pos: position{line: 2894, col: 19, offset: 91525},
 																					expr: &seqExpr{
-																						pos: position{line: 2888, col: 21, offset: 91313},
+																						pos: position{line: 2894, col: 21, offset: 91527},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2888, col: 21, offset: 91313},
+																								pos: position{line: 2894, col: 21, offset: 91527},
 																								expr: &actionExpr{
-																									pos: position{line: 2912, col: 10, offset: 91925},
+																									pos: position{line: 2918, col: 10, offset: 92139},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2912, col: 10, offset: 91925},
+																										pos:        position{line: 2918, col: 10, offset: 92139},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2888, col: 28, offset: 91320},
+																								pos: position{line: 2894, col: 28, offset: 91534},
 																								expr: &notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -2699,35 +2699,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 639, col: 5, offset: 20305},
+																			pos: position{line: 645, col: 5, offset: 20519},
 																			run: (*parser).callonFileInclusion30,
 																			expr: &seqExpr{
-																				pos: position{line: 639, col: 5, offset: 20305},
+																				pos: position{line: 645, col: 5, offset: 20519},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 639, col: 5, offset: 20305},
+																						pos: position{line: 645, col: 5, offset: 20519},
 																						run: (*parser).callonFileInclusion32,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 642, col: 5, offset: 20377},
+																						pos:   position{line: 648, col: 5, offset: 20591},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 642, col: 14, offset: 20386},
+																							pos: position{line: 648, col: 14, offset: 20600},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 648, col: 5, offset: 20515},
+																									pos: position{line: 654, col: 5, offset: 20729},
 																									run: (*parser).callonFileInclusion35,
 																									expr: &seqExpr{
-																										pos: position{line: 648, col: 5, offset: 20515},
+																										pos: position{line: 654, col: 5, offset: 20729},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 648, col: 5, offset: 20515},
+																												pos:        position{line: 654, col: 5, offset: 20729},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 648, col: 13, offset: 20523},
+																												pos:   position{line: 654, col: 13, offset: 20737},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -2759,7 +2759,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 648, col: 32, offset: 20542},
+																												pos:        position{line: 654, col: 32, offset: 20756},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2768,19 +2768,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 655, col: 5, offset: 20783},
+																									pos: position{line: 661, col: 5, offset: 20997},
 																									run: (*parser).callonFileInclusion45,
 																									expr: &seqExpr{
-																										pos: position{line: 655, col: 5, offset: 20783},
+																										pos: position{line: 661, col: 5, offset: 20997},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 655, col: 5, offset: 20783},
+																												pos:        position{line: 661, col: 5, offset: 20997},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 655, col: 9, offset: 20787},
+																												pos:   position{line: 661, col: 9, offset: 21001},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -2812,7 +2812,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 655, col: 28, offset: 20806},
+																												pos:        position{line: 661, col: 28, offset: 21020},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2821,19 +2821,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 661, col: 25, offset: 20987},
+																									pos: position{line: 667, col: 25, offset: 21201},
 																									run: (*parser).callonFileInclusion55,
 																									expr: &seqExpr{
-																										pos: position{line: 661, col: 25, offset: 20987},
+																										pos: position{line: 667, col: 25, offset: 21201},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 661, col: 25, offset: 20987},
+																												pos:        position{line: 667, col: 25, offset: 21201},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 37, offset: 20999},
+																												pos:   position{line: 667, col: 37, offset: 21213},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -2865,33 +2865,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 56, offset: 21018},
+																												pos:   position{line: 667, col: 56, offset: 21232},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 661, col: 62, offset: 21024},
+																													pos: position{line: 667, col: 62, offset: 21238},
 																													expr: &actionExpr{
-																														pos: position{line: 669, col: 17, offset: 21321},
+																														pos: position{line: 675, col: 17, offset: 21535},
 																														run: (*parser).callonFileInclusion66,
 																														expr: &seqExpr{
-																															pos: position{line: 669, col: 17, offset: 21321},
+																															pos: position{line: 675, col: 17, offset: 21535},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 669, col: 17, offset: 21321},
+																																	pos:        position{line: 675, col: 17, offset: 21535},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 669, col: 21, offset: 21325},
+																																	pos:   position{line: 675, col: 21, offset: 21539},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 669, col: 28, offset: 21332},
+																																		pos: position{line: 675, col: 28, offset: 21546},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 28, offset: 21332},
+																																				pos: position{line: 675, col: 28, offset: 21546},
 																																				run: (*parser).callonFileInclusion71,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 669, col: 28, offset: 21332},
+																																					pos:        position{line: 675, col: 28, offset: 21546},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -2899,12 +2899,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 671, col: 9, offset: 21386},
+																																				pos: position{line: 677, col: 9, offset: 21600},
 																																				run: (*parser).callonFileInclusion73,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 671, col: 9, offset: 21386},
+																																					pos: position{line: 677, col: 9, offset: 21600},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 671, col: 9, offset: 21386},
+																																						pos:        position{line: 677, col: 9, offset: 21600},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -2921,7 +2921,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 661, col: 78, offset: 21040},
+																												pos:        position{line: 667, col: 78, offset: 21254},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2930,19 +2930,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 25, offset: 21158},
+																									pos: position{line: 671, col: 25, offset: 21372},
 																									run: (*parser).callonFileInclusion77,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 25, offset: 21158},
+																										pos: position{line: 671, col: 25, offset: 21372},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 25, offset: 21158},
+																												pos:        position{line: 671, col: 25, offset: 21372},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 38, offset: 21171},
+																												pos:   position{line: 671, col: 38, offset: 21385},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -2974,33 +2974,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 57, offset: 21190},
+																												pos:   position{line: 671, col: 57, offset: 21404},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 665, col: 63, offset: 21196},
+																													pos: position{line: 671, col: 63, offset: 21410},
 																													expr: &actionExpr{
-																														pos: position{line: 669, col: 17, offset: 21321},
+																														pos: position{line: 675, col: 17, offset: 21535},
 																														run: (*parser).callonFileInclusion88,
 																														expr: &seqExpr{
-																															pos: position{line: 669, col: 17, offset: 21321},
+																															pos: position{line: 675, col: 17, offset: 21535},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 669, col: 17, offset: 21321},
+																																	pos:        position{line: 675, col: 17, offset: 21535},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 669, col: 21, offset: 21325},
+																																	pos:   position{line: 675, col: 21, offset: 21539},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 669, col: 28, offset: 21332},
+																																		pos: position{line: 675, col: 28, offset: 21546},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 28, offset: 21332},
+																																				pos: position{line: 675, col: 28, offset: 21546},
 																																				run: (*parser).callonFileInclusion93,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 669, col: 28, offset: 21332},
+																																					pos:        position{line: 675, col: 28, offset: 21546},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3008,12 +3008,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 671, col: 9, offset: 21386},
+																																				pos: position{line: 677, col: 9, offset: 21600},
 																																				run: (*parser).callonFileInclusion95,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 671, col: 9, offset: 21386},
+																																					pos: position{line: 677, col: 9, offset: 21600},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 671, col: 9, offset: 21386},
+																																						pos:        position{line: 677, col: 9, offset: 21600},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3030,7 +3030,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 79, offset: 21212},
+																												pos:        position{line: 671, col: 79, offset: 21426},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -3045,27 +3045,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1201, col: 23, offset: 37170},
+																			pos: position{line: 1207, col: 23, offset: 37384},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1201, col: 23, offset: 37170},
+																				pos: position{line: 1207, col: 23, offset: 37384},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1199, col: 32, offset: 37138},
+																						pos:        position{line: 1205, col: 32, offset: 37352},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1201, col: 51, offset: 37198},
+																						pos:   position{line: 1207, col: 51, offset: 37412},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1201, col: 56, offset: 37203},
+																							pos: position{line: 1207, col: 56, offset: 37417},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1201, col: 56, offset: 37203},
+																								pos: position{line: 1207, col: 56, offset: 37417},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1201, col: 56, offset: 37203},
+																									pos:        position{line: 1207, col: 56, offset: 37417},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3075,7 +3075,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1199, col: 32, offset: 37138},
+																						pos:        position{line: 1205, col: 32, offset: 37352},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2891, col: 11, offset: 91440},
+																			pos: position{line: 2897, col: 11, offset: 91654},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2891, col: 11, offset: 91440},
+																				pos:        position{line: 2897, col: 11, offset: 91654},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2912, col: 10, offset: 91925},
+								pos: position{line: 2918, col: 10, offset: 92139},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2912, col: 10, offset: 91925},
+									pos:        position{line: 2918, col: 10, offset: 92139},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2934, col: 8, offset: 92323},
+							pos: position{line: 2940, col: 8, offset: 92537},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2921, col: 12, offset: 92096},
+									pos: position{line: 2927, col: 12, offset: 92310},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2921, col: 13, offset: 92097},
+										pos: position{line: 2927, col: 13, offset: 92311},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2921, col: 13, offset: 92097},
+												pos:        position{line: 2927, col: 13, offset: 92311},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2921, col: 20, offset: 92104},
+												pos:        position{line: 2927, col: 20, offset: 92318},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2921, col: 29, offset: 92113},
+												pos:        position{line: 2927, col: 29, offset: 92327},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2931, col: 8, offset: 92273},
+									pos: position{line: 2937, col: 8, offset: 92487},
 									expr: &anyMatcher{
-										line: 2931, col: 9, offset: 92274,
+										line: 2937, col: 9, offset: 92488,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2904, col: 12, offset: 91752},
+																				pos: position{line: 2910, col: 12, offset: 91966},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2904, col: 13, offset: 91753},
+																					pos: position{line: 2910, col: 13, offset: 91967},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2904, col: 13, offset: 91753},
+																							pos: position{line: 2910, col: 13, offset: 91967},
 																							expr: &litMatcher{
-																								pos:        position{line: 2904, col: 13, offset: 91753},
+																								pos:        position{line: 2910, col: 13, offset: 91967},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2904, col: 18, offset: 91758},
+																							pos: position{line: 2910, col: 18, offset: 91972},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2904, col: 18, offset: 91758},
+																								pos:        position{line: 2910, col: 18, offset: 91972},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2904, col: 12, offset: 91752},
+																				pos: position{line: 2910, col: 12, offset: 91966},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2904, col: 13, offset: 91753},
+																					pos: position{line: 2910, col: 13, offset: 91967},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2904, col: 13, offset: 91753},
+																							pos: position{line: 2910, col: 13, offset: 91967},
 																							expr: &litMatcher{
-																								pos:        position{line: 2904, col: 13, offset: 91753},
+																								pos:        position{line: 2910, col: 13, offset: 91967},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2904, col: 18, offset: 91758},
+																							pos: position{line: 2910, col: 18, offset: 91972},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2904, col: 18, offset: 91758},
+																								pos:        position{line: 2910, col: 18, offset: 91972},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2904, col: 12, offset: 91752},
+																		pos: position{line: 2910, col: 12, offset: 91966},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2904, col: 13, offset: 91753},
+																			pos: position{line: 2910, col: 13, offset: 91967},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2904, col: 13, offset: 91753},
+																					pos: position{line: 2910, col: 13, offset: 91967},
 																					expr: &litMatcher{
-																						pos:        position{line: 2904, col: 13, offset: 91753},
+																						pos:        position{line: 2910, col: 13, offset: 91967},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2904, col: 18, offset: 91758},
+																					pos: position{line: 2910, col: 18, offset: 91972},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2904, col: 18, offset: 91758},
+																						pos:        position{line: 2910, col: 18, offset: 91972},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2904, col: 12, offset: 91752},
+																									pos: position{line: 2910, col: 12, offset: 91966},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2904, col: 13, offset: 91753},
+																										pos: position{line: 2910, col: 13, offset: 91967},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2904, col: 13, offset: 91753},
+																												pos: position{line: 2910, col: 13, offset: 91967},
 																												expr: &litMatcher{
-																													pos:        position{line: 2904, col: 13, offset: 91753},
+																													pos:        position{line: 2910, col: 13, offset: 91967},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2904, col: 18, offset: 91758},
+																												pos: position{line: 2910, col: 18, offset: 91972},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2904, col: 18, offset: 91758},
+																													pos:        position{line: 2910, col: 18, offset: 91972},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2904, col: 12, offset: 91752},
+																									pos: position{line: 2910, col: 12, offset: 91966},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2904, col: 13, offset: 91753},
+																										pos: position{line: 2910, col: 13, offset: 91967},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2904, col: 13, offset: 91753},
+																												pos: position{line: 2910, col: 13, offset: 91967},
 																												expr: &litMatcher{
-																													pos:        position{line: 2904, col: 13, offset: 91753},
+																													pos:        position{line: 2910, col: 13, offset: 91967},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2904, col: 18, offset: 91758},
+																												pos: position{line: 2910, col: 18, offset: 91972},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2904, col: 18, offset: 91758},
+																													pos:        position{line: 2910, col: 18, offset: 91972},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2904, col: 12, offset: 91752},
+																							pos: position{line: 2910, col: 12, offset: 91966},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2904, col: 13, offset: 91753},
+																								pos: position{line: 2910, col: 13, offset: 91967},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2904, col: 13, offset: 91753},
+																										pos: position{line: 2910, col: 13, offset: 91967},
 																										expr: &litMatcher{
-																											pos:        position{line: 2904, col: 13, offset: 91753},
+																											pos:        position{line: 2910, col: 13, offset: 91967},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2904, col: 18, offset: 91758},
+																										pos: position{line: 2910, col: 18, offset: 91972},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2904, col: 18, offset: 91758},
+																											pos:        position{line: 2910, col: 18, offset: 91972},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2904, col: 12, offset: 91752},
+														pos: position{line: 2910, col: 12, offset: 91966},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2904, col: 13, offset: 91753},
+															pos: position{line: 2910, col: 13, offset: 91967},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2904, col: 13, offset: 91753},
+																	pos: position{line: 2910, col: 13, offset: 91967},
 																	expr: &litMatcher{
-																		pos:        position{line: 2904, col: 13, offset: 91753},
+																		pos:        position{line: 2910, col: 13, offset: 91967},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2904, col: 18, offset: 91758},
+																	pos: position{line: 2910, col: 18, offset: 91972},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2904, col: 18, offset: 91758},
+																		pos:        position{line: 2910, col: 18, offset: 91972},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2904, col: 12, offset: 91752},
+														pos: position{line: 2910, col: 12, offset: 91966},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2904, col: 13, offset: 91753},
+															pos: position{line: 2910, col: 13, offset: 91967},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2904, col: 13, offset: 91753},
+																	pos: position{line: 2910, col: 13, offset: 91967},
 																	expr: &litMatcher{
-																		pos:        position{line: 2904, col: 13, offset: 91753},
+																		pos:        position{line: 2910, col: 13, offset: 91967},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2904, col: 18, offset: 91758},
+																	pos: position{line: 2910, col: 18, offset: 91972},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2904, col: 18, offset: 91758},
+																		pos:        position{line: 2910, col: 18, offset: 91972},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2904, col: 12, offset: 91752},
+												pos: position{line: 2910, col: 12, offset: 91966},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2904, col: 13, offset: 91753},
+													pos: position{line: 2910, col: 13, offset: 91967},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2904, col: 13, offset: 91753},
+															pos: position{line: 2910, col: 13, offset: 91967},
 															expr: &litMatcher{
-																pos:        position{line: 2904, col: 13, offset: 91753},
+																pos:        position{line: 2910, col: 13, offset: 91967},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2904, col: 18, offset: 91758},
+															pos: position{line: 2910, col: 18, offset: 91972},
 															expr: &charClassMatcher{
-																pos:        position{line: 2904, col: 18, offset: 91758},
+																pos:        position{line: 2910, col: 18, offset: 91972},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2931, col: 8, offset: 92273},
+							pos: position{line: 2937, col: 8, offset: 92487},
 							expr: &anyMatcher{
-								line: 2931, col: 9, offset: 92274,
+								line: 2937, col: 9, offset: 92488,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2806, col: 14, offset: 89094},
+																		pos: position{line: 2812, col: 14, offset: 89308},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2806, col: 14, offset: 89094},
+																			pos: position{line: 2812, col: 14, offset: 89308},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2806, col: 14, offset: 89094},
+																				pos:        position{line: 2812, col: 14, offset: 89308},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2806, col: 14, offset: 89094},
+																				pos: position{line: 2812, col: 14, offset: 89308},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2806, col: 14, offset: 89094},
+																					pos: position{line: 2812, col: 14, offset: 89308},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2806, col: 14, offset: 89094},
+																						pos:        position{line: 2812, col: 14, offset: 89308},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2806, col: 14, offset: 89094},
+																							pos: position{line: 2812, col: 14, offset: 89308},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2806, col: 14, offset: 89094},
+																								pos: position{line: 2812, col: 14, offset: 89308},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2806, col: 14, offset: 89094},
+																									pos:        position{line: 2812, col: 14, offset: 89308},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2806, col: 14, offset: 89094},
+																									pos: position{line: 2812, col: 14, offset: 89308},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2806, col: 14, offset: 89094},
+																										pos: position{line: 2812, col: 14, offset: 89308},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2806, col: 14, offset: 89094},
+																											pos:        position{line: 2812, col: 14, offset: 89308},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2931, col: 8, offset: 92273},
+							pos: position{line: 2937, col: 8, offset: 92487},
 							expr: &anyMatcher{
-								line: 2931, col: 9, offset: 92274,
+								line: 2937, col: 9, offset: 92488,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2806, col: 14, offset: 89094},
+																pos: position{line: 2812, col: 14, offset: 89308},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2806, col: 14, offset: 89094},
+																	pos: position{line: 2812, col: 14, offset: 89308},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2806, col: 14, offset: 89094},
+																		pos:        position{line: 2812, col: 14, offset: 89308},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2806, col: 14, offset: 89094},
+																pos: position{line: 2812, col: 14, offset: 89308},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2806, col: 14, offset: 89094},
+																	pos: position{line: 2812, col: 14, offset: 89308},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2806, col: 14, offset: 89094},
+																		pos:        position{line: 2812, col: 14, offset: 89308},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2934, col: 8, offset: 92323},
+							pos: position{line: 2940, col: 8, offset: 92537},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2921, col: 12, offset: 92096},
+									pos: position{line: 2927, col: 12, offset: 92310},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2921, col: 13, offset: 92097},
+										pos: position{line: 2927, col: 13, offset: 92311},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2921, col: 13, offset: 92097},
+												pos:        position{line: 2927, col: 13, offset: 92311},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2921, col: 20, offset: 92104},
+												pos:        position{line: 2927, col: 20, offset: 92318},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2921, col: 29, offset: 92113},
+												pos:        position{line: 2927, col: 29, offset: 92327},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2931, col: 8, offset: 92273},
+									pos: position{line: 2937, col: 8, offset: 92487},
 									expr: &anyMatcher{
-										line: 2931, col: 9, offset: 92274,
+										line: 2937, col: 9, offset: 92488,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2929, col: 11, offset: 92259},
+							pos: position{line: 2935, col: 11, offset: 92473},
 							expr: &anyMatcher{
-								line: 2929, col: 13, offset: 92261,
+								line: 2935, col: 13, offset: 92475,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 49, offset: 11041},
 														expr: &actionExpr{
-															pos: position{line: 2912, col: 10, offset: 91925},
+															pos: position{line: 2918, col: 10, offset: 92139},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2912, col: 10, offset: 91925},
+																pos:        position{line: 2918, col: 10, offset: 92139},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2934, col: 8, offset: 92323},
+														pos: position{line: 2940, col: 8, offset: 92537},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2921, col: 12, offset: 92096},
+																pos: position{line: 2927, col: 12, offset: 92310},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2921, col: 13, offset: 92097},
+																	pos: position{line: 2927, col: 13, offset: 92311},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 13, offset: 92097},
+																			pos:        position{line: 2927, col: 13, offset: 92311},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 20, offset: 92104},
+																			pos:        position{line: 2927, col: 20, offset: 92318},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 29, offset: 92113},
+																			pos:        position{line: 2927, col: 29, offset: 92327},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2931, col: 8, offset: 92273},
+																pos: position{line: 2937, col: 8, offset: 92487},
 																expr: &anyMatcher{
-																	line: 2931, col: 9, offset: 92274,
+																	line: 2937, col: 9, offset: 92488,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 364, col: 39, offset: 11162},
 														expr: &actionExpr{
-															pos: position{line: 2912, col: 10, offset: 91925},
+															pos: position{line: 2918, col: 10, offset: 92139},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2912, col: 10, offset: 91925},
+																pos:        position{line: 2918, col: 10, offset: 92139},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2934, col: 8, offset: 92323},
+														pos: position{line: 2940, col: 8, offset: 92537},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2921, col: 12, offset: 92096},
+																pos: position{line: 2927, col: 12, offset: 92310},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2921, col: 13, offset: 92097},
+																	pos: position{line: 2927, col: 13, offset: 92311},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 13, offset: 92097},
+																			pos:        position{line: 2927, col: 13, offset: 92311},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 20, offset: 92104},
+																			pos:        position{line: 2927, col: 20, offset: 92318},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 29, offset: 92113},
+																			pos:        position{line: 2927, col: 29, offset: 92327},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2931, col: 8, offset: 92273},
+																pos: position{line: 2937, col: 8, offset: 92487},
 																expr: &anyMatcher{
-																	line: 2931, col: 9, offset: 92274,
+																	line: 2937, col: 9, offset: 92488,
 																},
 															},
 														},
@@ -4336,24 +4336,24 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 680, col: 14, offset: 21687},
+											pos: position{line: 686, col: 14, offset: 21901},
 											run: (*parser).callonDocumentFragment58,
 											expr: &seqExpr{
-												pos: position{line: 680, col: 14, offset: 21687},
+												pos: position{line: 686, col: 14, offset: 21901},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2929, col: 11, offset: 92259},
+														pos: position{line: 2935, col: 11, offset: 92473},
 														expr: &anyMatcher{
-															line: 2929, col: 13, offset: 92261,
+															line: 2935, col: 13, offset: 92475,
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 680, col: 21, offset: 21694},
+														pos: position{line: 686, col: 21, offset: 21908},
 														expr: &actionExpr{
-															pos: position{line: 2912, col: 10, offset: 91925},
+															pos: position{line: 2918, col: 10, offset: 92139},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2912, col: 10, offset: 91925},
+																pos:        position{line: 2918, col: 10, offset: 92139},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2934, col: 8, offset: 92323},
+														pos: position{line: 2940, col: 8, offset: 92537},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2921, col: 12, offset: 92096},
+																pos: position{line: 2927, col: 12, offset: 92310},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2921, col: 13, offset: 92097},
+																	pos: position{line: 2927, col: 13, offset: 92311},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 13, offset: 92097},
+																			pos:        position{line: 2927, col: 13, offset: 92311},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 20, offset: 92104},
+																			pos:        position{line: 2927, col: 20, offset: 92318},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 29, offset: 92113},
+																			pos:        position{line: 2927, col: 29, offset: 92327},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2931, col: 8, offset: 92273},
+																pos: position{line: 2937, col: 8, offset: 92487},
 																expr: &anyMatcher{
-																	line: 2931, col: 9, offset: 92274,
+																	line: 2937, col: 9, offset: 92488,
 																},
 															},
 														},
@@ -4411,36 +4411,36 @@ var g = &grammar{
 											name: "Section",
 										},
 										&actionExpr{
-											pos: position{line: 823, col: 5, offset: 26522},
+											pos: position{line: 829, col: 5, offset: 26736},
 											run: (*parser).callonDocumentFragment75,
 											expr: &seqExpr{
-												pos: position{line: 823, col: 5, offset: 26522},
+												pos: position{line: 829, col: 5, offset: 26736},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 743, col: 5, offset: 23782},
+														pos: position{line: 749, col: 5, offset: 23996},
 														run: (*parser).callonDocumentFragment77,
 														expr: &seqExpr{
-															pos: position{line: 743, col: 5, offset: 23782},
+															pos: position{line: 749, col: 5, offset: 23996},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 743, col: 5, offset: 23782},
+																	pos:   position{line: 749, col: 5, offset: 23996},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 743, col: 16, offset: 23793},
+																		pos: position{line: 749, col: 16, offset: 24007},
 																		run: (*parser).callonDocumentFragment80,
 																		expr: &seqExpr{
-																			pos: position{line: 743, col: 16, offset: 23793},
+																			pos: position{line: 749, col: 16, offset: 24007},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 743, col: 16, offset: 23793},
+																					pos:        position{line: 749, col: 16, offset: 24007},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 743, col: 23, offset: 23800},
+																					pos: position{line: 749, col: 23, offset: 24014},
 																					expr: &litMatcher{
-																						pos:        position{line: 743, col: 23, offset: 23800},
+																						pos:        position{line: 749, col: 23, offset: 24014},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -4451,12 +4451,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 745, col: 8, offset: 23884},
+																	pos: position{line: 751, col: 8, offset: 24098},
 																	expr: &actionExpr{
-																		pos: position{line: 2912, col: 10, offset: 91925},
+																		pos: position{line: 2918, col: 10, offset: 92139},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2912, col: 10, offset: 91925},
+																			pos:        position{line: 2918, col: 10, offset: 92139},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4465,28 +4465,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2934, col: 8, offset: 92323},
+																	pos: position{line: 2940, col: 8, offset: 92537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2921, col: 12, offset: 92096},
+																			pos: position{line: 2927, col: 12, offset: 92310},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2921, col: 13, offset: 92097},
+																				pos: position{line: 2927, col: 13, offset: 92311},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 13, offset: 92097},
+																						pos:        position{line: 2927, col: 13, offset: 92311},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 20, offset: 92104},
+																						pos:        position{line: 2927, col: 20, offset: 92318},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 29, offset: 92113},
+																						pos:        position{line: 2927, col: 29, offset: 92327},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4495,9 +4495,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2931, col: 8, offset: 92273},
+																			pos: position{line: 2937, col: 8, offset: 92487},
 																			expr: &anyMatcher{
-																				line: 2931, col: 9, offset: 92274,
+																				line: 2937, col: 9, offset: 92488,
 																			},
 																		},
 																	},
@@ -4506,46 +4506,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 824, col: 5, offset: 26553},
+														pos:   position{line: 830, col: 5, offset: 26767},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 834, col: 5, offset: 26839},
+															pos: position{line: 840, col: 5, offset: 27053},
 															expr: &actionExpr{
-																pos: position{line: 834, col: 6, offset: 26840},
+																pos: position{line: 840, col: 6, offset: 27054},
 																run: (*parser).callonDocumentFragment98,
 																expr: &seqExpr{
-																	pos: position{line: 834, col: 6, offset: 26840},
+																	pos: position{line: 840, col: 6, offset: 27054},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 834, col: 6, offset: 26840},
+																			pos: position{line: 840, col: 6, offset: 27054},
 																			expr: &choiceExpr{
-																				pos: position{line: 831, col: 29, offset: 26782},
+																				pos: position{line: 837, col: 29, offset: 26996},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 743, col: 5, offset: 23782},
+																						pos: position{line: 749, col: 5, offset: 23996},
 																						run: (*parser).callonDocumentFragment102,
 																						expr: &seqExpr{
-																							pos: position{line: 743, col: 5, offset: 23782},
+																							pos: position{line: 749, col: 5, offset: 23996},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 743, col: 5, offset: 23782},
+																									pos:   position{line: 749, col: 5, offset: 23996},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 743, col: 16, offset: 23793},
+																										pos: position{line: 749, col: 16, offset: 24007},
 																										run: (*parser).callonDocumentFragment105,
 																										expr: &seqExpr{
-																											pos: position{line: 743, col: 16, offset: 23793},
+																											pos: position{line: 749, col: 16, offset: 24007},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 743, col: 16, offset: 23793},
+																													pos:        position{line: 749, col: 16, offset: 24007},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 743, col: 23, offset: 23800},
+																													pos: position{line: 749, col: 23, offset: 24014},
 																													expr: &litMatcher{
-																														pos:        position{line: 743, col: 23, offset: 23800},
+																														pos:        position{line: 749, col: 23, offset: 24014},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -4556,12 +4556,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 745, col: 8, offset: 23884},
+																									pos: position{line: 751, col: 8, offset: 24098},
 																									expr: &actionExpr{
-																										pos: position{line: 2912, col: 10, offset: 91925},
+																										pos: position{line: 2918, col: 10, offset: 92139},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2912, col: 10, offset: 91925},
+																											pos:        position{line: 2918, col: 10, offset: 92139},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4570,28 +4570,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2934, col: 8, offset: 92323},
+																									pos: position{line: 2940, col: 8, offset: 92537},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2921, col: 12, offset: 92096},
+																											pos: position{line: 2927, col: 12, offset: 92310},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2921, col: 13, offset: 92097},
+																												pos: position{line: 2927, col: 13, offset: 92311},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 13, offset: 92097},
+																														pos:        position{line: 2927, col: 13, offset: 92311},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 20, offset: 92104},
+																														pos:        position{line: 2927, col: 20, offset: 92318},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 29, offset: 92113},
+																														pos:        position{line: 2927, col: 29, offset: 92327},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4600,9 +4600,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2931, col: 8, offset: 92273},
+																											pos: position{line: 2937, col: 8, offset: 92487},
 																											expr: &anyMatcher{
-																												line: 2931, col: 9, offset: 92274,
+																												line: 2937, col: 9, offset: 92488,
 																											},
 																										},
 																									},
@@ -4611,39 +4611,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2931, col: 8, offset: 92273},
+																						pos: position{line: 2937, col: 8, offset: 92487},
 																						expr: &anyMatcher{
-																							line: 2931, col: 9, offset: 92274,
+																							line: 2937, col: 9, offset: 92488,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 835, col: 5, offset: 26870},
+																			pos:   position{line: 841, col: 5, offset: 27084},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 814, col: 5, offset: 26286},
+																				pos: position{line: 820, col: 5, offset: 26500},
 																				run: (*parser).callonDocumentFragment124,
 																				expr: &seqExpr{
-																					pos: position{line: 814, col: 5, offset: 26286},
+																					pos: position{line: 820, col: 5, offset: 26500},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2929, col: 11, offset: 92259},
+																							pos: position{line: 2935, col: 11, offset: 92473},
 																							expr: &anyMatcher{
-																								line: 2929, col: 13, offset: 92261,
+																								line: 2935, col: 13, offset: 92475,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 815, col: 5, offset: 26361},
+																							pos:   position{line: 821, col: 5, offset: 26575},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2858, col: 13, offset: 90451},
+																								pos: position{line: 2864, col: 13, offset: 90665},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2858, col: 13, offset: 90451},
+																									pos: position{line: 2864, col: 13, offset: 90665},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2858, col: 13, offset: 90451},
+																										pos:        position{line: 2864, col: 13, offset: 90665},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4653,28 +4653,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4683,9 +4683,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -4700,35 +4700,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 825, col: 5, offset: 26587},
+														pos: position{line: 831, col: 5, offset: 26801},
 														expr: &choiceExpr{
-															pos: position{line: 831, col: 29, offset: 26782},
+															pos: position{line: 837, col: 29, offset: 26996},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 743, col: 5, offset: 23782},
+																	pos: position{line: 749, col: 5, offset: 23996},
 																	run: (*parser).callonDocumentFragment142,
 																	expr: &seqExpr{
-																		pos: position{line: 743, col: 5, offset: 23782},
+																		pos: position{line: 749, col: 5, offset: 23996},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 743, col: 5, offset: 23782},
+																				pos:   position{line: 749, col: 5, offset: 23996},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 743, col: 16, offset: 23793},
+																					pos: position{line: 749, col: 16, offset: 24007},
 																					run: (*parser).callonDocumentFragment145,
 																					expr: &seqExpr{
-																						pos: position{line: 743, col: 16, offset: 23793},
+																						pos: position{line: 749, col: 16, offset: 24007},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 743, col: 16, offset: 23793},
+																								pos:        position{line: 749, col: 16, offset: 24007},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 743, col: 23, offset: 23800},
+																								pos: position{line: 749, col: 23, offset: 24014},
 																								expr: &litMatcher{
-																									pos:        position{line: 743, col: 23, offset: 23800},
+																									pos:        position{line: 749, col: 23, offset: 24014},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -4739,12 +4739,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 745, col: 8, offset: 23884},
+																				pos: position{line: 751, col: 8, offset: 24098},
 																				expr: &actionExpr{
-																					pos: position{line: 2912, col: 10, offset: 91925},
+																					pos: position{line: 2918, col: 10, offset: 92139},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2912, col: 10, offset: 91925},
+																						pos:        position{line: 2918, col: 10, offset: 92139},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4753,28 +4753,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2934, col: 8, offset: 92323},
+																				pos: position{line: 2940, col: 8, offset: 92537},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2921, col: 12, offset: 92096},
+																						pos: position{line: 2927, col: 12, offset: 92310},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2921, col: 13, offset: 92097},
+																							pos: position{line: 2927, col: 13, offset: 92311},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2921, col: 13, offset: 92097},
+																									pos:        position{line: 2927, col: 13, offset: 92311},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2921, col: 20, offset: 92104},
+																									pos:        position{line: 2927, col: 20, offset: 92318},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2921, col: 29, offset: 92113},
+																									pos:        position{line: 2927, col: 29, offset: 92327},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4783,9 +4783,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2931, col: 8, offset: 92273},
+																						pos: position{line: 2937, col: 8, offset: 92487},
 																						expr: &anyMatcher{
-																							line: 2931, col: 9, offset: 92274,
+																							line: 2937, col: 9, offset: 92488,
 																						},
 																					},
 																				},
@@ -4794,9 +4794,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2931, col: 8, offset: 92273},
+																	pos: position{line: 2937, col: 8, offset: 92487},
 																	expr: &anyMatcher{
-																		line: 2931, col: 9, offset: 92274,
+																		line: 2937, col: 9, offset: 92488,
 																	},
 																},
 															},
@@ -4806,39 +4806,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 843, col: 5, offset: 27023},
+											pos: position{line: 849, col: 5, offset: 27237},
 											run: (*parser).callonDocumentFragment163,
 											expr: &seqExpr{
-												pos: position{line: 843, col: 5, offset: 27023},
+												pos: position{line: 849, col: 5, offset: 27237},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 843, col: 5, offset: 27023},
+														pos:   position{line: 849, col: 5, offset: 27237},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 750, col: 5, offset: 24030},
+															pos: position{line: 756, col: 5, offset: 24244},
 															run: (*parser).callonDocumentFragment166,
 															expr: &seqExpr{
-																pos: position{line: 750, col: 5, offset: 24030},
+																pos: position{line: 756, col: 5, offset: 24244},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 750, col: 5, offset: 24030},
+																		pos:   position{line: 756, col: 5, offset: 24244},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 750, col: 16, offset: 24041},
+																			pos: position{line: 756, col: 16, offset: 24255},
 																			run: (*parser).callonDocumentFragment169,
 																			expr: &seqExpr{
-																				pos: position{line: 750, col: 16, offset: 24041},
+																				pos: position{line: 756, col: 16, offset: 24255},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 750, col: 16, offset: 24041},
+																						pos:        position{line: 756, col: 16, offset: 24255},
 																						val:        "====",
 																						ignoreCase: false,
 																						want:       "\"====\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 750, col: 23, offset: 24048},
+																						pos: position{line: 756, col: 23, offset: 24262},
 																						expr: &litMatcher{
-																							pos:        position{line: 750, col: 23, offset: 24048},
+																							pos:        position{line: 756, col: 23, offset: 24262},
 																							val:        "=",
 																							ignoreCase: false,
 																							want:       "\"=\"",
@@ -4849,12 +4849,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 752, col: 8, offset: 24132},
+																		pos: position{line: 758, col: 8, offset: 24346},
 																		expr: &actionExpr{
-																			pos: position{line: 2912, col: 10, offset: 91925},
+																			pos: position{line: 2918, col: 10, offset: 92139},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2912, col: 10, offset: 91925},
+																				pos:        position{line: 2918, col: 10, offset: 92139},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4863,28 +4863,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2934, col: 8, offset: 92323},
+																		pos: position{line: 2940, col: 8, offset: 92537},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4893,9 +4893,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2931, col: 8, offset: 92273},
+																				pos: position{line: 2937, col: 8, offset: 92487},
 																				expr: &anyMatcher{
-																					line: 2931, col: 9, offset: 92274,
+																					line: 2937, col: 9, offset: 92488,
 																				},
 																			},
 																		},
@@ -4905,56 +4905,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 844, col: 5, offset: 27062},
+														pos: position{line: 850, col: 5, offset: 27276},
 														run: (*parser).callonDocumentFragment185,
 													},
 													&labeledExpr{
-														pos:   position{line: 847, col: 5, offset: 27154},
+														pos:   position{line: 853, col: 5, offset: 27368},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 862, col: 4, offset: 27551},
+															pos: position{line: 868, col: 4, offset: 27765},
 															expr: &actionExpr{
-																pos: position{line: 862, col: 5, offset: 27552},
+																pos: position{line: 868, col: 5, offset: 27766},
 																run: (*parser).callonDocumentFragment188,
 																expr: &seqExpr{
-																	pos: position{line: 862, col: 5, offset: 27552},
+																	pos: position{line: 868, col: 5, offset: 27766},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 862, col: 5, offset: 27552},
+																			pos: position{line: 868, col: 5, offset: 27766},
 																			expr: &choiceExpr{
-																				pos: position{line: 855, col: 5, offset: 27394},
+																				pos: position{line: 861, col: 5, offset: 27608},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 855, col: 5, offset: 27394},
+																						pos: position{line: 861, col: 5, offset: 27608},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 855, col: 5, offset: 27394},
+																								pos:   position{line: 861, col: 5, offset: 27608},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 750, col: 5, offset: 24030},
+																									pos: position{line: 756, col: 5, offset: 24244},
 																									run: (*parser).callonDocumentFragment194,
 																									expr: &seqExpr{
-																										pos: position{line: 750, col: 5, offset: 24030},
+																										pos: position{line: 756, col: 5, offset: 24244},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 750, col: 5, offset: 24030},
+																												pos:   position{line: 756, col: 5, offset: 24244},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 750, col: 16, offset: 24041},
+																													pos: position{line: 756, col: 16, offset: 24255},
 																													run: (*parser).callonDocumentFragment197,
 																													expr: &seqExpr{
-																														pos: position{line: 750, col: 16, offset: 24041},
+																														pos: position{line: 756, col: 16, offset: 24255},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 750, col: 16, offset: 24041},
+																																pos:        position{line: 756, col: 16, offset: 24255},
 																																val:        "====",
 																																ignoreCase: false,
 																																want:       "\"====\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 750, col: 23, offset: 24048},
+																																pos: position{line: 756, col: 23, offset: 24262},
 																																expr: &litMatcher{
-																																	pos:        position{line: 750, col: 23, offset: 24048},
+																																	pos:        position{line: 756, col: 23, offset: 24262},
 																																	val:        "=",
 																																	ignoreCase: false,
 																																	want:       "\"=\"",
@@ -4965,12 +4965,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 752, col: 8, offset: 24132},
+																												pos: position{line: 758, col: 8, offset: 24346},
 																												expr: &actionExpr{
-																													pos: position{line: 2912, col: 10, offset: 91925},
+																													pos: position{line: 2918, col: 10, offset: 92139},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2912, col: 10, offset: 91925},
+																														pos:        position{line: 2918, col: 10, offset: 92139},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4979,28 +4979,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2934, col: 8, offset: 92323},
+																												pos: position{line: 2940, col: 8, offset: 92537},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2921, col: 12, offset: 92096},
+																														pos: position{line: 2927, col: 12, offset: 92310},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2921, col: 13, offset: 92097},
+																															pos: position{line: 2927, col: 13, offset: 92311},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2921, col: 13, offset: 92097},
+																																	pos:        position{line: 2927, col: 13, offset: 92311},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2921, col: 20, offset: 92104},
+																																	pos:        position{line: 2927, col: 20, offset: 92318},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2921, col: 29, offset: 92113},
+																																	pos:        position{line: 2927, col: 29, offset: 92327},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5009,9 +5009,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2931, col: 8, offset: 92273},
+																														pos: position{line: 2937, col: 8, offset: 92487},
 																														expr: &anyMatcher{
-																															line: 2931, col: 9, offset: 92274,
+																															line: 2937, col: 9, offset: 92488,
 																														},
 																													},
 																												},
@@ -5021,45 +5021,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 856, col: 5, offset: 27425},
+																								pos: position{line: 862, col: 5, offset: 27639},
 																								run: (*parser).callonDocumentFragment213,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2931, col: 8, offset: 92273},
+																						pos: position{line: 2937, col: 8, offset: 92487},
 																						expr: &anyMatcher{
-																							line: 2931, col: 9, offset: 92274,
+																							line: 2937, col: 9, offset: 92488,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 863, col: 5, offset: 27582},
+																			pos:   position{line: 869, col: 5, offset: 27796},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 814, col: 5, offset: 26286},
+																				pos: position{line: 820, col: 5, offset: 26500},
 																				run: (*parser).callonDocumentFragment217,
 																				expr: &seqExpr{
-																					pos: position{line: 814, col: 5, offset: 26286},
+																					pos: position{line: 820, col: 5, offset: 26500},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2929, col: 11, offset: 92259},
+																							pos: position{line: 2935, col: 11, offset: 92473},
 																							expr: &anyMatcher{
-																								line: 2929, col: 13, offset: 92261,
+																								line: 2935, col: 13, offset: 92475,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 815, col: 5, offset: 26361},
+																							pos:   position{line: 821, col: 5, offset: 26575},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2858, col: 13, offset: 90451},
+																								pos: position{line: 2864, col: 13, offset: 90665},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2858, col: 13, offset: 90451},
+																									pos: position{line: 2864, col: 13, offset: 90665},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2858, col: 13, offset: 90451},
+																										pos:        position{line: 2864, col: 13, offset: 90665},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5069,28 +5069,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5099,9 +5099,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -5116,44 +5116,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 848, col: 5, offset: 27188},
+														pos:   position{line: 854, col: 5, offset: 27402},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 848, col: 9, offset: 27192},
+															pos: position{line: 854, col: 9, offset: 27406},
 															expr: &choiceExpr{
-																pos: position{line: 855, col: 5, offset: 27394},
+																pos: position{line: 861, col: 5, offset: 27608},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 855, col: 5, offset: 27394},
+																		pos: position{line: 861, col: 5, offset: 27608},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 855, col: 5, offset: 27394},
+																				pos:   position{line: 861, col: 5, offset: 27608},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 750, col: 5, offset: 24030},
+																					pos: position{line: 756, col: 5, offset: 24244},
 																					run: (*parser).callonDocumentFragment238,
 																					expr: &seqExpr{
-																						pos: position{line: 750, col: 5, offset: 24030},
+																						pos: position{line: 756, col: 5, offset: 24244},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 750, col: 5, offset: 24030},
+																								pos:   position{line: 756, col: 5, offset: 24244},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 750, col: 16, offset: 24041},
+																									pos: position{line: 756, col: 16, offset: 24255},
 																									run: (*parser).callonDocumentFragment241,
 																									expr: &seqExpr{
-																										pos: position{line: 750, col: 16, offset: 24041},
+																										pos: position{line: 756, col: 16, offset: 24255},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 750, col: 16, offset: 24041},
+																												pos:        position{line: 756, col: 16, offset: 24255},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 750, col: 23, offset: 24048},
+																												pos: position{line: 756, col: 23, offset: 24262},
 																												expr: &litMatcher{
-																													pos:        position{line: 750, col: 23, offset: 24048},
+																													pos:        position{line: 756, col: 23, offset: 24262},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -5164,12 +5164,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 752, col: 8, offset: 24132},
+																								pos: position{line: 758, col: 8, offset: 24346},
 																								expr: &actionExpr{
-																									pos: position{line: 2912, col: 10, offset: 91925},
+																									pos: position{line: 2918, col: 10, offset: 92139},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2912, col: 10, offset: 91925},
+																										pos:        position{line: 2918, col: 10, offset: 92139},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5178,28 +5178,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2934, col: 8, offset: 92323},
+																								pos: position{line: 2940, col: 8, offset: 92537},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2921, col: 12, offset: 92096},
+																										pos: position{line: 2927, col: 12, offset: 92310},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2921, col: 13, offset: 92097},
+																											pos: position{line: 2927, col: 13, offset: 92311},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 13, offset: 92097},
+																													pos:        position{line: 2927, col: 13, offset: 92311},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 20, offset: 92104},
+																													pos:        position{line: 2927, col: 20, offset: 92318},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 29, offset: 92113},
+																													pos:        position{line: 2927, col: 29, offset: 92327},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5208,9 +5208,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2931, col: 8, offset: 92273},
+																										pos: position{line: 2937, col: 8, offset: 92487},
 																										expr: &anyMatcher{
-																											line: 2931, col: 9, offset: 92274,
+																											line: 2937, col: 9, offset: 92488,
 																										},
 																									},
 																								},
@@ -5220,15 +5220,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 856, col: 5, offset: 27425},
+																				pos: position{line: 862, col: 5, offset: 27639},
 																				run: (*parser).callonDocumentFragment257,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2931, col: 8, offset: 92273},
+																		pos: position{line: 2937, col: 8, offset: 92487},
 																		expr: &anyMatcher{
-																			line: 2931, col: 9, offset: 92274,
+																			line: 2937, col: 9, offset: 92488,
 																		},
 																	},
 																},
@@ -5239,36 +5239,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 955, col: 5, offset: 29874},
+											pos: position{line: 961, col: 5, offset: 30088},
 											run: (*parser).callonDocumentFragment260,
 											expr: &seqExpr{
-												pos: position{line: 955, col: 5, offset: 29874},
+												pos: position{line: 961, col: 5, offset: 30088},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 955, col: 5, offset: 29874},
+														pos:   position{line: 961, col: 5, offset: 30088},
 														label: "delimiter",
 														expr: &actionExpr{
-															pos: position{line: 763, col: 26, offset: 24518},
+															pos: position{line: 769, col: 26, offset: 24732},
 															run: (*parser).callonDocumentFragment263,
 															expr: &seqExpr{
-																pos: position{line: 763, col: 26, offset: 24518},
+																pos: position{line: 769, col: 26, offset: 24732},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 763, col: 26, offset: 24518},
+																		pos:        position{line: 769, col: 26, offset: 24732},
 																		val:        "```",
 																		ignoreCase: false,
 																		want:       "\"```\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 763, col: 32, offset: 24524},
+																		pos:   position{line: 769, col: 32, offset: 24738},
 																		label: "language",
 																		expr: &actionExpr{
-																			pos: position{line: 767, col: 13, offset: 24654},
+																			pos: position{line: 773, col: 13, offset: 24868},
 																			run: (*parser).callonDocumentFragment267,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 767, col: 14, offset: 24655},
+																				pos: position{line: 773, col: 14, offset: 24869},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 767, col: 14, offset: 24655},
+																					pos:        position{line: 773, col: 14, offset: 24869},
 																					val:        "[^\\r\\n` ]",
 																					chars:      []rune{'\r', '\n', '`', ' '},
 																					ignoreCase: false,
@@ -5278,12 +5278,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 763, col: 52, offset: 24544},
+																		pos: position{line: 769, col: 52, offset: 24758},
 																		expr: &actionExpr{
-																			pos: position{line: 2912, col: 10, offset: 91925},
+																			pos: position{line: 2918, col: 10, offset: 92139},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2912, col: 10, offset: 91925},
+																				pos:        position{line: 2918, col: 10, offset: 92139},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5292,28 +5292,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2934, col: 8, offset: 92323},
+																		pos: position{line: 2940, col: 8, offset: 92537},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5322,9 +5322,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2931, col: 8, offset: 92273},
+																				pos: position{line: 2937, col: 8, offset: 92487},
 																				expr: &anyMatcher{
-																					line: 2931, col: 9, offset: 92274,
+																					line: 2937, col: 9, offset: 92488,
 																				},
 																			},
 																		},
@@ -5334,34 +5334,34 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 956, col: 5, offset: 29920},
+														pos:   position{line: 962, col: 5, offset: 30134},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 969, col: 5, offset: 30393},
+															pos: position{line: 975, col: 5, offset: 30607},
 															expr: &actionExpr{
-																pos: position{line: 969, col: 6, offset: 30394},
+																pos: position{line: 975, col: 6, offset: 30608},
 																run: (*parser).callonDocumentFragment283,
 																expr: &seqExpr{
-																	pos: position{line: 969, col: 6, offset: 30394},
+																	pos: position{line: 975, col: 6, offset: 30608},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 969, col: 6, offset: 30394},
+																			pos: position{line: 975, col: 6, offset: 30608},
 																			expr: &seqExpr{
-																				pos: position{line: 966, col: 34, offset: 30341},
+																				pos: position{line: 972, col: 34, offset: 30555},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 966, col: 34, offset: 30341},
+																						pos:        position{line: 972, col: 34, offset: 30555},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 966, col: 40, offset: 30347},
+																						pos: position{line: 972, col: 40, offset: 30561},
 																						expr: &actionExpr{
-																							pos: position{line: 2912, col: 10, offset: 91925},
+																							pos: position{line: 2918, col: 10, offset: 92139},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2912, col: 10, offset: 91925},
+																								pos:        position{line: 2918, col: 10, offset: 92139},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5370,28 +5370,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2934, col: 8, offset: 92323},
+																						pos: position{line: 2940, col: 8, offset: 92537},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2921, col: 12, offset: 92096},
+																								pos: position{line: 2927, col: 12, offset: 92310},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2921, col: 13, offset: 92097},
+																									pos: position{line: 2927, col: 13, offset: 92311},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 13, offset: 92097},
+																											pos:        position{line: 2927, col: 13, offset: 92311},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 20, offset: 92104},
+																											pos:        position{line: 2927, col: 20, offset: 92318},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 29, offset: 92113},
+																											pos:        position{line: 2927, col: 29, offset: 92327},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5400,9 +5400,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2931, col: 8, offset: 92273},
+																								pos: position{line: 2937, col: 8, offset: 92487},
 																								expr: &anyMatcher{
-																									line: 2931, col: 9, offset: 92274,
+																									line: 2937, col: 9, offset: 92488,
 																								},
 																							},
 																						},
@@ -5411,30 +5411,30 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 970, col: 5, offset: 30429},
+																			pos:   position{line: 976, col: 5, offset: 30643},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 814, col: 5, offset: 26286},
+																				pos: position{line: 820, col: 5, offset: 26500},
 																				run: (*parser).callonDocumentFragment300,
 																				expr: &seqExpr{
-																					pos: position{line: 814, col: 5, offset: 26286},
+																					pos: position{line: 820, col: 5, offset: 26500},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2929, col: 11, offset: 92259},
+																							pos: position{line: 2935, col: 11, offset: 92473},
 																							expr: &anyMatcher{
-																								line: 2929, col: 13, offset: 92261,
+																								line: 2935, col: 13, offset: 92475,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 815, col: 5, offset: 26361},
+																							pos:   position{line: 821, col: 5, offset: 26575},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2858, col: 13, offset: 90451},
+																								pos: position{line: 2864, col: 13, offset: 90665},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2858, col: 13, offset: 90451},
+																									pos: position{line: 2864, col: 13, offset: 90665},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2858, col: 13, offset: 90451},
+																										pos:        position{line: 2864, col: 13, offset: 90665},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5444,28 +5444,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5474,9 +5474,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -5491,23 +5491,23 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 957, col: 5, offset: 29959},
+														pos: position{line: 963, col: 5, offset: 30173},
 														expr: &seqExpr{
-															pos: position{line: 966, col: 34, offset: 30341},
+															pos: position{line: 972, col: 34, offset: 30555},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 966, col: 34, offset: 30341},
+																	pos:        position{line: 972, col: 34, offset: 30555},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 966, col: 40, offset: 30347},
+																	pos: position{line: 972, col: 40, offset: 30561},
 																	expr: &actionExpr{
-																		pos: position{line: 2912, col: 10, offset: 91925},
+																		pos: position{line: 2918, col: 10, offset: 92139},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2912, col: 10, offset: 91925},
+																			pos:        position{line: 2918, col: 10, offset: 92139},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5516,28 +5516,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2934, col: 8, offset: 92323},
+																	pos: position{line: 2940, col: 8, offset: 92537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2921, col: 12, offset: 92096},
+																			pos: position{line: 2927, col: 12, offset: 92310},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2921, col: 13, offset: 92097},
+																				pos: position{line: 2927, col: 13, offset: 92311},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 13, offset: 92097},
+																						pos:        position{line: 2927, col: 13, offset: 92311},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 20, offset: 92104},
+																						pos:        position{line: 2927, col: 20, offset: 92318},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 29, offset: 92113},
+																						pos:        position{line: 2927, col: 29, offset: 92327},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5546,9 +5546,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2931, col: 8, offset: 92273},
+																			pos: position{line: 2937, col: 8, offset: 92487},
 																			expr: &anyMatcher{
-																				line: 2931, col: 9, offset: 92274,
+																				line: 2937, col: 9, offset: 92488,
 																			},
 																		},
 																	},
@@ -5560,39 +5560,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 871, col: 5, offset: 27735},
+											pos: position{line: 877, col: 5, offset: 27949},
 											run: (*parser).callonDocumentFragment330,
 											expr: &seqExpr{
-												pos: position{line: 871, col: 5, offset: 27735},
+												pos: position{line: 877, col: 5, offset: 27949},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 871, col: 5, offset: 27735},
+														pos:   position{line: 877, col: 5, offset: 27949},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 757, col: 5, offset: 24277},
+															pos: position{line: 763, col: 5, offset: 24491},
 															run: (*parser).callonDocumentFragment333,
 															expr: &seqExpr{
-																pos: position{line: 757, col: 5, offset: 24277},
+																pos: position{line: 763, col: 5, offset: 24491},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 757, col: 5, offset: 24277},
+																		pos:   position{line: 763, col: 5, offset: 24491},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 757, col: 16, offset: 24288},
+																			pos: position{line: 763, col: 16, offset: 24502},
 																			run: (*parser).callonDocumentFragment336,
 																			expr: &seqExpr{
-																				pos: position{line: 757, col: 16, offset: 24288},
+																				pos: position{line: 763, col: 16, offset: 24502},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 757, col: 16, offset: 24288},
+																						pos:        position{line: 763, col: 16, offset: 24502},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 757, col: 22, offset: 24294},
+																						pos: position{line: 763, col: 22, offset: 24508},
 																						expr: &litMatcher{
-																							pos:        position{line: 757, col: 22, offset: 24294},
+																							pos:        position{line: 763, col: 22, offset: 24508},
 																							val:        "`",
 																							ignoreCase: false,
 																							want:       "\"`\"",
@@ -5603,12 +5603,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 759, col: 8, offset: 24378},
+																		pos: position{line: 765, col: 8, offset: 24592},
 																		expr: &actionExpr{
-																			pos: position{line: 2912, col: 10, offset: 91925},
+																			pos: position{line: 2918, col: 10, offset: 92139},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2912, col: 10, offset: 91925},
+																				pos:        position{line: 2918, col: 10, offset: 92139},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5617,28 +5617,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2934, col: 8, offset: 92323},
+																		pos: position{line: 2940, col: 8, offset: 92537},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5647,9 +5647,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2931, col: 8, offset: 92273},
+																				pos: position{line: 2937, col: 8, offset: 92487},
 																				expr: &anyMatcher{
-																					line: 2931, col: 9, offset: 92274,
+																					line: 2937, col: 9, offset: 92488,
 																				},
 																			},
 																		},
@@ -5659,56 +5659,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 872, col: 5, offset: 27773},
+														pos: position{line: 878, col: 5, offset: 27987},
 														run: (*parser).callonDocumentFragment352,
 													},
 													&labeledExpr{
-														pos:   position{line: 875, col: 5, offset: 27865},
+														pos:   position{line: 881, col: 5, offset: 28079},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 890, col: 5, offset: 28255},
+															pos: position{line: 896, col: 5, offset: 28469},
 															expr: &actionExpr{
-																pos: position{line: 890, col: 6, offset: 28256},
+																pos: position{line: 896, col: 6, offset: 28470},
 																run: (*parser).callonDocumentFragment355,
 																expr: &seqExpr{
-																	pos: position{line: 890, col: 6, offset: 28256},
+																	pos: position{line: 896, col: 6, offset: 28470},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 890, col: 6, offset: 28256},
+																			pos: position{line: 896, col: 6, offset: 28470},
 																			expr: &choiceExpr{
-																				pos: position{line: 883, col: 5, offset: 28099},
+																				pos: position{line: 889, col: 5, offset: 28313},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 883, col: 5, offset: 28099},
+																						pos: position{line: 889, col: 5, offset: 28313},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 883, col: 5, offset: 28099},
+																								pos:   position{line: 889, col: 5, offset: 28313},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 757, col: 5, offset: 24277},
+																									pos: position{line: 763, col: 5, offset: 24491},
 																									run: (*parser).callonDocumentFragment361,
 																									expr: &seqExpr{
-																										pos: position{line: 757, col: 5, offset: 24277},
+																										pos: position{line: 763, col: 5, offset: 24491},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 757, col: 5, offset: 24277},
+																												pos:   position{line: 763, col: 5, offset: 24491},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 757, col: 16, offset: 24288},
+																													pos: position{line: 763, col: 16, offset: 24502},
 																													run: (*parser).callonDocumentFragment364,
 																													expr: &seqExpr{
-																														pos: position{line: 757, col: 16, offset: 24288},
+																														pos: position{line: 763, col: 16, offset: 24502},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 757, col: 16, offset: 24288},
+																																pos:        position{line: 763, col: 16, offset: 24502},
 																																val:        "```",
 																																ignoreCase: false,
 																																want:       "\"```\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 757, col: 22, offset: 24294},
+																																pos: position{line: 763, col: 22, offset: 24508},
 																																expr: &litMatcher{
-																																	pos:        position{line: 757, col: 22, offset: 24294},
+																																	pos:        position{line: 763, col: 22, offset: 24508},
 																																	val:        "`",
 																																	ignoreCase: false,
 																																	want:       "\"`\"",
@@ -5719,12 +5719,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 759, col: 8, offset: 24378},
+																												pos: position{line: 765, col: 8, offset: 24592},
 																												expr: &actionExpr{
-																													pos: position{line: 2912, col: 10, offset: 91925},
+																													pos: position{line: 2918, col: 10, offset: 92139},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2912, col: 10, offset: 91925},
+																														pos:        position{line: 2918, col: 10, offset: 92139},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5733,28 +5733,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2934, col: 8, offset: 92323},
+																												pos: position{line: 2940, col: 8, offset: 92537},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2921, col: 12, offset: 92096},
+																														pos: position{line: 2927, col: 12, offset: 92310},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2921, col: 13, offset: 92097},
+																															pos: position{line: 2927, col: 13, offset: 92311},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2921, col: 13, offset: 92097},
+																																	pos:        position{line: 2927, col: 13, offset: 92311},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2921, col: 20, offset: 92104},
+																																	pos:        position{line: 2927, col: 20, offset: 92318},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2921, col: 29, offset: 92113},
+																																	pos:        position{line: 2927, col: 29, offset: 92327},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5763,9 +5763,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2931, col: 8, offset: 92273},
+																														pos: position{line: 2937, col: 8, offset: 92487},
 																														expr: &anyMatcher{
-																															line: 2931, col: 9, offset: 92274,
+																															line: 2937, col: 9, offset: 92488,
 																														},
 																													},
 																												},
@@ -5775,45 +5775,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 884, col: 5, offset: 28129},
+																								pos: position{line: 890, col: 5, offset: 28343},
 																								run: (*parser).callonDocumentFragment380,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2931, col: 8, offset: 92273},
+																						pos: position{line: 2937, col: 8, offset: 92487},
 																						expr: &anyMatcher{
-																							line: 2931, col: 9, offset: 92274,
+																							line: 2937, col: 9, offset: 92488,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 891, col: 5, offset: 28285},
+																			pos:   position{line: 897, col: 5, offset: 28499},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 814, col: 5, offset: 26286},
+																				pos: position{line: 820, col: 5, offset: 26500},
 																				run: (*parser).callonDocumentFragment384,
 																				expr: &seqExpr{
-																					pos: position{line: 814, col: 5, offset: 26286},
+																					pos: position{line: 820, col: 5, offset: 26500},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2929, col: 11, offset: 92259},
+																							pos: position{line: 2935, col: 11, offset: 92473},
 																							expr: &anyMatcher{
-																								line: 2929, col: 13, offset: 92261,
+																								line: 2935, col: 13, offset: 92475,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 815, col: 5, offset: 26361},
+																							pos:   position{line: 821, col: 5, offset: 26575},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2858, col: 13, offset: 90451},
+																								pos: position{line: 2864, col: 13, offset: 90665},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2858, col: 13, offset: 90451},
+																									pos: position{line: 2864, col: 13, offset: 90665},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2858, col: 13, offset: 90451},
+																										pos:        position{line: 2864, col: 13, offset: 90665},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5823,28 +5823,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5853,9 +5853,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -5870,44 +5870,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 876, col: 5, offset: 27898},
+														pos:   position{line: 882, col: 5, offset: 28112},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 876, col: 9, offset: 27902},
+															pos: position{line: 882, col: 9, offset: 28116},
 															expr: &choiceExpr{
-																pos: position{line: 883, col: 5, offset: 28099},
+																pos: position{line: 889, col: 5, offset: 28313},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 883, col: 5, offset: 28099},
+																		pos: position{line: 889, col: 5, offset: 28313},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 883, col: 5, offset: 28099},
+																				pos:   position{line: 889, col: 5, offset: 28313},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 757, col: 5, offset: 24277},
+																					pos: position{line: 763, col: 5, offset: 24491},
 																					run: (*parser).callonDocumentFragment405,
 																					expr: &seqExpr{
-																						pos: position{line: 757, col: 5, offset: 24277},
+																						pos: position{line: 763, col: 5, offset: 24491},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 757, col: 5, offset: 24277},
+																								pos:   position{line: 763, col: 5, offset: 24491},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 757, col: 16, offset: 24288},
+																									pos: position{line: 763, col: 16, offset: 24502},
 																									run: (*parser).callonDocumentFragment408,
 																									expr: &seqExpr{
-																										pos: position{line: 757, col: 16, offset: 24288},
+																										pos: position{line: 763, col: 16, offset: 24502},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 757, col: 16, offset: 24288},
+																												pos:        position{line: 763, col: 16, offset: 24502},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 757, col: 22, offset: 24294},
+																												pos: position{line: 763, col: 22, offset: 24508},
 																												expr: &litMatcher{
-																													pos:        position{line: 757, col: 22, offset: 24294},
+																													pos:        position{line: 763, col: 22, offset: 24508},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -5918,12 +5918,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 759, col: 8, offset: 24378},
+																								pos: position{line: 765, col: 8, offset: 24592},
 																								expr: &actionExpr{
-																									pos: position{line: 2912, col: 10, offset: 91925},
+																									pos: position{line: 2918, col: 10, offset: 92139},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2912, col: 10, offset: 91925},
+																										pos:        position{line: 2918, col: 10, offset: 92139},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5932,28 +5932,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2934, col: 8, offset: 92323},
+																								pos: position{line: 2940, col: 8, offset: 92537},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2921, col: 12, offset: 92096},
+																										pos: position{line: 2927, col: 12, offset: 92310},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2921, col: 13, offset: 92097},
+																											pos: position{line: 2927, col: 13, offset: 92311},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 13, offset: 92097},
+																													pos:        position{line: 2927, col: 13, offset: 92311},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 20, offset: 92104},
+																													pos:        position{line: 2927, col: 20, offset: 92318},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 29, offset: 92113},
+																													pos:        position{line: 2927, col: 29, offset: 92327},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5962,9 +5962,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2931, col: 8, offset: 92273},
+																										pos: position{line: 2937, col: 8, offset: 92487},
 																										expr: &anyMatcher{
-																											line: 2931, col: 9, offset: 92274,
+																											line: 2937, col: 9, offset: 92488,
 																										},
 																									},
 																								},
@@ -5974,15 +5974,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 884, col: 5, offset: 28129},
+																				pos: position{line: 890, col: 5, offset: 28343},
 																				run: (*parser).callonDocumentFragment424,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2931, col: 8, offset: 92273},
+																		pos: position{line: 2937, col: 8, offset: 92487},
 																		expr: &anyMatcher{
-																			line: 2931, col: 9, offset: 92274,
+																			line: 2937, col: 9, offset: 92488,
 																		},
 																	},
 																},
@@ -5993,39 +5993,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 899, col: 5, offset: 28440},
+											pos: position{line: 905, col: 5, offset: 28654},
 											run: (*parser).callonDocumentFragment427,
 											expr: &seqExpr{
-												pos: position{line: 899, col: 5, offset: 28440},
+												pos: position{line: 905, col: 5, offset: 28654},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 899, col: 5, offset: 28440},
+														pos:   position{line: 905, col: 5, offset: 28654},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 772, col: 5, offset: 24814},
+															pos: position{line: 778, col: 5, offset: 25028},
 															run: (*parser).callonDocumentFragment430,
 															expr: &seqExpr{
-																pos: position{line: 772, col: 5, offset: 24814},
+																pos: position{line: 778, col: 5, offset: 25028},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 772, col: 5, offset: 24814},
+																		pos:   position{line: 778, col: 5, offset: 25028},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 772, col: 16, offset: 24825},
+																			pos: position{line: 778, col: 16, offset: 25039},
 																			run: (*parser).callonDocumentFragment433,
 																			expr: &seqExpr{
-																				pos: position{line: 772, col: 16, offset: 24825},
+																				pos: position{line: 778, col: 16, offset: 25039},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 772, col: 16, offset: 24825},
+																						pos:        position{line: 778, col: 16, offset: 25039},
 																						val:        "----",
 																						ignoreCase: false,
 																						want:       "\"----\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 772, col: 23, offset: 24832},
+																						pos: position{line: 778, col: 23, offset: 25046},
 																						expr: &litMatcher{
-																							pos:        position{line: 772, col: 23, offset: 24832},
+																							pos:        position{line: 778, col: 23, offset: 25046},
 																							val:        "-",
 																							ignoreCase: false,
 																							want:       "\"-\"",
@@ -6036,12 +6036,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 774, col: 8, offset: 24916},
+																		pos: position{line: 780, col: 8, offset: 25130},
 																		expr: &actionExpr{
-																			pos: position{line: 2912, col: 10, offset: 91925},
+																			pos: position{line: 2918, col: 10, offset: 92139},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2912, col: 10, offset: 91925},
+																				pos:        position{line: 2918, col: 10, offset: 92139},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6050,28 +6050,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2934, col: 8, offset: 92323},
+																		pos: position{line: 2940, col: 8, offset: 92537},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6080,9 +6080,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2931, col: 8, offset: 92273},
+																				pos: position{line: 2937, col: 8, offset: 92487},
 																				expr: &anyMatcher{
-																					line: 2931, col: 9, offset: 92274,
+																					line: 2937, col: 9, offset: 92488,
 																				},
 																			},
 																		},
@@ -6092,56 +6092,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 900, col: 5, offset: 28479},
+														pos: position{line: 906, col: 5, offset: 28693},
 														run: (*parser).callonDocumentFragment449,
 													},
 													&labeledExpr{
-														pos:   position{line: 903, col: 5, offset: 28571},
+														pos:   position{line: 909, col: 5, offset: 28785},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 918, col: 5, offset: 28969},
+															pos: position{line: 924, col: 5, offset: 29183},
 															expr: &actionExpr{
-																pos: position{line: 918, col: 6, offset: 28970},
+																pos: position{line: 924, col: 6, offset: 29184},
 																run: (*parser).callonDocumentFragment452,
 																expr: &seqExpr{
-																	pos: position{line: 918, col: 6, offset: 28970},
+																	pos: position{line: 924, col: 6, offset: 29184},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 918, col: 6, offset: 28970},
+																			pos: position{line: 924, col: 6, offset: 29184},
 																			expr: &choiceExpr{
-																				pos: position{line: 911, col: 5, offset: 28811},
+																				pos: position{line: 917, col: 5, offset: 29025},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 911, col: 5, offset: 28811},
+																						pos: position{line: 917, col: 5, offset: 29025},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 911, col: 5, offset: 28811},
+																								pos:   position{line: 917, col: 5, offset: 29025},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 772, col: 5, offset: 24814},
+																									pos: position{line: 778, col: 5, offset: 25028},
 																									run: (*parser).callonDocumentFragment458,
 																									expr: &seqExpr{
-																										pos: position{line: 772, col: 5, offset: 24814},
+																										pos: position{line: 778, col: 5, offset: 25028},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 772, col: 5, offset: 24814},
+																												pos:   position{line: 778, col: 5, offset: 25028},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 772, col: 16, offset: 24825},
+																													pos: position{line: 778, col: 16, offset: 25039},
 																													run: (*parser).callonDocumentFragment461,
 																													expr: &seqExpr{
-																														pos: position{line: 772, col: 16, offset: 24825},
+																														pos: position{line: 778, col: 16, offset: 25039},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 772, col: 16, offset: 24825},
+																																pos:        position{line: 778, col: 16, offset: 25039},
 																																val:        "----",
 																																ignoreCase: false,
 																																want:       "\"----\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 772, col: 23, offset: 24832},
+																																pos: position{line: 778, col: 23, offset: 25046},
 																																expr: &litMatcher{
-																																	pos:        position{line: 772, col: 23, offset: 24832},
+																																	pos:        position{line: 778, col: 23, offset: 25046},
 																																	val:        "-",
 																																	ignoreCase: false,
 																																	want:       "\"-\"",
@@ -6152,12 +6152,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 774, col: 8, offset: 24916},
+																												pos: position{line: 780, col: 8, offset: 25130},
 																												expr: &actionExpr{
-																													pos: position{line: 2912, col: 10, offset: 91925},
+																													pos: position{line: 2918, col: 10, offset: 92139},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2912, col: 10, offset: 91925},
+																														pos:        position{line: 2918, col: 10, offset: 92139},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6166,28 +6166,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2934, col: 8, offset: 92323},
+																												pos: position{line: 2940, col: 8, offset: 92537},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2921, col: 12, offset: 92096},
+																														pos: position{line: 2927, col: 12, offset: 92310},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2921, col: 13, offset: 92097},
+																															pos: position{line: 2927, col: 13, offset: 92311},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2921, col: 13, offset: 92097},
+																																	pos:        position{line: 2927, col: 13, offset: 92311},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2921, col: 20, offset: 92104},
+																																	pos:        position{line: 2927, col: 20, offset: 92318},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2921, col: 29, offset: 92113},
+																																	pos:        position{line: 2927, col: 29, offset: 92327},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6196,9 +6196,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2931, col: 8, offset: 92273},
+																														pos: position{line: 2937, col: 8, offset: 92487},
 																														expr: &anyMatcher{
-																															line: 2931, col: 9, offset: 92274,
+																															line: 2937, col: 9, offset: 92488,
 																														},
 																													},
 																												},
@@ -6208,45 +6208,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 912, col: 5, offset: 28842},
+																								pos: position{line: 918, col: 5, offset: 29056},
 																								run: (*parser).callonDocumentFragment477,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2931, col: 8, offset: 92273},
+																						pos: position{line: 2937, col: 8, offset: 92487},
 																						expr: &anyMatcher{
-																							line: 2931, col: 9, offset: 92274,
+																							line: 2937, col: 9, offset: 92488,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 919, col: 5, offset: 29000},
+																			pos:   position{line: 925, col: 5, offset: 29214},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 814, col: 5, offset: 26286},
+																				pos: position{line: 820, col: 5, offset: 26500},
 																				run: (*parser).callonDocumentFragment481,
 																				expr: &seqExpr{
-																					pos: position{line: 814, col: 5, offset: 26286},
+																					pos: position{line: 820, col: 5, offset: 26500},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2929, col: 11, offset: 92259},
+																							pos: position{line: 2935, col: 11, offset: 92473},
 																							expr: &anyMatcher{
-																								line: 2929, col: 13, offset: 92261,
+																								line: 2935, col: 13, offset: 92475,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 815, col: 5, offset: 26361},
+																							pos:   position{line: 821, col: 5, offset: 26575},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2858, col: 13, offset: 90451},
+																								pos: position{line: 2864, col: 13, offset: 90665},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2858, col: 13, offset: 90451},
+																									pos: position{line: 2864, col: 13, offset: 90665},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2858, col: 13, offset: 90451},
+																										pos:        position{line: 2864, col: 13, offset: 90665},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6256,28 +6256,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6286,9 +6286,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -6303,44 +6303,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 904, col: 5, offset: 28605},
+														pos:   position{line: 910, col: 5, offset: 28819},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 904, col: 9, offset: 28609},
+															pos: position{line: 910, col: 9, offset: 28823},
 															expr: &choiceExpr{
-																pos: position{line: 911, col: 5, offset: 28811},
+																pos: position{line: 917, col: 5, offset: 29025},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 911, col: 5, offset: 28811},
+																		pos: position{line: 917, col: 5, offset: 29025},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 911, col: 5, offset: 28811},
+																				pos:   position{line: 917, col: 5, offset: 29025},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 772, col: 5, offset: 24814},
+																					pos: position{line: 778, col: 5, offset: 25028},
 																					run: (*parser).callonDocumentFragment502,
 																					expr: &seqExpr{
-																						pos: position{line: 772, col: 5, offset: 24814},
+																						pos: position{line: 778, col: 5, offset: 25028},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 772, col: 5, offset: 24814},
+																								pos:   position{line: 778, col: 5, offset: 25028},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 772, col: 16, offset: 24825},
+																									pos: position{line: 778, col: 16, offset: 25039},
 																									run: (*parser).callonDocumentFragment505,
 																									expr: &seqExpr{
-																										pos: position{line: 772, col: 16, offset: 24825},
+																										pos: position{line: 778, col: 16, offset: 25039},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 772, col: 16, offset: 24825},
+																												pos:        position{line: 778, col: 16, offset: 25039},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 772, col: 23, offset: 24832},
+																												pos: position{line: 778, col: 23, offset: 25046},
 																												expr: &litMatcher{
-																													pos:        position{line: 772, col: 23, offset: 24832},
+																													pos:        position{line: 778, col: 23, offset: 25046},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -6351,12 +6351,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 774, col: 8, offset: 24916},
+																								pos: position{line: 780, col: 8, offset: 25130},
 																								expr: &actionExpr{
-																									pos: position{line: 2912, col: 10, offset: 91925},
+																									pos: position{line: 2918, col: 10, offset: 92139},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2912, col: 10, offset: 91925},
+																										pos:        position{line: 2918, col: 10, offset: 92139},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6365,28 +6365,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2934, col: 8, offset: 92323},
+																								pos: position{line: 2940, col: 8, offset: 92537},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2921, col: 12, offset: 92096},
+																										pos: position{line: 2927, col: 12, offset: 92310},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2921, col: 13, offset: 92097},
+																											pos: position{line: 2927, col: 13, offset: 92311},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 13, offset: 92097},
+																													pos:        position{line: 2927, col: 13, offset: 92311},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 20, offset: 92104},
+																													pos:        position{line: 2927, col: 20, offset: 92318},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 29, offset: 92113},
+																													pos:        position{line: 2927, col: 29, offset: 92327},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6395,9 +6395,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2931, col: 8, offset: 92273},
+																										pos: position{line: 2937, col: 8, offset: 92487},
 																										expr: &anyMatcher{
-																											line: 2931, col: 9, offset: 92274,
+																											line: 2937, col: 9, offset: 92488,
 																										},
 																									},
 																								},
@@ -6407,15 +6407,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 912, col: 5, offset: 28842},
+																				pos: position{line: 918, col: 5, offset: 29056},
 																				run: (*parser).callonDocumentFragment521,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2931, col: 8, offset: 92273},
+																		pos: position{line: 2937, col: 8, offset: 92487},
 																		expr: &anyMatcher{
-																			line: 2931, col: 9, offset: 92274,
+																			line: 2937, col: 9, offset: 92488,
 																		},
 																	},
 																},
@@ -6426,39 +6426,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 927, col: 5, offset: 29155},
+											pos: position{line: 933, col: 5, offset: 29369},
 											run: (*parser).callonDocumentFragment524,
 											expr: &seqExpr{
-												pos: position{line: 927, col: 5, offset: 29155},
+												pos: position{line: 933, col: 5, offset: 29369},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 927, col: 5, offset: 29155},
+														pos:   position{line: 933, col: 5, offset: 29369},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 786, col: 5, offset: 25290},
+															pos: position{line: 792, col: 5, offset: 25504},
 															run: (*parser).callonDocumentFragment527,
 															expr: &seqExpr{
-																pos: position{line: 786, col: 5, offset: 25290},
+																pos: position{line: 792, col: 5, offset: 25504},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 786, col: 5, offset: 25290},
+																		pos:   position{line: 792, col: 5, offset: 25504},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 786, col: 16, offset: 25301},
+																			pos: position{line: 792, col: 16, offset: 25515},
 																			run: (*parser).callonDocumentFragment530,
 																			expr: &seqExpr{
-																				pos: position{line: 786, col: 16, offset: 25301},
+																				pos: position{line: 792, col: 16, offset: 25515},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 786, col: 16, offset: 25301},
+																						pos:        position{line: 792, col: 16, offset: 25515},
 																						val:        "....",
 																						ignoreCase: false,
 																						want:       "\"....\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 786, col: 23, offset: 25308},
+																						pos: position{line: 792, col: 23, offset: 25522},
 																						expr: &litMatcher{
-																							pos:        position{line: 786, col: 23, offset: 25308},
+																							pos:        position{line: 792, col: 23, offset: 25522},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -6469,12 +6469,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 788, col: 8, offset: 25392},
+																		pos: position{line: 794, col: 8, offset: 25606},
 																		expr: &actionExpr{
-																			pos: position{line: 2912, col: 10, offset: 91925},
+																			pos: position{line: 2918, col: 10, offset: 92139},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2912, col: 10, offset: 91925},
+																				pos:        position{line: 2918, col: 10, offset: 92139},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6483,28 +6483,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2934, col: 8, offset: 92323},
+																		pos: position{line: 2940, col: 8, offset: 92537},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6513,9 +6513,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2931, col: 8, offset: 92273},
+																				pos: position{line: 2937, col: 8, offset: 92487},
 																				expr: &anyMatcher{
-																					line: 2931, col: 9, offset: 92274,
+																					line: 2937, col: 9, offset: 92488,
 																				},
 																			},
 																		},
@@ -6525,56 +6525,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 928, col: 5, offset: 29194},
+														pos: position{line: 934, col: 5, offset: 29408},
 														run: (*parser).callonDocumentFragment546,
 													},
 													&labeledExpr{
-														pos:   position{line: 931, col: 5, offset: 29286},
+														pos:   position{line: 937, col: 5, offset: 29500},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 946, col: 5, offset: 29684},
+															pos: position{line: 952, col: 5, offset: 29898},
 															expr: &actionExpr{
-																pos: position{line: 946, col: 6, offset: 29685},
+																pos: position{line: 952, col: 6, offset: 29899},
 																run: (*parser).callonDocumentFragment549,
 																expr: &seqExpr{
-																	pos: position{line: 946, col: 6, offset: 29685},
+																	pos: position{line: 952, col: 6, offset: 29899},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 946, col: 6, offset: 29685},
+																			pos: position{line: 952, col: 6, offset: 29899},
 																			expr: &choiceExpr{
-																				pos: position{line: 939, col: 5, offset: 29526},
+																				pos: position{line: 945, col: 5, offset: 29740},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 939, col: 5, offset: 29526},
+																						pos: position{line: 945, col: 5, offset: 29740},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 939, col: 5, offset: 29526},
+																								pos:   position{line: 945, col: 5, offset: 29740},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 786, col: 5, offset: 25290},
+																									pos: position{line: 792, col: 5, offset: 25504},
 																									run: (*parser).callonDocumentFragment555,
 																									expr: &seqExpr{
-																										pos: position{line: 786, col: 5, offset: 25290},
+																										pos: position{line: 792, col: 5, offset: 25504},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 786, col: 5, offset: 25290},
+																												pos:   position{line: 792, col: 5, offset: 25504},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 786, col: 16, offset: 25301},
+																													pos: position{line: 792, col: 16, offset: 25515},
 																													run: (*parser).callonDocumentFragment558,
 																													expr: &seqExpr{
-																														pos: position{line: 786, col: 16, offset: 25301},
+																														pos: position{line: 792, col: 16, offset: 25515},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 786, col: 16, offset: 25301},
+																																pos:        position{line: 792, col: 16, offset: 25515},
 																																val:        "....",
 																																ignoreCase: false,
 																																want:       "\"....\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 786, col: 23, offset: 25308},
+																																pos: position{line: 792, col: 23, offset: 25522},
 																																expr: &litMatcher{
-																																	pos:        position{line: 786, col: 23, offset: 25308},
+																																	pos:        position{line: 792, col: 23, offset: 25522},
 																																	val:        ".",
 																																	ignoreCase: false,
 																																	want:       "\".\"",
@@ -6585,12 +6585,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 788, col: 8, offset: 25392},
+																												pos: position{line: 794, col: 8, offset: 25606},
 																												expr: &actionExpr{
-																													pos: position{line: 2912, col: 10, offset: 91925},
+																													pos: position{line: 2918, col: 10, offset: 92139},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2912, col: 10, offset: 91925},
+																														pos:        position{line: 2918, col: 10, offset: 92139},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6599,28 +6599,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2934, col: 8, offset: 92323},
+																												pos: position{line: 2940, col: 8, offset: 92537},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2921, col: 12, offset: 92096},
+																														pos: position{line: 2927, col: 12, offset: 92310},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2921, col: 13, offset: 92097},
+																															pos: position{line: 2927, col: 13, offset: 92311},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2921, col: 13, offset: 92097},
+																																	pos:        position{line: 2927, col: 13, offset: 92311},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2921, col: 20, offset: 92104},
+																																	pos:        position{line: 2927, col: 20, offset: 92318},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2921, col: 29, offset: 92113},
+																																	pos:        position{line: 2927, col: 29, offset: 92327},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6629,9 +6629,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2931, col: 8, offset: 92273},
+																														pos: position{line: 2937, col: 8, offset: 92487},
 																														expr: &anyMatcher{
-																															line: 2931, col: 9, offset: 92274,
+																															line: 2937, col: 9, offset: 92488,
 																														},
 																													},
 																												},
@@ -6641,45 +6641,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 940, col: 5, offset: 29557},
+																								pos: position{line: 946, col: 5, offset: 29771},
 																								run: (*parser).callonDocumentFragment574,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2931, col: 8, offset: 92273},
+																						pos: position{line: 2937, col: 8, offset: 92487},
 																						expr: &anyMatcher{
-																							line: 2931, col: 9, offset: 92274,
+																							line: 2937, col: 9, offset: 92488,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 947, col: 5, offset: 29715},
+																			pos:   position{line: 953, col: 5, offset: 29929},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 814, col: 5, offset: 26286},
+																				pos: position{line: 820, col: 5, offset: 26500},
 																				run: (*parser).callonDocumentFragment578,
 																				expr: &seqExpr{
-																					pos: position{line: 814, col: 5, offset: 26286},
+																					pos: position{line: 820, col: 5, offset: 26500},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2929, col: 11, offset: 92259},
+																							pos: position{line: 2935, col: 11, offset: 92473},
 																							expr: &anyMatcher{
-																								line: 2929, col: 13, offset: 92261,
+																								line: 2935, col: 13, offset: 92475,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 815, col: 5, offset: 26361},
+																							pos:   position{line: 821, col: 5, offset: 26575},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2858, col: 13, offset: 90451},
+																								pos: position{line: 2864, col: 13, offset: 90665},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2858, col: 13, offset: 90451},
+																									pos: position{line: 2864, col: 13, offset: 90665},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2858, col: 13, offset: 90451},
+																										pos:        position{line: 2864, col: 13, offset: 90665},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6689,28 +6689,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6719,9 +6719,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -6736,44 +6736,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 932, col: 5, offset: 29320},
+														pos:   position{line: 938, col: 5, offset: 29534},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 932, col: 9, offset: 29324},
+															pos: position{line: 938, col: 9, offset: 29538},
 															expr: &choiceExpr{
-																pos: position{line: 939, col: 5, offset: 29526},
+																pos: position{line: 945, col: 5, offset: 29740},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 939, col: 5, offset: 29526},
+																		pos: position{line: 945, col: 5, offset: 29740},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 939, col: 5, offset: 29526},
+																				pos:   position{line: 945, col: 5, offset: 29740},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 786, col: 5, offset: 25290},
+																					pos: position{line: 792, col: 5, offset: 25504},
 																					run: (*parser).callonDocumentFragment599,
 																					expr: &seqExpr{
-																						pos: position{line: 786, col: 5, offset: 25290},
+																						pos: position{line: 792, col: 5, offset: 25504},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 786, col: 5, offset: 25290},
+																								pos:   position{line: 792, col: 5, offset: 25504},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 786, col: 16, offset: 25301},
+																									pos: position{line: 792, col: 16, offset: 25515},
 																									run: (*parser).callonDocumentFragment602,
 																									expr: &seqExpr{
-																										pos: position{line: 786, col: 16, offset: 25301},
+																										pos: position{line: 792, col: 16, offset: 25515},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 786, col: 16, offset: 25301},
+																												pos:        position{line: 792, col: 16, offset: 25515},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 786, col: 23, offset: 25308},
+																												pos: position{line: 792, col: 23, offset: 25522},
 																												expr: &litMatcher{
-																													pos:        position{line: 786, col: 23, offset: 25308},
+																													pos:        position{line: 792, col: 23, offset: 25522},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -6784,12 +6784,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 788, col: 8, offset: 25392},
+																								pos: position{line: 794, col: 8, offset: 25606},
 																								expr: &actionExpr{
-																									pos: position{line: 2912, col: 10, offset: 91925},
+																									pos: position{line: 2918, col: 10, offset: 92139},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2912, col: 10, offset: 91925},
+																										pos:        position{line: 2918, col: 10, offset: 92139},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6798,28 +6798,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2934, col: 8, offset: 92323},
+																								pos: position{line: 2940, col: 8, offset: 92537},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2921, col: 12, offset: 92096},
+																										pos: position{line: 2927, col: 12, offset: 92310},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2921, col: 13, offset: 92097},
+																											pos: position{line: 2927, col: 13, offset: 92311},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 13, offset: 92097},
+																													pos:        position{line: 2927, col: 13, offset: 92311},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 20, offset: 92104},
+																													pos:        position{line: 2927, col: 20, offset: 92318},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 29, offset: 92113},
+																													pos:        position{line: 2927, col: 29, offset: 92327},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6828,9 +6828,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2931, col: 8, offset: 92273},
+																										pos: position{line: 2937, col: 8, offset: 92487},
 																										expr: &anyMatcher{
-																											line: 2931, col: 9, offset: 92274,
+																											line: 2937, col: 9, offset: 92488,
 																										},
 																									},
 																								},
@@ -6840,15 +6840,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 940, col: 5, offset: 29557},
+																				pos: position{line: 946, col: 5, offset: 29771},
 																				run: (*parser).callonDocumentFragment618,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2931, col: 8, offset: 92273},
+																		pos: position{line: 2937, col: 8, offset: 92487},
 																		expr: &anyMatcher{
-																			line: 2931, col: 9, offset: 92274,
+																			line: 2937, col: 9, offset: 92488,
 																		},
 																	},
 																},
@@ -6859,41 +6859,41 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 978, col: 5, offset: 30598},
+											pos: position{line: 984, col: 5, offset: 30812},
 											run: (*parser).callonDocumentFragment621,
 											expr: &seqExpr{
-												pos: position{line: 978, col: 5, offset: 30598},
+												pos: position{line: 984, col: 5, offset: 30812},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 978, col: 5, offset: 30598},
+														pos:   position{line: 984, col: 5, offset: 30812},
 														label: "firstLine",
 														expr: &actionExpr{
-															pos: position{line: 985, col: 5, offset: 30857},
+															pos: position{line: 991, col: 5, offset: 31071},
 															run: (*parser).callonDocumentFragment624,
 															expr: &seqExpr{
-																pos: position{line: 985, col: 5, offset: 30857},
+																pos: position{line: 991, col: 5, offset: 31071},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 985, col: 5, offset: 30857},
+																		pos: position{line: 991, col: 5, offset: 31071},
 																		expr: &actionExpr{
-																			pos: position{line: 680, col: 14, offset: 21687},
+																			pos: position{line: 686, col: 14, offset: 21901},
 																			run: (*parser).callonDocumentFragment627,
 																			expr: &seqExpr{
-																				pos: position{line: 680, col: 14, offset: 21687},
+																				pos: position{line: 686, col: 14, offset: 21901},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2929, col: 11, offset: 92259},
+																						pos: position{line: 2935, col: 11, offset: 92473},
 																						expr: &anyMatcher{
-																							line: 2929, col: 13, offset: 92261,
+																							line: 2935, col: 13, offset: 92475,
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 680, col: 21, offset: 21694},
+																						pos: position{line: 686, col: 21, offset: 21908},
 																						expr: &actionExpr{
-																							pos: position{line: 2912, col: 10, offset: 91925},
+																							pos: position{line: 2918, col: 10, offset: 92139},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2912, col: 10, offset: 91925},
+																								pos:        position{line: 2918, col: 10, offset: 92139},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6902,28 +6902,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2934, col: 8, offset: 92323},
+																						pos: position{line: 2940, col: 8, offset: 92537},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2921, col: 12, offset: 92096},
+																								pos: position{line: 2927, col: 12, offset: 92310},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2921, col: 13, offset: 92097},
+																									pos: position{line: 2927, col: 13, offset: 92311},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 13, offset: 92097},
+																											pos:        position{line: 2927, col: 13, offset: 92311},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 20, offset: 92104},
+																											pos:        position{line: 2927, col: 20, offset: 92318},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 29, offset: 92113},
+																											pos:        position{line: 2927, col: 29, offset: 92327},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6932,9 +6932,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2931, col: 8, offset: 92273},
+																								pos: position{line: 2937, col: 8, offset: 92487},
 																								expr: &anyMatcher{
-																									line: 2931, col: 9, offset: 92274,
+																									line: 2937, col: 9, offset: 92488,
 																								},
 																							},
 																						},
@@ -6944,21 +6944,21 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 986, col: 5, offset: 30872},
+																		pos:        position{line: 992, col: 5, offset: 31086},
 																		val:        "> ",
 																		ignoreCase: false,
 																		want:       "\"> \"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 987, col: 5, offset: 30882},
+																		pos:   position{line: 993, col: 5, offset: 31096},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2862, col: 14, offset: 90518},
+																			pos: position{line: 2868, col: 14, offset: 90732},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2862, col: 14, offset: 90518},
+																				pos: position{line: 2868, col: 14, offset: 90732},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2862, col: 14, offset: 90518},
+																					pos:        position{line: 2868, col: 14, offset: 90732},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -6968,28 +6968,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2934, col: 8, offset: 92323},
+																		pos: position{line: 2940, col: 8, offset: 92537},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6998,9 +6998,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2931, col: 8, offset: 92273},
+																				pos: position{line: 2937, col: 8, offset: 92487},
 																				expr: &anyMatcher{
-																					line: 2931, col: 9, offset: 92274,
+																					line: 2937, col: 9, offset: 92488,
 																				},
 																			},
 																		},
@@ -7010,40 +7010,40 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 979, col: 5, offset: 30635},
+														pos:   position{line: 985, col: 5, offset: 30849},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 979, col: 16, offset: 30646},
+															pos: position{line: 985, col: 16, offset: 30860},
 															expr: &choiceExpr{
-																pos: position{line: 979, col: 17, offset: 30647},
+																pos: position{line: 985, col: 17, offset: 30861},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 985, col: 5, offset: 30857},
+																		pos: position{line: 991, col: 5, offset: 31071},
 																		run: (*parser).callonDocumentFragment658,
 																		expr: &seqExpr{
-																			pos: position{line: 985, col: 5, offset: 30857},
+																			pos: position{line: 991, col: 5, offset: 31071},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 985, col: 5, offset: 30857},
+																					pos: position{line: 991, col: 5, offset: 31071},
 																					expr: &actionExpr{
-																						pos: position{line: 680, col: 14, offset: 21687},
+																						pos: position{line: 686, col: 14, offset: 21901},
 																						run: (*parser).callonDocumentFragment661,
 																						expr: &seqExpr{
-																							pos: position{line: 680, col: 14, offset: 21687},
+																							pos: position{line: 686, col: 14, offset: 21901},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2929, col: 11, offset: 92259},
+																									pos: position{line: 2935, col: 11, offset: 92473},
 																									expr: &anyMatcher{
-																										line: 2929, col: 13, offset: 92261,
+																										line: 2935, col: 13, offset: 92475,
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 680, col: 21, offset: 21694},
+																									pos: position{line: 686, col: 21, offset: 21908},
 																									expr: &actionExpr{
-																										pos: position{line: 2912, col: 10, offset: 91925},
+																										pos: position{line: 2918, col: 10, offset: 92139},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2912, col: 10, offset: 91925},
+																											pos:        position{line: 2918, col: 10, offset: 92139},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7052,28 +7052,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2934, col: 8, offset: 92323},
+																									pos: position{line: 2940, col: 8, offset: 92537},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2921, col: 12, offset: 92096},
+																											pos: position{line: 2927, col: 12, offset: 92310},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2921, col: 13, offset: 92097},
+																												pos: position{line: 2927, col: 13, offset: 92311},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 13, offset: 92097},
+																														pos:        position{line: 2927, col: 13, offset: 92311},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 20, offset: 92104},
+																														pos:        position{line: 2927, col: 20, offset: 92318},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 29, offset: 92113},
+																														pos:        position{line: 2927, col: 29, offset: 92327},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7082,9 +7082,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2931, col: 8, offset: 92273},
+																											pos: position{line: 2937, col: 8, offset: 92487},
 																											expr: &anyMatcher{
-																												line: 2931, col: 9, offset: 92274,
+																												line: 2937, col: 9, offset: 92488,
 																											},
 																										},
 																									},
@@ -7094,21 +7094,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 986, col: 5, offset: 30872},
+																					pos:        position{line: 992, col: 5, offset: 31086},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 987, col: 5, offset: 30882},
+																					pos:   position{line: 993, col: 5, offset: 31096},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2862, col: 14, offset: 90518},
+																						pos: position{line: 2868, col: 14, offset: 90732},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2862, col: 14, offset: 90518},
+																							pos: position{line: 2868, col: 14, offset: 90732},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2862, col: 14, offset: 90518},
+																								pos:        position{line: 2868, col: 14, offset: 90732},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7118,28 +7118,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2934, col: 8, offset: 92323},
+																					pos: position{line: 2940, col: 8, offset: 92537},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2921, col: 12, offset: 92096},
+																							pos: position{line: 2927, col: 12, offset: 92310},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2921, col: 13, offset: 92097},
+																								pos: position{line: 2927, col: 13, offset: 92311},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 13, offset: 92097},
+																										pos:        position{line: 2927, col: 13, offset: 92311},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 20, offset: 92104},
+																										pos:        position{line: 2927, col: 20, offset: 92318},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 29, offset: 92113},
+																										pos:        position{line: 2927, col: 29, offset: 92327},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7148,9 +7148,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2931, col: 8, offset: 92273},
+																							pos: position{line: 2937, col: 8, offset: 92487},
 																							expr: &anyMatcher{
-																								line: 2931, col: 9, offset: 92274,
+																								line: 2937, col: 9, offset: 92488,
 																							},
 																						},
 																					},
@@ -7159,21 +7159,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1794, col: 5, offset: 57985},
+																		pos: position{line: 1800, col: 5, offset: 58199},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1794, col: 5, offset: 57985},
+																			pos: position{line: 1800, col: 5, offset: 58199},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1794, col: 5, offset: 57985},
+																					pos:   position{line: 1800, col: 5, offset: 58199},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2862, col: 14, offset: 90518},
+																						pos: position{line: 2868, col: 14, offset: 90732},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2862, col: 14, offset: 90518},
+																							pos: position{line: 2868, col: 14, offset: 90732},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2862, col: 14, offset: 90518},
+																								pos:        position{line: 2868, col: 14, offset: 90732},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7183,32 +7183,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1795, col: 5, offset: 58009},
+																					pos: position{line: 1801, col: 5, offset: 58223},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2934, col: 8, offset: 92323},
+																					pos: position{line: 2940, col: 8, offset: 92537},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2921, col: 12, offset: 92096},
+																							pos: position{line: 2927, col: 12, offset: 92310},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2921, col: 13, offset: 92097},
+																								pos: position{line: 2927, col: 13, offset: 92311},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 13, offset: 92097},
+																										pos:        position{line: 2927, col: 13, offset: 92311},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 20, offset: 92104},
+																										pos:        position{line: 2927, col: 20, offset: 92318},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 29, offset: 92113},
+																										pos:        position{line: 2927, col: 29, offset: 92327},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7217,9 +7217,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2931, col: 8, offset: 92273},
+																							pos: position{line: 2937, col: 8, offset: 92487},
 																							expr: &anyMatcher{
-																								line: 2931, col: 9, offset: 92274,
+																								line: 2937, col: 9, offset: 92488,
 																							},
 																						},
 																					},
@@ -7235,28 +7235,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1000, col: 5, offset: 31147},
+											pos: position{line: 1006, col: 5, offset: 31361},
 											run: (*parser).callonDocumentFragment704,
 											expr: &seqExpr{
-												pos: position{line: 1000, col: 5, offset: 31147},
+												pos: position{line: 1006, col: 5, offset: 31361},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1000, col: 5, offset: 31147},
+														pos:   position{line: 1006, col: 5, offset: 31361},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 779, col: 5, offset: 25059},
+															pos: position{line: 785, col: 5, offset: 25273},
 															run: (*parser).callonDocumentFragment707,
 															expr: &seqExpr{
-																pos: position{line: 779, col: 5, offset: 25059},
+																pos: position{line: 785, col: 5, offset: 25273},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 779, col: 5, offset: 25059},
+																		pos:   position{line: 785, col: 5, offset: 25273},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 779, col: 16, offset: 25070},
+																			pos: position{line: 785, col: 16, offset: 25284},
 																			run: (*parser).callonDocumentFragment710,
 																			expr: &litMatcher{
-																				pos:        position{line: 779, col: 16, offset: 25070},
+																				pos:        position{line: 785, col: 16, offset: 25284},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -7264,12 +7264,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 781, col: 8, offset: 25147},
+																		pos: position{line: 787, col: 8, offset: 25361},
 																		expr: &actionExpr{
-																			pos: position{line: 2912, col: 10, offset: 91925},
+																			pos: position{line: 2918, col: 10, offset: 92139},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2912, col: 10, offset: 91925},
+																				pos:        position{line: 2918, col: 10, offset: 92139},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7278,28 +7278,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2934, col: 8, offset: 92323},
+																		pos: position{line: 2940, col: 8, offset: 92537},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7308,9 +7308,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2931, col: 8, offset: 92273},
+																				pos: position{line: 2937, col: 8, offset: 92487},
 																				expr: &anyMatcher{
-																					line: 2931, col: 9, offset: 92274,
+																					line: 2937, col: 9, offset: 92488,
 																				},
 																			},
 																		},
@@ -7320,35 +7320,35 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1001, col: 5, offset: 31183},
+														pos:   position{line: 1007, col: 5, offset: 31397},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1011, col: 5, offset: 31451},
+															pos: position{line: 1017, col: 5, offset: 31665},
 															expr: &actionExpr{
-																pos: position{line: 1011, col: 6, offset: 31452},
+																pos: position{line: 1017, col: 6, offset: 31666},
 																run: (*parser).callonDocumentFragment725,
 																expr: &seqExpr{
-																	pos: position{line: 1011, col: 6, offset: 31452},
+																	pos: position{line: 1017, col: 6, offset: 31666},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1011, col: 6, offset: 31452},
+																			pos: position{line: 1017, col: 6, offset: 31666},
 																			expr: &choiceExpr{
-																				pos: position{line: 1008, col: 26, offset: 31400},
+																				pos: position{line: 1014, col: 26, offset: 31614},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 779, col: 5, offset: 25059},
+																						pos: position{line: 785, col: 5, offset: 25273},
 																						run: (*parser).callonDocumentFragment729,
 																						expr: &seqExpr{
-																							pos: position{line: 779, col: 5, offset: 25059},
+																							pos: position{line: 785, col: 5, offset: 25273},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 779, col: 5, offset: 25059},
+																									pos:   position{line: 785, col: 5, offset: 25273},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 779, col: 16, offset: 25070},
+																										pos: position{line: 785, col: 16, offset: 25284},
 																										run: (*parser).callonDocumentFragment732,
 																										expr: &litMatcher{
-																											pos:        position{line: 779, col: 16, offset: 25070},
+																											pos:        position{line: 785, col: 16, offset: 25284},
 																											val:        "--",
 																											ignoreCase: false,
 																											want:       "\"--\"",
@@ -7356,12 +7356,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 781, col: 8, offset: 25147},
+																									pos: position{line: 787, col: 8, offset: 25361},
 																									expr: &actionExpr{
-																										pos: position{line: 2912, col: 10, offset: 91925},
+																										pos: position{line: 2918, col: 10, offset: 92139},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2912, col: 10, offset: 91925},
+																											pos:        position{line: 2918, col: 10, offset: 92139},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7370,28 +7370,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2934, col: 8, offset: 92323},
+																									pos: position{line: 2940, col: 8, offset: 92537},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2921, col: 12, offset: 92096},
+																											pos: position{line: 2927, col: 12, offset: 92310},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2921, col: 13, offset: 92097},
+																												pos: position{line: 2927, col: 13, offset: 92311},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 13, offset: 92097},
+																														pos:        position{line: 2927, col: 13, offset: 92311},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 20, offset: 92104},
+																														pos:        position{line: 2927, col: 20, offset: 92318},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 29, offset: 92113},
+																														pos:        position{line: 2927, col: 29, offset: 92327},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7400,9 +7400,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2931, col: 8, offset: 92273},
+																											pos: position{line: 2937, col: 8, offset: 92487},
 																											expr: &anyMatcher{
-																												line: 2931, col: 9, offset: 92274,
+																												line: 2937, col: 9, offset: 92488,
 																											},
 																										},
 																									},
@@ -7411,39 +7411,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2931, col: 8, offset: 92273},
+																						pos: position{line: 2937, col: 8, offset: 92487},
 																						expr: &anyMatcher{
-																							line: 2931, col: 9, offset: 92274,
+																							line: 2937, col: 9, offset: 92488,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1012, col: 5, offset: 31479},
+																			pos:   position{line: 1018, col: 5, offset: 31693},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 814, col: 5, offset: 26286},
+																				pos: position{line: 820, col: 5, offset: 26500},
 																				run: (*parser).callonDocumentFragment748,
 																				expr: &seqExpr{
-																					pos: position{line: 814, col: 5, offset: 26286},
+																					pos: position{line: 820, col: 5, offset: 26500},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2929, col: 11, offset: 92259},
+																							pos: position{line: 2935, col: 11, offset: 92473},
 																							expr: &anyMatcher{
-																								line: 2929, col: 13, offset: 92261,
+																								line: 2935, col: 13, offset: 92475,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 815, col: 5, offset: 26361},
+																							pos:   position{line: 821, col: 5, offset: 26575},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2858, col: 13, offset: 90451},
+																								pos: position{line: 2864, col: 13, offset: 90665},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2858, col: 13, offset: 90451},
+																									pos: position{line: 2864, col: 13, offset: 90665},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2858, col: 13, offset: 90451},
+																										pos:        position{line: 2864, col: 13, offset: 90665},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7453,28 +7453,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7483,9 +7483,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -7500,27 +7500,27 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1002, col: 5, offset: 31214},
+														pos:   position{line: 1008, col: 5, offset: 31428},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1002, col: 9, offset: 31218},
+															pos: position{line: 1008, col: 9, offset: 31432},
 															expr: &choiceExpr{
-																pos: position{line: 1008, col: 26, offset: 31400},
+																pos: position{line: 1014, col: 26, offset: 31614},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 779, col: 5, offset: 25059},
+																		pos: position{line: 785, col: 5, offset: 25273},
 																		run: (*parser).callonDocumentFragment767,
 																		expr: &seqExpr{
-																			pos: position{line: 779, col: 5, offset: 25059},
+																			pos: position{line: 785, col: 5, offset: 25273},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 779, col: 5, offset: 25059},
+																					pos:   position{line: 785, col: 5, offset: 25273},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 779, col: 16, offset: 25070},
+																						pos: position{line: 785, col: 16, offset: 25284},
 																						run: (*parser).callonDocumentFragment770,
 																						expr: &litMatcher{
-																							pos:        position{line: 779, col: 16, offset: 25070},
+																							pos:        position{line: 785, col: 16, offset: 25284},
 																							val:        "--",
 																							ignoreCase: false,
 																							want:       "\"--\"",
@@ -7528,12 +7528,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 781, col: 8, offset: 25147},
+																					pos: position{line: 787, col: 8, offset: 25361},
 																					expr: &actionExpr{
-																						pos: position{line: 2912, col: 10, offset: 91925},
+																						pos: position{line: 2918, col: 10, offset: 92139},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2912, col: 10, offset: 91925},
+																							pos:        position{line: 2918, col: 10, offset: 92139},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7542,28 +7542,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2934, col: 8, offset: 92323},
+																					pos: position{line: 2940, col: 8, offset: 92537},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2921, col: 12, offset: 92096},
+																							pos: position{line: 2927, col: 12, offset: 92310},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2921, col: 13, offset: 92097},
+																								pos: position{line: 2927, col: 13, offset: 92311},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 13, offset: 92097},
+																										pos:        position{line: 2927, col: 13, offset: 92311},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 20, offset: 92104},
+																										pos:        position{line: 2927, col: 20, offset: 92318},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 29, offset: 92113},
+																										pos:        position{line: 2927, col: 29, offset: 92327},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7572,9 +7572,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2931, col: 8, offset: 92273},
+																							pos: position{line: 2937, col: 8, offset: 92487},
 																							expr: &anyMatcher{
-																								line: 2931, col: 9, offset: 92274,
+																								line: 2937, col: 9, offset: 92488,
 																							},
 																						},
 																					},
@@ -7583,9 +7583,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2931, col: 8, offset: 92273},
+																		pos: position{line: 2937, col: 8, offset: 92487},
 																		expr: &anyMatcher{
-																			line: 2931, col: 9, offset: 92274,
+																			line: 2937, col: 9, offset: 92488,
 																		},
 																	},
 																},
@@ -7596,39 +7596,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1020, col: 5, offset: 31642},
+											pos: position{line: 1026, col: 5, offset: 31856},
 											run: (*parser).callonDocumentFragment785,
 											expr: &seqExpr{
-												pos: position{line: 1020, col: 5, offset: 31642},
+												pos: position{line: 1026, col: 5, offset: 31856},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1020, col: 5, offset: 31642},
+														pos:   position{line: 1026, col: 5, offset: 31856},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 793, col: 5, offset: 25542},
+															pos: position{line: 799, col: 5, offset: 25756},
 															run: (*parser).callonDocumentFragment788,
 															expr: &seqExpr{
-																pos: position{line: 793, col: 5, offset: 25542},
+																pos: position{line: 799, col: 5, offset: 25756},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 793, col: 5, offset: 25542},
+																		pos:   position{line: 799, col: 5, offset: 25756},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 793, col: 16, offset: 25553},
+																			pos: position{line: 799, col: 16, offset: 25767},
 																			run: (*parser).callonDocumentFragment791,
 																			expr: &seqExpr{
-																				pos: position{line: 793, col: 16, offset: 25553},
+																				pos: position{line: 799, col: 16, offset: 25767},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 793, col: 16, offset: 25553},
+																						pos:        position{line: 799, col: 16, offset: 25767},
 																						val:        "++++",
 																						ignoreCase: false,
 																						want:       "\"++++\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 793, col: 23, offset: 25560},
+																						pos: position{line: 799, col: 23, offset: 25774},
 																						expr: &litMatcher{
-																							pos:        position{line: 793, col: 23, offset: 25560},
+																							pos:        position{line: 799, col: 23, offset: 25774},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
@@ -7639,12 +7639,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 795, col: 8, offset: 25644},
+																		pos: position{line: 801, col: 8, offset: 25858},
 																		expr: &actionExpr{
-																			pos: position{line: 2912, col: 10, offset: 91925},
+																			pos: position{line: 2918, col: 10, offset: 92139},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2912, col: 10, offset: 91925},
+																				pos:        position{line: 2918, col: 10, offset: 92139},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7653,28 +7653,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2934, col: 8, offset: 92323},
+																		pos: position{line: 2940, col: 8, offset: 92537},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7683,9 +7683,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2931, col: 8, offset: 92273},
+																				pos: position{line: 2937, col: 8, offset: 92487},
 																				expr: &anyMatcher{
-																					line: 2931, col: 9, offset: 92274,
+																					line: 2937, col: 9, offset: 92488,
 																				},
 																			},
 																		},
@@ -7695,56 +7695,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1021, col: 5, offset: 31685},
+														pos: position{line: 1027, col: 5, offset: 31899},
 														run: (*parser).callonDocumentFragment807,
 													},
 													&labeledExpr{
-														pos:   position{line: 1024, col: 5, offset: 31777},
+														pos:   position{line: 1030, col: 5, offset: 31991},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1039, col: 5, offset: 32207},
+															pos: position{line: 1045, col: 5, offset: 32421},
 															expr: &actionExpr{
-																pos: position{line: 1039, col: 6, offset: 32208},
+																pos: position{line: 1045, col: 6, offset: 32422},
 																run: (*parser).callonDocumentFragment810,
 																expr: &seqExpr{
-																	pos: position{line: 1039, col: 6, offset: 32208},
+																	pos: position{line: 1045, col: 6, offset: 32422},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1039, col: 6, offset: 32208},
+																			pos: position{line: 1045, col: 6, offset: 32422},
 																			expr: &choiceExpr{
-																				pos: position{line: 1032, col: 5, offset: 32041},
+																				pos: position{line: 1038, col: 5, offset: 32255},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1032, col: 5, offset: 32041},
+																						pos: position{line: 1038, col: 5, offset: 32255},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1032, col: 5, offset: 32041},
+																								pos:   position{line: 1038, col: 5, offset: 32255},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 793, col: 5, offset: 25542},
+																									pos: position{line: 799, col: 5, offset: 25756},
 																									run: (*parser).callonDocumentFragment816,
 																									expr: &seqExpr{
-																										pos: position{line: 793, col: 5, offset: 25542},
+																										pos: position{line: 799, col: 5, offset: 25756},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 793, col: 5, offset: 25542},
+																												pos:   position{line: 799, col: 5, offset: 25756},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 793, col: 16, offset: 25553},
+																													pos: position{line: 799, col: 16, offset: 25767},
 																													run: (*parser).callonDocumentFragment819,
 																													expr: &seqExpr{
-																														pos: position{line: 793, col: 16, offset: 25553},
+																														pos: position{line: 799, col: 16, offset: 25767},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 793, col: 16, offset: 25553},
+																																pos:        position{line: 799, col: 16, offset: 25767},
 																																val:        "++++",
 																																ignoreCase: false,
 																																want:       "\"++++\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 793, col: 23, offset: 25560},
+																																pos: position{line: 799, col: 23, offset: 25774},
 																																expr: &litMatcher{
-																																	pos:        position{line: 793, col: 23, offset: 25560},
+																																	pos:        position{line: 799, col: 23, offset: 25774},
 																																	val:        "+",
 																																	ignoreCase: false,
 																																	want:       "\"+\"",
@@ -7755,12 +7755,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 795, col: 8, offset: 25644},
+																												pos: position{line: 801, col: 8, offset: 25858},
 																												expr: &actionExpr{
-																													pos: position{line: 2912, col: 10, offset: 91925},
+																													pos: position{line: 2918, col: 10, offset: 92139},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2912, col: 10, offset: 91925},
+																														pos:        position{line: 2918, col: 10, offset: 92139},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7769,28 +7769,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2934, col: 8, offset: 92323},
+																												pos: position{line: 2940, col: 8, offset: 92537},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2921, col: 12, offset: 92096},
+																														pos: position{line: 2927, col: 12, offset: 92310},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2921, col: 13, offset: 92097},
+																															pos: position{line: 2927, col: 13, offset: 92311},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2921, col: 13, offset: 92097},
+																																	pos:        position{line: 2927, col: 13, offset: 92311},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2921, col: 20, offset: 92104},
+																																	pos:        position{line: 2927, col: 20, offset: 92318},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2921, col: 29, offset: 92113},
+																																	pos:        position{line: 2927, col: 29, offset: 92327},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7799,9 +7799,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2931, col: 8, offset: 92273},
+																														pos: position{line: 2937, col: 8, offset: 92487},
 																														expr: &anyMatcher{
-																															line: 2931, col: 9, offset: 92274,
+																															line: 2937, col: 9, offset: 92488,
 																														},
 																													},
 																												},
@@ -7811,45 +7811,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1033, col: 5, offset: 32076},
+																								pos: position{line: 1039, col: 5, offset: 32290},
 																								run: (*parser).callonDocumentFragment835,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2931, col: 8, offset: 92273},
+																						pos: position{line: 2937, col: 8, offset: 92487},
 																						expr: &anyMatcher{
-																							line: 2931, col: 9, offset: 92274,
+																							line: 2937, col: 9, offset: 92488,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1040, col: 5, offset: 32242},
+																			pos:   position{line: 1046, col: 5, offset: 32456},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 814, col: 5, offset: 26286},
+																				pos: position{line: 820, col: 5, offset: 26500},
 																				run: (*parser).callonDocumentFragment839,
 																				expr: &seqExpr{
-																					pos: position{line: 814, col: 5, offset: 26286},
+																					pos: position{line: 820, col: 5, offset: 26500},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2929, col: 11, offset: 92259},
+																							pos: position{line: 2935, col: 11, offset: 92473},
 																							expr: &anyMatcher{
-																								line: 2929, col: 13, offset: 92261,
+																								line: 2935, col: 13, offset: 92475,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 815, col: 5, offset: 26361},
+																							pos:   position{line: 821, col: 5, offset: 26575},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2858, col: 13, offset: 90451},
+																								pos: position{line: 2864, col: 13, offset: 90665},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2858, col: 13, offset: 90451},
+																									pos: position{line: 2864, col: 13, offset: 90665},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2858, col: 13, offset: 90451},
+																										pos:        position{line: 2864, col: 13, offset: 90665},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7859,28 +7859,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7889,9 +7889,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -7906,44 +7906,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1025, col: 5, offset: 31815},
+														pos:   position{line: 1031, col: 5, offset: 32029},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1025, col: 9, offset: 31819},
+															pos: position{line: 1031, col: 9, offset: 32033},
 															expr: &choiceExpr{
-																pos: position{line: 1032, col: 5, offset: 32041},
+																pos: position{line: 1038, col: 5, offset: 32255},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1032, col: 5, offset: 32041},
+																		pos: position{line: 1038, col: 5, offset: 32255},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1032, col: 5, offset: 32041},
+																				pos:   position{line: 1038, col: 5, offset: 32255},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 793, col: 5, offset: 25542},
+																					pos: position{line: 799, col: 5, offset: 25756},
 																					run: (*parser).callonDocumentFragment860,
 																					expr: &seqExpr{
-																						pos: position{line: 793, col: 5, offset: 25542},
+																						pos: position{line: 799, col: 5, offset: 25756},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 793, col: 5, offset: 25542},
+																								pos:   position{line: 799, col: 5, offset: 25756},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 793, col: 16, offset: 25553},
+																									pos: position{line: 799, col: 16, offset: 25767},
 																									run: (*parser).callonDocumentFragment863,
 																									expr: &seqExpr{
-																										pos: position{line: 793, col: 16, offset: 25553},
+																										pos: position{line: 799, col: 16, offset: 25767},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 793, col: 16, offset: 25553},
+																												pos:        position{line: 799, col: 16, offset: 25767},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 793, col: 23, offset: 25560},
+																												pos: position{line: 799, col: 23, offset: 25774},
 																												expr: &litMatcher{
-																													pos:        position{line: 793, col: 23, offset: 25560},
+																													pos:        position{line: 799, col: 23, offset: 25774},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -7954,12 +7954,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 795, col: 8, offset: 25644},
+																								pos: position{line: 801, col: 8, offset: 25858},
 																								expr: &actionExpr{
-																									pos: position{line: 2912, col: 10, offset: 91925},
+																									pos: position{line: 2918, col: 10, offset: 92139},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2912, col: 10, offset: 91925},
+																										pos:        position{line: 2918, col: 10, offset: 92139},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7968,28 +7968,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2934, col: 8, offset: 92323},
+																								pos: position{line: 2940, col: 8, offset: 92537},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2921, col: 12, offset: 92096},
+																										pos: position{line: 2927, col: 12, offset: 92310},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2921, col: 13, offset: 92097},
+																											pos: position{line: 2927, col: 13, offset: 92311},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 13, offset: 92097},
+																													pos:        position{line: 2927, col: 13, offset: 92311},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 20, offset: 92104},
+																													pos:        position{line: 2927, col: 20, offset: 92318},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 29, offset: 92113},
+																													pos:        position{line: 2927, col: 29, offset: 92327},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -7998,9 +7998,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2931, col: 8, offset: 92273},
+																										pos: position{line: 2937, col: 8, offset: 92487},
 																										expr: &anyMatcher{
-																											line: 2931, col: 9, offset: 92274,
+																											line: 2937, col: 9, offset: 92488,
 																										},
 																									},
 																								},
@@ -8010,15 +8010,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1033, col: 5, offset: 32076},
+																				pos: position{line: 1039, col: 5, offset: 32290},
 																				run: (*parser).callonDocumentFragment879,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2931, col: 8, offset: 92273},
+																		pos: position{line: 2937, col: 8, offset: 92487},
 																		expr: &anyMatcher{
-																			line: 2931, col: 9, offset: 92274,
+																			line: 2937, col: 9, offset: 92488,
 																		},
 																	},
 																},
@@ -8029,39 +8029,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1048, col: 5, offset: 32393},
+											pos: position{line: 1054, col: 5, offset: 32607},
 											run: (*parser).callonDocumentFragment882,
 											expr: &seqExpr{
-												pos: position{line: 1048, col: 5, offset: 32393},
+												pos: position{line: 1054, col: 5, offset: 32607},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1048, col: 5, offset: 32393},
+														pos:   position{line: 1054, col: 5, offset: 32607},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 800, col: 5, offset: 25792},
+															pos: position{line: 806, col: 5, offset: 26006},
 															run: (*parser).callonDocumentFragment885,
 															expr: &seqExpr{
-																pos: position{line: 800, col: 5, offset: 25792},
+																pos: position{line: 806, col: 5, offset: 26006},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 800, col: 5, offset: 25792},
+																		pos:   position{line: 806, col: 5, offset: 26006},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 800, col: 16, offset: 25803},
+																			pos: position{line: 806, col: 16, offset: 26017},
 																			run: (*parser).callonDocumentFragment888,
 																			expr: &seqExpr{
-																				pos: position{line: 800, col: 16, offset: 25803},
+																				pos: position{line: 806, col: 16, offset: 26017},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 800, col: 16, offset: 25803},
+																						pos:        position{line: 806, col: 16, offset: 26017},
 																						val:        "____",
 																						ignoreCase: false,
 																						want:       "\"____\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 800, col: 23, offset: 25810},
+																						pos: position{line: 806, col: 23, offset: 26024},
 																						expr: &litMatcher{
-																							pos:        position{line: 800, col: 23, offset: 25810},
+																							pos:        position{line: 806, col: 23, offset: 26024},
 																							val:        "_",
 																							ignoreCase: false,
 																							want:       "\"_\"",
@@ -8072,12 +8072,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 802, col: 8, offset: 25894},
+																		pos: position{line: 808, col: 8, offset: 26108},
 																		expr: &actionExpr{
-																			pos: position{line: 2912, col: 10, offset: 91925},
+																			pos: position{line: 2918, col: 10, offset: 92139},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2912, col: 10, offset: 91925},
+																				pos:        position{line: 2918, col: 10, offset: 92139},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8086,28 +8086,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2934, col: 8, offset: 92323},
+																		pos: position{line: 2940, col: 8, offset: 92537},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8116,9 +8116,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2931, col: 8, offset: 92273},
+																				pos: position{line: 2937, col: 8, offset: 92487},
 																				expr: &anyMatcher{
-																					line: 2931, col: 9, offset: 92274,
+																					line: 2937, col: 9, offset: 92488,
 																				},
 																			},
 																		},
@@ -8128,56 +8128,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1049, col: 5, offset: 32430},
+														pos: position{line: 1055, col: 5, offset: 32644},
 														run: (*parser).callonDocumentFragment904,
 													},
 													&labeledExpr{
-														pos:   position{line: 1052, col: 5, offset: 32522},
+														pos:   position{line: 1058, col: 5, offset: 32736},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1067, col: 4, offset: 32903},
+															pos: position{line: 1073, col: 4, offset: 33117},
 															expr: &actionExpr{
-																pos: position{line: 1067, col: 5, offset: 32904},
+																pos: position{line: 1073, col: 5, offset: 33118},
 																run: (*parser).callonDocumentFragment907,
 																expr: &seqExpr{
-																	pos: position{line: 1067, col: 5, offset: 32904},
+																	pos: position{line: 1073, col: 5, offset: 33118},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1067, col: 5, offset: 32904},
+																			pos: position{line: 1073, col: 5, offset: 33118},
 																			expr: &choiceExpr{
-																				pos: position{line: 1060, col: 5, offset: 32750},
+																				pos: position{line: 1066, col: 5, offset: 32964},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1060, col: 5, offset: 32750},
+																						pos: position{line: 1066, col: 5, offset: 32964},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1060, col: 5, offset: 32750},
+																								pos:   position{line: 1066, col: 5, offset: 32964},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 800, col: 5, offset: 25792},
+																									pos: position{line: 806, col: 5, offset: 26006},
 																									run: (*parser).callonDocumentFragment913,
 																									expr: &seqExpr{
-																										pos: position{line: 800, col: 5, offset: 25792},
+																										pos: position{line: 806, col: 5, offset: 26006},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 800, col: 5, offset: 25792},
+																												pos:   position{line: 806, col: 5, offset: 26006},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 800, col: 16, offset: 25803},
+																													pos: position{line: 806, col: 16, offset: 26017},
 																													run: (*parser).callonDocumentFragment916,
 																													expr: &seqExpr{
-																														pos: position{line: 800, col: 16, offset: 25803},
+																														pos: position{line: 806, col: 16, offset: 26017},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 800, col: 16, offset: 25803},
+																																pos:        position{line: 806, col: 16, offset: 26017},
 																																val:        "____",
 																																ignoreCase: false,
 																																want:       "\"____\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 800, col: 23, offset: 25810},
+																																pos: position{line: 806, col: 23, offset: 26024},
 																																expr: &litMatcher{
-																																	pos:        position{line: 800, col: 23, offset: 25810},
+																																	pos:        position{line: 806, col: 23, offset: 26024},
 																																	val:        "_",
 																																	ignoreCase: false,
 																																	want:       "\"_\"",
@@ -8188,12 +8188,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 802, col: 8, offset: 25894},
+																												pos: position{line: 808, col: 8, offset: 26108},
 																												expr: &actionExpr{
-																													pos: position{line: 2912, col: 10, offset: 91925},
+																													pos: position{line: 2918, col: 10, offset: 92139},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2912, col: 10, offset: 91925},
+																														pos:        position{line: 2918, col: 10, offset: 92139},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8202,28 +8202,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2934, col: 8, offset: 92323},
+																												pos: position{line: 2940, col: 8, offset: 92537},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2921, col: 12, offset: 92096},
+																														pos: position{line: 2927, col: 12, offset: 92310},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2921, col: 13, offset: 92097},
+																															pos: position{line: 2927, col: 13, offset: 92311},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2921, col: 13, offset: 92097},
+																																	pos:        position{line: 2927, col: 13, offset: 92311},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2921, col: 20, offset: 92104},
+																																	pos:        position{line: 2927, col: 20, offset: 92318},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2921, col: 29, offset: 92113},
+																																	pos:        position{line: 2927, col: 29, offset: 92327},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8232,9 +8232,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2931, col: 8, offset: 92273},
+																														pos: position{line: 2937, col: 8, offset: 92487},
 																														expr: &anyMatcher{
-																															line: 2931, col: 9, offset: 92274,
+																															line: 2937, col: 9, offset: 92488,
 																														},
 																													},
 																												},
@@ -8244,45 +8244,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1061, col: 5, offset: 32779},
+																								pos: position{line: 1067, col: 5, offset: 32993},
 																								run: (*parser).callonDocumentFragment932,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2931, col: 8, offset: 92273},
+																						pos: position{line: 2937, col: 8, offset: 92487},
 																						expr: &anyMatcher{
-																							line: 2931, col: 9, offset: 92274,
+																							line: 2937, col: 9, offset: 92488,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1068, col: 5, offset: 32932},
+																			pos:   position{line: 1074, col: 5, offset: 33146},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 814, col: 5, offset: 26286},
+																				pos: position{line: 820, col: 5, offset: 26500},
 																				run: (*parser).callonDocumentFragment936,
 																				expr: &seqExpr{
-																					pos: position{line: 814, col: 5, offset: 26286},
+																					pos: position{line: 820, col: 5, offset: 26500},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2929, col: 11, offset: 92259},
+																							pos: position{line: 2935, col: 11, offset: 92473},
 																							expr: &anyMatcher{
-																								line: 2929, col: 13, offset: 92261,
+																								line: 2935, col: 13, offset: 92475,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 815, col: 5, offset: 26361},
+																							pos:   position{line: 821, col: 5, offset: 26575},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2858, col: 13, offset: 90451},
+																								pos: position{line: 2864, col: 13, offset: 90665},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2858, col: 13, offset: 90451},
+																									pos: position{line: 2864, col: 13, offset: 90665},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2858, col: 13, offset: 90451},
+																										pos:        position{line: 2864, col: 13, offset: 90665},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8292,28 +8292,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8322,9 +8322,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -8339,44 +8339,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1053, col: 5, offset: 32554},
+														pos:   position{line: 1059, col: 5, offset: 32768},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1053, col: 9, offset: 32558},
+															pos: position{line: 1059, col: 9, offset: 32772},
 															expr: &choiceExpr{
-																pos: position{line: 1060, col: 5, offset: 32750},
+																pos: position{line: 1066, col: 5, offset: 32964},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1060, col: 5, offset: 32750},
+																		pos: position{line: 1066, col: 5, offset: 32964},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1060, col: 5, offset: 32750},
+																				pos:   position{line: 1066, col: 5, offset: 32964},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 800, col: 5, offset: 25792},
+																					pos: position{line: 806, col: 5, offset: 26006},
 																					run: (*parser).callonDocumentFragment957,
 																					expr: &seqExpr{
-																						pos: position{line: 800, col: 5, offset: 25792},
+																						pos: position{line: 806, col: 5, offset: 26006},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 800, col: 5, offset: 25792},
+																								pos:   position{line: 806, col: 5, offset: 26006},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 800, col: 16, offset: 25803},
+																									pos: position{line: 806, col: 16, offset: 26017},
 																									run: (*parser).callonDocumentFragment960,
 																									expr: &seqExpr{
-																										pos: position{line: 800, col: 16, offset: 25803},
+																										pos: position{line: 806, col: 16, offset: 26017},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 800, col: 16, offset: 25803},
+																												pos:        position{line: 806, col: 16, offset: 26017},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 800, col: 23, offset: 25810},
+																												pos: position{line: 806, col: 23, offset: 26024},
 																												expr: &litMatcher{
-																													pos:        position{line: 800, col: 23, offset: 25810},
+																													pos:        position{line: 806, col: 23, offset: 26024},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -8387,12 +8387,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 802, col: 8, offset: 25894},
+																								pos: position{line: 808, col: 8, offset: 26108},
 																								expr: &actionExpr{
-																									pos: position{line: 2912, col: 10, offset: 91925},
+																									pos: position{line: 2918, col: 10, offset: 92139},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2912, col: 10, offset: 91925},
+																										pos:        position{line: 2918, col: 10, offset: 92139},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8401,28 +8401,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2934, col: 8, offset: 92323},
+																								pos: position{line: 2940, col: 8, offset: 92537},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2921, col: 12, offset: 92096},
+																										pos: position{line: 2927, col: 12, offset: 92310},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2921, col: 13, offset: 92097},
+																											pos: position{line: 2927, col: 13, offset: 92311},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 13, offset: 92097},
+																													pos:        position{line: 2927, col: 13, offset: 92311},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 20, offset: 92104},
+																													pos:        position{line: 2927, col: 20, offset: 92318},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 29, offset: 92113},
+																													pos:        position{line: 2927, col: 29, offset: 92327},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8431,9 +8431,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2931, col: 8, offset: 92273},
+																										pos: position{line: 2937, col: 8, offset: 92487},
 																										expr: &anyMatcher{
-																											line: 2931, col: 9, offset: 92274,
+																											line: 2937, col: 9, offset: 92488,
 																										},
 																									},
 																								},
@@ -8443,15 +8443,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1061, col: 5, offset: 32779},
+																				pos: position{line: 1067, col: 5, offset: 32993},
 																				run: (*parser).callonDocumentFragment976,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2931, col: 8, offset: 92273},
+																		pos: position{line: 2937, col: 8, offset: 92487},
 																		expr: &anyMatcher{
-																			line: 2931, col: 9, offset: 92274,
+																			line: 2937, col: 9, offset: 92488,
 																		},
 																	},
 																},
@@ -8462,39 +8462,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1076, col: 5, offset: 33087},
+											pos: position{line: 1082, col: 5, offset: 33301},
 											run: (*parser).callonDocumentFragment979,
 											expr: &seqExpr{
-												pos: position{line: 1076, col: 5, offset: 33087},
+												pos: position{line: 1082, col: 5, offset: 33301},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1076, col: 5, offset: 33087},
+														pos:   position{line: 1082, col: 5, offset: 33301},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 807, col: 5, offset: 26038},
+															pos: position{line: 813, col: 5, offset: 26252},
 															run: (*parser).callonDocumentFragment982,
 															expr: &seqExpr{
-																pos: position{line: 807, col: 5, offset: 26038},
+																pos: position{line: 813, col: 5, offset: 26252},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 807, col: 5, offset: 26038},
+																		pos:   position{line: 813, col: 5, offset: 26252},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 807, col: 16, offset: 26049},
+																			pos: position{line: 813, col: 16, offset: 26263},
 																			run: (*parser).callonDocumentFragment985,
 																			expr: &seqExpr{
-																				pos: position{line: 807, col: 16, offset: 26049},
+																				pos: position{line: 813, col: 16, offset: 26263},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 807, col: 16, offset: 26049},
+																						pos:        position{line: 813, col: 16, offset: 26263},
 																						val:        "****",
 																						ignoreCase: false,
 																						want:       "\"****\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 807, col: 23, offset: 26056},
+																						pos: position{line: 813, col: 23, offset: 26270},
 																						expr: &litMatcher{
-																							pos:        position{line: 807, col: 23, offset: 26056},
+																							pos:        position{line: 813, col: 23, offset: 26270},
 																							val:        "*",
 																							ignoreCase: false,
 																							want:       "\"*\"",
@@ -8505,12 +8505,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 809, col: 8, offset: 26140},
+																		pos: position{line: 815, col: 8, offset: 26354},
 																		expr: &actionExpr{
-																			pos: position{line: 2912, col: 10, offset: 91925},
+																			pos: position{line: 2918, col: 10, offset: 92139},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2912, col: 10, offset: 91925},
+																				pos:        position{line: 2918, col: 10, offset: 92139},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8519,28 +8519,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2934, col: 8, offset: 92323},
+																		pos: position{line: 2940, col: 8, offset: 92537},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8549,9 +8549,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2931, col: 8, offset: 92273},
+																				pos: position{line: 2937, col: 8, offset: 92487},
 																				expr: &anyMatcher{
-																					line: 2931, col: 9, offset: 92274,
+																					line: 2937, col: 9, offset: 92488,
 																				},
 																			},
 																		},
@@ -8561,56 +8561,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1077, col: 5, offset: 33126},
+														pos: position{line: 1083, col: 5, offset: 33340},
 														run: (*parser).callonDocumentFragment1001,
 													},
 													&labeledExpr{
-														pos:   position{line: 1080, col: 5, offset: 33218},
+														pos:   position{line: 1086, col: 5, offset: 33432},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1095, col: 4, offset: 33615},
+															pos: position{line: 1101, col: 4, offset: 33829},
 															expr: &actionExpr{
-																pos: position{line: 1095, col: 5, offset: 33616},
+																pos: position{line: 1101, col: 5, offset: 33830},
 																run: (*parser).callonDocumentFragment1004,
 																expr: &seqExpr{
-																	pos: position{line: 1095, col: 5, offset: 33616},
+																	pos: position{line: 1101, col: 5, offset: 33830},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1095, col: 5, offset: 33616},
+																			pos: position{line: 1101, col: 5, offset: 33830},
 																			expr: &choiceExpr{
-																				pos: position{line: 1088, col: 5, offset: 33458},
+																				pos: position{line: 1094, col: 5, offset: 33672},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1088, col: 5, offset: 33458},
+																						pos: position{line: 1094, col: 5, offset: 33672},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1088, col: 5, offset: 33458},
+																								pos:   position{line: 1094, col: 5, offset: 33672},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 807, col: 5, offset: 26038},
+																									pos: position{line: 813, col: 5, offset: 26252},
 																									run: (*parser).callonDocumentFragment1010,
 																									expr: &seqExpr{
-																										pos: position{line: 807, col: 5, offset: 26038},
+																										pos: position{line: 813, col: 5, offset: 26252},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 807, col: 5, offset: 26038},
+																												pos:   position{line: 813, col: 5, offset: 26252},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 807, col: 16, offset: 26049},
+																													pos: position{line: 813, col: 16, offset: 26263},
 																													run: (*parser).callonDocumentFragment1013,
 																													expr: &seqExpr{
-																														pos: position{line: 807, col: 16, offset: 26049},
+																														pos: position{line: 813, col: 16, offset: 26263},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 807, col: 16, offset: 26049},
+																																pos:        position{line: 813, col: 16, offset: 26263},
 																																val:        "****",
 																																ignoreCase: false,
 																																want:       "\"****\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 807, col: 23, offset: 26056},
+																																pos: position{line: 813, col: 23, offset: 26270},
 																																expr: &litMatcher{
-																																	pos:        position{line: 807, col: 23, offset: 26056},
+																																	pos:        position{line: 813, col: 23, offset: 26270},
 																																	val:        "*",
 																																	ignoreCase: false,
 																																	want:       "\"*\"",
@@ -8621,12 +8621,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 809, col: 8, offset: 26140},
+																												pos: position{line: 815, col: 8, offset: 26354},
 																												expr: &actionExpr{
-																													pos: position{line: 2912, col: 10, offset: 91925},
+																													pos: position{line: 2918, col: 10, offset: 92139},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2912, col: 10, offset: 91925},
+																														pos:        position{line: 2918, col: 10, offset: 92139},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8635,28 +8635,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2934, col: 8, offset: 92323},
+																												pos: position{line: 2940, col: 8, offset: 92537},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2921, col: 12, offset: 92096},
+																														pos: position{line: 2927, col: 12, offset: 92310},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2921, col: 13, offset: 92097},
+																															pos: position{line: 2927, col: 13, offset: 92311},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2921, col: 13, offset: 92097},
+																																	pos:        position{line: 2927, col: 13, offset: 92311},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2921, col: 20, offset: 92104},
+																																	pos:        position{line: 2927, col: 20, offset: 92318},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2921, col: 29, offset: 92113},
+																																	pos:        position{line: 2927, col: 29, offset: 92327},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8665,9 +8665,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2931, col: 8, offset: 92273},
+																														pos: position{line: 2937, col: 8, offset: 92487},
 																														expr: &anyMatcher{
-																															line: 2931, col: 9, offset: 92274,
+																															line: 2937, col: 9, offset: 92488,
 																														},
 																													},
 																												},
@@ -8677,45 +8677,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1089, col: 5, offset: 33489},
+																								pos: position{line: 1095, col: 5, offset: 33703},
 																								run: (*parser).callonDocumentFragment1029,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2931, col: 8, offset: 92273},
+																						pos: position{line: 2937, col: 8, offset: 92487},
 																						expr: &anyMatcher{
-																							line: 2931, col: 9, offset: 92274,
+																							line: 2937, col: 9, offset: 92488,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1096, col: 5, offset: 33646},
+																			pos:   position{line: 1102, col: 5, offset: 33860},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 814, col: 5, offset: 26286},
+																				pos: position{line: 820, col: 5, offset: 26500},
 																				run: (*parser).callonDocumentFragment1033,
 																				expr: &seqExpr{
-																					pos: position{line: 814, col: 5, offset: 26286},
+																					pos: position{line: 820, col: 5, offset: 26500},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2929, col: 11, offset: 92259},
+																							pos: position{line: 2935, col: 11, offset: 92473},
 																							expr: &anyMatcher{
-																								line: 2929, col: 13, offset: 92261,
+																								line: 2935, col: 13, offset: 92475,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 815, col: 5, offset: 26361},
+																							pos:   position{line: 821, col: 5, offset: 26575},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2858, col: 13, offset: 90451},
+																								pos: position{line: 2864, col: 13, offset: 90665},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2858, col: 13, offset: 90451},
+																									pos: position{line: 2864, col: 13, offset: 90665},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2858, col: 13, offset: 90451},
+																										pos:        position{line: 2864, col: 13, offset: 90665},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8725,28 +8725,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8755,9 +8755,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -8772,44 +8772,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1081, col: 5, offset: 33252},
+														pos:   position{line: 1087, col: 5, offset: 33466},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1081, col: 9, offset: 33256},
+															pos: position{line: 1087, col: 9, offset: 33470},
 															expr: &choiceExpr{
-																pos: position{line: 1088, col: 5, offset: 33458},
+																pos: position{line: 1094, col: 5, offset: 33672},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1088, col: 5, offset: 33458},
+																		pos: position{line: 1094, col: 5, offset: 33672},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1088, col: 5, offset: 33458},
+																				pos:   position{line: 1094, col: 5, offset: 33672},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 807, col: 5, offset: 26038},
+																					pos: position{line: 813, col: 5, offset: 26252},
 																					run: (*parser).callonDocumentFragment1054,
 																					expr: &seqExpr{
-																						pos: position{line: 807, col: 5, offset: 26038},
+																						pos: position{line: 813, col: 5, offset: 26252},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 807, col: 5, offset: 26038},
+																								pos:   position{line: 813, col: 5, offset: 26252},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 807, col: 16, offset: 26049},
+																									pos: position{line: 813, col: 16, offset: 26263},
 																									run: (*parser).callonDocumentFragment1057,
 																									expr: &seqExpr{
-																										pos: position{line: 807, col: 16, offset: 26049},
+																										pos: position{line: 813, col: 16, offset: 26263},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 807, col: 16, offset: 26049},
+																												pos:        position{line: 813, col: 16, offset: 26263},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 807, col: 23, offset: 26056},
+																												pos: position{line: 813, col: 23, offset: 26270},
 																												expr: &litMatcher{
-																													pos:        position{line: 807, col: 23, offset: 26056},
+																													pos:        position{line: 813, col: 23, offset: 26270},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -8820,12 +8820,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 809, col: 8, offset: 26140},
+																								pos: position{line: 815, col: 8, offset: 26354},
 																								expr: &actionExpr{
-																									pos: position{line: 2912, col: 10, offset: 91925},
+																									pos: position{line: 2918, col: 10, offset: 92139},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2912, col: 10, offset: 91925},
+																										pos:        position{line: 2918, col: 10, offset: 92139},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8834,28 +8834,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2934, col: 8, offset: 92323},
+																								pos: position{line: 2940, col: 8, offset: 92537},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2921, col: 12, offset: 92096},
+																										pos: position{line: 2927, col: 12, offset: 92310},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2921, col: 13, offset: 92097},
+																											pos: position{line: 2927, col: 13, offset: 92311},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 13, offset: 92097},
+																													pos:        position{line: 2927, col: 13, offset: 92311},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 20, offset: 92104},
+																													pos:        position{line: 2927, col: 20, offset: 92318},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 29, offset: 92113},
+																													pos:        position{line: 2927, col: 29, offset: 92327},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8864,9 +8864,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2931, col: 8, offset: 92273},
+																										pos: position{line: 2937, col: 8, offset: 92487},
 																										expr: &anyMatcher{
-																											line: 2931, col: 9, offset: 92274,
+																											line: 2937, col: 9, offset: 92488,
 																										},
 																									},
 																								},
@@ -8876,15 +8876,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1089, col: 5, offset: 33489},
+																				pos: position{line: 1095, col: 5, offset: 33703},
 																				run: (*parser).callonDocumentFragment1073,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2931, col: 8, offset: 92273},
+																		pos: position{line: 2937, col: 8, offset: 92487},
 																		expr: &anyMatcher{
-																			line: 2931, col: 9, offset: 92274,
+																			line: 2937, col: 9, offset: 92488,
 																		},
 																	},
 																},
@@ -8895,52 +8895,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2757, col: 18, offset: 87515},
+											pos: position{line: 2763, col: 18, offset: 87729},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2757, col: 18, offset: 87515},
+												pos: position{line: 2763, col: 18, offset: 87729},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2758, col: 9, offset: 87525},
+														pos: position{line: 2764, col: 9, offset: 87739},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2758, col: 9, offset: 87525},
+																pos:        position{line: 2764, col: 9, offset: 87739},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2759, col: 11, offset: 87561},
+																pos:        position{line: 2765, col: 11, offset: 87775},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2759, col: 19, offset: 87569},
+																pos:        position{line: 2765, col: 19, offset: 87783},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2759, col: 29, offset: 87579},
+																pos:        position{line: 2765, col: 29, offset: 87793},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2759, col: 37, offset: 87587},
+																pos:        position{line: 2765, col: 37, offset: 87801},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2759, col: 47, offset: 87597},
+																pos:        position{line: 2765, col: 47, offset: 87811},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2759, col: 55, offset: 87605},
+																pos:        position{line: 2765, col: 55, offset: 87819},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -8948,12 +8948,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2760, col: 11, offset: 87663},
+														pos: position{line: 2766, col: 11, offset: 87877},
 														expr: &actionExpr{
-															pos: position{line: 2912, col: 10, offset: 91925},
+															pos: position{line: 2918, col: 10, offset: 92139},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2912, col: 10, offset: 91925},
+																pos:        position{line: 2918, col: 10, offset: 92139},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -8962,28 +8962,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2934, col: 8, offset: 92323},
+														pos: position{line: 2940, col: 8, offset: 92537},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2921, col: 12, offset: 92096},
+																pos: position{line: 2927, col: 12, offset: 92310},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2921, col: 13, offset: 92097},
+																	pos: position{line: 2927, col: 13, offset: 92311},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 13, offset: 92097},
+																			pos:        position{line: 2927, col: 13, offset: 92311},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 20, offset: 92104},
+																			pos:        position{line: 2927, col: 20, offset: 92318},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 29, offset: 92113},
+																			pos:        position{line: 2927, col: 29, offset: 92327},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -8992,36 +8992,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2931, col: 8, offset: 92273},
+																pos: position{line: 2937, col: 8, offset: 92487},
 																expr: &anyMatcher{
-																	line: 2931, col: 9, offset: 92274,
+																	line: 2937, col: 9, offset: 92488,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2934, col: 8, offset: 92323},
+														pos: position{line: 2940, col: 8, offset: 92537},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2921, col: 12, offset: 92096},
+																pos: position{line: 2927, col: 12, offset: 92310},
 																run: (*parser).callonDocumentFragment1098,
 																expr: &choiceExpr{
-																	pos: position{line: 2921, col: 13, offset: 92097},
+																	pos: position{line: 2927, col: 13, offset: 92311},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 13, offset: 92097},
+																			pos:        position{line: 2927, col: 13, offset: 92311},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 20, offset: 92104},
+																			pos:        position{line: 2927, col: 20, offset: 92318},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 29, offset: 92113},
+																			pos:        position{line: 2927, col: 29, offset: 92327},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9030,9 +9030,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2931, col: 8, offset: 92273},
+																pos: position{line: 2937, col: 8, offset: 92487},
 																expr: &anyMatcher{
-																	line: 2931, col: 9, offset: 92274,
+																	line: 2937, col: 9, offset: 92488,
 																},
 															},
 														},
@@ -9045,24 +9045,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2641, col: 5, offset: 84272},
+											pos: position{line: 2647, col: 5, offset: 84486},
 											run: (*parser).callonDocumentFragment1106,
 											expr: &seqExpr{
-												pos: position{line: 2641, col: 5, offset: 84272},
+												pos: position{line: 2647, col: 5, offset: 84486},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2647, col: 19, offset: 84449},
+														pos:        position{line: 2653, col: 19, offset: 84663},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2647, col: 26, offset: 84456},
+														pos: position{line: 2653, col: 26, offset: 84670},
 														expr: &actionExpr{
-															pos: position{line: 2912, col: 10, offset: 91925},
+															pos: position{line: 2918, col: 10, offset: 92139},
 															run: (*parser).callonDocumentFragment1110,
 															expr: &charClassMatcher{
-																pos:        position{line: 2912, col: 10, offset: 91925},
+																pos:        position{line: 2918, col: 10, offset: 92139},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9071,28 +9071,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2934, col: 8, offset: 92323},
+														pos: position{line: 2940, col: 8, offset: 92537},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2921, col: 12, offset: 92096},
+																pos: position{line: 2927, col: 12, offset: 92310},
 																run: (*parser).callonDocumentFragment1113,
 																expr: &choiceExpr{
-																	pos: position{line: 2921, col: 13, offset: 92097},
+																	pos: position{line: 2927, col: 13, offset: 92311},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 13, offset: 92097},
+																			pos:        position{line: 2927, col: 13, offset: 92311},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 20, offset: 92104},
+																			pos:        position{line: 2927, col: 20, offset: 92318},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 29, offset: 92113},
+																			pos:        position{line: 2927, col: 29, offset: 92327},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9101,40 +9101,40 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2931, col: 8, offset: 92273},
+																pos: position{line: 2937, col: 8, offset: 92487},
 																expr: &anyMatcher{
-																	line: 2931, col: 9, offset: 92274,
+																	line: 2937, col: 9, offset: 92488,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2642, col: 5, offset: 84296},
+														pos:   position{line: 2648, col: 5, offset: 84510},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2642, col: 11, offset: 84302},
+															pos: position{line: 2648, col: 11, offset: 84516},
 															expr: &choiceExpr{
-																pos: position{line: 2642, col: 12, offset: 84303},
+																pos: position{line: 2648, col: 12, offset: 84517},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 680, col: 14, offset: 21687},
+																		pos: position{line: 686, col: 14, offset: 21901},
 																		run: (*parser).callonDocumentFragment1123,
 																		expr: &seqExpr{
-																			pos: position{line: 680, col: 14, offset: 21687},
+																			pos: position{line: 686, col: 14, offset: 21901},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2929, col: 11, offset: 92259},
+																					pos: position{line: 2935, col: 11, offset: 92473},
 																					expr: &anyMatcher{
-																						line: 2929, col: 13, offset: 92261,
+																						line: 2935, col: 13, offset: 92475,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 680, col: 21, offset: 21694},
+																					pos: position{line: 686, col: 21, offset: 21908},
 																					expr: &actionExpr{
-																						pos: position{line: 2912, col: 10, offset: 91925},
+																						pos: position{line: 2918, col: 10, offset: 92139},
 																						run: (*parser).callonDocumentFragment1128,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2912, col: 10, offset: 91925},
+																							pos:        position{line: 2918, col: 10, offset: 92139},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9143,28 +9143,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2934, col: 8, offset: 92323},
+																					pos: position{line: 2940, col: 8, offset: 92537},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2921, col: 12, offset: 92096},
+																							pos: position{line: 2927, col: 12, offset: 92310},
 																							run: (*parser).callonDocumentFragment1131,
 																							expr: &choiceExpr{
-																								pos: position{line: 2921, col: 13, offset: 92097},
+																								pos: position{line: 2927, col: 13, offset: 92311},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 13, offset: 92097},
+																										pos:        position{line: 2927, col: 13, offset: 92311},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 20, offset: 92104},
+																										pos:        position{line: 2927, col: 20, offset: 92318},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 29, offset: 92113},
+																										pos:        position{line: 2927, col: 29, offset: 92327},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9173,9 +9173,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2931, col: 8, offset: 92273},
+																							pos: position{line: 2937, col: 8, offset: 92487},
 																							expr: &anyMatcher{
-																								line: 2931, col: 9, offset: 92274,
+																								line: 2937, col: 9, offset: 92488,
 																							},
 																						},
 																					},
@@ -9184,36 +9184,36 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2515, col: 22, offset: 80703},
+																		pos: position{line: 2521, col: 22, offset: 80917},
 																		run: (*parser).callonDocumentFragment1138,
 																		expr: &seqExpr{
-																			pos: position{line: 2515, col: 22, offset: 80703},
+																			pos: position{line: 2521, col: 22, offset: 80917},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2520, col: 31, offset: 80953},
+																					pos:        position{line: 2526, col: 31, offset: 81167},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																				&notExpr{
-																					pos: position{line: 2520, col: 36, offset: 80958},
+																					pos: position{line: 2526, col: 36, offset: 81172},
 																					expr: &litMatcher{
-																						pos:        position{line: 2520, col: 37, offset: 80959},
+																						pos:        position{line: 2526, col: 37, offset: 81173},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2515, col: 49, offset: 80730},
+																					pos:   position{line: 2521, col: 49, offset: 80944},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2858, col: 13, offset: 90451},
+																						pos: position{line: 2864, col: 13, offset: 90665},
 																						run: (*parser).callonDocumentFragment1144,
 																						expr: &zeroOrMoreExpr{
-																							pos: position{line: 2858, col: 13, offset: 90451},
+																							pos: position{line: 2864, col: 13, offset: 90665},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2858, col: 13, offset: 90451},
+																								pos:        position{line: 2864, col: 13, offset: 90665},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -9223,28 +9223,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2934, col: 8, offset: 92323},
+																					pos: position{line: 2940, col: 8, offset: 92537},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2921, col: 12, offset: 92096},
+																							pos: position{line: 2927, col: 12, offset: 92310},
 																							run: (*parser).callonDocumentFragment1148,
 																							expr: &choiceExpr{
-																								pos: position{line: 2921, col: 13, offset: 92097},
+																								pos: position{line: 2927, col: 13, offset: 92311},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 13, offset: 92097},
+																										pos:        position{line: 2927, col: 13, offset: 92311},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 20, offset: 92104},
+																										pos:        position{line: 2927, col: 20, offset: 92318},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 29, offset: 92113},
+																										pos:        position{line: 2927, col: 29, offset: 92327},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9253,9 +9253,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2931, col: 8, offset: 92273},
+																							pos: position{line: 2937, col: 8, offset: 92487},
 																							expr: &anyMatcher{
-																								line: 2931, col: 9, offset: 92274,
+																								line: 2937, col: 9, offset: 92488,
 																							},
 																						},
 																					},
@@ -9264,32 +9264,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2654, col: 5, offset: 84568},
+																		pos: position{line: 2660, col: 5, offset: 84782},
 																		run: (*parser).callonDocumentFragment1155,
 																		expr: &seqExpr{
-																			pos: position{line: 2654, col: 5, offset: 84568},
+																			pos: position{line: 2660, col: 5, offset: 84782},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2654, col: 5, offset: 84568},
+																					pos: position{line: 2660, col: 5, offset: 84782},
 																					expr: &choiceExpr{
-																						pos: position{line: 2651, col: 22, offset: 84529},
+																						pos: position{line: 2657, col: 22, offset: 84743},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2647, col: 19, offset: 84449},
+																								pos: position{line: 2653, col: 19, offset: 84663},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2647, col: 19, offset: 84449},
+																										pos:        position{line: 2653, col: 19, offset: 84663},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2647, col: 26, offset: 84456},
+																										pos: position{line: 2653, col: 26, offset: 84670},
 																										expr: &actionExpr{
-																											pos: position{line: 2912, col: 10, offset: 91925},
+																											pos: position{line: 2918, col: 10, offset: 92139},
 																											run: (*parser).callonDocumentFragment1162,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2912, col: 10, offset: 91925},
+																												pos:        position{line: 2918, col: 10, offset: 92139},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9298,28 +9298,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2934, col: 8, offset: 92323},
+																										pos: position{line: 2940, col: 8, offset: 92537},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2921, col: 12, offset: 92096},
+																												pos: position{line: 2927, col: 12, offset: 92310},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &choiceExpr{
-																													pos: position{line: 2921, col: 13, offset: 92097},
+																													pos: position{line: 2927, col: 13, offset: 92311},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2921, col: 13, offset: 92097},
+																															pos:        position{line: 2927, col: 13, offset: 92311},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2921, col: 20, offset: 92104},
+																															pos:        position{line: 2927, col: 20, offset: 92318},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2921, col: 29, offset: 92113},
+																															pos:        position{line: 2927, col: 29, offset: 92327},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9328,9 +9328,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2931, col: 8, offset: 92273},
+																												pos: position{line: 2937, col: 8, offset: 92487},
 																												expr: &anyMatcher{
-																													line: 2931, col: 9, offset: 92274,
+																													line: 2937, col: 9, offset: 92488,
 																												},
 																											},
 																										},
@@ -9338,59 +9338,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2931, col: 8, offset: 92273},
+																								pos: position{line: 2937, col: 8, offset: 92487},
 																								expr: &anyMatcher{
-																									line: 2931, col: 9, offset: 92274,
+																									line: 2937, col: 9, offset: 92488,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2655, col: 5, offset: 84591},
+																					pos:   position{line: 2661, col: 5, offset: 84805},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2656, col: 9, offset: 84609},
+																						pos: position{line: 2662, col: 9, offset: 84823},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2656, col: 10, offset: 84610},
+																								pos: position{line: 2662, col: 10, offset: 84824},
 																								run: (*parser).callonDocumentFragment1176,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2656, col: 10, offset: 84610},
+																									pos:   position{line: 2662, col: 10, offset: 84824},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2656, col: 17, offset: 84617},
+																										pos: position{line: 2662, col: 17, offset: 84831},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2664, col: 21, offset: 84813},
+																												pos: position{line: 2670, col: 21, offset: 85027},
 																												run: (*parser).callonDocumentFragment1179,
 																												expr: &seqExpr{
-																													pos: position{line: 2664, col: 21, offset: 84813},
+																													pos: position{line: 2670, col: 21, offset: 85027},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2664, col: 21, offset: 84813},
+																															pos:   position{line: 2670, col: 21, offset: 85027},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2664, col: 27, offset: 84819},
+																																pos: position{line: 2670, col: 27, offset: 85033},
 																																expr: &actionExpr{
-																																	pos: position{line: 2669, col: 5, offset: 84894},
+																																	pos: position{line: 2675, col: 5, offset: 85108},
 																																	run: (*parser).callonDocumentFragment1183,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2669, col: 5, offset: 84894},
+																																		pos: position{line: 2675, col: 5, offset: 85108},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2669, col: 5, offset: 84894},
+																																				pos:        position{line: 2675, col: 5, offset: 85108},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2669, col: 9, offset: 84898},
+																																				pos: position{line: 2675, col: 9, offset: 85112},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2912, col: 10, offset: 91925},
+																																					pos: position{line: 2918, col: 10, offset: 92139},
 																																					run: (*parser).callonDocumentFragment1187,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2912, col: 10, offset: 91925},
+																																						pos:        position{line: 2918, col: 10, offset: 92139},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9399,21 +9399,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2669, col: 16, offset: 84905},
+																																				pos:   position{line: 2675, col: 16, offset: 85119},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2675, col: 5, offset: 85105},
+																																					pos: position{line: 2681, col: 5, offset: 85319},
 																																					run: (*parser).callonDocumentFragment1190,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2675, col: 5, offset: 85105},
+																																						pos:   position{line: 2681, col: 5, offset: 85319},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2675, col: 14, offset: 85114},
+																																							pos: position{line: 2681, col: 14, offset: 85328},
 																																							run: (*parser).callonDocumentFragment1192,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2675, col: 14, offset: 85114},
+																																								pos: position{line: 2681, col: 14, offset: 85328},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2675, col: 14, offset: 85114},
+																																									pos:        position{line: 2681, col: 14, offset: 85328},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9430,28 +9430,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2934, col: 8, offset: 92323},
+																															pos: position{line: 2940, col: 8, offset: 92537},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2921, col: 12, offset: 92096},
+																																	pos: position{line: 2927, col: 12, offset: 92310},
 																																	run: (*parser).callonDocumentFragment1196,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2921, col: 13, offset: 92097},
+																																		pos: position{line: 2927, col: 13, offset: 92311},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2921, col: 13, offset: 92097},
+																																				pos:        position{line: 2927, col: 13, offset: 92311},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2921, col: 20, offset: 92104},
+																																				pos:        position{line: 2927, col: 20, offset: 92318},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2921, col: 29, offset: 92113},
+																																				pos:        position{line: 2927, col: 29, offset: 92327},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9460,9 +9460,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2931, col: 8, offset: 92273},
+																																	pos: position{line: 2937, col: 8, offset: 92487},
 																																	expr: &anyMatcher{
-																																		line: 2931, col: 9, offset: 92274,
+																																		line: 2937, col: 9, offset: 92488,
 																																	},
 																																},
 																															},
@@ -9471,40 +9471,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2681, col: 24, offset: 85250},
+																												pos: position{line: 2687, col: 24, offset: 85464},
 																												run: (*parser).callonDocumentFragment1203,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2681, col: 24, offset: 85250},
+																													pos:   position{line: 2687, col: 24, offset: 85464},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2681, col: 30, offset: 85256},
+																														pos: position{line: 2687, col: 30, offset: 85470},
 																														expr: &actionExpr{
-																															pos: position{line: 2686, col: 5, offset: 85332},
+																															pos: position{line: 2692, col: 5, offset: 85546},
 																															run: (*parser).callonDocumentFragment1206,
 																															expr: &seqExpr{
-																																pos: position{line: 2686, col: 5, offset: 85332},
+																																pos: position{line: 2692, col: 5, offset: 85546},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2686, col: 5, offset: 85332},
+																																		pos: position{line: 2692, col: 5, offset: 85546},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2651, col: 22, offset: 84529},
+																																			pos: position{line: 2657, col: 22, offset: 84743},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2647, col: 19, offset: 84449},
+																																					pos: position{line: 2653, col: 19, offset: 84663},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2647, col: 19, offset: 84449},
+																																							pos:        position{line: 2653, col: 19, offset: 84663},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2647, col: 26, offset: 84456},
+																																							pos: position{line: 2653, col: 26, offset: 84670},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2912, col: 10, offset: 91925},
+																																								pos: position{line: 2918, col: 10, offset: 92139},
 																																								run: (*parser).callonDocumentFragment1213,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2912, col: 10, offset: 91925},
+																																									pos:        position{line: 2918, col: 10, offset: 92139},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9513,28 +9513,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2934, col: 8, offset: 92323},
+																																							pos: position{line: 2940, col: 8, offset: 92537},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2921, col: 12, offset: 92096},
+																																									pos: position{line: 2927, col: 12, offset: 92310},
 																																									run: (*parser).callonDocumentFragment1216,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2921, col: 13, offset: 92097},
+																																										pos: position{line: 2927, col: 13, offset: 92311},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2921, col: 13, offset: 92097},
+																																												pos:        position{line: 2927, col: 13, offset: 92311},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2921, col: 20, offset: 92104},
+																																												pos:        position{line: 2927, col: 20, offset: 92318},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2921, col: 29, offset: 92113},
+																																												pos:        position{line: 2927, col: 29, offset: 92327},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9543,9 +9543,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2931, col: 8, offset: 92273},
+																																									pos: position{line: 2937, col: 8, offset: 92487},
 																																									expr: &anyMatcher{
-																																										line: 2931, col: 9, offset: 92274,
+																																										line: 2937, col: 9, offset: 92488,
 																																									},
 																																								},
 																																							},
@@ -9553,35 +9553,35 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2931, col: 8, offset: 92273},
+																																					pos: position{line: 2937, col: 8, offset: 92487},
 																																					expr: &anyMatcher{
-																																						line: 2931, col: 9, offset: 92274,
+																																						line: 2937, col: 9, offset: 92488,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2687, col: 5, offset: 85355},
+																																		pos: position{line: 2693, col: 5, offset: 85569},
 																																		expr: &actionExpr{
-																																			pos: position{line: 680, col: 14, offset: 21687},
+																																			pos: position{line: 686, col: 14, offset: 21901},
 																																			run: (*parser).callonDocumentFragment1226,
 																																			expr: &seqExpr{
-																																				pos: position{line: 680, col: 14, offset: 21687},
+																																				pos: position{line: 686, col: 14, offset: 21901},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2929, col: 11, offset: 92259},
+																																						pos: position{line: 2935, col: 11, offset: 92473},
 																																						expr: &anyMatcher{
-																																							line: 2929, col: 13, offset: 92261,
+																																							line: 2935, col: 13, offset: 92475,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 680, col: 21, offset: 21694},
+																																						pos: position{line: 686, col: 21, offset: 21908},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2912, col: 10, offset: 91925},
+																																							pos: position{line: 2918, col: 10, offset: 92139},
 																																							run: (*parser).callonDocumentFragment1231,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2912, col: 10, offset: 91925},
+																																								pos:        position{line: 2918, col: 10, offset: 92139},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9590,28 +9590,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2934, col: 8, offset: 92323},
+																																						pos: position{line: 2940, col: 8, offset: 92537},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2921, col: 12, offset: 92096},
+																																								pos: position{line: 2927, col: 12, offset: 92310},
 																																								run: (*parser).callonDocumentFragment1234,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2921, col: 13, offset: 92097},
+																																									pos: position{line: 2927, col: 13, offset: 92311},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2921, col: 13, offset: 92097},
+																																											pos:        position{line: 2927, col: 13, offset: 92311},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2921, col: 20, offset: 92104},
+																																											pos:        position{line: 2927, col: 20, offset: 92318},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2921, col: 29, offset: 92113},
+																																											pos:        position{line: 2927, col: 29, offset: 92327},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9620,9 +9620,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2931, col: 8, offset: 92273},
+																																								pos: position{line: 2937, col: 8, offset: 92487},
 																																								expr: &anyMatcher{
-																																									line: 2931, col: 9, offset: 92274,
+																																									line: 2937, col: 9, offset: 92488,
 																																								},
 																																							},
 																																						},
@@ -9632,17 +9632,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2688, col: 5, offset: 85370},
+																																		pos:   position{line: 2694, col: 5, offset: 85584},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2688, col: 12, offset: 85377},
+																																			pos: position{line: 2694, col: 12, offset: 85591},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2712, col: 20, offset: 86000},
+																																				pos: position{line: 2718, col: 20, offset: 86214},
 																																				run: (*parser).callonDocumentFragment1243,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2712, col: 20, offset: 86000},
+																																					pos: position{line: 2718, col: 20, offset: 86214},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2712, col: 20, offset: 86000},
+																																						pos:        position{line: 2718, col: 20, offset: 86214},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9653,18 +9653,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2688, col: 31, offset: 85396},
+																																		pos:        position{line: 2694, col: 31, offset: 85610},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2688, col: 35, offset: 85400},
+																																		pos: position{line: 2694, col: 35, offset: 85614},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2912, col: 10, offset: 91925},
+																																			pos: position{line: 2918, col: 10, offset: 92139},
 																																			run: (*parser).callonDocumentFragment1248,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2912, col: 10, offset: 91925},
+																																				pos:        position{line: 2918, col: 10, offset: 92139},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9673,27 +9673,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2688, col: 42, offset: 85407},
+																																		pos: position{line: 2694, col: 42, offset: 85621},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2921, col: 12, offset: 92096},
+																																			pos: position{line: 2927, col: 12, offset: 92310},
 																																			run: (*parser).callonDocumentFragment1251,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2921, col: 13, offset: 92097},
+																																				pos: position{line: 2927, col: 13, offset: 92311},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2921, col: 13, offset: 92097},
+																																						pos:        position{line: 2927, col: 13, offset: 92311},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2921, col: 20, offset: 92104},
+																																						pos:        position{line: 2927, col: 20, offset: 92318},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2921, col: 29, offset: 92113},
+																																						pos:        position{line: 2927, col: 29, offset: 92327},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9703,57 +9703,57 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2688, col: 51, offset: 85416},
+																																		pos:   position{line: 2694, col: 51, offset: 85630},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2694, col: 5, offset: 85575},
+																																			pos: position{line: 2700, col: 5, offset: 85789},
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2695, col: 9, offset: 85585},
+																																				pos: position{line: 2701, col: 9, offset: 85799},
 																																				alternatives: []interface{}{
 																																					&actionExpr{
-																																						pos: position{line: 2695, col: 9, offset: 85585},
+																																						pos: position{line: 2701, col: 9, offset: 85799},
 																																						run: (*parser).callonDocumentFragment1259,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2695, col: 9, offset: 85585},
+																																							pos: position{line: 2701, col: 9, offset: 85799},
 																																							exprs: []interface{}{
 																																								&andCodeExpr{
-																																									pos: position{line: 2695, col: 9, offset: 85585},
+																																									pos: position{line: 2701, col: 9, offset: 85799},
 																																									run: (*parser).callonDocumentFragment1261,
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2698, col: 9, offset: 85654},
+																																									pos:   position{line: 2704, col: 9, offset: 85868},
 																																									label: "comment",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2515, col: 22, offset: 80703},
+																																										pos: position{line: 2521, col: 22, offset: 80917},
 																																										run: (*parser).callonDocumentFragment1263,
 																																										expr: &seqExpr{
-																																											pos: position{line: 2515, col: 22, offset: 80703},
+																																											pos: position{line: 2521, col: 22, offset: 80917},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2520, col: 31, offset: 80953},
+																																													pos:        position{line: 2526, col: 31, offset: 81167},
 																																													val:        "//",
 																																													ignoreCase: false,
 																																													want:       "\"//\"",
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2520, col: 36, offset: 80958},
+																																													pos: position{line: 2526, col: 36, offset: 81172},
 																																													expr: &litMatcher{
-																																														pos:        position{line: 2520, col: 37, offset: 80959},
+																																														pos:        position{line: 2526, col: 37, offset: 81173},
 																																														val:        "/",
 																																														ignoreCase: false,
 																																														want:       "\"/\"",
 																																													},
 																																												},
 																																												&labeledExpr{
-																																													pos:   position{line: 2515, col: 49, offset: 80730},
+																																													pos:   position{line: 2521, col: 49, offset: 80944},
 																																													label: "content",
 																																													expr: &actionExpr{
-																																														pos: position{line: 2858, col: 13, offset: 90451},
+																																														pos: position{line: 2864, col: 13, offset: 90665},
 																																														run: (*parser).callonDocumentFragment1269,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2858, col: 13, offset: 90451},
+																																															pos: position{line: 2864, col: 13, offset: 90665},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2858, col: 13, offset: 90451},
+																																																pos:        position{line: 2864, col: 13, offset: 90665},
 																																																val:        "[^\\r\\n]",
 																																																chars:      []rune{'\r', '\n'},
 																																																ignoreCase: false,
@@ -9763,28 +9763,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2934, col: 8, offset: 92323},
+																																													pos: position{line: 2940, col: 8, offset: 92537},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2921, col: 12, offset: 92096},
+																																															pos: position{line: 2927, col: 12, offset: 92310},
 																																															run: (*parser).callonDocumentFragment1273,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2921, col: 13, offset: 92097},
+																																																pos: position{line: 2927, col: 13, offset: 92311},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2921, col: 13, offset: 92097},
+																																																		pos:        position{line: 2927, col: 13, offset: 92311},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2921, col: 20, offset: 92104},
+																																																		pos:        position{line: 2927, col: 20, offset: 92318},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2921, col: 29, offset: 92113},
+																																																		pos:        position{line: 2927, col: 29, offset: 92327},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -9793,9 +9793,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2931, col: 8, offset: 92273},
+																																															pos: position{line: 2937, col: 8, offset: 92487},
 																																															expr: &anyMatcher{
-																																																line: 2931, col: 9, offset: 92274,
+																																																line: 2937, col: 9, offset: 92488,
 																																															},
 																																														},
 																																													},
@@ -9808,32 +9808,32 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&actionExpr{
-																																						pos: position{line: 2702, col: 9, offset: 85744},
+																																						pos: position{line: 2708, col: 9, offset: 85958},
 																																						run: (*parser).callonDocumentFragment1280,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2702, col: 9, offset: 85744},
+																																							pos: position{line: 2708, col: 9, offset: 85958},
 																																							exprs: []interface{}{
 																																								&notExpr{
-																																									pos: position{line: 2702, col: 9, offset: 85744},
+																																									pos: position{line: 2708, col: 9, offset: 85958},
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2651, col: 22, offset: 84529},
+																																										pos: position{line: 2657, col: 22, offset: 84743},
 																																										alternatives: []interface{}{
 																																											&seqExpr{
-																																												pos: position{line: 2647, col: 19, offset: 84449},
+																																												pos: position{line: 2653, col: 19, offset: 84663},
 																																												exprs: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2647, col: 19, offset: 84449},
+																																														pos:        position{line: 2653, col: 19, offset: 84663},
 																																														val:        "|===",
 																																														ignoreCase: false,
 																																														want:       "\"|===\"",
 																																													},
 																																													&zeroOrMoreExpr{
-																																														pos: position{line: 2647, col: 26, offset: 84456},
+																																														pos: position{line: 2653, col: 26, offset: 84670},
 																																														expr: &actionExpr{
-																																															pos: position{line: 2912, col: 10, offset: 91925},
+																																															pos: position{line: 2918, col: 10, offset: 92139},
 																																															run: (*parser).callonDocumentFragment1287,
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2912, col: 10, offset: 91925},
+																																																pos:        position{line: 2918, col: 10, offset: 92139},
 																																																val:        "[\\t ]",
 																																																chars:      []rune{'\t', ' '},
 																																																ignoreCase: false,
@@ -9842,28 +9842,28 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&choiceExpr{
-																																														pos: position{line: 2934, col: 8, offset: 92323},
+																																														pos: position{line: 2940, col: 8, offset: 92537},
 																																														alternatives: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2921, col: 12, offset: 92096},
+																																																pos: position{line: 2927, col: 12, offset: 92310},
 																																																run: (*parser).callonDocumentFragment1290,
 																																																expr: &choiceExpr{
-																																																	pos: position{line: 2921, col: 13, offset: 92097},
+																																																	pos: position{line: 2927, col: 13, offset: 92311},
 																																																	alternatives: []interface{}{
 																																																		&litMatcher{
-																																																			pos:        position{line: 2921, col: 13, offset: 92097},
+																																																			pos:        position{line: 2927, col: 13, offset: 92311},
 																																																			val:        "\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2921, col: 20, offset: 92104},
+																																																			pos:        position{line: 2927, col: 20, offset: 92318},
 																																																			val:        "\r\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2921, col: 29, offset: 92113},
+																																																			pos:        position{line: 2927, col: 29, offset: 92327},
 																																																			val:        "\r",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\"",
@@ -9872,9 +9872,9 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&notExpr{
-																																																pos: position{line: 2931, col: 8, offset: 92273},
+																																																pos: position{line: 2937, col: 8, offset: 92487},
 																																																expr: &anyMatcher{
-																																																	line: 2931, col: 9, offset: 92274,
+																																																	line: 2937, col: 9, offset: 92488,
 																																																},
 																																															},
 																																														},
@@ -9882,35 +9882,35 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2931, col: 8, offset: 92273},
+																																												pos: position{line: 2937, col: 8, offset: 92487},
 																																												expr: &anyMatcher{
-																																													line: 2931, col: 9, offset: 92274,
+																																													line: 2937, col: 9, offset: 92488,
 																																												},
 																																											},
 																																										},
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2703, col: 9, offset: 85771},
+																																									pos: position{line: 2709, col: 9, offset: 85985},
 																																									expr: &actionExpr{
-																																										pos: position{line: 680, col: 14, offset: 21687},
+																																										pos: position{line: 686, col: 14, offset: 21901},
 																																										run: (*parser).callonDocumentFragment1300,
 																																										expr: &seqExpr{
-																																											pos: position{line: 680, col: 14, offset: 21687},
+																																											pos: position{line: 686, col: 14, offset: 21901},
 																																											exprs: []interface{}{
 																																												&andExpr{
-																																													pos: position{line: 2929, col: 11, offset: 92259},
+																																													pos: position{line: 2935, col: 11, offset: 92473},
 																																													expr: &anyMatcher{
-																																														line: 2929, col: 13, offset: 92261,
+																																														line: 2935, col: 13, offset: 92475,
 																																													},
 																																												},
 																																												&zeroOrMoreExpr{
-																																													pos: position{line: 680, col: 21, offset: 21694},
+																																													pos: position{line: 686, col: 21, offset: 21908},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2912, col: 10, offset: 91925},
+																																														pos: position{line: 2918, col: 10, offset: 92139},
 																																														run: (*parser).callonDocumentFragment1305,
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2912, col: 10, offset: 91925},
+																																															pos:        position{line: 2918, col: 10, offset: 92139},
 																																															val:        "[\\t ]",
 																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
@@ -9919,28 +9919,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2934, col: 8, offset: 92323},
+																																													pos: position{line: 2940, col: 8, offset: 92537},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2921, col: 12, offset: 92096},
+																																															pos: position{line: 2927, col: 12, offset: 92310},
 																																															run: (*parser).callonDocumentFragment1308,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2921, col: 13, offset: 92097},
+																																																pos: position{line: 2927, col: 13, offset: 92311},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2921, col: 13, offset: 92097},
+																																																		pos:        position{line: 2927, col: 13, offset: 92311},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2921, col: 20, offset: 92104},
+																																																		pos:        position{line: 2927, col: 20, offset: 92318},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2921, col: 29, offset: 92113},
+																																																		pos:        position{line: 2927, col: 29, offset: 92327},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -9949,9 +9949,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2931, col: 8, offset: 92273},
+																																															pos: position{line: 2937, col: 8, offset: 92487},
 																																															expr: &anyMatcher{
-																																																line: 2931, col: 9, offset: 92274,
+																																																line: 2937, col: 9, offset: 92488,
 																																															},
 																																														},
 																																													},
@@ -9961,22 +9961,22 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2704, col: 9, offset: 85790},
+																																									pos: position{line: 2710, col: 9, offset: 86004},
 																																									expr: &seqExpr{
-																																										pos: position{line: 2704, col: 11, offset: 85792},
+																																										pos: position{line: 2710, col: 11, offset: 86006},
 																																										exprs: []interface{}{
 																																											&labeledExpr{
-																																												pos:   position{line: 2704, col: 11, offset: 85792},
+																																												pos:   position{line: 2710, col: 11, offset: 86006},
 																																												label: "format",
 																																												expr: &zeroOrOneExpr{
-																																													pos: position{line: 2704, col: 18, offset: 85799},
+																																													pos: position{line: 2710, col: 18, offset: 86013},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2712, col: 20, offset: 86000},
+																																														pos: position{line: 2718, col: 20, offset: 86214},
 																																														run: (*parser).callonDocumentFragment1319,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2712, col: 20, offset: 86000},
+																																															pos: position{line: 2718, col: 20, offset: 86214},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2712, col: 20, offset: 86000},
+																																																pos:        position{line: 2718, col: 20, offset: 86214},
 																																																val:        "[^ |\\r\\n]",
 																																																chars:      []rune{' ', '|', '\r', '\n'},
 																																																ignoreCase: false,
@@ -9987,7 +9987,7 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2704, col: 37, offset: 85818},
+																																												pos:        position{line: 2710, col: 37, offset: 86032},
 																																												val:        "|",
 																																												ignoreCase: false,
 																																												want:       "\"|\"",
@@ -9996,15 +9996,15 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2705, col: 9, offset: 85831},
+																																									pos:   position{line: 2711, col: 9, offset: 86045},
 																																									label: "content",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2705, col: 18, offset: 85840},
+																																										pos: position{line: 2711, col: 18, offset: 86054},
 																																										run: (*parser).callonDocumentFragment1324,
 																																										expr: &zeroOrMoreExpr{
-																																											pos: position{line: 2705, col: 18, offset: 85840},
+																																											pos: position{line: 2711, col: 18, offset: 86054},
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2705, col: 18, offset: 85840},
+																																												pos:        position{line: 2711, col: 18, offset: 86054},
 																																												val:        "[^|\\r\\n]",
 																																												chars:      []rune{'|', '\r', '\n'},
 																																												ignoreCase: false,
@@ -10014,30 +10014,30 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&zeroOrOneExpr{
-																																									pos: position{line: 2707, col: 12, offset: 85902},
+																																									pos: position{line: 2713, col: 12, offset: 86116},
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2934, col: 8, offset: 92323},
+																																										pos: position{line: 2940, col: 8, offset: 92537},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2921, col: 12, offset: 92096},
+																																												pos: position{line: 2927, col: 12, offset: 92310},
 																																												run: (*parser).callonDocumentFragment1329,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2921, col: 13, offset: 92097},
+																																													pos: position{line: 2927, col: 13, offset: 92311},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2921, col: 13, offset: 92097},
+																																															pos:        position{line: 2927, col: 13, offset: 92311},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2921, col: 20, offset: 92104},
+																																															pos:        position{line: 2927, col: 20, offset: 92318},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2921, col: 29, offset: 92113},
+																																															pos:        position{line: 2927, col: 29, offset: 92327},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -10046,9 +10046,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2931, col: 8, offset: 92273},
+																																												pos: position{line: 2937, col: 8, offset: 92487},
 																																												expr: &anyMatcher{
-																																													line: 2931, col: 9, offset: 92274,
+																																													line: 2937, col: 9, offset: 92488,
 																																												},
 																																											},
 																																										},
@@ -10072,24 +10072,24 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 680, col: 14, offset: 21687},
+																								pos: position{line: 686, col: 14, offset: 21901},
 																								run: (*parser).callonDocumentFragment1336,
 																								expr: &seqExpr{
-																									pos: position{line: 680, col: 14, offset: 21687},
+																									pos: position{line: 686, col: 14, offset: 21901},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2929, col: 11, offset: 92259},
+																											pos: position{line: 2935, col: 11, offset: 92473},
 																											expr: &anyMatcher{
-																												line: 2929, col: 13, offset: 92261,
+																												line: 2935, col: 13, offset: 92475,
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 680, col: 21, offset: 21694},
+																											pos: position{line: 686, col: 21, offset: 21908},
 																											expr: &actionExpr{
-																												pos: position{line: 2912, col: 10, offset: 91925},
+																												pos: position{line: 2918, col: 10, offset: 92139},
 																												run: (*parser).callonDocumentFragment1341,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2912, col: 10, offset: 91925},
+																													pos:        position{line: 2918, col: 10, offset: 92139},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10098,28 +10098,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2934, col: 8, offset: 92323},
+																											pos: position{line: 2940, col: 8, offset: 92537},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2921, col: 12, offset: 92096},
+																													pos: position{line: 2927, col: 12, offset: 92310},
 																													run: (*parser).callonDocumentFragment1344,
 																													expr: &choiceExpr{
-																														pos: position{line: 2921, col: 13, offset: 92097},
+																														pos: position{line: 2927, col: 13, offset: 92311},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 13, offset: 92097},
+																																pos:        position{line: 2927, col: 13, offset: 92311},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 20, offset: 92104},
+																																pos:        position{line: 2927, col: 20, offset: 92318},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 29, offset: 92113},
+																																pos:        position{line: 2927, col: 29, offset: 92327},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10128,9 +10128,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2931, col: 8, offset: 92273},
+																													pos: position{line: 2937, col: 8, offset: 92487},
 																													expr: &anyMatcher{
-																														line: 2931, col: 9, offset: 92274,
+																														line: 2937, col: 9, offset: 92488,
 																													},
 																												},
 																											},
@@ -10149,24 +10149,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2651, col: 22, offset: 84529},
+														pos: position{line: 2657, col: 22, offset: 84743},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2647, col: 19, offset: 84449},
+																pos: position{line: 2653, col: 19, offset: 84663},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2647, col: 19, offset: 84449},
+																		pos:        position{line: 2653, col: 19, offset: 84663},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2647, col: 26, offset: 84456},
+																		pos: position{line: 2653, col: 26, offset: 84670},
 																		expr: &actionExpr{
-																			pos: position{line: 2912, col: 10, offset: 91925},
+																			pos: position{line: 2918, col: 10, offset: 92139},
 																			run: (*parser).callonDocumentFragment1355,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2912, col: 10, offset: 91925},
+																				pos:        position{line: 2918, col: 10, offset: 92139},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10175,28 +10175,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2934, col: 8, offset: 92323},
+																		pos: position{line: 2940, col: 8, offset: 92537},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonDocumentFragment1358,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10205,9 +10205,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2931, col: 8, offset: 92273},
+																				pos: position{line: 2937, col: 8, offset: 92487},
 																				expr: &anyMatcher{
-																					line: 2931, col: 9, offset: 92274,
+																					line: 2937, col: 9, offset: 92488,
 																				},
 																			},
 																		},
@@ -10215,9 +10215,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2931, col: 8, offset: 92273},
+																pos: position{line: 2937, col: 8, offset: 92487},
 																expr: &anyMatcher{
-																	line: 2931, col: 9, offset: 92274,
+																	line: 2937, col: 9, offset: 92488,
 																},
 															},
 														},
@@ -10226,36 +10226,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2515, col: 22, offset: 80703},
+											pos: position{line: 2521, col: 22, offset: 80917},
 											run: (*parser).callonDocumentFragment1367,
 											expr: &seqExpr{
-												pos: position{line: 2515, col: 22, offset: 80703},
+												pos: position{line: 2521, col: 22, offset: 80917},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2520, col: 31, offset: 80953},
+														pos:        position{line: 2526, col: 31, offset: 81167},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2520, col: 36, offset: 80958},
+														pos: position{line: 2526, col: 36, offset: 81172},
 														expr: &litMatcher{
-															pos:        position{line: 2520, col: 37, offset: 80959},
+															pos:        position{line: 2526, col: 37, offset: 81173},
 															val:        "/",
 															ignoreCase: false,
 															want:       "\"/\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2515, col: 49, offset: 80730},
+														pos:   position{line: 2521, col: 49, offset: 80944},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2858, col: 13, offset: 90451},
+															pos: position{line: 2864, col: 13, offset: 90665},
 															run: (*parser).callonDocumentFragment1373,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2858, col: 13, offset: 90451},
+																pos: position{line: 2864, col: 13, offset: 90665},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2858, col: 13, offset: 90451},
+																	pos:        position{line: 2864, col: 13, offset: 90665},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10265,28 +10265,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2934, col: 8, offset: 92323},
+														pos: position{line: 2940, col: 8, offset: 92537},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2921, col: 12, offset: 92096},
+																pos: position{line: 2927, col: 12, offset: 92310},
 																run: (*parser).callonDocumentFragment1377,
 																expr: &choiceExpr{
-																	pos: position{line: 2921, col: 13, offset: 92097},
+																	pos: position{line: 2927, col: 13, offset: 92311},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 13, offset: 92097},
+																			pos:        position{line: 2927, col: 13, offset: 92311},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 20, offset: 92104},
+																			pos:        position{line: 2927, col: 20, offset: 92318},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 29, offset: 92113},
+																			pos:        position{line: 2927, col: 29, offset: 92327},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10295,9 +10295,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2931, col: 8, offset: 92273},
+																pos: position{line: 2937, col: 8, offset: 92487},
 																expr: &anyMatcher{
-																	line: 2931, col: 9, offset: 92274,
+																	line: 2937, col: 9, offset: 92488,
 																},
 															},
 														},
@@ -10306,37 +10306,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1225, col: 5, offset: 38064},
+											pos: position{line: 1231, col: 5, offset: 38278},
 											run: (*parser).callonDocumentFragment1384,
 											expr: &seqExpr{
-												pos: position{line: 1225, col: 5, offset: 38064},
+												pos: position{line: 1231, col: 5, offset: 38278},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1225, col: 5, offset: 38064},
+														pos: position{line: 1231, col: 5, offset: 38278},
 														run: (*parser).callonDocumentFragment1386,
 													},
 													&labeledExpr{
-														pos:   position{line: 1228, col: 5, offset: 38122},
+														pos:   position{line: 1234, col: 5, offset: 38336},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1233, col: 20, offset: 38217},
+															pos: position{line: 1239, col: 20, offset: 38431},
 															run: (*parser).callonDocumentFragment1388,
 															expr: &seqExpr{
-																pos: position{line: 1233, col: 20, offset: 38217},
+																pos: position{line: 1239, col: 20, offset: 38431},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1237, col: 30, offset: 38389},
+																		pos:        position{line: 1243, col: 30, offset: 38603},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1237, col: 36, offset: 38395},
+																		pos: position{line: 1243, col: 36, offset: 38609},
 																		expr: &actionExpr{
-																			pos: position{line: 2912, col: 10, offset: 91925},
+																			pos: position{line: 2918, col: 10, offset: 92139},
 																			run: (*parser).callonDocumentFragment1392,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2912, col: 10, offset: 91925},
+																				pos:        position{line: 2918, col: 10, offset: 92139},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10345,28 +10345,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2934, col: 8, offset: 92323},
+																		pos: position{line: 2940, col: 8, offset: 92537},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonDocumentFragment1395,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10375,46 +10375,46 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2931, col: 8, offset: 92273},
+																				pos: position{line: 2937, col: 8, offset: 92487},
 																				expr: &anyMatcher{
-																					line: 2931, col: 9, offset: 92274,
+																					line: 2937, col: 9, offset: 92488,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1233, col: 45, offset: 38242},
+																		pos:   position{line: 1239, col: 45, offset: 38456},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1233, col: 53, offset: 38250},
+																			pos: position{line: 1239, col: 53, offset: 38464},
 																			expr: &actionExpr{
-																				pos: position{line: 1239, col: 27, offset: 38433},
+																				pos: position{line: 1245, col: 27, offset: 38647},
 																				run: (*parser).callonDocumentFragment1404,
 																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1239, col: 27, offset: 38433},
+																					pos: position{line: 1245, col: 27, offset: 38647},
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1239, col: 28, offset: 38434},
+																						pos: position{line: 1245, col: 28, offset: 38648},
 																						expr: &seqExpr{
-																							pos: position{line: 1239, col: 29, offset: 38435},
+																							pos: position{line: 1245, col: 29, offset: 38649},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 1239, col: 29, offset: 38435},
+																									pos: position{line: 1245, col: 29, offset: 38649},
 																									expr: &seqExpr{
-																										pos: position{line: 1237, col: 30, offset: 38389},
+																										pos: position{line: 1243, col: 30, offset: 38603},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 1237, col: 30, offset: 38389},
+																												pos:        position{line: 1243, col: 30, offset: 38603},
 																												val:        "---",
 																												ignoreCase: false,
 																												want:       "\"---\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 1237, col: 36, offset: 38395},
+																												pos: position{line: 1243, col: 36, offset: 38609},
 																												expr: &actionExpr{
-																													pos: position{line: 2912, col: 10, offset: 91925},
+																													pos: position{line: 2918, col: 10, offset: 92139},
 																													run: (*parser).callonDocumentFragment1412,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2912, col: 10, offset: 91925},
+																														pos:        position{line: 2918, col: 10, offset: 92139},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10423,28 +10423,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2934, col: 8, offset: 92323},
+																												pos: position{line: 2940, col: 8, offset: 92537},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2921, col: 12, offset: 92096},
+																														pos: position{line: 2927, col: 12, offset: 92310},
 																														run: (*parser).callonDocumentFragment1415,
 																														expr: &choiceExpr{
-																															pos: position{line: 2921, col: 13, offset: 92097},
+																															pos: position{line: 2927, col: 13, offset: 92311},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2921, col: 13, offset: 92097},
+																																	pos:        position{line: 2927, col: 13, offset: 92311},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2921, col: 20, offset: 92104},
+																																	pos:        position{line: 2927, col: 20, offset: 92318},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2921, col: 29, offset: 92113},
+																																	pos:        position{line: 2927, col: 29, offset: 92327},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10453,9 +10453,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2931, col: 8, offset: 92273},
+																														pos: position{line: 2937, col: 8, offset: 92487},
 																														expr: &anyMatcher{
-																															line: 2931, col: 9, offset: 92274,
+																															line: 2937, col: 9, offset: 92488,
 																														},
 																													},
 																												},
@@ -10464,7 +10464,7 @@ var g = &grammar{
 																									},
 																								},
 																								&anyMatcher{
-																									line: 1239, col: 55, offset: 38461,
+																									line: 1245, col: 55, offset: 38675,
 																								},
 																							},
 																						},
@@ -10474,18 +10474,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1237, col: 30, offset: 38389},
+																		pos:        position{line: 1243, col: 30, offset: 38603},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1237, col: 36, offset: 38395},
+																		pos: position{line: 1243, col: 36, offset: 38609},
 																		expr: &actionExpr{
-																			pos: position{line: 2912, col: 10, offset: 91925},
+																			pos: position{line: 2918, col: 10, offset: 92139},
 																			run: (*parser).callonDocumentFragment1425,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2912, col: 10, offset: 91925},
+																				pos:        position{line: 2918, col: 10, offset: 92139},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10494,28 +10494,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2934, col: 8, offset: 92323},
+																		pos: position{line: 2940, col: 8, offset: 92537},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonDocumentFragment1428,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10524,9 +10524,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2931, col: 8, offset: 92273},
+																				pos: position{line: 2937, col: 8, offset: 92487},
 																				expr: &anyMatcher{
-																					line: 2931, col: 9, offset: 92274,
+																					line: 2937, col: 9, offset: 92488,
 																				},
 																			},
 																		},
@@ -10576,27 +10576,27 @@ var g = &grammar{
 									pos: position{line: 284, col: 9, offset: 8489},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1201, col: 23, offset: 37170},
+											pos: position{line: 1207, col: 23, offset: 37384},
 											run: (*parser).callonDelimitedBlockElements7,
 											expr: &seqExpr{
-												pos: position{line: 1201, col: 23, offset: 37170},
+												pos: position{line: 1207, col: 23, offset: 37384},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1199, col: 32, offset: 37138},
+														pos:        position{line: 1205, col: 32, offset: 37352},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1201, col: 51, offset: 37198},
+														pos:   position{line: 1207, col: 51, offset: 37412},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1201, col: 56, offset: 37203},
+															pos: position{line: 1207, col: 56, offset: 37417},
 															run: (*parser).callonDelimitedBlockElements11,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1201, col: 56, offset: 37203},
+																pos: position{line: 1207, col: 56, offset: 37417},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1201, col: 56, offset: 37203},
+																	pos:        position{line: 1207, col: 56, offset: 37417},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -10606,7 +10606,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1199, col: 32, offset: 37138},
+														pos:        position{line: 1205, col: 32, offset: 37352},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -10623,9 +10623,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2931, col: 8, offset: 92273},
+							pos: position{line: 2937, col: 8, offset: 92487},
 							expr: &anyMatcher{
-								line: 2931, col: 9, offset: 92274,
+								line: 2937, col: 9, offset: 92488,
 							},
 						},
 					},
@@ -10697,12 +10697,12 @@ var g = &grammar{
 										pos: position{line: 307, col: 9, offset: 9333},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2916, col: 11, offset: 91986},
+												pos: position{line: 2922, col: 11, offset: 92200},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2916, col: 11, offset: 91986},
+													pos: position{line: 2922, col: 11, offset: 92200},
 													expr: &charClassMatcher{
-														pos:        position{line: 2916, col: 11, offset: 91986},
+														pos:        position{line: 2922, col: 11, offset: 92200},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10724,28 +10724,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2934, col: 8, offset: 92323},
+							pos: position{line: 2940, col: 8, offset: 92537},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2921, col: 12, offset: 92096},
+									pos: position{line: 2927, col: 12, offset: 92310},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2921, col: 13, offset: 92097},
+										pos: position{line: 2927, col: 13, offset: 92311},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2921, col: 13, offset: 92097},
+												pos:        position{line: 2927, col: 13, offset: 92311},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2921, col: 20, offset: 92104},
+												pos:        position{line: 2927, col: 20, offset: 92318},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2921, col: 29, offset: 92113},
+												pos:        position{line: 2927, col: 29, offset: 92327},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10754,9 +10754,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2931, col: 8, offset: 92273},
+									pos: position{line: 2937, col: 8, offset: 92487},
 									expr: &anyMatcher{
-										line: 2931, col: 9, offset: 92274,
+										line: 2937, col: 9, offset: 92488,
 									},
 								},
 							},
@@ -10800,25 +10800,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2921, col: 12, offset: 92096},
+												pos: position{line: 2927, col: 12, offset: 92310},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2921, col: 13, offset: 92097},
+													pos: position{line: 2927, col: 13, offset: 92311},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2921, col: 13, offset: 92097},
+															pos:        position{line: 2927, col: 13, offset: 92311},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2921, col: 20, offset: 92104},
+															pos:        position{line: 2927, col: 20, offset: 92318},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2921, col: 29, offset: 92113},
+															pos:        position{line: 2927, col: 29, offset: 92327},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10829,10 +10829,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 328, col: 9, offset: 10034},
 												expr: &actionExpr{
-													pos: position{line: 2912, col: 10, offset: 91925},
+													pos: position{line: 2918, col: 10, offset: 92139},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2912, col: 10, offset: 91925},
+														pos:        position{line: 2918, col: 10, offset: 92139},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10902,10 +10902,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 346, col: 13, offset: 10579},
 										expr: &actionExpr{
-											pos: position{line: 2912, col: 10, offset: 91925},
+											pos: position{line: 2918, col: 10, offset: 92139},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2912, col: 10, offset: 91925},
+												pos:        position{line: 2918, col: 10, offset: 92139},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10914,28 +10914,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2934, col: 8, offset: 92323},
+										pos: position{line: 2940, col: 8, offset: 92537},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2921, col: 12, offset: 92096},
+												pos: position{line: 2927, col: 12, offset: 92310},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2921, col: 13, offset: 92097},
+													pos: position{line: 2927, col: 13, offset: 92311},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2921, col: 13, offset: 92097},
+															pos:        position{line: 2927, col: 13, offset: 92311},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2921, col: 20, offset: 92104},
+															pos:        position{line: 2927, col: 20, offset: 92318},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2921, col: 29, offset: 92113},
+															pos:        position{line: 2927, col: 29, offset: 92327},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10944,9 +10944,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2931, col: 8, offset: 92273},
+												pos: position{line: 2937, col: 8, offset: 92487},
 												expr: &anyMatcher{
-													line: 2931, col: 9, offset: 92274,
+													line: 2937, col: 9, offset: 92488,
 												},
 											},
 										},
@@ -10979,23 +10979,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2502, col: 5, offset: 80249},
+										pos: position{line: 2508, col: 5, offset: 80463},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2502, col: 5, offset: 80249},
+											pos: position{line: 2508, col: 5, offset: 80463},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2502, col: 5, offset: 80249},
+													pos: position{line: 2508, col: 5, offset: 80463},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2505, col: 5, offset: 80325},
+													pos:   position{line: 2511, col: 5, offset: 80539},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2506, col: 9, offset: 80343},
+														pos: position{line: 2512, col: 9, offset: 80557},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2506, col: 10, offset: 80344},
+															pos:        position{line: 2512, col: 10, offset: 80558},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -11007,10 +11007,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2912, col: 10, offset: 91925},
+										pos: position{line: 2918, col: 10, offset: 92139},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2912, col: 10, offset: 91925},
+											pos:        position{line: 2918, col: 10, offset: 92139},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11018,35 +11018,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 639, col: 5, offset: 20305},
+										pos: position{line: 645, col: 5, offset: 20519},
 										run: (*parser).callonAttributeDeclarationValueElement32,
 										expr: &seqExpr{
-											pos: position{line: 639, col: 5, offset: 20305},
+											pos: position{line: 645, col: 5, offset: 20519},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 639, col: 5, offset: 20305},
+													pos: position{line: 645, col: 5, offset: 20519},
 													run: (*parser).callonAttributeDeclarationValueElement34,
 												},
 												&labeledExpr{
-													pos:   position{line: 642, col: 5, offset: 20377},
+													pos:   position{line: 648, col: 5, offset: 20591},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 642, col: 14, offset: 20386},
+														pos: position{line: 648, col: 14, offset: 20600},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 648, col: 5, offset: 20515},
+																pos: position{line: 654, col: 5, offset: 20729},
 																run: (*parser).callonAttributeDeclarationValueElement37,
 																expr: &seqExpr{
-																	pos: position{line: 648, col: 5, offset: 20515},
+																	pos: position{line: 654, col: 5, offset: 20729},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 648, col: 5, offset: 20515},
+																			pos:        position{line: 654, col: 5, offset: 20729},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 648, col: 13, offset: 20523},
+																			pos:   position{line: 654, col: 13, offset: 20737},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -11078,7 +11078,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 648, col: 32, offset: 20542},
+																			pos:        position{line: 654, col: 32, offset: 20756},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11087,19 +11087,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 655, col: 5, offset: 20783},
+																pos: position{line: 661, col: 5, offset: 20997},
 																run: (*parser).callonAttributeDeclarationValueElement47,
 																expr: &seqExpr{
-																	pos: position{line: 655, col: 5, offset: 20783},
+																	pos: position{line: 661, col: 5, offset: 20997},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 655, col: 5, offset: 20783},
+																			pos:        position{line: 661, col: 5, offset: 20997},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 655, col: 9, offset: 20787},
+																			pos:   position{line: 661, col: 9, offset: 21001},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -11131,7 +11131,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 655, col: 28, offset: 20806},
+																			pos:        position{line: 661, col: 28, offset: 21020},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11140,19 +11140,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 661, col: 25, offset: 20987},
+																pos: position{line: 667, col: 25, offset: 21201},
 																run: (*parser).callonAttributeDeclarationValueElement57,
 																expr: &seqExpr{
-																	pos: position{line: 661, col: 25, offset: 20987},
+																	pos: position{line: 667, col: 25, offset: 21201},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 661, col: 25, offset: 20987},
+																			pos:        position{line: 667, col: 25, offset: 21201},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 661, col: 37, offset: 20999},
+																			pos:   position{line: 667, col: 37, offset: 21213},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -11184,33 +11184,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 661, col: 56, offset: 21018},
+																			pos:   position{line: 667, col: 56, offset: 21232},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 661, col: 62, offset: 21024},
+																				pos: position{line: 667, col: 62, offset: 21238},
 																				expr: &actionExpr{
-																					pos: position{line: 669, col: 17, offset: 21321},
+																					pos: position{line: 675, col: 17, offset: 21535},
 																					run: (*parser).callonAttributeDeclarationValueElement68,
 																					expr: &seqExpr{
-																						pos: position{line: 669, col: 17, offset: 21321},
+																						pos: position{line: 675, col: 17, offset: 21535},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 669, col: 17, offset: 21321},
+																								pos:        position{line: 675, col: 17, offset: 21535},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 669, col: 21, offset: 21325},
+																								pos:   position{line: 675, col: 21, offset: 21539},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 669, col: 28, offset: 21332},
+																									pos: position{line: 675, col: 28, offset: 21546},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 669, col: 28, offset: 21332},
+																											pos: position{line: 675, col: 28, offset: 21546},
 																											run: (*parser).callonAttributeDeclarationValueElement73,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 669, col: 28, offset: 21332},
+																												pos:        position{line: 675, col: 28, offset: 21546},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11218,12 +11218,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 671, col: 9, offset: 21386},
+																											pos: position{line: 677, col: 9, offset: 21600},
 																											run: (*parser).callonAttributeDeclarationValueElement75,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 671, col: 9, offset: 21386},
+																												pos: position{line: 677, col: 9, offset: 21600},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 671, col: 9, offset: 21386},
+																													pos:        position{line: 677, col: 9, offset: 21600},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11240,7 +11240,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 661, col: 78, offset: 21040},
+																			pos:        position{line: 667, col: 78, offset: 21254},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11249,19 +11249,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 665, col: 25, offset: 21158},
+																pos: position{line: 671, col: 25, offset: 21372},
 																run: (*parser).callonAttributeDeclarationValueElement79,
 																expr: &seqExpr{
-																	pos: position{line: 665, col: 25, offset: 21158},
+																	pos: position{line: 671, col: 25, offset: 21372},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 665, col: 25, offset: 21158},
+																			pos:        position{line: 671, col: 25, offset: 21372},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 665, col: 38, offset: 21171},
+																			pos:   position{line: 671, col: 38, offset: 21385},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -11293,33 +11293,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 665, col: 57, offset: 21190},
+																			pos:   position{line: 671, col: 57, offset: 21404},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 665, col: 63, offset: 21196},
+																				pos: position{line: 671, col: 63, offset: 21410},
 																				expr: &actionExpr{
-																					pos: position{line: 669, col: 17, offset: 21321},
+																					pos: position{line: 675, col: 17, offset: 21535},
 																					run: (*parser).callonAttributeDeclarationValueElement90,
 																					expr: &seqExpr{
-																						pos: position{line: 669, col: 17, offset: 21321},
+																						pos: position{line: 675, col: 17, offset: 21535},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 669, col: 17, offset: 21321},
+																								pos:        position{line: 675, col: 17, offset: 21535},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 669, col: 21, offset: 21325},
+																								pos:   position{line: 675, col: 21, offset: 21539},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 669, col: 28, offset: 21332},
+																									pos: position{line: 675, col: 28, offset: 21546},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 669, col: 28, offset: 21332},
+																											pos: position{line: 675, col: 28, offset: 21546},
 																											run: (*parser).callonAttributeDeclarationValueElement95,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 669, col: 28, offset: 21332},
+																												pos:        position{line: 675, col: 28, offset: 21546},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11327,12 +11327,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 671, col: 9, offset: 21386},
+																											pos: position{line: 677, col: 9, offset: 21600},
 																											run: (*parser).callonAttributeDeclarationValueElement97,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 671, col: 9, offset: 21386},
+																												pos: position{line: 677, col: 9, offset: 21600},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 671, col: 9, offset: 21386},
+																													pos:        position{line: 677, col: 9, offset: 21600},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11349,7 +11349,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 665, col: 79, offset: 21212},
+																			pos:        position{line: 671, col: 79, offset: 21426},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11434,27 +11434,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1201, col: 23, offset: 37170},
+																						pos: position{line: 1207, col: 23, offset: 37384},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1201, col: 23, offset: 37170},
+																							pos: position{line: 1207, col: 23, offset: 37384},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1199, col: 32, offset: 37138},
+																									pos:        position{line: 1205, col: 32, offset: 37352},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1201, col: 51, offset: 37198},
+																									pos:   position{line: 1207, col: 51, offset: 37412},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1201, col: 56, offset: 37203},
+																										pos: position{line: 1207, col: 56, offset: 37417},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1201, col: 56, offset: 37203},
+																											pos: position{line: 1207, col: 56, offset: 37417},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1201, col: 56, offset: 37203},
+																												pos:        position{line: 1207, col: 56, offset: 37417},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11464,7 +11464,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1199, col: 32, offset: 37138},
+																									pos:        position{line: 1205, col: 32, offset: 37352},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
@@ -11473,35 +11473,35 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 639, col: 5, offset: 20305},
+																						pos: position{line: 645, col: 5, offset: 20519},
 																						run: (*parser).callonBlockAttributes27,
 																						expr: &seqExpr{
-																							pos: position{line: 639, col: 5, offset: 20305},
+																							pos: position{line: 645, col: 5, offset: 20519},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 639, col: 5, offset: 20305},
+																									pos: position{line: 645, col: 5, offset: 20519},
 																									run: (*parser).callonBlockAttributes29,
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 642, col: 5, offset: 20377},
+																									pos:   position{line: 648, col: 5, offset: 20591},
 																									label: "element",
 																									expr: &choiceExpr{
-																										pos: position{line: 642, col: 14, offset: 20386},
+																										pos: position{line: 648, col: 14, offset: 20600},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 648, col: 5, offset: 20515},
+																												pos: position{line: 654, col: 5, offset: 20729},
 																												run: (*parser).callonBlockAttributes32,
 																												expr: &seqExpr{
-																													pos: position{line: 648, col: 5, offset: 20515},
+																													pos: position{line: 654, col: 5, offset: 20729},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 648, col: 5, offset: 20515},
+																															pos:        position{line: 654, col: 5, offset: 20729},
 																															val:        "\\{",
 																															ignoreCase: false,
 																															want:       "\"\\\\{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 648, col: 13, offset: 20523},
+																															pos:   position{line: 654, col: 13, offset: 20737},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 320, col: 18, offset: 9837},
@@ -11533,7 +11533,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 648, col: 32, offset: 20542},
+																															pos:        position{line: 654, col: 32, offset: 20756},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11542,19 +11542,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 655, col: 5, offset: 20783},
+																												pos: position{line: 661, col: 5, offset: 20997},
 																												run: (*parser).callonBlockAttributes42,
 																												expr: &seqExpr{
-																													pos: position{line: 655, col: 5, offset: 20783},
+																													pos: position{line: 661, col: 5, offset: 20997},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 655, col: 5, offset: 20783},
+																															pos:        position{line: 661, col: 5, offset: 20997},
 																															val:        "{",
 																															ignoreCase: false,
 																															want:       "\"{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 655, col: 9, offset: 20787},
+																															pos:   position{line: 661, col: 9, offset: 21001},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 320, col: 18, offset: 9837},
@@ -11586,7 +11586,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 655, col: 28, offset: 20806},
+																															pos:        position{line: 661, col: 28, offset: 21020},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11595,19 +11595,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 661, col: 25, offset: 20987},
+																												pos: position{line: 667, col: 25, offset: 21201},
 																												run: (*parser).callonBlockAttributes52,
 																												expr: &seqExpr{
-																													pos: position{line: 661, col: 25, offset: 20987},
+																													pos: position{line: 667, col: 25, offset: 21201},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 661, col: 25, offset: 20987},
+																															pos:        position{line: 667, col: 25, offset: 21201},
 																															val:        "{counter:",
 																															ignoreCase: false,
 																															want:       "\"{counter:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 661, col: 37, offset: 20999},
+																															pos:   position{line: 667, col: 37, offset: 21213},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 320, col: 18, offset: 9837},
@@ -11639,33 +11639,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 661, col: 56, offset: 21018},
+																															pos:   position{line: 667, col: 56, offset: 21232},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 661, col: 62, offset: 21024},
+																																pos: position{line: 667, col: 62, offset: 21238},
 																																expr: &actionExpr{
-																																	pos: position{line: 669, col: 17, offset: 21321},
+																																	pos: position{line: 675, col: 17, offset: 21535},
 																																	run: (*parser).callonBlockAttributes63,
 																																	expr: &seqExpr{
-																																		pos: position{line: 669, col: 17, offset: 21321},
+																																		pos: position{line: 675, col: 17, offset: 21535},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 669, col: 17, offset: 21321},
+																																				pos:        position{line: 675, col: 17, offset: 21535},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 669, col: 21, offset: 21325},
+																																				pos:   position{line: 675, col: 21, offset: 21539},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 669, col: 28, offset: 21332},
+																																					pos: position{line: 675, col: 28, offset: 21546},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 669, col: 28, offset: 21332},
+																																							pos: position{line: 675, col: 28, offset: 21546},
 																																							run: (*parser).callonBlockAttributes68,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 669, col: 28, offset: 21332},
+																																								pos:        position{line: 675, col: 28, offset: 21546},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11673,12 +11673,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 671, col: 9, offset: 21386},
+																																							pos: position{line: 677, col: 9, offset: 21600},
 																																							run: (*parser).callonBlockAttributes70,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 671, col: 9, offset: 21386},
+																																								pos: position{line: 677, col: 9, offset: 21600},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 671, col: 9, offset: 21386},
+																																									pos:        position{line: 677, col: 9, offset: 21600},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11695,7 +11695,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 661, col: 78, offset: 21040},
+																															pos:        position{line: 667, col: 78, offset: 21254},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11704,19 +11704,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 665, col: 25, offset: 21158},
+																												pos: position{line: 671, col: 25, offset: 21372},
 																												run: (*parser).callonBlockAttributes74,
 																												expr: &seqExpr{
-																													pos: position{line: 665, col: 25, offset: 21158},
+																													pos: position{line: 671, col: 25, offset: 21372},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 665, col: 25, offset: 21158},
+																															pos:        position{line: 671, col: 25, offset: 21372},
 																															val:        "{counter2:",
 																															ignoreCase: false,
 																															want:       "\"{counter2:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 665, col: 38, offset: 21171},
+																															pos:   position{line: 671, col: 38, offset: 21385},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 320, col: 18, offset: 9837},
@@ -11748,33 +11748,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 665, col: 57, offset: 21190},
+																															pos:   position{line: 671, col: 57, offset: 21404},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 665, col: 63, offset: 21196},
+																																pos: position{line: 671, col: 63, offset: 21410},
 																																expr: &actionExpr{
-																																	pos: position{line: 669, col: 17, offset: 21321},
+																																	pos: position{line: 675, col: 17, offset: 21535},
 																																	run: (*parser).callonBlockAttributes85,
 																																	expr: &seqExpr{
-																																		pos: position{line: 669, col: 17, offset: 21321},
+																																		pos: position{line: 675, col: 17, offset: 21535},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 669, col: 17, offset: 21321},
+																																				pos:        position{line: 675, col: 17, offset: 21535},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 669, col: 21, offset: 21325},
+																																				pos:   position{line: 675, col: 21, offset: 21539},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 669, col: 28, offset: 21332},
+																																					pos: position{line: 675, col: 28, offset: 21546},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 669, col: 28, offset: 21332},
+																																							pos: position{line: 675, col: 28, offset: 21546},
 																																							run: (*parser).callonBlockAttributes90,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 669, col: 28, offset: 21332},
+																																								pos:        position{line: 675, col: 28, offset: 21546},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11782,12 +11782,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 671, col: 9, offset: 21386},
+																																							pos: position{line: 677, col: 9, offset: 21600},
 																																							run: (*parser).callonBlockAttributes92,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 671, col: 9, offset: 21386},
+																																								pos: position{line: 677, col: 9, offset: 21600},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 671, col: 9, offset: 21386},
+																																									pos:        position{line: 677, col: 9, offset: 21600},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11804,7 +11804,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 665, col: 79, offset: 21212},
+																															pos:        position{line: 671, col: 79, offset: 21426},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11847,10 +11847,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 374, col: 35, offset: 11588},
 												expr: &actionExpr{
-													pos: position{line: 2912, col: 10, offset: 91925},
+													pos: position{line: 2918, col: 10, offset: 92139},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2912, col: 10, offset: 91925},
+														pos:        position{line: 2918, col: 10, offset: 92139},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11859,28 +11859,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2934, col: 8, offset: 92323},
+												pos: position{line: 2940, col: 8, offset: 92537},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2921, col: 12, offset: 92096},
+														pos: position{line: 2927, col: 12, offset: 92310},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2921, col: 13, offset: 92097},
+															pos: position{line: 2927, col: 13, offset: 92311},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2921, col: 13, offset: 92097},
+																	pos:        position{line: 2927, col: 13, offset: 92311},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2921, col: 20, offset: 92104},
+																	pos:        position{line: 2927, col: 20, offset: 92318},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2921, col: 29, offset: 92113},
+																	pos:        position{line: 2927, col: 29, offset: 92327},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11889,9 +11889,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2931, col: 8, offset: 92273},
+														pos: position{line: 2937, col: 8, offset: 92487},
 														expr: &anyMatcher{
-															line: 2931, col: 9, offset: 92274,
+															line: 2937, col: 9, offset: 92488,
 														},
 													},
 												},
@@ -11902,24 +11902,24 @@ var g = &grammar{
 													pos: position{line: 374, col: 47, offset: 11600},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 680, col: 14, offset: 21687},
+															pos: position{line: 686, col: 14, offset: 21901},
 															run: (*parser).callonBlockAttributes112,
 															expr: &seqExpr{
-																pos: position{line: 680, col: 14, offset: 21687},
+																pos: position{line: 686, col: 14, offset: 21901},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2929, col: 11, offset: 92259},
+																		pos: position{line: 2935, col: 11, offset: 92473},
 																		expr: &anyMatcher{
-																			line: 2929, col: 13, offset: 92261,
+																			line: 2935, col: 13, offset: 92475,
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 680, col: 21, offset: 21694},
+																		pos: position{line: 686, col: 21, offset: 21908},
 																		expr: &actionExpr{
-																			pos: position{line: 2912, col: 10, offset: 91925},
+																			pos: position{line: 2918, col: 10, offset: 92139},
 																			run: (*parser).callonBlockAttributes117,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2912, col: 10, offset: 91925},
+																				pos:        position{line: 2918, col: 10, offset: 92139},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -11928,28 +11928,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2934, col: 8, offset: 92323},
+																		pos: position{line: 2940, col: 8, offset: 92537},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonBlockAttributes120,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -11958,9 +11958,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2931, col: 8, offset: 92273},
+																				pos: position{line: 2937, col: 8, offset: 92487},
 																				expr: &anyMatcher{
-																					line: 2931, col: 9, offset: 92274,
+																					line: 2937, col: 9, offset: 92488,
 																				},
 																			},
 																		},
@@ -11969,36 +11969,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2515, col: 22, offset: 80703},
+															pos: position{line: 2521, col: 22, offset: 80917},
 															run: (*parser).callonBlockAttributes127,
 															expr: &seqExpr{
-																pos: position{line: 2515, col: 22, offset: 80703},
+																pos: position{line: 2521, col: 22, offset: 80917},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2520, col: 31, offset: 80953},
+																		pos:        position{line: 2526, col: 31, offset: 81167},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2520, col: 36, offset: 80958},
+																		pos: position{line: 2526, col: 36, offset: 81172},
 																		expr: &litMatcher{
-																			pos:        position{line: 2520, col: 37, offset: 80959},
+																			pos:        position{line: 2526, col: 37, offset: 81173},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2515, col: 49, offset: 80730},
+																		pos:   position{line: 2521, col: 49, offset: 80944},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2858, col: 13, offset: 90451},
+																			pos: position{line: 2864, col: 13, offset: 90665},
 																			run: (*parser).callonBlockAttributes133,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2858, col: 13, offset: 90451},
+																				pos: position{line: 2864, col: 13, offset: 90665},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2858, col: 13, offset: 90451},
+																					pos:        position{line: 2864, col: 13, offset: 90665},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12008,28 +12008,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2934, col: 8, offset: 92323},
+																		pos: position{line: 2940, col: 8, offset: 92537},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12038,9 +12038,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2931, col: 8, offset: 92273},
+																				pos: position{line: 2937, col: 8, offset: 92487},
 																				expr: &anyMatcher{
-																					line: 2931, col: 9, offset: 92274,
+																					line: 2937, col: 9, offset: 92488,
 																				},
 																			},
 																		},
@@ -12094,12 +12094,12 @@ var g = &grammar{
 																		pos: position{line: 428, col: 9, offset: 13232},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2806, col: 14, offset: 89094},
+																				pos: position{line: 2812, col: 14, offset: 89308},
 																				run: (*parser).callonBlockAttributes155,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2806, col: 14, offset: 89094},
+																					pos: position{line: 2812, col: 14, offset: 89308},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2806, col: 14, offset: 89094},
+																						pos:        position{line: 2812, col: 14, offset: 89308},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12108,10 +12108,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2912, col: 10, offset: 91925},
+																				pos: position{line: 2918, col: 10, offset: 92139},
 																				run: (*parser).callonBlockAttributes158,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2912, col: 10, offset: 91925},
+																					pos:        position{line: 2918, col: 10, offset: 92139},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12119,27 +12119,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2829, col: 5, offset: 89579},
+																				pos: position{line: 2835, col: 5, offset: 89793},
 																				run: (*parser).callonBlockAttributes160,
 																				expr: &choiceExpr{
-																					pos: position{line: 2830, col: 9, offset: 89589},
+																					pos: position{line: 2836, col: 9, offset: 89803},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2830, col: 10, offset: 89590},
+																							pos:        position{line: 2836, col: 10, offset: 89804},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2832, col: 13, offset: 89687},
+																							pos: position{line: 2838, col: 13, offset: 89901},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2832, col: 13, offset: 89687},
+																									pos: position{line: 2838, col: 13, offset: 89901},
 																									run: (*parser).callonBlockAttributes164,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2835, col: 13, offset: 89787},
+																									pos:        position{line: 2841, col: 13, offset: 90001},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12147,20 +12147,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2835, col: 19, offset: 89793},
+																							pos:        position{line: 2841, col: 19, offset: 90007},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2838, col: 13, offset: 89831},
+																							pos: position{line: 2844, col: 13, offset: 90045},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2838, col: 13, offset: 89831},
+																									pos: position{line: 2844, col: 13, offset: 90045},
 																									run: (*parser).callonBlockAttributes168,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2841, col: 14, offset: 89924},
+																									pos:        position{line: 2847, col: 14, offset: 90138},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12169,18 +12169,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2843, col: 12, offset: 89968},
+																							pos: position{line: 2849, col: 12, offset: 90182},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2843, col: 12, offset: 89968},
+																									pos:        position{line: 2849, col: 12, offset: 90182},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2843, col: 16, offset: 89972},
+																									pos: position{line: 2849, col: 16, offset: 90186},
 																									expr: &litMatcher{
-																										pos:        position{line: 2843, col: 17, offset: 89973},
+																										pos:        position{line: 2849, col: 17, offset: 90187},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12192,19 +12192,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 648, col: 5, offset: 20515},
+																				pos: position{line: 654, col: 5, offset: 20729},
 																				run: (*parser).callonBlockAttributes174,
 																				expr: &seqExpr{
-																					pos: position{line: 648, col: 5, offset: 20515},
+																					pos: position{line: 654, col: 5, offset: 20729},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 648, col: 5, offset: 20515},
+																							pos:        position{line: 654, col: 5, offset: 20729},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 648, col: 13, offset: 20523},
+																							pos:   position{line: 654, col: 13, offset: 20737},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -12236,7 +12236,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 648, col: 32, offset: 20542},
+																							pos:        position{line: 654, col: 32, offset: 20756},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12245,19 +12245,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 655, col: 5, offset: 20783},
+																				pos: position{line: 661, col: 5, offset: 20997},
 																				run: (*parser).callonBlockAttributes184,
 																				expr: &seqExpr{
-																					pos: position{line: 655, col: 5, offset: 20783},
+																					pos: position{line: 661, col: 5, offset: 20997},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 655, col: 5, offset: 20783},
+																							pos:        position{line: 661, col: 5, offset: 20997},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 655, col: 9, offset: 20787},
+																							pos:   position{line: 661, col: 9, offset: 21001},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -12289,7 +12289,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 655, col: 28, offset: 20806},
+																							pos:        position{line: 661, col: 28, offset: 21020},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12298,19 +12298,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 661, col: 25, offset: 20987},
+																				pos: position{line: 667, col: 25, offset: 21201},
 																				run: (*parser).callonBlockAttributes194,
 																				expr: &seqExpr{
-																					pos: position{line: 661, col: 25, offset: 20987},
+																					pos: position{line: 667, col: 25, offset: 21201},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 661, col: 25, offset: 20987},
+																							pos:        position{line: 667, col: 25, offset: 21201},
 																							val:        "{counter:",
 																							ignoreCase: false,
 																							want:       "\"{counter:\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 661, col: 37, offset: 20999},
+																							pos:   position{line: 667, col: 37, offset: 21213},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -12342,33 +12342,33 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 661, col: 56, offset: 21018},
+																							pos:   position{line: 667, col: 56, offset: 21232},
 																							label: "start",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 661, col: 62, offset: 21024},
+																								pos: position{line: 667, col: 62, offset: 21238},
 																								expr: &actionExpr{
-																									pos: position{line: 669, col: 17, offset: 21321},
+																									pos: position{line: 675, col: 17, offset: 21535},
 																									run: (*parser).callonBlockAttributes205,
 																									expr: &seqExpr{
-																										pos: position{line: 669, col: 17, offset: 21321},
+																										pos: position{line: 675, col: 17, offset: 21535},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 669, col: 17, offset: 21321},
+																												pos:        position{line: 675, col: 17, offset: 21535},
 																												val:        ":",
 																												ignoreCase: false,
 																												want:       "\":\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 669, col: 21, offset: 21325},
+																												pos:   position{line: 675, col: 21, offset: 21539},
 																												label: "start",
 																												expr: &choiceExpr{
-																													pos: position{line: 669, col: 28, offset: 21332},
+																													pos: position{line: 675, col: 28, offset: 21546},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 669, col: 28, offset: 21332},
+																															pos: position{line: 675, col: 28, offset: 21546},
 																															run: (*parser).callonBlockAttributes210,
 																															expr: &charClassMatcher{
-																																pos:        position{line: 669, col: 28, offset: 21332},
+																																pos:        position{line: 675, col: 28, offset: 21546},
 																																val:        "[A-Za-z]",
 																																ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																ignoreCase: false,
@@ -12376,12 +12376,12 @@ var g = &grammar{
 																															},
 																														},
 																														&actionExpr{
-																															pos: position{line: 671, col: 9, offset: 21386},
+																															pos: position{line: 677, col: 9, offset: 21600},
 																															run: (*parser).callonBlockAttributes212,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 671, col: 9, offset: 21386},
+																																pos: position{line: 677, col: 9, offset: 21600},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 671, col: 9, offset: 21386},
+																																	pos:        position{line: 677, col: 9, offset: 21600},
 																																	val:        "[0-9]",
 																																	ranges:     []rune{'0', '9'},
 																																	ignoreCase: false,
@@ -12398,7 +12398,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 661, col: 78, offset: 21040},
+																							pos:        position{line: 667, col: 78, offset: 21254},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12407,19 +12407,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 665, col: 25, offset: 21158},
+																				pos: position{line: 671, col: 25, offset: 21372},
 																				run: (*parser).callonBlockAttributes216,
 																				expr: &seqExpr{
-																					pos: position{line: 665, col: 25, offset: 21158},
+																					pos: position{line: 671, col: 25, offset: 21372},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 665, col: 25, offset: 21158},
+																							pos:        position{line: 671, col: 25, offset: 21372},
 																							val:        "{counter2:",
 																							ignoreCase: false,
 																							want:       "\"{counter2:\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 665, col: 38, offset: 21171},
+																							pos:   position{line: 671, col: 38, offset: 21385},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -12451,33 +12451,33 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 665, col: 57, offset: 21190},
+																							pos:   position{line: 671, col: 57, offset: 21404},
 																							label: "start",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 665, col: 63, offset: 21196},
+																								pos: position{line: 671, col: 63, offset: 21410},
 																								expr: &actionExpr{
-																									pos: position{line: 669, col: 17, offset: 21321},
+																									pos: position{line: 675, col: 17, offset: 21535},
 																									run: (*parser).callonBlockAttributes227,
 																									expr: &seqExpr{
-																										pos: position{line: 669, col: 17, offset: 21321},
+																										pos: position{line: 675, col: 17, offset: 21535},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 669, col: 17, offset: 21321},
+																												pos:        position{line: 675, col: 17, offset: 21535},
 																												val:        ":",
 																												ignoreCase: false,
 																												want:       "\":\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 669, col: 21, offset: 21325},
+																												pos:   position{line: 675, col: 21, offset: 21539},
 																												label: "start",
 																												expr: &choiceExpr{
-																													pos: position{line: 669, col: 28, offset: 21332},
+																													pos: position{line: 675, col: 28, offset: 21546},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 669, col: 28, offset: 21332},
+																															pos: position{line: 675, col: 28, offset: 21546},
 																															run: (*parser).callonBlockAttributes232,
 																															expr: &charClassMatcher{
-																																pos:        position{line: 669, col: 28, offset: 21332},
+																																pos:        position{line: 675, col: 28, offset: 21546},
 																																val:        "[A-Za-z]",
 																																ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																ignoreCase: false,
@@ -12485,12 +12485,12 @@ var g = &grammar{
 																															},
 																														},
 																														&actionExpr{
-																															pos: position{line: 671, col: 9, offset: 21386},
+																															pos: position{line: 677, col: 9, offset: 21600},
 																															run: (*parser).callonBlockAttributes234,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 671, col: 9, offset: 21386},
+																																pos: position{line: 677, col: 9, offset: 21600},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 671, col: 9, offset: 21386},
+																																	pos:        position{line: 677, col: 9, offset: 21600},
 																																	val:        "[0-9]",
 																																	ranges:     []rune{'0', '9'},
 																																	ignoreCase: false,
@@ -12507,7 +12507,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 665, col: 79, offset: 21212},
+																							pos:        position{line: 671, col: 79, offset: 21426},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12516,10 +12516,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2851, col: 12, offset: 90233},
+																				pos: position{line: 2857, col: 12, offset: 90447},
 																				run: (*parser).callonBlockAttributes238,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2851, col: 12, offset: 90233},
+																					pos:        position{line: 2857, col: 12, offset: 90447},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12537,10 +12537,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 378, col: 35, offset: 11765},
 												expr: &actionExpr{
-													pos: position{line: 2912, col: 10, offset: 91925},
+													pos: position{line: 2918, col: 10, offset: 92139},
 													run: (*parser).callonBlockAttributes241,
 													expr: &charClassMatcher{
-														pos:        position{line: 2912, col: 10, offset: 91925},
+														pos:        position{line: 2918, col: 10, offset: 92139},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12549,28 +12549,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2934, col: 8, offset: 92323},
+												pos: position{line: 2940, col: 8, offset: 92537},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2921, col: 12, offset: 92096},
+														pos: position{line: 2927, col: 12, offset: 92310},
 														run: (*parser).callonBlockAttributes244,
 														expr: &choiceExpr{
-															pos: position{line: 2921, col: 13, offset: 92097},
+															pos: position{line: 2927, col: 13, offset: 92311},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2921, col: 13, offset: 92097},
+																	pos:        position{line: 2927, col: 13, offset: 92311},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2921, col: 20, offset: 92104},
+																	pos:        position{line: 2927, col: 20, offset: 92318},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2921, col: 29, offset: 92113},
+																	pos:        position{line: 2927, col: 29, offset: 92327},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12579,9 +12579,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2931, col: 8, offset: 92273},
+														pos: position{line: 2937, col: 8, offset: 92487},
 														expr: &anyMatcher{
-															line: 2931, col: 9, offset: 92274,
+															line: 2937, col: 9, offset: 92488,
 														},
 													},
 												},
@@ -12592,24 +12592,24 @@ var g = &grammar{
 													pos: position{line: 378, col: 47, offset: 11777},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 680, col: 14, offset: 21687},
+															pos: position{line: 686, col: 14, offset: 21901},
 															run: (*parser).callonBlockAttributes253,
 															expr: &seqExpr{
-																pos: position{line: 680, col: 14, offset: 21687},
+																pos: position{line: 686, col: 14, offset: 21901},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2929, col: 11, offset: 92259},
+																		pos: position{line: 2935, col: 11, offset: 92473},
 																		expr: &anyMatcher{
-																			line: 2929, col: 13, offset: 92261,
+																			line: 2935, col: 13, offset: 92475,
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 680, col: 21, offset: 21694},
+																		pos: position{line: 686, col: 21, offset: 21908},
 																		expr: &actionExpr{
-																			pos: position{line: 2912, col: 10, offset: 91925},
+																			pos: position{line: 2918, col: 10, offset: 92139},
 																			run: (*parser).callonBlockAttributes258,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2912, col: 10, offset: 91925},
+																				pos:        position{line: 2918, col: 10, offset: 92139},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12618,28 +12618,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2934, col: 8, offset: 92323},
+																		pos: position{line: 2940, col: 8, offset: 92537},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonBlockAttributes261,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12648,9 +12648,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2931, col: 8, offset: 92273},
+																				pos: position{line: 2937, col: 8, offset: 92487},
 																				expr: &anyMatcher{
-																					line: 2931, col: 9, offset: 92274,
+																					line: 2937, col: 9, offset: 92488,
 																				},
 																			},
 																		},
@@ -12659,36 +12659,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2515, col: 22, offset: 80703},
+															pos: position{line: 2521, col: 22, offset: 80917},
 															run: (*parser).callonBlockAttributes268,
 															expr: &seqExpr{
-																pos: position{line: 2515, col: 22, offset: 80703},
+																pos: position{line: 2521, col: 22, offset: 80917},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2520, col: 31, offset: 80953},
+																		pos:        position{line: 2526, col: 31, offset: 81167},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2520, col: 36, offset: 80958},
+																		pos: position{line: 2526, col: 36, offset: 81172},
 																		expr: &litMatcher{
-																			pos:        position{line: 2520, col: 37, offset: 80959},
+																			pos:        position{line: 2526, col: 37, offset: 81173},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2515, col: 49, offset: 80730},
+																		pos:   position{line: 2521, col: 49, offset: 80944},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2858, col: 13, offset: 90451},
+																			pos: position{line: 2864, col: 13, offset: 90665},
 																			run: (*parser).callonBlockAttributes274,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2858, col: 13, offset: 90451},
+																				pos: position{line: 2864, col: 13, offset: 90665},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2858, col: 13, offset: 90451},
+																					pos:        position{line: 2864, col: 13, offset: 90665},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12698,28 +12698,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2934, col: 8, offset: 92323},
+																		pos: position{line: 2940, col: 8, offset: 92537},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonBlockAttributes278,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12728,9 +12728,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2931, col: 8, offset: 92273},
+																				pos: position{line: 2937, col: 8, offset: 92487},
 																				expr: &anyMatcher{
-																					line: 2931, col: 9, offset: 92274,
+																					line: 2937, col: 9, offset: 92488,
 																				},
 																			},
 																		},
@@ -12761,10 +12761,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 382, col: 44, offset: 11921},
 												expr: &actionExpr{
-													pos: position{line: 2912, col: 10, offset: 91925},
+													pos: position{line: 2918, col: 10, offset: 92139},
 													run: (*parser).callonBlockAttributes290,
 													expr: &charClassMatcher{
-														pos:        position{line: 2912, col: 10, offset: 91925},
+														pos:        position{line: 2918, col: 10, offset: 92139},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12773,28 +12773,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2934, col: 8, offset: 92323},
+												pos: position{line: 2940, col: 8, offset: 92537},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2921, col: 12, offset: 92096},
+														pos: position{line: 2927, col: 12, offset: 92310},
 														run: (*parser).callonBlockAttributes293,
 														expr: &choiceExpr{
-															pos: position{line: 2921, col: 13, offset: 92097},
+															pos: position{line: 2927, col: 13, offset: 92311},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2921, col: 13, offset: 92097},
+																	pos:        position{line: 2927, col: 13, offset: 92311},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2921, col: 20, offset: 92104},
+																	pos:        position{line: 2927, col: 20, offset: 92318},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2921, col: 29, offset: 92113},
+																	pos:        position{line: 2927, col: 29, offset: 92327},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12803,9 +12803,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2931, col: 8, offset: 92273},
+														pos: position{line: 2937, col: 8, offset: 92487},
 														expr: &anyMatcher{
-															line: 2931, col: 9, offset: 92274,
+															line: 2937, col: 9, offset: 92488,
 														},
 													},
 												},
@@ -12816,24 +12816,24 @@ var g = &grammar{
 													pos: position{line: 382, col: 56, offset: 11933},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 680, col: 14, offset: 21687},
+															pos: position{line: 686, col: 14, offset: 21901},
 															run: (*parser).callonBlockAttributes302,
 															expr: &seqExpr{
-																pos: position{line: 680, col: 14, offset: 21687},
+																pos: position{line: 686, col: 14, offset: 21901},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2929, col: 11, offset: 92259},
+																		pos: position{line: 2935, col: 11, offset: 92473},
 																		expr: &anyMatcher{
-																			line: 2929, col: 13, offset: 92261,
+																			line: 2935, col: 13, offset: 92475,
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 680, col: 21, offset: 21694},
+																		pos: position{line: 686, col: 21, offset: 21908},
 																		expr: &actionExpr{
-																			pos: position{line: 2912, col: 10, offset: 91925},
+																			pos: position{line: 2918, col: 10, offset: 92139},
 																			run: (*parser).callonBlockAttributes307,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2912, col: 10, offset: 91925},
+																				pos:        position{line: 2918, col: 10, offset: 92139},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12842,28 +12842,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2934, col: 8, offset: 92323},
+																		pos: position{line: 2940, col: 8, offset: 92537},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonBlockAttributes310,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12872,9 +12872,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2931, col: 8, offset: 92273},
+																				pos: position{line: 2937, col: 8, offset: 92487},
 																				expr: &anyMatcher{
-																					line: 2931, col: 9, offset: 92274,
+																					line: 2937, col: 9, offset: 92488,
 																				},
 																			},
 																		},
@@ -12883,36 +12883,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2515, col: 22, offset: 80703},
+															pos: position{line: 2521, col: 22, offset: 80917},
 															run: (*parser).callonBlockAttributes317,
 															expr: &seqExpr{
-																pos: position{line: 2515, col: 22, offset: 80703},
+																pos: position{line: 2521, col: 22, offset: 80917},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2520, col: 31, offset: 80953},
+																		pos:        position{line: 2526, col: 31, offset: 81167},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2520, col: 36, offset: 80958},
+																		pos: position{line: 2526, col: 36, offset: 81172},
 																		expr: &litMatcher{
-																			pos:        position{line: 2520, col: 37, offset: 80959},
+																			pos:        position{line: 2526, col: 37, offset: 81173},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2515, col: 49, offset: 80730},
+																		pos:   position{line: 2521, col: 49, offset: 80944},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2858, col: 13, offset: 90451},
+																			pos: position{line: 2864, col: 13, offset: 90665},
 																			run: (*parser).callonBlockAttributes323,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2858, col: 13, offset: 90451},
+																				pos: position{line: 2864, col: 13, offset: 90665},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2858, col: 13, offset: 90451},
+																					pos:        position{line: 2864, col: 13, offset: 90665},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12922,28 +12922,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2934, col: 8, offset: 92323},
+																		pos: position{line: 2940, col: 8, offset: 92537},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonBlockAttributes327,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12952,9 +12952,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2931, col: 8, offset: 92273},
+																				pos: position{line: 2937, col: 8, offset: 92487},
 																				expr: &anyMatcher{
-																					line: 2931, col: 9, offset: 92274,
+																					line: 2937, col: 9, offset: 92488,
 																				},
 																			},
 																		},
@@ -13204,10 +13204,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 469, col: 13, offset: 14727},
 										expr: &actionExpr{
-											pos: position{line: 2912, col: 10, offset: 91925},
+											pos: position{line: 2918, col: 10, offset: 92139},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2912, col: 10, offset: 91925},
+												pos:        position{line: 2918, col: 10, offset: 92139},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13370,35 +13370,35 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 639, col: 5, offset: 20305},
+													pos: position{line: 645, col: 5, offset: 20519},
 													run: (*parser).callonShortHandAttributeValue13,
 													expr: &seqExpr{
-														pos: position{line: 639, col: 5, offset: 20305},
+														pos: position{line: 645, col: 5, offset: 20519},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 639, col: 5, offset: 20305},
+																pos: position{line: 645, col: 5, offset: 20519},
 																run: (*parser).callonShortHandAttributeValue15,
 															},
 															&labeledExpr{
-																pos:   position{line: 642, col: 5, offset: 20377},
+																pos:   position{line: 648, col: 5, offset: 20591},
 																label: "element",
 																expr: &choiceExpr{
-																	pos: position{line: 642, col: 14, offset: 20386},
+																	pos: position{line: 648, col: 14, offset: 20600},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 648, col: 5, offset: 20515},
+																			pos: position{line: 654, col: 5, offset: 20729},
 																			run: (*parser).callonShortHandAttributeValue18,
 																			expr: &seqExpr{
-																				pos: position{line: 648, col: 5, offset: 20515},
+																				pos: position{line: 654, col: 5, offset: 20729},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 648, col: 5, offset: 20515},
+																						pos:        position{line: 654, col: 5, offset: 20729},
 																						val:        "\\{",
 																						ignoreCase: false,
 																						want:       "\"\\\\{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 648, col: 13, offset: 20523},
+																						pos:   position{line: 654, col: 13, offset: 20737},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 320, col: 18, offset: 9837},
@@ -13430,7 +13430,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 648, col: 32, offset: 20542},
+																						pos:        position{line: 654, col: 32, offset: 20756},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13439,19 +13439,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 655, col: 5, offset: 20783},
+																			pos: position{line: 661, col: 5, offset: 20997},
 																			run: (*parser).callonShortHandAttributeValue28,
 																			expr: &seqExpr{
-																				pos: position{line: 655, col: 5, offset: 20783},
+																				pos: position{line: 661, col: 5, offset: 20997},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 655, col: 5, offset: 20783},
+																						pos:        position{line: 661, col: 5, offset: 20997},
 																						val:        "{",
 																						ignoreCase: false,
 																						want:       "\"{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 655, col: 9, offset: 20787},
+																						pos:   position{line: 661, col: 9, offset: 21001},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 320, col: 18, offset: 9837},
@@ -13483,7 +13483,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 655, col: 28, offset: 20806},
+																						pos:        position{line: 661, col: 28, offset: 21020},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13492,19 +13492,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 661, col: 25, offset: 20987},
+																			pos: position{line: 667, col: 25, offset: 21201},
 																			run: (*parser).callonShortHandAttributeValue38,
 																			expr: &seqExpr{
-																				pos: position{line: 661, col: 25, offset: 20987},
+																				pos: position{line: 667, col: 25, offset: 21201},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 661, col: 25, offset: 20987},
+																						pos:        position{line: 667, col: 25, offset: 21201},
 																						val:        "{counter:",
 																						ignoreCase: false,
 																						want:       "\"{counter:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 661, col: 37, offset: 20999},
+																						pos:   position{line: 667, col: 37, offset: 21213},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 320, col: 18, offset: 9837},
@@ -13536,33 +13536,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 661, col: 56, offset: 21018},
+																						pos:   position{line: 667, col: 56, offset: 21232},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 661, col: 62, offset: 21024},
+																							pos: position{line: 667, col: 62, offset: 21238},
 																							expr: &actionExpr{
-																								pos: position{line: 669, col: 17, offset: 21321},
+																								pos: position{line: 675, col: 17, offset: 21535},
 																								run: (*parser).callonShortHandAttributeValue49,
 																								expr: &seqExpr{
-																									pos: position{line: 669, col: 17, offset: 21321},
+																									pos: position{line: 675, col: 17, offset: 21535},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 669, col: 17, offset: 21321},
+																											pos:        position{line: 675, col: 17, offset: 21535},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 669, col: 21, offset: 21325},
+																											pos:   position{line: 675, col: 21, offset: 21539},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 669, col: 28, offset: 21332},
+																												pos: position{line: 675, col: 28, offset: 21546},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 669, col: 28, offset: 21332},
+																														pos: position{line: 675, col: 28, offset: 21546},
 																														run: (*parser).callonShortHandAttributeValue54,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 669, col: 28, offset: 21332},
+																															pos:        position{line: 675, col: 28, offset: 21546},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13570,12 +13570,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 671, col: 9, offset: 21386},
+																														pos: position{line: 677, col: 9, offset: 21600},
 																														run: (*parser).callonShortHandAttributeValue56,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 671, col: 9, offset: 21386},
+																															pos: position{line: 677, col: 9, offset: 21600},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 671, col: 9, offset: 21386},
+																																pos:        position{line: 677, col: 9, offset: 21600},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13592,7 +13592,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 661, col: 78, offset: 21040},
+																						pos:        position{line: 667, col: 78, offset: 21254},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13601,19 +13601,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 665, col: 25, offset: 21158},
+																			pos: position{line: 671, col: 25, offset: 21372},
 																			run: (*parser).callonShortHandAttributeValue60,
 																			expr: &seqExpr{
-																				pos: position{line: 665, col: 25, offset: 21158},
+																				pos: position{line: 671, col: 25, offset: 21372},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 665, col: 25, offset: 21158},
+																						pos:        position{line: 671, col: 25, offset: 21372},
 																						val:        "{counter2:",
 																						ignoreCase: false,
 																						want:       "\"{counter2:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 665, col: 38, offset: 21171},
+																						pos:   position{line: 671, col: 38, offset: 21385},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 320, col: 18, offset: 9837},
@@ -13645,33 +13645,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 665, col: 57, offset: 21190},
+																						pos:   position{line: 671, col: 57, offset: 21404},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 665, col: 63, offset: 21196},
+																							pos: position{line: 671, col: 63, offset: 21410},
 																							expr: &actionExpr{
-																								pos: position{line: 669, col: 17, offset: 21321},
+																								pos: position{line: 675, col: 17, offset: 21535},
 																								run: (*parser).callonShortHandAttributeValue71,
 																								expr: &seqExpr{
-																									pos: position{line: 669, col: 17, offset: 21321},
+																									pos: position{line: 675, col: 17, offset: 21535},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 669, col: 17, offset: 21321},
+																											pos:        position{line: 675, col: 17, offset: 21535},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 669, col: 21, offset: 21325},
+																											pos:   position{line: 675, col: 21, offset: 21539},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 669, col: 28, offset: 21332},
+																												pos: position{line: 675, col: 28, offset: 21546},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 669, col: 28, offset: 21332},
+																														pos: position{line: 675, col: 28, offset: 21546},
 																														run: (*parser).callonShortHandAttributeValue76,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 669, col: 28, offset: 21332},
+																															pos:        position{line: 675, col: 28, offset: 21546},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13679,12 +13679,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 671, col: 9, offset: 21386},
+																														pos: position{line: 677, col: 9, offset: 21600},
 																														run: (*parser).callonShortHandAttributeValue78,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 671, col: 9, offset: 21386},
+																															pos: position{line: 677, col: 9, offset: 21600},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 671, col: 9, offset: 21386},
+																																pos:        position{line: 677, col: 9, offset: 21600},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13701,7 +13701,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 665, col: 79, offset: 21212},
+																						pos:        position{line: 671, col: 79, offset: 21426},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13739,10 +13739,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 521, col: 9, offset: 16309},
 													expr: &actionExpr{
-														pos: position{line: 2912, col: 10, offset: 91925},
+														pos: position{line: 2918, col: 10, offset: 92139},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2912, col: 10, offset: 91925},
+															pos:        position{line: 2918, col: 10, offset: 92139},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13803,10 +13803,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 527, col: 34, offset: 16452},
 														expr: &actionExpr{
-															pos: position{line: 2912, col: 10, offset: 91925},
+															pos: position{line: 2918, col: 10, offset: 92139},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2912, col: 10, offset: 91925},
+																pos:        position{line: 2918, col: 10, offset: 92139},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13846,10 +13846,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 532, col: 13, offset: 16616},
 												expr: &actionExpr{
-													pos: position{line: 2912, col: 10, offset: 91925},
+													pos: position{line: 2918, col: 10, offset: 92139},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2912, col: 10, offset: 91925},
+														pos:        position{line: 2918, col: 10, offset: 92139},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13872,10 +13872,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 532, col: 26, offset: 16629},
 																expr: &actionExpr{
-																	pos: position{line: 2912, col: 10, offset: 91925},
+																	pos: position{line: 2918, col: 10, offset: 92139},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2912, col: 10, offset: 91925},
+																		pos:        position{line: 2918, col: 10, offset: 92139},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13930,10 +13930,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 552, col: 22, offset: 17276},
 											expr: &actionExpr{
-												pos: position{line: 2912, col: 10, offset: 91925},
+												pos: position{line: 2918, col: 10, offset: 92139},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2912, col: 10, offset: 91925},
+													pos:        position{line: 2918, col: 10, offset: 92139},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13964,10 +13964,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 545, col: 9, offset: 17021},
 							expr: &actionExpr{
-								pos: position{line: 2912, col: 10, offset: 91925},
+								pos: position{line: 2918, col: 10, offset: 92139},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2912, col: 10, offset: 91925},
+									pos:        position{line: 2918, col: 10, offset: 92139},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13997,10 +13997,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 546, col: 33, offset: 17061},
 										expr: &actionExpr{
-											pos: position{line: 2912, col: 10, offset: 91925},
+											pos: position{line: 2918, col: 10, offset: 92139},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2912, col: 10, offset: 91925},
+												pos:        position{line: 2918, col: 10, offset: 92139},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14055,10 +14055,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 562, col: 9, offset: 17493},
 											expr: &actionExpr{
-												pos: position{line: 2912, col: 10, offset: 91925},
+												pos: position{line: 2918, col: 10, offset: 92139},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2912, col: 10, offset: 91925},
+													pos:        position{line: 2918, col: 10, offset: 92139},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14131,18 +14131,18 @@ var g = &grammar{
 				expr: &labeledExpr{
 					pos:   position{line: 574, col: 5, offset: 17791},
 					label: "elements",
-					expr: &oneOrMoreExpr{
+					expr: &zeroOrMoreExpr{
 						pos: position{line: 574, col: 14, offset: 17800},
 						expr: &choiceExpr{
 							pos: position{line: 575, col: 9, offset: 17810},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2806, col: 14, offset: 89094},
+									pos: position{line: 2812, col: 14, offset: 89308},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2806, col: 14, offset: 89094},
+										pos: position{line: 2812, col: 14, offset: 89308},
 										expr: &charClassMatcher{
-											pos:        position{line: 2806, col: 14, offset: 89094},
+											pos:        position{line: 2812, col: 14, offset: 89308},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14151,10 +14151,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2912, col: 10, offset: 91925},
+									pos: position{line: 2918, col: 10, offset: 92139},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2912, col: 10, offset: 91925},
+										pos:        position{line: 2918, col: 10, offset: 92139},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14166,35 +14166,35 @@ var g = &grammar{
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 639, col: 5, offset: 20305},
+									pos: position{line: 645, col: 5, offset: 20519},
 									run: (*parser).callonSingleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 639, col: 5, offset: 20305},
+										pos: position{line: 645, col: 5, offset: 20519},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 639, col: 5, offset: 20305},
+												pos: position{line: 645, col: 5, offset: 20519},
 												run: (*parser).callonSingleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 642, col: 5, offset: 20377},
+												pos:   position{line: 648, col: 5, offset: 20591},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 642, col: 14, offset: 20386},
+													pos: position{line: 648, col: 14, offset: 20600},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 648, col: 5, offset: 20515},
+															pos: position{line: 654, col: 5, offset: 20729},
 															run: (*parser).callonSingleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 648, col: 5, offset: 20515},
+																pos: position{line: 654, col: 5, offset: 20729},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 648, col: 5, offset: 20515},
+																		pos:        position{line: 654, col: 5, offset: 20729},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 648, col: 13, offset: 20523},
+																		pos:   position{line: 654, col: 13, offset: 20737},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14226,7 +14226,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 648, col: 32, offset: 20542},
+																		pos:        position{line: 654, col: 32, offset: 20756},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14235,19 +14235,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 655, col: 5, offset: 20783},
+															pos: position{line: 661, col: 5, offset: 20997},
 															run: (*parser).callonSingleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 655, col: 5, offset: 20783},
+																pos: position{line: 661, col: 5, offset: 20997},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 655, col: 5, offset: 20783},
+																		pos:        position{line: 661, col: 5, offset: 20997},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 655, col: 9, offset: 20787},
+																		pos:   position{line: 661, col: 9, offset: 21001},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14279,7 +14279,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 655, col: 28, offset: 20806},
+																		pos:        position{line: 661, col: 28, offset: 21020},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14288,19 +14288,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 661, col: 25, offset: 20987},
+															pos: position{line: 667, col: 25, offset: 21201},
 															run: (*parser).callonSingleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 661, col: 25, offset: 20987},
+																pos: position{line: 667, col: 25, offset: 21201},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 661, col: 25, offset: 20987},
+																		pos:        position{line: 667, col: 25, offset: 21201},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 661, col: 37, offset: 20999},
+																		pos:   position{line: 667, col: 37, offset: 21213},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14332,33 +14332,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 661, col: 56, offset: 21018},
+																		pos:   position{line: 667, col: 56, offset: 21232},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 661, col: 62, offset: 21024},
+																			pos: position{line: 667, col: 62, offset: 21238},
 																			expr: &actionExpr{
-																				pos: position{line: 669, col: 17, offset: 21321},
+																				pos: position{line: 675, col: 17, offset: 21535},
 																				run: (*parser).callonSingleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 669, col: 17, offset: 21321},
+																					pos: position{line: 675, col: 17, offset: 21535},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 669, col: 17, offset: 21321},
+																							pos:        position{line: 675, col: 17, offset: 21535},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 669, col: 21, offset: 21325},
+																							pos:   position{line: 675, col: 21, offset: 21539},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 669, col: 28, offset: 21332},
+																								pos: position{line: 675, col: 28, offset: 21546},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 669, col: 28, offset: 21332},
+																										pos: position{line: 675, col: 28, offset: 21546},
 																										run: (*parser).callonSingleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 669, col: 28, offset: 21332},
+																											pos:        position{line: 675, col: 28, offset: 21546},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14366,12 +14366,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 671, col: 9, offset: 21386},
+																										pos: position{line: 677, col: 9, offset: 21600},
 																										run: (*parser).callonSingleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 671, col: 9, offset: 21386},
+																											pos: position{line: 677, col: 9, offset: 21600},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 671, col: 9, offset: 21386},
+																												pos:        position{line: 677, col: 9, offset: 21600},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14388,7 +14388,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 661, col: 78, offset: 21040},
+																		pos:        position{line: 667, col: 78, offset: 21254},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14397,19 +14397,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 665, col: 25, offset: 21158},
+															pos: position{line: 671, col: 25, offset: 21372},
 															run: (*parser).callonSingleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 665, col: 25, offset: 21158},
+																pos: position{line: 671, col: 25, offset: 21372},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 665, col: 25, offset: 21158},
+																		pos:        position{line: 671, col: 25, offset: 21372},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 665, col: 38, offset: 21171},
+																		pos:   position{line: 671, col: 38, offset: 21385},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14441,33 +14441,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 665, col: 57, offset: 21190},
+																		pos:   position{line: 671, col: 57, offset: 21404},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 665, col: 63, offset: 21196},
+																			pos: position{line: 671, col: 63, offset: 21410},
 																			expr: &actionExpr{
-																				pos: position{line: 669, col: 17, offset: 21321},
+																				pos: position{line: 675, col: 17, offset: 21535},
 																				run: (*parser).callonSingleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 669, col: 17, offset: 21321},
+																					pos: position{line: 675, col: 17, offset: 21535},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 669, col: 17, offset: 21321},
+																							pos:        position{line: 675, col: 17, offset: 21535},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 669, col: 21, offset: 21325},
+																							pos:   position{line: 675, col: 21, offset: 21539},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 669, col: 28, offset: 21332},
+																								pos: position{line: 675, col: 28, offset: 21546},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 669, col: 28, offset: 21332},
+																										pos: position{line: 675, col: 28, offset: 21546},
 																										run: (*parser).callonSingleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 669, col: 28, offset: 21332},
+																											pos:        position{line: 675, col: 28, offset: 21546},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14475,12 +14475,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 671, col: 9, offset: 21386},
+																										pos: position{line: 677, col: 9, offset: 21600},
 																										run: (*parser).callonSingleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 671, col: 9, offset: 21386},
+																											pos: position{line: 677, col: 9, offset: 21600},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 671, col: 9, offset: 21386},
+																												pos:        position{line: 677, col: 9, offset: 21600},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14497,7 +14497,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 665, col: 79, offset: 21212},
+																		pos:        position{line: 671, col: 79, offset: 21426},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14565,56 +14565,56 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValue",
-			pos:  position{line: 592, col: 1, offset: 18373},
+			pos:  position{line: 595, col: 1, offset: 18480},
 			expr: &actionExpr{
-				pos: position{line: 593, col: 5, offset: 18408},
+				pos: position{line: 596, col: 5, offset: 18515},
 				run: (*parser).callonDoubleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 593, col: 5, offset: 18408},
+					pos: position{line: 596, col: 5, offset: 18515},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 593, col: 5, offset: 18408},
+							pos:        position{line: 596, col: 5, offset: 18515},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&notExpr{
-							pos: position{line: 593, col: 10, offset: 18413},
+							pos: position{line: 596, col: 10, offset: 18520},
 							expr: &litMatcher{
-								pos:        position{line: 593, col: 11, offset: 18414},
+								pos:        position{line: 596, col: 11, offset: 18521},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 594, col: 5, offset: 18493},
+							pos:   position{line: 597, col: 5, offset: 18600},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 594, col: 14, offset: 18502},
+								pos:  position{line: 597, col: 14, offset: 18609},
 								name: "DoubleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 595, col: 5, offset: 18541},
+							pos:        position{line: 598, col: 5, offset: 18648},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&andExpr{
-							pos: position{line: 595, col: 10, offset: 18546},
+							pos: position{line: 598, col: 10, offset: 18653},
 							expr: &notExpr{
-								pos: position{line: 595, col: 12, offset: 18548},
+								pos: position{line: 598, col: 12, offset: 18655},
 								expr: &seqExpr{
-									pos: position{line: 595, col: 14, offset: 18550},
+									pos: position{line: 598, col: 14, offset: 18657},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 595, col: 14, offset: 18550},
+											pos: position{line: 598, col: 14, offset: 18657},
 											expr: &actionExpr{
-												pos: position{line: 2912, col: 10, offset: 91925},
+												pos: position{line: 2918, col: 10, offset: 92139},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2912, col: 10, offset: 91925},
+													pos:        position{line: 2918, col: 10, offset: 92139},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14623,7 +14623,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 595, col: 21, offset: 18557},
+											pos:        position{line: 598, col: 21, offset: 18664},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -14638,25 +14638,25 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValueContent",
-			pos:  position{line: 599, col: 1, offset: 18600},
+			pos:  position{line: 602, col: 1, offset: 18707},
 			expr: &actionExpr{
-				pos: position{line: 600, col: 5, offset: 18642},
+				pos: position{line: 603, col: 5, offset: 18749},
 				run: (*parser).callonDoubleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 600, col: 5, offset: 18642},
+					pos:   position{line: 603, col: 5, offset: 18749},
 					label: "elements",
-					expr: &oneOrMoreExpr{
-						pos: position{line: 600, col: 14, offset: 18651},
+					expr: &zeroOrMoreExpr{
+						pos: position{line: 603, col: 14, offset: 18758},
 						expr: &choiceExpr{
-							pos: position{line: 601, col: 9, offset: 18661},
+							pos: position{line: 604, col: 9, offset: 18768},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2806, col: 14, offset: 89094},
+									pos: position{line: 2812, col: 14, offset: 89308},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2806, col: 14, offset: 89094},
+										pos: position{line: 2812, col: 14, offset: 89308},
 										expr: &charClassMatcher{
-											pos:        position{line: 2806, col: 14, offset: 89094},
+											pos:        position{line: 2812, col: 14, offset: 89308},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14665,10 +14665,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2912, col: 10, offset: 91925},
+									pos: position{line: 2918, col: 10, offset: 92139},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2912, col: 10, offset: 91925},
+										pos:        position{line: 2918, col: 10, offset: 92139},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14676,39 +14676,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 603, col: 11, offset: 18697},
+									pos:  position{line: 606, col: 11, offset: 18804},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 639, col: 5, offset: 20305},
+									pos: position{line: 645, col: 5, offset: 20519},
 									run: (*parser).callonDoubleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 639, col: 5, offset: 20305},
+										pos: position{line: 645, col: 5, offset: 20519},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 639, col: 5, offset: 20305},
+												pos: position{line: 645, col: 5, offset: 20519},
 												run: (*parser).callonDoubleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 642, col: 5, offset: 20377},
+												pos:   position{line: 648, col: 5, offset: 20591},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 642, col: 14, offset: 20386},
+													pos: position{line: 648, col: 14, offset: 20600},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 648, col: 5, offset: 20515},
+															pos: position{line: 654, col: 5, offset: 20729},
 															run: (*parser).callonDoubleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 648, col: 5, offset: 20515},
+																pos: position{line: 654, col: 5, offset: 20729},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 648, col: 5, offset: 20515},
+																		pos:        position{line: 654, col: 5, offset: 20729},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 648, col: 13, offset: 20523},
+																		pos:   position{line: 654, col: 13, offset: 20737},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14740,7 +14740,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 648, col: 32, offset: 20542},
+																		pos:        position{line: 654, col: 32, offset: 20756},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14749,19 +14749,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 655, col: 5, offset: 20783},
+															pos: position{line: 661, col: 5, offset: 20997},
 															run: (*parser).callonDoubleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 655, col: 5, offset: 20783},
+																pos: position{line: 661, col: 5, offset: 20997},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 655, col: 5, offset: 20783},
+																		pos:        position{line: 661, col: 5, offset: 20997},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 655, col: 9, offset: 20787},
+																		pos:   position{line: 661, col: 9, offset: 21001},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14793,7 +14793,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 655, col: 28, offset: 20806},
+																		pos:        position{line: 661, col: 28, offset: 21020},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14802,19 +14802,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 661, col: 25, offset: 20987},
+															pos: position{line: 667, col: 25, offset: 21201},
 															run: (*parser).callonDoubleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 661, col: 25, offset: 20987},
+																pos: position{line: 667, col: 25, offset: 21201},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 661, col: 25, offset: 20987},
+																		pos:        position{line: 667, col: 25, offset: 21201},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 661, col: 37, offset: 20999},
+																		pos:   position{line: 667, col: 37, offset: 21213},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14846,33 +14846,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 661, col: 56, offset: 21018},
+																		pos:   position{line: 667, col: 56, offset: 21232},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 661, col: 62, offset: 21024},
+																			pos: position{line: 667, col: 62, offset: 21238},
 																			expr: &actionExpr{
-																				pos: position{line: 669, col: 17, offset: 21321},
+																				pos: position{line: 675, col: 17, offset: 21535},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 669, col: 17, offset: 21321},
+																					pos: position{line: 675, col: 17, offset: 21535},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 669, col: 17, offset: 21321},
+																							pos:        position{line: 675, col: 17, offset: 21535},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 669, col: 21, offset: 21325},
+																							pos:   position{line: 675, col: 21, offset: 21539},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 669, col: 28, offset: 21332},
+																								pos: position{line: 675, col: 28, offset: 21546},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 669, col: 28, offset: 21332},
+																										pos: position{line: 675, col: 28, offset: 21546},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 669, col: 28, offset: 21332},
+																											pos:        position{line: 675, col: 28, offset: 21546},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14880,12 +14880,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 671, col: 9, offset: 21386},
+																										pos: position{line: 677, col: 9, offset: 21600},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 671, col: 9, offset: 21386},
+																											pos: position{line: 677, col: 9, offset: 21600},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 671, col: 9, offset: 21386},
+																												pos:        position{line: 677, col: 9, offset: 21600},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14902,7 +14902,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 661, col: 78, offset: 21040},
+																		pos:        position{line: 667, col: 78, offset: 21254},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14911,19 +14911,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 665, col: 25, offset: 21158},
+															pos: position{line: 671, col: 25, offset: 21372},
 															run: (*parser).callonDoubleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 665, col: 25, offset: 21158},
+																pos: position{line: 671, col: 25, offset: 21372},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 665, col: 25, offset: 21158},
+																		pos:        position{line: 671, col: 25, offset: 21372},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 665, col: 38, offset: 21171},
+																		pos:   position{line: 671, col: 38, offset: 21385},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14955,33 +14955,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 665, col: 57, offset: 21190},
+																		pos:   position{line: 671, col: 57, offset: 21404},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 665, col: 63, offset: 21196},
+																			pos: position{line: 671, col: 63, offset: 21410},
 																			expr: &actionExpr{
-																				pos: position{line: 669, col: 17, offset: 21321},
+																				pos: position{line: 675, col: 17, offset: 21535},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 669, col: 17, offset: 21321},
+																					pos: position{line: 675, col: 17, offset: 21535},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 669, col: 17, offset: 21321},
+																							pos:        position{line: 675, col: 17, offset: 21535},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 669, col: 21, offset: 21325},
+																							pos:   position{line: 675, col: 21, offset: 21539},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 669, col: 28, offset: 21332},
+																								pos: position{line: 675, col: 28, offset: 21546},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 669, col: 28, offset: 21332},
+																										pos: position{line: 675, col: 28, offset: 21546},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 669, col: 28, offset: 21332},
+																											pos:        position{line: 675, col: 28, offset: 21546},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14989,12 +14989,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 671, col: 9, offset: 21386},
+																										pos: position{line: 677, col: 9, offset: 21600},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 671, col: 9, offset: 21386},
+																											pos: position{line: 677, col: 9, offset: 21600},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 671, col: 9, offset: 21386},
+																												pos:        position{line: 677, col: 9, offset: 21600},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -15011,7 +15011,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 665, col: 79, offset: 21212},
+																		pos:        position{line: 671, col: 79, offset: 21426},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -15026,50 +15026,50 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 605, col: 12, offset: 18752},
+									pos: position{line: 608, col: 12, offset: 18859},
 									run: (*parser).callonDoubleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 605, col: 12, offset: 18752},
+										pos:        position{line: 608, col: 12, offset: 18859},
 										val:        "\\\"",
 										ignoreCase: false,
 										want:       "\"\\\\\\\"\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 608, col: 13, offset: 18854},
+									pos:        position{line: 611, col: 13, offset: 18961},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 608, col: 21, offset: 18862},
+									pos:        position{line: 611, col: 21, offset: 18969},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&litMatcher{
-									pos:        position{line: 608, col: 29, offset: 18870},
+									pos:        position{line: 611, col: 29, offset: 18977},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&actionExpr{
-									pos: position{line: 608, col: 35, offset: 18876},
+									pos: position{line: 611, col: 35, offset: 18983},
 									run: (*parser).callonDoubleQuotedAttributeValueContent85,
 									expr: &litMatcher{
-										pos:        position{line: 608, col: 35, offset: 18876},
+										pos:        position{line: 611, col: 35, offset: 18983},
 										val:        "`",
 										ignoreCase: false,
 										want:       "\"`\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 611, col: 12, offset: 19059},
+									pos: position{line: 614, col: 12, offset: 19166},
 									run: (*parser).callonDoubleQuotedAttributeValueContent87,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 611, col: 12, offset: 19059},
+										pos: position{line: 614, col: 12, offset: 19166},
 										expr: &charClassMatcher{
-											pos:        position{line: 611, col: 12, offset: 19059},
+											pos:        position{line: 614, col: 12, offset: 19166},
 											val:        "[^\\r\\n\\\\\"` ]",
 											chars:      []rune{'\r', '\n', '\\', '"', '`', ' '},
 											ignoreCase: false,
@@ -15085,20 +15085,20 @@ var g = &grammar{
 		},
 		{
 			name: "UnquotedAttributeValue",
-			pos:  position{line: 619, col: 1, offset: 19333},
+			pos:  position{line: 625, col: 1, offset: 19547},
 			expr: &actionExpr{
-				pos: position{line: 622, col: 5, offset: 19517},
+				pos: position{line: 628, col: 5, offset: 19731},
 				run: (*parser).callonUnquotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 622, col: 5, offset: 19517},
+					pos: position{line: 628, col: 5, offset: 19731},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 622, col: 5, offset: 19517},
+							pos: position{line: 628, col: 5, offset: 19731},
 							expr: &actionExpr{
-								pos: position{line: 2912, col: 10, offset: 91925},
+								pos: position{line: 2918, col: 10, offset: 92139},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2912, col: 10, offset: 91925},
+									pos:        position{line: 2918, col: 10, offset: 92139},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15107,28 +15107,28 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 623, col: 5, offset: 19586},
+							pos:   position{line: 629, col: 5, offset: 19800},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 623, col: 14, offset: 19595},
+								pos: position{line: 629, col: 14, offset: 19809},
 								expr: &choiceExpr{
-									pos: position{line: 624, col: 9, offset: 19605},
+									pos: position{line: 630, col: 9, offset: 19819},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 624, col: 10, offset: 19606},
+											pos: position{line: 630, col: 10, offset: 19820},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 624, col: 10, offset: 19606},
+													pos:        position{line: 630, col: 10, offset: 19820},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
 												},
 												&ruleRefExpr{
-													pos:  position{line: 624, col: 14, offset: 19610},
+													pos:  position{line: 630, col: 14, offset: 19824},
 													name: "UnquotedAttributeValue",
 												},
 												&litMatcher{
-													pos:        position{line: 624, col: 37, offset: 19633},
+													pos:        position{line: 630, col: 37, offset: 19847},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
@@ -15136,35 +15136,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 639, col: 5, offset: 20305},
+											pos: position{line: 645, col: 5, offset: 20519},
 											run: (*parser).callonUnquotedAttributeValue13,
 											expr: &seqExpr{
-												pos: position{line: 639, col: 5, offset: 20305},
+												pos: position{line: 645, col: 5, offset: 20519},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 639, col: 5, offset: 20305},
+														pos: position{line: 645, col: 5, offset: 20519},
 														run: (*parser).callonUnquotedAttributeValue15,
 													},
 													&labeledExpr{
-														pos:   position{line: 642, col: 5, offset: 20377},
+														pos:   position{line: 648, col: 5, offset: 20591},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 642, col: 14, offset: 20386},
+															pos: position{line: 648, col: 14, offset: 20600},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 648, col: 5, offset: 20515},
+																	pos: position{line: 654, col: 5, offset: 20729},
 																	run: (*parser).callonUnquotedAttributeValue18,
 																	expr: &seqExpr{
-																		pos: position{line: 648, col: 5, offset: 20515},
+																		pos: position{line: 654, col: 5, offset: 20729},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 648, col: 5, offset: 20515},
+																				pos:        position{line: 654, col: 5, offset: 20729},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 648, col: 13, offset: 20523},
+																				pos:   position{line: 654, col: 13, offset: 20737},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -15196,7 +15196,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 648, col: 32, offset: 20542},
+																				pos:        position{line: 654, col: 32, offset: 20756},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15205,19 +15205,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 655, col: 5, offset: 20783},
+																	pos: position{line: 661, col: 5, offset: 20997},
 																	run: (*parser).callonUnquotedAttributeValue28,
 																	expr: &seqExpr{
-																		pos: position{line: 655, col: 5, offset: 20783},
+																		pos: position{line: 661, col: 5, offset: 20997},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 655, col: 5, offset: 20783},
+																				pos:        position{line: 661, col: 5, offset: 20997},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 655, col: 9, offset: 20787},
+																				pos:   position{line: 661, col: 9, offset: 21001},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -15249,7 +15249,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 655, col: 28, offset: 20806},
+																				pos:        position{line: 661, col: 28, offset: 21020},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15258,19 +15258,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 661, col: 25, offset: 20987},
+																	pos: position{line: 667, col: 25, offset: 21201},
 																	run: (*parser).callonUnquotedAttributeValue38,
 																	expr: &seqExpr{
-																		pos: position{line: 661, col: 25, offset: 20987},
+																		pos: position{line: 667, col: 25, offset: 21201},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 661, col: 25, offset: 20987},
+																				pos:        position{line: 667, col: 25, offset: 21201},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 661, col: 37, offset: 20999},
+																				pos:   position{line: 667, col: 37, offset: 21213},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -15302,33 +15302,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 661, col: 56, offset: 21018},
+																				pos:   position{line: 667, col: 56, offset: 21232},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 661, col: 62, offset: 21024},
+																					pos: position{line: 667, col: 62, offset: 21238},
 																					expr: &actionExpr{
-																						pos: position{line: 669, col: 17, offset: 21321},
+																						pos: position{line: 675, col: 17, offset: 21535},
 																						run: (*parser).callonUnquotedAttributeValue49,
 																						expr: &seqExpr{
-																							pos: position{line: 669, col: 17, offset: 21321},
+																							pos: position{line: 675, col: 17, offset: 21535},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 669, col: 17, offset: 21321},
+																									pos:        position{line: 675, col: 17, offset: 21535},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 669, col: 21, offset: 21325},
+																									pos:   position{line: 675, col: 21, offset: 21539},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 669, col: 28, offset: 21332},
+																										pos: position{line: 675, col: 28, offset: 21546},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 669, col: 28, offset: 21332},
+																												pos: position{line: 675, col: 28, offset: 21546},
 																												run: (*parser).callonUnquotedAttributeValue54,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 669, col: 28, offset: 21332},
+																													pos:        position{line: 675, col: 28, offset: 21546},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15336,12 +15336,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 671, col: 9, offset: 21386},
+																												pos: position{line: 677, col: 9, offset: 21600},
 																												run: (*parser).callonUnquotedAttributeValue56,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 671, col: 9, offset: 21386},
+																													pos: position{line: 677, col: 9, offset: 21600},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 671, col: 9, offset: 21386},
+																														pos:        position{line: 677, col: 9, offset: 21600},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15358,7 +15358,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 661, col: 78, offset: 21040},
+																				pos:        position{line: 667, col: 78, offset: 21254},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15367,19 +15367,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 665, col: 25, offset: 21158},
+																	pos: position{line: 671, col: 25, offset: 21372},
 																	run: (*parser).callonUnquotedAttributeValue60,
 																	expr: &seqExpr{
-																		pos: position{line: 665, col: 25, offset: 21158},
+																		pos: position{line: 671, col: 25, offset: 21372},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 665, col: 25, offset: 21158},
+																				pos:        position{line: 671, col: 25, offset: 21372},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 665, col: 38, offset: 21171},
+																				pos:   position{line: 671, col: 38, offset: 21385},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -15411,33 +15411,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 665, col: 57, offset: 21190},
+																				pos:   position{line: 671, col: 57, offset: 21404},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 665, col: 63, offset: 21196},
+																					pos: position{line: 671, col: 63, offset: 21410},
 																					expr: &actionExpr{
-																						pos: position{line: 669, col: 17, offset: 21321},
+																						pos: position{line: 675, col: 17, offset: 21535},
 																						run: (*parser).callonUnquotedAttributeValue71,
 																						expr: &seqExpr{
-																							pos: position{line: 669, col: 17, offset: 21321},
+																							pos: position{line: 675, col: 17, offset: 21535},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 669, col: 17, offset: 21321},
+																									pos:        position{line: 675, col: 17, offset: 21535},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 669, col: 21, offset: 21325},
+																									pos:   position{line: 675, col: 21, offset: 21539},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 669, col: 28, offset: 21332},
+																										pos: position{line: 675, col: 28, offset: 21546},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 669, col: 28, offset: 21332},
+																												pos: position{line: 675, col: 28, offset: 21546},
 																												run: (*parser).callonUnquotedAttributeValue76,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 669, col: 28, offset: 21332},
+																													pos:        position{line: 675, col: 28, offset: 21546},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15445,12 +15445,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 671, col: 9, offset: 21386},
+																												pos: position{line: 677, col: 9, offset: 21600},
 																												run: (*parser).callonUnquotedAttributeValue78,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 671, col: 9, offset: 21386},
+																													pos: position{line: 677, col: 9, offset: 21600},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 671, col: 9, offset: 21386},
+																														pos:        position{line: 677, col: 9, offset: 21600},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15467,7 +15467,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 665, col: 79, offset: 21212},
+																				pos:        position{line: 671, col: 79, offset: 21426},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15482,16 +15482,16 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 625, col: 32, offset: 19720},
+											pos:        position{line: 631, col: 32, offset: 19934},
 											val:        "{",
 											ignoreCase: false,
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2912, col: 10, offset: 91925},
+											pos: position{line: 2918, col: 10, offset: 92139},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2912, col: 10, offset: 91925},
+												pos:        position{line: 2918, col: 10, offset: 92139},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15499,12 +15499,12 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 627, col: 12, offset: 19805},
+											pos: position{line: 633, col: 12, offset: 20019},
 											run: (*parser).callonUnquotedAttributeValue85,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 627, col: 12, offset: 19805},
+												pos: position{line: 633, col: 12, offset: 20019},
 												expr: &charClassMatcher{
-													pos:        position{line: 627, col: 12, offset: 19805},
+													pos:        position{line: 633, col: 12, offset: 20019},
 													val:        "[^=,]{ ]",
 													chars:      []rune{'=', ',', ']', '{', ' '},
 													ignoreCase: false,
@@ -15522,32 +15522,32 @@ var g = &grammar{
 		},
 		{
 			name: "CrossReference",
-			pos:  position{line: 687, col: 1, offset: 21948},
+			pos:  position{line: 693, col: 1, offset: 22162},
 			expr: &choiceExpr{
-				pos: position{line: 687, col: 19, offset: 21966},
+				pos: position{line: 693, col: 19, offset: 22180},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 689, col: 27, offset: 22042},
+						pos: position{line: 695, col: 27, offset: 22256},
 						run: (*parser).callonCrossReference2,
 						expr: &seqExpr{
-							pos: position{line: 689, col: 27, offset: 22042},
+							pos: position{line: 695, col: 27, offset: 22256},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 689, col: 27, offset: 22042},
+									pos:        position{line: 695, col: 27, offset: 22256},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 689, col: 32, offset: 22047},
+									pos:   position{line: 695, col: 32, offset: 22261},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2897, col: 7, offset: 91577},
+										pos: position{line: 2903, col: 7, offset: 91791},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2897, col: 7, offset: 91577},
+											pos: position{line: 2903, col: 7, offset: 91791},
 											expr: &charClassMatcher{
-												pos:        position{line: 2897, col: 7, offset: 91577},
+												pos:        position{line: 2903, col: 7, offset: 91791},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15557,12 +15557,12 @@ var g = &grammar{
 									},
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 689, col: 40, offset: 22055},
+									pos: position{line: 695, col: 40, offset: 22269},
 									expr: &actionExpr{
-										pos: position{line: 2912, col: 10, offset: 91925},
+										pos: position{line: 2918, col: 10, offset: 92139},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2912, col: 10, offset: 91925},
+											pos:        position{line: 2918, col: 10, offset: 92139},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15571,36 +15571,36 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 689, col: 47, offset: 22062},
+									pos:        position{line: 695, col: 47, offset: 22276},
 									val:        ",",
 									ignoreCase: false,
 									want:       "\",\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 689, col: 51, offset: 22066},
+									pos:   position{line: 695, col: 51, offset: 22280},
 									label: "label",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 699, col: 24, offset: 22467},
+										pos: position{line: 705, col: 24, offset: 22681},
 										expr: &choiceExpr{
-											pos: position{line: 700, col: 5, offset: 22473},
+											pos: position{line: 706, col: 5, offset: 22687},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 700, col: 6, offset: 22474},
+													pos: position{line: 706, col: 6, offset: 22688},
 													run: (*parser).callonCrossReference16,
 													expr: &seqExpr{
-														pos: position{line: 700, col: 6, offset: 22474},
+														pos: position{line: 706, col: 6, offset: 22688},
 														exprs: []interface{}{
 															&charClassMatcher{
-																pos:        position{line: 700, col: 6, offset: 22474},
+																pos:        position{line: 706, col: 6, offset: 22688},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
 																inverted:   false,
 															},
 															&oneOrMoreExpr{
-																pos: position{line: 700, col: 14, offset: 22482},
+																pos: position{line: 706, col: 14, offset: 22696},
 																expr: &charClassMatcher{
-																	pos:        position{line: 700, col: 14, offset: 22482},
+																	pos:        position{line: 706, col: 14, offset: 22696},
 																	val:        "[^\\r\\n{<>]",
 																	chars:      []rune{'\r', '\n', '{', '<', '>'},
 																	ignoreCase: false,
@@ -15611,19 +15611,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 648, col: 5, offset: 20515},
+													pos: position{line: 654, col: 5, offset: 20729},
 													run: (*parser).callonCrossReference21,
 													expr: &seqExpr{
-														pos: position{line: 648, col: 5, offset: 20515},
+														pos: position{line: 654, col: 5, offset: 20729},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 648, col: 5, offset: 20515},
+																pos:        position{line: 654, col: 5, offset: 20729},
 																val:        "\\{",
 																ignoreCase: false,
 																want:       "\"\\\\{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 648, col: 13, offset: 20523},
+																pos:   position{line: 654, col: 13, offset: 20737},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 320, col: 18, offset: 9837},
@@ -15655,7 +15655,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 648, col: 32, offset: 20542},
+																pos:        position{line: 654, col: 32, offset: 20756},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15664,19 +15664,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 655, col: 5, offset: 20783},
+													pos: position{line: 661, col: 5, offset: 20997},
 													run: (*parser).callonCrossReference31,
 													expr: &seqExpr{
-														pos: position{line: 655, col: 5, offset: 20783},
+														pos: position{line: 661, col: 5, offset: 20997},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 655, col: 5, offset: 20783},
+																pos:        position{line: 661, col: 5, offset: 20997},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 655, col: 9, offset: 20787},
+																pos:   position{line: 661, col: 9, offset: 21001},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 320, col: 18, offset: 9837},
@@ -15708,7 +15708,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 655, col: 28, offset: 20806},
+																pos:        position{line: 661, col: 28, offset: 21020},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15717,10 +15717,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 704, col: 8, offset: 22708},
+													pos: position{line: 710, col: 8, offset: 22922},
 													run: (*parser).callonCrossReference41,
 													expr: &litMatcher{
-														pos:        position{line: 704, col: 8, offset: 22708},
+														pos:        position{line: 710, col: 8, offset: 22922},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -15731,7 +15731,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 689, col: 79, offset: 22094},
+									pos:        position{line: 695, col: 79, offset: 22308},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15740,27 +15740,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 691, col: 9, offset: 22167},
+						pos: position{line: 697, col: 9, offset: 22381},
 						run: (*parser).callonCrossReference44,
 						expr: &seqExpr{
-							pos: position{line: 691, col: 9, offset: 22167},
+							pos: position{line: 697, col: 9, offset: 22381},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 691, col: 9, offset: 22167},
+									pos:        position{line: 697, col: 9, offset: 22381},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 691, col: 14, offset: 22172},
+									pos:   position{line: 697, col: 14, offset: 22386},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2897, col: 7, offset: 91577},
+										pos: position{line: 2903, col: 7, offset: 91791},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2897, col: 7, offset: 91577},
+											pos: position{line: 2903, col: 7, offset: 91791},
 											expr: &charClassMatcher{
-												pos:        position{line: 2897, col: 7, offset: 91577},
+												pos:        position{line: 2903, col: 7, offset: 91791},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15770,7 +15770,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 691, col: 22, offset: 22180},
+									pos:        position{line: 697, col: 22, offset: 22394},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15779,7 +15779,7 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 687, col: 44, offset: 21991},
+						pos:  position{line: 693, col: 44, offset: 22205},
 						name: "ExternalCrossReference",
 					},
 				},
@@ -15787,58 +15787,58 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalCrossReference",
-			pos:  position{line: 695, col: 1, offset: 22251},
+			pos:  position{line: 701, col: 1, offset: 22465},
 			expr: &actionExpr{
-				pos: position{line: 695, col: 27, offset: 22277},
+				pos: position{line: 701, col: 27, offset: 22491},
 				run: (*parser).callonExternalCrossReference1,
 				expr: &seqExpr{
-					pos: position{line: 695, col: 27, offset: 22277},
+					pos: position{line: 701, col: 27, offset: 22491},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 695, col: 27, offset: 22277},
+							pos:        position{line: 701, col: 27, offset: 22491},
 							val:        "xref:",
 							ignoreCase: false,
 							want:       "\"xref:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 695, col: 35, offset: 22285},
+							pos:   position{line: 701, col: 35, offset: 22499},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 17, offset: 90588},
+								pos: position{line: 2872, col: 17, offset: 90802},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2866, col: 17, offset: 90588},
+									pos:   position{line: 2872, col: 17, offset: 90802},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2883, col: 5, offset: 91042},
+										pos: position{line: 2889, col: 5, offset: 91256},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2883, col: 5, offset: 91042},
+											pos:   position{line: 2889, col: 5, offset: 91256},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2883, col: 14, offset: 91051},
+												pos: position{line: 2889, col: 14, offset: 91265},
 												expr: &choiceExpr{
-													pos: position{line: 2884, col: 9, offset: 91061},
+													pos: position{line: 2890, col: 9, offset: 91275},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2884, col: 9, offset: 91061},
+															pos: position{line: 2890, col: 9, offset: 91275},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2884, col: 9, offset: 91061},
+																pos: position{line: 2890, col: 9, offset: 91275},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2884, col: 9, offset: 91061},
+																		pos: position{line: 2890, col: 9, offset: 91275},
 																		expr: &litMatcher{
-																			pos:        position{line: 2884, col: 10, offset: 91062},
+																			pos:        position{line: 2890, col: 10, offset: 91276},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2885, col: 9, offset: 91090},
+																		pos: position{line: 2891, col: 9, offset: 91304},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2885, col: 10, offset: 91091},
+																			pos:        position{line: 2891, col: 10, offset: 91305},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15849,27 +15849,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2888, col: 11, offset: 91303},
+															pos: position{line: 2894, col: 11, offset: 91517},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2888, col: 11, offset: 91303},
+																	pos:        position{line: 2894, col: 11, offset: 91517},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2888, col: 19, offset: 91311},
+																	pos: position{line: 2894, col: 19, offset: 91525},
 																	expr: &seqExpr{
-																		pos: position{line: 2888, col: 21, offset: 91313},
+																		pos: position{line: 2894, col: 21, offset: 91527},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2888, col: 21, offset: 91313},
+																				pos: position{line: 2894, col: 21, offset: 91527},
 																				expr: &actionExpr{
-																					pos: position{line: 2912, col: 10, offset: 91925},
+																					pos: position{line: 2918, col: 10, offset: 92139},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2912, col: 10, offset: 91925},
+																						pos:        position{line: 2918, col: 10, offset: 92139},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15878,11 +15878,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2888, col: 28, offset: 91320},
+																				pos: position{line: 2894, col: 28, offset: 91534},
 																				expr: &notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
@@ -15892,35 +15892,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 639, col: 5, offset: 20305},
+															pos: position{line: 645, col: 5, offset: 20519},
 															run: (*parser).callonExternalCrossReference27,
 															expr: &seqExpr{
-																pos: position{line: 639, col: 5, offset: 20305},
+																pos: position{line: 645, col: 5, offset: 20519},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 639, col: 5, offset: 20305},
+																		pos: position{line: 645, col: 5, offset: 20519},
 																		run: (*parser).callonExternalCrossReference29,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 642, col: 5, offset: 20377},
+																		pos:   position{line: 648, col: 5, offset: 20591},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 642, col: 14, offset: 20386},
+																			pos: position{line: 648, col: 14, offset: 20600},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 648, col: 5, offset: 20515},
+																					pos: position{line: 654, col: 5, offset: 20729},
 																					run: (*parser).callonExternalCrossReference32,
 																					expr: &seqExpr{
-																						pos: position{line: 648, col: 5, offset: 20515},
+																						pos: position{line: 654, col: 5, offset: 20729},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 648, col: 5, offset: 20515},
+																								pos:        position{line: 654, col: 5, offset: 20729},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 648, col: 13, offset: 20523},
+																								pos:   position{line: 654, col: 13, offset: 20737},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -15952,7 +15952,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 648, col: 32, offset: 20542},
+																								pos:        position{line: 654, col: 32, offset: 20756},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15961,19 +15961,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 655, col: 5, offset: 20783},
+																					pos: position{line: 661, col: 5, offset: 20997},
 																					run: (*parser).callonExternalCrossReference42,
 																					expr: &seqExpr{
-																						pos: position{line: 655, col: 5, offset: 20783},
+																						pos: position{line: 661, col: 5, offset: 20997},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 655, col: 5, offset: 20783},
+																								pos:        position{line: 661, col: 5, offset: 20997},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 655, col: 9, offset: 20787},
+																								pos:   position{line: 661, col: 9, offset: 21001},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -16005,7 +16005,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 655, col: 28, offset: 20806},
+																								pos:        position{line: 661, col: 28, offset: 21020},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16014,19 +16014,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 661, col: 25, offset: 20987},
+																					pos: position{line: 667, col: 25, offset: 21201},
 																					run: (*parser).callonExternalCrossReference52,
 																					expr: &seqExpr{
-																						pos: position{line: 661, col: 25, offset: 20987},
+																						pos: position{line: 667, col: 25, offset: 21201},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 661, col: 25, offset: 20987},
+																								pos:        position{line: 667, col: 25, offset: 21201},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 661, col: 37, offset: 20999},
+																								pos:   position{line: 667, col: 37, offset: 21213},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -16058,33 +16058,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 661, col: 56, offset: 21018},
+																								pos:   position{line: 667, col: 56, offset: 21232},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 661, col: 62, offset: 21024},
+																									pos: position{line: 667, col: 62, offset: 21238},
 																									expr: &actionExpr{
-																										pos: position{line: 669, col: 17, offset: 21321},
+																										pos: position{line: 675, col: 17, offset: 21535},
 																										run: (*parser).callonExternalCrossReference63,
 																										expr: &seqExpr{
-																											pos: position{line: 669, col: 17, offset: 21321},
+																											pos: position{line: 675, col: 17, offset: 21535},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 669, col: 17, offset: 21321},
+																													pos:        position{line: 675, col: 17, offset: 21535},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 669, col: 21, offset: 21325},
+																													pos:   position{line: 675, col: 21, offset: 21539},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 669, col: 28, offset: 21332},
+																														pos: position{line: 675, col: 28, offset: 21546},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 669, col: 28, offset: 21332},
+																																pos: position{line: 675, col: 28, offset: 21546},
 																																run: (*parser).callonExternalCrossReference68,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 669, col: 28, offset: 21332},
+																																	pos:        position{line: 675, col: 28, offset: 21546},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -16092,12 +16092,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 671, col: 9, offset: 21386},
+																																pos: position{line: 677, col: 9, offset: 21600},
 																																run: (*parser).callonExternalCrossReference70,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 671, col: 9, offset: 21386},
+																																	pos: position{line: 677, col: 9, offset: 21600},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 671, col: 9, offset: 21386},
+																																		pos:        position{line: 677, col: 9, offset: 21600},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -16114,7 +16114,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 661, col: 78, offset: 21040},
+																								pos:        position{line: 667, col: 78, offset: 21254},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16123,19 +16123,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 665, col: 25, offset: 21158},
+																					pos: position{line: 671, col: 25, offset: 21372},
 																					run: (*parser).callonExternalCrossReference74,
 																					expr: &seqExpr{
-																						pos: position{line: 665, col: 25, offset: 21158},
+																						pos: position{line: 671, col: 25, offset: 21372},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 665, col: 25, offset: 21158},
+																								pos:        position{line: 671, col: 25, offset: 21372},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 38, offset: 21171},
+																								pos:   position{line: 671, col: 38, offset: 21385},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -16167,33 +16167,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 57, offset: 21190},
+																								pos:   position{line: 671, col: 57, offset: 21404},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 665, col: 63, offset: 21196},
+																									pos: position{line: 671, col: 63, offset: 21410},
 																									expr: &actionExpr{
-																										pos: position{line: 669, col: 17, offset: 21321},
+																										pos: position{line: 675, col: 17, offset: 21535},
 																										run: (*parser).callonExternalCrossReference85,
 																										expr: &seqExpr{
-																											pos: position{line: 669, col: 17, offset: 21321},
+																											pos: position{line: 675, col: 17, offset: 21535},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 669, col: 17, offset: 21321},
+																													pos:        position{line: 675, col: 17, offset: 21535},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 669, col: 21, offset: 21325},
+																													pos:   position{line: 675, col: 21, offset: 21539},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 669, col: 28, offset: 21332},
+																														pos: position{line: 675, col: 28, offset: 21546},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 669, col: 28, offset: 21332},
+																																pos: position{line: 675, col: 28, offset: 21546},
 																																run: (*parser).callonExternalCrossReference90,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 669, col: 28, offset: 21332},
+																																	pos:        position{line: 675, col: 28, offset: 21546},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -16201,12 +16201,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 671, col: 9, offset: 21386},
+																																pos: position{line: 677, col: 9, offset: 21600},
 																																run: (*parser).callonExternalCrossReference92,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 671, col: 9, offset: 21386},
+																																	pos: position{line: 677, col: 9, offset: 21600},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 671, col: 9, offset: 21386},
+																																		pos:        position{line: 677, col: 9, offset: 21600},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -16223,7 +16223,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 665, col: 79, offset: 21212},
+																								pos:        position{line: 671, col: 79, offset: 21426},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16238,27 +16238,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1201, col: 23, offset: 37170},
+															pos: position{line: 1207, col: 23, offset: 37384},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1201, col: 23, offset: 37170},
+																pos: position{line: 1207, col: 23, offset: 37384},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1199, col: 32, offset: 37138},
+																		pos:        position{line: 1205, col: 32, offset: 37352},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1201, col: 51, offset: 37198},
+																		pos:   position{line: 1207, col: 51, offset: 37412},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1201, col: 56, offset: 37203},
+																			pos: position{line: 1207, col: 56, offset: 37417},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1201, col: 56, offset: 37203},
+																				pos: position{line: 1207, col: 56, offset: 37417},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1201, col: 56, offset: 37203},
+																					pos:        position{line: 1207, col: 56, offset: 37417},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -16268,7 +16268,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1199, col: 32, offset: 37138},
+																		pos:        position{line: 1205, col: 32, offset: 37352},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -16277,10 +16277,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2891, col: 11, offset: 91440},
+															pos: position{line: 2897, col: 11, offset: 91654},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2891, col: 11, offset: 91440},
+																pos:        position{line: 2897, col: 11, offset: 91654},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16295,10 +16295,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 695, col: 54, offset: 22304},
+							pos:   position{line: 701, col: 54, offset: 22518},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 695, col: 66, offset: 22316},
+								pos:  position{line: 701, col: 66, offset: 22530},
 								name: "InlineAttributes",
 							},
 						},
@@ -16308,29 +16308,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 991, col: 1, offset: 30965},
+			pos:  position{line: 997, col: 1, offset: 31179},
 			expr: &actionExpr{
-				pos: position{line: 992, col: 5, offset: 30998},
+				pos: position{line: 998, col: 5, offset: 31212},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 992, col: 5, offset: 30998},
+					pos: position{line: 998, col: 5, offset: 31212},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 992, col: 5, offset: 30998},
+							pos:        position{line: 998, col: 5, offset: 31212},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 992, col: 11, offset: 31004},
+							pos:   position{line: 998, col: 11, offset: 31218},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2862, col: 14, offset: 90518},
+								pos: position{line: 2868, col: 14, offset: 90732},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2862, col: 14, offset: 90518},
+									pos: position{line: 2868, col: 14, offset: 90732},
 									expr: &charClassMatcher{
-										pos:        position{line: 2862, col: 14, offset: 90518},
+										pos:        position{line: 2868, col: 14, offset: 90732},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16340,28 +16340,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2934, col: 8, offset: 92323},
+							pos: position{line: 2940, col: 8, offset: 92537},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2921, col: 12, offset: 92096},
+									pos: position{line: 2927, col: 12, offset: 92310},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2921, col: 13, offset: 92097},
+										pos: position{line: 2927, col: 13, offset: 92311},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2921, col: 13, offset: 92097},
+												pos:        position{line: 2927, col: 13, offset: 92311},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2921, col: 20, offset: 92104},
+												pos:        position{line: 2927, col: 20, offset: 92318},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2921, col: 29, offset: 92113},
+												pos:        position{line: 2927, col: 29, offset: 92327},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16370,9 +16370,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2931, col: 8, offset: 92273},
+									pos: position{line: 2937, col: 8, offset: 92487},
 									expr: &anyMatcher{
-										line: 2931, col: 9, offset: 92274,
+										line: 2937, col: 9, offset: 92488,
 									},
 								},
 							},
@@ -16383,53 +16383,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1103, col: 1, offset: 33921},
+			pos:  position{line: 1109, col: 1, offset: 34135},
 			expr: &actionExpr{
-				pos: position{line: 1104, col: 5, offset: 33944},
+				pos: position{line: 1110, col: 5, offset: 34158},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1104, col: 5, offset: 33944},
+					pos: position{line: 1110, col: 5, offset: 34158},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1104, col: 5, offset: 33944},
+							pos: position{line: 1110, col: 5, offset: 34158},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1107, col: 5, offset: 34005},
+							pos: position{line: 1113, col: 5, offset: 34219},
 							expr: &choiceExpr{
-								pos: position{line: 1107, col: 6, offset: 34006},
+								pos: position{line: 1113, col: 6, offset: 34220},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2515, col: 22, offset: 80703},
+										pos: position{line: 2521, col: 22, offset: 80917},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2515, col: 22, offset: 80703},
+											pos: position{line: 2521, col: 22, offset: 80917},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2520, col: 31, offset: 80953},
+													pos:        position{line: 2526, col: 31, offset: 81167},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2520, col: 36, offset: 80958},
+													pos: position{line: 2526, col: 36, offset: 81172},
 													expr: &litMatcher{
-														pos:        position{line: 2520, col: 37, offset: 80959},
+														pos:        position{line: 2526, col: 37, offset: 81173},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 49, offset: 80730},
+													pos:   position{line: 2521, col: 49, offset: 80944},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 13, offset: 90451},
+														pos: position{line: 2864, col: 13, offset: 90665},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2858, col: 13, offset: 90451},
+															pos: position{line: 2864, col: 13, offset: 90665},
 															expr: &charClassMatcher{
-																pos:        position{line: 2858, col: 13, offset: 90451},
+																pos:        position{line: 2864, col: 13, offset: 90665},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16439,28 +16439,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2934, col: 8, offset: 92323},
+													pos: position{line: 2940, col: 8, offset: 92537},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2921, col: 12, offset: 92096},
+															pos: position{line: 2927, col: 12, offset: 92310},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2921, col: 13, offset: 92097},
+																pos: position{line: 2927, col: 13, offset: 92311},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 13, offset: 92097},
+																		pos:        position{line: 2927, col: 13, offset: 92311},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 20, offset: 92104},
+																		pos:        position{line: 2927, col: 20, offset: 92318},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 29, offset: 92113},
+																		pos:        position{line: 2927, col: 29, offset: 92327},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16469,9 +16469,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2931, col: 8, offset: 92273},
+															pos: position{line: 2937, col: 8, offset: 92487},
 															expr: &anyMatcher{
-																line: 2931, col: 9, offset: 92274,
+																line: 2937, col: 9, offset: 92488,
 															},
 														},
 													},
@@ -16480,36 +16480,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 823, col: 5, offset: 26522},
+										pos: position{line: 829, col: 5, offset: 26736},
 										run: (*parser).callonDocumentHeader23,
 										expr: &seqExpr{
-											pos: position{line: 823, col: 5, offset: 26522},
+											pos: position{line: 829, col: 5, offset: 26736},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 743, col: 5, offset: 23782},
+													pos: position{line: 749, col: 5, offset: 23996},
 													run: (*parser).callonDocumentHeader25,
 													expr: &seqExpr{
-														pos: position{line: 743, col: 5, offset: 23782},
+														pos: position{line: 749, col: 5, offset: 23996},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 743, col: 5, offset: 23782},
+																pos:   position{line: 749, col: 5, offset: 23996},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 743, col: 16, offset: 23793},
+																	pos: position{line: 749, col: 16, offset: 24007},
 																	run: (*parser).callonDocumentHeader28,
 																	expr: &seqExpr{
-																		pos: position{line: 743, col: 16, offset: 23793},
+																		pos: position{line: 749, col: 16, offset: 24007},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 743, col: 16, offset: 23793},
+																				pos:        position{line: 749, col: 16, offset: 24007},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 743, col: 23, offset: 23800},
+																				pos: position{line: 749, col: 23, offset: 24014},
 																				expr: &litMatcher{
-																					pos:        position{line: 743, col: 23, offset: 23800},
+																					pos:        position{line: 749, col: 23, offset: 24014},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -16520,12 +16520,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 745, col: 8, offset: 23884},
+																pos: position{line: 751, col: 8, offset: 24098},
 																expr: &actionExpr{
-																	pos: position{line: 2912, col: 10, offset: 91925},
+																	pos: position{line: 2918, col: 10, offset: 92139},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2912, col: 10, offset: 91925},
+																		pos:        position{line: 2918, col: 10, offset: 92139},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16534,28 +16534,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2934, col: 8, offset: 92323},
+																pos: position{line: 2940, col: 8, offset: 92537},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2921, col: 12, offset: 92096},
+																		pos: position{line: 2927, col: 12, offset: 92310},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2921, col: 13, offset: 92097},
+																			pos: position{line: 2927, col: 13, offset: 92311},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2921, col: 13, offset: 92097},
+																					pos:        position{line: 2927, col: 13, offset: 92311},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2921, col: 20, offset: 92104},
+																					pos:        position{line: 2927, col: 20, offset: 92318},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2921, col: 29, offset: 92113},
+																					pos:        position{line: 2927, col: 29, offset: 92327},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16564,9 +16564,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2931, col: 8, offset: 92273},
+																		pos: position{line: 2937, col: 8, offset: 92487},
 																		expr: &anyMatcher{
-																			line: 2931, col: 9, offset: 92274,
+																			line: 2937, col: 9, offset: 92488,
 																		},
 																	},
 																},
@@ -16575,46 +16575,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 824, col: 5, offset: 26553},
+													pos:   position{line: 830, col: 5, offset: 26767},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 834, col: 5, offset: 26839},
+														pos: position{line: 840, col: 5, offset: 27053},
 														expr: &actionExpr{
-															pos: position{line: 834, col: 6, offset: 26840},
+															pos: position{line: 840, col: 6, offset: 27054},
 															run: (*parser).callonDocumentHeader46,
 															expr: &seqExpr{
-																pos: position{line: 834, col: 6, offset: 26840},
+																pos: position{line: 840, col: 6, offset: 27054},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 834, col: 6, offset: 26840},
+																		pos: position{line: 840, col: 6, offset: 27054},
 																		expr: &choiceExpr{
-																			pos: position{line: 831, col: 29, offset: 26782},
+																			pos: position{line: 837, col: 29, offset: 26996},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 743, col: 5, offset: 23782},
+																					pos: position{line: 749, col: 5, offset: 23996},
 																					run: (*parser).callonDocumentHeader50,
 																					expr: &seqExpr{
-																						pos: position{line: 743, col: 5, offset: 23782},
+																						pos: position{line: 749, col: 5, offset: 23996},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 743, col: 5, offset: 23782},
+																								pos:   position{line: 749, col: 5, offset: 23996},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 743, col: 16, offset: 23793},
+																									pos: position{line: 749, col: 16, offset: 24007},
 																									run: (*parser).callonDocumentHeader53,
 																									expr: &seqExpr{
-																										pos: position{line: 743, col: 16, offset: 23793},
+																										pos: position{line: 749, col: 16, offset: 24007},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 743, col: 16, offset: 23793},
+																												pos:        position{line: 749, col: 16, offset: 24007},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 743, col: 23, offset: 23800},
+																												pos: position{line: 749, col: 23, offset: 24014},
 																												expr: &litMatcher{
-																													pos:        position{line: 743, col: 23, offset: 23800},
+																													pos:        position{line: 749, col: 23, offset: 24014},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -16625,12 +16625,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 745, col: 8, offset: 23884},
+																								pos: position{line: 751, col: 8, offset: 24098},
 																								expr: &actionExpr{
-																									pos: position{line: 2912, col: 10, offset: 91925},
+																									pos: position{line: 2918, col: 10, offset: 92139},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2912, col: 10, offset: 91925},
+																										pos:        position{line: 2918, col: 10, offset: 92139},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16639,28 +16639,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2934, col: 8, offset: 92323},
+																								pos: position{line: 2940, col: 8, offset: 92537},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2921, col: 12, offset: 92096},
+																										pos: position{line: 2927, col: 12, offset: 92310},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2921, col: 13, offset: 92097},
+																											pos: position{line: 2927, col: 13, offset: 92311},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 13, offset: 92097},
+																													pos:        position{line: 2927, col: 13, offset: 92311},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 20, offset: 92104},
+																													pos:        position{line: 2927, col: 20, offset: 92318},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 29, offset: 92113},
+																													pos:        position{line: 2927, col: 29, offset: 92327},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16669,9 +16669,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2931, col: 8, offset: 92273},
+																										pos: position{line: 2937, col: 8, offset: 92487},
 																										expr: &anyMatcher{
-																											line: 2931, col: 9, offset: 92274,
+																											line: 2937, col: 9, offset: 92488,
 																										},
 																									},
 																								},
@@ -16680,39 +16680,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 835, col: 5, offset: 26870},
+																		pos:   position{line: 841, col: 5, offset: 27084},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 814, col: 5, offset: 26286},
+																			pos: position{line: 820, col: 5, offset: 26500},
 																			run: (*parser).callonDocumentHeader72,
 																			expr: &seqExpr{
-																				pos: position{line: 814, col: 5, offset: 26286},
+																				pos: position{line: 820, col: 5, offset: 26500},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2929, col: 11, offset: 92259},
+																						pos: position{line: 2935, col: 11, offset: 92473},
 																						expr: &anyMatcher{
-																							line: 2929, col: 13, offset: 92261,
+																							line: 2935, col: 13, offset: 92475,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 815, col: 5, offset: 26361},
+																						pos:   position{line: 821, col: 5, offset: 26575},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2858, col: 13, offset: 90451},
+																							pos: position{line: 2864, col: 13, offset: 90665},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2858, col: 13, offset: 90451},
+																								pos: position{line: 2864, col: 13, offset: 90665},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2858, col: 13, offset: 90451},
+																									pos:        position{line: 2864, col: 13, offset: 90665},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16722,28 +16722,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2934, col: 8, offset: 92323},
+																						pos: position{line: 2940, col: 8, offset: 92537},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2921, col: 12, offset: 92096},
+																								pos: position{line: 2927, col: 12, offset: 92310},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2921, col: 13, offset: 92097},
+																									pos: position{line: 2927, col: 13, offset: 92311},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 13, offset: 92097},
+																											pos:        position{line: 2927, col: 13, offset: 92311},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 20, offset: 92104},
+																											pos:        position{line: 2927, col: 20, offset: 92318},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 29, offset: 92113},
+																											pos:        position{line: 2927, col: 29, offset: 92327},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16752,9 +16752,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2931, col: 8, offset: 92273},
+																								pos: position{line: 2937, col: 8, offset: 92487},
 																								expr: &anyMatcher{
-																									line: 2931, col: 9, offset: 92274,
+																									line: 2937, col: 9, offset: 92488,
 																								},
 																							},
 																						},
@@ -16769,35 +16769,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 825, col: 5, offset: 26587},
+													pos: position{line: 831, col: 5, offset: 26801},
 													expr: &choiceExpr{
-														pos: position{line: 831, col: 29, offset: 26782},
+														pos: position{line: 837, col: 29, offset: 26996},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 743, col: 5, offset: 23782},
+																pos: position{line: 749, col: 5, offset: 23996},
 																run: (*parser).callonDocumentHeader90,
 																expr: &seqExpr{
-																	pos: position{line: 743, col: 5, offset: 23782},
+																	pos: position{line: 749, col: 5, offset: 23996},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 743, col: 5, offset: 23782},
+																			pos:   position{line: 749, col: 5, offset: 23996},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 743, col: 16, offset: 23793},
+																				pos: position{line: 749, col: 16, offset: 24007},
 																				run: (*parser).callonDocumentHeader93,
 																				expr: &seqExpr{
-																					pos: position{line: 743, col: 16, offset: 23793},
+																					pos: position{line: 749, col: 16, offset: 24007},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 743, col: 16, offset: 23793},
+																							pos:        position{line: 749, col: 16, offset: 24007},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 743, col: 23, offset: 23800},
+																							pos: position{line: 749, col: 23, offset: 24014},
 																							expr: &litMatcher{
-																								pos:        position{line: 743, col: 23, offset: 23800},
+																								pos:        position{line: 749, col: 23, offset: 24014},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -16808,12 +16808,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 745, col: 8, offset: 23884},
+																			pos: position{line: 751, col: 8, offset: 24098},
 																			expr: &actionExpr{
-																				pos: position{line: 2912, col: 10, offset: 91925},
+																				pos: position{line: 2918, col: 10, offset: 92139},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2912, col: 10, offset: 91925},
+																					pos:        position{line: 2918, col: 10, offset: 92139},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16822,28 +16822,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2934, col: 8, offset: 92323},
+																			pos: position{line: 2940, col: 8, offset: 92537},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2921, col: 12, offset: 92096},
+																					pos: position{line: 2927, col: 12, offset: 92310},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2921, col: 13, offset: 92097},
+																						pos: position{line: 2927, col: 13, offset: 92311},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 13, offset: 92097},
+																								pos:        position{line: 2927, col: 13, offset: 92311},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 20, offset: 92104},
+																								pos:        position{line: 2927, col: 20, offset: 92318},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 29, offset: 92113},
+																								pos:        position{line: 2927, col: 29, offset: 92327},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16852,9 +16852,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
@@ -16863,9 +16863,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2931, col: 8, offset: 92273},
+																pos: position{line: 2937, col: 8, offset: 92487},
 																expr: &anyMatcher{
-																	line: 2931, col: 9, offset: 92274,
+																	line: 2937, col: 9, offset: 92488,
 																},
 															},
 														},
@@ -16878,49 +16878,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1108, col: 5, offset: 34102},
+							pos:   position{line: 1114, col: 5, offset: 34316},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1108, col: 12, offset: 34109},
+								pos:  position{line: 1114, col: 12, offset: 34323},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1109, col: 5, offset: 34128},
+							pos: position{line: 1115, col: 5, offset: 34342},
 							expr: &choiceExpr{
-								pos: position{line: 1109, col: 6, offset: 34129},
+								pos: position{line: 1115, col: 6, offset: 34343},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2515, col: 22, offset: 80703},
+										pos: position{line: 2521, col: 22, offset: 80917},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2515, col: 22, offset: 80703},
+											pos: position{line: 2521, col: 22, offset: 80917},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2520, col: 31, offset: 80953},
+													pos:        position{line: 2526, col: 31, offset: 81167},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2520, col: 36, offset: 80958},
+													pos: position{line: 2526, col: 36, offset: 81172},
 													expr: &litMatcher{
-														pos:        position{line: 2520, col: 37, offset: 80959},
+														pos:        position{line: 2526, col: 37, offset: 81173},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 49, offset: 80730},
+													pos:   position{line: 2521, col: 49, offset: 80944},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 13, offset: 90451},
+														pos: position{line: 2864, col: 13, offset: 90665},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2858, col: 13, offset: 90451},
+															pos: position{line: 2864, col: 13, offset: 90665},
 															expr: &charClassMatcher{
-																pos:        position{line: 2858, col: 13, offset: 90451},
+																pos:        position{line: 2864, col: 13, offset: 90665},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16930,28 +16930,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2934, col: 8, offset: 92323},
+													pos: position{line: 2940, col: 8, offset: 92537},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2921, col: 12, offset: 92096},
+															pos: position{line: 2927, col: 12, offset: 92310},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2921, col: 13, offset: 92097},
+																pos: position{line: 2927, col: 13, offset: 92311},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 13, offset: 92097},
+																		pos:        position{line: 2927, col: 13, offset: 92311},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 20, offset: 92104},
+																		pos:        position{line: 2927, col: 20, offset: 92318},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 29, offset: 92113},
+																		pos:        position{line: 2927, col: 29, offset: 92327},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16960,9 +16960,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2931, col: 8, offset: 92273},
+															pos: position{line: 2937, col: 8, offset: 92487},
 															expr: &anyMatcher{
-																line: 2931, col: 9, offset: 92274,
+																line: 2937, col: 9, offset: 92488,
 															},
 														},
 													},
@@ -16971,36 +16971,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 823, col: 5, offset: 26522},
+										pos: position{line: 829, col: 5, offset: 26736},
 										run: (*parser).callonDocumentHeader132,
 										expr: &seqExpr{
-											pos: position{line: 823, col: 5, offset: 26522},
+											pos: position{line: 829, col: 5, offset: 26736},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 743, col: 5, offset: 23782},
+													pos: position{line: 749, col: 5, offset: 23996},
 													run: (*parser).callonDocumentHeader134,
 													expr: &seqExpr{
-														pos: position{line: 743, col: 5, offset: 23782},
+														pos: position{line: 749, col: 5, offset: 23996},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 743, col: 5, offset: 23782},
+																pos:   position{line: 749, col: 5, offset: 23996},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 743, col: 16, offset: 23793},
+																	pos: position{line: 749, col: 16, offset: 24007},
 																	run: (*parser).callonDocumentHeader137,
 																	expr: &seqExpr{
-																		pos: position{line: 743, col: 16, offset: 23793},
+																		pos: position{line: 749, col: 16, offset: 24007},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 743, col: 16, offset: 23793},
+																				pos:        position{line: 749, col: 16, offset: 24007},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 743, col: 23, offset: 23800},
+																				pos: position{line: 749, col: 23, offset: 24014},
 																				expr: &litMatcher{
-																					pos:        position{line: 743, col: 23, offset: 23800},
+																					pos:        position{line: 749, col: 23, offset: 24014},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -17011,12 +17011,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 745, col: 8, offset: 23884},
+																pos: position{line: 751, col: 8, offset: 24098},
 																expr: &actionExpr{
-																	pos: position{line: 2912, col: 10, offset: 91925},
+																	pos: position{line: 2918, col: 10, offset: 92139},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2912, col: 10, offset: 91925},
+																		pos:        position{line: 2918, col: 10, offset: 92139},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17025,28 +17025,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2934, col: 8, offset: 92323},
+																pos: position{line: 2940, col: 8, offset: 92537},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2921, col: 12, offset: 92096},
+																		pos: position{line: 2927, col: 12, offset: 92310},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2921, col: 13, offset: 92097},
+																			pos: position{line: 2927, col: 13, offset: 92311},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2921, col: 13, offset: 92097},
+																					pos:        position{line: 2927, col: 13, offset: 92311},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2921, col: 20, offset: 92104},
+																					pos:        position{line: 2927, col: 20, offset: 92318},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2921, col: 29, offset: 92113},
+																					pos:        position{line: 2927, col: 29, offset: 92327},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17055,9 +17055,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2931, col: 8, offset: 92273},
+																		pos: position{line: 2937, col: 8, offset: 92487},
 																		expr: &anyMatcher{
-																			line: 2931, col: 9, offset: 92274,
+																			line: 2937, col: 9, offset: 92488,
 																		},
 																	},
 																},
@@ -17066,46 +17066,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 824, col: 5, offset: 26553},
+													pos:   position{line: 830, col: 5, offset: 26767},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 834, col: 5, offset: 26839},
+														pos: position{line: 840, col: 5, offset: 27053},
 														expr: &actionExpr{
-															pos: position{line: 834, col: 6, offset: 26840},
+															pos: position{line: 840, col: 6, offset: 27054},
 															run: (*parser).callonDocumentHeader155,
 															expr: &seqExpr{
-																pos: position{line: 834, col: 6, offset: 26840},
+																pos: position{line: 840, col: 6, offset: 27054},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 834, col: 6, offset: 26840},
+																		pos: position{line: 840, col: 6, offset: 27054},
 																		expr: &choiceExpr{
-																			pos: position{line: 831, col: 29, offset: 26782},
+																			pos: position{line: 837, col: 29, offset: 26996},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 743, col: 5, offset: 23782},
+																					pos: position{line: 749, col: 5, offset: 23996},
 																					run: (*parser).callonDocumentHeader159,
 																					expr: &seqExpr{
-																						pos: position{line: 743, col: 5, offset: 23782},
+																						pos: position{line: 749, col: 5, offset: 23996},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 743, col: 5, offset: 23782},
+																								pos:   position{line: 749, col: 5, offset: 23996},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 743, col: 16, offset: 23793},
+																									pos: position{line: 749, col: 16, offset: 24007},
 																									run: (*parser).callonDocumentHeader162,
 																									expr: &seqExpr{
-																										pos: position{line: 743, col: 16, offset: 23793},
+																										pos: position{line: 749, col: 16, offset: 24007},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 743, col: 16, offset: 23793},
+																												pos:        position{line: 749, col: 16, offset: 24007},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 743, col: 23, offset: 23800},
+																												pos: position{line: 749, col: 23, offset: 24014},
 																												expr: &litMatcher{
-																													pos:        position{line: 743, col: 23, offset: 23800},
+																													pos:        position{line: 749, col: 23, offset: 24014},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -17116,12 +17116,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 745, col: 8, offset: 23884},
+																								pos: position{line: 751, col: 8, offset: 24098},
 																								expr: &actionExpr{
-																									pos: position{line: 2912, col: 10, offset: 91925},
+																									pos: position{line: 2918, col: 10, offset: 92139},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2912, col: 10, offset: 91925},
+																										pos:        position{line: 2918, col: 10, offset: 92139},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17130,28 +17130,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2934, col: 8, offset: 92323},
+																								pos: position{line: 2940, col: 8, offset: 92537},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2921, col: 12, offset: 92096},
+																										pos: position{line: 2927, col: 12, offset: 92310},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2921, col: 13, offset: 92097},
+																											pos: position{line: 2927, col: 13, offset: 92311},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 13, offset: 92097},
+																													pos:        position{line: 2927, col: 13, offset: 92311},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 20, offset: 92104},
+																													pos:        position{line: 2927, col: 20, offset: 92318},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 29, offset: 92113},
+																													pos:        position{line: 2927, col: 29, offset: 92327},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17160,9 +17160,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2931, col: 8, offset: 92273},
+																										pos: position{line: 2937, col: 8, offset: 92487},
 																										expr: &anyMatcher{
-																											line: 2931, col: 9, offset: 92274,
+																											line: 2937, col: 9, offset: 92488,
 																										},
 																									},
 																								},
@@ -17171,39 +17171,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 835, col: 5, offset: 26870},
+																		pos:   position{line: 841, col: 5, offset: 27084},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 814, col: 5, offset: 26286},
+																			pos: position{line: 820, col: 5, offset: 26500},
 																			run: (*parser).callonDocumentHeader181,
 																			expr: &seqExpr{
-																				pos: position{line: 814, col: 5, offset: 26286},
+																				pos: position{line: 820, col: 5, offset: 26500},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2929, col: 11, offset: 92259},
+																						pos: position{line: 2935, col: 11, offset: 92473},
 																						expr: &anyMatcher{
-																							line: 2929, col: 13, offset: 92261,
+																							line: 2935, col: 13, offset: 92475,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 815, col: 5, offset: 26361},
+																						pos:   position{line: 821, col: 5, offset: 26575},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2858, col: 13, offset: 90451},
+																							pos: position{line: 2864, col: 13, offset: 90665},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2858, col: 13, offset: 90451},
+																								pos: position{line: 2864, col: 13, offset: 90665},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2858, col: 13, offset: 90451},
+																									pos:        position{line: 2864, col: 13, offset: 90665},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17213,28 +17213,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2934, col: 8, offset: 92323},
+																						pos: position{line: 2940, col: 8, offset: 92537},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2921, col: 12, offset: 92096},
+																								pos: position{line: 2927, col: 12, offset: 92310},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2921, col: 13, offset: 92097},
+																									pos: position{line: 2927, col: 13, offset: 92311},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 13, offset: 92097},
+																											pos:        position{line: 2927, col: 13, offset: 92311},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 20, offset: 92104},
+																											pos:        position{line: 2927, col: 20, offset: 92318},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 29, offset: 92113},
+																											pos:        position{line: 2927, col: 29, offset: 92327},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17243,9 +17243,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2931, col: 8, offset: 92273},
+																								pos: position{line: 2937, col: 8, offset: 92487},
 																								expr: &anyMatcher{
-																									line: 2931, col: 9, offset: 92274,
+																									line: 2937, col: 9, offset: 92488,
 																								},
 																							},
 																						},
@@ -17260,35 +17260,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 825, col: 5, offset: 26587},
+													pos: position{line: 831, col: 5, offset: 26801},
 													expr: &choiceExpr{
-														pos: position{line: 831, col: 29, offset: 26782},
+														pos: position{line: 837, col: 29, offset: 26996},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 743, col: 5, offset: 23782},
+																pos: position{line: 749, col: 5, offset: 23996},
 																run: (*parser).callonDocumentHeader199,
 																expr: &seqExpr{
-																	pos: position{line: 743, col: 5, offset: 23782},
+																	pos: position{line: 749, col: 5, offset: 23996},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 743, col: 5, offset: 23782},
+																			pos:   position{line: 749, col: 5, offset: 23996},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 743, col: 16, offset: 23793},
+																				pos: position{line: 749, col: 16, offset: 24007},
 																				run: (*parser).callonDocumentHeader202,
 																				expr: &seqExpr{
-																					pos: position{line: 743, col: 16, offset: 23793},
+																					pos: position{line: 749, col: 16, offset: 24007},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 743, col: 16, offset: 23793},
+																							pos:        position{line: 749, col: 16, offset: 24007},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 743, col: 23, offset: 23800},
+																							pos: position{line: 749, col: 23, offset: 24014},
 																							expr: &litMatcher{
-																								pos:        position{line: 743, col: 23, offset: 23800},
+																								pos:        position{line: 749, col: 23, offset: 24014},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -17299,12 +17299,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 745, col: 8, offset: 23884},
+																			pos: position{line: 751, col: 8, offset: 24098},
 																			expr: &actionExpr{
-																				pos: position{line: 2912, col: 10, offset: 91925},
+																				pos: position{line: 2918, col: 10, offset: 92139},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2912, col: 10, offset: 91925},
+																					pos:        position{line: 2918, col: 10, offset: 92139},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -17313,28 +17313,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2934, col: 8, offset: 92323},
+																			pos: position{line: 2940, col: 8, offset: 92537},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2921, col: 12, offset: 92096},
+																					pos: position{line: 2927, col: 12, offset: 92310},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2921, col: 13, offset: 92097},
+																						pos: position{line: 2927, col: 13, offset: 92311},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 13, offset: 92097},
+																								pos:        position{line: 2927, col: 13, offset: 92311},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 20, offset: 92104},
+																								pos:        position{line: 2927, col: 20, offset: 92318},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 29, offset: 92113},
+																								pos:        position{line: 2927, col: 29, offset: 92327},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -17343,9 +17343,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
@@ -17354,9 +17354,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2931, col: 8, offset: 92273},
+																pos: position{line: 2937, col: 8, offset: 92487},
 																expr: &anyMatcher{
-																	line: 2931, col: 9, offset: 92274,
+																	line: 2937, col: 9, offset: 92488,
 																},
 															},
 														},
@@ -17369,41 +17369,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1110, col: 5, offset: 34225},
+							pos:   position{line: 1116, col: 5, offset: 34439},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1110, col: 24, offset: 34244},
+								pos: position{line: 1116, col: 24, offset: 34458},
 								expr: &actionExpr{
-									pos: position{line: 1121, col: 5, offset: 34619},
+									pos: position{line: 1127, col: 5, offset: 34833},
 									run: (*parser).callonDocumentHeader222,
 									expr: &seqExpr{
-										pos: position{line: 1121, col: 5, offset: 34619},
+										pos: position{line: 1127, col: 5, offset: 34833},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1121, col: 5, offset: 34619},
+												pos: position{line: 1127, col: 5, offset: 34833},
 												expr: &litMatcher{
-													pos:        position{line: 1121, col: 6, offset: 34620},
+													pos:        position{line: 1127, col: 6, offset: 34834},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1122, col: 5, offset: 34628},
+												pos:   position{line: 1128, col: 5, offset: 34842},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1128, col: 20, offset: 34884},
+													pos: position{line: 1134, col: 20, offset: 35098},
 													run: (*parser).callonDocumentHeader227,
 													expr: &seqExpr{
-														pos: position{line: 1128, col: 20, offset: 34884},
+														pos: position{line: 1134, col: 20, offset: 35098},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1128, col: 20, offset: 34884},
+																pos: position{line: 1134, col: 20, offset: 35098},
 																expr: &actionExpr{
-																	pos: position{line: 2912, col: 10, offset: 91925},
+																	pos: position{line: 2918, col: 10, offset: 92139},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2912, col: 10, offset: 91925},
+																		pos:        position{line: 2918, col: 10, offset: 92139},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17412,37 +17412,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1128, col: 27, offset: 34891},
+																pos:   position{line: 1134, col: 27, offset: 35105},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1128, col: 36, offset: 34900},
+																	pos: position{line: 1134, col: 36, offset: 35114},
 																	expr: &actionExpr{
-																		pos: position{line: 1133, col: 5, offset: 35013},
+																		pos: position{line: 1139, col: 5, offset: 35227},
 																		run: (*parser).callonDocumentHeader234,
 																		expr: &seqExpr{
-																			pos: position{line: 1133, col: 5, offset: 35013},
+																			pos: position{line: 1139, col: 5, offset: 35227},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1133, col: 5, offset: 35013},
+																					pos:   position{line: 1139, col: 5, offset: 35227},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1133, col: 14, offset: 35022},
+																						pos: position{line: 1139, col: 14, offset: 35236},
 																						expr: &actionExpr{
-																							pos: position{line: 1144, col: 5, offset: 35402},
+																							pos: position{line: 1150, col: 5, offset: 35616},
 																							run: (*parser).callonDocumentHeader238,
 																							expr: &seqExpr{
-																								pos: position{line: 1144, col: 5, offset: 35402},
+																								pos: position{line: 1150, col: 5, offset: 35616},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1144, col: 5, offset: 35402},
+																										pos:   position{line: 1150, col: 5, offset: 35616},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1144, col: 12, offset: 35409},
+																											pos: position{line: 1150, col: 12, offset: 35623},
 																											run: (*parser).callonDocumentHeader241,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1144, col: 12, offset: 35409},
+																												pos: position{line: 1150, col: 12, offset: 35623},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1144, col: 12, offset: 35409},
+																													pos:        position{line: 1150, col: 12, offset: 35623},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -17452,12 +17452,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1147, col: 5, offset: 35489},
+																										pos: position{line: 1153, col: 5, offset: 35703},
 																										expr: &actionExpr{
-																											pos: position{line: 2912, col: 10, offset: 91925},
+																											pos: position{line: 2918, col: 10, offset: 92139},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2912, col: 10, offset: 91925},
+																												pos:        position{line: 2918, col: 10, offset: 92139},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17466,17 +17466,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1148, col: 5, offset: 35500},
+																										pos:   position{line: 1154, col: 5, offset: 35714},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1148, col: 11, offset: 35506},
+																											pos: position{line: 1154, col: 11, offset: 35720},
 																											expr: &actionExpr{
-																												pos: position{line: 1148, col: 12, offset: 35507},
+																												pos: position{line: 1154, col: 12, offset: 35721},
 																												run: (*parser).callonDocumentHeader249,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1148, col: 12, offset: 35507},
+																													pos: position{line: 1154, col: 12, offset: 35721},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1148, col: 12, offset: 35507},
+																														pos:        position{line: 1154, col: 12, offset: 35721},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -17487,12 +17487,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1151, col: 5, offset: 35588},
+																										pos: position{line: 1157, col: 5, offset: 35802},
 																										expr: &actionExpr{
-																											pos: position{line: 2912, col: 10, offset: 91925},
+																											pos: position{line: 2918, col: 10, offset: 92139},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2912, col: 10, offset: 91925},
+																												pos:        position{line: 2918, col: 10, offset: 92139},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17501,17 +17501,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1152, col: 5, offset: 35599},
+																										pos:   position{line: 1158, col: 5, offset: 35813},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1152, col: 11, offset: 35605},
+																											pos: position{line: 1158, col: 11, offset: 35819},
 																											expr: &actionExpr{
-																												pos: position{line: 1152, col: 12, offset: 35606},
+																												pos: position{line: 1158, col: 12, offset: 35820},
 																												run: (*parser).callonDocumentHeader257,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1152, col: 12, offset: 35606},
+																													pos: position{line: 1158, col: 12, offset: 35820},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1152, col: 12, offset: 35606},
+																														pos:        position{line: 1158, col: 12, offset: 35820},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -17522,12 +17522,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1155, col: 5, offset: 35685},
+																										pos: position{line: 1161, col: 5, offset: 35899},
 																										expr: &actionExpr{
-																											pos: position{line: 2912, col: 10, offset: 91925},
+																											pos: position{line: 2918, col: 10, offset: 92139},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2912, col: 10, offset: 91925},
+																												pos:        position{line: 2918, col: 10, offset: 92139},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17541,38 +17541,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1133, col: 40, offset: 35048},
+																					pos:   position{line: 1139, col: 40, offset: 35262},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1133, col: 46, offset: 35054},
+																						pos: position{line: 1139, col: 46, offset: 35268},
 																						expr: &actionExpr{
-																							pos: position{line: 1161, col: 5, offset: 35807},
+																							pos: position{line: 1167, col: 5, offset: 36021},
 																							run: (*parser).callonDocumentHeader265,
 																							expr: &seqExpr{
-																								pos: position{line: 1161, col: 5, offset: 35807},
+																								pos: position{line: 1167, col: 5, offset: 36021},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2929, col: 11, offset: 92259},
+																										pos: position{line: 2935, col: 11, offset: 92473},
 																										expr: &anyMatcher{
-																											line: 2929, col: 13, offset: 92261,
+																											line: 2935, col: 13, offset: 92475,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1162, col: 5, offset: 35819},
+																										pos:        position{line: 1168, col: 5, offset: 36033},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1163, col: 5, offset: 35828},
+																										pos:   position{line: 1169, col: 5, offset: 36042},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1163, col: 12, offset: 35835},
+																											pos: position{line: 1169, col: 12, offset: 36049},
 																											run: (*parser).callonDocumentHeader271,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1163, col: 13, offset: 35836},
+																												pos: position{line: 1169, col: 13, offset: 36050},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1163, col: 13, offset: 35836},
+																													pos:        position{line: 1169, col: 13, offset: 36050},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -17582,7 +17582,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1166, col: 5, offset: 35896},
+																										pos:        position{line: 1172, col: 5, offset: 36110},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -17593,12 +17593,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1133, col: 69, offset: 35077},
+																					pos: position{line: 1139, col: 69, offset: 35291},
 																					expr: &actionExpr{
-																						pos: position{line: 2912, col: 10, offset: 91925},
+																						pos: position{line: 2918, col: 10, offset: 92139},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2912, col: 10, offset: 91925},
+																							pos:        position{line: 2918, col: 10, offset: 92139},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17607,21 +17607,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1133, col: 76, offset: 35084},
+																					pos: position{line: 1139, col: 76, offset: 35298},
 																					expr: &litMatcher{
-																						pos:        position{line: 1133, col: 76, offset: 35084},
+																						pos:        position{line: 1139, col: 76, offset: 35298},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1133, col: 81, offset: 35089},
+																					pos: position{line: 1139, col: 81, offset: 35303},
 																					expr: &actionExpr{
-																						pos: position{line: 2912, col: 10, offset: 91925},
+																						pos: position{line: 2918, col: 10, offset: 92139},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2912, col: 10, offset: 91925},
+																							pos:        position{line: 2918, col: 10, offset: 92139},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17630,7 +17630,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1134, col: 5, offset: 35101},
+																					pos: position{line: 1140, col: 5, offset: 35315},
 																					run: (*parser).callonDocumentHeader283,
 																				},
 																			},
@@ -17639,28 +17639,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2934, col: 8, offset: 92323},
+																pos: position{line: 2940, col: 8, offset: 92537},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2921, col: 12, offset: 92096},
+																		pos: position{line: 2927, col: 12, offset: 92310},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2921, col: 13, offset: 92097},
+																			pos: position{line: 2927, col: 13, offset: 92311},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2921, col: 13, offset: 92097},
+																					pos:        position{line: 2927, col: 13, offset: 92311},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2921, col: 20, offset: 92104},
+																					pos:        position{line: 2927, col: 20, offset: 92318},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2921, col: 29, offset: 92113},
+																					pos:        position{line: 2927, col: 29, offset: 92327},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17669,9 +17669,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2931, col: 8, offset: 92273},
+																		pos: position{line: 2937, col: 8, offset: 92487},
 																		expr: &anyMatcher{
-																			line: 2931, col: 9, offset: 92274,
+																			line: 2937, col: 9, offset: 92488,
 																		},
 																	},
 																},
@@ -17681,41 +17681,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1123, col: 5, offset: 34658},
+												pos: position{line: 1129, col: 5, offset: 34872},
 												expr: &choiceExpr{
-													pos: position{line: 1123, col: 6, offset: 34659},
+													pos: position{line: 1129, col: 6, offset: 34873},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2515, col: 22, offset: 80703},
+															pos: position{line: 2521, col: 22, offset: 80917},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2515, col: 22, offset: 80703},
+																pos: position{line: 2521, col: 22, offset: 80917},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2520, col: 31, offset: 80953},
+																		pos:        position{line: 2526, col: 31, offset: 81167},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2520, col: 36, offset: 80958},
+																		pos: position{line: 2526, col: 36, offset: 81172},
 																		expr: &litMatcher{
-																			pos:        position{line: 2520, col: 37, offset: 80959},
+																			pos:        position{line: 2526, col: 37, offset: 81173},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2515, col: 49, offset: 80730},
+																		pos:   position{line: 2521, col: 49, offset: 80944},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2858, col: 13, offset: 90451},
+																			pos: position{line: 2864, col: 13, offset: 90665},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2858, col: 13, offset: 90451},
+																				pos: position{line: 2864, col: 13, offset: 90665},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2858, col: 13, offset: 90451},
+																					pos:        position{line: 2864, col: 13, offset: 90665},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17725,28 +17725,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2934, col: 8, offset: 92323},
+																		pos: position{line: 2940, col: 8, offset: 92537},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17755,9 +17755,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2931, col: 8, offset: 92273},
+																				pos: position{line: 2937, col: 8, offset: 92487},
 																				expr: &anyMatcher{
-																					line: 2931, col: 9, offset: 92274,
+																					line: 2937, col: 9, offset: 92488,
 																				},
 																			},
 																		},
@@ -17766,36 +17766,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 823, col: 5, offset: 26522},
+															pos: position{line: 829, col: 5, offset: 26736},
 															run: (*parser).callonDocumentHeader311,
 															expr: &seqExpr{
-																pos: position{line: 823, col: 5, offset: 26522},
+																pos: position{line: 829, col: 5, offset: 26736},
 																exprs: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 743, col: 5, offset: 23782},
+																		pos: position{line: 749, col: 5, offset: 23996},
 																		run: (*parser).callonDocumentHeader313,
 																		expr: &seqExpr{
-																			pos: position{line: 743, col: 5, offset: 23782},
+																			pos: position{line: 749, col: 5, offset: 23996},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 743, col: 5, offset: 23782},
+																					pos:   position{line: 749, col: 5, offset: 23996},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 743, col: 16, offset: 23793},
+																						pos: position{line: 749, col: 16, offset: 24007},
 																						run: (*parser).callonDocumentHeader316,
 																						expr: &seqExpr{
-																							pos: position{line: 743, col: 16, offset: 23793},
+																							pos: position{line: 749, col: 16, offset: 24007},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 743, col: 16, offset: 23793},
+																									pos:        position{line: 749, col: 16, offset: 24007},
 																									val:        "////",
 																									ignoreCase: false,
 																									want:       "\"////\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 743, col: 23, offset: 23800},
+																									pos: position{line: 749, col: 23, offset: 24014},
 																									expr: &litMatcher{
-																										pos:        position{line: 743, col: 23, offset: 23800},
+																										pos:        position{line: 749, col: 23, offset: 24014},
 																										val:        "/",
 																										ignoreCase: false,
 																										want:       "\"/\"",
@@ -17806,12 +17806,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 745, col: 8, offset: 23884},
+																					pos: position{line: 751, col: 8, offset: 24098},
 																					expr: &actionExpr{
-																						pos: position{line: 2912, col: 10, offset: 91925},
+																						pos: position{line: 2918, col: 10, offset: 92139},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2912, col: 10, offset: 91925},
+																							pos:        position{line: 2918, col: 10, offset: 92139},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17820,28 +17820,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2934, col: 8, offset: 92323},
+																					pos: position{line: 2940, col: 8, offset: 92537},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2921, col: 12, offset: 92096},
+																							pos: position{line: 2927, col: 12, offset: 92310},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2921, col: 13, offset: 92097},
+																								pos: position{line: 2927, col: 13, offset: 92311},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 13, offset: 92097},
+																										pos:        position{line: 2927, col: 13, offset: 92311},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 20, offset: 92104},
+																										pos:        position{line: 2927, col: 20, offset: 92318},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 29, offset: 92113},
+																										pos:        position{line: 2927, col: 29, offset: 92327},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17850,9 +17850,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2931, col: 8, offset: 92273},
+																							pos: position{line: 2937, col: 8, offset: 92487},
 																							expr: &anyMatcher{
-																								line: 2931, col: 9, offset: 92274,
+																								line: 2937, col: 9, offset: 92488,
 																							},
 																						},
 																					},
@@ -17861,46 +17861,46 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 824, col: 5, offset: 26553},
+																		pos:   position{line: 830, col: 5, offset: 26767},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 834, col: 5, offset: 26839},
+																			pos: position{line: 840, col: 5, offset: 27053},
 																			expr: &actionExpr{
-																				pos: position{line: 834, col: 6, offset: 26840},
+																				pos: position{line: 840, col: 6, offset: 27054},
 																				run: (*parser).callonDocumentHeader334,
 																				expr: &seqExpr{
-																					pos: position{line: 834, col: 6, offset: 26840},
+																					pos: position{line: 840, col: 6, offset: 27054},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 834, col: 6, offset: 26840},
+																							pos: position{line: 840, col: 6, offset: 27054},
 																							expr: &choiceExpr{
-																								pos: position{line: 831, col: 29, offset: 26782},
+																								pos: position{line: 837, col: 29, offset: 26996},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 743, col: 5, offset: 23782},
+																										pos: position{line: 749, col: 5, offset: 23996},
 																										run: (*parser).callonDocumentHeader338,
 																										expr: &seqExpr{
-																											pos: position{line: 743, col: 5, offset: 23782},
+																											pos: position{line: 749, col: 5, offset: 23996},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 743, col: 5, offset: 23782},
+																													pos:   position{line: 749, col: 5, offset: 23996},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 743, col: 16, offset: 23793},
+																														pos: position{line: 749, col: 16, offset: 24007},
 																														run: (*parser).callonDocumentHeader341,
 																														expr: &seqExpr{
-																															pos: position{line: 743, col: 16, offset: 23793},
+																															pos: position{line: 749, col: 16, offset: 24007},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 743, col: 16, offset: 23793},
+																																	pos:        position{line: 749, col: 16, offset: 24007},
 																																	val:        "////",
 																																	ignoreCase: false,
 																																	want:       "\"////\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 743, col: 23, offset: 23800},
+																																	pos: position{line: 749, col: 23, offset: 24014},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 743, col: 23, offset: 23800},
+																																		pos:        position{line: 749, col: 23, offset: 24014},
 																																		val:        "/",
 																																		ignoreCase: false,
 																																		want:       "\"/\"",
@@ -17911,12 +17911,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 745, col: 8, offset: 23884},
+																													pos: position{line: 751, col: 8, offset: 24098},
 																													expr: &actionExpr{
-																														pos: position{line: 2912, col: 10, offset: 91925},
+																														pos: position{line: 2918, col: 10, offset: 92139},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2912, col: 10, offset: 91925},
+																															pos:        position{line: 2918, col: 10, offset: 92139},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17925,28 +17925,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2934, col: 8, offset: 92323},
+																													pos: position{line: 2940, col: 8, offset: 92537},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2921, col: 12, offset: 92096},
+																															pos: position{line: 2927, col: 12, offset: 92310},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2921, col: 13, offset: 92097},
+																																pos: position{line: 2927, col: 13, offset: 92311},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2921, col: 13, offset: 92097},
+																																		pos:        position{line: 2927, col: 13, offset: 92311},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2921, col: 20, offset: 92104},
+																																		pos:        position{line: 2927, col: 20, offset: 92318},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2921, col: 29, offset: 92113},
+																																		pos:        position{line: 2927, col: 29, offset: 92327},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17955,9 +17955,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2931, col: 8, offset: 92273},
+																															pos: position{line: 2937, col: 8, offset: 92487},
 																															expr: &anyMatcher{
-																																line: 2931, col: 9, offset: 92274,
+																																line: 2937, col: 9, offset: 92488,
 																															},
 																														},
 																													},
@@ -17966,39 +17966,39 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2931, col: 8, offset: 92273},
+																										pos: position{line: 2937, col: 8, offset: 92487},
 																										expr: &anyMatcher{
-																											line: 2931, col: 9, offset: 92274,
+																											line: 2937, col: 9, offset: 92488,
 																										},
 																									},
 																								},
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 835, col: 5, offset: 26870},
+																							pos:   position{line: 841, col: 5, offset: 27084},
 																							label: "line",
 																							expr: &actionExpr{
-																								pos: position{line: 814, col: 5, offset: 26286},
+																								pos: position{line: 820, col: 5, offset: 26500},
 																								run: (*parser).callonDocumentHeader360,
 																								expr: &seqExpr{
-																									pos: position{line: 814, col: 5, offset: 26286},
+																									pos: position{line: 820, col: 5, offset: 26500},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2929, col: 11, offset: 92259},
+																											pos: position{line: 2935, col: 11, offset: 92473},
 																											expr: &anyMatcher{
-																												line: 2929, col: 13, offset: 92261,
+																												line: 2935, col: 13, offset: 92475,
 																											},
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 815, col: 5, offset: 26361},
+																											pos:   position{line: 821, col: 5, offset: 26575},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2858, col: 13, offset: 90451},
+																												pos: position{line: 2864, col: 13, offset: 90665},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2858, col: 13, offset: 90451},
+																													pos: position{line: 2864, col: 13, offset: 90665},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2858, col: 13, offset: 90451},
+																														pos:        position{line: 2864, col: 13, offset: 90665},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18008,28 +18008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2934, col: 8, offset: 92323},
+																											pos: position{line: 2940, col: 8, offset: 92537},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2921, col: 12, offset: 92096},
+																													pos: position{line: 2927, col: 12, offset: 92310},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2921, col: 13, offset: 92097},
+																														pos: position{line: 2927, col: 13, offset: 92311},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 13, offset: 92097},
+																																pos:        position{line: 2927, col: 13, offset: 92311},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 20, offset: 92104},
+																																pos:        position{line: 2927, col: 20, offset: 92318},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 29, offset: 92113},
+																																pos:        position{line: 2927, col: 29, offset: 92327},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18038,9 +18038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2931, col: 8, offset: 92273},
+																													pos: position{line: 2937, col: 8, offset: 92487},
 																													expr: &anyMatcher{
-																														line: 2931, col: 9, offset: 92274,
+																														line: 2937, col: 9, offset: 92488,
 																													},
 																												},
 																											},
@@ -18055,35 +18055,35 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrOneExpr{
-																		pos: position{line: 825, col: 5, offset: 26587},
+																		pos: position{line: 831, col: 5, offset: 26801},
 																		expr: &choiceExpr{
-																			pos: position{line: 831, col: 29, offset: 26782},
+																			pos: position{line: 837, col: 29, offset: 26996},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 743, col: 5, offset: 23782},
+																					pos: position{line: 749, col: 5, offset: 23996},
 																					run: (*parser).callonDocumentHeader378,
 																					expr: &seqExpr{
-																						pos: position{line: 743, col: 5, offset: 23782},
+																						pos: position{line: 749, col: 5, offset: 23996},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 743, col: 5, offset: 23782},
+																								pos:   position{line: 749, col: 5, offset: 23996},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 743, col: 16, offset: 23793},
+																									pos: position{line: 749, col: 16, offset: 24007},
 																									run: (*parser).callonDocumentHeader381,
 																									expr: &seqExpr{
-																										pos: position{line: 743, col: 16, offset: 23793},
+																										pos: position{line: 749, col: 16, offset: 24007},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 743, col: 16, offset: 23793},
+																												pos:        position{line: 749, col: 16, offset: 24007},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 743, col: 23, offset: 23800},
+																												pos: position{line: 749, col: 23, offset: 24014},
 																												expr: &litMatcher{
-																													pos:        position{line: 743, col: 23, offset: 23800},
+																													pos:        position{line: 749, col: 23, offset: 24014},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -18094,12 +18094,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 745, col: 8, offset: 23884},
+																								pos: position{line: 751, col: 8, offset: 24098},
 																								expr: &actionExpr{
-																									pos: position{line: 2912, col: 10, offset: 91925},
+																									pos: position{line: 2918, col: 10, offset: 92139},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2912, col: 10, offset: 91925},
+																										pos:        position{line: 2918, col: 10, offset: 92139},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -18108,28 +18108,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2934, col: 8, offset: 92323},
+																								pos: position{line: 2940, col: 8, offset: 92537},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2921, col: 12, offset: 92096},
+																										pos: position{line: 2927, col: 12, offset: 92310},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2921, col: 13, offset: 92097},
+																											pos: position{line: 2927, col: 13, offset: 92311},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 13, offset: 92097},
+																													pos:        position{line: 2927, col: 13, offset: 92311},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 20, offset: 92104},
+																													pos:        position{line: 2927, col: 20, offset: 92318},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 29, offset: 92113},
+																													pos:        position{line: 2927, col: 29, offset: 92327},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -18138,9 +18138,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2931, col: 8, offset: 92273},
+																										pos: position{line: 2937, col: 8, offset: 92487},
 																										expr: &anyMatcher{
-																											line: 2931, col: 9, offset: 92274,
+																											line: 2937, col: 9, offset: 92488,
 																										},
 																									},
 																								},
@@ -18149,9 +18149,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
@@ -18164,23 +18164,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1124, col: 5, offset: 34733},
+												pos:   position{line: 1130, col: 5, offset: 34947},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1124, col: 14, offset: 34742},
+													pos: position{line: 1130, col: 14, offset: 34956},
 													expr: &actionExpr{
-														pos: position{line: 1172, col: 21, offset: 36085},
+														pos: position{line: 1178, col: 21, offset: 36299},
 														run: (*parser).callonDocumentHeader401,
 														expr: &seqExpr{
-															pos: position{line: 1172, col: 21, offset: 36085},
+															pos: position{line: 1178, col: 21, offset: 36299},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1172, col: 21, offset: 36085},
+																	pos: position{line: 1178, col: 21, offset: 36299},
 																	expr: &actionExpr{
-																		pos: position{line: 2912, col: 10, offset: 91925},
+																		pos: position{line: 2918, col: 10, offset: 92139},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2912, col: 10, offset: 91925},
+																			pos:        position{line: 2918, col: 10, offset: 92139},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18189,55 +18189,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1172, col: 28, offset: 36092},
+																	pos: position{line: 1178, col: 28, offset: 36306},
 																	expr: &litMatcher{
-																		pos:        position{line: 1172, col: 29, offset: 36093},
+																		pos:        position{line: 1178, col: 29, offset: 36307},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1172, col: 33, offset: 36097},
+																	pos:   position{line: 1178, col: 33, offset: 36311},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1173, col: 9, offset: 36116},
+																		pos: position{line: 1179, col: 9, offset: 36330},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1173, col: 10, offset: 36117},
+																				pos: position{line: 1179, col: 10, offset: 36331},
 																				run: (*parser).callonDocumentHeader410,
 																				expr: &seqExpr{
-																					pos: position{line: 1173, col: 10, offset: 36117},
+																					pos: position{line: 1179, col: 10, offset: 36331},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1173, col: 10, offset: 36117},
+																							pos:   position{line: 1179, col: 10, offset: 36331},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1182, col: 27, offset: 36634},
+																								pos: position{line: 1188, col: 27, offset: 36848},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1182, col: 27, offset: 36634},
+																										pos: position{line: 1188, col: 27, offset: 36848},
 																										run: (*parser).callonDocumentHeader414,
 																										expr: &seqExpr{
-																											pos: position{line: 1182, col: 27, offset: 36634},
+																											pos: position{line: 1188, col: 27, offset: 36848},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1182, col: 27, offset: 36634},
+																													pos:        position{line: 1188, col: 27, offset: 36848},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1182, col: 32, offset: 36639},
+																													pos:        position{line: 1188, col: 32, offset: 36853},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1182, col: 38, offset: 36645},
+																													pos: position{line: 1188, col: 38, offset: 36859},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1182, col: 38, offset: 36645},
+																														pos:        position{line: 1188, col: 38, offset: 36859},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18248,31 +18248,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1184, col: 5, offset: 36693},
+																										pos: position{line: 1190, col: 5, offset: 36907},
 																										run: (*parser).callonDocumentHeader420,
 																										expr: &seqExpr{
-																											pos: position{line: 1184, col: 5, offset: 36693},
+																											pos: position{line: 1190, col: 5, offset: 36907},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1184, col: 5, offset: 36693},
+																													pos: position{line: 1190, col: 5, offset: 36907},
 																													expr: &litMatcher{
-																														pos:        position{line: 1184, col: 5, offset: 36693},
+																														pos:        position{line: 1190, col: 5, offset: 36907},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1184, col: 11, offset: 36699},
+																													pos:        position{line: 1190, col: 11, offset: 36913},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1184, col: 17, offset: 36705},
+																													pos: position{line: 1190, col: 17, offset: 36919},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1184, col: 17, offset: 36705},
+																														pos:        position{line: 1190, col: 17, offset: 36919},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18280,12 +18280,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1184, col: 28, offset: 36716},
+																													pos: position{line: 1190, col: 28, offset: 36930},
 																													expr: &actionExpr{
-																														pos: position{line: 2912, col: 10, offset: 91925},
+																														pos: position{line: 2918, col: 10, offset: 92139},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2912, col: 10, offset: 91925},
+																															pos:        position{line: 2918, col: 10, offset: 92139},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18294,9 +18294,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1184, col: 35, offset: 36723},
+																													pos: position{line: 1190, col: 35, offset: 36937},
 																													expr: &litMatcher{
-																														pos:        position{line: 1184, col: 36, offset: 36724},
+																														pos:        position{line: 1190, col: 36, offset: 36938},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -18309,26 +18309,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1173, col: 45, offset: 36152},
+																							pos: position{line: 1179, col: 45, offset: 36366},
 																							expr: &litMatcher{
-																								pos:        position{line: 1173, col: 45, offset: 36152},
+																								pos:        position{line: 1179, col: 45, offset: 36366},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1173, col: 50, offset: 36157},
+																							pos:   position{line: 1179, col: 50, offset: 36371},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1173, col: 58, offset: 36165},
+																								pos: position{line: 1179, col: 58, offset: 36379},
 																								expr: &actionExpr{
-																									pos: position{line: 1188, col: 25, offset: 36788},
+																									pos: position{line: 1194, col: 25, offset: 37002},
 																									run: (*parser).callonDocumentHeader436,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1188, col: 25, offset: 36788},
+																										pos: position{line: 1194, col: 25, offset: 37002},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1188, col: 25, offset: 36788},
+																											pos:        position{line: 1194, col: 25, offset: 37002},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -18339,26 +18339,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1173, col: 82, offset: 36189},
+																							pos: position{line: 1179, col: 82, offset: 36403},
 																							expr: &litMatcher{
-																								pos:        position{line: 1173, col: 82, offset: 36189},
+																								pos:        position{line: 1179, col: 82, offset: 36403},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1173, col: 87, offset: 36194},
+																							pos:   position{line: 1179, col: 87, offset: 36408},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1173, col: 97, offset: 36204},
+																								pos: position{line: 1179, col: 97, offset: 36418},
 																								expr: &actionExpr{
-																									pos: position{line: 1192, col: 27, offset: 36860},
+																									pos: position{line: 1198, col: 27, offset: 37074},
 																									run: (*parser).callonDocumentHeader443,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1192, col: 27, offset: 36860},
+																										pos: position{line: 1198, col: 27, offset: 37074},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1192, col: 27, offset: 36860},
+																											pos:        position{line: 1198, col: 27, offset: 37074},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18372,21 +18372,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1175, col: 15, offset: 36322},
+																				pos: position{line: 1181, col: 15, offset: 36536},
 																				run: (*parser).callonDocumentHeader446,
 																				expr: &seqExpr{
-																					pos: position{line: 1175, col: 15, offset: 36322},
+																					pos: position{line: 1181, col: 15, offset: 36536},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1175, col: 15, offset: 36322},
+																							pos:   position{line: 1181, col: 15, offset: 36536},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1188, col: 25, offset: 36788},
+																								pos: position{line: 1194, col: 25, offset: 37002},
 																								run: (*parser).callonDocumentHeader449,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1188, col: 25, offset: 36788},
+																									pos: position{line: 1194, col: 25, offset: 37002},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1188, col: 25, offset: 36788},
+																										pos:        position{line: 1194, col: 25, offset: 37002},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -18396,26 +18396,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1175, col: 46, offset: 36353},
+																							pos: position{line: 1181, col: 46, offset: 36567},
 																							expr: &litMatcher{
-																								pos:        position{line: 1175, col: 46, offset: 36353},
+																								pos:        position{line: 1181, col: 46, offset: 36567},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1175, col: 51, offset: 36358},
+																							pos:   position{line: 1181, col: 51, offset: 36572},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1175, col: 61, offset: 36368},
+																								pos: position{line: 1181, col: 61, offset: 36582},
 																								expr: &actionExpr{
-																									pos: position{line: 1192, col: 27, offset: 36860},
+																									pos: position{line: 1198, col: 27, offset: 37074},
 																									run: (*parser).callonDocumentHeader456,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1192, col: 27, offset: 36860},
+																										pos: position{line: 1198, col: 27, offset: 37074},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1192, col: 27, offset: 36860},
+																											pos:        position{line: 1198, col: 27, offset: 37074},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18432,28 +18432,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2934, col: 8, offset: 92323},
+																	pos: position{line: 2940, col: 8, offset: 92537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2921, col: 12, offset: 92096},
+																			pos: position{line: 2927, col: 12, offset: 92310},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2921, col: 13, offset: 92097},
+																				pos: position{line: 2927, col: 13, offset: 92311},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 13, offset: 92097},
+																						pos:        position{line: 2927, col: 13, offset: 92311},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 20, offset: 92104},
+																						pos:        position{line: 2927, col: 20, offset: 92318},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 29, offset: 92113},
+																						pos:        position{line: 2927, col: 29, offset: 92327},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18462,9 +18462,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2931, col: 8, offset: 92273},
+																			pos: position{line: 2937, col: 8, offset: 92487},
 																			expr: &anyMatcher{
-																				line: 2931, col: 9, offset: 92274,
+																				line: 2937, col: 9, offset: 92488,
 																			},
 																		},
 																	},
@@ -18480,15 +18480,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1111, col: 5, offset: 34279},
+							pos:   position{line: 1117, col: 5, offset: 34493},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1111, col: 19, offset: 34293},
+								pos: position{line: 1117, col: 19, offset: 34507},
 								expr: &choiceExpr{
-									pos: position{line: 1111, col: 20, offset: 34294},
+									pos: position{line: 1117, col: 20, offset: 34508},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1111, col: 20, offset: 34294},
+											pos:  position{line: 1117, col: 20, offset: 34508},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
@@ -18544,10 +18544,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 49, offset: 11041},
 														expr: &actionExpr{
-															pos: position{line: 2912, col: 10, offset: 91925},
+															pos: position{line: 2918, col: 10, offset: 92139},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2912, col: 10, offset: 91925},
+																pos:        position{line: 2918, col: 10, offset: 92139},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18556,28 +18556,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2934, col: 8, offset: 92323},
+														pos: position{line: 2940, col: 8, offset: 92537},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2921, col: 12, offset: 92096},
+																pos: position{line: 2927, col: 12, offset: 92310},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2921, col: 13, offset: 92097},
+																	pos: position{line: 2927, col: 13, offset: 92311},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 13, offset: 92097},
+																			pos:        position{line: 2927, col: 13, offset: 92311},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 20, offset: 92104},
+																			pos:        position{line: 2927, col: 20, offset: 92318},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 29, offset: 92113},
+																			pos:        position{line: 2927, col: 29, offset: 92327},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18586,9 +18586,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2931, col: 8, offset: 92273},
+																pos: position{line: 2937, col: 8, offset: 92487},
 																expr: &anyMatcher{
-																	line: 2931, col: 9, offset: 92274,
+																	line: 2937, col: 9, offset: 92488,
 																},
 															},
 														},
@@ -18649,10 +18649,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 364, col: 39, offset: 11162},
 														expr: &actionExpr{
-															pos: position{line: 2912, col: 10, offset: 91925},
+															pos: position{line: 2918, col: 10, offset: 92139},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2912, col: 10, offset: 91925},
+																pos:        position{line: 2918, col: 10, offset: 92139},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18661,28 +18661,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2934, col: 8, offset: 92323},
+														pos: position{line: 2940, col: 8, offset: 92537},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2921, col: 12, offset: 92096},
+																pos: position{line: 2927, col: 12, offset: 92310},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2921, col: 13, offset: 92097},
+																	pos: position{line: 2927, col: 13, offset: 92311},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 13, offset: 92097},
+																			pos:        position{line: 2927, col: 13, offset: 92311},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 20, offset: 92104},
+																			pos:        position{line: 2927, col: 20, offset: 92318},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 29, offset: 92113},
+																			pos:        position{line: 2927, col: 29, offset: 92327},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18691,9 +18691,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2931, col: 8, offset: 92273},
+																pos: position{line: 2937, col: 8, offset: 92487},
 																expr: &anyMatcher{
-																	line: 2931, col: 9, offset: 92274,
+																	line: 2937, col: 9, offset: 92488,
 																},
 															},
 														},
@@ -18702,36 +18702,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2515, col: 22, offset: 80703},
+											pos: position{line: 2521, col: 22, offset: 80917},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2515, col: 22, offset: 80703},
+												pos: position{line: 2521, col: 22, offset: 80917},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2520, col: 31, offset: 80953},
+														pos:        position{line: 2526, col: 31, offset: 81167},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2520, col: 36, offset: 80958},
+														pos: position{line: 2526, col: 36, offset: 81172},
 														expr: &litMatcher{
-															pos:        position{line: 2520, col: 37, offset: 80959},
+															pos:        position{line: 2526, col: 37, offset: 81173},
 															val:        "/",
 															ignoreCase: false,
 															want:       "\"/\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2515, col: 49, offset: 80730},
+														pos:   position{line: 2521, col: 49, offset: 80944},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2858, col: 13, offset: 90451},
+															pos: position{line: 2864, col: 13, offset: 90665},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2858, col: 13, offset: 90451},
+																pos: position{line: 2864, col: 13, offset: 90665},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2858, col: 13, offset: 90451},
+																	pos:        position{line: 2864, col: 13, offset: 90665},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18741,28 +18741,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2934, col: 8, offset: 92323},
+														pos: position{line: 2940, col: 8, offset: 92537},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2921, col: 12, offset: 92096},
+																pos: position{line: 2927, col: 12, offset: 92310},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2921, col: 13, offset: 92097},
+																	pos: position{line: 2927, col: 13, offset: 92311},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 13, offset: 92097},
+																			pos:        position{line: 2927, col: 13, offset: 92311},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 20, offset: 92104},
+																			pos:        position{line: 2927, col: 20, offset: 92318},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 29, offset: 92113},
+																			pos:        position{line: 2927, col: 29, offset: 92327},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18771,9 +18771,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2931, col: 8, offset: 92273},
+																pos: position{line: 2937, col: 8, offset: 92487},
 																expr: &anyMatcher{
-																	line: 2931, col: 9, offset: 92274,
+																	line: 2937, col: 9, offset: 92488,
 																},
 															},
 														},
@@ -18782,36 +18782,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 823, col: 5, offset: 26522},
+											pos: position{line: 829, col: 5, offset: 26736},
 											run: (*parser).callonDocumentHeader530,
 											expr: &seqExpr{
-												pos: position{line: 823, col: 5, offset: 26522},
+												pos: position{line: 829, col: 5, offset: 26736},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 743, col: 5, offset: 23782},
+														pos: position{line: 749, col: 5, offset: 23996},
 														run: (*parser).callonDocumentHeader532,
 														expr: &seqExpr{
-															pos: position{line: 743, col: 5, offset: 23782},
+															pos: position{line: 749, col: 5, offset: 23996},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 743, col: 5, offset: 23782},
+																	pos:   position{line: 749, col: 5, offset: 23996},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 743, col: 16, offset: 23793},
+																		pos: position{line: 749, col: 16, offset: 24007},
 																		run: (*parser).callonDocumentHeader535,
 																		expr: &seqExpr{
-																			pos: position{line: 743, col: 16, offset: 23793},
+																			pos: position{line: 749, col: 16, offset: 24007},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 743, col: 16, offset: 23793},
+																					pos:        position{line: 749, col: 16, offset: 24007},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 743, col: 23, offset: 23800},
+																					pos: position{line: 749, col: 23, offset: 24014},
 																					expr: &litMatcher{
-																						pos:        position{line: 743, col: 23, offset: 23800},
+																						pos:        position{line: 749, col: 23, offset: 24014},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -18822,12 +18822,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 745, col: 8, offset: 23884},
+																	pos: position{line: 751, col: 8, offset: 24098},
 																	expr: &actionExpr{
-																		pos: position{line: 2912, col: 10, offset: 91925},
+																		pos: position{line: 2918, col: 10, offset: 92139},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2912, col: 10, offset: 91925},
+																			pos:        position{line: 2918, col: 10, offset: 92139},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18836,28 +18836,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2934, col: 8, offset: 92323},
+																	pos: position{line: 2940, col: 8, offset: 92537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2921, col: 12, offset: 92096},
+																			pos: position{line: 2927, col: 12, offset: 92310},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2921, col: 13, offset: 92097},
+																				pos: position{line: 2927, col: 13, offset: 92311},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 13, offset: 92097},
+																						pos:        position{line: 2927, col: 13, offset: 92311},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 20, offset: 92104},
+																						pos:        position{line: 2927, col: 20, offset: 92318},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 29, offset: 92113},
+																						pos:        position{line: 2927, col: 29, offset: 92327},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18866,9 +18866,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2931, col: 8, offset: 92273},
+																			pos: position{line: 2937, col: 8, offset: 92487},
 																			expr: &anyMatcher{
-																				line: 2931, col: 9, offset: 92274,
+																				line: 2937, col: 9, offset: 92488,
 																			},
 																		},
 																	},
@@ -18877,46 +18877,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 824, col: 5, offset: 26553},
+														pos:   position{line: 830, col: 5, offset: 26767},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 834, col: 5, offset: 26839},
+															pos: position{line: 840, col: 5, offset: 27053},
 															expr: &actionExpr{
-																pos: position{line: 834, col: 6, offset: 26840},
+																pos: position{line: 840, col: 6, offset: 27054},
 																run: (*parser).callonDocumentHeader553,
 																expr: &seqExpr{
-																	pos: position{line: 834, col: 6, offset: 26840},
+																	pos: position{line: 840, col: 6, offset: 27054},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 834, col: 6, offset: 26840},
+																			pos: position{line: 840, col: 6, offset: 27054},
 																			expr: &choiceExpr{
-																				pos: position{line: 831, col: 29, offset: 26782},
+																				pos: position{line: 837, col: 29, offset: 26996},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 743, col: 5, offset: 23782},
+																						pos: position{line: 749, col: 5, offset: 23996},
 																						run: (*parser).callonDocumentHeader557,
 																						expr: &seqExpr{
-																							pos: position{line: 743, col: 5, offset: 23782},
+																							pos: position{line: 749, col: 5, offset: 23996},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 743, col: 5, offset: 23782},
+																									pos:   position{line: 749, col: 5, offset: 23996},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 743, col: 16, offset: 23793},
+																										pos: position{line: 749, col: 16, offset: 24007},
 																										run: (*parser).callonDocumentHeader560,
 																										expr: &seqExpr{
-																											pos: position{line: 743, col: 16, offset: 23793},
+																											pos: position{line: 749, col: 16, offset: 24007},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 743, col: 16, offset: 23793},
+																													pos:        position{line: 749, col: 16, offset: 24007},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 743, col: 23, offset: 23800},
+																													pos: position{line: 749, col: 23, offset: 24014},
 																													expr: &litMatcher{
-																														pos:        position{line: 743, col: 23, offset: 23800},
+																														pos:        position{line: 749, col: 23, offset: 24014},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -18927,12 +18927,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 745, col: 8, offset: 23884},
+																									pos: position{line: 751, col: 8, offset: 24098},
 																									expr: &actionExpr{
-																										pos: position{line: 2912, col: 10, offset: 91925},
+																										pos: position{line: 2918, col: 10, offset: 92139},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2912, col: 10, offset: 91925},
+																											pos:        position{line: 2918, col: 10, offset: 92139},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18941,28 +18941,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2934, col: 8, offset: 92323},
+																									pos: position{line: 2940, col: 8, offset: 92537},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2921, col: 12, offset: 92096},
+																											pos: position{line: 2927, col: 12, offset: 92310},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2921, col: 13, offset: 92097},
+																												pos: position{line: 2927, col: 13, offset: 92311},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 13, offset: 92097},
+																														pos:        position{line: 2927, col: 13, offset: 92311},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 20, offset: 92104},
+																														pos:        position{line: 2927, col: 20, offset: 92318},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 29, offset: 92113},
+																														pos:        position{line: 2927, col: 29, offset: 92327},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18971,9 +18971,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2931, col: 8, offset: 92273},
+																											pos: position{line: 2937, col: 8, offset: 92487},
 																											expr: &anyMatcher{
-																												line: 2931, col: 9, offset: 92274,
+																												line: 2937, col: 9, offset: 92488,
 																											},
 																										},
 																									},
@@ -18982,39 +18982,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2931, col: 8, offset: 92273},
+																						pos: position{line: 2937, col: 8, offset: 92487},
 																						expr: &anyMatcher{
-																							line: 2931, col: 9, offset: 92274,
+																							line: 2937, col: 9, offset: 92488,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 835, col: 5, offset: 26870},
+																			pos:   position{line: 841, col: 5, offset: 27084},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 814, col: 5, offset: 26286},
+																				pos: position{line: 820, col: 5, offset: 26500},
 																				run: (*parser).callonDocumentHeader579,
 																				expr: &seqExpr{
-																					pos: position{line: 814, col: 5, offset: 26286},
+																					pos: position{line: 820, col: 5, offset: 26500},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2929, col: 11, offset: 92259},
+																							pos: position{line: 2935, col: 11, offset: 92473},
 																							expr: &anyMatcher{
-																								line: 2929, col: 13, offset: 92261,
+																								line: 2935, col: 13, offset: 92475,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 815, col: 5, offset: 26361},
+																							pos:   position{line: 821, col: 5, offset: 26575},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2858, col: 13, offset: 90451},
+																								pos: position{line: 2864, col: 13, offset: 90665},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2858, col: 13, offset: 90451},
+																									pos: position{line: 2864, col: 13, offset: 90665},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2858, col: 13, offset: 90451},
+																										pos:        position{line: 2864, col: 13, offset: 90665},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19024,28 +19024,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19054,9 +19054,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -19071,35 +19071,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 825, col: 5, offset: 26587},
+														pos: position{line: 831, col: 5, offset: 26801},
 														expr: &choiceExpr{
-															pos: position{line: 831, col: 29, offset: 26782},
+															pos: position{line: 837, col: 29, offset: 26996},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 743, col: 5, offset: 23782},
+																	pos: position{line: 749, col: 5, offset: 23996},
 																	run: (*parser).callonDocumentHeader597,
 																	expr: &seqExpr{
-																		pos: position{line: 743, col: 5, offset: 23782},
+																		pos: position{line: 749, col: 5, offset: 23996},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 743, col: 5, offset: 23782},
+																				pos:   position{line: 749, col: 5, offset: 23996},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 743, col: 16, offset: 23793},
+																					pos: position{line: 749, col: 16, offset: 24007},
 																					run: (*parser).callonDocumentHeader600,
 																					expr: &seqExpr{
-																						pos: position{line: 743, col: 16, offset: 23793},
+																						pos: position{line: 749, col: 16, offset: 24007},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 743, col: 16, offset: 23793},
+																								pos:        position{line: 749, col: 16, offset: 24007},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 743, col: 23, offset: 23800},
+																								pos: position{line: 749, col: 23, offset: 24014},
 																								expr: &litMatcher{
-																									pos:        position{line: 743, col: 23, offset: 23800},
+																									pos:        position{line: 749, col: 23, offset: 24014},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -19110,12 +19110,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 745, col: 8, offset: 23884},
+																				pos: position{line: 751, col: 8, offset: 24098},
 																				expr: &actionExpr{
-																					pos: position{line: 2912, col: 10, offset: 91925},
+																					pos: position{line: 2918, col: 10, offset: 92139},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2912, col: 10, offset: 91925},
+																						pos:        position{line: 2918, col: 10, offset: 92139},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -19124,28 +19124,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2934, col: 8, offset: 92323},
+																				pos: position{line: 2940, col: 8, offset: 92537},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2921, col: 12, offset: 92096},
+																						pos: position{line: 2927, col: 12, offset: 92310},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2921, col: 13, offset: 92097},
+																							pos: position{line: 2927, col: 13, offset: 92311},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2921, col: 13, offset: 92097},
+																									pos:        position{line: 2927, col: 13, offset: 92311},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2921, col: 20, offset: 92104},
+																									pos:        position{line: 2927, col: 20, offset: 92318},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2921, col: 29, offset: 92113},
+																									pos:        position{line: 2927, col: 29, offset: 92327},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -19154,9 +19154,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2931, col: 8, offset: 92273},
+																						pos: position{line: 2937, col: 8, offset: 92487},
 																						expr: &anyMatcher{
-																							line: 2931, col: 9, offset: 92274,
+																							line: 2937, col: 9, offset: 92488,
 																						},
 																					},
 																				},
@@ -19165,9 +19165,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2931, col: 8, offset: 92273},
+																	pos: position{line: 2937, col: 8, offset: 92487},
 																	expr: &anyMatcher{
-																		line: 2931, col: 9, offset: 92274,
+																		line: 2937, col: 9, offset: 92488,
 																	},
 																},
 															},
@@ -19186,26 +19186,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1115, col: 1, offset: 34491},
+			pos:  position{line: 1121, col: 1, offset: 34705},
 			expr: &actionExpr{
-				pos: position{line: 1116, col: 5, offset: 34513},
+				pos: position{line: 1122, col: 5, offset: 34727},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1116, col: 5, offset: 34513},
+					pos: position{line: 1122, col: 5, offset: 34727},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1116, col: 5, offset: 34513},
+							pos:        position{line: 1122, col: 5, offset: 34727},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2916, col: 11, offset: 91986},
+							pos: position{line: 2922, col: 11, offset: 92200},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2916, col: 11, offset: 91986},
+								pos: position{line: 2922, col: 11, offset: 92200},
 								expr: &charClassMatcher{
-									pos:        position{line: 2916, col: 11, offset: 91986},
+									pos:        position{line: 2922, col: 11, offset: 92200},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19214,36 +19214,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1116, col: 16, offset: 34524},
+							pos:   position{line: 1122, col: 16, offset: 34738},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1116, col: 23, offset: 34531},
+								pos:  position{line: 1122, col: 23, offset: 34745},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2934, col: 8, offset: 92323},
+							pos: position{line: 2940, col: 8, offset: 92537},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2921, col: 12, offset: 92096},
+									pos: position{line: 2927, col: 12, offset: 92310},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2921, col: 13, offset: 92097},
+										pos: position{line: 2927, col: 13, offset: 92311},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2921, col: 13, offset: 92097},
+												pos:        position{line: 2927, col: 13, offset: 92311},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2921, col: 20, offset: 92104},
+												pos:        position{line: 2927, col: 20, offset: 92318},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2921, col: 29, offset: 92113},
+												pos:        position{line: 2927, col: 29, offset: 92327},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19252,9 +19252,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2931, col: 8, offset: 92273},
+									pos: position{line: 2937, col: 8, offset: 92487},
 									expr: &anyMatcher{
-										line: 2931, col: 9, offset: 92274,
+										line: 2937, col: 9, offset: 92488,
 									},
 								},
 							},
@@ -19265,23 +19265,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1143, col: 1, offset: 35371},
+			pos:  position{line: 1149, col: 1, offset: 35585},
 			expr: &actionExpr{
-				pos: position{line: 1144, col: 5, offset: 35402},
+				pos: position{line: 1150, col: 5, offset: 35616},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1144, col: 5, offset: 35402},
+					pos: position{line: 1150, col: 5, offset: 35616},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1144, col: 5, offset: 35402},
+							pos:   position{line: 1150, col: 5, offset: 35616},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1144, col: 12, offset: 35409},
+								pos: position{line: 1150, col: 12, offset: 35623},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1144, col: 12, offset: 35409},
+									pos: position{line: 1150, col: 12, offset: 35623},
 									expr: &charClassMatcher{
-										pos:        position{line: 1144, col: 12, offset: 35409},
+										pos:        position{line: 1150, col: 12, offset: 35623},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -19291,12 +19291,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1147, col: 5, offset: 35489},
+							pos: position{line: 1153, col: 5, offset: 35703},
 							expr: &actionExpr{
-								pos: position{line: 2912, col: 10, offset: 91925},
+								pos: position{line: 2918, col: 10, offset: 92139},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2912, col: 10, offset: 91925},
+									pos:        position{line: 2918, col: 10, offset: 92139},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19305,17 +19305,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1148, col: 5, offset: 35500},
+							pos:   position{line: 1154, col: 5, offset: 35714},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1148, col: 11, offset: 35506},
+								pos: position{line: 1154, col: 11, offset: 35720},
 								expr: &actionExpr{
-									pos: position{line: 1148, col: 12, offset: 35507},
+									pos: position{line: 1154, col: 12, offset: 35721},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1148, col: 12, offset: 35507},
+										pos: position{line: 1154, col: 12, offset: 35721},
 										expr: &charClassMatcher{
-											pos:        position{line: 1148, col: 12, offset: 35507},
+											pos:        position{line: 1154, col: 12, offset: 35721},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -19326,12 +19326,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1151, col: 5, offset: 35588},
+							pos: position{line: 1157, col: 5, offset: 35802},
 							expr: &actionExpr{
-								pos: position{line: 2912, col: 10, offset: 91925},
+								pos: position{line: 2918, col: 10, offset: 92139},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2912, col: 10, offset: 91925},
+									pos:        position{line: 2918, col: 10, offset: 92139},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19340,17 +19340,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1152, col: 5, offset: 35599},
+							pos:   position{line: 1158, col: 5, offset: 35813},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1152, col: 11, offset: 35605},
+								pos: position{line: 1158, col: 11, offset: 35819},
 								expr: &actionExpr{
-									pos: position{line: 1152, col: 12, offset: 35606},
+									pos: position{line: 1158, col: 12, offset: 35820},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1152, col: 12, offset: 35606},
+										pos: position{line: 1158, col: 12, offset: 35820},
 										expr: &charClassMatcher{
-											pos:        position{line: 1152, col: 12, offset: 35606},
+											pos:        position{line: 1158, col: 12, offset: 35820},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -19361,12 +19361,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1155, col: 5, offset: 35685},
+							pos: position{line: 1161, col: 5, offset: 35899},
 							expr: &actionExpr{
-								pos: position{line: 2912, col: 10, offset: 91925},
+								pos: position{line: 2918, col: 10, offset: 92139},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2912, col: 10, offset: 91925},
+									pos:        position{line: 2918, col: 10, offset: 92139},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19380,28 +19380,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1268, col: 1, offset: 39414},
+			pos:  position{line: 1274, col: 1, offset: 39628},
 			expr: &actionExpr{
-				pos: position{line: 1269, col: 5, offset: 39435},
+				pos: position{line: 1275, col: 5, offset: 39649},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1269, col: 5, offset: 39435},
+					pos: position{line: 1275, col: 5, offset: 39649},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1269, col: 5, offset: 39435},
+							pos: position{line: 1275, col: 5, offset: 39649},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1272, col: 5, offset: 39494},
+							pos:        position{line: 1278, col: 5, offset: 39708},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1272, col: 12, offset: 39501},
+							pos:   position{line: 1278, col: 12, offset: 39715},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1272, col: 24, offset: 39513},
+								pos:  position{line: 1278, col: 24, offset: 39727},
 								name: "InlineAttributes",
 							},
 						},
@@ -19411,33 +19411,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1279, col: 1, offset: 39801},
+			pos:  position{line: 1285, col: 1, offset: 40015},
 			expr: &actionExpr{
-				pos: position{line: 1280, col: 5, offset: 39820},
+				pos: position{line: 1286, col: 5, offset: 40034},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1280, col: 5, offset: 39820},
+					pos: position{line: 1286, col: 5, offset: 40034},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1280, col: 5, offset: 39820},
+							pos: position{line: 1286, col: 5, offset: 40034},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1283, col: 5, offset: 39879},
+							pos:        position{line: 1289, col: 5, offset: 40093},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1283, col: 13, offset: 39887},
+							pos:   position{line: 1289, col: 13, offset: 40101},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2897, col: 7, offset: 91577},
+								pos: position{line: 2903, col: 7, offset: 91791},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2897, col: 7, offset: 91577},
+									pos: position{line: 2903, col: 7, offset: 91791},
 									expr: &charClassMatcher{
-										pos:        position{line: 2897, col: 7, offset: 91577},
+										pos:        position{line: 2903, col: 7, offset: 91791},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19447,10 +19447,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1283, col: 21, offset: 39895},
+							pos:   position{line: 1289, col: 21, offset: 40109},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1283, col: 33, offset: 39907},
+								pos:  position{line: 1289, col: 33, offset: 40121},
 								name: "InlineAttributes",
 							},
 						},
@@ -19460,29 +19460,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1290, col: 1, offset: 40206},
+			pos:  position{line: 1296, col: 1, offset: 40420},
 			expr: &actionExpr{
-				pos: position{line: 1290, col: 14, offset: 40219},
+				pos: position{line: 1296, col: 14, offset: 40433},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1290, col: 14, offset: 40219},
+					pos: position{line: 1296, col: 14, offset: 40433},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1290, col: 14, offset: 40219},
+							pos:        position{line: 1296, col: 14, offset: 40433},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1290, col: 19, offset: 40224},
+							pos:   position{line: 1296, col: 19, offset: 40438},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1290, col: 25, offset: 40230},
+								pos:  position{line: 1296, col: 25, offset: 40444},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1290, col: 43, offset: 40248},
+							pos:        position{line: 1296, col: 43, offset: 40462},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19493,25 +19493,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1294, col: 1, offset: 40317},
+			pos:  position{line: 1300, col: 1, offset: 40531},
 			expr: &actionExpr{
-				pos: position{line: 1294, col: 21, offset: 40337},
+				pos: position{line: 1300, col: 21, offset: 40551},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1294, col: 21, offset: 40337},
+					pos:   position{line: 1300, col: 21, offset: 40551},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1294, col: 30, offset: 40346},
+						pos: position{line: 1300, col: 30, offset: 40560},
 						expr: &choiceExpr{
-							pos: position{line: 1294, col: 31, offset: 40347},
+							pos: position{line: 1300, col: 31, offset: 40561},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2806, col: 14, offset: 89094},
+									pos: position{line: 2812, col: 14, offset: 89308},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2806, col: 14, offset: 89094},
+										pos: position{line: 2812, col: 14, offset: 89308},
 										expr: &charClassMatcher{
-											pos:        position{line: 2806, col: 14, offset: 89094},
+											pos:        position{line: 2812, col: 14, offset: 89308},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19520,14 +19520,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1294, col: 43, offset: 40359},
+									pos:  position{line: 1300, col: 43, offset: 40573},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2912, col: 10, offset: 91925},
+									pos: position{line: 2918, col: 10, offset: 92139},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2912, col: 10, offset: 91925},
+										pos:        position{line: 2918, col: 10, offset: 92139},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19535,23 +19535,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2502, col: 5, offset: 80249},
+									pos: position{line: 2508, col: 5, offset: 80463},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2502, col: 5, offset: 80249},
+										pos: position{line: 2508, col: 5, offset: 80463},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2502, col: 5, offset: 80249},
+												pos: position{line: 2508, col: 5, offset: 80463},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2505, col: 5, offset: 80325},
+												pos:   position{line: 2511, col: 5, offset: 80539},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2506, col: 9, offset: 80343},
+													pos: position{line: 2512, col: 9, offset: 80557},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2506, col: 10, offset: 80344},
+														pos:        position{line: 2512, col: 10, offset: 80558},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19563,27 +19563,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1201, col: 23, offset: 37170},
+									pos: position{line: 1207, col: 23, offset: 37384},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1201, col: 23, offset: 37170},
+										pos: position{line: 1207, col: 23, offset: 37384},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1199, col: 32, offset: 37138},
+												pos:        position{line: 1205, col: 32, offset: 37352},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1201, col: 51, offset: 37198},
+												pos:   position{line: 1207, col: 51, offset: 37412},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1201, col: 56, offset: 37203},
+													pos: position{line: 1207, col: 56, offset: 37417},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1201, col: 56, offset: 37203},
+														pos: position{line: 1207, col: 56, offset: 37417},
 														expr: &charClassMatcher{
-															pos:        position{line: 1201, col: 56, offset: 37203},
+															pos:        position{line: 1207, col: 56, offset: 37417},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -19593,7 +19593,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1199, col: 32, offset: 37138},
+												pos:        position{line: 1205, col: 32, offset: 37352},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
@@ -19602,22 +19602,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1294, col: 104, offset: 40420},
+									pos: position{line: 1300, col: 104, offset: 40634},
 									run: (*parser).callonIndexTermContent25,
 									expr: &seqExpr{
-										pos: position{line: 1294, col: 105, offset: 40421},
+										pos: position{line: 1300, col: 105, offset: 40635},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1294, col: 105, offset: 40421},
+												pos: position{line: 1300, col: 105, offset: 40635},
 												expr: &litMatcher{
-													pos:        position{line: 1294, col: 106, offset: 40422},
+													pos:        position{line: 1300, col: 106, offset: 40636},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1294, col: 111, offset: 40427,
+												line: 1300, col: 111, offset: 40641,
 											},
 										},
 									},
@@ -19630,65 +19630,65 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1314, col: 1, offset: 41136},
+			pos:  position{line: 1320, col: 1, offset: 41350},
 			expr: &actionExpr{
-				pos: position{line: 1315, col: 5, offset: 41155},
+				pos: position{line: 1321, col: 5, offset: 41369},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1315, col: 5, offset: 41155},
+					pos: position{line: 1321, col: 5, offset: 41369},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1315, col: 5, offset: 41155},
+							pos:        position{line: 1321, col: 5, offset: 41369},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1315, col: 15, offset: 41165},
+							pos:   position{line: 1321, col: 15, offset: 41379},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2870, col: 13, offset: 90684},
+								pos: position{line: 2876, col: 13, offset: 90898},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2870, col: 13, offset: 90684},
+									pos: position{line: 2876, col: 13, offset: 90898},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2870, col: 13, offset: 90684},
+											pos:   position{line: 2876, col: 13, offset: 90898},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2870, col: 20, offset: 90691},
+												pos: position{line: 2876, col: 20, offset: 90905},
 												expr: &actionExpr{
-													pos: position{line: 2878, col: 11, offset: 90930},
+													pos: position{line: 2884, col: 11, offset: 91144},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2878, col: 12, offset: 90931},
+														pos: position{line: 2884, col: 12, offset: 91145},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2878, col: 12, offset: 90931},
+																pos:        position{line: 2884, col: 12, offset: 91145},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2878, col: 24, offset: 90943},
+																pos:        position{line: 2884, col: 24, offset: 91157},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2878, col: 37, offset: 90956},
+																pos:        position{line: 2884, col: 37, offset: 91170},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2878, col: 48, offset: 90967},
+																pos:        position{line: 2884, col: 48, offset: 91181},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2878, col: 59, offset: 90978},
+																pos:        position{line: 2884, col: 59, offset: 91192},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19699,38 +19699,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2870, col: 30, offset: 90701},
+											pos:   position{line: 2876, col: 30, offset: 90915},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2883, col: 5, offset: 91042},
+												pos: position{line: 2889, col: 5, offset: 91256},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2883, col: 5, offset: 91042},
+													pos:   position{line: 2889, col: 5, offset: 91256},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2883, col: 14, offset: 91051},
+														pos: position{line: 2889, col: 14, offset: 91265},
 														expr: &choiceExpr{
-															pos: position{line: 2884, col: 9, offset: 91061},
+															pos: position{line: 2890, col: 9, offset: 91275},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2884, col: 9, offset: 91061},
+																	pos: position{line: 2890, col: 9, offset: 91275},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2884, col: 9, offset: 91061},
+																		pos: position{line: 2890, col: 9, offset: 91275},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2884, col: 9, offset: 91061},
+																				pos: position{line: 2890, col: 9, offset: 91275},
 																				expr: &litMatcher{
-																					pos:        position{line: 2884, col: 10, offset: 91062},
+																					pos:        position{line: 2890, col: 10, offset: 91276},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2885, col: 9, offset: 91090},
+																				pos: position{line: 2891, col: 9, offset: 91304},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2885, col: 10, offset: 91091},
+																					pos:        position{line: 2891, col: 10, offset: 91305},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19741,27 +19741,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2888, col: 11, offset: 91303},
+																	pos: position{line: 2894, col: 11, offset: 91517},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2888, col: 11, offset: 91303},
+																			pos:        position{line: 2894, col: 11, offset: 91517},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2888, col: 19, offset: 91311},
+																			pos: position{line: 2894, col: 19, offset: 91525},
 																			expr: &seqExpr{
-																				pos: position{line: 2888, col: 21, offset: 91313},
+																				pos: position{line: 2894, col: 21, offset: 91527},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2888, col: 21, offset: 91313},
+																						pos: position{line: 2894, col: 21, offset: 91527},
 																						expr: &actionExpr{
-																							pos: position{line: 2912, col: 10, offset: 91925},
+																							pos: position{line: 2918, col: 10, offset: 92139},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2912, col: 10, offset: 91925},
+																								pos:        position{line: 2918, col: 10, offset: 92139},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19770,11 +19770,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2888, col: 28, offset: 91320},
+																						pos: position{line: 2894, col: 28, offset: 91534},
 																						expr: &notExpr{
-																							pos: position{line: 2931, col: 8, offset: 92273},
+																							pos: position{line: 2937, col: 8, offset: 92487},
 																							expr: &anyMatcher{
-																								line: 2931, col: 9, offset: 92274,
+																								line: 2937, col: 9, offset: 92488,
 																							},
 																						},
 																					},
@@ -19784,35 +19784,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 639, col: 5, offset: 20305},
+																	pos: position{line: 645, col: 5, offset: 20519},
 																	run: (*parser).callonImageBlock37,
 																	expr: &seqExpr{
-																		pos: position{line: 639, col: 5, offset: 20305},
+																		pos: position{line: 645, col: 5, offset: 20519},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 639, col: 5, offset: 20305},
+																				pos: position{line: 645, col: 5, offset: 20519},
 																				run: (*parser).callonImageBlock39,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 642, col: 5, offset: 20377},
+																				pos:   position{line: 648, col: 5, offset: 20591},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 642, col: 14, offset: 20386},
+																					pos: position{line: 648, col: 14, offset: 20600},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 648, col: 5, offset: 20515},
+																							pos: position{line: 654, col: 5, offset: 20729},
 																							run: (*parser).callonImageBlock42,
 																							expr: &seqExpr{
-																								pos: position{line: 648, col: 5, offset: 20515},
+																								pos: position{line: 654, col: 5, offset: 20729},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 648, col: 5, offset: 20515},
+																										pos:        position{line: 654, col: 5, offset: 20729},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 648, col: 13, offset: 20523},
+																										pos:   position{line: 654, col: 13, offset: 20737},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -19844,7 +19844,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 648, col: 32, offset: 20542},
+																										pos:        position{line: 654, col: 32, offset: 20756},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19853,19 +19853,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 655, col: 5, offset: 20783},
+																							pos: position{line: 661, col: 5, offset: 20997},
 																							run: (*parser).callonImageBlock52,
 																							expr: &seqExpr{
-																								pos: position{line: 655, col: 5, offset: 20783},
+																								pos: position{line: 661, col: 5, offset: 20997},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 655, col: 5, offset: 20783},
+																										pos:        position{line: 661, col: 5, offset: 20997},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 655, col: 9, offset: 20787},
+																										pos:   position{line: 661, col: 9, offset: 21001},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -19897,7 +19897,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 655, col: 28, offset: 20806},
+																										pos:        position{line: 661, col: 28, offset: 21020},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19906,19 +19906,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 661, col: 25, offset: 20987},
+																							pos: position{line: 667, col: 25, offset: 21201},
 																							run: (*parser).callonImageBlock62,
 																							expr: &seqExpr{
-																								pos: position{line: 661, col: 25, offset: 20987},
+																								pos: position{line: 667, col: 25, offset: 21201},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 661, col: 25, offset: 20987},
+																										pos:        position{line: 667, col: 25, offset: 21201},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 661, col: 37, offset: 20999},
+																										pos:   position{line: 667, col: 37, offset: 21213},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -19950,33 +19950,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 661, col: 56, offset: 21018},
+																										pos:   position{line: 667, col: 56, offset: 21232},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 661, col: 62, offset: 21024},
+																											pos: position{line: 667, col: 62, offset: 21238},
 																											expr: &actionExpr{
-																												pos: position{line: 669, col: 17, offset: 21321},
+																												pos: position{line: 675, col: 17, offset: 21535},
 																												run: (*parser).callonImageBlock73,
 																												expr: &seqExpr{
-																													pos: position{line: 669, col: 17, offset: 21321},
+																													pos: position{line: 675, col: 17, offset: 21535},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 669, col: 17, offset: 21321},
+																															pos:        position{line: 675, col: 17, offset: 21535},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 669, col: 21, offset: 21325},
+																															pos:   position{line: 675, col: 21, offset: 21539},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 669, col: 28, offset: 21332},
+																																pos: position{line: 675, col: 28, offset: 21546},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 669, col: 28, offset: 21332},
+																																		pos: position{line: 675, col: 28, offset: 21546},
 																																		run: (*parser).callonImageBlock78,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 669, col: 28, offset: 21332},
+																																			pos:        position{line: 675, col: 28, offset: 21546},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -19984,12 +19984,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 671, col: 9, offset: 21386},
+																																		pos: position{line: 677, col: 9, offset: 21600},
 																																		run: (*parser).callonImageBlock80,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 671, col: 9, offset: 21386},
+																																			pos: position{line: 677, col: 9, offset: 21600},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 671, col: 9, offset: 21386},
+																																				pos:        position{line: 677, col: 9, offset: 21600},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20006,7 +20006,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 661, col: 78, offset: 21040},
+																										pos:        position{line: 667, col: 78, offset: 21254},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20015,19 +20015,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 665, col: 25, offset: 21158},
+																							pos: position{line: 671, col: 25, offset: 21372},
 																							run: (*parser).callonImageBlock84,
 																							expr: &seqExpr{
-																								pos: position{line: 665, col: 25, offset: 21158},
+																								pos: position{line: 671, col: 25, offset: 21372},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 665, col: 25, offset: 21158},
+																										pos:        position{line: 671, col: 25, offset: 21372},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 665, col: 38, offset: 21171},
+																										pos:   position{line: 671, col: 38, offset: 21385},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -20059,33 +20059,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 665, col: 57, offset: 21190},
+																										pos:   position{line: 671, col: 57, offset: 21404},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 665, col: 63, offset: 21196},
+																											pos: position{line: 671, col: 63, offset: 21410},
 																											expr: &actionExpr{
-																												pos: position{line: 669, col: 17, offset: 21321},
+																												pos: position{line: 675, col: 17, offset: 21535},
 																												run: (*parser).callonImageBlock95,
 																												expr: &seqExpr{
-																													pos: position{line: 669, col: 17, offset: 21321},
+																													pos: position{line: 675, col: 17, offset: 21535},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 669, col: 17, offset: 21321},
+																															pos:        position{line: 675, col: 17, offset: 21535},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 669, col: 21, offset: 21325},
+																															pos:   position{line: 675, col: 21, offset: 21539},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 669, col: 28, offset: 21332},
+																																pos: position{line: 675, col: 28, offset: 21546},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 669, col: 28, offset: 21332},
+																																		pos: position{line: 675, col: 28, offset: 21546},
 																																		run: (*parser).callonImageBlock100,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 669, col: 28, offset: 21332},
+																																			pos:        position{line: 675, col: 28, offset: 21546},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20093,12 +20093,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 671, col: 9, offset: 21386},
+																																		pos: position{line: 677, col: 9, offset: 21600},
 																																		run: (*parser).callonImageBlock102,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 671, col: 9, offset: 21386},
+																																			pos: position{line: 677, col: 9, offset: 21600},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 671, col: 9, offset: 21386},
+																																				pos:        position{line: 677, col: 9, offset: 21600},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20115,7 +20115,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 665, col: 79, offset: 21212},
+																										pos:        position{line: 671, col: 79, offset: 21426},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20130,27 +20130,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1201, col: 23, offset: 37170},
+																	pos: position{line: 1207, col: 23, offset: 37384},
 																	run: (*parser).callonImageBlock106,
 																	expr: &seqExpr{
-																		pos: position{line: 1201, col: 23, offset: 37170},
+																		pos: position{line: 1207, col: 23, offset: 37384},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1199, col: 32, offset: 37138},
+																				pos:        position{line: 1205, col: 32, offset: 37352},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1201, col: 51, offset: 37198},
+																				pos:   position{line: 1207, col: 51, offset: 37412},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1201, col: 56, offset: 37203},
+																					pos: position{line: 1207, col: 56, offset: 37417},
 																					run: (*parser).callonImageBlock110,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1201, col: 56, offset: 37203},
+																						pos: position{line: 1207, col: 56, offset: 37417},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1201, col: 56, offset: 37203},
+																							pos:        position{line: 1207, col: 56, offset: 37417},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20160,7 +20160,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1199, col: 32, offset: 37138},
+																				pos:        position{line: 1205, col: 32, offset: 37352},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20169,10 +20169,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2891, col: 11, offset: 91440},
+																	pos: position{line: 2897, col: 11, offset: 91654},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2891, col: 11, offset: 91440},
+																		pos:        position{line: 2897, col: 11, offset: 91654},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20189,20 +20189,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1315, col: 31, offset: 41181},
+							pos:   position{line: 1321, col: 31, offset: 41395},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1315, col: 43, offset: 41193},
+								pos:  position{line: 1321, col: 43, offset: 41407},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1315, col: 61, offset: 41211},
+							pos: position{line: 1321, col: 61, offset: 41425},
 							expr: &actionExpr{
-								pos: position{line: 2912, col: 10, offset: 91925},
+								pos: position{line: 2918, col: 10, offset: 92139},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2912, col: 10, offset: 91925},
+									pos:        position{line: 2918, col: 10, offset: 92139},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20211,28 +20211,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2934, col: 8, offset: 92323},
+							pos: position{line: 2940, col: 8, offset: 92537},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2921, col: 12, offset: 92096},
+									pos: position{line: 2927, col: 12, offset: 92310},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2921, col: 13, offset: 92097},
+										pos: position{line: 2927, col: 13, offset: 92311},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2921, col: 13, offset: 92097},
+												pos:        position{line: 2927, col: 13, offset: 92311},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2921, col: 20, offset: 92104},
+												pos:        position{line: 2927, col: 20, offset: 92318},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2921, col: 29, offset: 92113},
+												pos:        position{line: 2927, col: 29, offset: 92327},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20241,9 +20241,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2931, col: 8, offset: 92273},
+									pos: position{line: 2937, col: 8, offset: 92487},
 									expr: &anyMatcher{
-										line: 2931, col: 9, offset: 92274,
+										line: 2937, col: 9, offset: 92488,
 									},
 								},
 							},
@@ -20254,74 +20254,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1320, col: 1, offset: 41428},
+			pos:  position{line: 1326, col: 1, offset: 41642},
 			expr: &actionExpr{
-				pos: position{line: 1320, col: 16, offset: 41443},
+				pos: position{line: 1326, col: 16, offset: 41657},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1320, col: 16, offset: 41443},
+					pos: position{line: 1326, col: 16, offset: 41657},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1320, col: 16, offset: 41443},
+							pos:        position{line: 1326, col: 16, offset: 41657},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1320, col: 25, offset: 41452},
+							pos: position{line: 1326, col: 25, offset: 41666},
 							expr: &litMatcher{
-								pos:        position{line: 1320, col: 26, offset: 41453},
+								pos:        position{line: 1326, col: 26, offset: 41667},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1320, col: 30, offset: 41457},
+							pos:   position{line: 1326, col: 30, offset: 41671},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2870, col: 13, offset: 90684},
+								pos: position{line: 2876, col: 13, offset: 90898},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2870, col: 13, offset: 90684},
+									pos: position{line: 2876, col: 13, offset: 90898},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2870, col: 13, offset: 90684},
+											pos:   position{line: 2876, col: 13, offset: 90898},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2870, col: 20, offset: 90691},
+												pos: position{line: 2876, col: 20, offset: 90905},
 												expr: &actionExpr{
-													pos: position{line: 2878, col: 11, offset: 90930},
+													pos: position{line: 2884, col: 11, offset: 91144},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2878, col: 12, offset: 90931},
+														pos: position{line: 2884, col: 12, offset: 91145},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2878, col: 12, offset: 90931},
+																pos:        position{line: 2884, col: 12, offset: 91145},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2878, col: 24, offset: 90943},
+																pos:        position{line: 2884, col: 24, offset: 91157},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2878, col: 37, offset: 90956},
+																pos:        position{line: 2884, col: 37, offset: 91170},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2878, col: 48, offset: 90967},
+																pos:        position{line: 2884, col: 48, offset: 91181},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2878, col: 59, offset: 90978},
+																pos:        position{line: 2884, col: 59, offset: 91192},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20332,38 +20332,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2870, col: 30, offset: 90701},
+											pos:   position{line: 2876, col: 30, offset: 90915},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2883, col: 5, offset: 91042},
+												pos: position{line: 2889, col: 5, offset: 91256},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2883, col: 5, offset: 91042},
+													pos:   position{line: 2889, col: 5, offset: 91256},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2883, col: 14, offset: 91051},
+														pos: position{line: 2889, col: 14, offset: 91265},
 														expr: &choiceExpr{
-															pos: position{line: 2884, col: 9, offset: 91061},
+															pos: position{line: 2890, col: 9, offset: 91275},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2884, col: 9, offset: 91061},
+																	pos: position{line: 2890, col: 9, offset: 91275},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2884, col: 9, offset: 91061},
+																		pos: position{line: 2890, col: 9, offset: 91275},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2884, col: 9, offset: 91061},
+																				pos: position{line: 2890, col: 9, offset: 91275},
 																				expr: &litMatcher{
-																					pos:        position{line: 2884, col: 10, offset: 91062},
+																					pos:        position{line: 2890, col: 10, offset: 91276},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2885, col: 9, offset: 91090},
+																				pos: position{line: 2891, col: 9, offset: 91304},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2885, col: 10, offset: 91091},
+																					pos:        position{line: 2891, col: 10, offset: 91305},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20374,27 +20374,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2888, col: 11, offset: 91303},
+																	pos: position{line: 2894, col: 11, offset: 91517},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2888, col: 11, offset: 91303},
+																			pos:        position{line: 2894, col: 11, offset: 91517},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2888, col: 19, offset: 91311},
+																			pos: position{line: 2894, col: 19, offset: 91525},
 																			expr: &seqExpr{
-																				pos: position{line: 2888, col: 21, offset: 91313},
+																				pos: position{line: 2894, col: 21, offset: 91527},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2888, col: 21, offset: 91313},
+																						pos: position{line: 2894, col: 21, offset: 91527},
 																						expr: &actionExpr{
-																							pos: position{line: 2912, col: 10, offset: 91925},
+																							pos: position{line: 2918, col: 10, offset: 92139},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2912, col: 10, offset: 91925},
+																								pos:        position{line: 2918, col: 10, offset: 92139},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20403,11 +20403,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2888, col: 28, offset: 91320},
+																						pos: position{line: 2894, col: 28, offset: 91534},
 																						expr: &notExpr{
-																							pos: position{line: 2931, col: 8, offset: 92273},
+																							pos: position{line: 2937, col: 8, offset: 92487},
 																							expr: &anyMatcher{
-																								line: 2931, col: 9, offset: 92274,
+																								line: 2937, col: 9, offset: 92488,
 																							},
 																						},
 																					},
@@ -20417,35 +20417,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 639, col: 5, offset: 20305},
+																	pos: position{line: 645, col: 5, offset: 20519},
 																	run: (*parser).callonInlineImage39,
 																	expr: &seqExpr{
-																		pos: position{line: 639, col: 5, offset: 20305},
+																		pos: position{line: 645, col: 5, offset: 20519},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 639, col: 5, offset: 20305},
+																				pos: position{line: 645, col: 5, offset: 20519},
 																				run: (*parser).callonInlineImage41,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 642, col: 5, offset: 20377},
+																				pos:   position{line: 648, col: 5, offset: 20591},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 642, col: 14, offset: 20386},
+																					pos: position{line: 648, col: 14, offset: 20600},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 648, col: 5, offset: 20515},
+																							pos: position{line: 654, col: 5, offset: 20729},
 																							run: (*parser).callonInlineImage44,
 																							expr: &seqExpr{
-																								pos: position{line: 648, col: 5, offset: 20515},
+																								pos: position{line: 654, col: 5, offset: 20729},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 648, col: 5, offset: 20515},
+																										pos:        position{line: 654, col: 5, offset: 20729},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 648, col: 13, offset: 20523},
+																										pos:   position{line: 654, col: 13, offset: 20737},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -20477,7 +20477,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 648, col: 32, offset: 20542},
+																										pos:        position{line: 654, col: 32, offset: 20756},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20486,19 +20486,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 655, col: 5, offset: 20783},
+																							pos: position{line: 661, col: 5, offset: 20997},
 																							run: (*parser).callonInlineImage54,
 																							expr: &seqExpr{
-																								pos: position{line: 655, col: 5, offset: 20783},
+																								pos: position{line: 661, col: 5, offset: 20997},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 655, col: 5, offset: 20783},
+																										pos:        position{line: 661, col: 5, offset: 20997},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 655, col: 9, offset: 20787},
+																										pos:   position{line: 661, col: 9, offset: 21001},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -20530,7 +20530,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 655, col: 28, offset: 20806},
+																										pos:        position{line: 661, col: 28, offset: 21020},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20539,19 +20539,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 661, col: 25, offset: 20987},
+																							pos: position{line: 667, col: 25, offset: 21201},
 																							run: (*parser).callonInlineImage64,
 																							expr: &seqExpr{
-																								pos: position{line: 661, col: 25, offset: 20987},
+																								pos: position{line: 667, col: 25, offset: 21201},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 661, col: 25, offset: 20987},
+																										pos:        position{line: 667, col: 25, offset: 21201},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 661, col: 37, offset: 20999},
+																										pos:   position{line: 667, col: 37, offset: 21213},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -20583,33 +20583,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 661, col: 56, offset: 21018},
+																										pos:   position{line: 667, col: 56, offset: 21232},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 661, col: 62, offset: 21024},
+																											pos: position{line: 667, col: 62, offset: 21238},
 																											expr: &actionExpr{
-																												pos: position{line: 669, col: 17, offset: 21321},
+																												pos: position{line: 675, col: 17, offset: 21535},
 																												run: (*parser).callonInlineImage75,
 																												expr: &seqExpr{
-																													pos: position{line: 669, col: 17, offset: 21321},
+																													pos: position{line: 675, col: 17, offset: 21535},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 669, col: 17, offset: 21321},
+																															pos:        position{line: 675, col: 17, offset: 21535},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 669, col: 21, offset: 21325},
+																															pos:   position{line: 675, col: 21, offset: 21539},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 669, col: 28, offset: 21332},
+																																pos: position{line: 675, col: 28, offset: 21546},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 669, col: 28, offset: 21332},
+																																		pos: position{line: 675, col: 28, offset: 21546},
 																																		run: (*parser).callonInlineImage80,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 669, col: 28, offset: 21332},
+																																			pos:        position{line: 675, col: 28, offset: 21546},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20617,12 +20617,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 671, col: 9, offset: 21386},
+																																		pos: position{line: 677, col: 9, offset: 21600},
 																																		run: (*parser).callonInlineImage82,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 671, col: 9, offset: 21386},
+																																			pos: position{line: 677, col: 9, offset: 21600},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 671, col: 9, offset: 21386},
+																																				pos:        position{line: 677, col: 9, offset: 21600},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20639,7 +20639,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 661, col: 78, offset: 21040},
+																										pos:        position{line: 667, col: 78, offset: 21254},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20648,19 +20648,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 665, col: 25, offset: 21158},
+																							pos: position{line: 671, col: 25, offset: 21372},
 																							run: (*parser).callonInlineImage86,
 																							expr: &seqExpr{
-																								pos: position{line: 665, col: 25, offset: 21158},
+																								pos: position{line: 671, col: 25, offset: 21372},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 665, col: 25, offset: 21158},
+																										pos:        position{line: 671, col: 25, offset: 21372},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 665, col: 38, offset: 21171},
+																										pos:   position{line: 671, col: 38, offset: 21385},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -20692,33 +20692,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 665, col: 57, offset: 21190},
+																										pos:   position{line: 671, col: 57, offset: 21404},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 665, col: 63, offset: 21196},
+																											pos: position{line: 671, col: 63, offset: 21410},
 																											expr: &actionExpr{
-																												pos: position{line: 669, col: 17, offset: 21321},
+																												pos: position{line: 675, col: 17, offset: 21535},
 																												run: (*parser).callonInlineImage97,
 																												expr: &seqExpr{
-																													pos: position{line: 669, col: 17, offset: 21321},
+																													pos: position{line: 675, col: 17, offset: 21535},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 669, col: 17, offset: 21321},
+																															pos:        position{line: 675, col: 17, offset: 21535},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 669, col: 21, offset: 21325},
+																															pos:   position{line: 675, col: 21, offset: 21539},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 669, col: 28, offset: 21332},
+																																pos: position{line: 675, col: 28, offset: 21546},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 669, col: 28, offset: 21332},
+																																		pos: position{line: 675, col: 28, offset: 21546},
 																																		run: (*parser).callonInlineImage102,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 669, col: 28, offset: 21332},
+																																			pos:        position{line: 675, col: 28, offset: 21546},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20726,12 +20726,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 671, col: 9, offset: 21386},
+																																		pos: position{line: 677, col: 9, offset: 21600},
 																																		run: (*parser).callonInlineImage104,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 671, col: 9, offset: 21386},
+																																			pos: position{line: 677, col: 9, offset: 21600},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 671, col: 9, offset: 21386},
+																																				pos:        position{line: 677, col: 9, offset: 21600},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20748,7 +20748,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 665, col: 79, offset: 21212},
+																										pos:        position{line: 671, col: 79, offset: 21426},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20763,27 +20763,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1201, col: 23, offset: 37170},
+																	pos: position{line: 1207, col: 23, offset: 37384},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1201, col: 23, offset: 37170},
+																		pos: position{line: 1207, col: 23, offset: 37384},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1199, col: 32, offset: 37138},
+																				pos:        position{line: 1205, col: 32, offset: 37352},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1201, col: 51, offset: 37198},
+																				pos:   position{line: 1207, col: 51, offset: 37412},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1201, col: 56, offset: 37203},
+																					pos: position{line: 1207, col: 56, offset: 37417},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1201, col: 56, offset: 37203},
+																						pos: position{line: 1207, col: 56, offset: 37417},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1201, col: 56, offset: 37203},
+																							pos:        position{line: 1207, col: 56, offset: 37417},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20793,7 +20793,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1199, col: 32, offset: 37138},
+																				pos:        position{line: 1205, col: 32, offset: 37352},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20802,10 +20802,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2891, col: 11, offset: 91440},
+																	pos: position{line: 2897, col: 11, offset: 91654},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2891, col: 11, offset: 91440},
+																		pos:        position{line: 2897, col: 11, offset: 91654},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20822,10 +20822,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1320, col: 46, offset: 41473},
+							pos:   position{line: 1326, col: 46, offset: 41687},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1320, col: 58, offset: 41485},
+								pos:  position{line: 1326, col: 58, offset: 41699},
 								name: "InlineAttributes",
 							},
 						},
@@ -20835,29 +20835,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1327, col: 1, offset: 41881},
+			pos:  position{line: 1333, col: 1, offset: 42095},
 			expr: &actionExpr{
-				pos: position{line: 1327, col: 15, offset: 41895},
+				pos: position{line: 1333, col: 15, offset: 42109},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1327, col: 15, offset: 41895},
+					pos: position{line: 1333, col: 15, offset: 42109},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1327, col: 15, offset: 41895},
+							pos:        position{line: 1333, col: 15, offset: 42109},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1327, col: 23, offset: 41903},
+							pos:   position{line: 1333, col: 23, offset: 42117},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1327, col: 29, offset: 41909},
+								pos: position{line: 1333, col: 29, offset: 42123},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1327, col: 29, offset: 41909},
+									pos: position{line: 1333, col: 29, offset: 42123},
 									expr: &charClassMatcher{
-										pos:        position{line: 1327, col: 29, offset: 41909},
+										pos:        position{line: 1333, col: 29, offset: 42123},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20868,10 +20868,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1327, col: 73, offset: 41953},
+							pos:   position{line: 1333, col: 73, offset: 42167},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1327, col: 85, offset: 41965},
+								pos:  position{line: 1333, col: 85, offset: 42179},
 								name: "InlineAttributes",
 							},
 						},
@@ -20881,31 +20881,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1334, col: 1, offset: 42331},
+			pos:  position{line: 1340, col: 1, offset: 42545},
 			expr: &actionExpr{
-				pos: position{line: 1334, col: 19, offset: 42349},
+				pos: position{line: 1340, col: 19, offset: 42563},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1334, col: 19, offset: 42349},
+					pos: position{line: 1340, col: 19, offset: 42563},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1334, col: 19, offset: 42349},
+							pos:        position{line: 1340, col: 19, offset: 42563},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1334, col: 31, offset: 42361},
+							pos:   position{line: 1340, col: 31, offset: 42575},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1334, col: 35, offset: 42365},
+								pos: position{line: 1340, col: 35, offset: 42579},
 								expr: &actionExpr{
-									pos: position{line: 2806, col: 14, offset: 89094},
+									pos: position{line: 2812, col: 14, offset: 89308},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2806, col: 14, offset: 89094},
+										pos: position{line: 2812, col: 14, offset: 89308},
 										expr: &charClassMatcher{
-											pos:        position{line: 2806, col: 14, offset: 89094},
+											pos:        position{line: 2812, col: 14, offset: 89308},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20916,21 +20916,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1334, col: 50, offset: 42380},
+							pos:        position{line: 1340, col: 50, offset: 42594},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1334, col: 54, offset: 42384},
+							pos:   position{line: 1340, col: 54, offset: 42598},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1334, col: 64, offset: 42394},
+								pos:  position{line: 1340, col: 64, offset: 42608},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1334, col: 82, offset: 42412},
+							pos:        position{line: 1340, col: 82, offset: 42626},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20941,24 +20941,24 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1340, col: 1, offset: 42569},
+			pos:  position{line: 1346, col: 1, offset: 42783},
 			expr: &actionExpr{
-				pos: position{line: 1341, col: 5, offset: 42594},
+				pos: position{line: 1347, col: 5, offset: 42808},
 				run: (*parser).callonFootnoteElements1,
 				expr: &seqExpr{
-					pos: position{line: 1341, col: 5, offset: 42594},
+					pos: position{line: 1347, col: 5, offset: 42808},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1341, col: 5, offset: 42594},
+							pos: position{line: 1347, col: 5, offset: 42808},
 							run: (*parser).callonFootnoteElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1345, col: 5, offset: 42705},
+							pos:   position{line: 1351, col: 5, offset: 42919},
 							label: "elements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1345, col: 14, offset: 42714},
+								pos: position{line: 1351, col: 14, offset: 42928},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1345, col: 15, offset: 42715},
+									pos:  position{line: 1351, col: 15, offset: 42929},
 									name: "FootnoteElement",
 								},
 							},
@@ -20969,44 +20969,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1349, col: 1, offset: 42807},
+			pos:  position{line: 1355, col: 1, offset: 43021},
 			expr: &actionExpr{
-				pos: position{line: 1350, col: 5, offset: 42831},
+				pos: position{line: 1356, col: 5, offset: 43045},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1350, col: 5, offset: 42831},
+					pos: position{line: 1356, col: 5, offset: 43045},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1350, col: 5, offset: 42831},
+							pos: position{line: 1356, col: 5, offset: 43045},
 							expr: &litMatcher{
-								pos:        position{line: 1350, col: 6, offset: 42832},
+								pos:        position{line: 1356, col: 6, offset: 43046},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1351, col: 5, offset: 42841},
+							pos:   position{line: 1357, col: 5, offset: 43055},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1352, col: 9, offset: 42859},
+								pos: position{line: 1358, col: 9, offset: 43073},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2811, col: 5, offset: 89167},
+										pos: position{line: 2817, col: 5, offset: 89381},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2811, col: 5, offset: 89167},
+											pos: position{line: 2817, col: 5, offset: 89381},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2811, col: 5, offset: 89167},
+													pos:   position{line: 2817, col: 5, offset: 89381},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2811, col: 11, offset: 89173},
+														pos: position{line: 2817, col: 11, offset: 89387},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2811, col: 11, offset: 89173},
+															pos: position{line: 2817, col: 11, offset: 89387},
 															expr: &charClassMatcher{
-																pos:        position{line: 2811, col: 11, offset: 89173},
+																pos:        position{line: 2817, col: 11, offset: 89387},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21016,36 +21016,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2814, col: 5, offset: 89231},
+													pos: position{line: 2820, col: 5, offset: 89445},
 													expr: &seqExpr{
-														pos: position{line: 2815, col: 9, offset: 89242},
+														pos: position{line: 2821, col: 9, offset: 89456},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2815, col: 9, offset: 89242},
+																pos:        position{line: 2821, col: 9, offset: 89456},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2816, col: 9, offset: 89291},
+																pos: position{line: 2822, col: 9, offset: 89505},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2820, col: 5, offset: 89371},
+													pos: position{line: 2826, col: 5, offset: 89585},
 													expr: &seqExpr{
-														pos: position{line: 2821, col: 9, offset: 89382},
+														pos: position{line: 2827, col: 9, offset: 89596},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2821, col: 9, offset: 89382},
+																pos:        position{line: 2827, col: 9, offset: 89596},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2821, col: 13, offset: 89386},
+																pos:        position{line: 2827, col: 13, offset: 89600},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21058,12 +21058,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2916, col: 11, offset: 91986},
+										pos: position{line: 2922, col: 11, offset: 92200},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2916, col: 11, offset: 91986},
+											pos: position{line: 2922, col: 11, offset: 92200},
 											expr: &charClassMatcher{
-												pos:        position{line: 2916, col: 11, offset: 91986},
+												pos:        position{line: 2922, col: 11, offset: 92200},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21072,21 +21072,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2533, col: 5, offset: 81448},
+										pos: position{line: 2539, col: 5, offset: 81662},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2533, col: 5, offset: 81448},
+											pos: position{line: 2539, col: 5, offset: 81662},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2533, col: 5, offset: 81448},
+													pos:        position{line: 2539, col: 5, offset: 81662},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2533, col: 10, offset: 81453},
+													pos: position{line: 2539, col: 10, offset: 81667},
 													expr: &charClassMatcher{
-														pos:        position{line: 2533, col: 11, offset: 81454},
+														pos:        position{line: 2539, col: 11, offset: 81668},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21097,29 +21097,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2539, col: 5, offset: 81646},
+										pos: position{line: 2545, col: 5, offset: 81860},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2539, col: 5, offset: 81646},
+											pos: position{line: 2545, col: 5, offset: 81860},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2539, col: 5, offset: 81646},
+													pos: position{line: 2545, col: 5, offset: 81860},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2542, col: 5, offset: 81717},
+													pos: position{line: 2548, col: 5, offset: 81931},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2546, col: 5, offset: 81842},
+													pos:        position{line: 2552, col: 5, offset: 82056},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2546, col: 9, offset: 81846},
+													pos: position{line: 2552, col: 9, offset: 82060},
 													expr: &charClassMatcher{
-														pos:        position{line: 2546, col: 10, offset: 81847},
+														pos:        position{line: 2552, col: 10, offset: 82061},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21130,35 +21130,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1355, col: 11, offset: 42926},
+										pos:  position{line: 1361, col: 11, offset: 43140},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1356, col: 11, offset: 42942},
+										pos:  position{line: 1362, col: 11, offset: 43156},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2829, col: 5, offset: 89579},
+										pos: position{line: 2835, col: 5, offset: 89793},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2830, col: 9, offset: 89589},
+											pos: position{line: 2836, col: 9, offset: 89803},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2830, col: 10, offset: 89590},
+													pos:        position{line: 2836, col: 10, offset: 89804},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2832, col: 13, offset: 89687},
+													pos: position{line: 2838, col: 13, offset: 89901},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2832, col: 13, offset: 89687},
+															pos: position{line: 2838, col: 13, offset: 89901},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2835, col: 13, offset: 89787},
+															pos:        position{line: 2841, col: 13, offset: 90001},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21166,20 +21166,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2835, col: 19, offset: 89793},
+													pos:        position{line: 2841, col: 19, offset: 90007},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2838, col: 13, offset: 89831},
+													pos: position{line: 2844, col: 13, offset: 90045},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2838, col: 13, offset: 89831},
+															pos: position{line: 2844, col: 13, offset: 90045},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2841, col: 14, offset: 89924},
+															pos:        position{line: 2847, col: 14, offset: 90138},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21188,18 +21188,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2843, col: 12, offset: 89968},
+													pos: position{line: 2849, col: 12, offset: 90182},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2843, col: 12, offset: 89968},
+															pos:        position{line: 2849, col: 12, offset: 90182},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2843, col: 16, offset: 89972},
+															pos: position{line: 2849, col: 16, offset: 90186},
 															expr: &litMatcher{
-																pos:        position{line: 2843, col: 17, offset: 89973},
+																pos:        position{line: 2849, col: 17, offset: 90187},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21211,36 +21211,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1358, col: 11, offset: 43015},
+										pos:  position{line: 1364, col: 11, offset: 43229},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1209, col: 5, offset: 37616},
+										pos: position{line: 1215, col: 5, offset: 37830},
 										run: (*parser).callonFootnoteElement53,
 										expr: &seqExpr{
-											pos: position{line: 1209, col: 5, offset: 37616},
+											pos: position{line: 1215, col: 5, offset: 37830},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1209, col: 5, offset: 37616},
+													pos: position{line: 1215, col: 5, offset: 37830},
 													run: (*parser).callonFootnoteElement55,
 												},
 												&litMatcher{
-													pos:        position{line: 1212, col: 5, offset: 37692},
+													pos:        position{line: 1218, col: 5, offset: 37906},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1213, col: 5, offset: 37700},
+													pos: position{line: 1219, col: 5, offset: 37914},
 													run: (*parser).callonFootnoteElement57,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1217, col: 5, offset: 37787},
+													pos: position{line: 1223, col: 5, offset: 38001},
 													expr: &actionExpr{
-														pos: position{line: 2912, col: 10, offset: 91925},
+														pos: position{line: 2918, col: 10, offset: 92139},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2912, col: 10, offset: 91925},
+															pos:        position{line: 2918, col: 10, offset: 92139},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21249,30 +21249,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1217, col: 12, offset: 37794},
+													pos: position{line: 1223, col: 12, offset: 38008},
 													expr: &choiceExpr{
-														pos: position{line: 2934, col: 8, offset: 92323},
+														pos: position{line: 2940, col: 8, offset: 92537},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2921, col: 12, offset: 92096},
+																pos: position{line: 2927, col: 12, offset: 92310},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2921, col: 13, offset: 92097},
+																	pos: position{line: 2927, col: 13, offset: 92311},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 13, offset: 92097},
+																			pos:        position{line: 2927, col: 13, offset: 92311},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 20, offset: 92104},
+																			pos:        position{line: 2927, col: 20, offset: 92318},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 29, offset: 92113},
+																			pos:        position{line: 2927, col: 29, offset: 92327},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21281,9 +21281,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2931, col: 8, offset: 92273},
+																pos: position{line: 2937, col: 8, offset: 92487},
 																expr: &anyMatcher{
-																	line: 2931, col: 9, offset: 92274,
+																	line: 2937, col: 9, offset: 92488,
 																},
 															},
 														},
@@ -21293,35 +21293,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 639, col: 5, offset: 20305},
+										pos: position{line: 645, col: 5, offset: 20519},
 										run: (*parser).callonFootnoteElement70,
 										expr: &seqExpr{
-											pos: position{line: 639, col: 5, offset: 20305},
+											pos: position{line: 645, col: 5, offset: 20519},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 639, col: 5, offset: 20305},
+													pos: position{line: 645, col: 5, offset: 20519},
 													run: (*parser).callonFootnoteElement72,
 												},
 												&labeledExpr{
-													pos:   position{line: 642, col: 5, offset: 20377},
+													pos:   position{line: 648, col: 5, offset: 20591},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 642, col: 14, offset: 20386},
+														pos: position{line: 648, col: 14, offset: 20600},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 648, col: 5, offset: 20515},
+																pos: position{line: 654, col: 5, offset: 20729},
 																run: (*parser).callonFootnoteElement75,
 																expr: &seqExpr{
-																	pos: position{line: 648, col: 5, offset: 20515},
+																	pos: position{line: 654, col: 5, offset: 20729},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 648, col: 5, offset: 20515},
+																			pos:        position{line: 654, col: 5, offset: 20729},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 648, col: 13, offset: 20523},
+																			pos:   position{line: 654, col: 13, offset: 20737},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -21353,7 +21353,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 648, col: 32, offset: 20542},
+																			pos:        position{line: 654, col: 32, offset: 20756},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21362,19 +21362,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 655, col: 5, offset: 20783},
+																pos: position{line: 661, col: 5, offset: 20997},
 																run: (*parser).callonFootnoteElement85,
 																expr: &seqExpr{
-																	pos: position{line: 655, col: 5, offset: 20783},
+																	pos: position{line: 661, col: 5, offset: 20997},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 655, col: 5, offset: 20783},
+																			pos:        position{line: 661, col: 5, offset: 20997},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 655, col: 9, offset: 20787},
+																			pos:   position{line: 661, col: 9, offset: 21001},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -21406,7 +21406,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 655, col: 28, offset: 20806},
+																			pos:        position{line: 661, col: 28, offset: 21020},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21415,19 +21415,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 661, col: 25, offset: 20987},
+																pos: position{line: 667, col: 25, offset: 21201},
 																run: (*parser).callonFootnoteElement95,
 																expr: &seqExpr{
-																	pos: position{line: 661, col: 25, offset: 20987},
+																	pos: position{line: 667, col: 25, offset: 21201},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 661, col: 25, offset: 20987},
+																			pos:        position{line: 667, col: 25, offset: 21201},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 661, col: 37, offset: 20999},
+																			pos:   position{line: 667, col: 37, offset: 21213},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -21459,33 +21459,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 661, col: 56, offset: 21018},
+																			pos:   position{line: 667, col: 56, offset: 21232},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 661, col: 62, offset: 21024},
+																				pos: position{line: 667, col: 62, offset: 21238},
 																				expr: &actionExpr{
-																					pos: position{line: 669, col: 17, offset: 21321},
+																					pos: position{line: 675, col: 17, offset: 21535},
 																					run: (*parser).callonFootnoteElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 669, col: 17, offset: 21321},
+																						pos: position{line: 675, col: 17, offset: 21535},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 669, col: 17, offset: 21321},
+																								pos:        position{line: 675, col: 17, offset: 21535},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 669, col: 21, offset: 21325},
+																								pos:   position{line: 675, col: 21, offset: 21539},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 669, col: 28, offset: 21332},
+																									pos: position{line: 675, col: 28, offset: 21546},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 669, col: 28, offset: 21332},
+																											pos: position{line: 675, col: 28, offset: 21546},
 																											run: (*parser).callonFootnoteElement111,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 669, col: 28, offset: 21332},
+																												pos:        position{line: 675, col: 28, offset: 21546},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21493,12 +21493,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 671, col: 9, offset: 21386},
+																											pos: position{line: 677, col: 9, offset: 21600},
 																											run: (*parser).callonFootnoteElement113,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 671, col: 9, offset: 21386},
+																												pos: position{line: 677, col: 9, offset: 21600},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 671, col: 9, offset: 21386},
+																													pos:        position{line: 677, col: 9, offset: 21600},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21515,7 +21515,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 661, col: 78, offset: 21040},
+																			pos:        position{line: 667, col: 78, offset: 21254},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21524,19 +21524,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 665, col: 25, offset: 21158},
+																pos: position{line: 671, col: 25, offset: 21372},
 																run: (*parser).callonFootnoteElement117,
 																expr: &seqExpr{
-																	pos: position{line: 665, col: 25, offset: 21158},
+																	pos: position{line: 671, col: 25, offset: 21372},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 665, col: 25, offset: 21158},
+																			pos:        position{line: 671, col: 25, offset: 21372},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 665, col: 38, offset: 21171},
+																			pos:   position{line: 671, col: 38, offset: 21385},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -21568,33 +21568,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 665, col: 57, offset: 21190},
+																			pos:   position{line: 671, col: 57, offset: 21404},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 665, col: 63, offset: 21196},
+																				pos: position{line: 671, col: 63, offset: 21410},
 																				expr: &actionExpr{
-																					pos: position{line: 669, col: 17, offset: 21321},
+																					pos: position{line: 675, col: 17, offset: 21535},
 																					run: (*parser).callonFootnoteElement128,
 																					expr: &seqExpr{
-																						pos: position{line: 669, col: 17, offset: 21321},
+																						pos: position{line: 675, col: 17, offset: 21535},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 669, col: 17, offset: 21321},
+																								pos:        position{line: 675, col: 17, offset: 21535},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 669, col: 21, offset: 21325},
+																								pos:   position{line: 675, col: 21, offset: 21539},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 669, col: 28, offset: 21332},
+																									pos: position{line: 675, col: 28, offset: 21546},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 669, col: 28, offset: 21332},
+																											pos: position{line: 675, col: 28, offset: 21546},
 																											run: (*parser).callonFootnoteElement133,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 669, col: 28, offset: 21332},
+																												pos:        position{line: 675, col: 28, offset: 21546},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21602,12 +21602,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 671, col: 9, offset: 21386},
+																											pos: position{line: 677, col: 9, offset: 21600},
 																											run: (*parser).callonFootnoteElement135,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 671, col: 9, offset: 21386},
+																												pos: position{line: 677, col: 9, offset: 21600},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 671, col: 9, offset: 21386},
+																													pos:        position{line: 677, col: 9, offset: 21600},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21624,7 +21624,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 665, col: 79, offset: 21212},
+																			pos:        position{line: 671, col: 79, offset: 21426},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21639,23 +21639,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2502, col: 5, offset: 80249},
+										pos: position{line: 2508, col: 5, offset: 80463},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2502, col: 5, offset: 80249},
+											pos: position{line: 2508, col: 5, offset: 80463},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2502, col: 5, offset: 80249},
+													pos: position{line: 2508, col: 5, offset: 80463},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2505, col: 5, offset: 80325},
+													pos:   position{line: 2511, col: 5, offset: 80539},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2506, col: 9, offset: 80343},
+														pos: position{line: 2512, col: 9, offset: 80557},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2506, col: 10, offset: 80344},
+															pos:        position{line: 2512, col: 10, offset: 80558},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21667,25 +21667,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2921, col: 12, offset: 92096},
+										pos: position{line: 2927, col: 12, offset: 92310},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2921, col: 13, offset: 92097},
+											pos: position{line: 2927, col: 13, offset: 92311},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2921, col: 13, offset: 92097},
+													pos:        position{line: 2927, col: 13, offset: 92311},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2921, col: 20, offset: 92104},
+													pos:        position{line: 2927, col: 20, offset: 92318},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2921, col: 29, offset: 92113},
+													pos:        position{line: 2927, col: 29, offset: 92327},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21694,10 +21694,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2851, col: 12, offset: 90233},
+										pos: position{line: 2857, col: 12, offset: 90447},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2851, col: 12, offset: 90233},
+											pos:        position{line: 2857, col: 12, offset: 90447},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21713,32 +21713,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1397, col: 1, offset: 44860},
+			pos:  position{line: 1403, col: 1, offset: 45074},
 			expr: &choiceExpr{
-				pos: position{line: 1397, col: 21, offset: 44880},
+				pos: position{line: 1403, col: 21, offset: 45094},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1397, col: 21, offset: 44880},
+						pos: position{line: 1403, col: 21, offset: 45094},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1397, col: 21, offset: 44880},
+							pos: position{line: 1403, col: 21, offset: 45094},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1397, col: 21, offset: 44880},
+									pos:        position{line: 1403, col: 21, offset: 45094},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1397, col: 30, offset: 44889},
+									pos:   position{line: 1403, col: 30, offset: 45103},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1397, col: 38, offset: 44897},
+										pos: position{line: 1403, col: 38, offset: 45111},
 										expr: &actionExpr{
-											pos: position{line: 1403, col: 30, offset: 45223},
+											pos: position{line: 1409, col: 30, offset: 45437},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1403, col: 30, offset: 45223},
+												pos:        position{line: 1409, col: 30, offset: 45437},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21748,7 +21748,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1397, col: 67, offset: 44926},
+									pos:        position{line: 1403, col: 67, offset: 45140},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21757,34 +21757,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1399, col: 9, offset: 45030},
+						pos: position{line: 1405, col: 9, offset: 45244},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1399, col: 9, offset: 45030},
+							pos: position{line: 1405, col: 9, offset: 45244},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1399, col: 9, offset: 45030},
+									pos:        position{line: 1405, col: 9, offset: 45244},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1399, col: 19, offset: 45040},
+									pos:   position{line: 1405, col: 19, offset: 45254},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1399, col: 27, offset: 45048},
+										pos: position{line: 1405, col: 27, offset: 45262},
 										expr: &choiceExpr{
-											pos: position{line: 1399, col: 28, offset: 45049},
+											pos: position{line: 1405, col: 28, offset: 45263},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1399, col: 28, offset: 45049},
+													pos:  position{line: 1405, col: 28, offset: 45263},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1403, col: 30, offset: 45223},
+													pos: position{line: 1409, col: 30, offset: 45437},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1403, col: 30, offset: 45223},
+														pos:        position{line: 1409, col: 30, offset: 45437},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -21796,7 +21796,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1399, col: 69, offset: 45090},
+									pos:        position{line: 1405, col: 69, offset: 45304},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21809,75 +21809,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1410, col: 1, offset: 45479},
+			pos:  position{line: 1416, col: 1, offset: 45693},
 			expr: &choiceExpr{
-				pos: position{line: 1410, col: 9, offset: 45487},
+				pos: position{line: 1416, col: 9, offset: 45701},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1413, col: 5, offset: 45556},
+						pos: position{line: 1419, col: 5, offset: 45770},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1413, col: 5, offset: 45556},
+							pos: position{line: 1419, col: 5, offset: 45770},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1413, col: 5, offset: 45556},
+									pos:        position{line: 1419, col: 5, offset: 45770},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1414, col: 5, offset: 45565},
+									pos:   position{line: 1420, col: 5, offset: 45779},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2874, col: 23, offset: 90811},
+										pos: position{line: 2880, col: 23, offset: 91025},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2874, col: 23, offset: 90811},
+											pos: position{line: 2880, col: 23, offset: 91025},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2874, col: 23, offset: 90811},
+													pos: position{line: 2880, col: 23, offset: 91025},
 													expr: &litMatcher{
-														pos:        position{line: 2874, col: 24, offset: 90812},
+														pos:        position{line: 2880, col: 24, offset: 91026},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2874, col: 28, offset: 90816},
+													pos:   position{line: 2880, col: 28, offset: 91030},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 11, offset: 90930},
+														pos: position{line: 2884, col: 11, offset: 91144},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2878, col: 12, offset: 90931},
+															pos: position{line: 2884, col: 12, offset: 91145},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2878, col: 12, offset: 90931},
+																	pos:        position{line: 2884, col: 12, offset: 91145},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2878, col: 24, offset: 90943},
+																	pos:        position{line: 2884, col: 24, offset: 91157},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2878, col: 37, offset: 90956},
+																	pos:        position{line: 2884, col: 37, offset: 91170},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2878, col: 48, offset: 90967},
+																	pos:        position{line: 2884, col: 48, offset: 91181},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2878, col: 59, offset: 90978},
+																	pos:        position{line: 2884, col: 59, offset: 91192},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21887,38 +21887,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2874, col: 44, offset: 90832},
+													pos:   position{line: 2880, col: 44, offset: 91046},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2883, col: 5, offset: 91042},
+														pos: position{line: 2889, col: 5, offset: 91256},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2883, col: 5, offset: 91042},
+															pos:   position{line: 2889, col: 5, offset: 91256},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2883, col: 14, offset: 91051},
+																pos: position{line: 2889, col: 14, offset: 91265},
 																expr: &choiceExpr{
-																	pos: position{line: 2884, col: 9, offset: 91061},
+																	pos: position{line: 2890, col: 9, offset: 91275},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 9, offset: 91061},
+																			pos: position{line: 2890, col: 9, offset: 91275},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2884, col: 9, offset: 91061},
+																				pos: position{line: 2890, col: 9, offset: 91275},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2884, col: 9, offset: 91061},
+																						pos: position{line: 2890, col: 9, offset: 91275},
 																						expr: &litMatcher{
-																							pos:        position{line: 2884, col: 10, offset: 91062},
+																							pos:        position{line: 2890, col: 10, offset: 91276},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2885, col: 9, offset: 91090},
+																						pos: position{line: 2891, col: 9, offset: 91304},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2885, col: 10, offset: 91091},
+																							pos:        position{line: 2891, col: 10, offset: 91305},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21929,27 +21929,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2888, col: 11, offset: 91303},
+																			pos: position{line: 2894, col: 11, offset: 91517},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2888, col: 11, offset: 91303},
+																					pos:        position{line: 2894, col: 11, offset: 91517},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2888, col: 19, offset: 91311},
+																					pos: position{line: 2894, col: 19, offset: 91525},
 																					expr: &seqExpr{
-																						pos: position{line: 2888, col: 21, offset: 91313},
+																						pos: position{line: 2894, col: 21, offset: 91527},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2888, col: 21, offset: 91313},
+																								pos: position{line: 2894, col: 21, offset: 91527},
 																								expr: &actionExpr{
-																									pos: position{line: 2912, col: 10, offset: 91925},
+																									pos: position{line: 2918, col: 10, offset: 92139},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2912, col: 10, offset: 91925},
+																										pos:        position{line: 2918, col: 10, offset: 92139},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21958,11 +21958,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2888, col: 28, offset: 91320},
+																								pos: position{line: 2894, col: 28, offset: 91534},
 																								expr: &notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -21972,35 +21972,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 639, col: 5, offset: 20305},
+																			pos: position{line: 645, col: 5, offset: 20519},
 																			run: (*parser).callonLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 639, col: 5, offset: 20305},
+																				pos: position{line: 645, col: 5, offset: 20519},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 639, col: 5, offset: 20305},
+																						pos: position{line: 645, col: 5, offset: 20519},
 																						run: (*parser).callonLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 642, col: 5, offset: 20377},
+																						pos:   position{line: 648, col: 5, offset: 20591},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 642, col: 14, offset: 20386},
+																							pos: position{line: 648, col: 14, offset: 20600},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 648, col: 5, offset: 20515},
+																									pos: position{line: 654, col: 5, offset: 20729},
 																									run: (*parser).callonLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 648, col: 5, offset: 20515},
+																										pos: position{line: 654, col: 5, offset: 20729},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 648, col: 5, offset: 20515},
+																												pos:        position{line: 654, col: 5, offset: 20729},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 648, col: 13, offset: 20523},
+																												pos:   position{line: 654, col: 13, offset: 20737},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22032,7 +22032,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 648, col: 32, offset: 20542},
+																												pos:        position{line: 654, col: 32, offset: 20756},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22041,19 +22041,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 655, col: 5, offset: 20783},
+																									pos: position{line: 661, col: 5, offset: 20997},
 																									run: (*parser).callonLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 655, col: 5, offset: 20783},
+																										pos: position{line: 661, col: 5, offset: 20997},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 655, col: 5, offset: 20783},
+																												pos:        position{line: 661, col: 5, offset: 20997},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 655, col: 9, offset: 20787},
+																												pos:   position{line: 661, col: 9, offset: 21001},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22085,7 +22085,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 655, col: 28, offset: 20806},
+																												pos:        position{line: 661, col: 28, offset: 21020},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22094,19 +22094,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 661, col: 25, offset: 20987},
+																									pos: position{line: 667, col: 25, offset: 21201},
 																									run: (*parser).callonLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 661, col: 25, offset: 20987},
+																										pos: position{line: 667, col: 25, offset: 21201},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 661, col: 25, offset: 20987},
+																												pos:        position{line: 667, col: 25, offset: 21201},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 37, offset: 20999},
+																												pos:   position{line: 667, col: 37, offset: 21213},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22138,33 +22138,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 56, offset: 21018},
+																												pos:   position{line: 667, col: 56, offset: 21232},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 661, col: 62, offset: 21024},
+																													pos: position{line: 667, col: 62, offset: 21238},
 																													expr: &actionExpr{
-																														pos: position{line: 669, col: 17, offset: 21321},
+																														pos: position{line: 675, col: 17, offset: 21535},
 																														run: (*parser).callonLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 669, col: 17, offset: 21321},
+																															pos: position{line: 675, col: 17, offset: 21535},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 669, col: 17, offset: 21321},
+																																	pos:        position{line: 675, col: 17, offset: 21535},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 669, col: 21, offset: 21325},
+																																	pos:   position{line: 675, col: 21, offset: 21539},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 669, col: 28, offset: 21332},
+																																		pos: position{line: 675, col: 28, offset: 21546},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 28, offset: 21332},
+																																				pos: position{line: 675, col: 28, offset: 21546},
 																																				run: (*parser).callonLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 669, col: 28, offset: 21332},
+																																					pos:        position{line: 675, col: 28, offset: 21546},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22172,12 +22172,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 671, col: 9, offset: 21386},
+																																				pos: position{line: 677, col: 9, offset: 21600},
 																																				run: (*parser).callonLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 671, col: 9, offset: 21386},
+																																					pos: position{line: 677, col: 9, offset: 21600},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 671, col: 9, offset: 21386},
+																																						pos:        position{line: 677, col: 9, offset: 21600},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22194,7 +22194,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 661, col: 78, offset: 21040},
+																												pos:        position{line: 667, col: 78, offset: 21254},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22203,19 +22203,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 25, offset: 21158},
+																									pos: position{line: 671, col: 25, offset: 21372},
 																									run: (*parser).callonLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 25, offset: 21158},
+																										pos: position{line: 671, col: 25, offset: 21372},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 25, offset: 21158},
+																												pos:        position{line: 671, col: 25, offset: 21372},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 38, offset: 21171},
+																												pos:   position{line: 671, col: 38, offset: 21385},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22247,33 +22247,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 57, offset: 21190},
+																												pos:   position{line: 671, col: 57, offset: 21404},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 665, col: 63, offset: 21196},
+																													pos: position{line: 671, col: 63, offset: 21410},
 																													expr: &actionExpr{
-																														pos: position{line: 669, col: 17, offset: 21321},
+																														pos: position{line: 675, col: 17, offset: 21535},
 																														run: (*parser).callonLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 669, col: 17, offset: 21321},
+																															pos: position{line: 675, col: 17, offset: 21535},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 669, col: 17, offset: 21321},
+																																	pos:        position{line: 675, col: 17, offset: 21535},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 669, col: 21, offset: 21325},
+																																	pos:   position{line: 675, col: 21, offset: 21539},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 669, col: 28, offset: 21332},
+																																		pos: position{line: 675, col: 28, offset: 21546},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 28, offset: 21332},
+																																				pos: position{line: 675, col: 28, offset: 21546},
 																																				run: (*parser).callonLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 669, col: 28, offset: 21332},
+																																					pos:        position{line: 675, col: 28, offset: 21546},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22281,12 +22281,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 671, col: 9, offset: 21386},
+																																				pos: position{line: 677, col: 9, offset: 21600},
 																																				run: (*parser).callonLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 671, col: 9, offset: 21386},
+																																					pos: position{line: 677, col: 9, offset: 21600},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 671, col: 9, offset: 21386},
+																																						pos:        position{line: 677, col: 9, offset: 21600},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22303,7 +22303,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 79, offset: 21212},
+																												pos:        position{line: 671, col: 79, offset: 21426},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22318,27 +22318,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1201, col: 23, offset: 37170},
+																			pos: position{line: 1207, col: 23, offset: 37384},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1201, col: 23, offset: 37170},
+																				pos: position{line: 1207, col: 23, offset: 37384},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1199, col: 32, offset: 37138},
+																						pos:        position{line: 1205, col: 32, offset: 37352},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1201, col: 51, offset: 37198},
+																						pos:   position{line: 1207, col: 51, offset: 37412},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1201, col: 56, offset: 37203},
+																							pos: position{line: 1207, col: 56, offset: 37417},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1201, col: 56, offset: 37203},
+																								pos: position{line: 1207, col: 56, offset: 37417},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1201, col: 56, offset: 37203},
+																									pos:        position{line: 1207, col: 56, offset: 37417},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22348,7 +22348,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1199, col: 32, offset: 37138},
+																						pos:        position{line: 1205, col: 32, offset: 37352},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22357,10 +22357,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2891, col: 11, offset: 91440},
+																			pos: position{line: 2897, col: 11, offset: 91654},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2891, col: 11, offset: 91440},
+																				pos:        position{line: 2897, col: 11, offset: 91654},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22377,7 +22377,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1419, col: 5, offset: 45784},
+									pos:        position{line: 1425, col: 5, offset: 45998},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22386,38 +22386,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1410, col: 19, offset: 45497},
+						pos:  position{line: 1416, col: 19, offset: 45711},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1410, col: 34, offset: 45512},
+						pos:  position{line: 1416, col: 34, offset: 45726},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1448, col: 17, offset: 46777},
+						pos: position{line: 1454, col: 17, offset: 46991},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1448, col: 17, offset: 46777},
+							pos: position{line: 1454, col: 17, offset: 46991},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1448, col: 17, offset: 46777},
+									pos:   position{line: 1454, col: 17, offset: 46991},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1453, col: 5, offset: 46942},
+										pos: position{line: 1459, col: 5, offset: 47156},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1453, col: 5, offset: 46942},
+											pos: position{line: 1459, col: 5, offset: 47156},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1453, col: 5, offset: 46942},
+													pos:   position{line: 1459, col: 5, offset: 47156},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1453, col: 12, offset: 46949},
+														pos: position{line: 1459, col: 12, offset: 47163},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1453, col: 12, offset: 46949},
+															pos: position{line: 1459, col: 12, offset: 47163},
 															expr: &charClassMatcher{
-																pos:        position{line: 1453, col: 12, offset: 46949},
+																pos:        position{line: 1459, col: 12, offset: 47163},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22429,7 +22429,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1456, col: 5, offset: 47033},
+													pos: position{line: 1462, col: 5, offset: 47247},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -22437,33 +22437,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1448, col: 43, offset: 46803},
+									pos:        position{line: 1454, col: 43, offset: 47017},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1448, col: 47, offset: 46807},
+									pos:   position{line: 1454, col: 47, offset: 47021},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1465, col: 23, offset: 47327},
+										pos: position{line: 1471, col: 23, offset: 47541},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1465, col: 23, offset: 47327},
+											pos: position{line: 1471, col: 23, offset: 47541},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1465, col: 23, offset: 47327},
+													pos:   position{line: 1471, col: 23, offset: 47541},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1465, col: 31, offset: 47335},
+														pos: position{line: 1471, col: 31, offset: 47549},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1465, col: 31, offset: 47335},
+															pos: position{line: 1471, col: 31, offset: 47549},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1465, col: 31, offset: 47335},
+																	pos: position{line: 1471, col: 31, offset: 47549},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1465, col: 31, offset: 47335},
+																		pos:        position{line: 1471, col: 31, offset: 47549},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -22471,20 +22471,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1465, col: 41, offset: 47345},
+																	pos: position{line: 1471, col: 41, offset: 47559},
 																	expr: &seqExpr{
-																		pos: position{line: 1465, col: 42, offset: 47346},
+																		pos: position{line: 1471, col: 42, offset: 47560},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1465, col: 42, offset: 47346},
+																				pos:        position{line: 1471, col: 42, offset: 47560},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1465, col: 46, offset: 47350},
+																				pos: position{line: 1471, col: 46, offset: 47564},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1465, col: 46, offset: 47350},
+																					pos:        position{line: 1471, col: 46, offset: 47564},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22500,7 +22500,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1468, col: 5, offset: 47411},
+													pos: position{line: 1474, col: 5, offset: 47625},
 													run: (*parser).callonLink145,
 												},
 											},
@@ -22515,68 +22515,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1425, col: 1, offset: 45932},
+			pos:  position{line: 1431, col: 1, offset: 46146},
 			expr: &choiceExpr{
-				pos: position{line: 1427, col: 5, offset: 45968},
+				pos: position{line: 1433, col: 5, offset: 46182},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1427, col: 5, offset: 45968},
+						pos: position{line: 1433, col: 5, offset: 46182},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1427, col: 5, offset: 45968},
+							pos: position{line: 1433, col: 5, offset: 46182},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1427, col: 5, offset: 45968},
+									pos:        position{line: 1433, col: 5, offset: 46182},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1427, col: 17, offset: 45980},
+									pos:   position{line: 1433, col: 17, offset: 46194},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2870, col: 13, offset: 90684},
+										pos: position{line: 2876, col: 13, offset: 90898},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2870, col: 13, offset: 90684},
+											pos: position{line: 2876, col: 13, offset: 90898},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2870, col: 13, offset: 90684},
+													pos:   position{line: 2876, col: 13, offset: 90898},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2870, col: 20, offset: 90691},
+														pos: position{line: 2876, col: 20, offset: 90905},
 														expr: &actionExpr{
-															pos: position{line: 2878, col: 11, offset: 90930},
+															pos: position{line: 2884, col: 11, offset: 91144},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2878, col: 12, offset: 90931},
+																pos: position{line: 2884, col: 12, offset: 91145},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2878, col: 12, offset: 90931},
+																		pos:        position{line: 2884, col: 12, offset: 91145},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2878, col: 24, offset: 90943},
+																		pos:        position{line: 2884, col: 24, offset: 91157},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2878, col: 37, offset: 90956},
+																		pos:        position{line: 2884, col: 37, offset: 91170},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2878, col: 48, offset: 90967},
+																		pos:        position{line: 2884, col: 48, offset: 91181},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2878, col: 59, offset: 90978},
+																		pos:        position{line: 2884, col: 59, offset: 91192},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22587,38 +22587,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2870, col: 30, offset: 90701},
+													pos:   position{line: 2876, col: 30, offset: 90915},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2883, col: 5, offset: 91042},
+														pos: position{line: 2889, col: 5, offset: 91256},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2883, col: 5, offset: 91042},
+															pos:   position{line: 2889, col: 5, offset: 91256},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2883, col: 14, offset: 91051},
+																pos: position{line: 2889, col: 14, offset: 91265},
 																expr: &choiceExpr{
-																	pos: position{line: 2884, col: 9, offset: 91061},
+																	pos: position{line: 2890, col: 9, offset: 91275},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 9, offset: 91061},
+																			pos: position{line: 2890, col: 9, offset: 91275},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2884, col: 9, offset: 91061},
+																				pos: position{line: 2890, col: 9, offset: 91275},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2884, col: 9, offset: 91061},
+																						pos: position{line: 2890, col: 9, offset: 91275},
 																						expr: &litMatcher{
-																							pos:        position{line: 2884, col: 10, offset: 91062},
+																							pos:        position{line: 2890, col: 10, offset: 91276},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2885, col: 9, offset: 91090},
+																						pos: position{line: 2891, col: 9, offset: 91304},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2885, col: 10, offset: 91091},
+																							pos:        position{line: 2891, col: 10, offset: 91305},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22629,27 +22629,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2888, col: 11, offset: 91303},
+																			pos: position{line: 2894, col: 11, offset: 91517},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2888, col: 11, offset: 91303},
+																					pos:        position{line: 2894, col: 11, offset: 91517},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2888, col: 19, offset: 91311},
+																					pos: position{line: 2894, col: 19, offset: 91525},
 																					expr: &seqExpr{
-																						pos: position{line: 2888, col: 21, offset: 91313},
+																						pos: position{line: 2894, col: 21, offset: 91527},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2888, col: 21, offset: 91313},
+																								pos: position{line: 2894, col: 21, offset: 91527},
 																								expr: &actionExpr{
-																									pos: position{line: 2912, col: 10, offset: 91925},
+																									pos: position{line: 2918, col: 10, offset: 92139},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2912, col: 10, offset: 91925},
+																										pos:        position{line: 2918, col: 10, offset: 92139},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22658,11 +22658,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2888, col: 28, offset: 91320},
+																								pos: position{line: 2894, col: 28, offset: 91534},
 																								expr: &notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -22672,35 +22672,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 639, col: 5, offset: 20305},
+																			pos: position{line: 645, col: 5, offset: 20519},
 																			run: (*parser).callonRelativeLink38,
 																			expr: &seqExpr{
-																				pos: position{line: 639, col: 5, offset: 20305},
+																				pos: position{line: 645, col: 5, offset: 20519},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 639, col: 5, offset: 20305},
+																						pos: position{line: 645, col: 5, offset: 20519},
 																						run: (*parser).callonRelativeLink40,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 642, col: 5, offset: 20377},
+																						pos:   position{line: 648, col: 5, offset: 20591},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 642, col: 14, offset: 20386},
+																							pos: position{line: 648, col: 14, offset: 20600},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 648, col: 5, offset: 20515},
+																									pos: position{line: 654, col: 5, offset: 20729},
 																									run: (*parser).callonRelativeLink43,
 																									expr: &seqExpr{
-																										pos: position{line: 648, col: 5, offset: 20515},
+																										pos: position{line: 654, col: 5, offset: 20729},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 648, col: 5, offset: 20515},
+																												pos:        position{line: 654, col: 5, offset: 20729},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 648, col: 13, offset: 20523},
+																												pos:   position{line: 654, col: 13, offset: 20737},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22732,7 +22732,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 648, col: 32, offset: 20542},
+																												pos:        position{line: 654, col: 32, offset: 20756},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22741,19 +22741,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 655, col: 5, offset: 20783},
+																									pos: position{line: 661, col: 5, offset: 20997},
 																									run: (*parser).callonRelativeLink53,
 																									expr: &seqExpr{
-																										pos: position{line: 655, col: 5, offset: 20783},
+																										pos: position{line: 661, col: 5, offset: 20997},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 655, col: 5, offset: 20783},
+																												pos:        position{line: 661, col: 5, offset: 20997},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 655, col: 9, offset: 20787},
+																												pos:   position{line: 661, col: 9, offset: 21001},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22785,7 +22785,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 655, col: 28, offset: 20806},
+																												pos:        position{line: 661, col: 28, offset: 21020},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22794,19 +22794,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 661, col: 25, offset: 20987},
+																									pos: position{line: 667, col: 25, offset: 21201},
 																									run: (*parser).callonRelativeLink63,
 																									expr: &seqExpr{
-																										pos: position{line: 661, col: 25, offset: 20987},
+																										pos: position{line: 667, col: 25, offset: 21201},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 661, col: 25, offset: 20987},
+																												pos:        position{line: 667, col: 25, offset: 21201},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 37, offset: 20999},
+																												pos:   position{line: 667, col: 37, offset: 21213},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22838,33 +22838,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 56, offset: 21018},
+																												pos:   position{line: 667, col: 56, offset: 21232},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 661, col: 62, offset: 21024},
+																													pos: position{line: 667, col: 62, offset: 21238},
 																													expr: &actionExpr{
-																														pos: position{line: 669, col: 17, offset: 21321},
+																														pos: position{line: 675, col: 17, offset: 21535},
 																														run: (*parser).callonRelativeLink74,
 																														expr: &seqExpr{
-																															pos: position{line: 669, col: 17, offset: 21321},
+																															pos: position{line: 675, col: 17, offset: 21535},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 669, col: 17, offset: 21321},
+																																	pos:        position{line: 675, col: 17, offset: 21535},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 669, col: 21, offset: 21325},
+																																	pos:   position{line: 675, col: 21, offset: 21539},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 669, col: 28, offset: 21332},
+																																		pos: position{line: 675, col: 28, offset: 21546},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 28, offset: 21332},
+																																				pos: position{line: 675, col: 28, offset: 21546},
 																																				run: (*parser).callonRelativeLink79,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 669, col: 28, offset: 21332},
+																																					pos:        position{line: 675, col: 28, offset: 21546},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22872,12 +22872,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 671, col: 9, offset: 21386},
+																																				pos: position{line: 677, col: 9, offset: 21600},
 																																				run: (*parser).callonRelativeLink81,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 671, col: 9, offset: 21386},
+																																					pos: position{line: 677, col: 9, offset: 21600},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 671, col: 9, offset: 21386},
+																																						pos:        position{line: 677, col: 9, offset: 21600},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22894,7 +22894,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 661, col: 78, offset: 21040},
+																												pos:        position{line: 667, col: 78, offset: 21254},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22903,19 +22903,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 25, offset: 21158},
+																									pos: position{line: 671, col: 25, offset: 21372},
 																									run: (*parser).callonRelativeLink85,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 25, offset: 21158},
+																										pos: position{line: 671, col: 25, offset: 21372},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 25, offset: 21158},
+																												pos:        position{line: 671, col: 25, offset: 21372},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 38, offset: 21171},
+																												pos:   position{line: 671, col: 38, offset: 21385},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22947,33 +22947,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 57, offset: 21190},
+																												pos:   position{line: 671, col: 57, offset: 21404},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 665, col: 63, offset: 21196},
+																													pos: position{line: 671, col: 63, offset: 21410},
 																													expr: &actionExpr{
-																														pos: position{line: 669, col: 17, offset: 21321},
+																														pos: position{line: 675, col: 17, offset: 21535},
 																														run: (*parser).callonRelativeLink96,
 																														expr: &seqExpr{
-																															pos: position{line: 669, col: 17, offset: 21321},
+																															pos: position{line: 675, col: 17, offset: 21535},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 669, col: 17, offset: 21321},
+																																	pos:        position{line: 675, col: 17, offset: 21535},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 669, col: 21, offset: 21325},
+																																	pos:   position{line: 675, col: 21, offset: 21539},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 669, col: 28, offset: 21332},
+																																		pos: position{line: 675, col: 28, offset: 21546},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 28, offset: 21332},
+																																				pos: position{line: 675, col: 28, offset: 21546},
 																																				run: (*parser).callonRelativeLink101,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 669, col: 28, offset: 21332},
+																																					pos:        position{line: 675, col: 28, offset: 21546},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22981,12 +22981,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 671, col: 9, offset: 21386},
+																																				pos: position{line: 677, col: 9, offset: 21600},
 																																				run: (*parser).callonRelativeLink103,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 671, col: 9, offset: 21386},
+																																					pos: position{line: 677, col: 9, offset: 21600},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 671, col: 9, offset: 21386},
+																																						pos:        position{line: 677, col: 9, offset: 21600},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23003,7 +23003,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 79, offset: 21212},
+																												pos:        position{line: 671, col: 79, offset: 21426},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23018,27 +23018,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1201, col: 23, offset: 37170},
+																			pos: position{line: 1207, col: 23, offset: 37384},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1201, col: 23, offset: 37170},
+																				pos: position{line: 1207, col: 23, offset: 37384},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1199, col: 32, offset: 37138},
+																						pos:        position{line: 1205, col: 32, offset: 37352},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1201, col: 51, offset: 37198},
+																						pos:   position{line: 1207, col: 51, offset: 37412},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1201, col: 56, offset: 37203},
+																							pos: position{line: 1207, col: 56, offset: 37417},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1201, col: 56, offset: 37203},
+																								pos: position{line: 1207, col: 56, offset: 37417},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1201, col: 56, offset: 37203},
+																									pos:        position{line: 1207, col: 56, offset: 37417},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23048,7 +23048,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1199, col: 32, offset: 37138},
+																						pos:        position{line: 1205, col: 32, offset: 37352},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23057,10 +23057,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2891, col: 11, offset: 91440},
+																			pos: position{line: 2897, col: 11, offset: 91654},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2891, col: 11, offset: 91440},
+																				pos:        position{line: 2897, col: 11, offset: 91654},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23077,10 +23077,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1427, col: 32, offset: 45995},
+									pos:   position{line: 1433, col: 32, offset: 46209},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1427, col: 44, offset: 46007},
+										pos:  position{line: 1433, col: 44, offset: 46221},
 										name: "InlineAttributes",
 									},
 								},
@@ -23088,63 +23088,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1432, col: 5, offset: 46139},
+						pos: position{line: 1438, col: 5, offset: 46353},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1432, col: 5, offset: 46139},
+							pos: position{line: 1438, col: 5, offset: 46353},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1432, col: 5, offset: 46139},
+									pos:        position{line: 1438, col: 5, offset: 46353},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1432, col: 13, offset: 46147},
+									pos:   position{line: 1438, col: 13, offset: 46361},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2870, col: 13, offset: 90684},
+										pos: position{line: 2876, col: 13, offset: 90898},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2870, col: 13, offset: 90684},
+											pos: position{line: 2876, col: 13, offset: 90898},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2870, col: 13, offset: 90684},
+													pos:   position{line: 2876, col: 13, offset: 90898},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2870, col: 20, offset: 90691},
+														pos: position{line: 2876, col: 20, offset: 90905},
 														expr: &actionExpr{
-															pos: position{line: 2878, col: 11, offset: 90930},
+															pos: position{line: 2884, col: 11, offset: 91144},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2878, col: 12, offset: 90931},
+																pos: position{line: 2884, col: 12, offset: 91145},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2878, col: 12, offset: 90931},
+																		pos:        position{line: 2884, col: 12, offset: 91145},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2878, col: 24, offset: 90943},
+																		pos:        position{line: 2884, col: 24, offset: 91157},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2878, col: 37, offset: 90956},
+																		pos:        position{line: 2884, col: 37, offset: 91170},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2878, col: 48, offset: 90967},
+																		pos:        position{line: 2884, col: 48, offset: 91181},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2878, col: 59, offset: 90978},
+																		pos:        position{line: 2884, col: 59, offset: 91192},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23155,38 +23155,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2870, col: 30, offset: 90701},
+													pos:   position{line: 2876, col: 30, offset: 90915},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2883, col: 5, offset: 91042},
+														pos: position{line: 2889, col: 5, offset: 91256},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2883, col: 5, offset: 91042},
+															pos:   position{line: 2889, col: 5, offset: 91256},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2883, col: 14, offset: 91051},
+																pos: position{line: 2889, col: 14, offset: 91265},
 																expr: &choiceExpr{
-																	pos: position{line: 2884, col: 9, offset: 91061},
+																	pos: position{line: 2890, col: 9, offset: 91275},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 9, offset: 91061},
+																			pos: position{line: 2890, col: 9, offset: 91275},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2884, col: 9, offset: 91061},
+																				pos: position{line: 2890, col: 9, offset: 91275},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2884, col: 9, offset: 91061},
+																						pos: position{line: 2890, col: 9, offset: 91275},
 																						expr: &litMatcher{
-																							pos:        position{line: 2884, col: 10, offset: 91062},
+																							pos:        position{line: 2890, col: 10, offset: 91276},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2885, col: 9, offset: 91090},
+																						pos: position{line: 2891, col: 9, offset: 91304},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2885, col: 10, offset: 91091},
+																							pos:        position{line: 2891, col: 10, offset: 91305},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23197,27 +23197,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2888, col: 11, offset: 91303},
+																			pos: position{line: 2894, col: 11, offset: 91517},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2888, col: 11, offset: 91303},
+																					pos:        position{line: 2894, col: 11, offset: 91517},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2888, col: 19, offset: 91311},
+																					pos: position{line: 2894, col: 19, offset: 91525},
 																					expr: &seqExpr{
-																						pos: position{line: 2888, col: 21, offset: 91313},
+																						pos: position{line: 2894, col: 21, offset: 91527},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2888, col: 21, offset: 91313},
+																								pos: position{line: 2894, col: 21, offset: 91527},
 																								expr: &actionExpr{
-																									pos: position{line: 2912, col: 10, offset: 91925},
+																									pos: position{line: 2918, col: 10, offset: 92139},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2912, col: 10, offset: 91925},
+																										pos:        position{line: 2918, col: 10, offset: 92139},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23226,11 +23226,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2888, col: 28, offset: 91320},
+																								pos: position{line: 2894, col: 28, offset: 91534},
 																								expr: &notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -23240,35 +23240,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 639, col: 5, offset: 20305},
+																			pos: position{line: 645, col: 5, offset: 20519},
 																			run: (*parser).callonRelativeLink155,
 																			expr: &seqExpr{
-																				pos: position{line: 639, col: 5, offset: 20305},
+																				pos: position{line: 645, col: 5, offset: 20519},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 639, col: 5, offset: 20305},
+																						pos: position{line: 645, col: 5, offset: 20519},
 																						run: (*parser).callonRelativeLink157,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 642, col: 5, offset: 20377},
+																						pos:   position{line: 648, col: 5, offset: 20591},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 642, col: 14, offset: 20386},
+																							pos: position{line: 648, col: 14, offset: 20600},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 648, col: 5, offset: 20515},
+																									pos: position{line: 654, col: 5, offset: 20729},
 																									run: (*parser).callonRelativeLink160,
 																									expr: &seqExpr{
-																										pos: position{line: 648, col: 5, offset: 20515},
+																										pos: position{line: 654, col: 5, offset: 20729},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 648, col: 5, offset: 20515},
+																												pos:        position{line: 654, col: 5, offset: 20729},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 648, col: 13, offset: 20523},
+																												pos:   position{line: 654, col: 13, offset: 20737},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23300,7 +23300,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 648, col: 32, offset: 20542},
+																												pos:        position{line: 654, col: 32, offset: 20756},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23309,19 +23309,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 655, col: 5, offset: 20783},
+																									pos: position{line: 661, col: 5, offset: 20997},
 																									run: (*parser).callonRelativeLink170,
 																									expr: &seqExpr{
-																										pos: position{line: 655, col: 5, offset: 20783},
+																										pos: position{line: 661, col: 5, offset: 20997},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 655, col: 5, offset: 20783},
+																												pos:        position{line: 661, col: 5, offset: 20997},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 655, col: 9, offset: 20787},
+																												pos:   position{line: 661, col: 9, offset: 21001},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23353,7 +23353,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 655, col: 28, offset: 20806},
+																												pos:        position{line: 661, col: 28, offset: 21020},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23362,19 +23362,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 661, col: 25, offset: 20987},
+																									pos: position{line: 667, col: 25, offset: 21201},
 																									run: (*parser).callonRelativeLink180,
 																									expr: &seqExpr{
-																										pos: position{line: 661, col: 25, offset: 20987},
+																										pos: position{line: 667, col: 25, offset: 21201},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 661, col: 25, offset: 20987},
+																												pos:        position{line: 667, col: 25, offset: 21201},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 37, offset: 20999},
+																												pos:   position{line: 667, col: 37, offset: 21213},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23406,33 +23406,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 56, offset: 21018},
+																												pos:   position{line: 667, col: 56, offset: 21232},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 661, col: 62, offset: 21024},
+																													pos: position{line: 667, col: 62, offset: 21238},
 																													expr: &actionExpr{
-																														pos: position{line: 669, col: 17, offset: 21321},
+																														pos: position{line: 675, col: 17, offset: 21535},
 																														run: (*parser).callonRelativeLink191,
 																														expr: &seqExpr{
-																															pos: position{line: 669, col: 17, offset: 21321},
+																															pos: position{line: 675, col: 17, offset: 21535},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 669, col: 17, offset: 21321},
+																																	pos:        position{line: 675, col: 17, offset: 21535},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 669, col: 21, offset: 21325},
+																																	pos:   position{line: 675, col: 21, offset: 21539},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 669, col: 28, offset: 21332},
+																																		pos: position{line: 675, col: 28, offset: 21546},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 28, offset: 21332},
+																																				pos: position{line: 675, col: 28, offset: 21546},
 																																				run: (*parser).callonRelativeLink196,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 669, col: 28, offset: 21332},
+																																					pos:        position{line: 675, col: 28, offset: 21546},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23440,12 +23440,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 671, col: 9, offset: 21386},
+																																				pos: position{line: 677, col: 9, offset: 21600},
 																																				run: (*parser).callonRelativeLink198,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 671, col: 9, offset: 21386},
+																																					pos: position{line: 677, col: 9, offset: 21600},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 671, col: 9, offset: 21386},
+																																						pos:        position{line: 677, col: 9, offset: 21600},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23462,7 +23462,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 661, col: 78, offset: 21040},
+																												pos:        position{line: 667, col: 78, offset: 21254},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23471,19 +23471,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 25, offset: 21158},
+																									pos: position{line: 671, col: 25, offset: 21372},
 																									run: (*parser).callonRelativeLink202,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 25, offset: 21158},
+																										pos: position{line: 671, col: 25, offset: 21372},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 25, offset: 21158},
+																												pos:        position{line: 671, col: 25, offset: 21372},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 38, offset: 21171},
+																												pos:   position{line: 671, col: 38, offset: 21385},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23515,33 +23515,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 57, offset: 21190},
+																												pos:   position{line: 671, col: 57, offset: 21404},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 665, col: 63, offset: 21196},
+																													pos: position{line: 671, col: 63, offset: 21410},
 																													expr: &actionExpr{
-																														pos: position{line: 669, col: 17, offset: 21321},
+																														pos: position{line: 675, col: 17, offset: 21535},
 																														run: (*parser).callonRelativeLink213,
 																														expr: &seqExpr{
-																															pos: position{line: 669, col: 17, offset: 21321},
+																															pos: position{line: 675, col: 17, offset: 21535},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 669, col: 17, offset: 21321},
+																																	pos:        position{line: 675, col: 17, offset: 21535},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 669, col: 21, offset: 21325},
+																																	pos:   position{line: 675, col: 21, offset: 21539},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 669, col: 28, offset: 21332},
+																																		pos: position{line: 675, col: 28, offset: 21546},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 28, offset: 21332},
+																																				pos: position{line: 675, col: 28, offset: 21546},
 																																				run: (*parser).callonRelativeLink218,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 669, col: 28, offset: 21332},
+																																					pos:        position{line: 675, col: 28, offset: 21546},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23549,12 +23549,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 671, col: 9, offset: 21386},
+																																				pos: position{line: 677, col: 9, offset: 21600},
 																																				run: (*parser).callonRelativeLink220,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 671, col: 9, offset: 21386},
+																																					pos: position{line: 677, col: 9, offset: 21600},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 671, col: 9, offset: 21386},
+																																						pos:        position{line: 677, col: 9, offset: 21600},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23571,7 +23571,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 79, offset: 21212},
+																												pos:        position{line: 671, col: 79, offset: 21426},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23586,27 +23586,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1201, col: 23, offset: 37170},
+																			pos: position{line: 1207, col: 23, offset: 37384},
 																			run: (*parser).callonRelativeLink224,
 																			expr: &seqExpr{
-																				pos: position{line: 1201, col: 23, offset: 37170},
+																				pos: position{line: 1207, col: 23, offset: 37384},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1199, col: 32, offset: 37138},
+																						pos:        position{line: 1205, col: 32, offset: 37352},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1201, col: 51, offset: 37198},
+																						pos:   position{line: 1207, col: 51, offset: 37412},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1201, col: 56, offset: 37203},
+																							pos: position{line: 1207, col: 56, offset: 37417},
 																							run: (*parser).callonRelativeLink228,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1201, col: 56, offset: 37203},
+																								pos: position{line: 1207, col: 56, offset: 37417},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1201, col: 56, offset: 37203},
+																									pos:        position{line: 1207, col: 56, offset: 37417},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23616,7 +23616,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1199, col: 32, offset: 37138},
+																						pos:        position{line: 1205, col: 32, offset: 37352},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23625,10 +23625,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2891, col: 11, offset: 91440},
+																			pos: position{line: 2897, col: 11, offset: 91654},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2891, col: 11, offset: 91440},
+																				pos:        position{line: 2897, col: 11, offset: 91654},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23645,10 +23645,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1432, col: 28, offset: 46162},
+									pos:   position{line: 1438, col: 28, offset: 46376},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1432, col: 40, offset: 46174},
+										pos:  position{line: 1438, col: 40, offset: 46388},
 										name: "InlineAttributes",
 									},
 								},
@@ -23660,75 +23660,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1436, col: 1, offset: 46290},
+			pos:  position{line: 1442, col: 1, offset: 46504},
 			expr: &choiceExpr{
-				pos: position{line: 1439, col: 5, offset: 46452},
+				pos: position{line: 1445, col: 5, offset: 46666},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1439, col: 5, offset: 46452},
+						pos: position{line: 1445, col: 5, offset: 46666},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1439, col: 5, offset: 46452},
+							pos: position{line: 1445, col: 5, offset: 46666},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1439, col: 5, offset: 46452},
+									pos:        position{line: 1445, col: 5, offset: 46666},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1439, col: 9, offset: 46456},
+									pos:   position{line: 1445, col: 9, offset: 46670},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2874, col: 23, offset: 90811},
+										pos: position{line: 2880, col: 23, offset: 91025},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2874, col: 23, offset: 90811},
+											pos: position{line: 2880, col: 23, offset: 91025},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2874, col: 23, offset: 90811},
+													pos: position{line: 2880, col: 23, offset: 91025},
 													expr: &litMatcher{
-														pos:        position{line: 2874, col: 24, offset: 90812},
+														pos:        position{line: 2880, col: 24, offset: 91026},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2874, col: 28, offset: 90816},
+													pos:   position{line: 2880, col: 28, offset: 91030},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 11, offset: 90930},
+														pos: position{line: 2884, col: 11, offset: 91144},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2878, col: 12, offset: 90931},
+															pos: position{line: 2884, col: 12, offset: 91145},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2878, col: 12, offset: 90931},
+																	pos:        position{line: 2884, col: 12, offset: 91145},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2878, col: 24, offset: 90943},
+																	pos:        position{line: 2884, col: 24, offset: 91157},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2878, col: 37, offset: 90956},
+																	pos:        position{line: 2884, col: 37, offset: 91170},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2878, col: 48, offset: 90967},
+																	pos:        position{line: 2884, col: 48, offset: 91181},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2878, col: 59, offset: 90978},
+																	pos:        position{line: 2884, col: 59, offset: 91192},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23738,38 +23738,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2874, col: 44, offset: 90832},
+													pos:   position{line: 2880, col: 44, offset: 91046},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2883, col: 5, offset: 91042},
+														pos: position{line: 2889, col: 5, offset: 91256},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2883, col: 5, offset: 91042},
+															pos:   position{line: 2889, col: 5, offset: 91256},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2883, col: 14, offset: 91051},
+																pos: position{line: 2889, col: 14, offset: 91265},
 																expr: &choiceExpr{
-																	pos: position{line: 2884, col: 9, offset: 91061},
+																	pos: position{line: 2890, col: 9, offset: 91275},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 9, offset: 91061},
+																			pos: position{line: 2890, col: 9, offset: 91275},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2884, col: 9, offset: 91061},
+																				pos: position{line: 2890, col: 9, offset: 91275},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2884, col: 9, offset: 91061},
+																						pos: position{line: 2890, col: 9, offset: 91275},
 																						expr: &litMatcher{
-																							pos:        position{line: 2884, col: 10, offset: 91062},
+																							pos:        position{line: 2890, col: 10, offset: 91276},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2885, col: 9, offset: 91090},
+																						pos: position{line: 2891, col: 9, offset: 91304},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2885, col: 10, offset: 91091},
+																							pos:        position{line: 2891, col: 10, offset: 91305},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23780,27 +23780,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2888, col: 11, offset: 91303},
+																			pos: position{line: 2894, col: 11, offset: 91517},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2888, col: 11, offset: 91303},
+																					pos:        position{line: 2894, col: 11, offset: 91517},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2888, col: 19, offset: 91311},
+																					pos: position{line: 2894, col: 19, offset: 91525},
 																					expr: &seqExpr{
-																						pos: position{line: 2888, col: 21, offset: 91313},
+																						pos: position{line: 2894, col: 21, offset: 91527},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2888, col: 21, offset: 91313},
+																								pos: position{line: 2894, col: 21, offset: 91527},
 																								expr: &actionExpr{
-																									pos: position{line: 2912, col: 10, offset: 91925},
+																									pos: position{line: 2918, col: 10, offset: 92139},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2912, col: 10, offset: 91925},
+																										pos:        position{line: 2918, col: 10, offset: 92139},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23809,11 +23809,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2888, col: 28, offset: 91320},
+																								pos: position{line: 2894, col: 28, offset: 91534},
 																								expr: &notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -23823,35 +23823,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 639, col: 5, offset: 20305},
+																			pos: position{line: 645, col: 5, offset: 20519},
 																			run: (*parser).callonExternalLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 639, col: 5, offset: 20305},
+																				pos: position{line: 645, col: 5, offset: 20519},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 639, col: 5, offset: 20305},
+																						pos: position{line: 645, col: 5, offset: 20519},
 																						run: (*parser).callonExternalLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 642, col: 5, offset: 20377},
+																						pos:   position{line: 648, col: 5, offset: 20591},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 642, col: 14, offset: 20386},
+																							pos: position{line: 648, col: 14, offset: 20600},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 648, col: 5, offset: 20515},
+																									pos: position{line: 654, col: 5, offset: 20729},
 																									run: (*parser).callonExternalLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 648, col: 5, offset: 20515},
+																										pos: position{line: 654, col: 5, offset: 20729},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 648, col: 5, offset: 20515},
+																												pos:        position{line: 654, col: 5, offset: 20729},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 648, col: 13, offset: 20523},
+																												pos:   position{line: 654, col: 13, offset: 20737},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23883,7 +23883,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 648, col: 32, offset: 20542},
+																												pos:        position{line: 654, col: 32, offset: 20756},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23892,19 +23892,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 655, col: 5, offset: 20783},
+																									pos: position{line: 661, col: 5, offset: 20997},
 																									run: (*parser).callonExternalLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 655, col: 5, offset: 20783},
+																										pos: position{line: 661, col: 5, offset: 20997},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 655, col: 5, offset: 20783},
+																												pos:        position{line: 661, col: 5, offset: 20997},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 655, col: 9, offset: 20787},
+																												pos:   position{line: 661, col: 9, offset: 21001},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23936,7 +23936,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 655, col: 28, offset: 20806},
+																												pos:        position{line: 661, col: 28, offset: 21020},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23945,19 +23945,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 661, col: 25, offset: 20987},
+																									pos: position{line: 667, col: 25, offset: 21201},
 																									run: (*parser).callonExternalLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 661, col: 25, offset: 20987},
+																										pos: position{line: 667, col: 25, offset: 21201},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 661, col: 25, offset: 20987},
+																												pos:        position{line: 667, col: 25, offset: 21201},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 37, offset: 20999},
+																												pos:   position{line: 667, col: 37, offset: 21213},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23989,33 +23989,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 56, offset: 21018},
+																												pos:   position{line: 667, col: 56, offset: 21232},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 661, col: 62, offset: 21024},
+																													pos: position{line: 667, col: 62, offset: 21238},
 																													expr: &actionExpr{
-																														pos: position{line: 669, col: 17, offset: 21321},
+																														pos: position{line: 675, col: 17, offset: 21535},
 																														run: (*parser).callonExternalLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 669, col: 17, offset: 21321},
+																															pos: position{line: 675, col: 17, offset: 21535},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 669, col: 17, offset: 21321},
+																																	pos:        position{line: 675, col: 17, offset: 21535},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 669, col: 21, offset: 21325},
+																																	pos:   position{line: 675, col: 21, offset: 21539},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 669, col: 28, offset: 21332},
+																																		pos: position{line: 675, col: 28, offset: 21546},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 28, offset: 21332},
+																																				pos: position{line: 675, col: 28, offset: 21546},
 																																				run: (*parser).callonExternalLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 669, col: 28, offset: 21332},
+																																					pos:        position{line: 675, col: 28, offset: 21546},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24023,12 +24023,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 671, col: 9, offset: 21386},
+																																				pos: position{line: 677, col: 9, offset: 21600},
 																																				run: (*parser).callonExternalLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 671, col: 9, offset: 21386},
+																																					pos: position{line: 677, col: 9, offset: 21600},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 671, col: 9, offset: 21386},
+																																						pos:        position{line: 677, col: 9, offset: 21600},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24045,7 +24045,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 661, col: 78, offset: 21040},
+																												pos:        position{line: 667, col: 78, offset: 21254},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24054,19 +24054,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 25, offset: 21158},
+																									pos: position{line: 671, col: 25, offset: 21372},
 																									run: (*parser).callonExternalLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 25, offset: 21158},
+																										pos: position{line: 671, col: 25, offset: 21372},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 25, offset: 21158},
+																												pos:        position{line: 671, col: 25, offset: 21372},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 38, offset: 21171},
+																												pos:   position{line: 671, col: 38, offset: 21385},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24098,33 +24098,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 57, offset: 21190},
+																												pos:   position{line: 671, col: 57, offset: 21404},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 665, col: 63, offset: 21196},
+																													pos: position{line: 671, col: 63, offset: 21410},
 																													expr: &actionExpr{
-																														pos: position{line: 669, col: 17, offset: 21321},
+																														pos: position{line: 675, col: 17, offset: 21535},
 																														run: (*parser).callonExternalLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 669, col: 17, offset: 21321},
+																															pos: position{line: 675, col: 17, offset: 21535},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 669, col: 17, offset: 21321},
+																																	pos:        position{line: 675, col: 17, offset: 21535},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 669, col: 21, offset: 21325},
+																																	pos:   position{line: 675, col: 21, offset: 21539},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 669, col: 28, offset: 21332},
+																																		pos: position{line: 675, col: 28, offset: 21546},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 28, offset: 21332},
+																																				pos: position{line: 675, col: 28, offset: 21546},
 																																				run: (*parser).callonExternalLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 669, col: 28, offset: 21332},
+																																					pos:        position{line: 675, col: 28, offset: 21546},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24132,12 +24132,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 671, col: 9, offset: 21386},
+																																				pos: position{line: 677, col: 9, offset: 21600},
 																																				run: (*parser).callonExternalLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 671, col: 9, offset: 21386},
+																																					pos: position{line: 677, col: 9, offset: 21600},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 671, col: 9, offset: 21386},
+																																						pos:        position{line: 677, col: 9, offset: 21600},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24154,7 +24154,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 79, offset: 21212},
+																												pos:        position{line: 671, col: 79, offset: 21426},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24169,27 +24169,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1201, col: 23, offset: 37170},
+																			pos: position{line: 1207, col: 23, offset: 37384},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1201, col: 23, offset: 37170},
+																				pos: position{line: 1207, col: 23, offset: 37384},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1199, col: 32, offset: 37138},
+																						pos:        position{line: 1205, col: 32, offset: 37352},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1201, col: 51, offset: 37198},
+																						pos:   position{line: 1207, col: 51, offset: 37412},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1201, col: 56, offset: 37203},
+																							pos: position{line: 1207, col: 56, offset: 37417},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1201, col: 56, offset: 37203},
+																								pos: position{line: 1207, col: 56, offset: 37417},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1201, col: 56, offset: 37203},
+																									pos:        position{line: 1207, col: 56, offset: 37417},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24199,7 +24199,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1199, col: 32, offset: 37138},
+																						pos:        position{line: 1205, col: 32, offset: 37352},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24208,10 +24208,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2891, col: 11, offset: 91440},
+																			pos: position{line: 2897, col: 11, offset: 91654},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2891, col: 11, offset: 91440},
+																				pos:        position{line: 2897, col: 11, offset: 91654},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24228,12 +24228,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1439, col: 34, offset: 46481},
+									pos:   position{line: 1445, col: 34, offset: 46695},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1439, col: 45, offset: 46492},
+										pos: position{line: 1445, col: 45, offset: 46706},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1439, col: 46, offset: 46493},
+											pos:  position{line: 1445, col: 46, offset: 46707},
 											name: "InlineAttributes",
 										},
 									},
@@ -24242,64 +24242,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1444, col: 5, offset: 46626},
+						pos: position{line: 1450, col: 5, offset: 46840},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1444, col: 5, offset: 46626},
+							pos: position{line: 1450, col: 5, offset: 46840},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1444, col: 5, offset: 46626},
+									pos:   position{line: 1450, col: 5, offset: 46840},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2874, col: 23, offset: 90811},
+										pos: position{line: 2880, col: 23, offset: 91025},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2874, col: 23, offset: 90811},
+											pos: position{line: 2880, col: 23, offset: 91025},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2874, col: 23, offset: 90811},
+													pos: position{line: 2880, col: 23, offset: 91025},
 													expr: &litMatcher{
-														pos:        position{line: 2874, col: 24, offset: 90812},
+														pos:        position{line: 2880, col: 24, offset: 91026},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2874, col: 28, offset: 90816},
+													pos:   position{line: 2880, col: 28, offset: 91030},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 11, offset: 90930},
+														pos: position{line: 2884, col: 11, offset: 91144},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2878, col: 12, offset: 90931},
+															pos: position{line: 2884, col: 12, offset: 91145},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2878, col: 12, offset: 90931},
+																	pos:        position{line: 2884, col: 12, offset: 91145},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2878, col: 24, offset: 90943},
+																	pos:        position{line: 2884, col: 24, offset: 91157},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2878, col: 37, offset: 90956},
+																	pos:        position{line: 2884, col: 37, offset: 91170},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2878, col: 48, offset: 90967},
+																	pos:        position{line: 2884, col: 48, offset: 91181},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2878, col: 59, offset: 90978},
+																	pos:        position{line: 2884, col: 59, offset: 91192},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24309,38 +24309,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2874, col: 44, offset: 90832},
+													pos:   position{line: 2880, col: 44, offset: 91046},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2883, col: 5, offset: 91042},
+														pos: position{line: 2889, col: 5, offset: 91256},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2883, col: 5, offset: 91042},
+															pos:   position{line: 2889, col: 5, offset: 91256},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2883, col: 14, offset: 91051},
+																pos: position{line: 2889, col: 14, offset: 91265},
 																expr: &choiceExpr{
-																	pos: position{line: 2884, col: 9, offset: 91061},
+																	pos: position{line: 2890, col: 9, offset: 91275},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 9, offset: 91061},
+																			pos: position{line: 2890, col: 9, offset: 91275},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2884, col: 9, offset: 91061},
+																				pos: position{line: 2890, col: 9, offset: 91275},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2884, col: 9, offset: 91061},
+																						pos: position{line: 2890, col: 9, offset: 91275},
 																						expr: &litMatcher{
-																							pos:        position{line: 2884, col: 10, offset: 91062},
+																							pos:        position{line: 2890, col: 10, offset: 91276},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2885, col: 9, offset: 91090},
+																						pos: position{line: 2891, col: 9, offset: 91304},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2885, col: 10, offset: 91091},
+																							pos:        position{line: 2891, col: 10, offset: 91305},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24351,27 +24351,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2888, col: 11, offset: 91303},
+																			pos: position{line: 2894, col: 11, offset: 91517},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2888, col: 11, offset: 91303},
+																					pos:        position{line: 2894, col: 11, offset: 91517},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2888, col: 19, offset: 91311},
+																					pos: position{line: 2894, col: 19, offset: 91525},
 																					expr: &seqExpr{
-																						pos: position{line: 2888, col: 21, offset: 91313},
+																						pos: position{line: 2894, col: 21, offset: 91527},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2888, col: 21, offset: 91313},
+																								pos: position{line: 2894, col: 21, offset: 91527},
 																								expr: &actionExpr{
-																									pos: position{line: 2912, col: 10, offset: 91925},
+																									pos: position{line: 2918, col: 10, offset: 92139},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2912, col: 10, offset: 91925},
+																										pos:        position{line: 2918, col: 10, offset: 92139},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24380,11 +24380,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2888, col: 28, offset: 91320},
+																								pos: position{line: 2894, col: 28, offset: 91534},
 																								expr: &notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -24394,35 +24394,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 639, col: 5, offset: 20305},
+																			pos: position{line: 645, col: 5, offset: 20519},
 																			run: (*parser).callonExternalLink157,
 																			expr: &seqExpr{
-																				pos: position{line: 639, col: 5, offset: 20305},
+																				pos: position{line: 645, col: 5, offset: 20519},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 639, col: 5, offset: 20305},
+																						pos: position{line: 645, col: 5, offset: 20519},
 																						run: (*parser).callonExternalLink159,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 642, col: 5, offset: 20377},
+																						pos:   position{line: 648, col: 5, offset: 20591},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 642, col: 14, offset: 20386},
+																							pos: position{line: 648, col: 14, offset: 20600},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 648, col: 5, offset: 20515},
+																									pos: position{line: 654, col: 5, offset: 20729},
 																									run: (*parser).callonExternalLink162,
 																									expr: &seqExpr{
-																										pos: position{line: 648, col: 5, offset: 20515},
+																										pos: position{line: 654, col: 5, offset: 20729},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 648, col: 5, offset: 20515},
+																												pos:        position{line: 654, col: 5, offset: 20729},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 648, col: 13, offset: 20523},
+																												pos:   position{line: 654, col: 13, offset: 20737},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24454,7 +24454,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 648, col: 32, offset: 20542},
+																												pos:        position{line: 654, col: 32, offset: 20756},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24463,19 +24463,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 655, col: 5, offset: 20783},
+																									pos: position{line: 661, col: 5, offset: 20997},
 																									run: (*parser).callonExternalLink172,
 																									expr: &seqExpr{
-																										pos: position{line: 655, col: 5, offset: 20783},
+																										pos: position{line: 661, col: 5, offset: 20997},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 655, col: 5, offset: 20783},
+																												pos:        position{line: 661, col: 5, offset: 20997},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 655, col: 9, offset: 20787},
+																												pos:   position{line: 661, col: 9, offset: 21001},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24507,7 +24507,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 655, col: 28, offset: 20806},
+																												pos:        position{line: 661, col: 28, offset: 21020},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24516,19 +24516,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 661, col: 25, offset: 20987},
+																									pos: position{line: 667, col: 25, offset: 21201},
 																									run: (*parser).callonExternalLink182,
 																									expr: &seqExpr{
-																										pos: position{line: 661, col: 25, offset: 20987},
+																										pos: position{line: 667, col: 25, offset: 21201},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 661, col: 25, offset: 20987},
+																												pos:        position{line: 667, col: 25, offset: 21201},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 37, offset: 20999},
+																												pos:   position{line: 667, col: 37, offset: 21213},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24560,33 +24560,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 56, offset: 21018},
+																												pos:   position{line: 667, col: 56, offset: 21232},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 661, col: 62, offset: 21024},
+																													pos: position{line: 667, col: 62, offset: 21238},
 																													expr: &actionExpr{
-																														pos: position{line: 669, col: 17, offset: 21321},
+																														pos: position{line: 675, col: 17, offset: 21535},
 																														run: (*parser).callonExternalLink193,
 																														expr: &seqExpr{
-																															pos: position{line: 669, col: 17, offset: 21321},
+																															pos: position{line: 675, col: 17, offset: 21535},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 669, col: 17, offset: 21321},
+																																	pos:        position{line: 675, col: 17, offset: 21535},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 669, col: 21, offset: 21325},
+																																	pos:   position{line: 675, col: 21, offset: 21539},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 669, col: 28, offset: 21332},
+																																		pos: position{line: 675, col: 28, offset: 21546},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 28, offset: 21332},
+																																				pos: position{line: 675, col: 28, offset: 21546},
 																																				run: (*parser).callonExternalLink198,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 669, col: 28, offset: 21332},
+																																					pos:        position{line: 675, col: 28, offset: 21546},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24594,12 +24594,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 671, col: 9, offset: 21386},
+																																				pos: position{line: 677, col: 9, offset: 21600},
 																																				run: (*parser).callonExternalLink200,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 671, col: 9, offset: 21386},
+																																					pos: position{line: 677, col: 9, offset: 21600},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 671, col: 9, offset: 21386},
+																																						pos:        position{line: 677, col: 9, offset: 21600},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24616,7 +24616,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 661, col: 78, offset: 21040},
+																												pos:        position{line: 667, col: 78, offset: 21254},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24625,19 +24625,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 25, offset: 21158},
+																									pos: position{line: 671, col: 25, offset: 21372},
 																									run: (*parser).callonExternalLink204,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 25, offset: 21158},
+																										pos: position{line: 671, col: 25, offset: 21372},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 25, offset: 21158},
+																												pos:        position{line: 671, col: 25, offset: 21372},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 38, offset: 21171},
+																												pos:   position{line: 671, col: 38, offset: 21385},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24669,33 +24669,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 57, offset: 21190},
+																												pos:   position{line: 671, col: 57, offset: 21404},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 665, col: 63, offset: 21196},
+																													pos: position{line: 671, col: 63, offset: 21410},
 																													expr: &actionExpr{
-																														pos: position{line: 669, col: 17, offset: 21321},
+																														pos: position{line: 675, col: 17, offset: 21535},
 																														run: (*parser).callonExternalLink215,
 																														expr: &seqExpr{
-																															pos: position{line: 669, col: 17, offset: 21321},
+																															pos: position{line: 675, col: 17, offset: 21535},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 669, col: 17, offset: 21321},
+																																	pos:        position{line: 675, col: 17, offset: 21535},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 669, col: 21, offset: 21325},
+																																	pos:   position{line: 675, col: 21, offset: 21539},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 669, col: 28, offset: 21332},
+																																		pos: position{line: 675, col: 28, offset: 21546},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 28, offset: 21332},
+																																				pos: position{line: 675, col: 28, offset: 21546},
 																																				run: (*parser).callonExternalLink220,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 669, col: 28, offset: 21332},
+																																					pos:        position{line: 675, col: 28, offset: 21546},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24703,12 +24703,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 671, col: 9, offset: 21386},
+																																				pos: position{line: 677, col: 9, offset: 21600},
 																																				run: (*parser).callonExternalLink222,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 671, col: 9, offset: 21386},
+																																					pos: position{line: 677, col: 9, offset: 21600},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 671, col: 9, offset: 21386},
+																																						pos:        position{line: 677, col: 9, offset: 21600},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24725,7 +24725,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 79, offset: 21212},
+																												pos:        position{line: 671, col: 79, offset: 21426},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24740,27 +24740,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1201, col: 23, offset: 37170},
+																			pos: position{line: 1207, col: 23, offset: 37384},
 																			run: (*parser).callonExternalLink226,
 																			expr: &seqExpr{
-																				pos: position{line: 1201, col: 23, offset: 37170},
+																				pos: position{line: 1207, col: 23, offset: 37384},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1199, col: 32, offset: 37138},
+																						pos:        position{line: 1205, col: 32, offset: 37352},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1201, col: 51, offset: 37198},
+																						pos:   position{line: 1207, col: 51, offset: 37412},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1201, col: 56, offset: 37203},
+																							pos: position{line: 1207, col: 56, offset: 37417},
 																							run: (*parser).callonExternalLink230,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1201, col: 56, offset: 37203},
+																								pos: position{line: 1207, col: 56, offset: 37417},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1201, col: 56, offset: 37203},
+																									pos:        position{line: 1207, col: 56, offset: 37417},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24770,7 +24770,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1199, col: 32, offset: 37138},
+																						pos:        position{line: 1205, col: 32, offset: 37352},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24779,10 +24779,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2891, col: 11, offset: 91440},
+																			pos: position{line: 2897, col: 11, offset: 91654},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2891, col: 11, offset: 91440},
+																				pos:        position{line: 2897, col: 11, offset: 91654},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24799,12 +24799,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1444, col: 30, offset: 46651},
+									pos:   position{line: 1450, col: 30, offset: 46865},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1444, col: 41, offset: 46662},
+										pos: position{line: 1450, col: 41, offset: 46876},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1444, col: 42, offset: 46663},
+											pos:  position{line: 1450, col: 42, offset: 46877},
 											name: "InlineAttributes",
 										},
 									},
@@ -24817,41 +24817,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1478, col: 1, offset: 47804},
+			pos:  position{line: 1484, col: 1, offset: 48018},
 			expr: &actionExpr{
-				pos: position{line: 1479, col: 5, offset: 47825},
+				pos: position{line: 1485, col: 5, offset: 48039},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1479, col: 5, offset: 47825},
+					pos: position{line: 1485, col: 5, offset: 48039},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1479, col: 5, offset: 47825},
+							pos:   position{line: 1485, col: 5, offset: 48039},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1485, col: 5, offset: 48027},
+								pos: position{line: 1491, col: 5, offset: 48241},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1579, col: 5, offset: 50995},
+										pos: position{line: 1585, col: 5, offset: 51209},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1579, col: 5, offset: 50995},
+											pos: position{line: 1585, col: 5, offset: 51209},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1579, col: 5, offset: 50995},
+													pos:   position{line: 1585, col: 5, offset: 51209},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1586, col: 5, offset: 51203},
+														pos: position{line: 1592, col: 5, offset: 51417},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1586, col: 5, offset: 51203},
+															pos: position{line: 1592, col: 5, offset: 51417},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1586, col: 5, offset: 51203},
+																	pos: position{line: 1592, col: 5, offset: 51417},
 																	expr: &actionExpr{
-																		pos: position{line: 2912, col: 10, offset: 91925},
+																		pos: position{line: 2918, col: 10, offset: 92139},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2912, col: 10, offset: 91925},
+																			pos:        position{line: 2918, col: 10, offset: 92139},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24860,27 +24860,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1586, col: 12, offset: 51210},
+																	pos:   position{line: 1592, col: 12, offset: 51424},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1588, col: 9, offset: 51273},
+																		pos: position{line: 1594, col: 9, offset: 51487},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1588, col: 9, offset: 51273},
+																				pos: position{line: 1594, col: 9, offset: 51487},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1588, col: 9, offset: 51273},
+																					pos: position{line: 1594, col: 9, offset: 51487},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1588, col: 9, offset: 51273},
+																							pos:   position{line: 1594, col: 9, offset: 51487},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1588, col: 16, offset: 51280},
+																								pos: position{line: 1594, col: 16, offset: 51494},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1588, col: 16, offset: 51280},
+																									pos: position{line: 1594, col: 16, offset: 51494},
 																									expr: &litMatcher{
-																										pos:        position{line: 1588, col: 17, offset: 51281},
+																										pos:        position{line: 1594, col: 17, offset: 51495},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24889,22 +24889,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1592, col: 9, offset: 51381},
+																							pos: position{line: 1598, col: 9, offset: 51595},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1611, col: 11, offset: 52098},
+																				pos: position{line: 1617, col: 11, offset: 52312},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1611, col: 11, offset: 52098},
+																					pos: position{line: 1617, col: 11, offset: 52312},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1611, col: 11, offset: 52098},
+																							pos: position{line: 1617, col: 11, offset: 52312},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1611, col: 12, offset: 52099},
+																								pos:        position{line: 1617, col: 12, offset: 52313},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24912,7 +24912,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1611, col: 20, offset: 52107},
+																							pos:        position{line: 1617, col: 20, offset: 52321},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24921,20 +24921,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1613, col: 13, offset: 52224},
+																				pos: position{line: 1619, col: 13, offset: 52438},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1613, col: 13, offset: 52224},
+																					pos: position{line: 1619, col: 13, offset: 52438},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1613, col: 14, offset: 52225},
+																							pos:        position{line: 1619, col: 14, offset: 52439},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1613, col: 21, offset: 52232},
+																							pos:        position{line: 1619, col: 21, offset: 52446},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24943,20 +24943,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1615, col: 13, offset: 52352},
+																				pos: position{line: 1621, col: 13, offset: 52566},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1615, col: 13, offset: 52352},
+																					pos: position{line: 1621, col: 13, offset: 52566},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1615, col: 14, offset: 52353},
+																							pos:        position{line: 1621, col: 14, offset: 52567},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1615, col: 21, offset: 52360},
+																							pos:        position{line: 1621, col: 21, offset: 52574},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24965,15 +24965,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1617, col: 13, offset: 52480},
+																				pos: position{line: 1623, col: 13, offset: 52694},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 13, offset: 52480},
+																					pos: position{line: 1623, col: 13, offset: 52694},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1617, col: 13, offset: 52480},
+																							pos: position{line: 1623, col: 13, offset: 52694},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1617, col: 14, offset: 52481},
+																								pos:        position{line: 1623, col: 14, offset: 52695},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -24981,7 +24981,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1617, col: 26, offset: 52493},
+																							pos:        position{line: 1623, col: 26, offset: 52707},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24990,15 +24990,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1619, col: 13, offset: 52613},
+																				pos: position{line: 1625, col: 13, offset: 52827},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1619, col: 13, offset: 52613},
+																					pos: position{line: 1625, col: 13, offset: 52827},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1619, col: 13, offset: 52613},
+																							pos: position{line: 1625, col: 13, offset: 52827},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1619, col: 14, offset: 52614},
+																								pos:        position{line: 1625, col: 14, offset: 52828},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -25006,7 +25006,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1619, col: 26, offset: 52626},
+																							pos:        position{line: 1625, col: 26, offset: 52840},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25018,12 +25018,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2916, col: 11, offset: 91986},
+																	pos: position{line: 2922, col: 11, offset: 92200},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2916, col: 11, offset: 91986},
+																		pos: position{line: 2922, col: 11, offset: 92200},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2916, col: 11, offset: 91986},
+																			pos:        position{line: 2922, col: 11, offset: 92200},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25036,26 +25036,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1580, col: 5, offset: 51034},
+													pos:   position{line: 1586, col: 5, offset: 51248},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1526, col: 5, offset: 49467},
+														pos: position{line: 1532, col: 5, offset: 49681},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1526, col: 5, offset: 49467},
+															pos: position{line: 1532, col: 5, offset: 49681},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1526, col: 5, offset: 49467},
+																	pos:   position{line: 1532, col: 5, offset: 49681},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1526, col: 14, offset: 49476},
+																		pos: position{line: 1532, col: 14, offset: 49690},
 																		expr: &actionExpr{
-																			pos: position{line: 1526, col: 15, offset: 49477},
+																			pos: position{line: 1532, col: 15, offset: 49691},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1526, col: 15, offset: 49477},
+																				pos: position{line: 1532, col: 15, offset: 49691},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1526, col: 15, offset: 49477},
+																					pos:        position{line: 1532, col: 15, offset: 49691},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25066,28 +25066,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2934, col: 8, offset: 92323},
+																	pos: position{line: 2940, col: 8, offset: 92537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2921, col: 12, offset: 92096},
+																			pos: position{line: 2927, col: 12, offset: 92310},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2921, col: 13, offset: 92097},
+																				pos: position{line: 2927, col: 13, offset: 92311},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 13, offset: 92097},
+																						pos:        position{line: 2927, col: 13, offset: 92311},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 20, offset: 92104},
+																						pos:        position{line: 2927, col: 20, offset: 92318},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 29, offset: 92113},
+																						pos:        position{line: 2927, col: 29, offset: 92327},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25096,9 +25096,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2931, col: 8, offset: 92273},
+																			pos: position{line: 2937, col: 8, offset: 92487},
 																			expr: &anyMatcher{
-																				line: 2931, col: 9, offset: 92274,
+																				line: 2937, col: 9, offset: 92488,
 																			},
 																		},
 																	},
@@ -25111,27 +25111,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1629, col: 5, offset: 52892},
+										pos: position{line: 1635, col: 5, offset: 53106},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1629, col: 5, offset: 52892},
+											pos: position{line: 1635, col: 5, offset: 53106},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1629, col: 5, offset: 52892},
+													pos:   position{line: 1635, col: 5, offset: 53106},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1636, col: 5, offset: 53165},
+														pos: position{line: 1642, col: 5, offset: 53379},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1636, col: 5, offset: 53165},
+															pos: position{line: 1642, col: 5, offset: 53379},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1636, col: 5, offset: 53165},
+																	pos: position{line: 1642, col: 5, offset: 53379},
 																	expr: &actionExpr{
-																		pos: position{line: 2912, col: 10, offset: 91925},
+																		pos: position{line: 2918, col: 10, offset: 92139},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2912, col: 10, offset: 91925},
+																			pos:        position{line: 2918, col: 10, offset: 92139},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25140,24 +25140,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1637, col: 5, offset: 53177},
+																	pos:   position{line: 1643, col: 5, offset: 53391},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1638, col: 9, offset: 53193},
+																		pos: position{line: 1644, col: 9, offset: 53407},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1638, col: 10, offset: 53194},
+																			pos: position{line: 1644, col: 10, offset: 53408},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1638, col: 11, offset: 53195},
+																					pos:        position{line: 1644, col: 11, offset: 53409},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1638, col: 18, offset: 53202},
+																					pos: position{line: 1644, col: 18, offset: 53416},
 																					expr: &litMatcher{
-																						pos:        position{line: 1638, col: 19, offset: 53203},
+																						pos:        position{line: 1644, col: 19, offset: 53417},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -25168,16 +25168,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1641, col: 7, offset: 53293},
+																	pos: position{line: 1647, col: 7, offset: 53507},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2916, col: 11, offset: 91986},
+																	pos: position{line: 2922, col: 11, offset: 92200},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2916, col: 11, offset: 91986},
+																		pos: position{line: 2922, col: 11, offset: 92200},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2916, col: 11, offset: 91986},
+																			pos:        position{line: 2922, col: 11, offset: 92200},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25190,56 +25190,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1630, col: 5, offset: 52933},
+													pos:   position{line: 1636, col: 5, offset: 53147},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1630, col: 16, offset: 52944},
+														pos: position{line: 1636, col: 16, offset: 53158},
 														expr: &actionExpr{
-															pos: position{line: 1651, col: 5, offset: 53558},
+															pos: position{line: 1657, col: 5, offset: 53772},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1651, col: 5, offset: 53558},
+																pos: position{line: 1657, col: 5, offset: 53772},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1651, col: 5, offset: 53558},
+																		pos: position{line: 1657, col: 5, offset: 53772},
 																		expr: &litMatcher{
-																			pos:        position{line: 1651, col: 6, offset: 53559},
+																			pos:        position{line: 1657, col: 6, offset: 53773},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1651, col: 10, offset: 53563},
+																		pos:   position{line: 1657, col: 10, offset: 53777},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1652, col: 7, offset: 53577},
+																			pos: position{line: 1658, col: 7, offset: 53791},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1652, col: 7, offset: 53577},
+																					pos: position{line: 1658, col: 7, offset: 53791},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1652, col: 7, offset: 53577},
+																						pos:        position{line: 1658, col: 7, offset: 53791},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1653, col: 7, offset: 53622},
+																					pos: position{line: 1659, col: 7, offset: 53836},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1653, col: 7, offset: 53622},
+																						pos:        position{line: 1659, col: 7, offset: 53836},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1654, col: 7, offset: 53665},
+																					pos: position{line: 1660, col: 7, offset: 53879},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1654, col: 7, offset: 53665},
+																						pos:        position{line: 1660, col: 7, offset: 53879},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -25249,12 +25249,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2916, col: 11, offset: 91986},
+																		pos: position{line: 2922, col: 11, offset: 92200},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2916, col: 11, offset: 91986},
+																			pos: position{line: 2922, col: 11, offset: 92200},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2916, col: 11, offset: 91986},
+																				pos:        position{line: 2922, col: 11, offset: 92200},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25268,26 +25268,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1631, col: 5, offset: 52983},
+													pos:   position{line: 1637, col: 5, offset: 53197},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1526, col: 5, offset: 49467},
+														pos: position{line: 1532, col: 5, offset: 49681},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1526, col: 5, offset: 49467},
+															pos: position{line: 1532, col: 5, offset: 49681},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1526, col: 5, offset: 49467},
+																	pos:   position{line: 1532, col: 5, offset: 49681},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1526, col: 14, offset: 49476},
+																		pos: position{line: 1532, col: 14, offset: 49690},
 																		expr: &actionExpr{
-																			pos: position{line: 1526, col: 15, offset: 49477},
+																			pos: position{line: 1532, col: 15, offset: 49691},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1526, col: 15, offset: 49477},
+																				pos: position{line: 1532, col: 15, offset: 49691},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1526, col: 15, offset: 49477},
+																					pos:        position{line: 1532, col: 15, offset: 49691},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25298,28 +25298,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2934, col: 8, offset: 92323},
+																	pos: position{line: 2940, col: 8, offset: 92537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2921, col: 12, offset: 92096},
+																			pos: position{line: 2927, col: 12, offset: 92310},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2921, col: 13, offset: 92097},
+																				pos: position{line: 2927, col: 13, offset: 92311},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 13, offset: 92097},
+																						pos:        position{line: 2927, col: 13, offset: 92311},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 20, offset: 92104},
+																						pos:        position{line: 2927, col: 20, offset: 92318},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 29, offset: 92113},
+																						pos:        position{line: 2927, col: 29, offset: 92327},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25328,9 +25328,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2931, col: 8, offset: 92273},
+																			pos: position{line: 2937, col: 8, offset: 92487},
 																			expr: &anyMatcher{
-																				line: 2931, col: 9, offset: 92274,
+																				line: 2937, col: 9, offset: 92488,
 																			},
 																		},
 																	},
@@ -25343,36 +25343,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1720, col: 5, offset: 55537},
+										pos: position{line: 1726, col: 5, offset: 55751},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1720, col: 5, offset: 55537},
+											pos: position{line: 1726, col: 5, offset: 55751},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1720, col: 5, offset: 55537},
+													pos:   position{line: 1726, col: 5, offset: 55751},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1726, col: 5, offset: 55734},
+														pos: position{line: 1732, col: 5, offset: 55948},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1726, col: 5, offset: 55734},
+															pos: position{line: 1732, col: 5, offset: 55948},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1726, col: 5, offset: 55734},
+																	pos:        position{line: 1732, col: 5, offset: 55948},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1726, col: 9, offset: 55738},
+																	pos:   position{line: 1732, col: 9, offset: 55952},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1726, col: 14, offset: 55743},
+																		pos: position{line: 1732, col: 14, offset: 55957},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1726, col: 14, offset: 55743},
+																			pos: position{line: 1732, col: 14, offset: 55957},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1726, col: 14, offset: 55743},
+																				pos:        position{line: 1732, col: 14, offset: 55957},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25382,18 +25382,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1726, col: 62, offset: 55791},
+																	pos:        position{line: 1732, col: 62, offset: 56005},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2916, col: 11, offset: 91986},
+																	pos: position{line: 2922, col: 11, offset: 92200},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2916, col: 11, offset: 91986},
+																		pos: position{line: 2922, col: 11, offset: 92200},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2916, col: 11, offset: 91986},
+																			pos:        position{line: 2922, col: 11, offset: 92200},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25406,26 +25406,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1721, col: 5, offset: 55573},
+													pos:   position{line: 1727, col: 5, offset: 55787},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1526, col: 5, offset: 49467},
+														pos: position{line: 1532, col: 5, offset: 49681},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1526, col: 5, offset: 49467},
+															pos: position{line: 1532, col: 5, offset: 49681},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1526, col: 5, offset: 49467},
+																	pos:   position{line: 1532, col: 5, offset: 49681},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1526, col: 14, offset: 49476},
+																		pos: position{line: 1532, col: 14, offset: 49690},
 																		expr: &actionExpr{
-																			pos: position{line: 1526, col: 15, offset: 49477},
+																			pos: position{line: 1532, col: 15, offset: 49691},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1526, col: 15, offset: 49477},
+																				pos: position{line: 1532, col: 15, offset: 49691},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1526, col: 15, offset: 49477},
+																					pos:        position{line: 1532, col: 15, offset: 49691},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25436,28 +25436,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2934, col: 8, offset: 92323},
+																	pos: position{line: 2940, col: 8, offset: 92537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2921, col: 12, offset: 92096},
+																			pos: position{line: 2927, col: 12, offset: 92310},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2921, col: 13, offset: 92097},
+																				pos: position{line: 2927, col: 13, offset: 92311},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 13, offset: 92097},
+																						pos:        position{line: 2927, col: 13, offset: 92311},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 20, offset: 92104},
+																						pos:        position{line: 2927, col: 20, offset: 92318},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 29, offset: 92113},
+																						pos:        position{line: 2927, col: 29, offset: 92327},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25466,9 +25466,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2931, col: 8, offset: 92273},
+																			pos: position{line: 2937, col: 8, offset: 92487},
 																			expr: &anyMatcher{
-																				line: 2931, col: 9, offset: 92274,
+																				line: 2937, col: 9, offset: 92488,
 																			},
 																		},
 																	},
@@ -25481,35 +25481,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1663, col: 5, offset: 53858},
+										pos: position{line: 1669, col: 5, offset: 54072},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1663, col: 5, offset: 53858},
+											pos: position{line: 1669, col: 5, offset: 54072},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1663, col: 5, offset: 53858},
+													pos:   position{line: 1669, col: 5, offset: 54072},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1671, col: 5, offset: 54184},
+														pos: position{line: 1677, col: 5, offset: 54398},
 														run: (*parser).callonListElements148,
 														expr: &seqExpr{
-															pos: position{line: 1671, col: 5, offset: 54184},
+															pos: position{line: 1677, col: 5, offset: 54398},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1671, col: 5, offset: 54184},
+																	pos: position{line: 1677, col: 5, offset: 54398},
 																	expr: &seqExpr{
-																		pos: position{line: 2520, col: 31, offset: 80953},
+																		pos: position{line: 2526, col: 31, offset: 81167},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2520, col: 31, offset: 80953},
+																				pos:        position{line: 2526, col: 31, offset: 81167},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2520, col: 36, offset: 80958},
+																				pos: position{line: 2526, col: 36, offset: 81172},
 																				expr: &litMatcher{
-																					pos:        position{line: 2520, col: 37, offset: 80959},
+																					pos:        position{line: 2526, col: 37, offset: 81173},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -25519,28 +25519,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1672, col: 5, offset: 54216},
+																	pos: position{line: 1678, col: 5, offset: 54430},
 																	expr: &seqExpr{
-																		pos: position{line: 1672, col: 6, offset: 54217},
+																		pos: position{line: 1678, col: 6, offset: 54431},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1672, col: 6, offset: 54217},
+																				pos: position{line: 1678, col: 6, offset: 54431},
 																				expr: &actionExpr{
-																					pos: position{line: 1677, col: 5, offset: 54367},
+																					pos: position{line: 1683, col: 5, offset: 54581},
 																					run: (*parser).callonListElements158,
 																					expr: &seqExpr{
-																						pos: position{line: 1677, col: 5, offset: 54367},
+																						pos: position{line: 1683, col: 5, offset: 54581},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1677, col: 5, offset: 54367},
+																								pos:   position{line: 1683, col: 5, offset: 54581},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1677, col: 16, offset: 54378},
+																									pos: position{line: 1683, col: 16, offset: 54592},
 																									run: (*parser).callonListElements161,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1677, col: 16, offset: 54378},
+																										pos: position{line: 1683, col: 16, offset: 54592},
 																										expr: &litMatcher{
-																											pos:        position{line: 1677, col: 17, offset: 54379},
+																											pos:        position{line: 1683, col: 17, offset: 54593},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -25549,7 +25549,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1680, col: 5, offset: 54436},
+																								pos: position{line: 1686, col: 5, offset: 54650},
 																								run: (*parser).callonListElements164,
 																							},
 																						},
@@ -25557,30 +25557,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1672, col: 35, offset: 54246},
+																				pos: position{line: 1678, col: 35, offset: 54460},
 																				expr: &choiceExpr{
-																					pos: position{line: 2934, col: 8, offset: 92323},
+																					pos: position{line: 2940, col: 8, offset: 92537},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2921, col: 12, offset: 92096},
+																							pos: position{line: 2927, col: 12, offset: 92310},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2921, col: 13, offset: 92097},
+																								pos: position{line: 2927, col: 13, offset: 92311},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 13, offset: 92097},
+																										pos:        position{line: 2927, col: 13, offset: 92311},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 20, offset: 92104},
+																										pos:        position{line: 2927, col: 20, offset: 92318},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 29, offset: 92113},
+																										pos:        position{line: 2927, col: 29, offset: 92327},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25589,16 +25589,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2931, col: 8, offset: 92273},
+																							pos: position{line: 2937, col: 8, offset: 92487},
 																							expr: &anyMatcher{
-																								line: 2931, col: 9, offset: 92274,
+																								line: 2937, col: 9, offset: 92488,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1672, col: 40, offset: 54251,
+																				line: 1678, col: 40, offset: 54465,
 																			},
 																		},
 																	},
@@ -25608,24 +25608,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1664, col: 5, offset: 53893},
+													pos:   position{line: 1670, col: 5, offset: 54107},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1677, col: 5, offset: 54367},
+														pos: position{line: 1683, col: 5, offset: 54581},
 														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1677, col: 5, offset: 54367},
+															pos: position{line: 1683, col: 5, offset: 54581},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1677, col: 5, offset: 54367},
+																	pos:   position{line: 1683, col: 5, offset: 54581},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1677, col: 16, offset: 54378},
+																		pos: position{line: 1683, col: 16, offset: 54592},
 																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1677, col: 16, offset: 54378},
+																			pos: position{line: 1683, col: 16, offset: 54592},
 																			expr: &litMatcher{
-																				pos:        position{line: 1677, col: 17, offset: 54379},
+																				pos:        position{line: 1683, col: 17, offset: 54593},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25634,7 +25634,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1680, col: 5, offset: 54436},
+																	pos: position{line: 1686, col: 5, offset: 54650},
 																	run: (*parser).callonListElements182,
 																},
 															},
@@ -25642,24 +25642,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1665, col: 5, offset: 53938},
+													pos:   position{line: 1671, col: 5, offset: 54152},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1688, col: 5, offset: 54685},
+														pos: position{line: 1694, col: 5, offset: 54899},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1690, col: 9, offset: 54751},
+																pos: position{line: 1696, col: 9, offset: 54965},
 																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1690, col: 9, offset: 54751},
+																	pos: position{line: 1696, col: 9, offset: 54965},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1690, col: 9, offset: 54751},
+																			pos: position{line: 1696, col: 9, offset: 54965},
 																			expr: &actionExpr{
-																				pos: position{line: 2912, col: 10, offset: 91925},
+																				pos: position{line: 2918, col: 10, offset: 92139},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2912, col: 10, offset: 91925},
+																					pos:        position{line: 2918, col: 10, offset: 92139},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25668,28 +25668,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2934, col: 8, offset: 92323},
+																			pos: position{line: 2940, col: 8, offset: 92537},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2921, col: 12, offset: 92096},
+																					pos: position{line: 2927, col: 12, offset: 92310},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2921, col: 13, offset: 92097},
+																						pos: position{line: 2927, col: 13, offset: 92311},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 13, offset: 92097},
+																								pos:        position{line: 2927, col: 13, offset: 92311},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 20, offset: 92104},
+																								pos:        position{line: 2927, col: 20, offset: 92318},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 29, offset: 92113},
+																								pos:        position{line: 2927, col: 29, offset: 92327},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25698,34 +25698,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1691, col: 9, offset: 54770},
+																			pos: position{line: 1697, col: 9, offset: 54984},
 																			expr: &actionExpr{
-																				pos: position{line: 680, col: 14, offset: 21687},
+																				pos: position{line: 686, col: 14, offset: 21901},
 																				run: (*parser).callonListElements199,
 																				expr: &seqExpr{
-																					pos: position{line: 680, col: 14, offset: 21687},
+																					pos: position{line: 686, col: 14, offset: 21901},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2929, col: 11, offset: 92259},
+																							pos: position{line: 2935, col: 11, offset: 92473},
 																							expr: &anyMatcher{
-																								line: 2929, col: 13, offset: 92261,
+																								line: 2935, col: 13, offset: 92475,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 680, col: 21, offset: 21694},
+																							pos: position{line: 686, col: 21, offset: 21908},
 																							expr: &actionExpr{
-																								pos: position{line: 2912, col: 10, offset: 91925},
+																								pos: position{line: 2918, col: 10, offset: 92139},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2912, col: 10, offset: 91925},
+																									pos:        position{line: 2918, col: 10, offset: 92139},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25734,28 +25734,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25764,9 +25764,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -25779,18 +25779,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1697, col: 9, offset: 54899},
+																pos: position{line: 1703, col: 9, offset: 55113},
 																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1697, col: 9, offset: 54899},
+																	pos: position{line: 1703, col: 9, offset: 55113},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2916, col: 11, offset: 91986},
+																			pos: position{line: 2922, col: 11, offset: 92200},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2916, col: 11, offset: 91986},
+																				pos: position{line: 2922, col: 11, offset: 92200},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2916, col: 11, offset: 91986},
+																					pos:        position{line: 2922, col: 11, offset: 92200},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25799,15 +25799,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1698, col: 9, offset: 54972},
+																			pos:   position{line: 1704, col: 9, offset: 55186},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1698, col: 18, offset: 54981},
+																				pos: position{line: 1704, col: 18, offset: 55195},
 																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1698, col: 18, offset: 54981},
+																					pos: position{line: 1704, col: 18, offset: 55195},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1698, col: 18, offset: 54981},
+																						pos:        position{line: 1704, col: 18, offset: 55195},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25817,28 +25817,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2934, col: 8, offset: 92323},
+																			pos: position{line: 2940, col: 8, offset: 92537},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2921, col: 12, offset: 92096},
+																					pos: position{line: 2927, col: 12, offset: 92310},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2921, col: 13, offset: 92097},
+																						pos: position{line: 2927, col: 13, offset: 92311},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 13, offset: 92097},
+																								pos:        position{line: 2927, col: 13, offset: 92311},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 20, offset: 92104},
+																								pos:        position{line: 2927, col: 20, offset: 92318},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 29, offset: 92113},
+																								pos:        position{line: 2927, col: 29, offset: 92327},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25847,9 +25847,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
@@ -25867,10 +25867,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1480, col: 5, offset: 47856},
+							pos:   position{line: 1486, col: 5, offset: 48070},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1480, col: 20, offset: 47871},
+								pos:  position{line: 1486, col: 20, offset: 48085},
 								name: "ExtraListElements",
 							},
 						},
@@ -25880,17 +25880,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1490, col: 1, offset: 48126},
+			pos:  position{line: 1496, col: 1, offset: 48340},
 			expr: &actionExpr{
-				pos: position{line: 1490, col: 22, offset: 48147},
+				pos: position{line: 1496, col: 22, offset: 48361},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1490, col: 22, offset: 48147},
+					pos:   position{line: 1496, col: 22, offset: 48361},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1490, col: 31, offset: 48156},
+						pos: position{line: 1496, col: 31, offset: 48370},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1490, col: 32, offset: 48157},
+							pos:  position{line: 1496, col: 32, offset: 48371},
 							name: "ExtraListElement",
 						},
 					},
@@ -25899,52 +25899,52 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1494, col: 1, offset: 48237},
+			pos:  position{line: 1500, col: 1, offset: 48451},
 			expr: &actionExpr{
-				pos: position{line: 1495, col: 5, offset: 48376},
+				pos: position{line: 1501, col: 5, offset: 48590},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1495, col: 5, offset: 48376},
+					pos: position{line: 1501, col: 5, offset: 48590},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2929, col: 11, offset: 92259},
+							pos: position{line: 2935, col: 11, offset: 92473},
 							expr: &anyMatcher{
-								line: 2929, col: 13, offset: 92261,
+								line: 2935, col: 13, offset: 92475,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1496, col: 5, offset: 48388},
+							pos:   position{line: 1502, col: 5, offset: 48602},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1497, col: 9, offset: 48406},
+								pos: position{line: 1503, col: 9, offset: 48620},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1497, col: 13, offset: 48410},
+										pos: position{line: 1503, col: 13, offset: 48624},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1497, col: 13, offset: 48410},
+											pos: position{line: 1503, col: 13, offset: 48624},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1497, col: 13, offset: 48410},
+													pos: position{line: 1503, col: 13, offset: 48624},
 													expr: &actionExpr{
-														pos: position{line: 680, col: 14, offset: 21687},
+														pos: position{line: 686, col: 14, offset: 21901},
 														run: (*parser).callonExtraListElement10,
 														expr: &seqExpr{
-															pos: position{line: 680, col: 14, offset: 21687},
+															pos: position{line: 686, col: 14, offset: 21901},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2929, col: 11, offset: 92259},
+																	pos: position{line: 2935, col: 11, offset: 92473},
 																	expr: &anyMatcher{
-																		line: 2929, col: 13, offset: 92261,
+																		line: 2935, col: 13, offset: 92475,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 680, col: 21, offset: 21694},
+																	pos: position{line: 686, col: 21, offset: 21908},
 																	expr: &actionExpr{
-																		pos: position{line: 2912, col: 10, offset: 91925},
+																		pos: position{line: 2918, col: 10, offset: 92139},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2912, col: 10, offset: 91925},
+																			pos:        position{line: 2918, col: 10, offset: 92139},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25953,28 +25953,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2934, col: 8, offset: 92323},
+																	pos: position{line: 2940, col: 8, offset: 92537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2921, col: 12, offset: 92096},
+																			pos: position{line: 2927, col: 12, offset: 92310},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2921, col: 13, offset: 92097},
+																				pos: position{line: 2927, col: 13, offset: 92311},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 13, offset: 92097},
+																						pos:        position{line: 2927, col: 13, offset: 92311},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 20, offset: 92104},
+																						pos:        position{line: 2927, col: 20, offset: 92318},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 29, offset: 92113},
+																						pos:        position{line: 2927, col: 29, offset: 92327},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25983,9 +25983,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2931, col: 8, offset: 92273},
+																			pos: position{line: 2937, col: 8, offset: 92487},
 																			expr: &anyMatcher{
-																				line: 2931, col: 9, offset: 92274,
+																				line: 2937, col: 9, offset: 92488,
 																			},
 																		},
 																	},
@@ -25995,33 +25995,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1498, col: 13, offset: 48434},
+													pos:   position{line: 1504, col: 13, offset: 48648},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1498, col: 22, offset: 48443},
+														pos: position{line: 1504, col: 22, offset: 48657},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1579, col: 5, offset: 50995},
+																pos: position{line: 1585, col: 5, offset: 51209},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1579, col: 5, offset: 50995},
+																	pos: position{line: 1585, col: 5, offset: 51209},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1579, col: 5, offset: 50995},
+																			pos:   position{line: 1585, col: 5, offset: 51209},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1586, col: 5, offset: 51203},
+																				pos: position{line: 1592, col: 5, offset: 51417},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1586, col: 5, offset: 51203},
+																					pos: position{line: 1592, col: 5, offset: 51417},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1586, col: 5, offset: 51203},
+																							pos: position{line: 1592, col: 5, offset: 51417},
 																							expr: &actionExpr{
-																								pos: position{line: 2912, col: 10, offset: 91925},
+																								pos: position{line: 2918, col: 10, offset: 92139},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2912, col: 10, offset: 91925},
+																									pos:        position{line: 2918, col: 10, offset: 92139},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26030,27 +26030,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1586, col: 12, offset: 51210},
+																							pos:   position{line: 1592, col: 12, offset: 51424},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1588, col: 9, offset: 51273},
+																								pos: position{line: 1594, col: 9, offset: 51487},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1588, col: 9, offset: 51273},
+																										pos: position{line: 1594, col: 9, offset: 51487},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1588, col: 9, offset: 51273},
+																											pos: position{line: 1594, col: 9, offset: 51487},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1588, col: 9, offset: 51273},
+																													pos:   position{line: 1594, col: 9, offset: 51487},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1588, col: 16, offset: 51280},
+																														pos: position{line: 1594, col: 16, offset: 51494},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1588, col: 16, offset: 51280},
+																															pos: position{line: 1594, col: 16, offset: 51494},
 																															expr: &litMatcher{
-																																pos:        position{line: 1588, col: 17, offset: 51281},
+																																pos:        position{line: 1594, col: 17, offset: 51495},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26059,22 +26059,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1592, col: 9, offset: 51381},
+																													pos: position{line: 1598, col: 9, offset: 51595},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1611, col: 11, offset: 52098},
+																										pos: position{line: 1617, col: 11, offset: 52312},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1611, col: 11, offset: 52098},
+																											pos: position{line: 1617, col: 11, offset: 52312},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1611, col: 11, offset: 52098},
+																													pos: position{line: 1617, col: 11, offset: 52312},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1611, col: 12, offset: 52099},
+																														pos:        position{line: 1617, col: 12, offset: 52313},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26082,7 +26082,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1611, col: 20, offset: 52107},
+																													pos:        position{line: 1617, col: 20, offset: 52321},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26091,20 +26091,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1613, col: 13, offset: 52224},
+																										pos: position{line: 1619, col: 13, offset: 52438},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1613, col: 13, offset: 52224},
+																											pos: position{line: 1619, col: 13, offset: 52438},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1613, col: 14, offset: 52225},
+																													pos:        position{line: 1619, col: 14, offset: 52439},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1613, col: 21, offset: 52232},
+																													pos:        position{line: 1619, col: 21, offset: 52446},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26113,20 +26113,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1615, col: 13, offset: 52352},
+																										pos: position{line: 1621, col: 13, offset: 52566},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1615, col: 13, offset: 52352},
+																											pos: position{line: 1621, col: 13, offset: 52566},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1615, col: 14, offset: 52353},
+																													pos:        position{line: 1621, col: 14, offset: 52567},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1615, col: 21, offset: 52360},
+																													pos:        position{line: 1621, col: 21, offset: 52574},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26135,15 +26135,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1617, col: 13, offset: 52480},
+																										pos: position{line: 1623, col: 13, offset: 52694},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1617, col: 13, offset: 52480},
+																											pos: position{line: 1623, col: 13, offset: 52694},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1617, col: 13, offset: 52480},
+																													pos: position{line: 1623, col: 13, offset: 52694},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1617, col: 14, offset: 52481},
+																														pos:        position{line: 1623, col: 14, offset: 52695},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26151,7 +26151,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1617, col: 26, offset: 52493},
+																													pos:        position{line: 1623, col: 26, offset: 52707},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26160,15 +26160,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1619, col: 13, offset: 52613},
+																										pos: position{line: 1625, col: 13, offset: 52827},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1619, col: 13, offset: 52613},
+																											pos: position{line: 1625, col: 13, offset: 52827},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1619, col: 13, offset: 52613},
+																													pos: position{line: 1625, col: 13, offset: 52827},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1619, col: 14, offset: 52614},
+																														pos:        position{line: 1625, col: 14, offset: 52828},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26176,7 +26176,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1619, col: 26, offset: 52626},
+																													pos:        position{line: 1625, col: 26, offset: 52840},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26188,12 +26188,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2916, col: 11, offset: 91986},
+																							pos: position{line: 2922, col: 11, offset: 92200},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2916, col: 11, offset: 91986},
+																								pos: position{line: 2922, col: 11, offset: 92200},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2916, col: 11, offset: 91986},
+																									pos:        position{line: 2922, col: 11, offset: 92200},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26206,26 +26206,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1580, col: 5, offset: 51034},
+																			pos:   position{line: 1586, col: 5, offset: 51248},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1526, col: 5, offset: 49467},
+																				pos: position{line: 1532, col: 5, offset: 49681},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1526, col: 5, offset: 49467},
+																					pos: position{line: 1532, col: 5, offset: 49681},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1526, col: 5, offset: 49467},
+																							pos:   position{line: 1532, col: 5, offset: 49681},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1526, col: 14, offset: 49476},
+																								pos: position{line: 1532, col: 14, offset: 49690},
 																								expr: &actionExpr{
-																									pos: position{line: 1526, col: 15, offset: 49477},
+																									pos: position{line: 1532, col: 15, offset: 49691},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1526, col: 15, offset: 49477},
+																										pos: position{line: 1532, col: 15, offset: 49691},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1526, col: 15, offset: 49477},
+																											pos:        position{line: 1532, col: 15, offset: 49691},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26236,28 +26236,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26266,9 +26266,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -26281,27 +26281,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1629, col: 5, offset: 52892},
+																pos: position{line: 1635, col: 5, offset: 53106},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1629, col: 5, offset: 52892},
+																	pos: position{line: 1635, col: 5, offset: 53106},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1629, col: 5, offset: 52892},
+																			pos:   position{line: 1635, col: 5, offset: 53106},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1636, col: 5, offset: 53165},
+																				pos: position{line: 1642, col: 5, offset: 53379},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1636, col: 5, offset: 53165},
+																					pos: position{line: 1642, col: 5, offset: 53379},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1636, col: 5, offset: 53165},
+																							pos: position{line: 1642, col: 5, offset: 53379},
 																							expr: &actionExpr{
-																								pos: position{line: 2912, col: 10, offset: 91925},
+																								pos: position{line: 2918, col: 10, offset: 92139},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2912, col: 10, offset: 91925},
+																									pos:        position{line: 2918, col: 10, offset: 92139},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26310,24 +26310,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1637, col: 5, offset: 53177},
+																							pos:   position{line: 1643, col: 5, offset: 53391},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1638, col: 9, offset: 53193},
+																								pos: position{line: 1644, col: 9, offset: 53407},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1638, col: 10, offset: 53194},
+																									pos: position{line: 1644, col: 10, offset: 53408},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1638, col: 11, offset: 53195},
+																											pos:        position{line: 1644, col: 11, offset: 53409},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1638, col: 18, offset: 53202},
+																											pos: position{line: 1644, col: 18, offset: 53416},
 																											expr: &litMatcher{
-																												pos:        position{line: 1638, col: 19, offset: 53203},
+																												pos:        position{line: 1644, col: 19, offset: 53417},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26338,16 +26338,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1641, col: 7, offset: 53293},
+																							pos: position{line: 1647, col: 7, offset: 53507},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2916, col: 11, offset: 91986},
+																							pos: position{line: 2922, col: 11, offset: 92200},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2916, col: 11, offset: 91986},
+																								pos: position{line: 2922, col: 11, offset: 92200},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2916, col: 11, offset: 91986},
+																									pos:        position{line: 2922, col: 11, offset: 92200},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26360,56 +26360,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1630, col: 5, offset: 52933},
+																			pos:   position{line: 1636, col: 5, offset: 53147},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1630, col: 16, offset: 52944},
+																				pos: position{line: 1636, col: 16, offset: 53158},
 																				expr: &actionExpr{
-																					pos: position{line: 1651, col: 5, offset: 53558},
+																					pos: position{line: 1657, col: 5, offset: 53772},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1651, col: 5, offset: 53558},
+																						pos: position{line: 1657, col: 5, offset: 53772},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1651, col: 5, offset: 53558},
+																								pos: position{line: 1657, col: 5, offset: 53772},
 																								expr: &litMatcher{
-																									pos:        position{line: 1651, col: 6, offset: 53559},
+																									pos:        position{line: 1657, col: 6, offset: 53773},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1651, col: 10, offset: 53563},
+																								pos:   position{line: 1657, col: 10, offset: 53777},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1652, col: 7, offset: 53577},
+																									pos: position{line: 1658, col: 7, offset: 53791},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1652, col: 7, offset: 53577},
+																											pos: position{line: 1658, col: 7, offset: 53791},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1652, col: 7, offset: 53577},
+																												pos:        position{line: 1658, col: 7, offset: 53791},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1653, col: 7, offset: 53622},
+																											pos: position{line: 1659, col: 7, offset: 53836},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1653, col: 7, offset: 53622},
+																												pos:        position{line: 1659, col: 7, offset: 53836},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1654, col: 7, offset: 53665},
+																											pos: position{line: 1660, col: 7, offset: 53879},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1654, col: 7, offset: 53665},
+																												pos:        position{line: 1660, col: 7, offset: 53879},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26419,12 +26419,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2916, col: 11, offset: 91986},
+																								pos: position{line: 2922, col: 11, offset: 92200},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2916, col: 11, offset: 91986},
+																									pos: position{line: 2922, col: 11, offset: 92200},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2916, col: 11, offset: 91986},
+																										pos:        position{line: 2922, col: 11, offset: 92200},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26438,26 +26438,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1631, col: 5, offset: 52983},
+																			pos:   position{line: 1637, col: 5, offset: 53197},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1526, col: 5, offset: 49467},
+																				pos: position{line: 1532, col: 5, offset: 49681},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1526, col: 5, offset: 49467},
+																					pos: position{line: 1532, col: 5, offset: 49681},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1526, col: 5, offset: 49467},
+																							pos:   position{line: 1532, col: 5, offset: 49681},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1526, col: 14, offset: 49476},
+																								pos: position{line: 1532, col: 14, offset: 49690},
 																								expr: &actionExpr{
-																									pos: position{line: 1526, col: 15, offset: 49477},
+																									pos: position{line: 1532, col: 15, offset: 49691},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1526, col: 15, offset: 49477},
+																										pos: position{line: 1532, col: 15, offset: 49691},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1526, col: 15, offset: 49477},
+																											pos:        position{line: 1532, col: 15, offset: 49691},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26468,28 +26468,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26498,9 +26498,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -26513,36 +26513,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1720, col: 5, offset: 55537},
+																pos: position{line: 1726, col: 5, offset: 55751},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1720, col: 5, offset: 55537},
+																	pos: position{line: 1726, col: 5, offset: 55751},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1720, col: 5, offset: 55537},
+																			pos:   position{line: 1726, col: 5, offset: 55751},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1726, col: 5, offset: 55734},
+																				pos: position{line: 1732, col: 5, offset: 55948},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1726, col: 5, offset: 55734},
+																					pos: position{line: 1732, col: 5, offset: 55948},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1726, col: 5, offset: 55734},
+																							pos:        position{line: 1732, col: 5, offset: 55948},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1726, col: 9, offset: 55738},
+																							pos:   position{line: 1732, col: 9, offset: 55952},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1726, col: 14, offset: 55743},
+																								pos: position{line: 1732, col: 14, offset: 55957},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1726, col: 14, offset: 55743},
+																									pos: position{line: 1732, col: 14, offset: 55957},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1726, col: 14, offset: 55743},
+																										pos:        position{line: 1732, col: 14, offset: 55957},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26552,18 +26552,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1726, col: 62, offset: 55791},
+																							pos:        position{line: 1732, col: 62, offset: 56005},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2916, col: 11, offset: 91986},
+																							pos: position{line: 2922, col: 11, offset: 92200},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2916, col: 11, offset: 91986},
+																								pos: position{line: 2922, col: 11, offset: 92200},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2916, col: 11, offset: 91986},
+																									pos:        position{line: 2922, col: 11, offset: 92200},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26576,26 +26576,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1721, col: 5, offset: 55573},
+																			pos:   position{line: 1727, col: 5, offset: 55787},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1526, col: 5, offset: 49467},
+																				pos: position{line: 1532, col: 5, offset: 49681},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1526, col: 5, offset: 49467},
+																					pos: position{line: 1532, col: 5, offset: 49681},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1526, col: 5, offset: 49467},
+																							pos:   position{line: 1532, col: 5, offset: 49681},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1526, col: 14, offset: 49476},
+																								pos: position{line: 1532, col: 14, offset: 49690},
 																								expr: &actionExpr{
-																									pos: position{line: 1526, col: 15, offset: 49477},
+																									pos: position{line: 1532, col: 15, offset: 49691},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1526, col: 15, offset: 49477},
+																										pos: position{line: 1532, col: 15, offset: 49691},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1526, col: 15, offset: 49477},
+																											pos:        position{line: 1532, col: 15, offset: 49691},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26606,28 +26606,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26636,9 +26636,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -26651,35 +26651,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1663, col: 5, offset: 53858},
+																pos: position{line: 1669, col: 5, offset: 54072},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1663, col: 5, offset: 53858},
+																	pos: position{line: 1669, col: 5, offset: 54072},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1663, col: 5, offset: 53858},
+																			pos:   position{line: 1669, col: 5, offset: 54072},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1671, col: 5, offset: 54184},
+																				pos: position{line: 1677, col: 5, offset: 54398},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &seqExpr{
-																					pos: position{line: 1671, col: 5, offset: 54184},
+																					pos: position{line: 1677, col: 5, offset: 54398},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1671, col: 5, offset: 54184},
+																							pos: position{line: 1677, col: 5, offset: 54398},
 																							expr: &seqExpr{
-																								pos: position{line: 2520, col: 31, offset: 80953},
+																								pos: position{line: 2526, col: 31, offset: 81167},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2520, col: 31, offset: 80953},
+																										pos:        position{line: 2526, col: 31, offset: 81167},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2520, col: 36, offset: 80958},
+																										pos: position{line: 2526, col: 36, offset: 81172},
 																										expr: &litMatcher{
-																											pos:        position{line: 2520, col: 37, offset: 80959},
+																											pos:        position{line: 2526, col: 37, offset: 81173},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -26689,28 +26689,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1672, col: 5, offset: 54216},
+																							pos: position{line: 1678, col: 5, offset: 54430},
 																							expr: &seqExpr{
-																								pos: position{line: 1672, col: 6, offset: 54217},
+																								pos: position{line: 1678, col: 6, offset: 54431},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1672, col: 6, offset: 54217},
+																										pos: position{line: 1678, col: 6, offset: 54431},
 																										expr: &actionExpr{
-																											pos: position{line: 1677, col: 5, offset: 54367},
+																											pos: position{line: 1683, col: 5, offset: 54581},
 																											run: (*parser).callonExtraListElement180,
 																											expr: &seqExpr{
-																												pos: position{line: 1677, col: 5, offset: 54367},
+																												pos: position{line: 1683, col: 5, offset: 54581},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1677, col: 5, offset: 54367},
+																														pos:   position{line: 1683, col: 5, offset: 54581},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1677, col: 16, offset: 54378},
+																															pos: position{line: 1683, col: 16, offset: 54592},
 																															run: (*parser).callonExtraListElement183,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1677, col: 16, offset: 54378},
+																																pos: position{line: 1683, col: 16, offset: 54592},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1677, col: 17, offset: 54379},
+																																	pos:        position{line: 1683, col: 17, offset: 54593},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -26719,7 +26719,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1680, col: 5, offset: 54436},
+																														pos: position{line: 1686, col: 5, offset: 54650},
 																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
@@ -26727,30 +26727,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1672, col: 35, offset: 54246},
+																										pos: position{line: 1678, col: 35, offset: 54460},
 																										expr: &choiceExpr{
-																											pos: position{line: 2934, col: 8, offset: 92323},
+																											pos: position{line: 2940, col: 8, offset: 92537},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2921, col: 12, offset: 92096},
+																													pos: position{line: 2927, col: 12, offset: 92310},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2921, col: 13, offset: 92097},
+																														pos: position{line: 2927, col: 13, offset: 92311},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 13, offset: 92097},
+																																pos:        position{line: 2927, col: 13, offset: 92311},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 20, offset: 92104},
+																																pos:        position{line: 2927, col: 20, offset: 92318},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 29, offset: 92113},
+																																pos:        position{line: 2927, col: 29, offset: 92327},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26759,16 +26759,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2931, col: 8, offset: 92273},
+																													pos: position{line: 2937, col: 8, offset: 92487},
 																													expr: &anyMatcher{
-																														line: 2931, col: 9, offset: 92274,
+																														line: 2937, col: 9, offset: 92488,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1672, col: 40, offset: 54251,
+																										line: 1678, col: 40, offset: 54465,
 																									},
 																								},
 																							},
@@ -26778,24 +26778,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1664, col: 5, offset: 53893},
+																			pos:   position{line: 1670, col: 5, offset: 54107},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1677, col: 5, offset: 54367},
+																				pos: position{line: 1683, col: 5, offset: 54581},
 																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1677, col: 5, offset: 54367},
+																					pos: position{line: 1683, col: 5, offset: 54581},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1677, col: 5, offset: 54367},
+																							pos:   position{line: 1683, col: 5, offset: 54581},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1677, col: 16, offset: 54378},
+																								pos: position{line: 1683, col: 16, offset: 54592},
 																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1677, col: 16, offset: 54378},
+																									pos: position{line: 1683, col: 16, offset: 54592},
 																									expr: &litMatcher{
-																										pos:        position{line: 1677, col: 17, offset: 54379},
+																										pos:        position{line: 1683, col: 17, offset: 54593},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26804,7 +26804,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1680, col: 5, offset: 54436},
+																							pos: position{line: 1686, col: 5, offset: 54650},
 																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
@@ -26812,24 +26812,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1665, col: 5, offset: 53938},
+																			pos:   position{line: 1671, col: 5, offset: 54152},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1688, col: 5, offset: 54685},
+																				pos: position{line: 1694, col: 5, offset: 54899},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1690, col: 9, offset: 54751},
+																						pos: position{line: 1696, col: 9, offset: 54965},
 																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1690, col: 9, offset: 54751},
+																							pos: position{line: 1696, col: 9, offset: 54965},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1690, col: 9, offset: 54751},
+																									pos: position{line: 1696, col: 9, offset: 54965},
 																									expr: &actionExpr{
-																										pos: position{line: 2912, col: 10, offset: 91925},
+																										pos: position{line: 2918, col: 10, offset: 92139},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2912, col: 10, offset: 91925},
+																											pos:        position{line: 2918, col: 10, offset: 92139},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26838,28 +26838,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2934, col: 8, offset: 92323},
+																									pos: position{line: 2940, col: 8, offset: 92537},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2921, col: 12, offset: 92096},
+																											pos: position{line: 2927, col: 12, offset: 92310},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2921, col: 13, offset: 92097},
+																												pos: position{line: 2927, col: 13, offset: 92311},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 13, offset: 92097},
+																														pos:        position{line: 2927, col: 13, offset: 92311},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 20, offset: 92104},
+																														pos:        position{line: 2927, col: 20, offset: 92318},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 29, offset: 92113},
+																														pos:        position{line: 2927, col: 29, offset: 92327},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26868,34 +26868,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2931, col: 8, offset: 92273},
+																											pos: position{line: 2937, col: 8, offset: 92487},
 																											expr: &anyMatcher{
-																												line: 2931, col: 9, offset: 92274,
+																												line: 2937, col: 9, offset: 92488,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1691, col: 9, offset: 54770},
+																									pos: position{line: 1697, col: 9, offset: 54984},
 																									expr: &actionExpr{
-																										pos: position{line: 680, col: 14, offset: 21687},
+																										pos: position{line: 686, col: 14, offset: 21901},
 																										run: (*parser).callonExtraListElement221,
 																										expr: &seqExpr{
-																											pos: position{line: 680, col: 14, offset: 21687},
+																											pos: position{line: 686, col: 14, offset: 21901},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2929, col: 11, offset: 92259},
+																													pos: position{line: 2935, col: 11, offset: 92473},
 																													expr: &anyMatcher{
-																														line: 2929, col: 13, offset: 92261,
+																														line: 2935, col: 13, offset: 92475,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 680, col: 21, offset: 21694},
+																													pos: position{line: 686, col: 21, offset: 21908},
 																													expr: &actionExpr{
-																														pos: position{line: 2912, col: 10, offset: 91925},
+																														pos: position{line: 2918, col: 10, offset: 92139},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2912, col: 10, offset: 91925},
+																															pos:        position{line: 2918, col: 10, offset: 92139},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26904,28 +26904,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2934, col: 8, offset: 92323},
+																													pos: position{line: 2940, col: 8, offset: 92537},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2921, col: 12, offset: 92096},
+																															pos: position{line: 2927, col: 12, offset: 92310},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2921, col: 13, offset: 92097},
+																																pos: position{line: 2927, col: 13, offset: 92311},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2921, col: 13, offset: 92097},
+																																		pos:        position{line: 2927, col: 13, offset: 92311},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2921, col: 20, offset: 92104},
+																																		pos:        position{line: 2927, col: 20, offset: 92318},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2921, col: 29, offset: 92113},
+																																		pos:        position{line: 2927, col: 29, offset: 92327},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26934,9 +26934,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2931, col: 8, offset: 92273},
+																															pos: position{line: 2937, col: 8, offset: 92487},
 																															expr: &anyMatcher{
-																																line: 2931, col: 9, offset: 92274,
+																																line: 2937, col: 9, offset: 92488,
 																															},
 																														},
 																													},
@@ -26949,18 +26949,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1697, col: 9, offset: 54899},
+																						pos: position{line: 1703, col: 9, offset: 55113},
 																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1697, col: 9, offset: 54899},
+																							pos: position{line: 1703, col: 9, offset: 55113},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2916, col: 11, offset: 91986},
+																									pos: position{line: 2922, col: 11, offset: 92200},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2916, col: 11, offset: 91986},
+																										pos: position{line: 2922, col: 11, offset: 92200},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2916, col: 11, offset: 91986},
+																											pos:        position{line: 2922, col: 11, offset: 92200},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26969,15 +26969,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1698, col: 9, offset: 54972},
+																									pos:   position{line: 1704, col: 9, offset: 55186},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1698, col: 18, offset: 54981},
+																										pos: position{line: 1704, col: 18, offset: 55195},
 																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1698, col: 18, offset: 54981},
+																											pos: position{line: 1704, col: 18, offset: 55195},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1698, col: 18, offset: 54981},
+																												pos:        position{line: 1704, col: 18, offset: 55195},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26987,28 +26987,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2934, col: 8, offset: 92323},
+																									pos: position{line: 2940, col: 8, offset: 92537},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2921, col: 12, offset: 92096},
+																											pos: position{line: 2927, col: 12, offset: 92310},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2921, col: 13, offset: 92097},
+																												pos: position{line: 2927, col: 13, offset: 92311},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 13, offset: 92097},
+																														pos:        position{line: 2927, col: 13, offset: 92311},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 20, offset: 92104},
+																														pos:        position{line: 2927, col: 20, offset: 92318},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 29, offset: 92113},
+																														pos:        position{line: 2927, col: 29, offset: 92327},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27017,9 +27017,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2931, col: 8, offset: 92273},
+																											pos: position{line: 2937, col: 8, offset: 92487},
 																											expr: &anyMatcher{
-																												line: 2931, col: 9, offset: 92274,
+																												line: 2937, col: 9, offset: 92488,
 																											},
 																										},
 																									},
@@ -27040,50 +27040,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1501, col: 13, offset: 48594},
+										pos: position{line: 1507, col: 13, offset: 48808},
 										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
-											pos: position{line: 1501, col: 13, offset: 48594},
+											pos: position{line: 1507, col: 13, offset: 48808},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1501, col: 13, offset: 48594},
+													pos:   position{line: 1507, col: 13, offset: 48808},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1501, col: 24, offset: 48605},
+														pos: position{line: 1507, col: 24, offset: 48819},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1501, col: 25, offset: 48606},
+															pos:  position{line: 1507, col: 25, offset: 48820},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1502, col: 13, offset: 48637},
+													pos:   position{line: 1508, col: 13, offset: 48851},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1502, col: 22, offset: 48646},
+														pos: position{line: 1508, col: 22, offset: 48860},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1579, col: 5, offset: 50995},
+																pos: position{line: 1585, col: 5, offset: 51209},
 																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
-																	pos: position{line: 1579, col: 5, offset: 50995},
+																	pos: position{line: 1585, col: 5, offset: 51209},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1579, col: 5, offset: 50995},
+																			pos:   position{line: 1585, col: 5, offset: 51209},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1586, col: 5, offset: 51203},
+																				pos: position{line: 1592, col: 5, offset: 51417},
 																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
-																					pos: position{line: 1586, col: 5, offset: 51203},
+																					pos: position{line: 1592, col: 5, offset: 51417},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1586, col: 5, offset: 51203},
+																							pos: position{line: 1592, col: 5, offset: 51417},
 																							expr: &actionExpr{
-																								pos: position{line: 2912, col: 10, offset: 91925},
+																								pos: position{line: 2918, col: 10, offset: 92139},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2912, col: 10, offset: 91925},
+																									pos:        position{line: 2918, col: 10, offset: 92139},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27092,27 +27092,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1586, col: 12, offset: 51210},
+																							pos:   position{line: 1592, col: 12, offset: 51424},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1588, col: 9, offset: 51273},
+																								pos: position{line: 1594, col: 9, offset: 51487},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1588, col: 9, offset: 51273},
+																										pos: position{line: 1594, col: 9, offset: 51487},
 																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
-																											pos: position{line: 1588, col: 9, offset: 51273},
+																											pos: position{line: 1594, col: 9, offset: 51487},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1588, col: 9, offset: 51273},
+																													pos:   position{line: 1594, col: 9, offset: 51487},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1588, col: 16, offset: 51280},
+																														pos: position{line: 1594, col: 16, offset: 51494},
 																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1588, col: 16, offset: 51280},
+																															pos: position{line: 1594, col: 16, offset: 51494},
 																															expr: &litMatcher{
-																																pos:        position{line: 1588, col: 17, offset: 51281},
+																																pos:        position{line: 1594, col: 17, offset: 51495},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27121,22 +27121,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1592, col: 9, offset: 51381},
+																													pos: position{line: 1598, col: 9, offset: 51595},
 																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1611, col: 11, offset: 52098},
+																										pos: position{line: 1617, col: 11, offset: 52312},
 																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
-																											pos: position{line: 1611, col: 11, offset: 52098},
+																											pos: position{line: 1617, col: 11, offset: 52312},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1611, col: 11, offset: 52098},
+																													pos: position{line: 1617, col: 11, offset: 52312},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1611, col: 12, offset: 52099},
+																														pos:        position{line: 1617, col: 12, offset: 52313},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27144,7 +27144,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1611, col: 20, offset: 52107},
+																													pos:        position{line: 1617, col: 20, offset: 52321},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27153,20 +27153,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1613, col: 13, offset: 52224},
+																										pos: position{line: 1619, col: 13, offset: 52438},
 																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
-																											pos: position{line: 1613, col: 13, offset: 52224},
+																											pos: position{line: 1619, col: 13, offset: 52438},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1613, col: 14, offset: 52225},
+																													pos:        position{line: 1619, col: 14, offset: 52439},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1613, col: 21, offset: 52232},
+																													pos:        position{line: 1619, col: 21, offset: 52446},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27175,20 +27175,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1615, col: 13, offset: 52352},
+																										pos: position{line: 1621, col: 13, offset: 52566},
 																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
-																											pos: position{line: 1615, col: 13, offset: 52352},
+																											pos: position{line: 1621, col: 13, offset: 52566},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1615, col: 14, offset: 52353},
+																													pos:        position{line: 1621, col: 14, offset: 52567},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1615, col: 21, offset: 52360},
+																													pos:        position{line: 1621, col: 21, offset: 52574},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27197,15 +27197,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1617, col: 13, offset: 52480},
+																										pos: position{line: 1623, col: 13, offset: 52694},
 																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
-																											pos: position{line: 1617, col: 13, offset: 52480},
+																											pos: position{line: 1623, col: 13, offset: 52694},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1617, col: 13, offset: 52480},
+																													pos: position{line: 1623, col: 13, offset: 52694},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1617, col: 14, offset: 52481},
+																														pos:        position{line: 1623, col: 14, offset: 52695},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27213,7 +27213,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1617, col: 26, offset: 52493},
+																													pos:        position{line: 1623, col: 26, offset: 52707},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27222,15 +27222,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1619, col: 13, offset: 52613},
+																										pos: position{line: 1625, col: 13, offset: 52827},
 																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
-																											pos: position{line: 1619, col: 13, offset: 52613},
+																											pos: position{line: 1625, col: 13, offset: 52827},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1619, col: 13, offset: 52613},
+																													pos: position{line: 1625, col: 13, offset: 52827},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1619, col: 14, offset: 52614},
+																														pos:        position{line: 1625, col: 14, offset: 52828},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27238,7 +27238,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1619, col: 26, offset: 52626},
+																													pos:        position{line: 1625, col: 26, offset: 52840},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27250,12 +27250,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2916, col: 11, offset: 91986},
+																							pos: position{line: 2922, col: 11, offset: 92200},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2916, col: 11, offset: 91986},
+																								pos: position{line: 2922, col: 11, offset: 92200},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2916, col: 11, offset: 91986},
+																									pos:        position{line: 2922, col: 11, offset: 92200},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27268,26 +27268,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1580, col: 5, offset: 51034},
+																			pos:   position{line: 1586, col: 5, offset: 51248},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1526, col: 5, offset: 49467},
+																				pos: position{line: 1532, col: 5, offset: 49681},
 																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
-																					pos: position{line: 1526, col: 5, offset: 49467},
+																					pos: position{line: 1532, col: 5, offset: 49681},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1526, col: 5, offset: 49467},
+																							pos:   position{line: 1532, col: 5, offset: 49681},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1526, col: 14, offset: 49476},
+																								pos: position{line: 1532, col: 14, offset: 49690},
 																								expr: &actionExpr{
-																									pos: position{line: 1526, col: 15, offset: 49477},
+																									pos: position{line: 1532, col: 15, offset: 49691},
 																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1526, col: 15, offset: 49477},
+																										pos: position{line: 1532, col: 15, offset: 49691},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1526, col: 15, offset: 49477},
+																											pos:        position{line: 1532, col: 15, offset: 49691},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27298,28 +27298,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27328,9 +27328,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -27343,27 +27343,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1629, col: 5, offset: 52892},
+																pos: position{line: 1635, col: 5, offset: 53106},
 																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
-																	pos: position{line: 1629, col: 5, offset: 52892},
+																	pos: position{line: 1635, col: 5, offset: 53106},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1629, col: 5, offset: 52892},
+																			pos:   position{line: 1635, col: 5, offset: 53106},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1636, col: 5, offset: 53165},
+																				pos: position{line: 1642, col: 5, offset: 53379},
 																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
-																					pos: position{line: 1636, col: 5, offset: 53165},
+																					pos: position{line: 1642, col: 5, offset: 53379},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1636, col: 5, offset: 53165},
+																							pos: position{line: 1642, col: 5, offset: 53379},
 																							expr: &actionExpr{
-																								pos: position{line: 2912, col: 10, offset: 91925},
+																								pos: position{line: 2918, col: 10, offset: 92139},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2912, col: 10, offset: 91925},
+																									pos:        position{line: 2918, col: 10, offset: 92139},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27372,24 +27372,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1637, col: 5, offset: 53177},
+																							pos:   position{line: 1643, col: 5, offset: 53391},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1638, col: 9, offset: 53193},
+																								pos: position{line: 1644, col: 9, offset: 53407},
 																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
-																									pos: position{line: 1638, col: 10, offset: 53194},
+																									pos: position{line: 1644, col: 10, offset: 53408},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1638, col: 11, offset: 53195},
+																											pos:        position{line: 1644, col: 11, offset: 53409},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1638, col: 18, offset: 53202},
+																											pos: position{line: 1644, col: 18, offset: 53416},
 																											expr: &litMatcher{
-																												pos:        position{line: 1638, col: 19, offset: 53203},
+																												pos:        position{line: 1644, col: 19, offset: 53417},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27400,16 +27400,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1641, col: 7, offset: 53293},
+																							pos: position{line: 1647, col: 7, offset: 53507},
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2916, col: 11, offset: 91986},
+																							pos: position{line: 2922, col: 11, offset: 92200},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2916, col: 11, offset: 91986},
+																								pos: position{line: 2922, col: 11, offset: 92200},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2916, col: 11, offset: 91986},
+																									pos:        position{line: 2922, col: 11, offset: 92200},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27422,56 +27422,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1630, col: 5, offset: 52933},
+																			pos:   position{line: 1636, col: 5, offset: 53147},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1630, col: 16, offset: 52944},
+																				pos: position{line: 1636, col: 16, offset: 53158},
 																				expr: &actionExpr{
-																					pos: position{line: 1651, col: 5, offset: 53558},
+																					pos: position{line: 1657, col: 5, offset: 53772},
 																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
-																						pos: position{line: 1651, col: 5, offset: 53558},
+																						pos: position{line: 1657, col: 5, offset: 53772},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1651, col: 5, offset: 53558},
+																								pos: position{line: 1657, col: 5, offset: 53772},
 																								expr: &litMatcher{
-																									pos:        position{line: 1651, col: 6, offset: 53559},
+																									pos:        position{line: 1657, col: 6, offset: 53773},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1651, col: 10, offset: 53563},
+																								pos:   position{line: 1657, col: 10, offset: 53777},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1652, col: 7, offset: 53577},
+																									pos: position{line: 1658, col: 7, offset: 53791},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1652, col: 7, offset: 53577},
+																											pos: position{line: 1658, col: 7, offset: 53791},
 																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
-																												pos:        position{line: 1652, col: 7, offset: 53577},
+																												pos:        position{line: 1658, col: 7, offset: 53791},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1653, col: 7, offset: 53622},
+																											pos: position{line: 1659, col: 7, offset: 53836},
 																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
-																												pos:        position{line: 1653, col: 7, offset: 53622},
+																												pos:        position{line: 1659, col: 7, offset: 53836},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1654, col: 7, offset: 53665},
+																											pos: position{line: 1660, col: 7, offset: 53879},
 																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
-																												pos:        position{line: 1654, col: 7, offset: 53665},
+																												pos:        position{line: 1660, col: 7, offset: 53879},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27481,12 +27481,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2916, col: 11, offset: 91986},
+																								pos: position{line: 2922, col: 11, offset: 92200},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2916, col: 11, offset: 91986},
+																									pos: position{line: 2922, col: 11, offset: 92200},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2916, col: 11, offset: 91986},
+																										pos:        position{line: 2922, col: 11, offset: 92200},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27500,26 +27500,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1631, col: 5, offset: 52983},
+																			pos:   position{line: 1637, col: 5, offset: 53197},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1526, col: 5, offset: 49467},
+																				pos: position{line: 1532, col: 5, offset: 49681},
 																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
-																					pos: position{line: 1526, col: 5, offset: 49467},
+																					pos: position{line: 1532, col: 5, offset: 49681},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1526, col: 5, offset: 49467},
+																							pos:   position{line: 1532, col: 5, offset: 49681},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1526, col: 14, offset: 49476},
+																								pos: position{line: 1532, col: 14, offset: 49690},
 																								expr: &actionExpr{
-																									pos: position{line: 1526, col: 15, offset: 49477},
+																									pos: position{line: 1532, col: 15, offset: 49691},
 																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1526, col: 15, offset: 49477},
+																										pos: position{line: 1532, col: 15, offset: 49691},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1526, col: 15, offset: 49477},
+																											pos:        position{line: 1532, col: 15, offset: 49691},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27530,28 +27530,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27560,9 +27560,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -27575,36 +27575,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1720, col: 5, offset: 55537},
+																pos: position{line: 1726, col: 5, offset: 55751},
 																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1720, col: 5, offset: 55537},
+																	pos: position{line: 1726, col: 5, offset: 55751},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1720, col: 5, offset: 55537},
+																			pos:   position{line: 1726, col: 5, offset: 55751},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1726, col: 5, offset: 55734},
+																				pos: position{line: 1732, col: 5, offset: 55948},
 																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1726, col: 5, offset: 55734},
+																					pos: position{line: 1732, col: 5, offset: 55948},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1726, col: 5, offset: 55734},
+																							pos:        position{line: 1732, col: 5, offset: 55948},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1726, col: 9, offset: 55738},
+																							pos:   position{line: 1732, col: 9, offset: 55952},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1726, col: 14, offset: 55743},
+																								pos: position{line: 1732, col: 14, offset: 55957},
 																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1726, col: 14, offset: 55743},
+																									pos: position{line: 1732, col: 14, offset: 55957},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1726, col: 14, offset: 55743},
+																										pos:        position{line: 1732, col: 14, offset: 55957},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27614,18 +27614,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1726, col: 62, offset: 55791},
+																							pos:        position{line: 1732, col: 62, offset: 56005},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2916, col: 11, offset: 91986},
+																							pos: position{line: 2922, col: 11, offset: 92200},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2916, col: 11, offset: 91986},
+																								pos: position{line: 2922, col: 11, offset: 92200},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2916, col: 11, offset: 91986},
+																									pos:        position{line: 2922, col: 11, offset: 92200},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27638,26 +27638,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1721, col: 5, offset: 55573},
+																			pos:   position{line: 1727, col: 5, offset: 55787},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1526, col: 5, offset: 49467},
+																				pos: position{line: 1532, col: 5, offset: 49681},
 																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
-																					pos: position{line: 1526, col: 5, offset: 49467},
+																					pos: position{line: 1532, col: 5, offset: 49681},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1526, col: 5, offset: 49467},
+																							pos:   position{line: 1532, col: 5, offset: 49681},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1526, col: 14, offset: 49476},
+																								pos: position{line: 1532, col: 14, offset: 49690},
 																								expr: &actionExpr{
-																									pos: position{line: 1526, col: 15, offset: 49477},
+																									pos: position{line: 1532, col: 15, offset: 49691},
 																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1526, col: 15, offset: 49477},
+																										pos: position{line: 1532, col: 15, offset: 49691},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1526, col: 15, offset: 49477},
+																											pos:        position{line: 1532, col: 15, offset: 49691},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27668,28 +27668,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27698,9 +27698,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -27713,35 +27713,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1663, col: 5, offset: 53858},
+																pos: position{line: 1669, col: 5, offset: 54072},
 																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
-																	pos: position{line: 1663, col: 5, offset: 53858},
+																	pos: position{line: 1669, col: 5, offset: 54072},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1663, col: 5, offset: 53858},
+																			pos:   position{line: 1669, col: 5, offset: 54072},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1671, col: 5, offset: 54184},
+																				pos: position{line: 1677, col: 5, offset: 54398},
 																				run: (*parser).callonExtraListElement403,
 																				expr: &seqExpr{
-																					pos: position{line: 1671, col: 5, offset: 54184},
+																					pos: position{line: 1677, col: 5, offset: 54398},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1671, col: 5, offset: 54184},
+																							pos: position{line: 1677, col: 5, offset: 54398},
 																							expr: &seqExpr{
-																								pos: position{line: 2520, col: 31, offset: 80953},
+																								pos: position{line: 2526, col: 31, offset: 81167},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2520, col: 31, offset: 80953},
+																										pos:        position{line: 2526, col: 31, offset: 81167},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2520, col: 36, offset: 80958},
+																										pos: position{line: 2526, col: 36, offset: 81172},
 																										expr: &litMatcher{
-																											pos:        position{line: 2520, col: 37, offset: 80959},
+																											pos:        position{line: 2526, col: 37, offset: 81173},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -27751,28 +27751,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1672, col: 5, offset: 54216},
+																							pos: position{line: 1678, col: 5, offset: 54430},
 																							expr: &seqExpr{
-																								pos: position{line: 1672, col: 6, offset: 54217},
+																								pos: position{line: 1678, col: 6, offset: 54431},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1672, col: 6, offset: 54217},
+																										pos: position{line: 1678, col: 6, offset: 54431},
 																										expr: &actionExpr{
-																											pos: position{line: 1677, col: 5, offset: 54367},
+																											pos: position{line: 1683, col: 5, offset: 54581},
 																											run: (*parser).callonExtraListElement413,
 																											expr: &seqExpr{
-																												pos: position{line: 1677, col: 5, offset: 54367},
+																												pos: position{line: 1683, col: 5, offset: 54581},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1677, col: 5, offset: 54367},
+																														pos:   position{line: 1683, col: 5, offset: 54581},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1677, col: 16, offset: 54378},
+																															pos: position{line: 1683, col: 16, offset: 54592},
 																															run: (*parser).callonExtraListElement416,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1677, col: 16, offset: 54378},
+																																pos: position{line: 1683, col: 16, offset: 54592},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1677, col: 17, offset: 54379},
+																																	pos:        position{line: 1683, col: 17, offset: 54593},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -27781,7 +27781,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1680, col: 5, offset: 54436},
+																														pos: position{line: 1686, col: 5, offset: 54650},
 																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
@@ -27789,30 +27789,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1672, col: 35, offset: 54246},
+																										pos: position{line: 1678, col: 35, offset: 54460},
 																										expr: &choiceExpr{
-																											pos: position{line: 2934, col: 8, offset: 92323},
+																											pos: position{line: 2940, col: 8, offset: 92537},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2921, col: 12, offset: 92096},
+																													pos: position{line: 2927, col: 12, offset: 92310},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2921, col: 13, offset: 92097},
+																														pos: position{line: 2927, col: 13, offset: 92311},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 13, offset: 92097},
+																																pos:        position{line: 2927, col: 13, offset: 92311},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 20, offset: 92104},
+																																pos:        position{line: 2927, col: 20, offset: 92318},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 29, offset: 92113},
+																																pos:        position{line: 2927, col: 29, offset: 92327},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27821,16 +27821,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2931, col: 8, offset: 92273},
+																													pos: position{line: 2937, col: 8, offset: 92487},
 																													expr: &anyMatcher{
-																														line: 2931, col: 9, offset: 92274,
+																														line: 2937, col: 9, offset: 92488,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1672, col: 40, offset: 54251,
+																										line: 1678, col: 40, offset: 54465,
 																									},
 																								},
 																							},
@@ -27840,24 +27840,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1664, col: 5, offset: 53893},
+																			pos:   position{line: 1670, col: 5, offset: 54107},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1677, col: 5, offset: 54367},
+																				pos: position{line: 1683, col: 5, offset: 54581},
 																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1677, col: 5, offset: 54367},
+																					pos: position{line: 1683, col: 5, offset: 54581},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1677, col: 5, offset: 54367},
+																							pos:   position{line: 1683, col: 5, offset: 54581},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1677, col: 16, offset: 54378},
+																								pos: position{line: 1683, col: 16, offset: 54592},
 																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1677, col: 16, offset: 54378},
+																									pos: position{line: 1683, col: 16, offset: 54592},
 																									expr: &litMatcher{
-																										pos:        position{line: 1677, col: 17, offset: 54379},
+																										pos:        position{line: 1683, col: 17, offset: 54593},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27866,7 +27866,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1680, col: 5, offset: 54436},
+																							pos: position{line: 1686, col: 5, offset: 54650},
 																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
@@ -27874,24 +27874,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1665, col: 5, offset: 53938},
+																			pos:   position{line: 1671, col: 5, offset: 54152},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1688, col: 5, offset: 54685},
+																				pos: position{line: 1694, col: 5, offset: 54899},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1690, col: 9, offset: 54751},
+																						pos: position{line: 1696, col: 9, offset: 54965},
 																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1690, col: 9, offset: 54751},
+																							pos: position{line: 1696, col: 9, offset: 54965},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1690, col: 9, offset: 54751},
+																									pos: position{line: 1696, col: 9, offset: 54965},
 																									expr: &actionExpr{
-																										pos: position{line: 2912, col: 10, offset: 91925},
+																										pos: position{line: 2918, col: 10, offset: 92139},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2912, col: 10, offset: 91925},
+																											pos:        position{line: 2918, col: 10, offset: 92139},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27900,28 +27900,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2934, col: 8, offset: 92323},
+																									pos: position{line: 2940, col: 8, offset: 92537},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2921, col: 12, offset: 92096},
+																											pos: position{line: 2927, col: 12, offset: 92310},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2921, col: 13, offset: 92097},
+																												pos: position{line: 2927, col: 13, offset: 92311},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 13, offset: 92097},
+																														pos:        position{line: 2927, col: 13, offset: 92311},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 20, offset: 92104},
+																														pos:        position{line: 2927, col: 20, offset: 92318},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 29, offset: 92113},
+																														pos:        position{line: 2927, col: 29, offset: 92327},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27930,34 +27930,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2931, col: 8, offset: 92273},
+																											pos: position{line: 2937, col: 8, offset: 92487},
 																											expr: &anyMatcher{
-																												line: 2931, col: 9, offset: 92274,
+																												line: 2937, col: 9, offset: 92488,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1691, col: 9, offset: 54770},
+																									pos: position{line: 1697, col: 9, offset: 54984},
 																									expr: &actionExpr{
-																										pos: position{line: 680, col: 14, offset: 21687},
+																										pos: position{line: 686, col: 14, offset: 21901},
 																										run: (*parser).callonExtraListElement454,
 																										expr: &seqExpr{
-																											pos: position{line: 680, col: 14, offset: 21687},
+																											pos: position{line: 686, col: 14, offset: 21901},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2929, col: 11, offset: 92259},
+																													pos: position{line: 2935, col: 11, offset: 92473},
 																													expr: &anyMatcher{
-																														line: 2929, col: 13, offset: 92261,
+																														line: 2935, col: 13, offset: 92475,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 680, col: 21, offset: 21694},
+																													pos: position{line: 686, col: 21, offset: 21908},
 																													expr: &actionExpr{
-																														pos: position{line: 2912, col: 10, offset: 91925},
+																														pos: position{line: 2918, col: 10, offset: 92139},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2912, col: 10, offset: 91925},
+																															pos:        position{line: 2918, col: 10, offset: 92139},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27966,28 +27966,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2934, col: 8, offset: 92323},
+																													pos: position{line: 2940, col: 8, offset: 92537},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2921, col: 12, offset: 92096},
+																															pos: position{line: 2927, col: 12, offset: 92310},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2921, col: 13, offset: 92097},
+																																pos: position{line: 2927, col: 13, offset: 92311},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2921, col: 13, offset: 92097},
+																																		pos:        position{line: 2927, col: 13, offset: 92311},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2921, col: 20, offset: 92104},
+																																		pos:        position{line: 2927, col: 20, offset: 92318},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2921, col: 29, offset: 92113},
+																																		pos:        position{line: 2927, col: 29, offset: 92327},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27996,9 +27996,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2931, col: 8, offset: 92273},
+																															pos: position{line: 2937, col: 8, offset: 92487},
 																															expr: &anyMatcher{
-																																line: 2931, col: 9, offset: 92274,
+																																line: 2937, col: 9, offset: 92488,
 																															},
 																														},
 																													},
@@ -28011,18 +28011,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1697, col: 9, offset: 54899},
+																						pos: position{line: 1703, col: 9, offset: 55113},
 																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1697, col: 9, offset: 54899},
+																							pos: position{line: 1703, col: 9, offset: 55113},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2916, col: 11, offset: 91986},
+																									pos: position{line: 2922, col: 11, offset: 92200},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2916, col: 11, offset: 91986},
+																										pos: position{line: 2922, col: 11, offset: 92200},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2916, col: 11, offset: 91986},
+																											pos:        position{line: 2922, col: 11, offset: 92200},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28031,15 +28031,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1698, col: 9, offset: 54972},
+																									pos:   position{line: 1704, col: 9, offset: 55186},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1698, col: 18, offset: 54981},
+																										pos: position{line: 1704, col: 18, offset: 55195},
 																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1698, col: 18, offset: 54981},
+																											pos: position{line: 1704, col: 18, offset: 55195},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1698, col: 18, offset: 54981},
+																												pos:        position{line: 1704, col: 18, offset: 55195},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28049,28 +28049,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2934, col: 8, offset: 92323},
+																									pos: position{line: 2940, col: 8, offset: 92537},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2921, col: 12, offset: 92096},
+																											pos: position{line: 2927, col: 12, offset: 92310},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2921, col: 13, offset: 92097},
+																												pos: position{line: 2927, col: 13, offset: 92311},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 13, offset: 92097},
+																														pos:        position{line: 2927, col: 13, offset: 92311},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 20, offset: 92104},
+																														pos:        position{line: 2927, col: 20, offset: 92318},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 29, offset: 92113},
+																														pos:        position{line: 2927, col: 29, offset: 92327},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28079,9 +28079,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2931, col: 8, offset: 92273},
+																											pos: position{line: 2937, col: 8, offset: 92487},
 																											expr: &anyMatcher{
-																												line: 2931, col: 9, offset: 92274,
+																												line: 2937, col: 9, offset: 92488,
 																											},
 																										},
 																									},
@@ -28102,40 +28102,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1505, col: 11, offset: 48831},
+										pos:  position{line: 1511, col: 11, offset: 49045},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2515, col: 22, offset: 80703},
+										pos: position{line: 2521, col: 22, offset: 80917},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2515, col: 22, offset: 80703},
+											pos: position{line: 2521, col: 22, offset: 80917},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2520, col: 31, offset: 80953},
+													pos:        position{line: 2526, col: 31, offset: 81167},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2520, col: 36, offset: 80958},
+													pos: position{line: 2526, col: 36, offset: 81172},
 													expr: &litMatcher{
-														pos:        position{line: 2520, col: 37, offset: 80959},
+														pos:        position{line: 2526, col: 37, offset: 81173},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 49, offset: 80730},
+													pos:   position{line: 2521, col: 49, offset: 80944},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 13, offset: 90451},
+														pos: position{line: 2864, col: 13, offset: 90665},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2858, col: 13, offset: 90451},
+															pos: position{line: 2864, col: 13, offset: 90665},
 															expr: &charClassMatcher{
-																pos:        position{line: 2858, col: 13, offset: 90451},
+																pos:        position{line: 2864, col: 13, offset: 90665},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28145,28 +28145,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2934, col: 8, offset: 92323},
+													pos: position{line: 2940, col: 8, offset: 92537},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2921, col: 12, offset: 92096},
+															pos: position{line: 2927, col: 12, offset: 92310},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2921, col: 13, offset: 92097},
+																pos: position{line: 2927, col: 13, offset: 92311},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 13, offset: 92097},
+																		pos:        position{line: 2927, col: 13, offset: 92311},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 20, offset: 92104},
+																		pos:        position{line: 2927, col: 20, offset: 92318},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 29, offset: 92113},
+																		pos:        position{line: 2927, col: 29, offset: 92327},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28175,9 +28175,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2931, col: 8, offset: 92273},
+															pos: position{line: 2937, col: 8, offset: 92487},
 															expr: &anyMatcher{
-																line: 2931, col: 9, offset: 92274,
+																line: 2937, col: 9, offset: 92488,
 															},
 														},
 													},
@@ -28186,32 +28186,32 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1513, col: 5, offset: 49109},
+										pos: position{line: 1519, col: 5, offset: 49323},
 										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
-											pos: position{line: 1513, col: 5, offset: 49109},
+											pos: position{line: 1519, col: 5, offset: 49323},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1513, col: 5, offset: 49109},
+													pos: position{line: 1519, col: 5, offset: 49323},
 													expr: &actionExpr{
-														pos: position{line: 680, col: 14, offset: 21687},
+														pos: position{line: 686, col: 14, offset: 21901},
 														run: (*parser).callonExtraListElement507,
 														expr: &seqExpr{
-															pos: position{line: 680, col: 14, offset: 21687},
+															pos: position{line: 686, col: 14, offset: 21901},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2929, col: 11, offset: 92259},
+																	pos: position{line: 2935, col: 11, offset: 92473},
 																	expr: &anyMatcher{
-																		line: 2929, col: 13, offset: 92261,
+																		line: 2935, col: 13, offset: 92475,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 680, col: 21, offset: 21694},
+																	pos: position{line: 686, col: 21, offset: 21908},
 																	expr: &actionExpr{
-																		pos: position{line: 2912, col: 10, offset: 91925},
+																		pos: position{line: 2918, col: 10, offset: 92139},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2912, col: 10, offset: 91925},
+																			pos:        position{line: 2918, col: 10, offset: 92139},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28220,28 +28220,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2934, col: 8, offset: 92323},
+																	pos: position{line: 2940, col: 8, offset: 92537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2921, col: 12, offset: 92096},
+																			pos: position{line: 2927, col: 12, offset: 92310},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2921, col: 13, offset: 92097},
+																				pos: position{line: 2927, col: 13, offset: 92311},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 13, offset: 92097},
+																						pos:        position{line: 2927, col: 13, offset: 92311},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 20, offset: 92104},
+																						pos:        position{line: 2927, col: 20, offset: 92318},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 29, offset: 92113},
+																						pos:        position{line: 2927, col: 29, offset: 92327},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28250,9 +28250,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2931, col: 8, offset: 92273},
+																			pos: position{line: 2937, col: 8, offset: 92487},
 																			expr: &anyMatcher{
-																				line: 2931, col: 9, offset: 92274,
+																				line: 2937, col: 9, offset: 92488,
 																			},
 																		},
 																	},
@@ -28262,23 +28262,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1514, col: 5, offset: 49124},
+													pos: position{line: 1520, col: 5, offset: 49338},
 													expr: &seqExpr{
-														pos: position{line: 1545, col: 27, offset: 49984},
+														pos: position{line: 1551, col: 27, offset: 50198},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1545, col: 27, offset: 49984},
+																pos:        position{line: 1551, col: 27, offset: 50198},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1545, col: 31, offset: 49988},
+																pos: position{line: 1551, col: 31, offset: 50202},
 																expr: &actionExpr{
-																	pos: position{line: 2912, col: 10, offset: 91925},
+																	pos: position{line: 2918, col: 10, offset: 92139},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2912, col: 10, offset: 91925},
+																		pos:        position{line: 2918, col: 10, offset: 92139},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28287,25 +28287,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2921, col: 12, offset: 92096},
+																pos: position{line: 2927, col: 12, offset: 92310},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2921, col: 13, offset: 92097},
+																	pos: position{line: 2927, col: 13, offset: 92311},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 13, offset: 92097},
+																			pos:        position{line: 2927, col: 13, offset: 92311},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 20, offset: 92104},
+																			pos:        position{line: 2927, col: 20, offset: 92318},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 29, offset: 92113},
+																			pos:        position{line: 2927, col: 29, offset: 92327},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28317,20 +28317,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1515, col: 5, offset: 49152},
+													pos: position{line: 1521, col: 5, offset: 49366},
 													expr: &actionExpr{
-														pos: position{line: 1586, col: 5, offset: 51203},
+														pos: position{line: 1592, col: 5, offset: 51417},
 														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
-															pos: position{line: 1586, col: 5, offset: 51203},
+															pos: position{line: 1592, col: 5, offset: 51417},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1586, col: 5, offset: 51203},
+																	pos: position{line: 1592, col: 5, offset: 51417},
 																	expr: &actionExpr{
-																		pos: position{line: 2912, col: 10, offset: 91925},
+																		pos: position{line: 2918, col: 10, offset: 92139},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2912, col: 10, offset: 91925},
+																			pos:        position{line: 2918, col: 10, offset: 92139},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28339,27 +28339,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1586, col: 12, offset: 51210},
+																	pos:   position{line: 1592, col: 12, offset: 51424},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1588, col: 9, offset: 51273},
+																		pos: position{line: 1594, col: 9, offset: 51487},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1588, col: 9, offset: 51273},
+																				pos: position{line: 1594, col: 9, offset: 51487},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1588, col: 9, offset: 51273},
+																					pos: position{line: 1594, col: 9, offset: 51487},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1588, col: 9, offset: 51273},
+																							pos:   position{line: 1594, col: 9, offset: 51487},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1588, col: 16, offset: 51280},
+																								pos: position{line: 1594, col: 16, offset: 51494},
 																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1588, col: 16, offset: 51280},
+																									pos: position{line: 1594, col: 16, offset: 51494},
 																									expr: &litMatcher{
-																										pos:        position{line: 1588, col: 17, offset: 51281},
+																										pos:        position{line: 1594, col: 17, offset: 51495},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28368,22 +28368,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1592, col: 9, offset: 51381},
+																							pos: position{line: 1598, col: 9, offset: 51595},
 																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1611, col: 11, offset: 52098},
+																				pos: position{line: 1617, col: 11, offset: 52312},
 																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
-																					pos: position{line: 1611, col: 11, offset: 52098},
+																					pos: position{line: 1617, col: 11, offset: 52312},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1611, col: 11, offset: 52098},
+																							pos: position{line: 1617, col: 11, offset: 52312},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1611, col: 12, offset: 52099},
+																								pos:        position{line: 1617, col: 12, offset: 52313},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28391,7 +28391,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1611, col: 20, offset: 52107},
+																							pos:        position{line: 1617, col: 20, offset: 52321},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28400,20 +28400,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1613, col: 13, offset: 52224},
+																				pos: position{line: 1619, col: 13, offset: 52438},
 																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
-																					pos: position{line: 1613, col: 13, offset: 52224},
+																					pos: position{line: 1619, col: 13, offset: 52438},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1613, col: 14, offset: 52225},
+																							pos:        position{line: 1619, col: 14, offset: 52439},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1613, col: 21, offset: 52232},
+																							pos:        position{line: 1619, col: 21, offset: 52446},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28422,20 +28422,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1615, col: 13, offset: 52352},
+																				pos: position{line: 1621, col: 13, offset: 52566},
 																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
-																					pos: position{line: 1615, col: 13, offset: 52352},
+																					pos: position{line: 1621, col: 13, offset: 52566},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1615, col: 14, offset: 52353},
+																							pos:        position{line: 1621, col: 14, offset: 52567},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1615, col: 21, offset: 52360},
+																							pos:        position{line: 1621, col: 21, offset: 52574},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28444,15 +28444,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1617, col: 13, offset: 52480},
+																				pos: position{line: 1623, col: 13, offset: 52694},
 																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 13, offset: 52480},
+																					pos: position{line: 1623, col: 13, offset: 52694},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1617, col: 13, offset: 52480},
+																							pos: position{line: 1623, col: 13, offset: 52694},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1617, col: 14, offset: 52481},
+																								pos:        position{line: 1623, col: 14, offset: 52695},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28460,7 +28460,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1617, col: 26, offset: 52493},
+																							pos:        position{line: 1623, col: 26, offset: 52707},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28469,15 +28469,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1619, col: 13, offset: 52613},
+																				pos: position{line: 1625, col: 13, offset: 52827},
 																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
-																					pos: position{line: 1619, col: 13, offset: 52613},
+																					pos: position{line: 1625, col: 13, offset: 52827},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1619, col: 13, offset: 52613},
+																							pos: position{line: 1625, col: 13, offset: 52827},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1619, col: 14, offset: 52614},
+																								pos:        position{line: 1625, col: 14, offset: 52828},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28485,7 +28485,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1619, col: 26, offset: 52626},
+																							pos:        position{line: 1625, col: 26, offset: 52840},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28497,12 +28497,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2916, col: 11, offset: 91986},
+																	pos: position{line: 2922, col: 11, offset: 92200},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2916, col: 11, offset: 91986},
+																		pos: position{line: 2922, col: 11, offset: 92200},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2916, col: 11, offset: 91986},
+																			pos:        position{line: 2922, col: 11, offset: 92200},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28515,20 +28515,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1516, col: 5, offset: 49182},
+													pos: position{line: 1522, col: 5, offset: 49396},
 													expr: &actionExpr{
-														pos: position{line: 1636, col: 5, offset: 53165},
+														pos: position{line: 1642, col: 5, offset: 53379},
 														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
-															pos: position{line: 1636, col: 5, offset: 53165},
+															pos: position{line: 1642, col: 5, offset: 53379},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1636, col: 5, offset: 53165},
+																	pos: position{line: 1642, col: 5, offset: 53379},
 																	expr: &actionExpr{
-																		pos: position{line: 2912, col: 10, offset: 91925},
+																		pos: position{line: 2918, col: 10, offset: 92139},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2912, col: 10, offset: 91925},
+																			pos:        position{line: 2918, col: 10, offset: 92139},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28537,24 +28537,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1637, col: 5, offset: 53177},
+																	pos:   position{line: 1643, col: 5, offset: 53391},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1638, col: 9, offset: 53193},
+																		pos: position{line: 1644, col: 9, offset: 53407},
 																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
-																			pos: position{line: 1638, col: 10, offset: 53194},
+																			pos: position{line: 1644, col: 10, offset: 53408},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1638, col: 11, offset: 53195},
+																					pos:        position{line: 1644, col: 11, offset: 53409},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1638, col: 18, offset: 53202},
+																					pos: position{line: 1644, col: 18, offset: 53416},
 																					expr: &litMatcher{
-																						pos:        position{line: 1638, col: 19, offset: 53203},
+																						pos:        position{line: 1644, col: 19, offset: 53417},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28565,16 +28565,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1641, col: 7, offset: 53293},
+																	pos: position{line: 1647, col: 7, offset: 53507},
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2916, col: 11, offset: 91986},
+																	pos: position{line: 2922, col: 11, offset: 92200},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2916, col: 11, offset: 91986},
+																		pos: position{line: 2922, col: 11, offset: 92200},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2916, col: 11, offset: 91986},
+																			pos:        position{line: 2922, col: 11, offset: 92200},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28587,29 +28587,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1517, col: 5, offset: 49214},
+													pos: position{line: 1523, col: 5, offset: 49428},
 													expr: &actionExpr{
-														pos: position{line: 1726, col: 5, offset: 55734},
+														pos: position{line: 1732, col: 5, offset: 55948},
 														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1726, col: 5, offset: 55734},
+															pos: position{line: 1732, col: 5, offset: 55948},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1726, col: 5, offset: 55734},
+																	pos:        position{line: 1732, col: 5, offset: 55948},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1726, col: 9, offset: 55738},
+																	pos:   position{line: 1732, col: 9, offset: 55952},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1726, col: 14, offset: 55743},
+																		pos: position{line: 1732, col: 14, offset: 55957},
 																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1726, col: 14, offset: 55743},
+																			pos: position{line: 1732, col: 14, offset: 55957},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1726, col: 14, offset: 55743},
+																				pos:        position{line: 1732, col: 14, offset: 55957},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28619,18 +28619,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1726, col: 62, offset: 55791},
+																	pos:        position{line: 1732, col: 62, offset: 56005},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2916, col: 11, offset: 91986},
+																	pos: position{line: 2922, col: 11, offset: 92200},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2916, col: 11, offset: 91986},
+																		pos: position{line: 2922, col: 11, offset: 92200},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2916, col: 11, offset: 91986},
+																			pos:        position{line: 2922, col: 11, offset: 92200},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28643,31 +28643,31 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1518, col: 5, offset: 49244},
+													pos: position{line: 1524, col: 5, offset: 49458},
 													expr: &seqExpr{
-														pos: position{line: 1518, col: 7, offset: 49246},
+														pos: position{line: 1524, col: 7, offset: 49460},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1671, col: 5, offset: 54184},
+																pos: position{line: 1677, col: 5, offset: 54398},
 																run: (*parser).callonExtraListElement604,
 																expr: &seqExpr{
-																	pos: position{line: 1671, col: 5, offset: 54184},
+																	pos: position{line: 1677, col: 5, offset: 54398},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1671, col: 5, offset: 54184},
+																			pos: position{line: 1677, col: 5, offset: 54398},
 																			expr: &seqExpr{
-																				pos: position{line: 2520, col: 31, offset: 80953},
+																				pos: position{line: 2526, col: 31, offset: 81167},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2520, col: 31, offset: 80953},
+																						pos:        position{line: 2526, col: 31, offset: 81167},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2520, col: 36, offset: 80958},
+																						pos: position{line: 2526, col: 36, offset: 81172},
 																						expr: &litMatcher{
-																							pos:        position{line: 2520, col: 37, offset: 80959},
+																							pos:        position{line: 2526, col: 37, offset: 81173},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -28677,28 +28677,28 @@ var g = &grammar{
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1672, col: 5, offset: 54216},
+																			pos: position{line: 1678, col: 5, offset: 54430},
 																			expr: &seqExpr{
-																				pos: position{line: 1672, col: 6, offset: 54217},
+																				pos: position{line: 1678, col: 6, offset: 54431},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1672, col: 6, offset: 54217},
+																						pos: position{line: 1678, col: 6, offset: 54431},
 																						expr: &actionExpr{
-																							pos: position{line: 1677, col: 5, offset: 54367},
+																							pos: position{line: 1683, col: 5, offset: 54581},
 																							run: (*parser).callonExtraListElement614,
 																							expr: &seqExpr{
-																								pos: position{line: 1677, col: 5, offset: 54367},
+																								pos: position{line: 1683, col: 5, offset: 54581},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1677, col: 5, offset: 54367},
+																										pos:   position{line: 1683, col: 5, offset: 54581},
 																										label: "separator",
 																										expr: &actionExpr{
-																											pos: position{line: 1677, col: 16, offset: 54378},
+																											pos: position{line: 1683, col: 16, offset: 54592},
 																											run: (*parser).callonExtraListElement617,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1677, col: 16, offset: 54378},
+																												pos: position{line: 1683, col: 16, offset: 54592},
 																												expr: &litMatcher{
-																													pos:        position{line: 1677, col: 17, offset: 54379},
+																													pos:        position{line: 1683, col: 17, offset: 54593},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
@@ -28707,7 +28707,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1680, col: 5, offset: 54436},
+																										pos: position{line: 1686, col: 5, offset: 54650},
 																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
@@ -28715,30 +28715,30 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1672, col: 35, offset: 54246},
+																						pos: position{line: 1678, col: 35, offset: 54460},
 																						expr: &choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28747,16 +28747,16 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1672, col: 40, offset: 54251,
+																						line: 1678, col: 40, offset: 54465,
 																					},
 																				},
 																			},
@@ -28765,21 +28765,21 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1677, col: 5, offset: 54367},
+																pos: position{line: 1683, col: 5, offset: 54581},
 																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1677, col: 5, offset: 54367},
+																	pos: position{line: 1683, col: 5, offset: 54581},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1677, col: 5, offset: 54367},
+																			pos:   position{line: 1683, col: 5, offset: 54581},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1677, col: 16, offset: 54378},
+																				pos: position{line: 1683, col: 16, offset: 54592},
 																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1677, col: 16, offset: 54378},
+																					pos: position{line: 1683, col: 16, offset: 54592},
 																					expr: &litMatcher{
-																						pos:        position{line: 1677, col: 17, offset: 54379},
+																						pos:        position{line: 1683, col: 17, offset: 54593},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28788,7 +28788,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1680, col: 5, offset: 54436},
+																			pos: position{line: 1686, col: 5, offset: 54650},
 																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
@@ -28798,17 +28798,17 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1519, col: 5, offset: 49302},
+													pos: position{line: 1525, col: 5, offset: 49516},
 													expr: &actionExpr{
-														pos: position{line: 727, col: 5, offset: 23240},
+														pos: position{line: 733, col: 5, offset: 23454},
 														run: (*parser).callonExtraListElement639,
 														expr: &seqExpr{
-															pos: position{line: 727, col: 5, offset: 23240},
+															pos: position{line: 733, col: 5, offset: 23454},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 727, col: 5, offset: 23240},
+																	pos: position{line: 733, col: 5, offset: 23454},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2802, col: 13, offset: 89020},
+																		pos:        position{line: 2808, col: 13, offset: 89234},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28816,36 +28816,36 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 728, col: 5, offset: 23270},
+																	pos:   position{line: 734, col: 5, offset: 23484},
 																	label: "delimiter",
 																	expr: &choiceExpr{
-																		pos: position{line: 729, col: 9, offset: 23290},
+																		pos: position{line: 735, col: 9, offset: 23504},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 743, col: 5, offset: 23782},
+																				pos: position{line: 749, col: 5, offset: 23996},
 																				run: (*parser).callonExtraListElement645,
 																				expr: &seqExpr{
-																					pos: position{line: 743, col: 5, offset: 23782},
+																					pos: position{line: 749, col: 5, offset: 23996},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 743, col: 5, offset: 23782},
+																							pos:   position{line: 749, col: 5, offset: 23996},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 743, col: 16, offset: 23793},
+																								pos: position{line: 749, col: 16, offset: 24007},
 																								run: (*parser).callonExtraListElement648,
 																								expr: &seqExpr{
-																									pos: position{line: 743, col: 16, offset: 23793},
+																									pos: position{line: 749, col: 16, offset: 24007},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 743, col: 16, offset: 23793},
+																											pos:        position{line: 749, col: 16, offset: 24007},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 743, col: 23, offset: 23800},
+																											pos: position{line: 749, col: 23, offset: 24014},
 																											expr: &litMatcher{
-																												pos:        position{line: 743, col: 23, offset: 23800},
+																												pos:        position{line: 749, col: 23, offset: 24014},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -28856,12 +28856,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 745, col: 8, offset: 23884},
+																							pos: position{line: 751, col: 8, offset: 24098},
 																							expr: &actionExpr{
-																								pos: position{line: 2912, col: 10, offset: 91925},
+																								pos: position{line: 2918, col: 10, offset: 92139},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2912, col: 10, offset: 91925},
+																									pos:        position{line: 2918, col: 10, offset: 92139},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28870,28 +28870,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28900,9 +28900,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -28911,30 +28911,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 750, col: 5, offset: 24030},
+																				pos: position{line: 756, col: 5, offset: 24244},
 																				run: (*parser).callonExtraListElement664,
 																				expr: &seqExpr{
-																					pos: position{line: 750, col: 5, offset: 24030},
+																					pos: position{line: 756, col: 5, offset: 24244},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 750, col: 5, offset: 24030},
+																							pos:   position{line: 756, col: 5, offset: 24244},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 750, col: 16, offset: 24041},
+																								pos: position{line: 756, col: 16, offset: 24255},
 																								run: (*parser).callonExtraListElement667,
 																								expr: &seqExpr{
-																									pos: position{line: 750, col: 16, offset: 24041},
+																									pos: position{line: 756, col: 16, offset: 24255},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 750, col: 16, offset: 24041},
+																											pos:        position{line: 756, col: 16, offset: 24255},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 750, col: 23, offset: 24048},
+																											pos: position{line: 756, col: 23, offset: 24262},
 																											expr: &litMatcher{
-																												pos:        position{line: 750, col: 23, offset: 24048},
+																												pos:        position{line: 756, col: 23, offset: 24262},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -28945,12 +28945,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 752, col: 8, offset: 24132},
+																							pos: position{line: 758, col: 8, offset: 24346},
 																							expr: &actionExpr{
-																								pos: position{line: 2912, col: 10, offset: 91925},
+																								pos: position{line: 2918, col: 10, offset: 92139},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2912, col: 10, offset: 91925},
+																									pos:        position{line: 2918, col: 10, offset: 92139},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28959,28 +28959,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28989,9 +28989,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -29000,27 +29000,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 763, col: 26, offset: 24518},
+																				pos: position{line: 769, col: 26, offset: 24732},
 																				run: (*parser).callonExtraListElement683,
 																				expr: &seqExpr{
-																					pos: position{line: 763, col: 26, offset: 24518},
+																					pos: position{line: 769, col: 26, offset: 24732},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 763, col: 26, offset: 24518},
+																							pos:        position{line: 769, col: 26, offset: 24732},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 763, col: 32, offset: 24524},
+																							pos:   position{line: 769, col: 32, offset: 24738},
 																							label: "language",
 																							expr: &actionExpr{
-																								pos: position{line: 767, col: 13, offset: 24654},
+																								pos: position{line: 773, col: 13, offset: 24868},
 																								run: (*parser).callonExtraListElement687,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 767, col: 14, offset: 24655},
+																									pos: position{line: 773, col: 14, offset: 24869},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 767, col: 14, offset: 24655},
+																										pos:        position{line: 773, col: 14, offset: 24869},
 																										val:        "[^\\r\\n` ]",
 																										chars:      []rune{'\r', '\n', '`', ' '},
 																										ignoreCase: false,
@@ -29030,12 +29030,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 763, col: 52, offset: 24544},
+																							pos: position{line: 769, col: 52, offset: 24758},
 																							expr: &actionExpr{
-																								pos: position{line: 2912, col: 10, offset: 91925},
+																								pos: position{line: 2918, col: 10, offset: 92139},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2912, col: 10, offset: 91925},
+																									pos:        position{line: 2918, col: 10, offset: 92139},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29044,28 +29044,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29074,9 +29074,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -29085,30 +29085,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 757, col: 5, offset: 24277},
+																				pos: position{line: 763, col: 5, offset: 24491},
 																				run: (*parser).callonExtraListElement701,
 																				expr: &seqExpr{
-																					pos: position{line: 757, col: 5, offset: 24277},
+																					pos: position{line: 763, col: 5, offset: 24491},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 757, col: 5, offset: 24277},
+																							pos:   position{line: 763, col: 5, offset: 24491},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 757, col: 16, offset: 24288},
+																								pos: position{line: 763, col: 16, offset: 24502},
 																								run: (*parser).callonExtraListElement704,
 																								expr: &seqExpr{
-																									pos: position{line: 757, col: 16, offset: 24288},
+																									pos: position{line: 763, col: 16, offset: 24502},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 757, col: 16, offset: 24288},
+																											pos:        position{line: 763, col: 16, offset: 24502},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 757, col: 22, offset: 24294},
+																											pos: position{line: 763, col: 22, offset: 24508},
 																											expr: &litMatcher{
-																												pos:        position{line: 757, col: 22, offset: 24294},
+																												pos:        position{line: 763, col: 22, offset: 24508},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -29119,12 +29119,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 759, col: 8, offset: 24378},
+																							pos: position{line: 765, col: 8, offset: 24592},
 																							expr: &actionExpr{
-																								pos: position{line: 2912, col: 10, offset: 91925},
+																								pos: position{line: 2918, col: 10, offset: 92139},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2912, col: 10, offset: 91925},
+																									pos:        position{line: 2918, col: 10, offset: 92139},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29133,28 +29133,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29163,9 +29163,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -29174,30 +29174,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 772, col: 5, offset: 24814},
+																				pos: position{line: 778, col: 5, offset: 25028},
 																				run: (*parser).callonExtraListElement720,
 																				expr: &seqExpr{
-																					pos: position{line: 772, col: 5, offset: 24814},
+																					pos: position{line: 778, col: 5, offset: 25028},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 772, col: 5, offset: 24814},
+																							pos:   position{line: 778, col: 5, offset: 25028},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 772, col: 16, offset: 24825},
+																								pos: position{line: 778, col: 16, offset: 25039},
 																								run: (*parser).callonExtraListElement723,
 																								expr: &seqExpr{
-																									pos: position{line: 772, col: 16, offset: 24825},
+																									pos: position{line: 778, col: 16, offset: 25039},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 772, col: 16, offset: 24825},
+																											pos:        position{line: 778, col: 16, offset: 25039},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 772, col: 23, offset: 24832},
+																											pos: position{line: 778, col: 23, offset: 25046},
 																											expr: &litMatcher{
-																												pos:        position{line: 772, col: 23, offset: 24832},
+																												pos:        position{line: 778, col: 23, offset: 25046},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -29208,12 +29208,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 774, col: 8, offset: 24916},
+																							pos: position{line: 780, col: 8, offset: 25130},
 																							expr: &actionExpr{
-																								pos: position{line: 2912, col: 10, offset: 91925},
+																								pos: position{line: 2918, col: 10, offset: 92139},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2912, col: 10, offset: 91925},
+																									pos:        position{line: 2918, col: 10, offset: 92139},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29222,28 +29222,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29252,9 +29252,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -29263,30 +29263,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 786, col: 5, offset: 25290},
+																				pos: position{line: 792, col: 5, offset: 25504},
 																				run: (*parser).callonExtraListElement739,
 																				expr: &seqExpr{
-																					pos: position{line: 786, col: 5, offset: 25290},
+																					pos: position{line: 792, col: 5, offset: 25504},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 786, col: 5, offset: 25290},
+																							pos:   position{line: 792, col: 5, offset: 25504},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 786, col: 16, offset: 25301},
+																								pos: position{line: 792, col: 16, offset: 25515},
 																								run: (*parser).callonExtraListElement742,
 																								expr: &seqExpr{
-																									pos: position{line: 786, col: 16, offset: 25301},
+																									pos: position{line: 792, col: 16, offset: 25515},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 786, col: 16, offset: 25301},
+																											pos:        position{line: 792, col: 16, offset: 25515},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 786, col: 23, offset: 25308},
+																											pos: position{line: 792, col: 23, offset: 25522},
 																											expr: &litMatcher{
-																												pos:        position{line: 786, col: 23, offset: 25308},
+																												pos:        position{line: 792, col: 23, offset: 25522},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -29297,12 +29297,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 788, col: 8, offset: 25392},
+																							pos: position{line: 794, col: 8, offset: 25606},
 																							expr: &actionExpr{
-																								pos: position{line: 2912, col: 10, offset: 91925},
+																								pos: position{line: 2918, col: 10, offset: 92139},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2912, col: 10, offset: 91925},
+																									pos:        position{line: 2918, col: 10, offset: 92139},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29311,28 +29311,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29341,9 +29341,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -29352,30 +29352,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 793, col: 5, offset: 25542},
+																				pos: position{line: 799, col: 5, offset: 25756},
 																				run: (*parser).callonExtraListElement758,
 																				expr: &seqExpr{
-																					pos: position{line: 793, col: 5, offset: 25542},
+																					pos: position{line: 799, col: 5, offset: 25756},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 793, col: 5, offset: 25542},
+																							pos:   position{line: 799, col: 5, offset: 25756},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 793, col: 16, offset: 25553},
+																								pos: position{line: 799, col: 16, offset: 25767},
 																								run: (*parser).callonExtraListElement761,
 																								expr: &seqExpr{
-																									pos: position{line: 793, col: 16, offset: 25553},
+																									pos: position{line: 799, col: 16, offset: 25767},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 793, col: 16, offset: 25553},
+																											pos:        position{line: 799, col: 16, offset: 25767},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 793, col: 23, offset: 25560},
+																											pos: position{line: 799, col: 23, offset: 25774},
 																											expr: &litMatcher{
-																												pos:        position{line: 793, col: 23, offset: 25560},
+																												pos:        position{line: 799, col: 23, offset: 25774},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -29386,12 +29386,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 795, col: 8, offset: 25644},
+																							pos: position{line: 801, col: 8, offset: 25858},
 																							expr: &actionExpr{
-																								pos: position{line: 2912, col: 10, offset: 91925},
+																								pos: position{line: 2918, col: 10, offset: 92139},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2912, col: 10, offset: 91925},
+																									pos:        position{line: 2918, col: 10, offset: 92139},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29400,28 +29400,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29430,9 +29430,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -29441,30 +29441,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 800, col: 5, offset: 25792},
+																				pos: position{line: 806, col: 5, offset: 26006},
 																				run: (*parser).callonExtraListElement777,
 																				expr: &seqExpr{
-																					pos: position{line: 800, col: 5, offset: 25792},
+																					pos: position{line: 806, col: 5, offset: 26006},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 800, col: 5, offset: 25792},
+																							pos:   position{line: 806, col: 5, offset: 26006},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 800, col: 16, offset: 25803},
+																								pos: position{line: 806, col: 16, offset: 26017},
 																								run: (*parser).callonExtraListElement780,
 																								expr: &seqExpr{
-																									pos: position{line: 800, col: 16, offset: 25803},
+																									pos: position{line: 806, col: 16, offset: 26017},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 800, col: 16, offset: 25803},
+																											pos:        position{line: 806, col: 16, offset: 26017},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 800, col: 23, offset: 25810},
+																											pos: position{line: 806, col: 23, offset: 26024},
 																											expr: &litMatcher{
-																												pos:        position{line: 800, col: 23, offset: 25810},
+																												pos:        position{line: 806, col: 23, offset: 26024},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -29475,12 +29475,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 802, col: 8, offset: 25894},
+																							pos: position{line: 808, col: 8, offset: 26108},
 																							expr: &actionExpr{
-																								pos: position{line: 2912, col: 10, offset: 91925},
+																								pos: position{line: 2918, col: 10, offset: 92139},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2912, col: 10, offset: 91925},
+																									pos:        position{line: 2918, col: 10, offset: 92139},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29489,28 +29489,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29519,9 +29519,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -29530,30 +29530,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 807, col: 5, offset: 26038},
+																				pos: position{line: 813, col: 5, offset: 26252},
 																				run: (*parser).callonExtraListElement796,
 																				expr: &seqExpr{
-																					pos: position{line: 807, col: 5, offset: 26038},
+																					pos: position{line: 813, col: 5, offset: 26252},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 807, col: 5, offset: 26038},
+																							pos:   position{line: 813, col: 5, offset: 26252},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 807, col: 16, offset: 26049},
+																								pos: position{line: 813, col: 16, offset: 26263},
 																								run: (*parser).callonExtraListElement799,
 																								expr: &seqExpr{
-																									pos: position{line: 807, col: 16, offset: 26049},
+																									pos: position{line: 813, col: 16, offset: 26263},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 807, col: 16, offset: 26049},
+																											pos:        position{line: 813, col: 16, offset: 26263},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 807, col: 23, offset: 26056},
+																											pos: position{line: 813, col: 23, offset: 26270},
 																											expr: &litMatcher{
-																												pos:        position{line: 807, col: 23, offset: 26056},
+																												pos:        position{line: 813, col: 23, offset: 26270},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -29564,12 +29564,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 809, col: 8, offset: 26140},
+																							pos: position{line: 815, col: 8, offset: 26354},
 																							expr: &actionExpr{
-																								pos: position{line: 2912, col: 10, offset: 91925},
+																								pos: position{line: 2918, col: 10, offset: 92139},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2912, col: 10, offset: 91925},
+																									pos:        position{line: 2918, col: 10, offset: 92139},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29578,28 +29578,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29608,9 +29608,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -29626,15 +29626,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1520, col: 5, offset: 49322},
+													pos:   position{line: 1526, col: 5, offset: 49536},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 14, offset: 90518},
+														pos: position{line: 2868, col: 14, offset: 90732},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2862, col: 14, offset: 90518},
+															pos: position{line: 2868, col: 14, offset: 90732},
 															expr: &charClassMatcher{
-																pos:        position{line: 2862, col: 14, offset: 90518},
+																pos:        position{line: 2868, col: 14, offset: 90732},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29644,28 +29644,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2934, col: 8, offset: 92323},
+													pos: position{line: 2940, col: 8, offset: 92537},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2921, col: 12, offset: 92096},
+															pos: position{line: 2927, col: 12, offset: 92310},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2921, col: 13, offset: 92097},
+																pos: position{line: 2927, col: 13, offset: 92311},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 13, offset: 92097},
+																		pos:        position{line: 2927, col: 13, offset: 92311},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 20, offset: 92104},
+																		pos:        position{line: 2927, col: 20, offset: 92318},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 29, offset: 92113},
+																		pos:        position{line: 2927, col: 29, offset: 92327},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29674,9 +29674,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2931, col: 8, offset: 92273},
+															pos: position{line: 2937, col: 8, offset: 92487},
 															expr: &anyMatcher{
-																line: 2931, col: 9, offset: 92274,
+																line: 2937, col: 9, offset: 92488,
 															},
 														},
 													},
@@ -29693,28 +29693,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1536, col: 1, offset: 49713},
+			pos:  position{line: 1542, col: 1, offset: 49927},
 			expr: &actionExpr{
-				pos: position{line: 1537, col: 5, offset: 49738},
+				pos: position{line: 1543, col: 5, offset: 49952},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1537, col: 5, offset: 49738},
+					pos: position{line: 1543, col: 5, offset: 49952},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1537, col: 5, offset: 49738},
+							pos:   position{line: 1543, col: 5, offset: 49952},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1537, col: 12, offset: 49745},
+								pos: position{line: 1543, col: 12, offset: 49959},
 								expr: &seqExpr{
-									pos: position{line: 1537, col: 13, offset: 49746},
+									pos: position{line: 1543, col: 13, offset: 49960},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1537, col: 13, offset: 49746},
+											pos: position{line: 1543, col: 13, offset: 49960},
 											expr: &actionExpr{
-												pos: position{line: 2912, col: 10, offset: 91925},
+												pos: position{line: 2918, col: 10, offset: 92139},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2912, col: 10, offset: 91925},
+													pos:        position{line: 2918, col: 10, offset: 92139},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29723,25 +29723,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2921, col: 12, offset: 92096},
+											pos: position{line: 2927, col: 12, offset: 92310},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2921, col: 13, offset: 92097},
+												pos: position{line: 2927, col: 13, offset: 92311},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2921, col: 13, offset: 92097},
+														pos:        position{line: 2927, col: 13, offset: 92311},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2921, col: 20, offset: 92104},
+														pos:        position{line: 2927, col: 20, offset: 92318},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2921, col: 29, offset: 92113},
+														pos:        position{line: 2927, col: 29, offset: 92327},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29754,18 +29754,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1545, col: 27, offset: 49984},
+							pos:        position{line: 1551, col: 27, offset: 50198},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1545, col: 31, offset: 49988},
+							pos: position{line: 1551, col: 31, offset: 50202},
 							expr: &actionExpr{
-								pos: position{line: 2912, col: 10, offset: 91925},
+								pos: position{line: 2918, col: 10, offset: 92139},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2912, col: 10, offset: 91925},
+									pos:        position{line: 2918, col: 10, offset: 92139},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29774,25 +29774,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2921, col: 12, offset: 92096},
+							pos: position{line: 2927, col: 12, offset: 92310},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2921, col: 13, offset: 92097},
+								pos: position{line: 2927, col: 13, offset: 92311},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2921, col: 13, offset: 92097},
+										pos:        position{line: 2927, col: 13, offset: 92311},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2921, col: 20, offset: 92104},
+										pos:        position{line: 2927, col: 20, offset: 92318},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2921, col: 29, offset: 92113},
+										pos:        position{line: 2927, col: 29, offset: 92327},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29801,38 +29801,38 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1539, col: 5, offset: 49795},
+							pos: position{line: 1545, col: 5, offset: 50009},
 							expr: &actionExpr{
-								pos: position{line: 2515, col: 22, offset: 80703},
+								pos: position{line: 2521, col: 22, offset: 80917},
 								run: (*parser).callonListContinuation24,
 								expr: &seqExpr{
-									pos: position{line: 2515, col: 22, offset: 80703},
+									pos: position{line: 2521, col: 22, offset: 80917},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2520, col: 31, offset: 80953},
+											pos:        position{line: 2526, col: 31, offset: 81167},
 											val:        "//",
 											ignoreCase: false,
 											want:       "\"//\"",
 										},
 										&notExpr{
-											pos: position{line: 2520, col: 36, offset: 80958},
+											pos: position{line: 2526, col: 36, offset: 81172},
 											expr: &litMatcher{
-												pos:        position{line: 2520, col: 37, offset: 80959},
+												pos:        position{line: 2526, col: 37, offset: 81173},
 												val:        "/",
 												ignoreCase: false,
 												want:       "\"/\"",
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2515, col: 49, offset: 80730},
+											pos:   position{line: 2521, col: 49, offset: 80944},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2858, col: 13, offset: 90451},
+												pos: position{line: 2864, col: 13, offset: 90665},
 												run: (*parser).callonListContinuation30,
 												expr: &zeroOrMoreExpr{
-													pos: position{line: 2858, col: 13, offset: 90451},
+													pos: position{line: 2864, col: 13, offset: 90665},
 													expr: &charClassMatcher{
-														pos:        position{line: 2858, col: 13, offset: 90451},
+														pos:        position{line: 2864, col: 13, offset: 90665},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -29842,28 +29842,28 @@ var g = &grammar{
 											},
 										},
 										&choiceExpr{
-											pos: position{line: 2934, col: 8, offset: 92323},
+											pos: position{line: 2940, col: 8, offset: 92537},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2921, col: 12, offset: 92096},
+													pos: position{line: 2927, col: 12, offset: 92310},
 													run: (*parser).callonListContinuation34,
 													expr: &choiceExpr{
-														pos: position{line: 2921, col: 13, offset: 92097},
+														pos: position{line: 2927, col: 13, offset: 92311},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2921, col: 13, offset: 92097},
+																pos:        position{line: 2927, col: 13, offset: 92311},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2921, col: 20, offset: 92104},
+																pos:        position{line: 2927, col: 20, offset: 92318},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2921, col: 29, offset: 92113},
+																pos:        position{line: 2927, col: 29, offset: 92327},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -29872,9 +29872,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2931, col: 8, offset: 92273},
+													pos: position{line: 2937, col: 8, offset: 92487},
 													expr: &anyMatcher{
-														line: 2931, col: 9, offset: 92274,
+														line: 2937, col: 9, offset: 92488,
 													},
 												},
 											},
@@ -29884,12 +29884,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1540, col: 5, offset: 49829},
+							pos:   position{line: 1546, col: 5, offset: 50043},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1540, col: 13, offset: 49837},
+								pos: position{line: 1546, col: 13, offset: 50051},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1540, col: 13, offset: 49837},
+									pos:  position{line: 1546, col: 13, offset: 50051},
 									name: "ListContinuationElement",
 								},
 							},
@@ -29900,46 +29900,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1547, col: 1, offset: 50004},
+			pos:  position{line: 1553, col: 1, offset: 50218},
 			expr: &actionExpr{
-				pos: position{line: 1548, col: 5, offset: 50075},
+				pos: position{line: 1554, col: 5, offset: 50289},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1548, col: 5, offset: 50075},
+					pos: position{line: 1554, col: 5, offset: 50289},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2929, col: 11, offset: 92259},
+							pos: position{line: 2935, col: 11, offset: 92473},
 							expr: &anyMatcher{
-								line: 2929, col: 13, offset: 92261,
+								line: 2935, col: 13, offset: 92475,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1549, col: 5, offset: 50103},
+							pos: position{line: 1555, col: 5, offset: 50317},
 							expr: &choiceExpr{
-								pos: position{line: 1485, col: 5, offset: 48027},
+								pos: position{line: 1491, col: 5, offset: 48241},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1579, col: 5, offset: 50995},
+										pos: position{line: 1585, col: 5, offset: 51209},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1579, col: 5, offset: 50995},
+											pos: position{line: 1585, col: 5, offset: 51209},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1579, col: 5, offset: 50995},
+													pos:   position{line: 1585, col: 5, offset: 51209},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1586, col: 5, offset: 51203},
+														pos: position{line: 1592, col: 5, offset: 51417},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1586, col: 5, offset: 51203},
+															pos: position{line: 1592, col: 5, offset: 51417},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1586, col: 5, offset: 51203},
+																	pos: position{line: 1592, col: 5, offset: 51417},
 																	expr: &actionExpr{
-																		pos: position{line: 2912, col: 10, offset: 91925},
+																		pos: position{line: 2918, col: 10, offset: 92139},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2912, col: 10, offset: 91925},
+																			pos:        position{line: 2918, col: 10, offset: 92139},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29948,27 +29948,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1586, col: 12, offset: 51210},
+																	pos:   position{line: 1592, col: 12, offset: 51424},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1588, col: 9, offset: 51273},
+																		pos: position{line: 1594, col: 9, offset: 51487},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1588, col: 9, offset: 51273},
+																				pos: position{line: 1594, col: 9, offset: 51487},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1588, col: 9, offset: 51273},
+																					pos: position{line: 1594, col: 9, offset: 51487},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1588, col: 9, offset: 51273},
+																							pos:   position{line: 1594, col: 9, offset: 51487},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1588, col: 16, offset: 51280},
+																								pos: position{line: 1594, col: 16, offset: 51494},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1588, col: 16, offset: 51280},
+																									pos: position{line: 1594, col: 16, offset: 51494},
 																									expr: &litMatcher{
-																										pos:        position{line: 1588, col: 17, offset: 51281},
+																										pos:        position{line: 1594, col: 17, offset: 51495},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29977,22 +29977,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1592, col: 9, offset: 51381},
+																							pos: position{line: 1598, col: 9, offset: 51595},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1611, col: 11, offset: 52098},
+																				pos: position{line: 1617, col: 11, offset: 52312},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1611, col: 11, offset: 52098},
+																					pos: position{line: 1617, col: 11, offset: 52312},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1611, col: 11, offset: 52098},
+																							pos: position{line: 1617, col: 11, offset: 52312},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1611, col: 12, offset: 52099},
+																								pos:        position{line: 1617, col: 12, offset: 52313},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -30000,7 +30000,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1611, col: 20, offset: 52107},
+																							pos:        position{line: 1617, col: 20, offset: 52321},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30009,20 +30009,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1613, col: 13, offset: 52224},
+																				pos: position{line: 1619, col: 13, offset: 52438},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1613, col: 13, offset: 52224},
+																					pos: position{line: 1619, col: 13, offset: 52438},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1613, col: 14, offset: 52225},
+																							pos:        position{line: 1619, col: 14, offset: 52439},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1613, col: 21, offset: 52232},
+																							pos:        position{line: 1619, col: 21, offset: 52446},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30031,20 +30031,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1615, col: 13, offset: 52352},
+																				pos: position{line: 1621, col: 13, offset: 52566},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1615, col: 13, offset: 52352},
+																					pos: position{line: 1621, col: 13, offset: 52566},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1615, col: 14, offset: 52353},
+																							pos:        position{line: 1621, col: 14, offset: 52567},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1615, col: 21, offset: 52360},
+																							pos:        position{line: 1621, col: 21, offset: 52574},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30053,15 +30053,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1617, col: 13, offset: 52480},
+																				pos: position{line: 1623, col: 13, offset: 52694},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 13, offset: 52480},
+																					pos: position{line: 1623, col: 13, offset: 52694},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1617, col: 13, offset: 52480},
+																							pos: position{line: 1623, col: 13, offset: 52694},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1617, col: 14, offset: 52481},
+																								pos:        position{line: 1623, col: 14, offset: 52695},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -30069,7 +30069,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1617, col: 26, offset: 52493},
+																							pos:        position{line: 1623, col: 26, offset: 52707},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30078,15 +30078,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1619, col: 13, offset: 52613},
+																				pos: position{line: 1625, col: 13, offset: 52827},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1619, col: 13, offset: 52613},
+																					pos: position{line: 1625, col: 13, offset: 52827},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1619, col: 13, offset: 52613},
+																							pos: position{line: 1625, col: 13, offset: 52827},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1619, col: 14, offset: 52614},
+																								pos:        position{line: 1625, col: 14, offset: 52828},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -30094,7 +30094,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1619, col: 26, offset: 52626},
+																							pos:        position{line: 1625, col: 26, offset: 52840},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30106,12 +30106,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2916, col: 11, offset: 91986},
+																	pos: position{line: 2922, col: 11, offset: 92200},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2916, col: 11, offset: 91986},
+																		pos: position{line: 2922, col: 11, offset: 92200},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2916, col: 11, offset: 91986},
+																			pos:        position{line: 2922, col: 11, offset: 92200},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30124,26 +30124,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1580, col: 5, offset: 51034},
+													pos:   position{line: 1586, col: 5, offset: 51248},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1526, col: 5, offset: 49467},
+														pos: position{line: 1532, col: 5, offset: 49681},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1526, col: 5, offset: 49467},
+															pos: position{line: 1532, col: 5, offset: 49681},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1526, col: 5, offset: 49467},
+																	pos:   position{line: 1532, col: 5, offset: 49681},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1526, col: 14, offset: 49476},
+																		pos: position{line: 1532, col: 14, offset: 49690},
 																		expr: &actionExpr{
-																			pos: position{line: 1526, col: 15, offset: 49477},
+																			pos: position{line: 1532, col: 15, offset: 49691},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1526, col: 15, offset: 49477},
+																				pos: position{line: 1532, col: 15, offset: 49691},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1526, col: 15, offset: 49477},
+																					pos:        position{line: 1532, col: 15, offset: 49691},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30154,28 +30154,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2934, col: 8, offset: 92323},
+																	pos: position{line: 2940, col: 8, offset: 92537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2921, col: 12, offset: 92096},
+																			pos: position{line: 2927, col: 12, offset: 92310},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2921, col: 13, offset: 92097},
+																				pos: position{line: 2927, col: 13, offset: 92311},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 13, offset: 92097},
+																						pos:        position{line: 2927, col: 13, offset: 92311},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 20, offset: 92104},
+																						pos:        position{line: 2927, col: 20, offset: 92318},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 29, offset: 92113},
+																						pos:        position{line: 2927, col: 29, offset: 92327},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30184,9 +30184,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2931, col: 8, offset: 92273},
+																			pos: position{line: 2937, col: 8, offset: 92487},
 																			expr: &anyMatcher{
-																				line: 2931, col: 9, offset: 92274,
+																				line: 2937, col: 9, offset: 92488,
 																			},
 																		},
 																	},
@@ -30199,27 +30199,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1629, col: 5, offset: 52892},
+										pos: position{line: 1635, col: 5, offset: 53106},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1629, col: 5, offset: 52892},
+											pos: position{line: 1635, col: 5, offset: 53106},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1629, col: 5, offset: 52892},
+													pos:   position{line: 1635, col: 5, offset: 53106},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1636, col: 5, offset: 53165},
+														pos: position{line: 1642, col: 5, offset: 53379},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1636, col: 5, offset: 53165},
+															pos: position{line: 1642, col: 5, offset: 53379},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1636, col: 5, offset: 53165},
+																	pos: position{line: 1642, col: 5, offset: 53379},
 																	expr: &actionExpr{
-																		pos: position{line: 2912, col: 10, offset: 91925},
+																		pos: position{line: 2918, col: 10, offset: 92139},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2912, col: 10, offset: 91925},
+																			pos:        position{line: 2918, col: 10, offset: 92139},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30228,24 +30228,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1637, col: 5, offset: 53177},
+																	pos:   position{line: 1643, col: 5, offset: 53391},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1638, col: 9, offset: 53193},
+																		pos: position{line: 1644, col: 9, offset: 53407},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1638, col: 10, offset: 53194},
+																			pos: position{line: 1644, col: 10, offset: 53408},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1638, col: 11, offset: 53195},
+																					pos:        position{line: 1644, col: 11, offset: 53409},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1638, col: 18, offset: 53202},
+																					pos: position{line: 1644, col: 18, offset: 53416},
 																					expr: &litMatcher{
-																						pos:        position{line: 1638, col: 19, offset: 53203},
+																						pos:        position{line: 1644, col: 19, offset: 53417},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -30256,16 +30256,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1641, col: 7, offset: 53293},
+																	pos: position{line: 1647, col: 7, offset: 53507},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2916, col: 11, offset: 91986},
+																	pos: position{line: 2922, col: 11, offset: 92200},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2916, col: 11, offset: 91986},
+																		pos: position{line: 2922, col: 11, offset: 92200},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2916, col: 11, offset: 91986},
+																			pos:        position{line: 2922, col: 11, offset: 92200},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30278,56 +30278,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1630, col: 5, offset: 52933},
+													pos:   position{line: 1636, col: 5, offset: 53147},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1630, col: 16, offset: 52944},
+														pos: position{line: 1636, col: 16, offset: 53158},
 														expr: &actionExpr{
-															pos: position{line: 1651, col: 5, offset: 53558},
+															pos: position{line: 1657, col: 5, offset: 53772},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1651, col: 5, offset: 53558},
+																pos: position{line: 1657, col: 5, offset: 53772},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1651, col: 5, offset: 53558},
+																		pos: position{line: 1657, col: 5, offset: 53772},
 																		expr: &litMatcher{
-																			pos:        position{line: 1651, col: 6, offset: 53559},
+																			pos:        position{line: 1657, col: 6, offset: 53773},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1651, col: 10, offset: 53563},
+																		pos:   position{line: 1657, col: 10, offset: 53777},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1652, col: 7, offset: 53577},
+																			pos: position{line: 1658, col: 7, offset: 53791},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1652, col: 7, offset: 53577},
+																					pos: position{line: 1658, col: 7, offset: 53791},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1652, col: 7, offset: 53577},
+																						pos:        position{line: 1658, col: 7, offset: 53791},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1653, col: 7, offset: 53622},
+																					pos: position{line: 1659, col: 7, offset: 53836},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1653, col: 7, offset: 53622},
+																						pos:        position{line: 1659, col: 7, offset: 53836},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1654, col: 7, offset: 53665},
+																					pos: position{line: 1660, col: 7, offset: 53879},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1654, col: 7, offset: 53665},
+																						pos:        position{line: 1660, col: 7, offset: 53879},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -30337,12 +30337,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2916, col: 11, offset: 91986},
+																		pos: position{line: 2922, col: 11, offset: 92200},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2916, col: 11, offset: 91986},
+																			pos: position{line: 2922, col: 11, offset: 92200},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2916, col: 11, offset: 91986},
+																				pos:        position{line: 2922, col: 11, offset: 92200},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30356,26 +30356,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1631, col: 5, offset: 52983},
+													pos:   position{line: 1637, col: 5, offset: 53197},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1526, col: 5, offset: 49467},
+														pos: position{line: 1532, col: 5, offset: 49681},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1526, col: 5, offset: 49467},
+															pos: position{line: 1532, col: 5, offset: 49681},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1526, col: 5, offset: 49467},
+																	pos:   position{line: 1532, col: 5, offset: 49681},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1526, col: 14, offset: 49476},
+																		pos: position{line: 1532, col: 14, offset: 49690},
 																		expr: &actionExpr{
-																			pos: position{line: 1526, col: 15, offset: 49477},
+																			pos: position{line: 1532, col: 15, offset: 49691},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1526, col: 15, offset: 49477},
+																				pos: position{line: 1532, col: 15, offset: 49691},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1526, col: 15, offset: 49477},
+																					pos:        position{line: 1532, col: 15, offset: 49691},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30386,28 +30386,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2934, col: 8, offset: 92323},
+																	pos: position{line: 2940, col: 8, offset: 92537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2921, col: 12, offset: 92096},
+																			pos: position{line: 2927, col: 12, offset: 92310},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2921, col: 13, offset: 92097},
+																				pos: position{line: 2927, col: 13, offset: 92311},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 13, offset: 92097},
+																						pos:        position{line: 2927, col: 13, offset: 92311},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 20, offset: 92104},
+																						pos:        position{line: 2927, col: 20, offset: 92318},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 29, offset: 92113},
+																						pos:        position{line: 2927, col: 29, offset: 92327},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30416,9 +30416,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2931, col: 8, offset: 92273},
+																			pos: position{line: 2937, col: 8, offset: 92487},
 																			expr: &anyMatcher{
-																				line: 2931, col: 9, offset: 92274,
+																				line: 2937, col: 9, offset: 92488,
 																			},
 																		},
 																	},
@@ -30431,36 +30431,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1720, col: 5, offset: 55537},
+										pos: position{line: 1726, col: 5, offset: 55751},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1720, col: 5, offset: 55537},
+											pos: position{line: 1726, col: 5, offset: 55751},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1720, col: 5, offset: 55537},
+													pos:   position{line: 1726, col: 5, offset: 55751},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1726, col: 5, offset: 55734},
+														pos: position{line: 1732, col: 5, offset: 55948},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1726, col: 5, offset: 55734},
+															pos: position{line: 1732, col: 5, offset: 55948},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1726, col: 5, offset: 55734},
+																	pos:        position{line: 1732, col: 5, offset: 55948},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1726, col: 9, offset: 55738},
+																	pos:   position{line: 1732, col: 9, offset: 55952},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1726, col: 14, offset: 55743},
+																		pos: position{line: 1732, col: 14, offset: 55957},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1726, col: 14, offset: 55743},
+																			pos: position{line: 1732, col: 14, offset: 55957},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1726, col: 14, offset: 55743},
+																				pos:        position{line: 1732, col: 14, offset: 55957},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30470,18 +30470,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1726, col: 62, offset: 55791},
+																	pos:        position{line: 1732, col: 62, offset: 56005},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2916, col: 11, offset: 91986},
+																	pos: position{line: 2922, col: 11, offset: 92200},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2916, col: 11, offset: 91986},
+																		pos: position{line: 2922, col: 11, offset: 92200},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2916, col: 11, offset: 91986},
+																			pos:        position{line: 2922, col: 11, offset: 92200},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30494,26 +30494,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1721, col: 5, offset: 55573},
+													pos:   position{line: 1727, col: 5, offset: 55787},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1526, col: 5, offset: 49467},
+														pos: position{line: 1532, col: 5, offset: 49681},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1526, col: 5, offset: 49467},
+															pos: position{line: 1532, col: 5, offset: 49681},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1526, col: 5, offset: 49467},
+																	pos:   position{line: 1532, col: 5, offset: 49681},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1526, col: 14, offset: 49476},
+																		pos: position{line: 1532, col: 14, offset: 49690},
 																		expr: &actionExpr{
-																			pos: position{line: 1526, col: 15, offset: 49477},
+																			pos: position{line: 1532, col: 15, offset: 49691},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1526, col: 15, offset: 49477},
+																				pos: position{line: 1532, col: 15, offset: 49691},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1526, col: 15, offset: 49477},
+																					pos:        position{line: 1532, col: 15, offset: 49691},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30524,28 +30524,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2934, col: 8, offset: 92323},
+																	pos: position{line: 2940, col: 8, offset: 92537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2921, col: 12, offset: 92096},
+																			pos: position{line: 2927, col: 12, offset: 92310},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2921, col: 13, offset: 92097},
+																				pos: position{line: 2927, col: 13, offset: 92311},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 13, offset: 92097},
+																						pos:        position{line: 2927, col: 13, offset: 92311},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 20, offset: 92104},
+																						pos:        position{line: 2927, col: 20, offset: 92318},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 29, offset: 92113},
+																						pos:        position{line: 2927, col: 29, offset: 92327},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30554,9 +30554,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2931, col: 8, offset: 92273},
+																			pos: position{line: 2937, col: 8, offset: 92487},
 																			expr: &anyMatcher{
-																				line: 2931, col: 9, offset: 92274,
+																				line: 2937, col: 9, offset: 92488,
 																			},
 																		},
 																	},
@@ -30569,35 +30569,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1663, col: 5, offset: 53858},
+										pos: position{line: 1669, col: 5, offset: 54072},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1663, col: 5, offset: 53858},
+											pos: position{line: 1669, col: 5, offset: 54072},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1663, col: 5, offset: 53858},
+													pos:   position{line: 1669, col: 5, offset: 54072},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1671, col: 5, offset: 54184},
+														pos: position{line: 1677, col: 5, offset: 54398},
 														run: (*parser).callonListContinuationElement150,
 														expr: &seqExpr{
-															pos: position{line: 1671, col: 5, offset: 54184},
+															pos: position{line: 1677, col: 5, offset: 54398},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1671, col: 5, offset: 54184},
+																	pos: position{line: 1677, col: 5, offset: 54398},
 																	expr: &seqExpr{
-																		pos: position{line: 2520, col: 31, offset: 80953},
+																		pos: position{line: 2526, col: 31, offset: 81167},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2520, col: 31, offset: 80953},
+																				pos:        position{line: 2526, col: 31, offset: 81167},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2520, col: 36, offset: 80958},
+																				pos: position{line: 2526, col: 36, offset: 81172},
 																				expr: &litMatcher{
-																					pos:        position{line: 2520, col: 37, offset: 80959},
+																					pos:        position{line: 2526, col: 37, offset: 81173},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -30607,28 +30607,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1672, col: 5, offset: 54216},
+																	pos: position{line: 1678, col: 5, offset: 54430},
 																	expr: &seqExpr{
-																		pos: position{line: 1672, col: 6, offset: 54217},
+																		pos: position{line: 1678, col: 6, offset: 54431},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1672, col: 6, offset: 54217},
+																				pos: position{line: 1678, col: 6, offset: 54431},
 																				expr: &actionExpr{
-																					pos: position{line: 1677, col: 5, offset: 54367},
+																					pos: position{line: 1683, col: 5, offset: 54581},
 																					run: (*parser).callonListContinuationElement160,
 																					expr: &seqExpr{
-																						pos: position{line: 1677, col: 5, offset: 54367},
+																						pos: position{line: 1683, col: 5, offset: 54581},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1677, col: 5, offset: 54367},
+																								pos:   position{line: 1683, col: 5, offset: 54581},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1677, col: 16, offset: 54378},
+																									pos: position{line: 1683, col: 16, offset: 54592},
 																									run: (*parser).callonListContinuationElement163,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1677, col: 16, offset: 54378},
+																										pos: position{line: 1683, col: 16, offset: 54592},
 																										expr: &litMatcher{
-																											pos:        position{line: 1677, col: 17, offset: 54379},
+																											pos:        position{line: 1683, col: 17, offset: 54593},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -30637,7 +30637,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1680, col: 5, offset: 54436},
+																								pos: position{line: 1686, col: 5, offset: 54650},
 																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
@@ -30645,30 +30645,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1672, col: 35, offset: 54246},
+																				pos: position{line: 1678, col: 35, offset: 54460},
 																				expr: &choiceExpr{
-																					pos: position{line: 2934, col: 8, offset: 92323},
+																					pos: position{line: 2940, col: 8, offset: 92537},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2921, col: 12, offset: 92096},
+																							pos: position{line: 2927, col: 12, offset: 92310},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2921, col: 13, offset: 92097},
+																								pos: position{line: 2927, col: 13, offset: 92311},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 13, offset: 92097},
+																										pos:        position{line: 2927, col: 13, offset: 92311},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 20, offset: 92104},
+																										pos:        position{line: 2927, col: 20, offset: 92318},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 29, offset: 92113},
+																										pos:        position{line: 2927, col: 29, offset: 92327},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30677,16 +30677,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2931, col: 8, offset: 92273},
+																							pos: position{line: 2937, col: 8, offset: 92487},
 																							expr: &anyMatcher{
-																								line: 2931, col: 9, offset: 92274,
+																								line: 2937, col: 9, offset: 92488,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1672, col: 40, offset: 54251,
+																				line: 1678, col: 40, offset: 54465,
 																			},
 																		},
 																	},
@@ -30696,24 +30696,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1664, col: 5, offset: 53893},
+													pos:   position{line: 1670, col: 5, offset: 54107},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1677, col: 5, offset: 54367},
+														pos: position{line: 1683, col: 5, offset: 54581},
 														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1677, col: 5, offset: 54367},
+															pos: position{line: 1683, col: 5, offset: 54581},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1677, col: 5, offset: 54367},
+																	pos:   position{line: 1683, col: 5, offset: 54581},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1677, col: 16, offset: 54378},
+																		pos: position{line: 1683, col: 16, offset: 54592},
 																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1677, col: 16, offset: 54378},
+																			pos: position{line: 1683, col: 16, offset: 54592},
 																			expr: &litMatcher{
-																				pos:        position{line: 1677, col: 17, offset: 54379},
+																				pos:        position{line: 1683, col: 17, offset: 54593},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30722,7 +30722,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1680, col: 5, offset: 54436},
+																	pos: position{line: 1686, col: 5, offset: 54650},
 																	run: (*parser).callonListContinuationElement184,
 																},
 															},
@@ -30730,24 +30730,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1665, col: 5, offset: 53938},
+													pos:   position{line: 1671, col: 5, offset: 54152},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1688, col: 5, offset: 54685},
+														pos: position{line: 1694, col: 5, offset: 54899},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1690, col: 9, offset: 54751},
+																pos: position{line: 1696, col: 9, offset: 54965},
 																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1690, col: 9, offset: 54751},
+																	pos: position{line: 1696, col: 9, offset: 54965},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1690, col: 9, offset: 54751},
+																			pos: position{line: 1696, col: 9, offset: 54965},
 																			expr: &actionExpr{
-																				pos: position{line: 2912, col: 10, offset: 91925},
+																				pos: position{line: 2918, col: 10, offset: 92139},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2912, col: 10, offset: 91925},
+																					pos:        position{line: 2918, col: 10, offset: 92139},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30756,28 +30756,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2934, col: 8, offset: 92323},
+																			pos: position{line: 2940, col: 8, offset: 92537},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2921, col: 12, offset: 92096},
+																					pos: position{line: 2927, col: 12, offset: 92310},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2921, col: 13, offset: 92097},
+																						pos: position{line: 2927, col: 13, offset: 92311},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 13, offset: 92097},
+																								pos:        position{line: 2927, col: 13, offset: 92311},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 20, offset: 92104},
+																								pos:        position{line: 2927, col: 20, offset: 92318},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 29, offset: 92113},
+																								pos:        position{line: 2927, col: 29, offset: 92327},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30786,34 +30786,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1691, col: 9, offset: 54770},
+																			pos: position{line: 1697, col: 9, offset: 54984},
 																			expr: &actionExpr{
-																				pos: position{line: 680, col: 14, offset: 21687},
+																				pos: position{line: 686, col: 14, offset: 21901},
 																				run: (*parser).callonListContinuationElement201,
 																				expr: &seqExpr{
-																					pos: position{line: 680, col: 14, offset: 21687},
+																					pos: position{line: 686, col: 14, offset: 21901},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2929, col: 11, offset: 92259},
+																							pos: position{line: 2935, col: 11, offset: 92473},
 																							expr: &anyMatcher{
-																								line: 2929, col: 13, offset: 92261,
+																								line: 2935, col: 13, offset: 92475,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 680, col: 21, offset: 21694},
+																							pos: position{line: 686, col: 21, offset: 21908},
 																							expr: &actionExpr{
-																								pos: position{line: 2912, col: 10, offset: 91925},
+																								pos: position{line: 2918, col: 10, offset: 92139},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2912, col: 10, offset: 91925},
+																									pos:        position{line: 2918, col: 10, offset: 92139},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30822,28 +30822,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30852,9 +30852,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -30867,18 +30867,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1697, col: 9, offset: 54899},
+																pos: position{line: 1703, col: 9, offset: 55113},
 																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1697, col: 9, offset: 54899},
+																	pos: position{line: 1703, col: 9, offset: 55113},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2916, col: 11, offset: 91986},
+																			pos: position{line: 2922, col: 11, offset: 92200},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2916, col: 11, offset: 91986},
+																				pos: position{line: 2922, col: 11, offset: 92200},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2916, col: 11, offset: 91986},
+																					pos:        position{line: 2922, col: 11, offset: 92200},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30887,15 +30887,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1698, col: 9, offset: 54972},
+																			pos:   position{line: 1704, col: 9, offset: 55186},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1698, col: 18, offset: 54981},
+																				pos: position{line: 1704, col: 18, offset: 55195},
 																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1698, col: 18, offset: 54981},
+																					pos: position{line: 1704, col: 18, offset: 55195},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1698, col: 18, offset: 54981},
+																						pos:        position{line: 1704, col: 18, offset: 55195},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30905,28 +30905,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2934, col: 8, offset: 92323},
+																			pos: position{line: 2940, col: 8, offset: 92537},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2921, col: 12, offset: 92096},
+																					pos: position{line: 2927, col: 12, offset: 92310},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2921, col: 13, offset: 92097},
+																						pos: position{line: 2927, col: 13, offset: 92311},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 13, offset: 92097},
+																								pos:        position{line: 2927, col: 13, offset: 92311},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 20, offset: 92104},
+																								pos:        position{line: 2927, col: 20, offset: 92318},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 29, offset: 92113},
+																								pos:        position{line: 2927, col: 29, offset: 92327},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30935,9 +30935,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
@@ -30955,41 +30955,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1550, col: 5, offset: 50120},
+							pos:   position{line: 1556, col: 5, offset: 50334},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1550, col: 16, offset: 50131},
+								pos: position{line: 1556, col: 16, offset: 50345},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1550, col: 17, offset: 50132},
+									pos:  position{line: 1556, col: 17, offset: 50346},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1551, col: 5, offset: 50154},
+							pos:   position{line: 1557, col: 5, offset: 50368},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1552, col: 9, offset: 50172},
+								pos: position{line: 1558, col: 9, offset: 50386},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 680, col: 14, offset: 21687},
+										pos: position{line: 686, col: 14, offset: 21901},
 										run: (*parser).callonListContinuationElement238,
 										expr: &seqExpr{
-											pos: position{line: 680, col: 14, offset: 21687},
+											pos: position{line: 686, col: 14, offset: 21901},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2929, col: 11, offset: 92259},
+													pos: position{line: 2935, col: 11, offset: 92473},
 													expr: &anyMatcher{
-														line: 2929, col: 13, offset: 92261,
+														line: 2935, col: 13, offset: 92475,
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 680, col: 21, offset: 21694},
+													pos: position{line: 686, col: 21, offset: 21908},
 													expr: &actionExpr{
-														pos: position{line: 2912, col: 10, offset: 91925},
+														pos: position{line: 2918, col: 10, offset: 92139},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2912, col: 10, offset: 91925},
+															pos:        position{line: 2918, col: 10, offset: 92139},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30998,28 +30998,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2934, col: 8, offset: 92323},
+													pos: position{line: 2940, col: 8, offset: 92537},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2921, col: 12, offset: 92096},
+															pos: position{line: 2927, col: 12, offset: 92310},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2921, col: 13, offset: 92097},
+																pos: position{line: 2927, col: 13, offset: 92311},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 13, offset: 92097},
+																		pos:        position{line: 2927, col: 13, offset: 92311},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 20, offset: 92104},
+																		pos:        position{line: 2927, col: 20, offset: 92318},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 29, offset: 92113},
+																		pos:        position{line: 2927, col: 29, offset: 92327},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31028,9 +31028,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2931, col: 8, offset: 92273},
+															pos: position{line: 2937, col: 8, offset: 92487},
 															expr: &anyMatcher{
-																line: 2931, col: 9, offset: 92274,
+																line: 2937, col: 9, offset: 92488,
 															},
 														},
 													},
@@ -31039,7 +31039,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1553, col: 11, offset: 50192},
+										pos:  position{line: 1559, col: 11, offset: 50406},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -31095,10 +31095,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 49, offset: 11041},
 													expr: &actionExpr{
-														pos: position{line: 2912, col: 10, offset: 91925},
+														pos: position{line: 2918, col: 10, offset: 92139},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2912, col: 10, offset: 91925},
+															pos:        position{line: 2918, col: 10, offset: 92139},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31107,28 +31107,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2934, col: 8, offset: 92323},
+													pos: position{line: 2940, col: 8, offset: 92537},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2921, col: 12, offset: 92096},
+															pos: position{line: 2927, col: 12, offset: 92310},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2921, col: 13, offset: 92097},
+																pos: position{line: 2927, col: 13, offset: 92311},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 13, offset: 92097},
+																		pos:        position{line: 2927, col: 13, offset: 92311},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 20, offset: 92104},
+																		pos:        position{line: 2927, col: 20, offset: 92318},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 29, offset: 92113},
+																		pos:        position{line: 2927, col: 29, offset: 92327},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31137,9 +31137,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2931, col: 8, offset: 92273},
+															pos: position{line: 2937, col: 8, offset: 92487},
 															expr: &anyMatcher{
-																line: 2931, col: 9, offset: 92274,
+																line: 2937, col: 9, offset: 92488,
 															},
 														},
 													},
@@ -31200,10 +31200,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 364, col: 39, offset: 11162},
 													expr: &actionExpr{
-														pos: position{line: 2912, col: 10, offset: 91925},
+														pos: position{line: 2918, col: 10, offset: 92139},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2912, col: 10, offset: 91925},
+															pos:        position{line: 2918, col: 10, offset: 92139},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31212,28 +31212,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2934, col: 8, offset: 92323},
+													pos: position{line: 2940, col: 8, offset: 92537},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2921, col: 12, offset: 92096},
+															pos: position{line: 2927, col: 12, offset: 92310},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2921, col: 13, offset: 92097},
+																pos: position{line: 2927, col: 13, offset: 92311},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 13, offset: 92097},
+																		pos:        position{line: 2927, col: 13, offset: 92311},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 20, offset: 92104},
+																		pos:        position{line: 2927, col: 20, offset: 92318},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 29, offset: 92113},
+																		pos:        position{line: 2927, col: 29, offset: 92327},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31242,9 +31242,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2931, col: 8, offset: 92273},
+															pos: position{line: 2937, col: 8, offset: 92487},
 															expr: &anyMatcher{
-																line: 2931, col: 9, offset: 92274,
+																line: 2937, col: 9, offset: 92488,
 															},
 														},
 													},
@@ -31253,36 +31253,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 823, col: 5, offset: 26522},
+										pos: position{line: 829, col: 5, offset: 26736},
 										run: (*parser).callonListContinuationElement296,
 										expr: &seqExpr{
-											pos: position{line: 823, col: 5, offset: 26522},
+											pos: position{line: 829, col: 5, offset: 26736},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 743, col: 5, offset: 23782},
+													pos: position{line: 749, col: 5, offset: 23996},
 													run: (*parser).callonListContinuationElement298,
 													expr: &seqExpr{
-														pos: position{line: 743, col: 5, offset: 23782},
+														pos: position{line: 749, col: 5, offset: 23996},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 743, col: 5, offset: 23782},
+																pos:   position{line: 749, col: 5, offset: 23996},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 743, col: 16, offset: 23793},
+																	pos: position{line: 749, col: 16, offset: 24007},
 																	run: (*parser).callonListContinuationElement301,
 																	expr: &seqExpr{
-																		pos: position{line: 743, col: 16, offset: 23793},
+																		pos: position{line: 749, col: 16, offset: 24007},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 743, col: 16, offset: 23793},
+																				pos:        position{line: 749, col: 16, offset: 24007},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 743, col: 23, offset: 23800},
+																				pos: position{line: 749, col: 23, offset: 24014},
 																				expr: &litMatcher{
-																					pos:        position{line: 743, col: 23, offset: 23800},
+																					pos:        position{line: 749, col: 23, offset: 24014},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -31293,12 +31293,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 745, col: 8, offset: 23884},
+																pos: position{line: 751, col: 8, offset: 24098},
 																expr: &actionExpr{
-																	pos: position{line: 2912, col: 10, offset: 91925},
+																	pos: position{line: 2918, col: 10, offset: 92139},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2912, col: 10, offset: 91925},
+																		pos:        position{line: 2918, col: 10, offset: 92139},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31307,28 +31307,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2934, col: 8, offset: 92323},
+																pos: position{line: 2940, col: 8, offset: 92537},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2921, col: 12, offset: 92096},
+																		pos: position{line: 2927, col: 12, offset: 92310},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2921, col: 13, offset: 92097},
+																			pos: position{line: 2927, col: 13, offset: 92311},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2921, col: 13, offset: 92097},
+																					pos:        position{line: 2927, col: 13, offset: 92311},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2921, col: 20, offset: 92104},
+																					pos:        position{line: 2927, col: 20, offset: 92318},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2921, col: 29, offset: 92113},
+																					pos:        position{line: 2927, col: 29, offset: 92327},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31337,9 +31337,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2931, col: 8, offset: 92273},
+																		pos: position{line: 2937, col: 8, offset: 92487},
 																		expr: &anyMatcher{
-																			line: 2931, col: 9, offset: 92274,
+																			line: 2937, col: 9, offset: 92488,
 																		},
 																	},
 																},
@@ -31348,46 +31348,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 824, col: 5, offset: 26553},
+													pos:   position{line: 830, col: 5, offset: 26767},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 834, col: 5, offset: 26839},
+														pos: position{line: 840, col: 5, offset: 27053},
 														expr: &actionExpr{
-															pos: position{line: 834, col: 6, offset: 26840},
+															pos: position{line: 840, col: 6, offset: 27054},
 															run: (*parser).callonListContinuationElement319,
 															expr: &seqExpr{
-																pos: position{line: 834, col: 6, offset: 26840},
+																pos: position{line: 840, col: 6, offset: 27054},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 834, col: 6, offset: 26840},
+																		pos: position{line: 840, col: 6, offset: 27054},
 																		expr: &choiceExpr{
-																			pos: position{line: 831, col: 29, offset: 26782},
+																			pos: position{line: 837, col: 29, offset: 26996},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 743, col: 5, offset: 23782},
+																					pos: position{line: 749, col: 5, offset: 23996},
 																					run: (*parser).callonListContinuationElement323,
 																					expr: &seqExpr{
-																						pos: position{line: 743, col: 5, offset: 23782},
+																						pos: position{line: 749, col: 5, offset: 23996},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 743, col: 5, offset: 23782},
+																								pos:   position{line: 749, col: 5, offset: 23996},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 743, col: 16, offset: 23793},
+																									pos: position{line: 749, col: 16, offset: 24007},
 																									run: (*parser).callonListContinuationElement326,
 																									expr: &seqExpr{
-																										pos: position{line: 743, col: 16, offset: 23793},
+																										pos: position{line: 749, col: 16, offset: 24007},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 743, col: 16, offset: 23793},
+																												pos:        position{line: 749, col: 16, offset: 24007},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 743, col: 23, offset: 23800},
+																												pos: position{line: 749, col: 23, offset: 24014},
 																												expr: &litMatcher{
-																													pos:        position{line: 743, col: 23, offset: 23800},
+																													pos:        position{line: 749, col: 23, offset: 24014},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -31398,12 +31398,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 745, col: 8, offset: 23884},
+																								pos: position{line: 751, col: 8, offset: 24098},
 																								expr: &actionExpr{
-																									pos: position{line: 2912, col: 10, offset: 91925},
+																									pos: position{line: 2918, col: 10, offset: 92139},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2912, col: 10, offset: 91925},
+																										pos:        position{line: 2918, col: 10, offset: 92139},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -31412,28 +31412,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2934, col: 8, offset: 92323},
+																								pos: position{line: 2940, col: 8, offset: 92537},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2921, col: 12, offset: 92096},
+																										pos: position{line: 2927, col: 12, offset: 92310},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2921, col: 13, offset: 92097},
+																											pos: position{line: 2927, col: 13, offset: 92311},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 13, offset: 92097},
+																													pos:        position{line: 2927, col: 13, offset: 92311},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 20, offset: 92104},
+																													pos:        position{line: 2927, col: 20, offset: 92318},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 29, offset: 92113},
+																													pos:        position{line: 2927, col: 29, offset: 92327},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -31442,9 +31442,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2931, col: 8, offset: 92273},
+																										pos: position{line: 2937, col: 8, offset: 92487},
 																										expr: &anyMatcher{
-																											line: 2931, col: 9, offset: 92274,
+																											line: 2937, col: 9, offset: 92488,
 																										},
 																									},
 																								},
@@ -31453,39 +31453,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 835, col: 5, offset: 26870},
+																		pos:   position{line: 841, col: 5, offset: 27084},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 814, col: 5, offset: 26286},
+																			pos: position{line: 820, col: 5, offset: 26500},
 																			run: (*parser).callonListContinuationElement345,
 																			expr: &seqExpr{
-																				pos: position{line: 814, col: 5, offset: 26286},
+																				pos: position{line: 820, col: 5, offset: 26500},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2929, col: 11, offset: 92259},
+																						pos: position{line: 2935, col: 11, offset: 92473},
 																						expr: &anyMatcher{
-																							line: 2929, col: 13, offset: 92261,
+																							line: 2935, col: 13, offset: 92475,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 815, col: 5, offset: 26361},
+																						pos:   position{line: 821, col: 5, offset: 26575},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2858, col: 13, offset: 90451},
+																							pos: position{line: 2864, col: 13, offset: 90665},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2858, col: 13, offset: 90451},
+																								pos: position{line: 2864, col: 13, offset: 90665},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2858, col: 13, offset: 90451},
+																									pos:        position{line: 2864, col: 13, offset: 90665},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31495,28 +31495,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2934, col: 8, offset: 92323},
+																						pos: position{line: 2940, col: 8, offset: 92537},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2921, col: 12, offset: 92096},
+																								pos: position{line: 2927, col: 12, offset: 92310},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2921, col: 13, offset: 92097},
+																									pos: position{line: 2927, col: 13, offset: 92311},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 13, offset: 92097},
+																											pos:        position{line: 2927, col: 13, offset: 92311},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 20, offset: 92104},
+																											pos:        position{line: 2927, col: 20, offset: 92318},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 29, offset: 92113},
+																											pos:        position{line: 2927, col: 29, offset: 92327},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31525,9 +31525,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2931, col: 8, offset: 92273},
+																								pos: position{line: 2937, col: 8, offset: 92487},
 																								expr: &anyMatcher{
-																									line: 2931, col: 9, offset: 92274,
+																									line: 2937, col: 9, offset: 92488,
 																								},
 																							},
 																						},
@@ -31542,35 +31542,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 825, col: 5, offset: 26587},
+													pos: position{line: 831, col: 5, offset: 26801},
 													expr: &choiceExpr{
-														pos: position{line: 831, col: 29, offset: 26782},
+														pos: position{line: 837, col: 29, offset: 26996},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 743, col: 5, offset: 23782},
+																pos: position{line: 749, col: 5, offset: 23996},
 																run: (*parser).callonListContinuationElement363,
 																expr: &seqExpr{
-																	pos: position{line: 743, col: 5, offset: 23782},
+																	pos: position{line: 749, col: 5, offset: 23996},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 743, col: 5, offset: 23782},
+																			pos:   position{line: 749, col: 5, offset: 23996},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 743, col: 16, offset: 23793},
+																				pos: position{line: 749, col: 16, offset: 24007},
 																				run: (*parser).callonListContinuationElement366,
 																				expr: &seqExpr{
-																					pos: position{line: 743, col: 16, offset: 23793},
+																					pos: position{line: 749, col: 16, offset: 24007},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 743, col: 16, offset: 23793},
+																							pos:        position{line: 749, col: 16, offset: 24007},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 743, col: 23, offset: 23800},
+																							pos: position{line: 749, col: 23, offset: 24014},
 																							expr: &litMatcher{
-																								pos:        position{line: 743, col: 23, offset: 23800},
+																								pos:        position{line: 749, col: 23, offset: 24014},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -31581,12 +31581,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 745, col: 8, offset: 23884},
+																			pos: position{line: 751, col: 8, offset: 24098},
 																			expr: &actionExpr{
-																				pos: position{line: 2912, col: 10, offset: 91925},
+																				pos: position{line: 2918, col: 10, offset: 92139},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2912, col: 10, offset: 91925},
+																					pos:        position{line: 2918, col: 10, offset: 92139},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31595,28 +31595,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2934, col: 8, offset: 92323},
+																			pos: position{line: 2940, col: 8, offset: 92537},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2921, col: 12, offset: 92096},
+																					pos: position{line: 2927, col: 12, offset: 92310},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2921, col: 13, offset: 92097},
+																						pos: position{line: 2927, col: 13, offset: 92311},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 13, offset: 92097},
+																								pos:        position{line: 2927, col: 13, offset: 92311},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 20, offset: 92104},
+																								pos:        position{line: 2927, col: 20, offset: 92318},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 29, offset: 92113},
+																								pos:        position{line: 2927, col: 29, offset: 92327},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31625,9 +31625,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
@@ -31636,9 +31636,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2931, col: 8, offset: 92273},
+																pos: position{line: 2937, col: 8, offset: 92487},
 																expr: &anyMatcher{
-																	line: 2931, col: 9, offset: 92274,
+																	line: 2937, col: 9, offset: 92488,
 																},
 															},
 														},
@@ -31648,39 +31648,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 843, col: 5, offset: 27023},
+										pos: position{line: 849, col: 5, offset: 27237},
 										run: (*parser).callonListContinuationElement384,
 										expr: &seqExpr{
-											pos: position{line: 843, col: 5, offset: 27023},
+											pos: position{line: 849, col: 5, offset: 27237},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 843, col: 5, offset: 27023},
+													pos:   position{line: 849, col: 5, offset: 27237},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 750, col: 5, offset: 24030},
+														pos: position{line: 756, col: 5, offset: 24244},
 														run: (*parser).callonListContinuationElement387,
 														expr: &seqExpr{
-															pos: position{line: 750, col: 5, offset: 24030},
+															pos: position{line: 756, col: 5, offset: 24244},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 750, col: 5, offset: 24030},
+																	pos:   position{line: 756, col: 5, offset: 24244},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 750, col: 16, offset: 24041},
+																		pos: position{line: 756, col: 16, offset: 24255},
 																		run: (*parser).callonListContinuationElement390,
 																		expr: &seqExpr{
-																			pos: position{line: 750, col: 16, offset: 24041},
+																			pos: position{line: 756, col: 16, offset: 24255},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 750, col: 16, offset: 24041},
+																					pos:        position{line: 756, col: 16, offset: 24255},
 																					val:        "====",
 																					ignoreCase: false,
 																					want:       "\"====\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 750, col: 23, offset: 24048},
+																					pos: position{line: 756, col: 23, offset: 24262},
 																					expr: &litMatcher{
-																						pos:        position{line: 750, col: 23, offset: 24048},
+																						pos:        position{line: 756, col: 23, offset: 24262},
 																						val:        "=",
 																						ignoreCase: false,
 																						want:       "\"=\"",
@@ -31691,12 +31691,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 752, col: 8, offset: 24132},
+																	pos: position{line: 758, col: 8, offset: 24346},
 																	expr: &actionExpr{
-																		pos: position{line: 2912, col: 10, offset: 91925},
+																		pos: position{line: 2918, col: 10, offset: 92139},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2912, col: 10, offset: 91925},
+																			pos:        position{line: 2918, col: 10, offset: 92139},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31705,28 +31705,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2934, col: 8, offset: 92323},
+																	pos: position{line: 2940, col: 8, offset: 92537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2921, col: 12, offset: 92096},
+																			pos: position{line: 2927, col: 12, offset: 92310},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2921, col: 13, offset: 92097},
+																				pos: position{line: 2927, col: 13, offset: 92311},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 13, offset: 92097},
+																						pos:        position{line: 2927, col: 13, offset: 92311},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 20, offset: 92104},
+																						pos:        position{line: 2927, col: 20, offset: 92318},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 29, offset: 92113},
+																						pos:        position{line: 2927, col: 29, offset: 92327},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31735,9 +31735,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2931, col: 8, offset: 92273},
+																			pos: position{line: 2937, col: 8, offset: 92487},
 																			expr: &anyMatcher{
-																				line: 2931, col: 9, offset: 92274,
+																				line: 2937, col: 9, offset: 92488,
 																			},
 																		},
 																	},
@@ -31747,56 +31747,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 844, col: 5, offset: 27062},
+													pos: position{line: 850, col: 5, offset: 27276},
 													run: (*parser).callonListContinuationElement406,
 												},
 												&labeledExpr{
-													pos:   position{line: 847, col: 5, offset: 27154},
+													pos:   position{line: 853, col: 5, offset: 27368},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 862, col: 4, offset: 27551},
+														pos: position{line: 868, col: 4, offset: 27765},
 														expr: &actionExpr{
-															pos: position{line: 862, col: 5, offset: 27552},
+															pos: position{line: 868, col: 5, offset: 27766},
 															run: (*parser).callonListContinuationElement409,
 															expr: &seqExpr{
-																pos: position{line: 862, col: 5, offset: 27552},
+																pos: position{line: 868, col: 5, offset: 27766},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 862, col: 5, offset: 27552},
+																		pos: position{line: 868, col: 5, offset: 27766},
 																		expr: &choiceExpr{
-																			pos: position{line: 855, col: 5, offset: 27394},
+																			pos: position{line: 861, col: 5, offset: 27608},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 855, col: 5, offset: 27394},
+																					pos: position{line: 861, col: 5, offset: 27608},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 855, col: 5, offset: 27394},
+																							pos:   position{line: 861, col: 5, offset: 27608},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 750, col: 5, offset: 24030},
+																								pos: position{line: 756, col: 5, offset: 24244},
 																								run: (*parser).callonListContinuationElement415,
 																								expr: &seqExpr{
-																									pos: position{line: 750, col: 5, offset: 24030},
+																									pos: position{line: 756, col: 5, offset: 24244},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 750, col: 5, offset: 24030},
+																											pos:   position{line: 756, col: 5, offset: 24244},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 750, col: 16, offset: 24041},
+																												pos: position{line: 756, col: 16, offset: 24255},
 																												run: (*parser).callonListContinuationElement418,
 																												expr: &seqExpr{
-																													pos: position{line: 750, col: 16, offset: 24041},
+																													pos: position{line: 756, col: 16, offset: 24255},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 750, col: 16, offset: 24041},
+																															pos:        position{line: 756, col: 16, offset: 24255},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 750, col: 23, offset: 24048},
+																															pos: position{line: 756, col: 23, offset: 24262},
 																															expr: &litMatcher{
-																																pos:        position{line: 750, col: 23, offset: 24048},
+																																pos:        position{line: 756, col: 23, offset: 24262},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -31807,12 +31807,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 752, col: 8, offset: 24132},
+																											pos: position{line: 758, col: 8, offset: 24346},
 																											expr: &actionExpr{
-																												pos: position{line: 2912, col: 10, offset: 91925},
+																												pos: position{line: 2918, col: 10, offset: 92139},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2912, col: 10, offset: 91925},
+																													pos:        position{line: 2918, col: 10, offset: 92139},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31821,28 +31821,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2934, col: 8, offset: 92323},
+																											pos: position{line: 2940, col: 8, offset: 92537},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2921, col: 12, offset: 92096},
+																													pos: position{line: 2927, col: 12, offset: 92310},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2921, col: 13, offset: 92097},
+																														pos: position{line: 2927, col: 13, offset: 92311},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 13, offset: 92097},
+																																pos:        position{line: 2927, col: 13, offset: 92311},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 20, offset: 92104},
+																																pos:        position{line: 2927, col: 20, offset: 92318},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 29, offset: 92113},
+																																pos:        position{line: 2927, col: 29, offset: 92327},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31851,9 +31851,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2931, col: 8, offset: 92273},
+																													pos: position{line: 2937, col: 8, offset: 92487},
 																													expr: &anyMatcher{
-																														line: 2931, col: 9, offset: 92274,
+																														line: 2937, col: 9, offset: 92488,
 																													},
 																												},
 																											},
@@ -31863,45 +31863,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 856, col: 5, offset: 27425},
+																							pos: position{line: 862, col: 5, offset: 27639},
 																							run: (*parser).callonListContinuationElement434,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 863, col: 5, offset: 27582},
+																		pos:   position{line: 869, col: 5, offset: 27796},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 814, col: 5, offset: 26286},
+																			pos: position{line: 820, col: 5, offset: 26500},
 																			run: (*parser).callonListContinuationElement438,
 																			expr: &seqExpr{
-																				pos: position{line: 814, col: 5, offset: 26286},
+																				pos: position{line: 820, col: 5, offset: 26500},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2929, col: 11, offset: 92259},
+																						pos: position{line: 2935, col: 11, offset: 92473},
 																						expr: &anyMatcher{
-																							line: 2929, col: 13, offset: 92261,
+																							line: 2935, col: 13, offset: 92475,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 815, col: 5, offset: 26361},
+																						pos:   position{line: 821, col: 5, offset: 26575},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2858, col: 13, offset: 90451},
+																							pos: position{line: 2864, col: 13, offset: 90665},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2858, col: 13, offset: 90451},
+																								pos: position{line: 2864, col: 13, offset: 90665},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2858, col: 13, offset: 90451},
+																									pos:        position{line: 2864, col: 13, offset: 90665},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31911,28 +31911,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2934, col: 8, offset: 92323},
+																						pos: position{line: 2940, col: 8, offset: 92537},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2921, col: 12, offset: 92096},
+																								pos: position{line: 2927, col: 12, offset: 92310},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2921, col: 13, offset: 92097},
+																									pos: position{line: 2927, col: 13, offset: 92311},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 13, offset: 92097},
+																											pos:        position{line: 2927, col: 13, offset: 92311},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 20, offset: 92104},
+																											pos:        position{line: 2927, col: 20, offset: 92318},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 29, offset: 92113},
+																											pos:        position{line: 2927, col: 29, offset: 92327},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31941,9 +31941,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2931, col: 8, offset: 92273},
+																								pos: position{line: 2937, col: 8, offset: 92487},
 																								expr: &anyMatcher{
-																									line: 2931, col: 9, offset: 92274,
+																									line: 2937, col: 9, offset: 92488,
 																								},
 																							},
 																						},
@@ -31958,44 +31958,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 848, col: 5, offset: 27188},
+													pos:   position{line: 854, col: 5, offset: 27402},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 848, col: 9, offset: 27192},
+														pos: position{line: 854, col: 9, offset: 27406},
 														expr: &choiceExpr{
-															pos: position{line: 855, col: 5, offset: 27394},
+															pos: position{line: 861, col: 5, offset: 27608},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 855, col: 5, offset: 27394},
+																	pos: position{line: 861, col: 5, offset: 27608},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 855, col: 5, offset: 27394},
+																			pos:   position{line: 861, col: 5, offset: 27608},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 750, col: 5, offset: 24030},
+																				pos: position{line: 756, col: 5, offset: 24244},
 																				run: (*parser).callonListContinuationElement459,
 																				expr: &seqExpr{
-																					pos: position{line: 750, col: 5, offset: 24030},
+																					pos: position{line: 756, col: 5, offset: 24244},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 750, col: 5, offset: 24030},
+																							pos:   position{line: 756, col: 5, offset: 24244},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 750, col: 16, offset: 24041},
+																								pos: position{line: 756, col: 16, offset: 24255},
 																								run: (*parser).callonListContinuationElement462,
 																								expr: &seqExpr{
-																									pos: position{line: 750, col: 16, offset: 24041},
+																									pos: position{line: 756, col: 16, offset: 24255},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 750, col: 16, offset: 24041},
+																											pos:        position{line: 756, col: 16, offset: 24255},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 750, col: 23, offset: 24048},
+																											pos: position{line: 756, col: 23, offset: 24262},
 																											expr: &litMatcher{
-																												pos:        position{line: 750, col: 23, offset: 24048},
+																												pos:        position{line: 756, col: 23, offset: 24262},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -32006,12 +32006,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 752, col: 8, offset: 24132},
+																							pos: position{line: 758, col: 8, offset: 24346},
 																							expr: &actionExpr{
-																								pos: position{line: 2912, col: 10, offset: 91925},
+																								pos: position{line: 2918, col: 10, offset: 92139},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2912, col: 10, offset: 91925},
+																									pos:        position{line: 2918, col: 10, offset: 92139},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32020,28 +32020,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32050,9 +32050,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -32062,15 +32062,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 856, col: 5, offset: 27425},
+																			pos: position{line: 862, col: 5, offset: 27639},
 																			run: (*parser).callonListContinuationElement478,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2931, col: 8, offset: 92273},
+																	pos: position{line: 2937, col: 8, offset: 92487},
 																	expr: &anyMatcher{
-																		line: 2931, col: 9, offset: 92274,
+																		line: 2937, col: 9, offset: 92488,
 																	},
 																},
 															},
@@ -32081,36 +32081,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 955, col: 5, offset: 29874},
+										pos: position{line: 961, col: 5, offset: 30088},
 										run: (*parser).callonListContinuationElement481,
 										expr: &seqExpr{
-											pos: position{line: 955, col: 5, offset: 29874},
+											pos: position{line: 961, col: 5, offset: 30088},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 955, col: 5, offset: 29874},
+													pos:   position{line: 961, col: 5, offset: 30088},
 													label: "delimiter",
 													expr: &actionExpr{
-														pos: position{line: 763, col: 26, offset: 24518},
+														pos: position{line: 769, col: 26, offset: 24732},
 														run: (*parser).callonListContinuationElement484,
 														expr: &seqExpr{
-															pos: position{line: 763, col: 26, offset: 24518},
+															pos: position{line: 769, col: 26, offset: 24732},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 763, col: 26, offset: 24518},
+																	pos:        position{line: 769, col: 26, offset: 24732},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 763, col: 32, offset: 24524},
+																	pos:   position{line: 769, col: 32, offset: 24738},
 																	label: "language",
 																	expr: &actionExpr{
-																		pos: position{line: 767, col: 13, offset: 24654},
+																		pos: position{line: 773, col: 13, offset: 24868},
 																		run: (*parser).callonListContinuationElement488,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 767, col: 14, offset: 24655},
+																			pos: position{line: 773, col: 14, offset: 24869},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 767, col: 14, offset: 24655},
+																				pos:        position{line: 773, col: 14, offset: 24869},
 																				val:        "[^\\r\\n` ]",
 																				chars:      []rune{'\r', '\n', '`', ' '},
 																				ignoreCase: false,
@@ -32120,12 +32120,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 763, col: 52, offset: 24544},
+																	pos: position{line: 769, col: 52, offset: 24758},
 																	expr: &actionExpr{
-																		pos: position{line: 2912, col: 10, offset: 91925},
+																		pos: position{line: 2918, col: 10, offset: 92139},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2912, col: 10, offset: 91925},
+																			pos:        position{line: 2918, col: 10, offset: 92139},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32134,28 +32134,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2934, col: 8, offset: 92323},
+																	pos: position{line: 2940, col: 8, offset: 92537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2921, col: 12, offset: 92096},
+																			pos: position{line: 2927, col: 12, offset: 92310},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2921, col: 13, offset: 92097},
+																				pos: position{line: 2927, col: 13, offset: 92311},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 13, offset: 92097},
+																						pos:        position{line: 2927, col: 13, offset: 92311},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 20, offset: 92104},
+																						pos:        position{line: 2927, col: 20, offset: 92318},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 29, offset: 92113},
+																						pos:        position{line: 2927, col: 29, offset: 92327},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32164,9 +32164,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2931, col: 8, offset: 92273},
+																			pos: position{line: 2937, col: 8, offset: 92487},
 																			expr: &anyMatcher{
-																				line: 2931, col: 9, offset: 92274,
+																				line: 2937, col: 9, offset: 92488,
 																			},
 																		},
 																	},
@@ -32176,34 +32176,34 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 956, col: 5, offset: 29920},
+													pos:   position{line: 962, col: 5, offset: 30134},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 969, col: 5, offset: 30393},
+														pos: position{line: 975, col: 5, offset: 30607},
 														expr: &actionExpr{
-															pos: position{line: 969, col: 6, offset: 30394},
+															pos: position{line: 975, col: 6, offset: 30608},
 															run: (*parser).callonListContinuationElement504,
 															expr: &seqExpr{
-																pos: position{line: 969, col: 6, offset: 30394},
+																pos: position{line: 975, col: 6, offset: 30608},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 969, col: 6, offset: 30394},
+																		pos: position{line: 975, col: 6, offset: 30608},
 																		expr: &seqExpr{
-																			pos: position{line: 966, col: 34, offset: 30341},
+																			pos: position{line: 972, col: 34, offset: 30555},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 966, col: 34, offset: 30341},
+																					pos:        position{line: 972, col: 34, offset: 30555},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 966, col: 40, offset: 30347},
+																					pos: position{line: 972, col: 40, offset: 30561},
 																					expr: &actionExpr{
-																						pos: position{line: 2912, col: 10, offset: 91925},
+																						pos: position{line: 2918, col: 10, offset: 92139},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2912, col: 10, offset: 91925},
+																							pos:        position{line: 2918, col: 10, offset: 92139},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32212,28 +32212,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2934, col: 8, offset: 92323},
+																					pos: position{line: 2940, col: 8, offset: 92537},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2921, col: 12, offset: 92096},
+																							pos: position{line: 2927, col: 12, offset: 92310},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2921, col: 13, offset: 92097},
+																								pos: position{line: 2927, col: 13, offset: 92311},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 13, offset: 92097},
+																										pos:        position{line: 2927, col: 13, offset: 92311},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 20, offset: 92104},
+																										pos:        position{line: 2927, col: 20, offset: 92318},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 29, offset: 92113},
+																										pos:        position{line: 2927, col: 29, offset: 92327},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32242,9 +32242,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2931, col: 8, offset: 92273},
+																							pos: position{line: 2937, col: 8, offset: 92487},
 																							expr: &anyMatcher{
-																								line: 2931, col: 9, offset: 92274,
+																								line: 2937, col: 9, offset: 92488,
 																							},
 																						},
 																					},
@@ -32253,30 +32253,30 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 970, col: 5, offset: 30429},
+																		pos:   position{line: 976, col: 5, offset: 30643},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 814, col: 5, offset: 26286},
+																			pos: position{line: 820, col: 5, offset: 26500},
 																			run: (*parser).callonListContinuationElement521,
 																			expr: &seqExpr{
-																				pos: position{line: 814, col: 5, offset: 26286},
+																				pos: position{line: 820, col: 5, offset: 26500},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2929, col: 11, offset: 92259},
+																						pos: position{line: 2935, col: 11, offset: 92473},
 																						expr: &anyMatcher{
-																							line: 2929, col: 13, offset: 92261,
+																							line: 2935, col: 13, offset: 92475,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 815, col: 5, offset: 26361},
+																						pos:   position{line: 821, col: 5, offset: 26575},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2858, col: 13, offset: 90451},
+																							pos: position{line: 2864, col: 13, offset: 90665},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2858, col: 13, offset: 90451},
+																								pos: position{line: 2864, col: 13, offset: 90665},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2858, col: 13, offset: 90451},
+																									pos:        position{line: 2864, col: 13, offset: 90665},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32286,28 +32286,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2934, col: 8, offset: 92323},
+																						pos: position{line: 2940, col: 8, offset: 92537},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2921, col: 12, offset: 92096},
+																								pos: position{line: 2927, col: 12, offset: 92310},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2921, col: 13, offset: 92097},
+																									pos: position{line: 2927, col: 13, offset: 92311},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 13, offset: 92097},
+																											pos:        position{line: 2927, col: 13, offset: 92311},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 20, offset: 92104},
+																											pos:        position{line: 2927, col: 20, offset: 92318},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 29, offset: 92113},
+																											pos:        position{line: 2927, col: 29, offset: 92327},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32316,9 +32316,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2931, col: 8, offset: 92273},
+																								pos: position{line: 2937, col: 8, offset: 92487},
 																								expr: &anyMatcher{
-																									line: 2931, col: 9, offset: 92274,
+																									line: 2937, col: 9, offset: 92488,
 																								},
 																							},
 																						},
@@ -32333,23 +32333,23 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 957, col: 5, offset: 29959},
+													pos: position{line: 963, col: 5, offset: 30173},
 													expr: &seqExpr{
-														pos: position{line: 966, col: 34, offset: 30341},
+														pos: position{line: 972, col: 34, offset: 30555},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 966, col: 34, offset: 30341},
+																pos:        position{line: 972, col: 34, offset: 30555},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 966, col: 40, offset: 30347},
+																pos: position{line: 972, col: 40, offset: 30561},
 																expr: &actionExpr{
-																	pos: position{line: 2912, col: 10, offset: 91925},
+																	pos: position{line: 2918, col: 10, offset: 92139},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2912, col: 10, offset: 91925},
+																		pos:        position{line: 2918, col: 10, offset: 92139},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32358,28 +32358,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2934, col: 8, offset: 92323},
+																pos: position{line: 2940, col: 8, offset: 92537},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2921, col: 12, offset: 92096},
+																		pos: position{line: 2927, col: 12, offset: 92310},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2921, col: 13, offset: 92097},
+																			pos: position{line: 2927, col: 13, offset: 92311},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2921, col: 13, offset: 92097},
+																					pos:        position{line: 2927, col: 13, offset: 92311},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2921, col: 20, offset: 92104},
+																					pos:        position{line: 2927, col: 20, offset: 92318},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2921, col: 29, offset: 92113},
+																					pos:        position{line: 2927, col: 29, offset: 92327},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32388,9 +32388,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2931, col: 8, offset: 92273},
+																		pos: position{line: 2937, col: 8, offset: 92487},
 																		expr: &anyMatcher{
-																			line: 2931, col: 9, offset: 92274,
+																			line: 2937, col: 9, offset: 92488,
 																		},
 																	},
 																},
@@ -32402,39 +32402,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 871, col: 5, offset: 27735},
+										pos: position{line: 877, col: 5, offset: 27949},
 										run: (*parser).callonListContinuationElement551,
 										expr: &seqExpr{
-											pos: position{line: 871, col: 5, offset: 27735},
+											pos: position{line: 877, col: 5, offset: 27949},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 871, col: 5, offset: 27735},
+													pos:   position{line: 877, col: 5, offset: 27949},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 757, col: 5, offset: 24277},
+														pos: position{line: 763, col: 5, offset: 24491},
 														run: (*parser).callonListContinuationElement554,
 														expr: &seqExpr{
-															pos: position{line: 757, col: 5, offset: 24277},
+															pos: position{line: 763, col: 5, offset: 24491},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 757, col: 5, offset: 24277},
+																	pos:   position{line: 763, col: 5, offset: 24491},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 757, col: 16, offset: 24288},
+																		pos: position{line: 763, col: 16, offset: 24502},
 																		run: (*parser).callonListContinuationElement557,
 																		expr: &seqExpr{
-																			pos: position{line: 757, col: 16, offset: 24288},
+																			pos: position{line: 763, col: 16, offset: 24502},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 757, col: 16, offset: 24288},
+																					pos:        position{line: 763, col: 16, offset: 24502},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 757, col: 22, offset: 24294},
+																					pos: position{line: 763, col: 22, offset: 24508},
 																					expr: &litMatcher{
-																						pos:        position{line: 757, col: 22, offset: 24294},
+																						pos:        position{line: 763, col: 22, offset: 24508},
 																						val:        "`",
 																						ignoreCase: false,
 																						want:       "\"`\"",
@@ -32445,12 +32445,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 759, col: 8, offset: 24378},
+																	pos: position{line: 765, col: 8, offset: 24592},
 																	expr: &actionExpr{
-																		pos: position{line: 2912, col: 10, offset: 91925},
+																		pos: position{line: 2918, col: 10, offset: 92139},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2912, col: 10, offset: 91925},
+																			pos:        position{line: 2918, col: 10, offset: 92139},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32459,28 +32459,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2934, col: 8, offset: 92323},
+																	pos: position{line: 2940, col: 8, offset: 92537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2921, col: 12, offset: 92096},
+																			pos: position{line: 2927, col: 12, offset: 92310},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2921, col: 13, offset: 92097},
+																				pos: position{line: 2927, col: 13, offset: 92311},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 13, offset: 92097},
+																						pos:        position{line: 2927, col: 13, offset: 92311},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 20, offset: 92104},
+																						pos:        position{line: 2927, col: 20, offset: 92318},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 29, offset: 92113},
+																						pos:        position{line: 2927, col: 29, offset: 92327},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32489,9 +32489,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2931, col: 8, offset: 92273},
+																			pos: position{line: 2937, col: 8, offset: 92487},
 																			expr: &anyMatcher{
-																				line: 2931, col: 9, offset: 92274,
+																				line: 2937, col: 9, offset: 92488,
 																			},
 																		},
 																	},
@@ -32501,56 +32501,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 872, col: 5, offset: 27773},
+													pos: position{line: 878, col: 5, offset: 27987},
 													run: (*parser).callonListContinuationElement573,
 												},
 												&labeledExpr{
-													pos:   position{line: 875, col: 5, offset: 27865},
+													pos:   position{line: 881, col: 5, offset: 28079},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 890, col: 5, offset: 28255},
+														pos: position{line: 896, col: 5, offset: 28469},
 														expr: &actionExpr{
-															pos: position{line: 890, col: 6, offset: 28256},
+															pos: position{line: 896, col: 6, offset: 28470},
 															run: (*parser).callonListContinuationElement576,
 															expr: &seqExpr{
-																pos: position{line: 890, col: 6, offset: 28256},
+																pos: position{line: 896, col: 6, offset: 28470},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 890, col: 6, offset: 28256},
+																		pos: position{line: 896, col: 6, offset: 28470},
 																		expr: &choiceExpr{
-																			pos: position{line: 883, col: 5, offset: 28099},
+																			pos: position{line: 889, col: 5, offset: 28313},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 883, col: 5, offset: 28099},
+																					pos: position{line: 889, col: 5, offset: 28313},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 883, col: 5, offset: 28099},
+																							pos:   position{line: 889, col: 5, offset: 28313},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 757, col: 5, offset: 24277},
+																								pos: position{line: 763, col: 5, offset: 24491},
 																								run: (*parser).callonListContinuationElement582,
 																								expr: &seqExpr{
-																									pos: position{line: 757, col: 5, offset: 24277},
+																									pos: position{line: 763, col: 5, offset: 24491},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 757, col: 5, offset: 24277},
+																											pos:   position{line: 763, col: 5, offset: 24491},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 757, col: 16, offset: 24288},
+																												pos: position{line: 763, col: 16, offset: 24502},
 																												run: (*parser).callonListContinuationElement585,
 																												expr: &seqExpr{
-																													pos: position{line: 757, col: 16, offset: 24288},
+																													pos: position{line: 763, col: 16, offset: 24502},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 757, col: 16, offset: 24288},
+																															pos:        position{line: 763, col: 16, offset: 24502},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 757, col: 22, offset: 24294},
+																															pos: position{line: 763, col: 22, offset: 24508},
 																															expr: &litMatcher{
-																																pos:        position{line: 757, col: 22, offset: 24294},
+																																pos:        position{line: 763, col: 22, offset: 24508},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -32561,12 +32561,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 759, col: 8, offset: 24378},
+																											pos: position{line: 765, col: 8, offset: 24592},
 																											expr: &actionExpr{
-																												pos: position{line: 2912, col: 10, offset: 91925},
+																												pos: position{line: 2918, col: 10, offset: 92139},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2912, col: 10, offset: 91925},
+																													pos:        position{line: 2918, col: 10, offset: 92139},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32575,28 +32575,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2934, col: 8, offset: 92323},
+																											pos: position{line: 2940, col: 8, offset: 92537},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2921, col: 12, offset: 92096},
+																													pos: position{line: 2927, col: 12, offset: 92310},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2921, col: 13, offset: 92097},
+																														pos: position{line: 2927, col: 13, offset: 92311},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 13, offset: 92097},
+																																pos:        position{line: 2927, col: 13, offset: 92311},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 20, offset: 92104},
+																																pos:        position{line: 2927, col: 20, offset: 92318},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 29, offset: 92113},
+																																pos:        position{line: 2927, col: 29, offset: 92327},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32605,9 +32605,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2931, col: 8, offset: 92273},
+																													pos: position{line: 2937, col: 8, offset: 92487},
 																													expr: &anyMatcher{
-																														line: 2931, col: 9, offset: 92274,
+																														line: 2937, col: 9, offset: 92488,
 																													},
 																												},
 																											},
@@ -32617,45 +32617,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 884, col: 5, offset: 28129},
+																							pos: position{line: 890, col: 5, offset: 28343},
 																							run: (*parser).callonListContinuationElement601,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 891, col: 5, offset: 28285},
+																		pos:   position{line: 897, col: 5, offset: 28499},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 814, col: 5, offset: 26286},
+																			pos: position{line: 820, col: 5, offset: 26500},
 																			run: (*parser).callonListContinuationElement605,
 																			expr: &seqExpr{
-																				pos: position{line: 814, col: 5, offset: 26286},
+																				pos: position{line: 820, col: 5, offset: 26500},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2929, col: 11, offset: 92259},
+																						pos: position{line: 2935, col: 11, offset: 92473},
 																						expr: &anyMatcher{
-																							line: 2929, col: 13, offset: 92261,
+																							line: 2935, col: 13, offset: 92475,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 815, col: 5, offset: 26361},
+																						pos:   position{line: 821, col: 5, offset: 26575},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2858, col: 13, offset: 90451},
+																							pos: position{line: 2864, col: 13, offset: 90665},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2858, col: 13, offset: 90451},
+																								pos: position{line: 2864, col: 13, offset: 90665},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2858, col: 13, offset: 90451},
+																									pos:        position{line: 2864, col: 13, offset: 90665},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32665,28 +32665,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2934, col: 8, offset: 92323},
+																						pos: position{line: 2940, col: 8, offset: 92537},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2921, col: 12, offset: 92096},
+																								pos: position{line: 2927, col: 12, offset: 92310},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2921, col: 13, offset: 92097},
+																									pos: position{line: 2927, col: 13, offset: 92311},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 13, offset: 92097},
+																											pos:        position{line: 2927, col: 13, offset: 92311},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 20, offset: 92104},
+																											pos:        position{line: 2927, col: 20, offset: 92318},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 29, offset: 92113},
+																											pos:        position{line: 2927, col: 29, offset: 92327},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32695,9 +32695,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2931, col: 8, offset: 92273},
+																								pos: position{line: 2937, col: 8, offset: 92487},
 																								expr: &anyMatcher{
-																									line: 2931, col: 9, offset: 92274,
+																									line: 2937, col: 9, offset: 92488,
 																								},
 																							},
 																						},
@@ -32712,44 +32712,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 876, col: 5, offset: 27898},
+													pos:   position{line: 882, col: 5, offset: 28112},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 876, col: 9, offset: 27902},
+														pos: position{line: 882, col: 9, offset: 28116},
 														expr: &choiceExpr{
-															pos: position{line: 883, col: 5, offset: 28099},
+															pos: position{line: 889, col: 5, offset: 28313},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 883, col: 5, offset: 28099},
+																	pos: position{line: 889, col: 5, offset: 28313},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 883, col: 5, offset: 28099},
+																			pos:   position{line: 889, col: 5, offset: 28313},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 757, col: 5, offset: 24277},
+																				pos: position{line: 763, col: 5, offset: 24491},
 																				run: (*parser).callonListContinuationElement626,
 																				expr: &seqExpr{
-																					pos: position{line: 757, col: 5, offset: 24277},
+																					pos: position{line: 763, col: 5, offset: 24491},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 757, col: 5, offset: 24277},
+																							pos:   position{line: 763, col: 5, offset: 24491},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 757, col: 16, offset: 24288},
+																								pos: position{line: 763, col: 16, offset: 24502},
 																								run: (*parser).callonListContinuationElement629,
 																								expr: &seqExpr{
-																									pos: position{line: 757, col: 16, offset: 24288},
+																									pos: position{line: 763, col: 16, offset: 24502},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 757, col: 16, offset: 24288},
+																											pos:        position{line: 763, col: 16, offset: 24502},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 757, col: 22, offset: 24294},
+																											pos: position{line: 763, col: 22, offset: 24508},
 																											expr: &litMatcher{
-																												pos:        position{line: 757, col: 22, offset: 24294},
+																												pos:        position{line: 763, col: 22, offset: 24508},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -32760,12 +32760,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 759, col: 8, offset: 24378},
+																							pos: position{line: 765, col: 8, offset: 24592},
 																							expr: &actionExpr{
-																								pos: position{line: 2912, col: 10, offset: 91925},
+																								pos: position{line: 2918, col: 10, offset: 92139},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2912, col: 10, offset: 91925},
+																									pos:        position{line: 2918, col: 10, offset: 92139},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32774,28 +32774,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32804,9 +32804,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -32816,15 +32816,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 884, col: 5, offset: 28129},
+																			pos: position{line: 890, col: 5, offset: 28343},
 																			run: (*parser).callonListContinuationElement645,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2931, col: 8, offset: 92273},
+																	pos: position{line: 2937, col: 8, offset: 92487},
 																	expr: &anyMatcher{
-																		line: 2931, col: 9, offset: 92274,
+																		line: 2937, col: 9, offset: 92488,
 																	},
 																},
 															},
@@ -32835,39 +32835,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 899, col: 5, offset: 28440},
+										pos: position{line: 905, col: 5, offset: 28654},
 										run: (*parser).callonListContinuationElement648,
 										expr: &seqExpr{
-											pos: position{line: 899, col: 5, offset: 28440},
+											pos: position{line: 905, col: 5, offset: 28654},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 899, col: 5, offset: 28440},
+													pos:   position{line: 905, col: 5, offset: 28654},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 772, col: 5, offset: 24814},
+														pos: position{line: 778, col: 5, offset: 25028},
 														run: (*parser).callonListContinuationElement651,
 														expr: &seqExpr{
-															pos: position{line: 772, col: 5, offset: 24814},
+															pos: position{line: 778, col: 5, offset: 25028},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 772, col: 5, offset: 24814},
+																	pos:   position{line: 778, col: 5, offset: 25028},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 772, col: 16, offset: 24825},
+																		pos: position{line: 778, col: 16, offset: 25039},
 																		run: (*parser).callonListContinuationElement654,
 																		expr: &seqExpr{
-																			pos: position{line: 772, col: 16, offset: 24825},
+																			pos: position{line: 778, col: 16, offset: 25039},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 772, col: 16, offset: 24825},
+																					pos:        position{line: 778, col: 16, offset: 25039},
 																					val:        "----",
 																					ignoreCase: false,
 																					want:       "\"----\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 772, col: 23, offset: 24832},
+																					pos: position{line: 778, col: 23, offset: 25046},
 																					expr: &litMatcher{
-																						pos:        position{line: 772, col: 23, offset: 24832},
+																						pos:        position{line: 778, col: 23, offset: 25046},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
@@ -32878,12 +32878,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 774, col: 8, offset: 24916},
+																	pos: position{line: 780, col: 8, offset: 25130},
 																	expr: &actionExpr{
-																		pos: position{line: 2912, col: 10, offset: 91925},
+																		pos: position{line: 2918, col: 10, offset: 92139},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2912, col: 10, offset: 91925},
+																			pos:        position{line: 2918, col: 10, offset: 92139},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32892,28 +32892,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2934, col: 8, offset: 92323},
+																	pos: position{line: 2940, col: 8, offset: 92537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2921, col: 12, offset: 92096},
+																			pos: position{line: 2927, col: 12, offset: 92310},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2921, col: 13, offset: 92097},
+																				pos: position{line: 2927, col: 13, offset: 92311},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 13, offset: 92097},
+																						pos:        position{line: 2927, col: 13, offset: 92311},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 20, offset: 92104},
+																						pos:        position{line: 2927, col: 20, offset: 92318},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 29, offset: 92113},
+																						pos:        position{line: 2927, col: 29, offset: 92327},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32922,9 +32922,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2931, col: 8, offset: 92273},
+																			pos: position{line: 2937, col: 8, offset: 92487},
 																			expr: &anyMatcher{
-																				line: 2931, col: 9, offset: 92274,
+																				line: 2937, col: 9, offset: 92488,
 																			},
 																		},
 																	},
@@ -32934,56 +32934,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 900, col: 5, offset: 28479},
+													pos: position{line: 906, col: 5, offset: 28693},
 													run: (*parser).callonListContinuationElement670,
 												},
 												&labeledExpr{
-													pos:   position{line: 903, col: 5, offset: 28571},
+													pos:   position{line: 909, col: 5, offset: 28785},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 918, col: 5, offset: 28969},
+														pos: position{line: 924, col: 5, offset: 29183},
 														expr: &actionExpr{
-															pos: position{line: 918, col: 6, offset: 28970},
+															pos: position{line: 924, col: 6, offset: 29184},
 															run: (*parser).callonListContinuationElement673,
 															expr: &seqExpr{
-																pos: position{line: 918, col: 6, offset: 28970},
+																pos: position{line: 924, col: 6, offset: 29184},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 918, col: 6, offset: 28970},
+																		pos: position{line: 924, col: 6, offset: 29184},
 																		expr: &choiceExpr{
-																			pos: position{line: 911, col: 5, offset: 28811},
+																			pos: position{line: 917, col: 5, offset: 29025},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 911, col: 5, offset: 28811},
+																					pos: position{line: 917, col: 5, offset: 29025},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 911, col: 5, offset: 28811},
+																							pos:   position{line: 917, col: 5, offset: 29025},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 772, col: 5, offset: 24814},
+																								pos: position{line: 778, col: 5, offset: 25028},
 																								run: (*parser).callonListContinuationElement679,
 																								expr: &seqExpr{
-																									pos: position{line: 772, col: 5, offset: 24814},
+																									pos: position{line: 778, col: 5, offset: 25028},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 772, col: 5, offset: 24814},
+																											pos:   position{line: 778, col: 5, offset: 25028},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 772, col: 16, offset: 24825},
+																												pos: position{line: 778, col: 16, offset: 25039},
 																												run: (*parser).callonListContinuationElement682,
 																												expr: &seqExpr{
-																													pos: position{line: 772, col: 16, offset: 24825},
+																													pos: position{line: 778, col: 16, offset: 25039},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 772, col: 16, offset: 24825},
+																															pos:        position{line: 778, col: 16, offset: 25039},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 772, col: 23, offset: 24832},
+																															pos: position{line: 778, col: 23, offset: 25046},
 																															expr: &litMatcher{
-																																pos:        position{line: 772, col: 23, offset: 24832},
+																																pos:        position{line: 778, col: 23, offset: 25046},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -32994,12 +32994,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 774, col: 8, offset: 24916},
+																											pos: position{line: 780, col: 8, offset: 25130},
 																											expr: &actionExpr{
-																												pos: position{line: 2912, col: 10, offset: 91925},
+																												pos: position{line: 2918, col: 10, offset: 92139},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2912, col: 10, offset: 91925},
+																													pos:        position{line: 2918, col: 10, offset: 92139},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33008,28 +33008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2934, col: 8, offset: 92323},
+																											pos: position{line: 2940, col: 8, offset: 92537},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2921, col: 12, offset: 92096},
+																													pos: position{line: 2927, col: 12, offset: 92310},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2921, col: 13, offset: 92097},
+																														pos: position{line: 2927, col: 13, offset: 92311},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 13, offset: 92097},
+																																pos:        position{line: 2927, col: 13, offset: 92311},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 20, offset: 92104},
+																																pos:        position{line: 2927, col: 20, offset: 92318},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 29, offset: 92113},
+																																pos:        position{line: 2927, col: 29, offset: 92327},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33038,9 +33038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2931, col: 8, offset: 92273},
+																													pos: position{line: 2937, col: 8, offset: 92487},
 																													expr: &anyMatcher{
-																														line: 2931, col: 9, offset: 92274,
+																														line: 2937, col: 9, offset: 92488,
 																													},
 																												},
 																											},
@@ -33050,45 +33050,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 912, col: 5, offset: 28842},
+																							pos: position{line: 918, col: 5, offset: 29056},
 																							run: (*parser).callonListContinuationElement698,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 919, col: 5, offset: 29000},
+																		pos:   position{line: 925, col: 5, offset: 29214},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 814, col: 5, offset: 26286},
+																			pos: position{line: 820, col: 5, offset: 26500},
 																			run: (*parser).callonListContinuationElement702,
 																			expr: &seqExpr{
-																				pos: position{line: 814, col: 5, offset: 26286},
+																				pos: position{line: 820, col: 5, offset: 26500},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2929, col: 11, offset: 92259},
+																						pos: position{line: 2935, col: 11, offset: 92473},
 																						expr: &anyMatcher{
-																							line: 2929, col: 13, offset: 92261,
+																							line: 2935, col: 13, offset: 92475,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 815, col: 5, offset: 26361},
+																						pos:   position{line: 821, col: 5, offset: 26575},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2858, col: 13, offset: 90451},
+																							pos: position{line: 2864, col: 13, offset: 90665},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2858, col: 13, offset: 90451},
+																								pos: position{line: 2864, col: 13, offset: 90665},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2858, col: 13, offset: 90451},
+																									pos:        position{line: 2864, col: 13, offset: 90665},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33098,28 +33098,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2934, col: 8, offset: 92323},
+																						pos: position{line: 2940, col: 8, offset: 92537},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2921, col: 12, offset: 92096},
+																								pos: position{line: 2927, col: 12, offset: 92310},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2921, col: 13, offset: 92097},
+																									pos: position{line: 2927, col: 13, offset: 92311},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 13, offset: 92097},
+																											pos:        position{line: 2927, col: 13, offset: 92311},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 20, offset: 92104},
+																											pos:        position{line: 2927, col: 20, offset: 92318},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 29, offset: 92113},
+																											pos:        position{line: 2927, col: 29, offset: 92327},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33128,9 +33128,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2931, col: 8, offset: 92273},
+																								pos: position{line: 2937, col: 8, offset: 92487},
 																								expr: &anyMatcher{
-																									line: 2931, col: 9, offset: 92274,
+																									line: 2937, col: 9, offset: 92488,
 																								},
 																							},
 																						},
@@ -33145,44 +33145,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 904, col: 5, offset: 28605},
+													pos:   position{line: 910, col: 5, offset: 28819},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 904, col: 9, offset: 28609},
+														pos: position{line: 910, col: 9, offset: 28823},
 														expr: &choiceExpr{
-															pos: position{line: 911, col: 5, offset: 28811},
+															pos: position{line: 917, col: 5, offset: 29025},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 911, col: 5, offset: 28811},
+																	pos: position{line: 917, col: 5, offset: 29025},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 911, col: 5, offset: 28811},
+																			pos:   position{line: 917, col: 5, offset: 29025},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 772, col: 5, offset: 24814},
+																				pos: position{line: 778, col: 5, offset: 25028},
 																				run: (*parser).callonListContinuationElement723,
 																				expr: &seqExpr{
-																					pos: position{line: 772, col: 5, offset: 24814},
+																					pos: position{line: 778, col: 5, offset: 25028},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 772, col: 5, offset: 24814},
+																							pos:   position{line: 778, col: 5, offset: 25028},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 772, col: 16, offset: 24825},
+																								pos: position{line: 778, col: 16, offset: 25039},
 																								run: (*parser).callonListContinuationElement726,
 																								expr: &seqExpr{
-																									pos: position{line: 772, col: 16, offset: 24825},
+																									pos: position{line: 778, col: 16, offset: 25039},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 772, col: 16, offset: 24825},
+																											pos:        position{line: 778, col: 16, offset: 25039},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 772, col: 23, offset: 24832},
+																											pos: position{line: 778, col: 23, offset: 25046},
 																											expr: &litMatcher{
-																												pos:        position{line: 772, col: 23, offset: 24832},
+																												pos:        position{line: 778, col: 23, offset: 25046},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -33193,12 +33193,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 774, col: 8, offset: 24916},
+																							pos: position{line: 780, col: 8, offset: 25130},
 																							expr: &actionExpr{
-																								pos: position{line: 2912, col: 10, offset: 91925},
+																								pos: position{line: 2918, col: 10, offset: 92139},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2912, col: 10, offset: 91925},
+																									pos:        position{line: 2918, col: 10, offset: 92139},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33207,28 +33207,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33237,9 +33237,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -33249,15 +33249,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 912, col: 5, offset: 28842},
+																			pos: position{line: 918, col: 5, offset: 29056},
 																			run: (*parser).callonListContinuationElement742,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2931, col: 8, offset: 92273},
+																	pos: position{line: 2937, col: 8, offset: 92487},
 																	expr: &anyMatcher{
-																		line: 2931, col: 9, offset: 92274,
+																		line: 2937, col: 9, offset: 92488,
 																	},
 																},
 															},
@@ -33268,39 +33268,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 927, col: 5, offset: 29155},
+										pos: position{line: 933, col: 5, offset: 29369},
 										run: (*parser).callonListContinuationElement745,
 										expr: &seqExpr{
-											pos: position{line: 927, col: 5, offset: 29155},
+											pos: position{line: 933, col: 5, offset: 29369},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 927, col: 5, offset: 29155},
+													pos:   position{line: 933, col: 5, offset: 29369},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 786, col: 5, offset: 25290},
+														pos: position{line: 792, col: 5, offset: 25504},
 														run: (*parser).callonListContinuationElement748,
 														expr: &seqExpr{
-															pos: position{line: 786, col: 5, offset: 25290},
+															pos: position{line: 792, col: 5, offset: 25504},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 786, col: 5, offset: 25290},
+																	pos:   position{line: 792, col: 5, offset: 25504},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 786, col: 16, offset: 25301},
+																		pos: position{line: 792, col: 16, offset: 25515},
 																		run: (*parser).callonListContinuationElement751,
 																		expr: &seqExpr{
-																			pos: position{line: 786, col: 16, offset: 25301},
+																			pos: position{line: 792, col: 16, offset: 25515},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 786, col: 16, offset: 25301},
+																					pos:        position{line: 792, col: 16, offset: 25515},
 																					val:        "....",
 																					ignoreCase: false,
 																					want:       "\"....\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 786, col: 23, offset: 25308},
+																					pos: position{line: 792, col: 23, offset: 25522},
 																					expr: &litMatcher{
-																						pos:        position{line: 786, col: 23, offset: 25308},
+																						pos:        position{line: 792, col: 23, offset: 25522},
 																						val:        ".",
 																						ignoreCase: false,
 																						want:       "\".\"",
@@ -33311,12 +33311,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 788, col: 8, offset: 25392},
+																	pos: position{line: 794, col: 8, offset: 25606},
 																	expr: &actionExpr{
-																		pos: position{line: 2912, col: 10, offset: 91925},
+																		pos: position{line: 2918, col: 10, offset: 92139},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2912, col: 10, offset: 91925},
+																			pos:        position{line: 2918, col: 10, offset: 92139},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33325,28 +33325,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2934, col: 8, offset: 92323},
+																	pos: position{line: 2940, col: 8, offset: 92537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2921, col: 12, offset: 92096},
+																			pos: position{line: 2927, col: 12, offset: 92310},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2921, col: 13, offset: 92097},
+																				pos: position{line: 2927, col: 13, offset: 92311},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 13, offset: 92097},
+																						pos:        position{line: 2927, col: 13, offset: 92311},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 20, offset: 92104},
+																						pos:        position{line: 2927, col: 20, offset: 92318},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 29, offset: 92113},
+																						pos:        position{line: 2927, col: 29, offset: 92327},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33355,9 +33355,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2931, col: 8, offset: 92273},
+																			pos: position{line: 2937, col: 8, offset: 92487},
 																			expr: &anyMatcher{
-																				line: 2931, col: 9, offset: 92274,
+																				line: 2937, col: 9, offset: 92488,
 																			},
 																		},
 																	},
@@ -33367,56 +33367,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 928, col: 5, offset: 29194},
+													pos: position{line: 934, col: 5, offset: 29408},
 													run: (*parser).callonListContinuationElement767,
 												},
 												&labeledExpr{
-													pos:   position{line: 931, col: 5, offset: 29286},
+													pos:   position{line: 937, col: 5, offset: 29500},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 946, col: 5, offset: 29684},
+														pos: position{line: 952, col: 5, offset: 29898},
 														expr: &actionExpr{
-															pos: position{line: 946, col: 6, offset: 29685},
+															pos: position{line: 952, col: 6, offset: 29899},
 															run: (*parser).callonListContinuationElement770,
 															expr: &seqExpr{
-																pos: position{line: 946, col: 6, offset: 29685},
+																pos: position{line: 952, col: 6, offset: 29899},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 946, col: 6, offset: 29685},
+																		pos: position{line: 952, col: 6, offset: 29899},
 																		expr: &choiceExpr{
-																			pos: position{line: 939, col: 5, offset: 29526},
+																			pos: position{line: 945, col: 5, offset: 29740},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 939, col: 5, offset: 29526},
+																					pos: position{line: 945, col: 5, offset: 29740},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 939, col: 5, offset: 29526},
+																							pos:   position{line: 945, col: 5, offset: 29740},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 786, col: 5, offset: 25290},
+																								pos: position{line: 792, col: 5, offset: 25504},
 																								run: (*parser).callonListContinuationElement776,
 																								expr: &seqExpr{
-																									pos: position{line: 786, col: 5, offset: 25290},
+																									pos: position{line: 792, col: 5, offset: 25504},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 786, col: 5, offset: 25290},
+																											pos:   position{line: 792, col: 5, offset: 25504},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 786, col: 16, offset: 25301},
+																												pos: position{line: 792, col: 16, offset: 25515},
 																												run: (*parser).callonListContinuationElement779,
 																												expr: &seqExpr{
-																													pos: position{line: 786, col: 16, offset: 25301},
+																													pos: position{line: 792, col: 16, offset: 25515},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 786, col: 16, offset: 25301},
+																															pos:        position{line: 792, col: 16, offset: 25515},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 786, col: 23, offset: 25308},
+																															pos: position{line: 792, col: 23, offset: 25522},
 																															expr: &litMatcher{
-																																pos:        position{line: 786, col: 23, offset: 25308},
+																																pos:        position{line: 792, col: 23, offset: 25522},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -33427,12 +33427,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 788, col: 8, offset: 25392},
+																											pos: position{line: 794, col: 8, offset: 25606},
 																											expr: &actionExpr{
-																												pos: position{line: 2912, col: 10, offset: 91925},
+																												pos: position{line: 2918, col: 10, offset: 92139},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2912, col: 10, offset: 91925},
+																													pos:        position{line: 2918, col: 10, offset: 92139},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33441,28 +33441,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2934, col: 8, offset: 92323},
+																											pos: position{line: 2940, col: 8, offset: 92537},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2921, col: 12, offset: 92096},
+																													pos: position{line: 2927, col: 12, offset: 92310},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2921, col: 13, offset: 92097},
+																														pos: position{line: 2927, col: 13, offset: 92311},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 13, offset: 92097},
+																																pos:        position{line: 2927, col: 13, offset: 92311},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 20, offset: 92104},
+																																pos:        position{line: 2927, col: 20, offset: 92318},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 29, offset: 92113},
+																																pos:        position{line: 2927, col: 29, offset: 92327},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33471,9 +33471,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2931, col: 8, offset: 92273},
+																													pos: position{line: 2937, col: 8, offset: 92487},
 																													expr: &anyMatcher{
-																														line: 2931, col: 9, offset: 92274,
+																														line: 2937, col: 9, offset: 92488,
 																													},
 																												},
 																											},
@@ -33483,45 +33483,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 940, col: 5, offset: 29557},
+																							pos: position{line: 946, col: 5, offset: 29771},
 																							run: (*parser).callonListContinuationElement795,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 947, col: 5, offset: 29715},
+																		pos:   position{line: 953, col: 5, offset: 29929},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 814, col: 5, offset: 26286},
+																			pos: position{line: 820, col: 5, offset: 26500},
 																			run: (*parser).callonListContinuationElement799,
 																			expr: &seqExpr{
-																				pos: position{line: 814, col: 5, offset: 26286},
+																				pos: position{line: 820, col: 5, offset: 26500},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2929, col: 11, offset: 92259},
+																						pos: position{line: 2935, col: 11, offset: 92473},
 																						expr: &anyMatcher{
-																							line: 2929, col: 13, offset: 92261,
+																							line: 2935, col: 13, offset: 92475,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 815, col: 5, offset: 26361},
+																						pos:   position{line: 821, col: 5, offset: 26575},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2858, col: 13, offset: 90451},
+																							pos: position{line: 2864, col: 13, offset: 90665},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2858, col: 13, offset: 90451},
+																								pos: position{line: 2864, col: 13, offset: 90665},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2858, col: 13, offset: 90451},
+																									pos:        position{line: 2864, col: 13, offset: 90665},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33531,28 +33531,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2934, col: 8, offset: 92323},
+																						pos: position{line: 2940, col: 8, offset: 92537},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2921, col: 12, offset: 92096},
+																								pos: position{line: 2927, col: 12, offset: 92310},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2921, col: 13, offset: 92097},
+																									pos: position{line: 2927, col: 13, offset: 92311},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 13, offset: 92097},
+																											pos:        position{line: 2927, col: 13, offset: 92311},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 20, offset: 92104},
+																											pos:        position{line: 2927, col: 20, offset: 92318},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 29, offset: 92113},
+																											pos:        position{line: 2927, col: 29, offset: 92327},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33561,9 +33561,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2931, col: 8, offset: 92273},
+																								pos: position{line: 2937, col: 8, offset: 92487},
 																								expr: &anyMatcher{
-																									line: 2931, col: 9, offset: 92274,
+																									line: 2937, col: 9, offset: 92488,
 																								},
 																							},
 																						},
@@ -33578,44 +33578,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 932, col: 5, offset: 29320},
+													pos:   position{line: 938, col: 5, offset: 29534},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 932, col: 9, offset: 29324},
+														pos: position{line: 938, col: 9, offset: 29538},
 														expr: &choiceExpr{
-															pos: position{line: 939, col: 5, offset: 29526},
+															pos: position{line: 945, col: 5, offset: 29740},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 939, col: 5, offset: 29526},
+																	pos: position{line: 945, col: 5, offset: 29740},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 939, col: 5, offset: 29526},
+																			pos:   position{line: 945, col: 5, offset: 29740},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 786, col: 5, offset: 25290},
+																				pos: position{line: 792, col: 5, offset: 25504},
 																				run: (*parser).callonListContinuationElement820,
 																				expr: &seqExpr{
-																					pos: position{line: 786, col: 5, offset: 25290},
+																					pos: position{line: 792, col: 5, offset: 25504},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 786, col: 5, offset: 25290},
+																							pos:   position{line: 792, col: 5, offset: 25504},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 786, col: 16, offset: 25301},
+																								pos: position{line: 792, col: 16, offset: 25515},
 																								run: (*parser).callonListContinuationElement823,
 																								expr: &seqExpr{
-																									pos: position{line: 786, col: 16, offset: 25301},
+																									pos: position{line: 792, col: 16, offset: 25515},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 786, col: 16, offset: 25301},
+																											pos:        position{line: 792, col: 16, offset: 25515},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 786, col: 23, offset: 25308},
+																											pos: position{line: 792, col: 23, offset: 25522},
 																											expr: &litMatcher{
-																												pos:        position{line: 786, col: 23, offset: 25308},
+																												pos:        position{line: 792, col: 23, offset: 25522},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -33626,12 +33626,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 788, col: 8, offset: 25392},
+																							pos: position{line: 794, col: 8, offset: 25606},
 																							expr: &actionExpr{
-																								pos: position{line: 2912, col: 10, offset: 91925},
+																								pos: position{line: 2918, col: 10, offset: 92139},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2912, col: 10, offset: 91925},
+																									pos:        position{line: 2918, col: 10, offset: 92139},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33640,28 +33640,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33670,9 +33670,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -33682,15 +33682,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 940, col: 5, offset: 29557},
+																			pos: position{line: 946, col: 5, offset: 29771},
 																			run: (*parser).callonListContinuationElement839,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2931, col: 8, offset: 92273},
+																	pos: position{line: 2937, col: 8, offset: 92487},
 																	expr: &anyMatcher{
-																		line: 2931, col: 9, offset: 92274,
+																		line: 2937, col: 9, offset: 92488,
 																	},
 																},
 															},
@@ -33701,41 +33701,41 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 978, col: 5, offset: 30598},
+										pos: position{line: 984, col: 5, offset: 30812},
 										run: (*parser).callonListContinuationElement842,
 										expr: &seqExpr{
-											pos: position{line: 978, col: 5, offset: 30598},
+											pos: position{line: 984, col: 5, offset: 30812},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 978, col: 5, offset: 30598},
+													pos:   position{line: 984, col: 5, offset: 30812},
 													label: "firstLine",
 													expr: &actionExpr{
-														pos: position{line: 985, col: 5, offset: 30857},
+														pos: position{line: 991, col: 5, offset: 31071},
 														run: (*parser).callonListContinuationElement845,
 														expr: &seqExpr{
-															pos: position{line: 985, col: 5, offset: 30857},
+															pos: position{line: 991, col: 5, offset: 31071},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 985, col: 5, offset: 30857},
+																	pos: position{line: 991, col: 5, offset: 31071},
 																	expr: &actionExpr{
-																		pos: position{line: 680, col: 14, offset: 21687},
+																		pos: position{line: 686, col: 14, offset: 21901},
 																		run: (*parser).callonListContinuationElement848,
 																		expr: &seqExpr{
-																			pos: position{line: 680, col: 14, offset: 21687},
+																			pos: position{line: 686, col: 14, offset: 21901},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2929, col: 11, offset: 92259},
+																					pos: position{line: 2935, col: 11, offset: 92473},
 																					expr: &anyMatcher{
-																						line: 2929, col: 13, offset: 92261,
+																						line: 2935, col: 13, offset: 92475,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 680, col: 21, offset: 21694},
+																					pos: position{line: 686, col: 21, offset: 21908},
 																					expr: &actionExpr{
-																						pos: position{line: 2912, col: 10, offset: 91925},
+																						pos: position{line: 2918, col: 10, offset: 92139},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2912, col: 10, offset: 91925},
+																							pos:        position{line: 2918, col: 10, offset: 92139},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33744,28 +33744,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2934, col: 8, offset: 92323},
+																					pos: position{line: 2940, col: 8, offset: 92537},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2921, col: 12, offset: 92096},
+																							pos: position{line: 2927, col: 12, offset: 92310},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2921, col: 13, offset: 92097},
+																								pos: position{line: 2927, col: 13, offset: 92311},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 13, offset: 92097},
+																										pos:        position{line: 2927, col: 13, offset: 92311},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 20, offset: 92104},
+																										pos:        position{line: 2927, col: 20, offset: 92318},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 29, offset: 92113},
+																										pos:        position{line: 2927, col: 29, offset: 92327},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33774,9 +33774,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2931, col: 8, offset: 92273},
+																							pos: position{line: 2937, col: 8, offset: 92487},
 																							expr: &anyMatcher{
-																								line: 2931, col: 9, offset: 92274,
+																								line: 2937, col: 9, offset: 92488,
 																							},
 																						},
 																					},
@@ -33786,21 +33786,21 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 986, col: 5, offset: 30872},
+																	pos:        position{line: 992, col: 5, offset: 31086},
 																	val:        "> ",
 																	ignoreCase: false,
 																	want:       "\"> \"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 987, col: 5, offset: 30882},
+																	pos:   position{line: 993, col: 5, offset: 31096},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2862, col: 14, offset: 90518},
+																		pos: position{line: 2868, col: 14, offset: 90732},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2862, col: 14, offset: 90518},
+																			pos: position{line: 2868, col: 14, offset: 90732},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2862, col: 14, offset: 90518},
+																				pos:        position{line: 2868, col: 14, offset: 90732},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33810,28 +33810,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2934, col: 8, offset: 92323},
+																	pos: position{line: 2940, col: 8, offset: 92537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2921, col: 12, offset: 92096},
+																			pos: position{line: 2927, col: 12, offset: 92310},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2921, col: 13, offset: 92097},
+																				pos: position{line: 2927, col: 13, offset: 92311},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 13, offset: 92097},
+																						pos:        position{line: 2927, col: 13, offset: 92311},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 20, offset: 92104},
+																						pos:        position{line: 2927, col: 20, offset: 92318},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 29, offset: 92113},
+																						pos:        position{line: 2927, col: 29, offset: 92327},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33840,9 +33840,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2931, col: 8, offset: 92273},
+																			pos: position{line: 2937, col: 8, offset: 92487},
 																			expr: &anyMatcher{
-																				line: 2931, col: 9, offset: 92274,
+																				line: 2937, col: 9, offset: 92488,
 																			},
 																		},
 																	},
@@ -33852,40 +33852,40 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 979, col: 5, offset: 30635},
+													pos:   position{line: 985, col: 5, offset: 30849},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 979, col: 16, offset: 30646},
+														pos: position{line: 985, col: 16, offset: 30860},
 														expr: &choiceExpr{
-															pos: position{line: 979, col: 17, offset: 30647},
+															pos: position{line: 985, col: 17, offset: 30861},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 985, col: 5, offset: 30857},
+																	pos: position{line: 991, col: 5, offset: 31071},
 																	run: (*parser).callonListContinuationElement879,
 																	expr: &seqExpr{
-																		pos: position{line: 985, col: 5, offset: 30857},
+																		pos: position{line: 991, col: 5, offset: 31071},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 985, col: 5, offset: 30857},
+																				pos: position{line: 991, col: 5, offset: 31071},
 																				expr: &actionExpr{
-																					pos: position{line: 680, col: 14, offset: 21687},
+																					pos: position{line: 686, col: 14, offset: 21901},
 																					run: (*parser).callonListContinuationElement882,
 																					expr: &seqExpr{
-																						pos: position{line: 680, col: 14, offset: 21687},
+																						pos: position{line: 686, col: 14, offset: 21901},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2929, col: 11, offset: 92259},
+																								pos: position{line: 2935, col: 11, offset: 92473},
 																								expr: &anyMatcher{
-																									line: 2929, col: 13, offset: 92261,
+																									line: 2935, col: 13, offset: 92475,
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 680, col: 21, offset: 21694},
+																								pos: position{line: 686, col: 21, offset: 21908},
 																								expr: &actionExpr{
-																									pos: position{line: 2912, col: 10, offset: 91925},
+																									pos: position{line: 2918, col: 10, offset: 92139},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2912, col: 10, offset: 91925},
+																										pos:        position{line: 2918, col: 10, offset: 92139},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33894,28 +33894,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2934, col: 8, offset: 92323},
+																								pos: position{line: 2940, col: 8, offset: 92537},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2921, col: 12, offset: 92096},
+																										pos: position{line: 2927, col: 12, offset: 92310},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2921, col: 13, offset: 92097},
+																											pos: position{line: 2927, col: 13, offset: 92311},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 13, offset: 92097},
+																													pos:        position{line: 2927, col: 13, offset: 92311},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 20, offset: 92104},
+																													pos:        position{line: 2927, col: 20, offset: 92318},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 29, offset: 92113},
+																													pos:        position{line: 2927, col: 29, offset: 92327},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33924,9 +33924,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2931, col: 8, offset: 92273},
+																										pos: position{line: 2937, col: 8, offset: 92487},
 																										expr: &anyMatcher{
-																											line: 2931, col: 9, offset: 92274,
+																											line: 2937, col: 9, offset: 92488,
 																										},
 																									},
 																								},
@@ -33936,21 +33936,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 986, col: 5, offset: 30872},
+																				pos:        position{line: 992, col: 5, offset: 31086},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 987, col: 5, offset: 30882},
+																				pos:   position{line: 993, col: 5, offset: 31096},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2862, col: 14, offset: 90518},
+																					pos: position{line: 2868, col: 14, offset: 90732},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2862, col: 14, offset: 90518},
+																						pos: position{line: 2868, col: 14, offset: 90732},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2862, col: 14, offset: 90518},
+																							pos:        position{line: 2868, col: 14, offset: 90732},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33960,28 +33960,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2934, col: 8, offset: 92323},
+																				pos: position{line: 2940, col: 8, offset: 92537},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2921, col: 12, offset: 92096},
+																						pos: position{line: 2927, col: 12, offset: 92310},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2921, col: 13, offset: 92097},
+																							pos: position{line: 2927, col: 13, offset: 92311},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2921, col: 13, offset: 92097},
+																									pos:        position{line: 2927, col: 13, offset: 92311},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2921, col: 20, offset: 92104},
+																									pos:        position{line: 2927, col: 20, offset: 92318},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2921, col: 29, offset: 92113},
+																									pos:        position{line: 2927, col: 29, offset: 92327},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33990,9 +33990,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2931, col: 8, offset: 92273},
+																						pos: position{line: 2937, col: 8, offset: 92487},
 																						expr: &anyMatcher{
-																							line: 2931, col: 9, offset: 92274,
+																							line: 2937, col: 9, offset: 92488,
 																						},
 																					},
 																				},
@@ -34001,21 +34001,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1794, col: 5, offset: 57985},
+																	pos: position{line: 1800, col: 5, offset: 58199},
 																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 1794, col: 5, offset: 57985},
+																		pos: position{line: 1800, col: 5, offset: 58199},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1794, col: 5, offset: 57985},
+																				pos:   position{line: 1800, col: 5, offset: 58199},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2862, col: 14, offset: 90518},
+																					pos: position{line: 2868, col: 14, offset: 90732},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2862, col: 14, offset: 90518},
+																						pos: position{line: 2868, col: 14, offset: 90732},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2862, col: 14, offset: 90518},
+																							pos:        position{line: 2868, col: 14, offset: 90732},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34025,32 +34025,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1795, col: 5, offset: 58009},
+																				pos: position{line: 1801, col: 5, offset: 58223},
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2934, col: 8, offset: 92323},
+																				pos: position{line: 2940, col: 8, offset: 92537},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2921, col: 12, offset: 92096},
+																						pos: position{line: 2927, col: 12, offset: 92310},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2921, col: 13, offset: 92097},
+																							pos: position{line: 2927, col: 13, offset: 92311},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2921, col: 13, offset: 92097},
+																									pos:        position{line: 2927, col: 13, offset: 92311},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2921, col: 20, offset: 92104},
+																									pos:        position{line: 2927, col: 20, offset: 92318},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2921, col: 29, offset: 92113},
+																									pos:        position{line: 2927, col: 29, offset: 92327},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34059,9 +34059,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2931, col: 8, offset: 92273},
+																						pos: position{line: 2937, col: 8, offset: 92487},
 																						expr: &anyMatcher{
-																							line: 2931, col: 9, offset: 92274,
+																							line: 2937, col: 9, offset: 92488,
 																						},
 																					},
 																				},
@@ -34077,28 +34077,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1000, col: 5, offset: 31147},
+										pos: position{line: 1006, col: 5, offset: 31361},
 										run: (*parser).callonListContinuationElement925,
 										expr: &seqExpr{
-											pos: position{line: 1000, col: 5, offset: 31147},
+											pos: position{line: 1006, col: 5, offset: 31361},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1000, col: 5, offset: 31147},
+													pos:   position{line: 1006, col: 5, offset: 31361},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 779, col: 5, offset: 25059},
+														pos: position{line: 785, col: 5, offset: 25273},
 														run: (*parser).callonListContinuationElement928,
 														expr: &seqExpr{
-															pos: position{line: 779, col: 5, offset: 25059},
+															pos: position{line: 785, col: 5, offset: 25273},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 779, col: 5, offset: 25059},
+																	pos:   position{line: 785, col: 5, offset: 25273},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 779, col: 16, offset: 25070},
+																		pos: position{line: 785, col: 16, offset: 25284},
 																		run: (*parser).callonListContinuationElement931,
 																		expr: &litMatcher{
-																			pos:        position{line: 779, col: 16, offset: 25070},
+																			pos:        position{line: 785, col: 16, offset: 25284},
 																			val:        "--",
 																			ignoreCase: false,
 																			want:       "\"--\"",
@@ -34106,12 +34106,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 781, col: 8, offset: 25147},
+																	pos: position{line: 787, col: 8, offset: 25361},
 																	expr: &actionExpr{
-																		pos: position{line: 2912, col: 10, offset: 91925},
+																		pos: position{line: 2918, col: 10, offset: 92139},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2912, col: 10, offset: 91925},
+																			pos:        position{line: 2918, col: 10, offset: 92139},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34120,28 +34120,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2934, col: 8, offset: 92323},
+																	pos: position{line: 2940, col: 8, offset: 92537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2921, col: 12, offset: 92096},
+																			pos: position{line: 2927, col: 12, offset: 92310},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2921, col: 13, offset: 92097},
+																				pos: position{line: 2927, col: 13, offset: 92311},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 13, offset: 92097},
+																						pos:        position{line: 2927, col: 13, offset: 92311},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 20, offset: 92104},
+																						pos:        position{line: 2927, col: 20, offset: 92318},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 29, offset: 92113},
+																						pos:        position{line: 2927, col: 29, offset: 92327},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34150,9 +34150,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2931, col: 8, offset: 92273},
+																			pos: position{line: 2937, col: 8, offset: 92487},
 																			expr: &anyMatcher{
-																				line: 2931, col: 9, offset: 92274,
+																				line: 2937, col: 9, offset: 92488,
 																			},
 																		},
 																	},
@@ -34162,35 +34162,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1001, col: 5, offset: 31183},
+													pos:   position{line: 1007, col: 5, offset: 31397},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1011, col: 5, offset: 31451},
+														pos: position{line: 1017, col: 5, offset: 31665},
 														expr: &actionExpr{
-															pos: position{line: 1011, col: 6, offset: 31452},
+															pos: position{line: 1017, col: 6, offset: 31666},
 															run: (*parser).callonListContinuationElement946,
 															expr: &seqExpr{
-																pos: position{line: 1011, col: 6, offset: 31452},
+																pos: position{line: 1017, col: 6, offset: 31666},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1011, col: 6, offset: 31452},
+																		pos: position{line: 1017, col: 6, offset: 31666},
 																		expr: &choiceExpr{
-																			pos: position{line: 1008, col: 26, offset: 31400},
+																			pos: position{line: 1014, col: 26, offset: 31614},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 779, col: 5, offset: 25059},
+																					pos: position{line: 785, col: 5, offset: 25273},
 																					run: (*parser).callonListContinuationElement950,
 																					expr: &seqExpr{
-																						pos: position{line: 779, col: 5, offset: 25059},
+																						pos: position{line: 785, col: 5, offset: 25273},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 779, col: 5, offset: 25059},
+																								pos:   position{line: 785, col: 5, offset: 25273},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 779, col: 16, offset: 25070},
+																									pos: position{line: 785, col: 16, offset: 25284},
 																									run: (*parser).callonListContinuationElement953,
 																									expr: &litMatcher{
-																										pos:        position{line: 779, col: 16, offset: 25070},
+																										pos:        position{line: 785, col: 16, offset: 25284},
 																										val:        "--",
 																										ignoreCase: false,
 																										want:       "\"--\"",
@@ -34198,12 +34198,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 781, col: 8, offset: 25147},
+																								pos: position{line: 787, col: 8, offset: 25361},
 																								expr: &actionExpr{
-																									pos: position{line: 2912, col: 10, offset: 91925},
+																									pos: position{line: 2918, col: 10, offset: 92139},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2912, col: 10, offset: 91925},
+																										pos:        position{line: 2918, col: 10, offset: 92139},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34212,28 +34212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2934, col: 8, offset: 92323},
+																								pos: position{line: 2940, col: 8, offset: 92537},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2921, col: 12, offset: 92096},
+																										pos: position{line: 2927, col: 12, offset: 92310},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2921, col: 13, offset: 92097},
+																											pos: position{line: 2927, col: 13, offset: 92311},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 13, offset: 92097},
+																													pos:        position{line: 2927, col: 13, offset: 92311},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 20, offset: 92104},
+																													pos:        position{line: 2927, col: 20, offset: 92318},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2921, col: 29, offset: 92113},
+																													pos:        position{line: 2927, col: 29, offset: 92327},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34242,9 +34242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2931, col: 8, offset: 92273},
+																										pos: position{line: 2937, col: 8, offset: 92487},
 																										expr: &anyMatcher{
-																											line: 2931, col: 9, offset: 92274,
+																											line: 2937, col: 9, offset: 92488,
 																										},
 																									},
 																								},
@@ -34253,39 +34253,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1012, col: 5, offset: 31479},
+																		pos:   position{line: 1018, col: 5, offset: 31693},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 814, col: 5, offset: 26286},
+																			pos: position{line: 820, col: 5, offset: 26500},
 																			run: (*parser).callonListContinuationElement969,
 																			expr: &seqExpr{
-																				pos: position{line: 814, col: 5, offset: 26286},
+																				pos: position{line: 820, col: 5, offset: 26500},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2929, col: 11, offset: 92259},
+																						pos: position{line: 2935, col: 11, offset: 92473},
 																						expr: &anyMatcher{
-																							line: 2929, col: 13, offset: 92261,
+																							line: 2935, col: 13, offset: 92475,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 815, col: 5, offset: 26361},
+																						pos:   position{line: 821, col: 5, offset: 26575},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2858, col: 13, offset: 90451},
+																							pos: position{line: 2864, col: 13, offset: 90665},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2858, col: 13, offset: 90451},
+																								pos: position{line: 2864, col: 13, offset: 90665},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2858, col: 13, offset: 90451},
+																									pos:        position{line: 2864, col: 13, offset: 90665},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34295,28 +34295,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2934, col: 8, offset: 92323},
+																						pos: position{line: 2940, col: 8, offset: 92537},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2921, col: 12, offset: 92096},
+																								pos: position{line: 2927, col: 12, offset: 92310},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2921, col: 13, offset: 92097},
+																									pos: position{line: 2927, col: 13, offset: 92311},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 13, offset: 92097},
+																											pos:        position{line: 2927, col: 13, offset: 92311},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 20, offset: 92104},
+																											pos:        position{line: 2927, col: 20, offset: 92318},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 29, offset: 92113},
+																											pos:        position{line: 2927, col: 29, offset: 92327},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34325,9 +34325,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2931, col: 8, offset: 92273},
+																								pos: position{line: 2937, col: 8, offset: 92487},
 																								expr: &anyMatcher{
-																									line: 2931, col: 9, offset: 92274,
+																									line: 2937, col: 9, offset: 92488,
 																								},
 																							},
 																						},
@@ -34342,27 +34342,27 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1002, col: 5, offset: 31214},
+													pos:   position{line: 1008, col: 5, offset: 31428},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1002, col: 9, offset: 31218},
+														pos: position{line: 1008, col: 9, offset: 31432},
 														expr: &choiceExpr{
-															pos: position{line: 1008, col: 26, offset: 31400},
+															pos: position{line: 1014, col: 26, offset: 31614},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 779, col: 5, offset: 25059},
+																	pos: position{line: 785, col: 5, offset: 25273},
 																	run: (*parser).callonListContinuationElement988,
 																	expr: &seqExpr{
-																		pos: position{line: 779, col: 5, offset: 25059},
+																		pos: position{line: 785, col: 5, offset: 25273},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 779, col: 5, offset: 25059},
+																				pos:   position{line: 785, col: 5, offset: 25273},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 779, col: 16, offset: 25070},
+																					pos: position{line: 785, col: 16, offset: 25284},
 																					run: (*parser).callonListContinuationElement991,
 																					expr: &litMatcher{
-																						pos:        position{line: 779, col: 16, offset: 25070},
+																						pos:        position{line: 785, col: 16, offset: 25284},
 																						val:        "--",
 																						ignoreCase: false,
 																						want:       "\"--\"",
@@ -34370,12 +34370,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 781, col: 8, offset: 25147},
+																				pos: position{line: 787, col: 8, offset: 25361},
 																				expr: &actionExpr{
-																					pos: position{line: 2912, col: 10, offset: 91925},
+																					pos: position{line: 2918, col: 10, offset: 92139},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2912, col: 10, offset: 91925},
+																						pos:        position{line: 2918, col: 10, offset: 92139},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34384,28 +34384,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2934, col: 8, offset: 92323},
+																				pos: position{line: 2940, col: 8, offset: 92537},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2921, col: 12, offset: 92096},
+																						pos: position{line: 2927, col: 12, offset: 92310},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2921, col: 13, offset: 92097},
+																							pos: position{line: 2927, col: 13, offset: 92311},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2921, col: 13, offset: 92097},
+																									pos:        position{line: 2927, col: 13, offset: 92311},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2921, col: 20, offset: 92104},
+																									pos:        position{line: 2927, col: 20, offset: 92318},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2921, col: 29, offset: 92113},
+																									pos:        position{line: 2927, col: 29, offset: 92327},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34414,9 +34414,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2931, col: 8, offset: 92273},
+																						pos: position{line: 2937, col: 8, offset: 92487},
 																						expr: &anyMatcher{
-																							line: 2931, col: 9, offset: 92274,
+																							line: 2937, col: 9, offset: 92488,
 																						},
 																					},
 																				},
@@ -34425,9 +34425,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2931, col: 8, offset: 92273},
+																	pos: position{line: 2937, col: 8, offset: 92487},
 																	expr: &anyMatcher{
-																		line: 2931, col: 9, offset: 92274,
+																		line: 2937, col: 9, offset: 92488,
 																	},
 																},
 															},
@@ -34438,39 +34438,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1020, col: 5, offset: 31642},
+										pos: position{line: 1026, col: 5, offset: 31856},
 										run: (*parser).callonListContinuationElement1006,
 										expr: &seqExpr{
-											pos: position{line: 1020, col: 5, offset: 31642},
+											pos: position{line: 1026, col: 5, offset: 31856},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1020, col: 5, offset: 31642},
+													pos:   position{line: 1026, col: 5, offset: 31856},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 793, col: 5, offset: 25542},
+														pos: position{line: 799, col: 5, offset: 25756},
 														run: (*parser).callonListContinuationElement1009,
 														expr: &seqExpr{
-															pos: position{line: 793, col: 5, offset: 25542},
+															pos: position{line: 799, col: 5, offset: 25756},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 793, col: 5, offset: 25542},
+																	pos:   position{line: 799, col: 5, offset: 25756},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 793, col: 16, offset: 25553},
+																		pos: position{line: 799, col: 16, offset: 25767},
 																		run: (*parser).callonListContinuationElement1012,
 																		expr: &seqExpr{
-																			pos: position{line: 793, col: 16, offset: 25553},
+																			pos: position{line: 799, col: 16, offset: 25767},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 793, col: 16, offset: 25553},
+																					pos:        position{line: 799, col: 16, offset: 25767},
 																					val:        "++++",
 																					ignoreCase: false,
 																					want:       "\"++++\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 793, col: 23, offset: 25560},
+																					pos: position{line: 799, col: 23, offset: 25774},
 																					expr: &litMatcher{
-																						pos:        position{line: 793, col: 23, offset: 25560},
+																						pos:        position{line: 799, col: 23, offset: 25774},
 																						val:        "+",
 																						ignoreCase: false,
 																						want:       "\"+\"",
@@ -34481,12 +34481,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 795, col: 8, offset: 25644},
+																	pos: position{line: 801, col: 8, offset: 25858},
 																	expr: &actionExpr{
-																		pos: position{line: 2912, col: 10, offset: 91925},
+																		pos: position{line: 2918, col: 10, offset: 92139},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2912, col: 10, offset: 91925},
+																			pos:        position{line: 2918, col: 10, offset: 92139},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34495,28 +34495,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2934, col: 8, offset: 92323},
+																	pos: position{line: 2940, col: 8, offset: 92537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2921, col: 12, offset: 92096},
+																			pos: position{line: 2927, col: 12, offset: 92310},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2921, col: 13, offset: 92097},
+																				pos: position{line: 2927, col: 13, offset: 92311},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 13, offset: 92097},
+																						pos:        position{line: 2927, col: 13, offset: 92311},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 20, offset: 92104},
+																						pos:        position{line: 2927, col: 20, offset: 92318},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 29, offset: 92113},
+																						pos:        position{line: 2927, col: 29, offset: 92327},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34525,9 +34525,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2931, col: 8, offset: 92273},
+																			pos: position{line: 2937, col: 8, offset: 92487},
 																			expr: &anyMatcher{
-																				line: 2931, col: 9, offset: 92274,
+																				line: 2937, col: 9, offset: 92488,
 																			},
 																		},
 																	},
@@ -34537,56 +34537,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1021, col: 5, offset: 31685},
+													pos: position{line: 1027, col: 5, offset: 31899},
 													run: (*parser).callonListContinuationElement1028,
 												},
 												&labeledExpr{
-													pos:   position{line: 1024, col: 5, offset: 31777},
+													pos:   position{line: 1030, col: 5, offset: 31991},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1039, col: 5, offset: 32207},
+														pos: position{line: 1045, col: 5, offset: 32421},
 														expr: &actionExpr{
-															pos: position{line: 1039, col: 6, offset: 32208},
+															pos: position{line: 1045, col: 6, offset: 32422},
 															run: (*parser).callonListContinuationElement1031,
 															expr: &seqExpr{
-																pos: position{line: 1039, col: 6, offset: 32208},
+																pos: position{line: 1045, col: 6, offset: 32422},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1039, col: 6, offset: 32208},
+																		pos: position{line: 1045, col: 6, offset: 32422},
 																		expr: &choiceExpr{
-																			pos: position{line: 1032, col: 5, offset: 32041},
+																			pos: position{line: 1038, col: 5, offset: 32255},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1032, col: 5, offset: 32041},
+																					pos: position{line: 1038, col: 5, offset: 32255},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1032, col: 5, offset: 32041},
+																							pos:   position{line: 1038, col: 5, offset: 32255},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 793, col: 5, offset: 25542},
+																								pos: position{line: 799, col: 5, offset: 25756},
 																								run: (*parser).callonListContinuationElement1037,
 																								expr: &seqExpr{
-																									pos: position{line: 793, col: 5, offset: 25542},
+																									pos: position{line: 799, col: 5, offset: 25756},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 793, col: 5, offset: 25542},
+																											pos:   position{line: 799, col: 5, offset: 25756},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 793, col: 16, offset: 25553},
+																												pos: position{line: 799, col: 16, offset: 25767},
 																												run: (*parser).callonListContinuationElement1040,
 																												expr: &seqExpr{
-																													pos: position{line: 793, col: 16, offset: 25553},
+																													pos: position{line: 799, col: 16, offset: 25767},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 793, col: 16, offset: 25553},
+																															pos:        position{line: 799, col: 16, offset: 25767},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 793, col: 23, offset: 25560},
+																															pos: position{line: 799, col: 23, offset: 25774},
 																															expr: &litMatcher{
-																																pos:        position{line: 793, col: 23, offset: 25560},
+																																pos:        position{line: 799, col: 23, offset: 25774},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -34597,12 +34597,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 795, col: 8, offset: 25644},
+																											pos: position{line: 801, col: 8, offset: 25858},
 																											expr: &actionExpr{
-																												pos: position{line: 2912, col: 10, offset: 91925},
+																												pos: position{line: 2918, col: 10, offset: 92139},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2912, col: 10, offset: 91925},
+																													pos:        position{line: 2918, col: 10, offset: 92139},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34611,28 +34611,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2934, col: 8, offset: 92323},
+																											pos: position{line: 2940, col: 8, offset: 92537},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2921, col: 12, offset: 92096},
+																													pos: position{line: 2927, col: 12, offset: 92310},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2921, col: 13, offset: 92097},
+																														pos: position{line: 2927, col: 13, offset: 92311},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 13, offset: 92097},
+																																pos:        position{line: 2927, col: 13, offset: 92311},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 20, offset: 92104},
+																																pos:        position{line: 2927, col: 20, offset: 92318},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 29, offset: 92113},
+																																pos:        position{line: 2927, col: 29, offset: 92327},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34641,9 +34641,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2931, col: 8, offset: 92273},
+																													pos: position{line: 2937, col: 8, offset: 92487},
 																													expr: &anyMatcher{
-																														line: 2931, col: 9, offset: 92274,
+																														line: 2937, col: 9, offset: 92488,
 																													},
 																												},
 																											},
@@ -34653,45 +34653,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1033, col: 5, offset: 32076},
+																							pos: position{line: 1039, col: 5, offset: 32290},
 																							run: (*parser).callonListContinuationElement1056,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1040, col: 5, offset: 32242},
+																		pos:   position{line: 1046, col: 5, offset: 32456},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 814, col: 5, offset: 26286},
+																			pos: position{line: 820, col: 5, offset: 26500},
 																			run: (*parser).callonListContinuationElement1060,
 																			expr: &seqExpr{
-																				pos: position{line: 814, col: 5, offset: 26286},
+																				pos: position{line: 820, col: 5, offset: 26500},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2929, col: 11, offset: 92259},
+																						pos: position{line: 2935, col: 11, offset: 92473},
 																						expr: &anyMatcher{
-																							line: 2929, col: 13, offset: 92261,
+																							line: 2935, col: 13, offset: 92475,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 815, col: 5, offset: 26361},
+																						pos:   position{line: 821, col: 5, offset: 26575},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2858, col: 13, offset: 90451},
+																							pos: position{line: 2864, col: 13, offset: 90665},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2858, col: 13, offset: 90451},
+																								pos: position{line: 2864, col: 13, offset: 90665},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2858, col: 13, offset: 90451},
+																									pos:        position{line: 2864, col: 13, offset: 90665},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34701,28 +34701,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2934, col: 8, offset: 92323},
+																						pos: position{line: 2940, col: 8, offset: 92537},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2921, col: 12, offset: 92096},
+																								pos: position{line: 2927, col: 12, offset: 92310},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2921, col: 13, offset: 92097},
+																									pos: position{line: 2927, col: 13, offset: 92311},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 13, offset: 92097},
+																											pos:        position{line: 2927, col: 13, offset: 92311},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 20, offset: 92104},
+																											pos:        position{line: 2927, col: 20, offset: 92318},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 29, offset: 92113},
+																											pos:        position{line: 2927, col: 29, offset: 92327},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34731,9 +34731,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2931, col: 8, offset: 92273},
+																								pos: position{line: 2937, col: 8, offset: 92487},
 																								expr: &anyMatcher{
-																									line: 2931, col: 9, offset: 92274,
+																									line: 2937, col: 9, offset: 92488,
 																								},
 																							},
 																						},
@@ -34748,44 +34748,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1025, col: 5, offset: 31815},
+													pos:   position{line: 1031, col: 5, offset: 32029},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1025, col: 9, offset: 31819},
+														pos: position{line: 1031, col: 9, offset: 32033},
 														expr: &choiceExpr{
-															pos: position{line: 1032, col: 5, offset: 32041},
+															pos: position{line: 1038, col: 5, offset: 32255},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1032, col: 5, offset: 32041},
+																	pos: position{line: 1038, col: 5, offset: 32255},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1032, col: 5, offset: 32041},
+																			pos:   position{line: 1038, col: 5, offset: 32255},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 793, col: 5, offset: 25542},
+																				pos: position{line: 799, col: 5, offset: 25756},
 																				run: (*parser).callonListContinuationElement1081,
 																				expr: &seqExpr{
-																					pos: position{line: 793, col: 5, offset: 25542},
+																					pos: position{line: 799, col: 5, offset: 25756},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 793, col: 5, offset: 25542},
+																							pos:   position{line: 799, col: 5, offset: 25756},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 793, col: 16, offset: 25553},
+																								pos: position{line: 799, col: 16, offset: 25767},
 																								run: (*parser).callonListContinuationElement1084,
 																								expr: &seqExpr{
-																									pos: position{line: 793, col: 16, offset: 25553},
+																									pos: position{line: 799, col: 16, offset: 25767},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 793, col: 16, offset: 25553},
+																											pos:        position{line: 799, col: 16, offset: 25767},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 793, col: 23, offset: 25560},
+																											pos: position{line: 799, col: 23, offset: 25774},
 																											expr: &litMatcher{
-																												pos:        position{line: 793, col: 23, offset: 25560},
+																												pos:        position{line: 799, col: 23, offset: 25774},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -34796,12 +34796,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 795, col: 8, offset: 25644},
+																							pos: position{line: 801, col: 8, offset: 25858},
 																							expr: &actionExpr{
-																								pos: position{line: 2912, col: 10, offset: 91925},
+																								pos: position{line: 2918, col: 10, offset: 92139},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2912, col: 10, offset: 91925},
+																									pos:        position{line: 2918, col: 10, offset: 92139},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34810,28 +34810,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34840,9 +34840,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -34852,15 +34852,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1033, col: 5, offset: 32076},
+																			pos: position{line: 1039, col: 5, offset: 32290},
 																			run: (*parser).callonListContinuationElement1100,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2931, col: 8, offset: 92273},
+																	pos: position{line: 2937, col: 8, offset: 92487},
 																	expr: &anyMatcher{
-																		line: 2931, col: 9, offset: 92274,
+																		line: 2937, col: 9, offset: 92488,
 																	},
 																},
 															},
@@ -34871,39 +34871,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1048, col: 5, offset: 32393},
+										pos: position{line: 1054, col: 5, offset: 32607},
 										run: (*parser).callonListContinuationElement1103,
 										expr: &seqExpr{
-											pos: position{line: 1048, col: 5, offset: 32393},
+											pos: position{line: 1054, col: 5, offset: 32607},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1048, col: 5, offset: 32393},
+													pos:   position{line: 1054, col: 5, offset: 32607},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 800, col: 5, offset: 25792},
+														pos: position{line: 806, col: 5, offset: 26006},
 														run: (*parser).callonListContinuationElement1106,
 														expr: &seqExpr{
-															pos: position{line: 800, col: 5, offset: 25792},
+															pos: position{line: 806, col: 5, offset: 26006},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 800, col: 5, offset: 25792},
+																	pos:   position{line: 806, col: 5, offset: 26006},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 800, col: 16, offset: 25803},
+																		pos: position{line: 806, col: 16, offset: 26017},
 																		run: (*parser).callonListContinuationElement1109,
 																		expr: &seqExpr{
-																			pos: position{line: 800, col: 16, offset: 25803},
+																			pos: position{line: 806, col: 16, offset: 26017},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 800, col: 16, offset: 25803},
+																					pos:        position{line: 806, col: 16, offset: 26017},
 																					val:        "____",
 																					ignoreCase: false,
 																					want:       "\"____\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 800, col: 23, offset: 25810},
+																					pos: position{line: 806, col: 23, offset: 26024},
 																					expr: &litMatcher{
-																						pos:        position{line: 800, col: 23, offset: 25810},
+																						pos:        position{line: 806, col: 23, offset: 26024},
 																						val:        "_",
 																						ignoreCase: false,
 																						want:       "\"_\"",
@@ -34914,12 +34914,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 802, col: 8, offset: 25894},
+																	pos: position{line: 808, col: 8, offset: 26108},
 																	expr: &actionExpr{
-																		pos: position{line: 2912, col: 10, offset: 91925},
+																		pos: position{line: 2918, col: 10, offset: 92139},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2912, col: 10, offset: 91925},
+																			pos:        position{line: 2918, col: 10, offset: 92139},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34928,28 +34928,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2934, col: 8, offset: 92323},
+																	pos: position{line: 2940, col: 8, offset: 92537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2921, col: 12, offset: 92096},
+																			pos: position{line: 2927, col: 12, offset: 92310},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2921, col: 13, offset: 92097},
+																				pos: position{line: 2927, col: 13, offset: 92311},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 13, offset: 92097},
+																						pos:        position{line: 2927, col: 13, offset: 92311},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 20, offset: 92104},
+																						pos:        position{line: 2927, col: 20, offset: 92318},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 29, offset: 92113},
+																						pos:        position{line: 2927, col: 29, offset: 92327},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34958,9 +34958,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2931, col: 8, offset: 92273},
+																			pos: position{line: 2937, col: 8, offset: 92487},
 																			expr: &anyMatcher{
-																				line: 2931, col: 9, offset: 92274,
+																				line: 2937, col: 9, offset: 92488,
 																			},
 																		},
 																	},
@@ -34970,56 +34970,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1049, col: 5, offset: 32430},
+													pos: position{line: 1055, col: 5, offset: 32644},
 													run: (*parser).callonListContinuationElement1125,
 												},
 												&labeledExpr{
-													pos:   position{line: 1052, col: 5, offset: 32522},
+													pos:   position{line: 1058, col: 5, offset: 32736},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1067, col: 4, offset: 32903},
+														pos: position{line: 1073, col: 4, offset: 33117},
 														expr: &actionExpr{
-															pos: position{line: 1067, col: 5, offset: 32904},
+															pos: position{line: 1073, col: 5, offset: 33118},
 															run: (*parser).callonListContinuationElement1128,
 															expr: &seqExpr{
-																pos: position{line: 1067, col: 5, offset: 32904},
+																pos: position{line: 1073, col: 5, offset: 33118},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1067, col: 5, offset: 32904},
+																		pos: position{line: 1073, col: 5, offset: 33118},
 																		expr: &choiceExpr{
-																			pos: position{line: 1060, col: 5, offset: 32750},
+																			pos: position{line: 1066, col: 5, offset: 32964},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1060, col: 5, offset: 32750},
+																					pos: position{line: 1066, col: 5, offset: 32964},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1060, col: 5, offset: 32750},
+																							pos:   position{line: 1066, col: 5, offset: 32964},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 800, col: 5, offset: 25792},
+																								pos: position{line: 806, col: 5, offset: 26006},
 																								run: (*parser).callonListContinuationElement1134,
 																								expr: &seqExpr{
-																									pos: position{line: 800, col: 5, offset: 25792},
+																									pos: position{line: 806, col: 5, offset: 26006},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 800, col: 5, offset: 25792},
+																											pos:   position{line: 806, col: 5, offset: 26006},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 800, col: 16, offset: 25803},
+																												pos: position{line: 806, col: 16, offset: 26017},
 																												run: (*parser).callonListContinuationElement1137,
 																												expr: &seqExpr{
-																													pos: position{line: 800, col: 16, offset: 25803},
+																													pos: position{line: 806, col: 16, offset: 26017},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 800, col: 16, offset: 25803},
+																															pos:        position{line: 806, col: 16, offset: 26017},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 800, col: 23, offset: 25810},
+																															pos: position{line: 806, col: 23, offset: 26024},
 																															expr: &litMatcher{
-																																pos:        position{line: 800, col: 23, offset: 25810},
+																																pos:        position{line: 806, col: 23, offset: 26024},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -35030,12 +35030,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 802, col: 8, offset: 25894},
+																											pos: position{line: 808, col: 8, offset: 26108},
 																											expr: &actionExpr{
-																												pos: position{line: 2912, col: 10, offset: 91925},
+																												pos: position{line: 2918, col: 10, offset: 92139},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2912, col: 10, offset: 91925},
+																													pos:        position{line: 2918, col: 10, offset: 92139},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35044,28 +35044,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2934, col: 8, offset: 92323},
+																											pos: position{line: 2940, col: 8, offset: 92537},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2921, col: 12, offset: 92096},
+																													pos: position{line: 2927, col: 12, offset: 92310},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2921, col: 13, offset: 92097},
+																														pos: position{line: 2927, col: 13, offset: 92311},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 13, offset: 92097},
+																																pos:        position{line: 2927, col: 13, offset: 92311},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 20, offset: 92104},
+																																pos:        position{line: 2927, col: 20, offset: 92318},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 29, offset: 92113},
+																																pos:        position{line: 2927, col: 29, offset: 92327},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35074,9 +35074,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2931, col: 8, offset: 92273},
+																													pos: position{line: 2937, col: 8, offset: 92487},
 																													expr: &anyMatcher{
-																														line: 2931, col: 9, offset: 92274,
+																														line: 2937, col: 9, offset: 92488,
 																													},
 																												},
 																											},
@@ -35086,45 +35086,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1061, col: 5, offset: 32779},
+																							pos: position{line: 1067, col: 5, offset: 32993},
 																							run: (*parser).callonListContinuationElement1153,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1068, col: 5, offset: 32932},
+																		pos:   position{line: 1074, col: 5, offset: 33146},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 814, col: 5, offset: 26286},
+																			pos: position{line: 820, col: 5, offset: 26500},
 																			run: (*parser).callonListContinuationElement1157,
 																			expr: &seqExpr{
-																				pos: position{line: 814, col: 5, offset: 26286},
+																				pos: position{line: 820, col: 5, offset: 26500},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2929, col: 11, offset: 92259},
+																						pos: position{line: 2935, col: 11, offset: 92473},
 																						expr: &anyMatcher{
-																							line: 2929, col: 13, offset: 92261,
+																							line: 2935, col: 13, offset: 92475,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 815, col: 5, offset: 26361},
+																						pos:   position{line: 821, col: 5, offset: 26575},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2858, col: 13, offset: 90451},
+																							pos: position{line: 2864, col: 13, offset: 90665},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2858, col: 13, offset: 90451},
+																								pos: position{line: 2864, col: 13, offset: 90665},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2858, col: 13, offset: 90451},
+																									pos:        position{line: 2864, col: 13, offset: 90665},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35134,28 +35134,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2934, col: 8, offset: 92323},
+																						pos: position{line: 2940, col: 8, offset: 92537},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2921, col: 12, offset: 92096},
+																								pos: position{line: 2927, col: 12, offset: 92310},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2921, col: 13, offset: 92097},
+																									pos: position{line: 2927, col: 13, offset: 92311},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 13, offset: 92097},
+																											pos:        position{line: 2927, col: 13, offset: 92311},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 20, offset: 92104},
+																											pos:        position{line: 2927, col: 20, offset: 92318},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 29, offset: 92113},
+																											pos:        position{line: 2927, col: 29, offset: 92327},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35164,9 +35164,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2931, col: 8, offset: 92273},
+																								pos: position{line: 2937, col: 8, offset: 92487},
 																								expr: &anyMatcher{
-																									line: 2931, col: 9, offset: 92274,
+																									line: 2937, col: 9, offset: 92488,
 																								},
 																							},
 																						},
@@ -35181,44 +35181,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1053, col: 5, offset: 32554},
+													pos:   position{line: 1059, col: 5, offset: 32768},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1053, col: 9, offset: 32558},
+														pos: position{line: 1059, col: 9, offset: 32772},
 														expr: &choiceExpr{
-															pos: position{line: 1060, col: 5, offset: 32750},
+															pos: position{line: 1066, col: 5, offset: 32964},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1060, col: 5, offset: 32750},
+																	pos: position{line: 1066, col: 5, offset: 32964},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1060, col: 5, offset: 32750},
+																			pos:   position{line: 1066, col: 5, offset: 32964},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 800, col: 5, offset: 25792},
+																				pos: position{line: 806, col: 5, offset: 26006},
 																				run: (*parser).callonListContinuationElement1178,
 																				expr: &seqExpr{
-																					pos: position{line: 800, col: 5, offset: 25792},
+																					pos: position{line: 806, col: 5, offset: 26006},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 800, col: 5, offset: 25792},
+																							pos:   position{line: 806, col: 5, offset: 26006},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 800, col: 16, offset: 25803},
+																								pos: position{line: 806, col: 16, offset: 26017},
 																								run: (*parser).callonListContinuationElement1181,
 																								expr: &seqExpr{
-																									pos: position{line: 800, col: 16, offset: 25803},
+																									pos: position{line: 806, col: 16, offset: 26017},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 800, col: 16, offset: 25803},
+																											pos:        position{line: 806, col: 16, offset: 26017},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 800, col: 23, offset: 25810},
+																											pos: position{line: 806, col: 23, offset: 26024},
 																											expr: &litMatcher{
-																												pos:        position{line: 800, col: 23, offset: 25810},
+																												pos:        position{line: 806, col: 23, offset: 26024},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -35229,12 +35229,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 802, col: 8, offset: 25894},
+																							pos: position{line: 808, col: 8, offset: 26108},
 																							expr: &actionExpr{
-																								pos: position{line: 2912, col: 10, offset: 91925},
+																								pos: position{line: 2918, col: 10, offset: 92139},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2912, col: 10, offset: 91925},
+																									pos:        position{line: 2918, col: 10, offset: 92139},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35243,28 +35243,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35273,9 +35273,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -35285,15 +35285,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1061, col: 5, offset: 32779},
+																			pos: position{line: 1067, col: 5, offset: 32993},
 																			run: (*parser).callonListContinuationElement1197,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2931, col: 8, offset: 92273},
+																	pos: position{line: 2937, col: 8, offset: 92487},
 																	expr: &anyMatcher{
-																		line: 2931, col: 9, offset: 92274,
+																		line: 2937, col: 9, offset: 92488,
 																	},
 																},
 															},
@@ -35304,39 +35304,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1076, col: 5, offset: 33087},
+										pos: position{line: 1082, col: 5, offset: 33301},
 										run: (*parser).callonListContinuationElement1200,
 										expr: &seqExpr{
-											pos: position{line: 1076, col: 5, offset: 33087},
+											pos: position{line: 1082, col: 5, offset: 33301},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1076, col: 5, offset: 33087},
+													pos:   position{line: 1082, col: 5, offset: 33301},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 807, col: 5, offset: 26038},
+														pos: position{line: 813, col: 5, offset: 26252},
 														run: (*parser).callonListContinuationElement1203,
 														expr: &seqExpr{
-															pos: position{line: 807, col: 5, offset: 26038},
+															pos: position{line: 813, col: 5, offset: 26252},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 807, col: 5, offset: 26038},
+																	pos:   position{line: 813, col: 5, offset: 26252},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 807, col: 16, offset: 26049},
+																		pos: position{line: 813, col: 16, offset: 26263},
 																		run: (*parser).callonListContinuationElement1206,
 																		expr: &seqExpr{
-																			pos: position{line: 807, col: 16, offset: 26049},
+																			pos: position{line: 813, col: 16, offset: 26263},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 807, col: 16, offset: 26049},
+																					pos:        position{line: 813, col: 16, offset: 26263},
 																					val:        "****",
 																					ignoreCase: false,
 																					want:       "\"****\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 807, col: 23, offset: 26056},
+																					pos: position{line: 813, col: 23, offset: 26270},
 																					expr: &litMatcher{
-																						pos:        position{line: 807, col: 23, offset: 26056},
+																						pos:        position{line: 813, col: 23, offset: 26270},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -35347,12 +35347,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 809, col: 8, offset: 26140},
+																	pos: position{line: 815, col: 8, offset: 26354},
 																	expr: &actionExpr{
-																		pos: position{line: 2912, col: 10, offset: 91925},
+																		pos: position{line: 2918, col: 10, offset: 92139},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2912, col: 10, offset: 91925},
+																			pos:        position{line: 2918, col: 10, offset: 92139},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35361,28 +35361,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2934, col: 8, offset: 92323},
+																	pos: position{line: 2940, col: 8, offset: 92537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2921, col: 12, offset: 92096},
+																			pos: position{line: 2927, col: 12, offset: 92310},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2921, col: 13, offset: 92097},
+																				pos: position{line: 2927, col: 13, offset: 92311},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 13, offset: 92097},
+																						pos:        position{line: 2927, col: 13, offset: 92311},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 20, offset: 92104},
+																						pos:        position{line: 2927, col: 20, offset: 92318},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 29, offset: 92113},
+																						pos:        position{line: 2927, col: 29, offset: 92327},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35391,9 +35391,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2931, col: 8, offset: 92273},
+																			pos: position{line: 2937, col: 8, offset: 92487},
 																			expr: &anyMatcher{
-																				line: 2931, col: 9, offset: 92274,
+																				line: 2937, col: 9, offset: 92488,
 																			},
 																		},
 																	},
@@ -35403,56 +35403,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1077, col: 5, offset: 33126},
+													pos: position{line: 1083, col: 5, offset: 33340},
 													run: (*parser).callonListContinuationElement1222,
 												},
 												&labeledExpr{
-													pos:   position{line: 1080, col: 5, offset: 33218},
+													pos:   position{line: 1086, col: 5, offset: 33432},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1095, col: 4, offset: 33615},
+														pos: position{line: 1101, col: 4, offset: 33829},
 														expr: &actionExpr{
-															pos: position{line: 1095, col: 5, offset: 33616},
+															pos: position{line: 1101, col: 5, offset: 33830},
 															run: (*parser).callonListContinuationElement1225,
 															expr: &seqExpr{
-																pos: position{line: 1095, col: 5, offset: 33616},
+																pos: position{line: 1101, col: 5, offset: 33830},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1095, col: 5, offset: 33616},
+																		pos: position{line: 1101, col: 5, offset: 33830},
 																		expr: &choiceExpr{
-																			pos: position{line: 1088, col: 5, offset: 33458},
+																			pos: position{line: 1094, col: 5, offset: 33672},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1088, col: 5, offset: 33458},
+																					pos: position{line: 1094, col: 5, offset: 33672},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1088, col: 5, offset: 33458},
+																							pos:   position{line: 1094, col: 5, offset: 33672},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 807, col: 5, offset: 26038},
+																								pos: position{line: 813, col: 5, offset: 26252},
 																								run: (*parser).callonListContinuationElement1231,
 																								expr: &seqExpr{
-																									pos: position{line: 807, col: 5, offset: 26038},
+																									pos: position{line: 813, col: 5, offset: 26252},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 807, col: 5, offset: 26038},
+																											pos:   position{line: 813, col: 5, offset: 26252},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 807, col: 16, offset: 26049},
+																												pos: position{line: 813, col: 16, offset: 26263},
 																												run: (*parser).callonListContinuationElement1234,
 																												expr: &seqExpr{
-																													pos: position{line: 807, col: 16, offset: 26049},
+																													pos: position{line: 813, col: 16, offset: 26263},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 807, col: 16, offset: 26049},
+																															pos:        position{line: 813, col: 16, offset: 26263},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 807, col: 23, offset: 26056},
+																															pos: position{line: 813, col: 23, offset: 26270},
 																															expr: &litMatcher{
-																																pos:        position{line: 807, col: 23, offset: 26056},
+																																pos:        position{line: 813, col: 23, offset: 26270},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -35463,12 +35463,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 809, col: 8, offset: 26140},
+																											pos: position{line: 815, col: 8, offset: 26354},
 																											expr: &actionExpr{
-																												pos: position{line: 2912, col: 10, offset: 91925},
+																												pos: position{line: 2918, col: 10, offset: 92139},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2912, col: 10, offset: 91925},
+																													pos:        position{line: 2918, col: 10, offset: 92139},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35477,28 +35477,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2934, col: 8, offset: 92323},
+																											pos: position{line: 2940, col: 8, offset: 92537},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2921, col: 12, offset: 92096},
+																													pos: position{line: 2927, col: 12, offset: 92310},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2921, col: 13, offset: 92097},
+																														pos: position{line: 2927, col: 13, offset: 92311},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 13, offset: 92097},
+																																pos:        position{line: 2927, col: 13, offset: 92311},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 20, offset: 92104},
+																																pos:        position{line: 2927, col: 20, offset: 92318},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 29, offset: 92113},
+																																pos:        position{line: 2927, col: 29, offset: 92327},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35507,9 +35507,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2931, col: 8, offset: 92273},
+																													pos: position{line: 2937, col: 8, offset: 92487},
 																													expr: &anyMatcher{
-																														line: 2931, col: 9, offset: 92274,
+																														line: 2937, col: 9, offset: 92488,
 																													},
 																												},
 																											},
@@ -35519,45 +35519,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1089, col: 5, offset: 33489},
+																							pos: position{line: 1095, col: 5, offset: 33703},
 																							run: (*parser).callonListContinuationElement1250,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1096, col: 5, offset: 33646},
+																		pos:   position{line: 1102, col: 5, offset: 33860},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 814, col: 5, offset: 26286},
+																			pos: position{line: 820, col: 5, offset: 26500},
 																			run: (*parser).callonListContinuationElement1254,
 																			expr: &seqExpr{
-																				pos: position{line: 814, col: 5, offset: 26286},
+																				pos: position{line: 820, col: 5, offset: 26500},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2929, col: 11, offset: 92259},
+																						pos: position{line: 2935, col: 11, offset: 92473},
 																						expr: &anyMatcher{
-																							line: 2929, col: 13, offset: 92261,
+																							line: 2935, col: 13, offset: 92475,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 815, col: 5, offset: 26361},
+																						pos:   position{line: 821, col: 5, offset: 26575},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2858, col: 13, offset: 90451},
+																							pos: position{line: 2864, col: 13, offset: 90665},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2858, col: 13, offset: 90451},
+																								pos: position{line: 2864, col: 13, offset: 90665},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2858, col: 13, offset: 90451},
+																									pos:        position{line: 2864, col: 13, offset: 90665},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35567,28 +35567,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2934, col: 8, offset: 92323},
+																						pos: position{line: 2940, col: 8, offset: 92537},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2921, col: 12, offset: 92096},
+																								pos: position{line: 2927, col: 12, offset: 92310},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2921, col: 13, offset: 92097},
+																									pos: position{line: 2927, col: 13, offset: 92311},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 13, offset: 92097},
+																											pos:        position{line: 2927, col: 13, offset: 92311},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 20, offset: 92104},
+																											pos:        position{line: 2927, col: 20, offset: 92318},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 29, offset: 92113},
+																											pos:        position{line: 2927, col: 29, offset: 92327},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35597,9 +35597,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2931, col: 8, offset: 92273},
+																								pos: position{line: 2937, col: 8, offset: 92487},
 																								expr: &anyMatcher{
-																									line: 2931, col: 9, offset: 92274,
+																									line: 2937, col: 9, offset: 92488,
 																								},
 																							},
 																						},
@@ -35614,44 +35614,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1081, col: 5, offset: 33252},
+													pos:   position{line: 1087, col: 5, offset: 33466},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1081, col: 9, offset: 33256},
+														pos: position{line: 1087, col: 9, offset: 33470},
 														expr: &choiceExpr{
-															pos: position{line: 1088, col: 5, offset: 33458},
+															pos: position{line: 1094, col: 5, offset: 33672},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1088, col: 5, offset: 33458},
+																	pos: position{line: 1094, col: 5, offset: 33672},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1088, col: 5, offset: 33458},
+																			pos:   position{line: 1094, col: 5, offset: 33672},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 807, col: 5, offset: 26038},
+																				pos: position{line: 813, col: 5, offset: 26252},
 																				run: (*parser).callonListContinuationElement1275,
 																				expr: &seqExpr{
-																					pos: position{line: 807, col: 5, offset: 26038},
+																					pos: position{line: 813, col: 5, offset: 26252},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 807, col: 5, offset: 26038},
+																							pos:   position{line: 813, col: 5, offset: 26252},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 807, col: 16, offset: 26049},
+																								pos: position{line: 813, col: 16, offset: 26263},
 																								run: (*parser).callonListContinuationElement1278,
 																								expr: &seqExpr{
-																									pos: position{line: 807, col: 16, offset: 26049},
+																									pos: position{line: 813, col: 16, offset: 26263},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 807, col: 16, offset: 26049},
+																											pos:        position{line: 813, col: 16, offset: 26263},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 807, col: 23, offset: 26056},
+																											pos: position{line: 813, col: 23, offset: 26270},
 																											expr: &litMatcher{
-																												pos:        position{line: 807, col: 23, offset: 26056},
+																												pos:        position{line: 813, col: 23, offset: 26270},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -35662,12 +35662,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 809, col: 8, offset: 26140},
+																							pos: position{line: 815, col: 8, offset: 26354},
 																							expr: &actionExpr{
-																								pos: position{line: 2912, col: 10, offset: 91925},
+																								pos: position{line: 2918, col: 10, offset: 92139},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2912, col: 10, offset: 91925},
+																									pos:        position{line: 2918, col: 10, offset: 92139},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35676,28 +35676,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2934, col: 8, offset: 92323},
+																							pos: position{line: 2940, col: 8, offset: 92537},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2921, col: 12, offset: 92096},
+																									pos: position{line: 2927, col: 12, offset: 92310},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2921, col: 13, offset: 92097},
+																										pos: position{line: 2927, col: 13, offset: 92311},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 13, offset: 92097},
+																												pos:        position{line: 2927, col: 13, offset: 92311},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 20, offset: 92104},
+																												pos:        position{line: 2927, col: 20, offset: 92318},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2921, col: 29, offset: 92113},
+																												pos:        position{line: 2927, col: 29, offset: 92327},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35706,9 +35706,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2931, col: 8, offset: 92273},
+																									pos: position{line: 2937, col: 8, offset: 92487},
 																									expr: &anyMatcher{
-																										line: 2931, col: 9, offset: 92274,
+																										line: 2937, col: 9, offset: 92488,
 																									},
 																								},
 																							},
@@ -35718,15 +35718,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1089, col: 5, offset: 33489},
+																			pos: position{line: 1095, col: 5, offset: 33703},
 																			run: (*parser).callonListContinuationElement1294,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2931, col: 8, offset: 92273},
+																	pos: position{line: 2937, col: 8, offset: 92487},
 																	expr: &anyMatcher{
-																		line: 2931, col: 9, offset: 92274,
+																		line: 2937, col: 9, offset: 92488,
 																	},
 																},
 															},
@@ -35737,52 +35737,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2757, col: 18, offset: 87515},
+										pos: position{line: 2763, col: 18, offset: 87729},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2757, col: 18, offset: 87515},
+											pos: position{line: 2763, col: 18, offset: 87729},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2758, col: 9, offset: 87525},
+													pos: position{line: 2764, col: 9, offset: 87739},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2758, col: 9, offset: 87525},
+															pos:        position{line: 2764, col: 9, offset: 87739},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2759, col: 11, offset: 87561},
+															pos:        position{line: 2765, col: 11, offset: 87775},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2759, col: 19, offset: 87569},
+															pos:        position{line: 2765, col: 19, offset: 87783},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2759, col: 29, offset: 87579},
+															pos:        position{line: 2765, col: 29, offset: 87793},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2759, col: 37, offset: 87587},
+															pos:        position{line: 2765, col: 37, offset: 87801},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2759, col: 47, offset: 87597},
+															pos:        position{line: 2765, col: 47, offset: 87811},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2759, col: 55, offset: 87605},
+															pos:        position{line: 2765, col: 55, offset: 87819},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35790,12 +35790,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2760, col: 11, offset: 87663},
+													pos: position{line: 2766, col: 11, offset: 87877},
 													expr: &actionExpr{
-														pos: position{line: 2912, col: 10, offset: 91925},
+														pos: position{line: 2918, col: 10, offset: 92139},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2912, col: 10, offset: 91925},
+															pos:        position{line: 2918, col: 10, offset: 92139},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35804,28 +35804,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2934, col: 8, offset: 92323},
+													pos: position{line: 2940, col: 8, offset: 92537},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2921, col: 12, offset: 92096},
+															pos: position{line: 2927, col: 12, offset: 92310},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2921, col: 13, offset: 92097},
+																pos: position{line: 2927, col: 13, offset: 92311},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 13, offset: 92097},
+																		pos:        position{line: 2927, col: 13, offset: 92311},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 20, offset: 92104},
+																		pos:        position{line: 2927, col: 20, offset: 92318},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 29, offset: 92113},
+																		pos:        position{line: 2927, col: 29, offset: 92327},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35834,36 +35834,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2931, col: 8, offset: 92273},
+															pos: position{line: 2937, col: 8, offset: 92487},
 															expr: &anyMatcher{
-																line: 2931, col: 9, offset: 92274,
+																line: 2937, col: 9, offset: 92488,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2934, col: 8, offset: 92323},
+													pos: position{line: 2940, col: 8, offset: 92537},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2921, col: 12, offset: 92096},
+															pos: position{line: 2927, col: 12, offset: 92310},
 															run: (*parser).callonListContinuationElement1319,
 															expr: &choiceExpr{
-																pos: position{line: 2921, col: 13, offset: 92097},
+																pos: position{line: 2927, col: 13, offset: 92311},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 13, offset: 92097},
+																		pos:        position{line: 2927, col: 13, offset: 92311},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 20, offset: 92104},
+																		pos:        position{line: 2927, col: 20, offset: 92318},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 29, offset: 92113},
+																		pos:        position{line: 2927, col: 29, offset: 92327},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35872,9 +35872,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2931, col: 8, offset: 92273},
+															pos: position{line: 2937, col: 8, offset: 92487},
 															expr: &anyMatcher{
-																line: 2931, col: 9, offset: 92274,
+																line: 2937, col: 9, offset: 92488,
 															},
 														},
 													},
@@ -35883,28 +35883,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1557, col: 11, offset: 50334},
+										pos:  position{line: 1563, col: 11, offset: 50548},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2641, col: 5, offset: 84272},
+										pos: position{line: 2647, col: 5, offset: 84486},
 										run: (*parser).callonListContinuationElement1327,
 										expr: &seqExpr{
-											pos: position{line: 2641, col: 5, offset: 84272},
+											pos: position{line: 2647, col: 5, offset: 84486},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2647, col: 19, offset: 84449},
+													pos:        position{line: 2653, col: 19, offset: 84663},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2647, col: 26, offset: 84456},
+													pos: position{line: 2653, col: 26, offset: 84670},
 													expr: &actionExpr{
-														pos: position{line: 2912, col: 10, offset: 91925},
+														pos: position{line: 2918, col: 10, offset: 92139},
 														run: (*parser).callonListContinuationElement1331,
 														expr: &charClassMatcher{
-															pos:        position{line: 2912, col: 10, offset: 91925},
+															pos:        position{line: 2918, col: 10, offset: 92139},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35913,28 +35913,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2934, col: 8, offset: 92323},
+													pos: position{line: 2940, col: 8, offset: 92537},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2921, col: 12, offset: 92096},
+															pos: position{line: 2927, col: 12, offset: 92310},
 															run: (*parser).callonListContinuationElement1334,
 															expr: &choiceExpr{
-																pos: position{line: 2921, col: 13, offset: 92097},
+																pos: position{line: 2927, col: 13, offset: 92311},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 13, offset: 92097},
+																		pos:        position{line: 2927, col: 13, offset: 92311},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 20, offset: 92104},
+																		pos:        position{line: 2927, col: 20, offset: 92318},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 29, offset: 92113},
+																		pos:        position{line: 2927, col: 29, offset: 92327},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35943,40 +35943,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2931, col: 8, offset: 92273},
+															pos: position{line: 2937, col: 8, offset: 92487},
 															expr: &anyMatcher{
-																line: 2931, col: 9, offset: 92274,
+																line: 2937, col: 9, offset: 92488,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2642, col: 5, offset: 84296},
+													pos:   position{line: 2648, col: 5, offset: 84510},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2642, col: 11, offset: 84302},
+														pos: position{line: 2648, col: 11, offset: 84516},
 														expr: &choiceExpr{
-															pos: position{line: 2642, col: 12, offset: 84303},
+															pos: position{line: 2648, col: 12, offset: 84517},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 680, col: 14, offset: 21687},
+																	pos: position{line: 686, col: 14, offset: 21901},
 																	run: (*parser).callonListContinuationElement1344,
 																	expr: &seqExpr{
-																		pos: position{line: 680, col: 14, offset: 21687},
+																		pos: position{line: 686, col: 14, offset: 21901},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2929, col: 11, offset: 92259},
+																				pos: position{line: 2935, col: 11, offset: 92473},
 																				expr: &anyMatcher{
-																					line: 2929, col: 13, offset: 92261,
+																					line: 2935, col: 13, offset: 92475,
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 680, col: 21, offset: 21694},
+																				pos: position{line: 686, col: 21, offset: 21908},
 																				expr: &actionExpr{
-																					pos: position{line: 2912, col: 10, offset: 91925},
+																					pos: position{line: 2918, col: 10, offset: 92139},
 																					run: (*parser).callonListContinuationElement1349,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2912, col: 10, offset: 91925},
+																						pos:        position{line: 2918, col: 10, offset: 92139},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35985,28 +35985,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2934, col: 8, offset: 92323},
+																				pos: position{line: 2940, col: 8, offset: 92537},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2921, col: 12, offset: 92096},
+																						pos: position{line: 2927, col: 12, offset: 92310},
 																						run: (*parser).callonListContinuationElement1352,
 																						expr: &choiceExpr{
-																							pos: position{line: 2921, col: 13, offset: 92097},
+																							pos: position{line: 2927, col: 13, offset: 92311},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2921, col: 13, offset: 92097},
+																									pos:        position{line: 2927, col: 13, offset: 92311},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2921, col: 20, offset: 92104},
+																									pos:        position{line: 2927, col: 20, offset: 92318},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2921, col: 29, offset: 92113},
+																									pos:        position{line: 2927, col: 29, offset: 92327},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36015,9 +36015,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2931, col: 8, offset: 92273},
+																						pos: position{line: 2937, col: 8, offset: 92487},
 																						expr: &anyMatcher{
-																							line: 2931, col: 9, offset: 92274,
+																							line: 2937, col: 9, offset: 92488,
 																						},
 																					},
 																				},
@@ -36026,36 +36026,36 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2515, col: 22, offset: 80703},
+																	pos: position{line: 2521, col: 22, offset: 80917},
 																	run: (*parser).callonListContinuationElement1359,
 																	expr: &seqExpr{
-																		pos: position{line: 2515, col: 22, offset: 80703},
+																		pos: position{line: 2521, col: 22, offset: 80917},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2520, col: 31, offset: 80953},
+																				pos:        position{line: 2526, col: 31, offset: 81167},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2520, col: 36, offset: 80958},
+																				pos: position{line: 2526, col: 36, offset: 81172},
 																				expr: &litMatcher{
-																					pos:        position{line: 2520, col: 37, offset: 80959},
+																					pos:        position{line: 2526, col: 37, offset: 81173},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2515, col: 49, offset: 80730},
+																				pos:   position{line: 2521, col: 49, offset: 80944},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2858, col: 13, offset: 90451},
+																					pos: position{line: 2864, col: 13, offset: 90665},
 																					run: (*parser).callonListContinuationElement1365,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2858, col: 13, offset: 90451},
+																						pos: position{line: 2864, col: 13, offset: 90665},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2858, col: 13, offset: 90451},
+																							pos:        position{line: 2864, col: 13, offset: 90665},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -36065,28 +36065,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2934, col: 8, offset: 92323},
+																				pos: position{line: 2940, col: 8, offset: 92537},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2921, col: 12, offset: 92096},
+																						pos: position{line: 2927, col: 12, offset: 92310},
 																						run: (*parser).callonListContinuationElement1369,
 																						expr: &choiceExpr{
-																							pos: position{line: 2921, col: 13, offset: 92097},
+																							pos: position{line: 2927, col: 13, offset: 92311},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2921, col: 13, offset: 92097},
+																									pos:        position{line: 2927, col: 13, offset: 92311},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2921, col: 20, offset: 92104},
+																									pos:        position{line: 2927, col: 20, offset: 92318},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2921, col: 29, offset: 92113},
+																									pos:        position{line: 2927, col: 29, offset: 92327},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36095,9 +36095,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2931, col: 8, offset: 92273},
+																						pos: position{line: 2937, col: 8, offset: 92487},
 																						expr: &anyMatcher{
-																							line: 2931, col: 9, offset: 92274,
+																							line: 2937, col: 9, offset: 92488,
 																						},
 																					},
 																				},
@@ -36106,32 +36106,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2654, col: 5, offset: 84568},
+																	pos: position{line: 2660, col: 5, offset: 84782},
 																	run: (*parser).callonListContinuationElement1376,
 																	expr: &seqExpr{
-																		pos: position{line: 2654, col: 5, offset: 84568},
+																		pos: position{line: 2660, col: 5, offset: 84782},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2654, col: 5, offset: 84568},
+																				pos: position{line: 2660, col: 5, offset: 84782},
 																				expr: &choiceExpr{
-																					pos: position{line: 2651, col: 22, offset: 84529},
+																					pos: position{line: 2657, col: 22, offset: 84743},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2647, col: 19, offset: 84449},
+																							pos: position{line: 2653, col: 19, offset: 84663},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2647, col: 19, offset: 84449},
+																									pos:        position{line: 2653, col: 19, offset: 84663},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2647, col: 26, offset: 84456},
+																									pos: position{line: 2653, col: 26, offset: 84670},
 																									expr: &actionExpr{
-																										pos: position{line: 2912, col: 10, offset: 91925},
+																										pos: position{line: 2918, col: 10, offset: 92139},
 																										run: (*parser).callonListContinuationElement1383,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2912, col: 10, offset: 91925},
+																											pos:        position{line: 2918, col: 10, offset: 92139},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36140,28 +36140,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2934, col: 8, offset: 92323},
+																									pos: position{line: 2940, col: 8, offset: 92537},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2921, col: 12, offset: 92096},
+																											pos: position{line: 2927, col: 12, offset: 92310},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &choiceExpr{
-																												pos: position{line: 2921, col: 13, offset: 92097},
+																												pos: position{line: 2927, col: 13, offset: 92311},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 13, offset: 92097},
+																														pos:        position{line: 2927, col: 13, offset: 92311},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 20, offset: 92104},
+																														pos:        position{line: 2927, col: 20, offset: 92318},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2921, col: 29, offset: 92113},
+																														pos:        position{line: 2927, col: 29, offset: 92327},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36170,9 +36170,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2931, col: 8, offset: 92273},
+																											pos: position{line: 2937, col: 8, offset: 92487},
 																											expr: &anyMatcher{
-																												line: 2931, col: 9, offset: 92274,
+																												line: 2937, col: 9, offset: 92488,
 																											},
 																										},
 																									},
@@ -36180,59 +36180,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2931, col: 8, offset: 92273},
+																							pos: position{line: 2937, col: 8, offset: 92487},
 																							expr: &anyMatcher{
-																								line: 2931, col: 9, offset: 92274,
+																								line: 2937, col: 9, offset: 92488,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2655, col: 5, offset: 84591},
+																				pos:   position{line: 2661, col: 5, offset: 84805},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2656, col: 9, offset: 84609},
+																					pos: position{line: 2662, col: 9, offset: 84823},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2656, col: 10, offset: 84610},
+																							pos: position{line: 2662, col: 10, offset: 84824},
 																							run: (*parser).callonListContinuationElement1397,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2656, col: 10, offset: 84610},
+																								pos:   position{line: 2662, col: 10, offset: 84824},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2656, col: 17, offset: 84617},
+																									pos: position{line: 2662, col: 17, offset: 84831},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2664, col: 21, offset: 84813},
+																											pos: position{line: 2670, col: 21, offset: 85027},
 																											run: (*parser).callonListContinuationElement1400,
 																											expr: &seqExpr{
-																												pos: position{line: 2664, col: 21, offset: 84813},
+																												pos: position{line: 2670, col: 21, offset: 85027},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2664, col: 21, offset: 84813},
+																														pos:   position{line: 2670, col: 21, offset: 85027},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2664, col: 27, offset: 84819},
+																															pos: position{line: 2670, col: 27, offset: 85033},
 																															expr: &actionExpr{
-																																pos: position{line: 2669, col: 5, offset: 84894},
+																																pos: position{line: 2675, col: 5, offset: 85108},
 																																run: (*parser).callonListContinuationElement1404,
 																																expr: &seqExpr{
-																																	pos: position{line: 2669, col: 5, offset: 84894},
+																																	pos: position{line: 2675, col: 5, offset: 85108},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2669, col: 5, offset: 84894},
+																																			pos:        position{line: 2675, col: 5, offset: 85108},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2669, col: 9, offset: 84898},
+																																			pos: position{line: 2675, col: 9, offset: 85112},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2912, col: 10, offset: 91925},
+																																				pos: position{line: 2918, col: 10, offset: 92139},
 																																				run: (*parser).callonListContinuationElement1408,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2912, col: 10, offset: 91925},
+																																					pos:        position{line: 2918, col: 10, offset: 92139},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36241,21 +36241,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2669, col: 16, offset: 84905},
+																																			pos:   position{line: 2675, col: 16, offset: 85119},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2675, col: 5, offset: 85105},
+																																				pos: position{line: 2681, col: 5, offset: 85319},
 																																				run: (*parser).callonListContinuationElement1411,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2675, col: 5, offset: 85105},
+																																					pos:   position{line: 2681, col: 5, offset: 85319},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2675, col: 14, offset: 85114},
+																																						pos: position{line: 2681, col: 14, offset: 85328},
 																																						run: (*parser).callonListContinuationElement1413,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2675, col: 14, offset: 85114},
+																																							pos: position{line: 2681, col: 14, offset: 85328},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2675, col: 14, offset: 85114},
+																																								pos:        position{line: 2681, col: 14, offset: 85328},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36272,28 +36272,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2934, col: 8, offset: 92323},
+																														pos: position{line: 2940, col: 8, offset: 92537},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2921, col: 12, offset: 92096},
+																																pos: position{line: 2927, col: 12, offset: 92310},
 																																run: (*parser).callonListContinuationElement1417,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2921, col: 13, offset: 92097},
+																																	pos: position{line: 2927, col: 13, offset: 92311},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2921, col: 13, offset: 92097},
+																																			pos:        position{line: 2927, col: 13, offset: 92311},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2921, col: 20, offset: 92104},
+																																			pos:        position{line: 2927, col: 20, offset: 92318},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2921, col: 29, offset: 92113},
+																																			pos:        position{line: 2927, col: 29, offset: 92327},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36302,9 +36302,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2931, col: 8, offset: 92273},
+																																pos: position{line: 2937, col: 8, offset: 92487},
 																																expr: &anyMatcher{
-																																	line: 2931, col: 9, offset: 92274,
+																																	line: 2937, col: 9, offset: 92488,
 																																},
 																															},
 																														},
@@ -36313,40 +36313,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2681, col: 24, offset: 85250},
+																											pos: position{line: 2687, col: 24, offset: 85464},
 																											run: (*parser).callonListContinuationElement1424,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2681, col: 24, offset: 85250},
+																												pos:   position{line: 2687, col: 24, offset: 85464},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2681, col: 30, offset: 85256},
+																													pos: position{line: 2687, col: 30, offset: 85470},
 																													expr: &actionExpr{
-																														pos: position{line: 2686, col: 5, offset: 85332},
+																														pos: position{line: 2692, col: 5, offset: 85546},
 																														run: (*parser).callonListContinuationElement1427,
 																														expr: &seqExpr{
-																															pos: position{line: 2686, col: 5, offset: 85332},
+																															pos: position{line: 2692, col: 5, offset: 85546},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2686, col: 5, offset: 85332},
+																																	pos: position{line: 2692, col: 5, offset: 85546},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2651, col: 22, offset: 84529},
+																																		pos: position{line: 2657, col: 22, offset: 84743},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2647, col: 19, offset: 84449},
+																																				pos: position{line: 2653, col: 19, offset: 84663},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2647, col: 19, offset: 84449},
+																																						pos:        position{line: 2653, col: 19, offset: 84663},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2647, col: 26, offset: 84456},
+																																						pos: position{line: 2653, col: 26, offset: 84670},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2912, col: 10, offset: 91925},
+																																							pos: position{line: 2918, col: 10, offset: 92139},
 																																							run: (*parser).callonListContinuationElement1434,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2912, col: 10, offset: 91925},
+																																								pos:        position{line: 2918, col: 10, offset: 92139},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36355,28 +36355,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2934, col: 8, offset: 92323},
+																																						pos: position{line: 2940, col: 8, offset: 92537},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2921, col: 12, offset: 92096},
+																																								pos: position{line: 2927, col: 12, offset: 92310},
 																																								run: (*parser).callonListContinuationElement1437,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2921, col: 13, offset: 92097},
+																																									pos: position{line: 2927, col: 13, offset: 92311},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2921, col: 13, offset: 92097},
+																																											pos:        position{line: 2927, col: 13, offset: 92311},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2921, col: 20, offset: 92104},
+																																											pos:        position{line: 2927, col: 20, offset: 92318},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2921, col: 29, offset: 92113},
+																																											pos:        position{line: 2927, col: 29, offset: 92327},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36385,9 +36385,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2931, col: 8, offset: 92273},
+																																								pos: position{line: 2937, col: 8, offset: 92487},
 																																								expr: &anyMatcher{
-																																									line: 2931, col: 9, offset: 92274,
+																																									line: 2937, col: 9, offset: 92488,
 																																								},
 																																							},
 																																						},
@@ -36395,35 +36395,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2931, col: 8, offset: 92273},
+																																				pos: position{line: 2937, col: 8, offset: 92487},
 																																				expr: &anyMatcher{
-																																					line: 2931, col: 9, offset: 92274,
+																																					line: 2937, col: 9, offset: 92488,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2687, col: 5, offset: 85355},
+																																	pos: position{line: 2693, col: 5, offset: 85569},
 																																	expr: &actionExpr{
-																																		pos: position{line: 680, col: 14, offset: 21687},
+																																		pos: position{line: 686, col: 14, offset: 21901},
 																																		run: (*parser).callonListContinuationElement1447,
 																																		expr: &seqExpr{
-																																			pos: position{line: 680, col: 14, offset: 21687},
+																																			pos: position{line: 686, col: 14, offset: 21901},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2929, col: 11, offset: 92259},
+																																					pos: position{line: 2935, col: 11, offset: 92473},
 																																					expr: &anyMatcher{
-																																						line: 2929, col: 13, offset: 92261,
+																																						line: 2935, col: 13, offset: 92475,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 680, col: 21, offset: 21694},
+																																					pos: position{line: 686, col: 21, offset: 21908},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2912, col: 10, offset: 91925},
+																																						pos: position{line: 2918, col: 10, offset: 92139},
 																																						run: (*parser).callonListContinuationElement1452,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2912, col: 10, offset: 91925},
+																																							pos:        position{line: 2918, col: 10, offset: 92139},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36432,28 +36432,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2934, col: 8, offset: 92323},
+																																					pos: position{line: 2940, col: 8, offset: 92537},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2921, col: 12, offset: 92096},
+																																							pos: position{line: 2927, col: 12, offset: 92310},
 																																							run: (*parser).callonListContinuationElement1455,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2921, col: 13, offset: 92097},
+																																								pos: position{line: 2927, col: 13, offset: 92311},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2921, col: 13, offset: 92097},
+																																										pos:        position{line: 2927, col: 13, offset: 92311},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2921, col: 20, offset: 92104},
+																																										pos:        position{line: 2927, col: 20, offset: 92318},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2921, col: 29, offset: 92113},
+																																										pos:        position{line: 2927, col: 29, offset: 92327},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36462,9 +36462,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2931, col: 8, offset: 92273},
+																																							pos: position{line: 2937, col: 8, offset: 92487},
 																																							expr: &anyMatcher{
-																																								line: 2931, col: 9, offset: 92274,
+																																								line: 2937, col: 9, offset: 92488,
 																																							},
 																																						},
 																																					},
@@ -36474,17 +36474,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2688, col: 5, offset: 85370},
+																																	pos:   position{line: 2694, col: 5, offset: 85584},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2688, col: 12, offset: 85377},
+																																		pos: position{line: 2694, col: 12, offset: 85591},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2712, col: 20, offset: 86000},
+																																			pos: position{line: 2718, col: 20, offset: 86214},
 																																			run: (*parser).callonListContinuationElement1464,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2712, col: 20, offset: 86000},
+																																				pos: position{line: 2718, col: 20, offset: 86214},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2712, col: 20, offset: 86000},
+																																					pos:        position{line: 2718, col: 20, offset: 86214},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36495,18 +36495,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2688, col: 31, offset: 85396},
+																																	pos:        position{line: 2694, col: 31, offset: 85610},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2688, col: 35, offset: 85400},
+																																	pos: position{line: 2694, col: 35, offset: 85614},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2912, col: 10, offset: 91925},
+																																		pos: position{line: 2918, col: 10, offset: 92139},
 																																		run: (*parser).callonListContinuationElement1469,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2912, col: 10, offset: 91925},
+																																			pos:        position{line: 2918, col: 10, offset: 92139},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36515,27 +36515,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2688, col: 42, offset: 85407},
+																																	pos: position{line: 2694, col: 42, offset: 85621},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2921, col: 12, offset: 92096},
+																																		pos: position{line: 2927, col: 12, offset: 92310},
 																																		run: (*parser).callonListContinuationElement1472,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2921, col: 13, offset: 92097},
+																																			pos: position{line: 2927, col: 13, offset: 92311},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2921, col: 13, offset: 92097},
+																																					pos:        position{line: 2927, col: 13, offset: 92311},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2921, col: 20, offset: 92104},
+																																					pos:        position{line: 2927, col: 20, offset: 92318},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2921, col: 29, offset: 92113},
+																																					pos:        position{line: 2927, col: 29, offset: 92327},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36545,57 +36545,57 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2688, col: 51, offset: 85416},
+																																	pos:   position{line: 2694, col: 51, offset: 85630},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2694, col: 5, offset: 85575},
+																																		pos: position{line: 2700, col: 5, offset: 85789},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2695, col: 9, offset: 85585},
+																																			pos: position{line: 2701, col: 9, offset: 85799},
 																																			alternatives: []interface{}{
 																																				&actionExpr{
-																																					pos: position{line: 2695, col: 9, offset: 85585},
+																																					pos: position{line: 2701, col: 9, offset: 85799},
 																																					run: (*parser).callonListContinuationElement1480,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2695, col: 9, offset: 85585},
+																																						pos: position{line: 2701, col: 9, offset: 85799},
 																																						exprs: []interface{}{
 																																							&andCodeExpr{
-																																								pos: position{line: 2695, col: 9, offset: 85585},
+																																								pos: position{line: 2701, col: 9, offset: 85799},
 																																								run: (*parser).callonListContinuationElement1482,
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2698, col: 9, offset: 85654},
+																																								pos:   position{line: 2704, col: 9, offset: 85868},
 																																								label: "comment",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2515, col: 22, offset: 80703},
+																																									pos: position{line: 2521, col: 22, offset: 80917},
 																																									run: (*parser).callonListContinuationElement1484,
 																																									expr: &seqExpr{
-																																										pos: position{line: 2515, col: 22, offset: 80703},
+																																										pos: position{line: 2521, col: 22, offset: 80917},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2520, col: 31, offset: 80953},
+																																												pos:        position{line: 2526, col: 31, offset: 81167},
 																																												val:        "//",
 																																												ignoreCase: false,
 																																												want:       "\"//\"",
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2520, col: 36, offset: 80958},
+																																												pos: position{line: 2526, col: 36, offset: 81172},
 																																												expr: &litMatcher{
-																																													pos:        position{line: 2520, col: 37, offset: 80959},
+																																													pos:        position{line: 2526, col: 37, offset: 81173},
 																																													val:        "/",
 																																													ignoreCase: false,
 																																													want:       "\"/\"",
 																																												},
 																																											},
 																																											&labeledExpr{
-																																												pos:   position{line: 2515, col: 49, offset: 80730},
+																																												pos:   position{line: 2521, col: 49, offset: 80944},
 																																												label: "content",
 																																												expr: &actionExpr{
-																																													pos: position{line: 2858, col: 13, offset: 90451},
+																																													pos: position{line: 2864, col: 13, offset: 90665},
 																																													run: (*parser).callonListContinuationElement1490,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2858, col: 13, offset: 90451},
+																																														pos: position{line: 2864, col: 13, offset: 90665},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2858, col: 13, offset: 90451},
+																																															pos:        position{line: 2864, col: 13, offset: 90665},
 																																															val:        "[^\\r\\n]",
 																																															chars:      []rune{'\r', '\n'},
 																																															ignoreCase: false,
@@ -36605,28 +36605,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2934, col: 8, offset: 92323},
+																																												pos: position{line: 2940, col: 8, offset: 92537},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2921, col: 12, offset: 92096},
+																																														pos: position{line: 2927, col: 12, offset: 92310},
 																																														run: (*parser).callonListContinuationElement1494,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2921, col: 13, offset: 92097},
+																																															pos: position{line: 2927, col: 13, offset: 92311},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2921, col: 13, offset: 92097},
+																																																	pos:        position{line: 2927, col: 13, offset: 92311},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2921, col: 20, offset: 92104},
+																																																	pos:        position{line: 2927, col: 20, offset: 92318},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2921, col: 29, offset: 92113},
+																																																	pos:        position{line: 2927, col: 29, offset: 92327},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -36635,9 +36635,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2931, col: 8, offset: 92273},
+																																														pos: position{line: 2937, col: 8, offset: 92487},
 																																														expr: &anyMatcher{
-																																															line: 2931, col: 9, offset: 92274,
+																																															line: 2937, col: 9, offset: 92488,
 																																														},
 																																													},
 																																												},
@@ -36650,32 +36650,32 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&actionExpr{
-																																					pos: position{line: 2702, col: 9, offset: 85744},
+																																					pos: position{line: 2708, col: 9, offset: 85958},
 																																					run: (*parser).callonListContinuationElement1501,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2702, col: 9, offset: 85744},
+																																						pos: position{line: 2708, col: 9, offset: 85958},
 																																						exprs: []interface{}{
 																																							&notExpr{
-																																								pos: position{line: 2702, col: 9, offset: 85744},
+																																								pos: position{line: 2708, col: 9, offset: 85958},
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2651, col: 22, offset: 84529},
+																																									pos: position{line: 2657, col: 22, offset: 84743},
 																																									alternatives: []interface{}{
 																																										&seqExpr{
-																																											pos: position{line: 2647, col: 19, offset: 84449},
+																																											pos: position{line: 2653, col: 19, offset: 84663},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2647, col: 19, offset: 84449},
+																																													pos:        position{line: 2653, col: 19, offset: 84663},
 																																													val:        "|===",
 																																													ignoreCase: false,
 																																													want:       "\"|===\"",
 																																												},
 																																												&zeroOrMoreExpr{
-																																													pos: position{line: 2647, col: 26, offset: 84456},
+																																													pos: position{line: 2653, col: 26, offset: 84670},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2912, col: 10, offset: 91925},
+																																														pos: position{line: 2918, col: 10, offset: 92139},
 																																														run: (*parser).callonListContinuationElement1508,
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2912, col: 10, offset: 91925},
+																																															pos:        position{line: 2918, col: 10, offset: 92139},
 																																															val:        "[\\t ]",
 																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
@@ -36684,28 +36684,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2934, col: 8, offset: 92323},
+																																													pos: position{line: 2940, col: 8, offset: 92537},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2921, col: 12, offset: 92096},
+																																															pos: position{line: 2927, col: 12, offset: 92310},
 																																															run: (*parser).callonListContinuationElement1511,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2921, col: 13, offset: 92097},
+																																																pos: position{line: 2927, col: 13, offset: 92311},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2921, col: 13, offset: 92097},
+																																																		pos:        position{line: 2927, col: 13, offset: 92311},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2921, col: 20, offset: 92104},
+																																																		pos:        position{line: 2927, col: 20, offset: 92318},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2921, col: 29, offset: 92113},
+																																																		pos:        position{line: 2927, col: 29, offset: 92327},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -36714,9 +36714,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2931, col: 8, offset: 92273},
+																																															pos: position{line: 2937, col: 8, offset: 92487},
 																																															expr: &anyMatcher{
-																																																line: 2931, col: 9, offset: 92274,
+																																																line: 2937, col: 9, offset: 92488,
 																																															},
 																																														},
 																																													},
@@ -36724,35 +36724,35 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2931, col: 8, offset: 92273},
+																																											pos: position{line: 2937, col: 8, offset: 92487},
 																																											expr: &anyMatcher{
-																																												line: 2931, col: 9, offset: 92274,
+																																												line: 2937, col: 9, offset: 92488,
 																																											},
 																																										},
 																																									},
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2703, col: 9, offset: 85771},
+																																								pos: position{line: 2709, col: 9, offset: 85985},
 																																								expr: &actionExpr{
-																																									pos: position{line: 680, col: 14, offset: 21687},
+																																									pos: position{line: 686, col: 14, offset: 21901},
 																																									run: (*parser).callonListContinuationElement1521,
 																																									expr: &seqExpr{
-																																										pos: position{line: 680, col: 14, offset: 21687},
+																																										pos: position{line: 686, col: 14, offset: 21901},
 																																										exprs: []interface{}{
 																																											&andExpr{
-																																												pos: position{line: 2929, col: 11, offset: 92259},
+																																												pos: position{line: 2935, col: 11, offset: 92473},
 																																												expr: &anyMatcher{
-																																													line: 2929, col: 13, offset: 92261,
+																																													line: 2935, col: 13, offset: 92475,
 																																												},
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 680, col: 21, offset: 21694},
+																																												pos: position{line: 686, col: 21, offset: 21908},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2912, col: 10, offset: 91925},
+																																													pos: position{line: 2918, col: 10, offset: 92139},
 																																													run: (*parser).callonListContinuationElement1526,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2912, col: 10, offset: 91925},
+																																														pos:        position{line: 2918, col: 10, offset: 92139},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -36761,28 +36761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2934, col: 8, offset: 92323},
+																																												pos: position{line: 2940, col: 8, offset: 92537},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2921, col: 12, offset: 92096},
+																																														pos: position{line: 2927, col: 12, offset: 92310},
 																																														run: (*parser).callonListContinuationElement1529,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2921, col: 13, offset: 92097},
+																																															pos: position{line: 2927, col: 13, offset: 92311},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2921, col: 13, offset: 92097},
+																																																	pos:        position{line: 2927, col: 13, offset: 92311},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2921, col: 20, offset: 92104},
+																																																	pos:        position{line: 2927, col: 20, offset: 92318},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2921, col: 29, offset: 92113},
+																																																	pos:        position{line: 2927, col: 29, offset: 92327},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -36791,9 +36791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2931, col: 8, offset: 92273},
+																																														pos: position{line: 2937, col: 8, offset: 92487},
 																																														expr: &anyMatcher{
-																																															line: 2931, col: 9, offset: 92274,
+																																															line: 2937, col: 9, offset: 92488,
 																																														},
 																																													},
 																																												},
@@ -36803,22 +36803,22 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2704, col: 9, offset: 85790},
+																																								pos: position{line: 2710, col: 9, offset: 86004},
 																																								expr: &seqExpr{
-																																									pos: position{line: 2704, col: 11, offset: 85792},
+																																									pos: position{line: 2710, col: 11, offset: 86006},
 																																									exprs: []interface{}{
 																																										&labeledExpr{
-																																											pos:   position{line: 2704, col: 11, offset: 85792},
+																																											pos:   position{line: 2710, col: 11, offset: 86006},
 																																											label: "format",
 																																											expr: &zeroOrOneExpr{
-																																												pos: position{line: 2704, col: 18, offset: 85799},
+																																												pos: position{line: 2710, col: 18, offset: 86013},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2712, col: 20, offset: 86000},
+																																													pos: position{line: 2718, col: 20, offset: 86214},
 																																													run: (*parser).callonListContinuationElement1540,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2712, col: 20, offset: 86000},
+																																														pos: position{line: 2718, col: 20, offset: 86214},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2712, col: 20, offset: 86000},
+																																															pos:        position{line: 2718, col: 20, offset: 86214},
 																																															val:        "[^ |\\r\\n]",
 																																															chars:      []rune{' ', '|', '\r', '\n'},
 																																															ignoreCase: false,
@@ -36829,7 +36829,7 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2704, col: 37, offset: 85818},
+																																											pos:        position{line: 2710, col: 37, offset: 86032},
 																																											val:        "|",
 																																											ignoreCase: false,
 																																											want:       "\"|\"",
@@ -36838,15 +36838,15 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2705, col: 9, offset: 85831},
+																																								pos:   position{line: 2711, col: 9, offset: 86045},
 																																								label: "content",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2705, col: 18, offset: 85840},
+																																									pos: position{line: 2711, col: 18, offset: 86054},
 																																									run: (*parser).callonListContinuationElement1545,
 																																									expr: &zeroOrMoreExpr{
-																																										pos: position{line: 2705, col: 18, offset: 85840},
+																																										pos: position{line: 2711, col: 18, offset: 86054},
 																																										expr: &charClassMatcher{
-																																											pos:        position{line: 2705, col: 18, offset: 85840},
+																																											pos:        position{line: 2711, col: 18, offset: 86054},
 																																											val:        "[^|\\r\\n]",
 																																											chars:      []rune{'|', '\r', '\n'},
 																																											ignoreCase: false,
@@ -36856,30 +36856,30 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&zeroOrOneExpr{
-																																								pos: position{line: 2707, col: 12, offset: 85902},
+																																								pos: position{line: 2713, col: 12, offset: 86116},
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2934, col: 8, offset: 92323},
+																																									pos: position{line: 2940, col: 8, offset: 92537},
 																																									alternatives: []interface{}{
 																																										&actionExpr{
-																																											pos: position{line: 2921, col: 12, offset: 92096},
+																																											pos: position{line: 2927, col: 12, offset: 92310},
 																																											run: (*parser).callonListContinuationElement1550,
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2921, col: 13, offset: 92097},
+																																												pos: position{line: 2927, col: 13, offset: 92311},
 																																												alternatives: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2921, col: 13, offset: 92097},
+																																														pos:        position{line: 2927, col: 13, offset: 92311},
 																																														val:        "\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2921, col: 20, offset: 92104},
+																																														pos:        position{line: 2927, col: 20, offset: 92318},
 																																														val:        "\r\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2921, col: 29, offset: 92113},
+																																														pos:        position{line: 2927, col: 29, offset: 92327},
 																																														val:        "\r",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\"",
@@ -36888,9 +36888,9 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2931, col: 8, offset: 92273},
+																																											pos: position{line: 2937, col: 8, offset: 92487},
 																																											expr: &anyMatcher{
-																																												line: 2931, col: 9, offset: 92274,
+																																												line: 2937, col: 9, offset: 92488,
 																																											},
 																																										},
 																																									},
@@ -36914,24 +36914,24 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 680, col: 14, offset: 21687},
+																							pos: position{line: 686, col: 14, offset: 21901},
 																							run: (*parser).callonListContinuationElement1557,
 																							expr: &seqExpr{
-																								pos: position{line: 680, col: 14, offset: 21687},
+																								pos: position{line: 686, col: 14, offset: 21901},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2929, col: 11, offset: 92259},
+																										pos: position{line: 2935, col: 11, offset: 92473},
 																										expr: &anyMatcher{
-																											line: 2929, col: 13, offset: 92261,
+																											line: 2935, col: 13, offset: 92475,
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 680, col: 21, offset: 21694},
+																										pos: position{line: 686, col: 21, offset: 21908},
 																										expr: &actionExpr{
-																											pos: position{line: 2912, col: 10, offset: 91925},
+																											pos: position{line: 2918, col: 10, offset: 92139},
 																											run: (*parser).callonListContinuationElement1562,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2912, col: 10, offset: 91925},
+																												pos:        position{line: 2918, col: 10, offset: 92139},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36940,28 +36940,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2934, col: 8, offset: 92323},
+																										pos: position{line: 2940, col: 8, offset: 92537},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2921, col: 12, offset: 92096},
+																												pos: position{line: 2927, col: 12, offset: 92310},
 																												run: (*parser).callonListContinuationElement1565,
 																												expr: &choiceExpr{
-																													pos: position{line: 2921, col: 13, offset: 92097},
+																													pos: position{line: 2927, col: 13, offset: 92311},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2921, col: 13, offset: 92097},
+																															pos:        position{line: 2927, col: 13, offset: 92311},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2921, col: 20, offset: 92104},
+																															pos:        position{line: 2927, col: 20, offset: 92318},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2921, col: 29, offset: 92113},
+																															pos:        position{line: 2927, col: 29, offset: 92327},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36970,9 +36970,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2931, col: 8, offset: 92273},
+																												pos: position{line: 2937, col: 8, offset: 92487},
 																												expr: &anyMatcher{
-																													line: 2931, col: 9, offset: 92274,
+																													line: 2937, col: 9, offset: 92488,
 																												},
 																											},
 																										},
@@ -36991,24 +36991,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2651, col: 22, offset: 84529},
+													pos: position{line: 2657, col: 22, offset: 84743},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2647, col: 19, offset: 84449},
+															pos: position{line: 2653, col: 19, offset: 84663},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2647, col: 19, offset: 84449},
+																	pos:        position{line: 2653, col: 19, offset: 84663},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2647, col: 26, offset: 84456},
+																	pos: position{line: 2653, col: 26, offset: 84670},
 																	expr: &actionExpr{
-																		pos: position{line: 2912, col: 10, offset: 91925},
+																		pos: position{line: 2918, col: 10, offset: 92139},
 																		run: (*parser).callonListContinuationElement1576,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2912, col: 10, offset: 91925},
+																			pos:        position{line: 2918, col: 10, offset: 92139},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37017,28 +37017,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2934, col: 8, offset: 92323},
+																	pos: position{line: 2940, col: 8, offset: 92537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2921, col: 12, offset: 92096},
+																			pos: position{line: 2927, col: 12, offset: 92310},
 																			run: (*parser).callonListContinuationElement1579,
 																			expr: &choiceExpr{
-																				pos: position{line: 2921, col: 13, offset: 92097},
+																				pos: position{line: 2927, col: 13, offset: 92311},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 13, offset: 92097},
+																						pos:        position{line: 2927, col: 13, offset: 92311},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 20, offset: 92104},
+																						pos:        position{line: 2927, col: 20, offset: 92318},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 29, offset: 92113},
+																						pos:        position{line: 2927, col: 29, offset: 92327},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37047,9 +37047,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2931, col: 8, offset: 92273},
+																			pos: position{line: 2937, col: 8, offset: 92487},
 																			expr: &anyMatcher{
-																				line: 2931, col: 9, offset: 92274,
+																				line: 2937, col: 9, offset: 92488,
 																			},
 																		},
 																	},
@@ -37057,9 +37057,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2931, col: 8, offset: 92273},
+															pos: position{line: 2937, col: 8, offset: 92487},
 															expr: &anyMatcher{
-																line: 2931, col: 9, offset: 92274,
+																line: 2937, col: 9, offset: 92488,
 															},
 														},
 													},
@@ -37068,36 +37068,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2515, col: 22, offset: 80703},
+										pos: position{line: 2521, col: 22, offset: 80917},
 										run: (*parser).callonListContinuationElement1588,
 										expr: &seqExpr{
-											pos: position{line: 2515, col: 22, offset: 80703},
+											pos: position{line: 2521, col: 22, offset: 80917},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2520, col: 31, offset: 80953},
+													pos:        position{line: 2526, col: 31, offset: 81167},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2520, col: 36, offset: 80958},
+													pos: position{line: 2526, col: 36, offset: 81172},
 													expr: &litMatcher{
-														pos:        position{line: 2520, col: 37, offset: 80959},
+														pos:        position{line: 2526, col: 37, offset: 81173},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 49, offset: 80730},
+													pos:   position{line: 2521, col: 49, offset: 80944},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 13, offset: 90451},
+														pos: position{line: 2864, col: 13, offset: 90665},
 														run: (*parser).callonListContinuationElement1594,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2858, col: 13, offset: 90451},
+															pos: position{line: 2864, col: 13, offset: 90665},
 															expr: &charClassMatcher{
-																pos:        position{line: 2858, col: 13, offset: 90451},
+																pos:        position{line: 2864, col: 13, offset: 90665},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37107,28 +37107,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2934, col: 8, offset: 92323},
+													pos: position{line: 2940, col: 8, offset: 92537},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2921, col: 12, offset: 92096},
+															pos: position{line: 2927, col: 12, offset: 92310},
 															run: (*parser).callonListContinuationElement1598,
 															expr: &choiceExpr{
-																pos: position{line: 2921, col: 13, offset: 92097},
+																pos: position{line: 2927, col: 13, offset: 92311},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 13, offset: 92097},
+																		pos:        position{line: 2927, col: 13, offset: 92311},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 20, offset: 92104},
+																		pos:        position{line: 2927, col: 20, offset: 92318},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 29, offset: 92113},
+																		pos:        position{line: 2927, col: 29, offset: 92327},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37137,9 +37137,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2931, col: 8, offset: 92273},
+															pos: position{line: 2937, col: 8, offset: 92487},
 															expr: &anyMatcher{
-																line: 2931, col: 9, offset: 92274,
+																line: 2937, col: 9, offset: 92488,
 															},
 														},
 													},
@@ -37148,94 +37148,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1570, col: 5, offset: 50764},
+										pos: position{line: 1576, col: 5, offset: 50978},
 										run: (*parser).callonListContinuationElement1605,
 										expr: &seqExpr{
-											pos: position{line: 1570, col: 5, offset: 50764},
+											pos: position{line: 1576, col: 5, offset: 50978},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1570, col: 5, offset: 50764},
+													pos:   position{line: 1576, col: 5, offset: 50978},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1570, col: 11, offset: 50770},
+														pos: position{line: 1576, col: 11, offset: 50984},
 														expr: &actionExpr{
-															pos: position{line: 1735, col: 5, offset: 56119},
+															pos: position{line: 1741, col: 5, offset: 56333},
 															run: (*parser).callonListContinuationElement1609,
 															expr: &seqExpr{
-																pos: position{line: 1735, col: 5, offset: 56119},
+																pos: position{line: 1741, col: 5, offset: 56333},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1735, col: 5, offset: 56119},
+																		pos: position{line: 1741, col: 5, offset: 56333},
 																		run: (*parser).callonListContinuationElement1611,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1738, col: 5, offset: 56182},
+																		pos:   position{line: 1744, col: 5, offset: 56396},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1738, col: 12, offset: 56189},
+																			pos: position{line: 1744, col: 12, offset: 56403},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1738, col: 12, offset: 56189},
+																					pos: position{line: 1744, col: 12, offset: 56403},
 																					run: (*parser).callonListContinuationElement1614,
 																					expr: &litMatcher{
-																						pos:        position{line: 1738, col: 12, offset: 56189},
+																						pos:        position{line: 1744, col: 12, offset: 56403},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1740, col: 13, offset: 56245},
+																					pos: position{line: 1746, col: 13, offset: 56459},
 																					run: (*parser).callonListContinuationElement1616,
 																					expr: &litMatcher{
-																						pos:        position{line: 1740, col: 13, offset: 56245},
+																						pos:        position{line: 1746, col: 13, offset: 56459},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1742, col: 13, offset: 56303},
+																					pos: position{line: 1748, col: 13, offset: 56517},
 																					run: (*parser).callonListContinuationElement1618,
 																					expr: &litMatcher{
-																						pos:        position{line: 1742, col: 13, offset: 56303},
+																						pos:        position{line: 1748, col: 13, offset: 56517},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1744, col: 13, offset: 56371},
+																					pos: position{line: 1750, col: 13, offset: 56585},
 																					run: (*parser).callonListContinuationElement1620,
 																					expr: &litMatcher{
-																						pos:        position{line: 1744, col: 13, offset: 56371},
+																						pos:        position{line: 1750, col: 13, offset: 56585},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1746, col: 13, offset: 56435},
+																					pos: position{line: 1752, col: 13, offset: 56649},
 																					run: (*parser).callonListContinuationElement1622,
 																					expr: &litMatcher{
-																						pos:        position{line: 1746, col: 13, offset: 56435},
+																						pos:        position{line: 1752, col: 13, offset: 56649},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1748, col: 13, offset: 56499},
+																					pos: position{line: 1754, col: 13, offset: 56713},
 																					run: (*parser).callonListContinuationElement1624,
 																					expr: &andExpr{
-																						pos: position{line: 1748, col: 13, offset: 56499},
+																						pos: position{line: 1754, col: 13, offset: 56713},
 																						expr: &actionExpr{
-																							pos: position{line: 2916, col: 11, offset: 91986},
+																							pos: position{line: 2922, col: 11, offset: 92200},
 																							run: (*parser).callonListContinuationElement1626,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2916, col: 11, offset: 91986},
+																								pos: position{line: 2922, col: 11, offset: 92200},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2916, col: 11, offset: 91986},
+																									pos:        position{line: 2922, col: 11, offset: 92200},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37254,35 +37254,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1571, col: 5, offset: 50793},
+													pos:   position{line: 1577, col: 5, offset: 51007},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1513, col: 5, offset: 49109},
+														pos: position{line: 1519, col: 5, offset: 49323},
 														run: (*parser).callonListContinuationElement1630,
 														expr: &seqExpr{
-															pos: position{line: 1513, col: 5, offset: 49109},
+															pos: position{line: 1519, col: 5, offset: 49323},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1513, col: 5, offset: 49109},
+																	pos: position{line: 1519, col: 5, offset: 49323},
 																	expr: &actionExpr{
-																		pos: position{line: 680, col: 14, offset: 21687},
+																		pos: position{line: 686, col: 14, offset: 21901},
 																		run: (*parser).callonListContinuationElement1633,
 																		expr: &seqExpr{
-																			pos: position{line: 680, col: 14, offset: 21687},
+																			pos: position{line: 686, col: 14, offset: 21901},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2929, col: 11, offset: 92259},
+																					pos: position{line: 2935, col: 11, offset: 92473},
 																					expr: &anyMatcher{
-																						line: 2929, col: 13, offset: 92261,
+																						line: 2935, col: 13, offset: 92475,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 680, col: 21, offset: 21694},
+																					pos: position{line: 686, col: 21, offset: 21908},
 																					expr: &actionExpr{
-																						pos: position{line: 2912, col: 10, offset: 91925},
+																						pos: position{line: 2918, col: 10, offset: 92139},
 																						run: (*parser).callonListContinuationElement1638,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2912, col: 10, offset: 91925},
+																							pos:        position{line: 2918, col: 10, offset: 92139},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37291,28 +37291,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2934, col: 8, offset: 92323},
+																					pos: position{line: 2940, col: 8, offset: 92537},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2921, col: 12, offset: 92096},
+																							pos: position{line: 2927, col: 12, offset: 92310},
 																							run: (*parser).callonListContinuationElement1641,
 																							expr: &choiceExpr{
-																								pos: position{line: 2921, col: 13, offset: 92097},
+																								pos: position{line: 2927, col: 13, offset: 92311},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 13, offset: 92097},
+																										pos:        position{line: 2927, col: 13, offset: 92311},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 20, offset: 92104},
+																										pos:        position{line: 2927, col: 20, offset: 92318},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 29, offset: 92113},
+																										pos:        position{line: 2927, col: 29, offset: 92327},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37321,9 +37321,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2931, col: 8, offset: 92273},
+																							pos: position{line: 2937, col: 8, offset: 92487},
 																							expr: &anyMatcher{
-																								line: 2931, col: 9, offset: 92274,
+																								line: 2937, col: 9, offset: 92488,
 																							},
 																						},
 																					},
@@ -37333,23 +37333,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1514, col: 5, offset: 49124},
+																	pos: position{line: 1520, col: 5, offset: 49338},
 																	expr: &seqExpr{
-																		pos: position{line: 1545, col: 27, offset: 49984},
+																		pos: position{line: 1551, col: 27, offset: 50198},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1545, col: 27, offset: 49984},
+																				pos:        position{line: 1551, col: 27, offset: 50198},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1545, col: 31, offset: 49988},
+																				pos: position{line: 1551, col: 31, offset: 50202},
 																				expr: &actionExpr{
-																					pos: position{line: 2912, col: 10, offset: 91925},
+																					pos: position{line: 2918, col: 10, offset: 92139},
 																					run: (*parser).callonListContinuationElement1652,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2912, col: 10, offset: 91925},
+																						pos:        position{line: 2918, col: 10, offset: 92139},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37358,25 +37358,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonListContinuationElement1654,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37388,20 +37388,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1515, col: 5, offset: 49152},
+																	pos: position{line: 1521, col: 5, offset: 49366},
 																	expr: &actionExpr{
-																		pos: position{line: 1586, col: 5, offset: 51203},
+																		pos: position{line: 1592, col: 5, offset: 51417},
 																		run: (*parser).callonListContinuationElement1660,
 																		expr: &seqExpr{
-																			pos: position{line: 1586, col: 5, offset: 51203},
+																			pos: position{line: 1592, col: 5, offset: 51417},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1586, col: 5, offset: 51203},
+																					pos: position{line: 1592, col: 5, offset: 51417},
 																					expr: &actionExpr{
-																						pos: position{line: 2912, col: 10, offset: 91925},
+																						pos: position{line: 2918, col: 10, offset: 92139},
 																						run: (*parser).callonListContinuationElement1663,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2912, col: 10, offset: 91925},
+																							pos:        position{line: 2918, col: 10, offset: 92139},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37410,27 +37410,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1586, col: 12, offset: 51210},
+																					pos:   position{line: 1592, col: 12, offset: 51424},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1588, col: 9, offset: 51273},
+																						pos: position{line: 1594, col: 9, offset: 51487},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1588, col: 9, offset: 51273},
+																								pos: position{line: 1594, col: 9, offset: 51487},
 																								run: (*parser).callonListContinuationElement1667,
 																								expr: &seqExpr{
-																									pos: position{line: 1588, col: 9, offset: 51273},
+																									pos: position{line: 1594, col: 9, offset: 51487},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1588, col: 9, offset: 51273},
+																											pos:   position{line: 1594, col: 9, offset: 51487},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1588, col: 16, offset: 51280},
+																												pos: position{line: 1594, col: 16, offset: 51494},
 																												run: (*parser).callonListContinuationElement1670,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1588, col: 16, offset: 51280},
+																													pos: position{line: 1594, col: 16, offset: 51494},
 																													expr: &litMatcher{
-																														pos:        position{line: 1588, col: 17, offset: 51281},
+																														pos:        position{line: 1594, col: 17, offset: 51495},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -37439,22 +37439,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1592, col: 9, offset: 51381},
+																											pos: position{line: 1598, col: 9, offset: 51595},
 																											run: (*parser).callonListContinuationElement1673,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1611, col: 11, offset: 52098},
+																								pos: position{line: 1617, col: 11, offset: 52312},
 																								run: (*parser).callonListContinuationElement1674,
 																								expr: &seqExpr{
-																									pos: position{line: 1611, col: 11, offset: 52098},
+																									pos: position{line: 1617, col: 11, offset: 52312},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1611, col: 11, offset: 52098},
+																											pos: position{line: 1617, col: 11, offset: 52312},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1611, col: 12, offset: 52099},
+																												pos:        position{line: 1617, col: 12, offset: 52313},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -37462,7 +37462,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1611, col: 20, offset: 52107},
+																											pos:        position{line: 1617, col: 20, offset: 52321},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37471,20 +37471,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1613, col: 13, offset: 52224},
+																								pos: position{line: 1619, col: 13, offset: 52438},
 																								run: (*parser).callonListContinuationElement1679,
 																								expr: &seqExpr{
-																									pos: position{line: 1613, col: 13, offset: 52224},
+																									pos: position{line: 1619, col: 13, offset: 52438},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1613, col: 14, offset: 52225},
+																											pos:        position{line: 1619, col: 14, offset: 52439},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1613, col: 21, offset: 52232},
+																											pos:        position{line: 1619, col: 21, offset: 52446},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37493,20 +37493,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1615, col: 13, offset: 52352},
+																								pos: position{line: 1621, col: 13, offset: 52566},
 																								run: (*parser).callonListContinuationElement1683,
 																								expr: &seqExpr{
-																									pos: position{line: 1615, col: 13, offset: 52352},
+																									pos: position{line: 1621, col: 13, offset: 52566},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1615, col: 14, offset: 52353},
+																											pos:        position{line: 1621, col: 14, offset: 52567},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1615, col: 21, offset: 52360},
+																											pos:        position{line: 1621, col: 21, offset: 52574},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37515,15 +37515,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1617, col: 13, offset: 52480},
+																								pos: position{line: 1623, col: 13, offset: 52694},
 																								run: (*parser).callonListContinuationElement1687,
 																								expr: &seqExpr{
-																									pos: position{line: 1617, col: 13, offset: 52480},
+																									pos: position{line: 1623, col: 13, offset: 52694},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1617, col: 13, offset: 52480},
+																											pos: position{line: 1623, col: 13, offset: 52694},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1617, col: 14, offset: 52481},
+																												pos:        position{line: 1623, col: 14, offset: 52695},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -37531,7 +37531,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1617, col: 26, offset: 52493},
+																											pos:        position{line: 1623, col: 26, offset: 52707},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37540,15 +37540,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1619, col: 13, offset: 52613},
+																								pos: position{line: 1625, col: 13, offset: 52827},
 																								run: (*parser).callonListContinuationElement1692,
 																								expr: &seqExpr{
-																									pos: position{line: 1619, col: 13, offset: 52613},
+																									pos: position{line: 1625, col: 13, offset: 52827},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1619, col: 13, offset: 52613},
+																											pos: position{line: 1625, col: 13, offset: 52827},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1619, col: 14, offset: 52614},
+																												pos:        position{line: 1625, col: 14, offset: 52828},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -37556,7 +37556,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1619, col: 26, offset: 52626},
+																											pos:        position{line: 1625, col: 26, offset: 52840},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37568,12 +37568,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2916, col: 11, offset: 91986},
+																					pos: position{line: 2922, col: 11, offset: 92200},
 																					run: (*parser).callonListContinuationElement1697,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2916, col: 11, offset: 91986},
+																						pos: position{line: 2922, col: 11, offset: 92200},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2916, col: 11, offset: 91986},
+																							pos:        position{line: 2922, col: 11, offset: 92200},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37586,20 +37586,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1516, col: 5, offset: 49182},
+																	pos: position{line: 1522, col: 5, offset: 49396},
 																	expr: &actionExpr{
-																		pos: position{line: 1636, col: 5, offset: 53165},
+																		pos: position{line: 1642, col: 5, offset: 53379},
 																		run: (*parser).callonListContinuationElement1701,
 																		expr: &seqExpr{
-																			pos: position{line: 1636, col: 5, offset: 53165},
+																			pos: position{line: 1642, col: 5, offset: 53379},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1636, col: 5, offset: 53165},
+																					pos: position{line: 1642, col: 5, offset: 53379},
 																					expr: &actionExpr{
-																						pos: position{line: 2912, col: 10, offset: 91925},
+																						pos: position{line: 2918, col: 10, offset: 92139},
 																						run: (*parser).callonListContinuationElement1704,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2912, col: 10, offset: 91925},
+																							pos:        position{line: 2918, col: 10, offset: 92139},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37608,24 +37608,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1637, col: 5, offset: 53177},
+																					pos:   position{line: 1643, col: 5, offset: 53391},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1638, col: 9, offset: 53193},
+																						pos: position{line: 1644, col: 9, offset: 53407},
 																						run: (*parser).callonListContinuationElement1707,
 																						expr: &choiceExpr{
-																							pos: position{line: 1638, col: 10, offset: 53194},
+																							pos: position{line: 1644, col: 10, offset: 53408},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1638, col: 11, offset: 53195},
+																									pos:        position{line: 1644, col: 11, offset: 53409},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1638, col: 18, offset: 53202},
+																									pos: position{line: 1644, col: 18, offset: 53416},
 																									expr: &litMatcher{
-																										pos:        position{line: 1638, col: 19, offset: 53203},
+																										pos:        position{line: 1644, col: 19, offset: 53417},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -37636,16 +37636,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1641, col: 7, offset: 53293},
+																					pos: position{line: 1647, col: 7, offset: 53507},
 																					run: (*parser).callonListContinuationElement1712,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2916, col: 11, offset: 91986},
+																					pos: position{line: 2922, col: 11, offset: 92200},
 																					run: (*parser).callonListContinuationElement1713,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2916, col: 11, offset: 91986},
+																						pos: position{line: 2922, col: 11, offset: 92200},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2916, col: 11, offset: 91986},
+																							pos:        position{line: 2922, col: 11, offset: 92200},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37658,29 +37658,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1517, col: 5, offset: 49214},
+																	pos: position{line: 1523, col: 5, offset: 49428},
 																	expr: &actionExpr{
-																		pos: position{line: 1726, col: 5, offset: 55734},
+																		pos: position{line: 1732, col: 5, offset: 55948},
 																		run: (*parser).callonListContinuationElement1717,
 																		expr: &seqExpr{
-																			pos: position{line: 1726, col: 5, offset: 55734},
+																			pos: position{line: 1732, col: 5, offset: 55948},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1726, col: 5, offset: 55734},
+																					pos:        position{line: 1732, col: 5, offset: 55948},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1726, col: 9, offset: 55738},
+																					pos:   position{line: 1732, col: 9, offset: 55952},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1726, col: 14, offset: 55743},
+																						pos: position{line: 1732, col: 14, offset: 55957},
 																						run: (*parser).callonListContinuationElement1721,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1726, col: 14, offset: 55743},
+																							pos: position{line: 1732, col: 14, offset: 55957},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1726, col: 14, offset: 55743},
+																								pos:        position{line: 1732, col: 14, offset: 55957},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37690,18 +37690,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1726, col: 62, offset: 55791},
+																					pos:        position{line: 1732, col: 62, offset: 56005},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2916, col: 11, offset: 91986},
+																					pos: position{line: 2922, col: 11, offset: 92200},
 																					run: (*parser).callonListContinuationElement1725,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2916, col: 11, offset: 91986},
+																						pos: position{line: 2922, col: 11, offset: 92200},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2916, col: 11, offset: 91986},
+																							pos:        position{line: 2922, col: 11, offset: 92200},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37714,31 +37714,31 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1518, col: 5, offset: 49244},
+																	pos: position{line: 1524, col: 5, offset: 49458},
 																	expr: &seqExpr{
-																		pos: position{line: 1518, col: 7, offset: 49246},
+																		pos: position{line: 1524, col: 7, offset: 49460},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1671, col: 5, offset: 54184},
+																				pos: position{line: 1677, col: 5, offset: 54398},
 																				run: (*parser).callonListContinuationElement1730,
 																				expr: &seqExpr{
-																					pos: position{line: 1671, col: 5, offset: 54184},
+																					pos: position{line: 1677, col: 5, offset: 54398},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1671, col: 5, offset: 54184},
+																							pos: position{line: 1677, col: 5, offset: 54398},
 																							expr: &seqExpr{
-																								pos: position{line: 2520, col: 31, offset: 80953},
+																								pos: position{line: 2526, col: 31, offset: 81167},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2520, col: 31, offset: 80953},
+																										pos:        position{line: 2526, col: 31, offset: 81167},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2520, col: 36, offset: 80958},
+																										pos: position{line: 2526, col: 36, offset: 81172},
 																										expr: &litMatcher{
-																											pos:        position{line: 2520, col: 37, offset: 80959},
+																											pos:        position{line: 2526, col: 37, offset: 81173},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -37748,28 +37748,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1672, col: 5, offset: 54216},
+																							pos: position{line: 1678, col: 5, offset: 54430},
 																							expr: &seqExpr{
-																								pos: position{line: 1672, col: 6, offset: 54217},
+																								pos: position{line: 1678, col: 6, offset: 54431},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1672, col: 6, offset: 54217},
+																										pos: position{line: 1678, col: 6, offset: 54431},
 																										expr: &actionExpr{
-																											pos: position{line: 1677, col: 5, offset: 54367},
+																											pos: position{line: 1683, col: 5, offset: 54581},
 																											run: (*parser).callonListContinuationElement1740,
 																											expr: &seqExpr{
-																												pos: position{line: 1677, col: 5, offset: 54367},
+																												pos: position{line: 1683, col: 5, offset: 54581},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1677, col: 5, offset: 54367},
+																														pos:   position{line: 1683, col: 5, offset: 54581},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1677, col: 16, offset: 54378},
+																															pos: position{line: 1683, col: 16, offset: 54592},
 																															run: (*parser).callonListContinuationElement1743,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1677, col: 16, offset: 54378},
+																																pos: position{line: 1683, col: 16, offset: 54592},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1677, col: 17, offset: 54379},
+																																	pos:        position{line: 1683, col: 17, offset: 54593},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -37778,7 +37778,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1680, col: 5, offset: 54436},
+																														pos: position{line: 1686, col: 5, offset: 54650},
 																														run: (*parser).callonListContinuationElement1746,
 																													},
 																												},
@@ -37786,30 +37786,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1672, col: 35, offset: 54246},
+																										pos: position{line: 1678, col: 35, offset: 54460},
 																										expr: &choiceExpr{
-																											pos: position{line: 2934, col: 8, offset: 92323},
+																											pos: position{line: 2940, col: 8, offset: 92537},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2921, col: 12, offset: 92096},
+																													pos: position{line: 2927, col: 12, offset: 92310},
 																													run: (*parser).callonListContinuationElement1749,
 																													expr: &choiceExpr{
-																														pos: position{line: 2921, col: 13, offset: 92097},
+																														pos: position{line: 2927, col: 13, offset: 92311},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 13, offset: 92097},
+																																pos:        position{line: 2927, col: 13, offset: 92311},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 20, offset: 92104},
+																																pos:        position{line: 2927, col: 20, offset: 92318},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 29, offset: 92113},
+																																pos:        position{line: 2927, col: 29, offset: 92327},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37818,16 +37818,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2931, col: 8, offset: 92273},
+																													pos: position{line: 2937, col: 8, offset: 92487},
 																													expr: &anyMatcher{
-																														line: 2931, col: 9, offset: 92274,
+																														line: 2937, col: 9, offset: 92488,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1672, col: 40, offset: 54251,
+																										line: 1678, col: 40, offset: 54465,
 																									},
 																								},
 																							},
@@ -37836,21 +37836,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1677, col: 5, offset: 54367},
+																				pos: position{line: 1683, col: 5, offset: 54581},
 																				run: (*parser).callonListContinuationElement1757,
 																				expr: &seqExpr{
-																					pos: position{line: 1677, col: 5, offset: 54367},
+																					pos: position{line: 1683, col: 5, offset: 54581},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1677, col: 5, offset: 54367},
+																							pos:   position{line: 1683, col: 5, offset: 54581},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1677, col: 16, offset: 54378},
+																								pos: position{line: 1683, col: 16, offset: 54592},
 																								run: (*parser).callonListContinuationElement1760,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1677, col: 16, offset: 54378},
+																									pos: position{line: 1683, col: 16, offset: 54592},
 																									expr: &litMatcher{
-																										pos:        position{line: 1677, col: 17, offset: 54379},
+																										pos:        position{line: 1683, col: 17, offset: 54593},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37859,7 +37859,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1680, col: 5, offset: 54436},
+																							pos: position{line: 1686, col: 5, offset: 54650},
 																							run: (*parser).callonListContinuationElement1763,
 																						},
 																					},
@@ -37869,17 +37869,17 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1519, col: 5, offset: 49302},
+																	pos: position{line: 1525, col: 5, offset: 49516},
 																	expr: &actionExpr{
-																		pos: position{line: 727, col: 5, offset: 23240},
+																		pos: position{line: 733, col: 5, offset: 23454},
 																		run: (*parser).callonListContinuationElement1765,
 																		expr: &seqExpr{
-																			pos: position{line: 727, col: 5, offset: 23240},
+																			pos: position{line: 733, col: 5, offset: 23454},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 727, col: 5, offset: 23240},
+																					pos: position{line: 733, col: 5, offset: 23454},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2802, col: 13, offset: 89020},
+																						pos:        position{line: 2808, col: 13, offset: 89234},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37887,36 +37887,36 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 728, col: 5, offset: 23270},
+																					pos:   position{line: 734, col: 5, offset: 23484},
 																					label: "delimiter",
 																					expr: &choiceExpr{
-																						pos: position{line: 729, col: 9, offset: 23290},
+																						pos: position{line: 735, col: 9, offset: 23504},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 743, col: 5, offset: 23782},
+																								pos: position{line: 749, col: 5, offset: 23996},
 																								run: (*parser).callonListContinuationElement1771,
 																								expr: &seqExpr{
-																									pos: position{line: 743, col: 5, offset: 23782},
+																									pos: position{line: 749, col: 5, offset: 23996},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 743, col: 5, offset: 23782},
+																											pos:   position{line: 749, col: 5, offset: 23996},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 743, col: 16, offset: 23793},
+																												pos: position{line: 749, col: 16, offset: 24007},
 																												run: (*parser).callonListContinuationElement1774,
 																												expr: &seqExpr{
-																													pos: position{line: 743, col: 16, offset: 23793},
+																													pos: position{line: 749, col: 16, offset: 24007},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 743, col: 16, offset: 23793},
+																															pos:        position{line: 749, col: 16, offset: 24007},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 743, col: 23, offset: 23800},
+																															pos: position{line: 749, col: 23, offset: 24014},
 																															expr: &litMatcher{
-																																pos:        position{line: 743, col: 23, offset: 23800},
+																																pos:        position{line: 749, col: 23, offset: 24014},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -37927,12 +37927,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 745, col: 8, offset: 23884},
+																											pos: position{line: 751, col: 8, offset: 24098},
 																											expr: &actionExpr{
-																												pos: position{line: 2912, col: 10, offset: 91925},
+																												pos: position{line: 2918, col: 10, offset: 92139},
 																												run: (*parser).callonListContinuationElement1780,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2912, col: 10, offset: 91925},
+																													pos:        position{line: 2918, col: 10, offset: 92139},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37941,28 +37941,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2934, col: 8, offset: 92323},
+																											pos: position{line: 2940, col: 8, offset: 92537},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2921, col: 12, offset: 92096},
+																													pos: position{line: 2927, col: 12, offset: 92310},
 																													run: (*parser).callonListContinuationElement1783,
 																													expr: &choiceExpr{
-																														pos: position{line: 2921, col: 13, offset: 92097},
+																														pos: position{line: 2927, col: 13, offset: 92311},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 13, offset: 92097},
+																																pos:        position{line: 2927, col: 13, offset: 92311},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 20, offset: 92104},
+																																pos:        position{line: 2927, col: 20, offset: 92318},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 29, offset: 92113},
+																																pos:        position{line: 2927, col: 29, offset: 92327},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37971,9 +37971,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2931, col: 8, offset: 92273},
+																													pos: position{line: 2937, col: 8, offset: 92487},
 																													expr: &anyMatcher{
-																														line: 2931, col: 9, offset: 92274,
+																														line: 2937, col: 9, offset: 92488,
 																													},
 																												},
 																											},
@@ -37982,30 +37982,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 750, col: 5, offset: 24030},
+																								pos: position{line: 756, col: 5, offset: 24244},
 																								run: (*parser).callonListContinuationElement1790,
 																								expr: &seqExpr{
-																									pos: position{line: 750, col: 5, offset: 24030},
+																									pos: position{line: 756, col: 5, offset: 24244},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 750, col: 5, offset: 24030},
+																											pos:   position{line: 756, col: 5, offset: 24244},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 750, col: 16, offset: 24041},
+																												pos: position{line: 756, col: 16, offset: 24255},
 																												run: (*parser).callonListContinuationElement1793,
 																												expr: &seqExpr{
-																													pos: position{line: 750, col: 16, offset: 24041},
+																													pos: position{line: 756, col: 16, offset: 24255},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 750, col: 16, offset: 24041},
+																															pos:        position{line: 756, col: 16, offset: 24255},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 750, col: 23, offset: 24048},
+																															pos: position{line: 756, col: 23, offset: 24262},
 																															expr: &litMatcher{
-																																pos:        position{line: 750, col: 23, offset: 24048},
+																																pos:        position{line: 756, col: 23, offset: 24262},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -38016,12 +38016,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 752, col: 8, offset: 24132},
+																											pos: position{line: 758, col: 8, offset: 24346},
 																											expr: &actionExpr{
-																												pos: position{line: 2912, col: 10, offset: 91925},
+																												pos: position{line: 2918, col: 10, offset: 92139},
 																												run: (*parser).callonListContinuationElement1799,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2912, col: 10, offset: 91925},
+																													pos:        position{line: 2918, col: 10, offset: 92139},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38030,28 +38030,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2934, col: 8, offset: 92323},
+																											pos: position{line: 2940, col: 8, offset: 92537},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2921, col: 12, offset: 92096},
+																													pos: position{line: 2927, col: 12, offset: 92310},
 																													run: (*parser).callonListContinuationElement1802,
 																													expr: &choiceExpr{
-																														pos: position{line: 2921, col: 13, offset: 92097},
+																														pos: position{line: 2927, col: 13, offset: 92311},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 13, offset: 92097},
+																																pos:        position{line: 2927, col: 13, offset: 92311},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 20, offset: 92104},
+																																pos:        position{line: 2927, col: 20, offset: 92318},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 29, offset: 92113},
+																																pos:        position{line: 2927, col: 29, offset: 92327},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38060,9 +38060,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2931, col: 8, offset: 92273},
+																													pos: position{line: 2937, col: 8, offset: 92487},
 																													expr: &anyMatcher{
-																														line: 2931, col: 9, offset: 92274,
+																														line: 2937, col: 9, offset: 92488,
 																													},
 																												},
 																											},
@@ -38071,27 +38071,27 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 763, col: 26, offset: 24518},
+																								pos: position{line: 769, col: 26, offset: 24732},
 																								run: (*parser).callonListContinuationElement1809,
 																								expr: &seqExpr{
-																									pos: position{line: 763, col: 26, offset: 24518},
+																									pos: position{line: 769, col: 26, offset: 24732},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 763, col: 26, offset: 24518},
+																											pos:        position{line: 769, col: 26, offset: 24732},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 763, col: 32, offset: 24524},
+																											pos:   position{line: 769, col: 32, offset: 24738},
 																											label: "language",
 																											expr: &actionExpr{
-																												pos: position{line: 767, col: 13, offset: 24654},
+																												pos: position{line: 773, col: 13, offset: 24868},
 																												run: (*parser).callonListContinuationElement1813,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 767, col: 14, offset: 24655},
+																													pos: position{line: 773, col: 14, offset: 24869},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 767, col: 14, offset: 24655},
+																														pos:        position{line: 773, col: 14, offset: 24869},
 																														val:        "[^\\r\\n` ]",
 																														chars:      []rune{'\r', '\n', '`', ' '},
 																														ignoreCase: false,
@@ -38101,12 +38101,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 763, col: 52, offset: 24544},
+																											pos: position{line: 769, col: 52, offset: 24758},
 																											expr: &actionExpr{
-																												pos: position{line: 2912, col: 10, offset: 91925},
+																												pos: position{line: 2918, col: 10, offset: 92139},
 																												run: (*parser).callonListContinuationElement1817,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2912, col: 10, offset: 91925},
+																													pos:        position{line: 2918, col: 10, offset: 92139},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38115,28 +38115,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2934, col: 8, offset: 92323},
+																											pos: position{line: 2940, col: 8, offset: 92537},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2921, col: 12, offset: 92096},
+																													pos: position{line: 2927, col: 12, offset: 92310},
 																													run: (*parser).callonListContinuationElement1820,
 																													expr: &choiceExpr{
-																														pos: position{line: 2921, col: 13, offset: 92097},
+																														pos: position{line: 2927, col: 13, offset: 92311},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 13, offset: 92097},
+																																pos:        position{line: 2927, col: 13, offset: 92311},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 20, offset: 92104},
+																																pos:        position{line: 2927, col: 20, offset: 92318},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 29, offset: 92113},
+																																pos:        position{line: 2927, col: 29, offset: 92327},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38145,9 +38145,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2931, col: 8, offset: 92273},
+																													pos: position{line: 2937, col: 8, offset: 92487},
 																													expr: &anyMatcher{
-																														line: 2931, col: 9, offset: 92274,
+																														line: 2937, col: 9, offset: 92488,
 																													},
 																												},
 																											},
@@ -38156,30 +38156,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 757, col: 5, offset: 24277},
+																								pos: position{line: 763, col: 5, offset: 24491},
 																								run: (*parser).callonListContinuationElement1827,
 																								expr: &seqExpr{
-																									pos: position{line: 757, col: 5, offset: 24277},
+																									pos: position{line: 763, col: 5, offset: 24491},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 757, col: 5, offset: 24277},
+																											pos:   position{line: 763, col: 5, offset: 24491},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 757, col: 16, offset: 24288},
+																												pos: position{line: 763, col: 16, offset: 24502},
 																												run: (*parser).callonListContinuationElement1830,
 																												expr: &seqExpr{
-																													pos: position{line: 757, col: 16, offset: 24288},
+																													pos: position{line: 763, col: 16, offset: 24502},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 757, col: 16, offset: 24288},
+																															pos:        position{line: 763, col: 16, offset: 24502},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 757, col: 22, offset: 24294},
+																															pos: position{line: 763, col: 22, offset: 24508},
 																															expr: &litMatcher{
-																																pos:        position{line: 757, col: 22, offset: 24294},
+																																pos:        position{line: 763, col: 22, offset: 24508},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -38190,12 +38190,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 759, col: 8, offset: 24378},
+																											pos: position{line: 765, col: 8, offset: 24592},
 																											expr: &actionExpr{
-																												pos: position{line: 2912, col: 10, offset: 91925},
+																												pos: position{line: 2918, col: 10, offset: 92139},
 																												run: (*parser).callonListContinuationElement1836,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2912, col: 10, offset: 91925},
+																													pos:        position{line: 2918, col: 10, offset: 92139},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38204,28 +38204,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2934, col: 8, offset: 92323},
+																											pos: position{line: 2940, col: 8, offset: 92537},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2921, col: 12, offset: 92096},
+																													pos: position{line: 2927, col: 12, offset: 92310},
 																													run: (*parser).callonListContinuationElement1839,
 																													expr: &choiceExpr{
-																														pos: position{line: 2921, col: 13, offset: 92097},
+																														pos: position{line: 2927, col: 13, offset: 92311},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 13, offset: 92097},
+																																pos:        position{line: 2927, col: 13, offset: 92311},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 20, offset: 92104},
+																																pos:        position{line: 2927, col: 20, offset: 92318},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 29, offset: 92113},
+																																pos:        position{line: 2927, col: 29, offset: 92327},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38234,9 +38234,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2931, col: 8, offset: 92273},
+																													pos: position{line: 2937, col: 8, offset: 92487},
 																													expr: &anyMatcher{
-																														line: 2931, col: 9, offset: 92274,
+																														line: 2937, col: 9, offset: 92488,
 																													},
 																												},
 																											},
@@ -38245,30 +38245,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 772, col: 5, offset: 24814},
+																								pos: position{line: 778, col: 5, offset: 25028},
 																								run: (*parser).callonListContinuationElement1846,
 																								expr: &seqExpr{
-																									pos: position{line: 772, col: 5, offset: 24814},
+																									pos: position{line: 778, col: 5, offset: 25028},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 772, col: 5, offset: 24814},
+																											pos:   position{line: 778, col: 5, offset: 25028},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 772, col: 16, offset: 24825},
+																												pos: position{line: 778, col: 16, offset: 25039},
 																												run: (*parser).callonListContinuationElement1849,
 																												expr: &seqExpr{
-																													pos: position{line: 772, col: 16, offset: 24825},
+																													pos: position{line: 778, col: 16, offset: 25039},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 772, col: 16, offset: 24825},
+																															pos:        position{line: 778, col: 16, offset: 25039},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 772, col: 23, offset: 24832},
+																															pos: position{line: 778, col: 23, offset: 25046},
 																															expr: &litMatcher{
-																																pos:        position{line: 772, col: 23, offset: 24832},
+																																pos:        position{line: 778, col: 23, offset: 25046},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -38279,12 +38279,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 774, col: 8, offset: 24916},
+																											pos: position{line: 780, col: 8, offset: 25130},
 																											expr: &actionExpr{
-																												pos: position{line: 2912, col: 10, offset: 91925},
+																												pos: position{line: 2918, col: 10, offset: 92139},
 																												run: (*parser).callonListContinuationElement1855,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2912, col: 10, offset: 91925},
+																													pos:        position{line: 2918, col: 10, offset: 92139},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38293,28 +38293,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2934, col: 8, offset: 92323},
+																											pos: position{line: 2940, col: 8, offset: 92537},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2921, col: 12, offset: 92096},
+																													pos: position{line: 2927, col: 12, offset: 92310},
 																													run: (*parser).callonListContinuationElement1858,
 																													expr: &choiceExpr{
-																														pos: position{line: 2921, col: 13, offset: 92097},
+																														pos: position{line: 2927, col: 13, offset: 92311},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 13, offset: 92097},
+																																pos:        position{line: 2927, col: 13, offset: 92311},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 20, offset: 92104},
+																																pos:        position{line: 2927, col: 20, offset: 92318},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 29, offset: 92113},
+																																pos:        position{line: 2927, col: 29, offset: 92327},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38323,9 +38323,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2931, col: 8, offset: 92273},
+																													pos: position{line: 2937, col: 8, offset: 92487},
 																													expr: &anyMatcher{
-																														line: 2931, col: 9, offset: 92274,
+																														line: 2937, col: 9, offset: 92488,
 																													},
 																												},
 																											},
@@ -38334,30 +38334,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 786, col: 5, offset: 25290},
+																								pos: position{line: 792, col: 5, offset: 25504},
 																								run: (*parser).callonListContinuationElement1865,
 																								expr: &seqExpr{
-																									pos: position{line: 786, col: 5, offset: 25290},
+																									pos: position{line: 792, col: 5, offset: 25504},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 786, col: 5, offset: 25290},
+																											pos:   position{line: 792, col: 5, offset: 25504},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 786, col: 16, offset: 25301},
+																												pos: position{line: 792, col: 16, offset: 25515},
 																												run: (*parser).callonListContinuationElement1868,
 																												expr: &seqExpr{
-																													pos: position{line: 786, col: 16, offset: 25301},
+																													pos: position{line: 792, col: 16, offset: 25515},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 786, col: 16, offset: 25301},
+																															pos:        position{line: 792, col: 16, offset: 25515},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 786, col: 23, offset: 25308},
+																															pos: position{line: 792, col: 23, offset: 25522},
 																															expr: &litMatcher{
-																																pos:        position{line: 786, col: 23, offset: 25308},
+																																pos:        position{line: 792, col: 23, offset: 25522},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -38368,12 +38368,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 788, col: 8, offset: 25392},
+																											pos: position{line: 794, col: 8, offset: 25606},
 																											expr: &actionExpr{
-																												pos: position{line: 2912, col: 10, offset: 91925},
+																												pos: position{line: 2918, col: 10, offset: 92139},
 																												run: (*parser).callonListContinuationElement1874,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2912, col: 10, offset: 91925},
+																													pos:        position{line: 2918, col: 10, offset: 92139},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38382,28 +38382,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2934, col: 8, offset: 92323},
+																											pos: position{line: 2940, col: 8, offset: 92537},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2921, col: 12, offset: 92096},
+																													pos: position{line: 2927, col: 12, offset: 92310},
 																													run: (*parser).callonListContinuationElement1877,
 																													expr: &choiceExpr{
-																														pos: position{line: 2921, col: 13, offset: 92097},
+																														pos: position{line: 2927, col: 13, offset: 92311},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 13, offset: 92097},
+																																pos:        position{line: 2927, col: 13, offset: 92311},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 20, offset: 92104},
+																																pos:        position{line: 2927, col: 20, offset: 92318},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 29, offset: 92113},
+																																pos:        position{line: 2927, col: 29, offset: 92327},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38412,9 +38412,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2931, col: 8, offset: 92273},
+																													pos: position{line: 2937, col: 8, offset: 92487},
 																													expr: &anyMatcher{
-																														line: 2931, col: 9, offset: 92274,
+																														line: 2937, col: 9, offset: 92488,
 																													},
 																												},
 																											},
@@ -38423,30 +38423,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 793, col: 5, offset: 25542},
+																								pos: position{line: 799, col: 5, offset: 25756},
 																								run: (*parser).callonListContinuationElement1884,
 																								expr: &seqExpr{
-																									pos: position{line: 793, col: 5, offset: 25542},
+																									pos: position{line: 799, col: 5, offset: 25756},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 793, col: 5, offset: 25542},
+																											pos:   position{line: 799, col: 5, offset: 25756},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 793, col: 16, offset: 25553},
+																												pos: position{line: 799, col: 16, offset: 25767},
 																												run: (*parser).callonListContinuationElement1887,
 																												expr: &seqExpr{
-																													pos: position{line: 793, col: 16, offset: 25553},
+																													pos: position{line: 799, col: 16, offset: 25767},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 793, col: 16, offset: 25553},
+																															pos:        position{line: 799, col: 16, offset: 25767},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 793, col: 23, offset: 25560},
+																															pos: position{line: 799, col: 23, offset: 25774},
 																															expr: &litMatcher{
-																																pos:        position{line: 793, col: 23, offset: 25560},
+																																pos:        position{line: 799, col: 23, offset: 25774},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -38457,12 +38457,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 795, col: 8, offset: 25644},
+																											pos: position{line: 801, col: 8, offset: 25858},
 																											expr: &actionExpr{
-																												pos: position{line: 2912, col: 10, offset: 91925},
+																												pos: position{line: 2918, col: 10, offset: 92139},
 																												run: (*parser).callonListContinuationElement1893,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2912, col: 10, offset: 91925},
+																													pos:        position{line: 2918, col: 10, offset: 92139},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38471,28 +38471,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2934, col: 8, offset: 92323},
+																											pos: position{line: 2940, col: 8, offset: 92537},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2921, col: 12, offset: 92096},
+																													pos: position{line: 2927, col: 12, offset: 92310},
 																													run: (*parser).callonListContinuationElement1896,
 																													expr: &choiceExpr{
-																														pos: position{line: 2921, col: 13, offset: 92097},
+																														pos: position{line: 2927, col: 13, offset: 92311},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 13, offset: 92097},
+																																pos:        position{line: 2927, col: 13, offset: 92311},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 20, offset: 92104},
+																																pos:        position{line: 2927, col: 20, offset: 92318},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 29, offset: 92113},
+																																pos:        position{line: 2927, col: 29, offset: 92327},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38501,9 +38501,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2931, col: 8, offset: 92273},
+																													pos: position{line: 2937, col: 8, offset: 92487},
 																													expr: &anyMatcher{
-																														line: 2931, col: 9, offset: 92274,
+																														line: 2937, col: 9, offset: 92488,
 																													},
 																												},
 																											},
@@ -38512,30 +38512,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 800, col: 5, offset: 25792},
+																								pos: position{line: 806, col: 5, offset: 26006},
 																								run: (*parser).callonListContinuationElement1903,
 																								expr: &seqExpr{
-																									pos: position{line: 800, col: 5, offset: 25792},
+																									pos: position{line: 806, col: 5, offset: 26006},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 800, col: 5, offset: 25792},
+																											pos:   position{line: 806, col: 5, offset: 26006},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 800, col: 16, offset: 25803},
+																												pos: position{line: 806, col: 16, offset: 26017},
 																												run: (*parser).callonListContinuationElement1906,
 																												expr: &seqExpr{
-																													pos: position{line: 800, col: 16, offset: 25803},
+																													pos: position{line: 806, col: 16, offset: 26017},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 800, col: 16, offset: 25803},
+																															pos:        position{line: 806, col: 16, offset: 26017},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 800, col: 23, offset: 25810},
+																															pos: position{line: 806, col: 23, offset: 26024},
 																															expr: &litMatcher{
-																																pos:        position{line: 800, col: 23, offset: 25810},
+																																pos:        position{line: 806, col: 23, offset: 26024},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -38546,12 +38546,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 802, col: 8, offset: 25894},
+																											pos: position{line: 808, col: 8, offset: 26108},
 																											expr: &actionExpr{
-																												pos: position{line: 2912, col: 10, offset: 91925},
+																												pos: position{line: 2918, col: 10, offset: 92139},
 																												run: (*parser).callonListContinuationElement1912,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2912, col: 10, offset: 91925},
+																													pos:        position{line: 2918, col: 10, offset: 92139},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38560,28 +38560,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2934, col: 8, offset: 92323},
+																											pos: position{line: 2940, col: 8, offset: 92537},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2921, col: 12, offset: 92096},
+																													pos: position{line: 2927, col: 12, offset: 92310},
 																													run: (*parser).callonListContinuationElement1915,
 																													expr: &choiceExpr{
-																														pos: position{line: 2921, col: 13, offset: 92097},
+																														pos: position{line: 2927, col: 13, offset: 92311},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 13, offset: 92097},
+																																pos:        position{line: 2927, col: 13, offset: 92311},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 20, offset: 92104},
+																																pos:        position{line: 2927, col: 20, offset: 92318},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 29, offset: 92113},
+																																pos:        position{line: 2927, col: 29, offset: 92327},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38590,9 +38590,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2931, col: 8, offset: 92273},
+																													pos: position{line: 2937, col: 8, offset: 92487},
 																													expr: &anyMatcher{
-																														line: 2931, col: 9, offset: 92274,
+																														line: 2937, col: 9, offset: 92488,
 																													},
 																												},
 																											},
@@ -38601,30 +38601,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 807, col: 5, offset: 26038},
+																								pos: position{line: 813, col: 5, offset: 26252},
 																								run: (*parser).callonListContinuationElement1922,
 																								expr: &seqExpr{
-																									pos: position{line: 807, col: 5, offset: 26038},
+																									pos: position{line: 813, col: 5, offset: 26252},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 807, col: 5, offset: 26038},
+																											pos:   position{line: 813, col: 5, offset: 26252},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 807, col: 16, offset: 26049},
+																												pos: position{line: 813, col: 16, offset: 26263},
 																												run: (*parser).callonListContinuationElement1925,
 																												expr: &seqExpr{
-																													pos: position{line: 807, col: 16, offset: 26049},
+																													pos: position{line: 813, col: 16, offset: 26263},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 807, col: 16, offset: 26049},
+																															pos:        position{line: 813, col: 16, offset: 26263},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 807, col: 23, offset: 26056},
+																															pos: position{line: 813, col: 23, offset: 26270},
 																															expr: &litMatcher{
-																																pos:        position{line: 807, col: 23, offset: 26056},
+																																pos:        position{line: 813, col: 23, offset: 26270},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -38635,12 +38635,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 809, col: 8, offset: 26140},
+																											pos: position{line: 815, col: 8, offset: 26354},
 																											expr: &actionExpr{
-																												pos: position{line: 2912, col: 10, offset: 91925},
+																												pos: position{line: 2918, col: 10, offset: 92139},
 																												run: (*parser).callonListContinuationElement1931,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2912, col: 10, offset: 91925},
+																													pos:        position{line: 2918, col: 10, offset: 92139},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38649,28 +38649,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2934, col: 8, offset: 92323},
+																											pos: position{line: 2940, col: 8, offset: 92537},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2921, col: 12, offset: 92096},
+																													pos: position{line: 2927, col: 12, offset: 92310},
 																													run: (*parser).callonListContinuationElement1934,
 																													expr: &choiceExpr{
-																														pos: position{line: 2921, col: 13, offset: 92097},
+																														pos: position{line: 2927, col: 13, offset: 92311},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 13, offset: 92097},
+																																pos:        position{line: 2927, col: 13, offset: 92311},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 20, offset: 92104},
+																																pos:        position{line: 2927, col: 20, offset: 92318},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2921, col: 29, offset: 92113},
+																																pos:        position{line: 2927, col: 29, offset: 92327},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38679,9 +38679,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2931, col: 8, offset: 92273},
+																													pos: position{line: 2937, col: 8, offset: 92487},
 																													expr: &anyMatcher{
-																														line: 2931, col: 9, offset: 92274,
+																														line: 2937, col: 9, offset: 92488,
 																													},
 																												},
 																											},
@@ -38697,15 +38697,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1520, col: 5, offset: 49322},
+																	pos:   position{line: 1526, col: 5, offset: 49536},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2862, col: 14, offset: 90518},
+																		pos: position{line: 2868, col: 14, offset: 90732},
 																		run: (*parser).callonListContinuationElement1942,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2862, col: 14, offset: 90518},
+																			pos: position{line: 2868, col: 14, offset: 90732},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2862, col: 14, offset: 90518},
+																				pos:        position{line: 2868, col: 14, offset: 90732},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38715,28 +38715,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2934, col: 8, offset: 92323},
+																	pos: position{line: 2940, col: 8, offset: 92537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2921, col: 12, offset: 92096},
+																			pos: position{line: 2927, col: 12, offset: 92310},
 																			run: (*parser).callonListContinuationElement1946,
 																			expr: &choiceExpr{
-																				pos: position{line: 2921, col: 13, offset: 92097},
+																				pos: position{line: 2927, col: 13, offset: 92311},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 13, offset: 92097},
+																						pos:        position{line: 2927, col: 13, offset: 92311},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 20, offset: 92104},
+																						pos:        position{line: 2927, col: 20, offset: 92318},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 29, offset: 92113},
+																						pos:        position{line: 2927, col: 29, offset: 92327},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38745,9 +38745,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2931, col: 8, offset: 92273},
+																			pos: position{line: 2937, col: 8, offset: 92487},
 																			expr: &anyMatcher{
-																				line: 2931, col: 9, offset: 92274,
+																				line: 2937, col: 9, offset: 92488,
 																			},
 																		},
 																	},
@@ -38768,33 +38768,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1710, col: 1, offset: 55228},
+			pos:  position{line: 1716, col: 1, offset: 55442},
 			expr: &actionExpr{
-				pos: position{line: 1712, col: 5, offset: 55306},
+				pos: position{line: 1718, col: 5, offset: 55520},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1712, col: 5, offset: 55306},
+					pos: position{line: 1718, col: 5, offset: 55520},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1712, col: 5, offset: 55306},
+							pos: position{line: 1718, col: 5, offset: 55520},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1715, col: 5, offset: 55373},
+							pos:        position{line: 1721, col: 5, offset: 55587},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1715, col: 9, offset: 55377},
+							pos:   position{line: 1721, col: 9, offset: 55591},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1715, col: 14, offset: 55382},
+								pos: position{line: 1721, col: 14, offset: 55596},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1715, col: 14, offset: 55382},
+									pos: position{line: 1721, col: 14, offset: 55596},
 									expr: &charClassMatcher{
-										pos:        position{line: 1715, col: 14, offset: 55382},
+										pos:        position{line: 1721, col: 14, offset: 55596},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -38804,18 +38804,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1715, col: 62, offset: 55430},
+							pos:        position{line: 1721, col: 62, offset: 55644},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1715, col: 66, offset: 55434},
+							pos: position{line: 1721, col: 66, offset: 55648},
 							expr: &actionExpr{
-								pos: position{line: 2912, col: 10, offset: 91925},
+								pos: position{line: 2918, col: 10, offset: 92139},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2912, col: 10, offset: 91925},
+									pos:        position{line: 2918, col: 10, offset: 92139},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38824,30 +38824,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1715, col: 73, offset: 55441},
+							pos: position{line: 1721, col: 73, offset: 55655},
 							expr: &choiceExpr{
-								pos: position{line: 1715, col: 75, offset: 55443},
+								pos: position{line: 1721, col: 75, offset: 55657},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2921, col: 12, offset: 92096},
+										pos: position{line: 2927, col: 12, offset: 92310},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2921, col: 13, offset: 92097},
+											pos: position{line: 2927, col: 13, offset: 92311},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2921, col: 13, offset: 92097},
+													pos:        position{line: 2927, col: 13, offset: 92311},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2921, col: 20, offset: 92104},
+													pos:        position{line: 2927, col: 20, offset: 92318},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2921, col: 29, offset: 92113},
+													pos:        position{line: 2927, col: 29, offset: 92327},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38856,13 +38856,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2931, col: 8, offset: 92273},
+										pos: position{line: 2937, col: 8, offset: 92487},
 										expr: &anyMatcher{
-											line: 2931, col: 9, offset: 92274,
+											line: 2937, col: 9, offset: 92488,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1715, col: 81, offset: 55449},
+										pos:  position{line: 1721, col: 81, offset: 55663},
 										name: "Callout",
 									},
 								},
@@ -38874,44 +38874,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1754, col: 1, offset: 56622},
+			pos:  position{line: 1760, col: 1, offset: 56836},
 			expr: &actionExpr{
-				pos: position{line: 1756, col: 5, offset: 56696},
+				pos: position{line: 1762, col: 5, offset: 56910},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1756, col: 5, offset: 56696},
+					pos: position{line: 1762, col: 5, offset: 56910},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1756, col: 5, offset: 56696},
+							pos: position{line: 1762, col: 5, offset: 56910},
 							expr: &seqExpr{
-								pos: position{line: 1756, col: 7, offset: 56698},
+								pos: position{line: 1762, col: 7, offset: 56912},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2802, col: 13, offset: 89020},
+										pos:        position{line: 2808, col: 13, offset: 89234},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1756, col: 16, offset: 56707},
+										pos: position{line: 1762, col: 16, offset: 56921},
 										expr: &seqExpr{
-											pos: position{line: 1756, col: 18, offset: 56709},
+											pos: position{line: 1762, col: 18, offset: 56923},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1756, col: 19, offset: 56710},
+													pos:        position{line: 1762, col: 19, offset: 56924},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2916, col: 11, offset: 91986},
+													pos: position{line: 2922, col: 11, offset: 92200},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2916, col: 11, offset: 91986},
+														pos: position{line: 2922, col: 11, offset: 92200},
 														expr: &charClassMatcher{
-															pos:        position{line: 2916, col: 11, offset: 91986},
+															pos:        position{line: 2922, col: 11, offset: 92200},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38926,88 +38926,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1757, col: 5, offset: 56850},
+							pos:   position{line: 1763, col: 5, offset: 57064},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1757, col: 11, offset: 56856},
+								pos: position{line: 1763, col: 11, offset: 57070},
 								expr: &actionExpr{
-									pos: position{line: 1735, col: 5, offset: 56119},
+									pos: position{line: 1741, col: 5, offset: 56333},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1735, col: 5, offset: 56119},
+										pos: position{line: 1741, col: 5, offset: 56333},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1735, col: 5, offset: 56119},
+												pos: position{line: 1741, col: 5, offset: 56333},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1738, col: 5, offset: 56182},
+												pos:   position{line: 1744, col: 5, offset: 56396},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1738, col: 12, offset: 56189},
+													pos: position{line: 1744, col: 12, offset: 56403},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1738, col: 12, offset: 56189},
+															pos: position{line: 1744, col: 12, offset: 56403},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1738, col: 12, offset: 56189},
+																pos:        position{line: 1744, col: 12, offset: 56403},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1740, col: 13, offset: 56245},
+															pos: position{line: 1746, col: 13, offset: 56459},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1740, col: 13, offset: 56245},
+																pos:        position{line: 1746, col: 13, offset: 56459},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1742, col: 13, offset: 56303},
+															pos: position{line: 1748, col: 13, offset: 56517},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1742, col: 13, offset: 56303},
+																pos:        position{line: 1748, col: 13, offset: 56517},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1744, col: 13, offset: 56371},
+															pos: position{line: 1750, col: 13, offset: 56585},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1744, col: 13, offset: 56371},
+																pos:        position{line: 1750, col: 13, offset: 56585},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1746, col: 13, offset: 56435},
+															pos: position{line: 1752, col: 13, offset: 56649},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1746, col: 13, offset: 56435},
+																pos:        position{line: 1752, col: 13, offset: 56649},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1748, col: 13, offset: 56499},
+															pos: position{line: 1754, col: 13, offset: 56713},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1748, col: 13, offset: 56499},
+																pos: position{line: 1754, col: 13, offset: 56713},
 																expr: &actionExpr{
-																	pos: position{line: 2916, col: 11, offset: 91986},
+																	pos: position{line: 2922, col: 11, offset: 92200},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2916, col: 11, offset: 91986},
+																		pos: position{line: 2922, col: 11, offset: 92200},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2916, col: 11, offset: 91986},
+																			pos:        position{line: 2922, col: 11, offset: 92200},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39026,24 +39026,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1758, col: 5, offset: 56878},
+							pos:   position{line: 1764, col: 5, offset: 57092},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1794, col: 5, offset: 57985},
+								pos: position{line: 1800, col: 5, offset: 58199},
 								run: (*parser).callonShortcutParagraph35,
 								expr: &seqExpr{
-									pos: position{line: 1794, col: 5, offset: 57985},
+									pos: position{line: 1800, col: 5, offset: 58199},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1794, col: 5, offset: 57985},
+											pos:   position{line: 1800, col: 5, offset: 58199},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2862, col: 14, offset: 90518},
+												pos: position{line: 2868, col: 14, offset: 90732},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2862, col: 14, offset: 90518},
+													pos: position{line: 2868, col: 14, offset: 90732},
 													expr: &charClassMatcher{
-														pos:        position{line: 2862, col: 14, offset: 90518},
+														pos:        position{line: 2868, col: 14, offset: 90732},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39053,32 +39053,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1795, col: 5, offset: 58009},
+											pos: position{line: 1801, col: 5, offset: 58223},
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2934, col: 8, offset: 92323},
+											pos: position{line: 2940, col: 8, offset: 92537},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2921, col: 12, offset: 92096},
+													pos: position{line: 2927, col: 12, offset: 92310},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2921, col: 13, offset: 92097},
+														pos: position{line: 2927, col: 13, offset: 92311},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2921, col: 13, offset: 92097},
+																pos:        position{line: 2927, col: 13, offset: 92311},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2921, col: 20, offset: 92104},
+																pos:        position{line: 2927, col: 20, offset: 92318},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2921, col: 29, offset: 92113},
+																pos:        position{line: 2927, col: 29, offset: 92327},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39087,9 +39087,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2931, col: 8, offset: 92273},
+													pos: position{line: 2937, col: 8, offset: 92487},
 													expr: &anyMatcher{
-														line: 2931, col: 9, offset: 92274,
+														line: 2937, col: 9, offset: 92488,
 													},
 												},
 											},
@@ -39099,47 +39099,47 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1759, col: 5, offset: 56912},
+							pos: position{line: 1765, col: 5, offset: 57126},
 							run: (*parser).callonShortcutParagraph50,
 						},
 						&labeledExpr{
-							pos:   position{line: 1766, col: 5, offset: 57242},
+							pos:   position{line: 1772, col: 5, offset: 57456},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1766, col: 16, offset: 57253},
+								pos: position{line: 1772, col: 16, offset: 57467},
 								expr: &actionExpr{
-									pos: position{line: 1767, col: 9, offset: 57263},
+									pos: position{line: 1773, col: 9, offset: 57477},
 									run: (*parser).callonShortcutParagraph53,
 									expr: &seqExpr{
-										pos: position{line: 1767, col: 9, offset: 57263},
+										pos: position{line: 1773, col: 9, offset: 57477},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2929, col: 11, offset: 92259},
+												pos: position{line: 2935, col: 11, offset: 92473},
 												expr: &anyMatcher{
-													line: 2929, col: 13, offset: 92261,
+													line: 2935, col: 13, offset: 92475,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1768, col: 9, offset: 57279},
+												pos: position{line: 1774, col: 9, offset: 57493},
 												expr: &actionExpr{
-													pos: position{line: 680, col: 14, offset: 21687},
+													pos: position{line: 686, col: 14, offset: 21901},
 													run: (*parser).callonShortcutParagraph58,
 													expr: &seqExpr{
-														pos: position{line: 680, col: 14, offset: 21687},
+														pos: position{line: 686, col: 14, offset: 21901},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2929, col: 11, offset: 92259},
+																pos: position{line: 2935, col: 11, offset: 92473},
 																expr: &anyMatcher{
-																	line: 2929, col: 13, offset: 92261,
+																	line: 2935, col: 13, offset: 92475,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 680, col: 21, offset: 21694},
+																pos: position{line: 686, col: 21, offset: 21908},
 																expr: &actionExpr{
-																	pos: position{line: 2912, col: 10, offset: 91925},
+																	pos: position{line: 2918, col: 10, offset: 92139},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2912, col: 10, offset: 91925},
+																		pos:        position{line: 2918, col: 10, offset: 92139},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39148,28 +39148,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2934, col: 8, offset: 92323},
+																pos: position{line: 2940, col: 8, offset: 92537},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2921, col: 12, offset: 92096},
+																		pos: position{line: 2927, col: 12, offset: 92310},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2921, col: 13, offset: 92097},
+																			pos: position{line: 2927, col: 13, offset: 92311},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2921, col: 13, offset: 92097},
+																					pos:        position{line: 2927, col: 13, offset: 92311},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2921, col: 20, offset: 92104},
+																					pos:        position{line: 2927, col: 20, offset: 92318},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2921, col: 29, offset: 92113},
+																					pos:        position{line: 2927, col: 29, offset: 92327},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39178,9 +39178,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2931, col: 8, offset: 92273},
+																		pos: position{line: 2937, col: 8, offset: 92487},
 																		expr: &anyMatcher{
-																			line: 2931, col: 9, offset: 92274,
+																			line: 2937, col: 9, offset: 92488,
 																		},
 																	},
 																},
@@ -39190,24 +39190,24 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1769, col: 9, offset: 57298},
+												pos: position{line: 1775, col: 9, offset: 57512},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1769, col: 10, offset: 57299},
+													pos:  position{line: 1775, col: 10, offset: 57513},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1770, col: 9, offset: 57323},
+												pos: position{line: 1776, col: 9, offset: 57537},
 												expr: &actionExpr{
-													pos: position{line: 727, col: 5, offset: 23240},
+													pos: position{line: 733, col: 5, offset: 23454},
 													run: (*parser).callonShortcutParagraph76,
 													expr: &seqExpr{
-														pos: position{line: 727, col: 5, offset: 23240},
+														pos: position{line: 733, col: 5, offset: 23454},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 727, col: 5, offset: 23240},
+																pos: position{line: 733, col: 5, offset: 23454},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2802, col: 13, offset: 89020},
+																	pos:        position{line: 2808, col: 13, offset: 89234},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -39215,36 +39215,36 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 728, col: 5, offset: 23270},
+																pos:   position{line: 734, col: 5, offset: 23484},
 																label: "delimiter",
 																expr: &choiceExpr{
-																	pos: position{line: 729, col: 9, offset: 23290},
+																	pos: position{line: 735, col: 9, offset: 23504},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 743, col: 5, offset: 23782},
+																			pos: position{line: 749, col: 5, offset: 23996},
 																			run: (*parser).callonShortcutParagraph82,
 																			expr: &seqExpr{
-																				pos: position{line: 743, col: 5, offset: 23782},
+																				pos: position{line: 749, col: 5, offset: 23996},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 743, col: 5, offset: 23782},
+																						pos:   position{line: 749, col: 5, offset: 23996},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 743, col: 16, offset: 23793},
+																							pos: position{line: 749, col: 16, offset: 24007},
 																							run: (*parser).callonShortcutParagraph85,
 																							expr: &seqExpr{
-																								pos: position{line: 743, col: 16, offset: 23793},
+																								pos: position{line: 749, col: 16, offset: 24007},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 743, col: 16, offset: 23793},
+																										pos:        position{line: 749, col: 16, offset: 24007},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 743, col: 23, offset: 23800},
+																										pos: position{line: 749, col: 23, offset: 24014},
 																										expr: &litMatcher{
-																											pos:        position{line: 743, col: 23, offset: 23800},
+																											pos:        position{line: 749, col: 23, offset: 24014},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -39255,12 +39255,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 745, col: 8, offset: 23884},
+																						pos: position{line: 751, col: 8, offset: 24098},
 																						expr: &actionExpr{
-																							pos: position{line: 2912, col: 10, offset: 91925},
+																							pos: position{line: 2918, col: 10, offset: 92139},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2912, col: 10, offset: 91925},
+																								pos:        position{line: 2918, col: 10, offset: 92139},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39269,28 +39269,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2934, col: 8, offset: 92323},
+																						pos: position{line: 2940, col: 8, offset: 92537},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2921, col: 12, offset: 92096},
+																								pos: position{line: 2927, col: 12, offset: 92310},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2921, col: 13, offset: 92097},
+																									pos: position{line: 2927, col: 13, offset: 92311},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 13, offset: 92097},
+																											pos:        position{line: 2927, col: 13, offset: 92311},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 20, offset: 92104},
+																											pos:        position{line: 2927, col: 20, offset: 92318},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 29, offset: 92113},
+																											pos:        position{line: 2927, col: 29, offset: 92327},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39299,9 +39299,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2931, col: 8, offset: 92273},
+																								pos: position{line: 2937, col: 8, offset: 92487},
 																								expr: &anyMatcher{
-																									line: 2931, col: 9, offset: 92274,
+																									line: 2937, col: 9, offset: 92488,
 																								},
 																							},
 																						},
@@ -39310,30 +39310,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 750, col: 5, offset: 24030},
+																			pos: position{line: 756, col: 5, offset: 24244},
 																			run: (*parser).callonShortcutParagraph101,
 																			expr: &seqExpr{
-																				pos: position{line: 750, col: 5, offset: 24030},
+																				pos: position{line: 756, col: 5, offset: 24244},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 750, col: 5, offset: 24030},
+																						pos:   position{line: 756, col: 5, offset: 24244},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 750, col: 16, offset: 24041},
+																							pos: position{line: 756, col: 16, offset: 24255},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &seqExpr{
-																								pos: position{line: 750, col: 16, offset: 24041},
+																								pos: position{line: 756, col: 16, offset: 24255},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 750, col: 16, offset: 24041},
+																										pos:        position{line: 756, col: 16, offset: 24255},
 																										val:        "====",
 																										ignoreCase: false,
 																										want:       "\"====\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 750, col: 23, offset: 24048},
+																										pos: position{line: 756, col: 23, offset: 24262},
 																										expr: &litMatcher{
-																											pos:        position{line: 750, col: 23, offset: 24048},
+																											pos:        position{line: 756, col: 23, offset: 24262},
 																											val:        "=",
 																											ignoreCase: false,
 																											want:       "\"=\"",
@@ -39344,12 +39344,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 752, col: 8, offset: 24132},
+																						pos: position{line: 758, col: 8, offset: 24346},
 																						expr: &actionExpr{
-																							pos: position{line: 2912, col: 10, offset: 91925},
+																							pos: position{line: 2918, col: 10, offset: 92139},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2912, col: 10, offset: 91925},
+																								pos:        position{line: 2918, col: 10, offset: 92139},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39358,28 +39358,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2934, col: 8, offset: 92323},
+																						pos: position{line: 2940, col: 8, offset: 92537},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2921, col: 12, offset: 92096},
+																								pos: position{line: 2927, col: 12, offset: 92310},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2921, col: 13, offset: 92097},
+																									pos: position{line: 2927, col: 13, offset: 92311},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 13, offset: 92097},
+																											pos:        position{line: 2927, col: 13, offset: 92311},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 20, offset: 92104},
+																											pos:        position{line: 2927, col: 20, offset: 92318},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 29, offset: 92113},
+																											pos:        position{line: 2927, col: 29, offset: 92327},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39388,9 +39388,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2931, col: 8, offset: 92273},
+																								pos: position{line: 2937, col: 8, offset: 92487},
 																								expr: &anyMatcher{
-																									line: 2931, col: 9, offset: 92274,
+																									line: 2937, col: 9, offset: 92488,
 																								},
 																							},
 																						},
@@ -39399,27 +39399,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 763, col: 26, offset: 24518},
+																			pos: position{line: 769, col: 26, offset: 24732},
 																			run: (*parser).callonShortcutParagraph120,
 																			expr: &seqExpr{
-																				pos: position{line: 763, col: 26, offset: 24518},
+																				pos: position{line: 769, col: 26, offset: 24732},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 763, col: 26, offset: 24518},
+																						pos:        position{line: 769, col: 26, offset: 24732},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 763, col: 32, offset: 24524},
+																						pos:   position{line: 769, col: 32, offset: 24738},
 																						label: "language",
 																						expr: &actionExpr{
-																							pos: position{line: 767, col: 13, offset: 24654},
+																							pos: position{line: 773, col: 13, offset: 24868},
 																							run: (*parser).callonShortcutParagraph124,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 767, col: 14, offset: 24655},
+																								pos: position{line: 773, col: 14, offset: 24869},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 767, col: 14, offset: 24655},
+																									pos:        position{line: 773, col: 14, offset: 24869},
 																									val:        "[^\\r\\n` ]",
 																									chars:      []rune{'\r', '\n', '`', ' '},
 																									ignoreCase: false,
@@ -39429,12 +39429,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 763, col: 52, offset: 24544},
+																						pos: position{line: 769, col: 52, offset: 24758},
 																						expr: &actionExpr{
-																							pos: position{line: 2912, col: 10, offset: 91925},
+																							pos: position{line: 2918, col: 10, offset: 92139},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2912, col: 10, offset: 91925},
+																								pos:        position{line: 2918, col: 10, offset: 92139},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39443,28 +39443,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2934, col: 8, offset: 92323},
+																						pos: position{line: 2940, col: 8, offset: 92537},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2921, col: 12, offset: 92096},
+																								pos: position{line: 2927, col: 12, offset: 92310},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2921, col: 13, offset: 92097},
+																									pos: position{line: 2927, col: 13, offset: 92311},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 13, offset: 92097},
+																											pos:        position{line: 2927, col: 13, offset: 92311},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 20, offset: 92104},
+																											pos:        position{line: 2927, col: 20, offset: 92318},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 29, offset: 92113},
+																											pos:        position{line: 2927, col: 29, offset: 92327},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39473,9 +39473,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2931, col: 8, offset: 92273},
+																								pos: position{line: 2937, col: 8, offset: 92487},
 																								expr: &anyMatcher{
-																									line: 2931, col: 9, offset: 92274,
+																									line: 2937, col: 9, offset: 92488,
 																								},
 																							},
 																						},
@@ -39484,30 +39484,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 757, col: 5, offset: 24277},
+																			pos: position{line: 763, col: 5, offset: 24491},
 																			run: (*parser).callonShortcutParagraph138,
 																			expr: &seqExpr{
-																				pos: position{line: 757, col: 5, offset: 24277},
+																				pos: position{line: 763, col: 5, offset: 24491},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 757, col: 5, offset: 24277},
+																						pos:   position{line: 763, col: 5, offset: 24491},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 757, col: 16, offset: 24288},
+																							pos: position{line: 763, col: 16, offset: 24502},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &seqExpr{
-																								pos: position{line: 757, col: 16, offset: 24288},
+																								pos: position{line: 763, col: 16, offset: 24502},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 757, col: 16, offset: 24288},
+																										pos:        position{line: 763, col: 16, offset: 24502},
 																										val:        "```",
 																										ignoreCase: false,
 																										want:       "\"```\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 757, col: 22, offset: 24294},
+																										pos: position{line: 763, col: 22, offset: 24508},
 																										expr: &litMatcher{
-																											pos:        position{line: 757, col: 22, offset: 24294},
+																											pos:        position{line: 763, col: 22, offset: 24508},
 																											val:        "`",
 																											ignoreCase: false,
 																											want:       "\"`\"",
@@ -39518,12 +39518,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 759, col: 8, offset: 24378},
+																						pos: position{line: 765, col: 8, offset: 24592},
 																						expr: &actionExpr{
-																							pos: position{line: 2912, col: 10, offset: 91925},
+																							pos: position{line: 2918, col: 10, offset: 92139},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2912, col: 10, offset: 91925},
+																								pos:        position{line: 2918, col: 10, offset: 92139},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39532,28 +39532,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2934, col: 8, offset: 92323},
+																						pos: position{line: 2940, col: 8, offset: 92537},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2921, col: 12, offset: 92096},
+																								pos: position{line: 2927, col: 12, offset: 92310},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2921, col: 13, offset: 92097},
+																									pos: position{line: 2927, col: 13, offset: 92311},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 13, offset: 92097},
+																											pos:        position{line: 2927, col: 13, offset: 92311},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 20, offset: 92104},
+																											pos:        position{line: 2927, col: 20, offset: 92318},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 29, offset: 92113},
+																											pos:        position{line: 2927, col: 29, offset: 92327},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39562,9 +39562,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2931, col: 8, offset: 92273},
+																								pos: position{line: 2937, col: 8, offset: 92487},
 																								expr: &anyMatcher{
-																									line: 2931, col: 9, offset: 92274,
+																									line: 2937, col: 9, offset: 92488,
 																								},
 																							},
 																						},
@@ -39573,30 +39573,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 772, col: 5, offset: 24814},
+																			pos: position{line: 778, col: 5, offset: 25028},
 																			run: (*parser).callonShortcutParagraph157,
 																			expr: &seqExpr{
-																				pos: position{line: 772, col: 5, offset: 24814},
+																				pos: position{line: 778, col: 5, offset: 25028},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 772, col: 5, offset: 24814},
+																						pos:   position{line: 778, col: 5, offset: 25028},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 772, col: 16, offset: 24825},
+																							pos: position{line: 778, col: 16, offset: 25039},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &seqExpr{
-																								pos: position{line: 772, col: 16, offset: 24825},
+																								pos: position{line: 778, col: 16, offset: 25039},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 772, col: 16, offset: 24825},
+																										pos:        position{line: 778, col: 16, offset: 25039},
 																										val:        "----",
 																										ignoreCase: false,
 																										want:       "\"----\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 772, col: 23, offset: 24832},
+																										pos: position{line: 778, col: 23, offset: 25046},
 																										expr: &litMatcher{
-																											pos:        position{line: 772, col: 23, offset: 24832},
+																											pos:        position{line: 778, col: 23, offset: 25046},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
@@ -39607,12 +39607,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 774, col: 8, offset: 24916},
+																						pos: position{line: 780, col: 8, offset: 25130},
 																						expr: &actionExpr{
-																							pos: position{line: 2912, col: 10, offset: 91925},
+																							pos: position{line: 2918, col: 10, offset: 92139},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2912, col: 10, offset: 91925},
+																								pos:        position{line: 2918, col: 10, offset: 92139},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39621,28 +39621,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2934, col: 8, offset: 92323},
+																						pos: position{line: 2940, col: 8, offset: 92537},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2921, col: 12, offset: 92096},
+																								pos: position{line: 2927, col: 12, offset: 92310},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2921, col: 13, offset: 92097},
+																									pos: position{line: 2927, col: 13, offset: 92311},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 13, offset: 92097},
+																											pos:        position{line: 2927, col: 13, offset: 92311},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 20, offset: 92104},
+																											pos:        position{line: 2927, col: 20, offset: 92318},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 29, offset: 92113},
+																											pos:        position{line: 2927, col: 29, offset: 92327},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39651,9 +39651,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2931, col: 8, offset: 92273},
+																								pos: position{line: 2937, col: 8, offset: 92487},
 																								expr: &anyMatcher{
-																									line: 2931, col: 9, offset: 92274,
+																									line: 2937, col: 9, offset: 92488,
 																								},
 																							},
 																						},
@@ -39662,30 +39662,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 786, col: 5, offset: 25290},
+																			pos: position{line: 792, col: 5, offset: 25504},
 																			run: (*parser).callonShortcutParagraph176,
 																			expr: &seqExpr{
-																				pos: position{line: 786, col: 5, offset: 25290},
+																				pos: position{line: 792, col: 5, offset: 25504},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 786, col: 5, offset: 25290},
+																						pos:   position{line: 792, col: 5, offset: 25504},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 786, col: 16, offset: 25301},
+																							pos: position{line: 792, col: 16, offset: 25515},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &seqExpr{
-																								pos: position{line: 786, col: 16, offset: 25301},
+																								pos: position{line: 792, col: 16, offset: 25515},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 786, col: 16, offset: 25301},
+																										pos:        position{line: 792, col: 16, offset: 25515},
 																										val:        "....",
 																										ignoreCase: false,
 																										want:       "\"....\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 786, col: 23, offset: 25308},
+																										pos: position{line: 792, col: 23, offset: 25522},
 																										expr: &litMatcher{
-																											pos:        position{line: 786, col: 23, offset: 25308},
+																											pos:        position{line: 792, col: 23, offset: 25522},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -39696,12 +39696,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 788, col: 8, offset: 25392},
+																						pos: position{line: 794, col: 8, offset: 25606},
 																						expr: &actionExpr{
-																							pos: position{line: 2912, col: 10, offset: 91925},
+																							pos: position{line: 2918, col: 10, offset: 92139},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2912, col: 10, offset: 91925},
+																								pos:        position{line: 2918, col: 10, offset: 92139},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39710,28 +39710,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2934, col: 8, offset: 92323},
+																						pos: position{line: 2940, col: 8, offset: 92537},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2921, col: 12, offset: 92096},
+																								pos: position{line: 2927, col: 12, offset: 92310},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2921, col: 13, offset: 92097},
+																									pos: position{line: 2927, col: 13, offset: 92311},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 13, offset: 92097},
+																											pos:        position{line: 2927, col: 13, offset: 92311},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 20, offset: 92104},
+																											pos:        position{line: 2927, col: 20, offset: 92318},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 29, offset: 92113},
+																											pos:        position{line: 2927, col: 29, offset: 92327},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39740,9 +39740,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2931, col: 8, offset: 92273},
+																								pos: position{line: 2937, col: 8, offset: 92487},
 																								expr: &anyMatcher{
-																									line: 2931, col: 9, offset: 92274,
+																									line: 2937, col: 9, offset: 92488,
 																								},
 																							},
 																						},
@@ -39751,30 +39751,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 793, col: 5, offset: 25542},
+																			pos: position{line: 799, col: 5, offset: 25756},
 																			run: (*parser).callonShortcutParagraph195,
 																			expr: &seqExpr{
-																				pos: position{line: 793, col: 5, offset: 25542},
+																				pos: position{line: 799, col: 5, offset: 25756},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 793, col: 5, offset: 25542},
+																						pos:   position{line: 799, col: 5, offset: 25756},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 793, col: 16, offset: 25553},
+																							pos: position{line: 799, col: 16, offset: 25767},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &seqExpr{
-																								pos: position{line: 793, col: 16, offset: 25553},
+																								pos: position{line: 799, col: 16, offset: 25767},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 793, col: 16, offset: 25553},
+																										pos:        position{line: 799, col: 16, offset: 25767},
 																										val:        "++++",
 																										ignoreCase: false,
 																										want:       "\"++++\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 793, col: 23, offset: 25560},
+																										pos: position{line: 799, col: 23, offset: 25774},
 																										expr: &litMatcher{
-																											pos:        position{line: 793, col: 23, offset: 25560},
+																											pos:        position{line: 799, col: 23, offset: 25774},
 																											val:        "+",
 																											ignoreCase: false,
 																											want:       "\"+\"",
@@ -39785,12 +39785,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 795, col: 8, offset: 25644},
+																						pos: position{line: 801, col: 8, offset: 25858},
 																						expr: &actionExpr{
-																							pos: position{line: 2912, col: 10, offset: 91925},
+																							pos: position{line: 2918, col: 10, offset: 92139},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2912, col: 10, offset: 91925},
+																								pos:        position{line: 2918, col: 10, offset: 92139},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39799,28 +39799,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2934, col: 8, offset: 92323},
+																						pos: position{line: 2940, col: 8, offset: 92537},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2921, col: 12, offset: 92096},
+																								pos: position{line: 2927, col: 12, offset: 92310},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2921, col: 13, offset: 92097},
+																									pos: position{line: 2927, col: 13, offset: 92311},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 13, offset: 92097},
+																											pos:        position{line: 2927, col: 13, offset: 92311},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 20, offset: 92104},
+																											pos:        position{line: 2927, col: 20, offset: 92318},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 29, offset: 92113},
+																											pos:        position{line: 2927, col: 29, offset: 92327},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39829,9 +39829,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2931, col: 8, offset: 92273},
+																								pos: position{line: 2937, col: 8, offset: 92487},
 																								expr: &anyMatcher{
-																									line: 2931, col: 9, offset: 92274,
+																									line: 2937, col: 9, offset: 92488,
 																								},
 																							},
 																						},
@@ -39840,30 +39840,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 800, col: 5, offset: 25792},
+																			pos: position{line: 806, col: 5, offset: 26006},
 																			run: (*parser).callonShortcutParagraph214,
 																			expr: &seqExpr{
-																				pos: position{line: 800, col: 5, offset: 25792},
+																				pos: position{line: 806, col: 5, offset: 26006},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 800, col: 5, offset: 25792},
+																						pos:   position{line: 806, col: 5, offset: 26006},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 800, col: 16, offset: 25803},
+																							pos: position{line: 806, col: 16, offset: 26017},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &seqExpr{
-																								pos: position{line: 800, col: 16, offset: 25803},
+																								pos: position{line: 806, col: 16, offset: 26017},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 800, col: 16, offset: 25803},
+																										pos:        position{line: 806, col: 16, offset: 26017},
 																										val:        "____",
 																										ignoreCase: false,
 																										want:       "\"____\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 800, col: 23, offset: 25810},
+																										pos: position{line: 806, col: 23, offset: 26024},
 																										expr: &litMatcher{
-																											pos:        position{line: 800, col: 23, offset: 25810},
+																											pos:        position{line: 806, col: 23, offset: 26024},
 																											val:        "_",
 																											ignoreCase: false,
 																											want:       "\"_\"",
@@ -39874,12 +39874,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 802, col: 8, offset: 25894},
+																						pos: position{line: 808, col: 8, offset: 26108},
 																						expr: &actionExpr{
-																							pos: position{line: 2912, col: 10, offset: 91925},
+																							pos: position{line: 2918, col: 10, offset: 92139},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2912, col: 10, offset: 91925},
+																								pos:        position{line: 2918, col: 10, offset: 92139},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39888,28 +39888,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2934, col: 8, offset: 92323},
+																						pos: position{line: 2940, col: 8, offset: 92537},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2921, col: 12, offset: 92096},
+																								pos: position{line: 2927, col: 12, offset: 92310},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2921, col: 13, offset: 92097},
+																									pos: position{line: 2927, col: 13, offset: 92311},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 13, offset: 92097},
+																											pos:        position{line: 2927, col: 13, offset: 92311},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 20, offset: 92104},
+																											pos:        position{line: 2927, col: 20, offset: 92318},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 29, offset: 92113},
+																											pos:        position{line: 2927, col: 29, offset: 92327},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39918,9 +39918,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2931, col: 8, offset: 92273},
+																								pos: position{line: 2937, col: 8, offset: 92487},
 																								expr: &anyMatcher{
-																									line: 2931, col: 9, offset: 92274,
+																									line: 2937, col: 9, offset: 92488,
 																								},
 																							},
 																						},
@@ -39929,30 +39929,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 807, col: 5, offset: 26038},
+																			pos: position{line: 813, col: 5, offset: 26252},
 																			run: (*parser).callonShortcutParagraph233,
 																			expr: &seqExpr{
-																				pos: position{line: 807, col: 5, offset: 26038},
+																				pos: position{line: 813, col: 5, offset: 26252},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 807, col: 5, offset: 26038},
+																						pos:   position{line: 813, col: 5, offset: 26252},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 807, col: 16, offset: 26049},
+																							pos: position{line: 813, col: 16, offset: 26263},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &seqExpr{
-																								pos: position{line: 807, col: 16, offset: 26049},
+																								pos: position{line: 813, col: 16, offset: 26263},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 807, col: 16, offset: 26049},
+																										pos:        position{line: 813, col: 16, offset: 26263},
 																										val:        "****",
 																										ignoreCase: false,
 																										want:       "\"****\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 807, col: 23, offset: 26056},
+																										pos: position{line: 813, col: 23, offset: 26270},
 																										expr: &litMatcher{
-																											pos:        position{line: 807, col: 23, offset: 26056},
+																											pos:        position{line: 813, col: 23, offset: 26270},
 																											val:        "*",
 																											ignoreCase: false,
 																											want:       "\"*\"",
@@ -39963,12 +39963,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 809, col: 8, offset: 26140},
+																						pos: position{line: 815, col: 8, offset: 26354},
 																						expr: &actionExpr{
-																							pos: position{line: 2912, col: 10, offset: 91925},
+																							pos: position{line: 2918, col: 10, offset: 92139},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2912, col: 10, offset: 91925},
+																								pos:        position{line: 2918, col: 10, offset: 92139},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39977,28 +39977,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2934, col: 8, offset: 92323},
+																						pos: position{line: 2940, col: 8, offset: 92537},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2921, col: 12, offset: 92096},
+																								pos: position{line: 2927, col: 12, offset: 92310},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2921, col: 13, offset: 92097},
+																									pos: position{line: 2927, col: 13, offset: 92311},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 13, offset: 92097},
+																											pos:        position{line: 2927, col: 13, offset: 92311},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 20, offset: 92104},
+																											pos:        position{line: 2927, col: 20, offset: 92318},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2921, col: 29, offset: 92113},
+																											pos:        position{line: 2927, col: 29, offset: 92327},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40007,9 +40007,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2931, col: 8, offset: 92273},
+																								pos: position{line: 2937, col: 8, offset: 92487},
 																								expr: &anyMatcher{
-																									line: 2931, col: 9, offset: 92274,
+																									line: 2937, col: 9, offset: 92488,
 																								},
 																							},
 																						},
@@ -40025,23 +40025,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1771, col: 9, offset: 57347},
+												pos: position{line: 1777, col: 9, offset: 57561},
 												expr: &seqExpr{
-													pos: position{line: 1545, col: 27, offset: 49984},
+													pos: position{line: 1551, col: 27, offset: 50198},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1545, col: 27, offset: 49984},
+															pos:        position{line: 1551, col: 27, offset: 50198},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1545, col: 31, offset: 49988},
+															pos: position{line: 1551, col: 31, offset: 50202},
 															expr: &actionExpr{
-																pos: position{line: 2912, col: 10, offset: 91925},
+																pos: position{line: 2918, col: 10, offset: 92139},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2912, col: 10, offset: 91925},
+																	pos:        position{line: 2918, col: 10, offset: 92139},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40050,25 +40050,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2921, col: 12, offset: 92096},
+															pos: position{line: 2927, col: 12, offset: 92310},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2921, col: 13, offset: 92097},
+																pos: position{line: 2927, col: 13, offset: 92311},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 13, offset: 92097},
+																		pos:        position{line: 2927, col: 13, offset: 92311},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 20, offset: 92104},
+																		pos:        position{line: 2927, col: 20, offset: 92318},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 29, offset: 92113},
+																		pos:        position{line: 2927, col: 29, offset: 92327},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40080,42 +40080,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1772, col: 9, offset: 57379},
+												pos:   position{line: 1778, col: 9, offset: 57593},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1772, col: 15, offset: 57385},
+													pos: position{line: 1778, col: 15, offset: 57599},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2515, col: 22, offset: 80703},
+															pos: position{line: 2521, col: 22, offset: 80917},
 															run: (*parser).callonShortcutParagraph265,
 															expr: &seqExpr{
-																pos: position{line: 2515, col: 22, offset: 80703},
+																pos: position{line: 2521, col: 22, offset: 80917},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2520, col: 31, offset: 80953},
+																		pos:        position{line: 2526, col: 31, offset: 81167},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2520, col: 36, offset: 80958},
+																		pos: position{line: 2526, col: 36, offset: 81172},
 																		expr: &litMatcher{
-																			pos:        position{line: 2520, col: 37, offset: 80959},
+																			pos:        position{line: 2526, col: 37, offset: 81173},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2515, col: 49, offset: 80730},
+																		pos:   position{line: 2521, col: 49, offset: 80944},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2858, col: 13, offset: 90451},
+																			pos: position{line: 2864, col: 13, offset: 90665},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2858, col: 13, offset: 90451},
+																				pos: position{line: 2864, col: 13, offset: 90665},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2858, col: 13, offset: 90451},
+																					pos:        position{line: 2864, col: 13, offset: 90665},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40125,28 +40125,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2934, col: 8, offset: 92323},
+																		pos: position{line: 2940, col: 8, offset: 92537},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40155,9 +40155,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2931, col: 8, offset: 92273},
+																				pos: position{line: 2937, col: 8, offset: 92487},
 																				expr: &anyMatcher{
-																					line: 2931, col: 9, offset: 92274,
+																					line: 2937, col: 9, offset: 92488,
 																				},
 																			},
 																		},
@@ -40166,21 +40166,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1794, col: 5, offset: 57985},
+															pos: position{line: 1800, col: 5, offset: 58199},
 															run: (*parser).callonShortcutParagraph282,
 															expr: &seqExpr{
-																pos: position{line: 1794, col: 5, offset: 57985},
+																pos: position{line: 1800, col: 5, offset: 58199},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1794, col: 5, offset: 57985},
+																		pos:   position{line: 1800, col: 5, offset: 58199},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2862, col: 14, offset: 90518},
+																			pos: position{line: 2868, col: 14, offset: 90732},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2862, col: 14, offset: 90518},
+																				pos: position{line: 2868, col: 14, offset: 90732},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2862, col: 14, offset: 90518},
+																					pos:        position{line: 2868, col: 14, offset: 90732},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40190,32 +40190,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1795, col: 5, offset: 58009},
+																		pos: position{line: 1801, col: 5, offset: 58223},
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2934, col: 8, offset: 92323},
+																		pos: position{line: 2940, col: 8, offset: 92537},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40224,9 +40224,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2931, col: 8, offset: 92273},
+																				pos: position{line: 2937, col: 8, offset: 92487},
 																				expr: &anyMatcher{
-																					line: 2931, col: 9, offset: 92274,
+																					line: 2937, col: 9, offset: 92488,
 																				},
 																			},
 																		},
@@ -40248,96 +40248,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1779, col: 1, offset: 57589},
+			pos:  position{line: 1785, col: 1, offset: 57803},
 			expr: &actionExpr{
-				pos: position{line: 1780, col: 5, offset: 57607},
+				pos: position{line: 1786, col: 5, offset: 57821},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1780, col: 5, offset: 57607},
+					pos: position{line: 1786, col: 5, offset: 57821},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1780, col: 5, offset: 57607},
+							pos:   position{line: 1786, col: 5, offset: 57821},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1780, col: 11, offset: 57613},
+								pos: position{line: 1786, col: 11, offset: 57827},
 								expr: &actionExpr{
-									pos: position{line: 1735, col: 5, offset: 56119},
+									pos: position{line: 1741, col: 5, offset: 56333},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1735, col: 5, offset: 56119},
+										pos: position{line: 1741, col: 5, offset: 56333},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1735, col: 5, offset: 56119},
+												pos: position{line: 1741, col: 5, offset: 56333},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1738, col: 5, offset: 56182},
+												pos:   position{line: 1744, col: 5, offset: 56396},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1738, col: 12, offset: 56189},
+													pos: position{line: 1744, col: 12, offset: 56403},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1738, col: 12, offset: 56189},
+															pos: position{line: 1744, col: 12, offset: 56403},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1738, col: 12, offset: 56189},
+																pos:        position{line: 1744, col: 12, offset: 56403},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1740, col: 13, offset: 56245},
+															pos: position{line: 1746, col: 13, offset: 56459},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1740, col: 13, offset: 56245},
+																pos:        position{line: 1746, col: 13, offset: 56459},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1742, col: 13, offset: 56303},
+															pos: position{line: 1748, col: 13, offset: 56517},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1742, col: 13, offset: 56303},
+																pos:        position{line: 1748, col: 13, offset: 56517},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1744, col: 13, offset: 56371},
+															pos: position{line: 1750, col: 13, offset: 56585},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1744, col: 13, offset: 56371},
+																pos:        position{line: 1750, col: 13, offset: 56585},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1746, col: 13, offset: 56435},
+															pos: position{line: 1752, col: 13, offset: 56649},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1746, col: 13, offset: 56435},
+																pos:        position{line: 1752, col: 13, offset: 56649},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1748, col: 13, offset: 56499},
+															pos: position{line: 1754, col: 13, offset: 56713},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1748, col: 13, offset: 56499},
+																pos: position{line: 1754, col: 13, offset: 56713},
 																expr: &actionExpr{
-																	pos: position{line: 2916, col: 11, offset: 91986},
+																	pos: position{line: 2922, col: 11, offset: 92200},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2916, col: 11, offset: 91986},
+																		pos: position{line: 2922, col: 11, offset: 92200},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2916, col: 11, offset: 91986},
+																			pos:        position{line: 2922, col: 11, offset: 92200},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40356,24 +40356,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1781, col: 5, offset: 57636},
+							pos:   position{line: 1787, col: 5, offset: 57850},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1794, col: 5, offset: 57985},
+								pos: position{line: 1800, col: 5, offset: 58199},
 								run: (*parser).callonParagraph26,
 								expr: &seqExpr{
-									pos: position{line: 1794, col: 5, offset: 57985},
+									pos: position{line: 1800, col: 5, offset: 58199},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1794, col: 5, offset: 57985},
+											pos:   position{line: 1800, col: 5, offset: 58199},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2862, col: 14, offset: 90518},
+												pos: position{line: 2868, col: 14, offset: 90732},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2862, col: 14, offset: 90518},
+													pos: position{line: 2868, col: 14, offset: 90732},
 													expr: &charClassMatcher{
-														pos:        position{line: 2862, col: 14, offset: 90518},
+														pos:        position{line: 2868, col: 14, offset: 90732},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40383,32 +40383,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1795, col: 5, offset: 58009},
+											pos: position{line: 1801, col: 5, offset: 58223},
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2934, col: 8, offset: 92323},
+											pos: position{line: 2940, col: 8, offset: 92537},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2921, col: 12, offset: 92096},
+													pos: position{line: 2927, col: 12, offset: 92310},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2921, col: 13, offset: 92097},
+														pos: position{line: 2927, col: 13, offset: 92311},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2921, col: 13, offset: 92097},
+																pos:        position{line: 2927, col: 13, offset: 92311},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2921, col: 20, offset: 92104},
+																pos:        position{line: 2927, col: 20, offset: 92318},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2921, col: 29, offset: 92113},
+																pos:        position{line: 2927, col: 29, offset: 92327},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40417,9 +40417,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2931, col: 8, offset: 92273},
+													pos: position{line: 2937, col: 8, offset: 92487},
 													expr: &anyMatcher{
-														line: 2931, col: 9, offset: 92274,
+														line: 2937, col: 9, offset: 92488,
 													},
 												},
 											},
@@ -40429,43 +40429,43 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1782, col: 5, offset: 57670},
+							pos:   position{line: 1788, col: 5, offset: 57884},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1782, col: 16, offset: 57681},
+								pos: position{line: 1788, col: 16, offset: 57895},
 								expr: &actionExpr{
-									pos: position{line: 1783, col: 9, offset: 57691},
+									pos: position{line: 1789, col: 9, offset: 57905},
 									run: (*parser).callonParagraph43,
 									expr: &seqExpr{
-										pos: position{line: 1783, col: 9, offset: 57691},
+										pos: position{line: 1789, col: 9, offset: 57905},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2929, col: 11, offset: 92259},
+												pos: position{line: 2935, col: 11, offset: 92473},
 												expr: &anyMatcher{
-													line: 2929, col: 13, offset: 92261,
+													line: 2935, col: 13, offset: 92475,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1784, col: 9, offset: 57706},
+												pos: position{line: 1790, col: 9, offset: 57920},
 												expr: &actionExpr{
-													pos: position{line: 680, col: 14, offset: 21687},
+													pos: position{line: 686, col: 14, offset: 21901},
 													run: (*parser).callonParagraph48,
 													expr: &seqExpr{
-														pos: position{line: 680, col: 14, offset: 21687},
+														pos: position{line: 686, col: 14, offset: 21901},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2929, col: 11, offset: 92259},
+																pos: position{line: 2935, col: 11, offset: 92473},
 																expr: &anyMatcher{
-																	line: 2929, col: 13, offset: 92261,
+																	line: 2935, col: 13, offset: 92475,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 680, col: 21, offset: 21694},
+																pos: position{line: 686, col: 21, offset: 21908},
 																expr: &actionExpr{
-																	pos: position{line: 2912, col: 10, offset: 91925},
+																	pos: position{line: 2918, col: 10, offset: 92139},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2912, col: 10, offset: 91925},
+																		pos:        position{line: 2918, col: 10, offset: 92139},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40474,28 +40474,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2934, col: 8, offset: 92323},
+																pos: position{line: 2940, col: 8, offset: 92537},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2921, col: 12, offset: 92096},
+																		pos: position{line: 2927, col: 12, offset: 92310},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2921, col: 13, offset: 92097},
+																			pos: position{line: 2927, col: 13, offset: 92311},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2921, col: 13, offset: 92097},
+																					pos:        position{line: 2927, col: 13, offset: 92311},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2921, col: 20, offset: 92104},
+																					pos:        position{line: 2927, col: 20, offset: 92318},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2921, col: 29, offset: 92113},
+																					pos:        position{line: 2927, col: 29, offset: 92327},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40504,9 +40504,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2931, col: 8, offset: 92273},
+																		pos: position{line: 2937, col: 8, offset: 92487},
 																		expr: &anyMatcher{
-																			line: 2931, col: 9, offset: 92274,
+																			line: 2937, col: 9, offset: 92488,
 																		},
 																	},
 																},
@@ -40516,49 +40516,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1785, col: 9, offset: 57725},
+												pos: position{line: 1791, col: 9, offset: 57939},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1785, col: 10, offset: 57726},
+													pos:  position{line: 1791, col: 10, offset: 57940},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1786, col: 9, offset: 57750},
+												pos:   position{line: 1792, col: 9, offset: 57964},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1786, col: 15, offset: 57756},
+													pos: position{line: 1792, col: 15, offset: 57970},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2515, col: 22, offset: 80703},
+															pos: position{line: 2521, col: 22, offset: 80917},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 2515, col: 22, offset: 80703},
+																pos: position{line: 2521, col: 22, offset: 80917},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2520, col: 31, offset: 80953},
+																		pos:        position{line: 2526, col: 31, offset: 81167},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2520, col: 36, offset: 80958},
+																		pos: position{line: 2526, col: 36, offset: 81172},
 																		expr: &litMatcher{
-																			pos:        position{line: 2520, col: 37, offset: 80959},
+																			pos:        position{line: 2526, col: 37, offset: 81173},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2515, col: 49, offset: 80730},
+																		pos:   position{line: 2521, col: 49, offset: 80944},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2858, col: 13, offset: 90451},
+																			pos: position{line: 2864, col: 13, offset: 90665},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2858, col: 13, offset: 90451},
+																				pos: position{line: 2864, col: 13, offset: 90665},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2858, col: 13, offset: 90451},
+																					pos:        position{line: 2864, col: 13, offset: 90665},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40568,28 +40568,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2934, col: 8, offset: 92323},
+																		pos: position{line: 2940, col: 8, offset: 92537},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40598,9 +40598,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2931, col: 8, offset: 92273},
+																				pos: position{line: 2937, col: 8, offset: 92487},
 																				expr: &anyMatcher{
-																					line: 2931, col: 9, offset: 92274,
+																					line: 2937, col: 9, offset: 92488,
 																				},
 																			},
 																		},
@@ -40609,21 +40609,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1794, col: 5, offset: 57985},
+															pos: position{line: 1800, col: 5, offset: 58199},
 															run: (*parser).callonParagraph84,
 															expr: &seqExpr{
-																pos: position{line: 1794, col: 5, offset: 57985},
+																pos: position{line: 1800, col: 5, offset: 58199},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1794, col: 5, offset: 57985},
+																		pos:   position{line: 1800, col: 5, offset: 58199},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2862, col: 14, offset: 90518},
+																			pos: position{line: 2868, col: 14, offset: 90732},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2862, col: 14, offset: 90518},
+																				pos: position{line: 2868, col: 14, offset: 90732},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2862, col: 14, offset: 90518},
+																					pos:        position{line: 2868, col: 14, offset: 90732},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40633,32 +40633,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1795, col: 5, offset: 58009},
+																		pos: position{line: 1801, col: 5, offset: 58223},
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2934, col: 8, offset: 92323},
+																		pos: position{line: 2940, col: 8, offset: 92537},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40667,9 +40667,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2931, col: 8, offset: 92273},
+																				pos: position{line: 2937, col: 8, offset: 92487},
 																				expr: &anyMatcher{
-																					line: 2931, col: 9, offset: 92274,
+																					line: 2937, col: 9, offset: 92488,
 																				},
 																			},
 																		},
@@ -40691,16 +40691,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1805, col: 1, offset: 58495},
+			pos:  position{line: 1811, col: 1, offset: 58709},
 			expr: &choiceExpr{
-				pos: position{line: 1805, col: 15, offset: 58509},
+				pos: position{line: 1811, col: 15, offset: 58723},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1805, col: 15, offset: 58509},
+						pos:  position{line: 1811, col: 15, offset: 58723},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1805, col: 35, offset: 58529},
+						pos:  position{line: 1811, col: 35, offset: 58743},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -40708,65 +40708,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1807, col: 1, offset: 58550},
+			pos:  position{line: 1813, col: 1, offset: 58764},
 			expr: &actionExpr{
-				pos: position{line: 1808, col: 5, offset: 58575},
+				pos: position{line: 1814, col: 5, offset: 58789},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1808, col: 5, offset: 58575},
+					pos: position{line: 1814, col: 5, offset: 58789},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1808, col: 5, offset: 58575},
+							pos:   position{line: 1814, col: 5, offset: 58789},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1808, col: 16, offset: 58586},
+								pos: position{line: 1814, col: 16, offset: 58800},
 								expr: &actionExpr{
-									pos: position{line: 1808, col: 17, offset: 58587},
+									pos: position{line: 1814, col: 17, offset: 58801},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1808, col: 17, offset: 58587},
+										pos:  position{line: 1814, col: 17, offset: 58801},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1811, col: 5, offset: 58655},
+							pos: position{line: 1817, col: 5, offset: 58869},
 							expr: &litMatcher{
-								pos:        position{line: 1811, col: 7, offset: 58657},
+								pos:        position{line: 1817, col: 7, offset: 58871},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1812, col: 5, offset: 58666},
+							pos:   position{line: 1818, col: 5, offset: 58880},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1813, col: 9, offset: 58684},
+								pos: position{line: 1819, col: 9, offset: 58898},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1813, col: 9, offset: 58684},
+										pos:  position{line: 1819, col: 9, offset: 58898},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1814, col: 11, offset: 58711},
+										pos:  position{line: 1820, col: 11, offset: 58925},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 11, offset: 58739},
+										pos:  position{line: 1821, col: 11, offset: 58953},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1816, col: 11, offset: 58770},
+										pos:  position{line: 1822, col: 11, offset: 58984},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1817, col: 11, offset: 58798},
+										pos:  position{line: 1823, col: 11, offset: 59012},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1818, col: 11, offset: 58829},
+										pos:  position{line: 1824, col: 11, offset: 59043},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -40778,36 +40778,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1823, col: 1, offset: 58949},
+			pos:  position{line: 1829, col: 1, offset: 59163},
 			expr: &actionExpr{
-				pos: position{line: 1824, col: 5, offset: 58991},
+				pos: position{line: 1830, col: 5, offset: 59205},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1824, col: 5, offset: 58991},
+					pos: position{line: 1830, col: 5, offset: 59205},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1824, col: 5, offset: 58991},
+							pos:   position{line: 1830, col: 5, offset: 59205},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1824, col: 16, offset: 59002},
+								pos: position{line: 1830, col: 16, offset: 59216},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1824, col: 17, offset: 59003},
+									pos:  position{line: 1830, col: 17, offset: 59217},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1825, col: 5, offset: 59028},
+							pos:   position{line: 1831, col: 5, offset: 59242},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1825, col: 14, offset: 59037},
+								pos: position{line: 1831, col: 14, offset: 59251},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1825, col: 14, offset: 59037},
+										pos:  position{line: 1831, col: 14, offset: 59251},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1825, col: 33, offset: 59056},
+										pos:  position{line: 1831, col: 33, offset: 59270},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -40819,32 +40819,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1833, col: 1, offset: 59287},
+			pos:  position{line: 1839, col: 1, offset: 59501},
 			expr: &choiceExpr{
-				pos: position{line: 1834, col: 5, offset: 59312},
+				pos: position{line: 1840, col: 5, offset: 59526},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1834, col: 5, offset: 59312},
+						pos:  position{line: 1840, col: 5, offset: 59526},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 7, offset: 59339},
+						pos:  position{line: 1841, col: 7, offset: 59553},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1836, col: 7, offset: 59367},
+						pos:  position{line: 1842, col: 7, offset: 59581},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1837, col: 7, offset: 59399},
+						pos:  position{line: 1843, col: 7, offset: 59613},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1838, col: 7, offset: 59427},
+						pos:  position{line: 1844, col: 7, offset: 59641},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1839, col: 7, offset: 59448},
+						pos:  position{line: 1845, col: 7, offset: 59662},
 						name: "SuperscriptText",
 					},
 				},
@@ -40852,24 +40852,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1841, col: 1, offset: 59466},
+			pos:  position{line: 1847, col: 1, offset: 59680},
 			expr: &choiceExpr{
-				pos: position{line: 1842, col: 5, offset: 59491},
+				pos: position{line: 1848, col: 5, offset: 59705},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1842, col: 5, offset: 59491},
+						pos:  position{line: 1848, col: 5, offset: 59705},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1843, col: 7, offset: 59517},
+						pos:  position{line: 1849, col: 7, offset: 59731},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1844, col: 7, offset: 59545},
+						pos:  position{line: 1850, col: 7, offset: 59759},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1845, col: 7, offset: 59576},
+						pos:  position{line: 1851, col: 7, offset: 59790},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -40877,26 +40877,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1859, col: 1, offset: 59930},
+			pos:  position{line: 1865, col: 1, offset: 60144},
 			expr: &choiceExpr{
-				pos: position{line: 1860, col: 5, offset: 59956},
+				pos: position{line: 1866, col: 5, offset: 60170},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2811, col: 5, offset: 89167},
+						pos: position{line: 2817, col: 5, offset: 89381},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2811, col: 5, offset: 89167},
+							pos: position{line: 2817, col: 5, offset: 89381},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2811, col: 5, offset: 89167},
+									pos:   position{line: 2817, col: 5, offset: 89381},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2811, col: 11, offset: 89173},
+										pos: position{line: 2817, col: 11, offset: 89387},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2811, col: 11, offset: 89173},
+											pos: position{line: 2817, col: 11, offset: 89387},
 											expr: &charClassMatcher{
-												pos:        position{line: 2811, col: 11, offset: 89173},
+												pos:        position{line: 2817, col: 11, offset: 89387},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40906,36 +40906,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2814, col: 5, offset: 89231},
+									pos: position{line: 2820, col: 5, offset: 89445},
 									expr: &seqExpr{
-										pos: position{line: 2815, col: 9, offset: 89242},
+										pos: position{line: 2821, col: 9, offset: 89456},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2815, col: 9, offset: 89242},
+												pos:        position{line: 2821, col: 9, offset: 89456},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2816, col: 9, offset: 89291},
+												pos: position{line: 2822, col: 9, offset: 89505},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2820, col: 5, offset: 89371},
+									pos: position{line: 2826, col: 5, offset: 89585},
 									expr: &seqExpr{
-										pos: position{line: 2821, col: 9, offset: 89382},
+										pos: position{line: 2827, col: 9, offset: 89596},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2821, col: 9, offset: 89382},
+												pos:        position{line: 2827, col: 9, offset: 89596},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2821, col: 13, offset: 89386},
+												pos:        position{line: 2827, col: 13, offset: 89600},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40948,12 +40948,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2916, col: 11, offset: 91986},
+						pos: position{line: 2922, col: 11, offset: 92200},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2916, col: 11, offset: 91986},
+							pos: position{line: 2922, col: 11, offset: 92200},
 							expr: &charClassMatcher{
-								pos:        position{line: 2916, col: 11, offset: 91986},
+								pos:        position{line: 2922, col: 11, offset: 92200},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -40962,25 +40962,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1862, col: 7, offset: 60019},
+						pos:  position{line: 1868, col: 7, offset: 60233},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2533, col: 5, offset: 81448},
+						pos: position{line: 2539, col: 5, offset: 81662},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2533, col: 5, offset: 81448},
+							pos: position{line: 2539, col: 5, offset: 81662},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2533, col: 5, offset: 81448},
+									pos:        position{line: 2539, col: 5, offset: 81662},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2533, col: 10, offset: 81453},
+									pos: position{line: 2539, col: 10, offset: 81667},
 									expr: &charClassMatcher{
-										pos:        position{line: 2533, col: 11, offset: 81454},
+										pos:        position{line: 2539, col: 11, offset: 81668},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40991,29 +40991,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2539, col: 5, offset: 81646},
+						pos: position{line: 2545, col: 5, offset: 81860},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2539, col: 5, offset: 81646},
+							pos: position{line: 2545, col: 5, offset: 81860},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2539, col: 5, offset: 81646},
+									pos: position{line: 2545, col: 5, offset: 81860},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2542, col: 5, offset: 81717},
+									pos: position{line: 2548, col: 5, offset: 81931},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2546, col: 5, offset: 81842},
+									pos:        position{line: 2552, col: 5, offset: 82056},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2546, col: 9, offset: 81846},
+									pos: position{line: 2552, col: 9, offset: 82060},
 									expr: &charClassMatcher{
-										pos:        position{line: 2546, col: 10, offset: 81847},
+										pos:        position{line: 2552, col: 10, offset: 82061},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41024,27 +41024,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2829, col: 5, offset: 89579},
+						pos: position{line: 2835, col: 5, offset: 89793},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2830, col: 9, offset: 89589},
+							pos: position{line: 2836, col: 9, offset: 89803},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2830, col: 10, offset: 89590},
+									pos:        position{line: 2836, col: 10, offset: 89804},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2832, col: 13, offset: 89687},
+									pos: position{line: 2838, col: 13, offset: 89901},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2832, col: 13, offset: 89687},
+											pos: position{line: 2838, col: 13, offset: 89901},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2835, col: 13, offset: 89787},
+											pos:        position{line: 2841, col: 13, offset: 90001},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -41052,20 +41052,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2835, col: 19, offset: 89793},
+									pos:        position{line: 2841, col: 19, offset: 90007},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2838, col: 13, offset: 89831},
+									pos: position{line: 2844, col: 13, offset: 90045},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2838, col: 13, offset: 89831},
+											pos: position{line: 2844, col: 13, offset: 90045},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2841, col: 14, offset: 89924},
+											pos:        position{line: 2847, col: 14, offset: 90138},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -41074,18 +41074,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2843, col: 12, offset: 89968},
+									pos: position{line: 2849, col: 12, offset: 90182},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2843, col: 12, offset: 89968},
+											pos:        position{line: 2849, col: 12, offset: 90182},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2843, col: 16, offset: 89972},
+											pos: position{line: 2849, col: 16, offset: 90186},
 											expr: &litMatcher{
-												pos:        position{line: 2843, col: 17, offset: 89973},
+												pos:        position{line: 2849, col: 17, offset: 90187},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -41097,35 +41097,35 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 639, col: 5, offset: 20305},
+						pos: position{line: 645, col: 5, offset: 20519},
 						run: (*parser).callonQuotedTextElement46,
 						expr: &seqExpr{
-							pos: position{line: 639, col: 5, offset: 20305},
+							pos: position{line: 645, col: 5, offset: 20519},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 639, col: 5, offset: 20305},
+									pos: position{line: 645, col: 5, offset: 20519},
 									run: (*parser).callonQuotedTextElement48,
 								},
 								&labeledExpr{
-									pos:   position{line: 642, col: 5, offset: 20377},
+									pos:   position{line: 648, col: 5, offset: 20591},
 									label: "element",
 									expr: &choiceExpr{
-										pos: position{line: 642, col: 14, offset: 20386},
+										pos: position{line: 648, col: 14, offset: 20600},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 648, col: 5, offset: 20515},
+												pos: position{line: 654, col: 5, offset: 20729},
 												run: (*parser).callonQuotedTextElement51,
 												expr: &seqExpr{
-													pos: position{line: 648, col: 5, offset: 20515},
+													pos: position{line: 654, col: 5, offset: 20729},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 648, col: 5, offset: 20515},
+															pos:        position{line: 654, col: 5, offset: 20729},
 															val:        "\\{",
 															ignoreCase: false,
 															want:       "\"\\\\{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 648, col: 13, offset: 20523},
+															pos:   position{line: 654, col: 13, offset: 20737},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 320, col: 18, offset: 9837},
@@ -41157,7 +41157,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 648, col: 32, offset: 20542},
+															pos:        position{line: 654, col: 32, offset: 20756},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41166,19 +41166,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 655, col: 5, offset: 20783},
+												pos: position{line: 661, col: 5, offset: 20997},
 												run: (*parser).callonQuotedTextElement61,
 												expr: &seqExpr{
-													pos: position{line: 655, col: 5, offset: 20783},
+													pos: position{line: 661, col: 5, offset: 20997},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 655, col: 5, offset: 20783},
+															pos:        position{line: 661, col: 5, offset: 20997},
 															val:        "{",
 															ignoreCase: false,
 															want:       "\"{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 655, col: 9, offset: 20787},
+															pos:   position{line: 661, col: 9, offset: 21001},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 320, col: 18, offset: 9837},
@@ -41210,7 +41210,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 655, col: 28, offset: 20806},
+															pos:        position{line: 661, col: 28, offset: 21020},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41219,19 +41219,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 661, col: 25, offset: 20987},
+												pos: position{line: 667, col: 25, offset: 21201},
 												run: (*parser).callonQuotedTextElement71,
 												expr: &seqExpr{
-													pos: position{line: 661, col: 25, offset: 20987},
+													pos: position{line: 667, col: 25, offset: 21201},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 661, col: 25, offset: 20987},
+															pos:        position{line: 667, col: 25, offset: 21201},
 															val:        "{counter:",
 															ignoreCase: false,
 															want:       "\"{counter:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 661, col: 37, offset: 20999},
+															pos:   position{line: 667, col: 37, offset: 21213},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 320, col: 18, offset: 9837},
@@ -41263,33 +41263,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 661, col: 56, offset: 21018},
+															pos:   position{line: 667, col: 56, offset: 21232},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 661, col: 62, offset: 21024},
+																pos: position{line: 667, col: 62, offset: 21238},
 																expr: &actionExpr{
-																	pos: position{line: 669, col: 17, offset: 21321},
+																	pos: position{line: 675, col: 17, offset: 21535},
 																	run: (*parser).callonQuotedTextElement82,
 																	expr: &seqExpr{
-																		pos: position{line: 669, col: 17, offset: 21321},
+																		pos: position{line: 675, col: 17, offset: 21535},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 669, col: 17, offset: 21321},
+																				pos:        position{line: 675, col: 17, offset: 21535},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 669, col: 21, offset: 21325},
+																				pos:   position{line: 675, col: 21, offset: 21539},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 669, col: 28, offset: 21332},
+																					pos: position{line: 675, col: 28, offset: 21546},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 669, col: 28, offset: 21332},
+																							pos: position{line: 675, col: 28, offset: 21546},
 																							run: (*parser).callonQuotedTextElement87,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 669, col: 28, offset: 21332},
+																								pos:        position{line: 675, col: 28, offset: 21546},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -41297,12 +41297,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 671, col: 9, offset: 21386},
+																							pos: position{line: 677, col: 9, offset: 21600},
 																							run: (*parser).callonQuotedTextElement89,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 671, col: 9, offset: 21386},
+																								pos: position{line: 677, col: 9, offset: 21600},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 671, col: 9, offset: 21386},
+																									pos:        position{line: 677, col: 9, offset: 21600},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -41319,7 +41319,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 661, col: 78, offset: 21040},
+															pos:        position{line: 667, col: 78, offset: 21254},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41328,19 +41328,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 665, col: 25, offset: 21158},
+												pos: position{line: 671, col: 25, offset: 21372},
 												run: (*parser).callonQuotedTextElement93,
 												expr: &seqExpr{
-													pos: position{line: 665, col: 25, offset: 21158},
+													pos: position{line: 671, col: 25, offset: 21372},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 665, col: 25, offset: 21158},
+															pos:        position{line: 671, col: 25, offset: 21372},
 															val:        "{counter2:",
 															ignoreCase: false,
 															want:       "\"{counter2:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 665, col: 38, offset: 21171},
+															pos:   position{line: 671, col: 38, offset: 21385},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 320, col: 18, offset: 9837},
@@ -41372,33 +41372,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 665, col: 57, offset: 21190},
+															pos:   position{line: 671, col: 57, offset: 21404},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 665, col: 63, offset: 21196},
+																pos: position{line: 671, col: 63, offset: 21410},
 																expr: &actionExpr{
-																	pos: position{line: 669, col: 17, offset: 21321},
+																	pos: position{line: 675, col: 17, offset: 21535},
 																	run: (*parser).callonQuotedTextElement104,
 																	expr: &seqExpr{
-																		pos: position{line: 669, col: 17, offset: 21321},
+																		pos: position{line: 675, col: 17, offset: 21535},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 669, col: 17, offset: 21321},
+																				pos:        position{line: 675, col: 17, offset: 21535},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 669, col: 21, offset: 21325},
+																				pos:   position{line: 675, col: 21, offset: 21539},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 669, col: 28, offset: 21332},
+																					pos: position{line: 675, col: 28, offset: 21546},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 669, col: 28, offset: 21332},
+																							pos: position{line: 675, col: 28, offset: 21546},
 																							run: (*parser).callonQuotedTextElement109,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 669, col: 28, offset: 21332},
+																								pos:        position{line: 675, col: 28, offset: 21546},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -41406,12 +41406,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 671, col: 9, offset: 21386},
+																							pos: position{line: 677, col: 9, offset: 21600},
 																							run: (*parser).callonQuotedTextElement111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 671, col: 9, offset: 21386},
+																								pos: position{line: 677, col: 9, offset: 21600},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 671, col: 9, offset: 21386},
+																									pos:        position{line: 677, col: 9, offset: 21600},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -41428,7 +41428,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 665, col: 79, offset: 21212},
+															pos:        position{line: 671, col: 79, offset: 21426},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41443,31 +41443,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2925, col: 18, offset: 92196},
+						pos: position{line: 2931, col: 18, offset: 92410},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2925, col: 18, offset: 92196},
+							pos: position{line: 2931, col: 18, offset: 92410},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2921, col: 12, offset: 92096},
+									pos: position{line: 2927, col: 12, offset: 92310},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2921, col: 13, offset: 92097},
+										pos: position{line: 2927, col: 13, offset: 92311},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2921, col: 13, offset: 92097},
+												pos:        position{line: 2927, col: 13, offset: 92311},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2921, col: 20, offset: 92104},
+												pos:        position{line: 2927, col: 20, offset: 92318},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2921, col: 29, offset: 92113},
+												pos:        position{line: 2927, col: 29, offset: 92327},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41476,27 +41476,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2925, col: 26, offset: 92204},
+									pos: position{line: 2931, col: 26, offset: 92418},
 									expr: &actionExpr{
-										pos: position{line: 2921, col: 12, offset: 92096},
+										pos: position{line: 2927, col: 12, offset: 92310},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2921, col: 13, offset: 92097},
+											pos: position{line: 2927, col: 13, offset: 92311},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2921, col: 13, offset: 92097},
+													pos:        position{line: 2927, col: 13, offset: 92311},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2921, col: 20, offset: 92104},
+													pos:        position{line: 2927, col: 20, offset: 92318},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2921, col: 29, offset: 92113},
+													pos:        position{line: 2927, col: 29, offset: 92327},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41509,31 +41509,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1867, col: 7, offset: 60186},
+						pos:  position{line: 1873, col: 7, offset: 60400},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1868, col: 7, offset: 60233},
+						pos:  position{line: 1874, col: 7, offset: 60447},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2502, col: 5, offset: 80249},
+						pos: position{line: 2508, col: 5, offset: 80463},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2502, col: 5, offset: 80249},
+							pos: position{line: 2508, col: 5, offset: 80463},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2502, col: 5, offset: 80249},
+									pos: position{line: 2508, col: 5, offset: 80463},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2505, col: 5, offset: 80325},
+									pos:   position{line: 2511, col: 5, offset: 80539},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2506, col: 9, offset: 80343},
+										pos: position{line: 2512, col: 9, offset: 80557},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2506, col: 10, offset: 80344},
+											pos:        position{line: 2512, col: 10, offset: 80558},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -41545,27 +41545,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1201, col: 23, offset: 37170},
+						pos: position{line: 1207, col: 23, offset: 37384},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 1201, col: 23, offset: 37170},
+							pos: position{line: 1207, col: 23, offset: 37384},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1199, col: 32, offset: 37138},
+									pos:        position{line: 1205, col: 32, offset: 37352},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1201, col: 51, offset: 37198},
+									pos:   position{line: 1207, col: 51, offset: 37412},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1201, col: 56, offset: 37203},
+										pos: position{line: 1207, col: 56, offset: 37417},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1201, col: 56, offset: 37203},
+											pos: position{line: 1207, col: 56, offset: 37417},
 											expr: &charClassMatcher{
-												pos:        position{line: 1201, col: 56, offset: 37203},
+												pos:        position{line: 1207, col: 56, offset: 37417},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -41575,7 +41575,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1199, col: 32, offset: 37138},
+									pos:        position{line: 1205, col: 32, offset: 37352},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
@@ -41584,10 +41584,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2851, col: 12, offset: 90233},
+						pos: position{line: 2857, col: 12, offset: 90447},
 						run: (*parser).callonQuotedTextElement144,
 						expr: &charClassMatcher{
-							pos:        position{line: 2851, col: 12, offset: 90233},
+							pos:        position{line: 2857, col: 12, offset: 90447},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41599,29 +41599,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1886, col: 1, offset: 60703},
+			pos:  position{line: 1892, col: 1, offset: 60917},
 			expr: &actionExpr{
-				pos: position{line: 1887, col: 5, offset: 60731},
+				pos: position{line: 1893, col: 5, offset: 60945},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1887, col: 5, offset: 60731},
+					pos: position{line: 1893, col: 5, offset: 60945},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1882, col: 38, offset: 60656},
+							pos:        position{line: 1888, col: 38, offset: 60870},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1888, col: 5, offset: 60770},
+							pos:   position{line: 1894, col: 5, offset: 60984},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1888, col: 15, offset: 60780},
+								pos:  position{line: 1894, col: 15, offset: 60994},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1884, col: 36, offset: 60697},
+							pos:        position{line: 1890, col: 36, offset: 60911},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -41632,24 +41632,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1893, col: 1, offset: 60940},
+			pos:  position{line: 1899, col: 1, offset: 61154},
 			expr: &actionExpr{
-				pos: position{line: 1894, col: 5, offset: 60975},
+				pos: position{line: 1900, col: 5, offset: 61189},
 				run: (*parser).callonDoubleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1894, col: 5, offset: 60975},
+					pos: position{line: 1900, col: 5, offset: 61189},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1894, col: 5, offset: 60975},
+							pos: position{line: 1900, col: 5, offset: 61189},
 							run: (*parser).callonDoubleQuoteBoldTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1898, col: 5, offset: 61095},
+							pos:   position{line: 1904, col: 5, offset: 61309},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1898, col: 14, offset: 61104},
+								pos: position{line: 1904, col: 14, offset: 61318},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1898, col: 15, offset: 61105},
+									pos:  position{line: 1904, col: 15, offset: 61319},
 									name: "DoubleQuoteBoldTextElement",
 								},
 							},
@@ -41660,33 +41660,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1902, col: 1, offset: 61172},
+			pos:  position{line: 1908, col: 1, offset: 61386},
 			expr: &actionExpr{
-				pos: position{line: 1903, col: 5, offset: 61207},
+				pos: position{line: 1909, col: 5, offset: 61421},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1903, col: 5, offset: 61207},
+					pos: position{line: 1909, col: 5, offset: 61421},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2929, col: 11, offset: 92259},
+							pos: position{line: 2935, col: 11, offset: 92473},
 							expr: &anyMatcher{
-								line: 2929, col: 13, offset: 92261,
+								line: 2935, col: 13, offset: 92475,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1904, col: 5, offset: 61218},
+							pos: position{line: 1910, col: 5, offset: 61432},
 							expr: &litMatcher{
-								pos:        position{line: 1884, col: 36, offset: 60697},
+								pos:        position{line: 1890, col: 36, offset: 60911},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1905, col: 5, offset: 61255},
+							pos:   position{line: 1911, col: 5, offset: 61469},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1905, col: 14, offset: 61264},
+								pos:  position{line: 1911, col: 14, offset: 61478},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41696,29 +41696,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1930, col: 1, offset: 61944},
+			pos:  position{line: 1936, col: 1, offset: 62158},
 			expr: &actionExpr{
-				pos: position{line: 1931, col: 5, offset: 61972},
+				pos: position{line: 1937, col: 5, offset: 62186},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1931, col: 5, offset: 61972},
+					pos: position{line: 1937, col: 5, offset: 62186},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1914, col: 5, offset: 61498},
+							pos:        position{line: 1920, col: 5, offset: 61712},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1915, col: 5, offset: 61507},
+							pos: position{line: 1921, col: 5, offset: 61721},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1919, col: 5, offset: 61625},
+							pos: position{line: 1925, col: 5, offset: 61839},
 							expr: &notExpr{
-								pos: position{line: 1919, col: 7, offset: 61627},
+								pos: position{line: 1925, col: 7, offset: 61841},
 								expr: &litMatcher{
-									pos:        position{line: 1919, col: 8, offset: 61628},
+									pos:        position{line: 1925, col: 8, offset: 61842},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41726,38 +41726,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1932, col: 5, offset: 62010},
+							pos:   position{line: 1938, col: 5, offset: 62224},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1932, col: 15, offset: 62020},
+								pos:  position{line: 1938, col: 15, offset: 62234},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1922, col: 5, offset: 61748},
+							pos:        position{line: 1928, col: 5, offset: 61962},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1923, col: 5, offset: 61757},
+							pos: position{line: 1929, col: 5, offset: 61971},
 							expr: &litMatcher{
-								pos:        position{line: 1923, col: 6, offset: 61758},
+								pos:        position{line: 1929, col: 6, offset: 61972},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1924, col: 5, offset: 61821},
+							pos: position{line: 1930, col: 5, offset: 62035},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1928, col: 5, offset: 61930},
+							pos: position{line: 1934, col: 5, offset: 62144},
 							expr: &notExpr{
-								pos: position{line: 1928, col: 7, offset: 61932},
+								pos: position{line: 1934, col: 7, offset: 62146},
 								expr: &charClassMatcher{
-									pos:        position{line: 2802, col: 13, offset: 89020},
+									pos:        position{line: 2808, col: 13, offset: 89234},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41771,20 +41771,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1937, col: 1, offset: 62180},
+			pos:  position{line: 1943, col: 1, offset: 62394},
 			expr: &actionExpr{
-				pos: position{line: 1938, col: 5, offset: 62217},
+				pos: position{line: 1944, col: 5, offset: 62431},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1938, col: 5, offset: 62217},
+					pos: position{line: 1944, col: 5, offset: 62431},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1938, col: 5, offset: 62217},
+							pos: position{line: 1944, col: 5, offset: 62431},
 							expr: &actionExpr{
-								pos: position{line: 2912, col: 10, offset: 91925},
+								pos: position{line: 2918, col: 10, offset: 92139},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2912, col: 10, offset: 91925},
+									pos:        position{line: 2918, col: 10, offset: 92139},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41793,18 +41793,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1939, col: 5, offset: 62256},
+							pos:   position{line: 1945, col: 5, offset: 62470},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1939, col: 14, offset: 62265},
+								pos: position{line: 1945, col: 14, offset: 62479},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1939, col: 15, offset: 62266},
+									pos:  position{line: 1945, col: 15, offset: 62480},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1940, col: 5, offset: 62300},
+							pos: position{line: 1946, col: 5, offset: 62514},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -41813,49 +41813,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1946, col: 1, offset: 62441},
+			pos:  position{line: 1952, col: 1, offset: 62655},
 			expr: &actionExpr{
-				pos: position{line: 1947, col: 5, offset: 62476},
+				pos: position{line: 1953, col: 5, offset: 62690},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1947, col: 5, offset: 62476},
+					pos: position{line: 1953, col: 5, offset: 62690},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2929, col: 11, offset: 92259},
+							pos: position{line: 2935, col: 11, offset: 92473},
 							expr: &anyMatcher{
-								line: 2929, col: 13, offset: 92261,
+								line: 2935, col: 13, offset: 92475,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1948, col: 5, offset: 62504},
+							pos: position{line: 1954, col: 5, offset: 62718},
 							expr: &seqExpr{
-								pos: position{line: 1922, col: 5, offset: 61748},
+								pos: position{line: 1928, col: 5, offset: 61962},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1922, col: 5, offset: 61748},
+										pos:        position{line: 1928, col: 5, offset: 61962},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1923, col: 5, offset: 61757},
+										pos: position{line: 1929, col: 5, offset: 61971},
 										expr: &litMatcher{
-											pos:        position{line: 1923, col: 6, offset: 61758},
+											pos:        position{line: 1929, col: 6, offset: 61972},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1924, col: 5, offset: 61821},
+										pos: position{line: 1930, col: 5, offset: 62035},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1928, col: 5, offset: 61930},
+										pos: position{line: 1934, col: 5, offset: 62144},
 										expr: &notExpr{
-											pos: position{line: 1928, col: 7, offset: 61932},
+											pos: position{line: 1934, col: 7, offset: 62146},
 											expr: &charClassMatcher{
-												pos:        position{line: 2802, col: 13, offset: 89020},
+												pos:        position{line: 2808, col: 13, offset: 89234},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41867,10 +41867,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1949, col: 5, offset: 62541},
+							pos:   position{line: 1955, col: 5, offset: 62755},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1949, col: 14, offset: 62550},
+								pos:  position{line: 1955, col: 14, offset: 62764},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41880,35 +41880,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1954, col: 1, offset: 62638},
+			pos:  position{line: 1960, col: 1, offset: 62852},
 			expr: &choiceExpr{
-				pos: position{line: 1956, col: 5, offset: 62699},
+				pos: position{line: 1962, col: 5, offset: 62913},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1956, col: 5, offset: 62699},
+						pos: position{line: 1962, col: 5, offset: 62913},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1956, col: 5, offset: 62699},
+							pos: position{line: 1962, col: 5, offset: 62913},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1956, col: 5, offset: 62699},
+									pos:   position{line: 1962, col: 5, offset: 62913},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1855, col: 25, offset: 59876},
+										pos: position{line: 1861, col: 25, offset: 60090},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1855, col: 25, offset: 59876},
+											pos: position{line: 1861, col: 25, offset: 60090},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1855, col: 25, offset: 59876},
+													pos:        position{line: 1861, col: 25, offset: 60090},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1855, col: 30, offset: 59881},
+													pos: position{line: 1861, col: 30, offset: 60095},
 													expr: &litMatcher{
-														pos:        position{line: 1855, col: 30, offset: 59881},
+														pos:        position{line: 1861, col: 30, offset: 60095},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41919,21 +41919,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1956, col: 40, offset: 62734},
+									pos:        position{line: 1962, col: 40, offset: 62948},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1956, col: 45, offset: 62739},
+									pos:   position{line: 1962, col: 45, offset: 62953},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1956, col: 55, offset: 62749},
+										pos:  position{line: 1962, col: 55, offset: 62963},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1956, col: 84, offset: 62778},
+									pos:        position{line: 1962, col: 84, offset: 62992},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41942,21 +41942,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1960, col: 7, offset: 62942},
+						pos: position{line: 1966, col: 7, offset: 63156},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1960, col: 7, offset: 62942},
+							pos: position{line: 1966, col: 7, offset: 63156},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1960, col: 7, offset: 62942},
+									pos:   position{line: 1966, col: 7, offset: 63156},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1851, col: 25, offset: 59803},
+										pos: position{line: 1857, col: 25, offset: 60017},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1851, col: 25, offset: 59803},
+											pos: position{line: 1857, col: 25, offset: 60017},
 											expr: &litMatcher{
-												pos:        position{line: 1851, col: 25, offset: 59803},
+												pos:        position{line: 1857, col: 25, offset: 60017},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41965,21 +41965,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1960, col: 42, offset: 62977},
+									pos:        position{line: 1966, col: 42, offset: 63191},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1960, col: 47, offset: 62982},
+									pos:   position{line: 1966, col: 47, offset: 63196},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1960, col: 57, offset: 62992},
+										pos:  position{line: 1966, col: 57, offset: 63206},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1960, col: 86, offset: 63021},
+									pos:        position{line: 1966, col: 86, offset: 63235},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41988,21 +41988,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1965, col: 7, offset: 63223},
+						pos: position{line: 1971, col: 7, offset: 63437},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1965, col: 7, offset: 63223},
+							pos: position{line: 1971, col: 7, offset: 63437},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1965, col: 7, offset: 63223},
+									pos:   position{line: 1971, col: 7, offset: 63437},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1851, col: 25, offset: 59803},
+										pos: position{line: 1857, col: 25, offset: 60017},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1851, col: 25, offset: 59803},
+											pos: position{line: 1857, col: 25, offset: 60017},
 											expr: &litMatcher{
-												pos:        position{line: 1851, col: 25, offset: 59803},
+												pos:        position{line: 1857, col: 25, offset: 60017},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42011,21 +42011,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1965, col: 42, offset: 63258},
+									pos:        position{line: 1971, col: 42, offset: 63472},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1965, col: 46, offset: 63262},
+									pos:   position{line: 1971, col: 46, offset: 63476},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1965, col: 56, offset: 63272},
+										pos:  position{line: 1971, col: 56, offset: 63486},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1965, col: 85, offset: 63301},
+									pos:        position{line: 1971, col: 85, offset: 63515},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42038,29 +42038,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1982, col: 1, offset: 63781},
+			pos:  position{line: 1988, col: 1, offset: 63995},
 			expr: &actionExpr{
-				pos: position{line: 1983, col: 5, offset: 63811},
+				pos: position{line: 1989, col: 5, offset: 64025},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1983, col: 5, offset: 63811},
+					pos: position{line: 1989, col: 5, offset: 64025},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1978, col: 40, offset: 63732},
+							pos:        position{line: 1984, col: 40, offset: 63946},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1984, col: 5, offset: 63852},
+							pos:   position{line: 1990, col: 5, offset: 64066},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1984, col: 15, offset: 63862},
+								pos:  position{line: 1990, col: 15, offset: 64076},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1980, col: 38, offset: 63775},
+							pos:        position{line: 1986, col: 38, offset: 63989},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -42071,24 +42071,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1989, col: 1, offset: 64027},
+			pos:  position{line: 1995, col: 1, offset: 64241},
 			expr: &actionExpr{
-				pos: position{line: 1990, col: 5, offset: 64064},
+				pos: position{line: 1996, col: 5, offset: 64278},
 				run: (*parser).callonDoubleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1990, col: 5, offset: 64064},
+					pos: position{line: 1996, col: 5, offset: 64278},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1990, col: 5, offset: 64064},
+							pos: position{line: 1996, col: 5, offset: 64278},
 							run: (*parser).callonDoubleQuoteItalicTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1994, col: 5, offset: 64184},
+							pos:   position{line: 2000, col: 5, offset: 64398},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1994, col: 14, offset: 64193},
+								pos: position{line: 2000, col: 14, offset: 64407},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1994, col: 15, offset: 64194},
+									pos:  position{line: 2000, col: 15, offset: 64408},
 									name: "DoubleQuoteItalicTextElement",
 								},
 							},
@@ -42099,33 +42099,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1998, col: 1, offset: 64263},
+			pos:  position{line: 2004, col: 1, offset: 64477},
 			expr: &actionExpr{
-				pos: position{line: 1999, col: 5, offset: 64300},
+				pos: position{line: 2005, col: 5, offset: 64514},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1999, col: 5, offset: 64300},
+					pos: position{line: 2005, col: 5, offset: 64514},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2929, col: 11, offset: 92259},
+							pos: position{line: 2935, col: 11, offset: 92473},
 							expr: &anyMatcher{
-								line: 2929, col: 13, offset: 92261,
+								line: 2935, col: 13, offset: 92475,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2000, col: 5, offset: 64311},
+							pos: position{line: 2006, col: 5, offset: 64525},
 							expr: &litMatcher{
-								pos:        position{line: 1980, col: 38, offset: 63775},
+								pos:        position{line: 1986, col: 38, offset: 63989},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2001, col: 5, offset: 64350},
+							pos:   position{line: 2007, col: 5, offset: 64564},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2001, col: 14, offset: 64359},
+								pos:  position{line: 2007, col: 14, offset: 64573},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42135,29 +42135,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2027, col: 1, offset: 65043},
+			pos:  position{line: 2033, col: 1, offset: 65257},
 			expr: &actionExpr{
-				pos: position{line: 2028, col: 5, offset: 65073},
+				pos: position{line: 2034, col: 5, offset: 65287},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2028, col: 5, offset: 65073},
+					pos: position{line: 2034, col: 5, offset: 65287},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2010, col: 5, offset: 64601},
+							pos:        position{line: 2016, col: 5, offset: 64815},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2011, col: 5, offset: 64610},
+							pos: position{line: 2017, col: 5, offset: 64824},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2015, col: 5, offset: 64730},
+							pos: position{line: 2021, col: 5, offset: 64944},
 							expr: &notExpr{
-								pos: position{line: 2015, col: 7, offset: 64732},
+								pos: position{line: 2021, col: 7, offset: 64946},
 								expr: &litMatcher{
-									pos:        position{line: 2015, col: 8, offset: 64733},
+									pos:        position{line: 2021, col: 8, offset: 64947},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42165,38 +42165,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2029, col: 5, offset: 65113},
+							pos:   position{line: 2035, col: 5, offset: 65327},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2029, col: 15, offset: 65123},
+								pos:  position{line: 2035, col: 15, offset: 65337},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2019, col: 5, offset: 64843},
+							pos:        position{line: 2025, col: 5, offset: 65057},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2020, col: 5, offset: 64852},
+							pos: position{line: 2026, col: 5, offset: 65066},
 							expr: &litMatcher{
-								pos:        position{line: 2020, col: 6, offset: 64853},
+								pos:        position{line: 2026, col: 6, offset: 65067},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2021, col: 5, offset: 64918},
+							pos: position{line: 2027, col: 5, offset: 65132},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2025, col: 5, offset: 65029},
+							pos: position{line: 2031, col: 5, offset: 65243},
 							expr: &notExpr{
-								pos: position{line: 2025, col: 7, offset: 65031},
+								pos: position{line: 2031, col: 7, offset: 65245},
 								expr: &charClassMatcher{
-									pos:        position{line: 2802, col: 13, offset: 89020},
+									pos:        position{line: 2808, col: 13, offset: 89234},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42210,20 +42210,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2034, col: 1, offset: 65290},
+			pos:  position{line: 2040, col: 1, offset: 65504},
 			expr: &actionExpr{
-				pos: position{line: 2035, col: 5, offset: 65328},
+				pos: position{line: 2041, col: 5, offset: 65542},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2035, col: 5, offset: 65328},
+					pos: position{line: 2041, col: 5, offset: 65542},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2035, col: 5, offset: 65328},
+							pos: position{line: 2041, col: 5, offset: 65542},
 							expr: &actionExpr{
-								pos: position{line: 2912, col: 10, offset: 91925},
+								pos: position{line: 2918, col: 10, offset: 92139},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2912, col: 10, offset: 91925},
+									pos:        position{line: 2918, col: 10, offset: 92139},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42232,18 +42232,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2036, col: 5, offset: 65367},
+							pos:   position{line: 2042, col: 5, offset: 65581},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2036, col: 14, offset: 65376},
+								pos: position{line: 2042, col: 14, offset: 65590},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2036, col: 15, offset: 65377},
+									pos:  position{line: 2042, col: 15, offset: 65591},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2037, col: 5, offset: 65412},
+							pos: position{line: 2043, col: 5, offset: 65626},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -42252,49 +42252,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2043, col: 1, offset: 65553},
+			pos:  position{line: 2049, col: 1, offset: 65767},
 			expr: &actionExpr{
-				pos: position{line: 2044, col: 5, offset: 65590},
+				pos: position{line: 2050, col: 5, offset: 65804},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2044, col: 5, offset: 65590},
+					pos: position{line: 2050, col: 5, offset: 65804},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2929, col: 11, offset: 92259},
+							pos: position{line: 2935, col: 11, offset: 92473},
 							expr: &anyMatcher{
-								line: 2929, col: 13, offset: 92261,
+								line: 2935, col: 13, offset: 92475,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2045, col: 5, offset: 65601},
+							pos: position{line: 2051, col: 5, offset: 65815},
 							expr: &seqExpr{
-								pos: position{line: 2019, col: 5, offset: 64843},
+								pos: position{line: 2025, col: 5, offset: 65057},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2019, col: 5, offset: 64843},
+										pos:        position{line: 2025, col: 5, offset: 65057},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2020, col: 5, offset: 64852},
+										pos: position{line: 2026, col: 5, offset: 65066},
 										expr: &litMatcher{
-											pos:        position{line: 2020, col: 6, offset: 64853},
+											pos:        position{line: 2026, col: 6, offset: 65067},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2021, col: 5, offset: 64918},
+										pos: position{line: 2027, col: 5, offset: 65132},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2025, col: 5, offset: 65029},
+										pos: position{line: 2031, col: 5, offset: 65243},
 										expr: &notExpr{
-											pos: position{line: 2025, col: 7, offset: 65031},
+											pos: position{line: 2031, col: 7, offset: 65245},
 											expr: &charClassMatcher{
-												pos:        position{line: 2802, col: 13, offset: 89020},
+												pos:        position{line: 2808, col: 13, offset: 89234},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42306,10 +42306,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2046, col: 5, offset: 65640},
+							pos:   position{line: 2052, col: 5, offset: 65854},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2046, col: 14, offset: 65649},
+								pos:  position{line: 2052, col: 14, offset: 65863},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42319,35 +42319,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2051, col: 1, offset: 65737},
+			pos:  position{line: 2057, col: 1, offset: 65951},
 			expr: &choiceExpr{
-				pos: position{line: 2053, col: 5, offset: 65802},
+				pos: position{line: 2059, col: 5, offset: 66016},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2053, col: 5, offset: 65802},
+						pos: position{line: 2059, col: 5, offset: 66016},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2053, col: 5, offset: 65802},
+							pos: position{line: 2059, col: 5, offset: 66016},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2053, col: 5, offset: 65802},
+									pos:   position{line: 2059, col: 5, offset: 66016},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1855, col: 25, offset: 59876},
+										pos: position{line: 1861, col: 25, offset: 60090},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1855, col: 25, offset: 59876},
+											pos: position{line: 1861, col: 25, offset: 60090},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1855, col: 25, offset: 59876},
+													pos:        position{line: 1861, col: 25, offset: 60090},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1855, col: 30, offset: 59881},
+													pos: position{line: 1861, col: 30, offset: 60095},
 													expr: &litMatcher{
-														pos:        position{line: 1855, col: 30, offset: 59881},
+														pos:        position{line: 1861, col: 30, offset: 60095},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42358,21 +42358,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2053, col: 40, offset: 65837},
+									pos:        position{line: 2059, col: 40, offset: 66051},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2053, col: 45, offset: 65842},
+									pos:   position{line: 2059, col: 45, offset: 66056},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2053, col: 55, offset: 65852},
+										pos:  position{line: 2059, col: 55, offset: 66066},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2053, col: 86, offset: 65883},
+									pos:        position{line: 2059, col: 86, offset: 66097},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -42381,21 +42381,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2057, col: 7, offset: 66048},
+						pos: position{line: 2063, col: 7, offset: 66262},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2057, col: 7, offset: 66048},
+							pos: position{line: 2063, col: 7, offset: 66262},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2057, col: 7, offset: 66048},
+									pos:   position{line: 2063, col: 7, offset: 66262},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1851, col: 25, offset: 59803},
+										pos: position{line: 1857, col: 25, offset: 60017},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1851, col: 25, offset: 59803},
+											pos: position{line: 1857, col: 25, offset: 60017},
 											expr: &litMatcher{
-												pos:        position{line: 1851, col: 25, offset: 59803},
+												pos:        position{line: 1857, col: 25, offset: 60017},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42404,21 +42404,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2057, col: 42, offset: 66083},
+									pos:        position{line: 2063, col: 42, offset: 66297},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2057, col: 47, offset: 66088},
+									pos:   position{line: 2063, col: 47, offset: 66302},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2057, col: 57, offset: 66098},
+										pos:  position{line: 2063, col: 57, offset: 66312},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2057, col: 88, offset: 66129},
+									pos:        position{line: 2063, col: 88, offset: 66343},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42427,21 +42427,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2062, col: 7, offset: 66370},
+						pos: position{line: 2068, col: 7, offset: 66584},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2062, col: 7, offset: 66370},
+							pos: position{line: 2068, col: 7, offset: 66584},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2062, col: 7, offset: 66370},
+									pos:   position{line: 2068, col: 7, offset: 66584},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1851, col: 25, offset: 59803},
+										pos: position{line: 1857, col: 25, offset: 60017},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1851, col: 25, offset: 59803},
+											pos: position{line: 1857, col: 25, offset: 60017},
 											expr: &litMatcher{
-												pos:        position{line: 1851, col: 25, offset: 59803},
+												pos:        position{line: 1857, col: 25, offset: 60017},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42450,21 +42450,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2062, col: 42, offset: 66405},
+									pos:        position{line: 2068, col: 42, offset: 66619},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2062, col: 46, offset: 66409},
+									pos:   position{line: 2068, col: 46, offset: 66623},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2062, col: 56, offset: 66419},
+										pos:  position{line: 2068, col: 56, offset: 66633},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2062, col: 87, offset: 66450},
+									pos:        position{line: 2068, col: 87, offset: 66664},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42477,29 +42477,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2079, col: 1, offset: 67014},
+			pos:  position{line: 2085, col: 1, offset: 67228},
 			expr: &actionExpr{
-				pos: position{line: 2080, col: 5, offset: 67047},
+				pos: position{line: 2086, col: 5, offset: 67261},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2080, col: 5, offset: 67047},
+					pos: position{line: 2086, col: 5, offset: 67261},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2075, col: 43, offset: 66962},
+							pos:        position{line: 2081, col: 43, offset: 67176},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2081, col: 5, offset: 67091},
+							pos:   position{line: 2087, col: 5, offset: 67305},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2081, col: 15, offset: 67101},
+								pos:  position{line: 2087, col: 15, offset: 67315},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2077, col: 41, offset: 67008},
+							pos:        position{line: 2083, col: 41, offset: 67222},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -42510,24 +42510,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2086, col: 1, offset: 67276},
+			pos:  position{line: 2092, col: 1, offset: 67490},
 			expr: &actionExpr{
-				pos: position{line: 2087, col: 5, offset: 67349},
+				pos: position{line: 2093, col: 5, offset: 67563},
 				run: (*parser).callonDoubleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2087, col: 5, offset: 67349},
+					pos: position{line: 2093, col: 5, offset: 67563},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2087, col: 5, offset: 67349},
+							pos: position{line: 2093, col: 5, offset: 67563},
 							run: (*parser).callonDoubleQuoteMonospaceTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2091, col: 5, offset: 67469},
+							pos:   position{line: 2097, col: 5, offset: 67683},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2091, col: 14, offset: 67478},
+								pos: position{line: 2097, col: 14, offset: 67692},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2091, col: 15, offset: 67479},
+									pos:  position{line: 2097, col: 15, offset: 67693},
 									name: "DoubleQuoteMonospaceTextElement",
 								},
 							},
@@ -42538,33 +42538,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2095, col: 1, offset: 67551},
+			pos:  position{line: 2101, col: 1, offset: 67765},
 			expr: &actionExpr{
-				pos: position{line: 2096, col: 5, offset: 67591},
+				pos: position{line: 2102, col: 5, offset: 67805},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2096, col: 5, offset: 67591},
+					pos: position{line: 2102, col: 5, offset: 67805},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2929, col: 11, offset: 92259},
+							pos: position{line: 2935, col: 11, offset: 92473},
 							expr: &anyMatcher{
-								line: 2929, col: 13, offset: 92261,
+								line: 2935, col: 13, offset: 92475,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2097, col: 5, offset: 67602},
+							pos: position{line: 2103, col: 5, offset: 67816},
 							expr: &litMatcher{
-								pos:        position{line: 2077, col: 41, offset: 67008},
+								pos:        position{line: 2083, col: 41, offset: 67222},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2098, col: 5, offset: 67644},
+							pos:   position{line: 2104, col: 5, offset: 67858},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2098, col: 14, offset: 67653},
+								pos:  position{line: 2104, col: 14, offset: 67867},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42574,33 +42574,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2116, col: 1, offset: 68195},
+			pos:  position{line: 2122, col: 1, offset: 68409},
 			expr: &seqExpr{
-				pos: position{line: 2117, col: 5, offset: 68240},
+				pos: position{line: 2123, col: 5, offset: 68454},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2117, col: 5, offset: 68240},
+						pos: position{line: 2123, col: 5, offset: 68454},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2117, col: 6, offset: 68241},
+							pos:  position{line: 2123, col: 6, offset: 68455},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2118, col: 5, offset: 68260},
+						pos:        position{line: 2124, col: 5, offset: 68474},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2119, col: 5, offset: 68268},
+						pos: position{line: 2125, col: 5, offset: 68482},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2123, col: 5, offset: 68382},
+						pos: position{line: 2129, col: 5, offset: 68596},
 						expr: &notExpr{
-							pos: position{line: 2123, col: 7, offset: 68384},
+							pos: position{line: 2129, col: 7, offset: 68598},
 							expr: &charClassMatcher{
-								pos:        position{line: 2802, col: 13, offset: 89020},
+								pos:        position{line: 2808, col: 13, offset: 89234},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42613,29 +42613,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2126, col: 1, offset: 68401},
+			pos:  position{line: 2132, col: 1, offset: 68615},
 			expr: &actionExpr{
-				pos: position{line: 2127, col: 5, offset: 68434},
+				pos: position{line: 2133, col: 5, offset: 68648},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2127, col: 5, offset: 68434},
+					pos: position{line: 2133, col: 5, offset: 68648},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2109, col: 5, offset: 67997},
+							pos:        position{line: 2115, col: 5, offset: 68211},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2110, col: 5, offset: 68006},
+							pos: position{line: 2116, col: 5, offset: 68220},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2114, col: 5, offset: 68129},
+							pos: position{line: 2120, col: 5, offset: 68343},
 							expr: &notExpr{
-								pos: position{line: 2114, col: 7, offset: 68131},
+								pos: position{line: 2120, col: 7, offset: 68345},
 								expr: &litMatcher{
-									pos:        position{line: 2114, col: 8, offset: 68132},
+									pos:        position{line: 2120, col: 8, offset: 68346},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42643,15 +42643,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2128, col: 5, offset: 68478},
+							pos:   position{line: 2134, col: 5, offset: 68692},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2128, col: 15, offset: 68488},
+								pos:  position{line: 2134, col: 15, offset: 68702},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2129, col: 5, offset: 68527},
+							pos:  position{line: 2135, col: 5, offset: 68741},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -42660,20 +42660,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2133, col: 1, offset: 68664},
+			pos:  position{line: 2139, col: 1, offset: 68878},
 			expr: &actionExpr{
-				pos: position{line: 2134, col: 5, offset: 68705},
+				pos: position{line: 2140, col: 5, offset: 68919},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2134, col: 5, offset: 68705},
+					pos: position{line: 2140, col: 5, offset: 68919},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2134, col: 5, offset: 68705},
+							pos: position{line: 2140, col: 5, offset: 68919},
 							expr: &actionExpr{
-								pos: position{line: 2912, col: 10, offset: 91925},
+								pos: position{line: 2918, col: 10, offset: 92139},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2912, col: 10, offset: 91925},
+									pos:        position{line: 2918, col: 10, offset: 92139},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42682,18 +42682,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2135, col: 5, offset: 68744},
+							pos:   position{line: 2141, col: 5, offset: 68958},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2135, col: 14, offset: 68753},
+								pos: position{line: 2141, col: 14, offset: 68967},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2135, col: 15, offset: 68754},
+									pos:  position{line: 2141, col: 15, offset: 68968},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2136, col: 5, offset: 68792},
+							pos: position{line: 2142, col: 5, offset: 69006},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -42702,31 +42702,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2142, col: 1, offset: 68933},
+			pos:  position{line: 2148, col: 1, offset: 69147},
 			expr: &actionExpr{
-				pos: position{line: 2143, col: 5, offset: 68973},
+				pos: position{line: 2149, col: 5, offset: 69187},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2143, col: 5, offset: 68973},
+					pos: position{line: 2149, col: 5, offset: 69187},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2929, col: 11, offset: 92259},
+							pos: position{line: 2935, col: 11, offset: 92473},
 							expr: &anyMatcher{
-								line: 2929, col: 13, offset: 92261,
+								line: 2935, col: 13, offset: 92475,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2144, col: 5, offset: 68984},
+							pos: position{line: 2150, col: 5, offset: 69198},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2144, col: 6, offset: 68985},
+								pos:  position{line: 2150, col: 6, offset: 69199},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2145, col: 5, offset: 69026},
+							pos:   position{line: 2151, col: 5, offset: 69240},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2145, col: 14, offset: 69035},
+								pos:  position{line: 2151, col: 14, offset: 69249},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42736,35 +42736,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2150, col: 1, offset: 69123},
+			pos:  position{line: 2156, col: 1, offset: 69337},
 			expr: &choiceExpr{
-				pos: position{line: 2152, col: 5, offset: 69194},
+				pos: position{line: 2158, col: 5, offset: 69408},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2152, col: 5, offset: 69194},
+						pos: position{line: 2158, col: 5, offset: 69408},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2152, col: 5, offset: 69194},
+							pos: position{line: 2158, col: 5, offset: 69408},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2152, col: 5, offset: 69194},
+									pos:   position{line: 2158, col: 5, offset: 69408},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1855, col: 25, offset: 59876},
+										pos: position{line: 1861, col: 25, offset: 60090},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1855, col: 25, offset: 59876},
+											pos: position{line: 1861, col: 25, offset: 60090},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1855, col: 25, offset: 59876},
+													pos:        position{line: 1861, col: 25, offset: 60090},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1855, col: 30, offset: 59881},
+													pos: position{line: 1861, col: 30, offset: 60095},
 													expr: &litMatcher{
-														pos:        position{line: 1855, col: 30, offset: 59881},
+														pos:        position{line: 1861, col: 30, offset: 60095},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42775,21 +42775,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2152, col: 40, offset: 69229},
+									pos:        position{line: 2158, col: 40, offset: 69443},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2152, col: 45, offset: 69234},
+									pos:   position{line: 2158, col: 45, offset: 69448},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2152, col: 55, offset: 69244},
+										pos:  position{line: 2158, col: 55, offset: 69458},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2152, col: 89, offset: 69278},
+									pos:        position{line: 2158, col: 89, offset: 69492},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -42798,21 +42798,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2156, col: 7, offset: 69447},
+						pos: position{line: 2162, col: 7, offset: 69661},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2156, col: 7, offset: 69447},
+							pos: position{line: 2162, col: 7, offset: 69661},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2156, col: 7, offset: 69447},
+									pos:   position{line: 2162, col: 7, offset: 69661},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1851, col: 25, offset: 59803},
+										pos: position{line: 1857, col: 25, offset: 60017},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1851, col: 25, offset: 59803},
+											pos: position{line: 1857, col: 25, offset: 60017},
 											expr: &litMatcher{
-												pos:        position{line: 1851, col: 25, offset: 59803},
+												pos:        position{line: 1857, col: 25, offset: 60017},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42821,21 +42821,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2156, col: 42, offset: 69482},
+									pos:        position{line: 2162, col: 42, offset: 69696},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2156, col: 47, offset: 69487},
+									pos:   position{line: 2162, col: 47, offset: 69701},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2156, col: 57, offset: 69497},
+										pos:  position{line: 2162, col: 57, offset: 69711},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2156, col: 91, offset: 69531},
+									pos:        position{line: 2162, col: 91, offset: 69745},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42844,21 +42844,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2161, col: 7, offset: 69737},
+						pos: position{line: 2167, col: 7, offset: 69951},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2161, col: 7, offset: 69737},
+							pos: position{line: 2167, col: 7, offset: 69951},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2161, col: 7, offset: 69737},
+									pos:   position{line: 2167, col: 7, offset: 69951},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1851, col: 25, offset: 59803},
+										pos: position{line: 1857, col: 25, offset: 60017},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1851, col: 25, offset: 59803},
+											pos: position{line: 1857, col: 25, offset: 60017},
 											expr: &litMatcher{
-												pos:        position{line: 1851, col: 25, offset: 59803},
+												pos:        position{line: 1857, col: 25, offset: 60017},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42867,21 +42867,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2161, col: 42, offset: 69772},
+									pos:        position{line: 2167, col: 42, offset: 69986},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2161, col: 46, offset: 69776},
+									pos:   position{line: 2167, col: 46, offset: 69990},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2161, col: 56, offset: 69786},
+										pos:  position{line: 2167, col: 56, offset: 70000},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2161, col: 90, offset: 69820},
+									pos:        position{line: 2167, col: 90, offset: 70034},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42894,29 +42894,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2178, col: 1, offset: 70305},
+			pos:  position{line: 2184, col: 1, offset: 70519},
 			expr: &actionExpr{
-				pos: position{line: 2179, col: 5, offset: 70335},
+				pos: position{line: 2185, col: 5, offset: 70549},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2179, col: 5, offset: 70335},
+					pos: position{line: 2185, col: 5, offset: 70549},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2174, col: 40, offset: 70256},
+							pos:        position{line: 2180, col: 40, offset: 70470},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2180, col: 5, offset: 70376},
+							pos:   position{line: 2186, col: 5, offset: 70590},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2180, col: 15, offset: 70386},
+								pos:  position{line: 2186, col: 15, offset: 70600},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2176, col: 38, offset: 70299},
+							pos:        position{line: 2182, col: 38, offset: 70513},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -42927,24 +42927,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2185, col: 1, offset: 70552},
+			pos:  position{line: 2191, col: 1, offset: 70766},
 			expr: &actionExpr{
-				pos: position{line: 2186, col: 5, offset: 70589},
+				pos: position{line: 2192, col: 5, offset: 70803},
 				run: (*parser).callonDoubleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2186, col: 5, offset: 70589},
+					pos: position{line: 2192, col: 5, offset: 70803},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2186, col: 5, offset: 70589},
+							pos: position{line: 2192, col: 5, offset: 70803},
 							run: (*parser).callonDoubleQuoteMarkedTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2190, col: 5, offset: 70709},
+							pos:   position{line: 2196, col: 5, offset: 70923},
 							label: "elements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2190, col: 14, offset: 70718},
+								pos: position{line: 2196, col: 14, offset: 70932},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2190, col: 15, offset: 70719},
+									pos:  position{line: 2196, col: 15, offset: 70933},
 									name: "DoubleQuoteMarkedTextElement",
 								},
 							},
@@ -42955,33 +42955,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2194, col: 1, offset: 70788},
+			pos:  position{line: 2200, col: 1, offset: 71002},
 			expr: &actionExpr{
-				pos: position{line: 2195, col: 5, offset: 70857},
+				pos: position{line: 2201, col: 5, offset: 71071},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2195, col: 5, offset: 70857},
+					pos: position{line: 2201, col: 5, offset: 71071},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2929, col: 11, offset: 92259},
+							pos: position{line: 2935, col: 11, offset: 92473},
 							expr: &anyMatcher{
-								line: 2929, col: 13, offset: 92261,
+								line: 2935, col: 13, offset: 92475,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2196, col: 5, offset: 70868},
+							pos: position{line: 2202, col: 5, offset: 71082},
 							expr: &litMatcher{
-								pos:        position{line: 2176, col: 38, offset: 70299},
+								pos:        position{line: 2182, col: 38, offset: 70513},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2197, col: 5, offset: 70907},
+							pos:   position{line: 2203, col: 5, offset: 71121},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2197, col: 14, offset: 70916},
+								pos:  position{line: 2203, col: 14, offset: 71130},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42991,29 +42991,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2222, col: 1, offset: 71598},
+			pos:  position{line: 2228, col: 1, offset: 71812},
 			expr: &actionExpr{
-				pos: position{line: 2223, col: 5, offset: 71628},
+				pos: position{line: 2229, col: 5, offset: 71842},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2223, col: 5, offset: 71628},
+					pos: position{line: 2229, col: 5, offset: 71842},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2206, col: 5, offset: 71164},
+							pos:        position{line: 2212, col: 5, offset: 71378},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2207, col: 5, offset: 71173},
+							pos: position{line: 2213, col: 5, offset: 71387},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2211, col: 5, offset: 71293},
+							pos: position{line: 2217, col: 5, offset: 71507},
 							expr: &notExpr{
-								pos: position{line: 2211, col: 7, offset: 71295},
+								pos: position{line: 2217, col: 7, offset: 71509},
 								expr: &litMatcher{
-									pos:        position{line: 2211, col: 8, offset: 71296},
+									pos:        position{line: 2217, col: 8, offset: 71510},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43021,38 +43021,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2224, col: 5, offset: 71668},
+							pos:   position{line: 2230, col: 5, offset: 71882},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2224, col: 15, offset: 71678},
+								pos:  position{line: 2230, col: 15, offset: 71892},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2214, col: 5, offset: 71401},
+							pos:        position{line: 2220, col: 5, offset: 71615},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2215, col: 5, offset: 71409},
+							pos: position{line: 2221, col: 5, offset: 71623},
 							expr: &litMatcher{
-								pos:        position{line: 2215, col: 6, offset: 71410},
+								pos:        position{line: 2221, col: 6, offset: 71624},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2216, col: 5, offset: 71473},
+							pos: position{line: 2222, col: 5, offset: 71687},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2220, col: 5, offset: 71584},
+							pos: position{line: 2226, col: 5, offset: 71798},
 							expr: &notExpr{
-								pos: position{line: 2220, col: 7, offset: 71586},
+								pos: position{line: 2226, col: 7, offset: 71800},
 								expr: &charClassMatcher{
-									pos:        position{line: 2802, col: 13, offset: 89020},
+									pos:        position{line: 2808, col: 13, offset: 89234},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43066,20 +43066,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2229, col: 1, offset: 71845},
+			pos:  position{line: 2235, col: 1, offset: 72059},
 			expr: &actionExpr{
-				pos: position{line: 2230, col: 5, offset: 71883},
+				pos: position{line: 2236, col: 5, offset: 72097},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2230, col: 5, offset: 71883},
+					pos: position{line: 2236, col: 5, offset: 72097},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2230, col: 5, offset: 71883},
+							pos: position{line: 2236, col: 5, offset: 72097},
 							expr: &actionExpr{
-								pos: position{line: 2912, col: 10, offset: 91925},
+								pos: position{line: 2918, col: 10, offset: 92139},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2912, col: 10, offset: 91925},
+									pos:        position{line: 2918, col: 10, offset: 92139},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43088,18 +43088,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2231, col: 5, offset: 71922},
+							pos:   position{line: 2237, col: 5, offset: 72136},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2231, col: 14, offset: 71931},
+								pos: position{line: 2237, col: 14, offset: 72145},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2231, col: 15, offset: 71932},
+									pos:  position{line: 2237, col: 15, offset: 72146},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2232, col: 5, offset: 71968},
+							pos: position{line: 2238, col: 5, offset: 72182},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -43108,49 +43108,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2238, col: 1, offset: 72109},
+			pos:  position{line: 2244, col: 1, offset: 72323},
 			expr: &actionExpr{
-				pos: position{line: 2239, col: 5, offset: 72146},
+				pos: position{line: 2245, col: 5, offset: 72360},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2239, col: 5, offset: 72146},
+					pos: position{line: 2245, col: 5, offset: 72360},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2929, col: 11, offset: 92259},
+							pos: position{line: 2935, col: 11, offset: 92473},
 							expr: &anyMatcher{
-								line: 2929, col: 13, offset: 92261,
+								line: 2935, col: 13, offset: 92475,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2240, col: 5, offset: 72157},
+							pos: position{line: 2246, col: 5, offset: 72371},
 							expr: &seqExpr{
-								pos: position{line: 2214, col: 5, offset: 71401},
+								pos: position{line: 2220, col: 5, offset: 71615},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2214, col: 5, offset: 71401},
+										pos:        position{line: 2220, col: 5, offset: 71615},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2215, col: 5, offset: 71409},
+										pos: position{line: 2221, col: 5, offset: 71623},
 										expr: &litMatcher{
-											pos:        position{line: 2215, col: 6, offset: 71410},
+											pos:        position{line: 2221, col: 6, offset: 71624},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2216, col: 5, offset: 71473},
+										pos: position{line: 2222, col: 5, offset: 71687},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2220, col: 5, offset: 71584},
+										pos: position{line: 2226, col: 5, offset: 71798},
 										expr: &notExpr{
-											pos: position{line: 2220, col: 7, offset: 71586},
+											pos: position{line: 2226, col: 7, offset: 71800},
 											expr: &charClassMatcher{
-												pos:        position{line: 2802, col: 13, offset: 89020},
+												pos:        position{line: 2808, col: 13, offset: 89234},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43162,10 +43162,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2241, col: 5, offset: 72196},
+							pos:   position{line: 2247, col: 5, offset: 72410},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2241, col: 14, offset: 72205},
+								pos:  position{line: 2247, col: 14, offset: 72419},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43175,35 +43175,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2246, col: 1, offset: 72293},
+			pos:  position{line: 2252, col: 1, offset: 72507},
 			expr: &choiceExpr{
-				pos: position{line: 2248, col: 5, offset: 72357},
+				pos: position{line: 2254, col: 5, offset: 72571},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2248, col: 5, offset: 72357},
+						pos: position{line: 2254, col: 5, offset: 72571},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2248, col: 5, offset: 72357},
+							pos: position{line: 2254, col: 5, offset: 72571},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2248, col: 5, offset: 72357},
+									pos:   position{line: 2254, col: 5, offset: 72571},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1855, col: 25, offset: 59876},
+										pos: position{line: 1861, col: 25, offset: 60090},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1855, col: 25, offset: 59876},
+											pos: position{line: 1861, col: 25, offset: 60090},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1855, col: 25, offset: 59876},
+													pos:        position{line: 1861, col: 25, offset: 60090},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1855, col: 30, offset: 59881},
+													pos: position{line: 1861, col: 30, offset: 60095},
 													expr: &litMatcher{
-														pos:        position{line: 1855, col: 30, offset: 59881},
+														pos:        position{line: 1861, col: 30, offset: 60095},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43214,21 +43214,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2248, col: 40, offset: 72392},
+									pos:        position{line: 2254, col: 40, offset: 72606},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2248, col: 45, offset: 72397},
+									pos:   position{line: 2254, col: 45, offset: 72611},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2248, col: 55, offset: 72407},
+										pos:  position{line: 2254, col: 55, offset: 72621},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2248, col: 86, offset: 72438},
+									pos:        position{line: 2254, col: 86, offset: 72652},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -43237,21 +43237,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2252, col: 7, offset: 72603},
+						pos: position{line: 2258, col: 7, offset: 72817},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2252, col: 7, offset: 72603},
+							pos: position{line: 2258, col: 7, offset: 72817},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2252, col: 7, offset: 72603},
+									pos:   position{line: 2258, col: 7, offset: 72817},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1851, col: 25, offset: 59803},
+										pos: position{line: 1857, col: 25, offset: 60017},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1851, col: 25, offset: 59803},
+											pos: position{line: 1857, col: 25, offset: 60017},
 											expr: &litMatcher{
-												pos:        position{line: 1851, col: 25, offset: 59803},
+												pos:        position{line: 1857, col: 25, offset: 60017},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43260,21 +43260,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2252, col: 42, offset: 72638},
+									pos:        position{line: 2258, col: 42, offset: 72852},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2252, col: 47, offset: 72643},
+									pos:   position{line: 2258, col: 47, offset: 72857},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2252, col: 57, offset: 72653},
+										pos:  position{line: 2258, col: 57, offset: 72867},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2252, col: 88, offset: 72684},
+									pos:        position{line: 2258, col: 88, offset: 72898},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43283,21 +43283,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2257, col: 7, offset: 72887},
+						pos: position{line: 2263, col: 7, offset: 73101},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2257, col: 7, offset: 72887},
+							pos: position{line: 2263, col: 7, offset: 73101},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2257, col: 7, offset: 72887},
+									pos:   position{line: 2263, col: 7, offset: 73101},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1851, col: 25, offset: 59803},
+										pos: position{line: 1857, col: 25, offset: 60017},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1851, col: 25, offset: 59803},
+											pos: position{line: 1857, col: 25, offset: 60017},
 											expr: &litMatcher{
-												pos:        position{line: 1851, col: 25, offset: 59803},
+												pos:        position{line: 1857, col: 25, offset: 60017},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43306,21 +43306,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2257, col: 42, offset: 72922},
+									pos:        position{line: 2263, col: 42, offset: 73136},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2257, col: 46, offset: 72926},
+									pos:   position{line: 2263, col: 46, offset: 73140},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2257, col: 56, offset: 72936},
+										pos:  position{line: 2263, col: 56, offset: 73150},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2257, col: 87, offset: 72967},
+									pos:        position{line: 2263, col: 87, offset: 73181},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43333,29 +43333,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2264, col: 1, offset: 73234},
+			pos:  position{line: 2270, col: 1, offset: 73448},
 			expr: &actionExpr{
-				pos: position{line: 2265, col: 5, offset: 73256},
+				pos: position{line: 2271, col: 5, offset: 73470},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2265, col: 5, offset: 73256},
+					pos: position{line: 2271, col: 5, offset: 73470},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2271, col: 27, offset: 73471},
+							pos:        position{line: 2277, col: 27, offset: 73685},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2266, col: 5, offset: 73283},
+							pos:   position{line: 2272, col: 5, offset: 73497},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2266, col: 14, offset: 73292},
+								pos:  position{line: 2272, col: 14, offset: 73506},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2271, col: 27, offset: 73471},
+							pos:        position{line: 2277, col: 27, offset: 73685},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43366,34 +43366,34 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2273, col: 1, offset: 73476},
+			pos:  position{line: 2279, col: 1, offset: 73690},
 			expr: &actionExpr{
-				pos: position{line: 2274, col: 5, offset: 73504},
+				pos: position{line: 2280, col: 5, offset: 73718},
 				run: (*parser).callonSubscriptTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2274, col: 5, offset: 73504},
+					pos: position{line: 2280, col: 5, offset: 73718},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2274, col: 5, offset: 73504},
+							pos: position{line: 2280, col: 5, offset: 73718},
 							run: (*parser).callonSubscriptTextElement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2278, col: 5, offset: 73624},
+							pos:   position{line: 2284, col: 5, offset: 73838},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2278, col: 14, offset: 73633},
+								pos: position{line: 2284, col: 14, offset: 73847},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2278, col: 14, offset: 73633},
+										pos:  position{line: 2284, col: 14, offset: 73847},
 										name: "QuotedText",
 									},
 									&actionExpr{
-										pos: position{line: 2282, col: 21, offset: 73721},
+										pos: position{line: 2288, col: 21, offset: 73935},
 										run: (*parser).callonSubscriptTextElement7,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2282, col: 21, offset: 73721},
+											pos: position{line: 2288, col: 21, offset: 73935},
 											expr: &charClassMatcher{
-												pos:        position{line: 2282, col: 21, offset: 73721},
+												pos:        position{line: 2288, col: 21, offset: 73935},
 												val:        "[^\\r\\n ~]",
 												chars:      []rune{'\r', '\n', ' ', '~'},
 												ignoreCase: false,
@@ -43410,23 +43410,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2286, col: 1, offset: 73806},
+			pos:  position{line: 2292, col: 1, offset: 74020},
 			expr: &actionExpr{
-				pos: position{line: 2288, col: 5, offset: 73873},
+				pos: position{line: 2294, col: 5, offset: 74087},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2288, col: 5, offset: 73873},
+					pos: position{line: 2294, col: 5, offset: 74087},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2288, col: 5, offset: 73873},
+							pos:   position{line: 2294, col: 5, offset: 74087},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1851, col: 25, offset: 59803},
+								pos: position{line: 1857, col: 25, offset: 60017},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1851, col: 25, offset: 59803},
+									pos: position{line: 1857, col: 25, offset: 60017},
 									expr: &litMatcher{
-										pos:        position{line: 1851, col: 25, offset: 59803},
+										pos:        position{line: 1857, col: 25, offset: 60017},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43435,21 +43435,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2271, col: 27, offset: 73471},
+							pos:        position{line: 2277, col: 27, offset: 73685},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2290, col: 5, offset: 73941},
+							pos:   position{line: 2296, col: 5, offset: 74155},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2290, col: 14, offset: 73950},
+								pos:  position{line: 2296, col: 14, offset: 74164},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2271, col: 27, offset: 73471},
+							pos:        position{line: 2277, col: 27, offset: 73685},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43460,29 +43460,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2298, col: 1, offset: 74213},
+			pos:  position{line: 2304, col: 1, offset: 74427},
 			expr: &actionExpr{
-				pos: position{line: 2299, col: 5, offset: 74237},
+				pos: position{line: 2305, col: 5, offset: 74451},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2299, col: 5, offset: 74237},
+					pos: position{line: 2305, col: 5, offset: 74451},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2305, col: 29, offset: 74464},
+							pos:        position{line: 2311, col: 29, offset: 74678},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2300, col: 5, offset: 74267},
+							pos:   position{line: 2306, col: 5, offset: 74481},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2300, col: 14, offset: 74276},
+								pos:  position{line: 2306, col: 14, offset: 74490},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2305, col: 29, offset: 74464},
+							pos:        position{line: 2311, col: 29, offset: 74678},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43493,34 +43493,34 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2307, col: 1, offset: 74469},
+			pos:  position{line: 2313, col: 1, offset: 74683},
 			expr: &actionExpr{
-				pos: position{line: 2308, col: 5, offset: 74499},
+				pos: position{line: 2314, col: 5, offset: 74713},
 				run: (*parser).callonSuperscriptTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2308, col: 5, offset: 74499},
+					pos: position{line: 2314, col: 5, offset: 74713},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2308, col: 5, offset: 74499},
+							pos: position{line: 2314, col: 5, offset: 74713},
 							run: (*parser).callonSuperscriptTextElement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2312, col: 5, offset: 74619},
+							pos:   position{line: 2318, col: 5, offset: 74833},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2312, col: 14, offset: 74628},
+								pos: position{line: 2318, col: 14, offset: 74842},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2312, col: 14, offset: 74628},
+										pos:  position{line: 2318, col: 14, offset: 74842},
 										name: "QuotedText",
 									},
 									&actionExpr{
-										pos: position{line: 2316, col: 23, offset: 74720},
+										pos: position{line: 2322, col: 23, offset: 74934},
 										run: (*parser).callonSuperscriptTextElement7,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2316, col: 23, offset: 74720},
+											pos: position{line: 2322, col: 23, offset: 74934},
 											expr: &charClassMatcher{
-												pos:        position{line: 2316, col: 23, offset: 74720},
+												pos:        position{line: 2322, col: 23, offset: 74934},
 												val:        "[^\\r\\n ^]",
 												chars:      []rune{'\r', '\n', ' ', '^'},
 												ignoreCase: false,
@@ -43537,23 +43537,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2320, col: 1, offset: 74805},
+			pos:  position{line: 2326, col: 1, offset: 75019},
 			expr: &actionExpr{
-				pos: position{line: 2322, col: 5, offset: 74877},
+				pos: position{line: 2328, col: 5, offset: 75091},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2322, col: 5, offset: 74877},
+					pos: position{line: 2328, col: 5, offset: 75091},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2322, col: 5, offset: 74877},
+							pos:   position{line: 2328, col: 5, offset: 75091},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1851, col: 25, offset: 59803},
+								pos: position{line: 1857, col: 25, offset: 60017},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1851, col: 25, offset: 59803},
+									pos: position{line: 1857, col: 25, offset: 60017},
 									expr: &litMatcher{
-										pos:        position{line: 1851, col: 25, offset: 59803},
+										pos:        position{line: 1857, col: 25, offset: 60017},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43562,21 +43562,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2305, col: 29, offset: 74464},
+							pos:        position{line: 2311, col: 29, offset: 74678},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2324, col: 5, offset: 74947},
+							pos:   position{line: 2330, col: 5, offset: 75161},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2324, col: 14, offset: 74956},
+								pos:  position{line: 2330, col: 14, offset: 75170},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2305, col: 29, offset: 74464},
+							pos:        position{line: 2311, col: 29, offset: 74678},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43587,27 +43587,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2333, col: 1, offset: 75425},
+			pos:  position{line: 2339, col: 1, offset: 75639},
 			expr: &actionExpr{
-				pos: position{line: 2334, col: 5, offset: 75441},
+				pos: position{line: 2340, col: 5, offset: 75655},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2334, col: 5, offset: 75441},
+					pos: position{line: 2340, col: 5, offset: 75655},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2334, col: 5, offset: 75441},
+							pos: position{line: 2340, col: 5, offset: 75655},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2337, col: 5, offset: 75504},
+							pos:   position{line: 2343, col: 5, offset: 75718},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2337, col: 12, offset: 75511},
+								pos: position{line: 2343, col: 12, offset: 75725},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2337, col: 12, offset: 75511},
+									pos: position{line: 2343, col: 12, offset: 75725},
 									expr: &litMatcher{
-										pos:        position{line: 2337, col: 13, offset: 75512},
+										pos:        position{line: 2343, col: 13, offset: 75726},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -43616,16 +43616,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2341, col: 5, offset: 75620},
+							pos: position{line: 2347, col: 5, offset: 75834},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2916, col: 11, offset: 91986},
+							pos: position{line: 2922, col: 11, offset: 92200},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2916, col: 11, offset: 91986},
+								pos: position{line: 2922, col: 11, offset: 92200},
 								expr: &charClassMatcher{
-									pos:        position{line: 2916, col: 11, offset: 91986},
+									pos:        position{line: 2922, col: 11, offset: 92200},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43634,36 +43634,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2345, col: 12, offset: 75779},
+							pos:   position{line: 2351, col: 12, offset: 75993},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2345, col: 19, offset: 75786},
+								pos:  position{line: 2351, col: 19, offset: 76000},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2934, col: 8, offset: 92323},
+							pos: position{line: 2940, col: 8, offset: 92537},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2921, col: 12, offset: 92096},
+									pos: position{line: 2927, col: 12, offset: 92310},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2921, col: 13, offset: 92097},
+										pos: position{line: 2927, col: 13, offset: 92311},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2921, col: 13, offset: 92097},
+												pos:        position{line: 2927, col: 13, offset: 92311},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2921, col: 20, offset: 92104},
+												pos:        position{line: 2927, col: 20, offset: 92318},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2921, col: 29, offset: 92113},
+												pos:        position{line: 2927, col: 29, offset: 92327},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43672,9 +43672,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2931, col: 8, offset: 92273},
+									pos: position{line: 2937, col: 8, offset: 92487},
 									expr: &anyMatcher{
-										line: 2931, col: 9, offset: 92274,
+										line: 2937, col: 9, offset: 92488,
 									},
 								},
 							},
@@ -43685,24 +43685,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2349, col: 1, offset: 75882},
+			pos:  position{line: 2355, col: 1, offset: 76096},
 			expr: &actionExpr{
-				pos: position{line: 2350, col: 5, offset: 75903},
+				pos: position{line: 2356, col: 5, offset: 76117},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2350, col: 5, offset: 75903},
+					pos: position{line: 2356, col: 5, offset: 76117},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2350, col: 5, offset: 75903},
+							pos: position{line: 2356, col: 5, offset: 76117},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2356, col: 5, offset: 76094},
+							pos:   position{line: 2362, col: 5, offset: 76308},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2356, col: 14, offset: 76103},
+								pos: position{line: 2362, col: 14, offset: 76317},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2356, col: 15, offset: 76104},
+									pos:  position{line: 2362, col: 15, offset: 76318},
 									name: "SectionTitleElement",
 								},
 							},
@@ -43713,38 +43713,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2360, col: 1, offset: 76185},
+			pos:  position{line: 2366, col: 1, offset: 76399},
 			expr: &actionExpr{
-				pos: position{line: 2361, col: 5, offset: 76212},
+				pos: position{line: 2367, col: 5, offset: 76426},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2361, col: 5, offset: 76212},
+					pos: position{line: 2367, col: 5, offset: 76426},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2361, col: 5, offset: 76212},
+							pos: position{line: 2367, col: 5, offset: 76426},
 							expr: &choiceExpr{
-								pos: position{line: 2934, col: 8, offset: 92323},
+								pos: position{line: 2940, col: 8, offset: 92537},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2921, col: 12, offset: 92096},
+										pos: position{line: 2927, col: 12, offset: 92310},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2921, col: 13, offset: 92097},
+											pos: position{line: 2927, col: 13, offset: 92311},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2921, col: 13, offset: 92097},
+													pos:        position{line: 2927, col: 13, offset: 92311},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2921, col: 20, offset: 92104},
+													pos:        position{line: 2927, col: 20, offset: 92318},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2921, col: 29, offset: 92113},
+													pos:        position{line: 2927, col: 29, offset: 92327},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43753,36 +43753,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2931, col: 8, offset: 92273},
+										pos: position{line: 2937, col: 8, offset: 92487},
 										expr: &anyMatcher{
-											line: 2931, col: 9, offset: 92274,
+											line: 2937, col: 9, offset: 92488,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2362, col: 5, offset: 76221},
+							pos:   position{line: 2368, col: 5, offset: 76435},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2363, col: 9, offset: 76239},
+								pos: position{line: 2369, col: 9, offset: 76453},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2811, col: 5, offset: 89167},
+										pos: position{line: 2817, col: 5, offset: 89381},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2811, col: 5, offset: 89167},
+											pos: position{line: 2817, col: 5, offset: 89381},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2811, col: 5, offset: 89167},
+													pos:   position{line: 2817, col: 5, offset: 89381},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2811, col: 11, offset: 89173},
+														pos: position{line: 2817, col: 11, offset: 89387},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2811, col: 11, offset: 89173},
+															pos: position{line: 2817, col: 11, offset: 89387},
 															expr: &charClassMatcher{
-																pos:        position{line: 2811, col: 11, offset: 89173},
+																pos:        position{line: 2817, col: 11, offset: 89387},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43792,36 +43792,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2814, col: 5, offset: 89231},
+													pos: position{line: 2820, col: 5, offset: 89445},
 													expr: &seqExpr{
-														pos: position{line: 2815, col: 9, offset: 89242},
+														pos: position{line: 2821, col: 9, offset: 89456},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2815, col: 9, offset: 89242},
+																pos:        position{line: 2821, col: 9, offset: 89456},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2816, col: 9, offset: 89291},
+																pos: position{line: 2822, col: 9, offset: 89505},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2820, col: 5, offset: 89371},
+													pos: position{line: 2826, col: 5, offset: 89585},
 													expr: &seqExpr{
-														pos: position{line: 2821, col: 9, offset: 89382},
+														pos: position{line: 2827, col: 9, offset: 89596},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2821, col: 9, offset: 89382},
+																pos:        position{line: 2827, col: 9, offset: 89596},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2821, col: 13, offset: 89386},
+																pos:        position{line: 2827, col: 13, offset: 89600},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43834,12 +43834,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2916, col: 11, offset: 91986},
+										pos: position{line: 2922, col: 11, offset: 92200},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2916, col: 11, offset: 91986},
+											pos: position{line: 2922, col: 11, offset: 92200},
 											expr: &charClassMatcher{
-												pos:        position{line: 2916, col: 11, offset: 91986},
+												pos:        position{line: 2922, col: 11, offset: 92200},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43848,21 +43848,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2533, col: 5, offset: 81448},
+										pos: position{line: 2539, col: 5, offset: 81662},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2533, col: 5, offset: 81448},
+											pos: position{line: 2539, col: 5, offset: 81662},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2533, col: 5, offset: 81448},
+													pos:        position{line: 2539, col: 5, offset: 81662},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2533, col: 10, offset: 81453},
+													pos: position{line: 2539, col: 10, offset: 81667},
 													expr: &charClassMatcher{
-														pos:        position{line: 2533, col: 11, offset: 81454},
+														pos:        position{line: 2539, col: 11, offset: 81668},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43873,29 +43873,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2539, col: 5, offset: 81646},
+										pos: position{line: 2545, col: 5, offset: 81860},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2539, col: 5, offset: 81646},
+											pos: position{line: 2545, col: 5, offset: 81860},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2539, col: 5, offset: 81646},
+													pos: position{line: 2545, col: 5, offset: 81860},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2542, col: 5, offset: 81717},
+													pos: position{line: 2548, col: 5, offset: 81931},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2546, col: 5, offset: 81842},
+													pos:        position{line: 2552, col: 5, offset: 82056},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2546, col: 9, offset: 81846},
+													pos: position{line: 2552, col: 9, offset: 82060},
 													expr: &charClassMatcher{
-														pos:        position{line: 2546, col: 10, offset: 81847},
+														pos:        position{line: 2552, col: 10, offset: 82061},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43906,31 +43906,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2366, col: 11, offset: 76304},
+										pos:  position{line: 2372, col: 11, offset: 76518},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2829, col: 5, offset: 89579},
+										pos: position{line: 2835, col: 5, offset: 89793},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2830, col: 9, offset: 89589},
+											pos: position{line: 2836, col: 9, offset: 89803},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2830, col: 10, offset: 89590},
+													pos:        position{line: 2836, col: 10, offset: 89804},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2832, col: 13, offset: 89687},
+													pos: position{line: 2838, col: 13, offset: 89901},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2832, col: 13, offset: 89687},
+															pos: position{line: 2838, col: 13, offset: 89901},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2835, col: 13, offset: 89787},
+															pos:        position{line: 2841, col: 13, offset: 90001},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43938,20 +43938,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2835, col: 19, offset: 89793},
+													pos:        position{line: 2841, col: 19, offset: 90007},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2838, col: 13, offset: 89831},
+													pos: position{line: 2844, col: 13, offset: 90045},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2838, col: 13, offset: 89831},
+															pos: position{line: 2844, col: 13, offset: 90045},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2841, col: 14, offset: 89924},
+															pos:        position{line: 2847, col: 14, offset: 90138},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -43960,18 +43960,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2843, col: 12, offset: 89968},
+													pos: position{line: 2849, col: 12, offset: 90182},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2843, col: 12, offset: 89968},
+															pos:        position{line: 2849, col: 12, offset: 90182},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2843, col: 16, offset: 89972},
+															pos: position{line: 2849, col: 16, offset: 90186},
 															expr: &litMatcher{
-																pos:        position{line: 2843, col: 17, offset: 89973},
+																pos:        position{line: 2849, col: 17, offset: 90187},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -43983,35 +43983,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2368, col: 11, offset: 76377},
+										pos:  position{line: 2374, col: 11, offset: 76591},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2369, col: 11, offset: 76393},
+										pos:  position{line: 2375, col: 11, offset: 76607},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2370, col: 11, offset: 76421},
+										pos:  position{line: 2376, col: 11, offset: 76635},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2502, col: 5, offset: 80249},
+										pos: position{line: 2508, col: 5, offset: 80463},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2502, col: 5, offset: 80249},
+											pos: position{line: 2508, col: 5, offset: 80463},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2502, col: 5, offset: 80249},
+													pos: position{line: 2508, col: 5, offset: 80463},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2505, col: 5, offset: 80325},
+													pos:   position{line: 2511, col: 5, offset: 80539},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2506, col: 9, offset: 80343},
+														pos: position{line: 2512, col: 9, offset: 80557},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2506, col: 10, offset: 80344},
+															pos:        position{line: 2512, col: 10, offset: 80558},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -44023,39 +44023,39 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2372, col: 11, offset: 76506},
+										pos:  position{line: 2378, col: 11, offset: 76720},
 										name: "InlineIcon",
 									},
 									&actionExpr{
-										pos: position{line: 639, col: 5, offset: 20305},
+										pos: position{line: 645, col: 5, offset: 20519},
 										run: (*parser).callonSectionTitleElement68,
 										expr: &seqExpr{
-											pos: position{line: 639, col: 5, offset: 20305},
+											pos: position{line: 645, col: 5, offset: 20519},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 639, col: 5, offset: 20305},
+													pos: position{line: 645, col: 5, offset: 20519},
 													run: (*parser).callonSectionTitleElement70,
 												},
 												&labeledExpr{
-													pos:   position{line: 642, col: 5, offset: 20377},
+													pos:   position{line: 648, col: 5, offset: 20591},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 642, col: 14, offset: 20386},
+														pos: position{line: 648, col: 14, offset: 20600},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 648, col: 5, offset: 20515},
+																pos: position{line: 654, col: 5, offset: 20729},
 																run: (*parser).callonSectionTitleElement73,
 																expr: &seqExpr{
-																	pos: position{line: 648, col: 5, offset: 20515},
+																	pos: position{line: 654, col: 5, offset: 20729},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 648, col: 5, offset: 20515},
+																			pos:        position{line: 654, col: 5, offset: 20729},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 648, col: 13, offset: 20523},
+																			pos:   position{line: 654, col: 13, offset: 20737},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -44087,7 +44087,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 648, col: 32, offset: 20542},
+																			pos:        position{line: 654, col: 32, offset: 20756},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44096,19 +44096,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 655, col: 5, offset: 20783},
+																pos: position{line: 661, col: 5, offset: 20997},
 																run: (*parser).callonSectionTitleElement83,
 																expr: &seqExpr{
-																	pos: position{line: 655, col: 5, offset: 20783},
+																	pos: position{line: 661, col: 5, offset: 20997},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 655, col: 5, offset: 20783},
+																			pos:        position{line: 661, col: 5, offset: 20997},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 655, col: 9, offset: 20787},
+																			pos:   position{line: 661, col: 9, offset: 21001},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -44140,7 +44140,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 655, col: 28, offset: 20806},
+																			pos:        position{line: 661, col: 28, offset: 21020},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44149,19 +44149,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 661, col: 25, offset: 20987},
+																pos: position{line: 667, col: 25, offset: 21201},
 																run: (*parser).callonSectionTitleElement93,
 																expr: &seqExpr{
-																	pos: position{line: 661, col: 25, offset: 20987},
+																	pos: position{line: 667, col: 25, offset: 21201},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 661, col: 25, offset: 20987},
+																			pos:        position{line: 667, col: 25, offset: 21201},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 661, col: 37, offset: 20999},
+																			pos:   position{line: 667, col: 37, offset: 21213},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -44193,33 +44193,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 661, col: 56, offset: 21018},
+																			pos:   position{line: 667, col: 56, offset: 21232},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 661, col: 62, offset: 21024},
+																				pos: position{line: 667, col: 62, offset: 21238},
 																				expr: &actionExpr{
-																					pos: position{line: 669, col: 17, offset: 21321},
+																					pos: position{line: 675, col: 17, offset: 21535},
 																					run: (*parser).callonSectionTitleElement104,
 																					expr: &seqExpr{
-																						pos: position{line: 669, col: 17, offset: 21321},
+																						pos: position{line: 675, col: 17, offset: 21535},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 669, col: 17, offset: 21321},
+																								pos:        position{line: 675, col: 17, offset: 21535},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 669, col: 21, offset: 21325},
+																								pos:   position{line: 675, col: 21, offset: 21539},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 669, col: 28, offset: 21332},
+																									pos: position{line: 675, col: 28, offset: 21546},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 669, col: 28, offset: 21332},
+																											pos: position{line: 675, col: 28, offset: 21546},
 																											run: (*parser).callonSectionTitleElement109,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 669, col: 28, offset: 21332},
+																												pos:        position{line: 675, col: 28, offset: 21546},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -44227,12 +44227,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 671, col: 9, offset: 21386},
+																											pos: position{line: 677, col: 9, offset: 21600},
 																											run: (*parser).callonSectionTitleElement111,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 671, col: 9, offset: 21386},
+																												pos: position{line: 677, col: 9, offset: 21600},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 671, col: 9, offset: 21386},
+																													pos:        position{line: 677, col: 9, offset: 21600},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44249,7 +44249,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 661, col: 78, offset: 21040},
+																			pos:        position{line: 667, col: 78, offset: 21254},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44258,19 +44258,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 665, col: 25, offset: 21158},
+																pos: position{line: 671, col: 25, offset: 21372},
 																run: (*parser).callonSectionTitleElement115,
 																expr: &seqExpr{
-																	pos: position{line: 665, col: 25, offset: 21158},
+																	pos: position{line: 671, col: 25, offset: 21372},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 665, col: 25, offset: 21158},
+																			pos:        position{line: 671, col: 25, offset: 21372},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 665, col: 38, offset: 21171},
+																			pos:   position{line: 671, col: 38, offset: 21385},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -44302,33 +44302,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 665, col: 57, offset: 21190},
+																			pos:   position{line: 671, col: 57, offset: 21404},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 665, col: 63, offset: 21196},
+																				pos: position{line: 671, col: 63, offset: 21410},
 																				expr: &actionExpr{
-																					pos: position{line: 669, col: 17, offset: 21321},
+																					pos: position{line: 675, col: 17, offset: 21535},
 																					run: (*parser).callonSectionTitleElement126,
 																					expr: &seqExpr{
-																						pos: position{line: 669, col: 17, offset: 21321},
+																						pos: position{line: 675, col: 17, offset: 21535},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 669, col: 17, offset: 21321},
+																								pos:        position{line: 675, col: 17, offset: 21535},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 669, col: 21, offset: 21325},
+																								pos:   position{line: 675, col: 21, offset: 21539},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 669, col: 28, offset: 21332},
+																									pos: position{line: 675, col: 28, offset: 21546},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 669, col: 28, offset: 21332},
+																											pos: position{line: 675, col: 28, offset: 21546},
 																											run: (*parser).callonSectionTitleElement131,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 669, col: 28, offset: 21332},
+																												pos:        position{line: 675, col: 28, offset: 21546},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -44336,12 +44336,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 671, col: 9, offset: 21386},
+																											pos: position{line: 677, col: 9, offset: 21600},
 																											run: (*parser).callonSectionTitleElement133,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 671, col: 9, offset: 21386},
+																												pos: position{line: 677, col: 9, offset: 21600},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 671, col: 9, offset: 21386},
+																													pos:        position{line: 677, col: 9, offset: 21600},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44358,7 +44358,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 665, col: 79, offset: 21212},
+																			pos:        position{line: 671, col: 79, offset: 21426},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44373,27 +44373,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1201, col: 23, offset: 37170},
+										pos: position{line: 1207, col: 23, offset: 37384},
 										run: (*parser).callonSectionTitleElement137,
 										expr: &seqExpr{
-											pos: position{line: 1201, col: 23, offset: 37170},
+											pos: position{line: 1207, col: 23, offset: 37384},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1199, col: 32, offset: 37138},
+													pos:        position{line: 1205, col: 32, offset: 37352},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1201, col: 51, offset: 37198},
+													pos:   position{line: 1207, col: 51, offset: 37412},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1201, col: 56, offset: 37203},
+														pos: position{line: 1207, col: 56, offset: 37417},
 														run: (*parser).callonSectionTitleElement141,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1201, col: 56, offset: 37203},
+															pos: position{line: 1207, col: 56, offset: 37417},
 															expr: &charClassMatcher{
-																pos:        position{line: 1201, col: 56, offset: 37203},
+																pos:        position{line: 1207, col: 56, offset: 37417},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -44403,7 +44403,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1199, col: 32, offset: 37138},
+													pos:        position{line: 1205, col: 32, offset: 37352},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -44412,17 +44412,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2385, col: 5, offset: 76959},
+										pos: position{line: 2391, col: 5, offset: 77173},
 										run: (*parser).callonSectionTitleElement145,
 										expr: &seqExpr{
-											pos: position{line: 2385, col: 5, offset: 76959},
+											pos: position{line: 2391, col: 5, offset: 77173},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2385, col: 5, offset: 76959},
+													pos: position{line: 2391, col: 5, offset: 77173},
 													run: (*parser).callonSectionTitleElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2388, col: 5, offset: 77014},
+													pos:   position{line: 2394, col: 5, offset: 77228},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 406, col: 5, offset: 12506},
@@ -44465,27 +44465,27 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 1201, col: 23, offset: 37170},
+																							pos: position{line: 1207, col: 23, offset: 37384},
 																							run: (*parser).callonSectionTitleElement160,
 																							expr: &seqExpr{
-																								pos: position{line: 1201, col: 23, offset: 37170},
+																								pos: position{line: 1207, col: 23, offset: 37384},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1199, col: 32, offset: 37138},
+																										pos:        position{line: 1205, col: 32, offset: 37352},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1201, col: 51, offset: 37198},
+																										pos:   position{line: 1207, col: 51, offset: 37412},
 																										label: "ref",
 																										expr: &actionExpr{
-																											pos: position{line: 1201, col: 56, offset: 37203},
+																											pos: position{line: 1207, col: 56, offset: 37417},
 																											run: (*parser).callonSectionTitleElement164,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1201, col: 56, offset: 37203},
+																												pos: position{line: 1207, col: 56, offset: 37417},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1201, col: 56, offset: 37203},
+																													pos:        position{line: 1207, col: 56, offset: 37417},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44495,7 +44495,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1199, col: 32, offset: 37138},
+																										pos:        position{line: 1205, col: 32, offset: 37352},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
@@ -44504,35 +44504,35 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 639, col: 5, offset: 20305},
+																							pos: position{line: 645, col: 5, offset: 20519},
 																							run: (*parser).callonSectionTitleElement168,
 																							expr: &seqExpr{
-																								pos: position{line: 639, col: 5, offset: 20305},
+																								pos: position{line: 645, col: 5, offset: 20519},
 																								exprs: []interface{}{
 																									&andCodeExpr{
-																										pos: position{line: 639, col: 5, offset: 20305},
+																										pos: position{line: 645, col: 5, offset: 20519},
 																										run: (*parser).callonSectionTitleElement170,
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 642, col: 5, offset: 20377},
+																										pos:   position{line: 648, col: 5, offset: 20591},
 																										label: "element",
 																										expr: &choiceExpr{
-																											pos: position{line: 642, col: 14, offset: 20386},
+																											pos: position{line: 648, col: 14, offset: 20600},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 648, col: 5, offset: 20515},
+																													pos: position{line: 654, col: 5, offset: 20729},
 																													run: (*parser).callonSectionTitleElement173,
 																													expr: &seqExpr{
-																														pos: position{line: 648, col: 5, offset: 20515},
+																														pos: position{line: 654, col: 5, offset: 20729},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 648, col: 5, offset: 20515},
+																																pos:        position{line: 654, col: 5, offset: 20729},
 																																val:        "\\{",
 																																ignoreCase: false,
 																																want:       "\"\\\\{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 648, col: 13, offset: 20523},
+																																pos:   position{line: 654, col: 13, offset: 20737},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
@@ -44564,7 +44564,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 648, col: 32, offset: 20542},
+																																pos:        position{line: 654, col: 32, offset: 20756},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44573,19 +44573,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 655, col: 5, offset: 20783},
+																													pos: position{line: 661, col: 5, offset: 20997},
 																													run: (*parser).callonSectionTitleElement183,
 																													expr: &seqExpr{
-																														pos: position{line: 655, col: 5, offset: 20783},
+																														pos: position{line: 661, col: 5, offset: 20997},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 655, col: 5, offset: 20783},
+																																pos:        position{line: 661, col: 5, offset: 20997},
 																																val:        "{",
 																																ignoreCase: false,
 																																want:       "\"{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 655, col: 9, offset: 20787},
+																																pos:   position{line: 661, col: 9, offset: 21001},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
@@ -44617,7 +44617,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 655, col: 28, offset: 20806},
+																																pos:        position{line: 661, col: 28, offset: 21020},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44626,19 +44626,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 661, col: 25, offset: 20987},
+																													pos: position{line: 667, col: 25, offset: 21201},
 																													run: (*parser).callonSectionTitleElement193,
 																													expr: &seqExpr{
-																														pos: position{line: 661, col: 25, offset: 20987},
+																														pos: position{line: 667, col: 25, offset: 21201},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 661, col: 25, offset: 20987},
+																																pos:        position{line: 667, col: 25, offset: 21201},
 																																val:        "{counter:",
 																																ignoreCase: false,
 																																want:       "\"{counter:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 661, col: 37, offset: 20999},
+																																pos:   position{line: 667, col: 37, offset: 21213},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
@@ -44670,33 +44670,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 661, col: 56, offset: 21018},
+																																pos:   position{line: 667, col: 56, offset: 21232},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 661, col: 62, offset: 21024},
+																																	pos: position{line: 667, col: 62, offset: 21238},
 																																	expr: &actionExpr{
-																																		pos: position{line: 669, col: 17, offset: 21321},
+																																		pos: position{line: 675, col: 17, offset: 21535},
 																																		run: (*parser).callonSectionTitleElement204,
 																																		expr: &seqExpr{
-																																			pos: position{line: 669, col: 17, offset: 21321},
+																																			pos: position{line: 675, col: 17, offset: 21535},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 669, col: 17, offset: 21321},
+																																					pos:        position{line: 675, col: 17, offset: 21535},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 669, col: 21, offset: 21325},
+																																					pos:   position{line: 675, col: 21, offset: 21539},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 669, col: 28, offset: 21332},
+																																						pos: position{line: 675, col: 28, offset: 21546},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 669, col: 28, offset: 21332},
+																																								pos: position{line: 675, col: 28, offset: 21546},
 																																								run: (*parser).callonSectionTitleElement209,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 669, col: 28, offset: 21332},
+																																									pos:        position{line: 675, col: 28, offset: 21546},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -44704,12 +44704,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 671, col: 9, offset: 21386},
+																																								pos: position{line: 677, col: 9, offset: 21600},
 																																								run: (*parser).callonSectionTitleElement211,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 671, col: 9, offset: 21386},
+																																									pos: position{line: 677, col: 9, offset: 21600},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 671, col: 9, offset: 21386},
+																																										pos:        position{line: 677, col: 9, offset: 21600},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -44726,7 +44726,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 661, col: 78, offset: 21040},
+																																pos:        position{line: 667, col: 78, offset: 21254},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44735,19 +44735,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 665, col: 25, offset: 21158},
+																													pos: position{line: 671, col: 25, offset: 21372},
 																													run: (*parser).callonSectionTitleElement215,
 																													expr: &seqExpr{
-																														pos: position{line: 665, col: 25, offset: 21158},
+																														pos: position{line: 671, col: 25, offset: 21372},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 665, col: 25, offset: 21158},
+																																pos:        position{line: 671, col: 25, offset: 21372},
 																																val:        "{counter2:",
 																																ignoreCase: false,
 																																want:       "\"{counter2:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 665, col: 38, offset: 21171},
+																																pos:   position{line: 671, col: 38, offset: 21385},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
@@ -44779,33 +44779,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 665, col: 57, offset: 21190},
+																																pos:   position{line: 671, col: 57, offset: 21404},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 665, col: 63, offset: 21196},
+																																	pos: position{line: 671, col: 63, offset: 21410},
 																																	expr: &actionExpr{
-																																		pos: position{line: 669, col: 17, offset: 21321},
+																																		pos: position{line: 675, col: 17, offset: 21535},
 																																		run: (*parser).callonSectionTitleElement226,
 																																		expr: &seqExpr{
-																																			pos: position{line: 669, col: 17, offset: 21321},
+																																			pos: position{line: 675, col: 17, offset: 21535},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 669, col: 17, offset: 21321},
+																																					pos:        position{line: 675, col: 17, offset: 21535},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 669, col: 21, offset: 21325},
+																																					pos:   position{line: 675, col: 21, offset: 21539},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 669, col: 28, offset: 21332},
+																																						pos: position{line: 675, col: 28, offset: 21546},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 669, col: 28, offset: 21332},
+																																								pos: position{line: 675, col: 28, offset: 21546},
 																																								run: (*parser).callonSectionTitleElement231,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 669, col: 28, offset: 21332},
+																																									pos:        position{line: 675, col: 28, offset: 21546},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -44813,12 +44813,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 671, col: 9, offset: 21386},
+																																								pos: position{line: 677, col: 9, offset: 21600},
 																																								run: (*parser).callonSectionTitleElement233,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 671, col: 9, offset: 21386},
+																																									pos: position{line: 677, col: 9, offset: 21600},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 671, col: 9, offset: 21386},
+																																										pos:        position{line: 677, col: 9, offset: 21600},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -44835,7 +44835,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 665, col: 79, offset: 21212},
+																																pos:        position{line: 671, col: 79, offset: 21426},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44876,12 +44876,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2388, col: 26, offset: 77035},
+													pos: position{line: 2394, col: 26, offset: 77249},
 													expr: &actionExpr{
-														pos: position{line: 2912, col: 10, offset: 91925},
+														pos: position{line: 2918, col: 10, offset: 92139},
 														run: (*parser).callonSectionTitleElement241,
 														expr: &charClassMatcher{
-															pos:        position{line: 2912, col: 10, offset: 91925},
+															pos:        position{line: 2918, col: 10, offset: 92139},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44890,30 +44890,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2388, col: 33, offset: 77042},
+													pos: position{line: 2394, col: 33, offset: 77256},
 													expr: &choiceExpr{
-														pos: position{line: 2934, col: 8, offset: 92323},
+														pos: position{line: 2940, col: 8, offset: 92537},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2921, col: 12, offset: 92096},
+																pos: position{line: 2927, col: 12, offset: 92310},
 																run: (*parser).callonSectionTitleElement245,
 																expr: &choiceExpr{
-																	pos: position{line: 2921, col: 13, offset: 92097},
+																	pos: position{line: 2927, col: 13, offset: 92311},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 13, offset: 92097},
+																			pos:        position{line: 2927, col: 13, offset: 92311},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 20, offset: 92104},
+																			pos:        position{line: 2927, col: 20, offset: 92318},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2921, col: 29, offset: 92113},
+																			pos:        position{line: 2927, col: 29, offset: 92327},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44922,9 +44922,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2931, col: 8, offset: 92273},
+																pos: position{line: 2937, col: 8, offset: 92487},
 																expr: &anyMatcher{
-																	line: 2931, col: 9, offset: 92274,
+																	line: 2937, col: 9, offset: 92488,
 																},
 															},
 														},
@@ -44934,27 +44934,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1256, col: 5, offset: 38930},
+										pos: position{line: 1262, col: 5, offset: 39144},
 										run: (*parser).callonSectionTitleElement252,
 										expr: &seqExpr{
-											pos: position{line: 1256, col: 5, offset: 38930},
+											pos: position{line: 1262, col: 5, offset: 39144},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1256, col: 5, offset: 38930},
+													pos:        position{line: 1262, col: 5, offset: 39144},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1256, col: 14, offset: 38939},
+													pos:   position{line: 1262, col: 14, offset: 39153},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2897, col: 7, offset: 91577},
+														pos: position{line: 2903, col: 7, offset: 91791},
 														run: (*parser).callonSectionTitleElement256,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2897, col: 7, offset: 91577},
+															pos: position{line: 2903, col: 7, offset: 91791},
 															expr: &charClassMatcher{
-																pos:        position{line: 2897, col: 7, offset: 91577},
+																pos:        position{line: 2903, col: 7, offset: 91791},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -44964,7 +44964,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1256, col: 22, offset: 38947},
+													pos:        position{line: 1262, col: 22, offset: 39161},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44973,27 +44973,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1261, col: 5, offset: 39066},
+										pos: position{line: 1267, col: 5, offset: 39280},
 										run: (*parser).callonSectionTitleElement260,
 										expr: &seqExpr{
-											pos: position{line: 1261, col: 5, offset: 39066},
+											pos: position{line: 1267, col: 5, offset: 39280},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1261, col: 5, offset: 39066},
+													pos:        position{line: 1267, col: 5, offset: 39280},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1261, col: 10, offset: 39071},
+													pos:   position{line: 1267, col: 10, offset: 39285},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2897, col: 7, offset: 91577},
+														pos: position{line: 2903, col: 7, offset: 91791},
 														run: (*parser).callonSectionTitleElement264,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2897, col: 7, offset: 91577},
+															pos: position{line: 2903, col: 7, offset: 91791},
 															expr: &charClassMatcher{
-																pos:        position{line: 2897, col: 7, offset: 91577},
+																pos:        position{line: 2903, col: 7, offset: 91791},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45003,7 +45003,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1261, col: 18, offset: 39079},
+													pos:        position{line: 1267, col: 18, offset: 39293},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45012,14 +45012,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2377, col: 11, offset: 76760},
+										pos:  position{line: 2383, col: 11, offset: 76974},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2851, col: 12, offset: 90233},
+										pos: position{line: 2857, col: 12, offset: 90447},
 										run: (*parser).callonSectionTitleElement269,
 										expr: &charClassMatcher{
-											pos:        position{line: 2851, col: 12, offset: 90233},
+											pos:        position{line: 2857, col: 12, offset: 90447},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45035,52 +45035,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2398, col: 1, offset: 77304},
+			pos:  position{line: 2404, col: 1, offset: 77518},
 			expr: &actionExpr{
-				pos: position{line: 2399, col: 5, offset: 77391},
+				pos: position{line: 2405, col: 5, offset: 77605},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2399, col: 5, offset: 77391},
+					pos: position{line: 2405, col: 5, offset: 77605},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2399, col: 5, offset: 77391},
+							pos:   position{line: 2405, col: 5, offset: 77605},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2399, col: 14, offset: 77400},
+								pos: position{line: 2405, col: 14, offset: 77614},
 								expr: &actionExpr{
-									pos: position{line: 2401, col: 9, offset: 77426},
+									pos: position{line: 2407, col: 9, offset: 77640},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2401, col: 9, offset: 77426},
+										pos: position{line: 2407, col: 9, offset: 77640},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2929, col: 11, offset: 92259},
+												pos: position{line: 2935, col: 11, offset: 92473},
 												expr: &anyMatcher{
-													line: 2929, col: 13, offset: 92261,
+													line: 2935, col: 13, offset: 92475,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2402, col: 9, offset: 77441},
+												pos:   position{line: 2408, col: 9, offset: 77655},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2403, col: 13, offset: 77463},
+													pos: position{line: 2409, col: 13, offset: 77677},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2811, col: 5, offset: 89167},
+															pos: position{line: 2817, col: 5, offset: 89381},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2811, col: 5, offset: 89167},
+																pos: position{line: 2817, col: 5, offset: 89381},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2811, col: 5, offset: 89167},
+																		pos:   position{line: 2817, col: 5, offset: 89381},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2811, col: 11, offset: 89173},
+																			pos: position{line: 2817, col: 11, offset: 89387},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2811, col: 11, offset: 89173},
+																				pos: position{line: 2817, col: 11, offset: 89387},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2811, col: 11, offset: 89173},
+																					pos:        position{line: 2817, col: 11, offset: 89387},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45090,36 +45090,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2814, col: 5, offset: 89231},
+																		pos: position{line: 2820, col: 5, offset: 89445},
 																		expr: &seqExpr{
-																			pos: position{line: 2815, col: 9, offset: 89242},
+																			pos: position{line: 2821, col: 9, offset: 89456},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2815, col: 9, offset: 89242},
+																					pos:        position{line: 2821, col: 9, offset: 89456},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2816, col: 9, offset: 89291},
+																					pos: position{line: 2822, col: 9, offset: 89505},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2820, col: 5, offset: 89371},
+																		pos: position{line: 2826, col: 5, offset: 89585},
 																		expr: &seqExpr{
-																			pos: position{line: 2821, col: 9, offset: 89382},
+																			pos: position{line: 2827, col: 9, offset: 89596},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2821, col: 9, offset: 89382},
+																					pos:        position{line: 2827, col: 9, offset: 89596},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2821, col: 13, offset: 89386},
+																					pos:        position{line: 2827, col: 13, offset: 89600},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45132,12 +45132,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2916, col: 11, offset: 91986},
+															pos: position{line: 2922, col: 11, offset: 92200},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2916, col: 11, offset: 91986},
+																pos: position{line: 2922, col: 11, offset: 92200},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2916, col: 11, offset: 91986},
+																	pos:        position{line: 2922, col: 11, offset: 92200},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45146,25 +45146,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2405, col: 15, offset: 77509},
+															pos:  position{line: 2411, col: 15, offset: 77723},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2533, col: 5, offset: 81448},
+															pos: position{line: 2539, col: 5, offset: 81662},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2533, col: 5, offset: 81448},
+																pos: position{line: 2539, col: 5, offset: 81662},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2533, col: 5, offset: 81448},
+																		pos:        position{line: 2539, col: 5, offset: 81662},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2533, col: 10, offset: 81453},
+																		pos: position{line: 2539, col: 10, offset: 81667},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2533, col: 11, offset: 81454},
+																			pos:        position{line: 2539, col: 11, offset: 81668},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45175,29 +45175,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2539, col: 5, offset: 81646},
+															pos: position{line: 2545, col: 5, offset: 81860},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2539, col: 5, offset: 81646},
+																pos: position{line: 2545, col: 5, offset: 81860},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2539, col: 5, offset: 81646},
+																		pos: position{line: 2545, col: 5, offset: 81860},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2542, col: 5, offset: 81717},
+																		pos: position{line: 2548, col: 5, offset: 81931},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2546, col: 5, offset: 81842},
+																		pos:        position{line: 2552, col: 5, offset: 82056},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2546, col: 9, offset: 81846},
+																		pos: position{line: 2552, col: 9, offset: 82060},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2546, col: 10, offset: 81847},
+																			pos:        position{line: 2552, col: 10, offset: 82061},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45208,27 +45208,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2829, col: 5, offset: 89579},
+															pos: position{line: 2835, col: 5, offset: 89793},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2830, col: 9, offset: 89589},
+																pos: position{line: 2836, col: 9, offset: 89803},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2830, col: 10, offset: 89590},
+																		pos:        position{line: 2836, col: 10, offset: 89804},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2832, col: 13, offset: 89687},
+																		pos: position{line: 2838, col: 13, offset: 89901},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2832, col: 13, offset: 89687},
+																				pos: position{line: 2838, col: 13, offset: 89901},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2835, col: 13, offset: 89787},
+																				pos:        position{line: 2841, col: 13, offset: 90001},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45236,20 +45236,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2835, col: 19, offset: 89793},
+																		pos:        position{line: 2841, col: 19, offset: 90007},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2838, col: 13, offset: 89831},
+																		pos: position{line: 2844, col: 13, offset: 90045},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2838, col: 13, offset: 89831},
+																				pos: position{line: 2844, col: 13, offset: 90045},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2841, col: 14, offset: 89924},
+																				pos:        position{line: 2847, col: 14, offset: 90138},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45258,18 +45258,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2843, col: 12, offset: 89968},
+																		pos: position{line: 2849, col: 12, offset: 90182},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2843, col: 12, offset: 89968},
+																				pos:        position{line: 2849, col: 12, offset: 90182},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2843, col: 16, offset: 89972},
+																				pos: position{line: 2849, col: 16, offset: 90186},
 																				expr: &litMatcher{
-																					pos:        position{line: 2843, col: 17, offset: 89973},
+																					pos:        position{line: 2849, col: 17, offset: 90187},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45281,25 +45281,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2921, col: 12, offset: 92096},
+															pos: position{line: 2927, col: 12, offset: 92310},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2921, col: 13, offset: 92097},
+																pos: position{line: 2927, col: 13, offset: 92311},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 13, offset: 92097},
+																		pos:        position{line: 2927, col: 13, offset: 92311},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 20, offset: 92104},
+																		pos:        position{line: 2927, col: 20, offset: 92318},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2921, col: 29, offset: 92113},
+																		pos:        position{line: 2927, col: 29, offset: 92327},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45308,35 +45308,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 639, col: 5, offset: 20305},
+															pos: position{line: 645, col: 5, offset: 20519},
 															run: (*parser).callonNormalGroup60,
 															expr: &seqExpr{
-																pos: position{line: 639, col: 5, offset: 20305},
+																pos: position{line: 645, col: 5, offset: 20519},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 639, col: 5, offset: 20305},
+																		pos: position{line: 645, col: 5, offset: 20519},
 																		run: (*parser).callonNormalGroup62,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 642, col: 5, offset: 20377},
+																		pos:   position{line: 648, col: 5, offset: 20591},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 642, col: 14, offset: 20386},
+																			pos: position{line: 648, col: 14, offset: 20600},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 648, col: 5, offset: 20515},
+																					pos: position{line: 654, col: 5, offset: 20729},
 																					run: (*parser).callonNormalGroup65,
 																					expr: &seqExpr{
-																						pos: position{line: 648, col: 5, offset: 20515},
+																						pos: position{line: 654, col: 5, offset: 20729},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 648, col: 5, offset: 20515},
+																								pos:        position{line: 654, col: 5, offset: 20729},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 648, col: 13, offset: 20523},
+																								pos:   position{line: 654, col: 13, offset: 20737},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -45368,7 +45368,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 648, col: 32, offset: 20542},
+																								pos:        position{line: 654, col: 32, offset: 20756},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45377,19 +45377,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 655, col: 5, offset: 20783},
+																					pos: position{line: 661, col: 5, offset: 20997},
 																					run: (*parser).callonNormalGroup75,
 																					expr: &seqExpr{
-																						pos: position{line: 655, col: 5, offset: 20783},
+																						pos: position{line: 661, col: 5, offset: 20997},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 655, col: 5, offset: 20783},
+																								pos:        position{line: 661, col: 5, offset: 20997},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 655, col: 9, offset: 20787},
+																								pos:   position{line: 661, col: 9, offset: 21001},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -45421,7 +45421,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 655, col: 28, offset: 20806},
+																								pos:        position{line: 661, col: 28, offset: 21020},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45430,19 +45430,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 661, col: 25, offset: 20987},
+																					pos: position{line: 667, col: 25, offset: 21201},
 																					run: (*parser).callonNormalGroup85,
 																					expr: &seqExpr{
-																						pos: position{line: 661, col: 25, offset: 20987},
+																						pos: position{line: 667, col: 25, offset: 21201},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 661, col: 25, offset: 20987},
+																								pos:        position{line: 667, col: 25, offset: 21201},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 661, col: 37, offset: 20999},
+																								pos:   position{line: 667, col: 37, offset: 21213},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -45474,33 +45474,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 661, col: 56, offset: 21018},
+																								pos:   position{line: 667, col: 56, offset: 21232},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 661, col: 62, offset: 21024},
+																									pos: position{line: 667, col: 62, offset: 21238},
 																									expr: &actionExpr{
-																										pos: position{line: 669, col: 17, offset: 21321},
+																										pos: position{line: 675, col: 17, offset: 21535},
 																										run: (*parser).callonNormalGroup96,
 																										expr: &seqExpr{
-																											pos: position{line: 669, col: 17, offset: 21321},
+																											pos: position{line: 675, col: 17, offset: 21535},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 669, col: 17, offset: 21321},
+																													pos:        position{line: 675, col: 17, offset: 21535},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 669, col: 21, offset: 21325},
+																													pos:   position{line: 675, col: 21, offset: 21539},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 669, col: 28, offset: 21332},
+																														pos: position{line: 675, col: 28, offset: 21546},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 669, col: 28, offset: 21332},
+																																pos: position{line: 675, col: 28, offset: 21546},
 																																run: (*parser).callonNormalGroup101,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 669, col: 28, offset: 21332},
+																																	pos:        position{line: 675, col: 28, offset: 21546},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -45508,12 +45508,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 671, col: 9, offset: 21386},
+																																pos: position{line: 677, col: 9, offset: 21600},
 																																run: (*parser).callonNormalGroup103,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 671, col: 9, offset: 21386},
+																																	pos: position{line: 677, col: 9, offset: 21600},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 671, col: 9, offset: 21386},
+																																		pos:        position{line: 677, col: 9, offset: 21600},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -45530,7 +45530,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 661, col: 78, offset: 21040},
+																								pos:        position{line: 667, col: 78, offset: 21254},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45539,19 +45539,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 665, col: 25, offset: 21158},
+																					pos: position{line: 671, col: 25, offset: 21372},
 																					run: (*parser).callonNormalGroup107,
 																					expr: &seqExpr{
-																						pos: position{line: 665, col: 25, offset: 21158},
+																						pos: position{line: 671, col: 25, offset: 21372},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 665, col: 25, offset: 21158},
+																								pos:        position{line: 671, col: 25, offset: 21372},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 38, offset: 21171},
+																								pos:   position{line: 671, col: 38, offset: 21385},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -45583,33 +45583,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 57, offset: 21190},
+																								pos:   position{line: 671, col: 57, offset: 21404},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 665, col: 63, offset: 21196},
+																									pos: position{line: 671, col: 63, offset: 21410},
 																									expr: &actionExpr{
-																										pos: position{line: 669, col: 17, offset: 21321},
+																										pos: position{line: 675, col: 17, offset: 21535},
 																										run: (*parser).callonNormalGroup118,
 																										expr: &seqExpr{
-																											pos: position{line: 669, col: 17, offset: 21321},
+																											pos: position{line: 675, col: 17, offset: 21535},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 669, col: 17, offset: 21321},
+																													pos:        position{line: 675, col: 17, offset: 21535},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 669, col: 21, offset: 21325},
+																													pos:   position{line: 675, col: 21, offset: 21539},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 669, col: 28, offset: 21332},
+																														pos: position{line: 675, col: 28, offset: 21546},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 669, col: 28, offset: 21332},
+																																pos: position{line: 675, col: 28, offset: 21546},
 																																run: (*parser).callonNormalGroup123,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 669, col: 28, offset: 21332},
+																																	pos:        position{line: 675, col: 28, offset: 21546},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -45617,12 +45617,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 671, col: 9, offset: 21386},
+																																pos: position{line: 677, col: 9, offset: 21600},
 																																run: (*parser).callonNormalGroup125,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 671, col: 9, offset: 21386},
+																																	pos: position{line: 677, col: 9, offset: 21600},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 671, col: 9, offset: 21386},
+																																		pos:        position{line: 677, col: 9, offset: 21600},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -45639,7 +45639,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 665, col: 79, offset: 21212},
+																								pos:        position{line: 671, col: 79, offset: 21426},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45654,35 +45654,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2410, col: 15, offset: 77676},
+															pos:  position{line: 2416, col: 15, offset: 77890},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2411, col: 15, offset: 77696},
+															pos:  position{line: 2417, col: 15, offset: 77910},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2412, col: 15, offset: 77785},
+															pos:  position{line: 2418, col: 15, offset: 77999},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2502, col: 5, offset: 80249},
+															pos: position{line: 2508, col: 5, offset: 80463},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2502, col: 5, offset: 80249},
+																pos: position{line: 2508, col: 5, offset: 80463},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2502, col: 5, offset: 80249},
+																		pos: position{line: 2508, col: 5, offset: 80463},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2505, col: 5, offset: 80325},
+																		pos:   position{line: 2511, col: 5, offset: 80539},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2506, col: 9, offset: 80343},
+																			pos: position{line: 2512, col: 9, offset: 80557},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2506, col: 10, offset: 80344},
+																				pos:        position{line: 2512, col: 10, offset: 80558},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -45694,32 +45694,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1209, col: 5, offset: 37616},
+															pos: position{line: 1215, col: 5, offset: 37830},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 1209, col: 5, offset: 37616},
+																pos: position{line: 1215, col: 5, offset: 37830},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1209, col: 5, offset: 37616},
+																		pos: position{line: 1215, col: 5, offset: 37830},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1212, col: 5, offset: 37692},
+																		pos:        position{line: 1218, col: 5, offset: 37906},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1213, col: 5, offset: 37700},
+																		pos: position{line: 1219, col: 5, offset: 37914},
 																		run: (*parser).callonNormalGroup142,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1217, col: 5, offset: 37787},
+																		pos: position{line: 1223, col: 5, offset: 38001},
 																		expr: &actionExpr{
-																			pos: position{line: 2912, col: 10, offset: 91925},
+																			pos: position{line: 2918, col: 10, offset: 92139},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2912, col: 10, offset: 91925},
+																				pos:        position{line: 2918, col: 10, offset: 92139},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45728,30 +45728,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1217, col: 12, offset: 37794},
+																		pos: position{line: 1223, col: 12, offset: 38008},
 																		expr: &choiceExpr{
-																			pos: position{line: 2934, col: 8, offset: 92323},
+																			pos: position{line: 2940, col: 8, offset: 92537},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2921, col: 12, offset: 92096},
+																					pos: position{line: 2927, col: 12, offset: 92310},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2921, col: 13, offset: 92097},
+																						pos: position{line: 2927, col: 13, offset: 92311},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 13, offset: 92097},
+																								pos:        position{line: 2927, col: 13, offset: 92311},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 20, offset: 92104},
+																								pos:        position{line: 2927, col: 20, offset: 92318},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 29, offset: 92113},
+																								pos:        position{line: 2927, col: 29, offset: 92327},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45760,9 +45760,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2931, col: 8, offset: 92273},
+																					pos: position{line: 2937, col: 8, offset: 92487},
 																					expr: &anyMatcher{
-																						line: 2931, col: 9, offset: 92274,
+																						line: 2937, col: 9, offset: 92488,
 																					},
 																				},
 																			},
@@ -45772,31 +45772,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2415, col: 15, offset: 77967},
+															pos:  position{line: 2421, col: 15, offset: 78181},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1201, col: 23, offset: 37170},
+															pos: position{line: 1207, col: 23, offset: 37384},
 															run: (*parser).callonNormalGroup156,
 															expr: &seqExpr{
-																pos: position{line: 1201, col: 23, offset: 37170},
+																pos: position{line: 1207, col: 23, offset: 37384},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1199, col: 32, offset: 37138},
+																		pos:        position{line: 1205, col: 32, offset: 37352},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1201, col: 51, offset: 37198},
+																		pos:   position{line: 1207, col: 51, offset: 37412},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1201, col: 56, offset: 37203},
+																			pos: position{line: 1207, col: 56, offset: 37417},
 																			run: (*parser).callonNormalGroup160,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1201, col: 56, offset: 37203},
+																				pos: position{line: 1207, col: 56, offset: 37417},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1201, col: 56, offset: 37203},
+																					pos:        position{line: 1207, col: 56, offset: 37417},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -45806,7 +45806,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1199, col: 32, offset: 37138},
+																		pos:        position{line: 1205, col: 32, offset: 37352},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -45815,10 +45815,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2851, col: 12, offset: 90233},
+															pos: position{line: 2857, col: 12, offset: 90447},
 															run: (*parser).callonNormalGroup164,
 															expr: &charClassMatcher{
-																pos:        position{line: 2851, col: 12, offset: 90233},
+																pos:        position{line: 2857, col: 12, offset: 90447},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45834,9 +45834,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2931, col: 8, offset: 92273},
+							pos: position{line: 2937, col: 8, offset: 92487},
 							expr: &anyMatcher{
-								line: 2931, col: 9, offset: 92274,
+								line: 2937, col: 9, offset: 92488,
 							},
 						},
 					},
@@ -45845,28 +45845,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2426, col: 1, offset: 78405},
+			pos:  position{line: 2432, col: 1, offset: 78619},
 			expr: &actionExpr{
-				pos: position{line: 2427, col: 5, offset: 78438},
+				pos: position{line: 2433, col: 5, offset: 78652},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2427, col: 5, offset: 78438},
+					pos: position{line: 2433, col: 5, offset: 78652},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2427, col: 5, offset: 78438},
+							pos:   position{line: 2433, col: 5, offset: 78652},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2427, col: 14, offset: 78447},
+								pos: position{line: 2433, col: 14, offset: 78661},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2427, col: 15, offset: 78448},
+									pos:  position{line: 2433, col: 15, offset: 78662},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2931, col: 8, offset: 92273},
+							pos: position{line: 2937, col: 8, offset: 92487},
 							expr: &anyMatcher{
-								line: 2931, col: 9, offset: 92274,
+								line: 2937, col: 9, offset: 92488,
 							},
 						},
 					},
@@ -45875,41 +45875,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2431, col: 1, offset: 78545},
+			pos:  position{line: 2437, col: 1, offset: 78759},
 			expr: &actionExpr{
-				pos: position{line: 2432, col: 5, offset: 78585},
+				pos: position{line: 2438, col: 5, offset: 78799},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2432, col: 5, offset: 78585},
+					pos: position{line: 2438, col: 5, offset: 78799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2929, col: 11, offset: 92259},
+							pos: position{line: 2935, col: 11, offset: 92473},
 							expr: &anyMatcher{
-								line: 2929, col: 13, offset: 92261,
+								line: 2935, col: 13, offset: 92475,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2433, col: 5, offset: 78596},
+							pos:   position{line: 2439, col: 5, offset: 78810},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2434, col: 9, offset: 78614},
+								pos: position{line: 2440, col: 9, offset: 78828},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2811, col: 5, offset: 89167},
+										pos: position{line: 2817, col: 5, offset: 89381},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2811, col: 5, offset: 89167},
+											pos: position{line: 2817, col: 5, offset: 89381},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2811, col: 5, offset: 89167},
+													pos:   position{line: 2817, col: 5, offset: 89381},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2811, col: 11, offset: 89173},
+														pos: position{line: 2817, col: 11, offset: 89387},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2811, col: 11, offset: 89173},
+															pos: position{line: 2817, col: 11, offset: 89387},
 															expr: &charClassMatcher{
-																pos:        position{line: 2811, col: 11, offset: 89173},
+																pos:        position{line: 2817, col: 11, offset: 89387},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45919,36 +45919,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2814, col: 5, offset: 89231},
+													pos: position{line: 2820, col: 5, offset: 89445},
 													expr: &seqExpr{
-														pos: position{line: 2815, col: 9, offset: 89242},
+														pos: position{line: 2821, col: 9, offset: 89456},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2815, col: 9, offset: 89242},
+																pos:        position{line: 2821, col: 9, offset: 89456},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2816, col: 9, offset: 89291},
+																pos: position{line: 2822, col: 9, offset: 89505},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2820, col: 5, offset: 89371},
+													pos: position{line: 2826, col: 5, offset: 89585},
 													expr: &seqExpr{
-														pos: position{line: 2821, col: 9, offset: 89382},
+														pos: position{line: 2827, col: 9, offset: 89596},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2821, col: 9, offset: 89382},
+																pos:        position{line: 2827, col: 9, offset: 89596},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2821, col: 13, offset: 89386},
+																pos:        position{line: 2827, col: 13, offset: 89600},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45961,10 +45961,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2912, col: 10, offset: 91925},
+										pos: position{line: 2918, col: 10, offset: 92139},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2912, col: 10, offset: 91925},
+											pos:        position{line: 2918, col: 10, offset: 92139},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45972,31 +45972,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2436, col: 11, offset: 78652},
+										pos:  position{line: 2442, col: 11, offset: 78866},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2829, col: 5, offset: 89579},
+										pos: position{line: 2835, col: 5, offset: 89793},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2830, col: 9, offset: 89589},
+											pos: position{line: 2836, col: 9, offset: 89803},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2830, col: 10, offset: 89590},
+													pos:        position{line: 2836, col: 10, offset: 89804},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2832, col: 13, offset: 89687},
+													pos: position{line: 2838, col: 13, offset: 89901},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2832, col: 13, offset: 89687},
+															pos: position{line: 2838, col: 13, offset: 89901},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2835, col: 13, offset: 89787},
+															pos:        position{line: 2841, col: 13, offset: 90001},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46004,20 +46004,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2835, col: 19, offset: 89793},
+													pos:        position{line: 2841, col: 19, offset: 90007},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2838, col: 13, offset: 89831},
+													pos: position{line: 2844, col: 13, offset: 90045},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2838, col: 13, offset: 89831},
+															pos: position{line: 2844, col: 13, offset: 90045},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2841, col: 14, offset: 89924},
+															pos:        position{line: 2847, col: 14, offset: 90138},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46026,18 +46026,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2843, col: 12, offset: 89968},
+													pos: position{line: 2849, col: 12, offset: 90182},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2843, col: 12, offset: 89968},
+															pos:        position{line: 2849, col: 12, offset: 90182},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2843, col: 16, offset: 89972},
+															pos: position{line: 2849, col: 16, offset: 90186},
 															expr: &litMatcher{
-																pos:        position{line: 2843, col: 17, offset: 89973},
+																pos:        position{line: 2849, col: 17, offset: 90187},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46049,31 +46049,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2438, col: 11, offset: 78725},
+										pos:  position{line: 2444, col: 11, offset: 78939},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2439, col: 11, offset: 78741},
+										pos:  position{line: 2445, col: 11, offset: 78955},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2502, col: 5, offset: 80249},
+										pos: position{line: 2508, col: 5, offset: 80463},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2502, col: 5, offset: 80249},
+											pos: position{line: 2508, col: 5, offset: 80463},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2502, col: 5, offset: 80249},
+													pos: position{line: 2508, col: 5, offset: 80463},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2505, col: 5, offset: 80325},
+													pos:   position{line: 2511, col: 5, offset: 80539},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2506, col: 9, offset: 80343},
+														pos: position{line: 2512, col: 9, offset: 80557},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2506, col: 10, offset: 80344},
+															pos:        position{line: 2512, col: 10, offset: 80558},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46085,27 +46085,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1201, col: 23, offset: 37170},
+										pos: position{line: 1207, col: 23, offset: 37384},
 										run: (*parser).callonAttributeStructuredValueElement46,
 										expr: &seqExpr{
-											pos: position{line: 1201, col: 23, offset: 37170},
+											pos: position{line: 1207, col: 23, offset: 37384},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1199, col: 32, offset: 37138},
+													pos:        position{line: 1205, col: 32, offset: 37352},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1201, col: 51, offset: 37198},
+													pos:   position{line: 1207, col: 51, offset: 37412},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1201, col: 56, offset: 37203},
+														pos: position{line: 1207, col: 56, offset: 37417},
 														run: (*parser).callonAttributeStructuredValueElement50,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1201, col: 56, offset: 37203},
+															pos: position{line: 1207, col: 56, offset: 37417},
 															expr: &charClassMatcher{
-																pos:        position{line: 1201, col: 56, offset: 37203},
+																pos:        position{line: 1207, col: 56, offset: 37417},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -46115,7 +46115,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1199, col: 32, offset: 37138},
+													pos:        position{line: 1205, col: 32, offset: 37352},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -46124,25 +46124,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2921, col: 12, offset: 92096},
+										pos: position{line: 2927, col: 12, offset: 92310},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2921, col: 13, offset: 92097},
+											pos: position{line: 2927, col: 13, offset: 92311},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2921, col: 13, offset: 92097},
+													pos:        position{line: 2927, col: 13, offset: 92311},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2921, col: 20, offset: 92104},
+													pos:        position{line: 2927, col: 20, offset: 92318},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2921, col: 29, offset: 92113},
+													pos:        position{line: 2927, col: 29, offset: 92327},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46151,10 +46151,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2851, col: 12, offset: 90233},
+										pos: position{line: 2857, col: 12, offset: 90447},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2851, col: 12, offset: 90233},
+											pos:        position{line: 2857, col: 12, offset: 90447},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46170,73 +46170,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2450, col: 1, offset: 79011},
+			pos:  position{line: 2456, col: 1, offset: 79225},
 			expr: &actionExpr{
-				pos: position{line: 2452, col: 5, offset: 79093},
+				pos: position{line: 2458, col: 5, offset: 79307},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2452, col: 5, offset: 79093},
+					pos: position{line: 2458, col: 5, offset: 79307},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2452, col: 5, offset: 79093},
+							pos: position{line: 2458, col: 5, offset: 79307},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2455, col: 5, offset: 79158},
+							pos:   position{line: 2461, col: 5, offset: 79372},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2456, col: 9, offset: 79176},
+								pos: position{line: 2462, col: 9, offset: 79390},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2456, col: 9, offset: 79176},
+										pos:  position{line: 2462, col: 9, offset: 79390},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2457, col: 11, offset: 79197},
+										pos:  position{line: 2463, col: 11, offset: 79411},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2458, col: 11, offset: 79220},
+										pos:  position{line: 2464, col: 11, offset: 79434},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2459, col: 11, offset: 79236},
+										pos:  position{line: 2465, col: 11, offset: 79450},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2460, col: 11, offset: 79265},
+										pos:  position{line: 2466, col: 11, offset: 79479},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2461, col: 11, offset: 79291},
+										pos:  position{line: 2467, col: 11, offset: 79505},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2462, col: 11, offset: 79317},
+										pos:  position{line: 2468, col: 11, offset: 79531},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1256, col: 5, offset: 38930},
+										pos: position{line: 1262, col: 5, offset: 39144},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1256, col: 5, offset: 38930},
+											pos: position{line: 1262, col: 5, offset: 39144},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1256, col: 5, offset: 38930},
+													pos:        position{line: 1262, col: 5, offset: 39144},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1256, col: 14, offset: 38939},
+													pos:   position{line: 1262, col: 14, offset: 39153},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2897, col: 7, offset: 91577},
+														pos: position{line: 2903, col: 7, offset: 91791},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2897, col: 7, offset: 91577},
+															pos: position{line: 2903, col: 7, offset: 91791},
 															expr: &charClassMatcher{
-																pos:        position{line: 2897, col: 7, offset: 91577},
+																pos:        position{line: 2903, col: 7, offset: 91791},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46246,7 +46246,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1256, col: 22, offset: 38947},
+													pos:        position{line: 1262, col: 22, offset: 39161},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46255,27 +46255,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1261, col: 5, offset: 39066},
+										pos: position{line: 1267, col: 5, offset: 39280},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1261, col: 5, offset: 39066},
+											pos: position{line: 1267, col: 5, offset: 39280},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1261, col: 5, offset: 39066},
+													pos:        position{line: 1267, col: 5, offset: 39280},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1261, col: 10, offset: 39071},
+													pos:   position{line: 1267, col: 10, offset: 39285},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2897, col: 7, offset: 91577},
+														pos: position{line: 2903, col: 7, offset: 91791},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2897, col: 7, offset: 91577},
+															pos: position{line: 2903, col: 7, offset: 91791},
 															expr: &charClassMatcher{
-																pos:        position{line: 2897, col: 7, offset: 91577},
+																pos:        position{line: 2903, col: 7, offset: 91791},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46285,7 +46285,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1261, col: 18, offset: 39079},
+													pos:        position{line: 1267, col: 18, offset: 39293},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46294,40 +46294,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1300, col: 23, offset: 40555},
+										pos: position{line: 1306, col: 23, offset: 40769},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1300, col: 23, offset: 40555},
+											pos: position{line: 1306, col: 23, offset: 40769},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1300, col: 23, offset: 40555},
+													pos:        position{line: 1306, col: 23, offset: 40769},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1300, col: 29, offset: 40561},
+													pos:   position{line: 1306, col: 29, offset: 40775},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1307, col: 30, offset: 40892},
+														pos: position{line: 1313, col: 30, offset: 41106},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1307, col: 30, offset: 40892},
+															pos: position{line: 1313, col: 30, offset: 41106},
 															expr: &choiceExpr{
-																pos: position{line: 1307, col: 31, offset: 40893},
+																pos: position{line: 1313, col: 31, offset: 41107},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2802, col: 13, offset: 89020},
+																		pos:        position{line: 2808, col: 13, offset: 89234},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2912, col: 10, offset: 91925},
+																		pos: position{line: 2918, col: 10, offset: 92139},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2912, col: 10, offset: 91925},
+																			pos:        position{line: 2918, col: 10, offset: 92139},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46340,23 +46340,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1301, col: 5, offset: 40600},
+													pos:   position{line: 1307, col: 5, offset: 40814},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1301, col: 11, offset: 40606},
+														pos: position{line: 1307, col: 11, offset: 40820},
 														expr: &actionExpr{
-															pos: position{line: 1301, col: 12, offset: 40607},
+															pos: position{line: 1307, col: 12, offset: 40821},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1301, col: 12, offset: 40607},
+																pos: position{line: 1307, col: 12, offset: 40821},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1301, col: 12, offset: 40607},
+																		pos: position{line: 1307, col: 12, offset: 40821},
 																		expr: &actionExpr{
-																			pos: position{line: 2912, col: 10, offset: 91925},
+																			pos: position{line: 2918, col: 10, offset: 92139},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2912, col: 10, offset: 91925},
+																				pos:        position{line: 2918, col: 10, offset: 92139},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46365,18 +46365,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1301, col: 19, offset: 40614},
+																		pos:        position{line: 1307, col: 19, offset: 40828},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1301, col: 23, offset: 40618},
+																		pos: position{line: 1307, col: 23, offset: 40832},
 																		expr: &actionExpr{
-																			pos: position{line: 2912, col: 10, offset: 91925},
+																			pos: position{line: 2918, col: 10, offset: 92139},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2912, col: 10, offset: 91925},
+																				pos:        position{line: 2918, col: 10, offset: 92139},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46385,28 +46385,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1301, col: 30, offset: 40625},
+																		pos:   position{line: 1307, col: 30, offset: 40839},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1307, col: 30, offset: 40892},
+																			pos: position{line: 1313, col: 30, offset: 41106},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1307, col: 30, offset: 40892},
+																				pos: position{line: 1313, col: 30, offset: 41106},
 																				expr: &choiceExpr{
-																					pos: position{line: 1307, col: 31, offset: 40893},
+																					pos: position{line: 1313, col: 31, offset: 41107},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2802, col: 13, offset: 89020},
+																							pos:        position{line: 2808, col: 13, offset: 89234},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2912, col: 10, offset: 91925},
+																							pos: position{line: 2918, col: 10, offset: 92139},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2912, col: 10, offset: 91925},
+																								pos:        position{line: 2918, col: 10, offset: 92139},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46424,23 +46424,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1302, col: 5, offset: 40692},
+													pos:   position{line: 1308, col: 5, offset: 40906},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1302, col: 11, offset: 40698},
+														pos: position{line: 1308, col: 11, offset: 40912},
 														expr: &actionExpr{
-															pos: position{line: 1302, col: 12, offset: 40699},
+															pos: position{line: 1308, col: 12, offset: 40913},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1302, col: 12, offset: 40699},
+																pos: position{line: 1308, col: 12, offset: 40913},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1302, col: 12, offset: 40699},
+																		pos: position{line: 1308, col: 12, offset: 40913},
 																		expr: &actionExpr{
-																			pos: position{line: 2912, col: 10, offset: 91925},
+																			pos: position{line: 2918, col: 10, offset: 92139},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2912, col: 10, offset: 91925},
+																				pos:        position{line: 2918, col: 10, offset: 92139},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46449,18 +46449,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1302, col: 19, offset: 40706},
+																		pos:        position{line: 1308, col: 19, offset: 40920},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1302, col: 23, offset: 40710},
+																		pos: position{line: 1308, col: 23, offset: 40924},
 																		expr: &actionExpr{
-																			pos: position{line: 2912, col: 10, offset: 91925},
+																			pos: position{line: 2918, col: 10, offset: 92139},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2912, col: 10, offset: 91925},
+																				pos:        position{line: 2918, col: 10, offset: 92139},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46469,28 +46469,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1302, col: 30, offset: 40717},
+																		pos:   position{line: 1308, col: 30, offset: 40931},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1307, col: 30, offset: 40892},
+																			pos: position{line: 1313, col: 30, offset: 41106},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1307, col: 30, offset: 40892},
+																				pos: position{line: 1313, col: 30, offset: 41106},
 																				expr: &choiceExpr{
-																					pos: position{line: 1307, col: 31, offset: 40893},
+																					pos: position{line: 1313, col: 31, offset: 41107},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2802, col: 13, offset: 89020},
+																							pos:        position{line: 2808, col: 13, offset: 89234},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2912, col: 10, offset: 91925},
+																							pos: position{line: 2918, col: 10, offset: 92139},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2912, col: 10, offset: 91925},
+																								pos:        position{line: 2918, col: 10, offset: 92139},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46508,7 +46508,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1303, col: 5, offset: 40784},
+													pos:        position{line: 1309, col: 5, offset: 40998},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -46517,15 +46517,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2465, col: 11, offset: 79396},
+										pos:  position{line: 2471, col: 11, offset: 79610},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2466, col: 11, offset: 79416},
+										pos:  position{line: 2472, col: 11, offset: 79630},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2467, col: 11, offset: 79439},
+										pos:  position{line: 2473, col: 11, offset: 79653},
 										name: "InlineMenu",
 									},
 								},
@@ -46537,80 +46537,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2471, col: 1, offset: 79496},
+			pos:  position{line: 2477, col: 1, offset: 79710},
 			expr: &actionExpr{
-				pos: position{line: 2473, col: 5, offset: 79584},
+				pos: position{line: 2479, col: 5, offset: 79798},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2473, col: 5, offset: 79584},
+					pos: position{line: 2479, col: 5, offset: 79798},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2473, col: 5, offset: 79584},
+							pos: position{line: 2479, col: 5, offset: 79798},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2476, col: 5, offset: 79661},
+							pos:   position{line: 2482, col: 5, offset: 79875},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2477, col: 9, offset: 79679},
+								pos: position{line: 2483, col: 9, offset: 79893},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1387, col: 26, offset: 44278},
+										pos: position{line: 1393, col: 26, offset: 44492},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1387, col: 26, offset: 44278},
+											pos: position{line: 1393, col: 26, offset: 44492},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1385, col: 32, offset: 44246},
+													pos:        position{line: 1391, col: 32, offset: 44460},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1387, col: 54, offset: 44306},
+													pos:   position{line: 1393, col: 54, offset: 44520},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1391, col: 33, offset: 44519},
+														pos: position{line: 1397, col: 33, offset: 44733},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1391, col: 34, offset: 44520},
+																pos: position{line: 1397, col: 34, offset: 44734},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1391, col: 34, offset: 44520},
+																	pos: position{line: 1397, col: 34, offset: 44734},
 																	expr: &seqExpr{
-																		pos: position{line: 1391, col: 35, offset: 44521},
+																		pos: position{line: 1397, col: 35, offset: 44735},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1391, col: 35, offset: 44521},
+																				pos: position{line: 1397, col: 35, offset: 44735},
 																				expr: &litMatcher{
-																					pos:        position{line: 1385, col: 32, offset: 44246},
+																					pos:        position{line: 1391, col: 32, offset: 44460},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1391, col: 64, offset: 44550,
+																				line: 1397, col: 64, offset: 44764,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1393, col: 11, offset: 44723},
+																pos: position{line: 1399, col: 11, offset: 44937},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1393, col: 11, offset: 44723},
+																	pos: position{line: 1399, col: 11, offset: 44937},
 																	expr: &seqExpr{
-																		pos: position{line: 1393, col: 12, offset: 44724},
+																		pos: position{line: 1399, col: 12, offset: 44938},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1393, col: 12, offset: 44724},
+																				pos: position{line: 1399, col: 12, offset: 44938},
 																				expr: &actionExpr{
-																					pos: position{line: 2912, col: 10, offset: 91925},
+																					pos: position{line: 2918, col: 10, offset: 92139},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2912, col: 10, offset: 91925},
+																						pos:        position{line: 2918, col: 10, offset: 92139},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46619,27 +46619,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1393, col: 19, offset: 44731},
+																				pos: position{line: 1399, col: 19, offset: 44945},
 																				expr: &actionExpr{
-																					pos: position{line: 2921, col: 12, offset: 92096},
+																					pos: position{line: 2927, col: 12, offset: 92310},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2921, col: 13, offset: 92097},
+																						pos: position{line: 2927, col: 13, offset: 92311},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 13, offset: 92097},
+																								pos:        position{line: 2927, col: 13, offset: 92311},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 20, offset: 92104},
+																								pos:        position{line: 2927, col: 20, offset: 92318},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2921, col: 29, offset: 92113},
+																								pos:        position{line: 2927, col: 29, offset: 92327},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46649,16 +46649,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1393, col: 28, offset: 44740},
+																				pos: position{line: 1399, col: 28, offset: 44954},
 																				expr: &litMatcher{
-																					pos:        position{line: 1385, col: 32, offset: 44246},
+																					pos:        position{line: 1391, col: 32, offset: 44460},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1393, col: 57, offset: 44769,
+																				line: 1399, col: 57, offset: 44983,
 																			},
 																		},
 																	},
@@ -46668,15 +46668,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1385, col: 32, offset: 44246},
+													pos:        position{line: 1391, col: 32, offset: 44460},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1387, col: 121, offset: 44373},
+													pos: position{line: 1393, col: 121, offset: 44587},
 													expr: &charClassMatcher{
-														pos:        position{line: 2802, col: 13, offset: 89020},
+														pos:        position{line: 2808, col: 13, offset: 89234},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46687,45 +46687,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1375, col: 26, offset: 43561},
+										pos: position{line: 1381, col: 26, offset: 43775},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1375, col: 26, offset: 43561},
+											pos: position{line: 1381, col: 26, offset: 43775},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1373, col: 32, offset: 43531},
+													pos:        position{line: 1379, col: 32, offset: 43745},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1375, col: 54, offset: 43589},
+													pos:   position{line: 1381, col: 54, offset: 43803},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1379, col: 33, offset: 43802},
+														pos: position{line: 1385, col: 33, offset: 44016},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1379, col: 34, offset: 43803},
+																pos: position{line: 1385, col: 34, offset: 44017},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1379, col: 34, offset: 43803},
+																	pos: position{line: 1385, col: 34, offset: 44017},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1379, col: 35, offset: 43804},
+																			pos: position{line: 1385, col: 35, offset: 44018},
 																			expr: &litMatcher{
-																				pos:        position{line: 1373, col: 32, offset: 43531},
+																				pos:        position{line: 1379, col: 32, offset: 43745},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1379, col: 64, offset: 43833},
+																			pos: position{line: 1385, col: 64, offset: 44047},
 																			expr: &actionExpr{
-																				pos: position{line: 2912, col: 10, offset: 91925},
+																				pos: position{line: 2918, col: 10, offset: 92139},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2912, col: 10, offset: 91925},
+																					pos:        position{line: 2918, col: 10, offset: 92139},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46734,27 +46734,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1379, col: 71, offset: 43840},
+																			pos: position{line: 1385, col: 71, offset: 44054},
 																			expr: &actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46764,25 +46764,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1379, col: 80, offset: 43849,
+																			line: 1385, col: 80, offset: 44063,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1379, col: 83, offset: 43852},
+																			pos: position{line: 1385, col: 83, offset: 44066},
 																			expr: &seqExpr{
-																				pos: position{line: 1379, col: 84, offset: 43853},
+																				pos: position{line: 1385, col: 84, offset: 44067},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1379, col: 84, offset: 43853},
+																						pos: position{line: 1385, col: 84, offset: 44067},
 																						expr: &seqExpr{
-																							pos: position{line: 1379, col: 86, offset: 43855},
+																							pos: position{line: 1385, col: 86, offset: 44069},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2916, col: 11, offset: 91986},
+																									pos: position{line: 2922, col: 11, offset: 92200},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2916, col: 11, offset: 91986},
+																										pos: position{line: 2922, col: 11, offset: 92200},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2916, col: 11, offset: 91986},
+																											pos:        position{line: 2922, col: 11, offset: 92200},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46791,7 +46791,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1373, col: 32, offset: 43531},
+																									pos:        position{line: 1379, col: 32, offset: 43745},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -46800,36 +46800,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1379, col: 122, offset: 43891},
+																						pos: position{line: 1385, col: 122, offset: 44105},
 																						expr: &litMatcher{
-																							pos:        position{line: 1373, col: 32, offset: 43531},
+																							pos:        position{line: 1379, col: 32, offset: 43745},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1379, col: 151, offset: 43920},
+																						pos: position{line: 1385, col: 151, offset: 44134},
 																						expr: &actionExpr{
-																							pos: position{line: 2921, col: 12, offset: 92096},
+																							pos: position{line: 2927, col: 12, offset: 92310},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2921, col: 13, offset: 92097},
+																								pos: position{line: 2927, col: 13, offset: 92311},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 13, offset: 92097},
+																										pos:        position{line: 2927, col: 13, offset: 92311},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 20, offset: 92104},
+																										pos:        position{line: 2927, col: 20, offset: 92318},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2921, col: 29, offset: 92113},
+																										pos:        position{line: 2927, col: 29, offset: 92327},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46839,7 +46839,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1379, col: 160, offset: 43929,
+																						line: 1385, col: 160, offset: 44143,
 																					},
 																				},
 																			},
@@ -46848,18 +46848,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1381, col: 11, offset: 44079},
+																pos: position{line: 1387, col: 11, offset: 44293},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1381, col: 12, offset: 44080},
+																	pos: position{line: 1387, col: 12, offset: 44294},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1381, col: 12, offset: 44080},
+																			pos: position{line: 1387, col: 12, offset: 44294},
 																			expr: &actionExpr{
-																				pos: position{line: 2912, col: 10, offset: 91925},
+																				pos: position{line: 2918, col: 10, offset: 92139},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2912, col: 10, offset: 91925},
+																					pos:        position{line: 2918, col: 10, offset: 92139},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46868,27 +46868,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1381, col: 19, offset: 44087},
+																			pos: position{line: 1387, col: 19, offset: 44301},
 																			expr: &actionExpr{
-																				pos: position{line: 2921, col: 12, offset: 92096},
+																				pos: position{line: 2927, col: 12, offset: 92310},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2921, col: 13, offset: 92097},
+																					pos: position{line: 2927, col: 13, offset: 92311},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 13, offset: 92097},
+																							pos:        position{line: 2927, col: 13, offset: 92311},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 20, offset: 92104},
+																							pos:        position{line: 2927, col: 20, offset: 92318},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2921, col: 29, offset: 92113},
+																							pos:        position{line: 2927, col: 29, offset: 92327},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46898,16 +46898,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1381, col: 28, offset: 44096},
+																			pos: position{line: 1387, col: 28, offset: 44310},
 																			expr: &litMatcher{
-																				pos:        position{line: 1373, col: 32, offset: 43531},
+																				pos:        position{line: 1379, col: 32, offset: 43745},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1381, col: 57, offset: 44125,
+																			line: 1387, col: 57, offset: 44339,
 																		},
 																	},
 																},
@@ -46916,15 +46916,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1373, col: 32, offset: 43531},
+													pos:        position{line: 1379, col: 32, offset: 43745},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1375, col: 121, offset: 43656},
+													pos: position{line: 1381, col: 121, offset: 43870},
 													expr: &charClassMatcher{
-														pos:        position{line: 2802, col: 13, offset: 89020},
+														pos:        position{line: 2808, col: 13, offset: 89234},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46935,7 +46935,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2477, col: 57, offset: 79727},
+										pos:  position{line: 2483, col: 57, offset: 79941},
 										name: "PassthroughMacro",
 									},
 								},
@@ -46947,16 +46947,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2482, col: 1, offset: 79787},
+			pos:  position{line: 2488, col: 1, offset: 80001},
 			expr: &seqExpr{
-				pos: position{line: 2484, col: 5, offset: 79863},
+				pos: position{line: 2490, col: 5, offset: 80077},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2484, col: 5, offset: 79863},
+						pos: position{line: 2490, col: 5, offset: 80077},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2487, col: 5, offset: 79928},
+						pos:  position{line: 2493, col: 5, offset: 80142},
 						name: "QuotedText",
 					},
 				},
@@ -46964,22 +46964,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2489, col: 1, offset: 79941},
+			pos:  position{line: 2495, col: 1, offset: 80155},
 			expr: &actionExpr{
-				pos: position{line: 2491, col: 5, offset: 80023},
+				pos: position{line: 2497, col: 5, offset: 80237},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2491, col: 5, offset: 80023},
+					pos: position{line: 2497, col: 5, offset: 80237},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2491, col: 5, offset: 80023},
+							pos: position{line: 2497, col: 5, offset: 80237},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2494, col: 5, offset: 80094},
+							pos:   position{line: 2500, col: 5, offset: 80308},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2495, col: 9, offset: 80112},
+								pos:  position{line: 2501, col: 9, offset: 80326},
 								name: "Symbol",
 							},
 						},
@@ -46989,103 +46989,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2550, col: 1, offset: 81899},
+			pos:  position{line: 2556, col: 1, offset: 82113},
 			expr: &choiceExpr{
-				pos: position{line: 2552, col: 5, offset: 81929},
+				pos: position{line: 2558, col: 5, offset: 82143},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2552, col: 5, offset: 81929},
+						pos: position{line: 2558, col: 5, offset: 82143},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2552, col: 5, offset: 81929},
+							pos: position{line: 2558, col: 5, offset: 82143},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2552, col: 5, offset: 81929},
+									pos:        position{line: 2558, col: 5, offset: 82143},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2552, col: 10, offset: 81934},
+									pos: position{line: 2558, col: 10, offset: 82148},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2552, col: 10, offset: 81934},
+											pos:  position{line: 2558, col: 10, offset: 82148},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2581, col: 14, offset: 83038},
+											pos: position{line: 2587, col: 14, offset: 83252},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2581, col: 14, offset: 83038},
+												pos:        position{line: 2587, col: 14, offset: 83252},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2585, col: 14, offset: 83104},
+											pos: position{line: 2591, col: 14, offset: 83318},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2585, col: 14, offset: 83104},
+												pos:        position{line: 2591, col: 14, offset: 83318},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2589, col: 15, offset: 83173},
+											pos: position{line: 2595, col: 15, offset: 83387},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2589, col: 15, offset: 83173},
+												pos:        position{line: 2595, col: 15, offset: 83387},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2593, col: 13, offset: 83238},
+											pos: position{line: 2599, col: 13, offset: 83452},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2593, col: 13, offset: 83238},
+												pos:        position{line: 2599, col: 13, offset: 83452},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2621, col: 21, offset: 83808},
+											pos: position{line: 2627, col: 21, offset: 84022},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2621, col: 21, offset: 83808},
+												pos:        position{line: 2627, col: 21, offset: 84022},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2600, col: 5, offset: 83394},
+											pos: position{line: 2606, col: 5, offset: 83608},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2600, col: 5, offset: 83394},
+												pos: position{line: 2606, col: 5, offset: 83608},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2600, col: 5, offset: 83394},
+														pos:        position{line: 2606, col: 5, offset: 83608},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2601, col: 5, offset: 83404},
+														pos: position{line: 2607, col: 5, offset: 83618},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2605, col: 6, offset: 83491},
+														pos: position{line: 2611, col: 6, offset: 83705},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2912, col: 10, offset: 91925},
+																pos: position{line: 2918, col: 10, offset: 92139},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2912, col: 10, offset: 91925},
+																	pos:        position{line: 2918, col: 10, offset: 92139},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47093,30 +47093,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2605, col: 14, offset: 83499},
+																pos: position{line: 2611, col: 14, offset: 83713},
 																expr: &choiceExpr{
-																	pos: position{line: 2934, col: 8, offset: 92323},
+																	pos: position{line: 2940, col: 8, offset: 92537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2921, col: 12, offset: 92096},
+																			pos: position{line: 2927, col: 12, offset: 92310},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2921, col: 13, offset: 92097},
+																				pos: position{line: 2927, col: 13, offset: 92311},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 13, offset: 92097},
+																						pos:        position{line: 2927, col: 13, offset: 92311},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 20, offset: 92104},
+																						pos:        position{line: 2927, col: 20, offset: 92318},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2921, col: 29, offset: 92113},
+																						pos:        position{line: 2927, col: 29, offset: 92327},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47125,9 +47125,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2931, col: 8, offset: 92273},
+																			pos: position{line: 2937, col: 8, offset: 92487},
 																			expr: &anyMatcher{
-																				line: 2931, col: 9, offset: 92274,
+																				line: 2937, col: 9, offset: 92488,
 																			},
 																		},
 																	},
@@ -47139,53 +47139,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2610, col: 5, offset: 83619},
+											pos: position{line: 2616, col: 5, offset: 83833},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2610, col: 5, offset: 83619},
+												pos: position{line: 2616, col: 5, offset: 83833},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2610, col: 5, offset: 83619},
+														pos:        position{line: 2616, col: 5, offset: 83833},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2611, col: 5, offset: 83629},
+														pos: position{line: 2617, col: 5, offset: 83843},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2615, col: 5, offset: 83718},
+														pos: position{line: 2621, col: 5, offset: 83932},
 														expr: &choiceExpr{
-															pos: position{line: 2615, col: 7, offset: 83720},
+															pos: position{line: 2621, col: 7, offset: 83934},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2802, col: 13, offset: 89020},
+																	pos:        position{line: 2808, col: 13, offset: 89234},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2921, col: 12, offset: 92096},
+																	pos: position{line: 2927, col: 12, offset: 92310},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2921, col: 13, offset: 92097},
+																		pos: position{line: 2927, col: 13, offset: 92311},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2921, col: 13, offset: 92097},
+																				pos:        position{line: 2927, col: 13, offset: 92311},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2921, col: 20, offset: 92104},
+																				pos:        position{line: 2927, col: 20, offset: 92318},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2921, col: 29, offset: 92113},
+																				pos:        position{line: 2927, col: 29, offset: 92327},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47194,9 +47194,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2931, col: 8, offset: 92273},
+																	pos: position{line: 2937, col: 8, offset: 92487},
 																	expr: &anyMatcher{
-																		line: 2931, col: 9, offset: 92274,
+																		line: 2937, col: 9, offset: 92488,
 																	},
 																},
 															},
@@ -47206,30 +47206,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2625, col: 20, offset: 83878},
+											pos: position{line: 2631, col: 20, offset: 84092},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2625, col: 20, offset: 83878},
+												pos:        position{line: 2631, col: 20, offset: 84092},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2629, col: 21, offset: 83949},
+											pos: position{line: 2635, col: 21, offset: 84163},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2629, col: 21, offset: 83949},
+												pos:        position{line: 2635, col: 21, offset: 84163},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2633, col: 20, offset: 84019},
+											pos: position{line: 2639, col: 20, offset: 84233},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2633, col: 20, offset: 84019},
+												pos:        position{line: 2639, col: 20, offset: 84233},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -47241,73 +47241,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2556, col: 7, offset: 82189},
+						pos:  position{line: 2562, col: 7, offset: 82403},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2581, col: 14, offset: 83038},
+						pos: position{line: 2587, col: 14, offset: 83252},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2581, col: 14, offset: 83038},
+							pos:        position{line: 2587, col: 14, offset: 83252},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2585, col: 14, offset: 83104},
+						pos: position{line: 2591, col: 14, offset: 83318},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2585, col: 14, offset: 83104},
+							pos:        position{line: 2591, col: 14, offset: 83318},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2589, col: 15, offset: 83173},
+						pos: position{line: 2595, col: 15, offset: 83387},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2589, col: 15, offset: 83173},
+							pos:        position{line: 2595, col: 15, offset: 83387},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2593, col: 13, offset: 83238},
+						pos: position{line: 2599, col: 13, offset: 83452},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2593, col: 13, offset: 83238},
+							pos:        position{line: 2599, col: 13, offset: 83452},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2600, col: 5, offset: 83394},
+						pos: position{line: 2606, col: 5, offset: 83608},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2600, col: 5, offset: 83394},
+							pos: position{line: 2606, col: 5, offset: 83608},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2600, col: 5, offset: 83394},
+									pos:        position{line: 2606, col: 5, offset: 83608},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2601, col: 5, offset: 83404},
+									pos: position{line: 2607, col: 5, offset: 83618},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2605, col: 6, offset: 83491},
+									pos: position{line: 2611, col: 6, offset: 83705},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2912, col: 10, offset: 91925},
+											pos: position{line: 2918, col: 10, offset: 92139},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2912, col: 10, offset: 91925},
+												pos:        position{line: 2918, col: 10, offset: 92139},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47315,30 +47315,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2605, col: 14, offset: 83499},
+											pos: position{line: 2611, col: 14, offset: 83713},
 											expr: &choiceExpr{
-												pos: position{line: 2934, col: 8, offset: 92323},
+												pos: position{line: 2940, col: 8, offset: 92537},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2921, col: 12, offset: 92096},
+														pos: position{line: 2927, col: 12, offset: 92310},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2921, col: 13, offset: 92097},
+															pos: position{line: 2927, col: 13, offset: 92311},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2921, col: 13, offset: 92097},
+																	pos:        position{line: 2927, col: 13, offset: 92311},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2921, col: 20, offset: 92104},
+																	pos:        position{line: 2927, col: 20, offset: 92318},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2921, col: 29, offset: 92113},
+																	pos:        position{line: 2927, col: 29, offset: 92327},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47347,9 +47347,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2931, col: 8, offset: 92273},
+														pos: position{line: 2937, col: 8, offset: 92487},
 														expr: &anyMatcher{
-															line: 2931, col: 9, offset: 92274,
+															line: 2937, col: 9, offset: 92488,
 														},
 													},
 												},
@@ -47361,53 +47361,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2610, col: 5, offset: 83619},
+						pos: position{line: 2616, col: 5, offset: 83833},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2610, col: 5, offset: 83619},
+							pos: position{line: 2616, col: 5, offset: 83833},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2610, col: 5, offset: 83619},
+									pos:        position{line: 2616, col: 5, offset: 83833},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2611, col: 5, offset: 83629},
+									pos: position{line: 2617, col: 5, offset: 83843},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2615, col: 5, offset: 83718},
+									pos: position{line: 2621, col: 5, offset: 83932},
 									expr: &choiceExpr{
-										pos: position{line: 2615, col: 7, offset: 83720},
+										pos: position{line: 2621, col: 7, offset: 83934},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2802, col: 13, offset: 89020},
+												pos:        position{line: 2808, col: 13, offset: 89234},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2921, col: 12, offset: 92096},
+												pos: position{line: 2927, col: 12, offset: 92310},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2921, col: 13, offset: 92097},
+													pos: position{line: 2927, col: 13, offset: 92311},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2921, col: 13, offset: 92097},
+															pos:        position{line: 2927, col: 13, offset: 92311},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2921, col: 20, offset: 92104},
+															pos:        position{line: 2927, col: 20, offset: 92318},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2921, col: 29, offset: 92113},
+															pos:        position{line: 2927, col: 29, offset: 92327},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47416,9 +47416,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2931, col: 8, offset: 92273},
+												pos: position{line: 2937, col: 8, offset: 92487},
 												expr: &anyMatcher{
-													line: 2931, col: 9, offset: 92274,
+													line: 2937, col: 9, offset: 92488,
 												},
 											},
 										},
@@ -47428,40 +47428,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2621, col: 21, offset: 83808},
+						pos: position{line: 2627, col: 21, offset: 84022},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2621, col: 21, offset: 83808},
+							pos:        position{line: 2627, col: 21, offset: 84022},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2625, col: 20, offset: 83878},
+						pos: position{line: 2631, col: 20, offset: 84092},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2625, col: 20, offset: 83878},
+							pos:        position{line: 2631, col: 20, offset: 84092},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2629, col: 21, offset: 83949},
+						pos: position{line: 2635, col: 21, offset: 84163},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2629, col: 21, offset: 83949},
+							pos:        position{line: 2635, col: 21, offset: 84163},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2633, col: 20, offset: 84019},
+						pos: position{line: 2639, col: 20, offset: 84233},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2633, col: 20, offset: 84019},
+							pos:        position{line: 2639, col: 20, offset: 84233},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -47472,43 +47472,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2567, col: 1, offset: 82379},
+			pos:  position{line: 2573, col: 1, offset: 82593},
 			expr: &choiceExpr{
-				pos: position{line: 2568, col: 5, offset: 82401},
+				pos: position{line: 2574, col: 5, offset: 82615},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2568, col: 5, offset: 82401},
+						pos: position{line: 2574, col: 5, offset: 82615},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2568, col: 5, offset: 82401},
+							pos: position{line: 2574, col: 5, offset: 82615},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2568, col: 5, offset: 82401},
+									pos:        position{line: 2574, col: 5, offset: 82615},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2568, col: 11, offset: 82407},
+									pos: position{line: 2574, col: 11, offset: 82621},
 									expr: &seqExpr{
-										pos: position{line: 2109, col: 5, offset: 67997},
+										pos: position{line: 2115, col: 5, offset: 68211},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2109, col: 5, offset: 67997},
+												pos:        position{line: 2115, col: 5, offset: 68211},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2110, col: 5, offset: 68006},
+												pos: position{line: 2116, col: 5, offset: 68220},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2114, col: 5, offset: 68129},
+												pos: position{line: 2120, col: 5, offset: 68343},
 												expr: &notExpr{
-													pos: position{line: 2114, col: 7, offset: 68131},
+													pos: position{line: 2120, col: 7, offset: 68345},
 													expr: &litMatcher{
-														pos:        position{line: 2114, col: 8, offset: 68132},
+														pos:        position{line: 2120, col: 8, offset: 68346},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47522,21 +47522,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2571, col: 7, offset: 82560},
+						pos: position{line: 2577, col: 7, offset: 82774},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2571, col: 7, offset: 82560},
+							pos: position{line: 2577, col: 7, offset: 82774},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2571, col: 7, offset: 82560},
+									pos:        position{line: 2577, col: 7, offset: 82774},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2571, col: 13, offset: 82566},
+									pos: position{line: 2577, col: 13, offset: 82780},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2571, col: 14, offset: 82567},
+										pos:  position{line: 2577, col: 14, offset: 82781},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47544,38 +47544,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2574, col: 7, offset: 82717},
+						pos: position{line: 2580, col: 7, offset: 82931},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2574, col: 7, offset: 82717},
+							pos: position{line: 2580, col: 7, offset: 82931},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2574, col: 7, offset: 82717},
+									pos:        position{line: 2580, col: 7, offset: 82931},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2574, col: 12, offset: 82722},
+									pos: position{line: 2580, col: 12, offset: 82936},
 									expr: &seqExpr{
-										pos: position{line: 2109, col: 5, offset: 67997},
+										pos: position{line: 2115, col: 5, offset: 68211},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2109, col: 5, offset: 67997},
+												pos:        position{line: 2115, col: 5, offset: 68211},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2110, col: 5, offset: 68006},
+												pos: position{line: 2116, col: 5, offset: 68220},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2114, col: 5, offset: 68129},
+												pos: position{line: 2120, col: 5, offset: 68343},
 												expr: &notExpr{
-													pos: position{line: 2114, col: 7, offset: 68131},
+													pos: position{line: 2120, col: 7, offset: 68345},
 													expr: &litMatcher{
-														pos:        position{line: 2114, col: 8, offset: 68132},
+														pos:        position{line: 2120, col: 8, offset: 68346},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47589,21 +47589,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2577, col: 7, offset: 82875},
+						pos: position{line: 2583, col: 7, offset: 83089},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2577, col: 7, offset: 82875},
+							pos: position{line: 2583, col: 7, offset: 83089},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2577, col: 7, offset: 82875},
+									pos:        position{line: 2583, col: 7, offset: 83089},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2577, col: 12, offset: 82880},
+									pos: position{line: 2583, col: 12, offset: 83094},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2577, col: 13, offset: 82881},
+										pos:  position{line: 2583, col: 13, offset: 83095},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47615,63 +47615,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2717, col: 1, offset: 86100},
+			pos:  position{line: 2723, col: 1, offset: 86314},
 			expr: &actionExpr{
-				pos: position{line: 2717, col: 26, offset: 86125},
+				pos: position{line: 2723, col: 26, offset: 86339},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2717, col: 26, offset: 86125},
+					pos: position{line: 2723, col: 26, offset: 86339},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2717, col: 26, offset: 86125},
+							pos:   position{line: 2723, col: 26, offset: 86339},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2717, col: 31, offset: 86130},
+								pos: position{line: 2723, col: 31, offset: 86344},
 								expr: &actionExpr{
-									pos: position{line: 2722, col: 5, offset: 86193},
+									pos: position{line: 2728, col: 5, offset: 86407},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2722, col: 5, offset: 86193},
+										pos: position{line: 2728, col: 5, offset: 86407},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2929, col: 11, offset: 92259},
+												pos: position{line: 2935, col: 11, offset: 92473},
 												expr: &anyMatcher{
-													line: 2929, col: 13, offset: 92261,
+													line: 2935, col: 13, offset: 92475,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2725, col: 5, offset: 86319},
+												pos:   position{line: 2731, col: 5, offset: 86533},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2725, col: 16, offset: 86330},
+													pos: position{line: 2731, col: 16, offset: 86544},
 													expr: &actionExpr{
-														pos: position{line: 2725, col: 17, offset: 86331},
+														pos: position{line: 2731, col: 17, offset: 86545},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2725, col: 17, offset: 86331},
+															pos: position{line: 2731, col: 17, offset: 86545},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2725, col: 17, offset: 86331},
+																	pos:   position{line: 2731, col: 17, offset: 86545},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2904, col: 12, offset: 91752},
+																		pos: position{line: 2910, col: 12, offset: 91966},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2904, col: 13, offset: 91753},
+																			pos: position{line: 2910, col: 13, offset: 91967},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2904, col: 13, offset: 91753},
+																					pos: position{line: 2910, col: 13, offset: 91967},
 																					expr: &litMatcher{
-																						pos:        position{line: 2904, col: 13, offset: 91753},
+																						pos:        position{line: 2910, col: 13, offset: 91967},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2904, col: 18, offset: 91758},
+																					pos: position{line: 2910, col: 18, offset: 91972},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2904, col: 18, offset: 91758},
+																						pos:        position{line: 2910, col: 18, offset: 91972},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47683,7 +47683,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2725, col: 27, offset: 86341},
+																	pos:        position{line: 2731, col: 27, offset: 86555},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47694,38 +47694,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2726, col: 5, offset: 86369},
+												pos:   position{line: 2732, col: 5, offset: 86583},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2726, col: 12, offset: 86376},
+													pos: position{line: 2732, col: 12, offset: 86590},
 													expr: &choiceExpr{
-														pos: position{line: 2727, col: 9, offset: 86386},
+														pos: position{line: 2733, col: 9, offset: 86600},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2727, col: 9, offset: 86386},
+																pos: position{line: 2733, col: 9, offset: 86600},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2727, col: 9, offset: 86386},
+																	pos:        position{line: 2733, col: 9, offset: 86600},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2728, col: 11, offset: 86433},
+																pos: position{line: 2734, col: 11, offset: 86647},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2728, col: 11, offset: 86433},
+																	pos:        position{line: 2734, col: 11, offset: 86647},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2729, col: 11, offset: 86481},
+																pos: position{line: 2735, col: 11, offset: 86695},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2729, col: 11, offset: 86481},
+																	pos:        position{line: 2735, col: 11, offset: 86695},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47736,38 +47736,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2731, col: 5, offset: 86531},
+												pos:   position{line: 2737, col: 5, offset: 86745},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2731, col: 12, offset: 86538},
+													pos: position{line: 2737, col: 12, offset: 86752},
 													expr: &choiceExpr{
-														pos: position{line: 2732, col: 9, offset: 86548},
+														pos: position{line: 2738, col: 9, offset: 86762},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2732, col: 9, offset: 86548},
+																pos: position{line: 2738, col: 9, offset: 86762},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2732, col: 9, offset: 86548},
+																	pos:        position{line: 2738, col: 9, offset: 86762},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2733, col: 11, offset: 86595},
+																pos: position{line: 2739, col: 11, offset: 86809},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2733, col: 11, offset: 86595},
+																	pos:        position{line: 2739, col: 11, offset: 86809},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2734, col: 11, offset: 86645},
+																pos: position{line: 2740, col: 11, offset: 86859},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2734, col: 11, offset: 86645},
+																	pos:        position{line: 2740, col: 11, offset: 86859},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47778,32 +47778,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2736, col: 5, offset: 86696},
+												pos:   position{line: 2742, col: 5, offset: 86910},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2736, col: 12, offset: 86703},
+													pos: position{line: 2742, col: 12, offset: 86917},
 													expr: &choiceExpr{
-														pos: position{line: 2736, col: 13, offset: 86704},
+														pos: position{line: 2742, col: 13, offset: 86918},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2904, col: 12, offset: 91752},
+																pos: position{line: 2910, col: 12, offset: 91966},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2904, col: 13, offset: 91753},
+																	pos: position{line: 2910, col: 13, offset: 91967},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2904, col: 13, offset: 91753},
+																			pos: position{line: 2910, col: 13, offset: 91967},
 																			expr: &litMatcher{
-																				pos:        position{line: 2904, col: 13, offset: 91753},
+																				pos:        position{line: 2910, col: 13, offset: 91967},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2904, col: 18, offset: 91758},
+																			pos: position{line: 2910, col: 18, offset: 91972},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2904, col: 18, offset: 91758},
+																				pos:        position{line: 2910, col: 18, offset: 91972},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47814,10 +47814,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2736, col: 24, offset: 86715},
+																pos: position{line: 2742, col: 24, offset: 86929},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2736, col: 24, offset: 86715},
+																	pos:        position{line: 2742, col: 24, offset: 86929},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47828,15 +47828,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2737, col: 5, offset: 86757},
+												pos:   position{line: 2743, col: 5, offset: 86971},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2737, col: 11, offset: 86763},
+													pos: position{line: 2743, col: 11, offset: 86977},
 													expr: &actionExpr{
-														pos: position{line: 2737, col: 12, offset: 86764},
+														pos: position{line: 2743, col: 12, offset: 86978},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2737, col: 12, offset: 86764},
+															pos:        position{line: 2743, col: 12, offset: 86978},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47846,12 +47846,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2739, col: 5, offset: 86894},
+												pos:   position{line: 2745, col: 5, offset: 87108},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2739, col: 11, offset: 86900},
+													pos: position{line: 2745, col: 11, offset: 87114},
 													expr: &litMatcher{
-														pos:        position{line: 2739, col: 12, offset: 86901},
+														pos:        position{line: 2745, col: 12, offset: 87115},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47859,7 +47859,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2740, col: 5, offset: 86911},
+												pos: position{line: 2746, col: 5, offset: 87125},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47868,9 +47868,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2931, col: 8, offset: 92273},
+							pos: position{line: 2937, col: 8, offset: 92487},
 							expr: &anyMatcher{
-								line: 2931, col: 9, offset: 92274,
+								line: 2937, col: 9, offset: 92488,
 							},
 						},
 					},
@@ -47879,23 +47879,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2767, col: 1, offset: 87920},
+			pos:  position{line: 2773, col: 1, offset: 88134},
 			expr: &actionExpr{
-				pos: position{line: 2768, col: 5, offset: 87943},
+				pos: position{line: 2774, col: 5, offset: 88157},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2768, col: 5, offset: 87943},
+					pos: position{line: 2774, col: 5, offset: 88157},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2768, col: 5, offset: 87943},
+							pos:   position{line: 2774, col: 5, offset: 88157},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2791, col: 18, offset: 88684},
+								pos: position{line: 2797, col: 18, offset: 88898},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2791, col: 19, offset: 88685},
+									pos: position{line: 2797, col: 19, offset: 88899},
 									expr: &charClassMatcher{
-										pos:        position{line: 2791, col: 19, offset: 88685},
+										pos:        position{line: 2797, col: 19, offset: 88899},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47906,25 +47906,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2769, col: 5, offset: 87969},
+							pos: position{line: 2775, col: 5, offset: 88183},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2773, col: 5, offset: 88097},
+							pos:        position{line: 2779, col: 5, offset: 88311},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2774, col: 5, offset: 88107},
+							pos:   position{line: 2780, col: 5, offset: 88321},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2795, col: 19, offset: 88760},
+								pos: position{line: 2801, col: 19, offset: 88974},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2795, col: 19, offset: 88760},
+									pos: position{line: 2801, col: 19, offset: 88974},
 									expr: &charClassMatcher{
-										pos:        position{line: 2795, col: 19, offset: 88760},
+										pos:        position{line: 2801, col: 19, offset: 88974},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47934,36 +47934,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2775, col: 5, offset: 88135},
+							pos:   position{line: 2781, col: 5, offset: 88349},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2775, col: 17, offset: 88147},
+								pos:  position{line: 2781, col: 17, offset: 88361},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2934, col: 8, offset: 92323},
+							pos: position{line: 2940, col: 8, offset: 92537},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2921, col: 12, offset: 92096},
+									pos: position{line: 2927, col: 12, offset: 92310},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2921, col: 13, offset: 92097},
+										pos: position{line: 2927, col: 13, offset: 92311},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2921, col: 13, offset: 92097},
+												pos:        position{line: 2927, col: 13, offset: 92311},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2921, col: 20, offset: 92104},
+												pos:        position{line: 2927, col: 20, offset: 92318},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2921, col: 29, offset: 92113},
+												pos:        position{line: 2927, col: 29, offset: 92327},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -47972,9 +47972,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2931, col: 8, offset: 92273},
+									pos: position{line: 2937, col: 8, offset: 92487},
 									expr: &anyMatcher{
-										line: 2931, col: 9, offset: 92274,
+										line: 2937, col: 9, offset: 92488,
 									},
 								},
 							},
@@ -47985,23 +47985,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2779, col: 1, offset: 88295},
+			pos:  position{line: 2785, col: 1, offset: 88509},
 			expr: &actionExpr{
-				pos: position{line: 2780, col: 5, offset: 88319},
+				pos: position{line: 2786, col: 5, offset: 88533},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2780, col: 5, offset: 88319},
+					pos: position{line: 2786, col: 5, offset: 88533},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2780, col: 5, offset: 88319},
+							pos:   position{line: 2786, col: 5, offset: 88533},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2791, col: 18, offset: 88684},
+								pos: position{line: 2797, col: 18, offset: 88898},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2791, col: 19, offset: 88685},
+									pos: position{line: 2797, col: 19, offset: 88899},
 									expr: &charClassMatcher{
-										pos:        position{line: 2791, col: 19, offset: 88685},
+										pos:        position{line: 2797, col: 19, offset: 88899},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48012,25 +48012,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2781, col: 5, offset: 88345},
+							pos: position{line: 2787, col: 5, offset: 88559},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2785, col: 5, offset: 88473},
+							pos:        position{line: 2791, col: 5, offset: 88687},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2786, col: 5, offset: 88482},
+							pos:   position{line: 2792, col: 5, offset: 88696},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2795, col: 19, offset: 88760},
+								pos: position{line: 2801, col: 19, offset: 88974},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2795, col: 19, offset: 88760},
+									pos: position{line: 2801, col: 19, offset: 88974},
 									expr: &charClassMatcher{
-										pos:        position{line: 2795, col: 19, offset: 88760},
+										pos:        position{line: 2801, col: 19, offset: 88974},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48040,10 +48040,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2787, col: 5, offset: 88510},
+							pos:   position{line: 2793, col: 5, offset: 88724},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2787, col: 17, offset: 88522},
+								pos:  position{line: 2793, col: 17, offset: 88736},
 								name: "InlineAttributes",
 							},
 						},
@@ -48053,43 +48053,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2866, col: 1, offset: 90572},
+			pos:  position{line: 2872, col: 1, offset: 90786},
 			expr: &actionExpr{
-				pos: position{line: 2866, col: 17, offset: 90588},
+				pos: position{line: 2872, col: 17, offset: 90802},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2866, col: 17, offset: 90588},
+					pos:   position{line: 2872, col: 17, offset: 90802},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2883, col: 5, offset: 91042},
+						pos: position{line: 2889, col: 5, offset: 91256},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2883, col: 5, offset: 91042},
+							pos:   position{line: 2889, col: 5, offset: 91256},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2883, col: 14, offset: 91051},
+								pos: position{line: 2889, col: 14, offset: 91265},
 								expr: &choiceExpr{
-									pos: position{line: 2884, col: 9, offset: 91061},
+									pos: position{line: 2890, col: 9, offset: 91275},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2884, col: 9, offset: 91061},
+											pos: position{line: 2890, col: 9, offset: 91275},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2884, col: 9, offset: 91061},
+												pos: position{line: 2890, col: 9, offset: 91275},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2884, col: 9, offset: 91061},
+														pos: position{line: 2890, col: 9, offset: 91275},
 														expr: &litMatcher{
-															pos:        position{line: 2884, col: 10, offset: 91062},
+															pos:        position{line: 2890, col: 10, offset: 91276},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2885, col: 9, offset: 91090},
+														pos: position{line: 2891, col: 9, offset: 91304},
 														expr: &charClassMatcher{
-															pos:        position{line: 2885, col: 10, offset: 91091},
+															pos:        position{line: 2891, col: 10, offset: 91305},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -48100,27 +48100,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2888, col: 11, offset: 91303},
+											pos: position{line: 2894, col: 11, offset: 91517},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2888, col: 11, offset: 91303},
+													pos:        position{line: 2894, col: 11, offset: 91517},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2888, col: 19, offset: 91311},
+													pos: position{line: 2894, col: 19, offset: 91525},
 													expr: &seqExpr{
-														pos: position{line: 2888, col: 21, offset: 91313},
+														pos: position{line: 2894, col: 21, offset: 91527},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2888, col: 21, offset: 91313},
+																pos: position{line: 2894, col: 21, offset: 91527},
 																expr: &actionExpr{
-																	pos: position{line: 2912, col: 10, offset: 91925},
+																	pos: position{line: 2918, col: 10, offset: 92139},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2912, col: 10, offset: 91925},
+																		pos:        position{line: 2918, col: 10, offset: 92139},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48129,11 +48129,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2888, col: 28, offset: 91320},
+																pos: position{line: 2894, col: 28, offset: 91534},
 																expr: &notExpr{
-																	pos: position{line: 2931, col: 8, offset: 92273},
+																	pos: position{line: 2937, col: 8, offset: 92487},
 																	expr: &anyMatcher{
-																		line: 2931, col: 9, offset: 92274,
+																		line: 2937, col: 9, offset: 92488,
 																	},
 																},
 															},
@@ -48143,35 +48143,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 639, col: 5, offset: 20305},
+											pos: position{line: 645, col: 5, offset: 20519},
 											run: (*parser).callonFileLocation23,
 											expr: &seqExpr{
-												pos: position{line: 639, col: 5, offset: 20305},
+												pos: position{line: 645, col: 5, offset: 20519},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 639, col: 5, offset: 20305},
+														pos: position{line: 645, col: 5, offset: 20519},
 														run: (*parser).callonFileLocation25,
 													},
 													&labeledExpr{
-														pos:   position{line: 642, col: 5, offset: 20377},
+														pos:   position{line: 648, col: 5, offset: 20591},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 642, col: 14, offset: 20386},
+															pos: position{line: 648, col: 14, offset: 20600},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 648, col: 5, offset: 20515},
+																	pos: position{line: 654, col: 5, offset: 20729},
 																	run: (*parser).callonFileLocation28,
 																	expr: &seqExpr{
-																		pos: position{line: 648, col: 5, offset: 20515},
+																		pos: position{line: 654, col: 5, offset: 20729},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 648, col: 5, offset: 20515},
+																				pos:        position{line: 654, col: 5, offset: 20729},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 648, col: 13, offset: 20523},
+																				pos:   position{line: 654, col: 13, offset: 20737},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -48203,7 +48203,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 648, col: 32, offset: 20542},
+																				pos:        position{line: 654, col: 32, offset: 20756},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48212,19 +48212,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 655, col: 5, offset: 20783},
+																	pos: position{line: 661, col: 5, offset: 20997},
 																	run: (*parser).callonFileLocation38,
 																	expr: &seqExpr{
-																		pos: position{line: 655, col: 5, offset: 20783},
+																		pos: position{line: 661, col: 5, offset: 20997},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 655, col: 5, offset: 20783},
+																				pos:        position{line: 661, col: 5, offset: 20997},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 655, col: 9, offset: 20787},
+																				pos:   position{line: 661, col: 9, offset: 21001},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -48256,7 +48256,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 655, col: 28, offset: 20806},
+																				pos:        position{line: 661, col: 28, offset: 21020},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48265,19 +48265,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 661, col: 25, offset: 20987},
+																	pos: position{line: 667, col: 25, offset: 21201},
 																	run: (*parser).callonFileLocation48,
 																	expr: &seqExpr{
-																		pos: position{line: 661, col: 25, offset: 20987},
+																		pos: position{line: 667, col: 25, offset: 21201},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 661, col: 25, offset: 20987},
+																				pos:        position{line: 667, col: 25, offset: 21201},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 661, col: 37, offset: 20999},
+																				pos:   position{line: 667, col: 37, offset: 21213},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -48309,33 +48309,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 661, col: 56, offset: 21018},
+																				pos:   position{line: 667, col: 56, offset: 21232},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 661, col: 62, offset: 21024},
+																					pos: position{line: 667, col: 62, offset: 21238},
 																					expr: &actionExpr{
-																						pos: position{line: 669, col: 17, offset: 21321},
+																						pos: position{line: 675, col: 17, offset: 21535},
 																						run: (*parser).callonFileLocation59,
 																						expr: &seqExpr{
-																							pos: position{line: 669, col: 17, offset: 21321},
+																							pos: position{line: 675, col: 17, offset: 21535},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 669, col: 17, offset: 21321},
+																									pos:        position{line: 675, col: 17, offset: 21535},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 669, col: 21, offset: 21325},
+																									pos:   position{line: 675, col: 21, offset: 21539},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 669, col: 28, offset: 21332},
+																										pos: position{line: 675, col: 28, offset: 21546},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 669, col: 28, offset: 21332},
+																												pos: position{line: 675, col: 28, offset: 21546},
 																												run: (*parser).callonFileLocation64,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 669, col: 28, offset: 21332},
+																													pos:        position{line: 675, col: 28, offset: 21546},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -48343,12 +48343,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 671, col: 9, offset: 21386},
+																												pos: position{line: 677, col: 9, offset: 21600},
 																												run: (*parser).callonFileLocation66,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 671, col: 9, offset: 21386},
+																													pos: position{line: 677, col: 9, offset: 21600},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 671, col: 9, offset: 21386},
+																														pos:        position{line: 677, col: 9, offset: 21600},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -48365,7 +48365,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 661, col: 78, offset: 21040},
+																				pos:        position{line: 667, col: 78, offset: 21254},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48374,19 +48374,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 665, col: 25, offset: 21158},
+																	pos: position{line: 671, col: 25, offset: 21372},
 																	run: (*parser).callonFileLocation70,
 																	expr: &seqExpr{
-																		pos: position{line: 665, col: 25, offset: 21158},
+																		pos: position{line: 671, col: 25, offset: 21372},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 665, col: 25, offset: 21158},
+																				pos:        position{line: 671, col: 25, offset: 21372},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 665, col: 38, offset: 21171},
+																				pos:   position{line: 671, col: 38, offset: 21385},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -48418,33 +48418,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 665, col: 57, offset: 21190},
+																				pos:   position{line: 671, col: 57, offset: 21404},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 665, col: 63, offset: 21196},
+																					pos: position{line: 671, col: 63, offset: 21410},
 																					expr: &actionExpr{
-																						pos: position{line: 669, col: 17, offset: 21321},
+																						pos: position{line: 675, col: 17, offset: 21535},
 																						run: (*parser).callonFileLocation81,
 																						expr: &seqExpr{
-																							pos: position{line: 669, col: 17, offset: 21321},
+																							pos: position{line: 675, col: 17, offset: 21535},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 669, col: 17, offset: 21321},
+																									pos:        position{line: 675, col: 17, offset: 21535},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 669, col: 21, offset: 21325},
+																									pos:   position{line: 675, col: 21, offset: 21539},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 669, col: 28, offset: 21332},
+																										pos: position{line: 675, col: 28, offset: 21546},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 669, col: 28, offset: 21332},
+																												pos: position{line: 675, col: 28, offset: 21546},
 																												run: (*parser).callonFileLocation86,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 669, col: 28, offset: 21332},
+																													pos:        position{line: 675, col: 28, offset: 21546},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -48452,12 +48452,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 671, col: 9, offset: 21386},
+																												pos: position{line: 677, col: 9, offset: 21600},
 																												run: (*parser).callonFileLocation88,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 671, col: 9, offset: 21386},
+																													pos: position{line: 677, col: 9, offset: 21600},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 671, col: 9, offset: 21386},
+																														pos:        position{line: 677, col: 9, offset: 21600},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -48474,7 +48474,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 665, col: 79, offset: 21212},
+																				pos:        position{line: 671, col: 79, offset: 21426},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48489,27 +48489,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1201, col: 23, offset: 37170},
+											pos: position{line: 1207, col: 23, offset: 37384},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1201, col: 23, offset: 37170},
+												pos: position{line: 1207, col: 23, offset: 37384},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1199, col: 32, offset: 37138},
+														pos:        position{line: 1205, col: 32, offset: 37352},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1201, col: 51, offset: 37198},
+														pos:   position{line: 1207, col: 51, offset: 37412},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1201, col: 56, offset: 37203},
+															pos: position{line: 1207, col: 56, offset: 37417},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1201, col: 56, offset: 37203},
+																pos: position{line: 1207, col: 56, offset: 37417},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1201, col: 56, offset: 37203},
+																	pos:        position{line: 1207, col: 56, offset: 37417},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -48519,7 +48519,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1199, col: 32, offset: 37138},
+														pos:        position{line: 1205, col: 32, offset: 37352},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -48528,10 +48528,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2891, col: 11, offset: 91440},
+											pos: position{line: 2897, col: 11, offset: 91654},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2891, col: 11, offset: 91440},
+												pos:        position{line: 2897, col: 11, offset: 91654},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -55995,6 +55995,9 @@ func (p *parser) callonSingleQuotedAttributeValueContent86() (interface{}, error
 }
 
 func (c *current) onSingleQuotedAttributeValueContent1(elements interface{}) (interface{}, error) {
+	if len(elements.([]interface{})) == 0 {
+		return "", nil // quoted empty value
+	}
 	return types.Reduce(elements), nil
 
 }
@@ -56268,6 +56271,9 @@ func (p *parser) callonDoubleQuotedAttributeValueContent87() (interface{}, error
 }
 
 func (c *current) onDoubleQuotedAttributeValueContent1(elements interface{}) (interface{}, error) {
+	if len(elements.([]interface{})) == 0 {
+		return "", nil // quoted empty value
+	}
 	return types.Reduce(elements), nil
 
 }
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 525a0c4..9abaa35 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -585,7 +585,10 @@ SingleQuotedAttributeValueContent <-
         / ([^\r\n\\'' ]+ { // = and , signs are allowed within '' quoted values
             return types.NewStringElement(string(c.text))
         })
-    )+ {
+    )* {
+        if len(elements.([]interface{})) == 0 {
+            return "", nil // quoted empty value
+        }
         return types.Reduce(elements), nil
     }
 
@@ -611,7 +614,10 @@ DoubleQuotedAttributeValueContent <-
         / ([^\r\n\\"` ]+ { // = and , signs are allowed within " quoted values
             return types.NewStringElement(string(c.text))
         })
-    )+ {
+    )* {
+        if len(elements.([]interface{})) == 0 {
+            return "", nil // quoted empty value
+        }
         return types.Reduce(elements), nil
     }
 
-- 
2.43.0


From d265d8b581cf0a62c368060e6aefb34d18497ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:09 +0000
Subject: [PATCH 31/75] fix: crash on verse paragraphs with macros, and
 formatting of their content lost

---
 pkg/renderer/sgml/delimited_block_verse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/delimited_block_verse.go b/pkg/renderer/sgml/delimited_block_verse.go
index 6254420..d7b1bef 100644
--- a/pkg/renderer/sgml/delimited_block_verse.go
+++ b/pkg/renderer/sgml/delimited_block_verse.go
@@ -46,7 +46,7 @@ func (r *sgmlRenderer) renderVerseBlock(ctx *context, b *types.DelimitedBlock) (
 
 func (r *sgmlRenderer) renderVerseParagraph(ctx *context, p *types.Paragraph) (string, error) {
 	log.Debug("rendering verse paragraph...")
-	content, err := RenderParagraphElements(p)
+	content, err := r.renderElements(ctx, p.Elements)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render verse paragraph lines")
 	}
-- 
2.43.0


From dc46fe9f953c25759807764952d25b0ebeab3bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:09 +0000
Subject: [PATCH 32/75] fix: substitutions of literal and source paragraphs, of
 lists with spaces, and after inline links

---
 pkg/parser/document_processing_apply_substitutions.go |  3 +++
 pkg/parser/document_substitutions.go                  | 10 ++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index afe124f..7cb39f9 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -317,6 +317,9 @@ func reparseInlineAttributes(ctx *ParseContext, element types.WithAttributes, su
 			attrs[k] = types.Reduce(v)
 		case types.AttrInlineLinkText:
 			// same as above, but do not allow for inline macros (eg: links)
+			subs := &substitutions{ // do not change the substitutions to apply on the other attributes and elements
+				sequence: subs.sequence,
+			}
 			if err := subs.remove(Macros); err != nil {
 				return err
 			}
diff --git a/pkg/parser/document_substitutions.go b/pkg/parser/document_substitutions.go
index 53a38ad..152fa3f 100644
--- a/pkg/parser/document_substitutions.go
+++ b/pkg/parser/document_substitutions.go
@@ -93,7 +93,13 @@ func newSubstitutions(b types.WithElements) (*substitutions, error) {
 	if !found {
 		return defaultSubstitutions(b), nil
 	}
+	if strings.TrimSpace(attrSub) == "" {
+		return noneSubstitutions(), nil
+	}
 	subs := strings.Split(attrSub, ",")
+	for i, sub := range subs {
+		subs[i] = strings.TrimSpace(sub)
+	}
 	var result *substitutions
 	// when dealing with incremental substitutions, use default sub as a baseline and append or prepend the incremental subs
 	if allIncremental(subs) {
@@ -144,9 +150,9 @@ func defaultSubstitutions(b types.WithElements) *substitutions {
 			return verbatimSubstitutions()
 		}
 	case *types.Paragraph:
-		// if listing paragraph:
+		// if listing, source or literal paragraph:
 		switch b.GetAttributes().GetAsStringWithDefault(types.AttrStyle, "") {
-		case types.Listing:
+		case types.Listing, types.Source, types.Literal, types.LiteralParagraph:
 			return verbatimSubstitutions()
 		case types.Passthrough:
 			return noneSubstitutions()
-- 
2.43.0


From d5aeecd4e56dd7e7aaa2c83bfdf77700598186cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:43 +0000
Subject: [PATCH 33/75] fix: conversion fails on roles which refer to
 attributes without a value

---
 pkg/renderer/sgml/element_role.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/renderer/sgml/element_role.go b/pkg/renderer/sgml/element_role.go
index 7cb696f..92a5302 100644
--- a/pkg/renderer/sgml/element_role.go
+++ b/pkg/renderer/sgml/element_role.go
@@ -9,13 +9,15 @@ import (
 
 func (r *sgmlRenderer) renderElementRoles(ctx *context, attrs types.Attributes) (string, error) {
 	if roles, ok := attrs[types.AttrRoles].(types.Roles); ok {
-		result := make([]string, len(roles))
-		for i, e := range roles {
+		result := make([]string, 0, len(roles))
+		for _, e := range roles {
 			s, err := r.renderElementRole(ctx, e)
 			if err != nil {
 				return "", err
 			}
-			result[i] = s
+			if s != "" { // skip empty roles
+				result = append(result, s)
+			}
 		}
 		return strings.Join(result, " "), nil
 	}
@@ -37,7 +39,9 @@ func (r *sgmlRenderer) renderImageRoles(ctx *context, attrs types.Attributes) (s
 			if err != nil {
 				return "", err
 			}
-			result = append(result, s)
+			if s != "" { // skip empty roles
+				result = append(result, s)
+			}
 		}
 	}
 	// log.Debugf("rendered image roles: '%s'", result)
@@ -47,6 +51,8 @@ func (r *sgmlRenderer) renderImageRoles(ctx *context, attrs types.Attributes) (s
 func (r *sgmlRenderer) renderElementRole(ctx *context, role interface{}) (string, error) {
 	result := strings.Builder{}
 	switch role := role.(type) {
+	case nil:
+		// role was a reference to an attribute without value
 	case string:
 		result.WriteString(role)
 	case []interface{}:
-- 
2.43.0


From ea29b26f1cd4f98efdc98580dbaf0c955c13ace3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:57 +0000
Subject: [PATCH 34/75] fix: quotes lost in attribute values when the
 attributes substitution is repeated

---
 pkg/parser/document_substitutions.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/parser/document_substitutions.go b/pkg/parser/document_substitutions.go
index 152fa3f..9862b8e 100644
--- a/pkg/parser/document_substitutions.go
+++ b/pkg/parser/document_substitutions.go
@@ -193,6 +193,7 @@ func (s *substitutions) split() (*substitutions, *substitutions) {
 			phase2 = &substitutions{
 				sequence: s.sequence[i+1:],
 			}
+			break
 		}
 	}
 	return phase1, phase2
-- 
2.43.0


From bd26629d4e5d7b499fef6067a209ec900bd0887c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:02 +0000
Subject: [PATCH 35/75] fix: special characters lost or escaped twice, and
 placeholders left, when attribute references are replaced

---
 ...document_processing_apply_substitutions.go | 203 +++++++++++++++---
 .../document_processing_refine_fragments.go   |   2 +-
 2 files changed, 179 insertions(+), 26 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 7cb39f9..5048401 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"bytes"
 	"fmt"
+	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -469,30 +470,39 @@ func extractMarkdownQuoteAttribution(elements []interface{}) ([]interface{}, str
 
 func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []interface{}, subs *substitutions, opts ...Option) ([]interface{}, error) {
 	replaced := false
-	for i, e := range elements {
+	result := make([]interface{}, 0, len(elements))
+	for _, e := range elements {
 		switch e := e.(type) {
 		case *types.AttributeReference:
+			// keep the special characters of the value as they are
+			if v := elementsForAttributeRef(ctx, e); v != nil {
+				result = append(result, v...)
+				replaced = true
+				continue
+			}
 			v, r, err := valueForAttributeRef(ctx, e)
 			if err != nil {
 				return nil, err
 			}
 			switch v := v.(type) {
 			case string:
-				elements[i] = &types.StringElement{
+				result = append(result, &types.StringElement{
 					Content: v,
-				}
+				})
 			default:
-				elements[i] = v
+				result = append(result, v)
 			}
 			replaced = replaced || r
+			continue
 		case *types.CounterSubstitution:
 			v, err := valueForCounter(ctx, e)
 			if err != nil {
 				return nil, err
 			}
-			elements[i] = &types.StringElement{
+			result = append(result, &types.StringElement{
 				Content: v,
-			}
+			})
+			continue
 		case types.WithElements: // if `subs=macros,attributes`, then replace within inline macros
 			// in attributes
 			if err := replaceAttributeRefsInAttributeValues(ctx, e.GetAttributes()); err != nil {
@@ -528,15 +538,16 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 				}
 			}
 		}
+		result = append(result, e)
 	}
 	// if attribute ref was found, reparse content (if subs)
 	if replaced && subs != nil {
 		if log.IsLevelEnabled(log.DebugLevel) {
-			log.Debugf("reparsing (phase2) %s", spew.Sdump(elements))
+			log.Debugf("reparsing (phase2) %s", spew.Sdump(result))
 		}
-		return parseWithSubstitutions(elements, subs, append(opts, Entrypoint("NormalGroup"))...)
+		return parseWithSubstitutions(result, subs, append(opts, Entrypoint("NormalGroup"))...)
 	}
-	return elements, nil
+	return result, nil
 }
 
 func replaceAttributeRefsInElements(ctx *ParseContext, elements []interface{}) ([]interface{}, error) {
@@ -570,6 +581,37 @@ func replaceAttributeRefsInElements(ctx *ParseContext, elements []interface{}) (
 	return elements, nil
 }
 
+// elementsForAttributeRef returns the elements of the value of the attribute, or `nil` if it has no special characters
+func elementsForAttributeRef(ctx *ParseContext, a *types.AttributeReference) []interface{} {
+	v, _ := ctx.attributes.get(a.Name)
+	switch v := v.(type) {
+	case *types.SpecialCharacter:
+		return []interface{}{v}
+	case []interface{}:
+		result := make([]interface{}, len(v))
+		found := false
+		for i, e := range v {
+			switch e := e.(type) {
+			case *types.SpecialCharacter:
+				found = true
+				result[i] = e
+			case *types.StringElement:
+				result[i] = e
+			case string:
+				result[i] = &types.StringElement{
+					Content: e,
+				}
+			default:
+				return nil
+			}
+		}
+		if found {
+			return result
+		}
+	}
+	return nil
+}
+
 func valueForAttributeRef(ctx *ParseContext, a *types.AttributeReference) (interface{}, bool, error) {
 	v, found := ctx.attributes.get(a.Name)
 	if !found {
@@ -580,7 +622,7 @@ func valueForAttributeRef(ctx *ParseContext, a *types.AttributeReference) (inter
 	case nil: // attribute was declared without a value
 		return "", true, nil
 	case []interface{}:
-		s, err := sgml.RenderPlainText(v)
+		s, err := sgml.RenderPlainText(v, sgml.WithoutEscape()) // special characters are escaped when the value is rendered
 		return s, true, err
 	case *types.DocumentAuthorFullName:
 		return v.FullName(), true, nil
@@ -628,7 +670,7 @@ func valueForCounter(ctx *ParseContext, c *types.CounterSubstitution) (string, e
 // parseElementsWithSubstitutions parse the elements, using placeholders for existing "structured" elements (ie, not RawLine or StringElements)
 // Also, does not parse the content of the placeholders, but restores them at the end.
 func parseWithSubstitutions(content interface{}, subs *substitutions, opts ...Option) ([]interface{}, error) {
-	serialized, placeholders, err := serialize(content)
+	serialized, placeholders, err := serialize(content, subs.contains(SpecialCharacters))
 	if err != nil {
 		return nil, err
 	}
@@ -675,7 +717,9 @@ func parseWithSubstitutions(content interface{}, subs *substitutions, opts ...Op
 	return elements, nil
 }
 
-func serialize(content interface{}) ([]byte, *placeholders, error) {
+// serialize the content, using placeholders for the elements which are not plain text. Special characters are
+// reserialized if they can be parsed again (eg: to detect bare URLs), otherwise they are kept with placeholders
+func serialize(content interface{}, reparseSpecialCharacters bool) ([]byte, *placeholders, error) {
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("serializing:\n%v", spew.Sdump(content))
 	}
@@ -695,9 +739,11 @@ func serialize(content interface{}) ([]byte, *placeholders, error) {
 				result.WriteString(string(element))
 			case *types.StringElement:
 				result.WriteString(element.Content)
-			case *types.SpecialCharacter:
-				result.WriteString(element.Name) // reserialize, so we can detect bare URLs (eg: `a link to <{base_url}>`)
 			default:
+				if c, ok := element.(*types.SpecialCharacter); ok && reparseSpecialCharacters && c.Name != "&" {
+					result.WriteString(c.Name) // reserialize, so we can detect bare URLs (eg: `a link to <{base_url}>`)
+					continue
+				}
 				// replace with placeholder
 				p := placeholders.add(element)
 				result.WriteString(p.String())
@@ -778,22 +824,129 @@ func (p *placeholders) add(element interface{}) *types.ElementPlaceHolder {
 // replace the placeholders with their original element in the given elements
 func (p *placeholders) restore(elements []interface{}) ([]interface{}, error) {
 	for i, e := range elements {
-		switch e := e.(type) {
-		case *types.ElementPlaceHolder:
-			elements[i] = p.elements[e.Ref]
-		case types.WithElements:
-			elmts, err := p.restore(e.GetElements())
-			if err != nil {
-				return nil, err
-			}
-			if err := e.SetElements(elmts); err != nil {
-				return nil, err
-			}
+		restored, err := p.restoreElement(e)
+		if err != nil {
+			return nil, err
 		}
+		elements[i] = restored
 	}
 	return elements, nil
 }
 
+// returns the original element if the given one is a placeholder, otherwise restores the placeholders within
+// this given element (in its content, attributes and location)
+func (p *placeholders) restoreElement(element interface{}) (interface{}, error) {
+	if len(p.elements) == 0 {
+		return element, nil // nothing to restore
+	}
+	var err error
+	switch e := element.(type) {
+	case *types.ElementPlaceHolder:
+		if original, found := p.elements[e.Ref]; found {
+			return original, nil
+		}
+		return &types.StringElement{
+			Content: e.String(),
+		}, nil
+	case string:
+		return p.restoreString(e), nil
+	case []interface{}:
+		return p.restore(e)
+	case *types.StringElement:
+		e.Content = p.restoreString(e.Content)
+	case *types.InlinePassthrough:
+		e.Elements, err = p.restore(e.Elements)
+	case *types.Footnote:
+		e.Elements, err = p.restore(e.Elements)
+	case *types.IndexTerm:
+		e.Term, err = p.restore(e.Term)
+	case *types.InternalCrossReference:
+		if e.ID, err = p.restoreElement(e.ID); err != nil {
+			return nil, err
+		}
+		e.Label, err = p.restoreElement(e.Label)
+	case *types.InlineMenu:
+		for i := range e.Path {
+			e.Path[i] = p.restoreString(e.Path[i])
+		}
+	case *types.InlineButton:
+		err = p.restoreAttributes(e.Attributes)
+	case *types.Icon:
+		err = p.restoreAttributes(e.Attributes)
+	case *types.UserMacro:
+		e.Value = p.restoreString(e.Value)
+		e.RawText = p.restoreString(e.RawText)
+		err = p.restoreAttributes(e.Attributes)
+	case types.WithElements:
+		if err = p.restoreAttributes(e.GetAttributes()); err != nil {
+			return nil, err
+		}
+		elements, err := p.restore(e.GetElements())
+		if err != nil {
+			return nil, err
+		}
+		if err := e.SetElements(elements); err != nil {
+			return nil, err
+		}
+	case types.WithLocation:
+		if err = p.restoreAttributes(e.GetAttributes()); err != nil {
+			return nil, err
+		}
+		if l := e.GetLocation(); l != nil {
+			l.Path = p.restorePath(l.Path)
+		}
+	}
+	return element, err
+}
+
+func (p *placeholders) restoreAttributes(attrs types.Attributes) error {
+	for k, v := range attrs {
+		restored, err := p.restoreElement(v)
+		if err != nil {
+			return err
+		}
+		attrs[k] = restored
+	}
+	return nil
+}
+
+// the path of a location is plain text
+func (p *placeholders) restorePath(path interface{}) interface{} {
+	switch path := path.(type) {
+	case *types.ElementPlaceHolder:
+		return p.restoreString(path.String())
+	case []interface{}:
+		for i, e := range path {
+			if e, ok := e.(*types.ElementPlaceHolder); ok {
+				path[i] = &types.StringElement{
+					Content: p.restoreString(e.String()),
+				}
+			}
+		}
+		return types.Reduce(path)
+	default:
+		return path
+	}
+}
+
+var placeholderPattern = regexp.MustCompile("\uFFFD[0-9]+\uFFFD")
+
+// replaces the placeholders with the text of their original elements
+func (p *placeholders) restoreString(s string) string {
+	return placeholderPattern.ReplaceAllStringFunc(s, func(ref string) string {
+		original, found := p.elements[strings.Trim(ref, "\uFFFD")]
+		if !found {
+			return ref
+		}
+		result, err := sgml.RenderPlainText(original)
+		if err != nil {
+			log.Warnf("unable to replace element with plain text: %v", err)
+			return ""
+		}
+		return result
+	})
+}
+
 // ----------------------------------------------
 // Support for experimental macros at parse time
 // ----------------------------------------------
diff --git a/pkg/parser/document_processing_refine_fragments.go b/pkg/parser/document_processing_refine_fragments.go
index cc63b87..c02a49a 100644
--- a/pkg/parser/document_processing_refine_fragments.go
+++ b/pkg/parser/document_processing_refine_fragments.go
@@ -142,7 +142,7 @@ func reparseDelimitedBlock(ctx *ParseContext, b *types.DelimitedBlock) error {
 }
 
 func reparseElements(elements []interface{}, opts ...Option) ([]interface{}, error) {
-	content, placeholders, err := serialize(elements)
+	content, placeholders, err := serialize(elements, true)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From df01684d693418081509fb6c262612da1531e9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:54 +0000
Subject: [PATCH 36/75] fix: options lost when given with both the % and the
 opts syntaxes

---
 pkg/types/attributes.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pkg/types/attributes.go b/pkg/types/attributes.go
index 0afb476..029404f 100644
--- a/pkg/types/attributes.go
+++ b/pkg/types/attributes.go
@@ -419,20 +419,19 @@ func (a Attributes) Set(key string, value interface{}) Attributes {
 		} else {
 			a[AttrOptions] = Options{value}
 		}
-	case AttrOptions: // make sure the value is wrapped into a []interface{}
+	case AttrOptions: // make sure the value is wrapped into a []interface{}, and keep the options which were already set
+		options, _ := a[AttrOptions].(Options)
 		switch v := value.(type) {
 		case Options:
-			a[AttrOptions] = v
+			options = append(options, v...)
 		case string:
-			values := strings.Split(v, ",")
-			options := make(Options, len(values))
-			for i, v := range values {
-				options[i] = v
+			for _, v := range strings.Split(v, ",") {
+				options = append(options, strings.TrimSpace(v))
 			}
-			a[AttrOptions] = options
 		default:
-			a[AttrOptions] = Options{value}
+			options = append(options, value)
 		}
+		a[AttrOptions] = options
 	default:
 		a[key] = value
 	}
-- 
2.43.0


From d517ddf51129acc8b759d8d4812eda03caedcab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:26 +0000
Subject: [PATCH 37/75] fix: attribute values replaced with true when they are
 equal to the name of the attribute

---
 pkg/types/attributes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/types/attributes.go b/pkg/types/attributes.go
index 029404f..d6ed6b9 100644
--- a/pkg/types/attributes.go
+++ b/pkg/types/attributes.go
@@ -260,9 +260,9 @@ func toAttributesWithMapping(attrs interface{}, mapping map[string]string) Attri
 
 					// do not override if already exists
 					if _, exists := attrs[target]; !exists {
-						// if key == value, replace value with `true`,
+						// replace value with `true` for the flags,
 						// so we don't have something such as `linenums=linenums`
-						if target == v {
+						if target == AttrLineNums && target == v {
 							attrs[target] = true
 						} else {
 							attrs[target] = v
-- 
2.43.0


From 74f3caa3ec4abad37aafafe28f2136186ffd9777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:43 +0000
Subject: [PATCH 38/75] fix: block attributes override the attributes of the
 image macro

---
 pkg/types/types.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 24b24fa..09f036c 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2085,9 +2085,13 @@ func (i *ImageBlock) GetAttributes() Attributes {
 	return i.Attributes
 }
 
-// AddAttributes adds the attributes of this CalloutListElement
+// AddAttributes adds the attributes of this ImageBlock
+// (the inline attributes, which come after the macro target, trump the given block attributes)
 func (i *ImageBlock) AddAttributes(attributes Attributes) {
-	i.Attributes = i.Attributes.AddAll(attributes)
+	if attributes == nil {
+		return
+	}
+	i.Attributes = attributes.Clone().AddAll(i.Attributes)
 }
 
 // SetAttributes sets the attributes in this element
-- 
2.43.0


From 404371184abb49a5727ff368bd12b090cfb56cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:47 +0000
Subject: [PATCH 39/75] fix: roles of literal blocks out of the class attribute

---
 pkg/renderer/sgml/html5/delimited_block_literal_tmpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/html5/delimited_block_literal_tmpl.go b/pkg/renderer/sgml/html5/delimited_block_literal_tmpl.go
index 58802e1..1bde785 100644
--- a/pkg/renderer/sgml/html5/delimited_block_literal_tmpl.go
+++ b/pkg/renderer/sgml/html5/delimited_block_literal_tmpl.go
@@ -2,7 +2,7 @@ package html5
 
 const (
 	literalBlockTmpl = `<div {{ if .ID }}id="{{ .ID }}" {{ end }}` +
-		"class=\"literalblock\"{{ if .Roles }} {{ .Roles }}{{ end }}>\n" +
+		"class=\"literalblock{{ if .Roles }} {{ .Roles }}{{ end }}\">\n" +
 		"{{ if .Title }}<div class=\"title\">{{ .Title }}</div>\n{{ end }}" +
 		"<div class=\"content\">\n" +
 		"<pre>{{ .Content }}</pre>\n" +
-- 
2.43.0


From 88a7a54af53d84a33878a5d2221eb66931000b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:55 +0000
Subject: [PATCH 40/75] fix: linenums option ignored in source blocks

---
 pkg/renderer/sgml/delimited_block_source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/delimited_block_source.go b/pkg/renderer/sgml/delimited_block_source.go
index 75150fa..e8f8dcf 100644
--- a/pkg/renderer/sgml/delimited_block_source.go
+++ b/pkg/renderer/sgml/delimited_block_source.go
@@ -110,7 +110,7 @@ func (r *sgmlRenderer) renderSourceBlockElements(ctx *context, b *types.Delimite
 	result := &strings.Builder{}
 	for i, line := range lines {
 		// extra option: line numbers
-		if b.Attributes.Has(types.AttrLineNums) {
+		if b.Attributes.HasOption(types.AttrLineNums) {
 			options = append(options, html.WithLineNumbers(true), html.BaseLineNumber(i+1))
 		}
 
-- 
2.43.0


From be0a7142f96eb34494154c40d5c6a4180e483ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:20 +0000
Subject: [PATCH 41/75] fix: positional role of quoted text dropped when other
 roles are given

---
 pkg/types/attributes.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/types/attributes.go b/pkg/types/attributes.go
index d6ed6b9..b65a36e 100644
--- a/pkg/types/attributes.go
+++ b/pkg/types/attributes.go
@@ -255,7 +255,12 @@ func toAttributesWithMapping(attrs interface{}, mapping map[string]string) Attri
 				if v != nil && v != "" { // nil and empty values are discarded (ie, not mapped to target key)
 					// (a bit hack-ish) make sure that `roles` is an `[]interface{}` if it came from a positional (1) attribute
 					if source == AttrPositional1 && target == AttrRoles {
-						v = Roles{v}
+						if roles, ok := attrs[target].(Roles); ok {
+							// other roles were given after the positional attribute: keep them all
+							attrs[target] = append(Roles{v}, roles...)
+						} else {
+							v = Roles{v}
+						}
 					}
 
 					// do not override if already exists
-- 
2.43.0


From 446720e15545ccee5a612dfaf0c0faba2ce9b109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:48 +0000
Subject: [PATCH 42/75] fix: positional attributes shifted when the first
 position has no positional value

---
 pkg/parser/parser.go    | 18860 +++++++++++++++++++-------------------
 pkg/parser/parser.peg   |     8 +-
 pkg/types/attributes.go |    10 +
 3 files changed, 9448 insertions(+), 9430 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 8079f40..a02d07e 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 49, offset: 11041},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92139},
+														pos: position{line: 2922, col: 10, offset: 92410},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92139},
+															pos:        position{line: 2922, col: 10, offset: 92410},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2940, col: 8, offset: 92537},
+													pos: position{line: 2944, col: 8, offset: 92808},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92310},
+															pos: position{line: 2931, col: 12, offset: 92581},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92311},
+																pos: position{line: 2931, col: 13, offset: 92582},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92311},
+																		pos:        position{line: 2931, col: 13, offset: 92582},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92318},
+																		pos:        position{line: 2931, col: 20, offset: 92589},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92327},
+																		pos:        position{line: 2931, col: 29, offset: 92598},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2937, col: 8, offset: 92487},
+															pos: position{line: 2941, col: 8, offset: 92758},
 															expr: &anyMatcher{
-																line: 2937, col: 9, offset: 92488,
+																line: 2941, col: 9, offset: 92759,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 364, col: 39, offset: 11162},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92139},
+														pos: position{line: 2922, col: 10, offset: 92410},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92139},
+															pos:        position{line: 2922, col: 10, offset: 92410},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2940, col: 8, offset: 92537},
+													pos: position{line: 2944, col: 8, offset: 92808},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92310},
+															pos: position{line: 2931, col: 12, offset: 92581},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92311},
+																pos: position{line: 2931, col: 13, offset: 92582},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92311},
+																		pos:        position{line: 2931, col: 13, offset: 92582},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92318},
+																		pos:        position{line: 2931, col: 20, offset: 92589},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92327},
+																		pos:        position{line: 2931, col: 29, offset: 92598},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2937, col: 8, offset: 92487},
+															pos: position{line: 2941, col: 8, offset: 92758},
 															expr: &anyMatcher{
-																line: 2937, col: 9, offset: 92488,
+																line: 2941, col: 9, offset: 92759,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92139},
+														pos: position{line: 2922, col: 10, offset: 92410},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92139},
+															pos:        position{line: 2922, col: 10, offset: 92410},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2937, col: 8, offset: 92487},
+													pos: position{line: 2941, col: 8, offset: 92758},
 													expr: &anyMatcher{
-														line: 2937, col: 9, offset: 92488,
+														line: 2941, col: 9, offset: 92759,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92139},
+														pos: position{line: 2922, col: 10, offset: 92410},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92139},
+															pos:        position{line: 2922, col: 10, offset: 92410},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2937, col: 8, offset: 92487},
+													pos: position{line: 2941, col: 8, offset: 92758},
 													expr: &anyMatcher{
-														line: 2937, col: 9, offset: 92488,
+														line: 2941, col: 9, offset: 92759,
 													},
 												},
 											},
@@ -464,22 +464,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 654, col: 5, offset: 20729},
+																				pos: position{line: 658, col: 5, offset: 21000},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 654, col: 5, offset: 20729},
+																						pos: position{line: 658, col: 5, offset: 21000},
 																						run: (*parser).callonDocumentRawLine97,
 																						expr: &seqExpr{
-																							pos: position{line: 654, col: 5, offset: 20729},
+																							pos: position{line: 658, col: 5, offset: 21000},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 654, col: 5, offset: 20729},
+																									pos:        position{line: 658, col: 5, offset: 21000},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 654, col: 13, offset: 20737},
+																									pos:   position{line: 658, col: 13, offset: 21008},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -511,7 +511,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 654, col: 32, offset: 20756},
+																									pos:        position{line: 658, col: 32, offset: 21027},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -520,19 +520,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 661, col: 5, offset: 20997},
+																						pos: position{line: 665, col: 5, offset: 21268},
 																						run: (*parser).callonDocumentRawLine107,
 																						expr: &seqExpr{
-																							pos: position{line: 661, col: 5, offset: 20997},
+																							pos: position{line: 665, col: 5, offset: 21268},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 661, col: 5, offset: 20997},
+																									pos:        position{line: 665, col: 5, offset: 21268},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 661, col: 9, offset: 21001},
+																									pos:   position{line: 665, col: 9, offset: 21272},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -564,7 +564,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 661, col: 28, offset: 21020},
+																									pos:        position{line: 665, col: 28, offset: 21291},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -600,22 +600,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 654, col: 5, offset: 20729},
+																				pos: position{line: 658, col: 5, offset: 21000},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 654, col: 5, offset: 20729},
+																						pos: position{line: 658, col: 5, offset: 21000},
 																						run: (*parser).callonDocumentRawLine123,
 																						expr: &seqExpr{
-																							pos: position{line: 654, col: 5, offset: 20729},
+																							pos: position{line: 658, col: 5, offset: 21000},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 654, col: 5, offset: 20729},
+																									pos:        position{line: 658, col: 5, offset: 21000},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 654, col: 13, offset: 20737},
+																									pos:   position{line: 658, col: 13, offset: 21008},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -647,7 +647,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 654, col: 32, offset: 20756},
+																									pos:        position{line: 658, col: 32, offset: 21027},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -656,19 +656,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 661, col: 5, offset: 20997},
+																						pos: position{line: 665, col: 5, offset: 21268},
 																						run: (*parser).callonDocumentRawLine133,
 																						expr: &seqExpr{
-																							pos: position{line: 661, col: 5, offset: 20997},
+																							pos: position{line: 665, col: 5, offset: 21268},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 661, col: 5, offset: 20997},
+																									pos:        position{line: 665, col: 5, offset: 21268},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 661, col: 9, offset: 21001},
+																									pos:   position{line: 665, col: 9, offset: 21272},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -700,7 +700,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 661, col: 28, offset: 21020},
+																									pos:        position{line: 665, col: 28, offset: 21291},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -727,22 +727,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 654, col: 5, offset: 20729},
+																		pos: position{line: 658, col: 5, offset: 21000},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 654, col: 5, offset: 20729},
+																				pos: position{line: 658, col: 5, offset: 21000},
 																				run: (*parser).callonDocumentRawLine147,
 																				expr: &seqExpr{
-																					pos: position{line: 654, col: 5, offset: 20729},
+																					pos: position{line: 658, col: 5, offset: 21000},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 654, col: 5, offset: 20729},
+																							pos:        position{line: 658, col: 5, offset: 21000},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 654, col: 13, offset: 20737},
+																							pos:   position{line: 658, col: 13, offset: 21008},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -774,7 +774,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 654, col: 32, offset: 20756},
+																							pos:        position{line: 658, col: 32, offset: 21027},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -783,19 +783,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 661, col: 5, offset: 20997},
+																				pos: position{line: 665, col: 5, offset: 21268},
 																				run: (*parser).callonDocumentRawLine157,
 																				expr: &seqExpr{
-																					pos: position{line: 661, col: 5, offset: 20997},
+																					pos: position{line: 665, col: 5, offset: 21268},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 661, col: 5, offset: 20997},
+																							pos:        position{line: 665, col: 5, offset: 21268},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 661, col: 9, offset: 21001},
+																							pos:   position{line: 665, col: 9, offset: 21272},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -827,7 +827,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 661, col: 28, offset: 21020},
+																							pos:        position{line: 665, col: 28, offset: 21291},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2910, col: 12, offset: 91966},
+																pos: position{line: 2914, col: 12, offset: 92237},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2910, col: 13, offset: 91967},
+																	pos: position{line: 2914, col: 13, offset: 92238},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2910, col: 13, offset: 91967},
+																			pos: position{line: 2914, col: 13, offset: 92238},
 																			expr: &litMatcher{
-																				pos:        position{line: 2910, col: 13, offset: 91967},
+																				pos:        position{line: 2914, col: 13, offset: 92238},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2910, col: 18, offset: 91972},
+																			pos: position{line: 2914, col: 18, offset: 92243},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2910, col: 18, offset: 91972},
+																				pos:        position{line: 2914, col: 18, offset: 92243},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92139},
+														pos: position{line: 2922, col: 10, offset: 92410},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92139},
+															pos:        position{line: 2922, col: 10, offset: 92410},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92139},
+														pos: position{line: 2922, col: 10, offset: 92410},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92139},
+															pos:        position{line: 2922, col: 10, offset: 92410},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1069,22 +1069,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 654, col: 5, offset: 20729},
+																				pos: position{line: 658, col: 5, offset: 21000},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 654, col: 5, offset: 20729},
+																						pos: position{line: 658, col: 5, offset: 21000},
 																						run: (*parser).callonDocumentRawLine216,
 																						expr: &seqExpr{
-																							pos: position{line: 654, col: 5, offset: 20729},
+																							pos: position{line: 658, col: 5, offset: 21000},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 654, col: 5, offset: 20729},
+																									pos:        position{line: 658, col: 5, offset: 21000},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 654, col: 13, offset: 20737},
+																									pos:   position{line: 658, col: 13, offset: 21008},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -1116,7 +1116,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 654, col: 32, offset: 20756},
+																									pos:        position{line: 658, col: 32, offset: 21027},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1125,19 +1125,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 661, col: 5, offset: 20997},
+																						pos: position{line: 665, col: 5, offset: 21268},
 																						run: (*parser).callonDocumentRawLine226,
 																						expr: &seqExpr{
-																							pos: position{line: 661, col: 5, offset: 20997},
+																							pos: position{line: 665, col: 5, offset: 21268},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 661, col: 5, offset: 20997},
+																									pos:        position{line: 665, col: 5, offset: 21268},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 661, col: 9, offset: 21001},
+																									pos:   position{line: 665, col: 9, offset: 21272},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -1169,7 +1169,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 661, col: 28, offset: 21020},
+																									pos:        position{line: 665, col: 28, offset: 21291},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1205,22 +1205,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 654, col: 5, offset: 20729},
+																				pos: position{line: 658, col: 5, offset: 21000},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 654, col: 5, offset: 20729},
+																						pos: position{line: 658, col: 5, offset: 21000},
 																						run: (*parser).callonDocumentRawLine242,
 																						expr: &seqExpr{
-																							pos: position{line: 654, col: 5, offset: 20729},
+																							pos: position{line: 658, col: 5, offset: 21000},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 654, col: 5, offset: 20729},
+																									pos:        position{line: 658, col: 5, offset: 21000},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 654, col: 13, offset: 20737},
+																									pos:   position{line: 658, col: 13, offset: 21008},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -1252,7 +1252,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 654, col: 32, offset: 20756},
+																									pos:        position{line: 658, col: 32, offset: 21027},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1261,19 +1261,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 661, col: 5, offset: 20997},
+																						pos: position{line: 665, col: 5, offset: 21268},
 																						run: (*parser).callonDocumentRawLine252,
 																						expr: &seqExpr{
-																							pos: position{line: 661, col: 5, offset: 20997},
+																							pos: position{line: 665, col: 5, offset: 21268},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 661, col: 5, offset: 20997},
+																									pos:        position{line: 665, col: 5, offset: 21268},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 661, col: 9, offset: 21001},
+																									pos:   position{line: 665, col: 9, offset: 21272},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -1305,7 +1305,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 661, col: 28, offset: 21020},
+																									pos:        position{line: 665, col: 28, offset: 21291},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1332,22 +1332,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 654, col: 5, offset: 20729},
+																		pos: position{line: 658, col: 5, offset: 21000},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 654, col: 5, offset: 20729},
+																				pos: position{line: 658, col: 5, offset: 21000},
 																				run: (*parser).callonDocumentRawLine266,
 																				expr: &seqExpr{
-																					pos: position{line: 654, col: 5, offset: 20729},
+																					pos: position{line: 658, col: 5, offset: 21000},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 654, col: 5, offset: 20729},
+																							pos:        position{line: 658, col: 5, offset: 21000},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 654, col: 13, offset: 20737},
+																							pos:   position{line: 658, col: 13, offset: 21008},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -1379,7 +1379,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 654, col: 32, offset: 20756},
+																							pos:        position{line: 658, col: 32, offset: 21027},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1388,19 +1388,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 661, col: 5, offset: 20997},
+																				pos: position{line: 665, col: 5, offset: 21268},
 																				run: (*parser).callonDocumentRawLine276,
 																				expr: &seqExpr{
-																					pos: position{line: 661, col: 5, offset: 20997},
+																					pos: position{line: 665, col: 5, offset: 21268},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 661, col: 5, offset: 20997},
+																							pos:        position{line: 665, col: 5, offset: 21268},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 661, col: 9, offset: 21001},
+																							pos:   position{line: 665, col: 9, offset: 21272},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -1432,7 +1432,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 661, col: 28, offset: 21020},
+																							pos:        position{line: 665, col: 28, offset: 21291},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2910, col: 12, offset: 91966},
+																pos: position{line: 2914, col: 12, offset: 92237},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2910, col: 13, offset: 91967},
+																	pos: position{line: 2914, col: 13, offset: 92238},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2910, col: 13, offset: 91967},
+																			pos: position{line: 2914, col: 13, offset: 92238},
 																			expr: &litMatcher{
-																				pos:        position{line: 2910, col: 13, offset: 91967},
+																				pos:        position{line: 2914, col: 13, offset: 92238},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2910, col: 18, offset: 91972},
+																			pos: position{line: 2914, col: 18, offset: 92243},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2910, col: 18, offset: 91972},
+																				pos:        position{line: 2914, col: 18, offset: 92243},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92139},
+														pos: position{line: 2922, col: 10, offset: 92410},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92139},
+															pos:        position{line: 2922, col: 10, offset: 92410},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2937, col: 8, offset: 92487},
+													pos: position{line: 2941, col: 8, offset: 92758},
 													expr: &anyMatcher{
-														line: 2937, col: 9, offset: 92488,
+														line: 2941, col: 9, offset: 92759,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92139},
+														pos: position{line: 2922, col: 10, offset: 92410},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92139},
+															pos:        position{line: 2922, col: 10, offset: 92410},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,24 +1665,24 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2937, col: 8, offset: 92487},
+													pos: position{line: 2941, col: 8, offset: 92758},
 													expr: &anyMatcher{
-														line: 2937, col: 9, offset: 92488,
+														line: 2941, col: 9, offset: 92759,
 													},
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 733, col: 5, offset: 23454},
+										pos: position{line: 737, col: 5, offset: 23725},
 										run: (*parser).callonDocumentRawLine334,
 										expr: &seqExpr{
-											pos: position{line: 733, col: 5, offset: 23454},
+											pos: position{line: 737, col: 5, offset: 23725},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 733, col: 5, offset: 23454},
+													pos: position{line: 737, col: 5, offset: 23725},
 													expr: &charClassMatcher{
-														pos:        position{line: 2808, col: 13, offset: 89234},
+														pos:        position{line: 2812, col: 13, offset: 89505},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1690,36 +1690,36 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 734, col: 5, offset: 23484},
+													pos:   position{line: 738, col: 5, offset: 23755},
 													label: "delimiter",
 													expr: &choiceExpr{
-														pos: position{line: 735, col: 9, offset: 23504},
+														pos: position{line: 739, col: 9, offset: 23775},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 749, col: 5, offset: 23996},
+																pos: position{line: 753, col: 5, offset: 24267},
 																run: (*parser).callonDocumentRawLine340,
 																expr: &seqExpr{
-																	pos: position{line: 749, col: 5, offset: 23996},
+																	pos: position{line: 753, col: 5, offset: 24267},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 749, col: 5, offset: 23996},
+																			pos:   position{line: 753, col: 5, offset: 24267},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 749, col: 16, offset: 24007},
+																				pos: position{line: 753, col: 16, offset: 24278},
 																				run: (*parser).callonDocumentRawLine343,
 																				expr: &seqExpr{
-																					pos: position{line: 749, col: 16, offset: 24007},
+																					pos: position{line: 753, col: 16, offset: 24278},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 749, col: 16, offset: 24007},
+																							pos:        position{line: 753, col: 16, offset: 24278},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 749, col: 23, offset: 24014},
+																							pos: position{line: 753, col: 23, offset: 24285},
 																							expr: &litMatcher{
-																								pos:        position{line: 749, col: 23, offset: 24014},
+																								pos:        position{line: 753, col: 23, offset: 24285},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -1730,12 +1730,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 751, col: 8, offset: 24098},
+																			pos: position{line: 755, col: 8, offset: 24369},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92139},
+																				pos: position{line: 2922, col: 10, offset: 92410},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92139},
+																					pos:        position{line: 2922, col: 10, offset: 92410},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92537},
+																			pos: position{line: 2944, col: 8, offset: 92808},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92310},
+																					pos: position{line: 2931, col: 12, offset: 92581},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92311},
+																						pos: position{line: 2931, col: 13, offset: 92582},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92311},
+																								pos:        position{line: 2931, col: 13, offset: 92582},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92318},
+																								pos:        position{line: 2931, col: 20, offset: 92589},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92327},
+																								pos:        position{line: 2931, col: 29, offset: 92598},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
@@ -1785,30 +1785,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 756, col: 5, offset: 24244},
+																pos: position{line: 760, col: 5, offset: 24515},
 																run: (*parser).callonDocumentRawLine359,
 																expr: &seqExpr{
-																	pos: position{line: 756, col: 5, offset: 24244},
+																	pos: position{line: 760, col: 5, offset: 24515},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 756, col: 5, offset: 24244},
+																			pos:   position{line: 760, col: 5, offset: 24515},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 756, col: 16, offset: 24255},
+																				pos: position{line: 760, col: 16, offset: 24526},
 																				run: (*parser).callonDocumentRawLine362,
 																				expr: &seqExpr{
-																					pos: position{line: 756, col: 16, offset: 24255},
+																					pos: position{line: 760, col: 16, offset: 24526},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 756, col: 16, offset: 24255},
+																							pos:        position{line: 760, col: 16, offset: 24526},
 																							val:        "====",
 																							ignoreCase: false,
 																							want:       "\"====\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 756, col: 23, offset: 24262},
+																							pos: position{line: 760, col: 23, offset: 24533},
 																							expr: &litMatcher{
-																								pos:        position{line: 756, col: 23, offset: 24262},
+																								pos:        position{line: 760, col: 23, offset: 24533},
 																								val:        "=",
 																								ignoreCase: false,
 																								want:       "\"=\"",
@@ -1819,12 +1819,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 758, col: 8, offset: 24346},
+																			pos: position{line: 762, col: 8, offset: 24617},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92139},
+																				pos: position{line: 2922, col: 10, offset: 92410},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92139},
+																					pos:        position{line: 2922, col: 10, offset: 92410},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92537},
+																			pos: position{line: 2944, col: 8, offset: 92808},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92310},
+																					pos: position{line: 2931, col: 12, offset: 92581},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92311},
+																						pos: position{line: 2931, col: 13, offset: 92582},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92311},
+																								pos:        position{line: 2931, col: 13, offset: 92582},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92318},
+																								pos:        position{line: 2931, col: 20, offset: 92589},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92327},
+																								pos:        position{line: 2931, col: 29, offset: 92598},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
@@ -1874,27 +1874,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 769, col: 26, offset: 24732},
+																pos: position{line: 773, col: 26, offset: 25003},
 																run: (*parser).callonDocumentRawLine378,
 																expr: &seqExpr{
-																	pos: position{line: 769, col: 26, offset: 24732},
+																	pos: position{line: 773, col: 26, offset: 25003},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 769, col: 26, offset: 24732},
+																			pos:        position{line: 773, col: 26, offset: 25003},
 																			val:        "```",
 																			ignoreCase: false,
 																			want:       "\"```\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 769, col: 32, offset: 24738},
+																			pos:   position{line: 773, col: 32, offset: 25009},
 																			label: "language",
 																			expr: &actionExpr{
-																				pos: position{line: 773, col: 13, offset: 24868},
+																				pos: position{line: 777, col: 13, offset: 25139},
 																				run: (*parser).callonDocumentRawLine382,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 773, col: 14, offset: 24869},
+																					pos: position{line: 777, col: 14, offset: 25140},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 773, col: 14, offset: 24869},
+																						pos:        position{line: 777, col: 14, offset: 25140},
 																						val:        "[^\\r\\n` ]",
 																						chars:      []rune{'\r', '\n', '`', ' '},
 																						ignoreCase: false,
@@ -1904,12 +1904,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 769, col: 52, offset: 24758},
+																			pos: position{line: 773, col: 52, offset: 25029},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92139},
+																				pos: position{line: 2922, col: 10, offset: 92410},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92139},
+																					pos:        position{line: 2922, col: 10, offset: 92410},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92537},
+																			pos: position{line: 2944, col: 8, offset: 92808},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92310},
+																					pos: position{line: 2931, col: 12, offset: 92581},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92311},
+																						pos: position{line: 2931, col: 13, offset: 92582},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92311},
+																								pos:        position{line: 2931, col: 13, offset: 92582},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92318},
+																								pos:        position{line: 2931, col: 20, offset: 92589},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92327},
+																								pos:        position{line: 2931, col: 29, offset: 92598},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
@@ -1959,30 +1959,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 763, col: 5, offset: 24491},
+																pos: position{line: 767, col: 5, offset: 24762},
 																run: (*parser).callonDocumentRawLine396,
 																expr: &seqExpr{
-																	pos: position{line: 763, col: 5, offset: 24491},
+																	pos: position{line: 767, col: 5, offset: 24762},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 763, col: 5, offset: 24491},
+																			pos:   position{line: 767, col: 5, offset: 24762},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 763, col: 16, offset: 24502},
+																				pos: position{line: 767, col: 16, offset: 24773},
 																				run: (*parser).callonDocumentRawLine399,
 																				expr: &seqExpr{
-																					pos: position{line: 763, col: 16, offset: 24502},
+																					pos: position{line: 767, col: 16, offset: 24773},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 763, col: 16, offset: 24502},
+																							pos:        position{line: 767, col: 16, offset: 24773},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 763, col: 22, offset: 24508},
+																							pos: position{line: 767, col: 22, offset: 24779},
 																							expr: &litMatcher{
-																								pos:        position{line: 763, col: 22, offset: 24508},
+																								pos:        position{line: 767, col: 22, offset: 24779},
 																								val:        "`",
 																								ignoreCase: false,
 																								want:       "\"`\"",
@@ -1993,12 +1993,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 765, col: 8, offset: 24592},
+																			pos: position{line: 769, col: 8, offset: 24863},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92139},
+																				pos: position{line: 2922, col: 10, offset: 92410},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92139},
+																					pos:        position{line: 2922, col: 10, offset: 92410},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92537},
+																			pos: position{line: 2944, col: 8, offset: 92808},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92310},
+																					pos: position{line: 2931, col: 12, offset: 92581},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92311},
+																						pos: position{line: 2931, col: 13, offset: 92582},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92311},
+																								pos:        position{line: 2931, col: 13, offset: 92582},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92318},
+																								pos:        position{line: 2931, col: 20, offset: 92589},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92327},
+																								pos:        position{line: 2931, col: 29, offset: 92598},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
@@ -2048,30 +2048,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 778, col: 5, offset: 25028},
+																pos: position{line: 782, col: 5, offset: 25299},
 																run: (*parser).callonDocumentRawLine415,
 																expr: &seqExpr{
-																	pos: position{line: 778, col: 5, offset: 25028},
+																	pos: position{line: 782, col: 5, offset: 25299},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 778, col: 5, offset: 25028},
+																			pos:   position{line: 782, col: 5, offset: 25299},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 778, col: 16, offset: 25039},
+																				pos: position{line: 782, col: 16, offset: 25310},
 																				run: (*parser).callonDocumentRawLine418,
 																				expr: &seqExpr{
-																					pos: position{line: 778, col: 16, offset: 25039},
+																					pos: position{line: 782, col: 16, offset: 25310},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 778, col: 16, offset: 25039},
+																							pos:        position{line: 782, col: 16, offset: 25310},
 																							val:        "----",
 																							ignoreCase: false,
 																							want:       "\"----\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 778, col: 23, offset: 25046},
+																							pos: position{line: 782, col: 23, offset: 25317},
 																							expr: &litMatcher{
-																								pos:        position{line: 778, col: 23, offset: 25046},
+																								pos:        position{line: 782, col: 23, offset: 25317},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
@@ -2082,12 +2082,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 780, col: 8, offset: 25130},
+																			pos: position{line: 784, col: 8, offset: 25401},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92139},
+																				pos: position{line: 2922, col: 10, offset: 92410},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92139},
+																					pos:        position{line: 2922, col: 10, offset: 92410},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92537},
+																			pos: position{line: 2944, col: 8, offset: 92808},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92310},
+																					pos: position{line: 2931, col: 12, offset: 92581},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92311},
+																						pos: position{line: 2931, col: 13, offset: 92582},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92311},
+																								pos:        position{line: 2931, col: 13, offset: 92582},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92318},
+																								pos:        position{line: 2931, col: 20, offset: 92589},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92327},
+																								pos:        position{line: 2931, col: 29, offset: 92598},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
@@ -2137,30 +2137,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 792, col: 5, offset: 25504},
+																pos: position{line: 796, col: 5, offset: 25775},
 																run: (*parser).callonDocumentRawLine434,
 																expr: &seqExpr{
-																	pos: position{line: 792, col: 5, offset: 25504},
+																	pos: position{line: 796, col: 5, offset: 25775},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 792, col: 5, offset: 25504},
+																			pos:   position{line: 796, col: 5, offset: 25775},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 792, col: 16, offset: 25515},
+																				pos: position{line: 796, col: 16, offset: 25786},
 																				run: (*parser).callonDocumentRawLine437,
 																				expr: &seqExpr{
-																					pos: position{line: 792, col: 16, offset: 25515},
+																					pos: position{line: 796, col: 16, offset: 25786},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 792, col: 16, offset: 25515},
+																							pos:        position{line: 796, col: 16, offset: 25786},
 																							val:        "....",
 																							ignoreCase: false,
 																							want:       "\"....\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 792, col: 23, offset: 25522},
+																							pos: position{line: 796, col: 23, offset: 25793},
 																							expr: &litMatcher{
-																								pos:        position{line: 792, col: 23, offset: 25522},
+																								pos:        position{line: 796, col: 23, offset: 25793},
 																								val:        ".",
 																								ignoreCase: false,
 																								want:       "\".\"",
@@ -2171,12 +2171,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 794, col: 8, offset: 25606},
+																			pos: position{line: 798, col: 8, offset: 25877},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92139},
+																				pos: position{line: 2922, col: 10, offset: 92410},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92139},
+																					pos:        position{line: 2922, col: 10, offset: 92410},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92537},
+																			pos: position{line: 2944, col: 8, offset: 92808},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92310},
+																					pos: position{line: 2931, col: 12, offset: 92581},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92311},
+																						pos: position{line: 2931, col: 13, offset: 92582},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92311},
+																								pos:        position{line: 2931, col: 13, offset: 92582},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92318},
+																								pos:        position{line: 2931, col: 20, offset: 92589},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92327},
+																								pos:        position{line: 2931, col: 29, offset: 92598},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
@@ -2226,30 +2226,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 799, col: 5, offset: 25756},
+																pos: position{line: 803, col: 5, offset: 26027},
 																run: (*parser).callonDocumentRawLine453,
 																expr: &seqExpr{
-																	pos: position{line: 799, col: 5, offset: 25756},
+																	pos: position{line: 803, col: 5, offset: 26027},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 799, col: 5, offset: 25756},
+																			pos:   position{line: 803, col: 5, offset: 26027},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 799, col: 16, offset: 25767},
+																				pos: position{line: 803, col: 16, offset: 26038},
 																				run: (*parser).callonDocumentRawLine456,
 																				expr: &seqExpr{
-																					pos: position{line: 799, col: 16, offset: 25767},
+																					pos: position{line: 803, col: 16, offset: 26038},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 799, col: 16, offset: 25767},
+																							pos:        position{line: 803, col: 16, offset: 26038},
 																							val:        "++++",
 																							ignoreCase: false,
 																							want:       "\"++++\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 799, col: 23, offset: 25774},
+																							pos: position{line: 803, col: 23, offset: 26045},
 																							expr: &litMatcher{
-																								pos:        position{line: 799, col: 23, offset: 25774},
+																								pos:        position{line: 803, col: 23, offset: 26045},
 																								val:        "+",
 																								ignoreCase: false,
 																								want:       "\"+\"",
@@ -2260,12 +2260,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 801, col: 8, offset: 25858},
+																			pos: position{line: 805, col: 8, offset: 26129},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92139},
+																				pos: position{line: 2922, col: 10, offset: 92410},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92139},
+																					pos:        position{line: 2922, col: 10, offset: 92410},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92537},
+																			pos: position{line: 2944, col: 8, offset: 92808},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92310},
+																					pos: position{line: 2931, col: 12, offset: 92581},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92311},
+																						pos: position{line: 2931, col: 13, offset: 92582},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92311},
+																								pos:        position{line: 2931, col: 13, offset: 92582},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92318},
+																								pos:        position{line: 2931, col: 20, offset: 92589},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92327},
+																								pos:        position{line: 2931, col: 29, offset: 92598},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
@@ -2315,30 +2315,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 806, col: 5, offset: 26006},
+																pos: position{line: 810, col: 5, offset: 26277},
 																run: (*parser).callonDocumentRawLine472,
 																expr: &seqExpr{
-																	pos: position{line: 806, col: 5, offset: 26006},
+																	pos: position{line: 810, col: 5, offset: 26277},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 806, col: 5, offset: 26006},
+																			pos:   position{line: 810, col: 5, offset: 26277},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 806, col: 16, offset: 26017},
+																				pos: position{line: 810, col: 16, offset: 26288},
 																				run: (*parser).callonDocumentRawLine475,
 																				expr: &seqExpr{
-																					pos: position{line: 806, col: 16, offset: 26017},
+																					pos: position{line: 810, col: 16, offset: 26288},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 806, col: 16, offset: 26017},
+																							pos:        position{line: 810, col: 16, offset: 26288},
 																							val:        "____",
 																							ignoreCase: false,
 																							want:       "\"____\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 806, col: 23, offset: 26024},
+																							pos: position{line: 810, col: 23, offset: 26295},
 																							expr: &litMatcher{
-																								pos:        position{line: 806, col: 23, offset: 26024},
+																								pos:        position{line: 810, col: 23, offset: 26295},
 																								val:        "_",
 																								ignoreCase: false,
 																								want:       "\"_\"",
@@ -2349,12 +2349,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 808, col: 8, offset: 26108},
+																			pos: position{line: 812, col: 8, offset: 26379},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92139},
+																				pos: position{line: 2922, col: 10, offset: 92410},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92139},
+																					pos:        position{line: 2922, col: 10, offset: 92410},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92537},
+																			pos: position{line: 2944, col: 8, offset: 92808},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92310},
+																					pos: position{line: 2931, col: 12, offset: 92581},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92311},
+																						pos: position{line: 2931, col: 13, offset: 92582},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92311},
+																								pos:        position{line: 2931, col: 13, offset: 92582},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92318},
+																								pos:        position{line: 2931, col: 20, offset: 92589},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92327},
+																								pos:        position{line: 2931, col: 29, offset: 92598},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
@@ -2404,30 +2404,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 813, col: 5, offset: 26252},
+																pos: position{line: 817, col: 5, offset: 26523},
 																run: (*parser).callonDocumentRawLine491,
 																expr: &seqExpr{
-																	pos: position{line: 813, col: 5, offset: 26252},
+																	pos: position{line: 817, col: 5, offset: 26523},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 813, col: 5, offset: 26252},
+																			pos:   position{line: 817, col: 5, offset: 26523},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 813, col: 16, offset: 26263},
+																				pos: position{line: 817, col: 16, offset: 26534},
 																				run: (*parser).callonDocumentRawLine494,
 																				expr: &seqExpr{
-																					pos: position{line: 813, col: 16, offset: 26263},
+																					pos: position{line: 817, col: 16, offset: 26534},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 813, col: 16, offset: 26263},
+																							pos:        position{line: 817, col: 16, offset: 26534},
 																							val:        "****",
 																							ignoreCase: false,
 																							want:       "\"****\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 813, col: 23, offset: 26270},
+																							pos: position{line: 817, col: 23, offset: 26541},
 																							expr: &litMatcher{
-																								pos:        position{line: 813, col: 23, offset: 26270},
+																								pos:        position{line: 817, col: 23, offset: 26541},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -2438,12 +2438,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 815, col: 8, offset: 26354},
+																			pos: position{line: 819, col: 8, offset: 26625},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92139},
+																				pos: position{line: 2922, col: 10, offset: 92410},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92139},
+																					pos:        position{line: 2922, col: 10, offset: 92410},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92537},
+																			pos: position{line: 2944, col: 8, offset: 92808},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92310},
+																					pos: position{line: 2931, col: 12, offset: 92581},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92311},
+																						pos: position{line: 2931, col: 13, offset: 92582},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92311},
+																								pos:        position{line: 2931, col: 13, offset: 92582},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92318},
+																								pos:        position{line: 2931, col: 20, offset: 92589},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92327},
+																								pos:        position{line: 2931, col: 29, offset: 92598},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2922, col: 11, offset: 92200},
+													pos: position{line: 2926, col: 11, offset: 92471},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2922, col: 11, offset: 92200},
+														pos: position{line: 2926, col: 11, offset: 92471},
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 11, offset: 92200},
+															pos:        position{line: 2926, col: 11, offset: 92471},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2868, col: 14, offset: 90732},
+													pos: position{line: 2872, col: 14, offset: 91003},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2868, col: 14, offset: 90732},
+														pos: position{line: 2872, col: 14, offset: 91003},
 														expr: &charClassMatcher{
-															pos:        position{line: 2868, col: 14, offset: 90732},
+															pos:        position{line: 2872, col: 14, offset: 91003},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2937, col: 8, offset: 92487},
+													pos: position{line: 2941, col: 8, offset: 92758},
 													expr: &anyMatcher{
-														line: 2937, col: 9, offset: 92488,
+														line: 2941, col: 9, offset: 92759,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2937, col: 8, offset: 92487},
+							pos: position{line: 2941, col: 8, offset: 92758},
 							expr: &anyMatcher{
-								line: 2937, col: 9, offset: 92488,
+								line: 2941, col: 9, offset: 92759,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2872, col: 17, offset: 90802},
+												pos: position{line: 2876, col: 17, offset: 91073},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2872, col: 17, offset: 90802},
+													pos:   position{line: 2876, col: 17, offset: 91073},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2889, col: 5, offset: 91256},
+														pos: position{line: 2893, col: 5, offset: 91527},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2889, col: 5, offset: 91256},
+															pos:   position{line: 2893, col: 5, offset: 91527},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2889, col: 14, offset: 91265},
+																pos: position{line: 2893, col: 14, offset: 91536},
 																expr: &choiceExpr{
-																	pos: position{line: 2890, col: 9, offset: 91275},
+																	pos: position{line: 2894, col: 9, offset: 91546},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 9, offset: 91275},
+																			pos: position{line: 2894, col: 9, offset: 91546},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2890, col: 9, offset: 91275},
+																				pos: position{line: 2894, col: 9, offset: 91546},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2890, col: 9, offset: 91275},
+																						pos: position{line: 2894, col: 9, offset: 91546},
 																						expr: &litMatcher{
-																							pos:        position{line: 2890, col: 10, offset: 91276},
+																							pos:        position{line: 2894, col: 10, offset: 91547},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2891, col: 9, offset: 91304},
+																						pos: position{line: 2895, col: 9, offset: 91575},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2891, col: 10, offset: 91305},
+																							pos:        position{line: 2895, col: 10, offset: 91576},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2894, col: 11, offset: 91517},
+																			pos: position{line: 2898, col: 11, offset: 91788},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2894, col: 11, offset: 91517},
+																					pos:        position{line: 2898, col: 11, offset: 91788},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2894, col: 19, offset: 91525},
+																					pos: position{line: 2898, col: 19, offset: 91796},
 																					expr: &seqExpr{
-																						pos: position{line: 2894, col: 21, offset: 91527},
+																						pos: position{line: 2898, col: 21, offset: 91798},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2894, col: 21, offset: 91527},
+																								pos: position{line: 2898, col: 21, offset: 91798},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92139},
+																									pos: position{line: 2922, col: 10, offset: 92410},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92139},
+																										pos:        position{line: 2922, col: 10, offset: 92410},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 28, offset: 91534},
+																								pos: position{line: 2898, col: 28, offset: 91805},
 																								expr: &notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -2699,35 +2699,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 645, col: 5, offset: 20519},
+																			pos: position{line: 649, col: 5, offset: 20790},
 																			run: (*parser).callonFileInclusion30,
 																			expr: &seqExpr{
-																				pos: position{line: 645, col: 5, offset: 20519},
+																				pos: position{line: 649, col: 5, offset: 20790},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 645, col: 5, offset: 20519},
+																						pos: position{line: 649, col: 5, offset: 20790},
 																						run: (*parser).callonFileInclusion32,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 648, col: 5, offset: 20591},
+																						pos:   position{line: 652, col: 5, offset: 20862},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 648, col: 14, offset: 20600},
+																							pos: position{line: 652, col: 14, offset: 20871},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 654, col: 5, offset: 20729},
+																									pos: position{line: 658, col: 5, offset: 21000},
 																									run: (*parser).callonFileInclusion35,
 																									expr: &seqExpr{
-																										pos: position{line: 654, col: 5, offset: 20729},
+																										pos: position{line: 658, col: 5, offset: 21000},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 654, col: 5, offset: 20729},
+																												pos:        position{line: 658, col: 5, offset: 21000},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 654, col: 13, offset: 20737},
+																												pos:   position{line: 658, col: 13, offset: 21008},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -2759,7 +2759,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 654, col: 32, offset: 20756},
+																												pos:        position{line: 658, col: 32, offset: 21027},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2768,19 +2768,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 661, col: 5, offset: 20997},
+																									pos: position{line: 665, col: 5, offset: 21268},
 																									run: (*parser).callonFileInclusion45,
 																									expr: &seqExpr{
-																										pos: position{line: 661, col: 5, offset: 20997},
+																										pos: position{line: 665, col: 5, offset: 21268},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 661, col: 5, offset: 20997},
+																												pos:        position{line: 665, col: 5, offset: 21268},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 9, offset: 21001},
+																												pos:   position{line: 665, col: 9, offset: 21272},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -2812,7 +2812,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 661, col: 28, offset: 21020},
+																												pos:        position{line: 665, col: 28, offset: 21291},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2821,19 +2821,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 667, col: 25, offset: 21201},
+																									pos: position{line: 671, col: 25, offset: 21472},
 																									run: (*parser).callonFileInclusion55,
 																									expr: &seqExpr{
-																										pos: position{line: 667, col: 25, offset: 21201},
+																										pos: position{line: 671, col: 25, offset: 21472},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 667, col: 25, offset: 21201},
+																												pos:        position{line: 671, col: 25, offset: 21472},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 667, col: 37, offset: 21213},
+																												pos:   position{line: 671, col: 37, offset: 21484},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -2865,33 +2865,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 667, col: 56, offset: 21232},
+																												pos:   position{line: 671, col: 56, offset: 21503},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 667, col: 62, offset: 21238},
+																													pos: position{line: 671, col: 62, offset: 21509},
 																													expr: &actionExpr{
-																														pos: position{line: 675, col: 17, offset: 21535},
+																														pos: position{line: 679, col: 17, offset: 21806},
 																														run: (*parser).callonFileInclusion66,
 																														expr: &seqExpr{
-																															pos: position{line: 675, col: 17, offset: 21535},
+																															pos: position{line: 679, col: 17, offset: 21806},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 675, col: 17, offset: 21535},
+																																	pos:        position{line: 679, col: 17, offset: 21806},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 675, col: 21, offset: 21539},
+																																	pos:   position{line: 679, col: 21, offset: 21810},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 675, col: 28, offset: 21546},
+																																		pos: position{line: 679, col: 28, offset: 21817},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 675, col: 28, offset: 21546},
+																																				pos: position{line: 679, col: 28, offset: 21817},
 																																				run: (*parser).callonFileInclusion71,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 675, col: 28, offset: 21546},
+																																					pos:        position{line: 679, col: 28, offset: 21817},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -2899,12 +2899,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 677, col: 9, offset: 21600},
+																																				pos: position{line: 681, col: 9, offset: 21871},
 																																				run: (*parser).callonFileInclusion73,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 677, col: 9, offset: 21600},
+																																					pos: position{line: 681, col: 9, offset: 21871},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 677, col: 9, offset: 21600},
+																																						pos:        position{line: 681, col: 9, offset: 21871},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -2921,7 +2921,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 667, col: 78, offset: 21254},
+																												pos:        position{line: 671, col: 78, offset: 21525},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2930,19 +2930,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 671, col: 25, offset: 21372},
+																									pos: position{line: 675, col: 25, offset: 21643},
 																									run: (*parser).callonFileInclusion77,
 																									expr: &seqExpr{
-																										pos: position{line: 671, col: 25, offset: 21372},
+																										pos: position{line: 675, col: 25, offset: 21643},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 671, col: 25, offset: 21372},
+																												pos:        position{line: 675, col: 25, offset: 21643},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 38, offset: 21385},
+																												pos:   position{line: 675, col: 38, offset: 21656},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -2974,33 +2974,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 57, offset: 21404},
+																												pos:   position{line: 675, col: 57, offset: 21675},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 671, col: 63, offset: 21410},
+																													pos: position{line: 675, col: 63, offset: 21681},
 																													expr: &actionExpr{
-																														pos: position{line: 675, col: 17, offset: 21535},
+																														pos: position{line: 679, col: 17, offset: 21806},
 																														run: (*parser).callonFileInclusion88,
 																														expr: &seqExpr{
-																															pos: position{line: 675, col: 17, offset: 21535},
+																															pos: position{line: 679, col: 17, offset: 21806},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 675, col: 17, offset: 21535},
+																																	pos:        position{line: 679, col: 17, offset: 21806},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 675, col: 21, offset: 21539},
+																																	pos:   position{line: 679, col: 21, offset: 21810},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 675, col: 28, offset: 21546},
+																																		pos: position{line: 679, col: 28, offset: 21817},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 675, col: 28, offset: 21546},
+																																				pos: position{line: 679, col: 28, offset: 21817},
 																																				run: (*parser).callonFileInclusion93,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 675, col: 28, offset: 21546},
+																																					pos:        position{line: 679, col: 28, offset: 21817},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3008,12 +3008,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 677, col: 9, offset: 21600},
+																																				pos: position{line: 681, col: 9, offset: 21871},
 																																				run: (*parser).callonFileInclusion95,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 677, col: 9, offset: 21600},
+																																					pos: position{line: 681, col: 9, offset: 21871},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 677, col: 9, offset: 21600},
+																																						pos:        position{line: 681, col: 9, offset: 21871},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3030,7 +3030,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 671, col: 79, offset: 21426},
+																												pos:        position{line: 675, col: 79, offset: 21697},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -3045,27 +3045,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1207, col: 23, offset: 37384},
+																			pos: position{line: 1211, col: 23, offset: 37655},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1207, col: 23, offset: 37384},
+																				pos: position{line: 1211, col: 23, offset: 37655},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1205, col: 32, offset: 37352},
+																						pos:        position{line: 1209, col: 32, offset: 37623},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1207, col: 51, offset: 37412},
+																						pos:   position{line: 1211, col: 51, offset: 37683},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1207, col: 56, offset: 37417},
+																							pos: position{line: 1211, col: 56, offset: 37688},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1207, col: 56, offset: 37417},
+																								pos: position{line: 1211, col: 56, offset: 37688},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1207, col: 56, offset: 37417},
+																									pos:        position{line: 1211, col: 56, offset: 37688},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3075,7 +3075,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1205, col: 32, offset: 37352},
+																						pos:        position{line: 1209, col: 32, offset: 37623},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2897, col: 11, offset: 91654},
+																			pos: position{line: 2901, col: 11, offset: 91925},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2897, col: 11, offset: 91654},
+																				pos:        position{line: 2901, col: 11, offset: 91925},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92139},
+								pos: position{line: 2922, col: 10, offset: 92410},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92139},
+									pos:        position{line: 2922, col: 10, offset: 92410},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2940, col: 8, offset: 92537},
+							pos: position{line: 2944, col: 8, offset: 92808},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2927, col: 12, offset: 92310},
+									pos: position{line: 2931, col: 12, offset: 92581},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2927, col: 13, offset: 92311},
+										pos: position{line: 2931, col: 13, offset: 92582},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2927, col: 13, offset: 92311},
+												pos:        position{line: 2931, col: 13, offset: 92582},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 20, offset: 92318},
+												pos:        position{line: 2931, col: 20, offset: 92589},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 29, offset: 92327},
+												pos:        position{line: 2931, col: 29, offset: 92598},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2937, col: 8, offset: 92487},
+									pos: position{line: 2941, col: 8, offset: 92758},
 									expr: &anyMatcher{
-										line: 2937, col: 9, offset: 92488,
+										line: 2941, col: 9, offset: 92759,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2910, col: 12, offset: 91966},
+																				pos: position{line: 2914, col: 12, offset: 92237},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2910, col: 13, offset: 91967},
+																					pos: position{line: 2914, col: 13, offset: 92238},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2910, col: 13, offset: 91967},
+																							pos: position{line: 2914, col: 13, offset: 92238},
 																							expr: &litMatcher{
-																								pos:        position{line: 2910, col: 13, offset: 91967},
+																								pos:        position{line: 2914, col: 13, offset: 92238},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2910, col: 18, offset: 91972},
+																							pos: position{line: 2914, col: 18, offset: 92243},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2910, col: 18, offset: 91972},
+																								pos:        position{line: 2914, col: 18, offset: 92243},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2910, col: 12, offset: 91966},
+																				pos: position{line: 2914, col: 12, offset: 92237},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2910, col: 13, offset: 91967},
+																					pos: position{line: 2914, col: 13, offset: 92238},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2910, col: 13, offset: 91967},
+																							pos: position{line: 2914, col: 13, offset: 92238},
 																							expr: &litMatcher{
-																								pos:        position{line: 2910, col: 13, offset: 91967},
+																								pos:        position{line: 2914, col: 13, offset: 92238},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2910, col: 18, offset: 91972},
+																							pos: position{line: 2914, col: 18, offset: 92243},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2910, col: 18, offset: 91972},
+																								pos:        position{line: 2914, col: 18, offset: 92243},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2910, col: 12, offset: 91966},
+																		pos: position{line: 2914, col: 12, offset: 92237},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2910, col: 13, offset: 91967},
+																			pos: position{line: 2914, col: 13, offset: 92238},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2910, col: 13, offset: 91967},
+																					pos: position{line: 2914, col: 13, offset: 92238},
 																					expr: &litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91967},
+																						pos:        position{line: 2914, col: 13, offset: 92238},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2910, col: 18, offset: 91972},
+																					pos: position{line: 2914, col: 18, offset: 92243},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2910, col: 18, offset: 91972},
+																						pos:        position{line: 2914, col: 18, offset: 92243},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91966},
+																									pos: position{line: 2914, col: 12, offset: 92237},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2910, col: 13, offset: 91967},
+																										pos: position{line: 2914, col: 13, offset: 92238},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2910, col: 13, offset: 91967},
+																												pos: position{line: 2914, col: 13, offset: 92238},
 																												expr: &litMatcher{
-																													pos:        position{line: 2910, col: 13, offset: 91967},
+																													pos:        position{line: 2914, col: 13, offset: 92238},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2910, col: 18, offset: 91972},
+																												pos: position{line: 2914, col: 18, offset: 92243},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2910, col: 18, offset: 91972},
+																													pos:        position{line: 2914, col: 18, offset: 92243},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 91966},
+																									pos: position{line: 2914, col: 12, offset: 92237},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2910, col: 13, offset: 91967},
+																										pos: position{line: 2914, col: 13, offset: 92238},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2910, col: 13, offset: 91967},
+																												pos: position{line: 2914, col: 13, offset: 92238},
 																												expr: &litMatcher{
-																													pos:        position{line: 2910, col: 13, offset: 91967},
+																													pos:        position{line: 2914, col: 13, offset: 92238},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2910, col: 18, offset: 91972},
+																												pos: position{line: 2914, col: 18, offset: 92243},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2910, col: 18, offset: 91972},
+																													pos:        position{line: 2914, col: 18, offset: 92243},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2910, col: 12, offset: 91966},
+																							pos: position{line: 2914, col: 12, offset: 92237},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2910, col: 13, offset: 91967},
+																								pos: position{line: 2914, col: 13, offset: 92238},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2910, col: 13, offset: 91967},
+																										pos: position{line: 2914, col: 13, offset: 92238},
 																										expr: &litMatcher{
-																											pos:        position{line: 2910, col: 13, offset: 91967},
+																											pos:        position{line: 2914, col: 13, offset: 92238},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2910, col: 18, offset: 91972},
+																										pos: position{line: 2914, col: 18, offset: 92243},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2910, col: 18, offset: 91972},
+																											pos:        position{line: 2914, col: 18, offset: 92243},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2910, col: 12, offset: 91966},
+														pos: position{line: 2914, col: 12, offset: 92237},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2910, col: 13, offset: 91967},
+															pos: position{line: 2914, col: 13, offset: 92238},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2910, col: 13, offset: 91967},
+																	pos: position{line: 2914, col: 13, offset: 92238},
 																	expr: &litMatcher{
-																		pos:        position{line: 2910, col: 13, offset: 91967},
+																		pos:        position{line: 2914, col: 13, offset: 92238},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2910, col: 18, offset: 91972},
+																	pos: position{line: 2914, col: 18, offset: 92243},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2910, col: 18, offset: 91972},
+																		pos:        position{line: 2914, col: 18, offset: 92243},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2910, col: 12, offset: 91966},
+														pos: position{line: 2914, col: 12, offset: 92237},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2910, col: 13, offset: 91967},
+															pos: position{line: 2914, col: 13, offset: 92238},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2910, col: 13, offset: 91967},
+																	pos: position{line: 2914, col: 13, offset: 92238},
 																	expr: &litMatcher{
-																		pos:        position{line: 2910, col: 13, offset: 91967},
+																		pos:        position{line: 2914, col: 13, offset: 92238},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2910, col: 18, offset: 91972},
+																	pos: position{line: 2914, col: 18, offset: 92243},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2910, col: 18, offset: 91972},
+																		pos:        position{line: 2914, col: 18, offset: 92243},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2910, col: 12, offset: 91966},
+												pos: position{line: 2914, col: 12, offset: 92237},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2910, col: 13, offset: 91967},
+													pos: position{line: 2914, col: 13, offset: 92238},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2910, col: 13, offset: 91967},
+															pos: position{line: 2914, col: 13, offset: 92238},
 															expr: &litMatcher{
-																pos:        position{line: 2910, col: 13, offset: 91967},
+																pos:        position{line: 2914, col: 13, offset: 92238},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2910, col: 18, offset: 91972},
+															pos: position{line: 2914, col: 18, offset: 92243},
 															expr: &charClassMatcher{
-																pos:        position{line: 2910, col: 18, offset: 91972},
+																pos:        position{line: 2914, col: 18, offset: 92243},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2937, col: 8, offset: 92487},
+							pos: position{line: 2941, col: 8, offset: 92758},
 							expr: &anyMatcher{
-								line: 2937, col: 9, offset: 92488,
+								line: 2941, col: 9, offset: 92759,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2812, col: 14, offset: 89308},
+																		pos: position{line: 2816, col: 14, offset: 89579},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2812, col: 14, offset: 89308},
+																			pos: position{line: 2816, col: 14, offset: 89579},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2812, col: 14, offset: 89308},
+																				pos:        position{line: 2816, col: 14, offset: 89579},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2812, col: 14, offset: 89308},
+																				pos: position{line: 2816, col: 14, offset: 89579},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2812, col: 14, offset: 89308},
+																					pos: position{line: 2816, col: 14, offset: 89579},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2812, col: 14, offset: 89308},
+																						pos:        position{line: 2816, col: 14, offset: 89579},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2812, col: 14, offset: 89308},
+																							pos: position{line: 2816, col: 14, offset: 89579},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2812, col: 14, offset: 89308},
+																								pos: position{line: 2816, col: 14, offset: 89579},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2812, col: 14, offset: 89308},
+																									pos:        position{line: 2816, col: 14, offset: 89579},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2812, col: 14, offset: 89308},
+																									pos: position{line: 2816, col: 14, offset: 89579},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2812, col: 14, offset: 89308},
+																										pos: position{line: 2816, col: 14, offset: 89579},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2812, col: 14, offset: 89308},
+																											pos:        position{line: 2816, col: 14, offset: 89579},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2937, col: 8, offset: 92487},
+							pos: position{line: 2941, col: 8, offset: 92758},
 							expr: &anyMatcher{
-								line: 2937, col: 9, offset: 92488,
+								line: 2941, col: 9, offset: 92759,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2812, col: 14, offset: 89308},
+																pos: position{line: 2816, col: 14, offset: 89579},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2812, col: 14, offset: 89308},
+																	pos: position{line: 2816, col: 14, offset: 89579},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2812, col: 14, offset: 89308},
+																		pos:        position{line: 2816, col: 14, offset: 89579},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2812, col: 14, offset: 89308},
+																pos: position{line: 2816, col: 14, offset: 89579},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2812, col: 14, offset: 89308},
+																	pos: position{line: 2816, col: 14, offset: 89579},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2812, col: 14, offset: 89308},
+																		pos:        position{line: 2816, col: 14, offset: 89579},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2940, col: 8, offset: 92537},
+							pos: position{line: 2944, col: 8, offset: 92808},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2927, col: 12, offset: 92310},
+									pos: position{line: 2931, col: 12, offset: 92581},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2927, col: 13, offset: 92311},
+										pos: position{line: 2931, col: 13, offset: 92582},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2927, col: 13, offset: 92311},
+												pos:        position{line: 2931, col: 13, offset: 92582},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 20, offset: 92318},
+												pos:        position{line: 2931, col: 20, offset: 92589},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 29, offset: 92327},
+												pos:        position{line: 2931, col: 29, offset: 92598},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2937, col: 8, offset: 92487},
+									pos: position{line: 2941, col: 8, offset: 92758},
 									expr: &anyMatcher{
-										line: 2937, col: 9, offset: 92488,
+										line: 2941, col: 9, offset: 92759,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2935, col: 11, offset: 92473},
+							pos: position{line: 2939, col: 11, offset: 92744},
 							expr: &anyMatcher{
-								line: 2935, col: 13, offset: 92475,
+								line: 2939, col: 13, offset: 92746,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 49, offset: 11041},
 														expr: &actionExpr{
-															pos: position{line: 2918, col: 10, offset: 92139},
+															pos: position{line: 2922, col: 10, offset: 92410},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2918, col: 10, offset: 92139},
+																pos:        position{line: 2922, col: 10, offset: 92410},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2940, col: 8, offset: 92537},
+														pos: position{line: 2944, col: 8, offset: 92808},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92310},
+																pos: position{line: 2931, col: 12, offset: 92581},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2927, col: 13, offset: 92311},
+																	pos: position{line: 2931, col: 13, offset: 92582},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 13, offset: 92311},
+																			pos:        position{line: 2931, col: 13, offset: 92582},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 20, offset: 92318},
+																			pos:        position{line: 2931, col: 20, offset: 92589},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 29, offset: 92327},
+																			pos:        position{line: 2931, col: 29, offset: 92598},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92487},
+																pos: position{line: 2941, col: 8, offset: 92758},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92488,
+																	line: 2941, col: 9, offset: 92759,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 364, col: 39, offset: 11162},
 														expr: &actionExpr{
-															pos: position{line: 2918, col: 10, offset: 92139},
+															pos: position{line: 2922, col: 10, offset: 92410},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2918, col: 10, offset: 92139},
+																pos:        position{line: 2922, col: 10, offset: 92410},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2940, col: 8, offset: 92537},
+														pos: position{line: 2944, col: 8, offset: 92808},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92310},
+																pos: position{line: 2931, col: 12, offset: 92581},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2927, col: 13, offset: 92311},
+																	pos: position{line: 2931, col: 13, offset: 92582},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 13, offset: 92311},
+																			pos:        position{line: 2931, col: 13, offset: 92582},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 20, offset: 92318},
+																			pos:        position{line: 2931, col: 20, offset: 92589},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 29, offset: 92327},
+																			pos:        position{line: 2931, col: 29, offset: 92598},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92487},
+																pos: position{line: 2941, col: 8, offset: 92758},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92488,
+																	line: 2941, col: 9, offset: 92759,
 																},
 															},
 														},
@@ -4336,24 +4336,24 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 686, col: 14, offset: 21901},
+											pos: position{line: 690, col: 14, offset: 22172},
 											run: (*parser).callonDocumentFragment58,
 											expr: &seqExpr{
-												pos: position{line: 686, col: 14, offset: 21901},
+												pos: position{line: 690, col: 14, offset: 22172},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2935, col: 11, offset: 92473},
+														pos: position{line: 2939, col: 11, offset: 92744},
 														expr: &anyMatcher{
-															line: 2935, col: 13, offset: 92475,
+															line: 2939, col: 13, offset: 92746,
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 686, col: 21, offset: 21908},
+														pos: position{line: 690, col: 21, offset: 22179},
 														expr: &actionExpr{
-															pos: position{line: 2918, col: 10, offset: 92139},
+															pos: position{line: 2922, col: 10, offset: 92410},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2918, col: 10, offset: 92139},
+																pos:        position{line: 2922, col: 10, offset: 92410},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2940, col: 8, offset: 92537},
+														pos: position{line: 2944, col: 8, offset: 92808},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92310},
+																pos: position{line: 2931, col: 12, offset: 92581},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2927, col: 13, offset: 92311},
+																	pos: position{line: 2931, col: 13, offset: 92582},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 13, offset: 92311},
+																			pos:        position{line: 2931, col: 13, offset: 92582},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 20, offset: 92318},
+																			pos:        position{line: 2931, col: 20, offset: 92589},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 29, offset: 92327},
+																			pos:        position{line: 2931, col: 29, offset: 92598},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92487},
+																pos: position{line: 2941, col: 8, offset: 92758},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92488,
+																	line: 2941, col: 9, offset: 92759,
 																},
 															},
 														},
@@ -4411,36 +4411,36 @@ var g = &grammar{
 											name: "Section",
 										},
 										&actionExpr{
-											pos: position{line: 829, col: 5, offset: 26736},
+											pos: position{line: 833, col: 5, offset: 27007},
 											run: (*parser).callonDocumentFragment75,
 											expr: &seqExpr{
-												pos: position{line: 829, col: 5, offset: 26736},
+												pos: position{line: 833, col: 5, offset: 27007},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 749, col: 5, offset: 23996},
+														pos: position{line: 753, col: 5, offset: 24267},
 														run: (*parser).callonDocumentFragment77,
 														expr: &seqExpr{
-															pos: position{line: 749, col: 5, offset: 23996},
+															pos: position{line: 753, col: 5, offset: 24267},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 749, col: 5, offset: 23996},
+																	pos:   position{line: 753, col: 5, offset: 24267},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 749, col: 16, offset: 24007},
+																		pos: position{line: 753, col: 16, offset: 24278},
 																		run: (*parser).callonDocumentFragment80,
 																		expr: &seqExpr{
-																			pos: position{line: 749, col: 16, offset: 24007},
+																			pos: position{line: 753, col: 16, offset: 24278},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 749, col: 16, offset: 24007},
+																					pos:        position{line: 753, col: 16, offset: 24278},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 749, col: 23, offset: 24014},
+																					pos: position{line: 753, col: 23, offset: 24285},
 																					expr: &litMatcher{
-																						pos:        position{line: 749, col: 23, offset: 24014},
+																						pos:        position{line: 753, col: 23, offset: 24285},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -4451,12 +4451,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 751, col: 8, offset: 24098},
+																	pos: position{line: 755, col: 8, offset: 24369},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92139},
+																		pos: position{line: 2922, col: 10, offset: 92410},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92139},
+																			pos:        position{line: 2922, col: 10, offset: 92410},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4465,28 +4465,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92537},
+																	pos: position{line: 2944, col: 8, offset: 92808},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92310},
+																			pos: position{line: 2931, col: 12, offset: 92581},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92311},
+																				pos: position{line: 2931, col: 13, offset: 92582},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92311},
+																						pos:        position{line: 2931, col: 13, offset: 92582},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92318},
+																						pos:        position{line: 2931, col: 20, offset: 92589},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92327},
+																						pos:        position{line: 2931, col: 29, offset: 92598},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4495,9 +4495,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92487},
+																			pos: position{line: 2941, col: 8, offset: 92758},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92488,
+																				line: 2941, col: 9, offset: 92759,
 																			},
 																		},
 																	},
@@ -4506,46 +4506,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 830, col: 5, offset: 26767},
+														pos:   position{line: 834, col: 5, offset: 27038},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 840, col: 5, offset: 27053},
+															pos: position{line: 844, col: 5, offset: 27324},
 															expr: &actionExpr{
-																pos: position{line: 840, col: 6, offset: 27054},
+																pos: position{line: 844, col: 6, offset: 27325},
 																run: (*parser).callonDocumentFragment98,
 																expr: &seqExpr{
-																	pos: position{line: 840, col: 6, offset: 27054},
+																	pos: position{line: 844, col: 6, offset: 27325},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 840, col: 6, offset: 27054},
+																			pos: position{line: 844, col: 6, offset: 27325},
 																			expr: &choiceExpr{
-																				pos: position{line: 837, col: 29, offset: 26996},
+																				pos: position{line: 841, col: 29, offset: 27267},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 749, col: 5, offset: 23996},
+																						pos: position{line: 753, col: 5, offset: 24267},
 																						run: (*parser).callonDocumentFragment102,
 																						expr: &seqExpr{
-																							pos: position{line: 749, col: 5, offset: 23996},
+																							pos: position{line: 753, col: 5, offset: 24267},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 749, col: 5, offset: 23996},
+																									pos:   position{line: 753, col: 5, offset: 24267},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 749, col: 16, offset: 24007},
+																										pos: position{line: 753, col: 16, offset: 24278},
 																										run: (*parser).callonDocumentFragment105,
 																										expr: &seqExpr{
-																											pos: position{line: 749, col: 16, offset: 24007},
+																											pos: position{line: 753, col: 16, offset: 24278},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 749, col: 16, offset: 24007},
+																													pos:        position{line: 753, col: 16, offset: 24278},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 749, col: 23, offset: 24014},
+																													pos: position{line: 753, col: 23, offset: 24285},
 																													expr: &litMatcher{
-																														pos:        position{line: 749, col: 23, offset: 24014},
+																														pos:        position{line: 753, col: 23, offset: 24285},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -4556,12 +4556,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 751, col: 8, offset: 24098},
+																									pos: position{line: 755, col: 8, offset: 24369},
 																									expr: &actionExpr{
-																										pos: position{line: 2918, col: 10, offset: 92139},
+																										pos: position{line: 2922, col: 10, offset: 92410},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2918, col: 10, offset: 92139},
+																											pos:        position{line: 2922, col: 10, offset: 92410},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4570,28 +4570,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92537},
+																									pos: position{line: 2944, col: 8, offset: 92808},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92310},
+																											pos: position{line: 2931, col: 12, offset: 92581},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92311},
+																												pos: position{line: 2931, col: 13, offset: 92582},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92311},
+																														pos:        position{line: 2931, col: 13, offset: 92582},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92318},
+																														pos:        position{line: 2931, col: 20, offset: 92589},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92327},
+																														pos:        position{line: 2931, col: 29, offset: 92598},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4600,9 +4600,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92487},
+																											pos: position{line: 2941, col: 8, offset: 92758},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92488,
+																												line: 2941, col: 9, offset: 92759,
 																											},
 																										},
 																									},
@@ -4611,39 +4611,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92487},
+																						pos: position{line: 2941, col: 8, offset: 92758},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92488,
+																							line: 2941, col: 9, offset: 92759,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 841, col: 5, offset: 27084},
+																			pos:   position{line: 845, col: 5, offset: 27355},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 820, col: 5, offset: 26500},
+																				pos: position{line: 824, col: 5, offset: 26771},
 																				run: (*parser).callonDocumentFragment124,
 																				expr: &seqExpr{
-																					pos: position{line: 820, col: 5, offset: 26500},
+																					pos: position{line: 824, col: 5, offset: 26771},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2935, col: 11, offset: 92473},
+																							pos: position{line: 2939, col: 11, offset: 92744},
 																							expr: &anyMatcher{
-																								line: 2935, col: 13, offset: 92475,
+																								line: 2939, col: 13, offset: 92746,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 821, col: 5, offset: 26575},
+																							pos:   position{line: 825, col: 5, offset: 26846},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 13, offset: 90665},
+																								pos: position{line: 2868, col: 13, offset: 90936},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2864, col: 13, offset: 90665},
+																									pos: position{line: 2868, col: 13, offset: 90936},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 13, offset: 90665},
+																										pos:        position{line: 2868, col: 13, offset: 90936},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4653,28 +4653,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4683,9 +4683,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -4700,35 +4700,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 831, col: 5, offset: 26801},
+														pos: position{line: 835, col: 5, offset: 27072},
 														expr: &choiceExpr{
-															pos: position{line: 837, col: 29, offset: 26996},
+															pos: position{line: 841, col: 29, offset: 27267},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 749, col: 5, offset: 23996},
+																	pos: position{line: 753, col: 5, offset: 24267},
 																	run: (*parser).callonDocumentFragment142,
 																	expr: &seqExpr{
-																		pos: position{line: 749, col: 5, offset: 23996},
+																		pos: position{line: 753, col: 5, offset: 24267},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 749, col: 5, offset: 23996},
+																				pos:   position{line: 753, col: 5, offset: 24267},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 749, col: 16, offset: 24007},
+																					pos: position{line: 753, col: 16, offset: 24278},
 																					run: (*parser).callonDocumentFragment145,
 																					expr: &seqExpr{
-																						pos: position{line: 749, col: 16, offset: 24007},
+																						pos: position{line: 753, col: 16, offset: 24278},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 749, col: 16, offset: 24007},
+																								pos:        position{line: 753, col: 16, offset: 24278},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 749, col: 23, offset: 24014},
+																								pos: position{line: 753, col: 23, offset: 24285},
 																								expr: &litMatcher{
-																									pos:        position{line: 749, col: 23, offset: 24014},
+																									pos:        position{line: 753, col: 23, offset: 24285},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -4739,12 +4739,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 751, col: 8, offset: 24098},
+																				pos: position{line: 755, col: 8, offset: 24369},
 																				expr: &actionExpr{
-																					pos: position{line: 2918, col: 10, offset: 92139},
+																					pos: position{line: 2922, col: 10, offset: 92410},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2918, col: 10, offset: 92139},
+																						pos:        position{line: 2922, col: 10, offset: 92410},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4753,28 +4753,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2940, col: 8, offset: 92537},
+																				pos: position{line: 2944, col: 8, offset: 92808},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2927, col: 12, offset: 92310},
+																						pos: position{line: 2931, col: 12, offset: 92581},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2927, col: 13, offset: 92311},
+																							pos: position{line: 2931, col: 13, offset: 92582},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 13, offset: 92311},
+																									pos:        position{line: 2931, col: 13, offset: 92582},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 20, offset: 92318},
+																									pos:        position{line: 2931, col: 20, offset: 92589},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 29, offset: 92327},
+																									pos:        position{line: 2931, col: 29, offset: 92598},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4783,9 +4783,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92487},
+																						pos: position{line: 2941, col: 8, offset: 92758},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92488,
+																							line: 2941, col: 9, offset: 92759,
 																						},
 																					},
 																				},
@@ -4794,9 +4794,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92487},
+																	pos: position{line: 2941, col: 8, offset: 92758},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92488,
+																		line: 2941, col: 9, offset: 92759,
 																	},
 																},
 															},
@@ -4806,39 +4806,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 849, col: 5, offset: 27237},
+											pos: position{line: 853, col: 5, offset: 27508},
 											run: (*parser).callonDocumentFragment163,
 											expr: &seqExpr{
-												pos: position{line: 849, col: 5, offset: 27237},
+												pos: position{line: 853, col: 5, offset: 27508},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 849, col: 5, offset: 27237},
+														pos:   position{line: 853, col: 5, offset: 27508},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 756, col: 5, offset: 24244},
+															pos: position{line: 760, col: 5, offset: 24515},
 															run: (*parser).callonDocumentFragment166,
 															expr: &seqExpr{
-																pos: position{line: 756, col: 5, offset: 24244},
+																pos: position{line: 760, col: 5, offset: 24515},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 756, col: 5, offset: 24244},
+																		pos:   position{line: 760, col: 5, offset: 24515},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 756, col: 16, offset: 24255},
+																			pos: position{line: 760, col: 16, offset: 24526},
 																			run: (*parser).callonDocumentFragment169,
 																			expr: &seqExpr{
-																				pos: position{line: 756, col: 16, offset: 24255},
+																				pos: position{line: 760, col: 16, offset: 24526},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 756, col: 16, offset: 24255},
+																						pos:        position{line: 760, col: 16, offset: 24526},
 																						val:        "====",
 																						ignoreCase: false,
 																						want:       "\"====\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 756, col: 23, offset: 24262},
+																						pos: position{line: 760, col: 23, offset: 24533},
 																						expr: &litMatcher{
-																							pos:        position{line: 756, col: 23, offset: 24262},
+																							pos:        position{line: 760, col: 23, offset: 24533},
 																							val:        "=",
 																							ignoreCase: false,
 																							want:       "\"=\"",
@@ -4849,12 +4849,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 758, col: 8, offset: 24346},
+																		pos: position{line: 762, col: 8, offset: 24617},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92139},
+																			pos: position{line: 2922, col: 10, offset: 92410},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92139},
+																				pos:        position{line: 2922, col: 10, offset: 92410},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4863,28 +4863,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92537},
+																		pos: position{line: 2944, col: 8, offset: 92808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4893,9 +4893,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92487},
+																				pos: position{line: 2941, col: 8, offset: 92758},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92488,
+																					line: 2941, col: 9, offset: 92759,
 																				},
 																			},
 																		},
@@ -4905,56 +4905,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 850, col: 5, offset: 27276},
+														pos: position{line: 854, col: 5, offset: 27547},
 														run: (*parser).callonDocumentFragment185,
 													},
 													&labeledExpr{
-														pos:   position{line: 853, col: 5, offset: 27368},
+														pos:   position{line: 857, col: 5, offset: 27639},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 868, col: 4, offset: 27765},
+															pos: position{line: 872, col: 4, offset: 28036},
 															expr: &actionExpr{
-																pos: position{line: 868, col: 5, offset: 27766},
+																pos: position{line: 872, col: 5, offset: 28037},
 																run: (*parser).callonDocumentFragment188,
 																expr: &seqExpr{
-																	pos: position{line: 868, col: 5, offset: 27766},
+																	pos: position{line: 872, col: 5, offset: 28037},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 868, col: 5, offset: 27766},
+																			pos: position{line: 872, col: 5, offset: 28037},
 																			expr: &choiceExpr{
-																				pos: position{line: 861, col: 5, offset: 27608},
+																				pos: position{line: 865, col: 5, offset: 27879},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 861, col: 5, offset: 27608},
+																						pos: position{line: 865, col: 5, offset: 27879},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 861, col: 5, offset: 27608},
+																								pos:   position{line: 865, col: 5, offset: 27879},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 756, col: 5, offset: 24244},
+																									pos: position{line: 760, col: 5, offset: 24515},
 																									run: (*parser).callonDocumentFragment194,
 																									expr: &seqExpr{
-																										pos: position{line: 756, col: 5, offset: 24244},
+																										pos: position{line: 760, col: 5, offset: 24515},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 756, col: 5, offset: 24244},
+																												pos:   position{line: 760, col: 5, offset: 24515},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 756, col: 16, offset: 24255},
+																													pos: position{line: 760, col: 16, offset: 24526},
 																													run: (*parser).callonDocumentFragment197,
 																													expr: &seqExpr{
-																														pos: position{line: 756, col: 16, offset: 24255},
+																														pos: position{line: 760, col: 16, offset: 24526},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 756, col: 16, offset: 24255},
+																																pos:        position{line: 760, col: 16, offset: 24526},
 																																val:        "====",
 																																ignoreCase: false,
 																																want:       "\"====\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 756, col: 23, offset: 24262},
+																																pos: position{line: 760, col: 23, offset: 24533},
 																																expr: &litMatcher{
-																																	pos:        position{line: 756, col: 23, offset: 24262},
+																																	pos:        position{line: 760, col: 23, offset: 24533},
 																																	val:        "=",
 																																	ignoreCase: false,
 																																	want:       "\"=\"",
@@ -4965,12 +4965,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 758, col: 8, offset: 24346},
+																												pos: position{line: 762, col: 8, offset: 24617},
 																												expr: &actionExpr{
-																													pos: position{line: 2918, col: 10, offset: 92139},
+																													pos: position{line: 2922, col: 10, offset: 92410},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2918, col: 10, offset: 92139},
+																														pos:        position{line: 2922, col: 10, offset: 92410},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4979,28 +4979,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2940, col: 8, offset: 92537},
+																												pos: position{line: 2944, col: 8, offset: 92808},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2927, col: 12, offset: 92310},
+																														pos: position{line: 2931, col: 12, offset: 92581},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2927, col: 13, offset: 92311},
+																															pos: position{line: 2931, col: 13, offset: 92582},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 13, offset: 92311},
+																																	pos:        position{line: 2931, col: 13, offset: 92582},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 20, offset: 92318},
+																																	pos:        position{line: 2931, col: 20, offset: 92589},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 29, offset: 92327},
+																																	pos:        position{line: 2931, col: 29, offset: 92598},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5009,9 +5009,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2937, col: 8, offset: 92487},
+																														pos: position{line: 2941, col: 8, offset: 92758},
 																														expr: &anyMatcher{
-																															line: 2937, col: 9, offset: 92488,
+																															line: 2941, col: 9, offset: 92759,
 																														},
 																													},
 																												},
@@ -5021,45 +5021,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 862, col: 5, offset: 27639},
+																								pos: position{line: 866, col: 5, offset: 27910},
 																								run: (*parser).callonDocumentFragment213,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92487},
+																						pos: position{line: 2941, col: 8, offset: 92758},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92488,
+																							line: 2941, col: 9, offset: 92759,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 869, col: 5, offset: 27796},
+																			pos:   position{line: 873, col: 5, offset: 28067},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 820, col: 5, offset: 26500},
+																				pos: position{line: 824, col: 5, offset: 26771},
 																				run: (*parser).callonDocumentFragment217,
 																				expr: &seqExpr{
-																					pos: position{line: 820, col: 5, offset: 26500},
+																					pos: position{line: 824, col: 5, offset: 26771},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2935, col: 11, offset: 92473},
+																							pos: position{line: 2939, col: 11, offset: 92744},
 																							expr: &anyMatcher{
-																								line: 2935, col: 13, offset: 92475,
+																								line: 2939, col: 13, offset: 92746,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 821, col: 5, offset: 26575},
+																							pos:   position{line: 825, col: 5, offset: 26846},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 13, offset: 90665},
+																								pos: position{line: 2868, col: 13, offset: 90936},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2864, col: 13, offset: 90665},
+																									pos: position{line: 2868, col: 13, offset: 90936},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 13, offset: 90665},
+																										pos:        position{line: 2868, col: 13, offset: 90936},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5069,28 +5069,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5099,9 +5099,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -5116,44 +5116,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 854, col: 5, offset: 27402},
+														pos:   position{line: 858, col: 5, offset: 27673},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 854, col: 9, offset: 27406},
+															pos: position{line: 858, col: 9, offset: 27677},
 															expr: &choiceExpr{
-																pos: position{line: 861, col: 5, offset: 27608},
+																pos: position{line: 865, col: 5, offset: 27879},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 861, col: 5, offset: 27608},
+																		pos: position{line: 865, col: 5, offset: 27879},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 861, col: 5, offset: 27608},
+																				pos:   position{line: 865, col: 5, offset: 27879},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 756, col: 5, offset: 24244},
+																					pos: position{line: 760, col: 5, offset: 24515},
 																					run: (*parser).callonDocumentFragment238,
 																					expr: &seqExpr{
-																						pos: position{line: 756, col: 5, offset: 24244},
+																						pos: position{line: 760, col: 5, offset: 24515},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 756, col: 5, offset: 24244},
+																								pos:   position{line: 760, col: 5, offset: 24515},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 756, col: 16, offset: 24255},
+																									pos: position{line: 760, col: 16, offset: 24526},
 																									run: (*parser).callonDocumentFragment241,
 																									expr: &seqExpr{
-																										pos: position{line: 756, col: 16, offset: 24255},
+																										pos: position{line: 760, col: 16, offset: 24526},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 756, col: 16, offset: 24255},
+																												pos:        position{line: 760, col: 16, offset: 24526},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 756, col: 23, offset: 24262},
+																												pos: position{line: 760, col: 23, offset: 24533},
 																												expr: &litMatcher{
-																													pos:        position{line: 756, col: 23, offset: 24262},
+																													pos:        position{line: 760, col: 23, offset: 24533},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -5164,12 +5164,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 758, col: 8, offset: 24346},
+																								pos: position{line: 762, col: 8, offset: 24617},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92139},
+																									pos: position{line: 2922, col: 10, offset: 92410},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92139},
+																										pos:        position{line: 2922, col: 10, offset: 92410},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5178,28 +5178,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92537},
+																								pos: position{line: 2944, col: 8, offset: 92808},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92310},
+																										pos: position{line: 2931, col: 12, offset: 92581},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92311},
+																											pos: position{line: 2931, col: 13, offset: 92582},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92311},
+																													pos:        position{line: 2931, col: 13, offset: 92582},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92318},
+																													pos:        position{line: 2931, col: 20, offset: 92589},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92327},
+																													pos:        position{line: 2931, col: 29, offset: 92598},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5208,9 +5208,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92487},
+																										pos: position{line: 2941, col: 8, offset: 92758},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92488,
+																											line: 2941, col: 9, offset: 92759,
 																										},
 																									},
 																								},
@@ -5220,15 +5220,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 862, col: 5, offset: 27639},
+																				pos: position{line: 866, col: 5, offset: 27910},
 																				run: (*parser).callonDocumentFragment257,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92487},
+																		pos: position{line: 2941, col: 8, offset: 92758},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92488,
+																			line: 2941, col: 9, offset: 92759,
 																		},
 																	},
 																},
@@ -5239,36 +5239,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 961, col: 5, offset: 30088},
+											pos: position{line: 965, col: 5, offset: 30359},
 											run: (*parser).callonDocumentFragment260,
 											expr: &seqExpr{
-												pos: position{line: 961, col: 5, offset: 30088},
+												pos: position{line: 965, col: 5, offset: 30359},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 961, col: 5, offset: 30088},
+														pos:   position{line: 965, col: 5, offset: 30359},
 														label: "delimiter",
 														expr: &actionExpr{
-															pos: position{line: 769, col: 26, offset: 24732},
+															pos: position{line: 773, col: 26, offset: 25003},
 															run: (*parser).callonDocumentFragment263,
 															expr: &seqExpr{
-																pos: position{line: 769, col: 26, offset: 24732},
+																pos: position{line: 773, col: 26, offset: 25003},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 769, col: 26, offset: 24732},
+																		pos:        position{line: 773, col: 26, offset: 25003},
 																		val:        "```",
 																		ignoreCase: false,
 																		want:       "\"```\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 769, col: 32, offset: 24738},
+																		pos:   position{line: 773, col: 32, offset: 25009},
 																		label: "language",
 																		expr: &actionExpr{
-																			pos: position{line: 773, col: 13, offset: 24868},
+																			pos: position{line: 777, col: 13, offset: 25139},
 																			run: (*parser).callonDocumentFragment267,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 773, col: 14, offset: 24869},
+																				pos: position{line: 777, col: 14, offset: 25140},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 773, col: 14, offset: 24869},
+																					pos:        position{line: 777, col: 14, offset: 25140},
 																					val:        "[^\\r\\n` ]",
 																					chars:      []rune{'\r', '\n', '`', ' '},
 																					ignoreCase: false,
@@ -5278,12 +5278,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 769, col: 52, offset: 24758},
+																		pos: position{line: 773, col: 52, offset: 25029},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92139},
+																			pos: position{line: 2922, col: 10, offset: 92410},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92139},
+																				pos:        position{line: 2922, col: 10, offset: 92410},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5292,28 +5292,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92537},
+																		pos: position{line: 2944, col: 8, offset: 92808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5322,9 +5322,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92487},
+																				pos: position{line: 2941, col: 8, offset: 92758},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92488,
+																					line: 2941, col: 9, offset: 92759,
 																				},
 																			},
 																		},
@@ -5334,34 +5334,34 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 962, col: 5, offset: 30134},
+														pos:   position{line: 966, col: 5, offset: 30405},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 975, col: 5, offset: 30607},
+															pos: position{line: 979, col: 5, offset: 30878},
 															expr: &actionExpr{
-																pos: position{line: 975, col: 6, offset: 30608},
+																pos: position{line: 979, col: 6, offset: 30879},
 																run: (*parser).callonDocumentFragment283,
 																expr: &seqExpr{
-																	pos: position{line: 975, col: 6, offset: 30608},
+																	pos: position{line: 979, col: 6, offset: 30879},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 975, col: 6, offset: 30608},
+																			pos: position{line: 979, col: 6, offset: 30879},
 																			expr: &seqExpr{
-																				pos: position{line: 972, col: 34, offset: 30555},
+																				pos: position{line: 976, col: 34, offset: 30826},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 972, col: 34, offset: 30555},
+																						pos:        position{line: 976, col: 34, offset: 30826},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 972, col: 40, offset: 30561},
+																						pos: position{line: 976, col: 40, offset: 30832},
 																						expr: &actionExpr{
-																							pos: position{line: 2918, col: 10, offset: 92139},
+																							pos: position{line: 2922, col: 10, offset: 92410},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2918, col: 10, offset: 92139},
+																								pos:        position{line: 2922, col: 10, offset: 92410},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5370,28 +5370,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92537},
+																						pos: position{line: 2944, col: 8, offset: 92808},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92310},
+																								pos: position{line: 2931, col: 12, offset: 92581},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92311},
+																									pos: position{line: 2931, col: 13, offset: 92582},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92311},
+																											pos:        position{line: 2931, col: 13, offset: 92582},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92318},
+																											pos:        position{line: 2931, col: 20, offset: 92589},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92327},
+																											pos:        position{line: 2931, col: 29, offset: 92598},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5400,9 +5400,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92487},
+																								pos: position{line: 2941, col: 8, offset: 92758},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92488,
+																									line: 2941, col: 9, offset: 92759,
 																								},
 																							},
 																						},
@@ -5411,30 +5411,30 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 976, col: 5, offset: 30643},
+																			pos:   position{line: 980, col: 5, offset: 30914},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 820, col: 5, offset: 26500},
+																				pos: position{line: 824, col: 5, offset: 26771},
 																				run: (*parser).callonDocumentFragment300,
 																				expr: &seqExpr{
-																					pos: position{line: 820, col: 5, offset: 26500},
+																					pos: position{line: 824, col: 5, offset: 26771},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2935, col: 11, offset: 92473},
+																							pos: position{line: 2939, col: 11, offset: 92744},
 																							expr: &anyMatcher{
-																								line: 2935, col: 13, offset: 92475,
+																								line: 2939, col: 13, offset: 92746,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 821, col: 5, offset: 26575},
+																							pos:   position{line: 825, col: 5, offset: 26846},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 13, offset: 90665},
+																								pos: position{line: 2868, col: 13, offset: 90936},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2864, col: 13, offset: 90665},
+																									pos: position{line: 2868, col: 13, offset: 90936},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 13, offset: 90665},
+																										pos:        position{line: 2868, col: 13, offset: 90936},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5444,28 +5444,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5474,9 +5474,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -5491,23 +5491,23 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 963, col: 5, offset: 30173},
+														pos: position{line: 967, col: 5, offset: 30444},
 														expr: &seqExpr{
-															pos: position{line: 972, col: 34, offset: 30555},
+															pos: position{line: 976, col: 34, offset: 30826},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 972, col: 34, offset: 30555},
+																	pos:        position{line: 976, col: 34, offset: 30826},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 972, col: 40, offset: 30561},
+																	pos: position{line: 976, col: 40, offset: 30832},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92139},
+																		pos: position{line: 2922, col: 10, offset: 92410},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92139},
+																			pos:        position{line: 2922, col: 10, offset: 92410},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5516,28 +5516,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92537},
+																	pos: position{line: 2944, col: 8, offset: 92808},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92310},
+																			pos: position{line: 2931, col: 12, offset: 92581},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92311},
+																				pos: position{line: 2931, col: 13, offset: 92582},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92311},
+																						pos:        position{line: 2931, col: 13, offset: 92582},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92318},
+																						pos:        position{line: 2931, col: 20, offset: 92589},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92327},
+																						pos:        position{line: 2931, col: 29, offset: 92598},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5546,9 +5546,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92487},
+																			pos: position{line: 2941, col: 8, offset: 92758},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92488,
+																				line: 2941, col: 9, offset: 92759,
 																			},
 																		},
 																	},
@@ -5560,39 +5560,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 877, col: 5, offset: 27949},
+											pos: position{line: 881, col: 5, offset: 28220},
 											run: (*parser).callonDocumentFragment330,
 											expr: &seqExpr{
-												pos: position{line: 877, col: 5, offset: 27949},
+												pos: position{line: 881, col: 5, offset: 28220},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 877, col: 5, offset: 27949},
+														pos:   position{line: 881, col: 5, offset: 28220},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 763, col: 5, offset: 24491},
+															pos: position{line: 767, col: 5, offset: 24762},
 															run: (*parser).callonDocumentFragment333,
 															expr: &seqExpr{
-																pos: position{line: 763, col: 5, offset: 24491},
+																pos: position{line: 767, col: 5, offset: 24762},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 763, col: 5, offset: 24491},
+																		pos:   position{line: 767, col: 5, offset: 24762},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 763, col: 16, offset: 24502},
+																			pos: position{line: 767, col: 16, offset: 24773},
 																			run: (*parser).callonDocumentFragment336,
 																			expr: &seqExpr{
-																				pos: position{line: 763, col: 16, offset: 24502},
+																				pos: position{line: 767, col: 16, offset: 24773},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 763, col: 16, offset: 24502},
+																						pos:        position{line: 767, col: 16, offset: 24773},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 763, col: 22, offset: 24508},
+																						pos: position{line: 767, col: 22, offset: 24779},
 																						expr: &litMatcher{
-																							pos:        position{line: 763, col: 22, offset: 24508},
+																							pos:        position{line: 767, col: 22, offset: 24779},
 																							val:        "`",
 																							ignoreCase: false,
 																							want:       "\"`\"",
@@ -5603,12 +5603,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 765, col: 8, offset: 24592},
+																		pos: position{line: 769, col: 8, offset: 24863},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92139},
+																			pos: position{line: 2922, col: 10, offset: 92410},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92139},
+																				pos:        position{line: 2922, col: 10, offset: 92410},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5617,28 +5617,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92537},
+																		pos: position{line: 2944, col: 8, offset: 92808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5647,9 +5647,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92487},
+																				pos: position{line: 2941, col: 8, offset: 92758},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92488,
+																					line: 2941, col: 9, offset: 92759,
 																				},
 																			},
 																		},
@@ -5659,56 +5659,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 878, col: 5, offset: 27987},
+														pos: position{line: 882, col: 5, offset: 28258},
 														run: (*parser).callonDocumentFragment352,
 													},
 													&labeledExpr{
-														pos:   position{line: 881, col: 5, offset: 28079},
+														pos:   position{line: 885, col: 5, offset: 28350},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 896, col: 5, offset: 28469},
+															pos: position{line: 900, col: 5, offset: 28740},
 															expr: &actionExpr{
-																pos: position{line: 896, col: 6, offset: 28470},
+																pos: position{line: 900, col: 6, offset: 28741},
 																run: (*parser).callonDocumentFragment355,
 																expr: &seqExpr{
-																	pos: position{line: 896, col: 6, offset: 28470},
+																	pos: position{line: 900, col: 6, offset: 28741},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 896, col: 6, offset: 28470},
+																			pos: position{line: 900, col: 6, offset: 28741},
 																			expr: &choiceExpr{
-																				pos: position{line: 889, col: 5, offset: 28313},
+																				pos: position{line: 893, col: 5, offset: 28584},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 889, col: 5, offset: 28313},
+																						pos: position{line: 893, col: 5, offset: 28584},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 889, col: 5, offset: 28313},
+																								pos:   position{line: 893, col: 5, offset: 28584},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 763, col: 5, offset: 24491},
+																									pos: position{line: 767, col: 5, offset: 24762},
 																									run: (*parser).callonDocumentFragment361,
 																									expr: &seqExpr{
-																										pos: position{line: 763, col: 5, offset: 24491},
+																										pos: position{line: 767, col: 5, offset: 24762},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 763, col: 5, offset: 24491},
+																												pos:   position{line: 767, col: 5, offset: 24762},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 763, col: 16, offset: 24502},
+																													pos: position{line: 767, col: 16, offset: 24773},
 																													run: (*parser).callonDocumentFragment364,
 																													expr: &seqExpr{
-																														pos: position{line: 763, col: 16, offset: 24502},
+																														pos: position{line: 767, col: 16, offset: 24773},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 763, col: 16, offset: 24502},
+																																pos:        position{line: 767, col: 16, offset: 24773},
 																																val:        "```",
 																																ignoreCase: false,
 																																want:       "\"```\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 763, col: 22, offset: 24508},
+																																pos: position{line: 767, col: 22, offset: 24779},
 																																expr: &litMatcher{
-																																	pos:        position{line: 763, col: 22, offset: 24508},
+																																	pos:        position{line: 767, col: 22, offset: 24779},
 																																	val:        "`",
 																																	ignoreCase: false,
 																																	want:       "\"`\"",
@@ -5719,12 +5719,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 765, col: 8, offset: 24592},
+																												pos: position{line: 769, col: 8, offset: 24863},
 																												expr: &actionExpr{
-																													pos: position{line: 2918, col: 10, offset: 92139},
+																													pos: position{line: 2922, col: 10, offset: 92410},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2918, col: 10, offset: 92139},
+																														pos:        position{line: 2922, col: 10, offset: 92410},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5733,28 +5733,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2940, col: 8, offset: 92537},
+																												pos: position{line: 2944, col: 8, offset: 92808},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2927, col: 12, offset: 92310},
+																														pos: position{line: 2931, col: 12, offset: 92581},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2927, col: 13, offset: 92311},
+																															pos: position{line: 2931, col: 13, offset: 92582},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 13, offset: 92311},
+																																	pos:        position{line: 2931, col: 13, offset: 92582},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 20, offset: 92318},
+																																	pos:        position{line: 2931, col: 20, offset: 92589},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 29, offset: 92327},
+																																	pos:        position{line: 2931, col: 29, offset: 92598},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5763,9 +5763,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2937, col: 8, offset: 92487},
+																														pos: position{line: 2941, col: 8, offset: 92758},
 																														expr: &anyMatcher{
-																															line: 2937, col: 9, offset: 92488,
+																															line: 2941, col: 9, offset: 92759,
 																														},
 																													},
 																												},
@@ -5775,45 +5775,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 890, col: 5, offset: 28343},
+																								pos: position{line: 894, col: 5, offset: 28614},
 																								run: (*parser).callonDocumentFragment380,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92487},
+																						pos: position{line: 2941, col: 8, offset: 92758},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92488,
+																							line: 2941, col: 9, offset: 92759,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 897, col: 5, offset: 28499},
+																			pos:   position{line: 901, col: 5, offset: 28770},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 820, col: 5, offset: 26500},
+																				pos: position{line: 824, col: 5, offset: 26771},
 																				run: (*parser).callonDocumentFragment384,
 																				expr: &seqExpr{
-																					pos: position{line: 820, col: 5, offset: 26500},
+																					pos: position{line: 824, col: 5, offset: 26771},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2935, col: 11, offset: 92473},
+																							pos: position{line: 2939, col: 11, offset: 92744},
 																							expr: &anyMatcher{
-																								line: 2935, col: 13, offset: 92475,
+																								line: 2939, col: 13, offset: 92746,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 821, col: 5, offset: 26575},
+																							pos:   position{line: 825, col: 5, offset: 26846},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 13, offset: 90665},
+																								pos: position{line: 2868, col: 13, offset: 90936},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2864, col: 13, offset: 90665},
+																									pos: position{line: 2868, col: 13, offset: 90936},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 13, offset: 90665},
+																										pos:        position{line: 2868, col: 13, offset: 90936},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5823,28 +5823,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5853,9 +5853,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -5870,44 +5870,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 882, col: 5, offset: 28112},
+														pos:   position{line: 886, col: 5, offset: 28383},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 882, col: 9, offset: 28116},
+															pos: position{line: 886, col: 9, offset: 28387},
 															expr: &choiceExpr{
-																pos: position{line: 889, col: 5, offset: 28313},
+																pos: position{line: 893, col: 5, offset: 28584},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 889, col: 5, offset: 28313},
+																		pos: position{line: 893, col: 5, offset: 28584},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 889, col: 5, offset: 28313},
+																				pos:   position{line: 893, col: 5, offset: 28584},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 763, col: 5, offset: 24491},
+																					pos: position{line: 767, col: 5, offset: 24762},
 																					run: (*parser).callonDocumentFragment405,
 																					expr: &seqExpr{
-																						pos: position{line: 763, col: 5, offset: 24491},
+																						pos: position{line: 767, col: 5, offset: 24762},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 763, col: 5, offset: 24491},
+																								pos:   position{line: 767, col: 5, offset: 24762},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 763, col: 16, offset: 24502},
+																									pos: position{line: 767, col: 16, offset: 24773},
 																									run: (*parser).callonDocumentFragment408,
 																									expr: &seqExpr{
-																										pos: position{line: 763, col: 16, offset: 24502},
+																										pos: position{line: 767, col: 16, offset: 24773},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 763, col: 16, offset: 24502},
+																												pos:        position{line: 767, col: 16, offset: 24773},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 763, col: 22, offset: 24508},
+																												pos: position{line: 767, col: 22, offset: 24779},
 																												expr: &litMatcher{
-																													pos:        position{line: 763, col: 22, offset: 24508},
+																													pos:        position{line: 767, col: 22, offset: 24779},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -5918,12 +5918,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 765, col: 8, offset: 24592},
+																								pos: position{line: 769, col: 8, offset: 24863},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92139},
+																									pos: position{line: 2922, col: 10, offset: 92410},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92139},
+																										pos:        position{line: 2922, col: 10, offset: 92410},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5932,28 +5932,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92537},
+																								pos: position{line: 2944, col: 8, offset: 92808},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92310},
+																										pos: position{line: 2931, col: 12, offset: 92581},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92311},
+																											pos: position{line: 2931, col: 13, offset: 92582},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92311},
+																													pos:        position{line: 2931, col: 13, offset: 92582},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92318},
+																													pos:        position{line: 2931, col: 20, offset: 92589},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92327},
+																													pos:        position{line: 2931, col: 29, offset: 92598},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5962,9 +5962,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92487},
+																										pos: position{line: 2941, col: 8, offset: 92758},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92488,
+																											line: 2941, col: 9, offset: 92759,
 																										},
 																									},
 																								},
@@ -5974,15 +5974,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 890, col: 5, offset: 28343},
+																				pos: position{line: 894, col: 5, offset: 28614},
 																				run: (*parser).callonDocumentFragment424,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92487},
+																		pos: position{line: 2941, col: 8, offset: 92758},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92488,
+																			line: 2941, col: 9, offset: 92759,
 																		},
 																	},
 																},
@@ -5993,39 +5993,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 905, col: 5, offset: 28654},
+											pos: position{line: 909, col: 5, offset: 28925},
 											run: (*parser).callonDocumentFragment427,
 											expr: &seqExpr{
-												pos: position{line: 905, col: 5, offset: 28654},
+												pos: position{line: 909, col: 5, offset: 28925},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 905, col: 5, offset: 28654},
+														pos:   position{line: 909, col: 5, offset: 28925},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 778, col: 5, offset: 25028},
+															pos: position{line: 782, col: 5, offset: 25299},
 															run: (*parser).callonDocumentFragment430,
 															expr: &seqExpr{
-																pos: position{line: 778, col: 5, offset: 25028},
+																pos: position{line: 782, col: 5, offset: 25299},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 778, col: 5, offset: 25028},
+																		pos:   position{line: 782, col: 5, offset: 25299},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 778, col: 16, offset: 25039},
+																			pos: position{line: 782, col: 16, offset: 25310},
 																			run: (*parser).callonDocumentFragment433,
 																			expr: &seqExpr{
-																				pos: position{line: 778, col: 16, offset: 25039},
+																				pos: position{line: 782, col: 16, offset: 25310},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 778, col: 16, offset: 25039},
+																						pos:        position{line: 782, col: 16, offset: 25310},
 																						val:        "----",
 																						ignoreCase: false,
 																						want:       "\"----\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 778, col: 23, offset: 25046},
+																						pos: position{line: 782, col: 23, offset: 25317},
 																						expr: &litMatcher{
-																							pos:        position{line: 778, col: 23, offset: 25046},
+																							pos:        position{line: 782, col: 23, offset: 25317},
 																							val:        "-",
 																							ignoreCase: false,
 																							want:       "\"-\"",
@@ -6036,12 +6036,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 780, col: 8, offset: 25130},
+																		pos: position{line: 784, col: 8, offset: 25401},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92139},
+																			pos: position{line: 2922, col: 10, offset: 92410},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92139},
+																				pos:        position{line: 2922, col: 10, offset: 92410},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6050,28 +6050,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92537},
+																		pos: position{line: 2944, col: 8, offset: 92808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6080,9 +6080,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92487},
+																				pos: position{line: 2941, col: 8, offset: 92758},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92488,
+																					line: 2941, col: 9, offset: 92759,
 																				},
 																			},
 																		},
@@ -6092,56 +6092,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 906, col: 5, offset: 28693},
+														pos: position{line: 910, col: 5, offset: 28964},
 														run: (*parser).callonDocumentFragment449,
 													},
 													&labeledExpr{
-														pos:   position{line: 909, col: 5, offset: 28785},
+														pos:   position{line: 913, col: 5, offset: 29056},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 924, col: 5, offset: 29183},
+															pos: position{line: 928, col: 5, offset: 29454},
 															expr: &actionExpr{
-																pos: position{line: 924, col: 6, offset: 29184},
+																pos: position{line: 928, col: 6, offset: 29455},
 																run: (*parser).callonDocumentFragment452,
 																expr: &seqExpr{
-																	pos: position{line: 924, col: 6, offset: 29184},
+																	pos: position{line: 928, col: 6, offset: 29455},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 924, col: 6, offset: 29184},
+																			pos: position{line: 928, col: 6, offset: 29455},
 																			expr: &choiceExpr{
-																				pos: position{line: 917, col: 5, offset: 29025},
+																				pos: position{line: 921, col: 5, offset: 29296},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 917, col: 5, offset: 29025},
+																						pos: position{line: 921, col: 5, offset: 29296},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 917, col: 5, offset: 29025},
+																								pos:   position{line: 921, col: 5, offset: 29296},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 778, col: 5, offset: 25028},
+																									pos: position{line: 782, col: 5, offset: 25299},
 																									run: (*parser).callonDocumentFragment458,
 																									expr: &seqExpr{
-																										pos: position{line: 778, col: 5, offset: 25028},
+																										pos: position{line: 782, col: 5, offset: 25299},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 778, col: 5, offset: 25028},
+																												pos:   position{line: 782, col: 5, offset: 25299},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 778, col: 16, offset: 25039},
+																													pos: position{line: 782, col: 16, offset: 25310},
 																													run: (*parser).callonDocumentFragment461,
 																													expr: &seqExpr{
-																														pos: position{line: 778, col: 16, offset: 25039},
+																														pos: position{line: 782, col: 16, offset: 25310},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 778, col: 16, offset: 25039},
+																																pos:        position{line: 782, col: 16, offset: 25310},
 																																val:        "----",
 																																ignoreCase: false,
 																																want:       "\"----\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 778, col: 23, offset: 25046},
+																																pos: position{line: 782, col: 23, offset: 25317},
 																																expr: &litMatcher{
-																																	pos:        position{line: 778, col: 23, offset: 25046},
+																																	pos:        position{line: 782, col: 23, offset: 25317},
 																																	val:        "-",
 																																	ignoreCase: false,
 																																	want:       "\"-\"",
@@ -6152,12 +6152,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 780, col: 8, offset: 25130},
+																												pos: position{line: 784, col: 8, offset: 25401},
 																												expr: &actionExpr{
-																													pos: position{line: 2918, col: 10, offset: 92139},
+																													pos: position{line: 2922, col: 10, offset: 92410},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2918, col: 10, offset: 92139},
+																														pos:        position{line: 2922, col: 10, offset: 92410},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6166,28 +6166,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2940, col: 8, offset: 92537},
+																												pos: position{line: 2944, col: 8, offset: 92808},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2927, col: 12, offset: 92310},
+																														pos: position{line: 2931, col: 12, offset: 92581},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2927, col: 13, offset: 92311},
+																															pos: position{line: 2931, col: 13, offset: 92582},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 13, offset: 92311},
+																																	pos:        position{line: 2931, col: 13, offset: 92582},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 20, offset: 92318},
+																																	pos:        position{line: 2931, col: 20, offset: 92589},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 29, offset: 92327},
+																																	pos:        position{line: 2931, col: 29, offset: 92598},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6196,9 +6196,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2937, col: 8, offset: 92487},
+																														pos: position{line: 2941, col: 8, offset: 92758},
 																														expr: &anyMatcher{
-																															line: 2937, col: 9, offset: 92488,
+																															line: 2941, col: 9, offset: 92759,
 																														},
 																													},
 																												},
@@ -6208,45 +6208,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 918, col: 5, offset: 29056},
+																								pos: position{line: 922, col: 5, offset: 29327},
 																								run: (*parser).callonDocumentFragment477,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92487},
+																						pos: position{line: 2941, col: 8, offset: 92758},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92488,
+																							line: 2941, col: 9, offset: 92759,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 925, col: 5, offset: 29214},
+																			pos:   position{line: 929, col: 5, offset: 29485},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 820, col: 5, offset: 26500},
+																				pos: position{line: 824, col: 5, offset: 26771},
 																				run: (*parser).callonDocumentFragment481,
 																				expr: &seqExpr{
-																					pos: position{line: 820, col: 5, offset: 26500},
+																					pos: position{line: 824, col: 5, offset: 26771},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2935, col: 11, offset: 92473},
+																							pos: position{line: 2939, col: 11, offset: 92744},
 																							expr: &anyMatcher{
-																								line: 2935, col: 13, offset: 92475,
+																								line: 2939, col: 13, offset: 92746,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 821, col: 5, offset: 26575},
+																							pos:   position{line: 825, col: 5, offset: 26846},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 13, offset: 90665},
+																								pos: position{line: 2868, col: 13, offset: 90936},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2864, col: 13, offset: 90665},
+																									pos: position{line: 2868, col: 13, offset: 90936},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 13, offset: 90665},
+																										pos:        position{line: 2868, col: 13, offset: 90936},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6256,28 +6256,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6286,9 +6286,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -6303,44 +6303,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 910, col: 5, offset: 28819},
+														pos:   position{line: 914, col: 5, offset: 29090},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 910, col: 9, offset: 28823},
+															pos: position{line: 914, col: 9, offset: 29094},
 															expr: &choiceExpr{
-																pos: position{line: 917, col: 5, offset: 29025},
+																pos: position{line: 921, col: 5, offset: 29296},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 917, col: 5, offset: 29025},
+																		pos: position{line: 921, col: 5, offset: 29296},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 917, col: 5, offset: 29025},
+																				pos:   position{line: 921, col: 5, offset: 29296},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 778, col: 5, offset: 25028},
+																					pos: position{line: 782, col: 5, offset: 25299},
 																					run: (*parser).callonDocumentFragment502,
 																					expr: &seqExpr{
-																						pos: position{line: 778, col: 5, offset: 25028},
+																						pos: position{line: 782, col: 5, offset: 25299},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 778, col: 5, offset: 25028},
+																								pos:   position{line: 782, col: 5, offset: 25299},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 778, col: 16, offset: 25039},
+																									pos: position{line: 782, col: 16, offset: 25310},
 																									run: (*parser).callonDocumentFragment505,
 																									expr: &seqExpr{
-																										pos: position{line: 778, col: 16, offset: 25039},
+																										pos: position{line: 782, col: 16, offset: 25310},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 778, col: 16, offset: 25039},
+																												pos:        position{line: 782, col: 16, offset: 25310},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 778, col: 23, offset: 25046},
+																												pos: position{line: 782, col: 23, offset: 25317},
 																												expr: &litMatcher{
-																													pos:        position{line: 778, col: 23, offset: 25046},
+																													pos:        position{line: 782, col: 23, offset: 25317},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -6351,12 +6351,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 780, col: 8, offset: 25130},
+																								pos: position{line: 784, col: 8, offset: 25401},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92139},
+																									pos: position{line: 2922, col: 10, offset: 92410},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92139},
+																										pos:        position{line: 2922, col: 10, offset: 92410},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6365,28 +6365,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92537},
+																								pos: position{line: 2944, col: 8, offset: 92808},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92310},
+																										pos: position{line: 2931, col: 12, offset: 92581},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92311},
+																											pos: position{line: 2931, col: 13, offset: 92582},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92311},
+																													pos:        position{line: 2931, col: 13, offset: 92582},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92318},
+																													pos:        position{line: 2931, col: 20, offset: 92589},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92327},
+																													pos:        position{line: 2931, col: 29, offset: 92598},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6395,9 +6395,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92487},
+																										pos: position{line: 2941, col: 8, offset: 92758},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92488,
+																											line: 2941, col: 9, offset: 92759,
 																										},
 																									},
 																								},
@@ -6407,15 +6407,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 918, col: 5, offset: 29056},
+																				pos: position{line: 922, col: 5, offset: 29327},
 																				run: (*parser).callonDocumentFragment521,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92487},
+																		pos: position{line: 2941, col: 8, offset: 92758},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92488,
+																			line: 2941, col: 9, offset: 92759,
 																		},
 																	},
 																},
@@ -6426,39 +6426,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 933, col: 5, offset: 29369},
+											pos: position{line: 937, col: 5, offset: 29640},
 											run: (*parser).callonDocumentFragment524,
 											expr: &seqExpr{
-												pos: position{line: 933, col: 5, offset: 29369},
+												pos: position{line: 937, col: 5, offset: 29640},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 933, col: 5, offset: 29369},
+														pos:   position{line: 937, col: 5, offset: 29640},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 792, col: 5, offset: 25504},
+															pos: position{line: 796, col: 5, offset: 25775},
 															run: (*parser).callonDocumentFragment527,
 															expr: &seqExpr{
-																pos: position{line: 792, col: 5, offset: 25504},
+																pos: position{line: 796, col: 5, offset: 25775},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 792, col: 5, offset: 25504},
+																		pos:   position{line: 796, col: 5, offset: 25775},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 792, col: 16, offset: 25515},
+																			pos: position{line: 796, col: 16, offset: 25786},
 																			run: (*parser).callonDocumentFragment530,
 																			expr: &seqExpr{
-																				pos: position{line: 792, col: 16, offset: 25515},
+																				pos: position{line: 796, col: 16, offset: 25786},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 792, col: 16, offset: 25515},
+																						pos:        position{line: 796, col: 16, offset: 25786},
 																						val:        "....",
 																						ignoreCase: false,
 																						want:       "\"....\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 792, col: 23, offset: 25522},
+																						pos: position{line: 796, col: 23, offset: 25793},
 																						expr: &litMatcher{
-																							pos:        position{line: 792, col: 23, offset: 25522},
+																							pos:        position{line: 796, col: 23, offset: 25793},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -6469,12 +6469,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 794, col: 8, offset: 25606},
+																		pos: position{line: 798, col: 8, offset: 25877},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92139},
+																			pos: position{line: 2922, col: 10, offset: 92410},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92139},
+																				pos:        position{line: 2922, col: 10, offset: 92410},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6483,28 +6483,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92537},
+																		pos: position{line: 2944, col: 8, offset: 92808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6513,9 +6513,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92487},
+																				pos: position{line: 2941, col: 8, offset: 92758},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92488,
+																					line: 2941, col: 9, offset: 92759,
 																				},
 																			},
 																		},
@@ -6525,56 +6525,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 934, col: 5, offset: 29408},
+														pos: position{line: 938, col: 5, offset: 29679},
 														run: (*parser).callonDocumentFragment546,
 													},
 													&labeledExpr{
-														pos:   position{line: 937, col: 5, offset: 29500},
+														pos:   position{line: 941, col: 5, offset: 29771},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 952, col: 5, offset: 29898},
+															pos: position{line: 956, col: 5, offset: 30169},
 															expr: &actionExpr{
-																pos: position{line: 952, col: 6, offset: 29899},
+																pos: position{line: 956, col: 6, offset: 30170},
 																run: (*parser).callonDocumentFragment549,
 																expr: &seqExpr{
-																	pos: position{line: 952, col: 6, offset: 29899},
+																	pos: position{line: 956, col: 6, offset: 30170},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 952, col: 6, offset: 29899},
+																			pos: position{line: 956, col: 6, offset: 30170},
 																			expr: &choiceExpr{
-																				pos: position{line: 945, col: 5, offset: 29740},
+																				pos: position{line: 949, col: 5, offset: 30011},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 945, col: 5, offset: 29740},
+																						pos: position{line: 949, col: 5, offset: 30011},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 945, col: 5, offset: 29740},
+																								pos:   position{line: 949, col: 5, offset: 30011},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 792, col: 5, offset: 25504},
+																									pos: position{line: 796, col: 5, offset: 25775},
 																									run: (*parser).callonDocumentFragment555,
 																									expr: &seqExpr{
-																										pos: position{line: 792, col: 5, offset: 25504},
+																										pos: position{line: 796, col: 5, offset: 25775},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 792, col: 5, offset: 25504},
+																												pos:   position{line: 796, col: 5, offset: 25775},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 792, col: 16, offset: 25515},
+																													pos: position{line: 796, col: 16, offset: 25786},
 																													run: (*parser).callonDocumentFragment558,
 																													expr: &seqExpr{
-																														pos: position{line: 792, col: 16, offset: 25515},
+																														pos: position{line: 796, col: 16, offset: 25786},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 792, col: 16, offset: 25515},
+																																pos:        position{line: 796, col: 16, offset: 25786},
 																																val:        "....",
 																																ignoreCase: false,
 																																want:       "\"....\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 792, col: 23, offset: 25522},
+																																pos: position{line: 796, col: 23, offset: 25793},
 																																expr: &litMatcher{
-																																	pos:        position{line: 792, col: 23, offset: 25522},
+																																	pos:        position{line: 796, col: 23, offset: 25793},
 																																	val:        ".",
 																																	ignoreCase: false,
 																																	want:       "\".\"",
@@ -6585,12 +6585,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 794, col: 8, offset: 25606},
+																												pos: position{line: 798, col: 8, offset: 25877},
 																												expr: &actionExpr{
-																													pos: position{line: 2918, col: 10, offset: 92139},
+																													pos: position{line: 2922, col: 10, offset: 92410},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2918, col: 10, offset: 92139},
+																														pos:        position{line: 2922, col: 10, offset: 92410},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6599,28 +6599,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2940, col: 8, offset: 92537},
+																												pos: position{line: 2944, col: 8, offset: 92808},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2927, col: 12, offset: 92310},
+																														pos: position{line: 2931, col: 12, offset: 92581},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2927, col: 13, offset: 92311},
+																															pos: position{line: 2931, col: 13, offset: 92582},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 13, offset: 92311},
+																																	pos:        position{line: 2931, col: 13, offset: 92582},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 20, offset: 92318},
+																																	pos:        position{line: 2931, col: 20, offset: 92589},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 29, offset: 92327},
+																																	pos:        position{line: 2931, col: 29, offset: 92598},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6629,9 +6629,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2937, col: 8, offset: 92487},
+																														pos: position{line: 2941, col: 8, offset: 92758},
 																														expr: &anyMatcher{
-																															line: 2937, col: 9, offset: 92488,
+																															line: 2941, col: 9, offset: 92759,
 																														},
 																													},
 																												},
@@ -6641,45 +6641,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 946, col: 5, offset: 29771},
+																								pos: position{line: 950, col: 5, offset: 30042},
 																								run: (*parser).callonDocumentFragment574,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92487},
+																						pos: position{line: 2941, col: 8, offset: 92758},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92488,
+																							line: 2941, col: 9, offset: 92759,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 953, col: 5, offset: 29929},
+																			pos:   position{line: 957, col: 5, offset: 30200},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 820, col: 5, offset: 26500},
+																				pos: position{line: 824, col: 5, offset: 26771},
 																				run: (*parser).callonDocumentFragment578,
 																				expr: &seqExpr{
-																					pos: position{line: 820, col: 5, offset: 26500},
+																					pos: position{line: 824, col: 5, offset: 26771},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2935, col: 11, offset: 92473},
+																							pos: position{line: 2939, col: 11, offset: 92744},
 																							expr: &anyMatcher{
-																								line: 2935, col: 13, offset: 92475,
+																								line: 2939, col: 13, offset: 92746,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 821, col: 5, offset: 26575},
+																							pos:   position{line: 825, col: 5, offset: 26846},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 13, offset: 90665},
+																								pos: position{line: 2868, col: 13, offset: 90936},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2864, col: 13, offset: 90665},
+																									pos: position{line: 2868, col: 13, offset: 90936},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 13, offset: 90665},
+																										pos:        position{line: 2868, col: 13, offset: 90936},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6689,28 +6689,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6719,9 +6719,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -6736,44 +6736,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 938, col: 5, offset: 29534},
+														pos:   position{line: 942, col: 5, offset: 29805},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 938, col: 9, offset: 29538},
+															pos: position{line: 942, col: 9, offset: 29809},
 															expr: &choiceExpr{
-																pos: position{line: 945, col: 5, offset: 29740},
+																pos: position{line: 949, col: 5, offset: 30011},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 945, col: 5, offset: 29740},
+																		pos: position{line: 949, col: 5, offset: 30011},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 945, col: 5, offset: 29740},
+																				pos:   position{line: 949, col: 5, offset: 30011},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 792, col: 5, offset: 25504},
+																					pos: position{line: 796, col: 5, offset: 25775},
 																					run: (*parser).callonDocumentFragment599,
 																					expr: &seqExpr{
-																						pos: position{line: 792, col: 5, offset: 25504},
+																						pos: position{line: 796, col: 5, offset: 25775},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 792, col: 5, offset: 25504},
+																								pos:   position{line: 796, col: 5, offset: 25775},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 792, col: 16, offset: 25515},
+																									pos: position{line: 796, col: 16, offset: 25786},
 																									run: (*parser).callonDocumentFragment602,
 																									expr: &seqExpr{
-																										pos: position{line: 792, col: 16, offset: 25515},
+																										pos: position{line: 796, col: 16, offset: 25786},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 792, col: 16, offset: 25515},
+																												pos:        position{line: 796, col: 16, offset: 25786},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 792, col: 23, offset: 25522},
+																												pos: position{line: 796, col: 23, offset: 25793},
 																												expr: &litMatcher{
-																													pos:        position{line: 792, col: 23, offset: 25522},
+																													pos:        position{line: 796, col: 23, offset: 25793},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -6784,12 +6784,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 794, col: 8, offset: 25606},
+																								pos: position{line: 798, col: 8, offset: 25877},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92139},
+																									pos: position{line: 2922, col: 10, offset: 92410},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92139},
+																										pos:        position{line: 2922, col: 10, offset: 92410},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6798,28 +6798,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92537},
+																								pos: position{line: 2944, col: 8, offset: 92808},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92310},
+																										pos: position{line: 2931, col: 12, offset: 92581},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92311},
+																											pos: position{line: 2931, col: 13, offset: 92582},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92311},
+																													pos:        position{line: 2931, col: 13, offset: 92582},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92318},
+																													pos:        position{line: 2931, col: 20, offset: 92589},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92327},
+																													pos:        position{line: 2931, col: 29, offset: 92598},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6828,9 +6828,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92487},
+																										pos: position{line: 2941, col: 8, offset: 92758},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92488,
+																											line: 2941, col: 9, offset: 92759,
 																										},
 																									},
 																								},
@@ -6840,15 +6840,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 946, col: 5, offset: 29771},
+																				pos: position{line: 950, col: 5, offset: 30042},
 																				run: (*parser).callonDocumentFragment618,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92487},
+																		pos: position{line: 2941, col: 8, offset: 92758},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92488,
+																			line: 2941, col: 9, offset: 92759,
 																		},
 																	},
 																},
@@ -6859,41 +6859,41 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 984, col: 5, offset: 30812},
+											pos: position{line: 988, col: 5, offset: 31083},
 											run: (*parser).callonDocumentFragment621,
 											expr: &seqExpr{
-												pos: position{line: 984, col: 5, offset: 30812},
+												pos: position{line: 988, col: 5, offset: 31083},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 984, col: 5, offset: 30812},
+														pos:   position{line: 988, col: 5, offset: 31083},
 														label: "firstLine",
 														expr: &actionExpr{
-															pos: position{line: 991, col: 5, offset: 31071},
+															pos: position{line: 995, col: 5, offset: 31342},
 															run: (*parser).callonDocumentFragment624,
 															expr: &seqExpr{
-																pos: position{line: 991, col: 5, offset: 31071},
+																pos: position{line: 995, col: 5, offset: 31342},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 991, col: 5, offset: 31071},
+																		pos: position{line: 995, col: 5, offset: 31342},
 																		expr: &actionExpr{
-																			pos: position{line: 686, col: 14, offset: 21901},
+																			pos: position{line: 690, col: 14, offset: 22172},
 																			run: (*parser).callonDocumentFragment627,
 																			expr: &seqExpr{
-																				pos: position{line: 686, col: 14, offset: 21901},
+																				pos: position{line: 690, col: 14, offset: 22172},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2935, col: 11, offset: 92473},
+																						pos: position{line: 2939, col: 11, offset: 92744},
 																						expr: &anyMatcher{
-																							line: 2935, col: 13, offset: 92475,
+																							line: 2939, col: 13, offset: 92746,
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 686, col: 21, offset: 21908},
+																						pos: position{line: 690, col: 21, offset: 22179},
 																						expr: &actionExpr{
-																							pos: position{line: 2918, col: 10, offset: 92139},
+																							pos: position{line: 2922, col: 10, offset: 92410},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2918, col: 10, offset: 92139},
+																								pos:        position{line: 2922, col: 10, offset: 92410},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6902,28 +6902,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92537},
+																						pos: position{line: 2944, col: 8, offset: 92808},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92310},
+																								pos: position{line: 2931, col: 12, offset: 92581},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92311},
+																									pos: position{line: 2931, col: 13, offset: 92582},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92311},
+																											pos:        position{line: 2931, col: 13, offset: 92582},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92318},
+																											pos:        position{line: 2931, col: 20, offset: 92589},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92327},
+																											pos:        position{line: 2931, col: 29, offset: 92598},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6932,9 +6932,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92487},
+																								pos: position{line: 2941, col: 8, offset: 92758},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92488,
+																									line: 2941, col: 9, offset: 92759,
 																								},
 																							},
 																						},
@@ -6944,21 +6944,21 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 992, col: 5, offset: 31086},
+																		pos:        position{line: 996, col: 5, offset: 31357},
 																		val:        "> ",
 																		ignoreCase: false,
 																		want:       "\"> \"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 993, col: 5, offset: 31096},
+																		pos:   position{line: 997, col: 5, offset: 31367},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 14, offset: 90732},
+																			pos: position{line: 2872, col: 14, offset: 91003},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2868, col: 14, offset: 90732},
+																				pos: position{line: 2872, col: 14, offset: 91003},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 14, offset: 90732},
+																					pos:        position{line: 2872, col: 14, offset: 91003},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -6968,28 +6968,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92537},
+																		pos: position{line: 2944, col: 8, offset: 92808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6998,9 +6998,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92487},
+																				pos: position{line: 2941, col: 8, offset: 92758},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92488,
+																					line: 2941, col: 9, offset: 92759,
 																				},
 																			},
 																		},
@@ -7010,40 +7010,40 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 985, col: 5, offset: 30849},
+														pos:   position{line: 989, col: 5, offset: 31120},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 985, col: 16, offset: 30860},
+															pos: position{line: 989, col: 16, offset: 31131},
 															expr: &choiceExpr{
-																pos: position{line: 985, col: 17, offset: 30861},
+																pos: position{line: 989, col: 17, offset: 31132},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 991, col: 5, offset: 31071},
+																		pos: position{line: 995, col: 5, offset: 31342},
 																		run: (*parser).callonDocumentFragment658,
 																		expr: &seqExpr{
-																			pos: position{line: 991, col: 5, offset: 31071},
+																			pos: position{line: 995, col: 5, offset: 31342},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 991, col: 5, offset: 31071},
+																					pos: position{line: 995, col: 5, offset: 31342},
 																					expr: &actionExpr{
-																						pos: position{line: 686, col: 14, offset: 21901},
+																						pos: position{line: 690, col: 14, offset: 22172},
 																						run: (*parser).callonDocumentFragment661,
 																						expr: &seqExpr{
-																							pos: position{line: 686, col: 14, offset: 21901},
+																							pos: position{line: 690, col: 14, offset: 22172},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2935, col: 11, offset: 92473},
+																									pos: position{line: 2939, col: 11, offset: 92744},
 																									expr: &anyMatcher{
-																										line: 2935, col: 13, offset: 92475,
+																										line: 2939, col: 13, offset: 92746,
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 686, col: 21, offset: 21908},
+																									pos: position{line: 690, col: 21, offset: 22179},
 																									expr: &actionExpr{
-																										pos: position{line: 2918, col: 10, offset: 92139},
+																										pos: position{line: 2922, col: 10, offset: 92410},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2918, col: 10, offset: 92139},
+																											pos:        position{line: 2922, col: 10, offset: 92410},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7052,28 +7052,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92537},
+																									pos: position{line: 2944, col: 8, offset: 92808},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92310},
+																											pos: position{line: 2931, col: 12, offset: 92581},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92311},
+																												pos: position{line: 2931, col: 13, offset: 92582},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92311},
+																														pos:        position{line: 2931, col: 13, offset: 92582},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92318},
+																														pos:        position{line: 2931, col: 20, offset: 92589},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92327},
+																														pos:        position{line: 2931, col: 29, offset: 92598},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7082,9 +7082,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92487},
+																											pos: position{line: 2941, col: 8, offset: 92758},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92488,
+																												line: 2941, col: 9, offset: 92759,
 																											},
 																										},
 																									},
@@ -7094,21 +7094,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 992, col: 5, offset: 31086},
+																					pos:        position{line: 996, col: 5, offset: 31357},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 993, col: 5, offset: 31096},
+																					pos:   position{line: 997, col: 5, offset: 31367},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2868, col: 14, offset: 90732},
+																						pos: position{line: 2872, col: 14, offset: 91003},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2868, col: 14, offset: 90732},
+																							pos: position{line: 2872, col: 14, offset: 91003},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 14, offset: 90732},
+																								pos:        position{line: 2872, col: 14, offset: 91003},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7118,28 +7118,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2940, col: 8, offset: 92537},
+																					pos: position{line: 2944, col: 8, offset: 92808},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2927, col: 12, offset: 92310},
+																							pos: position{line: 2931, col: 12, offset: 92581},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2927, col: 13, offset: 92311},
+																								pos: position{line: 2931, col: 13, offset: 92582},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 13, offset: 92311},
+																										pos:        position{line: 2931, col: 13, offset: 92582},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 20, offset: 92318},
+																										pos:        position{line: 2931, col: 20, offset: 92589},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 29, offset: 92327},
+																										pos:        position{line: 2931, col: 29, offset: 92598},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7148,9 +7148,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2937, col: 8, offset: 92487},
+																							pos: position{line: 2941, col: 8, offset: 92758},
 																							expr: &anyMatcher{
-																								line: 2937, col: 9, offset: 92488,
+																								line: 2941, col: 9, offset: 92759,
 																							},
 																						},
 																					},
@@ -7159,21 +7159,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1800, col: 5, offset: 58199},
+																		pos: position{line: 1804, col: 5, offset: 58470},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1800, col: 5, offset: 58199},
+																			pos: position{line: 1804, col: 5, offset: 58470},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1800, col: 5, offset: 58199},
+																					pos:   position{line: 1804, col: 5, offset: 58470},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2868, col: 14, offset: 90732},
+																						pos: position{line: 2872, col: 14, offset: 91003},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2868, col: 14, offset: 90732},
+																							pos: position{line: 2872, col: 14, offset: 91003},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 14, offset: 90732},
+																								pos:        position{line: 2872, col: 14, offset: 91003},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7183,32 +7183,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1801, col: 5, offset: 58223},
+																					pos: position{line: 1805, col: 5, offset: 58494},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2940, col: 8, offset: 92537},
+																					pos: position{line: 2944, col: 8, offset: 92808},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2927, col: 12, offset: 92310},
+																							pos: position{line: 2931, col: 12, offset: 92581},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2927, col: 13, offset: 92311},
+																								pos: position{line: 2931, col: 13, offset: 92582},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 13, offset: 92311},
+																										pos:        position{line: 2931, col: 13, offset: 92582},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 20, offset: 92318},
+																										pos:        position{line: 2931, col: 20, offset: 92589},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 29, offset: 92327},
+																										pos:        position{line: 2931, col: 29, offset: 92598},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7217,9 +7217,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2937, col: 8, offset: 92487},
+																							pos: position{line: 2941, col: 8, offset: 92758},
 																							expr: &anyMatcher{
-																								line: 2937, col: 9, offset: 92488,
+																								line: 2941, col: 9, offset: 92759,
 																							},
 																						},
 																					},
@@ -7235,28 +7235,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1006, col: 5, offset: 31361},
+											pos: position{line: 1010, col: 5, offset: 31632},
 											run: (*parser).callonDocumentFragment704,
 											expr: &seqExpr{
-												pos: position{line: 1006, col: 5, offset: 31361},
+												pos: position{line: 1010, col: 5, offset: 31632},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1006, col: 5, offset: 31361},
+														pos:   position{line: 1010, col: 5, offset: 31632},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 785, col: 5, offset: 25273},
+															pos: position{line: 789, col: 5, offset: 25544},
 															run: (*parser).callonDocumentFragment707,
 															expr: &seqExpr{
-																pos: position{line: 785, col: 5, offset: 25273},
+																pos: position{line: 789, col: 5, offset: 25544},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 785, col: 5, offset: 25273},
+																		pos:   position{line: 789, col: 5, offset: 25544},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 785, col: 16, offset: 25284},
+																			pos: position{line: 789, col: 16, offset: 25555},
 																			run: (*parser).callonDocumentFragment710,
 																			expr: &litMatcher{
-																				pos:        position{line: 785, col: 16, offset: 25284},
+																				pos:        position{line: 789, col: 16, offset: 25555},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -7264,12 +7264,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 787, col: 8, offset: 25361},
+																		pos: position{line: 791, col: 8, offset: 25632},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92139},
+																			pos: position{line: 2922, col: 10, offset: 92410},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92139},
+																				pos:        position{line: 2922, col: 10, offset: 92410},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7278,28 +7278,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92537},
+																		pos: position{line: 2944, col: 8, offset: 92808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7308,9 +7308,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92487},
+																				pos: position{line: 2941, col: 8, offset: 92758},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92488,
+																					line: 2941, col: 9, offset: 92759,
 																				},
 																			},
 																		},
@@ -7320,35 +7320,35 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1007, col: 5, offset: 31397},
+														pos:   position{line: 1011, col: 5, offset: 31668},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1017, col: 5, offset: 31665},
+															pos: position{line: 1021, col: 5, offset: 31936},
 															expr: &actionExpr{
-																pos: position{line: 1017, col: 6, offset: 31666},
+																pos: position{line: 1021, col: 6, offset: 31937},
 																run: (*parser).callonDocumentFragment725,
 																expr: &seqExpr{
-																	pos: position{line: 1017, col: 6, offset: 31666},
+																	pos: position{line: 1021, col: 6, offset: 31937},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1017, col: 6, offset: 31666},
+																			pos: position{line: 1021, col: 6, offset: 31937},
 																			expr: &choiceExpr{
-																				pos: position{line: 1014, col: 26, offset: 31614},
+																				pos: position{line: 1018, col: 26, offset: 31885},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 785, col: 5, offset: 25273},
+																						pos: position{line: 789, col: 5, offset: 25544},
 																						run: (*parser).callonDocumentFragment729,
 																						expr: &seqExpr{
-																							pos: position{line: 785, col: 5, offset: 25273},
+																							pos: position{line: 789, col: 5, offset: 25544},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 785, col: 5, offset: 25273},
+																									pos:   position{line: 789, col: 5, offset: 25544},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 785, col: 16, offset: 25284},
+																										pos: position{line: 789, col: 16, offset: 25555},
 																										run: (*parser).callonDocumentFragment732,
 																										expr: &litMatcher{
-																											pos:        position{line: 785, col: 16, offset: 25284},
+																											pos:        position{line: 789, col: 16, offset: 25555},
 																											val:        "--",
 																											ignoreCase: false,
 																											want:       "\"--\"",
@@ -7356,12 +7356,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 787, col: 8, offset: 25361},
+																									pos: position{line: 791, col: 8, offset: 25632},
 																									expr: &actionExpr{
-																										pos: position{line: 2918, col: 10, offset: 92139},
+																										pos: position{line: 2922, col: 10, offset: 92410},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2918, col: 10, offset: 92139},
+																											pos:        position{line: 2922, col: 10, offset: 92410},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7370,28 +7370,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92537},
+																									pos: position{line: 2944, col: 8, offset: 92808},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92310},
+																											pos: position{line: 2931, col: 12, offset: 92581},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92311},
+																												pos: position{line: 2931, col: 13, offset: 92582},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92311},
+																														pos:        position{line: 2931, col: 13, offset: 92582},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92318},
+																														pos:        position{line: 2931, col: 20, offset: 92589},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92327},
+																														pos:        position{line: 2931, col: 29, offset: 92598},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7400,9 +7400,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92487},
+																											pos: position{line: 2941, col: 8, offset: 92758},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92488,
+																												line: 2941, col: 9, offset: 92759,
 																											},
 																										},
 																									},
@@ -7411,39 +7411,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92487},
+																						pos: position{line: 2941, col: 8, offset: 92758},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92488,
+																							line: 2941, col: 9, offset: 92759,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1018, col: 5, offset: 31693},
+																			pos:   position{line: 1022, col: 5, offset: 31964},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 820, col: 5, offset: 26500},
+																				pos: position{line: 824, col: 5, offset: 26771},
 																				run: (*parser).callonDocumentFragment748,
 																				expr: &seqExpr{
-																					pos: position{line: 820, col: 5, offset: 26500},
+																					pos: position{line: 824, col: 5, offset: 26771},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2935, col: 11, offset: 92473},
+																							pos: position{line: 2939, col: 11, offset: 92744},
 																							expr: &anyMatcher{
-																								line: 2935, col: 13, offset: 92475,
+																								line: 2939, col: 13, offset: 92746,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 821, col: 5, offset: 26575},
+																							pos:   position{line: 825, col: 5, offset: 26846},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 13, offset: 90665},
+																								pos: position{line: 2868, col: 13, offset: 90936},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2864, col: 13, offset: 90665},
+																									pos: position{line: 2868, col: 13, offset: 90936},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 13, offset: 90665},
+																										pos:        position{line: 2868, col: 13, offset: 90936},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7453,28 +7453,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7483,9 +7483,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -7500,27 +7500,27 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1008, col: 5, offset: 31428},
+														pos:   position{line: 1012, col: 5, offset: 31699},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1008, col: 9, offset: 31432},
+															pos: position{line: 1012, col: 9, offset: 31703},
 															expr: &choiceExpr{
-																pos: position{line: 1014, col: 26, offset: 31614},
+																pos: position{line: 1018, col: 26, offset: 31885},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 785, col: 5, offset: 25273},
+																		pos: position{line: 789, col: 5, offset: 25544},
 																		run: (*parser).callonDocumentFragment767,
 																		expr: &seqExpr{
-																			pos: position{line: 785, col: 5, offset: 25273},
+																			pos: position{line: 789, col: 5, offset: 25544},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 785, col: 5, offset: 25273},
+																					pos:   position{line: 789, col: 5, offset: 25544},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 785, col: 16, offset: 25284},
+																						pos: position{line: 789, col: 16, offset: 25555},
 																						run: (*parser).callonDocumentFragment770,
 																						expr: &litMatcher{
-																							pos:        position{line: 785, col: 16, offset: 25284},
+																							pos:        position{line: 789, col: 16, offset: 25555},
 																							val:        "--",
 																							ignoreCase: false,
 																							want:       "\"--\"",
@@ -7528,12 +7528,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 787, col: 8, offset: 25361},
+																					pos: position{line: 791, col: 8, offset: 25632},
 																					expr: &actionExpr{
-																						pos: position{line: 2918, col: 10, offset: 92139},
+																						pos: position{line: 2922, col: 10, offset: 92410},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2918, col: 10, offset: 92139},
+																							pos:        position{line: 2922, col: 10, offset: 92410},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7542,28 +7542,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2940, col: 8, offset: 92537},
+																					pos: position{line: 2944, col: 8, offset: 92808},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2927, col: 12, offset: 92310},
+																							pos: position{line: 2931, col: 12, offset: 92581},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2927, col: 13, offset: 92311},
+																								pos: position{line: 2931, col: 13, offset: 92582},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 13, offset: 92311},
+																										pos:        position{line: 2931, col: 13, offset: 92582},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 20, offset: 92318},
+																										pos:        position{line: 2931, col: 20, offset: 92589},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 29, offset: 92327},
+																										pos:        position{line: 2931, col: 29, offset: 92598},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7572,9 +7572,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2937, col: 8, offset: 92487},
+																							pos: position{line: 2941, col: 8, offset: 92758},
 																							expr: &anyMatcher{
-																								line: 2937, col: 9, offset: 92488,
+																								line: 2941, col: 9, offset: 92759,
 																							},
 																						},
 																					},
@@ -7583,9 +7583,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92487},
+																		pos: position{line: 2941, col: 8, offset: 92758},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92488,
+																			line: 2941, col: 9, offset: 92759,
 																		},
 																	},
 																},
@@ -7596,39 +7596,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1026, col: 5, offset: 31856},
+											pos: position{line: 1030, col: 5, offset: 32127},
 											run: (*parser).callonDocumentFragment785,
 											expr: &seqExpr{
-												pos: position{line: 1026, col: 5, offset: 31856},
+												pos: position{line: 1030, col: 5, offset: 32127},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1026, col: 5, offset: 31856},
+														pos:   position{line: 1030, col: 5, offset: 32127},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 799, col: 5, offset: 25756},
+															pos: position{line: 803, col: 5, offset: 26027},
 															run: (*parser).callonDocumentFragment788,
 															expr: &seqExpr{
-																pos: position{line: 799, col: 5, offset: 25756},
+																pos: position{line: 803, col: 5, offset: 26027},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 799, col: 5, offset: 25756},
+																		pos:   position{line: 803, col: 5, offset: 26027},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 799, col: 16, offset: 25767},
+																			pos: position{line: 803, col: 16, offset: 26038},
 																			run: (*parser).callonDocumentFragment791,
 																			expr: &seqExpr{
-																				pos: position{line: 799, col: 16, offset: 25767},
+																				pos: position{line: 803, col: 16, offset: 26038},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 799, col: 16, offset: 25767},
+																						pos:        position{line: 803, col: 16, offset: 26038},
 																						val:        "++++",
 																						ignoreCase: false,
 																						want:       "\"++++\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 799, col: 23, offset: 25774},
+																						pos: position{line: 803, col: 23, offset: 26045},
 																						expr: &litMatcher{
-																							pos:        position{line: 799, col: 23, offset: 25774},
+																							pos:        position{line: 803, col: 23, offset: 26045},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
@@ -7639,12 +7639,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 801, col: 8, offset: 25858},
+																		pos: position{line: 805, col: 8, offset: 26129},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92139},
+																			pos: position{line: 2922, col: 10, offset: 92410},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92139},
+																				pos:        position{line: 2922, col: 10, offset: 92410},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7653,28 +7653,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92537},
+																		pos: position{line: 2944, col: 8, offset: 92808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7683,9 +7683,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92487},
+																				pos: position{line: 2941, col: 8, offset: 92758},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92488,
+																					line: 2941, col: 9, offset: 92759,
 																				},
 																			},
 																		},
@@ -7695,56 +7695,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1027, col: 5, offset: 31899},
+														pos: position{line: 1031, col: 5, offset: 32170},
 														run: (*parser).callonDocumentFragment807,
 													},
 													&labeledExpr{
-														pos:   position{line: 1030, col: 5, offset: 31991},
+														pos:   position{line: 1034, col: 5, offset: 32262},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1045, col: 5, offset: 32421},
+															pos: position{line: 1049, col: 5, offset: 32692},
 															expr: &actionExpr{
-																pos: position{line: 1045, col: 6, offset: 32422},
+																pos: position{line: 1049, col: 6, offset: 32693},
 																run: (*parser).callonDocumentFragment810,
 																expr: &seqExpr{
-																	pos: position{line: 1045, col: 6, offset: 32422},
+																	pos: position{line: 1049, col: 6, offset: 32693},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1045, col: 6, offset: 32422},
+																			pos: position{line: 1049, col: 6, offset: 32693},
 																			expr: &choiceExpr{
-																				pos: position{line: 1038, col: 5, offset: 32255},
+																				pos: position{line: 1042, col: 5, offset: 32526},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1038, col: 5, offset: 32255},
+																						pos: position{line: 1042, col: 5, offset: 32526},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1038, col: 5, offset: 32255},
+																								pos:   position{line: 1042, col: 5, offset: 32526},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 799, col: 5, offset: 25756},
+																									pos: position{line: 803, col: 5, offset: 26027},
 																									run: (*parser).callonDocumentFragment816,
 																									expr: &seqExpr{
-																										pos: position{line: 799, col: 5, offset: 25756},
+																										pos: position{line: 803, col: 5, offset: 26027},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 799, col: 5, offset: 25756},
+																												pos:   position{line: 803, col: 5, offset: 26027},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 799, col: 16, offset: 25767},
+																													pos: position{line: 803, col: 16, offset: 26038},
 																													run: (*parser).callonDocumentFragment819,
 																													expr: &seqExpr{
-																														pos: position{line: 799, col: 16, offset: 25767},
+																														pos: position{line: 803, col: 16, offset: 26038},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 799, col: 16, offset: 25767},
+																																pos:        position{line: 803, col: 16, offset: 26038},
 																																val:        "++++",
 																																ignoreCase: false,
 																																want:       "\"++++\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 799, col: 23, offset: 25774},
+																																pos: position{line: 803, col: 23, offset: 26045},
 																																expr: &litMatcher{
-																																	pos:        position{line: 799, col: 23, offset: 25774},
+																																	pos:        position{line: 803, col: 23, offset: 26045},
 																																	val:        "+",
 																																	ignoreCase: false,
 																																	want:       "\"+\"",
@@ -7755,12 +7755,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 801, col: 8, offset: 25858},
+																												pos: position{line: 805, col: 8, offset: 26129},
 																												expr: &actionExpr{
-																													pos: position{line: 2918, col: 10, offset: 92139},
+																													pos: position{line: 2922, col: 10, offset: 92410},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2918, col: 10, offset: 92139},
+																														pos:        position{line: 2922, col: 10, offset: 92410},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7769,28 +7769,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2940, col: 8, offset: 92537},
+																												pos: position{line: 2944, col: 8, offset: 92808},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2927, col: 12, offset: 92310},
+																														pos: position{line: 2931, col: 12, offset: 92581},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2927, col: 13, offset: 92311},
+																															pos: position{line: 2931, col: 13, offset: 92582},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 13, offset: 92311},
+																																	pos:        position{line: 2931, col: 13, offset: 92582},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 20, offset: 92318},
+																																	pos:        position{line: 2931, col: 20, offset: 92589},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 29, offset: 92327},
+																																	pos:        position{line: 2931, col: 29, offset: 92598},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7799,9 +7799,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2937, col: 8, offset: 92487},
+																														pos: position{line: 2941, col: 8, offset: 92758},
 																														expr: &anyMatcher{
-																															line: 2937, col: 9, offset: 92488,
+																															line: 2941, col: 9, offset: 92759,
 																														},
 																													},
 																												},
@@ -7811,45 +7811,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1039, col: 5, offset: 32290},
+																								pos: position{line: 1043, col: 5, offset: 32561},
 																								run: (*parser).callonDocumentFragment835,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92487},
+																						pos: position{line: 2941, col: 8, offset: 92758},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92488,
+																							line: 2941, col: 9, offset: 92759,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1046, col: 5, offset: 32456},
+																			pos:   position{line: 1050, col: 5, offset: 32727},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 820, col: 5, offset: 26500},
+																				pos: position{line: 824, col: 5, offset: 26771},
 																				run: (*parser).callonDocumentFragment839,
 																				expr: &seqExpr{
-																					pos: position{line: 820, col: 5, offset: 26500},
+																					pos: position{line: 824, col: 5, offset: 26771},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2935, col: 11, offset: 92473},
+																							pos: position{line: 2939, col: 11, offset: 92744},
 																							expr: &anyMatcher{
-																								line: 2935, col: 13, offset: 92475,
+																								line: 2939, col: 13, offset: 92746,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 821, col: 5, offset: 26575},
+																							pos:   position{line: 825, col: 5, offset: 26846},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 13, offset: 90665},
+																								pos: position{line: 2868, col: 13, offset: 90936},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2864, col: 13, offset: 90665},
+																									pos: position{line: 2868, col: 13, offset: 90936},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 13, offset: 90665},
+																										pos:        position{line: 2868, col: 13, offset: 90936},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7859,28 +7859,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7889,9 +7889,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -7906,44 +7906,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1031, col: 5, offset: 32029},
+														pos:   position{line: 1035, col: 5, offset: 32300},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1031, col: 9, offset: 32033},
+															pos: position{line: 1035, col: 9, offset: 32304},
 															expr: &choiceExpr{
-																pos: position{line: 1038, col: 5, offset: 32255},
+																pos: position{line: 1042, col: 5, offset: 32526},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1038, col: 5, offset: 32255},
+																		pos: position{line: 1042, col: 5, offset: 32526},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1038, col: 5, offset: 32255},
+																				pos:   position{line: 1042, col: 5, offset: 32526},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 799, col: 5, offset: 25756},
+																					pos: position{line: 803, col: 5, offset: 26027},
 																					run: (*parser).callonDocumentFragment860,
 																					expr: &seqExpr{
-																						pos: position{line: 799, col: 5, offset: 25756},
+																						pos: position{line: 803, col: 5, offset: 26027},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 799, col: 5, offset: 25756},
+																								pos:   position{line: 803, col: 5, offset: 26027},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 799, col: 16, offset: 25767},
+																									pos: position{line: 803, col: 16, offset: 26038},
 																									run: (*parser).callonDocumentFragment863,
 																									expr: &seqExpr{
-																										pos: position{line: 799, col: 16, offset: 25767},
+																										pos: position{line: 803, col: 16, offset: 26038},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 799, col: 16, offset: 25767},
+																												pos:        position{line: 803, col: 16, offset: 26038},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 799, col: 23, offset: 25774},
+																												pos: position{line: 803, col: 23, offset: 26045},
 																												expr: &litMatcher{
-																													pos:        position{line: 799, col: 23, offset: 25774},
+																													pos:        position{line: 803, col: 23, offset: 26045},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -7954,12 +7954,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 801, col: 8, offset: 25858},
+																								pos: position{line: 805, col: 8, offset: 26129},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92139},
+																									pos: position{line: 2922, col: 10, offset: 92410},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92139},
+																										pos:        position{line: 2922, col: 10, offset: 92410},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7968,28 +7968,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92537},
+																								pos: position{line: 2944, col: 8, offset: 92808},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92310},
+																										pos: position{line: 2931, col: 12, offset: 92581},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92311},
+																											pos: position{line: 2931, col: 13, offset: 92582},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92311},
+																													pos:        position{line: 2931, col: 13, offset: 92582},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92318},
+																													pos:        position{line: 2931, col: 20, offset: 92589},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92327},
+																													pos:        position{line: 2931, col: 29, offset: 92598},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -7998,9 +7998,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92487},
+																										pos: position{line: 2941, col: 8, offset: 92758},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92488,
+																											line: 2941, col: 9, offset: 92759,
 																										},
 																									},
 																								},
@@ -8010,15 +8010,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1039, col: 5, offset: 32290},
+																				pos: position{line: 1043, col: 5, offset: 32561},
 																				run: (*parser).callonDocumentFragment879,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92487},
+																		pos: position{line: 2941, col: 8, offset: 92758},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92488,
+																			line: 2941, col: 9, offset: 92759,
 																		},
 																	},
 																},
@@ -8029,39 +8029,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1054, col: 5, offset: 32607},
+											pos: position{line: 1058, col: 5, offset: 32878},
 											run: (*parser).callonDocumentFragment882,
 											expr: &seqExpr{
-												pos: position{line: 1054, col: 5, offset: 32607},
+												pos: position{line: 1058, col: 5, offset: 32878},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1054, col: 5, offset: 32607},
+														pos:   position{line: 1058, col: 5, offset: 32878},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 806, col: 5, offset: 26006},
+															pos: position{line: 810, col: 5, offset: 26277},
 															run: (*parser).callonDocumentFragment885,
 															expr: &seqExpr{
-																pos: position{line: 806, col: 5, offset: 26006},
+																pos: position{line: 810, col: 5, offset: 26277},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 806, col: 5, offset: 26006},
+																		pos:   position{line: 810, col: 5, offset: 26277},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 806, col: 16, offset: 26017},
+																			pos: position{line: 810, col: 16, offset: 26288},
 																			run: (*parser).callonDocumentFragment888,
 																			expr: &seqExpr{
-																				pos: position{line: 806, col: 16, offset: 26017},
+																				pos: position{line: 810, col: 16, offset: 26288},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 806, col: 16, offset: 26017},
+																						pos:        position{line: 810, col: 16, offset: 26288},
 																						val:        "____",
 																						ignoreCase: false,
 																						want:       "\"____\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 806, col: 23, offset: 26024},
+																						pos: position{line: 810, col: 23, offset: 26295},
 																						expr: &litMatcher{
-																							pos:        position{line: 806, col: 23, offset: 26024},
+																							pos:        position{line: 810, col: 23, offset: 26295},
 																							val:        "_",
 																							ignoreCase: false,
 																							want:       "\"_\"",
@@ -8072,12 +8072,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 808, col: 8, offset: 26108},
+																		pos: position{line: 812, col: 8, offset: 26379},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92139},
+																			pos: position{line: 2922, col: 10, offset: 92410},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92139},
+																				pos:        position{line: 2922, col: 10, offset: 92410},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8086,28 +8086,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92537},
+																		pos: position{line: 2944, col: 8, offset: 92808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8116,9 +8116,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92487},
+																				pos: position{line: 2941, col: 8, offset: 92758},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92488,
+																					line: 2941, col: 9, offset: 92759,
 																				},
 																			},
 																		},
@@ -8128,56 +8128,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1055, col: 5, offset: 32644},
+														pos: position{line: 1059, col: 5, offset: 32915},
 														run: (*parser).callonDocumentFragment904,
 													},
 													&labeledExpr{
-														pos:   position{line: 1058, col: 5, offset: 32736},
+														pos:   position{line: 1062, col: 5, offset: 33007},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1073, col: 4, offset: 33117},
+															pos: position{line: 1077, col: 4, offset: 33388},
 															expr: &actionExpr{
-																pos: position{line: 1073, col: 5, offset: 33118},
+																pos: position{line: 1077, col: 5, offset: 33389},
 																run: (*parser).callonDocumentFragment907,
 																expr: &seqExpr{
-																	pos: position{line: 1073, col: 5, offset: 33118},
+																	pos: position{line: 1077, col: 5, offset: 33389},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1073, col: 5, offset: 33118},
+																			pos: position{line: 1077, col: 5, offset: 33389},
 																			expr: &choiceExpr{
-																				pos: position{line: 1066, col: 5, offset: 32964},
+																				pos: position{line: 1070, col: 5, offset: 33235},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1066, col: 5, offset: 32964},
+																						pos: position{line: 1070, col: 5, offset: 33235},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1066, col: 5, offset: 32964},
+																								pos:   position{line: 1070, col: 5, offset: 33235},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 806, col: 5, offset: 26006},
+																									pos: position{line: 810, col: 5, offset: 26277},
 																									run: (*parser).callonDocumentFragment913,
 																									expr: &seqExpr{
-																										pos: position{line: 806, col: 5, offset: 26006},
+																										pos: position{line: 810, col: 5, offset: 26277},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 806, col: 5, offset: 26006},
+																												pos:   position{line: 810, col: 5, offset: 26277},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 806, col: 16, offset: 26017},
+																													pos: position{line: 810, col: 16, offset: 26288},
 																													run: (*parser).callonDocumentFragment916,
 																													expr: &seqExpr{
-																														pos: position{line: 806, col: 16, offset: 26017},
+																														pos: position{line: 810, col: 16, offset: 26288},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 806, col: 16, offset: 26017},
+																																pos:        position{line: 810, col: 16, offset: 26288},
 																																val:        "____",
 																																ignoreCase: false,
 																																want:       "\"____\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 806, col: 23, offset: 26024},
+																																pos: position{line: 810, col: 23, offset: 26295},
 																																expr: &litMatcher{
-																																	pos:        position{line: 806, col: 23, offset: 26024},
+																																	pos:        position{line: 810, col: 23, offset: 26295},
 																																	val:        "_",
 																																	ignoreCase: false,
 																																	want:       "\"_\"",
@@ -8188,12 +8188,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 808, col: 8, offset: 26108},
+																												pos: position{line: 812, col: 8, offset: 26379},
 																												expr: &actionExpr{
-																													pos: position{line: 2918, col: 10, offset: 92139},
+																													pos: position{line: 2922, col: 10, offset: 92410},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2918, col: 10, offset: 92139},
+																														pos:        position{line: 2922, col: 10, offset: 92410},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8202,28 +8202,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2940, col: 8, offset: 92537},
+																												pos: position{line: 2944, col: 8, offset: 92808},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2927, col: 12, offset: 92310},
+																														pos: position{line: 2931, col: 12, offset: 92581},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2927, col: 13, offset: 92311},
+																															pos: position{line: 2931, col: 13, offset: 92582},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 13, offset: 92311},
+																																	pos:        position{line: 2931, col: 13, offset: 92582},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 20, offset: 92318},
+																																	pos:        position{line: 2931, col: 20, offset: 92589},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 29, offset: 92327},
+																																	pos:        position{line: 2931, col: 29, offset: 92598},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8232,9 +8232,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2937, col: 8, offset: 92487},
+																														pos: position{line: 2941, col: 8, offset: 92758},
 																														expr: &anyMatcher{
-																															line: 2937, col: 9, offset: 92488,
+																															line: 2941, col: 9, offset: 92759,
 																														},
 																													},
 																												},
@@ -8244,45 +8244,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1067, col: 5, offset: 32993},
+																								pos: position{line: 1071, col: 5, offset: 33264},
 																								run: (*parser).callonDocumentFragment932,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92487},
+																						pos: position{line: 2941, col: 8, offset: 92758},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92488,
+																							line: 2941, col: 9, offset: 92759,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1074, col: 5, offset: 33146},
+																			pos:   position{line: 1078, col: 5, offset: 33417},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 820, col: 5, offset: 26500},
+																				pos: position{line: 824, col: 5, offset: 26771},
 																				run: (*parser).callonDocumentFragment936,
 																				expr: &seqExpr{
-																					pos: position{line: 820, col: 5, offset: 26500},
+																					pos: position{line: 824, col: 5, offset: 26771},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2935, col: 11, offset: 92473},
+																							pos: position{line: 2939, col: 11, offset: 92744},
 																							expr: &anyMatcher{
-																								line: 2935, col: 13, offset: 92475,
+																								line: 2939, col: 13, offset: 92746,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 821, col: 5, offset: 26575},
+																							pos:   position{line: 825, col: 5, offset: 26846},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 13, offset: 90665},
+																								pos: position{line: 2868, col: 13, offset: 90936},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2864, col: 13, offset: 90665},
+																									pos: position{line: 2868, col: 13, offset: 90936},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 13, offset: 90665},
+																										pos:        position{line: 2868, col: 13, offset: 90936},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8292,28 +8292,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8322,9 +8322,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -8339,44 +8339,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1059, col: 5, offset: 32768},
+														pos:   position{line: 1063, col: 5, offset: 33039},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1059, col: 9, offset: 32772},
+															pos: position{line: 1063, col: 9, offset: 33043},
 															expr: &choiceExpr{
-																pos: position{line: 1066, col: 5, offset: 32964},
+																pos: position{line: 1070, col: 5, offset: 33235},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1066, col: 5, offset: 32964},
+																		pos: position{line: 1070, col: 5, offset: 33235},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1066, col: 5, offset: 32964},
+																				pos:   position{line: 1070, col: 5, offset: 33235},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 806, col: 5, offset: 26006},
+																					pos: position{line: 810, col: 5, offset: 26277},
 																					run: (*parser).callonDocumentFragment957,
 																					expr: &seqExpr{
-																						pos: position{line: 806, col: 5, offset: 26006},
+																						pos: position{line: 810, col: 5, offset: 26277},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 806, col: 5, offset: 26006},
+																								pos:   position{line: 810, col: 5, offset: 26277},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 806, col: 16, offset: 26017},
+																									pos: position{line: 810, col: 16, offset: 26288},
 																									run: (*parser).callonDocumentFragment960,
 																									expr: &seqExpr{
-																										pos: position{line: 806, col: 16, offset: 26017},
+																										pos: position{line: 810, col: 16, offset: 26288},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 806, col: 16, offset: 26017},
+																												pos:        position{line: 810, col: 16, offset: 26288},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 806, col: 23, offset: 26024},
+																												pos: position{line: 810, col: 23, offset: 26295},
 																												expr: &litMatcher{
-																													pos:        position{line: 806, col: 23, offset: 26024},
+																													pos:        position{line: 810, col: 23, offset: 26295},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -8387,12 +8387,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 808, col: 8, offset: 26108},
+																								pos: position{line: 812, col: 8, offset: 26379},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92139},
+																									pos: position{line: 2922, col: 10, offset: 92410},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92139},
+																										pos:        position{line: 2922, col: 10, offset: 92410},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8401,28 +8401,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92537},
+																								pos: position{line: 2944, col: 8, offset: 92808},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92310},
+																										pos: position{line: 2931, col: 12, offset: 92581},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92311},
+																											pos: position{line: 2931, col: 13, offset: 92582},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92311},
+																													pos:        position{line: 2931, col: 13, offset: 92582},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92318},
+																													pos:        position{line: 2931, col: 20, offset: 92589},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92327},
+																													pos:        position{line: 2931, col: 29, offset: 92598},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8431,9 +8431,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92487},
+																										pos: position{line: 2941, col: 8, offset: 92758},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92488,
+																											line: 2941, col: 9, offset: 92759,
 																										},
 																									},
 																								},
@@ -8443,15 +8443,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1067, col: 5, offset: 32993},
+																				pos: position{line: 1071, col: 5, offset: 33264},
 																				run: (*parser).callonDocumentFragment976,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92487},
+																		pos: position{line: 2941, col: 8, offset: 92758},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92488,
+																			line: 2941, col: 9, offset: 92759,
 																		},
 																	},
 																},
@@ -8462,39 +8462,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1082, col: 5, offset: 33301},
+											pos: position{line: 1086, col: 5, offset: 33572},
 											run: (*parser).callonDocumentFragment979,
 											expr: &seqExpr{
-												pos: position{line: 1082, col: 5, offset: 33301},
+												pos: position{line: 1086, col: 5, offset: 33572},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1082, col: 5, offset: 33301},
+														pos:   position{line: 1086, col: 5, offset: 33572},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 813, col: 5, offset: 26252},
+															pos: position{line: 817, col: 5, offset: 26523},
 															run: (*parser).callonDocumentFragment982,
 															expr: &seqExpr{
-																pos: position{line: 813, col: 5, offset: 26252},
+																pos: position{line: 817, col: 5, offset: 26523},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 813, col: 5, offset: 26252},
+																		pos:   position{line: 817, col: 5, offset: 26523},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 813, col: 16, offset: 26263},
+																			pos: position{line: 817, col: 16, offset: 26534},
 																			run: (*parser).callonDocumentFragment985,
 																			expr: &seqExpr{
-																				pos: position{line: 813, col: 16, offset: 26263},
+																				pos: position{line: 817, col: 16, offset: 26534},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 813, col: 16, offset: 26263},
+																						pos:        position{line: 817, col: 16, offset: 26534},
 																						val:        "****",
 																						ignoreCase: false,
 																						want:       "\"****\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 813, col: 23, offset: 26270},
+																						pos: position{line: 817, col: 23, offset: 26541},
 																						expr: &litMatcher{
-																							pos:        position{line: 813, col: 23, offset: 26270},
+																							pos:        position{line: 817, col: 23, offset: 26541},
 																							val:        "*",
 																							ignoreCase: false,
 																							want:       "\"*\"",
@@ -8505,12 +8505,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 815, col: 8, offset: 26354},
+																		pos: position{line: 819, col: 8, offset: 26625},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92139},
+																			pos: position{line: 2922, col: 10, offset: 92410},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92139},
+																				pos:        position{line: 2922, col: 10, offset: 92410},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8519,28 +8519,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92537},
+																		pos: position{line: 2944, col: 8, offset: 92808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8549,9 +8549,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92487},
+																				pos: position{line: 2941, col: 8, offset: 92758},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92488,
+																					line: 2941, col: 9, offset: 92759,
 																				},
 																			},
 																		},
@@ -8561,56 +8561,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1083, col: 5, offset: 33340},
+														pos: position{line: 1087, col: 5, offset: 33611},
 														run: (*parser).callonDocumentFragment1001,
 													},
 													&labeledExpr{
-														pos:   position{line: 1086, col: 5, offset: 33432},
+														pos:   position{line: 1090, col: 5, offset: 33703},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1101, col: 4, offset: 33829},
+															pos: position{line: 1105, col: 4, offset: 34100},
 															expr: &actionExpr{
-																pos: position{line: 1101, col: 5, offset: 33830},
+																pos: position{line: 1105, col: 5, offset: 34101},
 																run: (*parser).callonDocumentFragment1004,
 																expr: &seqExpr{
-																	pos: position{line: 1101, col: 5, offset: 33830},
+																	pos: position{line: 1105, col: 5, offset: 34101},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1101, col: 5, offset: 33830},
+																			pos: position{line: 1105, col: 5, offset: 34101},
 																			expr: &choiceExpr{
-																				pos: position{line: 1094, col: 5, offset: 33672},
+																				pos: position{line: 1098, col: 5, offset: 33943},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1094, col: 5, offset: 33672},
+																						pos: position{line: 1098, col: 5, offset: 33943},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1094, col: 5, offset: 33672},
+																								pos:   position{line: 1098, col: 5, offset: 33943},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 813, col: 5, offset: 26252},
+																									pos: position{line: 817, col: 5, offset: 26523},
 																									run: (*parser).callonDocumentFragment1010,
 																									expr: &seqExpr{
-																										pos: position{line: 813, col: 5, offset: 26252},
+																										pos: position{line: 817, col: 5, offset: 26523},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 813, col: 5, offset: 26252},
+																												pos:   position{line: 817, col: 5, offset: 26523},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 813, col: 16, offset: 26263},
+																													pos: position{line: 817, col: 16, offset: 26534},
 																													run: (*parser).callonDocumentFragment1013,
 																													expr: &seqExpr{
-																														pos: position{line: 813, col: 16, offset: 26263},
+																														pos: position{line: 817, col: 16, offset: 26534},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 813, col: 16, offset: 26263},
+																																pos:        position{line: 817, col: 16, offset: 26534},
 																																val:        "****",
 																																ignoreCase: false,
 																																want:       "\"****\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 813, col: 23, offset: 26270},
+																																pos: position{line: 817, col: 23, offset: 26541},
 																																expr: &litMatcher{
-																																	pos:        position{line: 813, col: 23, offset: 26270},
+																																	pos:        position{line: 817, col: 23, offset: 26541},
 																																	val:        "*",
 																																	ignoreCase: false,
 																																	want:       "\"*\"",
@@ -8621,12 +8621,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 815, col: 8, offset: 26354},
+																												pos: position{line: 819, col: 8, offset: 26625},
 																												expr: &actionExpr{
-																													pos: position{line: 2918, col: 10, offset: 92139},
+																													pos: position{line: 2922, col: 10, offset: 92410},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2918, col: 10, offset: 92139},
+																														pos:        position{line: 2922, col: 10, offset: 92410},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8635,28 +8635,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2940, col: 8, offset: 92537},
+																												pos: position{line: 2944, col: 8, offset: 92808},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2927, col: 12, offset: 92310},
+																														pos: position{line: 2931, col: 12, offset: 92581},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2927, col: 13, offset: 92311},
+																															pos: position{line: 2931, col: 13, offset: 92582},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 13, offset: 92311},
+																																	pos:        position{line: 2931, col: 13, offset: 92582},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 20, offset: 92318},
+																																	pos:        position{line: 2931, col: 20, offset: 92589},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 29, offset: 92327},
+																																	pos:        position{line: 2931, col: 29, offset: 92598},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8665,9 +8665,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2937, col: 8, offset: 92487},
+																														pos: position{line: 2941, col: 8, offset: 92758},
 																														expr: &anyMatcher{
-																															line: 2937, col: 9, offset: 92488,
+																															line: 2941, col: 9, offset: 92759,
 																														},
 																													},
 																												},
@@ -8677,45 +8677,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1095, col: 5, offset: 33703},
+																								pos: position{line: 1099, col: 5, offset: 33974},
 																								run: (*parser).callonDocumentFragment1029,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92487},
+																						pos: position{line: 2941, col: 8, offset: 92758},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92488,
+																							line: 2941, col: 9, offset: 92759,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1102, col: 5, offset: 33860},
+																			pos:   position{line: 1106, col: 5, offset: 34131},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 820, col: 5, offset: 26500},
+																				pos: position{line: 824, col: 5, offset: 26771},
 																				run: (*parser).callonDocumentFragment1033,
 																				expr: &seqExpr{
-																					pos: position{line: 820, col: 5, offset: 26500},
+																					pos: position{line: 824, col: 5, offset: 26771},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2935, col: 11, offset: 92473},
+																							pos: position{line: 2939, col: 11, offset: 92744},
 																							expr: &anyMatcher{
-																								line: 2935, col: 13, offset: 92475,
+																								line: 2939, col: 13, offset: 92746,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 821, col: 5, offset: 26575},
+																							pos:   position{line: 825, col: 5, offset: 26846},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 13, offset: 90665},
+																								pos: position{line: 2868, col: 13, offset: 90936},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2864, col: 13, offset: 90665},
+																									pos: position{line: 2868, col: 13, offset: 90936},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 13, offset: 90665},
+																										pos:        position{line: 2868, col: 13, offset: 90936},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8725,28 +8725,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8755,9 +8755,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -8772,44 +8772,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1087, col: 5, offset: 33466},
+														pos:   position{line: 1091, col: 5, offset: 33737},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1087, col: 9, offset: 33470},
+															pos: position{line: 1091, col: 9, offset: 33741},
 															expr: &choiceExpr{
-																pos: position{line: 1094, col: 5, offset: 33672},
+																pos: position{line: 1098, col: 5, offset: 33943},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1094, col: 5, offset: 33672},
+																		pos: position{line: 1098, col: 5, offset: 33943},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1094, col: 5, offset: 33672},
+																				pos:   position{line: 1098, col: 5, offset: 33943},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 813, col: 5, offset: 26252},
+																					pos: position{line: 817, col: 5, offset: 26523},
 																					run: (*parser).callonDocumentFragment1054,
 																					expr: &seqExpr{
-																						pos: position{line: 813, col: 5, offset: 26252},
+																						pos: position{line: 817, col: 5, offset: 26523},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 813, col: 5, offset: 26252},
+																								pos:   position{line: 817, col: 5, offset: 26523},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 813, col: 16, offset: 26263},
+																									pos: position{line: 817, col: 16, offset: 26534},
 																									run: (*parser).callonDocumentFragment1057,
 																									expr: &seqExpr{
-																										pos: position{line: 813, col: 16, offset: 26263},
+																										pos: position{line: 817, col: 16, offset: 26534},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 813, col: 16, offset: 26263},
+																												pos:        position{line: 817, col: 16, offset: 26534},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 813, col: 23, offset: 26270},
+																												pos: position{line: 817, col: 23, offset: 26541},
 																												expr: &litMatcher{
-																													pos:        position{line: 813, col: 23, offset: 26270},
+																													pos:        position{line: 817, col: 23, offset: 26541},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -8820,12 +8820,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 815, col: 8, offset: 26354},
+																								pos: position{line: 819, col: 8, offset: 26625},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92139},
+																									pos: position{line: 2922, col: 10, offset: 92410},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92139},
+																										pos:        position{line: 2922, col: 10, offset: 92410},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8834,28 +8834,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92537},
+																								pos: position{line: 2944, col: 8, offset: 92808},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92310},
+																										pos: position{line: 2931, col: 12, offset: 92581},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92311},
+																											pos: position{line: 2931, col: 13, offset: 92582},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92311},
+																													pos:        position{line: 2931, col: 13, offset: 92582},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92318},
+																													pos:        position{line: 2931, col: 20, offset: 92589},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92327},
+																													pos:        position{line: 2931, col: 29, offset: 92598},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8864,9 +8864,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92487},
+																										pos: position{line: 2941, col: 8, offset: 92758},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92488,
+																											line: 2941, col: 9, offset: 92759,
 																										},
 																									},
 																								},
@@ -8876,15 +8876,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1095, col: 5, offset: 33703},
+																				pos: position{line: 1099, col: 5, offset: 33974},
 																				run: (*parser).callonDocumentFragment1073,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92487},
+																		pos: position{line: 2941, col: 8, offset: 92758},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92488,
+																			line: 2941, col: 9, offset: 92759,
 																		},
 																	},
 																},
@@ -8895,52 +8895,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2763, col: 18, offset: 87729},
+											pos: position{line: 2767, col: 18, offset: 88000},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2763, col: 18, offset: 87729},
+												pos: position{line: 2767, col: 18, offset: 88000},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2764, col: 9, offset: 87739},
+														pos: position{line: 2768, col: 9, offset: 88010},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2764, col: 9, offset: 87739},
+																pos:        position{line: 2768, col: 9, offset: 88010},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2765, col: 11, offset: 87775},
+																pos:        position{line: 2769, col: 11, offset: 88046},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2765, col: 19, offset: 87783},
+																pos:        position{line: 2769, col: 19, offset: 88054},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2765, col: 29, offset: 87793},
+																pos:        position{line: 2769, col: 29, offset: 88064},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2765, col: 37, offset: 87801},
+																pos:        position{line: 2769, col: 37, offset: 88072},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2765, col: 47, offset: 87811},
+																pos:        position{line: 2769, col: 47, offset: 88082},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2765, col: 55, offset: 87819},
+																pos:        position{line: 2769, col: 55, offset: 88090},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -8948,12 +8948,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2766, col: 11, offset: 87877},
+														pos: position{line: 2770, col: 11, offset: 88148},
 														expr: &actionExpr{
-															pos: position{line: 2918, col: 10, offset: 92139},
+															pos: position{line: 2922, col: 10, offset: 92410},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2918, col: 10, offset: 92139},
+																pos:        position{line: 2922, col: 10, offset: 92410},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -8962,28 +8962,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2940, col: 8, offset: 92537},
+														pos: position{line: 2944, col: 8, offset: 92808},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92310},
+																pos: position{line: 2931, col: 12, offset: 92581},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2927, col: 13, offset: 92311},
+																	pos: position{line: 2931, col: 13, offset: 92582},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 13, offset: 92311},
+																			pos:        position{line: 2931, col: 13, offset: 92582},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 20, offset: 92318},
+																			pos:        position{line: 2931, col: 20, offset: 92589},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 29, offset: 92327},
+																			pos:        position{line: 2931, col: 29, offset: 92598},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -8992,36 +8992,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92487},
+																pos: position{line: 2941, col: 8, offset: 92758},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92488,
+																	line: 2941, col: 9, offset: 92759,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2940, col: 8, offset: 92537},
+														pos: position{line: 2944, col: 8, offset: 92808},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92310},
+																pos: position{line: 2931, col: 12, offset: 92581},
 																run: (*parser).callonDocumentFragment1098,
 																expr: &choiceExpr{
-																	pos: position{line: 2927, col: 13, offset: 92311},
+																	pos: position{line: 2931, col: 13, offset: 92582},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 13, offset: 92311},
+																			pos:        position{line: 2931, col: 13, offset: 92582},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 20, offset: 92318},
+																			pos:        position{line: 2931, col: 20, offset: 92589},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 29, offset: 92327},
+																			pos:        position{line: 2931, col: 29, offset: 92598},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9030,9 +9030,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92487},
+																pos: position{line: 2941, col: 8, offset: 92758},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92488,
+																	line: 2941, col: 9, offset: 92759,
 																},
 															},
 														},
@@ -9045,24 +9045,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2647, col: 5, offset: 84486},
+											pos: position{line: 2651, col: 5, offset: 84757},
 											run: (*parser).callonDocumentFragment1106,
 											expr: &seqExpr{
-												pos: position{line: 2647, col: 5, offset: 84486},
+												pos: position{line: 2651, col: 5, offset: 84757},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2653, col: 19, offset: 84663},
+														pos:        position{line: 2657, col: 19, offset: 84934},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2653, col: 26, offset: 84670},
+														pos: position{line: 2657, col: 26, offset: 84941},
 														expr: &actionExpr{
-															pos: position{line: 2918, col: 10, offset: 92139},
+															pos: position{line: 2922, col: 10, offset: 92410},
 															run: (*parser).callonDocumentFragment1110,
 															expr: &charClassMatcher{
-																pos:        position{line: 2918, col: 10, offset: 92139},
+																pos:        position{line: 2922, col: 10, offset: 92410},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9071,28 +9071,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2940, col: 8, offset: 92537},
+														pos: position{line: 2944, col: 8, offset: 92808},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92310},
+																pos: position{line: 2931, col: 12, offset: 92581},
 																run: (*parser).callonDocumentFragment1113,
 																expr: &choiceExpr{
-																	pos: position{line: 2927, col: 13, offset: 92311},
+																	pos: position{line: 2931, col: 13, offset: 92582},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 13, offset: 92311},
+																			pos:        position{line: 2931, col: 13, offset: 92582},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 20, offset: 92318},
+																			pos:        position{line: 2931, col: 20, offset: 92589},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 29, offset: 92327},
+																			pos:        position{line: 2931, col: 29, offset: 92598},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9101,40 +9101,40 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92487},
+																pos: position{line: 2941, col: 8, offset: 92758},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92488,
+																	line: 2941, col: 9, offset: 92759,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2648, col: 5, offset: 84510},
+														pos:   position{line: 2652, col: 5, offset: 84781},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2648, col: 11, offset: 84516},
+															pos: position{line: 2652, col: 11, offset: 84787},
 															expr: &choiceExpr{
-																pos: position{line: 2648, col: 12, offset: 84517},
+																pos: position{line: 2652, col: 12, offset: 84788},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 686, col: 14, offset: 21901},
+																		pos: position{line: 690, col: 14, offset: 22172},
 																		run: (*parser).callonDocumentFragment1123,
 																		expr: &seqExpr{
-																			pos: position{line: 686, col: 14, offset: 21901},
+																			pos: position{line: 690, col: 14, offset: 22172},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2935, col: 11, offset: 92473},
+																					pos: position{line: 2939, col: 11, offset: 92744},
 																					expr: &anyMatcher{
-																						line: 2935, col: 13, offset: 92475,
+																						line: 2939, col: 13, offset: 92746,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 686, col: 21, offset: 21908},
+																					pos: position{line: 690, col: 21, offset: 22179},
 																					expr: &actionExpr{
-																						pos: position{line: 2918, col: 10, offset: 92139},
+																						pos: position{line: 2922, col: 10, offset: 92410},
 																						run: (*parser).callonDocumentFragment1128,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2918, col: 10, offset: 92139},
+																							pos:        position{line: 2922, col: 10, offset: 92410},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9143,28 +9143,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2940, col: 8, offset: 92537},
+																					pos: position{line: 2944, col: 8, offset: 92808},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2927, col: 12, offset: 92310},
+																							pos: position{line: 2931, col: 12, offset: 92581},
 																							run: (*parser).callonDocumentFragment1131,
 																							expr: &choiceExpr{
-																								pos: position{line: 2927, col: 13, offset: 92311},
+																								pos: position{line: 2931, col: 13, offset: 92582},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 13, offset: 92311},
+																										pos:        position{line: 2931, col: 13, offset: 92582},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 20, offset: 92318},
+																										pos:        position{line: 2931, col: 20, offset: 92589},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 29, offset: 92327},
+																										pos:        position{line: 2931, col: 29, offset: 92598},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9173,9 +9173,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2937, col: 8, offset: 92487},
+																							pos: position{line: 2941, col: 8, offset: 92758},
 																							expr: &anyMatcher{
-																								line: 2937, col: 9, offset: 92488,
+																								line: 2941, col: 9, offset: 92759,
 																							},
 																						},
 																					},
@@ -9184,36 +9184,36 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2521, col: 22, offset: 80917},
+																		pos: position{line: 2525, col: 22, offset: 81188},
 																		run: (*parser).callonDocumentFragment1138,
 																		expr: &seqExpr{
-																			pos: position{line: 2521, col: 22, offset: 80917},
+																			pos: position{line: 2525, col: 22, offset: 81188},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2526, col: 31, offset: 81167},
+																					pos:        position{line: 2530, col: 31, offset: 81438},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																				&notExpr{
-																					pos: position{line: 2526, col: 36, offset: 81172},
+																					pos: position{line: 2530, col: 36, offset: 81443},
 																					expr: &litMatcher{
-																						pos:        position{line: 2526, col: 37, offset: 81173},
+																						pos:        position{line: 2530, col: 37, offset: 81444},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2521, col: 49, offset: 80944},
+																					pos:   position{line: 2525, col: 49, offset: 81215},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2864, col: 13, offset: 90665},
+																						pos: position{line: 2868, col: 13, offset: 90936},
 																						run: (*parser).callonDocumentFragment1144,
 																						expr: &zeroOrMoreExpr{
-																							pos: position{line: 2864, col: 13, offset: 90665},
+																							pos: position{line: 2868, col: 13, offset: 90936},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 13, offset: 90665},
+																								pos:        position{line: 2868, col: 13, offset: 90936},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -9223,28 +9223,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2940, col: 8, offset: 92537},
+																					pos: position{line: 2944, col: 8, offset: 92808},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2927, col: 12, offset: 92310},
+																							pos: position{line: 2931, col: 12, offset: 92581},
 																							run: (*parser).callonDocumentFragment1148,
 																							expr: &choiceExpr{
-																								pos: position{line: 2927, col: 13, offset: 92311},
+																								pos: position{line: 2931, col: 13, offset: 92582},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 13, offset: 92311},
+																										pos:        position{line: 2931, col: 13, offset: 92582},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 20, offset: 92318},
+																										pos:        position{line: 2931, col: 20, offset: 92589},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 29, offset: 92327},
+																										pos:        position{line: 2931, col: 29, offset: 92598},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9253,9 +9253,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2937, col: 8, offset: 92487},
+																							pos: position{line: 2941, col: 8, offset: 92758},
 																							expr: &anyMatcher{
-																								line: 2937, col: 9, offset: 92488,
+																								line: 2941, col: 9, offset: 92759,
 																							},
 																						},
 																					},
@@ -9264,32 +9264,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2660, col: 5, offset: 84782},
+																		pos: position{line: 2664, col: 5, offset: 85053},
 																		run: (*parser).callonDocumentFragment1155,
 																		expr: &seqExpr{
-																			pos: position{line: 2660, col: 5, offset: 84782},
+																			pos: position{line: 2664, col: 5, offset: 85053},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2660, col: 5, offset: 84782},
+																					pos: position{line: 2664, col: 5, offset: 85053},
 																					expr: &choiceExpr{
-																						pos: position{line: 2657, col: 22, offset: 84743},
+																						pos: position{line: 2661, col: 22, offset: 85014},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2653, col: 19, offset: 84663},
+																								pos: position{line: 2657, col: 19, offset: 84934},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2653, col: 19, offset: 84663},
+																										pos:        position{line: 2657, col: 19, offset: 84934},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2653, col: 26, offset: 84670},
+																										pos: position{line: 2657, col: 26, offset: 84941},
 																										expr: &actionExpr{
-																											pos: position{line: 2918, col: 10, offset: 92139},
+																											pos: position{line: 2922, col: 10, offset: 92410},
 																											run: (*parser).callonDocumentFragment1162,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2918, col: 10, offset: 92139},
+																												pos:        position{line: 2922, col: 10, offset: 92410},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9298,28 +9298,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2940, col: 8, offset: 92537},
+																										pos: position{line: 2944, col: 8, offset: 92808},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2927, col: 12, offset: 92310},
+																												pos: position{line: 2931, col: 12, offset: 92581},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &choiceExpr{
-																													pos: position{line: 2927, col: 13, offset: 92311},
+																													pos: position{line: 2931, col: 13, offset: 92582},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2927, col: 13, offset: 92311},
+																															pos:        position{line: 2931, col: 13, offset: 92582},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2927, col: 20, offset: 92318},
+																															pos:        position{line: 2931, col: 20, offset: 92589},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2927, col: 29, offset: 92327},
+																															pos:        position{line: 2931, col: 29, offset: 92598},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9328,9 +9328,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2937, col: 8, offset: 92487},
+																												pos: position{line: 2941, col: 8, offset: 92758},
 																												expr: &anyMatcher{
-																													line: 2937, col: 9, offset: 92488,
+																													line: 2941, col: 9, offset: 92759,
 																												},
 																											},
 																										},
@@ -9338,59 +9338,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92487},
+																								pos: position{line: 2941, col: 8, offset: 92758},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92488,
+																									line: 2941, col: 9, offset: 92759,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2661, col: 5, offset: 84805},
+																					pos:   position{line: 2665, col: 5, offset: 85076},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2662, col: 9, offset: 84823},
+																						pos: position{line: 2666, col: 9, offset: 85094},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2662, col: 10, offset: 84824},
+																								pos: position{line: 2666, col: 10, offset: 85095},
 																								run: (*parser).callonDocumentFragment1176,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2662, col: 10, offset: 84824},
+																									pos:   position{line: 2666, col: 10, offset: 85095},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2662, col: 17, offset: 84831},
+																										pos: position{line: 2666, col: 17, offset: 85102},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2670, col: 21, offset: 85027},
+																												pos: position{line: 2674, col: 21, offset: 85298},
 																												run: (*parser).callonDocumentFragment1179,
 																												expr: &seqExpr{
-																													pos: position{line: 2670, col: 21, offset: 85027},
+																													pos: position{line: 2674, col: 21, offset: 85298},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2670, col: 21, offset: 85027},
+																															pos:   position{line: 2674, col: 21, offset: 85298},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2670, col: 27, offset: 85033},
+																																pos: position{line: 2674, col: 27, offset: 85304},
 																																expr: &actionExpr{
-																																	pos: position{line: 2675, col: 5, offset: 85108},
+																																	pos: position{line: 2679, col: 5, offset: 85379},
 																																	run: (*parser).callonDocumentFragment1183,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2675, col: 5, offset: 85108},
+																																		pos: position{line: 2679, col: 5, offset: 85379},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2675, col: 5, offset: 85108},
+																																				pos:        position{line: 2679, col: 5, offset: 85379},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2675, col: 9, offset: 85112},
+																																				pos: position{line: 2679, col: 9, offset: 85383},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2918, col: 10, offset: 92139},
+																																					pos: position{line: 2922, col: 10, offset: 92410},
 																																					run: (*parser).callonDocumentFragment1187,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2918, col: 10, offset: 92139},
+																																						pos:        position{line: 2922, col: 10, offset: 92410},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9399,21 +9399,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2675, col: 16, offset: 85119},
+																																				pos:   position{line: 2679, col: 16, offset: 85390},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2681, col: 5, offset: 85319},
+																																					pos: position{line: 2685, col: 5, offset: 85590},
 																																					run: (*parser).callonDocumentFragment1190,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2681, col: 5, offset: 85319},
+																																						pos:   position{line: 2685, col: 5, offset: 85590},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2681, col: 14, offset: 85328},
+																																							pos: position{line: 2685, col: 14, offset: 85599},
 																																							run: (*parser).callonDocumentFragment1192,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2681, col: 14, offset: 85328},
+																																								pos: position{line: 2685, col: 14, offset: 85599},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2681, col: 14, offset: 85328},
+																																									pos:        position{line: 2685, col: 14, offset: 85599},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9430,28 +9430,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2940, col: 8, offset: 92537},
+																															pos: position{line: 2944, col: 8, offset: 92808},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2927, col: 12, offset: 92310},
+																																	pos: position{line: 2931, col: 12, offset: 92581},
 																																	run: (*parser).callonDocumentFragment1196,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2927, col: 13, offset: 92311},
+																																		pos: position{line: 2931, col: 13, offset: 92582},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2927, col: 13, offset: 92311},
+																																				pos:        position{line: 2931, col: 13, offset: 92582},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2927, col: 20, offset: 92318},
+																																				pos:        position{line: 2931, col: 20, offset: 92589},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2927, col: 29, offset: 92327},
+																																				pos:        position{line: 2931, col: 29, offset: 92598},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9460,9 +9460,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2937, col: 8, offset: 92487},
+																																	pos: position{line: 2941, col: 8, offset: 92758},
 																																	expr: &anyMatcher{
-																																		line: 2937, col: 9, offset: 92488,
+																																		line: 2941, col: 9, offset: 92759,
 																																	},
 																																},
 																															},
@@ -9471,40 +9471,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2687, col: 24, offset: 85464},
+																												pos: position{line: 2691, col: 24, offset: 85735},
 																												run: (*parser).callonDocumentFragment1203,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2687, col: 24, offset: 85464},
+																													pos:   position{line: 2691, col: 24, offset: 85735},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2687, col: 30, offset: 85470},
+																														pos: position{line: 2691, col: 30, offset: 85741},
 																														expr: &actionExpr{
-																															pos: position{line: 2692, col: 5, offset: 85546},
+																															pos: position{line: 2696, col: 5, offset: 85817},
 																															run: (*parser).callonDocumentFragment1206,
 																															expr: &seqExpr{
-																																pos: position{line: 2692, col: 5, offset: 85546},
+																																pos: position{line: 2696, col: 5, offset: 85817},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2692, col: 5, offset: 85546},
+																																		pos: position{line: 2696, col: 5, offset: 85817},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2657, col: 22, offset: 84743},
+																																			pos: position{line: 2661, col: 22, offset: 85014},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2653, col: 19, offset: 84663},
+																																					pos: position{line: 2657, col: 19, offset: 84934},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2653, col: 19, offset: 84663},
+																																							pos:        position{line: 2657, col: 19, offset: 84934},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2653, col: 26, offset: 84670},
+																																							pos: position{line: 2657, col: 26, offset: 84941},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2918, col: 10, offset: 92139},
+																																								pos: position{line: 2922, col: 10, offset: 92410},
 																																								run: (*parser).callonDocumentFragment1213,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2918, col: 10, offset: 92139},
+																																									pos:        position{line: 2922, col: 10, offset: 92410},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9513,28 +9513,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2940, col: 8, offset: 92537},
+																																							pos: position{line: 2944, col: 8, offset: 92808},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2927, col: 12, offset: 92310},
+																																									pos: position{line: 2931, col: 12, offset: 92581},
 																																									run: (*parser).callonDocumentFragment1216,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2927, col: 13, offset: 92311},
+																																										pos: position{line: 2931, col: 13, offset: 92582},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2927, col: 13, offset: 92311},
+																																												pos:        position{line: 2931, col: 13, offset: 92582},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2927, col: 20, offset: 92318},
+																																												pos:        position{line: 2931, col: 20, offset: 92589},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2927, col: 29, offset: 92327},
+																																												pos:        position{line: 2931, col: 29, offset: 92598},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9543,9 +9543,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2937, col: 8, offset: 92487},
+																																									pos: position{line: 2941, col: 8, offset: 92758},
 																																									expr: &anyMatcher{
-																																										line: 2937, col: 9, offset: 92488,
+																																										line: 2941, col: 9, offset: 92759,
 																																									},
 																																								},
 																																							},
@@ -9553,35 +9553,35 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2937, col: 8, offset: 92487},
+																																					pos: position{line: 2941, col: 8, offset: 92758},
 																																					expr: &anyMatcher{
-																																						line: 2937, col: 9, offset: 92488,
+																																						line: 2941, col: 9, offset: 92759,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2693, col: 5, offset: 85569},
+																																		pos: position{line: 2697, col: 5, offset: 85840},
 																																		expr: &actionExpr{
-																																			pos: position{line: 686, col: 14, offset: 21901},
+																																			pos: position{line: 690, col: 14, offset: 22172},
 																																			run: (*parser).callonDocumentFragment1226,
 																																			expr: &seqExpr{
-																																				pos: position{line: 686, col: 14, offset: 21901},
+																																				pos: position{line: 690, col: 14, offset: 22172},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2935, col: 11, offset: 92473},
+																																						pos: position{line: 2939, col: 11, offset: 92744},
 																																						expr: &anyMatcher{
-																																							line: 2935, col: 13, offset: 92475,
+																																							line: 2939, col: 13, offset: 92746,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 686, col: 21, offset: 21908},
+																																						pos: position{line: 690, col: 21, offset: 22179},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2918, col: 10, offset: 92139},
+																																							pos: position{line: 2922, col: 10, offset: 92410},
 																																							run: (*parser).callonDocumentFragment1231,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2918, col: 10, offset: 92139},
+																																								pos:        position{line: 2922, col: 10, offset: 92410},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9590,28 +9590,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2940, col: 8, offset: 92537},
+																																						pos: position{line: 2944, col: 8, offset: 92808},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2927, col: 12, offset: 92310},
+																																								pos: position{line: 2931, col: 12, offset: 92581},
 																																								run: (*parser).callonDocumentFragment1234,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2927, col: 13, offset: 92311},
+																																									pos: position{line: 2931, col: 13, offset: 92582},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2927, col: 13, offset: 92311},
+																																											pos:        position{line: 2931, col: 13, offset: 92582},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2927, col: 20, offset: 92318},
+																																											pos:        position{line: 2931, col: 20, offset: 92589},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2927, col: 29, offset: 92327},
+																																											pos:        position{line: 2931, col: 29, offset: 92598},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9620,9 +9620,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2937, col: 8, offset: 92487},
+																																								pos: position{line: 2941, col: 8, offset: 92758},
 																																								expr: &anyMatcher{
-																																									line: 2937, col: 9, offset: 92488,
+																																									line: 2941, col: 9, offset: 92759,
 																																								},
 																																							},
 																																						},
@@ -9632,17 +9632,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2694, col: 5, offset: 85584},
+																																		pos:   position{line: 2698, col: 5, offset: 85855},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2694, col: 12, offset: 85591},
+																																			pos: position{line: 2698, col: 12, offset: 85862},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2718, col: 20, offset: 86214},
+																																				pos: position{line: 2722, col: 20, offset: 86485},
 																																				run: (*parser).callonDocumentFragment1243,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2718, col: 20, offset: 86214},
+																																					pos: position{line: 2722, col: 20, offset: 86485},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2718, col: 20, offset: 86214},
+																																						pos:        position{line: 2722, col: 20, offset: 86485},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9653,18 +9653,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2694, col: 31, offset: 85610},
+																																		pos:        position{line: 2698, col: 31, offset: 85881},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2694, col: 35, offset: 85614},
+																																		pos: position{line: 2698, col: 35, offset: 85885},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2918, col: 10, offset: 92139},
+																																			pos: position{line: 2922, col: 10, offset: 92410},
 																																			run: (*parser).callonDocumentFragment1248,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2918, col: 10, offset: 92139},
+																																				pos:        position{line: 2922, col: 10, offset: 92410},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9673,27 +9673,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2694, col: 42, offset: 85621},
+																																		pos: position{line: 2698, col: 42, offset: 85892},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2927, col: 12, offset: 92310},
+																																			pos: position{line: 2931, col: 12, offset: 92581},
 																																			run: (*parser).callonDocumentFragment1251,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2927, col: 13, offset: 92311},
+																																				pos: position{line: 2931, col: 13, offset: 92582},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2927, col: 13, offset: 92311},
+																																						pos:        position{line: 2931, col: 13, offset: 92582},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2927, col: 20, offset: 92318},
+																																						pos:        position{line: 2931, col: 20, offset: 92589},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2927, col: 29, offset: 92327},
+																																						pos:        position{line: 2931, col: 29, offset: 92598},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9703,57 +9703,57 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2694, col: 51, offset: 85630},
+																																		pos:   position{line: 2698, col: 51, offset: 85901},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2700, col: 5, offset: 85789},
+																																			pos: position{line: 2704, col: 5, offset: 86060},
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2701, col: 9, offset: 85799},
+																																				pos: position{line: 2705, col: 9, offset: 86070},
 																																				alternatives: []interface{}{
 																																					&actionExpr{
-																																						pos: position{line: 2701, col: 9, offset: 85799},
+																																						pos: position{line: 2705, col: 9, offset: 86070},
 																																						run: (*parser).callonDocumentFragment1259,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2701, col: 9, offset: 85799},
+																																							pos: position{line: 2705, col: 9, offset: 86070},
 																																							exprs: []interface{}{
 																																								&andCodeExpr{
-																																									pos: position{line: 2701, col: 9, offset: 85799},
+																																									pos: position{line: 2705, col: 9, offset: 86070},
 																																									run: (*parser).callonDocumentFragment1261,
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2704, col: 9, offset: 85868},
+																																									pos:   position{line: 2708, col: 9, offset: 86139},
 																																									label: "comment",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2521, col: 22, offset: 80917},
+																																										pos: position{line: 2525, col: 22, offset: 81188},
 																																										run: (*parser).callonDocumentFragment1263,
 																																										expr: &seqExpr{
-																																											pos: position{line: 2521, col: 22, offset: 80917},
+																																											pos: position{line: 2525, col: 22, offset: 81188},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2526, col: 31, offset: 81167},
+																																													pos:        position{line: 2530, col: 31, offset: 81438},
 																																													val:        "//",
 																																													ignoreCase: false,
 																																													want:       "\"//\"",
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2526, col: 36, offset: 81172},
+																																													pos: position{line: 2530, col: 36, offset: 81443},
 																																													expr: &litMatcher{
-																																														pos:        position{line: 2526, col: 37, offset: 81173},
+																																														pos:        position{line: 2530, col: 37, offset: 81444},
 																																														val:        "/",
 																																														ignoreCase: false,
 																																														want:       "\"/\"",
 																																													},
 																																												},
 																																												&labeledExpr{
-																																													pos:   position{line: 2521, col: 49, offset: 80944},
+																																													pos:   position{line: 2525, col: 49, offset: 81215},
 																																													label: "content",
 																																													expr: &actionExpr{
-																																														pos: position{line: 2864, col: 13, offset: 90665},
+																																														pos: position{line: 2868, col: 13, offset: 90936},
 																																														run: (*parser).callonDocumentFragment1269,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2864, col: 13, offset: 90665},
+																																															pos: position{line: 2868, col: 13, offset: 90936},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2864, col: 13, offset: 90665},
+																																																pos:        position{line: 2868, col: 13, offset: 90936},
 																																																val:        "[^\\r\\n]",
 																																																chars:      []rune{'\r', '\n'},
 																																																ignoreCase: false,
@@ -9763,28 +9763,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2940, col: 8, offset: 92537},
+																																													pos: position{line: 2944, col: 8, offset: 92808},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2927, col: 12, offset: 92310},
+																																															pos: position{line: 2931, col: 12, offset: 92581},
 																																															run: (*parser).callonDocumentFragment1273,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2927, col: 13, offset: 92311},
+																																																pos: position{line: 2931, col: 13, offset: 92582},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2927, col: 13, offset: 92311},
+																																																		pos:        position{line: 2931, col: 13, offset: 92582},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2927, col: 20, offset: 92318},
+																																																		pos:        position{line: 2931, col: 20, offset: 92589},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2927, col: 29, offset: 92327},
+																																																		pos:        position{line: 2931, col: 29, offset: 92598},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -9793,9 +9793,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2937, col: 8, offset: 92487},
+																																															pos: position{line: 2941, col: 8, offset: 92758},
 																																															expr: &anyMatcher{
-																																																line: 2937, col: 9, offset: 92488,
+																																																line: 2941, col: 9, offset: 92759,
 																																															},
 																																														},
 																																													},
@@ -9808,32 +9808,32 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&actionExpr{
-																																						pos: position{line: 2708, col: 9, offset: 85958},
+																																						pos: position{line: 2712, col: 9, offset: 86229},
 																																						run: (*parser).callonDocumentFragment1280,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2708, col: 9, offset: 85958},
+																																							pos: position{line: 2712, col: 9, offset: 86229},
 																																							exprs: []interface{}{
 																																								&notExpr{
-																																									pos: position{line: 2708, col: 9, offset: 85958},
+																																									pos: position{line: 2712, col: 9, offset: 86229},
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2657, col: 22, offset: 84743},
+																																										pos: position{line: 2661, col: 22, offset: 85014},
 																																										alternatives: []interface{}{
 																																											&seqExpr{
-																																												pos: position{line: 2653, col: 19, offset: 84663},
+																																												pos: position{line: 2657, col: 19, offset: 84934},
 																																												exprs: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2653, col: 19, offset: 84663},
+																																														pos:        position{line: 2657, col: 19, offset: 84934},
 																																														val:        "|===",
 																																														ignoreCase: false,
 																																														want:       "\"|===\"",
 																																													},
 																																													&zeroOrMoreExpr{
-																																														pos: position{line: 2653, col: 26, offset: 84670},
+																																														pos: position{line: 2657, col: 26, offset: 84941},
 																																														expr: &actionExpr{
-																																															pos: position{line: 2918, col: 10, offset: 92139},
+																																															pos: position{line: 2922, col: 10, offset: 92410},
 																																															run: (*parser).callonDocumentFragment1287,
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2918, col: 10, offset: 92139},
+																																																pos:        position{line: 2922, col: 10, offset: 92410},
 																																																val:        "[\\t ]",
 																																																chars:      []rune{'\t', ' '},
 																																																ignoreCase: false,
@@ -9842,28 +9842,28 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&choiceExpr{
-																																														pos: position{line: 2940, col: 8, offset: 92537},
+																																														pos: position{line: 2944, col: 8, offset: 92808},
 																																														alternatives: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2927, col: 12, offset: 92310},
+																																																pos: position{line: 2931, col: 12, offset: 92581},
 																																																run: (*parser).callonDocumentFragment1290,
 																																																expr: &choiceExpr{
-																																																	pos: position{line: 2927, col: 13, offset: 92311},
+																																																	pos: position{line: 2931, col: 13, offset: 92582},
 																																																	alternatives: []interface{}{
 																																																		&litMatcher{
-																																																			pos:        position{line: 2927, col: 13, offset: 92311},
+																																																			pos:        position{line: 2931, col: 13, offset: 92582},
 																																																			val:        "\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2927, col: 20, offset: 92318},
+																																																			pos:        position{line: 2931, col: 20, offset: 92589},
 																																																			val:        "\r\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2927, col: 29, offset: 92327},
+																																																			pos:        position{line: 2931, col: 29, offset: 92598},
 																																																			val:        "\r",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\"",
@@ -9872,9 +9872,9 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&notExpr{
-																																																pos: position{line: 2937, col: 8, offset: 92487},
+																																																pos: position{line: 2941, col: 8, offset: 92758},
 																																																expr: &anyMatcher{
-																																																	line: 2937, col: 9, offset: 92488,
+																																																	line: 2941, col: 9, offset: 92759,
 																																																},
 																																															},
 																																														},
@@ -9882,35 +9882,35 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2937, col: 8, offset: 92487},
+																																												pos: position{line: 2941, col: 8, offset: 92758},
 																																												expr: &anyMatcher{
-																																													line: 2937, col: 9, offset: 92488,
+																																													line: 2941, col: 9, offset: 92759,
 																																												},
 																																											},
 																																										},
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2709, col: 9, offset: 85985},
+																																									pos: position{line: 2713, col: 9, offset: 86256},
 																																									expr: &actionExpr{
-																																										pos: position{line: 686, col: 14, offset: 21901},
+																																										pos: position{line: 690, col: 14, offset: 22172},
 																																										run: (*parser).callonDocumentFragment1300,
 																																										expr: &seqExpr{
-																																											pos: position{line: 686, col: 14, offset: 21901},
+																																											pos: position{line: 690, col: 14, offset: 22172},
 																																											exprs: []interface{}{
 																																												&andExpr{
-																																													pos: position{line: 2935, col: 11, offset: 92473},
+																																													pos: position{line: 2939, col: 11, offset: 92744},
 																																													expr: &anyMatcher{
-																																														line: 2935, col: 13, offset: 92475,
+																																														line: 2939, col: 13, offset: 92746,
 																																													},
 																																												},
 																																												&zeroOrMoreExpr{
-																																													pos: position{line: 686, col: 21, offset: 21908},
+																																													pos: position{line: 690, col: 21, offset: 22179},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2918, col: 10, offset: 92139},
+																																														pos: position{line: 2922, col: 10, offset: 92410},
 																																														run: (*parser).callonDocumentFragment1305,
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2918, col: 10, offset: 92139},
+																																															pos:        position{line: 2922, col: 10, offset: 92410},
 																																															val:        "[\\t ]",
 																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
@@ -9919,28 +9919,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2940, col: 8, offset: 92537},
+																																													pos: position{line: 2944, col: 8, offset: 92808},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2927, col: 12, offset: 92310},
+																																															pos: position{line: 2931, col: 12, offset: 92581},
 																																															run: (*parser).callonDocumentFragment1308,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2927, col: 13, offset: 92311},
+																																																pos: position{line: 2931, col: 13, offset: 92582},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2927, col: 13, offset: 92311},
+																																																		pos:        position{line: 2931, col: 13, offset: 92582},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2927, col: 20, offset: 92318},
+																																																		pos:        position{line: 2931, col: 20, offset: 92589},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2927, col: 29, offset: 92327},
+																																																		pos:        position{line: 2931, col: 29, offset: 92598},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -9949,9 +9949,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2937, col: 8, offset: 92487},
+																																															pos: position{line: 2941, col: 8, offset: 92758},
 																																															expr: &anyMatcher{
-																																																line: 2937, col: 9, offset: 92488,
+																																																line: 2941, col: 9, offset: 92759,
 																																															},
 																																														},
 																																													},
@@ -9961,22 +9961,22 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2710, col: 9, offset: 86004},
+																																									pos: position{line: 2714, col: 9, offset: 86275},
 																																									expr: &seqExpr{
-																																										pos: position{line: 2710, col: 11, offset: 86006},
+																																										pos: position{line: 2714, col: 11, offset: 86277},
 																																										exprs: []interface{}{
 																																											&labeledExpr{
-																																												pos:   position{line: 2710, col: 11, offset: 86006},
+																																												pos:   position{line: 2714, col: 11, offset: 86277},
 																																												label: "format",
 																																												expr: &zeroOrOneExpr{
-																																													pos: position{line: 2710, col: 18, offset: 86013},
+																																													pos: position{line: 2714, col: 18, offset: 86284},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2718, col: 20, offset: 86214},
+																																														pos: position{line: 2722, col: 20, offset: 86485},
 																																														run: (*parser).callonDocumentFragment1319,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2718, col: 20, offset: 86214},
+																																															pos: position{line: 2722, col: 20, offset: 86485},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2718, col: 20, offset: 86214},
+																																																pos:        position{line: 2722, col: 20, offset: 86485},
 																																																val:        "[^ |\\r\\n]",
 																																																chars:      []rune{' ', '|', '\r', '\n'},
 																																																ignoreCase: false,
@@ -9987,7 +9987,7 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2710, col: 37, offset: 86032},
+																																												pos:        position{line: 2714, col: 37, offset: 86303},
 																																												val:        "|",
 																																												ignoreCase: false,
 																																												want:       "\"|\"",
@@ -9996,15 +9996,15 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2711, col: 9, offset: 86045},
+																																									pos:   position{line: 2715, col: 9, offset: 86316},
 																																									label: "content",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2711, col: 18, offset: 86054},
+																																										pos: position{line: 2715, col: 18, offset: 86325},
 																																										run: (*parser).callonDocumentFragment1324,
 																																										expr: &zeroOrMoreExpr{
-																																											pos: position{line: 2711, col: 18, offset: 86054},
+																																											pos: position{line: 2715, col: 18, offset: 86325},
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2711, col: 18, offset: 86054},
+																																												pos:        position{line: 2715, col: 18, offset: 86325},
 																																												val:        "[^|\\r\\n]",
 																																												chars:      []rune{'|', '\r', '\n'},
 																																												ignoreCase: false,
@@ -10014,30 +10014,30 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&zeroOrOneExpr{
-																																									pos: position{line: 2713, col: 12, offset: 86116},
+																																									pos: position{line: 2717, col: 12, offset: 86387},
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2940, col: 8, offset: 92537},
+																																										pos: position{line: 2944, col: 8, offset: 92808},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2927, col: 12, offset: 92310},
+																																												pos: position{line: 2931, col: 12, offset: 92581},
 																																												run: (*parser).callonDocumentFragment1329,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2927, col: 13, offset: 92311},
+																																													pos: position{line: 2931, col: 13, offset: 92582},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2927, col: 13, offset: 92311},
+																																															pos:        position{line: 2931, col: 13, offset: 92582},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2927, col: 20, offset: 92318},
+																																															pos:        position{line: 2931, col: 20, offset: 92589},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2927, col: 29, offset: 92327},
+																																															pos:        position{line: 2931, col: 29, offset: 92598},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -10046,9 +10046,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2937, col: 8, offset: 92487},
+																																												pos: position{line: 2941, col: 8, offset: 92758},
 																																												expr: &anyMatcher{
-																																													line: 2937, col: 9, offset: 92488,
+																																													line: 2941, col: 9, offset: 92759,
 																																												},
 																																											},
 																																										},
@@ -10072,24 +10072,24 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 686, col: 14, offset: 21901},
+																								pos: position{line: 690, col: 14, offset: 22172},
 																								run: (*parser).callonDocumentFragment1336,
 																								expr: &seqExpr{
-																									pos: position{line: 686, col: 14, offset: 21901},
+																									pos: position{line: 690, col: 14, offset: 22172},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2935, col: 11, offset: 92473},
+																											pos: position{line: 2939, col: 11, offset: 92744},
 																											expr: &anyMatcher{
-																												line: 2935, col: 13, offset: 92475,
+																												line: 2939, col: 13, offset: 92746,
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 686, col: 21, offset: 21908},
+																											pos: position{line: 690, col: 21, offset: 22179},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92139},
+																												pos: position{line: 2922, col: 10, offset: 92410},
 																												run: (*parser).callonDocumentFragment1341,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92139},
+																													pos:        position{line: 2922, col: 10, offset: 92410},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10098,28 +10098,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92537},
+																											pos: position{line: 2944, col: 8, offset: 92808},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92310},
+																													pos: position{line: 2931, col: 12, offset: 92581},
 																													run: (*parser).callonDocumentFragment1344,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92311},
+																														pos: position{line: 2931, col: 13, offset: 92582},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92311},
+																																pos:        position{line: 2931, col: 13, offset: 92582},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92318},
+																																pos:        position{line: 2931, col: 20, offset: 92589},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92327},
+																																pos:        position{line: 2931, col: 29, offset: 92598},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10128,9 +10128,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92487},
+																													pos: position{line: 2941, col: 8, offset: 92758},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92488,
+																														line: 2941, col: 9, offset: 92759,
 																													},
 																												},
 																											},
@@ -10149,24 +10149,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2657, col: 22, offset: 84743},
+														pos: position{line: 2661, col: 22, offset: 85014},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2653, col: 19, offset: 84663},
+																pos: position{line: 2657, col: 19, offset: 84934},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2653, col: 19, offset: 84663},
+																		pos:        position{line: 2657, col: 19, offset: 84934},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2653, col: 26, offset: 84670},
+																		pos: position{line: 2657, col: 26, offset: 84941},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92139},
+																			pos: position{line: 2922, col: 10, offset: 92410},
 																			run: (*parser).callonDocumentFragment1355,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92139},
+																				pos:        position{line: 2922, col: 10, offset: 92410},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10175,28 +10175,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92537},
+																		pos: position{line: 2944, col: 8, offset: 92808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonDocumentFragment1358,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10205,9 +10205,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92487},
+																				pos: position{line: 2941, col: 8, offset: 92758},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92488,
+																					line: 2941, col: 9, offset: 92759,
 																				},
 																			},
 																		},
@@ -10215,9 +10215,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92487},
+																pos: position{line: 2941, col: 8, offset: 92758},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92488,
+																	line: 2941, col: 9, offset: 92759,
 																},
 															},
 														},
@@ -10226,36 +10226,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2521, col: 22, offset: 80917},
+											pos: position{line: 2525, col: 22, offset: 81188},
 											run: (*parser).callonDocumentFragment1367,
 											expr: &seqExpr{
-												pos: position{line: 2521, col: 22, offset: 80917},
+												pos: position{line: 2525, col: 22, offset: 81188},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2526, col: 31, offset: 81167},
+														pos:        position{line: 2530, col: 31, offset: 81438},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2526, col: 36, offset: 81172},
+														pos: position{line: 2530, col: 36, offset: 81443},
 														expr: &litMatcher{
-															pos:        position{line: 2526, col: 37, offset: 81173},
+															pos:        position{line: 2530, col: 37, offset: 81444},
 															val:        "/",
 															ignoreCase: false,
 															want:       "\"/\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2521, col: 49, offset: 80944},
+														pos:   position{line: 2525, col: 49, offset: 81215},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2864, col: 13, offset: 90665},
+															pos: position{line: 2868, col: 13, offset: 90936},
 															run: (*parser).callonDocumentFragment1373,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2864, col: 13, offset: 90665},
+																pos: position{line: 2868, col: 13, offset: 90936},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2864, col: 13, offset: 90665},
+																	pos:        position{line: 2868, col: 13, offset: 90936},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10265,28 +10265,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2940, col: 8, offset: 92537},
+														pos: position{line: 2944, col: 8, offset: 92808},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92310},
+																pos: position{line: 2931, col: 12, offset: 92581},
 																run: (*parser).callonDocumentFragment1377,
 																expr: &choiceExpr{
-																	pos: position{line: 2927, col: 13, offset: 92311},
+																	pos: position{line: 2931, col: 13, offset: 92582},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 13, offset: 92311},
+																			pos:        position{line: 2931, col: 13, offset: 92582},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 20, offset: 92318},
+																			pos:        position{line: 2931, col: 20, offset: 92589},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 29, offset: 92327},
+																			pos:        position{line: 2931, col: 29, offset: 92598},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10295,9 +10295,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92487},
+																pos: position{line: 2941, col: 8, offset: 92758},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92488,
+																	line: 2941, col: 9, offset: 92759,
 																},
 															},
 														},
@@ -10306,37 +10306,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1231, col: 5, offset: 38278},
+											pos: position{line: 1235, col: 5, offset: 38549},
 											run: (*parser).callonDocumentFragment1384,
 											expr: &seqExpr{
-												pos: position{line: 1231, col: 5, offset: 38278},
+												pos: position{line: 1235, col: 5, offset: 38549},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1231, col: 5, offset: 38278},
+														pos: position{line: 1235, col: 5, offset: 38549},
 														run: (*parser).callonDocumentFragment1386,
 													},
 													&labeledExpr{
-														pos:   position{line: 1234, col: 5, offset: 38336},
+														pos:   position{line: 1238, col: 5, offset: 38607},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1239, col: 20, offset: 38431},
+															pos: position{line: 1243, col: 20, offset: 38702},
 															run: (*parser).callonDocumentFragment1388,
 															expr: &seqExpr{
-																pos: position{line: 1239, col: 20, offset: 38431},
+																pos: position{line: 1243, col: 20, offset: 38702},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1243, col: 30, offset: 38603},
+																		pos:        position{line: 1247, col: 30, offset: 38874},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1243, col: 36, offset: 38609},
+																		pos: position{line: 1247, col: 36, offset: 38880},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92139},
+																			pos: position{line: 2922, col: 10, offset: 92410},
 																			run: (*parser).callonDocumentFragment1392,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92139},
+																				pos:        position{line: 2922, col: 10, offset: 92410},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10345,28 +10345,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92537},
+																		pos: position{line: 2944, col: 8, offset: 92808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonDocumentFragment1395,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10375,46 +10375,46 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92487},
+																				pos: position{line: 2941, col: 8, offset: 92758},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92488,
+																					line: 2941, col: 9, offset: 92759,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1239, col: 45, offset: 38456},
+																		pos:   position{line: 1243, col: 45, offset: 38727},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1239, col: 53, offset: 38464},
+																			pos: position{line: 1243, col: 53, offset: 38735},
 																			expr: &actionExpr{
-																				pos: position{line: 1245, col: 27, offset: 38647},
+																				pos: position{line: 1249, col: 27, offset: 38918},
 																				run: (*parser).callonDocumentFragment1404,
 																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1245, col: 27, offset: 38647},
+																					pos: position{line: 1249, col: 27, offset: 38918},
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1245, col: 28, offset: 38648},
+																						pos: position{line: 1249, col: 28, offset: 38919},
 																						expr: &seqExpr{
-																							pos: position{line: 1245, col: 29, offset: 38649},
+																							pos: position{line: 1249, col: 29, offset: 38920},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 1245, col: 29, offset: 38649},
+																									pos: position{line: 1249, col: 29, offset: 38920},
 																									expr: &seqExpr{
-																										pos: position{line: 1243, col: 30, offset: 38603},
+																										pos: position{line: 1247, col: 30, offset: 38874},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 1243, col: 30, offset: 38603},
+																												pos:        position{line: 1247, col: 30, offset: 38874},
 																												val:        "---",
 																												ignoreCase: false,
 																												want:       "\"---\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 1243, col: 36, offset: 38609},
+																												pos: position{line: 1247, col: 36, offset: 38880},
 																												expr: &actionExpr{
-																													pos: position{line: 2918, col: 10, offset: 92139},
+																													pos: position{line: 2922, col: 10, offset: 92410},
 																													run: (*parser).callonDocumentFragment1412,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2918, col: 10, offset: 92139},
+																														pos:        position{line: 2922, col: 10, offset: 92410},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10423,28 +10423,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2940, col: 8, offset: 92537},
+																												pos: position{line: 2944, col: 8, offset: 92808},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2927, col: 12, offset: 92310},
+																														pos: position{line: 2931, col: 12, offset: 92581},
 																														run: (*parser).callonDocumentFragment1415,
 																														expr: &choiceExpr{
-																															pos: position{line: 2927, col: 13, offset: 92311},
+																															pos: position{line: 2931, col: 13, offset: 92582},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 13, offset: 92311},
+																																	pos:        position{line: 2931, col: 13, offset: 92582},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 20, offset: 92318},
+																																	pos:        position{line: 2931, col: 20, offset: 92589},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 29, offset: 92327},
+																																	pos:        position{line: 2931, col: 29, offset: 92598},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10453,9 +10453,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2937, col: 8, offset: 92487},
+																														pos: position{line: 2941, col: 8, offset: 92758},
 																														expr: &anyMatcher{
-																															line: 2937, col: 9, offset: 92488,
+																															line: 2941, col: 9, offset: 92759,
 																														},
 																													},
 																												},
@@ -10464,7 +10464,7 @@ var g = &grammar{
 																									},
 																								},
 																								&anyMatcher{
-																									line: 1245, col: 55, offset: 38675,
+																									line: 1249, col: 55, offset: 38946,
 																								},
 																							},
 																						},
@@ -10474,18 +10474,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1243, col: 30, offset: 38603},
+																		pos:        position{line: 1247, col: 30, offset: 38874},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1243, col: 36, offset: 38609},
+																		pos: position{line: 1247, col: 36, offset: 38880},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92139},
+																			pos: position{line: 2922, col: 10, offset: 92410},
 																			run: (*parser).callonDocumentFragment1425,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92139},
+																				pos:        position{line: 2922, col: 10, offset: 92410},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10494,28 +10494,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92537},
+																		pos: position{line: 2944, col: 8, offset: 92808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonDocumentFragment1428,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10524,9 +10524,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92487},
+																				pos: position{line: 2941, col: 8, offset: 92758},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92488,
+																					line: 2941, col: 9, offset: 92759,
 																				},
 																			},
 																		},
@@ -10576,27 +10576,27 @@ var g = &grammar{
 									pos: position{line: 284, col: 9, offset: 8489},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1207, col: 23, offset: 37384},
+											pos: position{line: 1211, col: 23, offset: 37655},
 											run: (*parser).callonDelimitedBlockElements7,
 											expr: &seqExpr{
-												pos: position{line: 1207, col: 23, offset: 37384},
+												pos: position{line: 1211, col: 23, offset: 37655},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1205, col: 32, offset: 37352},
+														pos:        position{line: 1209, col: 32, offset: 37623},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1207, col: 51, offset: 37412},
+														pos:   position{line: 1211, col: 51, offset: 37683},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1207, col: 56, offset: 37417},
+															pos: position{line: 1211, col: 56, offset: 37688},
 															run: (*parser).callonDelimitedBlockElements11,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1207, col: 56, offset: 37417},
+																pos: position{line: 1211, col: 56, offset: 37688},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1207, col: 56, offset: 37417},
+																	pos:        position{line: 1211, col: 56, offset: 37688},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -10606,7 +10606,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1205, col: 32, offset: 37352},
+														pos:        position{line: 1209, col: 32, offset: 37623},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -10623,9 +10623,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2937, col: 8, offset: 92487},
+							pos: position{line: 2941, col: 8, offset: 92758},
 							expr: &anyMatcher{
-								line: 2937, col: 9, offset: 92488,
+								line: 2941, col: 9, offset: 92759,
 							},
 						},
 					},
@@ -10697,12 +10697,12 @@ var g = &grammar{
 										pos: position{line: 307, col: 9, offset: 9333},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2922, col: 11, offset: 92200},
+												pos: position{line: 2926, col: 11, offset: 92471},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2922, col: 11, offset: 92200},
+													pos: position{line: 2926, col: 11, offset: 92471},
 													expr: &charClassMatcher{
-														pos:        position{line: 2922, col: 11, offset: 92200},
+														pos:        position{line: 2926, col: 11, offset: 92471},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10724,28 +10724,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2940, col: 8, offset: 92537},
+							pos: position{line: 2944, col: 8, offset: 92808},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2927, col: 12, offset: 92310},
+									pos: position{line: 2931, col: 12, offset: 92581},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2927, col: 13, offset: 92311},
+										pos: position{line: 2931, col: 13, offset: 92582},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2927, col: 13, offset: 92311},
+												pos:        position{line: 2931, col: 13, offset: 92582},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 20, offset: 92318},
+												pos:        position{line: 2931, col: 20, offset: 92589},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 29, offset: 92327},
+												pos:        position{line: 2931, col: 29, offset: 92598},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10754,9 +10754,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2937, col: 8, offset: 92487},
+									pos: position{line: 2941, col: 8, offset: 92758},
 									expr: &anyMatcher{
-										line: 2937, col: 9, offset: 92488,
+										line: 2941, col: 9, offset: 92759,
 									},
 								},
 							},
@@ -10800,25 +10800,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2927, col: 12, offset: 92310},
+												pos: position{line: 2931, col: 12, offset: 92581},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2927, col: 13, offset: 92311},
+													pos: position{line: 2931, col: 13, offset: 92582},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2927, col: 13, offset: 92311},
+															pos:        position{line: 2931, col: 13, offset: 92582},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2927, col: 20, offset: 92318},
+															pos:        position{line: 2931, col: 20, offset: 92589},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2927, col: 29, offset: 92327},
+															pos:        position{line: 2931, col: 29, offset: 92598},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10829,10 +10829,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 328, col: 9, offset: 10034},
 												expr: &actionExpr{
-													pos: position{line: 2918, col: 10, offset: 92139},
+													pos: position{line: 2922, col: 10, offset: 92410},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2918, col: 10, offset: 92139},
+														pos:        position{line: 2922, col: 10, offset: 92410},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10902,10 +10902,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 346, col: 13, offset: 10579},
 										expr: &actionExpr{
-											pos: position{line: 2918, col: 10, offset: 92139},
+											pos: position{line: 2922, col: 10, offset: 92410},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2918, col: 10, offset: 92139},
+												pos:        position{line: 2922, col: 10, offset: 92410},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10914,28 +10914,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2940, col: 8, offset: 92537},
+										pos: position{line: 2944, col: 8, offset: 92808},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2927, col: 12, offset: 92310},
+												pos: position{line: 2931, col: 12, offset: 92581},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2927, col: 13, offset: 92311},
+													pos: position{line: 2931, col: 13, offset: 92582},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2927, col: 13, offset: 92311},
+															pos:        position{line: 2931, col: 13, offset: 92582},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2927, col: 20, offset: 92318},
+															pos:        position{line: 2931, col: 20, offset: 92589},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2927, col: 29, offset: 92327},
+															pos:        position{line: 2931, col: 29, offset: 92598},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10944,9 +10944,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2937, col: 8, offset: 92487},
+												pos: position{line: 2941, col: 8, offset: 92758},
 												expr: &anyMatcher{
-													line: 2937, col: 9, offset: 92488,
+													line: 2941, col: 9, offset: 92759,
 												},
 											},
 										},
@@ -10979,23 +10979,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2508, col: 5, offset: 80463},
+										pos: position{line: 2512, col: 5, offset: 80734},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2508, col: 5, offset: 80463},
+											pos: position{line: 2512, col: 5, offset: 80734},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2508, col: 5, offset: 80463},
+													pos: position{line: 2512, col: 5, offset: 80734},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2511, col: 5, offset: 80539},
+													pos:   position{line: 2515, col: 5, offset: 80810},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2512, col: 9, offset: 80557},
+														pos: position{line: 2516, col: 9, offset: 80828},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2512, col: 10, offset: 80558},
+															pos:        position{line: 2516, col: 10, offset: 80829},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -11007,10 +11007,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2918, col: 10, offset: 92139},
+										pos: position{line: 2922, col: 10, offset: 92410},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2918, col: 10, offset: 92139},
+											pos:        position{line: 2922, col: 10, offset: 92410},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11018,35 +11018,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 645, col: 5, offset: 20519},
+										pos: position{line: 649, col: 5, offset: 20790},
 										run: (*parser).callonAttributeDeclarationValueElement32,
 										expr: &seqExpr{
-											pos: position{line: 645, col: 5, offset: 20519},
+											pos: position{line: 649, col: 5, offset: 20790},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 645, col: 5, offset: 20519},
+													pos: position{line: 649, col: 5, offset: 20790},
 													run: (*parser).callonAttributeDeclarationValueElement34,
 												},
 												&labeledExpr{
-													pos:   position{line: 648, col: 5, offset: 20591},
+													pos:   position{line: 652, col: 5, offset: 20862},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 648, col: 14, offset: 20600},
+														pos: position{line: 652, col: 14, offset: 20871},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 654, col: 5, offset: 20729},
+																pos: position{line: 658, col: 5, offset: 21000},
 																run: (*parser).callonAttributeDeclarationValueElement37,
 																expr: &seqExpr{
-																	pos: position{line: 654, col: 5, offset: 20729},
+																	pos: position{line: 658, col: 5, offset: 21000},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 654, col: 5, offset: 20729},
+																			pos:        position{line: 658, col: 5, offset: 21000},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 654, col: 13, offset: 20737},
+																			pos:   position{line: 658, col: 13, offset: 21008},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -11078,7 +11078,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 654, col: 32, offset: 20756},
+																			pos:        position{line: 658, col: 32, offset: 21027},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11087,19 +11087,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 661, col: 5, offset: 20997},
+																pos: position{line: 665, col: 5, offset: 21268},
 																run: (*parser).callonAttributeDeclarationValueElement47,
 																expr: &seqExpr{
-																	pos: position{line: 661, col: 5, offset: 20997},
+																	pos: position{line: 665, col: 5, offset: 21268},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 661, col: 5, offset: 20997},
+																			pos:        position{line: 665, col: 5, offset: 21268},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 661, col: 9, offset: 21001},
+																			pos:   position{line: 665, col: 9, offset: 21272},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -11131,7 +11131,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 661, col: 28, offset: 21020},
+																			pos:        position{line: 665, col: 28, offset: 21291},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11140,19 +11140,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 667, col: 25, offset: 21201},
+																pos: position{line: 671, col: 25, offset: 21472},
 																run: (*parser).callonAttributeDeclarationValueElement57,
 																expr: &seqExpr{
-																	pos: position{line: 667, col: 25, offset: 21201},
+																	pos: position{line: 671, col: 25, offset: 21472},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 667, col: 25, offset: 21201},
+																			pos:        position{line: 671, col: 25, offset: 21472},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 667, col: 37, offset: 21213},
+																			pos:   position{line: 671, col: 37, offset: 21484},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -11184,33 +11184,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 667, col: 56, offset: 21232},
+																			pos:   position{line: 671, col: 56, offset: 21503},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 667, col: 62, offset: 21238},
+																				pos: position{line: 671, col: 62, offset: 21509},
 																				expr: &actionExpr{
-																					pos: position{line: 675, col: 17, offset: 21535},
+																					pos: position{line: 679, col: 17, offset: 21806},
 																					run: (*parser).callonAttributeDeclarationValueElement68,
 																					expr: &seqExpr{
-																						pos: position{line: 675, col: 17, offset: 21535},
+																						pos: position{line: 679, col: 17, offset: 21806},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 675, col: 17, offset: 21535},
+																								pos:        position{line: 679, col: 17, offset: 21806},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 675, col: 21, offset: 21539},
+																								pos:   position{line: 679, col: 21, offset: 21810},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 675, col: 28, offset: 21546},
+																									pos: position{line: 679, col: 28, offset: 21817},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 675, col: 28, offset: 21546},
+																											pos: position{line: 679, col: 28, offset: 21817},
 																											run: (*parser).callonAttributeDeclarationValueElement73,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 675, col: 28, offset: 21546},
+																												pos:        position{line: 679, col: 28, offset: 21817},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11218,12 +11218,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 677, col: 9, offset: 21600},
+																											pos: position{line: 681, col: 9, offset: 21871},
 																											run: (*parser).callonAttributeDeclarationValueElement75,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 677, col: 9, offset: 21600},
+																												pos: position{line: 681, col: 9, offset: 21871},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 677, col: 9, offset: 21600},
+																													pos:        position{line: 681, col: 9, offset: 21871},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11240,7 +11240,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 667, col: 78, offset: 21254},
+																			pos:        position{line: 671, col: 78, offset: 21525},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11249,19 +11249,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 671, col: 25, offset: 21372},
+																pos: position{line: 675, col: 25, offset: 21643},
 																run: (*parser).callonAttributeDeclarationValueElement79,
 																expr: &seqExpr{
-																	pos: position{line: 671, col: 25, offset: 21372},
+																	pos: position{line: 675, col: 25, offset: 21643},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 671, col: 25, offset: 21372},
+																			pos:        position{line: 675, col: 25, offset: 21643},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 671, col: 38, offset: 21385},
+																			pos:   position{line: 675, col: 38, offset: 21656},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -11293,33 +11293,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 671, col: 57, offset: 21404},
+																			pos:   position{line: 675, col: 57, offset: 21675},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 671, col: 63, offset: 21410},
+																				pos: position{line: 675, col: 63, offset: 21681},
 																				expr: &actionExpr{
-																					pos: position{line: 675, col: 17, offset: 21535},
+																					pos: position{line: 679, col: 17, offset: 21806},
 																					run: (*parser).callonAttributeDeclarationValueElement90,
 																					expr: &seqExpr{
-																						pos: position{line: 675, col: 17, offset: 21535},
+																						pos: position{line: 679, col: 17, offset: 21806},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 675, col: 17, offset: 21535},
+																								pos:        position{line: 679, col: 17, offset: 21806},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 675, col: 21, offset: 21539},
+																								pos:   position{line: 679, col: 21, offset: 21810},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 675, col: 28, offset: 21546},
+																									pos: position{line: 679, col: 28, offset: 21817},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 675, col: 28, offset: 21546},
+																											pos: position{line: 679, col: 28, offset: 21817},
 																											run: (*parser).callonAttributeDeclarationValueElement95,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 675, col: 28, offset: 21546},
+																												pos:        position{line: 679, col: 28, offset: 21817},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11327,12 +11327,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 677, col: 9, offset: 21600},
+																											pos: position{line: 681, col: 9, offset: 21871},
 																											run: (*parser).callonAttributeDeclarationValueElement97,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 677, col: 9, offset: 21600},
+																												pos: position{line: 681, col: 9, offset: 21871},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 677, col: 9, offset: 21600},
+																													pos:        position{line: 681, col: 9, offset: 21871},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11349,7 +11349,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 671, col: 79, offset: 21426},
+																			pos:        position{line: 675, col: 79, offset: 21697},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11434,27 +11434,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1207, col: 23, offset: 37384},
+																						pos: position{line: 1211, col: 23, offset: 37655},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1207, col: 23, offset: 37384},
+																							pos: position{line: 1211, col: 23, offset: 37655},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1205, col: 32, offset: 37352},
+																									pos:        position{line: 1209, col: 32, offset: 37623},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1207, col: 51, offset: 37412},
+																									pos:   position{line: 1211, col: 51, offset: 37683},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1207, col: 56, offset: 37417},
+																										pos: position{line: 1211, col: 56, offset: 37688},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1207, col: 56, offset: 37417},
+																											pos: position{line: 1211, col: 56, offset: 37688},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1207, col: 56, offset: 37417},
+																												pos:        position{line: 1211, col: 56, offset: 37688},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11464,7 +11464,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1205, col: 32, offset: 37352},
+																									pos:        position{line: 1209, col: 32, offset: 37623},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
@@ -11473,35 +11473,35 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20519},
+																						pos: position{line: 649, col: 5, offset: 20790},
 																						run: (*parser).callonBlockAttributes27,
 																						expr: &seqExpr{
-																							pos: position{line: 645, col: 5, offset: 20519},
+																							pos: position{line: 649, col: 5, offset: 20790},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 645, col: 5, offset: 20519},
+																									pos: position{line: 649, col: 5, offset: 20790},
 																									run: (*parser).callonBlockAttributes29,
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 648, col: 5, offset: 20591},
+																									pos:   position{line: 652, col: 5, offset: 20862},
 																									label: "element",
 																									expr: &choiceExpr{
-																										pos: position{line: 648, col: 14, offset: 20600},
+																										pos: position{line: 652, col: 14, offset: 20871},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 654, col: 5, offset: 20729},
+																												pos: position{line: 658, col: 5, offset: 21000},
 																												run: (*parser).callonBlockAttributes32,
 																												expr: &seqExpr{
-																													pos: position{line: 654, col: 5, offset: 20729},
+																													pos: position{line: 658, col: 5, offset: 21000},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 654, col: 5, offset: 20729},
+																															pos:        position{line: 658, col: 5, offset: 21000},
 																															val:        "\\{",
 																															ignoreCase: false,
 																															want:       "\"\\\\{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 654, col: 13, offset: 20737},
+																															pos:   position{line: 658, col: 13, offset: 21008},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 320, col: 18, offset: 9837},
@@ -11533,7 +11533,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 654, col: 32, offset: 20756},
+																															pos:        position{line: 658, col: 32, offset: 21027},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11542,19 +11542,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 661, col: 5, offset: 20997},
+																												pos: position{line: 665, col: 5, offset: 21268},
 																												run: (*parser).callonBlockAttributes42,
 																												expr: &seqExpr{
-																													pos: position{line: 661, col: 5, offset: 20997},
+																													pos: position{line: 665, col: 5, offset: 21268},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 661, col: 5, offset: 20997},
+																															pos:        position{line: 665, col: 5, offset: 21268},
 																															val:        "{",
 																															ignoreCase: false,
 																															want:       "\"{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 661, col: 9, offset: 21001},
+																															pos:   position{line: 665, col: 9, offset: 21272},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 320, col: 18, offset: 9837},
@@ -11586,7 +11586,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 661, col: 28, offset: 21020},
+																															pos:        position{line: 665, col: 28, offset: 21291},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11595,19 +11595,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 667, col: 25, offset: 21201},
+																												pos: position{line: 671, col: 25, offset: 21472},
 																												run: (*parser).callonBlockAttributes52,
 																												expr: &seqExpr{
-																													pos: position{line: 667, col: 25, offset: 21201},
+																													pos: position{line: 671, col: 25, offset: 21472},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 667, col: 25, offset: 21201},
+																															pos:        position{line: 671, col: 25, offset: 21472},
 																															val:        "{counter:",
 																															ignoreCase: false,
 																															want:       "\"{counter:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 667, col: 37, offset: 21213},
+																															pos:   position{line: 671, col: 37, offset: 21484},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 320, col: 18, offset: 9837},
@@ -11639,33 +11639,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 667, col: 56, offset: 21232},
+																															pos:   position{line: 671, col: 56, offset: 21503},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 667, col: 62, offset: 21238},
+																																pos: position{line: 671, col: 62, offset: 21509},
 																																expr: &actionExpr{
-																																	pos: position{line: 675, col: 17, offset: 21535},
+																																	pos: position{line: 679, col: 17, offset: 21806},
 																																	run: (*parser).callonBlockAttributes63,
 																																	expr: &seqExpr{
-																																		pos: position{line: 675, col: 17, offset: 21535},
+																																		pos: position{line: 679, col: 17, offset: 21806},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 675, col: 17, offset: 21535},
+																																				pos:        position{line: 679, col: 17, offset: 21806},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 675, col: 21, offset: 21539},
+																																				pos:   position{line: 679, col: 21, offset: 21810},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 675, col: 28, offset: 21546},
+																																					pos: position{line: 679, col: 28, offset: 21817},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 675, col: 28, offset: 21546},
+																																							pos: position{line: 679, col: 28, offset: 21817},
 																																							run: (*parser).callonBlockAttributes68,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 675, col: 28, offset: 21546},
+																																								pos:        position{line: 679, col: 28, offset: 21817},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11673,12 +11673,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 677, col: 9, offset: 21600},
+																																							pos: position{line: 681, col: 9, offset: 21871},
 																																							run: (*parser).callonBlockAttributes70,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 677, col: 9, offset: 21600},
+																																								pos: position{line: 681, col: 9, offset: 21871},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 677, col: 9, offset: 21600},
+																																									pos:        position{line: 681, col: 9, offset: 21871},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11695,7 +11695,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 667, col: 78, offset: 21254},
+																															pos:        position{line: 671, col: 78, offset: 21525},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11704,19 +11704,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 671, col: 25, offset: 21372},
+																												pos: position{line: 675, col: 25, offset: 21643},
 																												run: (*parser).callonBlockAttributes74,
 																												expr: &seqExpr{
-																													pos: position{line: 671, col: 25, offset: 21372},
+																													pos: position{line: 675, col: 25, offset: 21643},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 671, col: 25, offset: 21372},
+																															pos:        position{line: 675, col: 25, offset: 21643},
 																															val:        "{counter2:",
 																															ignoreCase: false,
 																															want:       "\"{counter2:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 671, col: 38, offset: 21385},
+																															pos:   position{line: 675, col: 38, offset: 21656},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 320, col: 18, offset: 9837},
@@ -11748,33 +11748,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 671, col: 57, offset: 21404},
+																															pos:   position{line: 675, col: 57, offset: 21675},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 671, col: 63, offset: 21410},
+																																pos: position{line: 675, col: 63, offset: 21681},
 																																expr: &actionExpr{
-																																	pos: position{line: 675, col: 17, offset: 21535},
+																																	pos: position{line: 679, col: 17, offset: 21806},
 																																	run: (*parser).callonBlockAttributes85,
 																																	expr: &seqExpr{
-																																		pos: position{line: 675, col: 17, offset: 21535},
+																																		pos: position{line: 679, col: 17, offset: 21806},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 675, col: 17, offset: 21535},
+																																				pos:        position{line: 679, col: 17, offset: 21806},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 675, col: 21, offset: 21539},
+																																				pos:   position{line: 679, col: 21, offset: 21810},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 675, col: 28, offset: 21546},
+																																					pos: position{line: 679, col: 28, offset: 21817},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 675, col: 28, offset: 21546},
+																																							pos: position{line: 679, col: 28, offset: 21817},
 																																							run: (*parser).callonBlockAttributes90,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 675, col: 28, offset: 21546},
+																																								pos:        position{line: 679, col: 28, offset: 21817},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11782,12 +11782,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 677, col: 9, offset: 21600},
+																																							pos: position{line: 681, col: 9, offset: 21871},
 																																							run: (*parser).callonBlockAttributes92,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 677, col: 9, offset: 21600},
+																																								pos: position{line: 681, col: 9, offset: 21871},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 677, col: 9, offset: 21600},
+																																									pos:        position{line: 681, col: 9, offset: 21871},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11804,7 +11804,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 671, col: 79, offset: 21426},
+																															pos:        position{line: 675, col: 79, offset: 21697},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11847,10 +11847,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 374, col: 35, offset: 11588},
 												expr: &actionExpr{
-													pos: position{line: 2918, col: 10, offset: 92139},
+													pos: position{line: 2922, col: 10, offset: 92410},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2918, col: 10, offset: 92139},
+														pos:        position{line: 2922, col: 10, offset: 92410},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11859,28 +11859,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2940, col: 8, offset: 92537},
+												pos: position{line: 2944, col: 8, offset: 92808},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2927, col: 12, offset: 92310},
+														pos: position{line: 2931, col: 12, offset: 92581},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2927, col: 13, offset: 92311},
+															pos: position{line: 2931, col: 13, offset: 92582},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2927, col: 13, offset: 92311},
+																	pos:        position{line: 2931, col: 13, offset: 92582},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2927, col: 20, offset: 92318},
+																	pos:        position{line: 2931, col: 20, offset: 92589},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2927, col: 29, offset: 92327},
+																	pos:        position{line: 2931, col: 29, offset: 92598},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11889,9 +11889,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2937, col: 8, offset: 92487},
+														pos: position{line: 2941, col: 8, offset: 92758},
 														expr: &anyMatcher{
-															line: 2937, col: 9, offset: 92488,
+															line: 2941, col: 9, offset: 92759,
 														},
 													},
 												},
@@ -11902,24 +11902,24 @@ var g = &grammar{
 													pos: position{line: 374, col: 47, offset: 11600},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 686, col: 14, offset: 21901},
+															pos: position{line: 690, col: 14, offset: 22172},
 															run: (*parser).callonBlockAttributes112,
 															expr: &seqExpr{
-																pos: position{line: 686, col: 14, offset: 21901},
+																pos: position{line: 690, col: 14, offset: 22172},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2935, col: 11, offset: 92473},
+																		pos: position{line: 2939, col: 11, offset: 92744},
 																		expr: &anyMatcher{
-																			line: 2935, col: 13, offset: 92475,
+																			line: 2939, col: 13, offset: 92746,
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 686, col: 21, offset: 21908},
+																		pos: position{line: 690, col: 21, offset: 22179},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92139},
+																			pos: position{line: 2922, col: 10, offset: 92410},
 																			run: (*parser).callonBlockAttributes117,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92139},
+																				pos:        position{line: 2922, col: 10, offset: 92410},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -11928,28 +11928,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92537},
+																		pos: position{line: 2944, col: 8, offset: 92808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonBlockAttributes120,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -11958,9 +11958,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92487},
+																				pos: position{line: 2941, col: 8, offset: 92758},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92488,
+																					line: 2941, col: 9, offset: 92759,
 																				},
 																			},
 																		},
@@ -11969,36 +11969,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2521, col: 22, offset: 80917},
+															pos: position{line: 2525, col: 22, offset: 81188},
 															run: (*parser).callonBlockAttributes127,
 															expr: &seqExpr{
-																pos: position{line: 2521, col: 22, offset: 80917},
+																pos: position{line: 2525, col: 22, offset: 81188},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2526, col: 31, offset: 81167},
+																		pos:        position{line: 2530, col: 31, offset: 81438},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2526, col: 36, offset: 81172},
+																		pos: position{line: 2530, col: 36, offset: 81443},
 																		expr: &litMatcher{
-																			pos:        position{line: 2526, col: 37, offset: 81173},
+																			pos:        position{line: 2530, col: 37, offset: 81444},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2521, col: 49, offset: 80944},
+																		pos:   position{line: 2525, col: 49, offset: 81215},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 13, offset: 90665},
+																			pos: position{line: 2868, col: 13, offset: 90936},
 																			run: (*parser).callonBlockAttributes133,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2864, col: 13, offset: 90665},
+																				pos: position{line: 2868, col: 13, offset: 90936},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 13, offset: 90665},
+																					pos:        position{line: 2868, col: 13, offset: 90936},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12008,28 +12008,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92537},
+																		pos: position{line: 2944, col: 8, offset: 92808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12038,9 +12038,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92487},
+																				pos: position{line: 2941, col: 8, offset: 92758},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92488,
+																					line: 2941, col: 9, offset: 92759,
 																				},
 																			},
 																		},
@@ -12094,12 +12094,12 @@ var g = &grammar{
 																		pos: position{line: 428, col: 9, offset: 13232},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2812, col: 14, offset: 89308},
+																				pos: position{line: 2816, col: 14, offset: 89579},
 																				run: (*parser).callonBlockAttributes155,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2812, col: 14, offset: 89308},
+																					pos: position{line: 2816, col: 14, offset: 89579},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2812, col: 14, offset: 89308},
+																						pos:        position{line: 2816, col: 14, offset: 89579},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12108,10 +12108,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92139},
+																				pos: position{line: 2922, col: 10, offset: 92410},
 																				run: (*parser).callonBlockAttributes158,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92139},
+																					pos:        position{line: 2922, col: 10, offset: 92410},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12119,27 +12119,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2835, col: 5, offset: 89793},
+																				pos: position{line: 2839, col: 5, offset: 90064},
 																				run: (*parser).callonBlockAttributes160,
 																				expr: &choiceExpr{
-																					pos: position{line: 2836, col: 9, offset: 89803},
+																					pos: position{line: 2840, col: 9, offset: 90074},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2836, col: 10, offset: 89804},
+																							pos:        position{line: 2840, col: 10, offset: 90075},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2838, col: 13, offset: 89901},
+																							pos: position{line: 2842, col: 13, offset: 90172},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2838, col: 13, offset: 89901},
+																									pos: position{line: 2842, col: 13, offset: 90172},
 																									run: (*parser).callonBlockAttributes164,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2841, col: 13, offset: 90001},
+																									pos:        position{line: 2845, col: 13, offset: 90272},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12147,20 +12147,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2841, col: 19, offset: 90007},
+																							pos:        position{line: 2845, col: 19, offset: 90278},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2844, col: 13, offset: 90045},
+																							pos: position{line: 2848, col: 13, offset: 90316},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2844, col: 13, offset: 90045},
+																									pos: position{line: 2848, col: 13, offset: 90316},
 																									run: (*parser).callonBlockAttributes168,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2847, col: 14, offset: 90138},
+																									pos:        position{line: 2851, col: 14, offset: 90409},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12169,18 +12169,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2849, col: 12, offset: 90182},
+																							pos: position{line: 2853, col: 12, offset: 90453},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2849, col: 12, offset: 90182},
+																									pos:        position{line: 2853, col: 12, offset: 90453},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2849, col: 16, offset: 90186},
+																									pos: position{line: 2853, col: 16, offset: 90457},
 																									expr: &litMatcher{
-																										pos:        position{line: 2849, col: 17, offset: 90187},
+																										pos:        position{line: 2853, col: 17, offset: 90458},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12192,19 +12192,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 654, col: 5, offset: 20729},
+																				pos: position{line: 658, col: 5, offset: 21000},
 																				run: (*parser).callonBlockAttributes174,
 																				expr: &seqExpr{
-																					pos: position{line: 654, col: 5, offset: 20729},
+																					pos: position{line: 658, col: 5, offset: 21000},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 654, col: 5, offset: 20729},
+																							pos:        position{line: 658, col: 5, offset: 21000},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 654, col: 13, offset: 20737},
+																							pos:   position{line: 658, col: 13, offset: 21008},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -12236,7 +12236,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 654, col: 32, offset: 20756},
+																							pos:        position{line: 658, col: 32, offset: 21027},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12245,19 +12245,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 661, col: 5, offset: 20997},
+																				pos: position{line: 665, col: 5, offset: 21268},
 																				run: (*parser).callonBlockAttributes184,
 																				expr: &seqExpr{
-																					pos: position{line: 661, col: 5, offset: 20997},
+																					pos: position{line: 665, col: 5, offset: 21268},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 661, col: 5, offset: 20997},
+																							pos:        position{line: 665, col: 5, offset: 21268},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 661, col: 9, offset: 21001},
+																							pos:   position{line: 665, col: 9, offset: 21272},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -12289,7 +12289,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 661, col: 28, offset: 21020},
+																							pos:        position{line: 665, col: 28, offset: 21291},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12298,19 +12298,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 667, col: 25, offset: 21201},
+																				pos: position{line: 671, col: 25, offset: 21472},
 																				run: (*parser).callonBlockAttributes194,
 																				expr: &seqExpr{
-																					pos: position{line: 667, col: 25, offset: 21201},
+																					pos: position{line: 671, col: 25, offset: 21472},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 667, col: 25, offset: 21201},
+																							pos:        position{line: 671, col: 25, offset: 21472},
 																							val:        "{counter:",
 																							ignoreCase: false,
 																							want:       "\"{counter:\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 667, col: 37, offset: 21213},
+																							pos:   position{line: 671, col: 37, offset: 21484},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -12342,33 +12342,33 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 667, col: 56, offset: 21232},
+																							pos:   position{line: 671, col: 56, offset: 21503},
 																							label: "start",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 667, col: 62, offset: 21238},
+																								pos: position{line: 671, col: 62, offset: 21509},
 																								expr: &actionExpr{
-																									pos: position{line: 675, col: 17, offset: 21535},
+																									pos: position{line: 679, col: 17, offset: 21806},
 																									run: (*parser).callonBlockAttributes205,
 																									expr: &seqExpr{
-																										pos: position{line: 675, col: 17, offset: 21535},
+																										pos: position{line: 679, col: 17, offset: 21806},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 675, col: 17, offset: 21535},
+																												pos:        position{line: 679, col: 17, offset: 21806},
 																												val:        ":",
 																												ignoreCase: false,
 																												want:       "\":\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 675, col: 21, offset: 21539},
+																												pos:   position{line: 679, col: 21, offset: 21810},
 																												label: "start",
 																												expr: &choiceExpr{
-																													pos: position{line: 675, col: 28, offset: 21546},
+																													pos: position{line: 679, col: 28, offset: 21817},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 675, col: 28, offset: 21546},
+																															pos: position{line: 679, col: 28, offset: 21817},
 																															run: (*parser).callonBlockAttributes210,
 																															expr: &charClassMatcher{
-																																pos:        position{line: 675, col: 28, offset: 21546},
+																																pos:        position{line: 679, col: 28, offset: 21817},
 																																val:        "[A-Za-z]",
 																																ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																ignoreCase: false,
@@ -12376,12 +12376,12 @@ var g = &grammar{
 																															},
 																														},
 																														&actionExpr{
-																															pos: position{line: 677, col: 9, offset: 21600},
+																															pos: position{line: 681, col: 9, offset: 21871},
 																															run: (*parser).callonBlockAttributes212,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 677, col: 9, offset: 21600},
+																																pos: position{line: 681, col: 9, offset: 21871},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 677, col: 9, offset: 21600},
+																																	pos:        position{line: 681, col: 9, offset: 21871},
 																																	val:        "[0-9]",
 																																	ranges:     []rune{'0', '9'},
 																																	ignoreCase: false,
@@ -12398,7 +12398,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 667, col: 78, offset: 21254},
+																							pos:        position{line: 671, col: 78, offset: 21525},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12407,19 +12407,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 671, col: 25, offset: 21372},
+																				pos: position{line: 675, col: 25, offset: 21643},
 																				run: (*parser).callonBlockAttributes216,
 																				expr: &seqExpr{
-																					pos: position{line: 671, col: 25, offset: 21372},
+																					pos: position{line: 675, col: 25, offset: 21643},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 671, col: 25, offset: 21372},
+																							pos:        position{line: 675, col: 25, offset: 21643},
 																							val:        "{counter2:",
 																							ignoreCase: false,
 																							want:       "\"{counter2:\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 671, col: 38, offset: 21385},
+																							pos:   position{line: 675, col: 38, offset: 21656},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -12451,33 +12451,33 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 671, col: 57, offset: 21404},
+																							pos:   position{line: 675, col: 57, offset: 21675},
 																							label: "start",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 671, col: 63, offset: 21410},
+																								pos: position{line: 675, col: 63, offset: 21681},
 																								expr: &actionExpr{
-																									pos: position{line: 675, col: 17, offset: 21535},
+																									pos: position{line: 679, col: 17, offset: 21806},
 																									run: (*parser).callonBlockAttributes227,
 																									expr: &seqExpr{
-																										pos: position{line: 675, col: 17, offset: 21535},
+																										pos: position{line: 679, col: 17, offset: 21806},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 675, col: 17, offset: 21535},
+																												pos:        position{line: 679, col: 17, offset: 21806},
 																												val:        ":",
 																												ignoreCase: false,
 																												want:       "\":\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 675, col: 21, offset: 21539},
+																												pos:   position{line: 679, col: 21, offset: 21810},
 																												label: "start",
 																												expr: &choiceExpr{
-																													pos: position{line: 675, col: 28, offset: 21546},
+																													pos: position{line: 679, col: 28, offset: 21817},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 675, col: 28, offset: 21546},
+																															pos: position{line: 679, col: 28, offset: 21817},
 																															run: (*parser).callonBlockAttributes232,
 																															expr: &charClassMatcher{
-																																pos:        position{line: 675, col: 28, offset: 21546},
+																																pos:        position{line: 679, col: 28, offset: 21817},
 																																val:        "[A-Za-z]",
 																																ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																ignoreCase: false,
@@ -12485,12 +12485,12 @@ var g = &grammar{
 																															},
 																														},
 																														&actionExpr{
-																															pos: position{line: 677, col: 9, offset: 21600},
+																															pos: position{line: 681, col: 9, offset: 21871},
 																															run: (*parser).callonBlockAttributes234,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 677, col: 9, offset: 21600},
+																																pos: position{line: 681, col: 9, offset: 21871},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 677, col: 9, offset: 21600},
+																																	pos:        position{line: 681, col: 9, offset: 21871},
 																																	val:        "[0-9]",
 																																	ranges:     []rune{'0', '9'},
 																																	ignoreCase: false,
@@ -12507,7 +12507,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 671, col: 79, offset: 21426},
+																							pos:        position{line: 675, col: 79, offset: 21697},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12516,10 +12516,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2857, col: 12, offset: 90447},
+																				pos: position{line: 2861, col: 12, offset: 90718},
 																				run: (*parser).callonBlockAttributes238,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2857, col: 12, offset: 90447},
+																					pos:        position{line: 2861, col: 12, offset: 90718},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12537,10 +12537,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 378, col: 35, offset: 11765},
 												expr: &actionExpr{
-													pos: position{line: 2918, col: 10, offset: 92139},
+													pos: position{line: 2922, col: 10, offset: 92410},
 													run: (*parser).callonBlockAttributes241,
 													expr: &charClassMatcher{
-														pos:        position{line: 2918, col: 10, offset: 92139},
+														pos:        position{line: 2922, col: 10, offset: 92410},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12549,28 +12549,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2940, col: 8, offset: 92537},
+												pos: position{line: 2944, col: 8, offset: 92808},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2927, col: 12, offset: 92310},
+														pos: position{line: 2931, col: 12, offset: 92581},
 														run: (*parser).callonBlockAttributes244,
 														expr: &choiceExpr{
-															pos: position{line: 2927, col: 13, offset: 92311},
+															pos: position{line: 2931, col: 13, offset: 92582},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2927, col: 13, offset: 92311},
+																	pos:        position{line: 2931, col: 13, offset: 92582},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2927, col: 20, offset: 92318},
+																	pos:        position{line: 2931, col: 20, offset: 92589},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2927, col: 29, offset: 92327},
+																	pos:        position{line: 2931, col: 29, offset: 92598},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12579,9 +12579,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2937, col: 8, offset: 92487},
+														pos: position{line: 2941, col: 8, offset: 92758},
 														expr: &anyMatcher{
-															line: 2937, col: 9, offset: 92488,
+															line: 2941, col: 9, offset: 92759,
 														},
 													},
 												},
@@ -12592,24 +12592,24 @@ var g = &grammar{
 													pos: position{line: 378, col: 47, offset: 11777},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 686, col: 14, offset: 21901},
+															pos: position{line: 690, col: 14, offset: 22172},
 															run: (*parser).callonBlockAttributes253,
 															expr: &seqExpr{
-																pos: position{line: 686, col: 14, offset: 21901},
+																pos: position{line: 690, col: 14, offset: 22172},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2935, col: 11, offset: 92473},
+																		pos: position{line: 2939, col: 11, offset: 92744},
 																		expr: &anyMatcher{
-																			line: 2935, col: 13, offset: 92475,
+																			line: 2939, col: 13, offset: 92746,
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 686, col: 21, offset: 21908},
+																		pos: position{line: 690, col: 21, offset: 22179},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92139},
+																			pos: position{line: 2922, col: 10, offset: 92410},
 																			run: (*parser).callonBlockAttributes258,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92139},
+																				pos:        position{line: 2922, col: 10, offset: 92410},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12618,28 +12618,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92537},
+																		pos: position{line: 2944, col: 8, offset: 92808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonBlockAttributes261,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12648,9 +12648,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92487},
+																				pos: position{line: 2941, col: 8, offset: 92758},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92488,
+																					line: 2941, col: 9, offset: 92759,
 																				},
 																			},
 																		},
@@ -12659,36 +12659,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2521, col: 22, offset: 80917},
+															pos: position{line: 2525, col: 22, offset: 81188},
 															run: (*parser).callonBlockAttributes268,
 															expr: &seqExpr{
-																pos: position{line: 2521, col: 22, offset: 80917},
+																pos: position{line: 2525, col: 22, offset: 81188},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2526, col: 31, offset: 81167},
+																		pos:        position{line: 2530, col: 31, offset: 81438},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2526, col: 36, offset: 81172},
+																		pos: position{line: 2530, col: 36, offset: 81443},
 																		expr: &litMatcher{
-																			pos:        position{line: 2526, col: 37, offset: 81173},
+																			pos:        position{line: 2530, col: 37, offset: 81444},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2521, col: 49, offset: 80944},
+																		pos:   position{line: 2525, col: 49, offset: 81215},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 13, offset: 90665},
+																			pos: position{line: 2868, col: 13, offset: 90936},
 																			run: (*parser).callonBlockAttributes274,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2864, col: 13, offset: 90665},
+																				pos: position{line: 2868, col: 13, offset: 90936},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 13, offset: 90665},
+																					pos:        position{line: 2868, col: 13, offset: 90936},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12698,28 +12698,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92537},
+																		pos: position{line: 2944, col: 8, offset: 92808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonBlockAttributes278,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12728,9 +12728,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92487},
+																				pos: position{line: 2941, col: 8, offset: 92758},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92488,
+																					line: 2941, col: 9, offset: 92759,
 																				},
 																			},
 																		},
@@ -12761,10 +12761,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 382, col: 44, offset: 11921},
 												expr: &actionExpr{
-													pos: position{line: 2918, col: 10, offset: 92139},
+													pos: position{line: 2922, col: 10, offset: 92410},
 													run: (*parser).callonBlockAttributes290,
 													expr: &charClassMatcher{
-														pos:        position{line: 2918, col: 10, offset: 92139},
+														pos:        position{line: 2922, col: 10, offset: 92410},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12773,28 +12773,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2940, col: 8, offset: 92537},
+												pos: position{line: 2944, col: 8, offset: 92808},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2927, col: 12, offset: 92310},
+														pos: position{line: 2931, col: 12, offset: 92581},
 														run: (*parser).callonBlockAttributes293,
 														expr: &choiceExpr{
-															pos: position{line: 2927, col: 13, offset: 92311},
+															pos: position{line: 2931, col: 13, offset: 92582},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2927, col: 13, offset: 92311},
+																	pos:        position{line: 2931, col: 13, offset: 92582},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2927, col: 20, offset: 92318},
+																	pos:        position{line: 2931, col: 20, offset: 92589},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2927, col: 29, offset: 92327},
+																	pos:        position{line: 2931, col: 29, offset: 92598},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12803,9 +12803,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2937, col: 8, offset: 92487},
+														pos: position{line: 2941, col: 8, offset: 92758},
 														expr: &anyMatcher{
-															line: 2937, col: 9, offset: 92488,
+															line: 2941, col: 9, offset: 92759,
 														},
 													},
 												},
@@ -12816,24 +12816,24 @@ var g = &grammar{
 													pos: position{line: 382, col: 56, offset: 11933},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 686, col: 14, offset: 21901},
+															pos: position{line: 690, col: 14, offset: 22172},
 															run: (*parser).callonBlockAttributes302,
 															expr: &seqExpr{
-																pos: position{line: 686, col: 14, offset: 21901},
+																pos: position{line: 690, col: 14, offset: 22172},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2935, col: 11, offset: 92473},
+																		pos: position{line: 2939, col: 11, offset: 92744},
 																		expr: &anyMatcher{
-																			line: 2935, col: 13, offset: 92475,
+																			line: 2939, col: 13, offset: 92746,
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 686, col: 21, offset: 21908},
+																		pos: position{line: 690, col: 21, offset: 22179},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92139},
+																			pos: position{line: 2922, col: 10, offset: 92410},
 																			run: (*parser).callonBlockAttributes307,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92139},
+																				pos:        position{line: 2922, col: 10, offset: 92410},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12842,28 +12842,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92537},
+																		pos: position{line: 2944, col: 8, offset: 92808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonBlockAttributes310,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12872,9 +12872,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92487},
+																				pos: position{line: 2941, col: 8, offset: 92758},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92488,
+																					line: 2941, col: 9, offset: 92759,
 																				},
 																			},
 																		},
@@ -12883,36 +12883,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2521, col: 22, offset: 80917},
+															pos: position{line: 2525, col: 22, offset: 81188},
 															run: (*parser).callonBlockAttributes317,
 															expr: &seqExpr{
-																pos: position{line: 2521, col: 22, offset: 80917},
+																pos: position{line: 2525, col: 22, offset: 81188},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2526, col: 31, offset: 81167},
+																		pos:        position{line: 2530, col: 31, offset: 81438},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2526, col: 36, offset: 81172},
+																		pos: position{line: 2530, col: 36, offset: 81443},
 																		expr: &litMatcher{
-																			pos:        position{line: 2526, col: 37, offset: 81173},
+																			pos:        position{line: 2530, col: 37, offset: 81444},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2521, col: 49, offset: 80944},
+																		pos:   position{line: 2525, col: 49, offset: 81215},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 13, offset: 90665},
+																			pos: position{line: 2868, col: 13, offset: 90936},
 																			run: (*parser).callonBlockAttributes323,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2864, col: 13, offset: 90665},
+																				pos: position{line: 2868, col: 13, offset: 90936},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 13, offset: 90665},
+																					pos:        position{line: 2868, col: 13, offset: 90936},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12922,28 +12922,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92537},
+																		pos: position{line: 2944, col: 8, offset: 92808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonBlockAttributes327,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12952,9 +12952,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92487},
+																				pos: position{line: 2941, col: 8, offset: 92758},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92488,
+																					line: 2941, col: 9, offset: 92759,
 																				},
 																			},
 																		},
@@ -13117,69 +13117,69 @@ var g = &grammar{
 		},
 		{
 			name: "FirstPositionalAttributes",
-			pos:  position{line: 457, col: 1, offset: 14436},
+			pos:  position{line: 461, col: 1, offset: 14707},
 			expr: &actionExpr{
-				pos: position{line: 458, col: 5, offset: 14470},
+				pos: position{line: 462, col: 5, offset: 14741},
 				run: (*parser).callonFirstPositionalAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 458, col: 5, offset: 14470},
+					pos: position{line: 462, col: 5, offset: 14741},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 458, col: 5, offset: 14470},
+							pos:   position{line: 462, col: 5, offset: 14741},
 							label: "main",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 458, col: 10, offset: 14475},
+								pos: position{line: 462, col: 10, offset: 14746},
 								expr: &ruleRefExpr{
-									pos:  position{line: 459, col: 9, offset: 14485},
+									pos:  position{line: 463, col: 9, offset: 14756},
 									name: "ShortHandAttribute",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 461, col: 5, offset: 14515},
+							pos:   position{line: 465, col: 5, offset: 14786},
 							label: "extras",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 461, col: 12, offset: 14522},
+								pos: position{line: 465, col: 12, offset: 14793},
 								expr: &actionExpr{
-									pos: position{line: 462, col: 9, offset: 14533},
+									pos: position{line: 466, col: 9, offset: 14804},
 									run: (*parser).callonFirstPositionalAttributes8,
 									expr: &seqExpr{
-										pos: position{line: 462, col: 9, offset: 14533},
+										pos: position{line: 466, col: 9, offset: 14804},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 462, col: 9, offset: 14533},
+												pos: position{line: 466, col: 9, offset: 14804},
 												expr: &litMatcher{
-													pos:        position{line: 462, col: 10, offset: 14534},
+													pos:        position{line: 466, col: 10, offset: 14805},
 													val:        ",",
 													ignoreCase: false,
 													want:       "\",\"",
 												},
 											},
 											&notExpr{
-												pos: position{line: 462, col: 14, offset: 14538},
+												pos: position{line: 466, col: 14, offset: 14809},
 												expr: &litMatcher{
-													pos:        position{line: 462, col: 15, offset: 14539},
+													pos:        position{line: 466, col: 15, offset: 14810},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 463, col: 9, offset: 14551},
+												pos:   position{line: 467, col: 9, offset: 14822},
 												label: "extra",
 												expr: &choiceExpr{
-													pos: position{line: 464, col: 13, offset: 14571},
+													pos: position{line: 468, col: 13, offset: 14842},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 464, col: 13, offset: 14571},
+															pos:  position{line: 468, col: 13, offset: 14842},
 															name: "ShortHandIDAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 465, col: 15, offset: 14607},
+															pos:  position{line: 469, col: 15, offset: 14878},
 															name: "ShortHandOptionAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 466, col: 15, offset: 14646},
+															pos:  position{line: 470, col: 15, offset: 14917},
 															name: "ShortHandDotRoleAttribute",
 														},
 													},
@@ -13191,23 +13191,23 @@ var g = &grammar{
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 469, col: 8, offset: 14722},
+							pos: position{line: 473, col: 8, offset: 14993},
 							expr: &seqExpr{
-								pos: position{line: 469, col: 9, offset: 14723},
+								pos: position{line: 473, col: 9, offset: 14994},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 469, col: 9, offset: 14723},
+										pos:        position{line: 473, col: 9, offset: 14994},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 469, col: 13, offset: 14727},
+										pos: position{line: 473, col: 13, offset: 14998},
 										expr: &actionExpr{
-											pos: position{line: 2918, col: 10, offset: 92139},
+											pos: position{line: 2922, col: 10, offset: 92410},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2918, col: 10, offset: 92139},
+												pos:        position{line: 2922, col: 10, offset: 92410},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13219,7 +13219,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 470, col: 5, offset: 14741},
+							pos: position{line: 474, col: 5, offset: 15012},
 							run: (*parser).callonFirstPositionalAttributes25,
 						},
 					},
@@ -13228,24 +13228,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandIDAttribute",
-			pos:  position{line: 486, col: 1, offset: 15157},
+			pos:  position{line: 490, col: 1, offset: 15428},
 			expr: &actionExpr{
-				pos: position{line: 486, col: 25, offset: 15181},
+				pos: position{line: 490, col: 25, offset: 15452},
 				run: (*parser).callonShortHandIDAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 486, col: 25, offset: 15181},
+					pos: position{line: 490, col: 25, offset: 15452},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 486, col: 25, offset: 15181},
+							pos:        position{line: 490, col: 25, offset: 15452},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 486, col: 29, offset: 15185},
+							pos:   position{line: 490, col: 29, offset: 15456},
 							label: "id",
 							expr: &ruleRefExpr{
-								pos:  position{line: 486, col: 33, offset: 15189},
+								pos:  position{line: 490, col: 33, offset: 15460},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -13255,15 +13255,15 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttribute",
-			pos:  position{line: 490, col: 1, offset: 15263},
+			pos:  position{line: 494, col: 1, offset: 15534},
 			expr: &actionExpr{
-				pos: position{line: 490, col: 23, offset: 15285},
+				pos: position{line: 494, col: 23, offset: 15556},
 				run: (*parser).callonShortHandAttribute1,
 				expr: &labeledExpr{
-					pos:   position{line: 490, col: 23, offset: 15285},
+					pos:   position{line: 494, col: 23, offset: 15556},
 					label: "value",
 					expr: &ruleRefExpr{
-						pos:  position{line: 490, col: 30, offset: 15292},
+						pos:  position{line: 494, col: 30, offset: 15563},
 						name: "ShortHandAttributeValue",
 					},
 				},
@@ -13271,24 +13271,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandDotRoleAttribute",
-			pos:  position{line: 495, col: 1, offset: 15418},
+			pos:  position{line: 499, col: 1, offset: 15689},
 			expr: &actionExpr{
-				pos: position{line: 495, col: 30, offset: 15447},
+				pos: position{line: 499, col: 30, offset: 15718},
 				run: (*parser).callonShortHandDotRoleAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 495, col: 30, offset: 15447},
+					pos: position{line: 499, col: 30, offset: 15718},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 495, col: 30, offset: 15447},
+							pos:        position{line: 499, col: 30, offset: 15718},
 							val:        ".",
 							ignoreCase: false,
 							want:       "\".\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 495, col: 34, offset: 15451},
+							pos:   position{line: 499, col: 34, offset: 15722},
 							label: "role",
 							expr: &ruleRefExpr{
-								pos:  position{line: 495, col: 40, offset: 15457},
+								pos:  position{line: 499, col: 40, offset: 15728},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -13298,24 +13298,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandOptionAttribute",
-			pos:  position{line: 500, col: 1, offset: 15579},
+			pos:  position{line: 504, col: 1, offset: 15850},
 			expr: &actionExpr{
-				pos: position{line: 500, col: 29, offset: 15607},
+				pos: position{line: 504, col: 29, offset: 15878},
 				run: (*parser).callonShortHandOptionAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 500, col: 29, offset: 15607},
+					pos: position{line: 504, col: 29, offset: 15878},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 500, col: 29, offset: 15607},
+							pos:        position{line: 504, col: 29, offset: 15878},
 							val:        "%",
 							ignoreCase: false,
 							want:       "\"%\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 500, col: 33, offset: 15611},
+							pos:   position{line: 504, col: 33, offset: 15882},
 							label: "option",
 							expr: &ruleRefExpr{
-								pos:  position{line: 500, col: 41, offset: 15619},
+								pos:  position{line: 504, col: 41, offset: 15890},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -13325,43 +13325,43 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttributeValue",
-			pos:  position{line: 505, col: 1, offset: 15732},
+			pos:  position{line: 509, col: 1, offset: 16003},
 			expr: &choiceExpr{
-				pos: position{line: 506, col: 5, offset: 15764},
+				pos: position{line: 510, col: 5, offset: 16035},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 506, col: 5, offset: 15764},
+						pos:  position{line: 510, col: 5, offset: 16035},
 						name: "SingleQuotedAttributeValue",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 507, col: 7, offset: 15798},
+						pos:  position{line: 511, col: 7, offset: 16069},
 						name: "DoubleQuotedAttributeValue",
 					},
 					&actionExpr{
-						pos: position{line: 508, col: 7, offset: 15832},
+						pos: position{line: 512, col: 7, offset: 16103},
 						run: (*parser).callonShortHandAttributeValue4,
 						expr: &seqExpr{
-							pos: position{line: 508, col: 7, offset: 15832},
+							pos: position{line: 512, col: 7, offset: 16103},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 508, col: 7, offset: 15832},
+									pos:   position{line: 512, col: 7, offset: 16103},
 									label: "elements",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 508, col: 16, offset: 15841},
+										pos: position{line: 512, col: 16, offset: 16112},
 										expr: &choiceExpr{
-											pos: position{line: 511, col: 9, offset: 16023},
+											pos: position{line: 515, col: 9, offset: 16294},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 511, col: 9, offset: 16023},
+													pos:  position{line: 515, col: 9, offset: 16294},
 													name: "QuotationMark",
 												},
 												&actionExpr{
-													pos: position{line: 512, col: 12, offset: 16049},
+													pos: position{line: 516, col: 12, offset: 16320},
 													run: (*parser).callonShortHandAttributeValue10,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 512, col: 12, offset: 16049},
+														pos: position{line: 516, col: 12, offset: 16320},
 														expr: &charClassMatcher{
-															pos:        position{line: 512, col: 12, offset: 16049},
+															pos:        position{line: 516, col: 12, offset: 16320},
 															val:        "[^,=.%# \\r\\n�{]]",
 															chars:      []rune{',', '=', '.', '%', '#', ' ', '\r', '\n', '�', '{', ']'},
 															ignoreCase: false,
@@ -13370,35 +13370,35 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 645, col: 5, offset: 20519},
+													pos: position{line: 649, col: 5, offset: 20790},
 													run: (*parser).callonShortHandAttributeValue13,
 													expr: &seqExpr{
-														pos: position{line: 645, col: 5, offset: 20519},
+														pos: position{line: 649, col: 5, offset: 20790},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 645, col: 5, offset: 20519},
+																pos: position{line: 649, col: 5, offset: 20790},
 																run: (*parser).callonShortHandAttributeValue15,
 															},
 															&labeledExpr{
-																pos:   position{line: 648, col: 5, offset: 20591},
+																pos:   position{line: 652, col: 5, offset: 20862},
 																label: "element",
 																expr: &choiceExpr{
-																	pos: position{line: 648, col: 14, offset: 20600},
+																	pos: position{line: 652, col: 14, offset: 20871},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 654, col: 5, offset: 20729},
+																			pos: position{line: 658, col: 5, offset: 21000},
 																			run: (*parser).callonShortHandAttributeValue18,
 																			expr: &seqExpr{
-																				pos: position{line: 654, col: 5, offset: 20729},
+																				pos: position{line: 658, col: 5, offset: 21000},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 654, col: 5, offset: 20729},
+																						pos:        position{line: 658, col: 5, offset: 21000},
 																						val:        "\\{",
 																						ignoreCase: false,
 																						want:       "\"\\\\{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 654, col: 13, offset: 20737},
+																						pos:   position{line: 658, col: 13, offset: 21008},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 320, col: 18, offset: 9837},
@@ -13430,7 +13430,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 654, col: 32, offset: 20756},
+																						pos:        position{line: 658, col: 32, offset: 21027},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13439,19 +13439,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 661, col: 5, offset: 20997},
+																			pos: position{line: 665, col: 5, offset: 21268},
 																			run: (*parser).callonShortHandAttributeValue28,
 																			expr: &seqExpr{
-																				pos: position{line: 661, col: 5, offset: 20997},
+																				pos: position{line: 665, col: 5, offset: 21268},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 661, col: 5, offset: 20997},
+																						pos:        position{line: 665, col: 5, offset: 21268},
 																						val:        "{",
 																						ignoreCase: false,
 																						want:       "\"{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 661, col: 9, offset: 21001},
+																						pos:   position{line: 665, col: 9, offset: 21272},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 320, col: 18, offset: 9837},
@@ -13483,7 +13483,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 661, col: 28, offset: 21020},
+																						pos:        position{line: 665, col: 28, offset: 21291},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13492,19 +13492,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 667, col: 25, offset: 21201},
+																			pos: position{line: 671, col: 25, offset: 21472},
 																			run: (*parser).callonShortHandAttributeValue38,
 																			expr: &seqExpr{
-																				pos: position{line: 667, col: 25, offset: 21201},
+																				pos: position{line: 671, col: 25, offset: 21472},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 667, col: 25, offset: 21201},
+																						pos:        position{line: 671, col: 25, offset: 21472},
 																						val:        "{counter:",
 																						ignoreCase: false,
 																						want:       "\"{counter:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 667, col: 37, offset: 21213},
+																						pos:   position{line: 671, col: 37, offset: 21484},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 320, col: 18, offset: 9837},
@@ -13536,33 +13536,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 667, col: 56, offset: 21232},
+																						pos:   position{line: 671, col: 56, offset: 21503},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 667, col: 62, offset: 21238},
+																							pos: position{line: 671, col: 62, offset: 21509},
 																							expr: &actionExpr{
-																								pos: position{line: 675, col: 17, offset: 21535},
+																								pos: position{line: 679, col: 17, offset: 21806},
 																								run: (*parser).callonShortHandAttributeValue49,
 																								expr: &seqExpr{
-																									pos: position{line: 675, col: 17, offset: 21535},
+																									pos: position{line: 679, col: 17, offset: 21806},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 675, col: 17, offset: 21535},
+																											pos:        position{line: 679, col: 17, offset: 21806},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 675, col: 21, offset: 21539},
+																											pos:   position{line: 679, col: 21, offset: 21810},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 675, col: 28, offset: 21546},
+																												pos: position{line: 679, col: 28, offset: 21817},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 675, col: 28, offset: 21546},
+																														pos: position{line: 679, col: 28, offset: 21817},
 																														run: (*parser).callonShortHandAttributeValue54,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 675, col: 28, offset: 21546},
+																															pos:        position{line: 679, col: 28, offset: 21817},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13570,12 +13570,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 677, col: 9, offset: 21600},
+																														pos: position{line: 681, col: 9, offset: 21871},
 																														run: (*parser).callonShortHandAttributeValue56,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 677, col: 9, offset: 21600},
+																															pos: position{line: 681, col: 9, offset: 21871},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 677, col: 9, offset: 21600},
+																																pos:        position{line: 681, col: 9, offset: 21871},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13592,7 +13592,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 667, col: 78, offset: 21254},
+																						pos:        position{line: 671, col: 78, offset: 21525},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13601,19 +13601,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 671, col: 25, offset: 21372},
+																			pos: position{line: 675, col: 25, offset: 21643},
 																			run: (*parser).callonShortHandAttributeValue60,
 																			expr: &seqExpr{
-																				pos: position{line: 671, col: 25, offset: 21372},
+																				pos: position{line: 675, col: 25, offset: 21643},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 671, col: 25, offset: 21372},
+																						pos:        position{line: 675, col: 25, offset: 21643},
 																						val:        "{counter2:",
 																						ignoreCase: false,
 																						want:       "\"{counter2:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 671, col: 38, offset: 21385},
+																						pos:   position{line: 675, col: 38, offset: 21656},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 320, col: 18, offset: 9837},
@@ -13645,33 +13645,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 671, col: 57, offset: 21404},
+																						pos:   position{line: 675, col: 57, offset: 21675},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 671, col: 63, offset: 21410},
+																							pos: position{line: 675, col: 63, offset: 21681},
 																							expr: &actionExpr{
-																								pos: position{line: 675, col: 17, offset: 21535},
+																								pos: position{line: 679, col: 17, offset: 21806},
 																								run: (*parser).callonShortHandAttributeValue71,
 																								expr: &seqExpr{
-																									pos: position{line: 675, col: 17, offset: 21535},
+																									pos: position{line: 679, col: 17, offset: 21806},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 675, col: 17, offset: 21535},
+																											pos:        position{line: 679, col: 17, offset: 21806},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 675, col: 21, offset: 21539},
+																											pos:   position{line: 679, col: 21, offset: 21810},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 675, col: 28, offset: 21546},
+																												pos: position{line: 679, col: 28, offset: 21817},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 675, col: 28, offset: 21546},
+																														pos: position{line: 679, col: 28, offset: 21817},
 																														run: (*parser).callonShortHandAttributeValue76,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 675, col: 28, offset: 21546},
+																															pos:        position{line: 679, col: 28, offset: 21817},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13679,12 +13679,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 677, col: 9, offset: 21600},
+																														pos: position{line: 681, col: 9, offset: 21871},
 																														run: (*parser).callonShortHandAttributeValue78,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 677, col: 9, offset: 21600},
+																															pos: position{line: 681, col: 9, offset: 21871},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 677, col: 9, offset: 21600},
+																																pos:        position{line: 681, col: 9, offset: 21871},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13701,7 +13701,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 671, col: 79, offset: 21426},
+																						pos:        position{line: 675, col: 79, offset: 21697},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13716,10 +13716,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 517, col: 12, offset: 16217},
+													pos: position{line: 521, col: 12, offset: 16488},
 													run: (*parser).callonShortHandAttributeValue82,
 													expr: &litMatcher{
-														pos:        position{line: 517, col: 12, offset: 16217},
+														pos:        position{line: 521, col: 12, offset: 16488},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -13730,19 +13730,19 @@ var g = &grammar{
 									},
 								},
 								&andExpr{
-									pos: position{line: 521, col: 5, offset: 16305},
+									pos: position{line: 525, col: 5, offset: 16576},
 									expr: &notExpr{
-										pos: position{line: 521, col: 7, offset: 16307},
+										pos: position{line: 525, col: 7, offset: 16578},
 										expr: &seqExpr{
-											pos: position{line: 521, col: 9, offset: 16309},
+											pos: position{line: 525, col: 9, offset: 16580},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 521, col: 9, offset: 16309},
+													pos: position{line: 525, col: 9, offset: 16580},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92139},
+														pos: position{line: 2922, col: 10, offset: 92410},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92139},
+															pos:        position{line: 2922, col: 10, offset: 92410},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13751,7 +13751,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 521, col: 16, offset: 16316},
+													pos:        position{line: 525, col: 16, offset: 16587},
 													val:        "=",
 													ignoreCase: false,
 													want:       "\"=\"",
@@ -13768,45 +13768,45 @@ var g = &grammar{
 		},
 		{
 			name: "PositionalAttribute",
-			pos:  position{line: 526, col: 1, offset: 16394},
+			pos:  position{line: 530, col: 1, offset: 16665},
 			expr: &choiceExpr{
-				pos: position{line: 526, col: 24, offset: 16417},
+				pos: position{line: 530, col: 24, offset: 16688},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 527, col: 5, offset: 16423},
+						pos: position{line: 531, col: 5, offset: 16694},
 						run: (*parser).callonPositionalAttribute2,
 						expr: &seqExpr{
-							pos: position{line: 527, col: 5, offset: 16423},
+							pos: position{line: 531, col: 5, offset: 16694},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 527, col: 5, offset: 16423},
+									pos:   position{line: 531, col: 5, offset: 16694},
 									label: "value",
 									expr: &ruleRefExpr{
-										pos:  position{line: 527, col: 12, offset: 16430},
+										pos:  position{line: 531, col: 12, offset: 16701},
 										name: "AttributeValue",
 									},
 								},
 								&choiceExpr{
-									pos: position{line: 527, col: 29, offset: 16447},
+									pos: position{line: 531, col: 29, offset: 16718},
 									alternatives: []interface{}{
 										&zeroOrOneExpr{
-											pos: position{line: 527, col: 29, offset: 16447},
+											pos: position{line: 531, col: 29, offset: 16718},
 											expr: &seqExpr{
-												pos: position{line: 527, col: 30, offset: 16448},
+												pos: position{line: 531, col: 30, offset: 16719},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 527, col: 30, offset: 16448},
+														pos:        position{line: 531, col: 30, offset: 16719},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 527, col: 34, offset: 16452},
+														pos: position{line: 531, col: 34, offset: 16723},
 														expr: &actionExpr{
-															pos: position{line: 2918, col: 10, offset: 92139},
+															pos: position{line: 2922, col: 10, offset: 92410},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2918, col: 10, offset: 92139},
+																pos:        position{line: 2922, col: 10, offset: 92410},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13818,9 +13818,9 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 527, col: 45, offset: 16463},
+											pos: position{line: 531, col: 45, offset: 16734},
 											expr: &litMatcher{
-												pos:        position{line: 527, col: 46, offset: 16464},
+												pos:        position{line: 531, col: 46, offset: 16735},
 												val:        "]",
 												ignoreCase: false,
 												want:       "\"]\"",
@@ -13832,24 +13832,24 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 532, col: 6, offset: 16609},
+						pos: position{line: 536, col: 6, offset: 16880},
 						run: (*parser).callonPositionalAttribute15,
 						expr: &seqExpr{
-							pos: position{line: 532, col: 6, offset: 16609},
+							pos: position{line: 536, col: 6, offset: 16880},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 532, col: 6, offset: 16609},
+									pos:   position{line: 536, col: 6, offset: 16880},
 									label: "value",
 									expr: &seqExpr{
-										pos: position{line: 532, col: 13, offset: 16616},
+										pos: position{line: 536, col: 13, offset: 16887},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 532, col: 13, offset: 16616},
+												pos: position{line: 536, col: 13, offset: 16887},
 												expr: &actionExpr{
-													pos: position{line: 2918, col: 10, offset: 92139},
+													pos: position{line: 2922, col: 10, offset: 92410},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2918, col: 10, offset: 92139},
+														pos:        position{line: 2922, col: 10, offset: 92410},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13858,24 +13858,24 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 532, col: 21, offset: 16624},
+												pos: position{line: 536, col: 21, offset: 16895},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 532, col: 22, offset: 16625},
+														pos: position{line: 536, col: 22, offset: 16896},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 532, col: 22, offset: 16625},
+																pos:        position{line: 536, col: 22, offset: 16896},
 																val:        ",",
 																ignoreCase: false,
 																want:       "\",\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 532, col: 26, offset: 16629},
+																pos: position{line: 536, col: 26, offset: 16900},
 																expr: &actionExpr{
-																	pos: position{line: 2918, col: 10, offset: 92139},
+																	pos: position{line: 2922, col: 10, offset: 92410},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2918, col: 10, offset: 92139},
+																		pos:        position{line: 2922, col: 10, offset: 92410},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13886,9 +13886,9 @@ var g = &grammar{
 														},
 													},
 													&andExpr{
-														pos: position{line: 532, col: 36, offset: 16639},
+														pos: position{line: 536, col: 36, offset: 16910},
 														expr: &litMatcher{
-															pos:        position{line: 532, col: 37, offset: 16640},
+															pos:        position{line: 536, col: 37, offset: 16911},
 															val:        "]",
 															ignoreCase: false,
 															want:       "\"]\"",
@@ -13900,7 +13900,7 @@ var g = &grammar{
 									},
 								},
 								&andCodeExpr{
-									pos: position{line: 533, col: 5, offset: 16650},
+									pos: position{line: 537, col: 5, offset: 16921},
 									run: (*parser).callonPositionalAttribute30,
 								},
 							},
@@ -13911,29 +13911,29 @@ var g = &grammar{
 		},
 		{
 			name: "NamedAttribute",
-			pos:  position{line: 543, col: 1, offset: 16965},
+			pos:  position{line: 547, col: 1, offset: 17236},
 			expr: &actionExpr{
-				pos: position{line: 544, col: 5, offset: 16988},
+				pos: position{line: 548, col: 5, offset: 17259},
 				run: (*parser).callonNamedAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 544, col: 5, offset: 16988},
+					pos: position{line: 548, col: 5, offset: 17259},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 544, col: 5, offset: 16988},
+							pos:   position{line: 548, col: 5, offset: 17259},
 							label: "key",
 							expr: &actionExpr{
-								pos: position{line: 552, col: 22, offset: 17276},
+								pos: position{line: 556, col: 22, offset: 17547},
 								run: (*parser).callonNamedAttribute4,
 								expr: &seqExpr{
-									pos: position{line: 552, col: 22, offset: 17276},
+									pos: position{line: 556, col: 22, offset: 17547},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 552, col: 22, offset: 17276},
+											pos: position{line: 556, col: 22, offset: 17547},
 											expr: &actionExpr{
-												pos: position{line: 2918, col: 10, offset: 92139},
+												pos: position{line: 2922, col: 10, offset: 92410},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2918, col: 10, offset: 92139},
+													pos:        position{line: 2922, col: 10, offset: 92410},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13942,9 +13942,9 @@ var g = &grammar{
 											},
 										},
 										&oneOrMoreExpr{
-											pos: position{line: 552, col: 29, offset: 17283},
+											pos: position{line: 556, col: 29, offset: 17554},
 											expr: &charClassMatcher{
-												pos:        position{line: 552, col: 29, offset: 17283},
+												pos:        position{line: 556, col: 29, offset: 17554},
 												val:        "[^\\r\\n=,]]",
 												chars:      []rune{'\r', '\n', '=', ',', ']'},
 												ignoreCase: false,
@@ -13956,18 +13956,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 545, col: 5, offset: 17017},
+							pos:        position{line: 549, col: 5, offset: 17288},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 545, col: 9, offset: 17021},
+							pos: position{line: 549, col: 9, offset: 17292},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92139},
+								pos: position{line: 2922, col: 10, offset: 92410},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92139},
+									pos:        position{line: 2922, col: 10, offset: 92410},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13976,31 +13976,31 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 546, col: 5, offset: 17033},
+							pos:   position{line: 550, col: 5, offset: 17304},
 							label: "value",
 							expr: &ruleRefExpr{
-								pos:  position{line: 546, col: 12, offset: 17040},
+								pos:  position{line: 550, col: 12, offset: 17311},
 								name: "AttributeValue",
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 546, col: 28, offset: 17056},
+							pos: position{line: 550, col: 28, offset: 17327},
 							expr: &seqExpr{
-								pos: position{line: 546, col: 29, offset: 17057},
+								pos: position{line: 550, col: 29, offset: 17328},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 546, col: 29, offset: 17057},
+										pos:        position{line: 550, col: 29, offset: 17328},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 546, col: 33, offset: 17061},
+										pos: position{line: 550, col: 33, offset: 17332},
 										expr: &actionExpr{
-											pos: position{line: 2918, col: 10, offset: 92139},
+											pos: position{line: 2922, col: 10, offset: 92410},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2918, col: 10, offset: 92139},
+												pos:        position{line: 2922, col: 10, offset: 92410},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14017,48 +14017,48 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeValue",
-			pos:  position{line: 556, col: 1, offset: 17340},
+			pos:  position{line: 560, col: 1, offset: 17611},
 			expr: &actionExpr{
-				pos: position{line: 557, col: 5, offset: 17363},
+				pos: position{line: 561, col: 5, offset: 17634},
 				run: (*parser).callonAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 557, col: 5, offset: 17363},
+					pos: position{line: 561, col: 5, offset: 17634},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 557, col: 5, offset: 17363},
+							pos:   position{line: 561, col: 5, offset: 17634},
 							label: "value",
 							expr: &choiceExpr{
-								pos: position{line: 558, col: 9, offset: 17379},
+								pos: position{line: 562, col: 9, offset: 17650},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 558, col: 9, offset: 17379},
+										pos:  position{line: 562, col: 9, offset: 17650},
 										name: "SingleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 559, col: 11, offset: 17417},
+										pos:  position{line: 563, col: 11, offset: 17688},
 										name: "DoubleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 560, col: 11, offset: 17455},
+										pos:  position{line: 564, col: 11, offset: 17726},
 										name: "UnquotedAttributeValue",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 562, col: 5, offset: 17489},
+							pos: position{line: 566, col: 5, offset: 17760},
 							expr: &notExpr{
-								pos: position{line: 562, col: 7, offset: 17491},
+								pos: position{line: 566, col: 7, offset: 17762},
 								expr: &seqExpr{
-									pos: position{line: 562, col: 9, offset: 17493},
+									pos: position{line: 566, col: 9, offset: 17764},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 562, col: 9, offset: 17493},
+											pos: position{line: 566, col: 9, offset: 17764},
 											expr: &actionExpr{
-												pos: position{line: 2918, col: 10, offset: 92139},
+												pos: position{line: 2922, col: 10, offset: 92410},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2918, col: 10, offset: 92139},
+													pos:        position{line: 2922, col: 10, offset: 92410},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14067,7 +14067,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 562, col: 16, offset: 17500},
+											pos:        position{line: 566, col: 16, offset: 17771},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -14082,38 +14082,38 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValue",
-			pos:  position{line: 566, col: 1, offset: 17541},
+			pos:  position{line: 570, col: 1, offset: 17812},
 			expr: &actionExpr{
-				pos: position{line: 567, col: 5, offset: 17576},
+				pos: position{line: 571, col: 5, offset: 17847},
 				run: (*parser).callonSingleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 567, col: 5, offset: 17576},
+					pos: position{line: 571, col: 5, offset: 17847},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 567, col: 5, offset: 17576},
+							pos:        position{line: 571, col: 5, offset: 17847},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
 						},
 						&notExpr{
-							pos: position{line: 567, col: 9, offset: 17580},
+							pos: position{line: 571, col: 9, offset: 17851},
 							expr: &litMatcher{
-								pos:        position{line: 567, col: 10, offset: 17581},
+								pos:        position{line: 571, col: 10, offset: 17852},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 568, col: 5, offset: 17660},
+							pos:   position{line: 572, col: 5, offset: 17931},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 568, col: 14, offset: 17669},
+								pos:  position{line: 572, col: 14, offset: 17940},
 								name: "SingleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 569, col: 5, offset: 17708},
+							pos:        position{line: 573, col: 5, offset: 17979},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
@@ -14124,25 +14124,25 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValueContent",
-			pos:  position{line: 573, col: 1, offset: 17749},
+			pos:  position{line: 577, col: 1, offset: 18020},
 			expr: &actionExpr{
-				pos: position{line: 574, col: 5, offset: 17791},
+				pos: position{line: 578, col: 5, offset: 18062},
 				run: (*parser).callonSingleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 574, col: 5, offset: 17791},
+					pos:   position{line: 578, col: 5, offset: 18062},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 574, col: 14, offset: 17800},
+						pos: position{line: 578, col: 14, offset: 18071},
 						expr: &choiceExpr{
-							pos: position{line: 575, col: 9, offset: 17810},
+							pos: position{line: 579, col: 9, offset: 18081},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2812, col: 14, offset: 89308},
+									pos: position{line: 2816, col: 14, offset: 89579},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2812, col: 14, offset: 89308},
+										pos: position{line: 2816, col: 14, offset: 89579},
 										expr: &charClassMatcher{
-											pos:        position{line: 2812, col: 14, offset: 89308},
+											pos:        position{line: 2816, col: 14, offset: 89579},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14151,10 +14151,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2918, col: 10, offset: 92139},
+									pos: position{line: 2922, col: 10, offset: 92410},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2918, col: 10, offset: 92139},
+										pos:        position{line: 2922, col: 10, offset: 92410},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14162,39 +14162,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 577, col: 11, offset: 17846},
+									pos:  position{line: 581, col: 11, offset: 18117},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 645, col: 5, offset: 20519},
+									pos: position{line: 649, col: 5, offset: 20790},
 									run: (*parser).callonSingleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 645, col: 5, offset: 20519},
+										pos: position{line: 649, col: 5, offset: 20790},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 645, col: 5, offset: 20519},
+												pos: position{line: 649, col: 5, offset: 20790},
 												run: (*parser).callonSingleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 648, col: 5, offset: 20591},
+												pos:   position{line: 652, col: 5, offset: 20862},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 648, col: 14, offset: 20600},
+													pos: position{line: 652, col: 14, offset: 20871},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 654, col: 5, offset: 20729},
+															pos: position{line: 658, col: 5, offset: 21000},
 															run: (*parser).callonSingleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 654, col: 5, offset: 20729},
+																pos: position{line: 658, col: 5, offset: 21000},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 654, col: 5, offset: 20729},
+																		pos:        position{line: 658, col: 5, offset: 21000},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 654, col: 13, offset: 20737},
+																		pos:   position{line: 658, col: 13, offset: 21008},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14226,7 +14226,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 654, col: 32, offset: 20756},
+																		pos:        position{line: 658, col: 32, offset: 21027},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14235,19 +14235,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 661, col: 5, offset: 20997},
+															pos: position{line: 665, col: 5, offset: 21268},
 															run: (*parser).callonSingleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 661, col: 5, offset: 20997},
+																pos: position{line: 665, col: 5, offset: 21268},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 661, col: 5, offset: 20997},
+																		pos:        position{line: 665, col: 5, offset: 21268},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 661, col: 9, offset: 21001},
+																		pos:   position{line: 665, col: 9, offset: 21272},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14279,7 +14279,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 661, col: 28, offset: 21020},
+																		pos:        position{line: 665, col: 28, offset: 21291},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14288,19 +14288,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 667, col: 25, offset: 21201},
+															pos: position{line: 671, col: 25, offset: 21472},
 															run: (*parser).callonSingleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 667, col: 25, offset: 21201},
+																pos: position{line: 671, col: 25, offset: 21472},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 667, col: 25, offset: 21201},
+																		pos:        position{line: 671, col: 25, offset: 21472},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 667, col: 37, offset: 21213},
+																		pos:   position{line: 671, col: 37, offset: 21484},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14332,33 +14332,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 667, col: 56, offset: 21232},
+																		pos:   position{line: 671, col: 56, offset: 21503},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 667, col: 62, offset: 21238},
+																			pos: position{line: 671, col: 62, offset: 21509},
 																			expr: &actionExpr{
-																				pos: position{line: 675, col: 17, offset: 21535},
+																				pos: position{line: 679, col: 17, offset: 21806},
 																				run: (*parser).callonSingleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 675, col: 17, offset: 21535},
+																					pos: position{line: 679, col: 17, offset: 21806},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 675, col: 17, offset: 21535},
+																							pos:        position{line: 679, col: 17, offset: 21806},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 675, col: 21, offset: 21539},
+																							pos:   position{line: 679, col: 21, offset: 21810},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 675, col: 28, offset: 21546},
+																								pos: position{line: 679, col: 28, offset: 21817},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 675, col: 28, offset: 21546},
+																										pos: position{line: 679, col: 28, offset: 21817},
 																										run: (*parser).callonSingleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 675, col: 28, offset: 21546},
+																											pos:        position{line: 679, col: 28, offset: 21817},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14366,12 +14366,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 677, col: 9, offset: 21600},
+																										pos: position{line: 681, col: 9, offset: 21871},
 																										run: (*parser).callonSingleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 677, col: 9, offset: 21600},
+																											pos: position{line: 681, col: 9, offset: 21871},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 677, col: 9, offset: 21600},
+																												pos:        position{line: 681, col: 9, offset: 21871},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14388,7 +14388,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 667, col: 78, offset: 21254},
+																		pos:        position{line: 671, col: 78, offset: 21525},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14397,19 +14397,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 671, col: 25, offset: 21372},
+															pos: position{line: 675, col: 25, offset: 21643},
 															run: (*parser).callonSingleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 671, col: 25, offset: 21372},
+																pos: position{line: 675, col: 25, offset: 21643},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 671, col: 25, offset: 21372},
+																		pos:        position{line: 675, col: 25, offset: 21643},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 671, col: 38, offset: 21385},
+																		pos:   position{line: 675, col: 38, offset: 21656},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14441,33 +14441,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 671, col: 57, offset: 21404},
+																		pos:   position{line: 675, col: 57, offset: 21675},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 671, col: 63, offset: 21410},
+																			pos: position{line: 675, col: 63, offset: 21681},
 																			expr: &actionExpr{
-																				pos: position{line: 675, col: 17, offset: 21535},
+																				pos: position{line: 679, col: 17, offset: 21806},
 																				run: (*parser).callonSingleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 675, col: 17, offset: 21535},
+																					pos: position{line: 679, col: 17, offset: 21806},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 675, col: 17, offset: 21535},
+																							pos:        position{line: 679, col: 17, offset: 21806},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 675, col: 21, offset: 21539},
+																							pos:   position{line: 679, col: 21, offset: 21810},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 675, col: 28, offset: 21546},
+																								pos: position{line: 679, col: 28, offset: 21817},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 675, col: 28, offset: 21546},
+																										pos: position{line: 679, col: 28, offset: 21817},
 																										run: (*parser).callonSingleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 675, col: 28, offset: 21546},
+																											pos:        position{line: 679, col: 28, offset: 21817},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14475,12 +14475,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 677, col: 9, offset: 21600},
+																										pos: position{line: 681, col: 9, offset: 21871},
 																										run: (*parser).callonSingleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 677, col: 9, offset: 21600},
+																											pos: position{line: 681, col: 9, offset: 21871},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 677, col: 9, offset: 21600},
+																												pos:        position{line: 681, col: 9, offset: 21871},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14497,7 +14497,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 671, col: 79, offset: 21426},
+																		pos:        position{line: 675, col: 79, offset: 21697},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14512,44 +14512,44 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 579, col: 12, offset: 17900},
+									pos: position{line: 583, col: 12, offset: 18171},
 									run: (*parser).callonSingleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 579, col: 12, offset: 17900},
+										pos:        position{line: 583, col: 12, offset: 18171},
 										val:        "\\'",
 										ignoreCase: false,
 										want:       "\"\\\\'\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 582, col: 13, offset: 18002},
+									pos:        position{line: 586, col: 13, offset: 18273},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 582, col: 20, offset: 18009},
+									pos:        position{line: 586, col: 20, offset: 18280},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&actionExpr{
-									pos: position{line: 582, col: 27, offset: 18016},
+									pos: position{line: 586, col: 27, offset: 18287},
 									run: (*parser).callonSingleQuotedAttributeValueContent84,
 									expr: &litMatcher{
-										pos:        position{line: 582, col: 27, offset: 18016},
+										pos:        position{line: 586, col: 27, offset: 18287},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 585, col: 12, offset: 18176},
+									pos: position{line: 589, col: 12, offset: 18447},
 									run: (*parser).callonSingleQuotedAttributeValueContent86,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 585, col: 12, offset: 18176},
+										pos: position{line: 589, col: 12, offset: 18447},
 										expr: &charClassMatcher{
-											pos:        position{line: 585, col: 12, offset: 18176},
+											pos:        position{line: 589, col: 12, offset: 18447},
 											val:        "[^\\r\\n\\\\\\ ]",
 											chars:      []rune{'\r', '\n', '\\', '\'', ' '},
 											ignoreCase: false,
@@ -14565,56 +14565,56 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValue",
-			pos:  position{line: 595, col: 1, offset: 18480},
+			pos:  position{line: 599, col: 1, offset: 18751},
 			expr: &actionExpr{
-				pos: position{line: 596, col: 5, offset: 18515},
+				pos: position{line: 600, col: 5, offset: 18786},
 				run: (*parser).callonDoubleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 596, col: 5, offset: 18515},
+					pos: position{line: 600, col: 5, offset: 18786},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 596, col: 5, offset: 18515},
+							pos:        position{line: 600, col: 5, offset: 18786},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&notExpr{
-							pos: position{line: 596, col: 10, offset: 18520},
+							pos: position{line: 600, col: 10, offset: 18791},
 							expr: &litMatcher{
-								pos:        position{line: 596, col: 11, offset: 18521},
+								pos:        position{line: 600, col: 11, offset: 18792},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 597, col: 5, offset: 18600},
+							pos:   position{line: 601, col: 5, offset: 18871},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 597, col: 14, offset: 18609},
+								pos:  position{line: 601, col: 14, offset: 18880},
 								name: "DoubleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 598, col: 5, offset: 18648},
+							pos:        position{line: 602, col: 5, offset: 18919},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&andExpr{
-							pos: position{line: 598, col: 10, offset: 18653},
+							pos: position{line: 602, col: 10, offset: 18924},
 							expr: &notExpr{
-								pos: position{line: 598, col: 12, offset: 18655},
+								pos: position{line: 602, col: 12, offset: 18926},
 								expr: &seqExpr{
-									pos: position{line: 598, col: 14, offset: 18657},
+									pos: position{line: 602, col: 14, offset: 18928},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 598, col: 14, offset: 18657},
+											pos: position{line: 602, col: 14, offset: 18928},
 											expr: &actionExpr{
-												pos: position{line: 2918, col: 10, offset: 92139},
+												pos: position{line: 2922, col: 10, offset: 92410},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2918, col: 10, offset: 92139},
+													pos:        position{line: 2922, col: 10, offset: 92410},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14623,7 +14623,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 598, col: 21, offset: 18664},
+											pos:        position{line: 602, col: 21, offset: 18935},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -14638,25 +14638,25 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValueContent",
-			pos:  position{line: 602, col: 1, offset: 18707},
+			pos:  position{line: 606, col: 1, offset: 18978},
 			expr: &actionExpr{
-				pos: position{line: 603, col: 5, offset: 18749},
+				pos: position{line: 607, col: 5, offset: 19020},
 				run: (*parser).callonDoubleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 603, col: 5, offset: 18749},
+					pos:   position{line: 607, col: 5, offset: 19020},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 603, col: 14, offset: 18758},
+						pos: position{line: 607, col: 14, offset: 19029},
 						expr: &choiceExpr{
-							pos: position{line: 604, col: 9, offset: 18768},
+							pos: position{line: 608, col: 9, offset: 19039},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2812, col: 14, offset: 89308},
+									pos: position{line: 2816, col: 14, offset: 89579},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2812, col: 14, offset: 89308},
+										pos: position{line: 2816, col: 14, offset: 89579},
 										expr: &charClassMatcher{
-											pos:        position{line: 2812, col: 14, offset: 89308},
+											pos:        position{line: 2816, col: 14, offset: 89579},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14665,10 +14665,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2918, col: 10, offset: 92139},
+									pos: position{line: 2922, col: 10, offset: 92410},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2918, col: 10, offset: 92139},
+										pos:        position{line: 2922, col: 10, offset: 92410},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14676,39 +14676,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 606, col: 11, offset: 18804},
+									pos:  position{line: 610, col: 11, offset: 19075},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 645, col: 5, offset: 20519},
+									pos: position{line: 649, col: 5, offset: 20790},
 									run: (*parser).callonDoubleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 645, col: 5, offset: 20519},
+										pos: position{line: 649, col: 5, offset: 20790},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 645, col: 5, offset: 20519},
+												pos: position{line: 649, col: 5, offset: 20790},
 												run: (*parser).callonDoubleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 648, col: 5, offset: 20591},
+												pos:   position{line: 652, col: 5, offset: 20862},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 648, col: 14, offset: 20600},
+													pos: position{line: 652, col: 14, offset: 20871},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 654, col: 5, offset: 20729},
+															pos: position{line: 658, col: 5, offset: 21000},
 															run: (*parser).callonDoubleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 654, col: 5, offset: 20729},
+																pos: position{line: 658, col: 5, offset: 21000},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 654, col: 5, offset: 20729},
+																		pos:        position{line: 658, col: 5, offset: 21000},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 654, col: 13, offset: 20737},
+																		pos:   position{line: 658, col: 13, offset: 21008},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14740,7 +14740,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 654, col: 32, offset: 20756},
+																		pos:        position{line: 658, col: 32, offset: 21027},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14749,19 +14749,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 661, col: 5, offset: 20997},
+															pos: position{line: 665, col: 5, offset: 21268},
 															run: (*parser).callonDoubleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 661, col: 5, offset: 20997},
+																pos: position{line: 665, col: 5, offset: 21268},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 661, col: 5, offset: 20997},
+																		pos:        position{line: 665, col: 5, offset: 21268},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 661, col: 9, offset: 21001},
+																		pos:   position{line: 665, col: 9, offset: 21272},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14793,7 +14793,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 661, col: 28, offset: 21020},
+																		pos:        position{line: 665, col: 28, offset: 21291},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14802,19 +14802,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 667, col: 25, offset: 21201},
+															pos: position{line: 671, col: 25, offset: 21472},
 															run: (*parser).callonDoubleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 667, col: 25, offset: 21201},
+																pos: position{line: 671, col: 25, offset: 21472},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 667, col: 25, offset: 21201},
+																		pos:        position{line: 671, col: 25, offset: 21472},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 667, col: 37, offset: 21213},
+																		pos:   position{line: 671, col: 37, offset: 21484},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14846,33 +14846,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 667, col: 56, offset: 21232},
+																		pos:   position{line: 671, col: 56, offset: 21503},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 667, col: 62, offset: 21238},
+																			pos: position{line: 671, col: 62, offset: 21509},
 																			expr: &actionExpr{
-																				pos: position{line: 675, col: 17, offset: 21535},
+																				pos: position{line: 679, col: 17, offset: 21806},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 675, col: 17, offset: 21535},
+																					pos: position{line: 679, col: 17, offset: 21806},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 675, col: 17, offset: 21535},
+																							pos:        position{line: 679, col: 17, offset: 21806},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 675, col: 21, offset: 21539},
+																							pos:   position{line: 679, col: 21, offset: 21810},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 675, col: 28, offset: 21546},
+																								pos: position{line: 679, col: 28, offset: 21817},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 675, col: 28, offset: 21546},
+																										pos: position{line: 679, col: 28, offset: 21817},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 675, col: 28, offset: 21546},
+																											pos:        position{line: 679, col: 28, offset: 21817},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14880,12 +14880,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 677, col: 9, offset: 21600},
+																										pos: position{line: 681, col: 9, offset: 21871},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 677, col: 9, offset: 21600},
+																											pos: position{line: 681, col: 9, offset: 21871},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 677, col: 9, offset: 21600},
+																												pos:        position{line: 681, col: 9, offset: 21871},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14902,7 +14902,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 667, col: 78, offset: 21254},
+																		pos:        position{line: 671, col: 78, offset: 21525},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14911,19 +14911,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 671, col: 25, offset: 21372},
+															pos: position{line: 675, col: 25, offset: 21643},
 															run: (*parser).callonDoubleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 671, col: 25, offset: 21372},
+																pos: position{line: 675, col: 25, offset: 21643},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 671, col: 25, offset: 21372},
+																		pos:        position{line: 675, col: 25, offset: 21643},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 671, col: 38, offset: 21385},
+																		pos:   position{line: 675, col: 38, offset: 21656},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14955,33 +14955,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 671, col: 57, offset: 21404},
+																		pos:   position{line: 675, col: 57, offset: 21675},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 671, col: 63, offset: 21410},
+																			pos: position{line: 675, col: 63, offset: 21681},
 																			expr: &actionExpr{
-																				pos: position{line: 675, col: 17, offset: 21535},
+																				pos: position{line: 679, col: 17, offset: 21806},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 675, col: 17, offset: 21535},
+																					pos: position{line: 679, col: 17, offset: 21806},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 675, col: 17, offset: 21535},
+																							pos:        position{line: 679, col: 17, offset: 21806},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 675, col: 21, offset: 21539},
+																							pos:   position{line: 679, col: 21, offset: 21810},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 675, col: 28, offset: 21546},
+																								pos: position{line: 679, col: 28, offset: 21817},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 675, col: 28, offset: 21546},
+																										pos: position{line: 679, col: 28, offset: 21817},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 675, col: 28, offset: 21546},
+																											pos:        position{line: 679, col: 28, offset: 21817},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14989,12 +14989,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 677, col: 9, offset: 21600},
+																										pos: position{line: 681, col: 9, offset: 21871},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 677, col: 9, offset: 21600},
+																											pos: position{line: 681, col: 9, offset: 21871},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 677, col: 9, offset: 21600},
+																												pos:        position{line: 681, col: 9, offset: 21871},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -15011,7 +15011,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 671, col: 79, offset: 21426},
+																		pos:        position{line: 675, col: 79, offset: 21697},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -15026,50 +15026,50 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 608, col: 12, offset: 18859},
+									pos: position{line: 612, col: 12, offset: 19130},
 									run: (*parser).callonDoubleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 608, col: 12, offset: 18859},
+										pos:        position{line: 612, col: 12, offset: 19130},
 										val:        "\\\"",
 										ignoreCase: false,
 										want:       "\"\\\\\\\"\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 611, col: 13, offset: 18961},
+									pos:        position{line: 615, col: 13, offset: 19232},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 611, col: 21, offset: 18969},
+									pos:        position{line: 615, col: 21, offset: 19240},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&litMatcher{
-									pos:        position{line: 611, col: 29, offset: 18977},
+									pos:        position{line: 615, col: 29, offset: 19248},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&actionExpr{
-									pos: position{line: 611, col: 35, offset: 18983},
+									pos: position{line: 615, col: 35, offset: 19254},
 									run: (*parser).callonDoubleQuotedAttributeValueContent85,
 									expr: &litMatcher{
-										pos:        position{line: 611, col: 35, offset: 18983},
+										pos:        position{line: 615, col: 35, offset: 19254},
 										val:        "`",
 										ignoreCase: false,
 										want:       "\"`\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 614, col: 12, offset: 19166},
+									pos: position{line: 618, col: 12, offset: 19437},
 									run: (*parser).callonDoubleQuotedAttributeValueContent87,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 614, col: 12, offset: 19166},
+										pos: position{line: 618, col: 12, offset: 19437},
 										expr: &charClassMatcher{
-											pos:        position{line: 614, col: 12, offset: 19166},
+											pos:        position{line: 618, col: 12, offset: 19437},
 											val:        "[^\\r\\n\\\\\"` ]",
 											chars:      []rune{'\r', '\n', '\\', '"', '`', ' '},
 											ignoreCase: false,
@@ -15085,20 +15085,20 @@ var g = &grammar{
 		},
 		{
 			name: "UnquotedAttributeValue",
-			pos:  position{line: 625, col: 1, offset: 19547},
+			pos:  position{line: 629, col: 1, offset: 19818},
 			expr: &actionExpr{
-				pos: position{line: 628, col: 5, offset: 19731},
+				pos: position{line: 632, col: 5, offset: 20002},
 				run: (*parser).callonUnquotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 628, col: 5, offset: 19731},
+					pos: position{line: 632, col: 5, offset: 20002},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 628, col: 5, offset: 19731},
+							pos: position{line: 632, col: 5, offset: 20002},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92139},
+								pos: position{line: 2922, col: 10, offset: 92410},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92139},
+									pos:        position{line: 2922, col: 10, offset: 92410},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15107,28 +15107,28 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 629, col: 5, offset: 19800},
+							pos:   position{line: 633, col: 5, offset: 20071},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 629, col: 14, offset: 19809},
+								pos: position{line: 633, col: 14, offset: 20080},
 								expr: &choiceExpr{
-									pos: position{line: 630, col: 9, offset: 19819},
+									pos: position{line: 634, col: 9, offset: 20090},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 630, col: 10, offset: 19820},
+											pos: position{line: 634, col: 10, offset: 20091},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 630, col: 10, offset: 19820},
+													pos:        position{line: 634, col: 10, offset: 20091},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
 												},
 												&ruleRefExpr{
-													pos:  position{line: 630, col: 14, offset: 19824},
+													pos:  position{line: 634, col: 14, offset: 20095},
 													name: "UnquotedAttributeValue",
 												},
 												&litMatcher{
-													pos:        position{line: 630, col: 37, offset: 19847},
+													pos:        position{line: 634, col: 37, offset: 20118},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
@@ -15136,35 +15136,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 645, col: 5, offset: 20519},
+											pos: position{line: 649, col: 5, offset: 20790},
 											run: (*parser).callonUnquotedAttributeValue13,
 											expr: &seqExpr{
-												pos: position{line: 645, col: 5, offset: 20519},
+												pos: position{line: 649, col: 5, offset: 20790},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 645, col: 5, offset: 20519},
+														pos: position{line: 649, col: 5, offset: 20790},
 														run: (*parser).callonUnquotedAttributeValue15,
 													},
 													&labeledExpr{
-														pos:   position{line: 648, col: 5, offset: 20591},
+														pos:   position{line: 652, col: 5, offset: 20862},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 648, col: 14, offset: 20600},
+															pos: position{line: 652, col: 14, offset: 20871},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 654, col: 5, offset: 20729},
+																	pos: position{line: 658, col: 5, offset: 21000},
 																	run: (*parser).callonUnquotedAttributeValue18,
 																	expr: &seqExpr{
-																		pos: position{line: 654, col: 5, offset: 20729},
+																		pos: position{line: 658, col: 5, offset: 21000},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 654, col: 5, offset: 20729},
+																				pos:        position{line: 658, col: 5, offset: 21000},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 654, col: 13, offset: 20737},
+																				pos:   position{line: 658, col: 13, offset: 21008},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -15196,7 +15196,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 654, col: 32, offset: 20756},
+																				pos:        position{line: 658, col: 32, offset: 21027},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15205,19 +15205,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 661, col: 5, offset: 20997},
+																	pos: position{line: 665, col: 5, offset: 21268},
 																	run: (*parser).callonUnquotedAttributeValue28,
 																	expr: &seqExpr{
-																		pos: position{line: 661, col: 5, offset: 20997},
+																		pos: position{line: 665, col: 5, offset: 21268},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 661, col: 5, offset: 20997},
+																				pos:        position{line: 665, col: 5, offset: 21268},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 661, col: 9, offset: 21001},
+																				pos:   position{line: 665, col: 9, offset: 21272},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -15249,7 +15249,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 661, col: 28, offset: 21020},
+																				pos:        position{line: 665, col: 28, offset: 21291},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15258,19 +15258,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 667, col: 25, offset: 21201},
+																	pos: position{line: 671, col: 25, offset: 21472},
 																	run: (*parser).callonUnquotedAttributeValue38,
 																	expr: &seqExpr{
-																		pos: position{line: 667, col: 25, offset: 21201},
+																		pos: position{line: 671, col: 25, offset: 21472},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 667, col: 25, offset: 21201},
+																				pos:        position{line: 671, col: 25, offset: 21472},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 667, col: 37, offset: 21213},
+																				pos:   position{line: 671, col: 37, offset: 21484},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -15302,33 +15302,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 667, col: 56, offset: 21232},
+																				pos:   position{line: 671, col: 56, offset: 21503},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 667, col: 62, offset: 21238},
+																					pos: position{line: 671, col: 62, offset: 21509},
 																					expr: &actionExpr{
-																						pos: position{line: 675, col: 17, offset: 21535},
+																						pos: position{line: 679, col: 17, offset: 21806},
 																						run: (*parser).callonUnquotedAttributeValue49,
 																						expr: &seqExpr{
-																							pos: position{line: 675, col: 17, offset: 21535},
+																							pos: position{line: 679, col: 17, offset: 21806},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 675, col: 17, offset: 21535},
+																									pos:        position{line: 679, col: 17, offset: 21806},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 675, col: 21, offset: 21539},
+																									pos:   position{line: 679, col: 21, offset: 21810},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 675, col: 28, offset: 21546},
+																										pos: position{line: 679, col: 28, offset: 21817},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 675, col: 28, offset: 21546},
+																												pos: position{line: 679, col: 28, offset: 21817},
 																												run: (*parser).callonUnquotedAttributeValue54,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 675, col: 28, offset: 21546},
+																													pos:        position{line: 679, col: 28, offset: 21817},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15336,12 +15336,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 677, col: 9, offset: 21600},
+																												pos: position{line: 681, col: 9, offset: 21871},
 																												run: (*parser).callonUnquotedAttributeValue56,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 677, col: 9, offset: 21600},
+																													pos: position{line: 681, col: 9, offset: 21871},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 677, col: 9, offset: 21600},
+																														pos:        position{line: 681, col: 9, offset: 21871},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15358,7 +15358,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 667, col: 78, offset: 21254},
+																				pos:        position{line: 671, col: 78, offset: 21525},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15367,19 +15367,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 671, col: 25, offset: 21372},
+																	pos: position{line: 675, col: 25, offset: 21643},
 																	run: (*parser).callonUnquotedAttributeValue60,
 																	expr: &seqExpr{
-																		pos: position{line: 671, col: 25, offset: 21372},
+																		pos: position{line: 675, col: 25, offset: 21643},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 671, col: 25, offset: 21372},
+																				pos:        position{line: 675, col: 25, offset: 21643},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 671, col: 38, offset: 21385},
+																				pos:   position{line: 675, col: 38, offset: 21656},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -15411,33 +15411,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 671, col: 57, offset: 21404},
+																				pos:   position{line: 675, col: 57, offset: 21675},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 671, col: 63, offset: 21410},
+																					pos: position{line: 675, col: 63, offset: 21681},
 																					expr: &actionExpr{
-																						pos: position{line: 675, col: 17, offset: 21535},
+																						pos: position{line: 679, col: 17, offset: 21806},
 																						run: (*parser).callonUnquotedAttributeValue71,
 																						expr: &seqExpr{
-																							pos: position{line: 675, col: 17, offset: 21535},
+																							pos: position{line: 679, col: 17, offset: 21806},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 675, col: 17, offset: 21535},
+																									pos:        position{line: 679, col: 17, offset: 21806},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 675, col: 21, offset: 21539},
+																									pos:   position{line: 679, col: 21, offset: 21810},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 675, col: 28, offset: 21546},
+																										pos: position{line: 679, col: 28, offset: 21817},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 675, col: 28, offset: 21546},
+																												pos: position{line: 679, col: 28, offset: 21817},
 																												run: (*parser).callonUnquotedAttributeValue76,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 675, col: 28, offset: 21546},
+																													pos:        position{line: 679, col: 28, offset: 21817},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15445,12 +15445,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 677, col: 9, offset: 21600},
+																												pos: position{line: 681, col: 9, offset: 21871},
 																												run: (*parser).callonUnquotedAttributeValue78,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 677, col: 9, offset: 21600},
+																													pos: position{line: 681, col: 9, offset: 21871},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 677, col: 9, offset: 21600},
+																														pos:        position{line: 681, col: 9, offset: 21871},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15467,7 +15467,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 671, col: 79, offset: 21426},
+																				pos:        position{line: 675, col: 79, offset: 21697},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15482,16 +15482,16 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 631, col: 32, offset: 19934},
+											pos:        position{line: 635, col: 32, offset: 20205},
 											val:        "{",
 											ignoreCase: false,
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2918, col: 10, offset: 92139},
+											pos: position{line: 2922, col: 10, offset: 92410},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2918, col: 10, offset: 92139},
+												pos:        position{line: 2922, col: 10, offset: 92410},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15499,12 +15499,12 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 633, col: 12, offset: 20019},
+											pos: position{line: 637, col: 12, offset: 20290},
 											run: (*parser).callonUnquotedAttributeValue85,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 633, col: 12, offset: 20019},
+												pos: position{line: 637, col: 12, offset: 20290},
 												expr: &charClassMatcher{
-													pos:        position{line: 633, col: 12, offset: 20019},
+													pos:        position{line: 637, col: 12, offset: 20290},
 													val:        "[^=,]{ ]",
 													chars:      []rune{'=', ',', ']', '{', ' '},
 													ignoreCase: false,
@@ -15522,32 +15522,32 @@ var g = &grammar{
 		},
 		{
 			name: "CrossReference",
-			pos:  position{line: 693, col: 1, offset: 22162},
+			pos:  position{line: 697, col: 1, offset: 22433},
 			expr: &choiceExpr{
-				pos: position{line: 693, col: 19, offset: 22180},
+				pos: position{line: 697, col: 19, offset: 22451},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 695, col: 27, offset: 22256},
+						pos: position{line: 699, col: 27, offset: 22527},
 						run: (*parser).callonCrossReference2,
 						expr: &seqExpr{
-							pos: position{line: 695, col: 27, offset: 22256},
+							pos: position{line: 699, col: 27, offset: 22527},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 695, col: 27, offset: 22256},
+									pos:        position{line: 699, col: 27, offset: 22527},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 695, col: 32, offset: 22261},
+									pos:   position{line: 699, col: 32, offset: 22532},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2903, col: 7, offset: 91791},
+										pos: position{line: 2907, col: 7, offset: 92062},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2903, col: 7, offset: 91791},
+											pos: position{line: 2907, col: 7, offset: 92062},
 											expr: &charClassMatcher{
-												pos:        position{line: 2903, col: 7, offset: 91791},
+												pos:        position{line: 2907, col: 7, offset: 92062},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15557,12 +15557,12 @@ var g = &grammar{
 									},
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 695, col: 40, offset: 22269},
+									pos: position{line: 699, col: 40, offset: 22540},
 									expr: &actionExpr{
-										pos: position{line: 2918, col: 10, offset: 92139},
+										pos: position{line: 2922, col: 10, offset: 92410},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2918, col: 10, offset: 92139},
+											pos:        position{line: 2922, col: 10, offset: 92410},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15571,36 +15571,36 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 695, col: 47, offset: 22276},
+									pos:        position{line: 699, col: 47, offset: 22547},
 									val:        ",",
 									ignoreCase: false,
 									want:       "\",\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 695, col: 51, offset: 22280},
+									pos:   position{line: 699, col: 51, offset: 22551},
 									label: "label",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 705, col: 24, offset: 22681},
+										pos: position{line: 709, col: 24, offset: 22952},
 										expr: &choiceExpr{
-											pos: position{line: 706, col: 5, offset: 22687},
+											pos: position{line: 710, col: 5, offset: 22958},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 706, col: 6, offset: 22688},
+													pos: position{line: 710, col: 6, offset: 22959},
 													run: (*parser).callonCrossReference16,
 													expr: &seqExpr{
-														pos: position{line: 706, col: 6, offset: 22688},
+														pos: position{line: 710, col: 6, offset: 22959},
 														exprs: []interface{}{
 															&charClassMatcher{
-																pos:        position{line: 706, col: 6, offset: 22688},
+																pos:        position{line: 710, col: 6, offset: 22959},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
 																inverted:   false,
 															},
 															&oneOrMoreExpr{
-																pos: position{line: 706, col: 14, offset: 22696},
+																pos: position{line: 710, col: 14, offset: 22967},
 																expr: &charClassMatcher{
-																	pos:        position{line: 706, col: 14, offset: 22696},
+																	pos:        position{line: 710, col: 14, offset: 22967},
 																	val:        "[^\\r\\n{<>]",
 																	chars:      []rune{'\r', '\n', '{', '<', '>'},
 																	ignoreCase: false,
@@ -15611,19 +15611,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 654, col: 5, offset: 20729},
+													pos: position{line: 658, col: 5, offset: 21000},
 													run: (*parser).callonCrossReference21,
 													expr: &seqExpr{
-														pos: position{line: 654, col: 5, offset: 20729},
+														pos: position{line: 658, col: 5, offset: 21000},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 654, col: 5, offset: 20729},
+																pos:        position{line: 658, col: 5, offset: 21000},
 																val:        "\\{",
 																ignoreCase: false,
 																want:       "\"\\\\{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 654, col: 13, offset: 20737},
+																pos:   position{line: 658, col: 13, offset: 21008},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 320, col: 18, offset: 9837},
@@ -15655,7 +15655,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 654, col: 32, offset: 20756},
+																pos:        position{line: 658, col: 32, offset: 21027},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15664,19 +15664,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 661, col: 5, offset: 20997},
+													pos: position{line: 665, col: 5, offset: 21268},
 													run: (*parser).callonCrossReference31,
 													expr: &seqExpr{
-														pos: position{line: 661, col: 5, offset: 20997},
+														pos: position{line: 665, col: 5, offset: 21268},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 661, col: 5, offset: 20997},
+																pos:        position{line: 665, col: 5, offset: 21268},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 661, col: 9, offset: 21001},
+																pos:   position{line: 665, col: 9, offset: 21272},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 320, col: 18, offset: 9837},
@@ -15708,7 +15708,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 661, col: 28, offset: 21020},
+																pos:        position{line: 665, col: 28, offset: 21291},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15717,10 +15717,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 710, col: 8, offset: 22922},
+													pos: position{line: 714, col: 8, offset: 23193},
 													run: (*parser).callonCrossReference41,
 													expr: &litMatcher{
-														pos:        position{line: 710, col: 8, offset: 22922},
+														pos:        position{line: 714, col: 8, offset: 23193},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -15731,7 +15731,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 695, col: 79, offset: 22308},
+									pos:        position{line: 699, col: 79, offset: 22579},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15740,27 +15740,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 697, col: 9, offset: 22381},
+						pos: position{line: 701, col: 9, offset: 22652},
 						run: (*parser).callonCrossReference44,
 						expr: &seqExpr{
-							pos: position{line: 697, col: 9, offset: 22381},
+							pos: position{line: 701, col: 9, offset: 22652},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 697, col: 9, offset: 22381},
+									pos:        position{line: 701, col: 9, offset: 22652},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 697, col: 14, offset: 22386},
+									pos:   position{line: 701, col: 14, offset: 22657},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2903, col: 7, offset: 91791},
+										pos: position{line: 2907, col: 7, offset: 92062},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2903, col: 7, offset: 91791},
+											pos: position{line: 2907, col: 7, offset: 92062},
 											expr: &charClassMatcher{
-												pos:        position{line: 2903, col: 7, offset: 91791},
+												pos:        position{line: 2907, col: 7, offset: 92062},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15770,7 +15770,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 697, col: 22, offset: 22394},
+									pos:        position{line: 701, col: 22, offset: 22665},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15779,7 +15779,7 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 693, col: 44, offset: 22205},
+						pos:  position{line: 697, col: 44, offset: 22476},
 						name: "ExternalCrossReference",
 					},
 				},
@@ -15787,58 +15787,58 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalCrossReference",
-			pos:  position{line: 701, col: 1, offset: 22465},
+			pos:  position{line: 705, col: 1, offset: 22736},
 			expr: &actionExpr{
-				pos: position{line: 701, col: 27, offset: 22491},
+				pos: position{line: 705, col: 27, offset: 22762},
 				run: (*parser).callonExternalCrossReference1,
 				expr: &seqExpr{
-					pos: position{line: 701, col: 27, offset: 22491},
+					pos: position{line: 705, col: 27, offset: 22762},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 701, col: 27, offset: 22491},
+							pos:        position{line: 705, col: 27, offset: 22762},
 							val:        "xref:",
 							ignoreCase: false,
 							want:       "\"xref:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 701, col: 35, offset: 22499},
+							pos:   position{line: 705, col: 35, offset: 22770},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2872, col: 17, offset: 90802},
+								pos: position{line: 2876, col: 17, offset: 91073},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2872, col: 17, offset: 90802},
+									pos:   position{line: 2876, col: 17, offset: 91073},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2889, col: 5, offset: 91256},
+										pos: position{line: 2893, col: 5, offset: 91527},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2889, col: 5, offset: 91256},
+											pos:   position{line: 2893, col: 5, offset: 91527},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2889, col: 14, offset: 91265},
+												pos: position{line: 2893, col: 14, offset: 91536},
 												expr: &choiceExpr{
-													pos: position{line: 2890, col: 9, offset: 91275},
+													pos: position{line: 2894, col: 9, offset: 91546},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2890, col: 9, offset: 91275},
+															pos: position{line: 2894, col: 9, offset: 91546},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2890, col: 9, offset: 91275},
+																pos: position{line: 2894, col: 9, offset: 91546},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2890, col: 9, offset: 91275},
+																		pos: position{line: 2894, col: 9, offset: 91546},
 																		expr: &litMatcher{
-																			pos:        position{line: 2890, col: 10, offset: 91276},
+																			pos:        position{line: 2894, col: 10, offset: 91547},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2891, col: 9, offset: 91304},
+																		pos: position{line: 2895, col: 9, offset: 91575},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2891, col: 10, offset: 91305},
+																			pos:        position{line: 2895, col: 10, offset: 91576},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15849,27 +15849,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2894, col: 11, offset: 91517},
+															pos: position{line: 2898, col: 11, offset: 91788},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2894, col: 11, offset: 91517},
+																	pos:        position{line: 2898, col: 11, offset: 91788},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2894, col: 19, offset: 91525},
+																	pos: position{line: 2898, col: 19, offset: 91796},
 																	expr: &seqExpr{
-																		pos: position{line: 2894, col: 21, offset: 91527},
+																		pos: position{line: 2898, col: 21, offset: 91798},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2894, col: 21, offset: 91527},
+																				pos: position{line: 2898, col: 21, offset: 91798},
 																				expr: &actionExpr{
-																					pos: position{line: 2918, col: 10, offset: 92139},
+																					pos: position{line: 2922, col: 10, offset: 92410},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2918, col: 10, offset: 92139},
+																						pos:        position{line: 2922, col: 10, offset: 92410},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15878,11 +15878,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2894, col: 28, offset: 91534},
+																				pos: position{line: 2898, col: 28, offset: 91805},
 																				expr: &notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
@@ -15892,35 +15892,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 645, col: 5, offset: 20519},
+															pos: position{line: 649, col: 5, offset: 20790},
 															run: (*parser).callonExternalCrossReference27,
 															expr: &seqExpr{
-																pos: position{line: 645, col: 5, offset: 20519},
+																pos: position{line: 649, col: 5, offset: 20790},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 645, col: 5, offset: 20519},
+																		pos: position{line: 649, col: 5, offset: 20790},
 																		run: (*parser).callonExternalCrossReference29,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 648, col: 5, offset: 20591},
+																		pos:   position{line: 652, col: 5, offset: 20862},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 648, col: 14, offset: 20600},
+																			pos: position{line: 652, col: 14, offset: 20871},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 654, col: 5, offset: 20729},
+																					pos: position{line: 658, col: 5, offset: 21000},
 																					run: (*parser).callonExternalCrossReference32,
 																					expr: &seqExpr{
-																						pos: position{line: 654, col: 5, offset: 20729},
+																						pos: position{line: 658, col: 5, offset: 21000},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 654, col: 5, offset: 20729},
+																								pos:        position{line: 658, col: 5, offset: 21000},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 654, col: 13, offset: 20737},
+																								pos:   position{line: 658, col: 13, offset: 21008},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -15952,7 +15952,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 654, col: 32, offset: 20756},
+																								pos:        position{line: 658, col: 32, offset: 21027},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15961,19 +15961,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 661, col: 5, offset: 20997},
+																					pos: position{line: 665, col: 5, offset: 21268},
 																					run: (*parser).callonExternalCrossReference42,
 																					expr: &seqExpr{
-																						pos: position{line: 661, col: 5, offset: 20997},
+																						pos: position{line: 665, col: 5, offset: 21268},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 661, col: 5, offset: 20997},
+																								pos:        position{line: 665, col: 5, offset: 21268},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 661, col: 9, offset: 21001},
+																								pos:   position{line: 665, col: 9, offset: 21272},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -16005,7 +16005,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 661, col: 28, offset: 21020},
+																								pos:        position{line: 665, col: 28, offset: 21291},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16014,19 +16014,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 667, col: 25, offset: 21201},
+																					pos: position{line: 671, col: 25, offset: 21472},
 																					run: (*parser).callonExternalCrossReference52,
 																					expr: &seqExpr{
-																						pos: position{line: 667, col: 25, offset: 21201},
+																						pos: position{line: 671, col: 25, offset: 21472},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 667, col: 25, offset: 21201},
+																								pos:        position{line: 671, col: 25, offset: 21472},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 667, col: 37, offset: 21213},
+																								pos:   position{line: 671, col: 37, offset: 21484},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -16058,33 +16058,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 667, col: 56, offset: 21232},
+																								pos:   position{line: 671, col: 56, offset: 21503},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 667, col: 62, offset: 21238},
+																									pos: position{line: 671, col: 62, offset: 21509},
 																									expr: &actionExpr{
-																										pos: position{line: 675, col: 17, offset: 21535},
+																										pos: position{line: 679, col: 17, offset: 21806},
 																										run: (*parser).callonExternalCrossReference63,
 																										expr: &seqExpr{
-																											pos: position{line: 675, col: 17, offset: 21535},
+																											pos: position{line: 679, col: 17, offset: 21806},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 675, col: 17, offset: 21535},
+																													pos:        position{line: 679, col: 17, offset: 21806},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 675, col: 21, offset: 21539},
+																													pos:   position{line: 679, col: 21, offset: 21810},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 675, col: 28, offset: 21546},
+																														pos: position{line: 679, col: 28, offset: 21817},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 675, col: 28, offset: 21546},
+																																pos: position{line: 679, col: 28, offset: 21817},
 																																run: (*parser).callonExternalCrossReference68,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 675, col: 28, offset: 21546},
+																																	pos:        position{line: 679, col: 28, offset: 21817},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -16092,12 +16092,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 677, col: 9, offset: 21600},
+																																pos: position{line: 681, col: 9, offset: 21871},
 																																run: (*parser).callonExternalCrossReference70,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 677, col: 9, offset: 21600},
+																																	pos: position{line: 681, col: 9, offset: 21871},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 677, col: 9, offset: 21600},
+																																		pos:        position{line: 681, col: 9, offset: 21871},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -16114,7 +16114,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 667, col: 78, offset: 21254},
+																								pos:        position{line: 671, col: 78, offset: 21525},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16123,19 +16123,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 671, col: 25, offset: 21372},
+																					pos: position{line: 675, col: 25, offset: 21643},
 																					run: (*parser).callonExternalCrossReference74,
 																					expr: &seqExpr{
-																						pos: position{line: 671, col: 25, offset: 21372},
+																						pos: position{line: 675, col: 25, offset: 21643},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 671, col: 25, offset: 21372},
+																								pos:        position{line: 675, col: 25, offset: 21643},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 671, col: 38, offset: 21385},
+																								pos:   position{line: 675, col: 38, offset: 21656},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -16167,33 +16167,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 671, col: 57, offset: 21404},
+																								pos:   position{line: 675, col: 57, offset: 21675},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 671, col: 63, offset: 21410},
+																									pos: position{line: 675, col: 63, offset: 21681},
 																									expr: &actionExpr{
-																										pos: position{line: 675, col: 17, offset: 21535},
+																										pos: position{line: 679, col: 17, offset: 21806},
 																										run: (*parser).callonExternalCrossReference85,
 																										expr: &seqExpr{
-																											pos: position{line: 675, col: 17, offset: 21535},
+																											pos: position{line: 679, col: 17, offset: 21806},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 675, col: 17, offset: 21535},
+																													pos:        position{line: 679, col: 17, offset: 21806},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 675, col: 21, offset: 21539},
+																													pos:   position{line: 679, col: 21, offset: 21810},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 675, col: 28, offset: 21546},
+																														pos: position{line: 679, col: 28, offset: 21817},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 675, col: 28, offset: 21546},
+																																pos: position{line: 679, col: 28, offset: 21817},
 																																run: (*parser).callonExternalCrossReference90,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 675, col: 28, offset: 21546},
+																																	pos:        position{line: 679, col: 28, offset: 21817},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -16201,12 +16201,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 677, col: 9, offset: 21600},
+																																pos: position{line: 681, col: 9, offset: 21871},
 																																run: (*parser).callonExternalCrossReference92,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 677, col: 9, offset: 21600},
+																																	pos: position{line: 681, col: 9, offset: 21871},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 677, col: 9, offset: 21600},
+																																		pos:        position{line: 681, col: 9, offset: 21871},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -16223,7 +16223,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 671, col: 79, offset: 21426},
+																								pos:        position{line: 675, col: 79, offset: 21697},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16238,27 +16238,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1207, col: 23, offset: 37384},
+															pos: position{line: 1211, col: 23, offset: 37655},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1207, col: 23, offset: 37384},
+																pos: position{line: 1211, col: 23, offset: 37655},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1205, col: 32, offset: 37352},
+																		pos:        position{line: 1209, col: 32, offset: 37623},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1207, col: 51, offset: 37412},
+																		pos:   position{line: 1211, col: 51, offset: 37683},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1207, col: 56, offset: 37417},
+																			pos: position{line: 1211, col: 56, offset: 37688},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1207, col: 56, offset: 37417},
+																				pos: position{line: 1211, col: 56, offset: 37688},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1207, col: 56, offset: 37417},
+																					pos:        position{line: 1211, col: 56, offset: 37688},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -16268,7 +16268,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1205, col: 32, offset: 37352},
+																		pos:        position{line: 1209, col: 32, offset: 37623},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -16277,10 +16277,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2897, col: 11, offset: 91654},
+															pos: position{line: 2901, col: 11, offset: 91925},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2897, col: 11, offset: 91654},
+																pos:        position{line: 2901, col: 11, offset: 91925},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16295,10 +16295,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 701, col: 54, offset: 22518},
+							pos:   position{line: 705, col: 54, offset: 22789},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 701, col: 66, offset: 22530},
+								pos:  position{line: 705, col: 66, offset: 22801},
 								name: "InlineAttributes",
 							},
 						},
@@ -16308,29 +16308,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 997, col: 1, offset: 31179},
+			pos:  position{line: 1001, col: 1, offset: 31450},
 			expr: &actionExpr{
-				pos: position{line: 998, col: 5, offset: 31212},
+				pos: position{line: 1002, col: 5, offset: 31483},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 998, col: 5, offset: 31212},
+					pos: position{line: 1002, col: 5, offset: 31483},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 998, col: 5, offset: 31212},
+							pos:        position{line: 1002, col: 5, offset: 31483},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 998, col: 11, offset: 31218},
+							pos:   position{line: 1002, col: 11, offset: 31489},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2868, col: 14, offset: 90732},
+								pos: position{line: 2872, col: 14, offset: 91003},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2868, col: 14, offset: 90732},
+									pos: position{line: 2872, col: 14, offset: 91003},
 									expr: &charClassMatcher{
-										pos:        position{line: 2868, col: 14, offset: 90732},
+										pos:        position{line: 2872, col: 14, offset: 91003},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16340,28 +16340,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2940, col: 8, offset: 92537},
+							pos: position{line: 2944, col: 8, offset: 92808},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2927, col: 12, offset: 92310},
+									pos: position{line: 2931, col: 12, offset: 92581},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2927, col: 13, offset: 92311},
+										pos: position{line: 2931, col: 13, offset: 92582},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2927, col: 13, offset: 92311},
+												pos:        position{line: 2931, col: 13, offset: 92582},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 20, offset: 92318},
+												pos:        position{line: 2931, col: 20, offset: 92589},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 29, offset: 92327},
+												pos:        position{line: 2931, col: 29, offset: 92598},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16370,9 +16370,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2937, col: 8, offset: 92487},
+									pos: position{line: 2941, col: 8, offset: 92758},
 									expr: &anyMatcher{
-										line: 2937, col: 9, offset: 92488,
+										line: 2941, col: 9, offset: 92759,
 									},
 								},
 							},
@@ -16383,53 +16383,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1109, col: 1, offset: 34135},
+			pos:  position{line: 1113, col: 1, offset: 34406},
 			expr: &actionExpr{
-				pos: position{line: 1110, col: 5, offset: 34158},
+				pos: position{line: 1114, col: 5, offset: 34429},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1110, col: 5, offset: 34158},
+					pos: position{line: 1114, col: 5, offset: 34429},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1110, col: 5, offset: 34158},
+							pos: position{line: 1114, col: 5, offset: 34429},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1113, col: 5, offset: 34219},
+							pos: position{line: 1117, col: 5, offset: 34490},
 							expr: &choiceExpr{
-								pos: position{line: 1113, col: 6, offset: 34220},
+								pos: position{line: 1117, col: 6, offset: 34491},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2521, col: 22, offset: 80917},
+										pos: position{line: 2525, col: 22, offset: 81188},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2521, col: 22, offset: 80917},
+											pos: position{line: 2525, col: 22, offset: 81188},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2526, col: 31, offset: 81167},
+													pos:        position{line: 2530, col: 31, offset: 81438},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2526, col: 36, offset: 81172},
+													pos: position{line: 2530, col: 36, offset: 81443},
 													expr: &litMatcher{
-														pos:        position{line: 2526, col: 37, offset: 81173},
+														pos:        position{line: 2530, col: 37, offset: 81444},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2521, col: 49, offset: 80944},
+													pos:   position{line: 2525, col: 49, offset: 81215},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 13, offset: 90665},
+														pos: position{line: 2868, col: 13, offset: 90936},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2864, col: 13, offset: 90665},
+															pos: position{line: 2868, col: 13, offset: 90936},
 															expr: &charClassMatcher{
-																pos:        position{line: 2864, col: 13, offset: 90665},
+																pos:        position{line: 2868, col: 13, offset: 90936},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16439,28 +16439,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2940, col: 8, offset: 92537},
+													pos: position{line: 2944, col: 8, offset: 92808},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92310},
+															pos: position{line: 2931, col: 12, offset: 92581},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92311},
+																pos: position{line: 2931, col: 13, offset: 92582},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92311},
+																		pos:        position{line: 2931, col: 13, offset: 92582},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92318},
+																		pos:        position{line: 2931, col: 20, offset: 92589},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92327},
+																		pos:        position{line: 2931, col: 29, offset: 92598},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16469,9 +16469,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2937, col: 8, offset: 92487},
+															pos: position{line: 2941, col: 8, offset: 92758},
 															expr: &anyMatcher{
-																line: 2937, col: 9, offset: 92488,
+																line: 2941, col: 9, offset: 92759,
 															},
 														},
 													},
@@ -16480,36 +16480,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 829, col: 5, offset: 26736},
+										pos: position{line: 833, col: 5, offset: 27007},
 										run: (*parser).callonDocumentHeader23,
 										expr: &seqExpr{
-											pos: position{line: 829, col: 5, offset: 26736},
+											pos: position{line: 833, col: 5, offset: 27007},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 749, col: 5, offset: 23996},
+													pos: position{line: 753, col: 5, offset: 24267},
 													run: (*parser).callonDocumentHeader25,
 													expr: &seqExpr{
-														pos: position{line: 749, col: 5, offset: 23996},
+														pos: position{line: 753, col: 5, offset: 24267},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 749, col: 5, offset: 23996},
+																pos:   position{line: 753, col: 5, offset: 24267},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 749, col: 16, offset: 24007},
+																	pos: position{line: 753, col: 16, offset: 24278},
 																	run: (*parser).callonDocumentHeader28,
 																	expr: &seqExpr{
-																		pos: position{line: 749, col: 16, offset: 24007},
+																		pos: position{line: 753, col: 16, offset: 24278},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 749, col: 16, offset: 24007},
+																				pos:        position{line: 753, col: 16, offset: 24278},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 749, col: 23, offset: 24014},
+																				pos: position{line: 753, col: 23, offset: 24285},
 																				expr: &litMatcher{
-																					pos:        position{line: 749, col: 23, offset: 24014},
+																					pos:        position{line: 753, col: 23, offset: 24285},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -16520,12 +16520,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 751, col: 8, offset: 24098},
+																pos: position{line: 755, col: 8, offset: 24369},
 																expr: &actionExpr{
-																	pos: position{line: 2918, col: 10, offset: 92139},
+																	pos: position{line: 2922, col: 10, offset: 92410},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2918, col: 10, offset: 92139},
+																		pos:        position{line: 2922, col: 10, offset: 92410},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16534,28 +16534,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2940, col: 8, offset: 92537},
+																pos: position{line: 2944, col: 8, offset: 92808},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2927, col: 12, offset: 92310},
+																		pos: position{line: 2931, col: 12, offset: 92581},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2927, col: 13, offset: 92311},
+																			pos: position{line: 2931, col: 13, offset: 92582},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 13, offset: 92311},
+																					pos:        position{line: 2931, col: 13, offset: 92582},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 20, offset: 92318},
+																					pos:        position{line: 2931, col: 20, offset: 92589},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 29, offset: 92327},
+																					pos:        position{line: 2931, col: 29, offset: 92598},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16564,9 +16564,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92487},
+																		pos: position{line: 2941, col: 8, offset: 92758},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92488,
+																			line: 2941, col: 9, offset: 92759,
 																		},
 																	},
 																},
@@ -16575,46 +16575,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 830, col: 5, offset: 26767},
+													pos:   position{line: 834, col: 5, offset: 27038},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 840, col: 5, offset: 27053},
+														pos: position{line: 844, col: 5, offset: 27324},
 														expr: &actionExpr{
-															pos: position{line: 840, col: 6, offset: 27054},
+															pos: position{line: 844, col: 6, offset: 27325},
 															run: (*parser).callonDocumentHeader46,
 															expr: &seqExpr{
-																pos: position{line: 840, col: 6, offset: 27054},
+																pos: position{line: 844, col: 6, offset: 27325},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 840, col: 6, offset: 27054},
+																		pos: position{line: 844, col: 6, offset: 27325},
 																		expr: &choiceExpr{
-																			pos: position{line: 837, col: 29, offset: 26996},
+																			pos: position{line: 841, col: 29, offset: 27267},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 749, col: 5, offset: 23996},
+																					pos: position{line: 753, col: 5, offset: 24267},
 																					run: (*parser).callonDocumentHeader50,
 																					expr: &seqExpr{
-																						pos: position{line: 749, col: 5, offset: 23996},
+																						pos: position{line: 753, col: 5, offset: 24267},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 749, col: 5, offset: 23996},
+																								pos:   position{line: 753, col: 5, offset: 24267},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 749, col: 16, offset: 24007},
+																									pos: position{line: 753, col: 16, offset: 24278},
 																									run: (*parser).callonDocumentHeader53,
 																									expr: &seqExpr{
-																										pos: position{line: 749, col: 16, offset: 24007},
+																										pos: position{line: 753, col: 16, offset: 24278},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 749, col: 16, offset: 24007},
+																												pos:        position{line: 753, col: 16, offset: 24278},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 749, col: 23, offset: 24014},
+																												pos: position{line: 753, col: 23, offset: 24285},
 																												expr: &litMatcher{
-																													pos:        position{line: 749, col: 23, offset: 24014},
+																													pos:        position{line: 753, col: 23, offset: 24285},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -16625,12 +16625,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 751, col: 8, offset: 24098},
+																								pos: position{line: 755, col: 8, offset: 24369},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92139},
+																									pos: position{line: 2922, col: 10, offset: 92410},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92139},
+																										pos:        position{line: 2922, col: 10, offset: 92410},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16639,28 +16639,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92537},
+																								pos: position{line: 2944, col: 8, offset: 92808},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92310},
+																										pos: position{line: 2931, col: 12, offset: 92581},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92311},
+																											pos: position{line: 2931, col: 13, offset: 92582},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92311},
+																													pos:        position{line: 2931, col: 13, offset: 92582},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92318},
+																													pos:        position{line: 2931, col: 20, offset: 92589},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92327},
+																													pos:        position{line: 2931, col: 29, offset: 92598},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16669,9 +16669,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92487},
+																										pos: position{line: 2941, col: 8, offset: 92758},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92488,
+																											line: 2941, col: 9, offset: 92759,
 																										},
 																									},
 																								},
@@ -16680,39 +16680,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 841, col: 5, offset: 27084},
+																		pos:   position{line: 845, col: 5, offset: 27355},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 820, col: 5, offset: 26500},
+																			pos: position{line: 824, col: 5, offset: 26771},
 																			run: (*parser).callonDocumentHeader72,
 																			expr: &seqExpr{
-																				pos: position{line: 820, col: 5, offset: 26500},
+																				pos: position{line: 824, col: 5, offset: 26771},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2935, col: 11, offset: 92473},
+																						pos: position{line: 2939, col: 11, offset: 92744},
 																						expr: &anyMatcher{
-																							line: 2935, col: 13, offset: 92475,
+																							line: 2939, col: 13, offset: 92746,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 821, col: 5, offset: 26575},
+																						pos:   position{line: 825, col: 5, offset: 26846},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 13, offset: 90665},
+																							pos: position{line: 2868, col: 13, offset: 90936},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2864, col: 13, offset: 90665},
+																								pos: position{line: 2868, col: 13, offset: 90936},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 13, offset: 90665},
+																									pos:        position{line: 2868, col: 13, offset: 90936},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16722,28 +16722,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92537},
+																						pos: position{line: 2944, col: 8, offset: 92808},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92310},
+																								pos: position{line: 2931, col: 12, offset: 92581},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92311},
+																									pos: position{line: 2931, col: 13, offset: 92582},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92311},
+																											pos:        position{line: 2931, col: 13, offset: 92582},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92318},
+																											pos:        position{line: 2931, col: 20, offset: 92589},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92327},
+																											pos:        position{line: 2931, col: 29, offset: 92598},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16752,9 +16752,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92487},
+																								pos: position{line: 2941, col: 8, offset: 92758},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92488,
+																									line: 2941, col: 9, offset: 92759,
 																								},
 																							},
 																						},
@@ -16769,35 +16769,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 831, col: 5, offset: 26801},
+													pos: position{line: 835, col: 5, offset: 27072},
 													expr: &choiceExpr{
-														pos: position{line: 837, col: 29, offset: 26996},
+														pos: position{line: 841, col: 29, offset: 27267},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 749, col: 5, offset: 23996},
+																pos: position{line: 753, col: 5, offset: 24267},
 																run: (*parser).callonDocumentHeader90,
 																expr: &seqExpr{
-																	pos: position{line: 749, col: 5, offset: 23996},
+																	pos: position{line: 753, col: 5, offset: 24267},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 749, col: 5, offset: 23996},
+																			pos:   position{line: 753, col: 5, offset: 24267},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 749, col: 16, offset: 24007},
+																				pos: position{line: 753, col: 16, offset: 24278},
 																				run: (*parser).callonDocumentHeader93,
 																				expr: &seqExpr{
-																					pos: position{line: 749, col: 16, offset: 24007},
+																					pos: position{line: 753, col: 16, offset: 24278},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 749, col: 16, offset: 24007},
+																							pos:        position{line: 753, col: 16, offset: 24278},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 749, col: 23, offset: 24014},
+																							pos: position{line: 753, col: 23, offset: 24285},
 																							expr: &litMatcher{
-																								pos:        position{line: 749, col: 23, offset: 24014},
+																								pos:        position{line: 753, col: 23, offset: 24285},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -16808,12 +16808,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 751, col: 8, offset: 24098},
+																			pos: position{line: 755, col: 8, offset: 24369},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92139},
+																				pos: position{line: 2922, col: 10, offset: 92410},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92139},
+																					pos:        position{line: 2922, col: 10, offset: 92410},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16822,28 +16822,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92537},
+																			pos: position{line: 2944, col: 8, offset: 92808},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92310},
+																					pos: position{line: 2931, col: 12, offset: 92581},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92311},
+																						pos: position{line: 2931, col: 13, offset: 92582},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92311},
+																								pos:        position{line: 2931, col: 13, offset: 92582},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92318},
+																								pos:        position{line: 2931, col: 20, offset: 92589},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92327},
+																								pos:        position{line: 2931, col: 29, offset: 92598},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16852,9 +16852,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
@@ -16863,9 +16863,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92487},
+																pos: position{line: 2941, col: 8, offset: 92758},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92488,
+																	line: 2941, col: 9, offset: 92759,
 																},
 															},
 														},
@@ -16878,49 +16878,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1114, col: 5, offset: 34316},
+							pos:   position{line: 1118, col: 5, offset: 34587},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1114, col: 12, offset: 34323},
+								pos:  position{line: 1118, col: 12, offset: 34594},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1115, col: 5, offset: 34342},
+							pos: position{line: 1119, col: 5, offset: 34613},
 							expr: &choiceExpr{
-								pos: position{line: 1115, col: 6, offset: 34343},
+								pos: position{line: 1119, col: 6, offset: 34614},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2521, col: 22, offset: 80917},
+										pos: position{line: 2525, col: 22, offset: 81188},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2521, col: 22, offset: 80917},
+											pos: position{line: 2525, col: 22, offset: 81188},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2526, col: 31, offset: 81167},
+													pos:        position{line: 2530, col: 31, offset: 81438},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2526, col: 36, offset: 81172},
+													pos: position{line: 2530, col: 36, offset: 81443},
 													expr: &litMatcher{
-														pos:        position{line: 2526, col: 37, offset: 81173},
+														pos:        position{line: 2530, col: 37, offset: 81444},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2521, col: 49, offset: 80944},
+													pos:   position{line: 2525, col: 49, offset: 81215},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 13, offset: 90665},
+														pos: position{line: 2868, col: 13, offset: 90936},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2864, col: 13, offset: 90665},
+															pos: position{line: 2868, col: 13, offset: 90936},
 															expr: &charClassMatcher{
-																pos:        position{line: 2864, col: 13, offset: 90665},
+																pos:        position{line: 2868, col: 13, offset: 90936},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16930,28 +16930,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2940, col: 8, offset: 92537},
+													pos: position{line: 2944, col: 8, offset: 92808},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92310},
+															pos: position{line: 2931, col: 12, offset: 92581},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92311},
+																pos: position{line: 2931, col: 13, offset: 92582},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92311},
+																		pos:        position{line: 2931, col: 13, offset: 92582},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92318},
+																		pos:        position{line: 2931, col: 20, offset: 92589},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92327},
+																		pos:        position{line: 2931, col: 29, offset: 92598},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16960,9 +16960,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2937, col: 8, offset: 92487},
+															pos: position{line: 2941, col: 8, offset: 92758},
 															expr: &anyMatcher{
-																line: 2937, col: 9, offset: 92488,
+																line: 2941, col: 9, offset: 92759,
 															},
 														},
 													},
@@ -16971,36 +16971,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 829, col: 5, offset: 26736},
+										pos: position{line: 833, col: 5, offset: 27007},
 										run: (*parser).callonDocumentHeader132,
 										expr: &seqExpr{
-											pos: position{line: 829, col: 5, offset: 26736},
+											pos: position{line: 833, col: 5, offset: 27007},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 749, col: 5, offset: 23996},
+													pos: position{line: 753, col: 5, offset: 24267},
 													run: (*parser).callonDocumentHeader134,
 													expr: &seqExpr{
-														pos: position{line: 749, col: 5, offset: 23996},
+														pos: position{line: 753, col: 5, offset: 24267},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 749, col: 5, offset: 23996},
+																pos:   position{line: 753, col: 5, offset: 24267},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 749, col: 16, offset: 24007},
+																	pos: position{line: 753, col: 16, offset: 24278},
 																	run: (*parser).callonDocumentHeader137,
 																	expr: &seqExpr{
-																		pos: position{line: 749, col: 16, offset: 24007},
+																		pos: position{line: 753, col: 16, offset: 24278},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 749, col: 16, offset: 24007},
+																				pos:        position{line: 753, col: 16, offset: 24278},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 749, col: 23, offset: 24014},
+																				pos: position{line: 753, col: 23, offset: 24285},
 																				expr: &litMatcher{
-																					pos:        position{line: 749, col: 23, offset: 24014},
+																					pos:        position{line: 753, col: 23, offset: 24285},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -17011,12 +17011,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 751, col: 8, offset: 24098},
+																pos: position{line: 755, col: 8, offset: 24369},
 																expr: &actionExpr{
-																	pos: position{line: 2918, col: 10, offset: 92139},
+																	pos: position{line: 2922, col: 10, offset: 92410},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2918, col: 10, offset: 92139},
+																		pos:        position{line: 2922, col: 10, offset: 92410},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17025,28 +17025,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2940, col: 8, offset: 92537},
+																pos: position{line: 2944, col: 8, offset: 92808},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2927, col: 12, offset: 92310},
+																		pos: position{line: 2931, col: 12, offset: 92581},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2927, col: 13, offset: 92311},
+																			pos: position{line: 2931, col: 13, offset: 92582},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 13, offset: 92311},
+																					pos:        position{line: 2931, col: 13, offset: 92582},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 20, offset: 92318},
+																					pos:        position{line: 2931, col: 20, offset: 92589},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 29, offset: 92327},
+																					pos:        position{line: 2931, col: 29, offset: 92598},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17055,9 +17055,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92487},
+																		pos: position{line: 2941, col: 8, offset: 92758},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92488,
+																			line: 2941, col: 9, offset: 92759,
 																		},
 																	},
 																},
@@ -17066,46 +17066,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 830, col: 5, offset: 26767},
+													pos:   position{line: 834, col: 5, offset: 27038},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 840, col: 5, offset: 27053},
+														pos: position{line: 844, col: 5, offset: 27324},
 														expr: &actionExpr{
-															pos: position{line: 840, col: 6, offset: 27054},
+															pos: position{line: 844, col: 6, offset: 27325},
 															run: (*parser).callonDocumentHeader155,
 															expr: &seqExpr{
-																pos: position{line: 840, col: 6, offset: 27054},
+																pos: position{line: 844, col: 6, offset: 27325},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 840, col: 6, offset: 27054},
+																		pos: position{line: 844, col: 6, offset: 27325},
 																		expr: &choiceExpr{
-																			pos: position{line: 837, col: 29, offset: 26996},
+																			pos: position{line: 841, col: 29, offset: 27267},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 749, col: 5, offset: 23996},
+																					pos: position{line: 753, col: 5, offset: 24267},
 																					run: (*parser).callonDocumentHeader159,
 																					expr: &seqExpr{
-																						pos: position{line: 749, col: 5, offset: 23996},
+																						pos: position{line: 753, col: 5, offset: 24267},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 749, col: 5, offset: 23996},
+																								pos:   position{line: 753, col: 5, offset: 24267},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 749, col: 16, offset: 24007},
+																									pos: position{line: 753, col: 16, offset: 24278},
 																									run: (*parser).callonDocumentHeader162,
 																									expr: &seqExpr{
-																										pos: position{line: 749, col: 16, offset: 24007},
+																										pos: position{line: 753, col: 16, offset: 24278},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 749, col: 16, offset: 24007},
+																												pos:        position{line: 753, col: 16, offset: 24278},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 749, col: 23, offset: 24014},
+																												pos: position{line: 753, col: 23, offset: 24285},
 																												expr: &litMatcher{
-																													pos:        position{line: 749, col: 23, offset: 24014},
+																													pos:        position{line: 753, col: 23, offset: 24285},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -17116,12 +17116,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 751, col: 8, offset: 24098},
+																								pos: position{line: 755, col: 8, offset: 24369},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92139},
+																									pos: position{line: 2922, col: 10, offset: 92410},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92139},
+																										pos:        position{line: 2922, col: 10, offset: 92410},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17130,28 +17130,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92537},
+																								pos: position{line: 2944, col: 8, offset: 92808},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92310},
+																										pos: position{line: 2931, col: 12, offset: 92581},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92311},
+																											pos: position{line: 2931, col: 13, offset: 92582},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92311},
+																													pos:        position{line: 2931, col: 13, offset: 92582},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92318},
+																													pos:        position{line: 2931, col: 20, offset: 92589},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92327},
+																													pos:        position{line: 2931, col: 29, offset: 92598},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17160,9 +17160,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92487},
+																										pos: position{line: 2941, col: 8, offset: 92758},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92488,
+																											line: 2941, col: 9, offset: 92759,
 																										},
 																									},
 																								},
@@ -17171,39 +17171,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 841, col: 5, offset: 27084},
+																		pos:   position{line: 845, col: 5, offset: 27355},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 820, col: 5, offset: 26500},
+																			pos: position{line: 824, col: 5, offset: 26771},
 																			run: (*parser).callonDocumentHeader181,
 																			expr: &seqExpr{
-																				pos: position{line: 820, col: 5, offset: 26500},
+																				pos: position{line: 824, col: 5, offset: 26771},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2935, col: 11, offset: 92473},
+																						pos: position{line: 2939, col: 11, offset: 92744},
 																						expr: &anyMatcher{
-																							line: 2935, col: 13, offset: 92475,
+																							line: 2939, col: 13, offset: 92746,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 821, col: 5, offset: 26575},
+																						pos:   position{line: 825, col: 5, offset: 26846},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 13, offset: 90665},
+																							pos: position{line: 2868, col: 13, offset: 90936},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2864, col: 13, offset: 90665},
+																								pos: position{line: 2868, col: 13, offset: 90936},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 13, offset: 90665},
+																									pos:        position{line: 2868, col: 13, offset: 90936},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17213,28 +17213,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92537},
+																						pos: position{line: 2944, col: 8, offset: 92808},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92310},
+																								pos: position{line: 2931, col: 12, offset: 92581},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92311},
+																									pos: position{line: 2931, col: 13, offset: 92582},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92311},
+																											pos:        position{line: 2931, col: 13, offset: 92582},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92318},
+																											pos:        position{line: 2931, col: 20, offset: 92589},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92327},
+																											pos:        position{line: 2931, col: 29, offset: 92598},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17243,9 +17243,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92487},
+																								pos: position{line: 2941, col: 8, offset: 92758},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92488,
+																									line: 2941, col: 9, offset: 92759,
 																								},
 																							},
 																						},
@@ -17260,35 +17260,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 831, col: 5, offset: 26801},
+													pos: position{line: 835, col: 5, offset: 27072},
 													expr: &choiceExpr{
-														pos: position{line: 837, col: 29, offset: 26996},
+														pos: position{line: 841, col: 29, offset: 27267},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 749, col: 5, offset: 23996},
+																pos: position{line: 753, col: 5, offset: 24267},
 																run: (*parser).callonDocumentHeader199,
 																expr: &seqExpr{
-																	pos: position{line: 749, col: 5, offset: 23996},
+																	pos: position{line: 753, col: 5, offset: 24267},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 749, col: 5, offset: 23996},
+																			pos:   position{line: 753, col: 5, offset: 24267},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 749, col: 16, offset: 24007},
+																				pos: position{line: 753, col: 16, offset: 24278},
 																				run: (*parser).callonDocumentHeader202,
 																				expr: &seqExpr{
-																					pos: position{line: 749, col: 16, offset: 24007},
+																					pos: position{line: 753, col: 16, offset: 24278},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 749, col: 16, offset: 24007},
+																							pos:        position{line: 753, col: 16, offset: 24278},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 749, col: 23, offset: 24014},
+																							pos: position{line: 753, col: 23, offset: 24285},
 																							expr: &litMatcher{
-																								pos:        position{line: 749, col: 23, offset: 24014},
+																								pos:        position{line: 753, col: 23, offset: 24285},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -17299,12 +17299,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 751, col: 8, offset: 24098},
+																			pos: position{line: 755, col: 8, offset: 24369},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92139},
+																				pos: position{line: 2922, col: 10, offset: 92410},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92139},
+																					pos:        position{line: 2922, col: 10, offset: 92410},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -17313,28 +17313,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92537},
+																			pos: position{line: 2944, col: 8, offset: 92808},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92310},
+																					pos: position{line: 2931, col: 12, offset: 92581},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92311},
+																						pos: position{line: 2931, col: 13, offset: 92582},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92311},
+																								pos:        position{line: 2931, col: 13, offset: 92582},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92318},
+																								pos:        position{line: 2931, col: 20, offset: 92589},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92327},
+																								pos:        position{line: 2931, col: 29, offset: 92598},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -17343,9 +17343,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
@@ -17354,9 +17354,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92487},
+																pos: position{line: 2941, col: 8, offset: 92758},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92488,
+																	line: 2941, col: 9, offset: 92759,
 																},
 															},
 														},
@@ -17369,41 +17369,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1116, col: 5, offset: 34439},
+							pos:   position{line: 1120, col: 5, offset: 34710},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1116, col: 24, offset: 34458},
+								pos: position{line: 1120, col: 24, offset: 34729},
 								expr: &actionExpr{
-									pos: position{line: 1127, col: 5, offset: 34833},
+									pos: position{line: 1131, col: 5, offset: 35104},
 									run: (*parser).callonDocumentHeader222,
 									expr: &seqExpr{
-										pos: position{line: 1127, col: 5, offset: 34833},
+										pos: position{line: 1131, col: 5, offset: 35104},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1127, col: 5, offset: 34833},
+												pos: position{line: 1131, col: 5, offset: 35104},
 												expr: &litMatcher{
-													pos:        position{line: 1127, col: 6, offset: 34834},
+													pos:        position{line: 1131, col: 6, offset: 35105},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1128, col: 5, offset: 34842},
+												pos:   position{line: 1132, col: 5, offset: 35113},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1134, col: 20, offset: 35098},
+													pos: position{line: 1138, col: 20, offset: 35369},
 													run: (*parser).callonDocumentHeader227,
 													expr: &seqExpr{
-														pos: position{line: 1134, col: 20, offset: 35098},
+														pos: position{line: 1138, col: 20, offset: 35369},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1134, col: 20, offset: 35098},
+																pos: position{line: 1138, col: 20, offset: 35369},
 																expr: &actionExpr{
-																	pos: position{line: 2918, col: 10, offset: 92139},
+																	pos: position{line: 2922, col: 10, offset: 92410},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2918, col: 10, offset: 92139},
+																		pos:        position{line: 2922, col: 10, offset: 92410},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17412,37 +17412,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1134, col: 27, offset: 35105},
+																pos:   position{line: 1138, col: 27, offset: 35376},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1134, col: 36, offset: 35114},
+																	pos: position{line: 1138, col: 36, offset: 35385},
 																	expr: &actionExpr{
-																		pos: position{line: 1139, col: 5, offset: 35227},
+																		pos: position{line: 1143, col: 5, offset: 35498},
 																		run: (*parser).callonDocumentHeader234,
 																		expr: &seqExpr{
-																			pos: position{line: 1139, col: 5, offset: 35227},
+																			pos: position{line: 1143, col: 5, offset: 35498},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1139, col: 5, offset: 35227},
+																					pos:   position{line: 1143, col: 5, offset: 35498},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1139, col: 14, offset: 35236},
+																						pos: position{line: 1143, col: 14, offset: 35507},
 																						expr: &actionExpr{
-																							pos: position{line: 1150, col: 5, offset: 35616},
+																							pos: position{line: 1154, col: 5, offset: 35887},
 																							run: (*parser).callonDocumentHeader238,
 																							expr: &seqExpr{
-																								pos: position{line: 1150, col: 5, offset: 35616},
+																								pos: position{line: 1154, col: 5, offset: 35887},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1150, col: 5, offset: 35616},
+																										pos:   position{line: 1154, col: 5, offset: 35887},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1150, col: 12, offset: 35623},
+																											pos: position{line: 1154, col: 12, offset: 35894},
 																											run: (*parser).callonDocumentHeader241,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1150, col: 12, offset: 35623},
+																												pos: position{line: 1154, col: 12, offset: 35894},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1150, col: 12, offset: 35623},
+																													pos:        position{line: 1154, col: 12, offset: 35894},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -17452,12 +17452,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1153, col: 5, offset: 35703},
+																										pos: position{line: 1157, col: 5, offset: 35974},
 																										expr: &actionExpr{
-																											pos: position{line: 2918, col: 10, offset: 92139},
+																											pos: position{line: 2922, col: 10, offset: 92410},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2918, col: 10, offset: 92139},
+																												pos:        position{line: 2922, col: 10, offset: 92410},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17466,17 +17466,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1154, col: 5, offset: 35714},
+																										pos:   position{line: 1158, col: 5, offset: 35985},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1154, col: 11, offset: 35720},
+																											pos: position{line: 1158, col: 11, offset: 35991},
 																											expr: &actionExpr{
-																												pos: position{line: 1154, col: 12, offset: 35721},
+																												pos: position{line: 1158, col: 12, offset: 35992},
 																												run: (*parser).callonDocumentHeader249,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1154, col: 12, offset: 35721},
+																													pos: position{line: 1158, col: 12, offset: 35992},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1154, col: 12, offset: 35721},
+																														pos:        position{line: 1158, col: 12, offset: 35992},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -17487,12 +17487,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1157, col: 5, offset: 35802},
+																										pos: position{line: 1161, col: 5, offset: 36073},
 																										expr: &actionExpr{
-																											pos: position{line: 2918, col: 10, offset: 92139},
+																											pos: position{line: 2922, col: 10, offset: 92410},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2918, col: 10, offset: 92139},
+																												pos:        position{line: 2922, col: 10, offset: 92410},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17501,17 +17501,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1158, col: 5, offset: 35813},
+																										pos:   position{line: 1162, col: 5, offset: 36084},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1158, col: 11, offset: 35819},
+																											pos: position{line: 1162, col: 11, offset: 36090},
 																											expr: &actionExpr{
-																												pos: position{line: 1158, col: 12, offset: 35820},
+																												pos: position{line: 1162, col: 12, offset: 36091},
 																												run: (*parser).callonDocumentHeader257,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1158, col: 12, offset: 35820},
+																													pos: position{line: 1162, col: 12, offset: 36091},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1158, col: 12, offset: 35820},
+																														pos:        position{line: 1162, col: 12, offset: 36091},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -17522,12 +17522,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1161, col: 5, offset: 35899},
+																										pos: position{line: 1165, col: 5, offset: 36170},
 																										expr: &actionExpr{
-																											pos: position{line: 2918, col: 10, offset: 92139},
+																											pos: position{line: 2922, col: 10, offset: 92410},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2918, col: 10, offset: 92139},
+																												pos:        position{line: 2922, col: 10, offset: 92410},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17541,38 +17541,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1139, col: 40, offset: 35262},
+																					pos:   position{line: 1143, col: 40, offset: 35533},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1139, col: 46, offset: 35268},
+																						pos: position{line: 1143, col: 46, offset: 35539},
 																						expr: &actionExpr{
-																							pos: position{line: 1167, col: 5, offset: 36021},
+																							pos: position{line: 1171, col: 5, offset: 36292},
 																							run: (*parser).callonDocumentHeader265,
 																							expr: &seqExpr{
-																								pos: position{line: 1167, col: 5, offset: 36021},
+																								pos: position{line: 1171, col: 5, offset: 36292},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2935, col: 11, offset: 92473},
+																										pos: position{line: 2939, col: 11, offset: 92744},
 																										expr: &anyMatcher{
-																											line: 2935, col: 13, offset: 92475,
+																											line: 2939, col: 13, offset: 92746,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1168, col: 5, offset: 36033},
+																										pos:        position{line: 1172, col: 5, offset: 36304},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1169, col: 5, offset: 36042},
+																										pos:   position{line: 1173, col: 5, offset: 36313},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1169, col: 12, offset: 36049},
+																											pos: position{line: 1173, col: 12, offset: 36320},
 																											run: (*parser).callonDocumentHeader271,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1169, col: 13, offset: 36050},
+																												pos: position{line: 1173, col: 13, offset: 36321},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1169, col: 13, offset: 36050},
+																													pos:        position{line: 1173, col: 13, offset: 36321},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -17582,7 +17582,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1172, col: 5, offset: 36110},
+																										pos:        position{line: 1176, col: 5, offset: 36381},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -17593,12 +17593,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1139, col: 69, offset: 35291},
+																					pos: position{line: 1143, col: 69, offset: 35562},
 																					expr: &actionExpr{
-																						pos: position{line: 2918, col: 10, offset: 92139},
+																						pos: position{line: 2922, col: 10, offset: 92410},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2918, col: 10, offset: 92139},
+																							pos:        position{line: 2922, col: 10, offset: 92410},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17607,21 +17607,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1139, col: 76, offset: 35298},
+																					pos: position{line: 1143, col: 76, offset: 35569},
 																					expr: &litMatcher{
-																						pos:        position{line: 1139, col: 76, offset: 35298},
+																						pos:        position{line: 1143, col: 76, offset: 35569},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1139, col: 81, offset: 35303},
+																					pos: position{line: 1143, col: 81, offset: 35574},
 																					expr: &actionExpr{
-																						pos: position{line: 2918, col: 10, offset: 92139},
+																						pos: position{line: 2922, col: 10, offset: 92410},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2918, col: 10, offset: 92139},
+																							pos:        position{line: 2922, col: 10, offset: 92410},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17630,7 +17630,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1140, col: 5, offset: 35315},
+																					pos: position{line: 1144, col: 5, offset: 35586},
 																					run: (*parser).callonDocumentHeader283,
 																				},
 																			},
@@ -17639,28 +17639,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2940, col: 8, offset: 92537},
+																pos: position{line: 2944, col: 8, offset: 92808},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2927, col: 12, offset: 92310},
+																		pos: position{line: 2931, col: 12, offset: 92581},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2927, col: 13, offset: 92311},
+																			pos: position{line: 2931, col: 13, offset: 92582},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 13, offset: 92311},
+																					pos:        position{line: 2931, col: 13, offset: 92582},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 20, offset: 92318},
+																					pos:        position{line: 2931, col: 20, offset: 92589},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 29, offset: 92327},
+																					pos:        position{line: 2931, col: 29, offset: 92598},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17669,9 +17669,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92487},
+																		pos: position{line: 2941, col: 8, offset: 92758},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92488,
+																			line: 2941, col: 9, offset: 92759,
 																		},
 																	},
 																},
@@ -17681,41 +17681,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1129, col: 5, offset: 34872},
+												pos: position{line: 1133, col: 5, offset: 35143},
 												expr: &choiceExpr{
-													pos: position{line: 1129, col: 6, offset: 34873},
+													pos: position{line: 1133, col: 6, offset: 35144},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2521, col: 22, offset: 80917},
+															pos: position{line: 2525, col: 22, offset: 81188},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2521, col: 22, offset: 80917},
+																pos: position{line: 2525, col: 22, offset: 81188},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2526, col: 31, offset: 81167},
+																		pos:        position{line: 2530, col: 31, offset: 81438},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2526, col: 36, offset: 81172},
+																		pos: position{line: 2530, col: 36, offset: 81443},
 																		expr: &litMatcher{
-																			pos:        position{line: 2526, col: 37, offset: 81173},
+																			pos:        position{line: 2530, col: 37, offset: 81444},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2521, col: 49, offset: 80944},
+																		pos:   position{line: 2525, col: 49, offset: 81215},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 13, offset: 90665},
+																			pos: position{line: 2868, col: 13, offset: 90936},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2864, col: 13, offset: 90665},
+																				pos: position{line: 2868, col: 13, offset: 90936},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 13, offset: 90665},
+																					pos:        position{line: 2868, col: 13, offset: 90936},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17725,28 +17725,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92537},
+																		pos: position{line: 2944, col: 8, offset: 92808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17755,9 +17755,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92487},
+																				pos: position{line: 2941, col: 8, offset: 92758},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92488,
+																					line: 2941, col: 9, offset: 92759,
 																				},
 																			},
 																		},
@@ -17766,36 +17766,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 829, col: 5, offset: 26736},
+															pos: position{line: 833, col: 5, offset: 27007},
 															run: (*parser).callonDocumentHeader311,
 															expr: &seqExpr{
-																pos: position{line: 829, col: 5, offset: 26736},
+																pos: position{line: 833, col: 5, offset: 27007},
 																exprs: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 749, col: 5, offset: 23996},
+																		pos: position{line: 753, col: 5, offset: 24267},
 																		run: (*parser).callonDocumentHeader313,
 																		expr: &seqExpr{
-																			pos: position{line: 749, col: 5, offset: 23996},
+																			pos: position{line: 753, col: 5, offset: 24267},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 749, col: 5, offset: 23996},
+																					pos:   position{line: 753, col: 5, offset: 24267},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 749, col: 16, offset: 24007},
+																						pos: position{line: 753, col: 16, offset: 24278},
 																						run: (*parser).callonDocumentHeader316,
 																						expr: &seqExpr{
-																							pos: position{line: 749, col: 16, offset: 24007},
+																							pos: position{line: 753, col: 16, offset: 24278},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 749, col: 16, offset: 24007},
+																									pos:        position{line: 753, col: 16, offset: 24278},
 																									val:        "////",
 																									ignoreCase: false,
 																									want:       "\"////\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 749, col: 23, offset: 24014},
+																									pos: position{line: 753, col: 23, offset: 24285},
 																									expr: &litMatcher{
-																										pos:        position{line: 749, col: 23, offset: 24014},
+																										pos:        position{line: 753, col: 23, offset: 24285},
 																										val:        "/",
 																										ignoreCase: false,
 																										want:       "\"/\"",
@@ -17806,12 +17806,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 751, col: 8, offset: 24098},
+																					pos: position{line: 755, col: 8, offset: 24369},
 																					expr: &actionExpr{
-																						pos: position{line: 2918, col: 10, offset: 92139},
+																						pos: position{line: 2922, col: 10, offset: 92410},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2918, col: 10, offset: 92139},
+																							pos:        position{line: 2922, col: 10, offset: 92410},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17820,28 +17820,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2940, col: 8, offset: 92537},
+																					pos: position{line: 2944, col: 8, offset: 92808},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2927, col: 12, offset: 92310},
+																							pos: position{line: 2931, col: 12, offset: 92581},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2927, col: 13, offset: 92311},
+																								pos: position{line: 2931, col: 13, offset: 92582},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 13, offset: 92311},
+																										pos:        position{line: 2931, col: 13, offset: 92582},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 20, offset: 92318},
+																										pos:        position{line: 2931, col: 20, offset: 92589},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 29, offset: 92327},
+																										pos:        position{line: 2931, col: 29, offset: 92598},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17850,9 +17850,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2937, col: 8, offset: 92487},
+																							pos: position{line: 2941, col: 8, offset: 92758},
 																							expr: &anyMatcher{
-																								line: 2937, col: 9, offset: 92488,
+																								line: 2941, col: 9, offset: 92759,
 																							},
 																						},
 																					},
@@ -17861,46 +17861,46 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 830, col: 5, offset: 26767},
+																		pos:   position{line: 834, col: 5, offset: 27038},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 840, col: 5, offset: 27053},
+																			pos: position{line: 844, col: 5, offset: 27324},
 																			expr: &actionExpr{
-																				pos: position{line: 840, col: 6, offset: 27054},
+																				pos: position{line: 844, col: 6, offset: 27325},
 																				run: (*parser).callonDocumentHeader334,
 																				expr: &seqExpr{
-																					pos: position{line: 840, col: 6, offset: 27054},
+																					pos: position{line: 844, col: 6, offset: 27325},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 840, col: 6, offset: 27054},
+																							pos: position{line: 844, col: 6, offset: 27325},
 																							expr: &choiceExpr{
-																								pos: position{line: 837, col: 29, offset: 26996},
+																								pos: position{line: 841, col: 29, offset: 27267},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 749, col: 5, offset: 23996},
+																										pos: position{line: 753, col: 5, offset: 24267},
 																										run: (*parser).callonDocumentHeader338,
 																										expr: &seqExpr{
-																											pos: position{line: 749, col: 5, offset: 23996},
+																											pos: position{line: 753, col: 5, offset: 24267},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 749, col: 5, offset: 23996},
+																													pos:   position{line: 753, col: 5, offset: 24267},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 749, col: 16, offset: 24007},
+																														pos: position{line: 753, col: 16, offset: 24278},
 																														run: (*parser).callonDocumentHeader341,
 																														expr: &seqExpr{
-																															pos: position{line: 749, col: 16, offset: 24007},
+																															pos: position{line: 753, col: 16, offset: 24278},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 749, col: 16, offset: 24007},
+																																	pos:        position{line: 753, col: 16, offset: 24278},
 																																	val:        "////",
 																																	ignoreCase: false,
 																																	want:       "\"////\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 749, col: 23, offset: 24014},
+																																	pos: position{line: 753, col: 23, offset: 24285},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 749, col: 23, offset: 24014},
+																																		pos:        position{line: 753, col: 23, offset: 24285},
 																																		val:        "/",
 																																		ignoreCase: false,
 																																		want:       "\"/\"",
@@ -17911,12 +17911,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 751, col: 8, offset: 24098},
+																													pos: position{line: 755, col: 8, offset: 24369},
 																													expr: &actionExpr{
-																														pos: position{line: 2918, col: 10, offset: 92139},
+																														pos: position{line: 2922, col: 10, offset: 92410},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2918, col: 10, offset: 92139},
+																															pos:        position{line: 2922, col: 10, offset: 92410},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17925,28 +17925,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2940, col: 8, offset: 92537},
+																													pos: position{line: 2944, col: 8, offset: 92808},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2927, col: 12, offset: 92310},
+																															pos: position{line: 2931, col: 12, offset: 92581},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2927, col: 13, offset: 92311},
+																																pos: position{line: 2931, col: 13, offset: 92582},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 13, offset: 92311},
+																																		pos:        position{line: 2931, col: 13, offset: 92582},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 20, offset: 92318},
+																																		pos:        position{line: 2931, col: 20, offset: 92589},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 29, offset: 92327},
+																																		pos:        position{line: 2931, col: 29, offset: 92598},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17955,9 +17955,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2937, col: 8, offset: 92487},
+																															pos: position{line: 2941, col: 8, offset: 92758},
 																															expr: &anyMatcher{
-																																line: 2937, col: 9, offset: 92488,
+																																line: 2941, col: 9, offset: 92759,
 																															},
 																														},
 																													},
@@ -17966,39 +17966,39 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92487},
+																										pos: position{line: 2941, col: 8, offset: 92758},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92488,
+																											line: 2941, col: 9, offset: 92759,
 																										},
 																									},
 																								},
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 841, col: 5, offset: 27084},
+																							pos:   position{line: 845, col: 5, offset: 27355},
 																							label: "line",
 																							expr: &actionExpr{
-																								pos: position{line: 820, col: 5, offset: 26500},
+																								pos: position{line: 824, col: 5, offset: 26771},
 																								run: (*parser).callonDocumentHeader360,
 																								expr: &seqExpr{
-																									pos: position{line: 820, col: 5, offset: 26500},
+																									pos: position{line: 824, col: 5, offset: 26771},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2935, col: 11, offset: 92473},
+																											pos: position{line: 2939, col: 11, offset: 92744},
 																											expr: &anyMatcher{
-																												line: 2935, col: 13, offset: 92475,
+																												line: 2939, col: 13, offset: 92746,
 																											},
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 821, col: 5, offset: 26575},
+																											pos:   position{line: 825, col: 5, offset: 26846},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 13, offset: 90665},
+																												pos: position{line: 2868, col: 13, offset: 90936},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2864, col: 13, offset: 90665},
+																													pos: position{line: 2868, col: 13, offset: 90936},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2864, col: 13, offset: 90665},
+																														pos:        position{line: 2868, col: 13, offset: 90936},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18008,28 +18008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92537},
+																											pos: position{line: 2944, col: 8, offset: 92808},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92310},
+																													pos: position{line: 2931, col: 12, offset: 92581},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92311},
+																														pos: position{line: 2931, col: 13, offset: 92582},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92311},
+																																pos:        position{line: 2931, col: 13, offset: 92582},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92318},
+																																pos:        position{line: 2931, col: 20, offset: 92589},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92327},
+																																pos:        position{line: 2931, col: 29, offset: 92598},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18038,9 +18038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92487},
+																													pos: position{line: 2941, col: 8, offset: 92758},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92488,
+																														line: 2941, col: 9, offset: 92759,
 																													},
 																												},
 																											},
@@ -18055,35 +18055,35 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrOneExpr{
-																		pos: position{line: 831, col: 5, offset: 26801},
+																		pos: position{line: 835, col: 5, offset: 27072},
 																		expr: &choiceExpr{
-																			pos: position{line: 837, col: 29, offset: 26996},
+																			pos: position{line: 841, col: 29, offset: 27267},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 749, col: 5, offset: 23996},
+																					pos: position{line: 753, col: 5, offset: 24267},
 																					run: (*parser).callonDocumentHeader378,
 																					expr: &seqExpr{
-																						pos: position{line: 749, col: 5, offset: 23996},
+																						pos: position{line: 753, col: 5, offset: 24267},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 749, col: 5, offset: 23996},
+																								pos:   position{line: 753, col: 5, offset: 24267},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 749, col: 16, offset: 24007},
+																									pos: position{line: 753, col: 16, offset: 24278},
 																									run: (*parser).callonDocumentHeader381,
 																									expr: &seqExpr{
-																										pos: position{line: 749, col: 16, offset: 24007},
+																										pos: position{line: 753, col: 16, offset: 24278},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 749, col: 16, offset: 24007},
+																												pos:        position{line: 753, col: 16, offset: 24278},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 749, col: 23, offset: 24014},
+																												pos: position{line: 753, col: 23, offset: 24285},
 																												expr: &litMatcher{
-																													pos:        position{line: 749, col: 23, offset: 24014},
+																													pos:        position{line: 753, col: 23, offset: 24285},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -18094,12 +18094,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 751, col: 8, offset: 24098},
+																								pos: position{line: 755, col: 8, offset: 24369},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92139},
+																									pos: position{line: 2922, col: 10, offset: 92410},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92139},
+																										pos:        position{line: 2922, col: 10, offset: 92410},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -18108,28 +18108,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92537},
+																								pos: position{line: 2944, col: 8, offset: 92808},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92310},
+																										pos: position{line: 2931, col: 12, offset: 92581},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92311},
+																											pos: position{line: 2931, col: 13, offset: 92582},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92311},
+																													pos:        position{line: 2931, col: 13, offset: 92582},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92318},
+																													pos:        position{line: 2931, col: 20, offset: 92589},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92327},
+																													pos:        position{line: 2931, col: 29, offset: 92598},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -18138,9 +18138,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92487},
+																										pos: position{line: 2941, col: 8, offset: 92758},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92488,
+																											line: 2941, col: 9, offset: 92759,
 																										},
 																									},
 																								},
@@ -18149,9 +18149,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
@@ -18164,23 +18164,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1130, col: 5, offset: 34947},
+												pos:   position{line: 1134, col: 5, offset: 35218},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1130, col: 14, offset: 34956},
+													pos: position{line: 1134, col: 14, offset: 35227},
 													expr: &actionExpr{
-														pos: position{line: 1178, col: 21, offset: 36299},
+														pos: position{line: 1182, col: 21, offset: 36570},
 														run: (*parser).callonDocumentHeader401,
 														expr: &seqExpr{
-															pos: position{line: 1178, col: 21, offset: 36299},
+															pos: position{line: 1182, col: 21, offset: 36570},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1178, col: 21, offset: 36299},
+																	pos: position{line: 1182, col: 21, offset: 36570},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92139},
+																		pos: position{line: 2922, col: 10, offset: 92410},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92139},
+																			pos:        position{line: 2922, col: 10, offset: 92410},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18189,55 +18189,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1178, col: 28, offset: 36306},
+																	pos: position{line: 1182, col: 28, offset: 36577},
 																	expr: &litMatcher{
-																		pos:        position{line: 1178, col: 29, offset: 36307},
+																		pos:        position{line: 1182, col: 29, offset: 36578},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1178, col: 33, offset: 36311},
+																	pos:   position{line: 1182, col: 33, offset: 36582},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1179, col: 9, offset: 36330},
+																		pos: position{line: 1183, col: 9, offset: 36601},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1179, col: 10, offset: 36331},
+																				pos: position{line: 1183, col: 10, offset: 36602},
 																				run: (*parser).callonDocumentHeader410,
 																				expr: &seqExpr{
-																					pos: position{line: 1179, col: 10, offset: 36331},
+																					pos: position{line: 1183, col: 10, offset: 36602},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1179, col: 10, offset: 36331},
+																							pos:   position{line: 1183, col: 10, offset: 36602},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1188, col: 27, offset: 36848},
+																								pos: position{line: 1192, col: 27, offset: 37119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1188, col: 27, offset: 36848},
+																										pos: position{line: 1192, col: 27, offset: 37119},
 																										run: (*parser).callonDocumentHeader414,
 																										expr: &seqExpr{
-																											pos: position{line: 1188, col: 27, offset: 36848},
+																											pos: position{line: 1192, col: 27, offset: 37119},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1188, col: 27, offset: 36848},
+																													pos:        position{line: 1192, col: 27, offset: 37119},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1188, col: 32, offset: 36853},
+																													pos:        position{line: 1192, col: 32, offset: 37124},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1188, col: 38, offset: 36859},
+																													pos: position{line: 1192, col: 38, offset: 37130},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1188, col: 38, offset: 36859},
+																														pos:        position{line: 1192, col: 38, offset: 37130},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18248,31 +18248,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1190, col: 5, offset: 36907},
+																										pos: position{line: 1194, col: 5, offset: 37178},
 																										run: (*parser).callonDocumentHeader420,
 																										expr: &seqExpr{
-																											pos: position{line: 1190, col: 5, offset: 36907},
+																											pos: position{line: 1194, col: 5, offset: 37178},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1190, col: 5, offset: 36907},
+																													pos: position{line: 1194, col: 5, offset: 37178},
 																													expr: &litMatcher{
-																														pos:        position{line: 1190, col: 5, offset: 36907},
+																														pos:        position{line: 1194, col: 5, offset: 37178},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1190, col: 11, offset: 36913},
+																													pos:        position{line: 1194, col: 11, offset: 37184},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1190, col: 17, offset: 36919},
+																													pos: position{line: 1194, col: 17, offset: 37190},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1190, col: 17, offset: 36919},
+																														pos:        position{line: 1194, col: 17, offset: 37190},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18280,12 +18280,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1190, col: 28, offset: 36930},
+																													pos: position{line: 1194, col: 28, offset: 37201},
 																													expr: &actionExpr{
-																														pos: position{line: 2918, col: 10, offset: 92139},
+																														pos: position{line: 2922, col: 10, offset: 92410},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2918, col: 10, offset: 92139},
+																															pos:        position{line: 2922, col: 10, offset: 92410},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18294,9 +18294,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1190, col: 35, offset: 36937},
+																													pos: position{line: 1194, col: 35, offset: 37208},
 																													expr: &litMatcher{
-																														pos:        position{line: 1190, col: 36, offset: 36938},
+																														pos:        position{line: 1194, col: 36, offset: 37209},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -18309,26 +18309,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1179, col: 45, offset: 36366},
+																							pos: position{line: 1183, col: 45, offset: 36637},
 																							expr: &litMatcher{
-																								pos:        position{line: 1179, col: 45, offset: 36366},
+																								pos:        position{line: 1183, col: 45, offset: 36637},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1179, col: 50, offset: 36371},
+																							pos:   position{line: 1183, col: 50, offset: 36642},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1179, col: 58, offset: 36379},
+																								pos: position{line: 1183, col: 58, offset: 36650},
 																								expr: &actionExpr{
-																									pos: position{line: 1194, col: 25, offset: 37002},
+																									pos: position{line: 1198, col: 25, offset: 37273},
 																									run: (*parser).callonDocumentHeader436,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1194, col: 25, offset: 37002},
+																										pos: position{line: 1198, col: 25, offset: 37273},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1194, col: 25, offset: 37002},
+																											pos:        position{line: 1198, col: 25, offset: 37273},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -18339,26 +18339,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1179, col: 82, offset: 36403},
+																							pos: position{line: 1183, col: 82, offset: 36674},
 																							expr: &litMatcher{
-																								pos:        position{line: 1179, col: 82, offset: 36403},
+																								pos:        position{line: 1183, col: 82, offset: 36674},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1179, col: 87, offset: 36408},
+																							pos:   position{line: 1183, col: 87, offset: 36679},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1179, col: 97, offset: 36418},
+																								pos: position{line: 1183, col: 97, offset: 36689},
 																								expr: &actionExpr{
-																									pos: position{line: 1198, col: 27, offset: 37074},
+																									pos: position{line: 1202, col: 27, offset: 37345},
 																									run: (*parser).callonDocumentHeader443,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1198, col: 27, offset: 37074},
+																										pos: position{line: 1202, col: 27, offset: 37345},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1198, col: 27, offset: 37074},
+																											pos:        position{line: 1202, col: 27, offset: 37345},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18372,21 +18372,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1181, col: 15, offset: 36536},
+																				pos: position{line: 1185, col: 15, offset: 36807},
 																				run: (*parser).callonDocumentHeader446,
 																				expr: &seqExpr{
-																					pos: position{line: 1181, col: 15, offset: 36536},
+																					pos: position{line: 1185, col: 15, offset: 36807},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1181, col: 15, offset: 36536},
+																							pos:   position{line: 1185, col: 15, offset: 36807},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1194, col: 25, offset: 37002},
+																								pos: position{line: 1198, col: 25, offset: 37273},
 																								run: (*parser).callonDocumentHeader449,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1194, col: 25, offset: 37002},
+																									pos: position{line: 1198, col: 25, offset: 37273},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1194, col: 25, offset: 37002},
+																										pos:        position{line: 1198, col: 25, offset: 37273},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -18396,26 +18396,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1181, col: 46, offset: 36567},
+																							pos: position{line: 1185, col: 46, offset: 36838},
 																							expr: &litMatcher{
-																								pos:        position{line: 1181, col: 46, offset: 36567},
+																								pos:        position{line: 1185, col: 46, offset: 36838},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1181, col: 51, offset: 36572},
+																							pos:   position{line: 1185, col: 51, offset: 36843},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1181, col: 61, offset: 36582},
+																								pos: position{line: 1185, col: 61, offset: 36853},
 																								expr: &actionExpr{
-																									pos: position{line: 1198, col: 27, offset: 37074},
+																									pos: position{line: 1202, col: 27, offset: 37345},
 																									run: (*parser).callonDocumentHeader456,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1198, col: 27, offset: 37074},
+																										pos: position{line: 1202, col: 27, offset: 37345},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1198, col: 27, offset: 37074},
+																											pos:        position{line: 1202, col: 27, offset: 37345},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18432,28 +18432,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92537},
+																	pos: position{line: 2944, col: 8, offset: 92808},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92310},
+																			pos: position{line: 2931, col: 12, offset: 92581},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92311},
+																				pos: position{line: 2931, col: 13, offset: 92582},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92311},
+																						pos:        position{line: 2931, col: 13, offset: 92582},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92318},
+																						pos:        position{line: 2931, col: 20, offset: 92589},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92327},
+																						pos:        position{line: 2931, col: 29, offset: 92598},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18462,9 +18462,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92487},
+																			pos: position{line: 2941, col: 8, offset: 92758},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92488,
+																				line: 2941, col: 9, offset: 92759,
 																			},
 																		},
 																	},
@@ -18480,15 +18480,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1117, col: 5, offset: 34493},
+							pos:   position{line: 1121, col: 5, offset: 34764},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1117, col: 19, offset: 34507},
+								pos: position{line: 1121, col: 19, offset: 34778},
 								expr: &choiceExpr{
-									pos: position{line: 1117, col: 20, offset: 34508},
+									pos: position{line: 1121, col: 20, offset: 34779},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1117, col: 20, offset: 34508},
+											pos:  position{line: 1121, col: 20, offset: 34779},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
@@ -18544,10 +18544,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 49, offset: 11041},
 														expr: &actionExpr{
-															pos: position{line: 2918, col: 10, offset: 92139},
+															pos: position{line: 2922, col: 10, offset: 92410},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2918, col: 10, offset: 92139},
+																pos:        position{line: 2922, col: 10, offset: 92410},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18556,28 +18556,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2940, col: 8, offset: 92537},
+														pos: position{line: 2944, col: 8, offset: 92808},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92310},
+																pos: position{line: 2931, col: 12, offset: 92581},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2927, col: 13, offset: 92311},
+																	pos: position{line: 2931, col: 13, offset: 92582},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 13, offset: 92311},
+																			pos:        position{line: 2931, col: 13, offset: 92582},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 20, offset: 92318},
+																			pos:        position{line: 2931, col: 20, offset: 92589},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 29, offset: 92327},
+																			pos:        position{line: 2931, col: 29, offset: 92598},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18586,9 +18586,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92487},
+																pos: position{line: 2941, col: 8, offset: 92758},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92488,
+																	line: 2941, col: 9, offset: 92759,
 																},
 															},
 														},
@@ -18649,10 +18649,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 364, col: 39, offset: 11162},
 														expr: &actionExpr{
-															pos: position{line: 2918, col: 10, offset: 92139},
+															pos: position{line: 2922, col: 10, offset: 92410},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2918, col: 10, offset: 92139},
+																pos:        position{line: 2922, col: 10, offset: 92410},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18661,28 +18661,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2940, col: 8, offset: 92537},
+														pos: position{line: 2944, col: 8, offset: 92808},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92310},
+																pos: position{line: 2931, col: 12, offset: 92581},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2927, col: 13, offset: 92311},
+																	pos: position{line: 2931, col: 13, offset: 92582},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 13, offset: 92311},
+																			pos:        position{line: 2931, col: 13, offset: 92582},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 20, offset: 92318},
+																			pos:        position{line: 2931, col: 20, offset: 92589},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 29, offset: 92327},
+																			pos:        position{line: 2931, col: 29, offset: 92598},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18691,9 +18691,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92487},
+																pos: position{line: 2941, col: 8, offset: 92758},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92488,
+																	line: 2941, col: 9, offset: 92759,
 																},
 															},
 														},
@@ -18702,36 +18702,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2521, col: 22, offset: 80917},
+											pos: position{line: 2525, col: 22, offset: 81188},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2521, col: 22, offset: 80917},
+												pos: position{line: 2525, col: 22, offset: 81188},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2526, col: 31, offset: 81167},
+														pos:        position{line: 2530, col: 31, offset: 81438},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2526, col: 36, offset: 81172},
+														pos: position{line: 2530, col: 36, offset: 81443},
 														expr: &litMatcher{
-															pos:        position{line: 2526, col: 37, offset: 81173},
+															pos:        position{line: 2530, col: 37, offset: 81444},
 															val:        "/",
 															ignoreCase: false,
 															want:       "\"/\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2521, col: 49, offset: 80944},
+														pos:   position{line: 2525, col: 49, offset: 81215},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2864, col: 13, offset: 90665},
+															pos: position{line: 2868, col: 13, offset: 90936},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2864, col: 13, offset: 90665},
+																pos: position{line: 2868, col: 13, offset: 90936},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2864, col: 13, offset: 90665},
+																	pos:        position{line: 2868, col: 13, offset: 90936},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18741,28 +18741,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2940, col: 8, offset: 92537},
+														pos: position{line: 2944, col: 8, offset: 92808},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92310},
+																pos: position{line: 2931, col: 12, offset: 92581},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2927, col: 13, offset: 92311},
+																	pos: position{line: 2931, col: 13, offset: 92582},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 13, offset: 92311},
+																			pos:        position{line: 2931, col: 13, offset: 92582},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 20, offset: 92318},
+																			pos:        position{line: 2931, col: 20, offset: 92589},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 29, offset: 92327},
+																			pos:        position{line: 2931, col: 29, offset: 92598},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18771,9 +18771,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92487},
+																pos: position{line: 2941, col: 8, offset: 92758},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92488,
+																	line: 2941, col: 9, offset: 92759,
 																},
 															},
 														},
@@ -18782,36 +18782,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 829, col: 5, offset: 26736},
+											pos: position{line: 833, col: 5, offset: 27007},
 											run: (*parser).callonDocumentHeader530,
 											expr: &seqExpr{
-												pos: position{line: 829, col: 5, offset: 26736},
+												pos: position{line: 833, col: 5, offset: 27007},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 749, col: 5, offset: 23996},
+														pos: position{line: 753, col: 5, offset: 24267},
 														run: (*parser).callonDocumentHeader532,
 														expr: &seqExpr{
-															pos: position{line: 749, col: 5, offset: 23996},
+															pos: position{line: 753, col: 5, offset: 24267},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 749, col: 5, offset: 23996},
+																	pos:   position{line: 753, col: 5, offset: 24267},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 749, col: 16, offset: 24007},
+																		pos: position{line: 753, col: 16, offset: 24278},
 																		run: (*parser).callonDocumentHeader535,
 																		expr: &seqExpr{
-																			pos: position{line: 749, col: 16, offset: 24007},
+																			pos: position{line: 753, col: 16, offset: 24278},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 749, col: 16, offset: 24007},
+																					pos:        position{line: 753, col: 16, offset: 24278},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 749, col: 23, offset: 24014},
+																					pos: position{line: 753, col: 23, offset: 24285},
 																					expr: &litMatcher{
-																						pos:        position{line: 749, col: 23, offset: 24014},
+																						pos:        position{line: 753, col: 23, offset: 24285},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -18822,12 +18822,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 751, col: 8, offset: 24098},
+																	pos: position{line: 755, col: 8, offset: 24369},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92139},
+																		pos: position{line: 2922, col: 10, offset: 92410},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92139},
+																			pos:        position{line: 2922, col: 10, offset: 92410},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18836,28 +18836,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92537},
+																	pos: position{line: 2944, col: 8, offset: 92808},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92310},
+																			pos: position{line: 2931, col: 12, offset: 92581},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92311},
+																				pos: position{line: 2931, col: 13, offset: 92582},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92311},
+																						pos:        position{line: 2931, col: 13, offset: 92582},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92318},
+																						pos:        position{line: 2931, col: 20, offset: 92589},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92327},
+																						pos:        position{line: 2931, col: 29, offset: 92598},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18866,9 +18866,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92487},
+																			pos: position{line: 2941, col: 8, offset: 92758},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92488,
+																				line: 2941, col: 9, offset: 92759,
 																			},
 																		},
 																	},
@@ -18877,46 +18877,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 830, col: 5, offset: 26767},
+														pos:   position{line: 834, col: 5, offset: 27038},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 840, col: 5, offset: 27053},
+															pos: position{line: 844, col: 5, offset: 27324},
 															expr: &actionExpr{
-																pos: position{line: 840, col: 6, offset: 27054},
+																pos: position{line: 844, col: 6, offset: 27325},
 																run: (*parser).callonDocumentHeader553,
 																expr: &seqExpr{
-																	pos: position{line: 840, col: 6, offset: 27054},
+																	pos: position{line: 844, col: 6, offset: 27325},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 840, col: 6, offset: 27054},
+																			pos: position{line: 844, col: 6, offset: 27325},
 																			expr: &choiceExpr{
-																				pos: position{line: 837, col: 29, offset: 26996},
+																				pos: position{line: 841, col: 29, offset: 27267},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 749, col: 5, offset: 23996},
+																						pos: position{line: 753, col: 5, offset: 24267},
 																						run: (*parser).callonDocumentHeader557,
 																						expr: &seqExpr{
-																							pos: position{line: 749, col: 5, offset: 23996},
+																							pos: position{line: 753, col: 5, offset: 24267},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 749, col: 5, offset: 23996},
+																									pos:   position{line: 753, col: 5, offset: 24267},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 749, col: 16, offset: 24007},
+																										pos: position{line: 753, col: 16, offset: 24278},
 																										run: (*parser).callonDocumentHeader560,
 																										expr: &seqExpr{
-																											pos: position{line: 749, col: 16, offset: 24007},
+																											pos: position{line: 753, col: 16, offset: 24278},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 749, col: 16, offset: 24007},
+																													pos:        position{line: 753, col: 16, offset: 24278},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 749, col: 23, offset: 24014},
+																													pos: position{line: 753, col: 23, offset: 24285},
 																													expr: &litMatcher{
-																														pos:        position{line: 749, col: 23, offset: 24014},
+																														pos:        position{line: 753, col: 23, offset: 24285},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -18927,12 +18927,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 751, col: 8, offset: 24098},
+																									pos: position{line: 755, col: 8, offset: 24369},
 																									expr: &actionExpr{
-																										pos: position{line: 2918, col: 10, offset: 92139},
+																										pos: position{line: 2922, col: 10, offset: 92410},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2918, col: 10, offset: 92139},
+																											pos:        position{line: 2922, col: 10, offset: 92410},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18941,28 +18941,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92537},
+																									pos: position{line: 2944, col: 8, offset: 92808},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92310},
+																											pos: position{line: 2931, col: 12, offset: 92581},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92311},
+																												pos: position{line: 2931, col: 13, offset: 92582},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92311},
+																														pos:        position{line: 2931, col: 13, offset: 92582},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92318},
+																														pos:        position{line: 2931, col: 20, offset: 92589},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92327},
+																														pos:        position{line: 2931, col: 29, offset: 92598},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18971,9 +18971,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92487},
+																											pos: position{line: 2941, col: 8, offset: 92758},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92488,
+																												line: 2941, col: 9, offset: 92759,
 																											},
 																										},
 																									},
@@ -18982,39 +18982,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92487},
+																						pos: position{line: 2941, col: 8, offset: 92758},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92488,
+																							line: 2941, col: 9, offset: 92759,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 841, col: 5, offset: 27084},
+																			pos:   position{line: 845, col: 5, offset: 27355},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 820, col: 5, offset: 26500},
+																				pos: position{line: 824, col: 5, offset: 26771},
 																				run: (*parser).callonDocumentHeader579,
 																				expr: &seqExpr{
-																					pos: position{line: 820, col: 5, offset: 26500},
+																					pos: position{line: 824, col: 5, offset: 26771},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2935, col: 11, offset: 92473},
+																							pos: position{line: 2939, col: 11, offset: 92744},
 																							expr: &anyMatcher{
-																								line: 2935, col: 13, offset: 92475,
+																								line: 2939, col: 13, offset: 92746,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 821, col: 5, offset: 26575},
+																							pos:   position{line: 825, col: 5, offset: 26846},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 13, offset: 90665},
+																								pos: position{line: 2868, col: 13, offset: 90936},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2864, col: 13, offset: 90665},
+																									pos: position{line: 2868, col: 13, offset: 90936},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 13, offset: 90665},
+																										pos:        position{line: 2868, col: 13, offset: 90936},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19024,28 +19024,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19054,9 +19054,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -19071,35 +19071,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 831, col: 5, offset: 26801},
+														pos: position{line: 835, col: 5, offset: 27072},
 														expr: &choiceExpr{
-															pos: position{line: 837, col: 29, offset: 26996},
+															pos: position{line: 841, col: 29, offset: 27267},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 749, col: 5, offset: 23996},
+																	pos: position{line: 753, col: 5, offset: 24267},
 																	run: (*parser).callonDocumentHeader597,
 																	expr: &seqExpr{
-																		pos: position{line: 749, col: 5, offset: 23996},
+																		pos: position{line: 753, col: 5, offset: 24267},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 749, col: 5, offset: 23996},
+																				pos:   position{line: 753, col: 5, offset: 24267},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 749, col: 16, offset: 24007},
+																					pos: position{line: 753, col: 16, offset: 24278},
 																					run: (*parser).callonDocumentHeader600,
 																					expr: &seqExpr{
-																						pos: position{line: 749, col: 16, offset: 24007},
+																						pos: position{line: 753, col: 16, offset: 24278},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 749, col: 16, offset: 24007},
+																								pos:        position{line: 753, col: 16, offset: 24278},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 749, col: 23, offset: 24014},
+																								pos: position{line: 753, col: 23, offset: 24285},
 																								expr: &litMatcher{
-																									pos:        position{line: 749, col: 23, offset: 24014},
+																									pos:        position{line: 753, col: 23, offset: 24285},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -19110,12 +19110,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 751, col: 8, offset: 24098},
+																				pos: position{line: 755, col: 8, offset: 24369},
 																				expr: &actionExpr{
-																					pos: position{line: 2918, col: 10, offset: 92139},
+																					pos: position{line: 2922, col: 10, offset: 92410},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2918, col: 10, offset: 92139},
+																						pos:        position{line: 2922, col: 10, offset: 92410},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -19124,28 +19124,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2940, col: 8, offset: 92537},
+																				pos: position{line: 2944, col: 8, offset: 92808},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2927, col: 12, offset: 92310},
+																						pos: position{line: 2931, col: 12, offset: 92581},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2927, col: 13, offset: 92311},
+																							pos: position{line: 2931, col: 13, offset: 92582},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 13, offset: 92311},
+																									pos:        position{line: 2931, col: 13, offset: 92582},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 20, offset: 92318},
+																									pos:        position{line: 2931, col: 20, offset: 92589},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 29, offset: 92327},
+																									pos:        position{line: 2931, col: 29, offset: 92598},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -19154,9 +19154,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92487},
+																						pos: position{line: 2941, col: 8, offset: 92758},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92488,
+																							line: 2941, col: 9, offset: 92759,
 																						},
 																					},
 																				},
@@ -19165,9 +19165,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92487},
+																	pos: position{line: 2941, col: 8, offset: 92758},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92488,
+																		line: 2941, col: 9, offset: 92759,
 																	},
 																},
 															},
@@ -19186,26 +19186,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1121, col: 1, offset: 34705},
+			pos:  position{line: 1125, col: 1, offset: 34976},
 			expr: &actionExpr{
-				pos: position{line: 1122, col: 5, offset: 34727},
+				pos: position{line: 1126, col: 5, offset: 34998},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1122, col: 5, offset: 34727},
+					pos: position{line: 1126, col: 5, offset: 34998},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1122, col: 5, offset: 34727},
+							pos:        position{line: 1126, col: 5, offset: 34998},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2922, col: 11, offset: 92200},
+							pos: position{line: 2926, col: 11, offset: 92471},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2922, col: 11, offset: 92200},
+								pos: position{line: 2926, col: 11, offset: 92471},
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 11, offset: 92200},
+									pos:        position{line: 2926, col: 11, offset: 92471},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19214,36 +19214,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1122, col: 16, offset: 34738},
+							pos:   position{line: 1126, col: 16, offset: 35009},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1122, col: 23, offset: 34745},
+								pos:  position{line: 1126, col: 23, offset: 35016},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2940, col: 8, offset: 92537},
+							pos: position{line: 2944, col: 8, offset: 92808},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2927, col: 12, offset: 92310},
+									pos: position{line: 2931, col: 12, offset: 92581},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2927, col: 13, offset: 92311},
+										pos: position{line: 2931, col: 13, offset: 92582},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2927, col: 13, offset: 92311},
+												pos:        position{line: 2931, col: 13, offset: 92582},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 20, offset: 92318},
+												pos:        position{line: 2931, col: 20, offset: 92589},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 29, offset: 92327},
+												pos:        position{line: 2931, col: 29, offset: 92598},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19252,9 +19252,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2937, col: 8, offset: 92487},
+									pos: position{line: 2941, col: 8, offset: 92758},
 									expr: &anyMatcher{
-										line: 2937, col: 9, offset: 92488,
+										line: 2941, col: 9, offset: 92759,
 									},
 								},
 							},
@@ -19265,23 +19265,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1149, col: 1, offset: 35585},
+			pos:  position{line: 1153, col: 1, offset: 35856},
 			expr: &actionExpr{
-				pos: position{line: 1150, col: 5, offset: 35616},
+				pos: position{line: 1154, col: 5, offset: 35887},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1150, col: 5, offset: 35616},
+					pos: position{line: 1154, col: 5, offset: 35887},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1150, col: 5, offset: 35616},
+							pos:   position{line: 1154, col: 5, offset: 35887},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1150, col: 12, offset: 35623},
+								pos: position{line: 1154, col: 12, offset: 35894},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1150, col: 12, offset: 35623},
+									pos: position{line: 1154, col: 12, offset: 35894},
 									expr: &charClassMatcher{
-										pos:        position{line: 1150, col: 12, offset: 35623},
+										pos:        position{line: 1154, col: 12, offset: 35894},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -19291,12 +19291,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1153, col: 5, offset: 35703},
+							pos: position{line: 1157, col: 5, offset: 35974},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92139},
+								pos: position{line: 2922, col: 10, offset: 92410},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92139},
+									pos:        position{line: 2922, col: 10, offset: 92410},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19305,17 +19305,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1154, col: 5, offset: 35714},
+							pos:   position{line: 1158, col: 5, offset: 35985},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1154, col: 11, offset: 35720},
+								pos: position{line: 1158, col: 11, offset: 35991},
 								expr: &actionExpr{
-									pos: position{line: 1154, col: 12, offset: 35721},
+									pos: position{line: 1158, col: 12, offset: 35992},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1154, col: 12, offset: 35721},
+										pos: position{line: 1158, col: 12, offset: 35992},
 										expr: &charClassMatcher{
-											pos:        position{line: 1154, col: 12, offset: 35721},
+											pos:        position{line: 1158, col: 12, offset: 35992},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -19326,12 +19326,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1157, col: 5, offset: 35802},
+							pos: position{line: 1161, col: 5, offset: 36073},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92139},
+								pos: position{line: 2922, col: 10, offset: 92410},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92139},
+									pos:        position{line: 2922, col: 10, offset: 92410},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19340,17 +19340,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1158, col: 5, offset: 35813},
+							pos:   position{line: 1162, col: 5, offset: 36084},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1158, col: 11, offset: 35819},
+								pos: position{line: 1162, col: 11, offset: 36090},
 								expr: &actionExpr{
-									pos: position{line: 1158, col: 12, offset: 35820},
+									pos: position{line: 1162, col: 12, offset: 36091},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1158, col: 12, offset: 35820},
+										pos: position{line: 1162, col: 12, offset: 36091},
 										expr: &charClassMatcher{
-											pos:        position{line: 1158, col: 12, offset: 35820},
+											pos:        position{line: 1162, col: 12, offset: 36091},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -19361,12 +19361,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1161, col: 5, offset: 35899},
+							pos: position{line: 1165, col: 5, offset: 36170},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92139},
+								pos: position{line: 2922, col: 10, offset: 92410},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92139},
+									pos:        position{line: 2922, col: 10, offset: 92410},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19380,28 +19380,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1274, col: 1, offset: 39628},
+			pos:  position{line: 1278, col: 1, offset: 39899},
 			expr: &actionExpr{
-				pos: position{line: 1275, col: 5, offset: 39649},
+				pos: position{line: 1279, col: 5, offset: 39920},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1275, col: 5, offset: 39649},
+					pos: position{line: 1279, col: 5, offset: 39920},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1275, col: 5, offset: 39649},
+							pos: position{line: 1279, col: 5, offset: 39920},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1278, col: 5, offset: 39708},
+							pos:        position{line: 1282, col: 5, offset: 39979},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1278, col: 12, offset: 39715},
+							pos:   position{line: 1282, col: 12, offset: 39986},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1278, col: 24, offset: 39727},
+								pos:  position{line: 1282, col: 24, offset: 39998},
 								name: "InlineAttributes",
 							},
 						},
@@ -19411,33 +19411,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1285, col: 1, offset: 40015},
+			pos:  position{line: 1289, col: 1, offset: 40286},
 			expr: &actionExpr{
-				pos: position{line: 1286, col: 5, offset: 40034},
+				pos: position{line: 1290, col: 5, offset: 40305},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1286, col: 5, offset: 40034},
+					pos: position{line: 1290, col: 5, offset: 40305},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1286, col: 5, offset: 40034},
+							pos: position{line: 1290, col: 5, offset: 40305},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1289, col: 5, offset: 40093},
+							pos:        position{line: 1293, col: 5, offset: 40364},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1289, col: 13, offset: 40101},
+							pos:   position{line: 1293, col: 13, offset: 40372},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2903, col: 7, offset: 91791},
+								pos: position{line: 2907, col: 7, offset: 92062},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2903, col: 7, offset: 91791},
+									pos: position{line: 2907, col: 7, offset: 92062},
 									expr: &charClassMatcher{
-										pos:        position{line: 2903, col: 7, offset: 91791},
+										pos:        position{line: 2907, col: 7, offset: 92062},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19447,10 +19447,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1289, col: 21, offset: 40109},
+							pos:   position{line: 1293, col: 21, offset: 40380},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1289, col: 33, offset: 40121},
+								pos:  position{line: 1293, col: 33, offset: 40392},
 								name: "InlineAttributes",
 							},
 						},
@@ -19460,29 +19460,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1296, col: 1, offset: 40420},
+			pos:  position{line: 1300, col: 1, offset: 40691},
 			expr: &actionExpr{
-				pos: position{line: 1296, col: 14, offset: 40433},
+				pos: position{line: 1300, col: 14, offset: 40704},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1296, col: 14, offset: 40433},
+					pos: position{line: 1300, col: 14, offset: 40704},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1296, col: 14, offset: 40433},
+							pos:        position{line: 1300, col: 14, offset: 40704},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1296, col: 19, offset: 40438},
+							pos:   position{line: 1300, col: 19, offset: 40709},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1296, col: 25, offset: 40444},
+								pos:  position{line: 1300, col: 25, offset: 40715},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1296, col: 43, offset: 40462},
+							pos:        position{line: 1300, col: 43, offset: 40733},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19493,25 +19493,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1300, col: 1, offset: 40531},
+			pos:  position{line: 1304, col: 1, offset: 40802},
 			expr: &actionExpr{
-				pos: position{line: 1300, col: 21, offset: 40551},
+				pos: position{line: 1304, col: 21, offset: 40822},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1300, col: 21, offset: 40551},
+					pos:   position{line: 1304, col: 21, offset: 40822},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1300, col: 30, offset: 40560},
+						pos: position{line: 1304, col: 30, offset: 40831},
 						expr: &choiceExpr{
-							pos: position{line: 1300, col: 31, offset: 40561},
+							pos: position{line: 1304, col: 31, offset: 40832},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2812, col: 14, offset: 89308},
+									pos: position{line: 2816, col: 14, offset: 89579},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2812, col: 14, offset: 89308},
+										pos: position{line: 2816, col: 14, offset: 89579},
 										expr: &charClassMatcher{
-											pos:        position{line: 2812, col: 14, offset: 89308},
+											pos:        position{line: 2816, col: 14, offset: 89579},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19520,14 +19520,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1300, col: 43, offset: 40573},
+									pos:  position{line: 1304, col: 43, offset: 40844},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2918, col: 10, offset: 92139},
+									pos: position{line: 2922, col: 10, offset: 92410},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2918, col: 10, offset: 92139},
+										pos:        position{line: 2922, col: 10, offset: 92410},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19535,23 +19535,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2508, col: 5, offset: 80463},
+									pos: position{line: 2512, col: 5, offset: 80734},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2508, col: 5, offset: 80463},
+										pos: position{line: 2512, col: 5, offset: 80734},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2508, col: 5, offset: 80463},
+												pos: position{line: 2512, col: 5, offset: 80734},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2511, col: 5, offset: 80539},
+												pos:   position{line: 2515, col: 5, offset: 80810},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2512, col: 9, offset: 80557},
+													pos: position{line: 2516, col: 9, offset: 80828},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2512, col: 10, offset: 80558},
+														pos:        position{line: 2516, col: 10, offset: 80829},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19563,27 +19563,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1207, col: 23, offset: 37384},
+									pos: position{line: 1211, col: 23, offset: 37655},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1207, col: 23, offset: 37384},
+										pos: position{line: 1211, col: 23, offset: 37655},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1205, col: 32, offset: 37352},
+												pos:        position{line: 1209, col: 32, offset: 37623},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1207, col: 51, offset: 37412},
+												pos:   position{line: 1211, col: 51, offset: 37683},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1207, col: 56, offset: 37417},
+													pos: position{line: 1211, col: 56, offset: 37688},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1207, col: 56, offset: 37417},
+														pos: position{line: 1211, col: 56, offset: 37688},
 														expr: &charClassMatcher{
-															pos:        position{line: 1207, col: 56, offset: 37417},
+															pos:        position{line: 1211, col: 56, offset: 37688},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -19593,7 +19593,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1205, col: 32, offset: 37352},
+												pos:        position{line: 1209, col: 32, offset: 37623},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
@@ -19602,22 +19602,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1300, col: 104, offset: 40634},
+									pos: position{line: 1304, col: 104, offset: 40905},
 									run: (*parser).callonIndexTermContent25,
 									expr: &seqExpr{
-										pos: position{line: 1300, col: 105, offset: 40635},
+										pos: position{line: 1304, col: 105, offset: 40906},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1300, col: 105, offset: 40635},
+												pos: position{line: 1304, col: 105, offset: 40906},
 												expr: &litMatcher{
-													pos:        position{line: 1300, col: 106, offset: 40636},
+													pos:        position{line: 1304, col: 106, offset: 40907},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1300, col: 111, offset: 40641,
+												line: 1304, col: 111, offset: 40912,
 											},
 										},
 									},
@@ -19630,65 +19630,65 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1320, col: 1, offset: 41350},
+			pos:  position{line: 1324, col: 1, offset: 41621},
 			expr: &actionExpr{
-				pos: position{line: 1321, col: 5, offset: 41369},
+				pos: position{line: 1325, col: 5, offset: 41640},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1321, col: 5, offset: 41369},
+					pos: position{line: 1325, col: 5, offset: 41640},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1321, col: 5, offset: 41369},
+							pos:        position{line: 1325, col: 5, offset: 41640},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1321, col: 15, offset: 41379},
+							pos:   position{line: 1325, col: 15, offset: 41650},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 13, offset: 90898},
+								pos: position{line: 2880, col: 13, offset: 91169},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2876, col: 13, offset: 90898},
+									pos: position{line: 2880, col: 13, offset: 91169},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2876, col: 13, offset: 90898},
+											pos:   position{line: 2880, col: 13, offset: 91169},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2876, col: 20, offset: 90905},
+												pos: position{line: 2880, col: 20, offset: 91176},
 												expr: &actionExpr{
-													pos: position{line: 2884, col: 11, offset: 91144},
+													pos: position{line: 2888, col: 11, offset: 91415},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2884, col: 12, offset: 91145},
+														pos: position{line: 2888, col: 12, offset: 91416},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2884, col: 12, offset: 91145},
+																pos:        position{line: 2888, col: 12, offset: 91416},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2884, col: 24, offset: 91157},
+																pos:        position{line: 2888, col: 24, offset: 91428},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2884, col: 37, offset: 91170},
+																pos:        position{line: 2888, col: 37, offset: 91441},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2884, col: 48, offset: 91181},
+																pos:        position{line: 2888, col: 48, offset: 91452},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2884, col: 59, offset: 91192},
+																pos:        position{line: 2888, col: 59, offset: 91463},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19699,38 +19699,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2876, col: 30, offset: 90915},
+											pos:   position{line: 2880, col: 30, offset: 91186},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2889, col: 5, offset: 91256},
+												pos: position{line: 2893, col: 5, offset: 91527},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2889, col: 5, offset: 91256},
+													pos:   position{line: 2893, col: 5, offset: 91527},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2889, col: 14, offset: 91265},
+														pos: position{line: 2893, col: 14, offset: 91536},
 														expr: &choiceExpr{
-															pos: position{line: 2890, col: 9, offset: 91275},
+															pos: position{line: 2894, col: 9, offset: 91546},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2890, col: 9, offset: 91275},
+																	pos: position{line: 2894, col: 9, offset: 91546},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2890, col: 9, offset: 91275},
+																		pos: position{line: 2894, col: 9, offset: 91546},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2890, col: 9, offset: 91275},
+																				pos: position{line: 2894, col: 9, offset: 91546},
 																				expr: &litMatcher{
-																					pos:        position{line: 2890, col: 10, offset: 91276},
+																					pos:        position{line: 2894, col: 10, offset: 91547},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2891, col: 9, offset: 91304},
+																				pos: position{line: 2895, col: 9, offset: 91575},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2891, col: 10, offset: 91305},
+																					pos:        position{line: 2895, col: 10, offset: 91576},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19741,27 +19741,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2894, col: 11, offset: 91517},
+																	pos: position{line: 2898, col: 11, offset: 91788},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2894, col: 11, offset: 91517},
+																			pos:        position{line: 2898, col: 11, offset: 91788},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2894, col: 19, offset: 91525},
+																			pos: position{line: 2898, col: 19, offset: 91796},
 																			expr: &seqExpr{
-																				pos: position{line: 2894, col: 21, offset: 91527},
+																				pos: position{line: 2898, col: 21, offset: 91798},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2894, col: 21, offset: 91527},
+																						pos: position{line: 2898, col: 21, offset: 91798},
 																						expr: &actionExpr{
-																							pos: position{line: 2918, col: 10, offset: 92139},
+																							pos: position{line: 2922, col: 10, offset: 92410},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2918, col: 10, offset: 92139},
+																								pos:        position{line: 2922, col: 10, offset: 92410},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19770,11 +19770,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2894, col: 28, offset: 91534},
+																						pos: position{line: 2898, col: 28, offset: 91805},
 																						expr: &notExpr{
-																							pos: position{line: 2937, col: 8, offset: 92487},
+																							pos: position{line: 2941, col: 8, offset: 92758},
 																							expr: &anyMatcher{
-																								line: 2937, col: 9, offset: 92488,
+																								line: 2941, col: 9, offset: 92759,
 																							},
 																						},
 																					},
@@ -19784,35 +19784,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 645, col: 5, offset: 20519},
+																	pos: position{line: 649, col: 5, offset: 20790},
 																	run: (*parser).callonImageBlock37,
 																	expr: &seqExpr{
-																		pos: position{line: 645, col: 5, offset: 20519},
+																		pos: position{line: 649, col: 5, offset: 20790},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 645, col: 5, offset: 20519},
+																				pos: position{line: 649, col: 5, offset: 20790},
 																				run: (*parser).callonImageBlock39,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 648, col: 5, offset: 20591},
+																				pos:   position{line: 652, col: 5, offset: 20862},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 648, col: 14, offset: 20600},
+																					pos: position{line: 652, col: 14, offset: 20871},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 654, col: 5, offset: 20729},
+																							pos: position{line: 658, col: 5, offset: 21000},
 																							run: (*parser).callonImageBlock42,
 																							expr: &seqExpr{
-																								pos: position{line: 654, col: 5, offset: 20729},
+																								pos: position{line: 658, col: 5, offset: 21000},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 654, col: 5, offset: 20729},
+																										pos:        position{line: 658, col: 5, offset: 21000},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 654, col: 13, offset: 20737},
+																										pos:   position{line: 658, col: 13, offset: 21008},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -19844,7 +19844,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 654, col: 32, offset: 20756},
+																										pos:        position{line: 658, col: 32, offset: 21027},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19853,19 +19853,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 661, col: 5, offset: 20997},
+																							pos: position{line: 665, col: 5, offset: 21268},
 																							run: (*parser).callonImageBlock52,
 																							expr: &seqExpr{
-																								pos: position{line: 661, col: 5, offset: 20997},
+																								pos: position{line: 665, col: 5, offset: 21268},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 661, col: 5, offset: 20997},
+																										pos:        position{line: 665, col: 5, offset: 21268},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 661, col: 9, offset: 21001},
+																										pos:   position{line: 665, col: 9, offset: 21272},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -19897,7 +19897,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 661, col: 28, offset: 21020},
+																										pos:        position{line: 665, col: 28, offset: 21291},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19906,19 +19906,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 667, col: 25, offset: 21201},
+																							pos: position{line: 671, col: 25, offset: 21472},
 																							run: (*parser).callonImageBlock62,
 																							expr: &seqExpr{
-																								pos: position{line: 667, col: 25, offset: 21201},
+																								pos: position{line: 671, col: 25, offset: 21472},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 667, col: 25, offset: 21201},
+																										pos:        position{line: 671, col: 25, offset: 21472},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 667, col: 37, offset: 21213},
+																										pos:   position{line: 671, col: 37, offset: 21484},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -19950,33 +19950,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 667, col: 56, offset: 21232},
+																										pos:   position{line: 671, col: 56, offset: 21503},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 667, col: 62, offset: 21238},
+																											pos: position{line: 671, col: 62, offset: 21509},
 																											expr: &actionExpr{
-																												pos: position{line: 675, col: 17, offset: 21535},
+																												pos: position{line: 679, col: 17, offset: 21806},
 																												run: (*parser).callonImageBlock73,
 																												expr: &seqExpr{
-																													pos: position{line: 675, col: 17, offset: 21535},
+																													pos: position{line: 679, col: 17, offset: 21806},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 675, col: 17, offset: 21535},
+																															pos:        position{line: 679, col: 17, offset: 21806},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 675, col: 21, offset: 21539},
+																															pos:   position{line: 679, col: 21, offset: 21810},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 675, col: 28, offset: 21546},
+																																pos: position{line: 679, col: 28, offset: 21817},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 675, col: 28, offset: 21546},
+																																		pos: position{line: 679, col: 28, offset: 21817},
 																																		run: (*parser).callonImageBlock78,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 675, col: 28, offset: 21546},
+																																			pos:        position{line: 679, col: 28, offset: 21817},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -19984,12 +19984,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 677, col: 9, offset: 21600},
+																																		pos: position{line: 681, col: 9, offset: 21871},
 																																		run: (*parser).callonImageBlock80,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 677, col: 9, offset: 21600},
+																																			pos: position{line: 681, col: 9, offset: 21871},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 677, col: 9, offset: 21600},
+																																				pos:        position{line: 681, col: 9, offset: 21871},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20006,7 +20006,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 667, col: 78, offset: 21254},
+																										pos:        position{line: 671, col: 78, offset: 21525},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20015,19 +20015,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 671, col: 25, offset: 21372},
+																							pos: position{line: 675, col: 25, offset: 21643},
 																							run: (*parser).callonImageBlock84,
 																							expr: &seqExpr{
-																								pos: position{line: 671, col: 25, offset: 21372},
+																								pos: position{line: 675, col: 25, offset: 21643},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 671, col: 25, offset: 21372},
+																										pos:        position{line: 675, col: 25, offset: 21643},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 671, col: 38, offset: 21385},
+																										pos:   position{line: 675, col: 38, offset: 21656},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -20059,33 +20059,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 671, col: 57, offset: 21404},
+																										pos:   position{line: 675, col: 57, offset: 21675},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 671, col: 63, offset: 21410},
+																											pos: position{line: 675, col: 63, offset: 21681},
 																											expr: &actionExpr{
-																												pos: position{line: 675, col: 17, offset: 21535},
+																												pos: position{line: 679, col: 17, offset: 21806},
 																												run: (*parser).callonImageBlock95,
 																												expr: &seqExpr{
-																													pos: position{line: 675, col: 17, offset: 21535},
+																													pos: position{line: 679, col: 17, offset: 21806},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 675, col: 17, offset: 21535},
+																															pos:        position{line: 679, col: 17, offset: 21806},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 675, col: 21, offset: 21539},
+																															pos:   position{line: 679, col: 21, offset: 21810},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 675, col: 28, offset: 21546},
+																																pos: position{line: 679, col: 28, offset: 21817},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 675, col: 28, offset: 21546},
+																																		pos: position{line: 679, col: 28, offset: 21817},
 																																		run: (*parser).callonImageBlock100,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 675, col: 28, offset: 21546},
+																																			pos:        position{line: 679, col: 28, offset: 21817},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20093,12 +20093,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 677, col: 9, offset: 21600},
+																																		pos: position{line: 681, col: 9, offset: 21871},
 																																		run: (*parser).callonImageBlock102,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 677, col: 9, offset: 21600},
+																																			pos: position{line: 681, col: 9, offset: 21871},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 677, col: 9, offset: 21600},
+																																				pos:        position{line: 681, col: 9, offset: 21871},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20115,7 +20115,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 671, col: 79, offset: 21426},
+																										pos:        position{line: 675, col: 79, offset: 21697},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20130,27 +20130,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1207, col: 23, offset: 37384},
+																	pos: position{line: 1211, col: 23, offset: 37655},
 																	run: (*parser).callonImageBlock106,
 																	expr: &seqExpr{
-																		pos: position{line: 1207, col: 23, offset: 37384},
+																		pos: position{line: 1211, col: 23, offset: 37655},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1205, col: 32, offset: 37352},
+																				pos:        position{line: 1209, col: 32, offset: 37623},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1207, col: 51, offset: 37412},
+																				pos:   position{line: 1211, col: 51, offset: 37683},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1207, col: 56, offset: 37417},
+																					pos: position{line: 1211, col: 56, offset: 37688},
 																					run: (*parser).callonImageBlock110,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1207, col: 56, offset: 37417},
+																						pos: position{line: 1211, col: 56, offset: 37688},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1207, col: 56, offset: 37417},
+																							pos:        position{line: 1211, col: 56, offset: 37688},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20160,7 +20160,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1205, col: 32, offset: 37352},
+																				pos:        position{line: 1209, col: 32, offset: 37623},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20169,10 +20169,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2897, col: 11, offset: 91654},
+																	pos: position{line: 2901, col: 11, offset: 91925},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2897, col: 11, offset: 91654},
+																		pos:        position{line: 2901, col: 11, offset: 91925},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20189,20 +20189,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1321, col: 31, offset: 41395},
+							pos:   position{line: 1325, col: 31, offset: 41666},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1321, col: 43, offset: 41407},
+								pos:  position{line: 1325, col: 43, offset: 41678},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1321, col: 61, offset: 41425},
+							pos: position{line: 1325, col: 61, offset: 41696},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92139},
+								pos: position{line: 2922, col: 10, offset: 92410},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92139},
+									pos:        position{line: 2922, col: 10, offset: 92410},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20211,28 +20211,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2940, col: 8, offset: 92537},
+							pos: position{line: 2944, col: 8, offset: 92808},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2927, col: 12, offset: 92310},
+									pos: position{line: 2931, col: 12, offset: 92581},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2927, col: 13, offset: 92311},
+										pos: position{line: 2931, col: 13, offset: 92582},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2927, col: 13, offset: 92311},
+												pos:        position{line: 2931, col: 13, offset: 92582},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 20, offset: 92318},
+												pos:        position{line: 2931, col: 20, offset: 92589},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 29, offset: 92327},
+												pos:        position{line: 2931, col: 29, offset: 92598},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20241,9 +20241,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2937, col: 8, offset: 92487},
+									pos: position{line: 2941, col: 8, offset: 92758},
 									expr: &anyMatcher{
-										line: 2937, col: 9, offset: 92488,
+										line: 2941, col: 9, offset: 92759,
 									},
 								},
 							},
@@ -20254,74 +20254,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1326, col: 1, offset: 41642},
+			pos:  position{line: 1330, col: 1, offset: 41913},
 			expr: &actionExpr{
-				pos: position{line: 1326, col: 16, offset: 41657},
+				pos: position{line: 1330, col: 16, offset: 41928},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1326, col: 16, offset: 41657},
+					pos: position{line: 1330, col: 16, offset: 41928},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1326, col: 16, offset: 41657},
+							pos:        position{line: 1330, col: 16, offset: 41928},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1326, col: 25, offset: 41666},
+							pos: position{line: 1330, col: 25, offset: 41937},
 							expr: &litMatcher{
-								pos:        position{line: 1326, col: 26, offset: 41667},
+								pos:        position{line: 1330, col: 26, offset: 41938},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1326, col: 30, offset: 41671},
+							pos:   position{line: 1330, col: 30, offset: 41942},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 13, offset: 90898},
+								pos: position{line: 2880, col: 13, offset: 91169},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2876, col: 13, offset: 90898},
+									pos: position{line: 2880, col: 13, offset: 91169},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2876, col: 13, offset: 90898},
+											pos:   position{line: 2880, col: 13, offset: 91169},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2876, col: 20, offset: 90905},
+												pos: position{line: 2880, col: 20, offset: 91176},
 												expr: &actionExpr{
-													pos: position{line: 2884, col: 11, offset: 91144},
+													pos: position{line: 2888, col: 11, offset: 91415},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2884, col: 12, offset: 91145},
+														pos: position{line: 2888, col: 12, offset: 91416},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2884, col: 12, offset: 91145},
+																pos:        position{line: 2888, col: 12, offset: 91416},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2884, col: 24, offset: 91157},
+																pos:        position{line: 2888, col: 24, offset: 91428},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2884, col: 37, offset: 91170},
+																pos:        position{line: 2888, col: 37, offset: 91441},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2884, col: 48, offset: 91181},
+																pos:        position{line: 2888, col: 48, offset: 91452},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2884, col: 59, offset: 91192},
+																pos:        position{line: 2888, col: 59, offset: 91463},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20332,38 +20332,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2876, col: 30, offset: 90915},
+											pos:   position{line: 2880, col: 30, offset: 91186},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2889, col: 5, offset: 91256},
+												pos: position{line: 2893, col: 5, offset: 91527},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2889, col: 5, offset: 91256},
+													pos:   position{line: 2893, col: 5, offset: 91527},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2889, col: 14, offset: 91265},
+														pos: position{line: 2893, col: 14, offset: 91536},
 														expr: &choiceExpr{
-															pos: position{line: 2890, col: 9, offset: 91275},
+															pos: position{line: 2894, col: 9, offset: 91546},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2890, col: 9, offset: 91275},
+																	pos: position{line: 2894, col: 9, offset: 91546},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2890, col: 9, offset: 91275},
+																		pos: position{line: 2894, col: 9, offset: 91546},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2890, col: 9, offset: 91275},
+																				pos: position{line: 2894, col: 9, offset: 91546},
 																				expr: &litMatcher{
-																					pos:        position{line: 2890, col: 10, offset: 91276},
+																					pos:        position{line: 2894, col: 10, offset: 91547},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2891, col: 9, offset: 91304},
+																				pos: position{line: 2895, col: 9, offset: 91575},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2891, col: 10, offset: 91305},
+																					pos:        position{line: 2895, col: 10, offset: 91576},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20374,27 +20374,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2894, col: 11, offset: 91517},
+																	pos: position{line: 2898, col: 11, offset: 91788},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2894, col: 11, offset: 91517},
+																			pos:        position{line: 2898, col: 11, offset: 91788},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2894, col: 19, offset: 91525},
+																			pos: position{line: 2898, col: 19, offset: 91796},
 																			expr: &seqExpr{
-																				pos: position{line: 2894, col: 21, offset: 91527},
+																				pos: position{line: 2898, col: 21, offset: 91798},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2894, col: 21, offset: 91527},
+																						pos: position{line: 2898, col: 21, offset: 91798},
 																						expr: &actionExpr{
-																							pos: position{line: 2918, col: 10, offset: 92139},
+																							pos: position{line: 2922, col: 10, offset: 92410},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2918, col: 10, offset: 92139},
+																								pos:        position{line: 2922, col: 10, offset: 92410},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20403,11 +20403,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2894, col: 28, offset: 91534},
+																						pos: position{line: 2898, col: 28, offset: 91805},
 																						expr: &notExpr{
-																							pos: position{line: 2937, col: 8, offset: 92487},
+																							pos: position{line: 2941, col: 8, offset: 92758},
 																							expr: &anyMatcher{
-																								line: 2937, col: 9, offset: 92488,
+																								line: 2941, col: 9, offset: 92759,
 																							},
 																						},
 																					},
@@ -20417,35 +20417,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 645, col: 5, offset: 20519},
+																	pos: position{line: 649, col: 5, offset: 20790},
 																	run: (*parser).callonInlineImage39,
 																	expr: &seqExpr{
-																		pos: position{line: 645, col: 5, offset: 20519},
+																		pos: position{line: 649, col: 5, offset: 20790},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 645, col: 5, offset: 20519},
+																				pos: position{line: 649, col: 5, offset: 20790},
 																				run: (*parser).callonInlineImage41,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 648, col: 5, offset: 20591},
+																				pos:   position{line: 652, col: 5, offset: 20862},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 648, col: 14, offset: 20600},
+																					pos: position{line: 652, col: 14, offset: 20871},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 654, col: 5, offset: 20729},
+																							pos: position{line: 658, col: 5, offset: 21000},
 																							run: (*parser).callonInlineImage44,
 																							expr: &seqExpr{
-																								pos: position{line: 654, col: 5, offset: 20729},
+																								pos: position{line: 658, col: 5, offset: 21000},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 654, col: 5, offset: 20729},
+																										pos:        position{line: 658, col: 5, offset: 21000},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 654, col: 13, offset: 20737},
+																										pos:   position{line: 658, col: 13, offset: 21008},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -20477,7 +20477,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 654, col: 32, offset: 20756},
+																										pos:        position{line: 658, col: 32, offset: 21027},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20486,19 +20486,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 661, col: 5, offset: 20997},
+																							pos: position{line: 665, col: 5, offset: 21268},
 																							run: (*parser).callonInlineImage54,
 																							expr: &seqExpr{
-																								pos: position{line: 661, col: 5, offset: 20997},
+																								pos: position{line: 665, col: 5, offset: 21268},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 661, col: 5, offset: 20997},
+																										pos:        position{line: 665, col: 5, offset: 21268},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 661, col: 9, offset: 21001},
+																										pos:   position{line: 665, col: 9, offset: 21272},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -20530,7 +20530,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 661, col: 28, offset: 21020},
+																										pos:        position{line: 665, col: 28, offset: 21291},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20539,19 +20539,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 667, col: 25, offset: 21201},
+																							pos: position{line: 671, col: 25, offset: 21472},
 																							run: (*parser).callonInlineImage64,
 																							expr: &seqExpr{
-																								pos: position{line: 667, col: 25, offset: 21201},
+																								pos: position{line: 671, col: 25, offset: 21472},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 667, col: 25, offset: 21201},
+																										pos:        position{line: 671, col: 25, offset: 21472},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 667, col: 37, offset: 21213},
+																										pos:   position{line: 671, col: 37, offset: 21484},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -20583,33 +20583,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 667, col: 56, offset: 21232},
+																										pos:   position{line: 671, col: 56, offset: 21503},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 667, col: 62, offset: 21238},
+																											pos: position{line: 671, col: 62, offset: 21509},
 																											expr: &actionExpr{
-																												pos: position{line: 675, col: 17, offset: 21535},
+																												pos: position{line: 679, col: 17, offset: 21806},
 																												run: (*parser).callonInlineImage75,
 																												expr: &seqExpr{
-																													pos: position{line: 675, col: 17, offset: 21535},
+																													pos: position{line: 679, col: 17, offset: 21806},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 675, col: 17, offset: 21535},
+																															pos:        position{line: 679, col: 17, offset: 21806},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 675, col: 21, offset: 21539},
+																															pos:   position{line: 679, col: 21, offset: 21810},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 675, col: 28, offset: 21546},
+																																pos: position{line: 679, col: 28, offset: 21817},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 675, col: 28, offset: 21546},
+																																		pos: position{line: 679, col: 28, offset: 21817},
 																																		run: (*parser).callonInlineImage80,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 675, col: 28, offset: 21546},
+																																			pos:        position{line: 679, col: 28, offset: 21817},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20617,12 +20617,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 677, col: 9, offset: 21600},
+																																		pos: position{line: 681, col: 9, offset: 21871},
 																																		run: (*parser).callonInlineImage82,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 677, col: 9, offset: 21600},
+																																			pos: position{line: 681, col: 9, offset: 21871},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 677, col: 9, offset: 21600},
+																																				pos:        position{line: 681, col: 9, offset: 21871},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20639,7 +20639,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 667, col: 78, offset: 21254},
+																										pos:        position{line: 671, col: 78, offset: 21525},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20648,19 +20648,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 671, col: 25, offset: 21372},
+																							pos: position{line: 675, col: 25, offset: 21643},
 																							run: (*parser).callonInlineImage86,
 																							expr: &seqExpr{
-																								pos: position{line: 671, col: 25, offset: 21372},
+																								pos: position{line: 675, col: 25, offset: 21643},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 671, col: 25, offset: 21372},
+																										pos:        position{line: 675, col: 25, offset: 21643},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 671, col: 38, offset: 21385},
+																										pos:   position{line: 675, col: 38, offset: 21656},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -20692,33 +20692,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 671, col: 57, offset: 21404},
+																										pos:   position{line: 675, col: 57, offset: 21675},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 671, col: 63, offset: 21410},
+																											pos: position{line: 675, col: 63, offset: 21681},
 																											expr: &actionExpr{
-																												pos: position{line: 675, col: 17, offset: 21535},
+																												pos: position{line: 679, col: 17, offset: 21806},
 																												run: (*parser).callonInlineImage97,
 																												expr: &seqExpr{
-																													pos: position{line: 675, col: 17, offset: 21535},
+																													pos: position{line: 679, col: 17, offset: 21806},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 675, col: 17, offset: 21535},
+																															pos:        position{line: 679, col: 17, offset: 21806},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 675, col: 21, offset: 21539},
+																															pos:   position{line: 679, col: 21, offset: 21810},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 675, col: 28, offset: 21546},
+																																pos: position{line: 679, col: 28, offset: 21817},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 675, col: 28, offset: 21546},
+																																		pos: position{line: 679, col: 28, offset: 21817},
 																																		run: (*parser).callonInlineImage102,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 675, col: 28, offset: 21546},
+																																			pos:        position{line: 679, col: 28, offset: 21817},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20726,12 +20726,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 677, col: 9, offset: 21600},
+																																		pos: position{line: 681, col: 9, offset: 21871},
 																																		run: (*parser).callonInlineImage104,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 677, col: 9, offset: 21600},
+																																			pos: position{line: 681, col: 9, offset: 21871},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 677, col: 9, offset: 21600},
+																																				pos:        position{line: 681, col: 9, offset: 21871},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20748,7 +20748,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 671, col: 79, offset: 21426},
+																										pos:        position{line: 675, col: 79, offset: 21697},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20763,27 +20763,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1207, col: 23, offset: 37384},
+																	pos: position{line: 1211, col: 23, offset: 37655},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1207, col: 23, offset: 37384},
+																		pos: position{line: 1211, col: 23, offset: 37655},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1205, col: 32, offset: 37352},
+																				pos:        position{line: 1209, col: 32, offset: 37623},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1207, col: 51, offset: 37412},
+																				pos:   position{line: 1211, col: 51, offset: 37683},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1207, col: 56, offset: 37417},
+																					pos: position{line: 1211, col: 56, offset: 37688},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1207, col: 56, offset: 37417},
+																						pos: position{line: 1211, col: 56, offset: 37688},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1207, col: 56, offset: 37417},
+																							pos:        position{line: 1211, col: 56, offset: 37688},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20793,7 +20793,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1205, col: 32, offset: 37352},
+																				pos:        position{line: 1209, col: 32, offset: 37623},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20802,10 +20802,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2897, col: 11, offset: 91654},
+																	pos: position{line: 2901, col: 11, offset: 91925},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2897, col: 11, offset: 91654},
+																		pos:        position{line: 2901, col: 11, offset: 91925},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20822,10 +20822,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1326, col: 46, offset: 41687},
+							pos:   position{line: 1330, col: 46, offset: 41958},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1326, col: 58, offset: 41699},
+								pos:  position{line: 1330, col: 58, offset: 41970},
 								name: "InlineAttributes",
 							},
 						},
@@ -20835,29 +20835,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1333, col: 1, offset: 42095},
+			pos:  position{line: 1337, col: 1, offset: 42366},
 			expr: &actionExpr{
-				pos: position{line: 1333, col: 15, offset: 42109},
+				pos: position{line: 1337, col: 15, offset: 42380},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1333, col: 15, offset: 42109},
+					pos: position{line: 1337, col: 15, offset: 42380},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1333, col: 15, offset: 42109},
+							pos:        position{line: 1337, col: 15, offset: 42380},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1333, col: 23, offset: 42117},
+							pos:   position{line: 1337, col: 23, offset: 42388},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1333, col: 29, offset: 42123},
+								pos: position{line: 1337, col: 29, offset: 42394},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1333, col: 29, offset: 42123},
+									pos: position{line: 1337, col: 29, offset: 42394},
 									expr: &charClassMatcher{
-										pos:        position{line: 1333, col: 29, offset: 42123},
+										pos:        position{line: 1337, col: 29, offset: 42394},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20868,10 +20868,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1333, col: 73, offset: 42167},
+							pos:   position{line: 1337, col: 73, offset: 42438},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1333, col: 85, offset: 42179},
+								pos:  position{line: 1337, col: 85, offset: 42450},
 								name: "InlineAttributes",
 							},
 						},
@@ -20881,31 +20881,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1340, col: 1, offset: 42545},
+			pos:  position{line: 1344, col: 1, offset: 42816},
 			expr: &actionExpr{
-				pos: position{line: 1340, col: 19, offset: 42563},
+				pos: position{line: 1344, col: 19, offset: 42834},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1340, col: 19, offset: 42563},
+					pos: position{line: 1344, col: 19, offset: 42834},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1340, col: 19, offset: 42563},
+							pos:        position{line: 1344, col: 19, offset: 42834},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1340, col: 31, offset: 42575},
+							pos:   position{line: 1344, col: 31, offset: 42846},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1340, col: 35, offset: 42579},
+								pos: position{line: 1344, col: 35, offset: 42850},
 								expr: &actionExpr{
-									pos: position{line: 2812, col: 14, offset: 89308},
+									pos: position{line: 2816, col: 14, offset: 89579},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2812, col: 14, offset: 89308},
+										pos: position{line: 2816, col: 14, offset: 89579},
 										expr: &charClassMatcher{
-											pos:        position{line: 2812, col: 14, offset: 89308},
+											pos:        position{line: 2816, col: 14, offset: 89579},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20916,21 +20916,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1340, col: 50, offset: 42594},
+							pos:        position{line: 1344, col: 50, offset: 42865},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1340, col: 54, offset: 42598},
+							pos:   position{line: 1344, col: 54, offset: 42869},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1340, col: 64, offset: 42608},
+								pos:  position{line: 1344, col: 64, offset: 42879},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1340, col: 82, offset: 42626},
+							pos:        position{line: 1344, col: 82, offset: 42897},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20941,24 +20941,24 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1346, col: 1, offset: 42783},
+			pos:  position{line: 1350, col: 1, offset: 43054},
 			expr: &actionExpr{
-				pos: position{line: 1347, col: 5, offset: 42808},
+				pos: position{line: 1351, col: 5, offset: 43079},
 				run: (*parser).callonFootnoteElements1,
 				expr: &seqExpr{
-					pos: position{line: 1347, col: 5, offset: 42808},
+					pos: position{line: 1351, col: 5, offset: 43079},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1347, col: 5, offset: 42808},
+							pos: position{line: 1351, col: 5, offset: 43079},
 							run: (*parser).callonFootnoteElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1351, col: 5, offset: 42919},
+							pos:   position{line: 1355, col: 5, offset: 43190},
 							label: "elements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1351, col: 14, offset: 42928},
+								pos: position{line: 1355, col: 14, offset: 43199},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1351, col: 15, offset: 42929},
+									pos:  position{line: 1355, col: 15, offset: 43200},
 									name: "FootnoteElement",
 								},
 							},
@@ -20969,44 +20969,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1355, col: 1, offset: 43021},
+			pos:  position{line: 1359, col: 1, offset: 43292},
 			expr: &actionExpr{
-				pos: position{line: 1356, col: 5, offset: 43045},
+				pos: position{line: 1360, col: 5, offset: 43316},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1356, col: 5, offset: 43045},
+					pos: position{line: 1360, col: 5, offset: 43316},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1356, col: 5, offset: 43045},
+							pos: position{line: 1360, col: 5, offset: 43316},
 							expr: &litMatcher{
-								pos:        position{line: 1356, col: 6, offset: 43046},
+								pos:        position{line: 1360, col: 6, offset: 43317},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1357, col: 5, offset: 43055},
+							pos:   position{line: 1361, col: 5, offset: 43326},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1358, col: 9, offset: 43073},
+								pos: position{line: 1362, col: 9, offset: 43344},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2817, col: 5, offset: 89381},
+										pos: position{line: 2821, col: 5, offset: 89652},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2817, col: 5, offset: 89381},
+											pos: position{line: 2821, col: 5, offset: 89652},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2817, col: 5, offset: 89381},
+													pos:   position{line: 2821, col: 5, offset: 89652},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2817, col: 11, offset: 89387},
+														pos: position{line: 2821, col: 11, offset: 89658},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2817, col: 11, offset: 89387},
+															pos: position{line: 2821, col: 11, offset: 89658},
 															expr: &charClassMatcher{
-																pos:        position{line: 2817, col: 11, offset: 89387},
+																pos:        position{line: 2821, col: 11, offset: 89658},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21016,36 +21016,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2820, col: 5, offset: 89445},
+													pos: position{line: 2824, col: 5, offset: 89716},
 													expr: &seqExpr{
-														pos: position{line: 2821, col: 9, offset: 89456},
+														pos: position{line: 2825, col: 9, offset: 89727},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2821, col: 9, offset: 89456},
+																pos:        position{line: 2825, col: 9, offset: 89727},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2822, col: 9, offset: 89505},
+																pos: position{line: 2826, col: 9, offset: 89776},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2826, col: 5, offset: 89585},
+													pos: position{line: 2830, col: 5, offset: 89856},
 													expr: &seqExpr{
-														pos: position{line: 2827, col: 9, offset: 89596},
+														pos: position{line: 2831, col: 9, offset: 89867},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2827, col: 9, offset: 89596},
+																pos:        position{line: 2831, col: 9, offset: 89867},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2827, col: 13, offset: 89600},
+																pos:        position{line: 2831, col: 13, offset: 89871},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21058,12 +21058,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2922, col: 11, offset: 92200},
+										pos: position{line: 2926, col: 11, offset: 92471},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2922, col: 11, offset: 92200},
+											pos: position{line: 2926, col: 11, offset: 92471},
 											expr: &charClassMatcher{
-												pos:        position{line: 2922, col: 11, offset: 92200},
+												pos:        position{line: 2926, col: 11, offset: 92471},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21072,21 +21072,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2539, col: 5, offset: 81662},
+										pos: position{line: 2543, col: 5, offset: 81933},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2539, col: 5, offset: 81662},
+											pos: position{line: 2543, col: 5, offset: 81933},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2539, col: 5, offset: 81662},
+													pos:        position{line: 2543, col: 5, offset: 81933},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2539, col: 10, offset: 81667},
+													pos: position{line: 2543, col: 10, offset: 81938},
 													expr: &charClassMatcher{
-														pos:        position{line: 2539, col: 11, offset: 81668},
+														pos:        position{line: 2543, col: 11, offset: 81939},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21097,29 +21097,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2545, col: 5, offset: 81860},
+										pos: position{line: 2549, col: 5, offset: 82131},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2545, col: 5, offset: 81860},
+											pos: position{line: 2549, col: 5, offset: 82131},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2545, col: 5, offset: 81860},
+													pos: position{line: 2549, col: 5, offset: 82131},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2548, col: 5, offset: 81931},
+													pos: position{line: 2552, col: 5, offset: 82202},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2552, col: 5, offset: 82056},
+													pos:        position{line: 2556, col: 5, offset: 82327},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2552, col: 9, offset: 82060},
+													pos: position{line: 2556, col: 9, offset: 82331},
 													expr: &charClassMatcher{
-														pos:        position{line: 2552, col: 10, offset: 82061},
+														pos:        position{line: 2556, col: 10, offset: 82332},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21130,35 +21130,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1361, col: 11, offset: 43140},
+										pos:  position{line: 1365, col: 11, offset: 43411},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1362, col: 11, offset: 43156},
+										pos:  position{line: 1366, col: 11, offset: 43427},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2835, col: 5, offset: 89793},
+										pos: position{line: 2839, col: 5, offset: 90064},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2836, col: 9, offset: 89803},
+											pos: position{line: 2840, col: 9, offset: 90074},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2836, col: 10, offset: 89804},
+													pos:        position{line: 2840, col: 10, offset: 90075},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2838, col: 13, offset: 89901},
+													pos: position{line: 2842, col: 13, offset: 90172},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2838, col: 13, offset: 89901},
+															pos: position{line: 2842, col: 13, offset: 90172},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2841, col: 13, offset: 90001},
+															pos:        position{line: 2845, col: 13, offset: 90272},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21166,20 +21166,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2841, col: 19, offset: 90007},
+													pos:        position{line: 2845, col: 19, offset: 90278},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2844, col: 13, offset: 90045},
+													pos: position{line: 2848, col: 13, offset: 90316},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2844, col: 13, offset: 90045},
+															pos: position{line: 2848, col: 13, offset: 90316},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2847, col: 14, offset: 90138},
+															pos:        position{line: 2851, col: 14, offset: 90409},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21188,18 +21188,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2849, col: 12, offset: 90182},
+													pos: position{line: 2853, col: 12, offset: 90453},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2849, col: 12, offset: 90182},
+															pos:        position{line: 2853, col: 12, offset: 90453},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2849, col: 16, offset: 90186},
+															pos: position{line: 2853, col: 16, offset: 90457},
 															expr: &litMatcher{
-																pos:        position{line: 2849, col: 17, offset: 90187},
+																pos:        position{line: 2853, col: 17, offset: 90458},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21211,36 +21211,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1364, col: 11, offset: 43229},
+										pos:  position{line: 1368, col: 11, offset: 43500},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1215, col: 5, offset: 37830},
+										pos: position{line: 1219, col: 5, offset: 38101},
 										run: (*parser).callonFootnoteElement53,
 										expr: &seqExpr{
-											pos: position{line: 1215, col: 5, offset: 37830},
+											pos: position{line: 1219, col: 5, offset: 38101},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1215, col: 5, offset: 37830},
+													pos: position{line: 1219, col: 5, offset: 38101},
 													run: (*parser).callonFootnoteElement55,
 												},
 												&litMatcher{
-													pos:        position{line: 1218, col: 5, offset: 37906},
+													pos:        position{line: 1222, col: 5, offset: 38177},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1219, col: 5, offset: 37914},
+													pos: position{line: 1223, col: 5, offset: 38185},
 													run: (*parser).callonFootnoteElement57,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1223, col: 5, offset: 38001},
+													pos: position{line: 1227, col: 5, offset: 38272},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92139},
+														pos: position{line: 2922, col: 10, offset: 92410},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92139},
+															pos:        position{line: 2922, col: 10, offset: 92410},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21249,30 +21249,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1223, col: 12, offset: 38008},
+													pos: position{line: 1227, col: 12, offset: 38279},
 													expr: &choiceExpr{
-														pos: position{line: 2940, col: 8, offset: 92537},
+														pos: position{line: 2944, col: 8, offset: 92808},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92310},
+																pos: position{line: 2931, col: 12, offset: 92581},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2927, col: 13, offset: 92311},
+																	pos: position{line: 2931, col: 13, offset: 92582},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 13, offset: 92311},
+																			pos:        position{line: 2931, col: 13, offset: 92582},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 20, offset: 92318},
+																			pos:        position{line: 2931, col: 20, offset: 92589},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 29, offset: 92327},
+																			pos:        position{line: 2931, col: 29, offset: 92598},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21281,9 +21281,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92487},
+																pos: position{line: 2941, col: 8, offset: 92758},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92488,
+																	line: 2941, col: 9, offset: 92759,
 																},
 															},
 														},
@@ -21293,35 +21293,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 645, col: 5, offset: 20519},
+										pos: position{line: 649, col: 5, offset: 20790},
 										run: (*parser).callonFootnoteElement70,
 										expr: &seqExpr{
-											pos: position{line: 645, col: 5, offset: 20519},
+											pos: position{line: 649, col: 5, offset: 20790},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 645, col: 5, offset: 20519},
+													pos: position{line: 649, col: 5, offset: 20790},
 													run: (*parser).callonFootnoteElement72,
 												},
 												&labeledExpr{
-													pos:   position{line: 648, col: 5, offset: 20591},
+													pos:   position{line: 652, col: 5, offset: 20862},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 648, col: 14, offset: 20600},
+														pos: position{line: 652, col: 14, offset: 20871},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 654, col: 5, offset: 20729},
+																pos: position{line: 658, col: 5, offset: 21000},
 																run: (*parser).callonFootnoteElement75,
 																expr: &seqExpr{
-																	pos: position{line: 654, col: 5, offset: 20729},
+																	pos: position{line: 658, col: 5, offset: 21000},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 654, col: 5, offset: 20729},
+																			pos:        position{line: 658, col: 5, offset: 21000},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 654, col: 13, offset: 20737},
+																			pos:   position{line: 658, col: 13, offset: 21008},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -21353,7 +21353,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 654, col: 32, offset: 20756},
+																			pos:        position{line: 658, col: 32, offset: 21027},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21362,19 +21362,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 661, col: 5, offset: 20997},
+																pos: position{line: 665, col: 5, offset: 21268},
 																run: (*parser).callonFootnoteElement85,
 																expr: &seqExpr{
-																	pos: position{line: 661, col: 5, offset: 20997},
+																	pos: position{line: 665, col: 5, offset: 21268},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 661, col: 5, offset: 20997},
+																			pos:        position{line: 665, col: 5, offset: 21268},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 661, col: 9, offset: 21001},
+																			pos:   position{line: 665, col: 9, offset: 21272},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -21406,7 +21406,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 661, col: 28, offset: 21020},
+																			pos:        position{line: 665, col: 28, offset: 21291},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21415,19 +21415,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 667, col: 25, offset: 21201},
+																pos: position{line: 671, col: 25, offset: 21472},
 																run: (*parser).callonFootnoteElement95,
 																expr: &seqExpr{
-																	pos: position{line: 667, col: 25, offset: 21201},
+																	pos: position{line: 671, col: 25, offset: 21472},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 667, col: 25, offset: 21201},
+																			pos:        position{line: 671, col: 25, offset: 21472},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 667, col: 37, offset: 21213},
+																			pos:   position{line: 671, col: 37, offset: 21484},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -21459,33 +21459,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 667, col: 56, offset: 21232},
+																			pos:   position{line: 671, col: 56, offset: 21503},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 667, col: 62, offset: 21238},
+																				pos: position{line: 671, col: 62, offset: 21509},
 																				expr: &actionExpr{
-																					pos: position{line: 675, col: 17, offset: 21535},
+																					pos: position{line: 679, col: 17, offset: 21806},
 																					run: (*parser).callonFootnoteElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 675, col: 17, offset: 21535},
+																						pos: position{line: 679, col: 17, offset: 21806},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 675, col: 17, offset: 21535},
+																								pos:        position{line: 679, col: 17, offset: 21806},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 675, col: 21, offset: 21539},
+																								pos:   position{line: 679, col: 21, offset: 21810},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 675, col: 28, offset: 21546},
+																									pos: position{line: 679, col: 28, offset: 21817},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 675, col: 28, offset: 21546},
+																											pos: position{line: 679, col: 28, offset: 21817},
 																											run: (*parser).callonFootnoteElement111,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 675, col: 28, offset: 21546},
+																												pos:        position{line: 679, col: 28, offset: 21817},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21493,12 +21493,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 677, col: 9, offset: 21600},
+																											pos: position{line: 681, col: 9, offset: 21871},
 																											run: (*parser).callonFootnoteElement113,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 677, col: 9, offset: 21600},
+																												pos: position{line: 681, col: 9, offset: 21871},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 677, col: 9, offset: 21600},
+																													pos:        position{line: 681, col: 9, offset: 21871},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21515,7 +21515,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 667, col: 78, offset: 21254},
+																			pos:        position{line: 671, col: 78, offset: 21525},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21524,19 +21524,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 671, col: 25, offset: 21372},
+																pos: position{line: 675, col: 25, offset: 21643},
 																run: (*parser).callonFootnoteElement117,
 																expr: &seqExpr{
-																	pos: position{line: 671, col: 25, offset: 21372},
+																	pos: position{line: 675, col: 25, offset: 21643},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 671, col: 25, offset: 21372},
+																			pos:        position{line: 675, col: 25, offset: 21643},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 671, col: 38, offset: 21385},
+																			pos:   position{line: 675, col: 38, offset: 21656},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -21568,33 +21568,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 671, col: 57, offset: 21404},
+																			pos:   position{line: 675, col: 57, offset: 21675},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 671, col: 63, offset: 21410},
+																				pos: position{line: 675, col: 63, offset: 21681},
 																				expr: &actionExpr{
-																					pos: position{line: 675, col: 17, offset: 21535},
+																					pos: position{line: 679, col: 17, offset: 21806},
 																					run: (*parser).callonFootnoteElement128,
 																					expr: &seqExpr{
-																						pos: position{line: 675, col: 17, offset: 21535},
+																						pos: position{line: 679, col: 17, offset: 21806},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 675, col: 17, offset: 21535},
+																								pos:        position{line: 679, col: 17, offset: 21806},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 675, col: 21, offset: 21539},
+																								pos:   position{line: 679, col: 21, offset: 21810},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 675, col: 28, offset: 21546},
+																									pos: position{line: 679, col: 28, offset: 21817},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 675, col: 28, offset: 21546},
+																											pos: position{line: 679, col: 28, offset: 21817},
 																											run: (*parser).callonFootnoteElement133,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 675, col: 28, offset: 21546},
+																												pos:        position{line: 679, col: 28, offset: 21817},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21602,12 +21602,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 677, col: 9, offset: 21600},
+																											pos: position{line: 681, col: 9, offset: 21871},
 																											run: (*parser).callonFootnoteElement135,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 677, col: 9, offset: 21600},
+																												pos: position{line: 681, col: 9, offset: 21871},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 677, col: 9, offset: 21600},
+																													pos:        position{line: 681, col: 9, offset: 21871},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21624,7 +21624,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 671, col: 79, offset: 21426},
+																			pos:        position{line: 675, col: 79, offset: 21697},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21639,23 +21639,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2508, col: 5, offset: 80463},
+										pos: position{line: 2512, col: 5, offset: 80734},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2508, col: 5, offset: 80463},
+											pos: position{line: 2512, col: 5, offset: 80734},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2508, col: 5, offset: 80463},
+													pos: position{line: 2512, col: 5, offset: 80734},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2511, col: 5, offset: 80539},
+													pos:   position{line: 2515, col: 5, offset: 80810},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2512, col: 9, offset: 80557},
+														pos: position{line: 2516, col: 9, offset: 80828},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2512, col: 10, offset: 80558},
+															pos:        position{line: 2516, col: 10, offset: 80829},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21667,25 +21667,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2927, col: 12, offset: 92310},
+										pos: position{line: 2931, col: 12, offset: 92581},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2927, col: 13, offset: 92311},
+											pos: position{line: 2931, col: 13, offset: 92582},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2927, col: 13, offset: 92311},
+													pos:        position{line: 2931, col: 13, offset: 92582},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2927, col: 20, offset: 92318},
+													pos:        position{line: 2931, col: 20, offset: 92589},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2927, col: 29, offset: 92327},
+													pos:        position{line: 2931, col: 29, offset: 92598},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21694,10 +21694,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2857, col: 12, offset: 90447},
+										pos: position{line: 2861, col: 12, offset: 90718},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2857, col: 12, offset: 90447},
+											pos:        position{line: 2861, col: 12, offset: 90718},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21713,32 +21713,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1403, col: 1, offset: 45074},
+			pos:  position{line: 1407, col: 1, offset: 45345},
 			expr: &choiceExpr{
-				pos: position{line: 1403, col: 21, offset: 45094},
+				pos: position{line: 1407, col: 21, offset: 45365},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1403, col: 21, offset: 45094},
+						pos: position{line: 1407, col: 21, offset: 45365},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1403, col: 21, offset: 45094},
+							pos: position{line: 1407, col: 21, offset: 45365},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1403, col: 21, offset: 45094},
+									pos:        position{line: 1407, col: 21, offset: 45365},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1403, col: 30, offset: 45103},
+									pos:   position{line: 1407, col: 30, offset: 45374},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1403, col: 38, offset: 45111},
+										pos: position{line: 1407, col: 38, offset: 45382},
 										expr: &actionExpr{
-											pos: position{line: 1409, col: 30, offset: 45437},
+											pos: position{line: 1413, col: 30, offset: 45708},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1409, col: 30, offset: 45437},
+												pos:        position{line: 1413, col: 30, offset: 45708},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21748,7 +21748,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1403, col: 67, offset: 45140},
+									pos:        position{line: 1407, col: 67, offset: 45411},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21757,34 +21757,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1405, col: 9, offset: 45244},
+						pos: position{line: 1409, col: 9, offset: 45515},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1405, col: 9, offset: 45244},
+							pos: position{line: 1409, col: 9, offset: 45515},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1405, col: 9, offset: 45244},
+									pos:        position{line: 1409, col: 9, offset: 45515},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1405, col: 19, offset: 45254},
+									pos:   position{line: 1409, col: 19, offset: 45525},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1405, col: 27, offset: 45262},
+										pos: position{line: 1409, col: 27, offset: 45533},
 										expr: &choiceExpr{
-											pos: position{line: 1405, col: 28, offset: 45263},
+											pos: position{line: 1409, col: 28, offset: 45534},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1405, col: 28, offset: 45263},
+													pos:  position{line: 1409, col: 28, offset: 45534},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1409, col: 30, offset: 45437},
+													pos: position{line: 1413, col: 30, offset: 45708},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1409, col: 30, offset: 45437},
+														pos:        position{line: 1413, col: 30, offset: 45708},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -21796,7 +21796,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1405, col: 69, offset: 45304},
+									pos:        position{line: 1409, col: 69, offset: 45575},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21809,75 +21809,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1416, col: 1, offset: 45693},
+			pos:  position{line: 1420, col: 1, offset: 45964},
 			expr: &choiceExpr{
-				pos: position{line: 1416, col: 9, offset: 45701},
+				pos: position{line: 1420, col: 9, offset: 45972},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1419, col: 5, offset: 45770},
+						pos: position{line: 1423, col: 5, offset: 46041},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1419, col: 5, offset: 45770},
+							pos: position{line: 1423, col: 5, offset: 46041},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1419, col: 5, offset: 45770},
+									pos:        position{line: 1423, col: 5, offset: 46041},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1420, col: 5, offset: 45779},
+									pos:   position{line: 1424, col: 5, offset: 46050},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2880, col: 23, offset: 91025},
+										pos: position{line: 2884, col: 23, offset: 91296},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2880, col: 23, offset: 91025},
+											pos: position{line: 2884, col: 23, offset: 91296},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2880, col: 23, offset: 91025},
+													pos: position{line: 2884, col: 23, offset: 91296},
 													expr: &litMatcher{
-														pos:        position{line: 2880, col: 24, offset: 91026},
+														pos:        position{line: 2884, col: 24, offset: 91297},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2880, col: 28, offset: 91030},
+													pos:   position{line: 2884, col: 28, offset: 91301},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2884, col: 11, offset: 91144},
+														pos: position{line: 2888, col: 11, offset: 91415},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2884, col: 12, offset: 91145},
+															pos: position{line: 2888, col: 12, offset: 91416},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2884, col: 12, offset: 91145},
+																	pos:        position{line: 2888, col: 12, offset: 91416},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2884, col: 24, offset: 91157},
+																	pos:        position{line: 2888, col: 24, offset: 91428},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2884, col: 37, offset: 91170},
+																	pos:        position{line: 2888, col: 37, offset: 91441},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2884, col: 48, offset: 91181},
+																	pos:        position{line: 2888, col: 48, offset: 91452},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2884, col: 59, offset: 91192},
+																	pos:        position{line: 2888, col: 59, offset: 91463},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21887,38 +21887,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2880, col: 44, offset: 91046},
+													pos:   position{line: 2884, col: 44, offset: 91317},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2889, col: 5, offset: 91256},
+														pos: position{line: 2893, col: 5, offset: 91527},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2889, col: 5, offset: 91256},
+															pos:   position{line: 2893, col: 5, offset: 91527},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2889, col: 14, offset: 91265},
+																pos: position{line: 2893, col: 14, offset: 91536},
 																expr: &choiceExpr{
-																	pos: position{line: 2890, col: 9, offset: 91275},
+																	pos: position{line: 2894, col: 9, offset: 91546},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 9, offset: 91275},
+																			pos: position{line: 2894, col: 9, offset: 91546},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2890, col: 9, offset: 91275},
+																				pos: position{line: 2894, col: 9, offset: 91546},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2890, col: 9, offset: 91275},
+																						pos: position{line: 2894, col: 9, offset: 91546},
 																						expr: &litMatcher{
-																							pos:        position{line: 2890, col: 10, offset: 91276},
+																							pos:        position{line: 2894, col: 10, offset: 91547},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2891, col: 9, offset: 91304},
+																						pos: position{line: 2895, col: 9, offset: 91575},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2891, col: 10, offset: 91305},
+																							pos:        position{line: 2895, col: 10, offset: 91576},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21929,27 +21929,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2894, col: 11, offset: 91517},
+																			pos: position{line: 2898, col: 11, offset: 91788},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2894, col: 11, offset: 91517},
+																					pos:        position{line: 2898, col: 11, offset: 91788},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2894, col: 19, offset: 91525},
+																					pos: position{line: 2898, col: 19, offset: 91796},
 																					expr: &seqExpr{
-																						pos: position{line: 2894, col: 21, offset: 91527},
+																						pos: position{line: 2898, col: 21, offset: 91798},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2894, col: 21, offset: 91527},
+																								pos: position{line: 2898, col: 21, offset: 91798},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92139},
+																									pos: position{line: 2922, col: 10, offset: 92410},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92139},
+																										pos:        position{line: 2922, col: 10, offset: 92410},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21958,11 +21958,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 28, offset: 91534},
+																								pos: position{line: 2898, col: 28, offset: 91805},
 																								expr: &notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -21972,35 +21972,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 645, col: 5, offset: 20519},
+																			pos: position{line: 649, col: 5, offset: 20790},
 																			run: (*parser).callonLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 645, col: 5, offset: 20519},
+																				pos: position{line: 649, col: 5, offset: 20790},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 645, col: 5, offset: 20519},
+																						pos: position{line: 649, col: 5, offset: 20790},
 																						run: (*parser).callonLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 648, col: 5, offset: 20591},
+																						pos:   position{line: 652, col: 5, offset: 20862},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 648, col: 14, offset: 20600},
+																							pos: position{line: 652, col: 14, offset: 20871},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 654, col: 5, offset: 20729},
+																									pos: position{line: 658, col: 5, offset: 21000},
 																									run: (*parser).callonLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 654, col: 5, offset: 20729},
+																										pos: position{line: 658, col: 5, offset: 21000},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 654, col: 5, offset: 20729},
+																												pos:        position{line: 658, col: 5, offset: 21000},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 654, col: 13, offset: 20737},
+																												pos:   position{line: 658, col: 13, offset: 21008},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22032,7 +22032,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 654, col: 32, offset: 20756},
+																												pos:        position{line: 658, col: 32, offset: 21027},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22041,19 +22041,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 661, col: 5, offset: 20997},
+																									pos: position{line: 665, col: 5, offset: 21268},
 																									run: (*parser).callonLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 661, col: 5, offset: 20997},
+																										pos: position{line: 665, col: 5, offset: 21268},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 661, col: 5, offset: 20997},
+																												pos:        position{line: 665, col: 5, offset: 21268},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 9, offset: 21001},
+																												pos:   position{line: 665, col: 9, offset: 21272},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22085,7 +22085,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 661, col: 28, offset: 21020},
+																												pos:        position{line: 665, col: 28, offset: 21291},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22094,19 +22094,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 667, col: 25, offset: 21201},
+																									pos: position{line: 671, col: 25, offset: 21472},
 																									run: (*parser).callonLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 667, col: 25, offset: 21201},
+																										pos: position{line: 671, col: 25, offset: 21472},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 667, col: 25, offset: 21201},
+																												pos:        position{line: 671, col: 25, offset: 21472},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 667, col: 37, offset: 21213},
+																												pos:   position{line: 671, col: 37, offset: 21484},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22138,33 +22138,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 667, col: 56, offset: 21232},
+																												pos:   position{line: 671, col: 56, offset: 21503},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 667, col: 62, offset: 21238},
+																													pos: position{line: 671, col: 62, offset: 21509},
 																													expr: &actionExpr{
-																														pos: position{line: 675, col: 17, offset: 21535},
+																														pos: position{line: 679, col: 17, offset: 21806},
 																														run: (*parser).callonLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 675, col: 17, offset: 21535},
+																															pos: position{line: 679, col: 17, offset: 21806},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 675, col: 17, offset: 21535},
+																																	pos:        position{line: 679, col: 17, offset: 21806},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 675, col: 21, offset: 21539},
+																																	pos:   position{line: 679, col: 21, offset: 21810},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 675, col: 28, offset: 21546},
+																																		pos: position{line: 679, col: 28, offset: 21817},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 675, col: 28, offset: 21546},
+																																				pos: position{line: 679, col: 28, offset: 21817},
 																																				run: (*parser).callonLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 675, col: 28, offset: 21546},
+																																					pos:        position{line: 679, col: 28, offset: 21817},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22172,12 +22172,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 677, col: 9, offset: 21600},
+																																				pos: position{line: 681, col: 9, offset: 21871},
 																																				run: (*parser).callonLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 677, col: 9, offset: 21600},
+																																					pos: position{line: 681, col: 9, offset: 21871},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 677, col: 9, offset: 21600},
+																																						pos:        position{line: 681, col: 9, offset: 21871},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22194,7 +22194,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 667, col: 78, offset: 21254},
+																												pos:        position{line: 671, col: 78, offset: 21525},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22203,19 +22203,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 671, col: 25, offset: 21372},
+																									pos: position{line: 675, col: 25, offset: 21643},
 																									run: (*parser).callonLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 671, col: 25, offset: 21372},
+																										pos: position{line: 675, col: 25, offset: 21643},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 671, col: 25, offset: 21372},
+																												pos:        position{line: 675, col: 25, offset: 21643},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 38, offset: 21385},
+																												pos:   position{line: 675, col: 38, offset: 21656},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22247,33 +22247,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 57, offset: 21404},
+																												pos:   position{line: 675, col: 57, offset: 21675},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 671, col: 63, offset: 21410},
+																													pos: position{line: 675, col: 63, offset: 21681},
 																													expr: &actionExpr{
-																														pos: position{line: 675, col: 17, offset: 21535},
+																														pos: position{line: 679, col: 17, offset: 21806},
 																														run: (*parser).callonLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 675, col: 17, offset: 21535},
+																															pos: position{line: 679, col: 17, offset: 21806},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 675, col: 17, offset: 21535},
+																																	pos:        position{line: 679, col: 17, offset: 21806},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 675, col: 21, offset: 21539},
+																																	pos:   position{line: 679, col: 21, offset: 21810},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 675, col: 28, offset: 21546},
+																																		pos: position{line: 679, col: 28, offset: 21817},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 675, col: 28, offset: 21546},
+																																				pos: position{line: 679, col: 28, offset: 21817},
 																																				run: (*parser).callonLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 675, col: 28, offset: 21546},
+																																					pos:        position{line: 679, col: 28, offset: 21817},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22281,12 +22281,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 677, col: 9, offset: 21600},
+																																				pos: position{line: 681, col: 9, offset: 21871},
 																																				run: (*parser).callonLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 677, col: 9, offset: 21600},
+																																					pos: position{line: 681, col: 9, offset: 21871},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 677, col: 9, offset: 21600},
+																																						pos:        position{line: 681, col: 9, offset: 21871},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22303,7 +22303,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 671, col: 79, offset: 21426},
+																												pos:        position{line: 675, col: 79, offset: 21697},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22318,27 +22318,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1207, col: 23, offset: 37384},
+																			pos: position{line: 1211, col: 23, offset: 37655},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1207, col: 23, offset: 37384},
+																				pos: position{line: 1211, col: 23, offset: 37655},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1205, col: 32, offset: 37352},
+																						pos:        position{line: 1209, col: 32, offset: 37623},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1207, col: 51, offset: 37412},
+																						pos:   position{line: 1211, col: 51, offset: 37683},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1207, col: 56, offset: 37417},
+																							pos: position{line: 1211, col: 56, offset: 37688},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1207, col: 56, offset: 37417},
+																								pos: position{line: 1211, col: 56, offset: 37688},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1207, col: 56, offset: 37417},
+																									pos:        position{line: 1211, col: 56, offset: 37688},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22348,7 +22348,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1205, col: 32, offset: 37352},
+																						pos:        position{line: 1209, col: 32, offset: 37623},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22357,10 +22357,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2897, col: 11, offset: 91654},
+																			pos: position{line: 2901, col: 11, offset: 91925},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2897, col: 11, offset: 91654},
+																				pos:        position{line: 2901, col: 11, offset: 91925},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22377,7 +22377,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1425, col: 5, offset: 45998},
+									pos:        position{line: 1429, col: 5, offset: 46269},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22386,38 +22386,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1416, col: 19, offset: 45711},
+						pos:  position{line: 1420, col: 19, offset: 45982},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1416, col: 34, offset: 45726},
+						pos:  position{line: 1420, col: 34, offset: 45997},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1454, col: 17, offset: 46991},
+						pos: position{line: 1458, col: 17, offset: 47262},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1454, col: 17, offset: 46991},
+							pos: position{line: 1458, col: 17, offset: 47262},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1454, col: 17, offset: 46991},
+									pos:   position{line: 1458, col: 17, offset: 47262},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1459, col: 5, offset: 47156},
+										pos: position{line: 1463, col: 5, offset: 47427},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1459, col: 5, offset: 47156},
+											pos: position{line: 1463, col: 5, offset: 47427},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1459, col: 5, offset: 47156},
+													pos:   position{line: 1463, col: 5, offset: 47427},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1459, col: 12, offset: 47163},
+														pos: position{line: 1463, col: 12, offset: 47434},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1459, col: 12, offset: 47163},
+															pos: position{line: 1463, col: 12, offset: 47434},
 															expr: &charClassMatcher{
-																pos:        position{line: 1459, col: 12, offset: 47163},
+																pos:        position{line: 1463, col: 12, offset: 47434},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22429,7 +22429,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1462, col: 5, offset: 47247},
+													pos: position{line: 1466, col: 5, offset: 47518},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -22437,33 +22437,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1454, col: 43, offset: 47017},
+									pos:        position{line: 1458, col: 43, offset: 47288},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1454, col: 47, offset: 47021},
+									pos:   position{line: 1458, col: 47, offset: 47292},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1471, col: 23, offset: 47541},
+										pos: position{line: 1475, col: 23, offset: 47812},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1471, col: 23, offset: 47541},
+											pos: position{line: 1475, col: 23, offset: 47812},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1471, col: 23, offset: 47541},
+													pos:   position{line: 1475, col: 23, offset: 47812},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1471, col: 31, offset: 47549},
+														pos: position{line: 1475, col: 31, offset: 47820},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1471, col: 31, offset: 47549},
+															pos: position{line: 1475, col: 31, offset: 47820},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1471, col: 31, offset: 47549},
+																	pos: position{line: 1475, col: 31, offset: 47820},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1471, col: 31, offset: 47549},
+																		pos:        position{line: 1475, col: 31, offset: 47820},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -22471,20 +22471,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1471, col: 41, offset: 47559},
+																	pos: position{line: 1475, col: 41, offset: 47830},
 																	expr: &seqExpr{
-																		pos: position{line: 1471, col: 42, offset: 47560},
+																		pos: position{line: 1475, col: 42, offset: 47831},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1471, col: 42, offset: 47560},
+																				pos:        position{line: 1475, col: 42, offset: 47831},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1471, col: 46, offset: 47564},
+																				pos: position{line: 1475, col: 46, offset: 47835},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1471, col: 46, offset: 47564},
+																					pos:        position{line: 1475, col: 46, offset: 47835},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22500,7 +22500,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1474, col: 5, offset: 47625},
+													pos: position{line: 1478, col: 5, offset: 47896},
 													run: (*parser).callonLink145,
 												},
 											},
@@ -22515,68 +22515,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1431, col: 1, offset: 46146},
+			pos:  position{line: 1435, col: 1, offset: 46417},
 			expr: &choiceExpr{
-				pos: position{line: 1433, col: 5, offset: 46182},
+				pos: position{line: 1437, col: 5, offset: 46453},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1433, col: 5, offset: 46182},
+						pos: position{line: 1437, col: 5, offset: 46453},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1433, col: 5, offset: 46182},
+							pos: position{line: 1437, col: 5, offset: 46453},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1433, col: 5, offset: 46182},
+									pos:        position{line: 1437, col: 5, offset: 46453},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1433, col: 17, offset: 46194},
+									pos:   position{line: 1437, col: 17, offset: 46465},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2876, col: 13, offset: 90898},
+										pos: position{line: 2880, col: 13, offset: 91169},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2876, col: 13, offset: 90898},
+											pos: position{line: 2880, col: 13, offset: 91169},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2876, col: 13, offset: 90898},
+													pos:   position{line: 2880, col: 13, offset: 91169},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2876, col: 20, offset: 90905},
+														pos: position{line: 2880, col: 20, offset: 91176},
 														expr: &actionExpr{
-															pos: position{line: 2884, col: 11, offset: 91144},
+															pos: position{line: 2888, col: 11, offset: 91415},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2884, col: 12, offset: 91145},
+																pos: position{line: 2888, col: 12, offset: 91416},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 12, offset: 91145},
+																		pos:        position{line: 2888, col: 12, offset: 91416},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 24, offset: 91157},
+																		pos:        position{line: 2888, col: 24, offset: 91428},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 37, offset: 91170},
+																		pos:        position{line: 2888, col: 37, offset: 91441},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 48, offset: 91181},
+																		pos:        position{line: 2888, col: 48, offset: 91452},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 59, offset: 91192},
+																		pos:        position{line: 2888, col: 59, offset: 91463},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22587,38 +22587,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2876, col: 30, offset: 90915},
+													pos:   position{line: 2880, col: 30, offset: 91186},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2889, col: 5, offset: 91256},
+														pos: position{line: 2893, col: 5, offset: 91527},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2889, col: 5, offset: 91256},
+															pos:   position{line: 2893, col: 5, offset: 91527},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2889, col: 14, offset: 91265},
+																pos: position{line: 2893, col: 14, offset: 91536},
 																expr: &choiceExpr{
-																	pos: position{line: 2890, col: 9, offset: 91275},
+																	pos: position{line: 2894, col: 9, offset: 91546},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 9, offset: 91275},
+																			pos: position{line: 2894, col: 9, offset: 91546},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2890, col: 9, offset: 91275},
+																				pos: position{line: 2894, col: 9, offset: 91546},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2890, col: 9, offset: 91275},
+																						pos: position{line: 2894, col: 9, offset: 91546},
 																						expr: &litMatcher{
-																							pos:        position{line: 2890, col: 10, offset: 91276},
+																							pos:        position{line: 2894, col: 10, offset: 91547},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2891, col: 9, offset: 91304},
+																						pos: position{line: 2895, col: 9, offset: 91575},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2891, col: 10, offset: 91305},
+																							pos:        position{line: 2895, col: 10, offset: 91576},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22629,27 +22629,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2894, col: 11, offset: 91517},
+																			pos: position{line: 2898, col: 11, offset: 91788},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2894, col: 11, offset: 91517},
+																					pos:        position{line: 2898, col: 11, offset: 91788},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2894, col: 19, offset: 91525},
+																					pos: position{line: 2898, col: 19, offset: 91796},
 																					expr: &seqExpr{
-																						pos: position{line: 2894, col: 21, offset: 91527},
+																						pos: position{line: 2898, col: 21, offset: 91798},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2894, col: 21, offset: 91527},
+																								pos: position{line: 2898, col: 21, offset: 91798},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92139},
+																									pos: position{line: 2922, col: 10, offset: 92410},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92139},
+																										pos:        position{line: 2922, col: 10, offset: 92410},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22658,11 +22658,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 28, offset: 91534},
+																								pos: position{line: 2898, col: 28, offset: 91805},
 																								expr: &notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -22672,35 +22672,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 645, col: 5, offset: 20519},
+																			pos: position{line: 649, col: 5, offset: 20790},
 																			run: (*parser).callonRelativeLink38,
 																			expr: &seqExpr{
-																				pos: position{line: 645, col: 5, offset: 20519},
+																				pos: position{line: 649, col: 5, offset: 20790},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 645, col: 5, offset: 20519},
+																						pos: position{line: 649, col: 5, offset: 20790},
 																						run: (*parser).callonRelativeLink40,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 648, col: 5, offset: 20591},
+																						pos:   position{line: 652, col: 5, offset: 20862},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 648, col: 14, offset: 20600},
+																							pos: position{line: 652, col: 14, offset: 20871},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 654, col: 5, offset: 20729},
+																									pos: position{line: 658, col: 5, offset: 21000},
 																									run: (*parser).callonRelativeLink43,
 																									expr: &seqExpr{
-																										pos: position{line: 654, col: 5, offset: 20729},
+																										pos: position{line: 658, col: 5, offset: 21000},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 654, col: 5, offset: 20729},
+																												pos:        position{line: 658, col: 5, offset: 21000},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 654, col: 13, offset: 20737},
+																												pos:   position{line: 658, col: 13, offset: 21008},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22732,7 +22732,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 654, col: 32, offset: 20756},
+																												pos:        position{line: 658, col: 32, offset: 21027},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22741,19 +22741,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 661, col: 5, offset: 20997},
+																									pos: position{line: 665, col: 5, offset: 21268},
 																									run: (*parser).callonRelativeLink53,
 																									expr: &seqExpr{
-																										pos: position{line: 661, col: 5, offset: 20997},
+																										pos: position{line: 665, col: 5, offset: 21268},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 661, col: 5, offset: 20997},
+																												pos:        position{line: 665, col: 5, offset: 21268},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 9, offset: 21001},
+																												pos:   position{line: 665, col: 9, offset: 21272},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22785,7 +22785,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 661, col: 28, offset: 21020},
+																												pos:        position{line: 665, col: 28, offset: 21291},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22794,19 +22794,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 667, col: 25, offset: 21201},
+																									pos: position{line: 671, col: 25, offset: 21472},
 																									run: (*parser).callonRelativeLink63,
 																									expr: &seqExpr{
-																										pos: position{line: 667, col: 25, offset: 21201},
+																										pos: position{line: 671, col: 25, offset: 21472},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 667, col: 25, offset: 21201},
+																												pos:        position{line: 671, col: 25, offset: 21472},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 667, col: 37, offset: 21213},
+																												pos:   position{line: 671, col: 37, offset: 21484},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22838,33 +22838,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 667, col: 56, offset: 21232},
+																												pos:   position{line: 671, col: 56, offset: 21503},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 667, col: 62, offset: 21238},
+																													pos: position{line: 671, col: 62, offset: 21509},
 																													expr: &actionExpr{
-																														pos: position{line: 675, col: 17, offset: 21535},
+																														pos: position{line: 679, col: 17, offset: 21806},
 																														run: (*parser).callonRelativeLink74,
 																														expr: &seqExpr{
-																															pos: position{line: 675, col: 17, offset: 21535},
+																															pos: position{line: 679, col: 17, offset: 21806},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 675, col: 17, offset: 21535},
+																																	pos:        position{line: 679, col: 17, offset: 21806},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 675, col: 21, offset: 21539},
+																																	pos:   position{line: 679, col: 21, offset: 21810},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 675, col: 28, offset: 21546},
+																																		pos: position{line: 679, col: 28, offset: 21817},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 675, col: 28, offset: 21546},
+																																				pos: position{line: 679, col: 28, offset: 21817},
 																																				run: (*parser).callonRelativeLink79,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 675, col: 28, offset: 21546},
+																																					pos:        position{line: 679, col: 28, offset: 21817},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22872,12 +22872,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 677, col: 9, offset: 21600},
+																																				pos: position{line: 681, col: 9, offset: 21871},
 																																				run: (*parser).callonRelativeLink81,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 677, col: 9, offset: 21600},
+																																					pos: position{line: 681, col: 9, offset: 21871},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 677, col: 9, offset: 21600},
+																																						pos:        position{line: 681, col: 9, offset: 21871},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22894,7 +22894,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 667, col: 78, offset: 21254},
+																												pos:        position{line: 671, col: 78, offset: 21525},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22903,19 +22903,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 671, col: 25, offset: 21372},
+																									pos: position{line: 675, col: 25, offset: 21643},
 																									run: (*parser).callonRelativeLink85,
 																									expr: &seqExpr{
-																										pos: position{line: 671, col: 25, offset: 21372},
+																										pos: position{line: 675, col: 25, offset: 21643},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 671, col: 25, offset: 21372},
+																												pos:        position{line: 675, col: 25, offset: 21643},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 38, offset: 21385},
+																												pos:   position{line: 675, col: 38, offset: 21656},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22947,33 +22947,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 57, offset: 21404},
+																												pos:   position{line: 675, col: 57, offset: 21675},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 671, col: 63, offset: 21410},
+																													pos: position{line: 675, col: 63, offset: 21681},
 																													expr: &actionExpr{
-																														pos: position{line: 675, col: 17, offset: 21535},
+																														pos: position{line: 679, col: 17, offset: 21806},
 																														run: (*parser).callonRelativeLink96,
 																														expr: &seqExpr{
-																															pos: position{line: 675, col: 17, offset: 21535},
+																															pos: position{line: 679, col: 17, offset: 21806},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 675, col: 17, offset: 21535},
+																																	pos:        position{line: 679, col: 17, offset: 21806},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 675, col: 21, offset: 21539},
+																																	pos:   position{line: 679, col: 21, offset: 21810},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 675, col: 28, offset: 21546},
+																																		pos: position{line: 679, col: 28, offset: 21817},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 675, col: 28, offset: 21546},
+																																				pos: position{line: 679, col: 28, offset: 21817},
 																																				run: (*parser).callonRelativeLink101,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 675, col: 28, offset: 21546},
+																																					pos:        position{line: 679, col: 28, offset: 21817},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22981,12 +22981,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 677, col: 9, offset: 21600},
+																																				pos: position{line: 681, col: 9, offset: 21871},
 																																				run: (*parser).callonRelativeLink103,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 677, col: 9, offset: 21600},
+																																					pos: position{line: 681, col: 9, offset: 21871},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 677, col: 9, offset: 21600},
+																																						pos:        position{line: 681, col: 9, offset: 21871},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23003,7 +23003,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 671, col: 79, offset: 21426},
+																												pos:        position{line: 675, col: 79, offset: 21697},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23018,27 +23018,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1207, col: 23, offset: 37384},
+																			pos: position{line: 1211, col: 23, offset: 37655},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1207, col: 23, offset: 37384},
+																				pos: position{line: 1211, col: 23, offset: 37655},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1205, col: 32, offset: 37352},
+																						pos:        position{line: 1209, col: 32, offset: 37623},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1207, col: 51, offset: 37412},
+																						pos:   position{line: 1211, col: 51, offset: 37683},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1207, col: 56, offset: 37417},
+																							pos: position{line: 1211, col: 56, offset: 37688},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1207, col: 56, offset: 37417},
+																								pos: position{line: 1211, col: 56, offset: 37688},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1207, col: 56, offset: 37417},
+																									pos:        position{line: 1211, col: 56, offset: 37688},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23048,7 +23048,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1205, col: 32, offset: 37352},
+																						pos:        position{line: 1209, col: 32, offset: 37623},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23057,10 +23057,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2897, col: 11, offset: 91654},
+																			pos: position{line: 2901, col: 11, offset: 91925},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2897, col: 11, offset: 91654},
+																				pos:        position{line: 2901, col: 11, offset: 91925},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23077,10 +23077,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1433, col: 32, offset: 46209},
+									pos:   position{line: 1437, col: 32, offset: 46480},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1433, col: 44, offset: 46221},
+										pos:  position{line: 1437, col: 44, offset: 46492},
 										name: "InlineAttributes",
 									},
 								},
@@ -23088,63 +23088,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1438, col: 5, offset: 46353},
+						pos: position{line: 1442, col: 5, offset: 46624},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1438, col: 5, offset: 46353},
+							pos: position{line: 1442, col: 5, offset: 46624},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1438, col: 5, offset: 46353},
+									pos:        position{line: 1442, col: 5, offset: 46624},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1438, col: 13, offset: 46361},
+									pos:   position{line: 1442, col: 13, offset: 46632},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2876, col: 13, offset: 90898},
+										pos: position{line: 2880, col: 13, offset: 91169},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2876, col: 13, offset: 90898},
+											pos: position{line: 2880, col: 13, offset: 91169},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2876, col: 13, offset: 90898},
+													pos:   position{line: 2880, col: 13, offset: 91169},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2876, col: 20, offset: 90905},
+														pos: position{line: 2880, col: 20, offset: 91176},
 														expr: &actionExpr{
-															pos: position{line: 2884, col: 11, offset: 91144},
+															pos: position{line: 2888, col: 11, offset: 91415},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2884, col: 12, offset: 91145},
+																pos: position{line: 2888, col: 12, offset: 91416},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 12, offset: 91145},
+																		pos:        position{line: 2888, col: 12, offset: 91416},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 24, offset: 91157},
+																		pos:        position{line: 2888, col: 24, offset: 91428},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 37, offset: 91170},
+																		pos:        position{line: 2888, col: 37, offset: 91441},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 48, offset: 91181},
+																		pos:        position{line: 2888, col: 48, offset: 91452},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 59, offset: 91192},
+																		pos:        position{line: 2888, col: 59, offset: 91463},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23155,38 +23155,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2876, col: 30, offset: 90915},
+													pos:   position{line: 2880, col: 30, offset: 91186},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2889, col: 5, offset: 91256},
+														pos: position{line: 2893, col: 5, offset: 91527},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2889, col: 5, offset: 91256},
+															pos:   position{line: 2893, col: 5, offset: 91527},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2889, col: 14, offset: 91265},
+																pos: position{line: 2893, col: 14, offset: 91536},
 																expr: &choiceExpr{
-																	pos: position{line: 2890, col: 9, offset: 91275},
+																	pos: position{line: 2894, col: 9, offset: 91546},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 9, offset: 91275},
+																			pos: position{line: 2894, col: 9, offset: 91546},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2890, col: 9, offset: 91275},
+																				pos: position{line: 2894, col: 9, offset: 91546},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2890, col: 9, offset: 91275},
+																						pos: position{line: 2894, col: 9, offset: 91546},
 																						expr: &litMatcher{
-																							pos:        position{line: 2890, col: 10, offset: 91276},
+																							pos:        position{line: 2894, col: 10, offset: 91547},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2891, col: 9, offset: 91304},
+																						pos: position{line: 2895, col: 9, offset: 91575},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2891, col: 10, offset: 91305},
+																							pos:        position{line: 2895, col: 10, offset: 91576},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23197,27 +23197,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2894, col: 11, offset: 91517},
+																			pos: position{line: 2898, col: 11, offset: 91788},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2894, col: 11, offset: 91517},
+																					pos:        position{line: 2898, col: 11, offset: 91788},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2894, col: 19, offset: 91525},
+																					pos: position{line: 2898, col: 19, offset: 91796},
 																					expr: &seqExpr{
-																						pos: position{line: 2894, col: 21, offset: 91527},
+																						pos: position{line: 2898, col: 21, offset: 91798},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2894, col: 21, offset: 91527},
+																								pos: position{line: 2898, col: 21, offset: 91798},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92139},
+																									pos: position{line: 2922, col: 10, offset: 92410},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92139},
+																										pos:        position{line: 2922, col: 10, offset: 92410},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23226,11 +23226,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 28, offset: 91534},
+																								pos: position{line: 2898, col: 28, offset: 91805},
 																								expr: &notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -23240,35 +23240,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 645, col: 5, offset: 20519},
+																			pos: position{line: 649, col: 5, offset: 20790},
 																			run: (*parser).callonRelativeLink155,
 																			expr: &seqExpr{
-																				pos: position{line: 645, col: 5, offset: 20519},
+																				pos: position{line: 649, col: 5, offset: 20790},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 645, col: 5, offset: 20519},
+																						pos: position{line: 649, col: 5, offset: 20790},
 																						run: (*parser).callonRelativeLink157,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 648, col: 5, offset: 20591},
+																						pos:   position{line: 652, col: 5, offset: 20862},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 648, col: 14, offset: 20600},
+																							pos: position{line: 652, col: 14, offset: 20871},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 654, col: 5, offset: 20729},
+																									pos: position{line: 658, col: 5, offset: 21000},
 																									run: (*parser).callonRelativeLink160,
 																									expr: &seqExpr{
-																										pos: position{line: 654, col: 5, offset: 20729},
+																										pos: position{line: 658, col: 5, offset: 21000},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 654, col: 5, offset: 20729},
+																												pos:        position{line: 658, col: 5, offset: 21000},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 654, col: 13, offset: 20737},
+																												pos:   position{line: 658, col: 13, offset: 21008},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23300,7 +23300,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 654, col: 32, offset: 20756},
+																												pos:        position{line: 658, col: 32, offset: 21027},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23309,19 +23309,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 661, col: 5, offset: 20997},
+																									pos: position{line: 665, col: 5, offset: 21268},
 																									run: (*parser).callonRelativeLink170,
 																									expr: &seqExpr{
-																										pos: position{line: 661, col: 5, offset: 20997},
+																										pos: position{line: 665, col: 5, offset: 21268},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 661, col: 5, offset: 20997},
+																												pos:        position{line: 665, col: 5, offset: 21268},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 9, offset: 21001},
+																												pos:   position{line: 665, col: 9, offset: 21272},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23353,7 +23353,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 661, col: 28, offset: 21020},
+																												pos:        position{line: 665, col: 28, offset: 21291},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23362,19 +23362,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 667, col: 25, offset: 21201},
+																									pos: position{line: 671, col: 25, offset: 21472},
 																									run: (*parser).callonRelativeLink180,
 																									expr: &seqExpr{
-																										pos: position{line: 667, col: 25, offset: 21201},
+																										pos: position{line: 671, col: 25, offset: 21472},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 667, col: 25, offset: 21201},
+																												pos:        position{line: 671, col: 25, offset: 21472},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 667, col: 37, offset: 21213},
+																												pos:   position{line: 671, col: 37, offset: 21484},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23406,33 +23406,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 667, col: 56, offset: 21232},
+																												pos:   position{line: 671, col: 56, offset: 21503},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 667, col: 62, offset: 21238},
+																													pos: position{line: 671, col: 62, offset: 21509},
 																													expr: &actionExpr{
-																														pos: position{line: 675, col: 17, offset: 21535},
+																														pos: position{line: 679, col: 17, offset: 21806},
 																														run: (*parser).callonRelativeLink191,
 																														expr: &seqExpr{
-																															pos: position{line: 675, col: 17, offset: 21535},
+																															pos: position{line: 679, col: 17, offset: 21806},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 675, col: 17, offset: 21535},
+																																	pos:        position{line: 679, col: 17, offset: 21806},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 675, col: 21, offset: 21539},
+																																	pos:   position{line: 679, col: 21, offset: 21810},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 675, col: 28, offset: 21546},
+																																		pos: position{line: 679, col: 28, offset: 21817},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 675, col: 28, offset: 21546},
+																																				pos: position{line: 679, col: 28, offset: 21817},
 																																				run: (*parser).callonRelativeLink196,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 675, col: 28, offset: 21546},
+																																					pos:        position{line: 679, col: 28, offset: 21817},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23440,12 +23440,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 677, col: 9, offset: 21600},
+																																				pos: position{line: 681, col: 9, offset: 21871},
 																																				run: (*parser).callonRelativeLink198,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 677, col: 9, offset: 21600},
+																																					pos: position{line: 681, col: 9, offset: 21871},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 677, col: 9, offset: 21600},
+																																						pos:        position{line: 681, col: 9, offset: 21871},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23462,7 +23462,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 667, col: 78, offset: 21254},
+																												pos:        position{line: 671, col: 78, offset: 21525},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23471,19 +23471,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 671, col: 25, offset: 21372},
+																									pos: position{line: 675, col: 25, offset: 21643},
 																									run: (*parser).callonRelativeLink202,
 																									expr: &seqExpr{
-																										pos: position{line: 671, col: 25, offset: 21372},
+																										pos: position{line: 675, col: 25, offset: 21643},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 671, col: 25, offset: 21372},
+																												pos:        position{line: 675, col: 25, offset: 21643},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 38, offset: 21385},
+																												pos:   position{line: 675, col: 38, offset: 21656},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23515,33 +23515,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 57, offset: 21404},
+																												pos:   position{line: 675, col: 57, offset: 21675},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 671, col: 63, offset: 21410},
+																													pos: position{line: 675, col: 63, offset: 21681},
 																													expr: &actionExpr{
-																														pos: position{line: 675, col: 17, offset: 21535},
+																														pos: position{line: 679, col: 17, offset: 21806},
 																														run: (*parser).callonRelativeLink213,
 																														expr: &seqExpr{
-																															pos: position{line: 675, col: 17, offset: 21535},
+																															pos: position{line: 679, col: 17, offset: 21806},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 675, col: 17, offset: 21535},
+																																	pos:        position{line: 679, col: 17, offset: 21806},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 675, col: 21, offset: 21539},
+																																	pos:   position{line: 679, col: 21, offset: 21810},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 675, col: 28, offset: 21546},
+																																		pos: position{line: 679, col: 28, offset: 21817},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 675, col: 28, offset: 21546},
+																																				pos: position{line: 679, col: 28, offset: 21817},
 																																				run: (*parser).callonRelativeLink218,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 675, col: 28, offset: 21546},
+																																					pos:        position{line: 679, col: 28, offset: 21817},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23549,12 +23549,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 677, col: 9, offset: 21600},
+																																				pos: position{line: 681, col: 9, offset: 21871},
 																																				run: (*parser).callonRelativeLink220,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 677, col: 9, offset: 21600},
+																																					pos: position{line: 681, col: 9, offset: 21871},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 677, col: 9, offset: 21600},
+																																						pos:        position{line: 681, col: 9, offset: 21871},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23571,7 +23571,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 671, col: 79, offset: 21426},
+																												pos:        position{line: 675, col: 79, offset: 21697},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23586,27 +23586,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1207, col: 23, offset: 37384},
+																			pos: position{line: 1211, col: 23, offset: 37655},
 																			run: (*parser).callonRelativeLink224,
 																			expr: &seqExpr{
-																				pos: position{line: 1207, col: 23, offset: 37384},
+																				pos: position{line: 1211, col: 23, offset: 37655},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1205, col: 32, offset: 37352},
+																						pos:        position{line: 1209, col: 32, offset: 37623},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1207, col: 51, offset: 37412},
+																						pos:   position{line: 1211, col: 51, offset: 37683},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1207, col: 56, offset: 37417},
+																							pos: position{line: 1211, col: 56, offset: 37688},
 																							run: (*parser).callonRelativeLink228,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1207, col: 56, offset: 37417},
+																								pos: position{line: 1211, col: 56, offset: 37688},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1207, col: 56, offset: 37417},
+																									pos:        position{line: 1211, col: 56, offset: 37688},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23616,7 +23616,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1205, col: 32, offset: 37352},
+																						pos:        position{line: 1209, col: 32, offset: 37623},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23625,10 +23625,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2897, col: 11, offset: 91654},
+																			pos: position{line: 2901, col: 11, offset: 91925},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2897, col: 11, offset: 91654},
+																				pos:        position{line: 2901, col: 11, offset: 91925},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23645,10 +23645,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1438, col: 28, offset: 46376},
+									pos:   position{line: 1442, col: 28, offset: 46647},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1438, col: 40, offset: 46388},
+										pos:  position{line: 1442, col: 40, offset: 46659},
 										name: "InlineAttributes",
 									},
 								},
@@ -23660,75 +23660,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1442, col: 1, offset: 46504},
+			pos:  position{line: 1446, col: 1, offset: 46775},
 			expr: &choiceExpr{
-				pos: position{line: 1445, col: 5, offset: 46666},
+				pos: position{line: 1449, col: 5, offset: 46937},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1445, col: 5, offset: 46666},
+						pos: position{line: 1449, col: 5, offset: 46937},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1445, col: 5, offset: 46666},
+							pos: position{line: 1449, col: 5, offset: 46937},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1445, col: 5, offset: 46666},
+									pos:        position{line: 1449, col: 5, offset: 46937},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1445, col: 9, offset: 46670},
+									pos:   position{line: 1449, col: 9, offset: 46941},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2880, col: 23, offset: 91025},
+										pos: position{line: 2884, col: 23, offset: 91296},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2880, col: 23, offset: 91025},
+											pos: position{line: 2884, col: 23, offset: 91296},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2880, col: 23, offset: 91025},
+													pos: position{line: 2884, col: 23, offset: 91296},
 													expr: &litMatcher{
-														pos:        position{line: 2880, col: 24, offset: 91026},
+														pos:        position{line: 2884, col: 24, offset: 91297},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2880, col: 28, offset: 91030},
+													pos:   position{line: 2884, col: 28, offset: 91301},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2884, col: 11, offset: 91144},
+														pos: position{line: 2888, col: 11, offset: 91415},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2884, col: 12, offset: 91145},
+															pos: position{line: 2888, col: 12, offset: 91416},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2884, col: 12, offset: 91145},
+																	pos:        position{line: 2888, col: 12, offset: 91416},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2884, col: 24, offset: 91157},
+																	pos:        position{line: 2888, col: 24, offset: 91428},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2884, col: 37, offset: 91170},
+																	pos:        position{line: 2888, col: 37, offset: 91441},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2884, col: 48, offset: 91181},
+																	pos:        position{line: 2888, col: 48, offset: 91452},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2884, col: 59, offset: 91192},
+																	pos:        position{line: 2888, col: 59, offset: 91463},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23738,38 +23738,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2880, col: 44, offset: 91046},
+													pos:   position{line: 2884, col: 44, offset: 91317},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2889, col: 5, offset: 91256},
+														pos: position{line: 2893, col: 5, offset: 91527},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2889, col: 5, offset: 91256},
+															pos:   position{line: 2893, col: 5, offset: 91527},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2889, col: 14, offset: 91265},
+																pos: position{line: 2893, col: 14, offset: 91536},
 																expr: &choiceExpr{
-																	pos: position{line: 2890, col: 9, offset: 91275},
+																	pos: position{line: 2894, col: 9, offset: 91546},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 9, offset: 91275},
+																			pos: position{line: 2894, col: 9, offset: 91546},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2890, col: 9, offset: 91275},
+																				pos: position{line: 2894, col: 9, offset: 91546},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2890, col: 9, offset: 91275},
+																						pos: position{line: 2894, col: 9, offset: 91546},
 																						expr: &litMatcher{
-																							pos:        position{line: 2890, col: 10, offset: 91276},
+																							pos:        position{line: 2894, col: 10, offset: 91547},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2891, col: 9, offset: 91304},
+																						pos: position{line: 2895, col: 9, offset: 91575},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2891, col: 10, offset: 91305},
+																							pos:        position{line: 2895, col: 10, offset: 91576},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23780,27 +23780,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2894, col: 11, offset: 91517},
+																			pos: position{line: 2898, col: 11, offset: 91788},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2894, col: 11, offset: 91517},
+																					pos:        position{line: 2898, col: 11, offset: 91788},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2894, col: 19, offset: 91525},
+																					pos: position{line: 2898, col: 19, offset: 91796},
 																					expr: &seqExpr{
-																						pos: position{line: 2894, col: 21, offset: 91527},
+																						pos: position{line: 2898, col: 21, offset: 91798},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2894, col: 21, offset: 91527},
+																								pos: position{line: 2898, col: 21, offset: 91798},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92139},
+																									pos: position{line: 2922, col: 10, offset: 92410},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92139},
+																										pos:        position{line: 2922, col: 10, offset: 92410},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23809,11 +23809,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 28, offset: 91534},
+																								pos: position{line: 2898, col: 28, offset: 91805},
 																								expr: &notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -23823,35 +23823,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 645, col: 5, offset: 20519},
+																			pos: position{line: 649, col: 5, offset: 20790},
 																			run: (*parser).callonExternalLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 645, col: 5, offset: 20519},
+																				pos: position{line: 649, col: 5, offset: 20790},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 645, col: 5, offset: 20519},
+																						pos: position{line: 649, col: 5, offset: 20790},
 																						run: (*parser).callonExternalLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 648, col: 5, offset: 20591},
+																						pos:   position{line: 652, col: 5, offset: 20862},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 648, col: 14, offset: 20600},
+																							pos: position{line: 652, col: 14, offset: 20871},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 654, col: 5, offset: 20729},
+																									pos: position{line: 658, col: 5, offset: 21000},
 																									run: (*parser).callonExternalLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 654, col: 5, offset: 20729},
+																										pos: position{line: 658, col: 5, offset: 21000},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 654, col: 5, offset: 20729},
+																												pos:        position{line: 658, col: 5, offset: 21000},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 654, col: 13, offset: 20737},
+																												pos:   position{line: 658, col: 13, offset: 21008},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23883,7 +23883,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 654, col: 32, offset: 20756},
+																												pos:        position{line: 658, col: 32, offset: 21027},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23892,19 +23892,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 661, col: 5, offset: 20997},
+																									pos: position{line: 665, col: 5, offset: 21268},
 																									run: (*parser).callonExternalLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 661, col: 5, offset: 20997},
+																										pos: position{line: 665, col: 5, offset: 21268},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 661, col: 5, offset: 20997},
+																												pos:        position{line: 665, col: 5, offset: 21268},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 9, offset: 21001},
+																												pos:   position{line: 665, col: 9, offset: 21272},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23936,7 +23936,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 661, col: 28, offset: 21020},
+																												pos:        position{line: 665, col: 28, offset: 21291},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23945,19 +23945,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 667, col: 25, offset: 21201},
+																									pos: position{line: 671, col: 25, offset: 21472},
 																									run: (*parser).callonExternalLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 667, col: 25, offset: 21201},
+																										pos: position{line: 671, col: 25, offset: 21472},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 667, col: 25, offset: 21201},
+																												pos:        position{line: 671, col: 25, offset: 21472},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 667, col: 37, offset: 21213},
+																												pos:   position{line: 671, col: 37, offset: 21484},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23989,33 +23989,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 667, col: 56, offset: 21232},
+																												pos:   position{line: 671, col: 56, offset: 21503},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 667, col: 62, offset: 21238},
+																													pos: position{line: 671, col: 62, offset: 21509},
 																													expr: &actionExpr{
-																														pos: position{line: 675, col: 17, offset: 21535},
+																														pos: position{line: 679, col: 17, offset: 21806},
 																														run: (*parser).callonExternalLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 675, col: 17, offset: 21535},
+																															pos: position{line: 679, col: 17, offset: 21806},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 675, col: 17, offset: 21535},
+																																	pos:        position{line: 679, col: 17, offset: 21806},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 675, col: 21, offset: 21539},
+																																	pos:   position{line: 679, col: 21, offset: 21810},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 675, col: 28, offset: 21546},
+																																		pos: position{line: 679, col: 28, offset: 21817},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 675, col: 28, offset: 21546},
+																																				pos: position{line: 679, col: 28, offset: 21817},
 																																				run: (*parser).callonExternalLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 675, col: 28, offset: 21546},
+																																					pos:        position{line: 679, col: 28, offset: 21817},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24023,12 +24023,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 677, col: 9, offset: 21600},
+																																				pos: position{line: 681, col: 9, offset: 21871},
 																																				run: (*parser).callonExternalLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 677, col: 9, offset: 21600},
+																																					pos: position{line: 681, col: 9, offset: 21871},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 677, col: 9, offset: 21600},
+																																						pos:        position{line: 681, col: 9, offset: 21871},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24045,7 +24045,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 667, col: 78, offset: 21254},
+																												pos:        position{line: 671, col: 78, offset: 21525},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24054,19 +24054,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 671, col: 25, offset: 21372},
+																									pos: position{line: 675, col: 25, offset: 21643},
 																									run: (*parser).callonExternalLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 671, col: 25, offset: 21372},
+																										pos: position{line: 675, col: 25, offset: 21643},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 671, col: 25, offset: 21372},
+																												pos:        position{line: 675, col: 25, offset: 21643},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 38, offset: 21385},
+																												pos:   position{line: 675, col: 38, offset: 21656},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24098,33 +24098,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 57, offset: 21404},
+																												pos:   position{line: 675, col: 57, offset: 21675},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 671, col: 63, offset: 21410},
+																													pos: position{line: 675, col: 63, offset: 21681},
 																													expr: &actionExpr{
-																														pos: position{line: 675, col: 17, offset: 21535},
+																														pos: position{line: 679, col: 17, offset: 21806},
 																														run: (*parser).callonExternalLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 675, col: 17, offset: 21535},
+																															pos: position{line: 679, col: 17, offset: 21806},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 675, col: 17, offset: 21535},
+																																	pos:        position{line: 679, col: 17, offset: 21806},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 675, col: 21, offset: 21539},
+																																	pos:   position{line: 679, col: 21, offset: 21810},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 675, col: 28, offset: 21546},
+																																		pos: position{line: 679, col: 28, offset: 21817},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 675, col: 28, offset: 21546},
+																																				pos: position{line: 679, col: 28, offset: 21817},
 																																				run: (*parser).callonExternalLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 675, col: 28, offset: 21546},
+																																					pos:        position{line: 679, col: 28, offset: 21817},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24132,12 +24132,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 677, col: 9, offset: 21600},
+																																				pos: position{line: 681, col: 9, offset: 21871},
 																																				run: (*parser).callonExternalLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 677, col: 9, offset: 21600},
+																																					pos: position{line: 681, col: 9, offset: 21871},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 677, col: 9, offset: 21600},
+																																						pos:        position{line: 681, col: 9, offset: 21871},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24154,7 +24154,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 671, col: 79, offset: 21426},
+																												pos:        position{line: 675, col: 79, offset: 21697},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24169,27 +24169,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1207, col: 23, offset: 37384},
+																			pos: position{line: 1211, col: 23, offset: 37655},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1207, col: 23, offset: 37384},
+																				pos: position{line: 1211, col: 23, offset: 37655},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1205, col: 32, offset: 37352},
+																						pos:        position{line: 1209, col: 32, offset: 37623},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1207, col: 51, offset: 37412},
+																						pos:   position{line: 1211, col: 51, offset: 37683},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1207, col: 56, offset: 37417},
+																							pos: position{line: 1211, col: 56, offset: 37688},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1207, col: 56, offset: 37417},
+																								pos: position{line: 1211, col: 56, offset: 37688},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1207, col: 56, offset: 37417},
+																									pos:        position{line: 1211, col: 56, offset: 37688},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24199,7 +24199,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1205, col: 32, offset: 37352},
+																						pos:        position{line: 1209, col: 32, offset: 37623},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24208,10 +24208,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2897, col: 11, offset: 91654},
+																			pos: position{line: 2901, col: 11, offset: 91925},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2897, col: 11, offset: 91654},
+																				pos:        position{line: 2901, col: 11, offset: 91925},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24228,12 +24228,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1445, col: 34, offset: 46695},
+									pos:   position{line: 1449, col: 34, offset: 46966},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1445, col: 45, offset: 46706},
+										pos: position{line: 1449, col: 45, offset: 46977},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1445, col: 46, offset: 46707},
+											pos:  position{line: 1449, col: 46, offset: 46978},
 											name: "InlineAttributes",
 										},
 									},
@@ -24242,64 +24242,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1450, col: 5, offset: 46840},
+						pos: position{line: 1454, col: 5, offset: 47111},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1450, col: 5, offset: 46840},
+							pos: position{line: 1454, col: 5, offset: 47111},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1450, col: 5, offset: 46840},
+									pos:   position{line: 1454, col: 5, offset: 47111},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2880, col: 23, offset: 91025},
+										pos: position{line: 2884, col: 23, offset: 91296},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2880, col: 23, offset: 91025},
+											pos: position{line: 2884, col: 23, offset: 91296},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2880, col: 23, offset: 91025},
+													pos: position{line: 2884, col: 23, offset: 91296},
 													expr: &litMatcher{
-														pos:        position{line: 2880, col: 24, offset: 91026},
+														pos:        position{line: 2884, col: 24, offset: 91297},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2880, col: 28, offset: 91030},
+													pos:   position{line: 2884, col: 28, offset: 91301},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2884, col: 11, offset: 91144},
+														pos: position{line: 2888, col: 11, offset: 91415},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2884, col: 12, offset: 91145},
+															pos: position{line: 2888, col: 12, offset: 91416},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2884, col: 12, offset: 91145},
+																	pos:        position{line: 2888, col: 12, offset: 91416},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2884, col: 24, offset: 91157},
+																	pos:        position{line: 2888, col: 24, offset: 91428},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2884, col: 37, offset: 91170},
+																	pos:        position{line: 2888, col: 37, offset: 91441},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2884, col: 48, offset: 91181},
+																	pos:        position{line: 2888, col: 48, offset: 91452},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2884, col: 59, offset: 91192},
+																	pos:        position{line: 2888, col: 59, offset: 91463},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24309,38 +24309,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2880, col: 44, offset: 91046},
+													pos:   position{line: 2884, col: 44, offset: 91317},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2889, col: 5, offset: 91256},
+														pos: position{line: 2893, col: 5, offset: 91527},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2889, col: 5, offset: 91256},
+															pos:   position{line: 2893, col: 5, offset: 91527},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2889, col: 14, offset: 91265},
+																pos: position{line: 2893, col: 14, offset: 91536},
 																expr: &choiceExpr{
-																	pos: position{line: 2890, col: 9, offset: 91275},
+																	pos: position{line: 2894, col: 9, offset: 91546},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 9, offset: 91275},
+																			pos: position{line: 2894, col: 9, offset: 91546},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2890, col: 9, offset: 91275},
+																				pos: position{line: 2894, col: 9, offset: 91546},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2890, col: 9, offset: 91275},
+																						pos: position{line: 2894, col: 9, offset: 91546},
 																						expr: &litMatcher{
-																							pos:        position{line: 2890, col: 10, offset: 91276},
+																							pos:        position{line: 2894, col: 10, offset: 91547},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2891, col: 9, offset: 91304},
+																						pos: position{line: 2895, col: 9, offset: 91575},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2891, col: 10, offset: 91305},
+																							pos:        position{line: 2895, col: 10, offset: 91576},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24351,27 +24351,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2894, col: 11, offset: 91517},
+																			pos: position{line: 2898, col: 11, offset: 91788},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2894, col: 11, offset: 91517},
+																					pos:        position{line: 2898, col: 11, offset: 91788},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2894, col: 19, offset: 91525},
+																					pos: position{line: 2898, col: 19, offset: 91796},
 																					expr: &seqExpr{
-																						pos: position{line: 2894, col: 21, offset: 91527},
+																						pos: position{line: 2898, col: 21, offset: 91798},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2894, col: 21, offset: 91527},
+																								pos: position{line: 2898, col: 21, offset: 91798},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92139},
+																									pos: position{line: 2922, col: 10, offset: 92410},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92139},
+																										pos:        position{line: 2922, col: 10, offset: 92410},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24380,11 +24380,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 28, offset: 91534},
+																								pos: position{line: 2898, col: 28, offset: 91805},
 																								expr: &notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -24394,35 +24394,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 645, col: 5, offset: 20519},
+																			pos: position{line: 649, col: 5, offset: 20790},
 																			run: (*parser).callonExternalLink157,
 																			expr: &seqExpr{
-																				pos: position{line: 645, col: 5, offset: 20519},
+																				pos: position{line: 649, col: 5, offset: 20790},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 645, col: 5, offset: 20519},
+																						pos: position{line: 649, col: 5, offset: 20790},
 																						run: (*parser).callonExternalLink159,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 648, col: 5, offset: 20591},
+																						pos:   position{line: 652, col: 5, offset: 20862},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 648, col: 14, offset: 20600},
+																							pos: position{line: 652, col: 14, offset: 20871},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 654, col: 5, offset: 20729},
+																									pos: position{line: 658, col: 5, offset: 21000},
 																									run: (*parser).callonExternalLink162,
 																									expr: &seqExpr{
-																										pos: position{line: 654, col: 5, offset: 20729},
+																										pos: position{line: 658, col: 5, offset: 21000},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 654, col: 5, offset: 20729},
+																												pos:        position{line: 658, col: 5, offset: 21000},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 654, col: 13, offset: 20737},
+																												pos:   position{line: 658, col: 13, offset: 21008},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24454,7 +24454,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 654, col: 32, offset: 20756},
+																												pos:        position{line: 658, col: 32, offset: 21027},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24463,19 +24463,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 661, col: 5, offset: 20997},
+																									pos: position{line: 665, col: 5, offset: 21268},
 																									run: (*parser).callonExternalLink172,
 																									expr: &seqExpr{
-																										pos: position{line: 661, col: 5, offset: 20997},
+																										pos: position{line: 665, col: 5, offset: 21268},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 661, col: 5, offset: 20997},
+																												pos:        position{line: 665, col: 5, offset: 21268},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 9, offset: 21001},
+																												pos:   position{line: 665, col: 9, offset: 21272},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24507,7 +24507,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 661, col: 28, offset: 21020},
+																												pos:        position{line: 665, col: 28, offset: 21291},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24516,19 +24516,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 667, col: 25, offset: 21201},
+																									pos: position{line: 671, col: 25, offset: 21472},
 																									run: (*parser).callonExternalLink182,
 																									expr: &seqExpr{
-																										pos: position{line: 667, col: 25, offset: 21201},
+																										pos: position{line: 671, col: 25, offset: 21472},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 667, col: 25, offset: 21201},
+																												pos:        position{line: 671, col: 25, offset: 21472},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 667, col: 37, offset: 21213},
+																												pos:   position{line: 671, col: 37, offset: 21484},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24560,33 +24560,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 667, col: 56, offset: 21232},
+																												pos:   position{line: 671, col: 56, offset: 21503},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 667, col: 62, offset: 21238},
+																													pos: position{line: 671, col: 62, offset: 21509},
 																													expr: &actionExpr{
-																														pos: position{line: 675, col: 17, offset: 21535},
+																														pos: position{line: 679, col: 17, offset: 21806},
 																														run: (*parser).callonExternalLink193,
 																														expr: &seqExpr{
-																															pos: position{line: 675, col: 17, offset: 21535},
+																															pos: position{line: 679, col: 17, offset: 21806},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 675, col: 17, offset: 21535},
+																																	pos:        position{line: 679, col: 17, offset: 21806},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 675, col: 21, offset: 21539},
+																																	pos:   position{line: 679, col: 21, offset: 21810},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 675, col: 28, offset: 21546},
+																																		pos: position{line: 679, col: 28, offset: 21817},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 675, col: 28, offset: 21546},
+																																				pos: position{line: 679, col: 28, offset: 21817},
 																																				run: (*parser).callonExternalLink198,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 675, col: 28, offset: 21546},
+																																					pos:        position{line: 679, col: 28, offset: 21817},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24594,12 +24594,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 677, col: 9, offset: 21600},
+																																				pos: position{line: 681, col: 9, offset: 21871},
 																																				run: (*parser).callonExternalLink200,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 677, col: 9, offset: 21600},
+																																					pos: position{line: 681, col: 9, offset: 21871},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 677, col: 9, offset: 21600},
+																																						pos:        position{line: 681, col: 9, offset: 21871},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24616,7 +24616,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 667, col: 78, offset: 21254},
+																												pos:        position{line: 671, col: 78, offset: 21525},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24625,19 +24625,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 671, col: 25, offset: 21372},
+																									pos: position{line: 675, col: 25, offset: 21643},
 																									run: (*parser).callonExternalLink204,
 																									expr: &seqExpr{
-																										pos: position{line: 671, col: 25, offset: 21372},
+																										pos: position{line: 675, col: 25, offset: 21643},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 671, col: 25, offset: 21372},
+																												pos:        position{line: 675, col: 25, offset: 21643},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 38, offset: 21385},
+																												pos:   position{line: 675, col: 38, offset: 21656},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24669,33 +24669,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 57, offset: 21404},
+																												pos:   position{line: 675, col: 57, offset: 21675},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 671, col: 63, offset: 21410},
+																													pos: position{line: 675, col: 63, offset: 21681},
 																													expr: &actionExpr{
-																														pos: position{line: 675, col: 17, offset: 21535},
+																														pos: position{line: 679, col: 17, offset: 21806},
 																														run: (*parser).callonExternalLink215,
 																														expr: &seqExpr{
-																															pos: position{line: 675, col: 17, offset: 21535},
+																															pos: position{line: 679, col: 17, offset: 21806},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 675, col: 17, offset: 21535},
+																																	pos:        position{line: 679, col: 17, offset: 21806},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 675, col: 21, offset: 21539},
+																																	pos:   position{line: 679, col: 21, offset: 21810},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 675, col: 28, offset: 21546},
+																																		pos: position{line: 679, col: 28, offset: 21817},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 675, col: 28, offset: 21546},
+																																				pos: position{line: 679, col: 28, offset: 21817},
 																																				run: (*parser).callonExternalLink220,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 675, col: 28, offset: 21546},
+																																					pos:        position{line: 679, col: 28, offset: 21817},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24703,12 +24703,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 677, col: 9, offset: 21600},
+																																				pos: position{line: 681, col: 9, offset: 21871},
 																																				run: (*parser).callonExternalLink222,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 677, col: 9, offset: 21600},
+																																					pos: position{line: 681, col: 9, offset: 21871},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 677, col: 9, offset: 21600},
+																																						pos:        position{line: 681, col: 9, offset: 21871},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24725,7 +24725,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 671, col: 79, offset: 21426},
+																												pos:        position{line: 675, col: 79, offset: 21697},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24740,27 +24740,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1207, col: 23, offset: 37384},
+																			pos: position{line: 1211, col: 23, offset: 37655},
 																			run: (*parser).callonExternalLink226,
 																			expr: &seqExpr{
-																				pos: position{line: 1207, col: 23, offset: 37384},
+																				pos: position{line: 1211, col: 23, offset: 37655},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1205, col: 32, offset: 37352},
+																						pos:        position{line: 1209, col: 32, offset: 37623},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1207, col: 51, offset: 37412},
+																						pos:   position{line: 1211, col: 51, offset: 37683},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1207, col: 56, offset: 37417},
+																							pos: position{line: 1211, col: 56, offset: 37688},
 																							run: (*parser).callonExternalLink230,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1207, col: 56, offset: 37417},
+																								pos: position{line: 1211, col: 56, offset: 37688},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1207, col: 56, offset: 37417},
+																									pos:        position{line: 1211, col: 56, offset: 37688},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24770,7 +24770,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1205, col: 32, offset: 37352},
+																						pos:        position{line: 1209, col: 32, offset: 37623},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24779,10 +24779,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2897, col: 11, offset: 91654},
+																			pos: position{line: 2901, col: 11, offset: 91925},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2897, col: 11, offset: 91654},
+																				pos:        position{line: 2901, col: 11, offset: 91925},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24799,12 +24799,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1450, col: 30, offset: 46865},
+									pos:   position{line: 1454, col: 30, offset: 47136},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1450, col: 41, offset: 46876},
+										pos: position{line: 1454, col: 41, offset: 47147},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1450, col: 42, offset: 46877},
+											pos:  position{line: 1454, col: 42, offset: 47148},
 											name: "InlineAttributes",
 										},
 									},
@@ -24817,41 +24817,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1484, col: 1, offset: 48018},
+			pos:  position{line: 1488, col: 1, offset: 48289},
 			expr: &actionExpr{
-				pos: position{line: 1485, col: 5, offset: 48039},
+				pos: position{line: 1489, col: 5, offset: 48310},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1485, col: 5, offset: 48039},
+					pos: position{line: 1489, col: 5, offset: 48310},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1485, col: 5, offset: 48039},
+							pos:   position{line: 1489, col: 5, offset: 48310},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1491, col: 5, offset: 48241},
+								pos: position{line: 1495, col: 5, offset: 48512},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1585, col: 5, offset: 51209},
+										pos: position{line: 1589, col: 5, offset: 51480},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1585, col: 5, offset: 51209},
+											pos: position{line: 1589, col: 5, offset: 51480},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1585, col: 5, offset: 51209},
+													pos:   position{line: 1589, col: 5, offset: 51480},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1592, col: 5, offset: 51417},
+														pos: position{line: 1596, col: 5, offset: 51688},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1592, col: 5, offset: 51417},
+															pos: position{line: 1596, col: 5, offset: 51688},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1592, col: 5, offset: 51417},
+																	pos: position{line: 1596, col: 5, offset: 51688},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92139},
+																		pos: position{line: 2922, col: 10, offset: 92410},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92139},
+																			pos:        position{line: 2922, col: 10, offset: 92410},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24860,27 +24860,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1592, col: 12, offset: 51424},
+																	pos:   position{line: 1596, col: 12, offset: 51695},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1594, col: 9, offset: 51487},
+																		pos: position{line: 1598, col: 9, offset: 51758},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1594, col: 9, offset: 51487},
+																				pos: position{line: 1598, col: 9, offset: 51758},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1594, col: 9, offset: 51487},
+																					pos: position{line: 1598, col: 9, offset: 51758},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1594, col: 9, offset: 51487},
+																							pos:   position{line: 1598, col: 9, offset: 51758},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1594, col: 16, offset: 51494},
+																								pos: position{line: 1598, col: 16, offset: 51765},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1594, col: 16, offset: 51494},
+																									pos: position{line: 1598, col: 16, offset: 51765},
 																									expr: &litMatcher{
-																										pos:        position{line: 1594, col: 17, offset: 51495},
+																										pos:        position{line: 1598, col: 17, offset: 51766},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24889,22 +24889,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1598, col: 9, offset: 51595},
+																							pos: position{line: 1602, col: 9, offset: 51866},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1617, col: 11, offset: 52312},
+																				pos: position{line: 1621, col: 11, offset: 52583},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 11, offset: 52312},
+																					pos: position{line: 1621, col: 11, offset: 52583},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1617, col: 11, offset: 52312},
+																							pos: position{line: 1621, col: 11, offset: 52583},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1617, col: 12, offset: 52313},
+																								pos:        position{line: 1621, col: 12, offset: 52584},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24912,7 +24912,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1617, col: 20, offset: 52321},
+																							pos:        position{line: 1621, col: 20, offset: 52592},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24921,20 +24921,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1619, col: 13, offset: 52438},
+																				pos: position{line: 1623, col: 13, offset: 52709},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1619, col: 13, offset: 52438},
+																					pos: position{line: 1623, col: 13, offset: 52709},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1619, col: 14, offset: 52439},
+																							pos:        position{line: 1623, col: 14, offset: 52710},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1619, col: 21, offset: 52446},
+																							pos:        position{line: 1623, col: 21, offset: 52717},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24943,20 +24943,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 13, offset: 52566},
+																				pos: position{line: 1625, col: 13, offset: 52837},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 13, offset: 52566},
+																					pos: position{line: 1625, col: 13, offset: 52837},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1621, col: 14, offset: 52567},
+																							pos:        position{line: 1625, col: 14, offset: 52838},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 21, offset: 52574},
+																							pos:        position{line: 1625, col: 21, offset: 52845},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24965,15 +24965,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1623, col: 13, offset: 52694},
+																				pos: position{line: 1627, col: 13, offset: 52965},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1623, col: 13, offset: 52694},
+																					pos: position{line: 1627, col: 13, offset: 52965},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1623, col: 13, offset: 52694},
+																							pos: position{line: 1627, col: 13, offset: 52965},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1623, col: 14, offset: 52695},
+																								pos:        position{line: 1627, col: 14, offset: 52966},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -24981,7 +24981,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1623, col: 26, offset: 52707},
+																							pos:        position{line: 1627, col: 26, offset: 52978},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24990,15 +24990,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1625, col: 13, offset: 52827},
+																				pos: position{line: 1629, col: 13, offset: 53098},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1625, col: 13, offset: 52827},
+																					pos: position{line: 1629, col: 13, offset: 53098},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1625, col: 13, offset: 52827},
+																							pos: position{line: 1629, col: 13, offset: 53098},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1625, col: 14, offset: 52828},
+																								pos:        position{line: 1629, col: 14, offset: 53099},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -25006,7 +25006,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1625, col: 26, offset: 52840},
+																							pos:        position{line: 1629, col: 26, offset: 53111},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25018,12 +25018,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2922, col: 11, offset: 92200},
+																	pos: position{line: 2926, col: 11, offset: 92471},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2922, col: 11, offset: 92200},
+																		pos: position{line: 2926, col: 11, offset: 92471},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 11, offset: 92200},
+																			pos:        position{line: 2926, col: 11, offset: 92471},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25036,26 +25036,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1586, col: 5, offset: 51248},
+													pos:   position{line: 1590, col: 5, offset: 51519},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1532, col: 5, offset: 49681},
+														pos: position{line: 1536, col: 5, offset: 49952},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1532, col: 5, offset: 49681},
+															pos: position{line: 1536, col: 5, offset: 49952},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1532, col: 5, offset: 49681},
+																	pos:   position{line: 1536, col: 5, offset: 49952},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1532, col: 14, offset: 49690},
+																		pos: position{line: 1536, col: 14, offset: 49961},
 																		expr: &actionExpr{
-																			pos: position{line: 1532, col: 15, offset: 49691},
+																			pos: position{line: 1536, col: 15, offset: 49962},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1532, col: 15, offset: 49691},
+																				pos: position{line: 1536, col: 15, offset: 49962},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1532, col: 15, offset: 49691},
+																					pos:        position{line: 1536, col: 15, offset: 49962},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25066,28 +25066,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92537},
+																	pos: position{line: 2944, col: 8, offset: 92808},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92310},
+																			pos: position{line: 2931, col: 12, offset: 92581},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92311},
+																				pos: position{line: 2931, col: 13, offset: 92582},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92311},
+																						pos:        position{line: 2931, col: 13, offset: 92582},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92318},
+																						pos:        position{line: 2931, col: 20, offset: 92589},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92327},
+																						pos:        position{line: 2931, col: 29, offset: 92598},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25096,9 +25096,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92487},
+																			pos: position{line: 2941, col: 8, offset: 92758},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92488,
+																				line: 2941, col: 9, offset: 92759,
 																			},
 																		},
 																	},
@@ -25111,27 +25111,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1635, col: 5, offset: 53106},
+										pos: position{line: 1639, col: 5, offset: 53377},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1635, col: 5, offset: 53106},
+											pos: position{line: 1639, col: 5, offset: 53377},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1635, col: 5, offset: 53106},
+													pos:   position{line: 1639, col: 5, offset: 53377},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1642, col: 5, offset: 53379},
+														pos: position{line: 1646, col: 5, offset: 53650},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1642, col: 5, offset: 53379},
+															pos: position{line: 1646, col: 5, offset: 53650},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1642, col: 5, offset: 53379},
+																	pos: position{line: 1646, col: 5, offset: 53650},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92139},
+																		pos: position{line: 2922, col: 10, offset: 92410},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92139},
+																			pos:        position{line: 2922, col: 10, offset: 92410},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25140,24 +25140,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1643, col: 5, offset: 53391},
+																	pos:   position{line: 1647, col: 5, offset: 53662},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1644, col: 9, offset: 53407},
+																		pos: position{line: 1648, col: 9, offset: 53678},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1644, col: 10, offset: 53408},
+																			pos: position{line: 1648, col: 10, offset: 53679},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1644, col: 11, offset: 53409},
+																					pos:        position{line: 1648, col: 11, offset: 53680},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1644, col: 18, offset: 53416},
+																					pos: position{line: 1648, col: 18, offset: 53687},
 																					expr: &litMatcher{
-																						pos:        position{line: 1644, col: 19, offset: 53417},
+																						pos:        position{line: 1648, col: 19, offset: 53688},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -25168,16 +25168,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1647, col: 7, offset: 53507},
+																	pos: position{line: 1651, col: 7, offset: 53778},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2922, col: 11, offset: 92200},
+																	pos: position{line: 2926, col: 11, offset: 92471},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2922, col: 11, offset: 92200},
+																		pos: position{line: 2926, col: 11, offset: 92471},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 11, offset: 92200},
+																			pos:        position{line: 2926, col: 11, offset: 92471},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25190,56 +25190,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1636, col: 5, offset: 53147},
+													pos:   position{line: 1640, col: 5, offset: 53418},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1636, col: 16, offset: 53158},
+														pos: position{line: 1640, col: 16, offset: 53429},
 														expr: &actionExpr{
-															pos: position{line: 1657, col: 5, offset: 53772},
+															pos: position{line: 1661, col: 5, offset: 54043},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1657, col: 5, offset: 53772},
+																pos: position{line: 1661, col: 5, offset: 54043},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1657, col: 5, offset: 53772},
+																		pos: position{line: 1661, col: 5, offset: 54043},
 																		expr: &litMatcher{
-																			pos:        position{line: 1657, col: 6, offset: 53773},
+																			pos:        position{line: 1661, col: 6, offset: 54044},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1657, col: 10, offset: 53777},
+																		pos:   position{line: 1661, col: 10, offset: 54048},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1658, col: 7, offset: 53791},
+																			pos: position{line: 1662, col: 7, offset: 54062},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1658, col: 7, offset: 53791},
+																					pos: position{line: 1662, col: 7, offset: 54062},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1658, col: 7, offset: 53791},
+																						pos:        position{line: 1662, col: 7, offset: 54062},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1659, col: 7, offset: 53836},
+																					pos: position{line: 1663, col: 7, offset: 54107},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1659, col: 7, offset: 53836},
+																						pos:        position{line: 1663, col: 7, offset: 54107},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1660, col: 7, offset: 53879},
+																					pos: position{line: 1664, col: 7, offset: 54150},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1660, col: 7, offset: 53879},
+																						pos:        position{line: 1664, col: 7, offset: 54150},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -25249,12 +25249,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2922, col: 11, offset: 92200},
+																		pos: position{line: 2926, col: 11, offset: 92471},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2922, col: 11, offset: 92200},
+																			pos: position{line: 2926, col: 11, offset: 92471},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 11, offset: 92200},
+																				pos:        position{line: 2926, col: 11, offset: 92471},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25268,26 +25268,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1637, col: 5, offset: 53197},
+													pos:   position{line: 1641, col: 5, offset: 53468},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1532, col: 5, offset: 49681},
+														pos: position{line: 1536, col: 5, offset: 49952},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1532, col: 5, offset: 49681},
+															pos: position{line: 1536, col: 5, offset: 49952},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1532, col: 5, offset: 49681},
+																	pos:   position{line: 1536, col: 5, offset: 49952},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1532, col: 14, offset: 49690},
+																		pos: position{line: 1536, col: 14, offset: 49961},
 																		expr: &actionExpr{
-																			pos: position{line: 1532, col: 15, offset: 49691},
+																			pos: position{line: 1536, col: 15, offset: 49962},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1532, col: 15, offset: 49691},
+																				pos: position{line: 1536, col: 15, offset: 49962},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1532, col: 15, offset: 49691},
+																					pos:        position{line: 1536, col: 15, offset: 49962},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25298,28 +25298,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92537},
+																	pos: position{line: 2944, col: 8, offset: 92808},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92310},
+																			pos: position{line: 2931, col: 12, offset: 92581},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92311},
+																				pos: position{line: 2931, col: 13, offset: 92582},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92311},
+																						pos:        position{line: 2931, col: 13, offset: 92582},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92318},
+																						pos:        position{line: 2931, col: 20, offset: 92589},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92327},
+																						pos:        position{line: 2931, col: 29, offset: 92598},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25328,9 +25328,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92487},
+																			pos: position{line: 2941, col: 8, offset: 92758},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92488,
+																				line: 2941, col: 9, offset: 92759,
 																			},
 																		},
 																	},
@@ -25343,36 +25343,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1726, col: 5, offset: 55751},
+										pos: position{line: 1730, col: 5, offset: 56022},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1726, col: 5, offset: 55751},
+											pos: position{line: 1730, col: 5, offset: 56022},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1726, col: 5, offset: 55751},
+													pos:   position{line: 1730, col: 5, offset: 56022},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1732, col: 5, offset: 55948},
+														pos: position{line: 1736, col: 5, offset: 56219},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1732, col: 5, offset: 55948},
+															pos: position{line: 1736, col: 5, offset: 56219},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1732, col: 5, offset: 55948},
+																	pos:        position{line: 1736, col: 5, offset: 56219},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1732, col: 9, offset: 55952},
+																	pos:   position{line: 1736, col: 9, offset: 56223},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1732, col: 14, offset: 55957},
+																		pos: position{line: 1736, col: 14, offset: 56228},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1732, col: 14, offset: 55957},
+																			pos: position{line: 1736, col: 14, offset: 56228},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1732, col: 14, offset: 55957},
+																				pos:        position{line: 1736, col: 14, offset: 56228},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25382,18 +25382,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1732, col: 62, offset: 56005},
+																	pos:        position{line: 1736, col: 62, offset: 56276},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2922, col: 11, offset: 92200},
+																	pos: position{line: 2926, col: 11, offset: 92471},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2922, col: 11, offset: 92200},
+																		pos: position{line: 2926, col: 11, offset: 92471},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 11, offset: 92200},
+																			pos:        position{line: 2926, col: 11, offset: 92471},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25406,26 +25406,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1727, col: 5, offset: 55787},
+													pos:   position{line: 1731, col: 5, offset: 56058},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1532, col: 5, offset: 49681},
+														pos: position{line: 1536, col: 5, offset: 49952},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1532, col: 5, offset: 49681},
+															pos: position{line: 1536, col: 5, offset: 49952},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1532, col: 5, offset: 49681},
+																	pos:   position{line: 1536, col: 5, offset: 49952},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1532, col: 14, offset: 49690},
+																		pos: position{line: 1536, col: 14, offset: 49961},
 																		expr: &actionExpr{
-																			pos: position{line: 1532, col: 15, offset: 49691},
+																			pos: position{line: 1536, col: 15, offset: 49962},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1532, col: 15, offset: 49691},
+																				pos: position{line: 1536, col: 15, offset: 49962},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1532, col: 15, offset: 49691},
+																					pos:        position{line: 1536, col: 15, offset: 49962},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25436,28 +25436,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92537},
+																	pos: position{line: 2944, col: 8, offset: 92808},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92310},
+																			pos: position{line: 2931, col: 12, offset: 92581},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92311},
+																				pos: position{line: 2931, col: 13, offset: 92582},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92311},
+																						pos:        position{line: 2931, col: 13, offset: 92582},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92318},
+																						pos:        position{line: 2931, col: 20, offset: 92589},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92327},
+																						pos:        position{line: 2931, col: 29, offset: 92598},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25466,9 +25466,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92487},
+																			pos: position{line: 2941, col: 8, offset: 92758},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92488,
+																				line: 2941, col: 9, offset: 92759,
 																			},
 																		},
 																	},
@@ -25481,35 +25481,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1669, col: 5, offset: 54072},
+										pos: position{line: 1673, col: 5, offset: 54343},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1669, col: 5, offset: 54072},
+											pos: position{line: 1673, col: 5, offset: 54343},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1669, col: 5, offset: 54072},
+													pos:   position{line: 1673, col: 5, offset: 54343},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1677, col: 5, offset: 54398},
+														pos: position{line: 1681, col: 5, offset: 54669},
 														run: (*parser).callonListElements148,
 														expr: &seqExpr{
-															pos: position{line: 1677, col: 5, offset: 54398},
+															pos: position{line: 1681, col: 5, offset: 54669},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1677, col: 5, offset: 54398},
+																	pos: position{line: 1681, col: 5, offset: 54669},
 																	expr: &seqExpr{
-																		pos: position{line: 2526, col: 31, offset: 81167},
+																		pos: position{line: 2530, col: 31, offset: 81438},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2526, col: 31, offset: 81167},
+																				pos:        position{line: 2530, col: 31, offset: 81438},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2526, col: 36, offset: 81172},
+																				pos: position{line: 2530, col: 36, offset: 81443},
 																				expr: &litMatcher{
-																					pos:        position{line: 2526, col: 37, offset: 81173},
+																					pos:        position{line: 2530, col: 37, offset: 81444},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -25519,28 +25519,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1678, col: 5, offset: 54430},
+																	pos: position{line: 1682, col: 5, offset: 54701},
 																	expr: &seqExpr{
-																		pos: position{line: 1678, col: 6, offset: 54431},
+																		pos: position{line: 1682, col: 6, offset: 54702},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1678, col: 6, offset: 54431},
+																				pos: position{line: 1682, col: 6, offset: 54702},
 																				expr: &actionExpr{
-																					pos: position{line: 1683, col: 5, offset: 54581},
+																					pos: position{line: 1687, col: 5, offset: 54852},
 																					run: (*parser).callonListElements158,
 																					expr: &seqExpr{
-																						pos: position{line: 1683, col: 5, offset: 54581},
+																						pos: position{line: 1687, col: 5, offset: 54852},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1683, col: 5, offset: 54581},
+																								pos:   position{line: 1687, col: 5, offset: 54852},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1683, col: 16, offset: 54592},
+																									pos: position{line: 1687, col: 16, offset: 54863},
 																									run: (*parser).callonListElements161,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1683, col: 16, offset: 54592},
+																										pos: position{line: 1687, col: 16, offset: 54863},
 																										expr: &litMatcher{
-																											pos:        position{line: 1683, col: 17, offset: 54593},
+																											pos:        position{line: 1687, col: 17, offset: 54864},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -25549,7 +25549,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1686, col: 5, offset: 54650},
+																								pos: position{line: 1690, col: 5, offset: 54921},
 																								run: (*parser).callonListElements164,
 																							},
 																						},
@@ -25557,30 +25557,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1678, col: 35, offset: 54460},
+																				pos: position{line: 1682, col: 35, offset: 54731},
 																				expr: &choiceExpr{
-																					pos: position{line: 2940, col: 8, offset: 92537},
+																					pos: position{line: 2944, col: 8, offset: 92808},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2927, col: 12, offset: 92310},
+																							pos: position{line: 2931, col: 12, offset: 92581},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2927, col: 13, offset: 92311},
+																								pos: position{line: 2931, col: 13, offset: 92582},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 13, offset: 92311},
+																										pos:        position{line: 2931, col: 13, offset: 92582},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 20, offset: 92318},
+																										pos:        position{line: 2931, col: 20, offset: 92589},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 29, offset: 92327},
+																										pos:        position{line: 2931, col: 29, offset: 92598},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25589,16 +25589,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2937, col: 8, offset: 92487},
+																							pos: position{line: 2941, col: 8, offset: 92758},
 																							expr: &anyMatcher{
-																								line: 2937, col: 9, offset: 92488,
+																								line: 2941, col: 9, offset: 92759,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1678, col: 40, offset: 54465,
+																				line: 1682, col: 40, offset: 54736,
 																			},
 																		},
 																	},
@@ -25608,24 +25608,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1670, col: 5, offset: 54107},
+													pos:   position{line: 1674, col: 5, offset: 54378},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1683, col: 5, offset: 54581},
+														pos: position{line: 1687, col: 5, offset: 54852},
 														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1683, col: 5, offset: 54581},
+															pos: position{line: 1687, col: 5, offset: 54852},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1683, col: 5, offset: 54581},
+																	pos:   position{line: 1687, col: 5, offset: 54852},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1683, col: 16, offset: 54592},
+																		pos: position{line: 1687, col: 16, offset: 54863},
 																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1683, col: 16, offset: 54592},
+																			pos: position{line: 1687, col: 16, offset: 54863},
 																			expr: &litMatcher{
-																				pos:        position{line: 1683, col: 17, offset: 54593},
+																				pos:        position{line: 1687, col: 17, offset: 54864},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25634,7 +25634,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1686, col: 5, offset: 54650},
+																	pos: position{line: 1690, col: 5, offset: 54921},
 																	run: (*parser).callonListElements182,
 																},
 															},
@@ -25642,24 +25642,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1671, col: 5, offset: 54152},
+													pos:   position{line: 1675, col: 5, offset: 54423},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1694, col: 5, offset: 54899},
+														pos: position{line: 1698, col: 5, offset: 55170},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1696, col: 9, offset: 54965},
+																pos: position{line: 1700, col: 9, offset: 55236},
 																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1696, col: 9, offset: 54965},
+																	pos: position{line: 1700, col: 9, offset: 55236},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1696, col: 9, offset: 54965},
+																			pos: position{line: 1700, col: 9, offset: 55236},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92139},
+																				pos: position{line: 2922, col: 10, offset: 92410},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92139},
+																					pos:        position{line: 2922, col: 10, offset: 92410},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25668,28 +25668,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92537},
+																			pos: position{line: 2944, col: 8, offset: 92808},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92310},
+																					pos: position{line: 2931, col: 12, offset: 92581},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92311},
+																						pos: position{line: 2931, col: 13, offset: 92582},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92311},
+																								pos:        position{line: 2931, col: 13, offset: 92582},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92318},
+																								pos:        position{line: 2931, col: 20, offset: 92589},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92327},
+																								pos:        position{line: 2931, col: 29, offset: 92598},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25698,34 +25698,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1697, col: 9, offset: 54984},
+																			pos: position{line: 1701, col: 9, offset: 55255},
 																			expr: &actionExpr{
-																				pos: position{line: 686, col: 14, offset: 21901},
+																				pos: position{line: 690, col: 14, offset: 22172},
 																				run: (*parser).callonListElements199,
 																				expr: &seqExpr{
-																					pos: position{line: 686, col: 14, offset: 21901},
+																					pos: position{line: 690, col: 14, offset: 22172},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2935, col: 11, offset: 92473},
+																							pos: position{line: 2939, col: 11, offset: 92744},
 																							expr: &anyMatcher{
-																								line: 2935, col: 13, offset: 92475,
+																								line: 2939, col: 13, offset: 92746,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 686, col: 21, offset: 21908},
+																							pos: position{line: 690, col: 21, offset: 22179},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92139},
+																								pos: position{line: 2922, col: 10, offset: 92410},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92139},
+																									pos:        position{line: 2922, col: 10, offset: 92410},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25734,28 +25734,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25764,9 +25764,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -25779,18 +25779,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1703, col: 9, offset: 55113},
+																pos: position{line: 1707, col: 9, offset: 55384},
 																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1703, col: 9, offset: 55113},
+																	pos: position{line: 1707, col: 9, offset: 55384},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2922, col: 11, offset: 92200},
+																			pos: position{line: 2926, col: 11, offset: 92471},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2922, col: 11, offset: 92200},
+																				pos: position{line: 2926, col: 11, offset: 92471},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 11, offset: 92200},
+																					pos:        position{line: 2926, col: 11, offset: 92471},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25799,15 +25799,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1704, col: 9, offset: 55186},
+																			pos:   position{line: 1708, col: 9, offset: 55457},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1704, col: 18, offset: 55195},
+																				pos: position{line: 1708, col: 18, offset: 55466},
 																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1704, col: 18, offset: 55195},
+																					pos: position{line: 1708, col: 18, offset: 55466},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1704, col: 18, offset: 55195},
+																						pos:        position{line: 1708, col: 18, offset: 55466},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25817,28 +25817,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92537},
+																			pos: position{line: 2944, col: 8, offset: 92808},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92310},
+																					pos: position{line: 2931, col: 12, offset: 92581},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92311},
+																						pos: position{line: 2931, col: 13, offset: 92582},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92311},
+																								pos:        position{line: 2931, col: 13, offset: 92582},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92318},
+																								pos:        position{line: 2931, col: 20, offset: 92589},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92327},
+																								pos:        position{line: 2931, col: 29, offset: 92598},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25847,9 +25847,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
@@ -25867,10 +25867,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1486, col: 5, offset: 48070},
+							pos:   position{line: 1490, col: 5, offset: 48341},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1486, col: 20, offset: 48085},
+								pos:  position{line: 1490, col: 20, offset: 48356},
 								name: "ExtraListElements",
 							},
 						},
@@ -25880,17 +25880,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1496, col: 1, offset: 48340},
+			pos:  position{line: 1500, col: 1, offset: 48611},
 			expr: &actionExpr{
-				pos: position{line: 1496, col: 22, offset: 48361},
+				pos: position{line: 1500, col: 22, offset: 48632},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1496, col: 22, offset: 48361},
+					pos:   position{line: 1500, col: 22, offset: 48632},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1496, col: 31, offset: 48370},
+						pos: position{line: 1500, col: 31, offset: 48641},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1496, col: 32, offset: 48371},
+							pos:  position{line: 1500, col: 32, offset: 48642},
 							name: "ExtraListElement",
 						},
 					},
@@ -25899,52 +25899,52 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1500, col: 1, offset: 48451},
+			pos:  position{line: 1504, col: 1, offset: 48722},
 			expr: &actionExpr{
-				pos: position{line: 1501, col: 5, offset: 48590},
+				pos: position{line: 1505, col: 5, offset: 48861},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1501, col: 5, offset: 48590},
+					pos: position{line: 1505, col: 5, offset: 48861},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2935, col: 11, offset: 92473},
+							pos: position{line: 2939, col: 11, offset: 92744},
 							expr: &anyMatcher{
-								line: 2935, col: 13, offset: 92475,
+								line: 2939, col: 13, offset: 92746,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1502, col: 5, offset: 48602},
+							pos:   position{line: 1506, col: 5, offset: 48873},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1503, col: 9, offset: 48620},
+								pos: position{line: 1507, col: 9, offset: 48891},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1503, col: 13, offset: 48624},
+										pos: position{line: 1507, col: 13, offset: 48895},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1503, col: 13, offset: 48624},
+											pos: position{line: 1507, col: 13, offset: 48895},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1503, col: 13, offset: 48624},
+													pos: position{line: 1507, col: 13, offset: 48895},
 													expr: &actionExpr{
-														pos: position{line: 686, col: 14, offset: 21901},
+														pos: position{line: 690, col: 14, offset: 22172},
 														run: (*parser).callonExtraListElement10,
 														expr: &seqExpr{
-															pos: position{line: 686, col: 14, offset: 21901},
+															pos: position{line: 690, col: 14, offset: 22172},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2935, col: 11, offset: 92473},
+																	pos: position{line: 2939, col: 11, offset: 92744},
 																	expr: &anyMatcher{
-																		line: 2935, col: 13, offset: 92475,
+																		line: 2939, col: 13, offset: 92746,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 686, col: 21, offset: 21908},
+																	pos: position{line: 690, col: 21, offset: 22179},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92139},
+																		pos: position{line: 2922, col: 10, offset: 92410},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92139},
+																			pos:        position{line: 2922, col: 10, offset: 92410},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25953,28 +25953,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92537},
+																	pos: position{line: 2944, col: 8, offset: 92808},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92310},
+																			pos: position{line: 2931, col: 12, offset: 92581},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92311},
+																				pos: position{line: 2931, col: 13, offset: 92582},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92311},
+																						pos:        position{line: 2931, col: 13, offset: 92582},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92318},
+																						pos:        position{line: 2931, col: 20, offset: 92589},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92327},
+																						pos:        position{line: 2931, col: 29, offset: 92598},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25983,9 +25983,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92487},
+																			pos: position{line: 2941, col: 8, offset: 92758},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92488,
+																				line: 2941, col: 9, offset: 92759,
 																			},
 																		},
 																	},
@@ -25995,33 +25995,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1504, col: 13, offset: 48648},
+													pos:   position{line: 1508, col: 13, offset: 48919},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1504, col: 22, offset: 48657},
+														pos: position{line: 1508, col: 22, offset: 48928},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1585, col: 5, offset: 51209},
+																pos: position{line: 1589, col: 5, offset: 51480},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1585, col: 5, offset: 51209},
+																	pos: position{line: 1589, col: 5, offset: 51480},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1585, col: 5, offset: 51209},
+																			pos:   position{line: 1589, col: 5, offset: 51480},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1592, col: 5, offset: 51417},
+																				pos: position{line: 1596, col: 5, offset: 51688},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1592, col: 5, offset: 51417},
+																					pos: position{line: 1596, col: 5, offset: 51688},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1592, col: 5, offset: 51417},
+																							pos: position{line: 1596, col: 5, offset: 51688},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92139},
+																								pos: position{line: 2922, col: 10, offset: 92410},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92139},
+																									pos:        position{line: 2922, col: 10, offset: 92410},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26030,27 +26030,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1592, col: 12, offset: 51424},
+																							pos:   position{line: 1596, col: 12, offset: 51695},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1594, col: 9, offset: 51487},
+																								pos: position{line: 1598, col: 9, offset: 51758},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1594, col: 9, offset: 51487},
+																										pos: position{line: 1598, col: 9, offset: 51758},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1594, col: 9, offset: 51487},
+																											pos: position{line: 1598, col: 9, offset: 51758},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1594, col: 9, offset: 51487},
+																													pos:   position{line: 1598, col: 9, offset: 51758},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1594, col: 16, offset: 51494},
+																														pos: position{line: 1598, col: 16, offset: 51765},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1594, col: 16, offset: 51494},
+																															pos: position{line: 1598, col: 16, offset: 51765},
 																															expr: &litMatcher{
-																																pos:        position{line: 1594, col: 17, offset: 51495},
+																																pos:        position{line: 1598, col: 17, offset: 51766},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26059,22 +26059,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1598, col: 9, offset: 51595},
+																													pos: position{line: 1602, col: 9, offset: 51866},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1617, col: 11, offset: 52312},
+																										pos: position{line: 1621, col: 11, offset: 52583},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1617, col: 11, offset: 52312},
+																											pos: position{line: 1621, col: 11, offset: 52583},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1617, col: 11, offset: 52312},
+																													pos: position{line: 1621, col: 11, offset: 52583},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1617, col: 12, offset: 52313},
+																														pos:        position{line: 1621, col: 12, offset: 52584},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26082,7 +26082,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1617, col: 20, offset: 52321},
+																													pos:        position{line: 1621, col: 20, offset: 52592},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26091,20 +26091,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1619, col: 13, offset: 52438},
+																										pos: position{line: 1623, col: 13, offset: 52709},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1619, col: 13, offset: 52438},
+																											pos: position{line: 1623, col: 13, offset: 52709},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1619, col: 14, offset: 52439},
+																													pos:        position{line: 1623, col: 14, offset: 52710},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1619, col: 21, offset: 52446},
+																													pos:        position{line: 1623, col: 21, offset: 52717},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26113,20 +26113,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1621, col: 13, offset: 52566},
+																										pos: position{line: 1625, col: 13, offset: 52837},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1621, col: 13, offset: 52566},
+																											pos: position{line: 1625, col: 13, offset: 52837},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1621, col: 14, offset: 52567},
+																													pos:        position{line: 1625, col: 14, offset: 52838},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1621, col: 21, offset: 52574},
+																													pos:        position{line: 1625, col: 21, offset: 52845},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26135,15 +26135,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1623, col: 13, offset: 52694},
+																										pos: position{line: 1627, col: 13, offset: 52965},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1623, col: 13, offset: 52694},
+																											pos: position{line: 1627, col: 13, offset: 52965},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1623, col: 13, offset: 52694},
+																													pos: position{line: 1627, col: 13, offset: 52965},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1623, col: 14, offset: 52695},
+																														pos:        position{line: 1627, col: 14, offset: 52966},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26151,7 +26151,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1623, col: 26, offset: 52707},
+																													pos:        position{line: 1627, col: 26, offset: 52978},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26160,15 +26160,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1625, col: 13, offset: 52827},
+																										pos: position{line: 1629, col: 13, offset: 53098},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1625, col: 13, offset: 52827},
+																											pos: position{line: 1629, col: 13, offset: 53098},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1625, col: 13, offset: 52827},
+																													pos: position{line: 1629, col: 13, offset: 53098},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1625, col: 14, offset: 52828},
+																														pos:        position{line: 1629, col: 14, offset: 53099},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26176,7 +26176,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1625, col: 26, offset: 52840},
+																													pos:        position{line: 1629, col: 26, offset: 53111},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26188,12 +26188,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2922, col: 11, offset: 92200},
+																							pos: position{line: 2926, col: 11, offset: 92471},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2922, col: 11, offset: 92200},
+																								pos: position{line: 2926, col: 11, offset: 92471},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 11, offset: 92200},
+																									pos:        position{line: 2926, col: 11, offset: 92471},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26206,26 +26206,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1586, col: 5, offset: 51248},
+																			pos:   position{line: 1590, col: 5, offset: 51519},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1532, col: 5, offset: 49681},
+																				pos: position{line: 1536, col: 5, offset: 49952},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1532, col: 5, offset: 49681},
+																					pos: position{line: 1536, col: 5, offset: 49952},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1532, col: 5, offset: 49681},
+																							pos:   position{line: 1536, col: 5, offset: 49952},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1532, col: 14, offset: 49690},
+																								pos: position{line: 1536, col: 14, offset: 49961},
 																								expr: &actionExpr{
-																									pos: position{line: 1532, col: 15, offset: 49691},
+																									pos: position{line: 1536, col: 15, offset: 49962},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1532, col: 15, offset: 49691},
+																										pos: position{line: 1536, col: 15, offset: 49962},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1532, col: 15, offset: 49691},
+																											pos:        position{line: 1536, col: 15, offset: 49962},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26236,28 +26236,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26266,9 +26266,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -26281,27 +26281,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1635, col: 5, offset: 53106},
+																pos: position{line: 1639, col: 5, offset: 53377},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1635, col: 5, offset: 53106},
+																	pos: position{line: 1639, col: 5, offset: 53377},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1635, col: 5, offset: 53106},
+																			pos:   position{line: 1639, col: 5, offset: 53377},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1642, col: 5, offset: 53379},
+																				pos: position{line: 1646, col: 5, offset: 53650},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1642, col: 5, offset: 53379},
+																					pos: position{line: 1646, col: 5, offset: 53650},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1642, col: 5, offset: 53379},
+																							pos: position{line: 1646, col: 5, offset: 53650},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92139},
+																								pos: position{line: 2922, col: 10, offset: 92410},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92139},
+																									pos:        position{line: 2922, col: 10, offset: 92410},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26310,24 +26310,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1643, col: 5, offset: 53391},
+																							pos:   position{line: 1647, col: 5, offset: 53662},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1644, col: 9, offset: 53407},
+																								pos: position{line: 1648, col: 9, offset: 53678},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1644, col: 10, offset: 53408},
+																									pos: position{line: 1648, col: 10, offset: 53679},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1644, col: 11, offset: 53409},
+																											pos:        position{line: 1648, col: 11, offset: 53680},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1644, col: 18, offset: 53416},
+																											pos: position{line: 1648, col: 18, offset: 53687},
 																											expr: &litMatcher{
-																												pos:        position{line: 1644, col: 19, offset: 53417},
+																												pos:        position{line: 1648, col: 19, offset: 53688},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26338,16 +26338,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1647, col: 7, offset: 53507},
+																							pos: position{line: 1651, col: 7, offset: 53778},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2922, col: 11, offset: 92200},
+																							pos: position{line: 2926, col: 11, offset: 92471},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2922, col: 11, offset: 92200},
+																								pos: position{line: 2926, col: 11, offset: 92471},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 11, offset: 92200},
+																									pos:        position{line: 2926, col: 11, offset: 92471},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26360,56 +26360,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1636, col: 5, offset: 53147},
+																			pos:   position{line: 1640, col: 5, offset: 53418},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1636, col: 16, offset: 53158},
+																				pos: position{line: 1640, col: 16, offset: 53429},
 																				expr: &actionExpr{
-																					pos: position{line: 1657, col: 5, offset: 53772},
+																					pos: position{line: 1661, col: 5, offset: 54043},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1657, col: 5, offset: 53772},
+																						pos: position{line: 1661, col: 5, offset: 54043},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1657, col: 5, offset: 53772},
+																								pos: position{line: 1661, col: 5, offset: 54043},
 																								expr: &litMatcher{
-																									pos:        position{line: 1657, col: 6, offset: 53773},
+																									pos:        position{line: 1661, col: 6, offset: 54044},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1657, col: 10, offset: 53777},
+																								pos:   position{line: 1661, col: 10, offset: 54048},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1658, col: 7, offset: 53791},
+																									pos: position{line: 1662, col: 7, offset: 54062},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1658, col: 7, offset: 53791},
+																											pos: position{line: 1662, col: 7, offset: 54062},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1658, col: 7, offset: 53791},
+																												pos:        position{line: 1662, col: 7, offset: 54062},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1659, col: 7, offset: 53836},
+																											pos: position{line: 1663, col: 7, offset: 54107},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1659, col: 7, offset: 53836},
+																												pos:        position{line: 1663, col: 7, offset: 54107},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1660, col: 7, offset: 53879},
+																											pos: position{line: 1664, col: 7, offset: 54150},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1660, col: 7, offset: 53879},
+																												pos:        position{line: 1664, col: 7, offset: 54150},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26419,12 +26419,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2922, col: 11, offset: 92200},
+																								pos: position{line: 2926, col: 11, offset: 92471},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2922, col: 11, offset: 92200},
+																									pos: position{line: 2926, col: 11, offset: 92471},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 11, offset: 92200},
+																										pos:        position{line: 2926, col: 11, offset: 92471},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26438,26 +26438,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1637, col: 5, offset: 53197},
+																			pos:   position{line: 1641, col: 5, offset: 53468},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1532, col: 5, offset: 49681},
+																				pos: position{line: 1536, col: 5, offset: 49952},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1532, col: 5, offset: 49681},
+																					pos: position{line: 1536, col: 5, offset: 49952},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1532, col: 5, offset: 49681},
+																							pos:   position{line: 1536, col: 5, offset: 49952},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1532, col: 14, offset: 49690},
+																								pos: position{line: 1536, col: 14, offset: 49961},
 																								expr: &actionExpr{
-																									pos: position{line: 1532, col: 15, offset: 49691},
+																									pos: position{line: 1536, col: 15, offset: 49962},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1532, col: 15, offset: 49691},
+																										pos: position{line: 1536, col: 15, offset: 49962},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1532, col: 15, offset: 49691},
+																											pos:        position{line: 1536, col: 15, offset: 49962},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26468,28 +26468,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26498,9 +26498,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -26513,36 +26513,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1726, col: 5, offset: 55751},
+																pos: position{line: 1730, col: 5, offset: 56022},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1726, col: 5, offset: 55751},
+																	pos: position{line: 1730, col: 5, offset: 56022},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1726, col: 5, offset: 55751},
+																			pos:   position{line: 1730, col: 5, offset: 56022},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1732, col: 5, offset: 55948},
+																				pos: position{line: 1736, col: 5, offset: 56219},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1732, col: 5, offset: 55948},
+																					pos: position{line: 1736, col: 5, offset: 56219},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1732, col: 5, offset: 55948},
+																							pos:        position{line: 1736, col: 5, offset: 56219},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1732, col: 9, offset: 55952},
+																							pos:   position{line: 1736, col: 9, offset: 56223},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1732, col: 14, offset: 55957},
+																								pos: position{line: 1736, col: 14, offset: 56228},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1732, col: 14, offset: 55957},
+																									pos: position{line: 1736, col: 14, offset: 56228},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1732, col: 14, offset: 55957},
+																										pos:        position{line: 1736, col: 14, offset: 56228},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26552,18 +26552,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1732, col: 62, offset: 56005},
+																							pos:        position{line: 1736, col: 62, offset: 56276},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2922, col: 11, offset: 92200},
+																							pos: position{line: 2926, col: 11, offset: 92471},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2922, col: 11, offset: 92200},
+																								pos: position{line: 2926, col: 11, offset: 92471},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 11, offset: 92200},
+																									pos:        position{line: 2926, col: 11, offset: 92471},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26576,26 +26576,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1727, col: 5, offset: 55787},
+																			pos:   position{line: 1731, col: 5, offset: 56058},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1532, col: 5, offset: 49681},
+																				pos: position{line: 1536, col: 5, offset: 49952},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1532, col: 5, offset: 49681},
+																					pos: position{line: 1536, col: 5, offset: 49952},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1532, col: 5, offset: 49681},
+																							pos:   position{line: 1536, col: 5, offset: 49952},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1532, col: 14, offset: 49690},
+																								pos: position{line: 1536, col: 14, offset: 49961},
 																								expr: &actionExpr{
-																									pos: position{line: 1532, col: 15, offset: 49691},
+																									pos: position{line: 1536, col: 15, offset: 49962},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1532, col: 15, offset: 49691},
+																										pos: position{line: 1536, col: 15, offset: 49962},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1532, col: 15, offset: 49691},
+																											pos:        position{line: 1536, col: 15, offset: 49962},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26606,28 +26606,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26636,9 +26636,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -26651,35 +26651,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1669, col: 5, offset: 54072},
+																pos: position{line: 1673, col: 5, offset: 54343},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1669, col: 5, offset: 54072},
+																	pos: position{line: 1673, col: 5, offset: 54343},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1669, col: 5, offset: 54072},
+																			pos:   position{line: 1673, col: 5, offset: 54343},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1677, col: 5, offset: 54398},
+																				pos: position{line: 1681, col: 5, offset: 54669},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &seqExpr{
-																					pos: position{line: 1677, col: 5, offset: 54398},
+																					pos: position{line: 1681, col: 5, offset: 54669},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1677, col: 5, offset: 54398},
+																							pos: position{line: 1681, col: 5, offset: 54669},
 																							expr: &seqExpr{
-																								pos: position{line: 2526, col: 31, offset: 81167},
+																								pos: position{line: 2530, col: 31, offset: 81438},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2526, col: 31, offset: 81167},
+																										pos:        position{line: 2530, col: 31, offset: 81438},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2526, col: 36, offset: 81172},
+																										pos: position{line: 2530, col: 36, offset: 81443},
 																										expr: &litMatcher{
-																											pos:        position{line: 2526, col: 37, offset: 81173},
+																											pos:        position{line: 2530, col: 37, offset: 81444},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -26689,28 +26689,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1678, col: 5, offset: 54430},
+																							pos: position{line: 1682, col: 5, offset: 54701},
 																							expr: &seqExpr{
-																								pos: position{line: 1678, col: 6, offset: 54431},
+																								pos: position{line: 1682, col: 6, offset: 54702},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1678, col: 6, offset: 54431},
+																										pos: position{line: 1682, col: 6, offset: 54702},
 																										expr: &actionExpr{
-																											pos: position{line: 1683, col: 5, offset: 54581},
+																											pos: position{line: 1687, col: 5, offset: 54852},
 																											run: (*parser).callonExtraListElement180,
 																											expr: &seqExpr{
-																												pos: position{line: 1683, col: 5, offset: 54581},
+																												pos: position{line: 1687, col: 5, offset: 54852},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1683, col: 5, offset: 54581},
+																														pos:   position{line: 1687, col: 5, offset: 54852},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1683, col: 16, offset: 54592},
+																															pos: position{line: 1687, col: 16, offset: 54863},
 																															run: (*parser).callonExtraListElement183,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1683, col: 16, offset: 54592},
+																																pos: position{line: 1687, col: 16, offset: 54863},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1683, col: 17, offset: 54593},
+																																	pos:        position{line: 1687, col: 17, offset: 54864},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -26719,7 +26719,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1686, col: 5, offset: 54650},
+																														pos: position{line: 1690, col: 5, offset: 54921},
 																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
@@ -26727,30 +26727,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1678, col: 35, offset: 54460},
+																										pos: position{line: 1682, col: 35, offset: 54731},
 																										expr: &choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92537},
+																											pos: position{line: 2944, col: 8, offset: 92808},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92310},
+																													pos: position{line: 2931, col: 12, offset: 92581},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92311},
+																														pos: position{line: 2931, col: 13, offset: 92582},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92311},
+																																pos:        position{line: 2931, col: 13, offset: 92582},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92318},
+																																pos:        position{line: 2931, col: 20, offset: 92589},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92327},
+																																pos:        position{line: 2931, col: 29, offset: 92598},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26759,16 +26759,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92487},
+																													pos: position{line: 2941, col: 8, offset: 92758},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92488,
+																														line: 2941, col: 9, offset: 92759,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1678, col: 40, offset: 54465,
+																										line: 1682, col: 40, offset: 54736,
 																									},
 																								},
 																							},
@@ -26778,24 +26778,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1670, col: 5, offset: 54107},
+																			pos:   position{line: 1674, col: 5, offset: 54378},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1683, col: 5, offset: 54581},
+																				pos: position{line: 1687, col: 5, offset: 54852},
 																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1683, col: 5, offset: 54581},
+																					pos: position{line: 1687, col: 5, offset: 54852},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1683, col: 5, offset: 54581},
+																							pos:   position{line: 1687, col: 5, offset: 54852},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1683, col: 16, offset: 54592},
+																								pos: position{line: 1687, col: 16, offset: 54863},
 																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1683, col: 16, offset: 54592},
+																									pos: position{line: 1687, col: 16, offset: 54863},
 																									expr: &litMatcher{
-																										pos:        position{line: 1683, col: 17, offset: 54593},
+																										pos:        position{line: 1687, col: 17, offset: 54864},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26804,7 +26804,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1686, col: 5, offset: 54650},
+																							pos: position{line: 1690, col: 5, offset: 54921},
 																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
@@ -26812,24 +26812,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1671, col: 5, offset: 54152},
+																			pos:   position{line: 1675, col: 5, offset: 54423},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1694, col: 5, offset: 54899},
+																				pos: position{line: 1698, col: 5, offset: 55170},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1696, col: 9, offset: 54965},
+																						pos: position{line: 1700, col: 9, offset: 55236},
 																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1696, col: 9, offset: 54965},
+																							pos: position{line: 1700, col: 9, offset: 55236},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1696, col: 9, offset: 54965},
+																									pos: position{line: 1700, col: 9, offset: 55236},
 																									expr: &actionExpr{
-																										pos: position{line: 2918, col: 10, offset: 92139},
+																										pos: position{line: 2922, col: 10, offset: 92410},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2918, col: 10, offset: 92139},
+																											pos:        position{line: 2922, col: 10, offset: 92410},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26838,28 +26838,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92537},
+																									pos: position{line: 2944, col: 8, offset: 92808},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92310},
+																											pos: position{line: 2931, col: 12, offset: 92581},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92311},
+																												pos: position{line: 2931, col: 13, offset: 92582},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92311},
+																														pos:        position{line: 2931, col: 13, offset: 92582},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92318},
+																														pos:        position{line: 2931, col: 20, offset: 92589},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92327},
+																														pos:        position{line: 2931, col: 29, offset: 92598},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26868,34 +26868,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92487},
+																											pos: position{line: 2941, col: 8, offset: 92758},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92488,
+																												line: 2941, col: 9, offset: 92759,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1697, col: 9, offset: 54984},
+																									pos: position{line: 1701, col: 9, offset: 55255},
 																									expr: &actionExpr{
-																										pos: position{line: 686, col: 14, offset: 21901},
+																										pos: position{line: 690, col: 14, offset: 22172},
 																										run: (*parser).callonExtraListElement221,
 																										expr: &seqExpr{
-																											pos: position{line: 686, col: 14, offset: 21901},
+																											pos: position{line: 690, col: 14, offset: 22172},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2935, col: 11, offset: 92473},
+																													pos: position{line: 2939, col: 11, offset: 92744},
 																													expr: &anyMatcher{
-																														line: 2935, col: 13, offset: 92475,
+																														line: 2939, col: 13, offset: 92746,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 686, col: 21, offset: 21908},
+																													pos: position{line: 690, col: 21, offset: 22179},
 																													expr: &actionExpr{
-																														pos: position{line: 2918, col: 10, offset: 92139},
+																														pos: position{line: 2922, col: 10, offset: 92410},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2918, col: 10, offset: 92139},
+																															pos:        position{line: 2922, col: 10, offset: 92410},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26904,28 +26904,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2940, col: 8, offset: 92537},
+																													pos: position{line: 2944, col: 8, offset: 92808},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2927, col: 12, offset: 92310},
+																															pos: position{line: 2931, col: 12, offset: 92581},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2927, col: 13, offset: 92311},
+																																pos: position{line: 2931, col: 13, offset: 92582},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 13, offset: 92311},
+																																		pos:        position{line: 2931, col: 13, offset: 92582},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 20, offset: 92318},
+																																		pos:        position{line: 2931, col: 20, offset: 92589},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 29, offset: 92327},
+																																		pos:        position{line: 2931, col: 29, offset: 92598},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26934,9 +26934,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2937, col: 8, offset: 92487},
+																															pos: position{line: 2941, col: 8, offset: 92758},
 																															expr: &anyMatcher{
-																																line: 2937, col: 9, offset: 92488,
+																																line: 2941, col: 9, offset: 92759,
 																															},
 																														},
 																													},
@@ -26949,18 +26949,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1703, col: 9, offset: 55113},
+																						pos: position{line: 1707, col: 9, offset: 55384},
 																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1703, col: 9, offset: 55113},
+																							pos: position{line: 1707, col: 9, offset: 55384},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2922, col: 11, offset: 92200},
+																									pos: position{line: 2926, col: 11, offset: 92471},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2922, col: 11, offset: 92200},
+																										pos: position{line: 2926, col: 11, offset: 92471},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 11, offset: 92200},
+																											pos:        position{line: 2926, col: 11, offset: 92471},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26969,15 +26969,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1704, col: 9, offset: 55186},
+																									pos:   position{line: 1708, col: 9, offset: 55457},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1704, col: 18, offset: 55195},
+																										pos: position{line: 1708, col: 18, offset: 55466},
 																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1704, col: 18, offset: 55195},
+																											pos: position{line: 1708, col: 18, offset: 55466},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1704, col: 18, offset: 55195},
+																												pos:        position{line: 1708, col: 18, offset: 55466},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26987,28 +26987,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92537},
+																									pos: position{line: 2944, col: 8, offset: 92808},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92310},
+																											pos: position{line: 2931, col: 12, offset: 92581},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92311},
+																												pos: position{line: 2931, col: 13, offset: 92582},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92311},
+																														pos:        position{line: 2931, col: 13, offset: 92582},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92318},
+																														pos:        position{line: 2931, col: 20, offset: 92589},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92327},
+																														pos:        position{line: 2931, col: 29, offset: 92598},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27017,9 +27017,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92487},
+																											pos: position{line: 2941, col: 8, offset: 92758},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92488,
+																												line: 2941, col: 9, offset: 92759,
 																											},
 																										},
 																									},
@@ -27040,50 +27040,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1507, col: 13, offset: 48808},
+										pos: position{line: 1511, col: 13, offset: 49079},
 										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
-											pos: position{line: 1507, col: 13, offset: 48808},
+											pos: position{line: 1511, col: 13, offset: 49079},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1507, col: 13, offset: 48808},
+													pos:   position{line: 1511, col: 13, offset: 49079},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1507, col: 24, offset: 48819},
+														pos: position{line: 1511, col: 24, offset: 49090},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1507, col: 25, offset: 48820},
+															pos:  position{line: 1511, col: 25, offset: 49091},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1508, col: 13, offset: 48851},
+													pos:   position{line: 1512, col: 13, offset: 49122},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1508, col: 22, offset: 48860},
+														pos: position{line: 1512, col: 22, offset: 49131},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1585, col: 5, offset: 51209},
+																pos: position{line: 1589, col: 5, offset: 51480},
 																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
-																	pos: position{line: 1585, col: 5, offset: 51209},
+																	pos: position{line: 1589, col: 5, offset: 51480},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1585, col: 5, offset: 51209},
+																			pos:   position{line: 1589, col: 5, offset: 51480},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1592, col: 5, offset: 51417},
+																				pos: position{line: 1596, col: 5, offset: 51688},
 																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
-																					pos: position{line: 1592, col: 5, offset: 51417},
+																					pos: position{line: 1596, col: 5, offset: 51688},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1592, col: 5, offset: 51417},
+																							pos: position{line: 1596, col: 5, offset: 51688},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92139},
+																								pos: position{line: 2922, col: 10, offset: 92410},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92139},
+																									pos:        position{line: 2922, col: 10, offset: 92410},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27092,27 +27092,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1592, col: 12, offset: 51424},
+																							pos:   position{line: 1596, col: 12, offset: 51695},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1594, col: 9, offset: 51487},
+																								pos: position{line: 1598, col: 9, offset: 51758},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1594, col: 9, offset: 51487},
+																										pos: position{line: 1598, col: 9, offset: 51758},
 																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
-																											pos: position{line: 1594, col: 9, offset: 51487},
+																											pos: position{line: 1598, col: 9, offset: 51758},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1594, col: 9, offset: 51487},
+																													pos:   position{line: 1598, col: 9, offset: 51758},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1594, col: 16, offset: 51494},
+																														pos: position{line: 1598, col: 16, offset: 51765},
 																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1594, col: 16, offset: 51494},
+																															pos: position{line: 1598, col: 16, offset: 51765},
 																															expr: &litMatcher{
-																																pos:        position{line: 1594, col: 17, offset: 51495},
+																																pos:        position{line: 1598, col: 17, offset: 51766},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27121,22 +27121,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1598, col: 9, offset: 51595},
+																													pos: position{line: 1602, col: 9, offset: 51866},
 																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1617, col: 11, offset: 52312},
+																										pos: position{line: 1621, col: 11, offset: 52583},
 																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
-																											pos: position{line: 1617, col: 11, offset: 52312},
+																											pos: position{line: 1621, col: 11, offset: 52583},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1617, col: 11, offset: 52312},
+																													pos: position{line: 1621, col: 11, offset: 52583},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1617, col: 12, offset: 52313},
+																														pos:        position{line: 1621, col: 12, offset: 52584},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27144,7 +27144,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1617, col: 20, offset: 52321},
+																													pos:        position{line: 1621, col: 20, offset: 52592},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27153,20 +27153,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1619, col: 13, offset: 52438},
+																										pos: position{line: 1623, col: 13, offset: 52709},
 																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
-																											pos: position{line: 1619, col: 13, offset: 52438},
+																											pos: position{line: 1623, col: 13, offset: 52709},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1619, col: 14, offset: 52439},
+																													pos:        position{line: 1623, col: 14, offset: 52710},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1619, col: 21, offset: 52446},
+																													pos:        position{line: 1623, col: 21, offset: 52717},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27175,20 +27175,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1621, col: 13, offset: 52566},
+																										pos: position{line: 1625, col: 13, offset: 52837},
 																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
-																											pos: position{line: 1621, col: 13, offset: 52566},
+																											pos: position{line: 1625, col: 13, offset: 52837},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1621, col: 14, offset: 52567},
+																													pos:        position{line: 1625, col: 14, offset: 52838},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1621, col: 21, offset: 52574},
+																													pos:        position{line: 1625, col: 21, offset: 52845},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27197,15 +27197,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1623, col: 13, offset: 52694},
+																										pos: position{line: 1627, col: 13, offset: 52965},
 																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
-																											pos: position{line: 1623, col: 13, offset: 52694},
+																											pos: position{line: 1627, col: 13, offset: 52965},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1623, col: 13, offset: 52694},
+																													pos: position{line: 1627, col: 13, offset: 52965},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1623, col: 14, offset: 52695},
+																														pos:        position{line: 1627, col: 14, offset: 52966},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27213,7 +27213,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1623, col: 26, offset: 52707},
+																													pos:        position{line: 1627, col: 26, offset: 52978},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27222,15 +27222,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1625, col: 13, offset: 52827},
+																										pos: position{line: 1629, col: 13, offset: 53098},
 																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
-																											pos: position{line: 1625, col: 13, offset: 52827},
+																											pos: position{line: 1629, col: 13, offset: 53098},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1625, col: 13, offset: 52827},
+																													pos: position{line: 1629, col: 13, offset: 53098},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1625, col: 14, offset: 52828},
+																														pos:        position{line: 1629, col: 14, offset: 53099},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27238,7 +27238,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1625, col: 26, offset: 52840},
+																													pos:        position{line: 1629, col: 26, offset: 53111},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27250,12 +27250,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2922, col: 11, offset: 92200},
+																							pos: position{line: 2926, col: 11, offset: 92471},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2922, col: 11, offset: 92200},
+																								pos: position{line: 2926, col: 11, offset: 92471},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 11, offset: 92200},
+																									pos:        position{line: 2926, col: 11, offset: 92471},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27268,26 +27268,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1586, col: 5, offset: 51248},
+																			pos:   position{line: 1590, col: 5, offset: 51519},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1532, col: 5, offset: 49681},
+																				pos: position{line: 1536, col: 5, offset: 49952},
 																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
-																					pos: position{line: 1532, col: 5, offset: 49681},
+																					pos: position{line: 1536, col: 5, offset: 49952},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1532, col: 5, offset: 49681},
+																							pos:   position{line: 1536, col: 5, offset: 49952},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1532, col: 14, offset: 49690},
+																								pos: position{line: 1536, col: 14, offset: 49961},
 																								expr: &actionExpr{
-																									pos: position{line: 1532, col: 15, offset: 49691},
+																									pos: position{line: 1536, col: 15, offset: 49962},
 																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1532, col: 15, offset: 49691},
+																										pos: position{line: 1536, col: 15, offset: 49962},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1532, col: 15, offset: 49691},
+																											pos:        position{line: 1536, col: 15, offset: 49962},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27298,28 +27298,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27328,9 +27328,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -27343,27 +27343,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1635, col: 5, offset: 53106},
+																pos: position{line: 1639, col: 5, offset: 53377},
 																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
-																	pos: position{line: 1635, col: 5, offset: 53106},
+																	pos: position{line: 1639, col: 5, offset: 53377},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1635, col: 5, offset: 53106},
+																			pos:   position{line: 1639, col: 5, offset: 53377},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1642, col: 5, offset: 53379},
+																				pos: position{line: 1646, col: 5, offset: 53650},
 																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
-																					pos: position{line: 1642, col: 5, offset: 53379},
+																					pos: position{line: 1646, col: 5, offset: 53650},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1642, col: 5, offset: 53379},
+																							pos: position{line: 1646, col: 5, offset: 53650},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92139},
+																								pos: position{line: 2922, col: 10, offset: 92410},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92139},
+																									pos:        position{line: 2922, col: 10, offset: 92410},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27372,24 +27372,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1643, col: 5, offset: 53391},
+																							pos:   position{line: 1647, col: 5, offset: 53662},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1644, col: 9, offset: 53407},
+																								pos: position{line: 1648, col: 9, offset: 53678},
 																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
-																									pos: position{line: 1644, col: 10, offset: 53408},
+																									pos: position{line: 1648, col: 10, offset: 53679},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1644, col: 11, offset: 53409},
+																											pos:        position{line: 1648, col: 11, offset: 53680},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1644, col: 18, offset: 53416},
+																											pos: position{line: 1648, col: 18, offset: 53687},
 																											expr: &litMatcher{
-																												pos:        position{line: 1644, col: 19, offset: 53417},
+																												pos:        position{line: 1648, col: 19, offset: 53688},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27400,16 +27400,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1647, col: 7, offset: 53507},
+																							pos: position{line: 1651, col: 7, offset: 53778},
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2922, col: 11, offset: 92200},
+																							pos: position{line: 2926, col: 11, offset: 92471},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2922, col: 11, offset: 92200},
+																								pos: position{line: 2926, col: 11, offset: 92471},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 11, offset: 92200},
+																									pos:        position{line: 2926, col: 11, offset: 92471},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27422,56 +27422,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1636, col: 5, offset: 53147},
+																			pos:   position{line: 1640, col: 5, offset: 53418},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1636, col: 16, offset: 53158},
+																				pos: position{line: 1640, col: 16, offset: 53429},
 																				expr: &actionExpr{
-																					pos: position{line: 1657, col: 5, offset: 53772},
+																					pos: position{line: 1661, col: 5, offset: 54043},
 																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
-																						pos: position{line: 1657, col: 5, offset: 53772},
+																						pos: position{line: 1661, col: 5, offset: 54043},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1657, col: 5, offset: 53772},
+																								pos: position{line: 1661, col: 5, offset: 54043},
 																								expr: &litMatcher{
-																									pos:        position{line: 1657, col: 6, offset: 53773},
+																									pos:        position{line: 1661, col: 6, offset: 54044},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1657, col: 10, offset: 53777},
+																								pos:   position{line: 1661, col: 10, offset: 54048},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1658, col: 7, offset: 53791},
+																									pos: position{line: 1662, col: 7, offset: 54062},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1658, col: 7, offset: 53791},
+																											pos: position{line: 1662, col: 7, offset: 54062},
 																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
-																												pos:        position{line: 1658, col: 7, offset: 53791},
+																												pos:        position{line: 1662, col: 7, offset: 54062},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1659, col: 7, offset: 53836},
+																											pos: position{line: 1663, col: 7, offset: 54107},
 																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
-																												pos:        position{line: 1659, col: 7, offset: 53836},
+																												pos:        position{line: 1663, col: 7, offset: 54107},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1660, col: 7, offset: 53879},
+																											pos: position{line: 1664, col: 7, offset: 54150},
 																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
-																												pos:        position{line: 1660, col: 7, offset: 53879},
+																												pos:        position{line: 1664, col: 7, offset: 54150},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27481,12 +27481,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2922, col: 11, offset: 92200},
+																								pos: position{line: 2926, col: 11, offset: 92471},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2922, col: 11, offset: 92200},
+																									pos: position{line: 2926, col: 11, offset: 92471},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 11, offset: 92200},
+																										pos:        position{line: 2926, col: 11, offset: 92471},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27500,26 +27500,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1637, col: 5, offset: 53197},
+																			pos:   position{line: 1641, col: 5, offset: 53468},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1532, col: 5, offset: 49681},
+																				pos: position{line: 1536, col: 5, offset: 49952},
 																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
-																					pos: position{line: 1532, col: 5, offset: 49681},
+																					pos: position{line: 1536, col: 5, offset: 49952},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1532, col: 5, offset: 49681},
+																							pos:   position{line: 1536, col: 5, offset: 49952},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1532, col: 14, offset: 49690},
+																								pos: position{line: 1536, col: 14, offset: 49961},
 																								expr: &actionExpr{
-																									pos: position{line: 1532, col: 15, offset: 49691},
+																									pos: position{line: 1536, col: 15, offset: 49962},
 																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1532, col: 15, offset: 49691},
+																										pos: position{line: 1536, col: 15, offset: 49962},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1532, col: 15, offset: 49691},
+																											pos:        position{line: 1536, col: 15, offset: 49962},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27530,28 +27530,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27560,9 +27560,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -27575,36 +27575,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1726, col: 5, offset: 55751},
+																pos: position{line: 1730, col: 5, offset: 56022},
 																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1726, col: 5, offset: 55751},
+																	pos: position{line: 1730, col: 5, offset: 56022},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1726, col: 5, offset: 55751},
+																			pos:   position{line: 1730, col: 5, offset: 56022},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1732, col: 5, offset: 55948},
+																				pos: position{line: 1736, col: 5, offset: 56219},
 																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1732, col: 5, offset: 55948},
+																					pos: position{line: 1736, col: 5, offset: 56219},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1732, col: 5, offset: 55948},
+																							pos:        position{line: 1736, col: 5, offset: 56219},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1732, col: 9, offset: 55952},
+																							pos:   position{line: 1736, col: 9, offset: 56223},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1732, col: 14, offset: 55957},
+																								pos: position{line: 1736, col: 14, offset: 56228},
 																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1732, col: 14, offset: 55957},
+																									pos: position{line: 1736, col: 14, offset: 56228},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1732, col: 14, offset: 55957},
+																										pos:        position{line: 1736, col: 14, offset: 56228},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27614,18 +27614,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1732, col: 62, offset: 56005},
+																							pos:        position{line: 1736, col: 62, offset: 56276},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2922, col: 11, offset: 92200},
+																							pos: position{line: 2926, col: 11, offset: 92471},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2922, col: 11, offset: 92200},
+																								pos: position{line: 2926, col: 11, offset: 92471},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 11, offset: 92200},
+																									pos:        position{line: 2926, col: 11, offset: 92471},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27638,26 +27638,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1727, col: 5, offset: 55787},
+																			pos:   position{line: 1731, col: 5, offset: 56058},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1532, col: 5, offset: 49681},
+																				pos: position{line: 1536, col: 5, offset: 49952},
 																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
-																					pos: position{line: 1532, col: 5, offset: 49681},
+																					pos: position{line: 1536, col: 5, offset: 49952},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1532, col: 5, offset: 49681},
+																							pos:   position{line: 1536, col: 5, offset: 49952},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1532, col: 14, offset: 49690},
+																								pos: position{line: 1536, col: 14, offset: 49961},
 																								expr: &actionExpr{
-																									pos: position{line: 1532, col: 15, offset: 49691},
+																									pos: position{line: 1536, col: 15, offset: 49962},
 																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1532, col: 15, offset: 49691},
+																										pos: position{line: 1536, col: 15, offset: 49962},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1532, col: 15, offset: 49691},
+																											pos:        position{line: 1536, col: 15, offset: 49962},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27668,28 +27668,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27698,9 +27698,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -27713,35 +27713,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1669, col: 5, offset: 54072},
+																pos: position{line: 1673, col: 5, offset: 54343},
 																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
-																	pos: position{line: 1669, col: 5, offset: 54072},
+																	pos: position{line: 1673, col: 5, offset: 54343},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1669, col: 5, offset: 54072},
+																			pos:   position{line: 1673, col: 5, offset: 54343},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1677, col: 5, offset: 54398},
+																				pos: position{line: 1681, col: 5, offset: 54669},
 																				run: (*parser).callonExtraListElement403,
 																				expr: &seqExpr{
-																					pos: position{line: 1677, col: 5, offset: 54398},
+																					pos: position{line: 1681, col: 5, offset: 54669},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1677, col: 5, offset: 54398},
+																							pos: position{line: 1681, col: 5, offset: 54669},
 																							expr: &seqExpr{
-																								pos: position{line: 2526, col: 31, offset: 81167},
+																								pos: position{line: 2530, col: 31, offset: 81438},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2526, col: 31, offset: 81167},
+																										pos:        position{line: 2530, col: 31, offset: 81438},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2526, col: 36, offset: 81172},
+																										pos: position{line: 2530, col: 36, offset: 81443},
 																										expr: &litMatcher{
-																											pos:        position{line: 2526, col: 37, offset: 81173},
+																											pos:        position{line: 2530, col: 37, offset: 81444},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -27751,28 +27751,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1678, col: 5, offset: 54430},
+																							pos: position{line: 1682, col: 5, offset: 54701},
 																							expr: &seqExpr{
-																								pos: position{line: 1678, col: 6, offset: 54431},
+																								pos: position{line: 1682, col: 6, offset: 54702},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1678, col: 6, offset: 54431},
+																										pos: position{line: 1682, col: 6, offset: 54702},
 																										expr: &actionExpr{
-																											pos: position{line: 1683, col: 5, offset: 54581},
+																											pos: position{line: 1687, col: 5, offset: 54852},
 																											run: (*parser).callonExtraListElement413,
 																											expr: &seqExpr{
-																												pos: position{line: 1683, col: 5, offset: 54581},
+																												pos: position{line: 1687, col: 5, offset: 54852},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1683, col: 5, offset: 54581},
+																														pos:   position{line: 1687, col: 5, offset: 54852},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1683, col: 16, offset: 54592},
+																															pos: position{line: 1687, col: 16, offset: 54863},
 																															run: (*parser).callonExtraListElement416,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1683, col: 16, offset: 54592},
+																																pos: position{line: 1687, col: 16, offset: 54863},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1683, col: 17, offset: 54593},
+																																	pos:        position{line: 1687, col: 17, offset: 54864},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -27781,7 +27781,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1686, col: 5, offset: 54650},
+																														pos: position{line: 1690, col: 5, offset: 54921},
 																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
@@ -27789,30 +27789,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1678, col: 35, offset: 54460},
+																										pos: position{line: 1682, col: 35, offset: 54731},
 																										expr: &choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92537},
+																											pos: position{line: 2944, col: 8, offset: 92808},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92310},
+																													pos: position{line: 2931, col: 12, offset: 92581},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92311},
+																														pos: position{line: 2931, col: 13, offset: 92582},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92311},
+																																pos:        position{line: 2931, col: 13, offset: 92582},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92318},
+																																pos:        position{line: 2931, col: 20, offset: 92589},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92327},
+																																pos:        position{line: 2931, col: 29, offset: 92598},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27821,16 +27821,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92487},
+																													pos: position{line: 2941, col: 8, offset: 92758},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92488,
+																														line: 2941, col: 9, offset: 92759,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1678, col: 40, offset: 54465,
+																										line: 1682, col: 40, offset: 54736,
 																									},
 																								},
 																							},
@@ -27840,24 +27840,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1670, col: 5, offset: 54107},
+																			pos:   position{line: 1674, col: 5, offset: 54378},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1683, col: 5, offset: 54581},
+																				pos: position{line: 1687, col: 5, offset: 54852},
 																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1683, col: 5, offset: 54581},
+																					pos: position{line: 1687, col: 5, offset: 54852},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1683, col: 5, offset: 54581},
+																							pos:   position{line: 1687, col: 5, offset: 54852},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1683, col: 16, offset: 54592},
+																								pos: position{line: 1687, col: 16, offset: 54863},
 																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1683, col: 16, offset: 54592},
+																									pos: position{line: 1687, col: 16, offset: 54863},
 																									expr: &litMatcher{
-																										pos:        position{line: 1683, col: 17, offset: 54593},
+																										pos:        position{line: 1687, col: 17, offset: 54864},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27866,7 +27866,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1686, col: 5, offset: 54650},
+																							pos: position{line: 1690, col: 5, offset: 54921},
 																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
@@ -27874,24 +27874,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1671, col: 5, offset: 54152},
+																			pos:   position{line: 1675, col: 5, offset: 54423},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1694, col: 5, offset: 54899},
+																				pos: position{line: 1698, col: 5, offset: 55170},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1696, col: 9, offset: 54965},
+																						pos: position{line: 1700, col: 9, offset: 55236},
 																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1696, col: 9, offset: 54965},
+																							pos: position{line: 1700, col: 9, offset: 55236},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1696, col: 9, offset: 54965},
+																									pos: position{line: 1700, col: 9, offset: 55236},
 																									expr: &actionExpr{
-																										pos: position{line: 2918, col: 10, offset: 92139},
+																										pos: position{line: 2922, col: 10, offset: 92410},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2918, col: 10, offset: 92139},
+																											pos:        position{line: 2922, col: 10, offset: 92410},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27900,28 +27900,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92537},
+																									pos: position{line: 2944, col: 8, offset: 92808},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92310},
+																											pos: position{line: 2931, col: 12, offset: 92581},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92311},
+																												pos: position{line: 2931, col: 13, offset: 92582},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92311},
+																														pos:        position{line: 2931, col: 13, offset: 92582},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92318},
+																														pos:        position{line: 2931, col: 20, offset: 92589},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92327},
+																														pos:        position{line: 2931, col: 29, offset: 92598},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27930,34 +27930,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92487},
+																											pos: position{line: 2941, col: 8, offset: 92758},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92488,
+																												line: 2941, col: 9, offset: 92759,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1697, col: 9, offset: 54984},
+																									pos: position{line: 1701, col: 9, offset: 55255},
 																									expr: &actionExpr{
-																										pos: position{line: 686, col: 14, offset: 21901},
+																										pos: position{line: 690, col: 14, offset: 22172},
 																										run: (*parser).callonExtraListElement454,
 																										expr: &seqExpr{
-																											pos: position{line: 686, col: 14, offset: 21901},
+																											pos: position{line: 690, col: 14, offset: 22172},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2935, col: 11, offset: 92473},
+																													pos: position{line: 2939, col: 11, offset: 92744},
 																													expr: &anyMatcher{
-																														line: 2935, col: 13, offset: 92475,
+																														line: 2939, col: 13, offset: 92746,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 686, col: 21, offset: 21908},
+																													pos: position{line: 690, col: 21, offset: 22179},
 																													expr: &actionExpr{
-																														pos: position{line: 2918, col: 10, offset: 92139},
+																														pos: position{line: 2922, col: 10, offset: 92410},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2918, col: 10, offset: 92139},
+																															pos:        position{line: 2922, col: 10, offset: 92410},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27966,28 +27966,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2940, col: 8, offset: 92537},
+																													pos: position{line: 2944, col: 8, offset: 92808},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2927, col: 12, offset: 92310},
+																															pos: position{line: 2931, col: 12, offset: 92581},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2927, col: 13, offset: 92311},
+																																pos: position{line: 2931, col: 13, offset: 92582},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 13, offset: 92311},
+																																		pos:        position{line: 2931, col: 13, offset: 92582},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 20, offset: 92318},
+																																		pos:        position{line: 2931, col: 20, offset: 92589},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 29, offset: 92327},
+																																		pos:        position{line: 2931, col: 29, offset: 92598},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27996,9 +27996,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2937, col: 8, offset: 92487},
+																															pos: position{line: 2941, col: 8, offset: 92758},
 																															expr: &anyMatcher{
-																																line: 2937, col: 9, offset: 92488,
+																																line: 2941, col: 9, offset: 92759,
 																															},
 																														},
 																													},
@@ -28011,18 +28011,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1703, col: 9, offset: 55113},
+																						pos: position{line: 1707, col: 9, offset: 55384},
 																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1703, col: 9, offset: 55113},
+																							pos: position{line: 1707, col: 9, offset: 55384},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2922, col: 11, offset: 92200},
+																									pos: position{line: 2926, col: 11, offset: 92471},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2922, col: 11, offset: 92200},
+																										pos: position{line: 2926, col: 11, offset: 92471},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 11, offset: 92200},
+																											pos:        position{line: 2926, col: 11, offset: 92471},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28031,15 +28031,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1704, col: 9, offset: 55186},
+																									pos:   position{line: 1708, col: 9, offset: 55457},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1704, col: 18, offset: 55195},
+																										pos: position{line: 1708, col: 18, offset: 55466},
 																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1704, col: 18, offset: 55195},
+																											pos: position{line: 1708, col: 18, offset: 55466},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1704, col: 18, offset: 55195},
+																												pos:        position{line: 1708, col: 18, offset: 55466},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28049,28 +28049,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92537},
+																									pos: position{line: 2944, col: 8, offset: 92808},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92310},
+																											pos: position{line: 2931, col: 12, offset: 92581},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92311},
+																												pos: position{line: 2931, col: 13, offset: 92582},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92311},
+																														pos:        position{line: 2931, col: 13, offset: 92582},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92318},
+																														pos:        position{line: 2931, col: 20, offset: 92589},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92327},
+																														pos:        position{line: 2931, col: 29, offset: 92598},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28079,9 +28079,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92487},
+																											pos: position{line: 2941, col: 8, offset: 92758},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92488,
+																												line: 2941, col: 9, offset: 92759,
 																											},
 																										},
 																									},
@@ -28102,40 +28102,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1511, col: 11, offset: 49045},
+										pos:  position{line: 1515, col: 11, offset: 49316},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2521, col: 22, offset: 80917},
+										pos: position{line: 2525, col: 22, offset: 81188},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2521, col: 22, offset: 80917},
+											pos: position{line: 2525, col: 22, offset: 81188},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2526, col: 31, offset: 81167},
+													pos:        position{line: 2530, col: 31, offset: 81438},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2526, col: 36, offset: 81172},
+													pos: position{line: 2530, col: 36, offset: 81443},
 													expr: &litMatcher{
-														pos:        position{line: 2526, col: 37, offset: 81173},
+														pos:        position{line: 2530, col: 37, offset: 81444},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2521, col: 49, offset: 80944},
+													pos:   position{line: 2525, col: 49, offset: 81215},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 13, offset: 90665},
+														pos: position{line: 2868, col: 13, offset: 90936},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2864, col: 13, offset: 90665},
+															pos: position{line: 2868, col: 13, offset: 90936},
 															expr: &charClassMatcher{
-																pos:        position{line: 2864, col: 13, offset: 90665},
+																pos:        position{line: 2868, col: 13, offset: 90936},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28145,28 +28145,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2940, col: 8, offset: 92537},
+													pos: position{line: 2944, col: 8, offset: 92808},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92310},
+															pos: position{line: 2931, col: 12, offset: 92581},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92311},
+																pos: position{line: 2931, col: 13, offset: 92582},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92311},
+																		pos:        position{line: 2931, col: 13, offset: 92582},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92318},
+																		pos:        position{line: 2931, col: 20, offset: 92589},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92327},
+																		pos:        position{line: 2931, col: 29, offset: 92598},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28175,9 +28175,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2937, col: 8, offset: 92487},
+															pos: position{line: 2941, col: 8, offset: 92758},
 															expr: &anyMatcher{
-																line: 2937, col: 9, offset: 92488,
+																line: 2941, col: 9, offset: 92759,
 															},
 														},
 													},
@@ -28186,32 +28186,32 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1519, col: 5, offset: 49323},
+										pos: position{line: 1523, col: 5, offset: 49594},
 										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
-											pos: position{line: 1519, col: 5, offset: 49323},
+											pos: position{line: 1523, col: 5, offset: 49594},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1519, col: 5, offset: 49323},
+													pos: position{line: 1523, col: 5, offset: 49594},
 													expr: &actionExpr{
-														pos: position{line: 686, col: 14, offset: 21901},
+														pos: position{line: 690, col: 14, offset: 22172},
 														run: (*parser).callonExtraListElement507,
 														expr: &seqExpr{
-															pos: position{line: 686, col: 14, offset: 21901},
+															pos: position{line: 690, col: 14, offset: 22172},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2935, col: 11, offset: 92473},
+																	pos: position{line: 2939, col: 11, offset: 92744},
 																	expr: &anyMatcher{
-																		line: 2935, col: 13, offset: 92475,
+																		line: 2939, col: 13, offset: 92746,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 686, col: 21, offset: 21908},
+																	pos: position{line: 690, col: 21, offset: 22179},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92139},
+																		pos: position{line: 2922, col: 10, offset: 92410},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92139},
+																			pos:        position{line: 2922, col: 10, offset: 92410},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28220,28 +28220,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92537},
+																	pos: position{line: 2944, col: 8, offset: 92808},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92310},
+																			pos: position{line: 2931, col: 12, offset: 92581},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92311},
+																				pos: position{line: 2931, col: 13, offset: 92582},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92311},
+																						pos:        position{line: 2931, col: 13, offset: 92582},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92318},
+																						pos:        position{line: 2931, col: 20, offset: 92589},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92327},
+																						pos:        position{line: 2931, col: 29, offset: 92598},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28250,9 +28250,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92487},
+																			pos: position{line: 2941, col: 8, offset: 92758},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92488,
+																				line: 2941, col: 9, offset: 92759,
 																			},
 																		},
 																	},
@@ -28262,23 +28262,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1520, col: 5, offset: 49338},
+													pos: position{line: 1524, col: 5, offset: 49609},
 													expr: &seqExpr{
-														pos: position{line: 1551, col: 27, offset: 50198},
+														pos: position{line: 1555, col: 27, offset: 50469},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1551, col: 27, offset: 50198},
+																pos:        position{line: 1555, col: 27, offset: 50469},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1551, col: 31, offset: 50202},
+																pos: position{line: 1555, col: 31, offset: 50473},
 																expr: &actionExpr{
-																	pos: position{line: 2918, col: 10, offset: 92139},
+																	pos: position{line: 2922, col: 10, offset: 92410},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2918, col: 10, offset: 92139},
+																		pos:        position{line: 2922, col: 10, offset: 92410},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28287,25 +28287,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92310},
+																pos: position{line: 2931, col: 12, offset: 92581},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2927, col: 13, offset: 92311},
+																	pos: position{line: 2931, col: 13, offset: 92582},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 13, offset: 92311},
+																			pos:        position{line: 2931, col: 13, offset: 92582},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 20, offset: 92318},
+																			pos:        position{line: 2931, col: 20, offset: 92589},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 29, offset: 92327},
+																			pos:        position{line: 2931, col: 29, offset: 92598},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28317,20 +28317,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1521, col: 5, offset: 49366},
+													pos: position{line: 1525, col: 5, offset: 49637},
 													expr: &actionExpr{
-														pos: position{line: 1592, col: 5, offset: 51417},
+														pos: position{line: 1596, col: 5, offset: 51688},
 														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
-															pos: position{line: 1592, col: 5, offset: 51417},
+															pos: position{line: 1596, col: 5, offset: 51688},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1592, col: 5, offset: 51417},
+																	pos: position{line: 1596, col: 5, offset: 51688},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92139},
+																		pos: position{line: 2922, col: 10, offset: 92410},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92139},
+																			pos:        position{line: 2922, col: 10, offset: 92410},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28339,27 +28339,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1592, col: 12, offset: 51424},
+																	pos:   position{line: 1596, col: 12, offset: 51695},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1594, col: 9, offset: 51487},
+																		pos: position{line: 1598, col: 9, offset: 51758},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1594, col: 9, offset: 51487},
+																				pos: position{line: 1598, col: 9, offset: 51758},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1594, col: 9, offset: 51487},
+																					pos: position{line: 1598, col: 9, offset: 51758},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1594, col: 9, offset: 51487},
+																							pos:   position{line: 1598, col: 9, offset: 51758},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1594, col: 16, offset: 51494},
+																								pos: position{line: 1598, col: 16, offset: 51765},
 																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1594, col: 16, offset: 51494},
+																									pos: position{line: 1598, col: 16, offset: 51765},
 																									expr: &litMatcher{
-																										pos:        position{line: 1594, col: 17, offset: 51495},
+																										pos:        position{line: 1598, col: 17, offset: 51766},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28368,22 +28368,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1598, col: 9, offset: 51595},
+																							pos: position{line: 1602, col: 9, offset: 51866},
 																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1617, col: 11, offset: 52312},
+																				pos: position{line: 1621, col: 11, offset: 52583},
 																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 11, offset: 52312},
+																					pos: position{line: 1621, col: 11, offset: 52583},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1617, col: 11, offset: 52312},
+																							pos: position{line: 1621, col: 11, offset: 52583},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1617, col: 12, offset: 52313},
+																								pos:        position{line: 1621, col: 12, offset: 52584},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28391,7 +28391,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1617, col: 20, offset: 52321},
+																							pos:        position{line: 1621, col: 20, offset: 52592},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28400,20 +28400,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1619, col: 13, offset: 52438},
+																				pos: position{line: 1623, col: 13, offset: 52709},
 																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
-																					pos: position{line: 1619, col: 13, offset: 52438},
+																					pos: position{line: 1623, col: 13, offset: 52709},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1619, col: 14, offset: 52439},
+																							pos:        position{line: 1623, col: 14, offset: 52710},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1619, col: 21, offset: 52446},
+																							pos:        position{line: 1623, col: 21, offset: 52717},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28422,20 +28422,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 13, offset: 52566},
+																				pos: position{line: 1625, col: 13, offset: 52837},
 																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 13, offset: 52566},
+																					pos: position{line: 1625, col: 13, offset: 52837},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1621, col: 14, offset: 52567},
+																							pos:        position{line: 1625, col: 14, offset: 52838},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 21, offset: 52574},
+																							pos:        position{line: 1625, col: 21, offset: 52845},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28444,15 +28444,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1623, col: 13, offset: 52694},
+																				pos: position{line: 1627, col: 13, offset: 52965},
 																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
-																					pos: position{line: 1623, col: 13, offset: 52694},
+																					pos: position{line: 1627, col: 13, offset: 52965},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1623, col: 13, offset: 52694},
+																							pos: position{line: 1627, col: 13, offset: 52965},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1623, col: 14, offset: 52695},
+																								pos:        position{line: 1627, col: 14, offset: 52966},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28460,7 +28460,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1623, col: 26, offset: 52707},
+																							pos:        position{line: 1627, col: 26, offset: 52978},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28469,15 +28469,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1625, col: 13, offset: 52827},
+																				pos: position{line: 1629, col: 13, offset: 53098},
 																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
-																					pos: position{line: 1625, col: 13, offset: 52827},
+																					pos: position{line: 1629, col: 13, offset: 53098},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1625, col: 13, offset: 52827},
+																							pos: position{line: 1629, col: 13, offset: 53098},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1625, col: 14, offset: 52828},
+																								pos:        position{line: 1629, col: 14, offset: 53099},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28485,7 +28485,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1625, col: 26, offset: 52840},
+																							pos:        position{line: 1629, col: 26, offset: 53111},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28497,12 +28497,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2922, col: 11, offset: 92200},
+																	pos: position{line: 2926, col: 11, offset: 92471},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2922, col: 11, offset: 92200},
+																		pos: position{line: 2926, col: 11, offset: 92471},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 11, offset: 92200},
+																			pos:        position{line: 2926, col: 11, offset: 92471},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28515,20 +28515,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1522, col: 5, offset: 49396},
+													pos: position{line: 1526, col: 5, offset: 49667},
 													expr: &actionExpr{
-														pos: position{line: 1642, col: 5, offset: 53379},
+														pos: position{line: 1646, col: 5, offset: 53650},
 														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
-															pos: position{line: 1642, col: 5, offset: 53379},
+															pos: position{line: 1646, col: 5, offset: 53650},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1642, col: 5, offset: 53379},
+																	pos: position{line: 1646, col: 5, offset: 53650},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92139},
+																		pos: position{line: 2922, col: 10, offset: 92410},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92139},
+																			pos:        position{line: 2922, col: 10, offset: 92410},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28537,24 +28537,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1643, col: 5, offset: 53391},
+																	pos:   position{line: 1647, col: 5, offset: 53662},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1644, col: 9, offset: 53407},
+																		pos: position{line: 1648, col: 9, offset: 53678},
 																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
-																			pos: position{line: 1644, col: 10, offset: 53408},
+																			pos: position{line: 1648, col: 10, offset: 53679},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1644, col: 11, offset: 53409},
+																					pos:        position{line: 1648, col: 11, offset: 53680},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1644, col: 18, offset: 53416},
+																					pos: position{line: 1648, col: 18, offset: 53687},
 																					expr: &litMatcher{
-																						pos:        position{line: 1644, col: 19, offset: 53417},
+																						pos:        position{line: 1648, col: 19, offset: 53688},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28565,16 +28565,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1647, col: 7, offset: 53507},
+																	pos: position{line: 1651, col: 7, offset: 53778},
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2922, col: 11, offset: 92200},
+																	pos: position{line: 2926, col: 11, offset: 92471},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2922, col: 11, offset: 92200},
+																		pos: position{line: 2926, col: 11, offset: 92471},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 11, offset: 92200},
+																			pos:        position{line: 2926, col: 11, offset: 92471},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28587,29 +28587,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1523, col: 5, offset: 49428},
+													pos: position{line: 1527, col: 5, offset: 49699},
 													expr: &actionExpr{
-														pos: position{line: 1732, col: 5, offset: 55948},
+														pos: position{line: 1736, col: 5, offset: 56219},
 														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1732, col: 5, offset: 55948},
+															pos: position{line: 1736, col: 5, offset: 56219},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1732, col: 5, offset: 55948},
+																	pos:        position{line: 1736, col: 5, offset: 56219},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1732, col: 9, offset: 55952},
+																	pos:   position{line: 1736, col: 9, offset: 56223},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1732, col: 14, offset: 55957},
+																		pos: position{line: 1736, col: 14, offset: 56228},
 																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1732, col: 14, offset: 55957},
+																			pos: position{line: 1736, col: 14, offset: 56228},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1732, col: 14, offset: 55957},
+																				pos:        position{line: 1736, col: 14, offset: 56228},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28619,18 +28619,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1732, col: 62, offset: 56005},
+																	pos:        position{line: 1736, col: 62, offset: 56276},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2922, col: 11, offset: 92200},
+																	pos: position{line: 2926, col: 11, offset: 92471},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2922, col: 11, offset: 92200},
+																		pos: position{line: 2926, col: 11, offset: 92471},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 11, offset: 92200},
+																			pos:        position{line: 2926, col: 11, offset: 92471},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28643,31 +28643,31 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1524, col: 5, offset: 49458},
+													pos: position{line: 1528, col: 5, offset: 49729},
 													expr: &seqExpr{
-														pos: position{line: 1524, col: 7, offset: 49460},
+														pos: position{line: 1528, col: 7, offset: 49731},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1677, col: 5, offset: 54398},
+																pos: position{line: 1681, col: 5, offset: 54669},
 																run: (*parser).callonExtraListElement604,
 																expr: &seqExpr{
-																	pos: position{line: 1677, col: 5, offset: 54398},
+																	pos: position{line: 1681, col: 5, offset: 54669},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1677, col: 5, offset: 54398},
+																			pos: position{line: 1681, col: 5, offset: 54669},
 																			expr: &seqExpr{
-																				pos: position{line: 2526, col: 31, offset: 81167},
+																				pos: position{line: 2530, col: 31, offset: 81438},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2526, col: 31, offset: 81167},
+																						pos:        position{line: 2530, col: 31, offset: 81438},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2526, col: 36, offset: 81172},
+																						pos: position{line: 2530, col: 36, offset: 81443},
 																						expr: &litMatcher{
-																							pos:        position{line: 2526, col: 37, offset: 81173},
+																							pos:        position{line: 2530, col: 37, offset: 81444},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -28677,28 +28677,28 @@ var g = &grammar{
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1678, col: 5, offset: 54430},
+																			pos: position{line: 1682, col: 5, offset: 54701},
 																			expr: &seqExpr{
-																				pos: position{line: 1678, col: 6, offset: 54431},
+																				pos: position{line: 1682, col: 6, offset: 54702},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1678, col: 6, offset: 54431},
+																						pos: position{line: 1682, col: 6, offset: 54702},
 																						expr: &actionExpr{
-																							pos: position{line: 1683, col: 5, offset: 54581},
+																							pos: position{line: 1687, col: 5, offset: 54852},
 																							run: (*parser).callonExtraListElement614,
 																							expr: &seqExpr{
-																								pos: position{line: 1683, col: 5, offset: 54581},
+																								pos: position{line: 1687, col: 5, offset: 54852},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1683, col: 5, offset: 54581},
+																										pos:   position{line: 1687, col: 5, offset: 54852},
 																										label: "separator",
 																										expr: &actionExpr{
-																											pos: position{line: 1683, col: 16, offset: 54592},
+																											pos: position{line: 1687, col: 16, offset: 54863},
 																											run: (*parser).callonExtraListElement617,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1683, col: 16, offset: 54592},
+																												pos: position{line: 1687, col: 16, offset: 54863},
 																												expr: &litMatcher{
-																													pos:        position{line: 1683, col: 17, offset: 54593},
+																													pos:        position{line: 1687, col: 17, offset: 54864},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
@@ -28707,7 +28707,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1686, col: 5, offset: 54650},
+																										pos: position{line: 1690, col: 5, offset: 54921},
 																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
@@ -28715,30 +28715,30 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1678, col: 35, offset: 54460},
+																						pos: position{line: 1682, col: 35, offset: 54731},
 																						expr: &choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28747,16 +28747,16 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1678, col: 40, offset: 54465,
+																						line: 1682, col: 40, offset: 54736,
 																					},
 																				},
 																			},
@@ -28765,21 +28765,21 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1683, col: 5, offset: 54581},
+																pos: position{line: 1687, col: 5, offset: 54852},
 																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1683, col: 5, offset: 54581},
+																	pos: position{line: 1687, col: 5, offset: 54852},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1683, col: 5, offset: 54581},
+																			pos:   position{line: 1687, col: 5, offset: 54852},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1683, col: 16, offset: 54592},
+																				pos: position{line: 1687, col: 16, offset: 54863},
 																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1683, col: 16, offset: 54592},
+																					pos: position{line: 1687, col: 16, offset: 54863},
 																					expr: &litMatcher{
-																						pos:        position{line: 1683, col: 17, offset: 54593},
+																						pos:        position{line: 1687, col: 17, offset: 54864},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28788,7 +28788,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1686, col: 5, offset: 54650},
+																			pos: position{line: 1690, col: 5, offset: 54921},
 																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
@@ -28798,17 +28798,17 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1525, col: 5, offset: 49516},
+													pos: position{line: 1529, col: 5, offset: 49787},
 													expr: &actionExpr{
-														pos: position{line: 733, col: 5, offset: 23454},
+														pos: position{line: 737, col: 5, offset: 23725},
 														run: (*parser).callonExtraListElement639,
 														expr: &seqExpr{
-															pos: position{line: 733, col: 5, offset: 23454},
+															pos: position{line: 737, col: 5, offset: 23725},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 733, col: 5, offset: 23454},
+																	pos: position{line: 737, col: 5, offset: 23725},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2808, col: 13, offset: 89234},
+																		pos:        position{line: 2812, col: 13, offset: 89505},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28816,36 +28816,36 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 734, col: 5, offset: 23484},
+																	pos:   position{line: 738, col: 5, offset: 23755},
 																	label: "delimiter",
 																	expr: &choiceExpr{
-																		pos: position{line: 735, col: 9, offset: 23504},
+																		pos: position{line: 739, col: 9, offset: 23775},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 749, col: 5, offset: 23996},
+																				pos: position{line: 753, col: 5, offset: 24267},
 																				run: (*parser).callonExtraListElement645,
 																				expr: &seqExpr{
-																					pos: position{line: 749, col: 5, offset: 23996},
+																					pos: position{line: 753, col: 5, offset: 24267},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 749, col: 5, offset: 23996},
+																							pos:   position{line: 753, col: 5, offset: 24267},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 749, col: 16, offset: 24007},
+																								pos: position{line: 753, col: 16, offset: 24278},
 																								run: (*parser).callonExtraListElement648,
 																								expr: &seqExpr{
-																									pos: position{line: 749, col: 16, offset: 24007},
+																									pos: position{line: 753, col: 16, offset: 24278},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 749, col: 16, offset: 24007},
+																											pos:        position{line: 753, col: 16, offset: 24278},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 749, col: 23, offset: 24014},
+																											pos: position{line: 753, col: 23, offset: 24285},
 																											expr: &litMatcher{
-																												pos:        position{line: 749, col: 23, offset: 24014},
+																												pos:        position{line: 753, col: 23, offset: 24285},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -28856,12 +28856,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 751, col: 8, offset: 24098},
+																							pos: position{line: 755, col: 8, offset: 24369},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92139},
+																								pos: position{line: 2922, col: 10, offset: 92410},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92139},
+																									pos:        position{line: 2922, col: 10, offset: 92410},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28870,28 +28870,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28900,9 +28900,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -28911,30 +28911,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 756, col: 5, offset: 24244},
+																				pos: position{line: 760, col: 5, offset: 24515},
 																				run: (*parser).callonExtraListElement664,
 																				expr: &seqExpr{
-																					pos: position{line: 756, col: 5, offset: 24244},
+																					pos: position{line: 760, col: 5, offset: 24515},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 756, col: 5, offset: 24244},
+																							pos:   position{line: 760, col: 5, offset: 24515},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 756, col: 16, offset: 24255},
+																								pos: position{line: 760, col: 16, offset: 24526},
 																								run: (*parser).callonExtraListElement667,
 																								expr: &seqExpr{
-																									pos: position{line: 756, col: 16, offset: 24255},
+																									pos: position{line: 760, col: 16, offset: 24526},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 756, col: 16, offset: 24255},
+																											pos:        position{line: 760, col: 16, offset: 24526},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 756, col: 23, offset: 24262},
+																											pos: position{line: 760, col: 23, offset: 24533},
 																											expr: &litMatcher{
-																												pos:        position{line: 756, col: 23, offset: 24262},
+																												pos:        position{line: 760, col: 23, offset: 24533},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -28945,12 +28945,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 758, col: 8, offset: 24346},
+																							pos: position{line: 762, col: 8, offset: 24617},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92139},
+																								pos: position{line: 2922, col: 10, offset: 92410},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92139},
+																									pos:        position{line: 2922, col: 10, offset: 92410},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28959,28 +28959,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28989,9 +28989,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -29000,27 +29000,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 769, col: 26, offset: 24732},
+																				pos: position{line: 773, col: 26, offset: 25003},
 																				run: (*parser).callonExtraListElement683,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 26, offset: 24732},
+																					pos: position{line: 773, col: 26, offset: 25003},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 769, col: 26, offset: 24732},
+																							pos:        position{line: 773, col: 26, offset: 25003},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 769, col: 32, offset: 24738},
+																							pos:   position{line: 773, col: 32, offset: 25009},
 																							label: "language",
 																							expr: &actionExpr{
-																								pos: position{line: 773, col: 13, offset: 24868},
+																								pos: position{line: 777, col: 13, offset: 25139},
 																								run: (*parser).callonExtraListElement687,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 773, col: 14, offset: 24869},
+																									pos: position{line: 777, col: 14, offset: 25140},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 773, col: 14, offset: 24869},
+																										pos:        position{line: 777, col: 14, offset: 25140},
 																										val:        "[^\\r\\n` ]",
 																										chars:      []rune{'\r', '\n', '`', ' '},
 																										ignoreCase: false,
@@ -29030,12 +29030,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 769, col: 52, offset: 24758},
+																							pos: position{line: 773, col: 52, offset: 25029},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92139},
+																								pos: position{line: 2922, col: 10, offset: 92410},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92139},
+																									pos:        position{line: 2922, col: 10, offset: 92410},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29044,28 +29044,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29074,9 +29074,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -29085,30 +29085,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 763, col: 5, offset: 24491},
+																				pos: position{line: 767, col: 5, offset: 24762},
 																				run: (*parser).callonExtraListElement701,
 																				expr: &seqExpr{
-																					pos: position{line: 763, col: 5, offset: 24491},
+																					pos: position{line: 767, col: 5, offset: 24762},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 763, col: 5, offset: 24491},
+																							pos:   position{line: 767, col: 5, offset: 24762},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 763, col: 16, offset: 24502},
+																								pos: position{line: 767, col: 16, offset: 24773},
 																								run: (*parser).callonExtraListElement704,
 																								expr: &seqExpr{
-																									pos: position{line: 763, col: 16, offset: 24502},
+																									pos: position{line: 767, col: 16, offset: 24773},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 763, col: 16, offset: 24502},
+																											pos:        position{line: 767, col: 16, offset: 24773},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 763, col: 22, offset: 24508},
+																											pos: position{line: 767, col: 22, offset: 24779},
 																											expr: &litMatcher{
-																												pos:        position{line: 763, col: 22, offset: 24508},
+																												pos:        position{line: 767, col: 22, offset: 24779},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -29119,12 +29119,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 765, col: 8, offset: 24592},
+																							pos: position{line: 769, col: 8, offset: 24863},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92139},
+																								pos: position{line: 2922, col: 10, offset: 92410},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92139},
+																									pos:        position{line: 2922, col: 10, offset: 92410},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29133,28 +29133,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29163,9 +29163,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -29174,30 +29174,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 778, col: 5, offset: 25028},
+																				pos: position{line: 782, col: 5, offset: 25299},
 																				run: (*parser).callonExtraListElement720,
 																				expr: &seqExpr{
-																					pos: position{line: 778, col: 5, offset: 25028},
+																					pos: position{line: 782, col: 5, offset: 25299},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 778, col: 5, offset: 25028},
+																							pos:   position{line: 782, col: 5, offset: 25299},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 778, col: 16, offset: 25039},
+																								pos: position{line: 782, col: 16, offset: 25310},
 																								run: (*parser).callonExtraListElement723,
 																								expr: &seqExpr{
-																									pos: position{line: 778, col: 16, offset: 25039},
+																									pos: position{line: 782, col: 16, offset: 25310},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 778, col: 16, offset: 25039},
+																											pos:        position{line: 782, col: 16, offset: 25310},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 778, col: 23, offset: 25046},
+																											pos: position{line: 782, col: 23, offset: 25317},
 																											expr: &litMatcher{
-																												pos:        position{line: 778, col: 23, offset: 25046},
+																												pos:        position{line: 782, col: 23, offset: 25317},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -29208,12 +29208,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 780, col: 8, offset: 25130},
+																							pos: position{line: 784, col: 8, offset: 25401},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92139},
+																								pos: position{line: 2922, col: 10, offset: 92410},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92139},
+																									pos:        position{line: 2922, col: 10, offset: 92410},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29222,28 +29222,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29252,9 +29252,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -29263,30 +29263,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 792, col: 5, offset: 25504},
+																				pos: position{line: 796, col: 5, offset: 25775},
 																				run: (*parser).callonExtraListElement739,
 																				expr: &seqExpr{
-																					pos: position{line: 792, col: 5, offset: 25504},
+																					pos: position{line: 796, col: 5, offset: 25775},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 792, col: 5, offset: 25504},
+																							pos:   position{line: 796, col: 5, offset: 25775},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 792, col: 16, offset: 25515},
+																								pos: position{line: 796, col: 16, offset: 25786},
 																								run: (*parser).callonExtraListElement742,
 																								expr: &seqExpr{
-																									pos: position{line: 792, col: 16, offset: 25515},
+																									pos: position{line: 796, col: 16, offset: 25786},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 792, col: 16, offset: 25515},
+																											pos:        position{line: 796, col: 16, offset: 25786},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 792, col: 23, offset: 25522},
+																											pos: position{line: 796, col: 23, offset: 25793},
 																											expr: &litMatcher{
-																												pos:        position{line: 792, col: 23, offset: 25522},
+																												pos:        position{line: 796, col: 23, offset: 25793},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -29297,12 +29297,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 794, col: 8, offset: 25606},
+																							pos: position{line: 798, col: 8, offset: 25877},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92139},
+																								pos: position{line: 2922, col: 10, offset: 92410},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92139},
+																									pos:        position{line: 2922, col: 10, offset: 92410},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29311,28 +29311,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29341,9 +29341,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -29352,30 +29352,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 799, col: 5, offset: 25756},
+																				pos: position{line: 803, col: 5, offset: 26027},
 																				run: (*parser).callonExtraListElement758,
 																				expr: &seqExpr{
-																					pos: position{line: 799, col: 5, offset: 25756},
+																					pos: position{line: 803, col: 5, offset: 26027},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 799, col: 5, offset: 25756},
+																							pos:   position{line: 803, col: 5, offset: 26027},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 799, col: 16, offset: 25767},
+																								pos: position{line: 803, col: 16, offset: 26038},
 																								run: (*parser).callonExtraListElement761,
 																								expr: &seqExpr{
-																									pos: position{line: 799, col: 16, offset: 25767},
+																									pos: position{line: 803, col: 16, offset: 26038},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 799, col: 16, offset: 25767},
+																											pos:        position{line: 803, col: 16, offset: 26038},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 799, col: 23, offset: 25774},
+																											pos: position{line: 803, col: 23, offset: 26045},
 																											expr: &litMatcher{
-																												pos:        position{line: 799, col: 23, offset: 25774},
+																												pos:        position{line: 803, col: 23, offset: 26045},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -29386,12 +29386,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 801, col: 8, offset: 25858},
+																							pos: position{line: 805, col: 8, offset: 26129},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92139},
+																								pos: position{line: 2922, col: 10, offset: 92410},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92139},
+																									pos:        position{line: 2922, col: 10, offset: 92410},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29400,28 +29400,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29430,9 +29430,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -29441,30 +29441,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 806, col: 5, offset: 26006},
+																				pos: position{line: 810, col: 5, offset: 26277},
 																				run: (*parser).callonExtraListElement777,
 																				expr: &seqExpr{
-																					pos: position{line: 806, col: 5, offset: 26006},
+																					pos: position{line: 810, col: 5, offset: 26277},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 806, col: 5, offset: 26006},
+																							pos:   position{line: 810, col: 5, offset: 26277},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 806, col: 16, offset: 26017},
+																								pos: position{line: 810, col: 16, offset: 26288},
 																								run: (*parser).callonExtraListElement780,
 																								expr: &seqExpr{
-																									pos: position{line: 806, col: 16, offset: 26017},
+																									pos: position{line: 810, col: 16, offset: 26288},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 806, col: 16, offset: 26017},
+																											pos:        position{line: 810, col: 16, offset: 26288},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 806, col: 23, offset: 26024},
+																											pos: position{line: 810, col: 23, offset: 26295},
 																											expr: &litMatcher{
-																												pos:        position{line: 806, col: 23, offset: 26024},
+																												pos:        position{line: 810, col: 23, offset: 26295},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -29475,12 +29475,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 808, col: 8, offset: 26108},
+																							pos: position{line: 812, col: 8, offset: 26379},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92139},
+																								pos: position{line: 2922, col: 10, offset: 92410},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92139},
+																									pos:        position{line: 2922, col: 10, offset: 92410},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29489,28 +29489,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29519,9 +29519,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -29530,30 +29530,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 813, col: 5, offset: 26252},
+																				pos: position{line: 817, col: 5, offset: 26523},
 																				run: (*parser).callonExtraListElement796,
 																				expr: &seqExpr{
-																					pos: position{line: 813, col: 5, offset: 26252},
+																					pos: position{line: 817, col: 5, offset: 26523},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26252},
+																							pos:   position{line: 817, col: 5, offset: 26523},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 813, col: 16, offset: 26263},
+																								pos: position{line: 817, col: 16, offset: 26534},
 																								run: (*parser).callonExtraListElement799,
 																								expr: &seqExpr{
-																									pos: position{line: 813, col: 16, offset: 26263},
+																									pos: position{line: 817, col: 16, offset: 26534},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 813, col: 16, offset: 26263},
+																											pos:        position{line: 817, col: 16, offset: 26534},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 813, col: 23, offset: 26270},
+																											pos: position{line: 817, col: 23, offset: 26541},
 																											expr: &litMatcher{
-																												pos:        position{line: 813, col: 23, offset: 26270},
+																												pos:        position{line: 817, col: 23, offset: 26541},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -29564,12 +29564,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 815, col: 8, offset: 26354},
+																							pos: position{line: 819, col: 8, offset: 26625},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92139},
+																								pos: position{line: 2922, col: 10, offset: 92410},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92139},
+																									pos:        position{line: 2922, col: 10, offset: 92410},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29578,28 +29578,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29608,9 +29608,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -29626,15 +29626,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1526, col: 5, offset: 49536},
+													pos:   position{line: 1530, col: 5, offset: 49807},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 14, offset: 90732},
+														pos: position{line: 2872, col: 14, offset: 91003},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2868, col: 14, offset: 90732},
+															pos: position{line: 2872, col: 14, offset: 91003},
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 14, offset: 90732},
+																pos:        position{line: 2872, col: 14, offset: 91003},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29644,28 +29644,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2940, col: 8, offset: 92537},
+													pos: position{line: 2944, col: 8, offset: 92808},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92310},
+															pos: position{line: 2931, col: 12, offset: 92581},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92311},
+																pos: position{line: 2931, col: 13, offset: 92582},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92311},
+																		pos:        position{line: 2931, col: 13, offset: 92582},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92318},
+																		pos:        position{line: 2931, col: 20, offset: 92589},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92327},
+																		pos:        position{line: 2931, col: 29, offset: 92598},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29674,9 +29674,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2937, col: 8, offset: 92487},
+															pos: position{line: 2941, col: 8, offset: 92758},
 															expr: &anyMatcher{
-																line: 2937, col: 9, offset: 92488,
+																line: 2941, col: 9, offset: 92759,
 															},
 														},
 													},
@@ -29693,28 +29693,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1542, col: 1, offset: 49927},
+			pos:  position{line: 1546, col: 1, offset: 50198},
 			expr: &actionExpr{
-				pos: position{line: 1543, col: 5, offset: 49952},
+				pos: position{line: 1547, col: 5, offset: 50223},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1543, col: 5, offset: 49952},
+					pos: position{line: 1547, col: 5, offset: 50223},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1543, col: 5, offset: 49952},
+							pos:   position{line: 1547, col: 5, offset: 50223},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1543, col: 12, offset: 49959},
+								pos: position{line: 1547, col: 12, offset: 50230},
 								expr: &seqExpr{
-									pos: position{line: 1543, col: 13, offset: 49960},
+									pos: position{line: 1547, col: 13, offset: 50231},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1543, col: 13, offset: 49960},
+											pos: position{line: 1547, col: 13, offset: 50231},
 											expr: &actionExpr{
-												pos: position{line: 2918, col: 10, offset: 92139},
+												pos: position{line: 2922, col: 10, offset: 92410},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2918, col: 10, offset: 92139},
+													pos:        position{line: 2922, col: 10, offset: 92410},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29723,25 +29723,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2927, col: 12, offset: 92310},
+											pos: position{line: 2931, col: 12, offset: 92581},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2927, col: 13, offset: 92311},
+												pos: position{line: 2931, col: 13, offset: 92582},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2927, col: 13, offset: 92311},
+														pos:        position{line: 2931, col: 13, offset: 92582},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2927, col: 20, offset: 92318},
+														pos:        position{line: 2931, col: 20, offset: 92589},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2927, col: 29, offset: 92327},
+														pos:        position{line: 2931, col: 29, offset: 92598},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29754,18 +29754,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1551, col: 27, offset: 50198},
+							pos:        position{line: 1555, col: 27, offset: 50469},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1551, col: 31, offset: 50202},
+							pos: position{line: 1555, col: 31, offset: 50473},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92139},
+								pos: position{line: 2922, col: 10, offset: 92410},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92139},
+									pos:        position{line: 2922, col: 10, offset: 92410},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29774,25 +29774,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2927, col: 12, offset: 92310},
+							pos: position{line: 2931, col: 12, offset: 92581},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2927, col: 13, offset: 92311},
+								pos: position{line: 2931, col: 13, offset: 92582},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2927, col: 13, offset: 92311},
+										pos:        position{line: 2931, col: 13, offset: 92582},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2927, col: 20, offset: 92318},
+										pos:        position{line: 2931, col: 20, offset: 92589},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2927, col: 29, offset: 92327},
+										pos:        position{line: 2931, col: 29, offset: 92598},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29801,38 +29801,38 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1545, col: 5, offset: 50009},
+							pos: position{line: 1549, col: 5, offset: 50280},
 							expr: &actionExpr{
-								pos: position{line: 2521, col: 22, offset: 80917},
+								pos: position{line: 2525, col: 22, offset: 81188},
 								run: (*parser).callonListContinuation24,
 								expr: &seqExpr{
-									pos: position{line: 2521, col: 22, offset: 80917},
+									pos: position{line: 2525, col: 22, offset: 81188},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2526, col: 31, offset: 81167},
+											pos:        position{line: 2530, col: 31, offset: 81438},
 											val:        "//",
 											ignoreCase: false,
 											want:       "\"//\"",
 										},
 										&notExpr{
-											pos: position{line: 2526, col: 36, offset: 81172},
+											pos: position{line: 2530, col: 36, offset: 81443},
 											expr: &litMatcher{
-												pos:        position{line: 2526, col: 37, offset: 81173},
+												pos:        position{line: 2530, col: 37, offset: 81444},
 												val:        "/",
 												ignoreCase: false,
 												want:       "\"/\"",
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2521, col: 49, offset: 80944},
+											pos:   position{line: 2525, col: 49, offset: 81215},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2864, col: 13, offset: 90665},
+												pos: position{line: 2868, col: 13, offset: 90936},
 												run: (*parser).callonListContinuation30,
 												expr: &zeroOrMoreExpr{
-													pos: position{line: 2864, col: 13, offset: 90665},
+													pos: position{line: 2868, col: 13, offset: 90936},
 													expr: &charClassMatcher{
-														pos:        position{line: 2864, col: 13, offset: 90665},
+														pos:        position{line: 2868, col: 13, offset: 90936},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -29842,28 +29842,28 @@ var g = &grammar{
 											},
 										},
 										&choiceExpr{
-											pos: position{line: 2940, col: 8, offset: 92537},
+											pos: position{line: 2944, col: 8, offset: 92808},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2927, col: 12, offset: 92310},
+													pos: position{line: 2931, col: 12, offset: 92581},
 													run: (*parser).callonListContinuation34,
 													expr: &choiceExpr{
-														pos: position{line: 2927, col: 13, offset: 92311},
+														pos: position{line: 2931, col: 13, offset: 92582},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2927, col: 13, offset: 92311},
+																pos:        position{line: 2931, col: 13, offset: 92582},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2927, col: 20, offset: 92318},
+																pos:        position{line: 2931, col: 20, offset: 92589},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2927, col: 29, offset: 92327},
+																pos:        position{line: 2931, col: 29, offset: 92598},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -29872,9 +29872,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2937, col: 8, offset: 92487},
+													pos: position{line: 2941, col: 8, offset: 92758},
 													expr: &anyMatcher{
-														line: 2937, col: 9, offset: 92488,
+														line: 2941, col: 9, offset: 92759,
 													},
 												},
 											},
@@ -29884,12 +29884,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1546, col: 5, offset: 50043},
+							pos:   position{line: 1550, col: 5, offset: 50314},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1546, col: 13, offset: 50051},
+								pos: position{line: 1550, col: 13, offset: 50322},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1546, col: 13, offset: 50051},
+									pos:  position{line: 1550, col: 13, offset: 50322},
 									name: "ListContinuationElement",
 								},
 							},
@@ -29900,46 +29900,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1553, col: 1, offset: 50218},
+			pos:  position{line: 1557, col: 1, offset: 50489},
 			expr: &actionExpr{
-				pos: position{line: 1554, col: 5, offset: 50289},
+				pos: position{line: 1558, col: 5, offset: 50560},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1554, col: 5, offset: 50289},
+					pos: position{line: 1558, col: 5, offset: 50560},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2935, col: 11, offset: 92473},
+							pos: position{line: 2939, col: 11, offset: 92744},
 							expr: &anyMatcher{
-								line: 2935, col: 13, offset: 92475,
+								line: 2939, col: 13, offset: 92746,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1555, col: 5, offset: 50317},
+							pos: position{line: 1559, col: 5, offset: 50588},
 							expr: &choiceExpr{
-								pos: position{line: 1491, col: 5, offset: 48241},
+								pos: position{line: 1495, col: 5, offset: 48512},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1585, col: 5, offset: 51209},
+										pos: position{line: 1589, col: 5, offset: 51480},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1585, col: 5, offset: 51209},
+											pos: position{line: 1589, col: 5, offset: 51480},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1585, col: 5, offset: 51209},
+													pos:   position{line: 1589, col: 5, offset: 51480},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1592, col: 5, offset: 51417},
+														pos: position{line: 1596, col: 5, offset: 51688},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1592, col: 5, offset: 51417},
+															pos: position{line: 1596, col: 5, offset: 51688},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1592, col: 5, offset: 51417},
+																	pos: position{line: 1596, col: 5, offset: 51688},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92139},
+																		pos: position{line: 2922, col: 10, offset: 92410},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92139},
+																			pos:        position{line: 2922, col: 10, offset: 92410},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29948,27 +29948,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1592, col: 12, offset: 51424},
+																	pos:   position{line: 1596, col: 12, offset: 51695},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1594, col: 9, offset: 51487},
+																		pos: position{line: 1598, col: 9, offset: 51758},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1594, col: 9, offset: 51487},
+																				pos: position{line: 1598, col: 9, offset: 51758},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1594, col: 9, offset: 51487},
+																					pos: position{line: 1598, col: 9, offset: 51758},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1594, col: 9, offset: 51487},
+																							pos:   position{line: 1598, col: 9, offset: 51758},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1594, col: 16, offset: 51494},
+																								pos: position{line: 1598, col: 16, offset: 51765},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1594, col: 16, offset: 51494},
+																									pos: position{line: 1598, col: 16, offset: 51765},
 																									expr: &litMatcher{
-																										pos:        position{line: 1594, col: 17, offset: 51495},
+																										pos:        position{line: 1598, col: 17, offset: 51766},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29977,22 +29977,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1598, col: 9, offset: 51595},
+																							pos: position{line: 1602, col: 9, offset: 51866},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1617, col: 11, offset: 52312},
+																				pos: position{line: 1621, col: 11, offset: 52583},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 11, offset: 52312},
+																					pos: position{line: 1621, col: 11, offset: 52583},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1617, col: 11, offset: 52312},
+																							pos: position{line: 1621, col: 11, offset: 52583},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1617, col: 12, offset: 52313},
+																								pos:        position{line: 1621, col: 12, offset: 52584},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -30000,7 +30000,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1617, col: 20, offset: 52321},
+																							pos:        position{line: 1621, col: 20, offset: 52592},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30009,20 +30009,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1619, col: 13, offset: 52438},
+																				pos: position{line: 1623, col: 13, offset: 52709},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1619, col: 13, offset: 52438},
+																					pos: position{line: 1623, col: 13, offset: 52709},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1619, col: 14, offset: 52439},
+																							pos:        position{line: 1623, col: 14, offset: 52710},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1619, col: 21, offset: 52446},
+																							pos:        position{line: 1623, col: 21, offset: 52717},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30031,20 +30031,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 13, offset: 52566},
+																				pos: position{line: 1625, col: 13, offset: 52837},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 13, offset: 52566},
+																					pos: position{line: 1625, col: 13, offset: 52837},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1621, col: 14, offset: 52567},
+																							pos:        position{line: 1625, col: 14, offset: 52838},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 21, offset: 52574},
+																							pos:        position{line: 1625, col: 21, offset: 52845},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30053,15 +30053,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1623, col: 13, offset: 52694},
+																				pos: position{line: 1627, col: 13, offset: 52965},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1623, col: 13, offset: 52694},
+																					pos: position{line: 1627, col: 13, offset: 52965},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1623, col: 13, offset: 52694},
+																							pos: position{line: 1627, col: 13, offset: 52965},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1623, col: 14, offset: 52695},
+																								pos:        position{line: 1627, col: 14, offset: 52966},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -30069,7 +30069,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1623, col: 26, offset: 52707},
+																							pos:        position{line: 1627, col: 26, offset: 52978},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30078,15 +30078,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1625, col: 13, offset: 52827},
+																				pos: position{line: 1629, col: 13, offset: 53098},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1625, col: 13, offset: 52827},
+																					pos: position{line: 1629, col: 13, offset: 53098},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1625, col: 13, offset: 52827},
+																							pos: position{line: 1629, col: 13, offset: 53098},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1625, col: 14, offset: 52828},
+																								pos:        position{line: 1629, col: 14, offset: 53099},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -30094,7 +30094,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1625, col: 26, offset: 52840},
+																							pos:        position{line: 1629, col: 26, offset: 53111},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30106,12 +30106,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2922, col: 11, offset: 92200},
+																	pos: position{line: 2926, col: 11, offset: 92471},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2922, col: 11, offset: 92200},
+																		pos: position{line: 2926, col: 11, offset: 92471},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 11, offset: 92200},
+																			pos:        position{line: 2926, col: 11, offset: 92471},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30124,26 +30124,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1586, col: 5, offset: 51248},
+													pos:   position{line: 1590, col: 5, offset: 51519},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1532, col: 5, offset: 49681},
+														pos: position{line: 1536, col: 5, offset: 49952},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1532, col: 5, offset: 49681},
+															pos: position{line: 1536, col: 5, offset: 49952},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1532, col: 5, offset: 49681},
+																	pos:   position{line: 1536, col: 5, offset: 49952},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1532, col: 14, offset: 49690},
+																		pos: position{line: 1536, col: 14, offset: 49961},
 																		expr: &actionExpr{
-																			pos: position{line: 1532, col: 15, offset: 49691},
+																			pos: position{line: 1536, col: 15, offset: 49962},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1532, col: 15, offset: 49691},
+																				pos: position{line: 1536, col: 15, offset: 49962},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1532, col: 15, offset: 49691},
+																					pos:        position{line: 1536, col: 15, offset: 49962},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30154,28 +30154,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92537},
+																	pos: position{line: 2944, col: 8, offset: 92808},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92310},
+																			pos: position{line: 2931, col: 12, offset: 92581},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92311},
+																				pos: position{line: 2931, col: 13, offset: 92582},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92311},
+																						pos:        position{line: 2931, col: 13, offset: 92582},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92318},
+																						pos:        position{line: 2931, col: 20, offset: 92589},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92327},
+																						pos:        position{line: 2931, col: 29, offset: 92598},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30184,9 +30184,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92487},
+																			pos: position{line: 2941, col: 8, offset: 92758},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92488,
+																				line: 2941, col: 9, offset: 92759,
 																			},
 																		},
 																	},
@@ -30199,27 +30199,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1635, col: 5, offset: 53106},
+										pos: position{line: 1639, col: 5, offset: 53377},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1635, col: 5, offset: 53106},
+											pos: position{line: 1639, col: 5, offset: 53377},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1635, col: 5, offset: 53106},
+													pos:   position{line: 1639, col: 5, offset: 53377},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1642, col: 5, offset: 53379},
+														pos: position{line: 1646, col: 5, offset: 53650},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1642, col: 5, offset: 53379},
+															pos: position{line: 1646, col: 5, offset: 53650},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1642, col: 5, offset: 53379},
+																	pos: position{line: 1646, col: 5, offset: 53650},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92139},
+																		pos: position{line: 2922, col: 10, offset: 92410},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92139},
+																			pos:        position{line: 2922, col: 10, offset: 92410},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30228,24 +30228,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1643, col: 5, offset: 53391},
+																	pos:   position{line: 1647, col: 5, offset: 53662},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1644, col: 9, offset: 53407},
+																		pos: position{line: 1648, col: 9, offset: 53678},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1644, col: 10, offset: 53408},
+																			pos: position{line: 1648, col: 10, offset: 53679},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1644, col: 11, offset: 53409},
+																					pos:        position{line: 1648, col: 11, offset: 53680},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1644, col: 18, offset: 53416},
+																					pos: position{line: 1648, col: 18, offset: 53687},
 																					expr: &litMatcher{
-																						pos:        position{line: 1644, col: 19, offset: 53417},
+																						pos:        position{line: 1648, col: 19, offset: 53688},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -30256,16 +30256,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1647, col: 7, offset: 53507},
+																	pos: position{line: 1651, col: 7, offset: 53778},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2922, col: 11, offset: 92200},
+																	pos: position{line: 2926, col: 11, offset: 92471},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2922, col: 11, offset: 92200},
+																		pos: position{line: 2926, col: 11, offset: 92471},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 11, offset: 92200},
+																			pos:        position{line: 2926, col: 11, offset: 92471},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30278,56 +30278,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1636, col: 5, offset: 53147},
+													pos:   position{line: 1640, col: 5, offset: 53418},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1636, col: 16, offset: 53158},
+														pos: position{line: 1640, col: 16, offset: 53429},
 														expr: &actionExpr{
-															pos: position{line: 1657, col: 5, offset: 53772},
+															pos: position{line: 1661, col: 5, offset: 54043},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1657, col: 5, offset: 53772},
+																pos: position{line: 1661, col: 5, offset: 54043},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1657, col: 5, offset: 53772},
+																		pos: position{line: 1661, col: 5, offset: 54043},
 																		expr: &litMatcher{
-																			pos:        position{line: 1657, col: 6, offset: 53773},
+																			pos:        position{line: 1661, col: 6, offset: 54044},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1657, col: 10, offset: 53777},
+																		pos:   position{line: 1661, col: 10, offset: 54048},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1658, col: 7, offset: 53791},
+																			pos: position{line: 1662, col: 7, offset: 54062},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1658, col: 7, offset: 53791},
+																					pos: position{line: 1662, col: 7, offset: 54062},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1658, col: 7, offset: 53791},
+																						pos:        position{line: 1662, col: 7, offset: 54062},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1659, col: 7, offset: 53836},
+																					pos: position{line: 1663, col: 7, offset: 54107},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1659, col: 7, offset: 53836},
+																						pos:        position{line: 1663, col: 7, offset: 54107},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1660, col: 7, offset: 53879},
+																					pos: position{line: 1664, col: 7, offset: 54150},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1660, col: 7, offset: 53879},
+																						pos:        position{line: 1664, col: 7, offset: 54150},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -30337,12 +30337,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2922, col: 11, offset: 92200},
+																		pos: position{line: 2926, col: 11, offset: 92471},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2922, col: 11, offset: 92200},
+																			pos: position{line: 2926, col: 11, offset: 92471},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 11, offset: 92200},
+																				pos:        position{line: 2926, col: 11, offset: 92471},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30356,26 +30356,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1637, col: 5, offset: 53197},
+													pos:   position{line: 1641, col: 5, offset: 53468},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1532, col: 5, offset: 49681},
+														pos: position{line: 1536, col: 5, offset: 49952},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1532, col: 5, offset: 49681},
+															pos: position{line: 1536, col: 5, offset: 49952},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1532, col: 5, offset: 49681},
+																	pos:   position{line: 1536, col: 5, offset: 49952},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1532, col: 14, offset: 49690},
+																		pos: position{line: 1536, col: 14, offset: 49961},
 																		expr: &actionExpr{
-																			pos: position{line: 1532, col: 15, offset: 49691},
+																			pos: position{line: 1536, col: 15, offset: 49962},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1532, col: 15, offset: 49691},
+																				pos: position{line: 1536, col: 15, offset: 49962},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1532, col: 15, offset: 49691},
+																					pos:        position{line: 1536, col: 15, offset: 49962},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30386,28 +30386,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92537},
+																	pos: position{line: 2944, col: 8, offset: 92808},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92310},
+																			pos: position{line: 2931, col: 12, offset: 92581},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92311},
+																				pos: position{line: 2931, col: 13, offset: 92582},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92311},
+																						pos:        position{line: 2931, col: 13, offset: 92582},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92318},
+																						pos:        position{line: 2931, col: 20, offset: 92589},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92327},
+																						pos:        position{line: 2931, col: 29, offset: 92598},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30416,9 +30416,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92487},
+																			pos: position{line: 2941, col: 8, offset: 92758},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92488,
+																				line: 2941, col: 9, offset: 92759,
 																			},
 																		},
 																	},
@@ -30431,36 +30431,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1726, col: 5, offset: 55751},
+										pos: position{line: 1730, col: 5, offset: 56022},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1726, col: 5, offset: 55751},
+											pos: position{line: 1730, col: 5, offset: 56022},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1726, col: 5, offset: 55751},
+													pos:   position{line: 1730, col: 5, offset: 56022},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1732, col: 5, offset: 55948},
+														pos: position{line: 1736, col: 5, offset: 56219},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1732, col: 5, offset: 55948},
+															pos: position{line: 1736, col: 5, offset: 56219},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1732, col: 5, offset: 55948},
+																	pos:        position{line: 1736, col: 5, offset: 56219},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1732, col: 9, offset: 55952},
+																	pos:   position{line: 1736, col: 9, offset: 56223},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1732, col: 14, offset: 55957},
+																		pos: position{line: 1736, col: 14, offset: 56228},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1732, col: 14, offset: 55957},
+																			pos: position{line: 1736, col: 14, offset: 56228},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1732, col: 14, offset: 55957},
+																				pos:        position{line: 1736, col: 14, offset: 56228},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30470,18 +30470,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1732, col: 62, offset: 56005},
+																	pos:        position{line: 1736, col: 62, offset: 56276},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2922, col: 11, offset: 92200},
+																	pos: position{line: 2926, col: 11, offset: 92471},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2922, col: 11, offset: 92200},
+																		pos: position{line: 2926, col: 11, offset: 92471},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 11, offset: 92200},
+																			pos:        position{line: 2926, col: 11, offset: 92471},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30494,26 +30494,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1727, col: 5, offset: 55787},
+													pos:   position{line: 1731, col: 5, offset: 56058},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1532, col: 5, offset: 49681},
+														pos: position{line: 1536, col: 5, offset: 49952},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1532, col: 5, offset: 49681},
+															pos: position{line: 1536, col: 5, offset: 49952},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1532, col: 5, offset: 49681},
+																	pos:   position{line: 1536, col: 5, offset: 49952},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1532, col: 14, offset: 49690},
+																		pos: position{line: 1536, col: 14, offset: 49961},
 																		expr: &actionExpr{
-																			pos: position{line: 1532, col: 15, offset: 49691},
+																			pos: position{line: 1536, col: 15, offset: 49962},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1532, col: 15, offset: 49691},
+																				pos: position{line: 1536, col: 15, offset: 49962},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1532, col: 15, offset: 49691},
+																					pos:        position{line: 1536, col: 15, offset: 49962},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30524,28 +30524,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92537},
+																	pos: position{line: 2944, col: 8, offset: 92808},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92310},
+																			pos: position{line: 2931, col: 12, offset: 92581},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92311},
+																				pos: position{line: 2931, col: 13, offset: 92582},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92311},
+																						pos:        position{line: 2931, col: 13, offset: 92582},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92318},
+																						pos:        position{line: 2931, col: 20, offset: 92589},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92327},
+																						pos:        position{line: 2931, col: 29, offset: 92598},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30554,9 +30554,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92487},
+																			pos: position{line: 2941, col: 8, offset: 92758},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92488,
+																				line: 2941, col: 9, offset: 92759,
 																			},
 																		},
 																	},
@@ -30569,35 +30569,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1669, col: 5, offset: 54072},
+										pos: position{line: 1673, col: 5, offset: 54343},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1669, col: 5, offset: 54072},
+											pos: position{line: 1673, col: 5, offset: 54343},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1669, col: 5, offset: 54072},
+													pos:   position{line: 1673, col: 5, offset: 54343},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1677, col: 5, offset: 54398},
+														pos: position{line: 1681, col: 5, offset: 54669},
 														run: (*parser).callonListContinuationElement150,
 														expr: &seqExpr{
-															pos: position{line: 1677, col: 5, offset: 54398},
+															pos: position{line: 1681, col: 5, offset: 54669},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1677, col: 5, offset: 54398},
+																	pos: position{line: 1681, col: 5, offset: 54669},
 																	expr: &seqExpr{
-																		pos: position{line: 2526, col: 31, offset: 81167},
+																		pos: position{line: 2530, col: 31, offset: 81438},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2526, col: 31, offset: 81167},
+																				pos:        position{line: 2530, col: 31, offset: 81438},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2526, col: 36, offset: 81172},
+																				pos: position{line: 2530, col: 36, offset: 81443},
 																				expr: &litMatcher{
-																					pos:        position{line: 2526, col: 37, offset: 81173},
+																					pos:        position{line: 2530, col: 37, offset: 81444},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -30607,28 +30607,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1678, col: 5, offset: 54430},
+																	pos: position{line: 1682, col: 5, offset: 54701},
 																	expr: &seqExpr{
-																		pos: position{line: 1678, col: 6, offset: 54431},
+																		pos: position{line: 1682, col: 6, offset: 54702},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1678, col: 6, offset: 54431},
+																				pos: position{line: 1682, col: 6, offset: 54702},
 																				expr: &actionExpr{
-																					pos: position{line: 1683, col: 5, offset: 54581},
+																					pos: position{line: 1687, col: 5, offset: 54852},
 																					run: (*parser).callonListContinuationElement160,
 																					expr: &seqExpr{
-																						pos: position{line: 1683, col: 5, offset: 54581},
+																						pos: position{line: 1687, col: 5, offset: 54852},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1683, col: 5, offset: 54581},
+																								pos:   position{line: 1687, col: 5, offset: 54852},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1683, col: 16, offset: 54592},
+																									pos: position{line: 1687, col: 16, offset: 54863},
 																									run: (*parser).callonListContinuationElement163,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1683, col: 16, offset: 54592},
+																										pos: position{line: 1687, col: 16, offset: 54863},
 																										expr: &litMatcher{
-																											pos:        position{line: 1683, col: 17, offset: 54593},
+																											pos:        position{line: 1687, col: 17, offset: 54864},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -30637,7 +30637,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1686, col: 5, offset: 54650},
+																								pos: position{line: 1690, col: 5, offset: 54921},
 																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
@@ -30645,30 +30645,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1678, col: 35, offset: 54460},
+																				pos: position{line: 1682, col: 35, offset: 54731},
 																				expr: &choiceExpr{
-																					pos: position{line: 2940, col: 8, offset: 92537},
+																					pos: position{line: 2944, col: 8, offset: 92808},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2927, col: 12, offset: 92310},
+																							pos: position{line: 2931, col: 12, offset: 92581},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2927, col: 13, offset: 92311},
+																								pos: position{line: 2931, col: 13, offset: 92582},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 13, offset: 92311},
+																										pos:        position{line: 2931, col: 13, offset: 92582},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 20, offset: 92318},
+																										pos:        position{line: 2931, col: 20, offset: 92589},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 29, offset: 92327},
+																										pos:        position{line: 2931, col: 29, offset: 92598},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30677,16 +30677,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2937, col: 8, offset: 92487},
+																							pos: position{line: 2941, col: 8, offset: 92758},
 																							expr: &anyMatcher{
-																								line: 2937, col: 9, offset: 92488,
+																								line: 2941, col: 9, offset: 92759,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1678, col: 40, offset: 54465,
+																				line: 1682, col: 40, offset: 54736,
 																			},
 																		},
 																	},
@@ -30696,24 +30696,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1670, col: 5, offset: 54107},
+													pos:   position{line: 1674, col: 5, offset: 54378},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1683, col: 5, offset: 54581},
+														pos: position{line: 1687, col: 5, offset: 54852},
 														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1683, col: 5, offset: 54581},
+															pos: position{line: 1687, col: 5, offset: 54852},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1683, col: 5, offset: 54581},
+																	pos:   position{line: 1687, col: 5, offset: 54852},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1683, col: 16, offset: 54592},
+																		pos: position{line: 1687, col: 16, offset: 54863},
 																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1683, col: 16, offset: 54592},
+																			pos: position{line: 1687, col: 16, offset: 54863},
 																			expr: &litMatcher{
-																				pos:        position{line: 1683, col: 17, offset: 54593},
+																				pos:        position{line: 1687, col: 17, offset: 54864},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30722,7 +30722,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1686, col: 5, offset: 54650},
+																	pos: position{line: 1690, col: 5, offset: 54921},
 																	run: (*parser).callonListContinuationElement184,
 																},
 															},
@@ -30730,24 +30730,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1671, col: 5, offset: 54152},
+													pos:   position{line: 1675, col: 5, offset: 54423},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1694, col: 5, offset: 54899},
+														pos: position{line: 1698, col: 5, offset: 55170},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1696, col: 9, offset: 54965},
+																pos: position{line: 1700, col: 9, offset: 55236},
 																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1696, col: 9, offset: 54965},
+																	pos: position{line: 1700, col: 9, offset: 55236},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1696, col: 9, offset: 54965},
+																			pos: position{line: 1700, col: 9, offset: 55236},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92139},
+																				pos: position{line: 2922, col: 10, offset: 92410},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92139},
+																					pos:        position{line: 2922, col: 10, offset: 92410},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30756,28 +30756,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92537},
+																			pos: position{line: 2944, col: 8, offset: 92808},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92310},
+																					pos: position{line: 2931, col: 12, offset: 92581},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92311},
+																						pos: position{line: 2931, col: 13, offset: 92582},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92311},
+																								pos:        position{line: 2931, col: 13, offset: 92582},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92318},
+																								pos:        position{line: 2931, col: 20, offset: 92589},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92327},
+																								pos:        position{line: 2931, col: 29, offset: 92598},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30786,34 +30786,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1697, col: 9, offset: 54984},
+																			pos: position{line: 1701, col: 9, offset: 55255},
 																			expr: &actionExpr{
-																				pos: position{line: 686, col: 14, offset: 21901},
+																				pos: position{line: 690, col: 14, offset: 22172},
 																				run: (*parser).callonListContinuationElement201,
 																				expr: &seqExpr{
-																					pos: position{line: 686, col: 14, offset: 21901},
+																					pos: position{line: 690, col: 14, offset: 22172},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2935, col: 11, offset: 92473},
+																							pos: position{line: 2939, col: 11, offset: 92744},
 																							expr: &anyMatcher{
-																								line: 2935, col: 13, offset: 92475,
+																								line: 2939, col: 13, offset: 92746,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 686, col: 21, offset: 21908},
+																							pos: position{line: 690, col: 21, offset: 22179},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92139},
+																								pos: position{line: 2922, col: 10, offset: 92410},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92139},
+																									pos:        position{line: 2922, col: 10, offset: 92410},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30822,28 +30822,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30852,9 +30852,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -30867,18 +30867,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1703, col: 9, offset: 55113},
+																pos: position{line: 1707, col: 9, offset: 55384},
 																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1703, col: 9, offset: 55113},
+																	pos: position{line: 1707, col: 9, offset: 55384},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2922, col: 11, offset: 92200},
+																			pos: position{line: 2926, col: 11, offset: 92471},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2922, col: 11, offset: 92200},
+																				pos: position{line: 2926, col: 11, offset: 92471},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 11, offset: 92200},
+																					pos:        position{line: 2926, col: 11, offset: 92471},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30887,15 +30887,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1704, col: 9, offset: 55186},
+																			pos:   position{line: 1708, col: 9, offset: 55457},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1704, col: 18, offset: 55195},
+																				pos: position{line: 1708, col: 18, offset: 55466},
 																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1704, col: 18, offset: 55195},
+																					pos: position{line: 1708, col: 18, offset: 55466},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1704, col: 18, offset: 55195},
+																						pos:        position{line: 1708, col: 18, offset: 55466},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30905,28 +30905,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92537},
+																			pos: position{line: 2944, col: 8, offset: 92808},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92310},
+																					pos: position{line: 2931, col: 12, offset: 92581},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92311},
+																						pos: position{line: 2931, col: 13, offset: 92582},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92311},
+																								pos:        position{line: 2931, col: 13, offset: 92582},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92318},
+																								pos:        position{line: 2931, col: 20, offset: 92589},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92327},
+																								pos:        position{line: 2931, col: 29, offset: 92598},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30935,9 +30935,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
@@ -30955,41 +30955,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1556, col: 5, offset: 50334},
+							pos:   position{line: 1560, col: 5, offset: 50605},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1556, col: 16, offset: 50345},
+								pos: position{line: 1560, col: 16, offset: 50616},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1556, col: 17, offset: 50346},
+									pos:  position{line: 1560, col: 17, offset: 50617},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1557, col: 5, offset: 50368},
+							pos:   position{line: 1561, col: 5, offset: 50639},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1558, col: 9, offset: 50386},
+								pos: position{line: 1562, col: 9, offset: 50657},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 686, col: 14, offset: 21901},
+										pos: position{line: 690, col: 14, offset: 22172},
 										run: (*parser).callonListContinuationElement238,
 										expr: &seqExpr{
-											pos: position{line: 686, col: 14, offset: 21901},
+											pos: position{line: 690, col: 14, offset: 22172},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2935, col: 11, offset: 92473},
+													pos: position{line: 2939, col: 11, offset: 92744},
 													expr: &anyMatcher{
-														line: 2935, col: 13, offset: 92475,
+														line: 2939, col: 13, offset: 92746,
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 686, col: 21, offset: 21908},
+													pos: position{line: 690, col: 21, offset: 22179},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92139},
+														pos: position{line: 2922, col: 10, offset: 92410},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92139},
+															pos:        position{line: 2922, col: 10, offset: 92410},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30998,28 +30998,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2940, col: 8, offset: 92537},
+													pos: position{line: 2944, col: 8, offset: 92808},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92310},
+															pos: position{line: 2931, col: 12, offset: 92581},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92311},
+																pos: position{line: 2931, col: 13, offset: 92582},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92311},
+																		pos:        position{line: 2931, col: 13, offset: 92582},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92318},
+																		pos:        position{line: 2931, col: 20, offset: 92589},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92327},
+																		pos:        position{line: 2931, col: 29, offset: 92598},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31028,9 +31028,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2937, col: 8, offset: 92487},
+															pos: position{line: 2941, col: 8, offset: 92758},
 															expr: &anyMatcher{
-																line: 2937, col: 9, offset: 92488,
+																line: 2941, col: 9, offset: 92759,
 															},
 														},
 													},
@@ -31039,7 +31039,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1559, col: 11, offset: 50406},
+										pos:  position{line: 1563, col: 11, offset: 50677},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -31095,10 +31095,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 49, offset: 11041},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92139},
+														pos: position{line: 2922, col: 10, offset: 92410},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92139},
+															pos:        position{line: 2922, col: 10, offset: 92410},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31107,28 +31107,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2940, col: 8, offset: 92537},
+													pos: position{line: 2944, col: 8, offset: 92808},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92310},
+															pos: position{line: 2931, col: 12, offset: 92581},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92311},
+																pos: position{line: 2931, col: 13, offset: 92582},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92311},
+																		pos:        position{line: 2931, col: 13, offset: 92582},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92318},
+																		pos:        position{line: 2931, col: 20, offset: 92589},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92327},
+																		pos:        position{line: 2931, col: 29, offset: 92598},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31137,9 +31137,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2937, col: 8, offset: 92487},
+															pos: position{line: 2941, col: 8, offset: 92758},
 															expr: &anyMatcher{
-																line: 2937, col: 9, offset: 92488,
+																line: 2941, col: 9, offset: 92759,
 															},
 														},
 													},
@@ -31200,10 +31200,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 364, col: 39, offset: 11162},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92139},
+														pos: position{line: 2922, col: 10, offset: 92410},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92139},
+															pos:        position{line: 2922, col: 10, offset: 92410},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31212,28 +31212,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2940, col: 8, offset: 92537},
+													pos: position{line: 2944, col: 8, offset: 92808},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92310},
+															pos: position{line: 2931, col: 12, offset: 92581},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92311},
+																pos: position{line: 2931, col: 13, offset: 92582},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92311},
+																		pos:        position{line: 2931, col: 13, offset: 92582},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92318},
+																		pos:        position{line: 2931, col: 20, offset: 92589},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92327},
+																		pos:        position{line: 2931, col: 29, offset: 92598},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31242,9 +31242,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2937, col: 8, offset: 92487},
+															pos: position{line: 2941, col: 8, offset: 92758},
 															expr: &anyMatcher{
-																line: 2937, col: 9, offset: 92488,
+																line: 2941, col: 9, offset: 92759,
 															},
 														},
 													},
@@ -31253,36 +31253,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 829, col: 5, offset: 26736},
+										pos: position{line: 833, col: 5, offset: 27007},
 										run: (*parser).callonListContinuationElement296,
 										expr: &seqExpr{
-											pos: position{line: 829, col: 5, offset: 26736},
+											pos: position{line: 833, col: 5, offset: 27007},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 749, col: 5, offset: 23996},
+													pos: position{line: 753, col: 5, offset: 24267},
 													run: (*parser).callonListContinuationElement298,
 													expr: &seqExpr{
-														pos: position{line: 749, col: 5, offset: 23996},
+														pos: position{line: 753, col: 5, offset: 24267},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 749, col: 5, offset: 23996},
+																pos:   position{line: 753, col: 5, offset: 24267},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 749, col: 16, offset: 24007},
+																	pos: position{line: 753, col: 16, offset: 24278},
 																	run: (*parser).callonListContinuationElement301,
 																	expr: &seqExpr{
-																		pos: position{line: 749, col: 16, offset: 24007},
+																		pos: position{line: 753, col: 16, offset: 24278},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 749, col: 16, offset: 24007},
+																				pos:        position{line: 753, col: 16, offset: 24278},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 749, col: 23, offset: 24014},
+																				pos: position{line: 753, col: 23, offset: 24285},
 																				expr: &litMatcher{
-																					pos:        position{line: 749, col: 23, offset: 24014},
+																					pos:        position{line: 753, col: 23, offset: 24285},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -31293,12 +31293,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 751, col: 8, offset: 24098},
+																pos: position{line: 755, col: 8, offset: 24369},
 																expr: &actionExpr{
-																	pos: position{line: 2918, col: 10, offset: 92139},
+																	pos: position{line: 2922, col: 10, offset: 92410},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2918, col: 10, offset: 92139},
+																		pos:        position{line: 2922, col: 10, offset: 92410},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31307,28 +31307,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2940, col: 8, offset: 92537},
+																pos: position{line: 2944, col: 8, offset: 92808},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2927, col: 12, offset: 92310},
+																		pos: position{line: 2931, col: 12, offset: 92581},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2927, col: 13, offset: 92311},
+																			pos: position{line: 2931, col: 13, offset: 92582},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 13, offset: 92311},
+																					pos:        position{line: 2931, col: 13, offset: 92582},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 20, offset: 92318},
+																					pos:        position{line: 2931, col: 20, offset: 92589},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 29, offset: 92327},
+																					pos:        position{line: 2931, col: 29, offset: 92598},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31337,9 +31337,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92487},
+																		pos: position{line: 2941, col: 8, offset: 92758},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92488,
+																			line: 2941, col: 9, offset: 92759,
 																		},
 																	},
 																},
@@ -31348,46 +31348,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 830, col: 5, offset: 26767},
+													pos:   position{line: 834, col: 5, offset: 27038},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 840, col: 5, offset: 27053},
+														pos: position{line: 844, col: 5, offset: 27324},
 														expr: &actionExpr{
-															pos: position{line: 840, col: 6, offset: 27054},
+															pos: position{line: 844, col: 6, offset: 27325},
 															run: (*parser).callonListContinuationElement319,
 															expr: &seqExpr{
-																pos: position{line: 840, col: 6, offset: 27054},
+																pos: position{line: 844, col: 6, offset: 27325},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 840, col: 6, offset: 27054},
+																		pos: position{line: 844, col: 6, offset: 27325},
 																		expr: &choiceExpr{
-																			pos: position{line: 837, col: 29, offset: 26996},
+																			pos: position{line: 841, col: 29, offset: 27267},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 749, col: 5, offset: 23996},
+																					pos: position{line: 753, col: 5, offset: 24267},
 																					run: (*parser).callonListContinuationElement323,
 																					expr: &seqExpr{
-																						pos: position{line: 749, col: 5, offset: 23996},
+																						pos: position{line: 753, col: 5, offset: 24267},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 749, col: 5, offset: 23996},
+																								pos:   position{line: 753, col: 5, offset: 24267},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 749, col: 16, offset: 24007},
+																									pos: position{line: 753, col: 16, offset: 24278},
 																									run: (*parser).callonListContinuationElement326,
 																									expr: &seqExpr{
-																										pos: position{line: 749, col: 16, offset: 24007},
+																										pos: position{line: 753, col: 16, offset: 24278},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 749, col: 16, offset: 24007},
+																												pos:        position{line: 753, col: 16, offset: 24278},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 749, col: 23, offset: 24014},
+																												pos: position{line: 753, col: 23, offset: 24285},
 																												expr: &litMatcher{
-																													pos:        position{line: 749, col: 23, offset: 24014},
+																													pos:        position{line: 753, col: 23, offset: 24285},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -31398,12 +31398,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 751, col: 8, offset: 24098},
+																								pos: position{line: 755, col: 8, offset: 24369},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92139},
+																									pos: position{line: 2922, col: 10, offset: 92410},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92139},
+																										pos:        position{line: 2922, col: 10, offset: 92410},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -31412,28 +31412,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92537},
+																								pos: position{line: 2944, col: 8, offset: 92808},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92310},
+																										pos: position{line: 2931, col: 12, offset: 92581},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92311},
+																											pos: position{line: 2931, col: 13, offset: 92582},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92311},
+																													pos:        position{line: 2931, col: 13, offset: 92582},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92318},
+																													pos:        position{line: 2931, col: 20, offset: 92589},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92327},
+																													pos:        position{line: 2931, col: 29, offset: 92598},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -31442,9 +31442,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92487},
+																										pos: position{line: 2941, col: 8, offset: 92758},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92488,
+																											line: 2941, col: 9, offset: 92759,
 																										},
 																									},
 																								},
@@ -31453,39 +31453,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 841, col: 5, offset: 27084},
+																		pos:   position{line: 845, col: 5, offset: 27355},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 820, col: 5, offset: 26500},
+																			pos: position{line: 824, col: 5, offset: 26771},
 																			run: (*parser).callonListContinuationElement345,
 																			expr: &seqExpr{
-																				pos: position{line: 820, col: 5, offset: 26500},
+																				pos: position{line: 824, col: 5, offset: 26771},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2935, col: 11, offset: 92473},
+																						pos: position{line: 2939, col: 11, offset: 92744},
 																						expr: &anyMatcher{
-																							line: 2935, col: 13, offset: 92475,
+																							line: 2939, col: 13, offset: 92746,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 821, col: 5, offset: 26575},
+																						pos:   position{line: 825, col: 5, offset: 26846},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 13, offset: 90665},
+																							pos: position{line: 2868, col: 13, offset: 90936},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2864, col: 13, offset: 90665},
+																								pos: position{line: 2868, col: 13, offset: 90936},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 13, offset: 90665},
+																									pos:        position{line: 2868, col: 13, offset: 90936},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31495,28 +31495,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92537},
+																						pos: position{line: 2944, col: 8, offset: 92808},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92310},
+																								pos: position{line: 2931, col: 12, offset: 92581},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92311},
+																									pos: position{line: 2931, col: 13, offset: 92582},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92311},
+																											pos:        position{line: 2931, col: 13, offset: 92582},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92318},
+																											pos:        position{line: 2931, col: 20, offset: 92589},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92327},
+																											pos:        position{line: 2931, col: 29, offset: 92598},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31525,9 +31525,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92487},
+																								pos: position{line: 2941, col: 8, offset: 92758},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92488,
+																									line: 2941, col: 9, offset: 92759,
 																								},
 																							},
 																						},
@@ -31542,35 +31542,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 831, col: 5, offset: 26801},
+													pos: position{line: 835, col: 5, offset: 27072},
 													expr: &choiceExpr{
-														pos: position{line: 837, col: 29, offset: 26996},
+														pos: position{line: 841, col: 29, offset: 27267},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 749, col: 5, offset: 23996},
+																pos: position{line: 753, col: 5, offset: 24267},
 																run: (*parser).callonListContinuationElement363,
 																expr: &seqExpr{
-																	pos: position{line: 749, col: 5, offset: 23996},
+																	pos: position{line: 753, col: 5, offset: 24267},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 749, col: 5, offset: 23996},
+																			pos:   position{line: 753, col: 5, offset: 24267},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 749, col: 16, offset: 24007},
+																				pos: position{line: 753, col: 16, offset: 24278},
 																				run: (*parser).callonListContinuationElement366,
 																				expr: &seqExpr{
-																					pos: position{line: 749, col: 16, offset: 24007},
+																					pos: position{line: 753, col: 16, offset: 24278},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 749, col: 16, offset: 24007},
+																							pos:        position{line: 753, col: 16, offset: 24278},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 749, col: 23, offset: 24014},
+																							pos: position{line: 753, col: 23, offset: 24285},
 																							expr: &litMatcher{
-																								pos:        position{line: 749, col: 23, offset: 24014},
+																								pos:        position{line: 753, col: 23, offset: 24285},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -31581,12 +31581,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 751, col: 8, offset: 24098},
+																			pos: position{line: 755, col: 8, offset: 24369},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92139},
+																				pos: position{line: 2922, col: 10, offset: 92410},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92139},
+																					pos:        position{line: 2922, col: 10, offset: 92410},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31595,28 +31595,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92537},
+																			pos: position{line: 2944, col: 8, offset: 92808},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92310},
+																					pos: position{line: 2931, col: 12, offset: 92581},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92311},
+																						pos: position{line: 2931, col: 13, offset: 92582},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92311},
+																								pos:        position{line: 2931, col: 13, offset: 92582},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92318},
+																								pos:        position{line: 2931, col: 20, offset: 92589},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92327},
+																								pos:        position{line: 2931, col: 29, offset: 92598},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31625,9 +31625,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
@@ -31636,9 +31636,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92487},
+																pos: position{line: 2941, col: 8, offset: 92758},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92488,
+																	line: 2941, col: 9, offset: 92759,
 																},
 															},
 														},
@@ -31648,39 +31648,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 849, col: 5, offset: 27237},
+										pos: position{line: 853, col: 5, offset: 27508},
 										run: (*parser).callonListContinuationElement384,
 										expr: &seqExpr{
-											pos: position{line: 849, col: 5, offset: 27237},
+											pos: position{line: 853, col: 5, offset: 27508},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 849, col: 5, offset: 27237},
+													pos:   position{line: 853, col: 5, offset: 27508},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 756, col: 5, offset: 24244},
+														pos: position{line: 760, col: 5, offset: 24515},
 														run: (*parser).callonListContinuationElement387,
 														expr: &seqExpr{
-															pos: position{line: 756, col: 5, offset: 24244},
+															pos: position{line: 760, col: 5, offset: 24515},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 756, col: 5, offset: 24244},
+																	pos:   position{line: 760, col: 5, offset: 24515},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 756, col: 16, offset: 24255},
+																		pos: position{line: 760, col: 16, offset: 24526},
 																		run: (*parser).callonListContinuationElement390,
 																		expr: &seqExpr{
-																			pos: position{line: 756, col: 16, offset: 24255},
+																			pos: position{line: 760, col: 16, offset: 24526},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 756, col: 16, offset: 24255},
+																					pos:        position{line: 760, col: 16, offset: 24526},
 																					val:        "====",
 																					ignoreCase: false,
 																					want:       "\"====\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 756, col: 23, offset: 24262},
+																					pos: position{line: 760, col: 23, offset: 24533},
 																					expr: &litMatcher{
-																						pos:        position{line: 756, col: 23, offset: 24262},
+																						pos:        position{line: 760, col: 23, offset: 24533},
 																						val:        "=",
 																						ignoreCase: false,
 																						want:       "\"=\"",
@@ -31691,12 +31691,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 758, col: 8, offset: 24346},
+																	pos: position{line: 762, col: 8, offset: 24617},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92139},
+																		pos: position{line: 2922, col: 10, offset: 92410},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92139},
+																			pos:        position{line: 2922, col: 10, offset: 92410},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31705,28 +31705,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92537},
+																	pos: position{line: 2944, col: 8, offset: 92808},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92310},
+																			pos: position{line: 2931, col: 12, offset: 92581},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92311},
+																				pos: position{line: 2931, col: 13, offset: 92582},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92311},
+																						pos:        position{line: 2931, col: 13, offset: 92582},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92318},
+																						pos:        position{line: 2931, col: 20, offset: 92589},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92327},
+																						pos:        position{line: 2931, col: 29, offset: 92598},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31735,9 +31735,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92487},
+																			pos: position{line: 2941, col: 8, offset: 92758},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92488,
+																				line: 2941, col: 9, offset: 92759,
 																			},
 																		},
 																	},
@@ -31747,56 +31747,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 850, col: 5, offset: 27276},
+													pos: position{line: 854, col: 5, offset: 27547},
 													run: (*parser).callonListContinuationElement406,
 												},
 												&labeledExpr{
-													pos:   position{line: 853, col: 5, offset: 27368},
+													pos:   position{line: 857, col: 5, offset: 27639},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 868, col: 4, offset: 27765},
+														pos: position{line: 872, col: 4, offset: 28036},
 														expr: &actionExpr{
-															pos: position{line: 868, col: 5, offset: 27766},
+															pos: position{line: 872, col: 5, offset: 28037},
 															run: (*parser).callonListContinuationElement409,
 															expr: &seqExpr{
-																pos: position{line: 868, col: 5, offset: 27766},
+																pos: position{line: 872, col: 5, offset: 28037},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 868, col: 5, offset: 27766},
+																		pos: position{line: 872, col: 5, offset: 28037},
 																		expr: &choiceExpr{
-																			pos: position{line: 861, col: 5, offset: 27608},
+																			pos: position{line: 865, col: 5, offset: 27879},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 861, col: 5, offset: 27608},
+																					pos: position{line: 865, col: 5, offset: 27879},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 861, col: 5, offset: 27608},
+																							pos:   position{line: 865, col: 5, offset: 27879},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 756, col: 5, offset: 24244},
+																								pos: position{line: 760, col: 5, offset: 24515},
 																								run: (*parser).callonListContinuationElement415,
 																								expr: &seqExpr{
-																									pos: position{line: 756, col: 5, offset: 24244},
+																									pos: position{line: 760, col: 5, offset: 24515},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 756, col: 5, offset: 24244},
+																											pos:   position{line: 760, col: 5, offset: 24515},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 756, col: 16, offset: 24255},
+																												pos: position{line: 760, col: 16, offset: 24526},
 																												run: (*parser).callonListContinuationElement418,
 																												expr: &seqExpr{
-																													pos: position{line: 756, col: 16, offset: 24255},
+																													pos: position{line: 760, col: 16, offset: 24526},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 756, col: 16, offset: 24255},
+																															pos:        position{line: 760, col: 16, offset: 24526},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 756, col: 23, offset: 24262},
+																															pos: position{line: 760, col: 23, offset: 24533},
 																															expr: &litMatcher{
-																																pos:        position{line: 756, col: 23, offset: 24262},
+																																pos:        position{line: 760, col: 23, offset: 24533},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -31807,12 +31807,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 758, col: 8, offset: 24346},
+																											pos: position{line: 762, col: 8, offset: 24617},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92139},
+																												pos: position{line: 2922, col: 10, offset: 92410},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92139},
+																													pos:        position{line: 2922, col: 10, offset: 92410},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31821,28 +31821,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92537},
+																											pos: position{line: 2944, col: 8, offset: 92808},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92310},
+																													pos: position{line: 2931, col: 12, offset: 92581},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92311},
+																														pos: position{line: 2931, col: 13, offset: 92582},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92311},
+																																pos:        position{line: 2931, col: 13, offset: 92582},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92318},
+																																pos:        position{line: 2931, col: 20, offset: 92589},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92327},
+																																pos:        position{line: 2931, col: 29, offset: 92598},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31851,9 +31851,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92487},
+																													pos: position{line: 2941, col: 8, offset: 92758},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92488,
+																														line: 2941, col: 9, offset: 92759,
 																													},
 																												},
 																											},
@@ -31863,45 +31863,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 862, col: 5, offset: 27639},
+																							pos: position{line: 866, col: 5, offset: 27910},
 																							run: (*parser).callonListContinuationElement434,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 869, col: 5, offset: 27796},
+																		pos:   position{line: 873, col: 5, offset: 28067},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 820, col: 5, offset: 26500},
+																			pos: position{line: 824, col: 5, offset: 26771},
 																			run: (*parser).callonListContinuationElement438,
 																			expr: &seqExpr{
-																				pos: position{line: 820, col: 5, offset: 26500},
+																				pos: position{line: 824, col: 5, offset: 26771},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2935, col: 11, offset: 92473},
+																						pos: position{line: 2939, col: 11, offset: 92744},
 																						expr: &anyMatcher{
-																							line: 2935, col: 13, offset: 92475,
+																							line: 2939, col: 13, offset: 92746,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 821, col: 5, offset: 26575},
+																						pos:   position{line: 825, col: 5, offset: 26846},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 13, offset: 90665},
+																							pos: position{line: 2868, col: 13, offset: 90936},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2864, col: 13, offset: 90665},
+																								pos: position{line: 2868, col: 13, offset: 90936},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 13, offset: 90665},
+																									pos:        position{line: 2868, col: 13, offset: 90936},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31911,28 +31911,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92537},
+																						pos: position{line: 2944, col: 8, offset: 92808},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92310},
+																								pos: position{line: 2931, col: 12, offset: 92581},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92311},
+																									pos: position{line: 2931, col: 13, offset: 92582},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92311},
+																											pos:        position{line: 2931, col: 13, offset: 92582},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92318},
+																											pos:        position{line: 2931, col: 20, offset: 92589},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92327},
+																											pos:        position{line: 2931, col: 29, offset: 92598},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31941,9 +31941,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92487},
+																								pos: position{line: 2941, col: 8, offset: 92758},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92488,
+																									line: 2941, col: 9, offset: 92759,
 																								},
 																							},
 																						},
@@ -31958,44 +31958,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 854, col: 5, offset: 27402},
+													pos:   position{line: 858, col: 5, offset: 27673},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 854, col: 9, offset: 27406},
+														pos: position{line: 858, col: 9, offset: 27677},
 														expr: &choiceExpr{
-															pos: position{line: 861, col: 5, offset: 27608},
+															pos: position{line: 865, col: 5, offset: 27879},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 861, col: 5, offset: 27608},
+																	pos: position{line: 865, col: 5, offset: 27879},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 861, col: 5, offset: 27608},
+																			pos:   position{line: 865, col: 5, offset: 27879},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 756, col: 5, offset: 24244},
+																				pos: position{line: 760, col: 5, offset: 24515},
 																				run: (*parser).callonListContinuationElement459,
 																				expr: &seqExpr{
-																					pos: position{line: 756, col: 5, offset: 24244},
+																					pos: position{line: 760, col: 5, offset: 24515},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 756, col: 5, offset: 24244},
+																							pos:   position{line: 760, col: 5, offset: 24515},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 756, col: 16, offset: 24255},
+																								pos: position{line: 760, col: 16, offset: 24526},
 																								run: (*parser).callonListContinuationElement462,
 																								expr: &seqExpr{
-																									pos: position{line: 756, col: 16, offset: 24255},
+																									pos: position{line: 760, col: 16, offset: 24526},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 756, col: 16, offset: 24255},
+																											pos:        position{line: 760, col: 16, offset: 24526},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 756, col: 23, offset: 24262},
+																											pos: position{line: 760, col: 23, offset: 24533},
 																											expr: &litMatcher{
-																												pos:        position{line: 756, col: 23, offset: 24262},
+																												pos:        position{line: 760, col: 23, offset: 24533},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -32006,12 +32006,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 758, col: 8, offset: 24346},
+																							pos: position{line: 762, col: 8, offset: 24617},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92139},
+																								pos: position{line: 2922, col: 10, offset: 92410},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92139},
+																									pos:        position{line: 2922, col: 10, offset: 92410},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32020,28 +32020,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32050,9 +32050,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -32062,15 +32062,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 862, col: 5, offset: 27639},
+																			pos: position{line: 866, col: 5, offset: 27910},
 																			run: (*parser).callonListContinuationElement478,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92487},
+																	pos: position{line: 2941, col: 8, offset: 92758},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92488,
+																		line: 2941, col: 9, offset: 92759,
 																	},
 																},
 															},
@@ -32081,36 +32081,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 961, col: 5, offset: 30088},
+										pos: position{line: 965, col: 5, offset: 30359},
 										run: (*parser).callonListContinuationElement481,
 										expr: &seqExpr{
-											pos: position{line: 961, col: 5, offset: 30088},
+											pos: position{line: 965, col: 5, offset: 30359},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 961, col: 5, offset: 30088},
+													pos:   position{line: 965, col: 5, offset: 30359},
 													label: "delimiter",
 													expr: &actionExpr{
-														pos: position{line: 769, col: 26, offset: 24732},
+														pos: position{line: 773, col: 26, offset: 25003},
 														run: (*parser).callonListContinuationElement484,
 														expr: &seqExpr{
-															pos: position{line: 769, col: 26, offset: 24732},
+															pos: position{line: 773, col: 26, offset: 25003},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 769, col: 26, offset: 24732},
+																	pos:        position{line: 773, col: 26, offset: 25003},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 769, col: 32, offset: 24738},
+																	pos:   position{line: 773, col: 32, offset: 25009},
 																	label: "language",
 																	expr: &actionExpr{
-																		pos: position{line: 773, col: 13, offset: 24868},
+																		pos: position{line: 777, col: 13, offset: 25139},
 																		run: (*parser).callonListContinuationElement488,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 773, col: 14, offset: 24869},
+																			pos: position{line: 777, col: 14, offset: 25140},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 773, col: 14, offset: 24869},
+																				pos:        position{line: 777, col: 14, offset: 25140},
 																				val:        "[^\\r\\n` ]",
 																				chars:      []rune{'\r', '\n', '`', ' '},
 																				ignoreCase: false,
@@ -32120,12 +32120,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 769, col: 52, offset: 24758},
+																	pos: position{line: 773, col: 52, offset: 25029},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92139},
+																		pos: position{line: 2922, col: 10, offset: 92410},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92139},
+																			pos:        position{line: 2922, col: 10, offset: 92410},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32134,28 +32134,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92537},
+																	pos: position{line: 2944, col: 8, offset: 92808},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92310},
+																			pos: position{line: 2931, col: 12, offset: 92581},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92311},
+																				pos: position{line: 2931, col: 13, offset: 92582},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92311},
+																						pos:        position{line: 2931, col: 13, offset: 92582},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92318},
+																						pos:        position{line: 2931, col: 20, offset: 92589},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92327},
+																						pos:        position{line: 2931, col: 29, offset: 92598},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32164,9 +32164,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92487},
+																			pos: position{line: 2941, col: 8, offset: 92758},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92488,
+																				line: 2941, col: 9, offset: 92759,
 																			},
 																		},
 																	},
@@ -32176,34 +32176,34 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 962, col: 5, offset: 30134},
+													pos:   position{line: 966, col: 5, offset: 30405},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 975, col: 5, offset: 30607},
+														pos: position{line: 979, col: 5, offset: 30878},
 														expr: &actionExpr{
-															pos: position{line: 975, col: 6, offset: 30608},
+															pos: position{line: 979, col: 6, offset: 30879},
 															run: (*parser).callonListContinuationElement504,
 															expr: &seqExpr{
-																pos: position{line: 975, col: 6, offset: 30608},
+																pos: position{line: 979, col: 6, offset: 30879},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 975, col: 6, offset: 30608},
+																		pos: position{line: 979, col: 6, offset: 30879},
 																		expr: &seqExpr{
-																			pos: position{line: 972, col: 34, offset: 30555},
+																			pos: position{line: 976, col: 34, offset: 30826},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 972, col: 34, offset: 30555},
+																					pos:        position{line: 976, col: 34, offset: 30826},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 972, col: 40, offset: 30561},
+																					pos: position{line: 976, col: 40, offset: 30832},
 																					expr: &actionExpr{
-																						pos: position{line: 2918, col: 10, offset: 92139},
+																						pos: position{line: 2922, col: 10, offset: 92410},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2918, col: 10, offset: 92139},
+																							pos:        position{line: 2922, col: 10, offset: 92410},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32212,28 +32212,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2940, col: 8, offset: 92537},
+																					pos: position{line: 2944, col: 8, offset: 92808},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2927, col: 12, offset: 92310},
+																							pos: position{line: 2931, col: 12, offset: 92581},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2927, col: 13, offset: 92311},
+																								pos: position{line: 2931, col: 13, offset: 92582},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 13, offset: 92311},
+																										pos:        position{line: 2931, col: 13, offset: 92582},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 20, offset: 92318},
+																										pos:        position{line: 2931, col: 20, offset: 92589},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 29, offset: 92327},
+																										pos:        position{line: 2931, col: 29, offset: 92598},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32242,9 +32242,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2937, col: 8, offset: 92487},
+																							pos: position{line: 2941, col: 8, offset: 92758},
 																							expr: &anyMatcher{
-																								line: 2937, col: 9, offset: 92488,
+																								line: 2941, col: 9, offset: 92759,
 																							},
 																						},
 																					},
@@ -32253,30 +32253,30 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 976, col: 5, offset: 30643},
+																		pos:   position{line: 980, col: 5, offset: 30914},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 820, col: 5, offset: 26500},
+																			pos: position{line: 824, col: 5, offset: 26771},
 																			run: (*parser).callonListContinuationElement521,
 																			expr: &seqExpr{
-																				pos: position{line: 820, col: 5, offset: 26500},
+																				pos: position{line: 824, col: 5, offset: 26771},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2935, col: 11, offset: 92473},
+																						pos: position{line: 2939, col: 11, offset: 92744},
 																						expr: &anyMatcher{
-																							line: 2935, col: 13, offset: 92475,
+																							line: 2939, col: 13, offset: 92746,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 821, col: 5, offset: 26575},
+																						pos:   position{line: 825, col: 5, offset: 26846},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 13, offset: 90665},
+																							pos: position{line: 2868, col: 13, offset: 90936},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2864, col: 13, offset: 90665},
+																								pos: position{line: 2868, col: 13, offset: 90936},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 13, offset: 90665},
+																									pos:        position{line: 2868, col: 13, offset: 90936},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32286,28 +32286,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92537},
+																						pos: position{line: 2944, col: 8, offset: 92808},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92310},
+																								pos: position{line: 2931, col: 12, offset: 92581},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92311},
+																									pos: position{line: 2931, col: 13, offset: 92582},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92311},
+																											pos:        position{line: 2931, col: 13, offset: 92582},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92318},
+																											pos:        position{line: 2931, col: 20, offset: 92589},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92327},
+																											pos:        position{line: 2931, col: 29, offset: 92598},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32316,9 +32316,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92487},
+																								pos: position{line: 2941, col: 8, offset: 92758},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92488,
+																									line: 2941, col: 9, offset: 92759,
 																								},
 																							},
 																						},
@@ -32333,23 +32333,23 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 963, col: 5, offset: 30173},
+													pos: position{line: 967, col: 5, offset: 30444},
 													expr: &seqExpr{
-														pos: position{line: 972, col: 34, offset: 30555},
+														pos: position{line: 976, col: 34, offset: 30826},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 972, col: 34, offset: 30555},
+																pos:        position{line: 976, col: 34, offset: 30826},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 972, col: 40, offset: 30561},
+																pos: position{line: 976, col: 40, offset: 30832},
 																expr: &actionExpr{
-																	pos: position{line: 2918, col: 10, offset: 92139},
+																	pos: position{line: 2922, col: 10, offset: 92410},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2918, col: 10, offset: 92139},
+																		pos:        position{line: 2922, col: 10, offset: 92410},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32358,28 +32358,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2940, col: 8, offset: 92537},
+																pos: position{line: 2944, col: 8, offset: 92808},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2927, col: 12, offset: 92310},
+																		pos: position{line: 2931, col: 12, offset: 92581},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2927, col: 13, offset: 92311},
+																			pos: position{line: 2931, col: 13, offset: 92582},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 13, offset: 92311},
+																					pos:        position{line: 2931, col: 13, offset: 92582},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 20, offset: 92318},
+																					pos:        position{line: 2931, col: 20, offset: 92589},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 29, offset: 92327},
+																					pos:        position{line: 2931, col: 29, offset: 92598},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32388,9 +32388,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92487},
+																		pos: position{line: 2941, col: 8, offset: 92758},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92488,
+																			line: 2941, col: 9, offset: 92759,
 																		},
 																	},
 																},
@@ -32402,39 +32402,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 877, col: 5, offset: 27949},
+										pos: position{line: 881, col: 5, offset: 28220},
 										run: (*parser).callonListContinuationElement551,
 										expr: &seqExpr{
-											pos: position{line: 877, col: 5, offset: 27949},
+											pos: position{line: 881, col: 5, offset: 28220},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 877, col: 5, offset: 27949},
+													pos:   position{line: 881, col: 5, offset: 28220},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 763, col: 5, offset: 24491},
+														pos: position{line: 767, col: 5, offset: 24762},
 														run: (*parser).callonListContinuationElement554,
 														expr: &seqExpr{
-															pos: position{line: 763, col: 5, offset: 24491},
+															pos: position{line: 767, col: 5, offset: 24762},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 763, col: 5, offset: 24491},
+																	pos:   position{line: 767, col: 5, offset: 24762},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 763, col: 16, offset: 24502},
+																		pos: position{line: 767, col: 16, offset: 24773},
 																		run: (*parser).callonListContinuationElement557,
 																		expr: &seqExpr{
-																			pos: position{line: 763, col: 16, offset: 24502},
+																			pos: position{line: 767, col: 16, offset: 24773},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 763, col: 16, offset: 24502},
+																					pos:        position{line: 767, col: 16, offset: 24773},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 763, col: 22, offset: 24508},
+																					pos: position{line: 767, col: 22, offset: 24779},
 																					expr: &litMatcher{
-																						pos:        position{line: 763, col: 22, offset: 24508},
+																						pos:        position{line: 767, col: 22, offset: 24779},
 																						val:        "`",
 																						ignoreCase: false,
 																						want:       "\"`\"",
@@ -32445,12 +32445,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 765, col: 8, offset: 24592},
+																	pos: position{line: 769, col: 8, offset: 24863},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92139},
+																		pos: position{line: 2922, col: 10, offset: 92410},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92139},
+																			pos:        position{line: 2922, col: 10, offset: 92410},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32459,28 +32459,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92537},
+																	pos: position{line: 2944, col: 8, offset: 92808},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92310},
+																			pos: position{line: 2931, col: 12, offset: 92581},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92311},
+																				pos: position{line: 2931, col: 13, offset: 92582},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92311},
+																						pos:        position{line: 2931, col: 13, offset: 92582},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92318},
+																						pos:        position{line: 2931, col: 20, offset: 92589},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92327},
+																						pos:        position{line: 2931, col: 29, offset: 92598},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32489,9 +32489,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92487},
+																			pos: position{line: 2941, col: 8, offset: 92758},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92488,
+																				line: 2941, col: 9, offset: 92759,
 																			},
 																		},
 																	},
@@ -32501,56 +32501,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 878, col: 5, offset: 27987},
+													pos: position{line: 882, col: 5, offset: 28258},
 													run: (*parser).callonListContinuationElement573,
 												},
 												&labeledExpr{
-													pos:   position{line: 881, col: 5, offset: 28079},
+													pos:   position{line: 885, col: 5, offset: 28350},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 896, col: 5, offset: 28469},
+														pos: position{line: 900, col: 5, offset: 28740},
 														expr: &actionExpr{
-															pos: position{line: 896, col: 6, offset: 28470},
+															pos: position{line: 900, col: 6, offset: 28741},
 															run: (*parser).callonListContinuationElement576,
 															expr: &seqExpr{
-																pos: position{line: 896, col: 6, offset: 28470},
+																pos: position{line: 900, col: 6, offset: 28741},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 896, col: 6, offset: 28470},
+																		pos: position{line: 900, col: 6, offset: 28741},
 																		expr: &choiceExpr{
-																			pos: position{line: 889, col: 5, offset: 28313},
+																			pos: position{line: 893, col: 5, offset: 28584},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 889, col: 5, offset: 28313},
+																					pos: position{line: 893, col: 5, offset: 28584},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 889, col: 5, offset: 28313},
+																							pos:   position{line: 893, col: 5, offset: 28584},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 763, col: 5, offset: 24491},
+																								pos: position{line: 767, col: 5, offset: 24762},
 																								run: (*parser).callonListContinuationElement582,
 																								expr: &seqExpr{
-																									pos: position{line: 763, col: 5, offset: 24491},
+																									pos: position{line: 767, col: 5, offset: 24762},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 763, col: 5, offset: 24491},
+																											pos:   position{line: 767, col: 5, offset: 24762},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 763, col: 16, offset: 24502},
+																												pos: position{line: 767, col: 16, offset: 24773},
 																												run: (*parser).callonListContinuationElement585,
 																												expr: &seqExpr{
-																													pos: position{line: 763, col: 16, offset: 24502},
+																													pos: position{line: 767, col: 16, offset: 24773},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 763, col: 16, offset: 24502},
+																															pos:        position{line: 767, col: 16, offset: 24773},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 763, col: 22, offset: 24508},
+																															pos: position{line: 767, col: 22, offset: 24779},
 																															expr: &litMatcher{
-																																pos:        position{line: 763, col: 22, offset: 24508},
+																																pos:        position{line: 767, col: 22, offset: 24779},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -32561,12 +32561,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 765, col: 8, offset: 24592},
+																											pos: position{line: 769, col: 8, offset: 24863},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92139},
+																												pos: position{line: 2922, col: 10, offset: 92410},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92139},
+																													pos:        position{line: 2922, col: 10, offset: 92410},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32575,28 +32575,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92537},
+																											pos: position{line: 2944, col: 8, offset: 92808},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92310},
+																													pos: position{line: 2931, col: 12, offset: 92581},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92311},
+																														pos: position{line: 2931, col: 13, offset: 92582},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92311},
+																																pos:        position{line: 2931, col: 13, offset: 92582},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92318},
+																																pos:        position{line: 2931, col: 20, offset: 92589},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92327},
+																																pos:        position{line: 2931, col: 29, offset: 92598},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32605,9 +32605,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92487},
+																													pos: position{line: 2941, col: 8, offset: 92758},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92488,
+																														line: 2941, col: 9, offset: 92759,
 																													},
 																												},
 																											},
@@ -32617,45 +32617,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 890, col: 5, offset: 28343},
+																							pos: position{line: 894, col: 5, offset: 28614},
 																							run: (*parser).callonListContinuationElement601,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 897, col: 5, offset: 28499},
+																		pos:   position{line: 901, col: 5, offset: 28770},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 820, col: 5, offset: 26500},
+																			pos: position{line: 824, col: 5, offset: 26771},
 																			run: (*parser).callonListContinuationElement605,
 																			expr: &seqExpr{
-																				pos: position{line: 820, col: 5, offset: 26500},
+																				pos: position{line: 824, col: 5, offset: 26771},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2935, col: 11, offset: 92473},
+																						pos: position{line: 2939, col: 11, offset: 92744},
 																						expr: &anyMatcher{
-																							line: 2935, col: 13, offset: 92475,
+																							line: 2939, col: 13, offset: 92746,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 821, col: 5, offset: 26575},
+																						pos:   position{line: 825, col: 5, offset: 26846},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 13, offset: 90665},
+																							pos: position{line: 2868, col: 13, offset: 90936},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2864, col: 13, offset: 90665},
+																								pos: position{line: 2868, col: 13, offset: 90936},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 13, offset: 90665},
+																									pos:        position{line: 2868, col: 13, offset: 90936},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32665,28 +32665,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92537},
+																						pos: position{line: 2944, col: 8, offset: 92808},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92310},
+																								pos: position{line: 2931, col: 12, offset: 92581},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92311},
+																									pos: position{line: 2931, col: 13, offset: 92582},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92311},
+																											pos:        position{line: 2931, col: 13, offset: 92582},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92318},
+																											pos:        position{line: 2931, col: 20, offset: 92589},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92327},
+																											pos:        position{line: 2931, col: 29, offset: 92598},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32695,9 +32695,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92487},
+																								pos: position{line: 2941, col: 8, offset: 92758},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92488,
+																									line: 2941, col: 9, offset: 92759,
 																								},
 																							},
 																						},
@@ -32712,44 +32712,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 882, col: 5, offset: 28112},
+													pos:   position{line: 886, col: 5, offset: 28383},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 882, col: 9, offset: 28116},
+														pos: position{line: 886, col: 9, offset: 28387},
 														expr: &choiceExpr{
-															pos: position{line: 889, col: 5, offset: 28313},
+															pos: position{line: 893, col: 5, offset: 28584},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 889, col: 5, offset: 28313},
+																	pos: position{line: 893, col: 5, offset: 28584},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 889, col: 5, offset: 28313},
+																			pos:   position{line: 893, col: 5, offset: 28584},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 763, col: 5, offset: 24491},
+																				pos: position{line: 767, col: 5, offset: 24762},
 																				run: (*parser).callonListContinuationElement626,
 																				expr: &seqExpr{
-																					pos: position{line: 763, col: 5, offset: 24491},
+																					pos: position{line: 767, col: 5, offset: 24762},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 763, col: 5, offset: 24491},
+																							pos:   position{line: 767, col: 5, offset: 24762},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 763, col: 16, offset: 24502},
+																								pos: position{line: 767, col: 16, offset: 24773},
 																								run: (*parser).callonListContinuationElement629,
 																								expr: &seqExpr{
-																									pos: position{line: 763, col: 16, offset: 24502},
+																									pos: position{line: 767, col: 16, offset: 24773},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 763, col: 16, offset: 24502},
+																											pos:        position{line: 767, col: 16, offset: 24773},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 763, col: 22, offset: 24508},
+																											pos: position{line: 767, col: 22, offset: 24779},
 																											expr: &litMatcher{
-																												pos:        position{line: 763, col: 22, offset: 24508},
+																												pos:        position{line: 767, col: 22, offset: 24779},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -32760,12 +32760,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 765, col: 8, offset: 24592},
+																							pos: position{line: 769, col: 8, offset: 24863},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92139},
+																								pos: position{line: 2922, col: 10, offset: 92410},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92139},
+																									pos:        position{line: 2922, col: 10, offset: 92410},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32774,28 +32774,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32804,9 +32804,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -32816,15 +32816,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 890, col: 5, offset: 28343},
+																			pos: position{line: 894, col: 5, offset: 28614},
 																			run: (*parser).callonListContinuationElement645,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92487},
+																	pos: position{line: 2941, col: 8, offset: 92758},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92488,
+																		line: 2941, col: 9, offset: 92759,
 																	},
 																},
 															},
@@ -32835,39 +32835,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 905, col: 5, offset: 28654},
+										pos: position{line: 909, col: 5, offset: 28925},
 										run: (*parser).callonListContinuationElement648,
 										expr: &seqExpr{
-											pos: position{line: 905, col: 5, offset: 28654},
+											pos: position{line: 909, col: 5, offset: 28925},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 905, col: 5, offset: 28654},
+													pos:   position{line: 909, col: 5, offset: 28925},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 778, col: 5, offset: 25028},
+														pos: position{line: 782, col: 5, offset: 25299},
 														run: (*parser).callonListContinuationElement651,
 														expr: &seqExpr{
-															pos: position{line: 778, col: 5, offset: 25028},
+															pos: position{line: 782, col: 5, offset: 25299},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 778, col: 5, offset: 25028},
+																	pos:   position{line: 782, col: 5, offset: 25299},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 778, col: 16, offset: 25039},
+																		pos: position{line: 782, col: 16, offset: 25310},
 																		run: (*parser).callonListContinuationElement654,
 																		expr: &seqExpr{
-																			pos: position{line: 778, col: 16, offset: 25039},
+																			pos: position{line: 782, col: 16, offset: 25310},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 778, col: 16, offset: 25039},
+																					pos:        position{line: 782, col: 16, offset: 25310},
 																					val:        "----",
 																					ignoreCase: false,
 																					want:       "\"----\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 778, col: 23, offset: 25046},
+																					pos: position{line: 782, col: 23, offset: 25317},
 																					expr: &litMatcher{
-																						pos:        position{line: 778, col: 23, offset: 25046},
+																						pos:        position{line: 782, col: 23, offset: 25317},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
@@ -32878,12 +32878,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 780, col: 8, offset: 25130},
+																	pos: position{line: 784, col: 8, offset: 25401},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92139},
+																		pos: position{line: 2922, col: 10, offset: 92410},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92139},
+																			pos:        position{line: 2922, col: 10, offset: 92410},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32892,28 +32892,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92537},
+																	pos: position{line: 2944, col: 8, offset: 92808},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92310},
+																			pos: position{line: 2931, col: 12, offset: 92581},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92311},
+																				pos: position{line: 2931, col: 13, offset: 92582},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92311},
+																						pos:        position{line: 2931, col: 13, offset: 92582},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92318},
+																						pos:        position{line: 2931, col: 20, offset: 92589},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92327},
+																						pos:        position{line: 2931, col: 29, offset: 92598},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32922,9 +32922,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92487},
+																			pos: position{line: 2941, col: 8, offset: 92758},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92488,
+																				line: 2941, col: 9, offset: 92759,
 																			},
 																		},
 																	},
@@ -32934,56 +32934,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 906, col: 5, offset: 28693},
+													pos: position{line: 910, col: 5, offset: 28964},
 													run: (*parser).callonListContinuationElement670,
 												},
 												&labeledExpr{
-													pos:   position{line: 909, col: 5, offset: 28785},
+													pos:   position{line: 913, col: 5, offset: 29056},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 924, col: 5, offset: 29183},
+														pos: position{line: 928, col: 5, offset: 29454},
 														expr: &actionExpr{
-															pos: position{line: 924, col: 6, offset: 29184},
+															pos: position{line: 928, col: 6, offset: 29455},
 															run: (*parser).callonListContinuationElement673,
 															expr: &seqExpr{
-																pos: position{line: 924, col: 6, offset: 29184},
+																pos: position{line: 928, col: 6, offset: 29455},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 924, col: 6, offset: 29184},
+																		pos: position{line: 928, col: 6, offset: 29455},
 																		expr: &choiceExpr{
-																			pos: position{line: 917, col: 5, offset: 29025},
+																			pos: position{line: 921, col: 5, offset: 29296},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 917, col: 5, offset: 29025},
+																					pos: position{line: 921, col: 5, offset: 29296},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 917, col: 5, offset: 29025},
+																							pos:   position{line: 921, col: 5, offset: 29296},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 778, col: 5, offset: 25028},
+																								pos: position{line: 782, col: 5, offset: 25299},
 																								run: (*parser).callonListContinuationElement679,
 																								expr: &seqExpr{
-																									pos: position{line: 778, col: 5, offset: 25028},
+																									pos: position{line: 782, col: 5, offset: 25299},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 778, col: 5, offset: 25028},
+																											pos:   position{line: 782, col: 5, offset: 25299},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 778, col: 16, offset: 25039},
+																												pos: position{line: 782, col: 16, offset: 25310},
 																												run: (*parser).callonListContinuationElement682,
 																												expr: &seqExpr{
-																													pos: position{line: 778, col: 16, offset: 25039},
+																													pos: position{line: 782, col: 16, offset: 25310},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 778, col: 16, offset: 25039},
+																															pos:        position{line: 782, col: 16, offset: 25310},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 778, col: 23, offset: 25046},
+																															pos: position{line: 782, col: 23, offset: 25317},
 																															expr: &litMatcher{
-																																pos:        position{line: 778, col: 23, offset: 25046},
+																																pos:        position{line: 782, col: 23, offset: 25317},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -32994,12 +32994,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 780, col: 8, offset: 25130},
+																											pos: position{line: 784, col: 8, offset: 25401},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92139},
+																												pos: position{line: 2922, col: 10, offset: 92410},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92139},
+																													pos:        position{line: 2922, col: 10, offset: 92410},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33008,28 +33008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92537},
+																											pos: position{line: 2944, col: 8, offset: 92808},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92310},
+																													pos: position{line: 2931, col: 12, offset: 92581},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92311},
+																														pos: position{line: 2931, col: 13, offset: 92582},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92311},
+																																pos:        position{line: 2931, col: 13, offset: 92582},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92318},
+																																pos:        position{line: 2931, col: 20, offset: 92589},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92327},
+																																pos:        position{line: 2931, col: 29, offset: 92598},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33038,9 +33038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92487},
+																													pos: position{line: 2941, col: 8, offset: 92758},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92488,
+																														line: 2941, col: 9, offset: 92759,
 																													},
 																												},
 																											},
@@ -33050,45 +33050,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 918, col: 5, offset: 29056},
+																							pos: position{line: 922, col: 5, offset: 29327},
 																							run: (*parser).callonListContinuationElement698,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 925, col: 5, offset: 29214},
+																		pos:   position{line: 929, col: 5, offset: 29485},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 820, col: 5, offset: 26500},
+																			pos: position{line: 824, col: 5, offset: 26771},
 																			run: (*parser).callonListContinuationElement702,
 																			expr: &seqExpr{
-																				pos: position{line: 820, col: 5, offset: 26500},
+																				pos: position{line: 824, col: 5, offset: 26771},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2935, col: 11, offset: 92473},
+																						pos: position{line: 2939, col: 11, offset: 92744},
 																						expr: &anyMatcher{
-																							line: 2935, col: 13, offset: 92475,
+																							line: 2939, col: 13, offset: 92746,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 821, col: 5, offset: 26575},
+																						pos:   position{line: 825, col: 5, offset: 26846},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 13, offset: 90665},
+																							pos: position{line: 2868, col: 13, offset: 90936},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2864, col: 13, offset: 90665},
+																								pos: position{line: 2868, col: 13, offset: 90936},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 13, offset: 90665},
+																									pos:        position{line: 2868, col: 13, offset: 90936},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33098,28 +33098,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92537},
+																						pos: position{line: 2944, col: 8, offset: 92808},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92310},
+																								pos: position{line: 2931, col: 12, offset: 92581},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92311},
+																									pos: position{line: 2931, col: 13, offset: 92582},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92311},
+																											pos:        position{line: 2931, col: 13, offset: 92582},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92318},
+																											pos:        position{line: 2931, col: 20, offset: 92589},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92327},
+																											pos:        position{line: 2931, col: 29, offset: 92598},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33128,9 +33128,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92487},
+																								pos: position{line: 2941, col: 8, offset: 92758},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92488,
+																									line: 2941, col: 9, offset: 92759,
 																								},
 																							},
 																						},
@@ -33145,44 +33145,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 910, col: 5, offset: 28819},
+													pos:   position{line: 914, col: 5, offset: 29090},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 910, col: 9, offset: 28823},
+														pos: position{line: 914, col: 9, offset: 29094},
 														expr: &choiceExpr{
-															pos: position{line: 917, col: 5, offset: 29025},
+															pos: position{line: 921, col: 5, offset: 29296},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 917, col: 5, offset: 29025},
+																	pos: position{line: 921, col: 5, offset: 29296},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 917, col: 5, offset: 29025},
+																			pos:   position{line: 921, col: 5, offset: 29296},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 778, col: 5, offset: 25028},
+																				pos: position{line: 782, col: 5, offset: 25299},
 																				run: (*parser).callonListContinuationElement723,
 																				expr: &seqExpr{
-																					pos: position{line: 778, col: 5, offset: 25028},
+																					pos: position{line: 782, col: 5, offset: 25299},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 778, col: 5, offset: 25028},
+																							pos:   position{line: 782, col: 5, offset: 25299},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 778, col: 16, offset: 25039},
+																								pos: position{line: 782, col: 16, offset: 25310},
 																								run: (*parser).callonListContinuationElement726,
 																								expr: &seqExpr{
-																									pos: position{line: 778, col: 16, offset: 25039},
+																									pos: position{line: 782, col: 16, offset: 25310},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 778, col: 16, offset: 25039},
+																											pos:        position{line: 782, col: 16, offset: 25310},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 778, col: 23, offset: 25046},
+																											pos: position{line: 782, col: 23, offset: 25317},
 																											expr: &litMatcher{
-																												pos:        position{line: 778, col: 23, offset: 25046},
+																												pos:        position{line: 782, col: 23, offset: 25317},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -33193,12 +33193,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 780, col: 8, offset: 25130},
+																							pos: position{line: 784, col: 8, offset: 25401},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92139},
+																								pos: position{line: 2922, col: 10, offset: 92410},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92139},
+																									pos:        position{line: 2922, col: 10, offset: 92410},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33207,28 +33207,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33237,9 +33237,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -33249,15 +33249,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 918, col: 5, offset: 29056},
+																			pos: position{line: 922, col: 5, offset: 29327},
 																			run: (*parser).callonListContinuationElement742,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92487},
+																	pos: position{line: 2941, col: 8, offset: 92758},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92488,
+																		line: 2941, col: 9, offset: 92759,
 																	},
 																},
 															},
@@ -33268,39 +33268,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 933, col: 5, offset: 29369},
+										pos: position{line: 937, col: 5, offset: 29640},
 										run: (*parser).callonListContinuationElement745,
 										expr: &seqExpr{
-											pos: position{line: 933, col: 5, offset: 29369},
+											pos: position{line: 937, col: 5, offset: 29640},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 933, col: 5, offset: 29369},
+													pos:   position{line: 937, col: 5, offset: 29640},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 792, col: 5, offset: 25504},
+														pos: position{line: 796, col: 5, offset: 25775},
 														run: (*parser).callonListContinuationElement748,
 														expr: &seqExpr{
-															pos: position{line: 792, col: 5, offset: 25504},
+															pos: position{line: 796, col: 5, offset: 25775},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 792, col: 5, offset: 25504},
+																	pos:   position{line: 796, col: 5, offset: 25775},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 792, col: 16, offset: 25515},
+																		pos: position{line: 796, col: 16, offset: 25786},
 																		run: (*parser).callonListContinuationElement751,
 																		expr: &seqExpr{
-																			pos: position{line: 792, col: 16, offset: 25515},
+																			pos: position{line: 796, col: 16, offset: 25786},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 792, col: 16, offset: 25515},
+																					pos:        position{line: 796, col: 16, offset: 25786},
 																					val:        "....",
 																					ignoreCase: false,
 																					want:       "\"....\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 792, col: 23, offset: 25522},
+																					pos: position{line: 796, col: 23, offset: 25793},
 																					expr: &litMatcher{
-																						pos:        position{line: 792, col: 23, offset: 25522},
+																						pos:        position{line: 796, col: 23, offset: 25793},
 																						val:        ".",
 																						ignoreCase: false,
 																						want:       "\".\"",
@@ -33311,12 +33311,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 794, col: 8, offset: 25606},
+																	pos: position{line: 798, col: 8, offset: 25877},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92139},
+																		pos: position{line: 2922, col: 10, offset: 92410},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92139},
+																			pos:        position{line: 2922, col: 10, offset: 92410},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33325,28 +33325,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92537},
+																	pos: position{line: 2944, col: 8, offset: 92808},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92310},
+																			pos: position{line: 2931, col: 12, offset: 92581},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92311},
+																				pos: position{line: 2931, col: 13, offset: 92582},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92311},
+																						pos:        position{line: 2931, col: 13, offset: 92582},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92318},
+																						pos:        position{line: 2931, col: 20, offset: 92589},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92327},
+																						pos:        position{line: 2931, col: 29, offset: 92598},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33355,9 +33355,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92487},
+																			pos: position{line: 2941, col: 8, offset: 92758},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92488,
+																				line: 2941, col: 9, offset: 92759,
 																			},
 																		},
 																	},
@@ -33367,56 +33367,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 934, col: 5, offset: 29408},
+													pos: position{line: 938, col: 5, offset: 29679},
 													run: (*parser).callonListContinuationElement767,
 												},
 												&labeledExpr{
-													pos:   position{line: 937, col: 5, offset: 29500},
+													pos:   position{line: 941, col: 5, offset: 29771},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 952, col: 5, offset: 29898},
+														pos: position{line: 956, col: 5, offset: 30169},
 														expr: &actionExpr{
-															pos: position{line: 952, col: 6, offset: 29899},
+															pos: position{line: 956, col: 6, offset: 30170},
 															run: (*parser).callonListContinuationElement770,
 															expr: &seqExpr{
-																pos: position{line: 952, col: 6, offset: 29899},
+																pos: position{line: 956, col: 6, offset: 30170},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 952, col: 6, offset: 29899},
+																		pos: position{line: 956, col: 6, offset: 30170},
 																		expr: &choiceExpr{
-																			pos: position{line: 945, col: 5, offset: 29740},
+																			pos: position{line: 949, col: 5, offset: 30011},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 945, col: 5, offset: 29740},
+																					pos: position{line: 949, col: 5, offset: 30011},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 945, col: 5, offset: 29740},
+																							pos:   position{line: 949, col: 5, offset: 30011},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 792, col: 5, offset: 25504},
+																								pos: position{line: 796, col: 5, offset: 25775},
 																								run: (*parser).callonListContinuationElement776,
 																								expr: &seqExpr{
-																									pos: position{line: 792, col: 5, offset: 25504},
+																									pos: position{line: 796, col: 5, offset: 25775},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 792, col: 5, offset: 25504},
+																											pos:   position{line: 796, col: 5, offset: 25775},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 792, col: 16, offset: 25515},
+																												pos: position{line: 796, col: 16, offset: 25786},
 																												run: (*parser).callonListContinuationElement779,
 																												expr: &seqExpr{
-																													pos: position{line: 792, col: 16, offset: 25515},
+																													pos: position{line: 796, col: 16, offset: 25786},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 792, col: 16, offset: 25515},
+																															pos:        position{line: 796, col: 16, offset: 25786},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 792, col: 23, offset: 25522},
+																															pos: position{line: 796, col: 23, offset: 25793},
 																															expr: &litMatcher{
-																																pos:        position{line: 792, col: 23, offset: 25522},
+																																pos:        position{line: 796, col: 23, offset: 25793},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -33427,12 +33427,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 794, col: 8, offset: 25606},
+																											pos: position{line: 798, col: 8, offset: 25877},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92139},
+																												pos: position{line: 2922, col: 10, offset: 92410},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92139},
+																													pos:        position{line: 2922, col: 10, offset: 92410},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33441,28 +33441,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92537},
+																											pos: position{line: 2944, col: 8, offset: 92808},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92310},
+																													pos: position{line: 2931, col: 12, offset: 92581},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92311},
+																														pos: position{line: 2931, col: 13, offset: 92582},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92311},
+																																pos:        position{line: 2931, col: 13, offset: 92582},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92318},
+																																pos:        position{line: 2931, col: 20, offset: 92589},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92327},
+																																pos:        position{line: 2931, col: 29, offset: 92598},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33471,9 +33471,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92487},
+																													pos: position{line: 2941, col: 8, offset: 92758},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92488,
+																														line: 2941, col: 9, offset: 92759,
 																													},
 																												},
 																											},
@@ -33483,45 +33483,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 946, col: 5, offset: 29771},
+																							pos: position{line: 950, col: 5, offset: 30042},
 																							run: (*parser).callonListContinuationElement795,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 953, col: 5, offset: 29929},
+																		pos:   position{line: 957, col: 5, offset: 30200},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 820, col: 5, offset: 26500},
+																			pos: position{line: 824, col: 5, offset: 26771},
 																			run: (*parser).callonListContinuationElement799,
 																			expr: &seqExpr{
-																				pos: position{line: 820, col: 5, offset: 26500},
+																				pos: position{line: 824, col: 5, offset: 26771},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2935, col: 11, offset: 92473},
+																						pos: position{line: 2939, col: 11, offset: 92744},
 																						expr: &anyMatcher{
-																							line: 2935, col: 13, offset: 92475,
+																							line: 2939, col: 13, offset: 92746,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 821, col: 5, offset: 26575},
+																						pos:   position{line: 825, col: 5, offset: 26846},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 13, offset: 90665},
+																							pos: position{line: 2868, col: 13, offset: 90936},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2864, col: 13, offset: 90665},
+																								pos: position{line: 2868, col: 13, offset: 90936},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 13, offset: 90665},
+																									pos:        position{line: 2868, col: 13, offset: 90936},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33531,28 +33531,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92537},
+																						pos: position{line: 2944, col: 8, offset: 92808},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92310},
+																								pos: position{line: 2931, col: 12, offset: 92581},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92311},
+																									pos: position{line: 2931, col: 13, offset: 92582},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92311},
+																											pos:        position{line: 2931, col: 13, offset: 92582},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92318},
+																											pos:        position{line: 2931, col: 20, offset: 92589},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92327},
+																											pos:        position{line: 2931, col: 29, offset: 92598},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33561,9 +33561,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92487},
+																								pos: position{line: 2941, col: 8, offset: 92758},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92488,
+																									line: 2941, col: 9, offset: 92759,
 																								},
 																							},
 																						},
@@ -33578,44 +33578,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 938, col: 5, offset: 29534},
+													pos:   position{line: 942, col: 5, offset: 29805},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 938, col: 9, offset: 29538},
+														pos: position{line: 942, col: 9, offset: 29809},
 														expr: &choiceExpr{
-															pos: position{line: 945, col: 5, offset: 29740},
+															pos: position{line: 949, col: 5, offset: 30011},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 945, col: 5, offset: 29740},
+																	pos: position{line: 949, col: 5, offset: 30011},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 945, col: 5, offset: 29740},
+																			pos:   position{line: 949, col: 5, offset: 30011},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 792, col: 5, offset: 25504},
+																				pos: position{line: 796, col: 5, offset: 25775},
 																				run: (*parser).callonListContinuationElement820,
 																				expr: &seqExpr{
-																					pos: position{line: 792, col: 5, offset: 25504},
+																					pos: position{line: 796, col: 5, offset: 25775},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 792, col: 5, offset: 25504},
+																							pos:   position{line: 796, col: 5, offset: 25775},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 792, col: 16, offset: 25515},
+																								pos: position{line: 796, col: 16, offset: 25786},
 																								run: (*parser).callonListContinuationElement823,
 																								expr: &seqExpr{
-																									pos: position{line: 792, col: 16, offset: 25515},
+																									pos: position{line: 796, col: 16, offset: 25786},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 792, col: 16, offset: 25515},
+																											pos:        position{line: 796, col: 16, offset: 25786},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 792, col: 23, offset: 25522},
+																											pos: position{line: 796, col: 23, offset: 25793},
 																											expr: &litMatcher{
-																												pos:        position{line: 792, col: 23, offset: 25522},
+																												pos:        position{line: 796, col: 23, offset: 25793},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -33626,12 +33626,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 794, col: 8, offset: 25606},
+																							pos: position{line: 798, col: 8, offset: 25877},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92139},
+																								pos: position{line: 2922, col: 10, offset: 92410},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92139},
+																									pos:        position{line: 2922, col: 10, offset: 92410},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33640,28 +33640,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33670,9 +33670,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -33682,15 +33682,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 946, col: 5, offset: 29771},
+																			pos: position{line: 950, col: 5, offset: 30042},
 																			run: (*parser).callonListContinuationElement839,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92487},
+																	pos: position{line: 2941, col: 8, offset: 92758},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92488,
+																		line: 2941, col: 9, offset: 92759,
 																	},
 																},
 															},
@@ -33701,41 +33701,41 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 984, col: 5, offset: 30812},
+										pos: position{line: 988, col: 5, offset: 31083},
 										run: (*parser).callonListContinuationElement842,
 										expr: &seqExpr{
-											pos: position{line: 984, col: 5, offset: 30812},
+											pos: position{line: 988, col: 5, offset: 31083},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 984, col: 5, offset: 30812},
+													pos:   position{line: 988, col: 5, offset: 31083},
 													label: "firstLine",
 													expr: &actionExpr{
-														pos: position{line: 991, col: 5, offset: 31071},
+														pos: position{line: 995, col: 5, offset: 31342},
 														run: (*parser).callonListContinuationElement845,
 														expr: &seqExpr{
-															pos: position{line: 991, col: 5, offset: 31071},
+															pos: position{line: 995, col: 5, offset: 31342},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 991, col: 5, offset: 31071},
+																	pos: position{line: 995, col: 5, offset: 31342},
 																	expr: &actionExpr{
-																		pos: position{line: 686, col: 14, offset: 21901},
+																		pos: position{line: 690, col: 14, offset: 22172},
 																		run: (*parser).callonListContinuationElement848,
 																		expr: &seqExpr{
-																			pos: position{line: 686, col: 14, offset: 21901},
+																			pos: position{line: 690, col: 14, offset: 22172},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2935, col: 11, offset: 92473},
+																					pos: position{line: 2939, col: 11, offset: 92744},
 																					expr: &anyMatcher{
-																						line: 2935, col: 13, offset: 92475,
+																						line: 2939, col: 13, offset: 92746,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 686, col: 21, offset: 21908},
+																					pos: position{line: 690, col: 21, offset: 22179},
 																					expr: &actionExpr{
-																						pos: position{line: 2918, col: 10, offset: 92139},
+																						pos: position{line: 2922, col: 10, offset: 92410},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2918, col: 10, offset: 92139},
+																							pos:        position{line: 2922, col: 10, offset: 92410},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33744,28 +33744,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2940, col: 8, offset: 92537},
+																					pos: position{line: 2944, col: 8, offset: 92808},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2927, col: 12, offset: 92310},
+																							pos: position{line: 2931, col: 12, offset: 92581},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2927, col: 13, offset: 92311},
+																								pos: position{line: 2931, col: 13, offset: 92582},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 13, offset: 92311},
+																										pos:        position{line: 2931, col: 13, offset: 92582},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 20, offset: 92318},
+																										pos:        position{line: 2931, col: 20, offset: 92589},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 29, offset: 92327},
+																										pos:        position{line: 2931, col: 29, offset: 92598},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33774,9 +33774,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2937, col: 8, offset: 92487},
+																							pos: position{line: 2941, col: 8, offset: 92758},
 																							expr: &anyMatcher{
-																								line: 2937, col: 9, offset: 92488,
+																								line: 2941, col: 9, offset: 92759,
 																							},
 																						},
 																					},
@@ -33786,21 +33786,21 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 992, col: 5, offset: 31086},
+																	pos:        position{line: 996, col: 5, offset: 31357},
 																	val:        "> ",
 																	ignoreCase: false,
 																	want:       "\"> \"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 993, col: 5, offset: 31096},
+																	pos:   position{line: 997, col: 5, offset: 31367},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 14, offset: 90732},
+																		pos: position{line: 2872, col: 14, offset: 91003},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2868, col: 14, offset: 90732},
+																			pos: position{line: 2872, col: 14, offset: 91003},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 14, offset: 90732},
+																				pos:        position{line: 2872, col: 14, offset: 91003},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33810,28 +33810,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92537},
+																	pos: position{line: 2944, col: 8, offset: 92808},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92310},
+																			pos: position{line: 2931, col: 12, offset: 92581},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92311},
+																				pos: position{line: 2931, col: 13, offset: 92582},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92311},
+																						pos:        position{line: 2931, col: 13, offset: 92582},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92318},
+																						pos:        position{line: 2931, col: 20, offset: 92589},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92327},
+																						pos:        position{line: 2931, col: 29, offset: 92598},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33840,9 +33840,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92487},
+																			pos: position{line: 2941, col: 8, offset: 92758},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92488,
+																				line: 2941, col: 9, offset: 92759,
 																			},
 																		},
 																	},
@@ -33852,40 +33852,40 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 985, col: 5, offset: 30849},
+													pos:   position{line: 989, col: 5, offset: 31120},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 985, col: 16, offset: 30860},
+														pos: position{line: 989, col: 16, offset: 31131},
 														expr: &choiceExpr{
-															pos: position{line: 985, col: 17, offset: 30861},
+															pos: position{line: 989, col: 17, offset: 31132},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 991, col: 5, offset: 31071},
+																	pos: position{line: 995, col: 5, offset: 31342},
 																	run: (*parser).callonListContinuationElement879,
 																	expr: &seqExpr{
-																		pos: position{line: 991, col: 5, offset: 31071},
+																		pos: position{line: 995, col: 5, offset: 31342},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 991, col: 5, offset: 31071},
+																				pos: position{line: 995, col: 5, offset: 31342},
 																				expr: &actionExpr{
-																					pos: position{line: 686, col: 14, offset: 21901},
+																					pos: position{line: 690, col: 14, offset: 22172},
 																					run: (*parser).callonListContinuationElement882,
 																					expr: &seqExpr{
-																						pos: position{line: 686, col: 14, offset: 21901},
+																						pos: position{line: 690, col: 14, offset: 22172},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2935, col: 11, offset: 92473},
+																								pos: position{line: 2939, col: 11, offset: 92744},
 																								expr: &anyMatcher{
-																									line: 2935, col: 13, offset: 92475,
+																									line: 2939, col: 13, offset: 92746,
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 686, col: 21, offset: 21908},
+																								pos: position{line: 690, col: 21, offset: 22179},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92139},
+																									pos: position{line: 2922, col: 10, offset: 92410},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92139},
+																										pos:        position{line: 2922, col: 10, offset: 92410},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33894,28 +33894,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92537},
+																								pos: position{line: 2944, col: 8, offset: 92808},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92310},
+																										pos: position{line: 2931, col: 12, offset: 92581},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92311},
+																											pos: position{line: 2931, col: 13, offset: 92582},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92311},
+																													pos:        position{line: 2931, col: 13, offset: 92582},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92318},
+																													pos:        position{line: 2931, col: 20, offset: 92589},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92327},
+																													pos:        position{line: 2931, col: 29, offset: 92598},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33924,9 +33924,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92487},
+																										pos: position{line: 2941, col: 8, offset: 92758},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92488,
+																											line: 2941, col: 9, offset: 92759,
 																										},
 																									},
 																								},
@@ -33936,21 +33936,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 992, col: 5, offset: 31086},
+																				pos:        position{line: 996, col: 5, offset: 31357},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 993, col: 5, offset: 31096},
+																				pos:   position{line: 997, col: 5, offset: 31367},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2868, col: 14, offset: 90732},
+																					pos: position{line: 2872, col: 14, offset: 91003},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2868, col: 14, offset: 90732},
+																						pos: position{line: 2872, col: 14, offset: 91003},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2868, col: 14, offset: 90732},
+																							pos:        position{line: 2872, col: 14, offset: 91003},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33960,28 +33960,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2940, col: 8, offset: 92537},
+																				pos: position{line: 2944, col: 8, offset: 92808},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2927, col: 12, offset: 92310},
+																						pos: position{line: 2931, col: 12, offset: 92581},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2927, col: 13, offset: 92311},
+																							pos: position{line: 2931, col: 13, offset: 92582},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 13, offset: 92311},
+																									pos:        position{line: 2931, col: 13, offset: 92582},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 20, offset: 92318},
+																									pos:        position{line: 2931, col: 20, offset: 92589},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 29, offset: 92327},
+																									pos:        position{line: 2931, col: 29, offset: 92598},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33990,9 +33990,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92487},
+																						pos: position{line: 2941, col: 8, offset: 92758},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92488,
+																							line: 2941, col: 9, offset: 92759,
 																						},
 																					},
 																				},
@@ -34001,21 +34001,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1800, col: 5, offset: 58199},
+																	pos: position{line: 1804, col: 5, offset: 58470},
 																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 1800, col: 5, offset: 58199},
+																		pos: position{line: 1804, col: 5, offset: 58470},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1800, col: 5, offset: 58199},
+																				pos:   position{line: 1804, col: 5, offset: 58470},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2868, col: 14, offset: 90732},
+																					pos: position{line: 2872, col: 14, offset: 91003},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2868, col: 14, offset: 90732},
+																						pos: position{line: 2872, col: 14, offset: 91003},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2868, col: 14, offset: 90732},
+																							pos:        position{line: 2872, col: 14, offset: 91003},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34025,32 +34025,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1801, col: 5, offset: 58223},
+																				pos: position{line: 1805, col: 5, offset: 58494},
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2940, col: 8, offset: 92537},
+																				pos: position{line: 2944, col: 8, offset: 92808},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2927, col: 12, offset: 92310},
+																						pos: position{line: 2931, col: 12, offset: 92581},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2927, col: 13, offset: 92311},
+																							pos: position{line: 2931, col: 13, offset: 92582},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 13, offset: 92311},
+																									pos:        position{line: 2931, col: 13, offset: 92582},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 20, offset: 92318},
+																									pos:        position{line: 2931, col: 20, offset: 92589},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 29, offset: 92327},
+																									pos:        position{line: 2931, col: 29, offset: 92598},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34059,9 +34059,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92487},
+																						pos: position{line: 2941, col: 8, offset: 92758},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92488,
+																							line: 2941, col: 9, offset: 92759,
 																						},
 																					},
 																				},
@@ -34077,28 +34077,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1006, col: 5, offset: 31361},
+										pos: position{line: 1010, col: 5, offset: 31632},
 										run: (*parser).callonListContinuationElement925,
 										expr: &seqExpr{
-											pos: position{line: 1006, col: 5, offset: 31361},
+											pos: position{line: 1010, col: 5, offset: 31632},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1006, col: 5, offset: 31361},
+													pos:   position{line: 1010, col: 5, offset: 31632},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 785, col: 5, offset: 25273},
+														pos: position{line: 789, col: 5, offset: 25544},
 														run: (*parser).callonListContinuationElement928,
 														expr: &seqExpr{
-															pos: position{line: 785, col: 5, offset: 25273},
+															pos: position{line: 789, col: 5, offset: 25544},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 785, col: 5, offset: 25273},
+																	pos:   position{line: 789, col: 5, offset: 25544},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 785, col: 16, offset: 25284},
+																		pos: position{line: 789, col: 16, offset: 25555},
 																		run: (*parser).callonListContinuationElement931,
 																		expr: &litMatcher{
-																			pos:        position{line: 785, col: 16, offset: 25284},
+																			pos:        position{line: 789, col: 16, offset: 25555},
 																			val:        "--",
 																			ignoreCase: false,
 																			want:       "\"--\"",
@@ -34106,12 +34106,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 787, col: 8, offset: 25361},
+																	pos: position{line: 791, col: 8, offset: 25632},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92139},
+																		pos: position{line: 2922, col: 10, offset: 92410},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92139},
+																			pos:        position{line: 2922, col: 10, offset: 92410},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34120,28 +34120,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92537},
+																	pos: position{line: 2944, col: 8, offset: 92808},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92310},
+																			pos: position{line: 2931, col: 12, offset: 92581},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92311},
+																				pos: position{line: 2931, col: 13, offset: 92582},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92311},
+																						pos:        position{line: 2931, col: 13, offset: 92582},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92318},
+																						pos:        position{line: 2931, col: 20, offset: 92589},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92327},
+																						pos:        position{line: 2931, col: 29, offset: 92598},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34150,9 +34150,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92487},
+																			pos: position{line: 2941, col: 8, offset: 92758},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92488,
+																				line: 2941, col: 9, offset: 92759,
 																			},
 																		},
 																	},
@@ -34162,35 +34162,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1007, col: 5, offset: 31397},
+													pos:   position{line: 1011, col: 5, offset: 31668},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1017, col: 5, offset: 31665},
+														pos: position{line: 1021, col: 5, offset: 31936},
 														expr: &actionExpr{
-															pos: position{line: 1017, col: 6, offset: 31666},
+															pos: position{line: 1021, col: 6, offset: 31937},
 															run: (*parser).callonListContinuationElement946,
 															expr: &seqExpr{
-																pos: position{line: 1017, col: 6, offset: 31666},
+																pos: position{line: 1021, col: 6, offset: 31937},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1017, col: 6, offset: 31666},
+																		pos: position{line: 1021, col: 6, offset: 31937},
 																		expr: &choiceExpr{
-																			pos: position{line: 1014, col: 26, offset: 31614},
+																			pos: position{line: 1018, col: 26, offset: 31885},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 785, col: 5, offset: 25273},
+																					pos: position{line: 789, col: 5, offset: 25544},
 																					run: (*parser).callonListContinuationElement950,
 																					expr: &seqExpr{
-																						pos: position{line: 785, col: 5, offset: 25273},
+																						pos: position{line: 789, col: 5, offset: 25544},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 785, col: 5, offset: 25273},
+																								pos:   position{line: 789, col: 5, offset: 25544},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 785, col: 16, offset: 25284},
+																									pos: position{line: 789, col: 16, offset: 25555},
 																									run: (*parser).callonListContinuationElement953,
 																									expr: &litMatcher{
-																										pos:        position{line: 785, col: 16, offset: 25284},
+																										pos:        position{line: 789, col: 16, offset: 25555},
 																										val:        "--",
 																										ignoreCase: false,
 																										want:       "\"--\"",
@@ -34198,12 +34198,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 787, col: 8, offset: 25361},
+																								pos: position{line: 791, col: 8, offset: 25632},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92139},
+																									pos: position{line: 2922, col: 10, offset: 92410},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92139},
+																										pos:        position{line: 2922, col: 10, offset: 92410},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34212,28 +34212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92537},
+																								pos: position{line: 2944, col: 8, offset: 92808},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92310},
+																										pos: position{line: 2931, col: 12, offset: 92581},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92311},
+																											pos: position{line: 2931, col: 13, offset: 92582},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92311},
+																													pos:        position{line: 2931, col: 13, offset: 92582},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92318},
+																													pos:        position{line: 2931, col: 20, offset: 92589},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92327},
+																													pos:        position{line: 2931, col: 29, offset: 92598},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34242,9 +34242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92487},
+																										pos: position{line: 2941, col: 8, offset: 92758},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92488,
+																											line: 2941, col: 9, offset: 92759,
 																										},
 																									},
 																								},
@@ -34253,39 +34253,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1018, col: 5, offset: 31693},
+																		pos:   position{line: 1022, col: 5, offset: 31964},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 820, col: 5, offset: 26500},
+																			pos: position{line: 824, col: 5, offset: 26771},
 																			run: (*parser).callonListContinuationElement969,
 																			expr: &seqExpr{
-																				pos: position{line: 820, col: 5, offset: 26500},
+																				pos: position{line: 824, col: 5, offset: 26771},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2935, col: 11, offset: 92473},
+																						pos: position{line: 2939, col: 11, offset: 92744},
 																						expr: &anyMatcher{
-																							line: 2935, col: 13, offset: 92475,
+																							line: 2939, col: 13, offset: 92746,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 821, col: 5, offset: 26575},
+																						pos:   position{line: 825, col: 5, offset: 26846},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 13, offset: 90665},
+																							pos: position{line: 2868, col: 13, offset: 90936},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2864, col: 13, offset: 90665},
+																								pos: position{line: 2868, col: 13, offset: 90936},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 13, offset: 90665},
+																									pos:        position{line: 2868, col: 13, offset: 90936},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34295,28 +34295,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92537},
+																						pos: position{line: 2944, col: 8, offset: 92808},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92310},
+																								pos: position{line: 2931, col: 12, offset: 92581},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92311},
+																									pos: position{line: 2931, col: 13, offset: 92582},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92311},
+																											pos:        position{line: 2931, col: 13, offset: 92582},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92318},
+																											pos:        position{line: 2931, col: 20, offset: 92589},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92327},
+																											pos:        position{line: 2931, col: 29, offset: 92598},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34325,9 +34325,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92487},
+																								pos: position{line: 2941, col: 8, offset: 92758},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92488,
+																									line: 2941, col: 9, offset: 92759,
 																								},
 																							},
 																						},
@@ -34342,27 +34342,27 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1008, col: 5, offset: 31428},
+													pos:   position{line: 1012, col: 5, offset: 31699},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1008, col: 9, offset: 31432},
+														pos: position{line: 1012, col: 9, offset: 31703},
 														expr: &choiceExpr{
-															pos: position{line: 1014, col: 26, offset: 31614},
+															pos: position{line: 1018, col: 26, offset: 31885},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 785, col: 5, offset: 25273},
+																	pos: position{line: 789, col: 5, offset: 25544},
 																	run: (*parser).callonListContinuationElement988,
 																	expr: &seqExpr{
-																		pos: position{line: 785, col: 5, offset: 25273},
+																		pos: position{line: 789, col: 5, offset: 25544},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 785, col: 5, offset: 25273},
+																				pos:   position{line: 789, col: 5, offset: 25544},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 785, col: 16, offset: 25284},
+																					pos: position{line: 789, col: 16, offset: 25555},
 																					run: (*parser).callonListContinuationElement991,
 																					expr: &litMatcher{
-																						pos:        position{line: 785, col: 16, offset: 25284},
+																						pos:        position{line: 789, col: 16, offset: 25555},
 																						val:        "--",
 																						ignoreCase: false,
 																						want:       "\"--\"",
@@ -34370,12 +34370,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 787, col: 8, offset: 25361},
+																				pos: position{line: 791, col: 8, offset: 25632},
 																				expr: &actionExpr{
-																					pos: position{line: 2918, col: 10, offset: 92139},
+																					pos: position{line: 2922, col: 10, offset: 92410},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2918, col: 10, offset: 92139},
+																						pos:        position{line: 2922, col: 10, offset: 92410},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34384,28 +34384,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2940, col: 8, offset: 92537},
+																				pos: position{line: 2944, col: 8, offset: 92808},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2927, col: 12, offset: 92310},
+																						pos: position{line: 2931, col: 12, offset: 92581},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2927, col: 13, offset: 92311},
+																							pos: position{line: 2931, col: 13, offset: 92582},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 13, offset: 92311},
+																									pos:        position{line: 2931, col: 13, offset: 92582},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 20, offset: 92318},
+																									pos:        position{line: 2931, col: 20, offset: 92589},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 29, offset: 92327},
+																									pos:        position{line: 2931, col: 29, offset: 92598},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34414,9 +34414,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92487},
+																						pos: position{line: 2941, col: 8, offset: 92758},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92488,
+																							line: 2941, col: 9, offset: 92759,
 																						},
 																					},
 																				},
@@ -34425,9 +34425,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92487},
+																	pos: position{line: 2941, col: 8, offset: 92758},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92488,
+																		line: 2941, col: 9, offset: 92759,
 																	},
 																},
 															},
@@ -34438,39 +34438,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1026, col: 5, offset: 31856},
+										pos: position{line: 1030, col: 5, offset: 32127},
 										run: (*parser).callonListContinuationElement1006,
 										expr: &seqExpr{
-											pos: position{line: 1026, col: 5, offset: 31856},
+											pos: position{line: 1030, col: 5, offset: 32127},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1026, col: 5, offset: 31856},
+													pos:   position{line: 1030, col: 5, offset: 32127},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 799, col: 5, offset: 25756},
+														pos: position{line: 803, col: 5, offset: 26027},
 														run: (*parser).callonListContinuationElement1009,
 														expr: &seqExpr{
-															pos: position{line: 799, col: 5, offset: 25756},
+															pos: position{line: 803, col: 5, offset: 26027},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 799, col: 5, offset: 25756},
+																	pos:   position{line: 803, col: 5, offset: 26027},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 799, col: 16, offset: 25767},
+																		pos: position{line: 803, col: 16, offset: 26038},
 																		run: (*parser).callonListContinuationElement1012,
 																		expr: &seqExpr{
-																			pos: position{line: 799, col: 16, offset: 25767},
+																			pos: position{line: 803, col: 16, offset: 26038},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 799, col: 16, offset: 25767},
+																					pos:        position{line: 803, col: 16, offset: 26038},
 																					val:        "++++",
 																					ignoreCase: false,
 																					want:       "\"++++\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 799, col: 23, offset: 25774},
+																					pos: position{line: 803, col: 23, offset: 26045},
 																					expr: &litMatcher{
-																						pos:        position{line: 799, col: 23, offset: 25774},
+																						pos:        position{line: 803, col: 23, offset: 26045},
 																						val:        "+",
 																						ignoreCase: false,
 																						want:       "\"+\"",
@@ -34481,12 +34481,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 801, col: 8, offset: 25858},
+																	pos: position{line: 805, col: 8, offset: 26129},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92139},
+																		pos: position{line: 2922, col: 10, offset: 92410},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92139},
+																			pos:        position{line: 2922, col: 10, offset: 92410},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34495,28 +34495,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92537},
+																	pos: position{line: 2944, col: 8, offset: 92808},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92310},
+																			pos: position{line: 2931, col: 12, offset: 92581},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92311},
+																				pos: position{line: 2931, col: 13, offset: 92582},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92311},
+																						pos:        position{line: 2931, col: 13, offset: 92582},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92318},
+																						pos:        position{line: 2931, col: 20, offset: 92589},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92327},
+																						pos:        position{line: 2931, col: 29, offset: 92598},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34525,9 +34525,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92487},
+																			pos: position{line: 2941, col: 8, offset: 92758},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92488,
+																				line: 2941, col: 9, offset: 92759,
 																			},
 																		},
 																	},
@@ -34537,56 +34537,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1027, col: 5, offset: 31899},
+													pos: position{line: 1031, col: 5, offset: 32170},
 													run: (*parser).callonListContinuationElement1028,
 												},
 												&labeledExpr{
-													pos:   position{line: 1030, col: 5, offset: 31991},
+													pos:   position{line: 1034, col: 5, offset: 32262},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1045, col: 5, offset: 32421},
+														pos: position{line: 1049, col: 5, offset: 32692},
 														expr: &actionExpr{
-															pos: position{line: 1045, col: 6, offset: 32422},
+															pos: position{line: 1049, col: 6, offset: 32693},
 															run: (*parser).callonListContinuationElement1031,
 															expr: &seqExpr{
-																pos: position{line: 1045, col: 6, offset: 32422},
+																pos: position{line: 1049, col: 6, offset: 32693},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1045, col: 6, offset: 32422},
+																		pos: position{line: 1049, col: 6, offset: 32693},
 																		expr: &choiceExpr{
-																			pos: position{line: 1038, col: 5, offset: 32255},
+																			pos: position{line: 1042, col: 5, offset: 32526},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1038, col: 5, offset: 32255},
+																					pos: position{line: 1042, col: 5, offset: 32526},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1038, col: 5, offset: 32255},
+																							pos:   position{line: 1042, col: 5, offset: 32526},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 799, col: 5, offset: 25756},
+																								pos: position{line: 803, col: 5, offset: 26027},
 																								run: (*parser).callonListContinuationElement1037,
 																								expr: &seqExpr{
-																									pos: position{line: 799, col: 5, offset: 25756},
+																									pos: position{line: 803, col: 5, offset: 26027},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 799, col: 5, offset: 25756},
+																											pos:   position{line: 803, col: 5, offset: 26027},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 799, col: 16, offset: 25767},
+																												pos: position{line: 803, col: 16, offset: 26038},
 																												run: (*parser).callonListContinuationElement1040,
 																												expr: &seqExpr{
-																													pos: position{line: 799, col: 16, offset: 25767},
+																													pos: position{line: 803, col: 16, offset: 26038},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 799, col: 16, offset: 25767},
+																															pos:        position{line: 803, col: 16, offset: 26038},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 799, col: 23, offset: 25774},
+																															pos: position{line: 803, col: 23, offset: 26045},
 																															expr: &litMatcher{
-																																pos:        position{line: 799, col: 23, offset: 25774},
+																																pos:        position{line: 803, col: 23, offset: 26045},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -34597,12 +34597,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 801, col: 8, offset: 25858},
+																											pos: position{line: 805, col: 8, offset: 26129},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92139},
+																												pos: position{line: 2922, col: 10, offset: 92410},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92139},
+																													pos:        position{line: 2922, col: 10, offset: 92410},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34611,28 +34611,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92537},
+																											pos: position{line: 2944, col: 8, offset: 92808},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92310},
+																													pos: position{line: 2931, col: 12, offset: 92581},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92311},
+																														pos: position{line: 2931, col: 13, offset: 92582},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92311},
+																																pos:        position{line: 2931, col: 13, offset: 92582},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92318},
+																																pos:        position{line: 2931, col: 20, offset: 92589},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92327},
+																																pos:        position{line: 2931, col: 29, offset: 92598},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34641,9 +34641,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92487},
+																													pos: position{line: 2941, col: 8, offset: 92758},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92488,
+																														line: 2941, col: 9, offset: 92759,
 																													},
 																												},
 																											},
@@ -34653,45 +34653,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1039, col: 5, offset: 32290},
+																							pos: position{line: 1043, col: 5, offset: 32561},
 																							run: (*parser).callonListContinuationElement1056,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1046, col: 5, offset: 32456},
+																		pos:   position{line: 1050, col: 5, offset: 32727},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 820, col: 5, offset: 26500},
+																			pos: position{line: 824, col: 5, offset: 26771},
 																			run: (*parser).callonListContinuationElement1060,
 																			expr: &seqExpr{
-																				pos: position{line: 820, col: 5, offset: 26500},
+																				pos: position{line: 824, col: 5, offset: 26771},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2935, col: 11, offset: 92473},
+																						pos: position{line: 2939, col: 11, offset: 92744},
 																						expr: &anyMatcher{
-																							line: 2935, col: 13, offset: 92475,
+																							line: 2939, col: 13, offset: 92746,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 821, col: 5, offset: 26575},
+																						pos:   position{line: 825, col: 5, offset: 26846},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 13, offset: 90665},
+																							pos: position{line: 2868, col: 13, offset: 90936},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2864, col: 13, offset: 90665},
+																								pos: position{line: 2868, col: 13, offset: 90936},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 13, offset: 90665},
+																									pos:        position{line: 2868, col: 13, offset: 90936},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34701,28 +34701,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92537},
+																						pos: position{line: 2944, col: 8, offset: 92808},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92310},
+																								pos: position{line: 2931, col: 12, offset: 92581},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92311},
+																									pos: position{line: 2931, col: 13, offset: 92582},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92311},
+																											pos:        position{line: 2931, col: 13, offset: 92582},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92318},
+																											pos:        position{line: 2931, col: 20, offset: 92589},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92327},
+																											pos:        position{line: 2931, col: 29, offset: 92598},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34731,9 +34731,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92487},
+																								pos: position{line: 2941, col: 8, offset: 92758},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92488,
+																									line: 2941, col: 9, offset: 92759,
 																								},
 																							},
 																						},
@@ -34748,44 +34748,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1031, col: 5, offset: 32029},
+													pos:   position{line: 1035, col: 5, offset: 32300},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1031, col: 9, offset: 32033},
+														pos: position{line: 1035, col: 9, offset: 32304},
 														expr: &choiceExpr{
-															pos: position{line: 1038, col: 5, offset: 32255},
+															pos: position{line: 1042, col: 5, offset: 32526},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1038, col: 5, offset: 32255},
+																	pos: position{line: 1042, col: 5, offset: 32526},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1038, col: 5, offset: 32255},
+																			pos:   position{line: 1042, col: 5, offset: 32526},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 799, col: 5, offset: 25756},
+																				pos: position{line: 803, col: 5, offset: 26027},
 																				run: (*parser).callonListContinuationElement1081,
 																				expr: &seqExpr{
-																					pos: position{line: 799, col: 5, offset: 25756},
+																					pos: position{line: 803, col: 5, offset: 26027},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 799, col: 5, offset: 25756},
+																							pos:   position{line: 803, col: 5, offset: 26027},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 799, col: 16, offset: 25767},
+																								pos: position{line: 803, col: 16, offset: 26038},
 																								run: (*parser).callonListContinuationElement1084,
 																								expr: &seqExpr{
-																									pos: position{line: 799, col: 16, offset: 25767},
+																									pos: position{line: 803, col: 16, offset: 26038},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 799, col: 16, offset: 25767},
+																											pos:        position{line: 803, col: 16, offset: 26038},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 799, col: 23, offset: 25774},
+																											pos: position{line: 803, col: 23, offset: 26045},
 																											expr: &litMatcher{
-																												pos:        position{line: 799, col: 23, offset: 25774},
+																												pos:        position{line: 803, col: 23, offset: 26045},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -34796,12 +34796,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 801, col: 8, offset: 25858},
+																							pos: position{line: 805, col: 8, offset: 26129},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92139},
+																								pos: position{line: 2922, col: 10, offset: 92410},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92139},
+																									pos:        position{line: 2922, col: 10, offset: 92410},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34810,28 +34810,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34840,9 +34840,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -34852,15 +34852,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1039, col: 5, offset: 32290},
+																			pos: position{line: 1043, col: 5, offset: 32561},
 																			run: (*parser).callonListContinuationElement1100,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92487},
+																	pos: position{line: 2941, col: 8, offset: 92758},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92488,
+																		line: 2941, col: 9, offset: 92759,
 																	},
 																},
 															},
@@ -34871,39 +34871,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1054, col: 5, offset: 32607},
+										pos: position{line: 1058, col: 5, offset: 32878},
 										run: (*parser).callonListContinuationElement1103,
 										expr: &seqExpr{
-											pos: position{line: 1054, col: 5, offset: 32607},
+											pos: position{line: 1058, col: 5, offset: 32878},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1054, col: 5, offset: 32607},
+													pos:   position{line: 1058, col: 5, offset: 32878},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 806, col: 5, offset: 26006},
+														pos: position{line: 810, col: 5, offset: 26277},
 														run: (*parser).callonListContinuationElement1106,
 														expr: &seqExpr{
-															pos: position{line: 806, col: 5, offset: 26006},
+															pos: position{line: 810, col: 5, offset: 26277},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 806, col: 5, offset: 26006},
+																	pos:   position{line: 810, col: 5, offset: 26277},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 806, col: 16, offset: 26017},
+																		pos: position{line: 810, col: 16, offset: 26288},
 																		run: (*parser).callonListContinuationElement1109,
 																		expr: &seqExpr{
-																			pos: position{line: 806, col: 16, offset: 26017},
+																			pos: position{line: 810, col: 16, offset: 26288},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 806, col: 16, offset: 26017},
+																					pos:        position{line: 810, col: 16, offset: 26288},
 																					val:        "____",
 																					ignoreCase: false,
 																					want:       "\"____\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 806, col: 23, offset: 26024},
+																					pos: position{line: 810, col: 23, offset: 26295},
 																					expr: &litMatcher{
-																						pos:        position{line: 806, col: 23, offset: 26024},
+																						pos:        position{line: 810, col: 23, offset: 26295},
 																						val:        "_",
 																						ignoreCase: false,
 																						want:       "\"_\"",
@@ -34914,12 +34914,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 808, col: 8, offset: 26108},
+																	pos: position{line: 812, col: 8, offset: 26379},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92139},
+																		pos: position{line: 2922, col: 10, offset: 92410},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92139},
+																			pos:        position{line: 2922, col: 10, offset: 92410},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34928,28 +34928,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92537},
+																	pos: position{line: 2944, col: 8, offset: 92808},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92310},
+																			pos: position{line: 2931, col: 12, offset: 92581},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92311},
+																				pos: position{line: 2931, col: 13, offset: 92582},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92311},
+																						pos:        position{line: 2931, col: 13, offset: 92582},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92318},
+																						pos:        position{line: 2931, col: 20, offset: 92589},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92327},
+																						pos:        position{line: 2931, col: 29, offset: 92598},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34958,9 +34958,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92487},
+																			pos: position{line: 2941, col: 8, offset: 92758},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92488,
+																				line: 2941, col: 9, offset: 92759,
 																			},
 																		},
 																	},
@@ -34970,56 +34970,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1055, col: 5, offset: 32644},
+													pos: position{line: 1059, col: 5, offset: 32915},
 													run: (*parser).callonListContinuationElement1125,
 												},
 												&labeledExpr{
-													pos:   position{line: 1058, col: 5, offset: 32736},
+													pos:   position{line: 1062, col: 5, offset: 33007},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1073, col: 4, offset: 33117},
+														pos: position{line: 1077, col: 4, offset: 33388},
 														expr: &actionExpr{
-															pos: position{line: 1073, col: 5, offset: 33118},
+															pos: position{line: 1077, col: 5, offset: 33389},
 															run: (*parser).callonListContinuationElement1128,
 															expr: &seqExpr{
-																pos: position{line: 1073, col: 5, offset: 33118},
+																pos: position{line: 1077, col: 5, offset: 33389},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1073, col: 5, offset: 33118},
+																		pos: position{line: 1077, col: 5, offset: 33389},
 																		expr: &choiceExpr{
-																			pos: position{line: 1066, col: 5, offset: 32964},
+																			pos: position{line: 1070, col: 5, offset: 33235},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1066, col: 5, offset: 32964},
+																					pos: position{line: 1070, col: 5, offset: 33235},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1066, col: 5, offset: 32964},
+																							pos:   position{line: 1070, col: 5, offset: 33235},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 806, col: 5, offset: 26006},
+																								pos: position{line: 810, col: 5, offset: 26277},
 																								run: (*parser).callonListContinuationElement1134,
 																								expr: &seqExpr{
-																									pos: position{line: 806, col: 5, offset: 26006},
+																									pos: position{line: 810, col: 5, offset: 26277},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 806, col: 5, offset: 26006},
+																											pos:   position{line: 810, col: 5, offset: 26277},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 806, col: 16, offset: 26017},
+																												pos: position{line: 810, col: 16, offset: 26288},
 																												run: (*parser).callonListContinuationElement1137,
 																												expr: &seqExpr{
-																													pos: position{line: 806, col: 16, offset: 26017},
+																													pos: position{line: 810, col: 16, offset: 26288},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 806, col: 16, offset: 26017},
+																															pos:        position{line: 810, col: 16, offset: 26288},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 806, col: 23, offset: 26024},
+																															pos: position{line: 810, col: 23, offset: 26295},
 																															expr: &litMatcher{
-																																pos:        position{line: 806, col: 23, offset: 26024},
+																																pos:        position{line: 810, col: 23, offset: 26295},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -35030,12 +35030,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 808, col: 8, offset: 26108},
+																											pos: position{line: 812, col: 8, offset: 26379},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92139},
+																												pos: position{line: 2922, col: 10, offset: 92410},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92139},
+																													pos:        position{line: 2922, col: 10, offset: 92410},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35044,28 +35044,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92537},
+																											pos: position{line: 2944, col: 8, offset: 92808},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92310},
+																													pos: position{line: 2931, col: 12, offset: 92581},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92311},
+																														pos: position{line: 2931, col: 13, offset: 92582},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92311},
+																																pos:        position{line: 2931, col: 13, offset: 92582},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92318},
+																																pos:        position{line: 2931, col: 20, offset: 92589},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92327},
+																																pos:        position{line: 2931, col: 29, offset: 92598},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35074,9 +35074,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92487},
+																													pos: position{line: 2941, col: 8, offset: 92758},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92488,
+																														line: 2941, col: 9, offset: 92759,
 																													},
 																												},
 																											},
@@ -35086,45 +35086,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1067, col: 5, offset: 32993},
+																							pos: position{line: 1071, col: 5, offset: 33264},
 																							run: (*parser).callonListContinuationElement1153,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1074, col: 5, offset: 33146},
+																		pos:   position{line: 1078, col: 5, offset: 33417},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 820, col: 5, offset: 26500},
+																			pos: position{line: 824, col: 5, offset: 26771},
 																			run: (*parser).callonListContinuationElement1157,
 																			expr: &seqExpr{
-																				pos: position{line: 820, col: 5, offset: 26500},
+																				pos: position{line: 824, col: 5, offset: 26771},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2935, col: 11, offset: 92473},
+																						pos: position{line: 2939, col: 11, offset: 92744},
 																						expr: &anyMatcher{
-																							line: 2935, col: 13, offset: 92475,
+																							line: 2939, col: 13, offset: 92746,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 821, col: 5, offset: 26575},
+																						pos:   position{line: 825, col: 5, offset: 26846},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 13, offset: 90665},
+																							pos: position{line: 2868, col: 13, offset: 90936},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2864, col: 13, offset: 90665},
+																								pos: position{line: 2868, col: 13, offset: 90936},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 13, offset: 90665},
+																									pos:        position{line: 2868, col: 13, offset: 90936},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35134,28 +35134,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92537},
+																						pos: position{line: 2944, col: 8, offset: 92808},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92310},
+																								pos: position{line: 2931, col: 12, offset: 92581},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92311},
+																									pos: position{line: 2931, col: 13, offset: 92582},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92311},
+																											pos:        position{line: 2931, col: 13, offset: 92582},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92318},
+																											pos:        position{line: 2931, col: 20, offset: 92589},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92327},
+																											pos:        position{line: 2931, col: 29, offset: 92598},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35164,9 +35164,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92487},
+																								pos: position{line: 2941, col: 8, offset: 92758},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92488,
+																									line: 2941, col: 9, offset: 92759,
 																								},
 																							},
 																						},
@@ -35181,44 +35181,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1059, col: 5, offset: 32768},
+													pos:   position{line: 1063, col: 5, offset: 33039},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1059, col: 9, offset: 32772},
+														pos: position{line: 1063, col: 9, offset: 33043},
 														expr: &choiceExpr{
-															pos: position{line: 1066, col: 5, offset: 32964},
+															pos: position{line: 1070, col: 5, offset: 33235},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1066, col: 5, offset: 32964},
+																	pos: position{line: 1070, col: 5, offset: 33235},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1066, col: 5, offset: 32964},
+																			pos:   position{line: 1070, col: 5, offset: 33235},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 806, col: 5, offset: 26006},
+																				pos: position{line: 810, col: 5, offset: 26277},
 																				run: (*parser).callonListContinuationElement1178,
 																				expr: &seqExpr{
-																					pos: position{line: 806, col: 5, offset: 26006},
+																					pos: position{line: 810, col: 5, offset: 26277},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 806, col: 5, offset: 26006},
+																							pos:   position{line: 810, col: 5, offset: 26277},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 806, col: 16, offset: 26017},
+																								pos: position{line: 810, col: 16, offset: 26288},
 																								run: (*parser).callonListContinuationElement1181,
 																								expr: &seqExpr{
-																									pos: position{line: 806, col: 16, offset: 26017},
+																									pos: position{line: 810, col: 16, offset: 26288},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 806, col: 16, offset: 26017},
+																											pos:        position{line: 810, col: 16, offset: 26288},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 806, col: 23, offset: 26024},
+																											pos: position{line: 810, col: 23, offset: 26295},
 																											expr: &litMatcher{
-																												pos:        position{line: 806, col: 23, offset: 26024},
+																												pos:        position{line: 810, col: 23, offset: 26295},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -35229,12 +35229,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 808, col: 8, offset: 26108},
+																							pos: position{line: 812, col: 8, offset: 26379},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92139},
+																								pos: position{line: 2922, col: 10, offset: 92410},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92139},
+																									pos:        position{line: 2922, col: 10, offset: 92410},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35243,28 +35243,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35273,9 +35273,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -35285,15 +35285,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1067, col: 5, offset: 32993},
+																			pos: position{line: 1071, col: 5, offset: 33264},
 																			run: (*parser).callonListContinuationElement1197,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92487},
+																	pos: position{line: 2941, col: 8, offset: 92758},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92488,
+																		line: 2941, col: 9, offset: 92759,
 																	},
 																},
 															},
@@ -35304,39 +35304,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1082, col: 5, offset: 33301},
+										pos: position{line: 1086, col: 5, offset: 33572},
 										run: (*parser).callonListContinuationElement1200,
 										expr: &seqExpr{
-											pos: position{line: 1082, col: 5, offset: 33301},
+											pos: position{line: 1086, col: 5, offset: 33572},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1082, col: 5, offset: 33301},
+													pos:   position{line: 1086, col: 5, offset: 33572},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 813, col: 5, offset: 26252},
+														pos: position{line: 817, col: 5, offset: 26523},
 														run: (*parser).callonListContinuationElement1203,
 														expr: &seqExpr{
-															pos: position{line: 813, col: 5, offset: 26252},
+															pos: position{line: 817, col: 5, offset: 26523},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 813, col: 5, offset: 26252},
+																	pos:   position{line: 817, col: 5, offset: 26523},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 813, col: 16, offset: 26263},
+																		pos: position{line: 817, col: 16, offset: 26534},
 																		run: (*parser).callonListContinuationElement1206,
 																		expr: &seqExpr{
-																			pos: position{line: 813, col: 16, offset: 26263},
+																			pos: position{line: 817, col: 16, offset: 26534},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 813, col: 16, offset: 26263},
+																					pos:        position{line: 817, col: 16, offset: 26534},
 																					val:        "****",
 																					ignoreCase: false,
 																					want:       "\"****\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 813, col: 23, offset: 26270},
+																					pos: position{line: 817, col: 23, offset: 26541},
 																					expr: &litMatcher{
-																						pos:        position{line: 813, col: 23, offset: 26270},
+																						pos:        position{line: 817, col: 23, offset: 26541},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -35347,12 +35347,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 815, col: 8, offset: 26354},
+																	pos: position{line: 819, col: 8, offset: 26625},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92139},
+																		pos: position{line: 2922, col: 10, offset: 92410},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92139},
+																			pos:        position{line: 2922, col: 10, offset: 92410},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35361,28 +35361,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92537},
+																	pos: position{line: 2944, col: 8, offset: 92808},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92310},
+																			pos: position{line: 2931, col: 12, offset: 92581},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92311},
+																				pos: position{line: 2931, col: 13, offset: 92582},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92311},
+																						pos:        position{line: 2931, col: 13, offset: 92582},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92318},
+																						pos:        position{line: 2931, col: 20, offset: 92589},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92327},
+																						pos:        position{line: 2931, col: 29, offset: 92598},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35391,9 +35391,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92487},
+																			pos: position{line: 2941, col: 8, offset: 92758},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92488,
+																				line: 2941, col: 9, offset: 92759,
 																			},
 																		},
 																	},
@@ -35403,56 +35403,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1083, col: 5, offset: 33340},
+													pos: position{line: 1087, col: 5, offset: 33611},
 													run: (*parser).callonListContinuationElement1222,
 												},
 												&labeledExpr{
-													pos:   position{line: 1086, col: 5, offset: 33432},
+													pos:   position{line: 1090, col: 5, offset: 33703},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1101, col: 4, offset: 33829},
+														pos: position{line: 1105, col: 4, offset: 34100},
 														expr: &actionExpr{
-															pos: position{line: 1101, col: 5, offset: 33830},
+															pos: position{line: 1105, col: 5, offset: 34101},
 															run: (*parser).callonListContinuationElement1225,
 															expr: &seqExpr{
-																pos: position{line: 1101, col: 5, offset: 33830},
+																pos: position{line: 1105, col: 5, offset: 34101},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1101, col: 5, offset: 33830},
+																		pos: position{line: 1105, col: 5, offset: 34101},
 																		expr: &choiceExpr{
-																			pos: position{line: 1094, col: 5, offset: 33672},
+																			pos: position{line: 1098, col: 5, offset: 33943},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1094, col: 5, offset: 33672},
+																					pos: position{line: 1098, col: 5, offset: 33943},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1094, col: 5, offset: 33672},
+																							pos:   position{line: 1098, col: 5, offset: 33943},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 813, col: 5, offset: 26252},
+																								pos: position{line: 817, col: 5, offset: 26523},
 																								run: (*parser).callonListContinuationElement1231,
 																								expr: &seqExpr{
-																									pos: position{line: 813, col: 5, offset: 26252},
+																									pos: position{line: 817, col: 5, offset: 26523},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 813, col: 5, offset: 26252},
+																											pos:   position{line: 817, col: 5, offset: 26523},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 813, col: 16, offset: 26263},
+																												pos: position{line: 817, col: 16, offset: 26534},
 																												run: (*parser).callonListContinuationElement1234,
 																												expr: &seqExpr{
-																													pos: position{line: 813, col: 16, offset: 26263},
+																													pos: position{line: 817, col: 16, offset: 26534},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 813, col: 16, offset: 26263},
+																															pos:        position{line: 817, col: 16, offset: 26534},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 813, col: 23, offset: 26270},
+																															pos: position{line: 817, col: 23, offset: 26541},
 																															expr: &litMatcher{
-																																pos:        position{line: 813, col: 23, offset: 26270},
+																																pos:        position{line: 817, col: 23, offset: 26541},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -35463,12 +35463,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 815, col: 8, offset: 26354},
+																											pos: position{line: 819, col: 8, offset: 26625},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92139},
+																												pos: position{line: 2922, col: 10, offset: 92410},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92139},
+																													pos:        position{line: 2922, col: 10, offset: 92410},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35477,28 +35477,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92537},
+																											pos: position{line: 2944, col: 8, offset: 92808},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92310},
+																													pos: position{line: 2931, col: 12, offset: 92581},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92311},
+																														pos: position{line: 2931, col: 13, offset: 92582},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92311},
+																																pos:        position{line: 2931, col: 13, offset: 92582},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92318},
+																																pos:        position{line: 2931, col: 20, offset: 92589},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92327},
+																																pos:        position{line: 2931, col: 29, offset: 92598},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35507,9 +35507,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92487},
+																													pos: position{line: 2941, col: 8, offset: 92758},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92488,
+																														line: 2941, col: 9, offset: 92759,
 																													},
 																												},
 																											},
@@ -35519,45 +35519,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1095, col: 5, offset: 33703},
+																							pos: position{line: 1099, col: 5, offset: 33974},
 																							run: (*parser).callonListContinuationElement1250,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1102, col: 5, offset: 33860},
+																		pos:   position{line: 1106, col: 5, offset: 34131},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 820, col: 5, offset: 26500},
+																			pos: position{line: 824, col: 5, offset: 26771},
 																			run: (*parser).callonListContinuationElement1254,
 																			expr: &seqExpr{
-																				pos: position{line: 820, col: 5, offset: 26500},
+																				pos: position{line: 824, col: 5, offset: 26771},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2935, col: 11, offset: 92473},
+																						pos: position{line: 2939, col: 11, offset: 92744},
 																						expr: &anyMatcher{
-																							line: 2935, col: 13, offset: 92475,
+																							line: 2939, col: 13, offset: 92746,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 821, col: 5, offset: 26575},
+																						pos:   position{line: 825, col: 5, offset: 26846},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 13, offset: 90665},
+																							pos: position{line: 2868, col: 13, offset: 90936},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2864, col: 13, offset: 90665},
+																								pos: position{line: 2868, col: 13, offset: 90936},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 13, offset: 90665},
+																									pos:        position{line: 2868, col: 13, offset: 90936},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35567,28 +35567,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92537},
+																						pos: position{line: 2944, col: 8, offset: 92808},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92310},
+																								pos: position{line: 2931, col: 12, offset: 92581},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92311},
+																									pos: position{line: 2931, col: 13, offset: 92582},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92311},
+																											pos:        position{line: 2931, col: 13, offset: 92582},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92318},
+																											pos:        position{line: 2931, col: 20, offset: 92589},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92327},
+																											pos:        position{line: 2931, col: 29, offset: 92598},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35597,9 +35597,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92487},
+																								pos: position{line: 2941, col: 8, offset: 92758},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92488,
+																									line: 2941, col: 9, offset: 92759,
 																								},
 																							},
 																						},
@@ -35614,44 +35614,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1087, col: 5, offset: 33466},
+													pos:   position{line: 1091, col: 5, offset: 33737},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1087, col: 9, offset: 33470},
+														pos: position{line: 1091, col: 9, offset: 33741},
 														expr: &choiceExpr{
-															pos: position{line: 1094, col: 5, offset: 33672},
+															pos: position{line: 1098, col: 5, offset: 33943},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1094, col: 5, offset: 33672},
+																	pos: position{line: 1098, col: 5, offset: 33943},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1094, col: 5, offset: 33672},
+																			pos:   position{line: 1098, col: 5, offset: 33943},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 813, col: 5, offset: 26252},
+																				pos: position{line: 817, col: 5, offset: 26523},
 																				run: (*parser).callonListContinuationElement1275,
 																				expr: &seqExpr{
-																					pos: position{line: 813, col: 5, offset: 26252},
+																					pos: position{line: 817, col: 5, offset: 26523},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26252},
+																							pos:   position{line: 817, col: 5, offset: 26523},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 813, col: 16, offset: 26263},
+																								pos: position{line: 817, col: 16, offset: 26534},
 																								run: (*parser).callonListContinuationElement1278,
 																								expr: &seqExpr{
-																									pos: position{line: 813, col: 16, offset: 26263},
+																									pos: position{line: 817, col: 16, offset: 26534},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 813, col: 16, offset: 26263},
+																											pos:        position{line: 817, col: 16, offset: 26534},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 813, col: 23, offset: 26270},
+																											pos: position{line: 817, col: 23, offset: 26541},
 																											expr: &litMatcher{
-																												pos:        position{line: 813, col: 23, offset: 26270},
+																												pos:        position{line: 817, col: 23, offset: 26541},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -35662,12 +35662,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 815, col: 8, offset: 26354},
+																							pos: position{line: 819, col: 8, offset: 26625},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92139},
+																								pos: position{line: 2922, col: 10, offset: 92410},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92139},
+																									pos:        position{line: 2922, col: 10, offset: 92410},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35676,28 +35676,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92537},
+																							pos: position{line: 2944, col: 8, offset: 92808},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92310},
+																									pos: position{line: 2931, col: 12, offset: 92581},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92311},
+																										pos: position{line: 2931, col: 13, offset: 92582},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92311},
+																												pos:        position{line: 2931, col: 13, offset: 92582},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92318},
+																												pos:        position{line: 2931, col: 20, offset: 92589},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92327},
+																												pos:        position{line: 2931, col: 29, offset: 92598},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35706,9 +35706,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92487},
+																									pos: position{line: 2941, col: 8, offset: 92758},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92488,
+																										line: 2941, col: 9, offset: 92759,
 																									},
 																								},
 																							},
@@ -35718,15 +35718,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1095, col: 5, offset: 33703},
+																			pos: position{line: 1099, col: 5, offset: 33974},
 																			run: (*parser).callonListContinuationElement1294,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92487},
+																	pos: position{line: 2941, col: 8, offset: 92758},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92488,
+																		line: 2941, col: 9, offset: 92759,
 																	},
 																},
 															},
@@ -35737,52 +35737,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2763, col: 18, offset: 87729},
+										pos: position{line: 2767, col: 18, offset: 88000},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2763, col: 18, offset: 87729},
+											pos: position{line: 2767, col: 18, offset: 88000},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2764, col: 9, offset: 87739},
+													pos: position{line: 2768, col: 9, offset: 88010},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2764, col: 9, offset: 87739},
+															pos:        position{line: 2768, col: 9, offset: 88010},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2765, col: 11, offset: 87775},
+															pos:        position{line: 2769, col: 11, offset: 88046},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2765, col: 19, offset: 87783},
+															pos:        position{line: 2769, col: 19, offset: 88054},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2765, col: 29, offset: 87793},
+															pos:        position{line: 2769, col: 29, offset: 88064},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2765, col: 37, offset: 87801},
+															pos:        position{line: 2769, col: 37, offset: 88072},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2765, col: 47, offset: 87811},
+															pos:        position{line: 2769, col: 47, offset: 88082},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2765, col: 55, offset: 87819},
+															pos:        position{line: 2769, col: 55, offset: 88090},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35790,12 +35790,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2766, col: 11, offset: 87877},
+													pos: position{line: 2770, col: 11, offset: 88148},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92139},
+														pos: position{line: 2922, col: 10, offset: 92410},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92139},
+															pos:        position{line: 2922, col: 10, offset: 92410},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35804,28 +35804,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2940, col: 8, offset: 92537},
+													pos: position{line: 2944, col: 8, offset: 92808},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92310},
+															pos: position{line: 2931, col: 12, offset: 92581},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92311},
+																pos: position{line: 2931, col: 13, offset: 92582},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92311},
+																		pos:        position{line: 2931, col: 13, offset: 92582},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92318},
+																		pos:        position{line: 2931, col: 20, offset: 92589},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92327},
+																		pos:        position{line: 2931, col: 29, offset: 92598},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35834,36 +35834,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2937, col: 8, offset: 92487},
+															pos: position{line: 2941, col: 8, offset: 92758},
 															expr: &anyMatcher{
-																line: 2937, col: 9, offset: 92488,
+																line: 2941, col: 9, offset: 92759,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2940, col: 8, offset: 92537},
+													pos: position{line: 2944, col: 8, offset: 92808},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92310},
+															pos: position{line: 2931, col: 12, offset: 92581},
 															run: (*parser).callonListContinuationElement1319,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92311},
+																pos: position{line: 2931, col: 13, offset: 92582},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92311},
+																		pos:        position{line: 2931, col: 13, offset: 92582},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92318},
+																		pos:        position{line: 2931, col: 20, offset: 92589},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92327},
+																		pos:        position{line: 2931, col: 29, offset: 92598},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35872,9 +35872,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2937, col: 8, offset: 92487},
+															pos: position{line: 2941, col: 8, offset: 92758},
 															expr: &anyMatcher{
-																line: 2937, col: 9, offset: 92488,
+																line: 2941, col: 9, offset: 92759,
 															},
 														},
 													},
@@ -35883,28 +35883,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1563, col: 11, offset: 50548},
+										pos:  position{line: 1567, col: 11, offset: 50819},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2647, col: 5, offset: 84486},
+										pos: position{line: 2651, col: 5, offset: 84757},
 										run: (*parser).callonListContinuationElement1327,
 										expr: &seqExpr{
-											pos: position{line: 2647, col: 5, offset: 84486},
+											pos: position{line: 2651, col: 5, offset: 84757},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2653, col: 19, offset: 84663},
+													pos:        position{line: 2657, col: 19, offset: 84934},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2653, col: 26, offset: 84670},
+													pos: position{line: 2657, col: 26, offset: 84941},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92139},
+														pos: position{line: 2922, col: 10, offset: 92410},
 														run: (*parser).callonListContinuationElement1331,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92139},
+															pos:        position{line: 2922, col: 10, offset: 92410},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35913,28 +35913,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2940, col: 8, offset: 92537},
+													pos: position{line: 2944, col: 8, offset: 92808},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92310},
+															pos: position{line: 2931, col: 12, offset: 92581},
 															run: (*parser).callonListContinuationElement1334,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92311},
+																pos: position{line: 2931, col: 13, offset: 92582},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92311},
+																		pos:        position{line: 2931, col: 13, offset: 92582},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92318},
+																		pos:        position{line: 2931, col: 20, offset: 92589},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92327},
+																		pos:        position{line: 2931, col: 29, offset: 92598},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35943,40 +35943,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2937, col: 8, offset: 92487},
+															pos: position{line: 2941, col: 8, offset: 92758},
 															expr: &anyMatcher{
-																line: 2937, col: 9, offset: 92488,
+																line: 2941, col: 9, offset: 92759,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2648, col: 5, offset: 84510},
+													pos:   position{line: 2652, col: 5, offset: 84781},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2648, col: 11, offset: 84516},
+														pos: position{line: 2652, col: 11, offset: 84787},
 														expr: &choiceExpr{
-															pos: position{line: 2648, col: 12, offset: 84517},
+															pos: position{line: 2652, col: 12, offset: 84788},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 686, col: 14, offset: 21901},
+																	pos: position{line: 690, col: 14, offset: 22172},
 																	run: (*parser).callonListContinuationElement1344,
 																	expr: &seqExpr{
-																		pos: position{line: 686, col: 14, offset: 21901},
+																		pos: position{line: 690, col: 14, offset: 22172},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2935, col: 11, offset: 92473},
+																				pos: position{line: 2939, col: 11, offset: 92744},
 																				expr: &anyMatcher{
-																					line: 2935, col: 13, offset: 92475,
+																					line: 2939, col: 13, offset: 92746,
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 686, col: 21, offset: 21908},
+																				pos: position{line: 690, col: 21, offset: 22179},
 																				expr: &actionExpr{
-																					pos: position{line: 2918, col: 10, offset: 92139},
+																					pos: position{line: 2922, col: 10, offset: 92410},
 																					run: (*parser).callonListContinuationElement1349,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2918, col: 10, offset: 92139},
+																						pos:        position{line: 2922, col: 10, offset: 92410},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35985,28 +35985,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2940, col: 8, offset: 92537},
+																				pos: position{line: 2944, col: 8, offset: 92808},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2927, col: 12, offset: 92310},
+																						pos: position{line: 2931, col: 12, offset: 92581},
 																						run: (*parser).callonListContinuationElement1352,
 																						expr: &choiceExpr{
-																							pos: position{line: 2927, col: 13, offset: 92311},
+																							pos: position{line: 2931, col: 13, offset: 92582},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 13, offset: 92311},
+																									pos:        position{line: 2931, col: 13, offset: 92582},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 20, offset: 92318},
+																									pos:        position{line: 2931, col: 20, offset: 92589},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 29, offset: 92327},
+																									pos:        position{line: 2931, col: 29, offset: 92598},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36015,9 +36015,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92487},
+																						pos: position{line: 2941, col: 8, offset: 92758},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92488,
+																							line: 2941, col: 9, offset: 92759,
 																						},
 																					},
 																				},
@@ -36026,36 +36026,36 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2521, col: 22, offset: 80917},
+																	pos: position{line: 2525, col: 22, offset: 81188},
 																	run: (*parser).callonListContinuationElement1359,
 																	expr: &seqExpr{
-																		pos: position{line: 2521, col: 22, offset: 80917},
+																		pos: position{line: 2525, col: 22, offset: 81188},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2526, col: 31, offset: 81167},
+																				pos:        position{line: 2530, col: 31, offset: 81438},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2526, col: 36, offset: 81172},
+																				pos: position{line: 2530, col: 36, offset: 81443},
 																				expr: &litMatcher{
-																					pos:        position{line: 2526, col: 37, offset: 81173},
+																					pos:        position{line: 2530, col: 37, offset: 81444},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2521, col: 49, offset: 80944},
+																				pos:   position{line: 2525, col: 49, offset: 81215},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2864, col: 13, offset: 90665},
+																					pos: position{line: 2868, col: 13, offset: 90936},
 																					run: (*parser).callonListContinuationElement1365,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2864, col: 13, offset: 90665},
+																						pos: position{line: 2868, col: 13, offset: 90936},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2864, col: 13, offset: 90665},
+																							pos:        position{line: 2868, col: 13, offset: 90936},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -36065,28 +36065,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2940, col: 8, offset: 92537},
+																				pos: position{line: 2944, col: 8, offset: 92808},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2927, col: 12, offset: 92310},
+																						pos: position{line: 2931, col: 12, offset: 92581},
 																						run: (*parser).callonListContinuationElement1369,
 																						expr: &choiceExpr{
-																							pos: position{line: 2927, col: 13, offset: 92311},
+																							pos: position{line: 2931, col: 13, offset: 92582},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 13, offset: 92311},
+																									pos:        position{line: 2931, col: 13, offset: 92582},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 20, offset: 92318},
+																									pos:        position{line: 2931, col: 20, offset: 92589},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 29, offset: 92327},
+																									pos:        position{line: 2931, col: 29, offset: 92598},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36095,9 +36095,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92487},
+																						pos: position{line: 2941, col: 8, offset: 92758},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92488,
+																							line: 2941, col: 9, offset: 92759,
 																						},
 																					},
 																				},
@@ -36106,32 +36106,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2660, col: 5, offset: 84782},
+																	pos: position{line: 2664, col: 5, offset: 85053},
 																	run: (*parser).callonListContinuationElement1376,
 																	expr: &seqExpr{
-																		pos: position{line: 2660, col: 5, offset: 84782},
+																		pos: position{line: 2664, col: 5, offset: 85053},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2660, col: 5, offset: 84782},
+																				pos: position{line: 2664, col: 5, offset: 85053},
 																				expr: &choiceExpr{
-																					pos: position{line: 2657, col: 22, offset: 84743},
+																					pos: position{line: 2661, col: 22, offset: 85014},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2653, col: 19, offset: 84663},
+																							pos: position{line: 2657, col: 19, offset: 84934},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2653, col: 19, offset: 84663},
+																									pos:        position{line: 2657, col: 19, offset: 84934},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2653, col: 26, offset: 84670},
+																									pos: position{line: 2657, col: 26, offset: 84941},
 																									expr: &actionExpr{
-																										pos: position{line: 2918, col: 10, offset: 92139},
+																										pos: position{line: 2922, col: 10, offset: 92410},
 																										run: (*parser).callonListContinuationElement1383,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2918, col: 10, offset: 92139},
+																											pos:        position{line: 2922, col: 10, offset: 92410},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36140,28 +36140,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92537},
+																									pos: position{line: 2944, col: 8, offset: 92808},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92310},
+																											pos: position{line: 2931, col: 12, offset: 92581},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92311},
+																												pos: position{line: 2931, col: 13, offset: 92582},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92311},
+																														pos:        position{line: 2931, col: 13, offset: 92582},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92318},
+																														pos:        position{line: 2931, col: 20, offset: 92589},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92327},
+																														pos:        position{line: 2931, col: 29, offset: 92598},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36170,9 +36170,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92487},
+																											pos: position{line: 2941, col: 8, offset: 92758},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92488,
+																												line: 2941, col: 9, offset: 92759,
 																											},
 																										},
 																									},
@@ -36180,59 +36180,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2937, col: 8, offset: 92487},
+																							pos: position{line: 2941, col: 8, offset: 92758},
 																							expr: &anyMatcher{
-																								line: 2937, col: 9, offset: 92488,
+																								line: 2941, col: 9, offset: 92759,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2661, col: 5, offset: 84805},
+																				pos:   position{line: 2665, col: 5, offset: 85076},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2662, col: 9, offset: 84823},
+																					pos: position{line: 2666, col: 9, offset: 85094},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2662, col: 10, offset: 84824},
+																							pos: position{line: 2666, col: 10, offset: 85095},
 																							run: (*parser).callonListContinuationElement1397,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2662, col: 10, offset: 84824},
+																								pos:   position{line: 2666, col: 10, offset: 85095},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2662, col: 17, offset: 84831},
+																									pos: position{line: 2666, col: 17, offset: 85102},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2670, col: 21, offset: 85027},
+																											pos: position{line: 2674, col: 21, offset: 85298},
 																											run: (*parser).callonListContinuationElement1400,
 																											expr: &seqExpr{
-																												pos: position{line: 2670, col: 21, offset: 85027},
+																												pos: position{line: 2674, col: 21, offset: 85298},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2670, col: 21, offset: 85027},
+																														pos:   position{line: 2674, col: 21, offset: 85298},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2670, col: 27, offset: 85033},
+																															pos: position{line: 2674, col: 27, offset: 85304},
 																															expr: &actionExpr{
-																																pos: position{line: 2675, col: 5, offset: 85108},
+																																pos: position{line: 2679, col: 5, offset: 85379},
 																																run: (*parser).callonListContinuationElement1404,
 																																expr: &seqExpr{
-																																	pos: position{line: 2675, col: 5, offset: 85108},
+																																	pos: position{line: 2679, col: 5, offset: 85379},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2675, col: 5, offset: 85108},
+																																			pos:        position{line: 2679, col: 5, offset: 85379},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2675, col: 9, offset: 85112},
+																																			pos: position{line: 2679, col: 9, offset: 85383},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2918, col: 10, offset: 92139},
+																																				pos: position{line: 2922, col: 10, offset: 92410},
 																																				run: (*parser).callonListContinuationElement1408,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2918, col: 10, offset: 92139},
+																																					pos:        position{line: 2922, col: 10, offset: 92410},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36241,21 +36241,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2675, col: 16, offset: 85119},
+																																			pos:   position{line: 2679, col: 16, offset: 85390},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2681, col: 5, offset: 85319},
+																																				pos: position{line: 2685, col: 5, offset: 85590},
 																																				run: (*parser).callonListContinuationElement1411,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2681, col: 5, offset: 85319},
+																																					pos:   position{line: 2685, col: 5, offset: 85590},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2681, col: 14, offset: 85328},
+																																						pos: position{line: 2685, col: 14, offset: 85599},
 																																						run: (*parser).callonListContinuationElement1413,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2681, col: 14, offset: 85328},
+																																							pos: position{line: 2685, col: 14, offset: 85599},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2681, col: 14, offset: 85328},
+																																								pos:        position{line: 2685, col: 14, offset: 85599},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36272,28 +36272,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2940, col: 8, offset: 92537},
+																														pos: position{line: 2944, col: 8, offset: 92808},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2927, col: 12, offset: 92310},
+																																pos: position{line: 2931, col: 12, offset: 92581},
 																																run: (*parser).callonListContinuationElement1417,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2927, col: 13, offset: 92311},
+																																	pos: position{line: 2931, col: 13, offset: 92582},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2927, col: 13, offset: 92311},
+																																			pos:        position{line: 2931, col: 13, offset: 92582},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2927, col: 20, offset: 92318},
+																																			pos:        position{line: 2931, col: 20, offset: 92589},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2927, col: 29, offset: 92327},
+																																			pos:        position{line: 2931, col: 29, offset: 92598},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36302,9 +36302,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2937, col: 8, offset: 92487},
+																																pos: position{line: 2941, col: 8, offset: 92758},
 																																expr: &anyMatcher{
-																																	line: 2937, col: 9, offset: 92488,
+																																	line: 2941, col: 9, offset: 92759,
 																																},
 																															},
 																														},
@@ -36313,40 +36313,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2687, col: 24, offset: 85464},
+																											pos: position{line: 2691, col: 24, offset: 85735},
 																											run: (*parser).callonListContinuationElement1424,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2687, col: 24, offset: 85464},
+																												pos:   position{line: 2691, col: 24, offset: 85735},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2687, col: 30, offset: 85470},
+																													pos: position{line: 2691, col: 30, offset: 85741},
 																													expr: &actionExpr{
-																														pos: position{line: 2692, col: 5, offset: 85546},
+																														pos: position{line: 2696, col: 5, offset: 85817},
 																														run: (*parser).callonListContinuationElement1427,
 																														expr: &seqExpr{
-																															pos: position{line: 2692, col: 5, offset: 85546},
+																															pos: position{line: 2696, col: 5, offset: 85817},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2692, col: 5, offset: 85546},
+																																	pos: position{line: 2696, col: 5, offset: 85817},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2657, col: 22, offset: 84743},
+																																		pos: position{line: 2661, col: 22, offset: 85014},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2653, col: 19, offset: 84663},
+																																				pos: position{line: 2657, col: 19, offset: 84934},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2653, col: 19, offset: 84663},
+																																						pos:        position{line: 2657, col: 19, offset: 84934},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2653, col: 26, offset: 84670},
+																																						pos: position{line: 2657, col: 26, offset: 84941},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2918, col: 10, offset: 92139},
+																																							pos: position{line: 2922, col: 10, offset: 92410},
 																																							run: (*parser).callonListContinuationElement1434,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2918, col: 10, offset: 92139},
+																																								pos:        position{line: 2922, col: 10, offset: 92410},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36355,28 +36355,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2940, col: 8, offset: 92537},
+																																						pos: position{line: 2944, col: 8, offset: 92808},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2927, col: 12, offset: 92310},
+																																								pos: position{line: 2931, col: 12, offset: 92581},
 																																								run: (*parser).callonListContinuationElement1437,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2927, col: 13, offset: 92311},
+																																									pos: position{line: 2931, col: 13, offset: 92582},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2927, col: 13, offset: 92311},
+																																											pos:        position{line: 2931, col: 13, offset: 92582},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2927, col: 20, offset: 92318},
+																																											pos:        position{line: 2931, col: 20, offset: 92589},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2927, col: 29, offset: 92327},
+																																											pos:        position{line: 2931, col: 29, offset: 92598},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36385,9 +36385,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2937, col: 8, offset: 92487},
+																																								pos: position{line: 2941, col: 8, offset: 92758},
 																																								expr: &anyMatcher{
-																																									line: 2937, col: 9, offset: 92488,
+																																									line: 2941, col: 9, offset: 92759,
 																																								},
 																																							},
 																																						},
@@ -36395,35 +36395,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2937, col: 8, offset: 92487},
+																																				pos: position{line: 2941, col: 8, offset: 92758},
 																																				expr: &anyMatcher{
-																																					line: 2937, col: 9, offset: 92488,
+																																					line: 2941, col: 9, offset: 92759,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2693, col: 5, offset: 85569},
+																																	pos: position{line: 2697, col: 5, offset: 85840},
 																																	expr: &actionExpr{
-																																		pos: position{line: 686, col: 14, offset: 21901},
+																																		pos: position{line: 690, col: 14, offset: 22172},
 																																		run: (*parser).callonListContinuationElement1447,
 																																		expr: &seqExpr{
-																																			pos: position{line: 686, col: 14, offset: 21901},
+																																			pos: position{line: 690, col: 14, offset: 22172},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2935, col: 11, offset: 92473},
+																																					pos: position{line: 2939, col: 11, offset: 92744},
 																																					expr: &anyMatcher{
-																																						line: 2935, col: 13, offset: 92475,
+																																						line: 2939, col: 13, offset: 92746,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 686, col: 21, offset: 21908},
+																																					pos: position{line: 690, col: 21, offset: 22179},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2918, col: 10, offset: 92139},
+																																						pos: position{line: 2922, col: 10, offset: 92410},
 																																						run: (*parser).callonListContinuationElement1452,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2918, col: 10, offset: 92139},
+																																							pos:        position{line: 2922, col: 10, offset: 92410},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36432,28 +36432,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2940, col: 8, offset: 92537},
+																																					pos: position{line: 2944, col: 8, offset: 92808},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2927, col: 12, offset: 92310},
+																																							pos: position{line: 2931, col: 12, offset: 92581},
 																																							run: (*parser).callonListContinuationElement1455,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2927, col: 13, offset: 92311},
+																																								pos: position{line: 2931, col: 13, offset: 92582},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2927, col: 13, offset: 92311},
+																																										pos:        position{line: 2931, col: 13, offset: 92582},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2927, col: 20, offset: 92318},
+																																										pos:        position{line: 2931, col: 20, offset: 92589},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2927, col: 29, offset: 92327},
+																																										pos:        position{line: 2931, col: 29, offset: 92598},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36462,9 +36462,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2937, col: 8, offset: 92487},
+																																							pos: position{line: 2941, col: 8, offset: 92758},
 																																							expr: &anyMatcher{
-																																								line: 2937, col: 9, offset: 92488,
+																																								line: 2941, col: 9, offset: 92759,
 																																							},
 																																						},
 																																					},
@@ -36474,17 +36474,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2694, col: 5, offset: 85584},
+																																	pos:   position{line: 2698, col: 5, offset: 85855},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2694, col: 12, offset: 85591},
+																																		pos: position{line: 2698, col: 12, offset: 85862},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2718, col: 20, offset: 86214},
+																																			pos: position{line: 2722, col: 20, offset: 86485},
 																																			run: (*parser).callonListContinuationElement1464,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2718, col: 20, offset: 86214},
+																																				pos: position{line: 2722, col: 20, offset: 86485},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2718, col: 20, offset: 86214},
+																																					pos:        position{line: 2722, col: 20, offset: 86485},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36495,18 +36495,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2694, col: 31, offset: 85610},
+																																	pos:        position{line: 2698, col: 31, offset: 85881},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2694, col: 35, offset: 85614},
+																																	pos: position{line: 2698, col: 35, offset: 85885},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2918, col: 10, offset: 92139},
+																																		pos: position{line: 2922, col: 10, offset: 92410},
 																																		run: (*parser).callonListContinuationElement1469,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2918, col: 10, offset: 92139},
+																																			pos:        position{line: 2922, col: 10, offset: 92410},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36515,27 +36515,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2694, col: 42, offset: 85621},
+																																	pos: position{line: 2698, col: 42, offset: 85892},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2927, col: 12, offset: 92310},
+																																		pos: position{line: 2931, col: 12, offset: 92581},
 																																		run: (*parser).callonListContinuationElement1472,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2927, col: 13, offset: 92311},
+																																			pos: position{line: 2931, col: 13, offset: 92582},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2927, col: 13, offset: 92311},
+																																					pos:        position{line: 2931, col: 13, offset: 92582},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2927, col: 20, offset: 92318},
+																																					pos:        position{line: 2931, col: 20, offset: 92589},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2927, col: 29, offset: 92327},
+																																					pos:        position{line: 2931, col: 29, offset: 92598},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36545,57 +36545,57 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2694, col: 51, offset: 85630},
+																																	pos:   position{line: 2698, col: 51, offset: 85901},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2700, col: 5, offset: 85789},
+																																		pos: position{line: 2704, col: 5, offset: 86060},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2701, col: 9, offset: 85799},
+																																			pos: position{line: 2705, col: 9, offset: 86070},
 																																			alternatives: []interface{}{
 																																				&actionExpr{
-																																					pos: position{line: 2701, col: 9, offset: 85799},
+																																					pos: position{line: 2705, col: 9, offset: 86070},
 																																					run: (*parser).callonListContinuationElement1480,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2701, col: 9, offset: 85799},
+																																						pos: position{line: 2705, col: 9, offset: 86070},
 																																						exprs: []interface{}{
 																																							&andCodeExpr{
-																																								pos: position{line: 2701, col: 9, offset: 85799},
+																																								pos: position{line: 2705, col: 9, offset: 86070},
 																																								run: (*parser).callonListContinuationElement1482,
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2704, col: 9, offset: 85868},
+																																								pos:   position{line: 2708, col: 9, offset: 86139},
 																																								label: "comment",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2521, col: 22, offset: 80917},
+																																									pos: position{line: 2525, col: 22, offset: 81188},
 																																									run: (*parser).callonListContinuationElement1484,
 																																									expr: &seqExpr{
-																																										pos: position{line: 2521, col: 22, offset: 80917},
+																																										pos: position{line: 2525, col: 22, offset: 81188},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2526, col: 31, offset: 81167},
+																																												pos:        position{line: 2530, col: 31, offset: 81438},
 																																												val:        "//",
 																																												ignoreCase: false,
 																																												want:       "\"//\"",
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2526, col: 36, offset: 81172},
+																																												pos: position{line: 2530, col: 36, offset: 81443},
 																																												expr: &litMatcher{
-																																													pos:        position{line: 2526, col: 37, offset: 81173},
+																																													pos:        position{line: 2530, col: 37, offset: 81444},
 																																													val:        "/",
 																																													ignoreCase: false,
 																																													want:       "\"/\"",
 																																												},
 																																											},
 																																											&labeledExpr{
-																																												pos:   position{line: 2521, col: 49, offset: 80944},
+																																												pos:   position{line: 2525, col: 49, offset: 81215},
 																																												label: "content",
 																																												expr: &actionExpr{
-																																													pos: position{line: 2864, col: 13, offset: 90665},
+																																													pos: position{line: 2868, col: 13, offset: 90936},
 																																													run: (*parser).callonListContinuationElement1490,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2864, col: 13, offset: 90665},
+																																														pos: position{line: 2868, col: 13, offset: 90936},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2864, col: 13, offset: 90665},
+																																															pos:        position{line: 2868, col: 13, offset: 90936},
 																																															val:        "[^\\r\\n]",
 																																															chars:      []rune{'\r', '\n'},
 																																															ignoreCase: false,
@@ -36605,28 +36605,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2940, col: 8, offset: 92537},
+																																												pos: position{line: 2944, col: 8, offset: 92808},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2927, col: 12, offset: 92310},
+																																														pos: position{line: 2931, col: 12, offset: 92581},
 																																														run: (*parser).callonListContinuationElement1494,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2927, col: 13, offset: 92311},
+																																															pos: position{line: 2931, col: 13, offset: 92582},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2927, col: 13, offset: 92311},
+																																																	pos:        position{line: 2931, col: 13, offset: 92582},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2927, col: 20, offset: 92318},
+																																																	pos:        position{line: 2931, col: 20, offset: 92589},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2927, col: 29, offset: 92327},
+																																																	pos:        position{line: 2931, col: 29, offset: 92598},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -36635,9 +36635,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2937, col: 8, offset: 92487},
+																																														pos: position{line: 2941, col: 8, offset: 92758},
 																																														expr: &anyMatcher{
-																																															line: 2937, col: 9, offset: 92488,
+																																															line: 2941, col: 9, offset: 92759,
 																																														},
 																																													},
 																																												},
@@ -36650,32 +36650,32 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&actionExpr{
-																																					pos: position{line: 2708, col: 9, offset: 85958},
+																																					pos: position{line: 2712, col: 9, offset: 86229},
 																																					run: (*parser).callonListContinuationElement1501,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2708, col: 9, offset: 85958},
+																																						pos: position{line: 2712, col: 9, offset: 86229},
 																																						exprs: []interface{}{
 																																							&notExpr{
-																																								pos: position{line: 2708, col: 9, offset: 85958},
+																																								pos: position{line: 2712, col: 9, offset: 86229},
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2657, col: 22, offset: 84743},
+																																									pos: position{line: 2661, col: 22, offset: 85014},
 																																									alternatives: []interface{}{
 																																										&seqExpr{
-																																											pos: position{line: 2653, col: 19, offset: 84663},
+																																											pos: position{line: 2657, col: 19, offset: 84934},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2653, col: 19, offset: 84663},
+																																													pos:        position{line: 2657, col: 19, offset: 84934},
 																																													val:        "|===",
 																																													ignoreCase: false,
 																																													want:       "\"|===\"",
 																																												},
 																																												&zeroOrMoreExpr{
-																																													pos: position{line: 2653, col: 26, offset: 84670},
+																																													pos: position{line: 2657, col: 26, offset: 84941},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2918, col: 10, offset: 92139},
+																																														pos: position{line: 2922, col: 10, offset: 92410},
 																																														run: (*parser).callonListContinuationElement1508,
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2918, col: 10, offset: 92139},
+																																															pos:        position{line: 2922, col: 10, offset: 92410},
 																																															val:        "[\\t ]",
 																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
@@ -36684,28 +36684,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2940, col: 8, offset: 92537},
+																																													pos: position{line: 2944, col: 8, offset: 92808},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2927, col: 12, offset: 92310},
+																																															pos: position{line: 2931, col: 12, offset: 92581},
 																																															run: (*parser).callonListContinuationElement1511,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2927, col: 13, offset: 92311},
+																																																pos: position{line: 2931, col: 13, offset: 92582},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2927, col: 13, offset: 92311},
+																																																		pos:        position{line: 2931, col: 13, offset: 92582},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2927, col: 20, offset: 92318},
+																																																		pos:        position{line: 2931, col: 20, offset: 92589},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2927, col: 29, offset: 92327},
+																																																		pos:        position{line: 2931, col: 29, offset: 92598},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -36714,9 +36714,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2937, col: 8, offset: 92487},
+																																															pos: position{line: 2941, col: 8, offset: 92758},
 																																															expr: &anyMatcher{
-																																																line: 2937, col: 9, offset: 92488,
+																																																line: 2941, col: 9, offset: 92759,
 																																															},
 																																														},
 																																													},
@@ -36724,35 +36724,35 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2937, col: 8, offset: 92487},
+																																											pos: position{line: 2941, col: 8, offset: 92758},
 																																											expr: &anyMatcher{
-																																												line: 2937, col: 9, offset: 92488,
+																																												line: 2941, col: 9, offset: 92759,
 																																											},
 																																										},
 																																									},
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2709, col: 9, offset: 85985},
+																																								pos: position{line: 2713, col: 9, offset: 86256},
 																																								expr: &actionExpr{
-																																									pos: position{line: 686, col: 14, offset: 21901},
+																																									pos: position{line: 690, col: 14, offset: 22172},
 																																									run: (*parser).callonListContinuationElement1521,
 																																									expr: &seqExpr{
-																																										pos: position{line: 686, col: 14, offset: 21901},
+																																										pos: position{line: 690, col: 14, offset: 22172},
 																																										exprs: []interface{}{
 																																											&andExpr{
-																																												pos: position{line: 2935, col: 11, offset: 92473},
+																																												pos: position{line: 2939, col: 11, offset: 92744},
 																																												expr: &anyMatcher{
-																																													line: 2935, col: 13, offset: 92475,
+																																													line: 2939, col: 13, offset: 92746,
 																																												},
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 686, col: 21, offset: 21908},
+																																												pos: position{line: 690, col: 21, offset: 22179},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2918, col: 10, offset: 92139},
+																																													pos: position{line: 2922, col: 10, offset: 92410},
 																																													run: (*parser).callonListContinuationElement1526,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2918, col: 10, offset: 92139},
+																																														pos:        position{line: 2922, col: 10, offset: 92410},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -36761,28 +36761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2940, col: 8, offset: 92537},
+																																												pos: position{line: 2944, col: 8, offset: 92808},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2927, col: 12, offset: 92310},
+																																														pos: position{line: 2931, col: 12, offset: 92581},
 																																														run: (*parser).callonListContinuationElement1529,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2927, col: 13, offset: 92311},
+																																															pos: position{line: 2931, col: 13, offset: 92582},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2927, col: 13, offset: 92311},
+																																																	pos:        position{line: 2931, col: 13, offset: 92582},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2927, col: 20, offset: 92318},
+																																																	pos:        position{line: 2931, col: 20, offset: 92589},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2927, col: 29, offset: 92327},
+																																																	pos:        position{line: 2931, col: 29, offset: 92598},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -36791,9 +36791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2937, col: 8, offset: 92487},
+																																														pos: position{line: 2941, col: 8, offset: 92758},
 																																														expr: &anyMatcher{
-																																															line: 2937, col: 9, offset: 92488,
+																																															line: 2941, col: 9, offset: 92759,
 																																														},
 																																													},
 																																												},
@@ -36803,22 +36803,22 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2710, col: 9, offset: 86004},
+																																								pos: position{line: 2714, col: 9, offset: 86275},
 																																								expr: &seqExpr{
-																																									pos: position{line: 2710, col: 11, offset: 86006},
+																																									pos: position{line: 2714, col: 11, offset: 86277},
 																																									exprs: []interface{}{
 																																										&labeledExpr{
-																																											pos:   position{line: 2710, col: 11, offset: 86006},
+																																											pos:   position{line: 2714, col: 11, offset: 86277},
 																																											label: "format",
 																																											expr: &zeroOrOneExpr{
-																																												pos: position{line: 2710, col: 18, offset: 86013},
+																																												pos: position{line: 2714, col: 18, offset: 86284},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2718, col: 20, offset: 86214},
+																																													pos: position{line: 2722, col: 20, offset: 86485},
 																																													run: (*parser).callonListContinuationElement1540,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2718, col: 20, offset: 86214},
+																																														pos: position{line: 2722, col: 20, offset: 86485},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2718, col: 20, offset: 86214},
+																																															pos:        position{line: 2722, col: 20, offset: 86485},
 																																															val:        "[^ |\\r\\n]",
 																																															chars:      []rune{' ', '|', '\r', '\n'},
 																																															ignoreCase: false,
@@ -36829,7 +36829,7 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2710, col: 37, offset: 86032},
+																																											pos:        position{line: 2714, col: 37, offset: 86303},
 																																											val:        "|",
 																																											ignoreCase: false,
 																																											want:       "\"|\"",
@@ -36838,15 +36838,15 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2711, col: 9, offset: 86045},
+																																								pos:   position{line: 2715, col: 9, offset: 86316},
 																																								label: "content",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2711, col: 18, offset: 86054},
+																																									pos: position{line: 2715, col: 18, offset: 86325},
 																																									run: (*parser).callonListContinuationElement1545,
 																																									expr: &zeroOrMoreExpr{
-																																										pos: position{line: 2711, col: 18, offset: 86054},
+																																										pos: position{line: 2715, col: 18, offset: 86325},
 																																										expr: &charClassMatcher{
-																																											pos:        position{line: 2711, col: 18, offset: 86054},
+																																											pos:        position{line: 2715, col: 18, offset: 86325},
 																																											val:        "[^|\\r\\n]",
 																																											chars:      []rune{'|', '\r', '\n'},
 																																											ignoreCase: false,
@@ -36856,30 +36856,30 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&zeroOrOneExpr{
-																																								pos: position{line: 2713, col: 12, offset: 86116},
+																																								pos: position{line: 2717, col: 12, offset: 86387},
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2940, col: 8, offset: 92537},
+																																									pos: position{line: 2944, col: 8, offset: 92808},
 																																									alternatives: []interface{}{
 																																										&actionExpr{
-																																											pos: position{line: 2927, col: 12, offset: 92310},
+																																											pos: position{line: 2931, col: 12, offset: 92581},
 																																											run: (*parser).callonListContinuationElement1550,
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2927, col: 13, offset: 92311},
+																																												pos: position{line: 2931, col: 13, offset: 92582},
 																																												alternatives: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2927, col: 13, offset: 92311},
+																																														pos:        position{line: 2931, col: 13, offset: 92582},
 																																														val:        "\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2927, col: 20, offset: 92318},
+																																														pos:        position{line: 2931, col: 20, offset: 92589},
 																																														val:        "\r\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2927, col: 29, offset: 92327},
+																																														pos:        position{line: 2931, col: 29, offset: 92598},
 																																														val:        "\r",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\"",
@@ -36888,9 +36888,9 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2937, col: 8, offset: 92487},
+																																											pos: position{line: 2941, col: 8, offset: 92758},
 																																											expr: &anyMatcher{
-																																												line: 2937, col: 9, offset: 92488,
+																																												line: 2941, col: 9, offset: 92759,
 																																											},
 																																										},
 																																									},
@@ -36914,24 +36914,24 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 686, col: 14, offset: 21901},
+																							pos: position{line: 690, col: 14, offset: 22172},
 																							run: (*parser).callonListContinuationElement1557,
 																							expr: &seqExpr{
-																								pos: position{line: 686, col: 14, offset: 21901},
+																								pos: position{line: 690, col: 14, offset: 22172},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2935, col: 11, offset: 92473},
+																										pos: position{line: 2939, col: 11, offset: 92744},
 																										expr: &anyMatcher{
-																											line: 2935, col: 13, offset: 92475,
+																											line: 2939, col: 13, offset: 92746,
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 686, col: 21, offset: 21908},
+																										pos: position{line: 690, col: 21, offset: 22179},
 																										expr: &actionExpr{
-																											pos: position{line: 2918, col: 10, offset: 92139},
+																											pos: position{line: 2922, col: 10, offset: 92410},
 																											run: (*parser).callonListContinuationElement1562,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2918, col: 10, offset: 92139},
+																												pos:        position{line: 2922, col: 10, offset: 92410},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36940,28 +36940,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2940, col: 8, offset: 92537},
+																										pos: position{line: 2944, col: 8, offset: 92808},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2927, col: 12, offset: 92310},
+																												pos: position{line: 2931, col: 12, offset: 92581},
 																												run: (*parser).callonListContinuationElement1565,
 																												expr: &choiceExpr{
-																													pos: position{line: 2927, col: 13, offset: 92311},
+																													pos: position{line: 2931, col: 13, offset: 92582},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2927, col: 13, offset: 92311},
+																															pos:        position{line: 2931, col: 13, offset: 92582},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2927, col: 20, offset: 92318},
+																															pos:        position{line: 2931, col: 20, offset: 92589},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2927, col: 29, offset: 92327},
+																															pos:        position{line: 2931, col: 29, offset: 92598},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36970,9 +36970,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2937, col: 8, offset: 92487},
+																												pos: position{line: 2941, col: 8, offset: 92758},
 																												expr: &anyMatcher{
-																													line: 2937, col: 9, offset: 92488,
+																													line: 2941, col: 9, offset: 92759,
 																												},
 																											},
 																										},
@@ -36991,24 +36991,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2657, col: 22, offset: 84743},
+													pos: position{line: 2661, col: 22, offset: 85014},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2653, col: 19, offset: 84663},
+															pos: position{line: 2657, col: 19, offset: 84934},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2653, col: 19, offset: 84663},
+																	pos:        position{line: 2657, col: 19, offset: 84934},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2653, col: 26, offset: 84670},
+																	pos: position{line: 2657, col: 26, offset: 84941},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92139},
+																		pos: position{line: 2922, col: 10, offset: 92410},
 																		run: (*parser).callonListContinuationElement1576,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92139},
+																			pos:        position{line: 2922, col: 10, offset: 92410},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37017,28 +37017,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92537},
+																	pos: position{line: 2944, col: 8, offset: 92808},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92310},
+																			pos: position{line: 2931, col: 12, offset: 92581},
 																			run: (*parser).callonListContinuationElement1579,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92311},
+																				pos: position{line: 2931, col: 13, offset: 92582},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92311},
+																						pos:        position{line: 2931, col: 13, offset: 92582},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92318},
+																						pos:        position{line: 2931, col: 20, offset: 92589},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92327},
+																						pos:        position{line: 2931, col: 29, offset: 92598},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37047,9 +37047,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92487},
+																			pos: position{line: 2941, col: 8, offset: 92758},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92488,
+																				line: 2941, col: 9, offset: 92759,
 																			},
 																		},
 																	},
@@ -37057,9 +37057,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2937, col: 8, offset: 92487},
+															pos: position{line: 2941, col: 8, offset: 92758},
 															expr: &anyMatcher{
-																line: 2937, col: 9, offset: 92488,
+																line: 2941, col: 9, offset: 92759,
 															},
 														},
 													},
@@ -37068,36 +37068,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2521, col: 22, offset: 80917},
+										pos: position{line: 2525, col: 22, offset: 81188},
 										run: (*parser).callonListContinuationElement1588,
 										expr: &seqExpr{
-											pos: position{line: 2521, col: 22, offset: 80917},
+											pos: position{line: 2525, col: 22, offset: 81188},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2526, col: 31, offset: 81167},
+													pos:        position{line: 2530, col: 31, offset: 81438},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2526, col: 36, offset: 81172},
+													pos: position{line: 2530, col: 36, offset: 81443},
 													expr: &litMatcher{
-														pos:        position{line: 2526, col: 37, offset: 81173},
+														pos:        position{line: 2530, col: 37, offset: 81444},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2521, col: 49, offset: 80944},
+													pos:   position{line: 2525, col: 49, offset: 81215},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 13, offset: 90665},
+														pos: position{line: 2868, col: 13, offset: 90936},
 														run: (*parser).callonListContinuationElement1594,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2864, col: 13, offset: 90665},
+															pos: position{line: 2868, col: 13, offset: 90936},
 															expr: &charClassMatcher{
-																pos:        position{line: 2864, col: 13, offset: 90665},
+																pos:        position{line: 2868, col: 13, offset: 90936},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37107,28 +37107,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2940, col: 8, offset: 92537},
+													pos: position{line: 2944, col: 8, offset: 92808},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92310},
+															pos: position{line: 2931, col: 12, offset: 92581},
 															run: (*parser).callonListContinuationElement1598,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92311},
+																pos: position{line: 2931, col: 13, offset: 92582},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92311},
+																		pos:        position{line: 2931, col: 13, offset: 92582},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92318},
+																		pos:        position{line: 2931, col: 20, offset: 92589},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92327},
+																		pos:        position{line: 2931, col: 29, offset: 92598},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37137,9 +37137,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2937, col: 8, offset: 92487},
+															pos: position{line: 2941, col: 8, offset: 92758},
 															expr: &anyMatcher{
-																line: 2937, col: 9, offset: 92488,
+																line: 2941, col: 9, offset: 92759,
 															},
 														},
 													},
@@ -37148,94 +37148,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1576, col: 5, offset: 50978},
+										pos: position{line: 1580, col: 5, offset: 51249},
 										run: (*parser).callonListContinuationElement1605,
 										expr: &seqExpr{
-											pos: position{line: 1576, col: 5, offset: 50978},
+											pos: position{line: 1580, col: 5, offset: 51249},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1576, col: 5, offset: 50978},
+													pos:   position{line: 1580, col: 5, offset: 51249},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1576, col: 11, offset: 50984},
+														pos: position{line: 1580, col: 11, offset: 51255},
 														expr: &actionExpr{
-															pos: position{line: 1741, col: 5, offset: 56333},
+															pos: position{line: 1745, col: 5, offset: 56604},
 															run: (*parser).callonListContinuationElement1609,
 															expr: &seqExpr{
-																pos: position{line: 1741, col: 5, offset: 56333},
+																pos: position{line: 1745, col: 5, offset: 56604},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1741, col: 5, offset: 56333},
+																		pos: position{line: 1745, col: 5, offset: 56604},
 																		run: (*parser).callonListContinuationElement1611,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1744, col: 5, offset: 56396},
+																		pos:   position{line: 1748, col: 5, offset: 56667},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1744, col: 12, offset: 56403},
+																			pos: position{line: 1748, col: 12, offset: 56674},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1744, col: 12, offset: 56403},
+																					pos: position{line: 1748, col: 12, offset: 56674},
 																					run: (*parser).callonListContinuationElement1614,
 																					expr: &litMatcher{
-																						pos:        position{line: 1744, col: 12, offset: 56403},
+																						pos:        position{line: 1748, col: 12, offset: 56674},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1746, col: 13, offset: 56459},
+																					pos: position{line: 1750, col: 13, offset: 56730},
 																					run: (*parser).callonListContinuationElement1616,
 																					expr: &litMatcher{
-																						pos:        position{line: 1746, col: 13, offset: 56459},
+																						pos:        position{line: 1750, col: 13, offset: 56730},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1748, col: 13, offset: 56517},
+																					pos: position{line: 1752, col: 13, offset: 56788},
 																					run: (*parser).callonListContinuationElement1618,
 																					expr: &litMatcher{
-																						pos:        position{line: 1748, col: 13, offset: 56517},
+																						pos:        position{line: 1752, col: 13, offset: 56788},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1750, col: 13, offset: 56585},
+																					pos: position{line: 1754, col: 13, offset: 56856},
 																					run: (*parser).callonListContinuationElement1620,
 																					expr: &litMatcher{
-																						pos:        position{line: 1750, col: 13, offset: 56585},
+																						pos:        position{line: 1754, col: 13, offset: 56856},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1752, col: 13, offset: 56649},
+																					pos: position{line: 1756, col: 13, offset: 56920},
 																					run: (*parser).callonListContinuationElement1622,
 																					expr: &litMatcher{
-																						pos:        position{line: 1752, col: 13, offset: 56649},
+																						pos:        position{line: 1756, col: 13, offset: 56920},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1754, col: 13, offset: 56713},
+																					pos: position{line: 1758, col: 13, offset: 56984},
 																					run: (*parser).callonListContinuationElement1624,
 																					expr: &andExpr{
-																						pos: position{line: 1754, col: 13, offset: 56713},
+																						pos: position{line: 1758, col: 13, offset: 56984},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 11, offset: 92200},
+																							pos: position{line: 2926, col: 11, offset: 92471},
 																							run: (*parser).callonListContinuationElement1626,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2922, col: 11, offset: 92200},
+																								pos: position{line: 2926, col: 11, offset: 92471},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 11, offset: 92200},
+																									pos:        position{line: 2926, col: 11, offset: 92471},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37254,35 +37254,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1577, col: 5, offset: 51007},
+													pos:   position{line: 1581, col: 5, offset: 51278},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1519, col: 5, offset: 49323},
+														pos: position{line: 1523, col: 5, offset: 49594},
 														run: (*parser).callonListContinuationElement1630,
 														expr: &seqExpr{
-															pos: position{line: 1519, col: 5, offset: 49323},
+															pos: position{line: 1523, col: 5, offset: 49594},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1519, col: 5, offset: 49323},
+																	pos: position{line: 1523, col: 5, offset: 49594},
 																	expr: &actionExpr{
-																		pos: position{line: 686, col: 14, offset: 21901},
+																		pos: position{line: 690, col: 14, offset: 22172},
 																		run: (*parser).callonListContinuationElement1633,
 																		expr: &seqExpr{
-																			pos: position{line: 686, col: 14, offset: 21901},
+																			pos: position{line: 690, col: 14, offset: 22172},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2935, col: 11, offset: 92473},
+																					pos: position{line: 2939, col: 11, offset: 92744},
 																					expr: &anyMatcher{
-																						line: 2935, col: 13, offset: 92475,
+																						line: 2939, col: 13, offset: 92746,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 686, col: 21, offset: 21908},
+																					pos: position{line: 690, col: 21, offset: 22179},
 																					expr: &actionExpr{
-																						pos: position{line: 2918, col: 10, offset: 92139},
+																						pos: position{line: 2922, col: 10, offset: 92410},
 																						run: (*parser).callonListContinuationElement1638,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2918, col: 10, offset: 92139},
+																							pos:        position{line: 2922, col: 10, offset: 92410},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37291,28 +37291,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2940, col: 8, offset: 92537},
+																					pos: position{line: 2944, col: 8, offset: 92808},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2927, col: 12, offset: 92310},
+																							pos: position{line: 2931, col: 12, offset: 92581},
 																							run: (*parser).callonListContinuationElement1641,
 																							expr: &choiceExpr{
-																								pos: position{line: 2927, col: 13, offset: 92311},
+																								pos: position{line: 2931, col: 13, offset: 92582},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 13, offset: 92311},
+																										pos:        position{line: 2931, col: 13, offset: 92582},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 20, offset: 92318},
+																										pos:        position{line: 2931, col: 20, offset: 92589},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 29, offset: 92327},
+																										pos:        position{line: 2931, col: 29, offset: 92598},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37321,9 +37321,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2937, col: 8, offset: 92487},
+																							pos: position{line: 2941, col: 8, offset: 92758},
 																							expr: &anyMatcher{
-																								line: 2937, col: 9, offset: 92488,
+																								line: 2941, col: 9, offset: 92759,
 																							},
 																						},
 																					},
@@ -37333,23 +37333,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1520, col: 5, offset: 49338},
+																	pos: position{line: 1524, col: 5, offset: 49609},
 																	expr: &seqExpr{
-																		pos: position{line: 1551, col: 27, offset: 50198},
+																		pos: position{line: 1555, col: 27, offset: 50469},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1551, col: 27, offset: 50198},
+																				pos:        position{line: 1555, col: 27, offset: 50469},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1551, col: 31, offset: 50202},
+																				pos: position{line: 1555, col: 31, offset: 50473},
 																				expr: &actionExpr{
-																					pos: position{line: 2918, col: 10, offset: 92139},
+																					pos: position{line: 2922, col: 10, offset: 92410},
 																					run: (*parser).callonListContinuationElement1652,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2918, col: 10, offset: 92139},
+																						pos:        position{line: 2922, col: 10, offset: 92410},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37358,25 +37358,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonListContinuationElement1654,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37388,20 +37388,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1521, col: 5, offset: 49366},
+																	pos: position{line: 1525, col: 5, offset: 49637},
 																	expr: &actionExpr{
-																		pos: position{line: 1592, col: 5, offset: 51417},
+																		pos: position{line: 1596, col: 5, offset: 51688},
 																		run: (*parser).callonListContinuationElement1660,
 																		expr: &seqExpr{
-																			pos: position{line: 1592, col: 5, offset: 51417},
+																			pos: position{line: 1596, col: 5, offset: 51688},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1592, col: 5, offset: 51417},
+																					pos: position{line: 1596, col: 5, offset: 51688},
 																					expr: &actionExpr{
-																						pos: position{line: 2918, col: 10, offset: 92139},
+																						pos: position{line: 2922, col: 10, offset: 92410},
 																						run: (*parser).callonListContinuationElement1663,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2918, col: 10, offset: 92139},
+																							pos:        position{line: 2922, col: 10, offset: 92410},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37410,27 +37410,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1592, col: 12, offset: 51424},
+																					pos:   position{line: 1596, col: 12, offset: 51695},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1594, col: 9, offset: 51487},
+																						pos: position{line: 1598, col: 9, offset: 51758},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1594, col: 9, offset: 51487},
+																								pos: position{line: 1598, col: 9, offset: 51758},
 																								run: (*parser).callonListContinuationElement1667,
 																								expr: &seqExpr{
-																									pos: position{line: 1594, col: 9, offset: 51487},
+																									pos: position{line: 1598, col: 9, offset: 51758},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1594, col: 9, offset: 51487},
+																											pos:   position{line: 1598, col: 9, offset: 51758},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1594, col: 16, offset: 51494},
+																												pos: position{line: 1598, col: 16, offset: 51765},
 																												run: (*parser).callonListContinuationElement1670,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1594, col: 16, offset: 51494},
+																													pos: position{line: 1598, col: 16, offset: 51765},
 																													expr: &litMatcher{
-																														pos:        position{line: 1594, col: 17, offset: 51495},
+																														pos:        position{line: 1598, col: 17, offset: 51766},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -37439,22 +37439,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1598, col: 9, offset: 51595},
+																											pos: position{line: 1602, col: 9, offset: 51866},
 																											run: (*parser).callonListContinuationElement1673,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1617, col: 11, offset: 52312},
+																								pos: position{line: 1621, col: 11, offset: 52583},
 																								run: (*parser).callonListContinuationElement1674,
 																								expr: &seqExpr{
-																									pos: position{line: 1617, col: 11, offset: 52312},
+																									pos: position{line: 1621, col: 11, offset: 52583},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1617, col: 11, offset: 52312},
+																											pos: position{line: 1621, col: 11, offset: 52583},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1617, col: 12, offset: 52313},
+																												pos:        position{line: 1621, col: 12, offset: 52584},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -37462,7 +37462,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1617, col: 20, offset: 52321},
+																											pos:        position{line: 1621, col: 20, offset: 52592},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37471,20 +37471,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1619, col: 13, offset: 52438},
+																								pos: position{line: 1623, col: 13, offset: 52709},
 																								run: (*parser).callonListContinuationElement1679,
 																								expr: &seqExpr{
-																									pos: position{line: 1619, col: 13, offset: 52438},
+																									pos: position{line: 1623, col: 13, offset: 52709},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1619, col: 14, offset: 52439},
+																											pos:        position{line: 1623, col: 14, offset: 52710},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1619, col: 21, offset: 52446},
+																											pos:        position{line: 1623, col: 21, offset: 52717},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37493,20 +37493,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1621, col: 13, offset: 52566},
+																								pos: position{line: 1625, col: 13, offset: 52837},
 																								run: (*parser).callonListContinuationElement1683,
 																								expr: &seqExpr{
-																									pos: position{line: 1621, col: 13, offset: 52566},
+																									pos: position{line: 1625, col: 13, offset: 52837},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1621, col: 14, offset: 52567},
+																											pos:        position{line: 1625, col: 14, offset: 52838},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1621, col: 21, offset: 52574},
+																											pos:        position{line: 1625, col: 21, offset: 52845},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37515,15 +37515,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1623, col: 13, offset: 52694},
+																								pos: position{line: 1627, col: 13, offset: 52965},
 																								run: (*parser).callonListContinuationElement1687,
 																								expr: &seqExpr{
-																									pos: position{line: 1623, col: 13, offset: 52694},
+																									pos: position{line: 1627, col: 13, offset: 52965},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1623, col: 13, offset: 52694},
+																											pos: position{line: 1627, col: 13, offset: 52965},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1623, col: 14, offset: 52695},
+																												pos:        position{line: 1627, col: 14, offset: 52966},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -37531,7 +37531,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1623, col: 26, offset: 52707},
+																											pos:        position{line: 1627, col: 26, offset: 52978},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37540,15 +37540,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1625, col: 13, offset: 52827},
+																								pos: position{line: 1629, col: 13, offset: 53098},
 																								run: (*parser).callonListContinuationElement1692,
 																								expr: &seqExpr{
-																									pos: position{line: 1625, col: 13, offset: 52827},
+																									pos: position{line: 1629, col: 13, offset: 53098},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1625, col: 13, offset: 52827},
+																											pos: position{line: 1629, col: 13, offset: 53098},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1625, col: 14, offset: 52828},
+																												pos:        position{line: 1629, col: 14, offset: 53099},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -37556,7 +37556,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1625, col: 26, offset: 52840},
+																											pos:        position{line: 1629, col: 26, offset: 53111},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37568,12 +37568,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2922, col: 11, offset: 92200},
+																					pos: position{line: 2926, col: 11, offset: 92471},
 																					run: (*parser).callonListContinuationElement1697,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2922, col: 11, offset: 92200},
+																						pos: position{line: 2926, col: 11, offset: 92471},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 11, offset: 92200},
+																							pos:        position{line: 2926, col: 11, offset: 92471},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37586,20 +37586,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1522, col: 5, offset: 49396},
+																	pos: position{line: 1526, col: 5, offset: 49667},
 																	expr: &actionExpr{
-																		pos: position{line: 1642, col: 5, offset: 53379},
+																		pos: position{line: 1646, col: 5, offset: 53650},
 																		run: (*parser).callonListContinuationElement1701,
 																		expr: &seqExpr{
-																			pos: position{line: 1642, col: 5, offset: 53379},
+																			pos: position{line: 1646, col: 5, offset: 53650},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1642, col: 5, offset: 53379},
+																					pos: position{line: 1646, col: 5, offset: 53650},
 																					expr: &actionExpr{
-																						pos: position{line: 2918, col: 10, offset: 92139},
+																						pos: position{line: 2922, col: 10, offset: 92410},
 																						run: (*parser).callonListContinuationElement1704,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2918, col: 10, offset: 92139},
+																							pos:        position{line: 2922, col: 10, offset: 92410},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37608,24 +37608,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1643, col: 5, offset: 53391},
+																					pos:   position{line: 1647, col: 5, offset: 53662},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1644, col: 9, offset: 53407},
+																						pos: position{line: 1648, col: 9, offset: 53678},
 																						run: (*parser).callonListContinuationElement1707,
 																						expr: &choiceExpr{
-																							pos: position{line: 1644, col: 10, offset: 53408},
+																							pos: position{line: 1648, col: 10, offset: 53679},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1644, col: 11, offset: 53409},
+																									pos:        position{line: 1648, col: 11, offset: 53680},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1644, col: 18, offset: 53416},
+																									pos: position{line: 1648, col: 18, offset: 53687},
 																									expr: &litMatcher{
-																										pos:        position{line: 1644, col: 19, offset: 53417},
+																										pos:        position{line: 1648, col: 19, offset: 53688},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -37636,16 +37636,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1647, col: 7, offset: 53507},
+																					pos: position{line: 1651, col: 7, offset: 53778},
 																					run: (*parser).callonListContinuationElement1712,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2922, col: 11, offset: 92200},
+																					pos: position{line: 2926, col: 11, offset: 92471},
 																					run: (*parser).callonListContinuationElement1713,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2922, col: 11, offset: 92200},
+																						pos: position{line: 2926, col: 11, offset: 92471},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 11, offset: 92200},
+																							pos:        position{line: 2926, col: 11, offset: 92471},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37658,29 +37658,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1523, col: 5, offset: 49428},
+																	pos: position{line: 1527, col: 5, offset: 49699},
 																	expr: &actionExpr{
-																		pos: position{line: 1732, col: 5, offset: 55948},
+																		pos: position{line: 1736, col: 5, offset: 56219},
 																		run: (*parser).callonListContinuationElement1717,
 																		expr: &seqExpr{
-																			pos: position{line: 1732, col: 5, offset: 55948},
+																			pos: position{line: 1736, col: 5, offset: 56219},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1732, col: 5, offset: 55948},
+																					pos:        position{line: 1736, col: 5, offset: 56219},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1732, col: 9, offset: 55952},
+																					pos:   position{line: 1736, col: 9, offset: 56223},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1732, col: 14, offset: 55957},
+																						pos: position{line: 1736, col: 14, offset: 56228},
 																						run: (*parser).callonListContinuationElement1721,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1732, col: 14, offset: 55957},
+																							pos: position{line: 1736, col: 14, offset: 56228},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1732, col: 14, offset: 55957},
+																								pos:        position{line: 1736, col: 14, offset: 56228},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37690,18 +37690,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1732, col: 62, offset: 56005},
+																					pos:        position{line: 1736, col: 62, offset: 56276},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2922, col: 11, offset: 92200},
+																					pos: position{line: 2926, col: 11, offset: 92471},
 																					run: (*parser).callonListContinuationElement1725,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2922, col: 11, offset: 92200},
+																						pos: position{line: 2926, col: 11, offset: 92471},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 11, offset: 92200},
+																							pos:        position{line: 2926, col: 11, offset: 92471},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37714,31 +37714,31 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1524, col: 5, offset: 49458},
+																	pos: position{line: 1528, col: 5, offset: 49729},
 																	expr: &seqExpr{
-																		pos: position{line: 1524, col: 7, offset: 49460},
+																		pos: position{line: 1528, col: 7, offset: 49731},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1677, col: 5, offset: 54398},
+																				pos: position{line: 1681, col: 5, offset: 54669},
 																				run: (*parser).callonListContinuationElement1730,
 																				expr: &seqExpr{
-																					pos: position{line: 1677, col: 5, offset: 54398},
+																					pos: position{line: 1681, col: 5, offset: 54669},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1677, col: 5, offset: 54398},
+																							pos: position{line: 1681, col: 5, offset: 54669},
 																							expr: &seqExpr{
-																								pos: position{line: 2526, col: 31, offset: 81167},
+																								pos: position{line: 2530, col: 31, offset: 81438},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2526, col: 31, offset: 81167},
+																										pos:        position{line: 2530, col: 31, offset: 81438},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2526, col: 36, offset: 81172},
+																										pos: position{line: 2530, col: 36, offset: 81443},
 																										expr: &litMatcher{
-																											pos:        position{line: 2526, col: 37, offset: 81173},
+																											pos:        position{line: 2530, col: 37, offset: 81444},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -37748,28 +37748,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1678, col: 5, offset: 54430},
+																							pos: position{line: 1682, col: 5, offset: 54701},
 																							expr: &seqExpr{
-																								pos: position{line: 1678, col: 6, offset: 54431},
+																								pos: position{line: 1682, col: 6, offset: 54702},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1678, col: 6, offset: 54431},
+																										pos: position{line: 1682, col: 6, offset: 54702},
 																										expr: &actionExpr{
-																											pos: position{line: 1683, col: 5, offset: 54581},
+																											pos: position{line: 1687, col: 5, offset: 54852},
 																											run: (*parser).callonListContinuationElement1740,
 																											expr: &seqExpr{
-																												pos: position{line: 1683, col: 5, offset: 54581},
+																												pos: position{line: 1687, col: 5, offset: 54852},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1683, col: 5, offset: 54581},
+																														pos:   position{line: 1687, col: 5, offset: 54852},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1683, col: 16, offset: 54592},
+																															pos: position{line: 1687, col: 16, offset: 54863},
 																															run: (*parser).callonListContinuationElement1743,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1683, col: 16, offset: 54592},
+																																pos: position{line: 1687, col: 16, offset: 54863},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1683, col: 17, offset: 54593},
+																																	pos:        position{line: 1687, col: 17, offset: 54864},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -37778,7 +37778,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1686, col: 5, offset: 54650},
+																														pos: position{line: 1690, col: 5, offset: 54921},
 																														run: (*parser).callonListContinuationElement1746,
 																													},
 																												},
@@ -37786,30 +37786,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1678, col: 35, offset: 54460},
+																										pos: position{line: 1682, col: 35, offset: 54731},
 																										expr: &choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92537},
+																											pos: position{line: 2944, col: 8, offset: 92808},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92310},
+																													pos: position{line: 2931, col: 12, offset: 92581},
 																													run: (*parser).callonListContinuationElement1749,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92311},
+																														pos: position{line: 2931, col: 13, offset: 92582},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92311},
+																																pos:        position{line: 2931, col: 13, offset: 92582},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92318},
+																																pos:        position{line: 2931, col: 20, offset: 92589},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92327},
+																																pos:        position{line: 2931, col: 29, offset: 92598},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37818,16 +37818,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92487},
+																													pos: position{line: 2941, col: 8, offset: 92758},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92488,
+																														line: 2941, col: 9, offset: 92759,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1678, col: 40, offset: 54465,
+																										line: 1682, col: 40, offset: 54736,
 																									},
 																								},
 																							},
@@ -37836,21 +37836,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1683, col: 5, offset: 54581},
+																				pos: position{line: 1687, col: 5, offset: 54852},
 																				run: (*parser).callonListContinuationElement1757,
 																				expr: &seqExpr{
-																					pos: position{line: 1683, col: 5, offset: 54581},
+																					pos: position{line: 1687, col: 5, offset: 54852},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1683, col: 5, offset: 54581},
+																							pos:   position{line: 1687, col: 5, offset: 54852},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1683, col: 16, offset: 54592},
+																								pos: position{line: 1687, col: 16, offset: 54863},
 																								run: (*parser).callonListContinuationElement1760,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1683, col: 16, offset: 54592},
+																									pos: position{line: 1687, col: 16, offset: 54863},
 																									expr: &litMatcher{
-																										pos:        position{line: 1683, col: 17, offset: 54593},
+																										pos:        position{line: 1687, col: 17, offset: 54864},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37859,7 +37859,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1686, col: 5, offset: 54650},
+																							pos: position{line: 1690, col: 5, offset: 54921},
 																							run: (*parser).callonListContinuationElement1763,
 																						},
 																					},
@@ -37869,17 +37869,17 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1525, col: 5, offset: 49516},
+																	pos: position{line: 1529, col: 5, offset: 49787},
 																	expr: &actionExpr{
-																		pos: position{line: 733, col: 5, offset: 23454},
+																		pos: position{line: 737, col: 5, offset: 23725},
 																		run: (*parser).callonListContinuationElement1765,
 																		expr: &seqExpr{
-																			pos: position{line: 733, col: 5, offset: 23454},
+																			pos: position{line: 737, col: 5, offset: 23725},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 733, col: 5, offset: 23454},
+																					pos: position{line: 737, col: 5, offset: 23725},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2808, col: 13, offset: 89234},
+																						pos:        position{line: 2812, col: 13, offset: 89505},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37887,36 +37887,36 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 734, col: 5, offset: 23484},
+																					pos:   position{line: 738, col: 5, offset: 23755},
 																					label: "delimiter",
 																					expr: &choiceExpr{
-																						pos: position{line: 735, col: 9, offset: 23504},
+																						pos: position{line: 739, col: 9, offset: 23775},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 749, col: 5, offset: 23996},
+																								pos: position{line: 753, col: 5, offset: 24267},
 																								run: (*parser).callonListContinuationElement1771,
 																								expr: &seqExpr{
-																									pos: position{line: 749, col: 5, offset: 23996},
+																									pos: position{line: 753, col: 5, offset: 24267},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 749, col: 5, offset: 23996},
+																											pos:   position{line: 753, col: 5, offset: 24267},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 749, col: 16, offset: 24007},
+																												pos: position{line: 753, col: 16, offset: 24278},
 																												run: (*parser).callonListContinuationElement1774,
 																												expr: &seqExpr{
-																													pos: position{line: 749, col: 16, offset: 24007},
+																													pos: position{line: 753, col: 16, offset: 24278},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 749, col: 16, offset: 24007},
+																															pos:        position{line: 753, col: 16, offset: 24278},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 749, col: 23, offset: 24014},
+																															pos: position{line: 753, col: 23, offset: 24285},
 																															expr: &litMatcher{
-																																pos:        position{line: 749, col: 23, offset: 24014},
+																																pos:        position{line: 753, col: 23, offset: 24285},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -37927,12 +37927,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 751, col: 8, offset: 24098},
+																											pos: position{line: 755, col: 8, offset: 24369},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92139},
+																												pos: position{line: 2922, col: 10, offset: 92410},
 																												run: (*parser).callonListContinuationElement1780,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92139},
+																													pos:        position{line: 2922, col: 10, offset: 92410},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37941,28 +37941,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92537},
+																											pos: position{line: 2944, col: 8, offset: 92808},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92310},
+																													pos: position{line: 2931, col: 12, offset: 92581},
 																													run: (*parser).callonListContinuationElement1783,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92311},
+																														pos: position{line: 2931, col: 13, offset: 92582},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92311},
+																																pos:        position{line: 2931, col: 13, offset: 92582},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92318},
+																																pos:        position{line: 2931, col: 20, offset: 92589},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92327},
+																																pos:        position{line: 2931, col: 29, offset: 92598},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37971,9 +37971,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92487},
+																													pos: position{line: 2941, col: 8, offset: 92758},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92488,
+																														line: 2941, col: 9, offset: 92759,
 																													},
 																												},
 																											},
@@ -37982,30 +37982,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 756, col: 5, offset: 24244},
+																								pos: position{line: 760, col: 5, offset: 24515},
 																								run: (*parser).callonListContinuationElement1790,
 																								expr: &seqExpr{
-																									pos: position{line: 756, col: 5, offset: 24244},
+																									pos: position{line: 760, col: 5, offset: 24515},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 756, col: 5, offset: 24244},
+																											pos:   position{line: 760, col: 5, offset: 24515},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 756, col: 16, offset: 24255},
+																												pos: position{line: 760, col: 16, offset: 24526},
 																												run: (*parser).callonListContinuationElement1793,
 																												expr: &seqExpr{
-																													pos: position{line: 756, col: 16, offset: 24255},
+																													pos: position{line: 760, col: 16, offset: 24526},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 756, col: 16, offset: 24255},
+																															pos:        position{line: 760, col: 16, offset: 24526},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 756, col: 23, offset: 24262},
+																															pos: position{line: 760, col: 23, offset: 24533},
 																															expr: &litMatcher{
-																																pos:        position{line: 756, col: 23, offset: 24262},
+																																pos:        position{line: 760, col: 23, offset: 24533},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -38016,12 +38016,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 758, col: 8, offset: 24346},
+																											pos: position{line: 762, col: 8, offset: 24617},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92139},
+																												pos: position{line: 2922, col: 10, offset: 92410},
 																												run: (*parser).callonListContinuationElement1799,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92139},
+																													pos:        position{line: 2922, col: 10, offset: 92410},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38030,28 +38030,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92537},
+																											pos: position{line: 2944, col: 8, offset: 92808},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92310},
+																													pos: position{line: 2931, col: 12, offset: 92581},
 																													run: (*parser).callonListContinuationElement1802,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92311},
+																														pos: position{line: 2931, col: 13, offset: 92582},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92311},
+																																pos:        position{line: 2931, col: 13, offset: 92582},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92318},
+																																pos:        position{line: 2931, col: 20, offset: 92589},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92327},
+																																pos:        position{line: 2931, col: 29, offset: 92598},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38060,9 +38060,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92487},
+																													pos: position{line: 2941, col: 8, offset: 92758},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92488,
+																														line: 2941, col: 9, offset: 92759,
 																													},
 																												},
 																											},
@@ -38071,27 +38071,27 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 769, col: 26, offset: 24732},
+																								pos: position{line: 773, col: 26, offset: 25003},
 																								run: (*parser).callonListContinuationElement1809,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 26, offset: 24732},
+																									pos: position{line: 773, col: 26, offset: 25003},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 769, col: 26, offset: 24732},
+																											pos:        position{line: 773, col: 26, offset: 25003},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 769, col: 32, offset: 24738},
+																											pos:   position{line: 773, col: 32, offset: 25009},
 																											label: "language",
 																											expr: &actionExpr{
-																												pos: position{line: 773, col: 13, offset: 24868},
+																												pos: position{line: 777, col: 13, offset: 25139},
 																												run: (*parser).callonListContinuationElement1813,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 773, col: 14, offset: 24869},
+																													pos: position{line: 777, col: 14, offset: 25140},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 773, col: 14, offset: 24869},
+																														pos:        position{line: 777, col: 14, offset: 25140},
 																														val:        "[^\\r\\n` ]",
 																														chars:      []rune{'\r', '\n', '`', ' '},
 																														ignoreCase: false,
@@ -38101,12 +38101,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 52, offset: 24758},
+																											pos: position{line: 773, col: 52, offset: 25029},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92139},
+																												pos: position{line: 2922, col: 10, offset: 92410},
 																												run: (*parser).callonListContinuationElement1817,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92139},
+																													pos:        position{line: 2922, col: 10, offset: 92410},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38115,28 +38115,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92537},
+																											pos: position{line: 2944, col: 8, offset: 92808},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92310},
+																													pos: position{line: 2931, col: 12, offset: 92581},
 																													run: (*parser).callonListContinuationElement1820,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92311},
+																														pos: position{line: 2931, col: 13, offset: 92582},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92311},
+																																pos:        position{line: 2931, col: 13, offset: 92582},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92318},
+																																pos:        position{line: 2931, col: 20, offset: 92589},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92327},
+																																pos:        position{line: 2931, col: 29, offset: 92598},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38145,9 +38145,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92487},
+																													pos: position{line: 2941, col: 8, offset: 92758},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92488,
+																														line: 2941, col: 9, offset: 92759,
 																													},
 																												},
 																											},
@@ -38156,30 +38156,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 763, col: 5, offset: 24491},
+																								pos: position{line: 767, col: 5, offset: 24762},
 																								run: (*parser).callonListContinuationElement1827,
 																								expr: &seqExpr{
-																									pos: position{line: 763, col: 5, offset: 24491},
+																									pos: position{line: 767, col: 5, offset: 24762},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 763, col: 5, offset: 24491},
+																											pos:   position{line: 767, col: 5, offset: 24762},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 763, col: 16, offset: 24502},
+																												pos: position{line: 767, col: 16, offset: 24773},
 																												run: (*parser).callonListContinuationElement1830,
 																												expr: &seqExpr{
-																													pos: position{line: 763, col: 16, offset: 24502},
+																													pos: position{line: 767, col: 16, offset: 24773},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 763, col: 16, offset: 24502},
+																															pos:        position{line: 767, col: 16, offset: 24773},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 763, col: 22, offset: 24508},
+																															pos: position{line: 767, col: 22, offset: 24779},
 																															expr: &litMatcher{
-																																pos:        position{line: 763, col: 22, offset: 24508},
+																																pos:        position{line: 767, col: 22, offset: 24779},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -38190,12 +38190,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 765, col: 8, offset: 24592},
+																											pos: position{line: 769, col: 8, offset: 24863},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92139},
+																												pos: position{line: 2922, col: 10, offset: 92410},
 																												run: (*parser).callonListContinuationElement1836,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92139},
+																													pos:        position{line: 2922, col: 10, offset: 92410},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38204,28 +38204,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92537},
+																											pos: position{line: 2944, col: 8, offset: 92808},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92310},
+																													pos: position{line: 2931, col: 12, offset: 92581},
 																													run: (*parser).callonListContinuationElement1839,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92311},
+																														pos: position{line: 2931, col: 13, offset: 92582},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92311},
+																																pos:        position{line: 2931, col: 13, offset: 92582},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92318},
+																																pos:        position{line: 2931, col: 20, offset: 92589},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92327},
+																																pos:        position{line: 2931, col: 29, offset: 92598},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38234,9 +38234,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92487},
+																													pos: position{line: 2941, col: 8, offset: 92758},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92488,
+																														line: 2941, col: 9, offset: 92759,
 																													},
 																												},
 																											},
@@ -38245,30 +38245,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 778, col: 5, offset: 25028},
+																								pos: position{line: 782, col: 5, offset: 25299},
 																								run: (*parser).callonListContinuationElement1846,
 																								expr: &seqExpr{
-																									pos: position{line: 778, col: 5, offset: 25028},
+																									pos: position{line: 782, col: 5, offset: 25299},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 778, col: 5, offset: 25028},
+																											pos:   position{line: 782, col: 5, offset: 25299},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 778, col: 16, offset: 25039},
+																												pos: position{line: 782, col: 16, offset: 25310},
 																												run: (*parser).callonListContinuationElement1849,
 																												expr: &seqExpr{
-																													pos: position{line: 778, col: 16, offset: 25039},
+																													pos: position{line: 782, col: 16, offset: 25310},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 778, col: 16, offset: 25039},
+																															pos:        position{line: 782, col: 16, offset: 25310},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 778, col: 23, offset: 25046},
+																															pos: position{line: 782, col: 23, offset: 25317},
 																															expr: &litMatcher{
-																																pos:        position{line: 778, col: 23, offset: 25046},
+																																pos:        position{line: 782, col: 23, offset: 25317},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -38279,12 +38279,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 780, col: 8, offset: 25130},
+																											pos: position{line: 784, col: 8, offset: 25401},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92139},
+																												pos: position{line: 2922, col: 10, offset: 92410},
 																												run: (*parser).callonListContinuationElement1855,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92139},
+																													pos:        position{line: 2922, col: 10, offset: 92410},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38293,28 +38293,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92537},
+																											pos: position{line: 2944, col: 8, offset: 92808},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92310},
+																													pos: position{line: 2931, col: 12, offset: 92581},
 																													run: (*parser).callonListContinuationElement1858,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92311},
+																														pos: position{line: 2931, col: 13, offset: 92582},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92311},
+																																pos:        position{line: 2931, col: 13, offset: 92582},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92318},
+																																pos:        position{line: 2931, col: 20, offset: 92589},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92327},
+																																pos:        position{line: 2931, col: 29, offset: 92598},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38323,9 +38323,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92487},
+																													pos: position{line: 2941, col: 8, offset: 92758},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92488,
+																														line: 2941, col: 9, offset: 92759,
 																													},
 																												},
 																											},
@@ -38334,30 +38334,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 792, col: 5, offset: 25504},
+																								pos: position{line: 796, col: 5, offset: 25775},
 																								run: (*parser).callonListContinuationElement1865,
 																								expr: &seqExpr{
-																									pos: position{line: 792, col: 5, offset: 25504},
+																									pos: position{line: 796, col: 5, offset: 25775},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 792, col: 5, offset: 25504},
+																											pos:   position{line: 796, col: 5, offset: 25775},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 792, col: 16, offset: 25515},
+																												pos: position{line: 796, col: 16, offset: 25786},
 																												run: (*parser).callonListContinuationElement1868,
 																												expr: &seqExpr{
-																													pos: position{line: 792, col: 16, offset: 25515},
+																													pos: position{line: 796, col: 16, offset: 25786},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 792, col: 16, offset: 25515},
+																															pos:        position{line: 796, col: 16, offset: 25786},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 792, col: 23, offset: 25522},
+																															pos: position{line: 796, col: 23, offset: 25793},
 																															expr: &litMatcher{
-																																pos:        position{line: 792, col: 23, offset: 25522},
+																																pos:        position{line: 796, col: 23, offset: 25793},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -38368,12 +38368,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 794, col: 8, offset: 25606},
+																											pos: position{line: 798, col: 8, offset: 25877},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92139},
+																												pos: position{line: 2922, col: 10, offset: 92410},
 																												run: (*parser).callonListContinuationElement1874,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92139},
+																													pos:        position{line: 2922, col: 10, offset: 92410},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38382,28 +38382,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92537},
+																											pos: position{line: 2944, col: 8, offset: 92808},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92310},
+																													pos: position{line: 2931, col: 12, offset: 92581},
 																													run: (*parser).callonListContinuationElement1877,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92311},
+																														pos: position{line: 2931, col: 13, offset: 92582},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92311},
+																																pos:        position{line: 2931, col: 13, offset: 92582},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92318},
+																																pos:        position{line: 2931, col: 20, offset: 92589},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92327},
+																																pos:        position{line: 2931, col: 29, offset: 92598},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38412,9 +38412,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92487},
+																													pos: position{line: 2941, col: 8, offset: 92758},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92488,
+																														line: 2941, col: 9, offset: 92759,
 																													},
 																												},
 																											},
@@ -38423,30 +38423,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 799, col: 5, offset: 25756},
+																								pos: position{line: 803, col: 5, offset: 26027},
 																								run: (*parser).callonListContinuationElement1884,
 																								expr: &seqExpr{
-																									pos: position{line: 799, col: 5, offset: 25756},
+																									pos: position{line: 803, col: 5, offset: 26027},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 799, col: 5, offset: 25756},
+																											pos:   position{line: 803, col: 5, offset: 26027},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 799, col: 16, offset: 25767},
+																												pos: position{line: 803, col: 16, offset: 26038},
 																												run: (*parser).callonListContinuationElement1887,
 																												expr: &seqExpr{
-																													pos: position{line: 799, col: 16, offset: 25767},
+																													pos: position{line: 803, col: 16, offset: 26038},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 799, col: 16, offset: 25767},
+																															pos:        position{line: 803, col: 16, offset: 26038},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 799, col: 23, offset: 25774},
+																															pos: position{line: 803, col: 23, offset: 26045},
 																															expr: &litMatcher{
-																																pos:        position{line: 799, col: 23, offset: 25774},
+																																pos:        position{line: 803, col: 23, offset: 26045},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -38457,12 +38457,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 801, col: 8, offset: 25858},
+																											pos: position{line: 805, col: 8, offset: 26129},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92139},
+																												pos: position{line: 2922, col: 10, offset: 92410},
 																												run: (*parser).callonListContinuationElement1893,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92139},
+																													pos:        position{line: 2922, col: 10, offset: 92410},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38471,28 +38471,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92537},
+																											pos: position{line: 2944, col: 8, offset: 92808},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92310},
+																													pos: position{line: 2931, col: 12, offset: 92581},
 																													run: (*parser).callonListContinuationElement1896,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92311},
+																														pos: position{line: 2931, col: 13, offset: 92582},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92311},
+																																pos:        position{line: 2931, col: 13, offset: 92582},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92318},
+																																pos:        position{line: 2931, col: 20, offset: 92589},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92327},
+																																pos:        position{line: 2931, col: 29, offset: 92598},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38501,9 +38501,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92487},
+																													pos: position{line: 2941, col: 8, offset: 92758},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92488,
+																														line: 2941, col: 9, offset: 92759,
 																													},
 																												},
 																											},
@@ -38512,30 +38512,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 806, col: 5, offset: 26006},
+																								pos: position{line: 810, col: 5, offset: 26277},
 																								run: (*parser).callonListContinuationElement1903,
 																								expr: &seqExpr{
-																									pos: position{line: 806, col: 5, offset: 26006},
+																									pos: position{line: 810, col: 5, offset: 26277},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 806, col: 5, offset: 26006},
+																											pos:   position{line: 810, col: 5, offset: 26277},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 806, col: 16, offset: 26017},
+																												pos: position{line: 810, col: 16, offset: 26288},
 																												run: (*parser).callonListContinuationElement1906,
 																												expr: &seqExpr{
-																													pos: position{line: 806, col: 16, offset: 26017},
+																													pos: position{line: 810, col: 16, offset: 26288},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 806, col: 16, offset: 26017},
+																															pos:        position{line: 810, col: 16, offset: 26288},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 806, col: 23, offset: 26024},
+																															pos: position{line: 810, col: 23, offset: 26295},
 																															expr: &litMatcher{
-																																pos:        position{line: 806, col: 23, offset: 26024},
+																																pos:        position{line: 810, col: 23, offset: 26295},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -38546,12 +38546,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 808, col: 8, offset: 26108},
+																											pos: position{line: 812, col: 8, offset: 26379},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92139},
+																												pos: position{line: 2922, col: 10, offset: 92410},
 																												run: (*parser).callonListContinuationElement1912,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92139},
+																													pos:        position{line: 2922, col: 10, offset: 92410},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38560,28 +38560,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92537},
+																											pos: position{line: 2944, col: 8, offset: 92808},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92310},
+																													pos: position{line: 2931, col: 12, offset: 92581},
 																													run: (*parser).callonListContinuationElement1915,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92311},
+																														pos: position{line: 2931, col: 13, offset: 92582},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92311},
+																																pos:        position{line: 2931, col: 13, offset: 92582},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92318},
+																																pos:        position{line: 2931, col: 20, offset: 92589},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92327},
+																																pos:        position{line: 2931, col: 29, offset: 92598},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38590,9 +38590,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92487},
+																													pos: position{line: 2941, col: 8, offset: 92758},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92488,
+																														line: 2941, col: 9, offset: 92759,
 																													},
 																												},
 																											},
@@ -38601,30 +38601,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 813, col: 5, offset: 26252},
+																								pos: position{line: 817, col: 5, offset: 26523},
 																								run: (*parser).callonListContinuationElement1922,
 																								expr: &seqExpr{
-																									pos: position{line: 813, col: 5, offset: 26252},
+																									pos: position{line: 817, col: 5, offset: 26523},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 813, col: 5, offset: 26252},
+																											pos:   position{line: 817, col: 5, offset: 26523},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 813, col: 16, offset: 26263},
+																												pos: position{line: 817, col: 16, offset: 26534},
 																												run: (*parser).callonListContinuationElement1925,
 																												expr: &seqExpr{
-																													pos: position{line: 813, col: 16, offset: 26263},
+																													pos: position{line: 817, col: 16, offset: 26534},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 813, col: 16, offset: 26263},
+																															pos:        position{line: 817, col: 16, offset: 26534},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 813, col: 23, offset: 26270},
+																															pos: position{line: 817, col: 23, offset: 26541},
 																															expr: &litMatcher{
-																																pos:        position{line: 813, col: 23, offset: 26270},
+																																pos:        position{line: 817, col: 23, offset: 26541},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -38635,12 +38635,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 815, col: 8, offset: 26354},
+																											pos: position{line: 819, col: 8, offset: 26625},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92139},
+																												pos: position{line: 2922, col: 10, offset: 92410},
 																												run: (*parser).callonListContinuationElement1931,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92139},
+																													pos:        position{line: 2922, col: 10, offset: 92410},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38649,28 +38649,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92537},
+																											pos: position{line: 2944, col: 8, offset: 92808},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92310},
+																													pos: position{line: 2931, col: 12, offset: 92581},
 																													run: (*parser).callonListContinuationElement1934,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92311},
+																														pos: position{line: 2931, col: 13, offset: 92582},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92311},
+																																pos:        position{line: 2931, col: 13, offset: 92582},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92318},
+																																pos:        position{line: 2931, col: 20, offset: 92589},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92327},
+																																pos:        position{line: 2931, col: 29, offset: 92598},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38679,9 +38679,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92487},
+																													pos: position{line: 2941, col: 8, offset: 92758},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92488,
+																														line: 2941, col: 9, offset: 92759,
 																													},
 																												},
 																											},
@@ -38697,15 +38697,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1526, col: 5, offset: 49536},
+																	pos:   position{line: 1530, col: 5, offset: 49807},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 14, offset: 90732},
+																		pos: position{line: 2872, col: 14, offset: 91003},
 																		run: (*parser).callonListContinuationElement1942,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2868, col: 14, offset: 90732},
+																			pos: position{line: 2872, col: 14, offset: 91003},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 14, offset: 90732},
+																				pos:        position{line: 2872, col: 14, offset: 91003},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38715,28 +38715,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92537},
+																	pos: position{line: 2944, col: 8, offset: 92808},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92310},
+																			pos: position{line: 2931, col: 12, offset: 92581},
 																			run: (*parser).callonListContinuationElement1946,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92311},
+																				pos: position{line: 2931, col: 13, offset: 92582},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92311},
+																						pos:        position{line: 2931, col: 13, offset: 92582},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92318},
+																						pos:        position{line: 2931, col: 20, offset: 92589},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92327},
+																						pos:        position{line: 2931, col: 29, offset: 92598},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38745,9 +38745,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92487},
+																			pos: position{line: 2941, col: 8, offset: 92758},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92488,
+																				line: 2941, col: 9, offset: 92759,
 																			},
 																		},
 																	},
@@ -38768,33 +38768,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1716, col: 1, offset: 55442},
+			pos:  position{line: 1720, col: 1, offset: 55713},
 			expr: &actionExpr{
-				pos: position{line: 1718, col: 5, offset: 55520},
+				pos: position{line: 1722, col: 5, offset: 55791},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1718, col: 5, offset: 55520},
+					pos: position{line: 1722, col: 5, offset: 55791},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1718, col: 5, offset: 55520},
+							pos: position{line: 1722, col: 5, offset: 55791},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1721, col: 5, offset: 55587},
+							pos:        position{line: 1725, col: 5, offset: 55858},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1721, col: 9, offset: 55591},
+							pos:   position{line: 1725, col: 9, offset: 55862},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1721, col: 14, offset: 55596},
+								pos: position{line: 1725, col: 14, offset: 55867},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1721, col: 14, offset: 55596},
+									pos: position{line: 1725, col: 14, offset: 55867},
 									expr: &charClassMatcher{
-										pos:        position{line: 1721, col: 14, offset: 55596},
+										pos:        position{line: 1725, col: 14, offset: 55867},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -38804,18 +38804,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1721, col: 62, offset: 55644},
+							pos:        position{line: 1725, col: 62, offset: 55915},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1721, col: 66, offset: 55648},
+							pos: position{line: 1725, col: 66, offset: 55919},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92139},
+								pos: position{line: 2922, col: 10, offset: 92410},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92139},
+									pos:        position{line: 2922, col: 10, offset: 92410},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38824,30 +38824,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1721, col: 73, offset: 55655},
+							pos: position{line: 1725, col: 73, offset: 55926},
 							expr: &choiceExpr{
-								pos: position{line: 1721, col: 75, offset: 55657},
+								pos: position{line: 1725, col: 75, offset: 55928},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2927, col: 12, offset: 92310},
+										pos: position{line: 2931, col: 12, offset: 92581},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2927, col: 13, offset: 92311},
+											pos: position{line: 2931, col: 13, offset: 92582},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2927, col: 13, offset: 92311},
+													pos:        position{line: 2931, col: 13, offset: 92582},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2927, col: 20, offset: 92318},
+													pos:        position{line: 2931, col: 20, offset: 92589},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2927, col: 29, offset: 92327},
+													pos:        position{line: 2931, col: 29, offset: 92598},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38856,13 +38856,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2937, col: 8, offset: 92487},
+										pos: position{line: 2941, col: 8, offset: 92758},
 										expr: &anyMatcher{
-											line: 2937, col: 9, offset: 92488,
+											line: 2941, col: 9, offset: 92759,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1721, col: 81, offset: 55663},
+										pos:  position{line: 1725, col: 81, offset: 55934},
 										name: "Callout",
 									},
 								},
@@ -38874,44 +38874,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1760, col: 1, offset: 56836},
+			pos:  position{line: 1764, col: 1, offset: 57107},
 			expr: &actionExpr{
-				pos: position{line: 1762, col: 5, offset: 56910},
+				pos: position{line: 1766, col: 5, offset: 57181},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1762, col: 5, offset: 56910},
+					pos: position{line: 1766, col: 5, offset: 57181},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1762, col: 5, offset: 56910},
+							pos: position{line: 1766, col: 5, offset: 57181},
 							expr: &seqExpr{
-								pos: position{line: 1762, col: 7, offset: 56912},
+								pos: position{line: 1766, col: 7, offset: 57183},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2808, col: 13, offset: 89234},
+										pos:        position{line: 2812, col: 13, offset: 89505},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1762, col: 16, offset: 56921},
+										pos: position{line: 1766, col: 16, offset: 57192},
 										expr: &seqExpr{
-											pos: position{line: 1762, col: 18, offset: 56923},
+											pos: position{line: 1766, col: 18, offset: 57194},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1762, col: 19, offset: 56924},
+													pos:        position{line: 1766, col: 19, offset: 57195},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2922, col: 11, offset: 92200},
+													pos: position{line: 2926, col: 11, offset: 92471},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2922, col: 11, offset: 92200},
+														pos: position{line: 2926, col: 11, offset: 92471},
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 11, offset: 92200},
+															pos:        position{line: 2926, col: 11, offset: 92471},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38926,88 +38926,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1763, col: 5, offset: 57064},
+							pos:   position{line: 1767, col: 5, offset: 57335},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1763, col: 11, offset: 57070},
+								pos: position{line: 1767, col: 11, offset: 57341},
 								expr: &actionExpr{
-									pos: position{line: 1741, col: 5, offset: 56333},
+									pos: position{line: 1745, col: 5, offset: 56604},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1741, col: 5, offset: 56333},
+										pos: position{line: 1745, col: 5, offset: 56604},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1741, col: 5, offset: 56333},
+												pos: position{line: 1745, col: 5, offset: 56604},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1744, col: 5, offset: 56396},
+												pos:   position{line: 1748, col: 5, offset: 56667},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1744, col: 12, offset: 56403},
+													pos: position{line: 1748, col: 12, offset: 56674},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1744, col: 12, offset: 56403},
+															pos: position{line: 1748, col: 12, offset: 56674},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1744, col: 12, offset: 56403},
+																pos:        position{line: 1748, col: 12, offset: 56674},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1746, col: 13, offset: 56459},
+															pos: position{line: 1750, col: 13, offset: 56730},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1746, col: 13, offset: 56459},
+																pos:        position{line: 1750, col: 13, offset: 56730},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1748, col: 13, offset: 56517},
+															pos: position{line: 1752, col: 13, offset: 56788},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1748, col: 13, offset: 56517},
+																pos:        position{line: 1752, col: 13, offset: 56788},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1750, col: 13, offset: 56585},
+															pos: position{line: 1754, col: 13, offset: 56856},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1750, col: 13, offset: 56585},
+																pos:        position{line: 1754, col: 13, offset: 56856},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1752, col: 13, offset: 56649},
+															pos: position{line: 1756, col: 13, offset: 56920},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1752, col: 13, offset: 56649},
+																pos:        position{line: 1756, col: 13, offset: 56920},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1754, col: 13, offset: 56713},
+															pos: position{line: 1758, col: 13, offset: 56984},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1754, col: 13, offset: 56713},
+																pos: position{line: 1758, col: 13, offset: 56984},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 11, offset: 92200},
+																	pos: position{line: 2926, col: 11, offset: 92471},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2922, col: 11, offset: 92200},
+																		pos: position{line: 2926, col: 11, offset: 92471},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 11, offset: 92200},
+																			pos:        position{line: 2926, col: 11, offset: 92471},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39026,24 +39026,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1764, col: 5, offset: 57092},
+							pos:   position{line: 1768, col: 5, offset: 57363},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1800, col: 5, offset: 58199},
+								pos: position{line: 1804, col: 5, offset: 58470},
 								run: (*parser).callonShortcutParagraph35,
 								expr: &seqExpr{
-									pos: position{line: 1800, col: 5, offset: 58199},
+									pos: position{line: 1804, col: 5, offset: 58470},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1800, col: 5, offset: 58199},
+											pos:   position{line: 1804, col: 5, offset: 58470},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2868, col: 14, offset: 90732},
+												pos: position{line: 2872, col: 14, offset: 91003},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2868, col: 14, offset: 90732},
+													pos: position{line: 2872, col: 14, offset: 91003},
 													expr: &charClassMatcher{
-														pos:        position{line: 2868, col: 14, offset: 90732},
+														pos:        position{line: 2872, col: 14, offset: 91003},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39053,32 +39053,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1801, col: 5, offset: 58223},
+											pos: position{line: 1805, col: 5, offset: 58494},
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2940, col: 8, offset: 92537},
+											pos: position{line: 2944, col: 8, offset: 92808},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2927, col: 12, offset: 92310},
+													pos: position{line: 2931, col: 12, offset: 92581},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2927, col: 13, offset: 92311},
+														pos: position{line: 2931, col: 13, offset: 92582},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2927, col: 13, offset: 92311},
+																pos:        position{line: 2931, col: 13, offset: 92582},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2927, col: 20, offset: 92318},
+																pos:        position{line: 2931, col: 20, offset: 92589},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2927, col: 29, offset: 92327},
+																pos:        position{line: 2931, col: 29, offset: 92598},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39087,9 +39087,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2937, col: 8, offset: 92487},
+													pos: position{line: 2941, col: 8, offset: 92758},
 													expr: &anyMatcher{
-														line: 2937, col: 9, offset: 92488,
+														line: 2941, col: 9, offset: 92759,
 													},
 												},
 											},
@@ -39099,47 +39099,47 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1765, col: 5, offset: 57126},
+							pos: position{line: 1769, col: 5, offset: 57397},
 							run: (*parser).callonShortcutParagraph50,
 						},
 						&labeledExpr{
-							pos:   position{line: 1772, col: 5, offset: 57456},
+							pos:   position{line: 1776, col: 5, offset: 57727},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1772, col: 16, offset: 57467},
+								pos: position{line: 1776, col: 16, offset: 57738},
 								expr: &actionExpr{
-									pos: position{line: 1773, col: 9, offset: 57477},
+									pos: position{line: 1777, col: 9, offset: 57748},
 									run: (*parser).callonShortcutParagraph53,
 									expr: &seqExpr{
-										pos: position{line: 1773, col: 9, offset: 57477},
+										pos: position{line: 1777, col: 9, offset: 57748},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2935, col: 11, offset: 92473},
+												pos: position{line: 2939, col: 11, offset: 92744},
 												expr: &anyMatcher{
-													line: 2935, col: 13, offset: 92475,
+													line: 2939, col: 13, offset: 92746,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1774, col: 9, offset: 57493},
+												pos: position{line: 1778, col: 9, offset: 57764},
 												expr: &actionExpr{
-													pos: position{line: 686, col: 14, offset: 21901},
+													pos: position{line: 690, col: 14, offset: 22172},
 													run: (*parser).callonShortcutParagraph58,
 													expr: &seqExpr{
-														pos: position{line: 686, col: 14, offset: 21901},
+														pos: position{line: 690, col: 14, offset: 22172},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2935, col: 11, offset: 92473},
+																pos: position{line: 2939, col: 11, offset: 92744},
 																expr: &anyMatcher{
-																	line: 2935, col: 13, offset: 92475,
+																	line: 2939, col: 13, offset: 92746,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 686, col: 21, offset: 21908},
+																pos: position{line: 690, col: 21, offset: 22179},
 																expr: &actionExpr{
-																	pos: position{line: 2918, col: 10, offset: 92139},
+																	pos: position{line: 2922, col: 10, offset: 92410},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2918, col: 10, offset: 92139},
+																		pos:        position{line: 2922, col: 10, offset: 92410},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39148,28 +39148,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2940, col: 8, offset: 92537},
+																pos: position{line: 2944, col: 8, offset: 92808},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2927, col: 12, offset: 92310},
+																		pos: position{line: 2931, col: 12, offset: 92581},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2927, col: 13, offset: 92311},
+																			pos: position{line: 2931, col: 13, offset: 92582},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 13, offset: 92311},
+																					pos:        position{line: 2931, col: 13, offset: 92582},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 20, offset: 92318},
+																					pos:        position{line: 2931, col: 20, offset: 92589},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 29, offset: 92327},
+																					pos:        position{line: 2931, col: 29, offset: 92598},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39178,9 +39178,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92487},
+																		pos: position{line: 2941, col: 8, offset: 92758},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92488,
+																			line: 2941, col: 9, offset: 92759,
 																		},
 																	},
 																},
@@ -39190,24 +39190,24 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1775, col: 9, offset: 57512},
+												pos: position{line: 1779, col: 9, offset: 57783},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1775, col: 10, offset: 57513},
+													pos:  position{line: 1779, col: 10, offset: 57784},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1776, col: 9, offset: 57537},
+												pos: position{line: 1780, col: 9, offset: 57808},
 												expr: &actionExpr{
-													pos: position{line: 733, col: 5, offset: 23454},
+													pos: position{line: 737, col: 5, offset: 23725},
 													run: (*parser).callonShortcutParagraph76,
 													expr: &seqExpr{
-														pos: position{line: 733, col: 5, offset: 23454},
+														pos: position{line: 737, col: 5, offset: 23725},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 733, col: 5, offset: 23454},
+																pos: position{line: 737, col: 5, offset: 23725},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2808, col: 13, offset: 89234},
+																	pos:        position{line: 2812, col: 13, offset: 89505},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -39215,36 +39215,36 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 734, col: 5, offset: 23484},
+																pos:   position{line: 738, col: 5, offset: 23755},
 																label: "delimiter",
 																expr: &choiceExpr{
-																	pos: position{line: 735, col: 9, offset: 23504},
+																	pos: position{line: 739, col: 9, offset: 23775},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 749, col: 5, offset: 23996},
+																			pos: position{line: 753, col: 5, offset: 24267},
 																			run: (*parser).callonShortcutParagraph82,
 																			expr: &seqExpr{
-																				pos: position{line: 749, col: 5, offset: 23996},
+																				pos: position{line: 753, col: 5, offset: 24267},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 749, col: 5, offset: 23996},
+																						pos:   position{line: 753, col: 5, offset: 24267},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 749, col: 16, offset: 24007},
+																							pos: position{line: 753, col: 16, offset: 24278},
 																							run: (*parser).callonShortcutParagraph85,
 																							expr: &seqExpr{
-																								pos: position{line: 749, col: 16, offset: 24007},
+																								pos: position{line: 753, col: 16, offset: 24278},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 749, col: 16, offset: 24007},
+																										pos:        position{line: 753, col: 16, offset: 24278},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 749, col: 23, offset: 24014},
+																										pos: position{line: 753, col: 23, offset: 24285},
 																										expr: &litMatcher{
-																											pos:        position{line: 749, col: 23, offset: 24014},
+																											pos:        position{line: 753, col: 23, offset: 24285},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -39255,12 +39255,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 751, col: 8, offset: 24098},
+																						pos: position{line: 755, col: 8, offset: 24369},
 																						expr: &actionExpr{
-																							pos: position{line: 2918, col: 10, offset: 92139},
+																							pos: position{line: 2922, col: 10, offset: 92410},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2918, col: 10, offset: 92139},
+																								pos:        position{line: 2922, col: 10, offset: 92410},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39269,28 +39269,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92537},
+																						pos: position{line: 2944, col: 8, offset: 92808},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92310},
+																								pos: position{line: 2931, col: 12, offset: 92581},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92311},
+																									pos: position{line: 2931, col: 13, offset: 92582},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92311},
+																											pos:        position{line: 2931, col: 13, offset: 92582},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92318},
+																											pos:        position{line: 2931, col: 20, offset: 92589},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92327},
+																											pos:        position{line: 2931, col: 29, offset: 92598},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39299,9 +39299,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92487},
+																								pos: position{line: 2941, col: 8, offset: 92758},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92488,
+																									line: 2941, col: 9, offset: 92759,
 																								},
 																							},
 																						},
@@ -39310,30 +39310,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 756, col: 5, offset: 24244},
+																			pos: position{line: 760, col: 5, offset: 24515},
 																			run: (*parser).callonShortcutParagraph101,
 																			expr: &seqExpr{
-																				pos: position{line: 756, col: 5, offset: 24244},
+																				pos: position{line: 760, col: 5, offset: 24515},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 756, col: 5, offset: 24244},
+																						pos:   position{line: 760, col: 5, offset: 24515},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 756, col: 16, offset: 24255},
+																							pos: position{line: 760, col: 16, offset: 24526},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &seqExpr{
-																								pos: position{line: 756, col: 16, offset: 24255},
+																								pos: position{line: 760, col: 16, offset: 24526},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 756, col: 16, offset: 24255},
+																										pos:        position{line: 760, col: 16, offset: 24526},
 																										val:        "====",
 																										ignoreCase: false,
 																										want:       "\"====\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 756, col: 23, offset: 24262},
+																										pos: position{line: 760, col: 23, offset: 24533},
 																										expr: &litMatcher{
-																											pos:        position{line: 756, col: 23, offset: 24262},
+																											pos:        position{line: 760, col: 23, offset: 24533},
 																											val:        "=",
 																											ignoreCase: false,
 																											want:       "\"=\"",
@@ -39344,12 +39344,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 758, col: 8, offset: 24346},
+																						pos: position{line: 762, col: 8, offset: 24617},
 																						expr: &actionExpr{
-																							pos: position{line: 2918, col: 10, offset: 92139},
+																							pos: position{line: 2922, col: 10, offset: 92410},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2918, col: 10, offset: 92139},
+																								pos:        position{line: 2922, col: 10, offset: 92410},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39358,28 +39358,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92537},
+																						pos: position{line: 2944, col: 8, offset: 92808},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92310},
+																								pos: position{line: 2931, col: 12, offset: 92581},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92311},
+																									pos: position{line: 2931, col: 13, offset: 92582},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92311},
+																											pos:        position{line: 2931, col: 13, offset: 92582},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92318},
+																											pos:        position{line: 2931, col: 20, offset: 92589},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92327},
+																											pos:        position{line: 2931, col: 29, offset: 92598},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39388,9 +39388,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92487},
+																								pos: position{line: 2941, col: 8, offset: 92758},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92488,
+																									line: 2941, col: 9, offset: 92759,
 																								},
 																							},
 																						},
@@ -39399,27 +39399,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 769, col: 26, offset: 24732},
+																			pos: position{line: 773, col: 26, offset: 25003},
 																			run: (*parser).callonShortcutParagraph120,
 																			expr: &seqExpr{
-																				pos: position{line: 769, col: 26, offset: 24732},
+																				pos: position{line: 773, col: 26, offset: 25003},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 769, col: 26, offset: 24732},
+																						pos:        position{line: 773, col: 26, offset: 25003},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 769, col: 32, offset: 24738},
+																						pos:   position{line: 773, col: 32, offset: 25009},
 																						label: "language",
 																						expr: &actionExpr{
-																							pos: position{line: 773, col: 13, offset: 24868},
+																							pos: position{line: 777, col: 13, offset: 25139},
 																							run: (*parser).callonShortcutParagraph124,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 773, col: 14, offset: 24869},
+																								pos: position{line: 777, col: 14, offset: 25140},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 773, col: 14, offset: 24869},
+																									pos:        position{line: 777, col: 14, offset: 25140},
 																									val:        "[^\\r\\n` ]",
 																									chars:      []rune{'\r', '\n', '`', ' '},
 																									ignoreCase: false,
@@ -39429,12 +39429,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 769, col: 52, offset: 24758},
+																						pos: position{line: 773, col: 52, offset: 25029},
 																						expr: &actionExpr{
-																							pos: position{line: 2918, col: 10, offset: 92139},
+																							pos: position{line: 2922, col: 10, offset: 92410},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2918, col: 10, offset: 92139},
+																								pos:        position{line: 2922, col: 10, offset: 92410},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39443,28 +39443,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92537},
+																						pos: position{line: 2944, col: 8, offset: 92808},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92310},
+																								pos: position{line: 2931, col: 12, offset: 92581},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92311},
+																									pos: position{line: 2931, col: 13, offset: 92582},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92311},
+																											pos:        position{line: 2931, col: 13, offset: 92582},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92318},
+																											pos:        position{line: 2931, col: 20, offset: 92589},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92327},
+																											pos:        position{line: 2931, col: 29, offset: 92598},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39473,9 +39473,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92487},
+																								pos: position{line: 2941, col: 8, offset: 92758},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92488,
+																									line: 2941, col: 9, offset: 92759,
 																								},
 																							},
 																						},
@@ -39484,30 +39484,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 763, col: 5, offset: 24491},
+																			pos: position{line: 767, col: 5, offset: 24762},
 																			run: (*parser).callonShortcutParagraph138,
 																			expr: &seqExpr{
-																				pos: position{line: 763, col: 5, offset: 24491},
+																				pos: position{line: 767, col: 5, offset: 24762},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 763, col: 5, offset: 24491},
+																						pos:   position{line: 767, col: 5, offset: 24762},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 763, col: 16, offset: 24502},
+																							pos: position{line: 767, col: 16, offset: 24773},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &seqExpr{
-																								pos: position{line: 763, col: 16, offset: 24502},
+																								pos: position{line: 767, col: 16, offset: 24773},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 763, col: 16, offset: 24502},
+																										pos:        position{line: 767, col: 16, offset: 24773},
 																										val:        "```",
 																										ignoreCase: false,
 																										want:       "\"```\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 763, col: 22, offset: 24508},
+																										pos: position{line: 767, col: 22, offset: 24779},
 																										expr: &litMatcher{
-																											pos:        position{line: 763, col: 22, offset: 24508},
+																											pos:        position{line: 767, col: 22, offset: 24779},
 																											val:        "`",
 																											ignoreCase: false,
 																											want:       "\"`\"",
@@ -39518,12 +39518,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 765, col: 8, offset: 24592},
+																						pos: position{line: 769, col: 8, offset: 24863},
 																						expr: &actionExpr{
-																							pos: position{line: 2918, col: 10, offset: 92139},
+																							pos: position{line: 2922, col: 10, offset: 92410},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2918, col: 10, offset: 92139},
+																								pos:        position{line: 2922, col: 10, offset: 92410},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39532,28 +39532,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92537},
+																						pos: position{line: 2944, col: 8, offset: 92808},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92310},
+																								pos: position{line: 2931, col: 12, offset: 92581},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92311},
+																									pos: position{line: 2931, col: 13, offset: 92582},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92311},
+																											pos:        position{line: 2931, col: 13, offset: 92582},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92318},
+																											pos:        position{line: 2931, col: 20, offset: 92589},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92327},
+																											pos:        position{line: 2931, col: 29, offset: 92598},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39562,9 +39562,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92487},
+																								pos: position{line: 2941, col: 8, offset: 92758},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92488,
+																									line: 2941, col: 9, offset: 92759,
 																								},
 																							},
 																						},
@@ -39573,30 +39573,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 778, col: 5, offset: 25028},
+																			pos: position{line: 782, col: 5, offset: 25299},
 																			run: (*parser).callonShortcutParagraph157,
 																			expr: &seqExpr{
-																				pos: position{line: 778, col: 5, offset: 25028},
+																				pos: position{line: 782, col: 5, offset: 25299},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 778, col: 5, offset: 25028},
+																						pos:   position{line: 782, col: 5, offset: 25299},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 778, col: 16, offset: 25039},
+																							pos: position{line: 782, col: 16, offset: 25310},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &seqExpr{
-																								pos: position{line: 778, col: 16, offset: 25039},
+																								pos: position{line: 782, col: 16, offset: 25310},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 778, col: 16, offset: 25039},
+																										pos:        position{line: 782, col: 16, offset: 25310},
 																										val:        "----",
 																										ignoreCase: false,
 																										want:       "\"----\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 778, col: 23, offset: 25046},
+																										pos: position{line: 782, col: 23, offset: 25317},
 																										expr: &litMatcher{
-																											pos:        position{line: 778, col: 23, offset: 25046},
+																											pos:        position{line: 782, col: 23, offset: 25317},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
@@ -39607,12 +39607,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 780, col: 8, offset: 25130},
+																						pos: position{line: 784, col: 8, offset: 25401},
 																						expr: &actionExpr{
-																							pos: position{line: 2918, col: 10, offset: 92139},
+																							pos: position{line: 2922, col: 10, offset: 92410},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2918, col: 10, offset: 92139},
+																								pos:        position{line: 2922, col: 10, offset: 92410},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39621,28 +39621,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92537},
+																						pos: position{line: 2944, col: 8, offset: 92808},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92310},
+																								pos: position{line: 2931, col: 12, offset: 92581},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92311},
+																									pos: position{line: 2931, col: 13, offset: 92582},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92311},
+																											pos:        position{line: 2931, col: 13, offset: 92582},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92318},
+																											pos:        position{line: 2931, col: 20, offset: 92589},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92327},
+																											pos:        position{line: 2931, col: 29, offset: 92598},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39651,9 +39651,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92487},
+																								pos: position{line: 2941, col: 8, offset: 92758},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92488,
+																									line: 2941, col: 9, offset: 92759,
 																								},
 																							},
 																						},
@@ -39662,30 +39662,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 792, col: 5, offset: 25504},
+																			pos: position{line: 796, col: 5, offset: 25775},
 																			run: (*parser).callonShortcutParagraph176,
 																			expr: &seqExpr{
-																				pos: position{line: 792, col: 5, offset: 25504},
+																				pos: position{line: 796, col: 5, offset: 25775},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 792, col: 5, offset: 25504},
+																						pos:   position{line: 796, col: 5, offset: 25775},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 792, col: 16, offset: 25515},
+																							pos: position{line: 796, col: 16, offset: 25786},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &seqExpr{
-																								pos: position{line: 792, col: 16, offset: 25515},
+																								pos: position{line: 796, col: 16, offset: 25786},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 792, col: 16, offset: 25515},
+																										pos:        position{line: 796, col: 16, offset: 25786},
 																										val:        "....",
 																										ignoreCase: false,
 																										want:       "\"....\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 792, col: 23, offset: 25522},
+																										pos: position{line: 796, col: 23, offset: 25793},
 																										expr: &litMatcher{
-																											pos:        position{line: 792, col: 23, offset: 25522},
+																											pos:        position{line: 796, col: 23, offset: 25793},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -39696,12 +39696,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 794, col: 8, offset: 25606},
+																						pos: position{line: 798, col: 8, offset: 25877},
 																						expr: &actionExpr{
-																							pos: position{line: 2918, col: 10, offset: 92139},
+																							pos: position{line: 2922, col: 10, offset: 92410},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2918, col: 10, offset: 92139},
+																								pos:        position{line: 2922, col: 10, offset: 92410},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39710,28 +39710,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92537},
+																						pos: position{line: 2944, col: 8, offset: 92808},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92310},
+																								pos: position{line: 2931, col: 12, offset: 92581},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92311},
+																									pos: position{line: 2931, col: 13, offset: 92582},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92311},
+																											pos:        position{line: 2931, col: 13, offset: 92582},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92318},
+																											pos:        position{line: 2931, col: 20, offset: 92589},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92327},
+																											pos:        position{line: 2931, col: 29, offset: 92598},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39740,9 +39740,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92487},
+																								pos: position{line: 2941, col: 8, offset: 92758},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92488,
+																									line: 2941, col: 9, offset: 92759,
 																								},
 																							},
 																						},
@@ -39751,30 +39751,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 799, col: 5, offset: 25756},
+																			pos: position{line: 803, col: 5, offset: 26027},
 																			run: (*parser).callonShortcutParagraph195,
 																			expr: &seqExpr{
-																				pos: position{line: 799, col: 5, offset: 25756},
+																				pos: position{line: 803, col: 5, offset: 26027},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 799, col: 5, offset: 25756},
+																						pos:   position{line: 803, col: 5, offset: 26027},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 799, col: 16, offset: 25767},
+																							pos: position{line: 803, col: 16, offset: 26038},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &seqExpr{
-																								pos: position{line: 799, col: 16, offset: 25767},
+																								pos: position{line: 803, col: 16, offset: 26038},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 799, col: 16, offset: 25767},
+																										pos:        position{line: 803, col: 16, offset: 26038},
 																										val:        "++++",
 																										ignoreCase: false,
 																										want:       "\"++++\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 799, col: 23, offset: 25774},
+																										pos: position{line: 803, col: 23, offset: 26045},
 																										expr: &litMatcher{
-																											pos:        position{line: 799, col: 23, offset: 25774},
+																											pos:        position{line: 803, col: 23, offset: 26045},
 																											val:        "+",
 																											ignoreCase: false,
 																											want:       "\"+\"",
@@ -39785,12 +39785,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 801, col: 8, offset: 25858},
+																						pos: position{line: 805, col: 8, offset: 26129},
 																						expr: &actionExpr{
-																							pos: position{line: 2918, col: 10, offset: 92139},
+																							pos: position{line: 2922, col: 10, offset: 92410},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2918, col: 10, offset: 92139},
+																								pos:        position{line: 2922, col: 10, offset: 92410},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39799,28 +39799,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92537},
+																						pos: position{line: 2944, col: 8, offset: 92808},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92310},
+																								pos: position{line: 2931, col: 12, offset: 92581},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92311},
+																									pos: position{line: 2931, col: 13, offset: 92582},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92311},
+																											pos:        position{line: 2931, col: 13, offset: 92582},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92318},
+																											pos:        position{line: 2931, col: 20, offset: 92589},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92327},
+																											pos:        position{line: 2931, col: 29, offset: 92598},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39829,9 +39829,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92487},
+																								pos: position{line: 2941, col: 8, offset: 92758},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92488,
+																									line: 2941, col: 9, offset: 92759,
 																								},
 																							},
 																						},
@@ -39840,30 +39840,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 806, col: 5, offset: 26006},
+																			pos: position{line: 810, col: 5, offset: 26277},
 																			run: (*parser).callonShortcutParagraph214,
 																			expr: &seqExpr{
-																				pos: position{line: 806, col: 5, offset: 26006},
+																				pos: position{line: 810, col: 5, offset: 26277},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 806, col: 5, offset: 26006},
+																						pos:   position{line: 810, col: 5, offset: 26277},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 806, col: 16, offset: 26017},
+																							pos: position{line: 810, col: 16, offset: 26288},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &seqExpr{
-																								pos: position{line: 806, col: 16, offset: 26017},
+																								pos: position{line: 810, col: 16, offset: 26288},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 806, col: 16, offset: 26017},
+																										pos:        position{line: 810, col: 16, offset: 26288},
 																										val:        "____",
 																										ignoreCase: false,
 																										want:       "\"____\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 806, col: 23, offset: 26024},
+																										pos: position{line: 810, col: 23, offset: 26295},
 																										expr: &litMatcher{
-																											pos:        position{line: 806, col: 23, offset: 26024},
+																											pos:        position{line: 810, col: 23, offset: 26295},
 																											val:        "_",
 																											ignoreCase: false,
 																											want:       "\"_\"",
@@ -39874,12 +39874,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 808, col: 8, offset: 26108},
+																						pos: position{line: 812, col: 8, offset: 26379},
 																						expr: &actionExpr{
-																							pos: position{line: 2918, col: 10, offset: 92139},
+																							pos: position{line: 2922, col: 10, offset: 92410},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2918, col: 10, offset: 92139},
+																								pos:        position{line: 2922, col: 10, offset: 92410},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39888,28 +39888,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92537},
+																						pos: position{line: 2944, col: 8, offset: 92808},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92310},
+																								pos: position{line: 2931, col: 12, offset: 92581},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92311},
+																									pos: position{line: 2931, col: 13, offset: 92582},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92311},
+																											pos:        position{line: 2931, col: 13, offset: 92582},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92318},
+																											pos:        position{line: 2931, col: 20, offset: 92589},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92327},
+																											pos:        position{line: 2931, col: 29, offset: 92598},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39918,9 +39918,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92487},
+																								pos: position{line: 2941, col: 8, offset: 92758},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92488,
+																									line: 2941, col: 9, offset: 92759,
 																								},
 																							},
 																						},
@@ -39929,30 +39929,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 813, col: 5, offset: 26252},
+																			pos: position{line: 817, col: 5, offset: 26523},
 																			run: (*parser).callonShortcutParagraph233,
 																			expr: &seqExpr{
-																				pos: position{line: 813, col: 5, offset: 26252},
+																				pos: position{line: 817, col: 5, offset: 26523},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26252},
+																						pos:   position{line: 817, col: 5, offset: 26523},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 813, col: 16, offset: 26263},
+																							pos: position{line: 817, col: 16, offset: 26534},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &seqExpr{
-																								pos: position{line: 813, col: 16, offset: 26263},
+																								pos: position{line: 817, col: 16, offset: 26534},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 813, col: 16, offset: 26263},
+																										pos:        position{line: 817, col: 16, offset: 26534},
 																										val:        "****",
 																										ignoreCase: false,
 																										want:       "\"****\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 813, col: 23, offset: 26270},
+																										pos: position{line: 817, col: 23, offset: 26541},
 																										expr: &litMatcher{
-																											pos:        position{line: 813, col: 23, offset: 26270},
+																											pos:        position{line: 817, col: 23, offset: 26541},
 																											val:        "*",
 																											ignoreCase: false,
 																											want:       "\"*\"",
@@ -39963,12 +39963,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 815, col: 8, offset: 26354},
+																						pos: position{line: 819, col: 8, offset: 26625},
 																						expr: &actionExpr{
-																							pos: position{line: 2918, col: 10, offset: 92139},
+																							pos: position{line: 2922, col: 10, offset: 92410},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2918, col: 10, offset: 92139},
+																								pos:        position{line: 2922, col: 10, offset: 92410},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39977,28 +39977,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92537},
+																						pos: position{line: 2944, col: 8, offset: 92808},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92310},
+																								pos: position{line: 2931, col: 12, offset: 92581},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92311},
+																									pos: position{line: 2931, col: 13, offset: 92582},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92311},
+																											pos:        position{line: 2931, col: 13, offset: 92582},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92318},
+																											pos:        position{line: 2931, col: 20, offset: 92589},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92327},
+																											pos:        position{line: 2931, col: 29, offset: 92598},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40007,9 +40007,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92487},
+																								pos: position{line: 2941, col: 8, offset: 92758},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92488,
+																									line: 2941, col: 9, offset: 92759,
 																								},
 																							},
 																						},
@@ -40025,23 +40025,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1777, col: 9, offset: 57561},
+												pos: position{line: 1781, col: 9, offset: 57832},
 												expr: &seqExpr{
-													pos: position{line: 1551, col: 27, offset: 50198},
+													pos: position{line: 1555, col: 27, offset: 50469},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1551, col: 27, offset: 50198},
+															pos:        position{line: 1555, col: 27, offset: 50469},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1551, col: 31, offset: 50202},
+															pos: position{line: 1555, col: 31, offset: 50473},
 															expr: &actionExpr{
-																pos: position{line: 2918, col: 10, offset: 92139},
+																pos: position{line: 2922, col: 10, offset: 92410},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2918, col: 10, offset: 92139},
+																	pos:        position{line: 2922, col: 10, offset: 92410},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40050,25 +40050,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92310},
+															pos: position{line: 2931, col: 12, offset: 92581},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92311},
+																pos: position{line: 2931, col: 13, offset: 92582},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92311},
+																		pos:        position{line: 2931, col: 13, offset: 92582},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92318},
+																		pos:        position{line: 2931, col: 20, offset: 92589},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92327},
+																		pos:        position{line: 2931, col: 29, offset: 92598},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40080,42 +40080,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1778, col: 9, offset: 57593},
+												pos:   position{line: 1782, col: 9, offset: 57864},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1778, col: 15, offset: 57599},
+													pos: position{line: 1782, col: 15, offset: 57870},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2521, col: 22, offset: 80917},
+															pos: position{line: 2525, col: 22, offset: 81188},
 															run: (*parser).callonShortcutParagraph265,
 															expr: &seqExpr{
-																pos: position{line: 2521, col: 22, offset: 80917},
+																pos: position{line: 2525, col: 22, offset: 81188},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2526, col: 31, offset: 81167},
+																		pos:        position{line: 2530, col: 31, offset: 81438},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2526, col: 36, offset: 81172},
+																		pos: position{line: 2530, col: 36, offset: 81443},
 																		expr: &litMatcher{
-																			pos:        position{line: 2526, col: 37, offset: 81173},
+																			pos:        position{line: 2530, col: 37, offset: 81444},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2521, col: 49, offset: 80944},
+																		pos:   position{line: 2525, col: 49, offset: 81215},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 13, offset: 90665},
+																			pos: position{line: 2868, col: 13, offset: 90936},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2864, col: 13, offset: 90665},
+																				pos: position{line: 2868, col: 13, offset: 90936},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 13, offset: 90665},
+																					pos:        position{line: 2868, col: 13, offset: 90936},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40125,28 +40125,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92537},
+																		pos: position{line: 2944, col: 8, offset: 92808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40155,9 +40155,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92487},
+																				pos: position{line: 2941, col: 8, offset: 92758},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92488,
+																					line: 2941, col: 9, offset: 92759,
 																				},
 																			},
 																		},
@@ -40166,21 +40166,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1800, col: 5, offset: 58199},
+															pos: position{line: 1804, col: 5, offset: 58470},
 															run: (*parser).callonShortcutParagraph282,
 															expr: &seqExpr{
-																pos: position{line: 1800, col: 5, offset: 58199},
+																pos: position{line: 1804, col: 5, offset: 58470},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1800, col: 5, offset: 58199},
+																		pos:   position{line: 1804, col: 5, offset: 58470},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 14, offset: 90732},
+																			pos: position{line: 2872, col: 14, offset: 91003},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2868, col: 14, offset: 90732},
+																				pos: position{line: 2872, col: 14, offset: 91003},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 14, offset: 90732},
+																					pos:        position{line: 2872, col: 14, offset: 91003},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40190,32 +40190,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1801, col: 5, offset: 58223},
+																		pos: position{line: 1805, col: 5, offset: 58494},
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92537},
+																		pos: position{line: 2944, col: 8, offset: 92808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40224,9 +40224,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92487},
+																				pos: position{line: 2941, col: 8, offset: 92758},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92488,
+																					line: 2941, col: 9, offset: 92759,
 																				},
 																			},
 																		},
@@ -40248,96 +40248,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1785, col: 1, offset: 57803},
+			pos:  position{line: 1789, col: 1, offset: 58074},
 			expr: &actionExpr{
-				pos: position{line: 1786, col: 5, offset: 57821},
+				pos: position{line: 1790, col: 5, offset: 58092},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1786, col: 5, offset: 57821},
+					pos: position{line: 1790, col: 5, offset: 58092},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1786, col: 5, offset: 57821},
+							pos:   position{line: 1790, col: 5, offset: 58092},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1786, col: 11, offset: 57827},
+								pos: position{line: 1790, col: 11, offset: 58098},
 								expr: &actionExpr{
-									pos: position{line: 1741, col: 5, offset: 56333},
+									pos: position{line: 1745, col: 5, offset: 56604},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1741, col: 5, offset: 56333},
+										pos: position{line: 1745, col: 5, offset: 56604},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1741, col: 5, offset: 56333},
+												pos: position{line: 1745, col: 5, offset: 56604},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1744, col: 5, offset: 56396},
+												pos:   position{line: 1748, col: 5, offset: 56667},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1744, col: 12, offset: 56403},
+													pos: position{line: 1748, col: 12, offset: 56674},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1744, col: 12, offset: 56403},
+															pos: position{line: 1748, col: 12, offset: 56674},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1744, col: 12, offset: 56403},
+																pos:        position{line: 1748, col: 12, offset: 56674},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1746, col: 13, offset: 56459},
+															pos: position{line: 1750, col: 13, offset: 56730},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1746, col: 13, offset: 56459},
+																pos:        position{line: 1750, col: 13, offset: 56730},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1748, col: 13, offset: 56517},
+															pos: position{line: 1752, col: 13, offset: 56788},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1748, col: 13, offset: 56517},
+																pos:        position{line: 1752, col: 13, offset: 56788},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1750, col: 13, offset: 56585},
+															pos: position{line: 1754, col: 13, offset: 56856},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1750, col: 13, offset: 56585},
+																pos:        position{line: 1754, col: 13, offset: 56856},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1752, col: 13, offset: 56649},
+															pos: position{line: 1756, col: 13, offset: 56920},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1752, col: 13, offset: 56649},
+																pos:        position{line: 1756, col: 13, offset: 56920},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1754, col: 13, offset: 56713},
+															pos: position{line: 1758, col: 13, offset: 56984},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1754, col: 13, offset: 56713},
+																pos: position{line: 1758, col: 13, offset: 56984},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 11, offset: 92200},
+																	pos: position{line: 2926, col: 11, offset: 92471},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2922, col: 11, offset: 92200},
+																		pos: position{line: 2926, col: 11, offset: 92471},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 11, offset: 92200},
+																			pos:        position{line: 2926, col: 11, offset: 92471},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40356,24 +40356,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1787, col: 5, offset: 57850},
+							pos:   position{line: 1791, col: 5, offset: 58121},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1800, col: 5, offset: 58199},
+								pos: position{line: 1804, col: 5, offset: 58470},
 								run: (*parser).callonParagraph26,
 								expr: &seqExpr{
-									pos: position{line: 1800, col: 5, offset: 58199},
+									pos: position{line: 1804, col: 5, offset: 58470},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1800, col: 5, offset: 58199},
+											pos:   position{line: 1804, col: 5, offset: 58470},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2868, col: 14, offset: 90732},
+												pos: position{line: 2872, col: 14, offset: 91003},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2868, col: 14, offset: 90732},
+													pos: position{line: 2872, col: 14, offset: 91003},
 													expr: &charClassMatcher{
-														pos:        position{line: 2868, col: 14, offset: 90732},
+														pos:        position{line: 2872, col: 14, offset: 91003},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40383,32 +40383,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1801, col: 5, offset: 58223},
+											pos: position{line: 1805, col: 5, offset: 58494},
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2940, col: 8, offset: 92537},
+											pos: position{line: 2944, col: 8, offset: 92808},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2927, col: 12, offset: 92310},
+													pos: position{line: 2931, col: 12, offset: 92581},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2927, col: 13, offset: 92311},
+														pos: position{line: 2931, col: 13, offset: 92582},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2927, col: 13, offset: 92311},
+																pos:        position{line: 2931, col: 13, offset: 92582},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2927, col: 20, offset: 92318},
+																pos:        position{line: 2931, col: 20, offset: 92589},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2927, col: 29, offset: 92327},
+																pos:        position{line: 2931, col: 29, offset: 92598},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40417,9 +40417,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2937, col: 8, offset: 92487},
+													pos: position{line: 2941, col: 8, offset: 92758},
 													expr: &anyMatcher{
-														line: 2937, col: 9, offset: 92488,
+														line: 2941, col: 9, offset: 92759,
 													},
 												},
 											},
@@ -40429,43 +40429,43 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1788, col: 5, offset: 57884},
+							pos:   position{line: 1792, col: 5, offset: 58155},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1788, col: 16, offset: 57895},
+								pos: position{line: 1792, col: 16, offset: 58166},
 								expr: &actionExpr{
-									pos: position{line: 1789, col: 9, offset: 57905},
+									pos: position{line: 1793, col: 9, offset: 58176},
 									run: (*parser).callonParagraph43,
 									expr: &seqExpr{
-										pos: position{line: 1789, col: 9, offset: 57905},
+										pos: position{line: 1793, col: 9, offset: 58176},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2935, col: 11, offset: 92473},
+												pos: position{line: 2939, col: 11, offset: 92744},
 												expr: &anyMatcher{
-													line: 2935, col: 13, offset: 92475,
+													line: 2939, col: 13, offset: 92746,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1790, col: 9, offset: 57920},
+												pos: position{line: 1794, col: 9, offset: 58191},
 												expr: &actionExpr{
-													pos: position{line: 686, col: 14, offset: 21901},
+													pos: position{line: 690, col: 14, offset: 22172},
 													run: (*parser).callonParagraph48,
 													expr: &seqExpr{
-														pos: position{line: 686, col: 14, offset: 21901},
+														pos: position{line: 690, col: 14, offset: 22172},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2935, col: 11, offset: 92473},
+																pos: position{line: 2939, col: 11, offset: 92744},
 																expr: &anyMatcher{
-																	line: 2935, col: 13, offset: 92475,
+																	line: 2939, col: 13, offset: 92746,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 686, col: 21, offset: 21908},
+																pos: position{line: 690, col: 21, offset: 22179},
 																expr: &actionExpr{
-																	pos: position{line: 2918, col: 10, offset: 92139},
+																	pos: position{line: 2922, col: 10, offset: 92410},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2918, col: 10, offset: 92139},
+																		pos:        position{line: 2922, col: 10, offset: 92410},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40474,28 +40474,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2940, col: 8, offset: 92537},
+																pos: position{line: 2944, col: 8, offset: 92808},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2927, col: 12, offset: 92310},
+																		pos: position{line: 2931, col: 12, offset: 92581},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2927, col: 13, offset: 92311},
+																			pos: position{line: 2931, col: 13, offset: 92582},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 13, offset: 92311},
+																					pos:        position{line: 2931, col: 13, offset: 92582},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 20, offset: 92318},
+																					pos:        position{line: 2931, col: 20, offset: 92589},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 29, offset: 92327},
+																					pos:        position{line: 2931, col: 29, offset: 92598},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40504,9 +40504,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92487},
+																		pos: position{line: 2941, col: 8, offset: 92758},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92488,
+																			line: 2941, col: 9, offset: 92759,
 																		},
 																	},
 																},
@@ -40516,49 +40516,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1791, col: 9, offset: 57939},
+												pos: position{line: 1795, col: 9, offset: 58210},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1791, col: 10, offset: 57940},
+													pos:  position{line: 1795, col: 10, offset: 58211},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1792, col: 9, offset: 57964},
+												pos:   position{line: 1796, col: 9, offset: 58235},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1792, col: 15, offset: 57970},
+													pos: position{line: 1796, col: 15, offset: 58241},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2521, col: 22, offset: 80917},
+															pos: position{line: 2525, col: 22, offset: 81188},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 2521, col: 22, offset: 80917},
+																pos: position{line: 2525, col: 22, offset: 81188},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2526, col: 31, offset: 81167},
+																		pos:        position{line: 2530, col: 31, offset: 81438},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2526, col: 36, offset: 81172},
+																		pos: position{line: 2530, col: 36, offset: 81443},
 																		expr: &litMatcher{
-																			pos:        position{line: 2526, col: 37, offset: 81173},
+																			pos:        position{line: 2530, col: 37, offset: 81444},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2521, col: 49, offset: 80944},
+																		pos:   position{line: 2525, col: 49, offset: 81215},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 13, offset: 90665},
+																			pos: position{line: 2868, col: 13, offset: 90936},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2864, col: 13, offset: 90665},
+																				pos: position{line: 2868, col: 13, offset: 90936},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 13, offset: 90665},
+																					pos:        position{line: 2868, col: 13, offset: 90936},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40568,28 +40568,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92537},
+																		pos: position{line: 2944, col: 8, offset: 92808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40598,9 +40598,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92487},
+																				pos: position{line: 2941, col: 8, offset: 92758},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92488,
+																					line: 2941, col: 9, offset: 92759,
 																				},
 																			},
 																		},
@@ -40609,21 +40609,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1800, col: 5, offset: 58199},
+															pos: position{line: 1804, col: 5, offset: 58470},
 															run: (*parser).callonParagraph84,
 															expr: &seqExpr{
-																pos: position{line: 1800, col: 5, offset: 58199},
+																pos: position{line: 1804, col: 5, offset: 58470},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1800, col: 5, offset: 58199},
+																		pos:   position{line: 1804, col: 5, offset: 58470},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 14, offset: 90732},
+																			pos: position{line: 2872, col: 14, offset: 91003},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2868, col: 14, offset: 90732},
+																				pos: position{line: 2872, col: 14, offset: 91003},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 14, offset: 90732},
+																					pos:        position{line: 2872, col: 14, offset: 91003},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40633,32 +40633,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1801, col: 5, offset: 58223},
+																		pos: position{line: 1805, col: 5, offset: 58494},
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92537},
+																		pos: position{line: 2944, col: 8, offset: 92808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40667,9 +40667,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92487},
+																				pos: position{line: 2941, col: 8, offset: 92758},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92488,
+																					line: 2941, col: 9, offset: 92759,
 																				},
 																			},
 																		},
@@ -40691,16 +40691,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1811, col: 1, offset: 58709},
+			pos:  position{line: 1815, col: 1, offset: 58980},
 			expr: &choiceExpr{
-				pos: position{line: 1811, col: 15, offset: 58723},
+				pos: position{line: 1815, col: 15, offset: 58994},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1811, col: 15, offset: 58723},
+						pos:  position{line: 1815, col: 15, offset: 58994},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1811, col: 35, offset: 58743},
+						pos:  position{line: 1815, col: 35, offset: 59014},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -40708,65 +40708,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1813, col: 1, offset: 58764},
+			pos:  position{line: 1817, col: 1, offset: 59035},
 			expr: &actionExpr{
-				pos: position{line: 1814, col: 5, offset: 58789},
+				pos: position{line: 1818, col: 5, offset: 59060},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1814, col: 5, offset: 58789},
+					pos: position{line: 1818, col: 5, offset: 59060},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1814, col: 5, offset: 58789},
+							pos:   position{line: 1818, col: 5, offset: 59060},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1814, col: 16, offset: 58800},
+								pos: position{line: 1818, col: 16, offset: 59071},
 								expr: &actionExpr{
-									pos: position{line: 1814, col: 17, offset: 58801},
+									pos: position{line: 1818, col: 17, offset: 59072},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1814, col: 17, offset: 58801},
+										pos:  position{line: 1818, col: 17, offset: 59072},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1817, col: 5, offset: 58869},
+							pos: position{line: 1821, col: 5, offset: 59140},
 							expr: &litMatcher{
-								pos:        position{line: 1817, col: 7, offset: 58871},
+								pos:        position{line: 1821, col: 7, offset: 59142},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1818, col: 5, offset: 58880},
+							pos:   position{line: 1822, col: 5, offset: 59151},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1819, col: 9, offset: 58898},
+								pos: position{line: 1823, col: 9, offset: 59169},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1819, col: 9, offset: 58898},
+										pos:  position{line: 1823, col: 9, offset: 59169},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1820, col: 11, offset: 58925},
+										pos:  position{line: 1824, col: 11, offset: 59196},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1821, col: 11, offset: 58953},
+										pos:  position{line: 1825, col: 11, offset: 59224},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1822, col: 11, offset: 58984},
+										pos:  position{line: 1826, col: 11, offset: 59255},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1823, col: 11, offset: 59012},
+										pos:  position{line: 1827, col: 11, offset: 59283},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1824, col: 11, offset: 59043},
+										pos:  position{line: 1828, col: 11, offset: 59314},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -40778,36 +40778,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1829, col: 1, offset: 59163},
+			pos:  position{line: 1833, col: 1, offset: 59434},
 			expr: &actionExpr{
-				pos: position{line: 1830, col: 5, offset: 59205},
+				pos: position{line: 1834, col: 5, offset: 59476},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1830, col: 5, offset: 59205},
+					pos: position{line: 1834, col: 5, offset: 59476},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1830, col: 5, offset: 59205},
+							pos:   position{line: 1834, col: 5, offset: 59476},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1830, col: 16, offset: 59216},
+								pos: position{line: 1834, col: 16, offset: 59487},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1830, col: 17, offset: 59217},
+									pos:  position{line: 1834, col: 17, offset: 59488},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1831, col: 5, offset: 59242},
+							pos:   position{line: 1835, col: 5, offset: 59513},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1831, col: 14, offset: 59251},
+								pos: position{line: 1835, col: 14, offset: 59522},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1831, col: 14, offset: 59251},
+										pos:  position{line: 1835, col: 14, offset: 59522},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1831, col: 33, offset: 59270},
+										pos:  position{line: 1835, col: 33, offset: 59541},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -40819,32 +40819,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1839, col: 1, offset: 59501},
+			pos:  position{line: 1843, col: 1, offset: 59772},
 			expr: &choiceExpr{
-				pos: position{line: 1840, col: 5, offset: 59526},
+				pos: position{line: 1844, col: 5, offset: 59797},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1840, col: 5, offset: 59526},
+						pos:  position{line: 1844, col: 5, offset: 59797},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1841, col: 7, offset: 59553},
+						pos:  position{line: 1845, col: 7, offset: 59824},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1842, col: 7, offset: 59581},
+						pos:  position{line: 1846, col: 7, offset: 59852},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1843, col: 7, offset: 59613},
+						pos:  position{line: 1847, col: 7, offset: 59884},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1844, col: 7, offset: 59641},
+						pos:  position{line: 1848, col: 7, offset: 59912},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1845, col: 7, offset: 59662},
+						pos:  position{line: 1849, col: 7, offset: 59933},
 						name: "SuperscriptText",
 					},
 				},
@@ -40852,24 +40852,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1847, col: 1, offset: 59680},
+			pos:  position{line: 1851, col: 1, offset: 59951},
 			expr: &choiceExpr{
-				pos: position{line: 1848, col: 5, offset: 59705},
+				pos: position{line: 1852, col: 5, offset: 59976},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1848, col: 5, offset: 59705},
+						pos:  position{line: 1852, col: 5, offset: 59976},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1849, col: 7, offset: 59731},
+						pos:  position{line: 1853, col: 7, offset: 60002},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1850, col: 7, offset: 59759},
+						pos:  position{line: 1854, col: 7, offset: 60030},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1851, col: 7, offset: 59790},
+						pos:  position{line: 1855, col: 7, offset: 60061},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -40877,26 +40877,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1865, col: 1, offset: 60144},
+			pos:  position{line: 1869, col: 1, offset: 60415},
 			expr: &choiceExpr{
-				pos: position{line: 1866, col: 5, offset: 60170},
+				pos: position{line: 1870, col: 5, offset: 60441},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2817, col: 5, offset: 89381},
+						pos: position{line: 2821, col: 5, offset: 89652},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2817, col: 5, offset: 89381},
+							pos: position{line: 2821, col: 5, offset: 89652},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2817, col: 5, offset: 89381},
+									pos:   position{line: 2821, col: 5, offset: 89652},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2817, col: 11, offset: 89387},
+										pos: position{line: 2821, col: 11, offset: 89658},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2817, col: 11, offset: 89387},
+											pos: position{line: 2821, col: 11, offset: 89658},
 											expr: &charClassMatcher{
-												pos:        position{line: 2817, col: 11, offset: 89387},
+												pos:        position{line: 2821, col: 11, offset: 89658},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40906,36 +40906,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2820, col: 5, offset: 89445},
+									pos: position{line: 2824, col: 5, offset: 89716},
 									expr: &seqExpr{
-										pos: position{line: 2821, col: 9, offset: 89456},
+										pos: position{line: 2825, col: 9, offset: 89727},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2821, col: 9, offset: 89456},
+												pos:        position{line: 2825, col: 9, offset: 89727},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2822, col: 9, offset: 89505},
+												pos: position{line: 2826, col: 9, offset: 89776},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2826, col: 5, offset: 89585},
+									pos: position{line: 2830, col: 5, offset: 89856},
 									expr: &seqExpr{
-										pos: position{line: 2827, col: 9, offset: 89596},
+										pos: position{line: 2831, col: 9, offset: 89867},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2827, col: 9, offset: 89596},
+												pos:        position{line: 2831, col: 9, offset: 89867},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2827, col: 13, offset: 89600},
+												pos:        position{line: 2831, col: 13, offset: 89871},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40948,12 +40948,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2922, col: 11, offset: 92200},
+						pos: position{line: 2926, col: 11, offset: 92471},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2922, col: 11, offset: 92200},
+							pos: position{line: 2926, col: 11, offset: 92471},
 							expr: &charClassMatcher{
-								pos:        position{line: 2922, col: 11, offset: 92200},
+								pos:        position{line: 2926, col: 11, offset: 92471},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -40962,25 +40962,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1868, col: 7, offset: 60233},
+						pos:  position{line: 1872, col: 7, offset: 60504},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2539, col: 5, offset: 81662},
+						pos: position{line: 2543, col: 5, offset: 81933},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2539, col: 5, offset: 81662},
+							pos: position{line: 2543, col: 5, offset: 81933},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2539, col: 5, offset: 81662},
+									pos:        position{line: 2543, col: 5, offset: 81933},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2539, col: 10, offset: 81667},
+									pos: position{line: 2543, col: 10, offset: 81938},
 									expr: &charClassMatcher{
-										pos:        position{line: 2539, col: 11, offset: 81668},
+										pos:        position{line: 2543, col: 11, offset: 81939},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40991,29 +40991,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2545, col: 5, offset: 81860},
+						pos: position{line: 2549, col: 5, offset: 82131},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2545, col: 5, offset: 81860},
+							pos: position{line: 2549, col: 5, offset: 82131},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2545, col: 5, offset: 81860},
+									pos: position{line: 2549, col: 5, offset: 82131},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2548, col: 5, offset: 81931},
+									pos: position{line: 2552, col: 5, offset: 82202},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2552, col: 5, offset: 82056},
+									pos:        position{line: 2556, col: 5, offset: 82327},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2552, col: 9, offset: 82060},
+									pos: position{line: 2556, col: 9, offset: 82331},
 									expr: &charClassMatcher{
-										pos:        position{line: 2552, col: 10, offset: 82061},
+										pos:        position{line: 2556, col: 10, offset: 82332},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41024,27 +41024,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2835, col: 5, offset: 89793},
+						pos: position{line: 2839, col: 5, offset: 90064},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2836, col: 9, offset: 89803},
+							pos: position{line: 2840, col: 9, offset: 90074},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2836, col: 10, offset: 89804},
+									pos:        position{line: 2840, col: 10, offset: 90075},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2838, col: 13, offset: 89901},
+									pos: position{line: 2842, col: 13, offset: 90172},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2838, col: 13, offset: 89901},
+											pos: position{line: 2842, col: 13, offset: 90172},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2841, col: 13, offset: 90001},
+											pos:        position{line: 2845, col: 13, offset: 90272},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -41052,20 +41052,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2841, col: 19, offset: 90007},
+									pos:        position{line: 2845, col: 19, offset: 90278},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2844, col: 13, offset: 90045},
+									pos: position{line: 2848, col: 13, offset: 90316},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2844, col: 13, offset: 90045},
+											pos: position{line: 2848, col: 13, offset: 90316},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2847, col: 14, offset: 90138},
+											pos:        position{line: 2851, col: 14, offset: 90409},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -41074,18 +41074,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2849, col: 12, offset: 90182},
+									pos: position{line: 2853, col: 12, offset: 90453},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2849, col: 12, offset: 90182},
+											pos:        position{line: 2853, col: 12, offset: 90453},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2849, col: 16, offset: 90186},
+											pos: position{line: 2853, col: 16, offset: 90457},
 											expr: &litMatcher{
-												pos:        position{line: 2849, col: 17, offset: 90187},
+												pos:        position{line: 2853, col: 17, offset: 90458},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -41097,35 +41097,35 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 645, col: 5, offset: 20519},
+						pos: position{line: 649, col: 5, offset: 20790},
 						run: (*parser).callonQuotedTextElement46,
 						expr: &seqExpr{
-							pos: position{line: 645, col: 5, offset: 20519},
+							pos: position{line: 649, col: 5, offset: 20790},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 645, col: 5, offset: 20519},
+									pos: position{line: 649, col: 5, offset: 20790},
 									run: (*parser).callonQuotedTextElement48,
 								},
 								&labeledExpr{
-									pos:   position{line: 648, col: 5, offset: 20591},
+									pos:   position{line: 652, col: 5, offset: 20862},
 									label: "element",
 									expr: &choiceExpr{
-										pos: position{line: 648, col: 14, offset: 20600},
+										pos: position{line: 652, col: 14, offset: 20871},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 654, col: 5, offset: 20729},
+												pos: position{line: 658, col: 5, offset: 21000},
 												run: (*parser).callonQuotedTextElement51,
 												expr: &seqExpr{
-													pos: position{line: 654, col: 5, offset: 20729},
+													pos: position{line: 658, col: 5, offset: 21000},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 654, col: 5, offset: 20729},
+															pos:        position{line: 658, col: 5, offset: 21000},
 															val:        "\\{",
 															ignoreCase: false,
 															want:       "\"\\\\{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 654, col: 13, offset: 20737},
+															pos:   position{line: 658, col: 13, offset: 21008},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 320, col: 18, offset: 9837},
@@ -41157,7 +41157,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 654, col: 32, offset: 20756},
+															pos:        position{line: 658, col: 32, offset: 21027},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41166,19 +41166,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 661, col: 5, offset: 20997},
+												pos: position{line: 665, col: 5, offset: 21268},
 												run: (*parser).callonQuotedTextElement61,
 												expr: &seqExpr{
-													pos: position{line: 661, col: 5, offset: 20997},
+													pos: position{line: 665, col: 5, offset: 21268},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 661, col: 5, offset: 20997},
+															pos:        position{line: 665, col: 5, offset: 21268},
 															val:        "{",
 															ignoreCase: false,
 															want:       "\"{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 661, col: 9, offset: 21001},
+															pos:   position{line: 665, col: 9, offset: 21272},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 320, col: 18, offset: 9837},
@@ -41210,7 +41210,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 661, col: 28, offset: 21020},
+															pos:        position{line: 665, col: 28, offset: 21291},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41219,19 +41219,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 667, col: 25, offset: 21201},
+												pos: position{line: 671, col: 25, offset: 21472},
 												run: (*parser).callonQuotedTextElement71,
 												expr: &seqExpr{
-													pos: position{line: 667, col: 25, offset: 21201},
+													pos: position{line: 671, col: 25, offset: 21472},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 667, col: 25, offset: 21201},
+															pos:        position{line: 671, col: 25, offset: 21472},
 															val:        "{counter:",
 															ignoreCase: false,
 															want:       "\"{counter:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 667, col: 37, offset: 21213},
+															pos:   position{line: 671, col: 37, offset: 21484},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 320, col: 18, offset: 9837},
@@ -41263,33 +41263,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 667, col: 56, offset: 21232},
+															pos:   position{line: 671, col: 56, offset: 21503},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 667, col: 62, offset: 21238},
+																pos: position{line: 671, col: 62, offset: 21509},
 																expr: &actionExpr{
-																	pos: position{line: 675, col: 17, offset: 21535},
+																	pos: position{line: 679, col: 17, offset: 21806},
 																	run: (*parser).callonQuotedTextElement82,
 																	expr: &seqExpr{
-																		pos: position{line: 675, col: 17, offset: 21535},
+																		pos: position{line: 679, col: 17, offset: 21806},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 675, col: 17, offset: 21535},
+																				pos:        position{line: 679, col: 17, offset: 21806},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 675, col: 21, offset: 21539},
+																				pos:   position{line: 679, col: 21, offset: 21810},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 675, col: 28, offset: 21546},
+																					pos: position{line: 679, col: 28, offset: 21817},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 675, col: 28, offset: 21546},
+																							pos: position{line: 679, col: 28, offset: 21817},
 																							run: (*parser).callonQuotedTextElement87,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 675, col: 28, offset: 21546},
+																								pos:        position{line: 679, col: 28, offset: 21817},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -41297,12 +41297,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 677, col: 9, offset: 21600},
+																							pos: position{line: 681, col: 9, offset: 21871},
 																							run: (*parser).callonQuotedTextElement89,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 677, col: 9, offset: 21600},
+																								pos: position{line: 681, col: 9, offset: 21871},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 677, col: 9, offset: 21600},
+																									pos:        position{line: 681, col: 9, offset: 21871},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -41319,7 +41319,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 667, col: 78, offset: 21254},
+															pos:        position{line: 671, col: 78, offset: 21525},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41328,19 +41328,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 671, col: 25, offset: 21372},
+												pos: position{line: 675, col: 25, offset: 21643},
 												run: (*parser).callonQuotedTextElement93,
 												expr: &seqExpr{
-													pos: position{line: 671, col: 25, offset: 21372},
+													pos: position{line: 675, col: 25, offset: 21643},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 671, col: 25, offset: 21372},
+															pos:        position{line: 675, col: 25, offset: 21643},
 															val:        "{counter2:",
 															ignoreCase: false,
 															want:       "\"{counter2:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 671, col: 38, offset: 21385},
+															pos:   position{line: 675, col: 38, offset: 21656},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 320, col: 18, offset: 9837},
@@ -41372,33 +41372,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 671, col: 57, offset: 21404},
+															pos:   position{line: 675, col: 57, offset: 21675},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 671, col: 63, offset: 21410},
+																pos: position{line: 675, col: 63, offset: 21681},
 																expr: &actionExpr{
-																	pos: position{line: 675, col: 17, offset: 21535},
+																	pos: position{line: 679, col: 17, offset: 21806},
 																	run: (*parser).callonQuotedTextElement104,
 																	expr: &seqExpr{
-																		pos: position{line: 675, col: 17, offset: 21535},
+																		pos: position{line: 679, col: 17, offset: 21806},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 675, col: 17, offset: 21535},
+																				pos:        position{line: 679, col: 17, offset: 21806},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 675, col: 21, offset: 21539},
+																				pos:   position{line: 679, col: 21, offset: 21810},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 675, col: 28, offset: 21546},
+																					pos: position{line: 679, col: 28, offset: 21817},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 675, col: 28, offset: 21546},
+																							pos: position{line: 679, col: 28, offset: 21817},
 																							run: (*parser).callonQuotedTextElement109,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 675, col: 28, offset: 21546},
+																								pos:        position{line: 679, col: 28, offset: 21817},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -41406,12 +41406,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 677, col: 9, offset: 21600},
+																							pos: position{line: 681, col: 9, offset: 21871},
 																							run: (*parser).callonQuotedTextElement111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 677, col: 9, offset: 21600},
+																								pos: position{line: 681, col: 9, offset: 21871},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 677, col: 9, offset: 21600},
+																									pos:        position{line: 681, col: 9, offset: 21871},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -41428,7 +41428,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 671, col: 79, offset: 21426},
+															pos:        position{line: 675, col: 79, offset: 21697},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41443,31 +41443,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2931, col: 18, offset: 92410},
+						pos: position{line: 2935, col: 18, offset: 92681},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2931, col: 18, offset: 92410},
+							pos: position{line: 2935, col: 18, offset: 92681},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2927, col: 12, offset: 92310},
+									pos: position{line: 2931, col: 12, offset: 92581},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2927, col: 13, offset: 92311},
+										pos: position{line: 2931, col: 13, offset: 92582},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2927, col: 13, offset: 92311},
+												pos:        position{line: 2931, col: 13, offset: 92582},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 20, offset: 92318},
+												pos:        position{line: 2931, col: 20, offset: 92589},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 29, offset: 92327},
+												pos:        position{line: 2931, col: 29, offset: 92598},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41476,27 +41476,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2931, col: 26, offset: 92418},
+									pos: position{line: 2935, col: 26, offset: 92689},
 									expr: &actionExpr{
-										pos: position{line: 2927, col: 12, offset: 92310},
+										pos: position{line: 2931, col: 12, offset: 92581},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2927, col: 13, offset: 92311},
+											pos: position{line: 2931, col: 13, offset: 92582},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2927, col: 13, offset: 92311},
+													pos:        position{line: 2931, col: 13, offset: 92582},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2927, col: 20, offset: 92318},
+													pos:        position{line: 2931, col: 20, offset: 92589},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2927, col: 29, offset: 92327},
+													pos:        position{line: 2931, col: 29, offset: 92598},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41509,31 +41509,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1873, col: 7, offset: 60400},
+						pos:  position{line: 1877, col: 7, offset: 60671},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1874, col: 7, offset: 60447},
+						pos:  position{line: 1878, col: 7, offset: 60718},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2508, col: 5, offset: 80463},
+						pos: position{line: 2512, col: 5, offset: 80734},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2508, col: 5, offset: 80463},
+							pos: position{line: 2512, col: 5, offset: 80734},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2508, col: 5, offset: 80463},
+									pos: position{line: 2512, col: 5, offset: 80734},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2511, col: 5, offset: 80539},
+									pos:   position{line: 2515, col: 5, offset: 80810},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2512, col: 9, offset: 80557},
+										pos: position{line: 2516, col: 9, offset: 80828},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2512, col: 10, offset: 80558},
+											pos:        position{line: 2516, col: 10, offset: 80829},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -41545,27 +41545,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1207, col: 23, offset: 37384},
+						pos: position{line: 1211, col: 23, offset: 37655},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 1207, col: 23, offset: 37384},
+							pos: position{line: 1211, col: 23, offset: 37655},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1205, col: 32, offset: 37352},
+									pos:        position{line: 1209, col: 32, offset: 37623},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1207, col: 51, offset: 37412},
+									pos:   position{line: 1211, col: 51, offset: 37683},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1207, col: 56, offset: 37417},
+										pos: position{line: 1211, col: 56, offset: 37688},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1207, col: 56, offset: 37417},
+											pos: position{line: 1211, col: 56, offset: 37688},
 											expr: &charClassMatcher{
-												pos:        position{line: 1207, col: 56, offset: 37417},
+												pos:        position{line: 1211, col: 56, offset: 37688},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -41575,7 +41575,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1205, col: 32, offset: 37352},
+									pos:        position{line: 1209, col: 32, offset: 37623},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
@@ -41584,10 +41584,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2857, col: 12, offset: 90447},
+						pos: position{line: 2861, col: 12, offset: 90718},
 						run: (*parser).callonQuotedTextElement144,
 						expr: &charClassMatcher{
-							pos:        position{line: 2857, col: 12, offset: 90447},
+							pos:        position{line: 2861, col: 12, offset: 90718},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41599,29 +41599,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1892, col: 1, offset: 60917},
+			pos:  position{line: 1896, col: 1, offset: 61188},
 			expr: &actionExpr{
-				pos: position{line: 1893, col: 5, offset: 60945},
+				pos: position{line: 1897, col: 5, offset: 61216},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1893, col: 5, offset: 60945},
+					pos: position{line: 1897, col: 5, offset: 61216},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1888, col: 38, offset: 60870},
+							pos:        position{line: 1892, col: 38, offset: 61141},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1894, col: 5, offset: 60984},
+							pos:   position{line: 1898, col: 5, offset: 61255},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1894, col: 15, offset: 60994},
+								pos:  position{line: 1898, col: 15, offset: 61265},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1890, col: 36, offset: 60911},
+							pos:        position{line: 1894, col: 36, offset: 61182},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -41632,24 +41632,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1899, col: 1, offset: 61154},
+			pos:  position{line: 1903, col: 1, offset: 61425},
 			expr: &actionExpr{
-				pos: position{line: 1900, col: 5, offset: 61189},
+				pos: position{line: 1904, col: 5, offset: 61460},
 				run: (*parser).callonDoubleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1900, col: 5, offset: 61189},
+					pos: position{line: 1904, col: 5, offset: 61460},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1900, col: 5, offset: 61189},
+							pos: position{line: 1904, col: 5, offset: 61460},
 							run: (*parser).callonDoubleQuoteBoldTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1904, col: 5, offset: 61309},
+							pos:   position{line: 1908, col: 5, offset: 61580},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1904, col: 14, offset: 61318},
+								pos: position{line: 1908, col: 14, offset: 61589},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1904, col: 15, offset: 61319},
+									pos:  position{line: 1908, col: 15, offset: 61590},
 									name: "DoubleQuoteBoldTextElement",
 								},
 							},
@@ -41660,33 +41660,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1908, col: 1, offset: 61386},
+			pos:  position{line: 1912, col: 1, offset: 61657},
 			expr: &actionExpr{
-				pos: position{line: 1909, col: 5, offset: 61421},
+				pos: position{line: 1913, col: 5, offset: 61692},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1909, col: 5, offset: 61421},
+					pos: position{line: 1913, col: 5, offset: 61692},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2935, col: 11, offset: 92473},
+							pos: position{line: 2939, col: 11, offset: 92744},
 							expr: &anyMatcher{
-								line: 2935, col: 13, offset: 92475,
+								line: 2939, col: 13, offset: 92746,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1910, col: 5, offset: 61432},
+							pos: position{line: 1914, col: 5, offset: 61703},
 							expr: &litMatcher{
-								pos:        position{line: 1890, col: 36, offset: 60911},
+								pos:        position{line: 1894, col: 36, offset: 61182},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1911, col: 5, offset: 61469},
+							pos:   position{line: 1915, col: 5, offset: 61740},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1911, col: 14, offset: 61478},
+								pos:  position{line: 1915, col: 14, offset: 61749},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41696,29 +41696,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1936, col: 1, offset: 62158},
+			pos:  position{line: 1940, col: 1, offset: 62429},
 			expr: &actionExpr{
-				pos: position{line: 1937, col: 5, offset: 62186},
+				pos: position{line: 1941, col: 5, offset: 62457},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1937, col: 5, offset: 62186},
+					pos: position{line: 1941, col: 5, offset: 62457},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1920, col: 5, offset: 61712},
+							pos:        position{line: 1924, col: 5, offset: 61983},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1921, col: 5, offset: 61721},
+							pos: position{line: 1925, col: 5, offset: 61992},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1925, col: 5, offset: 61839},
+							pos: position{line: 1929, col: 5, offset: 62110},
 							expr: &notExpr{
-								pos: position{line: 1925, col: 7, offset: 61841},
+								pos: position{line: 1929, col: 7, offset: 62112},
 								expr: &litMatcher{
-									pos:        position{line: 1925, col: 8, offset: 61842},
+									pos:        position{line: 1929, col: 8, offset: 62113},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41726,38 +41726,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1938, col: 5, offset: 62224},
+							pos:   position{line: 1942, col: 5, offset: 62495},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1938, col: 15, offset: 62234},
+								pos:  position{line: 1942, col: 15, offset: 62505},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1928, col: 5, offset: 61962},
+							pos:        position{line: 1932, col: 5, offset: 62233},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1929, col: 5, offset: 61971},
+							pos: position{line: 1933, col: 5, offset: 62242},
 							expr: &litMatcher{
-								pos:        position{line: 1929, col: 6, offset: 61972},
+								pos:        position{line: 1933, col: 6, offset: 62243},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1930, col: 5, offset: 62035},
+							pos: position{line: 1934, col: 5, offset: 62306},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1934, col: 5, offset: 62144},
+							pos: position{line: 1938, col: 5, offset: 62415},
 							expr: &notExpr{
-								pos: position{line: 1934, col: 7, offset: 62146},
+								pos: position{line: 1938, col: 7, offset: 62417},
 								expr: &charClassMatcher{
-									pos:        position{line: 2808, col: 13, offset: 89234},
+									pos:        position{line: 2812, col: 13, offset: 89505},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41771,20 +41771,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1943, col: 1, offset: 62394},
+			pos:  position{line: 1947, col: 1, offset: 62665},
 			expr: &actionExpr{
-				pos: position{line: 1944, col: 5, offset: 62431},
+				pos: position{line: 1948, col: 5, offset: 62702},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1944, col: 5, offset: 62431},
+					pos: position{line: 1948, col: 5, offset: 62702},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1944, col: 5, offset: 62431},
+							pos: position{line: 1948, col: 5, offset: 62702},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92139},
+								pos: position{line: 2922, col: 10, offset: 92410},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92139},
+									pos:        position{line: 2922, col: 10, offset: 92410},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41793,18 +41793,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1945, col: 5, offset: 62470},
+							pos:   position{line: 1949, col: 5, offset: 62741},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1945, col: 14, offset: 62479},
+								pos: position{line: 1949, col: 14, offset: 62750},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1945, col: 15, offset: 62480},
+									pos:  position{line: 1949, col: 15, offset: 62751},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1946, col: 5, offset: 62514},
+							pos: position{line: 1950, col: 5, offset: 62785},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -41813,49 +41813,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1952, col: 1, offset: 62655},
+			pos:  position{line: 1956, col: 1, offset: 62926},
 			expr: &actionExpr{
-				pos: position{line: 1953, col: 5, offset: 62690},
+				pos: position{line: 1957, col: 5, offset: 62961},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1953, col: 5, offset: 62690},
+					pos: position{line: 1957, col: 5, offset: 62961},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2935, col: 11, offset: 92473},
+							pos: position{line: 2939, col: 11, offset: 92744},
 							expr: &anyMatcher{
-								line: 2935, col: 13, offset: 92475,
+								line: 2939, col: 13, offset: 92746,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1954, col: 5, offset: 62718},
+							pos: position{line: 1958, col: 5, offset: 62989},
 							expr: &seqExpr{
-								pos: position{line: 1928, col: 5, offset: 61962},
+								pos: position{line: 1932, col: 5, offset: 62233},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1928, col: 5, offset: 61962},
+										pos:        position{line: 1932, col: 5, offset: 62233},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1929, col: 5, offset: 61971},
+										pos: position{line: 1933, col: 5, offset: 62242},
 										expr: &litMatcher{
-											pos:        position{line: 1929, col: 6, offset: 61972},
+											pos:        position{line: 1933, col: 6, offset: 62243},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1930, col: 5, offset: 62035},
+										pos: position{line: 1934, col: 5, offset: 62306},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1934, col: 5, offset: 62144},
+										pos: position{line: 1938, col: 5, offset: 62415},
 										expr: &notExpr{
-											pos: position{line: 1934, col: 7, offset: 62146},
+											pos: position{line: 1938, col: 7, offset: 62417},
 											expr: &charClassMatcher{
-												pos:        position{line: 2808, col: 13, offset: 89234},
+												pos:        position{line: 2812, col: 13, offset: 89505},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41867,10 +41867,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1955, col: 5, offset: 62755},
+							pos:   position{line: 1959, col: 5, offset: 63026},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1955, col: 14, offset: 62764},
+								pos:  position{line: 1959, col: 14, offset: 63035},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41880,35 +41880,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1960, col: 1, offset: 62852},
+			pos:  position{line: 1964, col: 1, offset: 63123},
 			expr: &choiceExpr{
-				pos: position{line: 1962, col: 5, offset: 62913},
+				pos: position{line: 1966, col: 5, offset: 63184},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1962, col: 5, offset: 62913},
+						pos: position{line: 1966, col: 5, offset: 63184},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1962, col: 5, offset: 62913},
+							pos: position{line: 1966, col: 5, offset: 63184},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1962, col: 5, offset: 62913},
+									pos:   position{line: 1966, col: 5, offset: 63184},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60090},
+										pos: position{line: 1865, col: 25, offset: 60361},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1861, col: 25, offset: 60090},
+											pos: position{line: 1865, col: 25, offset: 60361},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1861, col: 25, offset: 60090},
+													pos:        position{line: 1865, col: 25, offset: 60361},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1861, col: 30, offset: 60095},
+													pos: position{line: 1865, col: 30, offset: 60366},
 													expr: &litMatcher{
-														pos:        position{line: 1861, col: 30, offset: 60095},
+														pos:        position{line: 1865, col: 30, offset: 60366},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41919,21 +41919,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1962, col: 40, offset: 62948},
+									pos:        position{line: 1966, col: 40, offset: 63219},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1962, col: 45, offset: 62953},
+									pos:   position{line: 1966, col: 45, offset: 63224},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1962, col: 55, offset: 62963},
+										pos:  position{line: 1966, col: 55, offset: 63234},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1962, col: 84, offset: 62992},
+									pos:        position{line: 1966, col: 84, offset: 63263},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41942,21 +41942,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1966, col: 7, offset: 63156},
+						pos: position{line: 1970, col: 7, offset: 63427},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1966, col: 7, offset: 63156},
+							pos: position{line: 1970, col: 7, offset: 63427},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1966, col: 7, offset: 63156},
+									pos:   position{line: 1970, col: 7, offset: 63427},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 60017},
+										pos: position{line: 1861, col: 25, offset: 60288},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1857, col: 25, offset: 60017},
+											pos: position{line: 1861, col: 25, offset: 60288},
 											expr: &litMatcher{
-												pos:        position{line: 1857, col: 25, offset: 60017},
+												pos:        position{line: 1861, col: 25, offset: 60288},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41965,21 +41965,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1966, col: 42, offset: 63191},
+									pos:        position{line: 1970, col: 42, offset: 63462},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1966, col: 47, offset: 63196},
+									pos:   position{line: 1970, col: 47, offset: 63467},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1966, col: 57, offset: 63206},
+										pos:  position{line: 1970, col: 57, offset: 63477},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1966, col: 86, offset: 63235},
+									pos:        position{line: 1970, col: 86, offset: 63506},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41988,21 +41988,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1971, col: 7, offset: 63437},
+						pos: position{line: 1975, col: 7, offset: 63708},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1971, col: 7, offset: 63437},
+							pos: position{line: 1975, col: 7, offset: 63708},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1971, col: 7, offset: 63437},
+									pos:   position{line: 1975, col: 7, offset: 63708},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 60017},
+										pos: position{line: 1861, col: 25, offset: 60288},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1857, col: 25, offset: 60017},
+											pos: position{line: 1861, col: 25, offset: 60288},
 											expr: &litMatcher{
-												pos:        position{line: 1857, col: 25, offset: 60017},
+												pos:        position{line: 1861, col: 25, offset: 60288},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42011,21 +42011,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1971, col: 42, offset: 63472},
+									pos:        position{line: 1975, col: 42, offset: 63743},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1971, col: 46, offset: 63476},
+									pos:   position{line: 1975, col: 46, offset: 63747},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1971, col: 56, offset: 63486},
+										pos:  position{line: 1975, col: 56, offset: 63757},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1971, col: 85, offset: 63515},
+									pos:        position{line: 1975, col: 85, offset: 63786},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42038,29 +42038,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1988, col: 1, offset: 63995},
+			pos:  position{line: 1992, col: 1, offset: 64266},
 			expr: &actionExpr{
-				pos: position{line: 1989, col: 5, offset: 64025},
+				pos: position{line: 1993, col: 5, offset: 64296},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1989, col: 5, offset: 64025},
+					pos: position{line: 1993, col: 5, offset: 64296},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1984, col: 40, offset: 63946},
+							pos:        position{line: 1988, col: 40, offset: 64217},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1990, col: 5, offset: 64066},
+							pos:   position{line: 1994, col: 5, offset: 64337},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1990, col: 15, offset: 64076},
+								pos:  position{line: 1994, col: 15, offset: 64347},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1986, col: 38, offset: 63989},
+							pos:        position{line: 1990, col: 38, offset: 64260},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -42071,24 +42071,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1995, col: 1, offset: 64241},
+			pos:  position{line: 1999, col: 1, offset: 64512},
 			expr: &actionExpr{
-				pos: position{line: 1996, col: 5, offset: 64278},
+				pos: position{line: 2000, col: 5, offset: 64549},
 				run: (*parser).callonDoubleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1996, col: 5, offset: 64278},
+					pos: position{line: 2000, col: 5, offset: 64549},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1996, col: 5, offset: 64278},
+							pos: position{line: 2000, col: 5, offset: 64549},
 							run: (*parser).callonDoubleQuoteItalicTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2000, col: 5, offset: 64398},
+							pos:   position{line: 2004, col: 5, offset: 64669},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2000, col: 14, offset: 64407},
+								pos: position{line: 2004, col: 14, offset: 64678},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2000, col: 15, offset: 64408},
+									pos:  position{line: 2004, col: 15, offset: 64679},
 									name: "DoubleQuoteItalicTextElement",
 								},
 							},
@@ -42099,33 +42099,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 2004, col: 1, offset: 64477},
+			pos:  position{line: 2008, col: 1, offset: 64748},
 			expr: &actionExpr{
-				pos: position{line: 2005, col: 5, offset: 64514},
+				pos: position{line: 2009, col: 5, offset: 64785},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2005, col: 5, offset: 64514},
+					pos: position{line: 2009, col: 5, offset: 64785},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2935, col: 11, offset: 92473},
+							pos: position{line: 2939, col: 11, offset: 92744},
 							expr: &anyMatcher{
-								line: 2935, col: 13, offset: 92475,
+								line: 2939, col: 13, offset: 92746,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2006, col: 5, offset: 64525},
+							pos: position{line: 2010, col: 5, offset: 64796},
 							expr: &litMatcher{
-								pos:        position{line: 1986, col: 38, offset: 63989},
+								pos:        position{line: 1990, col: 38, offset: 64260},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2007, col: 5, offset: 64564},
+							pos:   position{line: 2011, col: 5, offset: 64835},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2007, col: 14, offset: 64573},
+								pos:  position{line: 2011, col: 14, offset: 64844},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42135,29 +42135,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2033, col: 1, offset: 65257},
+			pos:  position{line: 2037, col: 1, offset: 65528},
 			expr: &actionExpr{
-				pos: position{line: 2034, col: 5, offset: 65287},
+				pos: position{line: 2038, col: 5, offset: 65558},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2034, col: 5, offset: 65287},
+					pos: position{line: 2038, col: 5, offset: 65558},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2016, col: 5, offset: 64815},
+							pos:        position{line: 2020, col: 5, offset: 65086},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2017, col: 5, offset: 64824},
+							pos: position{line: 2021, col: 5, offset: 65095},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2021, col: 5, offset: 64944},
+							pos: position{line: 2025, col: 5, offset: 65215},
 							expr: &notExpr{
-								pos: position{line: 2021, col: 7, offset: 64946},
+								pos: position{line: 2025, col: 7, offset: 65217},
 								expr: &litMatcher{
-									pos:        position{line: 2021, col: 8, offset: 64947},
+									pos:        position{line: 2025, col: 8, offset: 65218},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42165,38 +42165,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2035, col: 5, offset: 65327},
+							pos:   position{line: 2039, col: 5, offset: 65598},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2035, col: 15, offset: 65337},
+								pos:  position{line: 2039, col: 15, offset: 65608},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2025, col: 5, offset: 65057},
+							pos:        position{line: 2029, col: 5, offset: 65328},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2026, col: 5, offset: 65066},
+							pos: position{line: 2030, col: 5, offset: 65337},
 							expr: &litMatcher{
-								pos:        position{line: 2026, col: 6, offset: 65067},
+								pos:        position{line: 2030, col: 6, offset: 65338},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2027, col: 5, offset: 65132},
+							pos: position{line: 2031, col: 5, offset: 65403},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2031, col: 5, offset: 65243},
+							pos: position{line: 2035, col: 5, offset: 65514},
 							expr: &notExpr{
-								pos: position{line: 2031, col: 7, offset: 65245},
+								pos: position{line: 2035, col: 7, offset: 65516},
 								expr: &charClassMatcher{
-									pos:        position{line: 2808, col: 13, offset: 89234},
+									pos:        position{line: 2812, col: 13, offset: 89505},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42210,20 +42210,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2040, col: 1, offset: 65504},
+			pos:  position{line: 2044, col: 1, offset: 65775},
 			expr: &actionExpr{
-				pos: position{line: 2041, col: 5, offset: 65542},
+				pos: position{line: 2045, col: 5, offset: 65813},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2041, col: 5, offset: 65542},
+					pos: position{line: 2045, col: 5, offset: 65813},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2041, col: 5, offset: 65542},
+							pos: position{line: 2045, col: 5, offset: 65813},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92139},
+								pos: position{line: 2922, col: 10, offset: 92410},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92139},
+									pos:        position{line: 2922, col: 10, offset: 92410},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42232,18 +42232,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2042, col: 5, offset: 65581},
+							pos:   position{line: 2046, col: 5, offset: 65852},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2042, col: 14, offset: 65590},
+								pos: position{line: 2046, col: 14, offset: 65861},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2042, col: 15, offset: 65591},
+									pos:  position{line: 2046, col: 15, offset: 65862},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2043, col: 5, offset: 65626},
+							pos: position{line: 2047, col: 5, offset: 65897},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -42252,49 +42252,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2049, col: 1, offset: 65767},
+			pos:  position{line: 2053, col: 1, offset: 66038},
 			expr: &actionExpr{
-				pos: position{line: 2050, col: 5, offset: 65804},
+				pos: position{line: 2054, col: 5, offset: 66075},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2050, col: 5, offset: 65804},
+					pos: position{line: 2054, col: 5, offset: 66075},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2935, col: 11, offset: 92473},
+							pos: position{line: 2939, col: 11, offset: 92744},
 							expr: &anyMatcher{
-								line: 2935, col: 13, offset: 92475,
+								line: 2939, col: 13, offset: 92746,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2051, col: 5, offset: 65815},
+							pos: position{line: 2055, col: 5, offset: 66086},
 							expr: &seqExpr{
-								pos: position{line: 2025, col: 5, offset: 65057},
+								pos: position{line: 2029, col: 5, offset: 65328},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2025, col: 5, offset: 65057},
+										pos:        position{line: 2029, col: 5, offset: 65328},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2026, col: 5, offset: 65066},
+										pos: position{line: 2030, col: 5, offset: 65337},
 										expr: &litMatcher{
-											pos:        position{line: 2026, col: 6, offset: 65067},
+											pos:        position{line: 2030, col: 6, offset: 65338},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2027, col: 5, offset: 65132},
+										pos: position{line: 2031, col: 5, offset: 65403},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2031, col: 5, offset: 65243},
+										pos: position{line: 2035, col: 5, offset: 65514},
 										expr: &notExpr{
-											pos: position{line: 2031, col: 7, offset: 65245},
+											pos: position{line: 2035, col: 7, offset: 65516},
 											expr: &charClassMatcher{
-												pos:        position{line: 2808, col: 13, offset: 89234},
+												pos:        position{line: 2812, col: 13, offset: 89505},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42306,10 +42306,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2052, col: 5, offset: 65854},
+							pos:   position{line: 2056, col: 5, offset: 66125},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2052, col: 14, offset: 65863},
+								pos:  position{line: 2056, col: 14, offset: 66134},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42319,35 +42319,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2057, col: 1, offset: 65951},
+			pos:  position{line: 2061, col: 1, offset: 66222},
 			expr: &choiceExpr{
-				pos: position{line: 2059, col: 5, offset: 66016},
+				pos: position{line: 2063, col: 5, offset: 66287},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2059, col: 5, offset: 66016},
+						pos: position{line: 2063, col: 5, offset: 66287},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2059, col: 5, offset: 66016},
+							pos: position{line: 2063, col: 5, offset: 66287},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2059, col: 5, offset: 66016},
+									pos:   position{line: 2063, col: 5, offset: 66287},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60090},
+										pos: position{line: 1865, col: 25, offset: 60361},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1861, col: 25, offset: 60090},
+											pos: position{line: 1865, col: 25, offset: 60361},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1861, col: 25, offset: 60090},
+													pos:        position{line: 1865, col: 25, offset: 60361},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1861, col: 30, offset: 60095},
+													pos: position{line: 1865, col: 30, offset: 60366},
 													expr: &litMatcher{
-														pos:        position{line: 1861, col: 30, offset: 60095},
+														pos:        position{line: 1865, col: 30, offset: 60366},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42358,21 +42358,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2059, col: 40, offset: 66051},
+									pos:        position{line: 2063, col: 40, offset: 66322},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2059, col: 45, offset: 66056},
+									pos:   position{line: 2063, col: 45, offset: 66327},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2059, col: 55, offset: 66066},
+										pos:  position{line: 2063, col: 55, offset: 66337},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2059, col: 86, offset: 66097},
+									pos:        position{line: 2063, col: 86, offset: 66368},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -42381,21 +42381,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2063, col: 7, offset: 66262},
+						pos: position{line: 2067, col: 7, offset: 66533},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2063, col: 7, offset: 66262},
+							pos: position{line: 2067, col: 7, offset: 66533},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2063, col: 7, offset: 66262},
+									pos:   position{line: 2067, col: 7, offset: 66533},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 60017},
+										pos: position{line: 1861, col: 25, offset: 60288},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1857, col: 25, offset: 60017},
+											pos: position{line: 1861, col: 25, offset: 60288},
 											expr: &litMatcher{
-												pos:        position{line: 1857, col: 25, offset: 60017},
+												pos:        position{line: 1861, col: 25, offset: 60288},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42404,21 +42404,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2063, col: 42, offset: 66297},
+									pos:        position{line: 2067, col: 42, offset: 66568},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2063, col: 47, offset: 66302},
+									pos:   position{line: 2067, col: 47, offset: 66573},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2063, col: 57, offset: 66312},
+										pos:  position{line: 2067, col: 57, offset: 66583},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2063, col: 88, offset: 66343},
+									pos:        position{line: 2067, col: 88, offset: 66614},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42427,21 +42427,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2068, col: 7, offset: 66584},
+						pos: position{line: 2072, col: 7, offset: 66855},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2068, col: 7, offset: 66584},
+							pos: position{line: 2072, col: 7, offset: 66855},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2068, col: 7, offset: 66584},
+									pos:   position{line: 2072, col: 7, offset: 66855},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 60017},
+										pos: position{line: 1861, col: 25, offset: 60288},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1857, col: 25, offset: 60017},
+											pos: position{line: 1861, col: 25, offset: 60288},
 											expr: &litMatcher{
-												pos:        position{line: 1857, col: 25, offset: 60017},
+												pos:        position{line: 1861, col: 25, offset: 60288},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42450,21 +42450,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2068, col: 42, offset: 66619},
+									pos:        position{line: 2072, col: 42, offset: 66890},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2068, col: 46, offset: 66623},
+									pos:   position{line: 2072, col: 46, offset: 66894},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2068, col: 56, offset: 66633},
+										pos:  position{line: 2072, col: 56, offset: 66904},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2068, col: 87, offset: 66664},
+									pos:        position{line: 2072, col: 87, offset: 66935},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42477,29 +42477,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2085, col: 1, offset: 67228},
+			pos:  position{line: 2089, col: 1, offset: 67499},
 			expr: &actionExpr{
-				pos: position{line: 2086, col: 5, offset: 67261},
+				pos: position{line: 2090, col: 5, offset: 67532},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2086, col: 5, offset: 67261},
+					pos: position{line: 2090, col: 5, offset: 67532},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2081, col: 43, offset: 67176},
+							pos:        position{line: 2085, col: 43, offset: 67447},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2087, col: 5, offset: 67305},
+							pos:   position{line: 2091, col: 5, offset: 67576},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2087, col: 15, offset: 67315},
+								pos:  position{line: 2091, col: 15, offset: 67586},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2083, col: 41, offset: 67222},
+							pos:        position{line: 2087, col: 41, offset: 67493},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -42510,24 +42510,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2092, col: 1, offset: 67490},
+			pos:  position{line: 2096, col: 1, offset: 67761},
 			expr: &actionExpr{
-				pos: position{line: 2093, col: 5, offset: 67563},
+				pos: position{line: 2097, col: 5, offset: 67834},
 				run: (*parser).callonDoubleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2093, col: 5, offset: 67563},
+					pos: position{line: 2097, col: 5, offset: 67834},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2093, col: 5, offset: 67563},
+							pos: position{line: 2097, col: 5, offset: 67834},
 							run: (*parser).callonDoubleQuoteMonospaceTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2097, col: 5, offset: 67683},
+							pos:   position{line: 2101, col: 5, offset: 67954},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2097, col: 14, offset: 67692},
+								pos: position{line: 2101, col: 14, offset: 67963},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2097, col: 15, offset: 67693},
+									pos:  position{line: 2101, col: 15, offset: 67964},
 									name: "DoubleQuoteMonospaceTextElement",
 								},
 							},
@@ -42538,33 +42538,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2101, col: 1, offset: 67765},
+			pos:  position{line: 2105, col: 1, offset: 68036},
 			expr: &actionExpr{
-				pos: position{line: 2102, col: 5, offset: 67805},
+				pos: position{line: 2106, col: 5, offset: 68076},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2102, col: 5, offset: 67805},
+					pos: position{line: 2106, col: 5, offset: 68076},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2935, col: 11, offset: 92473},
+							pos: position{line: 2939, col: 11, offset: 92744},
 							expr: &anyMatcher{
-								line: 2935, col: 13, offset: 92475,
+								line: 2939, col: 13, offset: 92746,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2103, col: 5, offset: 67816},
+							pos: position{line: 2107, col: 5, offset: 68087},
 							expr: &litMatcher{
-								pos:        position{line: 2083, col: 41, offset: 67222},
+								pos:        position{line: 2087, col: 41, offset: 67493},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2104, col: 5, offset: 67858},
+							pos:   position{line: 2108, col: 5, offset: 68129},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2104, col: 14, offset: 67867},
+								pos:  position{line: 2108, col: 14, offset: 68138},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42574,33 +42574,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2122, col: 1, offset: 68409},
+			pos:  position{line: 2126, col: 1, offset: 68680},
 			expr: &seqExpr{
-				pos: position{line: 2123, col: 5, offset: 68454},
+				pos: position{line: 2127, col: 5, offset: 68725},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2123, col: 5, offset: 68454},
+						pos: position{line: 2127, col: 5, offset: 68725},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2123, col: 6, offset: 68455},
+							pos:  position{line: 2127, col: 6, offset: 68726},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2124, col: 5, offset: 68474},
+						pos:        position{line: 2128, col: 5, offset: 68745},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2125, col: 5, offset: 68482},
+						pos: position{line: 2129, col: 5, offset: 68753},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2129, col: 5, offset: 68596},
+						pos: position{line: 2133, col: 5, offset: 68867},
 						expr: &notExpr{
-							pos: position{line: 2129, col: 7, offset: 68598},
+							pos: position{line: 2133, col: 7, offset: 68869},
 							expr: &charClassMatcher{
-								pos:        position{line: 2808, col: 13, offset: 89234},
+								pos:        position{line: 2812, col: 13, offset: 89505},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42613,29 +42613,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2132, col: 1, offset: 68615},
+			pos:  position{line: 2136, col: 1, offset: 68886},
 			expr: &actionExpr{
-				pos: position{line: 2133, col: 5, offset: 68648},
+				pos: position{line: 2137, col: 5, offset: 68919},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2133, col: 5, offset: 68648},
+					pos: position{line: 2137, col: 5, offset: 68919},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2115, col: 5, offset: 68211},
+							pos:        position{line: 2119, col: 5, offset: 68482},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2116, col: 5, offset: 68220},
+							pos: position{line: 2120, col: 5, offset: 68491},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2120, col: 5, offset: 68343},
+							pos: position{line: 2124, col: 5, offset: 68614},
 							expr: &notExpr{
-								pos: position{line: 2120, col: 7, offset: 68345},
+								pos: position{line: 2124, col: 7, offset: 68616},
 								expr: &litMatcher{
-									pos:        position{line: 2120, col: 8, offset: 68346},
+									pos:        position{line: 2124, col: 8, offset: 68617},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42643,15 +42643,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2134, col: 5, offset: 68692},
+							pos:   position{line: 2138, col: 5, offset: 68963},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2134, col: 15, offset: 68702},
+								pos:  position{line: 2138, col: 15, offset: 68973},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2135, col: 5, offset: 68741},
+							pos:  position{line: 2139, col: 5, offset: 69012},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -42660,20 +42660,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2139, col: 1, offset: 68878},
+			pos:  position{line: 2143, col: 1, offset: 69149},
 			expr: &actionExpr{
-				pos: position{line: 2140, col: 5, offset: 68919},
+				pos: position{line: 2144, col: 5, offset: 69190},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2140, col: 5, offset: 68919},
+					pos: position{line: 2144, col: 5, offset: 69190},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2140, col: 5, offset: 68919},
+							pos: position{line: 2144, col: 5, offset: 69190},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92139},
+								pos: position{line: 2922, col: 10, offset: 92410},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92139},
+									pos:        position{line: 2922, col: 10, offset: 92410},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42682,18 +42682,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2141, col: 5, offset: 68958},
+							pos:   position{line: 2145, col: 5, offset: 69229},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2141, col: 14, offset: 68967},
+								pos: position{line: 2145, col: 14, offset: 69238},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2141, col: 15, offset: 68968},
+									pos:  position{line: 2145, col: 15, offset: 69239},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2142, col: 5, offset: 69006},
+							pos: position{line: 2146, col: 5, offset: 69277},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -42702,31 +42702,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2148, col: 1, offset: 69147},
+			pos:  position{line: 2152, col: 1, offset: 69418},
 			expr: &actionExpr{
-				pos: position{line: 2149, col: 5, offset: 69187},
+				pos: position{line: 2153, col: 5, offset: 69458},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2149, col: 5, offset: 69187},
+					pos: position{line: 2153, col: 5, offset: 69458},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2935, col: 11, offset: 92473},
+							pos: position{line: 2939, col: 11, offset: 92744},
 							expr: &anyMatcher{
-								line: 2935, col: 13, offset: 92475,
+								line: 2939, col: 13, offset: 92746,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2150, col: 5, offset: 69198},
+							pos: position{line: 2154, col: 5, offset: 69469},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2150, col: 6, offset: 69199},
+								pos:  position{line: 2154, col: 6, offset: 69470},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2151, col: 5, offset: 69240},
+							pos:   position{line: 2155, col: 5, offset: 69511},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2151, col: 14, offset: 69249},
+								pos:  position{line: 2155, col: 14, offset: 69520},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42736,35 +42736,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2156, col: 1, offset: 69337},
+			pos:  position{line: 2160, col: 1, offset: 69608},
 			expr: &choiceExpr{
-				pos: position{line: 2158, col: 5, offset: 69408},
+				pos: position{line: 2162, col: 5, offset: 69679},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2158, col: 5, offset: 69408},
+						pos: position{line: 2162, col: 5, offset: 69679},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2158, col: 5, offset: 69408},
+							pos: position{line: 2162, col: 5, offset: 69679},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2158, col: 5, offset: 69408},
+									pos:   position{line: 2162, col: 5, offset: 69679},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60090},
+										pos: position{line: 1865, col: 25, offset: 60361},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1861, col: 25, offset: 60090},
+											pos: position{line: 1865, col: 25, offset: 60361},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1861, col: 25, offset: 60090},
+													pos:        position{line: 1865, col: 25, offset: 60361},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1861, col: 30, offset: 60095},
+													pos: position{line: 1865, col: 30, offset: 60366},
 													expr: &litMatcher{
-														pos:        position{line: 1861, col: 30, offset: 60095},
+														pos:        position{line: 1865, col: 30, offset: 60366},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42775,21 +42775,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2158, col: 40, offset: 69443},
+									pos:        position{line: 2162, col: 40, offset: 69714},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2158, col: 45, offset: 69448},
+									pos:   position{line: 2162, col: 45, offset: 69719},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2158, col: 55, offset: 69458},
+										pos:  position{line: 2162, col: 55, offset: 69729},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2158, col: 89, offset: 69492},
+									pos:        position{line: 2162, col: 89, offset: 69763},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -42798,21 +42798,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2162, col: 7, offset: 69661},
+						pos: position{line: 2166, col: 7, offset: 69932},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2162, col: 7, offset: 69661},
+							pos: position{line: 2166, col: 7, offset: 69932},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2162, col: 7, offset: 69661},
+									pos:   position{line: 2166, col: 7, offset: 69932},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 60017},
+										pos: position{line: 1861, col: 25, offset: 60288},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1857, col: 25, offset: 60017},
+											pos: position{line: 1861, col: 25, offset: 60288},
 											expr: &litMatcher{
-												pos:        position{line: 1857, col: 25, offset: 60017},
+												pos:        position{line: 1861, col: 25, offset: 60288},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42821,21 +42821,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2162, col: 42, offset: 69696},
+									pos:        position{line: 2166, col: 42, offset: 69967},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2162, col: 47, offset: 69701},
+									pos:   position{line: 2166, col: 47, offset: 69972},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2162, col: 57, offset: 69711},
+										pos:  position{line: 2166, col: 57, offset: 69982},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2162, col: 91, offset: 69745},
+									pos:        position{line: 2166, col: 91, offset: 70016},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42844,21 +42844,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2167, col: 7, offset: 69951},
+						pos: position{line: 2171, col: 7, offset: 70222},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2167, col: 7, offset: 69951},
+							pos: position{line: 2171, col: 7, offset: 70222},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2167, col: 7, offset: 69951},
+									pos:   position{line: 2171, col: 7, offset: 70222},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 60017},
+										pos: position{line: 1861, col: 25, offset: 60288},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1857, col: 25, offset: 60017},
+											pos: position{line: 1861, col: 25, offset: 60288},
 											expr: &litMatcher{
-												pos:        position{line: 1857, col: 25, offset: 60017},
+												pos:        position{line: 1861, col: 25, offset: 60288},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42867,21 +42867,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2167, col: 42, offset: 69986},
+									pos:        position{line: 2171, col: 42, offset: 70257},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2167, col: 46, offset: 69990},
+									pos:   position{line: 2171, col: 46, offset: 70261},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2167, col: 56, offset: 70000},
+										pos:  position{line: 2171, col: 56, offset: 70271},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2167, col: 90, offset: 70034},
+									pos:        position{line: 2171, col: 90, offset: 70305},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42894,29 +42894,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2184, col: 1, offset: 70519},
+			pos:  position{line: 2188, col: 1, offset: 70790},
 			expr: &actionExpr{
-				pos: position{line: 2185, col: 5, offset: 70549},
+				pos: position{line: 2189, col: 5, offset: 70820},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2185, col: 5, offset: 70549},
+					pos: position{line: 2189, col: 5, offset: 70820},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2180, col: 40, offset: 70470},
+							pos:        position{line: 2184, col: 40, offset: 70741},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2186, col: 5, offset: 70590},
+							pos:   position{line: 2190, col: 5, offset: 70861},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2186, col: 15, offset: 70600},
+								pos:  position{line: 2190, col: 15, offset: 70871},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2182, col: 38, offset: 70513},
+							pos:        position{line: 2186, col: 38, offset: 70784},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -42927,24 +42927,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2191, col: 1, offset: 70766},
+			pos:  position{line: 2195, col: 1, offset: 71037},
 			expr: &actionExpr{
-				pos: position{line: 2192, col: 5, offset: 70803},
+				pos: position{line: 2196, col: 5, offset: 71074},
 				run: (*parser).callonDoubleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2192, col: 5, offset: 70803},
+					pos: position{line: 2196, col: 5, offset: 71074},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2192, col: 5, offset: 70803},
+							pos: position{line: 2196, col: 5, offset: 71074},
 							run: (*parser).callonDoubleQuoteMarkedTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2196, col: 5, offset: 70923},
+							pos:   position{line: 2200, col: 5, offset: 71194},
 							label: "elements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2196, col: 14, offset: 70932},
+								pos: position{line: 2200, col: 14, offset: 71203},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2196, col: 15, offset: 70933},
+									pos:  position{line: 2200, col: 15, offset: 71204},
 									name: "DoubleQuoteMarkedTextElement",
 								},
 							},
@@ -42955,33 +42955,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2200, col: 1, offset: 71002},
+			pos:  position{line: 2204, col: 1, offset: 71273},
 			expr: &actionExpr{
-				pos: position{line: 2201, col: 5, offset: 71071},
+				pos: position{line: 2205, col: 5, offset: 71342},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2201, col: 5, offset: 71071},
+					pos: position{line: 2205, col: 5, offset: 71342},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2935, col: 11, offset: 92473},
+							pos: position{line: 2939, col: 11, offset: 92744},
 							expr: &anyMatcher{
-								line: 2935, col: 13, offset: 92475,
+								line: 2939, col: 13, offset: 92746,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2202, col: 5, offset: 71082},
+							pos: position{line: 2206, col: 5, offset: 71353},
 							expr: &litMatcher{
-								pos:        position{line: 2182, col: 38, offset: 70513},
+								pos:        position{line: 2186, col: 38, offset: 70784},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2203, col: 5, offset: 71121},
+							pos:   position{line: 2207, col: 5, offset: 71392},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2203, col: 14, offset: 71130},
+								pos:  position{line: 2207, col: 14, offset: 71401},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42991,29 +42991,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2228, col: 1, offset: 71812},
+			pos:  position{line: 2232, col: 1, offset: 72083},
 			expr: &actionExpr{
-				pos: position{line: 2229, col: 5, offset: 71842},
+				pos: position{line: 2233, col: 5, offset: 72113},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2229, col: 5, offset: 71842},
+					pos: position{line: 2233, col: 5, offset: 72113},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2212, col: 5, offset: 71378},
+							pos:        position{line: 2216, col: 5, offset: 71649},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2213, col: 5, offset: 71387},
+							pos: position{line: 2217, col: 5, offset: 71658},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2217, col: 5, offset: 71507},
+							pos: position{line: 2221, col: 5, offset: 71778},
 							expr: &notExpr{
-								pos: position{line: 2217, col: 7, offset: 71509},
+								pos: position{line: 2221, col: 7, offset: 71780},
 								expr: &litMatcher{
-									pos:        position{line: 2217, col: 8, offset: 71510},
+									pos:        position{line: 2221, col: 8, offset: 71781},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43021,38 +43021,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2230, col: 5, offset: 71882},
+							pos:   position{line: 2234, col: 5, offset: 72153},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2230, col: 15, offset: 71892},
+								pos:  position{line: 2234, col: 15, offset: 72163},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2220, col: 5, offset: 71615},
+							pos:        position{line: 2224, col: 5, offset: 71886},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2221, col: 5, offset: 71623},
+							pos: position{line: 2225, col: 5, offset: 71894},
 							expr: &litMatcher{
-								pos:        position{line: 2221, col: 6, offset: 71624},
+								pos:        position{line: 2225, col: 6, offset: 71895},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2222, col: 5, offset: 71687},
+							pos: position{line: 2226, col: 5, offset: 71958},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2226, col: 5, offset: 71798},
+							pos: position{line: 2230, col: 5, offset: 72069},
 							expr: &notExpr{
-								pos: position{line: 2226, col: 7, offset: 71800},
+								pos: position{line: 2230, col: 7, offset: 72071},
 								expr: &charClassMatcher{
-									pos:        position{line: 2808, col: 13, offset: 89234},
+									pos:        position{line: 2812, col: 13, offset: 89505},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43066,20 +43066,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2235, col: 1, offset: 72059},
+			pos:  position{line: 2239, col: 1, offset: 72330},
 			expr: &actionExpr{
-				pos: position{line: 2236, col: 5, offset: 72097},
+				pos: position{line: 2240, col: 5, offset: 72368},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2236, col: 5, offset: 72097},
+					pos: position{line: 2240, col: 5, offset: 72368},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2236, col: 5, offset: 72097},
+							pos: position{line: 2240, col: 5, offset: 72368},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92139},
+								pos: position{line: 2922, col: 10, offset: 92410},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92139},
+									pos:        position{line: 2922, col: 10, offset: 92410},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43088,18 +43088,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2237, col: 5, offset: 72136},
+							pos:   position{line: 2241, col: 5, offset: 72407},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2237, col: 14, offset: 72145},
+								pos: position{line: 2241, col: 14, offset: 72416},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2237, col: 15, offset: 72146},
+									pos:  position{line: 2241, col: 15, offset: 72417},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2238, col: 5, offset: 72182},
+							pos: position{line: 2242, col: 5, offset: 72453},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -43108,49 +43108,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2244, col: 1, offset: 72323},
+			pos:  position{line: 2248, col: 1, offset: 72594},
 			expr: &actionExpr{
-				pos: position{line: 2245, col: 5, offset: 72360},
+				pos: position{line: 2249, col: 5, offset: 72631},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2245, col: 5, offset: 72360},
+					pos: position{line: 2249, col: 5, offset: 72631},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2935, col: 11, offset: 92473},
+							pos: position{line: 2939, col: 11, offset: 92744},
 							expr: &anyMatcher{
-								line: 2935, col: 13, offset: 92475,
+								line: 2939, col: 13, offset: 92746,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2246, col: 5, offset: 72371},
+							pos: position{line: 2250, col: 5, offset: 72642},
 							expr: &seqExpr{
-								pos: position{line: 2220, col: 5, offset: 71615},
+								pos: position{line: 2224, col: 5, offset: 71886},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2220, col: 5, offset: 71615},
+										pos:        position{line: 2224, col: 5, offset: 71886},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2221, col: 5, offset: 71623},
+										pos: position{line: 2225, col: 5, offset: 71894},
 										expr: &litMatcher{
-											pos:        position{line: 2221, col: 6, offset: 71624},
+											pos:        position{line: 2225, col: 6, offset: 71895},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2222, col: 5, offset: 71687},
+										pos: position{line: 2226, col: 5, offset: 71958},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2226, col: 5, offset: 71798},
+										pos: position{line: 2230, col: 5, offset: 72069},
 										expr: &notExpr{
-											pos: position{line: 2226, col: 7, offset: 71800},
+											pos: position{line: 2230, col: 7, offset: 72071},
 											expr: &charClassMatcher{
-												pos:        position{line: 2808, col: 13, offset: 89234},
+												pos:        position{line: 2812, col: 13, offset: 89505},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43162,10 +43162,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2247, col: 5, offset: 72410},
+							pos:   position{line: 2251, col: 5, offset: 72681},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2247, col: 14, offset: 72419},
+								pos:  position{line: 2251, col: 14, offset: 72690},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43175,35 +43175,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2252, col: 1, offset: 72507},
+			pos:  position{line: 2256, col: 1, offset: 72778},
 			expr: &choiceExpr{
-				pos: position{line: 2254, col: 5, offset: 72571},
+				pos: position{line: 2258, col: 5, offset: 72842},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2254, col: 5, offset: 72571},
+						pos: position{line: 2258, col: 5, offset: 72842},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2254, col: 5, offset: 72571},
+							pos: position{line: 2258, col: 5, offset: 72842},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2254, col: 5, offset: 72571},
+									pos:   position{line: 2258, col: 5, offset: 72842},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60090},
+										pos: position{line: 1865, col: 25, offset: 60361},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1861, col: 25, offset: 60090},
+											pos: position{line: 1865, col: 25, offset: 60361},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1861, col: 25, offset: 60090},
+													pos:        position{line: 1865, col: 25, offset: 60361},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1861, col: 30, offset: 60095},
+													pos: position{line: 1865, col: 30, offset: 60366},
 													expr: &litMatcher{
-														pos:        position{line: 1861, col: 30, offset: 60095},
+														pos:        position{line: 1865, col: 30, offset: 60366},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43214,21 +43214,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2254, col: 40, offset: 72606},
+									pos:        position{line: 2258, col: 40, offset: 72877},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2254, col: 45, offset: 72611},
+									pos:   position{line: 2258, col: 45, offset: 72882},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2254, col: 55, offset: 72621},
+										pos:  position{line: 2258, col: 55, offset: 72892},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2254, col: 86, offset: 72652},
+									pos:        position{line: 2258, col: 86, offset: 72923},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -43237,21 +43237,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2258, col: 7, offset: 72817},
+						pos: position{line: 2262, col: 7, offset: 73088},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2258, col: 7, offset: 72817},
+							pos: position{line: 2262, col: 7, offset: 73088},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2258, col: 7, offset: 72817},
+									pos:   position{line: 2262, col: 7, offset: 73088},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 60017},
+										pos: position{line: 1861, col: 25, offset: 60288},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1857, col: 25, offset: 60017},
+											pos: position{line: 1861, col: 25, offset: 60288},
 											expr: &litMatcher{
-												pos:        position{line: 1857, col: 25, offset: 60017},
+												pos:        position{line: 1861, col: 25, offset: 60288},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43260,21 +43260,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2258, col: 42, offset: 72852},
+									pos:        position{line: 2262, col: 42, offset: 73123},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2258, col: 47, offset: 72857},
+									pos:   position{line: 2262, col: 47, offset: 73128},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2258, col: 57, offset: 72867},
+										pos:  position{line: 2262, col: 57, offset: 73138},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2258, col: 88, offset: 72898},
+									pos:        position{line: 2262, col: 88, offset: 73169},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43283,21 +43283,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2263, col: 7, offset: 73101},
+						pos: position{line: 2267, col: 7, offset: 73372},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2263, col: 7, offset: 73101},
+							pos: position{line: 2267, col: 7, offset: 73372},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2263, col: 7, offset: 73101},
+									pos:   position{line: 2267, col: 7, offset: 73372},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 60017},
+										pos: position{line: 1861, col: 25, offset: 60288},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1857, col: 25, offset: 60017},
+											pos: position{line: 1861, col: 25, offset: 60288},
 											expr: &litMatcher{
-												pos:        position{line: 1857, col: 25, offset: 60017},
+												pos:        position{line: 1861, col: 25, offset: 60288},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43306,21 +43306,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2263, col: 42, offset: 73136},
+									pos:        position{line: 2267, col: 42, offset: 73407},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2263, col: 46, offset: 73140},
+									pos:   position{line: 2267, col: 46, offset: 73411},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2263, col: 56, offset: 73150},
+										pos:  position{line: 2267, col: 56, offset: 73421},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2263, col: 87, offset: 73181},
+									pos:        position{line: 2267, col: 87, offset: 73452},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43333,29 +43333,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2270, col: 1, offset: 73448},
+			pos:  position{line: 2274, col: 1, offset: 73719},
 			expr: &actionExpr{
-				pos: position{line: 2271, col: 5, offset: 73470},
+				pos: position{line: 2275, col: 5, offset: 73741},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2271, col: 5, offset: 73470},
+					pos: position{line: 2275, col: 5, offset: 73741},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2277, col: 27, offset: 73685},
+							pos:        position{line: 2281, col: 27, offset: 73956},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2272, col: 5, offset: 73497},
+							pos:   position{line: 2276, col: 5, offset: 73768},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2272, col: 14, offset: 73506},
+								pos:  position{line: 2276, col: 14, offset: 73777},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2277, col: 27, offset: 73685},
+							pos:        position{line: 2281, col: 27, offset: 73956},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43366,34 +43366,34 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2279, col: 1, offset: 73690},
+			pos:  position{line: 2283, col: 1, offset: 73961},
 			expr: &actionExpr{
-				pos: position{line: 2280, col: 5, offset: 73718},
+				pos: position{line: 2284, col: 5, offset: 73989},
 				run: (*parser).callonSubscriptTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2280, col: 5, offset: 73718},
+					pos: position{line: 2284, col: 5, offset: 73989},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2280, col: 5, offset: 73718},
+							pos: position{line: 2284, col: 5, offset: 73989},
 							run: (*parser).callonSubscriptTextElement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2284, col: 5, offset: 73838},
+							pos:   position{line: 2288, col: 5, offset: 74109},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2284, col: 14, offset: 73847},
+								pos: position{line: 2288, col: 14, offset: 74118},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2284, col: 14, offset: 73847},
+										pos:  position{line: 2288, col: 14, offset: 74118},
 										name: "QuotedText",
 									},
 									&actionExpr{
-										pos: position{line: 2288, col: 21, offset: 73935},
+										pos: position{line: 2292, col: 21, offset: 74206},
 										run: (*parser).callonSubscriptTextElement7,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2288, col: 21, offset: 73935},
+											pos: position{line: 2292, col: 21, offset: 74206},
 											expr: &charClassMatcher{
-												pos:        position{line: 2288, col: 21, offset: 73935},
+												pos:        position{line: 2292, col: 21, offset: 74206},
 												val:        "[^\\r\\n ~]",
 												chars:      []rune{'\r', '\n', ' ', '~'},
 												ignoreCase: false,
@@ -43410,23 +43410,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2292, col: 1, offset: 74020},
+			pos:  position{line: 2296, col: 1, offset: 74291},
 			expr: &actionExpr{
-				pos: position{line: 2294, col: 5, offset: 74087},
+				pos: position{line: 2298, col: 5, offset: 74358},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2294, col: 5, offset: 74087},
+					pos: position{line: 2298, col: 5, offset: 74358},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2294, col: 5, offset: 74087},
+							pos:   position{line: 2298, col: 5, offset: 74358},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1857, col: 25, offset: 60017},
+								pos: position{line: 1861, col: 25, offset: 60288},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1857, col: 25, offset: 60017},
+									pos: position{line: 1861, col: 25, offset: 60288},
 									expr: &litMatcher{
-										pos:        position{line: 1857, col: 25, offset: 60017},
+										pos:        position{line: 1861, col: 25, offset: 60288},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43435,21 +43435,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2277, col: 27, offset: 73685},
+							pos:        position{line: 2281, col: 27, offset: 73956},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2296, col: 5, offset: 74155},
+							pos:   position{line: 2300, col: 5, offset: 74426},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2296, col: 14, offset: 74164},
+								pos:  position{line: 2300, col: 14, offset: 74435},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2277, col: 27, offset: 73685},
+							pos:        position{line: 2281, col: 27, offset: 73956},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43460,29 +43460,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2304, col: 1, offset: 74427},
+			pos:  position{line: 2308, col: 1, offset: 74698},
 			expr: &actionExpr{
-				pos: position{line: 2305, col: 5, offset: 74451},
+				pos: position{line: 2309, col: 5, offset: 74722},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2305, col: 5, offset: 74451},
+					pos: position{line: 2309, col: 5, offset: 74722},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2311, col: 29, offset: 74678},
+							pos:        position{line: 2315, col: 29, offset: 74949},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2306, col: 5, offset: 74481},
+							pos:   position{line: 2310, col: 5, offset: 74752},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2306, col: 14, offset: 74490},
+								pos:  position{line: 2310, col: 14, offset: 74761},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2311, col: 29, offset: 74678},
+							pos:        position{line: 2315, col: 29, offset: 74949},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43493,34 +43493,34 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2313, col: 1, offset: 74683},
+			pos:  position{line: 2317, col: 1, offset: 74954},
 			expr: &actionExpr{
-				pos: position{line: 2314, col: 5, offset: 74713},
+				pos: position{line: 2318, col: 5, offset: 74984},
 				run: (*parser).callonSuperscriptTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2314, col: 5, offset: 74713},
+					pos: position{line: 2318, col: 5, offset: 74984},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2314, col: 5, offset: 74713},
+							pos: position{line: 2318, col: 5, offset: 74984},
 							run: (*parser).callonSuperscriptTextElement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2318, col: 5, offset: 74833},
+							pos:   position{line: 2322, col: 5, offset: 75104},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2318, col: 14, offset: 74842},
+								pos: position{line: 2322, col: 14, offset: 75113},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2318, col: 14, offset: 74842},
+										pos:  position{line: 2322, col: 14, offset: 75113},
 										name: "QuotedText",
 									},
 									&actionExpr{
-										pos: position{line: 2322, col: 23, offset: 74934},
+										pos: position{line: 2326, col: 23, offset: 75205},
 										run: (*parser).callonSuperscriptTextElement7,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2322, col: 23, offset: 74934},
+											pos: position{line: 2326, col: 23, offset: 75205},
 											expr: &charClassMatcher{
-												pos:        position{line: 2322, col: 23, offset: 74934},
+												pos:        position{line: 2326, col: 23, offset: 75205},
 												val:        "[^\\r\\n ^]",
 												chars:      []rune{'\r', '\n', ' ', '^'},
 												ignoreCase: false,
@@ -43537,23 +43537,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2326, col: 1, offset: 75019},
+			pos:  position{line: 2330, col: 1, offset: 75290},
 			expr: &actionExpr{
-				pos: position{line: 2328, col: 5, offset: 75091},
+				pos: position{line: 2332, col: 5, offset: 75362},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2328, col: 5, offset: 75091},
+					pos: position{line: 2332, col: 5, offset: 75362},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2328, col: 5, offset: 75091},
+							pos:   position{line: 2332, col: 5, offset: 75362},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1857, col: 25, offset: 60017},
+								pos: position{line: 1861, col: 25, offset: 60288},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1857, col: 25, offset: 60017},
+									pos: position{line: 1861, col: 25, offset: 60288},
 									expr: &litMatcher{
-										pos:        position{line: 1857, col: 25, offset: 60017},
+										pos:        position{line: 1861, col: 25, offset: 60288},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43562,21 +43562,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2311, col: 29, offset: 74678},
+							pos:        position{line: 2315, col: 29, offset: 74949},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2330, col: 5, offset: 75161},
+							pos:   position{line: 2334, col: 5, offset: 75432},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2330, col: 14, offset: 75170},
+								pos:  position{line: 2334, col: 14, offset: 75441},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2311, col: 29, offset: 74678},
+							pos:        position{line: 2315, col: 29, offset: 74949},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43587,27 +43587,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2339, col: 1, offset: 75639},
+			pos:  position{line: 2343, col: 1, offset: 75910},
 			expr: &actionExpr{
-				pos: position{line: 2340, col: 5, offset: 75655},
+				pos: position{line: 2344, col: 5, offset: 75926},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2340, col: 5, offset: 75655},
+					pos: position{line: 2344, col: 5, offset: 75926},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2340, col: 5, offset: 75655},
+							pos: position{line: 2344, col: 5, offset: 75926},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2343, col: 5, offset: 75718},
+							pos:   position{line: 2347, col: 5, offset: 75989},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2343, col: 12, offset: 75725},
+								pos: position{line: 2347, col: 12, offset: 75996},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2343, col: 12, offset: 75725},
+									pos: position{line: 2347, col: 12, offset: 75996},
 									expr: &litMatcher{
-										pos:        position{line: 2343, col: 13, offset: 75726},
+										pos:        position{line: 2347, col: 13, offset: 75997},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -43616,16 +43616,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2347, col: 5, offset: 75834},
+							pos: position{line: 2351, col: 5, offset: 76105},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2922, col: 11, offset: 92200},
+							pos: position{line: 2926, col: 11, offset: 92471},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2922, col: 11, offset: 92200},
+								pos: position{line: 2926, col: 11, offset: 92471},
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 11, offset: 92200},
+									pos:        position{line: 2926, col: 11, offset: 92471},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43634,36 +43634,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2351, col: 12, offset: 75993},
+							pos:   position{line: 2355, col: 12, offset: 76264},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2351, col: 19, offset: 76000},
+								pos:  position{line: 2355, col: 19, offset: 76271},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2940, col: 8, offset: 92537},
+							pos: position{line: 2944, col: 8, offset: 92808},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2927, col: 12, offset: 92310},
+									pos: position{line: 2931, col: 12, offset: 92581},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2927, col: 13, offset: 92311},
+										pos: position{line: 2931, col: 13, offset: 92582},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2927, col: 13, offset: 92311},
+												pos:        position{line: 2931, col: 13, offset: 92582},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 20, offset: 92318},
+												pos:        position{line: 2931, col: 20, offset: 92589},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 29, offset: 92327},
+												pos:        position{line: 2931, col: 29, offset: 92598},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43672,9 +43672,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2937, col: 8, offset: 92487},
+									pos: position{line: 2941, col: 8, offset: 92758},
 									expr: &anyMatcher{
-										line: 2937, col: 9, offset: 92488,
+										line: 2941, col: 9, offset: 92759,
 									},
 								},
 							},
@@ -43685,24 +43685,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2355, col: 1, offset: 76096},
+			pos:  position{line: 2359, col: 1, offset: 76367},
 			expr: &actionExpr{
-				pos: position{line: 2356, col: 5, offset: 76117},
+				pos: position{line: 2360, col: 5, offset: 76388},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2356, col: 5, offset: 76117},
+					pos: position{line: 2360, col: 5, offset: 76388},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2356, col: 5, offset: 76117},
+							pos: position{line: 2360, col: 5, offset: 76388},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2362, col: 5, offset: 76308},
+							pos:   position{line: 2366, col: 5, offset: 76579},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2362, col: 14, offset: 76317},
+								pos: position{line: 2366, col: 14, offset: 76588},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2362, col: 15, offset: 76318},
+									pos:  position{line: 2366, col: 15, offset: 76589},
 									name: "SectionTitleElement",
 								},
 							},
@@ -43713,38 +43713,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2366, col: 1, offset: 76399},
+			pos:  position{line: 2370, col: 1, offset: 76670},
 			expr: &actionExpr{
-				pos: position{line: 2367, col: 5, offset: 76426},
+				pos: position{line: 2371, col: 5, offset: 76697},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2367, col: 5, offset: 76426},
+					pos: position{line: 2371, col: 5, offset: 76697},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2367, col: 5, offset: 76426},
+							pos: position{line: 2371, col: 5, offset: 76697},
 							expr: &choiceExpr{
-								pos: position{line: 2940, col: 8, offset: 92537},
+								pos: position{line: 2944, col: 8, offset: 92808},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2927, col: 12, offset: 92310},
+										pos: position{line: 2931, col: 12, offset: 92581},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2927, col: 13, offset: 92311},
+											pos: position{line: 2931, col: 13, offset: 92582},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2927, col: 13, offset: 92311},
+													pos:        position{line: 2931, col: 13, offset: 92582},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2927, col: 20, offset: 92318},
+													pos:        position{line: 2931, col: 20, offset: 92589},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2927, col: 29, offset: 92327},
+													pos:        position{line: 2931, col: 29, offset: 92598},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43753,36 +43753,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2937, col: 8, offset: 92487},
+										pos: position{line: 2941, col: 8, offset: 92758},
 										expr: &anyMatcher{
-											line: 2937, col: 9, offset: 92488,
+											line: 2941, col: 9, offset: 92759,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2368, col: 5, offset: 76435},
+							pos:   position{line: 2372, col: 5, offset: 76706},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2369, col: 9, offset: 76453},
+								pos: position{line: 2373, col: 9, offset: 76724},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2817, col: 5, offset: 89381},
+										pos: position{line: 2821, col: 5, offset: 89652},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2817, col: 5, offset: 89381},
+											pos: position{line: 2821, col: 5, offset: 89652},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2817, col: 5, offset: 89381},
+													pos:   position{line: 2821, col: 5, offset: 89652},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2817, col: 11, offset: 89387},
+														pos: position{line: 2821, col: 11, offset: 89658},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2817, col: 11, offset: 89387},
+															pos: position{line: 2821, col: 11, offset: 89658},
 															expr: &charClassMatcher{
-																pos:        position{line: 2817, col: 11, offset: 89387},
+																pos:        position{line: 2821, col: 11, offset: 89658},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43792,36 +43792,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2820, col: 5, offset: 89445},
+													pos: position{line: 2824, col: 5, offset: 89716},
 													expr: &seqExpr{
-														pos: position{line: 2821, col: 9, offset: 89456},
+														pos: position{line: 2825, col: 9, offset: 89727},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2821, col: 9, offset: 89456},
+																pos:        position{line: 2825, col: 9, offset: 89727},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2822, col: 9, offset: 89505},
+																pos: position{line: 2826, col: 9, offset: 89776},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2826, col: 5, offset: 89585},
+													pos: position{line: 2830, col: 5, offset: 89856},
 													expr: &seqExpr{
-														pos: position{line: 2827, col: 9, offset: 89596},
+														pos: position{line: 2831, col: 9, offset: 89867},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2827, col: 9, offset: 89596},
+																pos:        position{line: 2831, col: 9, offset: 89867},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2827, col: 13, offset: 89600},
+																pos:        position{line: 2831, col: 13, offset: 89871},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43834,12 +43834,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2922, col: 11, offset: 92200},
+										pos: position{line: 2926, col: 11, offset: 92471},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2922, col: 11, offset: 92200},
+											pos: position{line: 2926, col: 11, offset: 92471},
 											expr: &charClassMatcher{
-												pos:        position{line: 2922, col: 11, offset: 92200},
+												pos:        position{line: 2926, col: 11, offset: 92471},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43848,21 +43848,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2539, col: 5, offset: 81662},
+										pos: position{line: 2543, col: 5, offset: 81933},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2539, col: 5, offset: 81662},
+											pos: position{line: 2543, col: 5, offset: 81933},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2539, col: 5, offset: 81662},
+													pos:        position{line: 2543, col: 5, offset: 81933},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2539, col: 10, offset: 81667},
+													pos: position{line: 2543, col: 10, offset: 81938},
 													expr: &charClassMatcher{
-														pos:        position{line: 2539, col: 11, offset: 81668},
+														pos:        position{line: 2543, col: 11, offset: 81939},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43873,29 +43873,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2545, col: 5, offset: 81860},
+										pos: position{line: 2549, col: 5, offset: 82131},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2545, col: 5, offset: 81860},
+											pos: position{line: 2549, col: 5, offset: 82131},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2545, col: 5, offset: 81860},
+													pos: position{line: 2549, col: 5, offset: 82131},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2548, col: 5, offset: 81931},
+													pos: position{line: 2552, col: 5, offset: 82202},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2552, col: 5, offset: 82056},
+													pos:        position{line: 2556, col: 5, offset: 82327},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2552, col: 9, offset: 82060},
+													pos: position{line: 2556, col: 9, offset: 82331},
 													expr: &charClassMatcher{
-														pos:        position{line: 2552, col: 10, offset: 82061},
+														pos:        position{line: 2556, col: 10, offset: 82332},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43906,31 +43906,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2372, col: 11, offset: 76518},
+										pos:  position{line: 2376, col: 11, offset: 76789},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2835, col: 5, offset: 89793},
+										pos: position{line: 2839, col: 5, offset: 90064},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2836, col: 9, offset: 89803},
+											pos: position{line: 2840, col: 9, offset: 90074},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2836, col: 10, offset: 89804},
+													pos:        position{line: 2840, col: 10, offset: 90075},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2838, col: 13, offset: 89901},
+													pos: position{line: 2842, col: 13, offset: 90172},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2838, col: 13, offset: 89901},
+															pos: position{line: 2842, col: 13, offset: 90172},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2841, col: 13, offset: 90001},
+															pos:        position{line: 2845, col: 13, offset: 90272},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43938,20 +43938,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2841, col: 19, offset: 90007},
+													pos:        position{line: 2845, col: 19, offset: 90278},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2844, col: 13, offset: 90045},
+													pos: position{line: 2848, col: 13, offset: 90316},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2844, col: 13, offset: 90045},
+															pos: position{line: 2848, col: 13, offset: 90316},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2847, col: 14, offset: 90138},
+															pos:        position{line: 2851, col: 14, offset: 90409},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -43960,18 +43960,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2849, col: 12, offset: 90182},
+													pos: position{line: 2853, col: 12, offset: 90453},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2849, col: 12, offset: 90182},
+															pos:        position{line: 2853, col: 12, offset: 90453},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2849, col: 16, offset: 90186},
+															pos: position{line: 2853, col: 16, offset: 90457},
 															expr: &litMatcher{
-																pos:        position{line: 2849, col: 17, offset: 90187},
+																pos:        position{line: 2853, col: 17, offset: 90458},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -43983,35 +43983,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2374, col: 11, offset: 76591},
+										pos:  position{line: 2378, col: 11, offset: 76862},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2375, col: 11, offset: 76607},
+										pos:  position{line: 2379, col: 11, offset: 76878},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2376, col: 11, offset: 76635},
+										pos:  position{line: 2380, col: 11, offset: 76906},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2508, col: 5, offset: 80463},
+										pos: position{line: 2512, col: 5, offset: 80734},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2508, col: 5, offset: 80463},
+											pos: position{line: 2512, col: 5, offset: 80734},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2508, col: 5, offset: 80463},
+													pos: position{line: 2512, col: 5, offset: 80734},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2511, col: 5, offset: 80539},
+													pos:   position{line: 2515, col: 5, offset: 80810},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2512, col: 9, offset: 80557},
+														pos: position{line: 2516, col: 9, offset: 80828},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2512, col: 10, offset: 80558},
+															pos:        position{line: 2516, col: 10, offset: 80829},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -44023,39 +44023,39 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2378, col: 11, offset: 76720},
+										pos:  position{line: 2382, col: 11, offset: 76991},
 										name: "InlineIcon",
 									},
 									&actionExpr{
-										pos: position{line: 645, col: 5, offset: 20519},
+										pos: position{line: 649, col: 5, offset: 20790},
 										run: (*parser).callonSectionTitleElement68,
 										expr: &seqExpr{
-											pos: position{line: 645, col: 5, offset: 20519},
+											pos: position{line: 649, col: 5, offset: 20790},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 645, col: 5, offset: 20519},
+													pos: position{line: 649, col: 5, offset: 20790},
 													run: (*parser).callonSectionTitleElement70,
 												},
 												&labeledExpr{
-													pos:   position{line: 648, col: 5, offset: 20591},
+													pos:   position{line: 652, col: 5, offset: 20862},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 648, col: 14, offset: 20600},
+														pos: position{line: 652, col: 14, offset: 20871},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 654, col: 5, offset: 20729},
+																pos: position{line: 658, col: 5, offset: 21000},
 																run: (*parser).callonSectionTitleElement73,
 																expr: &seqExpr{
-																	pos: position{line: 654, col: 5, offset: 20729},
+																	pos: position{line: 658, col: 5, offset: 21000},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 654, col: 5, offset: 20729},
+																			pos:        position{line: 658, col: 5, offset: 21000},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 654, col: 13, offset: 20737},
+																			pos:   position{line: 658, col: 13, offset: 21008},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -44087,7 +44087,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 654, col: 32, offset: 20756},
+																			pos:        position{line: 658, col: 32, offset: 21027},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44096,19 +44096,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 661, col: 5, offset: 20997},
+																pos: position{line: 665, col: 5, offset: 21268},
 																run: (*parser).callonSectionTitleElement83,
 																expr: &seqExpr{
-																	pos: position{line: 661, col: 5, offset: 20997},
+																	pos: position{line: 665, col: 5, offset: 21268},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 661, col: 5, offset: 20997},
+																			pos:        position{line: 665, col: 5, offset: 21268},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 661, col: 9, offset: 21001},
+																			pos:   position{line: 665, col: 9, offset: 21272},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -44140,7 +44140,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 661, col: 28, offset: 21020},
+																			pos:        position{line: 665, col: 28, offset: 21291},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44149,19 +44149,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 667, col: 25, offset: 21201},
+																pos: position{line: 671, col: 25, offset: 21472},
 																run: (*parser).callonSectionTitleElement93,
 																expr: &seqExpr{
-																	pos: position{line: 667, col: 25, offset: 21201},
+																	pos: position{line: 671, col: 25, offset: 21472},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 667, col: 25, offset: 21201},
+																			pos:        position{line: 671, col: 25, offset: 21472},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 667, col: 37, offset: 21213},
+																			pos:   position{line: 671, col: 37, offset: 21484},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -44193,33 +44193,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 667, col: 56, offset: 21232},
+																			pos:   position{line: 671, col: 56, offset: 21503},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 667, col: 62, offset: 21238},
+																				pos: position{line: 671, col: 62, offset: 21509},
 																				expr: &actionExpr{
-																					pos: position{line: 675, col: 17, offset: 21535},
+																					pos: position{line: 679, col: 17, offset: 21806},
 																					run: (*parser).callonSectionTitleElement104,
 																					expr: &seqExpr{
-																						pos: position{line: 675, col: 17, offset: 21535},
+																						pos: position{line: 679, col: 17, offset: 21806},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 675, col: 17, offset: 21535},
+																								pos:        position{line: 679, col: 17, offset: 21806},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 675, col: 21, offset: 21539},
+																								pos:   position{line: 679, col: 21, offset: 21810},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 675, col: 28, offset: 21546},
+																									pos: position{line: 679, col: 28, offset: 21817},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 675, col: 28, offset: 21546},
+																											pos: position{line: 679, col: 28, offset: 21817},
 																											run: (*parser).callonSectionTitleElement109,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 675, col: 28, offset: 21546},
+																												pos:        position{line: 679, col: 28, offset: 21817},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -44227,12 +44227,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 677, col: 9, offset: 21600},
+																											pos: position{line: 681, col: 9, offset: 21871},
 																											run: (*parser).callonSectionTitleElement111,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 677, col: 9, offset: 21600},
+																												pos: position{line: 681, col: 9, offset: 21871},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 677, col: 9, offset: 21600},
+																													pos:        position{line: 681, col: 9, offset: 21871},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44249,7 +44249,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 667, col: 78, offset: 21254},
+																			pos:        position{line: 671, col: 78, offset: 21525},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44258,19 +44258,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 671, col: 25, offset: 21372},
+																pos: position{line: 675, col: 25, offset: 21643},
 																run: (*parser).callonSectionTitleElement115,
 																expr: &seqExpr{
-																	pos: position{line: 671, col: 25, offset: 21372},
+																	pos: position{line: 675, col: 25, offset: 21643},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 671, col: 25, offset: 21372},
+																			pos:        position{line: 675, col: 25, offset: 21643},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 671, col: 38, offset: 21385},
+																			pos:   position{line: 675, col: 38, offset: 21656},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -44302,33 +44302,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 671, col: 57, offset: 21404},
+																			pos:   position{line: 675, col: 57, offset: 21675},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 671, col: 63, offset: 21410},
+																				pos: position{line: 675, col: 63, offset: 21681},
 																				expr: &actionExpr{
-																					pos: position{line: 675, col: 17, offset: 21535},
+																					pos: position{line: 679, col: 17, offset: 21806},
 																					run: (*parser).callonSectionTitleElement126,
 																					expr: &seqExpr{
-																						pos: position{line: 675, col: 17, offset: 21535},
+																						pos: position{line: 679, col: 17, offset: 21806},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 675, col: 17, offset: 21535},
+																								pos:        position{line: 679, col: 17, offset: 21806},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 675, col: 21, offset: 21539},
+																								pos:   position{line: 679, col: 21, offset: 21810},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 675, col: 28, offset: 21546},
+																									pos: position{line: 679, col: 28, offset: 21817},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 675, col: 28, offset: 21546},
+																											pos: position{line: 679, col: 28, offset: 21817},
 																											run: (*parser).callonSectionTitleElement131,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 675, col: 28, offset: 21546},
+																												pos:        position{line: 679, col: 28, offset: 21817},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -44336,12 +44336,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 677, col: 9, offset: 21600},
+																											pos: position{line: 681, col: 9, offset: 21871},
 																											run: (*parser).callonSectionTitleElement133,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 677, col: 9, offset: 21600},
+																												pos: position{line: 681, col: 9, offset: 21871},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 677, col: 9, offset: 21600},
+																													pos:        position{line: 681, col: 9, offset: 21871},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44358,7 +44358,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 671, col: 79, offset: 21426},
+																			pos:        position{line: 675, col: 79, offset: 21697},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44373,27 +44373,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1207, col: 23, offset: 37384},
+										pos: position{line: 1211, col: 23, offset: 37655},
 										run: (*parser).callonSectionTitleElement137,
 										expr: &seqExpr{
-											pos: position{line: 1207, col: 23, offset: 37384},
+											pos: position{line: 1211, col: 23, offset: 37655},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1205, col: 32, offset: 37352},
+													pos:        position{line: 1209, col: 32, offset: 37623},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1207, col: 51, offset: 37412},
+													pos:   position{line: 1211, col: 51, offset: 37683},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1207, col: 56, offset: 37417},
+														pos: position{line: 1211, col: 56, offset: 37688},
 														run: (*parser).callonSectionTitleElement141,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1207, col: 56, offset: 37417},
+															pos: position{line: 1211, col: 56, offset: 37688},
 															expr: &charClassMatcher{
-																pos:        position{line: 1207, col: 56, offset: 37417},
+																pos:        position{line: 1211, col: 56, offset: 37688},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -44403,7 +44403,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1205, col: 32, offset: 37352},
+													pos:        position{line: 1209, col: 32, offset: 37623},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -44412,17 +44412,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2391, col: 5, offset: 77173},
+										pos: position{line: 2395, col: 5, offset: 77444},
 										run: (*parser).callonSectionTitleElement145,
 										expr: &seqExpr{
-											pos: position{line: 2391, col: 5, offset: 77173},
+											pos: position{line: 2395, col: 5, offset: 77444},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2391, col: 5, offset: 77173},
+													pos: position{line: 2395, col: 5, offset: 77444},
 													run: (*parser).callonSectionTitleElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2394, col: 5, offset: 77228},
+													pos:   position{line: 2398, col: 5, offset: 77499},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 406, col: 5, offset: 12506},
@@ -44465,27 +44465,27 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 1207, col: 23, offset: 37384},
+																							pos: position{line: 1211, col: 23, offset: 37655},
 																							run: (*parser).callonSectionTitleElement160,
 																							expr: &seqExpr{
-																								pos: position{line: 1207, col: 23, offset: 37384},
+																								pos: position{line: 1211, col: 23, offset: 37655},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1205, col: 32, offset: 37352},
+																										pos:        position{line: 1209, col: 32, offset: 37623},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1207, col: 51, offset: 37412},
+																										pos:   position{line: 1211, col: 51, offset: 37683},
 																										label: "ref",
 																										expr: &actionExpr{
-																											pos: position{line: 1207, col: 56, offset: 37417},
+																											pos: position{line: 1211, col: 56, offset: 37688},
 																											run: (*parser).callonSectionTitleElement164,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1207, col: 56, offset: 37417},
+																												pos: position{line: 1211, col: 56, offset: 37688},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1207, col: 56, offset: 37417},
+																													pos:        position{line: 1211, col: 56, offset: 37688},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44495,7 +44495,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1205, col: 32, offset: 37352},
+																										pos:        position{line: 1209, col: 32, offset: 37623},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
@@ -44504,35 +44504,35 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20519},
+																							pos: position{line: 649, col: 5, offset: 20790},
 																							run: (*parser).callonSectionTitleElement168,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20519},
+																								pos: position{line: 649, col: 5, offset: 20790},
 																								exprs: []interface{}{
 																									&andCodeExpr{
-																										pos: position{line: 645, col: 5, offset: 20519},
+																										pos: position{line: 649, col: 5, offset: 20790},
 																										run: (*parser).callonSectionTitleElement170,
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 648, col: 5, offset: 20591},
+																										pos:   position{line: 652, col: 5, offset: 20862},
 																										label: "element",
 																										expr: &choiceExpr{
-																											pos: position{line: 648, col: 14, offset: 20600},
+																											pos: position{line: 652, col: 14, offset: 20871},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 654, col: 5, offset: 20729},
+																													pos: position{line: 658, col: 5, offset: 21000},
 																													run: (*parser).callonSectionTitleElement173,
 																													expr: &seqExpr{
-																														pos: position{line: 654, col: 5, offset: 20729},
+																														pos: position{line: 658, col: 5, offset: 21000},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 654, col: 5, offset: 20729},
+																																pos:        position{line: 658, col: 5, offset: 21000},
 																																val:        "\\{",
 																																ignoreCase: false,
 																																want:       "\"\\\\{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 654, col: 13, offset: 20737},
+																																pos:   position{line: 658, col: 13, offset: 21008},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
@@ -44564,7 +44564,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 654, col: 32, offset: 20756},
+																																pos:        position{line: 658, col: 32, offset: 21027},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44573,19 +44573,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 661, col: 5, offset: 20997},
+																													pos: position{line: 665, col: 5, offset: 21268},
 																													run: (*parser).callonSectionTitleElement183,
 																													expr: &seqExpr{
-																														pos: position{line: 661, col: 5, offset: 20997},
+																														pos: position{line: 665, col: 5, offset: 21268},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 661, col: 5, offset: 20997},
+																																pos:        position{line: 665, col: 5, offset: 21268},
 																																val:        "{",
 																																ignoreCase: false,
 																																want:       "\"{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 661, col: 9, offset: 21001},
+																																pos:   position{line: 665, col: 9, offset: 21272},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
@@ -44617,7 +44617,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 661, col: 28, offset: 21020},
+																																pos:        position{line: 665, col: 28, offset: 21291},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44626,19 +44626,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 667, col: 25, offset: 21201},
+																													pos: position{line: 671, col: 25, offset: 21472},
 																													run: (*parser).callonSectionTitleElement193,
 																													expr: &seqExpr{
-																														pos: position{line: 667, col: 25, offset: 21201},
+																														pos: position{line: 671, col: 25, offset: 21472},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 667, col: 25, offset: 21201},
+																																pos:        position{line: 671, col: 25, offset: 21472},
 																																val:        "{counter:",
 																																ignoreCase: false,
 																																want:       "\"{counter:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 667, col: 37, offset: 21213},
+																																pos:   position{line: 671, col: 37, offset: 21484},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
@@ -44670,33 +44670,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 667, col: 56, offset: 21232},
+																																pos:   position{line: 671, col: 56, offset: 21503},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 667, col: 62, offset: 21238},
+																																	pos: position{line: 671, col: 62, offset: 21509},
 																																	expr: &actionExpr{
-																																		pos: position{line: 675, col: 17, offset: 21535},
+																																		pos: position{line: 679, col: 17, offset: 21806},
 																																		run: (*parser).callonSectionTitleElement204,
 																																		expr: &seqExpr{
-																																			pos: position{line: 675, col: 17, offset: 21535},
+																																			pos: position{line: 679, col: 17, offset: 21806},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 675, col: 17, offset: 21535},
+																																					pos:        position{line: 679, col: 17, offset: 21806},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 675, col: 21, offset: 21539},
+																																					pos:   position{line: 679, col: 21, offset: 21810},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 675, col: 28, offset: 21546},
+																																						pos: position{line: 679, col: 28, offset: 21817},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 675, col: 28, offset: 21546},
+																																								pos: position{line: 679, col: 28, offset: 21817},
 																																								run: (*parser).callonSectionTitleElement209,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 675, col: 28, offset: 21546},
+																																									pos:        position{line: 679, col: 28, offset: 21817},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -44704,12 +44704,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 677, col: 9, offset: 21600},
+																																								pos: position{line: 681, col: 9, offset: 21871},
 																																								run: (*parser).callonSectionTitleElement211,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 677, col: 9, offset: 21600},
+																																									pos: position{line: 681, col: 9, offset: 21871},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 677, col: 9, offset: 21600},
+																																										pos:        position{line: 681, col: 9, offset: 21871},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -44726,7 +44726,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 667, col: 78, offset: 21254},
+																																pos:        position{line: 671, col: 78, offset: 21525},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44735,19 +44735,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 671, col: 25, offset: 21372},
+																													pos: position{line: 675, col: 25, offset: 21643},
 																													run: (*parser).callonSectionTitleElement215,
 																													expr: &seqExpr{
-																														pos: position{line: 671, col: 25, offset: 21372},
+																														pos: position{line: 675, col: 25, offset: 21643},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 671, col: 25, offset: 21372},
+																																pos:        position{line: 675, col: 25, offset: 21643},
 																																val:        "{counter2:",
 																																ignoreCase: false,
 																																want:       "\"{counter2:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 671, col: 38, offset: 21385},
+																																pos:   position{line: 675, col: 38, offset: 21656},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
@@ -44779,33 +44779,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 671, col: 57, offset: 21404},
+																																pos:   position{line: 675, col: 57, offset: 21675},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 671, col: 63, offset: 21410},
+																																	pos: position{line: 675, col: 63, offset: 21681},
 																																	expr: &actionExpr{
-																																		pos: position{line: 675, col: 17, offset: 21535},
+																																		pos: position{line: 679, col: 17, offset: 21806},
 																																		run: (*parser).callonSectionTitleElement226,
 																																		expr: &seqExpr{
-																																			pos: position{line: 675, col: 17, offset: 21535},
+																																			pos: position{line: 679, col: 17, offset: 21806},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 675, col: 17, offset: 21535},
+																																					pos:        position{line: 679, col: 17, offset: 21806},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 675, col: 21, offset: 21539},
+																																					pos:   position{line: 679, col: 21, offset: 21810},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 675, col: 28, offset: 21546},
+																																						pos: position{line: 679, col: 28, offset: 21817},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 675, col: 28, offset: 21546},
+																																								pos: position{line: 679, col: 28, offset: 21817},
 																																								run: (*parser).callonSectionTitleElement231,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 675, col: 28, offset: 21546},
+																																									pos:        position{line: 679, col: 28, offset: 21817},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -44813,12 +44813,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 677, col: 9, offset: 21600},
+																																								pos: position{line: 681, col: 9, offset: 21871},
 																																								run: (*parser).callonSectionTitleElement233,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 677, col: 9, offset: 21600},
+																																									pos: position{line: 681, col: 9, offset: 21871},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 677, col: 9, offset: 21600},
+																																										pos:        position{line: 681, col: 9, offset: 21871},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -44835,7 +44835,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 671, col: 79, offset: 21426},
+																																pos:        position{line: 675, col: 79, offset: 21697},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44876,12 +44876,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2394, col: 26, offset: 77249},
+													pos: position{line: 2398, col: 26, offset: 77520},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92139},
+														pos: position{line: 2922, col: 10, offset: 92410},
 														run: (*parser).callonSectionTitleElement241,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92139},
+															pos:        position{line: 2922, col: 10, offset: 92410},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44890,30 +44890,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2394, col: 33, offset: 77256},
+													pos: position{line: 2398, col: 33, offset: 77527},
 													expr: &choiceExpr{
-														pos: position{line: 2940, col: 8, offset: 92537},
+														pos: position{line: 2944, col: 8, offset: 92808},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92310},
+																pos: position{line: 2931, col: 12, offset: 92581},
 																run: (*parser).callonSectionTitleElement245,
 																expr: &choiceExpr{
-																	pos: position{line: 2927, col: 13, offset: 92311},
+																	pos: position{line: 2931, col: 13, offset: 92582},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 13, offset: 92311},
+																			pos:        position{line: 2931, col: 13, offset: 92582},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 20, offset: 92318},
+																			pos:        position{line: 2931, col: 20, offset: 92589},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 29, offset: 92327},
+																			pos:        position{line: 2931, col: 29, offset: 92598},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44922,9 +44922,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92487},
+																pos: position{line: 2941, col: 8, offset: 92758},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92488,
+																	line: 2941, col: 9, offset: 92759,
 																},
 															},
 														},
@@ -44934,27 +44934,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1262, col: 5, offset: 39144},
+										pos: position{line: 1266, col: 5, offset: 39415},
 										run: (*parser).callonSectionTitleElement252,
 										expr: &seqExpr{
-											pos: position{line: 1262, col: 5, offset: 39144},
+											pos: position{line: 1266, col: 5, offset: 39415},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1262, col: 5, offset: 39144},
+													pos:        position{line: 1266, col: 5, offset: 39415},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1262, col: 14, offset: 39153},
+													pos:   position{line: 1266, col: 14, offset: 39424},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 7, offset: 91791},
+														pos: position{line: 2907, col: 7, offset: 92062},
 														run: (*parser).callonSectionTitleElement256,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2903, col: 7, offset: 91791},
+															pos: position{line: 2907, col: 7, offset: 92062},
 															expr: &charClassMatcher{
-																pos:        position{line: 2903, col: 7, offset: 91791},
+																pos:        position{line: 2907, col: 7, offset: 92062},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -44964,7 +44964,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1262, col: 22, offset: 39161},
+													pos:        position{line: 1266, col: 22, offset: 39432},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44973,27 +44973,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1267, col: 5, offset: 39280},
+										pos: position{line: 1271, col: 5, offset: 39551},
 										run: (*parser).callonSectionTitleElement260,
 										expr: &seqExpr{
-											pos: position{line: 1267, col: 5, offset: 39280},
+											pos: position{line: 1271, col: 5, offset: 39551},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1267, col: 5, offset: 39280},
+													pos:        position{line: 1271, col: 5, offset: 39551},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1267, col: 10, offset: 39285},
+													pos:   position{line: 1271, col: 10, offset: 39556},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 7, offset: 91791},
+														pos: position{line: 2907, col: 7, offset: 92062},
 														run: (*parser).callonSectionTitleElement264,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2903, col: 7, offset: 91791},
+															pos: position{line: 2907, col: 7, offset: 92062},
 															expr: &charClassMatcher{
-																pos:        position{line: 2903, col: 7, offset: 91791},
+																pos:        position{line: 2907, col: 7, offset: 92062},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45003,7 +45003,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1267, col: 18, offset: 39293},
+													pos:        position{line: 1271, col: 18, offset: 39564},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45012,14 +45012,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2383, col: 11, offset: 76974},
+										pos:  position{line: 2387, col: 11, offset: 77245},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2857, col: 12, offset: 90447},
+										pos: position{line: 2861, col: 12, offset: 90718},
 										run: (*parser).callonSectionTitleElement269,
 										expr: &charClassMatcher{
-											pos:        position{line: 2857, col: 12, offset: 90447},
+											pos:        position{line: 2861, col: 12, offset: 90718},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45035,52 +45035,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2404, col: 1, offset: 77518},
+			pos:  position{line: 2408, col: 1, offset: 77789},
 			expr: &actionExpr{
-				pos: position{line: 2405, col: 5, offset: 77605},
+				pos: position{line: 2409, col: 5, offset: 77876},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2405, col: 5, offset: 77605},
+					pos: position{line: 2409, col: 5, offset: 77876},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2405, col: 5, offset: 77605},
+							pos:   position{line: 2409, col: 5, offset: 77876},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2405, col: 14, offset: 77614},
+								pos: position{line: 2409, col: 14, offset: 77885},
 								expr: &actionExpr{
-									pos: position{line: 2407, col: 9, offset: 77640},
+									pos: position{line: 2411, col: 9, offset: 77911},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2407, col: 9, offset: 77640},
+										pos: position{line: 2411, col: 9, offset: 77911},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2935, col: 11, offset: 92473},
+												pos: position{line: 2939, col: 11, offset: 92744},
 												expr: &anyMatcher{
-													line: 2935, col: 13, offset: 92475,
+													line: 2939, col: 13, offset: 92746,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2408, col: 9, offset: 77655},
+												pos:   position{line: 2412, col: 9, offset: 77926},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2409, col: 13, offset: 77677},
+													pos: position{line: 2413, col: 13, offset: 77948},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2817, col: 5, offset: 89381},
+															pos: position{line: 2821, col: 5, offset: 89652},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2817, col: 5, offset: 89381},
+																pos: position{line: 2821, col: 5, offset: 89652},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2817, col: 5, offset: 89381},
+																		pos:   position{line: 2821, col: 5, offset: 89652},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2817, col: 11, offset: 89387},
+																			pos: position{line: 2821, col: 11, offset: 89658},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2817, col: 11, offset: 89387},
+																				pos: position{line: 2821, col: 11, offset: 89658},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2817, col: 11, offset: 89387},
+																					pos:        position{line: 2821, col: 11, offset: 89658},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45090,36 +45090,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2820, col: 5, offset: 89445},
+																		pos: position{line: 2824, col: 5, offset: 89716},
 																		expr: &seqExpr{
-																			pos: position{line: 2821, col: 9, offset: 89456},
+																			pos: position{line: 2825, col: 9, offset: 89727},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2821, col: 9, offset: 89456},
+																					pos:        position{line: 2825, col: 9, offset: 89727},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2822, col: 9, offset: 89505},
+																					pos: position{line: 2826, col: 9, offset: 89776},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2826, col: 5, offset: 89585},
+																		pos: position{line: 2830, col: 5, offset: 89856},
 																		expr: &seqExpr{
-																			pos: position{line: 2827, col: 9, offset: 89596},
+																			pos: position{line: 2831, col: 9, offset: 89867},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2827, col: 9, offset: 89596},
+																					pos:        position{line: 2831, col: 9, offset: 89867},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2827, col: 13, offset: 89600},
+																					pos:        position{line: 2831, col: 13, offset: 89871},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45132,12 +45132,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2922, col: 11, offset: 92200},
+															pos: position{line: 2926, col: 11, offset: 92471},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2922, col: 11, offset: 92200},
+																pos: position{line: 2926, col: 11, offset: 92471},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2922, col: 11, offset: 92200},
+																	pos:        position{line: 2926, col: 11, offset: 92471},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45146,25 +45146,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2411, col: 15, offset: 77723},
+															pos:  position{line: 2415, col: 15, offset: 77994},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2539, col: 5, offset: 81662},
+															pos: position{line: 2543, col: 5, offset: 81933},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2539, col: 5, offset: 81662},
+																pos: position{line: 2543, col: 5, offset: 81933},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2539, col: 5, offset: 81662},
+																		pos:        position{line: 2543, col: 5, offset: 81933},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2539, col: 10, offset: 81667},
+																		pos: position{line: 2543, col: 10, offset: 81938},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2539, col: 11, offset: 81668},
+																			pos:        position{line: 2543, col: 11, offset: 81939},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45175,29 +45175,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2545, col: 5, offset: 81860},
+															pos: position{line: 2549, col: 5, offset: 82131},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2545, col: 5, offset: 81860},
+																pos: position{line: 2549, col: 5, offset: 82131},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2545, col: 5, offset: 81860},
+																		pos: position{line: 2549, col: 5, offset: 82131},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2548, col: 5, offset: 81931},
+																		pos: position{line: 2552, col: 5, offset: 82202},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2552, col: 5, offset: 82056},
+																		pos:        position{line: 2556, col: 5, offset: 82327},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2552, col: 9, offset: 82060},
+																		pos: position{line: 2556, col: 9, offset: 82331},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2552, col: 10, offset: 82061},
+																			pos:        position{line: 2556, col: 10, offset: 82332},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45208,27 +45208,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2835, col: 5, offset: 89793},
+															pos: position{line: 2839, col: 5, offset: 90064},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2836, col: 9, offset: 89803},
+																pos: position{line: 2840, col: 9, offset: 90074},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2836, col: 10, offset: 89804},
+																		pos:        position{line: 2840, col: 10, offset: 90075},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2838, col: 13, offset: 89901},
+																		pos: position{line: 2842, col: 13, offset: 90172},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2838, col: 13, offset: 89901},
+																				pos: position{line: 2842, col: 13, offset: 90172},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2841, col: 13, offset: 90001},
+																				pos:        position{line: 2845, col: 13, offset: 90272},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45236,20 +45236,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2841, col: 19, offset: 90007},
+																		pos:        position{line: 2845, col: 19, offset: 90278},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2844, col: 13, offset: 90045},
+																		pos: position{line: 2848, col: 13, offset: 90316},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2844, col: 13, offset: 90045},
+																				pos: position{line: 2848, col: 13, offset: 90316},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2847, col: 14, offset: 90138},
+																				pos:        position{line: 2851, col: 14, offset: 90409},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45258,18 +45258,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2849, col: 12, offset: 90182},
+																		pos: position{line: 2853, col: 12, offset: 90453},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2849, col: 12, offset: 90182},
+																				pos:        position{line: 2853, col: 12, offset: 90453},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2849, col: 16, offset: 90186},
+																				pos: position{line: 2853, col: 16, offset: 90457},
 																				expr: &litMatcher{
-																					pos:        position{line: 2849, col: 17, offset: 90187},
+																					pos:        position{line: 2853, col: 17, offset: 90458},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45281,25 +45281,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92310},
+															pos: position{line: 2931, col: 12, offset: 92581},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92311},
+																pos: position{line: 2931, col: 13, offset: 92582},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92311},
+																		pos:        position{line: 2931, col: 13, offset: 92582},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92318},
+																		pos:        position{line: 2931, col: 20, offset: 92589},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92327},
+																		pos:        position{line: 2931, col: 29, offset: 92598},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45308,35 +45308,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 645, col: 5, offset: 20519},
+															pos: position{line: 649, col: 5, offset: 20790},
 															run: (*parser).callonNormalGroup60,
 															expr: &seqExpr{
-																pos: position{line: 645, col: 5, offset: 20519},
+																pos: position{line: 649, col: 5, offset: 20790},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 645, col: 5, offset: 20519},
+																		pos: position{line: 649, col: 5, offset: 20790},
 																		run: (*parser).callonNormalGroup62,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 648, col: 5, offset: 20591},
+																		pos:   position{line: 652, col: 5, offset: 20862},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 648, col: 14, offset: 20600},
+																			pos: position{line: 652, col: 14, offset: 20871},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 654, col: 5, offset: 20729},
+																					pos: position{line: 658, col: 5, offset: 21000},
 																					run: (*parser).callonNormalGroup65,
 																					expr: &seqExpr{
-																						pos: position{line: 654, col: 5, offset: 20729},
+																						pos: position{line: 658, col: 5, offset: 21000},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 654, col: 5, offset: 20729},
+																								pos:        position{line: 658, col: 5, offset: 21000},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 654, col: 13, offset: 20737},
+																								pos:   position{line: 658, col: 13, offset: 21008},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -45368,7 +45368,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 654, col: 32, offset: 20756},
+																								pos:        position{line: 658, col: 32, offset: 21027},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45377,19 +45377,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 661, col: 5, offset: 20997},
+																					pos: position{line: 665, col: 5, offset: 21268},
 																					run: (*parser).callonNormalGroup75,
 																					expr: &seqExpr{
-																						pos: position{line: 661, col: 5, offset: 20997},
+																						pos: position{line: 665, col: 5, offset: 21268},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 661, col: 5, offset: 20997},
+																								pos:        position{line: 665, col: 5, offset: 21268},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 661, col: 9, offset: 21001},
+																								pos:   position{line: 665, col: 9, offset: 21272},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -45421,7 +45421,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 661, col: 28, offset: 21020},
+																								pos:        position{line: 665, col: 28, offset: 21291},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45430,19 +45430,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 667, col: 25, offset: 21201},
+																					pos: position{line: 671, col: 25, offset: 21472},
 																					run: (*parser).callonNormalGroup85,
 																					expr: &seqExpr{
-																						pos: position{line: 667, col: 25, offset: 21201},
+																						pos: position{line: 671, col: 25, offset: 21472},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 667, col: 25, offset: 21201},
+																								pos:        position{line: 671, col: 25, offset: 21472},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 667, col: 37, offset: 21213},
+																								pos:   position{line: 671, col: 37, offset: 21484},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -45474,33 +45474,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 667, col: 56, offset: 21232},
+																								pos:   position{line: 671, col: 56, offset: 21503},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 667, col: 62, offset: 21238},
+																									pos: position{line: 671, col: 62, offset: 21509},
 																									expr: &actionExpr{
-																										pos: position{line: 675, col: 17, offset: 21535},
+																										pos: position{line: 679, col: 17, offset: 21806},
 																										run: (*parser).callonNormalGroup96,
 																										expr: &seqExpr{
-																											pos: position{line: 675, col: 17, offset: 21535},
+																											pos: position{line: 679, col: 17, offset: 21806},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 675, col: 17, offset: 21535},
+																													pos:        position{line: 679, col: 17, offset: 21806},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 675, col: 21, offset: 21539},
+																													pos:   position{line: 679, col: 21, offset: 21810},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 675, col: 28, offset: 21546},
+																														pos: position{line: 679, col: 28, offset: 21817},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 675, col: 28, offset: 21546},
+																																pos: position{line: 679, col: 28, offset: 21817},
 																																run: (*parser).callonNormalGroup101,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 675, col: 28, offset: 21546},
+																																	pos:        position{line: 679, col: 28, offset: 21817},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -45508,12 +45508,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 677, col: 9, offset: 21600},
+																																pos: position{line: 681, col: 9, offset: 21871},
 																																run: (*parser).callonNormalGroup103,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 677, col: 9, offset: 21600},
+																																	pos: position{line: 681, col: 9, offset: 21871},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 677, col: 9, offset: 21600},
+																																		pos:        position{line: 681, col: 9, offset: 21871},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -45530,7 +45530,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 667, col: 78, offset: 21254},
+																								pos:        position{line: 671, col: 78, offset: 21525},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45539,19 +45539,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 671, col: 25, offset: 21372},
+																					pos: position{line: 675, col: 25, offset: 21643},
 																					run: (*parser).callonNormalGroup107,
 																					expr: &seqExpr{
-																						pos: position{line: 671, col: 25, offset: 21372},
+																						pos: position{line: 675, col: 25, offset: 21643},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 671, col: 25, offset: 21372},
+																								pos:        position{line: 675, col: 25, offset: 21643},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 671, col: 38, offset: 21385},
+																								pos:   position{line: 675, col: 38, offset: 21656},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -45583,33 +45583,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 671, col: 57, offset: 21404},
+																								pos:   position{line: 675, col: 57, offset: 21675},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 671, col: 63, offset: 21410},
+																									pos: position{line: 675, col: 63, offset: 21681},
 																									expr: &actionExpr{
-																										pos: position{line: 675, col: 17, offset: 21535},
+																										pos: position{line: 679, col: 17, offset: 21806},
 																										run: (*parser).callonNormalGroup118,
 																										expr: &seqExpr{
-																											pos: position{line: 675, col: 17, offset: 21535},
+																											pos: position{line: 679, col: 17, offset: 21806},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 675, col: 17, offset: 21535},
+																													pos:        position{line: 679, col: 17, offset: 21806},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 675, col: 21, offset: 21539},
+																													pos:   position{line: 679, col: 21, offset: 21810},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 675, col: 28, offset: 21546},
+																														pos: position{line: 679, col: 28, offset: 21817},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 675, col: 28, offset: 21546},
+																																pos: position{line: 679, col: 28, offset: 21817},
 																																run: (*parser).callonNormalGroup123,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 675, col: 28, offset: 21546},
+																																	pos:        position{line: 679, col: 28, offset: 21817},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -45617,12 +45617,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 677, col: 9, offset: 21600},
+																																pos: position{line: 681, col: 9, offset: 21871},
 																																run: (*parser).callonNormalGroup125,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 677, col: 9, offset: 21600},
+																																	pos: position{line: 681, col: 9, offset: 21871},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 677, col: 9, offset: 21600},
+																																		pos:        position{line: 681, col: 9, offset: 21871},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -45639,7 +45639,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 671, col: 79, offset: 21426},
+																								pos:        position{line: 675, col: 79, offset: 21697},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45654,35 +45654,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2416, col: 15, offset: 77890},
+															pos:  position{line: 2420, col: 15, offset: 78161},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2417, col: 15, offset: 77910},
+															pos:  position{line: 2421, col: 15, offset: 78181},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2418, col: 15, offset: 77999},
+															pos:  position{line: 2422, col: 15, offset: 78270},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2508, col: 5, offset: 80463},
+															pos: position{line: 2512, col: 5, offset: 80734},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2508, col: 5, offset: 80463},
+																pos: position{line: 2512, col: 5, offset: 80734},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2508, col: 5, offset: 80463},
+																		pos: position{line: 2512, col: 5, offset: 80734},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2511, col: 5, offset: 80539},
+																		pos:   position{line: 2515, col: 5, offset: 80810},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2512, col: 9, offset: 80557},
+																			pos: position{line: 2516, col: 9, offset: 80828},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2512, col: 10, offset: 80558},
+																				pos:        position{line: 2516, col: 10, offset: 80829},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -45694,32 +45694,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1215, col: 5, offset: 37830},
+															pos: position{line: 1219, col: 5, offset: 38101},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 1215, col: 5, offset: 37830},
+																pos: position{line: 1219, col: 5, offset: 38101},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1215, col: 5, offset: 37830},
+																		pos: position{line: 1219, col: 5, offset: 38101},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1218, col: 5, offset: 37906},
+																		pos:        position{line: 1222, col: 5, offset: 38177},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1219, col: 5, offset: 37914},
+																		pos: position{line: 1223, col: 5, offset: 38185},
 																		run: (*parser).callonNormalGroup142,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1223, col: 5, offset: 38001},
+																		pos: position{line: 1227, col: 5, offset: 38272},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92139},
+																			pos: position{line: 2922, col: 10, offset: 92410},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92139},
+																				pos:        position{line: 2922, col: 10, offset: 92410},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45728,30 +45728,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1223, col: 12, offset: 38008},
+																		pos: position{line: 1227, col: 12, offset: 38279},
 																		expr: &choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92537},
+																			pos: position{line: 2944, col: 8, offset: 92808},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92310},
+																					pos: position{line: 2931, col: 12, offset: 92581},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92311},
+																						pos: position{line: 2931, col: 13, offset: 92582},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92311},
+																								pos:        position{line: 2931, col: 13, offset: 92582},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92318},
+																								pos:        position{line: 2931, col: 20, offset: 92589},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92327},
+																								pos:        position{line: 2931, col: 29, offset: 92598},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45760,9 +45760,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92487},
+																					pos: position{line: 2941, col: 8, offset: 92758},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92488,
+																						line: 2941, col: 9, offset: 92759,
 																					},
 																				},
 																			},
@@ -45772,31 +45772,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2421, col: 15, offset: 78181},
+															pos:  position{line: 2425, col: 15, offset: 78452},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1207, col: 23, offset: 37384},
+															pos: position{line: 1211, col: 23, offset: 37655},
 															run: (*parser).callonNormalGroup156,
 															expr: &seqExpr{
-																pos: position{line: 1207, col: 23, offset: 37384},
+																pos: position{line: 1211, col: 23, offset: 37655},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1205, col: 32, offset: 37352},
+																		pos:        position{line: 1209, col: 32, offset: 37623},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1207, col: 51, offset: 37412},
+																		pos:   position{line: 1211, col: 51, offset: 37683},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1207, col: 56, offset: 37417},
+																			pos: position{line: 1211, col: 56, offset: 37688},
 																			run: (*parser).callonNormalGroup160,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1207, col: 56, offset: 37417},
+																				pos: position{line: 1211, col: 56, offset: 37688},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1207, col: 56, offset: 37417},
+																					pos:        position{line: 1211, col: 56, offset: 37688},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -45806,7 +45806,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1205, col: 32, offset: 37352},
+																		pos:        position{line: 1209, col: 32, offset: 37623},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -45815,10 +45815,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2857, col: 12, offset: 90447},
+															pos: position{line: 2861, col: 12, offset: 90718},
 															run: (*parser).callonNormalGroup164,
 															expr: &charClassMatcher{
-																pos:        position{line: 2857, col: 12, offset: 90447},
+																pos:        position{line: 2861, col: 12, offset: 90718},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45834,9 +45834,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2937, col: 8, offset: 92487},
+							pos: position{line: 2941, col: 8, offset: 92758},
 							expr: &anyMatcher{
-								line: 2937, col: 9, offset: 92488,
+								line: 2941, col: 9, offset: 92759,
 							},
 						},
 					},
@@ -45845,28 +45845,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2432, col: 1, offset: 78619},
+			pos:  position{line: 2436, col: 1, offset: 78890},
 			expr: &actionExpr{
-				pos: position{line: 2433, col: 5, offset: 78652},
+				pos: position{line: 2437, col: 5, offset: 78923},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2433, col: 5, offset: 78652},
+					pos: position{line: 2437, col: 5, offset: 78923},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2433, col: 5, offset: 78652},
+							pos:   position{line: 2437, col: 5, offset: 78923},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2433, col: 14, offset: 78661},
+								pos: position{line: 2437, col: 14, offset: 78932},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2433, col: 15, offset: 78662},
+									pos:  position{line: 2437, col: 15, offset: 78933},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2937, col: 8, offset: 92487},
+							pos: position{line: 2941, col: 8, offset: 92758},
 							expr: &anyMatcher{
-								line: 2937, col: 9, offset: 92488,
+								line: 2941, col: 9, offset: 92759,
 							},
 						},
 					},
@@ -45875,41 +45875,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2437, col: 1, offset: 78759},
+			pos:  position{line: 2441, col: 1, offset: 79030},
 			expr: &actionExpr{
-				pos: position{line: 2438, col: 5, offset: 78799},
+				pos: position{line: 2442, col: 5, offset: 79070},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2438, col: 5, offset: 78799},
+					pos: position{line: 2442, col: 5, offset: 79070},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2935, col: 11, offset: 92473},
+							pos: position{line: 2939, col: 11, offset: 92744},
 							expr: &anyMatcher{
-								line: 2935, col: 13, offset: 92475,
+								line: 2939, col: 13, offset: 92746,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2439, col: 5, offset: 78810},
+							pos:   position{line: 2443, col: 5, offset: 79081},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2440, col: 9, offset: 78828},
+								pos: position{line: 2444, col: 9, offset: 79099},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2817, col: 5, offset: 89381},
+										pos: position{line: 2821, col: 5, offset: 89652},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2817, col: 5, offset: 89381},
+											pos: position{line: 2821, col: 5, offset: 89652},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2817, col: 5, offset: 89381},
+													pos:   position{line: 2821, col: 5, offset: 89652},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2817, col: 11, offset: 89387},
+														pos: position{line: 2821, col: 11, offset: 89658},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2817, col: 11, offset: 89387},
+															pos: position{line: 2821, col: 11, offset: 89658},
 															expr: &charClassMatcher{
-																pos:        position{line: 2817, col: 11, offset: 89387},
+																pos:        position{line: 2821, col: 11, offset: 89658},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45919,36 +45919,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2820, col: 5, offset: 89445},
+													pos: position{line: 2824, col: 5, offset: 89716},
 													expr: &seqExpr{
-														pos: position{line: 2821, col: 9, offset: 89456},
+														pos: position{line: 2825, col: 9, offset: 89727},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2821, col: 9, offset: 89456},
+																pos:        position{line: 2825, col: 9, offset: 89727},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2822, col: 9, offset: 89505},
+																pos: position{line: 2826, col: 9, offset: 89776},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2826, col: 5, offset: 89585},
+													pos: position{line: 2830, col: 5, offset: 89856},
 													expr: &seqExpr{
-														pos: position{line: 2827, col: 9, offset: 89596},
+														pos: position{line: 2831, col: 9, offset: 89867},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2827, col: 9, offset: 89596},
+																pos:        position{line: 2831, col: 9, offset: 89867},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2827, col: 13, offset: 89600},
+																pos:        position{line: 2831, col: 13, offset: 89871},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45961,10 +45961,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2918, col: 10, offset: 92139},
+										pos: position{line: 2922, col: 10, offset: 92410},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2918, col: 10, offset: 92139},
+											pos:        position{line: 2922, col: 10, offset: 92410},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45972,31 +45972,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2442, col: 11, offset: 78866},
+										pos:  position{line: 2446, col: 11, offset: 79137},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2835, col: 5, offset: 89793},
+										pos: position{line: 2839, col: 5, offset: 90064},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2836, col: 9, offset: 89803},
+											pos: position{line: 2840, col: 9, offset: 90074},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2836, col: 10, offset: 89804},
+													pos:        position{line: 2840, col: 10, offset: 90075},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2838, col: 13, offset: 89901},
+													pos: position{line: 2842, col: 13, offset: 90172},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2838, col: 13, offset: 89901},
+															pos: position{line: 2842, col: 13, offset: 90172},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2841, col: 13, offset: 90001},
+															pos:        position{line: 2845, col: 13, offset: 90272},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46004,20 +46004,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2841, col: 19, offset: 90007},
+													pos:        position{line: 2845, col: 19, offset: 90278},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2844, col: 13, offset: 90045},
+													pos: position{line: 2848, col: 13, offset: 90316},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2844, col: 13, offset: 90045},
+															pos: position{line: 2848, col: 13, offset: 90316},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2847, col: 14, offset: 90138},
+															pos:        position{line: 2851, col: 14, offset: 90409},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46026,18 +46026,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2849, col: 12, offset: 90182},
+													pos: position{line: 2853, col: 12, offset: 90453},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2849, col: 12, offset: 90182},
+															pos:        position{line: 2853, col: 12, offset: 90453},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2849, col: 16, offset: 90186},
+															pos: position{line: 2853, col: 16, offset: 90457},
 															expr: &litMatcher{
-																pos:        position{line: 2849, col: 17, offset: 90187},
+																pos:        position{line: 2853, col: 17, offset: 90458},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46049,31 +46049,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2444, col: 11, offset: 78939},
+										pos:  position{line: 2448, col: 11, offset: 79210},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2445, col: 11, offset: 78955},
+										pos:  position{line: 2449, col: 11, offset: 79226},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2508, col: 5, offset: 80463},
+										pos: position{line: 2512, col: 5, offset: 80734},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2508, col: 5, offset: 80463},
+											pos: position{line: 2512, col: 5, offset: 80734},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2508, col: 5, offset: 80463},
+													pos: position{line: 2512, col: 5, offset: 80734},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2511, col: 5, offset: 80539},
+													pos:   position{line: 2515, col: 5, offset: 80810},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2512, col: 9, offset: 80557},
+														pos: position{line: 2516, col: 9, offset: 80828},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2512, col: 10, offset: 80558},
+															pos:        position{line: 2516, col: 10, offset: 80829},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46085,27 +46085,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1207, col: 23, offset: 37384},
+										pos: position{line: 1211, col: 23, offset: 37655},
 										run: (*parser).callonAttributeStructuredValueElement46,
 										expr: &seqExpr{
-											pos: position{line: 1207, col: 23, offset: 37384},
+											pos: position{line: 1211, col: 23, offset: 37655},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1205, col: 32, offset: 37352},
+													pos:        position{line: 1209, col: 32, offset: 37623},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1207, col: 51, offset: 37412},
+													pos:   position{line: 1211, col: 51, offset: 37683},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1207, col: 56, offset: 37417},
+														pos: position{line: 1211, col: 56, offset: 37688},
 														run: (*parser).callonAttributeStructuredValueElement50,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1207, col: 56, offset: 37417},
+															pos: position{line: 1211, col: 56, offset: 37688},
 															expr: &charClassMatcher{
-																pos:        position{line: 1207, col: 56, offset: 37417},
+																pos:        position{line: 1211, col: 56, offset: 37688},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -46115,7 +46115,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1205, col: 32, offset: 37352},
+													pos:        position{line: 1209, col: 32, offset: 37623},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -46124,25 +46124,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2927, col: 12, offset: 92310},
+										pos: position{line: 2931, col: 12, offset: 92581},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2927, col: 13, offset: 92311},
+											pos: position{line: 2931, col: 13, offset: 92582},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2927, col: 13, offset: 92311},
+													pos:        position{line: 2931, col: 13, offset: 92582},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2927, col: 20, offset: 92318},
+													pos:        position{line: 2931, col: 20, offset: 92589},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2927, col: 29, offset: 92327},
+													pos:        position{line: 2931, col: 29, offset: 92598},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46151,10 +46151,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2857, col: 12, offset: 90447},
+										pos: position{line: 2861, col: 12, offset: 90718},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2857, col: 12, offset: 90447},
+											pos:        position{line: 2861, col: 12, offset: 90718},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46170,73 +46170,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2456, col: 1, offset: 79225},
+			pos:  position{line: 2460, col: 1, offset: 79496},
 			expr: &actionExpr{
-				pos: position{line: 2458, col: 5, offset: 79307},
+				pos: position{line: 2462, col: 5, offset: 79578},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2458, col: 5, offset: 79307},
+					pos: position{line: 2462, col: 5, offset: 79578},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2458, col: 5, offset: 79307},
+							pos: position{line: 2462, col: 5, offset: 79578},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2461, col: 5, offset: 79372},
+							pos:   position{line: 2465, col: 5, offset: 79643},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2462, col: 9, offset: 79390},
+								pos: position{line: 2466, col: 9, offset: 79661},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2462, col: 9, offset: 79390},
+										pos:  position{line: 2466, col: 9, offset: 79661},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2463, col: 11, offset: 79411},
+										pos:  position{line: 2467, col: 11, offset: 79682},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2464, col: 11, offset: 79434},
+										pos:  position{line: 2468, col: 11, offset: 79705},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2465, col: 11, offset: 79450},
+										pos:  position{line: 2469, col: 11, offset: 79721},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2466, col: 11, offset: 79479},
+										pos:  position{line: 2470, col: 11, offset: 79750},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2467, col: 11, offset: 79505},
+										pos:  position{line: 2471, col: 11, offset: 79776},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2468, col: 11, offset: 79531},
+										pos:  position{line: 2472, col: 11, offset: 79802},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1262, col: 5, offset: 39144},
+										pos: position{line: 1266, col: 5, offset: 39415},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1262, col: 5, offset: 39144},
+											pos: position{line: 1266, col: 5, offset: 39415},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1262, col: 5, offset: 39144},
+													pos:        position{line: 1266, col: 5, offset: 39415},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1262, col: 14, offset: 39153},
+													pos:   position{line: 1266, col: 14, offset: 39424},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 7, offset: 91791},
+														pos: position{line: 2907, col: 7, offset: 92062},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2903, col: 7, offset: 91791},
+															pos: position{line: 2907, col: 7, offset: 92062},
 															expr: &charClassMatcher{
-																pos:        position{line: 2903, col: 7, offset: 91791},
+																pos:        position{line: 2907, col: 7, offset: 92062},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46246,7 +46246,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1262, col: 22, offset: 39161},
+													pos:        position{line: 1266, col: 22, offset: 39432},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46255,27 +46255,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1267, col: 5, offset: 39280},
+										pos: position{line: 1271, col: 5, offset: 39551},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1267, col: 5, offset: 39280},
+											pos: position{line: 1271, col: 5, offset: 39551},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1267, col: 5, offset: 39280},
+													pos:        position{line: 1271, col: 5, offset: 39551},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1267, col: 10, offset: 39285},
+													pos:   position{line: 1271, col: 10, offset: 39556},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 7, offset: 91791},
+														pos: position{line: 2907, col: 7, offset: 92062},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2903, col: 7, offset: 91791},
+															pos: position{line: 2907, col: 7, offset: 92062},
 															expr: &charClassMatcher{
-																pos:        position{line: 2903, col: 7, offset: 91791},
+																pos:        position{line: 2907, col: 7, offset: 92062},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46285,7 +46285,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1267, col: 18, offset: 39293},
+													pos:        position{line: 1271, col: 18, offset: 39564},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46294,40 +46294,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1306, col: 23, offset: 40769},
+										pos: position{line: 1310, col: 23, offset: 41040},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1306, col: 23, offset: 40769},
+											pos: position{line: 1310, col: 23, offset: 41040},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1306, col: 23, offset: 40769},
+													pos:        position{line: 1310, col: 23, offset: 41040},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1306, col: 29, offset: 40775},
+													pos:   position{line: 1310, col: 29, offset: 41046},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1313, col: 30, offset: 41106},
+														pos: position{line: 1317, col: 30, offset: 41377},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1313, col: 30, offset: 41106},
+															pos: position{line: 1317, col: 30, offset: 41377},
 															expr: &choiceExpr{
-																pos: position{line: 1313, col: 31, offset: 41107},
+																pos: position{line: 1317, col: 31, offset: 41378},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2808, col: 13, offset: 89234},
+																		pos:        position{line: 2812, col: 13, offset: 89505},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92139},
+																		pos: position{line: 2922, col: 10, offset: 92410},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92139},
+																			pos:        position{line: 2922, col: 10, offset: 92410},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46340,23 +46340,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1307, col: 5, offset: 40814},
+													pos:   position{line: 1311, col: 5, offset: 41085},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1307, col: 11, offset: 40820},
+														pos: position{line: 1311, col: 11, offset: 41091},
 														expr: &actionExpr{
-															pos: position{line: 1307, col: 12, offset: 40821},
+															pos: position{line: 1311, col: 12, offset: 41092},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1307, col: 12, offset: 40821},
+																pos: position{line: 1311, col: 12, offset: 41092},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1307, col: 12, offset: 40821},
+																		pos: position{line: 1311, col: 12, offset: 41092},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92139},
+																			pos: position{line: 2922, col: 10, offset: 92410},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92139},
+																				pos:        position{line: 2922, col: 10, offset: 92410},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46365,18 +46365,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1307, col: 19, offset: 40828},
+																		pos:        position{line: 1311, col: 19, offset: 41099},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1307, col: 23, offset: 40832},
+																		pos: position{line: 1311, col: 23, offset: 41103},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92139},
+																			pos: position{line: 2922, col: 10, offset: 92410},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92139},
+																				pos:        position{line: 2922, col: 10, offset: 92410},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46385,28 +46385,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1307, col: 30, offset: 40839},
+																		pos:   position{line: 1311, col: 30, offset: 41110},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1313, col: 30, offset: 41106},
+																			pos: position{line: 1317, col: 30, offset: 41377},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1313, col: 30, offset: 41106},
+																				pos: position{line: 1317, col: 30, offset: 41377},
 																				expr: &choiceExpr{
-																					pos: position{line: 1313, col: 31, offset: 41107},
+																					pos: position{line: 1317, col: 31, offset: 41378},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2808, col: 13, offset: 89234},
+																							pos:        position{line: 2812, col: 13, offset: 89505},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2918, col: 10, offset: 92139},
+																							pos: position{line: 2922, col: 10, offset: 92410},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2918, col: 10, offset: 92139},
+																								pos:        position{line: 2922, col: 10, offset: 92410},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46424,23 +46424,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1308, col: 5, offset: 40906},
+													pos:   position{line: 1312, col: 5, offset: 41177},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1308, col: 11, offset: 40912},
+														pos: position{line: 1312, col: 11, offset: 41183},
 														expr: &actionExpr{
-															pos: position{line: 1308, col: 12, offset: 40913},
+															pos: position{line: 1312, col: 12, offset: 41184},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1308, col: 12, offset: 40913},
+																pos: position{line: 1312, col: 12, offset: 41184},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1308, col: 12, offset: 40913},
+																		pos: position{line: 1312, col: 12, offset: 41184},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92139},
+																			pos: position{line: 2922, col: 10, offset: 92410},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92139},
+																				pos:        position{line: 2922, col: 10, offset: 92410},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46449,18 +46449,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1308, col: 19, offset: 40920},
+																		pos:        position{line: 1312, col: 19, offset: 41191},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1308, col: 23, offset: 40924},
+																		pos: position{line: 1312, col: 23, offset: 41195},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92139},
+																			pos: position{line: 2922, col: 10, offset: 92410},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92139},
+																				pos:        position{line: 2922, col: 10, offset: 92410},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46469,28 +46469,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1308, col: 30, offset: 40931},
+																		pos:   position{line: 1312, col: 30, offset: 41202},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1313, col: 30, offset: 41106},
+																			pos: position{line: 1317, col: 30, offset: 41377},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1313, col: 30, offset: 41106},
+																				pos: position{line: 1317, col: 30, offset: 41377},
 																				expr: &choiceExpr{
-																					pos: position{line: 1313, col: 31, offset: 41107},
+																					pos: position{line: 1317, col: 31, offset: 41378},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2808, col: 13, offset: 89234},
+																							pos:        position{line: 2812, col: 13, offset: 89505},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2918, col: 10, offset: 92139},
+																							pos: position{line: 2922, col: 10, offset: 92410},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2918, col: 10, offset: 92139},
+																								pos:        position{line: 2922, col: 10, offset: 92410},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46508,7 +46508,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1309, col: 5, offset: 40998},
+													pos:        position{line: 1313, col: 5, offset: 41269},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -46517,15 +46517,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2471, col: 11, offset: 79610},
+										pos:  position{line: 2475, col: 11, offset: 79881},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2472, col: 11, offset: 79630},
+										pos:  position{line: 2476, col: 11, offset: 79901},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2473, col: 11, offset: 79653},
+										pos:  position{line: 2477, col: 11, offset: 79924},
 										name: "InlineMenu",
 									},
 								},
@@ -46537,80 +46537,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2477, col: 1, offset: 79710},
+			pos:  position{line: 2481, col: 1, offset: 79981},
 			expr: &actionExpr{
-				pos: position{line: 2479, col: 5, offset: 79798},
+				pos: position{line: 2483, col: 5, offset: 80069},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2479, col: 5, offset: 79798},
+					pos: position{line: 2483, col: 5, offset: 80069},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2479, col: 5, offset: 79798},
+							pos: position{line: 2483, col: 5, offset: 80069},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2482, col: 5, offset: 79875},
+							pos:   position{line: 2486, col: 5, offset: 80146},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2483, col: 9, offset: 79893},
+								pos: position{line: 2487, col: 9, offset: 80164},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1393, col: 26, offset: 44492},
+										pos: position{line: 1397, col: 26, offset: 44763},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1393, col: 26, offset: 44492},
+											pos: position{line: 1397, col: 26, offset: 44763},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1391, col: 32, offset: 44460},
+													pos:        position{line: 1395, col: 32, offset: 44731},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1393, col: 54, offset: 44520},
+													pos:   position{line: 1397, col: 54, offset: 44791},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1397, col: 33, offset: 44733},
+														pos: position{line: 1401, col: 33, offset: 45004},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1397, col: 34, offset: 44734},
+																pos: position{line: 1401, col: 34, offset: 45005},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1397, col: 34, offset: 44734},
+																	pos: position{line: 1401, col: 34, offset: 45005},
 																	expr: &seqExpr{
-																		pos: position{line: 1397, col: 35, offset: 44735},
+																		pos: position{line: 1401, col: 35, offset: 45006},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1397, col: 35, offset: 44735},
+																				pos: position{line: 1401, col: 35, offset: 45006},
 																				expr: &litMatcher{
-																					pos:        position{line: 1391, col: 32, offset: 44460},
+																					pos:        position{line: 1395, col: 32, offset: 44731},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1397, col: 64, offset: 44764,
+																				line: 1401, col: 64, offset: 45035,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1399, col: 11, offset: 44937},
+																pos: position{line: 1403, col: 11, offset: 45208},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1399, col: 11, offset: 44937},
+																	pos: position{line: 1403, col: 11, offset: 45208},
 																	expr: &seqExpr{
-																		pos: position{line: 1399, col: 12, offset: 44938},
+																		pos: position{line: 1403, col: 12, offset: 45209},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1399, col: 12, offset: 44938},
+																				pos: position{line: 1403, col: 12, offset: 45209},
 																				expr: &actionExpr{
-																					pos: position{line: 2918, col: 10, offset: 92139},
+																					pos: position{line: 2922, col: 10, offset: 92410},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2918, col: 10, offset: 92139},
+																						pos:        position{line: 2922, col: 10, offset: 92410},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46619,27 +46619,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1399, col: 19, offset: 44945},
+																				pos: position{line: 1403, col: 19, offset: 45216},
 																				expr: &actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92310},
+																					pos: position{line: 2931, col: 12, offset: 92581},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92311},
+																						pos: position{line: 2931, col: 13, offset: 92582},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92311},
+																								pos:        position{line: 2931, col: 13, offset: 92582},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92318},
+																								pos:        position{line: 2931, col: 20, offset: 92589},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92327},
+																								pos:        position{line: 2931, col: 29, offset: 92598},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46649,16 +46649,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1399, col: 28, offset: 44954},
+																				pos: position{line: 1403, col: 28, offset: 45225},
 																				expr: &litMatcher{
-																					pos:        position{line: 1391, col: 32, offset: 44460},
+																					pos:        position{line: 1395, col: 32, offset: 44731},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1399, col: 57, offset: 44983,
+																				line: 1403, col: 57, offset: 45254,
 																			},
 																		},
 																	},
@@ -46668,15 +46668,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1391, col: 32, offset: 44460},
+													pos:        position{line: 1395, col: 32, offset: 44731},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1393, col: 121, offset: 44587},
+													pos: position{line: 1397, col: 121, offset: 44858},
 													expr: &charClassMatcher{
-														pos:        position{line: 2808, col: 13, offset: 89234},
+														pos:        position{line: 2812, col: 13, offset: 89505},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46687,45 +46687,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1381, col: 26, offset: 43775},
+										pos: position{line: 1385, col: 26, offset: 44046},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1381, col: 26, offset: 43775},
+											pos: position{line: 1385, col: 26, offset: 44046},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1379, col: 32, offset: 43745},
+													pos:        position{line: 1383, col: 32, offset: 44016},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1381, col: 54, offset: 43803},
+													pos:   position{line: 1385, col: 54, offset: 44074},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1385, col: 33, offset: 44016},
+														pos: position{line: 1389, col: 33, offset: 44287},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1385, col: 34, offset: 44017},
+																pos: position{line: 1389, col: 34, offset: 44288},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1385, col: 34, offset: 44017},
+																	pos: position{line: 1389, col: 34, offset: 44288},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1385, col: 35, offset: 44018},
+																			pos: position{line: 1389, col: 35, offset: 44289},
 																			expr: &litMatcher{
-																				pos:        position{line: 1379, col: 32, offset: 43745},
+																				pos:        position{line: 1383, col: 32, offset: 44016},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1385, col: 64, offset: 44047},
+																			pos: position{line: 1389, col: 64, offset: 44318},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92139},
+																				pos: position{line: 2922, col: 10, offset: 92410},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92139},
+																					pos:        position{line: 2922, col: 10, offset: 92410},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46734,27 +46734,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1385, col: 71, offset: 44054},
+																			pos: position{line: 1389, col: 71, offset: 44325},
 																			expr: &actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46764,25 +46764,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1385, col: 80, offset: 44063,
+																			line: 1389, col: 80, offset: 44334,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1385, col: 83, offset: 44066},
+																			pos: position{line: 1389, col: 83, offset: 44337},
 																			expr: &seqExpr{
-																				pos: position{line: 1385, col: 84, offset: 44067},
+																				pos: position{line: 1389, col: 84, offset: 44338},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1385, col: 84, offset: 44067},
+																						pos: position{line: 1389, col: 84, offset: 44338},
 																						expr: &seqExpr{
-																							pos: position{line: 1385, col: 86, offset: 44069},
+																							pos: position{line: 1389, col: 86, offset: 44340},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2922, col: 11, offset: 92200},
+																									pos: position{line: 2926, col: 11, offset: 92471},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2922, col: 11, offset: 92200},
+																										pos: position{line: 2926, col: 11, offset: 92471},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 11, offset: 92200},
+																											pos:        position{line: 2926, col: 11, offset: 92471},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46791,7 +46791,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1379, col: 32, offset: 43745},
+																									pos:        position{line: 1383, col: 32, offset: 44016},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -46800,36 +46800,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1385, col: 122, offset: 44105},
+																						pos: position{line: 1389, col: 122, offset: 44376},
 																						expr: &litMatcher{
-																							pos:        position{line: 1379, col: 32, offset: 43745},
+																							pos:        position{line: 1383, col: 32, offset: 44016},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1385, col: 151, offset: 44134},
+																						pos: position{line: 1389, col: 151, offset: 44405},
 																						expr: &actionExpr{
-																							pos: position{line: 2927, col: 12, offset: 92310},
+																							pos: position{line: 2931, col: 12, offset: 92581},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2927, col: 13, offset: 92311},
+																								pos: position{line: 2931, col: 13, offset: 92582},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 13, offset: 92311},
+																										pos:        position{line: 2931, col: 13, offset: 92582},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 20, offset: 92318},
+																										pos:        position{line: 2931, col: 20, offset: 92589},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 29, offset: 92327},
+																										pos:        position{line: 2931, col: 29, offset: 92598},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46839,7 +46839,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1385, col: 160, offset: 44143,
+																						line: 1389, col: 160, offset: 44414,
 																					},
 																				},
 																			},
@@ -46848,18 +46848,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1387, col: 11, offset: 44293},
+																pos: position{line: 1391, col: 11, offset: 44564},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1387, col: 12, offset: 44294},
+																	pos: position{line: 1391, col: 12, offset: 44565},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1387, col: 12, offset: 44294},
+																			pos: position{line: 1391, col: 12, offset: 44565},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92139},
+																				pos: position{line: 2922, col: 10, offset: 92410},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92139},
+																					pos:        position{line: 2922, col: 10, offset: 92410},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46868,27 +46868,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1387, col: 19, offset: 44301},
+																			pos: position{line: 1391, col: 19, offset: 44572},
 																			expr: &actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92310},
+																				pos: position{line: 2931, col: 12, offset: 92581},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92311},
+																					pos: position{line: 2931, col: 13, offset: 92582},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92311},
+																							pos:        position{line: 2931, col: 13, offset: 92582},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92318},
+																							pos:        position{line: 2931, col: 20, offset: 92589},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92327},
+																							pos:        position{line: 2931, col: 29, offset: 92598},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46898,16 +46898,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1387, col: 28, offset: 44310},
+																			pos: position{line: 1391, col: 28, offset: 44581},
 																			expr: &litMatcher{
-																				pos:        position{line: 1379, col: 32, offset: 43745},
+																				pos:        position{line: 1383, col: 32, offset: 44016},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1387, col: 57, offset: 44339,
+																			line: 1391, col: 57, offset: 44610,
 																		},
 																	},
 																},
@@ -46916,15 +46916,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1379, col: 32, offset: 43745},
+													pos:        position{line: 1383, col: 32, offset: 44016},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1381, col: 121, offset: 43870},
+													pos: position{line: 1385, col: 121, offset: 44141},
 													expr: &charClassMatcher{
-														pos:        position{line: 2808, col: 13, offset: 89234},
+														pos:        position{line: 2812, col: 13, offset: 89505},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46935,7 +46935,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2483, col: 57, offset: 79941},
+										pos:  position{line: 2487, col: 57, offset: 80212},
 										name: "PassthroughMacro",
 									},
 								},
@@ -46947,16 +46947,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2488, col: 1, offset: 80001},
+			pos:  position{line: 2492, col: 1, offset: 80272},
 			expr: &seqExpr{
-				pos: position{line: 2490, col: 5, offset: 80077},
+				pos: position{line: 2494, col: 5, offset: 80348},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2490, col: 5, offset: 80077},
+						pos: position{line: 2494, col: 5, offset: 80348},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2493, col: 5, offset: 80142},
+						pos:  position{line: 2497, col: 5, offset: 80413},
 						name: "QuotedText",
 					},
 				},
@@ -46964,22 +46964,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2495, col: 1, offset: 80155},
+			pos:  position{line: 2499, col: 1, offset: 80426},
 			expr: &actionExpr{
-				pos: position{line: 2497, col: 5, offset: 80237},
+				pos: position{line: 2501, col: 5, offset: 80508},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2497, col: 5, offset: 80237},
+					pos: position{line: 2501, col: 5, offset: 80508},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2497, col: 5, offset: 80237},
+							pos: position{line: 2501, col: 5, offset: 80508},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2500, col: 5, offset: 80308},
+							pos:   position{line: 2504, col: 5, offset: 80579},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2501, col: 9, offset: 80326},
+								pos:  position{line: 2505, col: 9, offset: 80597},
 								name: "Symbol",
 							},
 						},
@@ -46989,103 +46989,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2556, col: 1, offset: 82113},
+			pos:  position{line: 2560, col: 1, offset: 82384},
 			expr: &choiceExpr{
-				pos: position{line: 2558, col: 5, offset: 82143},
+				pos: position{line: 2562, col: 5, offset: 82414},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2558, col: 5, offset: 82143},
+						pos: position{line: 2562, col: 5, offset: 82414},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2558, col: 5, offset: 82143},
+							pos: position{line: 2562, col: 5, offset: 82414},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2558, col: 5, offset: 82143},
+									pos:        position{line: 2562, col: 5, offset: 82414},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2558, col: 10, offset: 82148},
+									pos: position{line: 2562, col: 10, offset: 82419},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2558, col: 10, offset: 82148},
+											pos:  position{line: 2562, col: 10, offset: 82419},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2587, col: 14, offset: 83252},
+											pos: position{line: 2591, col: 14, offset: 83523},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2587, col: 14, offset: 83252},
+												pos:        position{line: 2591, col: 14, offset: 83523},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2591, col: 14, offset: 83318},
+											pos: position{line: 2595, col: 14, offset: 83589},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2591, col: 14, offset: 83318},
+												pos:        position{line: 2595, col: 14, offset: 83589},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2595, col: 15, offset: 83387},
+											pos: position{line: 2599, col: 15, offset: 83658},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2595, col: 15, offset: 83387},
+												pos:        position{line: 2599, col: 15, offset: 83658},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2599, col: 13, offset: 83452},
+											pos: position{line: 2603, col: 13, offset: 83723},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2599, col: 13, offset: 83452},
+												pos:        position{line: 2603, col: 13, offset: 83723},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2627, col: 21, offset: 84022},
+											pos: position{line: 2631, col: 21, offset: 84293},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2627, col: 21, offset: 84022},
+												pos:        position{line: 2631, col: 21, offset: 84293},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2606, col: 5, offset: 83608},
+											pos: position{line: 2610, col: 5, offset: 83879},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2606, col: 5, offset: 83608},
+												pos: position{line: 2610, col: 5, offset: 83879},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2606, col: 5, offset: 83608},
+														pos:        position{line: 2610, col: 5, offset: 83879},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2607, col: 5, offset: 83618},
+														pos: position{line: 2611, col: 5, offset: 83889},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2611, col: 6, offset: 83705},
+														pos: position{line: 2615, col: 6, offset: 83976},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2918, col: 10, offset: 92139},
+																pos: position{line: 2922, col: 10, offset: 92410},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2918, col: 10, offset: 92139},
+																	pos:        position{line: 2922, col: 10, offset: 92410},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47093,30 +47093,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2611, col: 14, offset: 83713},
+																pos: position{line: 2615, col: 14, offset: 83984},
 																expr: &choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92537},
+																	pos: position{line: 2944, col: 8, offset: 92808},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92310},
+																			pos: position{line: 2931, col: 12, offset: 92581},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92311},
+																				pos: position{line: 2931, col: 13, offset: 92582},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92311},
+																						pos:        position{line: 2931, col: 13, offset: 92582},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92318},
+																						pos:        position{line: 2931, col: 20, offset: 92589},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92327},
+																						pos:        position{line: 2931, col: 29, offset: 92598},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47125,9 +47125,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92487},
+																			pos: position{line: 2941, col: 8, offset: 92758},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92488,
+																				line: 2941, col: 9, offset: 92759,
 																			},
 																		},
 																	},
@@ -47139,53 +47139,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2616, col: 5, offset: 83833},
+											pos: position{line: 2620, col: 5, offset: 84104},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2616, col: 5, offset: 83833},
+												pos: position{line: 2620, col: 5, offset: 84104},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2616, col: 5, offset: 83833},
+														pos:        position{line: 2620, col: 5, offset: 84104},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2617, col: 5, offset: 83843},
+														pos: position{line: 2621, col: 5, offset: 84114},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2621, col: 5, offset: 83932},
+														pos: position{line: 2625, col: 5, offset: 84203},
 														expr: &choiceExpr{
-															pos: position{line: 2621, col: 7, offset: 83934},
+															pos: position{line: 2625, col: 7, offset: 84205},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2808, col: 13, offset: 89234},
+																	pos:        position{line: 2812, col: 13, offset: 89505},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2927, col: 12, offset: 92310},
+																	pos: position{line: 2931, col: 12, offset: 92581},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2927, col: 13, offset: 92311},
+																		pos: position{line: 2931, col: 13, offset: 92582},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2927, col: 13, offset: 92311},
+																				pos:        position{line: 2931, col: 13, offset: 92582},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2927, col: 20, offset: 92318},
+																				pos:        position{line: 2931, col: 20, offset: 92589},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2927, col: 29, offset: 92327},
+																				pos:        position{line: 2931, col: 29, offset: 92598},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47194,9 +47194,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92487},
+																	pos: position{line: 2941, col: 8, offset: 92758},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92488,
+																		line: 2941, col: 9, offset: 92759,
 																	},
 																},
 															},
@@ -47206,30 +47206,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2631, col: 20, offset: 84092},
+											pos: position{line: 2635, col: 20, offset: 84363},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2631, col: 20, offset: 84092},
+												pos:        position{line: 2635, col: 20, offset: 84363},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2635, col: 21, offset: 84163},
+											pos: position{line: 2639, col: 21, offset: 84434},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2635, col: 21, offset: 84163},
+												pos:        position{line: 2639, col: 21, offset: 84434},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2639, col: 20, offset: 84233},
+											pos: position{line: 2643, col: 20, offset: 84504},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2639, col: 20, offset: 84233},
+												pos:        position{line: 2643, col: 20, offset: 84504},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -47241,73 +47241,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2562, col: 7, offset: 82403},
+						pos:  position{line: 2566, col: 7, offset: 82674},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2587, col: 14, offset: 83252},
+						pos: position{line: 2591, col: 14, offset: 83523},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2587, col: 14, offset: 83252},
+							pos:        position{line: 2591, col: 14, offset: 83523},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2591, col: 14, offset: 83318},
+						pos: position{line: 2595, col: 14, offset: 83589},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2591, col: 14, offset: 83318},
+							pos:        position{line: 2595, col: 14, offset: 83589},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2595, col: 15, offset: 83387},
+						pos: position{line: 2599, col: 15, offset: 83658},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2595, col: 15, offset: 83387},
+							pos:        position{line: 2599, col: 15, offset: 83658},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2599, col: 13, offset: 83452},
+						pos: position{line: 2603, col: 13, offset: 83723},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2599, col: 13, offset: 83452},
+							pos:        position{line: 2603, col: 13, offset: 83723},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2606, col: 5, offset: 83608},
+						pos: position{line: 2610, col: 5, offset: 83879},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2606, col: 5, offset: 83608},
+							pos: position{line: 2610, col: 5, offset: 83879},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2606, col: 5, offset: 83608},
+									pos:        position{line: 2610, col: 5, offset: 83879},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2607, col: 5, offset: 83618},
+									pos: position{line: 2611, col: 5, offset: 83889},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2611, col: 6, offset: 83705},
+									pos: position{line: 2615, col: 6, offset: 83976},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2918, col: 10, offset: 92139},
+											pos: position{line: 2922, col: 10, offset: 92410},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2918, col: 10, offset: 92139},
+												pos:        position{line: 2922, col: 10, offset: 92410},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47315,30 +47315,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2611, col: 14, offset: 83713},
+											pos: position{line: 2615, col: 14, offset: 83984},
 											expr: &choiceExpr{
-												pos: position{line: 2940, col: 8, offset: 92537},
+												pos: position{line: 2944, col: 8, offset: 92808},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2927, col: 12, offset: 92310},
+														pos: position{line: 2931, col: 12, offset: 92581},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2927, col: 13, offset: 92311},
+															pos: position{line: 2931, col: 13, offset: 92582},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2927, col: 13, offset: 92311},
+																	pos:        position{line: 2931, col: 13, offset: 92582},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2927, col: 20, offset: 92318},
+																	pos:        position{line: 2931, col: 20, offset: 92589},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2927, col: 29, offset: 92327},
+																	pos:        position{line: 2931, col: 29, offset: 92598},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47347,9 +47347,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2937, col: 8, offset: 92487},
+														pos: position{line: 2941, col: 8, offset: 92758},
 														expr: &anyMatcher{
-															line: 2937, col: 9, offset: 92488,
+															line: 2941, col: 9, offset: 92759,
 														},
 													},
 												},
@@ -47361,53 +47361,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2616, col: 5, offset: 83833},
+						pos: position{line: 2620, col: 5, offset: 84104},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2616, col: 5, offset: 83833},
+							pos: position{line: 2620, col: 5, offset: 84104},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2616, col: 5, offset: 83833},
+									pos:        position{line: 2620, col: 5, offset: 84104},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2617, col: 5, offset: 83843},
+									pos: position{line: 2621, col: 5, offset: 84114},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2621, col: 5, offset: 83932},
+									pos: position{line: 2625, col: 5, offset: 84203},
 									expr: &choiceExpr{
-										pos: position{line: 2621, col: 7, offset: 83934},
+										pos: position{line: 2625, col: 7, offset: 84205},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2808, col: 13, offset: 89234},
+												pos:        position{line: 2812, col: 13, offset: 89505},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2927, col: 12, offset: 92310},
+												pos: position{line: 2931, col: 12, offset: 92581},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2927, col: 13, offset: 92311},
+													pos: position{line: 2931, col: 13, offset: 92582},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2927, col: 13, offset: 92311},
+															pos:        position{line: 2931, col: 13, offset: 92582},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2927, col: 20, offset: 92318},
+															pos:        position{line: 2931, col: 20, offset: 92589},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2927, col: 29, offset: 92327},
+															pos:        position{line: 2931, col: 29, offset: 92598},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47416,9 +47416,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2937, col: 8, offset: 92487},
+												pos: position{line: 2941, col: 8, offset: 92758},
 												expr: &anyMatcher{
-													line: 2937, col: 9, offset: 92488,
+													line: 2941, col: 9, offset: 92759,
 												},
 											},
 										},
@@ -47428,40 +47428,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2627, col: 21, offset: 84022},
+						pos: position{line: 2631, col: 21, offset: 84293},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2627, col: 21, offset: 84022},
+							pos:        position{line: 2631, col: 21, offset: 84293},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2631, col: 20, offset: 84092},
+						pos: position{line: 2635, col: 20, offset: 84363},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2631, col: 20, offset: 84092},
+							pos:        position{line: 2635, col: 20, offset: 84363},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2635, col: 21, offset: 84163},
+						pos: position{line: 2639, col: 21, offset: 84434},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2635, col: 21, offset: 84163},
+							pos:        position{line: 2639, col: 21, offset: 84434},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2639, col: 20, offset: 84233},
+						pos: position{line: 2643, col: 20, offset: 84504},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2639, col: 20, offset: 84233},
+							pos:        position{line: 2643, col: 20, offset: 84504},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -47472,43 +47472,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2573, col: 1, offset: 82593},
+			pos:  position{line: 2577, col: 1, offset: 82864},
 			expr: &choiceExpr{
-				pos: position{line: 2574, col: 5, offset: 82615},
+				pos: position{line: 2578, col: 5, offset: 82886},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2574, col: 5, offset: 82615},
+						pos: position{line: 2578, col: 5, offset: 82886},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2574, col: 5, offset: 82615},
+							pos: position{line: 2578, col: 5, offset: 82886},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2574, col: 5, offset: 82615},
+									pos:        position{line: 2578, col: 5, offset: 82886},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2574, col: 11, offset: 82621},
+									pos: position{line: 2578, col: 11, offset: 82892},
 									expr: &seqExpr{
-										pos: position{line: 2115, col: 5, offset: 68211},
+										pos: position{line: 2119, col: 5, offset: 68482},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2115, col: 5, offset: 68211},
+												pos:        position{line: 2119, col: 5, offset: 68482},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2116, col: 5, offset: 68220},
+												pos: position{line: 2120, col: 5, offset: 68491},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2120, col: 5, offset: 68343},
+												pos: position{line: 2124, col: 5, offset: 68614},
 												expr: &notExpr{
-													pos: position{line: 2120, col: 7, offset: 68345},
+													pos: position{line: 2124, col: 7, offset: 68616},
 													expr: &litMatcher{
-														pos:        position{line: 2120, col: 8, offset: 68346},
+														pos:        position{line: 2124, col: 8, offset: 68617},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47522,21 +47522,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2577, col: 7, offset: 82774},
+						pos: position{line: 2581, col: 7, offset: 83045},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2577, col: 7, offset: 82774},
+							pos: position{line: 2581, col: 7, offset: 83045},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2577, col: 7, offset: 82774},
+									pos:        position{line: 2581, col: 7, offset: 83045},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2577, col: 13, offset: 82780},
+									pos: position{line: 2581, col: 13, offset: 83051},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2577, col: 14, offset: 82781},
+										pos:  position{line: 2581, col: 14, offset: 83052},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47544,38 +47544,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2580, col: 7, offset: 82931},
+						pos: position{line: 2584, col: 7, offset: 83202},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2580, col: 7, offset: 82931},
+							pos: position{line: 2584, col: 7, offset: 83202},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2580, col: 7, offset: 82931},
+									pos:        position{line: 2584, col: 7, offset: 83202},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2580, col: 12, offset: 82936},
+									pos: position{line: 2584, col: 12, offset: 83207},
 									expr: &seqExpr{
-										pos: position{line: 2115, col: 5, offset: 68211},
+										pos: position{line: 2119, col: 5, offset: 68482},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2115, col: 5, offset: 68211},
+												pos:        position{line: 2119, col: 5, offset: 68482},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2116, col: 5, offset: 68220},
+												pos: position{line: 2120, col: 5, offset: 68491},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2120, col: 5, offset: 68343},
+												pos: position{line: 2124, col: 5, offset: 68614},
 												expr: &notExpr{
-													pos: position{line: 2120, col: 7, offset: 68345},
+													pos: position{line: 2124, col: 7, offset: 68616},
 													expr: &litMatcher{
-														pos:        position{line: 2120, col: 8, offset: 68346},
+														pos:        position{line: 2124, col: 8, offset: 68617},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47589,21 +47589,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2583, col: 7, offset: 83089},
+						pos: position{line: 2587, col: 7, offset: 83360},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2583, col: 7, offset: 83089},
+							pos: position{line: 2587, col: 7, offset: 83360},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2583, col: 7, offset: 83089},
+									pos:        position{line: 2587, col: 7, offset: 83360},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2583, col: 12, offset: 83094},
+									pos: position{line: 2587, col: 12, offset: 83365},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2583, col: 13, offset: 83095},
+										pos:  position{line: 2587, col: 13, offset: 83366},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47615,63 +47615,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2723, col: 1, offset: 86314},
+			pos:  position{line: 2727, col: 1, offset: 86585},
 			expr: &actionExpr{
-				pos: position{line: 2723, col: 26, offset: 86339},
+				pos: position{line: 2727, col: 26, offset: 86610},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2723, col: 26, offset: 86339},
+					pos: position{line: 2727, col: 26, offset: 86610},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2723, col: 26, offset: 86339},
+							pos:   position{line: 2727, col: 26, offset: 86610},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2723, col: 31, offset: 86344},
+								pos: position{line: 2727, col: 31, offset: 86615},
 								expr: &actionExpr{
-									pos: position{line: 2728, col: 5, offset: 86407},
+									pos: position{line: 2732, col: 5, offset: 86678},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2728, col: 5, offset: 86407},
+										pos: position{line: 2732, col: 5, offset: 86678},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2935, col: 11, offset: 92473},
+												pos: position{line: 2939, col: 11, offset: 92744},
 												expr: &anyMatcher{
-													line: 2935, col: 13, offset: 92475,
+													line: 2939, col: 13, offset: 92746,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2731, col: 5, offset: 86533},
+												pos:   position{line: 2735, col: 5, offset: 86804},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2731, col: 16, offset: 86544},
+													pos: position{line: 2735, col: 16, offset: 86815},
 													expr: &actionExpr{
-														pos: position{line: 2731, col: 17, offset: 86545},
+														pos: position{line: 2735, col: 17, offset: 86816},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2731, col: 17, offset: 86545},
+															pos: position{line: 2735, col: 17, offset: 86816},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2731, col: 17, offset: 86545},
+																	pos:   position{line: 2735, col: 17, offset: 86816},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2910, col: 12, offset: 91966},
+																		pos: position{line: 2914, col: 12, offset: 92237},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2910, col: 13, offset: 91967},
+																			pos: position{line: 2914, col: 13, offset: 92238},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2910, col: 13, offset: 91967},
+																					pos: position{line: 2914, col: 13, offset: 92238},
 																					expr: &litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 91967},
+																						pos:        position{line: 2914, col: 13, offset: 92238},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2910, col: 18, offset: 91972},
+																					pos: position{line: 2914, col: 18, offset: 92243},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2910, col: 18, offset: 91972},
+																						pos:        position{line: 2914, col: 18, offset: 92243},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47683,7 +47683,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2731, col: 27, offset: 86555},
+																	pos:        position{line: 2735, col: 27, offset: 86826},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47694,38 +47694,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2732, col: 5, offset: 86583},
+												pos:   position{line: 2736, col: 5, offset: 86854},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2732, col: 12, offset: 86590},
+													pos: position{line: 2736, col: 12, offset: 86861},
 													expr: &choiceExpr{
-														pos: position{line: 2733, col: 9, offset: 86600},
+														pos: position{line: 2737, col: 9, offset: 86871},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2733, col: 9, offset: 86600},
+																pos: position{line: 2737, col: 9, offset: 86871},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2733, col: 9, offset: 86600},
+																	pos:        position{line: 2737, col: 9, offset: 86871},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2734, col: 11, offset: 86647},
+																pos: position{line: 2738, col: 11, offset: 86918},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2734, col: 11, offset: 86647},
+																	pos:        position{line: 2738, col: 11, offset: 86918},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2735, col: 11, offset: 86695},
+																pos: position{line: 2739, col: 11, offset: 86966},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2735, col: 11, offset: 86695},
+																	pos:        position{line: 2739, col: 11, offset: 86966},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47736,38 +47736,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2737, col: 5, offset: 86745},
+												pos:   position{line: 2741, col: 5, offset: 87016},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2737, col: 12, offset: 86752},
+													pos: position{line: 2741, col: 12, offset: 87023},
 													expr: &choiceExpr{
-														pos: position{line: 2738, col: 9, offset: 86762},
+														pos: position{line: 2742, col: 9, offset: 87033},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2738, col: 9, offset: 86762},
+																pos: position{line: 2742, col: 9, offset: 87033},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2738, col: 9, offset: 86762},
+																	pos:        position{line: 2742, col: 9, offset: 87033},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2739, col: 11, offset: 86809},
+																pos: position{line: 2743, col: 11, offset: 87080},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2739, col: 11, offset: 86809},
+																	pos:        position{line: 2743, col: 11, offset: 87080},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2740, col: 11, offset: 86859},
+																pos: position{line: 2744, col: 11, offset: 87130},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2740, col: 11, offset: 86859},
+																	pos:        position{line: 2744, col: 11, offset: 87130},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47778,32 +47778,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2742, col: 5, offset: 86910},
+												pos:   position{line: 2746, col: 5, offset: 87181},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2742, col: 12, offset: 86917},
+													pos: position{line: 2746, col: 12, offset: 87188},
 													expr: &choiceExpr{
-														pos: position{line: 2742, col: 13, offset: 86918},
+														pos: position{line: 2746, col: 13, offset: 87189},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2910, col: 12, offset: 91966},
+																pos: position{line: 2914, col: 12, offset: 92237},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2910, col: 13, offset: 91967},
+																	pos: position{line: 2914, col: 13, offset: 92238},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2910, col: 13, offset: 91967},
+																			pos: position{line: 2914, col: 13, offset: 92238},
 																			expr: &litMatcher{
-																				pos:        position{line: 2910, col: 13, offset: 91967},
+																				pos:        position{line: 2914, col: 13, offset: 92238},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2910, col: 18, offset: 91972},
+																			pos: position{line: 2914, col: 18, offset: 92243},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2910, col: 18, offset: 91972},
+																				pos:        position{line: 2914, col: 18, offset: 92243},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47814,10 +47814,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2742, col: 24, offset: 86929},
+																pos: position{line: 2746, col: 24, offset: 87200},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2742, col: 24, offset: 86929},
+																	pos:        position{line: 2746, col: 24, offset: 87200},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47828,15 +47828,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2743, col: 5, offset: 86971},
+												pos:   position{line: 2747, col: 5, offset: 87242},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2743, col: 11, offset: 86977},
+													pos: position{line: 2747, col: 11, offset: 87248},
 													expr: &actionExpr{
-														pos: position{line: 2743, col: 12, offset: 86978},
+														pos: position{line: 2747, col: 12, offset: 87249},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2743, col: 12, offset: 86978},
+															pos:        position{line: 2747, col: 12, offset: 87249},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47846,12 +47846,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2745, col: 5, offset: 87108},
+												pos:   position{line: 2749, col: 5, offset: 87379},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2745, col: 11, offset: 87114},
+													pos: position{line: 2749, col: 11, offset: 87385},
 													expr: &litMatcher{
-														pos:        position{line: 2745, col: 12, offset: 87115},
+														pos:        position{line: 2749, col: 12, offset: 87386},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47859,7 +47859,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2746, col: 5, offset: 87125},
+												pos: position{line: 2750, col: 5, offset: 87396},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47868,9 +47868,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2937, col: 8, offset: 92487},
+							pos: position{line: 2941, col: 8, offset: 92758},
 							expr: &anyMatcher{
-								line: 2937, col: 9, offset: 92488,
+								line: 2941, col: 9, offset: 92759,
 							},
 						},
 					},
@@ -47879,23 +47879,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2773, col: 1, offset: 88134},
+			pos:  position{line: 2777, col: 1, offset: 88405},
 			expr: &actionExpr{
-				pos: position{line: 2774, col: 5, offset: 88157},
+				pos: position{line: 2778, col: 5, offset: 88428},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2774, col: 5, offset: 88157},
+					pos: position{line: 2778, col: 5, offset: 88428},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2774, col: 5, offset: 88157},
+							pos:   position{line: 2778, col: 5, offset: 88428},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2797, col: 18, offset: 88898},
+								pos: position{line: 2801, col: 18, offset: 89169},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2797, col: 19, offset: 88899},
+									pos: position{line: 2801, col: 19, offset: 89170},
 									expr: &charClassMatcher{
-										pos:        position{line: 2797, col: 19, offset: 88899},
+										pos:        position{line: 2801, col: 19, offset: 89170},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47906,25 +47906,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2775, col: 5, offset: 88183},
+							pos: position{line: 2779, col: 5, offset: 88454},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2779, col: 5, offset: 88311},
+							pos:        position{line: 2783, col: 5, offset: 88582},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2780, col: 5, offset: 88321},
+							pos:   position{line: 2784, col: 5, offset: 88592},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2801, col: 19, offset: 88974},
+								pos: position{line: 2805, col: 19, offset: 89245},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2801, col: 19, offset: 88974},
+									pos: position{line: 2805, col: 19, offset: 89245},
 									expr: &charClassMatcher{
-										pos:        position{line: 2801, col: 19, offset: 88974},
+										pos:        position{line: 2805, col: 19, offset: 89245},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47934,36 +47934,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2781, col: 5, offset: 88349},
+							pos:   position{line: 2785, col: 5, offset: 88620},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2781, col: 17, offset: 88361},
+								pos:  position{line: 2785, col: 17, offset: 88632},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2940, col: 8, offset: 92537},
+							pos: position{line: 2944, col: 8, offset: 92808},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2927, col: 12, offset: 92310},
+									pos: position{line: 2931, col: 12, offset: 92581},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2927, col: 13, offset: 92311},
+										pos: position{line: 2931, col: 13, offset: 92582},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2927, col: 13, offset: 92311},
+												pos:        position{line: 2931, col: 13, offset: 92582},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 20, offset: 92318},
+												pos:        position{line: 2931, col: 20, offset: 92589},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 29, offset: 92327},
+												pos:        position{line: 2931, col: 29, offset: 92598},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -47972,9 +47972,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2937, col: 8, offset: 92487},
+									pos: position{line: 2941, col: 8, offset: 92758},
 									expr: &anyMatcher{
-										line: 2937, col: 9, offset: 92488,
+										line: 2941, col: 9, offset: 92759,
 									},
 								},
 							},
@@ -47985,23 +47985,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2785, col: 1, offset: 88509},
+			pos:  position{line: 2789, col: 1, offset: 88780},
 			expr: &actionExpr{
-				pos: position{line: 2786, col: 5, offset: 88533},
+				pos: position{line: 2790, col: 5, offset: 88804},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2786, col: 5, offset: 88533},
+					pos: position{line: 2790, col: 5, offset: 88804},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2786, col: 5, offset: 88533},
+							pos:   position{line: 2790, col: 5, offset: 88804},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2797, col: 18, offset: 88898},
+								pos: position{line: 2801, col: 18, offset: 89169},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2797, col: 19, offset: 88899},
+									pos: position{line: 2801, col: 19, offset: 89170},
 									expr: &charClassMatcher{
-										pos:        position{line: 2797, col: 19, offset: 88899},
+										pos:        position{line: 2801, col: 19, offset: 89170},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48012,25 +48012,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2787, col: 5, offset: 88559},
+							pos: position{line: 2791, col: 5, offset: 88830},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2791, col: 5, offset: 88687},
+							pos:        position{line: 2795, col: 5, offset: 88958},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2792, col: 5, offset: 88696},
+							pos:   position{line: 2796, col: 5, offset: 88967},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2801, col: 19, offset: 88974},
+								pos: position{line: 2805, col: 19, offset: 89245},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2801, col: 19, offset: 88974},
+									pos: position{line: 2805, col: 19, offset: 89245},
 									expr: &charClassMatcher{
-										pos:        position{line: 2801, col: 19, offset: 88974},
+										pos:        position{line: 2805, col: 19, offset: 89245},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48040,10 +48040,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2793, col: 5, offset: 88724},
+							pos:   position{line: 2797, col: 5, offset: 88995},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2793, col: 17, offset: 88736},
+								pos:  position{line: 2797, col: 17, offset: 89007},
 								name: "InlineAttributes",
 							},
 						},
@@ -48053,43 +48053,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2872, col: 1, offset: 90786},
+			pos:  position{line: 2876, col: 1, offset: 91057},
 			expr: &actionExpr{
-				pos: position{line: 2872, col: 17, offset: 90802},
+				pos: position{line: 2876, col: 17, offset: 91073},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2872, col: 17, offset: 90802},
+					pos:   position{line: 2876, col: 17, offset: 91073},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2889, col: 5, offset: 91256},
+						pos: position{line: 2893, col: 5, offset: 91527},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2889, col: 5, offset: 91256},
+							pos:   position{line: 2893, col: 5, offset: 91527},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2889, col: 14, offset: 91265},
+								pos: position{line: 2893, col: 14, offset: 91536},
 								expr: &choiceExpr{
-									pos: position{line: 2890, col: 9, offset: 91275},
+									pos: position{line: 2894, col: 9, offset: 91546},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2890, col: 9, offset: 91275},
+											pos: position{line: 2894, col: 9, offset: 91546},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2890, col: 9, offset: 91275},
+												pos: position{line: 2894, col: 9, offset: 91546},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2890, col: 9, offset: 91275},
+														pos: position{line: 2894, col: 9, offset: 91546},
 														expr: &litMatcher{
-															pos:        position{line: 2890, col: 10, offset: 91276},
+															pos:        position{line: 2894, col: 10, offset: 91547},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2891, col: 9, offset: 91304},
+														pos: position{line: 2895, col: 9, offset: 91575},
 														expr: &charClassMatcher{
-															pos:        position{line: 2891, col: 10, offset: 91305},
+															pos:        position{line: 2895, col: 10, offset: 91576},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -48100,27 +48100,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2894, col: 11, offset: 91517},
+											pos: position{line: 2898, col: 11, offset: 91788},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2894, col: 11, offset: 91517},
+													pos:        position{line: 2898, col: 11, offset: 91788},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2894, col: 19, offset: 91525},
+													pos: position{line: 2898, col: 19, offset: 91796},
 													expr: &seqExpr{
-														pos: position{line: 2894, col: 21, offset: 91527},
+														pos: position{line: 2898, col: 21, offset: 91798},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2894, col: 21, offset: 91527},
+																pos: position{line: 2898, col: 21, offset: 91798},
 																expr: &actionExpr{
-																	pos: position{line: 2918, col: 10, offset: 92139},
+																	pos: position{line: 2922, col: 10, offset: 92410},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2918, col: 10, offset: 92139},
+																		pos:        position{line: 2922, col: 10, offset: 92410},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48129,11 +48129,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2894, col: 28, offset: 91534},
+																pos: position{line: 2898, col: 28, offset: 91805},
 																expr: &notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92487},
+																	pos: position{line: 2941, col: 8, offset: 92758},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92488,
+																		line: 2941, col: 9, offset: 92759,
 																	},
 																},
 															},
@@ -48143,35 +48143,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 645, col: 5, offset: 20519},
+											pos: position{line: 649, col: 5, offset: 20790},
 											run: (*parser).callonFileLocation23,
 											expr: &seqExpr{
-												pos: position{line: 645, col: 5, offset: 20519},
+												pos: position{line: 649, col: 5, offset: 20790},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 645, col: 5, offset: 20519},
+														pos: position{line: 649, col: 5, offset: 20790},
 														run: (*parser).callonFileLocation25,
 													},
 													&labeledExpr{
-														pos:   position{line: 648, col: 5, offset: 20591},
+														pos:   position{line: 652, col: 5, offset: 20862},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 648, col: 14, offset: 20600},
+															pos: position{line: 652, col: 14, offset: 20871},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 654, col: 5, offset: 20729},
+																	pos: position{line: 658, col: 5, offset: 21000},
 																	run: (*parser).callonFileLocation28,
 																	expr: &seqExpr{
-																		pos: position{line: 654, col: 5, offset: 20729},
+																		pos: position{line: 658, col: 5, offset: 21000},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 654, col: 5, offset: 20729},
+																				pos:        position{line: 658, col: 5, offset: 21000},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 654, col: 13, offset: 20737},
+																				pos:   position{line: 658, col: 13, offset: 21008},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -48203,7 +48203,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 654, col: 32, offset: 20756},
+																				pos:        position{line: 658, col: 32, offset: 21027},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48212,19 +48212,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 661, col: 5, offset: 20997},
+																	pos: position{line: 665, col: 5, offset: 21268},
 																	run: (*parser).callonFileLocation38,
 																	expr: &seqExpr{
-																		pos: position{line: 661, col: 5, offset: 20997},
+																		pos: position{line: 665, col: 5, offset: 21268},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 661, col: 5, offset: 20997},
+																				pos:        position{line: 665, col: 5, offset: 21268},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 661, col: 9, offset: 21001},
+																				pos:   position{line: 665, col: 9, offset: 21272},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -48256,7 +48256,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 661, col: 28, offset: 21020},
+																				pos:        position{line: 665, col: 28, offset: 21291},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48265,19 +48265,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 667, col: 25, offset: 21201},
+																	pos: position{line: 671, col: 25, offset: 21472},
 																	run: (*parser).callonFileLocation48,
 																	expr: &seqExpr{
-																		pos: position{line: 667, col: 25, offset: 21201},
+																		pos: position{line: 671, col: 25, offset: 21472},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 667, col: 25, offset: 21201},
+																				pos:        position{line: 671, col: 25, offset: 21472},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 667, col: 37, offset: 21213},
+																				pos:   position{line: 671, col: 37, offset: 21484},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -48309,33 +48309,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 667, col: 56, offset: 21232},
+																				pos:   position{line: 671, col: 56, offset: 21503},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 667, col: 62, offset: 21238},
+																					pos: position{line: 671, col: 62, offset: 21509},
 																					expr: &actionExpr{
-																						pos: position{line: 675, col: 17, offset: 21535},
+																						pos: position{line: 679, col: 17, offset: 21806},
 																						run: (*parser).callonFileLocation59,
 																						expr: &seqExpr{
-																							pos: position{line: 675, col: 17, offset: 21535},
+																							pos: position{line: 679, col: 17, offset: 21806},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 675, col: 17, offset: 21535},
+																									pos:        position{line: 679, col: 17, offset: 21806},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 675, col: 21, offset: 21539},
+																									pos:   position{line: 679, col: 21, offset: 21810},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 675, col: 28, offset: 21546},
+																										pos: position{line: 679, col: 28, offset: 21817},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 675, col: 28, offset: 21546},
+																												pos: position{line: 679, col: 28, offset: 21817},
 																												run: (*parser).callonFileLocation64,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 675, col: 28, offset: 21546},
+																													pos:        position{line: 679, col: 28, offset: 21817},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -48343,12 +48343,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 677, col: 9, offset: 21600},
+																												pos: position{line: 681, col: 9, offset: 21871},
 																												run: (*parser).callonFileLocation66,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 677, col: 9, offset: 21600},
+																													pos: position{line: 681, col: 9, offset: 21871},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 677, col: 9, offset: 21600},
+																														pos:        position{line: 681, col: 9, offset: 21871},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -48365,7 +48365,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 667, col: 78, offset: 21254},
+																				pos:        position{line: 671, col: 78, offset: 21525},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48374,19 +48374,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 671, col: 25, offset: 21372},
+																	pos: position{line: 675, col: 25, offset: 21643},
 																	run: (*parser).callonFileLocation70,
 																	expr: &seqExpr{
-																		pos: position{line: 671, col: 25, offset: 21372},
+																		pos: position{line: 675, col: 25, offset: 21643},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 671, col: 25, offset: 21372},
+																				pos:        position{line: 675, col: 25, offset: 21643},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 671, col: 38, offset: 21385},
+																				pos:   position{line: 675, col: 38, offset: 21656},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -48418,33 +48418,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 671, col: 57, offset: 21404},
+																				pos:   position{line: 675, col: 57, offset: 21675},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 671, col: 63, offset: 21410},
+																					pos: position{line: 675, col: 63, offset: 21681},
 																					expr: &actionExpr{
-																						pos: position{line: 675, col: 17, offset: 21535},
+																						pos: position{line: 679, col: 17, offset: 21806},
 																						run: (*parser).callonFileLocation81,
 																						expr: &seqExpr{
-																							pos: position{line: 675, col: 17, offset: 21535},
+																							pos: position{line: 679, col: 17, offset: 21806},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 675, col: 17, offset: 21535},
+																									pos:        position{line: 679, col: 17, offset: 21806},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 675, col: 21, offset: 21539},
+																									pos:   position{line: 679, col: 21, offset: 21810},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 675, col: 28, offset: 21546},
+																										pos: position{line: 679, col: 28, offset: 21817},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 675, col: 28, offset: 21546},
+																												pos: position{line: 679, col: 28, offset: 21817},
 																												run: (*parser).callonFileLocation86,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 675, col: 28, offset: 21546},
+																													pos:        position{line: 679, col: 28, offset: 21817},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -48452,12 +48452,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 677, col: 9, offset: 21600},
+																												pos: position{line: 681, col: 9, offset: 21871},
 																												run: (*parser).callonFileLocation88,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 677, col: 9, offset: 21600},
+																													pos: position{line: 681, col: 9, offset: 21871},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 677, col: 9, offset: 21600},
+																														pos:        position{line: 681, col: 9, offset: 21871},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -48474,7 +48474,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 671, col: 79, offset: 21426},
+																				pos:        position{line: 675, col: 79, offset: 21697},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48489,27 +48489,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1207, col: 23, offset: 37384},
+											pos: position{line: 1211, col: 23, offset: 37655},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1207, col: 23, offset: 37384},
+												pos: position{line: 1211, col: 23, offset: 37655},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1205, col: 32, offset: 37352},
+														pos:        position{line: 1209, col: 32, offset: 37623},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1207, col: 51, offset: 37412},
+														pos:   position{line: 1211, col: 51, offset: 37683},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1207, col: 56, offset: 37417},
+															pos: position{line: 1211, col: 56, offset: 37688},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1207, col: 56, offset: 37417},
+																pos: position{line: 1211, col: 56, offset: 37688},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1207, col: 56, offset: 37417},
+																	pos:        position{line: 1211, col: 56, offset: 37688},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -48519,7 +48519,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1205, col: 32, offset: 37352},
+														pos:        position{line: 1209, col: 32, offset: 37623},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -48528,10 +48528,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2897, col: 11, offset: 91654},
+											pos: position{line: 2901, col: 11, offset: 91925},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2897, col: 11, offset: 91654},
+												pos:        position{line: 2901, col: 11, offset: 91925},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -55251,8 +55251,12 @@ func (p *parser) callonInlineAttributes1() (interface{}, error) {
 
 func (c *current) onLongHandAttributes1(firstPositionalAttributes, otherAttributes interface{}) (interface{}, error) {
 	attributes := []interface{}{}
-	if firstPositionalAttributes != nil {
-		attributes = append(attributes, firstPositionalAttributes.([]interface{})...)
+	if first, ok := firstPositionalAttributes.([]interface{}); ok {
+		if !types.HasPositionalAttribute(first) && types.HasPositionalAttribute(otherAttributes.([]interface{})) {
+			// the ID, options and/or roles take the first position
+			attributes = append(attributes, &types.PositionalAttribute{})
+		}
+		attributes = append(attributes, first...)
 	}
 	if len(otherAttributes.([]interface{})) > 0 {
 		attributes = append(attributes, otherAttributes.([]interface{})...)
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 9abaa35..dc5796b 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -443,8 +443,12 @@ LongHandAttributes <-
     otherAttributes:(PositionalAttribute / NamedAttribute)*
     "]" {
         attributes:=[]interface{}{}
-        if firstPositionalAttributes != nil {
-            attributes=append(attributes, firstPositionalAttributes.([]interface{})...)
+        if first, ok := firstPositionalAttributes.([]interface{}); ok {
+            if !types.HasPositionalAttribute(first) && types.HasPositionalAttribute(otherAttributes.([]interface{})) {
+                // the ID, options and/or roles take the first position
+                attributes=append(attributes, &types.PositionalAttribute{})
+            }
+            attributes=append(attributes, first...)
         }
         if len(otherAttributes.([]interface{})) > 0 {
             attributes=append(attributes, otherAttributes.([]interface{})...)
diff --git a/pkg/types/attributes.go b/pkg/types/attributes.go
index b65a36e..cbcc97e 100644
--- a/pkg/types/attributes.go
+++ b/pkg/types/attributes.go
@@ -341,6 +341,16 @@ func NewPositionalAttribute(value interface{}) (*PositionalAttribute, error) {
 	}, nil
 }
 
+// HasPositionalAttribute returns true if at least one of the given attributes is a positional one
+func HasPositionalAttribute(attributes []interface{}) bool {
+	for _, attr := range attributes {
+		if _, ok := attr.(*PositionalAttribute); ok {
+			return true
+		}
+	}
+	return false
+}
+
 // Key returns the "temporary" key, based on the attribute index.
 func (a *PositionalAttribute) Key() string {
 	return AttrPositionalIndex + strconv.Itoa(a.Index)
-- 
2.43.0


From 6090536f85aaea1c40e4cdbd1a1384b4c263c453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:20 +0000
Subject: [PATCH 43/75] fix: initials of authors cut in the middle of a
 character

---
 pkg/types/types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 09f036c..347c7b2 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -7,6 +7,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/davecgh/go-spew/spew"
 	"github.com/pkg/errors"
@@ -488,7 +489,8 @@ func key(k string, i int) string {
 
 func initial(s string) string {
 	if len(s) > 0 {
-		return s[0:1]
+		_, size := utf8.DecodeRuneInString(s)
+		return s[:size]
 	}
 	return ""
 }
-- 
2.43.0


From 0c9cde77322d85684ae0f449d51782c94897890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:15 +0000
Subject: [PATCH 44/75] fix: references to attributes with an underscore in
 their name (eg: author_2) are not resolved

---
 pkg/parser/parser.go  | 19640 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |     2 +-
 2 files changed, 9821 insertions(+), 9821 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index a02d07e..cbd1e9e 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -45,19 +45,19 @@ var g = &grammar{
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
-										pos: position{line: 362, col: 19, offset: 11011},
+										pos: position{line: 362, col: 19, offset: 11012},
 										run: (*parser).callonDocumentRawLine6,
 										expr: &seqExpr{
-											pos: position{line: 362, col: 19, offset: 11011},
+											pos: position{line: 362, col: 19, offset: 11012},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 362, col: 19, offset: 11011},
+													pos:        position{line: 362, col: 19, offset: 11012},
 													val:        ":!",
 													ignoreCase: false,
 													want:       "\":!\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 362, col: 24, offset: 11016},
+													pos:   position{line: 362, col: 24, offset: 11017},
 													label: "name",
 													expr: &actionExpr{
 														pos: position{line: 320, col: 18, offset: 9837},
@@ -77,8 +77,8 @@ var g = &grammar{
 																	pos: position{line: 320, col: 28, offset: 9847},
 																	expr: &charClassMatcher{
 																		pos:        position{line: 320, col: 29, offset: 9848},
-																		val:        "[-\\pL\\pN]",
-																		chars:      []rune{'-'},
+																		val:        "[_-\\pL\\pN]",
+																		chars:      []rune{'_', '-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
@@ -89,18 +89,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 362, col: 45, offset: 11037},
+													pos:        position{line: 362, col: 45, offset: 11038},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 362, col: 49, offset: 11041},
+													pos: position{line: 362, col: 49, offset: 11042},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92410},
+														pos: position{line: 2922, col: 10, offset: 92411},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92410},
+															pos:        position{line: 2922, col: 10, offset: 92411},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92808},
+													pos: position{line: 2944, col: 8, offset: 92809},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92581},
+															pos: position{line: 2931, col: 12, offset: 92582},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92582},
+																pos: position{line: 2931, col: 13, offset: 92583},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92582},
+																		pos:        position{line: 2931, col: 13, offset: 92583},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92589},
+																		pos:        position{line: 2931, col: 20, offset: 92590},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92598},
+																		pos:        position{line: 2931, col: 29, offset: 92599},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92758},
+															pos: position{line: 2941, col: 8, offset: 92759},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92759,
+																line: 2941, col: 9, offset: 92760,
 															},
 														},
 													},
@@ -150,19 +150,19 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 364, col: 9, offset: 11132},
+										pos: position{line: 364, col: 9, offset: 11133},
 										run: (*parser).callonDocumentRawLine27,
 										expr: &seqExpr{
-											pos: position{line: 364, col: 9, offset: 11132},
+											pos: position{line: 364, col: 9, offset: 11133},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 364, col: 9, offset: 11132},
+													pos:        position{line: 364, col: 9, offset: 11133},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 364, col: 13, offset: 11136},
+													pos:   position{line: 364, col: 13, offset: 11137},
 													label: "name",
 													expr: &actionExpr{
 														pos: position{line: 320, col: 18, offset: 9837},
@@ -182,8 +182,8 @@ var g = &grammar{
 																	pos: position{line: 320, col: 28, offset: 9847},
 																	expr: &charClassMatcher{
 																		pos:        position{line: 320, col: 29, offset: 9848},
-																		val:        "[-\\pL\\pN]",
-																		chars:      []rune{'-'},
+																		val:        "[_-\\pL\\pN]",
+																		chars:      []rune{'_', '-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
@@ -194,18 +194,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 364, col: 34, offset: 11157},
+													pos:        position{line: 364, col: 34, offset: 11158},
 													val:        "!:",
 													ignoreCase: false,
 													want:       "\"!:\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 364, col: 39, offset: 11162},
+													pos: position{line: 364, col: 39, offset: 11163},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92410},
+														pos: position{line: 2922, col: 10, offset: 92411},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92410},
+															pos:        position{line: 2922, col: 10, offset: 92411},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92808},
+													pos: position{line: 2944, col: 8, offset: 92809},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92581},
+															pos: position{line: 2931, col: 12, offset: 92582},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92582},
+																pos: position{line: 2931, col: 13, offset: 92583},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92582},
+																		pos:        position{line: 2931, col: 13, offset: 92583},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92589},
+																		pos:        position{line: 2931, col: 20, offset: 92590},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92598},
+																		pos:        position{line: 2931, col: 29, offset: 92599},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92758},
+															pos: position{line: 2941, col: 8, offset: 92759},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92759,
+																line: 2941, col: 9, offset: 92760,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92410},
+														pos: position{line: 2922, col: 10, offset: 92411},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92410},
+															pos:        position{line: 2922, col: 10, offset: 92411},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92758},
+													pos: position{line: 2941, col: 8, offset: 92759},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92759,
+														line: 2941, col: 9, offset: 92760,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92410},
+														pos: position{line: 2922, col: 10, offset: 92411},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92410},
+															pos:        position{line: 2922, col: 10, offset: 92411},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92758},
+													pos: position{line: 2941, col: 8, offset: 92759},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92759,
+														line: 2941, col: 9, offset: 92760,
 													},
 												},
 											},
@@ -464,22 +464,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 658, col: 5, offset: 21000},
+																				pos: position{line: 658, col: 5, offset: 21001},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 658, col: 5, offset: 21000},
+																						pos: position{line: 658, col: 5, offset: 21001},
 																						run: (*parser).callonDocumentRawLine97,
 																						expr: &seqExpr{
-																							pos: position{line: 658, col: 5, offset: 21000},
+																							pos: position{line: 658, col: 5, offset: 21001},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 658, col: 5, offset: 21000},
+																									pos:        position{line: 658, col: 5, offset: 21001},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 658, col: 13, offset: 21008},
+																									pos:   position{line: 658, col: 13, offset: 21009},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -499,8 +499,8 @@ var g = &grammar{
 																													pos: position{line: 320, col: 28, offset: 9847},
 																													expr: &charClassMatcher{
 																														pos:        position{line: 320, col: 29, offset: 9848},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																														val:        "[_-\\pL\\pN]",
+																														chars:      []rune{'_', '-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
@@ -511,7 +511,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 658, col: 32, offset: 21027},
+																									pos:        position{line: 658, col: 32, offset: 21028},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -520,19 +520,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 665, col: 5, offset: 21268},
+																						pos: position{line: 665, col: 5, offset: 21269},
 																						run: (*parser).callonDocumentRawLine107,
 																						expr: &seqExpr{
-																							pos: position{line: 665, col: 5, offset: 21268},
+																							pos: position{line: 665, col: 5, offset: 21269},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 665, col: 5, offset: 21268},
+																									pos:        position{line: 665, col: 5, offset: 21269},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 665, col: 9, offset: 21272},
+																									pos:   position{line: 665, col: 9, offset: 21273},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -552,8 +552,8 @@ var g = &grammar{
 																													pos: position{line: 320, col: 28, offset: 9847},
 																													expr: &charClassMatcher{
 																														pos:        position{line: 320, col: 29, offset: 9848},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																														val:        "[_-\\pL\\pN]",
+																														chars:      []rune{'_', '-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
@@ -564,7 +564,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 665, col: 28, offset: 21291},
+																									pos:        position{line: 665, col: 28, offset: 21292},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -600,22 +600,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 658, col: 5, offset: 21000},
+																				pos: position{line: 658, col: 5, offset: 21001},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 658, col: 5, offset: 21000},
+																						pos: position{line: 658, col: 5, offset: 21001},
 																						run: (*parser).callonDocumentRawLine123,
 																						expr: &seqExpr{
-																							pos: position{line: 658, col: 5, offset: 21000},
+																							pos: position{line: 658, col: 5, offset: 21001},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 658, col: 5, offset: 21000},
+																									pos:        position{line: 658, col: 5, offset: 21001},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 658, col: 13, offset: 21008},
+																									pos:   position{line: 658, col: 13, offset: 21009},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -635,8 +635,8 @@ var g = &grammar{
 																													pos: position{line: 320, col: 28, offset: 9847},
 																													expr: &charClassMatcher{
 																														pos:        position{line: 320, col: 29, offset: 9848},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																														val:        "[_-\\pL\\pN]",
+																														chars:      []rune{'_', '-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
@@ -647,7 +647,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 658, col: 32, offset: 21027},
+																									pos:        position{line: 658, col: 32, offset: 21028},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -656,19 +656,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 665, col: 5, offset: 21268},
+																						pos: position{line: 665, col: 5, offset: 21269},
 																						run: (*parser).callonDocumentRawLine133,
 																						expr: &seqExpr{
-																							pos: position{line: 665, col: 5, offset: 21268},
+																							pos: position{line: 665, col: 5, offset: 21269},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 665, col: 5, offset: 21268},
+																									pos:        position{line: 665, col: 5, offset: 21269},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 665, col: 9, offset: 21272},
+																									pos:   position{line: 665, col: 9, offset: 21273},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -688,8 +688,8 @@ var g = &grammar{
 																													pos: position{line: 320, col: 28, offset: 9847},
 																													expr: &charClassMatcher{
 																														pos:        position{line: 320, col: 29, offset: 9848},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																														val:        "[_-\\pL\\pN]",
+																														chars:      []rune{'_', '-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
@@ -700,7 +700,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 665, col: 28, offset: 21291},
+																									pos:        position{line: 665, col: 28, offset: 21292},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -727,22 +727,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 658, col: 5, offset: 21000},
+																		pos: position{line: 658, col: 5, offset: 21001},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 658, col: 5, offset: 21000},
+																				pos: position{line: 658, col: 5, offset: 21001},
 																				run: (*parser).callonDocumentRawLine147,
 																				expr: &seqExpr{
-																					pos: position{line: 658, col: 5, offset: 21000},
+																					pos: position{line: 658, col: 5, offset: 21001},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 658, col: 5, offset: 21000},
+																							pos:        position{line: 658, col: 5, offset: 21001},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 658, col: 13, offset: 21008},
+																							pos:   position{line: 658, col: 13, offset: 21009},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -762,8 +762,8 @@ var g = &grammar{
 																											pos: position{line: 320, col: 28, offset: 9847},
 																											expr: &charClassMatcher{
 																												pos:        position{line: 320, col: 29, offset: 9848},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -774,7 +774,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 658, col: 32, offset: 21027},
+																							pos:        position{line: 658, col: 32, offset: 21028},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -783,19 +783,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 665, col: 5, offset: 21268},
+																				pos: position{line: 665, col: 5, offset: 21269},
 																				run: (*parser).callonDocumentRawLine157,
 																				expr: &seqExpr{
-																					pos: position{line: 665, col: 5, offset: 21268},
+																					pos: position{line: 665, col: 5, offset: 21269},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 665, col: 5, offset: 21268},
+																							pos:        position{line: 665, col: 5, offset: 21269},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 665, col: 9, offset: 21272},
+																							pos:   position{line: 665, col: 9, offset: 21273},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -815,8 +815,8 @@ var g = &grammar{
 																											pos: position{line: 320, col: 28, offset: 9847},
 																											expr: &charClassMatcher{
 																												pos:        position{line: 320, col: 29, offset: 9848},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -827,7 +827,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 665, col: 28, offset: 21291},
+																							pos:        position{line: 665, col: 28, offset: 21292},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2914, col: 12, offset: 92237},
+																pos: position{line: 2914, col: 12, offset: 92238},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2914, col: 13, offset: 92238},
+																	pos: position{line: 2914, col: 13, offset: 92239},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2914, col: 13, offset: 92238},
+																			pos: position{line: 2914, col: 13, offset: 92239},
 																			expr: &litMatcher{
-																				pos:        position{line: 2914, col: 13, offset: 92238},
+																				pos:        position{line: 2914, col: 13, offset: 92239},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2914, col: 18, offset: 92243},
+																			pos: position{line: 2914, col: 18, offset: 92244},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2914, col: 18, offset: 92243},
+																				pos:        position{line: 2914, col: 18, offset: 92244},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92410},
+														pos: position{line: 2922, col: 10, offset: 92411},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92410},
+															pos:        position{line: 2922, col: 10, offset: 92411},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92410},
+														pos: position{line: 2922, col: 10, offset: 92411},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92410},
+															pos:        position{line: 2922, col: 10, offset: 92411},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1069,22 +1069,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 658, col: 5, offset: 21000},
+																				pos: position{line: 658, col: 5, offset: 21001},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 658, col: 5, offset: 21000},
+																						pos: position{line: 658, col: 5, offset: 21001},
 																						run: (*parser).callonDocumentRawLine216,
 																						expr: &seqExpr{
-																							pos: position{line: 658, col: 5, offset: 21000},
+																							pos: position{line: 658, col: 5, offset: 21001},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 658, col: 5, offset: 21000},
+																									pos:        position{line: 658, col: 5, offset: 21001},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 658, col: 13, offset: 21008},
+																									pos:   position{line: 658, col: 13, offset: 21009},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -1104,8 +1104,8 @@ var g = &grammar{
 																													pos: position{line: 320, col: 28, offset: 9847},
 																													expr: &charClassMatcher{
 																														pos:        position{line: 320, col: 29, offset: 9848},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																														val:        "[_-\\pL\\pN]",
+																														chars:      []rune{'_', '-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
@@ -1116,7 +1116,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 658, col: 32, offset: 21027},
+																									pos:        position{line: 658, col: 32, offset: 21028},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1125,19 +1125,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 665, col: 5, offset: 21268},
+																						pos: position{line: 665, col: 5, offset: 21269},
 																						run: (*parser).callonDocumentRawLine226,
 																						expr: &seqExpr{
-																							pos: position{line: 665, col: 5, offset: 21268},
+																							pos: position{line: 665, col: 5, offset: 21269},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 665, col: 5, offset: 21268},
+																									pos:        position{line: 665, col: 5, offset: 21269},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 665, col: 9, offset: 21272},
+																									pos:   position{line: 665, col: 9, offset: 21273},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -1157,8 +1157,8 @@ var g = &grammar{
 																													pos: position{line: 320, col: 28, offset: 9847},
 																													expr: &charClassMatcher{
 																														pos:        position{line: 320, col: 29, offset: 9848},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																														val:        "[_-\\pL\\pN]",
+																														chars:      []rune{'_', '-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
@@ -1169,7 +1169,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 665, col: 28, offset: 21291},
+																									pos:        position{line: 665, col: 28, offset: 21292},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1205,22 +1205,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 658, col: 5, offset: 21000},
+																				pos: position{line: 658, col: 5, offset: 21001},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 658, col: 5, offset: 21000},
+																						pos: position{line: 658, col: 5, offset: 21001},
 																						run: (*parser).callonDocumentRawLine242,
 																						expr: &seqExpr{
-																							pos: position{line: 658, col: 5, offset: 21000},
+																							pos: position{line: 658, col: 5, offset: 21001},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 658, col: 5, offset: 21000},
+																									pos:        position{line: 658, col: 5, offset: 21001},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 658, col: 13, offset: 21008},
+																									pos:   position{line: 658, col: 13, offset: 21009},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -1240,8 +1240,8 @@ var g = &grammar{
 																													pos: position{line: 320, col: 28, offset: 9847},
 																													expr: &charClassMatcher{
 																														pos:        position{line: 320, col: 29, offset: 9848},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																														val:        "[_-\\pL\\pN]",
+																														chars:      []rune{'_', '-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
@@ -1252,7 +1252,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 658, col: 32, offset: 21027},
+																									pos:        position{line: 658, col: 32, offset: 21028},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1261,19 +1261,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 665, col: 5, offset: 21268},
+																						pos: position{line: 665, col: 5, offset: 21269},
 																						run: (*parser).callonDocumentRawLine252,
 																						expr: &seqExpr{
-																							pos: position{line: 665, col: 5, offset: 21268},
+																							pos: position{line: 665, col: 5, offset: 21269},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 665, col: 5, offset: 21268},
+																									pos:        position{line: 665, col: 5, offset: 21269},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 665, col: 9, offset: 21272},
+																									pos:   position{line: 665, col: 9, offset: 21273},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -1293,8 +1293,8 @@ var g = &grammar{
 																													pos: position{line: 320, col: 28, offset: 9847},
 																													expr: &charClassMatcher{
 																														pos:        position{line: 320, col: 29, offset: 9848},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																														val:        "[_-\\pL\\pN]",
+																														chars:      []rune{'_', '-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
@@ -1305,7 +1305,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 665, col: 28, offset: 21291},
+																									pos:        position{line: 665, col: 28, offset: 21292},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1332,22 +1332,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 658, col: 5, offset: 21000},
+																		pos: position{line: 658, col: 5, offset: 21001},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 658, col: 5, offset: 21000},
+																				pos: position{line: 658, col: 5, offset: 21001},
 																				run: (*parser).callonDocumentRawLine266,
 																				expr: &seqExpr{
-																					pos: position{line: 658, col: 5, offset: 21000},
+																					pos: position{line: 658, col: 5, offset: 21001},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 658, col: 5, offset: 21000},
+																							pos:        position{line: 658, col: 5, offset: 21001},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 658, col: 13, offset: 21008},
+																							pos:   position{line: 658, col: 13, offset: 21009},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -1367,8 +1367,8 @@ var g = &grammar{
 																											pos: position{line: 320, col: 28, offset: 9847},
 																											expr: &charClassMatcher{
 																												pos:        position{line: 320, col: 29, offset: 9848},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -1379,7 +1379,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 658, col: 32, offset: 21027},
+																							pos:        position{line: 658, col: 32, offset: 21028},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1388,19 +1388,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 665, col: 5, offset: 21268},
+																				pos: position{line: 665, col: 5, offset: 21269},
 																				run: (*parser).callonDocumentRawLine276,
 																				expr: &seqExpr{
-																					pos: position{line: 665, col: 5, offset: 21268},
+																					pos: position{line: 665, col: 5, offset: 21269},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 665, col: 5, offset: 21268},
+																							pos:        position{line: 665, col: 5, offset: 21269},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 665, col: 9, offset: 21272},
+																							pos:   position{line: 665, col: 9, offset: 21273},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -1420,8 +1420,8 @@ var g = &grammar{
 																											pos: position{line: 320, col: 28, offset: 9847},
 																											expr: &charClassMatcher{
 																												pos:        position{line: 320, col: 29, offset: 9848},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -1432,7 +1432,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 665, col: 28, offset: 21291},
+																							pos:        position{line: 665, col: 28, offset: 21292},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2914, col: 12, offset: 92237},
+																pos: position{line: 2914, col: 12, offset: 92238},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2914, col: 13, offset: 92238},
+																	pos: position{line: 2914, col: 13, offset: 92239},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2914, col: 13, offset: 92238},
+																			pos: position{line: 2914, col: 13, offset: 92239},
 																			expr: &litMatcher{
-																				pos:        position{line: 2914, col: 13, offset: 92238},
+																				pos:        position{line: 2914, col: 13, offset: 92239},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2914, col: 18, offset: 92243},
+																			pos: position{line: 2914, col: 18, offset: 92244},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2914, col: 18, offset: 92243},
+																				pos:        position{line: 2914, col: 18, offset: 92244},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92410},
+														pos: position{line: 2922, col: 10, offset: 92411},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92410},
+															pos:        position{line: 2922, col: 10, offset: 92411},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92758},
+													pos: position{line: 2941, col: 8, offset: 92759},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92759,
+														line: 2941, col: 9, offset: 92760,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92410},
+														pos: position{line: 2922, col: 10, offset: 92411},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92410},
+															pos:        position{line: 2922, col: 10, offset: 92411},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,24 +1665,24 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92758},
+													pos: position{line: 2941, col: 8, offset: 92759},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92759,
+														line: 2941, col: 9, offset: 92760,
 													},
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 737, col: 5, offset: 23725},
+										pos: position{line: 737, col: 5, offset: 23726},
 										run: (*parser).callonDocumentRawLine334,
 										expr: &seqExpr{
-											pos: position{line: 737, col: 5, offset: 23725},
+											pos: position{line: 737, col: 5, offset: 23726},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 737, col: 5, offset: 23725},
+													pos: position{line: 737, col: 5, offset: 23726},
 													expr: &charClassMatcher{
-														pos:        position{line: 2812, col: 13, offset: 89505},
+														pos:        position{line: 2812, col: 13, offset: 89506},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1690,36 +1690,36 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 738, col: 5, offset: 23755},
+													pos:   position{line: 738, col: 5, offset: 23756},
 													label: "delimiter",
 													expr: &choiceExpr{
-														pos: position{line: 739, col: 9, offset: 23775},
+														pos: position{line: 739, col: 9, offset: 23776},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 753, col: 5, offset: 24267},
+																pos: position{line: 753, col: 5, offset: 24268},
 																run: (*parser).callonDocumentRawLine340,
 																expr: &seqExpr{
-																	pos: position{line: 753, col: 5, offset: 24267},
+																	pos: position{line: 753, col: 5, offset: 24268},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 753, col: 5, offset: 24267},
+																			pos:   position{line: 753, col: 5, offset: 24268},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 753, col: 16, offset: 24278},
+																				pos: position{line: 753, col: 16, offset: 24279},
 																				run: (*parser).callonDocumentRawLine343,
 																				expr: &seqExpr{
-																					pos: position{line: 753, col: 16, offset: 24278},
+																					pos: position{line: 753, col: 16, offset: 24279},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 753, col: 16, offset: 24278},
+																							pos:        position{line: 753, col: 16, offset: 24279},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 753, col: 23, offset: 24285},
+																							pos: position{line: 753, col: 23, offset: 24286},
 																							expr: &litMatcher{
-																								pos:        position{line: 753, col: 23, offset: 24285},
+																								pos:        position{line: 753, col: 23, offset: 24286},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -1730,12 +1730,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 755, col: 8, offset: 24369},
+																			pos: position{line: 755, col: 8, offset: 24370},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92410},
+																				pos: position{line: 2922, col: 10, offset: 92411},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92410},
+																					pos:        position{line: 2922, col: 10, offset: 92411},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92808},
+																			pos: position{line: 2944, col: 8, offset: 92809},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92581},
+																					pos: position{line: 2931, col: 12, offset: 92582},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92582},
+																						pos: position{line: 2931, col: 13, offset: 92583},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92582},
+																								pos:        position{line: 2931, col: 13, offset: 92583},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92589},
+																								pos:        position{line: 2931, col: 20, offset: 92590},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92598},
+																								pos:        position{line: 2931, col: 29, offset: 92599},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
@@ -1785,30 +1785,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 760, col: 5, offset: 24515},
+																pos: position{line: 760, col: 5, offset: 24516},
 																run: (*parser).callonDocumentRawLine359,
 																expr: &seqExpr{
-																	pos: position{line: 760, col: 5, offset: 24515},
+																	pos: position{line: 760, col: 5, offset: 24516},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 760, col: 5, offset: 24515},
+																			pos:   position{line: 760, col: 5, offset: 24516},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 760, col: 16, offset: 24526},
+																				pos: position{line: 760, col: 16, offset: 24527},
 																				run: (*parser).callonDocumentRawLine362,
 																				expr: &seqExpr{
-																					pos: position{line: 760, col: 16, offset: 24526},
+																					pos: position{line: 760, col: 16, offset: 24527},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 760, col: 16, offset: 24526},
+																							pos:        position{line: 760, col: 16, offset: 24527},
 																							val:        "====",
 																							ignoreCase: false,
 																							want:       "\"====\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 760, col: 23, offset: 24533},
+																							pos: position{line: 760, col: 23, offset: 24534},
 																							expr: &litMatcher{
-																								pos:        position{line: 760, col: 23, offset: 24533},
+																								pos:        position{line: 760, col: 23, offset: 24534},
 																								val:        "=",
 																								ignoreCase: false,
 																								want:       "\"=\"",
@@ -1819,12 +1819,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 762, col: 8, offset: 24617},
+																			pos: position{line: 762, col: 8, offset: 24618},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92410},
+																				pos: position{line: 2922, col: 10, offset: 92411},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92410},
+																					pos:        position{line: 2922, col: 10, offset: 92411},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92808},
+																			pos: position{line: 2944, col: 8, offset: 92809},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92581},
+																					pos: position{line: 2931, col: 12, offset: 92582},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92582},
+																						pos: position{line: 2931, col: 13, offset: 92583},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92582},
+																								pos:        position{line: 2931, col: 13, offset: 92583},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92589},
+																								pos:        position{line: 2931, col: 20, offset: 92590},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92598},
+																								pos:        position{line: 2931, col: 29, offset: 92599},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
@@ -1874,27 +1874,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 773, col: 26, offset: 25003},
+																pos: position{line: 773, col: 26, offset: 25004},
 																run: (*parser).callonDocumentRawLine378,
 																expr: &seqExpr{
-																	pos: position{line: 773, col: 26, offset: 25003},
+																	pos: position{line: 773, col: 26, offset: 25004},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 773, col: 26, offset: 25003},
+																			pos:        position{line: 773, col: 26, offset: 25004},
 																			val:        "```",
 																			ignoreCase: false,
 																			want:       "\"```\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 773, col: 32, offset: 25009},
+																			pos:   position{line: 773, col: 32, offset: 25010},
 																			label: "language",
 																			expr: &actionExpr{
-																				pos: position{line: 777, col: 13, offset: 25139},
+																				pos: position{line: 777, col: 13, offset: 25140},
 																				run: (*parser).callonDocumentRawLine382,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 777, col: 14, offset: 25140},
+																					pos: position{line: 777, col: 14, offset: 25141},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 777, col: 14, offset: 25140},
+																						pos:        position{line: 777, col: 14, offset: 25141},
 																						val:        "[^\\r\\n` ]",
 																						chars:      []rune{'\r', '\n', '`', ' '},
 																						ignoreCase: false,
@@ -1904,12 +1904,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 773, col: 52, offset: 25029},
+																			pos: position{line: 773, col: 52, offset: 25030},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92410},
+																				pos: position{line: 2922, col: 10, offset: 92411},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92410},
+																					pos:        position{line: 2922, col: 10, offset: 92411},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92808},
+																			pos: position{line: 2944, col: 8, offset: 92809},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92581},
+																					pos: position{line: 2931, col: 12, offset: 92582},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92582},
+																						pos: position{line: 2931, col: 13, offset: 92583},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92582},
+																								pos:        position{line: 2931, col: 13, offset: 92583},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92589},
+																								pos:        position{line: 2931, col: 20, offset: 92590},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92598},
+																								pos:        position{line: 2931, col: 29, offset: 92599},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
@@ -1959,30 +1959,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 767, col: 5, offset: 24762},
+																pos: position{line: 767, col: 5, offset: 24763},
 																run: (*parser).callonDocumentRawLine396,
 																expr: &seqExpr{
-																	pos: position{line: 767, col: 5, offset: 24762},
+																	pos: position{line: 767, col: 5, offset: 24763},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 767, col: 5, offset: 24762},
+																			pos:   position{line: 767, col: 5, offset: 24763},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 767, col: 16, offset: 24773},
+																				pos: position{line: 767, col: 16, offset: 24774},
 																				run: (*parser).callonDocumentRawLine399,
 																				expr: &seqExpr{
-																					pos: position{line: 767, col: 16, offset: 24773},
+																					pos: position{line: 767, col: 16, offset: 24774},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 767, col: 16, offset: 24773},
+																							pos:        position{line: 767, col: 16, offset: 24774},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 767, col: 22, offset: 24779},
+																							pos: position{line: 767, col: 22, offset: 24780},
 																							expr: &litMatcher{
-																								pos:        position{line: 767, col: 22, offset: 24779},
+																								pos:        position{line: 767, col: 22, offset: 24780},
 																								val:        "`",
 																								ignoreCase: false,
 																								want:       "\"`\"",
@@ -1993,12 +1993,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 769, col: 8, offset: 24863},
+																			pos: position{line: 769, col: 8, offset: 24864},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92410},
+																				pos: position{line: 2922, col: 10, offset: 92411},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92410},
+																					pos:        position{line: 2922, col: 10, offset: 92411},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92808},
+																			pos: position{line: 2944, col: 8, offset: 92809},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92581},
+																					pos: position{line: 2931, col: 12, offset: 92582},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92582},
+																						pos: position{line: 2931, col: 13, offset: 92583},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92582},
+																								pos:        position{line: 2931, col: 13, offset: 92583},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92589},
+																								pos:        position{line: 2931, col: 20, offset: 92590},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92598},
+																								pos:        position{line: 2931, col: 29, offset: 92599},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
@@ -2048,30 +2048,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 782, col: 5, offset: 25299},
+																pos: position{line: 782, col: 5, offset: 25300},
 																run: (*parser).callonDocumentRawLine415,
 																expr: &seqExpr{
-																	pos: position{line: 782, col: 5, offset: 25299},
+																	pos: position{line: 782, col: 5, offset: 25300},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 782, col: 5, offset: 25299},
+																			pos:   position{line: 782, col: 5, offset: 25300},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 782, col: 16, offset: 25310},
+																				pos: position{line: 782, col: 16, offset: 25311},
 																				run: (*parser).callonDocumentRawLine418,
 																				expr: &seqExpr{
-																					pos: position{line: 782, col: 16, offset: 25310},
+																					pos: position{line: 782, col: 16, offset: 25311},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 782, col: 16, offset: 25310},
+																							pos:        position{line: 782, col: 16, offset: 25311},
 																							val:        "----",
 																							ignoreCase: false,
 																							want:       "\"----\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 782, col: 23, offset: 25317},
+																							pos: position{line: 782, col: 23, offset: 25318},
 																							expr: &litMatcher{
-																								pos:        position{line: 782, col: 23, offset: 25317},
+																								pos:        position{line: 782, col: 23, offset: 25318},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
@@ -2082,12 +2082,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 784, col: 8, offset: 25401},
+																			pos: position{line: 784, col: 8, offset: 25402},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92410},
+																				pos: position{line: 2922, col: 10, offset: 92411},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92410},
+																					pos:        position{line: 2922, col: 10, offset: 92411},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92808},
+																			pos: position{line: 2944, col: 8, offset: 92809},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92581},
+																					pos: position{line: 2931, col: 12, offset: 92582},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92582},
+																						pos: position{line: 2931, col: 13, offset: 92583},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92582},
+																								pos:        position{line: 2931, col: 13, offset: 92583},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92589},
+																								pos:        position{line: 2931, col: 20, offset: 92590},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92598},
+																								pos:        position{line: 2931, col: 29, offset: 92599},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
@@ -2137,30 +2137,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 796, col: 5, offset: 25775},
+																pos: position{line: 796, col: 5, offset: 25776},
 																run: (*parser).callonDocumentRawLine434,
 																expr: &seqExpr{
-																	pos: position{line: 796, col: 5, offset: 25775},
+																	pos: position{line: 796, col: 5, offset: 25776},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 796, col: 5, offset: 25775},
+																			pos:   position{line: 796, col: 5, offset: 25776},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 796, col: 16, offset: 25786},
+																				pos: position{line: 796, col: 16, offset: 25787},
 																				run: (*parser).callonDocumentRawLine437,
 																				expr: &seqExpr{
-																					pos: position{line: 796, col: 16, offset: 25786},
+																					pos: position{line: 796, col: 16, offset: 25787},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 796, col: 16, offset: 25786},
+																							pos:        position{line: 796, col: 16, offset: 25787},
 																							val:        "....",
 																							ignoreCase: false,
 																							want:       "\"....\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 796, col: 23, offset: 25793},
+																							pos: position{line: 796, col: 23, offset: 25794},
 																							expr: &litMatcher{
-																								pos:        position{line: 796, col: 23, offset: 25793},
+																								pos:        position{line: 796, col: 23, offset: 25794},
 																								val:        ".",
 																								ignoreCase: false,
 																								want:       "\".\"",
@@ -2171,12 +2171,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 798, col: 8, offset: 25877},
+																			pos: position{line: 798, col: 8, offset: 25878},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92410},
+																				pos: position{line: 2922, col: 10, offset: 92411},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92410},
+																					pos:        position{line: 2922, col: 10, offset: 92411},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92808},
+																			pos: position{line: 2944, col: 8, offset: 92809},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92581},
+																					pos: position{line: 2931, col: 12, offset: 92582},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92582},
+																						pos: position{line: 2931, col: 13, offset: 92583},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92582},
+																								pos:        position{line: 2931, col: 13, offset: 92583},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92589},
+																								pos:        position{line: 2931, col: 20, offset: 92590},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92598},
+																								pos:        position{line: 2931, col: 29, offset: 92599},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
@@ -2226,30 +2226,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 803, col: 5, offset: 26027},
+																pos: position{line: 803, col: 5, offset: 26028},
 																run: (*parser).callonDocumentRawLine453,
 																expr: &seqExpr{
-																	pos: position{line: 803, col: 5, offset: 26027},
+																	pos: position{line: 803, col: 5, offset: 26028},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 803, col: 5, offset: 26027},
+																			pos:   position{line: 803, col: 5, offset: 26028},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 803, col: 16, offset: 26038},
+																				pos: position{line: 803, col: 16, offset: 26039},
 																				run: (*parser).callonDocumentRawLine456,
 																				expr: &seqExpr{
-																					pos: position{line: 803, col: 16, offset: 26038},
+																					pos: position{line: 803, col: 16, offset: 26039},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 803, col: 16, offset: 26038},
+																							pos:        position{line: 803, col: 16, offset: 26039},
 																							val:        "++++",
 																							ignoreCase: false,
 																							want:       "\"++++\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 803, col: 23, offset: 26045},
+																							pos: position{line: 803, col: 23, offset: 26046},
 																							expr: &litMatcher{
-																								pos:        position{line: 803, col: 23, offset: 26045},
+																								pos:        position{line: 803, col: 23, offset: 26046},
 																								val:        "+",
 																								ignoreCase: false,
 																								want:       "\"+\"",
@@ -2260,12 +2260,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 805, col: 8, offset: 26129},
+																			pos: position{line: 805, col: 8, offset: 26130},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92410},
+																				pos: position{line: 2922, col: 10, offset: 92411},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92410},
+																					pos:        position{line: 2922, col: 10, offset: 92411},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92808},
+																			pos: position{line: 2944, col: 8, offset: 92809},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92581},
+																					pos: position{line: 2931, col: 12, offset: 92582},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92582},
+																						pos: position{line: 2931, col: 13, offset: 92583},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92582},
+																								pos:        position{line: 2931, col: 13, offset: 92583},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92589},
+																								pos:        position{line: 2931, col: 20, offset: 92590},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92598},
+																								pos:        position{line: 2931, col: 29, offset: 92599},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
@@ -2315,30 +2315,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 810, col: 5, offset: 26277},
+																pos: position{line: 810, col: 5, offset: 26278},
 																run: (*parser).callonDocumentRawLine472,
 																expr: &seqExpr{
-																	pos: position{line: 810, col: 5, offset: 26277},
+																	pos: position{line: 810, col: 5, offset: 26278},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 810, col: 5, offset: 26277},
+																			pos:   position{line: 810, col: 5, offset: 26278},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 16, offset: 26288},
+																				pos: position{line: 810, col: 16, offset: 26289},
 																				run: (*parser).callonDocumentRawLine475,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 16, offset: 26288},
+																					pos: position{line: 810, col: 16, offset: 26289},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 810, col: 16, offset: 26288},
+																							pos:        position{line: 810, col: 16, offset: 26289},
 																							val:        "____",
 																							ignoreCase: false,
 																							want:       "\"____\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 810, col: 23, offset: 26295},
+																							pos: position{line: 810, col: 23, offset: 26296},
 																							expr: &litMatcher{
-																								pos:        position{line: 810, col: 23, offset: 26295},
+																								pos:        position{line: 810, col: 23, offset: 26296},
 																								val:        "_",
 																								ignoreCase: false,
 																								want:       "\"_\"",
@@ -2349,12 +2349,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 812, col: 8, offset: 26379},
+																			pos: position{line: 812, col: 8, offset: 26380},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92410},
+																				pos: position{line: 2922, col: 10, offset: 92411},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92410},
+																					pos:        position{line: 2922, col: 10, offset: 92411},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92808},
+																			pos: position{line: 2944, col: 8, offset: 92809},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92581},
+																					pos: position{line: 2931, col: 12, offset: 92582},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92582},
+																						pos: position{line: 2931, col: 13, offset: 92583},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92582},
+																								pos:        position{line: 2931, col: 13, offset: 92583},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92589},
+																								pos:        position{line: 2931, col: 20, offset: 92590},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92598},
+																								pos:        position{line: 2931, col: 29, offset: 92599},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
@@ -2404,30 +2404,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 817, col: 5, offset: 26523},
+																pos: position{line: 817, col: 5, offset: 26524},
 																run: (*parser).callonDocumentRawLine491,
 																expr: &seqExpr{
-																	pos: position{line: 817, col: 5, offset: 26523},
+																	pos: position{line: 817, col: 5, offset: 26524},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 817, col: 5, offset: 26523},
+																			pos:   position{line: 817, col: 5, offset: 26524},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 817, col: 16, offset: 26534},
+																				pos: position{line: 817, col: 16, offset: 26535},
 																				run: (*parser).callonDocumentRawLine494,
 																				expr: &seqExpr{
-																					pos: position{line: 817, col: 16, offset: 26534},
+																					pos: position{line: 817, col: 16, offset: 26535},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 817, col: 16, offset: 26534},
+																							pos:        position{line: 817, col: 16, offset: 26535},
 																							val:        "****",
 																							ignoreCase: false,
 																							want:       "\"****\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 817, col: 23, offset: 26541},
+																							pos: position{line: 817, col: 23, offset: 26542},
 																							expr: &litMatcher{
-																								pos:        position{line: 817, col: 23, offset: 26541},
+																								pos:        position{line: 817, col: 23, offset: 26542},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -2438,12 +2438,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 819, col: 8, offset: 26625},
+																			pos: position{line: 819, col: 8, offset: 26626},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92410},
+																				pos: position{line: 2922, col: 10, offset: 92411},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92410},
+																					pos:        position{line: 2922, col: 10, offset: 92411},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92808},
+																			pos: position{line: 2944, col: 8, offset: 92809},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92581},
+																					pos: position{line: 2931, col: 12, offset: 92582},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92582},
+																						pos: position{line: 2931, col: 13, offset: 92583},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92582},
+																								pos:        position{line: 2931, col: 13, offset: 92583},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92589},
+																								pos:        position{line: 2931, col: 20, offset: 92590},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92598},
+																								pos:        position{line: 2931, col: 29, offset: 92599},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2926, col: 11, offset: 92471},
+													pos: position{line: 2926, col: 11, offset: 92472},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2926, col: 11, offset: 92471},
+														pos: position{line: 2926, col: 11, offset: 92472},
 														expr: &charClassMatcher{
-															pos:        position{line: 2926, col: 11, offset: 92471},
+															pos:        position{line: 2926, col: 11, offset: 92472},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2872, col: 14, offset: 91003},
+													pos: position{line: 2872, col: 14, offset: 91004},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2872, col: 14, offset: 91003},
+														pos: position{line: 2872, col: 14, offset: 91004},
 														expr: &charClassMatcher{
-															pos:        position{line: 2872, col: 14, offset: 91003},
+															pos:        position{line: 2872, col: 14, offset: 91004},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92758},
+													pos: position{line: 2941, col: 8, offset: 92759},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92759,
+														line: 2941, col: 9, offset: 92760,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92758},
+							pos: position{line: 2941, col: 8, offset: 92759},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92759,
+								line: 2941, col: 9, offset: 92760,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2876, col: 17, offset: 91073},
+												pos: position{line: 2876, col: 17, offset: 91074},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2876, col: 17, offset: 91073},
+													pos:   position{line: 2876, col: 17, offset: 91074},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2893, col: 5, offset: 91527},
+														pos: position{line: 2893, col: 5, offset: 91528},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2893, col: 5, offset: 91527},
+															pos:   position{line: 2893, col: 5, offset: 91528},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2893, col: 14, offset: 91536},
+																pos: position{line: 2893, col: 14, offset: 91537},
 																expr: &choiceExpr{
-																	pos: position{line: 2894, col: 9, offset: 91546},
+																	pos: position{line: 2894, col: 9, offset: 91547},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2894, col: 9, offset: 91546},
+																			pos: position{line: 2894, col: 9, offset: 91547},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2894, col: 9, offset: 91546},
+																				pos: position{line: 2894, col: 9, offset: 91547},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2894, col: 9, offset: 91546},
+																						pos: position{line: 2894, col: 9, offset: 91547},
 																						expr: &litMatcher{
-																							pos:        position{line: 2894, col: 10, offset: 91547},
+																							pos:        position{line: 2894, col: 10, offset: 91548},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2895, col: 9, offset: 91575},
+																						pos: position{line: 2895, col: 9, offset: 91576},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2895, col: 10, offset: 91576},
+																							pos:        position{line: 2895, col: 10, offset: 91577},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2898, col: 11, offset: 91788},
+																			pos: position{line: 2898, col: 11, offset: 91789},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2898, col: 11, offset: 91788},
+																					pos:        position{line: 2898, col: 11, offset: 91789},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2898, col: 19, offset: 91796},
+																					pos: position{line: 2898, col: 19, offset: 91797},
 																					expr: &seqExpr{
-																						pos: position{line: 2898, col: 21, offset: 91798},
+																						pos: position{line: 2898, col: 21, offset: 91799},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2898, col: 21, offset: 91798},
+																								pos: position{line: 2898, col: 21, offset: 91799},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92410},
+																									pos: position{line: 2922, col: 10, offset: 92411},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92410},
+																										pos:        position{line: 2922, col: 10, offset: 92411},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2898, col: 28, offset: 91805},
+																								pos: position{line: 2898, col: 28, offset: 91806},
 																								expr: &notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -2699,35 +2699,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 649, col: 5, offset: 20790},
+																			pos: position{line: 649, col: 5, offset: 20791},
 																			run: (*parser).callonFileInclusion30,
 																			expr: &seqExpr{
-																				pos: position{line: 649, col: 5, offset: 20790},
+																				pos: position{line: 649, col: 5, offset: 20791},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 649, col: 5, offset: 20790},
+																						pos: position{line: 649, col: 5, offset: 20791},
 																						run: (*parser).callonFileInclusion32,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 652, col: 5, offset: 20862},
+																						pos:   position{line: 652, col: 5, offset: 20863},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 652, col: 14, offset: 20871},
+																							pos: position{line: 652, col: 14, offset: 20872},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 658, col: 5, offset: 21000},
+																									pos: position{line: 658, col: 5, offset: 21001},
 																									run: (*parser).callonFileInclusion35,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 5, offset: 21000},
+																										pos: position{line: 658, col: 5, offset: 21001},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 5, offset: 21000},
+																												pos:        position{line: 658, col: 5, offset: 21001},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 13, offset: 21008},
+																												pos:   position{line: 658, col: 13, offset: 21009},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -2747,8 +2747,8 @@ var g = &grammar{
 																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 320, col: 29, offset: 9848},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -2759,7 +2759,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 32, offset: 21027},
+																												pos:        position{line: 658, col: 32, offset: 21028},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2768,19 +2768,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 5, offset: 21268},
+																									pos: position{line: 665, col: 5, offset: 21269},
 																									run: (*parser).callonFileInclusion45,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 5, offset: 21268},
+																										pos: position{line: 665, col: 5, offset: 21269},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 5, offset: 21268},
+																												pos:        position{line: 665, col: 5, offset: 21269},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 9, offset: 21272},
+																												pos:   position{line: 665, col: 9, offset: 21273},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -2800,8 +2800,8 @@ var g = &grammar{
 																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 320, col: 29, offset: 9848},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -2812,7 +2812,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 28, offset: 21291},
+																												pos:        position{line: 665, col: 28, offset: 21292},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2821,19 +2821,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 671, col: 25, offset: 21472},
+																									pos: position{line: 671, col: 25, offset: 21473},
 																									run: (*parser).callonFileInclusion55,
 																									expr: &seqExpr{
-																										pos: position{line: 671, col: 25, offset: 21472},
+																										pos: position{line: 671, col: 25, offset: 21473},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 671, col: 25, offset: 21472},
+																												pos:        position{line: 671, col: 25, offset: 21473},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 37, offset: 21484},
+																												pos:   position{line: 671, col: 37, offset: 21485},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -2853,8 +2853,8 @@ var g = &grammar{
 																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 320, col: 29, offset: 9848},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -2865,33 +2865,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 56, offset: 21503},
+																												pos:   position{line: 671, col: 56, offset: 21504},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 671, col: 62, offset: 21509},
+																													pos: position{line: 671, col: 62, offset: 21510},
 																													expr: &actionExpr{
-																														pos: position{line: 679, col: 17, offset: 21806},
+																														pos: position{line: 679, col: 17, offset: 21807},
 																														run: (*parser).callonFileInclusion66,
 																														expr: &seqExpr{
-																															pos: position{line: 679, col: 17, offset: 21806},
+																															pos: position{line: 679, col: 17, offset: 21807},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 679, col: 17, offset: 21806},
+																																	pos:        position{line: 679, col: 17, offset: 21807},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 679, col: 21, offset: 21810},
+																																	pos:   position{line: 679, col: 21, offset: 21811},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 679, col: 28, offset: 21817},
+																																		pos: position{line: 679, col: 28, offset: 21818},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 679, col: 28, offset: 21817},
+																																				pos: position{line: 679, col: 28, offset: 21818},
 																																				run: (*parser).callonFileInclusion71,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 679, col: 28, offset: 21817},
+																																					pos:        position{line: 679, col: 28, offset: 21818},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -2899,12 +2899,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 681, col: 9, offset: 21871},
+																																				pos: position{line: 681, col: 9, offset: 21872},
 																																				run: (*parser).callonFileInclusion73,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 681, col: 9, offset: 21871},
+																																					pos: position{line: 681, col: 9, offset: 21872},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 681, col: 9, offset: 21871},
+																																						pos:        position{line: 681, col: 9, offset: 21872},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -2921,7 +2921,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 671, col: 78, offset: 21525},
+																												pos:        position{line: 671, col: 78, offset: 21526},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2930,19 +2930,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 675, col: 25, offset: 21643},
+																									pos: position{line: 675, col: 25, offset: 21644},
 																									run: (*parser).callonFileInclusion77,
 																									expr: &seqExpr{
-																										pos: position{line: 675, col: 25, offset: 21643},
+																										pos: position{line: 675, col: 25, offset: 21644},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 675, col: 25, offset: 21643},
+																												pos:        position{line: 675, col: 25, offset: 21644},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 675, col: 38, offset: 21656},
+																												pos:   position{line: 675, col: 38, offset: 21657},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -2962,8 +2962,8 @@ var g = &grammar{
 																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 320, col: 29, offset: 9848},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -2974,33 +2974,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 675, col: 57, offset: 21675},
+																												pos:   position{line: 675, col: 57, offset: 21676},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 675, col: 63, offset: 21681},
+																													pos: position{line: 675, col: 63, offset: 21682},
 																													expr: &actionExpr{
-																														pos: position{line: 679, col: 17, offset: 21806},
+																														pos: position{line: 679, col: 17, offset: 21807},
 																														run: (*parser).callonFileInclusion88,
 																														expr: &seqExpr{
-																															pos: position{line: 679, col: 17, offset: 21806},
+																															pos: position{line: 679, col: 17, offset: 21807},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 679, col: 17, offset: 21806},
+																																	pos:        position{line: 679, col: 17, offset: 21807},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 679, col: 21, offset: 21810},
+																																	pos:   position{line: 679, col: 21, offset: 21811},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 679, col: 28, offset: 21817},
+																																		pos: position{line: 679, col: 28, offset: 21818},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 679, col: 28, offset: 21817},
+																																				pos: position{line: 679, col: 28, offset: 21818},
 																																				run: (*parser).callonFileInclusion93,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 679, col: 28, offset: 21817},
+																																					pos:        position{line: 679, col: 28, offset: 21818},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3008,12 +3008,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 681, col: 9, offset: 21871},
+																																				pos: position{line: 681, col: 9, offset: 21872},
 																																				run: (*parser).callonFileInclusion95,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 681, col: 9, offset: 21871},
+																																					pos: position{line: 681, col: 9, offset: 21872},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 681, col: 9, offset: 21871},
+																																						pos:        position{line: 681, col: 9, offset: 21872},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3030,7 +3030,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 675, col: 79, offset: 21697},
+																												pos:        position{line: 675, col: 79, offset: 21698},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -3045,27 +3045,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1211, col: 23, offset: 37655},
+																			pos: position{line: 1211, col: 23, offset: 37656},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1211, col: 23, offset: 37655},
+																				pos: position{line: 1211, col: 23, offset: 37656},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1209, col: 32, offset: 37623},
+																						pos:        position{line: 1209, col: 32, offset: 37624},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1211, col: 51, offset: 37683},
+																						pos:   position{line: 1211, col: 51, offset: 37684},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1211, col: 56, offset: 37688},
+																							pos: position{line: 1211, col: 56, offset: 37689},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1211, col: 56, offset: 37688},
+																								pos: position{line: 1211, col: 56, offset: 37689},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1211, col: 56, offset: 37688},
+																									pos:        position{line: 1211, col: 56, offset: 37689},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3075,7 +3075,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1209, col: 32, offset: 37623},
+																						pos:        position{line: 1209, col: 32, offset: 37624},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2901, col: 11, offset: 91925},
+																			pos: position{line: 2901, col: 11, offset: 91926},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 11, offset: 91925},
+																				pos:        position{line: 2901, col: 11, offset: 91926},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92410},
+								pos: position{line: 2922, col: 10, offset: 92411},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92410},
+									pos:        position{line: 2922, col: 10, offset: 92411},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92808},
+							pos: position{line: 2944, col: 8, offset: 92809},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92581},
+									pos: position{line: 2931, col: 12, offset: 92582},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92582},
+										pos: position{line: 2931, col: 13, offset: 92583},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92582},
+												pos:        position{line: 2931, col: 13, offset: 92583},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92589},
+												pos:        position{line: 2931, col: 20, offset: 92590},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92598},
+												pos:        position{line: 2931, col: 29, offset: 92599},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92758},
+									pos: position{line: 2941, col: 8, offset: 92759},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92759,
+										line: 2941, col: 9, offset: 92760,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92237},
+																				pos: position{line: 2914, col: 12, offset: 92238},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2914, col: 13, offset: 92238},
+																					pos: position{line: 2914, col: 13, offset: 92239},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2914, col: 13, offset: 92238},
+																							pos: position{line: 2914, col: 13, offset: 92239},
 																							expr: &litMatcher{
-																								pos:        position{line: 2914, col: 13, offset: 92238},
+																								pos:        position{line: 2914, col: 13, offset: 92239},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2914, col: 18, offset: 92243},
+																							pos: position{line: 2914, col: 18, offset: 92244},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2914, col: 18, offset: 92243},
+																								pos:        position{line: 2914, col: 18, offset: 92244},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92237},
+																				pos: position{line: 2914, col: 12, offset: 92238},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2914, col: 13, offset: 92238},
+																					pos: position{line: 2914, col: 13, offset: 92239},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2914, col: 13, offset: 92238},
+																							pos: position{line: 2914, col: 13, offset: 92239},
 																							expr: &litMatcher{
-																								pos:        position{line: 2914, col: 13, offset: 92238},
+																								pos:        position{line: 2914, col: 13, offset: 92239},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2914, col: 18, offset: 92243},
+																							pos: position{line: 2914, col: 18, offset: 92244},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2914, col: 18, offset: 92243},
+																								pos:        position{line: 2914, col: 18, offset: 92244},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2914, col: 12, offset: 92237},
+																		pos: position{line: 2914, col: 12, offset: 92238},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2914, col: 13, offset: 92238},
+																			pos: position{line: 2914, col: 13, offset: 92239},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2914, col: 13, offset: 92238},
+																					pos: position{line: 2914, col: 13, offset: 92239},
 																					expr: &litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92238},
+																						pos:        position{line: 2914, col: 13, offset: 92239},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2914, col: 18, offset: 92243},
+																					pos: position{line: 2914, col: 18, offset: 92244},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2914, col: 18, offset: 92243},
+																						pos:        position{line: 2914, col: 18, offset: 92244},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92237},
+																									pos: position{line: 2914, col: 12, offset: 92238},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2914, col: 13, offset: 92238},
+																										pos: position{line: 2914, col: 13, offset: 92239},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2914, col: 13, offset: 92238},
+																												pos: position{line: 2914, col: 13, offset: 92239},
 																												expr: &litMatcher{
-																													pos:        position{line: 2914, col: 13, offset: 92238},
+																													pos:        position{line: 2914, col: 13, offset: 92239},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2914, col: 18, offset: 92243},
+																												pos: position{line: 2914, col: 18, offset: 92244},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2914, col: 18, offset: 92243},
+																													pos:        position{line: 2914, col: 18, offset: 92244},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92237},
+																									pos: position{line: 2914, col: 12, offset: 92238},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2914, col: 13, offset: 92238},
+																										pos: position{line: 2914, col: 13, offset: 92239},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2914, col: 13, offset: 92238},
+																												pos: position{line: 2914, col: 13, offset: 92239},
 																												expr: &litMatcher{
-																													pos:        position{line: 2914, col: 13, offset: 92238},
+																													pos:        position{line: 2914, col: 13, offset: 92239},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2914, col: 18, offset: 92243},
+																												pos: position{line: 2914, col: 18, offset: 92244},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2914, col: 18, offset: 92243},
+																													pos:        position{line: 2914, col: 18, offset: 92244},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2914, col: 12, offset: 92237},
+																							pos: position{line: 2914, col: 12, offset: 92238},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2914, col: 13, offset: 92238},
+																								pos: position{line: 2914, col: 13, offset: 92239},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2914, col: 13, offset: 92238},
+																										pos: position{line: 2914, col: 13, offset: 92239},
 																										expr: &litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92238},
+																											pos:        position{line: 2914, col: 13, offset: 92239},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2914, col: 18, offset: 92243},
+																										pos: position{line: 2914, col: 18, offset: 92244},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2914, col: 18, offset: 92243},
+																											pos:        position{line: 2914, col: 18, offset: 92244},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2914, col: 12, offset: 92237},
+														pos: position{line: 2914, col: 12, offset: 92238},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2914, col: 13, offset: 92238},
+															pos: position{line: 2914, col: 13, offset: 92239},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2914, col: 13, offset: 92238},
+																	pos: position{line: 2914, col: 13, offset: 92239},
 																	expr: &litMatcher{
-																		pos:        position{line: 2914, col: 13, offset: 92238},
+																		pos:        position{line: 2914, col: 13, offset: 92239},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2914, col: 18, offset: 92243},
+																	pos: position{line: 2914, col: 18, offset: 92244},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2914, col: 18, offset: 92243},
+																		pos:        position{line: 2914, col: 18, offset: 92244},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2914, col: 12, offset: 92237},
+														pos: position{line: 2914, col: 12, offset: 92238},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2914, col: 13, offset: 92238},
+															pos: position{line: 2914, col: 13, offset: 92239},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2914, col: 13, offset: 92238},
+																	pos: position{line: 2914, col: 13, offset: 92239},
 																	expr: &litMatcher{
-																		pos:        position{line: 2914, col: 13, offset: 92238},
+																		pos:        position{line: 2914, col: 13, offset: 92239},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2914, col: 18, offset: 92243},
+																	pos: position{line: 2914, col: 18, offset: 92244},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2914, col: 18, offset: 92243},
+																		pos:        position{line: 2914, col: 18, offset: 92244},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2914, col: 12, offset: 92237},
+												pos: position{line: 2914, col: 12, offset: 92238},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2914, col: 13, offset: 92238},
+													pos: position{line: 2914, col: 13, offset: 92239},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2914, col: 13, offset: 92238},
+															pos: position{line: 2914, col: 13, offset: 92239},
 															expr: &litMatcher{
-																pos:        position{line: 2914, col: 13, offset: 92238},
+																pos:        position{line: 2914, col: 13, offset: 92239},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2914, col: 18, offset: 92243},
+															pos: position{line: 2914, col: 18, offset: 92244},
 															expr: &charClassMatcher{
-																pos:        position{line: 2914, col: 18, offset: 92243},
+																pos:        position{line: 2914, col: 18, offset: 92244},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92758},
+							pos: position{line: 2941, col: 8, offset: 92759},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92759,
+								line: 2941, col: 9, offset: 92760,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2816, col: 14, offset: 89579},
+																		pos: position{line: 2816, col: 14, offset: 89580},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2816, col: 14, offset: 89579},
+																			pos: position{line: 2816, col: 14, offset: 89580},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2816, col: 14, offset: 89579},
+																				pos:        position{line: 2816, col: 14, offset: 89580},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2816, col: 14, offset: 89579},
+																				pos: position{line: 2816, col: 14, offset: 89580},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2816, col: 14, offset: 89579},
+																					pos: position{line: 2816, col: 14, offset: 89580},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2816, col: 14, offset: 89579},
+																						pos:        position{line: 2816, col: 14, offset: 89580},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2816, col: 14, offset: 89579},
+																							pos: position{line: 2816, col: 14, offset: 89580},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2816, col: 14, offset: 89579},
+																								pos: position{line: 2816, col: 14, offset: 89580},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2816, col: 14, offset: 89579},
+																									pos:        position{line: 2816, col: 14, offset: 89580},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2816, col: 14, offset: 89579},
+																									pos: position{line: 2816, col: 14, offset: 89580},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2816, col: 14, offset: 89579},
+																										pos: position{line: 2816, col: 14, offset: 89580},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2816, col: 14, offset: 89579},
+																											pos:        position{line: 2816, col: 14, offset: 89580},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92758},
+							pos: position{line: 2941, col: 8, offset: 92759},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92759,
+								line: 2941, col: 9, offset: 92760,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2816, col: 14, offset: 89579},
+																pos: position{line: 2816, col: 14, offset: 89580},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2816, col: 14, offset: 89579},
+																	pos: position{line: 2816, col: 14, offset: 89580},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2816, col: 14, offset: 89579},
+																		pos:        position{line: 2816, col: 14, offset: 89580},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2816, col: 14, offset: 89579},
+																pos: position{line: 2816, col: 14, offset: 89580},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2816, col: 14, offset: 89579},
+																	pos: position{line: 2816, col: 14, offset: 89580},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2816, col: 14, offset: 89579},
+																		pos:        position{line: 2816, col: 14, offset: 89580},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92808},
+							pos: position{line: 2944, col: 8, offset: 92809},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92581},
+									pos: position{line: 2931, col: 12, offset: 92582},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92582},
+										pos: position{line: 2931, col: 13, offset: 92583},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92582},
+												pos:        position{line: 2931, col: 13, offset: 92583},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92589},
+												pos:        position{line: 2931, col: 20, offset: 92590},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92598},
+												pos:        position{line: 2931, col: 29, offset: 92599},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92758},
+									pos: position{line: 2941, col: 8, offset: 92759},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92759,
+										line: 2941, col: 9, offset: 92760,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92744},
+							pos: position{line: 2939, col: 11, offset: 92745},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92746,
+								line: 2939, col: 13, offset: 92747,
 							},
 						},
 						&labeledExpr{
@@ -4126,19 +4126,19 @@ var g = &grammar{
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
-											pos: position{line: 362, col: 19, offset: 11011},
+											pos: position{line: 362, col: 19, offset: 11012},
 											run: (*parser).callonDocumentFragment16,
 											expr: &seqExpr{
-												pos: position{line: 362, col: 19, offset: 11011},
+												pos: position{line: 362, col: 19, offset: 11012},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 362, col: 19, offset: 11011},
+														pos:        position{line: 362, col: 19, offset: 11012},
 														val:        ":!",
 														ignoreCase: false,
 														want:       "\":!\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 362, col: 24, offset: 11016},
+														pos:   position{line: 362, col: 24, offset: 11017},
 														label: "name",
 														expr: &actionExpr{
 															pos: position{line: 320, col: 18, offset: 9837},
@@ -4158,8 +4158,8 @@ var g = &grammar{
 																		pos: position{line: 320, col: 28, offset: 9847},
 																		expr: &charClassMatcher{
 																			pos:        position{line: 320, col: 29, offset: 9848},
-																			val:        "[-\\pL\\pN]",
-																			chars:      []rune{'-'},
+																			val:        "[_-\\pL\\pN]",
+																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
 																			inverted:   false,
@@ -4170,18 +4170,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 362, col: 45, offset: 11037},
+														pos:        position{line: 362, col: 45, offset: 11038},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 362, col: 49, offset: 11041},
+														pos: position{line: 362, col: 49, offset: 11042},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92410},
+															pos: position{line: 2922, col: 10, offset: 92411},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92410},
+																pos:        position{line: 2922, col: 10, offset: 92411},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92808},
+														pos: position{line: 2944, col: 8, offset: 92809},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92581},
+																pos: position{line: 2931, col: 12, offset: 92582},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92582},
+																	pos: position{line: 2931, col: 13, offset: 92583},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92582},
+																			pos:        position{line: 2931, col: 13, offset: 92583},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92589},
+																			pos:        position{line: 2931, col: 20, offset: 92590},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92598},
+																			pos:        position{line: 2931, col: 29, offset: 92599},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92758},
+																pos: position{line: 2941, col: 8, offset: 92759},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92759,
+																	line: 2941, col: 9, offset: 92760,
 																},
 															},
 														},
@@ -4231,19 +4231,19 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 364, col: 9, offset: 11132},
+											pos: position{line: 364, col: 9, offset: 11133},
 											run: (*parser).callonDocumentFragment37,
 											expr: &seqExpr{
-												pos: position{line: 364, col: 9, offset: 11132},
+												pos: position{line: 364, col: 9, offset: 11133},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 364, col: 9, offset: 11132},
+														pos:        position{line: 364, col: 9, offset: 11133},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 364, col: 13, offset: 11136},
+														pos:   position{line: 364, col: 13, offset: 11137},
 														label: "name",
 														expr: &actionExpr{
 															pos: position{line: 320, col: 18, offset: 9837},
@@ -4263,8 +4263,8 @@ var g = &grammar{
 																		pos: position{line: 320, col: 28, offset: 9847},
 																		expr: &charClassMatcher{
 																			pos:        position{line: 320, col: 29, offset: 9848},
-																			val:        "[-\\pL\\pN]",
-																			chars:      []rune{'-'},
+																			val:        "[_-\\pL\\pN]",
+																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
 																			inverted:   false,
@@ -4275,18 +4275,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 364, col: 34, offset: 11157},
+														pos:        position{line: 364, col: 34, offset: 11158},
 														val:        "!:",
 														ignoreCase: false,
 														want:       "\"!:\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 364, col: 39, offset: 11162},
+														pos: position{line: 364, col: 39, offset: 11163},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92410},
+															pos: position{line: 2922, col: 10, offset: 92411},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92410},
+																pos:        position{line: 2922, col: 10, offset: 92411},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92808},
+														pos: position{line: 2944, col: 8, offset: 92809},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92581},
+																pos: position{line: 2931, col: 12, offset: 92582},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92582},
+																	pos: position{line: 2931, col: 13, offset: 92583},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92582},
+																			pos:        position{line: 2931, col: 13, offset: 92583},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92589},
+																			pos:        position{line: 2931, col: 20, offset: 92590},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92598},
+																			pos:        position{line: 2931, col: 29, offset: 92599},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92758},
+																pos: position{line: 2941, col: 8, offset: 92759},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92759,
+																	line: 2941, col: 9, offset: 92760,
 																},
 															},
 														},
@@ -4336,24 +4336,24 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 690, col: 14, offset: 22172},
+											pos: position{line: 690, col: 14, offset: 22173},
 											run: (*parser).callonDocumentFragment58,
 											expr: &seqExpr{
-												pos: position{line: 690, col: 14, offset: 22172},
+												pos: position{line: 690, col: 14, offset: 22173},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2939, col: 11, offset: 92744},
+														pos: position{line: 2939, col: 11, offset: 92745},
 														expr: &anyMatcher{
-															line: 2939, col: 13, offset: 92746,
+															line: 2939, col: 13, offset: 92747,
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 690, col: 21, offset: 22179},
+														pos: position{line: 690, col: 21, offset: 22180},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92410},
+															pos: position{line: 2922, col: 10, offset: 92411},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92410},
+																pos:        position{line: 2922, col: 10, offset: 92411},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92808},
+														pos: position{line: 2944, col: 8, offset: 92809},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92581},
+																pos: position{line: 2931, col: 12, offset: 92582},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92582},
+																	pos: position{line: 2931, col: 13, offset: 92583},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92582},
+																			pos:        position{line: 2931, col: 13, offset: 92583},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92589},
+																			pos:        position{line: 2931, col: 20, offset: 92590},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92598},
+																			pos:        position{line: 2931, col: 29, offset: 92599},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92758},
+																pos: position{line: 2941, col: 8, offset: 92759},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92759,
+																	line: 2941, col: 9, offset: 92760,
 																},
 															},
 														},
@@ -4411,36 +4411,36 @@ var g = &grammar{
 											name: "Section",
 										},
 										&actionExpr{
-											pos: position{line: 833, col: 5, offset: 27007},
+											pos: position{line: 833, col: 5, offset: 27008},
 											run: (*parser).callonDocumentFragment75,
 											expr: &seqExpr{
-												pos: position{line: 833, col: 5, offset: 27007},
+												pos: position{line: 833, col: 5, offset: 27008},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 753, col: 5, offset: 24267},
+														pos: position{line: 753, col: 5, offset: 24268},
 														run: (*parser).callonDocumentFragment77,
 														expr: &seqExpr{
-															pos: position{line: 753, col: 5, offset: 24267},
+															pos: position{line: 753, col: 5, offset: 24268},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 753, col: 5, offset: 24267},
+																	pos:   position{line: 753, col: 5, offset: 24268},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 753, col: 16, offset: 24278},
+																		pos: position{line: 753, col: 16, offset: 24279},
 																		run: (*parser).callonDocumentFragment80,
 																		expr: &seqExpr{
-																			pos: position{line: 753, col: 16, offset: 24278},
+																			pos: position{line: 753, col: 16, offset: 24279},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 753, col: 16, offset: 24278},
+																					pos:        position{line: 753, col: 16, offset: 24279},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 753, col: 23, offset: 24285},
+																					pos: position{line: 753, col: 23, offset: 24286},
 																					expr: &litMatcher{
-																						pos:        position{line: 753, col: 23, offset: 24285},
+																						pos:        position{line: 753, col: 23, offset: 24286},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -4451,12 +4451,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 755, col: 8, offset: 24369},
+																	pos: position{line: 755, col: 8, offset: 24370},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92410},
+																		pos: position{line: 2922, col: 10, offset: 92411},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92410},
+																			pos:        position{line: 2922, col: 10, offset: 92411},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4465,28 +4465,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92808},
+																	pos: position{line: 2944, col: 8, offset: 92809},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92581},
+																			pos: position{line: 2931, col: 12, offset: 92582},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92582},
+																				pos: position{line: 2931, col: 13, offset: 92583},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92582},
+																						pos:        position{line: 2931, col: 13, offset: 92583},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92589},
+																						pos:        position{line: 2931, col: 20, offset: 92590},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92598},
+																						pos:        position{line: 2931, col: 29, offset: 92599},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4495,9 +4495,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92758},
+																			pos: position{line: 2941, col: 8, offset: 92759},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92759,
+																				line: 2941, col: 9, offset: 92760,
 																			},
 																		},
 																	},
@@ -4506,46 +4506,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 834, col: 5, offset: 27038},
+														pos:   position{line: 834, col: 5, offset: 27039},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 844, col: 5, offset: 27324},
+															pos: position{line: 844, col: 5, offset: 27325},
 															expr: &actionExpr{
-																pos: position{line: 844, col: 6, offset: 27325},
+																pos: position{line: 844, col: 6, offset: 27326},
 																run: (*parser).callonDocumentFragment98,
 																expr: &seqExpr{
-																	pos: position{line: 844, col: 6, offset: 27325},
+																	pos: position{line: 844, col: 6, offset: 27326},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 844, col: 6, offset: 27325},
+																			pos: position{line: 844, col: 6, offset: 27326},
 																			expr: &choiceExpr{
-																				pos: position{line: 841, col: 29, offset: 27267},
+																				pos: position{line: 841, col: 29, offset: 27268},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 753, col: 5, offset: 24267},
+																						pos: position{line: 753, col: 5, offset: 24268},
 																						run: (*parser).callonDocumentFragment102,
 																						expr: &seqExpr{
-																							pos: position{line: 753, col: 5, offset: 24267},
+																							pos: position{line: 753, col: 5, offset: 24268},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 753, col: 5, offset: 24267},
+																									pos:   position{line: 753, col: 5, offset: 24268},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 753, col: 16, offset: 24278},
+																										pos: position{line: 753, col: 16, offset: 24279},
 																										run: (*parser).callonDocumentFragment105,
 																										expr: &seqExpr{
-																											pos: position{line: 753, col: 16, offset: 24278},
+																											pos: position{line: 753, col: 16, offset: 24279},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 753, col: 16, offset: 24278},
+																													pos:        position{line: 753, col: 16, offset: 24279},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 753, col: 23, offset: 24285},
+																													pos: position{line: 753, col: 23, offset: 24286},
 																													expr: &litMatcher{
-																														pos:        position{line: 753, col: 23, offset: 24285},
+																														pos:        position{line: 753, col: 23, offset: 24286},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -4556,12 +4556,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 755, col: 8, offset: 24369},
+																									pos: position{line: 755, col: 8, offset: 24370},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92410},
+																										pos: position{line: 2922, col: 10, offset: 92411},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92410},
+																											pos:        position{line: 2922, col: 10, offset: 92411},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4570,28 +4570,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92808},
+																									pos: position{line: 2944, col: 8, offset: 92809},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92581},
+																											pos: position{line: 2931, col: 12, offset: 92582},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92582},
+																												pos: position{line: 2931, col: 13, offset: 92583},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92582},
+																														pos:        position{line: 2931, col: 13, offset: 92583},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92589},
+																														pos:        position{line: 2931, col: 20, offset: 92590},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92598},
+																														pos:        position{line: 2931, col: 29, offset: 92599},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4600,9 +4600,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92758},
+																											pos: position{line: 2941, col: 8, offset: 92759},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92759,
+																												line: 2941, col: 9, offset: 92760,
 																											},
 																										},
 																									},
@@ -4611,39 +4611,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92758},
+																						pos: position{line: 2941, col: 8, offset: 92759},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92759,
+																							line: 2941, col: 9, offset: 92760,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 845, col: 5, offset: 27355},
+																			pos:   position{line: 845, col: 5, offset: 27356},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 824, col: 5, offset: 26771},
+																				pos: position{line: 824, col: 5, offset: 26772},
 																				run: (*parser).callonDocumentFragment124,
 																				expr: &seqExpr{
-																					pos: position{line: 824, col: 5, offset: 26771},
+																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92744},
+																							pos: position{line: 2939, col: 11, offset: 92745},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92746,
+																								line: 2939, col: 13, offset: 92747,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 825, col: 5, offset: 26846},
+																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90936},
+																								pos: position{line: 2868, col: 13, offset: 90937},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90936},
+																									pos: position{line: 2868, col: 13, offset: 90937},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90936},
+																										pos:        position{line: 2868, col: 13, offset: 90937},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4653,28 +4653,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4683,9 +4683,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -4700,35 +4700,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 835, col: 5, offset: 27072},
+														pos: position{line: 835, col: 5, offset: 27073},
 														expr: &choiceExpr{
-															pos: position{line: 841, col: 29, offset: 27267},
+															pos: position{line: 841, col: 29, offset: 27268},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 753, col: 5, offset: 24267},
+																	pos: position{line: 753, col: 5, offset: 24268},
 																	run: (*parser).callonDocumentFragment142,
 																	expr: &seqExpr{
-																		pos: position{line: 753, col: 5, offset: 24267},
+																		pos: position{line: 753, col: 5, offset: 24268},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 753, col: 5, offset: 24267},
+																				pos:   position{line: 753, col: 5, offset: 24268},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 753, col: 16, offset: 24278},
+																					pos: position{line: 753, col: 16, offset: 24279},
 																					run: (*parser).callonDocumentFragment145,
 																					expr: &seqExpr{
-																						pos: position{line: 753, col: 16, offset: 24278},
+																						pos: position{line: 753, col: 16, offset: 24279},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 753, col: 16, offset: 24278},
+																								pos:        position{line: 753, col: 16, offset: 24279},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 753, col: 23, offset: 24285},
+																								pos: position{line: 753, col: 23, offset: 24286},
 																								expr: &litMatcher{
-																									pos:        position{line: 753, col: 23, offset: 24285},
+																									pos:        position{line: 753, col: 23, offset: 24286},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -4739,12 +4739,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 755, col: 8, offset: 24369},
+																				pos: position{line: 755, col: 8, offset: 24370},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92410},
+																					pos: position{line: 2922, col: 10, offset: 92411},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92410},
+																						pos:        position{line: 2922, col: 10, offset: 92411},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4753,28 +4753,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92808},
+																				pos: position{line: 2944, col: 8, offset: 92809},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92581},
+																						pos: position{line: 2931, col: 12, offset: 92582},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92582},
+																							pos: position{line: 2931, col: 13, offset: 92583},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92582},
+																									pos:        position{line: 2931, col: 13, offset: 92583},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92589},
+																									pos:        position{line: 2931, col: 20, offset: 92590},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92598},
+																									pos:        position{line: 2931, col: 29, offset: 92599},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4783,9 +4783,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92758},
+																						pos: position{line: 2941, col: 8, offset: 92759},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92759,
+																							line: 2941, col: 9, offset: 92760,
 																						},
 																					},
 																				},
@@ -4794,9 +4794,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92758},
+																	pos: position{line: 2941, col: 8, offset: 92759},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92759,
+																		line: 2941, col: 9, offset: 92760,
 																	},
 																},
 															},
@@ -4806,39 +4806,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 853, col: 5, offset: 27508},
+											pos: position{line: 853, col: 5, offset: 27509},
 											run: (*parser).callonDocumentFragment163,
 											expr: &seqExpr{
-												pos: position{line: 853, col: 5, offset: 27508},
+												pos: position{line: 853, col: 5, offset: 27509},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 853, col: 5, offset: 27508},
+														pos:   position{line: 853, col: 5, offset: 27509},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 760, col: 5, offset: 24515},
+															pos: position{line: 760, col: 5, offset: 24516},
 															run: (*parser).callonDocumentFragment166,
 															expr: &seqExpr{
-																pos: position{line: 760, col: 5, offset: 24515},
+																pos: position{line: 760, col: 5, offset: 24516},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 760, col: 5, offset: 24515},
+																		pos:   position{line: 760, col: 5, offset: 24516},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 760, col: 16, offset: 24526},
+																			pos: position{line: 760, col: 16, offset: 24527},
 																			run: (*parser).callonDocumentFragment169,
 																			expr: &seqExpr{
-																				pos: position{line: 760, col: 16, offset: 24526},
+																				pos: position{line: 760, col: 16, offset: 24527},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 760, col: 16, offset: 24526},
+																						pos:        position{line: 760, col: 16, offset: 24527},
 																						val:        "====",
 																						ignoreCase: false,
 																						want:       "\"====\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 760, col: 23, offset: 24533},
+																						pos: position{line: 760, col: 23, offset: 24534},
 																						expr: &litMatcher{
-																							pos:        position{line: 760, col: 23, offset: 24533},
+																							pos:        position{line: 760, col: 23, offset: 24534},
 																							val:        "=",
 																							ignoreCase: false,
 																							want:       "\"=\"",
@@ -4849,12 +4849,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 762, col: 8, offset: 24617},
+																		pos: position{line: 762, col: 8, offset: 24618},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92410},
+																			pos: position{line: 2922, col: 10, offset: 92411},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92410},
+																				pos:        position{line: 2922, col: 10, offset: 92411},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4863,28 +4863,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92808},
+																		pos: position{line: 2944, col: 8, offset: 92809},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4893,9 +4893,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92758},
+																				pos: position{line: 2941, col: 8, offset: 92759},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92759,
+																					line: 2941, col: 9, offset: 92760,
 																				},
 																			},
 																		},
@@ -4905,56 +4905,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 854, col: 5, offset: 27547},
+														pos: position{line: 854, col: 5, offset: 27548},
 														run: (*parser).callonDocumentFragment185,
 													},
 													&labeledExpr{
-														pos:   position{line: 857, col: 5, offset: 27639},
+														pos:   position{line: 857, col: 5, offset: 27640},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 872, col: 4, offset: 28036},
+															pos: position{line: 872, col: 4, offset: 28037},
 															expr: &actionExpr{
-																pos: position{line: 872, col: 5, offset: 28037},
+																pos: position{line: 872, col: 5, offset: 28038},
 																run: (*parser).callonDocumentFragment188,
 																expr: &seqExpr{
-																	pos: position{line: 872, col: 5, offset: 28037},
+																	pos: position{line: 872, col: 5, offset: 28038},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 872, col: 5, offset: 28037},
+																			pos: position{line: 872, col: 5, offset: 28038},
 																			expr: &choiceExpr{
-																				pos: position{line: 865, col: 5, offset: 27879},
+																				pos: position{line: 865, col: 5, offset: 27880},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 865, col: 5, offset: 27879},
+																						pos: position{line: 865, col: 5, offset: 27880},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 865, col: 5, offset: 27879},
+																								pos:   position{line: 865, col: 5, offset: 27880},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 760, col: 5, offset: 24515},
+																									pos: position{line: 760, col: 5, offset: 24516},
 																									run: (*parser).callonDocumentFragment194,
 																									expr: &seqExpr{
-																										pos: position{line: 760, col: 5, offset: 24515},
+																										pos: position{line: 760, col: 5, offset: 24516},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 760, col: 5, offset: 24515},
+																												pos:   position{line: 760, col: 5, offset: 24516},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 760, col: 16, offset: 24526},
+																													pos: position{line: 760, col: 16, offset: 24527},
 																													run: (*parser).callonDocumentFragment197,
 																													expr: &seqExpr{
-																														pos: position{line: 760, col: 16, offset: 24526},
+																														pos: position{line: 760, col: 16, offset: 24527},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 760, col: 16, offset: 24526},
+																																pos:        position{line: 760, col: 16, offset: 24527},
 																																val:        "====",
 																																ignoreCase: false,
 																																want:       "\"====\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 760, col: 23, offset: 24533},
+																																pos: position{line: 760, col: 23, offset: 24534},
 																																expr: &litMatcher{
-																																	pos:        position{line: 760, col: 23, offset: 24533},
+																																	pos:        position{line: 760, col: 23, offset: 24534},
 																																	val:        "=",
 																																	ignoreCase: false,
 																																	want:       "\"=\"",
@@ -4965,12 +4965,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 762, col: 8, offset: 24617},
+																												pos: position{line: 762, col: 8, offset: 24618},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92410},
+																													pos: position{line: 2922, col: 10, offset: 92411},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92410},
+																														pos:        position{line: 2922, col: 10, offset: 92411},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4979,28 +4979,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92808},
+																												pos: position{line: 2944, col: 8, offset: 92809},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92581},
+																														pos: position{line: 2931, col: 12, offset: 92582},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92582},
+																															pos: position{line: 2931, col: 13, offset: 92583},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92582},
+																																	pos:        position{line: 2931, col: 13, offset: 92583},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92589},
+																																	pos:        position{line: 2931, col: 20, offset: 92590},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92598},
+																																	pos:        position{line: 2931, col: 29, offset: 92599},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5009,9 +5009,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92758},
+																														pos: position{line: 2941, col: 8, offset: 92759},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92759,
+																															line: 2941, col: 9, offset: 92760,
 																														},
 																													},
 																												},
@@ -5021,45 +5021,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 866, col: 5, offset: 27910},
+																								pos: position{line: 866, col: 5, offset: 27911},
 																								run: (*parser).callonDocumentFragment213,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92758},
+																						pos: position{line: 2941, col: 8, offset: 92759},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92759,
+																							line: 2941, col: 9, offset: 92760,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 873, col: 5, offset: 28067},
+																			pos:   position{line: 873, col: 5, offset: 28068},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 824, col: 5, offset: 26771},
+																				pos: position{line: 824, col: 5, offset: 26772},
 																				run: (*parser).callonDocumentFragment217,
 																				expr: &seqExpr{
-																					pos: position{line: 824, col: 5, offset: 26771},
+																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92744},
+																							pos: position{line: 2939, col: 11, offset: 92745},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92746,
+																								line: 2939, col: 13, offset: 92747,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 825, col: 5, offset: 26846},
+																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90936},
+																								pos: position{line: 2868, col: 13, offset: 90937},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90936},
+																									pos: position{line: 2868, col: 13, offset: 90937},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90936},
+																										pos:        position{line: 2868, col: 13, offset: 90937},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5069,28 +5069,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5099,9 +5099,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -5116,44 +5116,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 858, col: 5, offset: 27673},
+														pos:   position{line: 858, col: 5, offset: 27674},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 858, col: 9, offset: 27677},
+															pos: position{line: 858, col: 9, offset: 27678},
 															expr: &choiceExpr{
-																pos: position{line: 865, col: 5, offset: 27879},
+																pos: position{line: 865, col: 5, offset: 27880},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 865, col: 5, offset: 27879},
+																		pos: position{line: 865, col: 5, offset: 27880},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 865, col: 5, offset: 27879},
+																				pos:   position{line: 865, col: 5, offset: 27880},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 760, col: 5, offset: 24515},
+																					pos: position{line: 760, col: 5, offset: 24516},
 																					run: (*parser).callonDocumentFragment238,
 																					expr: &seqExpr{
-																						pos: position{line: 760, col: 5, offset: 24515},
+																						pos: position{line: 760, col: 5, offset: 24516},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 760, col: 5, offset: 24515},
+																								pos:   position{line: 760, col: 5, offset: 24516},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 760, col: 16, offset: 24526},
+																									pos: position{line: 760, col: 16, offset: 24527},
 																									run: (*parser).callonDocumentFragment241,
 																									expr: &seqExpr{
-																										pos: position{line: 760, col: 16, offset: 24526},
+																										pos: position{line: 760, col: 16, offset: 24527},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 760, col: 16, offset: 24526},
+																												pos:        position{line: 760, col: 16, offset: 24527},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 760, col: 23, offset: 24533},
+																												pos: position{line: 760, col: 23, offset: 24534},
 																												expr: &litMatcher{
-																													pos:        position{line: 760, col: 23, offset: 24533},
+																													pos:        position{line: 760, col: 23, offset: 24534},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -5164,12 +5164,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 762, col: 8, offset: 24617},
+																								pos: position{line: 762, col: 8, offset: 24618},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92410},
+																									pos: position{line: 2922, col: 10, offset: 92411},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92410},
+																										pos:        position{line: 2922, col: 10, offset: 92411},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5178,28 +5178,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92808},
+																								pos: position{line: 2944, col: 8, offset: 92809},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92581},
+																										pos: position{line: 2931, col: 12, offset: 92582},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92582},
+																											pos: position{line: 2931, col: 13, offset: 92583},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92582},
+																													pos:        position{line: 2931, col: 13, offset: 92583},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92589},
+																													pos:        position{line: 2931, col: 20, offset: 92590},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92598},
+																													pos:        position{line: 2931, col: 29, offset: 92599},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5208,9 +5208,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92758},
+																										pos: position{line: 2941, col: 8, offset: 92759},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92759,
+																											line: 2941, col: 9, offset: 92760,
 																										},
 																									},
 																								},
@@ -5220,15 +5220,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 866, col: 5, offset: 27910},
+																				pos: position{line: 866, col: 5, offset: 27911},
 																				run: (*parser).callonDocumentFragment257,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92758},
+																		pos: position{line: 2941, col: 8, offset: 92759},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92759,
+																			line: 2941, col: 9, offset: 92760,
 																		},
 																	},
 																},
@@ -5239,36 +5239,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 965, col: 5, offset: 30359},
+											pos: position{line: 965, col: 5, offset: 30360},
 											run: (*parser).callonDocumentFragment260,
 											expr: &seqExpr{
-												pos: position{line: 965, col: 5, offset: 30359},
+												pos: position{line: 965, col: 5, offset: 30360},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 965, col: 5, offset: 30359},
+														pos:   position{line: 965, col: 5, offset: 30360},
 														label: "delimiter",
 														expr: &actionExpr{
-															pos: position{line: 773, col: 26, offset: 25003},
+															pos: position{line: 773, col: 26, offset: 25004},
 															run: (*parser).callonDocumentFragment263,
 															expr: &seqExpr{
-																pos: position{line: 773, col: 26, offset: 25003},
+																pos: position{line: 773, col: 26, offset: 25004},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 773, col: 26, offset: 25003},
+																		pos:        position{line: 773, col: 26, offset: 25004},
 																		val:        "```",
 																		ignoreCase: false,
 																		want:       "\"```\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 773, col: 32, offset: 25009},
+																		pos:   position{line: 773, col: 32, offset: 25010},
 																		label: "language",
 																		expr: &actionExpr{
-																			pos: position{line: 777, col: 13, offset: 25139},
+																			pos: position{line: 777, col: 13, offset: 25140},
 																			run: (*parser).callonDocumentFragment267,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 777, col: 14, offset: 25140},
+																				pos: position{line: 777, col: 14, offset: 25141},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 777, col: 14, offset: 25140},
+																					pos:        position{line: 777, col: 14, offset: 25141},
 																					val:        "[^\\r\\n` ]",
 																					chars:      []rune{'\r', '\n', '`', ' '},
 																					ignoreCase: false,
@@ -5278,12 +5278,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 773, col: 52, offset: 25029},
+																		pos: position{line: 773, col: 52, offset: 25030},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92410},
+																			pos: position{line: 2922, col: 10, offset: 92411},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92410},
+																				pos:        position{line: 2922, col: 10, offset: 92411},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5292,28 +5292,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92808},
+																		pos: position{line: 2944, col: 8, offset: 92809},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5322,9 +5322,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92758},
+																				pos: position{line: 2941, col: 8, offset: 92759},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92759,
+																					line: 2941, col: 9, offset: 92760,
 																				},
 																			},
 																		},
@@ -5334,34 +5334,34 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 966, col: 5, offset: 30405},
+														pos:   position{line: 966, col: 5, offset: 30406},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 979, col: 5, offset: 30878},
+															pos: position{line: 979, col: 5, offset: 30879},
 															expr: &actionExpr{
-																pos: position{line: 979, col: 6, offset: 30879},
+																pos: position{line: 979, col: 6, offset: 30880},
 																run: (*parser).callonDocumentFragment283,
 																expr: &seqExpr{
-																	pos: position{line: 979, col: 6, offset: 30879},
+																	pos: position{line: 979, col: 6, offset: 30880},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 979, col: 6, offset: 30879},
+																			pos: position{line: 979, col: 6, offset: 30880},
 																			expr: &seqExpr{
-																				pos: position{line: 976, col: 34, offset: 30826},
+																				pos: position{line: 976, col: 34, offset: 30827},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 976, col: 34, offset: 30826},
+																						pos:        position{line: 976, col: 34, offset: 30827},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 976, col: 40, offset: 30832},
+																						pos: position{line: 976, col: 40, offset: 30833},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92410},
+																							pos: position{line: 2922, col: 10, offset: 92411},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92410},
+																								pos:        position{line: 2922, col: 10, offset: 92411},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5370,28 +5370,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92808},
+																						pos: position{line: 2944, col: 8, offset: 92809},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92581},
+																								pos: position{line: 2931, col: 12, offset: 92582},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92582},
+																									pos: position{line: 2931, col: 13, offset: 92583},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92582},
+																											pos:        position{line: 2931, col: 13, offset: 92583},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92589},
+																											pos:        position{line: 2931, col: 20, offset: 92590},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92598},
+																											pos:        position{line: 2931, col: 29, offset: 92599},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5400,9 +5400,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92758},
+																								pos: position{line: 2941, col: 8, offset: 92759},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92759,
+																									line: 2941, col: 9, offset: 92760,
 																								},
 																							},
 																						},
@@ -5411,30 +5411,30 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 980, col: 5, offset: 30914},
+																			pos:   position{line: 980, col: 5, offset: 30915},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 824, col: 5, offset: 26771},
+																				pos: position{line: 824, col: 5, offset: 26772},
 																				run: (*parser).callonDocumentFragment300,
 																				expr: &seqExpr{
-																					pos: position{line: 824, col: 5, offset: 26771},
+																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92744},
+																							pos: position{line: 2939, col: 11, offset: 92745},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92746,
+																								line: 2939, col: 13, offset: 92747,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 825, col: 5, offset: 26846},
+																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90936},
+																								pos: position{line: 2868, col: 13, offset: 90937},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90936},
+																									pos: position{line: 2868, col: 13, offset: 90937},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90936},
+																										pos:        position{line: 2868, col: 13, offset: 90937},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5444,28 +5444,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5474,9 +5474,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -5491,23 +5491,23 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 967, col: 5, offset: 30444},
+														pos: position{line: 967, col: 5, offset: 30445},
 														expr: &seqExpr{
-															pos: position{line: 976, col: 34, offset: 30826},
+															pos: position{line: 976, col: 34, offset: 30827},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 976, col: 34, offset: 30826},
+																	pos:        position{line: 976, col: 34, offset: 30827},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 976, col: 40, offset: 30832},
+																	pos: position{line: 976, col: 40, offset: 30833},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92410},
+																		pos: position{line: 2922, col: 10, offset: 92411},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92410},
+																			pos:        position{line: 2922, col: 10, offset: 92411},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5516,28 +5516,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92808},
+																	pos: position{line: 2944, col: 8, offset: 92809},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92581},
+																			pos: position{line: 2931, col: 12, offset: 92582},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92582},
+																				pos: position{line: 2931, col: 13, offset: 92583},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92582},
+																						pos:        position{line: 2931, col: 13, offset: 92583},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92589},
+																						pos:        position{line: 2931, col: 20, offset: 92590},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92598},
+																						pos:        position{line: 2931, col: 29, offset: 92599},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5546,9 +5546,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92758},
+																			pos: position{line: 2941, col: 8, offset: 92759},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92759,
+																				line: 2941, col: 9, offset: 92760,
 																			},
 																		},
 																	},
@@ -5560,39 +5560,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 881, col: 5, offset: 28220},
+											pos: position{line: 881, col: 5, offset: 28221},
 											run: (*parser).callonDocumentFragment330,
 											expr: &seqExpr{
-												pos: position{line: 881, col: 5, offset: 28220},
+												pos: position{line: 881, col: 5, offset: 28221},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 881, col: 5, offset: 28220},
+														pos:   position{line: 881, col: 5, offset: 28221},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 767, col: 5, offset: 24762},
+															pos: position{line: 767, col: 5, offset: 24763},
 															run: (*parser).callonDocumentFragment333,
 															expr: &seqExpr{
-																pos: position{line: 767, col: 5, offset: 24762},
+																pos: position{line: 767, col: 5, offset: 24763},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 767, col: 5, offset: 24762},
+																		pos:   position{line: 767, col: 5, offset: 24763},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 767, col: 16, offset: 24773},
+																			pos: position{line: 767, col: 16, offset: 24774},
 																			run: (*parser).callonDocumentFragment336,
 																			expr: &seqExpr{
-																				pos: position{line: 767, col: 16, offset: 24773},
+																				pos: position{line: 767, col: 16, offset: 24774},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 767, col: 16, offset: 24773},
+																						pos:        position{line: 767, col: 16, offset: 24774},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 767, col: 22, offset: 24779},
+																						pos: position{line: 767, col: 22, offset: 24780},
 																						expr: &litMatcher{
-																							pos:        position{line: 767, col: 22, offset: 24779},
+																							pos:        position{line: 767, col: 22, offset: 24780},
 																							val:        "`",
 																							ignoreCase: false,
 																							want:       "\"`\"",
@@ -5603,12 +5603,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 769, col: 8, offset: 24863},
+																		pos: position{line: 769, col: 8, offset: 24864},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92410},
+																			pos: position{line: 2922, col: 10, offset: 92411},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92410},
+																				pos:        position{line: 2922, col: 10, offset: 92411},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5617,28 +5617,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92808},
+																		pos: position{line: 2944, col: 8, offset: 92809},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5647,9 +5647,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92758},
+																				pos: position{line: 2941, col: 8, offset: 92759},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92759,
+																					line: 2941, col: 9, offset: 92760,
 																				},
 																			},
 																		},
@@ -5659,56 +5659,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 882, col: 5, offset: 28258},
+														pos: position{line: 882, col: 5, offset: 28259},
 														run: (*parser).callonDocumentFragment352,
 													},
 													&labeledExpr{
-														pos:   position{line: 885, col: 5, offset: 28350},
+														pos:   position{line: 885, col: 5, offset: 28351},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 900, col: 5, offset: 28740},
+															pos: position{line: 900, col: 5, offset: 28741},
 															expr: &actionExpr{
-																pos: position{line: 900, col: 6, offset: 28741},
+																pos: position{line: 900, col: 6, offset: 28742},
 																run: (*parser).callonDocumentFragment355,
 																expr: &seqExpr{
-																	pos: position{line: 900, col: 6, offset: 28741},
+																	pos: position{line: 900, col: 6, offset: 28742},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 900, col: 6, offset: 28741},
+																			pos: position{line: 900, col: 6, offset: 28742},
 																			expr: &choiceExpr{
-																				pos: position{line: 893, col: 5, offset: 28584},
+																				pos: position{line: 893, col: 5, offset: 28585},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 893, col: 5, offset: 28584},
+																						pos: position{line: 893, col: 5, offset: 28585},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 893, col: 5, offset: 28584},
+																								pos:   position{line: 893, col: 5, offset: 28585},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 767, col: 5, offset: 24762},
+																									pos: position{line: 767, col: 5, offset: 24763},
 																									run: (*parser).callonDocumentFragment361,
 																									expr: &seqExpr{
-																										pos: position{line: 767, col: 5, offset: 24762},
+																										pos: position{line: 767, col: 5, offset: 24763},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 767, col: 5, offset: 24762},
+																												pos:   position{line: 767, col: 5, offset: 24763},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 767, col: 16, offset: 24773},
+																													pos: position{line: 767, col: 16, offset: 24774},
 																													run: (*parser).callonDocumentFragment364,
 																													expr: &seqExpr{
-																														pos: position{line: 767, col: 16, offset: 24773},
+																														pos: position{line: 767, col: 16, offset: 24774},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 767, col: 16, offset: 24773},
+																																pos:        position{line: 767, col: 16, offset: 24774},
 																																val:        "```",
 																																ignoreCase: false,
 																																want:       "\"```\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 767, col: 22, offset: 24779},
+																																pos: position{line: 767, col: 22, offset: 24780},
 																																expr: &litMatcher{
-																																	pos:        position{line: 767, col: 22, offset: 24779},
+																																	pos:        position{line: 767, col: 22, offset: 24780},
 																																	val:        "`",
 																																	ignoreCase: false,
 																																	want:       "\"`\"",
@@ -5719,12 +5719,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 769, col: 8, offset: 24863},
+																												pos: position{line: 769, col: 8, offset: 24864},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92410},
+																													pos: position{line: 2922, col: 10, offset: 92411},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92410},
+																														pos:        position{line: 2922, col: 10, offset: 92411},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5733,28 +5733,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92808},
+																												pos: position{line: 2944, col: 8, offset: 92809},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92581},
+																														pos: position{line: 2931, col: 12, offset: 92582},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92582},
+																															pos: position{line: 2931, col: 13, offset: 92583},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92582},
+																																	pos:        position{line: 2931, col: 13, offset: 92583},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92589},
+																																	pos:        position{line: 2931, col: 20, offset: 92590},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92598},
+																																	pos:        position{line: 2931, col: 29, offset: 92599},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5763,9 +5763,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92758},
+																														pos: position{line: 2941, col: 8, offset: 92759},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92759,
+																															line: 2941, col: 9, offset: 92760,
 																														},
 																													},
 																												},
@@ -5775,45 +5775,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 894, col: 5, offset: 28614},
+																								pos: position{line: 894, col: 5, offset: 28615},
 																								run: (*parser).callonDocumentFragment380,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92758},
+																						pos: position{line: 2941, col: 8, offset: 92759},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92759,
+																							line: 2941, col: 9, offset: 92760,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 901, col: 5, offset: 28770},
+																			pos:   position{line: 901, col: 5, offset: 28771},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 824, col: 5, offset: 26771},
+																				pos: position{line: 824, col: 5, offset: 26772},
 																				run: (*parser).callonDocumentFragment384,
 																				expr: &seqExpr{
-																					pos: position{line: 824, col: 5, offset: 26771},
+																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92744},
+																							pos: position{line: 2939, col: 11, offset: 92745},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92746,
+																								line: 2939, col: 13, offset: 92747,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 825, col: 5, offset: 26846},
+																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90936},
+																								pos: position{line: 2868, col: 13, offset: 90937},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90936},
+																									pos: position{line: 2868, col: 13, offset: 90937},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90936},
+																										pos:        position{line: 2868, col: 13, offset: 90937},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5823,28 +5823,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5853,9 +5853,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -5870,44 +5870,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 886, col: 5, offset: 28383},
+														pos:   position{line: 886, col: 5, offset: 28384},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 886, col: 9, offset: 28387},
+															pos: position{line: 886, col: 9, offset: 28388},
 															expr: &choiceExpr{
-																pos: position{line: 893, col: 5, offset: 28584},
+																pos: position{line: 893, col: 5, offset: 28585},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 893, col: 5, offset: 28584},
+																		pos: position{line: 893, col: 5, offset: 28585},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 893, col: 5, offset: 28584},
+																				pos:   position{line: 893, col: 5, offset: 28585},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 767, col: 5, offset: 24762},
+																					pos: position{line: 767, col: 5, offset: 24763},
 																					run: (*parser).callonDocumentFragment405,
 																					expr: &seqExpr{
-																						pos: position{line: 767, col: 5, offset: 24762},
+																						pos: position{line: 767, col: 5, offset: 24763},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 767, col: 5, offset: 24762},
+																								pos:   position{line: 767, col: 5, offset: 24763},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 767, col: 16, offset: 24773},
+																									pos: position{line: 767, col: 16, offset: 24774},
 																									run: (*parser).callonDocumentFragment408,
 																									expr: &seqExpr{
-																										pos: position{line: 767, col: 16, offset: 24773},
+																										pos: position{line: 767, col: 16, offset: 24774},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 767, col: 16, offset: 24773},
+																												pos:        position{line: 767, col: 16, offset: 24774},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 767, col: 22, offset: 24779},
+																												pos: position{line: 767, col: 22, offset: 24780},
 																												expr: &litMatcher{
-																													pos:        position{line: 767, col: 22, offset: 24779},
+																													pos:        position{line: 767, col: 22, offset: 24780},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -5918,12 +5918,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 769, col: 8, offset: 24863},
+																								pos: position{line: 769, col: 8, offset: 24864},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92410},
+																									pos: position{line: 2922, col: 10, offset: 92411},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92410},
+																										pos:        position{line: 2922, col: 10, offset: 92411},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5932,28 +5932,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92808},
+																								pos: position{line: 2944, col: 8, offset: 92809},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92581},
+																										pos: position{line: 2931, col: 12, offset: 92582},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92582},
+																											pos: position{line: 2931, col: 13, offset: 92583},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92582},
+																													pos:        position{line: 2931, col: 13, offset: 92583},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92589},
+																													pos:        position{line: 2931, col: 20, offset: 92590},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92598},
+																													pos:        position{line: 2931, col: 29, offset: 92599},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5962,9 +5962,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92758},
+																										pos: position{line: 2941, col: 8, offset: 92759},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92759,
+																											line: 2941, col: 9, offset: 92760,
 																										},
 																									},
 																								},
@@ -5974,15 +5974,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 894, col: 5, offset: 28614},
+																				pos: position{line: 894, col: 5, offset: 28615},
 																				run: (*parser).callonDocumentFragment424,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92758},
+																		pos: position{line: 2941, col: 8, offset: 92759},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92759,
+																			line: 2941, col: 9, offset: 92760,
 																		},
 																	},
 																},
@@ -5993,39 +5993,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 909, col: 5, offset: 28925},
+											pos: position{line: 909, col: 5, offset: 28926},
 											run: (*parser).callonDocumentFragment427,
 											expr: &seqExpr{
-												pos: position{line: 909, col: 5, offset: 28925},
+												pos: position{line: 909, col: 5, offset: 28926},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 909, col: 5, offset: 28925},
+														pos:   position{line: 909, col: 5, offset: 28926},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 782, col: 5, offset: 25299},
+															pos: position{line: 782, col: 5, offset: 25300},
 															run: (*parser).callonDocumentFragment430,
 															expr: &seqExpr{
-																pos: position{line: 782, col: 5, offset: 25299},
+																pos: position{line: 782, col: 5, offset: 25300},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 782, col: 5, offset: 25299},
+																		pos:   position{line: 782, col: 5, offset: 25300},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 782, col: 16, offset: 25310},
+																			pos: position{line: 782, col: 16, offset: 25311},
 																			run: (*parser).callonDocumentFragment433,
 																			expr: &seqExpr{
-																				pos: position{line: 782, col: 16, offset: 25310},
+																				pos: position{line: 782, col: 16, offset: 25311},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 782, col: 16, offset: 25310},
+																						pos:        position{line: 782, col: 16, offset: 25311},
 																						val:        "----",
 																						ignoreCase: false,
 																						want:       "\"----\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 782, col: 23, offset: 25317},
+																						pos: position{line: 782, col: 23, offset: 25318},
 																						expr: &litMatcher{
-																							pos:        position{line: 782, col: 23, offset: 25317},
+																							pos:        position{line: 782, col: 23, offset: 25318},
 																							val:        "-",
 																							ignoreCase: false,
 																							want:       "\"-\"",
@@ -6036,12 +6036,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 784, col: 8, offset: 25401},
+																		pos: position{line: 784, col: 8, offset: 25402},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92410},
+																			pos: position{line: 2922, col: 10, offset: 92411},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92410},
+																				pos:        position{line: 2922, col: 10, offset: 92411},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6050,28 +6050,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92808},
+																		pos: position{line: 2944, col: 8, offset: 92809},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6080,9 +6080,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92758},
+																				pos: position{line: 2941, col: 8, offset: 92759},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92759,
+																					line: 2941, col: 9, offset: 92760,
 																				},
 																			},
 																		},
@@ -6092,56 +6092,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 910, col: 5, offset: 28964},
+														pos: position{line: 910, col: 5, offset: 28965},
 														run: (*parser).callonDocumentFragment449,
 													},
 													&labeledExpr{
-														pos:   position{line: 913, col: 5, offset: 29056},
+														pos:   position{line: 913, col: 5, offset: 29057},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 928, col: 5, offset: 29454},
+															pos: position{line: 928, col: 5, offset: 29455},
 															expr: &actionExpr{
-																pos: position{line: 928, col: 6, offset: 29455},
+																pos: position{line: 928, col: 6, offset: 29456},
 																run: (*parser).callonDocumentFragment452,
 																expr: &seqExpr{
-																	pos: position{line: 928, col: 6, offset: 29455},
+																	pos: position{line: 928, col: 6, offset: 29456},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 928, col: 6, offset: 29455},
+																			pos: position{line: 928, col: 6, offset: 29456},
 																			expr: &choiceExpr{
-																				pos: position{line: 921, col: 5, offset: 29296},
+																				pos: position{line: 921, col: 5, offset: 29297},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 921, col: 5, offset: 29296},
+																						pos: position{line: 921, col: 5, offset: 29297},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 921, col: 5, offset: 29296},
+																								pos:   position{line: 921, col: 5, offset: 29297},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 782, col: 5, offset: 25299},
+																									pos: position{line: 782, col: 5, offset: 25300},
 																									run: (*parser).callonDocumentFragment458,
 																									expr: &seqExpr{
-																										pos: position{line: 782, col: 5, offset: 25299},
+																										pos: position{line: 782, col: 5, offset: 25300},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 782, col: 5, offset: 25299},
+																												pos:   position{line: 782, col: 5, offset: 25300},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 782, col: 16, offset: 25310},
+																													pos: position{line: 782, col: 16, offset: 25311},
 																													run: (*parser).callonDocumentFragment461,
 																													expr: &seqExpr{
-																														pos: position{line: 782, col: 16, offset: 25310},
+																														pos: position{line: 782, col: 16, offset: 25311},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 782, col: 16, offset: 25310},
+																																pos:        position{line: 782, col: 16, offset: 25311},
 																																val:        "----",
 																																ignoreCase: false,
 																																want:       "\"----\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 782, col: 23, offset: 25317},
+																																pos: position{line: 782, col: 23, offset: 25318},
 																																expr: &litMatcher{
-																																	pos:        position{line: 782, col: 23, offset: 25317},
+																																	pos:        position{line: 782, col: 23, offset: 25318},
 																																	val:        "-",
 																																	ignoreCase: false,
 																																	want:       "\"-\"",
@@ -6152,12 +6152,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 784, col: 8, offset: 25401},
+																												pos: position{line: 784, col: 8, offset: 25402},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92410},
+																													pos: position{line: 2922, col: 10, offset: 92411},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92410},
+																														pos:        position{line: 2922, col: 10, offset: 92411},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6166,28 +6166,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92808},
+																												pos: position{line: 2944, col: 8, offset: 92809},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92581},
+																														pos: position{line: 2931, col: 12, offset: 92582},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92582},
+																															pos: position{line: 2931, col: 13, offset: 92583},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92582},
+																																	pos:        position{line: 2931, col: 13, offset: 92583},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92589},
+																																	pos:        position{line: 2931, col: 20, offset: 92590},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92598},
+																																	pos:        position{line: 2931, col: 29, offset: 92599},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6196,9 +6196,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92758},
+																														pos: position{line: 2941, col: 8, offset: 92759},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92759,
+																															line: 2941, col: 9, offset: 92760,
 																														},
 																													},
 																												},
@@ -6208,45 +6208,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 922, col: 5, offset: 29327},
+																								pos: position{line: 922, col: 5, offset: 29328},
 																								run: (*parser).callonDocumentFragment477,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92758},
+																						pos: position{line: 2941, col: 8, offset: 92759},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92759,
+																							line: 2941, col: 9, offset: 92760,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 929, col: 5, offset: 29485},
+																			pos:   position{line: 929, col: 5, offset: 29486},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 824, col: 5, offset: 26771},
+																				pos: position{line: 824, col: 5, offset: 26772},
 																				run: (*parser).callonDocumentFragment481,
 																				expr: &seqExpr{
-																					pos: position{line: 824, col: 5, offset: 26771},
+																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92744},
+																							pos: position{line: 2939, col: 11, offset: 92745},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92746,
+																								line: 2939, col: 13, offset: 92747,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 825, col: 5, offset: 26846},
+																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90936},
+																								pos: position{line: 2868, col: 13, offset: 90937},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90936},
+																									pos: position{line: 2868, col: 13, offset: 90937},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90936},
+																										pos:        position{line: 2868, col: 13, offset: 90937},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6256,28 +6256,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6286,9 +6286,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -6303,44 +6303,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 914, col: 5, offset: 29090},
+														pos:   position{line: 914, col: 5, offset: 29091},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 914, col: 9, offset: 29094},
+															pos: position{line: 914, col: 9, offset: 29095},
 															expr: &choiceExpr{
-																pos: position{line: 921, col: 5, offset: 29296},
+																pos: position{line: 921, col: 5, offset: 29297},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 921, col: 5, offset: 29296},
+																		pos: position{line: 921, col: 5, offset: 29297},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 921, col: 5, offset: 29296},
+																				pos:   position{line: 921, col: 5, offset: 29297},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 782, col: 5, offset: 25299},
+																					pos: position{line: 782, col: 5, offset: 25300},
 																					run: (*parser).callonDocumentFragment502,
 																					expr: &seqExpr{
-																						pos: position{line: 782, col: 5, offset: 25299},
+																						pos: position{line: 782, col: 5, offset: 25300},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 782, col: 5, offset: 25299},
+																								pos:   position{line: 782, col: 5, offset: 25300},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 782, col: 16, offset: 25310},
+																									pos: position{line: 782, col: 16, offset: 25311},
 																									run: (*parser).callonDocumentFragment505,
 																									expr: &seqExpr{
-																										pos: position{line: 782, col: 16, offset: 25310},
+																										pos: position{line: 782, col: 16, offset: 25311},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 782, col: 16, offset: 25310},
+																												pos:        position{line: 782, col: 16, offset: 25311},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 782, col: 23, offset: 25317},
+																												pos: position{line: 782, col: 23, offset: 25318},
 																												expr: &litMatcher{
-																													pos:        position{line: 782, col: 23, offset: 25317},
+																													pos:        position{line: 782, col: 23, offset: 25318},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -6351,12 +6351,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 784, col: 8, offset: 25401},
+																								pos: position{line: 784, col: 8, offset: 25402},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92410},
+																									pos: position{line: 2922, col: 10, offset: 92411},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92410},
+																										pos:        position{line: 2922, col: 10, offset: 92411},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6365,28 +6365,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92808},
+																								pos: position{line: 2944, col: 8, offset: 92809},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92581},
+																										pos: position{line: 2931, col: 12, offset: 92582},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92582},
+																											pos: position{line: 2931, col: 13, offset: 92583},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92582},
+																													pos:        position{line: 2931, col: 13, offset: 92583},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92589},
+																													pos:        position{line: 2931, col: 20, offset: 92590},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92598},
+																													pos:        position{line: 2931, col: 29, offset: 92599},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6395,9 +6395,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92758},
+																										pos: position{line: 2941, col: 8, offset: 92759},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92759,
+																											line: 2941, col: 9, offset: 92760,
 																										},
 																									},
 																								},
@@ -6407,15 +6407,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 922, col: 5, offset: 29327},
+																				pos: position{line: 922, col: 5, offset: 29328},
 																				run: (*parser).callonDocumentFragment521,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92758},
+																		pos: position{line: 2941, col: 8, offset: 92759},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92759,
+																			line: 2941, col: 9, offset: 92760,
 																		},
 																	},
 																},
@@ -6426,39 +6426,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 937, col: 5, offset: 29640},
+											pos: position{line: 937, col: 5, offset: 29641},
 											run: (*parser).callonDocumentFragment524,
 											expr: &seqExpr{
-												pos: position{line: 937, col: 5, offset: 29640},
+												pos: position{line: 937, col: 5, offset: 29641},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 937, col: 5, offset: 29640},
+														pos:   position{line: 937, col: 5, offset: 29641},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 796, col: 5, offset: 25775},
+															pos: position{line: 796, col: 5, offset: 25776},
 															run: (*parser).callonDocumentFragment527,
 															expr: &seqExpr{
-																pos: position{line: 796, col: 5, offset: 25775},
+																pos: position{line: 796, col: 5, offset: 25776},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 796, col: 5, offset: 25775},
+																		pos:   position{line: 796, col: 5, offset: 25776},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 796, col: 16, offset: 25786},
+																			pos: position{line: 796, col: 16, offset: 25787},
 																			run: (*parser).callonDocumentFragment530,
 																			expr: &seqExpr{
-																				pos: position{line: 796, col: 16, offset: 25786},
+																				pos: position{line: 796, col: 16, offset: 25787},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 796, col: 16, offset: 25786},
+																						pos:        position{line: 796, col: 16, offset: 25787},
 																						val:        "....",
 																						ignoreCase: false,
 																						want:       "\"....\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 796, col: 23, offset: 25793},
+																						pos: position{line: 796, col: 23, offset: 25794},
 																						expr: &litMatcher{
-																							pos:        position{line: 796, col: 23, offset: 25793},
+																							pos:        position{line: 796, col: 23, offset: 25794},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -6469,12 +6469,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 798, col: 8, offset: 25877},
+																		pos: position{line: 798, col: 8, offset: 25878},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92410},
+																			pos: position{line: 2922, col: 10, offset: 92411},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92410},
+																				pos:        position{line: 2922, col: 10, offset: 92411},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6483,28 +6483,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92808},
+																		pos: position{line: 2944, col: 8, offset: 92809},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6513,9 +6513,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92758},
+																				pos: position{line: 2941, col: 8, offset: 92759},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92759,
+																					line: 2941, col: 9, offset: 92760,
 																				},
 																			},
 																		},
@@ -6525,56 +6525,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 938, col: 5, offset: 29679},
+														pos: position{line: 938, col: 5, offset: 29680},
 														run: (*parser).callonDocumentFragment546,
 													},
 													&labeledExpr{
-														pos:   position{line: 941, col: 5, offset: 29771},
+														pos:   position{line: 941, col: 5, offset: 29772},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 956, col: 5, offset: 30169},
+															pos: position{line: 956, col: 5, offset: 30170},
 															expr: &actionExpr{
-																pos: position{line: 956, col: 6, offset: 30170},
+																pos: position{line: 956, col: 6, offset: 30171},
 																run: (*parser).callonDocumentFragment549,
 																expr: &seqExpr{
-																	pos: position{line: 956, col: 6, offset: 30170},
+																	pos: position{line: 956, col: 6, offset: 30171},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 956, col: 6, offset: 30170},
+																			pos: position{line: 956, col: 6, offset: 30171},
 																			expr: &choiceExpr{
-																				pos: position{line: 949, col: 5, offset: 30011},
+																				pos: position{line: 949, col: 5, offset: 30012},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 949, col: 5, offset: 30011},
+																						pos: position{line: 949, col: 5, offset: 30012},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 949, col: 5, offset: 30011},
+																								pos:   position{line: 949, col: 5, offset: 30012},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 796, col: 5, offset: 25775},
+																									pos: position{line: 796, col: 5, offset: 25776},
 																									run: (*parser).callonDocumentFragment555,
 																									expr: &seqExpr{
-																										pos: position{line: 796, col: 5, offset: 25775},
+																										pos: position{line: 796, col: 5, offset: 25776},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 796, col: 5, offset: 25775},
+																												pos:   position{line: 796, col: 5, offset: 25776},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 796, col: 16, offset: 25786},
+																													pos: position{line: 796, col: 16, offset: 25787},
 																													run: (*parser).callonDocumentFragment558,
 																													expr: &seqExpr{
-																														pos: position{line: 796, col: 16, offset: 25786},
+																														pos: position{line: 796, col: 16, offset: 25787},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 796, col: 16, offset: 25786},
+																																pos:        position{line: 796, col: 16, offset: 25787},
 																																val:        "....",
 																																ignoreCase: false,
 																																want:       "\"....\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 796, col: 23, offset: 25793},
+																																pos: position{line: 796, col: 23, offset: 25794},
 																																expr: &litMatcher{
-																																	pos:        position{line: 796, col: 23, offset: 25793},
+																																	pos:        position{line: 796, col: 23, offset: 25794},
 																																	val:        ".",
 																																	ignoreCase: false,
 																																	want:       "\".\"",
@@ -6585,12 +6585,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 798, col: 8, offset: 25877},
+																												pos: position{line: 798, col: 8, offset: 25878},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92410},
+																													pos: position{line: 2922, col: 10, offset: 92411},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92410},
+																														pos:        position{line: 2922, col: 10, offset: 92411},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6599,28 +6599,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92808},
+																												pos: position{line: 2944, col: 8, offset: 92809},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92581},
+																														pos: position{line: 2931, col: 12, offset: 92582},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92582},
+																															pos: position{line: 2931, col: 13, offset: 92583},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92582},
+																																	pos:        position{line: 2931, col: 13, offset: 92583},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92589},
+																																	pos:        position{line: 2931, col: 20, offset: 92590},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92598},
+																																	pos:        position{line: 2931, col: 29, offset: 92599},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6629,9 +6629,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92758},
+																														pos: position{line: 2941, col: 8, offset: 92759},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92759,
+																															line: 2941, col: 9, offset: 92760,
 																														},
 																													},
 																												},
@@ -6641,45 +6641,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 950, col: 5, offset: 30042},
+																								pos: position{line: 950, col: 5, offset: 30043},
 																								run: (*parser).callonDocumentFragment574,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92758},
+																						pos: position{line: 2941, col: 8, offset: 92759},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92759,
+																							line: 2941, col: 9, offset: 92760,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 957, col: 5, offset: 30200},
+																			pos:   position{line: 957, col: 5, offset: 30201},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 824, col: 5, offset: 26771},
+																				pos: position{line: 824, col: 5, offset: 26772},
 																				run: (*parser).callonDocumentFragment578,
 																				expr: &seqExpr{
-																					pos: position{line: 824, col: 5, offset: 26771},
+																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92744},
+																							pos: position{line: 2939, col: 11, offset: 92745},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92746,
+																								line: 2939, col: 13, offset: 92747,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 825, col: 5, offset: 26846},
+																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90936},
+																								pos: position{line: 2868, col: 13, offset: 90937},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90936},
+																									pos: position{line: 2868, col: 13, offset: 90937},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90936},
+																										pos:        position{line: 2868, col: 13, offset: 90937},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6689,28 +6689,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6719,9 +6719,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -6736,44 +6736,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 942, col: 5, offset: 29805},
+														pos:   position{line: 942, col: 5, offset: 29806},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 942, col: 9, offset: 29809},
+															pos: position{line: 942, col: 9, offset: 29810},
 															expr: &choiceExpr{
-																pos: position{line: 949, col: 5, offset: 30011},
+																pos: position{line: 949, col: 5, offset: 30012},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 949, col: 5, offset: 30011},
+																		pos: position{line: 949, col: 5, offset: 30012},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 949, col: 5, offset: 30011},
+																				pos:   position{line: 949, col: 5, offset: 30012},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 796, col: 5, offset: 25775},
+																					pos: position{line: 796, col: 5, offset: 25776},
 																					run: (*parser).callonDocumentFragment599,
 																					expr: &seqExpr{
-																						pos: position{line: 796, col: 5, offset: 25775},
+																						pos: position{line: 796, col: 5, offset: 25776},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 796, col: 5, offset: 25775},
+																								pos:   position{line: 796, col: 5, offset: 25776},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 796, col: 16, offset: 25786},
+																									pos: position{line: 796, col: 16, offset: 25787},
 																									run: (*parser).callonDocumentFragment602,
 																									expr: &seqExpr{
-																										pos: position{line: 796, col: 16, offset: 25786},
+																										pos: position{line: 796, col: 16, offset: 25787},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 796, col: 16, offset: 25786},
+																												pos:        position{line: 796, col: 16, offset: 25787},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 796, col: 23, offset: 25793},
+																												pos: position{line: 796, col: 23, offset: 25794},
 																												expr: &litMatcher{
-																													pos:        position{line: 796, col: 23, offset: 25793},
+																													pos:        position{line: 796, col: 23, offset: 25794},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -6784,12 +6784,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 798, col: 8, offset: 25877},
+																								pos: position{line: 798, col: 8, offset: 25878},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92410},
+																									pos: position{line: 2922, col: 10, offset: 92411},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92410},
+																										pos:        position{line: 2922, col: 10, offset: 92411},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6798,28 +6798,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92808},
+																								pos: position{line: 2944, col: 8, offset: 92809},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92581},
+																										pos: position{line: 2931, col: 12, offset: 92582},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92582},
+																											pos: position{line: 2931, col: 13, offset: 92583},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92582},
+																													pos:        position{line: 2931, col: 13, offset: 92583},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92589},
+																													pos:        position{line: 2931, col: 20, offset: 92590},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92598},
+																													pos:        position{line: 2931, col: 29, offset: 92599},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6828,9 +6828,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92758},
+																										pos: position{line: 2941, col: 8, offset: 92759},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92759,
+																											line: 2941, col: 9, offset: 92760,
 																										},
 																									},
 																								},
@@ -6840,15 +6840,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 950, col: 5, offset: 30042},
+																				pos: position{line: 950, col: 5, offset: 30043},
 																				run: (*parser).callonDocumentFragment618,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92758},
+																		pos: position{line: 2941, col: 8, offset: 92759},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92759,
+																			line: 2941, col: 9, offset: 92760,
 																		},
 																	},
 																},
@@ -6859,41 +6859,41 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 988, col: 5, offset: 31083},
+											pos: position{line: 988, col: 5, offset: 31084},
 											run: (*parser).callonDocumentFragment621,
 											expr: &seqExpr{
-												pos: position{line: 988, col: 5, offset: 31083},
+												pos: position{line: 988, col: 5, offset: 31084},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 988, col: 5, offset: 31083},
+														pos:   position{line: 988, col: 5, offset: 31084},
 														label: "firstLine",
 														expr: &actionExpr{
-															pos: position{line: 995, col: 5, offset: 31342},
+															pos: position{line: 995, col: 5, offset: 31343},
 															run: (*parser).callonDocumentFragment624,
 															expr: &seqExpr{
-																pos: position{line: 995, col: 5, offset: 31342},
+																pos: position{line: 995, col: 5, offset: 31343},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 995, col: 5, offset: 31342},
+																		pos: position{line: 995, col: 5, offset: 31343},
 																		expr: &actionExpr{
-																			pos: position{line: 690, col: 14, offset: 22172},
+																			pos: position{line: 690, col: 14, offset: 22173},
 																			run: (*parser).callonDocumentFragment627,
 																			expr: &seqExpr{
-																				pos: position{line: 690, col: 14, offset: 22172},
+																				pos: position{line: 690, col: 14, offset: 22173},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92744},
+																						pos: position{line: 2939, col: 11, offset: 92745},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92746,
+																							line: 2939, col: 13, offset: 92747,
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 690, col: 21, offset: 22179},
+																						pos: position{line: 690, col: 21, offset: 22180},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92410},
+																							pos: position{line: 2922, col: 10, offset: 92411},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92410},
+																								pos:        position{line: 2922, col: 10, offset: 92411},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6902,28 +6902,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92808},
+																						pos: position{line: 2944, col: 8, offset: 92809},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92581},
+																								pos: position{line: 2931, col: 12, offset: 92582},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92582},
+																									pos: position{line: 2931, col: 13, offset: 92583},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92582},
+																											pos:        position{line: 2931, col: 13, offset: 92583},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92589},
+																											pos:        position{line: 2931, col: 20, offset: 92590},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92598},
+																											pos:        position{line: 2931, col: 29, offset: 92599},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6932,9 +6932,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92758},
+																								pos: position{line: 2941, col: 8, offset: 92759},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92759,
+																									line: 2941, col: 9, offset: 92760,
 																								},
 																							},
 																						},
@@ -6944,21 +6944,21 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 996, col: 5, offset: 31357},
+																		pos:        position{line: 996, col: 5, offset: 31358},
 																		val:        "> ",
 																		ignoreCase: false,
 																		want:       "\"> \"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 997, col: 5, offset: 31367},
+																		pos:   position{line: 997, col: 5, offset: 31368},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 14, offset: 91003},
+																			pos: position{line: 2872, col: 14, offset: 91004},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2872, col: 14, offset: 91003},
+																				pos: position{line: 2872, col: 14, offset: 91004},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 14, offset: 91003},
+																					pos:        position{line: 2872, col: 14, offset: 91004},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -6968,28 +6968,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92808},
+																		pos: position{line: 2944, col: 8, offset: 92809},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6998,9 +6998,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92758},
+																				pos: position{line: 2941, col: 8, offset: 92759},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92759,
+																					line: 2941, col: 9, offset: 92760,
 																				},
 																			},
 																		},
@@ -7010,40 +7010,40 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 989, col: 5, offset: 31120},
+														pos:   position{line: 989, col: 5, offset: 31121},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 989, col: 16, offset: 31131},
+															pos: position{line: 989, col: 16, offset: 31132},
 															expr: &choiceExpr{
-																pos: position{line: 989, col: 17, offset: 31132},
+																pos: position{line: 989, col: 17, offset: 31133},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 995, col: 5, offset: 31342},
+																		pos: position{line: 995, col: 5, offset: 31343},
 																		run: (*parser).callonDocumentFragment658,
 																		expr: &seqExpr{
-																			pos: position{line: 995, col: 5, offset: 31342},
+																			pos: position{line: 995, col: 5, offset: 31343},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 995, col: 5, offset: 31342},
+																					pos: position{line: 995, col: 5, offset: 31343},
 																					expr: &actionExpr{
-																						pos: position{line: 690, col: 14, offset: 22172},
+																						pos: position{line: 690, col: 14, offset: 22173},
 																						run: (*parser).callonDocumentFragment661,
 																						expr: &seqExpr{
-																							pos: position{line: 690, col: 14, offset: 22172},
+																							pos: position{line: 690, col: 14, offset: 22173},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2939, col: 11, offset: 92744},
+																									pos: position{line: 2939, col: 11, offset: 92745},
 																									expr: &anyMatcher{
-																										line: 2939, col: 13, offset: 92746,
+																										line: 2939, col: 13, offset: 92747,
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 690, col: 21, offset: 22179},
+																									pos: position{line: 690, col: 21, offset: 22180},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92410},
+																										pos: position{line: 2922, col: 10, offset: 92411},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92410},
+																											pos:        position{line: 2922, col: 10, offset: 92411},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7052,28 +7052,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92808},
+																									pos: position{line: 2944, col: 8, offset: 92809},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92581},
+																											pos: position{line: 2931, col: 12, offset: 92582},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92582},
+																												pos: position{line: 2931, col: 13, offset: 92583},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92582},
+																														pos:        position{line: 2931, col: 13, offset: 92583},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92589},
+																														pos:        position{line: 2931, col: 20, offset: 92590},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92598},
+																														pos:        position{line: 2931, col: 29, offset: 92599},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7082,9 +7082,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92758},
+																											pos: position{line: 2941, col: 8, offset: 92759},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92759,
+																												line: 2941, col: 9, offset: 92760,
 																											},
 																										},
 																									},
@@ -7094,21 +7094,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 996, col: 5, offset: 31357},
+																					pos:        position{line: 996, col: 5, offset: 31358},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 997, col: 5, offset: 31367},
+																					pos:   position{line: 997, col: 5, offset: 31368},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2872, col: 14, offset: 91003},
+																						pos: position{line: 2872, col: 14, offset: 91004},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2872, col: 14, offset: 91003},
+																							pos: position{line: 2872, col: 14, offset: 91004},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 14, offset: 91003},
+																								pos:        position{line: 2872, col: 14, offset: 91004},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7118,28 +7118,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92808},
+																					pos: position{line: 2944, col: 8, offset: 92809},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92581},
+																							pos: position{line: 2931, col: 12, offset: 92582},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92582},
+																								pos: position{line: 2931, col: 13, offset: 92583},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92582},
+																										pos:        position{line: 2931, col: 13, offset: 92583},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92589},
+																										pos:        position{line: 2931, col: 20, offset: 92590},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92598},
+																										pos:        position{line: 2931, col: 29, offset: 92599},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7148,9 +7148,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92758},
+																							pos: position{line: 2941, col: 8, offset: 92759},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92759,
+																								line: 2941, col: 9, offset: 92760,
 																							},
 																						},
 																					},
@@ -7159,21 +7159,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1804, col: 5, offset: 58470},
+																		pos: position{line: 1804, col: 5, offset: 58471},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1804, col: 5, offset: 58470},
+																			pos: position{line: 1804, col: 5, offset: 58471},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1804, col: 5, offset: 58470},
+																					pos:   position{line: 1804, col: 5, offset: 58471},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2872, col: 14, offset: 91003},
+																						pos: position{line: 2872, col: 14, offset: 91004},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2872, col: 14, offset: 91003},
+																							pos: position{line: 2872, col: 14, offset: 91004},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 14, offset: 91003},
+																								pos:        position{line: 2872, col: 14, offset: 91004},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7183,32 +7183,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1805, col: 5, offset: 58494},
+																					pos: position{line: 1805, col: 5, offset: 58495},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92808},
+																					pos: position{line: 2944, col: 8, offset: 92809},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92581},
+																							pos: position{line: 2931, col: 12, offset: 92582},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92582},
+																								pos: position{line: 2931, col: 13, offset: 92583},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92582},
+																										pos:        position{line: 2931, col: 13, offset: 92583},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92589},
+																										pos:        position{line: 2931, col: 20, offset: 92590},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92598},
+																										pos:        position{line: 2931, col: 29, offset: 92599},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7217,9 +7217,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92758},
+																							pos: position{line: 2941, col: 8, offset: 92759},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92759,
+																								line: 2941, col: 9, offset: 92760,
 																							},
 																						},
 																					},
@@ -7235,28 +7235,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1010, col: 5, offset: 31632},
+											pos: position{line: 1010, col: 5, offset: 31633},
 											run: (*parser).callonDocumentFragment704,
 											expr: &seqExpr{
-												pos: position{line: 1010, col: 5, offset: 31632},
+												pos: position{line: 1010, col: 5, offset: 31633},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1010, col: 5, offset: 31632},
+														pos:   position{line: 1010, col: 5, offset: 31633},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 789, col: 5, offset: 25544},
+															pos: position{line: 789, col: 5, offset: 25545},
 															run: (*parser).callonDocumentFragment707,
 															expr: &seqExpr{
-																pos: position{line: 789, col: 5, offset: 25544},
+																pos: position{line: 789, col: 5, offset: 25545},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 789, col: 5, offset: 25544},
+																		pos:   position{line: 789, col: 5, offset: 25545},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 789, col: 16, offset: 25555},
+																			pos: position{line: 789, col: 16, offset: 25556},
 																			run: (*parser).callonDocumentFragment710,
 																			expr: &litMatcher{
-																				pos:        position{line: 789, col: 16, offset: 25555},
+																				pos:        position{line: 789, col: 16, offset: 25556},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -7264,12 +7264,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 791, col: 8, offset: 25632},
+																		pos: position{line: 791, col: 8, offset: 25633},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92410},
+																			pos: position{line: 2922, col: 10, offset: 92411},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92410},
+																				pos:        position{line: 2922, col: 10, offset: 92411},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7278,28 +7278,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92808},
+																		pos: position{line: 2944, col: 8, offset: 92809},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7308,9 +7308,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92758},
+																				pos: position{line: 2941, col: 8, offset: 92759},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92759,
+																					line: 2941, col: 9, offset: 92760,
 																				},
 																			},
 																		},
@@ -7320,35 +7320,35 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1011, col: 5, offset: 31668},
+														pos:   position{line: 1011, col: 5, offset: 31669},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1021, col: 5, offset: 31936},
+															pos: position{line: 1021, col: 5, offset: 31937},
 															expr: &actionExpr{
-																pos: position{line: 1021, col: 6, offset: 31937},
+																pos: position{line: 1021, col: 6, offset: 31938},
 																run: (*parser).callonDocumentFragment725,
 																expr: &seqExpr{
-																	pos: position{line: 1021, col: 6, offset: 31937},
+																	pos: position{line: 1021, col: 6, offset: 31938},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1021, col: 6, offset: 31937},
+																			pos: position{line: 1021, col: 6, offset: 31938},
 																			expr: &choiceExpr{
-																				pos: position{line: 1018, col: 26, offset: 31885},
+																				pos: position{line: 1018, col: 26, offset: 31886},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 789, col: 5, offset: 25544},
+																						pos: position{line: 789, col: 5, offset: 25545},
 																						run: (*parser).callonDocumentFragment729,
 																						expr: &seqExpr{
-																							pos: position{line: 789, col: 5, offset: 25544},
+																							pos: position{line: 789, col: 5, offset: 25545},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 789, col: 5, offset: 25544},
+																									pos:   position{line: 789, col: 5, offset: 25545},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 789, col: 16, offset: 25555},
+																										pos: position{line: 789, col: 16, offset: 25556},
 																										run: (*parser).callonDocumentFragment732,
 																										expr: &litMatcher{
-																											pos:        position{line: 789, col: 16, offset: 25555},
+																											pos:        position{line: 789, col: 16, offset: 25556},
 																											val:        "--",
 																											ignoreCase: false,
 																											want:       "\"--\"",
@@ -7356,12 +7356,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 791, col: 8, offset: 25632},
+																									pos: position{line: 791, col: 8, offset: 25633},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92410},
+																										pos: position{line: 2922, col: 10, offset: 92411},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92410},
+																											pos:        position{line: 2922, col: 10, offset: 92411},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7370,28 +7370,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92808},
+																									pos: position{line: 2944, col: 8, offset: 92809},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92581},
+																											pos: position{line: 2931, col: 12, offset: 92582},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92582},
+																												pos: position{line: 2931, col: 13, offset: 92583},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92582},
+																														pos:        position{line: 2931, col: 13, offset: 92583},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92589},
+																														pos:        position{line: 2931, col: 20, offset: 92590},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92598},
+																														pos:        position{line: 2931, col: 29, offset: 92599},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7400,9 +7400,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92758},
+																											pos: position{line: 2941, col: 8, offset: 92759},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92759,
+																												line: 2941, col: 9, offset: 92760,
 																											},
 																										},
 																									},
@@ -7411,39 +7411,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92758},
+																						pos: position{line: 2941, col: 8, offset: 92759},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92759,
+																							line: 2941, col: 9, offset: 92760,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1022, col: 5, offset: 31964},
+																			pos:   position{line: 1022, col: 5, offset: 31965},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 824, col: 5, offset: 26771},
+																				pos: position{line: 824, col: 5, offset: 26772},
 																				run: (*parser).callonDocumentFragment748,
 																				expr: &seqExpr{
-																					pos: position{line: 824, col: 5, offset: 26771},
+																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92744},
+																							pos: position{line: 2939, col: 11, offset: 92745},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92746,
+																								line: 2939, col: 13, offset: 92747,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 825, col: 5, offset: 26846},
+																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90936},
+																								pos: position{line: 2868, col: 13, offset: 90937},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90936},
+																									pos: position{line: 2868, col: 13, offset: 90937},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90936},
+																										pos:        position{line: 2868, col: 13, offset: 90937},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7453,28 +7453,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7483,9 +7483,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -7500,27 +7500,27 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1012, col: 5, offset: 31699},
+														pos:   position{line: 1012, col: 5, offset: 31700},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1012, col: 9, offset: 31703},
+															pos: position{line: 1012, col: 9, offset: 31704},
 															expr: &choiceExpr{
-																pos: position{line: 1018, col: 26, offset: 31885},
+																pos: position{line: 1018, col: 26, offset: 31886},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 789, col: 5, offset: 25544},
+																		pos: position{line: 789, col: 5, offset: 25545},
 																		run: (*parser).callonDocumentFragment767,
 																		expr: &seqExpr{
-																			pos: position{line: 789, col: 5, offset: 25544},
+																			pos: position{line: 789, col: 5, offset: 25545},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 789, col: 5, offset: 25544},
+																					pos:   position{line: 789, col: 5, offset: 25545},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 789, col: 16, offset: 25555},
+																						pos: position{line: 789, col: 16, offset: 25556},
 																						run: (*parser).callonDocumentFragment770,
 																						expr: &litMatcher{
-																							pos:        position{line: 789, col: 16, offset: 25555},
+																							pos:        position{line: 789, col: 16, offset: 25556},
 																							val:        "--",
 																							ignoreCase: false,
 																							want:       "\"--\"",
@@ -7528,12 +7528,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 791, col: 8, offset: 25632},
+																					pos: position{line: 791, col: 8, offset: 25633},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92410},
+																						pos: position{line: 2922, col: 10, offset: 92411},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92410},
+																							pos:        position{line: 2922, col: 10, offset: 92411},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7542,28 +7542,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92808},
+																					pos: position{line: 2944, col: 8, offset: 92809},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92581},
+																							pos: position{line: 2931, col: 12, offset: 92582},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92582},
+																								pos: position{line: 2931, col: 13, offset: 92583},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92582},
+																										pos:        position{line: 2931, col: 13, offset: 92583},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92589},
+																										pos:        position{line: 2931, col: 20, offset: 92590},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92598},
+																										pos:        position{line: 2931, col: 29, offset: 92599},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7572,9 +7572,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92758},
+																							pos: position{line: 2941, col: 8, offset: 92759},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92759,
+																								line: 2941, col: 9, offset: 92760,
 																							},
 																						},
 																					},
@@ -7583,9 +7583,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92758},
+																		pos: position{line: 2941, col: 8, offset: 92759},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92759,
+																			line: 2941, col: 9, offset: 92760,
 																		},
 																	},
 																},
@@ -7596,39 +7596,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1030, col: 5, offset: 32127},
+											pos: position{line: 1030, col: 5, offset: 32128},
 											run: (*parser).callonDocumentFragment785,
 											expr: &seqExpr{
-												pos: position{line: 1030, col: 5, offset: 32127},
+												pos: position{line: 1030, col: 5, offset: 32128},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1030, col: 5, offset: 32127},
+														pos:   position{line: 1030, col: 5, offset: 32128},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 803, col: 5, offset: 26027},
+															pos: position{line: 803, col: 5, offset: 26028},
 															run: (*parser).callonDocumentFragment788,
 															expr: &seqExpr{
-																pos: position{line: 803, col: 5, offset: 26027},
+																pos: position{line: 803, col: 5, offset: 26028},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 803, col: 5, offset: 26027},
+																		pos:   position{line: 803, col: 5, offset: 26028},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 803, col: 16, offset: 26038},
+																			pos: position{line: 803, col: 16, offset: 26039},
 																			run: (*parser).callonDocumentFragment791,
 																			expr: &seqExpr{
-																				pos: position{line: 803, col: 16, offset: 26038},
+																				pos: position{line: 803, col: 16, offset: 26039},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 803, col: 16, offset: 26038},
+																						pos:        position{line: 803, col: 16, offset: 26039},
 																						val:        "++++",
 																						ignoreCase: false,
 																						want:       "\"++++\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 803, col: 23, offset: 26045},
+																						pos: position{line: 803, col: 23, offset: 26046},
 																						expr: &litMatcher{
-																							pos:        position{line: 803, col: 23, offset: 26045},
+																							pos:        position{line: 803, col: 23, offset: 26046},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
@@ -7639,12 +7639,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 805, col: 8, offset: 26129},
+																		pos: position{line: 805, col: 8, offset: 26130},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92410},
+																			pos: position{line: 2922, col: 10, offset: 92411},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92410},
+																				pos:        position{line: 2922, col: 10, offset: 92411},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7653,28 +7653,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92808},
+																		pos: position{line: 2944, col: 8, offset: 92809},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7683,9 +7683,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92758},
+																				pos: position{line: 2941, col: 8, offset: 92759},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92759,
+																					line: 2941, col: 9, offset: 92760,
 																				},
 																			},
 																		},
@@ -7695,56 +7695,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1031, col: 5, offset: 32170},
+														pos: position{line: 1031, col: 5, offset: 32171},
 														run: (*parser).callonDocumentFragment807,
 													},
 													&labeledExpr{
-														pos:   position{line: 1034, col: 5, offset: 32262},
+														pos:   position{line: 1034, col: 5, offset: 32263},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1049, col: 5, offset: 32692},
+															pos: position{line: 1049, col: 5, offset: 32693},
 															expr: &actionExpr{
-																pos: position{line: 1049, col: 6, offset: 32693},
+																pos: position{line: 1049, col: 6, offset: 32694},
 																run: (*parser).callonDocumentFragment810,
 																expr: &seqExpr{
-																	pos: position{line: 1049, col: 6, offset: 32693},
+																	pos: position{line: 1049, col: 6, offset: 32694},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1049, col: 6, offset: 32693},
+																			pos: position{line: 1049, col: 6, offset: 32694},
 																			expr: &choiceExpr{
-																				pos: position{line: 1042, col: 5, offset: 32526},
+																				pos: position{line: 1042, col: 5, offset: 32527},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1042, col: 5, offset: 32526},
+																						pos: position{line: 1042, col: 5, offset: 32527},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1042, col: 5, offset: 32526},
+																								pos:   position{line: 1042, col: 5, offset: 32527},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 803, col: 5, offset: 26027},
+																									pos: position{line: 803, col: 5, offset: 26028},
 																									run: (*parser).callonDocumentFragment816,
 																									expr: &seqExpr{
-																										pos: position{line: 803, col: 5, offset: 26027},
+																										pos: position{line: 803, col: 5, offset: 26028},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 803, col: 5, offset: 26027},
+																												pos:   position{line: 803, col: 5, offset: 26028},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 803, col: 16, offset: 26038},
+																													pos: position{line: 803, col: 16, offset: 26039},
 																													run: (*parser).callonDocumentFragment819,
 																													expr: &seqExpr{
-																														pos: position{line: 803, col: 16, offset: 26038},
+																														pos: position{line: 803, col: 16, offset: 26039},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 803, col: 16, offset: 26038},
+																																pos:        position{line: 803, col: 16, offset: 26039},
 																																val:        "++++",
 																																ignoreCase: false,
 																																want:       "\"++++\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 803, col: 23, offset: 26045},
+																																pos: position{line: 803, col: 23, offset: 26046},
 																																expr: &litMatcher{
-																																	pos:        position{line: 803, col: 23, offset: 26045},
+																																	pos:        position{line: 803, col: 23, offset: 26046},
 																																	val:        "+",
 																																	ignoreCase: false,
 																																	want:       "\"+\"",
@@ -7755,12 +7755,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 805, col: 8, offset: 26129},
+																												pos: position{line: 805, col: 8, offset: 26130},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92410},
+																													pos: position{line: 2922, col: 10, offset: 92411},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92410},
+																														pos:        position{line: 2922, col: 10, offset: 92411},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7769,28 +7769,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92808},
+																												pos: position{line: 2944, col: 8, offset: 92809},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92581},
+																														pos: position{line: 2931, col: 12, offset: 92582},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92582},
+																															pos: position{line: 2931, col: 13, offset: 92583},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92582},
+																																	pos:        position{line: 2931, col: 13, offset: 92583},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92589},
+																																	pos:        position{line: 2931, col: 20, offset: 92590},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92598},
+																																	pos:        position{line: 2931, col: 29, offset: 92599},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7799,9 +7799,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92758},
+																														pos: position{line: 2941, col: 8, offset: 92759},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92759,
+																															line: 2941, col: 9, offset: 92760,
 																														},
 																													},
 																												},
@@ -7811,45 +7811,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1043, col: 5, offset: 32561},
+																								pos: position{line: 1043, col: 5, offset: 32562},
 																								run: (*parser).callonDocumentFragment835,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92758},
+																						pos: position{line: 2941, col: 8, offset: 92759},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92759,
+																							line: 2941, col: 9, offset: 92760,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1050, col: 5, offset: 32727},
+																			pos:   position{line: 1050, col: 5, offset: 32728},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 824, col: 5, offset: 26771},
+																				pos: position{line: 824, col: 5, offset: 26772},
 																				run: (*parser).callonDocumentFragment839,
 																				expr: &seqExpr{
-																					pos: position{line: 824, col: 5, offset: 26771},
+																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92744},
+																							pos: position{line: 2939, col: 11, offset: 92745},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92746,
+																								line: 2939, col: 13, offset: 92747,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 825, col: 5, offset: 26846},
+																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90936},
+																								pos: position{line: 2868, col: 13, offset: 90937},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90936},
+																									pos: position{line: 2868, col: 13, offset: 90937},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90936},
+																										pos:        position{line: 2868, col: 13, offset: 90937},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7859,28 +7859,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7889,9 +7889,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -7906,44 +7906,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1035, col: 5, offset: 32300},
+														pos:   position{line: 1035, col: 5, offset: 32301},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1035, col: 9, offset: 32304},
+															pos: position{line: 1035, col: 9, offset: 32305},
 															expr: &choiceExpr{
-																pos: position{line: 1042, col: 5, offset: 32526},
+																pos: position{line: 1042, col: 5, offset: 32527},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1042, col: 5, offset: 32526},
+																		pos: position{line: 1042, col: 5, offset: 32527},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1042, col: 5, offset: 32526},
+																				pos:   position{line: 1042, col: 5, offset: 32527},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 803, col: 5, offset: 26027},
+																					pos: position{line: 803, col: 5, offset: 26028},
 																					run: (*parser).callonDocumentFragment860,
 																					expr: &seqExpr{
-																						pos: position{line: 803, col: 5, offset: 26027},
+																						pos: position{line: 803, col: 5, offset: 26028},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 803, col: 5, offset: 26027},
+																								pos:   position{line: 803, col: 5, offset: 26028},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 803, col: 16, offset: 26038},
+																									pos: position{line: 803, col: 16, offset: 26039},
 																									run: (*parser).callonDocumentFragment863,
 																									expr: &seqExpr{
-																										pos: position{line: 803, col: 16, offset: 26038},
+																										pos: position{line: 803, col: 16, offset: 26039},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 803, col: 16, offset: 26038},
+																												pos:        position{line: 803, col: 16, offset: 26039},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 803, col: 23, offset: 26045},
+																												pos: position{line: 803, col: 23, offset: 26046},
 																												expr: &litMatcher{
-																													pos:        position{line: 803, col: 23, offset: 26045},
+																													pos:        position{line: 803, col: 23, offset: 26046},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -7954,12 +7954,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 805, col: 8, offset: 26129},
+																								pos: position{line: 805, col: 8, offset: 26130},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92410},
+																									pos: position{line: 2922, col: 10, offset: 92411},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92410},
+																										pos:        position{line: 2922, col: 10, offset: 92411},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7968,28 +7968,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92808},
+																								pos: position{line: 2944, col: 8, offset: 92809},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92581},
+																										pos: position{line: 2931, col: 12, offset: 92582},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92582},
+																											pos: position{line: 2931, col: 13, offset: 92583},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92582},
+																													pos:        position{line: 2931, col: 13, offset: 92583},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92589},
+																													pos:        position{line: 2931, col: 20, offset: 92590},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92598},
+																													pos:        position{line: 2931, col: 29, offset: 92599},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -7998,9 +7998,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92758},
+																										pos: position{line: 2941, col: 8, offset: 92759},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92759,
+																											line: 2941, col: 9, offset: 92760,
 																										},
 																									},
 																								},
@@ -8010,15 +8010,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1043, col: 5, offset: 32561},
+																				pos: position{line: 1043, col: 5, offset: 32562},
 																				run: (*parser).callonDocumentFragment879,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92758},
+																		pos: position{line: 2941, col: 8, offset: 92759},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92759,
+																			line: 2941, col: 9, offset: 92760,
 																		},
 																	},
 																},
@@ -8029,39 +8029,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1058, col: 5, offset: 32878},
+											pos: position{line: 1058, col: 5, offset: 32879},
 											run: (*parser).callonDocumentFragment882,
 											expr: &seqExpr{
-												pos: position{line: 1058, col: 5, offset: 32878},
+												pos: position{line: 1058, col: 5, offset: 32879},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1058, col: 5, offset: 32878},
+														pos:   position{line: 1058, col: 5, offset: 32879},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 810, col: 5, offset: 26277},
+															pos: position{line: 810, col: 5, offset: 26278},
 															run: (*parser).callonDocumentFragment885,
 															expr: &seqExpr{
-																pos: position{line: 810, col: 5, offset: 26277},
+																pos: position{line: 810, col: 5, offset: 26278},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 810, col: 5, offset: 26277},
+																		pos:   position{line: 810, col: 5, offset: 26278},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 16, offset: 26288},
+																			pos: position{line: 810, col: 16, offset: 26289},
 																			run: (*parser).callonDocumentFragment888,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 16, offset: 26288},
+																				pos: position{line: 810, col: 16, offset: 26289},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 810, col: 16, offset: 26288},
+																						pos:        position{line: 810, col: 16, offset: 26289},
 																						val:        "____",
 																						ignoreCase: false,
 																						want:       "\"____\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 810, col: 23, offset: 26295},
+																						pos: position{line: 810, col: 23, offset: 26296},
 																						expr: &litMatcher{
-																							pos:        position{line: 810, col: 23, offset: 26295},
+																							pos:        position{line: 810, col: 23, offset: 26296},
 																							val:        "_",
 																							ignoreCase: false,
 																							want:       "\"_\"",
@@ -8072,12 +8072,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 812, col: 8, offset: 26379},
+																		pos: position{line: 812, col: 8, offset: 26380},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92410},
+																			pos: position{line: 2922, col: 10, offset: 92411},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92410},
+																				pos:        position{line: 2922, col: 10, offset: 92411},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8086,28 +8086,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92808},
+																		pos: position{line: 2944, col: 8, offset: 92809},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8116,9 +8116,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92758},
+																				pos: position{line: 2941, col: 8, offset: 92759},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92759,
+																					line: 2941, col: 9, offset: 92760,
 																				},
 																			},
 																		},
@@ -8128,56 +8128,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1059, col: 5, offset: 32915},
+														pos: position{line: 1059, col: 5, offset: 32916},
 														run: (*parser).callonDocumentFragment904,
 													},
 													&labeledExpr{
-														pos:   position{line: 1062, col: 5, offset: 33007},
+														pos:   position{line: 1062, col: 5, offset: 33008},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1077, col: 4, offset: 33388},
+															pos: position{line: 1077, col: 4, offset: 33389},
 															expr: &actionExpr{
-																pos: position{line: 1077, col: 5, offset: 33389},
+																pos: position{line: 1077, col: 5, offset: 33390},
 																run: (*parser).callonDocumentFragment907,
 																expr: &seqExpr{
-																	pos: position{line: 1077, col: 5, offset: 33389},
+																	pos: position{line: 1077, col: 5, offset: 33390},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1077, col: 5, offset: 33389},
+																			pos: position{line: 1077, col: 5, offset: 33390},
 																			expr: &choiceExpr{
-																				pos: position{line: 1070, col: 5, offset: 33235},
+																				pos: position{line: 1070, col: 5, offset: 33236},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1070, col: 5, offset: 33235},
+																						pos: position{line: 1070, col: 5, offset: 33236},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1070, col: 5, offset: 33235},
+																								pos:   position{line: 1070, col: 5, offset: 33236},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 810, col: 5, offset: 26277},
+																									pos: position{line: 810, col: 5, offset: 26278},
 																									run: (*parser).callonDocumentFragment913,
 																									expr: &seqExpr{
-																										pos: position{line: 810, col: 5, offset: 26277},
+																										pos: position{line: 810, col: 5, offset: 26278},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 810, col: 5, offset: 26277},
+																												pos:   position{line: 810, col: 5, offset: 26278},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 810, col: 16, offset: 26288},
+																													pos: position{line: 810, col: 16, offset: 26289},
 																													run: (*parser).callonDocumentFragment916,
 																													expr: &seqExpr{
-																														pos: position{line: 810, col: 16, offset: 26288},
+																														pos: position{line: 810, col: 16, offset: 26289},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 810, col: 16, offset: 26288},
+																																pos:        position{line: 810, col: 16, offset: 26289},
 																																val:        "____",
 																																ignoreCase: false,
 																																want:       "\"____\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 810, col: 23, offset: 26295},
+																																pos: position{line: 810, col: 23, offset: 26296},
 																																expr: &litMatcher{
-																																	pos:        position{line: 810, col: 23, offset: 26295},
+																																	pos:        position{line: 810, col: 23, offset: 26296},
 																																	val:        "_",
 																																	ignoreCase: false,
 																																	want:       "\"_\"",
@@ -8188,12 +8188,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 812, col: 8, offset: 26379},
+																												pos: position{line: 812, col: 8, offset: 26380},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92410},
+																													pos: position{line: 2922, col: 10, offset: 92411},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92410},
+																														pos:        position{line: 2922, col: 10, offset: 92411},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8202,28 +8202,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92808},
+																												pos: position{line: 2944, col: 8, offset: 92809},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92581},
+																														pos: position{line: 2931, col: 12, offset: 92582},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92582},
+																															pos: position{line: 2931, col: 13, offset: 92583},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92582},
+																																	pos:        position{line: 2931, col: 13, offset: 92583},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92589},
+																																	pos:        position{line: 2931, col: 20, offset: 92590},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92598},
+																																	pos:        position{line: 2931, col: 29, offset: 92599},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8232,9 +8232,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92758},
+																														pos: position{line: 2941, col: 8, offset: 92759},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92759,
+																															line: 2941, col: 9, offset: 92760,
 																														},
 																													},
 																												},
@@ -8244,45 +8244,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1071, col: 5, offset: 33264},
+																								pos: position{line: 1071, col: 5, offset: 33265},
 																								run: (*parser).callonDocumentFragment932,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92758},
+																						pos: position{line: 2941, col: 8, offset: 92759},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92759,
+																							line: 2941, col: 9, offset: 92760,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1078, col: 5, offset: 33417},
+																			pos:   position{line: 1078, col: 5, offset: 33418},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 824, col: 5, offset: 26771},
+																				pos: position{line: 824, col: 5, offset: 26772},
 																				run: (*parser).callonDocumentFragment936,
 																				expr: &seqExpr{
-																					pos: position{line: 824, col: 5, offset: 26771},
+																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92744},
+																							pos: position{line: 2939, col: 11, offset: 92745},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92746,
+																								line: 2939, col: 13, offset: 92747,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 825, col: 5, offset: 26846},
+																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90936},
+																								pos: position{line: 2868, col: 13, offset: 90937},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90936},
+																									pos: position{line: 2868, col: 13, offset: 90937},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90936},
+																										pos:        position{line: 2868, col: 13, offset: 90937},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8292,28 +8292,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8322,9 +8322,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -8339,44 +8339,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1063, col: 5, offset: 33039},
+														pos:   position{line: 1063, col: 5, offset: 33040},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1063, col: 9, offset: 33043},
+															pos: position{line: 1063, col: 9, offset: 33044},
 															expr: &choiceExpr{
-																pos: position{line: 1070, col: 5, offset: 33235},
+																pos: position{line: 1070, col: 5, offset: 33236},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1070, col: 5, offset: 33235},
+																		pos: position{line: 1070, col: 5, offset: 33236},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1070, col: 5, offset: 33235},
+																				pos:   position{line: 1070, col: 5, offset: 33236},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 810, col: 5, offset: 26277},
+																					pos: position{line: 810, col: 5, offset: 26278},
 																					run: (*parser).callonDocumentFragment957,
 																					expr: &seqExpr{
-																						pos: position{line: 810, col: 5, offset: 26277},
+																						pos: position{line: 810, col: 5, offset: 26278},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 810, col: 5, offset: 26277},
+																								pos:   position{line: 810, col: 5, offset: 26278},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 810, col: 16, offset: 26288},
+																									pos: position{line: 810, col: 16, offset: 26289},
 																									run: (*parser).callonDocumentFragment960,
 																									expr: &seqExpr{
-																										pos: position{line: 810, col: 16, offset: 26288},
+																										pos: position{line: 810, col: 16, offset: 26289},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 810, col: 16, offset: 26288},
+																												pos:        position{line: 810, col: 16, offset: 26289},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 810, col: 23, offset: 26295},
+																												pos: position{line: 810, col: 23, offset: 26296},
 																												expr: &litMatcher{
-																													pos:        position{line: 810, col: 23, offset: 26295},
+																													pos:        position{line: 810, col: 23, offset: 26296},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -8387,12 +8387,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 812, col: 8, offset: 26379},
+																								pos: position{line: 812, col: 8, offset: 26380},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92410},
+																									pos: position{line: 2922, col: 10, offset: 92411},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92410},
+																										pos:        position{line: 2922, col: 10, offset: 92411},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8401,28 +8401,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92808},
+																								pos: position{line: 2944, col: 8, offset: 92809},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92581},
+																										pos: position{line: 2931, col: 12, offset: 92582},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92582},
+																											pos: position{line: 2931, col: 13, offset: 92583},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92582},
+																													pos:        position{line: 2931, col: 13, offset: 92583},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92589},
+																													pos:        position{line: 2931, col: 20, offset: 92590},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92598},
+																													pos:        position{line: 2931, col: 29, offset: 92599},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8431,9 +8431,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92758},
+																										pos: position{line: 2941, col: 8, offset: 92759},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92759,
+																											line: 2941, col: 9, offset: 92760,
 																										},
 																									},
 																								},
@@ -8443,15 +8443,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1071, col: 5, offset: 33264},
+																				pos: position{line: 1071, col: 5, offset: 33265},
 																				run: (*parser).callonDocumentFragment976,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92758},
+																		pos: position{line: 2941, col: 8, offset: 92759},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92759,
+																			line: 2941, col: 9, offset: 92760,
 																		},
 																	},
 																},
@@ -8462,39 +8462,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1086, col: 5, offset: 33572},
+											pos: position{line: 1086, col: 5, offset: 33573},
 											run: (*parser).callonDocumentFragment979,
 											expr: &seqExpr{
-												pos: position{line: 1086, col: 5, offset: 33572},
+												pos: position{line: 1086, col: 5, offset: 33573},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1086, col: 5, offset: 33572},
+														pos:   position{line: 1086, col: 5, offset: 33573},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 817, col: 5, offset: 26523},
+															pos: position{line: 817, col: 5, offset: 26524},
 															run: (*parser).callonDocumentFragment982,
 															expr: &seqExpr{
-																pos: position{line: 817, col: 5, offset: 26523},
+																pos: position{line: 817, col: 5, offset: 26524},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 817, col: 5, offset: 26523},
+																		pos:   position{line: 817, col: 5, offset: 26524},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 817, col: 16, offset: 26534},
+																			pos: position{line: 817, col: 16, offset: 26535},
 																			run: (*parser).callonDocumentFragment985,
 																			expr: &seqExpr{
-																				pos: position{line: 817, col: 16, offset: 26534},
+																				pos: position{line: 817, col: 16, offset: 26535},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 817, col: 16, offset: 26534},
+																						pos:        position{line: 817, col: 16, offset: 26535},
 																						val:        "****",
 																						ignoreCase: false,
 																						want:       "\"****\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 817, col: 23, offset: 26541},
+																						pos: position{line: 817, col: 23, offset: 26542},
 																						expr: &litMatcher{
-																							pos:        position{line: 817, col: 23, offset: 26541},
+																							pos:        position{line: 817, col: 23, offset: 26542},
 																							val:        "*",
 																							ignoreCase: false,
 																							want:       "\"*\"",
@@ -8505,12 +8505,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 819, col: 8, offset: 26625},
+																		pos: position{line: 819, col: 8, offset: 26626},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92410},
+																			pos: position{line: 2922, col: 10, offset: 92411},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92410},
+																				pos:        position{line: 2922, col: 10, offset: 92411},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8519,28 +8519,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92808},
+																		pos: position{line: 2944, col: 8, offset: 92809},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8549,9 +8549,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92758},
+																				pos: position{line: 2941, col: 8, offset: 92759},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92759,
+																					line: 2941, col: 9, offset: 92760,
 																				},
 																			},
 																		},
@@ -8561,56 +8561,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1087, col: 5, offset: 33611},
+														pos: position{line: 1087, col: 5, offset: 33612},
 														run: (*parser).callonDocumentFragment1001,
 													},
 													&labeledExpr{
-														pos:   position{line: 1090, col: 5, offset: 33703},
+														pos:   position{line: 1090, col: 5, offset: 33704},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1105, col: 4, offset: 34100},
+															pos: position{line: 1105, col: 4, offset: 34101},
 															expr: &actionExpr{
-																pos: position{line: 1105, col: 5, offset: 34101},
+																pos: position{line: 1105, col: 5, offset: 34102},
 																run: (*parser).callonDocumentFragment1004,
 																expr: &seqExpr{
-																	pos: position{line: 1105, col: 5, offset: 34101},
+																	pos: position{line: 1105, col: 5, offset: 34102},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1105, col: 5, offset: 34101},
+																			pos: position{line: 1105, col: 5, offset: 34102},
 																			expr: &choiceExpr{
-																				pos: position{line: 1098, col: 5, offset: 33943},
+																				pos: position{line: 1098, col: 5, offset: 33944},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1098, col: 5, offset: 33943},
+																						pos: position{line: 1098, col: 5, offset: 33944},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1098, col: 5, offset: 33943},
+																								pos:   position{line: 1098, col: 5, offset: 33944},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 817, col: 5, offset: 26523},
+																									pos: position{line: 817, col: 5, offset: 26524},
 																									run: (*parser).callonDocumentFragment1010,
 																									expr: &seqExpr{
-																										pos: position{line: 817, col: 5, offset: 26523},
+																										pos: position{line: 817, col: 5, offset: 26524},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 817, col: 5, offset: 26523},
+																												pos:   position{line: 817, col: 5, offset: 26524},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 817, col: 16, offset: 26534},
+																													pos: position{line: 817, col: 16, offset: 26535},
 																													run: (*parser).callonDocumentFragment1013,
 																													expr: &seqExpr{
-																														pos: position{line: 817, col: 16, offset: 26534},
+																														pos: position{line: 817, col: 16, offset: 26535},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 817, col: 16, offset: 26534},
+																																pos:        position{line: 817, col: 16, offset: 26535},
 																																val:        "****",
 																																ignoreCase: false,
 																																want:       "\"****\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 817, col: 23, offset: 26541},
+																																pos: position{line: 817, col: 23, offset: 26542},
 																																expr: &litMatcher{
-																																	pos:        position{line: 817, col: 23, offset: 26541},
+																																	pos:        position{line: 817, col: 23, offset: 26542},
 																																	val:        "*",
 																																	ignoreCase: false,
 																																	want:       "\"*\"",
@@ -8621,12 +8621,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 819, col: 8, offset: 26625},
+																												pos: position{line: 819, col: 8, offset: 26626},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92410},
+																													pos: position{line: 2922, col: 10, offset: 92411},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92410},
+																														pos:        position{line: 2922, col: 10, offset: 92411},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8635,28 +8635,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92808},
+																												pos: position{line: 2944, col: 8, offset: 92809},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92581},
+																														pos: position{line: 2931, col: 12, offset: 92582},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92582},
+																															pos: position{line: 2931, col: 13, offset: 92583},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92582},
+																																	pos:        position{line: 2931, col: 13, offset: 92583},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92589},
+																																	pos:        position{line: 2931, col: 20, offset: 92590},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92598},
+																																	pos:        position{line: 2931, col: 29, offset: 92599},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8665,9 +8665,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92758},
+																														pos: position{line: 2941, col: 8, offset: 92759},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92759,
+																															line: 2941, col: 9, offset: 92760,
 																														},
 																													},
 																												},
@@ -8677,45 +8677,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1099, col: 5, offset: 33974},
+																								pos: position{line: 1099, col: 5, offset: 33975},
 																								run: (*parser).callonDocumentFragment1029,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92758},
+																						pos: position{line: 2941, col: 8, offset: 92759},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92759,
+																							line: 2941, col: 9, offset: 92760,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1106, col: 5, offset: 34131},
+																			pos:   position{line: 1106, col: 5, offset: 34132},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 824, col: 5, offset: 26771},
+																				pos: position{line: 824, col: 5, offset: 26772},
 																				run: (*parser).callonDocumentFragment1033,
 																				expr: &seqExpr{
-																					pos: position{line: 824, col: 5, offset: 26771},
+																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92744},
+																							pos: position{line: 2939, col: 11, offset: 92745},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92746,
+																								line: 2939, col: 13, offset: 92747,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 825, col: 5, offset: 26846},
+																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90936},
+																								pos: position{line: 2868, col: 13, offset: 90937},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90936},
+																									pos: position{line: 2868, col: 13, offset: 90937},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90936},
+																										pos:        position{line: 2868, col: 13, offset: 90937},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8725,28 +8725,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8755,9 +8755,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -8772,44 +8772,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1091, col: 5, offset: 33737},
+														pos:   position{line: 1091, col: 5, offset: 33738},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1091, col: 9, offset: 33741},
+															pos: position{line: 1091, col: 9, offset: 33742},
 															expr: &choiceExpr{
-																pos: position{line: 1098, col: 5, offset: 33943},
+																pos: position{line: 1098, col: 5, offset: 33944},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1098, col: 5, offset: 33943},
+																		pos: position{line: 1098, col: 5, offset: 33944},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1098, col: 5, offset: 33943},
+																				pos:   position{line: 1098, col: 5, offset: 33944},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 817, col: 5, offset: 26523},
+																					pos: position{line: 817, col: 5, offset: 26524},
 																					run: (*parser).callonDocumentFragment1054,
 																					expr: &seqExpr{
-																						pos: position{line: 817, col: 5, offset: 26523},
+																						pos: position{line: 817, col: 5, offset: 26524},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 817, col: 5, offset: 26523},
+																								pos:   position{line: 817, col: 5, offset: 26524},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 817, col: 16, offset: 26534},
+																									pos: position{line: 817, col: 16, offset: 26535},
 																									run: (*parser).callonDocumentFragment1057,
 																									expr: &seqExpr{
-																										pos: position{line: 817, col: 16, offset: 26534},
+																										pos: position{line: 817, col: 16, offset: 26535},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 817, col: 16, offset: 26534},
+																												pos:        position{line: 817, col: 16, offset: 26535},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 817, col: 23, offset: 26541},
+																												pos: position{line: 817, col: 23, offset: 26542},
 																												expr: &litMatcher{
-																													pos:        position{line: 817, col: 23, offset: 26541},
+																													pos:        position{line: 817, col: 23, offset: 26542},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -8820,12 +8820,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 819, col: 8, offset: 26625},
+																								pos: position{line: 819, col: 8, offset: 26626},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92410},
+																									pos: position{line: 2922, col: 10, offset: 92411},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92410},
+																										pos:        position{line: 2922, col: 10, offset: 92411},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8834,28 +8834,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92808},
+																								pos: position{line: 2944, col: 8, offset: 92809},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92581},
+																										pos: position{line: 2931, col: 12, offset: 92582},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92582},
+																											pos: position{line: 2931, col: 13, offset: 92583},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92582},
+																													pos:        position{line: 2931, col: 13, offset: 92583},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92589},
+																													pos:        position{line: 2931, col: 20, offset: 92590},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92598},
+																													pos:        position{line: 2931, col: 29, offset: 92599},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8864,9 +8864,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92758},
+																										pos: position{line: 2941, col: 8, offset: 92759},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92759,
+																											line: 2941, col: 9, offset: 92760,
 																										},
 																									},
 																								},
@@ -8876,15 +8876,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1099, col: 5, offset: 33974},
+																				pos: position{line: 1099, col: 5, offset: 33975},
 																				run: (*parser).callonDocumentFragment1073,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92758},
+																		pos: position{line: 2941, col: 8, offset: 92759},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92759,
+																			line: 2941, col: 9, offset: 92760,
 																		},
 																	},
 																},
@@ -8895,52 +8895,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2767, col: 18, offset: 88000},
+											pos: position{line: 2767, col: 18, offset: 88001},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2767, col: 18, offset: 88000},
+												pos: position{line: 2767, col: 18, offset: 88001},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2768, col: 9, offset: 88010},
+														pos: position{line: 2768, col: 9, offset: 88011},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2768, col: 9, offset: 88010},
+																pos:        position{line: 2768, col: 9, offset: 88011},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2769, col: 11, offset: 88046},
+																pos:        position{line: 2769, col: 11, offset: 88047},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2769, col: 19, offset: 88054},
+																pos:        position{line: 2769, col: 19, offset: 88055},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2769, col: 29, offset: 88064},
+																pos:        position{line: 2769, col: 29, offset: 88065},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2769, col: 37, offset: 88072},
+																pos:        position{line: 2769, col: 37, offset: 88073},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2769, col: 47, offset: 88082},
+																pos:        position{line: 2769, col: 47, offset: 88083},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2769, col: 55, offset: 88090},
+																pos:        position{line: 2769, col: 55, offset: 88091},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -8948,12 +8948,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2770, col: 11, offset: 88148},
+														pos: position{line: 2770, col: 11, offset: 88149},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92410},
+															pos: position{line: 2922, col: 10, offset: 92411},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92410},
+																pos:        position{line: 2922, col: 10, offset: 92411},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -8962,28 +8962,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92808},
+														pos: position{line: 2944, col: 8, offset: 92809},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92581},
+																pos: position{line: 2931, col: 12, offset: 92582},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92582},
+																	pos: position{line: 2931, col: 13, offset: 92583},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92582},
+																			pos:        position{line: 2931, col: 13, offset: 92583},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92589},
+																			pos:        position{line: 2931, col: 20, offset: 92590},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92598},
+																			pos:        position{line: 2931, col: 29, offset: 92599},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -8992,36 +8992,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92758},
+																pos: position{line: 2941, col: 8, offset: 92759},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92759,
+																	line: 2941, col: 9, offset: 92760,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92808},
+														pos: position{line: 2944, col: 8, offset: 92809},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92581},
+																pos: position{line: 2931, col: 12, offset: 92582},
 																run: (*parser).callonDocumentFragment1098,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92582},
+																	pos: position{line: 2931, col: 13, offset: 92583},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92582},
+																			pos:        position{line: 2931, col: 13, offset: 92583},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92589},
+																			pos:        position{line: 2931, col: 20, offset: 92590},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92598},
+																			pos:        position{line: 2931, col: 29, offset: 92599},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9030,9 +9030,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92758},
+																pos: position{line: 2941, col: 8, offset: 92759},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92759,
+																	line: 2941, col: 9, offset: 92760,
 																},
 															},
 														},
@@ -9045,24 +9045,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2651, col: 5, offset: 84757},
+											pos: position{line: 2651, col: 5, offset: 84758},
 											run: (*parser).callonDocumentFragment1106,
 											expr: &seqExpr{
-												pos: position{line: 2651, col: 5, offset: 84757},
+												pos: position{line: 2651, col: 5, offset: 84758},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2657, col: 19, offset: 84934},
+														pos:        position{line: 2657, col: 19, offset: 84935},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2657, col: 26, offset: 84941},
+														pos: position{line: 2657, col: 26, offset: 84942},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92410},
+															pos: position{line: 2922, col: 10, offset: 92411},
 															run: (*parser).callonDocumentFragment1110,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92410},
+																pos:        position{line: 2922, col: 10, offset: 92411},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9071,28 +9071,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92808},
+														pos: position{line: 2944, col: 8, offset: 92809},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92581},
+																pos: position{line: 2931, col: 12, offset: 92582},
 																run: (*parser).callonDocumentFragment1113,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92582},
+																	pos: position{line: 2931, col: 13, offset: 92583},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92582},
+																			pos:        position{line: 2931, col: 13, offset: 92583},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92589},
+																			pos:        position{line: 2931, col: 20, offset: 92590},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92598},
+																			pos:        position{line: 2931, col: 29, offset: 92599},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9101,40 +9101,40 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92758},
+																pos: position{line: 2941, col: 8, offset: 92759},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92759,
+																	line: 2941, col: 9, offset: 92760,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2652, col: 5, offset: 84781},
+														pos:   position{line: 2652, col: 5, offset: 84782},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2652, col: 11, offset: 84787},
+															pos: position{line: 2652, col: 11, offset: 84788},
 															expr: &choiceExpr{
-																pos: position{line: 2652, col: 12, offset: 84788},
+																pos: position{line: 2652, col: 12, offset: 84789},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 690, col: 14, offset: 22172},
+																		pos: position{line: 690, col: 14, offset: 22173},
 																		run: (*parser).callonDocumentFragment1123,
 																		expr: &seqExpr{
-																			pos: position{line: 690, col: 14, offset: 22172},
+																			pos: position{line: 690, col: 14, offset: 22173},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2939, col: 11, offset: 92744},
+																					pos: position{line: 2939, col: 11, offset: 92745},
 																					expr: &anyMatcher{
-																						line: 2939, col: 13, offset: 92746,
+																						line: 2939, col: 13, offset: 92747,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 690, col: 21, offset: 22179},
+																					pos: position{line: 690, col: 21, offset: 22180},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92410},
+																						pos: position{line: 2922, col: 10, offset: 92411},
 																						run: (*parser).callonDocumentFragment1128,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92410},
+																							pos:        position{line: 2922, col: 10, offset: 92411},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9143,28 +9143,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92808},
+																					pos: position{line: 2944, col: 8, offset: 92809},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92581},
+																							pos: position{line: 2931, col: 12, offset: 92582},
 																							run: (*parser).callonDocumentFragment1131,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92582},
+																								pos: position{line: 2931, col: 13, offset: 92583},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92582},
+																										pos:        position{line: 2931, col: 13, offset: 92583},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92589},
+																										pos:        position{line: 2931, col: 20, offset: 92590},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92598},
+																										pos:        position{line: 2931, col: 29, offset: 92599},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9173,9 +9173,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92758},
+																							pos: position{line: 2941, col: 8, offset: 92759},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92759,
+																								line: 2941, col: 9, offset: 92760,
 																							},
 																						},
 																					},
@@ -9184,36 +9184,36 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2525, col: 22, offset: 81188},
+																		pos: position{line: 2525, col: 22, offset: 81189},
 																		run: (*parser).callonDocumentFragment1138,
 																		expr: &seqExpr{
-																			pos: position{line: 2525, col: 22, offset: 81188},
+																			pos: position{line: 2525, col: 22, offset: 81189},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2530, col: 31, offset: 81438},
+																					pos:        position{line: 2530, col: 31, offset: 81439},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																				&notExpr{
-																					pos: position{line: 2530, col: 36, offset: 81443},
+																					pos: position{line: 2530, col: 36, offset: 81444},
 																					expr: &litMatcher{
-																						pos:        position{line: 2530, col: 37, offset: 81444},
+																						pos:        position{line: 2530, col: 37, offset: 81445},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2525, col: 49, offset: 81215},
+																					pos:   position{line: 2525, col: 49, offset: 81216},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2868, col: 13, offset: 90936},
+																						pos: position{line: 2868, col: 13, offset: 90937},
 																						run: (*parser).callonDocumentFragment1144,
 																						expr: &zeroOrMoreExpr{
-																							pos: position{line: 2868, col: 13, offset: 90936},
+																							pos: position{line: 2868, col: 13, offset: 90937},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 13, offset: 90936},
+																								pos:        position{line: 2868, col: 13, offset: 90937},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -9223,28 +9223,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92808},
+																					pos: position{line: 2944, col: 8, offset: 92809},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92581},
+																							pos: position{line: 2931, col: 12, offset: 92582},
 																							run: (*parser).callonDocumentFragment1148,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92582},
+																								pos: position{line: 2931, col: 13, offset: 92583},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92582},
+																										pos:        position{line: 2931, col: 13, offset: 92583},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92589},
+																										pos:        position{line: 2931, col: 20, offset: 92590},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92598},
+																										pos:        position{line: 2931, col: 29, offset: 92599},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9253,9 +9253,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92758},
+																							pos: position{line: 2941, col: 8, offset: 92759},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92759,
+																								line: 2941, col: 9, offset: 92760,
 																							},
 																						},
 																					},
@@ -9264,32 +9264,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2664, col: 5, offset: 85053},
+																		pos: position{line: 2664, col: 5, offset: 85054},
 																		run: (*parser).callonDocumentFragment1155,
 																		expr: &seqExpr{
-																			pos: position{line: 2664, col: 5, offset: 85053},
+																			pos: position{line: 2664, col: 5, offset: 85054},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2664, col: 5, offset: 85053},
+																					pos: position{line: 2664, col: 5, offset: 85054},
 																					expr: &choiceExpr{
-																						pos: position{line: 2661, col: 22, offset: 85014},
+																						pos: position{line: 2661, col: 22, offset: 85015},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2657, col: 19, offset: 84934},
+																								pos: position{line: 2657, col: 19, offset: 84935},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2657, col: 19, offset: 84934},
+																										pos:        position{line: 2657, col: 19, offset: 84935},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2657, col: 26, offset: 84941},
+																										pos: position{line: 2657, col: 26, offset: 84942},
 																										expr: &actionExpr{
-																											pos: position{line: 2922, col: 10, offset: 92410},
+																											pos: position{line: 2922, col: 10, offset: 92411},
 																											run: (*parser).callonDocumentFragment1162,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2922, col: 10, offset: 92410},
+																												pos:        position{line: 2922, col: 10, offset: 92411},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9298,28 +9298,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2944, col: 8, offset: 92808},
+																										pos: position{line: 2944, col: 8, offset: 92809},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2931, col: 12, offset: 92581},
+																												pos: position{line: 2931, col: 12, offset: 92582},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &choiceExpr{
-																													pos: position{line: 2931, col: 13, offset: 92582},
+																													pos: position{line: 2931, col: 13, offset: 92583},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2931, col: 13, offset: 92582},
+																															pos:        position{line: 2931, col: 13, offset: 92583},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2931, col: 20, offset: 92589},
+																															pos:        position{line: 2931, col: 20, offset: 92590},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2931, col: 29, offset: 92598},
+																															pos:        position{line: 2931, col: 29, offset: 92599},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9328,9 +9328,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2941, col: 8, offset: 92758},
+																												pos: position{line: 2941, col: 8, offset: 92759},
 																												expr: &anyMatcher{
-																													line: 2941, col: 9, offset: 92759,
+																													line: 2941, col: 9, offset: 92760,
 																												},
 																											},
 																										},
@@ -9338,59 +9338,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92758},
+																								pos: position{line: 2941, col: 8, offset: 92759},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92759,
+																									line: 2941, col: 9, offset: 92760,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2665, col: 5, offset: 85076},
+																					pos:   position{line: 2665, col: 5, offset: 85077},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2666, col: 9, offset: 85094},
+																						pos: position{line: 2666, col: 9, offset: 85095},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2666, col: 10, offset: 85095},
+																								pos: position{line: 2666, col: 10, offset: 85096},
 																								run: (*parser).callonDocumentFragment1176,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2666, col: 10, offset: 85095},
+																									pos:   position{line: 2666, col: 10, offset: 85096},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2666, col: 17, offset: 85102},
+																										pos: position{line: 2666, col: 17, offset: 85103},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2674, col: 21, offset: 85298},
+																												pos: position{line: 2674, col: 21, offset: 85299},
 																												run: (*parser).callonDocumentFragment1179,
 																												expr: &seqExpr{
-																													pos: position{line: 2674, col: 21, offset: 85298},
+																													pos: position{line: 2674, col: 21, offset: 85299},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2674, col: 21, offset: 85298},
+																															pos:   position{line: 2674, col: 21, offset: 85299},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2674, col: 27, offset: 85304},
+																																pos: position{line: 2674, col: 27, offset: 85305},
 																																expr: &actionExpr{
-																																	pos: position{line: 2679, col: 5, offset: 85379},
+																																	pos: position{line: 2679, col: 5, offset: 85380},
 																																	run: (*parser).callonDocumentFragment1183,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2679, col: 5, offset: 85379},
+																																		pos: position{line: 2679, col: 5, offset: 85380},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2679, col: 5, offset: 85379},
+																																				pos:        position{line: 2679, col: 5, offset: 85380},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2679, col: 9, offset: 85383},
+																																				pos: position{line: 2679, col: 9, offset: 85384},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2922, col: 10, offset: 92410},
+																																					pos: position{line: 2922, col: 10, offset: 92411},
 																																					run: (*parser).callonDocumentFragment1187,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2922, col: 10, offset: 92410},
+																																						pos:        position{line: 2922, col: 10, offset: 92411},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9399,21 +9399,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2679, col: 16, offset: 85390},
+																																				pos:   position{line: 2679, col: 16, offset: 85391},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2685, col: 5, offset: 85590},
+																																					pos: position{line: 2685, col: 5, offset: 85591},
 																																					run: (*parser).callonDocumentFragment1190,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2685, col: 5, offset: 85590},
+																																						pos:   position{line: 2685, col: 5, offset: 85591},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2685, col: 14, offset: 85599},
+																																							pos: position{line: 2685, col: 14, offset: 85600},
 																																							run: (*parser).callonDocumentFragment1192,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2685, col: 14, offset: 85599},
+																																								pos: position{line: 2685, col: 14, offset: 85600},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2685, col: 14, offset: 85599},
+																																									pos:        position{line: 2685, col: 14, offset: 85600},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9430,28 +9430,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2944, col: 8, offset: 92808},
+																															pos: position{line: 2944, col: 8, offset: 92809},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2931, col: 12, offset: 92581},
+																																	pos: position{line: 2931, col: 12, offset: 92582},
 																																	run: (*parser).callonDocumentFragment1196,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2931, col: 13, offset: 92582},
+																																		pos: position{line: 2931, col: 13, offset: 92583},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2931, col: 13, offset: 92582},
+																																				pos:        position{line: 2931, col: 13, offset: 92583},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2931, col: 20, offset: 92589},
+																																				pos:        position{line: 2931, col: 20, offset: 92590},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2931, col: 29, offset: 92598},
+																																				pos:        position{line: 2931, col: 29, offset: 92599},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9460,9 +9460,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2941, col: 8, offset: 92758},
+																																	pos: position{line: 2941, col: 8, offset: 92759},
 																																	expr: &anyMatcher{
-																																		line: 2941, col: 9, offset: 92759,
+																																		line: 2941, col: 9, offset: 92760,
 																																	},
 																																},
 																															},
@@ -9471,40 +9471,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2691, col: 24, offset: 85735},
+																												pos: position{line: 2691, col: 24, offset: 85736},
 																												run: (*parser).callonDocumentFragment1203,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2691, col: 24, offset: 85735},
+																													pos:   position{line: 2691, col: 24, offset: 85736},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2691, col: 30, offset: 85741},
+																														pos: position{line: 2691, col: 30, offset: 85742},
 																														expr: &actionExpr{
-																															pos: position{line: 2696, col: 5, offset: 85817},
+																															pos: position{line: 2696, col: 5, offset: 85818},
 																															run: (*parser).callonDocumentFragment1206,
 																															expr: &seqExpr{
-																																pos: position{line: 2696, col: 5, offset: 85817},
+																																pos: position{line: 2696, col: 5, offset: 85818},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2696, col: 5, offset: 85817},
+																																		pos: position{line: 2696, col: 5, offset: 85818},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2661, col: 22, offset: 85014},
+																																			pos: position{line: 2661, col: 22, offset: 85015},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2657, col: 19, offset: 84934},
+																																					pos: position{line: 2657, col: 19, offset: 84935},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2657, col: 19, offset: 84934},
+																																							pos:        position{line: 2657, col: 19, offset: 84935},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2657, col: 26, offset: 84941},
+																																							pos: position{line: 2657, col: 26, offset: 84942},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2922, col: 10, offset: 92410},
+																																								pos: position{line: 2922, col: 10, offset: 92411},
 																																								run: (*parser).callonDocumentFragment1213,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2922, col: 10, offset: 92410},
+																																									pos:        position{line: 2922, col: 10, offset: 92411},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9513,28 +9513,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2944, col: 8, offset: 92808},
+																																							pos: position{line: 2944, col: 8, offset: 92809},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2931, col: 12, offset: 92581},
+																																									pos: position{line: 2931, col: 12, offset: 92582},
 																																									run: (*parser).callonDocumentFragment1216,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2931, col: 13, offset: 92582},
+																																										pos: position{line: 2931, col: 13, offset: 92583},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2931, col: 13, offset: 92582},
+																																												pos:        position{line: 2931, col: 13, offset: 92583},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2931, col: 20, offset: 92589},
+																																												pos:        position{line: 2931, col: 20, offset: 92590},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2931, col: 29, offset: 92598},
+																																												pos:        position{line: 2931, col: 29, offset: 92599},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9543,9 +9543,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2941, col: 8, offset: 92758},
+																																									pos: position{line: 2941, col: 8, offset: 92759},
 																																									expr: &anyMatcher{
-																																										line: 2941, col: 9, offset: 92759,
+																																										line: 2941, col: 9, offset: 92760,
 																																									},
 																																								},
 																																							},
@@ -9553,35 +9553,35 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2941, col: 8, offset: 92758},
+																																					pos: position{line: 2941, col: 8, offset: 92759},
 																																					expr: &anyMatcher{
-																																						line: 2941, col: 9, offset: 92759,
+																																						line: 2941, col: 9, offset: 92760,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2697, col: 5, offset: 85840},
+																																		pos: position{line: 2697, col: 5, offset: 85841},
 																																		expr: &actionExpr{
-																																			pos: position{line: 690, col: 14, offset: 22172},
+																																			pos: position{line: 690, col: 14, offset: 22173},
 																																			run: (*parser).callonDocumentFragment1226,
 																																			expr: &seqExpr{
-																																				pos: position{line: 690, col: 14, offset: 22172},
+																																				pos: position{line: 690, col: 14, offset: 22173},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2939, col: 11, offset: 92744},
+																																						pos: position{line: 2939, col: 11, offset: 92745},
 																																						expr: &anyMatcher{
-																																							line: 2939, col: 13, offset: 92746,
+																																							line: 2939, col: 13, offset: 92747,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 690, col: 21, offset: 22179},
+																																						pos: position{line: 690, col: 21, offset: 22180},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2922, col: 10, offset: 92410},
+																																							pos: position{line: 2922, col: 10, offset: 92411},
 																																							run: (*parser).callonDocumentFragment1231,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2922, col: 10, offset: 92410},
+																																								pos:        position{line: 2922, col: 10, offset: 92411},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9590,28 +9590,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2944, col: 8, offset: 92808},
+																																						pos: position{line: 2944, col: 8, offset: 92809},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2931, col: 12, offset: 92581},
+																																								pos: position{line: 2931, col: 12, offset: 92582},
 																																								run: (*parser).callonDocumentFragment1234,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2931, col: 13, offset: 92582},
+																																									pos: position{line: 2931, col: 13, offset: 92583},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2931, col: 13, offset: 92582},
+																																											pos:        position{line: 2931, col: 13, offset: 92583},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2931, col: 20, offset: 92589},
+																																											pos:        position{line: 2931, col: 20, offset: 92590},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2931, col: 29, offset: 92598},
+																																											pos:        position{line: 2931, col: 29, offset: 92599},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9620,9 +9620,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2941, col: 8, offset: 92758},
+																																								pos: position{line: 2941, col: 8, offset: 92759},
 																																								expr: &anyMatcher{
-																																									line: 2941, col: 9, offset: 92759,
+																																									line: 2941, col: 9, offset: 92760,
 																																								},
 																																							},
 																																						},
@@ -9632,17 +9632,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2698, col: 5, offset: 85855},
+																																		pos:   position{line: 2698, col: 5, offset: 85856},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2698, col: 12, offset: 85862},
+																																			pos: position{line: 2698, col: 12, offset: 85863},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2722, col: 20, offset: 86485},
+																																				pos: position{line: 2722, col: 20, offset: 86486},
 																																				run: (*parser).callonDocumentFragment1243,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2722, col: 20, offset: 86485},
+																																					pos: position{line: 2722, col: 20, offset: 86486},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2722, col: 20, offset: 86485},
+																																						pos:        position{line: 2722, col: 20, offset: 86486},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9653,18 +9653,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2698, col: 31, offset: 85881},
+																																		pos:        position{line: 2698, col: 31, offset: 85882},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2698, col: 35, offset: 85885},
+																																		pos: position{line: 2698, col: 35, offset: 85886},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2922, col: 10, offset: 92410},
+																																			pos: position{line: 2922, col: 10, offset: 92411},
 																																			run: (*parser).callonDocumentFragment1248,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2922, col: 10, offset: 92410},
+																																				pos:        position{line: 2922, col: 10, offset: 92411},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9673,27 +9673,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2698, col: 42, offset: 85892},
+																																		pos: position{line: 2698, col: 42, offset: 85893},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2931, col: 12, offset: 92581},
+																																			pos: position{line: 2931, col: 12, offset: 92582},
 																																			run: (*parser).callonDocumentFragment1251,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2931, col: 13, offset: 92582},
+																																				pos: position{line: 2931, col: 13, offset: 92583},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2931, col: 13, offset: 92582},
+																																						pos:        position{line: 2931, col: 13, offset: 92583},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2931, col: 20, offset: 92589},
+																																						pos:        position{line: 2931, col: 20, offset: 92590},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2931, col: 29, offset: 92598},
+																																						pos:        position{line: 2931, col: 29, offset: 92599},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9703,57 +9703,57 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2698, col: 51, offset: 85901},
+																																		pos:   position{line: 2698, col: 51, offset: 85902},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2704, col: 5, offset: 86060},
+																																			pos: position{line: 2704, col: 5, offset: 86061},
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2705, col: 9, offset: 86070},
+																																				pos: position{line: 2705, col: 9, offset: 86071},
 																																				alternatives: []interface{}{
 																																					&actionExpr{
-																																						pos: position{line: 2705, col: 9, offset: 86070},
+																																						pos: position{line: 2705, col: 9, offset: 86071},
 																																						run: (*parser).callonDocumentFragment1259,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2705, col: 9, offset: 86070},
+																																							pos: position{line: 2705, col: 9, offset: 86071},
 																																							exprs: []interface{}{
 																																								&andCodeExpr{
-																																									pos: position{line: 2705, col: 9, offset: 86070},
+																																									pos: position{line: 2705, col: 9, offset: 86071},
 																																									run: (*parser).callonDocumentFragment1261,
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2708, col: 9, offset: 86139},
+																																									pos:   position{line: 2708, col: 9, offset: 86140},
 																																									label: "comment",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2525, col: 22, offset: 81188},
+																																										pos: position{line: 2525, col: 22, offset: 81189},
 																																										run: (*parser).callonDocumentFragment1263,
 																																										expr: &seqExpr{
-																																											pos: position{line: 2525, col: 22, offset: 81188},
+																																											pos: position{line: 2525, col: 22, offset: 81189},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2530, col: 31, offset: 81438},
+																																													pos:        position{line: 2530, col: 31, offset: 81439},
 																																													val:        "//",
 																																													ignoreCase: false,
 																																													want:       "\"//\"",
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2530, col: 36, offset: 81443},
+																																													pos: position{line: 2530, col: 36, offset: 81444},
 																																													expr: &litMatcher{
-																																														pos:        position{line: 2530, col: 37, offset: 81444},
+																																														pos:        position{line: 2530, col: 37, offset: 81445},
 																																														val:        "/",
 																																														ignoreCase: false,
 																																														want:       "\"/\"",
 																																													},
 																																												},
 																																												&labeledExpr{
-																																													pos:   position{line: 2525, col: 49, offset: 81215},
+																																													pos:   position{line: 2525, col: 49, offset: 81216},
 																																													label: "content",
 																																													expr: &actionExpr{
-																																														pos: position{line: 2868, col: 13, offset: 90936},
+																																														pos: position{line: 2868, col: 13, offset: 90937},
 																																														run: (*parser).callonDocumentFragment1269,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2868, col: 13, offset: 90936},
+																																															pos: position{line: 2868, col: 13, offset: 90937},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2868, col: 13, offset: 90936},
+																																																pos:        position{line: 2868, col: 13, offset: 90937},
 																																																val:        "[^\\r\\n]",
 																																																chars:      []rune{'\r', '\n'},
 																																																ignoreCase: false,
@@ -9763,28 +9763,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2944, col: 8, offset: 92808},
+																																													pos: position{line: 2944, col: 8, offset: 92809},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2931, col: 12, offset: 92581},
+																																															pos: position{line: 2931, col: 12, offset: 92582},
 																																															run: (*parser).callonDocumentFragment1273,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2931, col: 13, offset: 92582},
+																																																pos: position{line: 2931, col: 13, offset: 92583},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 13, offset: 92582},
+																																																		pos:        position{line: 2931, col: 13, offset: 92583},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 20, offset: 92589},
+																																																		pos:        position{line: 2931, col: 20, offset: 92590},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 29, offset: 92598},
+																																																		pos:        position{line: 2931, col: 29, offset: 92599},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -9793,9 +9793,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2941, col: 8, offset: 92758},
+																																															pos: position{line: 2941, col: 8, offset: 92759},
 																																															expr: &anyMatcher{
-																																																line: 2941, col: 9, offset: 92759,
+																																																line: 2941, col: 9, offset: 92760,
 																																															},
 																																														},
 																																													},
@@ -9808,32 +9808,32 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&actionExpr{
-																																						pos: position{line: 2712, col: 9, offset: 86229},
+																																						pos: position{line: 2712, col: 9, offset: 86230},
 																																						run: (*parser).callonDocumentFragment1280,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2712, col: 9, offset: 86229},
+																																							pos: position{line: 2712, col: 9, offset: 86230},
 																																							exprs: []interface{}{
 																																								&notExpr{
-																																									pos: position{line: 2712, col: 9, offset: 86229},
+																																									pos: position{line: 2712, col: 9, offset: 86230},
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2661, col: 22, offset: 85014},
+																																										pos: position{line: 2661, col: 22, offset: 85015},
 																																										alternatives: []interface{}{
 																																											&seqExpr{
-																																												pos: position{line: 2657, col: 19, offset: 84934},
+																																												pos: position{line: 2657, col: 19, offset: 84935},
 																																												exprs: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2657, col: 19, offset: 84934},
+																																														pos:        position{line: 2657, col: 19, offset: 84935},
 																																														val:        "|===",
 																																														ignoreCase: false,
 																																														want:       "\"|===\"",
 																																													},
 																																													&zeroOrMoreExpr{
-																																														pos: position{line: 2657, col: 26, offset: 84941},
+																																														pos: position{line: 2657, col: 26, offset: 84942},
 																																														expr: &actionExpr{
-																																															pos: position{line: 2922, col: 10, offset: 92410},
+																																															pos: position{line: 2922, col: 10, offset: 92411},
 																																															run: (*parser).callonDocumentFragment1287,
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2922, col: 10, offset: 92410},
+																																																pos:        position{line: 2922, col: 10, offset: 92411},
 																																																val:        "[\\t ]",
 																																																chars:      []rune{'\t', ' '},
 																																																ignoreCase: false,
@@ -9842,28 +9842,28 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&choiceExpr{
-																																														pos: position{line: 2944, col: 8, offset: 92808},
+																																														pos: position{line: 2944, col: 8, offset: 92809},
 																																														alternatives: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2931, col: 12, offset: 92581},
+																																																pos: position{line: 2931, col: 12, offset: 92582},
 																																																run: (*parser).callonDocumentFragment1290,
 																																																expr: &choiceExpr{
-																																																	pos: position{line: 2931, col: 13, offset: 92582},
+																																																	pos: position{line: 2931, col: 13, offset: 92583},
 																																																	alternatives: []interface{}{
 																																																		&litMatcher{
-																																																			pos:        position{line: 2931, col: 13, offset: 92582},
+																																																			pos:        position{line: 2931, col: 13, offset: 92583},
 																																																			val:        "\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2931, col: 20, offset: 92589},
+																																																			pos:        position{line: 2931, col: 20, offset: 92590},
 																																																			val:        "\r\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2931, col: 29, offset: 92598},
+																																																			pos:        position{line: 2931, col: 29, offset: 92599},
 																																																			val:        "\r",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\"",
@@ -9872,9 +9872,9 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&notExpr{
-																																																pos: position{line: 2941, col: 8, offset: 92758},
+																																																pos: position{line: 2941, col: 8, offset: 92759},
 																																																expr: &anyMatcher{
-																																																	line: 2941, col: 9, offset: 92759,
+																																																	line: 2941, col: 9, offset: 92760,
 																																																},
 																																															},
 																																														},
@@ -9882,35 +9882,35 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2941, col: 8, offset: 92758},
+																																												pos: position{line: 2941, col: 8, offset: 92759},
 																																												expr: &anyMatcher{
-																																													line: 2941, col: 9, offset: 92759,
+																																													line: 2941, col: 9, offset: 92760,
 																																												},
 																																											},
 																																										},
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2713, col: 9, offset: 86256},
+																																									pos: position{line: 2713, col: 9, offset: 86257},
 																																									expr: &actionExpr{
-																																										pos: position{line: 690, col: 14, offset: 22172},
+																																										pos: position{line: 690, col: 14, offset: 22173},
 																																										run: (*parser).callonDocumentFragment1300,
 																																										expr: &seqExpr{
-																																											pos: position{line: 690, col: 14, offset: 22172},
+																																											pos: position{line: 690, col: 14, offset: 22173},
 																																											exprs: []interface{}{
 																																												&andExpr{
-																																													pos: position{line: 2939, col: 11, offset: 92744},
+																																													pos: position{line: 2939, col: 11, offset: 92745},
 																																													expr: &anyMatcher{
-																																														line: 2939, col: 13, offset: 92746,
+																																														line: 2939, col: 13, offset: 92747,
 																																													},
 																																												},
 																																												&zeroOrMoreExpr{
-																																													pos: position{line: 690, col: 21, offset: 22179},
+																																													pos: position{line: 690, col: 21, offset: 22180},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2922, col: 10, offset: 92410},
+																																														pos: position{line: 2922, col: 10, offset: 92411},
 																																														run: (*parser).callonDocumentFragment1305,
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2922, col: 10, offset: 92410},
+																																															pos:        position{line: 2922, col: 10, offset: 92411},
 																																															val:        "[\\t ]",
 																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
@@ -9919,28 +9919,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2944, col: 8, offset: 92808},
+																																													pos: position{line: 2944, col: 8, offset: 92809},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2931, col: 12, offset: 92581},
+																																															pos: position{line: 2931, col: 12, offset: 92582},
 																																															run: (*parser).callonDocumentFragment1308,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2931, col: 13, offset: 92582},
+																																																pos: position{line: 2931, col: 13, offset: 92583},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 13, offset: 92582},
+																																																		pos:        position{line: 2931, col: 13, offset: 92583},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 20, offset: 92589},
+																																																		pos:        position{line: 2931, col: 20, offset: 92590},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 29, offset: 92598},
+																																																		pos:        position{line: 2931, col: 29, offset: 92599},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -9949,9 +9949,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2941, col: 8, offset: 92758},
+																																															pos: position{line: 2941, col: 8, offset: 92759},
 																																															expr: &anyMatcher{
-																																																line: 2941, col: 9, offset: 92759,
+																																																line: 2941, col: 9, offset: 92760,
 																																															},
 																																														},
 																																													},
@@ -9961,22 +9961,22 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2714, col: 9, offset: 86275},
+																																									pos: position{line: 2714, col: 9, offset: 86276},
 																																									expr: &seqExpr{
-																																										pos: position{line: 2714, col: 11, offset: 86277},
+																																										pos: position{line: 2714, col: 11, offset: 86278},
 																																										exprs: []interface{}{
 																																											&labeledExpr{
-																																												pos:   position{line: 2714, col: 11, offset: 86277},
+																																												pos:   position{line: 2714, col: 11, offset: 86278},
 																																												label: "format",
 																																												expr: &zeroOrOneExpr{
-																																													pos: position{line: 2714, col: 18, offset: 86284},
+																																													pos: position{line: 2714, col: 18, offset: 86285},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2722, col: 20, offset: 86485},
+																																														pos: position{line: 2722, col: 20, offset: 86486},
 																																														run: (*parser).callonDocumentFragment1319,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2722, col: 20, offset: 86485},
+																																															pos: position{line: 2722, col: 20, offset: 86486},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2722, col: 20, offset: 86485},
+																																																pos:        position{line: 2722, col: 20, offset: 86486},
 																																																val:        "[^ |\\r\\n]",
 																																																chars:      []rune{' ', '|', '\r', '\n'},
 																																																ignoreCase: false,
@@ -9987,7 +9987,7 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2714, col: 37, offset: 86303},
+																																												pos:        position{line: 2714, col: 37, offset: 86304},
 																																												val:        "|",
 																																												ignoreCase: false,
 																																												want:       "\"|\"",
@@ -9996,15 +9996,15 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2715, col: 9, offset: 86316},
+																																									pos:   position{line: 2715, col: 9, offset: 86317},
 																																									label: "content",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2715, col: 18, offset: 86325},
+																																										pos: position{line: 2715, col: 18, offset: 86326},
 																																										run: (*parser).callonDocumentFragment1324,
 																																										expr: &zeroOrMoreExpr{
-																																											pos: position{line: 2715, col: 18, offset: 86325},
+																																											pos: position{line: 2715, col: 18, offset: 86326},
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2715, col: 18, offset: 86325},
+																																												pos:        position{line: 2715, col: 18, offset: 86326},
 																																												val:        "[^|\\r\\n]",
 																																												chars:      []rune{'|', '\r', '\n'},
 																																												ignoreCase: false,
@@ -10014,30 +10014,30 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&zeroOrOneExpr{
-																																									pos: position{line: 2717, col: 12, offset: 86387},
+																																									pos: position{line: 2717, col: 12, offset: 86388},
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2944, col: 8, offset: 92808},
+																																										pos: position{line: 2944, col: 8, offset: 92809},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2931, col: 12, offset: 92581},
+																																												pos: position{line: 2931, col: 12, offset: 92582},
 																																												run: (*parser).callonDocumentFragment1329,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2931, col: 13, offset: 92582},
+																																													pos: position{line: 2931, col: 13, offset: 92583},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2931, col: 13, offset: 92582},
+																																															pos:        position{line: 2931, col: 13, offset: 92583},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2931, col: 20, offset: 92589},
+																																															pos:        position{line: 2931, col: 20, offset: 92590},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2931, col: 29, offset: 92598},
+																																															pos:        position{line: 2931, col: 29, offset: 92599},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -10046,9 +10046,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2941, col: 8, offset: 92758},
+																																												pos: position{line: 2941, col: 8, offset: 92759},
 																																												expr: &anyMatcher{
-																																													line: 2941, col: 9, offset: 92759,
+																																													line: 2941, col: 9, offset: 92760,
 																																												},
 																																											},
 																																										},
@@ -10072,24 +10072,24 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 690, col: 14, offset: 22172},
+																								pos: position{line: 690, col: 14, offset: 22173},
 																								run: (*parser).callonDocumentFragment1336,
 																								expr: &seqExpr{
-																									pos: position{line: 690, col: 14, offset: 22172},
+																									pos: position{line: 690, col: 14, offset: 22173},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2939, col: 11, offset: 92744},
+																											pos: position{line: 2939, col: 11, offset: 92745},
 																											expr: &anyMatcher{
-																												line: 2939, col: 13, offset: 92746,
+																												line: 2939, col: 13, offset: 92747,
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 690, col: 21, offset: 22179},
+																											pos: position{line: 690, col: 21, offset: 22180},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92410},
+																												pos: position{line: 2922, col: 10, offset: 92411},
 																												run: (*parser).callonDocumentFragment1341,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92410},
+																													pos:        position{line: 2922, col: 10, offset: 92411},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10098,28 +10098,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92808},
+																											pos: position{line: 2944, col: 8, offset: 92809},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92581},
+																													pos: position{line: 2931, col: 12, offset: 92582},
 																													run: (*parser).callonDocumentFragment1344,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92582},
+																														pos: position{line: 2931, col: 13, offset: 92583},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92582},
+																																pos:        position{line: 2931, col: 13, offset: 92583},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92589},
+																																pos:        position{line: 2931, col: 20, offset: 92590},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92598},
+																																pos:        position{line: 2931, col: 29, offset: 92599},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10128,9 +10128,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92758},
+																													pos: position{line: 2941, col: 8, offset: 92759},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92759,
+																														line: 2941, col: 9, offset: 92760,
 																													},
 																												},
 																											},
@@ -10149,24 +10149,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2661, col: 22, offset: 85014},
+														pos: position{line: 2661, col: 22, offset: 85015},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2657, col: 19, offset: 84934},
+																pos: position{line: 2657, col: 19, offset: 84935},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2657, col: 19, offset: 84934},
+																		pos:        position{line: 2657, col: 19, offset: 84935},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2657, col: 26, offset: 84941},
+																		pos: position{line: 2657, col: 26, offset: 84942},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92410},
+																			pos: position{line: 2922, col: 10, offset: 92411},
 																			run: (*parser).callonDocumentFragment1355,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92410},
+																				pos:        position{line: 2922, col: 10, offset: 92411},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10175,28 +10175,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92808},
+																		pos: position{line: 2944, col: 8, offset: 92809},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonDocumentFragment1358,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10205,9 +10205,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92758},
+																				pos: position{line: 2941, col: 8, offset: 92759},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92759,
+																					line: 2941, col: 9, offset: 92760,
 																				},
 																			},
 																		},
@@ -10215,9 +10215,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92758},
+																pos: position{line: 2941, col: 8, offset: 92759},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92759,
+																	line: 2941, col: 9, offset: 92760,
 																},
 															},
 														},
@@ -10226,36 +10226,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2525, col: 22, offset: 81188},
+											pos: position{line: 2525, col: 22, offset: 81189},
 											run: (*parser).callonDocumentFragment1367,
 											expr: &seqExpr{
-												pos: position{line: 2525, col: 22, offset: 81188},
+												pos: position{line: 2525, col: 22, offset: 81189},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2530, col: 31, offset: 81438},
+														pos:        position{line: 2530, col: 31, offset: 81439},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2530, col: 36, offset: 81443},
+														pos: position{line: 2530, col: 36, offset: 81444},
 														expr: &litMatcher{
-															pos:        position{line: 2530, col: 37, offset: 81444},
+															pos:        position{line: 2530, col: 37, offset: 81445},
 															val:        "/",
 															ignoreCase: false,
 															want:       "\"/\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2525, col: 49, offset: 81215},
+														pos:   position{line: 2525, col: 49, offset: 81216},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2868, col: 13, offset: 90936},
+															pos: position{line: 2868, col: 13, offset: 90937},
 															run: (*parser).callonDocumentFragment1373,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2868, col: 13, offset: 90936},
+																pos: position{line: 2868, col: 13, offset: 90937},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2868, col: 13, offset: 90936},
+																	pos:        position{line: 2868, col: 13, offset: 90937},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10265,28 +10265,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92808},
+														pos: position{line: 2944, col: 8, offset: 92809},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92581},
+																pos: position{line: 2931, col: 12, offset: 92582},
 																run: (*parser).callonDocumentFragment1377,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92582},
+																	pos: position{line: 2931, col: 13, offset: 92583},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92582},
+																			pos:        position{line: 2931, col: 13, offset: 92583},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92589},
+																			pos:        position{line: 2931, col: 20, offset: 92590},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92598},
+																			pos:        position{line: 2931, col: 29, offset: 92599},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10295,9 +10295,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92758},
+																pos: position{line: 2941, col: 8, offset: 92759},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92759,
+																	line: 2941, col: 9, offset: 92760,
 																},
 															},
 														},
@@ -10306,37 +10306,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1235, col: 5, offset: 38549},
+											pos: position{line: 1235, col: 5, offset: 38550},
 											run: (*parser).callonDocumentFragment1384,
 											expr: &seqExpr{
-												pos: position{line: 1235, col: 5, offset: 38549},
+												pos: position{line: 1235, col: 5, offset: 38550},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1235, col: 5, offset: 38549},
+														pos: position{line: 1235, col: 5, offset: 38550},
 														run: (*parser).callonDocumentFragment1386,
 													},
 													&labeledExpr{
-														pos:   position{line: 1238, col: 5, offset: 38607},
+														pos:   position{line: 1238, col: 5, offset: 38608},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1243, col: 20, offset: 38702},
+															pos: position{line: 1243, col: 20, offset: 38703},
 															run: (*parser).callonDocumentFragment1388,
 															expr: &seqExpr{
-																pos: position{line: 1243, col: 20, offset: 38702},
+																pos: position{line: 1243, col: 20, offset: 38703},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1247, col: 30, offset: 38874},
+																		pos:        position{line: 1247, col: 30, offset: 38875},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1247, col: 36, offset: 38880},
+																		pos: position{line: 1247, col: 36, offset: 38881},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92410},
+																			pos: position{line: 2922, col: 10, offset: 92411},
 																			run: (*parser).callonDocumentFragment1392,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92410},
+																				pos:        position{line: 2922, col: 10, offset: 92411},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10345,28 +10345,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92808},
+																		pos: position{line: 2944, col: 8, offset: 92809},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonDocumentFragment1395,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10375,46 +10375,46 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92758},
+																				pos: position{line: 2941, col: 8, offset: 92759},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92759,
+																					line: 2941, col: 9, offset: 92760,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1243, col: 45, offset: 38727},
+																		pos:   position{line: 1243, col: 45, offset: 38728},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1243, col: 53, offset: 38735},
+																			pos: position{line: 1243, col: 53, offset: 38736},
 																			expr: &actionExpr{
-																				pos: position{line: 1249, col: 27, offset: 38918},
+																				pos: position{line: 1249, col: 27, offset: 38919},
 																				run: (*parser).callonDocumentFragment1404,
 																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1249, col: 27, offset: 38918},
+																					pos: position{line: 1249, col: 27, offset: 38919},
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1249, col: 28, offset: 38919},
+																						pos: position{line: 1249, col: 28, offset: 38920},
 																						expr: &seqExpr{
-																							pos: position{line: 1249, col: 29, offset: 38920},
+																							pos: position{line: 1249, col: 29, offset: 38921},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 1249, col: 29, offset: 38920},
+																									pos: position{line: 1249, col: 29, offset: 38921},
 																									expr: &seqExpr{
-																										pos: position{line: 1247, col: 30, offset: 38874},
+																										pos: position{line: 1247, col: 30, offset: 38875},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 1247, col: 30, offset: 38874},
+																												pos:        position{line: 1247, col: 30, offset: 38875},
 																												val:        "---",
 																												ignoreCase: false,
 																												want:       "\"---\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 1247, col: 36, offset: 38880},
+																												pos: position{line: 1247, col: 36, offset: 38881},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92410},
+																													pos: position{line: 2922, col: 10, offset: 92411},
 																													run: (*parser).callonDocumentFragment1412,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92410},
+																														pos:        position{line: 2922, col: 10, offset: 92411},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10423,28 +10423,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92808},
+																												pos: position{line: 2944, col: 8, offset: 92809},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92581},
+																														pos: position{line: 2931, col: 12, offset: 92582},
 																														run: (*parser).callonDocumentFragment1415,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92582},
+																															pos: position{line: 2931, col: 13, offset: 92583},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92582},
+																																	pos:        position{line: 2931, col: 13, offset: 92583},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92589},
+																																	pos:        position{line: 2931, col: 20, offset: 92590},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92598},
+																																	pos:        position{line: 2931, col: 29, offset: 92599},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10453,9 +10453,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92758},
+																														pos: position{line: 2941, col: 8, offset: 92759},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92759,
+																															line: 2941, col: 9, offset: 92760,
 																														},
 																													},
 																												},
@@ -10464,7 +10464,7 @@ var g = &grammar{
 																									},
 																								},
 																								&anyMatcher{
-																									line: 1249, col: 55, offset: 38946,
+																									line: 1249, col: 55, offset: 38947,
 																								},
 																							},
 																						},
@@ -10474,18 +10474,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1247, col: 30, offset: 38874},
+																		pos:        position{line: 1247, col: 30, offset: 38875},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1247, col: 36, offset: 38880},
+																		pos: position{line: 1247, col: 36, offset: 38881},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92410},
+																			pos: position{line: 2922, col: 10, offset: 92411},
 																			run: (*parser).callonDocumentFragment1425,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92410},
+																				pos:        position{line: 2922, col: 10, offset: 92411},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10494,28 +10494,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92808},
+																		pos: position{line: 2944, col: 8, offset: 92809},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonDocumentFragment1428,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10524,9 +10524,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92758},
+																				pos: position{line: 2941, col: 8, offset: 92759},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92759,
+																					line: 2941, col: 9, offset: 92760,
 																				},
 																			},
 																		},
@@ -10576,27 +10576,27 @@ var g = &grammar{
 									pos: position{line: 284, col: 9, offset: 8489},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1211, col: 23, offset: 37655},
+											pos: position{line: 1211, col: 23, offset: 37656},
 											run: (*parser).callonDelimitedBlockElements7,
 											expr: &seqExpr{
-												pos: position{line: 1211, col: 23, offset: 37655},
+												pos: position{line: 1211, col: 23, offset: 37656},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1209, col: 32, offset: 37623},
+														pos:        position{line: 1209, col: 32, offset: 37624},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1211, col: 51, offset: 37683},
+														pos:   position{line: 1211, col: 51, offset: 37684},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1211, col: 56, offset: 37688},
+															pos: position{line: 1211, col: 56, offset: 37689},
 															run: (*parser).callonDelimitedBlockElements11,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1211, col: 56, offset: 37688},
+																pos: position{line: 1211, col: 56, offset: 37689},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1211, col: 56, offset: 37688},
+																	pos:        position{line: 1211, col: 56, offset: 37689},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -10606,7 +10606,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1209, col: 32, offset: 37623},
+														pos:        position{line: 1209, col: 32, offset: 37624},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -10623,9 +10623,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92758},
+							pos: position{line: 2941, col: 8, offset: 92759},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92759,
+								line: 2941, col: 9, offset: 92760,
 							},
 						},
 					},
@@ -10668,8 +10668,8 @@ var g = &grammar{
 											pos: position{line: 320, col: 28, offset: 9847},
 											expr: &charClassMatcher{
 												pos:        position{line: 320, col: 29, offset: 9848},
-												val:        "[-\\pL\\pN]",
-												chars:      []rune{'-'},
+												val:        "[_-\\pL\\pN]",
+												chars:      []rune{'_', '-'},
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
@@ -10697,12 +10697,12 @@ var g = &grammar{
 										pos: position{line: 307, col: 9, offset: 9333},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2926, col: 11, offset: 92471},
+												pos: position{line: 2926, col: 11, offset: 92472},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2926, col: 11, offset: 92471},
+													pos: position{line: 2926, col: 11, offset: 92472},
 													expr: &charClassMatcher{
-														pos:        position{line: 2926, col: 11, offset: 92471},
+														pos:        position{line: 2926, col: 11, offset: 92472},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10724,28 +10724,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92808},
+							pos: position{line: 2944, col: 8, offset: 92809},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92581},
+									pos: position{line: 2931, col: 12, offset: 92582},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92582},
+										pos: position{line: 2931, col: 13, offset: 92583},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92582},
+												pos:        position{line: 2931, col: 13, offset: 92583},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92589},
+												pos:        position{line: 2931, col: 20, offset: 92590},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92598},
+												pos:        position{line: 2931, col: 29, offset: 92599},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10754,9 +10754,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92758},
+									pos: position{line: 2941, col: 8, offset: 92759},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92759,
+										line: 2941, col: 9, offset: 92760,
 									},
 								},
 							},
@@ -10767,58 +10767,58 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeDeclarationValue",
-			pos:  position{line: 324, col: 1, offset: 9904},
+			pos:  position{line: 324, col: 1, offset: 9905},
 			expr: &actionExpr{
-				pos: position{line: 325, col: 5, offset: 9938},
+				pos: position{line: 325, col: 5, offset: 9939},
 				run: (*parser).callonAttributeDeclarationValue1,
 				expr: &seqExpr{
-					pos: position{line: 325, col: 5, offset: 9938},
+					pos: position{line: 325, col: 5, offset: 9939},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 325, col: 5, offset: 9938},
+							pos:   position{line: 325, col: 5, offset: 9939},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 325, col: 15, offset: 9948},
+								pos:  position{line: 325, col: 15, offset: 9949},
 								name: "AttributeDeclarationValueElements",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 326, col: 5, offset: 9988},
+							pos:   position{line: 326, col: 5, offset: 9989},
 							label: "otherElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 326, col: 19, offset: 10002},
+								pos: position{line: 326, col: 19, offset: 10003},
 								expr: &actionExpr{
-									pos: position{line: 327, col: 9, offset: 10012},
+									pos: position{line: 327, col: 9, offset: 10013},
 									run: (*parser).callonAttributeDeclarationValue7,
 									expr: &seqExpr{
-										pos: position{line: 327, col: 9, offset: 10012},
+										pos: position{line: 327, col: 9, offset: 10013},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 327, col: 9, offset: 10012},
+												pos:        position{line: 327, col: 9, offset: 10013},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2931, col: 12, offset: 92581},
+												pos: position{line: 2931, col: 12, offset: 92582},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2931, col: 13, offset: 92582},
+													pos: position{line: 2931, col: 13, offset: 92583},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2931, col: 13, offset: 92582},
+															pos:        position{line: 2931, col: 13, offset: 92583},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2931, col: 20, offset: 92589},
+															pos:        position{line: 2931, col: 20, offset: 92590},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2931, col: 29, offset: 92598},
+															pos:        position{line: 2931, col: 29, offset: 92599},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10827,12 +10827,12 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 328, col: 9, offset: 10034},
+												pos: position{line: 328, col: 9, offset: 10035},
 												expr: &actionExpr{
-													pos: position{line: 2922, col: 10, offset: 92410},
+													pos: position{line: 2922, col: 10, offset: 92411},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2922, col: 10, offset: 92410},
+														pos:        position{line: 2922, col: 10, offset: 92411},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10841,10 +10841,10 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 329, col: 9, offset: 10049},
+												pos:   position{line: 329, col: 9, offset: 10050},
 												label: "elements",
 												expr: &ruleRefExpr{
-													pos:  position{line: 329, col: 19, offset: 10059},
+													pos:  position{line: 329, col: 19, offset: 10060},
 													name: "AttributeDeclarationValueElements",
 												},
 											},
@@ -10859,17 +10859,17 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeDeclarationValueElements",
-			pos:  position{line: 340, col: 1, offset: 10389},
+			pos:  position{line: 340, col: 1, offset: 10390},
 			expr: &actionExpr{
-				pos: position{line: 341, col: 5, offset: 10431},
+				pos: position{line: 341, col: 5, offset: 10432},
 				run: (*parser).callonAttributeDeclarationValueElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 341, col: 5, offset: 10431},
+					pos:   position{line: 341, col: 5, offset: 10432},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 341, col: 14, offset: 10440},
+						pos: position{line: 341, col: 14, offset: 10441},
 						expr: &ruleRefExpr{
-							pos:  position{line: 341, col: 15, offset: 10441},
+							pos:  position{line: 341, col: 15, offset: 10442},
 							name: "AttributeDeclarationValueElement",
 						},
 					},
@@ -10878,34 +10878,34 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeDeclarationValueElement",
-			pos:  position{line: 345, col: 1, offset: 10530},
+			pos:  position{line: 345, col: 1, offset: 10531},
 			expr: &actionExpr{
-				pos: position{line: 346, col: 5, offset: 10571},
+				pos: position{line: 346, col: 5, offset: 10572},
 				run: (*parser).callonAttributeDeclarationValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 346, col: 5, offset: 10571},
+					pos: position{line: 346, col: 5, offset: 10572},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 346, col: 5, offset: 10571},
+							pos: position{line: 346, col: 5, offset: 10572},
 							expr: &seqExpr{
-								pos: position{line: 346, col: 7, offset: 10573},
+								pos: position{line: 346, col: 7, offset: 10574},
 								exprs: []interface{}{
 									&zeroOrOneExpr{
-										pos: position{line: 346, col: 7, offset: 10573},
+										pos: position{line: 346, col: 7, offset: 10574},
 										expr: &litMatcher{
-											pos:        position{line: 346, col: 7, offset: 10573},
+											pos:        position{line: 346, col: 7, offset: 10574},
 											val:        "\\",
 											ignoreCase: false,
 											want:       "\"\\\\\"",
 										},
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 346, col: 13, offset: 10579},
+										pos: position{line: 346, col: 13, offset: 10580},
 										expr: &actionExpr{
-											pos: position{line: 2922, col: 10, offset: 92410},
+											pos: position{line: 2922, col: 10, offset: 92411},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2922, col: 10, offset: 92410},
+												pos:        position{line: 2922, col: 10, offset: 92411},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10914,28 +10914,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2944, col: 8, offset: 92808},
+										pos: position{line: 2944, col: 8, offset: 92809},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2931, col: 12, offset: 92581},
+												pos: position{line: 2931, col: 12, offset: 92582},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2931, col: 13, offset: 92582},
+													pos: position{line: 2931, col: 13, offset: 92583},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2931, col: 13, offset: 92582},
+															pos:        position{line: 2931, col: 13, offset: 92583},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2931, col: 20, offset: 92589},
+															pos:        position{line: 2931, col: 20, offset: 92590},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2931, col: 29, offset: 92598},
+															pos:        position{line: 2931, col: 29, offset: 92599},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10944,9 +10944,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2941, col: 8, offset: 92758},
+												pos: position{line: 2941, col: 8, offset: 92759},
 												expr: &anyMatcher{
-													line: 2941, col: 9, offset: 92759,
+													line: 2941, col: 9, offset: 92760,
 												},
 											},
 										},
@@ -10955,22 +10955,22 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 347, col: 5, offset: 10595},
+							pos:   position{line: 347, col: 5, offset: 10596},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 348, col: 9, offset: 10613},
+								pos: position{line: 348, col: 9, offset: 10614},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 348, col: 9, offset: 10613},
+										pos:  position{line: 348, col: 9, offset: 10614},
 										name: "InlinePassthrough",
 									},
 									&actionExpr{
-										pos: position{line: 349, col: 12, offset: 10642},
+										pos: position{line: 349, col: 12, offset: 10643},
 										run: (*parser).callonAttributeDeclarationValueElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 349, col: 12, offset: 10642},
+											pos: position{line: 349, col: 12, offset: 10643},
 											expr: &charClassMatcher{
-												pos:        position{line: 349, col: 12, offset: 10642},
+												pos:        position{line: 349, col: 12, offset: 10643},
 												val:        "[^\\r\\n<>&{ ]",
 												chars:      []rune{'\r', '\n', '<', '>', '&', '{', ' '},
 												ignoreCase: false,
@@ -10979,23 +10979,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 5, offset: 80734},
+										pos: position{line: 2512, col: 5, offset: 80735},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 5, offset: 80734},
+											pos: position{line: 2512, col: 5, offset: 80735},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 80734},
+													pos: position{line: 2512, col: 5, offset: 80735},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 5, offset: 80810},
+													pos:   position{line: 2515, col: 5, offset: 80811},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2516, col: 9, offset: 80828},
+														pos: position{line: 2516, col: 9, offset: 80829},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2516, col: 10, offset: 80829},
+															pos:        position{line: 2516, col: 10, offset: 80830},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -11007,10 +11007,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2922, col: 10, offset: 92410},
+										pos: position{line: 2922, col: 10, offset: 92411},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2922, col: 10, offset: 92410},
+											pos:        position{line: 2922, col: 10, offset: 92411},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11018,35 +11018,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 649, col: 5, offset: 20790},
+										pos: position{line: 649, col: 5, offset: 20791},
 										run: (*parser).callonAttributeDeclarationValueElement32,
 										expr: &seqExpr{
-											pos: position{line: 649, col: 5, offset: 20790},
+											pos: position{line: 649, col: 5, offset: 20791},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 649, col: 5, offset: 20790},
+													pos: position{line: 649, col: 5, offset: 20791},
 													run: (*parser).callonAttributeDeclarationValueElement34,
 												},
 												&labeledExpr{
-													pos:   position{line: 652, col: 5, offset: 20862},
+													pos:   position{line: 652, col: 5, offset: 20863},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 652, col: 14, offset: 20871},
+														pos: position{line: 652, col: 14, offset: 20872},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 658, col: 5, offset: 21000},
+																pos: position{line: 658, col: 5, offset: 21001},
 																run: (*parser).callonAttributeDeclarationValueElement37,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 5, offset: 21000},
+																	pos: position{line: 658, col: 5, offset: 21001},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 5, offset: 21000},
+																			pos:        position{line: 658, col: 5, offset: 21001},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 13, offset: 21008},
+																			pos:   position{line: 658, col: 13, offset: 21009},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -11066,8 +11066,8 @@ var g = &grammar{
 																							pos: position{line: 320, col: 28, offset: 9847},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 320, col: 29, offset: 9848},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -11078,7 +11078,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 32, offset: 21027},
+																			pos:        position{line: 658, col: 32, offset: 21028},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11087,19 +11087,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 665, col: 5, offset: 21268},
+																pos: position{line: 665, col: 5, offset: 21269},
 																run: (*parser).callonAttributeDeclarationValueElement47,
 																expr: &seqExpr{
-																	pos: position{line: 665, col: 5, offset: 21268},
+																	pos: position{line: 665, col: 5, offset: 21269},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 665, col: 5, offset: 21268},
+																			pos:        position{line: 665, col: 5, offset: 21269},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 665, col: 9, offset: 21272},
+																			pos:   position{line: 665, col: 9, offset: 21273},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -11119,8 +11119,8 @@ var g = &grammar{
 																							pos: position{line: 320, col: 28, offset: 9847},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 320, col: 29, offset: 9848},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -11131,7 +11131,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 665, col: 28, offset: 21291},
+																			pos:        position{line: 665, col: 28, offset: 21292},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11140,19 +11140,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 671, col: 25, offset: 21472},
+																pos: position{line: 671, col: 25, offset: 21473},
 																run: (*parser).callonAttributeDeclarationValueElement57,
 																expr: &seqExpr{
-																	pos: position{line: 671, col: 25, offset: 21472},
+																	pos: position{line: 671, col: 25, offset: 21473},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 671, col: 25, offset: 21472},
+																			pos:        position{line: 671, col: 25, offset: 21473},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 671, col: 37, offset: 21484},
+																			pos:   position{line: 671, col: 37, offset: 21485},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -11172,8 +11172,8 @@ var g = &grammar{
 																							pos: position{line: 320, col: 28, offset: 9847},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 320, col: 29, offset: 9848},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -11184,33 +11184,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 671, col: 56, offset: 21503},
+																			pos:   position{line: 671, col: 56, offset: 21504},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 671, col: 62, offset: 21509},
+																				pos: position{line: 671, col: 62, offset: 21510},
 																				expr: &actionExpr{
-																					pos: position{line: 679, col: 17, offset: 21806},
+																					pos: position{line: 679, col: 17, offset: 21807},
 																					run: (*parser).callonAttributeDeclarationValueElement68,
 																					expr: &seqExpr{
-																						pos: position{line: 679, col: 17, offset: 21806},
+																						pos: position{line: 679, col: 17, offset: 21807},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 679, col: 17, offset: 21806},
+																								pos:        position{line: 679, col: 17, offset: 21807},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 679, col: 21, offset: 21810},
+																								pos:   position{line: 679, col: 21, offset: 21811},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 679, col: 28, offset: 21817},
+																									pos: position{line: 679, col: 28, offset: 21818},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 679, col: 28, offset: 21817},
+																											pos: position{line: 679, col: 28, offset: 21818},
 																											run: (*parser).callonAttributeDeclarationValueElement73,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 679, col: 28, offset: 21817},
+																												pos:        position{line: 679, col: 28, offset: 21818},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11218,12 +11218,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 681, col: 9, offset: 21871},
+																											pos: position{line: 681, col: 9, offset: 21872},
 																											run: (*parser).callonAttributeDeclarationValueElement75,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 681, col: 9, offset: 21871},
+																												pos: position{line: 681, col: 9, offset: 21872},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 681, col: 9, offset: 21871},
+																													pos:        position{line: 681, col: 9, offset: 21872},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11240,7 +11240,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 671, col: 78, offset: 21525},
+																			pos:        position{line: 671, col: 78, offset: 21526},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11249,19 +11249,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 675, col: 25, offset: 21643},
+																pos: position{line: 675, col: 25, offset: 21644},
 																run: (*parser).callonAttributeDeclarationValueElement79,
 																expr: &seqExpr{
-																	pos: position{line: 675, col: 25, offset: 21643},
+																	pos: position{line: 675, col: 25, offset: 21644},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 675, col: 25, offset: 21643},
+																			pos:        position{line: 675, col: 25, offset: 21644},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 675, col: 38, offset: 21656},
+																			pos:   position{line: 675, col: 38, offset: 21657},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -11281,8 +11281,8 @@ var g = &grammar{
 																							pos: position{line: 320, col: 28, offset: 9847},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 320, col: 29, offset: 9848},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -11293,33 +11293,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 675, col: 57, offset: 21675},
+																			pos:   position{line: 675, col: 57, offset: 21676},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 675, col: 63, offset: 21681},
+																				pos: position{line: 675, col: 63, offset: 21682},
 																				expr: &actionExpr{
-																					pos: position{line: 679, col: 17, offset: 21806},
+																					pos: position{line: 679, col: 17, offset: 21807},
 																					run: (*parser).callonAttributeDeclarationValueElement90,
 																					expr: &seqExpr{
-																						pos: position{line: 679, col: 17, offset: 21806},
+																						pos: position{line: 679, col: 17, offset: 21807},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 679, col: 17, offset: 21806},
+																								pos:        position{line: 679, col: 17, offset: 21807},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 679, col: 21, offset: 21810},
+																								pos:   position{line: 679, col: 21, offset: 21811},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 679, col: 28, offset: 21817},
+																									pos: position{line: 679, col: 28, offset: 21818},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 679, col: 28, offset: 21817},
+																											pos: position{line: 679, col: 28, offset: 21818},
 																											run: (*parser).callonAttributeDeclarationValueElement95,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 679, col: 28, offset: 21817},
+																												pos:        position{line: 679, col: 28, offset: 21818},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11327,12 +11327,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 681, col: 9, offset: 21871},
+																											pos: position{line: 681, col: 9, offset: 21872},
 																											run: (*parser).callonAttributeDeclarationValueElement97,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 681, col: 9, offset: 21871},
+																												pos: position{line: 681, col: 9, offset: 21872},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 681, col: 9, offset: 21871},
+																													pos:        position{line: 681, col: 9, offset: 21872},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11349,7 +11349,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 675, col: 79, offset: 21697},
+																			pos:        position{line: 675, col: 79, offset: 21698},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11372,60 +11372,60 @@ var g = &grammar{
 		},
 		{
 			name: "BlockAttributes",
-			pos:  position{line: 371, col: 1, offset: 11461},
+			pos:  position{line: 371, col: 1, offset: 11462},
 			expr: &actionExpr{
-				pos: position{line: 372, col: 5, offset: 11484},
+				pos: position{line: 372, col: 5, offset: 11485},
 				run: (*parser).callonBlockAttributes1,
 				expr: &labeledExpr{
-					pos:   position{line: 372, col: 5, offset: 11484},
+					pos:   position{line: 372, col: 5, offset: 11485},
 					label: "attributes",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 372, col: 16, offset: 11495},
+						pos: position{line: 372, col: 16, offset: 11496},
 						expr: &choiceExpr{
-							pos: position{line: 374, col: 9, offset: 11562},
+							pos: position{line: 374, col: 9, offset: 11563},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 374, col: 10, offset: 11563},
+									pos: position{line: 374, col: 10, offset: 11564},
 									run: (*parser).callonBlockAttributes5,
 									expr: &seqExpr{
-										pos: position{line: 374, col: 10, offset: 11563},
+										pos: position{line: 374, col: 10, offset: 11564},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 374, col: 10, offset: 11563},
+												pos:   position{line: 374, col: 10, offset: 11564},
 												label: "anchor",
 												expr: &actionExpr{
-													pos: position{line: 406, col: 5, offset: 12506},
+													pos: position{line: 406, col: 5, offset: 12507},
 													run: (*parser).callonBlockAttributes8,
 													expr: &seqExpr{
-														pos: position{line: 406, col: 5, offset: 12506},
+														pos: position{line: 406, col: 5, offset: 12507},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 406, col: 5, offset: 12506},
+																pos:        position{line: 406, col: 5, offset: 12507},
 																val:        "[[",
 																ignoreCase: false,
 																want:       "\"[[\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 407, col: 5, offset: 12516},
+																pos:   position{line: 407, col: 5, offset: 12517},
 																label: "id",
 																expr: &actionExpr{
-																	pos: position{line: 408, col: 9, offset: 12529},
+																	pos: position{line: 408, col: 9, offset: 12530},
 																	run: (*parser).callonBlockAttributes12,
 																	expr: &labeledExpr{
-																		pos:   position{line: 408, col: 9, offset: 12529},
+																		pos:   position{line: 408, col: 9, offset: 12530},
 																		label: "elements",
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 408, col: 18, offset: 12538},
+																			pos: position{line: 408, col: 18, offset: 12539},
 																			expr: &choiceExpr{
-																				pos: position{line: 409, col: 13, offset: 12552},
+																				pos: position{line: 409, col: 13, offset: 12553},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 409, col: 14, offset: 12553},
+																						pos: position{line: 409, col: 14, offset: 12554},
 																						run: (*parser).callonBlockAttributes16,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 409, col: 14, offset: 12553},
+																							pos: position{line: 409, col: 14, offset: 12554},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 409, col: 14, offset: 12553},
+																								pos:        position{line: 409, col: 14, offset: 12554},
 																								val:        "[^=\\r\\n�{]]",
 																								chars:      []rune{'=', '\r', '\n', '�', '{', ']'},
 																								ignoreCase: false,
@@ -11434,27 +11434,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1211, col: 23, offset: 37655},
+																						pos: position{line: 1211, col: 23, offset: 37656},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1211, col: 23, offset: 37655},
+																							pos: position{line: 1211, col: 23, offset: 37656},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1209, col: 32, offset: 37623},
+																									pos:        position{line: 1209, col: 32, offset: 37624},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1211, col: 51, offset: 37683},
+																									pos:   position{line: 1211, col: 51, offset: 37684},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1211, col: 56, offset: 37688},
+																										pos: position{line: 1211, col: 56, offset: 37689},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1211, col: 56, offset: 37688},
+																											pos: position{line: 1211, col: 56, offset: 37689},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1211, col: 56, offset: 37688},
+																												pos:        position{line: 1211, col: 56, offset: 37689},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11464,7 +11464,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1209, col: 32, offset: 37623},
+																									pos:        position{line: 1209, col: 32, offset: 37624},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
@@ -11473,35 +11473,35 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 649, col: 5, offset: 20790},
+																						pos: position{line: 649, col: 5, offset: 20791},
 																						run: (*parser).callonBlockAttributes27,
 																						expr: &seqExpr{
-																							pos: position{line: 649, col: 5, offset: 20790},
+																							pos: position{line: 649, col: 5, offset: 20791},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 649, col: 5, offset: 20790},
+																									pos: position{line: 649, col: 5, offset: 20791},
 																									run: (*parser).callonBlockAttributes29,
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 5, offset: 20862},
+																									pos:   position{line: 652, col: 5, offset: 20863},
 																									label: "element",
 																									expr: &choiceExpr{
-																										pos: position{line: 652, col: 14, offset: 20871},
+																										pos: position{line: 652, col: 14, offset: 20872},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 658, col: 5, offset: 21000},
+																												pos: position{line: 658, col: 5, offset: 21001},
 																												run: (*parser).callonBlockAttributes32,
 																												expr: &seqExpr{
-																													pos: position{line: 658, col: 5, offset: 21000},
+																													pos: position{line: 658, col: 5, offset: 21001},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 658, col: 5, offset: 21000},
+																															pos:        position{line: 658, col: 5, offset: 21001},
 																															val:        "\\{",
 																															ignoreCase: false,
 																															want:       "\"\\\\{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 658, col: 13, offset: 21008},
+																															pos:   position{line: 658, col: 13, offset: 21009},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 320, col: 18, offset: 9837},
@@ -11521,8 +11521,8 @@ var g = &grammar{
 																																			pos: position{line: 320, col: 28, offset: 9847},
 																																			expr: &charClassMatcher{
 																																				pos:        position{line: 320, col: 29, offset: 9848},
-																																				val:        "[-\\pL\\pN]",
-																																				chars:      []rune{'-'},
+																																				val:        "[_-\\pL\\pN]",
+																																				chars:      []rune{'_', '-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																				ignoreCase: false,
 																																				inverted:   false,
@@ -11533,7 +11533,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 658, col: 32, offset: 21027},
+																															pos:        position{line: 658, col: 32, offset: 21028},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11542,19 +11542,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 665, col: 5, offset: 21268},
+																												pos: position{line: 665, col: 5, offset: 21269},
 																												run: (*parser).callonBlockAttributes42,
 																												expr: &seqExpr{
-																													pos: position{line: 665, col: 5, offset: 21268},
+																													pos: position{line: 665, col: 5, offset: 21269},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 665, col: 5, offset: 21268},
+																															pos:        position{line: 665, col: 5, offset: 21269},
 																															val:        "{",
 																															ignoreCase: false,
 																															want:       "\"{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 665, col: 9, offset: 21272},
+																															pos:   position{line: 665, col: 9, offset: 21273},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 320, col: 18, offset: 9837},
@@ -11574,8 +11574,8 @@ var g = &grammar{
 																																			pos: position{line: 320, col: 28, offset: 9847},
 																																			expr: &charClassMatcher{
 																																				pos:        position{line: 320, col: 29, offset: 9848},
-																																				val:        "[-\\pL\\pN]",
-																																				chars:      []rune{'-'},
+																																				val:        "[_-\\pL\\pN]",
+																																				chars:      []rune{'_', '-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																				ignoreCase: false,
 																																				inverted:   false,
@@ -11586,7 +11586,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 665, col: 28, offset: 21291},
+																															pos:        position{line: 665, col: 28, offset: 21292},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11595,19 +11595,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 671, col: 25, offset: 21472},
+																												pos: position{line: 671, col: 25, offset: 21473},
 																												run: (*parser).callonBlockAttributes52,
 																												expr: &seqExpr{
-																													pos: position{line: 671, col: 25, offset: 21472},
+																													pos: position{line: 671, col: 25, offset: 21473},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 671, col: 25, offset: 21472},
+																															pos:        position{line: 671, col: 25, offset: 21473},
 																															val:        "{counter:",
 																															ignoreCase: false,
 																															want:       "\"{counter:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 671, col: 37, offset: 21484},
+																															pos:   position{line: 671, col: 37, offset: 21485},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 320, col: 18, offset: 9837},
@@ -11627,8 +11627,8 @@ var g = &grammar{
 																																			pos: position{line: 320, col: 28, offset: 9847},
 																																			expr: &charClassMatcher{
 																																				pos:        position{line: 320, col: 29, offset: 9848},
-																																				val:        "[-\\pL\\pN]",
-																																				chars:      []rune{'-'},
+																																				val:        "[_-\\pL\\pN]",
+																																				chars:      []rune{'_', '-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																				ignoreCase: false,
 																																				inverted:   false,
@@ -11639,33 +11639,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 671, col: 56, offset: 21503},
+																															pos:   position{line: 671, col: 56, offset: 21504},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 671, col: 62, offset: 21509},
+																																pos: position{line: 671, col: 62, offset: 21510},
 																																expr: &actionExpr{
-																																	pos: position{line: 679, col: 17, offset: 21806},
+																																	pos: position{line: 679, col: 17, offset: 21807},
 																																	run: (*parser).callonBlockAttributes63,
 																																	expr: &seqExpr{
-																																		pos: position{line: 679, col: 17, offset: 21806},
+																																		pos: position{line: 679, col: 17, offset: 21807},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 679, col: 17, offset: 21806},
+																																				pos:        position{line: 679, col: 17, offset: 21807},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 679, col: 21, offset: 21810},
+																																				pos:   position{line: 679, col: 21, offset: 21811},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 679, col: 28, offset: 21817},
+																																					pos: position{line: 679, col: 28, offset: 21818},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 679, col: 28, offset: 21817},
+																																							pos: position{line: 679, col: 28, offset: 21818},
 																																							run: (*parser).callonBlockAttributes68,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 679, col: 28, offset: 21817},
+																																								pos:        position{line: 679, col: 28, offset: 21818},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11673,12 +11673,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 681, col: 9, offset: 21871},
+																																							pos: position{line: 681, col: 9, offset: 21872},
 																																							run: (*parser).callonBlockAttributes70,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 681, col: 9, offset: 21871},
+																																								pos: position{line: 681, col: 9, offset: 21872},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 681, col: 9, offset: 21871},
+																																									pos:        position{line: 681, col: 9, offset: 21872},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11695,7 +11695,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 671, col: 78, offset: 21525},
+																															pos:        position{line: 671, col: 78, offset: 21526},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11704,19 +11704,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 675, col: 25, offset: 21643},
+																												pos: position{line: 675, col: 25, offset: 21644},
 																												run: (*parser).callonBlockAttributes74,
 																												expr: &seqExpr{
-																													pos: position{line: 675, col: 25, offset: 21643},
+																													pos: position{line: 675, col: 25, offset: 21644},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 675, col: 25, offset: 21643},
+																															pos:        position{line: 675, col: 25, offset: 21644},
 																															val:        "{counter2:",
 																															ignoreCase: false,
 																															want:       "\"{counter2:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 675, col: 38, offset: 21656},
+																															pos:   position{line: 675, col: 38, offset: 21657},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 320, col: 18, offset: 9837},
@@ -11736,8 +11736,8 @@ var g = &grammar{
 																																			pos: position{line: 320, col: 28, offset: 9847},
 																																			expr: &charClassMatcher{
 																																				pos:        position{line: 320, col: 29, offset: 9848},
-																																				val:        "[-\\pL\\pN]",
-																																				chars:      []rune{'-'},
+																																				val:        "[_-\\pL\\pN]",
+																																				chars:      []rune{'_', '-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																				ignoreCase: false,
 																																				inverted:   false,
@@ -11748,33 +11748,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 675, col: 57, offset: 21675},
+																															pos:   position{line: 675, col: 57, offset: 21676},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 675, col: 63, offset: 21681},
+																																pos: position{line: 675, col: 63, offset: 21682},
 																																expr: &actionExpr{
-																																	pos: position{line: 679, col: 17, offset: 21806},
+																																	pos: position{line: 679, col: 17, offset: 21807},
 																																	run: (*parser).callonBlockAttributes85,
 																																	expr: &seqExpr{
-																																		pos: position{line: 679, col: 17, offset: 21806},
+																																		pos: position{line: 679, col: 17, offset: 21807},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 679, col: 17, offset: 21806},
+																																				pos:        position{line: 679, col: 17, offset: 21807},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 679, col: 21, offset: 21810},
+																																				pos:   position{line: 679, col: 21, offset: 21811},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 679, col: 28, offset: 21817},
+																																					pos: position{line: 679, col: 28, offset: 21818},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 679, col: 28, offset: 21817},
+																																							pos: position{line: 679, col: 28, offset: 21818},
 																																							run: (*parser).callonBlockAttributes90,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 679, col: 28, offset: 21817},
+																																								pos:        position{line: 679, col: 28, offset: 21818},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11782,12 +11782,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 681, col: 9, offset: 21871},
+																																							pos: position{line: 681, col: 9, offset: 21872},
 																																							run: (*parser).callonBlockAttributes92,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 681, col: 9, offset: 21871},
+																																								pos: position{line: 681, col: 9, offset: 21872},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 681, col: 9, offset: 21871},
+																																									pos:        position{line: 681, col: 9, offset: 21872},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11804,7 +11804,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 675, col: 79, offset: 21697},
+																															pos:        position{line: 675, col: 79, offset: 21698},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11819,10 +11819,10 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 414, col: 16, offset: 12786},
+																						pos: position{line: 414, col: 16, offset: 12787},
 																						run: (*parser).callonBlockAttributes96,
 																						expr: &litMatcher{
-																							pos:        position{line: 414, col: 16, offset: 12786},
+																							pos:        position{line: 414, col: 16, offset: 12787},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
@@ -11835,7 +11835,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 420, col: 5, offset: 12972},
+																pos:        position{line: 420, col: 5, offset: 12973},
 																val:        "]]",
 																ignoreCase: false,
 																want:       "\"]]\"",
@@ -11845,12 +11845,12 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 374, col: 35, offset: 11588},
+												pos: position{line: 374, col: 35, offset: 11589},
 												expr: &actionExpr{
-													pos: position{line: 2922, col: 10, offset: 92410},
+													pos: position{line: 2922, col: 10, offset: 92411},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2922, col: 10, offset: 92410},
+														pos:        position{line: 2922, col: 10, offset: 92411},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11859,28 +11859,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2944, col: 8, offset: 92808},
+												pos: position{line: 2944, col: 8, offset: 92809},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2931, col: 12, offset: 92581},
+														pos: position{line: 2931, col: 12, offset: 92582},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2931, col: 13, offset: 92582},
+															pos: position{line: 2931, col: 13, offset: 92583},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2931, col: 13, offset: 92582},
+																	pos:        position{line: 2931, col: 13, offset: 92583},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 20, offset: 92589},
+																	pos:        position{line: 2931, col: 20, offset: 92590},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 29, offset: 92598},
+																	pos:        position{line: 2931, col: 29, offset: 92599},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11889,37 +11889,37 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2941, col: 8, offset: 92758},
+														pos: position{line: 2941, col: 8, offset: 92759},
 														expr: &anyMatcher{
-															line: 2941, col: 9, offset: 92759,
+															line: 2941, col: 9, offset: 92760,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 374, col: 46, offset: 11599},
+												pos: position{line: 374, col: 46, offset: 11600},
 												expr: &choiceExpr{
-													pos: position{line: 374, col: 47, offset: 11600},
+													pos: position{line: 374, col: 47, offset: 11601},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 690, col: 14, offset: 22172},
+															pos: position{line: 690, col: 14, offset: 22173},
 															run: (*parser).callonBlockAttributes112,
 															expr: &seqExpr{
-																pos: position{line: 690, col: 14, offset: 22172},
+																pos: position{line: 690, col: 14, offset: 22173},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2939, col: 11, offset: 92744},
+																		pos: position{line: 2939, col: 11, offset: 92745},
 																		expr: &anyMatcher{
-																			line: 2939, col: 13, offset: 92746,
+																			line: 2939, col: 13, offset: 92747,
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 690, col: 21, offset: 22179},
+																		pos: position{line: 690, col: 21, offset: 22180},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92410},
+																			pos: position{line: 2922, col: 10, offset: 92411},
 																			run: (*parser).callonBlockAttributes117,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92410},
+																				pos:        position{line: 2922, col: 10, offset: 92411},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -11928,28 +11928,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92808},
+																		pos: position{line: 2944, col: 8, offset: 92809},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonBlockAttributes120,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -11958,9 +11958,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92758},
+																				pos: position{line: 2941, col: 8, offset: 92759},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92759,
+																					line: 2941, col: 9, offset: 92760,
 																				},
 																			},
 																		},
@@ -11969,36 +11969,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81188},
+															pos: position{line: 2525, col: 22, offset: 81189},
 															run: (*parser).callonBlockAttributes127,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81188},
+																pos: position{line: 2525, col: 22, offset: 81189},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81438},
+																		pos:        position{line: 2530, col: 31, offset: 81439},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81443},
+																		pos: position{line: 2530, col: 36, offset: 81444},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81444},
+																			pos:        position{line: 2530, col: 37, offset: 81445},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81215},
+																		pos:   position{line: 2525, col: 49, offset: 81216},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 13, offset: 90936},
+																			pos: position{line: 2868, col: 13, offset: 90937},
 																			run: (*parser).callonBlockAttributes133,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2868, col: 13, offset: 90936},
+																				pos: position{line: 2868, col: 13, offset: 90937},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 13, offset: 90936},
+																					pos:        position{line: 2868, col: 13, offset: 90937},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12008,28 +12008,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92808},
+																		pos: position{line: 2944, col: 8, offset: 92809},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12038,9 +12038,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92758},
+																				pos: position{line: 2941, col: 8, offset: 92759},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92759,
+																					line: 2941, col: 9, offset: 92760,
 																				},
 																			},
 																		},
@@ -12055,30 +12055,30 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 378, col: 12, offset: 11742},
+									pos: position{line: 378, col: 12, offset: 11743},
 									run: (*parser).callonBlockAttributes144,
 									expr: &seqExpr{
-										pos: position{line: 378, col: 12, offset: 11742},
+										pos: position{line: 378, col: 12, offset: 11743},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 378, col: 12, offset: 11742},
+												pos:   position{line: 378, col: 12, offset: 11743},
 												label: "title",
 												expr: &actionExpr{
-													pos: position{line: 425, col: 19, offset: 13091},
+													pos: position{line: 425, col: 19, offset: 13092},
 													run: (*parser).callonBlockAttributes147,
 													expr: &seqExpr{
-														pos: position{line: 425, col: 19, offset: 13091},
+														pos: position{line: 425, col: 19, offset: 13092},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 425, col: 19, offset: 13091},
+																pos:        position{line: 425, col: 19, offset: 13092},
 																val:        ".",
 																ignoreCase: false,
 																want:       "\".\"",
 															},
 															&notExpr{
-																pos: position{line: 426, col: 5, offset: 13100},
+																pos: position{line: 426, col: 5, offset: 13101},
 																expr: &charClassMatcher{
-																	pos:        position{line: 426, col: 6, offset: 13101},
+																	pos:        position{line: 426, col: 6, offset: 13102},
 																	val:        "[. ]",
 																	chars:      []rune{'.', ' '},
 																	ignoreCase: false,
@@ -12086,20 +12086,20 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 427, col: 5, offset: 13213},
+																pos:   position{line: 427, col: 5, offset: 13214},
 																label: "elements",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 427, col: 14, offset: 13222},
+																	pos: position{line: 427, col: 14, offset: 13223},
 																	expr: &choiceExpr{
-																		pos: position{line: 428, col: 9, offset: 13232},
+																		pos: position{line: 428, col: 9, offset: 13233},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2816, col: 14, offset: 89579},
+																				pos: position{line: 2816, col: 14, offset: 89580},
 																				run: (*parser).callonBlockAttributes155,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2816, col: 14, offset: 89579},
+																					pos: position{line: 2816, col: 14, offset: 89580},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2816, col: 14, offset: 89579},
+																						pos:        position{line: 2816, col: 14, offset: 89580},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12108,10 +12108,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92410},
+																				pos: position{line: 2922, col: 10, offset: 92411},
 																				run: (*parser).callonBlockAttributes158,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92410},
+																					pos:        position{line: 2922, col: 10, offset: 92411},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12119,27 +12119,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2839, col: 5, offset: 90064},
+																				pos: position{line: 2839, col: 5, offset: 90065},
 																				run: (*parser).callonBlockAttributes160,
 																				expr: &choiceExpr{
-																					pos: position{line: 2840, col: 9, offset: 90074},
+																					pos: position{line: 2840, col: 9, offset: 90075},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2840, col: 10, offset: 90075},
+																							pos:        position{line: 2840, col: 10, offset: 90076},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2842, col: 13, offset: 90172},
+																							pos: position{line: 2842, col: 13, offset: 90173},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2842, col: 13, offset: 90172},
+																									pos: position{line: 2842, col: 13, offset: 90173},
 																									run: (*parser).callonBlockAttributes164,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2845, col: 13, offset: 90272},
+																									pos:        position{line: 2845, col: 13, offset: 90273},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12147,20 +12147,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2845, col: 19, offset: 90278},
+																							pos:        position{line: 2845, col: 19, offset: 90279},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2848, col: 13, offset: 90316},
+																							pos: position{line: 2848, col: 13, offset: 90317},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2848, col: 13, offset: 90316},
+																									pos: position{line: 2848, col: 13, offset: 90317},
 																									run: (*parser).callonBlockAttributes168,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2851, col: 14, offset: 90409},
+																									pos:        position{line: 2851, col: 14, offset: 90410},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12169,18 +12169,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2853, col: 12, offset: 90453},
+																							pos: position{line: 2853, col: 12, offset: 90454},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2853, col: 12, offset: 90453},
+																									pos:        position{line: 2853, col: 12, offset: 90454},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2853, col: 16, offset: 90457},
+																									pos: position{line: 2853, col: 16, offset: 90458},
 																									expr: &litMatcher{
-																										pos:        position{line: 2853, col: 17, offset: 90458},
+																										pos:        position{line: 2853, col: 17, offset: 90459},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12192,19 +12192,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 658, col: 5, offset: 21000},
+																				pos: position{line: 658, col: 5, offset: 21001},
 																				run: (*parser).callonBlockAttributes174,
 																				expr: &seqExpr{
-																					pos: position{line: 658, col: 5, offset: 21000},
+																					pos: position{line: 658, col: 5, offset: 21001},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 658, col: 5, offset: 21000},
+																							pos:        position{line: 658, col: 5, offset: 21001},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 658, col: 13, offset: 21008},
+																							pos:   position{line: 658, col: 13, offset: 21009},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -12224,8 +12224,8 @@ var g = &grammar{
 																											pos: position{line: 320, col: 28, offset: 9847},
 																											expr: &charClassMatcher{
 																												pos:        position{line: 320, col: 29, offset: 9848},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -12236,7 +12236,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 658, col: 32, offset: 21027},
+																							pos:        position{line: 658, col: 32, offset: 21028},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12245,19 +12245,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 665, col: 5, offset: 21268},
+																				pos: position{line: 665, col: 5, offset: 21269},
 																				run: (*parser).callonBlockAttributes184,
 																				expr: &seqExpr{
-																					pos: position{line: 665, col: 5, offset: 21268},
+																					pos: position{line: 665, col: 5, offset: 21269},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 665, col: 5, offset: 21268},
+																							pos:        position{line: 665, col: 5, offset: 21269},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 665, col: 9, offset: 21272},
+																							pos:   position{line: 665, col: 9, offset: 21273},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -12277,8 +12277,8 @@ var g = &grammar{
 																											pos: position{line: 320, col: 28, offset: 9847},
 																											expr: &charClassMatcher{
 																												pos:        position{line: 320, col: 29, offset: 9848},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -12289,7 +12289,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 665, col: 28, offset: 21291},
+																							pos:        position{line: 665, col: 28, offset: 21292},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12298,19 +12298,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 671, col: 25, offset: 21472},
+																				pos: position{line: 671, col: 25, offset: 21473},
 																				run: (*parser).callonBlockAttributes194,
 																				expr: &seqExpr{
-																					pos: position{line: 671, col: 25, offset: 21472},
+																					pos: position{line: 671, col: 25, offset: 21473},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 671, col: 25, offset: 21472},
+																							pos:        position{line: 671, col: 25, offset: 21473},
 																							val:        "{counter:",
 																							ignoreCase: false,
 																							want:       "\"{counter:\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 671, col: 37, offset: 21484},
+																							pos:   position{line: 671, col: 37, offset: 21485},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -12330,8 +12330,8 @@ var g = &grammar{
 																											pos: position{line: 320, col: 28, offset: 9847},
 																											expr: &charClassMatcher{
 																												pos:        position{line: 320, col: 29, offset: 9848},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -12342,33 +12342,33 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 671, col: 56, offset: 21503},
+																							pos:   position{line: 671, col: 56, offset: 21504},
 																							label: "start",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 671, col: 62, offset: 21509},
+																								pos: position{line: 671, col: 62, offset: 21510},
 																								expr: &actionExpr{
-																									pos: position{line: 679, col: 17, offset: 21806},
+																									pos: position{line: 679, col: 17, offset: 21807},
 																									run: (*parser).callonBlockAttributes205,
 																									expr: &seqExpr{
-																										pos: position{line: 679, col: 17, offset: 21806},
+																										pos: position{line: 679, col: 17, offset: 21807},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 679, col: 17, offset: 21806},
+																												pos:        position{line: 679, col: 17, offset: 21807},
 																												val:        ":",
 																												ignoreCase: false,
 																												want:       "\":\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 679, col: 21, offset: 21810},
+																												pos:   position{line: 679, col: 21, offset: 21811},
 																												label: "start",
 																												expr: &choiceExpr{
-																													pos: position{line: 679, col: 28, offset: 21817},
+																													pos: position{line: 679, col: 28, offset: 21818},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 679, col: 28, offset: 21817},
+																															pos: position{line: 679, col: 28, offset: 21818},
 																															run: (*parser).callonBlockAttributes210,
 																															expr: &charClassMatcher{
-																																pos:        position{line: 679, col: 28, offset: 21817},
+																																pos:        position{line: 679, col: 28, offset: 21818},
 																																val:        "[A-Za-z]",
 																																ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																ignoreCase: false,
@@ -12376,12 +12376,12 @@ var g = &grammar{
 																															},
 																														},
 																														&actionExpr{
-																															pos: position{line: 681, col: 9, offset: 21871},
+																															pos: position{line: 681, col: 9, offset: 21872},
 																															run: (*parser).callonBlockAttributes212,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 681, col: 9, offset: 21871},
+																																pos: position{line: 681, col: 9, offset: 21872},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 681, col: 9, offset: 21871},
+																																	pos:        position{line: 681, col: 9, offset: 21872},
 																																	val:        "[0-9]",
 																																	ranges:     []rune{'0', '9'},
 																																	ignoreCase: false,
@@ -12398,7 +12398,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 671, col: 78, offset: 21525},
+																							pos:        position{line: 671, col: 78, offset: 21526},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12407,19 +12407,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 675, col: 25, offset: 21643},
+																				pos: position{line: 675, col: 25, offset: 21644},
 																				run: (*parser).callonBlockAttributes216,
 																				expr: &seqExpr{
-																					pos: position{line: 675, col: 25, offset: 21643},
+																					pos: position{line: 675, col: 25, offset: 21644},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 675, col: 25, offset: 21643},
+																							pos:        position{line: 675, col: 25, offset: 21644},
 																							val:        "{counter2:",
 																							ignoreCase: false,
 																							want:       "\"{counter2:\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 675, col: 38, offset: 21656},
+																							pos:   position{line: 675, col: 38, offset: 21657},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -12439,8 +12439,8 @@ var g = &grammar{
 																											pos: position{line: 320, col: 28, offset: 9847},
 																											expr: &charClassMatcher{
 																												pos:        position{line: 320, col: 29, offset: 9848},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -12451,33 +12451,33 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 675, col: 57, offset: 21675},
+																							pos:   position{line: 675, col: 57, offset: 21676},
 																							label: "start",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 675, col: 63, offset: 21681},
+																								pos: position{line: 675, col: 63, offset: 21682},
 																								expr: &actionExpr{
-																									pos: position{line: 679, col: 17, offset: 21806},
+																									pos: position{line: 679, col: 17, offset: 21807},
 																									run: (*parser).callonBlockAttributes227,
 																									expr: &seqExpr{
-																										pos: position{line: 679, col: 17, offset: 21806},
+																										pos: position{line: 679, col: 17, offset: 21807},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 679, col: 17, offset: 21806},
+																												pos:        position{line: 679, col: 17, offset: 21807},
 																												val:        ":",
 																												ignoreCase: false,
 																												want:       "\":\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 679, col: 21, offset: 21810},
+																												pos:   position{line: 679, col: 21, offset: 21811},
 																												label: "start",
 																												expr: &choiceExpr{
-																													pos: position{line: 679, col: 28, offset: 21817},
+																													pos: position{line: 679, col: 28, offset: 21818},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 679, col: 28, offset: 21817},
+																															pos: position{line: 679, col: 28, offset: 21818},
 																															run: (*parser).callonBlockAttributes232,
 																															expr: &charClassMatcher{
-																																pos:        position{line: 679, col: 28, offset: 21817},
+																																pos:        position{line: 679, col: 28, offset: 21818},
 																																val:        "[A-Za-z]",
 																																ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																ignoreCase: false,
@@ -12485,12 +12485,12 @@ var g = &grammar{
 																															},
 																														},
 																														&actionExpr{
-																															pos: position{line: 681, col: 9, offset: 21871},
+																															pos: position{line: 681, col: 9, offset: 21872},
 																															run: (*parser).callonBlockAttributes234,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 681, col: 9, offset: 21871},
+																																pos: position{line: 681, col: 9, offset: 21872},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 681, col: 9, offset: 21871},
+																																	pos:        position{line: 681, col: 9, offset: 21872},
 																																	val:        "[0-9]",
 																																	ranges:     []rune{'0', '9'},
 																																	ignoreCase: false,
@@ -12507,7 +12507,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 675, col: 79, offset: 21697},
+																							pos:        position{line: 675, col: 79, offset: 21698},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12516,10 +12516,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90718},
+																				pos: position{line: 2861, col: 12, offset: 90719},
 																				run: (*parser).callonBlockAttributes238,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 12, offset: 90718},
+																					pos:        position{line: 2861, col: 12, offset: 90719},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12535,12 +12535,12 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 378, col: 35, offset: 11765},
+												pos: position{line: 378, col: 35, offset: 11766},
 												expr: &actionExpr{
-													pos: position{line: 2922, col: 10, offset: 92410},
+													pos: position{line: 2922, col: 10, offset: 92411},
 													run: (*parser).callonBlockAttributes241,
 													expr: &charClassMatcher{
-														pos:        position{line: 2922, col: 10, offset: 92410},
+														pos:        position{line: 2922, col: 10, offset: 92411},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12549,28 +12549,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2944, col: 8, offset: 92808},
+												pos: position{line: 2944, col: 8, offset: 92809},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2931, col: 12, offset: 92581},
+														pos: position{line: 2931, col: 12, offset: 92582},
 														run: (*parser).callonBlockAttributes244,
 														expr: &choiceExpr{
-															pos: position{line: 2931, col: 13, offset: 92582},
+															pos: position{line: 2931, col: 13, offset: 92583},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2931, col: 13, offset: 92582},
+																	pos:        position{line: 2931, col: 13, offset: 92583},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 20, offset: 92589},
+																	pos:        position{line: 2931, col: 20, offset: 92590},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 29, offset: 92598},
+																	pos:        position{line: 2931, col: 29, offset: 92599},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12579,37 +12579,37 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2941, col: 8, offset: 92758},
+														pos: position{line: 2941, col: 8, offset: 92759},
 														expr: &anyMatcher{
-															line: 2941, col: 9, offset: 92759,
+															line: 2941, col: 9, offset: 92760,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 378, col: 46, offset: 11776},
+												pos: position{line: 378, col: 46, offset: 11777},
 												expr: &choiceExpr{
-													pos: position{line: 378, col: 47, offset: 11777},
+													pos: position{line: 378, col: 47, offset: 11778},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 690, col: 14, offset: 22172},
+															pos: position{line: 690, col: 14, offset: 22173},
 															run: (*parser).callonBlockAttributes253,
 															expr: &seqExpr{
-																pos: position{line: 690, col: 14, offset: 22172},
+																pos: position{line: 690, col: 14, offset: 22173},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2939, col: 11, offset: 92744},
+																		pos: position{line: 2939, col: 11, offset: 92745},
 																		expr: &anyMatcher{
-																			line: 2939, col: 13, offset: 92746,
+																			line: 2939, col: 13, offset: 92747,
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 690, col: 21, offset: 22179},
+																		pos: position{line: 690, col: 21, offset: 22180},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92410},
+																			pos: position{line: 2922, col: 10, offset: 92411},
 																			run: (*parser).callonBlockAttributes258,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92410},
+																				pos:        position{line: 2922, col: 10, offset: 92411},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12618,28 +12618,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92808},
+																		pos: position{line: 2944, col: 8, offset: 92809},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonBlockAttributes261,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12648,9 +12648,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92758},
+																				pos: position{line: 2941, col: 8, offset: 92759},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92759,
+																					line: 2941, col: 9, offset: 92760,
 																				},
 																			},
 																		},
@@ -12659,36 +12659,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81188},
+															pos: position{line: 2525, col: 22, offset: 81189},
 															run: (*parser).callonBlockAttributes268,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81188},
+																pos: position{line: 2525, col: 22, offset: 81189},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81438},
+																		pos:        position{line: 2530, col: 31, offset: 81439},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81443},
+																		pos: position{line: 2530, col: 36, offset: 81444},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81444},
+																			pos:        position{line: 2530, col: 37, offset: 81445},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81215},
+																		pos:   position{line: 2525, col: 49, offset: 81216},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 13, offset: 90936},
+																			pos: position{line: 2868, col: 13, offset: 90937},
 																			run: (*parser).callonBlockAttributes274,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2868, col: 13, offset: 90936},
+																				pos: position{line: 2868, col: 13, offset: 90937},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 13, offset: 90936},
+																					pos:        position{line: 2868, col: 13, offset: 90937},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12698,28 +12698,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92808},
+																		pos: position{line: 2944, col: 8, offset: 92809},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonBlockAttributes278,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12728,9 +12728,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92758},
+																				pos: position{line: 2941, col: 8, offset: 92759},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92759,
+																					line: 2941, col: 9, offset: 92760,
 																				},
 																			},
 																		},
@@ -12745,26 +12745,26 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 382, col: 12, offset: 11889},
+									pos: position{line: 382, col: 12, offset: 11890},
 									run: (*parser).callonBlockAttributes285,
 									expr: &seqExpr{
-										pos: position{line: 382, col: 12, offset: 11889},
+										pos: position{line: 382, col: 12, offset: 11890},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 382, col: 12, offset: 11889},
+												pos:   position{line: 382, col: 12, offset: 11890},
 												label: "attributes",
 												expr: &ruleRefExpr{
-													pos:  position{line: 382, col: 24, offset: 11901},
+													pos:  position{line: 382, col: 24, offset: 11902},
 													name: "LongHandAttributes",
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 382, col: 44, offset: 11921},
+												pos: position{line: 382, col: 44, offset: 11922},
 												expr: &actionExpr{
-													pos: position{line: 2922, col: 10, offset: 92410},
+													pos: position{line: 2922, col: 10, offset: 92411},
 													run: (*parser).callonBlockAttributes290,
 													expr: &charClassMatcher{
-														pos:        position{line: 2922, col: 10, offset: 92410},
+														pos:        position{line: 2922, col: 10, offset: 92411},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12773,28 +12773,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2944, col: 8, offset: 92808},
+												pos: position{line: 2944, col: 8, offset: 92809},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2931, col: 12, offset: 92581},
+														pos: position{line: 2931, col: 12, offset: 92582},
 														run: (*parser).callonBlockAttributes293,
 														expr: &choiceExpr{
-															pos: position{line: 2931, col: 13, offset: 92582},
+															pos: position{line: 2931, col: 13, offset: 92583},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2931, col: 13, offset: 92582},
+																	pos:        position{line: 2931, col: 13, offset: 92583},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 20, offset: 92589},
+																	pos:        position{line: 2931, col: 20, offset: 92590},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 29, offset: 92598},
+																	pos:        position{line: 2931, col: 29, offset: 92599},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12803,37 +12803,37 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2941, col: 8, offset: 92758},
+														pos: position{line: 2941, col: 8, offset: 92759},
 														expr: &anyMatcher{
-															line: 2941, col: 9, offset: 92759,
+															line: 2941, col: 9, offset: 92760,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 382, col: 55, offset: 11932},
+												pos: position{line: 382, col: 55, offset: 11933},
 												expr: &choiceExpr{
-													pos: position{line: 382, col: 56, offset: 11933},
+													pos: position{line: 382, col: 56, offset: 11934},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 690, col: 14, offset: 22172},
+															pos: position{line: 690, col: 14, offset: 22173},
 															run: (*parser).callonBlockAttributes302,
 															expr: &seqExpr{
-																pos: position{line: 690, col: 14, offset: 22172},
+																pos: position{line: 690, col: 14, offset: 22173},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2939, col: 11, offset: 92744},
+																		pos: position{line: 2939, col: 11, offset: 92745},
 																		expr: &anyMatcher{
-																			line: 2939, col: 13, offset: 92746,
+																			line: 2939, col: 13, offset: 92747,
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 690, col: 21, offset: 22179},
+																		pos: position{line: 690, col: 21, offset: 22180},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92410},
+																			pos: position{line: 2922, col: 10, offset: 92411},
 																			run: (*parser).callonBlockAttributes307,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92410},
+																				pos:        position{line: 2922, col: 10, offset: 92411},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12842,28 +12842,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92808},
+																		pos: position{line: 2944, col: 8, offset: 92809},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonBlockAttributes310,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12872,9 +12872,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92758},
+																				pos: position{line: 2941, col: 8, offset: 92759},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92759,
+																					line: 2941, col: 9, offset: 92760,
 																				},
 																			},
 																		},
@@ -12883,36 +12883,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81188},
+															pos: position{line: 2525, col: 22, offset: 81189},
 															run: (*parser).callonBlockAttributes317,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81188},
+																pos: position{line: 2525, col: 22, offset: 81189},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81438},
+																		pos:        position{line: 2530, col: 31, offset: 81439},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81443},
+																		pos: position{line: 2530, col: 36, offset: 81444},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81444},
+																			pos:        position{line: 2530, col: 37, offset: 81445},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81215},
+																		pos:   position{line: 2525, col: 49, offset: 81216},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 13, offset: 90936},
+																			pos: position{line: 2868, col: 13, offset: 90937},
 																			run: (*parser).callonBlockAttributes323,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2868, col: 13, offset: 90936},
+																				pos: position{line: 2868, col: 13, offset: 90937},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 13, offset: 90936},
+																					pos:        position{line: 2868, col: 13, offset: 90937},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12922,28 +12922,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92808},
+																		pos: position{line: 2944, col: 8, offset: 92809},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonBlockAttributes327,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12952,9 +12952,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92758},
+																				pos: position{line: 2941, col: 8, offset: 92759},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92759,
+																					line: 2941, col: 9, offset: 92760,
 																				},
 																			},
 																		},
@@ -12976,51 +12976,51 @@ var g = &grammar{
 		},
 		{
 			name: "InlineAttributes",
-			pos:  position{line: 390, col: 1, offset: 12139},
+			pos:  position{line: 390, col: 1, offset: 12140},
 			expr: &actionExpr{
-				pos: position{line: 391, col: 5, offset: 12163},
+				pos: position{line: 391, col: 5, offset: 12164},
 				run: (*parser).callonInlineAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 391, col: 5, offset: 12163},
+					pos: position{line: 391, col: 5, offset: 12164},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 391, col: 5, offset: 12163},
+							pos:        position{line: 391, col: 5, offset: 12164},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 392, col: 5, offset: 12171},
+							pos:   position{line: 392, col: 5, offset: 12172},
 							label: "attributes",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 392, col: 16, offset: 12182},
+								pos: position{line: 392, col: 16, offset: 12183},
 								expr: &actionExpr{
-									pos: position{line: 393, col: 9, offset: 12192},
+									pos: position{line: 393, col: 9, offset: 12193},
 									run: (*parser).callonInlineAttributes6,
 									expr: &seqExpr{
-										pos: position{line: 394, col: 13, offset: 12206},
+										pos: position{line: 394, col: 13, offset: 12207},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 394, col: 13, offset: 12206},
+												pos: position{line: 394, col: 13, offset: 12207},
 												expr: &litMatcher{
-													pos:        position{line: 394, col: 14, offset: 12207},
+													pos:        position{line: 394, col: 14, offset: 12208},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 395, col: 13, offset: 12239},
+												pos:   position{line: 395, col: 13, offset: 12240},
 												label: "attribute",
 												expr: &choiceExpr{
-													pos: position{line: 395, col: 24, offset: 12250},
+													pos: position{line: 395, col: 24, offset: 12251},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 395, col: 24, offset: 12250},
+															pos:  position{line: 395, col: 24, offset: 12251},
 															name: "PositionalAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 395, col: 46, offset: 12272},
+															pos:  position{line: 395, col: 46, offset: 12273},
 															name: "NamedAttribute",
 														},
 													},
@@ -13032,7 +13032,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 400, col: 5, offset: 12355},
+							pos:        position{line: 400, col: 5, offset: 12356},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -13043,62 +13043,62 @@ var g = &grammar{
 		},
 		{
 			name: "LongHandAttributes",
-			pos:  position{line: 440, col: 1, offset: 13640},
+			pos:  position{line: 440, col: 1, offset: 13641},
 			expr: &actionExpr{
-				pos: position{line: 441, col: 5, offset: 13666},
+				pos: position{line: 441, col: 5, offset: 13667},
 				run: (*parser).callonLongHandAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 441, col: 5, offset: 13666},
+					pos: position{line: 441, col: 5, offset: 13667},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 441, col: 5, offset: 13666},
+							pos: position{line: 441, col: 5, offset: 13667},
 							expr: &litMatcher{
-								pos:        position{line: 441, col: 6, offset: 13667},
+								pos:        position{line: 441, col: 6, offset: 13668},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 441, col: 10, offset: 13671},
+							pos:        position{line: 441, col: 10, offset: 13672},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&notExpr{
-							pos: position{line: 441, col: 14, offset: 13675},
+							pos: position{line: 441, col: 14, offset: 13676},
 							expr: &litMatcher{
-								pos:        position{line: 441, col: 15, offset: 13676},
+								pos:        position{line: 441, col: 15, offset: 13677},
 								val:        "[",
 								ignoreCase: false,
 								want:       "\"[\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 442, col: 5, offset: 13789},
+							pos:   position{line: 442, col: 5, offset: 13790},
 							label: "firstPositionalAttributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 442, col: 31, offset: 13815},
+								pos: position{line: 442, col: 31, offset: 13816},
 								expr: &ruleRefExpr{
-									pos:  position{line: 442, col: 32, offset: 13816},
+									pos:  position{line: 442, col: 32, offset: 13817},
 									name: "FirstPositionalAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 443, col: 5, offset: 13848},
+							pos:   position{line: 443, col: 5, offset: 13849},
 							label: "otherAttributes",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 443, col: 21, offset: 13864},
+								pos: position{line: 443, col: 21, offset: 13865},
 								expr: &choiceExpr{
-									pos: position{line: 443, col: 22, offset: 13865},
+									pos: position{line: 443, col: 22, offset: 13866},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 443, col: 22, offset: 13865},
+											pos:  position{line: 443, col: 22, offset: 13866},
 											name: "PositionalAttribute",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 443, col: 44, offset: 13887},
+											pos:  position{line: 443, col: 44, offset: 13888},
 											name: "NamedAttribute",
 										},
 									},
@@ -13106,7 +13106,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 444, col: 5, offset: 13908},
+							pos:        position{line: 444, col: 5, offset: 13909},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -13117,69 +13117,69 @@ var g = &grammar{
 		},
 		{
 			name: "FirstPositionalAttributes",
-			pos:  position{line: 461, col: 1, offset: 14707},
+			pos:  position{line: 461, col: 1, offset: 14708},
 			expr: &actionExpr{
-				pos: position{line: 462, col: 5, offset: 14741},
+				pos: position{line: 462, col: 5, offset: 14742},
 				run: (*parser).callonFirstPositionalAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 462, col: 5, offset: 14741},
+					pos: position{line: 462, col: 5, offset: 14742},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 462, col: 5, offset: 14741},
+							pos:   position{line: 462, col: 5, offset: 14742},
 							label: "main",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 462, col: 10, offset: 14746},
+								pos: position{line: 462, col: 10, offset: 14747},
 								expr: &ruleRefExpr{
-									pos:  position{line: 463, col: 9, offset: 14756},
+									pos:  position{line: 463, col: 9, offset: 14757},
 									name: "ShortHandAttribute",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 465, col: 5, offset: 14786},
+							pos:   position{line: 465, col: 5, offset: 14787},
 							label: "extras",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 465, col: 12, offset: 14793},
+								pos: position{line: 465, col: 12, offset: 14794},
 								expr: &actionExpr{
-									pos: position{line: 466, col: 9, offset: 14804},
+									pos: position{line: 466, col: 9, offset: 14805},
 									run: (*parser).callonFirstPositionalAttributes8,
 									expr: &seqExpr{
-										pos: position{line: 466, col: 9, offset: 14804},
+										pos: position{line: 466, col: 9, offset: 14805},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 466, col: 9, offset: 14804},
+												pos: position{line: 466, col: 9, offset: 14805},
 												expr: &litMatcher{
-													pos:        position{line: 466, col: 10, offset: 14805},
+													pos:        position{line: 466, col: 10, offset: 14806},
 													val:        ",",
 													ignoreCase: false,
 													want:       "\",\"",
 												},
 											},
 											&notExpr{
-												pos: position{line: 466, col: 14, offset: 14809},
+												pos: position{line: 466, col: 14, offset: 14810},
 												expr: &litMatcher{
-													pos:        position{line: 466, col: 15, offset: 14810},
+													pos:        position{line: 466, col: 15, offset: 14811},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 467, col: 9, offset: 14822},
+												pos:   position{line: 467, col: 9, offset: 14823},
 												label: "extra",
 												expr: &choiceExpr{
-													pos: position{line: 468, col: 13, offset: 14842},
+													pos: position{line: 468, col: 13, offset: 14843},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 468, col: 13, offset: 14842},
+															pos:  position{line: 468, col: 13, offset: 14843},
 															name: "ShortHandIDAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 469, col: 15, offset: 14878},
+															pos:  position{line: 469, col: 15, offset: 14879},
 															name: "ShortHandOptionAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 470, col: 15, offset: 14917},
+															pos:  position{line: 470, col: 15, offset: 14918},
 															name: "ShortHandDotRoleAttribute",
 														},
 													},
@@ -13191,23 +13191,23 @@ var g = &grammar{
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 473, col: 8, offset: 14993},
+							pos: position{line: 473, col: 8, offset: 14994},
 							expr: &seqExpr{
-								pos: position{line: 473, col: 9, offset: 14994},
+								pos: position{line: 473, col: 9, offset: 14995},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 473, col: 9, offset: 14994},
+										pos:        position{line: 473, col: 9, offset: 14995},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 473, col: 13, offset: 14998},
+										pos: position{line: 473, col: 13, offset: 14999},
 										expr: &actionExpr{
-											pos: position{line: 2922, col: 10, offset: 92410},
+											pos: position{line: 2922, col: 10, offset: 92411},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2922, col: 10, offset: 92410},
+												pos:        position{line: 2922, col: 10, offset: 92411},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13219,7 +13219,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 474, col: 5, offset: 15012},
+							pos: position{line: 474, col: 5, offset: 15013},
 							run: (*parser).callonFirstPositionalAttributes25,
 						},
 					},
@@ -13228,24 +13228,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandIDAttribute",
-			pos:  position{line: 490, col: 1, offset: 15428},
+			pos:  position{line: 490, col: 1, offset: 15429},
 			expr: &actionExpr{
-				pos: position{line: 490, col: 25, offset: 15452},
+				pos: position{line: 490, col: 25, offset: 15453},
 				run: (*parser).callonShortHandIDAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 490, col: 25, offset: 15452},
+					pos: position{line: 490, col: 25, offset: 15453},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 490, col: 25, offset: 15452},
+							pos:        position{line: 490, col: 25, offset: 15453},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 490, col: 29, offset: 15456},
+							pos:   position{line: 490, col: 29, offset: 15457},
 							label: "id",
 							expr: &ruleRefExpr{
-								pos:  position{line: 490, col: 33, offset: 15460},
+								pos:  position{line: 490, col: 33, offset: 15461},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -13255,15 +13255,15 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttribute",
-			pos:  position{line: 494, col: 1, offset: 15534},
+			pos:  position{line: 494, col: 1, offset: 15535},
 			expr: &actionExpr{
-				pos: position{line: 494, col: 23, offset: 15556},
+				pos: position{line: 494, col: 23, offset: 15557},
 				run: (*parser).callonShortHandAttribute1,
 				expr: &labeledExpr{
-					pos:   position{line: 494, col: 23, offset: 15556},
+					pos:   position{line: 494, col: 23, offset: 15557},
 					label: "value",
 					expr: &ruleRefExpr{
-						pos:  position{line: 494, col: 30, offset: 15563},
+						pos:  position{line: 494, col: 30, offset: 15564},
 						name: "ShortHandAttributeValue",
 					},
 				},
@@ -13271,24 +13271,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandDotRoleAttribute",
-			pos:  position{line: 499, col: 1, offset: 15689},
+			pos:  position{line: 499, col: 1, offset: 15690},
 			expr: &actionExpr{
-				pos: position{line: 499, col: 30, offset: 15718},
+				pos: position{line: 499, col: 30, offset: 15719},
 				run: (*parser).callonShortHandDotRoleAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 499, col: 30, offset: 15718},
+					pos: position{line: 499, col: 30, offset: 15719},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 499, col: 30, offset: 15718},
+							pos:        position{line: 499, col: 30, offset: 15719},
 							val:        ".",
 							ignoreCase: false,
 							want:       "\".\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 499, col: 34, offset: 15722},
+							pos:   position{line: 499, col: 34, offset: 15723},
 							label: "role",
 							expr: &ruleRefExpr{
-								pos:  position{line: 499, col: 40, offset: 15728},
+								pos:  position{line: 499, col: 40, offset: 15729},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -13298,24 +13298,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandOptionAttribute",
-			pos:  position{line: 504, col: 1, offset: 15850},
+			pos:  position{line: 504, col: 1, offset: 15851},
 			expr: &actionExpr{
-				pos: position{line: 504, col: 29, offset: 15878},
+				pos: position{line: 504, col: 29, offset: 15879},
 				run: (*parser).callonShortHandOptionAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 504, col: 29, offset: 15878},
+					pos: position{line: 504, col: 29, offset: 15879},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 504, col: 29, offset: 15878},
+							pos:        position{line: 504, col: 29, offset: 15879},
 							val:        "%",
 							ignoreCase: false,
 							want:       "\"%\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 504, col: 33, offset: 15882},
+							pos:   position{line: 504, col: 33, offset: 15883},
 							label: "option",
 							expr: &ruleRefExpr{
-								pos:  position{line: 504, col: 41, offset: 15890},
+								pos:  position{line: 504, col: 41, offset: 15891},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -13325,43 +13325,43 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttributeValue",
-			pos:  position{line: 509, col: 1, offset: 16003},
+			pos:  position{line: 509, col: 1, offset: 16004},
 			expr: &choiceExpr{
-				pos: position{line: 510, col: 5, offset: 16035},
+				pos: position{line: 510, col: 5, offset: 16036},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 510, col: 5, offset: 16035},
+						pos:  position{line: 510, col: 5, offset: 16036},
 						name: "SingleQuotedAttributeValue",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 511, col: 7, offset: 16069},
+						pos:  position{line: 511, col: 7, offset: 16070},
 						name: "DoubleQuotedAttributeValue",
 					},
 					&actionExpr{
-						pos: position{line: 512, col: 7, offset: 16103},
+						pos: position{line: 512, col: 7, offset: 16104},
 						run: (*parser).callonShortHandAttributeValue4,
 						expr: &seqExpr{
-							pos: position{line: 512, col: 7, offset: 16103},
+							pos: position{line: 512, col: 7, offset: 16104},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 512, col: 7, offset: 16103},
+									pos:   position{line: 512, col: 7, offset: 16104},
 									label: "elements",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 512, col: 16, offset: 16112},
+										pos: position{line: 512, col: 16, offset: 16113},
 										expr: &choiceExpr{
-											pos: position{line: 515, col: 9, offset: 16294},
+											pos: position{line: 515, col: 9, offset: 16295},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 515, col: 9, offset: 16294},
+													pos:  position{line: 515, col: 9, offset: 16295},
 													name: "QuotationMark",
 												},
 												&actionExpr{
-													pos: position{line: 516, col: 12, offset: 16320},
+													pos: position{line: 516, col: 12, offset: 16321},
 													run: (*parser).callonShortHandAttributeValue10,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 516, col: 12, offset: 16320},
+														pos: position{line: 516, col: 12, offset: 16321},
 														expr: &charClassMatcher{
-															pos:        position{line: 516, col: 12, offset: 16320},
+															pos:        position{line: 516, col: 12, offset: 16321},
 															val:        "[^,=.%# \\r\\n�{]]",
 															chars:      []rune{',', '=', '.', '%', '#', ' ', '\r', '\n', '�', '{', ']'},
 															ignoreCase: false,
@@ -13370,35 +13370,35 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 649, col: 5, offset: 20790},
+													pos: position{line: 649, col: 5, offset: 20791},
 													run: (*parser).callonShortHandAttributeValue13,
 													expr: &seqExpr{
-														pos: position{line: 649, col: 5, offset: 20790},
+														pos: position{line: 649, col: 5, offset: 20791},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 649, col: 5, offset: 20790},
+																pos: position{line: 649, col: 5, offset: 20791},
 																run: (*parser).callonShortHandAttributeValue15,
 															},
 															&labeledExpr{
-																pos:   position{line: 652, col: 5, offset: 20862},
+																pos:   position{line: 652, col: 5, offset: 20863},
 																label: "element",
 																expr: &choiceExpr{
-																	pos: position{line: 652, col: 14, offset: 20871},
+																	pos: position{line: 652, col: 14, offset: 20872},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 658, col: 5, offset: 21000},
+																			pos: position{line: 658, col: 5, offset: 21001},
 																			run: (*parser).callonShortHandAttributeValue18,
 																			expr: &seqExpr{
-																				pos: position{line: 658, col: 5, offset: 21000},
+																				pos: position{line: 658, col: 5, offset: 21001},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 658, col: 5, offset: 21000},
+																						pos:        position{line: 658, col: 5, offset: 21001},
 																						val:        "\\{",
 																						ignoreCase: false,
 																						want:       "\"\\\\{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 658, col: 13, offset: 21008},
+																						pos:   position{line: 658, col: 13, offset: 21009},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 320, col: 18, offset: 9837},
@@ -13418,8 +13418,8 @@ var g = &grammar{
 																										pos: position{line: 320, col: 28, offset: 9847},
 																										expr: &charClassMatcher{
 																											pos:        position{line: 320, col: 29, offset: 9848},
-																											val:        "[-\\pL\\pN]",
-																											chars:      []rune{'-'},
+																											val:        "[_-\\pL\\pN]",
+																											chars:      []rune{'_', '-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
 																											inverted:   false,
@@ -13430,7 +13430,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 658, col: 32, offset: 21027},
+																						pos:        position{line: 658, col: 32, offset: 21028},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13439,19 +13439,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 665, col: 5, offset: 21268},
+																			pos: position{line: 665, col: 5, offset: 21269},
 																			run: (*parser).callonShortHandAttributeValue28,
 																			expr: &seqExpr{
-																				pos: position{line: 665, col: 5, offset: 21268},
+																				pos: position{line: 665, col: 5, offset: 21269},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 665, col: 5, offset: 21268},
+																						pos:        position{line: 665, col: 5, offset: 21269},
 																						val:        "{",
 																						ignoreCase: false,
 																						want:       "\"{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 665, col: 9, offset: 21272},
+																						pos:   position{line: 665, col: 9, offset: 21273},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 320, col: 18, offset: 9837},
@@ -13471,8 +13471,8 @@ var g = &grammar{
 																										pos: position{line: 320, col: 28, offset: 9847},
 																										expr: &charClassMatcher{
 																											pos:        position{line: 320, col: 29, offset: 9848},
-																											val:        "[-\\pL\\pN]",
-																											chars:      []rune{'-'},
+																											val:        "[_-\\pL\\pN]",
+																											chars:      []rune{'_', '-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
 																											inverted:   false,
@@ -13483,7 +13483,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 665, col: 28, offset: 21291},
+																						pos:        position{line: 665, col: 28, offset: 21292},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13492,19 +13492,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 671, col: 25, offset: 21472},
+																			pos: position{line: 671, col: 25, offset: 21473},
 																			run: (*parser).callonShortHandAttributeValue38,
 																			expr: &seqExpr{
-																				pos: position{line: 671, col: 25, offset: 21472},
+																				pos: position{line: 671, col: 25, offset: 21473},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 671, col: 25, offset: 21472},
+																						pos:        position{line: 671, col: 25, offset: 21473},
 																						val:        "{counter:",
 																						ignoreCase: false,
 																						want:       "\"{counter:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 671, col: 37, offset: 21484},
+																						pos:   position{line: 671, col: 37, offset: 21485},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 320, col: 18, offset: 9837},
@@ -13524,8 +13524,8 @@ var g = &grammar{
 																										pos: position{line: 320, col: 28, offset: 9847},
 																										expr: &charClassMatcher{
 																											pos:        position{line: 320, col: 29, offset: 9848},
-																											val:        "[-\\pL\\pN]",
-																											chars:      []rune{'-'},
+																											val:        "[_-\\pL\\pN]",
+																											chars:      []rune{'_', '-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
 																											inverted:   false,
@@ -13536,33 +13536,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 671, col: 56, offset: 21503},
+																						pos:   position{line: 671, col: 56, offset: 21504},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 671, col: 62, offset: 21509},
+																							pos: position{line: 671, col: 62, offset: 21510},
 																							expr: &actionExpr{
-																								pos: position{line: 679, col: 17, offset: 21806},
+																								pos: position{line: 679, col: 17, offset: 21807},
 																								run: (*parser).callonShortHandAttributeValue49,
 																								expr: &seqExpr{
-																									pos: position{line: 679, col: 17, offset: 21806},
+																									pos: position{line: 679, col: 17, offset: 21807},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 679, col: 17, offset: 21806},
+																											pos:        position{line: 679, col: 17, offset: 21807},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 679, col: 21, offset: 21810},
+																											pos:   position{line: 679, col: 21, offset: 21811},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 679, col: 28, offset: 21817},
+																												pos: position{line: 679, col: 28, offset: 21818},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 679, col: 28, offset: 21817},
+																														pos: position{line: 679, col: 28, offset: 21818},
 																														run: (*parser).callonShortHandAttributeValue54,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 679, col: 28, offset: 21817},
+																															pos:        position{line: 679, col: 28, offset: 21818},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13570,12 +13570,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 681, col: 9, offset: 21871},
+																														pos: position{line: 681, col: 9, offset: 21872},
 																														run: (*parser).callonShortHandAttributeValue56,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 681, col: 9, offset: 21871},
+																															pos: position{line: 681, col: 9, offset: 21872},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 681, col: 9, offset: 21871},
+																																pos:        position{line: 681, col: 9, offset: 21872},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13592,7 +13592,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 671, col: 78, offset: 21525},
+																						pos:        position{line: 671, col: 78, offset: 21526},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13601,19 +13601,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 675, col: 25, offset: 21643},
+																			pos: position{line: 675, col: 25, offset: 21644},
 																			run: (*parser).callonShortHandAttributeValue60,
 																			expr: &seqExpr{
-																				pos: position{line: 675, col: 25, offset: 21643},
+																				pos: position{line: 675, col: 25, offset: 21644},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 675, col: 25, offset: 21643},
+																						pos:        position{line: 675, col: 25, offset: 21644},
 																						val:        "{counter2:",
 																						ignoreCase: false,
 																						want:       "\"{counter2:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 675, col: 38, offset: 21656},
+																						pos:   position{line: 675, col: 38, offset: 21657},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 320, col: 18, offset: 9837},
@@ -13633,8 +13633,8 @@ var g = &grammar{
 																										pos: position{line: 320, col: 28, offset: 9847},
 																										expr: &charClassMatcher{
 																											pos:        position{line: 320, col: 29, offset: 9848},
-																											val:        "[-\\pL\\pN]",
-																											chars:      []rune{'-'},
+																											val:        "[_-\\pL\\pN]",
+																											chars:      []rune{'_', '-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
 																											inverted:   false,
@@ -13645,33 +13645,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 675, col: 57, offset: 21675},
+																						pos:   position{line: 675, col: 57, offset: 21676},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 675, col: 63, offset: 21681},
+																							pos: position{line: 675, col: 63, offset: 21682},
 																							expr: &actionExpr{
-																								pos: position{line: 679, col: 17, offset: 21806},
+																								pos: position{line: 679, col: 17, offset: 21807},
 																								run: (*parser).callonShortHandAttributeValue71,
 																								expr: &seqExpr{
-																									pos: position{line: 679, col: 17, offset: 21806},
+																									pos: position{line: 679, col: 17, offset: 21807},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 679, col: 17, offset: 21806},
+																											pos:        position{line: 679, col: 17, offset: 21807},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 679, col: 21, offset: 21810},
+																											pos:   position{line: 679, col: 21, offset: 21811},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 679, col: 28, offset: 21817},
+																												pos: position{line: 679, col: 28, offset: 21818},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 679, col: 28, offset: 21817},
+																														pos: position{line: 679, col: 28, offset: 21818},
 																														run: (*parser).callonShortHandAttributeValue76,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 679, col: 28, offset: 21817},
+																															pos:        position{line: 679, col: 28, offset: 21818},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13679,12 +13679,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 681, col: 9, offset: 21871},
+																														pos: position{line: 681, col: 9, offset: 21872},
 																														run: (*parser).callonShortHandAttributeValue78,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 681, col: 9, offset: 21871},
+																															pos: position{line: 681, col: 9, offset: 21872},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 681, col: 9, offset: 21871},
+																																pos:        position{line: 681, col: 9, offset: 21872},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13701,7 +13701,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 675, col: 79, offset: 21697},
+																						pos:        position{line: 675, col: 79, offset: 21698},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13716,10 +13716,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 521, col: 12, offset: 16488},
+													pos: position{line: 521, col: 12, offset: 16489},
 													run: (*parser).callonShortHandAttributeValue82,
 													expr: &litMatcher{
-														pos:        position{line: 521, col: 12, offset: 16488},
+														pos:        position{line: 521, col: 12, offset: 16489},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -13730,19 +13730,19 @@ var g = &grammar{
 									},
 								},
 								&andExpr{
-									pos: position{line: 525, col: 5, offset: 16576},
+									pos: position{line: 525, col: 5, offset: 16577},
 									expr: &notExpr{
-										pos: position{line: 525, col: 7, offset: 16578},
+										pos: position{line: 525, col: 7, offset: 16579},
 										expr: &seqExpr{
-											pos: position{line: 525, col: 9, offset: 16580},
+											pos: position{line: 525, col: 9, offset: 16581},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 525, col: 9, offset: 16580},
+													pos: position{line: 525, col: 9, offset: 16581},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92410},
+														pos: position{line: 2922, col: 10, offset: 92411},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92410},
+															pos:        position{line: 2922, col: 10, offset: 92411},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13751,7 +13751,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 525, col: 16, offset: 16587},
+													pos:        position{line: 525, col: 16, offset: 16588},
 													val:        "=",
 													ignoreCase: false,
 													want:       "\"=\"",
@@ -13768,45 +13768,45 @@ var g = &grammar{
 		},
 		{
 			name: "PositionalAttribute",
-			pos:  position{line: 530, col: 1, offset: 16665},
+			pos:  position{line: 530, col: 1, offset: 16666},
 			expr: &choiceExpr{
-				pos: position{line: 530, col: 24, offset: 16688},
+				pos: position{line: 530, col: 24, offset: 16689},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 531, col: 5, offset: 16694},
+						pos: position{line: 531, col: 5, offset: 16695},
 						run: (*parser).callonPositionalAttribute2,
 						expr: &seqExpr{
-							pos: position{line: 531, col: 5, offset: 16694},
+							pos: position{line: 531, col: 5, offset: 16695},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 531, col: 5, offset: 16694},
+									pos:   position{line: 531, col: 5, offset: 16695},
 									label: "value",
 									expr: &ruleRefExpr{
-										pos:  position{line: 531, col: 12, offset: 16701},
+										pos:  position{line: 531, col: 12, offset: 16702},
 										name: "AttributeValue",
 									},
 								},
 								&choiceExpr{
-									pos: position{line: 531, col: 29, offset: 16718},
+									pos: position{line: 531, col: 29, offset: 16719},
 									alternatives: []interface{}{
 										&zeroOrOneExpr{
-											pos: position{line: 531, col: 29, offset: 16718},
+											pos: position{line: 531, col: 29, offset: 16719},
 											expr: &seqExpr{
-												pos: position{line: 531, col: 30, offset: 16719},
+												pos: position{line: 531, col: 30, offset: 16720},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 531, col: 30, offset: 16719},
+														pos:        position{line: 531, col: 30, offset: 16720},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 531, col: 34, offset: 16723},
+														pos: position{line: 531, col: 34, offset: 16724},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92410},
+															pos: position{line: 2922, col: 10, offset: 92411},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92410},
+																pos:        position{line: 2922, col: 10, offset: 92411},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13818,9 +13818,9 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 531, col: 45, offset: 16734},
+											pos: position{line: 531, col: 45, offset: 16735},
 											expr: &litMatcher{
-												pos:        position{line: 531, col: 46, offset: 16735},
+												pos:        position{line: 531, col: 46, offset: 16736},
 												val:        "]",
 												ignoreCase: false,
 												want:       "\"]\"",
@@ -13832,24 +13832,24 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 536, col: 6, offset: 16880},
+						pos: position{line: 536, col: 6, offset: 16881},
 						run: (*parser).callonPositionalAttribute15,
 						expr: &seqExpr{
-							pos: position{line: 536, col: 6, offset: 16880},
+							pos: position{line: 536, col: 6, offset: 16881},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 536, col: 6, offset: 16880},
+									pos:   position{line: 536, col: 6, offset: 16881},
 									label: "value",
 									expr: &seqExpr{
-										pos: position{line: 536, col: 13, offset: 16887},
+										pos: position{line: 536, col: 13, offset: 16888},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 536, col: 13, offset: 16887},
+												pos: position{line: 536, col: 13, offset: 16888},
 												expr: &actionExpr{
-													pos: position{line: 2922, col: 10, offset: 92410},
+													pos: position{line: 2922, col: 10, offset: 92411},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2922, col: 10, offset: 92410},
+														pos:        position{line: 2922, col: 10, offset: 92411},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13858,24 +13858,24 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 536, col: 21, offset: 16895},
+												pos: position{line: 536, col: 21, offset: 16896},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 536, col: 22, offset: 16896},
+														pos: position{line: 536, col: 22, offset: 16897},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 536, col: 22, offset: 16896},
+																pos:        position{line: 536, col: 22, offset: 16897},
 																val:        ",",
 																ignoreCase: false,
 																want:       "\",\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 536, col: 26, offset: 16900},
+																pos: position{line: 536, col: 26, offset: 16901},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92410},
+																	pos: position{line: 2922, col: 10, offset: 92411},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92410},
+																		pos:        position{line: 2922, col: 10, offset: 92411},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13886,9 +13886,9 @@ var g = &grammar{
 														},
 													},
 													&andExpr{
-														pos: position{line: 536, col: 36, offset: 16910},
+														pos: position{line: 536, col: 36, offset: 16911},
 														expr: &litMatcher{
-															pos:        position{line: 536, col: 37, offset: 16911},
+															pos:        position{line: 536, col: 37, offset: 16912},
 															val:        "]",
 															ignoreCase: false,
 															want:       "\"]\"",
@@ -13900,7 +13900,7 @@ var g = &grammar{
 									},
 								},
 								&andCodeExpr{
-									pos: position{line: 537, col: 5, offset: 16921},
+									pos: position{line: 537, col: 5, offset: 16922},
 									run: (*parser).callonPositionalAttribute30,
 								},
 							},
@@ -13911,29 +13911,29 @@ var g = &grammar{
 		},
 		{
 			name: "NamedAttribute",
-			pos:  position{line: 547, col: 1, offset: 17236},
+			pos:  position{line: 547, col: 1, offset: 17237},
 			expr: &actionExpr{
-				pos: position{line: 548, col: 5, offset: 17259},
+				pos: position{line: 548, col: 5, offset: 17260},
 				run: (*parser).callonNamedAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 548, col: 5, offset: 17259},
+					pos: position{line: 548, col: 5, offset: 17260},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 548, col: 5, offset: 17259},
+							pos:   position{line: 548, col: 5, offset: 17260},
 							label: "key",
 							expr: &actionExpr{
-								pos: position{line: 556, col: 22, offset: 17547},
+								pos: position{line: 556, col: 22, offset: 17548},
 								run: (*parser).callonNamedAttribute4,
 								expr: &seqExpr{
-									pos: position{line: 556, col: 22, offset: 17547},
+									pos: position{line: 556, col: 22, offset: 17548},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 556, col: 22, offset: 17547},
+											pos: position{line: 556, col: 22, offset: 17548},
 											expr: &actionExpr{
-												pos: position{line: 2922, col: 10, offset: 92410},
+												pos: position{line: 2922, col: 10, offset: 92411},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2922, col: 10, offset: 92410},
+													pos:        position{line: 2922, col: 10, offset: 92411},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13942,9 +13942,9 @@ var g = &grammar{
 											},
 										},
 										&oneOrMoreExpr{
-											pos: position{line: 556, col: 29, offset: 17554},
+											pos: position{line: 556, col: 29, offset: 17555},
 											expr: &charClassMatcher{
-												pos:        position{line: 556, col: 29, offset: 17554},
+												pos:        position{line: 556, col: 29, offset: 17555},
 												val:        "[^\\r\\n=,]]",
 												chars:      []rune{'\r', '\n', '=', ',', ']'},
 												ignoreCase: false,
@@ -13956,18 +13956,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 549, col: 5, offset: 17288},
+							pos:        position{line: 549, col: 5, offset: 17289},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 549, col: 9, offset: 17292},
+							pos: position{line: 549, col: 9, offset: 17293},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92410},
+								pos: position{line: 2922, col: 10, offset: 92411},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92410},
+									pos:        position{line: 2922, col: 10, offset: 92411},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13976,31 +13976,31 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 550, col: 5, offset: 17304},
+							pos:   position{line: 550, col: 5, offset: 17305},
 							label: "value",
 							expr: &ruleRefExpr{
-								pos:  position{line: 550, col: 12, offset: 17311},
+								pos:  position{line: 550, col: 12, offset: 17312},
 								name: "AttributeValue",
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 550, col: 28, offset: 17327},
+							pos: position{line: 550, col: 28, offset: 17328},
 							expr: &seqExpr{
-								pos: position{line: 550, col: 29, offset: 17328},
+								pos: position{line: 550, col: 29, offset: 17329},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 550, col: 29, offset: 17328},
+										pos:        position{line: 550, col: 29, offset: 17329},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 550, col: 33, offset: 17332},
+										pos: position{line: 550, col: 33, offset: 17333},
 										expr: &actionExpr{
-											pos: position{line: 2922, col: 10, offset: 92410},
+											pos: position{line: 2922, col: 10, offset: 92411},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2922, col: 10, offset: 92410},
+												pos:        position{line: 2922, col: 10, offset: 92411},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14017,48 +14017,48 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeValue",
-			pos:  position{line: 560, col: 1, offset: 17611},
+			pos:  position{line: 560, col: 1, offset: 17612},
 			expr: &actionExpr{
-				pos: position{line: 561, col: 5, offset: 17634},
+				pos: position{line: 561, col: 5, offset: 17635},
 				run: (*parser).callonAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 561, col: 5, offset: 17634},
+					pos: position{line: 561, col: 5, offset: 17635},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 561, col: 5, offset: 17634},
+							pos:   position{line: 561, col: 5, offset: 17635},
 							label: "value",
 							expr: &choiceExpr{
-								pos: position{line: 562, col: 9, offset: 17650},
+								pos: position{line: 562, col: 9, offset: 17651},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 562, col: 9, offset: 17650},
+										pos:  position{line: 562, col: 9, offset: 17651},
 										name: "SingleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 563, col: 11, offset: 17688},
+										pos:  position{line: 563, col: 11, offset: 17689},
 										name: "DoubleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 564, col: 11, offset: 17726},
+										pos:  position{line: 564, col: 11, offset: 17727},
 										name: "UnquotedAttributeValue",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 566, col: 5, offset: 17760},
+							pos: position{line: 566, col: 5, offset: 17761},
 							expr: &notExpr{
-								pos: position{line: 566, col: 7, offset: 17762},
+								pos: position{line: 566, col: 7, offset: 17763},
 								expr: &seqExpr{
-									pos: position{line: 566, col: 9, offset: 17764},
+									pos: position{line: 566, col: 9, offset: 17765},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 566, col: 9, offset: 17764},
+											pos: position{line: 566, col: 9, offset: 17765},
 											expr: &actionExpr{
-												pos: position{line: 2922, col: 10, offset: 92410},
+												pos: position{line: 2922, col: 10, offset: 92411},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2922, col: 10, offset: 92410},
+													pos:        position{line: 2922, col: 10, offset: 92411},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14067,7 +14067,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 566, col: 16, offset: 17771},
+											pos:        position{line: 566, col: 16, offset: 17772},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -14082,38 +14082,38 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValue",
-			pos:  position{line: 570, col: 1, offset: 17812},
+			pos:  position{line: 570, col: 1, offset: 17813},
 			expr: &actionExpr{
-				pos: position{line: 571, col: 5, offset: 17847},
+				pos: position{line: 571, col: 5, offset: 17848},
 				run: (*parser).callonSingleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 571, col: 5, offset: 17847},
+					pos: position{line: 571, col: 5, offset: 17848},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 571, col: 5, offset: 17847},
+							pos:        position{line: 571, col: 5, offset: 17848},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
 						},
 						&notExpr{
-							pos: position{line: 571, col: 9, offset: 17851},
+							pos: position{line: 571, col: 9, offset: 17852},
 							expr: &litMatcher{
-								pos:        position{line: 571, col: 10, offset: 17852},
+								pos:        position{line: 571, col: 10, offset: 17853},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 572, col: 5, offset: 17931},
+							pos:   position{line: 572, col: 5, offset: 17932},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 572, col: 14, offset: 17940},
+								pos:  position{line: 572, col: 14, offset: 17941},
 								name: "SingleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 573, col: 5, offset: 17979},
+							pos:        position{line: 573, col: 5, offset: 17980},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
@@ -14124,25 +14124,25 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValueContent",
-			pos:  position{line: 577, col: 1, offset: 18020},
+			pos:  position{line: 577, col: 1, offset: 18021},
 			expr: &actionExpr{
-				pos: position{line: 578, col: 5, offset: 18062},
+				pos: position{line: 578, col: 5, offset: 18063},
 				run: (*parser).callonSingleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 578, col: 5, offset: 18062},
+					pos:   position{line: 578, col: 5, offset: 18063},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 578, col: 14, offset: 18071},
+						pos: position{line: 578, col: 14, offset: 18072},
 						expr: &choiceExpr{
-							pos: position{line: 579, col: 9, offset: 18081},
+							pos: position{line: 579, col: 9, offset: 18082},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2816, col: 14, offset: 89579},
+									pos: position{line: 2816, col: 14, offset: 89580},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2816, col: 14, offset: 89579},
+										pos: position{line: 2816, col: 14, offset: 89580},
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 14, offset: 89579},
+											pos:        position{line: 2816, col: 14, offset: 89580},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14151,10 +14151,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2922, col: 10, offset: 92410},
+									pos: position{line: 2922, col: 10, offset: 92411},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2922, col: 10, offset: 92410},
+										pos:        position{line: 2922, col: 10, offset: 92411},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14162,39 +14162,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 581, col: 11, offset: 18117},
+									pos:  position{line: 581, col: 11, offset: 18118},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 649, col: 5, offset: 20790},
+									pos: position{line: 649, col: 5, offset: 20791},
 									run: (*parser).callonSingleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 649, col: 5, offset: 20790},
+										pos: position{line: 649, col: 5, offset: 20791},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 649, col: 5, offset: 20790},
+												pos: position{line: 649, col: 5, offset: 20791},
 												run: (*parser).callonSingleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 652, col: 5, offset: 20862},
+												pos:   position{line: 652, col: 5, offset: 20863},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 652, col: 14, offset: 20871},
+													pos: position{line: 652, col: 14, offset: 20872},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 658, col: 5, offset: 21000},
+															pos: position{line: 658, col: 5, offset: 21001},
 															run: (*parser).callonSingleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 658, col: 5, offset: 21000},
+																pos: position{line: 658, col: 5, offset: 21001},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 658, col: 5, offset: 21000},
+																		pos:        position{line: 658, col: 5, offset: 21001},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 13, offset: 21008},
+																		pos:   position{line: 658, col: 13, offset: 21009},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14214,8 +14214,8 @@ var g = &grammar{
 																						pos: position{line: 320, col: 28, offset: 9847},
 																						expr: &charClassMatcher{
 																							pos:        position{line: 320, col: 29, offset: 9848},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14226,7 +14226,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 658, col: 32, offset: 21027},
+																		pos:        position{line: 658, col: 32, offset: 21028},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14235,19 +14235,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 665, col: 5, offset: 21268},
+															pos: position{line: 665, col: 5, offset: 21269},
 															run: (*parser).callonSingleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 665, col: 5, offset: 21268},
+																pos: position{line: 665, col: 5, offset: 21269},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 665, col: 5, offset: 21268},
+																		pos:        position{line: 665, col: 5, offset: 21269},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 665, col: 9, offset: 21272},
+																		pos:   position{line: 665, col: 9, offset: 21273},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14267,8 +14267,8 @@ var g = &grammar{
 																						pos: position{line: 320, col: 28, offset: 9847},
 																						expr: &charClassMatcher{
 																							pos:        position{line: 320, col: 29, offset: 9848},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14279,7 +14279,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 665, col: 28, offset: 21291},
+																		pos:        position{line: 665, col: 28, offset: 21292},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14288,19 +14288,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 671, col: 25, offset: 21472},
+															pos: position{line: 671, col: 25, offset: 21473},
 															run: (*parser).callonSingleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 671, col: 25, offset: 21472},
+																pos: position{line: 671, col: 25, offset: 21473},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 671, col: 25, offset: 21472},
+																		pos:        position{line: 671, col: 25, offset: 21473},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 671, col: 37, offset: 21484},
+																		pos:   position{line: 671, col: 37, offset: 21485},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14320,8 +14320,8 @@ var g = &grammar{
 																						pos: position{line: 320, col: 28, offset: 9847},
 																						expr: &charClassMatcher{
 																							pos:        position{line: 320, col: 29, offset: 9848},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14332,33 +14332,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 671, col: 56, offset: 21503},
+																		pos:   position{line: 671, col: 56, offset: 21504},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 671, col: 62, offset: 21509},
+																			pos: position{line: 671, col: 62, offset: 21510},
 																			expr: &actionExpr{
-																				pos: position{line: 679, col: 17, offset: 21806},
+																				pos: position{line: 679, col: 17, offset: 21807},
 																				run: (*parser).callonSingleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 679, col: 17, offset: 21806},
+																					pos: position{line: 679, col: 17, offset: 21807},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 679, col: 17, offset: 21806},
+																							pos:        position{line: 679, col: 17, offset: 21807},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 679, col: 21, offset: 21810},
+																							pos:   position{line: 679, col: 21, offset: 21811},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 679, col: 28, offset: 21817},
+																								pos: position{line: 679, col: 28, offset: 21818},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 679, col: 28, offset: 21817},
+																										pos: position{line: 679, col: 28, offset: 21818},
 																										run: (*parser).callonSingleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 679, col: 28, offset: 21817},
+																											pos:        position{line: 679, col: 28, offset: 21818},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14366,12 +14366,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 681, col: 9, offset: 21871},
+																										pos: position{line: 681, col: 9, offset: 21872},
 																										run: (*parser).callonSingleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 681, col: 9, offset: 21871},
+																											pos: position{line: 681, col: 9, offset: 21872},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 681, col: 9, offset: 21871},
+																												pos:        position{line: 681, col: 9, offset: 21872},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14388,7 +14388,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 671, col: 78, offset: 21525},
+																		pos:        position{line: 671, col: 78, offset: 21526},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14397,19 +14397,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 675, col: 25, offset: 21643},
+															pos: position{line: 675, col: 25, offset: 21644},
 															run: (*parser).callonSingleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 675, col: 25, offset: 21643},
+																pos: position{line: 675, col: 25, offset: 21644},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 675, col: 25, offset: 21643},
+																		pos:        position{line: 675, col: 25, offset: 21644},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 675, col: 38, offset: 21656},
+																		pos:   position{line: 675, col: 38, offset: 21657},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14429,8 +14429,8 @@ var g = &grammar{
 																						pos: position{line: 320, col: 28, offset: 9847},
 																						expr: &charClassMatcher{
 																							pos:        position{line: 320, col: 29, offset: 9848},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14441,33 +14441,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 675, col: 57, offset: 21675},
+																		pos:   position{line: 675, col: 57, offset: 21676},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 675, col: 63, offset: 21681},
+																			pos: position{line: 675, col: 63, offset: 21682},
 																			expr: &actionExpr{
-																				pos: position{line: 679, col: 17, offset: 21806},
+																				pos: position{line: 679, col: 17, offset: 21807},
 																				run: (*parser).callonSingleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 679, col: 17, offset: 21806},
+																					pos: position{line: 679, col: 17, offset: 21807},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 679, col: 17, offset: 21806},
+																							pos:        position{line: 679, col: 17, offset: 21807},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 679, col: 21, offset: 21810},
+																							pos:   position{line: 679, col: 21, offset: 21811},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 679, col: 28, offset: 21817},
+																								pos: position{line: 679, col: 28, offset: 21818},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 679, col: 28, offset: 21817},
+																										pos: position{line: 679, col: 28, offset: 21818},
 																										run: (*parser).callonSingleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 679, col: 28, offset: 21817},
+																											pos:        position{line: 679, col: 28, offset: 21818},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14475,12 +14475,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 681, col: 9, offset: 21871},
+																										pos: position{line: 681, col: 9, offset: 21872},
 																										run: (*parser).callonSingleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 681, col: 9, offset: 21871},
+																											pos: position{line: 681, col: 9, offset: 21872},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 681, col: 9, offset: 21871},
+																												pos:        position{line: 681, col: 9, offset: 21872},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14497,7 +14497,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 675, col: 79, offset: 21697},
+																		pos:        position{line: 675, col: 79, offset: 21698},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14512,44 +14512,44 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 583, col: 12, offset: 18171},
+									pos: position{line: 583, col: 12, offset: 18172},
 									run: (*parser).callonSingleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 583, col: 12, offset: 18171},
+										pos:        position{line: 583, col: 12, offset: 18172},
 										val:        "\\'",
 										ignoreCase: false,
 										want:       "\"\\\\'\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 586, col: 13, offset: 18273},
+									pos:        position{line: 586, col: 13, offset: 18274},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 586, col: 20, offset: 18280},
+									pos:        position{line: 586, col: 20, offset: 18281},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&actionExpr{
-									pos: position{line: 586, col: 27, offset: 18287},
+									pos: position{line: 586, col: 27, offset: 18288},
 									run: (*parser).callonSingleQuotedAttributeValueContent84,
 									expr: &litMatcher{
-										pos:        position{line: 586, col: 27, offset: 18287},
+										pos:        position{line: 586, col: 27, offset: 18288},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 589, col: 12, offset: 18447},
+									pos: position{line: 589, col: 12, offset: 18448},
 									run: (*parser).callonSingleQuotedAttributeValueContent86,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 589, col: 12, offset: 18447},
+										pos: position{line: 589, col: 12, offset: 18448},
 										expr: &charClassMatcher{
-											pos:        position{line: 589, col: 12, offset: 18447},
+											pos:        position{line: 589, col: 12, offset: 18448},
 											val:        "[^\\r\\n\\\\\\ ]",
 											chars:      []rune{'\r', '\n', '\\', '\'', ' '},
 											ignoreCase: false,
@@ -14565,56 +14565,56 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValue",
-			pos:  position{line: 599, col: 1, offset: 18751},
+			pos:  position{line: 599, col: 1, offset: 18752},
 			expr: &actionExpr{
-				pos: position{line: 600, col: 5, offset: 18786},
+				pos: position{line: 600, col: 5, offset: 18787},
 				run: (*parser).callonDoubleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 600, col: 5, offset: 18786},
+					pos: position{line: 600, col: 5, offset: 18787},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 600, col: 5, offset: 18786},
+							pos:        position{line: 600, col: 5, offset: 18787},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&notExpr{
-							pos: position{line: 600, col: 10, offset: 18791},
+							pos: position{line: 600, col: 10, offset: 18792},
 							expr: &litMatcher{
-								pos:        position{line: 600, col: 11, offset: 18792},
+								pos:        position{line: 600, col: 11, offset: 18793},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 601, col: 5, offset: 18871},
+							pos:   position{line: 601, col: 5, offset: 18872},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 601, col: 14, offset: 18880},
+								pos:  position{line: 601, col: 14, offset: 18881},
 								name: "DoubleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 602, col: 5, offset: 18919},
+							pos:        position{line: 602, col: 5, offset: 18920},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&andExpr{
-							pos: position{line: 602, col: 10, offset: 18924},
+							pos: position{line: 602, col: 10, offset: 18925},
 							expr: &notExpr{
-								pos: position{line: 602, col: 12, offset: 18926},
+								pos: position{line: 602, col: 12, offset: 18927},
 								expr: &seqExpr{
-									pos: position{line: 602, col: 14, offset: 18928},
+									pos: position{line: 602, col: 14, offset: 18929},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 602, col: 14, offset: 18928},
+											pos: position{line: 602, col: 14, offset: 18929},
 											expr: &actionExpr{
-												pos: position{line: 2922, col: 10, offset: 92410},
+												pos: position{line: 2922, col: 10, offset: 92411},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2922, col: 10, offset: 92410},
+													pos:        position{line: 2922, col: 10, offset: 92411},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14623,7 +14623,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 602, col: 21, offset: 18935},
+											pos:        position{line: 602, col: 21, offset: 18936},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -14638,25 +14638,25 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValueContent",
-			pos:  position{line: 606, col: 1, offset: 18978},
+			pos:  position{line: 606, col: 1, offset: 18979},
 			expr: &actionExpr{
-				pos: position{line: 607, col: 5, offset: 19020},
+				pos: position{line: 607, col: 5, offset: 19021},
 				run: (*parser).callonDoubleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 607, col: 5, offset: 19020},
+					pos:   position{line: 607, col: 5, offset: 19021},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 607, col: 14, offset: 19029},
+						pos: position{line: 607, col: 14, offset: 19030},
 						expr: &choiceExpr{
-							pos: position{line: 608, col: 9, offset: 19039},
+							pos: position{line: 608, col: 9, offset: 19040},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2816, col: 14, offset: 89579},
+									pos: position{line: 2816, col: 14, offset: 89580},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2816, col: 14, offset: 89579},
+										pos: position{line: 2816, col: 14, offset: 89580},
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 14, offset: 89579},
+											pos:        position{line: 2816, col: 14, offset: 89580},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14665,10 +14665,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2922, col: 10, offset: 92410},
+									pos: position{line: 2922, col: 10, offset: 92411},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2922, col: 10, offset: 92410},
+										pos:        position{line: 2922, col: 10, offset: 92411},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14676,39 +14676,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 610, col: 11, offset: 19075},
+									pos:  position{line: 610, col: 11, offset: 19076},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 649, col: 5, offset: 20790},
+									pos: position{line: 649, col: 5, offset: 20791},
 									run: (*parser).callonDoubleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 649, col: 5, offset: 20790},
+										pos: position{line: 649, col: 5, offset: 20791},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 649, col: 5, offset: 20790},
+												pos: position{line: 649, col: 5, offset: 20791},
 												run: (*parser).callonDoubleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 652, col: 5, offset: 20862},
+												pos:   position{line: 652, col: 5, offset: 20863},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 652, col: 14, offset: 20871},
+													pos: position{line: 652, col: 14, offset: 20872},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 658, col: 5, offset: 21000},
+															pos: position{line: 658, col: 5, offset: 21001},
 															run: (*parser).callonDoubleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 658, col: 5, offset: 21000},
+																pos: position{line: 658, col: 5, offset: 21001},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 658, col: 5, offset: 21000},
+																		pos:        position{line: 658, col: 5, offset: 21001},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 13, offset: 21008},
+																		pos:   position{line: 658, col: 13, offset: 21009},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14728,8 +14728,8 @@ var g = &grammar{
 																						pos: position{line: 320, col: 28, offset: 9847},
 																						expr: &charClassMatcher{
 																							pos:        position{line: 320, col: 29, offset: 9848},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14740,7 +14740,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 658, col: 32, offset: 21027},
+																		pos:        position{line: 658, col: 32, offset: 21028},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14749,19 +14749,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 665, col: 5, offset: 21268},
+															pos: position{line: 665, col: 5, offset: 21269},
 															run: (*parser).callonDoubleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 665, col: 5, offset: 21268},
+																pos: position{line: 665, col: 5, offset: 21269},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 665, col: 5, offset: 21268},
+																		pos:        position{line: 665, col: 5, offset: 21269},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 665, col: 9, offset: 21272},
+																		pos:   position{line: 665, col: 9, offset: 21273},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14781,8 +14781,8 @@ var g = &grammar{
 																						pos: position{line: 320, col: 28, offset: 9847},
 																						expr: &charClassMatcher{
 																							pos:        position{line: 320, col: 29, offset: 9848},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14793,7 +14793,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 665, col: 28, offset: 21291},
+																		pos:        position{line: 665, col: 28, offset: 21292},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14802,19 +14802,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 671, col: 25, offset: 21472},
+															pos: position{line: 671, col: 25, offset: 21473},
 															run: (*parser).callonDoubleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 671, col: 25, offset: 21472},
+																pos: position{line: 671, col: 25, offset: 21473},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 671, col: 25, offset: 21472},
+																		pos:        position{line: 671, col: 25, offset: 21473},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 671, col: 37, offset: 21484},
+																		pos:   position{line: 671, col: 37, offset: 21485},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14834,8 +14834,8 @@ var g = &grammar{
 																						pos: position{line: 320, col: 28, offset: 9847},
 																						expr: &charClassMatcher{
 																							pos:        position{line: 320, col: 29, offset: 9848},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14846,33 +14846,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 671, col: 56, offset: 21503},
+																		pos:   position{line: 671, col: 56, offset: 21504},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 671, col: 62, offset: 21509},
+																			pos: position{line: 671, col: 62, offset: 21510},
 																			expr: &actionExpr{
-																				pos: position{line: 679, col: 17, offset: 21806},
+																				pos: position{line: 679, col: 17, offset: 21807},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 679, col: 17, offset: 21806},
+																					pos: position{line: 679, col: 17, offset: 21807},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 679, col: 17, offset: 21806},
+																							pos:        position{line: 679, col: 17, offset: 21807},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 679, col: 21, offset: 21810},
+																							pos:   position{line: 679, col: 21, offset: 21811},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 679, col: 28, offset: 21817},
+																								pos: position{line: 679, col: 28, offset: 21818},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 679, col: 28, offset: 21817},
+																										pos: position{line: 679, col: 28, offset: 21818},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 679, col: 28, offset: 21817},
+																											pos:        position{line: 679, col: 28, offset: 21818},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14880,12 +14880,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 681, col: 9, offset: 21871},
+																										pos: position{line: 681, col: 9, offset: 21872},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 681, col: 9, offset: 21871},
+																											pos: position{line: 681, col: 9, offset: 21872},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 681, col: 9, offset: 21871},
+																												pos:        position{line: 681, col: 9, offset: 21872},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14902,7 +14902,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 671, col: 78, offset: 21525},
+																		pos:        position{line: 671, col: 78, offset: 21526},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14911,19 +14911,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 675, col: 25, offset: 21643},
+															pos: position{line: 675, col: 25, offset: 21644},
 															run: (*parser).callonDoubleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 675, col: 25, offset: 21643},
+																pos: position{line: 675, col: 25, offset: 21644},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 675, col: 25, offset: 21643},
+																		pos:        position{line: 675, col: 25, offset: 21644},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 675, col: 38, offset: 21656},
+																		pos:   position{line: 675, col: 38, offset: 21657},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14943,8 +14943,8 @@ var g = &grammar{
 																						pos: position{line: 320, col: 28, offset: 9847},
 																						expr: &charClassMatcher{
 																							pos:        position{line: 320, col: 29, offset: 9848},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14955,33 +14955,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 675, col: 57, offset: 21675},
+																		pos:   position{line: 675, col: 57, offset: 21676},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 675, col: 63, offset: 21681},
+																			pos: position{line: 675, col: 63, offset: 21682},
 																			expr: &actionExpr{
-																				pos: position{line: 679, col: 17, offset: 21806},
+																				pos: position{line: 679, col: 17, offset: 21807},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 679, col: 17, offset: 21806},
+																					pos: position{line: 679, col: 17, offset: 21807},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 679, col: 17, offset: 21806},
+																							pos:        position{line: 679, col: 17, offset: 21807},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 679, col: 21, offset: 21810},
+																							pos:   position{line: 679, col: 21, offset: 21811},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 679, col: 28, offset: 21817},
+																								pos: position{line: 679, col: 28, offset: 21818},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 679, col: 28, offset: 21817},
+																										pos: position{line: 679, col: 28, offset: 21818},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 679, col: 28, offset: 21817},
+																											pos:        position{line: 679, col: 28, offset: 21818},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14989,12 +14989,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 681, col: 9, offset: 21871},
+																										pos: position{line: 681, col: 9, offset: 21872},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 681, col: 9, offset: 21871},
+																											pos: position{line: 681, col: 9, offset: 21872},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 681, col: 9, offset: 21871},
+																												pos:        position{line: 681, col: 9, offset: 21872},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -15011,7 +15011,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 675, col: 79, offset: 21697},
+																		pos:        position{line: 675, col: 79, offset: 21698},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -15026,50 +15026,50 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 612, col: 12, offset: 19130},
+									pos: position{line: 612, col: 12, offset: 19131},
 									run: (*parser).callonDoubleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 612, col: 12, offset: 19130},
+										pos:        position{line: 612, col: 12, offset: 19131},
 										val:        "\\\"",
 										ignoreCase: false,
 										want:       "\"\\\\\\\"\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 615, col: 13, offset: 19232},
+									pos:        position{line: 615, col: 13, offset: 19233},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 615, col: 21, offset: 19240},
+									pos:        position{line: 615, col: 21, offset: 19241},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&litMatcher{
-									pos:        position{line: 615, col: 29, offset: 19248},
+									pos:        position{line: 615, col: 29, offset: 19249},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&actionExpr{
-									pos: position{line: 615, col: 35, offset: 19254},
+									pos: position{line: 615, col: 35, offset: 19255},
 									run: (*parser).callonDoubleQuotedAttributeValueContent85,
 									expr: &litMatcher{
-										pos:        position{line: 615, col: 35, offset: 19254},
+										pos:        position{line: 615, col: 35, offset: 19255},
 										val:        "`",
 										ignoreCase: false,
 										want:       "\"`\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 618, col: 12, offset: 19437},
+									pos: position{line: 618, col: 12, offset: 19438},
 									run: (*parser).callonDoubleQuotedAttributeValueContent87,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 618, col: 12, offset: 19437},
+										pos: position{line: 618, col: 12, offset: 19438},
 										expr: &charClassMatcher{
-											pos:        position{line: 618, col: 12, offset: 19437},
+											pos:        position{line: 618, col: 12, offset: 19438},
 											val:        "[^\\r\\n\\\\\"` ]",
 											chars:      []rune{'\r', '\n', '\\', '"', '`', ' '},
 											ignoreCase: false,
@@ -15085,20 +15085,20 @@ var g = &grammar{
 		},
 		{
 			name: "UnquotedAttributeValue",
-			pos:  position{line: 629, col: 1, offset: 19818},
+			pos:  position{line: 629, col: 1, offset: 19819},
 			expr: &actionExpr{
-				pos: position{line: 632, col: 5, offset: 20002},
+				pos: position{line: 632, col: 5, offset: 20003},
 				run: (*parser).callonUnquotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 632, col: 5, offset: 20002},
+					pos: position{line: 632, col: 5, offset: 20003},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 632, col: 5, offset: 20002},
+							pos: position{line: 632, col: 5, offset: 20003},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92410},
+								pos: position{line: 2922, col: 10, offset: 92411},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92410},
+									pos:        position{line: 2922, col: 10, offset: 92411},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15107,28 +15107,28 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 633, col: 5, offset: 20071},
+							pos:   position{line: 633, col: 5, offset: 20072},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 633, col: 14, offset: 20080},
+								pos: position{line: 633, col: 14, offset: 20081},
 								expr: &choiceExpr{
-									pos: position{line: 634, col: 9, offset: 20090},
+									pos: position{line: 634, col: 9, offset: 20091},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 634, col: 10, offset: 20091},
+											pos: position{line: 634, col: 10, offset: 20092},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 634, col: 10, offset: 20091},
+													pos:        position{line: 634, col: 10, offset: 20092},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
 												},
 												&ruleRefExpr{
-													pos:  position{line: 634, col: 14, offset: 20095},
+													pos:  position{line: 634, col: 14, offset: 20096},
 													name: "UnquotedAttributeValue",
 												},
 												&litMatcher{
-													pos:        position{line: 634, col: 37, offset: 20118},
+													pos:        position{line: 634, col: 37, offset: 20119},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
@@ -15136,35 +15136,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 649, col: 5, offset: 20790},
+											pos: position{line: 649, col: 5, offset: 20791},
 											run: (*parser).callonUnquotedAttributeValue13,
 											expr: &seqExpr{
-												pos: position{line: 649, col: 5, offset: 20790},
+												pos: position{line: 649, col: 5, offset: 20791},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 649, col: 5, offset: 20790},
+														pos: position{line: 649, col: 5, offset: 20791},
 														run: (*parser).callonUnquotedAttributeValue15,
 													},
 													&labeledExpr{
-														pos:   position{line: 652, col: 5, offset: 20862},
+														pos:   position{line: 652, col: 5, offset: 20863},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 652, col: 14, offset: 20871},
+															pos: position{line: 652, col: 14, offset: 20872},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 658, col: 5, offset: 21000},
+																	pos: position{line: 658, col: 5, offset: 21001},
 																	run: (*parser).callonUnquotedAttributeValue18,
 																	expr: &seqExpr{
-																		pos: position{line: 658, col: 5, offset: 21000},
+																		pos: position{line: 658, col: 5, offset: 21001},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 658, col: 5, offset: 21000},
+																				pos:        position{line: 658, col: 5, offset: 21001},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 13, offset: 21008},
+																				pos:   position{line: 658, col: 13, offset: 21009},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -15184,8 +15184,8 @@ var g = &grammar{
 																								pos: position{line: 320, col: 28, offset: 9847},
 																								expr: &charClassMatcher{
 																									pos:        position{line: 320, col: 29, offset: 9848},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -15196,7 +15196,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 32, offset: 21027},
+																				pos:        position{line: 658, col: 32, offset: 21028},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15205,19 +15205,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 665, col: 5, offset: 21268},
+																	pos: position{line: 665, col: 5, offset: 21269},
 																	run: (*parser).callonUnquotedAttributeValue28,
 																	expr: &seqExpr{
-																		pos: position{line: 665, col: 5, offset: 21268},
+																		pos: position{line: 665, col: 5, offset: 21269},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 665, col: 5, offset: 21268},
+																				pos:        position{line: 665, col: 5, offset: 21269},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 665, col: 9, offset: 21272},
+																				pos:   position{line: 665, col: 9, offset: 21273},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -15237,8 +15237,8 @@ var g = &grammar{
 																								pos: position{line: 320, col: 28, offset: 9847},
 																								expr: &charClassMatcher{
 																									pos:        position{line: 320, col: 29, offset: 9848},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -15249,7 +15249,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 665, col: 28, offset: 21291},
+																				pos:        position{line: 665, col: 28, offset: 21292},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15258,19 +15258,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 671, col: 25, offset: 21472},
+																	pos: position{line: 671, col: 25, offset: 21473},
 																	run: (*parser).callonUnquotedAttributeValue38,
 																	expr: &seqExpr{
-																		pos: position{line: 671, col: 25, offset: 21472},
+																		pos: position{line: 671, col: 25, offset: 21473},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 671, col: 25, offset: 21472},
+																				pos:        position{line: 671, col: 25, offset: 21473},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 671, col: 37, offset: 21484},
+																				pos:   position{line: 671, col: 37, offset: 21485},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -15290,8 +15290,8 @@ var g = &grammar{
 																								pos: position{line: 320, col: 28, offset: 9847},
 																								expr: &charClassMatcher{
 																									pos:        position{line: 320, col: 29, offset: 9848},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -15302,33 +15302,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 671, col: 56, offset: 21503},
+																				pos:   position{line: 671, col: 56, offset: 21504},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 671, col: 62, offset: 21509},
+																					pos: position{line: 671, col: 62, offset: 21510},
 																					expr: &actionExpr{
-																						pos: position{line: 679, col: 17, offset: 21806},
+																						pos: position{line: 679, col: 17, offset: 21807},
 																						run: (*parser).callonUnquotedAttributeValue49,
 																						expr: &seqExpr{
-																							pos: position{line: 679, col: 17, offset: 21806},
+																							pos: position{line: 679, col: 17, offset: 21807},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 679, col: 17, offset: 21806},
+																									pos:        position{line: 679, col: 17, offset: 21807},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 679, col: 21, offset: 21810},
+																									pos:   position{line: 679, col: 21, offset: 21811},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 679, col: 28, offset: 21817},
+																										pos: position{line: 679, col: 28, offset: 21818},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 679, col: 28, offset: 21817},
+																												pos: position{line: 679, col: 28, offset: 21818},
 																												run: (*parser).callonUnquotedAttributeValue54,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 679, col: 28, offset: 21817},
+																													pos:        position{line: 679, col: 28, offset: 21818},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15336,12 +15336,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 681, col: 9, offset: 21871},
+																												pos: position{line: 681, col: 9, offset: 21872},
 																												run: (*parser).callonUnquotedAttributeValue56,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 681, col: 9, offset: 21871},
+																													pos: position{line: 681, col: 9, offset: 21872},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 681, col: 9, offset: 21871},
+																														pos:        position{line: 681, col: 9, offset: 21872},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15358,7 +15358,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 671, col: 78, offset: 21525},
+																				pos:        position{line: 671, col: 78, offset: 21526},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15367,19 +15367,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 675, col: 25, offset: 21643},
+																	pos: position{line: 675, col: 25, offset: 21644},
 																	run: (*parser).callonUnquotedAttributeValue60,
 																	expr: &seqExpr{
-																		pos: position{line: 675, col: 25, offset: 21643},
+																		pos: position{line: 675, col: 25, offset: 21644},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 675, col: 25, offset: 21643},
+																				pos:        position{line: 675, col: 25, offset: 21644},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 675, col: 38, offset: 21656},
+																				pos:   position{line: 675, col: 38, offset: 21657},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -15399,8 +15399,8 @@ var g = &grammar{
 																								pos: position{line: 320, col: 28, offset: 9847},
 																								expr: &charClassMatcher{
 																									pos:        position{line: 320, col: 29, offset: 9848},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -15411,33 +15411,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 675, col: 57, offset: 21675},
+																				pos:   position{line: 675, col: 57, offset: 21676},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 675, col: 63, offset: 21681},
+																					pos: position{line: 675, col: 63, offset: 21682},
 																					expr: &actionExpr{
-																						pos: position{line: 679, col: 17, offset: 21806},
+																						pos: position{line: 679, col: 17, offset: 21807},
 																						run: (*parser).callonUnquotedAttributeValue71,
 																						expr: &seqExpr{
-																							pos: position{line: 679, col: 17, offset: 21806},
+																							pos: position{line: 679, col: 17, offset: 21807},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 679, col: 17, offset: 21806},
+																									pos:        position{line: 679, col: 17, offset: 21807},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 679, col: 21, offset: 21810},
+																									pos:   position{line: 679, col: 21, offset: 21811},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 679, col: 28, offset: 21817},
+																										pos: position{line: 679, col: 28, offset: 21818},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 679, col: 28, offset: 21817},
+																												pos: position{line: 679, col: 28, offset: 21818},
 																												run: (*parser).callonUnquotedAttributeValue76,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 679, col: 28, offset: 21817},
+																													pos:        position{line: 679, col: 28, offset: 21818},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15445,12 +15445,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 681, col: 9, offset: 21871},
+																												pos: position{line: 681, col: 9, offset: 21872},
 																												run: (*parser).callonUnquotedAttributeValue78,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 681, col: 9, offset: 21871},
+																													pos: position{line: 681, col: 9, offset: 21872},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 681, col: 9, offset: 21871},
+																														pos:        position{line: 681, col: 9, offset: 21872},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15467,7 +15467,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 675, col: 79, offset: 21697},
+																				pos:        position{line: 675, col: 79, offset: 21698},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15482,16 +15482,16 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 635, col: 32, offset: 20205},
+											pos:        position{line: 635, col: 32, offset: 20206},
 											val:        "{",
 											ignoreCase: false,
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2922, col: 10, offset: 92410},
+											pos: position{line: 2922, col: 10, offset: 92411},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2922, col: 10, offset: 92410},
+												pos:        position{line: 2922, col: 10, offset: 92411},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15499,12 +15499,12 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 637, col: 12, offset: 20290},
+											pos: position{line: 637, col: 12, offset: 20291},
 											run: (*parser).callonUnquotedAttributeValue85,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 637, col: 12, offset: 20290},
+												pos: position{line: 637, col: 12, offset: 20291},
 												expr: &charClassMatcher{
-													pos:        position{line: 637, col: 12, offset: 20290},
+													pos:        position{line: 637, col: 12, offset: 20291},
 													val:        "[^=,]{ ]",
 													chars:      []rune{'=', ',', ']', '{', ' '},
 													ignoreCase: false,
@@ -15522,32 +15522,32 @@ var g = &grammar{
 		},
 		{
 			name: "CrossReference",
-			pos:  position{line: 697, col: 1, offset: 22433},
+			pos:  position{line: 697, col: 1, offset: 22434},
 			expr: &choiceExpr{
-				pos: position{line: 697, col: 19, offset: 22451},
+				pos: position{line: 697, col: 19, offset: 22452},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 699, col: 27, offset: 22527},
+						pos: position{line: 699, col: 27, offset: 22528},
 						run: (*parser).callonCrossReference2,
 						expr: &seqExpr{
-							pos: position{line: 699, col: 27, offset: 22527},
+							pos: position{line: 699, col: 27, offset: 22528},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 699, col: 27, offset: 22527},
+									pos:        position{line: 699, col: 27, offset: 22528},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 699, col: 32, offset: 22532},
+									pos:   position{line: 699, col: 32, offset: 22533},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2907, col: 7, offset: 92062},
+										pos: position{line: 2907, col: 7, offset: 92063},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2907, col: 7, offset: 92062},
+											pos: position{line: 2907, col: 7, offset: 92063},
 											expr: &charClassMatcher{
-												pos:        position{line: 2907, col: 7, offset: 92062},
+												pos:        position{line: 2907, col: 7, offset: 92063},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15557,12 +15557,12 @@ var g = &grammar{
 									},
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 699, col: 40, offset: 22540},
+									pos: position{line: 699, col: 40, offset: 22541},
 									expr: &actionExpr{
-										pos: position{line: 2922, col: 10, offset: 92410},
+										pos: position{line: 2922, col: 10, offset: 92411},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2922, col: 10, offset: 92410},
+											pos:        position{line: 2922, col: 10, offset: 92411},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15571,36 +15571,36 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 699, col: 47, offset: 22547},
+									pos:        position{line: 699, col: 47, offset: 22548},
 									val:        ",",
 									ignoreCase: false,
 									want:       "\",\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 699, col: 51, offset: 22551},
+									pos:   position{line: 699, col: 51, offset: 22552},
 									label: "label",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 709, col: 24, offset: 22952},
+										pos: position{line: 709, col: 24, offset: 22953},
 										expr: &choiceExpr{
-											pos: position{line: 710, col: 5, offset: 22958},
+											pos: position{line: 710, col: 5, offset: 22959},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 710, col: 6, offset: 22959},
+													pos: position{line: 710, col: 6, offset: 22960},
 													run: (*parser).callonCrossReference16,
 													expr: &seqExpr{
-														pos: position{line: 710, col: 6, offset: 22959},
+														pos: position{line: 710, col: 6, offset: 22960},
 														exprs: []interface{}{
 															&charClassMatcher{
-																pos:        position{line: 710, col: 6, offset: 22959},
+																pos:        position{line: 710, col: 6, offset: 22960},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
 																inverted:   false,
 															},
 															&oneOrMoreExpr{
-																pos: position{line: 710, col: 14, offset: 22967},
+																pos: position{line: 710, col: 14, offset: 22968},
 																expr: &charClassMatcher{
-																	pos:        position{line: 710, col: 14, offset: 22967},
+																	pos:        position{line: 710, col: 14, offset: 22968},
 																	val:        "[^\\r\\n{<>]",
 																	chars:      []rune{'\r', '\n', '{', '<', '>'},
 																	ignoreCase: false,
@@ -15611,19 +15611,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 658, col: 5, offset: 21000},
+													pos: position{line: 658, col: 5, offset: 21001},
 													run: (*parser).callonCrossReference21,
 													expr: &seqExpr{
-														pos: position{line: 658, col: 5, offset: 21000},
+														pos: position{line: 658, col: 5, offset: 21001},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 658, col: 5, offset: 21000},
+																pos:        position{line: 658, col: 5, offset: 21001},
 																val:        "\\{",
 																ignoreCase: false,
 																want:       "\"\\\\{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 658, col: 13, offset: 21008},
+																pos:   position{line: 658, col: 13, offset: 21009},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 320, col: 18, offset: 9837},
@@ -15643,8 +15643,8 @@ var g = &grammar{
 																				pos: position{line: 320, col: 28, offset: 9847},
 																				expr: &charClassMatcher{
 																					pos:        position{line: 320, col: 29, offset: 9848},
-																					val:        "[-\\pL\\pN]",
-																					chars:      []rune{'-'},
+																					val:        "[_-\\pL\\pN]",
+																					chars:      []rune{'_', '-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
 																					inverted:   false,
@@ -15655,7 +15655,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 658, col: 32, offset: 21027},
+																pos:        position{line: 658, col: 32, offset: 21028},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15664,19 +15664,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 665, col: 5, offset: 21268},
+													pos: position{line: 665, col: 5, offset: 21269},
 													run: (*parser).callonCrossReference31,
 													expr: &seqExpr{
-														pos: position{line: 665, col: 5, offset: 21268},
+														pos: position{line: 665, col: 5, offset: 21269},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 665, col: 5, offset: 21268},
+																pos:        position{line: 665, col: 5, offset: 21269},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 665, col: 9, offset: 21272},
+																pos:   position{line: 665, col: 9, offset: 21273},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 320, col: 18, offset: 9837},
@@ -15696,8 +15696,8 @@ var g = &grammar{
 																				pos: position{line: 320, col: 28, offset: 9847},
 																				expr: &charClassMatcher{
 																					pos:        position{line: 320, col: 29, offset: 9848},
-																					val:        "[-\\pL\\pN]",
-																					chars:      []rune{'-'},
+																					val:        "[_-\\pL\\pN]",
+																					chars:      []rune{'_', '-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
 																					inverted:   false,
@@ -15708,7 +15708,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 665, col: 28, offset: 21291},
+																pos:        position{line: 665, col: 28, offset: 21292},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15717,10 +15717,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 714, col: 8, offset: 23193},
+													pos: position{line: 714, col: 8, offset: 23194},
 													run: (*parser).callonCrossReference41,
 													expr: &litMatcher{
-														pos:        position{line: 714, col: 8, offset: 23193},
+														pos:        position{line: 714, col: 8, offset: 23194},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -15731,7 +15731,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 699, col: 79, offset: 22579},
+									pos:        position{line: 699, col: 79, offset: 22580},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15740,27 +15740,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 701, col: 9, offset: 22652},
+						pos: position{line: 701, col: 9, offset: 22653},
 						run: (*parser).callonCrossReference44,
 						expr: &seqExpr{
-							pos: position{line: 701, col: 9, offset: 22652},
+							pos: position{line: 701, col: 9, offset: 22653},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 701, col: 9, offset: 22652},
+									pos:        position{line: 701, col: 9, offset: 22653},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 701, col: 14, offset: 22657},
+									pos:   position{line: 701, col: 14, offset: 22658},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2907, col: 7, offset: 92062},
+										pos: position{line: 2907, col: 7, offset: 92063},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2907, col: 7, offset: 92062},
+											pos: position{line: 2907, col: 7, offset: 92063},
 											expr: &charClassMatcher{
-												pos:        position{line: 2907, col: 7, offset: 92062},
+												pos:        position{line: 2907, col: 7, offset: 92063},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15770,7 +15770,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 701, col: 22, offset: 22665},
+									pos:        position{line: 701, col: 22, offset: 22666},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15779,7 +15779,7 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 697, col: 44, offset: 22476},
+						pos:  position{line: 697, col: 44, offset: 22477},
 						name: "ExternalCrossReference",
 					},
 				},
@@ -15787,58 +15787,58 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalCrossReference",
-			pos:  position{line: 705, col: 1, offset: 22736},
+			pos:  position{line: 705, col: 1, offset: 22737},
 			expr: &actionExpr{
-				pos: position{line: 705, col: 27, offset: 22762},
+				pos: position{line: 705, col: 27, offset: 22763},
 				run: (*parser).callonExternalCrossReference1,
 				expr: &seqExpr{
-					pos: position{line: 705, col: 27, offset: 22762},
+					pos: position{line: 705, col: 27, offset: 22763},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 705, col: 27, offset: 22762},
+							pos:        position{line: 705, col: 27, offset: 22763},
 							val:        "xref:",
 							ignoreCase: false,
 							want:       "\"xref:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 705, col: 35, offset: 22770},
+							pos:   position{line: 705, col: 35, offset: 22771},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 17, offset: 91073},
+								pos: position{line: 2876, col: 17, offset: 91074},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2876, col: 17, offset: 91073},
+									pos:   position{line: 2876, col: 17, offset: 91074},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2893, col: 5, offset: 91527},
+										pos: position{line: 2893, col: 5, offset: 91528},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2893, col: 5, offset: 91527},
+											pos:   position{line: 2893, col: 5, offset: 91528},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2893, col: 14, offset: 91536},
+												pos: position{line: 2893, col: 14, offset: 91537},
 												expr: &choiceExpr{
-													pos: position{line: 2894, col: 9, offset: 91546},
+													pos: position{line: 2894, col: 9, offset: 91547},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2894, col: 9, offset: 91546},
+															pos: position{line: 2894, col: 9, offset: 91547},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2894, col: 9, offset: 91546},
+																pos: position{line: 2894, col: 9, offset: 91547},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2894, col: 9, offset: 91546},
+																		pos: position{line: 2894, col: 9, offset: 91547},
 																		expr: &litMatcher{
-																			pos:        position{line: 2894, col: 10, offset: 91547},
+																			pos:        position{line: 2894, col: 10, offset: 91548},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2895, col: 9, offset: 91575},
+																		pos: position{line: 2895, col: 9, offset: 91576},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2895, col: 10, offset: 91576},
+																			pos:        position{line: 2895, col: 10, offset: 91577},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15849,27 +15849,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2898, col: 11, offset: 91788},
+															pos: position{line: 2898, col: 11, offset: 91789},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2898, col: 11, offset: 91788},
+																	pos:        position{line: 2898, col: 11, offset: 91789},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2898, col: 19, offset: 91796},
+																	pos: position{line: 2898, col: 19, offset: 91797},
 																	expr: &seqExpr{
-																		pos: position{line: 2898, col: 21, offset: 91798},
+																		pos: position{line: 2898, col: 21, offset: 91799},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2898, col: 21, offset: 91798},
+																				pos: position{line: 2898, col: 21, offset: 91799},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92410},
+																					pos: position{line: 2922, col: 10, offset: 92411},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92410},
+																						pos:        position{line: 2922, col: 10, offset: 92411},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15878,11 +15878,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2898, col: 28, offset: 91805},
+																				pos: position{line: 2898, col: 28, offset: 91806},
 																				expr: &notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
@@ -15892,35 +15892,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 649, col: 5, offset: 20790},
+															pos: position{line: 649, col: 5, offset: 20791},
 															run: (*parser).callonExternalCrossReference27,
 															expr: &seqExpr{
-																pos: position{line: 649, col: 5, offset: 20790},
+																pos: position{line: 649, col: 5, offset: 20791},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 649, col: 5, offset: 20790},
+																		pos: position{line: 649, col: 5, offset: 20791},
 																		run: (*parser).callonExternalCrossReference29,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 652, col: 5, offset: 20862},
+																		pos:   position{line: 652, col: 5, offset: 20863},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 652, col: 14, offset: 20871},
+																			pos: position{line: 652, col: 14, offset: 20872},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 658, col: 5, offset: 21000},
+																					pos: position{line: 658, col: 5, offset: 21001},
 																					run: (*parser).callonExternalCrossReference32,
 																					expr: &seqExpr{
-																						pos: position{line: 658, col: 5, offset: 21000},
+																						pos: position{line: 658, col: 5, offset: 21001},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 658, col: 5, offset: 21000},
+																								pos:        position{line: 658, col: 5, offset: 21001},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 13, offset: 21008},
+																								pos:   position{line: 658, col: 13, offset: 21009},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -15940,8 +15940,8 @@ var g = &grammar{
 																												pos: position{line: 320, col: 28, offset: 9847},
 																												expr: &charClassMatcher{
 																													pos:        position{line: 320, col: 29, offset: 9848},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -15952,7 +15952,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 658, col: 32, offset: 21027},
+																								pos:        position{line: 658, col: 32, offset: 21028},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15961,19 +15961,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 665, col: 5, offset: 21268},
+																					pos: position{line: 665, col: 5, offset: 21269},
 																					run: (*parser).callonExternalCrossReference42,
 																					expr: &seqExpr{
-																						pos: position{line: 665, col: 5, offset: 21268},
+																						pos: position{line: 665, col: 5, offset: 21269},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 665, col: 5, offset: 21268},
+																								pos:        position{line: 665, col: 5, offset: 21269},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 9, offset: 21272},
+																								pos:   position{line: 665, col: 9, offset: 21273},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -15993,8 +15993,8 @@ var g = &grammar{
 																												pos: position{line: 320, col: 28, offset: 9847},
 																												expr: &charClassMatcher{
 																													pos:        position{line: 320, col: 29, offset: 9848},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -16005,7 +16005,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 665, col: 28, offset: 21291},
+																								pos:        position{line: 665, col: 28, offset: 21292},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16014,19 +16014,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 671, col: 25, offset: 21472},
+																					pos: position{line: 671, col: 25, offset: 21473},
 																					run: (*parser).callonExternalCrossReference52,
 																					expr: &seqExpr{
-																						pos: position{line: 671, col: 25, offset: 21472},
+																						pos: position{line: 671, col: 25, offset: 21473},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 671, col: 25, offset: 21472},
+																								pos:        position{line: 671, col: 25, offset: 21473},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 671, col: 37, offset: 21484},
+																								pos:   position{line: 671, col: 37, offset: 21485},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -16046,8 +16046,8 @@ var g = &grammar{
 																												pos: position{line: 320, col: 28, offset: 9847},
 																												expr: &charClassMatcher{
 																													pos:        position{line: 320, col: 29, offset: 9848},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -16058,33 +16058,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 671, col: 56, offset: 21503},
+																								pos:   position{line: 671, col: 56, offset: 21504},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 671, col: 62, offset: 21509},
+																									pos: position{line: 671, col: 62, offset: 21510},
 																									expr: &actionExpr{
-																										pos: position{line: 679, col: 17, offset: 21806},
+																										pos: position{line: 679, col: 17, offset: 21807},
 																										run: (*parser).callonExternalCrossReference63,
 																										expr: &seqExpr{
-																											pos: position{line: 679, col: 17, offset: 21806},
+																											pos: position{line: 679, col: 17, offset: 21807},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 679, col: 17, offset: 21806},
+																													pos:        position{line: 679, col: 17, offset: 21807},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 679, col: 21, offset: 21810},
+																													pos:   position{line: 679, col: 21, offset: 21811},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 679, col: 28, offset: 21817},
+																														pos: position{line: 679, col: 28, offset: 21818},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 679, col: 28, offset: 21817},
+																																pos: position{line: 679, col: 28, offset: 21818},
 																																run: (*parser).callonExternalCrossReference68,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 679, col: 28, offset: 21817},
+																																	pos:        position{line: 679, col: 28, offset: 21818},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -16092,12 +16092,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 681, col: 9, offset: 21871},
+																																pos: position{line: 681, col: 9, offset: 21872},
 																																run: (*parser).callonExternalCrossReference70,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 681, col: 9, offset: 21871},
+																																	pos: position{line: 681, col: 9, offset: 21872},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 681, col: 9, offset: 21871},
+																																		pos:        position{line: 681, col: 9, offset: 21872},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -16114,7 +16114,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 671, col: 78, offset: 21525},
+																								pos:        position{line: 671, col: 78, offset: 21526},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16123,19 +16123,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 675, col: 25, offset: 21643},
+																					pos: position{line: 675, col: 25, offset: 21644},
 																					run: (*parser).callonExternalCrossReference74,
 																					expr: &seqExpr{
-																						pos: position{line: 675, col: 25, offset: 21643},
+																						pos: position{line: 675, col: 25, offset: 21644},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 675, col: 25, offset: 21643},
+																								pos:        position{line: 675, col: 25, offset: 21644},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 675, col: 38, offset: 21656},
+																								pos:   position{line: 675, col: 38, offset: 21657},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -16155,8 +16155,8 @@ var g = &grammar{
 																												pos: position{line: 320, col: 28, offset: 9847},
 																												expr: &charClassMatcher{
 																													pos:        position{line: 320, col: 29, offset: 9848},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -16167,33 +16167,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 675, col: 57, offset: 21675},
+																								pos:   position{line: 675, col: 57, offset: 21676},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 675, col: 63, offset: 21681},
+																									pos: position{line: 675, col: 63, offset: 21682},
 																									expr: &actionExpr{
-																										pos: position{line: 679, col: 17, offset: 21806},
+																										pos: position{line: 679, col: 17, offset: 21807},
 																										run: (*parser).callonExternalCrossReference85,
 																										expr: &seqExpr{
-																											pos: position{line: 679, col: 17, offset: 21806},
+																											pos: position{line: 679, col: 17, offset: 21807},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 679, col: 17, offset: 21806},
+																													pos:        position{line: 679, col: 17, offset: 21807},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 679, col: 21, offset: 21810},
+																													pos:   position{line: 679, col: 21, offset: 21811},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 679, col: 28, offset: 21817},
+																														pos: position{line: 679, col: 28, offset: 21818},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 679, col: 28, offset: 21817},
+																																pos: position{line: 679, col: 28, offset: 21818},
 																																run: (*parser).callonExternalCrossReference90,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 679, col: 28, offset: 21817},
+																																	pos:        position{line: 679, col: 28, offset: 21818},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -16201,12 +16201,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 681, col: 9, offset: 21871},
+																																pos: position{line: 681, col: 9, offset: 21872},
 																																run: (*parser).callonExternalCrossReference92,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 681, col: 9, offset: 21871},
+																																	pos: position{line: 681, col: 9, offset: 21872},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 681, col: 9, offset: 21871},
+																																		pos:        position{line: 681, col: 9, offset: 21872},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -16223,7 +16223,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 675, col: 79, offset: 21697},
+																								pos:        position{line: 675, col: 79, offset: 21698},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16238,27 +16238,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1211, col: 23, offset: 37655},
+															pos: position{line: 1211, col: 23, offset: 37656},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1211, col: 23, offset: 37655},
+																pos: position{line: 1211, col: 23, offset: 37656},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1209, col: 32, offset: 37623},
+																		pos:        position{line: 1209, col: 32, offset: 37624},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1211, col: 51, offset: 37683},
+																		pos:   position{line: 1211, col: 51, offset: 37684},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1211, col: 56, offset: 37688},
+																			pos: position{line: 1211, col: 56, offset: 37689},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1211, col: 56, offset: 37688},
+																				pos: position{line: 1211, col: 56, offset: 37689},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1211, col: 56, offset: 37688},
+																					pos:        position{line: 1211, col: 56, offset: 37689},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -16268,7 +16268,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1209, col: 32, offset: 37623},
+																		pos:        position{line: 1209, col: 32, offset: 37624},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -16277,10 +16277,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2901, col: 11, offset: 91925},
+															pos: position{line: 2901, col: 11, offset: 91926},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2901, col: 11, offset: 91925},
+																pos:        position{line: 2901, col: 11, offset: 91926},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16295,10 +16295,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 705, col: 54, offset: 22789},
+							pos:   position{line: 705, col: 54, offset: 22790},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 705, col: 66, offset: 22801},
+								pos:  position{line: 705, col: 66, offset: 22802},
 								name: "InlineAttributes",
 							},
 						},
@@ -16308,29 +16308,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 1001, col: 1, offset: 31450},
+			pos:  position{line: 1001, col: 1, offset: 31451},
 			expr: &actionExpr{
-				pos: position{line: 1002, col: 5, offset: 31483},
+				pos: position{line: 1002, col: 5, offset: 31484},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 1002, col: 5, offset: 31483},
+					pos: position{line: 1002, col: 5, offset: 31484},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1002, col: 5, offset: 31483},
+							pos:        position{line: 1002, col: 5, offset: 31484},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1002, col: 11, offset: 31489},
+							pos:   position{line: 1002, col: 11, offset: 31490},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2872, col: 14, offset: 91003},
+								pos: position{line: 2872, col: 14, offset: 91004},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2872, col: 14, offset: 91003},
+									pos: position{line: 2872, col: 14, offset: 91004},
 									expr: &charClassMatcher{
-										pos:        position{line: 2872, col: 14, offset: 91003},
+										pos:        position{line: 2872, col: 14, offset: 91004},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16340,28 +16340,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92808},
+							pos: position{line: 2944, col: 8, offset: 92809},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92581},
+									pos: position{line: 2931, col: 12, offset: 92582},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92582},
+										pos: position{line: 2931, col: 13, offset: 92583},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92582},
+												pos:        position{line: 2931, col: 13, offset: 92583},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92589},
+												pos:        position{line: 2931, col: 20, offset: 92590},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92598},
+												pos:        position{line: 2931, col: 29, offset: 92599},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16370,9 +16370,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92758},
+									pos: position{line: 2941, col: 8, offset: 92759},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92759,
+										line: 2941, col: 9, offset: 92760,
 									},
 								},
 							},
@@ -16383,53 +16383,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1113, col: 1, offset: 34406},
+			pos:  position{line: 1113, col: 1, offset: 34407},
 			expr: &actionExpr{
-				pos: position{line: 1114, col: 5, offset: 34429},
+				pos: position{line: 1114, col: 5, offset: 34430},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1114, col: 5, offset: 34429},
+					pos: position{line: 1114, col: 5, offset: 34430},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1114, col: 5, offset: 34429},
+							pos: position{line: 1114, col: 5, offset: 34430},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1117, col: 5, offset: 34490},
+							pos: position{line: 1117, col: 5, offset: 34491},
 							expr: &choiceExpr{
-								pos: position{line: 1117, col: 6, offset: 34491},
+								pos: position{line: 1117, col: 6, offset: 34492},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2525, col: 22, offset: 81188},
+										pos: position{line: 2525, col: 22, offset: 81189},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 22, offset: 81188},
+											pos: position{line: 2525, col: 22, offset: 81189},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2530, col: 31, offset: 81438},
+													pos:        position{line: 2530, col: 31, offset: 81439},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2530, col: 36, offset: 81443},
+													pos: position{line: 2530, col: 36, offset: 81444},
 													expr: &litMatcher{
-														pos:        position{line: 2530, col: 37, offset: 81444},
+														pos:        position{line: 2530, col: 37, offset: 81445},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2525, col: 49, offset: 81215},
+													pos:   position{line: 2525, col: 49, offset: 81216},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 13, offset: 90936},
+														pos: position{line: 2868, col: 13, offset: 90937},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2868, col: 13, offset: 90936},
+															pos: position{line: 2868, col: 13, offset: 90937},
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 13, offset: 90936},
+																pos:        position{line: 2868, col: 13, offset: 90937},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16439,28 +16439,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92808},
+													pos: position{line: 2944, col: 8, offset: 92809},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92581},
+															pos: position{line: 2931, col: 12, offset: 92582},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92582},
+																pos: position{line: 2931, col: 13, offset: 92583},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92582},
+																		pos:        position{line: 2931, col: 13, offset: 92583},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92589},
+																		pos:        position{line: 2931, col: 20, offset: 92590},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92598},
+																		pos:        position{line: 2931, col: 29, offset: 92599},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16469,9 +16469,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92758},
+															pos: position{line: 2941, col: 8, offset: 92759},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92759,
+																line: 2941, col: 9, offset: 92760,
 															},
 														},
 													},
@@ -16480,36 +16480,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 833, col: 5, offset: 27007},
+										pos: position{line: 833, col: 5, offset: 27008},
 										run: (*parser).callonDocumentHeader23,
 										expr: &seqExpr{
-											pos: position{line: 833, col: 5, offset: 27007},
+											pos: position{line: 833, col: 5, offset: 27008},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 753, col: 5, offset: 24267},
+													pos: position{line: 753, col: 5, offset: 24268},
 													run: (*parser).callonDocumentHeader25,
 													expr: &seqExpr{
-														pos: position{line: 753, col: 5, offset: 24267},
+														pos: position{line: 753, col: 5, offset: 24268},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 753, col: 5, offset: 24267},
+																pos:   position{line: 753, col: 5, offset: 24268},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 753, col: 16, offset: 24278},
+																	pos: position{line: 753, col: 16, offset: 24279},
 																	run: (*parser).callonDocumentHeader28,
 																	expr: &seqExpr{
-																		pos: position{line: 753, col: 16, offset: 24278},
+																		pos: position{line: 753, col: 16, offset: 24279},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 753, col: 16, offset: 24278},
+																				pos:        position{line: 753, col: 16, offset: 24279},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 753, col: 23, offset: 24285},
+																				pos: position{line: 753, col: 23, offset: 24286},
 																				expr: &litMatcher{
-																					pos:        position{line: 753, col: 23, offset: 24285},
+																					pos:        position{line: 753, col: 23, offset: 24286},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -16520,12 +16520,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 755, col: 8, offset: 24369},
+																pos: position{line: 755, col: 8, offset: 24370},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92410},
+																	pos: position{line: 2922, col: 10, offset: 92411},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92410},
+																		pos:        position{line: 2922, col: 10, offset: 92411},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16534,28 +16534,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92808},
+																pos: position{line: 2944, col: 8, offset: 92809},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92581},
+																		pos: position{line: 2931, col: 12, offset: 92582},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92582},
+																			pos: position{line: 2931, col: 13, offset: 92583},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92582},
+																					pos:        position{line: 2931, col: 13, offset: 92583},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92589},
+																					pos:        position{line: 2931, col: 20, offset: 92590},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92598},
+																					pos:        position{line: 2931, col: 29, offset: 92599},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16564,9 +16564,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92758},
+																		pos: position{line: 2941, col: 8, offset: 92759},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92759,
+																			line: 2941, col: 9, offset: 92760,
 																		},
 																	},
 																},
@@ -16575,46 +16575,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 834, col: 5, offset: 27038},
+													pos:   position{line: 834, col: 5, offset: 27039},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 844, col: 5, offset: 27324},
+														pos: position{line: 844, col: 5, offset: 27325},
 														expr: &actionExpr{
-															pos: position{line: 844, col: 6, offset: 27325},
+															pos: position{line: 844, col: 6, offset: 27326},
 															run: (*parser).callonDocumentHeader46,
 															expr: &seqExpr{
-																pos: position{line: 844, col: 6, offset: 27325},
+																pos: position{line: 844, col: 6, offset: 27326},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 844, col: 6, offset: 27325},
+																		pos: position{line: 844, col: 6, offset: 27326},
 																		expr: &choiceExpr{
-																			pos: position{line: 841, col: 29, offset: 27267},
+																			pos: position{line: 841, col: 29, offset: 27268},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 753, col: 5, offset: 24267},
+																					pos: position{line: 753, col: 5, offset: 24268},
 																					run: (*parser).callonDocumentHeader50,
 																					expr: &seqExpr{
-																						pos: position{line: 753, col: 5, offset: 24267},
+																						pos: position{line: 753, col: 5, offset: 24268},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 753, col: 5, offset: 24267},
+																								pos:   position{line: 753, col: 5, offset: 24268},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 753, col: 16, offset: 24278},
+																									pos: position{line: 753, col: 16, offset: 24279},
 																									run: (*parser).callonDocumentHeader53,
 																									expr: &seqExpr{
-																										pos: position{line: 753, col: 16, offset: 24278},
+																										pos: position{line: 753, col: 16, offset: 24279},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 753, col: 16, offset: 24278},
+																												pos:        position{line: 753, col: 16, offset: 24279},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 753, col: 23, offset: 24285},
+																												pos: position{line: 753, col: 23, offset: 24286},
 																												expr: &litMatcher{
-																													pos:        position{line: 753, col: 23, offset: 24285},
+																													pos:        position{line: 753, col: 23, offset: 24286},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -16625,12 +16625,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 755, col: 8, offset: 24369},
+																								pos: position{line: 755, col: 8, offset: 24370},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92410},
+																									pos: position{line: 2922, col: 10, offset: 92411},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92410},
+																										pos:        position{line: 2922, col: 10, offset: 92411},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16639,28 +16639,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92808},
+																								pos: position{line: 2944, col: 8, offset: 92809},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92581},
+																										pos: position{line: 2931, col: 12, offset: 92582},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92582},
+																											pos: position{line: 2931, col: 13, offset: 92583},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92582},
+																													pos:        position{line: 2931, col: 13, offset: 92583},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92589},
+																													pos:        position{line: 2931, col: 20, offset: 92590},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92598},
+																													pos:        position{line: 2931, col: 29, offset: 92599},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16669,9 +16669,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92758},
+																										pos: position{line: 2941, col: 8, offset: 92759},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92759,
+																											line: 2941, col: 9, offset: 92760,
 																										},
 																									},
 																								},
@@ -16680,39 +16680,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 845, col: 5, offset: 27355},
+																		pos:   position{line: 845, col: 5, offset: 27356},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 824, col: 5, offset: 26771},
+																			pos: position{line: 824, col: 5, offset: 26772},
 																			run: (*parser).callonDocumentHeader72,
 																			expr: &seqExpr{
-																				pos: position{line: 824, col: 5, offset: 26771},
+																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92744},
+																						pos: position{line: 2939, col: 11, offset: 92745},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92746,
+																							line: 2939, col: 13, offset: 92747,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 825, col: 5, offset: 26846},
+																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90936},
+																							pos: position{line: 2868, col: 13, offset: 90937},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90936},
+																								pos: position{line: 2868, col: 13, offset: 90937},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90936},
+																									pos:        position{line: 2868, col: 13, offset: 90937},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16722,28 +16722,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92808},
+																						pos: position{line: 2944, col: 8, offset: 92809},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92581},
+																								pos: position{line: 2931, col: 12, offset: 92582},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92582},
+																									pos: position{line: 2931, col: 13, offset: 92583},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92582},
+																											pos:        position{line: 2931, col: 13, offset: 92583},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92589},
+																											pos:        position{line: 2931, col: 20, offset: 92590},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92598},
+																											pos:        position{line: 2931, col: 29, offset: 92599},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16752,9 +16752,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92758},
+																								pos: position{line: 2941, col: 8, offset: 92759},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92759,
+																									line: 2941, col: 9, offset: 92760,
 																								},
 																							},
 																						},
@@ -16769,35 +16769,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 835, col: 5, offset: 27072},
+													pos: position{line: 835, col: 5, offset: 27073},
 													expr: &choiceExpr{
-														pos: position{line: 841, col: 29, offset: 27267},
+														pos: position{line: 841, col: 29, offset: 27268},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 753, col: 5, offset: 24267},
+																pos: position{line: 753, col: 5, offset: 24268},
 																run: (*parser).callonDocumentHeader90,
 																expr: &seqExpr{
-																	pos: position{line: 753, col: 5, offset: 24267},
+																	pos: position{line: 753, col: 5, offset: 24268},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 753, col: 5, offset: 24267},
+																			pos:   position{line: 753, col: 5, offset: 24268},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 753, col: 16, offset: 24278},
+																				pos: position{line: 753, col: 16, offset: 24279},
 																				run: (*parser).callonDocumentHeader93,
 																				expr: &seqExpr{
-																					pos: position{line: 753, col: 16, offset: 24278},
+																					pos: position{line: 753, col: 16, offset: 24279},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 753, col: 16, offset: 24278},
+																							pos:        position{line: 753, col: 16, offset: 24279},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 753, col: 23, offset: 24285},
+																							pos: position{line: 753, col: 23, offset: 24286},
 																							expr: &litMatcher{
-																								pos:        position{line: 753, col: 23, offset: 24285},
+																								pos:        position{line: 753, col: 23, offset: 24286},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -16808,12 +16808,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 755, col: 8, offset: 24369},
+																			pos: position{line: 755, col: 8, offset: 24370},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92410},
+																				pos: position{line: 2922, col: 10, offset: 92411},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92410},
+																					pos:        position{line: 2922, col: 10, offset: 92411},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16822,28 +16822,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92808},
+																			pos: position{line: 2944, col: 8, offset: 92809},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92581},
+																					pos: position{line: 2931, col: 12, offset: 92582},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92582},
+																						pos: position{line: 2931, col: 13, offset: 92583},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92582},
+																								pos:        position{line: 2931, col: 13, offset: 92583},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92589},
+																								pos:        position{line: 2931, col: 20, offset: 92590},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92598},
+																								pos:        position{line: 2931, col: 29, offset: 92599},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16852,9 +16852,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
@@ -16863,9 +16863,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92758},
+																pos: position{line: 2941, col: 8, offset: 92759},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92759,
+																	line: 2941, col: 9, offset: 92760,
 																},
 															},
 														},
@@ -16878,49 +16878,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1118, col: 5, offset: 34587},
+							pos:   position{line: 1118, col: 5, offset: 34588},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1118, col: 12, offset: 34594},
+								pos:  position{line: 1118, col: 12, offset: 34595},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1119, col: 5, offset: 34613},
+							pos: position{line: 1119, col: 5, offset: 34614},
 							expr: &choiceExpr{
-								pos: position{line: 1119, col: 6, offset: 34614},
+								pos: position{line: 1119, col: 6, offset: 34615},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2525, col: 22, offset: 81188},
+										pos: position{line: 2525, col: 22, offset: 81189},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 22, offset: 81188},
+											pos: position{line: 2525, col: 22, offset: 81189},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2530, col: 31, offset: 81438},
+													pos:        position{line: 2530, col: 31, offset: 81439},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2530, col: 36, offset: 81443},
+													pos: position{line: 2530, col: 36, offset: 81444},
 													expr: &litMatcher{
-														pos:        position{line: 2530, col: 37, offset: 81444},
+														pos:        position{line: 2530, col: 37, offset: 81445},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2525, col: 49, offset: 81215},
+													pos:   position{line: 2525, col: 49, offset: 81216},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 13, offset: 90936},
+														pos: position{line: 2868, col: 13, offset: 90937},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2868, col: 13, offset: 90936},
+															pos: position{line: 2868, col: 13, offset: 90937},
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 13, offset: 90936},
+																pos:        position{line: 2868, col: 13, offset: 90937},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16930,28 +16930,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92808},
+													pos: position{line: 2944, col: 8, offset: 92809},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92581},
+															pos: position{line: 2931, col: 12, offset: 92582},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92582},
+																pos: position{line: 2931, col: 13, offset: 92583},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92582},
+																		pos:        position{line: 2931, col: 13, offset: 92583},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92589},
+																		pos:        position{line: 2931, col: 20, offset: 92590},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92598},
+																		pos:        position{line: 2931, col: 29, offset: 92599},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16960,9 +16960,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92758},
+															pos: position{line: 2941, col: 8, offset: 92759},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92759,
+																line: 2941, col: 9, offset: 92760,
 															},
 														},
 													},
@@ -16971,36 +16971,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 833, col: 5, offset: 27007},
+										pos: position{line: 833, col: 5, offset: 27008},
 										run: (*parser).callonDocumentHeader132,
 										expr: &seqExpr{
-											pos: position{line: 833, col: 5, offset: 27007},
+											pos: position{line: 833, col: 5, offset: 27008},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 753, col: 5, offset: 24267},
+													pos: position{line: 753, col: 5, offset: 24268},
 													run: (*parser).callonDocumentHeader134,
 													expr: &seqExpr{
-														pos: position{line: 753, col: 5, offset: 24267},
+														pos: position{line: 753, col: 5, offset: 24268},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 753, col: 5, offset: 24267},
+																pos:   position{line: 753, col: 5, offset: 24268},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 753, col: 16, offset: 24278},
+																	pos: position{line: 753, col: 16, offset: 24279},
 																	run: (*parser).callonDocumentHeader137,
 																	expr: &seqExpr{
-																		pos: position{line: 753, col: 16, offset: 24278},
+																		pos: position{line: 753, col: 16, offset: 24279},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 753, col: 16, offset: 24278},
+																				pos:        position{line: 753, col: 16, offset: 24279},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 753, col: 23, offset: 24285},
+																				pos: position{line: 753, col: 23, offset: 24286},
 																				expr: &litMatcher{
-																					pos:        position{line: 753, col: 23, offset: 24285},
+																					pos:        position{line: 753, col: 23, offset: 24286},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -17011,12 +17011,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 755, col: 8, offset: 24369},
+																pos: position{line: 755, col: 8, offset: 24370},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92410},
+																	pos: position{line: 2922, col: 10, offset: 92411},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92410},
+																		pos:        position{line: 2922, col: 10, offset: 92411},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17025,28 +17025,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92808},
+																pos: position{line: 2944, col: 8, offset: 92809},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92581},
+																		pos: position{line: 2931, col: 12, offset: 92582},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92582},
+																			pos: position{line: 2931, col: 13, offset: 92583},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92582},
+																					pos:        position{line: 2931, col: 13, offset: 92583},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92589},
+																					pos:        position{line: 2931, col: 20, offset: 92590},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92598},
+																					pos:        position{line: 2931, col: 29, offset: 92599},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17055,9 +17055,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92758},
+																		pos: position{line: 2941, col: 8, offset: 92759},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92759,
+																			line: 2941, col: 9, offset: 92760,
 																		},
 																	},
 																},
@@ -17066,46 +17066,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 834, col: 5, offset: 27038},
+													pos:   position{line: 834, col: 5, offset: 27039},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 844, col: 5, offset: 27324},
+														pos: position{line: 844, col: 5, offset: 27325},
 														expr: &actionExpr{
-															pos: position{line: 844, col: 6, offset: 27325},
+															pos: position{line: 844, col: 6, offset: 27326},
 															run: (*parser).callonDocumentHeader155,
 															expr: &seqExpr{
-																pos: position{line: 844, col: 6, offset: 27325},
+																pos: position{line: 844, col: 6, offset: 27326},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 844, col: 6, offset: 27325},
+																		pos: position{line: 844, col: 6, offset: 27326},
 																		expr: &choiceExpr{
-																			pos: position{line: 841, col: 29, offset: 27267},
+																			pos: position{line: 841, col: 29, offset: 27268},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 753, col: 5, offset: 24267},
+																					pos: position{line: 753, col: 5, offset: 24268},
 																					run: (*parser).callonDocumentHeader159,
 																					expr: &seqExpr{
-																						pos: position{line: 753, col: 5, offset: 24267},
+																						pos: position{line: 753, col: 5, offset: 24268},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 753, col: 5, offset: 24267},
+																								pos:   position{line: 753, col: 5, offset: 24268},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 753, col: 16, offset: 24278},
+																									pos: position{line: 753, col: 16, offset: 24279},
 																									run: (*parser).callonDocumentHeader162,
 																									expr: &seqExpr{
-																										pos: position{line: 753, col: 16, offset: 24278},
+																										pos: position{line: 753, col: 16, offset: 24279},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 753, col: 16, offset: 24278},
+																												pos:        position{line: 753, col: 16, offset: 24279},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 753, col: 23, offset: 24285},
+																												pos: position{line: 753, col: 23, offset: 24286},
 																												expr: &litMatcher{
-																													pos:        position{line: 753, col: 23, offset: 24285},
+																													pos:        position{line: 753, col: 23, offset: 24286},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -17116,12 +17116,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 755, col: 8, offset: 24369},
+																								pos: position{line: 755, col: 8, offset: 24370},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92410},
+																									pos: position{line: 2922, col: 10, offset: 92411},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92410},
+																										pos:        position{line: 2922, col: 10, offset: 92411},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17130,28 +17130,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92808},
+																								pos: position{line: 2944, col: 8, offset: 92809},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92581},
+																										pos: position{line: 2931, col: 12, offset: 92582},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92582},
+																											pos: position{line: 2931, col: 13, offset: 92583},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92582},
+																													pos:        position{line: 2931, col: 13, offset: 92583},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92589},
+																													pos:        position{line: 2931, col: 20, offset: 92590},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92598},
+																													pos:        position{line: 2931, col: 29, offset: 92599},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17160,9 +17160,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92758},
+																										pos: position{line: 2941, col: 8, offset: 92759},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92759,
+																											line: 2941, col: 9, offset: 92760,
 																										},
 																									},
 																								},
@@ -17171,39 +17171,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 845, col: 5, offset: 27355},
+																		pos:   position{line: 845, col: 5, offset: 27356},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 824, col: 5, offset: 26771},
+																			pos: position{line: 824, col: 5, offset: 26772},
 																			run: (*parser).callonDocumentHeader181,
 																			expr: &seqExpr{
-																				pos: position{line: 824, col: 5, offset: 26771},
+																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92744},
+																						pos: position{line: 2939, col: 11, offset: 92745},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92746,
+																							line: 2939, col: 13, offset: 92747,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 825, col: 5, offset: 26846},
+																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90936},
+																							pos: position{line: 2868, col: 13, offset: 90937},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90936},
+																								pos: position{line: 2868, col: 13, offset: 90937},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90936},
+																									pos:        position{line: 2868, col: 13, offset: 90937},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17213,28 +17213,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92808},
+																						pos: position{line: 2944, col: 8, offset: 92809},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92581},
+																								pos: position{line: 2931, col: 12, offset: 92582},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92582},
+																									pos: position{line: 2931, col: 13, offset: 92583},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92582},
+																											pos:        position{line: 2931, col: 13, offset: 92583},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92589},
+																											pos:        position{line: 2931, col: 20, offset: 92590},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92598},
+																											pos:        position{line: 2931, col: 29, offset: 92599},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17243,9 +17243,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92758},
+																								pos: position{line: 2941, col: 8, offset: 92759},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92759,
+																									line: 2941, col: 9, offset: 92760,
 																								},
 																							},
 																						},
@@ -17260,35 +17260,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 835, col: 5, offset: 27072},
+													pos: position{line: 835, col: 5, offset: 27073},
 													expr: &choiceExpr{
-														pos: position{line: 841, col: 29, offset: 27267},
+														pos: position{line: 841, col: 29, offset: 27268},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 753, col: 5, offset: 24267},
+																pos: position{line: 753, col: 5, offset: 24268},
 																run: (*parser).callonDocumentHeader199,
 																expr: &seqExpr{
-																	pos: position{line: 753, col: 5, offset: 24267},
+																	pos: position{line: 753, col: 5, offset: 24268},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 753, col: 5, offset: 24267},
+																			pos:   position{line: 753, col: 5, offset: 24268},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 753, col: 16, offset: 24278},
+																				pos: position{line: 753, col: 16, offset: 24279},
 																				run: (*parser).callonDocumentHeader202,
 																				expr: &seqExpr{
-																					pos: position{line: 753, col: 16, offset: 24278},
+																					pos: position{line: 753, col: 16, offset: 24279},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 753, col: 16, offset: 24278},
+																							pos:        position{line: 753, col: 16, offset: 24279},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 753, col: 23, offset: 24285},
+																							pos: position{line: 753, col: 23, offset: 24286},
 																							expr: &litMatcher{
-																								pos:        position{line: 753, col: 23, offset: 24285},
+																								pos:        position{line: 753, col: 23, offset: 24286},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -17299,12 +17299,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 755, col: 8, offset: 24369},
+																			pos: position{line: 755, col: 8, offset: 24370},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92410},
+																				pos: position{line: 2922, col: 10, offset: 92411},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92410},
+																					pos:        position{line: 2922, col: 10, offset: 92411},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -17313,28 +17313,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92808},
+																			pos: position{line: 2944, col: 8, offset: 92809},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92581},
+																					pos: position{line: 2931, col: 12, offset: 92582},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92582},
+																						pos: position{line: 2931, col: 13, offset: 92583},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92582},
+																								pos:        position{line: 2931, col: 13, offset: 92583},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92589},
+																								pos:        position{line: 2931, col: 20, offset: 92590},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92598},
+																								pos:        position{line: 2931, col: 29, offset: 92599},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -17343,9 +17343,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
@@ -17354,9 +17354,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92758},
+																pos: position{line: 2941, col: 8, offset: 92759},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92759,
+																	line: 2941, col: 9, offset: 92760,
 																},
 															},
 														},
@@ -17369,41 +17369,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1120, col: 5, offset: 34710},
+							pos:   position{line: 1120, col: 5, offset: 34711},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1120, col: 24, offset: 34729},
+								pos: position{line: 1120, col: 24, offset: 34730},
 								expr: &actionExpr{
-									pos: position{line: 1131, col: 5, offset: 35104},
+									pos: position{line: 1131, col: 5, offset: 35105},
 									run: (*parser).callonDocumentHeader222,
 									expr: &seqExpr{
-										pos: position{line: 1131, col: 5, offset: 35104},
+										pos: position{line: 1131, col: 5, offset: 35105},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1131, col: 5, offset: 35104},
+												pos: position{line: 1131, col: 5, offset: 35105},
 												expr: &litMatcher{
-													pos:        position{line: 1131, col: 6, offset: 35105},
+													pos:        position{line: 1131, col: 6, offset: 35106},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1132, col: 5, offset: 35113},
+												pos:   position{line: 1132, col: 5, offset: 35114},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1138, col: 20, offset: 35369},
+													pos: position{line: 1138, col: 20, offset: 35370},
 													run: (*parser).callonDocumentHeader227,
 													expr: &seqExpr{
-														pos: position{line: 1138, col: 20, offset: 35369},
+														pos: position{line: 1138, col: 20, offset: 35370},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1138, col: 20, offset: 35369},
+																pos: position{line: 1138, col: 20, offset: 35370},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92410},
+																	pos: position{line: 2922, col: 10, offset: 92411},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92410},
+																		pos:        position{line: 2922, col: 10, offset: 92411},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17412,37 +17412,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1138, col: 27, offset: 35376},
+																pos:   position{line: 1138, col: 27, offset: 35377},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1138, col: 36, offset: 35385},
+																	pos: position{line: 1138, col: 36, offset: 35386},
 																	expr: &actionExpr{
-																		pos: position{line: 1143, col: 5, offset: 35498},
+																		pos: position{line: 1143, col: 5, offset: 35499},
 																		run: (*parser).callonDocumentHeader234,
 																		expr: &seqExpr{
-																			pos: position{line: 1143, col: 5, offset: 35498},
+																			pos: position{line: 1143, col: 5, offset: 35499},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1143, col: 5, offset: 35498},
+																					pos:   position{line: 1143, col: 5, offset: 35499},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1143, col: 14, offset: 35507},
+																						pos: position{line: 1143, col: 14, offset: 35508},
 																						expr: &actionExpr{
-																							pos: position{line: 1154, col: 5, offset: 35887},
+																							pos: position{line: 1154, col: 5, offset: 35888},
 																							run: (*parser).callonDocumentHeader238,
 																							expr: &seqExpr{
-																								pos: position{line: 1154, col: 5, offset: 35887},
+																								pos: position{line: 1154, col: 5, offset: 35888},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1154, col: 5, offset: 35887},
+																										pos:   position{line: 1154, col: 5, offset: 35888},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1154, col: 12, offset: 35894},
+																											pos: position{line: 1154, col: 12, offset: 35895},
 																											run: (*parser).callonDocumentHeader241,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1154, col: 12, offset: 35894},
+																												pos: position{line: 1154, col: 12, offset: 35895},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1154, col: 12, offset: 35894},
+																													pos:        position{line: 1154, col: 12, offset: 35895},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -17452,12 +17452,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1157, col: 5, offset: 35974},
+																										pos: position{line: 1157, col: 5, offset: 35975},
 																										expr: &actionExpr{
-																											pos: position{line: 2922, col: 10, offset: 92410},
+																											pos: position{line: 2922, col: 10, offset: 92411},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2922, col: 10, offset: 92410},
+																												pos:        position{line: 2922, col: 10, offset: 92411},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17466,17 +17466,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1158, col: 5, offset: 35985},
+																										pos:   position{line: 1158, col: 5, offset: 35986},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1158, col: 11, offset: 35991},
+																											pos: position{line: 1158, col: 11, offset: 35992},
 																											expr: &actionExpr{
-																												pos: position{line: 1158, col: 12, offset: 35992},
+																												pos: position{line: 1158, col: 12, offset: 35993},
 																												run: (*parser).callonDocumentHeader249,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1158, col: 12, offset: 35992},
+																													pos: position{line: 1158, col: 12, offset: 35993},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1158, col: 12, offset: 35992},
+																														pos:        position{line: 1158, col: 12, offset: 35993},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -17487,12 +17487,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1161, col: 5, offset: 36073},
+																										pos: position{line: 1161, col: 5, offset: 36074},
 																										expr: &actionExpr{
-																											pos: position{line: 2922, col: 10, offset: 92410},
+																											pos: position{line: 2922, col: 10, offset: 92411},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2922, col: 10, offset: 92410},
+																												pos:        position{line: 2922, col: 10, offset: 92411},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17501,17 +17501,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1162, col: 5, offset: 36084},
+																										pos:   position{line: 1162, col: 5, offset: 36085},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1162, col: 11, offset: 36090},
+																											pos: position{line: 1162, col: 11, offset: 36091},
 																											expr: &actionExpr{
-																												pos: position{line: 1162, col: 12, offset: 36091},
+																												pos: position{line: 1162, col: 12, offset: 36092},
 																												run: (*parser).callonDocumentHeader257,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1162, col: 12, offset: 36091},
+																													pos: position{line: 1162, col: 12, offset: 36092},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1162, col: 12, offset: 36091},
+																														pos:        position{line: 1162, col: 12, offset: 36092},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -17522,12 +17522,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1165, col: 5, offset: 36170},
+																										pos: position{line: 1165, col: 5, offset: 36171},
 																										expr: &actionExpr{
-																											pos: position{line: 2922, col: 10, offset: 92410},
+																											pos: position{line: 2922, col: 10, offset: 92411},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2922, col: 10, offset: 92410},
+																												pos:        position{line: 2922, col: 10, offset: 92411},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17541,38 +17541,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1143, col: 40, offset: 35533},
+																					pos:   position{line: 1143, col: 40, offset: 35534},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1143, col: 46, offset: 35539},
+																						pos: position{line: 1143, col: 46, offset: 35540},
 																						expr: &actionExpr{
-																							pos: position{line: 1171, col: 5, offset: 36292},
+																							pos: position{line: 1171, col: 5, offset: 36293},
 																							run: (*parser).callonDocumentHeader265,
 																							expr: &seqExpr{
-																								pos: position{line: 1171, col: 5, offset: 36292},
+																								pos: position{line: 1171, col: 5, offset: 36293},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2939, col: 11, offset: 92744},
+																										pos: position{line: 2939, col: 11, offset: 92745},
 																										expr: &anyMatcher{
-																											line: 2939, col: 13, offset: 92746,
+																											line: 2939, col: 13, offset: 92747,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1172, col: 5, offset: 36304},
+																										pos:        position{line: 1172, col: 5, offset: 36305},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1173, col: 5, offset: 36313},
+																										pos:   position{line: 1173, col: 5, offset: 36314},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1173, col: 12, offset: 36320},
+																											pos: position{line: 1173, col: 12, offset: 36321},
 																											run: (*parser).callonDocumentHeader271,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1173, col: 13, offset: 36321},
+																												pos: position{line: 1173, col: 13, offset: 36322},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1173, col: 13, offset: 36321},
+																													pos:        position{line: 1173, col: 13, offset: 36322},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -17582,7 +17582,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1176, col: 5, offset: 36381},
+																										pos:        position{line: 1176, col: 5, offset: 36382},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -17593,12 +17593,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1143, col: 69, offset: 35562},
+																					pos: position{line: 1143, col: 69, offset: 35563},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92410},
+																						pos: position{line: 2922, col: 10, offset: 92411},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92410},
+																							pos:        position{line: 2922, col: 10, offset: 92411},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17607,21 +17607,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1143, col: 76, offset: 35569},
+																					pos: position{line: 1143, col: 76, offset: 35570},
 																					expr: &litMatcher{
-																						pos:        position{line: 1143, col: 76, offset: 35569},
+																						pos:        position{line: 1143, col: 76, offset: 35570},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1143, col: 81, offset: 35574},
+																					pos: position{line: 1143, col: 81, offset: 35575},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92410},
+																						pos: position{line: 2922, col: 10, offset: 92411},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92410},
+																							pos:        position{line: 2922, col: 10, offset: 92411},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17630,7 +17630,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1144, col: 5, offset: 35586},
+																					pos: position{line: 1144, col: 5, offset: 35587},
 																					run: (*parser).callonDocumentHeader283,
 																				},
 																			},
@@ -17639,28 +17639,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92808},
+																pos: position{line: 2944, col: 8, offset: 92809},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92581},
+																		pos: position{line: 2931, col: 12, offset: 92582},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92582},
+																			pos: position{line: 2931, col: 13, offset: 92583},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92582},
+																					pos:        position{line: 2931, col: 13, offset: 92583},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92589},
+																					pos:        position{line: 2931, col: 20, offset: 92590},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92598},
+																					pos:        position{line: 2931, col: 29, offset: 92599},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17669,9 +17669,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92758},
+																		pos: position{line: 2941, col: 8, offset: 92759},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92759,
+																			line: 2941, col: 9, offset: 92760,
 																		},
 																	},
 																},
@@ -17681,41 +17681,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1133, col: 5, offset: 35143},
+												pos: position{line: 1133, col: 5, offset: 35144},
 												expr: &choiceExpr{
-													pos: position{line: 1133, col: 6, offset: 35144},
+													pos: position{line: 1133, col: 6, offset: 35145},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81188},
+															pos: position{line: 2525, col: 22, offset: 81189},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81188},
+																pos: position{line: 2525, col: 22, offset: 81189},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81438},
+																		pos:        position{line: 2530, col: 31, offset: 81439},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81443},
+																		pos: position{line: 2530, col: 36, offset: 81444},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81444},
+																			pos:        position{line: 2530, col: 37, offset: 81445},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81215},
+																		pos:   position{line: 2525, col: 49, offset: 81216},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 13, offset: 90936},
+																			pos: position{line: 2868, col: 13, offset: 90937},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2868, col: 13, offset: 90936},
+																				pos: position{line: 2868, col: 13, offset: 90937},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 13, offset: 90936},
+																					pos:        position{line: 2868, col: 13, offset: 90937},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17725,28 +17725,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92808},
+																		pos: position{line: 2944, col: 8, offset: 92809},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17755,9 +17755,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92758},
+																				pos: position{line: 2941, col: 8, offset: 92759},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92759,
+																					line: 2941, col: 9, offset: 92760,
 																				},
 																			},
 																		},
@@ -17766,36 +17766,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 833, col: 5, offset: 27007},
+															pos: position{line: 833, col: 5, offset: 27008},
 															run: (*parser).callonDocumentHeader311,
 															expr: &seqExpr{
-																pos: position{line: 833, col: 5, offset: 27007},
+																pos: position{line: 833, col: 5, offset: 27008},
 																exprs: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 753, col: 5, offset: 24267},
+																		pos: position{line: 753, col: 5, offset: 24268},
 																		run: (*parser).callonDocumentHeader313,
 																		expr: &seqExpr{
-																			pos: position{line: 753, col: 5, offset: 24267},
+																			pos: position{line: 753, col: 5, offset: 24268},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 753, col: 5, offset: 24267},
+																					pos:   position{line: 753, col: 5, offset: 24268},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 753, col: 16, offset: 24278},
+																						pos: position{line: 753, col: 16, offset: 24279},
 																						run: (*parser).callonDocumentHeader316,
 																						expr: &seqExpr{
-																							pos: position{line: 753, col: 16, offset: 24278},
+																							pos: position{line: 753, col: 16, offset: 24279},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 753, col: 16, offset: 24278},
+																									pos:        position{line: 753, col: 16, offset: 24279},
 																									val:        "////",
 																									ignoreCase: false,
 																									want:       "\"////\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 753, col: 23, offset: 24285},
+																									pos: position{line: 753, col: 23, offset: 24286},
 																									expr: &litMatcher{
-																										pos:        position{line: 753, col: 23, offset: 24285},
+																										pos:        position{line: 753, col: 23, offset: 24286},
 																										val:        "/",
 																										ignoreCase: false,
 																										want:       "\"/\"",
@@ -17806,12 +17806,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 755, col: 8, offset: 24369},
+																					pos: position{line: 755, col: 8, offset: 24370},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92410},
+																						pos: position{line: 2922, col: 10, offset: 92411},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92410},
+																							pos:        position{line: 2922, col: 10, offset: 92411},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17820,28 +17820,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92808},
+																					pos: position{line: 2944, col: 8, offset: 92809},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92581},
+																							pos: position{line: 2931, col: 12, offset: 92582},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92582},
+																								pos: position{line: 2931, col: 13, offset: 92583},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92582},
+																										pos:        position{line: 2931, col: 13, offset: 92583},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92589},
+																										pos:        position{line: 2931, col: 20, offset: 92590},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92598},
+																										pos:        position{line: 2931, col: 29, offset: 92599},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17850,9 +17850,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92758},
+																							pos: position{line: 2941, col: 8, offset: 92759},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92759,
+																								line: 2941, col: 9, offset: 92760,
 																							},
 																						},
 																					},
@@ -17861,46 +17861,46 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 834, col: 5, offset: 27038},
+																		pos:   position{line: 834, col: 5, offset: 27039},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 844, col: 5, offset: 27324},
+																			pos: position{line: 844, col: 5, offset: 27325},
 																			expr: &actionExpr{
-																				pos: position{line: 844, col: 6, offset: 27325},
+																				pos: position{line: 844, col: 6, offset: 27326},
 																				run: (*parser).callonDocumentHeader334,
 																				expr: &seqExpr{
-																					pos: position{line: 844, col: 6, offset: 27325},
+																					pos: position{line: 844, col: 6, offset: 27326},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 844, col: 6, offset: 27325},
+																							pos: position{line: 844, col: 6, offset: 27326},
 																							expr: &choiceExpr{
-																								pos: position{line: 841, col: 29, offset: 27267},
+																								pos: position{line: 841, col: 29, offset: 27268},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 753, col: 5, offset: 24267},
+																										pos: position{line: 753, col: 5, offset: 24268},
 																										run: (*parser).callonDocumentHeader338,
 																										expr: &seqExpr{
-																											pos: position{line: 753, col: 5, offset: 24267},
+																											pos: position{line: 753, col: 5, offset: 24268},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 753, col: 5, offset: 24267},
+																													pos:   position{line: 753, col: 5, offset: 24268},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 753, col: 16, offset: 24278},
+																														pos: position{line: 753, col: 16, offset: 24279},
 																														run: (*parser).callonDocumentHeader341,
 																														expr: &seqExpr{
-																															pos: position{line: 753, col: 16, offset: 24278},
+																															pos: position{line: 753, col: 16, offset: 24279},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 753, col: 16, offset: 24278},
+																																	pos:        position{line: 753, col: 16, offset: 24279},
 																																	val:        "////",
 																																	ignoreCase: false,
 																																	want:       "\"////\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 753, col: 23, offset: 24285},
+																																	pos: position{line: 753, col: 23, offset: 24286},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 753, col: 23, offset: 24285},
+																																		pos:        position{line: 753, col: 23, offset: 24286},
 																																		val:        "/",
 																																		ignoreCase: false,
 																																		want:       "\"/\"",
@@ -17911,12 +17911,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 755, col: 8, offset: 24369},
+																													pos: position{line: 755, col: 8, offset: 24370},
 																													expr: &actionExpr{
-																														pos: position{line: 2922, col: 10, offset: 92410},
+																														pos: position{line: 2922, col: 10, offset: 92411},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2922, col: 10, offset: 92410},
+																															pos:        position{line: 2922, col: 10, offset: 92411},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17925,28 +17925,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2944, col: 8, offset: 92808},
+																													pos: position{line: 2944, col: 8, offset: 92809},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2931, col: 12, offset: 92581},
+																															pos: position{line: 2931, col: 12, offset: 92582},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2931, col: 13, offset: 92582},
+																																pos: position{line: 2931, col: 13, offset: 92583},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 13, offset: 92582},
+																																		pos:        position{line: 2931, col: 13, offset: 92583},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 20, offset: 92589},
+																																		pos:        position{line: 2931, col: 20, offset: 92590},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 29, offset: 92598},
+																																		pos:        position{line: 2931, col: 29, offset: 92599},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17955,9 +17955,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2941, col: 8, offset: 92758},
+																															pos: position{line: 2941, col: 8, offset: 92759},
 																															expr: &anyMatcher{
-																																line: 2941, col: 9, offset: 92759,
+																																line: 2941, col: 9, offset: 92760,
 																															},
 																														},
 																													},
@@ -17966,39 +17966,39 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92758},
+																										pos: position{line: 2941, col: 8, offset: 92759},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92759,
+																											line: 2941, col: 9, offset: 92760,
 																										},
 																									},
 																								},
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 845, col: 5, offset: 27355},
+																							pos:   position{line: 845, col: 5, offset: 27356},
 																							label: "line",
 																							expr: &actionExpr{
-																								pos: position{line: 824, col: 5, offset: 26771},
+																								pos: position{line: 824, col: 5, offset: 26772},
 																								run: (*parser).callonDocumentHeader360,
 																								expr: &seqExpr{
-																									pos: position{line: 824, col: 5, offset: 26771},
+																									pos: position{line: 824, col: 5, offset: 26772},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2939, col: 11, offset: 92744},
+																											pos: position{line: 2939, col: 11, offset: 92745},
 																											expr: &anyMatcher{
-																												line: 2939, col: 13, offset: 92746,
+																												line: 2939, col: 13, offset: 92747,
 																											},
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 825, col: 5, offset: 26846},
+																											pos:   position{line: 825, col: 5, offset: 26847},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2868, col: 13, offset: 90936},
+																												pos: position{line: 2868, col: 13, offset: 90937},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2868, col: 13, offset: 90936},
+																													pos: position{line: 2868, col: 13, offset: 90937},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2868, col: 13, offset: 90936},
+																														pos:        position{line: 2868, col: 13, offset: 90937},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18008,28 +18008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92808},
+																											pos: position{line: 2944, col: 8, offset: 92809},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92581},
+																													pos: position{line: 2931, col: 12, offset: 92582},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92582},
+																														pos: position{line: 2931, col: 13, offset: 92583},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92582},
+																																pos:        position{line: 2931, col: 13, offset: 92583},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92589},
+																																pos:        position{line: 2931, col: 20, offset: 92590},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92598},
+																																pos:        position{line: 2931, col: 29, offset: 92599},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18038,9 +18038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92758},
+																													pos: position{line: 2941, col: 8, offset: 92759},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92759,
+																														line: 2941, col: 9, offset: 92760,
 																													},
 																												},
 																											},
@@ -18055,35 +18055,35 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrOneExpr{
-																		pos: position{line: 835, col: 5, offset: 27072},
+																		pos: position{line: 835, col: 5, offset: 27073},
 																		expr: &choiceExpr{
-																			pos: position{line: 841, col: 29, offset: 27267},
+																			pos: position{line: 841, col: 29, offset: 27268},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 753, col: 5, offset: 24267},
+																					pos: position{line: 753, col: 5, offset: 24268},
 																					run: (*parser).callonDocumentHeader378,
 																					expr: &seqExpr{
-																						pos: position{line: 753, col: 5, offset: 24267},
+																						pos: position{line: 753, col: 5, offset: 24268},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 753, col: 5, offset: 24267},
+																								pos:   position{line: 753, col: 5, offset: 24268},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 753, col: 16, offset: 24278},
+																									pos: position{line: 753, col: 16, offset: 24279},
 																									run: (*parser).callonDocumentHeader381,
 																									expr: &seqExpr{
-																										pos: position{line: 753, col: 16, offset: 24278},
+																										pos: position{line: 753, col: 16, offset: 24279},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 753, col: 16, offset: 24278},
+																												pos:        position{line: 753, col: 16, offset: 24279},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 753, col: 23, offset: 24285},
+																												pos: position{line: 753, col: 23, offset: 24286},
 																												expr: &litMatcher{
-																													pos:        position{line: 753, col: 23, offset: 24285},
+																													pos:        position{line: 753, col: 23, offset: 24286},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -18094,12 +18094,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 755, col: 8, offset: 24369},
+																								pos: position{line: 755, col: 8, offset: 24370},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92410},
+																									pos: position{line: 2922, col: 10, offset: 92411},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92410},
+																										pos:        position{line: 2922, col: 10, offset: 92411},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -18108,28 +18108,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92808},
+																								pos: position{line: 2944, col: 8, offset: 92809},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92581},
+																										pos: position{line: 2931, col: 12, offset: 92582},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92582},
+																											pos: position{line: 2931, col: 13, offset: 92583},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92582},
+																													pos:        position{line: 2931, col: 13, offset: 92583},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92589},
+																													pos:        position{line: 2931, col: 20, offset: 92590},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92598},
+																													pos:        position{line: 2931, col: 29, offset: 92599},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -18138,9 +18138,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92758},
+																										pos: position{line: 2941, col: 8, offset: 92759},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92759,
+																											line: 2941, col: 9, offset: 92760,
 																										},
 																									},
 																								},
@@ -18149,9 +18149,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
@@ -18164,23 +18164,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1134, col: 5, offset: 35218},
+												pos:   position{line: 1134, col: 5, offset: 35219},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1134, col: 14, offset: 35227},
+													pos: position{line: 1134, col: 14, offset: 35228},
 													expr: &actionExpr{
-														pos: position{line: 1182, col: 21, offset: 36570},
+														pos: position{line: 1182, col: 21, offset: 36571},
 														run: (*parser).callonDocumentHeader401,
 														expr: &seqExpr{
-															pos: position{line: 1182, col: 21, offset: 36570},
+															pos: position{line: 1182, col: 21, offset: 36571},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1182, col: 21, offset: 36570},
+																	pos: position{line: 1182, col: 21, offset: 36571},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92410},
+																		pos: position{line: 2922, col: 10, offset: 92411},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92410},
+																			pos:        position{line: 2922, col: 10, offset: 92411},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18189,55 +18189,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1182, col: 28, offset: 36577},
+																	pos: position{line: 1182, col: 28, offset: 36578},
 																	expr: &litMatcher{
-																		pos:        position{line: 1182, col: 29, offset: 36578},
+																		pos:        position{line: 1182, col: 29, offset: 36579},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1182, col: 33, offset: 36582},
+																	pos:   position{line: 1182, col: 33, offset: 36583},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1183, col: 9, offset: 36601},
+																		pos: position{line: 1183, col: 9, offset: 36602},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1183, col: 10, offset: 36602},
+																				pos: position{line: 1183, col: 10, offset: 36603},
 																				run: (*parser).callonDocumentHeader410,
 																				expr: &seqExpr{
-																					pos: position{line: 1183, col: 10, offset: 36602},
+																					pos: position{line: 1183, col: 10, offset: 36603},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1183, col: 10, offset: 36602},
+																							pos:   position{line: 1183, col: 10, offset: 36603},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1192, col: 27, offset: 37119},
+																								pos: position{line: 1192, col: 27, offset: 37120},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1192, col: 27, offset: 37119},
+																										pos: position{line: 1192, col: 27, offset: 37120},
 																										run: (*parser).callonDocumentHeader414,
 																										expr: &seqExpr{
-																											pos: position{line: 1192, col: 27, offset: 37119},
+																											pos: position{line: 1192, col: 27, offset: 37120},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1192, col: 27, offset: 37119},
+																													pos:        position{line: 1192, col: 27, offset: 37120},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1192, col: 32, offset: 37124},
+																													pos:        position{line: 1192, col: 32, offset: 37125},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1192, col: 38, offset: 37130},
+																													pos: position{line: 1192, col: 38, offset: 37131},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1192, col: 38, offset: 37130},
+																														pos:        position{line: 1192, col: 38, offset: 37131},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18248,31 +18248,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1194, col: 5, offset: 37178},
+																										pos: position{line: 1194, col: 5, offset: 37179},
 																										run: (*parser).callonDocumentHeader420,
 																										expr: &seqExpr{
-																											pos: position{line: 1194, col: 5, offset: 37178},
+																											pos: position{line: 1194, col: 5, offset: 37179},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1194, col: 5, offset: 37178},
+																													pos: position{line: 1194, col: 5, offset: 37179},
 																													expr: &litMatcher{
-																														pos:        position{line: 1194, col: 5, offset: 37178},
+																														pos:        position{line: 1194, col: 5, offset: 37179},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1194, col: 11, offset: 37184},
+																													pos:        position{line: 1194, col: 11, offset: 37185},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1194, col: 17, offset: 37190},
+																													pos: position{line: 1194, col: 17, offset: 37191},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1194, col: 17, offset: 37190},
+																														pos:        position{line: 1194, col: 17, offset: 37191},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18280,12 +18280,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1194, col: 28, offset: 37201},
+																													pos: position{line: 1194, col: 28, offset: 37202},
 																													expr: &actionExpr{
-																														pos: position{line: 2922, col: 10, offset: 92410},
+																														pos: position{line: 2922, col: 10, offset: 92411},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2922, col: 10, offset: 92410},
+																															pos:        position{line: 2922, col: 10, offset: 92411},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18294,9 +18294,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1194, col: 35, offset: 37208},
+																													pos: position{line: 1194, col: 35, offset: 37209},
 																													expr: &litMatcher{
-																														pos:        position{line: 1194, col: 36, offset: 37209},
+																														pos:        position{line: 1194, col: 36, offset: 37210},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -18309,26 +18309,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1183, col: 45, offset: 36637},
+																							pos: position{line: 1183, col: 45, offset: 36638},
 																							expr: &litMatcher{
-																								pos:        position{line: 1183, col: 45, offset: 36637},
+																								pos:        position{line: 1183, col: 45, offset: 36638},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1183, col: 50, offset: 36642},
+																							pos:   position{line: 1183, col: 50, offset: 36643},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1183, col: 58, offset: 36650},
+																								pos: position{line: 1183, col: 58, offset: 36651},
 																								expr: &actionExpr{
-																									pos: position{line: 1198, col: 25, offset: 37273},
+																									pos: position{line: 1198, col: 25, offset: 37274},
 																									run: (*parser).callonDocumentHeader436,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1198, col: 25, offset: 37273},
+																										pos: position{line: 1198, col: 25, offset: 37274},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1198, col: 25, offset: 37273},
+																											pos:        position{line: 1198, col: 25, offset: 37274},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -18339,26 +18339,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1183, col: 82, offset: 36674},
+																							pos: position{line: 1183, col: 82, offset: 36675},
 																							expr: &litMatcher{
-																								pos:        position{line: 1183, col: 82, offset: 36674},
+																								pos:        position{line: 1183, col: 82, offset: 36675},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1183, col: 87, offset: 36679},
+																							pos:   position{line: 1183, col: 87, offset: 36680},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1183, col: 97, offset: 36689},
+																								pos: position{line: 1183, col: 97, offset: 36690},
 																								expr: &actionExpr{
-																									pos: position{line: 1202, col: 27, offset: 37345},
+																									pos: position{line: 1202, col: 27, offset: 37346},
 																									run: (*parser).callonDocumentHeader443,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1202, col: 27, offset: 37345},
+																										pos: position{line: 1202, col: 27, offset: 37346},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1202, col: 27, offset: 37345},
+																											pos:        position{line: 1202, col: 27, offset: 37346},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18372,21 +18372,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1185, col: 15, offset: 36807},
+																				pos: position{line: 1185, col: 15, offset: 36808},
 																				run: (*parser).callonDocumentHeader446,
 																				expr: &seqExpr{
-																					pos: position{line: 1185, col: 15, offset: 36807},
+																					pos: position{line: 1185, col: 15, offset: 36808},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1185, col: 15, offset: 36807},
+																							pos:   position{line: 1185, col: 15, offset: 36808},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1198, col: 25, offset: 37273},
+																								pos: position{line: 1198, col: 25, offset: 37274},
 																								run: (*parser).callonDocumentHeader449,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1198, col: 25, offset: 37273},
+																									pos: position{line: 1198, col: 25, offset: 37274},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1198, col: 25, offset: 37273},
+																										pos:        position{line: 1198, col: 25, offset: 37274},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -18396,26 +18396,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1185, col: 46, offset: 36838},
+																							pos: position{line: 1185, col: 46, offset: 36839},
 																							expr: &litMatcher{
-																								pos:        position{line: 1185, col: 46, offset: 36838},
+																								pos:        position{line: 1185, col: 46, offset: 36839},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1185, col: 51, offset: 36843},
+																							pos:   position{line: 1185, col: 51, offset: 36844},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1185, col: 61, offset: 36853},
+																								pos: position{line: 1185, col: 61, offset: 36854},
 																								expr: &actionExpr{
-																									pos: position{line: 1202, col: 27, offset: 37345},
+																									pos: position{line: 1202, col: 27, offset: 37346},
 																									run: (*parser).callonDocumentHeader456,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1202, col: 27, offset: 37345},
+																										pos: position{line: 1202, col: 27, offset: 37346},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1202, col: 27, offset: 37345},
+																											pos:        position{line: 1202, col: 27, offset: 37346},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18432,28 +18432,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92808},
+																	pos: position{line: 2944, col: 8, offset: 92809},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92581},
+																			pos: position{line: 2931, col: 12, offset: 92582},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92582},
+																				pos: position{line: 2931, col: 13, offset: 92583},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92582},
+																						pos:        position{line: 2931, col: 13, offset: 92583},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92589},
+																						pos:        position{line: 2931, col: 20, offset: 92590},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92598},
+																						pos:        position{line: 2931, col: 29, offset: 92599},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18462,9 +18462,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92758},
+																			pos: position{line: 2941, col: 8, offset: 92759},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92759,
+																				line: 2941, col: 9, offset: 92760,
 																			},
 																		},
 																	},
@@ -18480,31 +18480,31 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1121, col: 5, offset: 34764},
+							pos:   position{line: 1121, col: 5, offset: 34765},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1121, col: 19, offset: 34778},
+								pos: position{line: 1121, col: 19, offset: 34779},
 								expr: &choiceExpr{
-									pos: position{line: 1121, col: 20, offset: 34779},
+									pos: position{line: 1121, col: 20, offset: 34780},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1121, col: 20, offset: 34779},
+											pos:  position{line: 1121, col: 20, offset: 34780},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
-											pos: position{line: 362, col: 19, offset: 11011},
+											pos: position{line: 362, col: 19, offset: 11012},
 											run: (*parser).callonDocumentHeader471,
 											expr: &seqExpr{
-												pos: position{line: 362, col: 19, offset: 11011},
+												pos: position{line: 362, col: 19, offset: 11012},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 362, col: 19, offset: 11011},
+														pos:        position{line: 362, col: 19, offset: 11012},
 														val:        ":!",
 														ignoreCase: false,
 														want:       "\":!\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 362, col: 24, offset: 11016},
+														pos:   position{line: 362, col: 24, offset: 11017},
 														label: "name",
 														expr: &actionExpr{
 															pos: position{line: 320, col: 18, offset: 9837},
@@ -18524,8 +18524,8 @@ var g = &grammar{
 																		pos: position{line: 320, col: 28, offset: 9847},
 																		expr: &charClassMatcher{
 																			pos:        position{line: 320, col: 29, offset: 9848},
-																			val:        "[-\\pL\\pN]",
-																			chars:      []rune{'-'},
+																			val:        "[_-\\pL\\pN]",
+																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
 																			inverted:   false,
@@ -18536,18 +18536,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 362, col: 45, offset: 11037},
+														pos:        position{line: 362, col: 45, offset: 11038},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 362, col: 49, offset: 11041},
+														pos: position{line: 362, col: 49, offset: 11042},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92410},
+															pos: position{line: 2922, col: 10, offset: 92411},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92410},
+																pos:        position{line: 2922, col: 10, offset: 92411},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18556,28 +18556,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92808},
+														pos: position{line: 2944, col: 8, offset: 92809},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92581},
+																pos: position{line: 2931, col: 12, offset: 92582},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92582},
+																	pos: position{line: 2931, col: 13, offset: 92583},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92582},
+																			pos:        position{line: 2931, col: 13, offset: 92583},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92589},
+																			pos:        position{line: 2931, col: 20, offset: 92590},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92598},
+																			pos:        position{line: 2931, col: 29, offset: 92599},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18586,9 +18586,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92758},
+																pos: position{line: 2941, col: 8, offset: 92759},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92759,
+																	line: 2941, col: 9, offset: 92760,
 																},
 															},
 														},
@@ -18597,19 +18597,19 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 364, col: 9, offset: 11132},
+											pos: position{line: 364, col: 9, offset: 11133},
 											run: (*parser).callonDocumentHeader492,
 											expr: &seqExpr{
-												pos: position{line: 364, col: 9, offset: 11132},
+												pos: position{line: 364, col: 9, offset: 11133},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 364, col: 9, offset: 11132},
+														pos:        position{line: 364, col: 9, offset: 11133},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 364, col: 13, offset: 11136},
+														pos:   position{line: 364, col: 13, offset: 11137},
 														label: "name",
 														expr: &actionExpr{
 															pos: position{line: 320, col: 18, offset: 9837},
@@ -18629,8 +18629,8 @@ var g = &grammar{
 																		pos: position{line: 320, col: 28, offset: 9847},
 																		expr: &charClassMatcher{
 																			pos:        position{line: 320, col: 29, offset: 9848},
-																			val:        "[-\\pL\\pN]",
-																			chars:      []rune{'-'},
+																			val:        "[_-\\pL\\pN]",
+																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
 																			inverted:   false,
@@ -18641,18 +18641,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 364, col: 34, offset: 11157},
+														pos:        position{line: 364, col: 34, offset: 11158},
 														val:        "!:",
 														ignoreCase: false,
 														want:       "\"!:\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 364, col: 39, offset: 11162},
+														pos: position{line: 364, col: 39, offset: 11163},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92410},
+															pos: position{line: 2922, col: 10, offset: 92411},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92410},
+																pos:        position{line: 2922, col: 10, offset: 92411},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18661,28 +18661,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92808},
+														pos: position{line: 2944, col: 8, offset: 92809},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92581},
+																pos: position{line: 2931, col: 12, offset: 92582},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92582},
+																	pos: position{line: 2931, col: 13, offset: 92583},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92582},
+																			pos:        position{line: 2931, col: 13, offset: 92583},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92589},
+																			pos:        position{line: 2931, col: 20, offset: 92590},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92598},
+																			pos:        position{line: 2931, col: 29, offset: 92599},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18691,9 +18691,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92758},
+																pos: position{line: 2941, col: 8, offset: 92759},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92759,
+																	line: 2941, col: 9, offset: 92760,
 																},
 															},
 														},
@@ -18702,36 +18702,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2525, col: 22, offset: 81188},
+											pos: position{line: 2525, col: 22, offset: 81189},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2525, col: 22, offset: 81188},
+												pos: position{line: 2525, col: 22, offset: 81189},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2530, col: 31, offset: 81438},
+														pos:        position{line: 2530, col: 31, offset: 81439},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2530, col: 36, offset: 81443},
+														pos: position{line: 2530, col: 36, offset: 81444},
 														expr: &litMatcher{
-															pos:        position{line: 2530, col: 37, offset: 81444},
+															pos:        position{line: 2530, col: 37, offset: 81445},
 															val:        "/",
 															ignoreCase: false,
 															want:       "\"/\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2525, col: 49, offset: 81215},
+														pos:   position{line: 2525, col: 49, offset: 81216},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2868, col: 13, offset: 90936},
+															pos: position{line: 2868, col: 13, offset: 90937},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2868, col: 13, offset: 90936},
+																pos: position{line: 2868, col: 13, offset: 90937},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2868, col: 13, offset: 90936},
+																	pos:        position{line: 2868, col: 13, offset: 90937},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18741,28 +18741,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92808},
+														pos: position{line: 2944, col: 8, offset: 92809},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92581},
+																pos: position{line: 2931, col: 12, offset: 92582},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92582},
+																	pos: position{line: 2931, col: 13, offset: 92583},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92582},
+																			pos:        position{line: 2931, col: 13, offset: 92583},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92589},
+																			pos:        position{line: 2931, col: 20, offset: 92590},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92598},
+																			pos:        position{line: 2931, col: 29, offset: 92599},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18771,9 +18771,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92758},
+																pos: position{line: 2941, col: 8, offset: 92759},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92759,
+																	line: 2941, col: 9, offset: 92760,
 																},
 															},
 														},
@@ -18782,36 +18782,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 833, col: 5, offset: 27007},
+											pos: position{line: 833, col: 5, offset: 27008},
 											run: (*parser).callonDocumentHeader530,
 											expr: &seqExpr{
-												pos: position{line: 833, col: 5, offset: 27007},
+												pos: position{line: 833, col: 5, offset: 27008},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 753, col: 5, offset: 24267},
+														pos: position{line: 753, col: 5, offset: 24268},
 														run: (*parser).callonDocumentHeader532,
 														expr: &seqExpr{
-															pos: position{line: 753, col: 5, offset: 24267},
+															pos: position{line: 753, col: 5, offset: 24268},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 753, col: 5, offset: 24267},
+																	pos:   position{line: 753, col: 5, offset: 24268},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 753, col: 16, offset: 24278},
+																		pos: position{line: 753, col: 16, offset: 24279},
 																		run: (*parser).callonDocumentHeader535,
 																		expr: &seqExpr{
-																			pos: position{line: 753, col: 16, offset: 24278},
+																			pos: position{line: 753, col: 16, offset: 24279},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 753, col: 16, offset: 24278},
+																					pos:        position{line: 753, col: 16, offset: 24279},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 753, col: 23, offset: 24285},
+																					pos: position{line: 753, col: 23, offset: 24286},
 																					expr: &litMatcher{
-																						pos:        position{line: 753, col: 23, offset: 24285},
+																						pos:        position{line: 753, col: 23, offset: 24286},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -18822,12 +18822,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 755, col: 8, offset: 24369},
+																	pos: position{line: 755, col: 8, offset: 24370},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92410},
+																		pos: position{line: 2922, col: 10, offset: 92411},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92410},
+																			pos:        position{line: 2922, col: 10, offset: 92411},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18836,28 +18836,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92808},
+																	pos: position{line: 2944, col: 8, offset: 92809},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92581},
+																			pos: position{line: 2931, col: 12, offset: 92582},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92582},
+																				pos: position{line: 2931, col: 13, offset: 92583},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92582},
+																						pos:        position{line: 2931, col: 13, offset: 92583},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92589},
+																						pos:        position{line: 2931, col: 20, offset: 92590},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92598},
+																						pos:        position{line: 2931, col: 29, offset: 92599},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18866,9 +18866,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92758},
+																			pos: position{line: 2941, col: 8, offset: 92759},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92759,
+																				line: 2941, col: 9, offset: 92760,
 																			},
 																		},
 																	},
@@ -18877,46 +18877,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 834, col: 5, offset: 27038},
+														pos:   position{line: 834, col: 5, offset: 27039},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 844, col: 5, offset: 27324},
+															pos: position{line: 844, col: 5, offset: 27325},
 															expr: &actionExpr{
-																pos: position{line: 844, col: 6, offset: 27325},
+																pos: position{line: 844, col: 6, offset: 27326},
 																run: (*parser).callonDocumentHeader553,
 																expr: &seqExpr{
-																	pos: position{line: 844, col: 6, offset: 27325},
+																	pos: position{line: 844, col: 6, offset: 27326},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 844, col: 6, offset: 27325},
+																			pos: position{line: 844, col: 6, offset: 27326},
 																			expr: &choiceExpr{
-																				pos: position{line: 841, col: 29, offset: 27267},
+																				pos: position{line: 841, col: 29, offset: 27268},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 753, col: 5, offset: 24267},
+																						pos: position{line: 753, col: 5, offset: 24268},
 																						run: (*parser).callonDocumentHeader557,
 																						expr: &seqExpr{
-																							pos: position{line: 753, col: 5, offset: 24267},
+																							pos: position{line: 753, col: 5, offset: 24268},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 753, col: 5, offset: 24267},
+																									pos:   position{line: 753, col: 5, offset: 24268},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 753, col: 16, offset: 24278},
+																										pos: position{line: 753, col: 16, offset: 24279},
 																										run: (*parser).callonDocumentHeader560,
 																										expr: &seqExpr{
-																											pos: position{line: 753, col: 16, offset: 24278},
+																											pos: position{line: 753, col: 16, offset: 24279},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 753, col: 16, offset: 24278},
+																													pos:        position{line: 753, col: 16, offset: 24279},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 753, col: 23, offset: 24285},
+																													pos: position{line: 753, col: 23, offset: 24286},
 																													expr: &litMatcher{
-																														pos:        position{line: 753, col: 23, offset: 24285},
+																														pos:        position{line: 753, col: 23, offset: 24286},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -18927,12 +18927,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 755, col: 8, offset: 24369},
+																									pos: position{line: 755, col: 8, offset: 24370},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92410},
+																										pos: position{line: 2922, col: 10, offset: 92411},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92410},
+																											pos:        position{line: 2922, col: 10, offset: 92411},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18941,28 +18941,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92808},
+																									pos: position{line: 2944, col: 8, offset: 92809},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92581},
+																											pos: position{line: 2931, col: 12, offset: 92582},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92582},
+																												pos: position{line: 2931, col: 13, offset: 92583},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92582},
+																														pos:        position{line: 2931, col: 13, offset: 92583},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92589},
+																														pos:        position{line: 2931, col: 20, offset: 92590},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92598},
+																														pos:        position{line: 2931, col: 29, offset: 92599},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18971,9 +18971,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92758},
+																											pos: position{line: 2941, col: 8, offset: 92759},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92759,
+																												line: 2941, col: 9, offset: 92760,
 																											},
 																										},
 																									},
@@ -18982,39 +18982,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92758},
+																						pos: position{line: 2941, col: 8, offset: 92759},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92759,
+																							line: 2941, col: 9, offset: 92760,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 845, col: 5, offset: 27355},
+																			pos:   position{line: 845, col: 5, offset: 27356},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 824, col: 5, offset: 26771},
+																				pos: position{line: 824, col: 5, offset: 26772},
 																				run: (*parser).callonDocumentHeader579,
 																				expr: &seqExpr{
-																					pos: position{line: 824, col: 5, offset: 26771},
+																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92744},
+																							pos: position{line: 2939, col: 11, offset: 92745},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92746,
+																								line: 2939, col: 13, offset: 92747,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 825, col: 5, offset: 26846},
+																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90936},
+																								pos: position{line: 2868, col: 13, offset: 90937},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90936},
+																									pos: position{line: 2868, col: 13, offset: 90937},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90936},
+																										pos:        position{line: 2868, col: 13, offset: 90937},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19024,28 +19024,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19054,9 +19054,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -19071,35 +19071,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 835, col: 5, offset: 27072},
+														pos: position{line: 835, col: 5, offset: 27073},
 														expr: &choiceExpr{
-															pos: position{line: 841, col: 29, offset: 27267},
+															pos: position{line: 841, col: 29, offset: 27268},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 753, col: 5, offset: 24267},
+																	pos: position{line: 753, col: 5, offset: 24268},
 																	run: (*parser).callonDocumentHeader597,
 																	expr: &seqExpr{
-																		pos: position{line: 753, col: 5, offset: 24267},
+																		pos: position{line: 753, col: 5, offset: 24268},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 753, col: 5, offset: 24267},
+																				pos:   position{line: 753, col: 5, offset: 24268},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 753, col: 16, offset: 24278},
+																					pos: position{line: 753, col: 16, offset: 24279},
 																					run: (*parser).callonDocumentHeader600,
 																					expr: &seqExpr{
-																						pos: position{line: 753, col: 16, offset: 24278},
+																						pos: position{line: 753, col: 16, offset: 24279},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 753, col: 16, offset: 24278},
+																								pos:        position{line: 753, col: 16, offset: 24279},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 753, col: 23, offset: 24285},
+																								pos: position{line: 753, col: 23, offset: 24286},
 																								expr: &litMatcher{
-																									pos:        position{line: 753, col: 23, offset: 24285},
+																									pos:        position{line: 753, col: 23, offset: 24286},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -19110,12 +19110,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 755, col: 8, offset: 24369},
+																				pos: position{line: 755, col: 8, offset: 24370},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92410},
+																					pos: position{line: 2922, col: 10, offset: 92411},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92410},
+																						pos:        position{line: 2922, col: 10, offset: 92411},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -19124,28 +19124,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92808},
+																				pos: position{line: 2944, col: 8, offset: 92809},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92581},
+																						pos: position{line: 2931, col: 12, offset: 92582},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92582},
+																							pos: position{line: 2931, col: 13, offset: 92583},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92582},
+																									pos:        position{line: 2931, col: 13, offset: 92583},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92589},
+																									pos:        position{line: 2931, col: 20, offset: 92590},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92598},
+																									pos:        position{line: 2931, col: 29, offset: 92599},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -19154,9 +19154,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92758},
+																						pos: position{line: 2941, col: 8, offset: 92759},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92759,
+																							line: 2941, col: 9, offset: 92760,
 																						},
 																					},
 																				},
@@ -19165,9 +19165,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92758},
+																	pos: position{line: 2941, col: 8, offset: 92759},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92759,
+																		line: 2941, col: 9, offset: 92760,
 																	},
 																},
 															},
@@ -19186,26 +19186,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1125, col: 1, offset: 34976},
+			pos:  position{line: 1125, col: 1, offset: 34977},
 			expr: &actionExpr{
-				pos: position{line: 1126, col: 5, offset: 34998},
+				pos: position{line: 1126, col: 5, offset: 34999},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1126, col: 5, offset: 34998},
+					pos: position{line: 1126, col: 5, offset: 34999},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1126, col: 5, offset: 34998},
+							pos:        position{line: 1126, col: 5, offset: 34999},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2926, col: 11, offset: 92471},
+							pos: position{line: 2926, col: 11, offset: 92472},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2926, col: 11, offset: 92471},
+								pos: position{line: 2926, col: 11, offset: 92472},
 								expr: &charClassMatcher{
-									pos:        position{line: 2926, col: 11, offset: 92471},
+									pos:        position{line: 2926, col: 11, offset: 92472},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19214,36 +19214,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1126, col: 16, offset: 35009},
+							pos:   position{line: 1126, col: 16, offset: 35010},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1126, col: 23, offset: 35016},
+								pos:  position{line: 1126, col: 23, offset: 35017},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92808},
+							pos: position{line: 2944, col: 8, offset: 92809},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92581},
+									pos: position{line: 2931, col: 12, offset: 92582},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92582},
+										pos: position{line: 2931, col: 13, offset: 92583},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92582},
+												pos:        position{line: 2931, col: 13, offset: 92583},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92589},
+												pos:        position{line: 2931, col: 20, offset: 92590},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92598},
+												pos:        position{line: 2931, col: 29, offset: 92599},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19252,9 +19252,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92758},
+									pos: position{line: 2941, col: 8, offset: 92759},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92759,
+										line: 2941, col: 9, offset: 92760,
 									},
 								},
 							},
@@ -19265,23 +19265,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1153, col: 1, offset: 35856},
+			pos:  position{line: 1153, col: 1, offset: 35857},
 			expr: &actionExpr{
-				pos: position{line: 1154, col: 5, offset: 35887},
+				pos: position{line: 1154, col: 5, offset: 35888},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1154, col: 5, offset: 35887},
+					pos: position{line: 1154, col: 5, offset: 35888},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1154, col: 5, offset: 35887},
+							pos:   position{line: 1154, col: 5, offset: 35888},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1154, col: 12, offset: 35894},
+								pos: position{line: 1154, col: 12, offset: 35895},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1154, col: 12, offset: 35894},
+									pos: position{line: 1154, col: 12, offset: 35895},
 									expr: &charClassMatcher{
-										pos:        position{line: 1154, col: 12, offset: 35894},
+										pos:        position{line: 1154, col: 12, offset: 35895},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -19291,12 +19291,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1157, col: 5, offset: 35974},
+							pos: position{line: 1157, col: 5, offset: 35975},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92410},
+								pos: position{line: 2922, col: 10, offset: 92411},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92410},
+									pos:        position{line: 2922, col: 10, offset: 92411},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19305,17 +19305,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1158, col: 5, offset: 35985},
+							pos:   position{line: 1158, col: 5, offset: 35986},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1158, col: 11, offset: 35991},
+								pos: position{line: 1158, col: 11, offset: 35992},
 								expr: &actionExpr{
-									pos: position{line: 1158, col: 12, offset: 35992},
+									pos: position{line: 1158, col: 12, offset: 35993},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1158, col: 12, offset: 35992},
+										pos: position{line: 1158, col: 12, offset: 35993},
 										expr: &charClassMatcher{
-											pos:        position{line: 1158, col: 12, offset: 35992},
+											pos:        position{line: 1158, col: 12, offset: 35993},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -19326,12 +19326,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1161, col: 5, offset: 36073},
+							pos: position{line: 1161, col: 5, offset: 36074},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92410},
+								pos: position{line: 2922, col: 10, offset: 92411},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92410},
+									pos:        position{line: 2922, col: 10, offset: 92411},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19340,17 +19340,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1162, col: 5, offset: 36084},
+							pos:   position{line: 1162, col: 5, offset: 36085},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1162, col: 11, offset: 36090},
+								pos: position{line: 1162, col: 11, offset: 36091},
 								expr: &actionExpr{
-									pos: position{line: 1162, col: 12, offset: 36091},
+									pos: position{line: 1162, col: 12, offset: 36092},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1162, col: 12, offset: 36091},
+										pos: position{line: 1162, col: 12, offset: 36092},
 										expr: &charClassMatcher{
-											pos:        position{line: 1162, col: 12, offset: 36091},
+											pos:        position{line: 1162, col: 12, offset: 36092},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -19361,12 +19361,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1165, col: 5, offset: 36170},
+							pos: position{line: 1165, col: 5, offset: 36171},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92410},
+								pos: position{line: 2922, col: 10, offset: 92411},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92410},
+									pos:        position{line: 2922, col: 10, offset: 92411},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19380,28 +19380,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1278, col: 1, offset: 39899},
+			pos:  position{line: 1278, col: 1, offset: 39900},
 			expr: &actionExpr{
-				pos: position{line: 1279, col: 5, offset: 39920},
+				pos: position{line: 1279, col: 5, offset: 39921},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1279, col: 5, offset: 39920},
+					pos: position{line: 1279, col: 5, offset: 39921},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1279, col: 5, offset: 39920},
+							pos: position{line: 1279, col: 5, offset: 39921},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1282, col: 5, offset: 39979},
+							pos:        position{line: 1282, col: 5, offset: 39980},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1282, col: 12, offset: 39986},
+							pos:   position{line: 1282, col: 12, offset: 39987},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1282, col: 24, offset: 39998},
+								pos:  position{line: 1282, col: 24, offset: 39999},
 								name: "InlineAttributes",
 							},
 						},
@@ -19411,33 +19411,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1289, col: 1, offset: 40286},
+			pos:  position{line: 1289, col: 1, offset: 40287},
 			expr: &actionExpr{
-				pos: position{line: 1290, col: 5, offset: 40305},
+				pos: position{line: 1290, col: 5, offset: 40306},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1290, col: 5, offset: 40305},
+					pos: position{line: 1290, col: 5, offset: 40306},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1290, col: 5, offset: 40305},
+							pos: position{line: 1290, col: 5, offset: 40306},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1293, col: 5, offset: 40364},
+							pos:        position{line: 1293, col: 5, offset: 40365},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1293, col: 13, offset: 40372},
+							pos:   position{line: 1293, col: 13, offset: 40373},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2907, col: 7, offset: 92062},
+								pos: position{line: 2907, col: 7, offset: 92063},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2907, col: 7, offset: 92062},
+									pos: position{line: 2907, col: 7, offset: 92063},
 									expr: &charClassMatcher{
-										pos:        position{line: 2907, col: 7, offset: 92062},
+										pos:        position{line: 2907, col: 7, offset: 92063},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19447,10 +19447,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1293, col: 21, offset: 40380},
+							pos:   position{line: 1293, col: 21, offset: 40381},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1293, col: 33, offset: 40392},
+								pos:  position{line: 1293, col: 33, offset: 40393},
 								name: "InlineAttributes",
 							},
 						},
@@ -19460,29 +19460,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1300, col: 1, offset: 40691},
+			pos:  position{line: 1300, col: 1, offset: 40692},
 			expr: &actionExpr{
-				pos: position{line: 1300, col: 14, offset: 40704},
+				pos: position{line: 1300, col: 14, offset: 40705},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1300, col: 14, offset: 40704},
+					pos: position{line: 1300, col: 14, offset: 40705},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1300, col: 14, offset: 40704},
+							pos:        position{line: 1300, col: 14, offset: 40705},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1300, col: 19, offset: 40709},
+							pos:   position{line: 1300, col: 19, offset: 40710},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1300, col: 25, offset: 40715},
+								pos:  position{line: 1300, col: 25, offset: 40716},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1300, col: 43, offset: 40733},
+							pos:        position{line: 1300, col: 43, offset: 40734},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19493,25 +19493,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1304, col: 1, offset: 40802},
+			pos:  position{line: 1304, col: 1, offset: 40803},
 			expr: &actionExpr{
-				pos: position{line: 1304, col: 21, offset: 40822},
+				pos: position{line: 1304, col: 21, offset: 40823},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1304, col: 21, offset: 40822},
+					pos:   position{line: 1304, col: 21, offset: 40823},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1304, col: 30, offset: 40831},
+						pos: position{line: 1304, col: 30, offset: 40832},
 						expr: &choiceExpr{
-							pos: position{line: 1304, col: 31, offset: 40832},
+							pos: position{line: 1304, col: 31, offset: 40833},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2816, col: 14, offset: 89579},
+									pos: position{line: 2816, col: 14, offset: 89580},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2816, col: 14, offset: 89579},
+										pos: position{line: 2816, col: 14, offset: 89580},
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 14, offset: 89579},
+											pos:        position{line: 2816, col: 14, offset: 89580},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19520,14 +19520,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1304, col: 43, offset: 40844},
+									pos:  position{line: 1304, col: 43, offset: 40845},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2922, col: 10, offset: 92410},
+									pos: position{line: 2922, col: 10, offset: 92411},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2922, col: 10, offset: 92410},
+										pos:        position{line: 2922, col: 10, offset: 92411},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19535,23 +19535,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2512, col: 5, offset: 80734},
+									pos: position{line: 2512, col: 5, offset: 80735},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2512, col: 5, offset: 80734},
+										pos: position{line: 2512, col: 5, offset: 80735},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2512, col: 5, offset: 80734},
+												pos: position{line: 2512, col: 5, offset: 80735},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2515, col: 5, offset: 80810},
+												pos:   position{line: 2515, col: 5, offset: 80811},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2516, col: 9, offset: 80828},
+													pos: position{line: 2516, col: 9, offset: 80829},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2516, col: 10, offset: 80829},
+														pos:        position{line: 2516, col: 10, offset: 80830},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19563,27 +19563,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1211, col: 23, offset: 37655},
+									pos: position{line: 1211, col: 23, offset: 37656},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1211, col: 23, offset: 37655},
+										pos: position{line: 1211, col: 23, offset: 37656},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1209, col: 32, offset: 37623},
+												pos:        position{line: 1209, col: 32, offset: 37624},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1211, col: 51, offset: 37683},
+												pos:   position{line: 1211, col: 51, offset: 37684},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1211, col: 56, offset: 37688},
+													pos: position{line: 1211, col: 56, offset: 37689},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1211, col: 56, offset: 37688},
+														pos: position{line: 1211, col: 56, offset: 37689},
 														expr: &charClassMatcher{
-															pos:        position{line: 1211, col: 56, offset: 37688},
+															pos:        position{line: 1211, col: 56, offset: 37689},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -19593,7 +19593,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1209, col: 32, offset: 37623},
+												pos:        position{line: 1209, col: 32, offset: 37624},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
@@ -19602,22 +19602,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1304, col: 104, offset: 40905},
+									pos: position{line: 1304, col: 104, offset: 40906},
 									run: (*parser).callonIndexTermContent25,
 									expr: &seqExpr{
-										pos: position{line: 1304, col: 105, offset: 40906},
+										pos: position{line: 1304, col: 105, offset: 40907},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1304, col: 105, offset: 40906},
+												pos: position{line: 1304, col: 105, offset: 40907},
 												expr: &litMatcher{
-													pos:        position{line: 1304, col: 106, offset: 40907},
+													pos:        position{line: 1304, col: 106, offset: 40908},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1304, col: 111, offset: 40912,
+												line: 1304, col: 111, offset: 40913,
 											},
 										},
 									},
@@ -19630,65 +19630,65 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1324, col: 1, offset: 41621},
+			pos:  position{line: 1324, col: 1, offset: 41622},
 			expr: &actionExpr{
-				pos: position{line: 1325, col: 5, offset: 41640},
+				pos: position{line: 1325, col: 5, offset: 41641},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1325, col: 5, offset: 41640},
+					pos: position{line: 1325, col: 5, offset: 41641},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1325, col: 5, offset: 41640},
+							pos:        position{line: 1325, col: 5, offset: 41641},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1325, col: 15, offset: 41650},
+							pos:   position{line: 1325, col: 15, offset: 41651},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2880, col: 13, offset: 91169},
+								pos: position{line: 2880, col: 13, offset: 91170},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2880, col: 13, offset: 91169},
+									pos: position{line: 2880, col: 13, offset: 91170},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2880, col: 13, offset: 91169},
+											pos:   position{line: 2880, col: 13, offset: 91170},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2880, col: 20, offset: 91176},
+												pos: position{line: 2880, col: 20, offset: 91177},
 												expr: &actionExpr{
-													pos: position{line: 2888, col: 11, offset: 91415},
+													pos: position{line: 2888, col: 11, offset: 91416},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2888, col: 12, offset: 91416},
+														pos: position{line: 2888, col: 12, offset: 91417},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2888, col: 12, offset: 91416},
+																pos:        position{line: 2888, col: 12, offset: 91417},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 24, offset: 91428},
+																pos:        position{line: 2888, col: 24, offset: 91429},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 37, offset: 91441},
+																pos:        position{line: 2888, col: 37, offset: 91442},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 48, offset: 91452},
+																pos:        position{line: 2888, col: 48, offset: 91453},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 59, offset: 91463},
+																pos:        position{line: 2888, col: 59, offset: 91464},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19699,38 +19699,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2880, col: 30, offset: 91186},
+											pos:   position{line: 2880, col: 30, offset: 91187},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2893, col: 5, offset: 91527},
+												pos: position{line: 2893, col: 5, offset: 91528},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2893, col: 5, offset: 91527},
+													pos:   position{line: 2893, col: 5, offset: 91528},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2893, col: 14, offset: 91536},
+														pos: position{line: 2893, col: 14, offset: 91537},
 														expr: &choiceExpr{
-															pos: position{line: 2894, col: 9, offset: 91546},
+															pos: position{line: 2894, col: 9, offset: 91547},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2894, col: 9, offset: 91546},
+																	pos: position{line: 2894, col: 9, offset: 91547},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2894, col: 9, offset: 91546},
+																		pos: position{line: 2894, col: 9, offset: 91547},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2894, col: 9, offset: 91546},
+																				pos: position{line: 2894, col: 9, offset: 91547},
 																				expr: &litMatcher{
-																					pos:        position{line: 2894, col: 10, offset: 91547},
+																					pos:        position{line: 2894, col: 10, offset: 91548},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2895, col: 9, offset: 91575},
+																				pos: position{line: 2895, col: 9, offset: 91576},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2895, col: 10, offset: 91576},
+																					pos:        position{line: 2895, col: 10, offset: 91577},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19741,27 +19741,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2898, col: 11, offset: 91788},
+																	pos: position{line: 2898, col: 11, offset: 91789},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2898, col: 11, offset: 91788},
+																			pos:        position{line: 2898, col: 11, offset: 91789},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2898, col: 19, offset: 91796},
+																			pos: position{line: 2898, col: 19, offset: 91797},
 																			expr: &seqExpr{
-																				pos: position{line: 2898, col: 21, offset: 91798},
+																				pos: position{line: 2898, col: 21, offset: 91799},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2898, col: 21, offset: 91798},
+																						pos: position{line: 2898, col: 21, offset: 91799},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92410},
+																							pos: position{line: 2922, col: 10, offset: 92411},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92410},
+																								pos:        position{line: 2922, col: 10, offset: 92411},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19770,11 +19770,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2898, col: 28, offset: 91805},
+																						pos: position{line: 2898, col: 28, offset: 91806},
 																						expr: &notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92758},
+																							pos: position{line: 2941, col: 8, offset: 92759},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92759,
+																								line: 2941, col: 9, offset: 92760,
 																							},
 																						},
 																					},
@@ -19784,35 +19784,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 649, col: 5, offset: 20790},
+																	pos: position{line: 649, col: 5, offset: 20791},
 																	run: (*parser).callonImageBlock37,
 																	expr: &seqExpr{
-																		pos: position{line: 649, col: 5, offset: 20790},
+																		pos: position{line: 649, col: 5, offset: 20791},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 649, col: 5, offset: 20790},
+																				pos: position{line: 649, col: 5, offset: 20791},
 																				run: (*parser).callonImageBlock39,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 652, col: 5, offset: 20862},
+																				pos:   position{line: 652, col: 5, offset: 20863},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 652, col: 14, offset: 20871},
+																					pos: position{line: 652, col: 14, offset: 20872},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 658, col: 5, offset: 21000},
+																							pos: position{line: 658, col: 5, offset: 21001},
 																							run: (*parser).callonImageBlock42,
 																							expr: &seqExpr{
-																								pos: position{line: 658, col: 5, offset: 21000},
+																								pos: position{line: 658, col: 5, offset: 21001},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 658, col: 5, offset: 21000},
+																										pos:        position{line: 658, col: 5, offset: 21001},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 13, offset: 21008},
+																										pos:   position{line: 658, col: 13, offset: 21009},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -19832,8 +19832,8 @@ var g = &grammar{
 																														pos: position{line: 320, col: 28, offset: 9847},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 320, col: 29, offset: 9848},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -19844,7 +19844,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 658, col: 32, offset: 21027},
+																										pos:        position{line: 658, col: 32, offset: 21028},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19853,19 +19853,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 665, col: 5, offset: 21268},
+																							pos: position{line: 665, col: 5, offset: 21269},
 																							run: (*parser).callonImageBlock52,
 																							expr: &seqExpr{
-																								pos: position{line: 665, col: 5, offset: 21268},
+																								pos: position{line: 665, col: 5, offset: 21269},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 665, col: 5, offset: 21268},
+																										pos:        position{line: 665, col: 5, offset: 21269},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 665, col: 9, offset: 21272},
+																										pos:   position{line: 665, col: 9, offset: 21273},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -19885,8 +19885,8 @@ var g = &grammar{
 																														pos: position{line: 320, col: 28, offset: 9847},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 320, col: 29, offset: 9848},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -19897,7 +19897,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 665, col: 28, offset: 21291},
+																										pos:        position{line: 665, col: 28, offset: 21292},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19906,19 +19906,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 671, col: 25, offset: 21472},
+																							pos: position{line: 671, col: 25, offset: 21473},
 																							run: (*parser).callonImageBlock62,
 																							expr: &seqExpr{
-																								pos: position{line: 671, col: 25, offset: 21472},
+																								pos: position{line: 671, col: 25, offset: 21473},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 671, col: 25, offset: 21472},
+																										pos:        position{line: 671, col: 25, offset: 21473},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 671, col: 37, offset: 21484},
+																										pos:   position{line: 671, col: 37, offset: 21485},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -19938,8 +19938,8 @@ var g = &grammar{
 																														pos: position{line: 320, col: 28, offset: 9847},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 320, col: 29, offset: 9848},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -19950,33 +19950,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 671, col: 56, offset: 21503},
+																										pos:   position{line: 671, col: 56, offset: 21504},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 671, col: 62, offset: 21509},
+																											pos: position{line: 671, col: 62, offset: 21510},
 																											expr: &actionExpr{
-																												pos: position{line: 679, col: 17, offset: 21806},
+																												pos: position{line: 679, col: 17, offset: 21807},
 																												run: (*parser).callonImageBlock73,
 																												expr: &seqExpr{
-																													pos: position{line: 679, col: 17, offset: 21806},
+																													pos: position{line: 679, col: 17, offset: 21807},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 679, col: 17, offset: 21806},
+																															pos:        position{line: 679, col: 17, offset: 21807},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 679, col: 21, offset: 21810},
+																															pos:   position{line: 679, col: 21, offset: 21811},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 679, col: 28, offset: 21817},
+																																pos: position{line: 679, col: 28, offset: 21818},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 679, col: 28, offset: 21817},
+																																		pos: position{line: 679, col: 28, offset: 21818},
 																																		run: (*parser).callonImageBlock78,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 679, col: 28, offset: 21817},
+																																			pos:        position{line: 679, col: 28, offset: 21818},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -19984,12 +19984,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 681, col: 9, offset: 21871},
+																																		pos: position{line: 681, col: 9, offset: 21872},
 																																		run: (*parser).callonImageBlock80,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 681, col: 9, offset: 21871},
+																																			pos: position{line: 681, col: 9, offset: 21872},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 681, col: 9, offset: 21871},
+																																				pos:        position{line: 681, col: 9, offset: 21872},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20006,7 +20006,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 671, col: 78, offset: 21525},
+																										pos:        position{line: 671, col: 78, offset: 21526},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20015,19 +20015,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 675, col: 25, offset: 21643},
+																							pos: position{line: 675, col: 25, offset: 21644},
 																							run: (*parser).callonImageBlock84,
 																							expr: &seqExpr{
-																								pos: position{line: 675, col: 25, offset: 21643},
+																								pos: position{line: 675, col: 25, offset: 21644},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 675, col: 25, offset: 21643},
+																										pos:        position{line: 675, col: 25, offset: 21644},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 675, col: 38, offset: 21656},
+																										pos:   position{line: 675, col: 38, offset: 21657},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -20047,8 +20047,8 @@ var g = &grammar{
 																														pos: position{line: 320, col: 28, offset: 9847},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 320, col: 29, offset: 9848},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -20059,33 +20059,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 675, col: 57, offset: 21675},
+																										pos:   position{line: 675, col: 57, offset: 21676},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 675, col: 63, offset: 21681},
+																											pos: position{line: 675, col: 63, offset: 21682},
 																											expr: &actionExpr{
-																												pos: position{line: 679, col: 17, offset: 21806},
+																												pos: position{line: 679, col: 17, offset: 21807},
 																												run: (*parser).callonImageBlock95,
 																												expr: &seqExpr{
-																													pos: position{line: 679, col: 17, offset: 21806},
+																													pos: position{line: 679, col: 17, offset: 21807},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 679, col: 17, offset: 21806},
+																															pos:        position{line: 679, col: 17, offset: 21807},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 679, col: 21, offset: 21810},
+																															pos:   position{line: 679, col: 21, offset: 21811},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 679, col: 28, offset: 21817},
+																																pos: position{line: 679, col: 28, offset: 21818},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 679, col: 28, offset: 21817},
+																																		pos: position{line: 679, col: 28, offset: 21818},
 																																		run: (*parser).callonImageBlock100,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 679, col: 28, offset: 21817},
+																																			pos:        position{line: 679, col: 28, offset: 21818},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20093,12 +20093,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 681, col: 9, offset: 21871},
+																																		pos: position{line: 681, col: 9, offset: 21872},
 																																		run: (*parser).callonImageBlock102,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 681, col: 9, offset: 21871},
+																																			pos: position{line: 681, col: 9, offset: 21872},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 681, col: 9, offset: 21871},
+																																				pos:        position{line: 681, col: 9, offset: 21872},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20115,7 +20115,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 675, col: 79, offset: 21697},
+																										pos:        position{line: 675, col: 79, offset: 21698},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20130,27 +20130,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1211, col: 23, offset: 37655},
+																	pos: position{line: 1211, col: 23, offset: 37656},
 																	run: (*parser).callonImageBlock106,
 																	expr: &seqExpr{
-																		pos: position{line: 1211, col: 23, offset: 37655},
+																		pos: position{line: 1211, col: 23, offset: 37656},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1209, col: 32, offset: 37623},
+																				pos:        position{line: 1209, col: 32, offset: 37624},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1211, col: 51, offset: 37683},
+																				pos:   position{line: 1211, col: 51, offset: 37684},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1211, col: 56, offset: 37688},
+																					pos: position{line: 1211, col: 56, offset: 37689},
 																					run: (*parser).callonImageBlock110,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1211, col: 56, offset: 37688},
+																						pos: position{line: 1211, col: 56, offset: 37689},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1211, col: 56, offset: 37688},
+																							pos:        position{line: 1211, col: 56, offset: 37689},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20160,7 +20160,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1209, col: 32, offset: 37623},
+																				pos:        position{line: 1209, col: 32, offset: 37624},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20169,10 +20169,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2901, col: 11, offset: 91925},
+																	pos: position{line: 2901, col: 11, offset: 91926},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2901, col: 11, offset: 91925},
+																		pos:        position{line: 2901, col: 11, offset: 91926},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20189,20 +20189,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1325, col: 31, offset: 41666},
+							pos:   position{line: 1325, col: 31, offset: 41667},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1325, col: 43, offset: 41678},
+								pos:  position{line: 1325, col: 43, offset: 41679},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1325, col: 61, offset: 41696},
+							pos: position{line: 1325, col: 61, offset: 41697},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92410},
+								pos: position{line: 2922, col: 10, offset: 92411},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92410},
+									pos:        position{line: 2922, col: 10, offset: 92411},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20211,28 +20211,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92808},
+							pos: position{line: 2944, col: 8, offset: 92809},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92581},
+									pos: position{line: 2931, col: 12, offset: 92582},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92582},
+										pos: position{line: 2931, col: 13, offset: 92583},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92582},
+												pos:        position{line: 2931, col: 13, offset: 92583},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92589},
+												pos:        position{line: 2931, col: 20, offset: 92590},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92598},
+												pos:        position{line: 2931, col: 29, offset: 92599},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20241,9 +20241,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92758},
+									pos: position{line: 2941, col: 8, offset: 92759},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92759,
+										line: 2941, col: 9, offset: 92760,
 									},
 								},
 							},
@@ -20254,74 +20254,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1330, col: 1, offset: 41913},
+			pos:  position{line: 1330, col: 1, offset: 41914},
 			expr: &actionExpr{
-				pos: position{line: 1330, col: 16, offset: 41928},
+				pos: position{line: 1330, col: 16, offset: 41929},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1330, col: 16, offset: 41928},
+					pos: position{line: 1330, col: 16, offset: 41929},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1330, col: 16, offset: 41928},
+							pos:        position{line: 1330, col: 16, offset: 41929},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1330, col: 25, offset: 41937},
+							pos: position{line: 1330, col: 25, offset: 41938},
 							expr: &litMatcher{
-								pos:        position{line: 1330, col: 26, offset: 41938},
+								pos:        position{line: 1330, col: 26, offset: 41939},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1330, col: 30, offset: 41942},
+							pos:   position{line: 1330, col: 30, offset: 41943},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2880, col: 13, offset: 91169},
+								pos: position{line: 2880, col: 13, offset: 91170},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2880, col: 13, offset: 91169},
+									pos: position{line: 2880, col: 13, offset: 91170},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2880, col: 13, offset: 91169},
+											pos:   position{line: 2880, col: 13, offset: 91170},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2880, col: 20, offset: 91176},
+												pos: position{line: 2880, col: 20, offset: 91177},
 												expr: &actionExpr{
-													pos: position{line: 2888, col: 11, offset: 91415},
+													pos: position{line: 2888, col: 11, offset: 91416},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2888, col: 12, offset: 91416},
+														pos: position{line: 2888, col: 12, offset: 91417},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2888, col: 12, offset: 91416},
+																pos:        position{line: 2888, col: 12, offset: 91417},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 24, offset: 91428},
+																pos:        position{line: 2888, col: 24, offset: 91429},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 37, offset: 91441},
+																pos:        position{line: 2888, col: 37, offset: 91442},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 48, offset: 91452},
+																pos:        position{line: 2888, col: 48, offset: 91453},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 59, offset: 91463},
+																pos:        position{line: 2888, col: 59, offset: 91464},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20332,38 +20332,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2880, col: 30, offset: 91186},
+											pos:   position{line: 2880, col: 30, offset: 91187},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2893, col: 5, offset: 91527},
+												pos: position{line: 2893, col: 5, offset: 91528},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2893, col: 5, offset: 91527},
+													pos:   position{line: 2893, col: 5, offset: 91528},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2893, col: 14, offset: 91536},
+														pos: position{line: 2893, col: 14, offset: 91537},
 														expr: &choiceExpr{
-															pos: position{line: 2894, col: 9, offset: 91546},
+															pos: position{line: 2894, col: 9, offset: 91547},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2894, col: 9, offset: 91546},
+																	pos: position{line: 2894, col: 9, offset: 91547},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2894, col: 9, offset: 91546},
+																		pos: position{line: 2894, col: 9, offset: 91547},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2894, col: 9, offset: 91546},
+																				pos: position{line: 2894, col: 9, offset: 91547},
 																				expr: &litMatcher{
-																					pos:        position{line: 2894, col: 10, offset: 91547},
+																					pos:        position{line: 2894, col: 10, offset: 91548},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2895, col: 9, offset: 91575},
+																				pos: position{line: 2895, col: 9, offset: 91576},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2895, col: 10, offset: 91576},
+																					pos:        position{line: 2895, col: 10, offset: 91577},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20374,27 +20374,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2898, col: 11, offset: 91788},
+																	pos: position{line: 2898, col: 11, offset: 91789},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2898, col: 11, offset: 91788},
+																			pos:        position{line: 2898, col: 11, offset: 91789},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2898, col: 19, offset: 91796},
+																			pos: position{line: 2898, col: 19, offset: 91797},
 																			expr: &seqExpr{
-																				pos: position{line: 2898, col: 21, offset: 91798},
+																				pos: position{line: 2898, col: 21, offset: 91799},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2898, col: 21, offset: 91798},
+																						pos: position{line: 2898, col: 21, offset: 91799},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92410},
+																							pos: position{line: 2922, col: 10, offset: 92411},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92410},
+																								pos:        position{line: 2922, col: 10, offset: 92411},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20403,11 +20403,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2898, col: 28, offset: 91805},
+																						pos: position{line: 2898, col: 28, offset: 91806},
 																						expr: &notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92758},
+																							pos: position{line: 2941, col: 8, offset: 92759},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92759,
+																								line: 2941, col: 9, offset: 92760,
 																							},
 																						},
 																					},
@@ -20417,35 +20417,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 649, col: 5, offset: 20790},
+																	pos: position{line: 649, col: 5, offset: 20791},
 																	run: (*parser).callonInlineImage39,
 																	expr: &seqExpr{
-																		pos: position{line: 649, col: 5, offset: 20790},
+																		pos: position{line: 649, col: 5, offset: 20791},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 649, col: 5, offset: 20790},
+																				pos: position{line: 649, col: 5, offset: 20791},
 																				run: (*parser).callonInlineImage41,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 652, col: 5, offset: 20862},
+																				pos:   position{line: 652, col: 5, offset: 20863},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 652, col: 14, offset: 20871},
+																					pos: position{line: 652, col: 14, offset: 20872},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 658, col: 5, offset: 21000},
+																							pos: position{line: 658, col: 5, offset: 21001},
 																							run: (*parser).callonInlineImage44,
 																							expr: &seqExpr{
-																								pos: position{line: 658, col: 5, offset: 21000},
+																								pos: position{line: 658, col: 5, offset: 21001},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 658, col: 5, offset: 21000},
+																										pos:        position{line: 658, col: 5, offset: 21001},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 13, offset: 21008},
+																										pos:   position{line: 658, col: 13, offset: 21009},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -20465,8 +20465,8 @@ var g = &grammar{
 																														pos: position{line: 320, col: 28, offset: 9847},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 320, col: 29, offset: 9848},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -20477,7 +20477,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 658, col: 32, offset: 21027},
+																										pos:        position{line: 658, col: 32, offset: 21028},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20486,19 +20486,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 665, col: 5, offset: 21268},
+																							pos: position{line: 665, col: 5, offset: 21269},
 																							run: (*parser).callonInlineImage54,
 																							expr: &seqExpr{
-																								pos: position{line: 665, col: 5, offset: 21268},
+																								pos: position{line: 665, col: 5, offset: 21269},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 665, col: 5, offset: 21268},
+																										pos:        position{line: 665, col: 5, offset: 21269},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 665, col: 9, offset: 21272},
+																										pos:   position{line: 665, col: 9, offset: 21273},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -20518,8 +20518,8 @@ var g = &grammar{
 																														pos: position{line: 320, col: 28, offset: 9847},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 320, col: 29, offset: 9848},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -20530,7 +20530,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 665, col: 28, offset: 21291},
+																										pos:        position{line: 665, col: 28, offset: 21292},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20539,19 +20539,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 671, col: 25, offset: 21472},
+																							pos: position{line: 671, col: 25, offset: 21473},
 																							run: (*parser).callonInlineImage64,
 																							expr: &seqExpr{
-																								pos: position{line: 671, col: 25, offset: 21472},
+																								pos: position{line: 671, col: 25, offset: 21473},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 671, col: 25, offset: 21472},
+																										pos:        position{line: 671, col: 25, offset: 21473},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 671, col: 37, offset: 21484},
+																										pos:   position{line: 671, col: 37, offset: 21485},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -20571,8 +20571,8 @@ var g = &grammar{
 																														pos: position{line: 320, col: 28, offset: 9847},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 320, col: 29, offset: 9848},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -20583,33 +20583,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 671, col: 56, offset: 21503},
+																										pos:   position{line: 671, col: 56, offset: 21504},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 671, col: 62, offset: 21509},
+																											pos: position{line: 671, col: 62, offset: 21510},
 																											expr: &actionExpr{
-																												pos: position{line: 679, col: 17, offset: 21806},
+																												pos: position{line: 679, col: 17, offset: 21807},
 																												run: (*parser).callonInlineImage75,
 																												expr: &seqExpr{
-																													pos: position{line: 679, col: 17, offset: 21806},
+																													pos: position{line: 679, col: 17, offset: 21807},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 679, col: 17, offset: 21806},
+																															pos:        position{line: 679, col: 17, offset: 21807},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 679, col: 21, offset: 21810},
+																															pos:   position{line: 679, col: 21, offset: 21811},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 679, col: 28, offset: 21817},
+																																pos: position{line: 679, col: 28, offset: 21818},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 679, col: 28, offset: 21817},
+																																		pos: position{line: 679, col: 28, offset: 21818},
 																																		run: (*parser).callonInlineImage80,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 679, col: 28, offset: 21817},
+																																			pos:        position{line: 679, col: 28, offset: 21818},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20617,12 +20617,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 681, col: 9, offset: 21871},
+																																		pos: position{line: 681, col: 9, offset: 21872},
 																																		run: (*parser).callonInlineImage82,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 681, col: 9, offset: 21871},
+																																			pos: position{line: 681, col: 9, offset: 21872},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 681, col: 9, offset: 21871},
+																																				pos:        position{line: 681, col: 9, offset: 21872},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20639,7 +20639,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 671, col: 78, offset: 21525},
+																										pos:        position{line: 671, col: 78, offset: 21526},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20648,19 +20648,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 675, col: 25, offset: 21643},
+																							pos: position{line: 675, col: 25, offset: 21644},
 																							run: (*parser).callonInlineImage86,
 																							expr: &seqExpr{
-																								pos: position{line: 675, col: 25, offset: 21643},
+																								pos: position{line: 675, col: 25, offset: 21644},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 675, col: 25, offset: 21643},
+																										pos:        position{line: 675, col: 25, offset: 21644},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 675, col: 38, offset: 21656},
+																										pos:   position{line: 675, col: 38, offset: 21657},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -20680,8 +20680,8 @@ var g = &grammar{
 																														pos: position{line: 320, col: 28, offset: 9847},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 320, col: 29, offset: 9848},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -20692,33 +20692,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 675, col: 57, offset: 21675},
+																										pos:   position{line: 675, col: 57, offset: 21676},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 675, col: 63, offset: 21681},
+																											pos: position{line: 675, col: 63, offset: 21682},
 																											expr: &actionExpr{
-																												pos: position{line: 679, col: 17, offset: 21806},
+																												pos: position{line: 679, col: 17, offset: 21807},
 																												run: (*parser).callonInlineImage97,
 																												expr: &seqExpr{
-																													pos: position{line: 679, col: 17, offset: 21806},
+																													pos: position{line: 679, col: 17, offset: 21807},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 679, col: 17, offset: 21806},
+																															pos:        position{line: 679, col: 17, offset: 21807},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 679, col: 21, offset: 21810},
+																															pos:   position{line: 679, col: 21, offset: 21811},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 679, col: 28, offset: 21817},
+																																pos: position{line: 679, col: 28, offset: 21818},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 679, col: 28, offset: 21817},
+																																		pos: position{line: 679, col: 28, offset: 21818},
 																																		run: (*parser).callonInlineImage102,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 679, col: 28, offset: 21817},
+																																			pos:        position{line: 679, col: 28, offset: 21818},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20726,12 +20726,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 681, col: 9, offset: 21871},
+																																		pos: position{line: 681, col: 9, offset: 21872},
 																																		run: (*parser).callonInlineImage104,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 681, col: 9, offset: 21871},
+																																			pos: position{line: 681, col: 9, offset: 21872},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 681, col: 9, offset: 21871},
+																																				pos:        position{line: 681, col: 9, offset: 21872},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20748,7 +20748,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 675, col: 79, offset: 21697},
+																										pos:        position{line: 675, col: 79, offset: 21698},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20763,27 +20763,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1211, col: 23, offset: 37655},
+																	pos: position{line: 1211, col: 23, offset: 37656},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1211, col: 23, offset: 37655},
+																		pos: position{line: 1211, col: 23, offset: 37656},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1209, col: 32, offset: 37623},
+																				pos:        position{line: 1209, col: 32, offset: 37624},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1211, col: 51, offset: 37683},
+																				pos:   position{line: 1211, col: 51, offset: 37684},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1211, col: 56, offset: 37688},
+																					pos: position{line: 1211, col: 56, offset: 37689},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1211, col: 56, offset: 37688},
+																						pos: position{line: 1211, col: 56, offset: 37689},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1211, col: 56, offset: 37688},
+																							pos:        position{line: 1211, col: 56, offset: 37689},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20793,7 +20793,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1209, col: 32, offset: 37623},
+																				pos:        position{line: 1209, col: 32, offset: 37624},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20802,10 +20802,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2901, col: 11, offset: 91925},
+																	pos: position{line: 2901, col: 11, offset: 91926},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2901, col: 11, offset: 91925},
+																		pos:        position{line: 2901, col: 11, offset: 91926},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20822,10 +20822,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1330, col: 46, offset: 41958},
+							pos:   position{line: 1330, col: 46, offset: 41959},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1330, col: 58, offset: 41970},
+								pos:  position{line: 1330, col: 58, offset: 41971},
 								name: "InlineAttributes",
 							},
 						},
@@ -20835,29 +20835,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1337, col: 1, offset: 42366},
+			pos:  position{line: 1337, col: 1, offset: 42367},
 			expr: &actionExpr{
-				pos: position{line: 1337, col: 15, offset: 42380},
+				pos: position{line: 1337, col: 15, offset: 42381},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1337, col: 15, offset: 42380},
+					pos: position{line: 1337, col: 15, offset: 42381},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1337, col: 15, offset: 42380},
+							pos:        position{line: 1337, col: 15, offset: 42381},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1337, col: 23, offset: 42388},
+							pos:   position{line: 1337, col: 23, offset: 42389},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1337, col: 29, offset: 42394},
+								pos: position{line: 1337, col: 29, offset: 42395},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1337, col: 29, offset: 42394},
+									pos: position{line: 1337, col: 29, offset: 42395},
 									expr: &charClassMatcher{
-										pos:        position{line: 1337, col: 29, offset: 42394},
+										pos:        position{line: 1337, col: 29, offset: 42395},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20868,10 +20868,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1337, col: 73, offset: 42438},
+							pos:   position{line: 1337, col: 73, offset: 42439},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1337, col: 85, offset: 42450},
+								pos:  position{line: 1337, col: 85, offset: 42451},
 								name: "InlineAttributes",
 							},
 						},
@@ -20881,31 +20881,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1344, col: 1, offset: 42816},
+			pos:  position{line: 1344, col: 1, offset: 42817},
 			expr: &actionExpr{
-				pos: position{line: 1344, col: 19, offset: 42834},
+				pos: position{line: 1344, col: 19, offset: 42835},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1344, col: 19, offset: 42834},
+					pos: position{line: 1344, col: 19, offset: 42835},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1344, col: 19, offset: 42834},
+							pos:        position{line: 1344, col: 19, offset: 42835},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1344, col: 31, offset: 42846},
+							pos:   position{line: 1344, col: 31, offset: 42847},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1344, col: 35, offset: 42850},
+								pos: position{line: 1344, col: 35, offset: 42851},
 								expr: &actionExpr{
-									pos: position{line: 2816, col: 14, offset: 89579},
+									pos: position{line: 2816, col: 14, offset: 89580},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2816, col: 14, offset: 89579},
+										pos: position{line: 2816, col: 14, offset: 89580},
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 14, offset: 89579},
+											pos:        position{line: 2816, col: 14, offset: 89580},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20916,21 +20916,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1344, col: 50, offset: 42865},
+							pos:        position{line: 1344, col: 50, offset: 42866},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1344, col: 54, offset: 42869},
+							pos:   position{line: 1344, col: 54, offset: 42870},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1344, col: 64, offset: 42879},
+								pos:  position{line: 1344, col: 64, offset: 42880},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1344, col: 82, offset: 42897},
+							pos:        position{line: 1344, col: 82, offset: 42898},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20941,24 +20941,24 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1350, col: 1, offset: 43054},
+			pos:  position{line: 1350, col: 1, offset: 43055},
 			expr: &actionExpr{
-				pos: position{line: 1351, col: 5, offset: 43079},
+				pos: position{line: 1351, col: 5, offset: 43080},
 				run: (*parser).callonFootnoteElements1,
 				expr: &seqExpr{
-					pos: position{line: 1351, col: 5, offset: 43079},
+					pos: position{line: 1351, col: 5, offset: 43080},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1351, col: 5, offset: 43079},
+							pos: position{line: 1351, col: 5, offset: 43080},
 							run: (*parser).callonFootnoteElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1355, col: 5, offset: 43190},
+							pos:   position{line: 1355, col: 5, offset: 43191},
 							label: "elements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1355, col: 14, offset: 43199},
+								pos: position{line: 1355, col: 14, offset: 43200},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1355, col: 15, offset: 43200},
+									pos:  position{line: 1355, col: 15, offset: 43201},
 									name: "FootnoteElement",
 								},
 							},
@@ -20969,44 +20969,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1359, col: 1, offset: 43292},
+			pos:  position{line: 1359, col: 1, offset: 43293},
 			expr: &actionExpr{
-				pos: position{line: 1360, col: 5, offset: 43316},
+				pos: position{line: 1360, col: 5, offset: 43317},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1360, col: 5, offset: 43316},
+					pos: position{line: 1360, col: 5, offset: 43317},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1360, col: 5, offset: 43316},
+							pos: position{line: 1360, col: 5, offset: 43317},
 							expr: &litMatcher{
-								pos:        position{line: 1360, col: 6, offset: 43317},
+								pos:        position{line: 1360, col: 6, offset: 43318},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1361, col: 5, offset: 43326},
+							pos:   position{line: 1361, col: 5, offset: 43327},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1362, col: 9, offset: 43344},
+								pos: position{line: 1362, col: 9, offset: 43345},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2821, col: 5, offset: 89652},
+										pos: position{line: 2821, col: 5, offset: 89653},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2821, col: 5, offset: 89652},
+											pos: position{line: 2821, col: 5, offset: 89653},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2821, col: 5, offset: 89652},
+													pos:   position{line: 2821, col: 5, offset: 89653},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2821, col: 11, offset: 89658},
+														pos: position{line: 2821, col: 11, offset: 89659},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2821, col: 11, offset: 89658},
+															pos: position{line: 2821, col: 11, offset: 89659},
 															expr: &charClassMatcher{
-																pos:        position{line: 2821, col: 11, offset: 89658},
+																pos:        position{line: 2821, col: 11, offset: 89659},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21016,36 +21016,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2824, col: 5, offset: 89716},
+													pos: position{line: 2824, col: 5, offset: 89717},
 													expr: &seqExpr{
-														pos: position{line: 2825, col: 9, offset: 89727},
+														pos: position{line: 2825, col: 9, offset: 89728},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2825, col: 9, offset: 89727},
+																pos:        position{line: 2825, col: 9, offset: 89728},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2826, col: 9, offset: 89776},
+																pos: position{line: 2826, col: 9, offset: 89777},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2830, col: 5, offset: 89856},
+													pos: position{line: 2830, col: 5, offset: 89857},
 													expr: &seqExpr{
-														pos: position{line: 2831, col: 9, offset: 89867},
+														pos: position{line: 2831, col: 9, offset: 89868},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2831, col: 9, offset: 89867},
+																pos:        position{line: 2831, col: 9, offset: 89868},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2831, col: 13, offset: 89871},
+																pos:        position{line: 2831, col: 13, offset: 89872},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21058,12 +21058,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2926, col: 11, offset: 92471},
+										pos: position{line: 2926, col: 11, offset: 92472},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2926, col: 11, offset: 92471},
+											pos: position{line: 2926, col: 11, offset: 92472},
 											expr: &charClassMatcher{
-												pos:        position{line: 2926, col: 11, offset: 92471},
+												pos:        position{line: 2926, col: 11, offset: 92472},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21072,21 +21072,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2543, col: 5, offset: 81933},
+										pos: position{line: 2543, col: 5, offset: 81934},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2543, col: 5, offset: 81933},
+											pos: position{line: 2543, col: 5, offset: 81934},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2543, col: 5, offset: 81933},
+													pos:        position{line: 2543, col: 5, offset: 81934},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2543, col: 10, offset: 81938},
+													pos: position{line: 2543, col: 10, offset: 81939},
 													expr: &charClassMatcher{
-														pos:        position{line: 2543, col: 11, offset: 81939},
+														pos:        position{line: 2543, col: 11, offset: 81940},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21097,29 +21097,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2549, col: 5, offset: 82131},
+										pos: position{line: 2549, col: 5, offset: 82132},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2549, col: 5, offset: 82131},
+											pos: position{line: 2549, col: 5, offset: 82132},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2549, col: 5, offset: 82131},
+													pos: position{line: 2549, col: 5, offset: 82132},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2552, col: 5, offset: 82202},
+													pos: position{line: 2552, col: 5, offset: 82203},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2556, col: 5, offset: 82327},
+													pos:        position{line: 2556, col: 5, offset: 82328},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2556, col: 9, offset: 82331},
+													pos: position{line: 2556, col: 9, offset: 82332},
 													expr: &charClassMatcher{
-														pos:        position{line: 2556, col: 10, offset: 82332},
+														pos:        position{line: 2556, col: 10, offset: 82333},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21130,35 +21130,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1365, col: 11, offset: 43411},
+										pos:  position{line: 1365, col: 11, offset: 43412},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1366, col: 11, offset: 43427},
+										pos:  position{line: 1366, col: 11, offset: 43428},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2839, col: 5, offset: 90064},
+										pos: position{line: 2839, col: 5, offset: 90065},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2840, col: 9, offset: 90074},
+											pos: position{line: 2840, col: 9, offset: 90075},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2840, col: 10, offset: 90075},
+													pos:        position{line: 2840, col: 10, offset: 90076},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2842, col: 13, offset: 90172},
+													pos: position{line: 2842, col: 13, offset: 90173},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2842, col: 13, offset: 90172},
+															pos: position{line: 2842, col: 13, offset: 90173},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2845, col: 13, offset: 90272},
+															pos:        position{line: 2845, col: 13, offset: 90273},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21166,20 +21166,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2845, col: 19, offset: 90278},
+													pos:        position{line: 2845, col: 19, offset: 90279},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2848, col: 13, offset: 90316},
+													pos: position{line: 2848, col: 13, offset: 90317},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2848, col: 13, offset: 90316},
+															pos: position{line: 2848, col: 13, offset: 90317},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2851, col: 14, offset: 90409},
+															pos:        position{line: 2851, col: 14, offset: 90410},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21188,18 +21188,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2853, col: 12, offset: 90453},
+													pos: position{line: 2853, col: 12, offset: 90454},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2853, col: 12, offset: 90453},
+															pos:        position{line: 2853, col: 12, offset: 90454},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2853, col: 16, offset: 90457},
+															pos: position{line: 2853, col: 16, offset: 90458},
 															expr: &litMatcher{
-																pos:        position{line: 2853, col: 17, offset: 90458},
+																pos:        position{line: 2853, col: 17, offset: 90459},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21211,36 +21211,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1368, col: 11, offset: 43500},
+										pos:  position{line: 1368, col: 11, offset: 43501},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1219, col: 5, offset: 38101},
+										pos: position{line: 1219, col: 5, offset: 38102},
 										run: (*parser).callonFootnoteElement53,
 										expr: &seqExpr{
-											pos: position{line: 1219, col: 5, offset: 38101},
+											pos: position{line: 1219, col: 5, offset: 38102},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1219, col: 5, offset: 38101},
+													pos: position{line: 1219, col: 5, offset: 38102},
 													run: (*parser).callonFootnoteElement55,
 												},
 												&litMatcher{
-													pos:        position{line: 1222, col: 5, offset: 38177},
+													pos:        position{line: 1222, col: 5, offset: 38178},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1223, col: 5, offset: 38185},
+													pos: position{line: 1223, col: 5, offset: 38186},
 													run: (*parser).callonFootnoteElement57,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1227, col: 5, offset: 38272},
+													pos: position{line: 1227, col: 5, offset: 38273},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92410},
+														pos: position{line: 2922, col: 10, offset: 92411},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92410},
+															pos:        position{line: 2922, col: 10, offset: 92411},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21249,30 +21249,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1227, col: 12, offset: 38279},
+													pos: position{line: 1227, col: 12, offset: 38280},
 													expr: &choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92808},
+														pos: position{line: 2944, col: 8, offset: 92809},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92581},
+																pos: position{line: 2931, col: 12, offset: 92582},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92582},
+																	pos: position{line: 2931, col: 13, offset: 92583},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92582},
+																			pos:        position{line: 2931, col: 13, offset: 92583},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92589},
+																			pos:        position{line: 2931, col: 20, offset: 92590},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92598},
+																			pos:        position{line: 2931, col: 29, offset: 92599},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21281,9 +21281,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92758},
+																pos: position{line: 2941, col: 8, offset: 92759},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92759,
+																	line: 2941, col: 9, offset: 92760,
 																},
 															},
 														},
@@ -21293,35 +21293,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 649, col: 5, offset: 20790},
+										pos: position{line: 649, col: 5, offset: 20791},
 										run: (*parser).callonFootnoteElement70,
 										expr: &seqExpr{
-											pos: position{line: 649, col: 5, offset: 20790},
+											pos: position{line: 649, col: 5, offset: 20791},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 649, col: 5, offset: 20790},
+													pos: position{line: 649, col: 5, offset: 20791},
 													run: (*parser).callonFootnoteElement72,
 												},
 												&labeledExpr{
-													pos:   position{line: 652, col: 5, offset: 20862},
+													pos:   position{line: 652, col: 5, offset: 20863},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 652, col: 14, offset: 20871},
+														pos: position{line: 652, col: 14, offset: 20872},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 658, col: 5, offset: 21000},
+																pos: position{line: 658, col: 5, offset: 21001},
 																run: (*parser).callonFootnoteElement75,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 5, offset: 21000},
+																	pos: position{line: 658, col: 5, offset: 21001},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 5, offset: 21000},
+																			pos:        position{line: 658, col: 5, offset: 21001},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 13, offset: 21008},
+																			pos:   position{line: 658, col: 13, offset: 21009},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -21341,8 +21341,8 @@ var g = &grammar{
 																							pos: position{line: 320, col: 28, offset: 9847},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 320, col: 29, offset: 9848},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -21353,7 +21353,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 32, offset: 21027},
+																			pos:        position{line: 658, col: 32, offset: 21028},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21362,19 +21362,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 665, col: 5, offset: 21268},
+																pos: position{line: 665, col: 5, offset: 21269},
 																run: (*parser).callonFootnoteElement85,
 																expr: &seqExpr{
-																	pos: position{line: 665, col: 5, offset: 21268},
+																	pos: position{line: 665, col: 5, offset: 21269},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 665, col: 5, offset: 21268},
+																			pos:        position{line: 665, col: 5, offset: 21269},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 665, col: 9, offset: 21272},
+																			pos:   position{line: 665, col: 9, offset: 21273},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -21394,8 +21394,8 @@ var g = &grammar{
 																							pos: position{line: 320, col: 28, offset: 9847},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 320, col: 29, offset: 9848},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -21406,7 +21406,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 665, col: 28, offset: 21291},
+																			pos:        position{line: 665, col: 28, offset: 21292},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21415,19 +21415,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 671, col: 25, offset: 21472},
+																pos: position{line: 671, col: 25, offset: 21473},
 																run: (*parser).callonFootnoteElement95,
 																expr: &seqExpr{
-																	pos: position{line: 671, col: 25, offset: 21472},
+																	pos: position{line: 671, col: 25, offset: 21473},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 671, col: 25, offset: 21472},
+																			pos:        position{line: 671, col: 25, offset: 21473},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 671, col: 37, offset: 21484},
+																			pos:   position{line: 671, col: 37, offset: 21485},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -21447,8 +21447,8 @@ var g = &grammar{
 																							pos: position{line: 320, col: 28, offset: 9847},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 320, col: 29, offset: 9848},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -21459,33 +21459,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 671, col: 56, offset: 21503},
+																			pos:   position{line: 671, col: 56, offset: 21504},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 671, col: 62, offset: 21509},
+																				pos: position{line: 671, col: 62, offset: 21510},
 																				expr: &actionExpr{
-																					pos: position{line: 679, col: 17, offset: 21806},
+																					pos: position{line: 679, col: 17, offset: 21807},
 																					run: (*parser).callonFootnoteElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 679, col: 17, offset: 21806},
+																						pos: position{line: 679, col: 17, offset: 21807},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 679, col: 17, offset: 21806},
+																								pos:        position{line: 679, col: 17, offset: 21807},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 679, col: 21, offset: 21810},
+																								pos:   position{line: 679, col: 21, offset: 21811},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 679, col: 28, offset: 21817},
+																									pos: position{line: 679, col: 28, offset: 21818},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 679, col: 28, offset: 21817},
+																											pos: position{line: 679, col: 28, offset: 21818},
 																											run: (*parser).callonFootnoteElement111,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 679, col: 28, offset: 21817},
+																												pos:        position{line: 679, col: 28, offset: 21818},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21493,12 +21493,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 681, col: 9, offset: 21871},
+																											pos: position{line: 681, col: 9, offset: 21872},
 																											run: (*parser).callonFootnoteElement113,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 681, col: 9, offset: 21871},
+																												pos: position{line: 681, col: 9, offset: 21872},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 681, col: 9, offset: 21871},
+																													pos:        position{line: 681, col: 9, offset: 21872},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21515,7 +21515,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 671, col: 78, offset: 21525},
+																			pos:        position{line: 671, col: 78, offset: 21526},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21524,19 +21524,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 675, col: 25, offset: 21643},
+																pos: position{line: 675, col: 25, offset: 21644},
 																run: (*parser).callonFootnoteElement117,
 																expr: &seqExpr{
-																	pos: position{line: 675, col: 25, offset: 21643},
+																	pos: position{line: 675, col: 25, offset: 21644},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 675, col: 25, offset: 21643},
+																			pos:        position{line: 675, col: 25, offset: 21644},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 675, col: 38, offset: 21656},
+																			pos:   position{line: 675, col: 38, offset: 21657},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -21556,8 +21556,8 @@ var g = &grammar{
 																							pos: position{line: 320, col: 28, offset: 9847},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 320, col: 29, offset: 9848},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -21568,33 +21568,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 675, col: 57, offset: 21675},
+																			pos:   position{line: 675, col: 57, offset: 21676},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 675, col: 63, offset: 21681},
+																				pos: position{line: 675, col: 63, offset: 21682},
 																				expr: &actionExpr{
-																					pos: position{line: 679, col: 17, offset: 21806},
+																					pos: position{line: 679, col: 17, offset: 21807},
 																					run: (*parser).callonFootnoteElement128,
 																					expr: &seqExpr{
-																						pos: position{line: 679, col: 17, offset: 21806},
+																						pos: position{line: 679, col: 17, offset: 21807},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 679, col: 17, offset: 21806},
+																								pos:        position{line: 679, col: 17, offset: 21807},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 679, col: 21, offset: 21810},
+																								pos:   position{line: 679, col: 21, offset: 21811},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 679, col: 28, offset: 21817},
+																									pos: position{line: 679, col: 28, offset: 21818},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 679, col: 28, offset: 21817},
+																											pos: position{line: 679, col: 28, offset: 21818},
 																											run: (*parser).callonFootnoteElement133,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 679, col: 28, offset: 21817},
+																												pos:        position{line: 679, col: 28, offset: 21818},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21602,12 +21602,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 681, col: 9, offset: 21871},
+																											pos: position{line: 681, col: 9, offset: 21872},
 																											run: (*parser).callonFootnoteElement135,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 681, col: 9, offset: 21871},
+																												pos: position{line: 681, col: 9, offset: 21872},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 681, col: 9, offset: 21871},
+																													pos:        position{line: 681, col: 9, offset: 21872},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21624,7 +21624,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 675, col: 79, offset: 21697},
+																			pos:        position{line: 675, col: 79, offset: 21698},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21639,23 +21639,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 5, offset: 80734},
+										pos: position{line: 2512, col: 5, offset: 80735},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 5, offset: 80734},
+											pos: position{line: 2512, col: 5, offset: 80735},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 80734},
+													pos: position{line: 2512, col: 5, offset: 80735},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 5, offset: 80810},
+													pos:   position{line: 2515, col: 5, offset: 80811},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2516, col: 9, offset: 80828},
+														pos: position{line: 2516, col: 9, offset: 80829},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2516, col: 10, offset: 80829},
+															pos:        position{line: 2516, col: 10, offset: 80830},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21667,25 +21667,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2931, col: 12, offset: 92581},
+										pos: position{line: 2931, col: 12, offset: 92582},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2931, col: 13, offset: 92582},
+											pos: position{line: 2931, col: 13, offset: 92583},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2931, col: 13, offset: 92582},
+													pos:        position{line: 2931, col: 13, offset: 92583},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 20, offset: 92589},
+													pos:        position{line: 2931, col: 20, offset: 92590},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 29, offset: 92598},
+													pos:        position{line: 2931, col: 29, offset: 92599},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21694,10 +21694,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90718},
+										pos: position{line: 2861, col: 12, offset: 90719},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2861, col: 12, offset: 90718},
+											pos:        position{line: 2861, col: 12, offset: 90719},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21713,32 +21713,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1407, col: 1, offset: 45345},
+			pos:  position{line: 1407, col: 1, offset: 45346},
 			expr: &choiceExpr{
-				pos: position{line: 1407, col: 21, offset: 45365},
+				pos: position{line: 1407, col: 21, offset: 45366},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1407, col: 21, offset: 45365},
+						pos: position{line: 1407, col: 21, offset: 45366},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1407, col: 21, offset: 45365},
+							pos: position{line: 1407, col: 21, offset: 45366},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1407, col: 21, offset: 45365},
+									pos:        position{line: 1407, col: 21, offset: 45366},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1407, col: 30, offset: 45374},
+									pos:   position{line: 1407, col: 30, offset: 45375},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1407, col: 38, offset: 45382},
+										pos: position{line: 1407, col: 38, offset: 45383},
 										expr: &actionExpr{
-											pos: position{line: 1413, col: 30, offset: 45708},
+											pos: position{line: 1413, col: 30, offset: 45709},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1413, col: 30, offset: 45708},
+												pos:        position{line: 1413, col: 30, offset: 45709},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21748,7 +21748,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1407, col: 67, offset: 45411},
+									pos:        position{line: 1407, col: 67, offset: 45412},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21757,34 +21757,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1409, col: 9, offset: 45515},
+						pos: position{line: 1409, col: 9, offset: 45516},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1409, col: 9, offset: 45515},
+							pos: position{line: 1409, col: 9, offset: 45516},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1409, col: 9, offset: 45515},
+									pos:        position{line: 1409, col: 9, offset: 45516},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1409, col: 19, offset: 45525},
+									pos:   position{line: 1409, col: 19, offset: 45526},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1409, col: 27, offset: 45533},
+										pos: position{line: 1409, col: 27, offset: 45534},
 										expr: &choiceExpr{
-											pos: position{line: 1409, col: 28, offset: 45534},
+											pos: position{line: 1409, col: 28, offset: 45535},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1409, col: 28, offset: 45534},
+													pos:  position{line: 1409, col: 28, offset: 45535},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1413, col: 30, offset: 45708},
+													pos: position{line: 1413, col: 30, offset: 45709},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1413, col: 30, offset: 45708},
+														pos:        position{line: 1413, col: 30, offset: 45709},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -21796,7 +21796,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1409, col: 69, offset: 45575},
+									pos:        position{line: 1409, col: 69, offset: 45576},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21809,75 +21809,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1420, col: 1, offset: 45964},
+			pos:  position{line: 1420, col: 1, offset: 45965},
 			expr: &choiceExpr{
-				pos: position{line: 1420, col: 9, offset: 45972},
+				pos: position{line: 1420, col: 9, offset: 45973},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1423, col: 5, offset: 46041},
+						pos: position{line: 1423, col: 5, offset: 46042},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1423, col: 5, offset: 46041},
+							pos: position{line: 1423, col: 5, offset: 46042},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1423, col: 5, offset: 46041},
+									pos:        position{line: 1423, col: 5, offset: 46042},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1424, col: 5, offset: 46050},
+									pos:   position{line: 1424, col: 5, offset: 46051},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2884, col: 23, offset: 91296},
+										pos: position{line: 2884, col: 23, offset: 91297},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2884, col: 23, offset: 91296},
+											pos: position{line: 2884, col: 23, offset: 91297},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2884, col: 23, offset: 91296},
+													pos: position{line: 2884, col: 23, offset: 91297},
 													expr: &litMatcher{
-														pos:        position{line: 2884, col: 24, offset: 91297},
+														pos:        position{line: 2884, col: 24, offset: 91298},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2884, col: 28, offset: 91301},
+													pos:   position{line: 2884, col: 28, offset: 91302},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 11, offset: 91415},
+														pos: position{line: 2888, col: 11, offset: 91416},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2888, col: 12, offset: 91416},
+															pos: position{line: 2888, col: 12, offset: 91417},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2888, col: 12, offset: 91416},
+																	pos:        position{line: 2888, col: 12, offset: 91417},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 24, offset: 91428},
+																	pos:        position{line: 2888, col: 24, offset: 91429},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 37, offset: 91441},
+																	pos:        position{line: 2888, col: 37, offset: 91442},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 48, offset: 91452},
+																	pos:        position{line: 2888, col: 48, offset: 91453},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 59, offset: 91463},
+																	pos:        position{line: 2888, col: 59, offset: 91464},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21887,38 +21887,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2884, col: 44, offset: 91317},
+													pos:   position{line: 2884, col: 44, offset: 91318},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2893, col: 5, offset: 91527},
+														pos: position{line: 2893, col: 5, offset: 91528},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2893, col: 5, offset: 91527},
+															pos:   position{line: 2893, col: 5, offset: 91528},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2893, col: 14, offset: 91536},
+																pos: position{line: 2893, col: 14, offset: 91537},
 																expr: &choiceExpr{
-																	pos: position{line: 2894, col: 9, offset: 91546},
+																	pos: position{line: 2894, col: 9, offset: 91547},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2894, col: 9, offset: 91546},
+																			pos: position{line: 2894, col: 9, offset: 91547},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2894, col: 9, offset: 91546},
+																				pos: position{line: 2894, col: 9, offset: 91547},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2894, col: 9, offset: 91546},
+																						pos: position{line: 2894, col: 9, offset: 91547},
 																						expr: &litMatcher{
-																							pos:        position{line: 2894, col: 10, offset: 91547},
+																							pos:        position{line: 2894, col: 10, offset: 91548},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2895, col: 9, offset: 91575},
+																						pos: position{line: 2895, col: 9, offset: 91576},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2895, col: 10, offset: 91576},
+																							pos:        position{line: 2895, col: 10, offset: 91577},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21929,27 +21929,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2898, col: 11, offset: 91788},
+																			pos: position{line: 2898, col: 11, offset: 91789},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2898, col: 11, offset: 91788},
+																					pos:        position{line: 2898, col: 11, offset: 91789},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2898, col: 19, offset: 91796},
+																					pos: position{line: 2898, col: 19, offset: 91797},
 																					expr: &seqExpr{
-																						pos: position{line: 2898, col: 21, offset: 91798},
+																						pos: position{line: 2898, col: 21, offset: 91799},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2898, col: 21, offset: 91798},
+																								pos: position{line: 2898, col: 21, offset: 91799},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92410},
+																									pos: position{line: 2922, col: 10, offset: 92411},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92410},
+																										pos:        position{line: 2922, col: 10, offset: 92411},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21958,11 +21958,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2898, col: 28, offset: 91805},
+																								pos: position{line: 2898, col: 28, offset: 91806},
 																								expr: &notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -21972,35 +21972,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 649, col: 5, offset: 20790},
+																			pos: position{line: 649, col: 5, offset: 20791},
 																			run: (*parser).callonLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 649, col: 5, offset: 20790},
+																				pos: position{line: 649, col: 5, offset: 20791},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 649, col: 5, offset: 20790},
+																						pos: position{line: 649, col: 5, offset: 20791},
 																						run: (*parser).callonLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 652, col: 5, offset: 20862},
+																						pos:   position{line: 652, col: 5, offset: 20863},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 652, col: 14, offset: 20871},
+																							pos: position{line: 652, col: 14, offset: 20872},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 658, col: 5, offset: 21000},
+																									pos: position{line: 658, col: 5, offset: 21001},
 																									run: (*parser).callonLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 5, offset: 21000},
+																										pos: position{line: 658, col: 5, offset: 21001},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 5, offset: 21000},
+																												pos:        position{line: 658, col: 5, offset: 21001},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 13, offset: 21008},
+																												pos:   position{line: 658, col: 13, offset: 21009},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22020,8 +22020,8 @@ var g = &grammar{
 																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 320, col: 29, offset: 9848},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -22032,7 +22032,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 32, offset: 21027},
+																												pos:        position{line: 658, col: 32, offset: 21028},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22041,19 +22041,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 5, offset: 21268},
+																									pos: position{line: 665, col: 5, offset: 21269},
 																									run: (*parser).callonLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 5, offset: 21268},
+																										pos: position{line: 665, col: 5, offset: 21269},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 5, offset: 21268},
+																												pos:        position{line: 665, col: 5, offset: 21269},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 9, offset: 21272},
+																												pos:   position{line: 665, col: 9, offset: 21273},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22073,8 +22073,8 @@ var g = &grammar{
 																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 320, col: 29, offset: 9848},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -22085,7 +22085,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 28, offset: 21291},
+																												pos:        position{line: 665, col: 28, offset: 21292},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22094,19 +22094,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 671, col: 25, offset: 21472},
+																									pos: position{line: 671, col: 25, offset: 21473},
 																									run: (*parser).callonLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 671, col: 25, offset: 21472},
+																										pos: position{line: 671, col: 25, offset: 21473},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 671, col: 25, offset: 21472},
+																												pos:        position{line: 671, col: 25, offset: 21473},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 37, offset: 21484},
+																												pos:   position{line: 671, col: 37, offset: 21485},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22126,8 +22126,8 @@ var g = &grammar{
 																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 320, col: 29, offset: 9848},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -22138,33 +22138,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 56, offset: 21503},
+																												pos:   position{line: 671, col: 56, offset: 21504},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 671, col: 62, offset: 21509},
+																													pos: position{line: 671, col: 62, offset: 21510},
 																													expr: &actionExpr{
-																														pos: position{line: 679, col: 17, offset: 21806},
+																														pos: position{line: 679, col: 17, offset: 21807},
 																														run: (*parser).callonLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 679, col: 17, offset: 21806},
+																															pos: position{line: 679, col: 17, offset: 21807},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 679, col: 17, offset: 21806},
+																																	pos:        position{line: 679, col: 17, offset: 21807},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 679, col: 21, offset: 21810},
+																																	pos:   position{line: 679, col: 21, offset: 21811},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 679, col: 28, offset: 21817},
+																																		pos: position{line: 679, col: 28, offset: 21818},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 679, col: 28, offset: 21817},
+																																				pos: position{line: 679, col: 28, offset: 21818},
 																																				run: (*parser).callonLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 679, col: 28, offset: 21817},
+																																					pos:        position{line: 679, col: 28, offset: 21818},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22172,12 +22172,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 681, col: 9, offset: 21871},
+																																				pos: position{line: 681, col: 9, offset: 21872},
 																																				run: (*parser).callonLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 681, col: 9, offset: 21871},
+																																					pos: position{line: 681, col: 9, offset: 21872},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 681, col: 9, offset: 21871},
+																																						pos:        position{line: 681, col: 9, offset: 21872},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22194,7 +22194,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 671, col: 78, offset: 21525},
+																												pos:        position{line: 671, col: 78, offset: 21526},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22203,19 +22203,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 675, col: 25, offset: 21643},
+																									pos: position{line: 675, col: 25, offset: 21644},
 																									run: (*parser).callonLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 675, col: 25, offset: 21643},
+																										pos: position{line: 675, col: 25, offset: 21644},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 675, col: 25, offset: 21643},
+																												pos:        position{line: 675, col: 25, offset: 21644},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 675, col: 38, offset: 21656},
+																												pos:   position{line: 675, col: 38, offset: 21657},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22235,8 +22235,8 @@ var g = &grammar{
 																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 320, col: 29, offset: 9848},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -22247,33 +22247,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 675, col: 57, offset: 21675},
+																												pos:   position{line: 675, col: 57, offset: 21676},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 675, col: 63, offset: 21681},
+																													pos: position{line: 675, col: 63, offset: 21682},
 																													expr: &actionExpr{
-																														pos: position{line: 679, col: 17, offset: 21806},
+																														pos: position{line: 679, col: 17, offset: 21807},
 																														run: (*parser).callonLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 679, col: 17, offset: 21806},
+																															pos: position{line: 679, col: 17, offset: 21807},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 679, col: 17, offset: 21806},
+																																	pos:        position{line: 679, col: 17, offset: 21807},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 679, col: 21, offset: 21810},
+																																	pos:   position{line: 679, col: 21, offset: 21811},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 679, col: 28, offset: 21817},
+																																		pos: position{line: 679, col: 28, offset: 21818},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 679, col: 28, offset: 21817},
+																																				pos: position{line: 679, col: 28, offset: 21818},
 																																				run: (*parser).callonLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 679, col: 28, offset: 21817},
+																																					pos:        position{line: 679, col: 28, offset: 21818},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22281,12 +22281,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 681, col: 9, offset: 21871},
+																																				pos: position{line: 681, col: 9, offset: 21872},
 																																				run: (*parser).callonLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 681, col: 9, offset: 21871},
+																																					pos: position{line: 681, col: 9, offset: 21872},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 681, col: 9, offset: 21871},
+																																						pos:        position{line: 681, col: 9, offset: 21872},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22303,7 +22303,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 675, col: 79, offset: 21697},
+																												pos:        position{line: 675, col: 79, offset: 21698},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22318,27 +22318,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1211, col: 23, offset: 37655},
+																			pos: position{line: 1211, col: 23, offset: 37656},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1211, col: 23, offset: 37655},
+																				pos: position{line: 1211, col: 23, offset: 37656},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1209, col: 32, offset: 37623},
+																						pos:        position{line: 1209, col: 32, offset: 37624},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1211, col: 51, offset: 37683},
+																						pos:   position{line: 1211, col: 51, offset: 37684},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1211, col: 56, offset: 37688},
+																							pos: position{line: 1211, col: 56, offset: 37689},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1211, col: 56, offset: 37688},
+																								pos: position{line: 1211, col: 56, offset: 37689},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1211, col: 56, offset: 37688},
+																									pos:        position{line: 1211, col: 56, offset: 37689},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22348,7 +22348,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1209, col: 32, offset: 37623},
+																						pos:        position{line: 1209, col: 32, offset: 37624},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22357,10 +22357,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2901, col: 11, offset: 91925},
+																			pos: position{line: 2901, col: 11, offset: 91926},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 11, offset: 91925},
+																				pos:        position{line: 2901, col: 11, offset: 91926},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22377,7 +22377,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1429, col: 5, offset: 46269},
+									pos:        position{line: 1429, col: 5, offset: 46270},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22386,38 +22386,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1420, col: 19, offset: 45982},
+						pos:  position{line: 1420, col: 19, offset: 45983},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1420, col: 34, offset: 45997},
+						pos:  position{line: 1420, col: 34, offset: 45998},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1458, col: 17, offset: 47262},
+						pos: position{line: 1458, col: 17, offset: 47263},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1458, col: 17, offset: 47262},
+							pos: position{line: 1458, col: 17, offset: 47263},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1458, col: 17, offset: 47262},
+									pos:   position{line: 1458, col: 17, offset: 47263},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1463, col: 5, offset: 47427},
+										pos: position{line: 1463, col: 5, offset: 47428},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1463, col: 5, offset: 47427},
+											pos: position{line: 1463, col: 5, offset: 47428},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1463, col: 5, offset: 47427},
+													pos:   position{line: 1463, col: 5, offset: 47428},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1463, col: 12, offset: 47434},
+														pos: position{line: 1463, col: 12, offset: 47435},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1463, col: 12, offset: 47434},
+															pos: position{line: 1463, col: 12, offset: 47435},
 															expr: &charClassMatcher{
-																pos:        position{line: 1463, col: 12, offset: 47434},
+																pos:        position{line: 1463, col: 12, offset: 47435},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22429,7 +22429,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1466, col: 5, offset: 47518},
+													pos: position{line: 1466, col: 5, offset: 47519},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -22437,33 +22437,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1458, col: 43, offset: 47288},
+									pos:        position{line: 1458, col: 43, offset: 47289},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1458, col: 47, offset: 47292},
+									pos:   position{line: 1458, col: 47, offset: 47293},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1475, col: 23, offset: 47812},
+										pos: position{line: 1475, col: 23, offset: 47813},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1475, col: 23, offset: 47812},
+											pos: position{line: 1475, col: 23, offset: 47813},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1475, col: 23, offset: 47812},
+													pos:   position{line: 1475, col: 23, offset: 47813},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1475, col: 31, offset: 47820},
+														pos: position{line: 1475, col: 31, offset: 47821},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1475, col: 31, offset: 47820},
+															pos: position{line: 1475, col: 31, offset: 47821},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1475, col: 31, offset: 47820},
+																	pos: position{line: 1475, col: 31, offset: 47821},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1475, col: 31, offset: 47820},
+																		pos:        position{line: 1475, col: 31, offset: 47821},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -22471,20 +22471,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1475, col: 41, offset: 47830},
+																	pos: position{line: 1475, col: 41, offset: 47831},
 																	expr: &seqExpr{
-																		pos: position{line: 1475, col: 42, offset: 47831},
+																		pos: position{line: 1475, col: 42, offset: 47832},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1475, col: 42, offset: 47831},
+																				pos:        position{line: 1475, col: 42, offset: 47832},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1475, col: 46, offset: 47835},
+																				pos: position{line: 1475, col: 46, offset: 47836},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1475, col: 46, offset: 47835},
+																					pos:        position{line: 1475, col: 46, offset: 47836},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22500,7 +22500,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1478, col: 5, offset: 47896},
+													pos: position{line: 1478, col: 5, offset: 47897},
 													run: (*parser).callonLink145,
 												},
 											},
@@ -22515,68 +22515,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1435, col: 1, offset: 46417},
+			pos:  position{line: 1435, col: 1, offset: 46418},
 			expr: &choiceExpr{
-				pos: position{line: 1437, col: 5, offset: 46453},
+				pos: position{line: 1437, col: 5, offset: 46454},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1437, col: 5, offset: 46453},
+						pos: position{line: 1437, col: 5, offset: 46454},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1437, col: 5, offset: 46453},
+							pos: position{line: 1437, col: 5, offset: 46454},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1437, col: 5, offset: 46453},
+									pos:        position{line: 1437, col: 5, offset: 46454},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1437, col: 17, offset: 46465},
+									pos:   position{line: 1437, col: 17, offset: 46466},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2880, col: 13, offset: 91169},
+										pos: position{line: 2880, col: 13, offset: 91170},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2880, col: 13, offset: 91169},
+											pos: position{line: 2880, col: 13, offset: 91170},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2880, col: 13, offset: 91169},
+													pos:   position{line: 2880, col: 13, offset: 91170},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2880, col: 20, offset: 91176},
+														pos: position{line: 2880, col: 20, offset: 91177},
 														expr: &actionExpr{
-															pos: position{line: 2888, col: 11, offset: 91415},
+															pos: position{line: 2888, col: 11, offset: 91416},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2888, col: 12, offset: 91416},
+																pos: position{line: 2888, col: 12, offset: 91417},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 12, offset: 91416},
+																		pos:        position{line: 2888, col: 12, offset: 91417},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 24, offset: 91428},
+																		pos:        position{line: 2888, col: 24, offset: 91429},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 37, offset: 91441},
+																		pos:        position{line: 2888, col: 37, offset: 91442},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 48, offset: 91452},
+																		pos:        position{line: 2888, col: 48, offset: 91453},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 59, offset: 91463},
+																		pos:        position{line: 2888, col: 59, offset: 91464},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22587,38 +22587,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2880, col: 30, offset: 91186},
+													pos:   position{line: 2880, col: 30, offset: 91187},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2893, col: 5, offset: 91527},
+														pos: position{line: 2893, col: 5, offset: 91528},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2893, col: 5, offset: 91527},
+															pos:   position{line: 2893, col: 5, offset: 91528},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2893, col: 14, offset: 91536},
+																pos: position{line: 2893, col: 14, offset: 91537},
 																expr: &choiceExpr{
-																	pos: position{line: 2894, col: 9, offset: 91546},
+																	pos: position{line: 2894, col: 9, offset: 91547},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2894, col: 9, offset: 91546},
+																			pos: position{line: 2894, col: 9, offset: 91547},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2894, col: 9, offset: 91546},
+																				pos: position{line: 2894, col: 9, offset: 91547},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2894, col: 9, offset: 91546},
+																						pos: position{line: 2894, col: 9, offset: 91547},
 																						expr: &litMatcher{
-																							pos:        position{line: 2894, col: 10, offset: 91547},
+																							pos:        position{line: 2894, col: 10, offset: 91548},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2895, col: 9, offset: 91575},
+																						pos: position{line: 2895, col: 9, offset: 91576},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2895, col: 10, offset: 91576},
+																							pos:        position{line: 2895, col: 10, offset: 91577},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22629,27 +22629,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2898, col: 11, offset: 91788},
+																			pos: position{line: 2898, col: 11, offset: 91789},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2898, col: 11, offset: 91788},
+																					pos:        position{line: 2898, col: 11, offset: 91789},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2898, col: 19, offset: 91796},
+																					pos: position{line: 2898, col: 19, offset: 91797},
 																					expr: &seqExpr{
-																						pos: position{line: 2898, col: 21, offset: 91798},
+																						pos: position{line: 2898, col: 21, offset: 91799},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2898, col: 21, offset: 91798},
+																								pos: position{line: 2898, col: 21, offset: 91799},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92410},
+																									pos: position{line: 2922, col: 10, offset: 92411},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92410},
+																										pos:        position{line: 2922, col: 10, offset: 92411},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22658,11 +22658,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2898, col: 28, offset: 91805},
+																								pos: position{line: 2898, col: 28, offset: 91806},
 																								expr: &notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -22672,35 +22672,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 649, col: 5, offset: 20790},
+																			pos: position{line: 649, col: 5, offset: 20791},
 																			run: (*parser).callonRelativeLink38,
 																			expr: &seqExpr{
-																				pos: position{line: 649, col: 5, offset: 20790},
+																				pos: position{line: 649, col: 5, offset: 20791},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 649, col: 5, offset: 20790},
+																						pos: position{line: 649, col: 5, offset: 20791},
 																						run: (*parser).callonRelativeLink40,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 652, col: 5, offset: 20862},
+																						pos:   position{line: 652, col: 5, offset: 20863},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 652, col: 14, offset: 20871},
+																							pos: position{line: 652, col: 14, offset: 20872},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 658, col: 5, offset: 21000},
+																									pos: position{line: 658, col: 5, offset: 21001},
 																									run: (*parser).callonRelativeLink43,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 5, offset: 21000},
+																										pos: position{line: 658, col: 5, offset: 21001},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 5, offset: 21000},
+																												pos:        position{line: 658, col: 5, offset: 21001},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 13, offset: 21008},
+																												pos:   position{line: 658, col: 13, offset: 21009},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22720,8 +22720,8 @@ var g = &grammar{
 																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 320, col: 29, offset: 9848},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -22732,7 +22732,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 32, offset: 21027},
+																												pos:        position{line: 658, col: 32, offset: 21028},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22741,19 +22741,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 5, offset: 21268},
+																									pos: position{line: 665, col: 5, offset: 21269},
 																									run: (*parser).callonRelativeLink53,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 5, offset: 21268},
+																										pos: position{line: 665, col: 5, offset: 21269},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 5, offset: 21268},
+																												pos:        position{line: 665, col: 5, offset: 21269},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 9, offset: 21272},
+																												pos:   position{line: 665, col: 9, offset: 21273},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22773,8 +22773,8 @@ var g = &grammar{
 																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 320, col: 29, offset: 9848},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -22785,7 +22785,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 28, offset: 21291},
+																												pos:        position{line: 665, col: 28, offset: 21292},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22794,19 +22794,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 671, col: 25, offset: 21472},
+																									pos: position{line: 671, col: 25, offset: 21473},
 																									run: (*parser).callonRelativeLink63,
 																									expr: &seqExpr{
-																										pos: position{line: 671, col: 25, offset: 21472},
+																										pos: position{line: 671, col: 25, offset: 21473},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 671, col: 25, offset: 21472},
+																												pos:        position{line: 671, col: 25, offset: 21473},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 37, offset: 21484},
+																												pos:   position{line: 671, col: 37, offset: 21485},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22826,8 +22826,8 @@ var g = &grammar{
 																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 320, col: 29, offset: 9848},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -22838,33 +22838,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 56, offset: 21503},
+																												pos:   position{line: 671, col: 56, offset: 21504},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 671, col: 62, offset: 21509},
+																													pos: position{line: 671, col: 62, offset: 21510},
 																													expr: &actionExpr{
-																														pos: position{line: 679, col: 17, offset: 21806},
+																														pos: position{line: 679, col: 17, offset: 21807},
 																														run: (*parser).callonRelativeLink74,
 																														expr: &seqExpr{
-																															pos: position{line: 679, col: 17, offset: 21806},
+																															pos: position{line: 679, col: 17, offset: 21807},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 679, col: 17, offset: 21806},
+																																	pos:        position{line: 679, col: 17, offset: 21807},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 679, col: 21, offset: 21810},
+																																	pos:   position{line: 679, col: 21, offset: 21811},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 679, col: 28, offset: 21817},
+																																		pos: position{line: 679, col: 28, offset: 21818},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 679, col: 28, offset: 21817},
+																																				pos: position{line: 679, col: 28, offset: 21818},
 																																				run: (*parser).callonRelativeLink79,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 679, col: 28, offset: 21817},
+																																					pos:        position{line: 679, col: 28, offset: 21818},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22872,12 +22872,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 681, col: 9, offset: 21871},
+																																				pos: position{line: 681, col: 9, offset: 21872},
 																																				run: (*parser).callonRelativeLink81,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 681, col: 9, offset: 21871},
+																																					pos: position{line: 681, col: 9, offset: 21872},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 681, col: 9, offset: 21871},
+																																						pos:        position{line: 681, col: 9, offset: 21872},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22894,7 +22894,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 671, col: 78, offset: 21525},
+																												pos:        position{line: 671, col: 78, offset: 21526},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22903,19 +22903,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 675, col: 25, offset: 21643},
+																									pos: position{line: 675, col: 25, offset: 21644},
 																									run: (*parser).callonRelativeLink85,
 																									expr: &seqExpr{
-																										pos: position{line: 675, col: 25, offset: 21643},
+																										pos: position{line: 675, col: 25, offset: 21644},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 675, col: 25, offset: 21643},
+																												pos:        position{line: 675, col: 25, offset: 21644},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 675, col: 38, offset: 21656},
+																												pos:   position{line: 675, col: 38, offset: 21657},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22935,8 +22935,8 @@ var g = &grammar{
 																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 320, col: 29, offset: 9848},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -22947,33 +22947,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 675, col: 57, offset: 21675},
+																												pos:   position{line: 675, col: 57, offset: 21676},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 675, col: 63, offset: 21681},
+																													pos: position{line: 675, col: 63, offset: 21682},
 																													expr: &actionExpr{
-																														pos: position{line: 679, col: 17, offset: 21806},
+																														pos: position{line: 679, col: 17, offset: 21807},
 																														run: (*parser).callonRelativeLink96,
 																														expr: &seqExpr{
-																															pos: position{line: 679, col: 17, offset: 21806},
+																															pos: position{line: 679, col: 17, offset: 21807},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 679, col: 17, offset: 21806},
+																																	pos:        position{line: 679, col: 17, offset: 21807},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 679, col: 21, offset: 21810},
+																																	pos:   position{line: 679, col: 21, offset: 21811},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 679, col: 28, offset: 21817},
+																																		pos: position{line: 679, col: 28, offset: 21818},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 679, col: 28, offset: 21817},
+																																				pos: position{line: 679, col: 28, offset: 21818},
 																																				run: (*parser).callonRelativeLink101,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 679, col: 28, offset: 21817},
+																																					pos:        position{line: 679, col: 28, offset: 21818},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22981,12 +22981,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 681, col: 9, offset: 21871},
+																																				pos: position{line: 681, col: 9, offset: 21872},
 																																				run: (*parser).callonRelativeLink103,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 681, col: 9, offset: 21871},
+																																					pos: position{line: 681, col: 9, offset: 21872},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 681, col: 9, offset: 21871},
+																																						pos:        position{line: 681, col: 9, offset: 21872},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23003,7 +23003,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 675, col: 79, offset: 21697},
+																												pos:        position{line: 675, col: 79, offset: 21698},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23018,27 +23018,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1211, col: 23, offset: 37655},
+																			pos: position{line: 1211, col: 23, offset: 37656},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1211, col: 23, offset: 37655},
+																				pos: position{line: 1211, col: 23, offset: 37656},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1209, col: 32, offset: 37623},
+																						pos:        position{line: 1209, col: 32, offset: 37624},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1211, col: 51, offset: 37683},
+																						pos:   position{line: 1211, col: 51, offset: 37684},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1211, col: 56, offset: 37688},
+																							pos: position{line: 1211, col: 56, offset: 37689},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1211, col: 56, offset: 37688},
+																								pos: position{line: 1211, col: 56, offset: 37689},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1211, col: 56, offset: 37688},
+																									pos:        position{line: 1211, col: 56, offset: 37689},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23048,7 +23048,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1209, col: 32, offset: 37623},
+																						pos:        position{line: 1209, col: 32, offset: 37624},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23057,10 +23057,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2901, col: 11, offset: 91925},
+																			pos: position{line: 2901, col: 11, offset: 91926},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 11, offset: 91925},
+																				pos:        position{line: 2901, col: 11, offset: 91926},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23077,10 +23077,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1437, col: 32, offset: 46480},
+									pos:   position{line: 1437, col: 32, offset: 46481},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1437, col: 44, offset: 46492},
+										pos:  position{line: 1437, col: 44, offset: 46493},
 										name: "InlineAttributes",
 									},
 								},
@@ -23088,63 +23088,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1442, col: 5, offset: 46624},
+						pos: position{line: 1442, col: 5, offset: 46625},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1442, col: 5, offset: 46624},
+							pos: position{line: 1442, col: 5, offset: 46625},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1442, col: 5, offset: 46624},
+									pos:        position{line: 1442, col: 5, offset: 46625},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1442, col: 13, offset: 46632},
+									pos:   position{line: 1442, col: 13, offset: 46633},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2880, col: 13, offset: 91169},
+										pos: position{line: 2880, col: 13, offset: 91170},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2880, col: 13, offset: 91169},
+											pos: position{line: 2880, col: 13, offset: 91170},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2880, col: 13, offset: 91169},
+													pos:   position{line: 2880, col: 13, offset: 91170},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2880, col: 20, offset: 91176},
+														pos: position{line: 2880, col: 20, offset: 91177},
 														expr: &actionExpr{
-															pos: position{line: 2888, col: 11, offset: 91415},
+															pos: position{line: 2888, col: 11, offset: 91416},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2888, col: 12, offset: 91416},
+																pos: position{line: 2888, col: 12, offset: 91417},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 12, offset: 91416},
+																		pos:        position{line: 2888, col: 12, offset: 91417},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 24, offset: 91428},
+																		pos:        position{line: 2888, col: 24, offset: 91429},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 37, offset: 91441},
+																		pos:        position{line: 2888, col: 37, offset: 91442},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 48, offset: 91452},
+																		pos:        position{line: 2888, col: 48, offset: 91453},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 59, offset: 91463},
+																		pos:        position{line: 2888, col: 59, offset: 91464},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23155,38 +23155,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2880, col: 30, offset: 91186},
+													pos:   position{line: 2880, col: 30, offset: 91187},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2893, col: 5, offset: 91527},
+														pos: position{line: 2893, col: 5, offset: 91528},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2893, col: 5, offset: 91527},
+															pos:   position{line: 2893, col: 5, offset: 91528},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2893, col: 14, offset: 91536},
+																pos: position{line: 2893, col: 14, offset: 91537},
 																expr: &choiceExpr{
-																	pos: position{line: 2894, col: 9, offset: 91546},
+																	pos: position{line: 2894, col: 9, offset: 91547},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2894, col: 9, offset: 91546},
+																			pos: position{line: 2894, col: 9, offset: 91547},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2894, col: 9, offset: 91546},
+																				pos: position{line: 2894, col: 9, offset: 91547},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2894, col: 9, offset: 91546},
+																						pos: position{line: 2894, col: 9, offset: 91547},
 																						expr: &litMatcher{
-																							pos:        position{line: 2894, col: 10, offset: 91547},
+																							pos:        position{line: 2894, col: 10, offset: 91548},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2895, col: 9, offset: 91575},
+																						pos: position{line: 2895, col: 9, offset: 91576},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2895, col: 10, offset: 91576},
+																							pos:        position{line: 2895, col: 10, offset: 91577},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23197,27 +23197,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2898, col: 11, offset: 91788},
+																			pos: position{line: 2898, col: 11, offset: 91789},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2898, col: 11, offset: 91788},
+																					pos:        position{line: 2898, col: 11, offset: 91789},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2898, col: 19, offset: 91796},
+																					pos: position{line: 2898, col: 19, offset: 91797},
 																					expr: &seqExpr{
-																						pos: position{line: 2898, col: 21, offset: 91798},
+																						pos: position{line: 2898, col: 21, offset: 91799},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2898, col: 21, offset: 91798},
+																								pos: position{line: 2898, col: 21, offset: 91799},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92410},
+																									pos: position{line: 2922, col: 10, offset: 92411},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92410},
+																										pos:        position{line: 2922, col: 10, offset: 92411},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23226,11 +23226,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2898, col: 28, offset: 91805},
+																								pos: position{line: 2898, col: 28, offset: 91806},
 																								expr: &notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -23240,35 +23240,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 649, col: 5, offset: 20790},
+																			pos: position{line: 649, col: 5, offset: 20791},
 																			run: (*parser).callonRelativeLink155,
 																			expr: &seqExpr{
-																				pos: position{line: 649, col: 5, offset: 20790},
+																				pos: position{line: 649, col: 5, offset: 20791},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 649, col: 5, offset: 20790},
+																						pos: position{line: 649, col: 5, offset: 20791},
 																						run: (*parser).callonRelativeLink157,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 652, col: 5, offset: 20862},
+																						pos:   position{line: 652, col: 5, offset: 20863},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 652, col: 14, offset: 20871},
+																							pos: position{line: 652, col: 14, offset: 20872},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 658, col: 5, offset: 21000},
+																									pos: position{line: 658, col: 5, offset: 21001},
 																									run: (*parser).callonRelativeLink160,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 5, offset: 21000},
+																										pos: position{line: 658, col: 5, offset: 21001},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 5, offset: 21000},
+																												pos:        position{line: 658, col: 5, offset: 21001},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 13, offset: 21008},
+																												pos:   position{line: 658, col: 13, offset: 21009},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23288,8 +23288,8 @@ var g = &grammar{
 																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 320, col: 29, offset: 9848},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23300,7 +23300,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 32, offset: 21027},
+																												pos:        position{line: 658, col: 32, offset: 21028},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23309,19 +23309,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 5, offset: 21268},
+																									pos: position{line: 665, col: 5, offset: 21269},
 																									run: (*parser).callonRelativeLink170,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 5, offset: 21268},
+																										pos: position{line: 665, col: 5, offset: 21269},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 5, offset: 21268},
+																												pos:        position{line: 665, col: 5, offset: 21269},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 9, offset: 21272},
+																												pos:   position{line: 665, col: 9, offset: 21273},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23341,8 +23341,8 @@ var g = &grammar{
 																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 320, col: 29, offset: 9848},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23353,7 +23353,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 28, offset: 21291},
+																												pos:        position{line: 665, col: 28, offset: 21292},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23362,19 +23362,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 671, col: 25, offset: 21472},
+																									pos: position{line: 671, col: 25, offset: 21473},
 																									run: (*parser).callonRelativeLink180,
 																									expr: &seqExpr{
-																										pos: position{line: 671, col: 25, offset: 21472},
+																										pos: position{line: 671, col: 25, offset: 21473},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 671, col: 25, offset: 21472},
+																												pos:        position{line: 671, col: 25, offset: 21473},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 37, offset: 21484},
+																												pos:   position{line: 671, col: 37, offset: 21485},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23394,8 +23394,8 @@ var g = &grammar{
 																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 320, col: 29, offset: 9848},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23406,33 +23406,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 56, offset: 21503},
+																												pos:   position{line: 671, col: 56, offset: 21504},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 671, col: 62, offset: 21509},
+																													pos: position{line: 671, col: 62, offset: 21510},
 																													expr: &actionExpr{
-																														pos: position{line: 679, col: 17, offset: 21806},
+																														pos: position{line: 679, col: 17, offset: 21807},
 																														run: (*parser).callonRelativeLink191,
 																														expr: &seqExpr{
-																															pos: position{line: 679, col: 17, offset: 21806},
+																															pos: position{line: 679, col: 17, offset: 21807},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 679, col: 17, offset: 21806},
+																																	pos:        position{line: 679, col: 17, offset: 21807},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 679, col: 21, offset: 21810},
+																																	pos:   position{line: 679, col: 21, offset: 21811},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 679, col: 28, offset: 21817},
+																																		pos: position{line: 679, col: 28, offset: 21818},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 679, col: 28, offset: 21817},
+																																				pos: position{line: 679, col: 28, offset: 21818},
 																																				run: (*parser).callonRelativeLink196,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 679, col: 28, offset: 21817},
+																																					pos:        position{line: 679, col: 28, offset: 21818},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23440,12 +23440,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 681, col: 9, offset: 21871},
+																																				pos: position{line: 681, col: 9, offset: 21872},
 																																				run: (*parser).callonRelativeLink198,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 681, col: 9, offset: 21871},
+																																					pos: position{line: 681, col: 9, offset: 21872},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 681, col: 9, offset: 21871},
+																																						pos:        position{line: 681, col: 9, offset: 21872},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23462,7 +23462,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 671, col: 78, offset: 21525},
+																												pos:        position{line: 671, col: 78, offset: 21526},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23471,19 +23471,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 675, col: 25, offset: 21643},
+																									pos: position{line: 675, col: 25, offset: 21644},
 																									run: (*parser).callonRelativeLink202,
 																									expr: &seqExpr{
-																										pos: position{line: 675, col: 25, offset: 21643},
+																										pos: position{line: 675, col: 25, offset: 21644},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 675, col: 25, offset: 21643},
+																												pos:        position{line: 675, col: 25, offset: 21644},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 675, col: 38, offset: 21656},
+																												pos:   position{line: 675, col: 38, offset: 21657},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23503,8 +23503,8 @@ var g = &grammar{
 																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 320, col: 29, offset: 9848},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23515,33 +23515,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 675, col: 57, offset: 21675},
+																												pos:   position{line: 675, col: 57, offset: 21676},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 675, col: 63, offset: 21681},
+																													pos: position{line: 675, col: 63, offset: 21682},
 																													expr: &actionExpr{
-																														pos: position{line: 679, col: 17, offset: 21806},
+																														pos: position{line: 679, col: 17, offset: 21807},
 																														run: (*parser).callonRelativeLink213,
 																														expr: &seqExpr{
-																															pos: position{line: 679, col: 17, offset: 21806},
+																															pos: position{line: 679, col: 17, offset: 21807},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 679, col: 17, offset: 21806},
+																																	pos:        position{line: 679, col: 17, offset: 21807},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 679, col: 21, offset: 21810},
+																																	pos:   position{line: 679, col: 21, offset: 21811},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 679, col: 28, offset: 21817},
+																																		pos: position{line: 679, col: 28, offset: 21818},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 679, col: 28, offset: 21817},
+																																				pos: position{line: 679, col: 28, offset: 21818},
 																																				run: (*parser).callonRelativeLink218,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 679, col: 28, offset: 21817},
+																																					pos:        position{line: 679, col: 28, offset: 21818},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23549,12 +23549,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 681, col: 9, offset: 21871},
+																																				pos: position{line: 681, col: 9, offset: 21872},
 																																				run: (*parser).callonRelativeLink220,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 681, col: 9, offset: 21871},
+																																					pos: position{line: 681, col: 9, offset: 21872},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 681, col: 9, offset: 21871},
+																																						pos:        position{line: 681, col: 9, offset: 21872},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23571,7 +23571,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 675, col: 79, offset: 21697},
+																												pos:        position{line: 675, col: 79, offset: 21698},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23586,27 +23586,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1211, col: 23, offset: 37655},
+																			pos: position{line: 1211, col: 23, offset: 37656},
 																			run: (*parser).callonRelativeLink224,
 																			expr: &seqExpr{
-																				pos: position{line: 1211, col: 23, offset: 37655},
+																				pos: position{line: 1211, col: 23, offset: 37656},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1209, col: 32, offset: 37623},
+																						pos:        position{line: 1209, col: 32, offset: 37624},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1211, col: 51, offset: 37683},
+																						pos:   position{line: 1211, col: 51, offset: 37684},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1211, col: 56, offset: 37688},
+																							pos: position{line: 1211, col: 56, offset: 37689},
 																							run: (*parser).callonRelativeLink228,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1211, col: 56, offset: 37688},
+																								pos: position{line: 1211, col: 56, offset: 37689},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1211, col: 56, offset: 37688},
+																									pos:        position{line: 1211, col: 56, offset: 37689},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23616,7 +23616,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1209, col: 32, offset: 37623},
+																						pos:        position{line: 1209, col: 32, offset: 37624},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23625,10 +23625,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2901, col: 11, offset: 91925},
+																			pos: position{line: 2901, col: 11, offset: 91926},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 11, offset: 91925},
+																				pos:        position{line: 2901, col: 11, offset: 91926},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23645,10 +23645,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1442, col: 28, offset: 46647},
+									pos:   position{line: 1442, col: 28, offset: 46648},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1442, col: 40, offset: 46659},
+										pos:  position{line: 1442, col: 40, offset: 46660},
 										name: "InlineAttributes",
 									},
 								},
@@ -23660,75 +23660,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1446, col: 1, offset: 46775},
+			pos:  position{line: 1446, col: 1, offset: 46776},
 			expr: &choiceExpr{
-				pos: position{line: 1449, col: 5, offset: 46937},
+				pos: position{line: 1449, col: 5, offset: 46938},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1449, col: 5, offset: 46937},
+						pos: position{line: 1449, col: 5, offset: 46938},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1449, col: 5, offset: 46937},
+							pos: position{line: 1449, col: 5, offset: 46938},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1449, col: 5, offset: 46937},
+									pos:        position{line: 1449, col: 5, offset: 46938},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1449, col: 9, offset: 46941},
+									pos:   position{line: 1449, col: 9, offset: 46942},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2884, col: 23, offset: 91296},
+										pos: position{line: 2884, col: 23, offset: 91297},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2884, col: 23, offset: 91296},
+											pos: position{line: 2884, col: 23, offset: 91297},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2884, col: 23, offset: 91296},
+													pos: position{line: 2884, col: 23, offset: 91297},
 													expr: &litMatcher{
-														pos:        position{line: 2884, col: 24, offset: 91297},
+														pos:        position{line: 2884, col: 24, offset: 91298},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2884, col: 28, offset: 91301},
+													pos:   position{line: 2884, col: 28, offset: 91302},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 11, offset: 91415},
+														pos: position{line: 2888, col: 11, offset: 91416},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2888, col: 12, offset: 91416},
+															pos: position{line: 2888, col: 12, offset: 91417},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2888, col: 12, offset: 91416},
+																	pos:        position{line: 2888, col: 12, offset: 91417},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 24, offset: 91428},
+																	pos:        position{line: 2888, col: 24, offset: 91429},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 37, offset: 91441},
+																	pos:        position{line: 2888, col: 37, offset: 91442},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 48, offset: 91452},
+																	pos:        position{line: 2888, col: 48, offset: 91453},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 59, offset: 91463},
+																	pos:        position{line: 2888, col: 59, offset: 91464},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23738,38 +23738,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2884, col: 44, offset: 91317},
+													pos:   position{line: 2884, col: 44, offset: 91318},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2893, col: 5, offset: 91527},
+														pos: position{line: 2893, col: 5, offset: 91528},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2893, col: 5, offset: 91527},
+															pos:   position{line: 2893, col: 5, offset: 91528},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2893, col: 14, offset: 91536},
+																pos: position{line: 2893, col: 14, offset: 91537},
 																expr: &choiceExpr{
-																	pos: position{line: 2894, col: 9, offset: 91546},
+																	pos: position{line: 2894, col: 9, offset: 91547},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2894, col: 9, offset: 91546},
+																			pos: position{line: 2894, col: 9, offset: 91547},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2894, col: 9, offset: 91546},
+																				pos: position{line: 2894, col: 9, offset: 91547},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2894, col: 9, offset: 91546},
+																						pos: position{line: 2894, col: 9, offset: 91547},
 																						expr: &litMatcher{
-																							pos:        position{line: 2894, col: 10, offset: 91547},
+																							pos:        position{line: 2894, col: 10, offset: 91548},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2895, col: 9, offset: 91575},
+																						pos: position{line: 2895, col: 9, offset: 91576},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2895, col: 10, offset: 91576},
+																							pos:        position{line: 2895, col: 10, offset: 91577},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23780,27 +23780,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2898, col: 11, offset: 91788},
+																			pos: position{line: 2898, col: 11, offset: 91789},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2898, col: 11, offset: 91788},
+																					pos:        position{line: 2898, col: 11, offset: 91789},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2898, col: 19, offset: 91796},
+																					pos: position{line: 2898, col: 19, offset: 91797},
 																					expr: &seqExpr{
-																						pos: position{line: 2898, col: 21, offset: 91798},
+																						pos: position{line: 2898, col: 21, offset: 91799},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2898, col: 21, offset: 91798},
+																								pos: position{line: 2898, col: 21, offset: 91799},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92410},
+																									pos: position{line: 2922, col: 10, offset: 92411},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92410},
+																										pos:        position{line: 2922, col: 10, offset: 92411},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23809,11 +23809,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2898, col: 28, offset: 91805},
+																								pos: position{line: 2898, col: 28, offset: 91806},
 																								expr: &notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -23823,35 +23823,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 649, col: 5, offset: 20790},
+																			pos: position{line: 649, col: 5, offset: 20791},
 																			run: (*parser).callonExternalLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 649, col: 5, offset: 20790},
+																				pos: position{line: 649, col: 5, offset: 20791},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 649, col: 5, offset: 20790},
+																						pos: position{line: 649, col: 5, offset: 20791},
 																						run: (*parser).callonExternalLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 652, col: 5, offset: 20862},
+																						pos:   position{line: 652, col: 5, offset: 20863},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 652, col: 14, offset: 20871},
+																							pos: position{line: 652, col: 14, offset: 20872},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 658, col: 5, offset: 21000},
+																									pos: position{line: 658, col: 5, offset: 21001},
 																									run: (*parser).callonExternalLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 5, offset: 21000},
+																										pos: position{line: 658, col: 5, offset: 21001},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 5, offset: 21000},
+																												pos:        position{line: 658, col: 5, offset: 21001},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 13, offset: 21008},
+																												pos:   position{line: 658, col: 13, offset: 21009},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23871,8 +23871,8 @@ var g = &grammar{
 																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 320, col: 29, offset: 9848},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23883,7 +23883,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 32, offset: 21027},
+																												pos:        position{line: 658, col: 32, offset: 21028},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23892,19 +23892,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 5, offset: 21268},
+																									pos: position{line: 665, col: 5, offset: 21269},
 																									run: (*parser).callonExternalLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 5, offset: 21268},
+																										pos: position{line: 665, col: 5, offset: 21269},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 5, offset: 21268},
+																												pos:        position{line: 665, col: 5, offset: 21269},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 9, offset: 21272},
+																												pos:   position{line: 665, col: 9, offset: 21273},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23924,8 +23924,8 @@ var g = &grammar{
 																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 320, col: 29, offset: 9848},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23936,7 +23936,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 28, offset: 21291},
+																												pos:        position{line: 665, col: 28, offset: 21292},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23945,19 +23945,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 671, col: 25, offset: 21472},
+																									pos: position{line: 671, col: 25, offset: 21473},
 																									run: (*parser).callonExternalLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 671, col: 25, offset: 21472},
+																										pos: position{line: 671, col: 25, offset: 21473},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 671, col: 25, offset: 21472},
+																												pos:        position{line: 671, col: 25, offset: 21473},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 37, offset: 21484},
+																												pos:   position{line: 671, col: 37, offset: 21485},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23977,8 +23977,8 @@ var g = &grammar{
 																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 320, col: 29, offset: 9848},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23989,33 +23989,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 56, offset: 21503},
+																												pos:   position{line: 671, col: 56, offset: 21504},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 671, col: 62, offset: 21509},
+																													pos: position{line: 671, col: 62, offset: 21510},
 																													expr: &actionExpr{
-																														pos: position{line: 679, col: 17, offset: 21806},
+																														pos: position{line: 679, col: 17, offset: 21807},
 																														run: (*parser).callonExternalLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 679, col: 17, offset: 21806},
+																															pos: position{line: 679, col: 17, offset: 21807},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 679, col: 17, offset: 21806},
+																																	pos:        position{line: 679, col: 17, offset: 21807},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 679, col: 21, offset: 21810},
+																																	pos:   position{line: 679, col: 21, offset: 21811},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 679, col: 28, offset: 21817},
+																																		pos: position{line: 679, col: 28, offset: 21818},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 679, col: 28, offset: 21817},
+																																				pos: position{line: 679, col: 28, offset: 21818},
 																																				run: (*parser).callonExternalLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 679, col: 28, offset: 21817},
+																																					pos:        position{line: 679, col: 28, offset: 21818},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24023,12 +24023,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 681, col: 9, offset: 21871},
+																																				pos: position{line: 681, col: 9, offset: 21872},
 																																				run: (*parser).callonExternalLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 681, col: 9, offset: 21871},
+																																					pos: position{line: 681, col: 9, offset: 21872},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 681, col: 9, offset: 21871},
+																																						pos:        position{line: 681, col: 9, offset: 21872},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24045,7 +24045,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 671, col: 78, offset: 21525},
+																												pos:        position{line: 671, col: 78, offset: 21526},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24054,19 +24054,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 675, col: 25, offset: 21643},
+																									pos: position{line: 675, col: 25, offset: 21644},
 																									run: (*parser).callonExternalLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 675, col: 25, offset: 21643},
+																										pos: position{line: 675, col: 25, offset: 21644},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 675, col: 25, offset: 21643},
+																												pos:        position{line: 675, col: 25, offset: 21644},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 675, col: 38, offset: 21656},
+																												pos:   position{line: 675, col: 38, offset: 21657},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24086,8 +24086,8 @@ var g = &grammar{
 																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 320, col: 29, offset: 9848},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -24098,33 +24098,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 675, col: 57, offset: 21675},
+																												pos:   position{line: 675, col: 57, offset: 21676},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 675, col: 63, offset: 21681},
+																													pos: position{line: 675, col: 63, offset: 21682},
 																													expr: &actionExpr{
-																														pos: position{line: 679, col: 17, offset: 21806},
+																														pos: position{line: 679, col: 17, offset: 21807},
 																														run: (*parser).callonExternalLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 679, col: 17, offset: 21806},
+																															pos: position{line: 679, col: 17, offset: 21807},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 679, col: 17, offset: 21806},
+																																	pos:        position{line: 679, col: 17, offset: 21807},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 679, col: 21, offset: 21810},
+																																	pos:   position{line: 679, col: 21, offset: 21811},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 679, col: 28, offset: 21817},
+																																		pos: position{line: 679, col: 28, offset: 21818},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 679, col: 28, offset: 21817},
+																																				pos: position{line: 679, col: 28, offset: 21818},
 																																				run: (*parser).callonExternalLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 679, col: 28, offset: 21817},
+																																					pos:        position{line: 679, col: 28, offset: 21818},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24132,12 +24132,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 681, col: 9, offset: 21871},
+																																				pos: position{line: 681, col: 9, offset: 21872},
 																																				run: (*parser).callonExternalLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 681, col: 9, offset: 21871},
+																																					pos: position{line: 681, col: 9, offset: 21872},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 681, col: 9, offset: 21871},
+																																						pos:        position{line: 681, col: 9, offset: 21872},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24154,7 +24154,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 675, col: 79, offset: 21697},
+																												pos:        position{line: 675, col: 79, offset: 21698},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24169,27 +24169,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1211, col: 23, offset: 37655},
+																			pos: position{line: 1211, col: 23, offset: 37656},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1211, col: 23, offset: 37655},
+																				pos: position{line: 1211, col: 23, offset: 37656},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1209, col: 32, offset: 37623},
+																						pos:        position{line: 1209, col: 32, offset: 37624},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1211, col: 51, offset: 37683},
+																						pos:   position{line: 1211, col: 51, offset: 37684},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1211, col: 56, offset: 37688},
+																							pos: position{line: 1211, col: 56, offset: 37689},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1211, col: 56, offset: 37688},
+																								pos: position{line: 1211, col: 56, offset: 37689},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1211, col: 56, offset: 37688},
+																									pos:        position{line: 1211, col: 56, offset: 37689},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24199,7 +24199,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1209, col: 32, offset: 37623},
+																						pos:        position{line: 1209, col: 32, offset: 37624},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24208,10 +24208,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2901, col: 11, offset: 91925},
+																			pos: position{line: 2901, col: 11, offset: 91926},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 11, offset: 91925},
+																				pos:        position{line: 2901, col: 11, offset: 91926},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24228,12 +24228,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1449, col: 34, offset: 46966},
+									pos:   position{line: 1449, col: 34, offset: 46967},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1449, col: 45, offset: 46977},
+										pos: position{line: 1449, col: 45, offset: 46978},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1449, col: 46, offset: 46978},
+											pos:  position{line: 1449, col: 46, offset: 46979},
 											name: "InlineAttributes",
 										},
 									},
@@ -24242,64 +24242,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1454, col: 5, offset: 47111},
+						pos: position{line: 1454, col: 5, offset: 47112},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1454, col: 5, offset: 47111},
+							pos: position{line: 1454, col: 5, offset: 47112},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1454, col: 5, offset: 47111},
+									pos:   position{line: 1454, col: 5, offset: 47112},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2884, col: 23, offset: 91296},
+										pos: position{line: 2884, col: 23, offset: 91297},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2884, col: 23, offset: 91296},
+											pos: position{line: 2884, col: 23, offset: 91297},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2884, col: 23, offset: 91296},
+													pos: position{line: 2884, col: 23, offset: 91297},
 													expr: &litMatcher{
-														pos:        position{line: 2884, col: 24, offset: 91297},
+														pos:        position{line: 2884, col: 24, offset: 91298},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2884, col: 28, offset: 91301},
+													pos:   position{line: 2884, col: 28, offset: 91302},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 11, offset: 91415},
+														pos: position{line: 2888, col: 11, offset: 91416},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2888, col: 12, offset: 91416},
+															pos: position{line: 2888, col: 12, offset: 91417},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2888, col: 12, offset: 91416},
+																	pos:        position{line: 2888, col: 12, offset: 91417},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 24, offset: 91428},
+																	pos:        position{line: 2888, col: 24, offset: 91429},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 37, offset: 91441},
+																	pos:        position{line: 2888, col: 37, offset: 91442},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 48, offset: 91452},
+																	pos:        position{line: 2888, col: 48, offset: 91453},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 59, offset: 91463},
+																	pos:        position{line: 2888, col: 59, offset: 91464},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24309,38 +24309,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2884, col: 44, offset: 91317},
+													pos:   position{line: 2884, col: 44, offset: 91318},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2893, col: 5, offset: 91527},
+														pos: position{line: 2893, col: 5, offset: 91528},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2893, col: 5, offset: 91527},
+															pos:   position{line: 2893, col: 5, offset: 91528},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2893, col: 14, offset: 91536},
+																pos: position{line: 2893, col: 14, offset: 91537},
 																expr: &choiceExpr{
-																	pos: position{line: 2894, col: 9, offset: 91546},
+																	pos: position{line: 2894, col: 9, offset: 91547},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2894, col: 9, offset: 91546},
+																			pos: position{line: 2894, col: 9, offset: 91547},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2894, col: 9, offset: 91546},
+																				pos: position{line: 2894, col: 9, offset: 91547},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2894, col: 9, offset: 91546},
+																						pos: position{line: 2894, col: 9, offset: 91547},
 																						expr: &litMatcher{
-																							pos:        position{line: 2894, col: 10, offset: 91547},
+																							pos:        position{line: 2894, col: 10, offset: 91548},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2895, col: 9, offset: 91575},
+																						pos: position{line: 2895, col: 9, offset: 91576},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2895, col: 10, offset: 91576},
+																							pos:        position{line: 2895, col: 10, offset: 91577},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24351,27 +24351,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2898, col: 11, offset: 91788},
+																			pos: position{line: 2898, col: 11, offset: 91789},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2898, col: 11, offset: 91788},
+																					pos:        position{line: 2898, col: 11, offset: 91789},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2898, col: 19, offset: 91796},
+																					pos: position{line: 2898, col: 19, offset: 91797},
 																					expr: &seqExpr{
-																						pos: position{line: 2898, col: 21, offset: 91798},
+																						pos: position{line: 2898, col: 21, offset: 91799},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2898, col: 21, offset: 91798},
+																								pos: position{line: 2898, col: 21, offset: 91799},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92410},
+																									pos: position{line: 2922, col: 10, offset: 92411},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92410},
+																										pos:        position{line: 2922, col: 10, offset: 92411},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24380,11 +24380,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2898, col: 28, offset: 91805},
+																								pos: position{line: 2898, col: 28, offset: 91806},
 																								expr: &notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -24394,35 +24394,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 649, col: 5, offset: 20790},
+																			pos: position{line: 649, col: 5, offset: 20791},
 																			run: (*parser).callonExternalLink157,
 																			expr: &seqExpr{
-																				pos: position{line: 649, col: 5, offset: 20790},
+																				pos: position{line: 649, col: 5, offset: 20791},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 649, col: 5, offset: 20790},
+																						pos: position{line: 649, col: 5, offset: 20791},
 																						run: (*parser).callonExternalLink159,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 652, col: 5, offset: 20862},
+																						pos:   position{line: 652, col: 5, offset: 20863},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 652, col: 14, offset: 20871},
+																							pos: position{line: 652, col: 14, offset: 20872},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 658, col: 5, offset: 21000},
+																									pos: position{line: 658, col: 5, offset: 21001},
 																									run: (*parser).callonExternalLink162,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 5, offset: 21000},
+																										pos: position{line: 658, col: 5, offset: 21001},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 5, offset: 21000},
+																												pos:        position{line: 658, col: 5, offset: 21001},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 13, offset: 21008},
+																												pos:   position{line: 658, col: 13, offset: 21009},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24442,8 +24442,8 @@ var g = &grammar{
 																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 320, col: 29, offset: 9848},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -24454,7 +24454,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 32, offset: 21027},
+																												pos:        position{line: 658, col: 32, offset: 21028},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24463,19 +24463,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 5, offset: 21268},
+																									pos: position{line: 665, col: 5, offset: 21269},
 																									run: (*parser).callonExternalLink172,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 5, offset: 21268},
+																										pos: position{line: 665, col: 5, offset: 21269},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 5, offset: 21268},
+																												pos:        position{line: 665, col: 5, offset: 21269},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 9, offset: 21272},
+																												pos:   position{line: 665, col: 9, offset: 21273},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24495,8 +24495,8 @@ var g = &grammar{
 																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 320, col: 29, offset: 9848},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -24507,7 +24507,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 28, offset: 21291},
+																												pos:        position{line: 665, col: 28, offset: 21292},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24516,19 +24516,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 671, col: 25, offset: 21472},
+																									pos: position{line: 671, col: 25, offset: 21473},
 																									run: (*parser).callonExternalLink182,
 																									expr: &seqExpr{
-																										pos: position{line: 671, col: 25, offset: 21472},
+																										pos: position{line: 671, col: 25, offset: 21473},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 671, col: 25, offset: 21472},
+																												pos:        position{line: 671, col: 25, offset: 21473},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 37, offset: 21484},
+																												pos:   position{line: 671, col: 37, offset: 21485},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24548,8 +24548,8 @@ var g = &grammar{
 																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 320, col: 29, offset: 9848},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -24560,33 +24560,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 56, offset: 21503},
+																												pos:   position{line: 671, col: 56, offset: 21504},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 671, col: 62, offset: 21509},
+																													pos: position{line: 671, col: 62, offset: 21510},
 																													expr: &actionExpr{
-																														pos: position{line: 679, col: 17, offset: 21806},
+																														pos: position{line: 679, col: 17, offset: 21807},
 																														run: (*parser).callonExternalLink193,
 																														expr: &seqExpr{
-																															pos: position{line: 679, col: 17, offset: 21806},
+																															pos: position{line: 679, col: 17, offset: 21807},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 679, col: 17, offset: 21806},
+																																	pos:        position{line: 679, col: 17, offset: 21807},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 679, col: 21, offset: 21810},
+																																	pos:   position{line: 679, col: 21, offset: 21811},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 679, col: 28, offset: 21817},
+																																		pos: position{line: 679, col: 28, offset: 21818},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 679, col: 28, offset: 21817},
+																																				pos: position{line: 679, col: 28, offset: 21818},
 																																				run: (*parser).callonExternalLink198,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 679, col: 28, offset: 21817},
+																																					pos:        position{line: 679, col: 28, offset: 21818},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24594,12 +24594,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 681, col: 9, offset: 21871},
+																																				pos: position{line: 681, col: 9, offset: 21872},
 																																				run: (*parser).callonExternalLink200,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 681, col: 9, offset: 21871},
+																																					pos: position{line: 681, col: 9, offset: 21872},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 681, col: 9, offset: 21871},
+																																						pos:        position{line: 681, col: 9, offset: 21872},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24616,7 +24616,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 671, col: 78, offset: 21525},
+																												pos:        position{line: 671, col: 78, offset: 21526},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24625,19 +24625,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 675, col: 25, offset: 21643},
+																									pos: position{line: 675, col: 25, offset: 21644},
 																									run: (*parser).callonExternalLink204,
 																									expr: &seqExpr{
-																										pos: position{line: 675, col: 25, offset: 21643},
+																										pos: position{line: 675, col: 25, offset: 21644},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 675, col: 25, offset: 21643},
+																												pos:        position{line: 675, col: 25, offset: 21644},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 675, col: 38, offset: 21656},
+																												pos:   position{line: 675, col: 38, offset: 21657},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24657,8 +24657,8 @@ var g = &grammar{
 																																pos: position{line: 320, col: 28, offset: 9847},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 320, col: 29, offset: 9848},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -24669,33 +24669,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 675, col: 57, offset: 21675},
+																												pos:   position{line: 675, col: 57, offset: 21676},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 675, col: 63, offset: 21681},
+																													pos: position{line: 675, col: 63, offset: 21682},
 																													expr: &actionExpr{
-																														pos: position{line: 679, col: 17, offset: 21806},
+																														pos: position{line: 679, col: 17, offset: 21807},
 																														run: (*parser).callonExternalLink215,
 																														expr: &seqExpr{
-																															pos: position{line: 679, col: 17, offset: 21806},
+																															pos: position{line: 679, col: 17, offset: 21807},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 679, col: 17, offset: 21806},
+																																	pos:        position{line: 679, col: 17, offset: 21807},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 679, col: 21, offset: 21810},
+																																	pos:   position{line: 679, col: 21, offset: 21811},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 679, col: 28, offset: 21817},
+																																		pos: position{line: 679, col: 28, offset: 21818},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 679, col: 28, offset: 21817},
+																																				pos: position{line: 679, col: 28, offset: 21818},
 																																				run: (*parser).callonExternalLink220,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 679, col: 28, offset: 21817},
+																																					pos:        position{line: 679, col: 28, offset: 21818},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24703,12 +24703,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 681, col: 9, offset: 21871},
+																																				pos: position{line: 681, col: 9, offset: 21872},
 																																				run: (*parser).callonExternalLink222,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 681, col: 9, offset: 21871},
+																																					pos: position{line: 681, col: 9, offset: 21872},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 681, col: 9, offset: 21871},
+																																						pos:        position{line: 681, col: 9, offset: 21872},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24725,7 +24725,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 675, col: 79, offset: 21697},
+																												pos:        position{line: 675, col: 79, offset: 21698},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24740,27 +24740,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1211, col: 23, offset: 37655},
+																			pos: position{line: 1211, col: 23, offset: 37656},
 																			run: (*parser).callonExternalLink226,
 																			expr: &seqExpr{
-																				pos: position{line: 1211, col: 23, offset: 37655},
+																				pos: position{line: 1211, col: 23, offset: 37656},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1209, col: 32, offset: 37623},
+																						pos:        position{line: 1209, col: 32, offset: 37624},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1211, col: 51, offset: 37683},
+																						pos:   position{line: 1211, col: 51, offset: 37684},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1211, col: 56, offset: 37688},
+																							pos: position{line: 1211, col: 56, offset: 37689},
 																							run: (*parser).callonExternalLink230,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1211, col: 56, offset: 37688},
+																								pos: position{line: 1211, col: 56, offset: 37689},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1211, col: 56, offset: 37688},
+																									pos:        position{line: 1211, col: 56, offset: 37689},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24770,7 +24770,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1209, col: 32, offset: 37623},
+																						pos:        position{line: 1209, col: 32, offset: 37624},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24779,10 +24779,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2901, col: 11, offset: 91925},
+																			pos: position{line: 2901, col: 11, offset: 91926},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 11, offset: 91925},
+																				pos:        position{line: 2901, col: 11, offset: 91926},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24799,12 +24799,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1454, col: 30, offset: 47136},
+									pos:   position{line: 1454, col: 30, offset: 47137},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1454, col: 41, offset: 47147},
+										pos: position{line: 1454, col: 41, offset: 47148},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1454, col: 42, offset: 47148},
+											pos:  position{line: 1454, col: 42, offset: 47149},
 											name: "InlineAttributes",
 										},
 									},
@@ -24817,41 +24817,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1488, col: 1, offset: 48289},
+			pos:  position{line: 1488, col: 1, offset: 48290},
 			expr: &actionExpr{
-				pos: position{line: 1489, col: 5, offset: 48310},
+				pos: position{line: 1489, col: 5, offset: 48311},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1489, col: 5, offset: 48310},
+					pos: position{line: 1489, col: 5, offset: 48311},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1489, col: 5, offset: 48310},
+							pos:   position{line: 1489, col: 5, offset: 48311},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1495, col: 5, offset: 48512},
+								pos: position{line: 1495, col: 5, offset: 48513},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1589, col: 5, offset: 51480},
+										pos: position{line: 1589, col: 5, offset: 51481},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1589, col: 5, offset: 51480},
+											pos: position{line: 1589, col: 5, offset: 51481},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1589, col: 5, offset: 51480},
+													pos:   position{line: 1589, col: 5, offset: 51481},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1596, col: 5, offset: 51688},
+														pos: position{line: 1596, col: 5, offset: 51689},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1596, col: 5, offset: 51688},
+															pos: position{line: 1596, col: 5, offset: 51689},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1596, col: 5, offset: 51688},
+																	pos: position{line: 1596, col: 5, offset: 51689},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92410},
+																		pos: position{line: 2922, col: 10, offset: 92411},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92410},
+																			pos:        position{line: 2922, col: 10, offset: 92411},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24860,27 +24860,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1596, col: 12, offset: 51695},
+																	pos:   position{line: 1596, col: 12, offset: 51696},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1598, col: 9, offset: 51758},
+																		pos: position{line: 1598, col: 9, offset: 51759},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1598, col: 9, offset: 51758},
+																				pos: position{line: 1598, col: 9, offset: 51759},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1598, col: 9, offset: 51758},
+																					pos: position{line: 1598, col: 9, offset: 51759},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1598, col: 9, offset: 51758},
+																							pos:   position{line: 1598, col: 9, offset: 51759},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1598, col: 16, offset: 51765},
+																								pos: position{line: 1598, col: 16, offset: 51766},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1598, col: 16, offset: 51765},
+																									pos: position{line: 1598, col: 16, offset: 51766},
 																									expr: &litMatcher{
-																										pos:        position{line: 1598, col: 17, offset: 51766},
+																										pos:        position{line: 1598, col: 17, offset: 51767},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24889,22 +24889,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1602, col: 9, offset: 51866},
+																							pos: position{line: 1602, col: 9, offset: 51867},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 11, offset: 52583},
+																				pos: position{line: 1621, col: 11, offset: 52584},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 11, offset: 52583},
+																					pos: position{line: 1621, col: 11, offset: 52584},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1621, col: 11, offset: 52583},
+																							pos: position{line: 1621, col: 11, offset: 52584},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1621, col: 12, offset: 52584},
+																								pos:        position{line: 1621, col: 12, offset: 52585},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24912,7 +24912,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 20, offset: 52592},
+																							pos:        position{line: 1621, col: 20, offset: 52593},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24921,20 +24921,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1623, col: 13, offset: 52709},
+																				pos: position{line: 1623, col: 13, offset: 52710},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1623, col: 13, offset: 52709},
+																					pos: position{line: 1623, col: 13, offset: 52710},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1623, col: 14, offset: 52710},
+																							pos:        position{line: 1623, col: 14, offset: 52711},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1623, col: 21, offset: 52717},
+																							pos:        position{line: 1623, col: 21, offset: 52718},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24943,20 +24943,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1625, col: 13, offset: 52837},
+																				pos: position{line: 1625, col: 13, offset: 52838},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1625, col: 13, offset: 52837},
+																					pos: position{line: 1625, col: 13, offset: 52838},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1625, col: 14, offset: 52838},
+																							pos:        position{line: 1625, col: 14, offset: 52839},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1625, col: 21, offset: 52845},
+																							pos:        position{line: 1625, col: 21, offset: 52846},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24965,15 +24965,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1627, col: 13, offset: 52965},
+																				pos: position{line: 1627, col: 13, offset: 52966},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1627, col: 13, offset: 52965},
+																					pos: position{line: 1627, col: 13, offset: 52966},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1627, col: 13, offset: 52965},
+																							pos: position{line: 1627, col: 13, offset: 52966},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1627, col: 14, offset: 52966},
+																								pos:        position{line: 1627, col: 14, offset: 52967},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -24981,7 +24981,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1627, col: 26, offset: 52978},
+																							pos:        position{line: 1627, col: 26, offset: 52979},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24990,15 +24990,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1629, col: 13, offset: 53098},
+																				pos: position{line: 1629, col: 13, offset: 53099},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1629, col: 13, offset: 53098},
+																					pos: position{line: 1629, col: 13, offset: 53099},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1629, col: 13, offset: 53098},
+																							pos: position{line: 1629, col: 13, offset: 53099},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1629, col: 14, offset: 53099},
+																								pos:        position{line: 1629, col: 14, offset: 53100},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -25006,7 +25006,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1629, col: 26, offset: 53111},
+																							pos:        position{line: 1629, col: 26, offset: 53112},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25018,12 +25018,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92471},
+																	pos: position{line: 2926, col: 11, offset: 92472},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92471},
+																		pos: position{line: 2926, col: 11, offset: 92472},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92471},
+																			pos:        position{line: 2926, col: 11, offset: 92472},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25036,26 +25036,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1590, col: 5, offset: 51519},
+													pos:   position{line: 1590, col: 5, offset: 51520},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1536, col: 5, offset: 49952},
+														pos: position{line: 1536, col: 5, offset: 49953},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1536, col: 5, offset: 49952},
+															pos: position{line: 1536, col: 5, offset: 49953},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1536, col: 5, offset: 49952},
+																	pos:   position{line: 1536, col: 5, offset: 49953},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1536, col: 14, offset: 49961},
+																		pos: position{line: 1536, col: 14, offset: 49962},
 																		expr: &actionExpr{
-																			pos: position{line: 1536, col: 15, offset: 49962},
+																			pos: position{line: 1536, col: 15, offset: 49963},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1536, col: 15, offset: 49962},
+																				pos: position{line: 1536, col: 15, offset: 49963},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1536, col: 15, offset: 49962},
+																					pos:        position{line: 1536, col: 15, offset: 49963},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25066,28 +25066,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92808},
+																	pos: position{line: 2944, col: 8, offset: 92809},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92581},
+																			pos: position{line: 2931, col: 12, offset: 92582},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92582},
+																				pos: position{line: 2931, col: 13, offset: 92583},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92582},
+																						pos:        position{line: 2931, col: 13, offset: 92583},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92589},
+																						pos:        position{line: 2931, col: 20, offset: 92590},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92598},
+																						pos:        position{line: 2931, col: 29, offset: 92599},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25096,9 +25096,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92758},
+																			pos: position{line: 2941, col: 8, offset: 92759},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92759,
+																				line: 2941, col: 9, offset: 92760,
 																			},
 																		},
 																	},
@@ -25111,27 +25111,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1639, col: 5, offset: 53377},
+										pos: position{line: 1639, col: 5, offset: 53378},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1639, col: 5, offset: 53377},
+											pos: position{line: 1639, col: 5, offset: 53378},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1639, col: 5, offset: 53377},
+													pos:   position{line: 1639, col: 5, offset: 53378},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1646, col: 5, offset: 53650},
+														pos: position{line: 1646, col: 5, offset: 53651},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1646, col: 5, offset: 53650},
+															pos: position{line: 1646, col: 5, offset: 53651},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1646, col: 5, offset: 53650},
+																	pos: position{line: 1646, col: 5, offset: 53651},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92410},
+																		pos: position{line: 2922, col: 10, offset: 92411},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92410},
+																			pos:        position{line: 2922, col: 10, offset: 92411},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25140,24 +25140,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1647, col: 5, offset: 53662},
+																	pos:   position{line: 1647, col: 5, offset: 53663},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1648, col: 9, offset: 53678},
+																		pos: position{line: 1648, col: 9, offset: 53679},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1648, col: 10, offset: 53679},
+																			pos: position{line: 1648, col: 10, offset: 53680},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1648, col: 11, offset: 53680},
+																					pos:        position{line: 1648, col: 11, offset: 53681},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1648, col: 18, offset: 53687},
+																					pos: position{line: 1648, col: 18, offset: 53688},
 																					expr: &litMatcher{
-																						pos:        position{line: 1648, col: 19, offset: 53688},
+																						pos:        position{line: 1648, col: 19, offset: 53689},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -25168,16 +25168,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1651, col: 7, offset: 53778},
+																	pos: position{line: 1651, col: 7, offset: 53779},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92471},
+																	pos: position{line: 2926, col: 11, offset: 92472},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92471},
+																		pos: position{line: 2926, col: 11, offset: 92472},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92471},
+																			pos:        position{line: 2926, col: 11, offset: 92472},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25190,56 +25190,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1640, col: 5, offset: 53418},
+													pos:   position{line: 1640, col: 5, offset: 53419},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1640, col: 16, offset: 53429},
+														pos: position{line: 1640, col: 16, offset: 53430},
 														expr: &actionExpr{
-															pos: position{line: 1661, col: 5, offset: 54043},
+															pos: position{line: 1661, col: 5, offset: 54044},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1661, col: 5, offset: 54043},
+																pos: position{line: 1661, col: 5, offset: 54044},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1661, col: 5, offset: 54043},
+																		pos: position{line: 1661, col: 5, offset: 54044},
 																		expr: &litMatcher{
-																			pos:        position{line: 1661, col: 6, offset: 54044},
+																			pos:        position{line: 1661, col: 6, offset: 54045},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1661, col: 10, offset: 54048},
+																		pos:   position{line: 1661, col: 10, offset: 54049},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1662, col: 7, offset: 54062},
+																			pos: position{line: 1662, col: 7, offset: 54063},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1662, col: 7, offset: 54062},
+																					pos: position{line: 1662, col: 7, offset: 54063},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1662, col: 7, offset: 54062},
+																						pos:        position{line: 1662, col: 7, offset: 54063},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1663, col: 7, offset: 54107},
+																					pos: position{line: 1663, col: 7, offset: 54108},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1663, col: 7, offset: 54107},
+																						pos:        position{line: 1663, col: 7, offset: 54108},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1664, col: 7, offset: 54150},
+																					pos: position{line: 1664, col: 7, offset: 54151},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1664, col: 7, offset: 54150},
+																						pos:        position{line: 1664, col: 7, offset: 54151},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -25249,12 +25249,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2926, col: 11, offset: 92471},
+																		pos: position{line: 2926, col: 11, offset: 92472},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2926, col: 11, offset: 92471},
+																			pos: position{line: 2926, col: 11, offset: 92472},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2926, col: 11, offset: 92471},
+																				pos:        position{line: 2926, col: 11, offset: 92472},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25268,26 +25268,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1641, col: 5, offset: 53468},
+													pos:   position{line: 1641, col: 5, offset: 53469},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1536, col: 5, offset: 49952},
+														pos: position{line: 1536, col: 5, offset: 49953},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1536, col: 5, offset: 49952},
+															pos: position{line: 1536, col: 5, offset: 49953},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1536, col: 5, offset: 49952},
+																	pos:   position{line: 1536, col: 5, offset: 49953},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1536, col: 14, offset: 49961},
+																		pos: position{line: 1536, col: 14, offset: 49962},
 																		expr: &actionExpr{
-																			pos: position{line: 1536, col: 15, offset: 49962},
+																			pos: position{line: 1536, col: 15, offset: 49963},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1536, col: 15, offset: 49962},
+																				pos: position{line: 1536, col: 15, offset: 49963},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1536, col: 15, offset: 49962},
+																					pos:        position{line: 1536, col: 15, offset: 49963},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25298,28 +25298,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92808},
+																	pos: position{line: 2944, col: 8, offset: 92809},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92581},
+																			pos: position{line: 2931, col: 12, offset: 92582},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92582},
+																				pos: position{line: 2931, col: 13, offset: 92583},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92582},
+																						pos:        position{line: 2931, col: 13, offset: 92583},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92589},
+																						pos:        position{line: 2931, col: 20, offset: 92590},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92598},
+																						pos:        position{line: 2931, col: 29, offset: 92599},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25328,9 +25328,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92758},
+																			pos: position{line: 2941, col: 8, offset: 92759},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92759,
+																				line: 2941, col: 9, offset: 92760,
 																			},
 																		},
 																	},
@@ -25343,36 +25343,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1730, col: 5, offset: 56022},
+										pos: position{line: 1730, col: 5, offset: 56023},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1730, col: 5, offset: 56022},
+											pos: position{line: 1730, col: 5, offset: 56023},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1730, col: 5, offset: 56022},
+													pos:   position{line: 1730, col: 5, offset: 56023},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1736, col: 5, offset: 56219},
+														pos: position{line: 1736, col: 5, offset: 56220},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1736, col: 5, offset: 56219},
+															pos: position{line: 1736, col: 5, offset: 56220},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1736, col: 5, offset: 56219},
+																	pos:        position{line: 1736, col: 5, offset: 56220},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1736, col: 9, offset: 56223},
+																	pos:   position{line: 1736, col: 9, offset: 56224},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1736, col: 14, offset: 56228},
+																		pos: position{line: 1736, col: 14, offset: 56229},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1736, col: 14, offset: 56228},
+																			pos: position{line: 1736, col: 14, offset: 56229},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1736, col: 14, offset: 56228},
+																				pos:        position{line: 1736, col: 14, offset: 56229},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25382,18 +25382,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1736, col: 62, offset: 56276},
+																	pos:        position{line: 1736, col: 62, offset: 56277},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92471},
+																	pos: position{line: 2926, col: 11, offset: 92472},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92471},
+																		pos: position{line: 2926, col: 11, offset: 92472},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92471},
+																			pos:        position{line: 2926, col: 11, offset: 92472},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25406,26 +25406,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1731, col: 5, offset: 56058},
+													pos:   position{line: 1731, col: 5, offset: 56059},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1536, col: 5, offset: 49952},
+														pos: position{line: 1536, col: 5, offset: 49953},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1536, col: 5, offset: 49952},
+															pos: position{line: 1536, col: 5, offset: 49953},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1536, col: 5, offset: 49952},
+																	pos:   position{line: 1536, col: 5, offset: 49953},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1536, col: 14, offset: 49961},
+																		pos: position{line: 1536, col: 14, offset: 49962},
 																		expr: &actionExpr{
-																			pos: position{line: 1536, col: 15, offset: 49962},
+																			pos: position{line: 1536, col: 15, offset: 49963},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1536, col: 15, offset: 49962},
+																				pos: position{line: 1536, col: 15, offset: 49963},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1536, col: 15, offset: 49962},
+																					pos:        position{line: 1536, col: 15, offset: 49963},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25436,28 +25436,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92808},
+																	pos: position{line: 2944, col: 8, offset: 92809},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92581},
+																			pos: position{line: 2931, col: 12, offset: 92582},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92582},
+																				pos: position{line: 2931, col: 13, offset: 92583},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92582},
+																						pos:        position{line: 2931, col: 13, offset: 92583},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92589},
+																						pos:        position{line: 2931, col: 20, offset: 92590},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92598},
+																						pos:        position{line: 2931, col: 29, offset: 92599},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25466,9 +25466,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92758},
+																			pos: position{line: 2941, col: 8, offset: 92759},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92759,
+																				line: 2941, col: 9, offset: 92760,
 																			},
 																		},
 																	},
@@ -25481,35 +25481,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1673, col: 5, offset: 54343},
+										pos: position{line: 1673, col: 5, offset: 54344},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1673, col: 5, offset: 54343},
+											pos: position{line: 1673, col: 5, offset: 54344},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1673, col: 5, offset: 54343},
+													pos:   position{line: 1673, col: 5, offset: 54344},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1681, col: 5, offset: 54669},
+														pos: position{line: 1681, col: 5, offset: 54670},
 														run: (*parser).callonListElements148,
 														expr: &seqExpr{
-															pos: position{line: 1681, col: 5, offset: 54669},
+															pos: position{line: 1681, col: 5, offset: 54670},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1681, col: 5, offset: 54669},
+																	pos: position{line: 1681, col: 5, offset: 54670},
 																	expr: &seqExpr{
-																		pos: position{line: 2530, col: 31, offset: 81438},
+																		pos: position{line: 2530, col: 31, offset: 81439},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2530, col: 31, offset: 81438},
+																				pos:        position{line: 2530, col: 31, offset: 81439},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2530, col: 36, offset: 81443},
+																				pos: position{line: 2530, col: 36, offset: 81444},
 																				expr: &litMatcher{
-																					pos:        position{line: 2530, col: 37, offset: 81444},
+																					pos:        position{line: 2530, col: 37, offset: 81445},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -25519,28 +25519,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1682, col: 5, offset: 54701},
+																	pos: position{line: 1682, col: 5, offset: 54702},
 																	expr: &seqExpr{
-																		pos: position{line: 1682, col: 6, offset: 54702},
+																		pos: position{line: 1682, col: 6, offset: 54703},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1682, col: 6, offset: 54702},
+																				pos: position{line: 1682, col: 6, offset: 54703},
 																				expr: &actionExpr{
-																					pos: position{line: 1687, col: 5, offset: 54852},
+																					pos: position{line: 1687, col: 5, offset: 54853},
 																					run: (*parser).callonListElements158,
 																					expr: &seqExpr{
-																						pos: position{line: 1687, col: 5, offset: 54852},
+																						pos: position{line: 1687, col: 5, offset: 54853},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1687, col: 5, offset: 54852},
+																								pos:   position{line: 1687, col: 5, offset: 54853},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1687, col: 16, offset: 54863},
+																									pos: position{line: 1687, col: 16, offset: 54864},
 																									run: (*parser).callonListElements161,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1687, col: 16, offset: 54863},
+																										pos: position{line: 1687, col: 16, offset: 54864},
 																										expr: &litMatcher{
-																											pos:        position{line: 1687, col: 17, offset: 54864},
+																											pos:        position{line: 1687, col: 17, offset: 54865},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -25549,7 +25549,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1690, col: 5, offset: 54921},
+																								pos: position{line: 1690, col: 5, offset: 54922},
 																								run: (*parser).callonListElements164,
 																							},
 																						},
@@ -25557,30 +25557,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1682, col: 35, offset: 54731},
+																				pos: position{line: 1682, col: 35, offset: 54732},
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92808},
+																					pos: position{line: 2944, col: 8, offset: 92809},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92581},
+																							pos: position{line: 2931, col: 12, offset: 92582},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92582},
+																								pos: position{line: 2931, col: 13, offset: 92583},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92582},
+																										pos:        position{line: 2931, col: 13, offset: 92583},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92589},
+																										pos:        position{line: 2931, col: 20, offset: 92590},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92598},
+																										pos:        position{line: 2931, col: 29, offset: 92599},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25589,16 +25589,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92758},
+																							pos: position{line: 2941, col: 8, offset: 92759},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92759,
+																								line: 2941, col: 9, offset: 92760,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1682, col: 40, offset: 54736,
+																				line: 1682, col: 40, offset: 54737,
 																			},
 																		},
 																	},
@@ -25608,24 +25608,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1674, col: 5, offset: 54378},
+													pos:   position{line: 1674, col: 5, offset: 54379},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1687, col: 5, offset: 54852},
+														pos: position{line: 1687, col: 5, offset: 54853},
 														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1687, col: 5, offset: 54852},
+															pos: position{line: 1687, col: 5, offset: 54853},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1687, col: 5, offset: 54852},
+																	pos:   position{line: 1687, col: 5, offset: 54853},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1687, col: 16, offset: 54863},
+																		pos: position{line: 1687, col: 16, offset: 54864},
 																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1687, col: 16, offset: 54863},
+																			pos: position{line: 1687, col: 16, offset: 54864},
 																			expr: &litMatcher{
-																				pos:        position{line: 1687, col: 17, offset: 54864},
+																				pos:        position{line: 1687, col: 17, offset: 54865},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25634,7 +25634,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1690, col: 5, offset: 54921},
+																	pos: position{line: 1690, col: 5, offset: 54922},
 																	run: (*parser).callonListElements182,
 																},
 															},
@@ -25642,24 +25642,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1675, col: 5, offset: 54423},
+													pos:   position{line: 1675, col: 5, offset: 54424},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1698, col: 5, offset: 55170},
+														pos: position{line: 1698, col: 5, offset: 55171},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1700, col: 9, offset: 55236},
+																pos: position{line: 1700, col: 9, offset: 55237},
 																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1700, col: 9, offset: 55236},
+																	pos: position{line: 1700, col: 9, offset: 55237},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1700, col: 9, offset: 55236},
+																			pos: position{line: 1700, col: 9, offset: 55237},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92410},
+																				pos: position{line: 2922, col: 10, offset: 92411},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92410},
+																					pos:        position{line: 2922, col: 10, offset: 92411},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25668,28 +25668,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92808},
+																			pos: position{line: 2944, col: 8, offset: 92809},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92581},
+																					pos: position{line: 2931, col: 12, offset: 92582},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92582},
+																						pos: position{line: 2931, col: 13, offset: 92583},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92582},
+																								pos:        position{line: 2931, col: 13, offset: 92583},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92589},
+																								pos:        position{line: 2931, col: 20, offset: 92590},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92598},
+																								pos:        position{line: 2931, col: 29, offset: 92599},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25698,34 +25698,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1701, col: 9, offset: 55255},
+																			pos: position{line: 1701, col: 9, offset: 55256},
 																			expr: &actionExpr{
-																				pos: position{line: 690, col: 14, offset: 22172},
+																				pos: position{line: 690, col: 14, offset: 22173},
 																				run: (*parser).callonListElements199,
 																				expr: &seqExpr{
-																					pos: position{line: 690, col: 14, offset: 22172},
+																					pos: position{line: 690, col: 14, offset: 22173},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92744},
+																							pos: position{line: 2939, col: 11, offset: 92745},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92746,
+																								line: 2939, col: 13, offset: 92747,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 690, col: 21, offset: 22179},
+																							pos: position{line: 690, col: 21, offset: 22180},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92410},
+																								pos: position{line: 2922, col: 10, offset: 92411},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92410},
+																									pos:        position{line: 2922, col: 10, offset: 92411},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25734,28 +25734,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25764,9 +25764,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -25779,18 +25779,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1707, col: 9, offset: 55384},
+																pos: position{line: 1707, col: 9, offset: 55385},
 																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1707, col: 9, offset: 55384},
+																	pos: position{line: 1707, col: 9, offset: 55385},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2926, col: 11, offset: 92471},
+																			pos: position{line: 2926, col: 11, offset: 92472},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2926, col: 11, offset: 92471},
+																				pos: position{line: 2926, col: 11, offset: 92472},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2926, col: 11, offset: 92471},
+																					pos:        position{line: 2926, col: 11, offset: 92472},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25799,15 +25799,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1708, col: 9, offset: 55457},
+																			pos:   position{line: 1708, col: 9, offset: 55458},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1708, col: 18, offset: 55466},
+																				pos: position{line: 1708, col: 18, offset: 55467},
 																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1708, col: 18, offset: 55466},
+																					pos: position{line: 1708, col: 18, offset: 55467},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1708, col: 18, offset: 55466},
+																						pos:        position{line: 1708, col: 18, offset: 55467},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25817,28 +25817,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92808},
+																			pos: position{line: 2944, col: 8, offset: 92809},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92581},
+																					pos: position{line: 2931, col: 12, offset: 92582},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92582},
+																						pos: position{line: 2931, col: 13, offset: 92583},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92582},
+																								pos:        position{line: 2931, col: 13, offset: 92583},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92589},
+																								pos:        position{line: 2931, col: 20, offset: 92590},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92598},
+																								pos:        position{line: 2931, col: 29, offset: 92599},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25847,9 +25847,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
@@ -25867,10 +25867,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1490, col: 5, offset: 48341},
+							pos:   position{line: 1490, col: 5, offset: 48342},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1490, col: 20, offset: 48356},
+								pos:  position{line: 1490, col: 20, offset: 48357},
 								name: "ExtraListElements",
 							},
 						},
@@ -25880,17 +25880,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1500, col: 1, offset: 48611},
+			pos:  position{line: 1500, col: 1, offset: 48612},
 			expr: &actionExpr{
-				pos: position{line: 1500, col: 22, offset: 48632},
+				pos: position{line: 1500, col: 22, offset: 48633},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1500, col: 22, offset: 48632},
+					pos:   position{line: 1500, col: 22, offset: 48633},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1500, col: 31, offset: 48641},
+						pos: position{line: 1500, col: 31, offset: 48642},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1500, col: 32, offset: 48642},
+							pos:  position{line: 1500, col: 32, offset: 48643},
 							name: "ExtraListElement",
 						},
 					},
@@ -25899,52 +25899,52 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1504, col: 1, offset: 48722},
+			pos:  position{line: 1504, col: 1, offset: 48723},
 			expr: &actionExpr{
-				pos: position{line: 1505, col: 5, offset: 48861},
+				pos: position{line: 1505, col: 5, offset: 48862},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1505, col: 5, offset: 48861},
+					pos: position{line: 1505, col: 5, offset: 48862},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92744},
+							pos: position{line: 2939, col: 11, offset: 92745},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92746,
+								line: 2939, col: 13, offset: 92747,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1506, col: 5, offset: 48873},
+							pos:   position{line: 1506, col: 5, offset: 48874},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1507, col: 9, offset: 48891},
+								pos: position{line: 1507, col: 9, offset: 48892},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1507, col: 13, offset: 48895},
+										pos: position{line: 1507, col: 13, offset: 48896},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1507, col: 13, offset: 48895},
+											pos: position{line: 1507, col: 13, offset: 48896},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1507, col: 13, offset: 48895},
+													pos: position{line: 1507, col: 13, offset: 48896},
 													expr: &actionExpr{
-														pos: position{line: 690, col: 14, offset: 22172},
+														pos: position{line: 690, col: 14, offset: 22173},
 														run: (*parser).callonExtraListElement10,
 														expr: &seqExpr{
-															pos: position{line: 690, col: 14, offset: 22172},
+															pos: position{line: 690, col: 14, offset: 22173},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2939, col: 11, offset: 92744},
+																	pos: position{line: 2939, col: 11, offset: 92745},
 																	expr: &anyMatcher{
-																		line: 2939, col: 13, offset: 92746,
+																		line: 2939, col: 13, offset: 92747,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 690, col: 21, offset: 22179},
+																	pos: position{line: 690, col: 21, offset: 22180},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92410},
+																		pos: position{line: 2922, col: 10, offset: 92411},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92410},
+																			pos:        position{line: 2922, col: 10, offset: 92411},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25953,28 +25953,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92808},
+																	pos: position{line: 2944, col: 8, offset: 92809},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92581},
+																			pos: position{line: 2931, col: 12, offset: 92582},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92582},
+																				pos: position{line: 2931, col: 13, offset: 92583},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92582},
+																						pos:        position{line: 2931, col: 13, offset: 92583},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92589},
+																						pos:        position{line: 2931, col: 20, offset: 92590},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92598},
+																						pos:        position{line: 2931, col: 29, offset: 92599},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25983,9 +25983,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92758},
+																			pos: position{line: 2941, col: 8, offset: 92759},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92759,
+																				line: 2941, col: 9, offset: 92760,
 																			},
 																		},
 																	},
@@ -25995,33 +25995,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1508, col: 13, offset: 48919},
+													pos:   position{line: 1508, col: 13, offset: 48920},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1508, col: 22, offset: 48928},
+														pos: position{line: 1508, col: 22, offset: 48929},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1589, col: 5, offset: 51480},
+																pos: position{line: 1589, col: 5, offset: 51481},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1589, col: 5, offset: 51480},
+																	pos: position{line: 1589, col: 5, offset: 51481},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1589, col: 5, offset: 51480},
+																			pos:   position{line: 1589, col: 5, offset: 51481},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1596, col: 5, offset: 51688},
+																				pos: position{line: 1596, col: 5, offset: 51689},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1596, col: 5, offset: 51688},
+																					pos: position{line: 1596, col: 5, offset: 51689},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1596, col: 5, offset: 51688},
+																							pos: position{line: 1596, col: 5, offset: 51689},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92410},
+																								pos: position{line: 2922, col: 10, offset: 92411},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92410},
+																									pos:        position{line: 2922, col: 10, offset: 92411},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26030,27 +26030,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1596, col: 12, offset: 51695},
+																							pos:   position{line: 1596, col: 12, offset: 51696},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1598, col: 9, offset: 51758},
+																								pos: position{line: 1598, col: 9, offset: 51759},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1598, col: 9, offset: 51758},
+																										pos: position{line: 1598, col: 9, offset: 51759},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1598, col: 9, offset: 51758},
+																											pos: position{line: 1598, col: 9, offset: 51759},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1598, col: 9, offset: 51758},
+																													pos:   position{line: 1598, col: 9, offset: 51759},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1598, col: 16, offset: 51765},
+																														pos: position{line: 1598, col: 16, offset: 51766},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1598, col: 16, offset: 51765},
+																															pos: position{line: 1598, col: 16, offset: 51766},
 																															expr: &litMatcher{
-																																pos:        position{line: 1598, col: 17, offset: 51766},
+																																pos:        position{line: 1598, col: 17, offset: 51767},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26059,22 +26059,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1602, col: 9, offset: 51866},
+																													pos: position{line: 1602, col: 9, offset: 51867},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1621, col: 11, offset: 52583},
+																										pos: position{line: 1621, col: 11, offset: 52584},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1621, col: 11, offset: 52583},
+																											pos: position{line: 1621, col: 11, offset: 52584},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1621, col: 11, offset: 52583},
+																													pos: position{line: 1621, col: 11, offset: 52584},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1621, col: 12, offset: 52584},
+																														pos:        position{line: 1621, col: 12, offset: 52585},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26082,7 +26082,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1621, col: 20, offset: 52592},
+																													pos:        position{line: 1621, col: 20, offset: 52593},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26091,20 +26091,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1623, col: 13, offset: 52709},
+																										pos: position{line: 1623, col: 13, offset: 52710},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1623, col: 13, offset: 52709},
+																											pos: position{line: 1623, col: 13, offset: 52710},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1623, col: 14, offset: 52710},
+																													pos:        position{line: 1623, col: 14, offset: 52711},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1623, col: 21, offset: 52717},
+																													pos:        position{line: 1623, col: 21, offset: 52718},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26113,20 +26113,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1625, col: 13, offset: 52837},
+																										pos: position{line: 1625, col: 13, offset: 52838},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1625, col: 13, offset: 52837},
+																											pos: position{line: 1625, col: 13, offset: 52838},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1625, col: 14, offset: 52838},
+																													pos:        position{line: 1625, col: 14, offset: 52839},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1625, col: 21, offset: 52845},
+																													pos:        position{line: 1625, col: 21, offset: 52846},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26135,15 +26135,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1627, col: 13, offset: 52965},
+																										pos: position{line: 1627, col: 13, offset: 52966},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1627, col: 13, offset: 52965},
+																											pos: position{line: 1627, col: 13, offset: 52966},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1627, col: 13, offset: 52965},
+																													pos: position{line: 1627, col: 13, offset: 52966},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1627, col: 14, offset: 52966},
+																														pos:        position{line: 1627, col: 14, offset: 52967},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26151,7 +26151,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1627, col: 26, offset: 52978},
+																													pos:        position{line: 1627, col: 26, offset: 52979},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26160,15 +26160,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1629, col: 13, offset: 53098},
+																										pos: position{line: 1629, col: 13, offset: 53099},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1629, col: 13, offset: 53098},
+																											pos: position{line: 1629, col: 13, offset: 53099},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1629, col: 13, offset: 53098},
+																													pos: position{line: 1629, col: 13, offset: 53099},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1629, col: 14, offset: 53099},
+																														pos:        position{line: 1629, col: 14, offset: 53100},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26176,7 +26176,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1629, col: 26, offset: 53111},
+																													pos:        position{line: 1629, col: 26, offset: 53112},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26188,12 +26188,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92471},
+																							pos: position{line: 2926, col: 11, offset: 92472},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92471},
+																								pos: position{line: 2926, col: 11, offset: 92472},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92471},
+																									pos:        position{line: 2926, col: 11, offset: 92472},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26206,26 +26206,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1590, col: 5, offset: 51519},
+																			pos:   position{line: 1590, col: 5, offset: 51520},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1536, col: 5, offset: 49952},
+																				pos: position{line: 1536, col: 5, offset: 49953},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1536, col: 5, offset: 49952},
+																					pos: position{line: 1536, col: 5, offset: 49953},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1536, col: 5, offset: 49952},
+																							pos:   position{line: 1536, col: 5, offset: 49953},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1536, col: 14, offset: 49961},
+																								pos: position{line: 1536, col: 14, offset: 49962},
 																								expr: &actionExpr{
-																									pos: position{line: 1536, col: 15, offset: 49962},
+																									pos: position{line: 1536, col: 15, offset: 49963},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1536, col: 15, offset: 49962},
+																										pos: position{line: 1536, col: 15, offset: 49963},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1536, col: 15, offset: 49962},
+																											pos:        position{line: 1536, col: 15, offset: 49963},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26236,28 +26236,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26266,9 +26266,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -26281,27 +26281,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1639, col: 5, offset: 53377},
+																pos: position{line: 1639, col: 5, offset: 53378},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1639, col: 5, offset: 53377},
+																	pos: position{line: 1639, col: 5, offset: 53378},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1639, col: 5, offset: 53377},
+																			pos:   position{line: 1639, col: 5, offset: 53378},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1646, col: 5, offset: 53650},
+																				pos: position{line: 1646, col: 5, offset: 53651},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1646, col: 5, offset: 53650},
+																					pos: position{line: 1646, col: 5, offset: 53651},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1646, col: 5, offset: 53650},
+																							pos: position{line: 1646, col: 5, offset: 53651},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92410},
+																								pos: position{line: 2922, col: 10, offset: 92411},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92410},
+																									pos:        position{line: 2922, col: 10, offset: 92411},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26310,24 +26310,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1647, col: 5, offset: 53662},
+																							pos:   position{line: 1647, col: 5, offset: 53663},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1648, col: 9, offset: 53678},
+																								pos: position{line: 1648, col: 9, offset: 53679},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1648, col: 10, offset: 53679},
+																									pos: position{line: 1648, col: 10, offset: 53680},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1648, col: 11, offset: 53680},
+																											pos:        position{line: 1648, col: 11, offset: 53681},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1648, col: 18, offset: 53687},
+																											pos: position{line: 1648, col: 18, offset: 53688},
 																											expr: &litMatcher{
-																												pos:        position{line: 1648, col: 19, offset: 53688},
+																												pos:        position{line: 1648, col: 19, offset: 53689},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26338,16 +26338,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1651, col: 7, offset: 53778},
+																							pos: position{line: 1651, col: 7, offset: 53779},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92471},
+																							pos: position{line: 2926, col: 11, offset: 92472},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92471},
+																								pos: position{line: 2926, col: 11, offset: 92472},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92471},
+																									pos:        position{line: 2926, col: 11, offset: 92472},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26360,56 +26360,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1640, col: 5, offset: 53418},
+																			pos:   position{line: 1640, col: 5, offset: 53419},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1640, col: 16, offset: 53429},
+																				pos: position{line: 1640, col: 16, offset: 53430},
 																				expr: &actionExpr{
-																					pos: position{line: 1661, col: 5, offset: 54043},
+																					pos: position{line: 1661, col: 5, offset: 54044},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1661, col: 5, offset: 54043},
+																						pos: position{line: 1661, col: 5, offset: 54044},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1661, col: 5, offset: 54043},
+																								pos: position{line: 1661, col: 5, offset: 54044},
 																								expr: &litMatcher{
-																									pos:        position{line: 1661, col: 6, offset: 54044},
+																									pos:        position{line: 1661, col: 6, offset: 54045},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1661, col: 10, offset: 54048},
+																								pos:   position{line: 1661, col: 10, offset: 54049},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1662, col: 7, offset: 54062},
+																									pos: position{line: 1662, col: 7, offset: 54063},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1662, col: 7, offset: 54062},
+																											pos: position{line: 1662, col: 7, offset: 54063},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1662, col: 7, offset: 54062},
+																												pos:        position{line: 1662, col: 7, offset: 54063},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1663, col: 7, offset: 54107},
+																											pos: position{line: 1663, col: 7, offset: 54108},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1663, col: 7, offset: 54107},
+																												pos:        position{line: 1663, col: 7, offset: 54108},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1664, col: 7, offset: 54150},
+																											pos: position{line: 1664, col: 7, offset: 54151},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1664, col: 7, offset: 54150},
+																												pos:        position{line: 1664, col: 7, offset: 54151},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26419,12 +26419,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2926, col: 11, offset: 92471},
+																								pos: position{line: 2926, col: 11, offset: 92472},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2926, col: 11, offset: 92471},
+																									pos: position{line: 2926, col: 11, offset: 92472},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2926, col: 11, offset: 92471},
+																										pos:        position{line: 2926, col: 11, offset: 92472},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26438,26 +26438,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1641, col: 5, offset: 53468},
+																			pos:   position{line: 1641, col: 5, offset: 53469},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1536, col: 5, offset: 49952},
+																				pos: position{line: 1536, col: 5, offset: 49953},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1536, col: 5, offset: 49952},
+																					pos: position{line: 1536, col: 5, offset: 49953},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1536, col: 5, offset: 49952},
+																							pos:   position{line: 1536, col: 5, offset: 49953},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1536, col: 14, offset: 49961},
+																								pos: position{line: 1536, col: 14, offset: 49962},
 																								expr: &actionExpr{
-																									pos: position{line: 1536, col: 15, offset: 49962},
+																									pos: position{line: 1536, col: 15, offset: 49963},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1536, col: 15, offset: 49962},
+																										pos: position{line: 1536, col: 15, offset: 49963},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1536, col: 15, offset: 49962},
+																											pos:        position{line: 1536, col: 15, offset: 49963},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26468,28 +26468,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26498,9 +26498,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -26513,36 +26513,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1730, col: 5, offset: 56022},
+																pos: position{line: 1730, col: 5, offset: 56023},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1730, col: 5, offset: 56022},
+																	pos: position{line: 1730, col: 5, offset: 56023},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1730, col: 5, offset: 56022},
+																			pos:   position{line: 1730, col: 5, offset: 56023},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1736, col: 5, offset: 56219},
+																				pos: position{line: 1736, col: 5, offset: 56220},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1736, col: 5, offset: 56219},
+																					pos: position{line: 1736, col: 5, offset: 56220},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1736, col: 5, offset: 56219},
+																							pos:        position{line: 1736, col: 5, offset: 56220},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1736, col: 9, offset: 56223},
+																							pos:   position{line: 1736, col: 9, offset: 56224},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1736, col: 14, offset: 56228},
+																								pos: position{line: 1736, col: 14, offset: 56229},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1736, col: 14, offset: 56228},
+																									pos: position{line: 1736, col: 14, offset: 56229},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1736, col: 14, offset: 56228},
+																										pos:        position{line: 1736, col: 14, offset: 56229},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26552,18 +26552,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1736, col: 62, offset: 56276},
+																							pos:        position{line: 1736, col: 62, offset: 56277},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92471},
+																							pos: position{line: 2926, col: 11, offset: 92472},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92471},
+																								pos: position{line: 2926, col: 11, offset: 92472},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92471},
+																									pos:        position{line: 2926, col: 11, offset: 92472},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26576,26 +26576,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1731, col: 5, offset: 56058},
+																			pos:   position{line: 1731, col: 5, offset: 56059},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1536, col: 5, offset: 49952},
+																				pos: position{line: 1536, col: 5, offset: 49953},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1536, col: 5, offset: 49952},
+																					pos: position{line: 1536, col: 5, offset: 49953},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1536, col: 5, offset: 49952},
+																							pos:   position{line: 1536, col: 5, offset: 49953},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1536, col: 14, offset: 49961},
+																								pos: position{line: 1536, col: 14, offset: 49962},
 																								expr: &actionExpr{
-																									pos: position{line: 1536, col: 15, offset: 49962},
+																									pos: position{line: 1536, col: 15, offset: 49963},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1536, col: 15, offset: 49962},
+																										pos: position{line: 1536, col: 15, offset: 49963},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1536, col: 15, offset: 49962},
+																											pos:        position{line: 1536, col: 15, offset: 49963},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26606,28 +26606,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26636,9 +26636,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -26651,35 +26651,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1673, col: 5, offset: 54343},
+																pos: position{line: 1673, col: 5, offset: 54344},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1673, col: 5, offset: 54343},
+																	pos: position{line: 1673, col: 5, offset: 54344},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1673, col: 5, offset: 54343},
+																			pos:   position{line: 1673, col: 5, offset: 54344},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1681, col: 5, offset: 54669},
+																				pos: position{line: 1681, col: 5, offset: 54670},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &seqExpr{
-																					pos: position{line: 1681, col: 5, offset: 54669},
+																					pos: position{line: 1681, col: 5, offset: 54670},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1681, col: 5, offset: 54669},
+																							pos: position{line: 1681, col: 5, offset: 54670},
 																							expr: &seqExpr{
-																								pos: position{line: 2530, col: 31, offset: 81438},
+																								pos: position{line: 2530, col: 31, offset: 81439},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2530, col: 31, offset: 81438},
+																										pos:        position{line: 2530, col: 31, offset: 81439},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2530, col: 36, offset: 81443},
+																										pos: position{line: 2530, col: 36, offset: 81444},
 																										expr: &litMatcher{
-																											pos:        position{line: 2530, col: 37, offset: 81444},
+																											pos:        position{line: 2530, col: 37, offset: 81445},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -26689,28 +26689,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1682, col: 5, offset: 54701},
+																							pos: position{line: 1682, col: 5, offset: 54702},
 																							expr: &seqExpr{
-																								pos: position{line: 1682, col: 6, offset: 54702},
+																								pos: position{line: 1682, col: 6, offset: 54703},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1682, col: 6, offset: 54702},
+																										pos: position{line: 1682, col: 6, offset: 54703},
 																										expr: &actionExpr{
-																											pos: position{line: 1687, col: 5, offset: 54852},
+																											pos: position{line: 1687, col: 5, offset: 54853},
 																											run: (*parser).callonExtraListElement180,
 																											expr: &seqExpr{
-																												pos: position{line: 1687, col: 5, offset: 54852},
+																												pos: position{line: 1687, col: 5, offset: 54853},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1687, col: 5, offset: 54852},
+																														pos:   position{line: 1687, col: 5, offset: 54853},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1687, col: 16, offset: 54863},
+																															pos: position{line: 1687, col: 16, offset: 54864},
 																															run: (*parser).callonExtraListElement183,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1687, col: 16, offset: 54863},
+																																pos: position{line: 1687, col: 16, offset: 54864},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1687, col: 17, offset: 54864},
+																																	pos:        position{line: 1687, col: 17, offset: 54865},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -26719,7 +26719,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1690, col: 5, offset: 54921},
+																														pos: position{line: 1690, col: 5, offset: 54922},
 																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
@@ -26727,30 +26727,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1682, col: 35, offset: 54731},
+																										pos: position{line: 1682, col: 35, offset: 54732},
 																										expr: &choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92808},
+																											pos: position{line: 2944, col: 8, offset: 92809},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92581},
+																													pos: position{line: 2931, col: 12, offset: 92582},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92582},
+																														pos: position{line: 2931, col: 13, offset: 92583},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92582},
+																																pos:        position{line: 2931, col: 13, offset: 92583},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92589},
+																																pos:        position{line: 2931, col: 20, offset: 92590},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92598},
+																																pos:        position{line: 2931, col: 29, offset: 92599},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26759,16 +26759,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92758},
+																													pos: position{line: 2941, col: 8, offset: 92759},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92759,
+																														line: 2941, col: 9, offset: 92760,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1682, col: 40, offset: 54736,
+																										line: 1682, col: 40, offset: 54737,
 																									},
 																								},
 																							},
@@ -26778,24 +26778,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1674, col: 5, offset: 54378},
+																			pos:   position{line: 1674, col: 5, offset: 54379},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1687, col: 5, offset: 54852},
+																				pos: position{line: 1687, col: 5, offset: 54853},
 																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1687, col: 5, offset: 54852},
+																					pos: position{line: 1687, col: 5, offset: 54853},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1687, col: 5, offset: 54852},
+																							pos:   position{line: 1687, col: 5, offset: 54853},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1687, col: 16, offset: 54863},
+																								pos: position{line: 1687, col: 16, offset: 54864},
 																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1687, col: 16, offset: 54863},
+																									pos: position{line: 1687, col: 16, offset: 54864},
 																									expr: &litMatcher{
-																										pos:        position{line: 1687, col: 17, offset: 54864},
+																										pos:        position{line: 1687, col: 17, offset: 54865},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26804,7 +26804,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1690, col: 5, offset: 54921},
+																							pos: position{line: 1690, col: 5, offset: 54922},
 																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
@@ -26812,24 +26812,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1675, col: 5, offset: 54423},
+																			pos:   position{line: 1675, col: 5, offset: 54424},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1698, col: 5, offset: 55170},
+																				pos: position{line: 1698, col: 5, offset: 55171},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1700, col: 9, offset: 55236},
+																						pos: position{line: 1700, col: 9, offset: 55237},
 																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1700, col: 9, offset: 55236},
+																							pos: position{line: 1700, col: 9, offset: 55237},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1700, col: 9, offset: 55236},
+																									pos: position{line: 1700, col: 9, offset: 55237},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92410},
+																										pos: position{line: 2922, col: 10, offset: 92411},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92410},
+																											pos:        position{line: 2922, col: 10, offset: 92411},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26838,28 +26838,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92808},
+																									pos: position{line: 2944, col: 8, offset: 92809},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92581},
+																											pos: position{line: 2931, col: 12, offset: 92582},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92582},
+																												pos: position{line: 2931, col: 13, offset: 92583},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92582},
+																														pos:        position{line: 2931, col: 13, offset: 92583},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92589},
+																														pos:        position{line: 2931, col: 20, offset: 92590},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92598},
+																														pos:        position{line: 2931, col: 29, offset: 92599},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26868,34 +26868,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92758},
+																											pos: position{line: 2941, col: 8, offset: 92759},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92759,
+																												line: 2941, col: 9, offset: 92760,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1701, col: 9, offset: 55255},
+																									pos: position{line: 1701, col: 9, offset: 55256},
 																									expr: &actionExpr{
-																										pos: position{line: 690, col: 14, offset: 22172},
+																										pos: position{line: 690, col: 14, offset: 22173},
 																										run: (*parser).callonExtraListElement221,
 																										expr: &seqExpr{
-																											pos: position{line: 690, col: 14, offset: 22172},
+																											pos: position{line: 690, col: 14, offset: 22173},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2939, col: 11, offset: 92744},
+																													pos: position{line: 2939, col: 11, offset: 92745},
 																													expr: &anyMatcher{
-																														line: 2939, col: 13, offset: 92746,
+																														line: 2939, col: 13, offset: 92747,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 690, col: 21, offset: 22179},
+																													pos: position{line: 690, col: 21, offset: 22180},
 																													expr: &actionExpr{
-																														pos: position{line: 2922, col: 10, offset: 92410},
+																														pos: position{line: 2922, col: 10, offset: 92411},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2922, col: 10, offset: 92410},
+																															pos:        position{line: 2922, col: 10, offset: 92411},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26904,28 +26904,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2944, col: 8, offset: 92808},
+																													pos: position{line: 2944, col: 8, offset: 92809},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2931, col: 12, offset: 92581},
+																															pos: position{line: 2931, col: 12, offset: 92582},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2931, col: 13, offset: 92582},
+																																pos: position{line: 2931, col: 13, offset: 92583},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 13, offset: 92582},
+																																		pos:        position{line: 2931, col: 13, offset: 92583},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 20, offset: 92589},
+																																		pos:        position{line: 2931, col: 20, offset: 92590},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 29, offset: 92598},
+																																		pos:        position{line: 2931, col: 29, offset: 92599},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26934,9 +26934,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2941, col: 8, offset: 92758},
+																															pos: position{line: 2941, col: 8, offset: 92759},
 																															expr: &anyMatcher{
-																																line: 2941, col: 9, offset: 92759,
+																																line: 2941, col: 9, offset: 92760,
 																															},
 																														},
 																													},
@@ -26949,18 +26949,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1707, col: 9, offset: 55384},
+																						pos: position{line: 1707, col: 9, offset: 55385},
 																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1707, col: 9, offset: 55384},
+																							pos: position{line: 1707, col: 9, offset: 55385},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2926, col: 11, offset: 92471},
+																									pos: position{line: 2926, col: 11, offset: 92472},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2926, col: 11, offset: 92471},
+																										pos: position{line: 2926, col: 11, offset: 92472},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2926, col: 11, offset: 92471},
+																											pos:        position{line: 2926, col: 11, offset: 92472},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26969,15 +26969,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1708, col: 9, offset: 55457},
+																									pos:   position{line: 1708, col: 9, offset: 55458},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1708, col: 18, offset: 55466},
+																										pos: position{line: 1708, col: 18, offset: 55467},
 																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1708, col: 18, offset: 55466},
+																											pos: position{line: 1708, col: 18, offset: 55467},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1708, col: 18, offset: 55466},
+																												pos:        position{line: 1708, col: 18, offset: 55467},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26987,28 +26987,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92808},
+																									pos: position{line: 2944, col: 8, offset: 92809},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92581},
+																											pos: position{line: 2931, col: 12, offset: 92582},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92582},
+																												pos: position{line: 2931, col: 13, offset: 92583},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92582},
+																														pos:        position{line: 2931, col: 13, offset: 92583},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92589},
+																														pos:        position{line: 2931, col: 20, offset: 92590},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92598},
+																														pos:        position{line: 2931, col: 29, offset: 92599},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27017,9 +27017,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92758},
+																											pos: position{line: 2941, col: 8, offset: 92759},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92759,
+																												line: 2941, col: 9, offset: 92760,
 																											},
 																										},
 																									},
@@ -27040,50 +27040,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1511, col: 13, offset: 49079},
+										pos: position{line: 1511, col: 13, offset: 49080},
 										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
-											pos: position{line: 1511, col: 13, offset: 49079},
+											pos: position{line: 1511, col: 13, offset: 49080},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1511, col: 13, offset: 49079},
+													pos:   position{line: 1511, col: 13, offset: 49080},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1511, col: 24, offset: 49090},
+														pos: position{line: 1511, col: 24, offset: 49091},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1511, col: 25, offset: 49091},
+															pos:  position{line: 1511, col: 25, offset: 49092},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1512, col: 13, offset: 49122},
+													pos:   position{line: 1512, col: 13, offset: 49123},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1512, col: 22, offset: 49131},
+														pos: position{line: 1512, col: 22, offset: 49132},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1589, col: 5, offset: 51480},
+																pos: position{line: 1589, col: 5, offset: 51481},
 																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
-																	pos: position{line: 1589, col: 5, offset: 51480},
+																	pos: position{line: 1589, col: 5, offset: 51481},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1589, col: 5, offset: 51480},
+																			pos:   position{line: 1589, col: 5, offset: 51481},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1596, col: 5, offset: 51688},
+																				pos: position{line: 1596, col: 5, offset: 51689},
 																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
-																					pos: position{line: 1596, col: 5, offset: 51688},
+																					pos: position{line: 1596, col: 5, offset: 51689},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1596, col: 5, offset: 51688},
+																							pos: position{line: 1596, col: 5, offset: 51689},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92410},
+																								pos: position{line: 2922, col: 10, offset: 92411},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92410},
+																									pos:        position{line: 2922, col: 10, offset: 92411},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27092,27 +27092,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1596, col: 12, offset: 51695},
+																							pos:   position{line: 1596, col: 12, offset: 51696},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1598, col: 9, offset: 51758},
+																								pos: position{line: 1598, col: 9, offset: 51759},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1598, col: 9, offset: 51758},
+																										pos: position{line: 1598, col: 9, offset: 51759},
 																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
-																											pos: position{line: 1598, col: 9, offset: 51758},
+																											pos: position{line: 1598, col: 9, offset: 51759},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1598, col: 9, offset: 51758},
+																													pos:   position{line: 1598, col: 9, offset: 51759},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1598, col: 16, offset: 51765},
+																														pos: position{line: 1598, col: 16, offset: 51766},
 																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1598, col: 16, offset: 51765},
+																															pos: position{line: 1598, col: 16, offset: 51766},
 																															expr: &litMatcher{
-																																pos:        position{line: 1598, col: 17, offset: 51766},
+																																pos:        position{line: 1598, col: 17, offset: 51767},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27121,22 +27121,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1602, col: 9, offset: 51866},
+																													pos: position{line: 1602, col: 9, offset: 51867},
 																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1621, col: 11, offset: 52583},
+																										pos: position{line: 1621, col: 11, offset: 52584},
 																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
-																											pos: position{line: 1621, col: 11, offset: 52583},
+																											pos: position{line: 1621, col: 11, offset: 52584},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1621, col: 11, offset: 52583},
+																													pos: position{line: 1621, col: 11, offset: 52584},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1621, col: 12, offset: 52584},
+																														pos:        position{line: 1621, col: 12, offset: 52585},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27144,7 +27144,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1621, col: 20, offset: 52592},
+																													pos:        position{line: 1621, col: 20, offset: 52593},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27153,20 +27153,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1623, col: 13, offset: 52709},
+																										pos: position{line: 1623, col: 13, offset: 52710},
 																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
-																											pos: position{line: 1623, col: 13, offset: 52709},
+																											pos: position{line: 1623, col: 13, offset: 52710},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1623, col: 14, offset: 52710},
+																													pos:        position{line: 1623, col: 14, offset: 52711},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1623, col: 21, offset: 52717},
+																													pos:        position{line: 1623, col: 21, offset: 52718},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27175,20 +27175,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1625, col: 13, offset: 52837},
+																										pos: position{line: 1625, col: 13, offset: 52838},
 																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
-																											pos: position{line: 1625, col: 13, offset: 52837},
+																											pos: position{line: 1625, col: 13, offset: 52838},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1625, col: 14, offset: 52838},
+																													pos:        position{line: 1625, col: 14, offset: 52839},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1625, col: 21, offset: 52845},
+																													pos:        position{line: 1625, col: 21, offset: 52846},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27197,15 +27197,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1627, col: 13, offset: 52965},
+																										pos: position{line: 1627, col: 13, offset: 52966},
 																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
-																											pos: position{line: 1627, col: 13, offset: 52965},
+																											pos: position{line: 1627, col: 13, offset: 52966},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1627, col: 13, offset: 52965},
+																													pos: position{line: 1627, col: 13, offset: 52966},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1627, col: 14, offset: 52966},
+																														pos:        position{line: 1627, col: 14, offset: 52967},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27213,7 +27213,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1627, col: 26, offset: 52978},
+																													pos:        position{line: 1627, col: 26, offset: 52979},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27222,15 +27222,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1629, col: 13, offset: 53098},
+																										pos: position{line: 1629, col: 13, offset: 53099},
 																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
-																											pos: position{line: 1629, col: 13, offset: 53098},
+																											pos: position{line: 1629, col: 13, offset: 53099},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1629, col: 13, offset: 53098},
+																													pos: position{line: 1629, col: 13, offset: 53099},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1629, col: 14, offset: 53099},
+																														pos:        position{line: 1629, col: 14, offset: 53100},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27238,7 +27238,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1629, col: 26, offset: 53111},
+																													pos:        position{line: 1629, col: 26, offset: 53112},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27250,12 +27250,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92471},
+																							pos: position{line: 2926, col: 11, offset: 92472},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92471},
+																								pos: position{line: 2926, col: 11, offset: 92472},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92471},
+																									pos:        position{line: 2926, col: 11, offset: 92472},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27268,26 +27268,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1590, col: 5, offset: 51519},
+																			pos:   position{line: 1590, col: 5, offset: 51520},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1536, col: 5, offset: 49952},
+																				pos: position{line: 1536, col: 5, offset: 49953},
 																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
-																					pos: position{line: 1536, col: 5, offset: 49952},
+																					pos: position{line: 1536, col: 5, offset: 49953},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1536, col: 5, offset: 49952},
+																							pos:   position{line: 1536, col: 5, offset: 49953},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1536, col: 14, offset: 49961},
+																								pos: position{line: 1536, col: 14, offset: 49962},
 																								expr: &actionExpr{
-																									pos: position{line: 1536, col: 15, offset: 49962},
+																									pos: position{line: 1536, col: 15, offset: 49963},
 																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1536, col: 15, offset: 49962},
+																										pos: position{line: 1536, col: 15, offset: 49963},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1536, col: 15, offset: 49962},
+																											pos:        position{line: 1536, col: 15, offset: 49963},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27298,28 +27298,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27328,9 +27328,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -27343,27 +27343,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1639, col: 5, offset: 53377},
+																pos: position{line: 1639, col: 5, offset: 53378},
 																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
-																	pos: position{line: 1639, col: 5, offset: 53377},
+																	pos: position{line: 1639, col: 5, offset: 53378},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1639, col: 5, offset: 53377},
+																			pos:   position{line: 1639, col: 5, offset: 53378},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1646, col: 5, offset: 53650},
+																				pos: position{line: 1646, col: 5, offset: 53651},
 																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
-																					pos: position{line: 1646, col: 5, offset: 53650},
+																					pos: position{line: 1646, col: 5, offset: 53651},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1646, col: 5, offset: 53650},
+																							pos: position{line: 1646, col: 5, offset: 53651},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92410},
+																								pos: position{line: 2922, col: 10, offset: 92411},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92410},
+																									pos:        position{line: 2922, col: 10, offset: 92411},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27372,24 +27372,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1647, col: 5, offset: 53662},
+																							pos:   position{line: 1647, col: 5, offset: 53663},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1648, col: 9, offset: 53678},
+																								pos: position{line: 1648, col: 9, offset: 53679},
 																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
-																									pos: position{line: 1648, col: 10, offset: 53679},
+																									pos: position{line: 1648, col: 10, offset: 53680},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1648, col: 11, offset: 53680},
+																											pos:        position{line: 1648, col: 11, offset: 53681},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1648, col: 18, offset: 53687},
+																											pos: position{line: 1648, col: 18, offset: 53688},
 																											expr: &litMatcher{
-																												pos:        position{line: 1648, col: 19, offset: 53688},
+																												pos:        position{line: 1648, col: 19, offset: 53689},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27400,16 +27400,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1651, col: 7, offset: 53778},
+																							pos: position{line: 1651, col: 7, offset: 53779},
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92471},
+																							pos: position{line: 2926, col: 11, offset: 92472},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92471},
+																								pos: position{line: 2926, col: 11, offset: 92472},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92471},
+																									pos:        position{line: 2926, col: 11, offset: 92472},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27422,56 +27422,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1640, col: 5, offset: 53418},
+																			pos:   position{line: 1640, col: 5, offset: 53419},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1640, col: 16, offset: 53429},
+																				pos: position{line: 1640, col: 16, offset: 53430},
 																				expr: &actionExpr{
-																					pos: position{line: 1661, col: 5, offset: 54043},
+																					pos: position{line: 1661, col: 5, offset: 54044},
 																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
-																						pos: position{line: 1661, col: 5, offset: 54043},
+																						pos: position{line: 1661, col: 5, offset: 54044},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1661, col: 5, offset: 54043},
+																								pos: position{line: 1661, col: 5, offset: 54044},
 																								expr: &litMatcher{
-																									pos:        position{line: 1661, col: 6, offset: 54044},
+																									pos:        position{line: 1661, col: 6, offset: 54045},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1661, col: 10, offset: 54048},
+																								pos:   position{line: 1661, col: 10, offset: 54049},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1662, col: 7, offset: 54062},
+																									pos: position{line: 1662, col: 7, offset: 54063},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1662, col: 7, offset: 54062},
+																											pos: position{line: 1662, col: 7, offset: 54063},
 																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
-																												pos:        position{line: 1662, col: 7, offset: 54062},
+																												pos:        position{line: 1662, col: 7, offset: 54063},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1663, col: 7, offset: 54107},
+																											pos: position{line: 1663, col: 7, offset: 54108},
 																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
-																												pos:        position{line: 1663, col: 7, offset: 54107},
+																												pos:        position{line: 1663, col: 7, offset: 54108},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1664, col: 7, offset: 54150},
+																											pos: position{line: 1664, col: 7, offset: 54151},
 																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
-																												pos:        position{line: 1664, col: 7, offset: 54150},
+																												pos:        position{line: 1664, col: 7, offset: 54151},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27481,12 +27481,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2926, col: 11, offset: 92471},
+																								pos: position{line: 2926, col: 11, offset: 92472},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2926, col: 11, offset: 92471},
+																									pos: position{line: 2926, col: 11, offset: 92472},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2926, col: 11, offset: 92471},
+																										pos:        position{line: 2926, col: 11, offset: 92472},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27500,26 +27500,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1641, col: 5, offset: 53468},
+																			pos:   position{line: 1641, col: 5, offset: 53469},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1536, col: 5, offset: 49952},
+																				pos: position{line: 1536, col: 5, offset: 49953},
 																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
-																					pos: position{line: 1536, col: 5, offset: 49952},
+																					pos: position{line: 1536, col: 5, offset: 49953},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1536, col: 5, offset: 49952},
+																							pos:   position{line: 1536, col: 5, offset: 49953},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1536, col: 14, offset: 49961},
+																								pos: position{line: 1536, col: 14, offset: 49962},
 																								expr: &actionExpr{
-																									pos: position{line: 1536, col: 15, offset: 49962},
+																									pos: position{line: 1536, col: 15, offset: 49963},
 																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1536, col: 15, offset: 49962},
+																										pos: position{line: 1536, col: 15, offset: 49963},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1536, col: 15, offset: 49962},
+																											pos:        position{line: 1536, col: 15, offset: 49963},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27530,28 +27530,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27560,9 +27560,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -27575,36 +27575,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1730, col: 5, offset: 56022},
+																pos: position{line: 1730, col: 5, offset: 56023},
 																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1730, col: 5, offset: 56022},
+																	pos: position{line: 1730, col: 5, offset: 56023},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1730, col: 5, offset: 56022},
+																			pos:   position{line: 1730, col: 5, offset: 56023},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1736, col: 5, offset: 56219},
+																				pos: position{line: 1736, col: 5, offset: 56220},
 																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1736, col: 5, offset: 56219},
+																					pos: position{line: 1736, col: 5, offset: 56220},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1736, col: 5, offset: 56219},
+																							pos:        position{line: 1736, col: 5, offset: 56220},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1736, col: 9, offset: 56223},
+																							pos:   position{line: 1736, col: 9, offset: 56224},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1736, col: 14, offset: 56228},
+																								pos: position{line: 1736, col: 14, offset: 56229},
 																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1736, col: 14, offset: 56228},
+																									pos: position{line: 1736, col: 14, offset: 56229},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1736, col: 14, offset: 56228},
+																										pos:        position{line: 1736, col: 14, offset: 56229},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27614,18 +27614,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1736, col: 62, offset: 56276},
+																							pos:        position{line: 1736, col: 62, offset: 56277},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92471},
+																							pos: position{line: 2926, col: 11, offset: 92472},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92471},
+																								pos: position{line: 2926, col: 11, offset: 92472},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92471},
+																									pos:        position{line: 2926, col: 11, offset: 92472},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27638,26 +27638,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1731, col: 5, offset: 56058},
+																			pos:   position{line: 1731, col: 5, offset: 56059},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1536, col: 5, offset: 49952},
+																				pos: position{line: 1536, col: 5, offset: 49953},
 																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
-																					pos: position{line: 1536, col: 5, offset: 49952},
+																					pos: position{line: 1536, col: 5, offset: 49953},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1536, col: 5, offset: 49952},
+																							pos:   position{line: 1536, col: 5, offset: 49953},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1536, col: 14, offset: 49961},
+																								pos: position{line: 1536, col: 14, offset: 49962},
 																								expr: &actionExpr{
-																									pos: position{line: 1536, col: 15, offset: 49962},
+																									pos: position{line: 1536, col: 15, offset: 49963},
 																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1536, col: 15, offset: 49962},
+																										pos: position{line: 1536, col: 15, offset: 49963},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1536, col: 15, offset: 49962},
+																											pos:        position{line: 1536, col: 15, offset: 49963},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27668,28 +27668,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27698,9 +27698,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -27713,35 +27713,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1673, col: 5, offset: 54343},
+																pos: position{line: 1673, col: 5, offset: 54344},
 																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
-																	pos: position{line: 1673, col: 5, offset: 54343},
+																	pos: position{line: 1673, col: 5, offset: 54344},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1673, col: 5, offset: 54343},
+																			pos:   position{line: 1673, col: 5, offset: 54344},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1681, col: 5, offset: 54669},
+																				pos: position{line: 1681, col: 5, offset: 54670},
 																				run: (*parser).callonExtraListElement403,
 																				expr: &seqExpr{
-																					pos: position{line: 1681, col: 5, offset: 54669},
+																					pos: position{line: 1681, col: 5, offset: 54670},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1681, col: 5, offset: 54669},
+																							pos: position{line: 1681, col: 5, offset: 54670},
 																							expr: &seqExpr{
-																								pos: position{line: 2530, col: 31, offset: 81438},
+																								pos: position{line: 2530, col: 31, offset: 81439},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2530, col: 31, offset: 81438},
+																										pos:        position{line: 2530, col: 31, offset: 81439},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2530, col: 36, offset: 81443},
+																										pos: position{line: 2530, col: 36, offset: 81444},
 																										expr: &litMatcher{
-																											pos:        position{line: 2530, col: 37, offset: 81444},
+																											pos:        position{line: 2530, col: 37, offset: 81445},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -27751,28 +27751,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1682, col: 5, offset: 54701},
+																							pos: position{line: 1682, col: 5, offset: 54702},
 																							expr: &seqExpr{
-																								pos: position{line: 1682, col: 6, offset: 54702},
+																								pos: position{line: 1682, col: 6, offset: 54703},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1682, col: 6, offset: 54702},
+																										pos: position{line: 1682, col: 6, offset: 54703},
 																										expr: &actionExpr{
-																											pos: position{line: 1687, col: 5, offset: 54852},
+																											pos: position{line: 1687, col: 5, offset: 54853},
 																											run: (*parser).callonExtraListElement413,
 																											expr: &seqExpr{
-																												pos: position{line: 1687, col: 5, offset: 54852},
+																												pos: position{line: 1687, col: 5, offset: 54853},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1687, col: 5, offset: 54852},
+																														pos:   position{line: 1687, col: 5, offset: 54853},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1687, col: 16, offset: 54863},
+																															pos: position{line: 1687, col: 16, offset: 54864},
 																															run: (*parser).callonExtraListElement416,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1687, col: 16, offset: 54863},
+																																pos: position{line: 1687, col: 16, offset: 54864},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1687, col: 17, offset: 54864},
+																																	pos:        position{line: 1687, col: 17, offset: 54865},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -27781,7 +27781,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1690, col: 5, offset: 54921},
+																														pos: position{line: 1690, col: 5, offset: 54922},
 																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
@@ -27789,30 +27789,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1682, col: 35, offset: 54731},
+																										pos: position{line: 1682, col: 35, offset: 54732},
 																										expr: &choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92808},
+																											pos: position{line: 2944, col: 8, offset: 92809},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92581},
+																													pos: position{line: 2931, col: 12, offset: 92582},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92582},
+																														pos: position{line: 2931, col: 13, offset: 92583},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92582},
+																																pos:        position{line: 2931, col: 13, offset: 92583},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92589},
+																																pos:        position{line: 2931, col: 20, offset: 92590},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92598},
+																																pos:        position{line: 2931, col: 29, offset: 92599},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27821,16 +27821,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92758},
+																													pos: position{line: 2941, col: 8, offset: 92759},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92759,
+																														line: 2941, col: 9, offset: 92760,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1682, col: 40, offset: 54736,
+																										line: 1682, col: 40, offset: 54737,
 																									},
 																								},
 																							},
@@ -27840,24 +27840,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1674, col: 5, offset: 54378},
+																			pos:   position{line: 1674, col: 5, offset: 54379},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1687, col: 5, offset: 54852},
+																				pos: position{line: 1687, col: 5, offset: 54853},
 																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1687, col: 5, offset: 54852},
+																					pos: position{line: 1687, col: 5, offset: 54853},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1687, col: 5, offset: 54852},
+																							pos:   position{line: 1687, col: 5, offset: 54853},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1687, col: 16, offset: 54863},
+																								pos: position{line: 1687, col: 16, offset: 54864},
 																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1687, col: 16, offset: 54863},
+																									pos: position{line: 1687, col: 16, offset: 54864},
 																									expr: &litMatcher{
-																										pos:        position{line: 1687, col: 17, offset: 54864},
+																										pos:        position{line: 1687, col: 17, offset: 54865},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27866,7 +27866,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1690, col: 5, offset: 54921},
+																							pos: position{line: 1690, col: 5, offset: 54922},
 																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
@@ -27874,24 +27874,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1675, col: 5, offset: 54423},
+																			pos:   position{line: 1675, col: 5, offset: 54424},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1698, col: 5, offset: 55170},
+																				pos: position{line: 1698, col: 5, offset: 55171},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1700, col: 9, offset: 55236},
+																						pos: position{line: 1700, col: 9, offset: 55237},
 																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1700, col: 9, offset: 55236},
+																							pos: position{line: 1700, col: 9, offset: 55237},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1700, col: 9, offset: 55236},
+																									pos: position{line: 1700, col: 9, offset: 55237},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92410},
+																										pos: position{line: 2922, col: 10, offset: 92411},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92410},
+																											pos:        position{line: 2922, col: 10, offset: 92411},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27900,28 +27900,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92808},
+																									pos: position{line: 2944, col: 8, offset: 92809},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92581},
+																											pos: position{line: 2931, col: 12, offset: 92582},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92582},
+																												pos: position{line: 2931, col: 13, offset: 92583},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92582},
+																														pos:        position{line: 2931, col: 13, offset: 92583},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92589},
+																														pos:        position{line: 2931, col: 20, offset: 92590},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92598},
+																														pos:        position{line: 2931, col: 29, offset: 92599},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27930,34 +27930,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92758},
+																											pos: position{line: 2941, col: 8, offset: 92759},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92759,
+																												line: 2941, col: 9, offset: 92760,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1701, col: 9, offset: 55255},
+																									pos: position{line: 1701, col: 9, offset: 55256},
 																									expr: &actionExpr{
-																										pos: position{line: 690, col: 14, offset: 22172},
+																										pos: position{line: 690, col: 14, offset: 22173},
 																										run: (*parser).callonExtraListElement454,
 																										expr: &seqExpr{
-																											pos: position{line: 690, col: 14, offset: 22172},
+																											pos: position{line: 690, col: 14, offset: 22173},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2939, col: 11, offset: 92744},
+																													pos: position{line: 2939, col: 11, offset: 92745},
 																													expr: &anyMatcher{
-																														line: 2939, col: 13, offset: 92746,
+																														line: 2939, col: 13, offset: 92747,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 690, col: 21, offset: 22179},
+																													pos: position{line: 690, col: 21, offset: 22180},
 																													expr: &actionExpr{
-																														pos: position{line: 2922, col: 10, offset: 92410},
+																														pos: position{line: 2922, col: 10, offset: 92411},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2922, col: 10, offset: 92410},
+																															pos:        position{line: 2922, col: 10, offset: 92411},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27966,28 +27966,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2944, col: 8, offset: 92808},
+																													pos: position{line: 2944, col: 8, offset: 92809},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2931, col: 12, offset: 92581},
+																															pos: position{line: 2931, col: 12, offset: 92582},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2931, col: 13, offset: 92582},
+																																pos: position{line: 2931, col: 13, offset: 92583},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 13, offset: 92582},
+																																		pos:        position{line: 2931, col: 13, offset: 92583},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 20, offset: 92589},
+																																		pos:        position{line: 2931, col: 20, offset: 92590},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 29, offset: 92598},
+																																		pos:        position{line: 2931, col: 29, offset: 92599},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27996,9 +27996,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2941, col: 8, offset: 92758},
+																															pos: position{line: 2941, col: 8, offset: 92759},
 																															expr: &anyMatcher{
-																																line: 2941, col: 9, offset: 92759,
+																																line: 2941, col: 9, offset: 92760,
 																															},
 																														},
 																													},
@@ -28011,18 +28011,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1707, col: 9, offset: 55384},
+																						pos: position{line: 1707, col: 9, offset: 55385},
 																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1707, col: 9, offset: 55384},
+																							pos: position{line: 1707, col: 9, offset: 55385},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2926, col: 11, offset: 92471},
+																									pos: position{line: 2926, col: 11, offset: 92472},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2926, col: 11, offset: 92471},
+																										pos: position{line: 2926, col: 11, offset: 92472},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2926, col: 11, offset: 92471},
+																											pos:        position{line: 2926, col: 11, offset: 92472},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28031,15 +28031,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1708, col: 9, offset: 55457},
+																									pos:   position{line: 1708, col: 9, offset: 55458},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1708, col: 18, offset: 55466},
+																										pos: position{line: 1708, col: 18, offset: 55467},
 																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1708, col: 18, offset: 55466},
+																											pos: position{line: 1708, col: 18, offset: 55467},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1708, col: 18, offset: 55466},
+																												pos:        position{line: 1708, col: 18, offset: 55467},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28049,28 +28049,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92808},
+																									pos: position{line: 2944, col: 8, offset: 92809},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92581},
+																											pos: position{line: 2931, col: 12, offset: 92582},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92582},
+																												pos: position{line: 2931, col: 13, offset: 92583},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92582},
+																														pos:        position{line: 2931, col: 13, offset: 92583},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92589},
+																														pos:        position{line: 2931, col: 20, offset: 92590},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92598},
+																														pos:        position{line: 2931, col: 29, offset: 92599},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28079,9 +28079,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92758},
+																											pos: position{line: 2941, col: 8, offset: 92759},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92759,
+																												line: 2941, col: 9, offset: 92760,
 																											},
 																										},
 																									},
@@ -28102,40 +28102,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1515, col: 11, offset: 49316},
+										pos:  position{line: 1515, col: 11, offset: 49317},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2525, col: 22, offset: 81188},
+										pos: position{line: 2525, col: 22, offset: 81189},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 22, offset: 81188},
+											pos: position{line: 2525, col: 22, offset: 81189},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2530, col: 31, offset: 81438},
+													pos:        position{line: 2530, col: 31, offset: 81439},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2530, col: 36, offset: 81443},
+													pos: position{line: 2530, col: 36, offset: 81444},
 													expr: &litMatcher{
-														pos:        position{line: 2530, col: 37, offset: 81444},
+														pos:        position{line: 2530, col: 37, offset: 81445},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2525, col: 49, offset: 81215},
+													pos:   position{line: 2525, col: 49, offset: 81216},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 13, offset: 90936},
+														pos: position{line: 2868, col: 13, offset: 90937},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2868, col: 13, offset: 90936},
+															pos: position{line: 2868, col: 13, offset: 90937},
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 13, offset: 90936},
+																pos:        position{line: 2868, col: 13, offset: 90937},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28145,28 +28145,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92808},
+													pos: position{line: 2944, col: 8, offset: 92809},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92581},
+															pos: position{line: 2931, col: 12, offset: 92582},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92582},
+																pos: position{line: 2931, col: 13, offset: 92583},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92582},
+																		pos:        position{line: 2931, col: 13, offset: 92583},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92589},
+																		pos:        position{line: 2931, col: 20, offset: 92590},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92598},
+																		pos:        position{line: 2931, col: 29, offset: 92599},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28175,9 +28175,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92758},
+															pos: position{line: 2941, col: 8, offset: 92759},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92759,
+																line: 2941, col: 9, offset: 92760,
 															},
 														},
 													},
@@ -28186,32 +28186,32 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1523, col: 5, offset: 49594},
+										pos: position{line: 1523, col: 5, offset: 49595},
 										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
-											pos: position{line: 1523, col: 5, offset: 49594},
+											pos: position{line: 1523, col: 5, offset: 49595},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1523, col: 5, offset: 49594},
+													pos: position{line: 1523, col: 5, offset: 49595},
 													expr: &actionExpr{
-														pos: position{line: 690, col: 14, offset: 22172},
+														pos: position{line: 690, col: 14, offset: 22173},
 														run: (*parser).callonExtraListElement507,
 														expr: &seqExpr{
-															pos: position{line: 690, col: 14, offset: 22172},
+															pos: position{line: 690, col: 14, offset: 22173},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2939, col: 11, offset: 92744},
+																	pos: position{line: 2939, col: 11, offset: 92745},
 																	expr: &anyMatcher{
-																		line: 2939, col: 13, offset: 92746,
+																		line: 2939, col: 13, offset: 92747,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 690, col: 21, offset: 22179},
+																	pos: position{line: 690, col: 21, offset: 22180},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92410},
+																		pos: position{line: 2922, col: 10, offset: 92411},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92410},
+																			pos:        position{line: 2922, col: 10, offset: 92411},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28220,28 +28220,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92808},
+																	pos: position{line: 2944, col: 8, offset: 92809},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92581},
+																			pos: position{line: 2931, col: 12, offset: 92582},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92582},
+																				pos: position{line: 2931, col: 13, offset: 92583},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92582},
+																						pos:        position{line: 2931, col: 13, offset: 92583},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92589},
+																						pos:        position{line: 2931, col: 20, offset: 92590},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92598},
+																						pos:        position{line: 2931, col: 29, offset: 92599},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28250,9 +28250,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92758},
+																			pos: position{line: 2941, col: 8, offset: 92759},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92759,
+																				line: 2941, col: 9, offset: 92760,
 																			},
 																		},
 																	},
@@ -28262,23 +28262,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1524, col: 5, offset: 49609},
+													pos: position{line: 1524, col: 5, offset: 49610},
 													expr: &seqExpr{
-														pos: position{line: 1555, col: 27, offset: 50469},
+														pos: position{line: 1555, col: 27, offset: 50470},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1555, col: 27, offset: 50469},
+																pos:        position{line: 1555, col: 27, offset: 50470},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1555, col: 31, offset: 50473},
+																pos: position{line: 1555, col: 31, offset: 50474},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92410},
+																	pos: position{line: 2922, col: 10, offset: 92411},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92410},
+																		pos:        position{line: 2922, col: 10, offset: 92411},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28287,25 +28287,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92581},
+																pos: position{line: 2931, col: 12, offset: 92582},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92582},
+																	pos: position{line: 2931, col: 13, offset: 92583},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92582},
+																			pos:        position{line: 2931, col: 13, offset: 92583},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92589},
+																			pos:        position{line: 2931, col: 20, offset: 92590},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92598},
+																			pos:        position{line: 2931, col: 29, offset: 92599},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28317,20 +28317,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1525, col: 5, offset: 49637},
+													pos: position{line: 1525, col: 5, offset: 49638},
 													expr: &actionExpr{
-														pos: position{line: 1596, col: 5, offset: 51688},
+														pos: position{line: 1596, col: 5, offset: 51689},
 														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
-															pos: position{line: 1596, col: 5, offset: 51688},
+															pos: position{line: 1596, col: 5, offset: 51689},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1596, col: 5, offset: 51688},
+																	pos: position{line: 1596, col: 5, offset: 51689},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92410},
+																		pos: position{line: 2922, col: 10, offset: 92411},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92410},
+																			pos:        position{line: 2922, col: 10, offset: 92411},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28339,27 +28339,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1596, col: 12, offset: 51695},
+																	pos:   position{line: 1596, col: 12, offset: 51696},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1598, col: 9, offset: 51758},
+																		pos: position{line: 1598, col: 9, offset: 51759},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1598, col: 9, offset: 51758},
+																				pos: position{line: 1598, col: 9, offset: 51759},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1598, col: 9, offset: 51758},
+																					pos: position{line: 1598, col: 9, offset: 51759},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1598, col: 9, offset: 51758},
+																							pos:   position{line: 1598, col: 9, offset: 51759},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1598, col: 16, offset: 51765},
+																								pos: position{line: 1598, col: 16, offset: 51766},
 																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1598, col: 16, offset: 51765},
+																									pos: position{line: 1598, col: 16, offset: 51766},
 																									expr: &litMatcher{
-																										pos:        position{line: 1598, col: 17, offset: 51766},
+																										pos:        position{line: 1598, col: 17, offset: 51767},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28368,22 +28368,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1602, col: 9, offset: 51866},
+																							pos: position{line: 1602, col: 9, offset: 51867},
 																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 11, offset: 52583},
+																				pos: position{line: 1621, col: 11, offset: 52584},
 																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 11, offset: 52583},
+																					pos: position{line: 1621, col: 11, offset: 52584},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1621, col: 11, offset: 52583},
+																							pos: position{line: 1621, col: 11, offset: 52584},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1621, col: 12, offset: 52584},
+																								pos:        position{line: 1621, col: 12, offset: 52585},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28391,7 +28391,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 20, offset: 52592},
+																							pos:        position{line: 1621, col: 20, offset: 52593},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28400,20 +28400,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1623, col: 13, offset: 52709},
+																				pos: position{line: 1623, col: 13, offset: 52710},
 																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
-																					pos: position{line: 1623, col: 13, offset: 52709},
+																					pos: position{line: 1623, col: 13, offset: 52710},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1623, col: 14, offset: 52710},
+																							pos:        position{line: 1623, col: 14, offset: 52711},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1623, col: 21, offset: 52717},
+																							pos:        position{line: 1623, col: 21, offset: 52718},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28422,20 +28422,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1625, col: 13, offset: 52837},
+																				pos: position{line: 1625, col: 13, offset: 52838},
 																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
-																					pos: position{line: 1625, col: 13, offset: 52837},
+																					pos: position{line: 1625, col: 13, offset: 52838},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1625, col: 14, offset: 52838},
+																							pos:        position{line: 1625, col: 14, offset: 52839},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1625, col: 21, offset: 52845},
+																							pos:        position{line: 1625, col: 21, offset: 52846},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28444,15 +28444,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1627, col: 13, offset: 52965},
+																				pos: position{line: 1627, col: 13, offset: 52966},
 																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
-																					pos: position{line: 1627, col: 13, offset: 52965},
+																					pos: position{line: 1627, col: 13, offset: 52966},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1627, col: 13, offset: 52965},
+																							pos: position{line: 1627, col: 13, offset: 52966},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1627, col: 14, offset: 52966},
+																								pos:        position{line: 1627, col: 14, offset: 52967},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28460,7 +28460,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1627, col: 26, offset: 52978},
+																							pos:        position{line: 1627, col: 26, offset: 52979},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28469,15 +28469,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1629, col: 13, offset: 53098},
+																				pos: position{line: 1629, col: 13, offset: 53099},
 																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
-																					pos: position{line: 1629, col: 13, offset: 53098},
+																					pos: position{line: 1629, col: 13, offset: 53099},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1629, col: 13, offset: 53098},
+																							pos: position{line: 1629, col: 13, offset: 53099},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1629, col: 14, offset: 53099},
+																								pos:        position{line: 1629, col: 14, offset: 53100},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28485,7 +28485,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1629, col: 26, offset: 53111},
+																							pos:        position{line: 1629, col: 26, offset: 53112},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28497,12 +28497,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92471},
+																	pos: position{line: 2926, col: 11, offset: 92472},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92471},
+																		pos: position{line: 2926, col: 11, offset: 92472},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92471},
+																			pos:        position{line: 2926, col: 11, offset: 92472},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28515,20 +28515,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1526, col: 5, offset: 49667},
+													pos: position{line: 1526, col: 5, offset: 49668},
 													expr: &actionExpr{
-														pos: position{line: 1646, col: 5, offset: 53650},
+														pos: position{line: 1646, col: 5, offset: 53651},
 														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
-															pos: position{line: 1646, col: 5, offset: 53650},
+															pos: position{line: 1646, col: 5, offset: 53651},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1646, col: 5, offset: 53650},
+																	pos: position{line: 1646, col: 5, offset: 53651},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92410},
+																		pos: position{line: 2922, col: 10, offset: 92411},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92410},
+																			pos:        position{line: 2922, col: 10, offset: 92411},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28537,24 +28537,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1647, col: 5, offset: 53662},
+																	pos:   position{line: 1647, col: 5, offset: 53663},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1648, col: 9, offset: 53678},
+																		pos: position{line: 1648, col: 9, offset: 53679},
 																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
-																			pos: position{line: 1648, col: 10, offset: 53679},
+																			pos: position{line: 1648, col: 10, offset: 53680},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1648, col: 11, offset: 53680},
+																					pos:        position{line: 1648, col: 11, offset: 53681},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1648, col: 18, offset: 53687},
+																					pos: position{line: 1648, col: 18, offset: 53688},
 																					expr: &litMatcher{
-																						pos:        position{line: 1648, col: 19, offset: 53688},
+																						pos:        position{line: 1648, col: 19, offset: 53689},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28565,16 +28565,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1651, col: 7, offset: 53778},
+																	pos: position{line: 1651, col: 7, offset: 53779},
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92471},
+																	pos: position{line: 2926, col: 11, offset: 92472},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92471},
+																		pos: position{line: 2926, col: 11, offset: 92472},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92471},
+																			pos:        position{line: 2926, col: 11, offset: 92472},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28587,29 +28587,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1527, col: 5, offset: 49699},
+													pos: position{line: 1527, col: 5, offset: 49700},
 													expr: &actionExpr{
-														pos: position{line: 1736, col: 5, offset: 56219},
+														pos: position{line: 1736, col: 5, offset: 56220},
 														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1736, col: 5, offset: 56219},
+															pos: position{line: 1736, col: 5, offset: 56220},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1736, col: 5, offset: 56219},
+																	pos:        position{line: 1736, col: 5, offset: 56220},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1736, col: 9, offset: 56223},
+																	pos:   position{line: 1736, col: 9, offset: 56224},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1736, col: 14, offset: 56228},
+																		pos: position{line: 1736, col: 14, offset: 56229},
 																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1736, col: 14, offset: 56228},
+																			pos: position{line: 1736, col: 14, offset: 56229},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1736, col: 14, offset: 56228},
+																				pos:        position{line: 1736, col: 14, offset: 56229},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28619,18 +28619,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1736, col: 62, offset: 56276},
+																	pos:        position{line: 1736, col: 62, offset: 56277},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92471},
+																	pos: position{line: 2926, col: 11, offset: 92472},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92471},
+																		pos: position{line: 2926, col: 11, offset: 92472},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92471},
+																			pos:        position{line: 2926, col: 11, offset: 92472},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28643,31 +28643,31 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1528, col: 5, offset: 49729},
+													pos: position{line: 1528, col: 5, offset: 49730},
 													expr: &seqExpr{
-														pos: position{line: 1528, col: 7, offset: 49731},
+														pos: position{line: 1528, col: 7, offset: 49732},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1681, col: 5, offset: 54669},
+																pos: position{line: 1681, col: 5, offset: 54670},
 																run: (*parser).callonExtraListElement604,
 																expr: &seqExpr{
-																	pos: position{line: 1681, col: 5, offset: 54669},
+																	pos: position{line: 1681, col: 5, offset: 54670},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1681, col: 5, offset: 54669},
+																			pos: position{line: 1681, col: 5, offset: 54670},
 																			expr: &seqExpr{
-																				pos: position{line: 2530, col: 31, offset: 81438},
+																				pos: position{line: 2530, col: 31, offset: 81439},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2530, col: 31, offset: 81438},
+																						pos:        position{line: 2530, col: 31, offset: 81439},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2530, col: 36, offset: 81443},
+																						pos: position{line: 2530, col: 36, offset: 81444},
 																						expr: &litMatcher{
-																							pos:        position{line: 2530, col: 37, offset: 81444},
+																							pos:        position{line: 2530, col: 37, offset: 81445},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -28677,28 +28677,28 @@ var g = &grammar{
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1682, col: 5, offset: 54701},
+																			pos: position{line: 1682, col: 5, offset: 54702},
 																			expr: &seqExpr{
-																				pos: position{line: 1682, col: 6, offset: 54702},
+																				pos: position{line: 1682, col: 6, offset: 54703},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1682, col: 6, offset: 54702},
+																						pos: position{line: 1682, col: 6, offset: 54703},
 																						expr: &actionExpr{
-																							pos: position{line: 1687, col: 5, offset: 54852},
+																							pos: position{line: 1687, col: 5, offset: 54853},
 																							run: (*parser).callonExtraListElement614,
 																							expr: &seqExpr{
-																								pos: position{line: 1687, col: 5, offset: 54852},
+																								pos: position{line: 1687, col: 5, offset: 54853},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1687, col: 5, offset: 54852},
+																										pos:   position{line: 1687, col: 5, offset: 54853},
 																										label: "separator",
 																										expr: &actionExpr{
-																											pos: position{line: 1687, col: 16, offset: 54863},
+																											pos: position{line: 1687, col: 16, offset: 54864},
 																											run: (*parser).callonExtraListElement617,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1687, col: 16, offset: 54863},
+																												pos: position{line: 1687, col: 16, offset: 54864},
 																												expr: &litMatcher{
-																													pos:        position{line: 1687, col: 17, offset: 54864},
+																													pos:        position{line: 1687, col: 17, offset: 54865},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
@@ -28707,7 +28707,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1690, col: 5, offset: 54921},
+																										pos: position{line: 1690, col: 5, offset: 54922},
 																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
@@ -28715,30 +28715,30 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1682, col: 35, offset: 54731},
+																						pos: position{line: 1682, col: 35, offset: 54732},
 																						expr: &choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28747,16 +28747,16 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1682, col: 40, offset: 54736,
+																						line: 1682, col: 40, offset: 54737,
 																					},
 																				},
 																			},
@@ -28765,21 +28765,21 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1687, col: 5, offset: 54852},
+																pos: position{line: 1687, col: 5, offset: 54853},
 																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 5, offset: 54852},
+																	pos: position{line: 1687, col: 5, offset: 54853},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1687, col: 5, offset: 54852},
+																			pos:   position{line: 1687, col: 5, offset: 54853},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1687, col: 16, offset: 54863},
+																				pos: position{line: 1687, col: 16, offset: 54864},
 																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1687, col: 16, offset: 54863},
+																					pos: position{line: 1687, col: 16, offset: 54864},
 																					expr: &litMatcher{
-																						pos:        position{line: 1687, col: 17, offset: 54864},
+																						pos:        position{line: 1687, col: 17, offset: 54865},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28788,7 +28788,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1690, col: 5, offset: 54921},
+																			pos: position{line: 1690, col: 5, offset: 54922},
 																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
@@ -28798,17 +28798,17 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1529, col: 5, offset: 49787},
+													pos: position{line: 1529, col: 5, offset: 49788},
 													expr: &actionExpr{
-														pos: position{line: 737, col: 5, offset: 23725},
+														pos: position{line: 737, col: 5, offset: 23726},
 														run: (*parser).callonExtraListElement639,
 														expr: &seqExpr{
-															pos: position{line: 737, col: 5, offset: 23725},
+															pos: position{line: 737, col: 5, offset: 23726},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 737, col: 5, offset: 23725},
+																	pos: position{line: 737, col: 5, offset: 23726},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2812, col: 13, offset: 89505},
+																		pos:        position{line: 2812, col: 13, offset: 89506},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28816,36 +28816,36 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 738, col: 5, offset: 23755},
+																	pos:   position{line: 738, col: 5, offset: 23756},
 																	label: "delimiter",
 																	expr: &choiceExpr{
-																		pos: position{line: 739, col: 9, offset: 23775},
+																		pos: position{line: 739, col: 9, offset: 23776},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 753, col: 5, offset: 24267},
+																				pos: position{line: 753, col: 5, offset: 24268},
 																				run: (*parser).callonExtraListElement645,
 																				expr: &seqExpr{
-																					pos: position{line: 753, col: 5, offset: 24267},
+																					pos: position{line: 753, col: 5, offset: 24268},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 753, col: 5, offset: 24267},
+																							pos:   position{line: 753, col: 5, offset: 24268},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 753, col: 16, offset: 24278},
+																								pos: position{line: 753, col: 16, offset: 24279},
 																								run: (*parser).callonExtraListElement648,
 																								expr: &seqExpr{
-																									pos: position{line: 753, col: 16, offset: 24278},
+																									pos: position{line: 753, col: 16, offset: 24279},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 753, col: 16, offset: 24278},
+																											pos:        position{line: 753, col: 16, offset: 24279},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 753, col: 23, offset: 24285},
+																											pos: position{line: 753, col: 23, offset: 24286},
 																											expr: &litMatcher{
-																												pos:        position{line: 753, col: 23, offset: 24285},
+																												pos:        position{line: 753, col: 23, offset: 24286},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -28856,12 +28856,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 755, col: 8, offset: 24369},
+																							pos: position{line: 755, col: 8, offset: 24370},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92410},
+																								pos: position{line: 2922, col: 10, offset: 92411},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92410},
+																									pos:        position{line: 2922, col: 10, offset: 92411},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28870,28 +28870,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28900,9 +28900,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -28911,30 +28911,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 760, col: 5, offset: 24515},
+																				pos: position{line: 760, col: 5, offset: 24516},
 																				run: (*parser).callonExtraListElement664,
 																				expr: &seqExpr{
-																					pos: position{line: 760, col: 5, offset: 24515},
+																					pos: position{line: 760, col: 5, offset: 24516},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 760, col: 5, offset: 24515},
+																							pos:   position{line: 760, col: 5, offset: 24516},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 760, col: 16, offset: 24526},
+																								pos: position{line: 760, col: 16, offset: 24527},
 																								run: (*parser).callonExtraListElement667,
 																								expr: &seqExpr{
-																									pos: position{line: 760, col: 16, offset: 24526},
+																									pos: position{line: 760, col: 16, offset: 24527},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 760, col: 16, offset: 24526},
+																											pos:        position{line: 760, col: 16, offset: 24527},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 760, col: 23, offset: 24533},
+																											pos: position{line: 760, col: 23, offset: 24534},
 																											expr: &litMatcher{
-																												pos:        position{line: 760, col: 23, offset: 24533},
+																												pos:        position{line: 760, col: 23, offset: 24534},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -28945,12 +28945,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 762, col: 8, offset: 24617},
+																							pos: position{line: 762, col: 8, offset: 24618},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92410},
+																								pos: position{line: 2922, col: 10, offset: 92411},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92410},
+																									pos:        position{line: 2922, col: 10, offset: 92411},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28959,28 +28959,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28989,9 +28989,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -29000,27 +29000,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 773, col: 26, offset: 25003},
+																				pos: position{line: 773, col: 26, offset: 25004},
 																				run: (*parser).callonExtraListElement683,
 																				expr: &seqExpr{
-																					pos: position{line: 773, col: 26, offset: 25003},
+																					pos: position{line: 773, col: 26, offset: 25004},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 773, col: 26, offset: 25003},
+																							pos:        position{line: 773, col: 26, offset: 25004},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 773, col: 32, offset: 25009},
+																							pos:   position{line: 773, col: 32, offset: 25010},
 																							label: "language",
 																							expr: &actionExpr{
-																								pos: position{line: 777, col: 13, offset: 25139},
+																								pos: position{line: 777, col: 13, offset: 25140},
 																								run: (*parser).callonExtraListElement687,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 777, col: 14, offset: 25140},
+																									pos: position{line: 777, col: 14, offset: 25141},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 777, col: 14, offset: 25140},
+																										pos:        position{line: 777, col: 14, offset: 25141},
 																										val:        "[^\\r\\n` ]",
 																										chars:      []rune{'\r', '\n', '`', ' '},
 																										ignoreCase: false,
@@ -29030,12 +29030,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 773, col: 52, offset: 25029},
+																							pos: position{line: 773, col: 52, offset: 25030},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92410},
+																								pos: position{line: 2922, col: 10, offset: 92411},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92410},
+																									pos:        position{line: 2922, col: 10, offset: 92411},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29044,28 +29044,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29074,9 +29074,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -29085,30 +29085,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 767, col: 5, offset: 24762},
+																				pos: position{line: 767, col: 5, offset: 24763},
 																				run: (*parser).callonExtraListElement701,
 																				expr: &seqExpr{
-																					pos: position{line: 767, col: 5, offset: 24762},
+																					pos: position{line: 767, col: 5, offset: 24763},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 767, col: 5, offset: 24762},
+																							pos:   position{line: 767, col: 5, offset: 24763},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 767, col: 16, offset: 24773},
+																								pos: position{line: 767, col: 16, offset: 24774},
 																								run: (*parser).callonExtraListElement704,
 																								expr: &seqExpr{
-																									pos: position{line: 767, col: 16, offset: 24773},
+																									pos: position{line: 767, col: 16, offset: 24774},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 767, col: 16, offset: 24773},
+																											pos:        position{line: 767, col: 16, offset: 24774},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 767, col: 22, offset: 24779},
+																											pos: position{line: 767, col: 22, offset: 24780},
 																											expr: &litMatcher{
-																												pos:        position{line: 767, col: 22, offset: 24779},
+																												pos:        position{line: 767, col: 22, offset: 24780},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -29119,12 +29119,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 769, col: 8, offset: 24863},
+																							pos: position{line: 769, col: 8, offset: 24864},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92410},
+																								pos: position{line: 2922, col: 10, offset: 92411},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92410},
+																									pos:        position{line: 2922, col: 10, offset: 92411},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29133,28 +29133,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29163,9 +29163,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -29174,30 +29174,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 782, col: 5, offset: 25299},
+																				pos: position{line: 782, col: 5, offset: 25300},
 																				run: (*parser).callonExtraListElement720,
 																				expr: &seqExpr{
-																					pos: position{line: 782, col: 5, offset: 25299},
+																					pos: position{line: 782, col: 5, offset: 25300},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 782, col: 5, offset: 25299},
+																							pos:   position{line: 782, col: 5, offset: 25300},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 782, col: 16, offset: 25310},
+																								pos: position{line: 782, col: 16, offset: 25311},
 																								run: (*parser).callonExtraListElement723,
 																								expr: &seqExpr{
-																									pos: position{line: 782, col: 16, offset: 25310},
+																									pos: position{line: 782, col: 16, offset: 25311},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 782, col: 16, offset: 25310},
+																											pos:        position{line: 782, col: 16, offset: 25311},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 782, col: 23, offset: 25317},
+																											pos: position{line: 782, col: 23, offset: 25318},
 																											expr: &litMatcher{
-																												pos:        position{line: 782, col: 23, offset: 25317},
+																												pos:        position{line: 782, col: 23, offset: 25318},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -29208,12 +29208,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 784, col: 8, offset: 25401},
+																							pos: position{line: 784, col: 8, offset: 25402},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92410},
+																								pos: position{line: 2922, col: 10, offset: 92411},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92410},
+																									pos:        position{line: 2922, col: 10, offset: 92411},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29222,28 +29222,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29252,9 +29252,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -29263,30 +29263,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 796, col: 5, offset: 25775},
+																				pos: position{line: 796, col: 5, offset: 25776},
 																				run: (*parser).callonExtraListElement739,
 																				expr: &seqExpr{
-																					pos: position{line: 796, col: 5, offset: 25775},
+																					pos: position{line: 796, col: 5, offset: 25776},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 796, col: 5, offset: 25775},
+																							pos:   position{line: 796, col: 5, offset: 25776},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 796, col: 16, offset: 25786},
+																								pos: position{line: 796, col: 16, offset: 25787},
 																								run: (*parser).callonExtraListElement742,
 																								expr: &seqExpr{
-																									pos: position{line: 796, col: 16, offset: 25786},
+																									pos: position{line: 796, col: 16, offset: 25787},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 796, col: 16, offset: 25786},
+																											pos:        position{line: 796, col: 16, offset: 25787},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 796, col: 23, offset: 25793},
+																											pos: position{line: 796, col: 23, offset: 25794},
 																											expr: &litMatcher{
-																												pos:        position{line: 796, col: 23, offset: 25793},
+																												pos:        position{line: 796, col: 23, offset: 25794},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -29297,12 +29297,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 798, col: 8, offset: 25877},
+																							pos: position{line: 798, col: 8, offset: 25878},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92410},
+																								pos: position{line: 2922, col: 10, offset: 92411},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92410},
+																									pos:        position{line: 2922, col: 10, offset: 92411},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29311,28 +29311,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29341,9 +29341,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -29352,30 +29352,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 803, col: 5, offset: 26027},
+																				pos: position{line: 803, col: 5, offset: 26028},
 																				run: (*parser).callonExtraListElement758,
 																				expr: &seqExpr{
-																					pos: position{line: 803, col: 5, offset: 26027},
+																					pos: position{line: 803, col: 5, offset: 26028},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 803, col: 5, offset: 26027},
+																							pos:   position{line: 803, col: 5, offset: 26028},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 803, col: 16, offset: 26038},
+																								pos: position{line: 803, col: 16, offset: 26039},
 																								run: (*parser).callonExtraListElement761,
 																								expr: &seqExpr{
-																									pos: position{line: 803, col: 16, offset: 26038},
+																									pos: position{line: 803, col: 16, offset: 26039},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 803, col: 16, offset: 26038},
+																											pos:        position{line: 803, col: 16, offset: 26039},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 803, col: 23, offset: 26045},
+																											pos: position{line: 803, col: 23, offset: 26046},
 																											expr: &litMatcher{
-																												pos:        position{line: 803, col: 23, offset: 26045},
+																												pos:        position{line: 803, col: 23, offset: 26046},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -29386,12 +29386,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 805, col: 8, offset: 26129},
+																							pos: position{line: 805, col: 8, offset: 26130},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92410},
+																								pos: position{line: 2922, col: 10, offset: 92411},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92410},
+																									pos:        position{line: 2922, col: 10, offset: 92411},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29400,28 +29400,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29430,9 +29430,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -29441,30 +29441,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26277},
+																				pos: position{line: 810, col: 5, offset: 26278},
 																				run: (*parser).callonExtraListElement777,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26277},
+																					pos: position{line: 810, col: 5, offset: 26278},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 810, col: 5, offset: 26277},
+																							pos:   position{line: 810, col: 5, offset: 26278},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 810, col: 16, offset: 26288},
+																								pos: position{line: 810, col: 16, offset: 26289},
 																								run: (*parser).callonExtraListElement780,
 																								expr: &seqExpr{
-																									pos: position{line: 810, col: 16, offset: 26288},
+																									pos: position{line: 810, col: 16, offset: 26289},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 810, col: 16, offset: 26288},
+																											pos:        position{line: 810, col: 16, offset: 26289},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 810, col: 23, offset: 26295},
+																											pos: position{line: 810, col: 23, offset: 26296},
 																											expr: &litMatcher{
-																												pos:        position{line: 810, col: 23, offset: 26295},
+																												pos:        position{line: 810, col: 23, offset: 26296},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -29475,12 +29475,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 812, col: 8, offset: 26379},
+																							pos: position{line: 812, col: 8, offset: 26380},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92410},
+																								pos: position{line: 2922, col: 10, offset: 92411},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92410},
+																									pos:        position{line: 2922, col: 10, offset: 92411},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29489,28 +29489,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29519,9 +29519,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -29530,30 +29530,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 817, col: 5, offset: 26523},
+																				pos: position{line: 817, col: 5, offset: 26524},
 																				run: (*parser).callonExtraListElement796,
 																				expr: &seqExpr{
-																					pos: position{line: 817, col: 5, offset: 26523},
+																					pos: position{line: 817, col: 5, offset: 26524},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 817, col: 5, offset: 26523},
+																							pos:   position{line: 817, col: 5, offset: 26524},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 817, col: 16, offset: 26534},
+																								pos: position{line: 817, col: 16, offset: 26535},
 																								run: (*parser).callonExtraListElement799,
 																								expr: &seqExpr{
-																									pos: position{line: 817, col: 16, offset: 26534},
+																									pos: position{line: 817, col: 16, offset: 26535},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 817, col: 16, offset: 26534},
+																											pos:        position{line: 817, col: 16, offset: 26535},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 817, col: 23, offset: 26541},
+																											pos: position{line: 817, col: 23, offset: 26542},
 																											expr: &litMatcher{
-																												pos:        position{line: 817, col: 23, offset: 26541},
+																												pos:        position{line: 817, col: 23, offset: 26542},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -29564,12 +29564,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 819, col: 8, offset: 26625},
+																							pos: position{line: 819, col: 8, offset: 26626},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92410},
+																								pos: position{line: 2922, col: 10, offset: 92411},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92410},
+																									pos:        position{line: 2922, col: 10, offset: 92411},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29578,28 +29578,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29608,9 +29608,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -29626,15 +29626,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1530, col: 5, offset: 49807},
+													pos:   position{line: 1530, col: 5, offset: 49808},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 14, offset: 91003},
+														pos: position{line: 2872, col: 14, offset: 91004},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2872, col: 14, offset: 91003},
+															pos: position{line: 2872, col: 14, offset: 91004},
 															expr: &charClassMatcher{
-																pos:        position{line: 2872, col: 14, offset: 91003},
+																pos:        position{line: 2872, col: 14, offset: 91004},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29644,28 +29644,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92808},
+													pos: position{line: 2944, col: 8, offset: 92809},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92581},
+															pos: position{line: 2931, col: 12, offset: 92582},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92582},
+																pos: position{line: 2931, col: 13, offset: 92583},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92582},
+																		pos:        position{line: 2931, col: 13, offset: 92583},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92589},
+																		pos:        position{line: 2931, col: 20, offset: 92590},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92598},
+																		pos:        position{line: 2931, col: 29, offset: 92599},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29674,9 +29674,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92758},
+															pos: position{line: 2941, col: 8, offset: 92759},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92759,
+																line: 2941, col: 9, offset: 92760,
 															},
 														},
 													},
@@ -29693,28 +29693,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1546, col: 1, offset: 50198},
+			pos:  position{line: 1546, col: 1, offset: 50199},
 			expr: &actionExpr{
-				pos: position{line: 1547, col: 5, offset: 50223},
+				pos: position{line: 1547, col: 5, offset: 50224},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1547, col: 5, offset: 50223},
+					pos: position{line: 1547, col: 5, offset: 50224},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1547, col: 5, offset: 50223},
+							pos:   position{line: 1547, col: 5, offset: 50224},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1547, col: 12, offset: 50230},
+								pos: position{line: 1547, col: 12, offset: 50231},
 								expr: &seqExpr{
-									pos: position{line: 1547, col: 13, offset: 50231},
+									pos: position{line: 1547, col: 13, offset: 50232},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1547, col: 13, offset: 50231},
+											pos: position{line: 1547, col: 13, offset: 50232},
 											expr: &actionExpr{
-												pos: position{line: 2922, col: 10, offset: 92410},
+												pos: position{line: 2922, col: 10, offset: 92411},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2922, col: 10, offset: 92410},
+													pos:        position{line: 2922, col: 10, offset: 92411},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29723,25 +29723,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2931, col: 12, offset: 92581},
+											pos: position{line: 2931, col: 12, offset: 92582},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2931, col: 13, offset: 92582},
+												pos: position{line: 2931, col: 13, offset: 92583},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2931, col: 13, offset: 92582},
+														pos:        position{line: 2931, col: 13, offset: 92583},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2931, col: 20, offset: 92589},
+														pos:        position{line: 2931, col: 20, offset: 92590},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2931, col: 29, offset: 92598},
+														pos:        position{line: 2931, col: 29, offset: 92599},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29754,18 +29754,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1555, col: 27, offset: 50469},
+							pos:        position{line: 1555, col: 27, offset: 50470},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1555, col: 31, offset: 50473},
+							pos: position{line: 1555, col: 31, offset: 50474},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92410},
+								pos: position{line: 2922, col: 10, offset: 92411},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92410},
+									pos:        position{line: 2922, col: 10, offset: 92411},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29774,25 +29774,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2931, col: 12, offset: 92581},
+							pos: position{line: 2931, col: 12, offset: 92582},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2931, col: 13, offset: 92582},
+								pos: position{line: 2931, col: 13, offset: 92583},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2931, col: 13, offset: 92582},
+										pos:        position{line: 2931, col: 13, offset: 92583},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2931, col: 20, offset: 92589},
+										pos:        position{line: 2931, col: 20, offset: 92590},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2931, col: 29, offset: 92598},
+										pos:        position{line: 2931, col: 29, offset: 92599},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29801,38 +29801,38 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1549, col: 5, offset: 50280},
+							pos: position{line: 1549, col: 5, offset: 50281},
 							expr: &actionExpr{
-								pos: position{line: 2525, col: 22, offset: 81188},
+								pos: position{line: 2525, col: 22, offset: 81189},
 								run: (*parser).callonListContinuation24,
 								expr: &seqExpr{
-									pos: position{line: 2525, col: 22, offset: 81188},
+									pos: position{line: 2525, col: 22, offset: 81189},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2530, col: 31, offset: 81438},
+											pos:        position{line: 2530, col: 31, offset: 81439},
 											val:        "//",
 											ignoreCase: false,
 											want:       "\"//\"",
 										},
 										&notExpr{
-											pos: position{line: 2530, col: 36, offset: 81443},
+											pos: position{line: 2530, col: 36, offset: 81444},
 											expr: &litMatcher{
-												pos:        position{line: 2530, col: 37, offset: 81444},
+												pos:        position{line: 2530, col: 37, offset: 81445},
 												val:        "/",
 												ignoreCase: false,
 												want:       "\"/\"",
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2525, col: 49, offset: 81215},
+											pos:   position{line: 2525, col: 49, offset: 81216},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2868, col: 13, offset: 90936},
+												pos: position{line: 2868, col: 13, offset: 90937},
 												run: (*parser).callonListContinuation30,
 												expr: &zeroOrMoreExpr{
-													pos: position{line: 2868, col: 13, offset: 90936},
+													pos: position{line: 2868, col: 13, offset: 90937},
 													expr: &charClassMatcher{
-														pos:        position{line: 2868, col: 13, offset: 90936},
+														pos:        position{line: 2868, col: 13, offset: 90937},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -29842,28 +29842,28 @@ var g = &grammar{
 											},
 										},
 										&choiceExpr{
-											pos: position{line: 2944, col: 8, offset: 92808},
+											pos: position{line: 2944, col: 8, offset: 92809},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2931, col: 12, offset: 92581},
+													pos: position{line: 2931, col: 12, offset: 92582},
 													run: (*parser).callonListContinuation34,
 													expr: &choiceExpr{
-														pos: position{line: 2931, col: 13, offset: 92582},
+														pos: position{line: 2931, col: 13, offset: 92583},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2931, col: 13, offset: 92582},
+																pos:        position{line: 2931, col: 13, offset: 92583},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2931, col: 20, offset: 92589},
+																pos:        position{line: 2931, col: 20, offset: 92590},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2931, col: 29, offset: 92598},
+																pos:        position{line: 2931, col: 29, offset: 92599},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -29872,9 +29872,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92758},
+													pos: position{line: 2941, col: 8, offset: 92759},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92759,
+														line: 2941, col: 9, offset: 92760,
 													},
 												},
 											},
@@ -29884,12 +29884,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1550, col: 5, offset: 50314},
+							pos:   position{line: 1550, col: 5, offset: 50315},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1550, col: 13, offset: 50322},
+								pos: position{line: 1550, col: 13, offset: 50323},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1550, col: 13, offset: 50322},
+									pos:  position{line: 1550, col: 13, offset: 50323},
 									name: "ListContinuationElement",
 								},
 							},
@@ -29900,46 +29900,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1557, col: 1, offset: 50489},
+			pos:  position{line: 1557, col: 1, offset: 50490},
 			expr: &actionExpr{
-				pos: position{line: 1558, col: 5, offset: 50560},
+				pos: position{line: 1558, col: 5, offset: 50561},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1558, col: 5, offset: 50560},
+					pos: position{line: 1558, col: 5, offset: 50561},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92744},
+							pos: position{line: 2939, col: 11, offset: 92745},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92746,
+								line: 2939, col: 13, offset: 92747,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1559, col: 5, offset: 50588},
+							pos: position{line: 1559, col: 5, offset: 50589},
 							expr: &choiceExpr{
-								pos: position{line: 1495, col: 5, offset: 48512},
+								pos: position{line: 1495, col: 5, offset: 48513},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1589, col: 5, offset: 51480},
+										pos: position{line: 1589, col: 5, offset: 51481},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1589, col: 5, offset: 51480},
+											pos: position{line: 1589, col: 5, offset: 51481},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1589, col: 5, offset: 51480},
+													pos:   position{line: 1589, col: 5, offset: 51481},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1596, col: 5, offset: 51688},
+														pos: position{line: 1596, col: 5, offset: 51689},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1596, col: 5, offset: 51688},
+															pos: position{line: 1596, col: 5, offset: 51689},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1596, col: 5, offset: 51688},
+																	pos: position{line: 1596, col: 5, offset: 51689},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92410},
+																		pos: position{line: 2922, col: 10, offset: 92411},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92410},
+																			pos:        position{line: 2922, col: 10, offset: 92411},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29948,27 +29948,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1596, col: 12, offset: 51695},
+																	pos:   position{line: 1596, col: 12, offset: 51696},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1598, col: 9, offset: 51758},
+																		pos: position{line: 1598, col: 9, offset: 51759},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1598, col: 9, offset: 51758},
+																				pos: position{line: 1598, col: 9, offset: 51759},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1598, col: 9, offset: 51758},
+																					pos: position{line: 1598, col: 9, offset: 51759},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1598, col: 9, offset: 51758},
+																							pos:   position{line: 1598, col: 9, offset: 51759},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1598, col: 16, offset: 51765},
+																								pos: position{line: 1598, col: 16, offset: 51766},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1598, col: 16, offset: 51765},
+																									pos: position{line: 1598, col: 16, offset: 51766},
 																									expr: &litMatcher{
-																										pos:        position{line: 1598, col: 17, offset: 51766},
+																										pos:        position{line: 1598, col: 17, offset: 51767},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29977,22 +29977,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1602, col: 9, offset: 51866},
+																							pos: position{line: 1602, col: 9, offset: 51867},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 11, offset: 52583},
+																				pos: position{line: 1621, col: 11, offset: 52584},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 11, offset: 52583},
+																					pos: position{line: 1621, col: 11, offset: 52584},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1621, col: 11, offset: 52583},
+																							pos: position{line: 1621, col: 11, offset: 52584},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1621, col: 12, offset: 52584},
+																								pos:        position{line: 1621, col: 12, offset: 52585},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -30000,7 +30000,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 20, offset: 52592},
+																							pos:        position{line: 1621, col: 20, offset: 52593},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30009,20 +30009,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1623, col: 13, offset: 52709},
+																				pos: position{line: 1623, col: 13, offset: 52710},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1623, col: 13, offset: 52709},
+																					pos: position{line: 1623, col: 13, offset: 52710},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1623, col: 14, offset: 52710},
+																							pos:        position{line: 1623, col: 14, offset: 52711},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1623, col: 21, offset: 52717},
+																							pos:        position{line: 1623, col: 21, offset: 52718},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30031,20 +30031,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1625, col: 13, offset: 52837},
+																				pos: position{line: 1625, col: 13, offset: 52838},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1625, col: 13, offset: 52837},
+																					pos: position{line: 1625, col: 13, offset: 52838},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1625, col: 14, offset: 52838},
+																							pos:        position{line: 1625, col: 14, offset: 52839},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1625, col: 21, offset: 52845},
+																							pos:        position{line: 1625, col: 21, offset: 52846},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30053,15 +30053,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1627, col: 13, offset: 52965},
+																				pos: position{line: 1627, col: 13, offset: 52966},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1627, col: 13, offset: 52965},
+																					pos: position{line: 1627, col: 13, offset: 52966},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1627, col: 13, offset: 52965},
+																							pos: position{line: 1627, col: 13, offset: 52966},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1627, col: 14, offset: 52966},
+																								pos:        position{line: 1627, col: 14, offset: 52967},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -30069,7 +30069,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1627, col: 26, offset: 52978},
+																							pos:        position{line: 1627, col: 26, offset: 52979},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30078,15 +30078,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1629, col: 13, offset: 53098},
+																				pos: position{line: 1629, col: 13, offset: 53099},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1629, col: 13, offset: 53098},
+																					pos: position{line: 1629, col: 13, offset: 53099},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1629, col: 13, offset: 53098},
+																							pos: position{line: 1629, col: 13, offset: 53099},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1629, col: 14, offset: 53099},
+																								pos:        position{line: 1629, col: 14, offset: 53100},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -30094,7 +30094,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1629, col: 26, offset: 53111},
+																							pos:        position{line: 1629, col: 26, offset: 53112},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30106,12 +30106,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92471},
+																	pos: position{line: 2926, col: 11, offset: 92472},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92471},
+																		pos: position{line: 2926, col: 11, offset: 92472},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92471},
+																			pos:        position{line: 2926, col: 11, offset: 92472},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30124,26 +30124,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1590, col: 5, offset: 51519},
+													pos:   position{line: 1590, col: 5, offset: 51520},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1536, col: 5, offset: 49952},
+														pos: position{line: 1536, col: 5, offset: 49953},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1536, col: 5, offset: 49952},
+															pos: position{line: 1536, col: 5, offset: 49953},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1536, col: 5, offset: 49952},
+																	pos:   position{line: 1536, col: 5, offset: 49953},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1536, col: 14, offset: 49961},
+																		pos: position{line: 1536, col: 14, offset: 49962},
 																		expr: &actionExpr{
-																			pos: position{line: 1536, col: 15, offset: 49962},
+																			pos: position{line: 1536, col: 15, offset: 49963},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1536, col: 15, offset: 49962},
+																				pos: position{line: 1536, col: 15, offset: 49963},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1536, col: 15, offset: 49962},
+																					pos:        position{line: 1536, col: 15, offset: 49963},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30154,28 +30154,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92808},
+																	pos: position{line: 2944, col: 8, offset: 92809},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92581},
+																			pos: position{line: 2931, col: 12, offset: 92582},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92582},
+																				pos: position{line: 2931, col: 13, offset: 92583},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92582},
+																						pos:        position{line: 2931, col: 13, offset: 92583},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92589},
+																						pos:        position{line: 2931, col: 20, offset: 92590},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92598},
+																						pos:        position{line: 2931, col: 29, offset: 92599},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30184,9 +30184,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92758},
+																			pos: position{line: 2941, col: 8, offset: 92759},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92759,
+																				line: 2941, col: 9, offset: 92760,
 																			},
 																		},
 																	},
@@ -30199,27 +30199,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1639, col: 5, offset: 53377},
+										pos: position{line: 1639, col: 5, offset: 53378},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1639, col: 5, offset: 53377},
+											pos: position{line: 1639, col: 5, offset: 53378},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1639, col: 5, offset: 53377},
+													pos:   position{line: 1639, col: 5, offset: 53378},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1646, col: 5, offset: 53650},
+														pos: position{line: 1646, col: 5, offset: 53651},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1646, col: 5, offset: 53650},
+															pos: position{line: 1646, col: 5, offset: 53651},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1646, col: 5, offset: 53650},
+																	pos: position{line: 1646, col: 5, offset: 53651},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92410},
+																		pos: position{line: 2922, col: 10, offset: 92411},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92410},
+																			pos:        position{line: 2922, col: 10, offset: 92411},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30228,24 +30228,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1647, col: 5, offset: 53662},
+																	pos:   position{line: 1647, col: 5, offset: 53663},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1648, col: 9, offset: 53678},
+																		pos: position{line: 1648, col: 9, offset: 53679},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1648, col: 10, offset: 53679},
+																			pos: position{line: 1648, col: 10, offset: 53680},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1648, col: 11, offset: 53680},
+																					pos:        position{line: 1648, col: 11, offset: 53681},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1648, col: 18, offset: 53687},
+																					pos: position{line: 1648, col: 18, offset: 53688},
 																					expr: &litMatcher{
-																						pos:        position{line: 1648, col: 19, offset: 53688},
+																						pos:        position{line: 1648, col: 19, offset: 53689},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -30256,16 +30256,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1651, col: 7, offset: 53778},
+																	pos: position{line: 1651, col: 7, offset: 53779},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92471},
+																	pos: position{line: 2926, col: 11, offset: 92472},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92471},
+																		pos: position{line: 2926, col: 11, offset: 92472},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92471},
+																			pos:        position{line: 2926, col: 11, offset: 92472},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30278,56 +30278,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1640, col: 5, offset: 53418},
+													pos:   position{line: 1640, col: 5, offset: 53419},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1640, col: 16, offset: 53429},
+														pos: position{line: 1640, col: 16, offset: 53430},
 														expr: &actionExpr{
-															pos: position{line: 1661, col: 5, offset: 54043},
+															pos: position{line: 1661, col: 5, offset: 54044},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1661, col: 5, offset: 54043},
+																pos: position{line: 1661, col: 5, offset: 54044},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1661, col: 5, offset: 54043},
+																		pos: position{line: 1661, col: 5, offset: 54044},
 																		expr: &litMatcher{
-																			pos:        position{line: 1661, col: 6, offset: 54044},
+																			pos:        position{line: 1661, col: 6, offset: 54045},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1661, col: 10, offset: 54048},
+																		pos:   position{line: 1661, col: 10, offset: 54049},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1662, col: 7, offset: 54062},
+																			pos: position{line: 1662, col: 7, offset: 54063},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1662, col: 7, offset: 54062},
+																					pos: position{line: 1662, col: 7, offset: 54063},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1662, col: 7, offset: 54062},
+																						pos:        position{line: 1662, col: 7, offset: 54063},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1663, col: 7, offset: 54107},
+																					pos: position{line: 1663, col: 7, offset: 54108},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1663, col: 7, offset: 54107},
+																						pos:        position{line: 1663, col: 7, offset: 54108},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1664, col: 7, offset: 54150},
+																					pos: position{line: 1664, col: 7, offset: 54151},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1664, col: 7, offset: 54150},
+																						pos:        position{line: 1664, col: 7, offset: 54151},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -30337,12 +30337,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2926, col: 11, offset: 92471},
+																		pos: position{line: 2926, col: 11, offset: 92472},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2926, col: 11, offset: 92471},
+																			pos: position{line: 2926, col: 11, offset: 92472},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2926, col: 11, offset: 92471},
+																				pos:        position{line: 2926, col: 11, offset: 92472},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30356,26 +30356,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1641, col: 5, offset: 53468},
+													pos:   position{line: 1641, col: 5, offset: 53469},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1536, col: 5, offset: 49952},
+														pos: position{line: 1536, col: 5, offset: 49953},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1536, col: 5, offset: 49952},
+															pos: position{line: 1536, col: 5, offset: 49953},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1536, col: 5, offset: 49952},
+																	pos:   position{line: 1536, col: 5, offset: 49953},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1536, col: 14, offset: 49961},
+																		pos: position{line: 1536, col: 14, offset: 49962},
 																		expr: &actionExpr{
-																			pos: position{line: 1536, col: 15, offset: 49962},
+																			pos: position{line: 1536, col: 15, offset: 49963},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1536, col: 15, offset: 49962},
+																				pos: position{line: 1536, col: 15, offset: 49963},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1536, col: 15, offset: 49962},
+																					pos:        position{line: 1536, col: 15, offset: 49963},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30386,28 +30386,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92808},
+																	pos: position{line: 2944, col: 8, offset: 92809},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92581},
+																			pos: position{line: 2931, col: 12, offset: 92582},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92582},
+																				pos: position{line: 2931, col: 13, offset: 92583},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92582},
+																						pos:        position{line: 2931, col: 13, offset: 92583},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92589},
+																						pos:        position{line: 2931, col: 20, offset: 92590},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92598},
+																						pos:        position{line: 2931, col: 29, offset: 92599},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30416,9 +30416,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92758},
+																			pos: position{line: 2941, col: 8, offset: 92759},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92759,
+																				line: 2941, col: 9, offset: 92760,
 																			},
 																		},
 																	},
@@ -30431,36 +30431,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1730, col: 5, offset: 56022},
+										pos: position{line: 1730, col: 5, offset: 56023},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1730, col: 5, offset: 56022},
+											pos: position{line: 1730, col: 5, offset: 56023},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1730, col: 5, offset: 56022},
+													pos:   position{line: 1730, col: 5, offset: 56023},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1736, col: 5, offset: 56219},
+														pos: position{line: 1736, col: 5, offset: 56220},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1736, col: 5, offset: 56219},
+															pos: position{line: 1736, col: 5, offset: 56220},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1736, col: 5, offset: 56219},
+																	pos:        position{line: 1736, col: 5, offset: 56220},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1736, col: 9, offset: 56223},
+																	pos:   position{line: 1736, col: 9, offset: 56224},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1736, col: 14, offset: 56228},
+																		pos: position{line: 1736, col: 14, offset: 56229},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1736, col: 14, offset: 56228},
+																			pos: position{line: 1736, col: 14, offset: 56229},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1736, col: 14, offset: 56228},
+																				pos:        position{line: 1736, col: 14, offset: 56229},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30470,18 +30470,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1736, col: 62, offset: 56276},
+																	pos:        position{line: 1736, col: 62, offset: 56277},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92471},
+																	pos: position{line: 2926, col: 11, offset: 92472},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92471},
+																		pos: position{line: 2926, col: 11, offset: 92472},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92471},
+																			pos:        position{line: 2926, col: 11, offset: 92472},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30494,26 +30494,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1731, col: 5, offset: 56058},
+													pos:   position{line: 1731, col: 5, offset: 56059},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1536, col: 5, offset: 49952},
+														pos: position{line: 1536, col: 5, offset: 49953},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1536, col: 5, offset: 49952},
+															pos: position{line: 1536, col: 5, offset: 49953},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1536, col: 5, offset: 49952},
+																	pos:   position{line: 1536, col: 5, offset: 49953},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1536, col: 14, offset: 49961},
+																		pos: position{line: 1536, col: 14, offset: 49962},
 																		expr: &actionExpr{
-																			pos: position{line: 1536, col: 15, offset: 49962},
+																			pos: position{line: 1536, col: 15, offset: 49963},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1536, col: 15, offset: 49962},
+																				pos: position{line: 1536, col: 15, offset: 49963},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1536, col: 15, offset: 49962},
+																					pos:        position{line: 1536, col: 15, offset: 49963},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30524,28 +30524,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92808},
+																	pos: position{line: 2944, col: 8, offset: 92809},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92581},
+																			pos: position{line: 2931, col: 12, offset: 92582},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92582},
+																				pos: position{line: 2931, col: 13, offset: 92583},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92582},
+																						pos:        position{line: 2931, col: 13, offset: 92583},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92589},
+																						pos:        position{line: 2931, col: 20, offset: 92590},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92598},
+																						pos:        position{line: 2931, col: 29, offset: 92599},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30554,9 +30554,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92758},
+																			pos: position{line: 2941, col: 8, offset: 92759},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92759,
+																				line: 2941, col: 9, offset: 92760,
 																			},
 																		},
 																	},
@@ -30569,35 +30569,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1673, col: 5, offset: 54343},
+										pos: position{line: 1673, col: 5, offset: 54344},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1673, col: 5, offset: 54343},
+											pos: position{line: 1673, col: 5, offset: 54344},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1673, col: 5, offset: 54343},
+													pos:   position{line: 1673, col: 5, offset: 54344},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1681, col: 5, offset: 54669},
+														pos: position{line: 1681, col: 5, offset: 54670},
 														run: (*parser).callonListContinuationElement150,
 														expr: &seqExpr{
-															pos: position{line: 1681, col: 5, offset: 54669},
+															pos: position{line: 1681, col: 5, offset: 54670},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1681, col: 5, offset: 54669},
+																	pos: position{line: 1681, col: 5, offset: 54670},
 																	expr: &seqExpr{
-																		pos: position{line: 2530, col: 31, offset: 81438},
+																		pos: position{line: 2530, col: 31, offset: 81439},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2530, col: 31, offset: 81438},
+																				pos:        position{line: 2530, col: 31, offset: 81439},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2530, col: 36, offset: 81443},
+																				pos: position{line: 2530, col: 36, offset: 81444},
 																				expr: &litMatcher{
-																					pos:        position{line: 2530, col: 37, offset: 81444},
+																					pos:        position{line: 2530, col: 37, offset: 81445},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -30607,28 +30607,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1682, col: 5, offset: 54701},
+																	pos: position{line: 1682, col: 5, offset: 54702},
 																	expr: &seqExpr{
-																		pos: position{line: 1682, col: 6, offset: 54702},
+																		pos: position{line: 1682, col: 6, offset: 54703},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1682, col: 6, offset: 54702},
+																				pos: position{line: 1682, col: 6, offset: 54703},
 																				expr: &actionExpr{
-																					pos: position{line: 1687, col: 5, offset: 54852},
+																					pos: position{line: 1687, col: 5, offset: 54853},
 																					run: (*parser).callonListContinuationElement160,
 																					expr: &seqExpr{
-																						pos: position{line: 1687, col: 5, offset: 54852},
+																						pos: position{line: 1687, col: 5, offset: 54853},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1687, col: 5, offset: 54852},
+																								pos:   position{line: 1687, col: 5, offset: 54853},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1687, col: 16, offset: 54863},
+																									pos: position{line: 1687, col: 16, offset: 54864},
 																									run: (*parser).callonListContinuationElement163,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1687, col: 16, offset: 54863},
+																										pos: position{line: 1687, col: 16, offset: 54864},
 																										expr: &litMatcher{
-																											pos:        position{line: 1687, col: 17, offset: 54864},
+																											pos:        position{line: 1687, col: 17, offset: 54865},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -30637,7 +30637,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1690, col: 5, offset: 54921},
+																								pos: position{line: 1690, col: 5, offset: 54922},
 																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
@@ -30645,30 +30645,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1682, col: 35, offset: 54731},
+																				pos: position{line: 1682, col: 35, offset: 54732},
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92808},
+																					pos: position{line: 2944, col: 8, offset: 92809},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92581},
+																							pos: position{line: 2931, col: 12, offset: 92582},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92582},
+																								pos: position{line: 2931, col: 13, offset: 92583},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92582},
+																										pos:        position{line: 2931, col: 13, offset: 92583},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92589},
+																										pos:        position{line: 2931, col: 20, offset: 92590},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92598},
+																										pos:        position{line: 2931, col: 29, offset: 92599},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30677,16 +30677,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92758},
+																							pos: position{line: 2941, col: 8, offset: 92759},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92759,
+																								line: 2941, col: 9, offset: 92760,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1682, col: 40, offset: 54736,
+																				line: 1682, col: 40, offset: 54737,
 																			},
 																		},
 																	},
@@ -30696,24 +30696,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1674, col: 5, offset: 54378},
+													pos:   position{line: 1674, col: 5, offset: 54379},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1687, col: 5, offset: 54852},
+														pos: position{line: 1687, col: 5, offset: 54853},
 														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1687, col: 5, offset: 54852},
+															pos: position{line: 1687, col: 5, offset: 54853},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1687, col: 5, offset: 54852},
+																	pos:   position{line: 1687, col: 5, offset: 54853},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1687, col: 16, offset: 54863},
+																		pos: position{line: 1687, col: 16, offset: 54864},
 																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1687, col: 16, offset: 54863},
+																			pos: position{line: 1687, col: 16, offset: 54864},
 																			expr: &litMatcher{
-																				pos:        position{line: 1687, col: 17, offset: 54864},
+																				pos:        position{line: 1687, col: 17, offset: 54865},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30722,7 +30722,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1690, col: 5, offset: 54921},
+																	pos: position{line: 1690, col: 5, offset: 54922},
 																	run: (*parser).callonListContinuationElement184,
 																},
 															},
@@ -30730,24 +30730,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1675, col: 5, offset: 54423},
+													pos:   position{line: 1675, col: 5, offset: 54424},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1698, col: 5, offset: 55170},
+														pos: position{line: 1698, col: 5, offset: 55171},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1700, col: 9, offset: 55236},
+																pos: position{line: 1700, col: 9, offset: 55237},
 																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1700, col: 9, offset: 55236},
+																	pos: position{line: 1700, col: 9, offset: 55237},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1700, col: 9, offset: 55236},
+																			pos: position{line: 1700, col: 9, offset: 55237},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92410},
+																				pos: position{line: 2922, col: 10, offset: 92411},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92410},
+																					pos:        position{line: 2922, col: 10, offset: 92411},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30756,28 +30756,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92808},
+																			pos: position{line: 2944, col: 8, offset: 92809},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92581},
+																					pos: position{line: 2931, col: 12, offset: 92582},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92582},
+																						pos: position{line: 2931, col: 13, offset: 92583},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92582},
+																								pos:        position{line: 2931, col: 13, offset: 92583},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92589},
+																								pos:        position{line: 2931, col: 20, offset: 92590},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92598},
+																								pos:        position{line: 2931, col: 29, offset: 92599},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30786,34 +30786,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1701, col: 9, offset: 55255},
+																			pos: position{line: 1701, col: 9, offset: 55256},
 																			expr: &actionExpr{
-																				pos: position{line: 690, col: 14, offset: 22172},
+																				pos: position{line: 690, col: 14, offset: 22173},
 																				run: (*parser).callonListContinuationElement201,
 																				expr: &seqExpr{
-																					pos: position{line: 690, col: 14, offset: 22172},
+																					pos: position{line: 690, col: 14, offset: 22173},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92744},
+																							pos: position{line: 2939, col: 11, offset: 92745},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92746,
+																								line: 2939, col: 13, offset: 92747,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 690, col: 21, offset: 22179},
+																							pos: position{line: 690, col: 21, offset: 22180},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92410},
+																								pos: position{line: 2922, col: 10, offset: 92411},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92410},
+																									pos:        position{line: 2922, col: 10, offset: 92411},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30822,28 +30822,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30852,9 +30852,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -30867,18 +30867,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1707, col: 9, offset: 55384},
+																pos: position{line: 1707, col: 9, offset: 55385},
 																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1707, col: 9, offset: 55384},
+																	pos: position{line: 1707, col: 9, offset: 55385},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2926, col: 11, offset: 92471},
+																			pos: position{line: 2926, col: 11, offset: 92472},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2926, col: 11, offset: 92471},
+																				pos: position{line: 2926, col: 11, offset: 92472},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2926, col: 11, offset: 92471},
+																					pos:        position{line: 2926, col: 11, offset: 92472},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30887,15 +30887,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1708, col: 9, offset: 55457},
+																			pos:   position{line: 1708, col: 9, offset: 55458},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1708, col: 18, offset: 55466},
+																				pos: position{line: 1708, col: 18, offset: 55467},
 																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1708, col: 18, offset: 55466},
+																					pos: position{line: 1708, col: 18, offset: 55467},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1708, col: 18, offset: 55466},
+																						pos:        position{line: 1708, col: 18, offset: 55467},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30905,28 +30905,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92808},
+																			pos: position{line: 2944, col: 8, offset: 92809},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92581},
+																					pos: position{line: 2931, col: 12, offset: 92582},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92582},
+																						pos: position{line: 2931, col: 13, offset: 92583},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92582},
+																								pos:        position{line: 2931, col: 13, offset: 92583},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92589},
+																								pos:        position{line: 2931, col: 20, offset: 92590},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92598},
+																								pos:        position{line: 2931, col: 29, offset: 92599},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30935,9 +30935,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
@@ -30955,41 +30955,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1560, col: 5, offset: 50605},
+							pos:   position{line: 1560, col: 5, offset: 50606},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1560, col: 16, offset: 50616},
+								pos: position{line: 1560, col: 16, offset: 50617},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1560, col: 17, offset: 50617},
+									pos:  position{line: 1560, col: 17, offset: 50618},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1561, col: 5, offset: 50639},
+							pos:   position{line: 1561, col: 5, offset: 50640},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1562, col: 9, offset: 50657},
+								pos: position{line: 1562, col: 9, offset: 50658},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 690, col: 14, offset: 22172},
+										pos: position{line: 690, col: 14, offset: 22173},
 										run: (*parser).callonListContinuationElement238,
 										expr: &seqExpr{
-											pos: position{line: 690, col: 14, offset: 22172},
+											pos: position{line: 690, col: 14, offset: 22173},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2939, col: 11, offset: 92744},
+													pos: position{line: 2939, col: 11, offset: 92745},
 													expr: &anyMatcher{
-														line: 2939, col: 13, offset: 92746,
+														line: 2939, col: 13, offset: 92747,
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 690, col: 21, offset: 22179},
+													pos: position{line: 690, col: 21, offset: 22180},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92410},
+														pos: position{line: 2922, col: 10, offset: 92411},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92410},
+															pos:        position{line: 2922, col: 10, offset: 92411},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30998,28 +30998,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92808},
+													pos: position{line: 2944, col: 8, offset: 92809},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92581},
+															pos: position{line: 2931, col: 12, offset: 92582},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92582},
+																pos: position{line: 2931, col: 13, offset: 92583},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92582},
+																		pos:        position{line: 2931, col: 13, offset: 92583},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92589},
+																		pos:        position{line: 2931, col: 20, offset: 92590},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92598},
+																		pos:        position{line: 2931, col: 29, offset: 92599},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31028,9 +31028,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92758},
+															pos: position{line: 2941, col: 8, offset: 92759},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92759,
+																line: 2941, col: 9, offset: 92760,
 															},
 														},
 													},
@@ -31039,23 +31039,23 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1563, col: 11, offset: 50677},
+										pos:  position{line: 1563, col: 11, offset: 50678},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
-										pos: position{line: 362, col: 19, offset: 11011},
+										pos: position{line: 362, col: 19, offset: 11012},
 										run: (*parser).callonListContinuationElement254,
 										expr: &seqExpr{
-											pos: position{line: 362, col: 19, offset: 11011},
+											pos: position{line: 362, col: 19, offset: 11012},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 362, col: 19, offset: 11011},
+													pos:        position{line: 362, col: 19, offset: 11012},
 													val:        ":!",
 													ignoreCase: false,
 													want:       "\":!\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 362, col: 24, offset: 11016},
+													pos:   position{line: 362, col: 24, offset: 11017},
 													label: "name",
 													expr: &actionExpr{
 														pos: position{line: 320, col: 18, offset: 9837},
@@ -31075,8 +31075,8 @@ var g = &grammar{
 																	pos: position{line: 320, col: 28, offset: 9847},
 																	expr: &charClassMatcher{
 																		pos:        position{line: 320, col: 29, offset: 9848},
-																		val:        "[-\\pL\\pN]",
-																		chars:      []rune{'-'},
+																		val:        "[_-\\pL\\pN]",
+																		chars:      []rune{'_', '-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
@@ -31087,18 +31087,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 362, col: 45, offset: 11037},
+													pos:        position{line: 362, col: 45, offset: 11038},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 362, col: 49, offset: 11041},
+													pos: position{line: 362, col: 49, offset: 11042},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92410},
+														pos: position{line: 2922, col: 10, offset: 92411},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92410},
+															pos:        position{line: 2922, col: 10, offset: 92411},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31107,28 +31107,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92808},
+													pos: position{line: 2944, col: 8, offset: 92809},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92581},
+															pos: position{line: 2931, col: 12, offset: 92582},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92582},
+																pos: position{line: 2931, col: 13, offset: 92583},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92582},
+																		pos:        position{line: 2931, col: 13, offset: 92583},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92589},
+																		pos:        position{line: 2931, col: 20, offset: 92590},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92598},
+																		pos:        position{line: 2931, col: 29, offset: 92599},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31137,9 +31137,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92758},
+															pos: position{line: 2941, col: 8, offset: 92759},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92759,
+																line: 2941, col: 9, offset: 92760,
 															},
 														},
 													},
@@ -31148,19 +31148,19 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 364, col: 9, offset: 11132},
+										pos: position{line: 364, col: 9, offset: 11133},
 										run: (*parser).callonListContinuationElement275,
 										expr: &seqExpr{
-											pos: position{line: 364, col: 9, offset: 11132},
+											pos: position{line: 364, col: 9, offset: 11133},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 364, col: 9, offset: 11132},
+													pos:        position{line: 364, col: 9, offset: 11133},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 364, col: 13, offset: 11136},
+													pos:   position{line: 364, col: 13, offset: 11137},
 													label: "name",
 													expr: &actionExpr{
 														pos: position{line: 320, col: 18, offset: 9837},
@@ -31180,8 +31180,8 @@ var g = &grammar{
 																	pos: position{line: 320, col: 28, offset: 9847},
 																	expr: &charClassMatcher{
 																		pos:        position{line: 320, col: 29, offset: 9848},
-																		val:        "[-\\pL\\pN]",
-																		chars:      []rune{'-'},
+																		val:        "[_-\\pL\\pN]",
+																		chars:      []rune{'_', '-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
@@ -31192,18 +31192,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 364, col: 34, offset: 11157},
+													pos:        position{line: 364, col: 34, offset: 11158},
 													val:        "!:",
 													ignoreCase: false,
 													want:       "\"!:\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 364, col: 39, offset: 11162},
+													pos: position{line: 364, col: 39, offset: 11163},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92410},
+														pos: position{line: 2922, col: 10, offset: 92411},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92410},
+															pos:        position{line: 2922, col: 10, offset: 92411},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31212,28 +31212,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92808},
+													pos: position{line: 2944, col: 8, offset: 92809},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92581},
+															pos: position{line: 2931, col: 12, offset: 92582},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92582},
+																pos: position{line: 2931, col: 13, offset: 92583},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92582},
+																		pos:        position{line: 2931, col: 13, offset: 92583},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92589},
+																		pos:        position{line: 2931, col: 20, offset: 92590},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92598},
+																		pos:        position{line: 2931, col: 29, offset: 92599},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31242,9 +31242,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92758},
+															pos: position{line: 2941, col: 8, offset: 92759},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92759,
+																line: 2941, col: 9, offset: 92760,
 															},
 														},
 													},
@@ -31253,36 +31253,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 833, col: 5, offset: 27007},
+										pos: position{line: 833, col: 5, offset: 27008},
 										run: (*parser).callonListContinuationElement296,
 										expr: &seqExpr{
-											pos: position{line: 833, col: 5, offset: 27007},
+											pos: position{line: 833, col: 5, offset: 27008},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 753, col: 5, offset: 24267},
+													pos: position{line: 753, col: 5, offset: 24268},
 													run: (*parser).callonListContinuationElement298,
 													expr: &seqExpr{
-														pos: position{line: 753, col: 5, offset: 24267},
+														pos: position{line: 753, col: 5, offset: 24268},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 753, col: 5, offset: 24267},
+																pos:   position{line: 753, col: 5, offset: 24268},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 753, col: 16, offset: 24278},
+																	pos: position{line: 753, col: 16, offset: 24279},
 																	run: (*parser).callonListContinuationElement301,
 																	expr: &seqExpr{
-																		pos: position{line: 753, col: 16, offset: 24278},
+																		pos: position{line: 753, col: 16, offset: 24279},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 753, col: 16, offset: 24278},
+																				pos:        position{line: 753, col: 16, offset: 24279},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 753, col: 23, offset: 24285},
+																				pos: position{line: 753, col: 23, offset: 24286},
 																				expr: &litMatcher{
-																					pos:        position{line: 753, col: 23, offset: 24285},
+																					pos:        position{line: 753, col: 23, offset: 24286},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -31293,12 +31293,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 755, col: 8, offset: 24369},
+																pos: position{line: 755, col: 8, offset: 24370},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92410},
+																	pos: position{line: 2922, col: 10, offset: 92411},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92410},
+																		pos:        position{line: 2922, col: 10, offset: 92411},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31307,28 +31307,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92808},
+																pos: position{line: 2944, col: 8, offset: 92809},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92581},
+																		pos: position{line: 2931, col: 12, offset: 92582},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92582},
+																			pos: position{line: 2931, col: 13, offset: 92583},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92582},
+																					pos:        position{line: 2931, col: 13, offset: 92583},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92589},
+																					pos:        position{line: 2931, col: 20, offset: 92590},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92598},
+																					pos:        position{line: 2931, col: 29, offset: 92599},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31337,9 +31337,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92758},
+																		pos: position{line: 2941, col: 8, offset: 92759},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92759,
+																			line: 2941, col: 9, offset: 92760,
 																		},
 																	},
 																},
@@ -31348,46 +31348,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 834, col: 5, offset: 27038},
+													pos:   position{line: 834, col: 5, offset: 27039},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 844, col: 5, offset: 27324},
+														pos: position{line: 844, col: 5, offset: 27325},
 														expr: &actionExpr{
-															pos: position{line: 844, col: 6, offset: 27325},
+															pos: position{line: 844, col: 6, offset: 27326},
 															run: (*parser).callonListContinuationElement319,
 															expr: &seqExpr{
-																pos: position{line: 844, col: 6, offset: 27325},
+																pos: position{line: 844, col: 6, offset: 27326},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 844, col: 6, offset: 27325},
+																		pos: position{line: 844, col: 6, offset: 27326},
 																		expr: &choiceExpr{
-																			pos: position{line: 841, col: 29, offset: 27267},
+																			pos: position{line: 841, col: 29, offset: 27268},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 753, col: 5, offset: 24267},
+																					pos: position{line: 753, col: 5, offset: 24268},
 																					run: (*parser).callonListContinuationElement323,
 																					expr: &seqExpr{
-																						pos: position{line: 753, col: 5, offset: 24267},
+																						pos: position{line: 753, col: 5, offset: 24268},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 753, col: 5, offset: 24267},
+																								pos:   position{line: 753, col: 5, offset: 24268},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 753, col: 16, offset: 24278},
+																									pos: position{line: 753, col: 16, offset: 24279},
 																									run: (*parser).callonListContinuationElement326,
 																									expr: &seqExpr{
-																										pos: position{line: 753, col: 16, offset: 24278},
+																										pos: position{line: 753, col: 16, offset: 24279},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 753, col: 16, offset: 24278},
+																												pos:        position{line: 753, col: 16, offset: 24279},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 753, col: 23, offset: 24285},
+																												pos: position{line: 753, col: 23, offset: 24286},
 																												expr: &litMatcher{
-																													pos:        position{line: 753, col: 23, offset: 24285},
+																													pos:        position{line: 753, col: 23, offset: 24286},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -31398,12 +31398,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 755, col: 8, offset: 24369},
+																								pos: position{line: 755, col: 8, offset: 24370},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92410},
+																									pos: position{line: 2922, col: 10, offset: 92411},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92410},
+																										pos:        position{line: 2922, col: 10, offset: 92411},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -31412,28 +31412,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92808},
+																								pos: position{line: 2944, col: 8, offset: 92809},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92581},
+																										pos: position{line: 2931, col: 12, offset: 92582},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92582},
+																											pos: position{line: 2931, col: 13, offset: 92583},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92582},
+																													pos:        position{line: 2931, col: 13, offset: 92583},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92589},
+																													pos:        position{line: 2931, col: 20, offset: 92590},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92598},
+																													pos:        position{line: 2931, col: 29, offset: 92599},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -31442,9 +31442,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92758},
+																										pos: position{line: 2941, col: 8, offset: 92759},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92759,
+																											line: 2941, col: 9, offset: 92760,
 																										},
 																									},
 																								},
@@ -31453,39 +31453,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 845, col: 5, offset: 27355},
+																		pos:   position{line: 845, col: 5, offset: 27356},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 824, col: 5, offset: 26771},
+																			pos: position{line: 824, col: 5, offset: 26772},
 																			run: (*parser).callonListContinuationElement345,
 																			expr: &seqExpr{
-																				pos: position{line: 824, col: 5, offset: 26771},
+																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92744},
+																						pos: position{line: 2939, col: 11, offset: 92745},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92746,
+																							line: 2939, col: 13, offset: 92747,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 825, col: 5, offset: 26846},
+																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90936},
+																							pos: position{line: 2868, col: 13, offset: 90937},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90936},
+																								pos: position{line: 2868, col: 13, offset: 90937},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90936},
+																									pos:        position{line: 2868, col: 13, offset: 90937},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31495,28 +31495,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92808},
+																						pos: position{line: 2944, col: 8, offset: 92809},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92581},
+																								pos: position{line: 2931, col: 12, offset: 92582},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92582},
+																									pos: position{line: 2931, col: 13, offset: 92583},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92582},
+																											pos:        position{line: 2931, col: 13, offset: 92583},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92589},
+																											pos:        position{line: 2931, col: 20, offset: 92590},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92598},
+																											pos:        position{line: 2931, col: 29, offset: 92599},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31525,9 +31525,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92758},
+																								pos: position{line: 2941, col: 8, offset: 92759},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92759,
+																									line: 2941, col: 9, offset: 92760,
 																								},
 																							},
 																						},
@@ -31542,35 +31542,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 835, col: 5, offset: 27072},
+													pos: position{line: 835, col: 5, offset: 27073},
 													expr: &choiceExpr{
-														pos: position{line: 841, col: 29, offset: 27267},
+														pos: position{line: 841, col: 29, offset: 27268},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 753, col: 5, offset: 24267},
+																pos: position{line: 753, col: 5, offset: 24268},
 																run: (*parser).callonListContinuationElement363,
 																expr: &seqExpr{
-																	pos: position{line: 753, col: 5, offset: 24267},
+																	pos: position{line: 753, col: 5, offset: 24268},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 753, col: 5, offset: 24267},
+																			pos:   position{line: 753, col: 5, offset: 24268},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 753, col: 16, offset: 24278},
+																				pos: position{line: 753, col: 16, offset: 24279},
 																				run: (*parser).callonListContinuationElement366,
 																				expr: &seqExpr{
-																					pos: position{line: 753, col: 16, offset: 24278},
+																					pos: position{line: 753, col: 16, offset: 24279},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 753, col: 16, offset: 24278},
+																							pos:        position{line: 753, col: 16, offset: 24279},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 753, col: 23, offset: 24285},
+																							pos: position{line: 753, col: 23, offset: 24286},
 																							expr: &litMatcher{
-																								pos:        position{line: 753, col: 23, offset: 24285},
+																								pos:        position{line: 753, col: 23, offset: 24286},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -31581,12 +31581,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 755, col: 8, offset: 24369},
+																			pos: position{line: 755, col: 8, offset: 24370},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92410},
+																				pos: position{line: 2922, col: 10, offset: 92411},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92410},
+																					pos:        position{line: 2922, col: 10, offset: 92411},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31595,28 +31595,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92808},
+																			pos: position{line: 2944, col: 8, offset: 92809},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92581},
+																					pos: position{line: 2931, col: 12, offset: 92582},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92582},
+																						pos: position{line: 2931, col: 13, offset: 92583},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92582},
+																								pos:        position{line: 2931, col: 13, offset: 92583},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92589},
+																								pos:        position{line: 2931, col: 20, offset: 92590},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92598},
+																								pos:        position{line: 2931, col: 29, offset: 92599},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31625,9 +31625,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
@@ -31636,9 +31636,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92758},
+																pos: position{line: 2941, col: 8, offset: 92759},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92759,
+																	line: 2941, col: 9, offset: 92760,
 																},
 															},
 														},
@@ -31648,39 +31648,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 853, col: 5, offset: 27508},
+										pos: position{line: 853, col: 5, offset: 27509},
 										run: (*parser).callonListContinuationElement384,
 										expr: &seqExpr{
-											pos: position{line: 853, col: 5, offset: 27508},
+											pos: position{line: 853, col: 5, offset: 27509},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 853, col: 5, offset: 27508},
+													pos:   position{line: 853, col: 5, offset: 27509},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 760, col: 5, offset: 24515},
+														pos: position{line: 760, col: 5, offset: 24516},
 														run: (*parser).callonListContinuationElement387,
 														expr: &seqExpr{
-															pos: position{line: 760, col: 5, offset: 24515},
+															pos: position{line: 760, col: 5, offset: 24516},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 760, col: 5, offset: 24515},
+																	pos:   position{line: 760, col: 5, offset: 24516},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 760, col: 16, offset: 24526},
+																		pos: position{line: 760, col: 16, offset: 24527},
 																		run: (*parser).callonListContinuationElement390,
 																		expr: &seqExpr{
-																			pos: position{line: 760, col: 16, offset: 24526},
+																			pos: position{line: 760, col: 16, offset: 24527},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 760, col: 16, offset: 24526},
+																					pos:        position{line: 760, col: 16, offset: 24527},
 																					val:        "====",
 																					ignoreCase: false,
 																					want:       "\"====\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 760, col: 23, offset: 24533},
+																					pos: position{line: 760, col: 23, offset: 24534},
 																					expr: &litMatcher{
-																						pos:        position{line: 760, col: 23, offset: 24533},
+																						pos:        position{line: 760, col: 23, offset: 24534},
 																						val:        "=",
 																						ignoreCase: false,
 																						want:       "\"=\"",
@@ -31691,12 +31691,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 762, col: 8, offset: 24617},
+																	pos: position{line: 762, col: 8, offset: 24618},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92410},
+																		pos: position{line: 2922, col: 10, offset: 92411},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92410},
+																			pos:        position{line: 2922, col: 10, offset: 92411},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31705,28 +31705,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92808},
+																	pos: position{line: 2944, col: 8, offset: 92809},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92581},
+																			pos: position{line: 2931, col: 12, offset: 92582},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92582},
+																				pos: position{line: 2931, col: 13, offset: 92583},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92582},
+																						pos:        position{line: 2931, col: 13, offset: 92583},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92589},
+																						pos:        position{line: 2931, col: 20, offset: 92590},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92598},
+																						pos:        position{line: 2931, col: 29, offset: 92599},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31735,9 +31735,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92758},
+																			pos: position{line: 2941, col: 8, offset: 92759},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92759,
+																				line: 2941, col: 9, offset: 92760,
 																			},
 																		},
 																	},
@@ -31747,56 +31747,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 854, col: 5, offset: 27547},
+													pos: position{line: 854, col: 5, offset: 27548},
 													run: (*parser).callonListContinuationElement406,
 												},
 												&labeledExpr{
-													pos:   position{line: 857, col: 5, offset: 27639},
+													pos:   position{line: 857, col: 5, offset: 27640},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 872, col: 4, offset: 28036},
+														pos: position{line: 872, col: 4, offset: 28037},
 														expr: &actionExpr{
-															pos: position{line: 872, col: 5, offset: 28037},
+															pos: position{line: 872, col: 5, offset: 28038},
 															run: (*parser).callonListContinuationElement409,
 															expr: &seqExpr{
-																pos: position{line: 872, col: 5, offset: 28037},
+																pos: position{line: 872, col: 5, offset: 28038},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 872, col: 5, offset: 28037},
+																		pos: position{line: 872, col: 5, offset: 28038},
 																		expr: &choiceExpr{
-																			pos: position{line: 865, col: 5, offset: 27879},
+																			pos: position{line: 865, col: 5, offset: 27880},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 865, col: 5, offset: 27879},
+																					pos: position{line: 865, col: 5, offset: 27880},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 865, col: 5, offset: 27879},
+																							pos:   position{line: 865, col: 5, offset: 27880},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 760, col: 5, offset: 24515},
+																								pos: position{line: 760, col: 5, offset: 24516},
 																								run: (*parser).callonListContinuationElement415,
 																								expr: &seqExpr{
-																									pos: position{line: 760, col: 5, offset: 24515},
+																									pos: position{line: 760, col: 5, offset: 24516},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 760, col: 5, offset: 24515},
+																											pos:   position{line: 760, col: 5, offset: 24516},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 760, col: 16, offset: 24526},
+																												pos: position{line: 760, col: 16, offset: 24527},
 																												run: (*parser).callonListContinuationElement418,
 																												expr: &seqExpr{
-																													pos: position{line: 760, col: 16, offset: 24526},
+																													pos: position{line: 760, col: 16, offset: 24527},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 760, col: 16, offset: 24526},
+																															pos:        position{line: 760, col: 16, offset: 24527},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 760, col: 23, offset: 24533},
+																															pos: position{line: 760, col: 23, offset: 24534},
 																															expr: &litMatcher{
-																																pos:        position{line: 760, col: 23, offset: 24533},
+																																pos:        position{line: 760, col: 23, offset: 24534},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -31807,12 +31807,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 762, col: 8, offset: 24617},
+																											pos: position{line: 762, col: 8, offset: 24618},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92410},
+																												pos: position{line: 2922, col: 10, offset: 92411},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92410},
+																													pos:        position{line: 2922, col: 10, offset: 92411},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31821,28 +31821,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92808},
+																											pos: position{line: 2944, col: 8, offset: 92809},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92581},
+																													pos: position{line: 2931, col: 12, offset: 92582},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92582},
+																														pos: position{line: 2931, col: 13, offset: 92583},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92582},
+																																pos:        position{line: 2931, col: 13, offset: 92583},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92589},
+																																pos:        position{line: 2931, col: 20, offset: 92590},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92598},
+																																pos:        position{line: 2931, col: 29, offset: 92599},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31851,9 +31851,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92758},
+																													pos: position{line: 2941, col: 8, offset: 92759},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92759,
+																														line: 2941, col: 9, offset: 92760,
 																													},
 																												},
 																											},
@@ -31863,45 +31863,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 866, col: 5, offset: 27910},
+																							pos: position{line: 866, col: 5, offset: 27911},
 																							run: (*parser).callonListContinuationElement434,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 873, col: 5, offset: 28067},
+																		pos:   position{line: 873, col: 5, offset: 28068},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 824, col: 5, offset: 26771},
+																			pos: position{line: 824, col: 5, offset: 26772},
 																			run: (*parser).callonListContinuationElement438,
 																			expr: &seqExpr{
-																				pos: position{line: 824, col: 5, offset: 26771},
+																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92744},
+																						pos: position{line: 2939, col: 11, offset: 92745},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92746,
+																							line: 2939, col: 13, offset: 92747,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 825, col: 5, offset: 26846},
+																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90936},
+																							pos: position{line: 2868, col: 13, offset: 90937},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90936},
+																								pos: position{line: 2868, col: 13, offset: 90937},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90936},
+																									pos:        position{line: 2868, col: 13, offset: 90937},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31911,28 +31911,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92808},
+																						pos: position{line: 2944, col: 8, offset: 92809},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92581},
+																								pos: position{line: 2931, col: 12, offset: 92582},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92582},
+																									pos: position{line: 2931, col: 13, offset: 92583},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92582},
+																											pos:        position{line: 2931, col: 13, offset: 92583},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92589},
+																											pos:        position{line: 2931, col: 20, offset: 92590},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92598},
+																											pos:        position{line: 2931, col: 29, offset: 92599},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31941,9 +31941,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92758},
+																								pos: position{line: 2941, col: 8, offset: 92759},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92759,
+																									line: 2941, col: 9, offset: 92760,
 																								},
 																							},
 																						},
@@ -31958,44 +31958,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 858, col: 5, offset: 27673},
+													pos:   position{line: 858, col: 5, offset: 27674},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 858, col: 9, offset: 27677},
+														pos: position{line: 858, col: 9, offset: 27678},
 														expr: &choiceExpr{
-															pos: position{line: 865, col: 5, offset: 27879},
+															pos: position{line: 865, col: 5, offset: 27880},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 865, col: 5, offset: 27879},
+																	pos: position{line: 865, col: 5, offset: 27880},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 865, col: 5, offset: 27879},
+																			pos:   position{line: 865, col: 5, offset: 27880},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 760, col: 5, offset: 24515},
+																				pos: position{line: 760, col: 5, offset: 24516},
 																				run: (*parser).callonListContinuationElement459,
 																				expr: &seqExpr{
-																					pos: position{line: 760, col: 5, offset: 24515},
+																					pos: position{line: 760, col: 5, offset: 24516},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 760, col: 5, offset: 24515},
+																							pos:   position{line: 760, col: 5, offset: 24516},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 760, col: 16, offset: 24526},
+																								pos: position{line: 760, col: 16, offset: 24527},
 																								run: (*parser).callonListContinuationElement462,
 																								expr: &seqExpr{
-																									pos: position{line: 760, col: 16, offset: 24526},
+																									pos: position{line: 760, col: 16, offset: 24527},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 760, col: 16, offset: 24526},
+																											pos:        position{line: 760, col: 16, offset: 24527},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 760, col: 23, offset: 24533},
+																											pos: position{line: 760, col: 23, offset: 24534},
 																											expr: &litMatcher{
-																												pos:        position{line: 760, col: 23, offset: 24533},
+																												pos:        position{line: 760, col: 23, offset: 24534},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -32006,12 +32006,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 762, col: 8, offset: 24617},
+																							pos: position{line: 762, col: 8, offset: 24618},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92410},
+																								pos: position{line: 2922, col: 10, offset: 92411},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92410},
+																									pos:        position{line: 2922, col: 10, offset: 92411},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32020,28 +32020,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32050,9 +32050,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -32062,15 +32062,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 866, col: 5, offset: 27910},
+																			pos: position{line: 866, col: 5, offset: 27911},
 																			run: (*parser).callonListContinuationElement478,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92758},
+																	pos: position{line: 2941, col: 8, offset: 92759},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92759,
+																		line: 2941, col: 9, offset: 92760,
 																	},
 																},
 															},
@@ -32081,36 +32081,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 965, col: 5, offset: 30359},
+										pos: position{line: 965, col: 5, offset: 30360},
 										run: (*parser).callonListContinuationElement481,
 										expr: &seqExpr{
-											pos: position{line: 965, col: 5, offset: 30359},
+											pos: position{line: 965, col: 5, offset: 30360},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 965, col: 5, offset: 30359},
+													pos:   position{line: 965, col: 5, offset: 30360},
 													label: "delimiter",
 													expr: &actionExpr{
-														pos: position{line: 773, col: 26, offset: 25003},
+														pos: position{line: 773, col: 26, offset: 25004},
 														run: (*parser).callonListContinuationElement484,
 														expr: &seqExpr{
-															pos: position{line: 773, col: 26, offset: 25003},
+															pos: position{line: 773, col: 26, offset: 25004},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 773, col: 26, offset: 25003},
+																	pos:        position{line: 773, col: 26, offset: 25004},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 773, col: 32, offset: 25009},
+																	pos:   position{line: 773, col: 32, offset: 25010},
 																	label: "language",
 																	expr: &actionExpr{
-																		pos: position{line: 777, col: 13, offset: 25139},
+																		pos: position{line: 777, col: 13, offset: 25140},
 																		run: (*parser).callonListContinuationElement488,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 777, col: 14, offset: 25140},
+																			pos: position{line: 777, col: 14, offset: 25141},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 777, col: 14, offset: 25140},
+																				pos:        position{line: 777, col: 14, offset: 25141},
 																				val:        "[^\\r\\n` ]",
 																				chars:      []rune{'\r', '\n', '`', ' '},
 																				ignoreCase: false,
@@ -32120,12 +32120,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 773, col: 52, offset: 25029},
+																	pos: position{line: 773, col: 52, offset: 25030},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92410},
+																		pos: position{line: 2922, col: 10, offset: 92411},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92410},
+																			pos:        position{line: 2922, col: 10, offset: 92411},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32134,28 +32134,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92808},
+																	pos: position{line: 2944, col: 8, offset: 92809},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92581},
+																			pos: position{line: 2931, col: 12, offset: 92582},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92582},
+																				pos: position{line: 2931, col: 13, offset: 92583},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92582},
+																						pos:        position{line: 2931, col: 13, offset: 92583},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92589},
+																						pos:        position{line: 2931, col: 20, offset: 92590},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92598},
+																						pos:        position{line: 2931, col: 29, offset: 92599},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32164,9 +32164,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92758},
+																			pos: position{line: 2941, col: 8, offset: 92759},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92759,
+																				line: 2941, col: 9, offset: 92760,
 																			},
 																		},
 																	},
@@ -32176,34 +32176,34 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 966, col: 5, offset: 30405},
+													pos:   position{line: 966, col: 5, offset: 30406},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 979, col: 5, offset: 30878},
+														pos: position{line: 979, col: 5, offset: 30879},
 														expr: &actionExpr{
-															pos: position{line: 979, col: 6, offset: 30879},
+															pos: position{line: 979, col: 6, offset: 30880},
 															run: (*parser).callonListContinuationElement504,
 															expr: &seqExpr{
-																pos: position{line: 979, col: 6, offset: 30879},
+																pos: position{line: 979, col: 6, offset: 30880},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 979, col: 6, offset: 30879},
+																		pos: position{line: 979, col: 6, offset: 30880},
 																		expr: &seqExpr{
-																			pos: position{line: 976, col: 34, offset: 30826},
+																			pos: position{line: 976, col: 34, offset: 30827},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 976, col: 34, offset: 30826},
+																					pos:        position{line: 976, col: 34, offset: 30827},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 976, col: 40, offset: 30832},
+																					pos: position{line: 976, col: 40, offset: 30833},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92410},
+																						pos: position{line: 2922, col: 10, offset: 92411},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92410},
+																							pos:        position{line: 2922, col: 10, offset: 92411},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32212,28 +32212,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92808},
+																					pos: position{line: 2944, col: 8, offset: 92809},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92581},
+																							pos: position{line: 2931, col: 12, offset: 92582},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92582},
+																								pos: position{line: 2931, col: 13, offset: 92583},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92582},
+																										pos:        position{line: 2931, col: 13, offset: 92583},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92589},
+																										pos:        position{line: 2931, col: 20, offset: 92590},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92598},
+																										pos:        position{line: 2931, col: 29, offset: 92599},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32242,9 +32242,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92758},
+																							pos: position{line: 2941, col: 8, offset: 92759},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92759,
+																								line: 2941, col: 9, offset: 92760,
 																							},
 																						},
 																					},
@@ -32253,30 +32253,30 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 980, col: 5, offset: 30914},
+																		pos:   position{line: 980, col: 5, offset: 30915},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 824, col: 5, offset: 26771},
+																			pos: position{line: 824, col: 5, offset: 26772},
 																			run: (*parser).callonListContinuationElement521,
 																			expr: &seqExpr{
-																				pos: position{line: 824, col: 5, offset: 26771},
+																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92744},
+																						pos: position{line: 2939, col: 11, offset: 92745},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92746,
+																							line: 2939, col: 13, offset: 92747,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 825, col: 5, offset: 26846},
+																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90936},
+																							pos: position{line: 2868, col: 13, offset: 90937},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90936},
+																								pos: position{line: 2868, col: 13, offset: 90937},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90936},
+																									pos:        position{line: 2868, col: 13, offset: 90937},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32286,28 +32286,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92808},
+																						pos: position{line: 2944, col: 8, offset: 92809},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92581},
+																								pos: position{line: 2931, col: 12, offset: 92582},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92582},
+																									pos: position{line: 2931, col: 13, offset: 92583},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92582},
+																											pos:        position{line: 2931, col: 13, offset: 92583},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92589},
+																											pos:        position{line: 2931, col: 20, offset: 92590},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92598},
+																											pos:        position{line: 2931, col: 29, offset: 92599},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32316,9 +32316,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92758},
+																								pos: position{line: 2941, col: 8, offset: 92759},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92759,
+																									line: 2941, col: 9, offset: 92760,
 																								},
 																							},
 																						},
@@ -32333,23 +32333,23 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 967, col: 5, offset: 30444},
+													pos: position{line: 967, col: 5, offset: 30445},
 													expr: &seqExpr{
-														pos: position{line: 976, col: 34, offset: 30826},
+														pos: position{line: 976, col: 34, offset: 30827},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 976, col: 34, offset: 30826},
+																pos:        position{line: 976, col: 34, offset: 30827},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 976, col: 40, offset: 30832},
+																pos: position{line: 976, col: 40, offset: 30833},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92410},
+																	pos: position{line: 2922, col: 10, offset: 92411},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92410},
+																		pos:        position{line: 2922, col: 10, offset: 92411},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32358,28 +32358,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92808},
+																pos: position{line: 2944, col: 8, offset: 92809},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92581},
+																		pos: position{line: 2931, col: 12, offset: 92582},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92582},
+																			pos: position{line: 2931, col: 13, offset: 92583},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92582},
+																					pos:        position{line: 2931, col: 13, offset: 92583},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92589},
+																					pos:        position{line: 2931, col: 20, offset: 92590},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92598},
+																					pos:        position{line: 2931, col: 29, offset: 92599},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32388,9 +32388,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92758},
+																		pos: position{line: 2941, col: 8, offset: 92759},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92759,
+																			line: 2941, col: 9, offset: 92760,
 																		},
 																	},
 																},
@@ -32402,39 +32402,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 881, col: 5, offset: 28220},
+										pos: position{line: 881, col: 5, offset: 28221},
 										run: (*parser).callonListContinuationElement551,
 										expr: &seqExpr{
-											pos: position{line: 881, col: 5, offset: 28220},
+											pos: position{line: 881, col: 5, offset: 28221},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 881, col: 5, offset: 28220},
+													pos:   position{line: 881, col: 5, offset: 28221},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 767, col: 5, offset: 24762},
+														pos: position{line: 767, col: 5, offset: 24763},
 														run: (*parser).callonListContinuationElement554,
 														expr: &seqExpr{
-															pos: position{line: 767, col: 5, offset: 24762},
+															pos: position{line: 767, col: 5, offset: 24763},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 767, col: 5, offset: 24762},
+																	pos:   position{line: 767, col: 5, offset: 24763},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 767, col: 16, offset: 24773},
+																		pos: position{line: 767, col: 16, offset: 24774},
 																		run: (*parser).callonListContinuationElement557,
 																		expr: &seqExpr{
-																			pos: position{line: 767, col: 16, offset: 24773},
+																			pos: position{line: 767, col: 16, offset: 24774},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 767, col: 16, offset: 24773},
+																					pos:        position{line: 767, col: 16, offset: 24774},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 767, col: 22, offset: 24779},
+																					pos: position{line: 767, col: 22, offset: 24780},
 																					expr: &litMatcher{
-																						pos:        position{line: 767, col: 22, offset: 24779},
+																						pos:        position{line: 767, col: 22, offset: 24780},
 																						val:        "`",
 																						ignoreCase: false,
 																						want:       "\"`\"",
@@ -32445,12 +32445,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 769, col: 8, offset: 24863},
+																	pos: position{line: 769, col: 8, offset: 24864},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92410},
+																		pos: position{line: 2922, col: 10, offset: 92411},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92410},
+																			pos:        position{line: 2922, col: 10, offset: 92411},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32459,28 +32459,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92808},
+																	pos: position{line: 2944, col: 8, offset: 92809},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92581},
+																			pos: position{line: 2931, col: 12, offset: 92582},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92582},
+																				pos: position{line: 2931, col: 13, offset: 92583},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92582},
+																						pos:        position{line: 2931, col: 13, offset: 92583},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92589},
+																						pos:        position{line: 2931, col: 20, offset: 92590},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92598},
+																						pos:        position{line: 2931, col: 29, offset: 92599},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32489,9 +32489,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92758},
+																			pos: position{line: 2941, col: 8, offset: 92759},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92759,
+																				line: 2941, col: 9, offset: 92760,
 																			},
 																		},
 																	},
@@ -32501,56 +32501,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 882, col: 5, offset: 28258},
+													pos: position{line: 882, col: 5, offset: 28259},
 													run: (*parser).callonListContinuationElement573,
 												},
 												&labeledExpr{
-													pos:   position{line: 885, col: 5, offset: 28350},
+													pos:   position{line: 885, col: 5, offset: 28351},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 900, col: 5, offset: 28740},
+														pos: position{line: 900, col: 5, offset: 28741},
 														expr: &actionExpr{
-															pos: position{line: 900, col: 6, offset: 28741},
+															pos: position{line: 900, col: 6, offset: 28742},
 															run: (*parser).callonListContinuationElement576,
 															expr: &seqExpr{
-																pos: position{line: 900, col: 6, offset: 28741},
+																pos: position{line: 900, col: 6, offset: 28742},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 900, col: 6, offset: 28741},
+																		pos: position{line: 900, col: 6, offset: 28742},
 																		expr: &choiceExpr{
-																			pos: position{line: 893, col: 5, offset: 28584},
+																			pos: position{line: 893, col: 5, offset: 28585},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 893, col: 5, offset: 28584},
+																					pos: position{line: 893, col: 5, offset: 28585},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 893, col: 5, offset: 28584},
+																							pos:   position{line: 893, col: 5, offset: 28585},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 767, col: 5, offset: 24762},
+																								pos: position{line: 767, col: 5, offset: 24763},
 																								run: (*parser).callonListContinuationElement582,
 																								expr: &seqExpr{
-																									pos: position{line: 767, col: 5, offset: 24762},
+																									pos: position{line: 767, col: 5, offset: 24763},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 767, col: 5, offset: 24762},
+																											pos:   position{line: 767, col: 5, offset: 24763},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 767, col: 16, offset: 24773},
+																												pos: position{line: 767, col: 16, offset: 24774},
 																												run: (*parser).callonListContinuationElement585,
 																												expr: &seqExpr{
-																													pos: position{line: 767, col: 16, offset: 24773},
+																													pos: position{line: 767, col: 16, offset: 24774},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 767, col: 16, offset: 24773},
+																															pos:        position{line: 767, col: 16, offset: 24774},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 767, col: 22, offset: 24779},
+																															pos: position{line: 767, col: 22, offset: 24780},
 																															expr: &litMatcher{
-																																pos:        position{line: 767, col: 22, offset: 24779},
+																																pos:        position{line: 767, col: 22, offset: 24780},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -32561,12 +32561,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 8, offset: 24863},
+																											pos: position{line: 769, col: 8, offset: 24864},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92410},
+																												pos: position{line: 2922, col: 10, offset: 92411},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92410},
+																													pos:        position{line: 2922, col: 10, offset: 92411},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32575,28 +32575,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92808},
+																											pos: position{line: 2944, col: 8, offset: 92809},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92581},
+																													pos: position{line: 2931, col: 12, offset: 92582},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92582},
+																														pos: position{line: 2931, col: 13, offset: 92583},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92582},
+																																pos:        position{line: 2931, col: 13, offset: 92583},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92589},
+																																pos:        position{line: 2931, col: 20, offset: 92590},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92598},
+																																pos:        position{line: 2931, col: 29, offset: 92599},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32605,9 +32605,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92758},
+																													pos: position{line: 2941, col: 8, offset: 92759},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92759,
+																														line: 2941, col: 9, offset: 92760,
 																													},
 																												},
 																											},
@@ -32617,45 +32617,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 894, col: 5, offset: 28614},
+																							pos: position{line: 894, col: 5, offset: 28615},
 																							run: (*parser).callonListContinuationElement601,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 901, col: 5, offset: 28770},
+																		pos:   position{line: 901, col: 5, offset: 28771},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 824, col: 5, offset: 26771},
+																			pos: position{line: 824, col: 5, offset: 26772},
 																			run: (*parser).callonListContinuationElement605,
 																			expr: &seqExpr{
-																				pos: position{line: 824, col: 5, offset: 26771},
+																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92744},
+																						pos: position{line: 2939, col: 11, offset: 92745},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92746,
+																							line: 2939, col: 13, offset: 92747,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 825, col: 5, offset: 26846},
+																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90936},
+																							pos: position{line: 2868, col: 13, offset: 90937},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90936},
+																								pos: position{line: 2868, col: 13, offset: 90937},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90936},
+																									pos:        position{line: 2868, col: 13, offset: 90937},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32665,28 +32665,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92808},
+																						pos: position{line: 2944, col: 8, offset: 92809},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92581},
+																								pos: position{line: 2931, col: 12, offset: 92582},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92582},
+																									pos: position{line: 2931, col: 13, offset: 92583},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92582},
+																											pos:        position{line: 2931, col: 13, offset: 92583},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92589},
+																											pos:        position{line: 2931, col: 20, offset: 92590},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92598},
+																											pos:        position{line: 2931, col: 29, offset: 92599},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32695,9 +32695,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92758},
+																								pos: position{line: 2941, col: 8, offset: 92759},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92759,
+																									line: 2941, col: 9, offset: 92760,
 																								},
 																							},
 																						},
@@ -32712,44 +32712,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 886, col: 5, offset: 28383},
+													pos:   position{line: 886, col: 5, offset: 28384},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 886, col: 9, offset: 28387},
+														pos: position{line: 886, col: 9, offset: 28388},
 														expr: &choiceExpr{
-															pos: position{line: 893, col: 5, offset: 28584},
+															pos: position{line: 893, col: 5, offset: 28585},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 893, col: 5, offset: 28584},
+																	pos: position{line: 893, col: 5, offset: 28585},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 893, col: 5, offset: 28584},
+																			pos:   position{line: 893, col: 5, offset: 28585},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 767, col: 5, offset: 24762},
+																				pos: position{line: 767, col: 5, offset: 24763},
 																				run: (*parser).callonListContinuationElement626,
 																				expr: &seqExpr{
-																					pos: position{line: 767, col: 5, offset: 24762},
+																					pos: position{line: 767, col: 5, offset: 24763},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 767, col: 5, offset: 24762},
+																							pos:   position{line: 767, col: 5, offset: 24763},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 767, col: 16, offset: 24773},
+																								pos: position{line: 767, col: 16, offset: 24774},
 																								run: (*parser).callonListContinuationElement629,
 																								expr: &seqExpr{
-																									pos: position{line: 767, col: 16, offset: 24773},
+																									pos: position{line: 767, col: 16, offset: 24774},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 767, col: 16, offset: 24773},
+																											pos:        position{line: 767, col: 16, offset: 24774},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 767, col: 22, offset: 24779},
+																											pos: position{line: 767, col: 22, offset: 24780},
 																											expr: &litMatcher{
-																												pos:        position{line: 767, col: 22, offset: 24779},
+																												pos:        position{line: 767, col: 22, offset: 24780},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -32760,12 +32760,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 769, col: 8, offset: 24863},
+																							pos: position{line: 769, col: 8, offset: 24864},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92410},
+																								pos: position{line: 2922, col: 10, offset: 92411},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92410},
+																									pos:        position{line: 2922, col: 10, offset: 92411},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32774,28 +32774,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32804,9 +32804,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -32816,15 +32816,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 894, col: 5, offset: 28614},
+																			pos: position{line: 894, col: 5, offset: 28615},
 																			run: (*parser).callonListContinuationElement645,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92758},
+																	pos: position{line: 2941, col: 8, offset: 92759},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92759,
+																		line: 2941, col: 9, offset: 92760,
 																	},
 																},
 															},
@@ -32835,39 +32835,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 909, col: 5, offset: 28925},
+										pos: position{line: 909, col: 5, offset: 28926},
 										run: (*parser).callonListContinuationElement648,
 										expr: &seqExpr{
-											pos: position{line: 909, col: 5, offset: 28925},
+											pos: position{line: 909, col: 5, offset: 28926},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 909, col: 5, offset: 28925},
+													pos:   position{line: 909, col: 5, offset: 28926},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 782, col: 5, offset: 25299},
+														pos: position{line: 782, col: 5, offset: 25300},
 														run: (*parser).callonListContinuationElement651,
 														expr: &seqExpr{
-															pos: position{line: 782, col: 5, offset: 25299},
+															pos: position{line: 782, col: 5, offset: 25300},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 782, col: 5, offset: 25299},
+																	pos:   position{line: 782, col: 5, offset: 25300},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 782, col: 16, offset: 25310},
+																		pos: position{line: 782, col: 16, offset: 25311},
 																		run: (*parser).callonListContinuationElement654,
 																		expr: &seqExpr{
-																			pos: position{line: 782, col: 16, offset: 25310},
+																			pos: position{line: 782, col: 16, offset: 25311},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 782, col: 16, offset: 25310},
+																					pos:        position{line: 782, col: 16, offset: 25311},
 																					val:        "----",
 																					ignoreCase: false,
 																					want:       "\"----\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 782, col: 23, offset: 25317},
+																					pos: position{line: 782, col: 23, offset: 25318},
 																					expr: &litMatcher{
-																						pos:        position{line: 782, col: 23, offset: 25317},
+																						pos:        position{line: 782, col: 23, offset: 25318},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
@@ -32878,12 +32878,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 784, col: 8, offset: 25401},
+																	pos: position{line: 784, col: 8, offset: 25402},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92410},
+																		pos: position{line: 2922, col: 10, offset: 92411},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92410},
+																			pos:        position{line: 2922, col: 10, offset: 92411},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32892,28 +32892,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92808},
+																	pos: position{line: 2944, col: 8, offset: 92809},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92581},
+																			pos: position{line: 2931, col: 12, offset: 92582},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92582},
+																				pos: position{line: 2931, col: 13, offset: 92583},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92582},
+																						pos:        position{line: 2931, col: 13, offset: 92583},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92589},
+																						pos:        position{line: 2931, col: 20, offset: 92590},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92598},
+																						pos:        position{line: 2931, col: 29, offset: 92599},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32922,9 +32922,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92758},
+																			pos: position{line: 2941, col: 8, offset: 92759},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92759,
+																				line: 2941, col: 9, offset: 92760,
 																			},
 																		},
 																	},
@@ -32934,56 +32934,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 910, col: 5, offset: 28964},
+													pos: position{line: 910, col: 5, offset: 28965},
 													run: (*parser).callonListContinuationElement670,
 												},
 												&labeledExpr{
-													pos:   position{line: 913, col: 5, offset: 29056},
+													pos:   position{line: 913, col: 5, offset: 29057},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 928, col: 5, offset: 29454},
+														pos: position{line: 928, col: 5, offset: 29455},
 														expr: &actionExpr{
-															pos: position{line: 928, col: 6, offset: 29455},
+															pos: position{line: 928, col: 6, offset: 29456},
 															run: (*parser).callonListContinuationElement673,
 															expr: &seqExpr{
-																pos: position{line: 928, col: 6, offset: 29455},
+																pos: position{line: 928, col: 6, offset: 29456},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 928, col: 6, offset: 29455},
+																		pos: position{line: 928, col: 6, offset: 29456},
 																		expr: &choiceExpr{
-																			pos: position{line: 921, col: 5, offset: 29296},
+																			pos: position{line: 921, col: 5, offset: 29297},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 921, col: 5, offset: 29296},
+																					pos: position{line: 921, col: 5, offset: 29297},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 921, col: 5, offset: 29296},
+																							pos:   position{line: 921, col: 5, offset: 29297},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 782, col: 5, offset: 25299},
+																								pos: position{line: 782, col: 5, offset: 25300},
 																								run: (*parser).callonListContinuationElement679,
 																								expr: &seqExpr{
-																									pos: position{line: 782, col: 5, offset: 25299},
+																									pos: position{line: 782, col: 5, offset: 25300},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 782, col: 5, offset: 25299},
+																											pos:   position{line: 782, col: 5, offset: 25300},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 782, col: 16, offset: 25310},
+																												pos: position{line: 782, col: 16, offset: 25311},
 																												run: (*parser).callonListContinuationElement682,
 																												expr: &seqExpr{
-																													pos: position{line: 782, col: 16, offset: 25310},
+																													pos: position{line: 782, col: 16, offset: 25311},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 782, col: 16, offset: 25310},
+																															pos:        position{line: 782, col: 16, offset: 25311},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 782, col: 23, offset: 25317},
+																															pos: position{line: 782, col: 23, offset: 25318},
 																															expr: &litMatcher{
-																																pos:        position{line: 782, col: 23, offset: 25317},
+																																pos:        position{line: 782, col: 23, offset: 25318},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -32994,12 +32994,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 784, col: 8, offset: 25401},
+																											pos: position{line: 784, col: 8, offset: 25402},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92410},
+																												pos: position{line: 2922, col: 10, offset: 92411},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92410},
+																													pos:        position{line: 2922, col: 10, offset: 92411},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33008,28 +33008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92808},
+																											pos: position{line: 2944, col: 8, offset: 92809},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92581},
+																													pos: position{line: 2931, col: 12, offset: 92582},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92582},
+																														pos: position{line: 2931, col: 13, offset: 92583},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92582},
+																																pos:        position{line: 2931, col: 13, offset: 92583},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92589},
+																																pos:        position{line: 2931, col: 20, offset: 92590},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92598},
+																																pos:        position{line: 2931, col: 29, offset: 92599},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33038,9 +33038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92758},
+																													pos: position{line: 2941, col: 8, offset: 92759},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92759,
+																														line: 2941, col: 9, offset: 92760,
 																													},
 																												},
 																											},
@@ -33050,45 +33050,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 922, col: 5, offset: 29327},
+																							pos: position{line: 922, col: 5, offset: 29328},
 																							run: (*parser).callonListContinuationElement698,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 929, col: 5, offset: 29485},
+																		pos:   position{line: 929, col: 5, offset: 29486},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 824, col: 5, offset: 26771},
+																			pos: position{line: 824, col: 5, offset: 26772},
 																			run: (*parser).callonListContinuationElement702,
 																			expr: &seqExpr{
-																				pos: position{line: 824, col: 5, offset: 26771},
+																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92744},
+																						pos: position{line: 2939, col: 11, offset: 92745},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92746,
+																							line: 2939, col: 13, offset: 92747,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 825, col: 5, offset: 26846},
+																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90936},
+																							pos: position{line: 2868, col: 13, offset: 90937},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90936},
+																								pos: position{line: 2868, col: 13, offset: 90937},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90936},
+																									pos:        position{line: 2868, col: 13, offset: 90937},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33098,28 +33098,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92808},
+																						pos: position{line: 2944, col: 8, offset: 92809},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92581},
+																								pos: position{line: 2931, col: 12, offset: 92582},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92582},
+																									pos: position{line: 2931, col: 13, offset: 92583},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92582},
+																											pos:        position{line: 2931, col: 13, offset: 92583},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92589},
+																											pos:        position{line: 2931, col: 20, offset: 92590},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92598},
+																											pos:        position{line: 2931, col: 29, offset: 92599},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33128,9 +33128,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92758},
+																								pos: position{line: 2941, col: 8, offset: 92759},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92759,
+																									line: 2941, col: 9, offset: 92760,
 																								},
 																							},
 																						},
@@ -33145,44 +33145,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 914, col: 5, offset: 29090},
+													pos:   position{line: 914, col: 5, offset: 29091},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 914, col: 9, offset: 29094},
+														pos: position{line: 914, col: 9, offset: 29095},
 														expr: &choiceExpr{
-															pos: position{line: 921, col: 5, offset: 29296},
+															pos: position{line: 921, col: 5, offset: 29297},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 921, col: 5, offset: 29296},
+																	pos: position{line: 921, col: 5, offset: 29297},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 921, col: 5, offset: 29296},
+																			pos:   position{line: 921, col: 5, offset: 29297},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 782, col: 5, offset: 25299},
+																				pos: position{line: 782, col: 5, offset: 25300},
 																				run: (*parser).callonListContinuationElement723,
 																				expr: &seqExpr{
-																					pos: position{line: 782, col: 5, offset: 25299},
+																					pos: position{line: 782, col: 5, offset: 25300},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 782, col: 5, offset: 25299},
+																							pos:   position{line: 782, col: 5, offset: 25300},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 782, col: 16, offset: 25310},
+																								pos: position{line: 782, col: 16, offset: 25311},
 																								run: (*parser).callonListContinuationElement726,
 																								expr: &seqExpr{
-																									pos: position{line: 782, col: 16, offset: 25310},
+																									pos: position{line: 782, col: 16, offset: 25311},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 782, col: 16, offset: 25310},
+																											pos:        position{line: 782, col: 16, offset: 25311},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 782, col: 23, offset: 25317},
+																											pos: position{line: 782, col: 23, offset: 25318},
 																											expr: &litMatcher{
-																												pos:        position{line: 782, col: 23, offset: 25317},
+																												pos:        position{line: 782, col: 23, offset: 25318},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -33193,12 +33193,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 784, col: 8, offset: 25401},
+																							pos: position{line: 784, col: 8, offset: 25402},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92410},
+																								pos: position{line: 2922, col: 10, offset: 92411},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92410},
+																									pos:        position{line: 2922, col: 10, offset: 92411},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33207,28 +33207,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33237,9 +33237,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -33249,15 +33249,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 922, col: 5, offset: 29327},
+																			pos: position{line: 922, col: 5, offset: 29328},
 																			run: (*parser).callonListContinuationElement742,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92758},
+																	pos: position{line: 2941, col: 8, offset: 92759},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92759,
+																		line: 2941, col: 9, offset: 92760,
 																	},
 																},
 															},
@@ -33268,39 +33268,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 937, col: 5, offset: 29640},
+										pos: position{line: 937, col: 5, offset: 29641},
 										run: (*parser).callonListContinuationElement745,
 										expr: &seqExpr{
-											pos: position{line: 937, col: 5, offset: 29640},
+											pos: position{line: 937, col: 5, offset: 29641},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 937, col: 5, offset: 29640},
+													pos:   position{line: 937, col: 5, offset: 29641},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 796, col: 5, offset: 25775},
+														pos: position{line: 796, col: 5, offset: 25776},
 														run: (*parser).callonListContinuationElement748,
 														expr: &seqExpr{
-															pos: position{line: 796, col: 5, offset: 25775},
+															pos: position{line: 796, col: 5, offset: 25776},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 796, col: 5, offset: 25775},
+																	pos:   position{line: 796, col: 5, offset: 25776},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 796, col: 16, offset: 25786},
+																		pos: position{line: 796, col: 16, offset: 25787},
 																		run: (*parser).callonListContinuationElement751,
 																		expr: &seqExpr{
-																			pos: position{line: 796, col: 16, offset: 25786},
+																			pos: position{line: 796, col: 16, offset: 25787},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 796, col: 16, offset: 25786},
+																					pos:        position{line: 796, col: 16, offset: 25787},
 																					val:        "....",
 																					ignoreCase: false,
 																					want:       "\"....\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 796, col: 23, offset: 25793},
+																					pos: position{line: 796, col: 23, offset: 25794},
 																					expr: &litMatcher{
-																						pos:        position{line: 796, col: 23, offset: 25793},
+																						pos:        position{line: 796, col: 23, offset: 25794},
 																						val:        ".",
 																						ignoreCase: false,
 																						want:       "\".\"",
@@ -33311,12 +33311,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 798, col: 8, offset: 25877},
+																	pos: position{line: 798, col: 8, offset: 25878},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92410},
+																		pos: position{line: 2922, col: 10, offset: 92411},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92410},
+																			pos:        position{line: 2922, col: 10, offset: 92411},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33325,28 +33325,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92808},
+																	pos: position{line: 2944, col: 8, offset: 92809},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92581},
+																			pos: position{line: 2931, col: 12, offset: 92582},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92582},
+																				pos: position{line: 2931, col: 13, offset: 92583},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92582},
+																						pos:        position{line: 2931, col: 13, offset: 92583},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92589},
+																						pos:        position{line: 2931, col: 20, offset: 92590},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92598},
+																						pos:        position{line: 2931, col: 29, offset: 92599},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33355,9 +33355,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92758},
+																			pos: position{line: 2941, col: 8, offset: 92759},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92759,
+																				line: 2941, col: 9, offset: 92760,
 																			},
 																		},
 																	},
@@ -33367,56 +33367,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 938, col: 5, offset: 29679},
+													pos: position{line: 938, col: 5, offset: 29680},
 													run: (*parser).callonListContinuationElement767,
 												},
 												&labeledExpr{
-													pos:   position{line: 941, col: 5, offset: 29771},
+													pos:   position{line: 941, col: 5, offset: 29772},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 956, col: 5, offset: 30169},
+														pos: position{line: 956, col: 5, offset: 30170},
 														expr: &actionExpr{
-															pos: position{line: 956, col: 6, offset: 30170},
+															pos: position{line: 956, col: 6, offset: 30171},
 															run: (*parser).callonListContinuationElement770,
 															expr: &seqExpr{
-																pos: position{line: 956, col: 6, offset: 30170},
+																pos: position{line: 956, col: 6, offset: 30171},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 956, col: 6, offset: 30170},
+																		pos: position{line: 956, col: 6, offset: 30171},
 																		expr: &choiceExpr{
-																			pos: position{line: 949, col: 5, offset: 30011},
+																			pos: position{line: 949, col: 5, offset: 30012},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 949, col: 5, offset: 30011},
+																					pos: position{line: 949, col: 5, offset: 30012},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 949, col: 5, offset: 30011},
+																							pos:   position{line: 949, col: 5, offset: 30012},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 796, col: 5, offset: 25775},
+																								pos: position{line: 796, col: 5, offset: 25776},
 																								run: (*parser).callonListContinuationElement776,
 																								expr: &seqExpr{
-																									pos: position{line: 796, col: 5, offset: 25775},
+																									pos: position{line: 796, col: 5, offset: 25776},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 796, col: 5, offset: 25775},
+																											pos:   position{line: 796, col: 5, offset: 25776},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 796, col: 16, offset: 25786},
+																												pos: position{line: 796, col: 16, offset: 25787},
 																												run: (*parser).callonListContinuationElement779,
 																												expr: &seqExpr{
-																													pos: position{line: 796, col: 16, offset: 25786},
+																													pos: position{line: 796, col: 16, offset: 25787},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 796, col: 16, offset: 25786},
+																															pos:        position{line: 796, col: 16, offset: 25787},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 796, col: 23, offset: 25793},
+																															pos: position{line: 796, col: 23, offset: 25794},
 																															expr: &litMatcher{
-																																pos:        position{line: 796, col: 23, offset: 25793},
+																																pos:        position{line: 796, col: 23, offset: 25794},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -33427,12 +33427,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 798, col: 8, offset: 25877},
+																											pos: position{line: 798, col: 8, offset: 25878},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92410},
+																												pos: position{line: 2922, col: 10, offset: 92411},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92410},
+																													pos:        position{line: 2922, col: 10, offset: 92411},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33441,28 +33441,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92808},
+																											pos: position{line: 2944, col: 8, offset: 92809},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92581},
+																													pos: position{line: 2931, col: 12, offset: 92582},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92582},
+																														pos: position{line: 2931, col: 13, offset: 92583},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92582},
+																																pos:        position{line: 2931, col: 13, offset: 92583},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92589},
+																																pos:        position{line: 2931, col: 20, offset: 92590},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92598},
+																																pos:        position{line: 2931, col: 29, offset: 92599},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33471,9 +33471,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92758},
+																													pos: position{line: 2941, col: 8, offset: 92759},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92759,
+																														line: 2941, col: 9, offset: 92760,
 																													},
 																												},
 																											},
@@ -33483,45 +33483,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 950, col: 5, offset: 30042},
+																							pos: position{line: 950, col: 5, offset: 30043},
 																							run: (*parser).callonListContinuationElement795,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 957, col: 5, offset: 30200},
+																		pos:   position{line: 957, col: 5, offset: 30201},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 824, col: 5, offset: 26771},
+																			pos: position{line: 824, col: 5, offset: 26772},
 																			run: (*parser).callonListContinuationElement799,
 																			expr: &seqExpr{
-																				pos: position{line: 824, col: 5, offset: 26771},
+																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92744},
+																						pos: position{line: 2939, col: 11, offset: 92745},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92746,
+																							line: 2939, col: 13, offset: 92747,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 825, col: 5, offset: 26846},
+																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90936},
+																							pos: position{line: 2868, col: 13, offset: 90937},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90936},
+																								pos: position{line: 2868, col: 13, offset: 90937},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90936},
+																									pos:        position{line: 2868, col: 13, offset: 90937},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33531,28 +33531,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92808},
+																						pos: position{line: 2944, col: 8, offset: 92809},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92581},
+																								pos: position{line: 2931, col: 12, offset: 92582},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92582},
+																									pos: position{line: 2931, col: 13, offset: 92583},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92582},
+																											pos:        position{line: 2931, col: 13, offset: 92583},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92589},
+																											pos:        position{line: 2931, col: 20, offset: 92590},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92598},
+																											pos:        position{line: 2931, col: 29, offset: 92599},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33561,9 +33561,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92758},
+																								pos: position{line: 2941, col: 8, offset: 92759},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92759,
+																									line: 2941, col: 9, offset: 92760,
 																								},
 																							},
 																						},
@@ -33578,44 +33578,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 942, col: 5, offset: 29805},
+													pos:   position{line: 942, col: 5, offset: 29806},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 942, col: 9, offset: 29809},
+														pos: position{line: 942, col: 9, offset: 29810},
 														expr: &choiceExpr{
-															pos: position{line: 949, col: 5, offset: 30011},
+															pos: position{line: 949, col: 5, offset: 30012},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 949, col: 5, offset: 30011},
+																	pos: position{line: 949, col: 5, offset: 30012},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 949, col: 5, offset: 30011},
+																			pos:   position{line: 949, col: 5, offset: 30012},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 796, col: 5, offset: 25775},
+																				pos: position{line: 796, col: 5, offset: 25776},
 																				run: (*parser).callonListContinuationElement820,
 																				expr: &seqExpr{
-																					pos: position{line: 796, col: 5, offset: 25775},
+																					pos: position{line: 796, col: 5, offset: 25776},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 796, col: 5, offset: 25775},
+																							pos:   position{line: 796, col: 5, offset: 25776},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 796, col: 16, offset: 25786},
+																								pos: position{line: 796, col: 16, offset: 25787},
 																								run: (*parser).callonListContinuationElement823,
 																								expr: &seqExpr{
-																									pos: position{line: 796, col: 16, offset: 25786},
+																									pos: position{line: 796, col: 16, offset: 25787},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 796, col: 16, offset: 25786},
+																											pos:        position{line: 796, col: 16, offset: 25787},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 796, col: 23, offset: 25793},
+																											pos: position{line: 796, col: 23, offset: 25794},
 																											expr: &litMatcher{
-																												pos:        position{line: 796, col: 23, offset: 25793},
+																												pos:        position{line: 796, col: 23, offset: 25794},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -33626,12 +33626,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 798, col: 8, offset: 25877},
+																							pos: position{line: 798, col: 8, offset: 25878},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92410},
+																								pos: position{line: 2922, col: 10, offset: 92411},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92410},
+																									pos:        position{line: 2922, col: 10, offset: 92411},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33640,28 +33640,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33670,9 +33670,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -33682,15 +33682,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 950, col: 5, offset: 30042},
+																			pos: position{line: 950, col: 5, offset: 30043},
 																			run: (*parser).callonListContinuationElement839,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92758},
+																	pos: position{line: 2941, col: 8, offset: 92759},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92759,
+																		line: 2941, col: 9, offset: 92760,
 																	},
 																},
 															},
@@ -33701,41 +33701,41 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 988, col: 5, offset: 31083},
+										pos: position{line: 988, col: 5, offset: 31084},
 										run: (*parser).callonListContinuationElement842,
 										expr: &seqExpr{
-											pos: position{line: 988, col: 5, offset: 31083},
+											pos: position{line: 988, col: 5, offset: 31084},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 988, col: 5, offset: 31083},
+													pos:   position{line: 988, col: 5, offset: 31084},
 													label: "firstLine",
 													expr: &actionExpr{
-														pos: position{line: 995, col: 5, offset: 31342},
+														pos: position{line: 995, col: 5, offset: 31343},
 														run: (*parser).callonListContinuationElement845,
 														expr: &seqExpr{
-															pos: position{line: 995, col: 5, offset: 31342},
+															pos: position{line: 995, col: 5, offset: 31343},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 995, col: 5, offset: 31342},
+																	pos: position{line: 995, col: 5, offset: 31343},
 																	expr: &actionExpr{
-																		pos: position{line: 690, col: 14, offset: 22172},
+																		pos: position{line: 690, col: 14, offset: 22173},
 																		run: (*parser).callonListContinuationElement848,
 																		expr: &seqExpr{
-																			pos: position{line: 690, col: 14, offset: 22172},
+																			pos: position{line: 690, col: 14, offset: 22173},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2939, col: 11, offset: 92744},
+																					pos: position{line: 2939, col: 11, offset: 92745},
 																					expr: &anyMatcher{
-																						line: 2939, col: 13, offset: 92746,
+																						line: 2939, col: 13, offset: 92747,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 690, col: 21, offset: 22179},
+																					pos: position{line: 690, col: 21, offset: 22180},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92410},
+																						pos: position{line: 2922, col: 10, offset: 92411},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92410},
+																							pos:        position{line: 2922, col: 10, offset: 92411},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33744,28 +33744,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92808},
+																					pos: position{line: 2944, col: 8, offset: 92809},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92581},
+																							pos: position{line: 2931, col: 12, offset: 92582},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92582},
+																								pos: position{line: 2931, col: 13, offset: 92583},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92582},
+																										pos:        position{line: 2931, col: 13, offset: 92583},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92589},
+																										pos:        position{line: 2931, col: 20, offset: 92590},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92598},
+																										pos:        position{line: 2931, col: 29, offset: 92599},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33774,9 +33774,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92758},
+																							pos: position{line: 2941, col: 8, offset: 92759},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92759,
+																								line: 2941, col: 9, offset: 92760,
 																							},
 																						},
 																					},
@@ -33786,21 +33786,21 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 996, col: 5, offset: 31357},
+																	pos:        position{line: 996, col: 5, offset: 31358},
 																	val:        "> ",
 																	ignoreCase: false,
 																	want:       "\"> \"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 997, col: 5, offset: 31367},
+																	pos:   position{line: 997, col: 5, offset: 31368},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 14, offset: 91003},
+																		pos: position{line: 2872, col: 14, offset: 91004},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2872, col: 14, offset: 91003},
+																			pos: position{line: 2872, col: 14, offset: 91004},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 14, offset: 91003},
+																				pos:        position{line: 2872, col: 14, offset: 91004},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33810,28 +33810,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92808},
+																	pos: position{line: 2944, col: 8, offset: 92809},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92581},
+																			pos: position{line: 2931, col: 12, offset: 92582},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92582},
+																				pos: position{line: 2931, col: 13, offset: 92583},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92582},
+																						pos:        position{line: 2931, col: 13, offset: 92583},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92589},
+																						pos:        position{line: 2931, col: 20, offset: 92590},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92598},
+																						pos:        position{line: 2931, col: 29, offset: 92599},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33840,9 +33840,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92758},
+																			pos: position{line: 2941, col: 8, offset: 92759},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92759,
+																				line: 2941, col: 9, offset: 92760,
 																			},
 																		},
 																	},
@@ -33852,40 +33852,40 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 989, col: 5, offset: 31120},
+													pos:   position{line: 989, col: 5, offset: 31121},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 989, col: 16, offset: 31131},
+														pos: position{line: 989, col: 16, offset: 31132},
 														expr: &choiceExpr{
-															pos: position{line: 989, col: 17, offset: 31132},
+															pos: position{line: 989, col: 17, offset: 31133},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 995, col: 5, offset: 31342},
+																	pos: position{line: 995, col: 5, offset: 31343},
 																	run: (*parser).callonListContinuationElement879,
 																	expr: &seqExpr{
-																		pos: position{line: 995, col: 5, offset: 31342},
+																		pos: position{line: 995, col: 5, offset: 31343},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 995, col: 5, offset: 31342},
+																				pos: position{line: 995, col: 5, offset: 31343},
 																				expr: &actionExpr{
-																					pos: position{line: 690, col: 14, offset: 22172},
+																					pos: position{line: 690, col: 14, offset: 22173},
 																					run: (*parser).callonListContinuationElement882,
 																					expr: &seqExpr{
-																						pos: position{line: 690, col: 14, offset: 22172},
+																						pos: position{line: 690, col: 14, offset: 22173},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2939, col: 11, offset: 92744},
+																								pos: position{line: 2939, col: 11, offset: 92745},
 																								expr: &anyMatcher{
-																									line: 2939, col: 13, offset: 92746,
+																									line: 2939, col: 13, offset: 92747,
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 690, col: 21, offset: 22179},
+																								pos: position{line: 690, col: 21, offset: 22180},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92410},
+																									pos: position{line: 2922, col: 10, offset: 92411},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92410},
+																										pos:        position{line: 2922, col: 10, offset: 92411},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33894,28 +33894,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92808},
+																								pos: position{line: 2944, col: 8, offset: 92809},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92581},
+																										pos: position{line: 2931, col: 12, offset: 92582},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92582},
+																											pos: position{line: 2931, col: 13, offset: 92583},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92582},
+																													pos:        position{line: 2931, col: 13, offset: 92583},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92589},
+																													pos:        position{line: 2931, col: 20, offset: 92590},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92598},
+																													pos:        position{line: 2931, col: 29, offset: 92599},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33924,9 +33924,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92758},
+																										pos: position{line: 2941, col: 8, offset: 92759},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92759,
+																											line: 2941, col: 9, offset: 92760,
 																										},
 																									},
 																								},
@@ -33936,21 +33936,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 996, col: 5, offset: 31357},
+																				pos:        position{line: 996, col: 5, offset: 31358},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 997, col: 5, offset: 31367},
+																				pos:   position{line: 997, col: 5, offset: 31368},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2872, col: 14, offset: 91003},
+																					pos: position{line: 2872, col: 14, offset: 91004},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2872, col: 14, offset: 91003},
+																						pos: position{line: 2872, col: 14, offset: 91004},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2872, col: 14, offset: 91003},
+																							pos:        position{line: 2872, col: 14, offset: 91004},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33960,28 +33960,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92808},
+																				pos: position{line: 2944, col: 8, offset: 92809},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92581},
+																						pos: position{line: 2931, col: 12, offset: 92582},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92582},
+																							pos: position{line: 2931, col: 13, offset: 92583},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92582},
+																									pos:        position{line: 2931, col: 13, offset: 92583},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92589},
+																									pos:        position{line: 2931, col: 20, offset: 92590},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92598},
+																									pos:        position{line: 2931, col: 29, offset: 92599},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33990,9 +33990,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92758},
+																						pos: position{line: 2941, col: 8, offset: 92759},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92759,
+																							line: 2941, col: 9, offset: 92760,
 																						},
 																					},
 																				},
@@ -34001,21 +34001,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1804, col: 5, offset: 58470},
+																	pos: position{line: 1804, col: 5, offset: 58471},
 																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 1804, col: 5, offset: 58470},
+																		pos: position{line: 1804, col: 5, offset: 58471},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1804, col: 5, offset: 58470},
+																				pos:   position{line: 1804, col: 5, offset: 58471},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2872, col: 14, offset: 91003},
+																					pos: position{line: 2872, col: 14, offset: 91004},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2872, col: 14, offset: 91003},
+																						pos: position{line: 2872, col: 14, offset: 91004},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2872, col: 14, offset: 91003},
+																							pos:        position{line: 2872, col: 14, offset: 91004},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34025,32 +34025,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1805, col: 5, offset: 58494},
+																				pos: position{line: 1805, col: 5, offset: 58495},
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92808},
+																				pos: position{line: 2944, col: 8, offset: 92809},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92581},
+																						pos: position{line: 2931, col: 12, offset: 92582},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92582},
+																							pos: position{line: 2931, col: 13, offset: 92583},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92582},
+																									pos:        position{line: 2931, col: 13, offset: 92583},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92589},
+																									pos:        position{line: 2931, col: 20, offset: 92590},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92598},
+																									pos:        position{line: 2931, col: 29, offset: 92599},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34059,9 +34059,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92758},
+																						pos: position{line: 2941, col: 8, offset: 92759},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92759,
+																							line: 2941, col: 9, offset: 92760,
 																						},
 																					},
 																				},
@@ -34077,28 +34077,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1010, col: 5, offset: 31632},
+										pos: position{line: 1010, col: 5, offset: 31633},
 										run: (*parser).callonListContinuationElement925,
 										expr: &seqExpr{
-											pos: position{line: 1010, col: 5, offset: 31632},
+											pos: position{line: 1010, col: 5, offset: 31633},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1010, col: 5, offset: 31632},
+													pos:   position{line: 1010, col: 5, offset: 31633},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 789, col: 5, offset: 25544},
+														pos: position{line: 789, col: 5, offset: 25545},
 														run: (*parser).callonListContinuationElement928,
 														expr: &seqExpr{
-															pos: position{line: 789, col: 5, offset: 25544},
+															pos: position{line: 789, col: 5, offset: 25545},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 789, col: 5, offset: 25544},
+																	pos:   position{line: 789, col: 5, offset: 25545},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 789, col: 16, offset: 25555},
+																		pos: position{line: 789, col: 16, offset: 25556},
 																		run: (*parser).callonListContinuationElement931,
 																		expr: &litMatcher{
-																			pos:        position{line: 789, col: 16, offset: 25555},
+																			pos:        position{line: 789, col: 16, offset: 25556},
 																			val:        "--",
 																			ignoreCase: false,
 																			want:       "\"--\"",
@@ -34106,12 +34106,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 791, col: 8, offset: 25632},
+																	pos: position{line: 791, col: 8, offset: 25633},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92410},
+																		pos: position{line: 2922, col: 10, offset: 92411},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92410},
+																			pos:        position{line: 2922, col: 10, offset: 92411},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34120,28 +34120,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92808},
+																	pos: position{line: 2944, col: 8, offset: 92809},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92581},
+																			pos: position{line: 2931, col: 12, offset: 92582},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92582},
+																				pos: position{line: 2931, col: 13, offset: 92583},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92582},
+																						pos:        position{line: 2931, col: 13, offset: 92583},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92589},
+																						pos:        position{line: 2931, col: 20, offset: 92590},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92598},
+																						pos:        position{line: 2931, col: 29, offset: 92599},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34150,9 +34150,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92758},
+																			pos: position{line: 2941, col: 8, offset: 92759},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92759,
+																				line: 2941, col: 9, offset: 92760,
 																			},
 																		},
 																	},
@@ -34162,35 +34162,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1011, col: 5, offset: 31668},
+													pos:   position{line: 1011, col: 5, offset: 31669},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1021, col: 5, offset: 31936},
+														pos: position{line: 1021, col: 5, offset: 31937},
 														expr: &actionExpr{
-															pos: position{line: 1021, col: 6, offset: 31937},
+															pos: position{line: 1021, col: 6, offset: 31938},
 															run: (*parser).callonListContinuationElement946,
 															expr: &seqExpr{
-																pos: position{line: 1021, col: 6, offset: 31937},
+																pos: position{line: 1021, col: 6, offset: 31938},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1021, col: 6, offset: 31937},
+																		pos: position{line: 1021, col: 6, offset: 31938},
 																		expr: &choiceExpr{
-																			pos: position{line: 1018, col: 26, offset: 31885},
+																			pos: position{line: 1018, col: 26, offset: 31886},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 789, col: 5, offset: 25544},
+																					pos: position{line: 789, col: 5, offset: 25545},
 																					run: (*parser).callonListContinuationElement950,
 																					expr: &seqExpr{
-																						pos: position{line: 789, col: 5, offset: 25544},
+																						pos: position{line: 789, col: 5, offset: 25545},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 789, col: 5, offset: 25544},
+																								pos:   position{line: 789, col: 5, offset: 25545},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 789, col: 16, offset: 25555},
+																									pos: position{line: 789, col: 16, offset: 25556},
 																									run: (*parser).callonListContinuationElement953,
 																									expr: &litMatcher{
-																										pos:        position{line: 789, col: 16, offset: 25555},
+																										pos:        position{line: 789, col: 16, offset: 25556},
 																										val:        "--",
 																										ignoreCase: false,
 																										want:       "\"--\"",
@@ -34198,12 +34198,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 791, col: 8, offset: 25632},
+																								pos: position{line: 791, col: 8, offset: 25633},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92410},
+																									pos: position{line: 2922, col: 10, offset: 92411},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92410},
+																										pos:        position{line: 2922, col: 10, offset: 92411},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34212,28 +34212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92808},
+																								pos: position{line: 2944, col: 8, offset: 92809},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92581},
+																										pos: position{line: 2931, col: 12, offset: 92582},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92582},
+																											pos: position{line: 2931, col: 13, offset: 92583},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92582},
+																													pos:        position{line: 2931, col: 13, offset: 92583},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92589},
+																													pos:        position{line: 2931, col: 20, offset: 92590},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92598},
+																													pos:        position{line: 2931, col: 29, offset: 92599},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34242,9 +34242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92758},
+																										pos: position{line: 2941, col: 8, offset: 92759},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92759,
+																											line: 2941, col: 9, offset: 92760,
 																										},
 																									},
 																								},
@@ -34253,39 +34253,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1022, col: 5, offset: 31964},
+																		pos:   position{line: 1022, col: 5, offset: 31965},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 824, col: 5, offset: 26771},
+																			pos: position{line: 824, col: 5, offset: 26772},
 																			run: (*parser).callonListContinuationElement969,
 																			expr: &seqExpr{
-																				pos: position{line: 824, col: 5, offset: 26771},
+																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92744},
+																						pos: position{line: 2939, col: 11, offset: 92745},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92746,
+																							line: 2939, col: 13, offset: 92747,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 825, col: 5, offset: 26846},
+																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90936},
+																							pos: position{line: 2868, col: 13, offset: 90937},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90936},
+																								pos: position{line: 2868, col: 13, offset: 90937},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90936},
+																									pos:        position{line: 2868, col: 13, offset: 90937},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34295,28 +34295,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92808},
+																						pos: position{line: 2944, col: 8, offset: 92809},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92581},
+																								pos: position{line: 2931, col: 12, offset: 92582},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92582},
+																									pos: position{line: 2931, col: 13, offset: 92583},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92582},
+																											pos:        position{line: 2931, col: 13, offset: 92583},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92589},
+																											pos:        position{line: 2931, col: 20, offset: 92590},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92598},
+																											pos:        position{line: 2931, col: 29, offset: 92599},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34325,9 +34325,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92758},
+																								pos: position{line: 2941, col: 8, offset: 92759},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92759,
+																									line: 2941, col: 9, offset: 92760,
 																								},
 																							},
 																						},
@@ -34342,27 +34342,27 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1012, col: 5, offset: 31699},
+													pos:   position{line: 1012, col: 5, offset: 31700},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1012, col: 9, offset: 31703},
+														pos: position{line: 1012, col: 9, offset: 31704},
 														expr: &choiceExpr{
-															pos: position{line: 1018, col: 26, offset: 31885},
+															pos: position{line: 1018, col: 26, offset: 31886},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 789, col: 5, offset: 25544},
+																	pos: position{line: 789, col: 5, offset: 25545},
 																	run: (*parser).callonListContinuationElement988,
 																	expr: &seqExpr{
-																		pos: position{line: 789, col: 5, offset: 25544},
+																		pos: position{line: 789, col: 5, offset: 25545},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 789, col: 5, offset: 25544},
+																				pos:   position{line: 789, col: 5, offset: 25545},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 789, col: 16, offset: 25555},
+																					pos: position{line: 789, col: 16, offset: 25556},
 																					run: (*parser).callonListContinuationElement991,
 																					expr: &litMatcher{
-																						pos:        position{line: 789, col: 16, offset: 25555},
+																						pos:        position{line: 789, col: 16, offset: 25556},
 																						val:        "--",
 																						ignoreCase: false,
 																						want:       "\"--\"",
@@ -34370,12 +34370,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 791, col: 8, offset: 25632},
+																				pos: position{line: 791, col: 8, offset: 25633},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92410},
+																					pos: position{line: 2922, col: 10, offset: 92411},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92410},
+																						pos:        position{line: 2922, col: 10, offset: 92411},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34384,28 +34384,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92808},
+																				pos: position{line: 2944, col: 8, offset: 92809},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92581},
+																						pos: position{line: 2931, col: 12, offset: 92582},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92582},
+																							pos: position{line: 2931, col: 13, offset: 92583},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92582},
+																									pos:        position{line: 2931, col: 13, offset: 92583},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92589},
+																									pos:        position{line: 2931, col: 20, offset: 92590},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92598},
+																									pos:        position{line: 2931, col: 29, offset: 92599},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34414,9 +34414,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92758},
+																						pos: position{line: 2941, col: 8, offset: 92759},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92759,
+																							line: 2941, col: 9, offset: 92760,
 																						},
 																					},
 																				},
@@ -34425,9 +34425,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92758},
+																	pos: position{line: 2941, col: 8, offset: 92759},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92759,
+																		line: 2941, col: 9, offset: 92760,
 																	},
 																},
 															},
@@ -34438,39 +34438,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1030, col: 5, offset: 32127},
+										pos: position{line: 1030, col: 5, offset: 32128},
 										run: (*parser).callonListContinuationElement1006,
 										expr: &seqExpr{
-											pos: position{line: 1030, col: 5, offset: 32127},
+											pos: position{line: 1030, col: 5, offset: 32128},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1030, col: 5, offset: 32127},
+													pos:   position{line: 1030, col: 5, offset: 32128},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 803, col: 5, offset: 26027},
+														pos: position{line: 803, col: 5, offset: 26028},
 														run: (*parser).callonListContinuationElement1009,
 														expr: &seqExpr{
-															pos: position{line: 803, col: 5, offset: 26027},
+															pos: position{line: 803, col: 5, offset: 26028},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 803, col: 5, offset: 26027},
+																	pos:   position{line: 803, col: 5, offset: 26028},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 803, col: 16, offset: 26038},
+																		pos: position{line: 803, col: 16, offset: 26039},
 																		run: (*parser).callonListContinuationElement1012,
 																		expr: &seqExpr{
-																			pos: position{line: 803, col: 16, offset: 26038},
+																			pos: position{line: 803, col: 16, offset: 26039},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 803, col: 16, offset: 26038},
+																					pos:        position{line: 803, col: 16, offset: 26039},
 																					val:        "++++",
 																					ignoreCase: false,
 																					want:       "\"++++\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 803, col: 23, offset: 26045},
+																					pos: position{line: 803, col: 23, offset: 26046},
 																					expr: &litMatcher{
-																						pos:        position{line: 803, col: 23, offset: 26045},
+																						pos:        position{line: 803, col: 23, offset: 26046},
 																						val:        "+",
 																						ignoreCase: false,
 																						want:       "\"+\"",
@@ -34481,12 +34481,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 805, col: 8, offset: 26129},
+																	pos: position{line: 805, col: 8, offset: 26130},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92410},
+																		pos: position{line: 2922, col: 10, offset: 92411},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92410},
+																			pos:        position{line: 2922, col: 10, offset: 92411},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34495,28 +34495,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92808},
+																	pos: position{line: 2944, col: 8, offset: 92809},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92581},
+																			pos: position{line: 2931, col: 12, offset: 92582},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92582},
+																				pos: position{line: 2931, col: 13, offset: 92583},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92582},
+																						pos:        position{line: 2931, col: 13, offset: 92583},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92589},
+																						pos:        position{line: 2931, col: 20, offset: 92590},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92598},
+																						pos:        position{line: 2931, col: 29, offset: 92599},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34525,9 +34525,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92758},
+																			pos: position{line: 2941, col: 8, offset: 92759},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92759,
+																				line: 2941, col: 9, offset: 92760,
 																			},
 																		},
 																	},
@@ -34537,56 +34537,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1031, col: 5, offset: 32170},
+													pos: position{line: 1031, col: 5, offset: 32171},
 													run: (*parser).callonListContinuationElement1028,
 												},
 												&labeledExpr{
-													pos:   position{line: 1034, col: 5, offset: 32262},
+													pos:   position{line: 1034, col: 5, offset: 32263},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1049, col: 5, offset: 32692},
+														pos: position{line: 1049, col: 5, offset: 32693},
 														expr: &actionExpr{
-															pos: position{line: 1049, col: 6, offset: 32693},
+															pos: position{line: 1049, col: 6, offset: 32694},
 															run: (*parser).callonListContinuationElement1031,
 															expr: &seqExpr{
-																pos: position{line: 1049, col: 6, offset: 32693},
+																pos: position{line: 1049, col: 6, offset: 32694},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1049, col: 6, offset: 32693},
+																		pos: position{line: 1049, col: 6, offset: 32694},
 																		expr: &choiceExpr{
-																			pos: position{line: 1042, col: 5, offset: 32526},
+																			pos: position{line: 1042, col: 5, offset: 32527},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1042, col: 5, offset: 32526},
+																					pos: position{line: 1042, col: 5, offset: 32527},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1042, col: 5, offset: 32526},
+																							pos:   position{line: 1042, col: 5, offset: 32527},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 803, col: 5, offset: 26027},
+																								pos: position{line: 803, col: 5, offset: 26028},
 																								run: (*parser).callonListContinuationElement1037,
 																								expr: &seqExpr{
-																									pos: position{line: 803, col: 5, offset: 26027},
+																									pos: position{line: 803, col: 5, offset: 26028},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 803, col: 5, offset: 26027},
+																											pos:   position{line: 803, col: 5, offset: 26028},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 803, col: 16, offset: 26038},
+																												pos: position{line: 803, col: 16, offset: 26039},
 																												run: (*parser).callonListContinuationElement1040,
 																												expr: &seqExpr{
-																													pos: position{line: 803, col: 16, offset: 26038},
+																													pos: position{line: 803, col: 16, offset: 26039},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 803, col: 16, offset: 26038},
+																															pos:        position{line: 803, col: 16, offset: 26039},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 803, col: 23, offset: 26045},
+																															pos: position{line: 803, col: 23, offset: 26046},
 																															expr: &litMatcher{
-																																pos:        position{line: 803, col: 23, offset: 26045},
+																																pos:        position{line: 803, col: 23, offset: 26046},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -34597,12 +34597,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 805, col: 8, offset: 26129},
+																											pos: position{line: 805, col: 8, offset: 26130},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92410},
+																												pos: position{line: 2922, col: 10, offset: 92411},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92410},
+																													pos:        position{line: 2922, col: 10, offset: 92411},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34611,28 +34611,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92808},
+																											pos: position{line: 2944, col: 8, offset: 92809},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92581},
+																													pos: position{line: 2931, col: 12, offset: 92582},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92582},
+																														pos: position{line: 2931, col: 13, offset: 92583},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92582},
+																																pos:        position{line: 2931, col: 13, offset: 92583},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92589},
+																																pos:        position{line: 2931, col: 20, offset: 92590},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92598},
+																																pos:        position{line: 2931, col: 29, offset: 92599},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34641,9 +34641,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92758},
+																													pos: position{line: 2941, col: 8, offset: 92759},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92759,
+																														line: 2941, col: 9, offset: 92760,
 																													},
 																												},
 																											},
@@ -34653,45 +34653,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1043, col: 5, offset: 32561},
+																							pos: position{line: 1043, col: 5, offset: 32562},
 																							run: (*parser).callonListContinuationElement1056,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1050, col: 5, offset: 32727},
+																		pos:   position{line: 1050, col: 5, offset: 32728},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 824, col: 5, offset: 26771},
+																			pos: position{line: 824, col: 5, offset: 26772},
 																			run: (*parser).callonListContinuationElement1060,
 																			expr: &seqExpr{
-																				pos: position{line: 824, col: 5, offset: 26771},
+																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92744},
+																						pos: position{line: 2939, col: 11, offset: 92745},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92746,
+																							line: 2939, col: 13, offset: 92747,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 825, col: 5, offset: 26846},
+																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90936},
+																							pos: position{line: 2868, col: 13, offset: 90937},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90936},
+																								pos: position{line: 2868, col: 13, offset: 90937},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90936},
+																									pos:        position{line: 2868, col: 13, offset: 90937},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34701,28 +34701,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92808},
+																						pos: position{line: 2944, col: 8, offset: 92809},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92581},
+																								pos: position{line: 2931, col: 12, offset: 92582},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92582},
+																									pos: position{line: 2931, col: 13, offset: 92583},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92582},
+																											pos:        position{line: 2931, col: 13, offset: 92583},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92589},
+																											pos:        position{line: 2931, col: 20, offset: 92590},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92598},
+																											pos:        position{line: 2931, col: 29, offset: 92599},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34731,9 +34731,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92758},
+																								pos: position{line: 2941, col: 8, offset: 92759},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92759,
+																									line: 2941, col: 9, offset: 92760,
 																								},
 																							},
 																						},
@@ -34748,44 +34748,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1035, col: 5, offset: 32300},
+													pos:   position{line: 1035, col: 5, offset: 32301},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1035, col: 9, offset: 32304},
+														pos: position{line: 1035, col: 9, offset: 32305},
 														expr: &choiceExpr{
-															pos: position{line: 1042, col: 5, offset: 32526},
+															pos: position{line: 1042, col: 5, offset: 32527},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1042, col: 5, offset: 32526},
+																	pos: position{line: 1042, col: 5, offset: 32527},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1042, col: 5, offset: 32526},
+																			pos:   position{line: 1042, col: 5, offset: 32527},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 803, col: 5, offset: 26027},
+																				pos: position{line: 803, col: 5, offset: 26028},
 																				run: (*parser).callonListContinuationElement1081,
 																				expr: &seqExpr{
-																					pos: position{line: 803, col: 5, offset: 26027},
+																					pos: position{line: 803, col: 5, offset: 26028},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 803, col: 5, offset: 26027},
+																							pos:   position{line: 803, col: 5, offset: 26028},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 803, col: 16, offset: 26038},
+																								pos: position{line: 803, col: 16, offset: 26039},
 																								run: (*parser).callonListContinuationElement1084,
 																								expr: &seqExpr{
-																									pos: position{line: 803, col: 16, offset: 26038},
+																									pos: position{line: 803, col: 16, offset: 26039},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 803, col: 16, offset: 26038},
+																											pos:        position{line: 803, col: 16, offset: 26039},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 803, col: 23, offset: 26045},
+																											pos: position{line: 803, col: 23, offset: 26046},
 																											expr: &litMatcher{
-																												pos:        position{line: 803, col: 23, offset: 26045},
+																												pos:        position{line: 803, col: 23, offset: 26046},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -34796,12 +34796,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 805, col: 8, offset: 26129},
+																							pos: position{line: 805, col: 8, offset: 26130},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92410},
+																								pos: position{line: 2922, col: 10, offset: 92411},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92410},
+																									pos:        position{line: 2922, col: 10, offset: 92411},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34810,28 +34810,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34840,9 +34840,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -34852,15 +34852,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1043, col: 5, offset: 32561},
+																			pos: position{line: 1043, col: 5, offset: 32562},
 																			run: (*parser).callonListContinuationElement1100,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92758},
+																	pos: position{line: 2941, col: 8, offset: 92759},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92759,
+																		line: 2941, col: 9, offset: 92760,
 																	},
 																},
 															},
@@ -34871,39 +34871,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1058, col: 5, offset: 32878},
+										pos: position{line: 1058, col: 5, offset: 32879},
 										run: (*parser).callonListContinuationElement1103,
 										expr: &seqExpr{
-											pos: position{line: 1058, col: 5, offset: 32878},
+											pos: position{line: 1058, col: 5, offset: 32879},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1058, col: 5, offset: 32878},
+													pos:   position{line: 1058, col: 5, offset: 32879},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 810, col: 5, offset: 26277},
+														pos: position{line: 810, col: 5, offset: 26278},
 														run: (*parser).callonListContinuationElement1106,
 														expr: &seqExpr{
-															pos: position{line: 810, col: 5, offset: 26277},
+															pos: position{line: 810, col: 5, offset: 26278},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 810, col: 5, offset: 26277},
+																	pos:   position{line: 810, col: 5, offset: 26278},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 810, col: 16, offset: 26288},
+																		pos: position{line: 810, col: 16, offset: 26289},
 																		run: (*parser).callonListContinuationElement1109,
 																		expr: &seqExpr{
-																			pos: position{line: 810, col: 16, offset: 26288},
+																			pos: position{line: 810, col: 16, offset: 26289},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 810, col: 16, offset: 26288},
+																					pos:        position{line: 810, col: 16, offset: 26289},
 																					val:        "____",
 																					ignoreCase: false,
 																					want:       "\"____\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 810, col: 23, offset: 26295},
+																					pos: position{line: 810, col: 23, offset: 26296},
 																					expr: &litMatcher{
-																						pos:        position{line: 810, col: 23, offset: 26295},
+																						pos:        position{line: 810, col: 23, offset: 26296},
 																						val:        "_",
 																						ignoreCase: false,
 																						want:       "\"_\"",
@@ -34914,12 +34914,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 812, col: 8, offset: 26379},
+																	pos: position{line: 812, col: 8, offset: 26380},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92410},
+																		pos: position{line: 2922, col: 10, offset: 92411},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92410},
+																			pos:        position{line: 2922, col: 10, offset: 92411},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34928,28 +34928,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92808},
+																	pos: position{line: 2944, col: 8, offset: 92809},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92581},
+																			pos: position{line: 2931, col: 12, offset: 92582},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92582},
+																				pos: position{line: 2931, col: 13, offset: 92583},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92582},
+																						pos:        position{line: 2931, col: 13, offset: 92583},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92589},
+																						pos:        position{line: 2931, col: 20, offset: 92590},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92598},
+																						pos:        position{line: 2931, col: 29, offset: 92599},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34958,9 +34958,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92758},
+																			pos: position{line: 2941, col: 8, offset: 92759},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92759,
+																				line: 2941, col: 9, offset: 92760,
 																			},
 																		},
 																	},
@@ -34970,56 +34970,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1059, col: 5, offset: 32915},
+													pos: position{line: 1059, col: 5, offset: 32916},
 													run: (*parser).callonListContinuationElement1125,
 												},
 												&labeledExpr{
-													pos:   position{line: 1062, col: 5, offset: 33007},
+													pos:   position{line: 1062, col: 5, offset: 33008},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1077, col: 4, offset: 33388},
+														pos: position{line: 1077, col: 4, offset: 33389},
 														expr: &actionExpr{
-															pos: position{line: 1077, col: 5, offset: 33389},
+															pos: position{line: 1077, col: 5, offset: 33390},
 															run: (*parser).callonListContinuationElement1128,
 															expr: &seqExpr{
-																pos: position{line: 1077, col: 5, offset: 33389},
+																pos: position{line: 1077, col: 5, offset: 33390},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1077, col: 5, offset: 33389},
+																		pos: position{line: 1077, col: 5, offset: 33390},
 																		expr: &choiceExpr{
-																			pos: position{line: 1070, col: 5, offset: 33235},
+																			pos: position{line: 1070, col: 5, offset: 33236},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1070, col: 5, offset: 33235},
+																					pos: position{line: 1070, col: 5, offset: 33236},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1070, col: 5, offset: 33235},
+																							pos:   position{line: 1070, col: 5, offset: 33236},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 810, col: 5, offset: 26277},
+																								pos: position{line: 810, col: 5, offset: 26278},
 																								run: (*parser).callonListContinuationElement1134,
 																								expr: &seqExpr{
-																									pos: position{line: 810, col: 5, offset: 26277},
+																									pos: position{line: 810, col: 5, offset: 26278},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 810, col: 5, offset: 26277},
+																											pos:   position{line: 810, col: 5, offset: 26278},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 810, col: 16, offset: 26288},
+																												pos: position{line: 810, col: 16, offset: 26289},
 																												run: (*parser).callonListContinuationElement1137,
 																												expr: &seqExpr{
-																													pos: position{line: 810, col: 16, offset: 26288},
+																													pos: position{line: 810, col: 16, offset: 26289},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 810, col: 16, offset: 26288},
+																															pos:        position{line: 810, col: 16, offset: 26289},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 810, col: 23, offset: 26295},
+																															pos: position{line: 810, col: 23, offset: 26296},
 																															expr: &litMatcher{
-																																pos:        position{line: 810, col: 23, offset: 26295},
+																																pos:        position{line: 810, col: 23, offset: 26296},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -35030,12 +35030,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 812, col: 8, offset: 26379},
+																											pos: position{line: 812, col: 8, offset: 26380},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92410},
+																												pos: position{line: 2922, col: 10, offset: 92411},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92410},
+																													pos:        position{line: 2922, col: 10, offset: 92411},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35044,28 +35044,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92808},
+																											pos: position{line: 2944, col: 8, offset: 92809},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92581},
+																													pos: position{line: 2931, col: 12, offset: 92582},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92582},
+																														pos: position{line: 2931, col: 13, offset: 92583},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92582},
+																																pos:        position{line: 2931, col: 13, offset: 92583},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92589},
+																																pos:        position{line: 2931, col: 20, offset: 92590},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92598},
+																																pos:        position{line: 2931, col: 29, offset: 92599},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35074,9 +35074,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92758},
+																													pos: position{line: 2941, col: 8, offset: 92759},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92759,
+																														line: 2941, col: 9, offset: 92760,
 																													},
 																												},
 																											},
@@ -35086,45 +35086,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1071, col: 5, offset: 33264},
+																							pos: position{line: 1071, col: 5, offset: 33265},
 																							run: (*parser).callonListContinuationElement1153,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1078, col: 5, offset: 33417},
+																		pos:   position{line: 1078, col: 5, offset: 33418},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 824, col: 5, offset: 26771},
+																			pos: position{line: 824, col: 5, offset: 26772},
 																			run: (*parser).callonListContinuationElement1157,
 																			expr: &seqExpr{
-																				pos: position{line: 824, col: 5, offset: 26771},
+																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92744},
+																						pos: position{line: 2939, col: 11, offset: 92745},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92746,
+																							line: 2939, col: 13, offset: 92747,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 825, col: 5, offset: 26846},
+																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90936},
+																							pos: position{line: 2868, col: 13, offset: 90937},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90936},
+																								pos: position{line: 2868, col: 13, offset: 90937},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90936},
+																									pos:        position{line: 2868, col: 13, offset: 90937},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35134,28 +35134,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92808},
+																						pos: position{line: 2944, col: 8, offset: 92809},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92581},
+																								pos: position{line: 2931, col: 12, offset: 92582},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92582},
+																									pos: position{line: 2931, col: 13, offset: 92583},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92582},
+																											pos:        position{line: 2931, col: 13, offset: 92583},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92589},
+																											pos:        position{line: 2931, col: 20, offset: 92590},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92598},
+																											pos:        position{line: 2931, col: 29, offset: 92599},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35164,9 +35164,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92758},
+																								pos: position{line: 2941, col: 8, offset: 92759},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92759,
+																									line: 2941, col: 9, offset: 92760,
 																								},
 																							},
 																						},
@@ -35181,44 +35181,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1063, col: 5, offset: 33039},
+													pos:   position{line: 1063, col: 5, offset: 33040},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1063, col: 9, offset: 33043},
+														pos: position{line: 1063, col: 9, offset: 33044},
 														expr: &choiceExpr{
-															pos: position{line: 1070, col: 5, offset: 33235},
+															pos: position{line: 1070, col: 5, offset: 33236},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1070, col: 5, offset: 33235},
+																	pos: position{line: 1070, col: 5, offset: 33236},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1070, col: 5, offset: 33235},
+																			pos:   position{line: 1070, col: 5, offset: 33236},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26277},
+																				pos: position{line: 810, col: 5, offset: 26278},
 																				run: (*parser).callonListContinuationElement1178,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26277},
+																					pos: position{line: 810, col: 5, offset: 26278},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 810, col: 5, offset: 26277},
+																							pos:   position{line: 810, col: 5, offset: 26278},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 810, col: 16, offset: 26288},
+																								pos: position{line: 810, col: 16, offset: 26289},
 																								run: (*parser).callonListContinuationElement1181,
 																								expr: &seqExpr{
-																									pos: position{line: 810, col: 16, offset: 26288},
+																									pos: position{line: 810, col: 16, offset: 26289},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 810, col: 16, offset: 26288},
+																											pos:        position{line: 810, col: 16, offset: 26289},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 810, col: 23, offset: 26295},
+																											pos: position{line: 810, col: 23, offset: 26296},
 																											expr: &litMatcher{
-																												pos:        position{line: 810, col: 23, offset: 26295},
+																												pos:        position{line: 810, col: 23, offset: 26296},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -35229,12 +35229,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 812, col: 8, offset: 26379},
+																							pos: position{line: 812, col: 8, offset: 26380},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92410},
+																								pos: position{line: 2922, col: 10, offset: 92411},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92410},
+																									pos:        position{line: 2922, col: 10, offset: 92411},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35243,28 +35243,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35273,9 +35273,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -35285,15 +35285,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1071, col: 5, offset: 33264},
+																			pos: position{line: 1071, col: 5, offset: 33265},
 																			run: (*parser).callonListContinuationElement1197,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92758},
+																	pos: position{line: 2941, col: 8, offset: 92759},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92759,
+																		line: 2941, col: 9, offset: 92760,
 																	},
 																},
 															},
@@ -35304,39 +35304,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1086, col: 5, offset: 33572},
+										pos: position{line: 1086, col: 5, offset: 33573},
 										run: (*parser).callonListContinuationElement1200,
 										expr: &seqExpr{
-											pos: position{line: 1086, col: 5, offset: 33572},
+											pos: position{line: 1086, col: 5, offset: 33573},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1086, col: 5, offset: 33572},
+													pos:   position{line: 1086, col: 5, offset: 33573},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 817, col: 5, offset: 26523},
+														pos: position{line: 817, col: 5, offset: 26524},
 														run: (*parser).callonListContinuationElement1203,
 														expr: &seqExpr{
-															pos: position{line: 817, col: 5, offset: 26523},
+															pos: position{line: 817, col: 5, offset: 26524},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 817, col: 5, offset: 26523},
+																	pos:   position{line: 817, col: 5, offset: 26524},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 817, col: 16, offset: 26534},
+																		pos: position{line: 817, col: 16, offset: 26535},
 																		run: (*parser).callonListContinuationElement1206,
 																		expr: &seqExpr{
-																			pos: position{line: 817, col: 16, offset: 26534},
+																			pos: position{line: 817, col: 16, offset: 26535},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 817, col: 16, offset: 26534},
+																					pos:        position{line: 817, col: 16, offset: 26535},
 																					val:        "****",
 																					ignoreCase: false,
 																					want:       "\"****\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 817, col: 23, offset: 26541},
+																					pos: position{line: 817, col: 23, offset: 26542},
 																					expr: &litMatcher{
-																						pos:        position{line: 817, col: 23, offset: 26541},
+																						pos:        position{line: 817, col: 23, offset: 26542},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -35347,12 +35347,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 819, col: 8, offset: 26625},
+																	pos: position{line: 819, col: 8, offset: 26626},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92410},
+																		pos: position{line: 2922, col: 10, offset: 92411},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92410},
+																			pos:        position{line: 2922, col: 10, offset: 92411},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35361,28 +35361,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92808},
+																	pos: position{line: 2944, col: 8, offset: 92809},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92581},
+																			pos: position{line: 2931, col: 12, offset: 92582},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92582},
+																				pos: position{line: 2931, col: 13, offset: 92583},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92582},
+																						pos:        position{line: 2931, col: 13, offset: 92583},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92589},
+																						pos:        position{line: 2931, col: 20, offset: 92590},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92598},
+																						pos:        position{line: 2931, col: 29, offset: 92599},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35391,9 +35391,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92758},
+																			pos: position{line: 2941, col: 8, offset: 92759},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92759,
+																				line: 2941, col: 9, offset: 92760,
 																			},
 																		},
 																	},
@@ -35403,56 +35403,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1087, col: 5, offset: 33611},
+													pos: position{line: 1087, col: 5, offset: 33612},
 													run: (*parser).callonListContinuationElement1222,
 												},
 												&labeledExpr{
-													pos:   position{line: 1090, col: 5, offset: 33703},
+													pos:   position{line: 1090, col: 5, offset: 33704},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1105, col: 4, offset: 34100},
+														pos: position{line: 1105, col: 4, offset: 34101},
 														expr: &actionExpr{
-															pos: position{line: 1105, col: 5, offset: 34101},
+															pos: position{line: 1105, col: 5, offset: 34102},
 															run: (*parser).callonListContinuationElement1225,
 															expr: &seqExpr{
-																pos: position{line: 1105, col: 5, offset: 34101},
+																pos: position{line: 1105, col: 5, offset: 34102},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1105, col: 5, offset: 34101},
+																		pos: position{line: 1105, col: 5, offset: 34102},
 																		expr: &choiceExpr{
-																			pos: position{line: 1098, col: 5, offset: 33943},
+																			pos: position{line: 1098, col: 5, offset: 33944},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1098, col: 5, offset: 33943},
+																					pos: position{line: 1098, col: 5, offset: 33944},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1098, col: 5, offset: 33943},
+																							pos:   position{line: 1098, col: 5, offset: 33944},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 817, col: 5, offset: 26523},
+																								pos: position{line: 817, col: 5, offset: 26524},
 																								run: (*parser).callonListContinuationElement1231,
 																								expr: &seqExpr{
-																									pos: position{line: 817, col: 5, offset: 26523},
+																									pos: position{line: 817, col: 5, offset: 26524},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 817, col: 5, offset: 26523},
+																											pos:   position{line: 817, col: 5, offset: 26524},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 817, col: 16, offset: 26534},
+																												pos: position{line: 817, col: 16, offset: 26535},
 																												run: (*parser).callonListContinuationElement1234,
 																												expr: &seqExpr{
-																													pos: position{line: 817, col: 16, offset: 26534},
+																													pos: position{line: 817, col: 16, offset: 26535},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 817, col: 16, offset: 26534},
+																															pos:        position{line: 817, col: 16, offset: 26535},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 817, col: 23, offset: 26541},
+																															pos: position{line: 817, col: 23, offset: 26542},
 																															expr: &litMatcher{
-																																pos:        position{line: 817, col: 23, offset: 26541},
+																																pos:        position{line: 817, col: 23, offset: 26542},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -35463,12 +35463,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 819, col: 8, offset: 26625},
+																											pos: position{line: 819, col: 8, offset: 26626},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92410},
+																												pos: position{line: 2922, col: 10, offset: 92411},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92410},
+																													pos:        position{line: 2922, col: 10, offset: 92411},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35477,28 +35477,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92808},
+																											pos: position{line: 2944, col: 8, offset: 92809},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92581},
+																													pos: position{line: 2931, col: 12, offset: 92582},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92582},
+																														pos: position{line: 2931, col: 13, offset: 92583},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92582},
+																																pos:        position{line: 2931, col: 13, offset: 92583},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92589},
+																																pos:        position{line: 2931, col: 20, offset: 92590},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92598},
+																																pos:        position{line: 2931, col: 29, offset: 92599},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35507,9 +35507,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92758},
+																													pos: position{line: 2941, col: 8, offset: 92759},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92759,
+																														line: 2941, col: 9, offset: 92760,
 																													},
 																												},
 																											},
@@ -35519,45 +35519,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1099, col: 5, offset: 33974},
+																							pos: position{line: 1099, col: 5, offset: 33975},
 																							run: (*parser).callonListContinuationElement1250,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1106, col: 5, offset: 34131},
+																		pos:   position{line: 1106, col: 5, offset: 34132},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 824, col: 5, offset: 26771},
+																			pos: position{line: 824, col: 5, offset: 26772},
 																			run: (*parser).callonListContinuationElement1254,
 																			expr: &seqExpr{
-																				pos: position{line: 824, col: 5, offset: 26771},
+																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92744},
+																						pos: position{line: 2939, col: 11, offset: 92745},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92746,
+																							line: 2939, col: 13, offset: 92747,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 825, col: 5, offset: 26846},
+																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90936},
+																							pos: position{line: 2868, col: 13, offset: 90937},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90936},
+																								pos: position{line: 2868, col: 13, offset: 90937},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90936},
+																									pos:        position{line: 2868, col: 13, offset: 90937},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35567,28 +35567,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92808},
+																						pos: position{line: 2944, col: 8, offset: 92809},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92581},
+																								pos: position{line: 2931, col: 12, offset: 92582},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92582},
+																									pos: position{line: 2931, col: 13, offset: 92583},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92582},
+																											pos:        position{line: 2931, col: 13, offset: 92583},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92589},
+																											pos:        position{line: 2931, col: 20, offset: 92590},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92598},
+																											pos:        position{line: 2931, col: 29, offset: 92599},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35597,9 +35597,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92758},
+																								pos: position{line: 2941, col: 8, offset: 92759},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92759,
+																									line: 2941, col: 9, offset: 92760,
 																								},
 																							},
 																						},
@@ -35614,44 +35614,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1091, col: 5, offset: 33737},
+													pos:   position{line: 1091, col: 5, offset: 33738},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1091, col: 9, offset: 33741},
+														pos: position{line: 1091, col: 9, offset: 33742},
 														expr: &choiceExpr{
-															pos: position{line: 1098, col: 5, offset: 33943},
+															pos: position{line: 1098, col: 5, offset: 33944},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1098, col: 5, offset: 33943},
+																	pos: position{line: 1098, col: 5, offset: 33944},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1098, col: 5, offset: 33943},
+																			pos:   position{line: 1098, col: 5, offset: 33944},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 817, col: 5, offset: 26523},
+																				pos: position{line: 817, col: 5, offset: 26524},
 																				run: (*parser).callonListContinuationElement1275,
 																				expr: &seqExpr{
-																					pos: position{line: 817, col: 5, offset: 26523},
+																					pos: position{line: 817, col: 5, offset: 26524},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 817, col: 5, offset: 26523},
+																							pos:   position{line: 817, col: 5, offset: 26524},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 817, col: 16, offset: 26534},
+																								pos: position{line: 817, col: 16, offset: 26535},
 																								run: (*parser).callonListContinuationElement1278,
 																								expr: &seqExpr{
-																									pos: position{line: 817, col: 16, offset: 26534},
+																									pos: position{line: 817, col: 16, offset: 26535},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 817, col: 16, offset: 26534},
+																											pos:        position{line: 817, col: 16, offset: 26535},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 817, col: 23, offset: 26541},
+																											pos: position{line: 817, col: 23, offset: 26542},
 																											expr: &litMatcher{
-																												pos:        position{line: 817, col: 23, offset: 26541},
+																												pos:        position{line: 817, col: 23, offset: 26542},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -35662,12 +35662,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 819, col: 8, offset: 26625},
+																							pos: position{line: 819, col: 8, offset: 26626},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92410},
+																								pos: position{line: 2922, col: 10, offset: 92411},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92410},
+																									pos:        position{line: 2922, col: 10, offset: 92411},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35676,28 +35676,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92808},
+																							pos: position{line: 2944, col: 8, offset: 92809},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92581},
+																									pos: position{line: 2931, col: 12, offset: 92582},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92582},
+																										pos: position{line: 2931, col: 13, offset: 92583},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92582},
+																												pos:        position{line: 2931, col: 13, offset: 92583},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92589},
+																												pos:        position{line: 2931, col: 20, offset: 92590},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92598},
+																												pos:        position{line: 2931, col: 29, offset: 92599},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35706,9 +35706,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92758},
+																									pos: position{line: 2941, col: 8, offset: 92759},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92759,
+																										line: 2941, col: 9, offset: 92760,
 																									},
 																								},
 																							},
@@ -35718,15 +35718,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1099, col: 5, offset: 33974},
+																			pos: position{line: 1099, col: 5, offset: 33975},
 																			run: (*parser).callonListContinuationElement1294,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92758},
+																	pos: position{line: 2941, col: 8, offset: 92759},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92759,
+																		line: 2941, col: 9, offset: 92760,
 																	},
 																},
 															},
@@ -35737,52 +35737,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2767, col: 18, offset: 88000},
+										pos: position{line: 2767, col: 18, offset: 88001},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2767, col: 18, offset: 88000},
+											pos: position{line: 2767, col: 18, offset: 88001},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2768, col: 9, offset: 88010},
+													pos: position{line: 2768, col: 9, offset: 88011},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2768, col: 9, offset: 88010},
+															pos:        position{line: 2768, col: 9, offset: 88011},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2769, col: 11, offset: 88046},
+															pos:        position{line: 2769, col: 11, offset: 88047},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2769, col: 19, offset: 88054},
+															pos:        position{line: 2769, col: 19, offset: 88055},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2769, col: 29, offset: 88064},
+															pos:        position{line: 2769, col: 29, offset: 88065},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2769, col: 37, offset: 88072},
+															pos:        position{line: 2769, col: 37, offset: 88073},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2769, col: 47, offset: 88082},
+															pos:        position{line: 2769, col: 47, offset: 88083},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2769, col: 55, offset: 88090},
+															pos:        position{line: 2769, col: 55, offset: 88091},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35790,12 +35790,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2770, col: 11, offset: 88148},
+													pos: position{line: 2770, col: 11, offset: 88149},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92410},
+														pos: position{line: 2922, col: 10, offset: 92411},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92410},
+															pos:        position{line: 2922, col: 10, offset: 92411},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35804,28 +35804,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92808},
+													pos: position{line: 2944, col: 8, offset: 92809},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92581},
+															pos: position{line: 2931, col: 12, offset: 92582},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92582},
+																pos: position{line: 2931, col: 13, offset: 92583},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92582},
+																		pos:        position{line: 2931, col: 13, offset: 92583},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92589},
+																		pos:        position{line: 2931, col: 20, offset: 92590},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92598},
+																		pos:        position{line: 2931, col: 29, offset: 92599},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35834,36 +35834,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92758},
+															pos: position{line: 2941, col: 8, offset: 92759},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92759,
+																line: 2941, col: 9, offset: 92760,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92808},
+													pos: position{line: 2944, col: 8, offset: 92809},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92581},
+															pos: position{line: 2931, col: 12, offset: 92582},
 															run: (*parser).callonListContinuationElement1319,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92582},
+																pos: position{line: 2931, col: 13, offset: 92583},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92582},
+																		pos:        position{line: 2931, col: 13, offset: 92583},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92589},
+																		pos:        position{line: 2931, col: 20, offset: 92590},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92598},
+																		pos:        position{line: 2931, col: 29, offset: 92599},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35872,9 +35872,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92758},
+															pos: position{line: 2941, col: 8, offset: 92759},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92759,
+																line: 2941, col: 9, offset: 92760,
 															},
 														},
 													},
@@ -35883,28 +35883,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1567, col: 11, offset: 50819},
+										pos:  position{line: 1567, col: 11, offset: 50820},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2651, col: 5, offset: 84757},
+										pos: position{line: 2651, col: 5, offset: 84758},
 										run: (*parser).callonListContinuationElement1327,
 										expr: &seqExpr{
-											pos: position{line: 2651, col: 5, offset: 84757},
+											pos: position{line: 2651, col: 5, offset: 84758},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2657, col: 19, offset: 84934},
+													pos:        position{line: 2657, col: 19, offset: 84935},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2657, col: 26, offset: 84941},
+													pos: position{line: 2657, col: 26, offset: 84942},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92410},
+														pos: position{line: 2922, col: 10, offset: 92411},
 														run: (*parser).callonListContinuationElement1331,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92410},
+															pos:        position{line: 2922, col: 10, offset: 92411},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35913,28 +35913,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92808},
+													pos: position{line: 2944, col: 8, offset: 92809},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92581},
+															pos: position{line: 2931, col: 12, offset: 92582},
 															run: (*parser).callonListContinuationElement1334,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92582},
+																pos: position{line: 2931, col: 13, offset: 92583},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92582},
+																		pos:        position{line: 2931, col: 13, offset: 92583},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92589},
+																		pos:        position{line: 2931, col: 20, offset: 92590},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92598},
+																		pos:        position{line: 2931, col: 29, offset: 92599},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35943,40 +35943,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92758},
+															pos: position{line: 2941, col: 8, offset: 92759},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92759,
+																line: 2941, col: 9, offset: 92760,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2652, col: 5, offset: 84781},
+													pos:   position{line: 2652, col: 5, offset: 84782},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2652, col: 11, offset: 84787},
+														pos: position{line: 2652, col: 11, offset: 84788},
 														expr: &choiceExpr{
-															pos: position{line: 2652, col: 12, offset: 84788},
+															pos: position{line: 2652, col: 12, offset: 84789},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 690, col: 14, offset: 22172},
+																	pos: position{line: 690, col: 14, offset: 22173},
 																	run: (*parser).callonListContinuationElement1344,
 																	expr: &seqExpr{
-																		pos: position{line: 690, col: 14, offset: 22172},
+																		pos: position{line: 690, col: 14, offset: 22173},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2939, col: 11, offset: 92744},
+																				pos: position{line: 2939, col: 11, offset: 92745},
 																				expr: &anyMatcher{
-																					line: 2939, col: 13, offset: 92746,
+																					line: 2939, col: 13, offset: 92747,
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 690, col: 21, offset: 22179},
+																				pos: position{line: 690, col: 21, offset: 22180},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92410},
+																					pos: position{line: 2922, col: 10, offset: 92411},
 																					run: (*parser).callonListContinuationElement1349,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92410},
+																						pos:        position{line: 2922, col: 10, offset: 92411},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35985,28 +35985,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92808},
+																				pos: position{line: 2944, col: 8, offset: 92809},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92581},
+																						pos: position{line: 2931, col: 12, offset: 92582},
 																						run: (*parser).callonListContinuationElement1352,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92582},
+																							pos: position{line: 2931, col: 13, offset: 92583},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92582},
+																									pos:        position{line: 2931, col: 13, offset: 92583},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92589},
+																									pos:        position{line: 2931, col: 20, offset: 92590},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92598},
+																									pos:        position{line: 2931, col: 29, offset: 92599},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36015,9 +36015,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92758},
+																						pos: position{line: 2941, col: 8, offset: 92759},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92759,
+																							line: 2941, col: 9, offset: 92760,
 																						},
 																					},
 																				},
@@ -36026,36 +36026,36 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2525, col: 22, offset: 81188},
+																	pos: position{line: 2525, col: 22, offset: 81189},
 																	run: (*parser).callonListContinuationElement1359,
 																	expr: &seqExpr{
-																		pos: position{line: 2525, col: 22, offset: 81188},
+																		pos: position{line: 2525, col: 22, offset: 81189},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2530, col: 31, offset: 81438},
+																				pos:        position{line: 2530, col: 31, offset: 81439},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2530, col: 36, offset: 81443},
+																				pos: position{line: 2530, col: 36, offset: 81444},
 																				expr: &litMatcher{
-																					pos:        position{line: 2530, col: 37, offset: 81444},
+																					pos:        position{line: 2530, col: 37, offset: 81445},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2525, col: 49, offset: 81215},
+																				pos:   position{line: 2525, col: 49, offset: 81216},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2868, col: 13, offset: 90936},
+																					pos: position{line: 2868, col: 13, offset: 90937},
 																					run: (*parser).callonListContinuationElement1365,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2868, col: 13, offset: 90936},
+																						pos: position{line: 2868, col: 13, offset: 90937},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2868, col: 13, offset: 90936},
+																							pos:        position{line: 2868, col: 13, offset: 90937},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -36065,28 +36065,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92808},
+																				pos: position{line: 2944, col: 8, offset: 92809},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92581},
+																						pos: position{line: 2931, col: 12, offset: 92582},
 																						run: (*parser).callonListContinuationElement1369,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92582},
+																							pos: position{line: 2931, col: 13, offset: 92583},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92582},
+																									pos:        position{line: 2931, col: 13, offset: 92583},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92589},
+																									pos:        position{line: 2931, col: 20, offset: 92590},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92598},
+																									pos:        position{line: 2931, col: 29, offset: 92599},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36095,9 +36095,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92758},
+																						pos: position{line: 2941, col: 8, offset: 92759},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92759,
+																							line: 2941, col: 9, offset: 92760,
 																						},
 																					},
 																				},
@@ -36106,32 +36106,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2664, col: 5, offset: 85053},
+																	pos: position{line: 2664, col: 5, offset: 85054},
 																	run: (*parser).callonListContinuationElement1376,
 																	expr: &seqExpr{
-																		pos: position{line: 2664, col: 5, offset: 85053},
+																		pos: position{line: 2664, col: 5, offset: 85054},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2664, col: 5, offset: 85053},
+																				pos: position{line: 2664, col: 5, offset: 85054},
 																				expr: &choiceExpr{
-																					pos: position{line: 2661, col: 22, offset: 85014},
+																					pos: position{line: 2661, col: 22, offset: 85015},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2657, col: 19, offset: 84934},
+																							pos: position{line: 2657, col: 19, offset: 84935},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2657, col: 19, offset: 84934},
+																									pos:        position{line: 2657, col: 19, offset: 84935},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2657, col: 26, offset: 84941},
+																									pos: position{line: 2657, col: 26, offset: 84942},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92410},
+																										pos: position{line: 2922, col: 10, offset: 92411},
 																										run: (*parser).callonListContinuationElement1383,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92410},
+																											pos:        position{line: 2922, col: 10, offset: 92411},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36140,28 +36140,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92808},
+																									pos: position{line: 2944, col: 8, offset: 92809},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92581},
+																											pos: position{line: 2931, col: 12, offset: 92582},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92582},
+																												pos: position{line: 2931, col: 13, offset: 92583},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92582},
+																														pos:        position{line: 2931, col: 13, offset: 92583},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92589},
+																														pos:        position{line: 2931, col: 20, offset: 92590},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92598},
+																														pos:        position{line: 2931, col: 29, offset: 92599},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36170,9 +36170,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92758},
+																											pos: position{line: 2941, col: 8, offset: 92759},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92759,
+																												line: 2941, col: 9, offset: 92760,
 																											},
 																										},
 																									},
@@ -36180,59 +36180,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92758},
+																							pos: position{line: 2941, col: 8, offset: 92759},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92759,
+																								line: 2941, col: 9, offset: 92760,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2665, col: 5, offset: 85076},
+																				pos:   position{line: 2665, col: 5, offset: 85077},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2666, col: 9, offset: 85094},
+																					pos: position{line: 2666, col: 9, offset: 85095},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2666, col: 10, offset: 85095},
+																							pos: position{line: 2666, col: 10, offset: 85096},
 																							run: (*parser).callonListContinuationElement1397,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2666, col: 10, offset: 85095},
+																								pos:   position{line: 2666, col: 10, offset: 85096},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2666, col: 17, offset: 85102},
+																									pos: position{line: 2666, col: 17, offset: 85103},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2674, col: 21, offset: 85298},
+																											pos: position{line: 2674, col: 21, offset: 85299},
 																											run: (*parser).callonListContinuationElement1400,
 																											expr: &seqExpr{
-																												pos: position{line: 2674, col: 21, offset: 85298},
+																												pos: position{line: 2674, col: 21, offset: 85299},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2674, col: 21, offset: 85298},
+																														pos:   position{line: 2674, col: 21, offset: 85299},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2674, col: 27, offset: 85304},
+																															pos: position{line: 2674, col: 27, offset: 85305},
 																															expr: &actionExpr{
-																																pos: position{line: 2679, col: 5, offset: 85379},
+																																pos: position{line: 2679, col: 5, offset: 85380},
 																																run: (*parser).callonListContinuationElement1404,
 																																expr: &seqExpr{
-																																	pos: position{line: 2679, col: 5, offset: 85379},
+																																	pos: position{line: 2679, col: 5, offset: 85380},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2679, col: 5, offset: 85379},
+																																			pos:        position{line: 2679, col: 5, offset: 85380},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2679, col: 9, offset: 85383},
+																																			pos: position{line: 2679, col: 9, offset: 85384},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2922, col: 10, offset: 92410},
+																																				pos: position{line: 2922, col: 10, offset: 92411},
 																																				run: (*parser).callonListContinuationElement1408,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2922, col: 10, offset: 92410},
+																																					pos:        position{line: 2922, col: 10, offset: 92411},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36241,21 +36241,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2679, col: 16, offset: 85390},
+																																			pos:   position{line: 2679, col: 16, offset: 85391},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2685, col: 5, offset: 85590},
+																																				pos: position{line: 2685, col: 5, offset: 85591},
 																																				run: (*parser).callonListContinuationElement1411,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2685, col: 5, offset: 85590},
+																																					pos:   position{line: 2685, col: 5, offset: 85591},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2685, col: 14, offset: 85599},
+																																						pos: position{line: 2685, col: 14, offset: 85600},
 																																						run: (*parser).callonListContinuationElement1413,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2685, col: 14, offset: 85599},
+																																							pos: position{line: 2685, col: 14, offset: 85600},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2685, col: 14, offset: 85599},
+																																								pos:        position{line: 2685, col: 14, offset: 85600},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36272,28 +36272,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2944, col: 8, offset: 92808},
+																														pos: position{line: 2944, col: 8, offset: 92809},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2931, col: 12, offset: 92581},
+																																pos: position{line: 2931, col: 12, offset: 92582},
 																																run: (*parser).callonListContinuationElement1417,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2931, col: 13, offset: 92582},
+																																	pos: position{line: 2931, col: 13, offset: 92583},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2931, col: 13, offset: 92582},
+																																			pos:        position{line: 2931, col: 13, offset: 92583},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2931, col: 20, offset: 92589},
+																																			pos:        position{line: 2931, col: 20, offset: 92590},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2931, col: 29, offset: 92598},
+																																			pos:        position{line: 2931, col: 29, offset: 92599},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36302,9 +36302,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2941, col: 8, offset: 92758},
+																																pos: position{line: 2941, col: 8, offset: 92759},
 																																expr: &anyMatcher{
-																																	line: 2941, col: 9, offset: 92759,
+																																	line: 2941, col: 9, offset: 92760,
 																																},
 																															},
 																														},
@@ -36313,40 +36313,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2691, col: 24, offset: 85735},
+																											pos: position{line: 2691, col: 24, offset: 85736},
 																											run: (*parser).callonListContinuationElement1424,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2691, col: 24, offset: 85735},
+																												pos:   position{line: 2691, col: 24, offset: 85736},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2691, col: 30, offset: 85741},
+																													pos: position{line: 2691, col: 30, offset: 85742},
 																													expr: &actionExpr{
-																														pos: position{line: 2696, col: 5, offset: 85817},
+																														pos: position{line: 2696, col: 5, offset: 85818},
 																														run: (*parser).callonListContinuationElement1427,
 																														expr: &seqExpr{
-																															pos: position{line: 2696, col: 5, offset: 85817},
+																															pos: position{line: 2696, col: 5, offset: 85818},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2696, col: 5, offset: 85817},
+																																	pos: position{line: 2696, col: 5, offset: 85818},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2661, col: 22, offset: 85014},
+																																		pos: position{line: 2661, col: 22, offset: 85015},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2657, col: 19, offset: 84934},
+																																				pos: position{line: 2657, col: 19, offset: 84935},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2657, col: 19, offset: 84934},
+																																						pos:        position{line: 2657, col: 19, offset: 84935},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2657, col: 26, offset: 84941},
+																																						pos: position{line: 2657, col: 26, offset: 84942},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2922, col: 10, offset: 92410},
+																																							pos: position{line: 2922, col: 10, offset: 92411},
 																																							run: (*parser).callonListContinuationElement1434,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2922, col: 10, offset: 92410},
+																																								pos:        position{line: 2922, col: 10, offset: 92411},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36355,28 +36355,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2944, col: 8, offset: 92808},
+																																						pos: position{line: 2944, col: 8, offset: 92809},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2931, col: 12, offset: 92581},
+																																								pos: position{line: 2931, col: 12, offset: 92582},
 																																								run: (*parser).callonListContinuationElement1437,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2931, col: 13, offset: 92582},
+																																									pos: position{line: 2931, col: 13, offset: 92583},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2931, col: 13, offset: 92582},
+																																											pos:        position{line: 2931, col: 13, offset: 92583},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2931, col: 20, offset: 92589},
+																																											pos:        position{line: 2931, col: 20, offset: 92590},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2931, col: 29, offset: 92598},
+																																											pos:        position{line: 2931, col: 29, offset: 92599},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36385,9 +36385,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2941, col: 8, offset: 92758},
+																																								pos: position{line: 2941, col: 8, offset: 92759},
 																																								expr: &anyMatcher{
-																																									line: 2941, col: 9, offset: 92759,
+																																									line: 2941, col: 9, offset: 92760,
 																																								},
 																																							},
 																																						},
@@ -36395,35 +36395,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2941, col: 8, offset: 92758},
+																																				pos: position{line: 2941, col: 8, offset: 92759},
 																																				expr: &anyMatcher{
-																																					line: 2941, col: 9, offset: 92759,
+																																					line: 2941, col: 9, offset: 92760,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2697, col: 5, offset: 85840},
+																																	pos: position{line: 2697, col: 5, offset: 85841},
 																																	expr: &actionExpr{
-																																		pos: position{line: 690, col: 14, offset: 22172},
+																																		pos: position{line: 690, col: 14, offset: 22173},
 																																		run: (*parser).callonListContinuationElement1447,
 																																		expr: &seqExpr{
-																																			pos: position{line: 690, col: 14, offset: 22172},
+																																			pos: position{line: 690, col: 14, offset: 22173},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2939, col: 11, offset: 92744},
+																																					pos: position{line: 2939, col: 11, offset: 92745},
 																																					expr: &anyMatcher{
-																																						line: 2939, col: 13, offset: 92746,
+																																						line: 2939, col: 13, offset: 92747,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 690, col: 21, offset: 22179},
+																																					pos: position{line: 690, col: 21, offset: 22180},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2922, col: 10, offset: 92410},
+																																						pos: position{line: 2922, col: 10, offset: 92411},
 																																						run: (*parser).callonListContinuationElement1452,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2922, col: 10, offset: 92410},
+																																							pos:        position{line: 2922, col: 10, offset: 92411},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36432,28 +36432,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2944, col: 8, offset: 92808},
+																																					pos: position{line: 2944, col: 8, offset: 92809},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2931, col: 12, offset: 92581},
+																																							pos: position{line: 2931, col: 12, offset: 92582},
 																																							run: (*parser).callonListContinuationElement1455,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2931, col: 13, offset: 92582},
+																																								pos: position{line: 2931, col: 13, offset: 92583},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2931, col: 13, offset: 92582},
+																																										pos:        position{line: 2931, col: 13, offset: 92583},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2931, col: 20, offset: 92589},
+																																										pos:        position{line: 2931, col: 20, offset: 92590},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2931, col: 29, offset: 92598},
+																																										pos:        position{line: 2931, col: 29, offset: 92599},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36462,9 +36462,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2941, col: 8, offset: 92758},
+																																							pos: position{line: 2941, col: 8, offset: 92759},
 																																							expr: &anyMatcher{
-																																								line: 2941, col: 9, offset: 92759,
+																																								line: 2941, col: 9, offset: 92760,
 																																							},
 																																						},
 																																					},
@@ -36474,17 +36474,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2698, col: 5, offset: 85855},
+																																	pos:   position{line: 2698, col: 5, offset: 85856},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2698, col: 12, offset: 85862},
+																																		pos: position{line: 2698, col: 12, offset: 85863},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2722, col: 20, offset: 86485},
+																																			pos: position{line: 2722, col: 20, offset: 86486},
 																																			run: (*parser).callonListContinuationElement1464,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2722, col: 20, offset: 86485},
+																																				pos: position{line: 2722, col: 20, offset: 86486},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2722, col: 20, offset: 86485},
+																																					pos:        position{line: 2722, col: 20, offset: 86486},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36495,18 +36495,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2698, col: 31, offset: 85881},
+																																	pos:        position{line: 2698, col: 31, offset: 85882},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2698, col: 35, offset: 85885},
+																																	pos: position{line: 2698, col: 35, offset: 85886},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2922, col: 10, offset: 92410},
+																																		pos: position{line: 2922, col: 10, offset: 92411},
 																																		run: (*parser).callonListContinuationElement1469,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2922, col: 10, offset: 92410},
+																																			pos:        position{line: 2922, col: 10, offset: 92411},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36515,27 +36515,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2698, col: 42, offset: 85892},
+																																	pos: position{line: 2698, col: 42, offset: 85893},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2931, col: 12, offset: 92581},
+																																		pos: position{line: 2931, col: 12, offset: 92582},
 																																		run: (*parser).callonListContinuationElement1472,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2931, col: 13, offset: 92582},
+																																			pos: position{line: 2931, col: 13, offset: 92583},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2931, col: 13, offset: 92582},
+																																					pos:        position{line: 2931, col: 13, offset: 92583},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2931, col: 20, offset: 92589},
+																																					pos:        position{line: 2931, col: 20, offset: 92590},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2931, col: 29, offset: 92598},
+																																					pos:        position{line: 2931, col: 29, offset: 92599},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36545,57 +36545,57 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2698, col: 51, offset: 85901},
+																																	pos:   position{line: 2698, col: 51, offset: 85902},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2704, col: 5, offset: 86060},
+																																		pos: position{line: 2704, col: 5, offset: 86061},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2705, col: 9, offset: 86070},
+																																			pos: position{line: 2705, col: 9, offset: 86071},
 																																			alternatives: []interface{}{
 																																				&actionExpr{
-																																					pos: position{line: 2705, col: 9, offset: 86070},
+																																					pos: position{line: 2705, col: 9, offset: 86071},
 																																					run: (*parser).callonListContinuationElement1480,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2705, col: 9, offset: 86070},
+																																						pos: position{line: 2705, col: 9, offset: 86071},
 																																						exprs: []interface{}{
 																																							&andCodeExpr{
-																																								pos: position{line: 2705, col: 9, offset: 86070},
+																																								pos: position{line: 2705, col: 9, offset: 86071},
 																																								run: (*parser).callonListContinuationElement1482,
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2708, col: 9, offset: 86139},
+																																								pos:   position{line: 2708, col: 9, offset: 86140},
 																																								label: "comment",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2525, col: 22, offset: 81188},
+																																									pos: position{line: 2525, col: 22, offset: 81189},
 																																									run: (*parser).callonListContinuationElement1484,
 																																									expr: &seqExpr{
-																																										pos: position{line: 2525, col: 22, offset: 81188},
+																																										pos: position{line: 2525, col: 22, offset: 81189},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2530, col: 31, offset: 81438},
+																																												pos:        position{line: 2530, col: 31, offset: 81439},
 																																												val:        "//",
 																																												ignoreCase: false,
 																																												want:       "\"//\"",
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2530, col: 36, offset: 81443},
+																																												pos: position{line: 2530, col: 36, offset: 81444},
 																																												expr: &litMatcher{
-																																													pos:        position{line: 2530, col: 37, offset: 81444},
+																																													pos:        position{line: 2530, col: 37, offset: 81445},
 																																													val:        "/",
 																																													ignoreCase: false,
 																																													want:       "\"/\"",
 																																												},
 																																											},
 																																											&labeledExpr{
-																																												pos:   position{line: 2525, col: 49, offset: 81215},
+																																												pos:   position{line: 2525, col: 49, offset: 81216},
 																																												label: "content",
 																																												expr: &actionExpr{
-																																													pos: position{line: 2868, col: 13, offset: 90936},
+																																													pos: position{line: 2868, col: 13, offset: 90937},
 																																													run: (*parser).callonListContinuationElement1490,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2868, col: 13, offset: 90936},
+																																														pos: position{line: 2868, col: 13, offset: 90937},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2868, col: 13, offset: 90936},
+																																															pos:        position{line: 2868, col: 13, offset: 90937},
 																																															val:        "[^\\r\\n]",
 																																															chars:      []rune{'\r', '\n'},
 																																															ignoreCase: false,
@@ -36605,28 +36605,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2944, col: 8, offset: 92808},
+																																												pos: position{line: 2944, col: 8, offset: 92809},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2931, col: 12, offset: 92581},
+																																														pos: position{line: 2931, col: 12, offset: 92582},
 																																														run: (*parser).callonListContinuationElement1494,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2931, col: 13, offset: 92582},
+																																															pos: position{line: 2931, col: 13, offset: 92583},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2931, col: 13, offset: 92582},
+																																																	pos:        position{line: 2931, col: 13, offset: 92583},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2931, col: 20, offset: 92589},
+																																																	pos:        position{line: 2931, col: 20, offset: 92590},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2931, col: 29, offset: 92598},
+																																																	pos:        position{line: 2931, col: 29, offset: 92599},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -36635,9 +36635,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2941, col: 8, offset: 92758},
+																																														pos: position{line: 2941, col: 8, offset: 92759},
 																																														expr: &anyMatcher{
-																																															line: 2941, col: 9, offset: 92759,
+																																															line: 2941, col: 9, offset: 92760,
 																																														},
 																																													},
 																																												},
@@ -36650,32 +36650,32 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&actionExpr{
-																																					pos: position{line: 2712, col: 9, offset: 86229},
+																																					pos: position{line: 2712, col: 9, offset: 86230},
 																																					run: (*parser).callonListContinuationElement1501,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2712, col: 9, offset: 86229},
+																																						pos: position{line: 2712, col: 9, offset: 86230},
 																																						exprs: []interface{}{
 																																							&notExpr{
-																																								pos: position{line: 2712, col: 9, offset: 86229},
+																																								pos: position{line: 2712, col: 9, offset: 86230},
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2661, col: 22, offset: 85014},
+																																									pos: position{line: 2661, col: 22, offset: 85015},
 																																									alternatives: []interface{}{
 																																										&seqExpr{
-																																											pos: position{line: 2657, col: 19, offset: 84934},
+																																											pos: position{line: 2657, col: 19, offset: 84935},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2657, col: 19, offset: 84934},
+																																													pos:        position{line: 2657, col: 19, offset: 84935},
 																																													val:        "|===",
 																																													ignoreCase: false,
 																																													want:       "\"|===\"",
 																																												},
 																																												&zeroOrMoreExpr{
-																																													pos: position{line: 2657, col: 26, offset: 84941},
+																																													pos: position{line: 2657, col: 26, offset: 84942},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2922, col: 10, offset: 92410},
+																																														pos: position{line: 2922, col: 10, offset: 92411},
 																																														run: (*parser).callonListContinuationElement1508,
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2922, col: 10, offset: 92410},
+																																															pos:        position{line: 2922, col: 10, offset: 92411},
 																																															val:        "[\\t ]",
 																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
@@ -36684,28 +36684,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2944, col: 8, offset: 92808},
+																																													pos: position{line: 2944, col: 8, offset: 92809},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2931, col: 12, offset: 92581},
+																																															pos: position{line: 2931, col: 12, offset: 92582},
 																																															run: (*parser).callonListContinuationElement1511,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2931, col: 13, offset: 92582},
+																																																pos: position{line: 2931, col: 13, offset: 92583},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 13, offset: 92582},
+																																																		pos:        position{line: 2931, col: 13, offset: 92583},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 20, offset: 92589},
+																																																		pos:        position{line: 2931, col: 20, offset: 92590},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 29, offset: 92598},
+																																																		pos:        position{line: 2931, col: 29, offset: 92599},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -36714,9 +36714,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2941, col: 8, offset: 92758},
+																																															pos: position{line: 2941, col: 8, offset: 92759},
 																																															expr: &anyMatcher{
-																																																line: 2941, col: 9, offset: 92759,
+																																																line: 2941, col: 9, offset: 92760,
 																																															},
 																																														},
 																																													},
@@ -36724,35 +36724,35 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2941, col: 8, offset: 92758},
+																																											pos: position{line: 2941, col: 8, offset: 92759},
 																																											expr: &anyMatcher{
-																																												line: 2941, col: 9, offset: 92759,
+																																												line: 2941, col: 9, offset: 92760,
 																																											},
 																																										},
 																																									},
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2713, col: 9, offset: 86256},
+																																								pos: position{line: 2713, col: 9, offset: 86257},
 																																								expr: &actionExpr{
-																																									pos: position{line: 690, col: 14, offset: 22172},
+																																									pos: position{line: 690, col: 14, offset: 22173},
 																																									run: (*parser).callonListContinuationElement1521,
 																																									expr: &seqExpr{
-																																										pos: position{line: 690, col: 14, offset: 22172},
+																																										pos: position{line: 690, col: 14, offset: 22173},
 																																										exprs: []interface{}{
 																																											&andExpr{
-																																												pos: position{line: 2939, col: 11, offset: 92744},
+																																												pos: position{line: 2939, col: 11, offset: 92745},
 																																												expr: &anyMatcher{
-																																													line: 2939, col: 13, offset: 92746,
+																																													line: 2939, col: 13, offset: 92747,
 																																												},
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 690, col: 21, offset: 22179},
+																																												pos: position{line: 690, col: 21, offset: 22180},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2922, col: 10, offset: 92410},
+																																													pos: position{line: 2922, col: 10, offset: 92411},
 																																													run: (*parser).callonListContinuationElement1526,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2922, col: 10, offset: 92410},
+																																														pos:        position{line: 2922, col: 10, offset: 92411},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -36761,28 +36761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2944, col: 8, offset: 92808},
+																																												pos: position{line: 2944, col: 8, offset: 92809},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2931, col: 12, offset: 92581},
+																																														pos: position{line: 2931, col: 12, offset: 92582},
 																																														run: (*parser).callonListContinuationElement1529,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2931, col: 13, offset: 92582},
+																																															pos: position{line: 2931, col: 13, offset: 92583},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2931, col: 13, offset: 92582},
+																																																	pos:        position{line: 2931, col: 13, offset: 92583},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2931, col: 20, offset: 92589},
+																																																	pos:        position{line: 2931, col: 20, offset: 92590},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2931, col: 29, offset: 92598},
+																																																	pos:        position{line: 2931, col: 29, offset: 92599},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -36791,9 +36791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2941, col: 8, offset: 92758},
+																																														pos: position{line: 2941, col: 8, offset: 92759},
 																																														expr: &anyMatcher{
-																																															line: 2941, col: 9, offset: 92759,
+																																															line: 2941, col: 9, offset: 92760,
 																																														},
 																																													},
 																																												},
@@ -36803,22 +36803,22 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2714, col: 9, offset: 86275},
+																																								pos: position{line: 2714, col: 9, offset: 86276},
 																																								expr: &seqExpr{
-																																									pos: position{line: 2714, col: 11, offset: 86277},
+																																									pos: position{line: 2714, col: 11, offset: 86278},
 																																									exprs: []interface{}{
 																																										&labeledExpr{
-																																											pos:   position{line: 2714, col: 11, offset: 86277},
+																																											pos:   position{line: 2714, col: 11, offset: 86278},
 																																											label: "format",
 																																											expr: &zeroOrOneExpr{
-																																												pos: position{line: 2714, col: 18, offset: 86284},
+																																												pos: position{line: 2714, col: 18, offset: 86285},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2722, col: 20, offset: 86485},
+																																													pos: position{line: 2722, col: 20, offset: 86486},
 																																													run: (*parser).callonListContinuationElement1540,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2722, col: 20, offset: 86485},
+																																														pos: position{line: 2722, col: 20, offset: 86486},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2722, col: 20, offset: 86485},
+																																															pos:        position{line: 2722, col: 20, offset: 86486},
 																																															val:        "[^ |\\r\\n]",
 																																															chars:      []rune{' ', '|', '\r', '\n'},
 																																															ignoreCase: false,
@@ -36829,7 +36829,7 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2714, col: 37, offset: 86303},
+																																											pos:        position{line: 2714, col: 37, offset: 86304},
 																																											val:        "|",
 																																											ignoreCase: false,
 																																											want:       "\"|\"",
@@ -36838,15 +36838,15 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2715, col: 9, offset: 86316},
+																																								pos:   position{line: 2715, col: 9, offset: 86317},
 																																								label: "content",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2715, col: 18, offset: 86325},
+																																									pos: position{line: 2715, col: 18, offset: 86326},
 																																									run: (*parser).callonListContinuationElement1545,
 																																									expr: &zeroOrMoreExpr{
-																																										pos: position{line: 2715, col: 18, offset: 86325},
+																																										pos: position{line: 2715, col: 18, offset: 86326},
 																																										expr: &charClassMatcher{
-																																											pos:        position{line: 2715, col: 18, offset: 86325},
+																																											pos:        position{line: 2715, col: 18, offset: 86326},
 																																											val:        "[^|\\r\\n]",
 																																											chars:      []rune{'|', '\r', '\n'},
 																																											ignoreCase: false,
@@ -36856,30 +36856,30 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&zeroOrOneExpr{
-																																								pos: position{line: 2717, col: 12, offset: 86387},
+																																								pos: position{line: 2717, col: 12, offset: 86388},
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2944, col: 8, offset: 92808},
+																																									pos: position{line: 2944, col: 8, offset: 92809},
 																																									alternatives: []interface{}{
 																																										&actionExpr{
-																																											pos: position{line: 2931, col: 12, offset: 92581},
+																																											pos: position{line: 2931, col: 12, offset: 92582},
 																																											run: (*parser).callonListContinuationElement1550,
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2931, col: 13, offset: 92582},
+																																												pos: position{line: 2931, col: 13, offset: 92583},
 																																												alternatives: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2931, col: 13, offset: 92582},
+																																														pos:        position{line: 2931, col: 13, offset: 92583},
 																																														val:        "\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2931, col: 20, offset: 92589},
+																																														pos:        position{line: 2931, col: 20, offset: 92590},
 																																														val:        "\r\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2931, col: 29, offset: 92598},
+																																														pos:        position{line: 2931, col: 29, offset: 92599},
 																																														val:        "\r",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\"",
@@ -36888,9 +36888,9 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2941, col: 8, offset: 92758},
+																																											pos: position{line: 2941, col: 8, offset: 92759},
 																																											expr: &anyMatcher{
-																																												line: 2941, col: 9, offset: 92759,
+																																												line: 2941, col: 9, offset: 92760,
 																																											},
 																																										},
 																																									},
@@ -36914,24 +36914,24 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 690, col: 14, offset: 22172},
+																							pos: position{line: 690, col: 14, offset: 22173},
 																							run: (*parser).callonListContinuationElement1557,
 																							expr: &seqExpr{
-																								pos: position{line: 690, col: 14, offset: 22172},
+																								pos: position{line: 690, col: 14, offset: 22173},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2939, col: 11, offset: 92744},
+																										pos: position{line: 2939, col: 11, offset: 92745},
 																										expr: &anyMatcher{
-																											line: 2939, col: 13, offset: 92746,
+																											line: 2939, col: 13, offset: 92747,
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 690, col: 21, offset: 22179},
+																										pos: position{line: 690, col: 21, offset: 22180},
 																										expr: &actionExpr{
-																											pos: position{line: 2922, col: 10, offset: 92410},
+																											pos: position{line: 2922, col: 10, offset: 92411},
 																											run: (*parser).callonListContinuationElement1562,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2922, col: 10, offset: 92410},
+																												pos:        position{line: 2922, col: 10, offset: 92411},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36940,28 +36940,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2944, col: 8, offset: 92808},
+																										pos: position{line: 2944, col: 8, offset: 92809},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2931, col: 12, offset: 92581},
+																												pos: position{line: 2931, col: 12, offset: 92582},
 																												run: (*parser).callonListContinuationElement1565,
 																												expr: &choiceExpr{
-																													pos: position{line: 2931, col: 13, offset: 92582},
+																													pos: position{line: 2931, col: 13, offset: 92583},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2931, col: 13, offset: 92582},
+																															pos:        position{line: 2931, col: 13, offset: 92583},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2931, col: 20, offset: 92589},
+																															pos:        position{line: 2931, col: 20, offset: 92590},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2931, col: 29, offset: 92598},
+																															pos:        position{line: 2931, col: 29, offset: 92599},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36970,9 +36970,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2941, col: 8, offset: 92758},
+																												pos: position{line: 2941, col: 8, offset: 92759},
 																												expr: &anyMatcher{
-																													line: 2941, col: 9, offset: 92759,
+																													line: 2941, col: 9, offset: 92760,
 																												},
 																											},
 																										},
@@ -36991,24 +36991,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2661, col: 22, offset: 85014},
+													pos: position{line: 2661, col: 22, offset: 85015},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2657, col: 19, offset: 84934},
+															pos: position{line: 2657, col: 19, offset: 84935},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2657, col: 19, offset: 84934},
+																	pos:        position{line: 2657, col: 19, offset: 84935},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2657, col: 26, offset: 84941},
+																	pos: position{line: 2657, col: 26, offset: 84942},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92410},
+																		pos: position{line: 2922, col: 10, offset: 92411},
 																		run: (*parser).callonListContinuationElement1576,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92410},
+																			pos:        position{line: 2922, col: 10, offset: 92411},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37017,28 +37017,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92808},
+																	pos: position{line: 2944, col: 8, offset: 92809},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92581},
+																			pos: position{line: 2931, col: 12, offset: 92582},
 																			run: (*parser).callonListContinuationElement1579,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92582},
+																				pos: position{line: 2931, col: 13, offset: 92583},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92582},
+																						pos:        position{line: 2931, col: 13, offset: 92583},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92589},
+																						pos:        position{line: 2931, col: 20, offset: 92590},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92598},
+																						pos:        position{line: 2931, col: 29, offset: 92599},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37047,9 +37047,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92758},
+																			pos: position{line: 2941, col: 8, offset: 92759},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92759,
+																				line: 2941, col: 9, offset: 92760,
 																			},
 																		},
 																	},
@@ -37057,9 +37057,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92758},
+															pos: position{line: 2941, col: 8, offset: 92759},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92759,
+																line: 2941, col: 9, offset: 92760,
 															},
 														},
 													},
@@ -37068,36 +37068,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2525, col: 22, offset: 81188},
+										pos: position{line: 2525, col: 22, offset: 81189},
 										run: (*parser).callonListContinuationElement1588,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 22, offset: 81188},
+											pos: position{line: 2525, col: 22, offset: 81189},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2530, col: 31, offset: 81438},
+													pos:        position{line: 2530, col: 31, offset: 81439},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2530, col: 36, offset: 81443},
+													pos: position{line: 2530, col: 36, offset: 81444},
 													expr: &litMatcher{
-														pos:        position{line: 2530, col: 37, offset: 81444},
+														pos:        position{line: 2530, col: 37, offset: 81445},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2525, col: 49, offset: 81215},
+													pos:   position{line: 2525, col: 49, offset: 81216},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 13, offset: 90936},
+														pos: position{line: 2868, col: 13, offset: 90937},
 														run: (*parser).callonListContinuationElement1594,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2868, col: 13, offset: 90936},
+															pos: position{line: 2868, col: 13, offset: 90937},
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 13, offset: 90936},
+																pos:        position{line: 2868, col: 13, offset: 90937},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37107,28 +37107,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92808},
+													pos: position{line: 2944, col: 8, offset: 92809},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92581},
+															pos: position{line: 2931, col: 12, offset: 92582},
 															run: (*parser).callonListContinuationElement1598,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92582},
+																pos: position{line: 2931, col: 13, offset: 92583},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92582},
+																		pos:        position{line: 2931, col: 13, offset: 92583},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92589},
+																		pos:        position{line: 2931, col: 20, offset: 92590},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92598},
+																		pos:        position{line: 2931, col: 29, offset: 92599},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37137,9 +37137,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92758},
+															pos: position{line: 2941, col: 8, offset: 92759},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92759,
+																line: 2941, col: 9, offset: 92760,
 															},
 														},
 													},
@@ -37148,94 +37148,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1580, col: 5, offset: 51249},
+										pos: position{line: 1580, col: 5, offset: 51250},
 										run: (*parser).callonListContinuationElement1605,
 										expr: &seqExpr{
-											pos: position{line: 1580, col: 5, offset: 51249},
+											pos: position{line: 1580, col: 5, offset: 51250},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1580, col: 5, offset: 51249},
+													pos:   position{line: 1580, col: 5, offset: 51250},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1580, col: 11, offset: 51255},
+														pos: position{line: 1580, col: 11, offset: 51256},
 														expr: &actionExpr{
-															pos: position{line: 1745, col: 5, offset: 56604},
+															pos: position{line: 1745, col: 5, offset: 56605},
 															run: (*parser).callonListContinuationElement1609,
 															expr: &seqExpr{
-																pos: position{line: 1745, col: 5, offset: 56604},
+																pos: position{line: 1745, col: 5, offset: 56605},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1745, col: 5, offset: 56604},
+																		pos: position{line: 1745, col: 5, offset: 56605},
 																		run: (*parser).callonListContinuationElement1611,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1748, col: 5, offset: 56667},
+																		pos:   position{line: 1748, col: 5, offset: 56668},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1748, col: 12, offset: 56674},
+																			pos: position{line: 1748, col: 12, offset: 56675},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1748, col: 12, offset: 56674},
+																					pos: position{line: 1748, col: 12, offset: 56675},
 																					run: (*parser).callonListContinuationElement1614,
 																					expr: &litMatcher{
-																						pos:        position{line: 1748, col: 12, offset: 56674},
+																						pos:        position{line: 1748, col: 12, offset: 56675},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1750, col: 13, offset: 56730},
+																					pos: position{line: 1750, col: 13, offset: 56731},
 																					run: (*parser).callonListContinuationElement1616,
 																					expr: &litMatcher{
-																						pos:        position{line: 1750, col: 13, offset: 56730},
+																						pos:        position{line: 1750, col: 13, offset: 56731},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1752, col: 13, offset: 56788},
+																					pos: position{line: 1752, col: 13, offset: 56789},
 																					run: (*parser).callonListContinuationElement1618,
 																					expr: &litMatcher{
-																						pos:        position{line: 1752, col: 13, offset: 56788},
+																						pos:        position{line: 1752, col: 13, offset: 56789},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1754, col: 13, offset: 56856},
+																					pos: position{line: 1754, col: 13, offset: 56857},
 																					run: (*parser).callonListContinuationElement1620,
 																					expr: &litMatcher{
-																						pos:        position{line: 1754, col: 13, offset: 56856},
+																						pos:        position{line: 1754, col: 13, offset: 56857},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1756, col: 13, offset: 56920},
+																					pos: position{line: 1756, col: 13, offset: 56921},
 																					run: (*parser).callonListContinuationElement1622,
 																					expr: &litMatcher{
-																						pos:        position{line: 1756, col: 13, offset: 56920},
+																						pos:        position{line: 1756, col: 13, offset: 56921},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1758, col: 13, offset: 56984},
+																					pos: position{line: 1758, col: 13, offset: 56985},
 																					run: (*parser).callonListContinuationElement1624,
 																					expr: &andExpr{
-																						pos: position{line: 1758, col: 13, offset: 56984},
+																						pos: position{line: 1758, col: 13, offset: 56985},
 																						expr: &actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92471},
+																							pos: position{line: 2926, col: 11, offset: 92472},
 																							run: (*parser).callonListContinuationElement1626,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92471},
+																								pos: position{line: 2926, col: 11, offset: 92472},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92471},
+																									pos:        position{line: 2926, col: 11, offset: 92472},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37254,35 +37254,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1581, col: 5, offset: 51278},
+													pos:   position{line: 1581, col: 5, offset: 51279},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1523, col: 5, offset: 49594},
+														pos: position{line: 1523, col: 5, offset: 49595},
 														run: (*parser).callonListContinuationElement1630,
 														expr: &seqExpr{
-															pos: position{line: 1523, col: 5, offset: 49594},
+															pos: position{line: 1523, col: 5, offset: 49595},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1523, col: 5, offset: 49594},
+																	pos: position{line: 1523, col: 5, offset: 49595},
 																	expr: &actionExpr{
-																		pos: position{line: 690, col: 14, offset: 22172},
+																		pos: position{line: 690, col: 14, offset: 22173},
 																		run: (*parser).callonListContinuationElement1633,
 																		expr: &seqExpr{
-																			pos: position{line: 690, col: 14, offset: 22172},
+																			pos: position{line: 690, col: 14, offset: 22173},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2939, col: 11, offset: 92744},
+																					pos: position{line: 2939, col: 11, offset: 92745},
 																					expr: &anyMatcher{
-																						line: 2939, col: 13, offset: 92746,
+																						line: 2939, col: 13, offset: 92747,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 690, col: 21, offset: 22179},
+																					pos: position{line: 690, col: 21, offset: 22180},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92410},
+																						pos: position{line: 2922, col: 10, offset: 92411},
 																						run: (*parser).callonListContinuationElement1638,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92410},
+																							pos:        position{line: 2922, col: 10, offset: 92411},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37291,28 +37291,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92808},
+																					pos: position{line: 2944, col: 8, offset: 92809},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92581},
+																							pos: position{line: 2931, col: 12, offset: 92582},
 																							run: (*parser).callonListContinuationElement1641,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92582},
+																								pos: position{line: 2931, col: 13, offset: 92583},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92582},
+																										pos:        position{line: 2931, col: 13, offset: 92583},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92589},
+																										pos:        position{line: 2931, col: 20, offset: 92590},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92598},
+																										pos:        position{line: 2931, col: 29, offset: 92599},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37321,9 +37321,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92758},
+																							pos: position{line: 2941, col: 8, offset: 92759},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92759,
+																								line: 2941, col: 9, offset: 92760,
 																							},
 																						},
 																					},
@@ -37333,23 +37333,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1524, col: 5, offset: 49609},
+																	pos: position{line: 1524, col: 5, offset: 49610},
 																	expr: &seqExpr{
-																		pos: position{line: 1555, col: 27, offset: 50469},
+																		pos: position{line: 1555, col: 27, offset: 50470},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1555, col: 27, offset: 50469},
+																				pos:        position{line: 1555, col: 27, offset: 50470},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1555, col: 31, offset: 50473},
+																				pos: position{line: 1555, col: 31, offset: 50474},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92410},
+																					pos: position{line: 2922, col: 10, offset: 92411},
 																					run: (*parser).callonListContinuationElement1652,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92410},
+																						pos:        position{line: 2922, col: 10, offset: 92411},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37358,25 +37358,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonListContinuationElement1654,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37388,20 +37388,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1525, col: 5, offset: 49637},
+																	pos: position{line: 1525, col: 5, offset: 49638},
 																	expr: &actionExpr{
-																		pos: position{line: 1596, col: 5, offset: 51688},
+																		pos: position{line: 1596, col: 5, offset: 51689},
 																		run: (*parser).callonListContinuationElement1660,
 																		expr: &seqExpr{
-																			pos: position{line: 1596, col: 5, offset: 51688},
+																			pos: position{line: 1596, col: 5, offset: 51689},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1596, col: 5, offset: 51688},
+																					pos: position{line: 1596, col: 5, offset: 51689},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92410},
+																						pos: position{line: 2922, col: 10, offset: 92411},
 																						run: (*parser).callonListContinuationElement1663,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92410},
+																							pos:        position{line: 2922, col: 10, offset: 92411},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37410,27 +37410,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1596, col: 12, offset: 51695},
+																					pos:   position{line: 1596, col: 12, offset: 51696},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1598, col: 9, offset: 51758},
+																						pos: position{line: 1598, col: 9, offset: 51759},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1598, col: 9, offset: 51758},
+																								pos: position{line: 1598, col: 9, offset: 51759},
 																								run: (*parser).callonListContinuationElement1667,
 																								expr: &seqExpr{
-																									pos: position{line: 1598, col: 9, offset: 51758},
+																									pos: position{line: 1598, col: 9, offset: 51759},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1598, col: 9, offset: 51758},
+																											pos:   position{line: 1598, col: 9, offset: 51759},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1598, col: 16, offset: 51765},
+																												pos: position{line: 1598, col: 16, offset: 51766},
 																												run: (*parser).callonListContinuationElement1670,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1598, col: 16, offset: 51765},
+																													pos: position{line: 1598, col: 16, offset: 51766},
 																													expr: &litMatcher{
-																														pos:        position{line: 1598, col: 17, offset: 51766},
+																														pos:        position{line: 1598, col: 17, offset: 51767},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -37439,22 +37439,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1602, col: 9, offset: 51866},
+																											pos: position{line: 1602, col: 9, offset: 51867},
 																											run: (*parser).callonListContinuationElement1673,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1621, col: 11, offset: 52583},
+																								pos: position{line: 1621, col: 11, offset: 52584},
 																								run: (*parser).callonListContinuationElement1674,
 																								expr: &seqExpr{
-																									pos: position{line: 1621, col: 11, offset: 52583},
+																									pos: position{line: 1621, col: 11, offset: 52584},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1621, col: 11, offset: 52583},
+																											pos: position{line: 1621, col: 11, offset: 52584},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1621, col: 12, offset: 52584},
+																												pos:        position{line: 1621, col: 12, offset: 52585},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -37462,7 +37462,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1621, col: 20, offset: 52592},
+																											pos:        position{line: 1621, col: 20, offset: 52593},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37471,20 +37471,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1623, col: 13, offset: 52709},
+																								pos: position{line: 1623, col: 13, offset: 52710},
 																								run: (*parser).callonListContinuationElement1679,
 																								expr: &seqExpr{
-																									pos: position{line: 1623, col: 13, offset: 52709},
+																									pos: position{line: 1623, col: 13, offset: 52710},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1623, col: 14, offset: 52710},
+																											pos:        position{line: 1623, col: 14, offset: 52711},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1623, col: 21, offset: 52717},
+																											pos:        position{line: 1623, col: 21, offset: 52718},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37493,20 +37493,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1625, col: 13, offset: 52837},
+																								pos: position{line: 1625, col: 13, offset: 52838},
 																								run: (*parser).callonListContinuationElement1683,
 																								expr: &seqExpr{
-																									pos: position{line: 1625, col: 13, offset: 52837},
+																									pos: position{line: 1625, col: 13, offset: 52838},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1625, col: 14, offset: 52838},
+																											pos:        position{line: 1625, col: 14, offset: 52839},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1625, col: 21, offset: 52845},
+																											pos:        position{line: 1625, col: 21, offset: 52846},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37515,15 +37515,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1627, col: 13, offset: 52965},
+																								pos: position{line: 1627, col: 13, offset: 52966},
 																								run: (*parser).callonListContinuationElement1687,
 																								expr: &seqExpr{
-																									pos: position{line: 1627, col: 13, offset: 52965},
+																									pos: position{line: 1627, col: 13, offset: 52966},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1627, col: 13, offset: 52965},
+																											pos: position{line: 1627, col: 13, offset: 52966},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1627, col: 14, offset: 52966},
+																												pos:        position{line: 1627, col: 14, offset: 52967},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -37531,7 +37531,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1627, col: 26, offset: 52978},
+																											pos:        position{line: 1627, col: 26, offset: 52979},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37540,15 +37540,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1629, col: 13, offset: 53098},
+																								pos: position{line: 1629, col: 13, offset: 53099},
 																								run: (*parser).callonListContinuationElement1692,
 																								expr: &seqExpr{
-																									pos: position{line: 1629, col: 13, offset: 53098},
+																									pos: position{line: 1629, col: 13, offset: 53099},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1629, col: 13, offset: 53098},
+																											pos: position{line: 1629, col: 13, offset: 53099},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1629, col: 14, offset: 53099},
+																												pos:        position{line: 1629, col: 14, offset: 53100},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -37556,7 +37556,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1629, col: 26, offset: 53111},
+																											pos:        position{line: 1629, col: 26, offset: 53112},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37568,12 +37568,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2926, col: 11, offset: 92471},
+																					pos: position{line: 2926, col: 11, offset: 92472},
 																					run: (*parser).callonListContinuationElement1697,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2926, col: 11, offset: 92471},
+																						pos: position{line: 2926, col: 11, offset: 92472},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2926, col: 11, offset: 92471},
+																							pos:        position{line: 2926, col: 11, offset: 92472},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37586,20 +37586,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1526, col: 5, offset: 49667},
+																	pos: position{line: 1526, col: 5, offset: 49668},
 																	expr: &actionExpr{
-																		pos: position{line: 1646, col: 5, offset: 53650},
+																		pos: position{line: 1646, col: 5, offset: 53651},
 																		run: (*parser).callonListContinuationElement1701,
 																		expr: &seqExpr{
-																			pos: position{line: 1646, col: 5, offset: 53650},
+																			pos: position{line: 1646, col: 5, offset: 53651},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1646, col: 5, offset: 53650},
+																					pos: position{line: 1646, col: 5, offset: 53651},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92410},
+																						pos: position{line: 2922, col: 10, offset: 92411},
 																						run: (*parser).callonListContinuationElement1704,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92410},
+																							pos:        position{line: 2922, col: 10, offset: 92411},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37608,24 +37608,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1647, col: 5, offset: 53662},
+																					pos:   position{line: 1647, col: 5, offset: 53663},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1648, col: 9, offset: 53678},
+																						pos: position{line: 1648, col: 9, offset: 53679},
 																						run: (*parser).callonListContinuationElement1707,
 																						expr: &choiceExpr{
-																							pos: position{line: 1648, col: 10, offset: 53679},
+																							pos: position{line: 1648, col: 10, offset: 53680},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1648, col: 11, offset: 53680},
+																									pos:        position{line: 1648, col: 11, offset: 53681},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1648, col: 18, offset: 53687},
+																									pos: position{line: 1648, col: 18, offset: 53688},
 																									expr: &litMatcher{
-																										pos:        position{line: 1648, col: 19, offset: 53688},
+																										pos:        position{line: 1648, col: 19, offset: 53689},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -37636,16 +37636,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1651, col: 7, offset: 53778},
+																					pos: position{line: 1651, col: 7, offset: 53779},
 																					run: (*parser).callonListContinuationElement1712,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2926, col: 11, offset: 92471},
+																					pos: position{line: 2926, col: 11, offset: 92472},
 																					run: (*parser).callonListContinuationElement1713,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2926, col: 11, offset: 92471},
+																						pos: position{line: 2926, col: 11, offset: 92472},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2926, col: 11, offset: 92471},
+																							pos:        position{line: 2926, col: 11, offset: 92472},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37658,29 +37658,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1527, col: 5, offset: 49699},
+																	pos: position{line: 1527, col: 5, offset: 49700},
 																	expr: &actionExpr{
-																		pos: position{line: 1736, col: 5, offset: 56219},
+																		pos: position{line: 1736, col: 5, offset: 56220},
 																		run: (*parser).callonListContinuationElement1717,
 																		expr: &seqExpr{
-																			pos: position{line: 1736, col: 5, offset: 56219},
+																			pos: position{line: 1736, col: 5, offset: 56220},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1736, col: 5, offset: 56219},
+																					pos:        position{line: 1736, col: 5, offset: 56220},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1736, col: 9, offset: 56223},
+																					pos:   position{line: 1736, col: 9, offset: 56224},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1736, col: 14, offset: 56228},
+																						pos: position{line: 1736, col: 14, offset: 56229},
 																						run: (*parser).callonListContinuationElement1721,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1736, col: 14, offset: 56228},
+																							pos: position{line: 1736, col: 14, offset: 56229},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1736, col: 14, offset: 56228},
+																								pos:        position{line: 1736, col: 14, offset: 56229},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37690,18 +37690,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1736, col: 62, offset: 56276},
+																					pos:        position{line: 1736, col: 62, offset: 56277},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2926, col: 11, offset: 92471},
+																					pos: position{line: 2926, col: 11, offset: 92472},
 																					run: (*parser).callonListContinuationElement1725,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2926, col: 11, offset: 92471},
+																						pos: position{line: 2926, col: 11, offset: 92472},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2926, col: 11, offset: 92471},
+																							pos:        position{line: 2926, col: 11, offset: 92472},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37714,31 +37714,31 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1528, col: 5, offset: 49729},
+																	pos: position{line: 1528, col: 5, offset: 49730},
 																	expr: &seqExpr{
-																		pos: position{line: 1528, col: 7, offset: 49731},
+																		pos: position{line: 1528, col: 7, offset: 49732},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1681, col: 5, offset: 54669},
+																				pos: position{line: 1681, col: 5, offset: 54670},
 																				run: (*parser).callonListContinuationElement1730,
 																				expr: &seqExpr{
-																					pos: position{line: 1681, col: 5, offset: 54669},
+																					pos: position{line: 1681, col: 5, offset: 54670},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1681, col: 5, offset: 54669},
+																							pos: position{line: 1681, col: 5, offset: 54670},
 																							expr: &seqExpr{
-																								pos: position{line: 2530, col: 31, offset: 81438},
+																								pos: position{line: 2530, col: 31, offset: 81439},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2530, col: 31, offset: 81438},
+																										pos:        position{line: 2530, col: 31, offset: 81439},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2530, col: 36, offset: 81443},
+																										pos: position{line: 2530, col: 36, offset: 81444},
 																										expr: &litMatcher{
-																											pos:        position{line: 2530, col: 37, offset: 81444},
+																											pos:        position{line: 2530, col: 37, offset: 81445},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -37748,28 +37748,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1682, col: 5, offset: 54701},
+																							pos: position{line: 1682, col: 5, offset: 54702},
 																							expr: &seqExpr{
-																								pos: position{line: 1682, col: 6, offset: 54702},
+																								pos: position{line: 1682, col: 6, offset: 54703},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1682, col: 6, offset: 54702},
+																										pos: position{line: 1682, col: 6, offset: 54703},
 																										expr: &actionExpr{
-																											pos: position{line: 1687, col: 5, offset: 54852},
+																											pos: position{line: 1687, col: 5, offset: 54853},
 																											run: (*parser).callonListContinuationElement1740,
 																											expr: &seqExpr{
-																												pos: position{line: 1687, col: 5, offset: 54852},
+																												pos: position{line: 1687, col: 5, offset: 54853},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1687, col: 5, offset: 54852},
+																														pos:   position{line: 1687, col: 5, offset: 54853},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1687, col: 16, offset: 54863},
+																															pos: position{line: 1687, col: 16, offset: 54864},
 																															run: (*parser).callonListContinuationElement1743,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1687, col: 16, offset: 54863},
+																																pos: position{line: 1687, col: 16, offset: 54864},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1687, col: 17, offset: 54864},
+																																	pos:        position{line: 1687, col: 17, offset: 54865},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -37778,7 +37778,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1690, col: 5, offset: 54921},
+																														pos: position{line: 1690, col: 5, offset: 54922},
 																														run: (*parser).callonListContinuationElement1746,
 																													},
 																												},
@@ -37786,30 +37786,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1682, col: 35, offset: 54731},
+																										pos: position{line: 1682, col: 35, offset: 54732},
 																										expr: &choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92808},
+																											pos: position{line: 2944, col: 8, offset: 92809},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92581},
+																													pos: position{line: 2931, col: 12, offset: 92582},
 																													run: (*parser).callonListContinuationElement1749,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92582},
+																														pos: position{line: 2931, col: 13, offset: 92583},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92582},
+																																pos:        position{line: 2931, col: 13, offset: 92583},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92589},
+																																pos:        position{line: 2931, col: 20, offset: 92590},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92598},
+																																pos:        position{line: 2931, col: 29, offset: 92599},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37818,16 +37818,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92758},
+																													pos: position{line: 2941, col: 8, offset: 92759},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92759,
+																														line: 2941, col: 9, offset: 92760,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1682, col: 40, offset: 54736,
+																										line: 1682, col: 40, offset: 54737,
 																									},
 																								},
 																							},
@@ -37836,21 +37836,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1687, col: 5, offset: 54852},
+																				pos: position{line: 1687, col: 5, offset: 54853},
 																				run: (*parser).callonListContinuationElement1757,
 																				expr: &seqExpr{
-																					pos: position{line: 1687, col: 5, offset: 54852},
+																					pos: position{line: 1687, col: 5, offset: 54853},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1687, col: 5, offset: 54852},
+																							pos:   position{line: 1687, col: 5, offset: 54853},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1687, col: 16, offset: 54863},
+																								pos: position{line: 1687, col: 16, offset: 54864},
 																								run: (*parser).callonListContinuationElement1760,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1687, col: 16, offset: 54863},
+																									pos: position{line: 1687, col: 16, offset: 54864},
 																									expr: &litMatcher{
-																										pos:        position{line: 1687, col: 17, offset: 54864},
+																										pos:        position{line: 1687, col: 17, offset: 54865},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37859,7 +37859,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1690, col: 5, offset: 54921},
+																							pos: position{line: 1690, col: 5, offset: 54922},
 																							run: (*parser).callonListContinuationElement1763,
 																						},
 																					},
@@ -37869,17 +37869,17 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1529, col: 5, offset: 49787},
+																	pos: position{line: 1529, col: 5, offset: 49788},
 																	expr: &actionExpr{
-																		pos: position{line: 737, col: 5, offset: 23725},
+																		pos: position{line: 737, col: 5, offset: 23726},
 																		run: (*parser).callonListContinuationElement1765,
 																		expr: &seqExpr{
-																			pos: position{line: 737, col: 5, offset: 23725},
+																			pos: position{line: 737, col: 5, offset: 23726},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 737, col: 5, offset: 23725},
+																					pos: position{line: 737, col: 5, offset: 23726},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2812, col: 13, offset: 89505},
+																						pos:        position{line: 2812, col: 13, offset: 89506},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37887,36 +37887,36 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 738, col: 5, offset: 23755},
+																					pos:   position{line: 738, col: 5, offset: 23756},
 																					label: "delimiter",
 																					expr: &choiceExpr{
-																						pos: position{line: 739, col: 9, offset: 23775},
+																						pos: position{line: 739, col: 9, offset: 23776},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 753, col: 5, offset: 24267},
+																								pos: position{line: 753, col: 5, offset: 24268},
 																								run: (*parser).callonListContinuationElement1771,
 																								expr: &seqExpr{
-																									pos: position{line: 753, col: 5, offset: 24267},
+																									pos: position{line: 753, col: 5, offset: 24268},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 753, col: 5, offset: 24267},
+																											pos:   position{line: 753, col: 5, offset: 24268},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 753, col: 16, offset: 24278},
+																												pos: position{line: 753, col: 16, offset: 24279},
 																												run: (*parser).callonListContinuationElement1774,
 																												expr: &seqExpr{
-																													pos: position{line: 753, col: 16, offset: 24278},
+																													pos: position{line: 753, col: 16, offset: 24279},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 753, col: 16, offset: 24278},
+																															pos:        position{line: 753, col: 16, offset: 24279},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 753, col: 23, offset: 24285},
+																															pos: position{line: 753, col: 23, offset: 24286},
 																															expr: &litMatcher{
-																																pos:        position{line: 753, col: 23, offset: 24285},
+																																pos:        position{line: 753, col: 23, offset: 24286},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -37927,12 +37927,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 755, col: 8, offset: 24369},
+																											pos: position{line: 755, col: 8, offset: 24370},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92410},
+																												pos: position{line: 2922, col: 10, offset: 92411},
 																												run: (*parser).callonListContinuationElement1780,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92410},
+																													pos:        position{line: 2922, col: 10, offset: 92411},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37941,28 +37941,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92808},
+																											pos: position{line: 2944, col: 8, offset: 92809},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92581},
+																													pos: position{line: 2931, col: 12, offset: 92582},
 																													run: (*parser).callonListContinuationElement1783,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92582},
+																														pos: position{line: 2931, col: 13, offset: 92583},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92582},
+																																pos:        position{line: 2931, col: 13, offset: 92583},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92589},
+																																pos:        position{line: 2931, col: 20, offset: 92590},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92598},
+																																pos:        position{line: 2931, col: 29, offset: 92599},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37971,9 +37971,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92758},
+																													pos: position{line: 2941, col: 8, offset: 92759},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92759,
+																														line: 2941, col: 9, offset: 92760,
 																													},
 																												},
 																											},
@@ -37982,30 +37982,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 760, col: 5, offset: 24515},
+																								pos: position{line: 760, col: 5, offset: 24516},
 																								run: (*parser).callonListContinuationElement1790,
 																								expr: &seqExpr{
-																									pos: position{line: 760, col: 5, offset: 24515},
+																									pos: position{line: 760, col: 5, offset: 24516},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 760, col: 5, offset: 24515},
+																											pos:   position{line: 760, col: 5, offset: 24516},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 760, col: 16, offset: 24526},
+																												pos: position{line: 760, col: 16, offset: 24527},
 																												run: (*parser).callonListContinuationElement1793,
 																												expr: &seqExpr{
-																													pos: position{line: 760, col: 16, offset: 24526},
+																													pos: position{line: 760, col: 16, offset: 24527},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 760, col: 16, offset: 24526},
+																															pos:        position{line: 760, col: 16, offset: 24527},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 760, col: 23, offset: 24533},
+																															pos: position{line: 760, col: 23, offset: 24534},
 																															expr: &litMatcher{
-																																pos:        position{line: 760, col: 23, offset: 24533},
+																																pos:        position{line: 760, col: 23, offset: 24534},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -38016,12 +38016,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 762, col: 8, offset: 24617},
+																											pos: position{line: 762, col: 8, offset: 24618},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92410},
+																												pos: position{line: 2922, col: 10, offset: 92411},
 																												run: (*parser).callonListContinuationElement1799,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92410},
+																													pos:        position{line: 2922, col: 10, offset: 92411},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38030,28 +38030,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92808},
+																											pos: position{line: 2944, col: 8, offset: 92809},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92581},
+																													pos: position{line: 2931, col: 12, offset: 92582},
 																													run: (*parser).callonListContinuationElement1802,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92582},
+																														pos: position{line: 2931, col: 13, offset: 92583},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92582},
+																																pos:        position{line: 2931, col: 13, offset: 92583},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92589},
+																																pos:        position{line: 2931, col: 20, offset: 92590},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92598},
+																																pos:        position{line: 2931, col: 29, offset: 92599},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38060,9 +38060,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92758},
+																													pos: position{line: 2941, col: 8, offset: 92759},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92759,
+																														line: 2941, col: 9, offset: 92760,
 																													},
 																												},
 																											},
@@ -38071,27 +38071,27 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 773, col: 26, offset: 25003},
+																								pos: position{line: 773, col: 26, offset: 25004},
 																								run: (*parser).callonListContinuationElement1809,
 																								expr: &seqExpr{
-																									pos: position{line: 773, col: 26, offset: 25003},
+																									pos: position{line: 773, col: 26, offset: 25004},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 773, col: 26, offset: 25003},
+																											pos:        position{line: 773, col: 26, offset: 25004},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 773, col: 32, offset: 25009},
+																											pos:   position{line: 773, col: 32, offset: 25010},
 																											label: "language",
 																											expr: &actionExpr{
-																												pos: position{line: 777, col: 13, offset: 25139},
+																												pos: position{line: 777, col: 13, offset: 25140},
 																												run: (*parser).callonListContinuationElement1813,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 777, col: 14, offset: 25140},
+																													pos: position{line: 777, col: 14, offset: 25141},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 777, col: 14, offset: 25140},
+																														pos:        position{line: 777, col: 14, offset: 25141},
 																														val:        "[^\\r\\n` ]",
 																														chars:      []rune{'\r', '\n', '`', ' '},
 																														ignoreCase: false,
@@ -38101,12 +38101,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 773, col: 52, offset: 25029},
+																											pos: position{line: 773, col: 52, offset: 25030},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92410},
+																												pos: position{line: 2922, col: 10, offset: 92411},
 																												run: (*parser).callonListContinuationElement1817,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92410},
+																													pos:        position{line: 2922, col: 10, offset: 92411},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38115,28 +38115,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92808},
+																											pos: position{line: 2944, col: 8, offset: 92809},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92581},
+																													pos: position{line: 2931, col: 12, offset: 92582},
 																													run: (*parser).callonListContinuationElement1820,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92582},
+																														pos: position{line: 2931, col: 13, offset: 92583},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92582},
+																																pos:        position{line: 2931, col: 13, offset: 92583},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92589},
+																																pos:        position{line: 2931, col: 20, offset: 92590},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92598},
+																																pos:        position{line: 2931, col: 29, offset: 92599},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38145,9 +38145,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92758},
+																													pos: position{line: 2941, col: 8, offset: 92759},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92759,
+																														line: 2941, col: 9, offset: 92760,
 																													},
 																												},
 																											},
@@ -38156,30 +38156,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 767, col: 5, offset: 24762},
+																								pos: position{line: 767, col: 5, offset: 24763},
 																								run: (*parser).callonListContinuationElement1827,
 																								expr: &seqExpr{
-																									pos: position{line: 767, col: 5, offset: 24762},
+																									pos: position{line: 767, col: 5, offset: 24763},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 767, col: 5, offset: 24762},
+																											pos:   position{line: 767, col: 5, offset: 24763},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 767, col: 16, offset: 24773},
+																												pos: position{line: 767, col: 16, offset: 24774},
 																												run: (*parser).callonListContinuationElement1830,
 																												expr: &seqExpr{
-																													pos: position{line: 767, col: 16, offset: 24773},
+																													pos: position{line: 767, col: 16, offset: 24774},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 767, col: 16, offset: 24773},
+																															pos:        position{line: 767, col: 16, offset: 24774},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 767, col: 22, offset: 24779},
+																															pos: position{line: 767, col: 22, offset: 24780},
 																															expr: &litMatcher{
-																																pos:        position{line: 767, col: 22, offset: 24779},
+																																pos:        position{line: 767, col: 22, offset: 24780},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -38190,12 +38190,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 8, offset: 24863},
+																											pos: position{line: 769, col: 8, offset: 24864},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92410},
+																												pos: position{line: 2922, col: 10, offset: 92411},
 																												run: (*parser).callonListContinuationElement1836,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92410},
+																													pos:        position{line: 2922, col: 10, offset: 92411},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38204,28 +38204,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92808},
+																											pos: position{line: 2944, col: 8, offset: 92809},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92581},
+																													pos: position{line: 2931, col: 12, offset: 92582},
 																													run: (*parser).callonListContinuationElement1839,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92582},
+																														pos: position{line: 2931, col: 13, offset: 92583},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92582},
+																																pos:        position{line: 2931, col: 13, offset: 92583},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92589},
+																																pos:        position{line: 2931, col: 20, offset: 92590},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92598},
+																																pos:        position{line: 2931, col: 29, offset: 92599},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38234,9 +38234,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92758},
+																													pos: position{line: 2941, col: 8, offset: 92759},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92759,
+																														line: 2941, col: 9, offset: 92760,
 																													},
 																												},
 																											},
@@ -38245,30 +38245,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 782, col: 5, offset: 25299},
+																								pos: position{line: 782, col: 5, offset: 25300},
 																								run: (*parser).callonListContinuationElement1846,
 																								expr: &seqExpr{
-																									pos: position{line: 782, col: 5, offset: 25299},
+																									pos: position{line: 782, col: 5, offset: 25300},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 782, col: 5, offset: 25299},
+																											pos:   position{line: 782, col: 5, offset: 25300},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 782, col: 16, offset: 25310},
+																												pos: position{line: 782, col: 16, offset: 25311},
 																												run: (*parser).callonListContinuationElement1849,
 																												expr: &seqExpr{
-																													pos: position{line: 782, col: 16, offset: 25310},
+																													pos: position{line: 782, col: 16, offset: 25311},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 782, col: 16, offset: 25310},
+																															pos:        position{line: 782, col: 16, offset: 25311},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 782, col: 23, offset: 25317},
+																															pos: position{line: 782, col: 23, offset: 25318},
 																															expr: &litMatcher{
-																																pos:        position{line: 782, col: 23, offset: 25317},
+																																pos:        position{line: 782, col: 23, offset: 25318},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -38279,12 +38279,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 784, col: 8, offset: 25401},
+																											pos: position{line: 784, col: 8, offset: 25402},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92410},
+																												pos: position{line: 2922, col: 10, offset: 92411},
 																												run: (*parser).callonListContinuationElement1855,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92410},
+																													pos:        position{line: 2922, col: 10, offset: 92411},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38293,28 +38293,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92808},
+																											pos: position{line: 2944, col: 8, offset: 92809},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92581},
+																													pos: position{line: 2931, col: 12, offset: 92582},
 																													run: (*parser).callonListContinuationElement1858,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92582},
+																														pos: position{line: 2931, col: 13, offset: 92583},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92582},
+																																pos:        position{line: 2931, col: 13, offset: 92583},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92589},
+																																pos:        position{line: 2931, col: 20, offset: 92590},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92598},
+																																pos:        position{line: 2931, col: 29, offset: 92599},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38323,9 +38323,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92758},
+																													pos: position{line: 2941, col: 8, offset: 92759},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92759,
+																														line: 2941, col: 9, offset: 92760,
 																													},
 																												},
 																											},
@@ -38334,30 +38334,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 796, col: 5, offset: 25775},
+																								pos: position{line: 796, col: 5, offset: 25776},
 																								run: (*parser).callonListContinuationElement1865,
 																								expr: &seqExpr{
-																									pos: position{line: 796, col: 5, offset: 25775},
+																									pos: position{line: 796, col: 5, offset: 25776},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 796, col: 5, offset: 25775},
+																											pos:   position{line: 796, col: 5, offset: 25776},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 796, col: 16, offset: 25786},
+																												pos: position{line: 796, col: 16, offset: 25787},
 																												run: (*parser).callonListContinuationElement1868,
 																												expr: &seqExpr{
-																													pos: position{line: 796, col: 16, offset: 25786},
+																													pos: position{line: 796, col: 16, offset: 25787},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 796, col: 16, offset: 25786},
+																															pos:        position{line: 796, col: 16, offset: 25787},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 796, col: 23, offset: 25793},
+																															pos: position{line: 796, col: 23, offset: 25794},
 																															expr: &litMatcher{
-																																pos:        position{line: 796, col: 23, offset: 25793},
+																																pos:        position{line: 796, col: 23, offset: 25794},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -38368,12 +38368,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 798, col: 8, offset: 25877},
+																											pos: position{line: 798, col: 8, offset: 25878},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92410},
+																												pos: position{line: 2922, col: 10, offset: 92411},
 																												run: (*parser).callonListContinuationElement1874,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92410},
+																													pos:        position{line: 2922, col: 10, offset: 92411},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38382,28 +38382,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92808},
+																											pos: position{line: 2944, col: 8, offset: 92809},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92581},
+																													pos: position{line: 2931, col: 12, offset: 92582},
 																													run: (*parser).callonListContinuationElement1877,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92582},
+																														pos: position{line: 2931, col: 13, offset: 92583},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92582},
+																																pos:        position{line: 2931, col: 13, offset: 92583},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92589},
+																																pos:        position{line: 2931, col: 20, offset: 92590},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92598},
+																																pos:        position{line: 2931, col: 29, offset: 92599},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38412,9 +38412,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92758},
+																													pos: position{line: 2941, col: 8, offset: 92759},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92759,
+																														line: 2941, col: 9, offset: 92760,
 																													},
 																												},
 																											},
@@ -38423,30 +38423,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 803, col: 5, offset: 26027},
+																								pos: position{line: 803, col: 5, offset: 26028},
 																								run: (*parser).callonListContinuationElement1884,
 																								expr: &seqExpr{
-																									pos: position{line: 803, col: 5, offset: 26027},
+																									pos: position{line: 803, col: 5, offset: 26028},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 803, col: 5, offset: 26027},
+																											pos:   position{line: 803, col: 5, offset: 26028},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 803, col: 16, offset: 26038},
+																												pos: position{line: 803, col: 16, offset: 26039},
 																												run: (*parser).callonListContinuationElement1887,
 																												expr: &seqExpr{
-																													pos: position{line: 803, col: 16, offset: 26038},
+																													pos: position{line: 803, col: 16, offset: 26039},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 803, col: 16, offset: 26038},
+																															pos:        position{line: 803, col: 16, offset: 26039},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 803, col: 23, offset: 26045},
+																															pos: position{line: 803, col: 23, offset: 26046},
 																															expr: &litMatcher{
-																																pos:        position{line: 803, col: 23, offset: 26045},
+																																pos:        position{line: 803, col: 23, offset: 26046},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -38457,12 +38457,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 805, col: 8, offset: 26129},
+																											pos: position{line: 805, col: 8, offset: 26130},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92410},
+																												pos: position{line: 2922, col: 10, offset: 92411},
 																												run: (*parser).callonListContinuationElement1893,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92410},
+																													pos:        position{line: 2922, col: 10, offset: 92411},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38471,28 +38471,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92808},
+																											pos: position{line: 2944, col: 8, offset: 92809},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92581},
+																													pos: position{line: 2931, col: 12, offset: 92582},
 																													run: (*parser).callonListContinuationElement1896,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92582},
+																														pos: position{line: 2931, col: 13, offset: 92583},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92582},
+																																pos:        position{line: 2931, col: 13, offset: 92583},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92589},
+																																pos:        position{line: 2931, col: 20, offset: 92590},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92598},
+																																pos:        position{line: 2931, col: 29, offset: 92599},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38501,9 +38501,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92758},
+																													pos: position{line: 2941, col: 8, offset: 92759},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92759,
+																														line: 2941, col: 9, offset: 92760,
 																													},
 																												},
 																											},
@@ -38512,30 +38512,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 810, col: 5, offset: 26277},
+																								pos: position{line: 810, col: 5, offset: 26278},
 																								run: (*parser).callonListContinuationElement1903,
 																								expr: &seqExpr{
-																									pos: position{line: 810, col: 5, offset: 26277},
+																									pos: position{line: 810, col: 5, offset: 26278},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 810, col: 5, offset: 26277},
+																											pos:   position{line: 810, col: 5, offset: 26278},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 810, col: 16, offset: 26288},
+																												pos: position{line: 810, col: 16, offset: 26289},
 																												run: (*parser).callonListContinuationElement1906,
 																												expr: &seqExpr{
-																													pos: position{line: 810, col: 16, offset: 26288},
+																													pos: position{line: 810, col: 16, offset: 26289},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 810, col: 16, offset: 26288},
+																															pos:        position{line: 810, col: 16, offset: 26289},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 810, col: 23, offset: 26295},
+																															pos: position{line: 810, col: 23, offset: 26296},
 																															expr: &litMatcher{
-																																pos:        position{line: 810, col: 23, offset: 26295},
+																																pos:        position{line: 810, col: 23, offset: 26296},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -38546,12 +38546,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 812, col: 8, offset: 26379},
+																											pos: position{line: 812, col: 8, offset: 26380},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92410},
+																												pos: position{line: 2922, col: 10, offset: 92411},
 																												run: (*parser).callonListContinuationElement1912,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92410},
+																													pos:        position{line: 2922, col: 10, offset: 92411},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38560,28 +38560,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92808},
+																											pos: position{line: 2944, col: 8, offset: 92809},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92581},
+																													pos: position{line: 2931, col: 12, offset: 92582},
 																													run: (*parser).callonListContinuationElement1915,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92582},
+																														pos: position{line: 2931, col: 13, offset: 92583},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92582},
+																																pos:        position{line: 2931, col: 13, offset: 92583},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92589},
+																																pos:        position{line: 2931, col: 20, offset: 92590},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92598},
+																																pos:        position{line: 2931, col: 29, offset: 92599},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38590,9 +38590,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92758},
+																													pos: position{line: 2941, col: 8, offset: 92759},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92759,
+																														line: 2941, col: 9, offset: 92760,
 																													},
 																												},
 																											},
@@ -38601,30 +38601,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 817, col: 5, offset: 26523},
+																								pos: position{line: 817, col: 5, offset: 26524},
 																								run: (*parser).callonListContinuationElement1922,
 																								expr: &seqExpr{
-																									pos: position{line: 817, col: 5, offset: 26523},
+																									pos: position{line: 817, col: 5, offset: 26524},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 817, col: 5, offset: 26523},
+																											pos:   position{line: 817, col: 5, offset: 26524},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 817, col: 16, offset: 26534},
+																												pos: position{line: 817, col: 16, offset: 26535},
 																												run: (*parser).callonListContinuationElement1925,
 																												expr: &seqExpr{
-																													pos: position{line: 817, col: 16, offset: 26534},
+																													pos: position{line: 817, col: 16, offset: 26535},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 817, col: 16, offset: 26534},
+																															pos:        position{line: 817, col: 16, offset: 26535},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 817, col: 23, offset: 26541},
+																															pos: position{line: 817, col: 23, offset: 26542},
 																															expr: &litMatcher{
-																																pos:        position{line: 817, col: 23, offset: 26541},
+																																pos:        position{line: 817, col: 23, offset: 26542},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -38635,12 +38635,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 819, col: 8, offset: 26625},
+																											pos: position{line: 819, col: 8, offset: 26626},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92410},
+																												pos: position{line: 2922, col: 10, offset: 92411},
 																												run: (*parser).callonListContinuationElement1931,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92410},
+																													pos:        position{line: 2922, col: 10, offset: 92411},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38649,28 +38649,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92808},
+																											pos: position{line: 2944, col: 8, offset: 92809},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92581},
+																													pos: position{line: 2931, col: 12, offset: 92582},
 																													run: (*parser).callonListContinuationElement1934,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92582},
+																														pos: position{line: 2931, col: 13, offset: 92583},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92582},
+																																pos:        position{line: 2931, col: 13, offset: 92583},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92589},
+																																pos:        position{line: 2931, col: 20, offset: 92590},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92598},
+																																pos:        position{line: 2931, col: 29, offset: 92599},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38679,9 +38679,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92758},
+																													pos: position{line: 2941, col: 8, offset: 92759},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92759,
+																														line: 2941, col: 9, offset: 92760,
 																													},
 																												},
 																											},
@@ -38697,15 +38697,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1530, col: 5, offset: 49807},
+																	pos:   position{line: 1530, col: 5, offset: 49808},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 14, offset: 91003},
+																		pos: position{line: 2872, col: 14, offset: 91004},
 																		run: (*parser).callonListContinuationElement1942,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2872, col: 14, offset: 91003},
+																			pos: position{line: 2872, col: 14, offset: 91004},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 14, offset: 91003},
+																				pos:        position{line: 2872, col: 14, offset: 91004},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38715,28 +38715,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92808},
+																	pos: position{line: 2944, col: 8, offset: 92809},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92581},
+																			pos: position{line: 2931, col: 12, offset: 92582},
 																			run: (*parser).callonListContinuationElement1946,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92582},
+																				pos: position{line: 2931, col: 13, offset: 92583},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92582},
+																						pos:        position{line: 2931, col: 13, offset: 92583},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92589},
+																						pos:        position{line: 2931, col: 20, offset: 92590},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92598},
+																						pos:        position{line: 2931, col: 29, offset: 92599},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38745,9 +38745,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92758},
+																			pos: position{line: 2941, col: 8, offset: 92759},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92759,
+																				line: 2941, col: 9, offset: 92760,
 																			},
 																		},
 																	},
@@ -38768,33 +38768,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1720, col: 1, offset: 55713},
+			pos:  position{line: 1720, col: 1, offset: 55714},
 			expr: &actionExpr{
-				pos: position{line: 1722, col: 5, offset: 55791},
+				pos: position{line: 1722, col: 5, offset: 55792},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1722, col: 5, offset: 55791},
+					pos: position{line: 1722, col: 5, offset: 55792},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1722, col: 5, offset: 55791},
+							pos: position{line: 1722, col: 5, offset: 55792},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1725, col: 5, offset: 55858},
+							pos:        position{line: 1725, col: 5, offset: 55859},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1725, col: 9, offset: 55862},
+							pos:   position{line: 1725, col: 9, offset: 55863},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1725, col: 14, offset: 55867},
+								pos: position{line: 1725, col: 14, offset: 55868},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1725, col: 14, offset: 55867},
+									pos: position{line: 1725, col: 14, offset: 55868},
 									expr: &charClassMatcher{
-										pos:        position{line: 1725, col: 14, offset: 55867},
+										pos:        position{line: 1725, col: 14, offset: 55868},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -38804,18 +38804,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1725, col: 62, offset: 55915},
+							pos:        position{line: 1725, col: 62, offset: 55916},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1725, col: 66, offset: 55919},
+							pos: position{line: 1725, col: 66, offset: 55920},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92410},
+								pos: position{line: 2922, col: 10, offset: 92411},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92410},
+									pos:        position{line: 2922, col: 10, offset: 92411},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38824,30 +38824,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1725, col: 73, offset: 55926},
+							pos: position{line: 1725, col: 73, offset: 55927},
 							expr: &choiceExpr{
-								pos: position{line: 1725, col: 75, offset: 55928},
+								pos: position{line: 1725, col: 75, offset: 55929},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2931, col: 12, offset: 92581},
+										pos: position{line: 2931, col: 12, offset: 92582},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2931, col: 13, offset: 92582},
+											pos: position{line: 2931, col: 13, offset: 92583},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2931, col: 13, offset: 92582},
+													pos:        position{line: 2931, col: 13, offset: 92583},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 20, offset: 92589},
+													pos:        position{line: 2931, col: 20, offset: 92590},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 29, offset: 92598},
+													pos:        position{line: 2931, col: 29, offset: 92599},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38856,13 +38856,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2941, col: 8, offset: 92758},
+										pos: position{line: 2941, col: 8, offset: 92759},
 										expr: &anyMatcher{
-											line: 2941, col: 9, offset: 92759,
+											line: 2941, col: 9, offset: 92760,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1725, col: 81, offset: 55934},
+										pos:  position{line: 1725, col: 81, offset: 55935},
 										name: "Callout",
 									},
 								},
@@ -38874,44 +38874,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1764, col: 1, offset: 57107},
+			pos:  position{line: 1764, col: 1, offset: 57108},
 			expr: &actionExpr{
-				pos: position{line: 1766, col: 5, offset: 57181},
+				pos: position{line: 1766, col: 5, offset: 57182},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1766, col: 5, offset: 57181},
+					pos: position{line: 1766, col: 5, offset: 57182},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1766, col: 5, offset: 57181},
+							pos: position{line: 1766, col: 5, offset: 57182},
 							expr: &seqExpr{
-								pos: position{line: 1766, col: 7, offset: 57183},
+								pos: position{line: 1766, col: 7, offset: 57184},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2812, col: 13, offset: 89505},
+										pos:        position{line: 2812, col: 13, offset: 89506},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1766, col: 16, offset: 57192},
+										pos: position{line: 1766, col: 16, offset: 57193},
 										expr: &seqExpr{
-											pos: position{line: 1766, col: 18, offset: 57194},
+											pos: position{line: 1766, col: 18, offset: 57195},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1766, col: 19, offset: 57195},
+													pos:        position{line: 1766, col: 19, offset: 57196},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2926, col: 11, offset: 92471},
+													pos: position{line: 2926, col: 11, offset: 92472},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2926, col: 11, offset: 92471},
+														pos: position{line: 2926, col: 11, offset: 92472},
 														expr: &charClassMatcher{
-															pos:        position{line: 2926, col: 11, offset: 92471},
+															pos:        position{line: 2926, col: 11, offset: 92472},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38926,88 +38926,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1767, col: 5, offset: 57335},
+							pos:   position{line: 1767, col: 5, offset: 57336},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1767, col: 11, offset: 57341},
+								pos: position{line: 1767, col: 11, offset: 57342},
 								expr: &actionExpr{
-									pos: position{line: 1745, col: 5, offset: 56604},
+									pos: position{line: 1745, col: 5, offset: 56605},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1745, col: 5, offset: 56604},
+										pos: position{line: 1745, col: 5, offset: 56605},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1745, col: 5, offset: 56604},
+												pos: position{line: 1745, col: 5, offset: 56605},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1748, col: 5, offset: 56667},
+												pos:   position{line: 1748, col: 5, offset: 56668},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1748, col: 12, offset: 56674},
+													pos: position{line: 1748, col: 12, offset: 56675},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1748, col: 12, offset: 56674},
+															pos: position{line: 1748, col: 12, offset: 56675},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1748, col: 12, offset: 56674},
+																pos:        position{line: 1748, col: 12, offset: 56675},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1750, col: 13, offset: 56730},
+															pos: position{line: 1750, col: 13, offset: 56731},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1750, col: 13, offset: 56730},
+																pos:        position{line: 1750, col: 13, offset: 56731},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1752, col: 13, offset: 56788},
+															pos: position{line: 1752, col: 13, offset: 56789},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1752, col: 13, offset: 56788},
+																pos:        position{line: 1752, col: 13, offset: 56789},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1754, col: 13, offset: 56856},
+															pos: position{line: 1754, col: 13, offset: 56857},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1754, col: 13, offset: 56856},
+																pos:        position{line: 1754, col: 13, offset: 56857},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1756, col: 13, offset: 56920},
+															pos: position{line: 1756, col: 13, offset: 56921},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1756, col: 13, offset: 56920},
+																pos:        position{line: 1756, col: 13, offset: 56921},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1758, col: 13, offset: 56984},
+															pos: position{line: 1758, col: 13, offset: 56985},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1758, col: 13, offset: 56984},
+																pos: position{line: 1758, col: 13, offset: 56985},
 																expr: &actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92471},
+																	pos: position{line: 2926, col: 11, offset: 92472},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92471},
+																		pos: position{line: 2926, col: 11, offset: 92472},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92471},
+																			pos:        position{line: 2926, col: 11, offset: 92472},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39026,24 +39026,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1768, col: 5, offset: 57363},
+							pos:   position{line: 1768, col: 5, offset: 57364},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1804, col: 5, offset: 58470},
+								pos: position{line: 1804, col: 5, offset: 58471},
 								run: (*parser).callonShortcutParagraph35,
 								expr: &seqExpr{
-									pos: position{line: 1804, col: 5, offset: 58470},
+									pos: position{line: 1804, col: 5, offset: 58471},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1804, col: 5, offset: 58470},
+											pos:   position{line: 1804, col: 5, offset: 58471},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2872, col: 14, offset: 91003},
+												pos: position{line: 2872, col: 14, offset: 91004},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2872, col: 14, offset: 91003},
+													pos: position{line: 2872, col: 14, offset: 91004},
 													expr: &charClassMatcher{
-														pos:        position{line: 2872, col: 14, offset: 91003},
+														pos:        position{line: 2872, col: 14, offset: 91004},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39053,32 +39053,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1805, col: 5, offset: 58494},
+											pos: position{line: 1805, col: 5, offset: 58495},
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2944, col: 8, offset: 92808},
+											pos: position{line: 2944, col: 8, offset: 92809},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2931, col: 12, offset: 92581},
+													pos: position{line: 2931, col: 12, offset: 92582},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2931, col: 13, offset: 92582},
+														pos: position{line: 2931, col: 13, offset: 92583},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2931, col: 13, offset: 92582},
+																pos:        position{line: 2931, col: 13, offset: 92583},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2931, col: 20, offset: 92589},
+																pos:        position{line: 2931, col: 20, offset: 92590},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2931, col: 29, offset: 92598},
+																pos:        position{line: 2931, col: 29, offset: 92599},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39087,9 +39087,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92758},
+													pos: position{line: 2941, col: 8, offset: 92759},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92759,
+														line: 2941, col: 9, offset: 92760,
 													},
 												},
 											},
@@ -39099,47 +39099,47 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1769, col: 5, offset: 57397},
+							pos: position{line: 1769, col: 5, offset: 57398},
 							run: (*parser).callonShortcutParagraph50,
 						},
 						&labeledExpr{
-							pos:   position{line: 1776, col: 5, offset: 57727},
+							pos:   position{line: 1776, col: 5, offset: 57728},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1776, col: 16, offset: 57738},
+								pos: position{line: 1776, col: 16, offset: 57739},
 								expr: &actionExpr{
-									pos: position{line: 1777, col: 9, offset: 57748},
+									pos: position{line: 1777, col: 9, offset: 57749},
 									run: (*parser).callonShortcutParagraph53,
 									expr: &seqExpr{
-										pos: position{line: 1777, col: 9, offset: 57748},
+										pos: position{line: 1777, col: 9, offset: 57749},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2939, col: 11, offset: 92744},
+												pos: position{line: 2939, col: 11, offset: 92745},
 												expr: &anyMatcher{
-													line: 2939, col: 13, offset: 92746,
+													line: 2939, col: 13, offset: 92747,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1778, col: 9, offset: 57764},
+												pos: position{line: 1778, col: 9, offset: 57765},
 												expr: &actionExpr{
-													pos: position{line: 690, col: 14, offset: 22172},
+													pos: position{line: 690, col: 14, offset: 22173},
 													run: (*parser).callonShortcutParagraph58,
 													expr: &seqExpr{
-														pos: position{line: 690, col: 14, offset: 22172},
+														pos: position{line: 690, col: 14, offset: 22173},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2939, col: 11, offset: 92744},
+																pos: position{line: 2939, col: 11, offset: 92745},
 																expr: &anyMatcher{
-																	line: 2939, col: 13, offset: 92746,
+																	line: 2939, col: 13, offset: 92747,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 690, col: 21, offset: 22179},
+																pos: position{line: 690, col: 21, offset: 22180},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92410},
+																	pos: position{line: 2922, col: 10, offset: 92411},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92410},
+																		pos:        position{line: 2922, col: 10, offset: 92411},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39148,28 +39148,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92808},
+																pos: position{line: 2944, col: 8, offset: 92809},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92581},
+																		pos: position{line: 2931, col: 12, offset: 92582},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92582},
+																			pos: position{line: 2931, col: 13, offset: 92583},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92582},
+																					pos:        position{line: 2931, col: 13, offset: 92583},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92589},
+																					pos:        position{line: 2931, col: 20, offset: 92590},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92598},
+																					pos:        position{line: 2931, col: 29, offset: 92599},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39178,9 +39178,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92758},
+																		pos: position{line: 2941, col: 8, offset: 92759},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92759,
+																			line: 2941, col: 9, offset: 92760,
 																		},
 																	},
 																},
@@ -39190,24 +39190,24 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1779, col: 9, offset: 57783},
+												pos: position{line: 1779, col: 9, offset: 57784},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1779, col: 10, offset: 57784},
+													pos:  position{line: 1779, col: 10, offset: 57785},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1780, col: 9, offset: 57808},
+												pos: position{line: 1780, col: 9, offset: 57809},
 												expr: &actionExpr{
-													pos: position{line: 737, col: 5, offset: 23725},
+													pos: position{line: 737, col: 5, offset: 23726},
 													run: (*parser).callonShortcutParagraph76,
 													expr: &seqExpr{
-														pos: position{line: 737, col: 5, offset: 23725},
+														pos: position{line: 737, col: 5, offset: 23726},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 737, col: 5, offset: 23725},
+																pos: position{line: 737, col: 5, offset: 23726},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2812, col: 13, offset: 89505},
+																	pos:        position{line: 2812, col: 13, offset: 89506},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -39215,36 +39215,36 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 738, col: 5, offset: 23755},
+																pos:   position{line: 738, col: 5, offset: 23756},
 																label: "delimiter",
 																expr: &choiceExpr{
-																	pos: position{line: 739, col: 9, offset: 23775},
+																	pos: position{line: 739, col: 9, offset: 23776},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 753, col: 5, offset: 24267},
+																			pos: position{line: 753, col: 5, offset: 24268},
 																			run: (*parser).callonShortcutParagraph82,
 																			expr: &seqExpr{
-																				pos: position{line: 753, col: 5, offset: 24267},
+																				pos: position{line: 753, col: 5, offset: 24268},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 753, col: 5, offset: 24267},
+																						pos:   position{line: 753, col: 5, offset: 24268},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 753, col: 16, offset: 24278},
+																							pos: position{line: 753, col: 16, offset: 24279},
 																							run: (*parser).callonShortcutParagraph85,
 																							expr: &seqExpr{
-																								pos: position{line: 753, col: 16, offset: 24278},
+																								pos: position{line: 753, col: 16, offset: 24279},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 753, col: 16, offset: 24278},
+																										pos:        position{line: 753, col: 16, offset: 24279},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 753, col: 23, offset: 24285},
+																										pos: position{line: 753, col: 23, offset: 24286},
 																										expr: &litMatcher{
-																											pos:        position{line: 753, col: 23, offset: 24285},
+																											pos:        position{line: 753, col: 23, offset: 24286},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -39255,12 +39255,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 755, col: 8, offset: 24369},
+																						pos: position{line: 755, col: 8, offset: 24370},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92410},
+																							pos: position{line: 2922, col: 10, offset: 92411},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92410},
+																								pos:        position{line: 2922, col: 10, offset: 92411},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39269,28 +39269,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92808},
+																						pos: position{line: 2944, col: 8, offset: 92809},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92581},
+																								pos: position{line: 2931, col: 12, offset: 92582},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92582},
+																									pos: position{line: 2931, col: 13, offset: 92583},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92582},
+																											pos:        position{line: 2931, col: 13, offset: 92583},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92589},
+																											pos:        position{line: 2931, col: 20, offset: 92590},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92598},
+																											pos:        position{line: 2931, col: 29, offset: 92599},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39299,9 +39299,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92758},
+																								pos: position{line: 2941, col: 8, offset: 92759},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92759,
+																									line: 2941, col: 9, offset: 92760,
 																								},
 																							},
 																						},
@@ -39310,30 +39310,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 760, col: 5, offset: 24515},
+																			pos: position{line: 760, col: 5, offset: 24516},
 																			run: (*parser).callonShortcutParagraph101,
 																			expr: &seqExpr{
-																				pos: position{line: 760, col: 5, offset: 24515},
+																				pos: position{line: 760, col: 5, offset: 24516},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 760, col: 5, offset: 24515},
+																						pos:   position{line: 760, col: 5, offset: 24516},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 760, col: 16, offset: 24526},
+																							pos: position{line: 760, col: 16, offset: 24527},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &seqExpr{
-																								pos: position{line: 760, col: 16, offset: 24526},
+																								pos: position{line: 760, col: 16, offset: 24527},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 760, col: 16, offset: 24526},
+																										pos:        position{line: 760, col: 16, offset: 24527},
 																										val:        "====",
 																										ignoreCase: false,
 																										want:       "\"====\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 760, col: 23, offset: 24533},
+																										pos: position{line: 760, col: 23, offset: 24534},
 																										expr: &litMatcher{
-																											pos:        position{line: 760, col: 23, offset: 24533},
+																											pos:        position{line: 760, col: 23, offset: 24534},
 																											val:        "=",
 																											ignoreCase: false,
 																											want:       "\"=\"",
@@ -39344,12 +39344,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 762, col: 8, offset: 24617},
+																						pos: position{line: 762, col: 8, offset: 24618},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92410},
+																							pos: position{line: 2922, col: 10, offset: 92411},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92410},
+																								pos:        position{line: 2922, col: 10, offset: 92411},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39358,28 +39358,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92808},
+																						pos: position{line: 2944, col: 8, offset: 92809},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92581},
+																								pos: position{line: 2931, col: 12, offset: 92582},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92582},
+																									pos: position{line: 2931, col: 13, offset: 92583},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92582},
+																											pos:        position{line: 2931, col: 13, offset: 92583},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92589},
+																											pos:        position{line: 2931, col: 20, offset: 92590},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92598},
+																											pos:        position{line: 2931, col: 29, offset: 92599},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39388,9 +39388,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92758},
+																								pos: position{line: 2941, col: 8, offset: 92759},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92759,
+																									line: 2941, col: 9, offset: 92760,
 																								},
 																							},
 																						},
@@ -39399,27 +39399,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 773, col: 26, offset: 25003},
+																			pos: position{line: 773, col: 26, offset: 25004},
 																			run: (*parser).callonShortcutParagraph120,
 																			expr: &seqExpr{
-																				pos: position{line: 773, col: 26, offset: 25003},
+																				pos: position{line: 773, col: 26, offset: 25004},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 773, col: 26, offset: 25003},
+																						pos:        position{line: 773, col: 26, offset: 25004},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 773, col: 32, offset: 25009},
+																						pos:   position{line: 773, col: 32, offset: 25010},
 																						label: "language",
 																						expr: &actionExpr{
-																							pos: position{line: 777, col: 13, offset: 25139},
+																							pos: position{line: 777, col: 13, offset: 25140},
 																							run: (*parser).callonShortcutParagraph124,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 777, col: 14, offset: 25140},
+																								pos: position{line: 777, col: 14, offset: 25141},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 777, col: 14, offset: 25140},
+																									pos:        position{line: 777, col: 14, offset: 25141},
 																									val:        "[^\\r\\n` ]",
 																									chars:      []rune{'\r', '\n', '`', ' '},
 																									ignoreCase: false,
@@ -39429,12 +39429,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 773, col: 52, offset: 25029},
+																						pos: position{line: 773, col: 52, offset: 25030},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92410},
+																							pos: position{line: 2922, col: 10, offset: 92411},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92410},
+																								pos:        position{line: 2922, col: 10, offset: 92411},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39443,28 +39443,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92808},
+																						pos: position{line: 2944, col: 8, offset: 92809},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92581},
+																								pos: position{line: 2931, col: 12, offset: 92582},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92582},
+																									pos: position{line: 2931, col: 13, offset: 92583},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92582},
+																											pos:        position{line: 2931, col: 13, offset: 92583},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92589},
+																											pos:        position{line: 2931, col: 20, offset: 92590},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92598},
+																											pos:        position{line: 2931, col: 29, offset: 92599},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39473,9 +39473,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92758},
+																								pos: position{line: 2941, col: 8, offset: 92759},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92759,
+																									line: 2941, col: 9, offset: 92760,
 																								},
 																							},
 																						},
@@ -39484,30 +39484,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 767, col: 5, offset: 24762},
+																			pos: position{line: 767, col: 5, offset: 24763},
 																			run: (*parser).callonShortcutParagraph138,
 																			expr: &seqExpr{
-																				pos: position{line: 767, col: 5, offset: 24762},
+																				pos: position{line: 767, col: 5, offset: 24763},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 767, col: 5, offset: 24762},
+																						pos:   position{line: 767, col: 5, offset: 24763},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 767, col: 16, offset: 24773},
+																							pos: position{line: 767, col: 16, offset: 24774},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &seqExpr{
-																								pos: position{line: 767, col: 16, offset: 24773},
+																								pos: position{line: 767, col: 16, offset: 24774},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 767, col: 16, offset: 24773},
+																										pos:        position{line: 767, col: 16, offset: 24774},
 																										val:        "```",
 																										ignoreCase: false,
 																										want:       "\"```\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 767, col: 22, offset: 24779},
+																										pos: position{line: 767, col: 22, offset: 24780},
 																										expr: &litMatcher{
-																											pos:        position{line: 767, col: 22, offset: 24779},
+																											pos:        position{line: 767, col: 22, offset: 24780},
 																											val:        "`",
 																											ignoreCase: false,
 																											want:       "\"`\"",
@@ -39518,12 +39518,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 769, col: 8, offset: 24863},
+																						pos: position{line: 769, col: 8, offset: 24864},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92410},
+																							pos: position{line: 2922, col: 10, offset: 92411},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92410},
+																								pos:        position{line: 2922, col: 10, offset: 92411},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39532,28 +39532,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92808},
+																						pos: position{line: 2944, col: 8, offset: 92809},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92581},
+																								pos: position{line: 2931, col: 12, offset: 92582},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92582},
+																									pos: position{line: 2931, col: 13, offset: 92583},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92582},
+																											pos:        position{line: 2931, col: 13, offset: 92583},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92589},
+																											pos:        position{line: 2931, col: 20, offset: 92590},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92598},
+																											pos:        position{line: 2931, col: 29, offset: 92599},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39562,9 +39562,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92758},
+																								pos: position{line: 2941, col: 8, offset: 92759},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92759,
+																									line: 2941, col: 9, offset: 92760,
 																								},
 																							},
 																						},
@@ -39573,30 +39573,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 782, col: 5, offset: 25299},
+																			pos: position{line: 782, col: 5, offset: 25300},
 																			run: (*parser).callonShortcutParagraph157,
 																			expr: &seqExpr{
-																				pos: position{line: 782, col: 5, offset: 25299},
+																				pos: position{line: 782, col: 5, offset: 25300},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 782, col: 5, offset: 25299},
+																						pos:   position{line: 782, col: 5, offset: 25300},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 782, col: 16, offset: 25310},
+																							pos: position{line: 782, col: 16, offset: 25311},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &seqExpr{
-																								pos: position{line: 782, col: 16, offset: 25310},
+																								pos: position{line: 782, col: 16, offset: 25311},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 782, col: 16, offset: 25310},
+																										pos:        position{line: 782, col: 16, offset: 25311},
 																										val:        "----",
 																										ignoreCase: false,
 																										want:       "\"----\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 782, col: 23, offset: 25317},
+																										pos: position{line: 782, col: 23, offset: 25318},
 																										expr: &litMatcher{
-																											pos:        position{line: 782, col: 23, offset: 25317},
+																											pos:        position{line: 782, col: 23, offset: 25318},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
@@ -39607,12 +39607,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 784, col: 8, offset: 25401},
+																						pos: position{line: 784, col: 8, offset: 25402},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92410},
+																							pos: position{line: 2922, col: 10, offset: 92411},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92410},
+																								pos:        position{line: 2922, col: 10, offset: 92411},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39621,28 +39621,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92808},
+																						pos: position{line: 2944, col: 8, offset: 92809},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92581},
+																								pos: position{line: 2931, col: 12, offset: 92582},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92582},
+																									pos: position{line: 2931, col: 13, offset: 92583},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92582},
+																											pos:        position{line: 2931, col: 13, offset: 92583},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92589},
+																											pos:        position{line: 2931, col: 20, offset: 92590},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92598},
+																											pos:        position{line: 2931, col: 29, offset: 92599},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39651,9 +39651,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92758},
+																								pos: position{line: 2941, col: 8, offset: 92759},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92759,
+																									line: 2941, col: 9, offset: 92760,
 																								},
 																							},
 																						},
@@ -39662,30 +39662,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 796, col: 5, offset: 25775},
+																			pos: position{line: 796, col: 5, offset: 25776},
 																			run: (*parser).callonShortcutParagraph176,
 																			expr: &seqExpr{
-																				pos: position{line: 796, col: 5, offset: 25775},
+																				pos: position{line: 796, col: 5, offset: 25776},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 796, col: 5, offset: 25775},
+																						pos:   position{line: 796, col: 5, offset: 25776},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 796, col: 16, offset: 25786},
+																							pos: position{line: 796, col: 16, offset: 25787},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &seqExpr{
-																								pos: position{line: 796, col: 16, offset: 25786},
+																								pos: position{line: 796, col: 16, offset: 25787},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 796, col: 16, offset: 25786},
+																										pos:        position{line: 796, col: 16, offset: 25787},
 																										val:        "....",
 																										ignoreCase: false,
 																										want:       "\"....\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 796, col: 23, offset: 25793},
+																										pos: position{line: 796, col: 23, offset: 25794},
 																										expr: &litMatcher{
-																											pos:        position{line: 796, col: 23, offset: 25793},
+																											pos:        position{line: 796, col: 23, offset: 25794},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -39696,12 +39696,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 798, col: 8, offset: 25877},
+																						pos: position{line: 798, col: 8, offset: 25878},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92410},
+																							pos: position{line: 2922, col: 10, offset: 92411},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92410},
+																								pos:        position{line: 2922, col: 10, offset: 92411},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39710,28 +39710,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92808},
+																						pos: position{line: 2944, col: 8, offset: 92809},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92581},
+																								pos: position{line: 2931, col: 12, offset: 92582},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92582},
+																									pos: position{line: 2931, col: 13, offset: 92583},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92582},
+																											pos:        position{line: 2931, col: 13, offset: 92583},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92589},
+																											pos:        position{line: 2931, col: 20, offset: 92590},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92598},
+																											pos:        position{line: 2931, col: 29, offset: 92599},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39740,9 +39740,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92758},
+																								pos: position{line: 2941, col: 8, offset: 92759},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92759,
+																									line: 2941, col: 9, offset: 92760,
 																								},
 																							},
 																						},
@@ -39751,30 +39751,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 803, col: 5, offset: 26027},
+																			pos: position{line: 803, col: 5, offset: 26028},
 																			run: (*parser).callonShortcutParagraph195,
 																			expr: &seqExpr{
-																				pos: position{line: 803, col: 5, offset: 26027},
+																				pos: position{line: 803, col: 5, offset: 26028},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 803, col: 5, offset: 26027},
+																						pos:   position{line: 803, col: 5, offset: 26028},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 803, col: 16, offset: 26038},
+																							pos: position{line: 803, col: 16, offset: 26039},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &seqExpr{
-																								pos: position{line: 803, col: 16, offset: 26038},
+																								pos: position{line: 803, col: 16, offset: 26039},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 803, col: 16, offset: 26038},
+																										pos:        position{line: 803, col: 16, offset: 26039},
 																										val:        "++++",
 																										ignoreCase: false,
 																										want:       "\"++++\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 803, col: 23, offset: 26045},
+																										pos: position{line: 803, col: 23, offset: 26046},
 																										expr: &litMatcher{
-																											pos:        position{line: 803, col: 23, offset: 26045},
+																											pos:        position{line: 803, col: 23, offset: 26046},
 																											val:        "+",
 																											ignoreCase: false,
 																											want:       "\"+\"",
@@ -39785,12 +39785,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 805, col: 8, offset: 26129},
+																						pos: position{line: 805, col: 8, offset: 26130},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92410},
+																							pos: position{line: 2922, col: 10, offset: 92411},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92410},
+																								pos:        position{line: 2922, col: 10, offset: 92411},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39799,28 +39799,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92808},
+																						pos: position{line: 2944, col: 8, offset: 92809},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92581},
+																								pos: position{line: 2931, col: 12, offset: 92582},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92582},
+																									pos: position{line: 2931, col: 13, offset: 92583},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92582},
+																											pos:        position{line: 2931, col: 13, offset: 92583},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92589},
+																											pos:        position{line: 2931, col: 20, offset: 92590},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92598},
+																											pos:        position{line: 2931, col: 29, offset: 92599},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39829,9 +39829,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92758},
+																								pos: position{line: 2941, col: 8, offset: 92759},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92759,
+																									line: 2941, col: 9, offset: 92760,
 																								},
 																							},
 																						},
@@ -39840,30 +39840,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 810, col: 5, offset: 26277},
+																			pos: position{line: 810, col: 5, offset: 26278},
 																			run: (*parser).callonShortcutParagraph214,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 5, offset: 26277},
+																				pos: position{line: 810, col: 5, offset: 26278},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 810, col: 5, offset: 26277},
+																						pos:   position{line: 810, col: 5, offset: 26278},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 810, col: 16, offset: 26288},
+																							pos: position{line: 810, col: 16, offset: 26289},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &seqExpr{
-																								pos: position{line: 810, col: 16, offset: 26288},
+																								pos: position{line: 810, col: 16, offset: 26289},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 810, col: 16, offset: 26288},
+																										pos:        position{line: 810, col: 16, offset: 26289},
 																										val:        "____",
 																										ignoreCase: false,
 																										want:       "\"____\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 810, col: 23, offset: 26295},
+																										pos: position{line: 810, col: 23, offset: 26296},
 																										expr: &litMatcher{
-																											pos:        position{line: 810, col: 23, offset: 26295},
+																											pos:        position{line: 810, col: 23, offset: 26296},
 																											val:        "_",
 																											ignoreCase: false,
 																											want:       "\"_\"",
@@ -39874,12 +39874,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 812, col: 8, offset: 26379},
+																						pos: position{line: 812, col: 8, offset: 26380},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92410},
+																							pos: position{line: 2922, col: 10, offset: 92411},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92410},
+																								pos:        position{line: 2922, col: 10, offset: 92411},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39888,28 +39888,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92808},
+																						pos: position{line: 2944, col: 8, offset: 92809},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92581},
+																								pos: position{line: 2931, col: 12, offset: 92582},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92582},
+																									pos: position{line: 2931, col: 13, offset: 92583},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92582},
+																											pos:        position{line: 2931, col: 13, offset: 92583},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92589},
+																											pos:        position{line: 2931, col: 20, offset: 92590},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92598},
+																											pos:        position{line: 2931, col: 29, offset: 92599},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39918,9 +39918,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92758},
+																								pos: position{line: 2941, col: 8, offset: 92759},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92759,
+																									line: 2941, col: 9, offset: 92760,
 																								},
 																							},
 																						},
@@ -39929,30 +39929,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 817, col: 5, offset: 26523},
+																			pos: position{line: 817, col: 5, offset: 26524},
 																			run: (*parser).callonShortcutParagraph233,
 																			expr: &seqExpr{
-																				pos: position{line: 817, col: 5, offset: 26523},
+																				pos: position{line: 817, col: 5, offset: 26524},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 817, col: 5, offset: 26523},
+																						pos:   position{line: 817, col: 5, offset: 26524},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 817, col: 16, offset: 26534},
+																							pos: position{line: 817, col: 16, offset: 26535},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &seqExpr{
-																								pos: position{line: 817, col: 16, offset: 26534},
+																								pos: position{line: 817, col: 16, offset: 26535},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 817, col: 16, offset: 26534},
+																										pos:        position{line: 817, col: 16, offset: 26535},
 																										val:        "****",
 																										ignoreCase: false,
 																										want:       "\"****\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 817, col: 23, offset: 26541},
+																										pos: position{line: 817, col: 23, offset: 26542},
 																										expr: &litMatcher{
-																											pos:        position{line: 817, col: 23, offset: 26541},
+																											pos:        position{line: 817, col: 23, offset: 26542},
 																											val:        "*",
 																											ignoreCase: false,
 																											want:       "\"*\"",
@@ -39963,12 +39963,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 819, col: 8, offset: 26625},
+																						pos: position{line: 819, col: 8, offset: 26626},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92410},
+																							pos: position{line: 2922, col: 10, offset: 92411},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92410},
+																								pos:        position{line: 2922, col: 10, offset: 92411},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39977,28 +39977,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92808},
+																						pos: position{line: 2944, col: 8, offset: 92809},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92581},
+																								pos: position{line: 2931, col: 12, offset: 92582},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92582},
+																									pos: position{line: 2931, col: 13, offset: 92583},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92582},
+																											pos:        position{line: 2931, col: 13, offset: 92583},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92589},
+																											pos:        position{line: 2931, col: 20, offset: 92590},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92598},
+																											pos:        position{line: 2931, col: 29, offset: 92599},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40007,9 +40007,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92758},
+																								pos: position{line: 2941, col: 8, offset: 92759},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92759,
+																									line: 2941, col: 9, offset: 92760,
 																								},
 																							},
 																						},
@@ -40025,23 +40025,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1781, col: 9, offset: 57832},
+												pos: position{line: 1781, col: 9, offset: 57833},
 												expr: &seqExpr{
-													pos: position{line: 1555, col: 27, offset: 50469},
+													pos: position{line: 1555, col: 27, offset: 50470},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1555, col: 27, offset: 50469},
+															pos:        position{line: 1555, col: 27, offset: 50470},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1555, col: 31, offset: 50473},
+															pos: position{line: 1555, col: 31, offset: 50474},
 															expr: &actionExpr{
-																pos: position{line: 2922, col: 10, offset: 92410},
+																pos: position{line: 2922, col: 10, offset: 92411},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2922, col: 10, offset: 92410},
+																	pos:        position{line: 2922, col: 10, offset: 92411},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40050,25 +40050,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92581},
+															pos: position{line: 2931, col: 12, offset: 92582},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92582},
+																pos: position{line: 2931, col: 13, offset: 92583},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92582},
+																		pos:        position{line: 2931, col: 13, offset: 92583},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92589},
+																		pos:        position{line: 2931, col: 20, offset: 92590},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92598},
+																		pos:        position{line: 2931, col: 29, offset: 92599},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40080,42 +40080,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1782, col: 9, offset: 57864},
+												pos:   position{line: 1782, col: 9, offset: 57865},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1782, col: 15, offset: 57870},
+													pos: position{line: 1782, col: 15, offset: 57871},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81188},
+															pos: position{line: 2525, col: 22, offset: 81189},
 															run: (*parser).callonShortcutParagraph265,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81188},
+																pos: position{line: 2525, col: 22, offset: 81189},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81438},
+																		pos:        position{line: 2530, col: 31, offset: 81439},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81443},
+																		pos: position{line: 2530, col: 36, offset: 81444},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81444},
+																			pos:        position{line: 2530, col: 37, offset: 81445},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81215},
+																		pos:   position{line: 2525, col: 49, offset: 81216},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 13, offset: 90936},
+																			pos: position{line: 2868, col: 13, offset: 90937},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2868, col: 13, offset: 90936},
+																				pos: position{line: 2868, col: 13, offset: 90937},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 13, offset: 90936},
+																					pos:        position{line: 2868, col: 13, offset: 90937},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40125,28 +40125,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92808},
+																		pos: position{line: 2944, col: 8, offset: 92809},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40155,9 +40155,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92758},
+																				pos: position{line: 2941, col: 8, offset: 92759},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92759,
+																					line: 2941, col: 9, offset: 92760,
 																				},
 																			},
 																		},
@@ -40166,21 +40166,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1804, col: 5, offset: 58470},
+															pos: position{line: 1804, col: 5, offset: 58471},
 															run: (*parser).callonShortcutParagraph282,
 															expr: &seqExpr{
-																pos: position{line: 1804, col: 5, offset: 58470},
+																pos: position{line: 1804, col: 5, offset: 58471},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1804, col: 5, offset: 58470},
+																		pos:   position{line: 1804, col: 5, offset: 58471},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 14, offset: 91003},
+																			pos: position{line: 2872, col: 14, offset: 91004},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2872, col: 14, offset: 91003},
+																				pos: position{line: 2872, col: 14, offset: 91004},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 14, offset: 91003},
+																					pos:        position{line: 2872, col: 14, offset: 91004},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40190,32 +40190,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1805, col: 5, offset: 58494},
+																		pos: position{line: 1805, col: 5, offset: 58495},
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92808},
+																		pos: position{line: 2944, col: 8, offset: 92809},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40224,9 +40224,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92758},
+																				pos: position{line: 2941, col: 8, offset: 92759},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92759,
+																					line: 2941, col: 9, offset: 92760,
 																				},
 																			},
 																		},
@@ -40248,96 +40248,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1789, col: 1, offset: 58074},
+			pos:  position{line: 1789, col: 1, offset: 58075},
 			expr: &actionExpr{
-				pos: position{line: 1790, col: 5, offset: 58092},
+				pos: position{line: 1790, col: 5, offset: 58093},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1790, col: 5, offset: 58092},
+					pos: position{line: 1790, col: 5, offset: 58093},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1790, col: 5, offset: 58092},
+							pos:   position{line: 1790, col: 5, offset: 58093},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1790, col: 11, offset: 58098},
+								pos: position{line: 1790, col: 11, offset: 58099},
 								expr: &actionExpr{
-									pos: position{line: 1745, col: 5, offset: 56604},
+									pos: position{line: 1745, col: 5, offset: 56605},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1745, col: 5, offset: 56604},
+										pos: position{line: 1745, col: 5, offset: 56605},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1745, col: 5, offset: 56604},
+												pos: position{line: 1745, col: 5, offset: 56605},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1748, col: 5, offset: 56667},
+												pos:   position{line: 1748, col: 5, offset: 56668},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1748, col: 12, offset: 56674},
+													pos: position{line: 1748, col: 12, offset: 56675},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1748, col: 12, offset: 56674},
+															pos: position{line: 1748, col: 12, offset: 56675},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1748, col: 12, offset: 56674},
+																pos:        position{line: 1748, col: 12, offset: 56675},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1750, col: 13, offset: 56730},
+															pos: position{line: 1750, col: 13, offset: 56731},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1750, col: 13, offset: 56730},
+																pos:        position{line: 1750, col: 13, offset: 56731},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1752, col: 13, offset: 56788},
+															pos: position{line: 1752, col: 13, offset: 56789},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1752, col: 13, offset: 56788},
+																pos:        position{line: 1752, col: 13, offset: 56789},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1754, col: 13, offset: 56856},
+															pos: position{line: 1754, col: 13, offset: 56857},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1754, col: 13, offset: 56856},
+																pos:        position{line: 1754, col: 13, offset: 56857},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1756, col: 13, offset: 56920},
+															pos: position{line: 1756, col: 13, offset: 56921},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1756, col: 13, offset: 56920},
+																pos:        position{line: 1756, col: 13, offset: 56921},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1758, col: 13, offset: 56984},
+															pos: position{line: 1758, col: 13, offset: 56985},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1758, col: 13, offset: 56984},
+																pos: position{line: 1758, col: 13, offset: 56985},
 																expr: &actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92471},
+																	pos: position{line: 2926, col: 11, offset: 92472},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92471},
+																		pos: position{line: 2926, col: 11, offset: 92472},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92471},
+																			pos:        position{line: 2926, col: 11, offset: 92472},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40356,24 +40356,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1791, col: 5, offset: 58121},
+							pos:   position{line: 1791, col: 5, offset: 58122},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1804, col: 5, offset: 58470},
+								pos: position{line: 1804, col: 5, offset: 58471},
 								run: (*parser).callonParagraph26,
 								expr: &seqExpr{
-									pos: position{line: 1804, col: 5, offset: 58470},
+									pos: position{line: 1804, col: 5, offset: 58471},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1804, col: 5, offset: 58470},
+											pos:   position{line: 1804, col: 5, offset: 58471},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2872, col: 14, offset: 91003},
+												pos: position{line: 2872, col: 14, offset: 91004},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2872, col: 14, offset: 91003},
+													pos: position{line: 2872, col: 14, offset: 91004},
 													expr: &charClassMatcher{
-														pos:        position{line: 2872, col: 14, offset: 91003},
+														pos:        position{line: 2872, col: 14, offset: 91004},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40383,32 +40383,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1805, col: 5, offset: 58494},
+											pos: position{line: 1805, col: 5, offset: 58495},
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2944, col: 8, offset: 92808},
+											pos: position{line: 2944, col: 8, offset: 92809},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2931, col: 12, offset: 92581},
+													pos: position{line: 2931, col: 12, offset: 92582},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2931, col: 13, offset: 92582},
+														pos: position{line: 2931, col: 13, offset: 92583},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2931, col: 13, offset: 92582},
+																pos:        position{line: 2931, col: 13, offset: 92583},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2931, col: 20, offset: 92589},
+																pos:        position{line: 2931, col: 20, offset: 92590},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2931, col: 29, offset: 92598},
+																pos:        position{line: 2931, col: 29, offset: 92599},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40417,9 +40417,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92758},
+													pos: position{line: 2941, col: 8, offset: 92759},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92759,
+														line: 2941, col: 9, offset: 92760,
 													},
 												},
 											},
@@ -40429,43 +40429,43 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1792, col: 5, offset: 58155},
+							pos:   position{line: 1792, col: 5, offset: 58156},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1792, col: 16, offset: 58166},
+								pos: position{line: 1792, col: 16, offset: 58167},
 								expr: &actionExpr{
-									pos: position{line: 1793, col: 9, offset: 58176},
+									pos: position{line: 1793, col: 9, offset: 58177},
 									run: (*parser).callonParagraph43,
 									expr: &seqExpr{
-										pos: position{line: 1793, col: 9, offset: 58176},
+										pos: position{line: 1793, col: 9, offset: 58177},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2939, col: 11, offset: 92744},
+												pos: position{line: 2939, col: 11, offset: 92745},
 												expr: &anyMatcher{
-													line: 2939, col: 13, offset: 92746,
+													line: 2939, col: 13, offset: 92747,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1794, col: 9, offset: 58191},
+												pos: position{line: 1794, col: 9, offset: 58192},
 												expr: &actionExpr{
-													pos: position{line: 690, col: 14, offset: 22172},
+													pos: position{line: 690, col: 14, offset: 22173},
 													run: (*parser).callonParagraph48,
 													expr: &seqExpr{
-														pos: position{line: 690, col: 14, offset: 22172},
+														pos: position{line: 690, col: 14, offset: 22173},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2939, col: 11, offset: 92744},
+																pos: position{line: 2939, col: 11, offset: 92745},
 																expr: &anyMatcher{
-																	line: 2939, col: 13, offset: 92746,
+																	line: 2939, col: 13, offset: 92747,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 690, col: 21, offset: 22179},
+																pos: position{line: 690, col: 21, offset: 22180},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92410},
+																	pos: position{line: 2922, col: 10, offset: 92411},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92410},
+																		pos:        position{line: 2922, col: 10, offset: 92411},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40474,28 +40474,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92808},
+																pos: position{line: 2944, col: 8, offset: 92809},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92581},
+																		pos: position{line: 2931, col: 12, offset: 92582},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92582},
+																			pos: position{line: 2931, col: 13, offset: 92583},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92582},
+																					pos:        position{line: 2931, col: 13, offset: 92583},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92589},
+																					pos:        position{line: 2931, col: 20, offset: 92590},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92598},
+																					pos:        position{line: 2931, col: 29, offset: 92599},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40504,9 +40504,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92758},
+																		pos: position{line: 2941, col: 8, offset: 92759},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92759,
+																			line: 2941, col: 9, offset: 92760,
 																		},
 																	},
 																},
@@ -40516,49 +40516,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1795, col: 9, offset: 58210},
+												pos: position{line: 1795, col: 9, offset: 58211},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1795, col: 10, offset: 58211},
+													pos:  position{line: 1795, col: 10, offset: 58212},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1796, col: 9, offset: 58235},
+												pos:   position{line: 1796, col: 9, offset: 58236},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1796, col: 15, offset: 58241},
+													pos: position{line: 1796, col: 15, offset: 58242},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81188},
+															pos: position{line: 2525, col: 22, offset: 81189},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81188},
+																pos: position{line: 2525, col: 22, offset: 81189},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81438},
+																		pos:        position{line: 2530, col: 31, offset: 81439},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81443},
+																		pos: position{line: 2530, col: 36, offset: 81444},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81444},
+																			pos:        position{line: 2530, col: 37, offset: 81445},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81215},
+																		pos:   position{line: 2525, col: 49, offset: 81216},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 13, offset: 90936},
+																			pos: position{line: 2868, col: 13, offset: 90937},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2868, col: 13, offset: 90936},
+																				pos: position{line: 2868, col: 13, offset: 90937},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 13, offset: 90936},
+																					pos:        position{line: 2868, col: 13, offset: 90937},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40568,28 +40568,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92808},
+																		pos: position{line: 2944, col: 8, offset: 92809},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40598,9 +40598,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92758},
+																				pos: position{line: 2941, col: 8, offset: 92759},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92759,
+																					line: 2941, col: 9, offset: 92760,
 																				},
 																			},
 																		},
@@ -40609,21 +40609,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1804, col: 5, offset: 58470},
+															pos: position{line: 1804, col: 5, offset: 58471},
 															run: (*parser).callonParagraph84,
 															expr: &seqExpr{
-																pos: position{line: 1804, col: 5, offset: 58470},
+																pos: position{line: 1804, col: 5, offset: 58471},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1804, col: 5, offset: 58470},
+																		pos:   position{line: 1804, col: 5, offset: 58471},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 14, offset: 91003},
+																			pos: position{line: 2872, col: 14, offset: 91004},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2872, col: 14, offset: 91003},
+																				pos: position{line: 2872, col: 14, offset: 91004},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 14, offset: 91003},
+																					pos:        position{line: 2872, col: 14, offset: 91004},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40633,32 +40633,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1805, col: 5, offset: 58494},
+																		pos: position{line: 1805, col: 5, offset: 58495},
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92808},
+																		pos: position{line: 2944, col: 8, offset: 92809},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40667,9 +40667,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92758},
+																				pos: position{line: 2941, col: 8, offset: 92759},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92759,
+																					line: 2941, col: 9, offset: 92760,
 																				},
 																			},
 																		},
@@ -40691,16 +40691,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1815, col: 1, offset: 58980},
+			pos:  position{line: 1815, col: 1, offset: 58981},
 			expr: &choiceExpr{
-				pos: position{line: 1815, col: 15, offset: 58994},
+				pos: position{line: 1815, col: 15, offset: 58995},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1815, col: 15, offset: 58994},
+						pos:  position{line: 1815, col: 15, offset: 58995},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1815, col: 35, offset: 59014},
+						pos:  position{line: 1815, col: 35, offset: 59015},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -40708,65 +40708,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1817, col: 1, offset: 59035},
+			pos:  position{line: 1817, col: 1, offset: 59036},
 			expr: &actionExpr{
-				pos: position{line: 1818, col: 5, offset: 59060},
+				pos: position{line: 1818, col: 5, offset: 59061},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1818, col: 5, offset: 59060},
+					pos: position{line: 1818, col: 5, offset: 59061},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1818, col: 5, offset: 59060},
+							pos:   position{line: 1818, col: 5, offset: 59061},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1818, col: 16, offset: 59071},
+								pos: position{line: 1818, col: 16, offset: 59072},
 								expr: &actionExpr{
-									pos: position{line: 1818, col: 17, offset: 59072},
+									pos: position{line: 1818, col: 17, offset: 59073},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1818, col: 17, offset: 59072},
+										pos:  position{line: 1818, col: 17, offset: 59073},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1821, col: 5, offset: 59140},
+							pos: position{line: 1821, col: 5, offset: 59141},
 							expr: &litMatcher{
-								pos:        position{line: 1821, col: 7, offset: 59142},
+								pos:        position{line: 1821, col: 7, offset: 59143},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1822, col: 5, offset: 59151},
+							pos:   position{line: 1822, col: 5, offset: 59152},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1823, col: 9, offset: 59169},
+								pos: position{line: 1823, col: 9, offset: 59170},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1823, col: 9, offset: 59169},
+										pos:  position{line: 1823, col: 9, offset: 59170},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1824, col: 11, offset: 59196},
+										pos:  position{line: 1824, col: 11, offset: 59197},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1825, col: 11, offset: 59224},
+										pos:  position{line: 1825, col: 11, offset: 59225},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1826, col: 11, offset: 59255},
+										pos:  position{line: 1826, col: 11, offset: 59256},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1827, col: 11, offset: 59283},
+										pos:  position{line: 1827, col: 11, offset: 59284},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1828, col: 11, offset: 59314},
+										pos:  position{line: 1828, col: 11, offset: 59315},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -40778,36 +40778,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1833, col: 1, offset: 59434},
+			pos:  position{line: 1833, col: 1, offset: 59435},
 			expr: &actionExpr{
-				pos: position{line: 1834, col: 5, offset: 59476},
+				pos: position{line: 1834, col: 5, offset: 59477},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1834, col: 5, offset: 59476},
+					pos: position{line: 1834, col: 5, offset: 59477},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1834, col: 5, offset: 59476},
+							pos:   position{line: 1834, col: 5, offset: 59477},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1834, col: 16, offset: 59487},
+								pos: position{line: 1834, col: 16, offset: 59488},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1834, col: 17, offset: 59488},
+									pos:  position{line: 1834, col: 17, offset: 59489},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1835, col: 5, offset: 59513},
+							pos:   position{line: 1835, col: 5, offset: 59514},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1835, col: 14, offset: 59522},
+								pos: position{line: 1835, col: 14, offset: 59523},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1835, col: 14, offset: 59522},
+										pos:  position{line: 1835, col: 14, offset: 59523},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1835, col: 33, offset: 59541},
+										pos:  position{line: 1835, col: 33, offset: 59542},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -40819,32 +40819,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1843, col: 1, offset: 59772},
+			pos:  position{line: 1843, col: 1, offset: 59773},
 			expr: &choiceExpr{
-				pos: position{line: 1844, col: 5, offset: 59797},
+				pos: position{line: 1844, col: 5, offset: 59798},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1844, col: 5, offset: 59797},
+						pos:  position{line: 1844, col: 5, offset: 59798},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1845, col: 7, offset: 59824},
+						pos:  position{line: 1845, col: 7, offset: 59825},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1846, col: 7, offset: 59852},
+						pos:  position{line: 1846, col: 7, offset: 59853},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1847, col: 7, offset: 59884},
+						pos:  position{line: 1847, col: 7, offset: 59885},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1848, col: 7, offset: 59912},
+						pos:  position{line: 1848, col: 7, offset: 59913},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1849, col: 7, offset: 59933},
+						pos:  position{line: 1849, col: 7, offset: 59934},
 						name: "SuperscriptText",
 					},
 				},
@@ -40852,24 +40852,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1851, col: 1, offset: 59951},
+			pos:  position{line: 1851, col: 1, offset: 59952},
 			expr: &choiceExpr{
-				pos: position{line: 1852, col: 5, offset: 59976},
+				pos: position{line: 1852, col: 5, offset: 59977},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1852, col: 5, offset: 59976},
+						pos:  position{line: 1852, col: 5, offset: 59977},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1853, col: 7, offset: 60002},
+						pos:  position{line: 1853, col: 7, offset: 60003},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1854, col: 7, offset: 60030},
+						pos:  position{line: 1854, col: 7, offset: 60031},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1855, col: 7, offset: 60061},
+						pos:  position{line: 1855, col: 7, offset: 60062},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -40877,26 +40877,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1869, col: 1, offset: 60415},
+			pos:  position{line: 1869, col: 1, offset: 60416},
 			expr: &choiceExpr{
-				pos: position{line: 1870, col: 5, offset: 60441},
+				pos: position{line: 1870, col: 5, offset: 60442},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2821, col: 5, offset: 89652},
+						pos: position{line: 2821, col: 5, offset: 89653},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2821, col: 5, offset: 89652},
+							pos: position{line: 2821, col: 5, offset: 89653},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2821, col: 5, offset: 89652},
+									pos:   position{line: 2821, col: 5, offset: 89653},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2821, col: 11, offset: 89658},
+										pos: position{line: 2821, col: 11, offset: 89659},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2821, col: 11, offset: 89658},
+											pos: position{line: 2821, col: 11, offset: 89659},
 											expr: &charClassMatcher{
-												pos:        position{line: 2821, col: 11, offset: 89658},
+												pos:        position{line: 2821, col: 11, offset: 89659},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40906,36 +40906,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2824, col: 5, offset: 89716},
+									pos: position{line: 2824, col: 5, offset: 89717},
 									expr: &seqExpr{
-										pos: position{line: 2825, col: 9, offset: 89727},
+										pos: position{line: 2825, col: 9, offset: 89728},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2825, col: 9, offset: 89727},
+												pos:        position{line: 2825, col: 9, offset: 89728},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2826, col: 9, offset: 89776},
+												pos: position{line: 2826, col: 9, offset: 89777},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2830, col: 5, offset: 89856},
+									pos: position{line: 2830, col: 5, offset: 89857},
 									expr: &seqExpr{
-										pos: position{line: 2831, col: 9, offset: 89867},
+										pos: position{line: 2831, col: 9, offset: 89868},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2831, col: 9, offset: 89867},
+												pos:        position{line: 2831, col: 9, offset: 89868},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2831, col: 13, offset: 89871},
+												pos:        position{line: 2831, col: 13, offset: 89872},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40948,12 +40948,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2926, col: 11, offset: 92471},
+						pos: position{line: 2926, col: 11, offset: 92472},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2926, col: 11, offset: 92471},
+							pos: position{line: 2926, col: 11, offset: 92472},
 							expr: &charClassMatcher{
-								pos:        position{line: 2926, col: 11, offset: 92471},
+								pos:        position{line: 2926, col: 11, offset: 92472},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -40962,25 +40962,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1872, col: 7, offset: 60504},
+						pos:  position{line: 1872, col: 7, offset: 60505},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2543, col: 5, offset: 81933},
+						pos: position{line: 2543, col: 5, offset: 81934},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2543, col: 5, offset: 81933},
+							pos: position{line: 2543, col: 5, offset: 81934},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2543, col: 5, offset: 81933},
+									pos:        position{line: 2543, col: 5, offset: 81934},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2543, col: 10, offset: 81938},
+									pos: position{line: 2543, col: 10, offset: 81939},
 									expr: &charClassMatcher{
-										pos:        position{line: 2543, col: 11, offset: 81939},
+										pos:        position{line: 2543, col: 11, offset: 81940},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40991,29 +40991,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2549, col: 5, offset: 82131},
+						pos: position{line: 2549, col: 5, offset: 82132},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2549, col: 5, offset: 82131},
+							pos: position{line: 2549, col: 5, offset: 82132},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2549, col: 5, offset: 82131},
+									pos: position{line: 2549, col: 5, offset: 82132},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2552, col: 5, offset: 82202},
+									pos: position{line: 2552, col: 5, offset: 82203},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2556, col: 5, offset: 82327},
+									pos:        position{line: 2556, col: 5, offset: 82328},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2556, col: 9, offset: 82331},
+									pos: position{line: 2556, col: 9, offset: 82332},
 									expr: &charClassMatcher{
-										pos:        position{line: 2556, col: 10, offset: 82332},
+										pos:        position{line: 2556, col: 10, offset: 82333},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41024,27 +41024,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2839, col: 5, offset: 90064},
+						pos: position{line: 2839, col: 5, offset: 90065},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2840, col: 9, offset: 90074},
+							pos: position{line: 2840, col: 9, offset: 90075},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2840, col: 10, offset: 90075},
+									pos:        position{line: 2840, col: 10, offset: 90076},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2842, col: 13, offset: 90172},
+									pos: position{line: 2842, col: 13, offset: 90173},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2842, col: 13, offset: 90172},
+											pos: position{line: 2842, col: 13, offset: 90173},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2845, col: 13, offset: 90272},
+											pos:        position{line: 2845, col: 13, offset: 90273},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -41052,20 +41052,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2845, col: 19, offset: 90278},
+									pos:        position{line: 2845, col: 19, offset: 90279},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2848, col: 13, offset: 90316},
+									pos: position{line: 2848, col: 13, offset: 90317},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2848, col: 13, offset: 90316},
+											pos: position{line: 2848, col: 13, offset: 90317},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2851, col: 14, offset: 90409},
+											pos:        position{line: 2851, col: 14, offset: 90410},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -41074,18 +41074,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2853, col: 12, offset: 90453},
+									pos: position{line: 2853, col: 12, offset: 90454},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2853, col: 12, offset: 90453},
+											pos:        position{line: 2853, col: 12, offset: 90454},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2853, col: 16, offset: 90457},
+											pos: position{line: 2853, col: 16, offset: 90458},
 											expr: &litMatcher{
-												pos:        position{line: 2853, col: 17, offset: 90458},
+												pos:        position{line: 2853, col: 17, offset: 90459},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -41097,35 +41097,35 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 649, col: 5, offset: 20790},
+						pos: position{line: 649, col: 5, offset: 20791},
 						run: (*parser).callonQuotedTextElement46,
 						expr: &seqExpr{
-							pos: position{line: 649, col: 5, offset: 20790},
+							pos: position{line: 649, col: 5, offset: 20791},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 649, col: 5, offset: 20790},
+									pos: position{line: 649, col: 5, offset: 20791},
 									run: (*parser).callonQuotedTextElement48,
 								},
 								&labeledExpr{
-									pos:   position{line: 652, col: 5, offset: 20862},
+									pos:   position{line: 652, col: 5, offset: 20863},
 									label: "element",
 									expr: &choiceExpr{
-										pos: position{line: 652, col: 14, offset: 20871},
+										pos: position{line: 652, col: 14, offset: 20872},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 658, col: 5, offset: 21000},
+												pos: position{line: 658, col: 5, offset: 21001},
 												run: (*parser).callonQuotedTextElement51,
 												expr: &seqExpr{
-													pos: position{line: 658, col: 5, offset: 21000},
+													pos: position{line: 658, col: 5, offset: 21001},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 658, col: 5, offset: 21000},
+															pos:        position{line: 658, col: 5, offset: 21001},
 															val:        "\\{",
 															ignoreCase: false,
 															want:       "\"\\\\{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 658, col: 13, offset: 21008},
+															pos:   position{line: 658, col: 13, offset: 21009},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 320, col: 18, offset: 9837},
@@ -41145,8 +41145,8 @@ var g = &grammar{
 																			pos: position{line: 320, col: 28, offset: 9847},
 																			expr: &charClassMatcher{
 																				pos:        position{line: 320, col: 29, offset: 9848},
-																				val:        "[-\\pL\\pN]",
-																				chars:      []rune{'-'},
+																				val:        "[_-\\pL\\pN]",
+																				chars:      []rune{'_', '-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
 																				inverted:   false,
@@ -41157,7 +41157,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 658, col: 32, offset: 21027},
+															pos:        position{line: 658, col: 32, offset: 21028},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41166,19 +41166,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 665, col: 5, offset: 21268},
+												pos: position{line: 665, col: 5, offset: 21269},
 												run: (*parser).callonQuotedTextElement61,
 												expr: &seqExpr{
-													pos: position{line: 665, col: 5, offset: 21268},
+													pos: position{line: 665, col: 5, offset: 21269},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 665, col: 5, offset: 21268},
+															pos:        position{line: 665, col: 5, offset: 21269},
 															val:        "{",
 															ignoreCase: false,
 															want:       "\"{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 665, col: 9, offset: 21272},
+															pos:   position{line: 665, col: 9, offset: 21273},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 320, col: 18, offset: 9837},
@@ -41198,8 +41198,8 @@ var g = &grammar{
 																			pos: position{line: 320, col: 28, offset: 9847},
 																			expr: &charClassMatcher{
 																				pos:        position{line: 320, col: 29, offset: 9848},
-																				val:        "[-\\pL\\pN]",
-																				chars:      []rune{'-'},
+																				val:        "[_-\\pL\\pN]",
+																				chars:      []rune{'_', '-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
 																				inverted:   false,
@@ -41210,7 +41210,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 665, col: 28, offset: 21291},
+															pos:        position{line: 665, col: 28, offset: 21292},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41219,19 +41219,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 671, col: 25, offset: 21472},
+												pos: position{line: 671, col: 25, offset: 21473},
 												run: (*parser).callonQuotedTextElement71,
 												expr: &seqExpr{
-													pos: position{line: 671, col: 25, offset: 21472},
+													pos: position{line: 671, col: 25, offset: 21473},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 671, col: 25, offset: 21472},
+															pos:        position{line: 671, col: 25, offset: 21473},
 															val:        "{counter:",
 															ignoreCase: false,
 															want:       "\"{counter:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 671, col: 37, offset: 21484},
+															pos:   position{line: 671, col: 37, offset: 21485},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 320, col: 18, offset: 9837},
@@ -41251,8 +41251,8 @@ var g = &grammar{
 																			pos: position{line: 320, col: 28, offset: 9847},
 																			expr: &charClassMatcher{
 																				pos:        position{line: 320, col: 29, offset: 9848},
-																				val:        "[-\\pL\\pN]",
-																				chars:      []rune{'-'},
+																				val:        "[_-\\pL\\pN]",
+																				chars:      []rune{'_', '-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
 																				inverted:   false,
@@ -41263,33 +41263,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 671, col: 56, offset: 21503},
+															pos:   position{line: 671, col: 56, offset: 21504},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 671, col: 62, offset: 21509},
+																pos: position{line: 671, col: 62, offset: 21510},
 																expr: &actionExpr{
-																	pos: position{line: 679, col: 17, offset: 21806},
+																	pos: position{line: 679, col: 17, offset: 21807},
 																	run: (*parser).callonQuotedTextElement82,
 																	expr: &seqExpr{
-																		pos: position{line: 679, col: 17, offset: 21806},
+																		pos: position{line: 679, col: 17, offset: 21807},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 679, col: 17, offset: 21806},
+																				pos:        position{line: 679, col: 17, offset: 21807},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 679, col: 21, offset: 21810},
+																				pos:   position{line: 679, col: 21, offset: 21811},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 679, col: 28, offset: 21817},
+																					pos: position{line: 679, col: 28, offset: 21818},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 679, col: 28, offset: 21817},
+																							pos: position{line: 679, col: 28, offset: 21818},
 																							run: (*parser).callonQuotedTextElement87,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 679, col: 28, offset: 21817},
+																								pos:        position{line: 679, col: 28, offset: 21818},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -41297,12 +41297,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 681, col: 9, offset: 21871},
+																							pos: position{line: 681, col: 9, offset: 21872},
 																							run: (*parser).callonQuotedTextElement89,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 681, col: 9, offset: 21871},
+																								pos: position{line: 681, col: 9, offset: 21872},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 681, col: 9, offset: 21871},
+																									pos:        position{line: 681, col: 9, offset: 21872},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -41319,7 +41319,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 671, col: 78, offset: 21525},
+															pos:        position{line: 671, col: 78, offset: 21526},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41328,19 +41328,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 675, col: 25, offset: 21643},
+												pos: position{line: 675, col: 25, offset: 21644},
 												run: (*parser).callonQuotedTextElement93,
 												expr: &seqExpr{
-													pos: position{line: 675, col: 25, offset: 21643},
+													pos: position{line: 675, col: 25, offset: 21644},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 675, col: 25, offset: 21643},
+															pos:        position{line: 675, col: 25, offset: 21644},
 															val:        "{counter2:",
 															ignoreCase: false,
 															want:       "\"{counter2:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 675, col: 38, offset: 21656},
+															pos:   position{line: 675, col: 38, offset: 21657},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 320, col: 18, offset: 9837},
@@ -41360,8 +41360,8 @@ var g = &grammar{
 																			pos: position{line: 320, col: 28, offset: 9847},
 																			expr: &charClassMatcher{
 																				pos:        position{line: 320, col: 29, offset: 9848},
-																				val:        "[-\\pL\\pN]",
-																				chars:      []rune{'-'},
+																				val:        "[_-\\pL\\pN]",
+																				chars:      []rune{'_', '-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
 																				inverted:   false,
@@ -41372,33 +41372,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 675, col: 57, offset: 21675},
+															pos:   position{line: 675, col: 57, offset: 21676},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 675, col: 63, offset: 21681},
+																pos: position{line: 675, col: 63, offset: 21682},
 																expr: &actionExpr{
-																	pos: position{line: 679, col: 17, offset: 21806},
+																	pos: position{line: 679, col: 17, offset: 21807},
 																	run: (*parser).callonQuotedTextElement104,
 																	expr: &seqExpr{
-																		pos: position{line: 679, col: 17, offset: 21806},
+																		pos: position{line: 679, col: 17, offset: 21807},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 679, col: 17, offset: 21806},
+																				pos:        position{line: 679, col: 17, offset: 21807},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 679, col: 21, offset: 21810},
+																				pos:   position{line: 679, col: 21, offset: 21811},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 679, col: 28, offset: 21817},
+																					pos: position{line: 679, col: 28, offset: 21818},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 679, col: 28, offset: 21817},
+																							pos: position{line: 679, col: 28, offset: 21818},
 																							run: (*parser).callonQuotedTextElement109,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 679, col: 28, offset: 21817},
+																								pos:        position{line: 679, col: 28, offset: 21818},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -41406,12 +41406,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 681, col: 9, offset: 21871},
+																							pos: position{line: 681, col: 9, offset: 21872},
 																							run: (*parser).callonQuotedTextElement111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 681, col: 9, offset: 21871},
+																								pos: position{line: 681, col: 9, offset: 21872},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 681, col: 9, offset: 21871},
+																									pos:        position{line: 681, col: 9, offset: 21872},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -41428,7 +41428,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 675, col: 79, offset: 21697},
+															pos:        position{line: 675, col: 79, offset: 21698},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41443,31 +41443,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2935, col: 18, offset: 92681},
+						pos: position{line: 2935, col: 18, offset: 92682},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2935, col: 18, offset: 92681},
+							pos: position{line: 2935, col: 18, offset: 92682},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92581},
+									pos: position{line: 2931, col: 12, offset: 92582},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92582},
+										pos: position{line: 2931, col: 13, offset: 92583},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92582},
+												pos:        position{line: 2931, col: 13, offset: 92583},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92589},
+												pos:        position{line: 2931, col: 20, offset: 92590},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92598},
+												pos:        position{line: 2931, col: 29, offset: 92599},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41476,27 +41476,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2935, col: 26, offset: 92689},
+									pos: position{line: 2935, col: 26, offset: 92690},
 									expr: &actionExpr{
-										pos: position{line: 2931, col: 12, offset: 92581},
+										pos: position{line: 2931, col: 12, offset: 92582},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2931, col: 13, offset: 92582},
+											pos: position{line: 2931, col: 13, offset: 92583},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2931, col: 13, offset: 92582},
+													pos:        position{line: 2931, col: 13, offset: 92583},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 20, offset: 92589},
+													pos:        position{line: 2931, col: 20, offset: 92590},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 29, offset: 92598},
+													pos:        position{line: 2931, col: 29, offset: 92599},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41509,31 +41509,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1877, col: 7, offset: 60671},
+						pos:  position{line: 1877, col: 7, offset: 60672},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1878, col: 7, offset: 60718},
+						pos:  position{line: 1878, col: 7, offset: 60719},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2512, col: 5, offset: 80734},
+						pos: position{line: 2512, col: 5, offset: 80735},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2512, col: 5, offset: 80734},
+							pos: position{line: 2512, col: 5, offset: 80735},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2512, col: 5, offset: 80734},
+									pos: position{line: 2512, col: 5, offset: 80735},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2515, col: 5, offset: 80810},
+									pos:   position{line: 2515, col: 5, offset: 80811},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2516, col: 9, offset: 80828},
+										pos: position{line: 2516, col: 9, offset: 80829},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2516, col: 10, offset: 80829},
+											pos:        position{line: 2516, col: 10, offset: 80830},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -41545,27 +41545,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1211, col: 23, offset: 37655},
+						pos: position{line: 1211, col: 23, offset: 37656},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 1211, col: 23, offset: 37655},
+							pos: position{line: 1211, col: 23, offset: 37656},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1209, col: 32, offset: 37623},
+									pos:        position{line: 1209, col: 32, offset: 37624},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1211, col: 51, offset: 37683},
+									pos:   position{line: 1211, col: 51, offset: 37684},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1211, col: 56, offset: 37688},
+										pos: position{line: 1211, col: 56, offset: 37689},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1211, col: 56, offset: 37688},
+											pos: position{line: 1211, col: 56, offset: 37689},
 											expr: &charClassMatcher{
-												pos:        position{line: 1211, col: 56, offset: 37688},
+												pos:        position{line: 1211, col: 56, offset: 37689},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -41575,7 +41575,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1209, col: 32, offset: 37623},
+									pos:        position{line: 1209, col: 32, offset: 37624},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
@@ -41584,10 +41584,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2861, col: 12, offset: 90718},
+						pos: position{line: 2861, col: 12, offset: 90719},
 						run: (*parser).callonQuotedTextElement144,
 						expr: &charClassMatcher{
-							pos:        position{line: 2861, col: 12, offset: 90718},
+							pos:        position{line: 2861, col: 12, offset: 90719},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41599,29 +41599,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1896, col: 1, offset: 61188},
+			pos:  position{line: 1896, col: 1, offset: 61189},
 			expr: &actionExpr{
-				pos: position{line: 1897, col: 5, offset: 61216},
+				pos: position{line: 1897, col: 5, offset: 61217},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1897, col: 5, offset: 61216},
+					pos: position{line: 1897, col: 5, offset: 61217},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1892, col: 38, offset: 61141},
+							pos:        position{line: 1892, col: 38, offset: 61142},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1898, col: 5, offset: 61255},
+							pos:   position{line: 1898, col: 5, offset: 61256},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1898, col: 15, offset: 61265},
+								pos:  position{line: 1898, col: 15, offset: 61266},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1894, col: 36, offset: 61182},
+							pos:        position{line: 1894, col: 36, offset: 61183},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -41632,24 +41632,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1903, col: 1, offset: 61425},
+			pos:  position{line: 1903, col: 1, offset: 61426},
 			expr: &actionExpr{
-				pos: position{line: 1904, col: 5, offset: 61460},
+				pos: position{line: 1904, col: 5, offset: 61461},
 				run: (*parser).callonDoubleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1904, col: 5, offset: 61460},
+					pos: position{line: 1904, col: 5, offset: 61461},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1904, col: 5, offset: 61460},
+							pos: position{line: 1904, col: 5, offset: 61461},
 							run: (*parser).callonDoubleQuoteBoldTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1908, col: 5, offset: 61580},
+							pos:   position{line: 1908, col: 5, offset: 61581},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1908, col: 14, offset: 61589},
+								pos: position{line: 1908, col: 14, offset: 61590},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1908, col: 15, offset: 61590},
+									pos:  position{line: 1908, col: 15, offset: 61591},
 									name: "DoubleQuoteBoldTextElement",
 								},
 							},
@@ -41660,33 +41660,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1912, col: 1, offset: 61657},
+			pos:  position{line: 1912, col: 1, offset: 61658},
 			expr: &actionExpr{
-				pos: position{line: 1913, col: 5, offset: 61692},
+				pos: position{line: 1913, col: 5, offset: 61693},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1913, col: 5, offset: 61692},
+					pos: position{line: 1913, col: 5, offset: 61693},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92744},
+							pos: position{line: 2939, col: 11, offset: 92745},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92746,
+								line: 2939, col: 13, offset: 92747,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1914, col: 5, offset: 61703},
+							pos: position{line: 1914, col: 5, offset: 61704},
 							expr: &litMatcher{
-								pos:        position{line: 1894, col: 36, offset: 61182},
+								pos:        position{line: 1894, col: 36, offset: 61183},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1915, col: 5, offset: 61740},
+							pos:   position{line: 1915, col: 5, offset: 61741},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1915, col: 14, offset: 61749},
+								pos:  position{line: 1915, col: 14, offset: 61750},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41696,29 +41696,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1940, col: 1, offset: 62429},
+			pos:  position{line: 1940, col: 1, offset: 62430},
 			expr: &actionExpr{
-				pos: position{line: 1941, col: 5, offset: 62457},
+				pos: position{line: 1941, col: 5, offset: 62458},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1941, col: 5, offset: 62457},
+					pos: position{line: 1941, col: 5, offset: 62458},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1924, col: 5, offset: 61983},
+							pos:        position{line: 1924, col: 5, offset: 61984},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1925, col: 5, offset: 61992},
+							pos: position{line: 1925, col: 5, offset: 61993},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1929, col: 5, offset: 62110},
+							pos: position{line: 1929, col: 5, offset: 62111},
 							expr: &notExpr{
-								pos: position{line: 1929, col: 7, offset: 62112},
+								pos: position{line: 1929, col: 7, offset: 62113},
 								expr: &litMatcher{
-									pos:        position{line: 1929, col: 8, offset: 62113},
+									pos:        position{line: 1929, col: 8, offset: 62114},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41726,38 +41726,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1942, col: 5, offset: 62495},
+							pos:   position{line: 1942, col: 5, offset: 62496},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1942, col: 15, offset: 62505},
+								pos:  position{line: 1942, col: 15, offset: 62506},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1932, col: 5, offset: 62233},
+							pos:        position{line: 1932, col: 5, offset: 62234},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1933, col: 5, offset: 62242},
+							pos: position{line: 1933, col: 5, offset: 62243},
 							expr: &litMatcher{
-								pos:        position{line: 1933, col: 6, offset: 62243},
+								pos:        position{line: 1933, col: 6, offset: 62244},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1934, col: 5, offset: 62306},
+							pos: position{line: 1934, col: 5, offset: 62307},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1938, col: 5, offset: 62415},
+							pos: position{line: 1938, col: 5, offset: 62416},
 							expr: &notExpr{
-								pos: position{line: 1938, col: 7, offset: 62417},
+								pos: position{line: 1938, col: 7, offset: 62418},
 								expr: &charClassMatcher{
-									pos:        position{line: 2812, col: 13, offset: 89505},
+									pos:        position{line: 2812, col: 13, offset: 89506},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41771,20 +41771,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1947, col: 1, offset: 62665},
+			pos:  position{line: 1947, col: 1, offset: 62666},
 			expr: &actionExpr{
-				pos: position{line: 1948, col: 5, offset: 62702},
+				pos: position{line: 1948, col: 5, offset: 62703},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1948, col: 5, offset: 62702},
+					pos: position{line: 1948, col: 5, offset: 62703},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1948, col: 5, offset: 62702},
+							pos: position{line: 1948, col: 5, offset: 62703},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92410},
+								pos: position{line: 2922, col: 10, offset: 92411},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92410},
+									pos:        position{line: 2922, col: 10, offset: 92411},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41793,18 +41793,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1949, col: 5, offset: 62741},
+							pos:   position{line: 1949, col: 5, offset: 62742},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1949, col: 14, offset: 62750},
+								pos: position{line: 1949, col: 14, offset: 62751},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1949, col: 15, offset: 62751},
+									pos:  position{line: 1949, col: 15, offset: 62752},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1950, col: 5, offset: 62785},
+							pos: position{line: 1950, col: 5, offset: 62786},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -41813,49 +41813,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1956, col: 1, offset: 62926},
+			pos:  position{line: 1956, col: 1, offset: 62927},
 			expr: &actionExpr{
-				pos: position{line: 1957, col: 5, offset: 62961},
+				pos: position{line: 1957, col: 5, offset: 62962},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1957, col: 5, offset: 62961},
+					pos: position{line: 1957, col: 5, offset: 62962},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92744},
+							pos: position{line: 2939, col: 11, offset: 92745},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92746,
+								line: 2939, col: 13, offset: 92747,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1958, col: 5, offset: 62989},
+							pos: position{line: 1958, col: 5, offset: 62990},
 							expr: &seqExpr{
-								pos: position{line: 1932, col: 5, offset: 62233},
+								pos: position{line: 1932, col: 5, offset: 62234},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1932, col: 5, offset: 62233},
+										pos:        position{line: 1932, col: 5, offset: 62234},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1933, col: 5, offset: 62242},
+										pos: position{line: 1933, col: 5, offset: 62243},
 										expr: &litMatcher{
-											pos:        position{line: 1933, col: 6, offset: 62243},
+											pos:        position{line: 1933, col: 6, offset: 62244},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1934, col: 5, offset: 62306},
+										pos: position{line: 1934, col: 5, offset: 62307},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1938, col: 5, offset: 62415},
+										pos: position{line: 1938, col: 5, offset: 62416},
 										expr: &notExpr{
-											pos: position{line: 1938, col: 7, offset: 62417},
+											pos: position{line: 1938, col: 7, offset: 62418},
 											expr: &charClassMatcher{
-												pos:        position{line: 2812, col: 13, offset: 89505},
+												pos:        position{line: 2812, col: 13, offset: 89506},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41867,10 +41867,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1959, col: 5, offset: 63026},
+							pos:   position{line: 1959, col: 5, offset: 63027},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1959, col: 14, offset: 63035},
+								pos:  position{line: 1959, col: 14, offset: 63036},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41880,35 +41880,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1964, col: 1, offset: 63123},
+			pos:  position{line: 1964, col: 1, offset: 63124},
 			expr: &choiceExpr{
-				pos: position{line: 1966, col: 5, offset: 63184},
+				pos: position{line: 1966, col: 5, offset: 63185},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1966, col: 5, offset: 63184},
+						pos: position{line: 1966, col: 5, offset: 63185},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1966, col: 5, offset: 63184},
+							pos: position{line: 1966, col: 5, offset: 63185},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1966, col: 5, offset: 63184},
+									pos:   position{line: 1966, col: 5, offset: 63185},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1865, col: 25, offset: 60361},
+										pos: position{line: 1865, col: 25, offset: 60362},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1865, col: 25, offset: 60361},
+											pos: position{line: 1865, col: 25, offset: 60362},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1865, col: 25, offset: 60361},
+													pos:        position{line: 1865, col: 25, offset: 60362},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1865, col: 30, offset: 60366},
+													pos: position{line: 1865, col: 30, offset: 60367},
 													expr: &litMatcher{
-														pos:        position{line: 1865, col: 30, offset: 60366},
+														pos:        position{line: 1865, col: 30, offset: 60367},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41919,21 +41919,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1966, col: 40, offset: 63219},
+									pos:        position{line: 1966, col: 40, offset: 63220},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1966, col: 45, offset: 63224},
+									pos:   position{line: 1966, col: 45, offset: 63225},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1966, col: 55, offset: 63234},
+										pos:  position{line: 1966, col: 55, offset: 63235},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1966, col: 84, offset: 63263},
+									pos:        position{line: 1966, col: 84, offset: 63264},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41942,21 +41942,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1970, col: 7, offset: 63427},
+						pos: position{line: 1970, col: 7, offset: 63428},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1970, col: 7, offset: 63427},
+							pos: position{line: 1970, col: 7, offset: 63428},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1970, col: 7, offset: 63427},
+									pos:   position{line: 1970, col: 7, offset: 63428},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60288},
+										pos: position{line: 1861, col: 25, offset: 60289},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60288},
+											pos: position{line: 1861, col: 25, offset: 60289},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60288},
+												pos:        position{line: 1861, col: 25, offset: 60289},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41965,21 +41965,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1970, col: 42, offset: 63462},
+									pos:        position{line: 1970, col: 42, offset: 63463},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1970, col: 47, offset: 63467},
+									pos:   position{line: 1970, col: 47, offset: 63468},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1970, col: 57, offset: 63477},
+										pos:  position{line: 1970, col: 57, offset: 63478},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1970, col: 86, offset: 63506},
+									pos:        position{line: 1970, col: 86, offset: 63507},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41988,21 +41988,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1975, col: 7, offset: 63708},
+						pos: position{line: 1975, col: 7, offset: 63709},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1975, col: 7, offset: 63708},
+							pos: position{line: 1975, col: 7, offset: 63709},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1975, col: 7, offset: 63708},
+									pos:   position{line: 1975, col: 7, offset: 63709},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60288},
+										pos: position{line: 1861, col: 25, offset: 60289},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60288},
+											pos: position{line: 1861, col: 25, offset: 60289},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60288},
+												pos:        position{line: 1861, col: 25, offset: 60289},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42011,21 +42011,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1975, col: 42, offset: 63743},
+									pos:        position{line: 1975, col: 42, offset: 63744},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1975, col: 46, offset: 63747},
+									pos:   position{line: 1975, col: 46, offset: 63748},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1975, col: 56, offset: 63757},
+										pos:  position{line: 1975, col: 56, offset: 63758},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1975, col: 85, offset: 63786},
+									pos:        position{line: 1975, col: 85, offset: 63787},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42038,29 +42038,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1992, col: 1, offset: 64266},
+			pos:  position{line: 1992, col: 1, offset: 64267},
 			expr: &actionExpr{
-				pos: position{line: 1993, col: 5, offset: 64296},
+				pos: position{line: 1993, col: 5, offset: 64297},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1993, col: 5, offset: 64296},
+					pos: position{line: 1993, col: 5, offset: 64297},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1988, col: 40, offset: 64217},
+							pos:        position{line: 1988, col: 40, offset: 64218},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1994, col: 5, offset: 64337},
+							pos:   position{line: 1994, col: 5, offset: 64338},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1994, col: 15, offset: 64347},
+								pos:  position{line: 1994, col: 15, offset: 64348},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1990, col: 38, offset: 64260},
+							pos:        position{line: 1990, col: 38, offset: 64261},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -42071,24 +42071,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1999, col: 1, offset: 64512},
+			pos:  position{line: 1999, col: 1, offset: 64513},
 			expr: &actionExpr{
-				pos: position{line: 2000, col: 5, offset: 64549},
+				pos: position{line: 2000, col: 5, offset: 64550},
 				run: (*parser).callonDoubleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2000, col: 5, offset: 64549},
+					pos: position{line: 2000, col: 5, offset: 64550},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2000, col: 5, offset: 64549},
+							pos: position{line: 2000, col: 5, offset: 64550},
 							run: (*parser).callonDoubleQuoteItalicTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2004, col: 5, offset: 64669},
+							pos:   position{line: 2004, col: 5, offset: 64670},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2004, col: 14, offset: 64678},
+								pos: position{line: 2004, col: 14, offset: 64679},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2004, col: 15, offset: 64679},
+									pos:  position{line: 2004, col: 15, offset: 64680},
 									name: "DoubleQuoteItalicTextElement",
 								},
 							},
@@ -42099,33 +42099,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 2008, col: 1, offset: 64748},
+			pos:  position{line: 2008, col: 1, offset: 64749},
 			expr: &actionExpr{
-				pos: position{line: 2009, col: 5, offset: 64785},
+				pos: position{line: 2009, col: 5, offset: 64786},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2009, col: 5, offset: 64785},
+					pos: position{line: 2009, col: 5, offset: 64786},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92744},
+							pos: position{line: 2939, col: 11, offset: 92745},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92746,
+								line: 2939, col: 13, offset: 92747,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2010, col: 5, offset: 64796},
+							pos: position{line: 2010, col: 5, offset: 64797},
 							expr: &litMatcher{
-								pos:        position{line: 1990, col: 38, offset: 64260},
+								pos:        position{line: 1990, col: 38, offset: 64261},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2011, col: 5, offset: 64835},
+							pos:   position{line: 2011, col: 5, offset: 64836},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2011, col: 14, offset: 64844},
+								pos:  position{line: 2011, col: 14, offset: 64845},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42135,29 +42135,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2037, col: 1, offset: 65528},
+			pos:  position{line: 2037, col: 1, offset: 65529},
 			expr: &actionExpr{
-				pos: position{line: 2038, col: 5, offset: 65558},
+				pos: position{line: 2038, col: 5, offset: 65559},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2038, col: 5, offset: 65558},
+					pos: position{line: 2038, col: 5, offset: 65559},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2020, col: 5, offset: 65086},
+							pos:        position{line: 2020, col: 5, offset: 65087},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2021, col: 5, offset: 65095},
+							pos: position{line: 2021, col: 5, offset: 65096},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2025, col: 5, offset: 65215},
+							pos: position{line: 2025, col: 5, offset: 65216},
 							expr: &notExpr{
-								pos: position{line: 2025, col: 7, offset: 65217},
+								pos: position{line: 2025, col: 7, offset: 65218},
 								expr: &litMatcher{
-									pos:        position{line: 2025, col: 8, offset: 65218},
+									pos:        position{line: 2025, col: 8, offset: 65219},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42165,38 +42165,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2039, col: 5, offset: 65598},
+							pos:   position{line: 2039, col: 5, offset: 65599},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2039, col: 15, offset: 65608},
+								pos:  position{line: 2039, col: 15, offset: 65609},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2029, col: 5, offset: 65328},
+							pos:        position{line: 2029, col: 5, offset: 65329},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2030, col: 5, offset: 65337},
+							pos: position{line: 2030, col: 5, offset: 65338},
 							expr: &litMatcher{
-								pos:        position{line: 2030, col: 6, offset: 65338},
+								pos:        position{line: 2030, col: 6, offset: 65339},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2031, col: 5, offset: 65403},
+							pos: position{line: 2031, col: 5, offset: 65404},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2035, col: 5, offset: 65514},
+							pos: position{line: 2035, col: 5, offset: 65515},
 							expr: &notExpr{
-								pos: position{line: 2035, col: 7, offset: 65516},
+								pos: position{line: 2035, col: 7, offset: 65517},
 								expr: &charClassMatcher{
-									pos:        position{line: 2812, col: 13, offset: 89505},
+									pos:        position{line: 2812, col: 13, offset: 89506},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42210,20 +42210,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2044, col: 1, offset: 65775},
+			pos:  position{line: 2044, col: 1, offset: 65776},
 			expr: &actionExpr{
-				pos: position{line: 2045, col: 5, offset: 65813},
+				pos: position{line: 2045, col: 5, offset: 65814},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2045, col: 5, offset: 65813},
+					pos: position{line: 2045, col: 5, offset: 65814},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2045, col: 5, offset: 65813},
+							pos: position{line: 2045, col: 5, offset: 65814},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92410},
+								pos: position{line: 2922, col: 10, offset: 92411},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92410},
+									pos:        position{line: 2922, col: 10, offset: 92411},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42232,18 +42232,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2046, col: 5, offset: 65852},
+							pos:   position{line: 2046, col: 5, offset: 65853},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2046, col: 14, offset: 65861},
+								pos: position{line: 2046, col: 14, offset: 65862},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2046, col: 15, offset: 65862},
+									pos:  position{line: 2046, col: 15, offset: 65863},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2047, col: 5, offset: 65897},
+							pos: position{line: 2047, col: 5, offset: 65898},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -42252,49 +42252,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2053, col: 1, offset: 66038},
+			pos:  position{line: 2053, col: 1, offset: 66039},
 			expr: &actionExpr{
-				pos: position{line: 2054, col: 5, offset: 66075},
+				pos: position{line: 2054, col: 5, offset: 66076},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2054, col: 5, offset: 66075},
+					pos: position{line: 2054, col: 5, offset: 66076},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92744},
+							pos: position{line: 2939, col: 11, offset: 92745},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92746,
+								line: 2939, col: 13, offset: 92747,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2055, col: 5, offset: 66086},
+							pos: position{line: 2055, col: 5, offset: 66087},
 							expr: &seqExpr{
-								pos: position{line: 2029, col: 5, offset: 65328},
+								pos: position{line: 2029, col: 5, offset: 65329},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2029, col: 5, offset: 65328},
+										pos:        position{line: 2029, col: 5, offset: 65329},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2030, col: 5, offset: 65337},
+										pos: position{line: 2030, col: 5, offset: 65338},
 										expr: &litMatcher{
-											pos:        position{line: 2030, col: 6, offset: 65338},
+											pos:        position{line: 2030, col: 6, offset: 65339},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2031, col: 5, offset: 65403},
+										pos: position{line: 2031, col: 5, offset: 65404},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2035, col: 5, offset: 65514},
+										pos: position{line: 2035, col: 5, offset: 65515},
 										expr: &notExpr{
-											pos: position{line: 2035, col: 7, offset: 65516},
+											pos: position{line: 2035, col: 7, offset: 65517},
 											expr: &charClassMatcher{
-												pos:        position{line: 2812, col: 13, offset: 89505},
+												pos:        position{line: 2812, col: 13, offset: 89506},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42306,10 +42306,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2056, col: 5, offset: 66125},
+							pos:   position{line: 2056, col: 5, offset: 66126},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2056, col: 14, offset: 66134},
+								pos:  position{line: 2056, col: 14, offset: 66135},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42319,35 +42319,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2061, col: 1, offset: 66222},
+			pos:  position{line: 2061, col: 1, offset: 66223},
 			expr: &choiceExpr{
-				pos: position{line: 2063, col: 5, offset: 66287},
+				pos: position{line: 2063, col: 5, offset: 66288},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2063, col: 5, offset: 66287},
+						pos: position{line: 2063, col: 5, offset: 66288},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2063, col: 5, offset: 66287},
+							pos: position{line: 2063, col: 5, offset: 66288},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2063, col: 5, offset: 66287},
+									pos:   position{line: 2063, col: 5, offset: 66288},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1865, col: 25, offset: 60361},
+										pos: position{line: 1865, col: 25, offset: 60362},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1865, col: 25, offset: 60361},
+											pos: position{line: 1865, col: 25, offset: 60362},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1865, col: 25, offset: 60361},
+													pos:        position{line: 1865, col: 25, offset: 60362},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1865, col: 30, offset: 60366},
+													pos: position{line: 1865, col: 30, offset: 60367},
 													expr: &litMatcher{
-														pos:        position{line: 1865, col: 30, offset: 60366},
+														pos:        position{line: 1865, col: 30, offset: 60367},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42358,21 +42358,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2063, col: 40, offset: 66322},
+									pos:        position{line: 2063, col: 40, offset: 66323},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2063, col: 45, offset: 66327},
+									pos:   position{line: 2063, col: 45, offset: 66328},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2063, col: 55, offset: 66337},
+										pos:  position{line: 2063, col: 55, offset: 66338},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2063, col: 86, offset: 66368},
+									pos:        position{line: 2063, col: 86, offset: 66369},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -42381,21 +42381,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2067, col: 7, offset: 66533},
+						pos: position{line: 2067, col: 7, offset: 66534},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2067, col: 7, offset: 66533},
+							pos: position{line: 2067, col: 7, offset: 66534},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2067, col: 7, offset: 66533},
+									pos:   position{line: 2067, col: 7, offset: 66534},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60288},
+										pos: position{line: 1861, col: 25, offset: 60289},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60288},
+											pos: position{line: 1861, col: 25, offset: 60289},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60288},
+												pos:        position{line: 1861, col: 25, offset: 60289},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42404,21 +42404,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2067, col: 42, offset: 66568},
+									pos:        position{line: 2067, col: 42, offset: 66569},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2067, col: 47, offset: 66573},
+									pos:   position{line: 2067, col: 47, offset: 66574},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2067, col: 57, offset: 66583},
+										pos:  position{line: 2067, col: 57, offset: 66584},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2067, col: 88, offset: 66614},
+									pos:        position{line: 2067, col: 88, offset: 66615},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42427,21 +42427,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2072, col: 7, offset: 66855},
+						pos: position{line: 2072, col: 7, offset: 66856},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2072, col: 7, offset: 66855},
+							pos: position{line: 2072, col: 7, offset: 66856},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2072, col: 7, offset: 66855},
+									pos:   position{line: 2072, col: 7, offset: 66856},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60288},
+										pos: position{line: 1861, col: 25, offset: 60289},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60288},
+											pos: position{line: 1861, col: 25, offset: 60289},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60288},
+												pos:        position{line: 1861, col: 25, offset: 60289},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42450,21 +42450,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2072, col: 42, offset: 66890},
+									pos:        position{line: 2072, col: 42, offset: 66891},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2072, col: 46, offset: 66894},
+									pos:   position{line: 2072, col: 46, offset: 66895},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2072, col: 56, offset: 66904},
+										pos:  position{line: 2072, col: 56, offset: 66905},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2072, col: 87, offset: 66935},
+									pos:        position{line: 2072, col: 87, offset: 66936},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42477,29 +42477,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2089, col: 1, offset: 67499},
+			pos:  position{line: 2089, col: 1, offset: 67500},
 			expr: &actionExpr{
-				pos: position{line: 2090, col: 5, offset: 67532},
+				pos: position{line: 2090, col: 5, offset: 67533},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2090, col: 5, offset: 67532},
+					pos: position{line: 2090, col: 5, offset: 67533},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2085, col: 43, offset: 67447},
+							pos:        position{line: 2085, col: 43, offset: 67448},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2091, col: 5, offset: 67576},
+							pos:   position{line: 2091, col: 5, offset: 67577},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2091, col: 15, offset: 67586},
+								pos:  position{line: 2091, col: 15, offset: 67587},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2087, col: 41, offset: 67493},
+							pos:        position{line: 2087, col: 41, offset: 67494},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -42510,24 +42510,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2096, col: 1, offset: 67761},
+			pos:  position{line: 2096, col: 1, offset: 67762},
 			expr: &actionExpr{
-				pos: position{line: 2097, col: 5, offset: 67834},
+				pos: position{line: 2097, col: 5, offset: 67835},
 				run: (*parser).callonDoubleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2097, col: 5, offset: 67834},
+					pos: position{line: 2097, col: 5, offset: 67835},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2097, col: 5, offset: 67834},
+							pos: position{line: 2097, col: 5, offset: 67835},
 							run: (*parser).callonDoubleQuoteMonospaceTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2101, col: 5, offset: 67954},
+							pos:   position{line: 2101, col: 5, offset: 67955},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2101, col: 14, offset: 67963},
+								pos: position{line: 2101, col: 14, offset: 67964},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2101, col: 15, offset: 67964},
+									pos:  position{line: 2101, col: 15, offset: 67965},
 									name: "DoubleQuoteMonospaceTextElement",
 								},
 							},
@@ -42538,33 +42538,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2105, col: 1, offset: 68036},
+			pos:  position{line: 2105, col: 1, offset: 68037},
 			expr: &actionExpr{
-				pos: position{line: 2106, col: 5, offset: 68076},
+				pos: position{line: 2106, col: 5, offset: 68077},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2106, col: 5, offset: 68076},
+					pos: position{line: 2106, col: 5, offset: 68077},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92744},
+							pos: position{line: 2939, col: 11, offset: 92745},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92746,
+								line: 2939, col: 13, offset: 92747,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2107, col: 5, offset: 68087},
+							pos: position{line: 2107, col: 5, offset: 68088},
 							expr: &litMatcher{
-								pos:        position{line: 2087, col: 41, offset: 67493},
+								pos:        position{line: 2087, col: 41, offset: 67494},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2108, col: 5, offset: 68129},
+							pos:   position{line: 2108, col: 5, offset: 68130},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2108, col: 14, offset: 68138},
+								pos:  position{line: 2108, col: 14, offset: 68139},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42574,33 +42574,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2126, col: 1, offset: 68680},
+			pos:  position{line: 2126, col: 1, offset: 68681},
 			expr: &seqExpr{
-				pos: position{line: 2127, col: 5, offset: 68725},
+				pos: position{line: 2127, col: 5, offset: 68726},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2127, col: 5, offset: 68725},
+						pos: position{line: 2127, col: 5, offset: 68726},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2127, col: 6, offset: 68726},
+							pos:  position{line: 2127, col: 6, offset: 68727},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2128, col: 5, offset: 68745},
+						pos:        position{line: 2128, col: 5, offset: 68746},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2129, col: 5, offset: 68753},
+						pos: position{line: 2129, col: 5, offset: 68754},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2133, col: 5, offset: 68867},
+						pos: position{line: 2133, col: 5, offset: 68868},
 						expr: &notExpr{
-							pos: position{line: 2133, col: 7, offset: 68869},
+							pos: position{line: 2133, col: 7, offset: 68870},
 							expr: &charClassMatcher{
-								pos:        position{line: 2812, col: 13, offset: 89505},
+								pos:        position{line: 2812, col: 13, offset: 89506},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42613,29 +42613,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2136, col: 1, offset: 68886},
+			pos:  position{line: 2136, col: 1, offset: 68887},
 			expr: &actionExpr{
-				pos: position{line: 2137, col: 5, offset: 68919},
+				pos: position{line: 2137, col: 5, offset: 68920},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2137, col: 5, offset: 68919},
+					pos: position{line: 2137, col: 5, offset: 68920},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2119, col: 5, offset: 68482},
+							pos:        position{line: 2119, col: 5, offset: 68483},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2120, col: 5, offset: 68491},
+							pos: position{line: 2120, col: 5, offset: 68492},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2124, col: 5, offset: 68614},
+							pos: position{line: 2124, col: 5, offset: 68615},
 							expr: &notExpr{
-								pos: position{line: 2124, col: 7, offset: 68616},
+								pos: position{line: 2124, col: 7, offset: 68617},
 								expr: &litMatcher{
-									pos:        position{line: 2124, col: 8, offset: 68617},
+									pos:        position{line: 2124, col: 8, offset: 68618},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42643,15 +42643,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2138, col: 5, offset: 68963},
+							pos:   position{line: 2138, col: 5, offset: 68964},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2138, col: 15, offset: 68973},
+								pos:  position{line: 2138, col: 15, offset: 68974},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2139, col: 5, offset: 69012},
+							pos:  position{line: 2139, col: 5, offset: 69013},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -42660,20 +42660,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2143, col: 1, offset: 69149},
+			pos:  position{line: 2143, col: 1, offset: 69150},
 			expr: &actionExpr{
-				pos: position{line: 2144, col: 5, offset: 69190},
+				pos: position{line: 2144, col: 5, offset: 69191},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2144, col: 5, offset: 69190},
+					pos: position{line: 2144, col: 5, offset: 69191},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2144, col: 5, offset: 69190},
+							pos: position{line: 2144, col: 5, offset: 69191},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92410},
+								pos: position{line: 2922, col: 10, offset: 92411},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92410},
+									pos:        position{line: 2922, col: 10, offset: 92411},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42682,18 +42682,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2145, col: 5, offset: 69229},
+							pos:   position{line: 2145, col: 5, offset: 69230},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2145, col: 14, offset: 69238},
+								pos: position{line: 2145, col: 14, offset: 69239},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2145, col: 15, offset: 69239},
+									pos:  position{line: 2145, col: 15, offset: 69240},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2146, col: 5, offset: 69277},
+							pos: position{line: 2146, col: 5, offset: 69278},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -42702,31 +42702,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2152, col: 1, offset: 69418},
+			pos:  position{line: 2152, col: 1, offset: 69419},
 			expr: &actionExpr{
-				pos: position{line: 2153, col: 5, offset: 69458},
+				pos: position{line: 2153, col: 5, offset: 69459},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2153, col: 5, offset: 69458},
+					pos: position{line: 2153, col: 5, offset: 69459},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92744},
+							pos: position{line: 2939, col: 11, offset: 92745},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92746,
+								line: 2939, col: 13, offset: 92747,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2154, col: 5, offset: 69469},
+							pos: position{line: 2154, col: 5, offset: 69470},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2154, col: 6, offset: 69470},
+								pos:  position{line: 2154, col: 6, offset: 69471},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2155, col: 5, offset: 69511},
+							pos:   position{line: 2155, col: 5, offset: 69512},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2155, col: 14, offset: 69520},
+								pos:  position{line: 2155, col: 14, offset: 69521},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42736,35 +42736,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2160, col: 1, offset: 69608},
+			pos:  position{line: 2160, col: 1, offset: 69609},
 			expr: &choiceExpr{
-				pos: position{line: 2162, col: 5, offset: 69679},
+				pos: position{line: 2162, col: 5, offset: 69680},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2162, col: 5, offset: 69679},
+						pos: position{line: 2162, col: 5, offset: 69680},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2162, col: 5, offset: 69679},
+							pos: position{line: 2162, col: 5, offset: 69680},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2162, col: 5, offset: 69679},
+									pos:   position{line: 2162, col: 5, offset: 69680},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1865, col: 25, offset: 60361},
+										pos: position{line: 1865, col: 25, offset: 60362},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1865, col: 25, offset: 60361},
+											pos: position{line: 1865, col: 25, offset: 60362},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1865, col: 25, offset: 60361},
+													pos:        position{line: 1865, col: 25, offset: 60362},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1865, col: 30, offset: 60366},
+													pos: position{line: 1865, col: 30, offset: 60367},
 													expr: &litMatcher{
-														pos:        position{line: 1865, col: 30, offset: 60366},
+														pos:        position{line: 1865, col: 30, offset: 60367},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42775,21 +42775,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2162, col: 40, offset: 69714},
+									pos:        position{line: 2162, col: 40, offset: 69715},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2162, col: 45, offset: 69719},
+									pos:   position{line: 2162, col: 45, offset: 69720},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2162, col: 55, offset: 69729},
+										pos:  position{line: 2162, col: 55, offset: 69730},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2162, col: 89, offset: 69763},
+									pos:        position{line: 2162, col: 89, offset: 69764},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -42798,21 +42798,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2166, col: 7, offset: 69932},
+						pos: position{line: 2166, col: 7, offset: 69933},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2166, col: 7, offset: 69932},
+							pos: position{line: 2166, col: 7, offset: 69933},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2166, col: 7, offset: 69932},
+									pos:   position{line: 2166, col: 7, offset: 69933},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60288},
+										pos: position{line: 1861, col: 25, offset: 60289},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60288},
+											pos: position{line: 1861, col: 25, offset: 60289},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60288},
+												pos:        position{line: 1861, col: 25, offset: 60289},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42821,21 +42821,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2166, col: 42, offset: 69967},
+									pos:        position{line: 2166, col: 42, offset: 69968},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2166, col: 47, offset: 69972},
+									pos:   position{line: 2166, col: 47, offset: 69973},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2166, col: 57, offset: 69982},
+										pos:  position{line: 2166, col: 57, offset: 69983},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2166, col: 91, offset: 70016},
+									pos:        position{line: 2166, col: 91, offset: 70017},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42844,21 +42844,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2171, col: 7, offset: 70222},
+						pos: position{line: 2171, col: 7, offset: 70223},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2171, col: 7, offset: 70222},
+							pos: position{line: 2171, col: 7, offset: 70223},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2171, col: 7, offset: 70222},
+									pos:   position{line: 2171, col: 7, offset: 70223},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60288},
+										pos: position{line: 1861, col: 25, offset: 60289},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60288},
+											pos: position{line: 1861, col: 25, offset: 60289},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60288},
+												pos:        position{line: 1861, col: 25, offset: 60289},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42867,21 +42867,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2171, col: 42, offset: 70257},
+									pos:        position{line: 2171, col: 42, offset: 70258},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2171, col: 46, offset: 70261},
+									pos:   position{line: 2171, col: 46, offset: 70262},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2171, col: 56, offset: 70271},
+										pos:  position{line: 2171, col: 56, offset: 70272},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2171, col: 90, offset: 70305},
+									pos:        position{line: 2171, col: 90, offset: 70306},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42894,29 +42894,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2188, col: 1, offset: 70790},
+			pos:  position{line: 2188, col: 1, offset: 70791},
 			expr: &actionExpr{
-				pos: position{line: 2189, col: 5, offset: 70820},
+				pos: position{line: 2189, col: 5, offset: 70821},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2189, col: 5, offset: 70820},
+					pos: position{line: 2189, col: 5, offset: 70821},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2184, col: 40, offset: 70741},
+							pos:        position{line: 2184, col: 40, offset: 70742},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2190, col: 5, offset: 70861},
+							pos:   position{line: 2190, col: 5, offset: 70862},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2190, col: 15, offset: 70871},
+								pos:  position{line: 2190, col: 15, offset: 70872},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2186, col: 38, offset: 70784},
+							pos:        position{line: 2186, col: 38, offset: 70785},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -42927,24 +42927,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2195, col: 1, offset: 71037},
+			pos:  position{line: 2195, col: 1, offset: 71038},
 			expr: &actionExpr{
-				pos: position{line: 2196, col: 5, offset: 71074},
+				pos: position{line: 2196, col: 5, offset: 71075},
 				run: (*parser).callonDoubleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2196, col: 5, offset: 71074},
+					pos: position{line: 2196, col: 5, offset: 71075},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2196, col: 5, offset: 71074},
+							pos: position{line: 2196, col: 5, offset: 71075},
 							run: (*parser).callonDoubleQuoteMarkedTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2200, col: 5, offset: 71194},
+							pos:   position{line: 2200, col: 5, offset: 71195},
 							label: "elements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2200, col: 14, offset: 71203},
+								pos: position{line: 2200, col: 14, offset: 71204},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2200, col: 15, offset: 71204},
+									pos:  position{line: 2200, col: 15, offset: 71205},
 									name: "DoubleQuoteMarkedTextElement",
 								},
 							},
@@ -42955,33 +42955,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2204, col: 1, offset: 71273},
+			pos:  position{line: 2204, col: 1, offset: 71274},
 			expr: &actionExpr{
-				pos: position{line: 2205, col: 5, offset: 71342},
+				pos: position{line: 2205, col: 5, offset: 71343},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2205, col: 5, offset: 71342},
+					pos: position{line: 2205, col: 5, offset: 71343},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92744},
+							pos: position{line: 2939, col: 11, offset: 92745},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92746,
+								line: 2939, col: 13, offset: 92747,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2206, col: 5, offset: 71353},
+							pos: position{line: 2206, col: 5, offset: 71354},
 							expr: &litMatcher{
-								pos:        position{line: 2186, col: 38, offset: 70784},
+								pos:        position{line: 2186, col: 38, offset: 70785},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2207, col: 5, offset: 71392},
+							pos:   position{line: 2207, col: 5, offset: 71393},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2207, col: 14, offset: 71401},
+								pos:  position{line: 2207, col: 14, offset: 71402},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42991,29 +42991,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2232, col: 1, offset: 72083},
+			pos:  position{line: 2232, col: 1, offset: 72084},
 			expr: &actionExpr{
-				pos: position{line: 2233, col: 5, offset: 72113},
+				pos: position{line: 2233, col: 5, offset: 72114},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2233, col: 5, offset: 72113},
+					pos: position{line: 2233, col: 5, offset: 72114},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2216, col: 5, offset: 71649},
+							pos:        position{line: 2216, col: 5, offset: 71650},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2217, col: 5, offset: 71658},
+							pos: position{line: 2217, col: 5, offset: 71659},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2221, col: 5, offset: 71778},
+							pos: position{line: 2221, col: 5, offset: 71779},
 							expr: &notExpr{
-								pos: position{line: 2221, col: 7, offset: 71780},
+								pos: position{line: 2221, col: 7, offset: 71781},
 								expr: &litMatcher{
-									pos:        position{line: 2221, col: 8, offset: 71781},
+									pos:        position{line: 2221, col: 8, offset: 71782},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43021,38 +43021,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2234, col: 5, offset: 72153},
+							pos:   position{line: 2234, col: 5, offset: 72154},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2234, col: 15, offset: 72163},
+								pos:  position{line: 2234, col: 15, offset: 72164},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2224, col: 5, offset: 71886},
+							pos:        position{line: 2224, col: 5, offset: 71887},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2225, col: 5, offset: 71894},
+							pos: position{line: 2225, col: 5, offset: 71895},
 							expr: &litMatcher{
-								pos:        position{line: 2225, col: 6, offset: 71895},
+								pos:        position{line: 2225, col: 6, offset: 71896},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2226, col: 5, offset: 71958},
+							pos: position{line: 2226, col: 5, offset: 71959},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2230, col: 5, offset: 72069},
+							pos: position{line: 2230, col: 5, offset: 72070},
 							expr: &notExpr{
-								pos: position{line: 2230, col: 7, offset: 72071},
+								pos: position{line: 2230, col: 7, offset: 72072},
 								expr: &charClassMatcher{
-									pos:        position{line: 2812, col: 13, offset: 89505},
+									pos:        position{line: 2812, col: 13, offset: 89506},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43066,20 +43066,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2239, col: 1, offset: 72330},
+			pos:  position{line: 2239, col: 1, offset: 72331},
 			expr: &actionExpr{
-				pos: position{line: 2240, col: 5, offset: 72368},
+				pos: position{line: 2240, col: 5, offset: 72369},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2240, col: 5, offset: 72368},
+					pos: position{line: 2240, col: 5, offset: 72369},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2240, col: 5, offset: 72368},
+							pos: position{line: 2240, col: 5, offset: 72369},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92410},
+								pos: position{line: 2922, col: 10, offset: 92411},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92410},
+									pos:        position{line: 2922, col: 10, offset: 92411},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43088,18 +43088,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2241, col: 5, offset: 72407},
+							pos:   position{line: 2241, col: 5, offset: 72408},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2241, col: 14, offset: 72416},
+								pos: position{line: 2241, col: 14, offset: 72417},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2241, col: 15, offset: 72417},
+									pos:  position{line: 2241, col: 15, offset: 72418},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2242, col: 5, offset: 72453},
+							pos: position{line: 2242, col: 5, offset: 72454},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -43108,49 +43108,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2248, col: 1, offset: 72594},
+			pos:  position{line: 2248, col: 1, offset: 72595},
 			expr: &actionExpr{
-				pos: position{line: 2249, col: 5, offset: 72631},
+				pos: position{line: 2249, col: 5, offset: 72632},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2249, col: 5, offset: 72631},
+					pos: position{line: 2249, col: 5, offset: 72632},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92744},
+							pos: position{line: 2939, col: 11, offset: 92745},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92746,
+								line: 2939, col: 13, offset: 92747,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2250, col: 5, offset: 72642},
+							pos: position{line: 2250, col: 5, offset: 72643},
 							expr: &seqExpr{
-								pos: position{line: 2224, col: 5, offset: 71886},
+								pos: position{line: 2224, col: 5, offset: 71887},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2224, col: 5, offset: 71886},
+										pos:        position{line: 2224, col: 5, offset: 71887},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2225, col: 5, offset: 71894},
+										pos: position{line: 2225, col: 5, offset: 71895},
 										expr: &litMatcher{
-											pos:        position{line: 2225, col: 6, offset: 71895},
+											pos:        position{line: 2225, col: 6, offset: 71896},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2226, col: 5, offset: 71958},
+										pos: position{line: 2226, col: 5, offset: 71959},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2230, col: 5, offset: 72069},
+										pos: position{line: 2230, col: 5, offset: 72070},
 										expr: &notExpr{
-											pos: position{line: 2230, col: 7, offset: 72071},
+											pos: position{line: 2230, col: 7, offset: 72072},
 											expr: &charClassMatcher{
-												pos:        position{line: 2812, col: 13, offset: 89505},
+												pos:        position{line: 2812, col: 13, offset: 89506},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43162,10 +43162,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2251, col: 5, offset: 72681},
+							pos:   position{line: 2251, col: 5, offset: 72682},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2251, col: 14, offset: 72690},
+								pos:  position{line: 2251, col: 14, offset: 72691},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43175,35 +43175,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2256, col: 1, offset: 72778},
+			pos:  position{line: 2256, col: 1, offset: 72779},
 			expr: &choiceExpr{
-				pos: position{line: 2258, col: 5, offset: 72842},
+				pos: position{line: 2258, col: 5, offset: 72843},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2258, col: 5, offset: 72842},
+						pos: position{line: 2258, col: 5, offset: 72843},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2258, col: 5, offset: 72842},
+							pos: position{line: 2258, col: 5, offset: 72843},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2258, col: 5, offset: 72842},
+									pos:   position{line: 2258, col: 5, offset: 72843},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1865, col: 25, offset: 60361},
+										pos: position{line: 1865, col: 25, offset: 60362},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1865, col: 25, offset: 60361},
+											pos: position{line: 1865, col: 25, offset: 60362},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1865, col: 25, offset: 60361},
+													pos:        position{line: 1865, col: 25, offset: 60362},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1865, col: 30, offset: 60366},
+													pos: position{line: 1865, col: 30, offset: 60367},
 													expr: &litMatcher{
-														pos:        position{line: 1865, col: 30, offset: 60366},
+														pos:        position{line: 1865, col: 30, offset: 60367},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43214,21 +43214,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2258, col: 40, offset: 72877},
+									pos:        position{line: 2258, col: 40, offset: 72878},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2258, col: 45, offset: 72882},
+									pos:   position{line: 2258, col: 45, offset: 72883},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2258, col: 55, offset: 72892},
+										pos:  position{line: 2258, col: 55, offset: 72893},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2258, col: 86, offset: 72923},
+									pos:        position{line: 2258, col: 86, offset: 72924},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -43237,21 +43237,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2262, col: 7, offset: 73088},
+						pos: position{line: 2262, col: 7, offset: 73089},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2262, col: 7, offset: 73088},
+							pos: position{line: 2262, col: 7, offset: 73089},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2262, col: 7, offset: 73088},
+									pos:   position{line: 2262, col: 7, offset: 73089},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60288},
+										pos: position{line: 1861, col: 25, offset: 60289},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60288},
+											pos: position{line: 1861, col: 25, offset: 60289},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60288},
+												pos:        position{line: 1861, col: 25, offset: 60289},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43260,21 +43260,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2262, col: 42, offset: 73123},
+									pos:        position{line: 2262, col: 42, offset: 73124},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2262, col: 47, offset: 73128},
+									pos:   position{line: 2262, col: 47, offset: 73129},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2262, col: 57, offset: 73138},
+										pos:  position{line: 2262, col: 57, offset: 73139},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2262, col: 88, offset: 73169},
+									pos:        position{line: 2262, col: 88, offset: 73170},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43283,21 +43283,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2267, col: 7, offset: 73372},
+						pos: position{line: 2267, col: 7, offset: 73373},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2267, col: 7, offset: 73372},
+							pos: position{line: 2267, col: 7, offset: 73373},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2267, col: 7, offset: 73372},
+									pos:   position{line: 2267, col: 7, offset: 73373},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60288},
+										pos: position{line: 1861, col: 25, offset: 60289},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60288},
+											pos: position{line: 1861, col: 25, offset: 60289},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60288},
+												pos:        position{line: 1861, col: 25, offset: 60289},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43306,21 +43306,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2267, col: 42, offset: 73407},
+									pos:        position{line: 2267, col: 42, offset: 73408},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2267, col: 46, offset: 73411},
+									pos:   position{line: 2267, col: 46, offset: 73412},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2267, col: 56, offset: 73421},
+										pos:  position{line: 2267, col: 56, offset: 73422},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2267, col: 87, offset: 73452},
+									pos:        position{line: 2267, col: 87, offset: 73453},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43333,29 +43333,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2274, col: 1, offset: 73719},
+			pos:  position{line: 2274, col: 1, offset: 73720},
 			expr: &actionExpr{
-				pos: position{line: 2275, col: 5, offset: 73741},
+				pos: position{line: 2275, col: 5, offset: 73742},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2275, col: 5, offset: 73741},
+					pos: position{line: 2275, col: 5, offset: 73742},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2281, col: 27, offset: 73956},
+							pos:        position{line: 2281, col: 27, offset: 73957},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2276, col: 5, offset: 73768},
+							pos:   position{line: 2276, col: 5, offset: 73769},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2276, col: 14, offset: 73777},
+								pos:  position{line: 2276, col: 14, offset: 73778},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2281, col: 27, offset: 73956},
+							pos:        position{line: 2281, col: 27, offset: 73957},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43366,34 +43366,34 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2283, col: 1, offset: 73961},
+			pos:  position{line: 2283, col: 1, offset: 73962},
 			expr: &actionExpr{
-				pos: position{line: 2284, col: 5, offset: 73989},
+				pos: position{line: 2284, col: 5, offset: 73990},
 				run: (*parser).callonSubscriptTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2284, col: 5, offset: 73989},
+					pos: position{line: 2284, col: 5, offset: 73990},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2284, col: 5, offset: 73989},
+							pos: position{line: 2284, col: 5, offset: 73990},
 							run: (*parser).callonSubscriptTextElement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2288, col: 5, offset: 74109},
+							pos:   position{line: 2288, col: 5, offset: 74110},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2288, col: 14, offset: 74118},
+								pos: position{line: 2288, col: 14, offset: 74119},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2288, col: 14, offset: 74118},
+										pos:  position{line: 2288, col: 14, offset: 74119},
 										name: "QuotedText",
 									},
 									&actionExpr{
-										pos: position{line: 2292, col: 21, offset: 74206},
+										pos: position{line: 2292, col: 21, offset: 74207},
 										run: (*parser).callonSubscriptTextElement7,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2292, col: 21, offset: 74206},
+											pos: position{line: 2292, col: 21, offset: 74207},
 											expr: &charClassMatcher{
-												pos:        position{line: 2292, col: 21, offset: 74206},
+												pos:        position{line: 2292, col: 21, offset: 74207},
 												val:        "[^\\r\\n ~]",
 												chars:      []rune{'\r', '\n', ' ', '~'},
 												ignoreCase: false,
@@ -43410,23 +43410,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2296, col: 1, offset: 74291},
+			pos:  position{line: 2296, col: 1, offset: 74292},
 			expr: &actionExpr{
-				pos: position{line: 2298, col: 5, offset: 74358},
+				pos: position{line: 2298, col: 5, offset: 74359},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2298, col: 5, offset: 74358},
+					pos: position{line: 2298, col: 5, offset: 74359},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2298, col: 5, offset: 74358},
+							pos:   position{line: 2298, col: 5, offset: 74359},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1861, col: 25, offset: 60288},
+								pos: position{line: 1861, col: 25, offset: 60289},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1861, col: 25, offset: 60288},
+									pos: position{line: 1861, col: 25, offset: 60289},
 									expr: &litMatcher{
-										pos:        position{line: 1861, col: 25, offset: 60288},
+										pos:        position{line: 1861, col: 25, offset: 60289},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43435,21 +43435,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2281, col: 27, offset: 73956},
+							pos:        position{line: 2281, col: 27, offset: 73957},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2300, col: 5, offset: 74426},
+							pos:   position{line: 2300, col: 5, offset: 74427},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2300, col: 14, offset: 74435},
+								pos:  position{line: 2300, col: 14, offset: 74436},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2281, col: 27, offset: 73956},
+							pos:        position{line: 2281, col: 27, offset: 73957},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43460,29 +43460,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2308, col: 1, offset: 74698},
+			pos:  position{line: 2308, col: 1, offset: 74699},
 			expr: &actionExpr{
-				pos: position{line: 2309, col: 5, offset: 74722},
+				pos: position{line: 2309, col: 5, offset: 74723},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2309, col: 5, offset: 74722},
+					pos: position{line: 2309, col: 5, offset: 74723},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2315, col: 29, offset: 74949},
+							pos:        position{line: 2315, col: 29, offset: 74950},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2310, col: 5, offset: 74752},
+							pos:   position{line: 2310, col: 5, offset: 74753},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2310, col: 14, offset: 74761},
+								pos:  position{line: 2310, col: 14, offset: 74762},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2315, col: 29, offset: 74949},
+							pos:        position{line: 2315, col: 29, offset: 74950},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43493,34 +43493,34 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2317, col: 1, offset: 74954},
+			pos:  position{line: 2317, col: 1, offset: 74955},
 			expr: &actionExpr{
-				pos: position{line: 2318, col: 5, offset: 74984},
+				pos: position{line: 2318, col: 5, offset: 74985},
 				run: (*parser).callonSuperscriptTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2318, col: 5, offset: 74984},
+					pos: position{line: 2318, col: 5, offset: 74985},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2318, col: 5, offset: 74984},
+							pos: position{line: 2318, col: 5, offset: 74985},
 							run: (*parser).callonSuperscriptTextElement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2322, col: 5, offset: 75104},
+							pos:   position{line: 2322, col: 5, offset: 75105},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2322, col: 14, offset: 75113},
+								pos: position{line: 2322, col: 14, offset: 75114},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2322, col: 14, offset: 75113},
+										pos:  position{line: 2322, col: 14, offset: 75114},
 										name: "QuotedText",
 									},
 									&actionExpr{
-										pos: position{line: 2326, col: 23, offset: 75205},
+										pos: position{line: 2326, col: 23, offset: 75206},
 										run: (*parser).callonSuperscriptTextElement7,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2326, col: 23, offset: 75205},
+											pos: position{line: 2326, col: 23, offset: 75206},
 											expr: &charClassMatcher{
-												pos:        position{line: 2326, col: 23, offset: 75205},
+												pos:        position{line: 2326, col: 23, offset: 75206},
 												val:        "[^\\r\\n ^]",
 												chars:      []rune{'\r', '\n', ' ', '^'},
 												ignoreCase: false,
@@ -43537,23 +43537,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2330, col: 1, offset: 75290},
+			pos:  position{line: 2330, col: 1, offset: 75291},
 			expr: &actionExpr{
-				pos: position{line: 2332, col: 5, offset: 75362},
+				pos: position{line: 2332, col: 5, offset: 75363},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2332, col: 5, offset: 75362},
+					pos: position{line: 2332, col: 5, offset: 75363},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2332, col: 5, offset: 75362},
+							pos:   position{line: 2332, col: 5, offset: 75363},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1861, col: 25, offset: 60288},
+								pos: position{line: 1861, col: 25, offset: 60289},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1861, col: 25, offset: 60288},
+									pos: position{line: 1861, col: 25, offset: 60289},
 									expr: &litMatcher{
-										pos:        position{line: 1861, col: 25, offset: 60288},
+										pos:        position{line: 1861, col: 25, offset: 60289},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43562,21 +43562,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2315, col: 29, offset: 74949},
+							pos:        position{line: 2315, col: 29, offset: 74950},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2334, col: 5, offset: 75432},
+							pos:   position{line: 2334, col: 5, offset: 75433},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2334, col: 14, offset: 75441},
+								pos:  position{line: 2334, col: 14, offset: 75442},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2315, col: 29, offset: 74949},
+							pos:        position{line: 2315, col: 29, offset: 74950},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43587,27 +43587,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2343, col: 1, offset: 75910},
+			pos:  position{line: 2343, col: 1, offset: 75911},
 			expr: &actionExpr{
-				pos: position{line: 2344, col: 5, offset: 75926},
+				pos: position{line: 2344, col: 5, offset: 75927},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2344, col: 5, offset: 75926},
+					pos: position{line: 2344, col: 5, offset: 75927},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2344, col: 5, offset: 75926},
+							pos: position{line: 2344, col: 5, offset: 75927},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2347, col: 5, offset: 75989},
+							pos:   position{line: 2347, col: 5, offset: 75990},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2347, col: 12, offset: 75996},
+								pos: position{line: 2347, col: 12, offset: 75997},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2347, col: 12, offset: 75996},
+									pos: position{line: 2347, col: 12, offset: 75997},
 									expr: &litMatcher{
-										pos:        position{line: 2347, col: 13, offset: 75997},
+										pos:        position{line: 2347, col: 13, offset: 75998},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -43616,16 +43616,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2351, col: 5, offset: 76105},
+							pos: position{line: 2351, col: 5, offset: 76106},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2926, col: 11, offset: 92471},
+							pos: position{line: 2926, col: 11, offset: 92472},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2926, col: 11, offset: 92471},
+								pos: position{line: 2926, col: 11, offset: 92472},
 								expr: &charClassMatcher{
-									pos:        position{line: 2926, col: 11, offset: 92471},
+									pos:        position{line: 2926, col: 11, offset: 92472},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43634,36 +43634,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2355, col: 12, offset: 76264},
+							pos:   position{line: 2355, col: 12, offset: 76265},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2355, col: 19, offset: 76271},
+								pos:  position{line: 2355, col: 19, offset: 76272},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92808},
+							pos: position{line: 2944, col: 8, offset: 92809},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92581},
+									pos: position{line: 2931, col: 12, offset: 92582},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92582},
+										pos: position{line: 2931, col: 13, offset: 92583},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92582},
+												pos:        position{line: 2931, col: 13, offset: 92583},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92589},
+												pos:        position{line: 2931, col: 20, offset: 92590},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92598},
+												pos:        position{line: 2931, col: 29, offset: 92599},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43672,9 +43672,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92758},
+									pos: position{line: 2941, col: 8, offset: 92759},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92759,
+										line: 2941, col: 9, offset: 92760,
 									},
 								},
 							},
@@ -43685,24 +43685,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2359, col: 1, offset: 76367},
+			pos:  position{line: 2359, col: 1, offset: 76368},
 			expr: &actionExpr{
-				pos: position{line: 2360, col: 5, offset: 76388},
+				pos: position{line: 2360, col: 5, offset: 76389},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2360, col: 5, offset: 76388},
+					pos: position{line: 2360, col: 5, offset: 76389},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2360, col: 5, offset: 76388},
+							pos: position{line: 2360, col: 5, offset: 76389},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2366, col: 5, offset: 76579},
+							pos:   position{line: 2366, col: 5, offset: 76580},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2366, col: 14, offset: 76588},
+								pos: position{line: 2366, col: 14, offset: 76589},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2366, col: 15, offset: 76589},
+									pos:  position{line: 2366, col: 15, offset: 76590},
 									name: "SectionTitleElement",
 								},
 							},
@@ -43713,38 +43713,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2370, col: 1, offset: 76670},
+			pos:  position{line: 2370, col: 1, offset: 76671},
 			expr: &actionExpr{
-				pos: position{line: 2371, col: 5, offset: 76697},
+				pos: position{line: 2371, col: 5, offset: 76698},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2371, col: 5, offset: 76697},
+					pos: position{line: 2371, col: 5, offset: 76698},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2371, col: 5, offset: 76697},
+							pos: position{line: 2371, col: 5, offset: 76698},
 							expr: &choiceExpr{
-								pos: position{line: 2944, col: 8, offset: 92808},
+								pos: position{line: 2944, col: 8, offset: 92809},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2931, col: 12, offset: 92581},
+										pos: position{line: 2931, col: 12, offset: 92582},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2931, col: 13, offset: 92582},
+											pos: position{line: 2931, col: 13, offset: 92583},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2931, col: 13, offset: 92582},
+													pos:        position{line: 2931, col: 13, offset: 92583},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 20, offset: 92589},
+													pos:        position{line: 2931, col: 20, offset: 92590},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 29, offset: 92598},
+													pos:        position{line: 2931, col: 29, offset: 92599},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43753,36 +43753,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2941, col: 8, offset: 92758},
+										pos: position{line: 2941, col: 8, offset: 92759},
 										expr: &anyMatcher{
-											line: 2941, col: 9, offset: 92759,
+											line: 2941, col: 9, offset: 92760,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2372, col: 5, offset: 76706},
+							pos:   position{line: 2372, col: 5, offset: 76707},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2373, col: 9, offset: 76724},
+								pos: position{line: 2373, col: 9, offset: 76725},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2821, col: 5, offset: 89652},
+										pos: position{line: 2821, col: 5, offset: 89653},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2821, col: 5, offset: 89652},
+											pos: position{line: 2821, col: 5, offset: 89653},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2821, col: 5, offset: 89652},
+													pos:   position{line: 2821, col: 5, offset: 89653},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2821, col: 11, offset: 89658},
+														pos: position{line: 2821, col: 11, offset: 89659},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2821, col: 11, offset: 89658},
+															pos: position{line: 2821, col: 11, offset: 89659},
 															expr: &charClassMatcher{
-																pos:        position{line: 2821, col: 11, offset: 89658},
+																pos:        position{line: 2821, col: 11, offset: 89659},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43792,36 +43792,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2824, col: 5, offset: 89716},
+													pos: position{line: 2824, col: 5, offset: 89717},
 													expr: &seqExpr{
-														pos: position{line: 2825, col: 9, offset: 89727},
+														pos: position{line: 2825, col: 9, offset: 89728},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2825, col: 9, offset: 89727},
+																pos:        position{line: 2825, col: 9, offset: 89728},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2826, col: 9, offset: 89776},
+																pos: position{line: 2826, col: 9, offset: 89777},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2830, col: 5, offset: 89856},
+													pos: position{line: 2830, col: 5, offset: 89857},
 													expr: &seqExpr{
-														pos: position{line: 2831, col: 9, offset: 89867},
+														pos: position{line: 2831, col: 9, offset: 89868},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2831, col: 9, offset: 89867},
+																pos:        position{line: 2831, col: 9, offset: 89868},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2831, col: 13, offset: 89871},
+																pos:        position{line: 2831, col: 13, offset: 89872},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43834,12 +43834,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2926, col: 11, offset: 92471},
+										pos: position{line: 2926, col: 11, offset: 92472},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2926, col: 11, offset: 92471},
+											pos: position{line: 2926, col: 11, offset: 92472},
 											expr: &charClassMatcher{
-												pos:        position{line: 2926, col: 11, offset: 92471},
+												pos:        position{line: 2926, col: 11, offset: 92472},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43848,21 +43848,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2543, col: 5, offset: 81933},
+										pos: position{line: 2543, col: 5, offset: 81934},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2543, col: 5, offset: 81933},
+											pos: position{line: 2543, col: 5, offset: 81934},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2543, col: 5, offset: 81933},
+													pos:        position{line: 2543, col: 5, offset: 81934},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2543, col: 10, offset: 81938},
+													pos: position{line: 2543, col: 10, offset: 81939},
 													expr: &charClassMatcher{
-														pos:        position{line: 2543, col: 11, offset: 81939},
+														pos:        position{line: 2543, col: 11, offset: 81940},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43873,29 +43873,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2549, col: 5, offset: 82131},
+										pos: position{line: 2549, col: 5, offset: 82132},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2549, col: 5, offset: 82131},
+											pos: position{line: 2549, col: 5, offset: 82132},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2549, col: 5, offset: 82131},
+													pos: position{line: 2549, col: 5, offset: 82132},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2552, col: 5, offset: 82202},
+													pos: position{line: 2552, col: 5, offset: 82203},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2556, col: 5, offset: 82327},
+													pos:        position{line: 2556, col: 5, offset: 82328},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2556, col: 9, offset: 82331},
+													pos: position{line: 2556, col: 9, offset: 82332},
 													expr: &charClassMatcher{
-														pos:        position{line: 2556, col: 10, offset: 82332},
+														pos:        position{line: 2556, col: 10, offset: 82333},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43906,31 +43906,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2376, col: 11, offset: 76789},
+										pos:  position{line: 2376, col: 11, offset: 76790},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2839, col: 5, offset: 90064},
+										pos: position{line: 2839, col: 5, offset: 90065},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2840, col: 9, offset: 90074},
+											pos: position{line: 2840, col: 9, offset: 90075},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2840, col: 10, offset: 90075},
+													pos:        position{line: 2840, col: 10, offset: 90076},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2842, col: 13, offset: 90172},
+													pos: position{line: 2842, col: 13, offset: 90173},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2842, col: 13, offset: 90172},
+															pos: position{line: 2842, col: 13, offset: 90173},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2845, col: 13, offset: 90272},
+															pos:        position{line: 2845, col: 13, offset: 90273},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43938,20 +43938,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2845, col: 19, offset: 90278},
+													pos:        position{line: 2845, col: 19, offset: 90279},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2848, col: 13, offset: 90316},
+													pos: position{line: 2848, col: 13, offset: 90317},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2848, col: 13, offset: 90316},
+															pos: position{line: 2848, col: 13, offset: 90317},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2851, col: 14, offset: 90409},
+															pos:        position{line: 2851, col: 14, offset: 90410},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -43960,18 +43960,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2853, col: 12, offset: 90453},
+													pos: position{line: 2853, col: 12, offset: 90454},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2853, col: 12, offset: 90453},
+															pos:        position{line: 2853, col: 12, offset: 90454},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2853, col: 16, offset: 90457},
+															pos: position{line: 2853, col: 16, offset: 90458},
 															expr: &litMatcher{
-																pos:        position{line: 2853, col: 17, offset: 90458},
+																pos:        position{line: 2853, col: 17, offset: 90459},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -43983,35 +43983,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2378, col: 11, offset: 76862},
+										pos:  position{line: 2378, col: 11, offset: 76863},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2379, col: 11, offset: 76878},
+										pos:  position{line: 2379, col: 11, offset: 76879},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2380, col: 11, offset: 76906},
+										pos:  position{line: 2380, col: 11, offset: 76907},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 5, offset: 80734},
+										pos: position{line: 2512, col: 5, offset: 80735},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 5, offset: 80734},
+											pos: position{line: 2512, col: 5, offset: 80735},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 80734},
+													pos: position{line: 2512, col: 5, offset: 80735},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 5, offset: 80810},
+													pos:   position{line: 2515, col: 5, offset: 80811},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2516, col: 9, offset: 80828},
+														pos: position{line: 2516, col: 9, offset: 80829},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2516, col: 10, offset: 80829},
+															pos:        position{line: 2516, col: 10, offset: 80830},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -44023,39 +44023,39 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2382, col: 11, offset: 76991},
+										pos:  position{line: 2382, col: 11, offset: 76992},
 										name: "InlineIcon",
 									},
 									&actionExpr{
-										pos: position{line: 649, col: 5, offset: 20790},
+										pos: position{line: 649, col: 5, offset: 20791},
 										run: (*parser).callonSectionTitleElement68,
 										expr: &seqExpr{
-											pos: position{line: 649, col: 5, offset: 20790},
+											pos: position{line: 649, col: 5, offset: 20791},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 649, col: 5, offset: 20790},
+													pos: position{line: 649, col: 5, offset: 20791},
 													run: (*parser).callonSectionTitleElement70,
 												},
 												&labeledExpr{
-													pos:   position{line: 652, col: 5, offset: 20862},
+													pos:   position{line: 652, col: 5, offset: 20863},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 652, col: 14, offset: 20871},
+														pos: position{line: 652, col: 14, offset: 20872},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 658, col: 5, offset: 21000},
+																pos: position{line: 658, col: 5, offset: 21001},
 																run: (*parser).callonSectionTitleElement73,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 5, offset: 21000},
+																	pos: position{line: 658, col: 5, offset: 21001},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 5, offset: 21000},
+																			pos:        position{line: 658, col: 5, offset: 21001},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 13, offset: 21008},
+																			pos:   position{line: 658, col: 13, offset: 21009},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -44075,8 +44075,8 @@ var g = &grammar{
 																							pos: position{line: 320, col: 28, offset: 9847},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 320, col: 29, offset: 9848},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -44087,7 +44087,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 32, offset: 21027},
+																			pos:        position{line: 658, col: 32, offset: 21028},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44096,19 +44096,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 665, col: 5, offset: 21268},
+																pos: position{line: 665, col: 5, offset: 21269},
 																run: (*parser).callonSectionTitleElement83,
 																expr: &seqExpr{
-																	pos: position{line: 665, col: 5, offset: 21268},
+																	pos: position{line: 665, col: 5, offset: 21269},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 665, col: 5, offset: 21268},
+																			pos:        position{line: 665, col: 5, offset: 21269},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 665, col: 9, offset: 21272},
+																			pos:   position{line: 665, col: 9, offset: 21273},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -44128,8 +44128,8 @@ var g = &grammar{
 																							pos: position{line: 320, col: 28, offset: 9847},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 320, col: 29, offset: 9848},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -44140,7 +44140,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 665, col: 28, offset: 21291},
+																			pos:        position{line: 665, col: 28, offset: 21292},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44149,19 +44149,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 671, col: 25, offset: 21472},
+																pos: position{line: 671, col: 25, offset: 21473},
 																run: (*parser).callonSectionTitleElement93,
 																expr: &seqExpr{
-																	pos: position{line: 671, col: 25, offset: 21472},
+																	pos: position{line: 671, col: 25, offset: 21473},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 671, col: 25, offset: 21472},
+																			pos:        position{line: 671, col: 25, offset: 21473},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 671, col: 37, offset: 21484},
+																			pos:   position{line: 671, col: 37, offset: 21485},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -44181,8 +44181,8 @@ var g = &grammar{
 																							pos: position{line: 320, col: 28, offset: 9847},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 320, col: 29, offset: 9848},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -44193,33 +44193,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 671, col: 56, offset: 21503},
+																			pos:   position{line: 671, col: 56, offset: 21504},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 671, col: 62, offset: 21509},
+																				pos: position{line: 671, col: 62, offset: 21510},
 																				expr: &actionExpr{
-																					pos: position{line: 679, col: 17, offset: 21806},
+																					pos: position{line: 679, col: 17, offset: 21807},
 																					run: (*parser).callonSectionTitleElement104,
 																					expr: &seqExpr{
-																						pos: position{line: 679, col: 17, offset: 21806},
+																						pos: position{line: 679, col: 17, offset: 21807},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 679, col: 17, offset: 21806},
+																								pos:        position{line: 679, col: 17, offset: 21807},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 679, col: 21, offset: 21810},
+																								pos:   position{line: 679, col: 21, offset: 21811},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 679, col: 28, offset: 21817},
+																									pos: position{line: 679, col: 28, offset: 21818},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 679, col: 28, offset: 21817},
+																											pos: position{line: 679, col: 28, offset: 21818},
 																											run: (*parser).callonSectionTitleElement109,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 679, col: 28, offset: 21817},
+																												pos:        position{line: 679, col: 28, offset: 21818},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -44227,12 +44227,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 681, col: 9, offset: 21871},
+																											pos: position{line: 681, col: 9, offset: 21872},
 																											run: (*parser).callonSectionTitleElement111,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 681, col: 9, offset: 21871},
+																												pos: position{line: 681, col: 9, offset: 21872},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 681, col: 9, offset: 21871},
+																													pos:        position{line: 681, col: 9, offset: 21872},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44249,7 +44249,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 671, col: 78, offset: 21525},
+																			pos:        position{line: 671, col: 78, offset: 21526},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44258,19 +44258,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 675, col: 25, offset: 21643},
+																pos: position{line: 675, col: 25, offset: 21644},
 																run: (*parser).callonSectionTitleElement115,
 																expr: &seqExpr{
-																	pos: position{line: 675, col: 25, offset: 21643},
+																	pos: position{line: 675, col: 25, offset: 21644},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 675, col: 25, offset: 21643},
+																			pos:        position{line: 675, col: 25, offset: 21644},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 675, col: 38, offset: 21656},
+																			pos:   position{line: 675, col: 38, offset: 21657},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -44290,8 +44290,8 @@ var g = &grammar{
 																							pos: position{line: 320, col: 28, offset: 9847},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 320, col: 29, offset: 9848},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -44302,33 +44302,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 675, col: 57, offset: 21675},
+																			pos:   position{line: 675, col: 57, offset: 21676},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 675, col: 63, offset: 21681},
+																				pos: position{line: 675, col: 63, offset: 21682},
 																				expr: &actionExpr{
-																					pos: position{line: 679, col: 17, offset: 21806},
+																					pos: position{line: 679, col: 17, offset: 21807},
 																					run: (*parser).callonSectionTitleElement126,
 																					expr: &seqExpr{
-																						pos: position{line: 679, col: 17, offset: 21806},
+																						pos: position{line: 679, col: 17, offset: 21807},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 679, col: 17, offset: 21806},
+																								pos:        position{line: 679, col: 17, offset: 21807},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 679, col: 21, offset: 21810},
+																								pos:   position{line: 679, col: 21, offset: 21811},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 679, col: 28, offset: 21817},
+																									pos: position{line: 679, col: 28, offset: 21818},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 679, col: 28, offset: 21817},
+																											pos: position{line: 679, col: 28, offset: 21818},
 																											run: (*parser).callonSectionTitleElement131,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 679, col: 28, offset: 21817},
+																												pos:        position{line: 679, col: 28, offset: 21818},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -44336,12 +44336,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 681, col: 9, offset: 21871},
+																											pos: position{line: 681, col: 9, offset: 21872},
 																											run: (*parser).callonSectionTitleElement133,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 681, col: 9, offset: 21871},
+																												pos: position{line: 681, col: 9, offset: 21872},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 681, col: 9, offset: 21871},
+																													pos:        position{line: 681, col: 9, offset: 21872},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44358,7 +44358,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 675, col: 79, offset: 21697},
+																			pos:        position{line: 675, col: 79, offset: 21698},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44373,27 +44373,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1211, col: 23, offset: 37655},
+										pos: position{line: 1211, col: 23, offset: 37656},
 										run: (*parser).callonSectionTitleElement137,
 										expr: &seqExpr{
-											pos: position{line: 1211, col: 23, offset: 37655},
+											pos: position{line: 1211, col: 23, offset: 37656},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1209, col: 32, offset: 37623},
+													pos:        position{line: 1209, col: 32, offset: 37624},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1211, col: 51, offset: 37683},
+													pos:   position{line: 1211, col: 51, offset: 37684},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1211, col: 56, offset: 37688},
+														pos: position{line: 1211, col: 56, offset: 37689},
 														run: (*parser).callonSectionTitleElement141,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1211, col: 56, offset: 37688},
+															pos: position{line: 1211, col: 56, offset: 37689},
 															expr: &charClassMatcher{
-																pos:        position{line: 1211, col: 56, offset: 37688},
+																pos:        position{line: 1211, col: 56, offset: 37689},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -44403,7 +44403,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1209, col: 32, offset: 37623},
+													pos:        position{line: 1209, col: 32, offset: 37624},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -44412,51 +44412,51 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2395, col: 5, offset: 77444},
+										pos: position{line: 2395, col: 5, offset: 77445},
 										run: (*parser).callonSectionTitleElement145,
 										expr: &seqExpr{
-											pos: position{line: 2395, col: 5, offset: 77444},
+											pos: position{line: 2395, col: 5, offset: 77445},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2395, col: 5, offset: 77444},
+													pos: position{line: 2395, col: 5, offset: 77445},
 													run: (*parser).callonSectionTitleElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2398, col: 5, offset: 77499},
+													pos:   position{line: 2398, col: 5, offset: 77500},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 406, col: 5, offset: 12506},
+														pos: position{line: 406, col: 5, offset: 12507},
 														run: (*parser).callonSectionTitleElement149,
 														expr: &seqExpr{
-															pos: position{line: 406, col: 5, offset: 12506},
+															pos: position{line: 406, col: 5, offset: 12507},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 406, col: 5, offset: 12506},
+																	pos:        position{line: 406, col: 5, offset: 12507},
 																	val:        "[[",
 																	ignoreCase: false,
 																	want:       "\"[[\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 407, col: 5, offset: 12516},
+																	pos:   position{line: 407, col: 5, offset: 12517},
 																	label: "id",
 																	expr: &actionExpr{
-																		pos: position{line: 408, col: 9, offset: 12529},
+																		pos: position{line: 408, col: 9, offset: 12530},
 																		run: (*parser).callonSectionTitleElement153,
 																		expr: &labeledExpr{
-																			pos:   position{line: 408, col: 9, offset: 12529},
+																			pos:   position{line: 408, col: 9, offset: 12530},
 																			label: "elements",
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 408, col: 18, offset: 12538},
+																				pos: position{line: 408, col: 18, offset: 12539},
 																				expr: &choiceExpr{
-																					pos: position{line: 409, col: 13, offset: 12552},
+																					pos: position{line: 409, col: 13, offset: 12553},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 409, col: 14, offset: 12553},
+																							pos: position{line: 409, col: 14, offset: 12554},
 																							run: (*parser).callonSectionTitleElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 409, col: 14, offset: 12553},
+																								pos: position{line: 409, col: 14, offset: 12554},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 409, col: 14, offset: 12553},
+																									pos:        position{line: 409, col: 14, offset: 12554},
 																									val:        "[^=\\r\\n�{]]",
 																									chars:      []rune{'=', '\r', '\n', '�', '{', ']'},
 																									ignoreCase: false,
@@ -44465,27 +44465,27 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 1211, col: 23, offset: 37655},
+																							pos: position{line: 1211, col: 23, offset: 37656},
 																							run: (*parser).callonSectionTitleElement160,
 																							expr: &seqExpr{
-																								pos: position{line: 1211, col: 23, offset: 37655},
+																								pos: position{line: 1211, col: 23, offset: 37656},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1209, col: 32, offset: 37623},
+																										pos:        position{line: 1209, col: 32, offset: 37624},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1211, col: 51, offset: 37683},
+																										pos:   position{line: 1211, col: 51, offset: 37684},
 																										label: "ref",
 																										expr: &actionExpr{
-																											pos: position{line: 1211, col: 56, offset: 37688},
+																											pos: position{line: 1211, col: 56, offset: 37689},
 																											run: (*parser).callonSectionTitleElement164,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1211, col: 56, offset: 37688},
+																												pos: position{line: 1211, col: 56, offset: 37689},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1211, col: 56, offset: 37688},
+																													pos:        position{line: 1211, col: 56, offset: 37689},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44495,7 +44495,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1209, col: 32, offset: 37623},
+																										pos:        position{line: 1209, col: 32, offset: 37624},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
@@ -44504,35 +44504,35 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 649, col: 5, offset: 20790},
+																							pos: position{line: 649, col: 5, offset: 20791},
 																							run: (*parser).callonSectionTitleElement168,
 																							expr: &seqExpr{
-																								pos: position{line: 649, col: 5, offset: 20790},
+																								pos: position{line: 649, col: 5, offset: 20791},
 																								exprs: []interface{}{
 																									&andCodeExpr{
-																										pos: position{line: 649, col: 5, offset: 20790},
+																										pos: position{line: 649, col: 5, offset: 20791},
 																										run: (*parser).callonSectionTitleElement170,
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 5, offset: 20862},
+																										pos:   position{line: 652, col: 5, offset: 20863},
 																										label: "element",
 																										expr: &choiceExpr{
-																											pos: position{line: 652, col: 14, offset: 20871},
+																											pos: position{line: 652, col: 14, offset: 20872},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 658, col: 5, offset: 21000},
+																													pos: position{line: 658, col: 5, offset: 21001},
 																													run: (*parser).callonSectionTitleElement173,
 																													expr: &seqExpr{
-																														pos: position{line: 658, col: 5, offset: 21000},
+																														pos: position{line: 658, col: 5, offset: 21001},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 658, col: 5, offset: 21000},
+																																pos:        position{line: 658, col: 5, offset: 21001},
 																																val:        "\\{",
 																																ignoreCase: false,
 																																want:       "\"\\\\{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 658, col: 13, offset: 21008},
+																																pos:   position{line: 658, col: 13, offset: 21009},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
@@ -44552,8 +44552,8 @@ var g = &grammar{
 																																				pos: position{line: 320, col: 28, offset: 9847},
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 320, col: 29, offset: 9848},
-																																					val:        "[-\\pL\\pN]",
-																																					chars:      []rune{'-'},
+																																					val:        "[_-\\pL\\pN]",
+																																					chars:      []rune{'_', '-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																					ignoreCase: false,
 																																					inverted:   false,
@@ -44564,7 +44564,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 658, col: 32, offset: 21027},
+																																pos:        position{line: 658, col: 32, offset: 21028},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44573,19 +44573,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 665, col: 5, offset: 21268},
+																													pos: position{line: 665, col: 5, offset: 21269},
 																													run: (*parser).callonSectionTitleElement183,
 																													expr: &seqExpr{
-																														pos: position{line: 665, col: 5, offset: 21268},
+																														pos: position{line: 665, col: 5, offset: 21269},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 665, col: 5, offset: 21268},
+																																pos:        position{line: 665, col: 5, offset: 21269},
 																																val:        "{",
 																																ignoreCase: false,
 																																want:       "\"{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 665, col: 9, offset: 21272},
+																																pos:   position{line: 665, col: 9, offset: 21273},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
@@ -44605,8 +44605,8 @@ var g = &grammar{
 																																				pos: position{line: 320, col: 28, offset: 9847},
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 320, col: 29, offset: 9848},
-																																					val:        "[-\\pL\\pN]",
-																																					chars:      []rune{'-'},
+																																					val:        "[_-\\pL\\pN]",
+																																					chars:      []rune{'_', '-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																					ignoreCase: false,
 																																					inverted:   false,
@@ -44617,7 +44617,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 665, col: 28, offset: 21291},
+																																pos:        position{line: 665, col: 28, offset: 21292},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44626,19 +44626,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 671, col: 25, offset: 21472},
+																													pos: position{line: 671, col: 25, offset: 21473},
 																													run: (*parser).callonSectionTitleElement193,
 																													expr: &seqExpr{
-																														pos: position{line: 671, col: 25, offset: 21472},
+																														pos: position{line: 671, col: 25, offset: 21473},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 671, col: 25, offset: 21472},
+																																pos:        position{line: 671, col: 25, offset: 21473},
 																																val:        "{counter:",
 																																ignoreCase: false,
 																																want:       "\"{counter:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 671, col: 37, offset: 21484},
+																																pos:   position{line: 671, col: 37, offset: 21485},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
@@ -44658,8 +44658,8 @@ var g = &grammar{
 																																				pos: position{line: 320, col: 28, offset: 9847},
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 320, col: 29, offset: 9848},
-																																					val:        "[-\\pL\\pN]",
-																																					chars:      []rune{'-'},
+																																					val:        "[_-\\pL\\pN]",
+																																					chars:      []rune{'_', '-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																					ignoreCase: false,
 																																					inverted:   false,
@@ -44670,33 +44670,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 671, col: 56, offset: 21503},
+																																pos:   position{line: 671, col: 56, offset: 21504},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 671, col: 62, offset: 21509},
+																																	pos: position{line: 671, col: 62, offset: 21510},
 																																	expr: &actionExpr{
-																																		pos: position{line: 679, col: 17, offset: 21806},
+																																		pos: position{line: 679, col: 17, offset: 21807},
 																																		run: (*parser).callonSectionTitleElement204,
 																																		expr: &seqExpr{
-																																			pos: position{line: 679, col: 17, offset: 21806},
+																																			pos: position{line: 679, col: 17, offset: 21807},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 679, col: 17, offset: 21806},
+																																					pos:        position{line: 679, col: 17, offset: 21807},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 679, col: 21, offset: 21810},
+																																					pos:   position{line: 679, col: 21, offset: 21811},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 679, col: 28, offset: 21817},
+																																						pos: position{line: 679, col: 28, offset: 21818},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 679, col: 28, offset: 21817},
+																																								pos: position{line: 679, col: 28, offset: 21818},
 																																								run: (*parser).callonSectionTitleElement209,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 679, col: 28, offset: 21817},
+																																									pos:        position{line: 679, col: 28, offset: 21818},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -44704,12 +44704,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 681, col: 9, offset: 21871},
+																																								pos: position{line: 681, col: 9, offset: 21872},
 																																								run: (*parser).callonSectionTitleElement211,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 681, col: 9, offset: 21871},
+																																									pos: position{line: 681, col: 9, offset: 21872},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 681, col: 9, offset: 21871},
+																																										pos:        position{line: 681, col: 9, offset: 21872},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -44726,7 +44726,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 671, col: 78, offset: 21525},
+																																pos:        position{line: 671, col: 78, offset: 21526},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44735,19 +44735,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 675, col: 25, offset: 21643},
+																													pos: position{line: 675, col: 25, offset: 21644},
 																													run: (*parser).callonSectionTitleElement215,
 																													expr: &seqExpr{
-																														pos: position{line: 675, col: 25, offset: 21643},
+																														pos: position{line: 675, col: 25, offset: 21644},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 675, col: 25, offset: 21643},
+																																pos:        position{line: 675, col: 25, offset: 21644},
 																																val:        "{counter2:",
 																																ignoreCase: false,
 																																want:       "\"{counter2:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 675, col: 38, offset: 21656},
+																																pos:   position{line: 675, col: 38, offset: 21657},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
@@ -44767,8 +44767,8 @@ var g = &grammar{
 																																				pos: position{line: 320, col: 28, offset: 9847},
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 320, col: 29, offset: 9848},
-																																					val:        "[-\\pL\\pN]",
-																																					chars:      []rune{'-'},
+																																					val:        "[_-\\pL\\pN]",
+																																					chars:      []rune{'_', '-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																					ignoreCase: false,
 																																					inverted:   false,
@@ -44779,33 +44779,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 675, col: 57, offset: 21675},
+																																pos:   position{line: 675, col: 57, offset: 21676},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 675, col: 63, offset: 21681},
+																																	pos: position{line: 675, col: 63, offset: 21682},
 																																	expr: &actionExpr{
-																																		pos: position{line: 679, col: 17, offset: 21806},
+																																		pos: position{line: 679, col: 17, offset: 21807},
 																																		run: (*parser).callonSectionTitleElement226,
 																																		expr: &seqExpr{
-																																			pos: position{line: 679, col: 17, offset: 21806},
+																																			pos: position{line: 679, col: 17, offset: 21807},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 679, col: 17, offset: 21806},
+																																					pos:        position{line: 679, col: 17, offset: 21807},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 679, col: 21, offset: 21810},
+																																					pos:   position{line: 679, col: 21, offset: 21811},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 679, col: 28, offset: 21817},
+																																						pos: position{line: 679, col: 28, offset: 21818},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 679, col: 28, offset: 21817},
+																																								pos: position{line: 679, col: 28, offset: 21818},
 																																								run: (*parser).callonSectionTitleElement231,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 679, col: 28, offset: 21817},
+																																									pos:        position{line: 679, col: 28, offset: 21818},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -44813,12 +44813,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 681, col: 9, offset: 21871},
+																																								pos: position{line: 681, col: 9, offset: 21872},
 																																								run: (*parser).callonSectionTitleElement233,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 681, col: 9, offset: 21871},
+																																									pos: position{line: 681, col: 9, offset: 21872},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 681, col: 9, offset: 21871},
+																																										pos:        position{line: 681, col: 9, offset: 21872},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -44835,7 +44835,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 675, col: 79, offset: 21697},
+																																pos:        position{line: 675, col: 79, offset: 21698},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44850,10 +44850,10 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 414, col: 16, offset: 12786},
+																							pos: position{line: 414, col: 16, offset: 12787},
 																							run: (*parser).callonSectionTitleElement237,
 																							expr: &litMatcher{
-																								pos:        position{line: 414, col: 16, offset: 12786},
+																								pos:        position{line: 414, col: 16, offset: 12787},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
@@ -44866,7 +44866,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 420, col: 5, offset: 12972},
+																	pos:        position{line: 420, col: 5, offset: 12973},
 																	val:        "]]",
 																	ignoreCase: false,
 																	want:       "\"]]\"",
@@ -44876,12 +44876,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2398, col: 26, offset: 77520},
+													pos: position{line: 2398, col: 26, offset: 77521},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92410},
+														pos: position{line: 2922, col: 10, offset: 92411},
 														run: (*parser).callonSectionTitleElement241,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92410},
+															pos:        position{line: 2922, col: 10, offset: 92411},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44890,30 +44890,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2398, col: 33, offset: 77527},
+													pos: position{line: 2398, col: 33, offset: 77528},
 													expr: &choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92808},
+														pos: position{line: 2944, col: 8, offset: 92809},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92581},
+																pos: position{line: 2931, col: 12, offset: 92582},
 																run: (*parser).callonSectionTitleElement245,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92582},
+																	pos: position{line: 2931, col: 13, offset: 92583},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92582},
+																			pos:        position{line: 2931, col: 13, offset: 92583},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92589},
+																			pos:        position{line: 2931, col: 20, offset: 92590},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92598},
+																			pos:        position{line: 2931, col: 29, offset: 92599},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44922,9 +44922,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92758},
+																pos: position{line: 2941, col: 8, offset: 92759},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92759,
+																	line: 2941, col: 9, offset: 92760,
 																},
 															},
 														},
@@ -44934,27 +44934,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1266, col: 5, offset: 39415},
+										pos: position{line: 1266, col: 5, offset: 39416},
 										run: (*parser).callonSectionTitleElement252,
 										expr: &seqExpr{
-											pos: position{line: 1266, col: 5, offset: 39415},
+											pos: position{line: 1266, col: 5, offset: 39416},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1266, col: 5, offset: 39415},
+													pos:        position{line: 1266, col: 5, offset: 39416},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1266, col: 14, offset: 39424},
+													pos:   position{line: 1266, col: 14, offset: 39425},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 7, offset: 92062},
+														pos: position{line: 2907, col: 7, offset: 92063},
 														run: (*parser).callonSectionTitleElement256,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2907, col: 7, offset: 92062},
+															pos: position{line: 2907, col: 7, offset: 92063},
 															expr: &charClassMatcher{
-																pos:        position{line: 2907, col: 7, offset: 92062},
+																pos:        position{line: 2907, col: 7, offset: 92063},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -44964,7 +44964,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1266, col: 22, offset: 39432},
+													pos:        position{line: 1266, col: 22, offset: 39433},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44973,27 +44973,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1271, col: 5, offset: 39551},
+										pos: position{line: 1271, col: 5, offset: 39552},
 										run: (*parser).callonSectionTitleElement260,
 										expr: &seqExpr{
-											pos: position{line: 1271, col: 5, offset: 39551},
+											pos: position{line: 1271, col: 5, offset: 39552},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1271, col: 5, offset: 39551},
+													pos:        position{line: 1271, col: 5, offset: 39552},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1271, col: 10, offset: 39556},
+													pos:   position{line: 1271, col: 10, offset: 39557},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 7, offset: 92062},
+														pos: position{line: 2907, col: 7, offset: 92063},
 														run: (*parser).callonSectionTitleElement264,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2907, col: 7, offset: 92062},
+															pos: position{line: 2907, col: 7, offset: 92063},
 															expr: &charClassMatcher{
-																pos:        position{line: 2907, col: 7, offset: 92062},
+																pos:        position{line: 2907, col: 7, offset: 92063},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45003,7 +45003,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1271, col: 18, offset: 39564},
+													pos:        position{line: 1271, col: 18, offset: 39565},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45012,14 +45012,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2387, col: 11, offset: 77245},
+										pos:  position{line: 2387, col: 11, offset: 77246},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90718},
+										pos: position{line: 2861, col: 12, offset: 90719},
 										run: (*parser).callonSectionTitleElement269,
 										expr: &charClassMatcher{
-											pos:        position{line: 2861, col: 12, offset: 90718},
+											pos:        position{line: 2861, col: 12, offset: 90719},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45035,52 +45035,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2408, col: 1, offset: 77789},
+			pos:  position{line: 2408, col: 1, offset: 77790},
 			expr: &actionExpr{
-				pos: position{line: 2409, col: 5, offset: 77876},
+				pos: position{line: 2409, col: 5, offset: 77877},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2409, col: 5, offset: 77876},
+					pos: position{line: 2409, col: 5, offset: 77877},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2409, col: 5, offset: 77876},
+							pos:   position{line: 2409, col: 5, offset: 77877},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2409, col: 14, offset: 77885},
+								pos: position{line: 2409, col: 14, offset: 77886},
 								expr: &actionExpr{
-									pos: position{line: 2411, col: 9, offset: 77911},
+									pos: position{line: 2411, col: 9, offset: 77912},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2411, col: 9, offset: 77911},
+										pos: position{line: 2411, col: 9, offset: 77912},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2939, col: 11, offset: 92744},
+												pos: position{line: 2939, col: 11, offset: 92745},
 												expr: &anyMatcher{
-													line: 2939, col: 13, offset: 92746,
+													line: 2939, col: 13, offset: 92747,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2412, col: 9, offset: 77926},
+												pos:   position{line: 2412, col: 9, offset: 77927},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2413, col: 13, offset: 77948},
+													pos: position{line: 2413, col: 13, offset: 77949},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2821, col: 5, offset: 89652},
+															pos: position{line: 2821, col: 5, offset: 89653},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2821, col: 5, offset: 89652},
+																pos: position{line: 2821, col: 5, offset: 89653},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2821, col: 5, offset: 89652},
+																		pos:   position{line: 2821, col: 5, offset: 89653},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2821, col: 11, offset: 89658},
+																			pos: position{line: 2821, col: 11, offset: 89659},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2821, col: 11, offset: 89658},
+																				pos: position{line: 2821, col: 11, offset: 89659},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2821, col: 11, offset: 89658},
+																					pos:        position{line: 2821, col: 11, offset: 89659},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45090,36 +45090,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2824, col: 5, offset: 89716},
+																		pos: position{line: 2824, col: 5, offset: 89717},
 																		expr: &seqExpr{
-																			pos: position{line: 2825, col: 9, offset: 89727},
+																			pos: position{line: 2825, col: 9, offset: 89728},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2825, col: 9, offset: 89727},
+																					pos:        position{line: 2825, col: 9, offset: 89728},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2826, col: 9, offset: 89776},
+																					pos: position{line: 2826, col: 9, offset: 89777},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2830, col: 5, offset: 89856},
+																		pos: position{line: 2830, col: 5, offset: 89857},
 																		expr: &seqExpr{
-																			pos: position{line: 2831, col: 9, offset: 89867},
+																			pos: position{line: 2831, col: 9, offset: 89868},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2831, col: 9, offset: 89867},
+																					pos:        position{line: 2831, col: 9, offset: 89868},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2831, col: 13, offset: 89871},
+																					pos:        position{line: 2831, col: 13, offset: 89872},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45132,12 +45132,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2926, col: 11, offset: 92471},
+															pos: position{line: 2926, col: 11, offset: 92472},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2926, col: 11, offset: 92471},
+																pos: position{line: 2926, col: 11, offset: 92472},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2926, col: 11, offset: 92471},
+																	pos:        position{line: 2926, col: 11, offset: 92472},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45146,25 +45146,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2415, col: 15, offset: 77994},
+															pos:  position{line: 2415, col: 15, offset: 77995},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2543, col: 5, offset: 81933},
+															pos: position{line: 2543, col: 5, offset: 81934},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2543, col: 5, offset: 81933},
+																pos: position{line: 2543, col: 5, offset: 81934},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2543, col: 5, offset: 81933},
+																		pos:        position{line: 2543, col: 5, offset: 81934},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2543, col: 10, offset: 81938},
+																		pos: position{line: 2543, col: 10, offset: 81939},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2543, col: 11, offset: 81939},
+																			pos:        position{line: 2543, col: 11, offset: 81940},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45175,29 +45175,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2549, col: 5, offset: 82131},
+															pos: position{line: 2549, col: 5, offset: 82132},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2549, col: 5, offset: 82131},
+																pos: position{line: 2549, col: 5, offset: 82132},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2549, col: 5, offset: 82131},
+																		pos: position{line: 2549, col: 5, offset: 82132},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2552, col: 5, offset: 82202},
+																		pos: position{line: 2552, col: 5, offset: 82203},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2556, col: 5, offset: 82327},
+																		pos:        position{line: 2556, col: 5, offset: 82328},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2556, col: 9, offset: 82331},
+																		pos: position{line: 2556, col: 9, offset: 82332},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2556, col: 10, offset: 82332},
+																			pos:        position{line: 2556, col: 10, offset: 82333},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45208,27 +45208,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2839, col: 5, offset: 90064},
+															pos: position{line: 2839, col: 5, offset: 90065},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2840, col: 9, offset: 90074},
+																pos: position{line: 2840, col: 9, offset: 90075},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2840, col: 10, offset: 90075},
+																		pos:        position{line: 2840, col: 10, offset: 90076},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2842, col: 13, offset: 90172},
+																		pos: position{line: 2842, col: 13, offset: 90173},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2842, col: 13, offset: 90172},
+																				pos: position{line: 2842, col: 13, offset: 90173},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2845, col: 13, offset: 90272},
+																				pos:        position{line: 2845, col: 13, offset: 90273},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45236,20 +45236,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2845, col: 19, offset: 90278},
+																		pos:        position{line: 2845, col: 19, offset: 90279},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2848, col: 13, offset: 90316},
+																		pos: position{line: 2848, col: 13, offset: 90317},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2848, col: 13, offset: 90316},
+																				pos: position{line: 2848, col: 13, offset: 90317},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2851, col: 14, offset: 90409},
+																				pos:        position{line: 2851, col: 14, offset: 90410},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45258,18 +45258,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2853, col: 12, offset: 90453},
+																		pos: position{line: 2853, col: 12, offset: 90454},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2853, col: 12, offset: 90453},
+																				pos:        position{line: 2853, col: 12, offset: 90454},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2853, col: 16, offset: 90457},
+																				pos: position{line: 2853, col: 16, offset: 90458},
 																				expr: &litMatcher{
-																					pos:        position{line: 2853, col: 17, offset: 90458},
+																					pos:        position{line: 2853, col: 17, offset: 90459},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45281,25 +45281,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92581},
+															pos: position{line: 2931, col: 12, offset: 92582},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92582},
+																pos: position{line: 2931, col: 13, offset: 92583},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92582},
+																		pos:        position{line: 2931, col: 13, offset: 92583},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92589},
+																		pos:        position{line: 2931, col: 20, offset: 92590},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92598},
+																		pos:        position{line: 2931, col: 29, offset: 92599},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45308,35 +45308,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 649, col: 5, offset: 20790},
+															pos: position{line: 649, col: 5, offset: 20791},
 															run: (*parser).callonNormalGroup60,
 															expr: &seqExpr{
-																pos: position{line: 649, col: 5, offset: 20790},
+																pos: position{line: 649, col: 5, offset: 20791},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 649, col: 5, offset: 20790},
+																		pos: position{line: 649, col: 5, offset: 20791},
 																		run: (*parser).callonNormalGroup62,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 652, col: 5, offset: 20862},
+																		pos:   position{line: 652, col: 5, offset: 20863},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 652, col: 14, offset: 20871},
+																			pos: position{line: 652, col: 14, offset: 20872},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 658, col: 5, offset: 21000},
+																					pos: position{line: 658, col: 5, offset: 21001},
 																					run: (*parser).callonNormalGroup65,
 																					expr: &seqExpr{
-																						pos: position{line: 658, col: 5, offset: 21000},
+																						pos: position{line: 658, col: 5, offset: 21001},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 658, col: 5, offset: 21000},
+																								pos:        position{line: 658, col: 5, offset: 21001},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 13, offset: 21008},
+																								pos:   position{line: 658, col: 13, offset: 21009},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -45356,8 +45356,8 @@ var g = &grammar{
 																												pos: position{line: 320, col: 28, offset: 9847},
 																												expr: &charClassMatcher{
 																													pos:        position{line: 320, col: 29, offset: 9848},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -45368,7 +45368,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 658, col: 32, offset: 21027},
+																								pos:        position{line: 658, col: 32, offset: 21028},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45377,19 +45377,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 665, col: 5, offset: 21268},
+																					pos: position{line: 665, col: 5, offset: 21269},
 																					run: (*parser).callonNormalGroup75,
 																					expr: &seqExpr{
-																						pos: position{line: 665, col: 5, offset: 21268},
+																						pos: position{line: 665, col: 5, offset: 21269},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 665, col: 5, offset: 21268},
+																								pos:        position{line: 665, col: 5, offset: 21269},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 9, offset: 21272},
+																								pos:   position{line: 665, col: 9, offset: 21273},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -45409,8 +45409,8 @@ var g = &grammar{
 																												pos: position{line: 320, col: 28, offset: 9847},
 																												expr: &charClassMatcher{
 																													pos:        position{line: 320, col: 29, offset: 9848},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -45421,7 +45421,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 665, col: 28, offset: 21291},
+																								pos:        position{line: 665, col: 28, offset: 21292},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45430,19 +45430,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 671, col: 25, offset: 21472},
+																					pos: position{line: 671, col: 25, offset: 21473},
 																					run: (*parser).callonNormalGroup85,
 																					expr: &seqExpr{
-																						pos: position{line: 671, col: 25, offset: 21472},
+																						pos: position{line: 671, col: 25, offset: 21473},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 671, col: 25, offset: 21472},
+																								pos:        position{line: 671, col: 25, offset: 21473},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 671, col: 37, offset: 21484},
+																								pos:   position{line: 671, col: 37, offset: 21485},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -45462,8 +45462,8 @@ var g = &grammar{
 																												pos: position{line: 320, col: 28, offset: 9847},
 																												expr: &charClassMatcher{
 																													pos:        position{line: 320, col: 29, offset: 9848},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -45474,33 +45474,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 671, col: 56, offset: 21503},
+																								pos:   position{line: 671, col: 56, offset: 21504},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 671, col: 62, offset: 21509},
+																									pos: position{line: 671, col: 62, offset: 21510},
 																									expr: &actionExpr{
-																										pos: position{line: 679, col: 17, offset: 21806},
+																										pos: position{line: 679, col: 17, offset: 21807},
 																										run: (*parser).callonNormalGroup96,
 																										expr: &seqExpr{
-																											pos: position{line: 679, col: 17, offset: 21806},
+																											pos: position{line: 679, col: 17, offset: 21807},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 679, col: 17, offset: 21806},
+																													pos:        position{line: 679, col: 17, offset: 21807},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 679, col: 21, offset: 21810},
+																													pos:   position{line: 679, col: 21, offset: 21811},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 679, col: 28, offset: 21817},
+																														pos: position{line: 679, col: 28, offset: 21818},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 679, col: 28, offset: 21817},
+																																pos: position{line: 679, col: 28, offset: 21818},
 																																run: (*parser).callonNormalGroup101,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 679, col: 28, offset: 21817},
+																																	pos:        position{line: 679, col: 28, offset: 21818},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -45508,12 +45508,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 681, col: 9, offset: 21871},
+																																pos: position{line: 681, col: 9, offset: 21872},
 																																run: (*parser).callonNormalGroup103,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 681, col: 9, offset: 21871},
+																																	pos: position{line: 681, col: 9, offset: 21872},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 681, col: 9, offset: 21871},
+																																		pos:        position{line: 681, col: 9, offset: 21872},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -45530,7 +45530,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 671, col: 78, offset: 21525},
+																								pos:        position{line: 671, col: 78, offset: 21526},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45539,19 +45539,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 675, col: 25, offset: 21643},
+																					pos: position{line: 675, col: 25, offset: 21644},
 																					run: (*parser).callonNormalGroup107,
 																					expr: &seqExpr{
-																						pos: position{line: 675, col: 25, offset: 21643},
+																						pos: position{line: 675, col: 25, offset: 21644},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 675, col: 25, offset: 21643},
+																								pos:        position{line: 675, col: 25, offset: 21644},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 675, col: 38, offset: 21656},
+																								pos:   position{line: 675, col: 38, offset: 21657},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -45571,8 +45571,8 @@ var g = &grammar{
 																												pos: position{line: 320, col: 28, offset: 9847},
 																												expr: &charClassMatcher{
 																													pos:        position{line: 320, col: 29, offset: 9848},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -45583,33 +45583,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 675, col: 57, offset: 21675},
+																								pos:   position{line: 675, col: 57, offset: 21676},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 675, col: 63, offset: 21681},
+																									pos: position{line: 675, col: 63, offset: 21682},
 																									expr: &actionExpr{
-																										pos: position{line: 679, col: 17, offset: 21806},
+																										pos: position{line: 679, col: 17, offset: 21807},
 																										run: (*parser).callonNormalGroup118,
 																										expr: &seqExpr{
-																											pos: position{line: 679, col: 17, offset: 21806},
+																											pos: position{line: 679, col: 17, offset: 21807},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 679, col: 17, offset: 21806},
+																													pos:        position{line: 679, col: 17, offset: 21807},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 679, col: 21, offset: 21810},
+																													pos:   position{line: 679, col: 21, offset: 21811},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 679, col: 28, offset: 21817},
+																														pos: position{line: 679, col: 28, offset: 21818},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 679, col: 28, offset: 21817},
+																																pos: position{line: 679, col: 28, offset: 21818},
 																																run: (*parser).callonNormalGroup123,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 679, col: 28, offset: 21817},
+																																	pos:        position{line: 679, col: 28, offset: 21818},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -45617,12 +45617,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 681, col: 9, offset: 21871},
+																																pos: position{line: 681, col: 9, offset: 21872},
 																																run: (*parser).callonNormalGroup125,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 681, col: 9, offset: 21871},
+																																	pos: position{line: 681, col: 9, offset: 21872},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 681, col: 9, offset: 21871},
+																																		pos:        position{line: 681, col: 9, offset: 21872},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -45639,7 +45639,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 675, col: 79, offset: 21697},
+																								pos:        position{line: 675, col: 79, offset: 21698},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45654,35 +45654,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2420, col: 15, offset: 78161},
+															pos:  position{line: 2420, col: 15, offset: 78162},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2421, col: 15, offset: 78181},
+															pos:  position{line: 2421, col: 15, offset: 78182},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2422, col: 15, offset: 78270},
+															pos:  position{line: 2422, col: 15, offset: 78271},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2512, col: 5, offset: 80734},
+															pos: position{line: 2512, col: 5, offset: 80735},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2512, col: 5, offset: 80734},
+																pos: position{line: 2512, col: 5, offset: 80735},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2512, col: 5, offset: 80734},
+																		pos: position{line: 2512, col: 5, offset: 80735},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2515, col: 5, offset: 80810},
+																		pos:   position{line: 2515, col: 5, offset: 80811},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2516, col: 9, offset: 80828},
+																			pos: position{line: 2516, col: 9, offset: 80829},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2516, col: 10, offset: 80829},
+																				pos:        position{line: 2516, col: 10, offset: 80830},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -45694,32 +45694,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1219, col: 5, offset: 38101},
+															pos: position{line: 1219, col: 5, offset: 38102},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 1219, col: 5, offset: 38101},
+																pos: position{line: 1219, col: 5, offset: 38102},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1219, col: 5, offset: 38101},
+																		pos: position{line: 1219, col: 5, offset: 38102},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1222, col: 5, offset: 38177},
+																		pos:        position{line: 1222, col: 5, offset: 38178},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1223, col: 5, offset: 38185},
+																		pos: position{line: 1223, col: 5, offset: 38186},
 																		run: (*parser).callonNormalGroup142,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1227, col: 5, offset: 38272},
+																		pos: position{line: 1227, col: 5, offset: 38273},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92410},
+																			pos: position{line: 2922, col: 10, offset: 92411},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92410},
+																				pos:        position{line: 2922, col: 10, offset: 92411},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45728,30 +45728,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1227, col: 12, offset: 38279},
+																		pos: position{line: 1227, col: 12, offset: 38280},
 																		expr: &choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92808},
+																			pos: position{line: 2944, col: 8, offset: 92809},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92581},
+																					pos: position{line: 2931, col: 12, offset: 92582},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92582},
+																						pos: position{line: 2931, col: 13, offset: 92583},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92582},
+																								pos:        position{line: 2931, col: 13, offset: 92583},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92589},
+																								pos:        position{line: 2931, col: 20, offset: 92590},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92598},
+																								pos:        position{line: 2931, col: 29, offset: 92599},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45760,9 +45760,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92758},
+																					pos: position{line: 2941, col: 8, offset: 92759},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92759,
+																						line: 2941, col: 9, offset: 92760,
 																					},
 																				},
 																			},
@@ -45772,31 +45772,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2425, col: 15, offset: 78452},
+															pos:  position{line: 2425, col: 15, offset: 78453},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1211, col: 23, offset: 37655},
+															pos: position{line: 1211, col: 23, offset: 37656},
 															run: (*parser).callonNormalGroup156,
 															expr: &seqExpr{
-																pos: position{line: 1211, col: 23, offset: 37655},
+																pos: position{line: 1211, col: 23, offset: 37656},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1209, col: 32, offset: 37623},
+																		pos:        position{line: 1209, col: 32, offset: 37624},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1211, col: 51, offset: 37683},
+																		pos:   position{line: 1211, col: 51, offset: 37684},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1211, col: 56, offset: 37688},
+																			pos: position{line: 1211, col: 56, offset: 37689},
 																			run: (*parser).callonNormalGroup160,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1211, col: 56, offset: 37688},
+																				pos: position{line: 1211, col: 56, offset: 37689},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1211, col: 56, offset: 37688},
+																					pos:        position{line: 1211, col: 56, offset: 37689},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -45806,7 +45806,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1209, col: 32, offset: 37623},
+																		pos:        position{line: 1209, col: 32, offset: 37624},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -45815,10 +45815,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90718},
+															pos: position{line: 2861, col: 12, offset: 90719},
 															run: (*parser).callonNormalGroup164,
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 12, offset: 90718},
+																pos:        position{line: 2861, col: 12, offset: 90719},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45834,9 +45834,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92758},
+							pos: position{line: 2941, col: 8, offset: 92759},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92759,
+								line: 2941, col: 9, offset: 92760,
 							},
 						},
 					},
@@ -45845,28 +45845,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2436, col: 1, offset: 78890},
+			pos:  position{line: 2436, col: 1, offset: 78891},
 			expr: &actionExpr{
-				pos: position{line: 2437, col: 5, offset: 78923},
+				pos: position{line: 2437, col: 5, offset: 78924},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2437, col: 5, offset: 78923},
+					pos: position{line: 2437, col: 5, offset: 78924},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2437, col: 5, offset: 78923},
+							pos:   position{line: 2437, col: 5, offset: 78924},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2437, col: 14, offset: 78932},
+								pos: position{line: 2437, col: 14, offset: 78933},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2437, col: 15, offset: 78933},
+									pos:  position{line: 2437, col: 15, offset: 78934},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92758},
+							pos: position{line: 2941, col: 8, offset: 92759},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92759,
+								line: 2941, col: 9, offset: 92760,
 							},
 						},
 					},
@@ -45875,41 +45875,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2441, col: 1, offset: 79030},
+			pos:  position{line: 2441, col: 1, offset: 79031},
 			expr: &actionExpr{
-				pos: position{line: 2442, col: 5, offset: 79070},
+				pos: position{line: 2442, col: 5, offset: 79071},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2442, col: 5, offset: 79070},
+					pos: position{line: 2442, col: 5, offset: 79071},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92744},
+							pos: position{line: 2939, col: 11, offset: 92745},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92746,
+								line: 2939, col: 13, offset: 92747,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2443, col: 5, offset: 79081},
+							pos:   position{line: 2443, col: 5, offset: 79082},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2444, col: 9, offset: 79099},
+								pos: position{line: 2444, col: 9, offset: 79100},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2821, col: 5, offset: 89652},
+										pos: position{line: 2821, col: 5, offset: 89653},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2821, col: 5, offset: 89652},
+											pos: position{line: 2821, col: 5, offset: 89653},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2821, col: 5, offset: 89652},
+													pos:   position{line: 2821, col: 5, offset: 89653},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2821, col: 11, offset: 89658},
+														pos: position{line: 2821, col: 11, offset: 89659},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2821, col: 11, offset: 89658},
+															pos: position{line: 2821, col: 11, offset: 89659},
 															expr: &charClassMatcher{
-																pos:        position{line: 2821, col: 11, offset: 89658},
+																pos:        position{line: 2821, col: 11, offset: 89659},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45919,36 +45919,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2824, col: 5, offset: 89716},
+													pos: position{line: 2824, col: 5, offset: 89717},
 													expr: &seqExpr{
-														pos: position{line: 2825, col: 9, offset: 89727},
+														pos: position{line: 2825, col: 9, offset: 89728},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2825, col: 9, offset: 89727},
+																pos:        position{line: 2825, col: 9, offset: 89728},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2826, col: 9, offset: 89776},
+																pos: position{line: 2826, col: 9, offset: 89777},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2830, col: 5, offset: 89856},
+													pos: position{line: 2830, col: 5, offset: 89857},
 													expr: &seqExpr{
-														pos: position{line: 2831, col: 9, offset: 89867},
+														pos: position{line: 2831, col: 9, offset: 89868},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2831, col: 9, offset: 89867},
+																pos:        position{line: 2831, col: 9, offset: 89868},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2831, col: 13, offset: 89871},
+																pos:        position{line: 2831, col: 13, offset: 89872},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45961,10 +45961,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2922, col: 10, offset: 92410},
+										pos: position{line: 2922, col: 10, offset: 92411},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2922, col: 10, offset: 92410},
+											pos:        position{line: 2922, col: 10, offset: 92411},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45972,31 +45972,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2446, col: 11, offset: 79137},
+										pos:  position{line: 2446, col: 11, offset: 79138},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2839, col: 5, offset: 90064},
+										pos: position{line: 2839, col: 5, offset: 90065},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2840, col: 9, offset: 90074},
+											pos: position{line: 2840, col: 9, offset: 90075},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2840, col: 10, offset: 90075},
+													pos:        position{line: 2840, col: 10, offset: 90076},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2842, col: 13, offset: 90172},
+													pos: position{line: 2842, col: 13, offset: 90173},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2842, col: 13, offset: 90172},
+															pos: position{line: 2842, col: 13, offset: 90173},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2845, col: 13, offset: 90272},
+															pos:        position{line: 2845, col: 13, offset: 90273},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46004,20 +46004,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2845, col: 19, offset: 90278},
+													pos:        position{line: 2845, col: 19, offset: 90279},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2848, col: 13, offset: 90316},
+													pos: position{line: 2848, col: 13, offset: 90317},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2848, col: 13, offset: 90316},
+															pos: position{line: 2848, col: 13, offset: 90317},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2851, col: 14, offset: 90409},
+															pos:        position{line: 2851, col: 14, offset: 90410},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46026,18 +46026,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2853, col: 12, offset: 90453},
+													pos: position{line: 2853, col: 12, offset: 90454},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2853, col: 12, offset: 90453},
+															pos:        position{line: 2853, col: 12, offset: 90454},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2853, col: 16, offset: 90457},
+															pos: position{line: 2853, col: 16, offset: 90458},
 															expr: &litMatcher{
-																pos:        position{line: 2853, col: 17, offset: 90458},
+																pos:        position{line: 2853, col: 17, offset: 90459},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46049,31 +46049,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2448, col: 11, offset: 79210},
+										pos:  position{line: 2448, col: 11, offset: 79211},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2449, col: 11, offset: 79226},
+										pos:  position{line: 2449, col: 11, offset: 79227},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 5, offset: 80734},
+										pos: position{line: 2512, col: 5, offset: 80735},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 5, offset: 80734},
+											pos: position{line: 2512, col: 5, offset: 80735},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 80734},
+													pos: position{line: 2512, col: 5, offset: 80735},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 5, offset: 80810},
+													pos:   position{line: 2515, col: 5, offset: 80811},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2516, col: 9, offset: 80828},
+														pos: position{line: 2516, col: 9, offset: 80829},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2516, col: 10, offset: 80829},
+															pos:        position{line: 2516, col: 10, offset: 80830},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46085,27 +46085,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1211, col: 23, offset: 37655},
+										pos: position{line: 1211, col: 23, offset: 37656},
 										run: (*parser).callonAttributeStructuredValueElement46,
 										expr: &seqExpr{
-											pos: position{line: 1211, col: 23, offset: 37655},
+											pos: position{line: 1211, col: 23, offset: 37656},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1209, col: 32, offset: 37623},
+													pos:        position{line: 1209, col: 32, offset: 37624},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1211, col: 51, offset: 37683},
+													pos:   position{line: 1211, col: 51, offset: 37684},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1211, col: 56, offset: 37688},
+														pos: position{line: 1211, col: 56, offset: 37689},
 														run: (*parser).callonAttributeStructuredValueElement50,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1211, col: 56, offset: 37688},
+															pos: position{line: 1211, col: 56, offset: 37689},
 															expr: &charClassMatcher{
-																pos:        position{line: 1211, col: 56, offset: 37688},
+																pos:        position{line: 1211, col: 56, offset: 37689},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -46115,7 +46115,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1209, col: 32, offset: 37623},
+													pos:        position{line: 1209, col: 32, offset: 37624},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -46124,25 +46124,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2931, col: 12, offset: 92581},
+										pos: position{line: 2931, col: 12, offset: 92582},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2931, col: 13, offset: 92582},
+											pos: position{line: 2931, col: 13, offset: 92583},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2931, col: 13, offset: 92582},
+													pos:        position{line: 2931, col: 13, offset: 92583},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 20, offset: 92589},
+													pos:        position{line: 2931, col: 20, offset: 92590},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 29, offset: 92598},
+													pos:        position{line: 2931, col: 29, offset: 92599},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46151,10 +46151,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90718},
+										pos: position{line: 2861, col: 12, offset: 90719},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2861, col: 12, offset: 90718},
+											pos:        position{line: 2861, col: 12, offset: 90719},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46170,73 +46170,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2460, col: 1, offset: 79496},
+			pos:  position{line: 2460, col: 1, offset: 79497},
 			expr: &actionExpr{
-				pos: position{line: 2462, col: 5, offset: 79578},
+				pos: position{line: 2462, col: 5, offset: 79579},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2462, col: 5, offset: 79578},
+					pos: position{line: 2462, col: 5, offset: 79579},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2462, col: 5, offset: 79578},
+							pos: position{line: 2462, col: 5, offset: 79579},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2465, col: 5, offset: 79643},
+							pos:   position{line: 2465, col: 5, offset: 79644},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2466, col: 9, offset: 79661},
+								pos: position{line: 2466, col: 9, offset: 79662},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2466, col: 9, offset: 79661},
+										pos:  position{line: 2466, col: 9, offset: 79662},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2467, col: 11, offset: 79682},
+										pos:  position{line: 2467, col: 11, offset: 79683},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2468, col: 11, offset: 79705},
+										pos:  position{line: 2468, col: 11, offset: 79706},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2469, col: 11, offset: 79721},
+										pos:  position{line: 2469, col: 11, offset: 79722},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2470, col: 11, offset: 79750},
+										pos:  position{line: 2470, col: 11, offset: 79751},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2471, col: 11, offset: 79776},
+										pos:  position{line: 2471, col: 11, offset: 79777},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2472, col: 11, offset: 79802},
+										pos:  position{line: 2472, col: 11, offset: 79803},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1266, col: 5, offset: 39415},
+										pos: position{line: 1266, col: 5, offset: 39416},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1266, col: 5, offset: 39415},
+											pos: position{line: 1266, col: 5, offset: 39416},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1266, col: 5, offset: 39415},
+													pos:        position{line: 1266, col: 5, offset: 39416},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1266, col: 14, offset: 39424},
+													pos:   position{line: 1266, col: 14, offset: 39425},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 7, offset: 92062},
+														pos: position{line: 2907, col: 7, offset: 92063},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2907, col: 7, offset: 92062},
+															pos: position{line: 2907, col: 7, offset: 92063},
 															expr: &charClassMatcher{
-																pos:        position{line: 2907, col: 7, offset: 92062},
+																pos:        position{line: 2907, col: 7, offset: 92063},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46246,7 +46246,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1266, col: 22, offset: 39432},
+													pos:        position{line: 1266, col: 22, offset: 39433},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46255,27 +46255,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1271, col: 5, offset: 39551},
+										pos: position{line: 1271, col: 5, offset: 39552},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1271, col: 5, offset: 39551},
+											pos: position{line: 1271, col: 5, offset: 39552},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1271, col: 5, offset: 39551},
+													pos:        position{line: 1271, col: 5, offset: 39552},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1271, col: 10, offset: 39556},
+													pos:   position{line: 1271, col: 10, offset: 39557},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 7, offset: 92062},
+														pos: position{line: 2907, col: 7, offset: 92063},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2907, col: 7, offset: 92062},
+															pos: position{line: 2907, col: 7, offset: 92063},
 															expr: &charClassMatcher{
-																pos:        position{line: 2907, col: 7, offset: 92062},
+																pos:        position{line: 2907, col: 7, offset: 92063},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46285,7 +46285,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1271, col: 18, offset: 39564},
+													pos:        position{line: 1271, col: 18, offset: 39565},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46294,40 +46294,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1310, col: 23, offset: 41040},
+										pos: position{line: 1310, col: 23, offset: 41041},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1310, col: 23, offset: 41040},
+											pos: position{line: 1310, col: 23, offset: 41041},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1310, col: 23, offset: 41040},
+													pos:        position{line: 1310, col: 23, offset: 41041},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1310, col: 29, offset: 41046},
+													pos:   position{line: 1310, col: 29, offset: 41047},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1317, col: 30, offset: 41377},
+														pos: position{line: 1317, col: 30, offset: 41378},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1317, col: 30, offset: 41377},
+															pos: position{line: 1317, col: 30, offset: 41378},
 															expr: &choiceExpr{
-																pos: position{line: 1317, col: 31, offset: 41378},
+																pos: position{line: 1317, col: 31, offset: 41379},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2812, col: 13, offset: 89505},
+																		pos:        position{line: 2812, col: 13, offset: 89506},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92410},
+																		pos: position{line: 2922, col: 10, offset: 92411},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92410},
+																			pos:        position{line: 2922, col: 10, offset: 92411},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46340,23 +46340,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1311, col: 5, offset: 41085},
+													pos:   position{line: 1311, col: 5, offset: 41086},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1311, col: 11, offset: 41091},
+														pos: position{line: 1311, col: 11, offset: 41092},
 														expr: &actionExpr{
-															pos: position{line: 1311, col: 12, offset: 41092},
+															pos: position{line: 1311, col: 12, offset: 41093},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1311, col: 12, offset: 41092},
+																pos: position{line: 1311, col: 12, offset: 41093},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1311, col: 12, offset: 41092},
+																		pos: position{line: 1311, col: 12, offset: 41093},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92410},
+																			pos: position{line: 2922, col: 10, offset: 92411},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92410},
+																				pos:        position{line: 2922, col: 10, offset: 92411},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46365,18 +46365,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1311, col: 19, offset: 41099},
+																		pos:        position{line: 1311, col: 19, offset: 41100},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1311, col: 23, offset: 41103},
+																		pos: position{line: 1311, col: 23, offset: 41104},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92410},
+																			pos: position{line: 2922, col: 10, offset: 92411},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92410},
+																				pos:        position{line: 2922, col: 10, offset: 92411},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46385,28 +46385,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1311, col: 30, offset: 41110},
+																		pos:   position{line: 1311, col: 30, offset: 41111},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1317, col: 30, offset: 41377},
+																			pos: position{line: 1317, col: 30, offset: 41378},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1317, col: 30, offset: 41377},
+																				pos: position{line: 1317, col: 30, offset: 41378},
 																				expr: &choiceExpr{
-																					pos: position{line: 1317, col: 31, offset: 41378},
+																					pos: position{line: 1317, col: 31, offset: 41379},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2812, col: 13, offset: 89505},
+																							pos:        position{line: 2812, col: 13, offset: 89506},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92410},
+																							pos: position{line: 2922, col: 10, offset: 92411},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92410},
+																								pos:        position{line: 2922, col: 10, offset: 92411},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46424,23 +46424,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1312, col: 5, offset: 41177},
+													pos:   position{line: 1312, col: 5, offset: 41178},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1312, col: 11, offset: 41183},
+														pos: position{line: 1312, col: 11, offset: 41184},
 														expr: &actionExpr{
-															pos: position{line: 1312, col: 12, offset: 41184},
+															pos: position{line: 1312, col: 12, offset: 41185},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1312, col: 12, offset: 41184},
+																pos: position{line: 1312, col: 12, offset: 41185},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1312, col: 12, offset: 41184},
+																		pos: position{line: 1312, col: 12, offset: 41185},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92410},
+																			pos: position{line: 2922, col: 10, offset: 92411},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92410},
+																				pos:        position{line: 2922, col: 10, offset: 92411},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46449,18 +46449,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1312, col: 19, offset: 41191},
+																		pos:        position{line: 1312, col: 19, offset: 41192},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1312, col: 23, offset: 41195},
+																		pos: position{line: 1312, col: 23, offset: 41196},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92410},
+																			pos: position{line: 2922, col: 10, offset: 92411},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92410},
+																				pos:        position{line: 2922, col: 10, offset: 92411},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46469,28 +46469,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1312, col: 30, offset: 41202},
+																		pos:   position{line: 1312, col: 30, offset: 41203},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1317, col: 30, offset: 41377},
+																			pos: position{line: 1317, col: 30, offset: 41378},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1317, col: 30, offset: 41377},
+																				pos: position{line: 1317, col: 30, offset: 41378},
 																				expr: &choiceExpr{
-																					pos: position{line: 1317, col: 31, offset: 41378},
+																					pos: position{line: 1317, col: 31, offset: 41379},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2812, col: 13, offset: 89505},
+																							pos:        position{line: 2812, col: 13, offset: 89506},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92410},
+																							pos: position{line: 2922, col: 10, offset: 92411},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92410},
+																								pos:        position{line: 2922, col: 10, offset: 92411},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46508,7 +46508,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1313, col: 5, offset: 41269},
+													pos:        position{line: 1313, col: 5, offset: 41270},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -46517,15 +46517,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2475, col: 11, offset: 79881},
+										pos:  position{line: 2475, col: 11, offset: 79882},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2476, col: 11, offset: 79901},
+										pos:  position{line: 2476, col: 11, offset: 79902},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2477, col: 11, offset: 79924},
+										pos:  position{line: 2477, col: 11, offset: 79925},
 										name: "InlineMenu",
 									},
 								},
@@ -46537,80 +46537,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2481, col: 1, offset: 79981},
+			pos:  position{line: 2481, col: 1, offset: 79982},
 			expr: &actionExpr{
-				pos: position{line: 2483, col: 5, offset: 80069},
+				pos: position{line: 2483, col: 5, offset: 80070},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2483, col: 5, offset: 80069},
+					pos: position{line: 2483, col: 5, offset: 80070},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2483, col: 5, offset: 80069},
+							pos: position{line: 2483, col: 5, offset: 80070},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2486, col: 5, offset: 80146},
+							pos:   position{line: 2486, col: 5, offset: 80147},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2487, col: 9, offset: 80164},
+								pos: position{line: 2487, col: 9, offset: 80165},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1397, col: 26, offset: 44763},
+										pos: position{line: 1397, col: 26, offset: 44764},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1397, col: 26, offset: 44763},
+											pos: position{line: 1397, col: 26, offset: 44764},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1395, col: 32, offset: 44731},
+													pos:        position{line: 1395, col: 32, offset: 44732},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1397, col: 54, offset: 44791},
+													pos:   position{line: 1397, col: 54, offset: 44792},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1401, col: 33, offset: 45004},
+														pos: position{line: 1401, col: 33, offset: 45005},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1401, col: 34, offset: 45005},
+																pos: position{line: 1401, col: 34, offset: 45006},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1401, col: 34, offset: 45005},
+																	pos: position{line: 1401, col: 34, offset: 45006},
 																	expr: &seqExpr{
-																		pos: position{line: 1401, col: 35, offset: 45006},
+																		pos: position{line: 1401, col: 35, offset: 45007},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1401, col: 35, offset: 45006},
+																				pos: position{line: 1401, col: 35, offset: 45007},
 																				expr: &litMatcher{
-																					pos:        position{line: 1395, col: 32, offset: 44731},
+																					pos:        position{line: 1395, col: 32, offset: 44732},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1401, col: 64, offset: 45035,
+																				line: 1401, col: 64, offset: 45036,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1403, col: 11, offset: 45208},
+																pos: position{line: 1403, col: 11, offset: 45209},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1403, col: 11, offset: 45208},
+																	pos: position{line: 1403, col: 11, offset: 45209},
 																	expr: &seqExpr{
-																		pos: position{line: 1403, col: 12, offset: 45209},
+																		pos: position{line: 1403, col: 12, offset: 45210},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1403, col: 12, offset: 45209},
+																				pos: position{line: 1403, col: 12, offset: 45210},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92410},
+																					pos: position{line: 2922, col: 10, offset: 92411},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92410},
+																						pos:        position{line: 2922, col: 10, offset: 92411},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46619,27 +46619,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1403, col: 19, offset: 45216},
+																				pos: position{line: 1403, col: 19, offset: 45217},
 																				expr: &actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92581},
+																					pos: position{line: 2931, col: 12, offset: 92582},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92582},
+																						pos: position{line: 2931, col: 13, offset: 92583},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92582},
+																								pos:        position{line: 2931, col: 13, offset: 92583},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92589},
+																								pos:        position{line: 2931, col: 20, offset: 92590},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92598},
+																								pos:        position{line: 2931, col: 29, offset: 92599},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46649,16 +46649,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1403, col: 28, offset: 45225},
+																				pos: position{line: 1403, col: 28, offset: 45226},
 																				expr: &litMatcher{
-																					pos:        position{line: 1395, col: 32, offset: 44731},
+																					pos:        position{line: 1395, col: 32, offset: 44732},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1403, col: 57, offset: 45254,
+																				line: 1403, col: 57, offset: 45255,
 																			},
 																		},
 																	},
@@ -46668,15 +46668,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1395, col: 32, offset: 44731},
+													pos:        position{line: 1395, col: 32, offset: 44732},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1397, col: 121, offset: 44858},
+													pos: position{line: 1397, col: 121, offset: 44859},
 													expr: &charClassMatcher{
-														pos:        position{line: 2812, col: 13, offset: 89505},
+														pos:        position{line: 2812, col: 13, offset: 89506},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46687,45 +46687,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1385, col: 26, offset: 44046},
+										pos: position{line: 1385, col: 26, offset: 44047},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1385, col: 26, offset: 44046},
+											pos: position{line: 1385, col: 26, offset: 44047},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1383, col: 32, offset: 44016},
+													pos:        position{line: 1383, col: 32, offset: 44017},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1385, col: 54, offset: 44074},
+													pos:   position{line: 1385, col: 54, offset: 44075},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1389, col: 33, offset: 44287},
+														pos: position{line: 1389, col: 33, offset: 44288},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1389, col: 34, offset: 44288},
+																pos: position{line: 1389, col: 34, offset: 44289},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1389, col: 34, offset: 44288},
+																	pos: position{line: 1389, col: 34, offset: 44289},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1389, col: 35, offset: 44289},
+																			pos: position{line: 1389, col: 35, offset: 44290},
 																			expr: &litMatcher{
-																				pos:        position{line: 1383, col: 32, offset: 44016},
+																				pos:        position{line: 1383, col: 32, offset: 44017},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1389, col: 64, offset: 44318},
+																			pos: position{line: 1389, col: 64, offset: 44319},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92410},
+																				pos: position{line: 2922, col: 10, offset: 92411},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92410},
+																					pos:        position{line: 2922, col: 10, offset: 92411},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46734,27 +46734,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1389, col: 71, offset: 44325},
+																			pos: position{line: 1389, col: 71, offset: 44326},
 																			expr: &actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46764,25 +46764,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1389, col: 80, offset: 44334,
+																			line: 1389, col: 80, offset: 44335,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1389, col: 83, offset: 44337},
+																			pos: position{line: 1389, col: 83, offset: 44338},
 																			expr: &seqExpr{
-																				pos: position{line: 1389, col: 84, offset: 44338},
+																				pos: position{line: 1389, col: 84, offset: 44339},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1389, col: 84, offset: 44338},
+																						pos: position{line: 1389, col: 84, offset: 44339},
 																						expr: &seqExpr{
-																							pos: position{line: 1389, col: 86, offset: 44340},
+																							pos: position{line: 1389, col: 86, offset: 44341},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2926, col: 11, offset: 92471},
+																									pos: position{line: 2926, col: 11, offset: 92472},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2926, col: 11, offset: 92471},
+																										pos: position{line: 2926, col: 11, offset: 92472},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2926, col: 11, offset: 92471},
+																											pos:        position{line: 2926, col: 11, offset: 92472},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46791,7 +46791,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1383, col: 32, offset: 44016},
+																									pos:        position{line: 1383, col: 32, offset: 44017},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -46800,36 +46800,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1389, col: 122, offset: 44376},
+																						pos: position{line: 1389, col: 122, offset: 44377},
 																						expr: &litMatcher{
-																							pos:        position{line: 1383, col: 32, offset: 44016},
+																							pos:        position{line: 1383, col: 32, offset: 44017},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1389, col: 151, offset: 44405},
+																						pos: position{line: 1389, col: 151, offset: 44406},
 																						expr: &actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92581},
+																							pos: position{line: 2931, col: 12, offset: 92582},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92582},
+																								pos: position{line: 2931, col: 13, offset: 92583},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92582},
+																										pos:        position{line: 2931, col: 13, offset: 92583},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92589},
+																										pos:        position{line: 2931, col: 20, offset: 92590},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92598},
+																										pos:        position{line: 2931, col: 29, offset: 92599},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46839,7 +46839,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1389, col: 160, offset: 44414,
+																						line: 1389, col: 160, offset: 44415,
 																					},
 																				},
 																			},
@@ -46848,18 +46848,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1391, col: 11, offset: 44564},
+																pos: position{line: 1391, col: 11, offset: 44565},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1391, col: 12, offset: 44565},
+																	pos: position{line: 1391, col: 12, offset: 44566},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1391, col: 12, offset: 44565},
+																			pos: position{line: 1391, col: 12, offset: 44566},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92410},
+																				pos: position{line: 2922, col: 10, offset: 92411},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92410},
+																					pos:        position{line: 2922, col: 10, offset: 92411},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46868,27 +46868,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1391, col: 19, offset: 44572},
+																			pos: position{line: 1391, col: 19, offset: 44573},
 																			expr: &actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92581},
+																				pos: position{line: 2931, col: 12, offset: 92582},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92582},
+																					pos: position{line: 2931, col: 13, offset: 92583},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92582},
+																							pos:        position{line: 2931, col: 13, offset: 92583},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92589},
+																							pos:        position{line: 2931, col: 20, offset: 92590},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92598},
+																							pos:        position{line: 2931, col: 29, offset: 92599},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46898,16 +46898,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1391, col: 28, offset: 44581},
+																			pos: position{line: 1391, col: 28, offset: 44582},
 																			expr: &litMatcher{
-																				pos:        position{line: 1383, col: 32, offset: 44016},
+																				pos:        position{line: 1383, col: 32, offset: 44017},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1391, col: 57, offset: 44610,
+																			line: 1391, col: 57, offset: 44611,
 																		},
 																	},
 																},
@@ -46916,15 +46916,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1383, col: 32, offset: 44016},
+													pos:        position{line: 1383, col: 32, offset: 44017},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1385, col: 121, offset: 44141},
+													pos: position{line: 1385, col: 121, offset: 44142},
 													expr: &charClassMatcher{
-														pos:        position{line: 2812, col: 13, offset: 89505},
+														pos:        position{line: 2812, col: 13, offset: 89506},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46935,7 +46935,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2487, col: 57, offset: 80212},
+										pos:  position{line: 2487, col: 57, offset: 80213},
 										name: "PassthroughMacro",
 									},
 								},
@@ -46947,16 +46947,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2492, col: 1, offset: 80272},
+			pos:  position{line: 2492, col: 1, offset: 80273},
 			expr: &seqExpr{
-				pos: position{line: 2494, col: 5, offset: 80348},
+				pos: position{line: 2494, col: 5, offset: 80349},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2494, col: 5, offset: 80348},
+						pos: position{line: 2494, col: 5, offset: 80349},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2497, col: 5, offset: 80413},
+						pos:  position{line: 2497, col: 5, offset: 80414},
 						name: "QuotedText",
 					},
 				},
@@ -46964,22 +46964,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2499, col: 1, offset: 80426},
+			pos:  position{line: 2499, col: 1, offset: 80427},
 			expr: &actionExpr{
-				pos: position{line: 2501, col: 5, offset: 80508},
+				pos: position{line: 2501, col: 5, offset: 80509},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2501, col: 5, offset: 80508},
+					pos: position{line: 2501, col: 5, offset: 80509},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2501, col: 5, offset: 80508},
+							pos: position{line: 2501, col: 5, offset: 80509},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2504, col: 5, offset: 80579},
+							pos:   position{line: 2504, col: 5, offset: 80580},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2505, col: 9, offset: 80597},
+								pos:  position{line: 2505, col: 9, offset: 80598},
 								name: "Symbol",
 							},
 						},
@@ -46989,103 +46989,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2560, col: 1, offset: 82384},
+			pos:  position{line: 2560, col: 1, offset: 82385},
 			expr: &choiceExpr{
-				pos: position{line: 2562, col: 5, offset: 82414},
+				pos: position{line: 2562, col: 5, offset: 82415},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2562, col: 5, offset: 82414},
+						pos: position{line: 2562, col: 5, offset: 82415},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2562, col: 5, offset: 82414},
+							pos: position{line: 2562, col: 5, offset: 82415},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2562, col: 5, offset: 82414},
+									pos:        position{line: 2562, col: 5, offset: 82415},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2562, col: 10, offset: 82419},
+									pos: position{line: 2562, col: 10, offset: 82420},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2562, col: 10, offset: 82419},
+											pos:  position{line: 2562, col: 10, offset: 82420},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2591, col: 14, offset: 83523},
+											pos: position{line: 2591, col: 14, offset: 83524},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2591, col: 14, offset: 83523},
+												pos:        position{line: 2591, col: 14, offset: 83524},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2595, col: 14, offset: 83589},
+											pos: position{line: 2595, col: 14, offset: 83590},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2595, col: 14, offset: 83589},
+												pos:        position{line: 2595, col: 14, offset: 83590},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2599, col: 15, offset: 83658},
+											pos: position{line: 2599, col: 15, offset: 83659},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2599, col: 15, offset: 83658},
+												pos:        position{line: 2599, col: 15, offset: 83659},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2603, col: 13, offset: 83723},
+											pos: position{line: 2603, col: 13, offset: 83724},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2603, col: 13, offset: 83723},
+												pos:        position{line: 2603, col: 13, offset: 83724},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2631, col: 21, offset: 84293},
+											pos: position{line: 2631, col: 21, offset: 84294},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2631, col: 21, offset: 84293},
+												pos:        position{line: 2631, col: 21, offset: 84294},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2610, col: 5, offset: 83879},
+											pos: position{line: 2610, col: 5, offset: 83880},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2610, col: 5, offset: 83879},
+												pos: position{line: 2610, col: 5, offset: 83880},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2610, col: 5, offset: 83879},
+														pos:        position{line: 2610, col: 5, offset: 83880},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2611, col: 5, offset: 83889},
+														pos: position{line: 2611, col: 5, offset: 83890},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2615, col: 6, offset: 83976},
+														pos: position{line: 2615, col: 6, offset: 83977},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2922, col: 10, offset: 92410},
+																pos: position{line: 2922, col: 10, offset: 92411},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2922, col: 10, offset: 92410},
+																	pos:        position{line: 2922, col: 10, offset: 92411},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47093,30 +47093,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2615, col: 14, offset: 83984},
+																pos: position{line: 2615, col: 14, offset: 83985},
 																expr: &choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92808},
+																	pos: position{line: 2944, col: 8, offset: 92809},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92581},
+																			pos: position{line: 2931, col: 12, offset: 92582},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92582},
+																				pos: position{line: 2931, col: 13, offset: 92583},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92582},
+																						pos:        position{line: 2931, col: 13, offset: 92583},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92589},
+																						pos:        position{line: 2931, col: 20, offset: 92590},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92598},
+																						pos:        position{line: 2931, col: 29, offset: 92599},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47125,9 +47125,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92758},
+																			pos: position{line: 2941, col: 8, offset: 92759},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92759,
+																				line: 2941, col: 9, offset: 92760,
 																			},
 																		},
 																	},
@@ -47139,53 +47139,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2620, col: 5, offset: 84104},
+											pos: position{line: 2620, col: 5, offset: 84105},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2620, col: 5, offset: 84104},
+												pos: position{line: 2620, col: 5, offset: 84105},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2620, col: 5, offset: 84104},
+														pos:        position{line: 2620, col: 5, offset: 84105},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2621, col: 5, offset: 84114},
+														pos: position{line: 2621, col: 5, offset: 84115},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2625, col: 5, offset: 84203},
+														pos: position{line: 2625, col: 5, offset: 84204},
 														expr: &choiceExpr{
-															pos: position{line: 2625, col: 7, offset: 84205},
+															pos: position{line: 2625, col: 7, offset: 84206},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2812, col: 13, offset: 89505},
+																	pos:        position{line: 2812, col: 13, offset: 89506},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2931, col: 12, offset: 92581},
+																	pos: position{line: 2931, col: 12, offset: 92582},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2931, col: 13, offset: 92582},
+																		pos: position{line: 2931, col: 13, offset: 92583},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2931, col: 13, offset: 92582},
+																				pos:        position{line: 2931, col: 13, offset: 92583},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2931, col: 20, offset: 92589},
+																				pos:        position{line: 2931, col: 20, offset: 92590},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2931, col: 29, offset: 92598},
+																				pos:        position{line: 2931, col: 29, offset: 92599},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47194,9 +47194,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92758},
+																	pos: position{line: 2941, col: 8, offset: 92759},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92759,
+																		line: 2941, col: 9, offset: 92760,
 																	},
 																},
 															},
@@ -47206,30 +47206,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2635, col: 20, offset: 84363},
+											pos: position{line: 2635, col: 20, offset: 84364},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2635, col: 20, offset: 84363},
+												pos:        position{line: 2635, col: 20, offset: 84364},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2639, col: 21, offset: 84434},
+											pos: position{line: 2639, col: 21, offset: 84435},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2639, col: 21, offset: 84434},
+												pos:        position{line: 2639, col: 21, offset: 84435},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2643, col: 20, offset: 84504},
+											pos: position{line: 2643, col: 20, offset: 84505},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2643, col: 20, offset: 84504},
+												pos:        position{line: 2643, col: 20, offset: 84505},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -47241,73 +47241,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2566, col: 7, offset: 82674},
+						pos:  position{line: 2566, col: 7, offset: 82675},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2591, col: 14, offset: 83523},
+						pos: position{line: 2591, col: 14, offset: 83524},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2591, col: 14, offset: 83523},
+							pos:        position{line: 2591, col: 14, offset: 83524},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2595, col: 14, offset: 83589},
+						pos: position{line: 2595, col: 14, offset: 83590},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2595, col: 14, offset: 83589},
+							pos:        position{line: 2595, col: 14, offset: 83590},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2599, col: 15, offset: 83658},
+						pos: position{line: 2599, col: 15, offset: 83659},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2599, col: 15, offset: 83658},
+							pos:        position{line: 2599, col: 15, offset: 83659},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2603, col: 13, offset: 83723},
+						pos: position{line: 2603, col: 13, offset: 83724},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2603, col: 13, offset: 83723},
+							pos:        position{line: 2603, col: 13, offset: 83724},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2610, col: 5, offset: 83879},
+						pos: position{line: 2610, col: 5, offset: 83880},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2610, col: 5, offset: 83879},
+							pos: position{line: 2610, col: 5, offset: 83880},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2610, col: 5, offset: 83879},
+									pos:        position{line: 2610, col: 5, offset: 83880},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2611, col: 5, offset: 83889},
+									pos: position{line: 2611, col: 5, offset: 83890},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2615, col: 6, offset: 83976},
+									pos: position{line: 2615, col: 6, offset: 83977},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2922, col: 10, offset: 92410},
+											pos: position{line: 2922, col: 10, offset: 92411},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2922, col: 10, offset: 92410},
+												pos:        position{line: 2922, col: 10, offset: 92411},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47315,30 +47315,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2615, col: 14, offset: 83984},
+											pos: position{line: 2615, col: 14, offset: 83985},
 											expr: &choiceExpr{
-												pos: position{line: 2944, col: 8, offset: 92808},
+												pos: position{line: 2944, col: 8, offset: 92809},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2931, col: 12, offset: 92581},
+														pos: position{line: 2931, col: 12, offset: 92582},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2931, col: 13, offset: 92582},
+															pos: position{line: 2931, col: 13, offset: 92583},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2931, col: 13, offset: 92582},
+																	pos:        position{line: 2931, col: 13, offset: 92583},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 20, offset: 92589},
+																	pos:        position{line: 2931, col: 20, offset: 92590},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 29, offset: 92598},
+																	pos:        position{line: 2931, col: 29, offset: 92599},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47347,9 +47347,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2941, col: 8, offset: 92758},
+														pos: position{line: 2941, col: 8, offset: 92759},
 														expr: &anyMatcher{
-															line: 2941, col: 9, offset: 92759,
+															line: 2941, col: 9, offset: 92760,
 														},
 													},
 												},
@@ -47361,53 +47361,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2620, col: 5, offset: 84104},
+						pos: position{line: 2620, col: 5, offset: 84105},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2620, col: 5, offset: 84104},
+							pos: position{line: 2620, col: 5, offset: 84105},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2620, col: 5, offset: 84104},
+									pos:        position{line: 2620, col: 5, offset: 84105},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2621, col: 5, offset: 84114},
+									pos: position{line: 2621, col: 5, offset: 84115},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2625, col: 5, offset: 84203},
+									pos: position{line: 2625, col: 5, offset: 84204},
 									expr: &choiceExpr{
-										pos: position{line: 2625, col: 7, offset: 84205},
+										pos: position{line: 2625, col: 7, offset: 84206},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2812, col: 13, offset: 89505},
+												pos:        position{line: 2812, col: 13, offset: 89506},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2931, col: 12, offset: 92581},
+												pos: position{line: 2931, col: 12, offset: 92582},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2931, col: 13, offset: 92582},
+													pos: position{line: 2931, col: 13, offset: 92583},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2931, col: 13, offset: 92582},
+															pos:        position{line: 2931, col: 13, offset: 92583},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2931, col: 20, offset: 92589},
+															pos:        position{line: 2931, col: 20, offset: 92590},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2931, col: 29, offset: 92598},
+															pos:        position{line: 2931, col: 29, offset: 92599},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47416,9 +47416,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2941, col: 8, offset: 92758},
+												pos: position{line: 2941, col: 8, offset: 92759},
 												expr: &anyMatcher{
-													line: 2941, col: 9, offset: 92759,
+													line: 2941, col: 9, offset: 92760,
 												},
 											},
 										},
@@ -47428,40 +47428,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2631, col: 21, offset: 84293},
+						pos: position{line: 2631, col: 21, offset: 84294},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2631, col: 21, offset: 84293},
+							pos:        position{line: 2631, col: 21, offset: 84294},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2635, col: 20, offset: 84363},
+						pos: position{line: 2635, col: 20, offset: 84364},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2635, col: 20, offset: 84363},
+							pos:        position{line: 2635, col: 20, offset: 84364},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2639, col: 21, offset: 84434},
+						pos: position{line: 2639, col: 21, offset: 84435},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2639, col: 21, offset: 84434},
+							pos:        position{line: 2639, col: 21, offset: 84435},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2643, col: 20, offset: 84504},
+						pos: position{line: 2643, col: 20, offset: 84505},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2643, col: 20, offset: 84504},
+							pos:        position{line: 2643, col: 20, offset: 84505},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -47472,43 +47472,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2577, col: 1, offset: 82864},
+			pos:  position{line: 2577, col: 1, offset: 82865},
 			expr: &choiceExpr{
-				pos: position{line: 2578, col: 5, offset: 82886},
+				pos: position{line: 2578, col: 5, offset: 82887},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2578, col: 5, offset: 82886},
+						pos: position{line: 2578, col: 5, offset: 82887},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2578, col: 5, offset: 82886},
+							pos: position{line: 2578, col: 5, offset: 82887},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2578, col: 5, offset: 82886},
+									pos:        position{line: 2578, col: 5, offset: 82887},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2578, col: 11, offset: 82892},
+									pos: position{line: 2578, col: 11, offset: 82893},
 									expr: &seqExpr{
-										pos: position{line: 2119, col: 5, offset: 68482},
+										pos: position{line: 2119, col: 5, offset: 68483},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2119, col: 5, offset: 68482},
+												pos:        position{line: 2119, col: 5, offset: 68483},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2120, col: 5, offset: 68491},
+												pos: position{line: 2120, col: 5, offset: 68492},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2124, col: 5, offset: 68614},
+												pos: position{line: 2124, col: 5, offset: 68615},
 												expr: &notExpr{
-													pos: position{line: 2124, col: 7, offset: 68616},
+													pos: position{line: 2124, col: 7, offset: 68617},
 													expr: &litMatcher{
-														pos:        position{line: 2124, col: 8, offset: 68617},
+														pos:        position{line: 2124, col: 8, offset: 68618},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47522,21 +47522,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2581, col: 7, offset: 83045},
+						pos: position{line: 2581, col: 7, offset: 83046},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2581, col: 7, offset: 83045},
+							pos: position{line: 2581, col: 7, offset: 83046},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2581, col: 7, offset: 83045},
+									pos:        position{line: 2581, col: 7, offset: 83046},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2581, col: 13, offset: 83051},
+									pos: position{line: 2581, col: 13, offset: 83052},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2581, col: 14, offset: 83052},
+										pos:  position{line: 2581, col: 14, offset: 83053},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47544,38 +47544,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2584, col: 7, offset: 83202},
+						pos: position{line: 2584, col: 7, offset: 83203},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2584, col: 7, offset: 83202},
+							pos: position{line: 2584, col: 7, offset: 83203},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2584, col: 7, offset: 83202},
+									pos:        position{line: 2584, col: 7, offset: 83203},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2584, col: 12, offset: 83207},
+									pos: position{line: 2584, col: 12, offset: 83208},
 									expr: &seqExpr{
-										pos: position{line: 2119, col: 5, offset: 68482},
+										pos: position{line: 2119, col: 5, offset: 68483},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2119, col: 5, offset: 68482},
+												pos:        position{line: 2119, col: 5, offset: 68483},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2120, col: 5, offset: 68491},
+												pos: position{line: 2120, col: 5, offset: 68492},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2124, col: 5, offset: 68614},
+												pos: position{line: 2124, col: 5, offset: 68615},
 												expr: &notExpr{
-													pos: position{line: 2124, col: 7, offset: 68616},
+													pos: position{line: 2124, col: 7, offset: 68617},
 													expr: &litMatcher{
-														pos:        position{line: 2124, col: 8, offset: 68617},
+														pos:        position{line: 2124, col: 8, offset: 68618},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47589,21 +47589,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2587, col: 7, offset: 83360},
+						pos: position{line: 2587, col: 7, offset: 83361},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2587, col: 7, offset: 83360},
+							pos: position{line: 2587, col: 7, offset: 83361},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2587, col: 7, offset: 83360},
+									pos:        position{line: 2587, col: 7, offset: 83361},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2587, col: 12, offset: 83365},
+									pos: position{line: 2587, col: 12, offset: 83366},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2587, col: 13, offset: 83366},
+										pos:  position{line: 2587, col: 13, offset: 83367},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47615,63 +47615,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2727, col: 1, offset: 86585},
+			pos:  position{line: 2727, col: 1, offset: 86586},
 			expr: &actionExpr{
-				pos: position{line: 2727, col: 26, offset: 86610},
+				pos: position{line: 2727, col: 26, offset: 86611},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2727, col: 26, offset: 86610},
+					pos: position{line: 2727, col: 26, offset: 86611},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2727, col: 26, offset: 86610},
+							pos:   position{line: 2727, col: 26, offset: 86611},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2727, col: 31, offset: 86615},
+								pos: position{line: 2727, col: 31, offset: 86616},
 								expr: &actionExpr{
-									pos: position{line: 2732, col: 5, offset: 86678},
+									pos: position{line: 2732, col: 5, offset: 86679},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2732, col: 5, offset: 86678},
+										pos: position{line: 2732, col: 5, offset: 86679},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2939, col: 11, offset: 92744},
+												pos: position{line: 2939, col: 11, offset: 92745},
 												expr: &anyMatcher{
-													line: 2939, col: 13, offset: 92746,
+													line: 2939, col: 13, offset: 92747,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2735, col: 5, offset: 86804},
+												pos:   position{line: 2735, col: 5, offset: 86805},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2735, col: 16, offset: 86815},
+													pos: position{line: 2735, col: 16, offset: 86816},
 													expr: &actionExpr{
-														pos: position{line: 2735, col: 17, offset: 86816},
+														pos: position{line: 2735, col: 17, offset: 86817},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2735, col: 17, offset: 86816},
+															pos: position{line: 2735, col: 17, offset: 86817},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2735, col: 17, offset: 86816},
+																	pos:   position{line: 2735, col: 17, offset: 86817},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2914, col: 12, offset: 92237},
+																		pos: position{line: 2914, col: 12, offset: 92238},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2914, col: 13, offset: 92238},
+																			pos: position{line: 2914, col: 13, offset: 92239},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2914, col: 13, offset: 92238},
+																					pos: position{line: 2914, col: 13, offset: 92239},
 																					expr: &litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92238},
+																						pos:        position{line: 2914, col: 13, offset: 92239},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2914, col: 18, offset: 92243},
+																					pos: position{line: 2914, col: 18, offset: 92244},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2914, col: 18, offset: 92243},
+																						pos:        position{line: 2914, col: 18, offset: 92244},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47683,7 +47683,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2735, col: 27, offset: 86826},
+																	pos:        position{line: 2735, col: 27, offset: 86827},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47694,38 +47694,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2736, col: 5, offset: 86854},
+												pos:   position{line: 2736, col: 5, offset: 86855},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2736, col: 12, offset: 86861},
+													pos: position{line: 2736, col: 12, offset: 86862},
 													expr: &choiceExpr{
-														pos: position{line: 2737, col: 9, offset: 86871},
+														pos: position{line: 2737, col: 9, offset: 86872},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2737, col: 9, offset: 86871},
+																pos: position{line: 2737, col: 9, offset: 86872},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2737, col: 9, offset: 86871},
+																	pos:        position{line: 2737, col: 9, offset: 86872},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2738, col: 11, offset: 86918},
+																pos: position{line: 2738, col: 11, offset: 86919},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2738, col: 11, offset: 86918},
+																	pos:        position{line: 2738, col: 11, offset: 86919},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2739, col: 11, offset: 86966},
+																pos: position{line: 2739, col: 11, offset: 86967},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2739, col: 11, offset: 86966},
+																	pos:        position{line: 2739, col: 11, offset: 86967},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47736,38 +47736,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2741, col: 5, offset: 87016},
+												pos:   position{line: 2741, col: 5, offset: 87017},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2741, col: 12, offset: 87023},
+													pos: position{line: 2741, col: 12, offset: 87024},
 													expr: &choiceExpr{
-														pos: position{line: 2742, col: 9, offset: 87033},
+														pos: position{line: 2742, col: 9, offset: 87034},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2742, col: 9, offset: 87033},
+																pos: position{line: 2742, col: 9, offset: 87034},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2742, col: 9, offset: 87033},
+																	pos:        position{line: 2742, col: 9, offset: 87034},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2743, col: 11, offset: 87080},
+																pos: position{line: 2743, col: 11, offset: 87081},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2743, col: 11, offset: 87080},
+																	pos:        position{line: 2743, col: 11, offset: 87081},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2744, col: 11, offset: 87130},
+																pos: position{line: 2744, col: 11, offset: 87131},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2744, col: 11, offset: 87130},
+																	pos:        position{line: 2744, col: 11, offset: 87131},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47778,32 +47778,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2746, col: 5, offset: 87181},
+												pos:   position{line: 2746, col: 5, offset: 87182},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2746, col: 12, offset: 87188},
+													pos: position{line: 2746, col: 12, offset: 87189},
 													expr: &choiceExpr{
-														pos: position{line: 2746, col: 13, offset: 87189},
+														pos: position{line: 2746, col: 13, offset: 87190},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2914, col: 12, offset: 92237},
+																pos: position{line: 2914, col: 12, offset: 92238},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2914, col: 13, offset: 92238},
+																	pos: position{line: 2914, col: 13, offset: 92239},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2914, col: 13, offset: 92238},
+																			pos: position{line: 2914, col: 13, offset: 92239},
 																			expr: &litMatcher{
-																				pos:        position{line: 2914, col: 13, offset: 92238},
+																				pos:        position{line: 2914, col: 13, offset: 92239},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2914, col: 18, offset: 92243},
+																			pos: position{line: 2914, col: 18, offset: 92244},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2914, col: 18, offset: 92243},
+																				pos:        position{line: 2914, col: 18, offset: 92244},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47814,10 +47814,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2746, col: 24, offset: 87200},
+																pos: position{line: 2746, col: 24, offset: 87201},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2746, col: 24, offset: 87200},
+																	pos:        position{line: 2746, col: 24, offset: 87201},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47828,15 +47828,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2747, col: 5, offset: 87242},
+												pos:   position{line: 2747, col: 5, offset: 87243},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2747, col: 11, offset: 87248},
+													pos: position{line: 2747, col: 11, offset: 87249},
 													expr: &actionExpr{
-														pos: position{line: 2747, col: 12, offset: 87249},
+														pos: position{line: 2747, col: 12, offset: 87250},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2747, col: 12, offset: 87249},
+															pos:        position{line: 2747, col: 12, offset: 87250},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47846,12 +47846,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2749, col: 5, offset: 87379},
+												pos:   position{line: 2749, col: 5, offset: 87380},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2749, col: 11, offset: 87385},
+													pos: position{line: 2749, col: 11, offset: 87386},
 													expr: &litMatcher{
-														pos:        position{line: 2749, col: 12, offset: 87386},
+														pos:        position{line: 2749, col: 12, offset: 87387},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47859,7 +47859,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2750, col: 5, offset: 87396},
+												pos: position{line: 2750, col: 5, offset: 87397},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47868,9 +47868,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92758},
+							pos: position{line: 2941, col: 8, offset: 92759},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92759,
+								line: 2941, col: 9, offset: 92760,
 							},
 						},
 					},
@@ -47879,23 +47879,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2777, col: 1, offset: 88405},
+			pos:  position{line: 2777, col: 1, offset: 88406},
 			expr: &actionExpr{
-				pos: position{line: 2778, col: 5, offset: 88428},
+				pos: position{line: 2778, col: 5, offset: 88429},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2778, col: 5, offset: 88428},
+					pos: position{line: 2778, col: 5, offset: 88429},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2778, col: 5, offset: 88428},
+							pos:   position{line: 2778, col: 5, offset: 88429},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2801, col: 18, offset: 89169},
+								pos: position{line: 2801, col: 18, offset: 89170},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2801, col: 19, offset: 89170},
+									pos: position{line: 2801, col: 19, offset: 89171},
 									expr: &charClassMatcher{
-										pos:        position{line: 2801, col: 19, offset: 89170},
+										pos:        position{line: 2801, col: 19, offset: 89171},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47906,25 +47906,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2779, col: 5, offset: 88454},
+							pos: position{line: 2779, col: 5, offset: 88455},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2783, col: 5, offset: 88582},
+							pos:        position{line: 2783, col: 5, offset: 88583},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2784, col: 5, offset: 88592},
+							pos:   position{line: 2784, col: 5, offset: 88593},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2805, col: 19, offset: 89245},
+								pos: position{line: 2805, col: 19, offset: 89246},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2805, col: 19, offset: 89245},
+									pos: position{line: 2805, col: 19, offset: 89246},
 									expr: &charClassMatcher{
-										pos:        position{line: 2805, col: 19, offset: 89245},
+										pos:        position{line: 2805, col: 19, offset: 89246},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47934,36 +47934,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2785, col: 5, offset: 88620},
+							pos:   position{line: 2785, col: 5, offset: 88621},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2785, col: 17, offset: 88632},
+								pos:  position{line: 2785, col: 17, offset: 88633},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92808},
+							pos: position{line: 2944, col: 8, offset: 92809},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92581},
+									pos: position{line: 2931, col: 12, offset: 92582},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92582},
+										pos: position{line: 2931, col: 13, offset: 92583},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92582},
+												pos:        position{line: 2931, col: 13, offset: 92583},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92589},
+												pos:        position{line: 2931, col: 20, offset: 92590},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92598},
+												pos:        position{line: 2931, col: 29, offset: 92599},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -47972,9 +47972,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92758},
+									pos: position{line: 2941, col: 8, offset: 92759},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92759,
+										line: 2941, col: 9, offset: 92760,
 									},
 								},
 							},
@@ -47985,23 +47985,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2789, col: 1, offset: 88780},
+			pos:  position{line: 2789, col: 1, offset: 88781},
 			expr: &actionExpr{
-				pos: position{line: 2790, col: 5, offset: 88804},
+				pos: position{line: 2790, col: 5, offset: 88805},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2790, col: 5, offset: 88804},
+					pos: position{line: 2790, col: 5, offset: 88805},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2790, col: 5, offset: 88804},
+							pos:   position{line: 2790, col: 5, offset: 88805},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2801, col: 18, offset: 89169},
+								pos: position{line: 2801, col: 18, offset: 89170},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2801, col: 19, offset: 89170},
+									pos: position{line: 2801, col: 19, offset: 89171},
 									expr: &charClassMatcher{
-										pos:        position{line: 2801, col: 19, offset: 89170},
+										pos:        position{line: 2801, col: 19, offset: 89171},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48012,25 +48012,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2791, col: 5, offset: 88830},
+							pos: position{line: 2791, col: 5, offset: 88831},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2795, col: 5, offset: 88958},
+							pos:        position{line: 2795, col: 5, offset: 88959},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2796, col: 5, offset: 88967},
+							pos:   position{line: 2796, col: 5, offset: 88968},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2805, col: 19, offset: 89245},
+								pos: position{line: 2805, col: 19, offset: 89246},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2805, col: 19, offset: 89245},
+									pos: position{line: 2805, col: 19, offset: 89246},
 									expr: &charClassMatcher{
-										pos:        position{line: 2805, col: 19, offset: 89245},
+										pos:        position{line: 2805, col: 19, offset: 89246},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48040,10 +48040,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2797, col: 5, offset: 88995},
+							pos:   position{line: 2797, col: 5, offset: 88996},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2797, col: 17, offset: 89007},
+								pos:  position{line: 2797, col: 17, offset: 89008},
 								name: "InlineAttributes",
 							},
 						},
@@ -48053,43 +48053,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2876, col: 1, offset: 91057},
+			pos:  position{line: 2876, col: 1, offset: 91058},
 			expr: &actionExpr{
-				pos: position{line: 2876, col: 17, offset: 91073},
+				pos: position{line: 2876, col: 17, offset: 91074},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2876, col: 17, offset: 91073},
+					pos:   position{line: 2876, col: 17, offset: 91074},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2893, col: 5, offset: 91527},
+						pos: position{line: 2893, col: 5, offset: 91528},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2893, col: 5, offset: 91527},
+							pos:   position{line: 2893, col: 5, offset: 91528},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2893, col: 14, offset: 91536},
+								pos: position{line: 2893, col: 14, offset: 91537},
 								expr: &choiceExpr{
-									pos: position{line: 2894, col: 9, offset: 91546},
+									pos: position{line: 2894, col: 9, offset: 91547},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2894, col: 9, offset: 91546},
+											pos: position{line: 2894, col: 9, offset: 91547},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2894, col: 9, offset: 91546},
+												pos: position{line: 2894, col: 9, offset: 91547},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2894, col: 9, offset: 91546},
+														pos: position{line: 2894, col: 9, offset: 91547},
 														expr: &litMatcher{
-															pos:        position{line: 2894, col: 10, offset: 91547},
+															pos:        position{line: 2894, col: 10, offset: 91548},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2895, col: 9, offset: 91575},
+														pos: position{line: 2895, col: 9, offset: 91576},
 														expr: &charClassMatcher{
-															pos:        position{line: 2895, col: 10, offset: 91576},
+															pos:        position{line: 2895, col: 10, offset: 91577},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -48100,27 +48100,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2898, col: 11, offset: 91788},
+											pos: position{line: 2898, col: 11, offset: 91789},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2898, col: 11, offset: 91788},
+													pos:        position{line: 2898, col: 11, offset: 91789},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2898, col: 19, offset: 91796},
+													pos: position{line: 2898, col: 19, offset: 91797},
 													expr: &seqExpr{
-														pos: position{line: 2898, col: 21, offset: 91798},
+														pos: position{line: 2898, col: 21, offset: 91799},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2898, col: 21, offset: 91798},
+																pos: position{line: 2898, col: 21, offset: 91799},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92410},
+																	pos: position{line: 2922, col: 10, offset: 92411},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92410},
+																		pos:        position{line: 2922, col: 10, offset: 92411},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48129,11 +48129,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2898, col: 28, offset: 91805},
+																pos: position{line: 2898, col: 28, offset: 91806},
 																expr: &notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92758},
+																	pos: position{line: 2941, col: 8, offset: 92759},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92759,
+																		line: 2941, col: 9, offset: 92760,
 																	},
 																},
 															},
@@ -48143,35 +48143,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 649, col: 5, offset: 20790},
+											pos: position{line: 649, col: 5, offset: 20791},
 											run: (*parser).callonFileLocation23,
 											expr: &seqExpr{
-												pos: position{line: 649, col: 5, offset: 20790},
+												pos: position{line: 649, col: 5, offset: 20791},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 649, col: 5, offset: 20790},
+														pos: position{line: 649, col: 5, offset: 20791},
 														run: (*parser).callonFileLocation25,
 													},
 													&labeledExpr{
-														pos:   position{line: 652, col: 5, offset: 20862},
+														pos:   position{line: 652, col: 5, offset: 20863},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 652, col: 14, offset: 20871},
+															pos: position{line: 652, col: 14, offset: 20872},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 658, col: 5, offset: 21000},
+																	pos: position{line: 658, col: 5, offset: 21001},
 																	run: (*parser).callonFileLocation28,
 																	expr: &seqExpr{
-																		pos: position{line: 658, col: 5, offset: 21000},
+																		pos: position{line: 658, col: 5, offset: 21001},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 658, col: 5, offset: 21000},
+																				pos:        position{line: 658, col: 5, offset: 21001},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 13, offset: 21008},
+																				pos:   position{line: 658, col: 13, offset: 21009},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -48191,8 +48191,8 @@ var g = &grammar{
 																								pos: position{line: 320, col: 28, offset: 9847},
 																								expr: &charClassMatcher{
 																									pos:        position{line: 320, col: 29, offset: 9848},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -48203,7 +48203,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 32, offset: 21027},
+																				pos:        position{line: 658, col: 32, offset: 21028},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48212,19 +48212,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 665, col: 5, offset: 21268},
+																	pos: position{line: 665, col: 5, offset: 21269},
 																	run: (*parser).callonFileLocation38,
 																	expr: &seqExpr{
-																		pos: position{line: 665, col: 5, offset: 21268},
+																		pos: position{line: 665, col: 5, offset: 21269},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 665, col: 5, offset: 21268},
+																				pos:        position{line: 665, col: 5, offset: 21269},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 665, col: 9, offset: 21272},
+																				pos:   position{line: 665, col: 9, offset: 21273},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -48244,8 +48244,8 @@ var g = &grammar{
 																								pos: position{line: 320, col: 28, offset: 9847},
 																								expr: &charClassMatcher{
 																									pos:        position{line: 320, col: 29, offset: 9848},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -48256,7 +48256,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 665, col: 28, offset: 21291},
+																				pos:        position{line: 665, col: 28, offset: 21292},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48265,19 +48265,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 671, col: 25, offset: 21472},
+																	pos: position{line: 671, col: 25, offset: 21473},
 																	run: (*parser).callonFileLocation48,
 																	expr: &seqExpr{
-																		pos: position{line: 671, col: 25, offset: 21472},
+																		pos: position{line: 671, col: 25, offset: 21473},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 671, col: 25, offset: 21472},
+																				pos:        position{line: 671, col: 25, offset: 21473},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 671, col: 37, offset: 21484},
+																				pos:   position{line: 671, col: 37, offset: 21485},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -48297,8 +48297,8 @@ var g = &grammar{
 																								pos: position{line: 320, col: 28, offset: 9847},
 																								expr: &charClassMatcher{
 																									pos:        position{line: 320, col: 29, offset: 9848},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -48309,33 +48309,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 671, col: 56, offset: 21503},
+																				pos:   position{line: 671, col: 56, offset: 21504},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 671, col: 62, offset: 21509},
+																					pos: position{line: 671, col: 62, offset: 21510},
 																					expr: &actionExpr{
-																						pos: position{line: 679, col: 17, offset: 21806},
+																						pos: position{line: 679, col: 17, offset: 21807},
 																						run: (*parser).callonFileLocation59,
 																						expr: &seqExpr{
-																							pos: position{line: 679, col: 17, offset: 21806},
+																							pos: position{line: 679, col: 17, offset: 21807},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 679, col: 17, offset: 21806},
+																									pos:        position{line: 679, col: 17, offset: 21807},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 679, col: 21, offset: 21810},
+																									pos:   position{line: 679, col: 21, offset: 21811},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 679, col: 28, offset: 21817},
+																										pos: position{line: 679, col: 28, offset: 21818},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 679, col: 28, offset: 21817},
+																												pos: position{line: 679, col: 28, offset: 21818},
 																												run: (*parser).callonFileLocation64,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 679, col: 28, offset: 21817},
+																													pos:        position{line: 679, col: 28, offset: 21818},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -48343,12 +48343,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 681, col: 9, offset: 21871},
+																												pos: position{line: 681, col: 9, offset: 21872},
 																												run: (*parser).callonFileLocation66,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 681, col: 9, offset: 21871},
+																													pos: position{line: 681, col: 9, offset: 21872},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 681, col: 9, offset: 21871},
+																														pos:        position{line: 681, col: 9, offset: 21872},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -48365,7 +48365,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 671, col: 78, offset: 21525},
+																				pos:        position{line: 671, col: 78, offset: 21526},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48374,19 +48374,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 675, col: 25, offset: 21643},
+																	pos: position{line: 675, col: 25, offset: 21644},
 																	run: (*parser).callonFileLocation70,
 																	expr: &seqExpr{
-																		pos: position{line: 675, col: 25, offset: 21643},
+																		pos: position{line: 675, col: 25, offset: 21644},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 675, col: 25, offset: 21643},
+																				pos:        position{line: 675, col: 25, offset: 21644},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 675, col: 38, offset: 21656},
+																				pos:   position{line: 675, col: 38, offset: 21657},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -48406,8 +48406,8 @@ var g = &grammar{
 																								pos: position{line: 320, col: 28, offset: 9847},
 																								expr: &charClassMatcher{
 																									pos:        position{line: 320, col: 29, offset: 9848},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -48418,33 +48418,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 675, col: 57, offset: 21675},
+																				pos:   position{line: 675, col: 57, offset: 21676},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 675, col: 63, offset: 21681},
+																					pos: position{line: 675, col: 63, offset: 21682},
 																					expr: &actionExpr{
-																						pos: position{line: 679, col: 17, offset: 21806},
+																						pos: position{line: 679, col: 17, offset: 21807},
 																						run: (*parser).callonFileLocation81,
 																						expr: &seqExpr{
-																							pos: position{line: 679, col: 17, offset: 21806},
+																							pos: position{line: 679, col: 17, offset: 21807},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 679, col: 17, offset: 21806},
+																									pos:        position{line: 679, col: 17, offset: 21807},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 679, col: 21, offset: 21810},
+																									pos:   position{line: 679, col: 21, offset: 21811},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 679, col: 28, offset: 21817},
+																										pos: position{line: 679, col: 28, offset: 21818},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 679, col: 28, offset: 21817},
+																												pos: position{line: 679, col: 28, offset: 21818},
 																												run: (*parser).callonFileLocation86,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 679, col: 28, offset: 21817},
+																													pos:        position{line: 679, col: 28, offset: 21818},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -48452,12 +48452,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 681, col: 9, offset: 21871},
+																												pos: position{line: 681, col: 9, offset: 21872},
 																												run: (*parser).callonFileLocation88,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 681, col: 9, offset: 21871},
+																													pos: position{line: 681, col: 9, offset: 21872},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 681, col: 9, offset: 21871},
+																														pos:        position{line: 681, col: 9, offset: 21872},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -48474,7 +48474,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 675, col: 79, offset: 21697},
+																				pos:        position{line: 675, col: 79, offset: 21698},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48489,27 +48489,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1211, col: 23, offset: 37655},
+											pos: position{line: 1211, col: 23, offset: 37656},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1211, col: 23, offset: 37655},
+												pos: position{line: 1211, col: 23, offset: 37656},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1209, col: 32, offset: 37623},
+														pos:        position{line: 1209, col: 32, offset: 37624},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1211, col: 51, offset: 37683},
+														pos:   position{line: 1211, col: 51, offset: 37684},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1211, col: 56, offset: 37688},
+															pos: position{line: 1211, col: 56, offset: 37689},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1211, col: 56, offset: 37688},
+																pos: position{line: 1211, col: 56, offset: 37689},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1211, col: 56, offset: 37688},
+																	pos:        position{line: 1211, col: 56, offset: 37689},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -48519,7 +48519,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1209, col: 32, offset: 37623},
+														pos:        position{line: 1209, col: 32, offset: 37624},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -48528,10 +48528,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2901, col: 11, offset: 91925},
+											pos: position{line: 2901, col: 11, offset: 91926},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2901, col: 11, offset: 91925},
+												pos:        position{line: 2901, col: 11, offset: 91926},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index dc5796b..cc6bde4 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -317,7 +317,7 @@ AttributeDeclaration <-
 // AttributeName must be at least one character long, 
 // must begin with a word character (A-Z, a-z, 0-9) or an underscore ("_") 
 // and must only contain word characters (A-Z, a-z, 0-9) and hyphens ("-").
-AttributeName <- [\pL\pN_] ([\pL\pN-])* {
+AttributeName <- [\pL\pN_] ([\pL\pN_-])* {
         return string(c.text), nil
     }
 
-- 
2.43.0


From b83e74bc99b37d4fa443e8a70b4724a11ac5a7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:50 +0000
Subject: [PATCH 45/75] fix: conversion panics on authors given by their email
 only

---
 pkg/types/types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 347c7b2..2479b82 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -503,7 +503,9 @@ type DocumentAuthor struct {
 
 // NewDocumentAuthor initializes a new DocumentAuthor
 func NewDocumentAuthor(fullName, email interface{}) (*DocumentAuthor, error) {
-	author := &DocumentAuthor{}
+	author := &DocumentAuthor{
+		DocumentAuthorFullName: &DocumentAuthorFullName{}, // may be empty if only the email is given
+	}
 	if fullName, ok := fullName.(*DocumentAuthorFullName); ok {
 		author.DocumentAuthorFullName = fullName
 	}
-- 
2.43.0


From 8041406c761f1b7169ccaa737521427fc764d473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:27 +0000
Subject: [PATCH 46/75] fix: roles of icons rendered between brackets

---
 pkg/renderer/sgml/icon.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/icon.go b/pkg/renderer/sgml/icon.go
index fa5eab5..663faee 100644
--- a/pkg/renderer/sgml/icon.go
+++ b/pkg/renderer/sgml/icon.go
@@ -18,6 +18,10 @@ func (r *sgmlRenderer) renderInlineIcon(ctx *context, icon *types.Icon) (string,
 	if err != nil {
 		return "", err
 	}
+	roles, err := r.renderElementRoles(ctx, icon.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render icon roles")
+	}
 	return r.execute(r.inlineIcon, struct {
 		Class  string
 		Role   string
@@ -31,7 +35,7 @@ func (r *sgmlRenderer) renderInlineIcon(ctx *context, icon *types.Icon) (string,
 		ID:     r.renderElementID(icon.Attributes),
 		Link:   icon.Attributes.GetAsStringWithDefault(types.AttrInlineLink, ""),
 		Window: icon.Attributes.GetAsStringWithDefault(types.AttrImageWindow, ""),
-		Role:   icon.Attributes.GetAsStringWithDefault(types.AttrRoles, ""),
+		Role:   roles,
 	})
 }
 
-- 
2.43.0


From 86daa49e5aba62a70acf2b9b126e937c8baa9cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:34 +0000
Subject: [PATCH 47/75] fix: stray quote in the images of icons without
 alternative text

---
 pkg/renderer/sgml/html5/icon.go  | 2 +-
 pkg/renderer/sgml/xhtml5/icon.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/renderer/sgml/html5/icon.go b/pkg/renderer/sgml/html5/icon.go
index d9a35a5..c35eeda 100644
--- a/pkg/renderer/sgml/html5/icon.go
+++ b/pkg/renderer/sgml/html5/icon.go
@@ -12,7 +12,7 @@ const (
 		`</span>`
 
 	iconImageTmpl = `<img src="{{ .Src }}"` +
-		`{{ if .Alt }} alt="{{ .Alt }}{{ end }}"` +
+		`{{ if .Alt }} alt="{{ .Alt }}"{{ end }}` +
 		`{{ if .Width }} width="{{ .Width }}"{{ end }}` +
 		`{{ if .Height }} height="{{ .Height }}"{{ end }}` +
 		`{{ if .Title }} title="{{ .Title }}"{{ end }}` +
diff --git a/pkg/renderer/sgml/xhtml5/icon.go b/pkg/renderer/sgml/xhtml5/icon.go
index d431554..a9202e6 100644
--- a/pkg/renderer/sgml/xhtml5/icon.go
+++ b/pkg/renderer/sgml/xhtml5/icon.go
@@ -9,7 +9,7 @@ const (
 	// Only the img tag needs to be made XHTML safe.
 
 	iconImageTmpl = `<img src="{{ .Src }}"` +
-		`{{ if .Alt }} alt="{{ .Alt }}{{ end }}"` +
+		`{{ if .Alt }} alt="{{ .Alt }}"{{ end }}` +
 		`{{ if .Width }} width="{{ .Width }}"{{ end }}` +
 		`{{ if .Height }} height="{{ .Height }}"{{ end }}` +
 		`{{ if .Title }} title="{{ .Title }}"{{ end }}` +
-- 
2.43.0


From 915af10dd439fd6856c1c545bf9b5ada42876d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:25 +0000
Subject: [PATCH 48/75] fix: empty positional attributes override the values
 given before

---
 pkg/types/attributes.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/types/attributes.go b/pkg/types/attributes.go
index cbcc97e..1decea7 100644
--- a/pkg/types/attributes.go
+++ b/pkg/types/attributes.go
@@ -223,7 +223,12 @@ func MergeAttributes(attributes ...interface{}) (Attributes, error) {
 		case *Attribute:
 			result.Set(attr.Key, attr.Value)
 		case Attributes: // when an there were multiple attributes, eg: `[quote,author,title]`
-			result.AddAll(attr)
+			for k, v := range attr {
+				if v == nil && strings.HasPrefix(k, AttrPositionalIndex) && result.Has(k) {
+					continue // an empty position does not override the value which was given before
+				}
+				result.Set(k, v)
+			}
 		default:
 			return nil, fmt.Errorf("unexpected type of attribute: '%[1]T' (%[1]v)", attr)
 		}
-- 
2.43.0


From b79c3a5a96285dcaaa4c01065fd28369ab9972d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:24 +0000
Subject: [PATCH 49/75] fix: roles of quote and verse paragraphs are not
 rendered

---
 pkg/renderer/sgml/delimited_block_quote.go | 6 ++++++
 pkg/renderer/sgml/delimited_block_verse.go | 6 ++++++
 pkg/renderer/sgml/html5/paragraph.go       | 4 ++--
 pkg/renderer/sgml/xhtml5/paragraph.go      | 4 ++--
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/renderer/sgml/delimited_block_quote.go b/pkg/renderer/sgml/delimited_block_quote.go
index 4764215..64a2ead 100644
--- a/pkg/renderer/sgml/delimited_block_quote.go
+++ b/pkg/renderer/sgml/delimited_block_quote.go
@@ -43,6 +43,10 @@ func (r *sgmlRenderer) renderQuoteParagraph(ctx *context, p *types.Paragraph) (s
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render quote paragraph lines")
 	}
+	roles, err := r.renderElementRoles(ctx, p.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render quote paragraph roles")
+	}
 	attribution := newAttribution(p)
 	title, err := r.renderElementTitle(ctx, p.Attributes)
 	if err != nil {
@@ -52,12 +56,14 @@ func (r *sgmlRenderer) renderQuoteParagraph(ctx *context, p *types.Paragraph) (s
 		Context     *context
 		ID          string
 		Title       string
+		Roles       string
 		Attribution Attribution
 		Content     string
 	}{
 		Context:     ctx,
 		ID:          r.renderElementID(p.Attributes),
 		Title:       title,
+		Roles:       roles,
 		Attribution: attribution,
 		Content:     string(content),
 	})
diff --git a/pkg/renderer/sgml/delimited_block_verse.go b/pkg/renderer/sgml/delimited_block_verse.go
index d7b1bef..0d4b3a8 100644
--- a/pkg/renderer/sgml/delimited_block_verse.go
+++ b/pkg/renderer/sgml/delimited_block_verse.go
@@ -50,6 +50,10 @@ func (r *sgmlRenderer) renderVerseParagraph(ctx *context, p *types.Paragraph) (s
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render verse paragraph lines")
 	}
+	roles, err := r.renderElementRoles(ctx, p.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render verse paragraph roles")
+	}
 	attribution := newAttribution(p)
 	title, err := r.renderElementTitle(ctx, p.Attributes)
 	if err != nil {
@@ -59,12 +63,14 @@ func (r *sgmlRenderer) renderVerseParagraph(ctx *context, p *types.Paragraph) (s
 		Context     *context
 		ID          string
 		Title       string
+		Roles       string
 		Attribution Attribution
 		Content     string
 	}{
 		Context:     ctx,
 		ID:          r.renderElementID(p.Attributes),
 		Title:       title,
+		Roles:       roles,
 		Attribution: attribution,
 		Content:     string(content),
 	})
diff --git a/pkg/renderer/sgml/html5/paragraph.go b/pkg/renderer/sgml/html5/paragraph.go
index 79b1d45..a563331 100644
--- a/pkg/renderer/sgml/html5/paragraph.go
+++ b/pkg/renderer/sgml/html5/paragraph.go
@@ -20,14 +20,14 @@ const (
 
 	embeddedParagraphTmpl = "<p{{ if .Class }} class=\"{{ .Class }}\"{{ end }}>{{ .CheckStyle }}{{ .Content }}</p>\n"
 
-	verseParagraphTmpl = "<div {{ if .ID }}id=\"{{ .ID }}\" {{ end }}class=\"verseblock\">\n" +
+	verseParagraphTmpl = "<div {{ if .ID }}id=\"{{ .ID }}\" {{ end }}class=\"verseblock{{ if .Roles }} {{ .Roles }}{{ end }}\">\n" +
 		"{{ if .Title }}<div class=\"title\">{{ .Title }}</div>\n{{ end }}" +
 		"<pre class=\"content\">{{ .Content }}</pre>\n" +
 		"{{ if .Attribution.First }}<div class=\"attribution\">\n&#8212; {{ .Attribution.First }}" +
 		"{{ if .Attribution.Second }}<br>\n<cite>{{ .Attribution.Second }}</cite>\n{{ else }}\n{{ end }}" +
 		"</div>\n{{ end }}</div>\n"
 
-	quoteParagraphTmpl = "<div {{ if .ID }}id=\"{{ .ID }}\" {{ end }}class=\"quoteblock\">\n" +
+	quoteParagraphTmpl = "<div {{ if .ID }}id=\"{{ .ID }}\" {{ end }}class=\"quoteblock{{ if .Roles }} {{ .Roles }}{{ end }}\">\n" +
 		"{{ if .Title }}<div class=\"title\">{{ .Title }}</div>\n{{ end }}" +
 		"<blockquote>\n" +
 		"{{ .Content }}\n" +
diff --git a/pkg/renderer/sgml/xhtml5/paragraph.go b/pkg/renderer/sgml/xhtml5/paragraph.go
index 90edb2b..b37643a 100644
--- a/pkg/renderer/sgml/xhtml5/paragraph.go
+++ b/pkg/renderer/sgml/xhtml5/paragraph.go
@@ -1,14 +1,14 @@
 package xhtml5
 
 const (
-	verseParagraphTmpl = "<div {{ if .ID }}id=\"{{ .ID }}\" {{ end }}class=\"verseblock\">\n" +
+	verseParagraphTmpl = "<div {{ if .ID }}id=\"{{ .ID }}\" {{ end }}class=\"verseblock{{ if .Roles }} {{ .Roles }}{{ end }}\">\n" +
 		"{{ if .Title }}<div class=\"title\">{{ .Title }}</div>\n{{ end }}" +
 		"<pre class=\"content\">{{ .Content }}</pre>\n" +
 		"{{ if .Attribution.First }}<div class=\"attribution\">\n&#8212; {{ .Attribution.First }}" +
 		"{{ if .Attribution.Second }}<br/>\n<cite>{{ .Attribution.Second }}</cite>\n{{ else }}\n{{ end }}" +
 		"</div>\n{{ end }}</div>\n"
 
-	quoteParagraphTmpl = "<div {{ if .ID }}id=\"{{ .ID }}\" {{ end }}class=\"quoteblock\">\n" +
+	quoteParagraphTmpl = "<div {{ if .ID }}id=\"{{ .ID }}\" {{ end }}class=\"quoteblock{{ if .Roles }} {{ .Roles }}{{ end }}\">\n" +
 		"{{ if .Title }}<div class=\"title\">{{ .Title }}</div>\n{{ end }}" +
 		"<blockquote>\n" +
 		"{{ .Content }}\n" +
-- 
2.43.0


From 55ba7a2960492df4449c9e6352a47f0ef9ccd8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:33 +0000
Subject: [PATCH 50/75] fix: values of attributes are rendered without being
 escaped

---
 pkg/renderer/sgml/attribution.go             |  6 ++---
 pkg/renderer/sgml/cross_reference.go         | 14 +++++-----
 pkg/renderer/sgml/delimited_block_example.go |  2 +-
 pkg/renderer/sgml/delimited_block_source.go  |  4 +--
 pkg/renderer/sgml/document_details.go        | 12 ++++-----
 pkg/renderer/sgml/element_role.go            | 12 ++++++---
 pkg/renderer/sgml/html_escape.go             | 12 +++++++++
 pkg/renderer/sgml/icon.go                    | 28 ++++++++++----------
 pkg/renderer/sgml/image.go                   | 22 +++++++--------
 pkg/renderer/sgml/inline_button.go           |  2 +-
 pkg/renderer/sgml/inline_menu.go             |  6 ++++-
 pkg/renderer/sgml/link.go                    |  4 +--
 pkg/renderer/sgml/list.go                    |  4 +--
 pkg/renderer/sgml/paragraph.go               |  2 +-
 pkg/renderer/sgml/predefined_attribute.go    |  2 +-
 pkg/renderer/sgml/quoted_text.go             |  2 +-
 pkg/renderer/sgml/sgml.go                    |  8 +++---
 pkg/renderer/sgml/table.go                   | 10 +++----
 pkg/renderer/sgml/table_of_contents.go       |  4 +--
 pkg/renderer/sgml/user_macro.go              |  4 +--
 20 files changed, 91 insertions(+), 69 deletions(-)

diff --git a/pkg/renderer/sgml/attribution.go b/pkg/renderer/sgml/attribution.go
index 2727b6f..c1c7a51 100644
--- a/pkg/renderer/sgml/attribution.go
+++ b/pkg/renderer/sgml/attribution.go
@@ -11,12 +11,12 @@ type Attribution struct { // TODO: unexport this type?
 func newAttribution(b types.WithAttributes) Attribution {
 	result := Attribution{}
 	if author, found := b.GetAttributes().GetAsString(types.AttrQuoteAuthor); found {
-		result.First = author
+		result.First = escapeString(author)
 		if title, found := b.GetAttributes().GetAsString(types.AttrQuoteTitle); found {
-			result.Second = title
+			result.Second = escapeString(title)
 		}
 	} else if title, found := b.GetAttributes().GetAsString(types.AttrQuoteTitle); found {
-		result.First = title
+		result.First = escapeString(title)
 	}
 	return result
 }
diff --git a/pkg/renderer/sgml/cross_reference.go b/pkg/renderer/sgml/cross_reference.go
index eb4a773..a94b676 100644
--- a/pkg/renderer/sgml/cross_reference.go
+++ b/pkg/renderer/sgml/cross_reference.go
@@ -21,11 +21,11 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 		return "", errors.Errorf("unable to process internal cross reference: invalid ID: '%v'", xref.ID)
 	}
 	if xrefLabel, ok := xref.Label.(string); ok {
-		label = xrefLabel
+		label = escapeString(xrefLabel)
 	} else if target, found := ctx.elementReferences.Get(xrefID); found {
 		switch t := target.(type) {
 		case string:
-			label = t
+			label = escapeString(t)
 		case []interface{}:
 			// render as usual except for links as plain text (since the cross reference is already displayed as a link)
 			buff := &strings.Builder{}
@@ -50,13 +50,13 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 			return "", errors.Errorf("unable to process internal cross reference to element of type %T", target)
 		}
 	} else {
-		label = "[" + xrefID + "]"
+		label = "[" + escapeString(xrefID) + "]"
 	}
 	return r.execute(r.internalCrossReference, struct {
 		Href  string
 		Label string
 	}{
-		Href:  xrefID,
+		Href:  escapeString(xrefID),
 		Label: label,
 	})
 }
@@ -67,19 +67,19 @@ func (r *sgmlRenderer) renderExternalCrossReference(ctx *context, xref *types.Ex
 	var err error
 	switch l := xref.Attributes[types.AttrXRefLabel].(type) {
 	case string:
-		label = l
+		label = escapeString(l)
 	case []interface{}:
 		if label, err = r.renderInlineElements(ctx, l); err != nil {
 			return "", err
 		}
 	default:
-		label = defaultXrefLabel(xref)
+		label = escapeString(defaultXrefLabel(xref))
 	}
 	return r.execute(r.externalCrossReference, struct {
 		Href  string
 		Label string
 	}{
-		Href:  getCrossReferenceLocation(xref),
+		Href:  escapeString(getCrossReferenceLocation(xref)),
 		Label: label,
 	})
 }
diff --git a/pkg/renderer/sgml/delimited_block_example.go b/pkg/renderer/sgml/delimited_block_example.go
index bb4306c..ecdb39b 100644
--- a/pkg/renderer/sgml/delimited_block_example.go
+++ b/pkg/renderer/sgml/delimited_block_example.go
@@ -35,7 +35,7 @@ func (r *sgmlRenderer) renderExampleBlock(ctx *context, b *types.DelimitedBlock)
 			number = ctx.GetAndIncrementExampleBlockCounter()
 			c = strings.ReplaceAll(c, "{counter:example-number}", strconv.Itoa(number))
 		}
-		caption.WriteString(c)
+		caption.WriteString(escapeString(c))
 	}
 	title, err := r.renderElementTitle(ctx, b.Attributes)
 	if err != nil {
diff --git a/pkg/renderer/sgml/delimited_block_source.go b/pkg/renderer/sgml/delimited_block_source.go
index e8f8dcf..2a3fcc0 100644
--- a/pkg/renderer/sgml/delimited_block_source.go
+++ b/pkg/renderer/sgml/delimited_block_source.go
@@ -48,9 +48,9 @@ func (r *sgmlRenderer) renderSourceBlock(ctx *context, b *types.DelimitedBlock)
 	}{
 		ID:                r.renderElementID(b.Attributes),
 		Title:             title,
-		SyntaxHighlighter: highlighter,
+		SyntaxHighlighter: escapeString(highlighter),
 		Roles:             roles,
-		Language:          language,
+		Language:          escapeString(language),
 		Nowrap:            nowrap,
 		Content:           strings.Trim(content, "\n"),
 	})
diff --git a/pkg/renderer/sgml/document_details.go b/pkg/renderer/sgml/document_details.go
index 7761e9e..75eaadb 100644
--- a/pkg/renderer/sgml/document_details.go
+++ b/pkg/renderer/sgml/document_details.go
@@ -36,10 +36,10 @@ func (r *sgmlRenderer) renderDocumentDetails(ctx *context) (string, error) {
 		RevRemark string
 	}{
 		Authors:   authors,
-		RevLabel:  revLabel,
-		RevNumber: revNumber,
-		RevDate:   revDate,
-		RevRemark: revRemark,
+		RevLabel:  escapeString(revLabel),
+		RevNumber: escapeString(revNumber),
+		RevDate:   escapeString(revDate),
+		RevRemark: escapeString(revRemark),
 	}); err != nil {
 		return "", errors.Wrap(err, "error while rendering the document details")
 	}
@@ -78,8 +78,8 @@ func (r *sgmlRenderer) renderDocumentAuthorsDetails(ctx *context) (string, error
 				Email string
 			}{
 				Index: index,
-				Name:  author,
-				Email: email,
+				Name:  escapeString(author),
+				Email: escapeString(email),
 			}); err != nil {
 				return "", errors.Wrap(err, "error while rendering the document authors")
 			}
diff --git a/pkg/renderer/sgml/element_role.go b/pkg/renderer/sgml/element_role.go
index 92a5302..bd11705 100644
--- a/pkg/renderer/sgml/element_role.go
+++ b/pkg/renderer/sgml/element_role.go
@@ -8,6 +8,12 @@ import (
 )
 
 func (r *sgmlRenderer) renderElementRoles(ctx *context, attrs types.Attributes) (string, error) {
+	roles, err := r.renderRawElementRoles(ctx, attrs)
+	return escapeString(roles), err
+}
+
+// renderRawElementRoles renders the roles without escaping the special characters in those given as strings
+func (r *sgmlRenderer) renderRawElementRoles(ctx *context, attrs types.Attributes) (string, error) {
 	if roles, ok := attrs[types.AttrRoles].(types.Roles); ok {
 		result := make([]string, 0, len(roles))
 		for _, e := range roles {
@@ -28,10 +34,10 @@ func (r *sgmlRenderer) renderElementRoles(ctx *context, attrs types.Attributes)
 func (r *sgmlRenderer) renderImageRoles(ctx *context, attrs types.Attributes) (string, error) {
 	var result []string
 	if val, found := attrs.GetAsString(types.AttrFloat); found {
-		result = append(result, val)
+		result = append(result, escapeString(val))
 	}
 	if val, found := attrs.GetAsString(types.AttrImageAlign); found {
-		result = append(result, "text-"+val)
+		result = append(result, "text-"+escapeString(val))
 	}
 	if roles, ok := attrs[types.AttrRoles].(types.Roles); ok {
 		for _, e := range roles {
@@ -40,7 +46,7 @@ func (r *sgmlRenderer) renderImageRoles(ctx *context, attrs types.Attributes) (s
 				return "", err
 			}
 			if s != "" { // skip empty roles
-				result = append(result, s)
+				result = append(result, escapeString(s))
 			}
 		}
 	}
diff --git a/pkg/renderer/sgml/html_escape.go b/pkg/renderer/sgml/html_escape.go
index 12b2f33..b0c20cc 100644
--- a/pkg/renderer/sgml/html_escape.go
+++ b/pkg/renderer/sgml/html_escape.go
@@ -27,3 +27,15 @@ var htmlEscaper = strings.NewReplacer(
 	`'`, "&#39;", // "&#39;" is shorter than "&apos;" and apos was not in HTML until HTML5.
 	`"`, "&#34;", // "&#34;" is shorter than "&quot;".
 )
+
+// escapeURL is like `escapeString`, but it keeps the `&` between the parameters of the URL
+func escapeURL(s string) string {
+	return urlEscaper.Replace(s)
+}
+
+var urlEscaper = strings.NewReplacer(
+	`<`, "&lt;",
+	`>`, "&gt;",
+	`'`, "&#39;",
+	`"`, "&#34;",
+)
diff --git a/pkg/renderer/sgml/icon.go b/pkg/renderer/sgml/icon.go
index 663faee..9a205e7 100644
--- a/pkg/renderer/sgml/icon.go
+++ b/pkg/renderer/sgml/icon.go
@@ -30,11 +30,11 @@ func (r *sgmlRenderer) renderInlineIcon(ctx *context, icon *types.Icon) (string,
 		ID     string
 		Icon   string
 	}{
-		Class:  icon.Class,
+		Class:  escapeString(icon.Class),
 		Icon:   iconStr,
 		ID:     r.renderElementID(icon.Attributes),
-		Link:   icon.Attributes.GetAsStringWithDefault(types.AttrInlineLink, ""),
-		Window: icon.Attributes.GetAsStringWithDefault(types.AttrImageWindow, ""),
+		Link:   escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrInlineLink, "")),
+		Window: escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrImageWindow, "")),
 		Role:   roles,
 	})
 }
@@ -102,17 +102,17 @@ func (r *sgmlRenderer) renderIcon(ctx *context, icon types.Icon, admonition bool
 		Src        string
 		Admonition bool
 	}{
-		Class:      icon.Class,
-		Alt:        alt,
-		Title:      title,
-		Width:      icon.Attributes.GetAsStringWithDefault(types.AttrWidth, ""),
-		Height:     icon.Attributes.GetAsStringWithDefault(types.AttrHeight, ""),
-		Size:       icon.Attributes.GetAsStringWithDefault(types.AttrIconSize, ""),
-		Rotate:     icon.Attributes.GetAsStringWithDefault(types.AttrIconRotate, ""),
-		Flip:       icon.Attributes.GetAsStringWithDefault(types.AttrIconFlip, ""),
-		Link:       icon.Attributes.GetAsStringWithDefault(types.AttrInlineLink, ""),
-		Window:     icon.Attributes.GetAsStringWithDefault(types.AttrImageWindow, ""),
-		Src:        renderIconPath(ctx, icon.Class),
+		Class:      escapeString(icon.Class),
+		Alt:        escapeString(alt),
+		Title:      escapeString(title),
+		Width:      escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrWidth, "")),
+		Height:     escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrHeight, "")),
+		Size:       escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrIconSize, "")),
+		Rotate:     escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrIconRotate, "")),
+		Flip:       escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrIconFlip, "")),
+		Link:       escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrInlineLink, "")),
+		Window:     escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrImageWindow, "")),
+		Src:        escapeString(renderIconPath(ctx, icon.Class)),
 		Admonition: admonition,
 	}); err != nil {
 		return "", errors.Wrap(err, "unable to render icon")
diff --git a/pkg/renderer/sgml/image.go b/pkg/renderer/sgml/image.go
index ad4d398..69b1a73 100644
--- a/pkg/renderer/sgml/image.go
+++ b/pkg/renderer/sgml/image.go
@@ -39,7 +39,7 @@ func (r *sgmlRenderer) renderImageBlock(ctx *context, img *types.ImageBlock) (st
 			number = ctx.GetAndIncrementImageCounter()
 			c = strings.ReplaceAll(c, "{counter:figure-number}", strconv.Itoa(number))
 		}
-		caption.WriteString(c)
+		caption.WriteString(escapeString(c))
 	}
 	roles, err := r.renderImageRoles(ctx, img.Attributes)
 	if err != nil {
@@ -63,15 +63,15 @@ func (r *sgmlRenderer) renderImageBlock(ctx *context, img *types.ImageBlock) (st
 		Height      string
 	}{
 		ID:          r.renderElementID(img.Attributes),
-		Src:         src,
+		Src:         escapeURL(src),
 		Title:       title,
 		ImageNumber: number,
 		Caption:     caption.String(),
 		Roles:       roles,
-		Href:        img.Attributes.GetAsStringWithDefault(types.AttrInlineLink, ""),
-		Alt:         alt,
-		Width:       img.Attributes.GetAsStringWithDefault(types.AttrWidth, ""),
-		Height:      img.Attributes.GetAsStringWithDefault(types.AttrHeight, ""),
+		Href:        escapeString(img.Attributes.GetAsStringWithDefault(types.AttrInlineLink, "")),
+		Alt:         escapeString(alt),
+		Width:       escapeString(img.Attributes.GetAsStringWithDefault(types.AttrWidth, "")),
+		Height:      escapeString(img.Attributes.GetAsStringWithDefault(types.AttrHeight, "")),
 	})
 }
 
@@ -99,13 +99,13 @@ func (r *sgmlRenderer) renderInlineImage(ctx *context, img *types.InlineImage) (
 		Width  string
 		Height string
 	}{
-		Src:    src,
+		Src:    escapeURL(src),
 		Title:  title,
 		Roles:  roles,
-		Href:   href,
-		Alt:    alt,
-		Width:  img.Attributes.GetAsStringWithDefault(types.AttrWidth, ""),
-		Height: img.Attributes.GetAsStringWithDefault(types.AttrHeight, ""),
+		Href:   escapeString(href),
+		Alt:    escapeString(alt),
+		Width:  escapeString(img.Attributes.GetAsStringWithDefault(types.AttrWidth, "")),
+		Height: escapeString(img.Attributes.GetAsStringWithDefault(types.AttrHeight, "")),
 	})
 }
 
diff --git a/pkg/renderer/sgml/inline_button.go b/pkg/renderer/sgml/inline_button.go
index cc6a677..2fc5254 100644
--- a/pkg/renderer/sgml/inline_button.go
+++ b/pkg/renderer/sgml/inline_button.go
@@ -13,7 +13,7 @@ func (r *sgmlRenderer) renderInlineButton(b *types.InlineButton) (string, error)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to load inline button template")
 	}
-	if err = tmpl.Execute(result, b.Attributes[types.AttrButtonLabel]); err != nil {
+	if err = tmpl.Execute(result, escapeString(b.Attributes.GetAsStringWithDefault(types.AttrButtonLabel, ""))); err != nil {
 		return "", errors.Wrap(err, "unable to render inline button")
 	}
 	return result.String(), nil
diff --git a/pkg/renderer/sgml/inline_menu.go b/pkg/renderer/sgml/inline_menu.go
index 4998d54..953aa38 100644
--- a/pkg/renderer/sgml/inline_menu.go
+++ b/pkg/renderer/sgml/inline_menu.go
@@ -5,9 +5,13 @@ import (
 )
 
 func (r *sgmlRenderer) renderInlineMenu(m *types.InlineMenu) (string, error) {
+	path := make([]string, len(m.Path))
+	for i, p := range m.Path {
+		path[i] = escapeString(p)
+	}
 	return r.execute(r.inlineMenu, struct {
 		Path []string
 	}{
-		Path: m.Path,
+		Path: path,
 	})
 }
diff --git a/pkg/renderer/sgml/link.go b/pkg/renderer/sgml/link.go
index c8003c7..c2fa6df 100644
--- a/pkg/renderer/sgml/link.go
+++ b/pkg/renderer/sgml/link.go
@@ -46,11 +46,11 @@ func (r *sgmlRenderer) renderLink(ctx *context, l *types.InlineLink) (string, er
 		Target   string
 		NoOpener bool
 	}{
-		ID:       id,
+		ID:       escapeString(id),
 		URL:      htmlEscaper.Replace(l.Location.ToString()),
 		Text:     text,
 		Class:    class,
-		Target:   target,
+		Target:   escapeString(target),
 		NoOpener: noopener,
 	})
 }
diff --git a/pkg/renderer/sgml/list.go b/pkg/renderer/sgml/list.go
index 3cf5c62..865d667 100644
--- a/pkg/renderer/sgml/list.go
+++ b/pkg/renderer/sgml/list.go
@@ -66,9 +66,9 @@ func (r *sgmlRenderer) renderOrderedList(ctx *context, l *types.List) (string, e
 		ID:        r.renderElementID(l.Attributes),
 		Title:     title,
 		Roles:     roles,
-		Style:     style,
+		Style:     escapeString(style),
 		ListStyle: r.numberingType(style),
-		Start:     l.Attributes.GetAsStringWithDefault(types.AttrStart, ""),
+		Start:     escapeString(l.Attributes.GetAsStringWithDefault(types.AttrStart, "")),
 		Content:   content.String(),
 		Reversed:  l.Attributes.HasOption("reversed"),
 	})
diff --git a/pkg/renderer/sgml/paragraph.go b/pkg/renderer/sgml/paragraph.go
index 70ea177..330a182 100644
--- a/pkg/renderer/sgml/paragraph.go
+++ b/pkg/renderer/sgml/paragraph.go
@@ -140,7 +140,7 @@ func (r *sgmlRenderer) renderElementTitle(ctx *context, attrs types.Attributes)
 	case nil: // eg: when the title was a reference to an attribute without a value
 		return "", nil
 	case string:
-		return title, nil
+		return escapeString(title), nil
 	case []interface{}:
 		return r.renderElements(ctx, title)
 	default:
diff --git a/pkg/renderer/sgml/predefined_attribute.go b/pkg/renderer/sgml/predefined_attribute.go
index 7175be9..97f8978 100644
--- a/pkg/renderer/sgml/predefined_attribute.go
+++ b/pkg/renderer/sgml/predefined_attribute.go
@@ -5,5 +5,5 @@ import (
 )
 
 func (r *sgmlRenderer) renderPredefinedAttribute(a *types.PredefinedAttribute) (string, error) {
-	return predefinedAttribute(a.Name), nil
+	return escapeString(predefinedAttribute(a.Name)), nil
 }
diff --git a/pkg/renderer/sgml/quoted_text.go b/pkg/renderer/sgml/quoted_text.go
index ec5daa0..eaad842 100644
--- a/pkg/renderer/sgml/quoted_text.go
+++ b/pkg/renderer/sgml/quoted_text.go
@@ -22,7 +22,7 @@ func (r *sgmlRenderer) renderQuotedText(ctx *context, t *types.QuotedText) (stri
 			return "", errors.Wrapf(err, "unable to render text quote")
 		}
 	}
-	roles, err := r.renderElementRoles(ctx, t.Attributes)
+	roles, err := r.renderRawElementRoles(ctx, t.Attributes)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render quoted text roles")
 	}
diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index a1cc92a..b54c0b7 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -112,16 +112,16 @@ elements:
 			IncludeHTMLBodyHeader bool
 			IncludeHTMLBodyFooter bool
 		}{
-			Doctype:               ctx.attributes.GetAsStringWithDefault(types.AttrDocType, "article"),
+			Doctype:               escapeString(ctx.attributes.GetAsStringWithDefault(types.AttrDocType, "article")),
 			Generator:             "libasciidoc", // TODO: externalize this value and include the lib version ?
-			Description:           ctx.attributes.GetAsStringWithDefault(types.AttrDescription, ""),
+			Description:           escapeString(ctx.attributes.GetAsStringWithDefault(types.AttrDescription, "")),
 			Title:                 renderedTitle,
-			Authors:               r.renderAuthors(ctx, doc),
+			Authors:               escapeString(r.renderAuthors(ctx, doc)),
 			Header:                renderedHeader,
 			Roles:                 roles,
 			ID:                    r.renderDocumentID(doc),
 			Content:               string(renderedContent),
-			RevNumber:             ctx.attributes.GetAsStringWithDefault("revnumber", ""),
+			RevNumber:             escapeString(ctx.attributes.GetAsStringWithDefault("revnumber", "")),
 			LastUpdated:           ctx.config.LastUpdated.Format(configuration.LastUpdatedFormat),
 			CSS:                   ctx.config.CSS,
 			IncludeHTMLBodyHeader: !ctx.attributes.Has(types.AttrNoHeader),
diff --git a/pkg/renderer/sgml/table.go b/pkg/renderer/sgml/table.go
index 75819f4..13be6fd 100644
--- a/pkg/renderer/sgml/table.go
+++ b/pkg/renderer/sgml/table.go
@@ -13,10 +13,10 @@ import (
 func (r *sgmlRenderer) renderTable(ctx *context, t *types.Table) (string, error) {
 	number := 0
 	fit := "stretch"
-	frame := t.Attributes.GetAsStringWithDefault(types.AttrFrame, "all")
-	grid := t.Attributes.GetAsStringWithDefault(types.AttrGrid, "all")
-	float := t.Attributes.GetAsStringWithDefault(types.AttrFloat, "")
-	stripes := t.Attributes.GetAsStringWithDefault(types.AttrStripes, "")
+	frame := escapeString(t.Attributes.GetAsStringWithDefault(types.AttrFrame, "all"))
+	grid := escapeString(t.Attributes.GetAsStringWithDefault(types.AttrGrid, "all"))
+	float := escapeString(t.Attributes.GetAsStringWithDefault(types.AttrFloat, ""))
+	stripes := escapeString(t.Attributes.GetAsStringWithDefault(types.AttrStripes, ""))
 
 	width, _ := strconv.Atoi(
 		strings.TrimSuffix(t.Attributes.GetAsStringWithDefault(types.AttrWidth, ""), "%"))
@@ -57,7 +57,7 @@ func (r *sgmlRenderer) renderTable(ctx *context, t *types.Table) (string, error)
 			number = ctx.GetAndIncrementTableCounter()
 			c = strings.ReplaceAll(c, "{counter:table-number}", strconv.Itoa(number))
 		}
-		caption.WriteString(c)
+		caption.WriteString(escapeString(c))
 	}
 	columns, err := t.Columns()
 	if err != nil {
diff --git a/pkg/renderer/sgml/table_of_contents.go b/pkg/renderer/sgml/table_of_contents.go
index ba14ddf..b681383 100644
--- a/pkg/renderer/sgml/table_of_contents.go
+++ b/pkg/renderer/sgml/table_of_contents.go
@@ -102,7 +102,7 @@ func (r *sgmlRenderer) renderTableOfContentsTitle(ctx *context) (string, error)
 	}
 	switch title := title.(type) {
 	case string:
-		return title, nil
+		return escapeString(title), nil
 	case []interface{}:
 		return r.renderElements(ctx, title)
 	default:
@@ -144,7 +144,7 @@ func (r *sgmlRenderer) renderTableOfContentsEntry(ctx *context, entry *types.ToC
 		Content string
 	}{
 		Number:  entry.Number,
-		ID:      entry.ID,
+		ID:      escapeString(entry.ID),
 		Title:   entry.Title,
 		Content: content,
 	})
diff --git a/pkg/renderer/sgml/user_macro.go b/pkg/renderer/sgml/user_macro.go
index 5ddd687..a69b52a 100644
--- a/pkg/renderer/sgml/user_macro.go
+++ b/pkg/renderer/sgml/user_macro.go
@@ -13,12 +13,12 @@ func (r *sgmlRenderer) renderUserMacro(ctx *context, m *types.UserMacro) (string
 		if m.Kind == types.BlockMacro {
 			// fallback to paragraph
 			p, _ := types.NewParagraph(
-				&types.StringElement{Content: m.RawText},
+				&types.StringElement{Content: escapeString(m.RawText)},
 			)
 			return r.renderParagraph(ctx, p)
 		}
 		// fallback to render raw text
-		return m.RawText, nil
+		return escapeString(m.RawText), nil
 	}
 	if err := macro.Execute(buf, m); err != nil {
 		return "", err
-- 
2.43.0


From ecc061ae1eb68a76d18032c787006c65325f2b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:47 +0000
Subject: [PATCH 51/75] fix: predefined attributes are lost in the values of
 attributes

---
 ...document_processing_apply_substitutions.go | 50 ++++++++++++++++++-
 pkg/renderer/sgml/render_plain_text.go        | 14 ++++--
 2 files changed, 57 insertions(+), 7 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 5048401..6f14d75 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -359,11 +359,57 @@ func replaceAttributeRefsInAttributeValues(ctx *ParseContext, attrs types.Attrib
 		if err != nil {
 			return err
 		}
+		switch k {
+		case types.AttrTitle, types.AttrXRefLabel, types.AttrInlineLinkText:
+			// predefined attributes are replaced when the value is rendered
+		default:
+			if v, err = replacePredefinedAttributes(v); err != nil {
+				return err
+			}
+		}
 		attrs[k] = v
 	}
 	return nil
 }
 
+// replacePredefinedAttributes replaces the predefined attributes with their value
+func replacePredefinedAttributes(value interface{}) (interface{}, error) {
+	var err error
+	switch value := value.(type) {
+	case *types.PredefinedAttribute:
+		return sgml.RenderPlainText(value, sgml.WithoutEscape()) // special characters are escaped when the value is rendered
+	case []interface{}:
+		return replacePredefinedAttributesInSlice(value)
+	case types.Roles:
+		for i, r := range value {
+			if value[i], err = replacePredefinedAttributes(r); err != nil {
+				return nil, err
+			}
+		}
+		return value, nil
+	case types.Options:
+		for i, o := range value {
+			if value[i], err = replacePredefinedAttributes(o); err != nil {
+				return nil, err
+			}
+		}
+		return value, nil
+	default:
+		return value, nil
+	}
+}
+
+func replacePredefinedAttributesInSlice(values []interface{}) (interface{}, error) {
+	var err error
+	result := make([]interface{}, len(values))
+	for i, v := range values {
+		if result[i], err = replacePredefinedAttributes(v); err != nil {
+			return nil, err
+		}
+	}
+	return types.Reduce(result), nil
+}
+
 func replaceAttributeRefsInValue(ctx *ParseContext, value interface{}) (interface{}, error) {
 	var err error
 	switch value := value.(type) {
@@ -585,14 +631,14 @@ func replaceAttributeRefsInElements(ctx *ParseContext, elements []interface{}) (
 func elementsForAttributeRef(ctx *ParseContext, a *types.AttributeReference) []interface{} {
 	v, _ := ctx.attributes.get(a.Name)
 	switch v := v.(type) {
-	case *types.SpecialCharacter:
+	case *types.SpecialCharacter, *types.PredefinedAttribute:
 		return []interface{}{v}
 	case []interface{}:
 		result := make([]interface{}, len(v))
 		found := false
 		for i, e := range v {
 			switch e := e.(type) {
-			case *types.SpecialCharacter:
+			case *types.SpecialCharacter, *types.PredefinedAttribute:
 				found = true
 				result[i] = e
 			case *types.StringElement:
diff --git a/pkg/renderer/sgml/render_plain_text.go b/pkg/renderer/sgml/render_plain_text.go
index 9a9c4fd..c19828e 100644
--- a/pkg/renderer/sgml/render_plain_text.go
+++ b/pkg/renderer/sgml/render_plain_text.go
@@ -30,7 +30,9 @@ func WithoutEscape() Option {
 }
 
 func RenderParagraphElements(p *types.Paragraph) (string, error) {
-	r := &plaintextRenderer{}
+	r := &plaintextRenderer{
+		escape: escapeString,
+	}
 	buf := &strings.Builder{}
 	for _, e := range p.Elements {
 		renderedElement, err := r.render(e)
@@ -59,15 +61,17 @@ func (r *plaintextRenderer) render(element interface{}) (string, error) {
 	case *types.QuotedText:
 		return r.render(e.Elements)
 	case *types.Icon:
-		return e.Attributes.GetAsStringWithDefault(types.AttrImageAlt, ""), nil
+		return r.escape(e.Attributes.GetAsStringWithDefault(types.AttrImageAlt, "")), nil
 	case *types.InlineImage:
-		return e.Attributes.GetAsStringWithDefault(types.AttrImageAlt, ""), nil
+		return r.escape(e.Attributes.GetAsStringWithDefault(types.AttrImageAlt, "")), nil
 	case *types.InlineLink:
 		return r.renderInlineLink(e)
 	case *types.BlankLine, types.ThematicBreak:
 		return "\n\n", nil
 	case *types.SpecialCharacter:
 		return r.escape(e.Name), nil
+	case *types.PredefinedAttribute:
+		return r.escape(predefinedAttribute(e.Name)), nil
 	case *types.Symbol:
 		return r.renderSymbol(e)
 	case *types.StringElement:
@@ -122,9 +126,9 @@ func (r *plaintextRenderer) renderInlineLink(l *types.InlineLink) (string, error
 	case []interface{}:
 		return r.render(alt)
 	case string:
-		return alt, nil
+		return r.escape(alt), nil
 	default:
-		return l.Location.ToDisplayString(), nil
+		return r.escape(l.Location.ToDisplayString()), nil
 	}
 }
 
-- 
2.43.0


From f98d3731ddba9d52e4bc9978a94d457a010350f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:47 +0000
Subject: [PATCH 52/75] fix: document attributes with special characters are
 ignored when the document is rendered

---
 pkg/renderer/sgml/context.go  | 16 ++++++++++++++++
 pkg/renderer/sgml/elements.go |  2 +-
 pkg/renderer/sgml/sgml.go     |  4 ++--
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/pkg/renderer/sgml/context.go b/pkg/renderer/sgml/context.go
index 00d9aee..b7d2cce 100644
--- a/pkg/renderer/sgml/context.go
+++ b/pkg/renderer/sgml/context.go
@@ -60,6 +60,22 @@ func (ctx *context) setAttribute(name string, value interface{}) {
 	ctx.attributes[name] = value
 }
 
+// attributeValue returns the value of the given attribute as a text when it has special characters,
+// except for the title of the table of contents, which is rendered along with the latter
+func attributeValue(name string, value interface{}) interface{} {
+	if name == types.AttrTableOfContentsTitle {
+		return value
+	}
+	switch value.(type) {
+	case []interface{}, *types.SpecialCharacter, *types.PredefinedAttribute:
+		// special characters are escaped when the value is rendered
+		if s, err := RenderPlainText(value, WithoutEscape()); err == nil {
+			return s
+		}
+	}
+	return value
+}
+
 // setAttributes sets the values of the given attributes, except for those already provided by the caller
 func (ctx *context) setAttributes(attrs types.Attributes) {
 	for name, value := range attrs {
diff --git a/pkg/renderer/sgml/elements.go b/pkg/renderer/sgml/elements.go
index ad9ff86..97cf655 100644
--- a/pkg/renderer/sgml/elements.go
+++ b/pkg/renderer/sgml/elements.go
@@ -103,7 +103,7 @@ func (r *sgmlRenderer) renderElement(ctx *context, element interface{}) (string,
 	case *types.PredefinedAttribute:
 		return r.renderPredefinedAttribute(e)
 	case *types.AttributeDeclaration:
-		ctx.setAttribute(e.Name, e.Value)
+		ctx.setAttribute(e.Name, attributeValue(e.Name, e.Value))
 		return "", nil
 	case *types.AttributeReset:
 		ctx.unsetAttribute(e.Name)
diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index b54c0b7..f0ddee3 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -53,7 +53,7 @@ elements:
 	for _, e := range doc.Elements {
 		switch e := e.(type) {
 		case *types.AttributeDeclaration:
-			ctx.setAttribute(e.Name, e.Value)
+			ctx.setAttribute(e.Name, attributeValue(e.Name, e.Value))
 		case *types.AttributeReset:
 			ctx.unsetAttribute(e.Name)
 		case *types.BlankLine, *types.FrontMatter:
@@ -67,7 +67,7 @@ elements:
 		for _, e := range header.Elements {
 			switch e := e.(type) {
 			case *types.AttributeDeclaration:
-				ctx.setAttribute(e.Name, e.Value)
+				ctx.setAttribute(e.Name, attributeValue(e.Name, e.Value))
 			case *types.AttributeReset:
 				ctx.unsetAttribute(e.Name)
 			}
-- 
2.43.0


From 98e47995a654f9ba551d3afc4c0a25ba86a31a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:47 +0000
Subject: [PATCH 53/75] fix: markup in the titles of inline images

---
 pkg/renderer/sgml/image.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/renderer/sgml/image.go b/pkg/renderer/sgml/image.go
index 69b1a73..5198aee 100644
--- a/pkg/renderer/sgml/image.go
+++ b/pkg/renderer/sgml/image.go
@@ -86,9 +86,9 @@ func (r *sgmlRenderer) renderInlineImage(ctx *context, img *types.InlineImage) (
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render inline image")
 	}
-	title, err := r.renderElementTitle(ctx, img.Attributes)
+	title, err := r.renderInlineImageTitle(img.Attributes)
 	if err != nil {
-		return "", errors.Wrap(err, "unable to render inline image roles")
+		return "", errors.Wrap(err, "unable to render inline image title")
 	}
 	return r.execute(r.inlineImage, struct {
 		Src    string
@@ -109,6 +109,19 @@ func (r *sgmlRenderer) renderInlineImage(ctx *context, img *types.InlineImage) (
 	})
 }
 
+// renderInlineImageTitle renders the title as a text, since it is the value of an attribute
+func (r *sgmlRenderer) renderInlineImageTitle(attrs types.Attributes) (string, error) {
+	switch title := attrs[types.AttrTitle].(type) {
+	case nil:
+		return "", nil
+	case string:
+		return escapeString(title), nil
+	default:
+		result, err := RenderPlainText(title)
+		return escapeString(result), err
+	}
+}
+
 func (r *sgmlRenderer) getImageSrc(ctx *context, location *types.Location) string {
 	if imagesdir, found := ctx.attributes.GetAsString(types.AttrImagesDir); found {
 		location.SetPathPrefix(imagesdir)
-- 
2.43.0


From edd1f491dbe662da8fa14e5819c13070e2a15c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:14 +0000
Subject: [PATCH 54/75] fix: passthroughs in the title of the document are
 rendered without being escaped

---
 pkg/renderer/sgml/render_plain_text.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/render_plain_text.go b/pkg/renderer/sgml/render_plain_text.go
index c19828e..4db576d 100644
--- a/pkg/renderer/sgml/render_plain_text.go
+++ b/pkg/renderer/sgml/render_plain_text.go
@@ -111,7 +111,15 @@ func (r *plaintextRenderer) renderInlineElements(elements []interface{}) (string
 }
 
 func (r *plaintextRenderer) renderInlinePassthrough(p *types.InlinePassthrough) (string, error) {
-	return r.renderInlineElements(p.Elements)
+	content, err := r.renderInlineElements(p.Elements)
+	if err != nil {
+		return "", err
+	}
+	if p.Kind == types.SinglePlusPassthrough {
+		// special characters are escaped in the content of such a passthrough
+		return r.escape(content), nil
+	}
+	return content, nil
 }
 
 func (r *plaintextRenderer) renderSymbol(s *types.Symbol) (string, error) {
-- 
2.43.0


From 921490510d8f7fbe527fef17d192d807d3f11e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:34 +0000
Subject: [PATCH 55/75] fix: text with delimiters of placeholders makes the
 conversion fail or is replaced

---
 ...document_processing_apply_substitutions.go |    54 +-
 .../document_processing_refine_fragments.go   |     4 +-
 pkg/parser/parser.go                          | 14084 ++++++++--------
 pkg/parser/parser.peg                         |     2 +-
 4 files changed, 7215 insertions(+), 6929 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 6f14d75..d228b65 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -716,7 +716,7 @@ func valueForCounter(ctx *ParseContext, c *types.CounterSubstitution) (string, e
 // parseElementsWithSubstitutions parse the elements, using placeholders for existing "structured" elements (ie, not RawLine or StringElements)
 // Also, does not parse the content of the placeholders, but restores them at the end.
 func parseWithSubstitutions(content interface{}, subs *substitutions, opts ...Option) ([]interface{}, error) {
-	serialized, placeholders, err := serialize(content, subs.contains(SpecialCharacters))
+	serialized, placeholders, err := serialize(content, subs.contains(SpecialCharacters), true)
 	if err != nil {
 		return nil, err
 	}
@@ -727,7 +727,7 @@ func parseWithSubstitutions(content interface{}, subs *substitutions, opts ...Op
 		log.Debugf("parsing '%s' with '%s' substitutions", serialized, subs.toString())
 	}
 	// stats := Stats{}
-	elements, err := parseContent(serialized, append(opts, GlobalStore(enabledSubstitutionsKey, subs))...) // , Statistics(&stats, "no match"), Debug(false)
+	elements, err := parseContent(serialized, append(opts, GlobalStore(enabledSubstitutionsKey, subs), GlobalStore(placeholdersKey, placeholders))...) // , Statistics(&stats, "no match"), Debug(false)
 	if err != nil {
 		return nil, err
 	}
@@ -764,27 +764,29 @@ func parseWithSubstitutions(content interface{}, subs *substitutions, opts ...Op
 }
 
 // serialize the content, using placeholders for the elements which are not plain text. Special characters are
-// reserialized if they can be parsed again (eg: to detect bare URLs), otherwise they are kept with placeholders
-func serialize(content interface{}, reparseSpecialCharacters bool) ([]byte, *placeholders, error) {
+// reserialized if they can be parsed again (eg: to detect bare URLs), otherwise they are kept with placeholders.
+// Delimiters of placeholders in the text are protected if the text of the parsed elements is restored afterwards
+func serialize(content interface{}, reparseSpecialCharacters bool, protectDelimiters bool) ([]byte, *placeholders, error) {
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("serializing:\n%v", spew.Sdump(content))
 	}
 	placeholders := newPlaceholders()
+	placeholders.protectDelimiters = protectDelimiters
 	switch content := content.(type) {
 	case nil:
 		return nil, placeholders, nil
 	case string:
-		return []byte(content), placeholders, nil
+		return []byte(placeholders.protect(content)), placeholders, nil
 	case []interface{}:
 		result := bytes.NewBuffer(nil)
 		for _, element := range content {
 			switch element := element.(type) {
 			case *types.RawLine:
-				result.WriteString(element.Content)
+				result.WriteString(placeholders.protect(element.Content))
 			case string:
-				result.WriteString(string(element))
+				result.WriteString(placeholders.protect(element))
 			case *types.StringElement:
-				result.WriteString(element.Content)
+				result.WriteString(placeholders.protect(element.Content))
 			default:
 				if c, ok := element.(*types.SpecialCharacter); ok && reparseSpecialCharacters && c.Name != "&" {
 					result.WriteString(c.Name) // reserialize, so we can detect bare URLs (eg: `a link to <{base_url}>`)
@@ -846,9 +848,23 @@ func serializePlainText(content interface{}) (string, error) {
 	}
 }
 
+const placeholdersKey string = "placeholders"
+
+const placeholderDelimiter string = "\uFFFD"
+
+// checks if the given reference is the one of an element which was replaced with a placeholder before the content was parsed
+func (c *current) isPlaceHolder(ref string) bool {
+	if p, ok := c.globalStore[placeholdersKey].(*placeholders); ok {
+		_, found := p.elements[ref]
+		return found
+	}
+	return false
+}
+
 type placeholders struct {
-	seq      int
-	elements map[string]interface{}
+	seq               int
+	elements          map[string]interface{}
+	protectDelimiters bool // `true` if the delimiters in the text need to be replaced with placeholders, too
 }
 
 func newPlaceholders() *placeholders {
@@ -867,6 +883,24 @@ func (p *placeholders) add(element interface{}) *types.ElementPlaceHolder {
 
 }
 
+// protect replaces the delimiters of placeholders which are part of the text, so they are not mistaken
+// for those of actual placeholders
+func (p *placeholders) protect(text string) string {
+	if !p.protectDelimiters || !strings.Contains(text, placeholderDelimiter) {
+		return text
+	}
+	result := &strings.Builder{}
+	for i, t := range strings.Split(text, placeholderDelimiter) {
+		if i > 0 {
+			result.WriteString(p.add(&types.StringElement{
+				Content: placeholderDelimiter,
+			}).String())
+		}
+		result.WriteString(t)
+	}
+	return result.String()
+}
+
 // replace the placeholders with their original element in the given elements
 func (p *placeholders) restore(elements []interface{}) ([]interface{}, error) {
 	for i, e := range elements {
diff --git a/pkg/parser/document_processing_refine_fragments.go b/pkg/parser/document_processing_refine_fragments.go
index c02a49a..e3de41b 100644
--- a/pkg/parser/document_processing_refine_fragments.go
+++ b/pkg/parser/document_processing_refine_fragments.go
@@ -142,11 +142,11 @@ func reparseDelimitedBlock(ctx *ParseContext, b *types.DelimitedBlock) error {
 }
 
 func reparseElements(elements []interface{}, opts ...Option) ([]interface{}, error) {
-	content, placeholders, err := serialize(elements, true)
+	content, placeholders, err := serialize(elements, true, false)
 	if err != nil {
 		return nil, err
 	}
-	elmts, err := Parse("", content, opts...)
+	elmts, err := Parse("", content, append(opts, GlobalStore(placeholdersKey, placeholders))...)
 	if err != nil {
 		return nil, errors.Wrap(err, "unable to parse elements") // ignore error (malformed content)
 	}
diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index cbd1e9e..bef99cd 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 49, offset: 11042},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92411},
+														pos: position{line: 2922, col: 10, offset: 92458},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92411},
+															pos:        position{line: 2922, col: 10, offset: 92458},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92809},
+													pos: position{line: 2944, col: 8, offset: 92856},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92582},
+															pos: position{line: 2931, col: 12, offset: 92629},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92583},
+																pos: position{line: 2931, col: 13, offset: 92630},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92583},
+																		pos:        position{line: 2931, col: 13, offset: 92630},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92590},
+																		pos:        position{line: 2931, col: 20, offset: 92637},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92599},
+																		pos:        position{line: 2931, col: 29, offset: 92646},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92759},
+															pos: position{line: 2941, col: 8, offset: 92806},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92760,
+																line: 2941, col: 9, offset: 92807,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 364, col: 39, offset: 11163},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92411},
+														pos: position{line: 2922, col: 10, offset: 92458},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92411},
+															pos:        position{line: 2922, col: 10, offset: 92458},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92809},
+													pos: position{line: 2944, col: 8, offset: 92856},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92582},
+															pos: position{line: 2931, col: 12, offset: 92629},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92583},
+																pos: position{line: 2931, col: 13, offset: 92630},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92583},
+																		pos:        position{line: 2931, col: 13, offset: 92630},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92590},
+																		pos:        position{line: 2931, col: 20, offset: 92637},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92599},
+																		pos:        position{line: 2931, col: 29, offset: 92646},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92759},
+															pos: position{line: 2941, col: 8, offset: 92806},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92760,
+																line: 2941, col: 9, offset: 92807,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92411},
+														pos: position{line: 2922, col: 10, offset: 92458},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92411},
+															pos:        position{line: 2922, col: 10, offset: 92458},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92759},
+													pos: position{line: 2941, col: 8, offset: 92806},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92760,
+														line: 2941, col: 9, offset: 92807,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92411},
+														pos: position{line: 2922, col: 10, offset: 92458},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92411},
+															pos:        position{line: 2922, col: 10, offset: 92458},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92759},
+													pos: position{line: 2941, col: 8, offset: 92806},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92760,
+														line: 2941, col: 9, offset: 92807,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2914, col: 12, offset: 92238},
+																pos: position{line: 2914, col: 12, offset: 92285},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2914, col: 13, offset: 92239},
+																	pos: position{line: 2914, col: 13, offset: 92286},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2914, col: 13, offset: 92239},
+																			pos: position{line: 2914, col: 13, offset: 92286},
 																			expr: &litMatcher{
-																				pos:        position{line: 2914, col: 13, offset: 92239},
+																				pos:        position{line: 2914, col: 13, offset: 92286},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2914, col: 18, offset: 92244},
+																			pos: position{line: 2914, col: 18, offset: 92291},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2914, col: 18, offset: 92244},
+																				pos:        position{line: 2914, col: 18, offset: 92291},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92411},
+														pos: position{line: 2922, col: 10, offset: 92458},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92411},
+															pos:        position{line: 2922, col: 10, offset: 92458},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92411},
+														pos: position{line: 2922, col: 10, offset: 92458},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92411},
+															pos:        position{line: 2922, col: 10, offset: 92458},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2914, col: 12, offset: 92238},
+																pos: position{line: 2914, col: 12, offset: 92285},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2914, col: 13, offset: 92239},
+																	pos: position{line: 2914, col: 13, offset: 92286},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2914, col: 13, offset: 92239},
+																			pos: position{line: 2914, col: 13, offset: 92286},
 																			expr: &litMatcher{
-																				pos:        position{line: 2914, col: 13, offset: 92239},
+																				pos:        position{line: 2914, col: 13, offset: 92286},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2914, col: 18, offset: 92244},
+																			pos: position{line: 2914, col: 18, offset: 92291},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2914, col: 18, offset: 92244},
+																				pos:        position{line: 2914, col: 18, offset: 92291},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92411},
+														pos: position{line: 2922, col: 10, offset: 92458},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92411},
+															pos:        position{line: 2922, col: 10, offset: 92458},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92759},
+													pos: position{line: 2941, col: 8, offset: 92806},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92760,
+														line: 2941, col: 9, offset: 92807,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92411},
+														pos: position{line: 2922, col: 10, offset: 92458},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92411},
+															pos:        position{line: 2922, col: 10, offset: 92458},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92759},
+													pos: position{line: 2941, col: 8, offset: 92806},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92760,
+														line: 2941, col: 9, offset: 92807,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 737, col: 5, offset: 23726},
 													expr: &charClassMatcher{
-														pos:        position{line: 2812, col: 13, offset: 89506},
+														pos:        position{line: 2812, col: 13, offset: 89553},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 755, col: 8, offset: 24370},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92411},
+																				pos: position{line: 2922, col: 10, offset: 92458},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92411},
+																					pos:        position{line: 2922, col: 10, offset: 92458},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92809},
+																			pos: position{line: 2944, col: 8, offset: 92856},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92582},
+																					pos: position{line: 2931, col: 12, offset: 92629},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92583},
+																						pos: position{line: 2931, col: 13, offset: 92630},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92583},
+																								pos:        position{line: 2931, col: 13, offset: 92630},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92590},
+																								pos:        position{line: 2931, col: 20, offset: 92637},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92599},
+																								pos:        position{line: 2931, col: 29, offset: 92646},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 762, col: 8, offset: 24618},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92411},
+																				pos: position{line: 2922, col: 10, offset: 92458},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92411},
+																					pos:        position{line: 2922, col: 10, offset: 92458},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92809},
+																			pos: position{line: 2944, col: 8, offset: 92856},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92582},
+																					pos: position{line: 2931, col: 12, offset: 92629},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92583},
+																						pos: position{line: 2931, col: 13, offset: 92630},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92583},
+																								pos:        position{line: 2931, col: 13, offset: 92630},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92590},
+																								pos:        position{line: 2931, col: 20, offset: 92637},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92599},
+																								pos:        position{line: 2931, col: 29, offset: 92646},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 773, col: 52, offset: 25030},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92411},
+																				pos: position{line: 2922, col: 10, offset: 92458},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92411},
+																					pos:        position{line: 2922, col: 10, offset: 92458},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92809},
+																			pos: position{line: 2944, col: 8, offset: 92856},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92582},
+																					pos: position{line: 2931, col: 12, offset: 92629},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92583},
+																						pos: position{line: 2931, col: 13, offset: 92630},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92583},
+																								pos:        position{line: 2931, col: 13, offset: 92630},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92590},
+																								pos:        position{line: 2931, col: 20, offset: 92637},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92599},
+																								pos:        position{line: 2931, col: 29, offset: 92646},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 769, col: 8, offset: 24864},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92411},
+																				pos: position{line: 2922, col: 10, offset: 92458},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92411},
+																					pos:        position{line: 2922, col: 10, offset: 92458},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92809},
+																			pos: position{line: 2944, col: 8, offset: 92856},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92582},
+																					pos: position{line: 2931, col: 12, offset: 92629},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92583},
+																						pos: position{line: 2931, col: 13, offset: 92630},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92583},
+																								pos:        position{line: 2931, col: 13, offset: 92630},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92590},
+																								pos:        position{line: 2931, col: 20, offset: 92637},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92599},
+																								pos:        position{line: 2931, col: 29, offset: 92646},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 784, col: 8, offset: 25402},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92411},
+																				pos: position{line: 2922, col: 10, offset: 92458},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92411},
+																					pos:        position{line: 2922, col: 10, offset: 92458},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92809},
+																			pos: position{line: 2944, col: 8, offset: 92856},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92582},
+																					pos: position{line: 2931, col: 12, offset: 92629},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92583},
+																						pos: position{line: 2931, col: 13, offset: 92630},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92583},
+																								pos:        position{line: 2931, col: 13, offset: 92630},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92590},
+																								pos:        position{line: 2931, col: 20, offset: 92637},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92599},
+																								pos:        position{line: 2931, col: 29, offset: 92646},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 798, col: 8, offset: 25878},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92411},
+																				pos: position{line: 2922, col: 10, offset: 92458},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92411},
+																					pos:        position{line: 2922, col: 10, offset: 92458},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92809},
+																			pos: position{line: 2944, col: 8, offset: 92856},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92582},
+																					pos: position{line: 2931, col: 12, offset: 92629},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92583},
+																						pos: position{line: 2931, col: 13, offset: 92630},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92583},
+																								pos:        position{line: 2931, col: 13, offset: 92630},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92590},
+																								pos:        position{line: 2931, col: 20, offset: 92637},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92599},
+																								pos:        position{line: 2931, col: 29, offset: 92646},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 805, col: 8, offset: 26130},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92411},
+																				pos: position{line: 2922, col: 10, offset: 92458},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92411},
+																					pos:        position{line: 2922, col: 10, offset: 92458},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92809},
+																			pos: position{line: 2944, col: 8, offset: 92856},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92582},
+																					pos: position{line: 2931, col: 12, offset: 92629},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92583},
+																						pos: position{line: 2931, col: 13, offset: 92630},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92583},
+																								pos:        position{line: 2931, col: 13, offset: 92630},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92590},
+																								pos:        position{line: 2931, col: 20, offset: 92637},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92599},
+																								pos:        position{line: 2931, col: 29, offset: 92646},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 812, col: 8, offset: 26380},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92411},
+																				pos: position{line: 2922, col: 10, offset: 92458},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92411},
+																					pos:        position{line: 2922, col: 10, offset: 92458},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92809},
+																			pos: position{line: 2944, col: 8, offset: 92856},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92582},
+																					pos: position{line: 2931, col: 12, offset: 92629},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92583},
+																						pos: position{line: 2931, col: 13, offset: 92630},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92583},
+																								pos:        position{line: 2931, col: 13, offset: 92630},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92590},
+																								pos:        position{line: 2931, col: 20, offset: 92637},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92599},
+																								pos:        position{line: 2931, col: 29, offset: 92646},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 819, col: 8, offset: 26626},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92411},
+																				pos: position{line: 2922, col: 10, offset: 92458},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92411},
+																					pos:        position{line: 2922, col: 10, offset: 92458},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92809},
+																			pos: position{line: 2944, col: 8, offset: 92856},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92582},
+																					pos: position{line: 2931, col: 12, offset: 92629},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92583},
+																						pos: position{line: 2931, col: 13, offset: 92630},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92583},
+																								pos:        position{line: 2931, col: 13, offset: 92630},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92590},
+																								pos:        position{line: 2931, col: 20, offset: 92637},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92599},
+																								pos:        position{line: 2931, col: 29, offset: 92646},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2926, col: 11, offset: 92472},
+													pos: position{line: 2926, col: 11, offset: 92519},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2926, col: 11, offset: 92472},
+														pos: position{line: 2926, col: 11, offset: 92519},
 														expr: &charClassMatcher{
-															pos:        position{line: 2926, col: 11, offset: 92472},
+															pos:        position{line: 2926, col: 11, offset: 92519},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2872, col: 14, offset: 91004},
+													pos: position{line: 2872, col: 14, offset: 91051},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2872, col: 14, offset: 91004},
+														pos: position{line: 2872, col: 14, offset: 91051},
 														expr: &charClassMatcher{
-															pos:        position{line: 2872, col: 14, offset: 91004},
+															pos:        position{line: 2872, col: 14, offset: 91051},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92759},
+													pos: position{line: 2941, col: 8, offset: 92806},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92760,
+														line: 2941, col: 9, offset: 92807,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92759},
+							pos: position{line: 2941, col: 8, offset: 92806},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92760,
+								line: 2941, col: 9, offset: 92807,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2876, col: 17, offset: 91074},
+												pos: position{line: 2876, col: 17, offset: 91121},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2876, col: 17, offset: 91074},
+													pos:   position{line: 2876, col: 17, offset: 91121},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2893, col: 5, offset: 91528},
+														pos: position{line: 2893, col: 5, offset: 91575},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2893, col: 5, offset: 91528},
+															pos:   position{line: 2893, col: 5, offset: 91575},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2893, col: 14, offset: 91537},
+																pos: position{line: 2893, col: 14, offset: 91584},
 																expr: &choiceExpr{
-																	pos: position{line: 2894, col: 9, offset: 91547},
+																	pos: position{line: 2894, col: 9, offset: 91594},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2894, col: 9, offset: 91547},
+																			pos: position{line: 2894, col: 9, offset: 91594},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2894, col: 9, offset: 91547},
+																				pos: position{line: 2894, col: 9, offset: 91594},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2894, col: 9, offset: 91547},
+																						pos: position{line: 2894, col: 9, offset: 91594},
 																						expr: &litMatcher{
-																							pos:        position{line: 2894, col: 10, offset: 91548},
+																							pos:        position{line: 2894, col: 10, offset: 91595},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2895, col: 9, offset: 91576},
+																						pos: position{line: 2895, col: 9, offset: 91623},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2895, col: 10, offset: 91577},
+																							pos:        position{line: 2895, col: 10, offset: 91624},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2898, col: 11, offset: 91789},
+																			pos: position{line: 2898, col: 11, offset: 91836},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2898, col: 11, offset: 91789},
+																					pos:        position{line: 2898, col: 11, offset: 91836},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2898, col: 19, offset: 91797},
+																					pos: position{line: 2898, col: 19, offset: 91844},
 																					expr: &seqExpr{
-																						pos: position{line: 2898, col: 21, offset: 91799},
+																						pos: position{line: 2898, col: 21, offset: 91846},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2898, col: 21, offset: 91799},
+																								pos: position{line: 2898, col: 21, offset: 91846},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92411},
+																									pos: position{line: 2922, col: 10, offset: 92458},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92411},
+																										pos:        position{line: 2922, col: 10, offset: 92458},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2898, col: 28, offset: 91806},
+																								pos: position{line: 2898, col: 28, offset: 91853},
 																								expr: &notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -3080,14 +3080,18 @@ var g = &grammar{
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
+																					&andCodeExpr{
+																						pos: position{line: 1211, col: 123, offset: 37756},
+																						run: (*parser).callonFileInclusion107,
+																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2901, col: 11, offset: 91926},
-																			run: (*parser).callonFileInclusion107,
+																			pos: position{line: 2901, col: 11, offset: 91973},
+																			run: (*parser).callonFileInclusion108,
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 11, offset: 91926},
+																				pos:        position{line: 2901, col: 11, offset: 91973},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3120,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92411},
-								run: (*parser).callonFileInclusion112,
+								pos: position{line: 2922, col: 10, offset: 92458},
+								run: (*parser).callonFileInclusion113,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92411},
+									pos:        position{line: 2922, col: 10, offset: 92458},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3132,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92809},
+							pos: position{line: 2944, col: 8, offset: 92856},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92582},
-									run: (*parser).callonFileInclusion115,
+									pos: position{line: 2931, col: 12, offset: 92629},
+									run: (*parser).callonFileInclusion116,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92583},
+										pos: position{line: 2931, col: 13, offset: 92630},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92583},
+												pos:        position{line: 2931, col: 13, offset: 92630},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92590},
+												pos:        position{line: 2931, col: 20, offset: 92637},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92599},
+												pos:        position{line: 2931, col: 29, offset: 92646},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3162,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92759},
+									pos: position{line: 2941, col: 8, offset: 92806},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92760,
+										line: 2941, col: 9, offset: 92807,
 									},
 								},
 							},
@@ -3206,24 +3210,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92238},
+																				pos: position{line: 2914, col: 12, offset: 92285},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2914, col: 13, offset: 92239},
+																					pos: position{line: 2914, col: 13, offset: 92286},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2914, col: 13, offset: 92239},
+																							pos: position{line: 2914, col: 13, offset: 92286},
 																							expr: &litMatcher{
-																								pos:        position{line: 2914, col: 13, offset: 92239},
+																								pos:        position{line: 2914, col: 13, offset: 92286},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2914, col: 18, offset: 92244},
+																							pos: position{line: 2914, col: 18, offset: 92291},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2914, col: 18, offset: 92244},
+																								pos:        position{line: 2914, col: 18, offset: 92291},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3248,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92238},
+																				pos: position{line: 2914, col: 12, offset: 92285},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2914, col: 13, offset: 92239},
+																					pos: position{line: 2914, col: 13, offset: 92286},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2914, col: 13, offset: 92239},
+																							pos: position{line: 2914, col: 13, offset: 92286},
 																							expr: &litMatcher{
-																								pos:        position{line: 2914, col: 13, offset: 92239},
+																								pos:        position{line: 2914, col: 13, offset: 92286},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2914, col: 18, offset: 92244},
+																							pos: position{line: 2914, col: 18, offset: 92291},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2914, col: 18, offset: 92244},
+																								pos:        position{line: 2914, col: 18, offset: 92291},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3286,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2914, col: 12, offset: 92238},
+																		pos: position{line: 2914, col: 12, offset: 92285},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2914, col: 13, offset: 92239},
+																			pos: position{line: 2914, col: 13, offset: 92286},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2914, col: 13, offset: 92239},
+																					pos: position{line: 2914, col: 13, offset: 92286},
 																					expr: &litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92239},
+																						pos:        position{line: 2914, col: 13, offset: 92286},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2914, col: 18, offset: 92244},
+																					pos: position{line: 2914, col: 18, offset: 92291},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2914, col: 18, offset: 92244},
+																						pos:        position{line: 2914, col: 18, offset: 92291},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3352,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92238},
+																									pos: position{line: 2914, col: 12, offset: 92285},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2914, col: 13, offset: 92239},
+																										pos: position{line: 2914, col: 13, offset: 92286},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2914, col: 13, offset: 92239},
+																												pos: position{line: 2914, col: 13, offset: 92286},
 																												expr: &litMatcher{
-																													pos:        position{line: 2914, col: 13, offset: 92239},
+																													pos:        position{line: 2914, col: 13, offset: 92286},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2914, col: 18, offset: 92244},
+																												pos: position{line: 2914, col: 18, offset: 92291},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2914, col: 18, offset: 92244},
+																													pos:        position{line: 2914, col: 18, offset: 92291},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3390,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92238},
+																									pos: position{line: 2914, col: 12, offset: 92285},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2914, col: 13, offset: 92239},
+																										pos: position{line: 2914, col: 13, offset: 92286},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2914, col: 13, offset: 92239},
+																												pos: position{line: 2914, col: 13, offset: 92286},
 																												expr: &litMatcher{
-																													pos:        position{line: 2914, col: 13, offset: 92239},
+																													pos:        position{line: 2914, col: 13, offset: 92286},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2914, col: 18, offset: 92244},
+																												pos: position{line: 2914, col: 18, offset: 92291},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2914, col: 18, offset: 92244},
+																													pos:        position{line: 2914, col: 18, offset: 92291},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3428,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2914, col: 12, offset: 92238},
+																							pos: position{line: 2914, col: 12, offset: 92285},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2914, col: 13, offset: 92239},
+																								pos: position{line: 2914, col: 13, offset: 92286},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2914, col: 13, offset: 92239},
+																										pos: position{line: 2914, col: 13, offset: 92286},
 																										expr: &litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92239},
+																											pos:        position{line: 2914, col: 13, offset: 92286},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2914, col: 18, offset: 92244},
+																										pos: position{line: 2914, col: 18, offset: 92291},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2914, col: 18, offset: 92244},
+																											pos:        position{line: 2914, col: 18, offset: 92291},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3478,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2914, col: 12, offset: 92238},
+														pos: position{line: 2914, col: 12, offset: 92285},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2914, col: 13, offset: 92239},
+															pos: position{line: 2914, col: 13, offset: 92286},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2914, col: 13, offset: 92239},
+																	pos: position{line: 2914, col: 13, offset: 92286},
 																	expr: &litMatcher{
-																		pos:        position{line: 2914, col: 13, offset: 92239},
+																		pos:        position{line: 2914, col: 13, offset: 92286},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2914, col: 18, offset: 92244},
+																	pos: position{line: 2914, col: 18, offset: 92291},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2914, col: 18, offset: 92244},
+																		pos:        position{line: 2914, col: 18, offset: 92291},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3516,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2914, col: 12, offset: 92238},
+														pos: position{line: 2914, col: 12, offset: 92285},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2914, col: 13, offset: 92239},
+															pos: position{line: 2914, col: 13, offset: 92286},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2914, col: 13, offset: 92239},
+																	pos: position{line: 2914, col: 13, offset: 92286},
 																	expr: &litMatcher{
-																		pos:        position{line: 2914, col: 13, offset: 92239},
+																		pos:        position{line: 2914, col: 13, offset: 92286},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2914, col: 18, offset: 92244},
+																	pos: position{line: 2914, col: 18, offset: 92291},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2914, col: 18, offset: 92244},
+																		pos:        position{line: 2914, col: 18, offset: 92291},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3554,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2914, col: 12, offset: 92238},
+												pos: position{line: 2914, col: 12, offset: 92285},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2914, col: 13, offset: 92239},
+													pos: position{line: 2914, col: 13, offset: 92286},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2914, col: 13, offset: 92239},
+															pos: position{line: 2914, col: 13, offset: 92286},
 															expr: &litMatcher{
-																pos:        position{line: 2914, col: 13, offset: 92239},
+																pos:        position{line: 2914, col: 13, offset: 92286},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2914, col: 18, offset: 92244},
+															pos: position{line: 2914, col: 18, offset: 92291},
 															expr: &charClassMatcher{
-																pos:        position{line: 2914, col: 18, offset: 92244},
+																pos:        position{line: 2914, col: 18, offset: 92291},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3587,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92759},
+							pos: position{line: 2941, col: 8, offset: 92806},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92760,
+								line: 2941, col: 9, offset: 92807,
 							},
 						},
 					},
@@ -3626,12 +3630,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2816, col: 14, offset: 89580},
+																		pos: position{line: 2816, col: 14, offset: 89627},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2816, col: 14, offset: 89580},
+																			pos: position{line: 2816, col: 14, offset: 89627},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2816, col: 14, offset: 89580},
+																				pos:        position{line: 2816, col: 14, offset: 89627},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3696,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2816, col: 14, offset: 89580},
+																				pos: position{line: 2816, col: 14, offset: 89627},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2816, col: 14, offset: 89580},
+																					pos: position{line: 2816, col: 14, offset: 89627},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2816, col: 14, offset: 89580},
+																						pos:        position{line: 2816, col: 14, offset: 89627},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3782,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2816, col: 14, offset: 89580},
+																							pos: position{line: 2816, col: 14, offset: 89627},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2816, col: 14, offset: 89580},
+																								pos: position{line: 2816, col: 14, offset: 89627},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2816, col: 14, offset: 89580},
+																									pos:        position{line: 2816, col: 14, offset: 89627},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3848,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2816, col: 14, offset: 89580},
+																									pos: position{line: 2816, col: 14, offset: 89627},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2816, col: 14, offset: 89580},
+																										pos: position{line: 2816, col: 14, offset: 89627},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2816, col: 14, offset: 89580},
+																											pos:        position{line: 2816, col: 14, offset: 89627},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3910,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92759},
+							pos: position{line: 2941, col: 8, offset: 92806},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92760,
+								line: 2941, col: 9, offset: 92807,
 							},
 						},
 					},
@@ -3951,12 +3955,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2816, col: 14, offset: 89580},
+																pos: position{line: 2816, col: 14, offset: 89627},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2816, col: 14, offset: 89580},
+																	pos: position{line: 2816, col: 14, offset: 89627},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2816, col: 14, offset: 89580},
+																		pos:        position{line: 2816, col: 14, offset: 89627},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3998,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2816, col: 14, offset: 89580},
+																pos: position{line: 2816, col: 14, offset: 89627},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2816, col: 14, offset: 89580},
+																	pos: position{line: 2816, col: 14, offset: 89627},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2816, col: 14, offset: 89580},
+																		pos:        position{line: 2816, col: 14, offset: 89627},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4034,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92809},
+							pos: position{line: 2944, col: 8, offset: 92856},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92582},
+									pos: position{line: 2931, col: 12, offset: 92629},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92583},
+										pos: position{line: 2931, col: 13, offset: 92630},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92583},
+												pos:        position{line: 2931, col: 13, offset: 92630},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92590},
+												pos:        position{line: 2931, col: 20, offset: 92637},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92599},
+												pos:        position{line: 2931, col: 29, offset: 92646},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4064,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92759},
+									pos: position{line: 2941, col: 8, offset: 92806},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92760,
+										line: 2941, col: 9, offset: 92807,
 									},
 								},
 							},
@@ -4081,9 +4085,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92745},
+							pos: position{line: 2939, col: 11, offset: 92792},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92747,
+								line: 2939, col: 13, offset: 92794,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4182,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 49, offset: 11042},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92411},
+															pos: position{line: 2922, col: 10, offset: 92458},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92411},
+																pos:        position{line: 2922, col: 10, offset: 92458},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4194,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92809},
+														pos: position{line: 2944, col: 8, offset: 92856},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92582},
+																pos: position{line: 2931, col: 12, offset: 92629},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92583},
+																	pos: position{line: 2931, col: 13, offset: 92630},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92583},
+																			pos:        position{line: 2931, col: 13, offset: 92630},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92590},
+																			pos:        position{line: 2931, col: 20, offset: 92637},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92599},
+																			pos:        position{line: 2931, col: 29, offset: 92646},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4224,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92759},
+																pos: position{line: 2941, col: 8, offset: 92806},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92760,
+																	line: 2941, col: 9, offset: 92807,
 																},
 															},
 														},
@@ -4283,10 +4287,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 364, col: 39, offset: 11163},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92411},
+															pos: position{line: 2922, col: 10, offset: 92458},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92411},
+																pos:        position{line: 2922, col: 10, offset: 92458},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4299,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92809},
+														pos: position{line: 2944, col: 8, offset: 92856},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92582},
+																pos: position{line: 2931, col: 12, offset: 92629},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92583},
+																	pos: position{line: 2931, col: 13, offset: 92630},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92583},
+																			pos:        position{line: 2931, col: 13, offset: 92630},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92590},
+																			pos:        position{line: 2931, col: 20, offset: 92637},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92599},
+																			pos:        position{line: 2931, col: 29, offset: 92646},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4329,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92759},
+																pos: position{line: 2941, col: 8, offset: 92806},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92760,
+																	line: 2941, col: 9, offset: 92807,
 																},
 															},
 														},
@@ -4342,18 +4346,18 @@ var g = &grammar{
 												pos: position{line: 690, col: 14, offset: 22173},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2939, col: 11, offset: 92745},
+														pos: position{line: 2939, col: 11, offset: 92792},
 														expr: &anyMatcher{
-															line: 2939, col: 13, offset: 92747,
+															line: 2939, col: 13, offset: 92794,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 690, col: 21, offset: 22180},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92411},
+															pos: position{line: 2922, col: 10, offset: 92458},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92411},
+																pos:        position{line: 2922, col: 10, offset: 92458},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4366,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92809},
+														pos: position{line: 2944, col: 8, offset: 92856},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92582},
+																pos: position{line: 2931, col: 12, offset: 92629},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92583},
+																	pos: position{line: 2931, col: 13, offset: 92630},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92583},
+																			pos:        position{line: 2931, col: 13, offset: 92630},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92590},
+																			pos:        position{line: 2931, col: 20, offset: 92637},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92599},
+																			pos:        position{line: 2931, col: 29, offset: 92646},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4396,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92759},
+																pos: position{line: 2941, col: 8, offset: 92806},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92760,
+																	line: 2941, col: 9, offset: 92807,
 																},
 															},
 														},
@@ -4453,10 +4457,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 755, col: 8, offset: 24370},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92411},
+																		pos: position{line: 2922, col: 10, offset: 92458},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92411},
+																			pos:        position{line: 2922, col: 10, offset: 92458},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4465,28 +4469,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92809},
+																	pos: position{line: 2944, col: 8, offset: 92856},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92582},
+																			pos: position{line: 2931, col: 12, offset: 92629},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92583},
+																				pos: position{line: 2931, col: 13, offset: 92630},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92583},
+																						pos:        position{line: 2931, col: 13, offset: 92630},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92590},
+																						pos:        position{line: 2931, col: 20, offset: 92637},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92599},
+																						pos:        position{line: 2931, col: 29, offset: 92646},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4495,9 +4499,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92759},
+																			pos: position{line: 2941, col: 8, offset: 92806},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92760,
+																				line: 2941, col: 9, offset: 92807,
 																			},
 																		},
 																	},
@@ -4558,10 +4562,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 755, col: 8, offset: 24370},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92411},
+																										pos: position{line: 2922, col: 10, offset: 92458},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92411},
+																											pos:        position{line: 2922, col: 10, offset: 92458},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4570,28 +4574,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92809},
+																									pos: position{line: 2944, col: 8, offset: 92856},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92582},
+																											pos: position{line: 2931, col: 12, offset: 92629},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92583},
+																												pos: position{line: 2931, col: 13, offset: 92630},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92583},
+																														pos:        position{line: 2931, col: 13, offset: 92630},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92590},
+																														pos:        position{line: 2931, col: 20, offset: 92637},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92599},
+																														pos:        position{line: 2931, col: 29, offset: 92646},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4600,9 +4604,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92759},
+																											pos: position{line: 2941, col: 8, offset: 92806},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92760,
+																												line: 2941, col: 9, offset: 92807,
 																											},
 																										},
 																									},
@@ -4611,9 +4615,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92759},
+																						pos: position{line: 2941, col: 8, offset: 92806},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92760,
+																							line: 2941, col: 9, offset: 92807,
 																						},
 																					},
 																				},
@@ -4629,21 +4633,21 @@ var g = &grammar{
 																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92745},
+																							pos: position{line: 2939, col: 11, offset: 92792},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92747,
+																								line: 2939, col: 13, offset: 92794,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90937},
+																								pos: position{line: 2868, col: 13, offset: 90984},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90937},
+																									pos: position{line: 2868, col: 13, offset: 90984},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90937},
+																										pos:        position{line: 2868, col: 13, offset: 90984},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4653,28 +4657,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4683,9 +4687,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -4741,10 +4745,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 755, col: 8, offset: 24370},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92411},
+																					pos: position{line: 2922, col: 10, offset: 92458},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92411},
+																						pos:        position{line: 2922, col: 10, offset: 92458},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4753,28 +4757,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92809},
+																				pos: position{line: 2944, col: 8, offset: 92856},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92582},
+																						pos: position{line: 2931, col: 12, offset: 92629},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92583},
+																							pos: position{line: 2931, col: 13, offset: 92630},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92583},
+																									pos:        position{line: 2931, col: 13, offset: 92630},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92590},
+																									pos:        position{line: 2931, col: 20, offset: 92637},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92599},
+																									pos:        position{line: 2931, col: 29, offset: 92646},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4783,9 +4787,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92759},
+																						pos: position{line: 2941, col: 8, offset: 92806},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92760,
+																							line: 2941, col: 9, offset: 92807,
 																						},
 																					},
 																				},
@@ -4794,9 +4798,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92759},
+																	pos: position{line: 2941, col: 8, offset: 92806},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92760,
+																		line: 2941, col: 9, offset: 92807,
 																	},
 																},
 															},
@@ -4851,10 +4855,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24618},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92411},
+																			pos: position{line: 2922, col: 10, offset: 92458},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92411},
+																				pos:        position{line: 2922, col: 10, offset: 92458},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4863,28 +4867,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92809},
+																		pos: position{line: 2944, col: 8, offset: 92856},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
+																				pos: position{line: 2931, col: 12, offset: 92629},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4893,9 +4897,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92759},
+																				pos: position{line: 2941, col: 8, offset: 92806},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92760,
+																					line: 2941, col: 9, offset: 92807,
 																				},
 																			},
 																		},
@@ -4967,10 +4971,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24618},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92411},
+																													pos: position{line: 2922, col: 10, offset: 92458},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92411},
+																														pos:        position{line: 2922, col: 10, offset: 92458},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4979,28 +4983,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92809},
+																												pos: position{line: 2944, col: 8, offset: 92856},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92582},
+																														pos: position{line: 2931, col: 12, offset: 92629},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92583},
+																															pos: position{line: 2931, col: 13, offset: 92630},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92583},
+																																	pos:        position{line: 2931, col: 13, offset: 92630},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92590},
+																																	pos:        position{line: 2931, col: 20, offset: 92637},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92599},
+																																	pos:        position{line: 2931, col: 29, offset: 92646},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5009,9 +5013,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92759},
+																														pos: position{line: 2941, col: 8, offset: 92806},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92760,
+																															line: 2941, col: 9, offset: 92807,
 																														},
 																													},
 																												},
@@ -5027,9 +5031,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92759},
+																						pos: position{line: 2941, col: 8, offset: 92806},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92760,
+																							line: 2941, col: 9, offset: 92807,
 																						},
 																					},
 																				},
@@ -5045,21 +5049,21 @@ var g = &grammar{
 																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92745},
+																							pos: position{line: 2939, col: 11, offset: 92792},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92747,
+																								line: 2939, col: 13, offset: 92794,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90937},
+																								pos: position{line: 2868, col: 13, offset: 90984},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90937},
+																									pos: position{line: 2868, col: 13, offset: 90984},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90937},
+																										pos:        position{line: 2868, col: 13, offset: 90984},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5069,28 +5073,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5099,9 +5103,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -5166,10 +5170,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24618},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92411},
+																									pos: position{line: 2922, col: 10, offset: 92458},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92411},
+																										pos:        position{line: 2922, col: 10, offset: 92458},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5178,28 +5182,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92809},
+																								pos: position{line: 2944, col: 8, offset: 92856},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92582},
+																										pos: position{line: 2931, col: 12, offset: 92629},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92583},
+																											pos: position{line: 2931, col: 13, offset: 92630},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92583},
+																													pos:        position{line: 2931, col: 13, offset: 92630},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92590},
+																													pos:        position{line: 2931, col: 20, offset: 92637},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92599},
+																													pos:        position{line: 2931, col: 29, offset: 92646},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5208,9 +5212,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92759},
+																										pos: position{line: 2941, col: 8, offset: 92806},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92760,
+																											line: 2941, col: 9, offset: 92807,
 																										},
 																									},
 																								},
@@ -5226,9 +5230,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92759},
+																		pos: position{line: 2941, col: 8, offset: 92806},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92760,
+																			line: 2941, col: 9, offset: 92807,
 																		},
 																	},
 																},
@@ -5280,10 +5284,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 773, col: 52, offset: 25030},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92411},
+																			pos: position{line: 2922, col: 10, offset: 92458},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92411},
+																				pos:        position{line: 2922, col: 10, offset: 92458},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5292,28 +5296,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92809},
+																		pos: position{line: 2944, col: 8, offset: 92856},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
+																				pos: position{line: 2931, col: 12, offset: 92629},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5322,9 +5326,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92759},
+																				pos: position{line: 2941, col: 8, offset: 92806},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92760,
+																					line: 2941, col: 9, offset: 92807,
 																				},
 																			},
 																		},
@@ -5358,10 +5362,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 976, col: 40, offset: 30833},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92411},
+																							pos: position{line: 2922, col: 10, offset: 92458},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92411},
+																								pos:        position{line: 2922, col: 10, offset: 92458},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5370,28 +5374,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92809},
+																						pos: position{line: 2944, col: 8, offset: 92856},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92582},
+																								pos: position{line: 2931, col: 12, offset: 92629},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92583},
+																									pos: position{line: 2931, col: 13, offset: 92630},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92583},
+																											pos:        position{line: 2931, col: 13, offset: 92630},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92590},
+																											pos:        position{line: 2931, col: 20, offset: 92637},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92599},
+																											pos:        position{line: 2931, col: 29, offset: 92646},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5400,9 +5404,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92759},
+																								pos: position{line: 2941, col: 8, offset: 92806},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92760,
+																									line: 2941, col: 9, offset: 92807,
 																								},
 																							},
 																						},
@@ -5420,21 +5424,21 @@ var g = &grammar{
 																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92745},
+																							pos: position{line: 2939, col: 11, offset: 92792},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92747,
+																								line: 2939, col: 13, offset: 92794,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90937},
+																								pos: position{line: 2868, col: 13, offset: 90984},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90937},
+																									pos: position{line: 2868, col: 13, offset: 90984},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90937},
+																										pos:        position{line: 2868, col: 13, offset: 90984},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5444,28 +5448,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5474,9 +5478,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -5504,10 +5508,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 976, col: 40, offset: 30833},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92411},
+																		pos: position{line: 2922, col: 10, offset: 92458},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92411},
+																			pos:        position{line: 2922, col: 10, offset: 92458},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5516,28 +5520,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92809},
+																	pos: position{line: 2944, col: 8, offset: 92856},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92582},
+																			pos: position{line: 2931, col: 12, offset: 92629},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92583},
+																				pos: position{line: 2931, col: 13, offset: 92630},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92583},
+																						pos:        position{line: 2931, col: 13, offset: 92630},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92590},
+																						pos:        position{line: 2931, col: 20, offset: 92637},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92599},
+																						pos:        position{line: 2931, col: 29, offset: 92646},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5546,9 +5550,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92759},
+																			pos: position{line: 2941, col: 8, offset: 92806},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92760,
+																				line: 2941, col: 9, offset: 92807,
 																			},
 																		},
 																	},
@@ -5605,10 +5609,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 769, col: 8, offset: 24864},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92411},
+																			pos: position{line: 2922, col: 10, offset: 92458},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92411},
+																				pos:        position{line: 2922, col: 10, offset: 92458},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5617,28 +5621,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92809},
+																		pos: position{line: 2944, col: 8, offset: 92856},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
+																				pos: position{line: 2931, col: 12, offset: 92629},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5647,9 +5651,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92759},
+																				pos: position{line: 2941, col: 8, offset: 92806},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92760,
+																					line: 2941, col: 9, offset: 92807,
 																				},
 																			},
 																		},
@@ -5721,10 +5725,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 769, col: 8, offset: 24864},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92411},
+																													pos: position{line: 2922, col: 10, offset: 92458},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92411},
+																														pos:        position{line: 2922, col: 10, offset: 92458},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5733,28 +5737,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92809},
+																												pos: position{line: 2944, col: 8, offset: 92856},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92582},
+																														pos: position{line: 2931, col: 12, offset: 92629},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92583},
+																															pos: position{line: 2931, col: 13, offset: 92630},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92583},
+																																	pos:        position{line: 2931, col: 13, offset: 92630},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92590},
+																																	pos:        position{line: 2931, col: 20, offset: 92637},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92599},
+																																	pos:        position{line: 2931, col: 29, offset: 92646},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5763,9 +5767,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92759},
+																														pos: position{line: 2941, col: 8, offset: 92806},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92760,
+																															line: 2941, col: 9, offset: 92807,
 																														},
 																													},
 																												},
@@ -5781,9 +5785,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92759},
+																						pos: position{line: 2941, col: 8, offset: 92806},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92760,
+																							line: 2941, col: 9, offset: 92807,
 																						},
 																					},
 																				},
@@ -5799,21 +5803,21 @@ var g = &grammar{
 																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92745},
+																							pos: position{line: 2939, col: 11, offset: 92792},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92747,
+																								line: 2939, col: 13, offset: 92794,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90937},
+																								pos: position{line: 2868, col: 13, offset: 90984},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90937},
+																									pos: position{line: 2868, col: 13, offset: 90984},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90937},
+																										pos:        position{line: 2868, col: 13, offset: 90984},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5823,28 +5827,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5853,9 +5857,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -5920,10 +5924,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24864},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92411},
+																									pos: position{line: 2922, col: 10, offset: 92458},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92411},
+																										pos:        position{line: 2922, col: 10, offset: 92458},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5932,28 +5936,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92809},
+																								pos: position{line: 2944, col: 8, offset: 92856},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92582},
+																										pos: position{line: 2931, col: 12, offset: 92629},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92583},
+																											pos: position{line: 2931, col: 13, offset: 92630},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92583},
+																													pos:        position{line: 2931, col: 13, offset: 92630},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92590},
+																													pos:        position{line: 2931, col: 20, offset: 92637},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92599},
+																													pos:        position{line: 2931, col: 29, offset: 92646},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5962,9 +5966,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92759},
+																										pos: position{line: 2941, col: 8, offset: 92806},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92760,
+																											line: 2941, col: 9, offset: 92807,
 																										},
 																									},
 																								},
@@ -5980,9 +5984,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92759},
+																		pos: position{line: 2941, col: 8, offset: 92806},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92760,
+																			line: 2941, col: 9, offset: 92807,
 																		},
 																	},
 																},
@@ -6038,10 +6042,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 784, col: 8, offset: 25402},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92411},
+																			pos: position{line: 2922, col: 10, offset: 92458},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92411},
+																				pos:        position{line: 2922, col: 10, offset: 92458},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6050,28 +6054,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92809},
+																		pos: position{line: 2944, col: 8, offset: 92856},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
+																				pos: position{line: 2931, col: 12, offset: 92629},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6080,9 +6084,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92759},
+																				pos: position{line: 2941, col: 8, offset: 92806},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92760,
+																					line: 2941, col: 9, offset: 92807,
 																				},
 																			},
 																		},
@@ -6154,10 +6158,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 784, col: 8, offset: 25402},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92411},
+																													pos: position{line: 2922, col: 10, offset: 92458},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92411},
+																														pos:        position{line: 2922, col: 10, offset: 92458},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6166,28 +6170,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92809},
+																												pos: position{line: 2944, col: 8, offset: 92856},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92582},
+																														pos: position{line: 2931, col: 12, offset: 92629},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92583},
+																															pos: position{line: 2931, col: 13, offset: 92630},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92583},
+																																	pos:        position{line: 2931, col: 13, offset: 92630},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92590},
+																																	pos:        position{line: 2931, col: 20, offset: 92637},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92599},
+																																	pos:        position{line: 2931, col: 29, offset: 92646},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6196,9 +6200,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92759},
+																														pos: position{line: 2941, col: 8, offset: 92806},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92760,
+																															line: 2941, col: 9, offset: 92807,
 																														},
 																													},
 																												},
@@ -6214,9 +6218,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92759},
+																						pos: position{line: 2941, col: 8, offset: 92806},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92760,
+																							line: 2941, col: 9, offset: 92807,
 																						},
 																					},
 																				},
@@ -6232,21 +6236,21 @@ var g = &grammar{
 																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92745},
+																							pos: position{line: 2939, col: 11, offset: 92792},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92747,
+																								line: 2939, col: 13, offset: 92794,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90937},
+																								pos: position{line: 2868, col: 13, offset: 90984},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90937},
+																									pos: position{line: 2868, col: 13, offset: 90984},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90937},
+																										pos:        position{line: 2868, col: 13, offset: 90984},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6256,28 +6260,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6286,9 +6290,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -6353,10 +6357,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 784, col: 8, offset: 25402},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92411},
+																									pos: position{line: 2922, col: 10, offset: 92458},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92411},
+																										pos:        position{line: 2922, col: 10, offset: 92458},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6365,28 +6369,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92809},
+																								pos: position{line: 2944, col: 8, offset: 92856},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92582},
+																										pos: position{line: 2931, col: 12, offset: 92629},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92583},
+																											pos: position{line: 2931, col: 13, offset: 92630},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92583},
+																													pos:        position{line: 2931, col: 13, offset: 92630},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92590},
+																													pos:        position{line: 2931, col: 20, offset: 92637},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92599},
+																													pos:        position{line: 2931, col: 29, offset: 92646},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6395,9 +6399,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92759},
+																										pos: position{line: 2941, col: 8, offset: 92806},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92760,
+																											line: 2941, col: 9, offset: 92807,
 																										},
 																									},
 																								},
@@ -6413,9 +6417,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92759},
+																		pos: position{line: 2941, col: 8, offset: 92806},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92760,
+																			line: 2941, col: 9, offset: 92807,
 																		},
 																	},
 																},
@@ -6471,10 +6475,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25878},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92411},
+																			pos: position{line: 2922, col: 10, offset: 92458},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92411},
+																				pos:        position{line: 2922, col: 10, offset: 92458},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6483,28 +6487,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92809},
+																		pos: position{line: 2944, col: 8, offset: 92856},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
+																				pos: position{line: 2931, col: 12, offset: 92629},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6513,9 +6517,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92759},
+																				pos: position{line: 2941, col: 8, offset: 92806},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92760,
+																					line: 2941, col: 9, offset: 92807,
 																				},
 																			},
 																		},
@@ -6587,10 +6591,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 798, col: 8, offset: 25878},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92411},
+																													pos: position{line: 2922, col: 10, offset: 92458},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92411},
+																														pos:        position{line: 2922, col: 10, offset: 92458},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6599,28 +6603,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92809},
+																												pos: position{line: 2944, col: 8, offset: 92856},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92582},
+																														pos: position{line: 2931, col: 12, offset: 92629},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92583},
+																															pos: position{line: 2931, col: 13, offset: 92630},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92583},
+																																	pos:        position{line: 2931, col: 13, offset: 92630},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92590},
+																																	pos:        position{line: 2931, col: 20, offset: 92637},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92599},
+																																	pos:        position{line: 2931, col: 29, offset: 92646},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6629,9 +6633,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92759},
+																														pos: position{line: 2941, col: 8, offset: 92806},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92760,
+																															line: 2941, col: 9, offset: 92807,
 																														},
 																													},
 																												},
@@ -6647,9 +6651,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92759},
+																						pos: position{line: 2941, col: 8, offset: 92806},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92760,
+																							line: 2941, col: 9, offset: 92807,
 																						},
 																					},
 																				},
@@ -6665,21 +6669,21 @@ var g = &grammar{
 																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92745},
+																							pos: position{line: 2939, col: 11, offset: 92792},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92747,
+																								line: 2939, col: 13, offset: 92794,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90937},
+																								pos: position{line: 2868, col: 13, offset: 90984},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90937},
+																									pos: position{line: 2868, col: 13, offset: 90984},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90937},
+																										pos:        position{line: 2868, col: 13, offset: 90984},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6689,28 +6693,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6719,9 +6723,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -6786,10 +6790,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 798, col: 8, offset: 25878},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92411},
+																									pos: position{line: 2922, col: 10, offset: 92458},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92411},
+																										pos:        position{line: 2922, col: 10, offset: 92458},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6798,28 +6802,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92809},
+																								pos: position{line: 2944, col: 8, offset: 92856},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92582},
+																										pos: position{line: 2931, col: 12, offset: 92629},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92583},
+																											pos: position{line: 2931, col: 13, offset: 92630},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92583},
+																													pos:        position{line: 2931, col: 13, offset: 92630},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92590},
+																													pos:        position{line: 2931, col: 20, offset: 92637},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92599},
+																													pos:        position{line: 2931, col: 29, offset: 92646},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6828,9 +6832,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92759},
+																										pos: position{line: 2941, col: 8, offset: 92806},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92760,
+																											line: 2941, col: 9, offset: 92807,
 																										},
 																									},
 																								},
@@ -6846,9 +6850,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92759},
+																		pos: position{line: 2941, col: 8, offset: 92806},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92760,
+																			line: 2941, col: 9, offset: 92807,
 																		},
 																	},
 																},
@@ -6882,18 +6886,18 @@ var g = &grammar{
 																				pos: position{line: 690, col: 14, offset: 22173},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92745},
+																						pos: position{line: 2939, col: 11, offset: 92792},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92747,
+																							line: 2939, col: 13, offset: 92794,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 690, col: 21, offset: 22180},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92411},
+																							pos: position{line: 2922, col: 10, offset: 92458},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92411},
+																								pos:        position{line: 2922, col: 10, offset: 92458},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6902,28 +6906,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92809},
+																						pos: position{line: 2944, col: 8, offset: 92856},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92582},
+																								pos: position{line: 2931, col: 12, offset: 92629},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92583},
+																									pos: position{line: 2931, col: 13, offset: 92630},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92583},
+																											pos:        position{line: 2931, col: 13, offset: 92630},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92590},
+																											pos:        position{line: 2931, col: 20, offset: 92637},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92599},
+																											pos:        position{line: 2931, col: 29, offset: 92646},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6932,9 +6936,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92759},
+																								pos: position{line: 2941, col: 8, offset: 92806},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92760,
+																									line: 2941, col: 9, offset: 92807,
 																								},
 																							},
 																						},
@@ -6953,12 +6957,12 @@ var g = &grammar{
 																		pos:   position{line: 997, col: 5, offset: 31368},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 14, offset: 91004},
+																			pos: position{line: 2872, col: 14, offset: 91051},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2872, col: 14, offset: 91004},
+																				pos: position{line: 2872, col: 14, offset: 91051},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 14, offset: 91004},
+																					pos:        position{line: 2872, col: 14, offset: 91051},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -6968,28 +6972,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92809},
+																		pos: position{line: 2944, col: 8, offset: 92856},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
+																				pos: position{line: 2931, col: 12, offset: 92629},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6998,9 +7002,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92759},
+																				pos: position{line: 2941, col: 8, offset: 92806},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92760,
+																					line: 2941, col: 9, offset: 92807,
 																				},
 																			},
 																		},
@@ -7032,18 +7036,18 @@ var g = &grammar{
 																							pos: position{line: 690, col: 14, offset: 22173},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2939, col: 11, offset: 92745},
+																									pos: position{line: 2939, col: 11, offset: 92792},
 																									expr: &anyMatcher{
-																										line: 2939, col: 13, offset: 92747,
+																										line: 2939, col: 13, offset: 92794,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 690, col: 21, offset: 22180},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92411},
+																										pos: position{line: 2922, col: 10, offset: 92458},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92411},
+																											pos:        position{line: 2922, col: 10, offset: 92458},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7052,28 +7056,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92809},
+																									pos: position{line: 2944, col: 8, offset: 92856},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92582},
+																											pos: position{line: 2931, col: 12, offset: 92629},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92583},
+																												pos: position{line: 2931, col: 13, offset: 92630},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92583},
+																														pos:        position{line: 2931, col: 13, offset: 92630},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92590},
+																														pos:        position{line: 2931, col: 20, offset: 92637},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92599},
+																														pos:        position{line: 2931, col: 29, offset: 92646},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7082,9 +7086,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92759},
+																											pos: position{line: 2941, col: 8, offset: 92806},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92760,
+																												line: 2941, col: 9, offset: 92807,
 																											},
 																										},
 																									},
@@ -7103,12 +7107,12 @@ var g = &grammar{
 																					pos:   position{line: 997, col: 5, offset: 31368},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2872, col: 14, offset: 91004},
+																						pos: position{line: 2872, col: 14, offset: 91051},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2872, col: 14, offset: 91004},
+																							pos: position{line: 2872, col: 14, offset: 91051},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 14, offset: 91004},
+																								pos:        position{line: 2872, col: 14, offset: 91051},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7118,28 +7122,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92809},
+																					pos: position{line: 2944, col: 8, offset: 92856},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92582},
+																							pos: position{line: 2931, col: 12, offset: 92629},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92583},
+																								pos: position{line: 2931, col: 13, offset: 92630},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92583},
+																										pos:        position{line: 2931, col: 13, offset: 92630},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92590},
+																										pos:        position{line: 2931, col: 20, offset: 92637},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92599},
+																										pos:        position{line: 2931, col: 29, offset: 92646},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7148,9 +7152,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92759},
+																							pos: position{line: 2941, col: 8, offset: 92806},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92760,
+																								line: 2941, col: 9, offset: 92807,
 																							},
 																						},
 																					},
@@ -7159,21 +7163,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1804, col: 5, offset: 58471},
+																		pos: position{line: 1804, col: 5, offset: 58518},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1804, col: 5, offset: 58471},
+																			pos: position{line: 1804, col: 5, offset: 58518},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1804, col: 5, offset: 58471},
+																					pos:   position{line: 1804, col: 5, offset: 58518},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2872, col: 14, offset: 91004},
+																						pos: position{line: 2872, col: 14, offset: 91051},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2872, col: 14, offset: 91004},
+																							pos: position{line: 2872, col: 14, offset: 91051},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 14, offset: 91004},
+																								pos:        position{line: 2872, col: 14, offset: 91051},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7183,32 +7187,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1805, col: 5, offset: 58495},
+																					pos: position{line: 1805, col: 5, offset: 58542},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92809},
+																					pos: position{line: 2944, col: 8, offset: 92856},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92582},
+																							pos: position{line: 2931, col: 12, offset: 92629},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92583},
+																								pos: position{line: 2931, col: 13, offset: 92630},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92583},
+																										pos:        position{line: 2931, col: 13, offset: 92630},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92590},
+																										pos:        position{line: 2931, col: 20, offset: 92637},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92599},
+																										pos:        position{line: 2931, col: 29, offset: 92646},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7217,9 +7221,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92759},
+																							pos: position{line: 2941, col: 8, offset: 92806},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92760,
+																								line: 2941, col: 9, offset: 92807,
 																							},
 																						},
 																					},
@@ -7266,10 +7270,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 791, col: 8, offset: 25633},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92411},
+																			pos: position{line: 2922, col: 10, offset: 92458},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92411},
+																				pos:        position{line: 2922, col: 10, offset: 92458},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7278,28 +7282,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92809},
+																		pos: position{line: 2944, col: 8, offset: 92856},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
+																				pos: position{line: 2931, col: 12, offset: 92629},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7308,9 +7312,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92759},
+																				pos: position{line: 2941, col: 8, offset: 92806},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92760,
+																					line: 2941, col: 9, offset: 92807,
 																				},
 																			},
 																		},
@@ -7358,10 +7362,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 791, col: 8, offset: 25633},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92411},
+																										pos: position{line: 2922, col: 10, offset: 92458},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92411},
+																											pos:        position{line: 2922, col: 10, offset: 92458},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7370,28 +7374,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92809},
+																									pos: position{line: 2944, col: 8, offset: 92856},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92582},
+																											pos: position{line: 2931, col: 12, offset: 92629},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92583},
+																												pos: position{line: 2931, col: 13, offset: 92630},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92583},
+																														pos:        position{line: 2931, col: 13, offset: 92630},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92590},
+																														pos:        position{line: 2931, col: 20, offset: 92637},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92599},
+																														pos:        position{line: 2931, col: 29, offset: 92646},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7400,9 +7404,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92759},
+																											pos: position{line: 2941, col: 8, offset: 92806},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92760,
+																												line: 2941, col: 9, offset: 92807,
 																											},
 																										},
 																									},
@@ -7411,9 +7415,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92759},
+																						pos: position{line: 2941, col: 8, offset: 92806},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92760,
+																							line: 2941, col: 9, offset: 92807,
 																						},
 																					},
 																				},
@@ -7429,21 +7433,21 @@ var g = &grammar{
 																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92745},
+																							pos: position{line: 2939, col: 11, offset: 92792},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92747,
+																								line: 2939, col: 13, offset: 92794,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90937},
+																								pos: position{line: 2868, col: 13, offset: 90984},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90937},
+																									pos: position{line: 2868, col: 13, offset: 90984},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90937},
+																										pos:        position{line: 2868, col: 13, offset: 90984},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7453,28 +7457,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7483,9 +7487,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -7530,10 +7534,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 791, col: 8, offset: 25633},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92411},
+																						pos: position{line: 2922, col: 10, offset: 92458},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92411},
+																							pos:        position{line: 2922, col: 10, offset: 92458},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7542,28 +7546,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92809},
+																					pos: position{line: 2944, col: 8, offset: 92856},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92582},
+																							pos: position{line: 2931, col: 12, offset: 92629},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92583},
+																								pos: position{line: 2931, col: 13, offset: 92630},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92583},
+																										pos:        position{line: 2931, col: 13, offset: 92630},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92590},
+																										pos:        position{line: 2931, col: 20, offset: 92637},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92599},
+																										pos:        position{line: 2931, col: 29, offset: 92646},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7572,9 +7576,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92759},
+																							pos: position{line: 2941, col: 8, offset: 92806},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92760,
+																								line: 2941, col: 9, offset: 92807,
 																							},
 																						},
 																					},
@@ -7583,9 +7587,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92759},
+																		pos: position{line: 2941, col: 8, offset: 92806},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92760,
+																			line: 2941, col: 9, offset: 92807,
 																		},
 																	},
 																},
@@ -7641,10 +7645,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 805, col: 8, offset: 26130},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92411},
+																			pos: position{line: 2922, col: 10, offset: 92458},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92411},
+																				pos:        position{line: 2922, col: 10, offset: 92458},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7653,28 +7657,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92809},
+																		pos: position{line: 2944, col: 8, offset: 92856},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
+																				pos: position{line: 2931, col: 12, offset: 92629},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7683,9 +7687,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92759},
+																				pos: position{line: 2941, col: 8, offset: 92806},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92760,
+																					line: 2941, col: 9, offset: 92807,
 																				},
 																			},
 																		},
@@ -7757,10 +7761,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 805, col: 8, offset: 26130},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92411},
+																													pos: position{line: 2922, col: 10, offset: 92458},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92411},
+																														pos:        position{line: 2922, col: 10, offset: 92458},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7769,28 +7773,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92809},
+																												pos: position{line: 2944, col: 8, offset: 92856},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92582},
+																														pos: position{line: 2931, col: 12, offset: 92629},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92583},
+																															pos: position{line: 2931, col: 13, offset: 92630},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92583},
+																																	pos:        position{line: 2931, col: 13, offset: 92630},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92590},
+																																	pos:        position{line: 2931, col: 20, offset: 92637},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92599},
+																																	pos:        position{line: 2931, col: 29, offset: 92646},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7799,9 +7803,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92759},
+																														pos: position{line: 2941, col: 8, offset: 92806},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92760,
+																															line: 2941, col: 9, offset: 92807,
 																														},
 																													},
 																												},
@@ -7817,9 +7821,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92759},
+																						pos: position{line: 2941, col: 8, offset: 92806},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92760,
+																							line: 2941, col: 9, offset: 92807,
 																						},
 																					},
 																				},
@@ -7835,21 +7839,21 @@ var g = &grammar{
 																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92745},
+																							pos: position{line: 2939, col: 11, offset: 92792},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92747,
+																								line: 2939, col: 13, offset: 92794,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90937},
+																								pos: position{line: 2868, col: 13, offset: 90984},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90937},
+																									pos: position{line: 2868, col: 13, offset: 90984},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90937},
+																										pos:        position{line: 2868, col: 13, offset: 90984},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7859,28 +7863,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7889,9 +7893,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -7956,10 +7960,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 26130},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92411},
+																									pos: position{line: 2922, col: 10, offset: 92458},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92411},
+																										pos:        position{line: 2922, col: 10, offset: 92458},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7968,28 +7972,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92809},
+																								pos: position{line: 2944, col: 8, offset: 92856},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92582},
+																										pos: position{line: 2931, col: 12, offset: 92629},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92583},
+																											pos: position{line: 2931, col: 13, offset: 92630},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92583},
+																													pos:        position{line: 2931, col: 13, offset: 92630},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92590},
+																													pos:        position{line: 2931, col: 20, offset: 92637},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92599},
+																													pos:        position{line: 2931, col: 29, offset: 92646},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -7998,9 +8002,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92759},
+																										pos: position{line: 2941, col: 8, offset: 92806},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92760,
+																											line: 2941, col: 9, offset: 92807,
 																										},
 																									},
 																								},
@@ -8016,9 +8020,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92759},
+																		pos: position{line: 2941, col: 8, offset: 92806},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92760,
+																			line: 2941, col: 9, offset: 92807,
 																		},
 																	},
 																},
@@ -8074,10 +8078,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 812, col: 8, offset: 26380},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92411},
+																			pos: position{line: 2922, col: 10, offset: 92458},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92411},
+																				pos:        position{line: 2922, col: 10, offset: 92458},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8086,28 +8090,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92809},
+																		pos: position{line: 2944, col: 8, offset: 92856},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
+																				pos: position{line: 2931, col: 12, offset: 92629},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8116,9 +8120,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92759},
+																				pos: position{line: 2941, col: 8, offset: 92806},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92760,
+																					line: 2941, col: 9, offset: 92807,
 																				},
 																			},
 																		},
@@ -8190,10 +8194,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 812, col: 8, offset: 26380},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92411},
+																													pos: position{line: 2922, col: 10, offset: 92458},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92411},
+																														pos:        position{line: 2922, col: 10, offset: 92458},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8202,28 +8206,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92809},
+																												pos: position{line: 2944, col: 8, offset: 92856},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92582},
+																														pos: position{line: 2931, col: 12, offset: 92629},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92583},
+																															pos: position{line: 2931, col: 13, offset: 92630},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92583},
+																																	pos:        position{line: 2931, col: 13, offset: 92630},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92590},
+																																	pos:        position{line: 2931, col: 20, offset: 92637},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92599},
+																																	pos:        position{line: 2931, col: 29, offset: 92646},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8232,9 +8236,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92759},
+																														pos: position{line: 2941, col: 8, offset: 92806},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92760,
+																															line: 2941, col: 9, offset: 92807,
 																														},
 																													},
 																												},
@@ -8250,9 +8254,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92759},
+																						pos: position{line: 2941, col: 8, offset: 92806},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92760,
+																							line: 2941, col: 9, offset: 92807,
 																						},
 																					},
 																				},
@@ -8268,21 +8272,21 @@ var g = &grammar{
 																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92745},
+																							pos: position{line: 2939, col: 11, offset: 92792},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92747,
+																								line: 2939, col: 13, offset: 92794,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90937},
+																								pos: position{line: 2868, col: 13, offset: 90984},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90937},
+																									pos: position{line: 2868, col: 13, offset: 90984},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90937},
+																										pos:        position{line: 2868, col: 13, offset: 90984},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8292,28 +8296,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8322,9 +8326,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -8389,10 +8393,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26380},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92411},
+																									pos: position{line: 2922, col: 10, offset: 92458},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92411},
+																										pos:        position{line: 2922, col: 10, offset: 92458},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8401,28 +8405,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92809},
+																								pos: position{line: 2944, col: 8, offset: 92856},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92582},
+																										pos: position{line: 2931, col: 12, offset: 92629},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92583},
+																											pos: position{line: 2931, col: 13, offset: 92630},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92583},
+																													pos:        position{line: 2931, col: 13, offset: 92630},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92590},
+																													pos:        position{line: 2931, col: 20, offset: 92637},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92599},
+																													pos:        position{line: 2931, col: 29, offset: 92646},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8431,9 +8435,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92759},
+																										pos: position{line: 2941, col: 8, offset: 92806},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92760,
+																											line: 2941, col: 9, offset: 92807,
 																										},
 																									},
 																								},
@@ -8449,9 +8453,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92759},
+																		pos: position{line: 2941, col: 8, offset: 92806},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92760,
+																			line: 2941, col: 9, offset: 92807,
 																		},
 																	},
 																},
@@ -8507,10 +8511,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 819, col: 8, offset: 26626},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92411},
+																			pos: position{line: 2922, col: 10, offset: 92458},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92411},
+																				pos:        position{line: 2922, col: 10, offset: 92458},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8519,28 +8523,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92809},
+																		pos: position{line: 2944, col: 8, offset: 92856},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
+																				pos: position{line: 2931, col: 12, offset: 92629},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8549,9 +8553,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92759},
+																				pos: position{line: 2941, col: 8, offset: 92806},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92760,
+																					line: 2941, col: 9, offset: 92807,
 																				},
 																			},
 																		},
@@ -8623,10 +8627,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 819, col: 8, offset: 26626},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92411},
+																													pos: position{line: 2922, col: 10, offset: 92458},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92411},
+																														pos:        position{line: 2922, col: 10, offset: 92458},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8635,28 +8639,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92809},
+																												pos: position{line: 2944, col: 8, offset: 92856},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92582},
+																														pos: position{line: 2931, col: 12, offset: 92629},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92583},
+																															pos: position{line: 2931, col: 13, offset: 92630},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92583},
+																																	pos:        position{line: 2931, col: 13, offset: 92630},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92590},
+																																	pos:        position{line: 2931, col: 20, offset: 92637},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92599},
+																																	pos:        position{line: 2931, col: 29, offset: 92646},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8665,9 +8669,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92759},
+																														pos: position{line: 2941, col: 8, offset: 92806},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92760,
+																															line: 2941, col: 9, offset: 92807,
 																														},
 																													},
 																												},
@@ -8683,9 +8687,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92759},
+																						pos: position{line: 2941, col: 8, offset: 92806},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92760,
+																							line: 2941, col: 9, offset: 92807,
 																						},
 																					},
 																				},
@@ -8701,21 +8705,21 @@ var g = &grammar{
 																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92745},
+																							pos: position{line: 2939, col: 11, offset: 92792},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92747,
+																								line: 2939, col: 13, offset: 92794,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90937},
+																								pos: position{line: 2868, col: 13, offset: 90984},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90937},
+																									pos: position{line: 2868, col: 13, offset: 90984},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90937},
+																										pos:        position{line: 2868, col: 13, offset: 90984},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8725,28 +8729,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8755,9 +8759,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -8822,10 +8826,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26626},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92411},
+																									pos: position{line: 2922, col: 10, offset: 92458},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92411},
+																										pos:        position{line: 2922, col: 10, offset: 92458},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8834,28 +8838,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92809},
+																								pos: position{line: 2944, col: 8, offset: 92856},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92582},
+																										pos: position{line: 2931, col: 12, offset: 92629},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92583},
+																											pos: position{line: 2931, col: 13, offset: 92630},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92583},
+																													pos:        position{line: 2931, col: 13, offset: 92630},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92590},
+																													pos:        position{line: 2931, col: 20, offset: 92637},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92599},
+																													pos:        position{line: 2931, col: 29, offset: 92646},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8864,9 +8868,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92759},
+																										pos: position{line: 2941, col: 8, offset: 92806},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92760,
+																											line: 2941, col: 9, offset: 92807,
 																										},
 																									},
 																								},
@@ -8882,9 +8886,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92759},
+																		pos: position{line: 2941, col: 8, offset: 92806},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92760,
+																			line: 2941, col: 9, offset: 92807,
 																		},
 																	},
 																},
@@ -8895,52 +8899,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2767, col: 18, offset: 88001},
+											pos: position{line: 2767, col: 18, offset: 88048},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2767, col: 18, offset: 88001},
+												pos: position{line: 2767, col: 18, offset: 88048},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2768, col: 9, offset: 88011},
+														pos: position{line: 2768, col: 9, offset: 88058},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2768, col: 9, offset: 88011},
+																pos:        position{line: 2768, col: 9, offset: 88058},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2769, col: 11, offset: 88047},
+																pos:        position{line: 2769, col: 11, offset: 88094},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2769, col: 19, offset: 88055},
+																pos:        position{line: 2769, col: 19, offset: 88102},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2769, col: 29, offset: 88065},
+																pos:        position{line: 2769, col: 29, offset: 88112},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2769, col: 37, offset: 88073},
+																pos:        position{line: 2769, col: 37, offset: 88120},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2769, col: 47, offset: 88083},
+																pos:        position{line: 2769, col: 47, offset: 88130},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2769, col: 55, offset: 88091},
+																pos:        position{line: 2769, col: 55, offset: 88138},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -8948,12 +8952,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2770, col: 11, offset: 88149},
+														pos: position{line: 2770, col: 11, offset: 88196},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92411},
+															pos: position{line: 2922, col: 10, offset: 92458},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92411},
+																pos:        position{line: 2922, col: 10, offset: 92458},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -8962,28 +8966,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92809},
+														pos: position{line: 2944, col: 8, offset: 92856},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92582},
+																pos: position{line: 2931, col: 12, offset: 92629},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92583},
+																	pos: position{line: 2931, col: 13, offset: 92630},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92583},
+																			pos:        position{line: 2931, col: 13, offset: 92630},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92590},
+																			pos:        position{line: 2931, col: 20, offset: 92637},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92599},
+																			pos:        position{line: 2931, col: 29, offset: 92646},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -8992,36 +8996,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92759},
+																pos: position{line: 2941, col: 8, offset: 92806},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92760,
+																	line: 2941, col: 9, offset: 92807,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92809},
+														pos: position{line: 2944, col: 8, offset: 92856},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92582},
+																pos: position{line: 2931, col: 12, offset: 92629},
 																run: (*parser).callonDocumentFragment1098,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92583},
+																	pos: position{line: 2931, col: 13, offset: 92630},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92583},
+																			pos:        position{line: 2931, col: 13, offset: 92630},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92590},
+																			pos:        position{line: 2931, col: 20, offset: 92637},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92599},
+																			pos:        position{line: 2931, col: 29, offset: 92646},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9030,9 +9034,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92759},
+																pos: position{line: 2941, col: 8, offset: 92806},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92760,
+																	line: 2941, col: 9, offset: 92807,
 																},
 															},
 														},
@@ -9045,24 +9049,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2651, col: 5, offset: 84758},
+											pos: position{line: 2651, col: 5, offset: 84805},
 											run: (*parser).callonDocumentFragment1106,
 											expr: &seqExpr{
-												pos: position{line: 2651, col: 5, offset: 84758},
+												pos: position{line: 2651, col: 5, offset: 84805},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2657, col: 19, offset: 84935},
+														pos:        position{line: 2657, col: 19, offset: 84982},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2657, col: 26, offset: 84942},
+														pos: position{line: 2657, col: 26, offset: 84989},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92411},
+															pos: position{line: 2922, col: 10, offset: 92458},
 															run: (*parser).callonDocumentFragment1110,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92411},
+																pos:        position{line: 2922, col: 10, offset: 92458},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9071,28 +9075,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92809},
+														pos: position{line: 2944, col: 8, offset: 92856},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92582},
+																pos: position{line: 2931, col: 12, offset: 92629},
 																run: (*parser).callonDocumentFragment1113,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92583},
+																	pos: position{line: 2931, col: 13, offset: 92630},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92583},
+																			pos:        position{line: 2931, col: 13, offset: 92630},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92590},
+																			pos:        position{line: 2931, col: 20, offset: 92637},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92599},
+																			pos:        position{line: 2931, col: 29, offset: 92646},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9101,20 +9105,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92759},
+																pos: position{line: 2941, col: 8, offset: 92806},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92760,
+																	line: 2941, col: 9, offset: 92807,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2652, col: 5, offset: 84782},
+														pos:   position{line: 2652, col: 5, offset: 84829},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2652, col: 11, offset: 84788},
+															pos: position{line: 2652, col: 11, offset: 84835},
 															expr: &choiceExpr{
-																pos: position{line: 2652, col: 12, offset: 84789},
+																pos: position{line: 2652, col: 12, offset: 84836},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 690, col: 14, offset: 22173},
@@ -9123,18 +9127,18 @@ var g = &grammar{
 																			pos: position{line: 690, col: 14, offset: 22173},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2939, col: 11, offset: 92745},
+																					pos: position{line: 2939, col: 11, offset: 92792},
 																					expr: &anyMatcher{
-																						line: 2939, col: 13, offset: 92747,
+																						line: 2939, col: 13, offset: 92794,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 690, col: 21, offset: 22180},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92411},
+																						pos: position{line: 2922, col: 10, offset: 92458},
 																						run: (*parser).callonDocumentFragment1128,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92411},
+																							pos:        position{line: 2922, col: 10, offset: 92458},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9143,28 +9147,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92809},
+																					pos: position{line: 2944, col: 8, offset: 92856},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92582},
+																							pos: position{line: 2931, col: 12, offset: 92629},
 																							run: (*parser).callonDocumentFragment1131,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92583},
+																								pos: position{line: 2931, col: 13, offset: 92630},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92583},
+																										pos:        position{line: 2931, col: 13, offset: 92630},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92590},
+																										pos:        position{line: 2931, col: 20, offset: 92637},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92599},
+																										pos:        position{line: 2931, col: 29, offset: 92646},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9173,9 +9177,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92759},
+																							pos: position{line: 2941, col: 8, offset: 92806},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92760,
+																								line: 2941, col: 9, offset: 92807,
 																							},
 																						},
 																					},
@@ -9184,36 +9188,36 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2525, col: 22, offset: 81189},
+																		pos: position{line: 2525, col: 22, offset: 81236},
 																		run: (*parser).callonDocumentFragment1138,
 																		expr: &seqExpr{
-																			pos: position{line: 2525, col: 22, offset: 81189},
+																			pos: position{line: 2525, col: 22, offset: 81236},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2530, col: 31, offset: 81439},
+																					pos:        position{line: 2530, col: 31, offset: 81486},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																				&notExpr{
-																					pos: position{line: 2530, col: 36, offset: 81444},
+																					pos: position{line: 2530, col: 36, offset: 81491},
 																					expr: &litMatcher{
-																						pos:        position{line: 2530, col: 37, offset: 81445},
+																						pos:        position{line: 2530, col: 37, offset: 81492},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2525, col: 49, offset: 81216},
+																					pos:   position{line: 2525, col: 49, offset: 81263},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2868, col: 13, offset: 90937},
+																						pos: position{line: 2868, col: 13, offset: 90984},
 																						run: (*parser).callonDocumentFragment1144,
 																						expr: &zeroOrMoreExpr{
-																							pos: position{line: 2868, col: 13, offset: 90937},
+																							pos: position{line: 2868, col: 13, offset: 90984},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 13, offset: 90937},
+																								pos:        position{line: 2868, col: 13, offset: 90984},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -9223,28 +9227,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92809},
+																					pos: position{line: 2944, col: 8, offset: 92856},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92582},
+																							pos: position{line: 2931, col: 12, offset: 92629},
 																							run: (*parser).callonDocumentFragment1148,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92583},
+																								pos: position{line: 2931, col: 13, offset: 92630},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92583},
+																										pos:        position{line: 2931, col: 13, offset: 92630},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92590},
+																										pos:        position{line: 2931, col: 20, offset: 92637},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92599},
+																										pos:        position{line: 2931, col: 29, offset: 92646},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9253,9 +9257,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92759},
+																							pos: position{line: 2941, col: 8, offset: 92806},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92760,
+																								line: 2941, col: 9, offset: 92807,
 																							},
 																						},
 																					},
@@ -9264,32 +9268,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2664, col: 5, offset: 85054},
+																		pos: position{line: 2664, col: 5, offset: 85101},
 																		run: (*parser).callonDocumentFragment1155,
 																		expr: &seqExpr{
-																			pos: position{line: 2664, col: 5, offset: 85054},
+																			pos: position{line: 2664, col: 5, offset: 85101},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2664, col: 5, offset: 85054},
+																					pos: position{line: 2664, col: 5, offset: 85101},
 																					expr: &choiceExpr{
-																						pos: position{line: 2661, col: 22, offset: 85015},
+																						pos: position{line: 2661, col: 22, offset: 85062},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2657, col: 19, offset: 84935},
+																								pos: position{line: 2657, col: 19, offset: 84982},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2657, col: 19, offset: 84935},
+																										pos:        position{line: 2657, col: 19, offset: 84982},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2657, col: 26, offset: 84942},
+																										pos: position{line: 2657, col: 26, offset: 84989},
 																										expr: &actionExpr{
-																											pos: position{line: 2922, col: 10, offset: 92411},
+																											pos: position{line: 2922, col: 10, offset: 92458},
 																											run: (*parser).callonDocumentFragment1162,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2922, col: 10, offset: 92411},
+																												pos:        position{line: 2922, col: 10, offset: 92458},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9298,28 +9302,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2944, col: 8, offset: 92809},
+																										pos: position{line: 2944, col: 8, offset: 92856},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2931, col: 12, offset: 92582},
+																												pos: position{line: 2931, col: 12, offset: 92629},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &choiceExpr{
-																													pos: position{line: 2931, col: 13, offset: 92583},
+																													pos: position{line: 2931, col: 13, offset: 92630},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2931, col: 13, offset: 92583},
+																															pos:        position{line: 2931, col: 13, offset: 92630},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2931, col: 20, offset: 92590},
+																															pos:        position{line: 2931, col: 20, offset: 92637},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2931, col: 29, offset: 92599},
+																															pos:        position{line: 2931, col: 29, offset: 92646},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9328,9 +9332,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2941, col: 8, offset: 92759},
+																												pos: position{line: 2941, col: 8, offset: 92806},
 																												expr: &anyMatcher{
-																													line: 2941, col: 9, offset: 92760,
+																													line: 2941, col: 9, offset: 92807,
 																												},
 																											},
 																										},
@@ -9338,59 +9342,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92759},
+																								pos: position{line: 2941, col: 8, offset: 92806},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92760,
+																									line: 2941, col: 9, offset: 92807,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2665, col: 5, offset: 85077},
+																					pos:   position{line: 2665, col: 5, offset: 85124},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2666, col: 9, offset: 85095},
+																						pos: position{line: 2666, col: 9, offset: 85142},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2666, col: 10, offset: 85096},
+																								pos: position{line: 2666, col: 10, offset: 85143},
 																								run: (*parser).callonDocumentFragment1176,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2666, col: 10, offset: 85096},
+																									pos:   position{line: 2666, col: 10, offset: 85143},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2666, col: 17, offset: 85103},
+																										pos: position{line: 2666, col: 17, offset: 85150},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2674, col: 21, offset: 85299},
+																												pos: position{line: 2674, col: 21, offset: 85346},
 																												run: (*parser).callonDocumentFragment1179,
 																												expr: &seqExpr{
-																													pos: position{line: 2674, col: 21, offset: 85299},
+																													pos: position{line: 2674, col: 21, offset: 85346},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2674, col: 21, offset: 85299},
+																															pos:   position{line: 2674, col: 21, offset: 85346},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2674, col: 27, offset: 85305},
+																																pos: position{line: 2674, col: 27, offset: 85352},
 																																expr: &actionExpr{
-																																	pos: position{line: 2679, col: 5, offset: 85380},
+																																	pos: position{line: 2679, col: 5, offset: 85427},
 																																	run: (*parser).callonDocumentFragment1183,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2679, col: 5, offset: 85380},
+																																		pos: position{line: 2679, col: 5, offset: 85427},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2679, col: 5, offset: 85380},
+																																				pos:        position{line: 2679, col: 5, offset: 85427},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2679, col: 9, offset: 85384},
+																																				pos: position{line: 2679, col: 9, offset: 85431},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2922, col: 10, offset: 92411},
+																																					pos: position{line: 2922, col: 10, offset: 92458},
 																																					run: (*parser).callonDocumentFragment1187,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2922, col: 10, offset: 92411},
+																																						pos:        position{line: 2922, col: 10, offset: 92458},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9399,21 +9403,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2679, col: 16, offset: 85391},
+																																				pos:   position{line: 2679, col: 16, offset: 85438},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2685, col: 5, offset: 85591},
+																																					pos: position{line: 2685, col: 5, offset: 85638},
 																																					run: (*parser).callonDocumentFragment1190,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2685, col: 5, offset: 85591},
+																																						pos:   position{line: 2685, col: 5, offset: 85638},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2685, col: 14, offset: 85600},
+																																							pos: position{line: 2685, col: 14, offset: 85647},
 																																							run: (*parser).callonDocumentFragment1192,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2685, col: 14, offset: 85600},
+																																								pos: position{line: 2685, col: 14, offset: 85647},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2685, col: 14, offset: 85600},
+																																									pos:        position{line: 2685, col: 14, offset: 85647},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9430,28 +9434,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2944, col: 8, offset: 92809},
+																															pos: position{line: 2944, col: 8, offset: 92856},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2931, col: 12, offset: 92582},
+																																	pos: position{line: 2931, col: 12, offset: 92629},
 																																	run: (*parser).callonDocumentFragment1196,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2931, col: 13, offset: 92583},
+																																		pos: position{line: 2931, col: 13, offset: 92630},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2931, col: 13, offset: 92583},
+																																				pos:        position{line: 2931, col: 13, offset: 92630},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2931, col: 20, offset: 92590},
+																																				pos:        position{line: 2931, col: 20, offset: 92637},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2931, col: 29, offset: 92599},
+																																				pos:        position{line: 2931, col: 29, offset: 92646},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9460,9 +9464,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2941, col: 8, offset: 92759},
+																																	pos: position{line: 2941, col: 8, offset: 92806},
 																																	expr: &anyMatcher{
-																																		line: 2941, col: 9, offset: 92760,
+																																		line: 2941, col: 9, offset: 92807,
 																																	},
 																																},
 																															},
@@ -9471,40 +9475,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2691, col: 24, offset: 85736},
+																												pos: position{line: 2691, col: 24, offset: 85783},
 																												run: (*parser).callonDocumentFragment1203,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2691, col: 24, offset: 85736},
+																													pos:   position{line: 2691, col: 24, offset: 85783},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2691, col: 30, offset: 85742},
+																														pos: position{line: 2691, col: 30, offset: 85789},
 																														expr: &actionExpr{
-																															pos: position{line: 2696, col: 5, offset: 85818},
+																															pos: position{line: 2696, col: 5, offset: 85865},
 																															run: (*parser).callonDocumentFragment1206,
 																															expr: &seqExpr{
-																																pos: position{line: 2696, col: 5, offset: 85818},
+																																pos: position{line: 2696, col: 5, offset: 85865},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2696, col: 5, offset: 85818},
+																																		pos: position{line: 2696, col: 5, offset: 85865},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2661, col: 22, offset: 85015},
+																																			pos: position{line: 2661, col: 22, offset: 85062},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2657, col: 19, offset: 84935},
+																																					pos: position{line: 2657, col: 19, offset: 84982},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2657, col: 19, offset: 84935},
+																																							pos:        position{line: 2657, col: 19, offset: 84982},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2657, col: 26, offset: 84942},
+																																							pos: position{line: 2657, col: 26, offset: 84989},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2922, col: 10, offset: 92411},
+																																								pos: position{line: 2922, col: 10, offset: 92458},
 																																								run: (*parser).callonDocumentFragment1213,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2922, col: 10, offset: 92411},
+																																									pos:        position{line: 2922, col: 10, offset: 92458},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9513,28 +9517,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2944, col: 8, offset: 92809},
+																																							pos: position{line: 2944, col: 8, offset: 92856},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2931, col: 12, offset: 92582},
+																																									pos: position{line: 2931, col: 12, offset: 92629},
 																																									run: (*parser).callonDocumentFragment1216,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2931, col: 13, offset: 92583},
+																																										pos: position{line: 2931, col: 13, offset: 92630},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2931, col: 13, offset: 92583},
+																																												pos:        position{line: 2931, col: 13, offset: 92630},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2931, col: 20, offset: 92590},
+																																												pos:        position{line: 2931, col: 20, offset: 92637},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2931, col: 29, offset: 92599},
+																																												pos:        position{line: 2931, col: 29, offset: 92646},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9543,9 +9547,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2941, col: 8, offset: 92759},
+																																									pos: position{line: 2941, col: 8, offset: 92806},
 																																									expr: &anyMatcher{
-																																										line: 2941, col: 9, offset: 92760,
+																																										line: 2941, col: 9, offset: 92807,
 																																									},
 																																								},
 																																							},
@@ -9553,16 +9557,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2941, col: 8, offset: 92759},
+																																					pos: position{line: 2941, col: 8, offset: 92806},
 																																					expr: &anyMatcher{
-																																						line: 2941, col: 9, offset: 92760,
+																																						line: 2941, col: 9, offset: 92807,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2697, col: 5, offset: 85841},
+																																		pos: position{line: 2697, col: 5, offset: 85888},
 																																		expr: &actionExpr{
 																																			pos: position{line: 690, col: 14, offset: 22173},
 																																			run: (*parser).callonDocumentFragment1226,
@@ -9570,18 +9574,18 @@ var g = &grammar{
 																																				pos: position{line: 690, col: 14, offset: 22173},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2939, col: 11, offset: 92745},
+																																						pos: position{line: 2939, col: 11, offset: 92792},
 																																						expr: &anyMatcher{
-																																							line: 2939, col: 13, offset: 92747,
+																																							line: 2939, col: 13, offset: 92794,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 690, col: 21, offset: 22180},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2922, col: 10, offset: 92411},
+																																							pos: position{line: 2922, col: 10, offset: 92458},
 																																							run: (*parser).callonDocumentFragment1231,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2922, col: 10, offset: 92411},
+																																								pos:        position{line: 2922, col: 10, offset: 92458},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9590,28 +9594,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2944, col: 8, offset: 92809},
+																																						pos: position{line: 2944, col: 8, offset: 92856},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2931, col: 12, offset: 92582},
+																																								pos: position{line: 2931, col: 12, offset: 92629},
 																																								run: (*parser).callonDocumentFragment1234,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2931, col: 13, offset: 92583},
+																																									pos: position{line: 2931, col: 13, offset: 92630},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2931, col: 13, offset: 92583},
+																																											pos:        position{line: 2931, col: 13, offset: 92630},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2931, col: 20, offset: 92590},
+																																											pos:        position{line: 2931, col: 20, offset: 92637},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2931, col: 29, offset: 92599},
+																																											pos:        position{line: 2931, col: 29, offset: 92646},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9620,9 +9624,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2941, col: 8, offset: 92759},
+																																								pos: position{line: 2941, col: 8, offset: 92806},
 																																								expr: &anyMatcher{
-																																									line: 2941, col: 9, offset: 92760,
+																																									line: 2941, col: 9, offset: 92807,
 																																								},
 																																							},
 																																						},
@@ -9632,17 +9636,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2698, col: 5, offset: 85856},
+																																		pos:   position{line: 2698, col: 5, offset: 85903},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2698, col: 12, offset: 85863},
+																																			pos: position{line: 2698, col: 12, offset: 85910},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2722, col: 20, offset: 86486},
+																																				pos: position{line: 2722, col: 20, offset: 86533},
 																																				run: (*parser).callonDocumentFragment1243,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2722, col: 20, offset: 86486},
+																																					pos: position{line: 2722, col: 20, offset: 86533},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2722, col: 20, offset: 86486},
+																																						pos:        position{line: 2722, col: 20, offset: 86533},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9653,18 +9657,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2698, col: 31, offset: 85882},
+																																		pos:        position{line: 2698, col: 31, offset: 85929},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2698, col: 35, offset: 85886},
+																																		pos: position{line: 2698, col: 35, offset: 85933},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2922, col: 10, offset: 92411},
+																																			pos: position{line: 2922, col: 10, offset: 92458},
 																																			run: (*parser).callonDocumentFragment1248,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2922, col: 10, offset: 92411},
+																																				pos:        position{line: 2922, col: 10, offset: 92458},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9673,27 +9677,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2698, col: 42, offset: 85893},
+																																		pos: position{line: 2698, col: 42, offset: 85940},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2931, col: 12, offset: 92582},
+																																			pos: position{line: 2931, col: 12, offset: 92629},
 																																			run: (*parser).callonDocumentFragment1251,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2931, col: 13, offset: 92583},
+																																				pos: position{line: 2931, col: 13, offset: 92630},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2931, col: 13, offset: 92583},
+																																						pos:        position{line: 2931, col: 13, offset: 92630},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2931, col: 20, offset: 92590},
+																																						pos:        position{line: 2931, col: 20, offset: 92637},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2931, col: 29, offset: 92599},
+																																						pos:        position{line: 2931, col: 29, offset: 92646},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9703,57 +9707,57 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2698, col: 51, offset: 85902},
+																																		pos:   position{line: 2698, col: 51, offset: 85949},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2704, col: 5, offset: 86061},
+																																			pos: position{line: 2704, col: 5, offset: 86108},
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2705, col: 9, offset: 86071},
+																																				pos: position{line: 2705, col: 9, offset: 86118},
 																																				alternatives: []interface{}{
 																																					&actionExpr{
-																																						pos: position{line: 2705, col: 9, offset: 86071},
+																																						pos: position{line: 2705, col: 9, offset: 86118},
 																																						run: (*parser).callonDocumentFragment1259,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2705, col: 9, offset: 86071},
+																																							pos: position{line: 2705, col: 9, offset: 86118},
 																																							exprs: []interface{}{
 																																								&andCodeExpr{
-																																									pos: position{line: 2705, col: 9, offset: 86071},
+																																									pos: position{line: 2705, col: 9, offset: 86118},
 																																									run: (*parser).callonDocumentFragment1261,
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2708, col: 9, offset: 86140},
+																																									pos:   position{line: 2708, col: 9, offset: 86187},
 																																									label: "comment",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2525, col: 22, offset: 81189},
+																																										pos: position{line: 2525, col: 22, offset: 81236},
 																																										run: (*parser).callonDocumentFragment1263,
 																																										expr: &seqExpr{
-																																											pos: position{line: 2525, col: 22, offset: 81189},
+																																											pos: position{line: 2525, col: 22, offset: 81236},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2530, col: 31, offset: 81439},
+																																													pos:        position{line: 2530, col: 31, offset: 81486},
 																																													val:        "//",
 																																													ignoreCase: false,
 																																													want:       "\"//\"",
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2530, col: 36, offset: 81444},
+																																													pos: position{line: 2530, col: 36, offset: 81491},
 																																													expr: &litMatcher{
-																																														pos:        position{line: 2530, col: 37, offset: 81445},
+																																														pos:        position{line: 2530, col: 37, offset: 81492},
 																																														val:        "/",
 																																														ignoreCase: false,
 																																														want:       "\"/\"",
 																																													},
 																																												},
 																																												&labeledExpr{
-																																													pos:   position{line: 2525, col: 49, offset: 81216},
+																																													pos:   position{line: 2525, col: 49, offset: 81263},
 																																													label: "content",
 																																													expr: &actionExpr{
-																																														pos: position{line: 2868, col: 13, offset: 90937},
+																																														pos: position{line: 2868, col: 13, offset: 90984},
 																																														run: (*parser).callonDocumentFragment1269,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2868, col: 13, offset: 90937},
+																																															pos: position{line: 2868, col: 13, offset: 90984},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2868, col: 13, offset: 90937},
+																																																pos:        position{line: 2868, col: 13, offset: 90984},
 																																																val:        "[^\\r\\n]",
 																																																chars:      []rune{'\r', '\n'},
 																																																ignoreCase: false,
@@ -9763,28 +9767,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2944, col: 8, offset: 92809},
+																																													pos: position{line: 2944, col: 8, offset: 92856},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2931, col: 12, offset: 92582},
+																																															pos: position{line: 2931, col: 12, offset: 92629},
 																																															run: (*parser).callonDocumentFragment1273,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2931, col: 13, offset: 92583},
+																																																pos: position{line: 2931, col: 13, offset: 92630},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 13, offset: 92583},
+																																																		pos:        position{line: 2931, col: 13, offset: 92630},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 20, offset: 92590},
+																																																		pos:        position{line: 2931, col: 20, offset: 92637},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 29, offset: 92599},
+																																																		pos:        position{line: 2931, col: 29, offset: 92646},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -9793,9 +9797,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2941, col: 8, offset: 92759},
+																																															pos: position{line: 2941, col: 8, offset: 92806},
 																																															expr: &anyMatcher{
-																																																line: 2941, col: 9, offset: 92760,
+																																																line: 2941, col: 9, offset: 92807,
 																																															},
 																																														},
 																																													},
@@ -9808,32 +9812,32 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&actionExpr{
-																																						pos: position{line: 2712, col: 9, offset: 86230},
+																																						pos: position{line: 2712, col: 9, offset: 86277},
 																																						run: (*parser).callonDocumentFragment1280,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2712, col: 9, offset: 86230},
+																																							pos: position{line: 2712, col: 9, offset: 86277},
 																																							exprs: []interface{}{
 																																								&notExpr{
-																																									pos: position{line: 2712, col: 9, offset: 86230},
+																																									pos: position{line: 2712, col: 9, offset: 86277},
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2661, col: 22, offset: 85015},
+																																										pos: position{line: 2661, col: 22, offset: 85062},
 																																										alternatives: []interface{}{
 																																											&seqExpr{
-																																												pos: position{line: 2657, col: 19, offset: 84935},
+																																												pos: position{line: 2657, col: 19, offset: 84982},
 																																												exprs: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2657, col: 19, offset: 84935},
+																																														pos:        position{line: 2657, col: 19, offset: 84982},
 																																														val:        "|===",
 																																														ignoreCase: false,
 																																														want:       "\"|===\"",
 																																													},
 																																													&zeroOrMoreExpr{
-																																														pos: position{line: 2657, col: 26, offset: 84942},
+																																														pos: position{line: 2657, col: 26, offset: 84989},
 																																														expr: &actionExpr{
-																																															pos: position{line: 2922, col: 10, offset: 92411},
+																																															pos: position{line: 2922, col: 10, offset: 92458},
 																																															run: (*parser).callonDocumentFragment1287,
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2922, col: 10, offset: 92411},
+																																																pos:        position{line: 2922, col: 10, offset: 92458},
 																																																val:        "[\\t ]",
 																																																chars:      []rune{'\t', ' '},
 																																																ignoreCase: false,
@@ -9842,28 +9846,28 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&choiceExpr{
-																																														pos: position{line: 2944, col: 8, offset: 92809},
+																																														pos: position{line: 2944, col: 8, offset: 92856},
 																																														alternatives: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2931, col: 12, offset: 92582},
+																																																pos: position{line: 2931, col: 12, offset: 92629},
 																																																run: (*parser).callonDocumentFragment1290,
 																																																expr: &choiceExpr{
-																																																	pos: position{line: 2931, col: 13, offset: 92583},
+																																																	pos: position{line: 2931, col: 13, offset: 92630},
 																																																	alternatives: []interface{}{
 																																																		&litMatcher{
-																																																			pos:        position{line: 2931, col: 13, offset: 92583},
+																																																			pos:        position{line: 2931, col: 13, offset: 92630},
 																																																			val:        "\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2931, col: 20, offset: 92590},
+																																																			pos:        position{line: 2931, col: 20, offset: 92637},
 																																																			val:        "\r\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2931, col: 29, offset: 92599},
+																																																			pos:        position{line: 2931, col: 29, offset: 92646},
 																																																			val:        "\r",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\"",
@@ -9872,9 +9876,9 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&notExpr{
-																																																pos: position{line: 2941, col: 8, offset: 92759},
+																																																pos: position{line: 2941, col: 8, offset: 92806},
 																																																expr: &anyMatcher{
-																																																	line: 2941, col: 9, offset: 92760,
+																																																	line: 2941, col: 9, offset: 92807,
 																																																},
 																																															},
 																																														},
@@ -9882,16 +9886,16 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2941, col: 8, offset: 92759},
+																																												pos: position{line: 2941, col: 8, offset: 92806},
 																																												expr: &anyMatcher{
-																																													line: 2941, col: 9, offset: 92760,
+																																													line: 2941, col: 9, offset: 92807,
 																																												},
 																																											},
 																																										},
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2713, col: 9, offset: 86257},
+																																									pos: position{line: 2713, col: 9, offset: 86304},
 																																									expr: &actionExpr{
 																																										pos: position{line: 690, col: 14, offset: 22173},
 																																										run: (*parser).callonDocumentFragment1300,
@@ -9899,18 +9903,18 @@ var g = &grammar{
 																																											pos: position{line: 690, col: 14, offset: 22173},
 																																											exprs: []interface{}{
 																																												&andExpr{
-																																													pos: position{line: 2939, col: 11, offset: 92745},
+																																													pos: position{line: 2939, col: 11, offset: 92792},
 																																													expr: &anyMatcher{
-																																														line: 2939, col: 13, offset: 92747,
+																																														line: 2939, col: 13, offset: 92794,
 																																													},
 																																												},
 																																												&zeroOrMoreExpr{
 																																													pos: position{line: 690, col: 21, offset: 22180},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2922, col: 10, offset: 92411},
+																																														pos: position{line: 2922, col: 10, offset: 92458},
 																																														run: (*parser).callonDocumentFragment1305,
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2922, col: 10, offset: 92411},
+																																															pos:        position{line: 2922, col: 10, offset: 92458},
 																																															val:        "[\\t ]",
 																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
@@ -9919,28 +9923,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2944, col: 8, offset: 92809},
+																																													pos: position{line: 2944, col: 8, offset: 92856},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2931, col: 12, offset: 92582},
+																																															pos: position{line: 2931, col: 12, offset: 92629},
 																																															run: (*parser).callonDocumentFragment1308,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2931, col: 13, offset: 92583},
+																																																pos: position{line: 2931, col: 13, offset: 92630},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 13, offset: 92583},
+																																																		pos:        position{line: 2931, col: 13, offset: 92630},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 20, offset: 92590},
+																																																		pos:        position{line: 2931, col: 20, offset: 92637},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 29, offset: 92599},
+																																																		pos:        position{line: 2931, col: 29, offset: 92646},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -9949,9 +9953,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2941, col: 8, offset: 92759},
+																																															pos: position{line: 2941, col: 8, offset: 92806},
 																																															expr: &anyMatcher{
-																																																line: 2941, col: 9, offset: 92760,
+																																																line: 2941, col: 9, offset: 92807,
 																																															},
 																																														},
 																																													},
@@ -9961,22 +9965,22 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2714, col: 9, offset: 86276},
+																																									pos: position{line: 2714, col: 9, offset: 86323},
 																																									expr: &seqExpr{
-																																										pos: position{line: 2714, col: 11, offset: 86278},
+																																										pos: position{line: 2714, col: 11, offset: 86325},
 																																										exprs: []interface{}{
 																																											&labeledExpr{
-																																												pos:   position{line: 2714, col: 11, offset: 86278},
+																																												pos:   position{line: 2714, col: 11, offset: 86325},
 																																												label: "format",
 																																												expr: &zeroOrOneExpr{
-																																													pos: position{line: 2714, col: 18, offset: 86285},
+																																													pos: position{line: 2714, col: 18, offset: 86332},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2722, col: 20, offset: 86486},
+																																														pos: position{line: 2722, col: 20, offset: 86533},
 																																														run: (*parser).callonDocumentFragment1319,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2722, col: 20, offset: 86486},
+																																															pos: position{line: 2722, col: 20, offset: 86533},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2722, col: 20, offset: 86486},
+																																																pos:        position{line: 2722, col: 20, offset: 86533},
 																																																val:        "[^ |\\r\\n]",
 																																																chars:      []rune{' ', '|', '\r', '\n'},
 																																																ignoreCase: false,
@@ -9987,7 +9991,7 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2714, col: 37, offset: 86304},
+																																												pos:        position{line: 2714, col: 37, offset: 86351},
 																																												val:        "|",
 																																												ignoreCase: false,
 																																												want:       "\"|\"",
@@ -9996,15 +10000,15 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2715, col: 9, offset: 86317},
+																																									pos:   position{line: 2715, col: 9, offset: 86364},
 																																									label: "content",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2715, col: 18, offset: 86326},
+																																										pos: position{line: 2715, col: 18, offset: 86373},
 																																										run: (*parser).callonDocumentFragment1324,
 																																										expr: &zeroOrMoreExpr{
-																																											pos: position{line: 2715, col: 18, offset: 86326},
+																																											pos: position{line: 2715, col: 18, offset: 86373},
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2715, col: 18, offset: 86326},
+																																												pos:        position{line: 2715, col: 18, offset: 86373},
 																																												val:        "[^|\\r\\n]",
 																																												chars:      []rune{'|', '\r', '\n'},
 																																												ignoreCase: false,
@@ -10014,30 +10018,30 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&zeroOrOneExpr{
-																																									pos: position{line: 2717, col: 12, offset: 86388},
+																																									pos: position{line: 2717, col: 12, offset: 86435},
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2944, col: 8, offset: 92809},
+																																										pos: position{line: 2944, col: 8, offset: 92856},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2931, col: 12, offset: 92582},
+																																												pos: position{line: 2931, col: 12, offset: 92629},
 																																												run: (*parser).callonDocumentFragment1329,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2931, col: 13, offset: 92583},
+																																													pos: position{line: 2931, col: 13, offset: 92630},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2931, col: 13, offset: 92583},
+																																															pos:        position{line: 2931, col: 13, offset: 92630},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2931, col: 20, offset: 92590},
+																																															pos:        position{line: 2931, col: 20, offset: 92637},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2931, col: 29, offset: 92599},
+																																															pos:        position{line: 2931, col: 29, offset: 92646},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -10046,9 +10050,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2941, col: 8, offset: 92759},
+																																												pos: position{line: 2941, col: 8, offset: 92806},
 																																												expr: &anyMatcher{
-																																													line: 2941, col: 9, offset: 92760,
+																																													line: 2941, col: 9, offset: 92807,
 																																												},
 																																											},
 																																										},
@@ -10078,18 +10082,18 @@ var g = &grammar{
 																									pos: position{line: 690, col: 14, offset: 22173},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2939, col: 11, offset: 92745},
+																											pos: position{line: 2939, col: 11, offset: 92792},
 																											expr: &anyMatcher{
-																												line: 2939, col: 13, offset: 92747,
+																												line: 2939, col: 13, offset: 92794,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 690, col: 21, offset: 22180},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92411},
+																												pos: position{line: 2922, col: 10, offset: 92458},
 																												run: (*parser).callonDocumentFragment1341,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92411},
+																													pos:        position{line: 2922, col: 10, offset: 92458},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10098,28 +10102,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92809},
+																											pos: position{line: 2944, col: 8, offset: 92856},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92582},
+																													pos: position{line: 2931, col: 12, offset: 92629},
 																													run: (*parser).callonDocumentFragment1344,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92583},
+																														pos: position{line: 2931, col: 13, offset: 92630},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92583},
+																																pos:        position{line: 2931, col: 13, offset: 92630},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92590},
+																																pos:        position{line: 2931, col: 20, offset: 92637},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92599},
+																																pos:        position{line: 2931, col: 29, offset: 92646},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10128,9 +10132,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92759},
+																													pos: position{line: 2941, col: 8, offset: 92806},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92760,
+																														line: 2941, col: 9, offset: 92807,
 																													},
 																												},
 																											},
@@ -10149,24 +10153,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2661, col: 22, offset: 85015},
+														pos: position{line: 2661, col: 22, offset: 85062},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2657, col: 19, offset: 84935},
+																pos: position{line: 2657, col: 19, offset: 84982},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2657, col: 19, offset: 84935},
+																		pos:        position{line: 2657, col: 19, offset: 84982},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2657, col: 26, offset: 84942},
+																		pos: position{line: 2657, col: 26, offset: 84989},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92411},
+																			pos: position{line: 2922, col: 10, offset: 92458},
 																			run: (*parser).callonDocumentFragment1355,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92411},
+																				pos:        position{line: 2922, col: 10, offset: 92458},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10175,28 +10179,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92809},
+																		pos: position{line: 2944, col: 8, offset: 92856},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
+																				pos: position{line: 2931, col: 12, offset: 92629},
 																				run: (*parser).callonDocumentFragment1358,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10205,9 +10209,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92759},
+																				pos: position{line: 2941, col: 8, offset: 92806},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92760,
+																					line: 2941, col: 9, offset: 92807,
 																				},
 																			},
 																		},
@@ -10215,9 +10219,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92759},
+																pos: position{line: 2941, col: 8, offset: 92806},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92760,
+																	line: 2941, col: 9, offset: 92807,
 																},
 															},
 														},
@@ -10226,36 +10230,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2525, col: 22, offset: 81189},
+											pos: position{line: 2525, col: 22, offset: 81236},
 											run: (*parser).callonDocumentFragment1367,
 											expr: &seqExpr{
-												pos: position{line: 2525, col: 22, offset: 81189},
+												pos: position{line: 2525, col: 22, offset: 81236},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2530, col: 31, offset: 81439},
+														pos:        position{line: 2530, col: 31, offset: 81486},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2530, col: 36, offset: 81444},
+														pos: position{line: 2530, col: 36, offset: 81491},
 														expr: &litMatcher{
-															pos:        position{line: 2530, col: 37, offset: 81445},
+															pos:        position{line: 2530, col: 37, offset: 81492},
 															val:        "/",
 															ignoreCase: false,
 															want:       "\"/\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2525, col: 49, offset: 81216},
+														pos:   position{line: 2525, col: 49, offset: 81263},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2868, col: 13, offset: 90937},
+															pos: position{line: 2868, col: 13, offset: 90984},
 															run: (*parser).callonDocumentFragment1373,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2868, col: 13, offset: 90937},
+																pos: position{line: 2868, col: 13, offset: 90984},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2868, col: 13, offset: 90937},
+																	pos:        position{line: 2868, col: 13, offset: 90984},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10265,28 +10269,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92809},
+														pos: position{line: 2944, col: 8, offset: 92856},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92582},
+																pos: position{line: 2931, col: 12, offset: 92629},
 																run: (*parser).callonDocumentFragment1377,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92583},
+																	pos: position{line: 2931, col: 13, offset: 92630},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92583},
+																			pos:        position{line: 2931, col: 13, offset: 92630},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92590},
+																			pos:        position{line: 2931, col: 20, offset: 92637},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92599},
+																			pos:        position{line: 2931, col: 29, offset: 92646},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10295,9 +10299,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92759},
+																pos: position{line: 2941, col: 8, offset: 92806},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92760,
+																	line: 2941, col: 9, offset: 92807,
 																},
 															},
 														},
@@ -10306,37 +10310,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1235, col: 5, offset: 38550},
+											pos: position{line: 1235, col: 5, offset: 38597},
 											run: (*parser).callonDocumentFragment1384,
 											expr: &seqExpr{
-												pos: position{line: 1235, col: 5, offset: 38550},
+												pos: position{line: 1235, col: 5, offset: 38597},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1235, col: 5, offset: 38550},
+														pos: position{line: 1235, col: 5, offset: 38597},
 														run: (*parser).callonDocumentFragment1386,
 													},
 													&labeledExpr{
-														pos:   position{line: 1238, col: 5, offset: 38608},
+														pos:   position{line: 1238, col: 5, offset: 38655},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1243, col: 20, offset: 38703},
+															pos: position{line: 1243, col: 20, offset: 38750},
 															run: (*parser).callonDocumentFragment1388,
 															expr: &seqExpr{
-																pos: position{line: 1243, col: 20, offset: 38703},
+																pos: position{line: 1243, col: 20, offset: 38750},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1247, col: 30, offset: 38875},
+																		pos:        position{line: 1247, col: 30, offset: 38922},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1247, col: 36, offset: 38881},
+																		pos: position{line: 1247, col: 36, offset: 38928},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92411},
+																			pos: position{line: 2922, col: 10, offset: 92458},
 																			run: (*parser).callonDocumentFragment1392,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92411},
+																				pos:        position{line: 2922, col: 10, offset: 92458},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10345,28 +10349,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92809},
+																		pos: position{line: 2944, col: 8, offset: 92856},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
+																				pos: position{line: 2931, col: 12, offset: 92629},
 																				run: (*parser).callonDocumentFragment1395,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10375,46 +10379,46 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92759},
+																				pos: position{line: 2941, col: 8, offset: 92806},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92760,
+																					line: 2941, col: 9, offset: 92807,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1243, col: 45, offset: 38728},
+																		pos:   position{line: 1243, col: 45, offset: 38775},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1243, col: 53, offset: 38736},
+																			pos: position{line: 1243, col: 53, offset: 38783},
 																			expr: &actionExpr{
-																				pos: position{line: 1249, col: 27, offset: 38919},
+																				pos: position{line: 1249, col: 27, offset: 38966},
 																				run: (*parser).callonDocumentFragment1404,
 																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1249, col: 27, offset: 38919},
+																					pos: position{line: 1249, col: 27, offset: 38966},
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1249, col: 28, offset: 38920},
+																						pos: position{line: 1249, col: 28, offset: 38967},
 																						expr: &seqExpr{
-																							pos: position{line: 1249, col: 29, offset: 38921},
+																							pos: position{line: 1249, col: 29, offset: 38968},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 1249, col: 29, offset: 38921},
+																									pos: position{line: 1249, col: 29, offset: 38968},
 																									expr: &seqExpr{
-																										pos: position{line: 1247, col: 30, offset: 38875},
+																										pos: position{line: 1247, col: 30, offset: 38922},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 1247, col: 30, offset: 38875},
+																												pos:        position{line: 1247, col: 30, offset: 38922},
 																												val:        "---",
 																												ignoreCase: false,
 																												want:       "\"---\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 1247, col: 36, offset: 38881},
+																												pos: position{line: 1247, col: 36, offset: 38928},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92411},
+																													pos: position{line: 2922, col: 10, offset: 92458},
 																													run: (*parser).callonDocumentFragment1412,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92411},
+																														pos:        position{line: 2922, col: 10, offset: 92458},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10423,28 +10427,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92809},
+																												pos: position{line: 2944, col: 8, offset: 92856},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92582},
+																														pos: position{line: 2931, col: 12, offset: 92629},
 																														run: (*parser).callonDocumentFragment1415,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92583},
+																															pos: position{line: 2931, col: 13, offset: 92630},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92583},
+																																	pos:        position{line: 2931, col: 13, offset: 92630},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92590},
+																																	pos:        position{line: 2931, col: 20, offset: 92637},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92599},
+																																	pos:        position{line: 2931, col: 29, offset: 92646},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10453,9 +10457,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92759},
+																														pos: position{line: 2941, col: 8, offset: 92806},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92760,
+																															line: 2941, col: 9, offset: 92807,
 																														},
 																													},
 																												},
@@ -10464,7 +10468,7 @@ var g = &grammar{
 																									},
 																								},
 																								&anyMatcher{
-																									line: 1249, col: 55, offset: 38947,
+																									line: 1249, col: 55, offset: 38994,
 																								},
 																							},
 																						},
@@ -10474,18 +10478,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1247, col: 30, offset: 38875},
+																		pos:        position{line: 1247, col: 30, offset: 38922},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1247, col: 36, offset: 38881},
+																		pos: position{line: 1247, col: 36, offset: 38928},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92411},
+																			pos: position{line: 2922, col: 10, offset: 92458},
 																			run: (*parser).callonDocumentFragment1425,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92411},
+																				pos:        position{line: 2922, col: 10, offset: 92458},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10494,28 +10498,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92809},
+																		pos: position{line: 2944, col: 8, offset: 92856},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
+																				pos: position{line: 2931, col: 12, offset: 92629},
 																				run: (*parser).callonDocumentFragment1428,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10524,9 +10528,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92759},
+																				pos: position{line: 2941, col: 8, offset: 92806},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92760,
+																					line: 2941, col: 9, offset: 92807,
 																				},
 																			},
 																		},
@@ -10611,6 +10615,10 @@ var g = &grammar{
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
+													&andCodeExpr{
+														pos: position{line: 1211, col: 123, offset: 37756},
+														run: (*parser).callonDelimitedBlockElements15,
+													},
 												},
 											},
 										},
@@ -10623,9 +10631,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92759},
+							pos: position{line: 2941, col: 8, offset: 92806},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92760,
+								line: 2941, col: 9, offset: 92807,
 							},
 						},
 					},
@@ -10697,12 +10705,12 @@ var g = &grammar{
 										pos: position{line: 307, col: 9, offset: 9333},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2926, col: 11, offset: 92472},
+												pos: position{line: 2926, col: 11, offset: 92519},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2926, col: 11, offset: 92472},
+													pos: position{line: 2926, col: 11, offset: 92519},
 													expr: &charClassMatcher{
-														pos:        position{line: 2926, col: 11, offset: 92472},
+														pos:        position{line: 2926, col: 11, offset: 92519},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10724,28 +10732,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92809},
+							pos: position{line: 2944, col: 8, offset: 92856},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92582},
+									pos: position{line: 2931, col: 12, offset: 92629},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92583},
+										pos: position{line: 2931, col: 13, offset: 92630},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92583},
+												pos:        position{line: 2931, col: 13, offset: 92630},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92590},
+												pos:        position{line: 2931, col: 20, offset: 92637},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92599},
+												pos:        position{line: 2931, col: 29, offset: 92646},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10754,9 +10762,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92759},
+									pos: position{line: 2941, col: 8, offset: 92806},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92760,
+										line: 2941, col: 9, offset: 92807,
 									},
 								},
 							},
@@ -10800,25 +10808,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2931, col: 12, offset: 92582},
+												pos: position{line: 2931, col: 12, offset: 92629},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2931, col: 13, offset: 92583},
+													pos: position{line: 2931, col: 13, offset: 92630},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2931, col: 13, offset: 92583},
+															pos:        position{line: 2931, col: 13, offset: 92630},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2931, col: 20, offset: 92590},
+															pos:        position{line: 2931, col: 20, offset: 92637},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2931, col: 29, offset: 92599},
+															pos:        position{line: 2931, col: 29, offset: 92646},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10829,10 +10837,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 328, col: 9, offset: 10035},
 												expr: &actionExpr{
-													pos: position{line: 2922, col: 10, offset: 92411},
+													pos: position{line: 2922, col: 10, offset: 92458},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2922, col: 10, offset: 92411},
+														pos:        position{line: 2922, col: 10, offset: 92458},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10902,10 +10910,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 346, col: 13, offset: 10580},
 										expr: &actionExpr{
-											pos: position{line: 2922, col: 10, offset: 92411},
+											pos: position{line: 2922, col: 10, offset: 92458},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2922, col: 10, offset: 92411},
+												pos:        position{line: 2922, col: 10, offset: 92458},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10914,28 +10922,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2944, col: 8, offset: 92809},
+										pos: position{line: 2944, col: 8, offset: 92856},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2931, col: 12, offset: 92582},
+												pos: position{line: 2931, col: 12, offset: 92629},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2931, col: 13, offset: 92583},
+													pos: position{line: 2931, col: 13, offset: 92630},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2931, col: 13, offset: 92583},
+															pos:        position{line: 2931, col: 13, offset: 92630},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2931, col: 20, offset: 92590},
+															pos:        position{line: 2931, col: 20, offset: 92637},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2931, col: 29, offset: 92599},
+															pos:        position{line: 2931, col: 29, offset: 92646},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10944,9 +10952,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2941, col: 8, offset: 92759},
+												pos: position{line: 2941, col: 8, offset: 92806},
 												expr: &anyMatcher{
-													line: 2941, col: 9, offset: 92760,
+													line: 2941, col: 9, offset: 92807,
 												},
 											},
 										},
@@ -10979,23 +10987,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 5, offset: 80735},
+										pos: position{line: 2512, col: 5, offset: 80782},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 5, offset: 80735},
+											pos: position{line: 2512, col: 5, offset: 80782},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 80735},
+													pos: position{line: 2512, col: 5, offset: 80782},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 5, offset: 80811},
+													pos:   position{line: 2515, col: 5, offset: 80858},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2516, col: 9, offset: 80829},
+														pos: position{line: 2516, col: 9, offset: 80876},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2516, col: 10, offset: 80830},
+															pos:        position{line: 2516, col: 10, offset: 80877},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -11007,10 +11015,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2922, col: 10, offset: 92411},
+										pos: position{line: 2922, col: 10, offset: 92458},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2922, col: 10, offset: 92411},
+											pos:        position{line: 2922, col: 10, offset: 92458},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11469,18 +11477,22 @@ var g = &grammar{
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
+																								&andCodeExpr{
+																									pos: position{line: 1211, col: 123, offset: 37756},
+																									run: (*parser).callonBlockAttributes27,
+																								},
 																							},
 																						},
 																					},
 																					&actionExpr{
 																						pos: position{line: 649, col: 5, offset: 20791},
-																						run: (*parser).callonBlockAttributes27,
+																						run: (*parser).callonBlockAttributes28,
 																						expr: &seqExpr{
 																							pos: position{line: 649, col: 5, offset: 20791},
 																							exprs: []interface{}{
 																								&andCodeExpr{
 																									pos: position{line: 649, col: 5, offset: 20791},
-																									run: (*parser).callonBlockAttributes29,
+																									run: (*parser).callonBlockAttributes30,
 																								},
 																								&labeledExpr{
 																									pos:   position{line: 652, col: 5, offset: 20863},
@@ -11490,7 +11502,7 @@ var g = &grammar{
 																										alternatives: []interface{}{
 																											&actionExpr{
 																												pos: position{line: 658, col: 5, offset: 21001},
-																												run: (*parser).callonBlockAttributes32,
+																												run: (*parser).callonBlockAttributes33,
 																												expr: &seqExpr{
 																													pos: position{line: 658, col: 5, offset: 21001},
 																													exprs: []interface{}{
@@ -11505,7 +11517,7 @@ var g = &grammar{
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 320, col: 18, offset: 9837},
-																																run: (*parser).callonBlockAttributes36,
+																																run: (*parser).callonBlockAttributes37,
 																																expr: &seqExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
 																																	exprs: []interface{}{
@@ -11543,7 +11555,7 @@ var g = &grammar{
 																											},
 																											&actionExpr{
 																												pos: position{line: 665, col: 5, offset: 21269},
-																												run: (*parser).callonBlockAttributes42,
+																												run: (*parser).callonBlockAttributes43,
 																												expr: &seqExpr{
 																													pos: position{line: 665, col: 5, offset: 21269},
 																													exprs: []interface{}{
@@ -11558,7 +11570,7 @@ var g = &grammar{
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 320, col: 18, offset: 9837},
-																																run: (*parser).callonBlockAttributes46,
+																																run: (*parser).callonBlockAttributes47,
 																																expr: &seqExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
 																																	exprs: []interface{}{
@@ -11596,7 +11608,7 @@ var g = &grammar{
 																											},
 																											&actionExpr{
 																												pos: position{line: 671, col: 25, offset: 21473},
-																												run: (*parser).callonBlockAttributes52,
+																												run: (*parser).callonBlockAttributes53,
 																												expr: &seqExpr{
 																													pos: position{line: 671, col: 25, offset: 21473},
 																													exprs: []interface{}{
@@ -11611,7 +11623,7 @@ var g = &grammar{
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 320, col: 18, offset: 9837},
-																																run: (*parser).callonBlockAttributes56,
+																																run: (*parser).callonBlockAttributes57,
 																																expr: &seqExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
 																																	exprs: []interface{}{
@@ -11645,7 +11657,7 @@ var g = &grammar{
 																																pos: position{line: 671, col: 62, offset: 21510},
 																																expr: &actionExpr{
 																																	pos: position{line: 679, col: 17, offset: 21807},
-																																	run: (*parser).callonBlockAttributes63,
+																																	run: (*parser).callonBlockAttributes64,
 																																	expr: &seqExpr{
 																																		pos: position{line: 679, col: 17, offset: 21807},
 																																		exprs: []interface{}{
@@ -11663,7 +11675,7 @@ var g = &grammar{
 																																					alternatives: []interface{}{
 																																						&actionExpr{
 																																							pos: position{line: 679, col: 28, offset: 21818},
-																																							run: (*parser).callonBlockAttributes68,
+																																							run: (*parser).callonBlockAttributes69,
 																																							expr: &charClassMatcher{
 																																								pos:        position{line: 679, col: 28, offset: 21818},
 																																								val:        "[A-Za-z]",
@@ -11674,7 +11686,7 @@ var g = &grammar{
 																																						},
 																																						&actionExpr{
 																																							pos: position{line: 681, col: 9, offset: 21872},
-																																							run: (*parser).callonBlockAttributes70,
+																																							run: (*parser).callonBlockAttributes71,
 																																							expr: &oneOrMoreExpr{
 																																								pos: position{line: 681, col: 9, offset: 21872},
 																																								expr: &charClassMatcher{
@@ -11705,7 +11717,7 @@ var g = &grammar{
 																											},
 																											&actionExpr{
 																												pos: position{line: 675, col: 25, offset: 21644},
-																												run: (*parser).callonBlockAttributes74,
+																												run: (*parser).callonBlockAttributes75,
 																												expr: &seqExpr{
 																													pos: position{line: 675, col: 25, offset: 21644},
 																													exprs: []interface{}{
@@ -11720,7 +11732,7 @@ var g = &grammar{
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 320, col: 18, offset: 9837},
-																																run: (*parser).callonBlockAttributes78,
+																																run: (*parser).callonBlockAttributes79,
 																																expr: &seqExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
 																																	exprs: []interface{}{
@@ -11754,7 +11766,7 @@ var g = &grammar{
 																																pos: position{line: 675, col: 63, offset: 21682},
 																																expr: &actionExpr{
 																																	pos: position{line: 679, col: 17, offset: 21807},
-																																	run: (*parser).callonBlockAttributes85,
+																																	run: (*parser).callonBlockAttributes86,
 																																	expr: &seqExpr{
 																																		pos: position{line: 679, col: 17, offset: 21807},
 																																		exprs: []interface{}{
@@ -11772,7 +11784,7 @@ var g = &grammar{
 																																					alternatives: []interface{}{
 																																						&actionExpr{
 																																							pos: position{line: 679, col: 28, offset: 21818},
-																																							run: (*parser).callonBlockAttributes90,
+																																							run: (*parser).callonBlockAttributes91,
 																																							expr: &charClassMatcher{
 																																								pos:        position{line: 679, col: 28, offset: 21818},
 																																								val:        "[A-Za-z]",
@@ -11783,7 +11795,7 @@ var g = &grammar{
 																																						},
 																																						&actionExpr{
 																																							pos: position{line: 681, col: 9, offset: 21872},
-																																							run: (*parser).callonBlockAttributes92,
+																																							run: (*parser).callonBlockAttributes93,
 																																							expr: &oneOrMoreExpr{
 																																								pos: position{line: 681, col: 9, offset: 21872},
 																																								expr: &charClassMatcher{
@@ -11820,7 +11832,7 @@ var g = &grammar{
 																					},
 																					&actionExpr{
 																						pos: position{line: 414, col: 16, offset: 12787},
-																						run: (*parser).callonBlockAttributes96,
+																						run: (*parser).callonBlockAttributes97,
 																						expr: &litMatcher{
 																							pos:        position{line: 414, col: 16, offset: 12787},
 																							val:        "{",
@@ -11847,10 +11859,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 374, col: 35, offset: 11589},
 												expr: &actionExpr{
-													pos: position{line: 2922, col: 10, offset: 92411},
-													run: (*parser).callonBlockAttributes100,
+													pos: position{line: 2922, col: 10, offset: 92458},
+													run: (*parser).callonBlockAttributes101,
 													expr: &charClassMatcher{
-														pos:        position{line: 2922, col: 10, offset: 92411},
+														pos:        position{line: 2922, col: 10, offset: 92458},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11859,28 +11871,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2944, col: 8, offset: 92809},
+												pos: position{line: 2944, col: 8, offset: 92856},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2931, col: 12, offset: 92582},
-														run: (*parser).callonBlockAttributes103,
+														pos: position{line: 2931, col: 12, offset: 92629},
+														run: (*parser).callonBlockAttributes104,
 														expr: &choiceExpr{
-															pos: position{line: 2931, col: 13, offset: 92583},
+															pos: position{line: 2931, col: 13, offset: 92630},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2931, col: 13, offset: 92583},
+																	pos:        position{line: 2931, col: 13, offset: 92630},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 20, offset: 92590},
+																	pos:        position{line: 2931, col: 20, offset: 92637},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 29, offset: 92599},
+																	pos:        position{line: 2931, col: 29, offset: 92646},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11889,9 +11901,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2941, col: 8, offset: 92759},
+														pos: position{line: 2941, col: 8, offset: 92806},
 														expr: &anyMatcher{
-															line: 2941, col: 9, offset: 92760,
+															line: 2941, col: 9, offset: 92807,
 														},
 													},
 												},
@@ -11903,23 +11915,23 @@ var g = &grammar{
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 690, col: 14, offset: 22173},
-															run: (*parser).callonBlockAttributes112,
+															run: (*parser).callonBlockAttributes113,
 															expr: &seqExpr{
 																pos: position{line: 690, col: 14, offset: 22173},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2939, col: 11, offset: 92745},
+																		pos: position{line: 2939, col: 11, offset: 92792},
 																		expr: &anyMatcher{
-																			line: 2939, col: 13, offset: 92747,
+																			line: 2939, col: 13, offset: 92794,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 690, col: 21, offset: 22180},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92411},
-																			run: (*parser).callonBlockAttributes117,
+																			pos: position{line: 2922, col: 10, offset: 92458},
+																			run: (*parser).callonBlockAttributes118,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92411},
+																				pos:        position{line: 2922, col: 10, offset: 92458},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -11928,28 +11940,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92809},
+																		pos: position{line: 2944, col: 8, offset: 92856},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
-																				run: (*parser).callonBlockAttributes120,
+																				pos: position{line: 2931, col: 12, offset: 92629},
+																				run: (*parser).callonBlockAttributes121,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -11958,9 +11970,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92759},
+																				pos: position{line: 2941, col: 8, offset: 92806},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92760,
+																					line: 2941, col: 9, offset: 92807,
 																				},
 																			},
 																		},
@@ -11969,36 +11981,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81189},
-															run: (*parser).callonBlockAttributes127,
+															pos: position{line: 2525, col: 22, offset: 81236},
+															run: (*parser).callonBlockAttributes128,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81189},
+																pos: position{line: 2525, col: 22, offset: 81236},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81439},
+																		pos:        position{line: 2530, col: 31, offset: 81486},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81444},
+																		pos: position{line: 2530, col: 36, offset: 81491},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81445},
+																			pos:        position{line: 2530, col: 37, offset: 81492},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81216},
+																		pos:   position{line: 2525, col: 49, offset: 81263},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 13, offset: 90937},
-																			run: (*parser).callonBlockAttributes133,
+																			pos: position{line: 2868, col: 13, offset: 90984},
+																			run: (*parser).callonBlockAttributes134,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2868, col: 13, offset: 90937},
+																				pos: position{line: 2868, col: 13, offset: 90984},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 13, offset: 90937},
+																					pos:        position{line: 2868, col: 13, offset: 90984},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12008,28 +12020,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92809},
+																		pos: position{line: 2944, col: 8, offset: 92856},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
-																				run: (*parser).callonBlockAttributes137,
+																				pos: position{line: 2931, col: 12, offset: 92629},
+																				run: (*parser).callonBlockAttributes138,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12038,9 +12050,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92759},
+																				pos: position{line: 2941, col: 8, offset: 92806},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92760,
+																					line: 2941, col: 9, offset: 92807,
 																				},
 																			},
 																		},
@@ -12056,7 +12068,7 @@ var g = &grammar{
 								},
 								&actionExpr{
 									pos: position{line: 378, col: 12, offset: 11743},
-									run: (*parser).callonBlockAttributes144,
+									run: (*parser).callonBlockAttributes145,
 									expr: &seqExpr{
 										pos: position{line: 378, col: 12, offset: 11743},
 										exprs: []interface{}{
@@ -12065,7 +12077,7 @@ var g = &grammar{
 												label: "title",
 												expr: &actionExpr{
 													pos: position{line: 425, col: 19, offset: 13092},
-													run: (*parser).callonBlockAttributes147,
+													run: (*parser).callonBlockAttributes148,
 													expr: &seqExpr{
 														pos: position{line: 425, col: 19, offset: 13092},
 														exprs: []interface{}{
@@ -12094,12 +12106,12 @@ var g = &grammar{
 																		pos: position{line: 428, col: 9, offset: 13233},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2816, col: 14, offset: 89580},
-																				run: (*parser).callonBlockAttributes155,
+																				pos: position{line: 2816, col: 14, offset: 89627},
+																				run: (*parser).callonBlockAttributes156,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2816, col: 14, offset: 89580},
+																					pos: position{line: 2816, col: 14, offset: 89627},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2816, col: 14, offset: 89580},
+																						pos:        position{line: 2816, col: 14, offset: 89627},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12108,10 +12120,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92411},
-																				run: (*parser).callonBlockAttributes158,
+																				pos: position{line: 2922, col: 10, offset: 92458},
+																				run: (*parser).callonBlockAttributes159,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92411},
+																					pos:        position{line: 2922, col: 10, offset: 92458},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12119,27 +12131,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2839, col: 5, offset: 90065},
-																				run: (*parser).callonBlockAttributes160,
+																				pos: position{line: 2839, col: 5, offset: 90112},
+																				run: (*parser).callonBlockAttributes161,
 																				expr: &choiceExpr{
-																					pos: position{line: 2840, col: 9, offset: 90075},
+																					pos: position{line: 2840, col: 9, offset: 90122},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2840, col: 10, offset: 90076},
+																							pos:        position{line: 2840, col: 10, offset: 90123},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2842, col: 13, offset: 90173},
+																							pos: position{line: 2842, col: 13, offset: 90220},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2842, col: 13, offset: 90173},
-																									run: (*parser).callonBlockAttributes164,
+																									pos: position{line: 2842, col: 13, offset: 90220},
+																									run: (*parser).callonBlockAttributes165,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2845, col: 13, offset: 90273},
+																									pos:        position{line: 2845, col: 13, offset: 90320},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12147,20 +12159,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2845, col: 19, offset: 90279},
+																							pos:        position{line: 2845, col: 19, offset: 90326},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2848, col: 13, offset: 90317},
+																							pos: position{line: 2848, col: 13, offset: 90364},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2848, col: 13, offset: 90317},
-																									run: (*parser).callonBlockAttributes168,
+																									pos: position{line: 2848, col: 13, offset: 90364},
+																									run: (*parser).callonBlockAttributes169,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2851, col: 14, offset: 90410},
+																									pos:        position{line: 2851, col: 14, offset: 90457},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12169,18 +12181,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2853, col: 12, offset: 90454},
+																							pos: position{line: 2853, col: 12, offset: 90501},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2853, col: 12, offset: 90454},
+																									pos:        position{line: 2853, col: 12, offset: 90501},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2853, col: 16, offset: 90458},
+																									pos: position{line: 2853, col: 16, offset: 90505},
 																									expr: &litMatcher{
-																										pos:        position{line: 2853, col: 17, offset: 90459},
+																										pos:        position{line: 2853, col: 17, offset: 90506},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12193,7 +12205,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 658, col: 5, offset: 21001},
-																				run: (*parser).callonBlockAttributes174,
+																				run: (*parser).callonBlockAttributes175,
 																				expr: &seqExpr{
 																					pos: position{line: 658, col: 5, offset: 21001},
 																					exprs: []interface{}{
@@ -12208,7 +12220,7 @@ var g = &grammar{
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
-																								run: (*parser).callonBlockAttributes178,
+																								run: (*parser).callonBlockAttributes179,
 																								expr: &seqExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
 																									exprs: []interface{}{
@@ -12246,7 +12258,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 665, col: 5, offset: 21269},
-																				run: (*parser).callonBlockAttributes184,
+																				run: (*parser).callonBlockAttributes185,
 																				expr: &seqExpr{
 																					pos: position{line: 665, col: 5, offset: 21269},
 																					exprs: []interface{}{
@@ -12261,7 +12273,7 @@ var g = &grammar{
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
-																								run: (*parser).callonBlockAttributes188,
+																								run: (*parser).callonBlockAttributes189,
 																								expr: &seqExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
 																									exprs: []interface{}{
@@ -12299,7 +12311,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 671, col: 25, offset: 21473},
-																				run: (*parser).callonBlockAttributes194,
+																				run: (*parser).callonBlockAttributes195,
 																				expr: &seqExpr{
 																					pos: position{line: 671, col: 25, offset: 21473},
 																					exprs: []interface{}{
@@ -12314,7 +12326,7 @@ var g = &grammar{
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
-																								run: (*parser).callonBlockAttributes198,
+																								run: (*parser).callonBlockAttributes199,
 																								expr: &seqExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
 																									exprs: []interface{}{
@@ -12348,7 +12360,7 @@ var g = &grammar{
 																								pos: position{line: 671, col: 62, offset: 21510},
 																								expr: &actionExpr{
 																									pos: position{line: 679, col: 17, offset: 21807},
-																									run: (*parser).callonBlockAttributes205,
+																									run: (*parser).callonBlockAttributes206,
 																									expr: &seqExpr{
 																										pos: position{line: 679, col: 17, offset: 21807},
 																										exprs: []interface{}{
@@ -12366,7 +12378,7 @@ var g = &grammar{
 																													alternatives: []interface{}{
 																														&actionExpr{
 																															pos: position{line: 679, col: 28, offset: 21818},
-																															run: (*parser).callonBlockAttributes210,
+																															run: (*parser).callonBlockAttributes211,
 																															expr: &charClassMatcher{
 																																pos:        position{line: 679, col: 28, offset: 21818},
 																																val:        "[A-Za-z]",
@@ -12377,7 +12389,7 @@ var g = &grammar{
 																														},
 																														&actionExpr{
 																															pos: position{line: 681, col: 9, offset: 21872},
-																															run: (*parser).callonBlockAttributes212,
+																															run: (*parser).callonBlockAttributes213,
 																															expr: &oneOrMoreExpr{
 																																pos: position{line: 681, col: 9, offset: 21872},
 																																expr: &charClassMatcher{
@@ -12408,7 +12420,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 675, col: 25, offset: 21644},
-																				run: (*parser).callonBlockAttributes216,
+																				run: (*parser).callonBlockAttributes217,
 																				expr: &seqExpr{
 																					pos: position{line: 675, col: 25, offset: 21644},
 																					exprs: []interface{}{
@@ -12423,7 +12435,7 @@ var g = &grammar{
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
-																								run: (*parser).callonBlockAttributes220,
+																								run: (*parser).callonBlockAttributes221,
 																								expr: &seqExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
 																									exprs: []interface{}{
@@ -12457,7 +12469,7 @@ var g = &grammar{
 																								pos: position{line: 675, col: 63, offset: 21682},
 																								expr: &actionExpr{
 																									pos: position{line: 679, col: 17, offset: 21807},
-																									run: (*parser).callonBlockAttributes227,
+																									run: (*parser).callonBlockAttributes228,
 																									expr: &seqExpr{
 																										pos: position{line: 679, col: 17, offset: 21807},
 																										exprs: []interface{}{
@@ -12475,7 +12487,7 @@ var g = &grammar{
 																													alternatives: []interface{}{
 																														&actionExpr{
 																															pos: position{line: 679, col: 28, offset: 21818},
-																															run: (*parser).callonBlockAttributes232,
+																															run: (*parser).callonBlockAttributes233,
 																															expr: &charClassMatcher{
 																																pos:        position{line: 679, col: 28, offset: 21818},
 																																val:        "[A-Za-z]",
@@ -12486,7 +12498,7 @@ var g = &grammar{
 																														},
 																														&actionExpr{
 																															pos: position{line: 681, col: 9, offset: 21872},
-																															run: (*parser).callonBlockAttributes234,
+																															run: (*parser).callonBlockAttributes235,
 																															expr: &oneOrMoreExpr{
 																																pos: position{line: 681, col: 9, offset: 21872},
 																																expr: &charClassMatcher{
@@ -12516,10 +12528,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90719},
-																				run: (*parser).callonBlockAttributes238,
+																				pos: position{line: 2861, col: 12, offset: 90766},
+																				run: (*parser).callonBlockAttributes239,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 12, offset: 90719},
+																					pos:        position{line: 2861, col: 12, offset: 90766},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12537,10 +12549,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 378, col: 35, offset: 11766},
 												expr: &actionExpr{
-													pos: position{line: 2922, col: 10, offset: 92411},
-													run: (*parser).callonBlockAttributes241,
+													pos: position{line: 2922, col: 10, offset: 92458},
+													run: (*parser).callonBlockAttributes242,
 													expr: &charClassMatcher{
-														pos:        position{line: 2922, col: 10, offset: 92411},
+														pos:        position{line: 2922, col: 10, offset: 92458},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12549,28 +12561,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2944, col: 8, offset: 92809},
+												pos: position{line: 2944, col: 8, offset: 92856},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2931, col: 12, offset: 92582},
-														run: (*parser).callonBlockAttributes244,
+														pos: position{line: 2931, col: 12, offset: 92629},
+														run: (*parser).callonBlockAttributes245,
 														expr: &choiceExpr{
-															pos: position{line: 2931, col: 13, offset: 92583},
+															pos: position{line: 2931, col: 13, offset: 92630},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2931, col: 13, offset: 92583},
+																	pos:        position{line: 2931, col: 13, offset: 92630},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 20, offset: 92590},
+																	pos:        position{line: 2931, col: 20, offset: 92637},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 29, offset: 92599},
+																	pos:        position{line: 2931, col: 29, offset: 92646},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12579,9 +12591,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2941, col: 8, offset: 92759},
+														pos: position{line: 2941, col: 8, offset: 92806},
 														expr: &anyMatcher{
-															line: 2941, col: 9, offset: 92760,
+															line: 2941, col: 9, offset: 92807,
 														},
 													},
 												},
@@ -12593,23 +12605,23 @@ var g = &grammar{
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 690, col: 14, offset: 22173},
-															run: (*parser).callonBlockAttributes253,
+															run: (*parser).callonBlockAttributes254,
 															expr: &seqExpr{
 																pos: position{line: 690, col: 14, offset: 22173},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2939, col: 11, offset: 92745},
+																		pos: position{line: 2939, col: 11, offset: 92792},
 																		expr: &anyMatcher{
-																			line: 2939, col: 13, offset: 92747,
+																			line: 2939, col: 13, offset: 92794,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 690, col: 21, offset: 22180},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92411},
-																			run: (*parser).callonBlockAttributes258,
+																			pos: position{line: 2922, col: 10, offset: 92458},
+																			run: (*parser).callonBlockAttributes259,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92411},
+																				pos:        position{line: 2922, col: 10, offset: 92458},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12618,28 +12630,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92809},
+																		pos: position{line: 2944, col: 8, offset: 92856},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
-																				run: (*parser).callonBlockAttributes261,
+																				pos: position{line: 2931, col: 12, offset: 92629},
+																				run: (*parser).callonBlockAttributes262,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12648,9 +12660,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92759},
+																				pos: position{line: 2941, col: 8, offset: 92806},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92760,
+																					line: 2941, col: 9, offset: 92807,
 																				},
 																			},
 																		},
@@ -12659,36 +12671,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81189},
-															run: (*parser).callonBlockAttributes268,
+															pos: position{line: 2525, col: 22, offset: 81236},
+															run: (*parser).callonBlockAttributes269,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81189},
+																pos: position{line: 2525, col: 22, offset: 81236},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81439},
+																		pos:        position{line: 2530, col: 31, offset: 81486},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81444},
+																		pos: position{line: 2530, col: 36, offset: 81491},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81445},
+																			pos:        position{line: 2530, col: 37, offset: 81492},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81216},
+																		pos:   position{line: 2525, col: 49, offset: 81263},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 13, offset: 90937},
-																			run: (*parser).callonBlockAttributes274,
+																			pos: position{line: 2868, col: 13, offset: 90984},
+																			run: (*parser).callonBlockAttributes275,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2868, col: 13, offset: 90937},
+																				pos: position{line: 2868, col: 13, offset: 90984},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 13, offset: 90937},
+																					pos:        position{line: 2868, col: 13, offset: 90984},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12698,28 +12710,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92809},
+																		pos: position{line: 2944, col: 8, offset: 92856},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
-																				run: (*parser).callonBlockAttributes278,
+																				pos: position{line: 2931, col: 12, offset: 92629},
+																				run: (*parser).callonBlockAttributes279,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12728,9 +12740,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92759},
+																				pos: position{line: 2941, col: 8, offset: 92806},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92760,
+																					line: 2941, col: 9, offset: 92807,
 																				},
 																			},
 																		},
@@ -12746,7 +12758,7 @@ var g = &grammar{
 								},
 								&actionExpr{
 									pos: position{line: 382, col: 12, offset: 11890},
-									run: (*parser).callonBlockAttributes285,
+									run: (*parser).callonBlockAttributes286,
 									expr: &seqExpr{
 										pos: position{line: 382, col: 12, offset: 11890},
 										exprs: []interface{}{
@@ -12761,10 +12773,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 382, col: 44, offset: 11922},
 												expr: &actionExpr{
-													pos: position{line: 2922, col: 10, offset: 92411},
-													run: (*parser).callonBlockAttributes290,
+													pos: position{line: 2922, col: 10, offset: 92458},
+													run: (*parser).callonBlockAttributes291,
 													expr: &charClassMatcher{
-														pos:        position{line: 2922, col: 10, offset: 92411},
+														pos:        position{line: 2922, col: 10, offset: 92458},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12773,28 +12785,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2944, col: 8, offset: 92809},
+												pos: position{line: 2944, col: 8, offset: 92856},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2931, col: 12, offset: 92582},
-														run: (*parser).callonBlockAttributes293,
+														pos: position{line: 2931, col: 12, offset: 92629},
+														run: (*parser).callonBlockAttributes294,
 														expr: &choiceExpr{
-															pos: position{line: 2931, col: 13, offset: 92583},
+															pos: position{line: 2931, col: 13, offset: 92630},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2931, col: 13, offset: 92583},
+																	pos:        position{line: 2931, col: 13, offset: 92630},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 20, offset: 92590},
+																	pos:        position{line: 2931, col: 20, offset: 92637},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 29, offset: 92599},
+																	pos:        position{line: 2931, col: 29, offset: 92646},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12803,9 +12815,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2941, col: 8, offset: 92759},
+														pos: position{line: 2941, col: 8, offset: 92806},
 														expr: &anyMatcher{
-															line: 2941, col: 9, offset: 92760,
+															line: 2941, col: 9, offset: 92807,
 														},
 													},
 												},
@@ -12817,23 +12829,23 @@ var g = &grammar{
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 690, col: 14, offset: 22173},
-															run: (*parser).callonBlockAttributes302,
+															run: (*parser).callonBlockAttributes303,
 															expr: &seqExpr{
 																pos: position{line: 690, col: 14, offset: 22173},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2939, col: 11, offset: 92745},
+																		pos: position{line: 2939, col: 11, offset: 92792},
 																		expr: &anyMatcher{
-																			line: 2939, col: 13, offset: 92747,
+																			line: 2939, col: 13, offset: 92794,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 690, col: 21, offset: 22180},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92411},
-																			run: (*parser).callonBlockAttributes307,
+																			pos: position{line: 2922, col: 10, offset: 92458},
+																			run: (*parser).callonBlockAttributes308,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92411},
+																				pos:        position{line: 2922, col: 10, offset: 92458},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12842,28 +12854,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92809},
+																		pos: position{line: 2944, col: 8, offset: 92856},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
-																				run: (*parser).callonBlockAttributes310,
+																				pos: position{line: 2931, col: 12, offset: 92629},
+																				run: (*parser).callonBlockAttributes311,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12872,9 +12884,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92759},
+																				pos: position{line: 2941, col: 8, offset: 92806},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92760,
+																					line: 2941, col: 9, offset: 92807,
 																				},
 																			},
 																		},
@@ -12883,36 +12895,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81189},
-															run: (*parser).callonBlockAttributes317,
+															pos: position{line: 2525, col: 22, offset: 81236},
+															run: (*parser).callonBlockAttributes318,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81189},
+																pos: position{line: 2525, col: 22, offset: 81236},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81439},
+																		pos:        position{line: 2530, col: 31, offset: 81486},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81444},
+																		pos: position{line: 2530, col: 36, offset: 81491},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81445},
+																			pos:        position{line: 2530, col: 37, offset: 81492},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81216},
+																		pos:   position{line: 2525, col: 49, offset: 81263},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 13, offset: 90937},
-																			run: (*parser).callonBlockAttributes323,
+																			pos: position{line: 2868, col: 13, offset: 90984},
+																			run: (*parser).callonBlockAttributes324,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2868, col: 13, offset: 90937},
+																				pos: position{line: 2868, col: 13, offset: 90984},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 13, offset: 90937},
+																					pos:        position{line: 2868, col: 13, offset: 90984},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12922,28 +12934,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92809},
+																		pos: position{line: 2944, col: 8, offset: 92856},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
-																				run: (*parser).callonBlockAttributes327,
+																				pos: position{line: 2931, col: 12, offset: 92629},
+																				run: (*parser).callonBlockAttributes328,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12952,9 +12964,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92759},
+																				pos: position{line: 2941, col: 8, offset: 92806},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92760,
+																					line: 2941, col: 9, offset: 92807,
 																				},
 																			},
 																		},
@@ -13204,10 +13216,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 473, col: 13, offset: 14999},
 										expr: &actionExpr{
-											pos: position{line: 2922, col: 10, offset: 92411},
+											pos: position{line: 2922, col: 10, offset: 92458},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2922, col: 10, offset: 92411},
+												pos:        position{line: 2922, col: 10, offset: 92458},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13739,10 +13751,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 525, col: 9, offset: 16581},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92411},
+														pos: position{line: 2922, col: 10, offset: 92458},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92411},
+															pos:        position{line: 2922, col: 10, offset: 92458},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13803,10 +13815,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 531, col: 34, offset: 16724},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92411},
+															pos: position{line: 2922, col: 10, offset: 92458},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92411},
+																pos:        position{line: 2922, col: 10, offset: 92458},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13846,10 +13858,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 536, col: 13, offset: 16888},
 												expr: &actionExpr{
-													pos: position{line: 2922, col: 10, offset: 92411},
+													pos: position{line: 2922, col: 10, offset: 92458},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2922, col: 10, offset: 92411},
+														pos:        position{line: 2922, col: 10, offset: 92458},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13872,10 +13884,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 536, col: 26, offset: 16901},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92411},
+																	pos: position{line: 2922, col: 10, offset: 92458},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92411},
+																		pos:        position{line: 2922, col: 10, offset: 92458},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13930,10 +13942,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 556, col: 22, offset: 17548},
 											expr: &actionExpr{
-												pos: position{line: 2922, col: 10, offset: 92411},
+												pos: position{line: 2922, col: 10, offset: 92458},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2922, col: 10, offset: 92411},
+													pos:        position{line: 2922, col: 10, offset: 92458},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13964,10 +13976,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 549, col: 9, offset: 17293},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92411},
+								pos: position{line: 2922, col: 10, offset: 92458},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92411},
+									pos:        position{line: 2922, col: 10, offset: 92458},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13997,10 +14009,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 550, col: 33, offset: 17333},
 										expr: &actionExpr{
-											pos: position{line: 2922, col: 10, offset: 92411},
+											pos: position{line: 2922, col: 10, offset: 92458},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2922, col: 10, offset: 92411},
+												pos:        position{line: 2922, col: 10, offset: 92458},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14055,10 +14067,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 566, col: 9, offset: 17765},
 											expr: &actionExpr{
-												pos: position{line: 2922, col: 10, offset: 92411},
+												pos: position{line: 2922, col: 10, offset: 92458},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2922, col: 10, offset: 92411},
+													pos:        position{line: 2922, col: 10, offset: 92458},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14137,12 +14149,12 @@ var g = &grammar{
 							pos: position{line: 579, col: 9, offset: 18082},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2816, col: 14, offset: 89580},
+									pos: position{line: 2816, col: 14, offset: 89627},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2816, col: 14, offset: 89580},
+										pos: position{line: 2816, col: 14, offset: 89627},
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 14, offset: 89580},
+											pos:        position{line: 2816, col: 14, offset: 89627},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14151,10 +14163,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2922, col: 10, offset: 92411},
+									pos: position{line: 2922, col: 10, offset: 92458},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2922, col: 10, offset: 92411},
+										pos:        position{line: 2922, col: 10, offset: 92458},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14611,10 +14623,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 602, col: 14, offset: 18929},
 											expr: &actionExpr{
-												pos: position{line: 2922, col: 10, offset: 92411},
+												pos: position{line: 2922, col: 10, offset: 92458},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2922, col: 10, offset: 92411},
+													pos:        position{line: 2922, col: 10, offset: 92458},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14651,12 +14663,12 @@ var g = &grammar{
 							pos: position{line: 608, col: 9, offset: 19040},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2816, col: 14, offset: 89580},
+									pos: position{line: 2816, col: 14, offset: 89627},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2816, col: 14, offset: 89580},
+										pos: position{line: 2816, col: 14, offset: 89627},
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 14, offset: 89580},
+											pos:        position{line: 2816, col: 14, offset: 89627},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14665,10 +14677,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2922, col: 10, offset: 92411},
+									pos: position{line: 2922, col: 10, offset: 92458},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2922, col: 10, offset: 92411},
+										pos:        position{line: 2922, col: 10, offset: 92458},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15095,10 +15107,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 632, col: 5, offset: 20003},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92411},
+								pos: position{line: 2922, col: 10, offset: 92458},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92411},
+									pos:        position{line: 2922, col: 10, offset: 92458},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15488,10 +15500,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2922, col: 10, offset: 92411},
+											pos: position{line: 2922, col: 10, offset: 92458},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2922, col: 10, offset: 92411},
+												pos:        position{line: 2922, col: 10, offset: 92458},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15542,12 +15554,12 @@ var g = &grammar{
 									pos:   position{line: 699, col: 32, offset: 22533},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2907, col: 7, offset: 92063},
+										pos: position{line: 2907, col: 7, offset: 92110},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2907, col: 7, offset: 92063},
+											pos: position{line: 2907, col: 7, offset: 92110},
 											expr: &charClassMatcher{
-												pos:        position{line: 2907, col: 7, offset: 92063},
+												pos:        position{line: 2907, col: 7, offset: 92110},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15559,10 +15571,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 699, col: 40, offset: 22541},
 									expr: &actionExpr{
-										pos: position{line: 2922, col: 10, offset: 92411},
+										pos: position{line: 2922, col: 10, offset: 92458},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2922, col: 10, offset: 92411},
+											pos:        position{line: 2922, col: 10, offset: 92458},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15755,12 +15767,12 @@ var g = &grammar{
 									pos:   position{line: 701, col: 14, offset: 22658},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2907, col: 7, offset: 92063},
+										pos: position{line: 2907, col: 7, offset: 92110},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2907, col: 7, offset: 92063},
+											pos: position{line: 2907, col: 7, offset: 92110},
 											expr: &charClassMatcher{
-												pos:        position{line: 2907, col: 7, offset: 92063},
+												pos:        position{line: 2907, col: 7, offset: 92110},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15804,41 +15816,41 @@ var g = &grammar{
 							pos:   position{line: 705, col: 35, offset: 22771},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 17, offset: 91074},
+								pos: position{line: 2876, col: 17, offset: 91121},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2876, col: 17, offset: 91074},
+									pos:   position{line: 2876, col: 17, offset: 91121},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2893, col: 5, offset: 91528},
+										pos: position{line: 2893, col: 5, offset: 91575},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2893, col: 5, offset: 91528},
+											pos:   position{line: 2893, col: 5, offset: 91575},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2893, col: 14, offset: 91537},
+												pos: position{line: 2893, col: 14, offset: 91584},
 												expr: &choiceExpr{
-													pos: position{line: 2894, col: 9, offset: 91547},
+													pos: position{line: 2894, col: 9, offset: 91594},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2894, col: 9, offset: 91547},
+															pos: position{line: 2894, col: 9, offset: 91594},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2894, col: 9, offset: 91547},
+																pos: position{line: 2894, col: 9, offset: 91594},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2894, col: 9, offset: 91547},
+																		pos: position{line: 2894, col: 9, offset: 91594},
 																		expr: &litMatcher{
-																			pos:        position{line: 2894, col: 10, offset: 91548},
+																			pos:        position{line: 2894, col: 10, offset: 91595},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2895, col: 9, offset: 91576},
+																		pos: position{line: 2895, col: 9, offset: 91623},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2895, col: 10, offset: 91577},
+																			pos:        position{line: 2895, col: 10, offset: 91624},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15849,27 +15861,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2898, col: 11, offset: 91789},
+															pos: position{line: 2898, col: 11, offset: 91836},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2898, col: 11, offset: 91789},
+																	pos:        position{line: 2898, col: 11, offset: 91836},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2898, col: 19, offset: 91797},
+																	pos: position{line: 2898, col: 19, offset: 91844},
 																	expr: &seqExpr{
-																		pos: position{line: 2898, col: 21, offset: 91799},
+																		pos: position{line: 2898, col: 21, offset: 91846},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2898, col: 21, offset: 91799},
+																				pos: position{line: 2898, col: 21, offset: 91846},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92411},
+																					pos: position{line: 2922, col: 10, offset: 92458},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92411},
+																						pos:        position{line: 2922, col: 10, offset: 92458},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15878,11 +15890,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2898, col: 28, offset: 91806},
+																				pos: position{line: 2898, col: 28, offset: 91853},
 																				expr: &notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -16273,14 +16285,18 @@ var g = &grammar{
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
+																	&andCodeExpr{
+																		pos: position{line: 1211, col: 123, offset: 37756},
+																		run: (*parser).callonExternalCrossReference104,
+																	},
 																},
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2901, col: 11, offset: 91926},
-															run: (*parser).callonExternalCrossReference104,
+															pos: position{line: 2901, col: 11, offset: 91973},
+															run: (*parser).callonExternalCrossReference105,
 															expr: &litMatcher{
-																pos:        position{line: 2901, col: 11, offset: 91926},
+																pos:        position{line: 2901, col: 11, offset: 91973},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16325,12 +16341,12 @@ var g = &grammar{
 							pos:   position{line: 1002, col: 11, offset: 31490},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2872, col: 14, offset: 91004},
+								pos: position{line: 2872, col: 14, offset: 91051},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2872, col: 14, offset: 91004},
+									pos: position{line: 2872, col: 14, offset: 91051},
 									expr: &charClassMatcher{
-										pos:        position{line: 2872, col: 14, offset: 91004},
+										pos:        position{line: 2872, col: 14, offset: 91051},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16340,28 +16356,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92809},
+							pos: position{line: 2944, col: 8, offset: 92856},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92582},
+									pos: position{line: 2931, col: 12, offset: 92629},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92583},
+										pos: position{line: 2931, col: 13, offset: 92630},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92583},
+												pos:        position{line: 2931, col: 13, offset: 92630},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92590},
+												pos:        position{line: 2931, col: 20, offset: 92637},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92599},
+												pos:        position{line: 2931, col: 29, offset: 92646},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16370,9 +16386,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92759},
+									pos: position{line: 2941, col: 8, offset: 92806},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92760,
+										line: 2941, col: 9, offset: 92807,
 									},
 								},
 							},
@@ -16400,36 +16416,36 @@ var g = &grammar{
 								pos: position{line: 1117, col: 6, offset: 34492},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2525, col: 22, offset: 81189},
+										pos: position{line: 2525, col: 22, offset: 81236},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 22, offset: 81189},
+											pos: position{line: 2525, col: 22, offset: 81236},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2530, col: 31, offset: 81439},
+													pos:        position{line: 2530, col: 31, offset: 81486},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2530, col: 36, offset: 81444},
+													pos: position{line: 2530, col: 36, offset: 81491},
 													expr: &litMatcher{
-														pos:        position{line: 2530, col: 37, offset: 81445},
+														pos:        position{line: 2530, col: 37, offset: 81492},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2525, col: 49, offset: 81216},
+													pos:   position{line: 2525, col: 49, offset: 81263},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 13, offset: 90937},
+														pos: position{line: 2868, col: 13, offset: 90984},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2868, col: 13, offset: 90937},
+															pos: position{line: 2868, col: 13, offset: 90984},
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 13, offset: 90937},
+																pos:        position{line: 2868, col: 13, offset: 90984},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16439,28 +16455,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92809},
+													pos: position{line: 2944, col: 8, offset: 92856},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92582},
+															pos: position{line: 2931, col: 12, offset: 92629},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92583},
+																pos: position{line: 2931, col: 13, offset: 92630},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92583},
+																		pos:        position{line: 2931, col: 13, offset: 92630},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92590},
+																		pos:        position{line: 2931, col: 20, offset: 92637},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92599},
+																		pos:        position{line: 2931, col: 29, offset: 92646},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16469,9 +16485,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92759},
+															pos: position{line: 2941, col: 8, offset: 92806},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92760,
+																line: 2941, col: 9, offset: 92807,
 															},
 														},
 													},
@@ -16522,10 +16538,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 755, col: 8, offset: 24370},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92411},
+																	pos: position{line: 2922, col: 10, offset: 92458},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92411},
+																		pos:        position{line: 2922, col: 10, offset: 92458},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16534,28 +16550,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92809},
+																pos: position{line: 2944, col: 8, offset: 92856},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92582},
+																		pos: position{line: 2931, col: 12, offset: 92629},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92583},
+																			pos: position{line: 2931, col: 13, offset: 92630},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92583},
+																					pos:        position{line: 2931, col: 13, offset: 92630},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92590},
+																					pos:        position{line: 2931, col: 20, offset: 92637},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92599},
+																					pos:        position{line: 2931, col: 29, offset: 92646},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16564,9 +16580,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92759},
+																		pos: position{line: 2941, col: 8, offset: 92806},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92760,
+																			line: 2941, col: 9, offset: 92807,
 																		},
 																	},
 																},
@@ -16627,10 +16643,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 755, col: 8, offset: 24370},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92411},
+																									pos: position{line: 2922, col: 10, offset: 92458},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92411},
+																										pos:        position{line: 2922, col: 10, offset: 92458},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16639,28 +16655,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92809},
+																								pos: position{line: 2944, col: 8, offset: 92856},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92582},
+																										pos: position{line: 2931, col: 12, offset: 92629},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92583},
+																											pos: position{line: 2931, col: 13, offset: 92630},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92583},
+																													pos:        position{line: 2931, col: 13, offset: 92630},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92590},
+																													pos:        position{line: 2931, col: 20, offset: 92637},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92599},
+																													pos:        position{line: 2931, col: 29, offset: 92646},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16669,9 +16685,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92759},
+																										pos: position{line: 2941, col: 8, offset: 92806},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92760,
+																											line: 2941, col: 9, offset: 92807,
 																										},
 																									},
 																								},
@@ -16680,9 +16696,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -16698,21 +16714,21 @@ var g = &grammar{
 																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92745},
+																						pos: position{line: 2939, col: 11, offset: 92792},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92747,
+																							line: 2939, col: 13, offset: 92794,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90937},
+																							pos: position{line: 2868, col: 13, offset: 90984},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90937},
+																								pos: position{line: 2868, col: 13, offset: 90984},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90937},
+																									pos:        position{line: 2868, col: 13, offset: 90984},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16722,28 +16738,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92809},
+																						pos: position{line: 2944, col: 8, offset: 92856},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92582},
+																								pos: position{line: 2931, col: 12, offset: 92629},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92583},
+																									pos: position{line: 2931, col: 13, offset: 92630},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92583},
+																											pos:        position{line: 2931, col: 13, offset: 92630},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92590},
+																											pos:        position{line: 2931, col: 20, offset: 92637},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92599},
+																											pos:        position{line: 2931, col: 29, offset: 92646},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16752,9 +16768,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92759},
+																								pos: position{line: 2941, col: 8, offset: 92806},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92760,
+																									line: 2941, col: 9, offset: 92807,
 																								},
 																							},
 																						},
@@ -16810,10 +16826,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 755, col: 8, offset: 24370},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92411},
+																				pos: position{line: 2922, col: 10, offset: 92458},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92411},
+																					pos:        position{line: 2922, col: 10, offset: 92458},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16822,28 +16838,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92809},
+																			pos: position{line: 2944, col: 8, offset: 92856},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92582},
+																					pos: position{line: 2931, col: 12, offset: 92629},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92583},
+																						pos: position{line: 2931, col: 13, offset: 92630},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92583},
+																								pos:        position{line: 2931, col: 13, offset: 92630},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92590},
+																								pos:        position{line: 2931, col: 20, offset: 92637},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92599},
+																								pos:        position{line: 2931, col: 29, offset: 92646},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16852,9 +16868,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -16863,9 +16879,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92759},
+																pos: position{line: 2941, col: 8, offset: 92806},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92760,
+																	line: 2941, col: 9, offset: 92807,
 																},
 															},
 														},
@@ -16891,36 +16907,36 @@ var g = &grammar{
 								pos: position{line: 1119, col: 6, offset: 34615},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2525, col: 22, offset: 81189},
+										pos: position{line: 2525, col: 22, offset: 81236},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 22, offset: 81189},
+											pos: position{line: 2525, col: 22, offset: 81236},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2530, col: 31, offset: 81439},
+													pos:        position{line: 2530, col: 31, offset: 81486},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2530, col: 36, offset: 81444},
+													pos: position{line: 2530, col: 36, offset: 81491},
 													expr: &litMatcher{
-														pos:        position{line: 2530, col: 37, offset: 81445},
+														pos:        position{line: 2530, col: 37, offset: 81492},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2525, col: 49, offset: 81216},
+													pos:   position{line: 2525, col: 49, offset: 81263},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 13, offset: 90937},
+														pos: position{line: 2868, col: 13, offset: 90984},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2868, col: 13, offset: 90937},
+															pos: position{line: 2868, col: 13, offset: 90984},
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 13, offset: 90937},
+																pos:        position{line: 2868, col: 13, offset: 90984},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16930,28 +16946,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92809},
+													pos: position{line: 2944, col: 8, offset: 92856},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92582},
+															pos: position{line: 2931, col: 12, offset: 92629},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92583},
+																pos: position{line: 2931, col: 13, offset: 92630},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92583},
+																		pos:        position{line: 2931, col: 13, offset: 92630},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92590},
+																		pos:        position{line: 2931, col: 20, offset: 92637},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92599},
+																		pos:        position{line: 2931, col: 29, offset: 92646},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16960,9 +16976,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92759},
+															pos: position{line: 2941, col: 8, offset: 92806},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92760,
+																line: 2941, col: 9, offset: 92807,
 															},
 														},
 													},
@@ -17013,10 +17029,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 755, col: 8, offset: 24370},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92411},
+																	pos: position{line: 2922, col: 10, offset: 92458},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92411},
+																		pos:        position{line: 2922, col: 10, offset: 92458},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17025,28 +17041,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92809},
+																pos: position{line: 2944, col: 8, offset: 92856},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92582},
+																		pos: position{line: 2931, col: 12, offset: 92629},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92583},
+																			pos: position{line: 2931, col: 13, offset: 92630},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92583},
+																					pos:        position{line: 2931, col: 13, offset: 92630},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92590},
+																					pos:        position{line: 2931, col: 20, offset: 92637},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92599},
+																					pos:        position{line: 2931, col: 29, offset: 92646},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17055,9 +17071,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92759},
+																		pos: position{line: 2941, col: 8, offset: 92806},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92760,
+																			line: 2941, col: 9, offset: 92807,
 																		},
 																	},
 																},
@@ -17118,10 +17134,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 755, col: 8, offset: 24370},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92411},
+																									pos: position{line: 2922, col: 10, offset: 92458},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92411},
+																										pos:        position{line: 2922, col: 10, offset: 92458},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17130,28 +17146,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92809},
+																								pos: position{line: 2944, col: 8, offset: 92856},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92582},
+																										pos: position{line: 2931, col: 12, offset: 92629},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92583},
+																											pos: position{line: 2931, col: 13, offset: 92630},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92583},
+																													pos:        position{line: 2931, col: 13, offset: 92630},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92590},
+																													pos:        position{line: 2931, col: 20, offset: 92637},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92599},
+																													pos:        position{line: 2931, col: 29, offset: 92646},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17160,9 +17176,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92759},
+																										pos: position{line: 2941, col: 8, offset: 92806},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92760,
+																											line: 2941, col: 9, offset: 92807,
 																										},
 																									},
 																								},
@@ -17171,9 +17187,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -17189,21 +17205,21 @@ var g = &grammar{
 																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92745},
+																						pos: position{line: 2939, col: 11, offset: 92792},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92747,
+																							line: 2939, col: 13, offset: 92794,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90937},
+																							pos: position{line: 2868, col: 13, offset: 90984},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90937},
+																								pos: position{line: 2868, col: 13, offset: 90984},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90937},
+																									pos:        position{line: 2868, col: 13, offset: 90984},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17213,28 +17229,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92809},
+																						pos: position{line: 2944, col: 8, offset: 92856},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92582},
+																								pos: position{line: 2931, col: 12, offset: 92629},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92583},
+																									pos: position{line: 2931, col: 13, offset: 92630},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92583},
+																											pos:        position{line: 2931, col: 13, offset: 92630},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92590},
+																											pos:        position{line: 2931, col: 20, offset: 92637},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92599},
+																											pos:        position{line: 2931, col: 29, offset: 92646},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17243,9 +17259,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92759},
+																								pos: position{line: 2941, col: 8, offset: 92806},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92760,
+																									line: 2941, col: 9, offset: 92807,
 																								},
 																							},
 																						},
@@ -17301,10 +17317,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 755, col: 8, offset: 24370},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92411},
+																				pos: position{line: 2922, col: 10, offset: 92458},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92411},
+																					pos:        position{line: 2922, col: 10, offset: 92458},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -17313,28 +17329,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92809},
+																			pos: position{line: 2944, col: 8, offset: 92856},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92582},
+																					pos: position{line: 2931, col: 12, offset: 92629},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92583},
+																						pos: position{line: 2931, col: 13, offset: 92630},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92583},
+																								pos:        position{line: 2931, col: 13, offset: 92630},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92590},
+																								pos:        position{line: 2931, col: 20, offset: 92637},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92599},
+																								pos:        position{line: 2931, col: 29, offset: 92646},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -17343,9 +17359,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -17354,9 +17370,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92759},
+																pos: position{line: 2941, col: 8, offset: 92806},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92760,
+																	line: 2941, col: 9, offset: 92807,
 																},
 															},
 														},
@@ -17400,10 +17416,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1138, col: 20, offset: 35370},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92411},
+																	pos: position{line: 2922, col: 10, offset: 92458},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92411},
+																		pos:        position{line: 2922, col: 10, offset: 92458},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17454,10 +17470,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1157, col: 5, offset: 35975},
 																										expr: &actionExpr{
-																											pos: position{line: 2922, col: 10, offset: 92411},
+																											pos: position{line: 2922, col: 10, offset: 92458},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2922, col: 10, offset: 92411},
+																												pos:        position{line: 2922, col: 10, offset: 92458},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17489,10 +17505,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1161, col: 5, offset: 36074},
 																										expr: &actionExpr{
-																											pos: position{line: 2922, col: 10, offset: 92411},
+																											pos: position{line: 2922, col: 10, offset: 92458},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2922, col: 10, offset: 92411},
+																												pos:        position{line: 2922, col: 10, offset: 92458},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17524,10 +17540,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1165, col: 5, offset: 36171},
 																										expr: &actionExpr{
-																											pos: position{line: 2922, col: 10, offset: 92411},
+																											pos: position{line: 2922, col: 10, offset: 92458},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2922, col: 10, offset: 92411},
+																												pos:        position{line: 2922, col: 10, offset: 92458},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17552,9 +17568,9 @@ var g = &grammar{
 																								pos: position{line: 1171, col: 5, offset: 36293},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2939, col: 11, offset: 92745},
+																										pos: position{line: 2939, col: 11, offset: 92792},
 																										expr: &anyMatcher{
-																											line: 2939, col: 13, offset: 92747,
+																											line: 2939, col: 13, offset: 92794,
 																										},
 																									},
 																									&litMatcher{
@@ -17595,10 +17611,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1143, col: 69, offset: 35563},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92411},
+																						pos: position{line: 2922, col: 10, offset: 92458},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92411},
+																							pos:        position{line: 2922, col: 10, offset: 92458},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17618,10 +17634,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1143, col: 81, offset: 35575},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92411},
+																						pos: position{line: 2922, col: 10, offset: 92458},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92411},
+																							pos:        position{line: 2922, col: 10, offset: 92458},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17639,28 +17655,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92809},
+																pos: position{line: 2944, col: 8, offset: 92856},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92582},
+																		pos: position{line: 2931, col: 12, offset: 92629},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92583},
+																			pos: position{line: 2931, col: 13, offset: 92630},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92583},
+																					pos:        position{line: 2931, col: 13, offset: 92630},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92590},
+																					pos:        position{line: 2931, col: 20, offset: 92637},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92599},
+																					pos:        position{line: 2931, col: 29, offset: 92646},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17669,9 +17685,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92759},
+																		pos: position{line: 2941, col: 8, offset: 92806},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92760,
+																			line: 2941, col: 9, offset: 92807,
 																		},
 																	},
 																},
@@ -17686,36 +17702,36 @@ var g = &grammar{
 													pos: position{line: 1133, col: 6, offset: 35145},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81189},
+															pos: position{line: 2525, col: 22, offset: 81236},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81189},
+																pos: position{line: 2525, col: 22, offset: 81236},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81439},
+																		pos:        position{line: 2530, col: 31, offset: 81486},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81444},
+																		pos: position{line: 2530, col: 36, offset: 81491},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81445},
+																			pos:        position{line: 2530, col: 37, offset: 81492},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81216},
+																		pos:   position{line: 2525, col: 49, offset: 81263},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 13, offset: 90937},
+																			pos: position{line: 2868, col: 13, offset: 90984},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2868, col: 13, offset: 90937},
+																				pos: position{line: 2868, col: 13, offset: 90984},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 13, offset: 90937},
+																					pos:        position{line: 2868, col: 13, offset: 90984},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17725,28 +17741,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92809},
+																		pos: position{line: 2944, col: 8, offset: 92856},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
+																				pos: position{line: 2931, col: 12, offset: 92629},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17755,9 +17771,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92759},
+																				pos: position{line: 2941, col: 8, offset: 92806},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92760,
+																					line: 2941, col: 9, offset: 92807,
 																				},
 																			},
 																		},
@@ -17808,10 +17824,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 755, col: 8, offset: 24370},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92411},
+																						pos: position{line: 2922, col: 10, offset: 92458},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92411},
+																							pos:        position{line: 2922, col: 10, offset: 92458},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17820,28 +17836,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92809},
+																					pos: position{line: 2944, col: 8, offset: 92856},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92582},
+																							pos: position{line: 2931, col: 12, offset: 92629},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92583},
+																								pos: position{line: 2931, col: 13, offset: 92630},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92583},
+																										pos:        position{line: 2931, col: 13, offset: 92630},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92590},
+																										pos:        position{line: 2931, col: 20, offset: 92637},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92599},
+																										pos:        position{line: 2931, col: 29, offset: 92646},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17850,9 +17866,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92759},
+																							pos: position{line: 2941, col: 8, offset: 92806},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92760,
+																								line: 2941, col: 9, offset: 92807,
 																							},
 																						},
 																					},
@@ -17913,10 +17929,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 755, col: 8, offset: 24370},
 																													expr: &actionExpr{
-																														pos: position{line: 2922, col: 10, offset: 92411},
+																														pos: position{line: 2922, col: 10, offset: 92458},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2922, col: 10, offset: 92411},
+																															pos:        position{line: 2922, col: 10, offset: 92458},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17925,28 +17941,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2944, col: 8, offset: 92809},
+																													pos: position{line: 2944, col: 8, offset: 92856},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2931, col: 12, offset: 92582},
+																															pos: position{line: 2931, col: 12, offset: 92629},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2931, col: 13, offset: 92583},
+																																pos: position{line: 2931, col: 13, offset: 92630},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 13, offset: 92583},
+																																		pos:        position{line: 2931, col: 13, offset: 92630},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 20, offset: 92590},
+																																		pos:        position{line: 2931, col: 20, offset: 92637},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 29, offset: 92599},
+																																		pos:        position{line: 2931, col: 29, offset: 92646},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17955,9 +17971,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2941, col: 8, offset: 92759},
+																															pos: position{line: 2941, col: 8, offset: 92806},
 																															expr: &anyMatcher{
-																																line: 2941, col: 9, offset: 92760,
+																																line: 2941, col: 9, offset: 92807,
 																															},
 																														},
 																													},
@@ -17966,9 +17982,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92759},
+																										pos: position{line: 2941, col: 8, offset: 92806},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92760,
+																											line: 2941, col: 9, offset: 92807,
 																										},
 																									},
 																								},
@@ -17984,21 +18000,21 @@ var g = &grammar{
 																									pos: position{line: 824, col: 5, offset: 26772},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2939, col: 11, offset: 92745},
+																											pos: position{line: 2939, col: 11, offset: 92792},
 																											expr: &anyMatcher{
-																												line: 2939, col: 13, offset: 92747,
+																												line: 2939, col: 13, offset: 92794,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 825, col: 5, offset: 26847},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2868, col: 13, offset: 90937},
+																												pos: position{line: 2868, col: 13, offset: 90984},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2868, col: 13, offset: 90937},
+																													pos: position{line: 2868, col: 13, offset: 90984},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2868, col: 13, offset: 90937},
+																														pos:        position{line: 2868, col: 13, offset: 90984},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18008,28 +18024,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92809},
+																											pos: position{line: 2944, col: 8, offset: 92856},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92582},
+																													pos: position{line: 2931, col: 12, offset: 92629},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92583},
+																														pos: position{line: 2931, col: 13, offset: 92630},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92583},
+																																pos:        position{line: 2931, col: 13, offset: 92630},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92590},
+																																pos:        position{line: 2931, col: 20, offset: 92637},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92599},
+																																pos:        position{line: 2931, col: 29, offset: 92646},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18038,9 +18054,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92759},
+																													pos: position{line: 2941, col: 8, offset: 92806},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92760,
+																														line: 2941, col: 9, offset: 92807,
 																													},
 																												},
 																											},
@@ -18096,10 +18112,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 755, col: 8, offset: 24370},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92411},
+																									pos: position{line: 2922, col: 10, offset: 92458},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92411},
+																										pos:        position{line: 2922, col: 10, offset: 92458},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -18108,28 +18124,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92809},
+																								pos: position{line: 2944, col: 8, offset: 92856},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92582},
+																										pos: position{line: 2931, col: 12, offset: 92629},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92583},
+																											pos: position{line: 2931, col: 13, offset: 92630},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92583},
+																													pos:        position{line: 2931, col: 13, offset: 92630},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92590},
+																													pos:        position{line: 2931, col: 20, offset: 92637},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92599},
+																													pos:        position{line: 2931, col: 29, offset: 92646},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -18138,9 +18154,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92759},
+																										pos: position{line: 2941, col: 8, offset: 92806},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92760,
+																											line: 2941, col: 9, offset: 92807,
 																										},
 																									},
 																								},
@@ -18149,9 +18165,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -18177,10 +18193,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1182, col: 21, offset: 36571},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92411},
+																		pos: position{line: 2922, col: 10, offset: 92458},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92411},
+																			pos:        position{line: 2922, col: 10, offset: 92458},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18282,10 +18298,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1194, col: 28, offset: 37202},
 																													expr: &actionExpr{
-																														pos: position{line: 2922, col: 10, offset: 92411},
+																														pos: position{line: 2922, col: 10, offset: 92458},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2922, col: 10, offset: 92411},
+																															pos:        position{line: 2922, col: 10, offset: 92458},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18432,28 +18448,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92809},
+																	pos: position{line: 2944, col: 8, offset: 92856},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92582},
+																			pos: position{line: 2931, col: 12, offset: 92629},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92583},
+																				pos: position{line: 2931, col: 13, offset: 92630},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92583},
+																						pos:        position{line: 2931, col: 13, offset: 92630},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92590},
+																						pos:        position{line: 2931, col: 20, offset: 92637},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92599},
+																						pos:        position{line: 2931, col: 29, offset: 92646},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18462,9 +18478,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92759},
+																			pos: position{line: 2941, col: 8, offset: 92806},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92760,
+																				line: 2941, col: 9, offset: 92807,
 																			},
 																		},
 																	},
@@ -18544,10 +18560,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 49, offset: 11042},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92411},
+															pos: position{line: 2922, col: 10, offset: 92458},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92411},
+																pos:        position{line: 2922, col: 10, offset: 92458},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18556,28 +18572,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92809},
+														pos: position{line: 2944, col: 8, offset: 92856},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92582},
+																pos: position{line: 2931, col: 12, offset: 92629},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92583},
+																	pos: position{line: 2931, col: 13, offset: 92630},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92583},
+																			pos:        position{line: 2931, col: 13, offset: 92630},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92590},
+																			pos:        position{line: 2931, col: 20, offset: 92637},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92599},
+																			pos:        position{line: 2931, col: 29, offset: 92646},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18586,9 +18602,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92759},
+																pos: position{line: 2941, col: 8, offset: 92806},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92760,
+																	line: 2941, col: 9, offset: 92807,
 																},
 															},
 														},
@@ -18649,10 +18665,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 364, col: 39, offset: 11163},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92411},
+															pos: position{line: 2922, col: 10, offset: 92458},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92411},
+																pos:        position{line: 2922, col: 10, offset: 92458},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18661,28 +18677,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92809},
+														pos: position{line: 2944, col: 8, offset: 92856},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92582},
+																pos: position{line: 2931, col: 12, offset: 92629},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92583},
+																	pos: position{line: 2931, col: 13, offset: 92630},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92583},
+																			pos:        position{line: 2931, col: 13, offset: 92630},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92590},
+																			pos:        position{line: 2931, col: 20, offset: 92637},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92599},
+																			pos:        position{line: 2931, col: 29, offset: 92646},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18691,9 +18707,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92759},
+																pos: position{line: 2941, col: 8, offset: 92806},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92760,
+																	line: 2941, col: 9, offset: 92807,
 																},
 															},
 														},
@@ -18702,36 +18718,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2525, col: 22, offset: 81189},
+											pos: position{line: 2525, col: 22, offset: 81236},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2525, col: 22, offset: 81189},
+												pos: position{line: 2525, col: 22, offset: 81236},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2530, col: 31, offset: 81439},
+														pos:        position{line: 2530, col: 31, offset: 81486},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2530, col: 36, offset: 81444},
+														pos: position{line: 2530, col: 36, offset: 81491},
 														expr: &litMatcher{
-															pos:        position{line: 2530, col: 37, offset: 81445},
+															pos:        position{line: 2530, col: 37, offset: 81492},
 															val:        "/",
 															ignoreCase: false,
 															want:       "\"/\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2525, col: 49, offset: 81216},
+														pos:   position{line: 2525, col: 49, offset: 81263},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2868, col: 13, offset: 90937},
+															pos: position{line: 2868, col: 13, offset: 90984},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2868, col: 13, offset: 90937},
+																pos: position{line: 2868, col: 13, offset: 90984},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2868, col: 13, offset: 90937},
+																	pos:        position{line: 2868, col: 13, offset: 90984},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18741,28 +18757,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92809},
+														pos: position{line: 2944, col: 8, offset: 92856},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92582},
+																pos: position{line: 2931, col: 12, offset: 92629},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92583},
+																	pos: position{line: 2931, col: 13, offset: 92630},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92583},
+																			pos:        position{line: 2931, col: 13, offset: 92630},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92590},
+																			pos:        position{line: 2931, col: 20, offset: 92637},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92599},
+																			pos:        position{line: 2931, col: 29, offset: 92646},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18771,9 +18787,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92759},
+																pos: position{line: 2941, col: 8, offset: 92806},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92760,
+																	line: 2941, col: 9, offset: 92807,
 																},
 															},
 														},
@@ -18824,10 +18840,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 755, col: 8, offset: 24370},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92411},
+																		pos: position{line: 2922, col: 10, offset: 92458},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92411},
+																			pos:        position{line: 2922, col: 10, offset: 92458},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18836,28 +18852,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92809},
+																	pos: position{line: 2944, col: 8, offset: 92856},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92582},
+																			pos: position{line: 2931, col: 12, offset: 92629},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92583},
+																				pos: position{line: 2931, col: 13, offset: 92630},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92583},
+																						pos:        position{line: 2931, col: 13, offset: 92630},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92590},
+																						pos:        position{line: 2931, col: 20, offset: 92637},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92599},
+																						pos:        position{line: 2931, col: 29, offset: 92646},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18866,9 +18882,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92759},
+																			pos: position{line: 2941, col: 8, offset: 92806},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92760,
+																				line: 2941, col: 9, offset: 92807,
 																			},
 																		},
 																	},
@@ -18929,10 +18945,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 755, col: 8, offset: 24370},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92411},
+																										pos: position{line: 2922, col: 10, offset: 92458},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92411},
+																											pos:        position{line: 2922, col: 10, offset: 92458},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18941,28 +18957,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92809},
+																									pos: position{line: 2944, col: 8, offset: 92856},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92582},
+																											pos: position{line: 2931, col: 12, offset: 92629},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92583},
+																												pos: position{line: 2931, col: 13, offset: 92630},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92583},
+																														pos:        position{line: 2931, col: 13, offset: 92630},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92590},
+																														pos:        position{line: 2931, col: 20, offset: 92637},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92599},
+																														pos:        position{line: 2931, col: 29, offset: 92646},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18971,9 +18987,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92759},
+																											pos: position{line: 2941, col: 8, offset: 92806},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92760,
+																												line: 2941, col: 9, offset: 92807,
 																											},
 																										},
 																									},
@@ -18982,9 +18998,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92759},
+																						pos: position{line: 2941, col: 8, offset: 92806},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92760,
+																							line: 2941, col: 9, offset: 92807,
 																						},
 																					},
 																				},
@@ -19000,21 +19016,21 @@ var g = &grammar{
 																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92745},
+																							pos: position{line: 2939, col: 11, offset: 92792},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92747,
+																								line: 2939, col: 13, offset: 92794,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90937},
+																								pos: position{line: 2868, col: 13, offset: 90984},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90937},
+																									pos: position{line: 2868, col: 13, offset: 90984},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90937},
+																										pos:        position{line: 2868, col: 13, offset: 90984},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19024,28 +19040,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19054,9 +19070,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -19112,10 +19128,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 755, col: 8, offset: 24370},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92411},
+																					pos: position{line: 2922, col: 10, offset: 92458},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92411},
+																						pos:        position{line: 2922, col: 10, offset: 92458},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -19124,28 +19140,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92809},
+																				pos: position{line: 2944, col: 8, offset: 92856},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92582},
+																						pos: position{line: 2931, col: 12, offset: 92629},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92583},
+																							pos: position{line: 2931, col: 13, offset: 92630},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92583},
+																									pos:        position{line: 2931, col: 13, offset: 92630},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92590},
+																									pos:        position{line: 2931, col: 20, offset: 92637},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92599},
+																									pos:        position{line: 2931, col: 29, offset: 92646},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -19154,9 +19170,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92759},
+																						pos: position{line: 2941, col: 8, offset: 92806},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92760,
+																							line: 2941, col: 9, offset: 92807,
 																						},
 																					},
 																				},
@@ -19165,9 +19181,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92759},
+																	pos: position{line: 2941, col: 8, offset: 92806},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92760,
+																		line: 2941, col: 9, offset: 92807,
 																	},
 																},
 															},
@@ -19200,12 +19216,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2926, col: 11, offset: 92472},
+							pos: position{line: 2926, col: 11, offset: 92519},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2926, col: 11, offset: 92472},
+								pos: position{line: 2926, col: 11, offset: 92519},
 								expr: &charClassMatcher{
-									pos:        position{line: 2926, col: 11, offset: 92472},
+									pos:        position{line: 2926, col: 11, offset: 92519},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19222,28 +19238,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92809},
+							pos: position{line: 2944, col: 8, offset: 92856},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92582},
+									pos: position{line: 2931, col: 12, offset: 92629},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92583},
+										pos: position{line: 2931, col: 13, offset: 92630},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92583},
+												pos:        position{line: 2931, col: 13, offset: 92630},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92590},
+												pos:        position{line: 2931, col: 20, offset: 92637},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92599},
+												pos:        position{line: 2931, col: 29, offset: 92646},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19252,9 +19268,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92759},
+									pos: position{line: 2941, col: 8, offset: 92806},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92760,
+										line: 2941, col: 9, offset: 92807,
 									},
 								},
 							},
@@ -19293,10 +19309,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1157, col: 5, offset: 35975},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92411},
+								pos: position{line: 2922, col: 10, offset: 92458},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92411},
+									pos:        position{line: 2922, col: 10, offset: 92458},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19328,10 +19344,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1161, col: 5, offset: 36074},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92411},
+								pos: position{line: 2922, col: 10, offset: 92458},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92411},
+									pos:        position{line: 2922, col: 10, offset: 92458},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19363,10 +19379,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1165, col: 5, offset: 36171},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92411},
+								pos: position{line: 2922, col: 10, offset: 92458},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92411},
+									pos:        position{line: 2922, col: 10, offset: 92458},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19380,28 +19396,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1278, col: 1, offset: 39900},
+			pos:  position{line: 1278, col: 1, offset: 39947},
 			expr: &actionExpr{
-				pos: position{line: 1279, col: 5, offset: 39921},
+				pos: position{line: 1279, col: 5, offset: 39968},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1279, col: 5, offset: 39921},
+					pos: position{line: 1279, col: 5, offset: 39968},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1279, col: 5, offset: 39921},
+							pos: position{line: 1279, col: 5, offset: 39968},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1282, col: 5, offset: 39980},
+							pos:        position{line: 1282, col: 5, offset: 40027},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1282, col: 12, offset: 39987},
+							pos:   position{line: 1282, col: 12, offset: 40034},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1282, col: 24, offset: 39999},
+								pos:  position{line: 1282, col: 24, offset: 40046},
 								name: "InlineAttributes",
 							},
 						},
@@ -19411,33 +19427,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1289, col: 1, offset: 40287},
+			pos:  position{line: 1289, col: 1, offset: 40334},
 			expr: &actionExpr{
-				pos: position{line: 1290, col: 5, offset: 40306},
+				pos: position{line: 1290, col: 5, offset: 40353},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1290, col: 5, offset: 40306},
+					pos: position{line: 1290, col: 5, offset: 40353},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1290, col: 5, offset: 40306},
+							pos: position{line: 1290, col: 5, offset: 40353},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1293, col: 5, offset: 40365},
+							pos:        position{line: 1293, col: 5, offset: 40412},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1293, col: 13, offset: 40373},
+							pos:   position{line: 1293, col: 13, offset: 40420},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2907, col: 7, offset: 92063},
+								pos: position{line: 2907, col: 7, offset: 92110},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2907, col: 7, offset: 92063},
+									pos: position{line: 2907, col: 7, offset: 92110},
 									expr: &charClassMatcher{
-										pos:        position{line: 2907, col: 7, offset: 92063},
+										pos:        position{line: 2907, col: 7, offset: 92110},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19447,10 +19463,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1293, col: 21, offset: 40381},
+							pos:   position{line: 1293, col: 21, offset: 40428},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1293, col: 33, offset: 40393},
+								pos:  position{line: 1293, col: 33, offset: 40440},
 								name: "InlineAttributes",
 							},
 						},
@@ -19460,29 +19476,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1300, col: 1, offset: 40692},
+			pos:  position{line: 1300, col: 1, offset: 40739},
 			expr: &actionExpr{
-				pos: position{line: 1300, col: 14, offset: 40705},
+				pos: position{line: 1300, col: 14, offset: 40752},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1300, col: 14, offset: 40705},
+					pos: position{line: 1300, col: 14, offset: 40752},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1300, col: 14, offset: 40705},
+							pos:        position{line: 1300, col: 14, offset: 40752},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1300, col: 19, offset: 40710},
+							pos:   position{line: 1300, col: 19, offset: 40757},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1300, col: 25, offset: 40716},
+								pos:  position{line: 1300, col: 25, offset: 40763},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1300, col: 43, offset: 40734},
+							pos:        position{line: 1300, col: 43, offset: 40781},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19493,25 +19509,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1304, col: 1, offset: 40803},
+			pos:  position{line: 1304, col: 1, offset: 40850},
 			expr: &actionExpr{
-				pos: position{line: 1304, col: 21, offset: 40823},
+				pos: position{line: 1304, col: 21, offset: 40870},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1304, col: 21, offset: 40823},
+					pos:   position{line: 1304, col: 21, offset: 40870},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1304, col: 30, offset: 40832},
+						pos: position{line: 1304, col: 30, offset: 40879},
 						expr: &choiceExpr{
-							pos: position{line: 1304, col: 31, offset: 40833},
+							pos: position{line: 1304, col: 31, offset: 40880},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2816, col: 14, offset: 89580},
+									pos: position{line: 2816, col: 14, offset: 89627},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2816, col: 14, offset: 89580},
+										pos: position{line: 2816, col: 14, offset: 89627},
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 14, offset: 89580},
+											pos:        position{line: 2816, col: 14, offset: 89627},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19520,14 +19536,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1304, col: 43, offset: 40845},
+									pos:  position{line: 1304, col: 43, offset: 40892},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2922, col: 10, offset: 92411},
+									pos: position{line: 2922, col: 10, offset: 92458},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2922, col: 10, offset: 92411},
+										pos:        position{line: 2922, col: 10, offset: 92458},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19535,23 +19551,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2512, col: 5, offset: 80735},
+									pos: position{line: 2512, col: 5, offset: 80782},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2512, col: 5, offset: 80735},
+										pos: position{line: 2512, col: 5, offset: 80782},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2512, col: 5, offset: 80735},
+												pos: position{line: 2512, col: 5, offset: 80782},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2515, col: 5, offset: 80811},
+												pos:   position{line: 2515, col: 5, offset: 80858},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2516, col: 9, offset: 80829},
+													pos: position{line: 2516, col: 9, offset: 80876},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2516, col: 10, offset: 80830},
+														pos:        position{line: 2516, col: 10, offset: 80877},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19598,26 +19614,30 @@ var g = &grammar{
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
+											&andCodeExpr{
+												pos: position{line: 1211, col: 123, offset: 37756},
+												run: (*parser).callonIndexTermContent25,
+											},
 										},
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1304, col: 104, offset: 40906},
-									run: (*parser).callonIndexTermContent25,
+									pos: position{line: 1304, col: 104, offset: 40953},
+									run: (*parser).callonIndexTermContent26,
 									expr: &seqExpr{
-										pos: position{line: 1304, col: 105, offset: 40907},
+										pos: position{line: 1304, col: 105, offset: 40954},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1304, col: 105, offset: 40907},
+												pos: position{line: 1304, col: 105, offset: 40954},
 												expr: &litMatcher{
-													pos:        position{line: 1304, col: 106, offset: 40908},
+													pos:        position{line: 1304, col: 106, offset: 40955},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1304, col: 111, offset: 40913,
+												line: 1304, col: 111, offset: 40960,
 											},
 										},
 									},
@@ -19630,65 +19650,65 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1324, col: 1, offset: 41622},
+			pos:  position{line: 1324, col: 1, offset: 41669},
 			expr: &actionExpr{
-				pos: position{line: 1325, col: 5, offset: 41641},
+				pos: position{line: 1325, col: 5, offset: 41688},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1325, col: 5, offset: 41641},
+					pos: position{line: 1325, col: 5, offset: 41688},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1325, col: 5, offset: 41641},
+							pos:        position{line: 1325, col: 5, offset: 41688},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1325, col: 15, offset: 41651},
+							pos:   position{line: 1325, col: 15, offset: 41698},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2880, col: 13, offset: 91170},
+								pos: position{line: 2880, col: 13, offset: 91217},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2880, col: 13, offset: 91170},
+									pos: position{line: 2880, col: 13, offset: 91217},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2880, col: 13, offset: 91170},
+											pos:   position{line: 2880, col: 13, offset: 91217},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2880, col: 20, offset: 91177},
+												pos: position{line: 2880, col: 20, offset: 91224},
 												expr: &actionExpr{
-													pos: position{line: 2888, col: 11, offset: 91416},
+													pos: position{line: 2888, col: 11, offset: 91463},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2888, col: 12, offset: 91417},
+														pos: position{line: 2888, col: 12, offset: 91464},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2888, col: 12, offset: 91417},
+																pos:        position{line: 2888, col: 12, offset: 91464},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 24, offset: 91429},
+																pos:        position{line: 2888, col: 24, offset: 91476},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 37, offset: 91442},
+																pos:        position{line: 2888, col: 37, offset: 91489},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 48, offset: 91453},
+																pos:        position{line: 2888, col: 48, offset: 91500},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 59, offset: 91464},
+																pos:        position{line: 2888, col: 59, offset: 91511},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19699,38 +19719,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2880, col: 30, offset: 91187},
+											pos:   position{line: 2880, col: 30, offset: 91234},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2893, col: 5, offset: 91528},
+												pos: position{line: 2893, col: 5, offset: 91575},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2893, col: 5, offset: 91528},
+													pos:   position{line: 2893, col: 5, offset: 91575},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2893, col: 14, offset: 91537},
+														pos: position{line: 2893, col: 14, offset: 91584},
 														expr: &choiceExpr{
-															pos: position{line: 2894, col: 9, offset: 91547},
+															pos: position{line: 2894, col: 9, offset: 91594},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2894, col: 9, offset: 91547},
+																	pos: position{line: 2894, col: 9, offset: 91594},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2894, col: 9, offset: 91547},
+																		pos: position{line: 2894, col: 9, offset: 91594},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2894, col: 9, offset: 91547},
+																				pos: position{line: 2894, col: 9, offset: 91594},
 																				expr: &litMatcher{
-																					pos:        position{line: 2894, col: 10, offset: 91548},
+																					pos:        position{line: 2894, col: 10, offset: 91595},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2895, col: 9, offset: 91576},
+																				pos: position{line: 2895, col: 9, offset: 91623},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2895, col: 10, offset: 91577},
+																					pos:        position{line: 2895, col: 10, offset: 91624},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19741,27 +19761,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2898, col: 11, offset: 91789},
+																	pos: position{line: 2898, col: 11, offset: 91836},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2898, col: 11, offset: 91789},
+																			pos:        position{line: 2898, col: 11, offset: 91836},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2898, col: 19, offset: 91797},
+																			pos: position{line: 2898, col: 19, offset: 91844},
 																			expr: &seqExpr{
-																				pos: position{line: 2898, col: 21, offset: 91799},
+																				pos: position{line: 2898, col: 21, offset: 91846},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2898, col: 21, offset: 91799},
+																						pos: position{line: 2898, col: 21, offset: 91846},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92411},
+																							pos: position{line: 2922, col: 10, offset: 92458},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92411},
+																								pos:        position{line: 2922, col: 10, offset: 92458},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19770,11 +19790,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2898, col: 28, offset: 91806},
+																						pos: position{line: 2898, col: 28, offset: 91853},
 																						expr: &notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92759},
+																							pos: position{line: 2941, col: 8, offset: 92806},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92760,
+																								line: 2941, col: 9, offset: 92807,
 																							},
 																						},
 																					},
@@ -20165,14 +20185,18 @@ var g = &grammar{
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
+																			&andCodeExpr{
+																				pos: position{line: 1211, col: 123, offset: 37756},
+																				run: (*parser).callonImageBlock114,
+																			},
 																		},
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2901, col: 11, offset: 91926},
-																	run: (*parser).callonImageBlock114,
+																	pos: position{line: 2901, col: 11, offset: 91973},
+																	run: (*parser).callonImageBlock115,
 																	expr: &litMatcher{
-																		pos:        position{line: 2901, col: 11, offset: 91926},
+																		pos:        position{line: 2901, col: 11, offset: 91973},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20189,20 +20213,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1325, col: 31, offset: 41667},
+							pos:   position{line: 1325, col: 31, offset: 41714},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1325, col: 43, offset: 41679},
+								pos:  position{line: 1325, col: 43, offset: 41726},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1325, col: 61, offset: 41697},
+							pos: position{line: 1325, col: 61, offset: 41744},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92411},
-								run: (*parser).callonImageBlock119,
+								pos: position{line: 2922, col: 10, offset: 92458},
+								run: (*parser).callonImageBlock120,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92411},
+									pos:        position{line: 2922, col: 10, offset: 92458},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20211,28 +20235,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92809},
+							pos: position{line: 2944, col: 8, offset: 92856},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92582},
-									run: (*parser).callonImageBlock122,
+									pos: position{line: 2931, col: 12, offset: 92629},
+									run: (*parser).callonImageBlock123,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92583},
+										pos: position{line: 2931, col: 13, offset: 92630},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92583},
+												pos:        position{line: 2931, col: 13, offset: 92630},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92590},
+												pos:        position{line: 2931, col: 20, offset: 92637},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92599},
+												pos:        position{line: 2931, col: 29, offset: 92646},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20241,9 +20265,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92759},
+									pos: position{line: 2941, col: 8, offset: 92806},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92760,
+										line: 2941, col: 9, offset: 92807,
 									},
 								},
 							},
@@ -20254,74 +20278,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1330, col: 1, offset: 41914},
+			pos:  position{line: 1330, col: 1, offset: 41961},
 			expr: &actionExpr{
-				pos: position{line: 1330, col: 16, offset: 41929},
+				pos: position{line: 1330, col: 16, offset: 41976},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1330, col: 16, offset: 41929},
+					pos: position{line: 1330, col: 16, offset: 41976},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1330, col: 16, offset: 41929},
+							pos:        position{line: 1330, col: 16, offset: 41976},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1330, col: 25, offset: 41938},
+							pos: position{line: 1330, col: 25, offset: 41985},
 							expr: &litMatcher{
-								pos:        position{line: 1330, col: 26, offset: 41939},
+								pos:        position{line: 1330, col: 26, offset: 41986},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1330, col: 30, offset: 41943},
+							pos:   position{line: 1330, col: 30, offset: 41990},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2880, col: 13, offset: 91170},
+								pos: position{line: 2880, col: 13, offset: 91217},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2880, col: 13, offset: 91170},
+									pos: position{line: 2880, col: 13, offset: 91217},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2880, col: 13, offset: 91170},
+											pos:   position{line: 2880, col: 13, offset: 91217},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2880, col: 20, offset: 91177},
+												pos: position{line: 2880, col: 20, offset: 91224},
 												expr: &actionExpr{
-													pos: position{line: 2888, col: 11, offset: 91416},
+													pos: position{line: 2888, col: 11, offset: 91463},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2888, col: 12, offset: 91417},
+														pos: position{line: 2888, col: 12, offset: 91464},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2888, col: 12, offset: 91417},
+																pos:        position{line: 2888, col: 12, offset: 91464},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 24, offset: 91429},
+																pos:        position{line: 2888, col: 24, offset: 91476},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 37, offset: 91442},
+																pos:        position{line: 2888, col: 37, offset: 91489},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 48, offset: 91453},
+																pos:        position{line: 2888, col: 48, offset: 91500},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 59, offset: 91464},
+																pos:        position{line: 2888, col: 59, offset: 91511},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20332,38 +20356,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2880, col: 30, offset: 91187},
+											pos:   position{line: 2880, col: 30, offset: 91234},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2893, col: 5, offset: 91528},
+												pos: position{line: 2893, col: 5, offset: 91575},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2893, col: 5, offset: 91528},
+													pos:   position{line: 2893, col: 5, offset: 91575},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2893, col: 14, offset: 91537},
+														pos: position{line: 2893, col: 14, offset: 91584},
 														expr: &choiceExpr{
-															pos: position{line: 2894, col: 9, offset: 91547},
+															pos: position{line: 2894, col: 9, offset: 91594},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2894, col: 9, offset: 91547},
+																	pos: position{line: 2894, col: 9, offset: 91594},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2894, col: 9, offset: 91547},
+																		pos: position{line: 2894, col: 9, offset: 91594},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2894, col: 9, offset: 91547},
+																				pos: position{line: 2894, col: 9, offset: 91594},
 																				expr: &litMatcher{
-																					pos:        position{line: 2894, col: 10, offset: 91548},
+																					pos:        position{line: 2894, col: 10, offset: 91595},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2895, col: 9, offset: 91576},
+																				pos: position{line: 2895, col: 9, offset: 91623},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2895, col: 10, offset: 91577},
+																					pos:        position{line: 2895, col: 10, offset: 91624},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20374,27 +20398,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2898, col: 11, offset: 91789},
+																	pos: position{line: 2898, col: 11, offset: 91836},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2898, col: 11, offset: 91789},
+																			pos:        position{line: 2898, col: 11, offset: 91836},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2898, col: 19, offset: 91797},
+																			pos: position{line: 2898, col: 19, offset: 91844},
 																			expr: &seqExpr{
-																				pos: position{line: 2898, col: 21, offset: 91799},
+																				pos: position{line: 2898, col: 21, offset: 91846},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2898, col: 21, offset: 91799},
+																						pos: position{line: 2898, col: 21, offset: 91846},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92411},
+																							pos: position{line: 2922, col: 10, offset: 92458},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92411},
+																								pos:        position{line: 2922, col: 10, offset: 92458},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20403,11 +20427,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2898, col: 28, offset: 91806},
+																						pos: position{line: 2898, col: 28, offset: 91853},
 																						expr: &notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92759},
+																							pos: position{line: 2941, col: 8, offset: 92806},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92760,
+																								line: 2941, col: 9, offset: 92807,
 																							},
 																						},
 																					},
@@ -20798,14 +20822,18 @@ var g = &grammar{
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
+																			&andCodeExpr{
+																				pos: position{line: 1211, col: 123, offset: 37756},
+																				run: (*parser).callonInlineImage116,
+																			},
 																		},
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2901, col: 11, offset: 91926},
-																	run: (*parser).callonInlineImage116,
+																	pos: position{line: 2901, col: 11, offset: 91973},
+																	run: (*parser).callonInlineImage117,
 																	expr: &litMatcher{
-																		pos:        position{line: 2901, col: 11, offset: 91926},
+																		pos:        position{line: 2901, col: 11, offset: 91973},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20822,10 +20850,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1330, col: 46, offset: 41959},
+							pos:   position{line: 1330, col: 46, offset: 42006},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1330, col: 58, offset: 41971},
+								pos:  position{line: 1330, col: 58, offset: 42018},
 								name: "InlineAttributes",
 							},
 						},
@@ -20835,29 +20863,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1337, col: 1, offset: 42367},
+			pos:  position{line: 1337, col: 1, offset: 42414},
 			expr: &actionExpr{
-				pos: position{line: 1337, col: 15, offset: 42381},
+				pos: position{line: 1337, col: 15, offset: 42428},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1337, col: 15, offset: 42381},
+					pos: position{line: 1337, col: 15, offset: 42428},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1337, col: 15, offset: 42381},
+							pos:        position{line: 1337, col: 15, offset: 42428},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1337, col: 23, offset: 42389},
+							pos:   position{line: 1337, col: 23, offset: 42436},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1337, col: 29, offset: 42395},
+								pos: position{line: 1337, col: 29, offset: 42442},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1337, col: 29, offset: 42395},
+									pos: position{line: 1337, col: 29, offset: 42442},
 									expr: &charClassMatcher{
-										pos:        position{line: 1337, col: 29, offset: 42395},
+										pos:        position{line: 1337, col: 29, offset: 42442},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20868,10 +20896,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1337, col: 73, offset: 42439},
+							pos:   position{line: 1337, col: 73, offset: 42486},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1337, col: 85, offset: 42451},
+								pos:  position{line: 1337, col: 85, offset: 42498},
 								name: "InlineAttributes",
 							},
 						},
@@ -20881,31 +20909,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1344, col: 1, offset: 42817},
+			pos:  position{line: 1344, col: 1, offset: 42864},
 			expr: &actionExpr{
-				pos: position{line: 1344, col: 19, offset: 42835},
+				pos: position{line: 1344, col: 19, offset: 42882},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1344, col: 19, offset: 42835},
+					pos: position{line: 1344, col: 19, offset: 42882},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1344, col: 19, offset: 42835},
+							pos:        position{line: 1344, col: 19, offset: 42882},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1344, col: 31, offset: 42847},
+							pos:   position{line: 1344, col: 31, offset: 42894},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1344, col: 35, offset: 42851},
+								pos: position{line: 1344, col: 35, offset: 42898},
 								expr: &actionExpr{
-									pos: position{line: 2816, col: 14, offset: 89580},
+									pos: position{line: 2816, col: 14, offset: 89627},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2816, col: 14, offset: 89580},
+										pos: position{line: 2816, col: 14, offset: 89627},
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 14, offset: 89580},
+											pos:        position{line: 2816, col: 14, offset: 89627},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20916,21 +20944,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1344, col: 50, offset: 42866},
+							pos:        position{line: 1344, col: 50, offset: 42913},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1344, col: 54, offset: 42870},
+							pos:   position{line: 1344, col: 54, offset: 42917},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1344, col: 64, offset: 42880},
+								pos:  position{line: 1344, col: 64, offset: 42927},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1344, col: 82, offset: 42898},
+							pos:        position{line: 1344, col: 82, offset: 42945},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20941,24 +20969,24 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1350, col: 1, offset: 43055},
+			pos:  position{line: 1350, col: 1, offset: 43102},
 			expr: &actionExpr{
-				pos: position{line: 1351, col: 5, offset: 43080},
+				pos: position{line: 1351, col: 5, offset: 43127},
 				run: (*parser).callonFootnoteElements1,
 				expr: &seqExpr{
-					pos: position{line: 1351, col: 5, offset: 43080},
+					pos: position{line: 1351, col: 5, offset: 43127},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1351, col: 5, offset: 43080},
+							pos: position{line: 1351, col: 5, offset: 43127},
 							run: (*parser).callonFootnoteElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1355, col: 5, offset: 43191},
+							pos:   position{line: 1355, col: 5, offset: 43238},
 							label: "elements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1355, col: 14, offset: 43200},
+								pos: position{line: 1355, col: 14, offset: 43247},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1355, col: 15, offset: 43201},
+									pos:  position{line: 1355, col: 15, offset: 43248},
 									name: "FootnoteElement",
 								},
 							},
@@ -20969,44 +20997,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1359, col: 1, offset: 43293},
+			pos:  position{line: 1359, col: 1, offset: 43340},
 			expr: &actionExpr{
-				pos: position{line: 1360, col: 5, offset: 43317},
+				pos: position{line: 1360, col: 5, offset: 43364},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1360, col: 5, offset: 43317},
+					pos: position{line: 1360, col: 5, offset: 43364},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1360, col: 5, offset: 43317},
+							pos: position{line: 1360, col: 5, offset: 43364},
 							expr: &litMatcher{
-								pos:        position{line: 1360, col: 6, offset: 43318},
+								pos:        position{line: 1360, col: 6, offset: 43365},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1361, col: 5, offset: 43327},
+							pos:   position{line: 1361, col: 5, offset: 43374},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1362, col: 9, offset: 43345},
+								pos: position{line: 1362, col: 9, offset: 43392},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2821, col: 5, offset: 89653},
+										pos: position{line: 2821, col: 5, offset: 89700},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2821, col: 5, offset: 89653},
+											pos: position{line: 2821, col: 5, offset: 89700},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2821, col: 5, offset: 89653},
+													pos:   position{line: 2821, col: 5, offset: 89700},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2821, col: 11, offset: 89659},
+														pos: position{line: 2821, col: 11, offset: 89706},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2821, col: 11, offset: 89659},
+															pos: position{line: 2821, col: 11, offset: 89706},
 															expr: &charClassMatcher{
-																pos:        position{line: 2821, col: 11, offset: 89659},
+																pos:        position{line: 2821, col: 11, offset: 89706},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21016,36 +21044,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2824, col: 5, offset: 89717},
+													pos: position{line: 2824, col: 5, offset: 89764},
 													expr: &seqExpr{
-														pos: position{line: 2825, col: 9, offset: 89728},
+														pos: position{line: 2825, col: 9, offset: 89775},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2825, col: 9, offset: 89728},
+																pos:        position{line: 2825, col: 9, offset: 89775},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2826, col: 9, offset: 89777},
+																pos: position{line: 2826, col: 9, offset: 89824},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2830, col: 5, offset: 89857},
+													pos: position{line: 2830, col: 5, offset: 89904},
 													expr: &seqExpr{
-														pos: position{line: 2831, col: 9, offset: 89868},
+														pos: position{line: 2831, col: 9, offset: 89915},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2831, col: 9, offset: 89868},
+																pos:        position{line: 2831, col: 9, offset: 89915},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2831, col: 13, offset: 89872},
+																pos:        position{line: 2831, col: 13, offset: 89919},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21058,12 +21086,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2926, col: 11, offset: 92472},
+										pos: position{line: 2926, col: 11, offset: 92519},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2926, col: 11, offset: 92472},
+											pos: position{line: 2926, col: 11, offset: 92519},
 											expr: &charClassMatcher{
-												pos:        position{line: 2926, col: 11, offset: 92472},
+												pos:        position{line: 2926, col: 11, offset: 92519},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21072,21 +21100,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2543, col: 5, offset: 81934},
+										pos: position{line: 2543, col: 5, offset: 81981},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2543, col: 5, offset: 81934},
+											pos: position{line: 2543, col: 5, offset: 81981},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2543, col: 5, offset: 81934},
+													pos:        position{line: 2543, col: 5, offset: 81981},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2543, col: 10, offset: 81939},
+													pos: position{line: 2543, col: 10, offset: 81986},
 													expr: &charClassMatcher{
-														pos:        position{line: 2543, col: 11, offset: 81940},
+														pos:        position{line: 2543, col: 11, offset: 81987},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21097,29 +21125,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2549, col: 5, offset: 82132},
+										pos: position{line: 2549, col: 5, offset: 82179},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2549, col: 5, offset: 82132},
+											pos: position{line: 2549, col: 5, offset: 82179},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2549, col: 5, offset: 82132},
+													pos: position{line: 2549, col: 5, offset: 82179},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2552, col: 5, offset: 82203},
+													pos: position{line: 2552, col: 5, offset: 82250},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2556, col: 5, offset: 82328},
+													pos:        position{line: 2556, col: 5, offset: 82375},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2556, col: 9, offset: 82332},
+													pos: position{line: 2556, col: 9, offset: 82379},
 													expr: &charClassMatcher{
-														pos:        position{line: 2556, col: 10, offset: 82333},
+														pos:        position{line: 2556, col: 10, offset: 82380},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21130,35 +21158,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1365, col: 11, offset: 43412},
+										pos:  position{line: 1365, col: 11, offset: 43459},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1366, col: 11, offset: 43428},
+										pos:  position{line: 1366, col: 11, offset: 43475},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2839, col: 5, offset: 90065},
+										pos: position{line: 2839, col: 5, offset: 90112},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2840, col: 9, offset: 90075},
+											pos: position{line: 2840, col: 9, offset: 90122},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2840, col: 10, offset: 90076},
+													pos:        position{line: 2840, col: 10, offset: 90123},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2842, col: 13, offset: 90173},
+													pos: position{line: 2842, col: 13, offset: 90220},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2842, col: 13, offset: 90173},
+															pos: position{line: 2842, col: 13, offset: 90220},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2845, col: 13, offset: 90273},
+															pos:        position{line: 2845, col: 13, offset: 90320},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21166,20 +21194,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2845, col: 19, offset: 90279},
+													pos:        position{line: 2845, col: 19, offset: 90326},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2848, col: 13, offset: 90317},
+													pos: position{line: 2848, col: 13, offset: 90364},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2848, col: 13, offset: 90317},
+															pos: position{line: 2848, col: 13, offset: 90364},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2851, col: 14, offset: 90410},
+															pos:        position{line: 2851, col: 14, offset: 90457},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21188,18 +21216,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2853, col: 12, offset: 90454},
+													pos: position{line: 2853, col: 12, offset: 90501},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2853, col: 12, offset: 90454},
+															pos:        position{line: 2853, col: 12, offset: 90501},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2853, col: 16, offset: 90458},
+															pos: position{line: 2853, col: 16, offset: 90505},
 															expr: &litMatcher{
-																pos:        position{line: 2853, col: 17, offset: 90459},
+																pos:        position{line: 2853, col: 17, offset: 90506},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21211,36 +21239,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1368, col: 11, offset: 43501},
+										pos:  position{line: 1368, col: 11, offset: 43548},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1219, col: 5, offset: 38102},
+										pos: position{line: 1219, col: 5, offset: 38149},
 										run: (*parser).callonFootnoteElement53,
 										expr: &seqExpr{
-											pos: position{line: 1219, col: 5, offset: 38102},
+											pos: position{line: 1219, col: 5, offset: 38149},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1219, col: 5, offset: 38102},
+													pos: position{line: 1219, col: 5, offset: 38149},
 													run: (*parser).callonFootnoteElement55,
 												},
 												&litMatcher{
-													pos:        position{line: 1222, col: 5, offset: 38178},
+													pos:        position{line: 1222, col: 5, offset: 38225},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1223, col: 5, offset: 38186},
+													pos: position{line: 1223, col: 5, offset: 38233},
 													run: (*parser).callonFootnoteElement57,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1227, col: 5, offset: 38273},
+													pos: position{line: 1227, col: 5, offset: 38320},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92411},
+														pos: position{line: 2922, col: 10, offset: 92458},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92411},
+															pos:        position{line: 2922, col: 10, offset: 92458},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21249,30 +21277,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1227, col: 12, offset: 38280},
+													pos: position{line: 1227, col: 12, offset: 38327},
 													expr: &choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92809},
+														pos: position{line: 2944, col: 8, offset: 92856},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92582},
+																pos: position{line: 2931, col: 12, offset: 92629},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92583},
+																	pos: position{line: 2931, col: 13, offset: 92630},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92583},
+																			pos:        position{line: 2931, col: 13, offset: 92630},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92590},
+																			pos:        position{line: 2931, col: 20, offset: 92637},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92599},
+																			pos:        position{line: 2931, col: 29, offset: 92646},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21281,9 +21309,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92759},
+																pos: position{line: 2941, col: 8, offset: 92806},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92760,
+																	line: 2941, col: 9, offset: 92807,
 																},
 															},
 														},
@@ -21639,23 +21667,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 5, offset: 80735},
+										pos: position{line: 2512, col: 5, offset: 80782},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 5, offset: 80735},
+											pos: position{line: 2512, col: 5, offset: 80782},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 80735},
+													pos: position{line: 2512, col: 5, offset: 80782},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 5, offset: 80811},
+													pos:   position{line: 2515, col: 5, offset: 80858},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2516, col: 9, offset: 80829},
+														pos: position{line: 2516, col: 9, offset: 80876},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2516, col: 10, offset: 80830},
+															pos:        position{line: 2516, col: 10, offset: 80877},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21667,25 +21695,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2931, col: 12, offset: 92582},
+										pos: position{line: 2931, col: 12, offset: 92629},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2931, col: 13, offset: 92583},
+											pos: position{line: 2931, col: 13, offset: 92630},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2931, col: 13, offset: 92583},
+													pos:        position{line: 2931, col: 13, offset: 92630},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 20, offset: 92590},
+													pos:        position{line: 2931, col: 20, offset: 92637},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 29, offset: 92599},
+													pos:        position{line: 2931, col: 29, offset: 92646},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21694,10 +21722,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90719},
+										pos: position{line: 2861, col: 12, offset: 90766},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2861, col: 12, offset: 90719},
+											pos:        position{line: 2861, col: 12, offset: 90766},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21713,32 +21741,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1407, col: 1, offset: 45346},
+			pos:  position{line: 1407, col: 1, offset: 45393},
 			expr: &choiceExpr{
-				pos: position{line: 1407, col: 21, offset: 45366},
+				pos: position{line: 1407, col: 21, offset: 45413},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1407, col: 21, offset: 45366},
+						pos: position{line: 1407, col: 21, offset: 45413},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1407, col: 21, offset: 45366},
+							pos: position{line: 1407, col: 21, offset: 45413},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1407, col: 21, offset: 45366},
+									pos:        position{line: 1407, col: 21, offset: 45413},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1407, col: 30, offset: 45375},
+									pos:   position{line: 1407, col: 30, offset: 45422},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1407, col: 38, offset: 45383},
+										pos: position{line: 1407, col: 38, offset: 45430},
 										expr: &actionExpr{
-											pos: position{line: 1413, col: 30, offset: 45709},
+											pos: position{line: 1413, col: 30, offset: 45756},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1413, col: 30, offset: 45709},
+												pos:        position{line: 1413, col: 30, offset: 45756},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21748,7 +21776,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1407, col: 67, offset: 45412},
+									pos:        position{line: 1407, col: 67, offset: 45459},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21757,34 +21785,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1409, col: 9, offset: 45516},
+						pos: position{line: 1409, col: 9, offset: 45563},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1409, col: 9, offset: 45516},
+							pos: position{line: 1409, col: 9, offset: 45563},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1409, col: 9, offset: 45516},
+									pos:        position{line: 1409, col: 9, offset: 45563},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1409, col: 19, offset: 45526},
+									pos:   position{line: 1409, col: 19, offset: 45573},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1409, col: 27, offset: 45534},
+										pos: position{line: 1409, col: 27, offset: 45581},
 										expr: &choiceExpr{
-											pos: position{line: 1409, col: 28, offset: 45535},
+											pos: position{line: 1409, col: 28, offset: 45582},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1409, col: 28, offset: 45535},
+													pos:  position{line: 1409, col: 28, offset: 45582},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1413, col: 30, offset: 45709},
+													pos: position{line: 1413, col: 30, offset: 45756},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1413, col: 30, offset: 45709},
+														pos:        position{line: 1413, col: 30, offset: 45756},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -21796,7 +21824,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1409, col: 69, offset: 45576},
+									pos:        position{line: 1409, col: 69, offset: 45623},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21809,75 +21837,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1420, col: 1, offset: 45965},
+			pos:  position{line: 1420, col: 1, offset: 46012},
 			expr: &choiceExpr{
-				pos: position{line: 1420, col: 9, offset: 45973},
+				pos: position{line: 1420, col: 9, offset: 46020},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1423, col: 5, offset: 46042},
+						pos: position{line: 1423, col: 5, offset: 46089},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1423, col: 5, offset: 46042},
+							pos: position{line: 1423, col: 5, offset: 46089},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1423, col: 5, offset: 46042},
+									pos:        position{line: 1423, col: 5, offset: 46089},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1424, col: 5, offset: 46051},
+									pos:   position{line: 1424, col: 5, offset: 46098},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2884, col: 23, offset: 91297},
+										pos: position{line: 2884, col: 23, offset: 91344},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2884, col: 23, offset: 91297},
+											pos: position{line: 2884, col: 23, offset: 91344},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2884, col: 23, offset: 91297},
+													pos: position{line: 2884, col: 23, offset: 91344},
 													expr: &litMatcher{
-														pos:        position{line: 2884, col: 24, offset: 91298},
+														pos:        position{line: 2884, col: 24, offset: 91345},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2884, col: 28, offset: 91302},
+													pos:   position{line: 2884, col: 28, offset: 91349},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 11, offset: 91416},
+														pos: position{line: 2888, col: 11, offset: 91463},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2888, col: 12, offset: 91417},
+															pos: position{line: 2888, col: 12, offset: 91464},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2888, col: 12, offset: 91417},
+																	pos:        position{line: 2888, col: 12, offset: 91464},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 24, offset: 91429},
+																	pos:        position{line: 2888, col: 24, offset: 91476},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 37, offset: 91442},
+																	pos:        position{line: 2888, col: 37, offset: 91489},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 48, offset: 91453},
+																	pos:        position{line: 2888, col: 48, offset: 91500},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 59, offset: 91464},
+																	pos:        position{line: 2888, col: 59, offset: 91511},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21887,38 +21915,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2884, col: 44, offset: 91318},
+													pos:   position{line: 2884, col: 44, offset: 91365},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2893, col: 5, offset: 91528},
+														pos: position{line: 2893, col: 5, offset: 91575},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2893, col: 5, offset: 91528},
+															pos:   position{line: 2893, col: 5, offset: 91575},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2893, col: 14, offset: 91537},
+																pos: position{line: 2893, col: 14, offset: 91584},
 																expr: &choiceExpr{
-																	pos: position{line: 2894, col: 9, offset: 91547},
+																	pos: position{line: 2894, col: 9, offset: 91594},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2894, col: 9, offset: 91547},
+																			pos: position{line: 2894, col: 9, offset: 91594},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2894, col: 9, offset: 91547},
+																				pos: position{line: 2894, col: 9, offset: 91594},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2894, col: 9, offset: 91547},
+																						pos: position{line: 2894, col: 9, offset: 91594},
 																						expr: &litMatcher{
-																							pos:        position{line: 2894, col: 10, offset: 91548},
+																							pos:        position{line: 2894, col: 10, offset: 91595},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2895, col: 9, offset: 91576},
+																						pos: position{line: 2895, col: 9, offset: 91623},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2895, col: 10, offset: 91577},
+																							pos:        position{line: 2895, col: 10, offset: 91624},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21929,27 +21957,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2898, col: 11, offset: 91789},
+																			pos: position{line: 2898, col: 11, offset: 91836},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2898, col: 11, offset: 91789},
+																					pos:        position{line: 2898, col: 11, offset: 91836},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2898, col: 19, offset: 91797},
+																					pos: position{line: 2898, col: 19, offset: 91844},
 																					expr: &seqExpr{
-																						pos: position{line: 2898, col: 21, offset: 91799},
+																						pos: position{line: 2898, col: 21, offset: 91846},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2898, col: 21, offset: 91799},
+																								pos: position{line: 2898, col: 21, offset: 91846},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92411},
+																									pos: position{line: 2922, col: 10, offset: 92458},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92411},
+																										pos:        position{line: 2922, col: 10, offset: 92458},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21958,11 +21986,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2898, col: 28, offset: 91806},
+																								pos: position{line: 2898, col: 28, offset: 91853},
 																								expr: &notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -22353,14 +22381,18 @@ var g = &grammar{
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
+																					&andCodeExpr{
+																						pos: position{line: 1211, col: 123, offset: 37756},
+																						run: (*parser).callonLink116,
+																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2901, col: 11, offset: 91926},
-																			run: (*parser).callonLink116,
+																			pos: position{line: 2901, col: 11, offset: 91973},
+																			run: (*parser).callonLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 11, offset: 91926},
+																				pos:        position{line: 2901, col: 11, offset: 91973},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22377,7 +22409,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1429, col: 5, offset: 46270},
+									pos:        position{line: 1429, col: 5, offset: 46317},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22386,38 +22418,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1420, col: 19, offset: 45983},
+						pos:  position{line: 1420, col: 19, offset: 46030},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1420, col: 34, offset: 45998},
+						pos:  position{line: 1420, col: 34, offset: 46045},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1458, col: 17, offset: 47263},
-						run: (*parser).callonLink121,
+						pos: position{line: 1458, col: 17, offset: 47310},
+						run: (*parser).callonLink122,
 						expr: &seqExpr{
-							pos: position{line: 1458, col: 17, offset: 47263},
+							pos: position{line: 1458, col: 17, offset: 47310},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1458, col: 17, offset: 47263},
+									pos:   position{line: 1458, col: 17, offset: 47310},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1463, col: 5, offset: 47428},
-										run: (*parser).callonLink124,
+										pos: position{line: 1463, col: 5, offset: 47475},
+										run: (*parser).callonLink125,
 										expr: &seqExpr{
-											pos: position{line: 1463, col: 5, offset: 47428},
+											pos: position{line: 1463, col: 5, offset: 47475},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1463, col: 5, offset: 47428},
+													pos:   position{line: 1463, col: 5, offset: 47475},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1463, col: 12, offset: 47435},
-														run: (*parser).callonLink127,
+														pos: position{line: 1463, col: 12, offset: 47482},
+														run: (*parser).callonLink128,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1463, col: 12, offset: 47435},
+															pos: position{line: 1463, col: 12, offset: 47482},
 															expr: &charClassMatcher{
-																pos:        position{line: 1463, col: 12, offset: 47435},
+																pos:        position{line: 1463, col: 12, offset: 47482},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22429,41 +22461,41 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1466, col: 5, offset: 47519},
-													run: (*parser).callonLink130,
+													pos: position{line: 1466, col: 5, offset: 47566},
+													run: (*parser).callonLink131,
 												},
 											},
 										},
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1458, col: 43, offset: 47289},
+									pos:        position{line: 1458, col: 43, offset: 47336},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1458, col: 47, offset: 47293},
+									pos:   position{line: 1458, col: 47, offset: 47340},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1475, col: 23, offset: 47813},
-										run: (*parser).callonLink133,
+										pos: position{line: 1475, col: 23, offset: 47860},
+										run: (*parser).callonLink134,
 										expr: &seqExpr{
-											pos: position{line: 1475, col: 23, offset: 47813},
+											pos: position{line: 1475, col: 23, offset: 47860},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1475, col: 23, offset: 47813},
+													pos:   position{line: 1475, col: 23, offset: 47860},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1475, col: 31, offset: 47821},
-														run: (*parser).callonLink136,
+														pos: position{line: 1475, col: 31, offset: 47868},
+														run: (*parser).callonLink137,
 														expr: &seqExpr{
-															pos: position{line: 1475, col: 31, offset: 47821},
+															pos: position{line: 1475, col: 31, offset: 47868},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1475, col: 31, offset: 47821},
+																	pos: position{line: 1475, col: 31, offset: 47868},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1475, col: 31, offset: 47821},
+																		pos:        position{line: 1475, col: 31, offset: 47868},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -22471,20 +22503,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1475, col: 41, offset: 47831},
+																	pos: position{line: 1475, col: 41, offset: 47878},
 																	expr: &seqExpr{
-																		pos: position{line: 1475, col: 42, offset: 47832},
+																		pos: position{line: 1475, col: 42, offset: 47879},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1475, col: 42, offset: 47832},
+																				pos:        position{line: 1475, col: 42, offset: 47879},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1475, col: 46, offset: 47836},
+																				pos: position{line: 1475, col: 46, offset: 47883},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1475, col: 46, offset: 47836},
+																					pos:        position{line: 1475, col: 46, offset: 47883},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22500,8 +22532,8 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1478, col: 5, offset: 47897},
-													run: (*parser).callonLink145,
+													pos: position{line: 1478, col: 5, offset: 47944},
+													run: (*parser).callonLink146,
 												},
 											},
 										},
@@ -22515,68 +22547,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1435, col: 1, offset: 46418},
+			pos:  position{line: 1435, col: 1, offset: 46465},
 			expr: &choiceExpr{
-				pos: position{line: 1437, col: 5, offset: 46454},
+				pos: position{line: 1437, col: 5, offset: 46501},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1437, col: 5, offset: 46454},
+						pos: position{line: 1437, col: 5, offset: 46501},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1437, col: 5, offset: 46454},
+							pos: position{line: 1437, col: 5, offset: 46501},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1437, col: 5, offset: 46454},
+									pos:        position{line: 1437, col: 5, offset: 46501},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1437, col: 17, offset: 46466},
+									pos:   position{line: 1437, col: 17, offset: 46513},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2880, col: 13, offset: 91170},
+										pos: position{line: 2880, col: 13, offset: 91217},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2880, col: 13, offset: 91170},
+											pos: position{line: 2880, col: 13, offset: 91217},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2880, col: 13, offset: 91170},
+													pos:   position{line: 2880, col: 13, offset: 91217},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2880, col: 20, offset: 91177},
+														pos: position{line: 2880, col: 20, offset: 91224},
 														expr: &actionExpr{
-															pos: position{line: 2888, col: 11, offset: 91416},
+															pos: position{line: 2888, col: 11, offset: 91463},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2888, col: 12, offset: 91417},
+																pos: position{line: 2888, col: 12, offset: 91464},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 12, offset: 91417},
+																		pos:        position{line: 2888, col: 12, offset: 91464},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 24, offset: 91429},
+																		pos:        position{line: 2888, col: 24, offset: 91476},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 37, offset: 91442},
+																		pos:        position{line: 2888, col: 37, offset: 91489},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 48, offset: 91453},
+																		pos:        position{line: 2888, col: 48, offset: 91500},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 59, offset: 91464},
+																		pos:        position{line: 2888, col: 59, offset: 91511},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22587,38 +22619,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2880, col: 30, offset: 91187},
+													pos:   position{line: 2880, col: 30, offset: 91234},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2893, col: 5, offset: 91528},
+														pos: position{line: 2893, col: 5, offset: 91575},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2893, col: 5, offset: 91528},
+															pos:   position{line: 2893, col: 5, offset: 91575},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2893, col: 14, offset: 91537},
+																pos: position{line: 2893, col: 14, offset: 91584},
 																expr: &choiceExpr{
-																	pos: position{line: 2894, col: 9, offset: 91547},
+																	pos: position{line: 2894, col: 9, offset: 91594},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2894, col: 9, offset: 91547},
+																			pos: position{line: 2894, col: 9, offset: 91594},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2894, col: 9, offset: 91547},
+																				pos: position{line: 2894, col: 9, offset: 91594},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2894, col: 9, offset: 91547},
+																						pos: position{line: 2894, col: 9, offset: 91594},
 																						expr: &litMatcher{
-																							pos:        position{line: 2894, col: 10, offset: 91548},
+																							pos:        position{line: 2894, col: 10, offset: 91595},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2895, col: 9, offset: 91576},
+																						pos: position{line: 2895, col: 9, offset: 91623},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2895, col: 10, offset: 91577},
+																							pos:        position{line: 2895, col: 10, offset: 91624},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22629,27 +22661,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2898, col: 11, offset: 91789},
+																			pos: position{line: 2898, col: 11, offset: 91836},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2898, col: 11, offset: 91789},
+																					pos:        position{line: 2898, col: 11, offset: 91836},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2898, col: 19, offset: 91797},
+																					pos: position{line: 2898, col: 19, offset: 91844},
 																					expr: &seqExpr{
-																						pos: position{line: 2898, col: 21, offset: 91799},
+																						pos: position{line: 2898, col: 21, offset: 91846},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2898, col: 21, offset: 91799},
+																								pos: position{line: 2898, col: 21, offset: 91846},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92411},
+																									pos: position{line: 2922, col: 10, offset: 92458},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92411},
+																										pos:        position{line: 2922, col: 10, offset: 92458},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22658,11 +22690,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2898, col: 28, offset: 91806},
+																								pos: position{line: 2898, col: 28, offset: 91853},
 																								expr: &notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -23053,14 +23085,18 @@ var g = &grammar{
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
+																					&andCodeExpr{
+																						pos: position{line: 1211, col: 123, offset: 37756},
+																						run: (*parser).callonRelativeLink115,
+																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2901, col: 11, offset: 91926},
-																			run: (*parser).callonRelativeLink115,
+																			pos: position{line: 2901, col: 11, offset: 91973},
+																			run: (*parser).callonRelativeLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 11, offset: 91926},
+																				pos:        position{line: 2901, col: 11, offset: 91973},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23077,10 +23113,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1437, col: 32, offset: 46481},
+									pos:   position{line: 1437, col: 32, offset: 46528},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1437, col: 44, offset: 46493},
+										pos:  position{line: 1437, col: 44, offset: 46540},
 										name: "InlineAttributes",
 									},
 								},
@@ -23088,63 +23124,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1442, col: 5, offset: 46625},
-						run: (*parser).callonRelativeLink119,
+						pos: position{line: 1442, col: 5, offset: 46672},
+						run: (*parser).callonRelativeLink120,
 						expr: &seqExpr{
-							pos: position{line: 1442, col: 5, offset: 46625},
+							pos: position{line: 1442, col: 5, offset: 46672},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1442, col: 5, offset: 46625},
+									pos:        position{line: 1442, col: 5, offset: 46672},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1442, col: 13, offset: 46633},
+									pos:   position{line: 1442, col: 13, offset: 46680},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2880, col: 13, offset: 91170},
-										run: (*parser).callonRelativeLink123,
+										pos: position{line: 2880, col: 13, offset: 91217},
+										run: (*parser).callonRelativeLink124,
 										expr: &seqExpr{
-											pos: position{line: 2880, col: 13, offset: 91170},
+											pos: position{line: 2880, col: 13, offset: 91217},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2880, col: 13, offset: 91170},
+													pos:   position{line: 2880, col: 13, offset: 91217},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2880, col: 20, offset: 91177},
+														pos: position{line: 2880, col: 20, offset: 91224},
 														expr: &actionExpr{
-															pos: position{line: 2888, col: 11, offset: 91416},
-															run: (*parser).callonRelativeLink127,
+															pos: position{line: 2888, col: 11, offset: 91463},
+															run: (*parser).callonRelativeLink128,
 															expr: &choiceExpr{
-																pos: position{line: 2888, col: 12, offset: 91417},
+																pos: position{line: 2888, col: 12, offset: 91464},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 12, offset: 91417},
+																		pos:        position{line: 2888, col: 12, offset: 91464},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 24, offset: 91429},
+																		pos:        position{line: 2888, col: 24, offset: 91476},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 37, offset: 91442},
+																		pos:        position{line: 2888, col: 37, offset: 91489},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 48, offset: 91453},
+																		pos:        position{line: 2888, col: 48, offset: 91500},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 59, offset: 91464},
+																		pos:        position{line: 2888, col: 59, offset: 91511},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23155,38 +23191,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2880, col: 30, offset: 91187},
+													pos:   position{line: 2880, col: 30, offset: 91234},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2893, col: 5, offset: 91528},
-														run: (*parser).callonRelativeLink135,
+														pos: position{line: 2893, col: 5, offset: 91575},
+														run: (*parser).callonRelativeLink136,
 														expr: &labeledExpr{
-															pos:   position{line: 2893, col: 5, offset: 91528},
+															pos:   position{line: 2893, col: 5, offset: 91575},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2893, col: 14, offset: 91537},
+																pos: position{line: 2893, col: 14, offset: 91584},
 																expr: &choiceExpr{
-																	pos: position{line: 2894, col: 9, offset: 91547},
+																	pos: position{line: 2894, col: 9, offset: 91594},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2894, col: 9, offset: 91547},
-																			run: (*parser).callonRelativeLink139,
+																			pos: position{line: 2894, col: 9, offset: 91594},
+																			run: (*parser).callonRelativeLink140,
 																			expr: &seqExpr{
-																				pos: position{line: 2894, col: 9, offset: 91547},
+																				pos: position{line: 2894, col: 9, offset: 91594},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2894, col: 9, offset: 91547},
+																						pos: position{line: 2894, col: 9, offset: 91594},
 																						expr: &litMatcher{
-																							pos:        position{line: 2894, col: 10, offset: 91548},
+																							pos:        position{line: 2894, col: 10, offset: 91595},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2895, col: 9, offset: 91576},
+																						pos: position{line: 2895, col: 9, offset: 91623},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2895, col: 10, offset: 91577},
+																							pos:        position{line: 2895, col: 10, offset: 91624},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23197,27 +23233,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2898, col: 11, offset: 91789},
+																			pos: position{line: 2898, col: 11, offset: 91836},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2898, col: 11, offset: 91789},
+																					pos:        position{line: 2898, col: 11, offset: 91836},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2898, col: 19, offset: 91797},
+																					pos: position{line: 2898, col: 19, offset: 91844},
 																					expr: &seqExpr{
-																						pos: position{line: 2898, col: 21, offset: 91799},
+																						pos: position{line: 2898, col: 21, offset: 91846},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2898, col: 21, offset: 91799},
+																								pos: position{line: 2898, col: 21, offset: 91846},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92411},
-																									run: (*parser).callonRelativeLink150,
+																									pos: position{line: 2922, col: 10, offset: 92458},
+																									run: (*parser).callonRelativeLink151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92411},
+																										pos:        position{line: 2922, col: 10, offset: 92458},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23226,11 +23262,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2898, col: 28, offset: 91806},
+																								pos: position{line: 2898, col: 28, offset: 91853},
 																								expr: &notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -23241,13 +23277,13 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 649, col: 5, offset: 20791},
-																			run: (*parser).callonRelativeLink155,
+																			run: (*parser).callonRelativeLink156,
 																			expr: &seqExpr{
 																				pos: position{line: 649, col: 5, offset: 20791},
 																				exprs: []interface{}{
 																					&andCodeExpr{
 																						pos: position{line: 649, col: 5, offset: 20791},
-																						run: (*parser).callonRelativeLink157,
+																						run: (*parser).callonRelativeLink158,
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 652, col: 5, offset: 20863},
@@ -23257,7 +23293,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 658, col: 5, offset: 21001},
-																									run: (*parser).callonRelativeLink160,
+																									run: (*parser).callonRelativeLink161,
 																									expr: &seqExpr{
 																										pos: position{line: 658, col: 5, offset: 21001},
 																										exprs: []interface{}{
@@ -23272,7 +23308,7 @@ var g = &grammar{
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
-																													run: (*parser).callonRelativeLink164,
+																													run: (*parser).callonRelativeLink165,
 																													expr: &seqExpr{
 																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
@@ -23310,7 +23346,7 @@ var g = &grammar{
 																								},
 																								&actionExpr{
 																									pos: position{line: 665, col: 5, offset: 21269},
-																									run: (*parser).callonRelativeLink170,
+																									run: (*parser).callonRelativeLink171,
 																									expr: &seqExpr{
 																										pos: position{line: 665, col: 5, offset: 21269},
 																										exprs: []interface{}{
@@ -23325,7 +23361,7 @@ var g = &grammar{
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
-																													run: (*parser).callonRelativeLink174,
+																													run: (*parser).callonRelativeLink175,
 																													expr: &seqExpr{
 																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
@@ -23363,7 +23399,7 @@ var g = &grammar{
 																								},
 																								&actionExpr{
 																									pos: position{line: 671, col: 25, offset: 21473},
-																									run: (*parser).callonRelativeLink180,
+																									run: (*parser).callonRelativeLink181,
 																									expr: &seqExpr{
 																										pos: position{line: 671, col: 25, offset: 21473},
 																										exprs: []interface{}{
@@ -23378,7 +23414,7 @@ var g = &grammar{
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
-																													run: (*parser).callonRelativeLink184,
+																													run: (*parser).callonRelativeLink185,
 																													expr: &seqExpr{
 																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
@@ -23412,7 +23448,7 @@ var g = &grammar{
 																													pos: position{line: 671, col: 62, offset: 21510},
 																													expr: &actionExpr{
 																														pos: position{line: 679, col: 17, offset: 21807},
-																														run: (*parser).callonRelativeLink191,
+																														run: (*parser).callonRelativeLink192,
 																														expr: &seqExpr{
 																															pos: position{line: 679, col: 17, offset: 21807},
 																															exprs: []interface{}{
@@ -23430,7 +23466,7 @@ var g = &grammar{
 																																		alternatives: []interface{}{
 																																			&actionExpr{
 																																				pos: position{line: 679, col: 28, offset: 21818},
-																																				run: (*parser).callonRelativeLink196,
+																																				run: (*parser).callonRelativeLink197,
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 679, col: 28, offset: 21818},
 																																					val:        "[A-Za-z]",
@@ -23441,7 +23477,7 @@ var g = &grammar{
 																																			},
 																																			&actionExpr{
 																																				pos: position{line: 681, col: 9, offset: 21872},
-																																				run: (*parser).callonRelativeLink198,
+																																				run: (*parser).callonRelativeLink199,
 																																				expr: &oneOrMoreExpr{
 																																					pos: position{line: 681, col: 9, offset: 21872},
 																																					expr: &charClassMatcher{
@@ -23472,7 +23508,7 @@ var g = &grammar{
 																								},
 																								&actionExpr{
 																									pos: position{line: 675, col: 25, offset: 21644},
-																									run: (*parser).callonRelativeLink202,
+																									run: (*parser).callonRelativeLink203,
 																									expr: &seqExpr{
 																										pos: position{line: 675, col: 25, offset: 21644},
 																										exprs: []interface{}{
@@ -23487,7 +23523,7 @@ var g = &grammar{
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
-																													run: (*parser).callonRelativeLink206,
+																													run: (*parser).callonRelativeLink207,
 																													expr: &seqExpr{
 																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
@@ -23521,7 +23557,7 @@ var g = &grammar{
 																													pos: position{line: 675, col: 63, offset: 21682},
 																													expr: &actionExpr{
 																														pos: position{line: 679, col: 17, offset: 21807},
-																														run: (*parser).callonRelativeLink213,
+																														run: (*parser).callonRelativeLink214,
 																														expr: &seqExpr{
 																															pos: position{line: 679, col: 17, offset: 21807},
 																															exprs: []interface{}{
@@ -23539,7 +23575,7 @@ var g = &grammar{
 																																		alternatives: []interface{}{
 																																			&actionExpr{
 																																				pos: position{line: 679, col: 28, offset: 21818},
-																																				run: (*parser).callonRelativeLink218,
+																																				run: (*parser).callonRelativeLink219,
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 679, col: 28, offset: 21818},
 																																					val:        "[A-Za-z]",
@@ -23550,7 +23586,7 @@ var g = &grammar{
 																																			},
 																																			&actionExpr{
 																																				pos: position{line: 681, col: 9, offset: 21872},
-																																				run: (*parser).callonRelativeLink220,
+																																				run: (*parser).callonRelativeLink221,
 																																				expr: &oneOrMoreExpr{
 																																					pos: position{line: 681, col: 9, offset: 21872},
 																																					expr: &charClassMatcher{
@@ -23587,7 +23623,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 1211, col: 23, offset: 37656},
-																			run: (*parser).callonRelativeLink224,
+																			run: (*parser).callonRelativeLink225,
 																			expr: &seqExpr{
 																				pos: position{line: 1211, col: 23, offset: 37656},
 																				exprs: []interface{}{
@@ -23602,7 +23638,7 @@ var g = &grammar{
 																						label: "ref",
 																						expr: &actionExpr{
 																							pos: position{line: 1211, col: 56, offset: 37689},
-																							run: (*parser).callonRelativeLink228,
+																							run: (*parser).callonRelativeLink229,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 1211, col: 56, offset: 37689},
 																								expr: &charClassMatcher{
@@ -23621,14 +23657,18 @@ var g = &grammar{
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
+																					&andCodeExpr{
+																						pos: position{line: 1211, col: 123, offset: 37756},
+																						run: (*parser).callonRelativeLink233,
+																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2901, col: 11, offset: 91926},
-																			run: (*parser).callonRelativeLink232,
+																			pos: position{line: 2901, col: 11, offset: 91973},
+																			run: (*parser).callonRelativeLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 11, offset: 91926},
+																				pos:        position{line: 2901, col: 11, offset: 91973},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23645,10 +23685,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1442, col: 28, offset: 46648},
+									pos:   position{line: 1442, col: 28, offset: 46695},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1442, col: 40, offset: 46660},
+										pos:  position{line: 1442, col: 40, offset: 46707},
 										name: "InlineAttributes",
 									},
 								},
@@ -23660,75 +23700,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1446, col: 1, offset: 46776},
+			pos:  position{line: 1446, col: 1, offset: 46823},
 			expr: &choiceExpr{
-				pos: position{line: 1449, col: 5, offset: 46938},
+				pos: position{line: 1449, col: 5, offset: 46985},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1449, col: 5, offset: 46938},
+						pos: position{line: 1449, col: 5, offset: 46985},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1449, col: 5, offset: 46938},
+							pos: position{line: 1449, col: 5, offset: 46985},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1449, col: 5, offset: 46938},
+									pos:        position{line: 1449, col: 5, offset: 46985},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1449, col: 9, offset: 46942},
+									pos:   position{line: 1449, col: 9, offset: 46989},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2884, col: 23, offset: 91297},
+										pos: position{line: 2884, col: 23, offset: 91344},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2884, col: 23, offset: 91297},
+											pos: position{line: 2884, col: 23, offset: 91344},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2884, col: 23, offset: 91297},
+													pos: position{line: 2884, col: 23, offset: 91344},
 													expr: &litMatcher{
-														pos:        position{line: 2884, col: 24, offset: 91298},
+														pos:        position{line: 2884, col: 24, offset: 91345},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2884, col: 28, offset: 91302},
+													pos:   position{line: 2884, col: 28, offset: 91349},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 11, offset: 91416},
+														pos: position{line: 2888, col: 11, offset: 91463},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2888, col: 12, offset: 91417},
+															pos: position{line: 2888, col: 12, offset: 91464},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2888, col: 12, offset: 91417},
+																	pos:        position{line: 2888, col: 12, offset: 91464},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 24, offset: 91429},
+																	pos:        position{line: 2888, col: 24, offset: 91476},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 37, offset: 91442},
+																	pos:        position{line: 2888, col: 37, offset: 91489},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 48, offset: 91453},
+																	pos:        position{line: 2888, col: 48, offset: 91500},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 59, offset: 91464},
+																	pos:        position{line: 2888, col: 59, offset: 91511},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23738,38 +23778,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2884, col: 44, offset: 91318},
+													pos:   position{line: 2884, col: 44, offset: 91365},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2893, col: 5, offset: 91528},
+														pos: position{line: 2893, col: 5, offset: 91575},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2893, col: 5, offset: 91528},
+															pos:   position{line: 2893, col: 5, offset: 91575},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2893, col: 14, offset: 91537},
+																pos: position{line: 2893, col: 14, offset: 91584},
 																expr: &choiceExpr{
-																	pos: position{line: 2894, col: 9, offset: 91547},
+																	pos: position{line: 2894, col: 9, offset: 91594},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2894, col: 9, offset: 91547},
+																			pos: position{line: 2894, col: 9, offset: 91594},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2894, col: 9, offset: 91547},
+																				pos: position{line: 2894, col: 9, offset: 91594},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2894, col: 9, offset: 91547},
+																						pos: position{line: 2894, col: 9, offset: 91594},
 																						expr: &litMatcher{
-																							pos:        position{line: 2894, col: 10, offset: 91548},
+																							pos:        position{line: 2894, col: 10, offset: 91595},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2895, col: 9, offset: 91576},
+																						pos: position{line: 2895, col: 9, offset: 91623},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2895, col: 10, offset: 91577},
+																							pos:        position{line: 2895, col: 10, offset: 91624},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23780,27 +23820,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2898, col: 11, offset: 91789},
+																			pos: position{line: 2898, col: 11, offset: 91836},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2898, col: 11, offset: 91789},
+																					pos:        position{line: 2898, col: 11, offset: 91836},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2898, col: 19, offset: 91797},
+																					pos: position{line: 2898, col: 19, offset: 91844},
 																					expr: &seqExpr{
-																						pos: position{line: 2898, col: 21, offset: 91799},
+																						pos: position{line: 2898, col: 21, offset: 91846},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2898, col: 21, offset: 91799},
+																								pos: position{line: 2898, col: 21, offset: 91846},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92411},
+																									pos: position{line: 2922, col: 10, offset: 92458},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92411},
+																										pos:        position{line: 2922, col: 10, offset: 92458},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23809,11 +23849,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2898, col: 28, offset: 91806},
+																								pos: position{line: 2898, col: 28, offset: 91853},
 																								expr: &notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -24204,14 +24244,18 @@ var g = &grammar{
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
+																					&andCodeExpr{
+																						pos: position{line: 1211, col: 123, offset: 37756},
+																						run: (*parser).callonExternalLink116,
+																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2901, col: 11, offset: 91926},
-																			run: (*parser).callonExternalLink116,
+																			pos: position{line: 2901, col: 11, offset: 91973},
+																			run: (*parser).callonExternalLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 11, offset: 91926},
+																				pos:        position{line: 2901, col: 11, offset: 91973},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24228,12 +24272,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1449, col: 34, offset: 46967},
+									pos:   position{line: 1449, col: 34, offset: 47014},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1449, col: 45, offset: 46978},
+										pos: position{line: 1449, col: 45, offset: 47025},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1449, col: 46, offset: 46979},
+											pos:  position{line: 1449, col: 46, offset: 47026},
 											name: "InlineAttributes",
 										},
 									},
@@ -24242,64 +24286,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1454, col: 5, offset: 47112},
-						run: (*parser).callonExternalLink121,
+						pos: position{line: 1454, col: 5, offset: 47159},
+						run: (*parser).callonExternalLink122,
 						expr: &seqExpr{
-							pos: position{line: 1454, col: 5, offset: 47112},
+							pos: position{line: 1454, col: 5, offset: 47159},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1454, col: 5, offset: 47112},
+									pos:   position{line: 1454, col: 5, offset: 47159},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2884, col: 23, offset: 91297},
-										run: (*parser).callonExternalLink124,
+										pos: position{line: 2884, col: 23, offset: 91344},
+										run: (*parser).callonExternalLink125,
 										expr: &seqExpr{
-											pos: position{line: 2884, col: 23, offset: 91297},
+											pos: position{line: 2884, col: 23, offset: 91344},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2884, col: 23, offset: 91297},
+													pos: position{line: 2884, col: 23, offset: 91344},
 													expr: &litMatcher{
-														pos:        position{line: 2884, col: 24, offset: 91298},
+														pos:        position{line: 2884, col: 24, offset: 91345},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2884, col: 28, offset: 91302},
+													pos:   position{line: 2884, col: 28, offset: 91349},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 11, offset: 91416},
-														run: (*parser).callonExternalLink129,
+														pos: position{line: 2888, col: 11, offset: 91463},
+														run: (*parser).callonExternalLink130,
 														expr: &choiceExpr{
-															pos: position{line: 2888, col: 12, offset: 91417},
+															pos: position{line: 2888, col: 12, offset: 91464},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2888, col: 12, offset: 91417},
+																	pos:        position{line: 2888, col: 12, offset: 91464},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 24, offset: 91429},
+																	pos:        position{line: 2888, col: 24, offset: 91476},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 37, offset: 91442},
+																	pos:        position{line: 2888, col: 37, offset: 91489},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 48, offset: 91453},
+																	pos:        position{line: 2888, col: 48, offset: 91500},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 59, offset: 91464},
+																	pos:        position{line: 2888, col: 59, offset: 91511},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24309,38 +24353,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2884, col: 44, offset: 91318},
+													pos:   position{line: 2884, col: 44, offset: 91365},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2893, col: 5, offset: 91528},
-														run: (*parser).callonExternalLink137,
+														pos: position{line: 2893, col: 5, offset: 91575},
+														run: (*parser).callonExternalLink138,
 														expr: &labeledExpr{
-															pos:   position{line: 2893, col: 5, offset: 91528},
+															pos:   position{line: 2893, col: 5, offset: 91575},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2893, col: 14, offset: 91537},
+																pos: position{line: 2893, col: 14, offset: 91584},
 																expr: &choiceExpr{
-																	pos: position{line: 2894, col: 9, offset: 91547},
+																	pos: position{line: 2894, col: 9, offset: 91594},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2894, col: 9, offset: 91547},
-																			run: (*parser).callonExternalLink141,
+																			pos: position{line: 2894, col: 9, offset: 91594},
+																			run: (*parser).callonExternalLink142,
 																			expr: &seqExpr{
-																				pos: position{line: 2894, col: 9, offset: 91547},
+																				pos: position{line: 2894, col: 9, offset: 91594},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2894, col: 9, offset: 91547},
+																						pos: position{line: 2894, col: 9, offset: 91594},
 																						expr: &litMatcher{
-																							pos:        position{line: 2894, col: 10, offset: 91548},
+																							pos:        position{line: 2894, col: 10, offset: 91595},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2895, col: 9, offset: 91576},
+																						pos: position{line: 2895, col: 9, offset: 91623},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2895, col: 10, offset: 91577},
+																							pos:        position{line: 2895, col: 10, offset: 91624},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24351,27 +24395,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2898, col: 11, offset: 91789},
+																			pos: position{line: 2898, col: 11, offset: 91836},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2898, col: 11, offset: 91789},
+																					pos:        position{line: 2898, col: 11, offset: 91836},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2898, col: 19, offset: 91797},
+																					pos: position{line: 2898, col: 19, offset: 91844},
 																					expr: &seqExpr{
-																						pos: position{line: 2898, col: 21, offset: 91799},
+																						pos: position{line: 2898, col: 21, offset: 91846},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2898, col: 21, offset: 91799},
+																								pos: position{line: 2898, col: 21, offset: 91846},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92411},
-																									run: (*parser).callonExternalLink152,
+																									pos: position{line: 2922, col: 10, offset: 92458},
+																									run: (*parser).callonExternalLink153,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92411},
+																										pos:        position{line: 2922, col: 10, offset: 92458},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24380,11 +24424,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2898, col: 28, offset: 91806},
+																								pos: position{line: 2898, col: 28, offset: 91853},
 																								expr: &notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -24395,13 +24439,13 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 649, col: 5, offset: 20791},
-																			run: (*parser).callonExternalLink157,
+																			run: (*parser).callonExternalLink158,
 																			expr: &seqExpr{
 																				pos: position{line: 649, col: 5, offset: 20791},
 																				exprs: []interface{}{
 																					&andCodeExpr{
 																						pos: position{line: 649, col: 5, offset: 20791},
-																						run: (*parser).callonExternalLink159,
+																						run: (*parser).callonExternalLink160,
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 652, col: 5, offset: 20863},
@@ -24411,7 +24455,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 658, col: 5, offset: 21001},
-																									run: (*parser).callonExternalLink162,
+																									run: (*parser).callonExternalLink163,
 																									expr: &seqExpr{
 																										pos: position{line: 658, col: 5, offset: 21001},
 																										exprs: []interface{}{
@@ -24426,7 +24470,7 @@ var g = &grammar{
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
-																													run: (*parser).callonExternalLink166,
+																													run: (*parser).callonExternalLink167,
 																													expr: &seqExpr{
 																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
@@ -24464,7 +24508,7 @@ var g = &grammar{
 																								},
 																								&actionExpr{
 																									pos: position{line: 665, col: 5, offset: 21269},
-																									run: (*parser).callonExternalLink172,
+																									run: (*parser).callonExternalLink173,
 																									expr: &seqExpr{
 																										pos: position{line: 665, col: 5, offset: 21269},
 																										exprs: []interface{}{
@@ -24479,7 +24523,7 @@ var g = &grammar{
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
-																													run: (*parser).callonExternalLink176,
+																													run: (*parser).callonExternalLink177,
 																													expr: &seqExpr{
 																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
@@ -24517,7 +24561,7 @@ var g = &grammar{
 																								},
 																								&actionExpr{
 																									pos: position{line: 671, col: 25, offset: 21473},
-																									run: (*parser).callonExternalLink182,
+																									run: (*parser).callonExternalLink183,
 																									expr: &seqExpr{
 																										pos: position{line: 671, col: 25, offset: 21473},
 																										exprs: []interface{}{
@@ -24532,7 +24576,7 @@ var g = &grammar{
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
-																													run: (*parser).callonExternalLink186,
+																													run: (*parser).callonExternalLink187,
 																													expr: &seqExpr{
 																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
@@ -24566,7 +24610,7 @@ var g = &grammar{
 																													pos: position{line: 671, col: 62, offset: 21510},
 																													expr: &actionExpr{
 																														pos: position{line: 679, col: 17, offset: 21807},
-																														run: (*parser).callonExternalLink193,
+																														run: (*parser).callonExternalLink194,
 																														expr: &seqExpr{
 																															pos: position{line: 679, col: 17, offset: 21807},
 																															exprs: []interface{}{
@@ -24584,7 +24628,7 @@ var g = &grammar{
 																																		alternatives: []interface{}{
 																																			&actionExpr{
 																																				pos: position{line: 679, col: 28, offset: 21818},
-																																				run: (*parser).callonExternalLink198,
+																																				run: (*parser).callonExternalLink199,
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 679, col: 28, offset: 21818},
 																																					val:        "[A-Za-z]",
@@ -24595,7 +24639,7 @@ var g = &grammar{
 																																			},
 																																			&actionExpr{
 																																				pos: position{line: 681, col: 9, offset: 21872},
-																																				run: (*parser).callonExternalLink200,
+																																				run: (*parser).callonExternalLink201,
 																																				expr: &oneOrMoreExpr{
 																																					pos: position{line: 681, col: 9, offset: 21872},
 																																					expr: &charClassMatcher{
@@ -24626,7 +24670,7 @@ var g = &grammar{
 																								},
 																								&actionExpr{
 																									pos: position{line: 675, col: 25, offset: 21644},
-																									run: (*parser).callonExternalLink204,
+																									run: (*parser).callonExternalLink205,
 																									expr: &seqExpr{
 																										pos: position{line: 675, col: 25, offset: 21644},
 																										exprs: []interface{}{
@@ -24641,7 +24685,7 @@ var g = &grammar{
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
-																													run: (*parser).callonExternalLink208,
+																													run: (*parser).callonExternalLink209,
 																													expr: &seqExpr{
 																														pos: position{line: 320, col: 18, offset: 9837},
 																														exprs: []interface{}{
@@ -24675,7 +24719,7 @@ var g = &grammar{
 																													pos: position{line: 675, col: 63, offset: 21682},
 																													expr: &actionExpr{
 																														pos: position{line: 679, col: 17, offset: 21807},
-																														run: (*parser).callonExternalLink215,
+																														run: (*parser).callonExternalLink216,
 																														expr: &seqExpr{
 																															pos: position{line: 679, col: 17, offset: 21807},
 																															exprs: []interface{}{
@@ -24693,7 +24737,7 @@ var g = &grammar{
 																																		alternatives: []interface{}{
 																																			&actionExpr{
 																																				pos: position{line: 679, col: 28, offset: 21818},
-																																				run: (*parser).callonExternalLink220,
+																																				run: (*parser).callonExternalLink221,
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 679, col: 28, offset: 21818},
 																																					val:        "[A-Za-z]",
@@ -24704,7 +24748,7 @@ var g = &grammar{
 																																			},
 																																			&actionExpr{
 																																				pos: position{line: 681, col: 9, offset: 21872},
-																																				run: (*parser).callonExternalLink222,
+																																				run: (*parser).callonExternalLink223,
 																																				expr: &oneOrMoreExpr{
 																																					pos: position{line: 681, col: 9, offset: 21872},
 																																					expr: &charClassMatcher{
@@ -24741,7 +24785,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 1211, col: 23, offset: 37656},
-																			run: (*parser).callonExternalLink226,
+																			run: (*parser).callonExternalLink227,
 																			expr: &seqExpr{
 																				pos: position{line: 1211, col: 23, offset: 37656},
 																				exprs: []interface{}{
@@ -24756,7 +24800,7 @@ var g = &grammar{
 																						label: "ref",
 																						expr: &actionExpr{
 																							pos: position{line: 1211, col: 56, offset: 37689},
-																							run: (*parser).callonExternalLink230,
+																							run: (*parser).callonExternalLink231,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 1211, col: 56, offset: 37689},
 																								expr: &charClassMatcher{
@@ -24775,14 +24819,18 @@ var g = &grammar{
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
+																					&andCodeExpr{
+																						pos: position{line: 1211, col: 123, offset: 37756},
+																						run: (*parser).callonExternalLink235,
+																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2901, col: 11, offset: 91926},
-																			run: (*parser).callonExternalLink234,
+																			pos: position{line: 2901, col: 11, offset: 91973},
+																			run: (*parser).callonExternalLink236,
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 11, offset: 91926},
+																				pos:        position{line: 2901, col: 11, offset: 91973},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24799,12 +24847,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1454, col: 30, offset: 47137},
+									pos:   position{line: 1454, col: 30, offset: 47184},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1454, col: 41, offset: 47148},
+										pos: position{line: 1454, col: 41, offset: 47195},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1454, col: 42, offset: 47149},
+											pos:  position{line: 1454, col: 42, offset: 47196},
 											name: "InlineAttributes",
 										},
 									},
@@ -24817,41 +24865,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1488, col: 1, offset: 48290},
+			pos:  position{line: 1488, col: 1, offset: 48337},
 			expr: &actionExpr{
-				pos: position{line: 1489, col: 5, offset: 48311},
+				pos: position{line: 1489, col: 5, offset: 48358},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1489, col: 5, offset: 48311},
+					pos: position{line: 1489, col: 5, offset: 48358},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1489, col: 5, offset: 48311},
+							pos:   position{line: 1489, col: 5, offset: 48358},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1495, col: 5, offset: 48513},
+								pos: position{line: 1495, col: 5, offset: 48560},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1589, col: 5, offset: 51481},
+										pos: position{line: 1589, col: 5, offset: 51528},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1589, col: 5, offset: 51481},
+											pos: position{line: 1589, col: 5, offset: 51528},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1589, col: 5, offset: 51481},
+													pos:   position{line: 1589, col: 5, offset: 51528},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1596, col: 5, offset: 51689},
+														pos: position{line: 1596, col: 5, offset: 51736},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1596, col: 5, offset: 51689},
+															pos: position{line: 1596, col: 5, offset: 51736},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1596, col: 5, offset: 51689},
+																	pos: position{line: 1596, col: 5, offset: 51736},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92411},
+																		pos: position{line: 2922, col: 10, offset: 92458},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92411},
+																			pos:        position{line: 2922, col: 10, offset: 92458},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24860,27 +24908,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1596, col: 12, offset: 51696},
+																	pos:   position{line: 1596, col: 12, offset: 51743},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1598, col: 9, offset: 51759},
+																		pos: position{line: 1598, col: 9, offset: 51806},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1598, col: 9, offset: 51759},
+																				pos: position{line: 1598, col: 9, offset: 51806},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1598, col: 9, offset: 51759},
+																					pos: position{line: 1598, col: 9, offset: 51806},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1598, col: 9, offset: 51759},
+																							pos:   position{line: 1598, col: 9, offset: 51806},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1598, col: 16, offset: 51766},
+																								pos: position{line: 1598, col: 16, offset: 51813},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1598, col: 16, offset: 51766},
+																									pos: position{line: 1598, col: 16, offset: 51813},
 																									expr: &litMatcher{
-																										pos:        position{line: 1598, col: 17, offset: 51767},
+																										pos:        position{line: 1598, col: 17, offset: 51814},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24889,22 +24937,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1602, col: 9, offset: 51867},
+																							pos: position{line: 1602, col: 9, offset: 51914},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 11, offset: 52584},
+																				pos: position{line: 1621, col: 11, offset: 52631},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 11, offset: 52584},
+																					pos: position{line: 1621, col: 11, offset: 52631},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1621, col: 11, offset: 52584},
+																							pos: position{line: 1621, col: 11, offset: 52631},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1621, col: 12, offset: 52585},
+																								pos:        position{line: 1621, col: 12, offset: 52632},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24912,7 +24960,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 20, offset: 52593},
+																							pos:        position{line: 1621, col: 20, offset: 52640},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24921,20 +24969,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1623, col: 13, offset: 52710},
+																				pos: position{line: 1623, col: 13, offset: 52757},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1623, col: 13, offset: 52710},
+																					pos: position{line: 1623, col: 13, offset: 52757},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1623, col: 14, offset: 52711},
+																							pos:        position{line: 1623, col: 14, offset: 52758},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1623, col: 21, offset: 52718},
+																							pos:        position{line: 1623, col: 21, offset: 52765},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24943,20 +24991,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1625, col: 13, offset: 52838},
+																				pos: position{line: 1625, col: 13, offset: 52885},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1625, col: 13, offset: 52838},
+																					pos: position{line: 1625, col: 13, offset: 52885},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1625, col: 14, offset: 52839},
+																							pos:        position{line: 1625, col: 14, offset: 52886},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1625, col: 21, offset: 52846},
+																							pos:        position{line: 1625, col: 21, offset: 52893},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24965,15 +25013,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1627, col: 13, offset: 52966},
+																				pos: position{line: 1627, col: 13, offset: 53013},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1627, col: 13, offset: 52966},
+																					pos: position{line: 1627, col: 13, offset: 53013},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1627, col: 13, offset: 52966},
+																							pos: position{line: 1627, col: 13, offset: 53013},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1627, col: 14, offset: 52967},
+																								pos:        position{line: 1627, col: 14, offset: 53014},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -24981,7 +25029,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1627, col: 26, offset: 52979},
+																							pos:        position{line: 1627, col: 26, offset: 53026},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24990,15 +25038,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1629, col: 13, offset: 53099},
+																				pos: position{line: 1629, col: 13, offset: 53146},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1629, col: 13, offset: 53099},
+																					pos: position{line: 1629, col: 13, offset: 53146},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1629, col: 13, offset: 53099},
+																							pos: position{line: 1629, col: 13, offset: 53146},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1629, col: 14, offset: 53100},
+																								pos:        position{line: 1629, col: 14, offset: 53147},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -25006,7 +25054,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1629, col: 26, offset: 53112},
+																							pos:        position{line: 1629, col: 26, offset: 53159},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25018,12 +25066,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92472},
+																	pos: position{line: 2926, col: 11, offset: 92519},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92472},
+																		pos: position{line: 2926, col: 11, offset: 92519},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92472},
+																			pos:        position{line: 2926, col: 11, offset: 92519},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25036,26 +25084,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1590, col: 5, offset: 51520},
+													pos:   position{line: 1590, col: 5, offset: 51567},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1536, col: 5, offset: 49953},
+														pos: position{line: 1536, col: 5, offset: 50000},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1536, col: 5, offset: 49953},
+															pos: position{line: 1536, col: 5, offset: 50000},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1536, col: 5, offset: 49953},
+																	pos:   position{line: 1536, col: 5, offset: 50000},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1536, col: 14, offset: 49962},
+																		pos: position{line: 1536, col: 14, offset: 50009},
 																		expr: &actionExpr{
-																			pos: position{line: 1536, col: 15, offset: 49963},
+																			pos: position{line: 1536, col: 15, offset: 50010},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1536, col: 15, offset: 49963},
+																				pos: position{line: 1536, col: 15, offset: 50010},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1536, col: 15, offset: 49963},
+																					pos:        position{line: 1536, col: 15, offset: 50010},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25066,28 +25114,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92809},
+																	pos: position{line: 2944, col: 8, offset: 92856},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92582},
+																			pos: position{line: 2931, col: 12, offset: 92629},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92583},
+																				pos: position{line: 2931, col: 13, offset: 92630},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92583},
+																						pos:        position{line: 2931, col: 13, offset: 92630},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92590},
+																						pos:        position{line: 2931, col: 20, offset: 92637},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92599},
+																						pos:        position{line: 2931, col: 29, offset: 92646},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25096,9 +25144,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92759},
+																			pos: position{line: 2941, col: 8, offset: 92806},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92760,
+																				line: 2941, col: 9, offset: 92807,
 																			},
 																		},
 																	},
@@ -25111,27 +25159,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1639, col: 5, offset: 53378},
+										pos: position{line: 1639, col: 5, offset: 53425},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1639, col: 5, offset: 53378},
+											pos: position{line: 1639, col: 5, offset: 53425},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1639, col: 5, offset: 53378},
+													pos:   position{line: 1639, col: 5, offset: 53425},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1646, col: 5, offset: 53651},
+														pos: position{line: 1646, col: 5, offset: 53698},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1646, col: 5, offset: 53651},
+															pos: position{line: 1646, col: 5, offset: 53698},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1646, col: 5, offset: 53651},
+																	pos: position{line: 1646, col: 5, offset: 53698},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92411},
+																		pos: position{line: 2922, col: 10, offset: 92458},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92411},
+																			pos:        position{line: 2922, col: 10, offset: 92458},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25140,24 +25188,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1647, col: 5, offset: 53663},
+																	pos:   position{line: 1647, col: 5, offset: 53710},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1648, col: 9, offset: 53679},
+																		pos: position{line: 1648, col: 9, offset: 53726},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1648, col: 10, offset: 53680},
+																			pos: position{line: 1648, col: 10, offset: 53727},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1648, col: 11, offset: 53681},
+																					pos:        position{line: 1648, col: 11, offset: 53728},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1648, col: 18, offset: 53688},
+																					pos: position{line: 1648, col: 18, offset: 53735},
 																					expr: &litMatcher{
-																						pos:        position{line: 1648, col: 19, offset: 53689},
+																						pos:        position{line: 1648, col: 19, offset: 53736},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -25168,16 +25216,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1651, col: 7, offset: 53779},
+																	pos: position{line: 1651, col: 7, offset: 53826},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92472},
+																	pos: position{line: 2926, col: 11, offset: 92519},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92472},
+																		pos: position{line: 2926, col: 11, offset: 92519},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92472},
+																			pos:        position{line: 2926, col: 11, offset: 92519},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25190,56 +25238,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1640, col: 5, offset: 53419},
+													pos:   position{line: 1640, col: 5, offset: 53466},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1640, col: 16, offset: 53430},
+														pos: position{line: 1640, col: 16, offset: 53477},
 														expr: &actionExpr{
-															pos: position{line: 1661, col: 5, offset: 54044},
+															pos: position{line: 1661, col: 5, offset: 54091},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1661, col: 5, offset: 54044},
+																pos: position{line: 1661, col: 5, offset: 54091},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1661, col: 5, offset: 54044},
+																		pos: position{line: 1661, col: 5, offset: 54091},
 																		expr: &litMatcher{
-																			pos:        position{line: 1661, col: 6, offset: 54045},
+																			pos:        position{line: 1661, col: 6, offset: 54092},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1661, col: 10, offset: 54049},
+																		pos:   position{line: 1661, col: 10, offset: 54096},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1662, col: 7, offset: 54063},
+																			pos: position{line: 1662, col: 7, offset: 54110},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1662, col: 7, offset: 54063},
+																					pos: position{line: 1662, col: 7, offset: 54110},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1662, col: 7, offset: 54063},
+																						pos:        position{line: 1662, col: 7, offset: 54110},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1663, col: 7, offset: 54108},
+																					pos: position{line: 1663, col: 7, offset: 54155},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1663, col: 7, offset: 54108},
+																						pos:        position{line: 1663, col: 7, offset: 54155},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1664, col: 7, offset: 54151},
+																					pos: position{line: 1664, col: 7, offset: 54198},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1664, col: 7, offset: 54151},
+																						pos:        position{line: 1664, col: 7, offset: 54198},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -25249,12 +25297,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2926, col: 11, offset: 92472},
+																		pos: position{line: 2926, col: 11, offset: 92519},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2926, col: 11, offset: 92472},
+																			pos: position{line: 2926, col: 11, offset: 92519},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2926, col: 11, offset: 92472},
+																				pos:        position{line: 2926, col: 11, offset: 92519},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25268,26 +25316,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1641, col: 5, offset: 53469},
+													pos:   position{line: 1641, col: 5, offset: 53516},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1536, col: 5, offset: 49953},
+														pos: position{line: 1536, col: 5, offset: 50000},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1536, col: 5, offset: 49953},
+															pos: position{line: 1536, col: 5, offset: 50000},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1536, col: 5, offset: 49953},
+																	pos:   position{line: 1536, col: 5, offset: 50000},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1536, col: 14, offset: 49962},
+																		pos: position{line: 1536, col: 14, offset: 50009},
 																		expr: &actionExpr{
-																			pos: position{line: 1536, col: 15, offset: 49963},
+																			pos: position{line: 1536, col: 15, offset: 50010},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1536, col: 15, offset: 49963},
+																				pos: position{line: 1536, col: 15, offset: 50010},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1536, col: 15, offset: 49963},
+																					pos:        position{line: 1536, col: 15, offset: 50010},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25298,28 +25346,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92809},
+																	pos: position{line: 2944, col: 8, offset: 92856},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92582},
+																			pos: position{line: 2931, col: 12, offset: 92629},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92583},
+																				pos: position{line: 2931, col: 13, offset: 92630},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92583},
+																						pos:        position{line: 2931, col: 13, offset: 92630},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92590},
+																						pos:        position{line: 2931, col: 20, offset: 92637},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92599},
+																						pos:        position{line: 2931, col: 29, offset: 92646},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25328,9 +25376,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92759},
+																			pos: position{line: 2941, col: 8, offset: 92806},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92760,
+																				line: 2941, col: 9, offset: 92807,
 																			},
 																		},
 																	},
@@ -25343,36 +25391,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1730, col: 5, offset: 56023},
+										pos: position{line: 1730, col: 5, offset: 56070},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1730, col: 5, offset: 56023},
+											pos: position{line: 1730, col: 5, offset: 56070},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1730, col: 5, offset: 56023},
+													pos:   position{line: 1730, col: 5, offset: 56070},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1736, col: 5, offset: 56220},
+														pos: position{line: 1736, col: 5, offset: 56267},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1736, col: 5, offset: 56220},
+															pos: position{line: 1736, col: 5, offset: 56267},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1736, col: 5, offset: 56220},
+																	pos:        position{line: 1736, col: 5, offset: 56267},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1736, col: 9, offset: 56224},
+																	pos:   position{line: 1736, col: 9, offset: 56271},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1736, col: 14, offset: 56229},
+																		pos: position{line: 1736, col: 14, offset: 56276},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1736, col: 14, offset: 56229},
+																			pos: position{line: 1736, col: 14, offset: 56276},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1736, col: 14, offset: 56229},
+																				pos:        position{line: 1736, col: 14, offset: 56276},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25382,18 +25430,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1736, col: 62, offset: 56277},
+																	pos:        position{line: 1736, col: 62, offset: 56324},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92472},
+																	pos: position{line: 2926, col: 11, offset: 92519},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92472},
+																		pos: position{line: 2926, col: 11, offset: 92519},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92472},
+																			pos:        position{line: 2926, col: 11, offset: 92519},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25406,26 +25454,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1731, col: 5, offset: 56059},
+													pos:   position{line: 1731, col: 5, offset: 56106},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1536, col: 5, offset: 49953},
+														pos: position{line: 1536, col: 5, offset: 50000},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1536, col: 5, offset: 49953},
+															pos: position{line: 1536, col: 5, offset: 50000},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1536, col: 5, offset: 49953},
+																	pos:   position{line: 1536, col: 5, offset: 50000},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1536, col: 14, offset: 49962},
+																		pos: position{line: 1536, col: 14, offset: 50009},
 																		expr: &actionExpr{
-																			pos: position{line: 1536, col: 15, offset: 49963},
+																			pos: position{line: 1536, col: 15, offset: 50010},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1536, col: 15, offset: 49963},
+																				pos: position{line: 1536, col: 15, offset: 50010},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1536, col: 15, offset: 49963},
+																					pos:        position{line: 1536, col: 15, offset: 50010},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25436,28 +25484,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92809},
+																	pos: position{line: 2944, col: 8, offset: 92856},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92582},
+																			pos: position{line: 2931, col: 12, offset: 92629},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92583},
+																				pos: position{line: 2931, col: 13, offset: 92630},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92583},
+																						pos:        position{line: 2931, col: 13, offset: 92630},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92590},
+																						pos:        position{line: 2931, col: 20, offset: 92637},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92599},
+																						pos:        position{line: 2931, col: 29, offset: 92646},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25466,9 +25514,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92759},
+																			pos: position{line: 2941, col: 8, offset: 92806},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92760,
+																				line: 2941, col: 9, offset: 92807,
 																			},
 																		},
 																	},
@@ -25481,35 +25529,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1673, col: 5, offset: 54344},
+										pos: position{line: 1673, col: 5, offset: 54391},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1673, col: 5, offset: 54344},
+											pos: position{line: 1673, col: 5, offset: 54391},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1673, col: 5, offset: 54344},
+													pos:   position{line: 1673, col: 5, offset: 54391},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1681, col: 5, offset: 54670},
+														pos: position{line: 1681, col: 5, offset: 54717},
 														run: (*parser).callonListElements148,
 														expr: &seqExpr{
-															pos: position{line: 1681, col: 5, offset: 54670},
+															pos: position{line: 1681, col: 5, offset: 54717},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1681, col: 5, offset: 54670},
+																	pos: position{line: 1681, col: 5, offset: 54717},
 																	expr: &seqExpr{
-																		pos: position{line: 2530, col: 31, offset: 81439},
+																		pos: position{line: 2530, col: 31, offset: 81486},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2530, col: 31, offset: 81439},
+																				pos:        position{line: 2530, col: 31, offset: 81486},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2530, col: 36, offset: 81444},
+																				pos: position{line: 2530, col: 36, offset: 81491},
 																				expr: &litMatcher{
-																					pos:        position{line: 2530, col: 37, offset: 81445},
+																					pos:        position{line: 2530, col: 37, offset: 81492},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -25519,28 +25567,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1682, col: 5, offset: 54702},
+																	pos: position{line: 1682, col: 5, offset: 54749},
 																	expr: &seqExpr{
-																		pos: position{line: 1682, col: 6, offset: 54703},
+																		pos: position{line: 1682, col: 6, offset: 54750},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1682, col: 6, offset: 54703},
+																				pos: position{line: 1682, col: 6, offset: 54750},
 																				expr: &actionExpr{
-																					pos: position{line: 1687, col: 5, offset: 54853},
+																					pos: position{line: 1687, col: 5, offset: 54900},
 																					run: (*parser).callonListElements158,
 																					expr: &seqExpr{
-																						pos: position{line: 1687, col: 5, offset: 54853},
+																						pos: position{line: 1687, col: 5, offset: 54900},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1687, col: 5, offset: 54853},
+																								pos:   position{line: 1687, col: 5, offset: 54900},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1687, col: 16, offset: 54864},
+																									pos: position{line: 1687, col: 16, offset: 54911},
 																									run: (*parser).callonListElements161,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1687, col: 16, offset: 54864},
+																										pos: position{line: 1687, col: 16, offset: 54911},
 																										expr: &litMatcher{
-																											pos:        position{line: 1687, col: 17, offset: 54865},
+																											pos:        position{line: 1687, col: 17, offset: 54912},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -25549,7 +25597,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1690, col: 5, offset: 54922},
+																								pos: position{line: 1690, col: 5, offset: 54969},
 																								run: (*parser).callonListElements164,
 																							},
 																						},
@@ -25557,30 +25605,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1682, col: 35, offset: 54732},
+																				pos: position{line: 1682, col: 35, offset: 54779},
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92809},
+																					pos: position{line: 2944, col: 8, offset: 92856},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92582},
+																							pos: position{line: 2931, col: 12, offset: 92629},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92583},
+																								pos: position{line: 2931, col: 13, offset: 92630},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92583},
+																										pos:        position{line: 2931, col: 13, offset: 92630},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92590},
+																										pos:        position{line: 2931, col: 20, offset: 92637},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92599},
+																										pos:        position{line: 2931, col: 29, offset: 92646},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25589,16 +25637,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92759},
+																							pos: position{line: 2941, col: 8, offset: 92806},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92760,
+																								line: 2941, col: 9, offset: 92807,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1682, col: 40, offset: 54737,
+																				line: 1682, col: 40, offset: 54784,
 																			},
 																		},
 																	},
@@ -25608,24 +25656,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1674, col: 5, offset: 54379},
+													pos:   position{line: 1674, col: 5, offset: 54426},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1687, col: 5, offset: 54853},
+														pos: position{line: 1687, col: 5, offset: 54900},
 														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1687, col: 5, offset: 54853},
+															pos: position{line: 1687, col: 5, offset: 54900},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1687, col: 5, offset: 54853},
+																	pos:   position{line: 1687, col: 5, offset: 54900},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1687, col: 16, offset: 54864},
+																		pos: position{line: 1687, col: 16, offset: 54911},
 																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1687, col: 16, offset: 54864},
+																			pos: position{line: 1687, col: 16, offset: 54911},
 																			expr: &litMatcher{
-																				pos:        position{line: 1687, col: 17, offset: 54865},
+																				pos:        position{line: 1687, col: 17, offset: 54912},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25634,7 +25682,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1690, col: 5, offset: 54922},
+																	pos: position{line: 1690, col: 5, offset: 54969},
 																	run: (*parser).callonListElements182,
 																},
 															},
@@ -25642,24 +25690,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1675, col: 5, offset: 54424},
+													pos:   position{line: 1675, col: 5, offset: 54471},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1698, col: 5, offset: 55171},
+														pos: position{line: 1698, col: 5, offset: 55218},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1700, col: 9, offset: 55237},
+																pos: position{line: 1700, col: 9, offset: 55284},
 																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1700, col: 9, offset: 55237},
+																	pos: position{line: 1700, col: 9, offset: 55284},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1700, col: 9, offset: 55237},
+																			pos: position{line: 1700, col: 9, offset: 55284},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92411},
+																				pos: position{line: 2922, col: 10, offset: 92458},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92411},
+																					pos:        position{line: 2922, col: 10, offset: 92458},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25668,28 +25716,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92809},
+																			pos: position{line: 2944, col: 8, offset: 92856},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92582},
+																					pos: position{line: 2931, col: 12, offset: 92629},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92583},
+																						pos: position{line: 2931, col: 13, offset: 92630},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92583},
+																								pos:        position{line: 2931, col: 13, offset: 92630},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92590},
+																								pos:        position{line: 2931, col: 20, offset: 92637},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92599},
+																								pos:        position{line: 2931, col: 29, offset: 92646},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25698,15 +25746,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1701, col: 9, offset: 55256},
+																			pos: position{line: 1701, col: 9, offset: 55303},
 																			expr: &actionExpr{
 																				pos: position{line: 690, col: 14, offset: 22173},
 																				run: (*parser).callonListElements199,
@@ -25714,18 +25762,18 @@ var g = &grammar{
 																					pos: position{line: 690, col: 14, offset: 22173},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92745},
+																							pos: position{line: 2939, col: 11, offset: 92792},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92747,
+																								line: 2939, col: 13, offset: 92794,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 690, col: 21, offset: 22180},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92411},
+																								pos: position{line: 2922, col: 10, offset: 92458},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92411},
+																									pos:        position{line: 2922, col: 10, offset: 92458},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25734,28 +25782,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25764,9 +25812,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -25779,18 +25827,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1707, col: 9, offset: 55385},
+																pos: position{line: 1707, col: 9, offset: 55432},
 																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1707, col: 9, offset: 55385},
+																	pos: position{line: 1707, col: 9, offset: 55432},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2926, col: 11, offset: 92472},
+																			pos: position{line: 2926, col: 11, offset: 92519},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2926, col: 11, offset: 92472},
+																				pos: position{line: 2926, col: 11, offset: 92519},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2926, col: 11, offset: 92472},
+																					pos:        position{line: 2926, col: 11, offset: 92519},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25799,15 +25847,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1708, col: 9, offset: 55458},
+																			pos:   position{line: 1708, col: 9, offset: 55505},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1708, col: 18, offset: 55467},
+																				pos: position{line: 1708, col: 18, offset: 55514},
 																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1708, col: 18, offset: 55467},
+																					pos: position{line: 1708, col: 18, offset: 55514},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1708, col: 18, offset: 55467},
+																						pos:        position{line: 1708, col: 18, offset: 55514},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25817,28 +25865,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92809},
+																			pos: position{line: 2944, col: 8, offset: 92856},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92582},
+																					pos: position{line: 2931, col: 12, offset: 92629},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92583},
+																						pos: position{line: 2931, col: 13, offset: 92630},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92583},
+																								pos:        position{line: 2931, col: 13, offset: 92630},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92590},
+																								pos:        position{line: 2931, col: 20, offset: 92637},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92599},
+																								pos:        position{line: 2931, col: 29, offset: 92646},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25847,9 +25895,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -25867,10 +25915,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1490, col: 5, offset: 48342},
+							pos:   position{line: 1490, col: 5, offset: 48389},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1490, col: 20, offset: 48357},
+								pos:  position{line: 1490, col: 20, offset: 48404},
 								name: "ExtraListElements",
 							},
 						},
@@ -25880,17 +25928,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1500, col: 1, offset: 48612},
+			pos:  position{line: 1500, col: 1, offset: 48659},
 			expr: &actionExpr{
-				pos: position{line: 1500, col: 22, offset: 48633},
+				pos: position{line: 1500, col: 22, offset: 48680},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1500, col: 22, offset: 48633},
+					pos:   position{line: 1500, col: 22, offset: 48680},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1500, col: 31, offset: 48642},
+						pos: position{line: 1500, col: 31, offset: 48689},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1500, col: 32, offset: 48643},
+							pos:  position{line: 1500, col: 32, offset: 48690},
 							name: "ExtraListElement",
 						},
 					},
@@ -25899,33 +25947,33 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1504, col: 1, offset: 48723},
+			pos:  position{line: 1504, col: 1, offset: 48770},
 			expr: &actionExpr{
-				pos: position{line: 1505, col: 5, offset: 48862},
+				pos: position{line: 1505, col: 5, offset: 48909},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1505, col: 5, offset: 48862},
+					pos: position{line: 1505, col: 5, offset: 48909},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92745},
+							pos: position{line: 2939, col: 11, offset: 92792},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92747,
+								line: 2939, col: 13, offset: 92794,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1506, col: 5, offset: 48874},
+							pos:   position{line: 1506, col: 5, offset: 48921},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1507, col: 9, offset: 48892},
+								pos: position{line: 1507, col: 9, offset: 48939},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1507, col: 13, offset: 48896},
+										pos: position{line: 1507, col: 13, offset: 48943},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1507, col: 13, offset: 48896},
+											pos: position{line: 1507, col: 13, offset: 48943},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1507, col: 13, offset: 48896},
+													pos: position{line: 1507, col: 13, offset: 48943},
 													expr: &actionExpr{
 														pos: position{line: 690, col: 14, offset: 22173},
 														run: (*parser).callonExtraListElement10,
@@ -25933,18 +25981,18 @@ var g = &grammar{
 															pos: position{line: 690, col: 14, offset: 22173},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2939, col: 11, offset: 92745},
+																	pos: position{line: 2939, col: 11, offset: 92792},
 																	expr: &anyMatcher{
-																		line: 2939, col: 13, offset: 92747,
+																		line: 2939, col: 13, offset: 92794,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 690, col: 21, offset: 22180},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92411},
+																		pos: position{line: 2922, col: 10, offset: 92458},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92411},
+																			pos:        position{line: 2922, col: 10, offset: 92458},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25953,28 +26001,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92809},
+																	pos: position{line: 2944, col: 8, offset: 92856},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92582},
+																			pos: position{line: 2931, col: 12, offset: 92629},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92583},
+																				pos: position{line: 2931, col: 13, offset: 92630},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92583},
+																						pos:        position{line: 2931, col: 13, offset: 92630},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92590},
+																						pos:        position{line: 2931, col: 20, offset: 92637},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92599},
+																						pos:        position{line: 2931, col: 29, offset: 92646},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25983,9 +26031,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92759},
+																			pos: position{line: 2941, col: 8, offset: 92806},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92760,
+																				line: 2941, col: 9, offset: 92807,
 																			},
 																		},
 																	},
@@ -25995,33 +26043,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1508, col: 13, offset: 48920},
+													pos:   position{line: 1508, col: 13, offset: 48967},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1508, col: 22, offset: 48929},
+														pos: position{line: 1508, col: 22, offset: 48976},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1589, col: 5, offset: 51481},
+																pos: position{line: 1589, col: 5, offset: 51528},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1589, col: 5, offset: 51481},
+																	pos: position{line: 1589, col: 5, offset: 51528},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1589, col: 5, offset: 51481},
+																			pos:   position{line: 1589, col: 5, offset: 51528},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1596, col: 5, offset: 51689},
+																				pos: position{line: 1596, col: 5, offset: 51736},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1596, col: 5, offset: 51689},
+																					pos: position{line: 1596, col: 5, offset: 51736},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1596, col: 5, offset: 51689},
+																							pos: position{line: 1596, col: 5, offset: 51736},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92411},
+																								pos: position{line: 2922, col: 10, offset: 92458},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92411},
+																									pos:        position{line: 2922, col: 10, offset: 92458},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26030,27 +26078,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1596, col: 12, offset: 51696},
+																							pos:   position{line: 1596, col: 12, offset: 51743},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1598, col: 9, offset: 51759},
+																								pos: position{line: 1598, col: 9, offset: 51806},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1598, col: 9, offset: 51759},
+																										pos: position{line: 1598, col: 9, offset: 51806},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1598, col: 9, offset: 51759},
+																											pos: position{line: 1598, col: 9, offset: 51806},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1598, col: 9, offset: 51759},
+																													pos:   position{line: 1598, col: 9, offset: 51806},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1598, col: 16, offset: 51766},
+																														pos: position{line: 1598, col: 16, offset: 51813},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1598, col: 16, offset: 51766},
+																															pos: position{line: 1598, col: 16, offset: 51813},
 																															expr: &litMatcher{
-																																pos:        position{line: 1598, col: 17, offset: 51767},
+																																pos:        position{line: 1598, col: 17, offset: 51814},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26059,22 +26107,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1602, col: 9, offset: 51867},
+																													pos: position{line: 1602, col: 9, offset: 51914},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1621, col: 11, offset: 52584},
+																										pos: position{line: 1621, col: 11, offset: 52631},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1621, col: 11, offset: 52584},
+																											pos: position{line: 1621, col: 11, offset: 52631},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1621, col: 11, offset: 52584},
+																													pos: position{line: 1621, col: 11, offset: 52631},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1621, col: 12, offset: 52585},
+																														pos:        position{line: 1621, col: 12, offset: 52632},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26082,7 +26130,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1621, col: 20, offset: 52593},
+																													pos:        position{line: 1621, col: 20, offset: 52640},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26091,20 +26139,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1623, col: 13, offset: 52710},
+																										pos: position{line: 1623, col: 13, offset: 52757},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1623, col: 13, offset: 52710},
+																											pos: position{line: 1623, col: 13, offset: 52757},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1623, col: 14, offset: 52711},
+																													pos:        position{line: 1623, col: 14, offset: 52758},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1623, col: 21, offset: 52718},
+																													pos:        position{line: 1623, col: 21, offset: 52765},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26113,20 +26161,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1625, col: 13, offset: 52838},
+																										pos: position{line: 1625, col: 13, offset: 52885},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1625, col: 13, offset: 52838},
+																											pos: position{line: 1625, col: 13, offset: 52885},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1625, col: 14, offset: 52839},
+																													pos:        position{line: 1625, col: 14, offset: 52886},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1625, col: 21, offset: 52846},
+																													pos:        position{line: 1625, col: 21, offset: 52893},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26135,15 +26183,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1627, col: 13, offset: 52966},
+																										pos: position{line: 1627, col: 13, offset: 53013},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1627, col: 13, offset: 52966},
+																											pos: position{line: 1627, col: 13, offset: 53013},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1627, col: 13, offset: 52966},
+																													pos: position{line: 1627, col: 13, offset: 53013},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1627, col: 14, offset: 52967},
+																														pos:        position{line: 1627, col: 14, offset: 53014},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26151,7 +26199,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1627, col: 26, offset: 52979},
+																													pos:        position{line: 1627, col: 26, offset: 53026},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26160,15 +26208,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1629, col: 13, offset: 53099},
+																										pos: position{line: 1629, col: 13, offset: 53146},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1629, col: 13, offset: 53099},
+																											pos: position{line: 1629, col: 13, offset: 53146},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1629, col: 13, offset: 53099},
+																													pos: position{line: 1629, col: 13, offset: 53146},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1629, col: 14, offset: 53100},
+																														pos:        position{line: 1629, col: 14, offset: 53147},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26176,7 +26224,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1629, col: 26, offset: 53112},
+																													pos:        position{line: 1629, col: 26, offset: 53159},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26188,12 +26236,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92472},
+																							pos: position{line: 2926, col: 11, offset: 92519},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92472},
+																								pos: position{line: 2926, col: 11, offset: 92519},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92472},
+																									pos:        position{line: 2926, col: 11, offset: 92519},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26206,26 +26254,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1590, col: 5, offset: 51520},
+																			pos:   position{line: 1590, col: 5, offset: 51567},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1536, col: 5, offset: 49953},
+																				pos: position{line: 1536, col: 5, offset: 50000},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1536, col: 5, offset: 49953},
+																					pos: position{line: 1536, col: 5, offset: 50000},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1536, col: 5, offset: 49953},
+																							pos:   position{line: 1536, col: 5, offset: 50000},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1536, col: 14, offset: 49962},
+																								pos: position{line: 1536, col: 14, offset: 50009},
 																								expr: &actionExpr{
-																									pos: position{line: 1536, col: 15, offset: 49963},
+																									pos: position{line: 1536, col: 15, offset: 50010},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1536, col: 15, offset: 49963},
+																										pos: position{line: 1536, col: 15, offset: 50010},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1536, col: 15, offset: 49963},
+																											pos:        position{line: 1536, col: 15, offset: 50010},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26236,28 +26284,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26266,9 +26314,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -26281,27 +26329,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1639, col: 5, offset: 53378},
+																pos: position{line: 1639, col: 5, offset: 53425},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1639, col: 5, offset: 53378},
+																	pos: position{line: 1639, col: 5, offset: 53425},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1639, col: 5, offset: 53378},
+																			pos:   position{line: 1639, col: 5, offset: 53425},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1646, col: 5, offset: 53651},
+																				pos: position{line: 1646, col: 5, offset: 53698},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1646, col: 5, offset: 53651},
+																					pos: position{line: 1646, col: 5, offset: 53698},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1646, col: 5, offset: 53651},
+																							pos: position{line: 1646, col: 5, offset: 53698},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92411},
+																								pos: position{line: 2922, col: 10, offset: 92458},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92411},
+																									pos:        position{line: 2922, col: 10, offset: 92458},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26310,24 +26358,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1647, col: 5, offset: 53663},
+																							pos:   position{line: 1647, col: 5, offset: 53710},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1648, col: 9, offset: 53679},
+																								pos: position{line: 1648, col: 9, offset: 53726},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1648, col: 10, offset: 53680},
+																									pos: position{line: 1648, col: 10, offset: 53727},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1648, col: 11, offset: 53681},
+																											pos:        position{line: 1648, col: 11, offset: 53728},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1648, col: 18, offset: 53688},
+																											pos: position{line: 1648, col: 18, offset: 53735},
 																											expr: &litMatcher{
-																												pos:        position{line: 1648, col: 19, offset: 53689},
+																												pos:        position{line: 1648, col: 19, offset: 53736},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26338,16 +26386,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1651, col: 7, offset: 53779},
+																							pos: position{line: 1651, col: 7, offset: 53826},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92472},
+																							pos: position{line: 2926, col: 11, offset: 92519},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92472},
+																								pos: position{line: 2926, col: 11, offset: 92519},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92472},
+																									pos:        position{line: 2926, col: 11, offset: 92519},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26360,56 +26408,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1640, col: 5, offset: 53419},
+																			pos:   position{line: 1640, col: 5, offset: 53466},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1640, col: 16, offset: 53430},
+																				pos: position{line: 1640, col: 16, offset: 53477},
 																				expr: &actionExpr{
-																					pos: position{line: 1661, col: 5, offset: 54044},
+																					pos: position{line: 1661, col: 5, offset: 54091},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1661, col: 5, offset: 54044},
+																						pos: position{line: 1661, col: 5, offset: 54091},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1661, col: 5, offset: 54044},
+																								pos: position{line: 1661, col: 5, offset: 54091},
 																								expr: &litMatcher{
-																									pos:        position{line: 1661, col: 6, offset: 54045},
+																									pos:        position{line: 1661, col: 6, offset: 54092},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1661, col: 10, offset: 54049},
+																								pos:   position{line: 1661, col: 10, offset: 54096},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1662, col: 7, offset: 54063},
+																									pos: position{line: 1662, col: 7, offset: 54110},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1662, col: 7, offset: 54063},
+																											pos: position{line: 1662, col: 7, offset: 54110},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1662, col: 7, offset: 54063},
+																												pos:        position{line: 1662, col: 7, offset: 54110},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1663, col: 7, offset: 54108},
+																											pos: position{line: 1663, col: 7, offset: 54155},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1663, col: 7, offset: 54108},
+																												pos:        position{line: 1663, col: 7, offset: 54155},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1664, col: 7, offset: 54151},
+																											pos: position{line: 1664, col: 7, offset: 54198},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1664, col: 7, offset: 54151},
+																												pos:        position{line: 1664, col: 7, offset: 54198},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26419,12 +26467,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2926, col: 11, offset: 92472},
+																								pos: position{line: 2926, col: 11, offset: 92519},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2926, col: 11, offset: 92472},
+																									pos: position{line: 2926, col: 11, offset: 92519},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2926, col: 11, offset: 92472},
+																										pos:        position{line: 2926, col: 11, offset: 92519},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26438,26 +26486,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1641, col: 5, offset: 53469},
+																			pos:   position{line: 1641, col: 5, offset: 53516},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1536, col: 5, offset: 49953},
+																				pos: position{line: 1536, col: 5, offset: 50000},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1536, col: 5, offset: 49953},
+																					pos: position{line: 1536, col: 5, offset: 50000},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1536, col: 5, offset: 49953},
+																							pos:   position{line: 1536, col: 5, offset: 50000},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1536, col: 14, offset: 49962},
+																								pos: position{line: 1536, col: 14, offset: 50009},
 																								expr: &actionExpr{
-																									pos: position{line: 1536, col: 15, offset: 49963},
+																									pos: position{line: 1536, col: 15, offset: 50010},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1536, col: 15, offset: 49963},
+																										pos: position{line: 1536, col: 15, offset: 50010},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1536, col: 15, offset: 49963},
+																											pos:        position{line: 1536, col: 15, offset: 50010},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26468,28 +26516,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26498,9 +26546,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -26513,36 +26561,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1730, col: 5, offset: 56023},
+																pos: position{line: 1730, col: 5, offset: 56070},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1730, col: 5, offset: 56023},
+																	pos: position{line: 1730, col: 5, offset: 56070},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1730, col: 5, offset: 56023},
+																			pos:   position{line: 1730, col: 5, offset: 56070},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1736, col: 5, offset: 56220},
+																				pos: position{line: 1736, col: 5, offset: 56267},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1736, col: 5, offset: 56220},
+																					pos: position{line: 1736, col: 5, offset: 56267},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1736, col: 5, offset: 56220},
+																							pos:        position{line: 1736, col: 5, offset: 56267},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1736, col: 9, offset: 56224},
+																							pos:   position{line: 1736, col: 9, offset: 56271},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1736, col: 14, offset: 56229},
+																								pos: position{line: 1736, col: 14, offset: 56276},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1736, col: 14, offset: 56229},
+																									pos: position{line: 1736, col: 14, offset: 56276},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1736, col: 14, offset: 56229},
+																										pos:        position{line: 1736, col: 14, offset: 56276},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26552,18 +26600,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1736, col: 62, offset: 56277},
+																							pos:        position{line: 1736, col: 62, offset: 56324},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92472},
+																							pos: position{line: 2926, col: 11, offset: 92519},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92472},
+																								pos: position{line: 2926, col: 11, offset: 92519},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92472},
+																									pos:        position{line: 2926, col: 11, offset: 92519},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26576,26 +26624,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1731, col: 5, offset: 56059},
+																			pos:   position{line: 1731, col: 5, offset: 56106},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1536, col: 5, offset: 49953},
+																				pos: position{line: 1536, col: 5, offset: 50000},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1536, col: 5, offset: 49953},
+																					pos: position{line: 1536, col: 5, offset: 50000},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1536, col: 5, offset: 49953},
+																							pos:   position{line: 1536, col: 5, offset: 50000},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1536, col: 14, offset: 49962},
+																								pos: position{line: 1536, col: 14, offset: 50009},
 																								expr: &actionExpr{
-																									pos: position{line: 1536, col: 15, offset: 49963},
+																									pos: position{line: 1536, col: 15, offset: 50010},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1536, col: 15, offset: 49963},
+																										pos: position{line: 1536, col: 15, offset: 50010},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1536, col: 15, offset: 49963},
+																											pos:        position{line: 1536, col: 15, offset: 50010},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26606,28 +26654,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26636,9 +26684,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -26651,35 +26699,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1673, col: 5, offset: 54344},
+																pos: position{line: 1673, col: 5, offset: 54391},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1673, col: 5, offset: 54344},
+																	pos: position{line: 1673, col: 5, offset: 54391},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1673, col: 5, offset: 54344},
+																			pos:   position{line: 1673, col: 5, offset: 54391},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1681, col: 5, offset: 54670},
+																				pos: position{line: 1681, col: 5, offset: 54717},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &seqExpr{
-																					pos: position{line: 1681, col: 5, offset: 54670},
+																					pos: position{line: 1681, col: 5, offset: 54717},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1681, col: 5, offset: 54670},
+																							pos: position{line: 1681, col: 5, offset: 54717},
 																							expr: &seqExpr{
-																								pos: position{line: 2530, col: 31, offset: 81439},
+																								pos: position{line: 2530, col: 31, offset: 81486},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2530, col: 31, offset: 81439},
+																										pos:        position{line: 2530, col: 31, offset: 81486},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2530, col: 36, offset: 81444},
+																										pos: position{line: 2530, col: 36, offset: 81491},
 																										expr: &litMatcher{
-																											pos:        position{line: 2530, col: 37, offset: 81445},
+																											pos:        position{line: 2530, col: 37, offset: 81492},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -26689,28 +26737,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1682, col: 5, offset: 54702},
+																							pos: position{line: 1682, col: 5, offset: 54749},
 																							expr: &seqExpr{
-																								pos: position{line: 1682, col: 6, offset: 54703},
+																								pos: position{line: 1682, col: 6, offset: 54750},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1682, col: 6, offset: 54703},
+																										pos: position{line: 1682, col: 6, offset: 54750},
 																										expr: &actionExpr{
-																											pos: position{line: 1687, col: 5, offset: 54853},
+																											pos: position{line: 1687, col: 5, offset: 54900},
 																											run: (*parser).callonExtraListElement180,
 																											expr: &seqExpr{
-																												pos: position{line: 1687, col: 5, offset: 54853},
+																												pos: position{line: 1687, col: 5, offset: 54900},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1687, col: 5, offset: 54853},
+																														pos:   position{line: 1687, col: 5, offset: 54900},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1687, col: 16, offset: 54864},
+																															pos: position{line: 1687, col: 16, offset: 54911},
 																															run: (*parser).callonExtraListElement183,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1687, col: 16, offset: 54864},
+																																pos: position{line: 1687, col: 16, offset: 54911},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1687, col: 17, offset: 54865},
+																																	pos:        position{line: 1687, col: 17, offset: 54912},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -26719,7 +26767,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1690, col: 5, offset: 54922},
+																														pos: position{line: 1690, col: 5, offset: 54969},
 																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
@@ -26727,30 +26775,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1682, col: 35, offset: 54732},
+																										pos: position{line: 1682, col: 35, offset: 54779},
 																										expr: &choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92809},
+																											pos: position{line: 2944, col: 8, offset: 92856},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92582},
+																													pos: position{line: 2931, col: 12, offset: 92629},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92583},
+																														pos: position{line: 2931, col: 13, offset: 92630},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92583},
+																																pos:        position{line: 2931, col: 13, offset: 92630},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92590},
+																																pos:        position{line: 2931, col: 20, offset: 92637},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92599},
+																																pos:        position{line: 2931, col: 29, offset: 92646},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26759,16 +26807,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92759},
+																													pos: position{line: 2941, col: 8, offset: 92806},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92760,
+																														line: 2941, col: 9, offset: 92807,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1682, col: 40, offset: 54737,
+																										line: 1682, col: 40, offset: 54784,
 																									},
 																								},
 																							},
@@ -26778,24 +26826,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1674, col: 5, offset: 54379},
+																			pos:   position{line: 1674, col: 5, offset: 54426},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1687, col: 5, offset: 54853},
+																				pos: position{line: 1687, col: 5, offset: 54900},
 																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1687, col: 5, offset: 54853},
+																					pos: position{line: 1687, col: 5, offset: 54900},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1687, col: 5, offset: 54853},
+																							pos:   position{line: 1687, col: 5, offset: 54900},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1687, col: 16, offset: 54864},
+																								pos: position{line: 1687, col: 16, offset: 54911},
 																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1687, col: 16, offset: 54864},
+																									pos: position{line: 1687, col: 16, offset: 54911},
 																									expr: &litMatcher{
-																										pos:        position{line: 1687, col: 17, offset: 54865},
+																										pos:        position{line: 1687, col: 17, offset: 54912},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26804,7 +26852,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1690, col: 5, offset: 54922},
+																							pos: position{line: 1690, col: 5, offset: 54969},
 																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
@@ -26812,24 +26860,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1675, col: 5, offset: 54424},
+																			pos:   position{line: 1675, col: 5, offset: 54471},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1698, col: 5, offset: 55171},
+																				pos: position{line: 1698, col: 5, offset: 55218},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1700, col: 9, offset: 55237},
+																						pos: position{line: 1700, col: 9, offset: 55284},
 																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1700, col: 9, offset: 55237},
+																							pos: position{line: 1700, col: 9, offset: 55284},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1700, col: 9, offset: 55237},
+																									pos: position{line: 1700, col: 9, offset: 55284},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92411},
+																										pos: position{line: 2922, col: 10, offset: 92458},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92411},
+																											pos:        position{line: 2922, col: 10, offset: 92458},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26838,28 +26886,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92809},
+																									pos: position{line: 2944, col: 8, offset: 92856},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92582},
+																											pos: position{line: 2931, col: 12, offset: 92629},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92583},
+																												pos: position{line: 2931, col: 13, offset: 92630},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92583},
+																														pos:        position{line: 2931, col: 13, offset: 92630},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92590},
+																														pos:        position{line: 2931, col: 20, offset: 92637},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92599},
+																														pos:        position{line: 2931, col: 29, offset: 92646},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26868,15 +26916,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92759},
+																											pos: position{line: 2941, col: 8, offset: 92806},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92760,
+																												line: 2941, col: 9, offset: 92807,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1701, col: 9, offset: 55256},
+																									pos: position{line: 1701, col: 9, offset: 55303},
 																									expr: &actionExpr{
 																										pos: position{line: 690, col: 14, offset: 22173},
 																										run: (*parser).callonExtraListElement221,
@@ -26884,18 +26932,18 @@ var g = &grammar{
 																											pos: position{line: 690, col: 14, offset: 22173},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2939, col: 11, offset: 92745},
+																													pos: position{line: 2939, col: 11, offset: 92792},
 																													expr: &anyMatcher{
-																														line: 2939, col: 13, offset: 92747,
+																														line: 2939, col: 13, offset: 92794,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 690, col: 21, offset: 22180},
 																													expr: &actionExpr{
-																														pos: position{line: 2922, col: 10, offset: 92411},
+																														pos: position{line: 2922, col: 10, offset: 92458},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2922, col: 10, offset: 92411},
+																															pos:        position{line: 2922, col: 10, offset: 92458},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26904,28 +26952,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2944, col: 8, offset: 92809},
+																													pos: position{line: 2944, col: 8, offset: 92856},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2931, col: 12, offset: 92582},
+																															pos: position{line: 2931, col: 12, offset: 92629},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2931, col: 13, offset: 92583},
+																																pos: position{line: 2931, col: 13, offset: 92630},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 13, offset: 92583},
+																																		pos:        position{line: 2931, col: 13, offset: 92630},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 20, offset: 92590},
+																																		pos:        position{line: 2931, col: 20, offset: 92637},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 29, offset: 92599},
+																																		pos:        position{line: 2931, col: 29, offset: 92646},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26934,9 +26982,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2941, col: 8, offset: 92759},
+																															pos: position{line: 2941, col: 8, offset: 92806},
 																															expr: &anyMatcher{
-																																line: 2941, col: 9, offset: 92760,
+																																line: 2941, col: 9, offset: 92807,
 																															},
 																														},
 																													},
@@ -26949,18 +26997,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1707, col: 9, offset: 55385},
+																						pos: position{line: 1707, col: 9, offset: 55432},
 																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1707, col: 9, offset: 55385},
+																							pos: position{line: 1707, col: 9, offset: 55432},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2926, col: 11, offset: 92472},
+																									pos: position{line: 2926, col: 11, offset: 92519},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2926, col: 11, offset: 92472},
+																										pos: position{line: 2926, col: 11, offset: 92519},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2926, col: 11, offset: 92472},
+																											pos:        position{line: 2926, col: 11, offset: 92519},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26969,15 +27017,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1708, col: 9, offset: 55458},
+																									pos:   position{line: 1708, col: 9, offset: 55505},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1708, col: 18, offset: 55467},
+																										pos: position{line: 1708, col: 18, offset: 55514},
 																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1708, col: 18, offset: 55467},
+																											pos: position{line: 1708, col: 18, offset: 55514},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1708, col: 18, offset: 55467},
+																												pos:        position{line: 1708, col: 18, offset: 55514},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26987,28 +27035,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92809},
+																									pos: position{line: 2944, col: 8, offset: 92856},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92582},
+																											pos: position{line: 2931, col: 12, offset: 92629},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92583},
+																												pos: position{line: 2931, col: 13, offset: 92630},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92583},
+																														pos:        position{line: 2931, col: 13, offset: 92630},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92590},
+																														pos:        position{line: 2931, col: 20, offset: 92637},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92599},
+																														pos:        position{line: 2931, col: 29, offset: 92646},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27017,9 +27065,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92759},
+																											pos: position{line: 2941, col: 8, offset: 92806},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92760,
+																												line: 2941, col: 9, offset: 92807,
 																											},
 																										},
 																									},
@@ -27040,50 +27088,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1511, col: 13, offset: 49080},
+										pos: position{line: 1511, col: 13, offset: 49127},
 										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
-											pos: position{line: 1511, col: 13, offset: 49080},
+											pos: position{line: 1511, col: 13, offset: 49127},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1511, col: 13, offset: 49080},
+													pos:   position{line: 1511, col: 13, offset: 49127},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1511, col: 24, offset: 49091},
+														pos: position{line: 1511, col: 24, offset: 49138},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1511, col: 25, offset: 49092},
+															pos:  position{line: 1511, col: 25, offset: 49139},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1512, col: 13, offset: 49123},
+													pos:   position{line: 1512, col: 13, offset: 49170},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1512, col: 22, offset: 49132},
+														pos: position{line: 1512, col: 22, offset: 49179},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1589, col: 5, offset: 51481},
+																pos: position{line: 1589, col: 5, offset: 51528},
 																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
-																	pos: position{line: 1589, col: 5, offset: 51481},
+																	pos: position{line: 1589, col: 5, offset: 51528},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1589, col: 5, offset: 51481},
+																			pos:   position{line: 1589, col: 5, offset: 51528},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1596, col: 5, offset: 51689},
+																				pos: position{line: 1596, col: 5, offset: 51736},
 																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
-																					pos: position{line: 1596, col: 5, offset: 51689},
+																					pos: position{line: 1596, col: 5, offset: 51736},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1596, col: 5, offset: 51689},
+																							pos: position{line: 1596, col: 5, offset: 51736},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92411},
+																								pos: position{line: 2922, col: 10, offset: 92458},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92411},
+																									pos:        position{line: 2922, col: 10, offset: 92458},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27092,27 +27140,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1596, col: 12, offset: 51696},
+																							pos:   position{line: 1596, col: 12, offset: 51743},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1598, col: 9, offset: 51759},
+																								pos: position{line: 1598, col: 9, offset: 51806},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1598, col: 9, offset: 51759},
+																										pos: position{line: 1598, col: 9, offset: 51806},
 																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
-																											pos: position{line: 1598, col: 9, offset: 51759},
+																											pos: position{line: 1598, col: 9, offset: 51806},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1598, col: 9, offset: 51759},
+																													pos:   position{line: 1598, col: 9, offset: 51806},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1598, col: 16, offset: 51766},
+																														pos: position{line: 1598, col: 16, offset: 51813},
 																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1598, col: 16, offset: 51766},
+																															pos: position{line: 1598, col: 16, offset: 51813},
 																															expr: &litMatcher{
-																																pos:        position{line: 1598, col: 17, offset: 51767},
+																																pos:        position{line: 1598, col: 17, offset: 51814},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27121,22 +27169,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1602, col: 9, offset: 51867},
+																													pos: position{line: 1602, col: 9, offset: 51914},
 																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1621, col: 11, offset: 52584},
+																										pos: position{line: 1621, col: 11, offset: 52631},
 																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
-																											pos: position{line: 1621, col: 11, offset: 52584},
+																											pos: position{line: 1621, col: 11, offset: 52631},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1621, col: 11, offset: 52584},
+																													pos: position{line: 1621, col: 11, offset: 52631},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1621, col: 12, offset: 52585},
+																														pos:        position{line: 1621, col: 12, offset: 52632},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27144,7 +27192,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1621, col: 20, offset: 52593},
+																													pos:        position{line: 1621, col: 20, offset: 52640},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27153,20 +27201,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1623, col: 13, offset: 52710},
+																										pos: position{line: 1623, col: 13, offset: 52757},
 																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
-																											pos: position{line: 1623, col: 13, offset: 52710},
+																											pos: position{line: 1623, col: 13, offset: 52757},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1623, col: 14, offset: 52711},
+																													pos:        position{line: 1623, col: 14, offset: 52758},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1623, col: 21, offset: 52718},
+																													pos:        position{line: 1623, col: 21, offset: 52765},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27175,20 +27223,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1625, col: 13, offset: 52838},
+																										pos: position{line: 1625, col: 13, offset: 52885},
 																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
-																											pos: position{line: 1625, col: 13, offset: 52838},
+																											pos: position{line: 1625, col: 13, offset: 52885},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1625, col: 14, offset: 52839},
+																													pos:        position{line: 1625, col: 14, offset: 52886},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1625, col: 21, offset: 52846},
+																													pos:        position{line: 1625, col: 21, offset: 52893},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27197,15 +27245,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1627, col: 13, offset: 52966},
+																										pos: position{line: 1627, col: 13, offset: 53013},
 																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
-																											pos: position{line: 1627, col: 13, offset: 52966},
+																											pos: position{line: 1627, col: 13, offset: 53013},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1627, col: 13, offset: 52966},
+																													pos: position{line: 1627, col: 13, offset: 53013},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1627, col: 14, offset: 52967},
+																														pos:        position{line: 1627, col: 14, offset: 53014},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27213,7 +27261,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1627, col: 26, offset: 52979},
+																													pos:        position{line: 1627, col: 26, offset: 53026},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27222,15 +27270,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1629, col: 13, offset: 53099},
+																										pos: position{line: 1629, col: 13, offset: 53146},
 																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
-																											pos: position{line: 1629, col: 13, offset: 53099},
+																											pos: position{line: 1629, col: 13, offset: 53146},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1629, col: 13, offset: 53099},
+																													pos: position{line: 1629, col: 13, offset: 53146},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1629, col: 14, offset: 53100},
+																														pos:        position{line: 1629, col: 14, offset: 53147},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27238,7 +27286,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1629, col: 26, offset: 53112},
+																													pos:        position{line: 1629, col: 26, offset: 53159},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27250,12 +27298,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92472},
+																							pos: position{line: 2926, col: 11, offset: 92519},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92472},
+																								pos: position{line: 2926, col: 11, offset: 92519},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92472},
+																									pos:        position{line: 2926, col: 11, offset: 92519},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27268,26 +27316,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1590, col: 5, offset: 51520},
+																			pos:   position{line: 1590, col: 5, offset: 51567},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1536, col: 5, offset: 49953},
+																				pos: position{line: 1536, col: 5, offset: 50000},
 																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
-																					pos: position{line: 1536, col: 5, offset: 49953},
+																					pos: position{line: 1536, col: 5, offset: 50000},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1536, col: 5, offset: 49953},
+																							pos:   position{line: 1536, col: 5, offset: 50000},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1536, col: 14, offset: 49962},
+																								pos: position{line: 1536, col: 14, offset: 50009},
 																								expr: &actionExpr{
-																									pos: position{line: 1536, col: 15, offset: 49963},
+																									pos: position{line: 1536, col: 15, offset: 50010},
 																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1536, col: 15, offset: 49963},
+																										pos: position{line: 1536, col: 15, offset: 50010},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1536, col: 15, offset: 49963},
+																											pos:        position{line: 1536, col: 15, offset: 50010},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27298,28 +27346,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27328,9 +27376,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -27343,27 +27391,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1639, col: 5, offset: 53378},
+																pos: position{line: 1639, col: 5, offset: 53425},
 																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
-																	pos: position{line: 1639, col: 5, offset: 53378},
+																	pos: position{line: 1639, col: 5, offset: 53425},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1639, col: 5, offset: 53378},
+																			pos:   position{line: 1639, col: 5, offset: 53425},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1646, col: 5, offset: 53651},
+																				pos: position{line: 1646, col: 5, offset: 53698},
 																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
-																					pos: position{line: 1646, col: 5, offset: 53651},
+																					pos: position{line: 1646, col: 5, offset: 53698},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1646, col: 5, offset: 53651},
+																							pos: position{line: 1646, col: 5, offset: 53698},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92411},
+																								pos: position{line: 2922, col: 10, offset: 92458},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92411},
+																									pos:        position{line: 2922, col: 10, offset: 92458},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27372,24 +27420,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1647, col: 5, offset: 53663},
+																							pos:   position{line: 1647, col: 5, offset: 53710},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1648, col: 9, offset: 53679},
+																								pos: position{line: 1648, col: 9, offset: 53726},
 																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
-																									pos: position{line: 1648, col: 10, offset: 53680},
+																									pos: position{line: 1648, col: 10, offset: 53727},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1648, col: 11, offset: 53681},
+																											pos:        position{line: 1648, col: 11, offset: 53728},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1648, col: 18, offset: 53688},
+																											pos: position{line: 1648, col: 18, offset: 53735},
 																											expr: &litMatcher{
-																												pos:        position{line: 1648, col: 19, offset: 53689},
+																												pos:        position{line: 1648, col: 19, offset: 53736},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27400,16 +27448,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1651, col: 7, offset: 53779},
+																							pos: position{line: 1651, col: 7, offset: 53826},
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92472},
+																							pos: position{line: 2926, col: 11, offset: 92519},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92472},
+																								pos: position{line: 2926, col: 11, offset: 92519},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92472},
+																									pos:        position{line: 2926, col: 11, offset: 92519},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27422,56 +27470,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1640, col: 5, offset: 53419},
+																			pos:   position{line: 1640, col: 5, offset: 53466},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1640, col: 16, offset: 53430},
+																				pos: position{line: 1640, col: 16, offset: 53477},
 																				expr: &actionExpr{
-																					pos: position{line: 1661, col: 5, offset: 54044},
+																					pos: position{line: 1661, col: 5, offset: 54091},
 																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
-																						pos: position{line: 1661, col: 5, offset: 54044},
+																						pos: position{line: 1661, col: 5, offset: 54091},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1661, col: 5, offset: 54044},
+																								pos: position{line: 1661, col: 5, offset: 54091},
 																								expr: &litMatcher{
-																									pos:        position{line: 1661, col: 6, offset: 54045},
+																									pos:        position{line: 1661, col: 6, offset: 54092},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1661, col: 10, offset: 54049},
+																								pos:   position{line: 1661, col: 10, offset: 54096},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1662, col: 7, offset: 54063},
+																									pos: position{line: 1662, col: 7, offset: 54110},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1662, col: 7, offset: 54063},
+																											pos: position{line: 1662, col: 7, offset: 54110},
 																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
-																												pos:        position{line: 1662, col: 7, offset: 54063},
+																												pos:        position{line: 1662, col: 7, offset: 54110},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1663, col: 7, offset: 54108},
+																											pos: position{line: 1663, col: 7, offset: 54155},
 																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
-																												pos:        position{line: 1663, col: 7, offset: 54108},
+																												pos:        position{line: 1663, col: 7, offset: 54155},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1664, col: 7, offset: 54151},
+																											pos: position{line: 1664, col: 7, offset: 54198},
 																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
-																												pos:        position{line: 1664, col: 7, offset: 54151},
+																												pos:        position{line: 1664, col: 7, offset: 54198},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27481,12 +27529,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2926, col: 11, offset: 92472},
+																								pos: position{line: 2926, col: 11, offset: 92519},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2926, col: 11, offset: 92472},
+																									pos: position{line: 2926, col: 11, offset: 92519},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2926, col: 11, offset: 92472},
+																										pos:        position{line: 2926, col: 11, offset: 92519},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27500,26 +27548,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1641, col: 5, offset: 53469},
+																			pos:   position{line: 1641, col: 5, offset: 53516},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1536, col: 5, offset: 49953},
+																				pos: position{line: 1536, col: 5, offset: 50000},
 																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
-																					pos: position{line: 1536, col: 5, offset: 49953},
+																					pos: position{line: 1536, col: 5, offset: 50000},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1536, col: 5, offset: 49953},
+																							pos:   position{line: 1536, col: 5, offset: 50000},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1536, col: 14, offset: 49962},
+																								pos: position{line: 1536, col: 14, offset: 50009},
 																								expr: &actionExpr{
-																									pos: position{line: 1536, col: 15, offset: 49963},
+																									pos: position{line: 1536, col: 15, offset: 50010},
 																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1536, col: 15, offset: 49963},
+																										pos: position{line: 1536, col: 15, offset: 50010},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1536, col: 15, offset: 49963},
+																											pos:        position{line: 1536, col: 15, offset: 50010},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27530,28 +27578,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27560,9 +27608,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -27575,36 +27623,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1730, col: 5, offset: 56023},
+																pos: position{line: 1730, col: 5, offset: 56070},
 																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1730, col: 5, offset: 56023},
+																	pos: position{line: 1730, col: 5, offset: 56070},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1730, col: 5, offset: 56023},
+																			pos:   position{line: 1730, col: 5, offset: 56070},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1736, col: 5, offset: 56220},
+																				pos: position{line: 1736, col: 5, offset: 56267},
 																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1736, col: 5, offset: 56220},
+																					pos: position{line: 1736, col: 5, offset: 56267},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1736, col: 5, offset: 56220},
+																							pos:        position{line: 1736, col: 5, offset: 56267},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1736, col: 9, offset: 56224},
+																							pos:   position{line: 1736, col: 9, offset: 56271},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1736, col: 14, offset: 56229},
+																								pos: position{line: 1736, col: 14, offset: 56276},
 																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1736, col: 14, offset: 56229},
+																									pos: position{line: 1736, col: 14, offset: 56276},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1736, col: 14, offset: 56229},
+																										pos:        position{line: 1736, col: 14, offset: 56276},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27614,18 +27662,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1736, col: 62, offset: 56277},
+																							pos:        position{line: 1736, col: 62, offset: 56324},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92472},
+																							pos: position{line: 2926, col: 11, offset: 92519},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92472},
+																								pos: position{line: 2926, col: 11, offset: 92519},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92472},
+																									pos:        position{line: 2926, col: 11, offset: 92519},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27638,26 +27686,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1731, col: 5, offset: 56059},
+																			pos:   position{line: 1731, col: 5, offset: 56106},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1536, col: 5, offset: 49953},
+																				pos: position{line: 1536, col: 5, offset: 50000},
 																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
-																					pos: position{line: 1536, col: 5, offset: 49953},
+																					pos: position{line: 1536, col: 5, offset: 50000},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1536, col: 5, offset: 49953},
+																							pos:   position{line: 1536, col: 5, offset: 50000},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1536, col: 14, offset: 49962},
+																								pos: position{line: 1536, col: 14, offset: 50009},
 																								expr: &actionExpr{
-																									pos: position{line: 1536, col: 15, offset: 49963},
+																									pos: position{line: 1536, col: 15, offset: 50010},
 																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1536, col: 15, offset: 49963},
+																										pos: position{line: 1536, col: 15, offset: 50010},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1536, col: 15, offset: 49963},
+																											pos:        position{line: 1536, col: 15, offset: 50010},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27668,28 +27716,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27698,9 +27746,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -27713,35 +27761,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1673, col: 5, offset: 54344},
+																pos: position{line: 1673, col: 5, offset: 54391},
 																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
-																	pos: position{line: 1673, col: 5, offset: 54344},
+																	pos: position{line: 1673, col: 5, offset: 54391},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1673, col: 5, offset: 54344},
+																			pos:   position{line: 1673, col: 5, offset: 54391},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1681, col: 5, offset: 54670},
+																				pos: position{line: 1681, col: 5, offset: 54717},
 																				run: (*parser).callonExtraListElement403,
 																				expr: &seqExpr{
-																					pos: position{line: 1681, col: 5, offset: 54670},
+																					pos: position{line: 1681, col: 5, offset: 54717},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1681, col: 5, offset: 54670},
+																							pos: position{line: 1681, col: 5, offset: 54717},
 																							expr: &seqExpr{
-																								pos: position{line: 2530, col: 31, offset: 81439},
+																								pos: position{line: 2530, col: 31, offset: 81486},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2530, col: 31, offset: 81439},
+																										pos:        position{line: 2530, col: 31, offset: 81486},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2530, col: 36, offset: 81444},
+																										pos: position{line: 2530, col: 36, offset: 81491},
 																										expr: &litMatcher{
-																											pos:        position{line: 2530, col: 37, offset: 81445},
+																											pos:        position{line: 2530, col: 37, offset: 81492},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -27751,28 +27799,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1682, col: 5, offset: 54702},
+																							pos: position{line: 1682, col: 5, offset: 54749},
 																							expr: &seqExpr{
-																								pos: position{line: 1682, col: 6, offset: 54703},
+																								pos: position{line: 1682, col: 6, offset: 54750},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1682, col: 6, offset: 54703},
+																										pos: position{line: 1682, col: 6, offset: 54750},
 																										expr: &actionExpr{
-																											pos: position{line: 1687, col: 5, offset: 54853},
+																											pos: position{line: 1687, col: 5, offset: 54900},
 																											run: (*parser).callonExtraListElement413,
 																											expr: &seqExpr{
-																												pos: position{line: 1687, col: 5, offset: 54853},
+																												pos: position{line: 1687, col: 5, offset: 54900},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1687, col: 5, offset: 54853},
+																														pos:   position{line: 1687, col: 5, offset: 54900},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1687, col: 16, offset: 54864},
+																															pos: position{line: 1687, col: 16, offset: 54911},
 																															run: (*parser).callonExtraListElement416,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1687, col: 16, offset: 54864},
+																																pos: position{line: 1687, col: 16, offset: 54911},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1687, col: 17, offset: 54865},
+																																	pos:        position{line: 1687, col: 17, offset: 54912},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -27781,7 +27829,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1690, col: 5, offset: 54922},
+																														pos: position{line: 1690, col: 5, offset: 54969},
 																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
@@ -27789,30 +27837,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1682, col: 35, offset: 54732},
+																										pos: position{line: 1682, col: 35, offset: 54779},
 																										expr: &choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92809},
+																											pos: position{line: 2944, col: 8, offset: 92856},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92582},
+																													pos: position{line: 2931, col: 12, offset: 92629},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92583},
+																														pos: position{line: 2931, col: 13, offset: 92630},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92583},
+																																pos:        position{line: 2931, col: 13, offset: 92630},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92590},
+																																pos:        position{line: 2931, col: 20, offset: 92637},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92599},
+																																pos:        position{line: 2931, col: 29, offset: 92646},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27821,16 +27869,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92759},
+																													pos: position{line: 2941, col: 8, offset: 92806},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92760,
+																														line: 2941, col: 9, offset: 92807,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1682, col: 40, offset: 54737,
+																										line: 1682, col: 40, offset: 54784,
 																									},
 																								},
 																							},
@@ -27840,24 +27888,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1674, col: 5, offset: 54379},
+																			pos:   position{line: 1674, col: 5, offset: 54426},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1687, col: 5, offset: 54853},
+																				pos: position{line: 1687, col: 5, offset: 54900},
 																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1687, col: 5, offset: 54853},
+																					pos: position{line: 1687, col: 5, offset: 54900},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1687, col: 5, offset: 54853},
+																							pos:   position{line: 1687, col: 5, offset: 54900},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1687, col: 16, offset: 54864},
+																								pos: position{line: 1687, col: 16, offset: 54911},
 																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1687, col: 16, offset: 54864},
+																									pos: position{line: 1687, col: 16, offset: 54911},
 																									expr: &litMatcher{
-																										pos:        position{line: 1687, col: 17, offset: 54865},
+																										pos:        position{line: 1687, col: 17, offset: 54912},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27866,7 +27914,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1690, col: 5, offset: 54922},
+																							pos: position{line: 1690, col: 5, offset: 54969},
 																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
@@ -27874,24 +27922,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1675, col: 5, offset: 54424},
+																			pos:   position{line: 1675, col: 5, offset: 54471},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1698, col: 5, offset: 55171},
+																				pos: position{line: 1698, col: 5, offset: 55218},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1700, col: 9, offset: 55237},
+																						pos: position{line: 1700, col: 9, offset: 55284},
 																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1700, col: 9, offset: 55237},
+																							pos: position{line: 1700, col: 9, offset: 55284},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1700, col: 9, offset: 55237},
+																									pos: position{line: 1700, col: 9, offset: 55284},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92411},
+																										pos: position{line: 2922, col: 10, offset: 92458},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92411},
+																											pos:        position{line: 2922, col: 10, offset: 92458},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27900,28 +27948,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92809},
+																									pos: position{line: 2944, col: 8, offset: 92856},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92582},
+																											pos: position{line: 2931, col: 12, offset: 92629},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92583},
+																												pos: position{line: 2931, col: 13, offset: 92630},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92583},
+																														pos:        position{line: 2931, col: 13, offset: 92630},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92590},
+																														pos:        position{line: 2931, col: 20, offset: 92637},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92599},
+																														pos:        position{line: 2931, col: 29, offset: 92646},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27930,15 +27978,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92759},
+																											pos: position{line: 2941, col: 8, offset: 92806},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92760,
+																												line: 2941, col: 9, offset: 92807,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1701, col: 9, offset: 55256},
+																									pos: position{line: 1701, col: 9, offset: 55303},
 																									expr: &actionExpr{
 																										pos: position{line: 690, col: 14, offset: 22173},
 																										run: (*parser).callonExtraListElement454,
@@ -27946,18 +27994,18 @@ var g = &grammar{
 																											pos: position{line: 690, col: 14, offset: 22173},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2939, col: 11, offset: 92745},
+																													pos: position{line: 2939, col: 11, offset: 92792},
 																													expr: &anyMatcher{
-																														line: 2939, col: 13, offset: 92747,
+																														line: 2939, col: 13, offset: 92794,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 690, col: 21, offset: 22180},
 																													expr: &actionExpr{
-																														pos: position{line: 2922, col: 10, offset: 92411},
+																														pos: position{line: 2922, col: 10, offset: 92458},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2922, col: 10, offset: 92411},
+																															pos:        position{line: 2922, col: 10, offset: 92458},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27966,28 +28014,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2944, col: 8, offset: 92809},
+																													pos: position{line: 2944, col: 8, offset: 92856},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2931, col: 12, offset: 92582},
+																															pos: position{line: 2931, col: 12, offset: 92629},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2931, col: 13, offset: 92583},
+																																pos: position{line: 2931, col: 13, offset: 92630},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 13, offset: 92583},
+																																		pos:        position{line: 2931, col: 13, offset: 92630},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 20, offset: 92590},
+																																		pos:        position{line: 2931, col: 20, offset: 92637},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 29, offset: 92599},
+																																		pos:        position{line: 2931, col: 29, offset: 92646},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27996,9 +28044,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2941, col: 8, offset: 92759},
+																															pos: position{line: 2941, col: 8, offset: 92806},
 																															expr: &anyMatcher{
-																																line: 2941, col: 9, offset: 92760,
+																																line: 2941, col: 9, offset: 92807,
 																															},
 																														},
 																													},
@@ -28011,18 +28059,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1707, col: 9, offset: 55385},
+																						pos: position{line: 1707, col: 9, offset: 55432},
 																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1707, col: 9, offset: 55385},
+																							pos: position{line: 1707, col: 9, offset: 55432},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2926, col: 11, offset: 92472},
+																									pos: position{line: 2926, col: 11, offset: 92519},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2926, col: 11, offset: 92472},
+																										pos: position{line: 2926, col: 11, offset: 92519},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2926, col: 11, offset: 92472},
+																											pos:        position{line: 2926, col: 11, offset: 92519},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28031,15 +28079,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1708, col: 9, offset: 55458},
+																									pos:   position{line: 1708, col: 9, offset: 55505},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1708, col: 18, offset: 55467},
+																										pos: position{line: 1708, col: 18, offset: 55514},
 																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1708, col: 18, offset: 55467},
+																											pos: position{line: 1708, col: 18, offset: 55514},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1708, col: 18, offset: 55467},
+																												pos:        position{line: 1708, col: 18, offset: 55514},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28049,28 +28097,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92809},
+																									pos: position{line: 2944, col: 8, offset: 92856},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92582},
+																											pos: position{line: 2931, col: 12, offset: 92629},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92583},
+																												pos: position{line: 2931, col: 13, offset: 92630},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92583},
+																														pos:        position{line: 2931, col: 13, offset: 92630},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92590},
+																														pos:        position{line: 2931, col: 20, offset: 92637},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92599},
+																														pos:        position{line: 2931, col: 29, offset: 92646},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28079,9 +28127,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92759},
+																											pos: position{line: 2941, col: 8, offset: 92806},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92760,
+																												line: 2941, col: 9, offset: 92807,
 																											},
 																										},
 																									},
@@ -28102,40 +28150,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1515, col: 11, offset: 49317},
+										pos:  position{line: 1515, col: 11, offset: 49364},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2525, col: 22, offset: 81189},
+										pos: position{line: 2525, col: 22, offset: 81236},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 22, offset: 81189},
+											pos: position{line: 2525, col: 22, offset: 81236},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2530, col: 31, offset: 81439},
+													pos:        position{line: 2530, col: 31, offset: 81486},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2530, col: 36, offset: 81444},
+													pos: position{line: 2530, col: 36, offset: 81491},
 													expr: &litMatcher{
-														pos:        position{line: 2530, col: 37, offset: 81445},
+														pos:        position{line: 2530, col: 37, offset: 81492},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2525, col: 49, offset: 81216},
+													pos:   position{line: 2525, col: 49, offset: 81263},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 13, offset: 90937},
+														pos: position{line: 2868, col: 13, offset: 90984},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2868, col: 13, offset: 90937},
+															pos: position{line: 2868, col: 13, offset: 90984},
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 13, offset: 90937},
+																pos:        position{line: 2868, col: 13, offset: 90984},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28145,28 +28193,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92809},
+													pos: position{line: 2944, col: 8, offset: 92856},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92582},
+															pos: position{line: 2931, col: 12, offset: 92629},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92583},
+																pos: position{line: 2931, col: 13, offset: 92630},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92583},
+																		pos:        position{line: 2931, col: 13, offset: 92630},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92590},
+																		pos:        position{line: 2931, col: 20, offset: 92637},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92599},
+																		pos:        position{line: 2931, col: 29, offset: 92646},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28175,9 +28223,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92759},
+															pos: position{line: 2941, col: 8, offset: 92806},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92760,
+																line: 2941, col: 9, offset: 92807,
 															},
 														},
 													},
@@ -28186,13 +28234,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1523, col: 5, offset: 49595},
+										pos: position{line: 1523, col: 5, offset: 49642},
 										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
-											pos: position{line: 1523, col: 5, offset: 49595},
+											pos: position{line: 1523, col: 5, offset: 49642},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1523, col: 5, offset: 49595},
+													pos: position{line: 1523, col: 5, offset: 49642},
 													expr: &actionExpr{
 														pos: position{line: 690, col: 14, offset: 22173},
 														run: (*parser).callonExtraListElement507,
@@ -28200,18 +28248,18 @@ var g = &grammar{
 															pos: position{line: 690, col: 14, offset: 22173},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2939, col: 11, offset: 92745},
+																	pos: position{line: 2939, col: 11, offset: 92792},
 																	expr: &anyMatcher{
-																		line: 2939, col: 13, offset: 92747,
+																		line: 2939, col: 13, offset: 92794,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 690, col: 21, offset: 22180},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92411},
+																		pos: position{line: 2922, col: 10, offset: 92458},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92411},
+																			pos:        position{line: 2922, col: 10, offset: 92458},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28220,28 +28268,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92809},
+																	pos: position{line: 2944, col: 8, offset: 92856},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92582},
+																			pos: position{line: 2931, col: 12, offset: 92629},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92583},
+																				pos: position{line: 2931, col: 13, offset: 92630},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92583},
+																						pos:        position{line: 2931, col: 13, offset: 92630},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92590},
+																						pos:        position{line: 2931, col: 20, offset: 92637},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92599},
+																						pos:        position{line: 2931, col: 29, offset: 92646},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28250,9 +28298,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92759},
+																			pos: position{line: 2941, col: 8, offset: 92806},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92760,
+																				line: 2941, col: 9, offset: 92807,
 																			},
 																		},
 																	},
@@ -28262,23 +28310,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1524, col: 5, offset: 49610},
+													pos: position{line: 1524, col: 5, offset: 49657},
 													expr: &seqExpr{
-														pos: position{line: 1555, col: 27, offset: 50470},
+														pos: position{line: 1555, col: 27, offset: 50517},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1555, col: 27, offset: 50470},
+																pos:        position{line: 1555, col: 27, offset: 50517},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1555, col: 31, offset: 50474},
+																pos: position{line: 1555, col: 31, offset: 50521},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92411},
+																	pos: position{line: 2922, col: 10, offset: 92458},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92411},
+																		pos:        position{line: 2922, col: 10, offset: 92458},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28287,25 +28335,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92582},
+																pos: position{line: 2931, col: 12, offset: 92629},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92583},
+																	pos: position{line: 2931, col: 13, offset: 92630},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92583},
+																			pos:        position{line: 2931, col: 13, offset: 92630},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92590},
+																			pos:        position{line: 2931, col: 20, offset: 92637},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92599},
+																			pos:        position{line: 2931, col: 29, offset: 92646},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28317,20 +28365,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1525, col: 5, offset: 49638},
+													pos: position{line: 1525, col: 5, offset: 49685},
 													expr: &actionExpr{
-														pos: position{line: 1596, col: 5, offset: 51689},
+														pos: position{line: 1596, col: 5, offset: 51736},
 														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
-															pos: position{line: 1596, col: 5, offset: 51689},
+															pos: position{line: 1596, col: 5, offset: 51736},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1596, col: 5, offset: 51689},
+																	pos: position{line: 1596, col: 5, offset: 51736},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92411},
+																		pos: position{line: 2922, col: 10, offset: 92458},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92411},
+																			pos:        position{line: 2922, col: 10, offset: 92458},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28339,27 +28387,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1596, col: 12, offset: 51696},
+																	pos:   position{line: 1596, col: 12, offset: 51743},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1598, col: 9, offset: 51759},
+																		pos: position{line: 1598, col: 9, offset: 51806},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1598, col: 9, offset: 51759},
+																				pos: position{line: 1598, col: 9, offset: 51806},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1598, col: 9, offset: 51759},
+																					pos: position{line: 1598, col: 9, offset: 51806},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1598, col: 9, offset: 51759},
+																							pos:   position{line: 1598, col: 9, offset: 51806},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1598, col: 16, offset: 51766},
+																								pos: position{line: 1598, col: 16, offset: 51813},
 																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1598, col: 16, offset: 51766},
+																									pos: position{line: 1598, col: 16, offset: 51813},
 																									expr: &litMatcher{
-																										pos:        position{line: 1598, col: 17, offset: 51767},
+																										pos:        position{line: 1598, col: 17, offset: 51814},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28368,22 +28416,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1602, col: 9, offset: 51867},
+																							pos: position{line: 1602, col: 9, offset: 51914},
 																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 11, offset: 52584},
+																				pos: position{line: 1621, col: 11, offset: 52631},
 																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 11, offset: 52584},
+																					pos: position{line: 1621, col: 11, offset: 52631},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1621, col: 11, offset: 52584},
+																							pos: position{line: 1621, col: 11, offset: 52631},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1621, col: 12, offset: 52585},
+																								pos:        position{line: 1621, col: 12, offset: 52632},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28391,7 +28439,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 20, offset: 52593},
+																							pos:        position{line: 1621, col: 20, offset: 52640},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28400,20 +28448,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1623, col: 13, offset: 52710},
+																				pos: position{line: 1623, col: 13, offset: 52757},
 																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
-																					pos: position{line: 1623, col: 13, offset: 52710},
+																					pos: position{line: 1623, col: 13, offset: 52757},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1623, col: 14, offset: 52711},
+																							pos:        position{line: 1623, col: 14, offset: 52758},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1623, col: 21, offset: 52718},
+																							pos:        position{line: 1623, col: 21, offset: 52765},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28422,20 +28470,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1625, col: 13, offset: 52838},
+																				pos: position{line: 1625, col: 13, offset: 52885},
 																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
-																					pos: position{line: 1625, col: 13, offset: 52838},
+																					pos: position{line: 1625, col: 13, offset: 52885},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1625, col: 14, offset: 52839},
+																							pos:        position{line: 1625, col: 14, offset: 52886},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1625, col: 21, offset: 52846},
+																							pos:        position{line: 1625, col: 21, offset: 52893},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28444,15 +28492,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1627, col: 13, offset: 52966},
+																				pos: position{line: 1627, col: 13, offset: 53013},
 																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
-																					pos: position{line: 1627, col: 13, offset: 52966},
+																					pos: position{line: 1627, col: 13, offset: 53013},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1627, col: 13, offset: 52966},
+																							pos: position{line: 1627, col: 13, offset: 53013},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1627, col: 14, offset: 52967},
+																								pos:        position{line: 1627, col: 14, offset: 53014},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28460,7 +28508,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1627, col: 26, offset: 52979},
+																							pos:        position{line: 1627, col: 26, offset: 53026},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28469,15 +28517,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1629, col: 13, offset: 53099},
+																				pos: position{line: 1629, col: 13, offset: 53146},
 																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
-																					pos: position{line: 1629, col: 13, offset: 53099},
+																					pos: position{line: 1629, col: 13, offset: 53146},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1629, col: 13, offset: 53099},
+																							pos: position{line: 1629, col: 13, offset: 53146},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1629, col: 14, offset: 53100},
+																								pos:        position{line: 1629, col: 14, offset: 53147},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28485,7 +28533,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1629, col: 26, offset: 53112},
+																							pos:        position{line: 1629, col: 26, offset: 53159},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28497,12 +28545,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92472},
+																	pos: position{line: 2926, col: 11, offset: 92519},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92472},
+																		pos: position{line: 2926, col: 11, offset: 92519},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92472},
+																			pos:        position{line: 2926, col: 11, offset: 92519},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28515,20 +28563,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1526, col: 5, offset: 49668},
+													pos: position{line: 1526, col: 5, offset: 49715},
 													expr: &actionExpr{
-														pos: position{line: 1646, col: 5, offset: 53651},
+														pos: position{line: 1646, col: 5, offset: 53698},
 														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
-															pos: position{line: 1646, col: 5, offset: 53651},
+															pos: position{line: 1646, col: 5, offset: 53698},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1646, col: 5, offset: 53651},
+																	pos: position{line: 1646, col: 5, offset: 53698},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92411},
+																		pos: position{line: 2922, col: 10, offset: 92458},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92411},
+																			pos:        position{line: 2922, col: 10, offset: 92458},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28537,24 +28585,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1647, col: 5, offset: 53663},
+																	pos:   position{line: 1647, col: 5, offset: 53710},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1648, col: 9, offset: 53679},
+																		pos: position{line: 1648, col: 9, offset: 53726},
 																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
-																			pos: position{line: 1648, col: 10, offset: 53680},
+																			pos: position{line: 1648, col: 10, offset: 53727},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1648, col: 11, offset: 53681},
+																					pos:        position{line: 1648, col: 11, offset: 53728},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1648, col: 18, offset: 53688},
+																					pos: position{line: 1648, col: 18, offset: 53735},
 																					expr: &litMatcher{
-																						pos:        position{line: 1648, col: 19, offset: 53689},
+																						pos:        position{line: 1648, col: 19, offset: 53736},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28565,16 +28613,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1651, col: 7, offset: 53779},
+																	pos: position{line: 1651, col: 7, offset: 53826},
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92472},
+																	pos: position{line: 2926, col: 11, offset: 92519},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92472},
+																		pos: position{line: 2926, col: 11, offset: 92519},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92472},
+																			pos:        position{line: 2926, col: 11, offset: 92519},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28587,29 +28635,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1527, col: 5, offset: 49700},
+													pos: position{line: 1527, col: 5, offset: 49747},
 													expr: &actionExpr{
-														pos: position{line: 1736, col: 5, offset: 56220},
+														pos: position{line: 1736, col: 5, offset: 56267},
 														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1736, col: 5, offset: 56220},
+															pos: position{line: 1736, col: 5, offset: 56267},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1736, col: 5, offset: 56220},
+																	pos:        position{line: 1736, col: 5, offset: 56267},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1736, col: 9, offset: 56224},
+																	pos:   position{line: 1736, col: 9, offset: 56271},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1736, col: 14, offset: 56229},
+																		pos: position{line: 1736, col: 14, offset: 56276},
 																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1736, col: 14, offset: 56229},
+																			pos: position{line: 1736, col: 14, offset: 56276},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1736, col: 14, offset: 56229},
+																				pos:        position{line: 1736, col: 14, offset: 56276},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28619,18 +28667,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1736, col: 62, offset: 56277},
+																	pos:        position{line: 1736, col: 62, offset: 56324},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92472},
+																	pos: position{line: 2926, col: 11, offset: 92519},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92472},
+																		pos: position{line: 2926, col: 11, offset: 92519},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92472},
+																			pos:        position{line: 2926, col: 11, offset: 92519},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28643,31 +28691,31 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1528, col: 5, offset: 49730},
+													pos: position{line: 1528, col: 5, offset: 49777},
 													expr: &seqExpr{
-														pos: position{line: 1528, col: 7, offset: 49732},
+														pos: position{line: 1528, col: 7, offset: 49779},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1681, col: 5, offset: 54670},
+																pos: position{line: 1681, col: 5, offset: 54717},
 																run: (*parser).callonExtraListElement604,
 																expr: &seqExpr{
-																	pos: position{line: 1681, col: 5, offset: 54670},
+																	pos: position{line: 1681, col: 5, offset: 54717},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1681, col: 5, offset: 54670},
+																			pos: position{line: 1681, col: 5, offset: 54717},
 																			expr: &seqExpr{
-																				pos: position{line: 2530, col: 31, offset: 81439},
+																				pos: position{line: 2530, col: 31, offset: 81486},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2530, col: 31, offset: 81439},
+																						pos:        position{line: 2530, col: 31, offset: 81486},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2530, col: 36, offset: 81444},
+																						pos: position{line: 2530, col: 36, offset: 81491},
 																						expr: &litMatcher{
-																							pos:        position{line: 2530, col: 37, offset: 81445},
+																							pos:        position{line: 2530, col: 37, offset: 81492},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -28677,28 +28725,28 @@ var g = &grammar{
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1682, col: 5, offset: 54702},
+																			pos: position{line: 1682, col: 5, offset: 54749},
 																			expr: &seqExpr{
-																				pos: position{line: 1682, col: 6, offset: 54703},
+																				pos: position{line: 1682, col: 6, offset: 54750},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1682, col: 6, offset: 54703},
+																						pos: position{line: 1682, col: 6, offset: 54750},
 																						expr: &actionExpr{
-																							pos: position{line: 1687, col: 5, offset: 54853},
+																							pos: position{line: 1687, col: 5, offset: 54900},
 																							run: (*parser).callonExtraListElement614,
 																							expr: &seqExpr{
-																								pos: position{line: 1687, col: 5, offset: 54853},
+																								pos: position{line: 1687, col: 5, offset: 54900},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1687, col: 5, offset: 54853},
+																										pos:   position{line: 1687, col: 5, offset: 54900},
 																										label: "separator",
 																										expr: &actionExpr{
-																											pos: position{line: 1687, col: 16, offset: 54864},
+																											pos: position{line: 1687, col: 16, offset: 54911},
 																											run: (*parser).callonExtraListElement617,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1687, col: 16, offset: 54864},
+																												pos: position{line: 1687, col: 16, offset: 54911},
 																												expr: &litMatcher{
-																													pos:        position{line: 1687, col: 17, offset: 54865},
+																													pos:        position{line: 1687, col: 17, offset: 54912},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
@@ -28707,7 +28755,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1690, col: 5, offset: 54922},
+																										pos: position{line: 1690, col: 5, offset: 54969},
 																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
@@ -28715,30 +28763,30 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1682, col: 35, offset: 54732},
+																						pos: position{line: 1682, col: 35, offset: 54779},
 																						expr: &choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28747,16 +28795,16 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1682, col: 40, offset: 54737,
+																						line: 1682, col: 40, offset: 54784,
 																					},
 																				},
 																			},
@@ -28765,21 +28813,21 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1687, col: 5, offset: 54853},
+																pos: position{line: 1687, col: 5, offset: 54900},
 																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 5, offset: 54853},
+																	pos: position{line: 1687, col: 5, offset: 54900},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1687, col: 5, offset: 54853},
+																			pos:   position{line: 1687, col: 5, offset: 54900},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1687, col: 16, offset: 54864},
+																				pos: position{line: 1687, col: 16, offset: 54911},
 																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1687, col: 16, offset: 54864},
+																					pos: position{line: 1687, col: 16, offset: 54911},
 																					expr: &litMatcher{
-																						pos:        position{line: 1687, col: 17, offset: 54865},
+																						pos:        position{line: 1687, col: 17, offset: 54912},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28788,7 +28836,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1690, col: 5, offset: 54922},
+																			pos: position{line: 1690, col: 5, offset: 54969},
 																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
@@ -28798,7 +28846,7 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1529, col: 5, offset: 49788},
+													pos: position{line: 1529, col: 5, offset: 49835},
 													expr: &actionExpr{
 														pos: position{line: 737, col: 5, offset: 23726},
 														run: (*parser).callonExtraListElement639,
@@ -28808,7 +28856,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 737, col: 5, offset: 23726},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2812, col: 13, offset: 89506},
+																		pos:        position{line: 2812, col: 13, offset: 89553},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28858,10 +28906,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 755, col: 8, offset: 24370},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92411},
+																								pos: position{line: 2922, col: 10, offset: 92458},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92411},
+																									pos:        position{line: 2922, col: 10, offset: 92458},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28870,28 +28918,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28900,9 +28948,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -28947,10 +28995,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24618},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92411},
+																								pos: position{line: 2922, col: 10, offset: 92458},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92411},
+																									pos:        position{line: 2922, col: 10, offset: 92458},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28959,28 +29007,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28989,9 +29037,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -29032,10 +29080,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 773, col: 52, offset: 25030},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92411},
+																								pos: position{line: 2922, col: 10, offset: 92458},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92411},
+																									pos:        position{line: 2922, col: 10, offset: 92458},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29044,28 +29092,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29074,9 +29122,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -29121,10 +29169,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 769, col: 8, offset: 24864},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92411},
+																								pos: position{line: 2922, col: 10, offset: 92458},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92411},
+																									pos:        position{line: 2922, col: 10, offset: 92458},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29133,28 +29181,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29163,9 +29211,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -29210,10 +29258,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 784, col: 8, offset: 25402},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92411},
+																								pos: position{line: 2922, col: 10, offset: 92458},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92411},
+																									pos:        position{line: 2922, col: 10, offset: 92458},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29222,28 +29270,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29252,9 +29300,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -29299,10 +29347,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 798, col: 8, offset: 25878},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92411},
+																								pos: position{line: 2922, col: 10, offset: 92458},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92411},
+																									pos:        position{line: 2922, col: 10, offset: 92458},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29311,28 +29359,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29341,9 +29389,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -29388,10 +29436,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 805, col: 8, offset: 26130},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92411},
+																								pos: position{line: 2922, col: 10, offset: 92458},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92411},
+																									pos:        position{line: 2922, col: 10, offset: 92458},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29400,28 +29448,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29430,9 +29478,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -29477,10 +29525,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 812, col: 8, offset: 26380},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92411},
+																								pos: position{line: 2922, col: 10, offset: 92458},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92411},
+																									pos:        position{line: 2922, col: 10, offset: 92458},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29489,28 +29537,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29519,9 +29567,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -29566,10 +29614,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 819, col: 8, offset: 26626},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92411},
+																								pos: position{line: 2922, col: 10, offset: 92458},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92411},
+																									pos:        position{line: 2922, col: 10, offset: 92458},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29578,28 +29626,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29608,9 +29656,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -29626,15 +29674,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1530, col: 5, offset: 49808},
+													pos:   position{line: 1530, col: 5, offset: 49855},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 14, offset: 91004},
+														pos: position{line: 2872, col: 14, offset: 91051},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2872, col: 14, offset: 91004},
+															pos: position{line: 2872, col: 14, offset: 91051},
 															expr: &charClassMatcher{
-																pos:        position{line: 2872, col: 14, offset: 91004},
+																pos:        position{line: 2872, col: 14, offset: 91051},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29644,28 +29692,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92809},
+													pos: position{line: 2944, col: 8, offset: 92856},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92582},
+															pos: position{line: 2931, col: 12, offset: 92629},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92583},
+																pos: position{line: 2931, col: 13, offset: 92630},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92583},
+																		pos:        position{line: 2931, col: 13, offset: 92630},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92590},
+																		pos:        position{line: 2931, col: 20, offset: 92637},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92599},
+																		pos:        position{line: 2931, col: 29, offset: 92646},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29674,9 +29722,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92759},
+															pos: position{line: 2941, col: 8, offset: 92806},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92760,
+																line: 2941, col: 9, offset: 92807,
 															},
 														},
 													},
@@ -29693,28 +29741,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1546, col: 1, offset: 50199},
+			pos:  position{line: 1546, col: 1, offset: 50246},
 			expr: &actionExpr{
-				pos: position{line: 1547, col: 5, offset: 50224},
+				pos: position{line: 1547, col: 5, offset: 50271},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1547, col: 5, offset: 50224},
+					pos: position{line: 1547, col: 5, offset: 50271},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1547, col: 5, offset: 50224},
+							pos:   position{line: 1547, col: 5, offset: 50271},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1547, col: 12, offset: 50231},
+								pos: position{line: 1547, col: 12, offset: 50278},
 								expr: &seqExpr{
-									pos: position{line: 1547, col: 13, offset: 50232},
+									pos: position{line: 1547, col: 13, offset: 50279},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1547, col: 13, offset: 50232},
+											pos: position{line: 1547, col: 13, offset: 50279},
 											expr: &actionExpr{
-												pos: position{line: 2922, col: 10, offset: 92411},
+												pos: position{line: 2922, col: 10, offset: 92458},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2922, col: 10, offset: 92411},
+													pos:        position{line: 2922, col: 10, offset: 92458},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29723,25 +29771,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2931, col: 12, offset: 92582},
+											pos: position{line: 2931, col: 12, offset: 92629},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2931, col: 13, offset: 92583},
+												pos: position{line: 2931, col: 13, offset: 92630},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2931, col: 13, offset: 92583},
+														pos:        position{line: 2931, col: 13, offset: 92630},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2931, col: 20, offset: 92590},
+														pos:        position{line: 2931, col: 20, offset: 92637},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2931, col: 29, offset: 92599},
+														pos:        position{line: 2931, col: 29, offset: 92646},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29754,18 +29802,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1555, col: 27, offset: 50470},
+							pos:        position{line: 1555, col: 27, offset: 50517},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1555, col: 31, offset: 50474},
+							pos: position{line: 1555, col: 31, offset: 50521},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92411},
+								pos: position{line: 2922, col: 10, offset: 92458},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92411},
+									pos:        position{line: 2922, col: 10, offset: 92458},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29774,25 +29822,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2931, col: 12, offset: 92582},
+							pos: position{line: 2931, col: 12, offset: 92629},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2931, col: 13, offset: 92583},
+								pos: position{line: 2931, col: 13, offset: 92630},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2931, col: 13, offset: 92583},
+										pos:        position{line: 2931, col: 13, offset: 92630},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2931, col: 20, offset: 92590},
+										pos:        position{line: 2931, col: 20, offset: 92637},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2931, col: 29, offset: 92599},
+										pos:        position{line: 2931, col: 29, offset: 92646},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29801,38 +29849,38 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1549, col: 5, offset: 50281},
+							pos: position{line: 1549, col: 5, offset: 50328},
 							expr: &actionExpr{
-								pos: position{line: 2525, col: 22, offset: 81189},
+								pos: position{line: 2525, col: 22, offset: 81236},
 								run: (*parser).callonListContinuation24,
 								expr: &seqExpr{
-									pos: position{line: 2525, col: 22, offset: 81189},
+									pos: position{line: 2525, col: 22, offset: 81236},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2530, col: 31, offset: 81439},
+											pos:        position{line: 2530, col: 31, offset: 81486},
 											val:        "//",
 											ignoreCase: false,
 											want:       "\"//\"",
 										},
 										&notExpr{
-											pos: position{line: 2530, col: 36, offset: 81444},
+											pos: position{line: 2530, col: 36, offset: 81491},
 											expr: &litMatcher{
-												pos:        position{line: 2530, col: 37, offset: 81445},
+												pos:        position{line: 2530, col: 37, offset: 81492},
 												val:        "/",
 												ignoreCase: false,
 												want:       "\"/\"",
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2525, col: 49, offset: 81216},
+											pos:   position{line: 2525, col: 49, offset: 81263},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2868, col: 13, offset: 90937},
+												pos: position{line: 2868, col: 13, offset: 90984},
 												run: (*parser).callonListContinuation30,
 												expr: &zeroOrMoreExpr{
-													pos: position{line: 2868, col: 13, offset: 90937},
+													pos: position{line: 2868, col: 13, offset: 90984},
 													expr: &charClassMatcher{
-														pos:        position{line: 2868, col: 13, offset: 90937},
+														pos:        position{line: 2868, col: 13, offset: 90984},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -29842,28 +29890,28 @@ var g = &grammar{
 											},
 										},
 										&choiceExpr{
-											pos: position{line: 2944, col: 8, offset: 92809},
+											pos: position{line: 2944, col: 8, offset: 92856},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2931, col: 12, offset: 92582},
+													pos: position{line: 2931, col: 12, offset: 92629},
 													run: (*parser).callonListContinuation34,
 													expr: &choiceExpr{
-														pos: position{line: 2931, col: 13, offset: 92583},
+														pos: position{line: 2931, col: 13, offset: 92630},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2931, col: 13, offset: 92583},
+																pos:        position{line: 2931, col: 13, offset: 92630},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2931, col: 20, offset: 92590},
+																pos:        position{line: 2931, col: 20, offset: 92637},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2931, col: 29, offset: 92599},
+																pos:        position{line: 2931, col: 29, offset: 92646},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -29872,9 +29920,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92759},
+													pos: position{line: 2941, col: 8, offset: 92806},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92760,
+														line: 2941, col: 9, offset: 92807,
 													},
 												},
 											},
@@ -29884,12 +29932,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1550, col: 5, offset: 50315},
+							pos:   position{line: 1550, col: 5, offset: 50362},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1550, col: 13, offset: 50323},
+								pos: position{line: 1550, col: 13, offset: 50370},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1550, col: 13, offset: 50323},
+									pos:  position{line: 1550, col: 13, offset: 50370},
 									name: "ListContinuationElement",
 								},
 							},
@@ -29900,46 +29948,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1557, col: 1, offset: 50490},
+			pos:  position{line: 1557, col: 1, offset: 50537},
 			expr: &actionExpr{
-				pos: position{line: 1558, col: 5, offset: 50561},
+				pos: position{line: 1558, col: 5, offset: 50608},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1558, col: 5, offset: 50561},
+					pos: position{line: 1558, col: 5, offset: 50608},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92745},
+							pos: position{line: 2939, col: 11, offset: 92792},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92747,
+								line: 2939, col: 13, offset: 92794,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1559, col: 5, offset: 50589},
+							pos: position{line: 1559, col: 5, offset: 50636},
 							expr: &choiceExpr{
-								pos: position{line: 1495, col: 5, offset: 48513},
+								pos: position{line: 1495, col: 5, offset: 48560},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1589, col: 5, offset: 51481},
+										pos: position{line: 1589, col: 5, offset: 51528},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1589, col: 5, offset: 51481},
+											pos: position{line: 1589, col: 5, offset: 51528},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1589, col: 5, offset: 51481},
+													pos:   position{line: 1589, col: 5, offset: 51528},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1596, col: 5, offset: 51689},
+														pos: position{line: 1596, col: 5, offset: 51736},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1596, col: 5, offset: 51689},
+															pos: position{line: 1596, col: 5, offset: 51736},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1596, col: 5, offset: 51689},
+																	pos: position{line: 1596, col: 5, offset: 51736},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92411},
+																		pos: position{line: 2922, col: 10, offset: 92458},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92411},
+																			pos:        position{line: 2922, col: 10, offset: 92458},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29948,27 +29996,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1596, col: 12, offset: 51696},
+																	pos:   position{line: 1596, col: 12, offset: 51743},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1598, col: 9, offset: 51759},
+																		pos: position{line: 1598, col: 9, offset: 51806},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1598, col: 9, offset: 51759},
+																				pos: position{line: 1598, col: 9, offset: 51806},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1598, col: 9, offset: 51759},
+																					pos: position{line: 1598, col: 9, offset: 51806},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1598, col: 9, offset: 51759},
+																							pos:   position{line: 1598, col: 9, offset: 51806},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1598, col: 16, offset: 51766},
+																								pos: position{line: 1598, col: 16, offset: 51813},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1598, col: 16, offset: 51766},
+																									pos: position{line: 1598, col: 16, offset: 51813},
 																									expr: &litMatcher{
-																										pos:        position{line: 1598, col: 17, offset: 51767},
+																										pos:        position{line: 1598, col: 17, offset: 51814},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29977,22 +30025,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1602, col: 9, offset: 51867},
+																							pos: position{line: 1602, col: 9, offset: 51914},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 11, offset: 52584},
+																				pos: position{line: 1621, col: 11, offset: 52631},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 11, offset: 52584},
+																					pos: position{line: 1621, col: 11, offset: 52631},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1621, col: 11, offset: 52584},
+																							pos: position{line: 1621, col: 11, offset: 52631},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1621, col: 12, offset: 52585},
+																								pos:        position{line: 1621, col: 12, offset: 52632},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -30000,7 +30048,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 20, offset: 52593},
+																							pos:        position{line: 1621, col: 20, offset: 52640},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30009,20 +30057,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1623, col: 13, offset: 52710},
+																				pos: position{line: 1623, col: 13, offset: 52757},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1623, col: 13, offset: 52710},
+																					pos: position{line: 1623, col: 13, offset: 52757},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1623, col: 14, offset: 52711},
+																							pos:        position{line: 1623, col: 14, offset: 52758},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1623, col: 21, offset: 52718},
+																							pos:        position{line: 1623, col: 21, offset: 52765},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30031,20 +30079,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1625, col: 13, offset: 52838},
+																				pos: position{line: 1625, col: 13, offset: 52885},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1625, col: 13, offset: 52838},
+																					pos: position{line: 1625, col: 13, offset: 52885},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1625, col: 14, offset: 52839},
+																							pos:        position{line: 1625, col: 14, offset: 52886},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1625, col: 21, offset: 52846},
+																							pos:        position{line: 1625, col: 21, offset: 52893},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30053,15 +30101,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1627, col: 13, offset: 52966},
+																				pos: position{line: 1627, col: 13, offset: 53013},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1627, col: 13, offset: 52966},
+																					pos: position{line: 1627, col: 13, offset: 53013},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1627, col: 13, offset: 52966},
+																							pos: position{line: 1627, col: 13, offset: 53013},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1627, col: 14, offset: 52967},
+																								pos:        position{line: 1627, col: 14, offset: 53014},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -30069,7 +30117,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1627, col: 26, offset: 52979},
+																							pos:        position{line: 1627, col: 26, offset: 53026},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30078,15 +30126,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1629, col: 13, offset: 53099},
+																				pos: position{line: 1629, col: 13, offset: 53146},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1629, col: 13, offset: 53099},
+																					pos: position{line: 1629, col: 13, offset: 53146},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1629, col: 13, offset: 53099},
+																							pos: position{line: 1629, col: 13, offset: 53146},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1629, col: 14, offset: 53100},
+																								pos:        position{line: 1629, col: 14, offset: 53147},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -30094,7 +30142,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1629, col: 26, offset: 53112},
+																							pos:        position{line: 1629, col: 26, offset: 53159},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30106,12 +30154,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92472},
+																	pos: position{line: 2926, col: 11, offset: 92519},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92472},
+																		pos: position{line: 2926, col: 11, offset: 92519},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92472},
+																			pos:        position{line: 2926, col: 11, offset: 92519},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30124,26 +30172,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1590, col: 5, offset: 51520},
+													pos:   position{line: 1590, col: 5, offset: 51567},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1536, col: 5, offset: 49953},
+														pos: position{line: 1536, col: 5, offset: 50000},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1536, col: 5, offset: 49953},
+															pos: position{line: 1536, col: 5, offset: 50000},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1536, col: 5, offset: 49953},
+																	pos:   position{line: 1536, col: 5, offset: 50000},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1536, col: 14, offset: 49962},
+																		pos: position{line: 1536, col: 14, offset: 50009},
 																		expr: &actionExpr{
-																			pos: position{line: 1536, col: 15, offset: 49963},
+																			pos: position{line: 1536, col: 15, offset: 50010},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1536, col: 15, offset: 49963},
+																				pos: position{line: 1536, col: 15, offset: 50010},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1536, col: 15, offset: 49963},
+																					pos:        position{line: 1536, col: 15, offset: 50010},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30154,28 +30202,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92809},
+																	pos: position{line: 2944, col: 8, offset: 92856},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92582},
+																			pos: position{line: 2931, col: 12, offset: 92629},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92583},
+																				pos: position{line: 2931, col: 13, offset: 92630},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92583},
+																						pos:        position{line: 2931, col: 13, offset: 92630},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92590},
+																						pos:        position{line: 2931, col: 20, offset: 92637},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92599},
+																						pos:        position{line: 2931, col: 29, offset: 92646},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30184,9 +30232,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92759},
+																			pos: position{line: 2941, col: 8, offset: 92806},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92760,
+																				line: 2941, col: 9, offset: 92807,
 																			},
 																		},
 																	},
@@ -30199,27 +30247,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1639, col: 5, offset: 53378},
+										pos: position{line: 1639, col: 5, offset: 53425},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1639, col: 5, offset: 53378},
+											pos: position{line: 1639, col: 5, offset: 53425},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1639, col: 5, offset: 53378},
+													pos:   position{line: 1639, col: 5, offset: 53425},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1646, col: 5, offset: 53651},
+														pos: position{line: 1646, col: 5, offset: 53698},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1646, col: 5, offset: 53651},
+															pos: position{line: 1646, col: 5, offset: 53698},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1646, col: 5, offset: 53651},
+																	pos: position{line: 1646, col: 5, offset: 53698},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92411},
+																		pos: position{line: 2922, col: 10, offset: 92458},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92411},
+																			pos:        position{line: 2922, col: 10, offset: 92458},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30228,24 +30276,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1647, col: 5, offset: 53663},
+																	pos:   position{line: 1647, col: 5, offset: 53710},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1648, col: 9, offset: 53679},
+																		pos: position{line: 1648, col: 9, offset: 53726},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1648, col: 10, offset: 53680},
+																			pos: position{line: 1648, col: 10, offset: 53727},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1648, col: 11, offset: 53681},
+																					pos:        position{line: 1648, col: 11, offset: 53728},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1648, col: 18, offset: 53688},
+																					pos: position{line: 1648, col: 18, offset: 53735},
 																					expr: &litMatcher{
-																						pos:        position{line: 1648, col: 19, offset: 53689},
+																						pos:        position{line: 1648, col: 19, offset: 53736},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -30256,16 +30304,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1651, col: 7, offset: 53779},
+																	pos: position{line: 1651, col: 7, offset: 53826},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92472},
+																	pos: position{line: 2926, col: 11, offset: 92519},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92472},
+																		pos: position{line: 2926, col: 11, offset: 92519},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92472},
+																			pos:        position{line: 2926, col: 11, offset: 92519},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30278,56 +30326,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1640, col: 5, offset: 53419},
+													pos:   position{line: 1640, col: 5, offset: 53466},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1640, col: 16, offset: 53430},
+														pos: position{line: 1640, col: 16, offset: 53477},
 														expr: &actionExpr{
-															pos: position{line: 1661, col: 5, offset: 54044},
+															pos: position{line: 1661, col: 5, offset: 54091},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1661, col: 5, offset: 54044},
+																pos: position{line: 1661, col: 5, offset: 54091},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1661, col: 5, offset: 54044},
+																		pos: position{line: 1661, col: 5, offset: 54091},
 																		expr: &litMatcher{
-																			pos:        position{line: 1661, col: 6, offset: 54045},
+																			pos:        position{line: 1661, col: 6, offset: 54092},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1661, col: 10, offset: 54049},
+																		pos:   position{line: 1661, col: 10, offset: 54096},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1662, col: 7, offset: 54063},
+																			pos: position{line: 1662, col: 7, offset: 54110},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1662, col: 7, offset: 54063},
+																					pos: position{line: 1662, col: 7, offset: 54110},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1662, col: 7, offset: 54063},
+																						pos:        position{line: 1662, col: 7, offset: 54110},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1663, col: 7, offset: 54108},
+																					pos: position{line: 1663, col: 7, offset: 54155},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1663, col: 7, offset: 54108},
+																						pos:        position{line: 1663, col: 7, offset: 54155},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1664, col: 7, offset: 54151},
+																					pos: position{line: 1664, col: 7, offset: 54198},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1664, col: 7, offset: 54151},
+																						pos:        position{line: 1664, col: 7, offset: 54198},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -30337,12 +30385,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2926, col: 11, offset: 92472},
+																		pos: position{line: 2926, col: 11, offset: 92519},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2926, col: 11, offset: 92472},
+																			pos: position{line: 2926, col: 11, offset: 92519},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2926, col: 11, offset: 92472},
+																				pos:        position{line: 2926, col: 11, offset: 92519},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30356,26 +30404,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1641, col: 5, offset: 53469},
+													pos:   position{line: 1641, col: 5, offset: 53516},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1536, col: 5, offset: 49953},
+														pos: position{line: 1536, col: 5, offset: 50000},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1536, col: 5, offset: 49953},
+															pos: position{line: 1536, col: 5, offset: 50000},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1536, col: 5, offset: 49953},
+																	pos:   position{line: 1536, col: 5, offset: 50000},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1536, col: 14, offset: 49962},
+																		pos: position{line: 1536, col: 14, offset: 50009},
 																		expr: &actionExpr{
-																			pos: position{line: 1536, col: 15, offset: 49963},
+																			pos: position{line: 1536, col: 15, offset: 50010},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1536, col: 15, offset: 49963},
+																				pos: position{line: 1536, col: 15, offset: 50010},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1536, col: 15, offset: 49963},
+																					pos:        position{line: 1536, col: 15, offset: 50010},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30386,28 +30434,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92809},
+																	pos: position{line: 2944, col: 8, offset: 92856},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92582},
+																			pos: position{line: 2931, col: 12, offset: 92629},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92583},
+																				pos: position{line: 2931, col: 13, offset: 92630},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92583},
+																						pos:        position{line: 2931, col: 13, offset: 92630},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92590},
+																						pos:        position{line: 2931, col: 20, offset: 92637},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92599},
+																						pos:        position{line: 2931, col: 29, offset: 92646},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30416,9 +30464,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92759},
+																			pos: position{line: 2941, col: 8, offset: 92806},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92760,
+																				line: 2941, col: 9, offset: 92807,
 																			},
 																		},
 																	},
@@ -30431,36 +30479,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1730, col: 5, offset: 56023},
+										pos: position{line: 1730, col: 5, offset: 56070},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1730, col: 5, offset: 56023},
+											pos: position{line: 1730, col: 5, offset: 56070},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1730, col: 5, offset: 56023},
+													pos:   position{line: 1730, col: 5, offset: 56070},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1736, col: 5, offset: 56220},
+														pos: position{line: 1736, col: 5, offset: 56267},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1736, col: 5, offset: 56220},
+															pos: position{line: 1736, col: 5, offset: 56267},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1736, col: 5, offset: 56220},
+																	pos:        position{line: 1736, col: 5, offset: 56267},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1736, col: 9, offset: 56224},
+																	pos:   position{line: 1736, col: 9, offset: 56271},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1736, col: 14, offset: 56229},
+																		pos: position{line: 1736, col: 14, offset: 56276},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1736, col: 14, offset: 56229},
+																			pos: position{line: 1736, col: 14, offset: 56276},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1736, col: 14, offset: 56229},
+																				pos:        position{line: 1736, col: 14, offset: 56276},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30470,18 +30518,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1736, col: 62, offset: 56277},
+																	pos:        position{line: 1736, col: 62, offset: 56324},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92472},
+																	pos: position{line: 2926, col: 11, offset: 92519},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92472},
+																		pos: position{line: 2926, col: 11, offset: 92519},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92472},
+																			pos:        position{line: 2926, col: 11, offset: 92519},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30494,26 +30542,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1731, col: 5, offset: 56059},
+													pos:   position{line: 1731, col: 5, offset: 56106},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1536, col: 5, offset: 49953},
+														pos: position{line: 1536, col: 5, offset: 50000},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1536, col: 5, offset: 49953},
+															pos: position{line: 1536, col: 5, offset: 50000},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1536, col: 5, offset: 49953},
+																	pos:   position{line: 1536, col: 5, offset: 50000},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1536, col: 14, offset: 49962},
+																		pos: position{line: 1536, col: 14, offset: 50009},
 																		expr: &actionExpr{
-																			pos: position{line: 1536, col: 15, offset: 49963},
+																			pos: position{line: 1536, col: 15, offset: 50010},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1536, col: 15, offset: 49963},
+																				pos: position{line: 1536, col: 15, offset: 50010},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1536, col: 15, offset: 49963},
+																					pos:        position{line: 1536, col: 15, offset: 50010},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30524,28 +30572,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92809},
+																	pos: position{line: 2944, col: 8, offset: 92856},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92582},
+																			pos: position{line: 2931, col: 12, offset: 92629},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92583},
+																				pos: position{line: 2931, col: 13, offset: 92630},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92583},
+																						pos:        position{line: 2931, col: 13, offset: 92630},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92590},
+																						pos:        position{line: 2931, col: 20, offset: 92637},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92599},
+																						pos:        position{line: 2931, col: 29, offset: 92646},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30554,9 +30602,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92759},
+																			pos: position{line: 2941, col: 8, offset: 92806},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92760,
+																				line: 2941, col: 9, offset: 92807,
 																			},
 																		},
 																	},
@@ -30569,35 +30617,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1673, col: 5, offset: 54344},
+										pos: position{line: 1673, col: 5, offset: 54391},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1673, col: 5, offset: 54344},
+											pos: position{line: 1673, col: 5, offset: 54391},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1673, col: 5, offset: 54344},
+													pos:   position{line: 1673, col: 5, offset: 54391},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1681, col: 5, offset: 54670},
+														pos: position{line: 1681, col: 5, offset: 54717},
 														run: (*parser).callonListContinuationElement150,
 														expr: &seqExpr{
-															pos: position{line: 1681, col: 5, offset: 54670},
+															pos: position{line: 1681, col: 5, offset: 54717},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1681, col: 5, offset: 54670},
+																	pos: position{line: 1681, col: 5, offset: 54717},
 																	expr: &seqExpr{
-																		pos: position{line: 2530, col: 31, offset: 81439},
+																		pos: position{line: 2530, col: 31, offset: 81486},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2530, col: 31, offset: 81439},
+																				pos:        position{line: 2530, col: 31, offset: 81486},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2530, col: 36, offset: 81444},
+																				pos: position{line: 2530, col: 36, offset: 81491},
 																				expr: &litMatcher{
-																					pos:        position{line: 2530, col: 37, offset: 81445},
+																					pos:        position{line: 2530, col: 37, offset: 81492},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -30607,28 +30655,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1682, col: 5, offset: 54702},
+																	pos: position{line: 1682, col: 5, offset: 54749},
 																	expr: &seqExpr{
-																		pos: position{line: 1682, col: 6, offset: 54703},
+																		pos: position{line: 1682, col: 6, offset: 54750},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1682, col: 6, offset: 54703},
+																				pos: position{line: 1682, col: 6, offset: 54750},
 																				expr: &actionExpr{
-																					pos: position{line: 1687, col: 5, offset: 54853},
+																					pos: position{line: 1687, col: 5, offset: 54900},
 																					run: (*parser).callonListContinuationElement160,
 																					expr: &seqExpr{
-																						pos: position{line: 1687, col: 5, offset: 54853},
+																						pos: position{line: 1687, col: 5, offset: 54900},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1687, col: 5, offset: 54853},
+																								pos:   position{line: 1687, col: 5, offset: 54900},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1687, col: 16, offset: 54864},
+																									pos: position{line: 1687, col: 16, offset: 54911},
 																									run: (*parser).callonListContinuationElement163,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1687, col: 16, offset: 54864},
+																										pos: position{line: 1687, col: 16, offset: 54911},
 																										expr: &litMatcher{
-																											pos:        position{line: 1687, col: 17, offset: 54865},
+																											pos:        position{line: 1687, col: 17, offset: 54912},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -30637,7 +30685,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1690, col: 5, offset: 54922},
+																								pos: position{line: 1690, col: 5, offset: 54969},
 																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
@@ -30645,30 +30693,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1682, col: 35, offset: 54732},
+																				pos: position{line: 1682, col: 35, offset: 54779},
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92809},
+																					pos: position{line: 2944, col: 8, offset: 92856},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92582},
+																							pos: position{line: 2931, col: 12, offset: 92629},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92583},
+																								pos: position{line: 2931, col: 13, offset: 92630},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92583},
+																										pos:        position{line: 2931, col: 13, offset: 92630},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92590},
+																										pos:        position{line: 2931, col: 20, offset: 92637},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92599},
+																										pos:        position{line: 2931, col: 29, offset: 92646},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30677,16 +30725,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92759},
+																							pos: position{line: 2941, col: 8, offset: 92806},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92760,
+																								line: 2941, col: 9, offset: 92807,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1682, col: 40, offset: 54737,
+																				line: 1682, col: 40, offset: 54784,
 																			},
 																		},
 																	},
@@ -30696,24 +30744,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1674, col: 5, offset: 54379},
+													pos:   position{line: 1674, col: 5, offset: 54426},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1687, col: 5, offset: 54853},
+														pos: position{line: 1687, col: 5, offset: 54900},
 														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1687, col: 5, offset: 54853},
+															pos: position{line: 1687, col: 5, offset: 54900},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1687, col: 5, offset: 54853},
+																	pos:   position{line: 1687, col: 5, offset: 54900},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1687, col: 16, offset: 54864},
+																		pos: position{line: 1687, col: 16, offset: 54911},
 																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1687, col: 16, offset: 54864},
+																			pos: position{line: 1687, col: 16, offset: 54911},
 																			expr: &litMatcher{
-																				pos:        position{line: 1687, col: 17, offset: 54865},
+																				pos:        position{line: 1687, col: 17, offset: 54912},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30722,7 +30770,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1690, col: 5, offset: 54922},
+																	pos: position{line: 1690, col: 5, offset: 54969},
 																	run: (*parser).callonListContinuationElement184,
 																},
 															},
@@ -30730,24 +30778,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1675, col: 5, offset: 54424},
+													pos:   position{line: 1675, col: 5, offset: 54471},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1698, col: 5, offset: 55171},
+														pos: position{line: 1698, col: 5, offset: 55218},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1700, col: 9, offset: 55237},
+																pos: position{line: 1700, col: 9, offset: 55284},
 																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1700, col: 9, offset: 55237},
+																	pos: position{line: 1700, col: 9, offset: 55284},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1700, col: 9, offset: 55237},
+																			pos: position{line: 1700, col: 9, offset: 55284},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92411},
+																				pos: position{line: 2922, col: 10, offset: 92458},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92411},
+																					pos:        position{line: 2922, col: 10, offset: 92458},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30756,28 +30804,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92809},
+																			pos: position{line: 2944, col: 8, offset: 92856},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92582},
+																					pos: position{line: 2931, col: 12, offset: 92629},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92583},
+																						pos: position{line: 2931, col: 13, offset: 92630},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92583},
+																								pos:        position{line: 2931, col: 13, offset: 92630},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92590},
+																								pos:        position{line: 2931, col: 20, offset: 92637},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92599},
+																								pos:        position{line: 2931, col: 29, offset: 92646},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30786,15 +30834,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1701, col: 9, offset: 55256},
+																			pos: position{line: 1701, col: 9, offset: 55303},
 																			expr: &actionExpr{
 																				pos: position{line: 690, col: 14, offset: 22173},
 																				run: (*parser).callonListContinuationElement201,
@@ -30802,18 +30850,18 @@ var g = &grammar{
 																					pos: position{line: 690, col: 14, offset: 22173},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92745},
+																							pos: position{line: 2939, col: 11, offset: 92792},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92747,
+																								line: 2939, col: 13, offset: 92794,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 690, col: 21, offset: 22180},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92411},
+																								pos: position{line: 2922, col: 10, offset: 92458},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92411},
+																									pos:        position{line: 2922, col: 10, offset: 92458},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30822,28 +30870,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30852,9 +30900,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -30867,18 +30915,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1707, col: 9, offset: 55385},
+																pos: position{line: 1707, col: 9, offset: 55432},
 																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1707, col: 9, offset: 55385},
+																	pos: position{line: 1707, col: 9, offset: 55432},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2926, col: 11, offset: 92472},
+																			pos: position{line: 2926, col: 11, offset: 92519},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2926, col: 11, offset: 92472},
+																				pos: position{line: 2926, col: 11, offset: 92519},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2926, col: 11, offset: 92472},
+																					pos:        position{line: 2926, col: 11, offset: 92519},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30887,15 +30935,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1708, col: 9, offset: 55458},
+																			pos:   position{line: 1708, col: 9, offset: 55505},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1708, col: 18, offset: 55467},
+																				pos: position{line: 1708, col: 18, offset: 55514},
 																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1708, col: 18, offset: 55467},
+																					pos: position{line: 1708, col: 18, offset: 55514},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1708, col: 18, offset: 55467},
+																						pos:        position{line: 1708, col: 18, offset: 55514},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30905,28 +30953,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92809},
+																			pos: position{line: 2944, col: 8, offset: 92856},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92582},
+																					pos: position{line: 2931, col: 12, offset: 92629},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92583},
+																						pos: position{line: 2931, col: 13, offset: 92630},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92583},
+																								pos:        position{line: 2931, col: 13, offset: 92630},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92590},
+																								pos:        position{line: 2931, col: 20, offset: 92637},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92599},
+																								pos:        position{line: 2931, col: 29, offset: 92646},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30935,9 +30983,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -30955,21 +31003,21 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1560, col: 5, offset: 50606},
+							pos:   position{line: 1560, col: 5, offset: 50653},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1560, col: 16, offset: 50617},
+								pos: position{line: 1560, col: 16, offset: 50664},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1560, col: 17, offset: 50618},
+									pos:  position{line: 1560, col: 17, offset: 50665},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1561, col: 5, offset: 50640},
+							pos:   position{line: 1561, col: 5, offset: 50687},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1562, col: 9, offset: 50658},
+								pos: position{line: 1562, col: 9, offset: 50705},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 690, col: 14, offset: 22173},
@@ -30978,18 +31026,18 @@ var g = &grammar{
 											pos: position{line: 690, col: 14, offset: 22173},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2939, col: 11, offset: 92745},
+													pos: position{line: 2939, col: 11, offset: 92792},
 													expr: &anyMatcher{
-														line: 2939, col: 13, offset: 92747,
+														line: 2939, col: 13, offset: 92794,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 690, col: 21, offset: 22180},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92411},
+														pos: position{line: 2922, col: 10, offset: 92458},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92411},
+															pos:        position{line: 2922, col: 10, offset: 92458},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30998,28 +31046,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92809},
+													pos: position{line: 2944, col: 8, offset: 92856},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92582},
+															pos: position{line: 2931, col: 12, offset: 92629},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92583},
+																pos: position{line: 2931, col: 13, offset: 92630},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92583},
+																		pos:        position{line: 2931, col: 13, offset: 92630},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92590},
+																		pos:        position{line: 2931, col: 20, offset: 92637},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92599},
+																		pos:        position{line: 2931, col: 29, offset: 92646},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31028,9 +31076,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92759},
+															pos: position{line: 2941, col: 8, offset: 92806},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92760,
+																line: 2941, col: 9, offset: 92807,
 															},
 														},
 													},
@@ -31039,7 +31087,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1563, col: 11, offset: 50678},
+										pos:  position{line: 1563, col: 11, offset: 50725},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -31095,10 +31143,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 49, offset: 11042},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92411},
+														pos: position{line: 2922, col: 10, offset: 92458},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92411},
+															pos:        position{line: 2922, col: 10, offset: 92458},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31107,28 +31155,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92809},
+													pos: position{line: 2944, col: 8, offset: 92856},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92582},
+															pos: position{line: 2931, col: 12, offset: 92629},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92583},
+																pos: position{line: 2931, col: 13, offset: 92630},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92583},
+																		pos:        position{line: 2931, col: 13, offset: 92630},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92590},
+																		pos:        position{line: 2931, col: 20, offset: 92637},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92599},
+																		pos:        position{line: 2931, col: 29, offset: 92646},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31137,9 +31185,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92759},
+															pos: position{line: 2941, col: 8, offset: 92806},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92760,
+																line: 2941, col: 9, offset: 92807,
 															},
 														},
 													},
@@ -31200,10 +31248,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 364, col: 39, offset: 11163},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92411},
+														pos: position{line: 2922, col: 10, offset: 92458},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92411},
+															pos:        position{line: 2922, col: 10, offset: 92458},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31212,28 +31260,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92809},
+													pos: position{line: 2944, col: 8, offset: 92856},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92582},
+															pos: position{line: 2931, col: 12, offset: 92629},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92583},
+																pos: position{line: 2931, col: 13, offset: 92630},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92583},
+																		pos:        position{line: 2931, col: 13, offset: 92630},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92590},
+																		pos:        position{line: 2931, col: 20, offset: 92637},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92599},
+																		pos:        position{line: 2931, col: 29, offset: 92646},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31242,9 +31290,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92759},
+															pos: position{line: 2941, col: 8, offset: 92806},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92760,
+																line: 2941, col: 9, offset: 92807,
 															},
 														},
 													},
@@ -31295,10 +31343,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 755, col: 8, offset: 24370},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92411},
+																	pos: position{line: 2922, col: 10, offset: 92458},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92411},
+																		pos:        position{line: 2922, col: 10, offset: 92458},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31307,28 +31355,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92809},
+																pos: position{line: 2944, col: 8, offset: 92856},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92582},
+																		pos: position{line: 2931, col: 12, offset: 92629},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92583},
+																			pos: position{line: 2931, col: 13, offset: 92630},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92583},
+																					pos:        position{line: 2931, col: 13, offset: 92630},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92590},
+																					pos:        position{line: 2931, col: 20, offset: 92637},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92599},
+																					pos:        position{line: 2931, col: 29, offset: 92646},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31337,9 +31385,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92759},
+																		pos: position{line: 2941, col: 8, offset: 92806},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92760,
+																			line: 2941, col: 9, offset: 92807,
 																		},
 																	},
 																},
@@ -31400,10 +31448,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 755, col: 8, offset: 24370},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92411},
+																									pos: position{line: 2922, col: 10, offset: 92458},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92411},
+																										pos:        position{line: 2922, col: 10, offset: 92458},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -31412,28 +31460,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92809},
+																								pos: position{line: 2944, col: 8, offset: 92856},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92582},
+																										pos: position{line: 2931, col: 12, offset: 92629},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92583},
+																											pos: position{line: 2931, col: 13, offset: 92630},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92583},
+																													pos:        position{line: 2931, col: 13, offset: 92630},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92590},
+																													pos:        position{line: 2931, col: 20, offset: 92637},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92599},
+																													pos:        position{line: 2931, col: 29, offset: 92646},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -31442,9 +31490,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92759},
+																										pos: position{line: 2941, col: 8, offset: 92806},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92760,
+																											line: 2941, col: 9, offset: 92807,
 																										},
 																									},
 																								},
@@ -31453,9 +31501,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -31471,21 +31519,21 @@ var g = &grammar{
 																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92745},
+																						pos: position{line: 2939, col: 11, offset: 92792},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92747,
+																							line: 2939, col: 13, offset: 92794,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90937},
+																							pos: position{line: 2868, col: 13, offset: 90984},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90937},
+																								pos: position{line: 2868, col: 13, offset: 90984},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90937},
+																									pos:        position{line: 2868, col: 13, offset: 90984},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31495,28 +31543,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92809},
+																						pos: position{line: 2944, col: 8, offset: 92856},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92582},
+																								pos: position{line: 2931, col: 12, offset: 92629},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92583},
+																									pos: position{line: 2931, col: 13, offset: 92630},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92583},
+																											pos:        position{line: 2931, col: 13, offset: 92630},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92590},
+																											pos:        position{line: 2931, col: 20, offset: 92637},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92599},
+																											pos:        position{line: 2931, col: 29, offset: 92646},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31525,9 +31573,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92759},
+																								pos: position{line: 2941, col: 8, offset: 92806},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92760,
+																									line: 2941, col: 9, offset: 92807,
 																								},
 																							},
 																						},
@@ -31583,10 +31631,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 755, col: 8, offset: 24370},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92411},
+																				pos: position{line: 2922, col: 10, offset: 92458},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92411},
+																					pos:        position{line: 2922, col: 10, offset: 92458},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31595,28 +31643,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92809},
+																			pos: position{line: 2944, col: 8, offset: 92856},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92582},
+																					pos: position{line: 2931, col: 12, offset: 92629},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92583},
+																						pos: position{line: 2931, col: 13, offset: 92630},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92583},
+																								pos:        position{line: 2931, col: 13, offset: 92630},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92590},
+																								pos:        position{line: 2931, col: 20, offset: 92637},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92599},
+																								pos:        position{line: 2931, col: 29, offset: 92646},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31625,9 +31673,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -31636,9 +31684,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92759},
+																pos: position{line: 2941, col: 8, offset: 92806},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92760,
+																	line: 2941, col: 9, offset: 92807,
 																},
 															},
 														},
@@ -31693,10 +31741,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24618},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92411},
+																		pos: position{line: 2922, col: 10, offset: 92458},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92411},
+																			pos:        position{line: 2922, col: 10, offset: 92458},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31705,28 +31753,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92809},
+																	pos: position{line: 2944, col: 8, offset: 92856},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92582},
+																			pos: position{line: 2931, col: 12, offset: 92629},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92583},
+																				pos: position{line: 2931, col: 13, offset: 92630},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92583},
+																						pos:        position{line: 2931, col: 13, offset: 92630},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92590},
+																						pos:        position{line: 2931, col: 20, offset: 92637},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92599},
+																						pos:        position{line: 2931, col: 29, offset: 92646},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31735,9 +31783,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92759},
+																			pos: position{line: 2941, col: 8, offset: 92806},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92760,
+																				line: 2941, col: 9, offset: 92807,
 																			},
 																		},
 																	},
@@ -31809,10 +31857,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24618},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92411},
+																												pos: position{line: 2922, col: 10, offset: 92458},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92411},
+																													pos:        position{line: 2922, col: 10, offset: 92458},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31821,28 +31869,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92809},
+																											pos: position{line: 2944, col: 8, offset: 92856},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92582},
+																													pos: position{line: 2931, col: 12, offset: 92629},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92583},
+																														pos: position{line: 2931, col: 13, offset: 92630},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92583},
+																																pos:        position{line: 2931, col: 13, offset: 92630},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92590},
+																																pos:        position{line: 2931, col: 20, offset: 92637},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92599},
+																																pos:        position{line: 2931, col: 29, offset: 92646},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31851,9 +31899,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92759},
+																													pos: position{line: 2941, col: 8, offset: 92806},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92760,
+																														line: 2941, col: 9, offset: 92807,
 																													},
 																												},
 																											},
@@ -31869,9 +31917,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -31887,21 +31935,21 @@ var g = &grammar{
 																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92745},
+																						pos: position{line: 2939, col: 11, offset: 92792},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92747,
+																							line: 2939, col: 13, offset: 92794,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90937},
+																							pos: position{line: 2868, col: 13, offset: 90984},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90937},
+																								pos: position{line: 2868, col: 13, offset: 90984},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90937},
+																									pos:        position{line: 2868, col: 13, offset: 90984},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31911,28 +31959,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92809},
+																						pos: position{line: 2944, col: 8, offset: 92856},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92582},
+																								pos: position{line: 2931, col: 12, offset: 92629},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92583},
+																									pos: position{line: 2931, col: 13, offset: 92630},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92583},
+																											pos:        position{line: 2931, col: 13, offset: 92630},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92590},
+																											pos:        position{line: 2931, col: 20, offset: 92637},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92599},
+																											pos:        position{line: 2931, col: 29, offset: 92646},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31941,9 +31989,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92759},
+																								pos: position{line: 2941, col: 8, offset: 92806},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92760,
+																									line: 2941, col: 9, offset: 92807,
 																								},
 																							},
 																						},
@@ -32008,10 +32056,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24618},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92411},
+																								pos: position{line: 2922, col: 10, offset: 92458},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92411},
+																									pos:        position{line: 2922, col: 10, offset: 92458},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32020,28 +32068,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32050,9 +32098,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -32068,9 +32116,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92759},
+																	pos: position{line: 2941, col: 8, offset: 92806},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92760,
+																		line: 2941, col: 9, offset: 92807,
 																	},
 																},
 															},
@@ -32122,10 +32170,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 773, col: 52, offset: 25030},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92411},
+																		pos: position{line: 2922, col: 10, offset: 92458},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92411},
+																			pos:        position{line: 2922, col: 10, offset: 92458},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32134,28 +32182,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92809},
+																	pos: position{line: 2944, col: 8, offset: 92856},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92582},
+																			pos: position{line: 2931, col: 12, offset: 92629},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92583},
+																				pos: position{line: 2931, col: 13, offset: 92630},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92583},
+																						pos:        position{line: 2931, col: 13, offset: 92630},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92590},
+																						pos:        position{line: 2931, col: 20, offset: 92637},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92599},
+																						pos:        position{line: 2931, col: 29, offset: 92646},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32164,9 +32212,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92759},
+																			pos: position{line: 2941, col: 8, offset: 92806},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92760,
+																				line: 2941, col: 9, offset: 92807,
 																			},
 																		},
 																	},
@@ -32200,10 +32248,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 976, col: 40, offset: 30833},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92411},
+																						pos: position{line: 2922, col: 10, offset: 92458},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92411},
+																							pos:        position{line: 2922, col: 10, offset: 92458},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32212,28 +32260,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92809},
+																					pos: position{line: 2944, col: 8, offset: 92856},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92582},
+																							pos: position{line: 2931, col: 12, offset: 92629},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92583},
+																								pos: position{line: 2931, col: 13, offset: 92630},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92583},
+																										pos:        position{line: 2931, col: 13, offset: 92630},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92590},
+																										pos:        position{line: 2931, col: 20, offset: 92637},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92599},
+																										pos:        position{line: 2931, col: 29, offset: 92646},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32242,9 +32290,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92759},
+																							pos: position{line: 2941, col: 8, offset: 92806},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92760,
+																								line: 2941, col: 9, offset: 92807,
 																							},
 																						},
 																					},
@@ -32262,21 +32310,21 @@ var g = &grammar{
 																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92745},
+																						pos: position{line: 2939, col: 11, offset: 92792},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92747,
+																							line: 2939, col: 13, offset: 92794,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90937},
+																							pos: position{line: 2868, col: 13, offset: 90984},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90937},
+																								pos: position{line: 2868, col: 13, offset: 90984},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90937},
+																									pos:        position{line: 2868, col: 13, offset: 90984},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32286,28 +32334,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92809},
+																						pos: position{line: 2944, col: 8, offset: 92856},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92582},
+																								pos: position{line: 2931, col: 12, offset: 92629},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92583},
+																									pos: position{line: 2931, col: 13, offset: 92630},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92583},
+																											pos:        position{line: 2931, col: 13, offset: 92630},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92590},
+																											pos:        position{line: 2931, col: 20, offset: 92637},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92599},
+																											pos:        position{line: 2931, col: 29, offset: 92646},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32316,9 +32364,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92759},
+																								pos: position{line: 2941, col: 8, offset: 92806},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92760,
+																									line: 2941, col: 9, offset: 92807,
 																								},
 																							},
 																						},
@@ -32346,10 +32394,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 976, col: 40, offset: 30833},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92411},
+																	pos: position{line: 2922, col: 10, offset: 92458},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92411},
+																		pos:        position{line: 2922, col: 10, offset: 92458},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32358,28 +32406,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92809},
+																pos: position{line: 2944, col: 8, offset: 92856},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92582},
+																		pos: position{line: 2931, col: 12, offset: 92629},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92583},
+																			pos: position{line: 2931, col: 13, offset: 92630},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92583},
+																					pos:        position{line: 2931, col: 13, offset: 92630},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92590},
+																					pos:        position{line: 2931, col: 20, offset: 92637},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92599},
+																					pos:        position{line: 2931, col: 29, offset: 92646},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32388,9 +32436,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92759},
+																		pos: position{line: 2941, col: 8, offset: 92806},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92760,
+																			line: 2941, col: 9, offset: 92807,
 																		},
 																	},
 																},
@@ -32447,10 +32495,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 769, col: 8, offset: 24864},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92411},
+																		pos: position{line: 2922, col: 10, offset: 92458},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92411},
+																			pos:        position{line: 2922, col: 10, offset: 92458},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32459,28 +32507,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92809},
+																	pos: position{line: 2944, col: 8, offset: 92856},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92582},
+																			pos: position{line: 2931, col: 12, offset: 92629},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92583},
+																				pos: position{line: 2931, col: 13, offset: 92630},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92583},
+																						pos:        position{line: 2931, col: 13, offset: 92630},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92590},
+																						pos:        position{line: 2931, col: 20, offset: 92637},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92599},
+																						pos:        position{line: 2931, col: 29, offset: 92646},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32489,9 +32537,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92759},
+																			pos: position{line: 2941, col: 8, offset: 92806},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92760,
+																				line: 2941, col: 9, offset: 92807,
 																			},
 																		},
 																	},
@@ -32563,10 +32611,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 769, col: 8, offset: 24864},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92411},
+																												pos: position{line: 2922, col: 10, offset: 92458},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92411},
+																													pos:        position{line: 2922, col: 10, offset: 92458},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32575,28 +32623,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92809},
+																											pos: position{line: 2944, col: 8, offset: 92856},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92582},
+																													pos: position{line: 2931, col: 12, offset: 92629},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92583},
+																														pos: position{line: 2931, col: 13, offset: 92630},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92583},
+																																pos:        position{line: 2931, col: 13, offset: 92630},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92590},
+																																pos:        position{line: 2931, col: 20, offset: 92637},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92599},
+																																pos:        position{line: 2931, col: 29, offset: 92646},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32605,9 +32653,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92759},
+																													pos: position{line: 2941, col: 8, offset: 92806},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92760,
+																														line: 2941, col: 9, offset: 92807,
 																													},
 																												},
 																											},
@@ -32623,9 +32671,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -32641,21 +32689,21 @@ var g = &grammar{
 																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92745},
+																						pos: position{line: 2939, col: 11, offset: 92792},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92747,
+																							line: 2939, col: 13, offset: 92794,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90937},
+																							pos: position{line: 2868, col: 13, offset: 90984},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90937},
+																								pos: position{line: 2868, col: 13, offset: 90984},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90937},
+																									pos:        position{line: 2868, col: 13, offset: 90984},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32665,28 +32713,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92809},
+																						pos: position{line: 2944, col: 8, offset: 92856},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92582},
+																								pos: position{line: 2931, col: 12, offset: 92629},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92583},
+																									pos: position{line: 2931, col: 13, offset: 92630},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92583},
+																											pos:        position{line: 2931, col: 13, offset: 92630},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92590},
+																											pos:        position{line: 2931, col: 20, offset: 92637},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92599},
+																											pos:        position{line: 2931, col: 29, offset: 92646},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32695,9 +32743,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92759},
+																								pos: position{line: 2941, col: 8, offset: 92806},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92760,
+																									line: 2941, col: 9, offset: 92807,
 																								},
 																							},
 																						},
@@ -32762,10 +32810,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 769, col: 8, offset: 24864},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92411},
+																								pos: position{line: 2922, col: 10, offset: 92458},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92411},
+																									pos:        position{line: 2922, col: 10, offset: 92458},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32774,28 +32822,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32804,9 +32852,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -32822,9 +32870,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92759},
+																	pos: position{line: 2941, col: 8, offset: 92806},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92760,
+																		line: 2941, col: 9, offset: 92807,
 																	},
 																},
 															},
@@ -32880,10 +32928,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 784, col: 8, offset: 25402},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92411},
+																		pos: position{line: 2922, col: 10, offset: 92458},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92411},
+																			pos:        position{line: 2922, col: 10, offset: 92458},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32892,28 +32940,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92809},
+																	pos: position{line: 2944, col: 8, offset: 92856},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92582},
+																			pos: position{line: 2931, col: 12, offset: 92629},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92583},
+																				pos: position{line: 2931, col: 13, offset: 92630},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92583},
+																						pos:        position{line: 2931, col: 13, offset: 92630},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92590},
+																						pos:        position{line: 2931, col: 20, offset: 92637},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92599},
+																						pos:        position{line: 2931, col: 29, offset: 92646},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32922,9 +32970,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92759},
+																			pos: position{line: 2941, col: 8, offset: 92806},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92760,
+																				line: 2941, col: 9, offset: 92807,
 																			},
 																		},
 																	},
@@ -32996,10 +33044,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 784, col: 8, offset: 25402},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92411},
+																												pos: position{line: 2922, col: 10, offset: 92458},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92411},
+																													pos:        position{line: 2922, col: 10, offset: 92458},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33008,28 +33056,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92809},
+																											pos: position{line: 2944, col: 8, offset: 92856},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92582},
+																													pos: position{line: 2931, col: 12, offset: 92629},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92583},
+																														pos: position{line: 2931, col: 13, offset: 92630},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92583},
+																																pos:        position{line: 2931, col: 13, offset: 92630},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92590},
+																																pos:        position{line: 2931, col: 20, offset: 92637},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92599},
+																																pos:        position{line: 2931, col: 29, offset: 92646},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33038,9 +33086,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92759},
+																													pos: position{line: 2941, col: 8, offset: 92806},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92760,
+																														line: 2941, col: 9, offset: 92807,
 																													},
 																												},
 																											},
@@ -33056,9 +33104,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -33074,21 +33122,21 @@ var g = &grammar{
 																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92745},
+																						pos: position{line: 2939, col: 11, offset: 92792},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92747,
+																							line: 2939, col: 13, offset: 92794,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90937},
+																							pos: position{line: 2868, col: 13, offset: 90984},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90937},
+																								pos: position{line: 2868, col: 13, offset: 90984},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90937},
+																									pos:        position{line: 2868, col: 13, offset: 90984},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33098,28 +33146,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92809},
+																						pos: position{line: 2944, col: 8, offset: 92856},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92582},
+																								pos: position{line: 2931, col: 12, offset: 92629},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92583},
+																									pos: position{line: 2931, col: 13, offset: 92630},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92583},
+																											pos:        position{line: 2931, col: 13, offset: 92630},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92590},
+																											pos:        position{line: 2931, col: 20, offset: 92637},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92599},
+																											pos:        position{line: 2931, col: 29, offset: 92646},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33128,9 +33176,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92759},
+																								pos: position{line: 2941, col: 8, offset: 92806},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92760,
+																									line: 2941, col: 9, offset: 92807,
 																								},
 																							},
 																						},
@@ -33195,10 +33243,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 784, col: 8, offset: 25402},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92411},
+																								pos: position{line: 2922, col: 10, offset: 92458},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92411},
+																									pos:        position{line: 2922, col: 10, offset: 92458},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33207,28 +33255,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33237,9 +33285,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -33255,9 +33303,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92759},
+																	pos: position{line: 2941, col: 8, offset: 92806},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92760,
+																		line: 2941, col: 9, offset: 92807,
 																	},
 																},
 															},
@@ -33313,10 +33361,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 798, col: 8, offset: 25878},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92411},
+																		pos: position{line: 2922, col: 10, offset: 92458},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92411},
+																			pos:        position{line: 2922, col: 10, offset: 92458},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33325,28 +33373,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92809},
+																	pos: position{line: 2944, col: 8, offset: 92856},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92582},
+																			pos: position{line: 2931, col: 12, offset: 92629},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92583},
+																				pos: position{line: 2931, col: 13, offset: 92630},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92583},
+																						pos:        position{line: 2931, col: 13, offset: 92630},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92590},
+																						pos:        position{line: 2931, col: 20, offset: 92637},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92599},
+																						pos:        position{line: 2931, col: 29, offset: 92646},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33355,9 +33403,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92759},
+																			pos: position{line: 2941, col: 8, offset: 92806},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92760,
+																				line: 2941, col: 9, offset: 92807,
 																			},
 																		},
 																	},
@@ -33429,10 +33477,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 798, col: 8, offset: 25878},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92411},
+																												pos: position{line: 2922, col: 10, offset: 92458},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92411},
+																													pos:        position{line: 2922, col: 10, offset: 92458},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33441,28 +33489,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92809},
+																											pos: position{line: 2944, col: 8, offset: 92856},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92582},
+																													pos: position{line: 2931, col: 12, offset: 92629},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92583},
+																														pos: position{line: 2931, col: 13, offset: 92630},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92583},
+																																pos:        position{line: 2931, col: 13, offset: 92630},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92590},
+																																pos:        position{line: 2931, col: 20, offset: 92637},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92599},
+																																pos:        position{line: 2931, col: 29, offset: 92646},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33471,9 +33519,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92759},
+																													pos: position{line: 2941, col: 8, offset: 92806},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92760,
+																														line: 2941, col: 9, offset: 92807,
 																													},
 																												},
 																											},
@@ -33489,9 +33537,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -33507,21 +33555,21 @@ var g = &grammar{
 																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92745},
+																						pos: position{line: 2939, col: 11, offset: 92792},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92747,
+																							line: 2939, col: 13, offset: 92794,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90937},
+																							pos: position{line: 2868, col: 13, offset: 90984},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90937},
+																								pos: position{line: 2868, col: 13, offset: 90984},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90937},
+																									pos:        position{line: 2868, col: 13, offset: 90984},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33531,28 +33579,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92809},
+																						pos: position{line: 2944, col: 8, offset: 92856},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92582},
+																								pos: position{line: 2931, col: 12, offset: 92629},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92583},
+																									pos: position{line: 2931, col: 13, offset: 92630},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92583},
+																											pos:        position{line: 2931, col: 13, offset: 92630},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92590},
+																											pos:        position{line: 2931, col: 20, offset: 92637},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92599},
+																											pos:        position{line: 2931, col: 29, offset: 92646},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33561,9 +33609,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92759},
+																								pos: position{line: 2941, col: 8, offset: 92806},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92760,
+																									line: 2941, col: 9, offset: 92807,
 																								},
 																							},
 																						},
@@ -33628,10 +33676,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 798, col: 8, offset: 25878},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92411},
+																								pos: position{line: 2922, col: 10, offset: 92458},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92411},
+																									pos:        position{line: 2922, col: 10, offset: 92458},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33640,28 +33688,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33670,9 +33718,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -33688,9 +33736,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92759},
+																	pos: position{line: 2941, col: 8, offset: 92806},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92760,
+																		line: 2941, col: 9, offset: 92807,
 																	},
 																},
 															},
@@ -33724,18 +33772,18 @@ var g = &grammar{
 																			pos: position{line: 690, col: 14, offset: 22173},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2939, col: 11, offset: 92745},
+																					pos: position{line: 2939, col: 11, offset: 92792},
 																					expr: &anyMatcher{
-																						line: 2939, col: 13, offset: 92747,
+																						line: 2939, col: 13, offset: 92794,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 690, col: 21, offset: 22180},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92411},
+																						pos: position{line: 2922, col: 10, offset: 92458},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92411},
+																							pos:        position{line: 2922, col: 10, offset: 92458},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33744,28 +33792,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92809},
+																					pos: position{line: 2944, col: 8, offset: 92856},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92582},
+																							pos: position{line: 2931, col: 12, offset: 92629},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92583},
+																								pos: position{line: 2931, col: 13, offset: 92630},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92583},
+																										pos:        position{line: 2931, col: 13, offset: 92630},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92590},
+																										pos:        position{line: 2931, col: 20, offset: 92637},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92599},
+																										pos:        position{line: 2931, col: 29, offset: 92646},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33774,9 +33822,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92759},
+																							pos: position{line: 2941, col: 8, offset: 92806},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92760,
+																								line: 2941, col: 9, offset: 92807,
 																							},
 																						},
 																					},
@@ -33795,12 +33843,12 @@ var g = &grammar{
 																	pos:   position{line: 997, col: 5, offset: 31368},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 14, offset: 91004},
+																		pos: position{line: 2872, col: 14, offset: 91051},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2872, col: 14, offset: 91004},
+																			pos: position{line: 2872, col: 14, offset: 91051},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 14, offset: 91004},
+																				pos:        position{line: 2872, col: 14, offset: 91051},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33810,28 +33858,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92809},
+																	pos: position{line: 2944, col: 8, offset: 92856},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92582},
+																			pos: position{line: 2931, col: 12, offset: 92629},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92583},
+																				pos: position{line: 2931, col: 13, offset: 92630},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92583},
+																						pos:        position{line: 2931, col: 13, offset: 92630},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92590},
+																						pos:        position{line: 2931, col: 20, offset: 92637},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92599},
+																						pos:        position{line: 2931, col: 29, offset: 92646},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33840,9 +33888,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92759},
+																			pos: position{line: 2941, col: 8, offset: 92806},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92760,
+																				line: 2941, col: 9, offset: 92807,
 																			},
 																		},
 																	},
@@ -33874,18 +33922,18 @@ var g = &grammar{
 																						pos: position{line: 690, col: 14, offset: 22173},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2939, col: 11, offset: 92745},
+																								pos: position{line: 2939, col: 11, offset: 92792},
 																								expr: &anyMatcher{
-																									line: 2939, col: 13, offset: 92747,
+																									line: 2939, col: 13, offset: 92794,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 690, col: 21, offset: 22180},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92411},
+																									pos: position{line: 2922, col: 10, offset: 92458},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92411},
+																										pos:        position{line: 2922, col: 10, offset: 92458},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33894,28 +33942,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92809},
+																								pos: position{line: 2944, col: 8, offset: 92856},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92582},
+																										pos: position{line: 2931, col: 12, offset: 92629},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92583},
+																											pos: position{line: 2931, col: 13, offset: 92630},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92583},
+																													pos:        position{line: 2931, col: 13, offset: 92630},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92590},
+																													pos:        position{line: 2931, col: 20, offset: 92637},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92599},
+																													pos:        position{line: 2931, col: 29, offset: 92646},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33924,9 +33972,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92759},
+																										pos: position{line: 2941, col: 8, offset: 92806},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92760,
+																											line: 2941, col: 9, offset: 92807,
 																										},
 																									},
 																								},
@@ -33945,12 +33993,12 @@ var g = &grammar{
 																				pos:   position{line: 997, col: 5, offset: 31368},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2872, col: 14, offset: 91004},
+																					pos: position{line: 2872, col: 14, offset: 91051},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2872, col: 14, offset: 91004},
+																						pos: position{line: 2872, col: 14, offset: 91051},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2872, col: 14, offset: 91004},
+																							pos:        position{line: 2872, col: 14, offset: 91051},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33960,28 +34008,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92809},
+																				pos: position{line: 2944, col: 8, offset: 92856},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92582},
+																						pos: position{line: 2931, col: 12, offset: 92629},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92583},
+																							pos: position{line: 2931, col: 13, offset: 92630},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92583},
+																									pos:        position{line: 2931, col: 13, offset: 92630},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92590},
+																									pos:        position{line: 2931, col: 20, offset: 92637},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92599},
+																									pos:        position{line: 2931, col: 29, offset: 92646},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33990,9 +34038,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92759},
+																						pos: position{line: 2941, col: 8, offset: 92806},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92760,
+																							line: 2941, col: 9, offset: 92807,
 																						},
 																					},
 																				},
@@ -34001,21 +34049,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1804, col: 5, offset: 58471},
+																	pos: position{line: 1804, col: 5, offset: 58518},
 																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 1804, col: 5, offset: 58471},
+																		pos: position{line: 1804, col: 5, offset: 58518},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1804, col: 5, offset: 58471},
+																				pos:   position{line: 1804, col: 5, offset: 58518},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2872, col: 14, offset: 91004},
+																					pos: position{line: 2872, col: 14, offset: 91051},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2872, col: 14, offset: 91004},
+																						pos: position{line: 2872, col: 14, offset: 91051},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2872, col: 14, offset: 91004},
+																							pos:        position{line: 2872, col: 14, offset: 91051},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34025,32 +34073,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1805, col: 5, offset: 58495},
+																				pos: position{line: 1805, col: 5, offset: 58542},
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92809},
+																				pos: position{line: 2944, col: 8, offset: 92856},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92582},
+																						pos: position{line: 2931, col: 12, offset: 92629},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92583},
+																							pos: position{line: 2931, col: 13, offset: 92630},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92583},
+																									pos:        position{line: 2931, col: 13, offset: 92630},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92590},
+																									pos:        position{line: 2931, col: 20, offset: 92637},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92599},
+																									pos:        position{line: 2931, col: 29, offset: 92646},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34059,9 +34107,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92759},
+																						pos: position{line: 2941, col: 8, offset: 92806},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92760,
+																							line: 2941, col: 9, offset: 92807,
 																						},
 																					},
 																				},
@@ -34108,10 +34156,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 791, col: 8, offset: 25633},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92411},
+																		pos: position{line: 2922, col: 10, offset: 92458},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92411},
+																			pos:        position{line: 2922, col: 10, offset: 92458},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34120,28 +34168,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92809},
+																	pos: position{line: 2944, col: 8, offset: 92856},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92582},
+																			pos: position{line: 2931, col: 12, offset: 92629},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92583},
+																				pos: position{line: 2931, col: 13, offset: 92630},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92583},
+																						pos:        position{line: 2931, col: 13, offset: 92630},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92590},
+																						pos:        position{line: 2931, col: 20, offset: 92637},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92599},
+																						pos:        position{line: 2931, col: 29, offset: 92646},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34150,9 +34198,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92759},
+																			pos: position{line: 2941, col: 8, offset: 92806},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92760,
+																				line: 2941, col: 9, offset: 92807,
 																			},
 																		},
 																	},
@@ -34200,10 +34248,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25633},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92411},
+																									pos: position{line: 2922, col: 10, offset: 92458},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92411},
+																										pos:        position{line: 2922, col: 10, offset: 92458},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34212,28 +34260,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92809},
+																								pos: position{line: 2944, col: 8, offset: 92856},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92582},
+																										pos: position{line: 2931, col: 12, offset: 92629},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92583},
+																											pos: position{line: 2931, col: 13, offset: 92630},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92583},
+																													pos:        position{line: 2931, col: 13, offset: 92630},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92590},
+																													pos:        position{line: 2931, col: 20, offset: 92637},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92599},
+																													pos:        position{line: 2931, col: 29, offset: 92646},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34242,9 +34290,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92759},
+																										pos: position{line: 2941, col: 8, offset: 92806},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92760,
+																											line: 2941, col: 9, offset: 92807,
 																										},
 																									},
 																								},
@@ -34253,9 +34301,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -34271,21 +34319,21 @@ var g = &grammar{
 																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92745},
+																						pos: position{line: 2939, col: 11, offset: 92792},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92747,
+																							line: 2939, col: 13, offset: 92794,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90937},
+																							pos: position{line: 2868, col: 13, offset: 90984},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90937},
+																								pos: position{line: 2868, col: 13, offset: 90984},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90937},
+																									pos:        position{line: 2868, col: 13, offset: 90984},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34295,28 +34343,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92809},
+																						pos: position{line: 2944, col: 8, offset: 92856},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92582},
+																								pos: position{line: 2931, col: 12, offset: 92629},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92583},
+																									pos: position{line: 2931, col: 13, offset: 92630},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92583},
+																											pos:        position{line: 2931, col: 13, offset: 92630},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92590},
+																											pos:        position{line: 2931, col: 20, offset: 92637},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92599},
+																											pos:        position{line: 2931, col: 29, offset: 92646},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34325,9 +34373,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92759},
+																								pos: position{line: 2941, col: 8, offset: 92806},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92760,
+																									line: 2941, col: 9, offset: 92807,
 																								},
 																							},
 																						},
@@ -34372,10 +34420,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 791, col: 8, offset: 25633},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92411},
+																					pos: position{line: 2922, col: 10, offset: 92458},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92411},
+																						pos:        position{line: 2922, col: 10, offset: 92458},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34384,28 +34432,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92809},
+																				pos: position{line: 2944, col: 8, offset: 92856},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92582},
+																						pos: position{line: 2931, col: 12, offset: 92629},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92583},
+																							pos: position{line: 2931, col: 13, offset: 92630},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92583},
+																									pos:        position{line: 2931, col: 13, offset: 92630},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92590},
+																									pos:        position{line: 2931, col: 20, offset: 92637},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92599},
+																									pos:        position{line: 2931, col: 29, offset: 92646},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34414,9 +34462,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92759},
+																						pos: position{line: 2941, col: 8, offset: 92806},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92760,
+																							line: 2941, col: 9, offset: 92807,
 																						},
 																					},
 																				},
@@ -34425,9 +34473,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92759},
+																	pos: position{line: 2941, col: 8, offset: 92806},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92760,
+																		line: 2941, col: 9, offset: 92807,
 																	},
 																},
 															},
@@ -34483,10 +34531,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 805, col: 8, offset: 26130},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92411},
+																		pos: position{line: 2922, col: 10, offset: 92458},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92411},
+																			pos:        position{line: 2922, col: 10, offset: 92458},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34495,28 +34543,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92809},
+																	pos: position{line: 2944, col: 8, offset: 92856},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92582},
+																			pos: position{line: 2931, col: 12, offset: 92629},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92583},
+																				pos: position{line: 2931, col: 13, offset: 92630},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92583},
+																						pos:        position{line: 2931, col: 13, offset: 92630},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92590},
+																						pos:        position{line: 2931, col: 20, offset: 92637},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92599},
+																						pos:        position{line: 2931, col: 29, offset: 92646},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34525,9 +34573,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92759},
+																			pos: position{line: 2941, col: 8, offset: 92806},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92760,
+																				line: 2941, col: 9, offset: 92807,
 																			},
 																		},
 																	},
@@ -34599,10 +34647,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 805, col: 8, offset: 26130},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92411},
+																												pos: position{line: 2922, col: 10, offset: 92458},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92411},
+																													pos:        position{line: 2922, col: 10, offset: 92458},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34611,28 +34659,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92809},
+																											pos: position{line: 2944, col: 8, offset: 92856},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92582},
+																													pos: position{line: 2931, col: 12, offset: 92629},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92583},
+																														pos: position{line: 2931, col: 13, offset: 92630},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92583},
+																																pos:        position{line: 2931, col: 13, offset: 92630},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92590},
+																																pos:        position{line: 2931, col: 20, offset: 92637},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92599},
+																																pos:        position{line: 2931, col: 29, offset: 92646},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34641,9 +34689,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92759},
+																													pos: position{line: 2941, col: 8, offset: 92806},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92760,
+																														line: 2941, col: 9, offset: 92807,
 																													},
 																												},
 																											},
@@ -34659,9 +34707,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -34677,21 +34725,21 @@ var g = &grammar{
 																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92745},
+																						pos: position{line: 2939, col: 11, offset: 92792},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92747,
+																							line: 2939, col: 13, offset: 92794,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90937},
+																							pos: position{line: 2868, col: 13, offset: 90984},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90937},
+																								pos: position{line: 2868, col: 13, offset: 90984},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90937},
+																									pos:        position{line: 2868, col: 13, offset: 90984},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34701,28 +34749,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92809},
+																						pos: position{line: 2944, col: 8, offset: 92856},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92582},
+																								pos: position{line: 2931, col: 12, offset: 92629},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92583},
+																									pos: position{line: 2931, col: 13, offset: 92630},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92583},
+																											pos:        position{line: 2931, col: 13, offset: 92630},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92590},
+																											pos:        position{line: 2931, col: 20, offset: 92637},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92599},
+																											pos:        position{line: 2931, col: 29, offset: 92646},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34731,9 +34779,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92759},
+																								pos: position{line: 2941, col: 8, offset: 92806},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92760,
+																									line: 2941, col: 9, offset: 92807,
 																								},
 																							},
 																						},
@@ -34798,10 +34846,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 805, col: 8, offset: 26130},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92411},
+																								pos: position{line: 2922, col: 10, offset: 92458},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92411},
+																									pos:        position{line: 2922, col: 10, offset: 92458},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34810,28 +34858,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34840,9 +34888,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -34858,9 +34906,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92759},
+																	pos: position{line: 2941, col: 8, offset: 92806},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92760,
+																		line: 2941, col: 9, offset: 92807,
 																	},
 																},
 															},
@@ -34916,10 +34964,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 812, col: 8, offset: 26380},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92411},
+																		pos: position{line: 2922, col: 10, offset: 92458},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92411},
+																			pos:        position{line: 2922, col: 10, offset: 92458},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34928,28 +34976,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92809},
+																	pos: position{line: 2944, col: 8, offset: 92856},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92582},
+																			pos: position{line: 2931, col: 12, offset: 92629},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92583},
+																				pos: position{line: 2931, col: 13, offset: 92630},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92583},
+																						pos:        position{line: 2931, col: 13, offset: 92630},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92590},
+																						pos:        position{line: 2931, col: 20, offset: 92637},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92599},
+																						pos:        position{line: 2931, col: 29, offset: 92646},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34958,9 +35006,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92759},
+																			pos: position{line: 2941, col: 8, offset: 92806},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92760,
+																				line: 2941, col: 9, offset: 92807,
 																			},
 																		},
 																	},
@@ -35032,10 +35080,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 812, col: 8, offset: 26380},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92411},
+																												pos: position{line: 2922, col: 10, offset: 92458},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92411},
+																													pos:        position{line: 2922, col: 10, offset: 92458},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35044,28 +35092,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92809},
+																											pos: position{line: 2944, col: 8, offset: 92856},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92582},
+																													pos: position{line: 2931, col: 12, offset: 92629},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92583},
+																														pos: position{line: 2931, col: 13, offset: 92630},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92583},
+																																pos:        position{line: 2931, col: 13, offset: 92630},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92590},
+																																pos:        position{line: 2931, col: 20, offset: 92637},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92599},
+																																pos:        position{line: 2931, col: 29, offset: 92646},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35074,9 +35122,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92759},
+																													pos: position{line: 2941, col: 8, offset: 92806},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92760,
+																														line: 2941, col: 9, offset: 92807,
 																													},
 																												},
 																											},
@@ -35092,9 +35140,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -35110,21 +35158,21 @@ var g = &grammar{
 																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92745},
+																						pos: position{line: 2939, col: 11, offset: 92792},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92747,
+																							line: 2939, col: 13, offset: 92794,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90937},
+																							pos: position{line: 2868, col: 13, offset: 90984},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90937},
+																								pos: position{line: 2868, col: 13, offset: 90984},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90937},
+																									pos:        position{line: 2868, col: 13, offset: 90984},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35134,28 +35182,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92809},
+																						pos: position{line: 2944, col: 8, offset: 92856},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92582},
+																								pos: position{line: 2931, col: 12, offset: 92629},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92583},
+																									pos: position{line: 2931, col: 13, offset: 92630},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92583},
+																											pos:        position{line: 2931, col: 13, offset: 92630},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92590},
+																											pos:        position{line: 2931, col: 20, offset: 92637},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92599},
+																											pos:        position{line: 2931, col: 29, offset: 92646},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35164,9 +35212,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92759},
+																								pos: position{line: 2941, col: 8, offset: 92806},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92760,
+																									line: 2941, col: 9, offset: 92807,
 																								},
 																							},
 																						},
@@ -35231,10 +35279,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 812, col: 8, offset: 26380},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92411},
+																								pos: position{line: 2922, col: 10, offset: 92458},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92411},
+																									pos:        position{line: 2922, col: 10, offset: 92458},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35243,28 +35291,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35273,9 +35321,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -35291,9 +35339,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92759},
+																	pos: position{line: 2941, col: 8, offset: 92806},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92760,
+																		line: 2941, col: 9, offset: 92807,
 																	},
 																},
 															},
@@ -35349,10 +35397,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 819, col: 8, offset: 26626},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92411},
+																		pos: position{line: 2922, col: 10, offset: 92458},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92411},
+																			pos:        position{line: 2922, col: 10, offset: 92458},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35361,28 +35409,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92809},
+																	pos: position{line: 2944, col: 8, offset: 92856},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92582},
+																			pos: position{line: 2931, col: 12, offset: 92629},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92583},
+																				pos: position{line: 2931, col: 13, offset: 92630},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92583},
+																						pos:        position{line: 2931, col: 13, offset: 92630},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92590},
+																						pos:        position{line: 2931, col: 20, offset: 92637},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92599},
+																						pos:        position{line: 2931, col: 29, offset: 92646},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35391,9 +35439,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92759},
+																			pos: position{line: 2941, col: 8, offset: 92806},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92760,
+																				line: 2941, col: 9, offset: 92807,
 																			},
 																		},
 																	},
@@ -35465,10 +35513,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 819, col: 8, offset: 26626},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92411},
+																												pos: position{line: 2922, col: 10, offset: 92458},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92411},
+																													pos:        position{line: 2922, col: 10, offset: 92458},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35477,28 +35525,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92809},
+																											pos: position{line: 2944, col: 8, offset: 92856},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92582},
+																													pos: position{line: 2931, col: 12, offset: 92629},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92583},
+																														pos: position{line: 2931, col: 13, offset: 92630},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92583},
+																																pos:        position{line: 2931, col: 13, offset: 92630},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92590},
+																																pos:        position{line: 2931, col: 20, offset: 92637},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92599},
+																																pos:        position{line: 2931, col: 29, offset: 92646},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35507,9 +35555,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92759},
+																													pos: position{line: 2941, col: 8, offset: 92806},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92760,
+																														line: 2941, col: 9, offset: 92807,
 																													},
 																												},
 																											},
@@ -35525,9 +35573,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -35543,21 +35591,21 @@ var g = &grammar{
 																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92745},
+																						pos: position{line: 2939, col: 11, offset: 92792},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92747,
+																							line: 2939, col: 13, offset: 92794,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90937},
+																							pos: position{line: 2868, col: 13, offset: 90984},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90937},
+																								pos: position{line: 2868, col: 13, offset: 90984},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90937},
+																									pos:        position{line: 2868, col: 13, offset: 90984},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35567,28 +35615,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92809},
+																						pos: position{line: 2944, col: 8, offset: 92856},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92582},
+																								pos: position{line: 2931, col: 12, offset: 92629},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92583},
+																									pos: position{line: 2931, col: 13, offset: 92630},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92583},
+																											pos:        position{line: 2931, col: 13, offset: 92630},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92590},
+																											pos:        position{line: 2931, col: 20, offset: 92637},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92599},
+																											pos:        position{line: 2931, col: 29, offset: 92646},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35597,9 +35645,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92759},
+																								pos: position{line: 2941, col: 8, offset: 92806},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92760,
+																									line: 2941, col: 9, offset: 92807,
 																								},
 																							},
 																						},
@@ -35664,10 +35712,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 819, col: 8, offset: 26626},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92411},
+																								pos: position{line: 2922, col: 10, offset: 92458},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92411},
+																									pos:        position{line: 2922, col: 10, offset: 92458},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35676,28 +35724,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92809},
+																							pos: position{line: 2944, col: 8, offset: 92856},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92582},
+																									pos: position{line: 2931, col: 12, offset: 92629},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92583},
+																										pos: position{line: 2931, col: 13, offset: 92630},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92583},
+																												pos:        position{line: 2931, col: 13, offset: 92630},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92590},
+																												pos:        position{line: 2931, col: 20, offset: 92637},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92599},
+																												pos:        position{line: 2931, col: 29, offset: 92646},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35706,9 +35754,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92759},
+																									pos: position{line: 2941, col: 8, offset: 92806},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92760,
+																										line: 2941, col: 9, offset: 92807,
 																									},
 																								},
 																							},
@@ -35724,9 +35772,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92759},
+																	pos: position{line: 2941, col: 8, offset: 92806},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92760,
+																		line: 2941, col: 9, offset: 92807,
 																	},
 																},
 															},
@@ -35737,52 +35785,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2767, col: 18, offset: 88001},
+										pos: position{line: 2767, col: 18, offset: 88048},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2767, col: 18, offset: 88001},
+											pos: position{line: 2767, col: 18, offset: 88048},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2768, col: 9, offset: 88011},
+													pos: position{line: 2768, col: 9, offset: 88058},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2768, col: 9, offset: 88011},
+															pos:        position{line: 2768, col: 9, offset: 88058},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2769, col: 11, offset: 88047},
+															pos:        position{line: 2769, col: 11, offset: 88094},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2769, col: 19, offset: 88055},
+															pos:        position{line: 2769, col: 19, offset: 88102},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2769, col: 29, offset: 88065},
+															pos:        position{line: 2769, col: 29, offset: 88112},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2769, col: 37, offset: 88073},
+															pos:        position{line: 2769, col: 37, offset: 88120},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2769, col: 47, offset: 88083},
+															pos:        position{line: 2769, col: 47, offset: 88130},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2769, col: 55, offset: 88091},
+															pos:        position{line: 2769, col: 55, offset: 88138},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35790,12 +35838,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2770, col: 11, offset: 88149},
+													pos: position{line: 2770, col: 11, offset: 88196},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92411},
+														pos: position{line: 2922, col: 10, offset: 92458},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92411},
+															pos:        position{line: 2922, col: 10, offset: 92458},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35804,28 +35852,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92809},
+													pos: position{line: 2944, col: 8, offset: 92856},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92582},
+															pos: position{line: 2931, col: 12, offset: 92629},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92583},
+																pos: position{line: 2931, col: 13, offset: 92630},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92583},
+																		pos:        position{line: 2931, col: 13, offset: 92630},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92590},
+																		pos:        position{line: 2931, col: 20, offset: 92637},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92599},
+																		pos:        position{line: 2931, col: 29, offset: 92646},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35834,36 +35882,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92759},
+															pos: position{line: 2941, col: 8, offset: 92806},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92760,
+																line: 2941, col: 9, offset: 92807,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92809},
+													pos: position{line: 2944, col: 8, offset: 92856},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92582},
+															pos: position{line: 2931, col: 12, offset: 92629},
 															run: (*parser).callonListContinuationElement1319,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92583},
+																pos: position{line: 2931, col: 13, offset: 92630},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92583},
+																		pos:        position{line: 2931, col: 13, offset: 92630},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92590},
+																		pos:        position{line: 2931, col: 20, offset: 92637},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92599},
+																		pos:        position{line: 2931, col: 29, offset: 92646},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35872,9 +35920,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92759},
+															pos: position{line: 2941, col: 8, offset: 92806},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92760,
+																line: 2941, col: 9, offset: 92807,
 															},
 														},
 													},
@@ -35883,28 +35931,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1567, col: 11, offset: 50820},
+										pos:  position{line: 1567, col: 11, offset: 50867},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2651, col: 5, offset: 84758},
+										pos: position{line: 2651, col: 5, offset: 84805},
 										run: (*parser).callonListContinuationElement1327,
 										expr: &seqExpr{
-											pos: position{line: 2651, col: 5, offset: 84758},
+											pos: position{line: 2651, col: 5, offset: 84805},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2657, col: 19, offset: 84935},
+													pos:        position{line: 2657, col: 19, offset: 84982},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2657, col: 26, offset: 84942},
+													pos: position{line: 2657, col: 26, offset: 84989},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92411},
+														pos: position{line: 2922, col: 10, offset: 92458},
 														run: (*parser).callonListContinuationElement1331,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92411},
+															pos:        position{line: 2922, col: 10, offset: 92458},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35913,28 +35961,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92809},
+													pos: position{line: 2944, col: 8, offset: 92856},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92582},
+															pos: position{line: 2931, col: 12, offset: 92629},
 															run: (*parser).callonListContinuationElement1334,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92583},
+																pos: position{line: 2931, col: 13, offset: 92630},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92583},
+																		pos:        position{line: 2931, col: 13, offset: 92630},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92590},
+																		pos:        position{line: 2931, col: 20, offset: 92637},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92599},
+																		pos:        position{line: 2931, col: 29, offset: 92646},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35943,20 +35991,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92759},
+															pos: position{line: 2941, col: 8, offset: 92806},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92760,
+																line: 2941, col: 9, offset: 92807,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2652, col: 5, offset: 84782},
+													pos:   position{line: 2652, col: 5, offset: 84829},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2652, col: 11, offset: 84788},
+														pos: position{line: 2652, col: 11, offset: 84835},
 														expr: &choiceExpr{
-															pos: position{line: 2652, col: 12, offset: 84789},
+															pos: position{line: 2652, col: 12, offset: 84836},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 690, col: 14, offset: 22173},
@@ -35965,18 +36013,18 @@ var g = &grammar{
 																		pos: position{line: 690, col: 14, offset: 22173},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2939, col: 11, offset: 92745},
+																				pos: position{line: 2939, col: 11, offset: 92792},
 																				expr: &anyMatcher{
-																					line: 2939, col: 13, offset: 92747,
+																					line: 2939, col: 13, offset: 92794,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 690, col: 21, offset: 22180},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92411},
+																					pos: position{line: 2922, col: 10, offset: 92458},
 																					run: (*parser).callonListContinuationElement1349,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92411},
+																						pos:        position{line: 2922, col: 10, offset: 92458},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35985,28 +36033,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92809},
+																				pos: position{line: 2944, col: 8, offset: 92856},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92582},
+																						pos: position{line: 2931, col: 12, offset: 92629},
 																						run: (*parser).callonListContinuationElement1352,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92583},
+																							pos: position{line: 2931, col: 13, offset: 92630},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92583},
+																									pos:        position{line: 2931, col: 13, offset: 92630},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92590},
+																									pos:        position{line: 2931, col: 20, offset: 92637},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92599},
+																									pos:        position{line: 2931, col: 29, offset: 92646},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36015,9 +36063,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92759},
+																						pos: position{line: 2941, col: 8, offset: 92806},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92760,
+																							line: 2941, col: 9, offset: 92807,
 																						},
 																					},
 																				},
@@ -36026,36 +36074,36 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2525, col: 22, offset: 81189},
+																	pos: position{line: 2525, col: 22, offset: 81236},
 																	run: (*parser).callonListContinuationElement1359,
 																	expr: &seqExpr{
-																		pos: position{line: 2525, col: 22, offset: 81189},
+																		pos: position{line: 2525, col: 22, offset: 81236},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2530, col: 31, offset: 81439},
+																				pos:        position{line: 2530, col: 31, offset: 81486},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2530, col: 36, offset: 81444},
+																				pos: position{line: 2530, col: 36, offset: 81491},
 																				expr: &litMatcher{
-																					pos:        position{line: 2530, col: 37, offset: 81445},
+																					pos:        position{line: 2530, col: 37, offset: 81492},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2525, col: 49, offset: 81216},
+																				pos:   position{line: 2525, col: 49, offset: 81263},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2868, col: 13, offset: 90937},
+																					pos: position{line: 2868, col: 13, offset: 90984},
 																					run: (*parser).callonListContinuationElement1365,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2868, col: 13, offset: 90937},
+																						pos: position{line: 2868, col: 13, offset: 90984},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2868, col: 13, offset: 90937},
+																							pos:        position{line: 2868, col: 13, offset: 90984},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -36065,28 +36113,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92809},
+																				pos: position{line: 2944, col: 8, offset: 92856},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92582},
+																						pos: position{line: 2931, col: 12, offset: 92629},
 																						run: (*parser).callonListContinuationElement1369,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92583},
+																							pos: position{line: 2931, col: 13, offset: 92630},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92583},
+																									pos:        position{line: 2931, col: 13, offset: 92630},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92590},
+																									pos:        position{line: 2931, col: 20, offset: 92637},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92599},
+																									pos:        position{line: 2931, col: 29, offset: 92646},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36095,9 +36143,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92759},
+																						pos: position{line: 2941, col: 8, offset: 92806},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92760,
+																							line: 2941, col: 9, offset: 92807,
 																						},
 																					},
 																				},
@@ -36106,32 +36154,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2664, col: 5, offset: 85054},
+																	pos: position{line: 2664, col: 5, offset: 85101},
 																	run: (*parser).callonListContinuationElement1376,
 																	expr: &seqExpr{
-																		pos: position{line: 2664, col: 5, offset: 85054},
+																		pos: position{line: 2664, col: 5, offset: 85101},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2664, col: 5, offset: 85054},
+																				pos: position{line: 2664, col: 5, offset: 85101},
 																				expr: &choiceExpr{
-																					pos: position{line: 2661, col: 22, offset: 85015},
+																					pos: position{line: 2661, col: 22, offset: 85062},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2657, col: 19, offset: 84935},
+																							pos: position{line: 2657, col: 19, offset: 84982},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2657, col: 19, offset: 84935},
+																									pos:        position{line: 2657, col: 19, offset: 84982},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2657, col: 26, offset: 84942},
+																									pos: position{line: 2657, col: 26, offset: 84989},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92411},
+																										pos: position{line: 2922, col: 10, offset: 92458},
 																										run: (*parser).callonListContinuationElement1383,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92411},
+																											pos:        position{line: 2922, col: 10, offset: 92458},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36140,28 +36188,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92809},
+																									pos: position{line: 2944, col: 8, offset: 92856},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92582},
+																											pos: position{line: 2931, col: 12, offset: 92629},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92583},
+																												pos: position{line: 2931, col: 13, offset: 92630},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92583},
+																														pos:        position{line: 2931, col: 13, offset: 92630},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92590},
+																														pos:        position{line: 2931, col: 20, offset: 92637},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92599},
+																														pos:        position{line: 2931, col: 29, offset: 92646},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36170,9 +36218,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92759},
+																											pos: position{line: 2941, col: 8, offset: 92806},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92760,
+																												line: 2941, col: 9, offset: 92807,
 																											},
 																										},
 																									},
@@ -36180,59 +36228,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92759},
+																							pos: position{line: 2941, col: 8, offset: 92806},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92760,
+																								line: 2941, col: 9, offset: 92807,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2665, col: 5, offset: 85077},
+																				pos:   position{line: 2665, col: 5, offset: 85124},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2666, col: 9, offset: 85095},
+																					pos: position{line: 2666, col: 9, offset: 85142},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2666, col: 10, offset: 85096},
+																							pos: position{line: 2666, col: 10, offset: 85143},
 																							run: (*parser).callonListContinuationElement1397,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2666, col: 10, offset: 85096},
+																								pos:   position{line: 2666, col: 10, offset: 85143},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2666, col: 17, offset: 85103},
+																									pos: position{line: 2666, col: 17, offset: 85150},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2674, col: 21, offset: 85299},
+																											pos: position{line: 2674, col: 21, offset: 85346},
 																											run: (*parser).callonListContinuationElement1400,
 																											expr: &seqExpr{
-																												pos: position{line: 2674, col: 21, offset: 85299},
+																												pos: position{line: 2674, col: 21, offset: 85346},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2674, col: 21, offset: 85299},
+																														pos:   position{line: 2674, col: 21, offset: 85346},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2674, col: 27, offset: 85305},
+																															pos: position{line: 2674, col: 27, offset: 85352},
 																															expr: &actionExpr{
-																																pos: position{line: 2679, col: 5, offset: 85380},
+																																pos: position{line: 2679, col: 5, offset: 85427},
 																																run: (*parser).callonListContinuationElement1404,
 																																expr: &seqExpr{
-																																	pos: position{line: 2679, col: 5, offset: 85380},
+																																	pos: position{line: 2679, col: 5, offset: 85427},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2679, col: 5, offset: 85380},
+																																			pos:        position{line: 2679, col: 5, offset: 85427},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2679, col: 9, offset: 85384},
+																																			pos: position{line: 2679, col: 9, offset: 85431},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2922, col: 10, offset: 92411},
+																																				pos: position{line: 2922, col: 10, offset: 92458},
 																																				run: (*parser).callonListContinuationElement1408,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2922, col: 10, offset: 92411},
+																																					pos:        position{line: 2922, col: 10, offset: 92458},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36241,21 +36289,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2679, col: 16, offset: 85391},
+																																			pos:   position{line: 2679, col: 16, offset: 85438},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2685, col: 5, offset: 85591},
+																																				pos: position{line: 2685, col: 5, offset: 85638},
 																																				run: (*parser).callonListContinuationElement1411,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2685, col: 5, offset: 85591},
+																																					pos:   position{line: 2685, col: 5, offset: 85638},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2685, col: 14, offset: 85600},
+																																						pos: position{line: 2685, col: 14, offset: 85647},
 																																						run: (*parser).callonListContinuationElement1413,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2685, col: 14, offset: 85600},
+																																							pos: position{line: 2685, col: 14, offset: 85647},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2685, col: 14, offset: 85600},
+																																								pos:        position{line: 2685, col: 14, offset: 85647},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36272,28 +36320,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2944, col: 8, offset: 92809},
+																														pos: position{line: 2944, col: 8, offset: 92856},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2931, col: 12, offset: 92582},
+																																pos: position{line: 2931, col: 12, offset: 92629},
 																																run: (*parser).callonListContinuationElement1417,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2931, col: 13, offset: 92583},
+																																	pos: position{line: 2931, col: 13, offset: 92630},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2931, col: 13, offset: 92583},
+																																			pos:        position{line: 2931, col: 13, offset: 92630},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2931, col: 20, offset: 92590},
+																																			pos:        position{line: 2931, col: 20, offset: 92637},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2931, col: 29, offset: 92599},
+																																			pos:        position{line: 2931, col: 29, offset: 92646},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36302,9 +36350,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2941, col: 8, offset: 92759},
+																																pos: position{line: 2941, col: 8, offset: 92806},
 																																expr: &anyMatcher{
-																																	line: 2941, col: 9, offset: 92760,
+																																	line: 2941, col: 9, offset: 92807,
 																																},
 																															},
 																														},
@@ -36313,40 +36361,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2691, col: 24, offset: 85736},
+																											pos: position{line: 2691, col: 24, offset: 85783},
 																											run: (*parser).callonListContinuationElement1424,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2691, col: 24, offset: 85736},
+																												pos:   position{line: 2691, col: 24, offset: 85783},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2691, col: 30, offset: 85742},
+																													pos: position{line: 2691, col: 30, offset: 85789},
 																													expr: &actionExpr{
-																														pos: position{line: 2696, col: 5, offset: 85818},
+																														pos: position{line: 2696, col: 5, offset: 85865},
 																														run: (*parser).callonListContinuationElement1427,
 																														expr: &seqExpr{
-																															pos: position{line: 2696, col: 5, offset: 85818},
+																															pos: position{line: 2696, col: 5, offset: 85865},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2696, col: 5, offset: 85818},
+																																	pos: position{line: 2696, col: 5, offset: 85865},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2661, col: 22, offset: 85015},
+																																		pos: position{line: 2661, col: 22, offset: 85062},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2657, col: 19, offset: 84935},
+																																				pos: position{line: 2657, col: 19, offset: 84982},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2657, col: 19, offset: 84935},
+																																						pos:        position{line: 2657, col: 19, offset: 84982},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2657, col: 26, offset: 84942},
+																																						pos: position{line: 2657, col: 26, offset: 84989},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2922, col: 10, offset: 92411},
+																																							pos: position{line: 2922, col: 10, offset: 92458},
 																																							run: (*parser).callonListContinuationElement1434,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2922, col: 10, offset: 92411},
+																																								pos:        position{line: 2922, col: 10, offset: 92458},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36355,28 +36403,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2944, col: 8, offset: 92809},
+																																						pos: position{line: 2944, col: 8, offset: 92856},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2931, col: 12, offset: 92582},
+																																								pos: position{line: 2931, col: 12, offset: 92629},
 																																								run: (*parser).callonListContinuationElement1437,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2931, col: 13, offset: 92583},
+																																									pos: position{line: 2931, col: 13, offset: 92630},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2931, col: 13, offset: 92583},
+																																											pos:        position{line: 2931, col: 13, offset: 92630},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2931, col: 20, offset: 92590},
+																																											pos:        position{line: 2931, col: 20, offset: 92637},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2931, col: 29, offset: 92599},
+																																											pos:        position{line: 2931, col: 29, offset: 92646},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36385,9 +36433,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2941, col: 8, offset: 92759},
+																																								pos: position{line: 2941, col: 8, offset: 92806},
 																																								expr: &anyMatcher{
-																																									line: 2941, col: 9, offset: 92760,
+																																									line: 2941, col: 9, offset: 92807,
 																																								},
 																																							},
 																																						},
@@ -36395,16 +36443,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2941, col: 8, offset: 92759},
+																																				pos: position{line: 2941, col: 8, offset: 92806},
 																																				expr: &anyMatcher{
-																																					line: 2941, col: 9, offset: 92760,
+																																					line: 2941, col: 9, offset: 92807,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2697, col: 5, offset: 85841},
+																																	pos: position{line: 2697, col: 5, offset: 85888},
 																																	expr: &actionExpr{
 																																		pos: position{line: 690, col: 14, offset: 22173},
 																																		run: (*parser).callonListContinuationElement1447,
@@ -36412,18 +36460,18 @@ var g = &grammar{
 																																			pos: position{line: 690, col: 14, offset: 22173},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2939, col: 11, offset: 92745},
+																																					pos: position{line: 2939, col: 11, offset: 92792},
 																																					expr: &anyMatcher{
-																																						line: 2939, col: 13, offset: 92747,
+																																						line: 2939, col: 13, offset: 92794,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 690, col: 21, offset: 22180},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2922, col: 10, offset: 92411},
+																																						pos: position{line: 2922, col: 10, offset: 92458},
 																																						run: (*parser).callonListContinuationElement1452,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2922, col: 10, offset: 92411},
+																																							pos:        position{line: 2922, col: 10, offset: 92458},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36432,28 +36480,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2944, col: 8, offset: 92809},
+																																					pos: position{line: 2944, col: 8, offset: 92856},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2931, col: 12, offset: 92582},
+																																							pos: position{line: 2931, col: 12, offset: 92629},
 																																							run: (*parser).callonListContinuationElement1455,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2931, col: 13, offset: 92583},
+																																								pos: position{line: 2931, col: 13, offset: 92630},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2931, col: 13, offset: 92583},
+																																										pos:        position{line: 2931, col: 13, offset: 92630},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2931, col: 20, offset: 92590},
+																																										pos:        position{line: 2931, col: 20, offset: 92637},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2931, col: 29, offset: 92599},
+																																										pos:        position{line: 2931, col: 29, offset: 92646},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36462,9 +36510,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2941, col: 8, offset: 92759},
+																																							pos: position{line: 2941, col: 8, offset: 92806},
 																																							expr: &anyMatcher{
-																																								line: 2941, col: 9, offset: 92760,
+																																								line: 2941, col: 9, offset: 92807,
 																																							},
 																																						},
 																																					},
@@ -36474,17 +36522,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2698, col: 5, offset: 85856},
+																																	pos:   position{line: 2698, col: 5, offset: 85903},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2698, col: 12, offset: 85863},
+																																		pos: position{line: 2698, col: 12, offset: 85910},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2722, col: 20, offset: 86486},
+																																			pos: position{line: 2722, col: 20, offset: 86533},
 																																			run: (*parser).callonListContinuationElement1464,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2722, col: 20, offset: 86486},
+																																				pos: position{line: 2722, col: 20, offset: 86533},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2722, col: 20, offset: 86486},
+																																					pos:        position{line: 2722, col: 20, offset: 86533},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36495,18 +36543,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2698, col: 31, offset: 85882},
+																																	pos:        position{line: 2698, col: 31, offset: 85929},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2698, col: 35, offset: 85886},
+																																	pos: position{line: 2698, col: 35, offset: 85933},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2922, col: 10, offset: 92411},
+																																		pos: position{line: 2922, col: 10, offset: 92458},
 																																		run: (*parser).callonListContinuationElement1469,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2922, col: 10, offset: 92411},
+																																			pos:        position{line: 2922, col: 10, offset: 92458},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36515,27 +36563,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2698, col: 42, offset: 85893},
+																																	pos: position{line: 2698, col: 42, offset: 85940},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2931, col: 12, offset: 92582},
+																																		pos: position{line: 2931, col: 12, offset: 92629},
 																																		run: (*parser).callonListContinuationElement1472,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2931, col: 13, offset: 92583},
+																																			pos: position{line: 2931, col: 13, offset: 92630},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2931, col: 13, offset: 92583},
+																																					pos:        position{line: 2931, col: 13, offset: 92630},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2931, col: 20, offset: 92590},
+																																					pos:        position{line: 2931, col: 20, offset: 92637},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2931, col: 29, offset: 92599},
+																																					pos:        position{line: 2931, col: 29, offset: 92646},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36545,57 +36593,57 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2698, col: 51, offset: 85902},
+																																	pos:   position{line: 2698, col: 51, offset: 85949},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2704, col: 5, offset: 86061},
+																																		pos: position{line: 2704, col: 5, offset: 86108},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2705, col: 9, offset: 86071},
+																																			pos: position{line: 2705, col: 9, offset: 86118},
 																																			alternatives: []interface{}{
 																																				&actionExpr{
-																																					pos: position{line: 2705, col: 9, offset: 86071},
+																																					pos: position{line: 2705, col: 9, offset: 86118},
 																																					run: (*parser).callonListContinuationElement1480,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2705, col: 9, offset: 86071},
+																																						pos: position{line: 2705, col: 9, offset: 86118},
 																																						exprs: []interface{}{
 																																							&andCodeExpr{
-																																								pos: position{line: 2705, col: 9, offset: 86071},
+																																								pos: position{line: 2705, col: 9, offset: 86118},
 																																								run: (*parser).callonListContinuationElement1482,
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2708, col: 9, offset: 86140},
+																																								pos:   position{line: 2708, col: 9, offset: 86187},
 																																								label: "comment",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2525, col: 22, offset: 81189},
+																																									pos: position{line: 2525, col: 22, offset: 81236},
 																																									run: (*parser).callonListContinuationElement1484,
 																																									expr: &seqExpr{
-																																										pos: position{line: 2525, col: 22, offset: 81189},
+																																										pos: position{line: 2525, col: 22, offset: 81236},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2530, col: 31, offset: 81439},
+																																												pos:        position{line: 2530, col: 31, offset: 81486},
 																																												val:        "//",
 																																												ignoreCase: false,
 																																												want:       "\"//\"",
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2530, col: 36, offset: 81444},
+																																												pos: position{line: 2530, col: 36, offset: 81491},
 																																												expr: &litMatcher{
-																																													pos:        position{line: 2530, col: 37, offset: 81445},
+																																													pos:        position{line: 2530, col: 37, offset: 81492},
 																																													val:        "/",
 																																													ignoreCase: false,
 																																													want:       "\"/\"",
 																																												},
 																																											},
 																																											&labeledExpr{
-																																												pos:   position{line: 2525, col: 49, offset: 81216},
+																																												pos:   position{line: 2525, col: 49, offset: 81263},
 																																												label: "content",
 																																												expr: &actionExpr{
-																																													pos: position{line: 2868, col: 13, offset: 90937},
+																																													pos: position{line: 2868, col: 13, offset: 90984},
 																																													run: (*parser).callonListContinuationElement1490,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2868, col: 13, offset: 90937},
+																																														pos: position{line: 2868, col: 13, offset: 90984},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2868, col: 13, offset: 90937},
+																																															pos:        position{line: 2868, col: 13, offset: 90984},
 																																															val:        "[^\\r\\n]",
 																																															chars:      []rune{'\r', '\n'},
 																																															ignoreCase: false,
@@ -36605,28 +36653,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2944, col: 8, offset: 92809},
+																																												pos: position{line: 2944, col: 8, offset: 92856},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2931, col: 12, offset: 92582},
+																																														pos: position{line: 2931, col: 12, offset: 92629},
 																																														run: (*parser).callonListContinuationElement1494,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2931, col: 13, offset: 92583},
+																																															pos: position{line: 2931, col: 13, offset: 92630},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2931, col: 13, offset: 92583},
+																																																	pos:        position{line: 2931, col: 13, offset: 92630},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2931, col: 20, offset: 92590},
+																																																	pos:        position{line: 2931, col: 20, offset: 92637},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2931, col: 29, offset: 92599},
+																																																	pos:        position{line: 2931, col: 29, offset: 92646},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -36635,9 +36683,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2941, col: 8, offset: 92759},
+																																														pos: position{line: 2941, col: 8, offset: 92806},
 																																														expr: &anyMatcher{
-																																															line: 2941, col: 9, offset: 92760,
+																																															line: 2941, col: 9, offset: 92807,
 																																														},
 																																													},
 																																												},
@@ -36650,32 +36698,32 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&actionExpr{
-																																					pos: position{line: 2712, col: 9, offset: 86230},
+																																					pos: position{line: 2712, col: 9, offset: 86277},
 																																					run: (*parser).callonListContinuationElement1501,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2712, col: 9, offset: 86230},
+																																						pos: position{line: 2712, col: 9, offset: 86277},
 																																						exprs: []interface{}{
 																																							&notExpr{
-																																								pos: position{line: 2712, col: 9, offset: 86230},
+																																								pos: position{line: 2712, col: 9, offset: 86277},
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2661, col: 22, offset: 85015},
+																																									pos: position{line: 2661, col: 22, offset: 85062},
 																																									alternatives: []interface{}{
 																																										&seqExpr{
-																																											pos: position{line: 2657, col: 19, offset: 84935},
+																																											pos: position{line: 2657, col: 19, offset: 84982},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2657, col: 19, offset: 84935},
+																																													pos:        position{line: 2657, col: 19, offset: 84982},
 																																													val:        "|===",
 																																													ignoreCase: false,
 																																													want:       "\"|===\"",
 																																												},
 																																												&zeroOrMoreExpr{
-																																													pos: position{line: 2657, col: 26, offset: 84942},
+																																													pos: position{line: 2657, col: 26, offset: 84989},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2922, col: 10, offset: 92411},
+																																														pos: position{line: 2922, col: 10, offset: 92458},
 																																														run: (*parser).callonListContinuationElement1508,
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2922, col: 10, offset: 92411},
+																																															pos:        position{line: 2922, col: 10, offset: 92458},
 																																															val:        "[\\t ]",
 																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
@@ -36684,28 +36732,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2944, col: 8, offset: 92809},
+																																													pos: position{line: 2944, col: 8, offset: 92856},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2931, col: 12, offset: 92582},
+																																															pos: position{line: 2931, col: 12, offset: 92629},
 																																															run: (*parser).callonListContinuationElement1511,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2931, col: 13, offset: 92583},
+																																																pos: position{line: 2931, col: 13, offset: 92630},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 13, offset: 92583},
+																																																		pos:        position{line: 2931, col: 13, offset: 92630},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 20, offset: 92590},
+																																																		pos:        position{line: 2931, col: 20, offset: 92637},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 29, offset: 92599},
+																																																		pos:        position{line: 2931, col: 29, offset: 92646},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -36714,9 +36762,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2941, col: 8, offset: 92759},
+																																															pos: position{line: 2941, col: 8, offset: 92806},
 																																															expr: &anyMatcher{
-																																																line: 2941, col: 9, offset: 92760,
+																																																line: 2941, col: 9, offset: 92807,
 																																															},
 																																														},
 																																													},
@@ -36724,16 +36772,16 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2941, col: 8, offset: 92759},
+																																											pos: position{line: 2941, col: 8, offset: 92806},
 																																											expr: &anyMatcher{
-																																												line: 2941, col: 9, offset: 92760,
+																																												line: 2941, col: 9, offset: 92807,
 																																											},
 																																										},
 																																									},
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2713, col: 9, offset: 86257},
+																																								pos: position{line: 2713, col: 9, offset: 86304},
 																																								expr: &actionExpr{
 																																									pos: position{line: 690, col: 14, offset: 22173},
 																																									run: (*parser).callonListContinuationElement1521,
@@ -36741,18 +36789,18 @@ var g = &grammar{
 																																										pos: position{line: 690, col: 14, offset: 22173},
 																																										exprs: []interface{}{
 																																											&andExpr{
-																																												pos: position{line: 2939, col: 11, offset: 92745},
+																																												pos: position{line: 2939, col: 11, offset: 92792},
 																																												expr: &anyMatcher{
-																																													line: 2939, col: 13, offset: 92747,
+																																													line: 2939, col: 13, offset: 92794,
 																																												},
 																																											},
 																																											&zeroOrMoreExpr{
 																																												pos: position{line: 690, col: 21, offset: 22180},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2922, col: 10, offset: 92411},
+																																													pos: position{line: 2922, col: 10, offset: 92458},
 																																													run: (*parser).callonListContinuationElement1526,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2922, col: 10, offset: 92411},
+																																														pos:        position{line: 2922, col: 10, offset: 92458},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -36761,28 +36809,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2944, col: 8, offset: 92809},
+																																												pos: position{line: 2944, col: 8, offset: 92856},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2931, col: 12, offset: 92582},
+																																														pos: position{line: 2931, col: 12, offset: 92629},
 																																														run: (*parser).callonListContinuationElement1529,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2931, col: 13, offset: 92583},
+																																															pos: position{line: 2931, col: 13, offset: 92630},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2931, col: 13, offset: 92583},
+																																																	pos:        position{line: 2931, col: 13, offset: 92630},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2931, col: 20, offset: 92590},
+																																																	pos:        position{line: 2931, col: 20, offset: 92637},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2931, col: 29, offset: 92599},
+																																																	pos:        position{line: 2931, col: 29, offset: 92646},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -36791,9 +36839,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2941, col: 8, offset: 92759},
+																																														pos: position{line: 2941, col: 8, offset: 92806},
 																																														expr: &anyMatcher{
-																																															line: 2941, col: 9, offset: 92760,
+																																															line: 2941, col: 9, offset: 92807,
 																																														},
 																																													},
 																																												},
@@ -36803,22 +36851,22 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2714, col: 9, offset: 86276},
+																																								pos: position{line: 2714, col: 9, offset: 86323},
 																																								expr: &seqExpr{
-																																									pos: position{line: 2714, col: 11, offset: 86278},
+																																									pos: position{line: 2714, col: 11, offset: 86325},
 																																									exprs: []interface{}{
 																																										&labeledExpr{
-																																											pos:   position{line: 2714, col: 11, offset: 86278},
+																																											pos:   position{line: 2714, col: 11, offset: 86325},
 																																											label: "format",
 																																											expr: &zeroOrOneExpr{
-																																												pos: position{line: 2714, col: 18, offset: 86285},
+																																												pos: position{line: 2714, col: 18, offset: 86332},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2722, col: 20, offset: 86486},
+																																													pos: position{line: 2722, col: 20, offset: 86533},
 																																													run: (*parser).callonListContinuationElement1540,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2722, col: 20, offset: 86486},
+																																														pos: position{line: 2722, col: 20, offset: 86533},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2722, col: 20, offset: 86486},
+																																															pos:        position{line: 2722, col: 20, offset: 86533},
 																																															val:        "[^ |\\r\\n]",
 																																															chars:      []rune{' ', '|', '\r', '\n'},
 																																															ignoreCase: false,
@@ -36829,7 +36877,7 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2714, col: 37, offset: 86304},
+																																											pos:        position{line: 2714, col: 37, offset: 86351},
 																																											val:        "|",
 																																											ignoreCase: false,
 																																											want:       "\"|\"",
@@ -36838,15 +36886,15 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2715, col: 9, offset: 86317},
+																																								pos:   position{line: 2715, col: 9, offset: 86364},
 																																								label: "content",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2715, col: 18, offset: 86326},
+																																									pos: position{line: 2715, col: 18, offset: 86373},
 																																									run: (*parser).callonListContinuationElement1545,
 																																									expr: &zeroOrMoreExpr{
-																																										pos: position{line: 2715, col: 18, offset: 86326},
+																																										pos: position{line: 2715, col: 18, offset: 86373},
 																																										expr: &charClassMatcher{
-																																											pos:        position{line: 2715, col: 18, offset: 86326},
+																																											pos:        position{line: 2715, col: 18, offset: 86373},
 																																											val:        "[^|\\r\\n]",
 																																											chars:      []rune{'|', '\r', '\n'},
 																																											ignoreCase: false,
@@ -36856,30 +36904,30 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&zeroOrOneExpr{
-																																								pos: position{line: 2717, col: 12, offset: 86388},
+																																								pos: position{line: 2717, col: 12, offset: 86435},
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2944, col: 8, offset: 92809},
+																																									pos: position{line: 2944, col: 8, offset: 92856},
 																																									alternatives: []interface{}{
 																																										&actionExpr{
-																																											pos: position{line: 2931, col: 12, offset: 92582},
+																																											pos: position{line: 2931, col: 12, offset: 92629},
 																																											run: (*parser).callonListContinuationElement1550,
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2931, col: 13, offset: 92583},
+																																												pos: position{line: 2931, col: 13, offset: 92630},
 																																												alternatives: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2931, col: 13, offset: 92583},
+																																														pos:        position{line: 2931, col: 13, offset: 92630},
 																																														val:        "\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2931, col: 20, offset: 92590},
+																																														pos:        position{line: 2931, col: 20, offset: 92637},
 																																														val:        "\r\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2931, col: 29, offset: 92599},
+																																														pos:        position{line: 2931, col: 29, offset: 92646},
 																																														val:        "\r",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\"",
@@ -36888,9 +36936,9 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2941, col: 8, offset: 92759},
+																																											pos: position{line: 2941, col: 8, offset: 92806},
 																																											expr: &anyMatcher{
-																																												line: 2941, col: 9, offset: 92760,
+																																												line: 2941, col: 9, offset: 92807,
 																																											},
 																																										},
 																																									},
@@ -36920,18 +36968,18 @@ var g = &grammar{
 																								pos: position{line: 690, col: 14, offset: 22173},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2939, col: 11, offset: 92745},
+																										pos: position{line: 2939, col: 11, offset: 92792},
 																										expr: &anyMatcher{
-																											line: 2939, col: 13, offset: 92747,
+																											line: 2939, col: 13, offset: 92794,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 690, col: 21, offset: 22180},
 																										expr: &actionExpr{
-																											pos: position{line: 2922, col: 10, offset: 92411},
+																											pos: position{line: 2922, col: 10, offset: 92458},
 																											run: (*parser).callonListContinuationElement1562,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2922, col: 10, offset: 92411},
+																												pos:        position{line: 2922, col: 10, offset: 92458},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36940,28 +36988,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2944, col: 8, offset: 92809},
+																										pos: position{line: 2944, col: 8, offset: 92856},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2931, col: 12, offset: 92582},
+																												pos: position{line: 2931, col: 12, offset: 92629},
 																												run: (*parser).callonListContinuationElement1565,
 																												expr: &choiceExpr{
-																													pos: position{line: 2931, col: 13, offset: 92583},
+																													pos: position{line: 2931, col: 13, offset: 92630},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2931, col: 13, offset: 92583},
+																															pos:        position{line: 2931, col: 13, offset: 92630},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2931, col: 20, offset: 92590},
+																															pos:        position{line: 2931, col: 20, offset: 92637},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2931, col: 29, offset: 92599},
+																															pos:        position{line: 2931, col: 29, offset: 92646},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36970,9 +37018,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2941, col: 8, offset: 92759},
+																												pos: position{line: 2941, col: 8, offset: 92806},
 																												expr: &anyMatcher{
-																													line: 2941, col: 9, offset: 92760,
+																													line: 2941, col: 9, offset: 92807,
 																												},
 																											},
 																										},
@@ -36991,24 +37039,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2661, col: 22, offset: 85015},
+													pos: position{line: 2661, col: 22, offset: 85062},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2657, col: 19, offset: 84935},
+															pos: position{line: 2657, col: 19, offset: 84982},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2657, col: 19, offset: 84935},
+																	pos:        position{line: 2657, col: 19, offset: 84982},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2657, col: 26, offset: 84942},
+																	pos: position{line: 2657, col: 26, offset: 84989},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92411},
+																		pos: position{line: 2922, col: 10, offset: 92458},
 																		run: (*parser).callonListContinuationElement1576,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92411},
+																			pos:        position{line: 2922, col: 10, offset: 92458},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37017,28 +37065,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92809},
+																	pos: position{line: 2944, col: 8, offset: 92856},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92582},
+																			pos: position{line: 2931, col: 12, offset: 92629},
 																			run: (*parser).callonListContinuationElement1579,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92583},
+																				pos: position{line: 2931, col: 13, offset: 92630},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92583},
+																						pos:        position{line: 2931, col: 13, offset: 92630},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92590},
+																						pos:        position{line: 2931, col: 20, offset: 92637},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92599},
+																						pos:        position{line: 2931, col: 29, offset: 92646},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37047,9 +37095,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92759},
+																			pos: position{line: 2941, col: 8, offset: 92806},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92760,
+																				line: 2941, col: 9, offset: 92807,
 																			},
 																		},
 																	},
@@ -37057,9 +37105,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92759},
+															pos: position{line: 2941, col: 8, offset: 92806},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92760,
+																line: 2941, col: 9, offset: 92807,
 															},
 														},
 													},
@@ -37068,36 +37116,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2525, col: 22, offset: 81189},
+										pos: position{line: 2525, col: 22, offset: 81236},
 										run: (*parser).callonListContinuationElement1588,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 22, offset: 81189},
+											pos: position{line: 2525, col: 22, offset: 81236},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2530, col: 31, offset: 81439},
+													pos:        position{line: 2530, col: 31, offset: 81486},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2530, col: 36, offset: 81444},
+													pos: position{line: 2530, col: 36, offset: 81491},
 													expr: &litMatcher{
-														pos:        position{line: 2530, col: 37, offset: 81445},
+														pos:        position{line: 2530, col: 37, offset: 81492},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2525, col: 49, offset: 81216},
+													pos:   position{line: 2525, col: 49, offset: 81263},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 13, offset: 90937},
+														pos: position{line: 2868, col: 13, offset: 90984},
 														run: (*parser).callonListContinuationElement1594,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2868, col: 13, offset: 90937},
+															pos: position{line: 2868, col: 13, offset: 90984},
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 13, offset: 90937},
+																pos:        position{line: 2868, col: 13, offset: 90984},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37107,28 +37155,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92809},
+													pos: position{line: 2944, col: 8, offset: 92856},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92582},
+															pos: position{line: 2931, col: 12, offset: 92629},
 															run: (*parser).callonListContinuationElement1598,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92583},
+																pos: position{line: 2931, col: 13, offset: 92630},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92583},
+																		pos:        position{line: 2931, col: 13, offset: 92630},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92590},
+																		pos:        position{line: 2931, col: 20, offset: 92637},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92599},
+																		pos:        position{line: 2931, col: 29, offset: 92646},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37137,9 +37185,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92759},
+															pos: position{line: 2941, col: 8, offset: 92806},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92760,
+																line: 2941, col: 9, offset: 92807,
 															},
 														},
 													},
@@ -37148,94 +37196,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1580, col: 5, offset: 51250},
+										pos: position{line: 1580, col: 5, offset: 51297},
 										run: (*parser).callonListContinuationElement1605,
 										expr: &seqExpr{
-											pos: position{line: 1580, col: 5, offset: 51250},
+											pos: position{line: 1580, col: 5, offset: 51297},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1580, col: 5, offset: 51250},
+													pos:   position{line: 1580, col: 5, offset: 51297},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1580, col: 11, offset: 51256},
+														pos: position{line: 1580, col: 11, offset: 51303},
 														expr: &actionExpr{
-															pos: position{line: 1745, col: 5, offset: 56605},
+															pos: position{line: 1745, col: 5, offset: 56652},
 															run: (*parser).callonListContinuationElement1609,
 															expr: &seqExpr{
-																pos: position{line: 1745, col: 5, offset: 56605},
+																pos: position{line: 1745, col: 5, offset: 56652},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1745, col: 5, offset: 56605},
+																		pos: position{line: 1745, col: 5, offset: 56652},
 																		run: (*parser).callonListContinuationElement1611,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1748, col: 5, offset: 56668},
+																		pos:   position{line: 1748, col: 5, offset: 56715},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1748, col: 12, offset: 56675},
+																			pos: position{line: 1748, col: 12, offset: 56722},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1748, col: 12, offset: 56675},
+																					pos: position{line: 1748, col: 12, offset: 56722},
 																					run: (*parser).callonListContinuationElement1614,
 																					expr: &litMatcher{
-																						pos:        position{line: 1748, col: 12, offset: 56675},
+																						pos:        position{line: 1748, col: 12, offset: 56722},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1750, col: 13, offset: 56731},
+																					pos: position{line: 1750, col: 13, offset: 56778},
 																					run: (*parser).callonListContinuationElement1616,
 																					expr: &litMatcher{
-																						pos:        position{line: 1750, col: 13, offset: 56731},
+																						pos:        position{line: 1750, col: 13, offset: 56778},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1752, col: 13, offset: 56789},
+																					pos: position{line: 1752, col: 13, offset: 56836},
 																					run: (*parser).callonListContinuationElement1618,
 																					expr: &litMatcher{
-																						pos:        position{line: 1752, col: 13, offset: 56789},
+																						pos:        position{line: 1752, col: 13, offset: 56836},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1754, col: 13, offset: 56857},
+																					pos: position{line: 1754, col: 13, offset: 56904},
 																					run: (*parser).callonListContinuationElement1620,
 																					expr: &litMatcher{
-																						pos:        position{line: 1754, col: 13, offset: 56857},
+																						pos:        position{line: 1754, col: 13, offset: 56904},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1756, col: 13, offset: 56921},
+																					pos: position{line: 1756, col: 13, offset: 56968},
 																					run: (*parser).callonListContinuationElement1622,
 																					expr: &litMatcher{
-																						pos:        position{line: 1756, col: 13, offset: 56921},
+																						pos:        position{line: 1756, col: 13, offset: 56968},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1758, col: 13, offset: 56985},
+																					pos: position{line: 1758, col: 13, offset: 57032},
 																					run: (*parser).callonListContinuationElement1624,
 																					expr: &andExpr{
-																						pos: position{line: 1758, col: 13, offset: 56985},
+																						pos: position{line: 1758, col: 13, offset: 57032},
 																						expr: &actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92472},
+																							pos: position{line: 2926, col: 11, offset: 92519},
 																							run: (*parser).callonListContinuationElement1626,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92472},
+																								pos: position{line: 2926, col: 11, offset: 92519},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92472},
+																									pos:        position{line: 2926, col: 11, offset: 92519},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37254,16 +37302,16 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1581, col: 5, offset: 51279},
+													pos:   position{line: 1581, col: 5, offset: 51326},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1523, col: 5, offset: 49595},
+														pos: position{line: 1523, col: 5, offset: 49642},
 														run: (*parser).callonListContinuationElement1630,
 														expr: &seqExpr{
-															pos: position{line: 1523, col: 5, offset: 49595},
+															pos: position{line: 1523, col: 5, offset: 49642},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1523, col: 5, offset: 49595},
+																	pos: position{line: 1523, col: 5, offset: 49642},
 																	expr: &actionExpr{
 																		pos: position{line: 690, col: 14, offset: 22173},
 																		run: (*parser).callonListContinuationElement1633,
@@ -37271,18 +37319,18 @@ var g = &grammar{
 																			pos: position{line: 690, col: 14, offset: 22173},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2939, col: 11, offset: 92745},
+																					pos: position{line: 2939, col: 11, offset: 92792},
 																					expr: &anyMatcher{
-																						line: 2939, col: 13, offset: 92747,
+																						line: 2939, col: 13, offset: 92794,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 690, col: 21, offset: 22180},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92411},
+																						pos: position{line: 2922, col: 10, offset: 92458},
 																						run: (*parser).callonListContinuationElement1638,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92411},
+																							pos:        position{line: 2922, col: 10, offset: 92458},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37291,28 +37339,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92809},
+																					pos: position{line: 2944, col: 8, offset: 92856},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92582},
+																							pos: position{line: 2931, col: 12, offset: 92629},
 																							run: (*parser).callonListContinuationElement1641,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92583},
+																								pos: position{line: 2931, col: 13, offset: 92630},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92583},
+																										pos:        position{line: 2931, col: 13, offset: 92630},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92590},
+																										pos:        position{line: 2931, col: 20, offset: 92637},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92599},
+																										pos:        position{line: 2931, col: 29, offset: 92646},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37321,9 +37369,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92759},
+																							pos: position{line: 2941, col: 8, offset: 92806},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92760,
+																								line: 2941, col: 9, offset: 92807,
 																							},
 																						},
 																					},
@@ -37333,23 +37381,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1524, col: 5, offset: 49610},
+																	pos: position{line: 1524, col: 5, offset: 49657},
 																	expr: &seqExpr{
-																		pos: position{line: 1555, col: 27, offset: 50470},
+																		pos: position{line: 1555, col: 27, offset: 50517},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1555, col: 27, offset: 50470},
+																				pos:        position{line: 1555, col: 27, offset: 50517},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1555, col: 31, offset: 50474},
+																				pos: position{line: 1555, col: 31, offset: 50521},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92411},
+																					pos: position{line: 2922, col: 10, offset: 92458},
 																					run: (*parser).callonListContinuationElement1652,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92411},
+																						pos:        position{line: 2922, col: 10, offset: 92458},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37358,25 +37406,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
+																				pos: position{line: 2931, col: 12, offset: 92629},
 																				run: (*parser).callonListContinuationElement1654,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37388,20 +37436,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1525, col: 5, offset: 49638},
+																	pos: position{line: 1525, col: 5, offset: 49685},
 																	expr: &actionExpr{
-																		pos: position{line: 1596, col: 5, offset: 51689},
+																		pos: position{line: 1596, col: 5, offset: 51736},
 																		run: (*parser).callonListContinuationElement1660,
 																		expr: &seqExpr{
-																			pos: position{line: 1596, col: 5, offset: 51689},
+																			pos: position{line: 1596, col: 5, offset: 51736},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1596, col: 5, offset: 51689},
+																					pos: position{line: 1596, col: 5, offset: 51736},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92411},
+																						pos: position{line: 2922, col: 10, offset: 92458},
 																						run: (*parser).callonListContinuationElement1663,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92411},
+																							pos:        position{line: 2922, col: 10, offset: 92458},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37410,27 +37458,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1596, col: 12, offset: 51696},
+																					pos:   position{line: 1596, col: 12, offset: 51743},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1598, col: 9, offset: 51759},
+																						pos: position{line: 1598, col: 9, offset: 51806},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1598, col: 9, offset: 51759},
+																								pos: position{line: 1598, col: 9, offset: 51806},
 																								run: (*parser).callonListContinuationElement1667,
 																								expr: &seqExpr{
-																									pos: position{line: 1598, col: 9, offset: 51759},
+																									pos: position{line: 1598, col: 9, offset: 51806},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1598, col: 9, offset: 51759},
+																											pos:   position{line: 1598, col: 9, offset: 51806},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1598, col: 16, offset: 51766},
+																												pos: position{line: 1598, col: 16, offset: 51813},
 																												run: (*parser).callonListContinuationElement1670,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1598, col: 16, offset: 51766},
+																													pos: position{line: 1598, col: 16, offset: 51813},
 																													expr: &litMatcher{
-																														pos:        position{line: 1598, col: 17, offset: 51767},
+																														pos:        position{line: 1598, col: 17, offset: 51814},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -37439,22 +37487,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1602, col: 9, offset: 51867},
+																											pos: position{line: 1602, col: 9, offset: 51914},
 																											run: (*parser).callonListContinuationElement1673,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1621, col: 11, offset: 52584},
+																								pos: position{line: 1621, col: 11, offset: 52631},
 																								run: (*parser).callonListContinuationElement1674,
 																								expr: &seqExpr{
-																									pos: position{line: 1621, col: 11, offset: 52584},
+																									pos: position{line: 1621, col: 11, offset: 52631},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1621, col: 11, offset: 52584},
+																											pos: position{line: 1621, col: 11, offset: 52631},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1621, col: 12, offset: 52585},
+																												pos:        position{line: 1621, col: 12, offset: 52632},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -37462,7 +37510,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1621, col: 20, offset: 52593},
+																											pos:        position{line: 1621, col: 20, offset: 52640},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37471,20 +37519,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1623, col: 13, offset: 52710},
+																								pos: position{line: 1623, col: 13, offset: 52757},
 																								run: (*parser).callonListContinuationElement1679,
 																								expr: &seqExpr{
-																									pos: position{line: 1623, col: 13, offset: 52710},
+																									pos: position{line: 1623, col: 13, offset: 52757},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1623, col: 14, offset: 52711},
+																											pos:        position{line: 1623, col: 14, offset: 52758},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1623, col: 21, offset: 52718},
+																											pos:        position{line: 1623, col: 21, offset: 52765},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37493,20 +37541,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1625, col: 13, offset: 52838},
+																								pos: position{line: 1625, col: 13, offset: 52885},
 																								run: (*parser).callonListContinuationElement1683,
 																								expr: &seqExpr{
-																									pos: position{line: 1625, col: 13, offset: 52838},
+																									pos: position{line: 1625, col: 13, offset: 52885},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1625, col: 14, offset: 52839},
+																											pos:        position{line: 1625, col: 14, offset: 52886},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1625, col: 21, offset: 52846},
+																											pos:        position{line: 1625, col: 21, offset: 52893},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37515,15 +37563,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1627, col: 13, offset: 52966},
+																								pos: position{line: 1627, col: 13, offset: 53013},
 																								run: (*parser).callonListContinuationElement1687,
 																								expr: &seqExpr{
-																									pos: position{line: 1627, col: 13, offset: 52966},
+																									pos: position{line: 1627, col: 13, offset: 53013},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1627, col: 13, offset: 52966},
+																											pos: position{line: 1627, col: 13, offset: 53013},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1627, col: 14, offset: 52967},
+																												pos:        position{line: 1627, col: 14, offset: 53014},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -37531,7 +37579,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1627, col: 26, offset: 52979},
+																											pos:        position{line: 1627, col: 26, offset: 53026},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37540,15 +37588,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1629, col: 13, offset: 53099},
+																								pos: position{line: 1629, col: 13, offset: 53146},
 																								run: (*parser).callonListContinuationElement1692,
 																								expr: &seqExpr{
-																									pos: position{line: 1629, col: 13, offset: 53099},
+																									pos: position{line: 1629, col: 13, offset: 53146},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1629, col: 13, offset: 53099},
+																											pos: position{line: 1629, col: 13, offset: 53146},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1629, col: 14, offset: 53100},
+																												pos:        position{line: 1629, col: 14, offset: 53147},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -37556,7 +37604,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1629, col: 26, offset: 53112},
+																											pos:        position{line: 1629, col: 26, offset: 53159},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37568,12 +37616,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2926, col: 11, offset: 92472},
+																					pos: position{line: 2926, col: 11, offset: 92519},
 																					run: (*parser).callonListContinuationElement1697,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2926, col: 11, offset: 92472},
+																						pos: position{line: 2926, col: 11, offset: 92519},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2926, col: 11, offset: 92472},
+																							pos:        position{line: 2926, col: 11, offset: 92519},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37586,20 +37634,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1526, col: 5, offset: 49668},
+																	pos: position{line: 1526, col: 5, offset: 49715},
 																	expr: &actionExpr{
-																		pos: position{line: 1646, col: 5, offset: 53651},
+																		pos: position{line: 1646, col: 5, offset: 53698},
 																		run: (*parser).callonListContinuationElement1701,
 																		expr: &seqExpr{
-																			pos: position{line: 1646, col: 5, offset: 53651},
+																			pos: position{line: 1646, col: 5, offset: 53698},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1646, col: 5, offset: 53651},
+																					pos: position{line: 1646, col: 5, offset: 53698},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92411},
+																						pos: position{line: 2922, col: 10, offset: 92458},
 																						run: (*parser).callonListContinuationElement1704,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92411},
+																							pos:        position{line: 2922, col: 10, offset: 92458},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37608,24 +37656,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1647, col: 5, offset: 53663},
+																					pos:   position{line: 1647, col: 5, offset: 53710},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1648, col: 9, offset: 53679},
+																						pos: position{line: 1648, col: 9, offset: 53726},
 																						run: (*parser).callonListContinuationElement1707,
 																						expr: &choiceExpr{
-																							pos: position{line: 1648, col: 10, offset: 53680},
+																							pos: position{line: 1648, col: 10, offset: 53727},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1648, col: 11, offset: 53681},
+																									pos:        position{line: 1648, col: 11, offset: 53728},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1648, col: 18, offset: 53688},
+																									pos: position{line: 1648, col: 18, offset: 53735},
 																									expr: &litMatcher{
-																										pos:        position{line: 1648, col: 19, offset: 53689},
+																										pos:        position{line: 1648, col: 19, offset: 53736},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -37636,16 +37684,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1651, col: 7, offset: 53779},
+																					pos: position{line: 1651, col: 7, offset: 53826},
 																					run: (*parser).callonListContinuationElement1712,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2926, col: 11, offset: 92472},
+																					pos: position{line: 2926, col: 11, offset: 92519},
 																					run: (*parser).callonListContinuationElement1713,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2926, col: 11, offset: 92472},
+																						pos: position{line: 2926, col: 11, offset: 92519},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2926, col: 11, offset: 92472},
+																							pos:        position{line: 2926, col: 11, offset: 92519},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37658,29 +37706,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1527, col: 5, offset: 49700},
+																	pos: position{line: 1527, col: 5, offset: 49747},
 																	expr: &actionExpr{
-																		pos: position{line: 1736, col: 5, offset: 56220},
+																		pos: position{line: 1736, col: 5, offset: 56267},
 																		run: (*parser).callonListContinuationElement1717,
 																		expr: &seqExpr{
-																			pos: position{line: 1736, col: 5, offset: 56220},
+																			pos: position{line: 1736, col: 5, offset: 56267},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1736, col: 5, offset: 56220},
+																					pos:        position{line: 1736, col: 5, offset: 56267},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1736, col: 9, offset: 56224},
+																					pos:   position{line: 1736, col: 9, offset: 56271},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1736, col: 14, offset: 56229},
+																						pos: position{line: 1736, col: 14, offset: 56276},
 																						run: (*parser).callonListContinuationElement1721,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1736, col: 14, offset: 56229},
+																							pos: position{line: 1736, col: 14, offset: 56276},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1736, col: 14, offset: 56229},
+																								pos:        position{line: 1736, col: 14, offset: 56276},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37690,18 +37738,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1736, col: 62, offset: 56277},
+																					pos:        position{line: 1736, col: 62, offset: 56324},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2926, col: 11, offset: 92472},
+																					pos: position{line: 2926, col: 11, offset: 92519},
 																					run: (*parser).callonListContinuationElement1725,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2926, col: 11, offset: 92472},
+																						pos: position{line: 2926, col: 11, offset: 92519},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2926, col: 11, offset: 92472},
+																							pos:        position{line: 2926, col: 11, offset: 92519},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37714,31 +37762,31 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1528, col: 5, offset: 49730},
+																	pos: position{line: 1528, col: 5, offset: 49777},
 																	expr: &seqExpr{
-																		pos: position{line: 1528, col: 7, offset: 49732},
+																		pos: position{line: 1528, col: 7, offset: 49779},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1681, col: 5, offset: 54670},
+																				pos: position{line: 1681, col: 5, offset: 54717},
 																				run: (*parser).callonListContinuationElement1730,
 																				expr: &seqExpr{
-																					pos: position{line: 1681, col: 5, offset: 54670},
+																					pos: position{line: 1681, col: 5, offset: 54717},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1681, col: 5, offset: 54670},
+																							pos: position{line: 1681, col: 5, offset: 54717},
 																							expr: &seqExpr{
-																								pos: position{line: 2530, col: 31, offset: 81439},
+																								pos: position{line: 2530, col: 31, offset: 81486},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2530, col: 31, offset: 81439},
+																										pos:        position{line: 2530, col: 31, offset: 81486},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2530, col: 36, offset: 81444},
+																										pos: position{line: 2530, col: 36, offset: 81491},
 																										expr: &litMatcher{
-																											pos:        position{line: 2530, col: 37, offset: 81445},
+																											pos:        position{line: 2530, col: 37, offset: 81492},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -37748,28 +37796,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1682, col: 5, offset: 54702},
+																							pos: position{line: 1682, col: 5, offset: 54749},
 																							expr: &seqExpr{
-																								pos: position{line: 1682, col: 6, offset: 54703},
+																								pos: position{line: 1682, col: 6, offset: 54750},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1682, col: 6, offset: 54703},
+																										pos: position{line: 1682, col: 6, offset: 54750},
 																										expr: &actionExpr{
-																											pos: position{line: 1687, col: 5, offset: 54853},
+																											pos: position{line: 1687, col: 5, offset: 54900},
 																											run: (*parser).callonListContinuationElement1740,
 																											expr: &seqExpr{
-																												pos: position{line: 1687, col: 5, offset: 54853},
+																												pos: position{line: 1687, col: 5, offset: 54900},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1687, col: 5, offset: 54853},
+																														pos:   position{line: 1687, col: 5, offset: 54900},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1687, col: 16, offset: 54864},
+																															pos: position{line: 1687, col: 16, offset: 54911},
 																															run: (*parser).callonListContinuationElement1743,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1687, col: 16, offset: 54864},
+																																pos: position{line: 1687, col: 16, offset: 54911},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1687, col: 17, offset: 54865},
+																																	pos:        position{line: 1687, col: 17, offset: 54912},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -37778,7 +37826,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1690, col: 5, offset: 54922},
+																														pos: position{line: 1690, col: 5, offset: 54969},
 																														run: (*parser).callonListContinuationElement1746,
 																													},
 																												},
@@ -37786,30 +37834,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1682, col: 35, offset: 54732},
+																										pos: position{line: 1682, col: 35, offset: 54779},
 																										expr: &choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92809},
+																											pos: position{line: 2944, col: 8, offset: 92856},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92582},
+																													pos: position{line: 2931, col: 12, offset: 92629},
 																													run: (*parser).callonListContinuationElement1749,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92583},
+																														pos: position{line: 2931, col: 13, offset: 92630},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92583},
+																																pos:        position{line: 2931, col: 13, offset: 92630},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92590},
+																																pos:        position{line: 2931, col: 20, offset: 92637},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92599},
+																																pos:        position{line: 2931, col: 29, offset: 92646},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37818,16 +37866,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92759},
+																													pos: position{line: 2941, col: 8, offset: 92806},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92760,
+																														line: 2941, col: 9, offset: 92807,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1682, col: 40, offset: 54737,
+																										line: 1682, col: 40, offset: 54784,
 																									},
 																								},
 																							},
@@ -37836,21 +37884,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1687, col: 5, offset: 54853},
+																				pos: position{line: 1687, col: 5, offset: 54900},
 																				run: (*parser).callonListContinuationElement1757,
 																				expr: &seqExpr{
-																					pos: position{line: 1687, col: 5, offset: 54853},
+																					pos: position{line: 1687, col: 5, offset: 54900},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1687, col: 5, offset: 54853},
+																							pos:   position{line: 1687, col: 5, offset: 54900},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1687, col: 16, offset: 54864},
+																								pos: position{line: 1687, col: 16, offset: 54911},
 																								run: (*parser).callonListContinuationElement1760,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1687, col: 16, offset: 54864},
+																									pos: position{line: 1687, col: 16, offset: 54911},
 																									expr: &litMatcher{
-																										pos:        position{line: 1687, col: 17, offset: 54865},
+																										pos:        position{line: 1687, col: 17, offset: 54912},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37859,7 +37907,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1690, col: 5, offset: 54922},
+																							pos: position{line: 1690, col: 5, offset: 54969},
 																							run: (*parser).callonListContinuationElement1763,
 																						},
 																					},
@@ -37869,7 +37917,7 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1529, col: 5, offset: 49788},
+																	pos: position{line: 1529, col: 5, offset: 49835},
 																	expr: &actionExpr{
 																		pos: position{line: 737, col: 5, offset: 23726},
 																		run: (*parser).callonListContinuationElement1765,
@@ -37879,7 +37927,7 @@ var g = &grammar{
 																				&notExpr{
 																					pos: position{line: 737, col: 5, offset: 23726},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2812, col: 13, offset: 89506},
+																						pos:        position{line: 2812, col: 13, offset: 89553},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37929,10 +37977,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 755, col: 8, offset: 24370},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92411},
+																												pos: position{line: 2922, col: 10, offset: 92458},
 																												run: (*parser).callonListContinuationElement1780,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92411},
+																													pos:        position{line: 2922, col: 10, offset: 92458},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37941,28 +37989,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92809},
+																											pos: position{line: 2944, col: 8, offset: 92856},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92582},
+																													pos: position{line: 2931, col: 12, offset: 92629},
 																													run: (*parser).callonListContinuationElement1783,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92583},
+																														pos: position{line: 2931, col: 13, offset: 92630},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92583},
+																																pos:        position{line: 2931, col: 13, offset: 92630},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92590},
+																																pos:        position{line: 2931, col: 20, offset: 92637},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92599},
+																																pos:        position{line: 2931, col: 29, offset: 92646},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37971,9 +38019,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92759},
+																													pos: position{line: 2941, col: 8, offset: 92806},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92760,
+																														line: 2941, col: 9, offset: 92807,
 																													},
 																												},
 																											},
@@ -38018,10 +38066,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24618},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92411},
+																												pos: position{line: 2922, col: 10, offset: 92458},
 																												run: (*parser).callonListContinuationElement1799,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92411},
+																													pos:        position{line: 2922, col: 10, offset: 92458},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38030,28 +38078,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92809},
+																											pos: position{line: 2944, col: 8, offset: 92856},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92582},
+																													pos: position{line: 2931, col: 12, offset: 92629},
 																													run: (*parser).callonListContinuationElement1802,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92583},
+																														pos: position{line: 2931, col: 13, offset: 92630},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92583},
+																																pos:        position{line: 2931, col: 13, offset: 92630},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92590},
+																																pos:        position{line: 2931, col: 20, offset: 92637},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92599},
+																																pos:        position{line: 2931, col: 29, offset: 92646},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38060,9 +38108,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92759},
+																													pos: position{line: 2941, col: 8, offset: 92806},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92760,
+																														line: 2941, col: 9, offset: 92807,
 																													},
 																												},
 																											},
@@ -38103,10 +38151,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 773, col: 52, offset: 25030},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92411},
+																												pos: position{line: 2922, col: 10, offset: 92458},
 																												run: (*parser).callonListContinuationElement1817,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92411},
+																													pos:        position{line: 2922, col: 10, offset: 92458},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38115,28 +38163,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92809},
+																											pos: position{line: 2944, col: 8, offset: 92856},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92582},
+																													pos: position{line: 2931, col: 12, offset: 92629},
 																													run: (*parser).callonListContinuationElement1820,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92583},
+																														pos: position{line: 2931, col: 13, offset: 92630},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92583},
+																																pos:        position{line: 2931, col: 13, offset: 92630},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92590},
+																																pos:        position{line: 2931, col: 20, offset: 92637},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92599},
+																																pos:        position{line: 2931, col: 29, offset: 92646},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38145,9 +38193,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92759},
+																													pos: position{line: 2941, col: 8, offset: 92806},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92760,
+																														line: 2941, col: 9, offset: 92807,
 																													},
 																												},
 																											},
@@ -38192,10 +38240,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 769, col: 8, offset: 24864},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92411},
+																												pos: position{line: 2922, col: 10, offset: 92458},
 																												run: (*parser).callonListContinuationElement1836,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92411},
+																													pos:        position{line: 2922, col: 10, offset: 92458},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38204,28 +38252,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92809},
+																											pos: position{line: 2944, col: 8, offset: 92856},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92582},
+																													pos: position{line: 2931, col: 12, offset: 92629},
 																													run: (*parser).callonListContinuationElement1839,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92583},
+																														pos: position{line: 2931, col: 13, offset: 92630},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92583},
+																																pos:        position{line: 2931, col: 13, offset: 92630},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92590},
+																																pos:        position{line: 2931, col: 20, offset: 92637},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92599},
+																																pos:        position{line: 2931, col: 29, offset: 92646},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38234,9 +38282,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92759},
+																													pos: position{line: 2941, col: 8, offset: 92806},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92760,
+																														line: 2941, col: 9, offset: 92807,
 																													},
 																												},
 																											},
@@ -38281,10 +38329,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 784, col: 8, offset: 25402},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92411},
+																												pos: position{line: 2922, col: 10, offset: 92458},
 																												run: (*parser).callonListContinuationElement1855,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92411},
+																													pos:        position{line: 2922, col: 10, offset: 92458},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38293,28 +38341,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92809},
+																											pos: position{line: 2944, col: 8, offset: 92856},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92582},
+																													pos: position{line: 2931, col: 12, offset: 92629},
 																													run: (*parser).callonListContinuationElement1858,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92583},
+																														pos: position{line: 2931, col: 13, offset: 92630},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92583},
+																																pos:        position{line: 2931, col: 13, offset: 92630},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92590},
+																																pos:        position{line: 2931, col: 20, offset: 92637},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92599},
+																																pos:        position{line: 2931, col: 29, offset: 92646},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38323,9 +38371,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92759},
+																													pos: position{line: 2941, col: 8, offset: 92806},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92760,
+																														line: 2941, col: 9, offset: 92807,
 																													},
 																												},
 																											},
@@ -38370,10 +38418,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 798, col: 8, offset: 25878},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92411},
+																												pos: position{line: 2922, col: 10, offset: 92458},
 																												run: (*parser).callonListContinuationElement1874,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92411},
+																													pos:        position{line: 2922, col: 10, offset: 92458},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38382,28 +38430,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92809},
+																											pos: position{line: 2944, col: 8, offset: 92856},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92582},
+																													pos: position{line: 2931, col: 12, offset: 92629},
 																													run: (*parser).callonListContinuationElement1877,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92583},
+																														pos: position{line: 2931, col: 13, offset: 92630},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92583},
+																																pos:        position{line: 2931, col: 13, offset: 92630},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92590},
+																																pos:        position{line: 2931, col: 20, offset: 92637},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92599},
+																																pos:        position{line: 2931, col: 29, offset: 92646},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38412,9 +38460,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92759},
+																													pos: position{line: 2941, col: 8, offset: 92806},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92760,
+																														line: 2941, col: 9, offset: 92807,
 																													},
 																												},
 																											},
@@ -38459,10 +38507,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 805, col: 8, offset: 26130},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92411},
+																												pos: position{line: 2922, col: 10, offset: 92458},
 																												run: (*parser).callonListContinuationElement1893,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92411},
+																													pos:        position{line: 2922, col: 10, offset: 92458},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38471,28 +38519,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92809},
+																											pos: position{line: 2944, col: 8, offset: 92856},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92582},
+																													pos: position{line: 2931, col: 12, offset: 92629},
 																													run: (*parser).callonListContinuationElement1896,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92583},
+																														pos: position{line: 2931, col: 13, offset: 92630},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92583},
+																																pos:        position{line: 2931, col: 13, offset: 92630},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92590},
+																																pos:        position{line: 2931, col: 20, offset: 92637},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92599},
+																																pos:        position{line: 2931, col: 29, offset: 92646},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38501,9 +38549,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92759},
+																													pos: position{line: 2941, col: 8, offset: 92806},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92760,
+																														line: 2941, col: 9, offset: 92807,
 																													},
 																												},
 																											},
@@ -38548,10 +38596,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 812, col: 8, offset: 26380},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92411},
+																												pos: position{line: 2922, col: 10, offset: 92458},
 																												run: (*parser).callonListContinuationElement1912,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92411},
+																													pos:        position{line: 2922, col: 10, offset: 92458},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38560,28 +38608,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92809},
+																											pos: position{line: 2944, col: 8, offset: 92856},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92582},
+																													pos: position{line: 2931, col: 12, offset: 92629},
 																													run: (*parser).callonListContinuationElement1915,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92583},
+																														pos: position{line: 2931, col: 13, offset: 92630},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92583},
+																																pos:        position{line: 2931, col: 13, offset: 92630},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92590},
+																																pos:        position{line: 2931, col: 20, offset: 92637},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92599},
+																																pos:        position{line: 2931, col: 29, offset: 92646},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38590,9 +38638,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92759},
+																													pos: position{line: 2941, col: 8, offset: 92806},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92760,
+																														line: 2941, col: 9, offset: 92807,
 																													},
 																												},
 																											},
@@ -38637,10 +38685,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 819, col: 8, offset: 26626},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92411},
+																												pos: position{line: 2922, col: 10, offset: 92458},
 																												run: (*parser).callonListContinuationElement1931,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92411},
+																													pos:        position{line: 2922, col: 10, offset: 92458},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38649,28 +38697,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92809},
+																											pos: position{line: 2944, col: 8, offset: 92856},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92582},
+																													pos: position{line: 2931, col: 12, offset: 92629},
 																													run: (*parser).callonListContinuationElement1934,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92583},
+																														pos: position{line: 2931, col: 13, offset: 92630},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92583},
+																																pos:        position{line: 2931, col: 13, offset: 92630},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92590},
+																																pos:        position{line: 2931, col: 20, offset: 92637},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92599},
+																																pos:        position{line: 2931, col: 29, offset: 92646},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38679,9 +38727,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92759},
+																													pos: position{line: 2941, col: 8, offset: 92806},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92760,
+																														line: 2941, col: 9, offset: 92807,
 																													},
 																												},
 																											},
@@ -38697,15 +38745,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1530, col: 5, offset: 49808},
+																	pos:   position{line: 1530, col: 5, offset: 49855},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 14, offset: 91004},
+																		pos: position{line: 2872, col: 14, offset: 91051},
 																		run: (*parser).callonListContinuationElement1942,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2872, col: 14, offset: 91004},
+																			pos: position{line: 2872, col: 14, offset: 91051},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 14, offset: 91004},
+																				pos:        position{line: 2872, col: 14, offset: 91051},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38715,28 +38763,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92809},
+																	pos: position{line: 2944, col: 8, offset: 92856},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92582},
+																			pos: position{line: 2931, col: 12, offset: 92629},
 																			run: (*parser).callonListContinuationElement1946,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92583},
+																				pos: position{line: 2931, col: 13, offset: 92630},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92583},
+																						pos:        position{line: 2931, col: 13, offset: 92630},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92590},
+																						pos:        position{line: 2931, col: 20, offset: 92637},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92599},
+																						pos:        position{line: 2931, col: 29, offset: 92646},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38745,9 +38793,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92759},
+																			pos: position{line: 2941, col: 8, offset: 92806},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92760,
+																				line: 2941, col: 9, offset: 92807,
 																			},
 																		},
 																	},
@@ -38768,33 +38816,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1720, col: 1, offset: 55714},
+			pos:  position{line: 1720, col: 1, offset: 55761},
 			expr: &actionExpr{
-				pos: position{line: 1722, col: 5, offset: 55792},
+				pos: position{line: 1722, col: 5, offset: 55839},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1722, col: 5, offset: 55792},
+					pos: position{line: 1722, col: 5, offset: 55839},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1722, col: 5, offset: 55792},
+							pos: position{line: 1722, col: 5, offset: 55839},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1725, col: 5, offset: 55859},
+							pos:        position{line: 1725, col: 5, offset: 55906},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1725, col: 9, offset: 55863},
+							pos:   position{line: 1725, col: 9, offset: 55910},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1725, col: 14, offset: 55868},
+								pos: position{line: 1725, col: 14, offset: 55915},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1725, col: 14, offset: 55868},
+									pos: position{line: 1725, col: 14, offset: 55915},
 									expr: &charClassMatcher{
-										pos:        position{line: 1725, col: 14, offset: 55868},
+										pos:        position{line: 1725, col: 14, offset: 55915},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -38804,18 +38852,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1725, col: 62, offset: 55916},
+							pos:        position{line: 1725, col: 62, offset: 55963},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1725, col: 66, offset: 55920},
+							pos: position{line: 1725, col: 66, offset: 55967},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92411},
+								pos: position{line: 2922, col: 10, offset: 92458},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92411},
+									pos:        position{line: 2922, col: 10, offset: 92458},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38824,30 +38872,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1725, col: 73, offset: 55927},
+							pos: position{line: 1725, col: 73, offset: 55974},
 							expr: &choiceExpr{
-								pos: position{line: 1725, col: 75, offset: 55929},
+								pos: position{line: 1725, col: 75, offset: 55976},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2931, col: 12, offset: 92582},
+										pos: position{line: 2931, col: 12, offset: 92629},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2931, col: 13, offset: 92583},
+											pos: position{line: 2931, col: 13, offset: 92630},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2931, col: 13, offset: 92583},
+													pos:        position{line: 2931, col: 13, offset: 92630},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 20, offset: 92590},
+													pos:        position{line: 2931, col: 20, offset: 92637},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 29, offset: 92599},
+													pos:        position{line: 2931, col: 29, offset: 92646},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38856,13 +38904,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2941, col: 8, offset: 92759},
+										pos: position{line: 2941, col: 8, offset: 92806},
 										expr: &anyMatcher{
-											line: 2941, col: 9, offset: 92760,
+											line: 2941, col: 9, offset: 92807,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1725, col: 81, offset: 55935},
+										pos:  position{line: 1725, col: 81, offset: 55982},
 										name: "Callout",
 									},
 								},
@@ -38874,44 +38922,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1764, col: 1, offset: 57108},
+			pos:  position{line: 1764, col: 1, offset: 57155},
 			expr: &actionExpr{
-				pos: position{line: 1766, col: 5, offset: 57182},
+				pos: position{line: 1766, col: 5, offset: 57229},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1766, col: 5, offset: 57182},
+					pos: position{line: 1766, col: 5, offset: 57229},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1766, col: 5, offset: 57182},
+							pos: position{line: 1766, col: 5, offset: 57229},
 							expr: &seqExpr{
-								pos: position{line: 1766, col: 7, offset: 57184},
+								pos: position{line: 1766, col: 7, offset: 57231},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2812, col: 13, offset: 89506},
+										pos:        position{line: 2812, col: 13, offset: 89553},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1766, col: 16, offset: 57193},
+										pos: position{line: 1766, col: 16, offset: 57240},
 										expr: &seqExpr{
-											pos: position{line: 1766, col: 18, offset: 57195},
+											pos: position{line: 1766, col: 18, offset: 57242},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1766, col: 19, offset: 57196},
+													pos:        position{line: 1766, col: 19, offset: 57243},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2926, col: 11, offset: 92472},
+													pos: position{line: 2926, col: 11, offset: 92519},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2926, col: 11, offset: 92472},
+														pos: position{line: 2926, col: 11, offset: 92519},
 														expr: &charClassMatcher{
-															pos:        position{line: 2926, col: 11, offset: 92472},
+															pos:        position{line: 2926, col: 11, offset: 92519},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38926,88 +38974,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1767, col: 5, offset: 57336},
+							pos:   position{line: 1767, col: 5, offset: 57383},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1767, col: 11, offset: 57342},
+								pos: position{line: 1767, col: 11, offset: 57389},
 								expr: &actionExpr{
-									pos: position{line: 1745, col: 5, offset: 56605},
+									pos: position{line: 1745, col: 5, offset: 56652},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1745, col: 5, offset: 56605},
+										pos: position{line: 1745, col: 5, offset: 56652},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1745, col: 5, offset: 56605},
+												pos: position{line: 1745, col: 5, offset: 56652},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1748, col: 5, offset: 56668},
+												pos:   position{line: 1748, col: 5, offset: 56715},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1748, col: 12, offset: 56675},
+													pos: position{line: 1748, col: 12, offset: 56722},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1748, col: 12, offset: 56675},
+															pos: position{line: 1748, col: 12, offset: 56722},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1748, col: 12, offset: 56675},
+																pos:        position{line: 1748, col: 12, offset: 56722},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1750, col: 13, offset: 56731},
+															pos: position{line: 1750, col: 13, offset: 56778},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1750, col: 13, offset: 56731},
+																pos:        position{line: 1750, col: 13, offset: 56778},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1752, col: 13, offset: 56789},
+															pos: position{line: 1752, col: 13, offset: 56836},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1752, col: 13, offset: 56789},
+																pos:        position{line: 1752, col: 13, offset: 56836},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1754, col: 13, offset: 56857},
+															pos: position{line: 1754, col: 13, offset: 56904},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1754, col: 13, offset: 56857},
+																pos:        position{line: 1754, col: 13, offset: 56904},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1756, col: 13, offset: 56921},
+															pos: position{line: 1756, col: 13, offset: 56968},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1756, col: 13, offset: 56921},
+																pos:        position{line: 1756, col: 13, offset: 56968},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1758, col: 13, offset: 56985},
+															pos: position{line: 1758, col: 13, offset: 57032},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1758, col: 13, offset: 56985},
+																pos: position{line: 1758, col: 13, offset: 57032},
 																expr: &actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92472},
+																	pos: position{line: 2926, col: 11, offset: 92519},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92472},
+																		pos: position{line: 2926, col: 11, offset: 92519},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92472},
+																			pos:        position{line: 2926, col: 11, offset: 92519},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39026,24 +39074,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1768, col: 5, offset: 57364},
+							pos:   position{line: 1768, col: 5, offset: 57411},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1804, col: 5, offset: 58471},
+								pos: position{line: 1804, col: 5, offset: 58518},
 								run: (*parser).callonShortcutParagraph35,
 								expr: &seqExpr{
-									pos: position{line: 1804, col: 5, offset: 58471},
+									pos: position{line: 1804, col: 5, offset: 58518},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1804, col: 5, offset: 58471},
+											pos:   position{line: 1804, col: 5, offset: 58518},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2872, col: 14, offset: 91004},
+												pos: position{line: 2872, col: 14, offset: 91051},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2872, col: 14, offset: 91004},
+													pos: position{line: 2872, col: 14, offset: 91051},
 													expr: &charClassMatcher{
-														pos:        position{line: 2872, col: 14, offset: 91004},
+														pos:        position{line: 2872, col: 14, offset: 91051},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39053,32 +39101,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1805, col: 5, offset: 58495},
+											pos: position{line: 1805, col: 5, offset: 58542},
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2944, col: 8, offset: 92809},
+											pos: position{line: 2944, col: 8, offset: 92856},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2931, col: 12, offset: 92582},
+													pos: position{line: 2931, col: 12, offset: 92629},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2931, col: 13, offset: 92583},
+														pos: position{line: 2931, col: 13, offset: 92630},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2931, col: 13, offset: 92583},
+																pos:        position{line: 2931, col: 13, offset: 92630},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2931, col: 20, offset: 92590},
+																pos:        position{line: 2931, col: 20, offset: 92637},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2931, col: 29, offset: 92599},
+																pos:        position{line: 2931, col: 29, offset: 92646},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39087,9 +39135,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92759},
+													pos: position{line: 2941, col: 8, offset: 92806},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92760,
+														line: 2941, col: 9, offset: 92807,
 													},
 												},
 											},
@@ -39099,28 +39147,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1769, col: 5, offset: 57398},
+							pos: position{line: 1769, col: 5, offset: 57445},
 							run: (*parser).callonShortcutParagraph50,
 						},
 						&labeledExpr{
-							pos:   position{line: 1776, col: 5, offset: 57728},
+							pos:   position{line: 1776, col: 5, offset: 57775},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1776, col: 16, offset: 57739},
+								pos: position{line: 1776, col: 16, offset: 57786},
 								expr: &actionExpr{
-									pos: position{line: 1777, col: 9, offset: 57749},
+									pos: position{line: 1777, col: 9, offset: 57796},
 									run: (*parser).callonShortcutParagraph53,
 									expr: &seqExpr{
-										pos: position{line: 1777, col: 9, offset: 57749},
+										pos: position{line: 1777, col: 9, offset: 57796},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2939, col: 11, offset: 92745},
+												pos: position{line: 2939, col: 11, offset: 92792},
 												expr: &anyMatcher{
-													line: 2939, col: 13, offset: 92747,
+													line: 2939, col: 13, offset: 92794,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1778, col: 9, offset: 57765},
+												pos: position{line: 1778, col: 9, offset: 57812},
 												expr: &actionExpr{
 													pos: position{line: 690, col: 14, offset: 22173},
 													run: (*parser).callonShortcutParagraph58,
@@ -39128,18 +39176,18 @@ var g = &grammar{
 														pos: position{line: 690, col: 14, offset: 22173},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2939, col: 11, offset: 92745},
+																pos: position{line: 2939, col: 11, offset: 92792},
 																expr: &anyMatcher{
-																	line: 2939, col: 13, offset: 92747,
+																	line: 2939, col: 13, offset: 92794,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 690, col: 21, offset: 22180},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92411},
+																	pos: position{line: 2922, col: 10, offset: 92458},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92411},
+																		pos:        position{line: 2922, col: 10, offset: 92458},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39148,28 +39196,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92809},
+																pos: position{line: 2944, col: 8, offset: 92856},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92582},
+																		pos: position{line: 2931, col: 12, offset: 92629},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92583},
+																			pos: position{line: 2931, col: 13, offset: 92630},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92583},
+																					pos:        position{line: 2931, col: 13, offset: 92630},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92590},
+																					pos:        position{line: 2931, col: 20, offset: 92637},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92599},
+																					pos:        position{line: 2931, col: 29, offset: 92646},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39178,9 +39226,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92759},
+																		pos: position{line: 2941, col: 8, offset: 92806},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92760,
+																			line: 2941, col: 9, offset: 92807,
 																		},
 																	},
 																},
@@ -39190,14 +39238,14 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1779, col: 9, offset: 57784},
+												pos: position{line: 1779, col: 9, offset: 57831},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1779, col: 10, offset: 57785},
+													pos:  position{line: 1779, col: 10, offset: 57832},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1780, col: 9, offset: 57809},
+												pos: position{line: 1780, col: 9, offset: 57856},
 												expr: &actionExpr{
 													pos: position{line: 737, col: 5, offset: 23726},
 													run: (*parser).callonShortcutParagraph76,
@@ -39207,7 +39255,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 737, col: 5, offset: 23726},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2812, col: 13, offset: 89506},
+																	pos:        position{line: 2812, col: 13, offset: 89553},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -39257,10 +39305,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 755, col: 8, offset: 24370},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92411},
+																							pos: position{line: 2922, col: 10, offset: 92458},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92411},
+																								pos:        position{line: 2922, col: 10, offset: 92458},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39269,28 +39317,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92809},
+																						pos: position{line: 2944, col: 8, offset: 92856},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92582},
+																								pos: position{line: 2931, col: 12, offset: 92629},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92583},
+																									pos: position{line: 2931, col: 13, offset: 92630},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92583},
+																											pos:        position{line: 2931, col: 13, offset: 92630},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92590},
+																											pos:        position{line: 2931, col: 20, offset: 92637},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92599},
+																											pos:        position{line: 2931, col: 29, offset: 92646},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39299,9 +39347,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92759},
+																								pos: position{line: 2941, col: 8, offset: 92806},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92760,
+																									line: 2941, col: 9, offset: 92807,
 																								},
 																							},
 																						},
@@ -39346,10 +39394,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24618},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92411},
+																							pos: position{line: 2922, col: 10, offset: 92458},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92411},
+																								pos:        position{line: 2922, col: 10, offset: 92458},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39358,28 +39406,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92809},
+																						pos: position{line: 2944, col: 8, offset: 92856},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92582},
+																								pos: position{line: 2931, col: 12, offset: 92629},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92583},
+																									pos: position{line: 2931, col: 13, offset: 92630},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92583},
+																											pos:        position{line: 2931, col: 13, offset: 92630},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92590},
+																											pos:        position{line: 2931, col: 20, offset: 92637},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92599},
+																											pos:        position{line: 2931, col: 29, offset: 92646},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39388,9 +39436,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92759},
+																								pos: position{line: 2941, col: 8, offset: 92806},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92760,
+																									line: 2941, col: 9, offset: 92807,
 																								},
 																							},
 																						},
@@ -39431,10 +39479,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 773, col: 52, offset: 25030},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92411},
+																							pos: position{line: 2922, col: 10, offset: 92458},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92411},
+																								pos:        position{line: 2922, col: 10, offset: 92458},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39443,28 +39491,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92809},
+																						pos: position{line: 2944, col: 8, offset: 92856},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92582},
+																								pos: position{line: 2931, col: 12, offset: 92629},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92583},
+																									pos: position{line: 2931, col: 13, offset: 92630},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92583},
+																											pos:        position{line: 2931, col: 13, offset: 92630},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92590},
+																											pos:        position{line: 2931, col: 20, offset: 92637},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92599},
+																											pos:        position{line: 2931, col: 29, offset: 92646},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39473,9 +39521,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92759},
+																								pos: position{line: 2941, col: 8, offset: 92806},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92760,
+																									line: 2941, col: 9, offset: 92807,
 																								},
 																							},
 																						},
@@ -39520,10 +39568,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 769, col: 8, offset: 24864},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92411},
+																							pos: position{line: 2922, col: 10, offset: 92458},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92411},
+																								pos:        position{line: 2922, col: 10, offset: 92458},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39532,28 +39580,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92809},
+																						pos: position{line: 2944, col: 8, offset: 92856},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92582},
+																								pos: position{line: 2931, col: 12, offset: 92629},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92583},
+																									pos: position{line: 2931, col: 13, offset: 92630},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92583},
+																											pos:        position{line: 2931, col: 13, offset: 92630},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92590},
+																											pos:        position{line: 2931, col: 20, offset: 92637},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92599},
+																											pos:        position{line: 2931, col: 29, offset: 92646},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39562,9 +39610,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92759},
+																								pos: position{line: 2941, col: 8, offset: 92806},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92760,
+																									line: 2941, col: 9, offset: 92807,
 																								},
 																							},
 																						},
@@ -39609,10 +39657,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 784, col: 8, offset: 25402},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92411},
+																							pos: position{line: 2922, col: 10, offset: 92458},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92411},
+																								pos:        position{line: 2922, col: 10, offset: 92458},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39621,28 +39669,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92809},
+																						pos: position{line: 2944, col: 8, offset: 92856},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92582},
+																								pos: position{line: 2931, col: 12, offset: 92629},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92583},
+																									pos: position{line: 2931, col: 13, offset: 92630},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92583},
+																											pos:        position{line: 2931, col: 13, offset: 92630},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92590},
+																											pos:        position{line: 2931, col: 20, offset: 92637},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92599},
+																											pos:        position{line: 2931, col: 29, offset: 92646},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39651,9 +39699,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92759},
+																								pos: position{line: 2941, col: 8, offset: 92806},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92760,
+																									line: 2941, col: 9, offset: 92807,
 																								},
 																							},
 																						},
@@ -39698,10 +39746,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 798, col: 8, offset: 25878},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92411},
+																							pos: position{line: 2922, col: 10, offset: 92458},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92411},
+																								pos:        position{line: 2922, col: 10, offset: 92458},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39710,28 +39758,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92809},
+																						pos: position{line: 2944, col: 8, offset: 92856},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92582},
+																								pos: position{line: 2931, col: 12, offset: 92629},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92583},
+																									pos: position{line: 2931, col: 13, offset: 92630},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92583},
+																											pos:        position{line: 2931, col: 13, offset: 92630},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92590},
+																											pos:        position{line: 2931, col: 20, offset: 92637},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92599},
+																											pos:        position{line: 2931, col: 29, offset: 92646},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39740,9 +39788,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92759},
+																								pos: position{line: 2941, col: 8, offset: 92806},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92760,
+																									line: 2941, col: 9, offset: 92807,
 																								},
 																							},
 																						},
@@ -39787,10 +39835,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 805, col: 8, offset: 26130},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92411},
+																							pos: position{line: 2922, col: 10, offset: 92458},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92411},
+																								pos:        position{line: 2922, col: 10, offset: 92458},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39799,28 +39847,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92809},
+																						pos: position{line: 2944, col: 8, offset: 92856},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92582},
+																								pos: position{line: 2931, col: 12, offset: 92629},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92583},
+																									pos: position{line: 2931, col: 13, offset: 92630},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92583},
+																											pos:        position{line: 2931, col: 13, offset: 92630},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92590},
+																											pos:        position{line: 2931, col: 20, offset: 92637},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92599},
+																											pos:        position{line: 2931, col: 29, offset: 92646},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39829,9 +39877,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92759},
+																								pos: position{line: 2941, col: 8, offset: 92806},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92760,
+																									line: 2941, col: 9, offset: 92807,
 																								},
 																							},
 																						},
@@ -39876,10 +39924,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 812, col: 8, offset: 26380},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92411},
+																							pos: position{line: 2922, col: 10, offset: 92458},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92411},
+																								pos:        position{line: 2922, col: 10, offset: 92458},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39888,28 +39936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92809},
+																						pos: position{line: 2944, col: 8, offset: 92856},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92582},
+																								pos: position{line: 2931, col: 12, offset: 92629},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92583},
+																									pos: position{line: 2931, col: 13, offset: 92630},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92583},
+																											pos:        position{line: 2931, col: 13, offset: 92630},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92590},
+																											pos:        position{line: 2931, col: 20, offset: 92637},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92599},
+																											pos:        position{line: 2931, col: 29, offset: 92646},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39918,9 +39966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92759},
+																								pos: position{line: 2941, col: 8, offset: 92806},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92760,
+																									line: 2941, col: 9, offset: 92807,
 																								},
 																							},
 																						},
@@ -39965,10 +40013,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 819, col: 8, offset: 26626},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92411},
+																							pos: position{line: 2922, col: 10, offset: 92458},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92411},
+																								pos:        position{line: 2922, col: 10, offset: 92458},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39977,28 +40025,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92809},
+																						pos: position{line: 2944, col: 8, offset: 92856},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92582},
+																								pos: position{line: 2931, col: 12, offset: 92629},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92583},
+																									pos: position{line: 2931, col: 13, offset: 92630},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92583},
+																											pos:        position{line: 2931, col: 13, offset: 92630},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92590},
+																											pos:        position{line: 2931, col: 20, offset: 92637},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92599},
+																											pos:        position{line: 2931, col: 29, offset: 92646},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40007,9 +40055,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92759},
+																								pos: position{line: 2941, col: 8, offset: 92806},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92760,
+																									line: 2941, col: 9, offset: 92807,
 																								},
 																							},
 																						},
@@ -40025,23 +40073,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1781, col: 9, offset: 57833},
+												pos: position{line: 1781, col: 9, offset: 57880},
 												expr: &seqExpr{
-													pos: position{line: 1555, col: 27, offset: 50470},
+													pos: position{line: 1555, col: 27, offset: 50517},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1555, col: 27, offset: 50470},
+															pos:        position{line: 1555, col: 27, offset: 50517},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1555, col: 31, offset: 50474},
+															pos: position{line: 1555, col: 31, offset: 50521},
 															expr: &actionExpr{
-																pos: position{line: 2922, col: 10, offset: 92411},
+																pos: position{line: 2922, col: 10, offset: 92458},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2922, col: 10, offset: 92411},
+																	pos:        position{line: 2922, col: 10, offset: 92458},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40050,25 +40098,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92582},
+															pos: position{line: 2931, col: 12, offset: 92629},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92583},
+																pos: position{line: 2931, col: 13, offset: 92630},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92583},
+																		pos:        position{line: 2931, col: 13, offset: 92630},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92590},
+																		pos:        position{line: 2931, col: 20, offset: 92637},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92599},
+																		pos:        position{line: 2931, col: 29, offset: 92646},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40080,42 +40128,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1782, col: 9, offset: 57865},
+												pos:   position{line: 1782, col: 9, offset: 57912},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1782, col: 15, offset: 57871},
+													pos: position{line: 1782, col: 15, offset: 57918},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81189},
+															pos: position{line: 2525, col: 22, offset: 81236},
 															run: (*parser).callonShortcutParagraph265,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81189},
+																pos: position{line: 2525, col: 22, offset: 81236},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81439},
+																		pos:        position{line: 2530, col: 31, offset: 81486},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81444},
+																		pos: position{line: 2530, col: 36, offset: 81491},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81445},
+																			pos:        position{line: 2530, col: 37, offset: 81492},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81216},
+																		pos:   position{line: 2525, col: 49, offset: 81263},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 13, offset: 90937},
+																			pos: position{line: 2868, col: 13, offset: 90984},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2868, col: 13, offset: 90937},
+																				pos: position{line: 2868, col: 13, offset: 90984},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 13, offset: 90937},
+																					pos:        position{line: 2868, col: 13, offset: 90984},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40125,28 +40173,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92809},
+																		pos: position{line: 2944, col: 8, offset: 92856},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
+																				pos: position{line: 2931, col: 12, offset: 92629},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40155,9 +40203,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92759},
+																				pos: position{line: 2941, col: 8, offset: 92806},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92760,
+																					line: 2941, col: 9, offset: 92807,
 																				},
 																			},
 																		},
@@ -40166,21 +40214,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1804, col: 5, offset: 58471},
+															pos: position{line: 1804, col: 5, offset: 58518},
 															run: (*parser).callonShortcutParagraph282,
 															expr: &seqExpr{
-																pos: position{line: 1804, col: 5, offset: 58471},
+																pos: position{line: 1804, col: 5, offset: 58518},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1804, col: 5, offset: 58471},
+																		pos:   position{line: 1804, col: 5, offset: 58518},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 14, offset: 91004},
+																			pos: position{line: 2872, col: 14, offset: 91051},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2872, col: 14, offset: 91004},
+																				pos: position{line: 2872, col: 14, offset: 91051},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 14, offset: 91004},
+																					pos:        position{line: 2872, col: 14, offset: 91051},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40190,32 +40238,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1805, col: 5, offset: 58495},
+																		pos: position{line: 1805, col: 5, offset: 58542},
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92809},
+																		pos: position{line: 2944, col: 8, offset: 92856},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
+																				pos: position{line: 2931, col: 12, offset: 92629},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40224,9 +40272,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92759},
+																				pos: position{line: 2941, col: 8, offset: 92806},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92760,
+																					line: 2941, col: 9, offset: 92807,
 																				},
 																			},
 																		},
@@ -40248,96 +40296,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1789, col: 1, offset: 58075},
+			pos:  position{line: 1789, col: 1, offset: 58122},
 			expr: &actionExpr{
-				pos: position{line: 1790, col: 5, offset: 58093},
+				pos: position{line: 1790, col: 5, offset: 58140},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1790, col: 5, offset: 58093},
+					pos: position{line: 1790, col: 5, offset: 58140},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1790, col: 5, offset: 58093},
+							pos:   position{line: 1790, col: 5, offset: 58140},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1790, col: 11, offset: 58099},
+								pos: position{line: 1790, col: 11, offset: 58146},
 								expr: &actionExpr{
-									pos: position{line: 1745, col: 5, offset: 56605},
+									pos: position{line: 1745, col: 5, offset: 56652},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1745, col: 5, offset: 56605},
+										pos: position{line: 1745, col: 5, offset: 56652},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1745, col: 5, offset: 56605},
+												pos: position{line: 1745, col: 5, offset: 56652},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1748, col: 5, offset: 56668},
+												pos:   position{line: 1748, col: 5, offset: 56715},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1748, col: 12, offset: 56675},
+													pos: position{line: 1748, col: 12, offset: 56722},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1748, col: 12, offset: 56675},
+															pos: position{line: 1748, col: 12, offset: 56722},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1748, col: 12, offset: 56675},
+																pos:        position{line: 1748, col: 12, offset: 56722},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1750, col: 13, offset: 56731},
+															pos: position{line: 1750, col: 13, offset: 56778},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1750, col: 13, offset: 56731},
+																pos:        position{line: 1750, col: 13, offset: 56778},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1752, col: 13, offset: 56789},
+															pos: position{line: 1752, col: 13, offset: 56836},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1752, col: 13, offset: 56789},
+																pos:        position{line: 1752, col: 13, offset: 56836},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1754, col: 13, offset: 56857},
+															pos: position{line: 1754, col: 13, offset: 56904},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1754, col: 13, offset: 56857},
+																pos:        position{line: 1754, col: 13, offset: 56904},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1756, col: 13, offset: 56921},
+															pos: position{line: 1756, col: 13, offset: 56968},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1756, col: 13, offset: 56921},
+																pos:        position{line: 1756, col: 13, offset: 56968},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1758, col: 13, offset: 56985},
+															pos: position{line: 1758, col: 13, offset: 57032},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1758, col: 13, offset: 56985},
+																pos: position{line: 1758, col: 13, offset: 57032},
 																expr: &actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92472},
+																	pos: position{line: 2926, col: 11, offset: 92519},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92472},
+																		pos: position{line: 2926, col: 11, offset: 92519},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92472},
+																			pos:        position{line: 2926, col: 11, offset: 92519},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40356,24 +40404,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1791, col: 5, offset: 58122},
+							pos:   position{line: 1791, col: 5, offset: 58169},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1804, col: 5, offset: 58471},
+								pos: position{line: 1804, col: 5, offset: 58518},
 								run: (*parser).callonParagraph26,
 								expr: &seqExpr{
-									pos: position{line: 1804, col: 5, offset: 58471},
+									pos: position{line: 1804, col: 5, offset: 58518},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1804, col: 5, offset: 58471},
+											pos:   position{line: 1804, col: 5, offset: 58518},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2872, col: 14, offset: 91004},
+												pos: position{line: 2872, col: 14, offset: 91051},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2872, col: 14, offset: 91004},
+													pos: position{line: 2872, col: 14, offset: 91051},
 													expr: &charClassMatcher{
-														pos:        position{line: 2872, col: 14, offset: 91004},
+														pos:        position{line: 2872, col: 14, offset: 91051},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40383,32 +40431,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1805, col: 5, offset: 58495},
+											pos: position{line: 1805, col: 5, offset: 58542},
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2944, col: 8, offset: 92809},
+											pos: position{line: 2944, col: 8, offset: 92856},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2931, col: 12, offset: 92582},
+													pos: position{line: 2931, col: 12, offset: 92629},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2931, col: 13, offset: 92583},
+														pos: position{line: 2931, col: 13, offset: 92630},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2931, col: 13, offset: 92583},
+																pos:        position{line: 2931, col: 13, offset: 92630},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2931, col: 20, offset: 92590},
+																pos:        position{line: 2931, col: 20, offset: 92637},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2931, col: 29, offset: 92599},
+																pos:        position{line: 2931, col: 29, offset: 92646},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40417,9 +40465,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92759},
+													pos: position{line: 2941, col: 8, offset: 92806},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92760,
+														line: 2941, col: 9, offset: 92807,
 													},
 												},
 											},
@@ -40429,24 +40477,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1792, col: 5, offset: 58156},
+							pos:   position{line: 1792, col: 5, offset: 58203},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1792, col: 16, offset: 58167},
+								pos: position{line: 1792, col: 16, offset: 58214},
 								expr: &actionExpr{
-									pos: position{line: 1793, col: 9, offset: 58177},
+									pos: position{line: 1793, col: 9, offset: 58224},
 									run: (*parser).callonParagraph43,
 									expr: &seqExpr{
-										pos: position{line: 1793, col: 9, offset: 58177},
+										pos: position{line: 1793, col: 9, offset: 58224},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2939, col: 11, offset: 92745},
+												pos: position{line: 2939, col: 11, offset: 92792},
 												expr: &anyMatcher{
-													line: 2939, col: 13, offset: 92747,
+													line: 2939, col: 13, offset: 92794,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1794, col: 9, offset: 58192},
+												pos: position{line: 1794, col: 9, offset: 58239},
 												expr: &actionExpr{
 													pos: position{line: 690, col: 14, offset: 22173},
 													run: (*parser).callonParagraph48,
@@ -40454,18 +40502,18 @@ var g = &grammar{
 														pos: position{line: 690, col: 14, offset: 22173},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2939, col: 11, offset: 92745},
+																pos: position{line: 2939, col: 11, offset: 92792},
 																expr: &anyMatcher{
-																	line: 2939, col: 13, offset: 92747,
+																	line: 2939, col: 13, offset: 92794,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 690, col: 21, offset: 22180},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92411},
+																	pos: position{line: 2922, col: 10, offset: 92458},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92411},
+																		pos:        position{line: 2922, col: 10, offset: 92458},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40474,28 +40522,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92809},
+																pos: position{line: 2944, col: 8, offset: 92856},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92582},
+																		pos: position{line: 2931, col: 12, offset: 92629},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92583},
+																			pos: position{line: 2931, col: 13, offset: 92630},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92583},
+																					pos:        position{line: 2931, col: 13, offset: 92630},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92590},
+																					pos:        position{line: 2931, col: 20, offset: 92637},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92599},
+																					pos:        position{line: 2931, col: 29, offset: 92646},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40504,9 +40552,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92759},
+																		pos: position{line: 2941, col: 8, offset: 92806},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92760,
+																			line: 2941, col: 9, offset: 92807,
 																		},
 																	},
 																},
@@ -40516,49 +40564,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1795, col: 9, offset: 58211},
+												pos: position{line: 1795, col: 9, offset: 58258},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1795, col: 10, offset: 58212},
+													pos:  position{line: 1795, col: 10, offset: 58259},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1796, col: 9, offset: 58236},
+												pos:   position{line: 1796, col: 9, offset: 58283},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1796, col: 15, offset: 58242},
+													pos: position{line: 1796, col: 15, offset: 58289},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81189},
+															pos: position{line: 2525, col: 22, offset: 81236},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81189},
+																pos: position{line: 2525, col: 22, offset: 81236},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81439},
+																		pos:        position{line: 2530, col: 31, offset: 81486},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81444},
+																		pos: position{line: 2530, col: 36, offset: 81491},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81445},
+																			pos:        position{line: 2530, col: 37, offset: 81492},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81216},
+																		pos:   position{line: 2525, col: 49, offset: 81263},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 13, offset: 90937},
+																			pos: position{line: 2868, col: 13, offset: 90984},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2868, col: 13, offset: 90937},
+																				pos: position{line: 2868, col: 13, offset: 90984},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 13, offset: 90937},
+																					pos:        position{line: 2868, col: 13, offset: 90984},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40568,28 +40616,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92809},
+																		pos: position{line: 2944, col: 8, offset: 92856},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
+																				pos: position{line: 2931, col: 12, offset: 92629},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40598,9 +40646,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92759},
+																				pos: position{line: 2941, col: 8, offset: 92806},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92760,
+																					line: 2941, col: 9, offset: 92807,
 																				},
 																			},
 																		},
@@ -40609,21 +40657,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1804, col: 5, offset: 58471},
+															pos: position{line: 1804, col: 5, offset: 58518},
 															run: (*parser).callonParagraph84,
 															expr: &seqExpr{
-																pos: position{line: 1804, col: 5, offset: 58471},
+																pos: position{line: 1804, col: 5, offset: 58518},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1804, col: 5, offset: 58471},
+																		pos:   position{line: 1804, col: 5, offset: 58518},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 14, offset: 91004},
+																			pos: position{line: 2872, col: 14, offset: 91051},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2872, col: 14, offset: 91004},
+																				pos: position{line: 2872, col: 14, offset: 91051},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 14, offset: 91004},
+																					pos:        position{line: 2872, col: 14, offset: 91051},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40633,32 +40681,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1805, col: 5, offset: 58495},
+																		pos: position{line: 1805, col: 5, offset: 58542},
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92809},
+																		pos: position{line: 2944, col: 8, offset: 92856},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
+																				pos: position{line: 2931, col: 12, offset: 92629},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40667,9 +40715,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92759},
+																				pos: position{line: 2941, col: 8, offset: 92806},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92760,
+																					line: 2941, col: 9, offset: 92807,
 																				},
 																			},
 																		},
@@ -40691,16 +40739,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1815, col: 1, offset: 58981},
+			pos:  position{line: 1815, col: 1, offset: 59028},
 			expr: &choiceExpr{
-				pos: position{line: 1815, col: 15, offset: 58995},
+				pos: position{line: 1815, col: 15, offset: 59042},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1815, col: 15, offset: 58995},
+						pos:  position{line: 1815, col: 15, offset: 59042},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1815, col: 35, offset: 59015},
+						pos:  position{line: 1815, col: 35, offset: 59062},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -40708,65 +40756,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1817, col: 1, offset: 59036},
+			pos:  position{line: 1817, col: 1, offset: 59083},
 			expr: &actionExpr{
-				pos: position{line: 1818, col: 5, offset: 59061},
+				pos: position{line: 1818, col: 5, offset: 59108},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1818, col: 5, offset: 59061},
+					pos: position{line: 1818, col: 5, offset: 59108},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1818, col: 5, offset: 59061},
+							pos:   position{line: 1818, col: 5, offset: 59108},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1818, col: 16, offset: 59072},
+								pos: position{line: 1818, col: 16, offset: 59119},
 								expr: &actionExpr{
-									pos: position{line: 1818, col: 17, offset: 59073},
+									pos: position{line: 1818, col: 17, offset: 59120},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1818, col: 17, offset: 59073},
+										pos:  position{line: 1818, col: 17, offset: 59120},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1821, col: 5, offset: 59141},
+							pos: position{line: 1821, col: 5, offset: 59188},
 							expr: &litMatcher{
-								pos:        position{line: 1821, col: 7, offset: 59143},
+								pos:        position{line: 1821, col: 7, offset: 59190},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1822, col: 5, offset: 59152},
+							pos:   position{line: 1822, col: 5, offset: 59199},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1823, col: 9, offset: 59170},
+								pos: position{line: 1823, col: 9, offset: 59217},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1823, col: 9, offset: 59170},
+										pos:  position{line: 1823, col: 9, offset: 59217},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1824, col: 11, offset: 59197},
+										pos:  position{line: 1824, col: 11, offset: 59244},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1825, col: 11, offset: 59225},
+										pos:  position{line: 1825, col: 11, offset: 59272},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1826, col: 11, offset: 59256},
+										pos:  position{line: 1826, col: 11, offset: 59303},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1827, col: 11, offset: 59284},
+										pos:  position{line: 1827, col: 11, offset: 59331},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1828, col: 11, offset: 59315},
+										pos:  position{line: 1828, col: 11, offset: 59362},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -40778,36 +40826,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1833, col: 1, offset: 59435},
+			pos:  position{line: 1833, col: 1, offset: 59482},
 			expr: &actionExpr{
-				pos: position{line: 1834, col: 5, offset: 59477},
+				pos: position{line: 1834, col: 5, offset: 59524},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1834, col: 5, offset: 59477},
+					pos: position{line: 1834, col: 5, offset: 59524},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1834, col: 5, offset: 59477},
+							pos:   position{line: 1834, col: 5, offset: 59524},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1834, col: 16, offset: 59488},
+								pos: position{line: 1834, col: 16, offset: 59535},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1834, col: 17, offset: 59489},
+									pos:  position{line: 1834, col: 17, offset: 59536},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1835, col: 5, offset: 59514},
+							pos:   position{line: 1835, col: 5, offset: 59561},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1835, col: 14, offset: 59523},
+								pos: position{line: 1835, col: 14, offset: 59570},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1835, col: 14, offset: 59523},
+										pos:  position{line: 1835, col: 14, offset: 59570},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1835, col: 33, offset: 59542},
+										pos:  position{line: 1835, col: 33, offset: 59589},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -40819,32 +40867,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1843, col: 1, offset: 59773},
+			pos:  position{line: 1843, col: 1, offset: 59820},
 			expr: &choiceExpr{
-				pos: position{line: 1844, col: 5, offset: 59798},
+				pos: position{line: 1844, col: 5, offset: 59845},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1844, col: 5, offset: 59798},
+						pos:  position{line: 1844, col: 5, offset: 59845},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1845, col: 7, offset: 59825},
+						pos:  position{line: 1845, col: 7, offset: 59872},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1846, col: 7, offset: 59853},
+						pos:  position{line: 1846, col: 7, offset: 59900},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1847, col: 7, offset: 59885},
+						pos:  position{line: 1847, col: 7, offset: 59932},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1848, col: 7, offset: 59913},
+						pos:  position{line: 1848, col: 7, offset: 59960},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1849, col: 7, offset: 59934},
+						pos:  position{line: 1849, col: 7, offset: 59981},
 						name: "SuperscriptText",
 					},
 				},
@@ -40852,24 +40900,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1851, col: 1, offset: 59952},
+			pos:  position{line: 1851, col: 1, offset: 59999},
 			expr: &choiceExpr{
-				pos: position{line: 1852, col: 5, offset: 59977},
+				pos: position{line: 1852, col: 5, offset: 60024},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1852, col: 5, offset: 59977},
+						pos:  position{line: 1852, col: 5, offset: 60024},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1853, col: 7, offset: 60003},
+						pos:  position{line: 1853, col: 7, offset: 60050},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1854, col: 7, offset: 60031},
+						pos:  position{line: 1854, col: 7, offset: 60078},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1855, col: 7, offset: 60062},
+						pos:  position{line: 1855, col: 7, offset: 60109},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -40877,26 +40925,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1869, col: 1, offset: 60416},
+			pos:  position{line: 1869, col: 1, offset: 60463},
 			expr: &choiceExpr{
-				pos: position{line: 1870, col: 5, offset: 60442},
+				pos: position{line: 1870, col: 5, offset: 60489},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2821, col: 5, offset: 89653},
+						pos: position{line: 2821, col: 5, offset: 89700},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2821, col: 5, offset: 89653},
+							pos: position{line: 2821, col: 5, offset: 89700},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2821, col: 5, offset: 89653},
+									pos:   position{line: 2821, col: 5, offset: 89700},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2821, col: 11, offset: 89659},
+										pos: position{line: 2821, col: 11, offset: 89706},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2821, col: 11, offset: 89659},
+											pos: position{line: 2821, col: 11, offset: 89706},
 											expr: &charClassMatcher{
-												pos:        position{line: 2821, col: 11, offset: 89659},
+												pos:        position{line: 2821, col: 11, offset: 89706},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40906,36 +40954,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2824, col: 5, offset: 89717},
+									pos: position{line: 2824, col: 5, offset: 89764},
 									expr: &seqExpr{
-										pos: position{line: 2825, col: 9, offset: 89728},
+										pos: position{line: 2825, col: 9, offset: 89775},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2825, col: 9, offset: 89728},
+												pos:        position{line: 2825, col: 9, offset: 89775},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2826, col: 9, offset: 89777},
+												pos: position{line: 2826, col: 9, offset: 89824},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2830, col: 5, offset: 89857},
+									pos: position{line: 2830, col: 5, offset: 89904},
 									expr: &seqExpr{
-										pos: position{line: 2831, col: 9, offset: 89868},
+										pos: position{line: 2831, col: 9, offset: 89915},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2831, col: 9, offset: 89868},
+												pos:        position{line: 2831, col: 9, offset: 89915},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2831, col: 13, offset: 89872},
+												pos:        position{line: 2831, col: 13, offset: 89919},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40948,12 +40996,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2926, col: 11, offset: 92472},
+						pos: position{line: 2926, col: 11, offset: 92519},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2926, col: 11, offset: 92472},
+							pos: position{line: 2926, col: 11, offset: 92519},
 							expr: &charClassMatcher{
-								pos:        position{line: 2926, col: 11, offset: 92472},
+								pos:        position{line: 2926, col: 11, offset: 92519},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -40962,25 +41010,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1872, col: 7, offset: 60505},
+						pos:  position{line: 1872, col: 7, offset: 60552},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2543, col: 5, offset: 81934},
+						pos: position{line: 2543, col: 5, offset: 81981},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2543, col: 5, offset: 81934},
+							pos: position{line: 2543, col: 5, offset: 81981},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2543, col: 5, offset: 81934},
+									pos:        position{line: 2543, col: 5, offset: 81981},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2543, col: 10, offset: 81939},
+									pos: position{line: 2543, col: 10, offset: 81986},
 									expr: &charClassMatcher{
-										pos:        position{line: 2543, col: 11, offset: 81940},
+										pos:        position{line: 2543, col: 11, offset: 81987},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40991,29 +41039,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2549, col: 5, offset: 82132},
+						pos: position{line: 2549, col: 5, offset: 82179},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2549, col: 5, offset: 82132},
+							pos: position{line: 2549, col: 5, offset: 82179},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2549, col: 5, offset: 82132},
+									pos: position{line: 2549, col: 5, offset: 82179},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2552, col: 5, offset: 82203},
+									pos: position{line: 2552, col: 5, offset: 82250},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2556, col: 5, offset: 82328},
+									pos:        position{line: 2556, col: 5, offset: 82375},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2556, col: 9, offset: 82332},
+									pos: position{line: 2556, col: 9, offset: 82379},
 									expr: &charClassMatcher{
-										pos:        position{line: 2556, col: 10, offset: 82333},
+										pos:        position{line: 2556, col: 10, offset: 82380},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41024,27 +41072,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2839, col: 5, offset: 90065},
+						pos: position{line: 2839, col: 5, offset: 90112},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2840, col: 9, offset: 90075},
+							pos: position{line: 2840, col: 9, offset: 90122},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2840, col: 10, offset: 90076},
+									pos:        position{line: 2840, col: 10, offset: 90123},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2842, col: 13, offset: 90173},
+									pos: position{line: 2842, col: 13, offset: 90220},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2842, col: 13, offset: 90173},
+											pos: position{line: 2842, col: 13, offset: 90220},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2845, col: 13, offset: 90273},
+											pos:        position{line: 2845, col: 13, offset: 90320},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -41052,20 +41100,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2845, col: 19, offset: 90279},
+									pos:        position{line: 2845, col: 19, offset: 90326},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2848, col: 13, offset: 90317},
+									pos: position{line: 2848, col: 13, offset: 90364},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2848, col: 13, offset: 90317},
+											pos: position{line: 2848, col: 13, offset: 90364},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2851, col: 14, offset: 90410},
+											pos:        position{line: 2851, col: 14, offset: 90457},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -41074,18 +41122,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2853, col: 12, offset: 90454},
+									pos: position{line: 2853, col: 12, offset: 90501},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2853, col: 12, offset: 90454},
+											pos:        position{line: 2853, col: 12, offset: 90501},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2853, col: 16, offset: 90458},
+											pos: position{line: 2853, col: 16, offset: 90505},
 											expr: &litMatcher{
-												pos:        position{line: 2853, col: 17, offset: 90459},
+												pos:        position{line: 2853, col: 17, offset: 90506},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -41443,31 +41491,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2935, col: 18, offset: 92682},
+						pos: position{line: 2935, col: 18, offset: 92729},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2935, col: 18, offset: 92682},
+							pos: position{line: 2935, col: 18, offset: 92729},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92582},
+									pos: position{line: 2931, col: 12, offset: 92629},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92583},
+										pos: position{line: 2931, col: 13, offset: 92630},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92583},
+												pos:        position{line: 2931, col: 13, offset: 92630},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92590},
+												pos:        position{line: 2931, col: 20, offset: 92637},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92599},
+												pos:        position{line: 2931, col: 29, offset: 92646},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41476,27 +41524,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2935, col: 26, offset: 92690},
+									pos: position{line: 2935, col: 26, offset: 92737},
 									expr: &actionExpr{
-										pos: position{line: 2931, col: 12, offset: 92582},
+										pos: position{line: 2931, col: 12, offset: 92629},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2931, col: 13, offset: 92583},
+											pos: position{line: 2931, col: 13, offset: 92630},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2931, col: 13, offset: 92583},
+													pos:        position{line: 2931, col: 13, offset: 92630},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 20, offset: 92590},
+													pos:        position{line: 2931, col: 20, offset: 92637},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 29, offset: 92599},
+													pos:        position{line: 2931, col: 29, offset: 92646},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41509,31 +41557,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1877, col: 7, offset: 60672},
+						pos:  position{line: 1877, col: 7, offset: 60719},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1878, col: 7, offset: 60719},
+						pos:  position{line: 1878, col: 7, offset: 60766},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2512, col: 5, offset: 80735},
+						pos: position{line: 2512, col: 5, offset: 80782},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2512, col: 5, offset: 80735},
+							pos: position{line: 2512, col: 5, offset: 80782},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2512, col: 5, offset: 80735},
+									pos: position{line: 2512, col: 5, offset: 80782},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2515, col: 5, offset: 80811},
+									pos:   position{line: 2515, col: 5, offset: 80858},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2516, col: 9, offset: 80829},
+										pos: position{line: 2516, col: 9, offset: 80876},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2516, col: 10, offset: 80830},
+											pos:        position{line: 2516, col: 10, offset: 80877},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -41580,14 +41628,18 @@ var g = &grammar{
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
+								&andCodeExpr{
+									pos: position{line: 1211, col: 123, offset: 37756},
+									run: (*parser).callonQuotedTextElement144,
+								},
 							},
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2861, col: 12, offset: 90719},
-						run: (*parser).callonQuotedTextElement144,
+						pos: position{line: 2861, col: 12, offset: 90766},
+						run: (*parser).callonQuotedTextElement145,
 						expr: &charClassMatcher{
-							pos:        position{line: 2861, col: 12, offset: 90719},
+							pos:        position{line: 2861, col: 12, offset: 90766},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41599,29 +41651,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1896, col: 1, offset: 61189},
+			pos:  position{line: 1896, col: 1, offset: 61236},
 			expr: &actionExpr{
-				pos: position{line: 1897, col: 5, offset: 61217},
+				pos: position{line: 1897, col: 5, offset: 61264},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1897, col: 5, offset: 61217},
+					pos: position{line: 1897, col: 5, offset: 61264},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1892, col: 38, offset: 61142},
+							pos:        position{line: 1892, col: 38, offset: 61189},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1898, col: 5, offset: 61256},
+							pos:   position{line: 1898, col: 5, offset: 61303},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1898, col: 15, offset: 61266},
+								pos:  position{line: 1898, col: 15, offset: 61313},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1894, col: 36, offset: 61183},
+							pos:        position{line: 1894, col: 36, offset: 61230},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -41632,24 +41684,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1903, col: 1, offset: 61426},
+			pos:  position{line: 1903, col: 1, offset: 61473},
 			expr: &actionExpr{
-				pos: position{line: 1904, col: 5, offset: 61461},
+				pos: position{line: 1904, col: 5, offset: 61508},
 				run: (*parser).callonDoubleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1904, col: 5, offset: 61461},
+					pos: position{line: 1904, col: 5, offset: 61508},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1904, col: 5, offset: 61461},
+							pos: position{line: 1904, col: 5, offset: 61508},
 							run: (*parser).callonDoubleQuoteBoldTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1908, col: 5, offset: 61581},
+							pos:   position{line: 1908, col: 5, offset: 61628},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1908, col: 14, offset: 61590},
+								pos: position{line: 1908, col: 14, offset: 61637},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1908, col: 15, offset: 61591},
+									pos:  position{line: 1908, col: 15, offset: 61638},
 									name: "DoubleQuoteBoldTextElement",
 								},
 							},
@@ -41660,33 +41712,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1912, col: 1, offset: 61658},
+			pos:  position{line: 1912, col: 1, offset: 61705},
 			expr: &actionExpr{
-				pos: position{line: 1913, col: 5, offset: 61693},
+				pos: position{line: 1913, col: 5, offset: 61740},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1913, col: 5, offset: 61693},
+					pos: position{line: 1913, col: 5, offset: 61740},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92745},
+							pos: position{line: 2939, col: 11, offset: 92792},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92747,
+								line: 2939, col: 13, offset: 92794,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1914, col: 5, offset: 61704},
+							pos: position{line: 1914, col: 5, offset: 61751},
 							expr: &litMatcher{
-								pos:        position{line: 1894, col: 36, offset: 61183},
+								pos:        position{line: 1894, col: 36, offset: 61230},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1915, col: 5, offset: 61741},
+							pos:   position{line: 1915, col: 5, offset: 61788},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1915, col: 14, offset: 61750},
+								pos:  position{line: 1915, col: 14, offset: 61797},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41696,29 +41748,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1940, col: 1, offset: 62430},
+			pos:  position{line: 1940, col: 1, offset: 62477},
 			expr: &actionExpr{
-				pos: position{line: 1941, col: 5, offset: 62458},
+				pos: position{line: 1941, col: 5, offset: 62505},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1941, col: 5, offset: 62458},
+					pos: position{line: 1941, col: 5, offset: 62505},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1924, col: 5, offset: 61984},
+							pos:        position{line: 1924, col: 5, offset: 62031},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1925, col: 5, offset: 61993},
+							pos: position{line: 1925, col: 5, offset: 62040},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1929, col: 5, offset: 62111},
+							pos: position{line: 1929, col: 5, offset: 62158},
 							expr: &notExpr{
-								pos: position{line: 1929, col: 7, offset: 62113},
+								pos: position{line: 1929, col: 7, offset: 62160},
 								expr: &litMatcher{
-									pos:        position{line: 1929, col: 8, offset: 62114},
+									pos:        position{line: 1929, col: 8, offset: 62161},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41726,38 +41778,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1942, col: 5, offset: 62496},
+							pos:   position{line: 1942, col: 5, offset: 62543},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1942, col: 15, offset: 62506},
+								pos:  position{line: 1942, col: 15, offset: 62553},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1932, col: 5, offset: 62234},
+							pos:        position{line: 1932, col: 5, offset: 62281},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1933, col: 5, offset: 62243},
+							pos: position{line: 1933, col: 5, offset: 62290},
 							expr: &litMatcher{
-								pos:        position{line: 1933, col: 6, offset: 62244},
+								pos:        position{line: 1933, col: 6, offset: 62291},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1934, col: 5, offset: 62307},
+							pos: position{line: 1934, col: 5, offset: 62354},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1938, col: 5, offset: 62416},
+							pos: position{line: 1938, col: 5, offset: 62463},
 							expr: &notExpr{
-								pos: position{line: 1938, col: 7, offset: 62418},
+								pos: position{line: 1938, col: 7, offset: 62465},
 								expr: &charClassMatcher{
-									pos:        position{line: 2812, col: 13, offset: 89506},
+									pos:        position{line: 2812, col: 13, offset: 89553},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41771,20 +41823,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1947, col: 1, offset: 62666},
+			pos:  position{line: 1947, col: 1, offset: 62713},
 			expr: &actionExpr{
-				pos: position{line: 1948, col: 5, offset: 62703},
+				pos: position{line: 1948, col: 5, offset: 62750},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1948, col: 5, offset: 62703},
+					pos: position{line: 1948, col: 5, offset: 62750},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1948, col: 5, offset: 62703},
+							pos: position{line: 1948, col: 5, offset: 62750},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92411},
+								pos: position{line: 2922, col: 10, offset: 92458},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92411},
+									pos:        position{line: 2922, col: 10, offset: 92458},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41793,18 +41845,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1949, col: 5, offset: 62742},
+							pos:   position{line: 1949, col: 5, offset: 62789},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1949, col: 14, offset: 62751},
+								pos: position{line: 1949, col: 14, offset: 62798},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1949, col: 15, offset: 62752},
+									pos:  position{line: 1949, col: 15, offset: 62799},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1950, col: 5, offset: 62786},
+							pos: position{line: 1950, col: 5, offset: 62833},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -41813,49 +41865,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1956, col: 1, offset: 62927},
+			pos:  position{line: 1956, col: 1, offset: 62974},
 			expr: &actionExpr{
-				pos: position{line: 1957, col: 5, offset: 62962},
+				pos: position{line: 1957, col: 5, offset: 63009},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1957, col: 5, offset: 62962},
+					pos: position{line: 1957, col: 5, offset: 63009},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92745},
+							pos: position{line: 2939, col: 11, offset: 92792},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92747,
+								line: 2939, col: 13, offset: 92794,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1958, col: 5, offset: 62990},
+							pos: position{line: 1958, col: 5, offset: 63037},
 							expr: &seqExpr{
-								pos: position{line: 1932, col: 5, offset: 62234},
+								pos: position{line: 1932, col: 5, offset: 62281},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1932, col: 5, offset: 62234},
+										pos:        position{line: 1932, col: 5, offset: 62281},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1933, col: 5, offset: 62243},
+										pos: position{line: 1933, col: 5, offset: 62290},
 										expr: &litMatcher{
-											pos:        position{line: 1933, col: 6, offset: 62244},
+											pos:        position{line: 1933, col: 6, offset: 62291},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1934, col: 5, offset: 62307},
+										pos: position{line: 1934, col: 5, offset: 62354},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1938, col: 5, offset: 62416},
+										pos: position{line: 1938, col: 5, offset: 62463},
 										expr: &notExpr{
-											pos: position{line: 1938, col: 7, offset: 62418},
+											pos: position{line: 1938, col: 7, offset: 62465},
 											expr: &charClassMatcher{
-												pos:        position{line: 2812, col: 13, offset: 89506},
+												pos:        position{line: 2812, col: 13, offset: 89553},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41867,10 +41919,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1959, col: 5, offset: 63027},
+							pos:   position{line: 1959, col: 5, offset: 63074},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1959, col: 14, offset: 63036},
+								pos:  position{line: 1959, col: 14, offset: 63083},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41880,35 +41932,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1964, col: 1, offset: 63124},
+			pos:  position{line: 1964, col: 1, offset: 63171},
 			expr: &choiceExpr{
-				pos: position{line: 1966, col: 5, offset: 63185},
+				pos: position{line: 1966, col: 5, offset: 63232},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1966, col: 5, offset: 63185},
+						pos: position{line: 1966, col: 5, offset: 63232},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1966, col: 5, offset: 63185},
+							pos: position{line: 1966, col: 5, offset: 63232},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1966, col: 5, offset: 63185},
+									pos:   position{line: 1966, col: 5, offset: 63232},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1865, col: 25, offset: 60362},
+										pos: position{line: 1865, col: 25, offset: 60409},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1865, col: 25, offset: 60362},
+											pos: position{line: 1865, col: 25, offset: 60409},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1865, col: 25, offset: 60362},
+													pos:        position{line: 1865, col: 25, offset: 60409},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1865, col: 30, offset: 60367},
+													pos: position{line: 1865, col: 30, offset: 60414},
 													expr: &litMatcher{
-														pos:        position{line: 1865, col: 30, offset: 60367},
+														pos:        position{line: 1865, col: 30, offset: 60414},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41919,21 +41971,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1966, col: 40, offset: 63220},
+									pos:        position{line: 1966, col: 40, offset: 63267},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1966, col: 45, offset: 63225},
+									pos:   position{line: 1966, col: 45, offset: 63272},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1966, col: 55, offset: 63235},
+										pos:  position{line: 1966, col: 55, offset: 63282},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1966, col: 84, offset: 63264},
+									pos:        position{line: 1966, col: 84, offset: 63311},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41942,21 +41994,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1970, col: 7, offset: 63428},
+						pos: position{line: 1970, col: 7, offset: 63475},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1970, col: 7, offset: 63428},
+							pos: position{line: 1970, col: 7, offset: 63475},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1970, col: 7, offset: 63428},
+									pos:   position{line: 1970, col: 7, offset: 63475},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60289},
+										pos: position{line: 1861, col: 25, offset: 60336},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60289},
+											pos: position{line: 1861, col: 25, offset: 60336},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60289},
+												pos:        position{line: 1861, col: 25, offset: 60336},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41965,21 +42017,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1970, col: 42, offset: 63463},
+									pos:        position{line: 1970, col: 42, offset: 63510},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1970, col: 47, offset: 63468},
+									pos:   position{line: 1970, col: 47, offset: 63515},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1970, col: 57, offset: 63478},
+										pos:  position{line: 1970, col: 57, offset: 63525},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1970, col: 86, offset: 63507},
+									pos:        position{line: 1970, col: 86, offset: 63554},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41988,21 +42040,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1975, col: 7, offset: 63709},
+						pos: position{line: 1975, col: 7, offset: 63756},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1975, col: 7, offset: 63709},
+							pos: position{line: 1975, col: 7, offset: 63756},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1975, col: 7, offset: 63709},
+									pos:   position{line: 1975, col: 7, offset: 63756},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60289},
+										pos: position{line: 1861, col: 25, offset: 60336},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60289},
+											pos: position{line: 1861, col: 25, offset: 60336},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60289},
+												pos:        position{line: 1861, col: 25, offset: 60336},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42011,21 +42063,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1975, col: 42, offset: 63744},
+									pos:        position{line: 1975, col: 42, offset: 63791},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1975, col: 46, offset: 63748},
+									pos:   position{line: 1975, col: 46, offset: 63795},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1975, col: 56, offset: 63758},
+										pos:  position{line: 1975, col: 56, offset: 63805},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1975, col: 85, offset: 63787},
+									pos:        position{line: 1975, col: 85, offset: 63834},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42038,29 +42090,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1992, col: 1, offset: 64267},
+			pos:  position{line: 1992, col: 1, offset: 64314},
 			expr: &actionExpr{
-				pos: position{line: 1993, col: 5, offset: 64297},
+				pos: position{line: 1993, col: 5, offset: 64344},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1993, col: 5, offset: 64297},
+					pos: position{line: 1993, col: 5, offset: 64344},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1988, col: 40, offset: 64218},
+							pos:        position{line: 1988, col: 40, offset: 64265},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1994, col: 5, offset: 64338},
+							pos:   position{line: 1994, col: 5, offset: 64385},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1994, col: 15, offset: 64348},
+								pos:  position{line: 1994, col: 15, offset: 64395},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1990, col: 38, offset: 64261},
+							pos:        position{line: 1990, col: 38, offset: 64308},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -42071,24 +42123,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1999, col: 1, offset: 64513},
+			pos:  position{line: 1999, col: 1, offset: 64560},
 			expr: &actionExpr{
-				pos: position{line: 2000, col: 5, offset: 64550},
+				pos: position{line: 2000, col: 5, offset: 64597},
 				run: (*parser).callonDoubleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2000, col: 5, offset: 64550},
+					pos: position{line: 2000, col: 5, offset: 64597},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2000, col: 5, offset: 64550},
+							pos: position{line: 2000, col: 5, offset: 64597},
 							run: (*parser).callonDoubleQuoteItalicTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2004, col: 5, offset: 64670},
+							pos:   position{line: 2004, col: 5, offset: 64717},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2004, col: 14, offset: 64679},
+								pos: position{line: 2004, col: 14, offset: 64726},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2004, col: 15, offset: 64680},
+									pos:  position{line: 2004, col: 15, offset: 64727},
 									name: "DoubleQuoteItalicTextElement",
 								},
 							},
@@ -42099,33 +42151,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 2008, col: 1, offset: 64749},
+			pos:  position{line: 2008, col: 1, offset: 64796},
 			expr: &actionExpr{
-				pos: position{line: 2009, col: 5, offset: 64786},
+				pos: position{line: 2009, col: 5, offset: 64833},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2009, col: 5, offset: 64786},
+					pos: position{line: 2009, col: 5, offset: 64833},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92745},
+							pos: position{line: 2939, col: 11, offset: 92792},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92747,
+								line: 2939, col: 13, offset: 92794,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2010, col: 5, offset: 64797},
+							pos: position{line: 2010, col: 5, offset: 64844},
 							expr: &litMatcher{
-								pos:        position{line: 1990, col: 38, offset: 64261},
+								pos:        position{line: 1990, col: 38, offset: 64308},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2011, col: 5, offset: 64836},
+							pos:   position{line: 2011, col: 5, offset: 64883},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2011, col: 14, offset: 64845},
+								pos:  position{line: 2011, col: 14, offset: 64892},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42135,29 +42187,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2037, col: 1, offset: 65529},
+			pos:  position{line: 2037, col: 1, offset: 65576},
 			expr: &actionExpr{
-				pos: position{line: 2038, col: 5, offset: 65559},
+				pos: position{line: 2038, col: 5, offset: 65606},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2038, col: 5, offset: 65559},
+					pos: position{line: 2038, col: 5, offset: 65606},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2020, col: 5, offset: 65087},
+							pos:        position{line: 2020, col: 5, offset: 65134},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2021, col: 5, offset: 65096},
+							pos: position{line: 2021, col: 5, offset: 65143},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2025, col: 5, offset: 65216},
+							pos: position{line: 2025, col: 5, offset: 65263},
 							expr: &notExpr{
-								pos: position{line: 2025, col: 7, offset: 65218},
+								pos: position{line: 2025, col: 7, offset: 65265},
 								expr: &litMatcher{
-									pos:        position{line: 2025, col: 8, offset: 65219},
+									pos:        position{line: 2025, col: 8, offset: 65266},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42165,38 +42217,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2039, col: 5, offset: 65599},
+							pos:   position{line: 2039, col: 5, offset: 65646},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2039, col: 15, offset: 65609},
+								pos:  position{line: 2039, col: 15, offset: 65656},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2029, col: 5, offset: 65329},
+							pos:        position{line: 2029, col: 5, offset: 65376},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2030, col: 5, offset: 65338},
+							pos: position{line: 2030, col: 5, offset: 65385},
 							expr: &litMatcher{
-								pos:        position{line: 2030, col: 6, offset: 65339},
+								pos:        position{line: 2030, col: 6, offset: 65386},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2031, col: 5, offset: 65404},
+							pos: position{line: 2031, col: 5, offset: 65451},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2035, col: 5, offset: 65515},
+							pos: position{line: 2035, col: 5, offset: 65562},
 							expr: &notExpr{
-								pos: position{line: 2035, col: 7, offset: 65517},
+								pos: position{line: 2035, col: 7, offset: 65564},
 								expr: &charClassMatcher{
-									pos:        position{line: 2812, col: 13, offset: 89506},
+									pos:        position{line: 2812, col: 13, offset: 89553},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42210,20 +42262,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2044, col: 1, offset: 65776},
+			pos:  position{line: 2044, col: 1, offset: 65823},
 			expr: &actionExpr{
-				pos: position{line: 2045, col: 5, offset: 65814},
+				pos: position{line: 2045, col: 5, offset: 65861},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2045, col: 5, offset: 65814},
+					pos: position{line: 2045, col: 5, offset: 65861},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2045, col: 5, offset: 65814},
+							pos: position{line: 2045, col: 5, offset: 65861},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92411},
+								pos: position{line: 2922, col: 10, offset: 92458},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92411},
+									pos:        position{line: 2922, col: 10, offset: 92458},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42232,18 +42284,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2046, col: 5, offset: 65853},
+							pos:   position{line: 2046, col: 5, offset: 65900},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2046, col: 14, offset: 65862},
+								pos: position{line: 2046, col: 14, offset: 65909},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2046, col: 15, offset: 65863},
+									pos:  position{line: 2046, col: 15, offset: 65910},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2047, col: 5, offset: 65898},
+							pos: position{line: 2047, col: 5, offset: 65945},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -42252,49 +42304,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2053, col: 1, offset: 66039},
+			pos:  position{line: 2053, col: 1, offset: 66086},
 			expr: &actionExpr{
-				pos: position{line: 2054, col: 5, offset: 66076},
+				pos: position{line: 2054, col: 5, offset: 66123},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2054, col: 5, offset: 66076},
+					pos: position{line: 2054, col: 5, offset: 66123},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92745},
+							pos: position{line: 2939, col: 11, offset: 92792},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92747,
+								line: 2939, col: 13, offset: 92794,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2055, col: 5, offset: 66087},
+							pos: position{line: 2055, col: 5, offset: 66134},
 							expr: &seqExpr{
-								pos: position{line: 2029, col: 5, offset: 65329},
+								pos: position{line: 2029, col: 5, offset: 65376},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2029, col: 5, offset: 65329},
+										pos:        position{line: 2029, col: 5, offset: 65376},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2030, col: 5, offset: 65338},
+										pos: position{line: 2030, col: 5, offset: 65385},
 										expr: &litMatcher{
-											pos:        position{line: 2030, col: 6, offset: 65339},
+											pos:        position{line: 2030, col: 6, offset: 65386},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2031, col: 5, offset: 65404},
+										pos: position{line: 2031, col: 5, offset: 65451},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2035, col: 5, offset: 65515},
+										pos: position{line: 2035, col: 5, offset: 65562},
 										expr: &notExpr{
-											pos: position{line: 2035, col: 7, offset: 65517},
+											pos: position{line: 2035, col: 7, offset: 65564},
 											expr: &charClassMatcher{
-												pos:        position{line: 2812, col: 13, offset: 89506},
+												pos:        position{line: 2812, col: 13, offset: 89553},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42306,10 +42358,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2056, col: 5, offset: 66126},
+							pos:   position{line: 2056, col: 5, offset: 66173},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2056, col: 14, offset: 66135},
+								pos:  position{line: 2056, col: 14, offset: 66182},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42319,35 +42371,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2061, col: 1, offset: 66223},
+			pos:  position{line: 2061, col: 1, offset: 66270},
 			expr: &choiceExpr{
-				pos: position{line: 2063, col: 5, offset: 66288},
+				pos: position{line: 2063, col: 5, offset: 66335},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2063, col: 5, offset: 66288},
+						pos: position{line: 2063, col: 5, offset: 66335},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2063, col: 5, offset: 66288},
+							pos: position{line: 2063, col: 5, offset: 66335},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2063, col: 5, offset: 66288},
+									pos:   position{line: 2063, col: 5, offset: 66335},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1865, col: 25, offset: 60362},
+										pos: position{line: 1865, col: 25, offset: 60409},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1865, col: 25, offset: 60362},
+											pos: position{line: 1865, col: 25, offset: 60409},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1865, col: 25, offset: 60362},
+													pos:        position{line: 1865, col: 25, offset: 60409},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1865, col: 30, offset: 60367},
+													pos: position{line: 1865, col: 30, offset: 60414},
 													expr: &litMatcher{
-														pos:        position{line: 1865, col: 30, offset: 60367},
+														pos:        position{line: 1865, col: 30, offset: 60414},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42358,21 +42410,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2063, col: 40, offset: 66323},
+									pos:        position{line: 2063, col: 40, offset: 66370},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2063, col: 45, offset: 66328},
+									pos:   position{line: 2063, col: 45, offset: 66375},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2063, col: 55, offset: 66338},
+										pos:  position{line: 2063, col: 55, offset: 66385},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2063, col: 86, offset: 66369},
+									pos:        position{line: 2063, col: 86, offset: 66416},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -42381,21 +42433,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2067, col: 7, offset: 66534},
+						pos: position{line: 2067, col: 7, offset: 66581},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2067, col: 7, offset: 66534},
+							pos: position{line: 2067, col: 7, offset: 66581},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2067, col: 7, offset: 66534},
+									pos:   position{line: 2067, col: 7, offset: 66581},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60289},
+										pos: position{line: 1861, col: 25, offset: 60336},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60289},
+											pos: position{line: 1861, col: 25, offset: 60336},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60289},
+												pos:        position{line: 1861, col: 25, offset: 60336},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42404,21 +42456,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2067, col: 42, offset: 66569},
+									pos:        position{line: 2067, col: 42, offset: 66616},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2067, col: 47, offset: 66574},
+									pos:   position{line: 2067, col: 47, offset: 66621},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2067, col: 57, offset: 66584},
+										pos:  position{line: 2067, col: 57, offset: 66631},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2067, col: 88, offset: 66615},
+									pos:        position{line: 2067, col: 88, offset: 66662},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42427,21 +42479,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2072, col: 7, offset: 66856},
+						pos: position{line: 2072, col: 7, offset: 66903},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2072, col: 7, offset: 66856},
+							pos: position{line: 2072, col: 7, offset: 66903},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2072, col: 7, offset: 66856},
+									pos:   position{line: 2072, col: 7, offset: 66903},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60289},
+										pos: position{line: 1861, col: 25, offset: 60336},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60289},
+											pos: position{line: 1861, col: 25, offset: 60336},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60289},
+												pos:        position{line: 1861, col: 25, offset: 60336},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42450,21 +42502,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2072, col: 42, offset: 66891},
+									pos:        position{line: 2072, col: 42, offset: 66938},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2072, col: 46, offset: 66895},
+									pos:   position{line: 2072, col: 46, offset: 66942},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2072, col: 56, offset: 66905},
+										pos:  position{line: 2072, col: 56, offset: 66952},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2072, col: 87, offset: 66936},
+									pos:        position{line: 2072, col: 87, offset: 66983},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42477,29 +42529,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2089, col: 1, offset: 67500},
+			pos:  position{line: 2089, col: 1, offset: 67547},
 			expr: &actionExpr{
-				pos: position{line: 2090, col: 5, offset: 67533},
+				pos: position{line: 2090, col: 5, offset: 67580},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2090, col: 5, offset: 67533},
+					pos: position{line: 2090, col: 5, offset: 67580},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2085, col: 43, offset: 67448},
+							pos:        position{line: 2085, col: 43, offset: 67495},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2091, col: 5, offset: 67577},
+							pos:   position{line: 2091, col: 5, offset: 67624},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2091, col: 15, offset: 67587},
+								pos:  position{line: 2091, col: 15, offset: 67634},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2087, col: 41, offset: 67494},
+							pos:        position{line: 2087, col: 41, offset: 67541},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -42510,24 +42562,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2096, col: 1, offset: 67762},
+			pos:  position{line: 2096, col: 1, offset: 67809},
 			expr: &actionExpr{
-				pos: position{line: 2097, col: 5, offset: 67835},
+				pos: position{line: 2097, col: 5, offset: 67882},
 				run: (*parser).callonDoubleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2097, col: 5, offset: 67835},
+					pos: position{line: 2097, col: 5, offset: 67882},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2097, col: 5, offset: 67835},
+							pos: position{line: 2097, col: 5, offset: 67882},
 							run: (*parser).callonDoubleQuoteMonospaceTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2101, col: 5, offset: 67955},
+							pos:   position{line: 2101, col: 5, offset: 68002},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2101, col: 14, offset: 67964},
+								pos: position{line: 2101, col: 14, offset: 68011},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2101, col: 15, offset: 67965},
+									pos:  position{line: 2101, col: 15, offset: 68012},
 									name: "DoubleQuoteMonospaceTextElement",
 								},
 							},
@@ -42538,33 +42590,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2105, col: 1, offset: 68037},
+			pos:  position{line: 2105, col: 1, offset: 68084},
 			expr: &actionExpr{
-				pos: position{line: 2106, col: 5, offset: 68077},
+				pos: position{line: 2106, col: 5, offset: 68124},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2106, col: 5, offset: 68077},
+					pos: position{line: 2106, col: 5, offset: 68124},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92745},
+							pos: position{line: 2939, col: 11, offset: 92792},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92747,
+								line: 2939, col: 13, offset: 92794,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2107, col: 5, offset: 68088},
+							pos: position{line: 2107, col: 5, offset: 68135},
 							expr: &litMatcher{
-								pos:        position{line: 2087, col: 41, offset: 67494},
+								pos:        position{line: 2087, col: 41, offset: 67541},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2108, col: 5, offset: 68130},
+							pos:   position{line: 2108, col: 5, offset: 68177},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2108, col: 14, offset: 68139},
+								pos:  position{line: 2108, col: 14, offset: 68186},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42574,33 +42626,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2126, col: 1, offset: 68681},
+			pos:  position{line: 2126, col: 1, offset: 68728},
 			expr: &seqExpr{
-				pos: position{line: 2127, col: 5, offset: 68726},
+				pos: position{line: 2127, col: 5, offset: 68773},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2127, col: 5, offset: 68726},
+						pos: position{line: 2127, col: 5, offset: 68773},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2127, col: 6, offset: 68727},
+							pos:  position{line: 2127, col: 6, offset: 68774},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2128, col: 5, offset: 68746},
+						pos:        position{line: 2128, col: 5, offset: 68793},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2129, col: 5, offset: 68754},
+						pos: position{line: 2129, col: 5, offset: 68801},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2133, col: 5, offset: 68868},
+						pos: position{line: 2133, col: 5, offset: 68915},
 						expr: &notExpr{
-							pos: position{line: 2133, col: 7, offset: 68870},
+							pos: position{line: 2133, col: 7, offset: 68917},
 							expr: &charClassMatcher{
-								pos:        position{line: 2812, col: 13, offset: 89506},
+								pos:        position{line: 2812, col: 13, offset: 89553},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42613,29 +42665,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2136, col: 1, offset: 68887},
+			pos:  position{line: 2136, col: 1, offset: 68934},
 			expr: &actionExpr{
-				pos: position{line: 2137, col: 5, offset: 68920},
+				pos: position{line: 2137, col: 5, offset: 68967},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2137, col: 5, offset: 68920},
+					pos: position{line: 2137, col: 5, offset: 68967},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2119, col: 5, offset: 68483},
+							pos:        position{line: 2119, col: 5, offset: 68530},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2120, col: 5, offset: 68492},
+							pos: position{line: 2120, col: 5, offset: 68539},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2124, col: 5, offset: 68615},
+							pos: position{line: 2124, col: 5, offset: 68662},
 							expr: &notExpr{
-								pos: position{line: 2124, col: 7, offset: 68617},
+								pos: position{line: 2124, col: 7, offset: 68664},
 								expr: &litMatcher{
-									pos:        position{line: 2124, col: 8, offset: 68618},
+									pos:        position{line: 2124, col: 8, offset: 68665},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42643,15 +42695,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2138, col: 5, offset: 68964},
+							pos:   position{line: 2138, col: 5, offset: 69011},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2138, col: 15, offset: 68974},
+								pos:  position{line: 2138, col: 15, offset: 69021},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2139, col: 5, offset: 69013},
+							pos:  position{line: 2139, col: 5, offset: 69060},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -42660,20 +42712,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2143, col: 1, offset: 69150},
+			pos:  position{line: 2143, col: 1, offset: 69197},
 			expr: &actionExpr{
-				pos: position{line: 2144, col: 5, offset: 69191},
+				pos: position{line: 2144, col: 5, offset: 69238},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2144, col: 5, offset: 69191},
+					pos: position{line: 2144, col: 5, offset: 69238},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2144, col: 5, offset: 69191},
+							pos: position{line: 2144, col: 5, offset: 69238},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92411},
+								pos: position{line: 2922, col: 10, offset: 92458},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92411},
+									pos:        position{line: 2922, col: 10, offset: 92458},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42682,18 +42734,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2145, col: 5, offset: 69230},
+							pos:   position{line: 2145, col: 5, offset: 69277},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2145, col: 14, offset: 69239},
+								pos: position{line: 2145, col: 14, offset: 69286},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2145, col: 15, offset: 69240},
+									pos:  position{line: 2145, col: 15, offset: 69287},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2146, col: 5, offset: 69278},
+							pos: position{line: 2146, col: 5, offset: 69325},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -42702,31 +42754,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2152, col: 1, offset: 69419},
+			pos:  position{line: 2152, col: 1, offset: 69466},
 			expr: &actionExpr{
-				pos: position{line: 2153, col: 5, offset: 69459},
+				pos: position{line: 2153, col: 5, offset: 69506},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2153, col: 5, offset: 69459},
+					pos: position{line: 2153, col: 5, offset: 69506},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92745},
+							pos: position{line: 2939, col: 11, offset: 92792},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92747,
+								line: 2939, col: 13, offset: 92794,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2154, col: 5, offset: 69470},
+							pos: position{line: 2154, col: 5, offset: 69517},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2154, col: 6, offset: 69471},
+								pos:  position{line: 2154, col: 6, offset: 69518},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2155, col: 5, offset: 69512},
+							pos:   position{line: 2155, col: 5, offset: 69559},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2155, col: 14, offset: 69521},
+								pos:  position{line: 2155, col: 14, offset: 69568},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42736,35 +42788,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2160, col: 1, offset: 69609},
+			pos:  position{line: 2160, col: 1, offset: 69656},
 			expr: &choiceExpr{
-				pos: position{line: 2162, col: 5, offset: 69680},
+				pos: position{line: 2162, col: 5, offset: 69727},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2162, col: 5, offset: 69680},
+						pos: position{line: 2162, col: 5, offset: 69727},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2162, col: 5, offset: 69680},
+							pos: position{line: 2162, col: 5, offset: 69727},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2162, col: 5, offset: 69680},
+									pos:   position{line: 2162, col: 5, offset: 69727},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1865, col: 25, offset: 60362},
+										pos: position{line: 1865, col: 25, offset: 60409},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1865, col: 25, offset: 60362},
+											pos: position{line: 1865, col: 25, offset: 60409},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1865, col: 25, offset: 60362},
+													pos:        position{line: 1865, col: 25, offset: 60409},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1865, col: 30, offset: 60367},
+													pos: position{line: 1865, col: 30, offset: 60414},
 													expr: &litMatcher{
-														pos:        position{line: 1865, col: 30, offset: 60367},
+														pos:        position{line: 1865, col: 30, offset: 60414},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42775,21 +42827,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2162, col: 40, offset: 69715},
+									pos:        position{line: 2162, col: 40, offset: 69762},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2162, col: 45, offset: 69720},
+									pos:   position{line: 2162, col: 45, offset: 69767},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2162, col: 55, offset: 69730},
+										pos:  position{line: 2162, col: 55, offset: 69777},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2162, col: 89, offset: 69764},
+									pos:        position{line: 2162, col: 89, offset: 69811},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -42798,21 +42850,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2166, col: 7, offset: 69933},
+						pos: position{line: 2166, col: 7, offset: 69980},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2166, col: 7, offset: 69933},
+							pos: position{line: 2166, col: 7, offset: 69980},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2166, col: 7, offset: 69933},
+									pos:   position{line: 2166, col: 7, offset: 69980},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60289},
+										pos: position{line: 1861, col: 25, offset: 60336},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60289},
+											pos: position{line: 1861, col: 25, offset: 60336},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60289},
+												pos:        position{line: 1861, col: 25, offset: 60336},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42821,21 +42873,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2166, col: 42, offset: 69968},
+									pos:        position{line: 2166, col: 42, offset: 70015},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2166, col: 47, offset: 69973},
+									pos:   position{line: 2166, col: 47, offset: 70020},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2166, col: 57, offset: 69983},
+										pos:  position{line: 2166, col: 57, offset: 70030},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2166, col: 91, offset: 70017},
+									pos:        position{line: 2166, col: 91, offset: 70064},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42844,21 +42896,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2171, col: 7, offset: 70223},
+						pos: position{line: 2171, col: 7, offset: 70270},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2171, col: 7, offset: 70223},
+							pos: position{line: 2171, col: 7, offset: 70270},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2171, col: 7, offset: 70223},
+									pos:   position{line: 2171, col: 7, offset: 70270},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60289},
+										pos: position{line: 1861, col: 25, offset: 60336},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60289},
+											pos: position{line: 1861, col: 25, offset: 60336},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60289},
+												pos:        position{line: 1861, col: 25, offset: 60336},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42867,21 +42919,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2171, col: 42, offset: 70258},
+									pos:        position{line: 2171, col: 42, offset: 70305},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2171, col: 46, offset: 70262},
+									pos:   position{line: 2171, col: 46, offset: 70309},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2171, col: 56, offset: 70272},
+										pos:  position{line: 2171, col: 56, offset: 70319},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2171, col: 90, offset: 70306},
+									pos:        position{line: 2171, col: 90, offset: 70353},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42894,29 +42946,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2188, col: 1, offset: 70791},
+			pos:  position{line: 2188, col: 1, offset: 70838},
 			expr: &actionExpr{
-				pos: position{line: 2189, col: 5, offset: 70821},
+				pos: position{line: 2189, col: 5, offset: 70868},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2189, col: 5, offset: 70821},
+					pos: position{line: 2189, col: 5, offset: 70868},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2184, col: 40, offset: 70742},
+							pos:        position{line: 2184, col: 40, offset: 70789},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2190, col: 5, offset: 70862},
+							pos:   position{line: 2190, col: 5, offset: 70909},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2190, col: 15, offset: 70872},
+								pos:  position{line: 2190, col: 15, offset: 70919},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2186, col: 38, offset: 70785},
+							pos:        position{line: 2186, col: 38, offset: 70832},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -42927,24 +42979,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2195, col: 1, offset: 71038},
+			pos:  position{line: 2195, col: 1, offset: 71085},
 			expr: &actionExpr{
-				pos: position{line: 2196, col: 5, offset: 71075},
+				pos: position{line: 2196, col: 5, offset: 71122},
 				run: (*parser).callonDoubleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2196, col: 5, offset: 71075},
+					pos: position{line: 2196, col: 5, offset: 71122},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2196, col: 5, offset: 71075},
+							pos: position{line: 2196, col: 5, offset: 71122},
 							run: (*parser).callonDoubleQuoteMarkedTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2200, col: 5, offset: 71195},
+							pos:   position{line: 2200, col: 5, offset: 71242},
 							label: "elements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2200, col: 14, offset: 71204},
+								pos: position{line: 2200, col: 14, offset: 71251},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2200, col: 15, offset: 71205},
+									pos:  position{line: 2200, col: 15, offset: 71252},
 									name: "DoubleQuoteMarkedTextElement",
 								},
 							},
@@ -42955,33 +43007,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2204, col: 1, offset: 71274},
+			pos:  position{line: 2204, col: 1, offset: 71321},
 			expr: &actionExpr{
-				pos: position{line: 2205, col: 5, offset: 71343},
+				pos: position{line: 2205, col: 5, offset: 71390},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2205, col: 5, offset: 71343},
+					pos: position{line: 2205, col: 5, offset: 71390},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92745},
+							pos: position{line: 2939, col: 11, offset: 92792},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92747,
+								line: 2939, col: 13, offset: 92794,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2206, col: 5, offset: 71354},
+							pos: position{line: 2206, col: 5, offset: 71401},
 							expr: &litMatcher{
-								pos:        position{line: 2186, col: 38, offset: 70785},
+								pos:        position{line: 2186, col: 38, offset: 70832},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2207, col: 5, offset: 71393},
+							pos:   position{line: 2207, col: 5, offset: 71440},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2207, col: 14, offset: 71402},
+								pos:  position{line: 2207, col: 14, offset: 71449},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42991,29 +43043,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2232, col: 1, offset: 72084},
+			pos:  position{line: 2232, col: 1, offset: 72131},
 			expr: &actionExpr{
-				pos: position{line: 2233, col: 5, offset: 72114},
+				pos: position{line: 2233, col: 5, offset: 72161},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2233, col: 5, offset: 72114},
+					pos: position{line: 2233, col: 5, offset: 72161},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2216, col: 5, offset: 71650},
+							pos:        position{line: 2216, col: 5, offset: 71697},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2217, col: 5, offset: 71659},
+							pos: position{line: 2217, col: 5, offset: 71706},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2221, col: 5, offset: 71779},
+							pos: position{line: 2221, col: 5, offset: 71826},
 							expr: &notExpr{
-								pos: position{line: 2221, col: 7, offset: 71781},
+								pos: position{line: 2221, col: 7, offset: 71828},
 								expr: &litMatcher{
-									pos:        position{line: 2221, col: 8, offset: 71782},
+									pos:        position{line: 2221, col: 8, offset: 71829},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43021,38 +43073,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2234, col: 5, offset: 72154},
+							pos:   position{line: 2234, col: 5, offset: 72201},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2234, col: 15, offset: 72164},
+								pos:  position{line: 2234, col: 15, offset: 72211},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2224, col: 5, offset: 71887},
+							pos:        position{line: 2224, col: 5, offset: 71934},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2225, col: 5, offset: 71895},
+							pos: position{line: 2225, col: 5, offset: 71942},
 							expr: &litMatcher{
-								pos:        position{line: 2225, col: 6, offset: 71896},
+								pos:        position{line: 2225, col: 6, offset: 71943},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2226, col: 5, offset: 71959},
+							pos: position{line: 2226, col: 5, offset: 72006},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2230, col: 5, offset: 72070},
+							pos: position{line: 2230, col: 5, offset: 72117},
 							expr: &notExpr{
-								pos: position{line: 2230, col: 7, offset: 72072},
+								pos: position{line: 2230, col: 7, offset: 72119},
 								expr: &charClassMatcher{
-									pos:        position{line: 2812, col: 13, offset: 89506},
+									pos:        position{line: 2812, col: 13, offset: 89553},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43066,20 +43118,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2239, col: 1, offset: 72331},
+			pos:  position{line: 2239, col: 1, offset: 72378},
 			expr: &actionExpr{
-				pos: position{line: 2240, col: 5, offset: 72369},
+				pos: position{line: 2240, col: 5, offset: 72416},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2240, col: 5, offset: 72369},
+					pos: position{line: 2240, col: 5, offset: 72416},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2240, col: 5, offset: 72369},
+							pos: position{line: 2240, col: 5, offset: 72416},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92411},
+								pos: position{line: 2922, col: 10, offset: 92458},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92411},
+									pos:        position{line: 2922, col: 10, offset: 92458},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43088,18 +43140,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2241, col: 5, offset: 72408},
+							pos:   position{line: 2241, col: 5, offset: 72455},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2241, col: 14, offset: 72417},
+								pos: position{line: 2241, col: 14, offset: 72464},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2241, col: 15, offset: 72418},
+									pos:  position{line: 2241, col: 15, offset: 72465},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2242, col: 5, offset: 72454},
+							pos: position{line: 2242, col: 5, offset: 72501},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -43108,49 +43160,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2248, col: 1, offset: 72595},
+			pos:  position{line: 2248, col: 1, offset: 72642},
 			expr: &actionExpr{
-				pos: position{line: 2249, col: 5, offset: 72632},
+				pos: position{line: 2249, col: 5, offset: 72679},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2249, col: 5, offset: 72632},
+					pos: position{line: 2249, col: 5, offset: 72679},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92745},
+							pos: position{line: 2939, col: 11, offset: 92792},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92747,
+								line: 2939, col: 13, offset: 92794,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2250, col: 5, offset: 72643},
+							pos: position{line: 2250, col: 5, offset: 72690},
 							expr: &seqExpr{
-								pos: position{line: 2224, col: 5, offset: 71887},
+								pos: position{line: 2224, col: 5, offset: 71934},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2224, col: 5, offset: 71887},
+										pos:        position{line: 2224, col: 5, offset: 71934},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2225, col: 5, offset: 71895},
+										pos: position{line: 2225, col: 5, offset: 71942},
 										expr: &litMatcher{
-											pos:        position{line: 2225, col: 6, offset: 71896},
+											pos:        position{line: 2225, col: 6, offset: 71943},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2226, col: 5, offset: 71959},
+										pos: position{line: 2226, col: 5, offset: 72006},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2230, col: 5, offset: 72070},
+										pos: position{line: 2230, col: 5, offset: 72117},
 										expr: &notExpr{
-											pos: position{line: 2230, col: 7, offset: 72072},
+											pos: position{line: 2230, col: 7, offset: 72119},
 											expr: &charClassMatcher{
-												pos:        position{line: 2812, col: 13, offset: 89506},
+												pos:        position{line: 2812, col: 13, offset: 89553},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43162,10 +43214,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2251, col: 5, offset: 72682},
+							pos:   position{line: 2251, col: 5, offset: 72729},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2251, col: 14, offset: 72691},
+								pos:  position{line: 2251, col: 14, offset: 72738},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43175,35 +43227,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2256, col: 1, offset: 72779},
+			pos:  position{line: 2256, col: 1, offset: 72826},
 			expr: &choiceExpr{
-				pos: position{line: 2258, col: 5, offset: 72843},
+				pos: position{line: 2258, col: 5, offset: 72890},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2258, col: 5, offset: 72843},
+						pos: position{line: 2258, col: 5, offset: 72890},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2258, col: 5, offset: 72843},
+							pos: position{line: 2258, col: 5, offset: 72890},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2258, col: 5, offset: 72843},
+									pos:   position{line: 2258, col: 5, offset: 72890},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1865, col: 25, offset: 60362},
+										pos: position{line: 1865, col: 25, offset: 60409},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1865, col: 25, offset: 60362},
+											pos: position{line: 1865, col: 25, offset: 60409},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1865, col: 25, offset: 60362},
+													pos:        position{line: 1865, col: 25, offset: 60409},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1865, col: 30, offset: 60367},
+													pos: position{line: 1865, col: 30, offset: 60414},
 													expr: &litMatcher{
-														pos:        position{line: 1865, col: 30, offset: 60367},
+														pos:        position{line: 1865, col: 30, offset: 60414},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43214,21 +43266,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2258, col: 40, offset: 72878},
+									pos:        position{line: 2258, col: 40, offset: 72925},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2258, col: 45, offset: 72883},
+									pos:   position{line: 2258, col: 45, offset: 72930},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2258, col: 55, offset: 72893},
+										pos:  position{line: 2258, col: 55, offset: 72940},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2258, col: 86, offset: 72924},
+									pos:        position{line: 2258, col: 86, offset: 72971},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -43237,21 +43289,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2262, col: 7, offset: 73089},
+						pos: position{line: 2262, col: 7, offset: 73136},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2262, col: 7, offset: 73089},
+							pos: position{line: 2262, col: 7, offset: 73136},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2262, col: 7, offset: 73089},
+									pos:   position{line: 2262, col: 7, offset: 73136},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60289},
+										pos: position{line: 1861, col: 25, offset: 60336},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60289},
+											pos: position{line: 1861, col: 25, offset: 60336},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60289},
+												pos:        position{line: 1861, col: 25, offset: 60336},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43260,21 +43312,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2262, col: 42, offset: 73124},
+									pos:        position{line: 2262, col: 42, offset: 73171},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2262, col: 47, offset: 73129},
+									pos:   position{line: 2262, col: 47, offset: 73176},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2262, col: 57, offset: 73139},
+										pos:  position{line: 2262, col: 57, offset: 73186},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2262, col: 88, offset: 73170},
+									pos:        position{line: 2262, col: 88, offset: 73217},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43283,21 +43335,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2267, col: 7, offset: 73373},
+						pos: position{line: 2267, col: 7, offset: 73420},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2267, col: 7, offset: 73373},
+							pos: position{line: 2267, col: 7, offset: 73420},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2267, col: 7, offset: 73373},
+									pos:   position{line: 2267, col: 7, offset: 73420},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60289},
+										pos: position{line: 1861, col: 25, offset: 60336},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60289},
+											pos: position{line: 1861, col: 25, offset: 60336},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60289},
+												pos:        position{line: 1861, col: 25, offset: 60336},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43306,21 +43358,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2267, col: 42, offset: 73408},
+									pos:        position{line: 2267, col: 42, offset: 73455},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2267, col: 46, offset: 73412},
+									pos:   position{line: 2267, col: 46, offset: 73459},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2267, col: 56, offset: 73422},
+										pos:  position{line: 2267, col: 56, offset: 73469},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2267, col: 87, offset: 73453},
+									pos:        position{line: 2267, col: 87, offset: 73500},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43333,29 +43385,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2274, col: 1, offset: 73720},
+			pos:  position{line: 2274, col: 1, offset: 73767},
 			expr: &actionExpr{
-				pos: position{line: 2275, col: 5, offset: 73742},
+				pos: position{line: 2275, col: 5, offset: 73789},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2275, col: 5, offset: 73742},
+					pos: position{line: 2275, col: 5, offset: 73789},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2281, col: 27, offset: 73957},
+							pos:        position{line: 2281, col: 27, offset: 74004},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2276, col: 5, offset: 73769},
+							pos:   position{line: 2276, col: 5, offset: 73816},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2276, col: 14, offset: 73778},
+								pos:  position{line: 2276, col: 14, offset: 73825},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2281, col: 27, offset: 73957},
+							pos:        position{line: 2281, col: 27, offset: 74004},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43366,34 +43418,34 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2283, col: 1, offset: 73962},
+			pos:  position{line: 2283, col: 1, offset: 74009},
 			expr: &actionExpr{
-				pos: position{line: 2284, col: 5, offset: 73990},
+				pos: position{line: 2284, col: 5, offset: 74037},
 				run: (*parser).callonSubscriptTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2284, col: 5, offset: 73990},
+					pos: position{line: 2284, col: 5, offset: 74037},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2284, col: 5, offset: 73990},
+							pos: position{line: 2284, col: 5, offset: 74037},
 							run: (*parser).callonSubscriptTextElement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2288, col: 5, offset: 74110},
+							pos:   position{line: 2288, col: 5, offset: 74157},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2288, col: 14, offset: 74119},
+								pos: position{line: 2288, col: 14, offset: 74166},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2288, col: 14, offset: 74119},
+										pos:  position{line: 2288, col: 14, offset: 74166},
 										name: "QuotedText",
 									},
 									&actionExpr{
-										pos: position{line: 2292, col: 21, offset: 74207},
+										pos: position{line: 2292, col: 21, offset: 74254},
 										run: (*parser).callonSubscriptTextElement7,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2292, col: 21, offset: 74207},
+											pos: position{line: 2292, col: 21, offset: 74254},
 											expr: &charClassMatcher{
-												pos:        position{line: 2292, col: 21, offset: 74207},
+												pos:        position{line: 2292, col: 21, offset: 74254},
 												val:        "[^\\r\\n ~]",
 												chars:      []rune{'\r', '\n', ' ', '~'},
 												ignoreCase: false,
@@ -43410,23 +43462,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2296, col: 1, offset: 74292},
+			pos:  position{line: 2296, col: 1, offset: 74339},
 			expr: &actionExpr{
-				pos: position{line: 2298, col: 5, offset: 74359},
+				pos: position{line: 2298, col: 5, offset: 74406},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2298, col: 5, offset: 74359},
+					pos: position{line: 2298, col: 5, offset: 74406},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2298, col: 5, offset: 74359},
+							pos:   position{line: 2298, col: 5, offset: 74406},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1861, col: 25, offset: 60289},
+								pos: position{line: 1861, col: 25, offset: 60336},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1861, col: 25, offset: 60289},
+									pos: position{line: 1861, col: 25, offset: 60336},
 									expr: &litMatcher{
-										pos:        position{line: 1861, col: 25, offset: 60289},
+										pos:        position{line: 1861, col: 25, offset: 60336},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43435,21 +43487,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2281, col: 27, offset: 73957},
+							pos:        position{line: 2281, col: 27, offset: 74004},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2300, col: 5, offset: 74427},
+							pos:   position{line: 2300, col: 5, offset: 74474},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2300, col: 14, offset: 74436},
+								pos:  position{line: 2300, col: 14, offset: 74483},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2281, col: 27, offset: 73957},
+							pos:        position{line: 2281, col: 27, offset: 74004},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43460,29 +43512,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2308, col: 1, offset: 74699},
+			pos:  position{line: 2308, col: 1, offset: 74746},
 			expr: &actionExpr{
-				pos: position{line: 2309, col: 5, offset: 74723},
+				pos: position{line: 2309, col: 5, offset: 74770},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2309, col: 5, offset: 74723},
+					pos: position{line: 2309, col: 5, offset: 74770},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2315, col: 29, offset: 74950},
+							pos:        position{line: 2315, col: 29, offset: 74997},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2310, col: 5, offset: 74753},
+							pos:   position{line: 2310, col: 5, offset: 74800},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2310, col: 14, offset: 74762},
+								pos:  position{line: 2310, col: 14, offset: 74809},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2315, col: 29, offset: 74950},
+							pos:        position{line: 2315, col: 29, offset: 74997},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43493,34 +43545,34 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2317, col: 1, offset: 74955},
+			pos:  position{line: 2317, col: 1, offset: 75002},
 			expr: &actionExpr{
-				pos: position{line: 2318, col: 5, offset: 74985},
+				pos: position{line: 2318, col: 5, offset: 75032},
 				run: (*parser).callonSuperscriptTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2318, col: 5, offset: 74985},
+					pos: position{line: 2318, col: 5, offset: 75032},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2318, col: 5, offset: 74985},
+							pos: position{line: 2318, col: 5, offset: 75032},
 							run: (*parser).callonSuperscriptTextElement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2322, col: 5, offset: 75105},
+							pos:   position{line: 2322, col: 5, offset: 75152},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2322, col: 14, offset: 75114},
+								pos: position{line: 2322, col: 14, offset: 75161},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2322, col: 14, offset: 75114},
+										pos:  position{line: 2322, col: 14, offset: 75161},
 										name: "QuotedText",
 									},
 									&actionExpr{
-										pos: position{line: 2326, col: 23, offset: 75206},
+										pos: position{line: 2326, col: 23, offset: 75253},
 										run: (*parser).callonSuperscriptTextElement7,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2326, col: 23, offset: 75206},
+											pos: position{line: 2326, col: 23, offset: 75253},
 											expr: &charClassMatcher{
-												pos:        position{line: 2326, col: 23, offset: 75206},
+												pos:        position{line: 2326, col: 23, offset: 75253},
 												val:        "[^\\r\\n ^]",
 												chars:      []rune{'\r', '\n', ' ', '^'},
 												ignoreCase: false,
@@ -43537,23 +43589,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2330, col: 1, offset: 75291},
+			pos:  position{line: 2330, col: 1, offset: 75338},
 			expr: &actionExpr{
-				pos: position{line: 2332, col: 5, offset: 75363},
+				pos: position{line: 2332, col: 5, offset: 75410},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2332, col: 5, offset: 75363},
+					pos: position{line: 2332, col: 5, offset: 75410},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2332, col: 5, offset: 75363},
+							pos:   position{line: 2332, col: 5, offset: 75410},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1861, col: 25, offset: 60289},
+								pos: position{line: 1861, col: 25, offset: 60336},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1861, col: 25, offset: 60289},
+									pos: position{line: 1861, col: 25, offset: 60336},
 									expr: &litMatcher{
-										pos:        position{line: 1861, col: 25, offset: 60289},
+										pos:        position{line: 1861, col: 25, offset: 60336},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43562,21 +43614,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2315, col: 29, offset: 74950},
+							pos:        position{line: 2315, col: 29, offset: 74997},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2334, col: 5, offset: 75433},
+							pos:   position{line: 2334, col: 5, offset: 75480},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2334, col: 14, offset: 75442},
+								pos:  position{line: 2334, col: 14, offset: 75489},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2315, col: 29, offset: 74950},
+							pos:        position{line: 2315, col: 29, offset: 74997},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43587,27 +43639,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2343, col: 1, offset: 75911},
+			pos:  position{line: 2343, col: 1, offset: 75958},
 			expr: &actionExpr{
-				pos: position{line: 2344, col: 5, offset: 75927},
+				pos: position{line: 2344, col: 5, offset: 75974},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2344, col: 5, offset: 75927},
+					pos: position{line: 2344, col: 5, offset: 75974},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2344, col: 5, offset: 75927},
+							pos: position{line: 2344, col: 5, offset: 75974},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2347, col: 5, offset: 75990},
+							pos:   position{line: 2347, col: 5, offset: 76037},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2347, col: 12, offset: 75997},
+								pos: position{line: 2347, col: 12, offset: 76044},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2347, col: 12, offset: 75997},
+									pos: position{line: 2347, col: 12, offset: 76044},
 									expr: &litMatcher{
-										pos:        position{line: 2347, col: 13, offset: 75998},
+										pos:        position{line: 2347, col: 13, offset: 76045},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -43616,16 +43668,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2351, col: 5, offset: 76106},
+							pos: position{line: 2351, col: 5, offset: 76153},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2926, col: 11, offset: 92472},
+							pos: position{line: 2926, col: 11, offset: 92519},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2926, col: 11, offset: 92472},
+								pos: position{line: 2926, col: 11, offset: 92519},
 								expr: &charClassMatcher{
-									pos:        position{line: 2926, col: 11, offset: 92472},
+									pos:        position{line: 2926, col: 11, offset: 92519},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43634,36 +43686,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2355, col: 12, offset: 76265},
+							pos:   position{line: 2355, col: 12, offset: 76312},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2355, col: 19, offset: 76272},
+								pos:  position{line: 2355, col: 19, offset: 76319},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92809},
+							pos: position{line: 2944, col: 8, offset: 92856},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92582},
+									pos: position{line: 2931, col: 12, offset: 92629},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92583},
+										pos: position{line: 2931, col: 13, offset: 92630},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92583},
+												pos:        position{line: 2931, col: 13, offset: 92630},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92590},
+												pos:        position{line: 2931, col: 20, offset: 92637},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92599},
+												pos:        position{line: 2931, col: 29, offset: 92646},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43672,9 +43724,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92759},
+									pos: position{line: 2941, col: 8, offset: 92806},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92760,
+										line: 2941, col: 9, offset: 92807,
 									},
 								},
 							},
@@ -43685,24 +43737,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2359, col: 1, offset: 76368},
+			pos:  position{line: 2359, col: 1, offset: 76415},
 			expr: &actionExpr{
-				pos: position{line: 2360, col: 5, offset: 76389},
+				pos: position{line: 2360, col: 5, offset: 76436},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2360, col: 5, offset: 76389},
+					pos: position{line: 2360, col: 5, offset: 76436},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2360, col: 5, offset: 76389},
+							pos: position{line: 2360, col: 5, offset: 76436},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2366, col: 5, offset: 76580},
+							pos:   position{line: 2366, col: 5, offset: 76627},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2366, col: 14, offset: 76589},
+								pos: position{line: 2366, col: 14, offset: 76636},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2366, col: 15, offset: 76590},
+									pos:  position{line: 2366, col: 15, offset: 76637},
 									name: "SectionTitleElement",
 								},
 							},
@@ -43713,38 +43765,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2370, col: 1, offset: 76671},
+			pos:  position{line: 2370, col: 1, offset: 76718},
 			expr: &actionExpr{
-				pos: position{line: 2371, col: 5, offset: 76698},
+				pos: position{line: 2371, col: 5, offset: 76745},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2371, col: 5, offset: 76698},
+					pos: position{line: 2371, col: 5, offset: 76745},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2371, col: 5, offset: 76698},
+							pos: position{line: 2371, col: 5, offset: 76745},
 							expr: &choiceExpr{
-								pos: position{line: 2944, col: 8, offset: 92809},
+								pos: position{line: 2944, col: 8, offset: 92856},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2931, col: 12, offset: 92582},
+										pos: position{line: 2931, col: 12, offset: 92629},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2931, col: 13, offset: 92583},
+											pos: position{line: 2931, col: 13, offset: 92630},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2931, col: 13, offset: 92583},
+													pos:        position{line: 2931, col: 13, offset: 92630},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 20, offset: 92590},
+													pos:        position{line: 2931, col: 20, offset: 92637},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 29, offset: 92599},
+													pos:        position{line: 2931, col: 29, offset: 92646},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43753,36 +43805,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2941, col: 8, offset: 92759},
+										pos: position{line: 2941, col: 8, offset: 92806},
 										expr: &anyMatcher{
-											line: 2941, col: 9, offset: 92760,
+											line: 2941, col: 9, offset: 92807,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2372, col: 5, offset: 76707},
+							pos:   position{line: 2372, col: 5, offset: 76754},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2373, col: 9, offset: 76725},
+								pos: position{line: 2373, col: 9, offset: 76772},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2821, col: 5, offset: 89653},
+										pos: position{line: 2821, col: 5, offset: 89700},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2821, col: 5, offset: 89653},
+											pos: position{line: 2821, col: 5, offset: 89700},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2821, col: 5, offset: 89653},
+													pos:   position{line: 2821, col: 5, offset: 89700},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2821, col: 11, offset: 89659},
+														pos: position{line: 2821, col: 11, offset: 89706},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2821, col: 11, offset: 89659},
+															pos: position{line: 2821, col: 11, offset: 89706},
 															expr: &charClassMatcher{
-																pos:        position{line: 2821, col: 11, offset: 89659},
+																pos:        position{line: 2821, col: 11, offset: 89706},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43792,36 +43844,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2824, col: 5, offset: 89717},
+													pos: position{line: 2824, col: 5, offset: 89764},
 													expr: &seqExpr{
-														pos: position{line: 2825, col: 9, offset: 89728},
+														pos: position{line: 2825, col: 9, offset: 89775},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2825, col: 9, offset: 89728},
+																pos:        position{line: 2825, col: 9, offset: 89775},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2826, col: 9, offset: 89777},
+																pos: position{line: 2826, col: 9, offset: 89824},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2830, col: 5, offset: 89857},
+													pos: position{line: 2830, col: 5, offset: 89904},
 													expr: &seqExpr{
-														pos: position{line: 2831, col: 9, offset: 89868},
+														pos: position{line: 2831, col: 9, offset: 89915},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2831, col: 9, offset: 89868},
+																pos:        position{line: 2831, col: 9, offset: 89915},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2831, col: 13, offset: 89872},
+																pos:        position{line: 2831, col: 13, offset: 89919},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43834,12 +43886,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2926, col: 11, offset: 92472},
+										pos: position{line: 2926, col: 11, offset: 92519},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2926, col: 11, offset: 92472},
+											pos: position{line: 2926, col: 11, offset: 92519},
 											expr: &charClassMatcher{
-												pos:        position{line: 2926, col: 11, offset: 92472},
+												pos:        position{line: 2926, col: 11, offset: 92519},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43848,21 +43900,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2543, col: 5, offset: 81934},
+										pos: position{line: 2543, col: 5, offset: 81981},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2543, col: 5, offset: 81934},
+											pos: position{line: 2543, col: 5, offset: 81981},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2543, col: 5, offset: 81934},
+													pos:        position{line: 2543, col: 5, offset: 81981},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2543, col: 10, offset: 81939},
+													pos: position{line: 2543, col: 10, offset: 81986},
 													expr: &charClassMatcher{
-														pos:        position{line: 2543, col: 11, offset: 81940},
+														pos:        position{line: 2543, col: 11, offset: 81987},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43873,29 +43925,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2549, col: 5, offset: 82132},
+										pos: position{line: 2549, col: 5, offset: 82179},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2549, col: 5, offset: 82132},
+											pos: position{line: 2549, col: 5, offset: 82179},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2549, col: 5, offset: 82132},
+													pos: position{line: 2549, col: 5, offset: 82179},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2552, col: 5, offset: 82203},
+													pos: position{line: 2552, col: 5, offset: 82250},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2556, col: 5, offset: 82328},
+													pos:        position{line: 2556, col: 5, offset: 82375},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2556, col: 9, offset: 82332},
+													pos: position{line: 2556, col: 9, offset: 82379},
 													expr: &charClassMatcher{
-														pos:        position{line: 2556, col: 10, offset: 82333},
+														pos:        position{line: 2556, col: 10, offset: 82380},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43906,31 +43958,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2376, col: 11, offset: 76790},
+										pos:  position{line: 2376, col: 11, offset: 76837},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2839, col: 5, offset: 90065},
+										pos: position{line: 2839, col: 5, offset: 90112},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2840, col: 9, offset: 90075},
+											pos: position{line: 2840, col: 9, offset: 90122},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2840, col: 10, offset: 90076},
+													pos:        position{line: 2840, col: 10, offset: 90123},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2842, col: 13, offset: 90173},
+													pos: position{line: 2842, col: 13, offset: 90220},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2842, col: 13, offset: 90173},
+															pos: position{line: 2842, col: 13, offset: 90220},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2845, col: 13, offset: 90273},
+															pos:        position{line: 2845, col: 13, offset: 90320},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43938,20 +43990,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2845, col: 19, offset: 90279},
+													pos:        position{line: 2845, col: 19, offset: 90326},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2848, col: 13, offset: 90317},
+													pos: position{line: 2848, col: 13, offset: 90364},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2848, col: 13, offset: 90317},
+															pos: position{line: 2848, col: 13, offset: 90364},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2851, col: 14, offset: 90410},
+															pos:        position{line: 2851, col: 14, offset: 90457},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -43960,18 +44012,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2853, col: 12, offset: 90454},
+													pos: position{line: 2853, col: 12, offset: 90501},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2853, col: 12, offset: 90454},
+															pos:        position{line: 2853, col: 12, offset: 90501},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2853, col: 16, offset: 90458},
+															pos: position{line: 2853, col: 16, offset: 90505},
 															expr: &litMatcher{
-																pos:        position{line: 2853, col: 17, offset: 90459},
+																pos:        position{line: 2853, col: 17, offset: 90506},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -43983,35 +44035,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2378, col: 11, offset: 76863},
+										pos:  position{line: 2378, col: 11, offset: 76910},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2379, col: 11, offset: 76879},
+										pos:  position{line: 2379, col: 11, offset: 76926},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2380, col: 11, offset: 76907},
+										pos:  position{line: 2380, col: 11, offset: 76954},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 5, offset: 80735},
+										pos: position{line: 2512, col: 5, offset: 80782},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 5, offset: 80735},
+											pos: position{line: 2512, col: 5, offset: 80782},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 80735},
+													pos: position{line: 2512, col: 5, offset: 80782},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 5, offset: 80811},
+													pos:   position{line: 2515, col: 5, offset: 80858},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2516, col: 9, offset: 80829},
+														pos: position{line: 2516, col: 9, offset: 80876},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2516, col: 10, offset: 80830},
+															pos:        position{line: 2516, col: 10, offset: 80877},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -44023,7 +44075,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2382, col: 11, offset: 76992},
+										pos:  position{line: 2382, col: 11, offset: 77039},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -44408,25 +44460,29 @@ var g = &grammar{
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
+												&andCodeExpr{
+													pos: position{line: 1211, col: 123, offset: 37756},
+													run: (*parser).callonSectionTitleElement145,
+												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2395, col: 5, offset: 77445},
-										run: (*parser).callonSectionTitleElement145,
+										pos: position{line: 2395, col: 5, offset: 77492},
+										run: (*parser).callonSectionTitleElement146,
 										expr: &seqExpr{
-											pos: position{line: 2395, col: 5, offset: 77445},
+											pos: position{line: 2395, col: 5, offset: 77492},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2395, col: 5, offset: 77445},
-													run: (*parser).callonSectionTitleElement147,
+													pos: position{line: 2395, col: 5, offset: 77492},
+													run: (*parser).callonSectionTitleElement148,
 												},
 												&labeledExpr{
-													pos:   position{line: 2398, col: 5, offset: 77500},
+													pos:   position{line: 2398, col: 5, offset: 77547},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 406, col: 5, offset: 12507},
-														run: (*parser).callonSectionTitleElement149,
+														run: (*parser).callonSectionTitleElement150,
 														expr: &seqExpr{
 															pos: position{line: 406, col: 5, offset: 12507},
 															exprs: []interface{}{
@@ -44441,7 +44497,7 @@ var g = &grammar{
 																	label: "id",
 																	expr: &actionExpr{
 																		pos: position{line: 408, col: 9, offset: 12530},
-																		run: (*parser).callonSectionTitleElement153,
+																		run: (*parser).callonSectionTitleElement154,
 																		expr: &labeledExpr{
 																			pos:   position{line: 408, col: 9, offset: 12530},
 																			label: "elements",
@@ -44452,7 +44508,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 409, col: 14, offset: 12554},
-																							run: (*parser).callonSectionTitleElement157,
+																							run: (*parser).callonSectionTitleElement158,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 409, col: 14, offset: 12554},
 																								expr: &charClassMatcher{
@@ -44466,7 +44522,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 1211, col: 23, offset: 37656},
-																							run: (*parser).callonSectionTitleElement160,
+																							run: (*parser).callonSectionTitleElement161,
 																							expr: &seqExpr{
 																								pos: position{line: 1211, col: 23, offset: 37656},
 																								exprs: []interface{}{
@@ -44481,7 +44537,7 @@ var g = &grammar{
 																										label: "ref",
 																										expr: &actionExpr{
 																											pos: position{line: 1211, col: 56, offset: 37689},
-																											run: (*parser).callonSectionTitleElement164,
+																											run: (*parser).callonSectionTitleElement165,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 1211, col: 56, offset: 37689},
 																												expr: &charClassMatcher{
@@ -44500,18 +44556,22 @@ var g = &grammar{
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
+																									&andCodeExpr{
+																										pos: position{line: 1211, col: 123, offset: 37756},
+																										run: (*parser).callonSectionTitleElement169,
+																									},
 																								},
 																							},
 																						},
 																						&actionExpr{
 																							pos: position{line: 649, col: 5, offset: 20791},
-																							run: (*parser).callonSectionTitleElement168,
+																							run: (*parser).callonSectionTitleElement170,
 																							expr: &seqExpr{
 																								pos: position{line: 649, col: 5, offset: 20791},
 																								exprs: []interface{}{
 																									&andCodeExpr{
 																										pos: position{line: 649, col: 5, offset: 20791},
-																										run: (*parser).callonSectionTitleElement170,
+																										run: (*parser).callonSectionTitleElement172,
 																									},
 																									&labeledExpr{
 																										pos:   position{line: 652, col: 5, offset: 20863},
@@ -44521,7 +44581,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 658, col: 5, offset: 21001},
-																													run: (*parser).callonSectionTitleElement173,
+																													run: (*parser).callonSectionTitleElement175,
 																													expr: &seqExpr{
 																														pos: position{line: 658, col: 5, offset: 21001},
 																														exprs: []interface{}{
@@ -44536,7 +44596,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
-																																	run: (*parser).callonSectionTitleElement177,
+																																	run: (*parser).callonSectionTitleElement179,
 																																	expr: &seqExpr{
 																																		pos: position{line: 320, col: 18, offset: 9837},
 																																		exprs: []interface{}{
@@ -44574,7 +44634,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 665, col: 5, offset: 21269},
-																													run: (*parser).callonSectionTitleElement183,
+																													run: (*parser).callonSectionTitleElement185,
 																													expr: &seqExpr{
 																														pos: position{line: 665, col: 5, offset: 21269},
 																														exprs: []interface{}{
@@ -44589,7 +44649,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
-																																	run: (*parser).callonSectionTitleElement187,
+																																	run: (*parser).callonSectionTitleElement189,
 																																	expr: &seqExpr{
 																																		pos: position{line: 320, col: 18, offset: 9837},
 																																		exprs: []interface{}{
@@ -44627,7 +44687,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 671, col: 25, offset: 21473},
-																													run: (*parser).callonSectionTitleElement193,
+																													run: (*parser).callonSectionTitleElement195,
 																													expr: &seqExpr{
 																														pos: position{line: 671, col: 25, offset: 21473},
 																														exprs: []interface{}{
@@ -44642,7 +44702,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
-																																	run: (*parser).callonSectionTitleElement197,
+																																	run: (*parser).callonSectionTitleElement199,
 																																	expr: &seqExpr{
 																																		pos: position{line: 320, col: 18, offset: 9837},
 																																		exprs: []interface{}{
@@ -44676,7 +44736,7 @@ var g = &grammar{
 																																	pos: position{line: 671, col: 62, offset: 21510},
 																																	expr: &actionExpr{
 																																		pos: position{line: 679, col: 17, offset: 21807},
-																																		run: (*parser).callonSectionTitleElement204,
+																																		run: (*parser).callonSectionTitleElement206,
 																																		expr: &seqExpr{
 																																			pos: position{line: 679, col: 17, offset: 21807},
 																																			exprs: []interface{}{
@@ -44694,7 +44754,7 @@ var g = &grammar{
 																																						alternatives: []interface{}{
 																																							&actionExpr{
 																																								pos: position{line: 679, col: 28, offset: 21818},
-																																								run: (*parser).callonSectionTitleElement209,
+																																								run: (*parser).callonSectionTitleElement211,
 																																								expr: &charClassMatcher{
 																																									pos:        position{line: 679, col: 28, offset: 21818},
 																																									val:        "[A-Za-z]",
@@ -44705,7 +44765,7 @@ var g = &grammar{
 																																							},
 																																							&actionExpr{
 																																								pos: position{line: 681, col: 9, offset: 21872},
-																																								run: (*parser).callonSectionTitleElement211,
+																																								run: (*parser).callonSectionTitleElement213,
 																																								expr: &oneOrMoreExpr{
 																																									pos: position{line: 681, col: 9, offset: 21872},
 																																									expr: &charClassMatcher{
@@ -44736,7 +44796,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 675, col: 25, offset: 21644},
-																													run: (*parser).callonSectionTitleElement215,
+																													run: (*parser).callonSectionTitleElement217,
 																													expr: &seqExpr{
 																														pos: position{line: 675, col: 25, offset: 21644},
 																														exprs: []interface{}{
@@ -44751,7 +44811,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
-																																	run: (*parser).callonSectionTitleElement219,
+																																	run: (*parser).callonSectionTitleElement221,
 																																	expr: &seqExpr{
 																																		pos: position{line: 320, col: 18, offset: 9837},
 																																		exprs: []interface{}{
@@ -44785,7 +44845,7 @@ var g = &grammar{
 																																	pos: position{line: 675, col: 63, offset: 21682},
 																																	expr: &actionExpr{
 																																		pos: position{line: 679, col: 17, offset: 21807},
-																																		run: (*parser).callonSectionTitleElement226,
+																																		run: (*parser).callonSectionTitleElement228,
 																																		expr: &seqExpr{
 																																			pos: position{line: 679, col: 17, offset: 21807},
 																																			exprs: []interface{}{
@@ -44803,7 +44863,7 @@ var g = &grammar{
 																																						alternatives: []interface{}{
 																																							&actionExpr{
 																																								pos: position{line: 679, col: 28, offset: 21818},
-																																								run: (*parser).callonSectionTitleElement231,
+																																								run: (*parser).callonSectionTitleElement233,
 																																								expr: &charClassMatcher{
 																																									pos:        position{line: 679, col: 28, offset: 21818},
 																																									val:        "[A-Za-z]",
@@ -44814,7 +44874,7 @@ var g = &grammar{
 																																							},
 																																							&actionExpr{
 																																								pos: position{line: 681, col: 9, offset: 21872},
-																																								run: (*parser).callonSectionTitleElement233,
+																																								run: (*parser).callonSectionTitleElement235,
 																																								expr: &oneOrMoreExpr{
 																																									pos: position{line: 681, col: 9, offset: 21872},
 																																									expr: &charClassMatcher{
@@ -44851,7 +44911,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 414, col: 16, offset: 12787},
-																							run: (*parser).callonSectionTitleElement237,
+																							run: (*parser).callonSectionTitleElement239,
 																							expr: &litMatcher{
 																								pos:        position{line: 414, col: 16, offset: 12787},
 																								val:        "{",
@@ -44876,12 +44936,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2398, col: 26, offset: 77521},
+													pos: position{line: 2398, col: 26, offset: 77568},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92411},
-														run: (*parser).callonSectionTitleElement241,
+														pos: position{line: 2922, col: 10, offset: 92458},
+														run: (*parser).callonSectionTitleElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92411},
+															pos:        position{line: 2922, col: 10, offset: 92458},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44890,30 +44950,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2398, col: 33, offset: 77528},
+													pos: position{line: 2398, col: 33, offset: 77575},
 													expr: &choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92809},
+														pos: position{line: 2944, col: 8, offset: 92856},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92582},
-																run: (*parser).callonSectionTitleElement245,
+																pos: position{line: 2931, col: 12, offset: 92629},
+																run: (*parser).callonSectionTitleElement247,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92583},
+																	pos: position{line: 2931, col: 13, offset: 92630},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92583},
+																			pos:        position{line: 2931, col: 13, offset: 92630},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92590},
+																			pos:        position{line: 2931, col: 20, offset: 92637},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92599},
+																			pos:        position{line: 2931, col: 29, offset: 92646},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44922,9 +44982,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92759},
+																pos: position{line: 2941, col: 8, offset: 92806},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92760,
+																	line: 2941, col: 9, offset: 92807,
 																},
 															},
 														},
@@ -44934,27 +44994,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1266, col: 5, offset: 39416},
-										run: (*parser).callonSectionTitleElement252,
+										pos: position{line: 1266, col: 5, offset: 39463},
+										run: (*parser).callonSectionTitleElement254,
 										expr: &seqExpr{
-											pos: position{line: 1266, col: 5, offset: 39416},
+											pos: position{line: 1266, col: 5, offset: 39463},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1266, col: 5, offset: 39416},
+													pos:        position{line: 1266, col: 5, offset: 39463},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1266, col: 14, offset: 39425},
+													pos:   position{line: 1266, col: 14, offset: 39472},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 7, offset: 92063},
-														run: (*parser).callonSectionTitleElement256,
+														pos: position{line: 2907, col: 7, offset: 92110},
+														run: (*parser).callonSectionTitleElement258,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2907, col: 7, offset: 92063},
+															pos: position{line: 2907, col: 7, offset: 92110},
 															expr: &charClassMatcher{
-																pos:        position{line: 2907, col: 7, offset: 92063},
+																pos:        position{line: 2907, col: 7, offset: 92110},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -44964,7 +45024,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1266, col: 22, offset: 39433},
+													pos:        position{line: 1266, col: 22, offset: 39480},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44973,27 +45033,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1271, col: 5, offset: 39552},
-										run: (*parser).callonSectionTitleElement260,
+										pos: position{line: 1271, col: 5, offset: 39599},
+										run: (*parser).callonSectionTitleElement262,
 										expr: &seqExpr{
-											pos: position{line: 1271, col: 5, offset: 39552},
+											pos: position{line: 1271, col: 5, offset: 39599},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1271, col: 5, offset: 39552},
+													pos:        position{line: 1271, col: 5, offset: 39599},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1271, col: 10, offset: 39557},
+													pos:   position{line: 1271, col: 10, offset: 39604},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 7, offset: 92063},
-														run: (*parser).callonSectionTitleElement264,
+														pos: position{line: 2907, col: 7, offset: 92110},
+														run: (*parser).callonSectionTitleElement266,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2907, col: 7, offset: 92063},
+															pos: position{line: 2907, col: 7, offset: 92110},
 															expr: &charClassMatcher{
-																pos:        position{line: 2907, col: 7, offset: 92063},
+																pos:        position{line: 2907, col: 7, offset: 92110},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45003,7 +45063,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1271, col: 18, offset: 39565},
+													pos:        position{line: 1271, col: 18, offset: 39612},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45012,14 +45072,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2387, col: 11, offset: 77246},
+										pos:  position{line: 2387, col: 11, offset: 77293},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90719},
-										run: (*parser).callonSectionTitleElement269,
+										pos: position{line: 2861, col: 12, offset: 90766},
+										run: (*parser).callonSectionTitleElement271,
 										expr: &charClassMatcher{
-											pos:        position{line: 2861, col: 12, offset: 90719},
+											pos:        position{line: 2861, col: 12, offset: 90766},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45035,52 +45095,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2408, col: 1, offset: 77790},
+			pos:  position{line: 2408, col: 1, offset: 77837},
 			expr: &actionExpr{
-				pos: position{line: 2409, col: 5, offset: 77877},
+				pos: position{line: 2409, col: 5, offset: 77924},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2409, col: 5, offset: 77877},
+					pos: position{line: 2409, col: 5, offset: 77924},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2409, col: 5, offset: 77877},
+							pos:   position{line: 2409, col: 5, offset: 77924},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2409, col: 14, offset: 77886},
+								pos: position{line: 2409, col: 14, offset: 77933},
 								expr: &actionExpr{
-									pos: position{line: 2411, col: 9, offset: 77912},
+									pos: position{line: 2411, col: 9, offset: 77959},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2411, col: 9, offset: 77912},
+										pos: position{line: 2411, col: 9, offset: 77959},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2939, col: 11, offset: 92745},
+												pos: position{line: 2939, col: 11, offset: 92792},
 												expr: &anyMatcher{
-													line: 2939, col: 13, offset: 92747,
+													line: 2939, col: 13, offset: 92794,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2412, col: 9, offset: 77927},
+												pos:   position{line: 2412, col: 9, offset: 77974},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2413, col: 13, offset: 77949},
+													pos: position{line: 2413, col: 13, offset: 77996},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2821, col: 5, offset: 89653},
+															pos: position{line: 2821, col: 5, offset: 89700},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2821, col: 5, offset: 89653},
+																pos: position{line: 2821, col: 5, offset: 89700},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2821, col: 5, offset: 89653},
+																		pos:   position{line: 2821, col: 5, offset: 89700},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2821, col: 11, offset: 89659},
+																			pos: position{line: 2821, col: 11, offset: 89706},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2821, col: 11, offset: 89659},
+																				pos: position{line: 2821, col: 11, offset: 89706},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2821, col: 11, offset: 89659},
+																					pos:        position{line: 2821, col: 11, offset: 89706},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45090,36 +45150,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2824, col: 5, offset: 89717},
+																		pos: position{line: 2824, col: 5, offset: 89764},
 																		expr: &seqExpr{
-																			pos: position{line: 2825, col: 9, offset: 89728},
+																			pos: position{line: 2825, col: 9, offset: 89775},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2825, col: 9, offset: 89728},
+																					pos:        position{line: 2825, col: 9, offset: 89775},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2826, col: 9, offset: 89777},
+																					pos: position{line: 2826, col: 9, offset: 89824},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2830, col: 5, offset: 89857},
+																		pos: position{line: 2830, col: 5, offset: 89904},
 																		expr: &seqExpr{
-																			pos: position{line: 2831, col: 9, offset: 89868},
+																			pos: position{line: 2831, col: 9, offset: 89915},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2831, col: 9, offset: 89868},
+																					pos:        position{line: 2831, col: 9, offset: 89915},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2831, col: 13, offset: 89872},
+																					pos:        position{line: 2831, col: 13, offset: 89919},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45132,12 +45192,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2926, col: 11, offset: 92472},
+															pos: position{line: 2926, col: 11, offset: 92519},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2926, col: 11, offset: 92472},
+																pos: position{line: 2926, col: 11, offset: 92519},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2926, col: 11, offset: 92472},
+																	pos:        position{line: 2926, col: 11, offset: 92519},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45146,25 +45206,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2415, col: 15, offset: 77995},
+															pos:  position{line: 2415, col: 15, offset: 78042},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2543, col: 5, offset: 81934},
+															pos: position{line: 2543, col: 5, offset: 81981},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2543, col: 5, offset: 81934},
+																pos: position{line: 2543, col: 5, offset: 81981},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2543, col: 5, offset: 81934},
+																		pos:        position{line: 2543, col: 5, offset: 81981},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2543, col: 10, offset: 81939},
+																		pos: position{line: 2543, col: 10, offset: 81986},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2543, col: 11, offset: 81940},
+																			pos:        position{line: 2543, col: 11, offset: 81987},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45175,29 +45235,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2549, col: 5, offset: 82132},
+															pos: position{line: 2549, col: 5, offset: 82179},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2549, col: 5, offset: 82132},
+																pos: position{line: 2549, col: 5, offset: 82179},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2549, col: 5, offset: 82132},
+																		pos: position{line: 2549, col: 5, offset: 82179},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2552, col: 5, offset: 82203},
+																		pos: position{line: 2552, col: 5, offset: 82250},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2556, col: 5, offset: 82328},
+																		pos:        position{line: 2556, col: 5, offset: 82375},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2556, col: 9, offset: 82332},
+																		pos: position{line: 2556, col: 9, offset: 82379},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2556, col: 10, offset: 82333},
+																			pos:        position{line: 2556, col: 10, offset: 82380},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45208,27 +45268,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2839, col: 5, offset: 90065},
+															pos: position{line: 2839, col: 5, offset: 90112},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2840, col: 9, offset: 90075},
+																pos: position{line: 2840, col: 9, offset: 90122},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2840, col: 10, offset: 90076},
+																		pos:        position{line: 2840, col: 10, offset: 90123},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2842, col: 13, offset: 90173},
+																		pos: position{line: 2842, col: 13, offset: 90220},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2842, col: 13, offset: 90173},
+																				pos: position{line: 2842, col: 13, offset: 90220},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2845, col: 13, offset: 90273},
+																				pos:        position{line: 2845, col: 13, offset: 90320},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45236,20 +45296,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2845, col: 19, offset: 90279},
+																		pos:        position{line: 2845, col: 19, offset: 90326},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2848, col: 13, offset: 90317},
+																		pos: position{line: 2848, col: 13, offset: 90364},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2848, col: 13, offset: 90317},
+																				pos: position{line: 2848, col: 13, offset: 90364},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2851, col: 14, offset: 90410},
+																				pos:        position{line: 2851, col: 14, offset: 90457},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45258,18 +45318,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2853, col: 12, offset: 90454},
+																		pos: position{line: 2853, col: 12, offset: 90501},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2853, col: 12, offset: 90454},
+																				pos:        position{line: 2853, col: 12, offset: 90501},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2853, col: 16, offset: 90458},
+																				pos: position{line: 2853, col: 16, offset: 90505},
 																				expr: &litMatcher{
-																					pos:        position{line: 2853, col: 17, offset: 90459},
+																					pos:        position{line: 2853, col: 17, offset: 90506},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45281,25 +45341,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92582},
+															pos: position{line: 2931, col: 12, offset: 92629},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92583},
+																pos: position{line: 2931, col: 13, offset: 92630},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92583},
+																		pos:        position{line: 2931, col: 13, offset: 92630},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92590},
+																		pos:        position{line: 2931, col: 20, offset: 92637},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92599},
+																		pos:        position{line: 2931, col: 29, offset: 92646},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45654,35 +45714,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2420, col: 15, offset: 78162},
+															pos:  position{line: 2420, col: 15, offset: 78209},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2421, col: 15, offset: 78182},
+															pos:  position{line: 2421, col: 15, offset: 78229},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2422, col: 15, offset: 78271},
+															pos:  position{line: 2422, col: 15, offset: 78318},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2512, col: 5, offset: 80735},
+															pos: position{line: 2512, col: 5, offset: 80782},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2512, col: 5, offset: 80735},
+																pos: position{line: 2512, col: 5, offset: 80782},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2512, col: 5, offset: 80735},
+																		pos: position{line: 2512, col: 5, offset: 80782},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2515, col: 5, offset: 80811},
+																		pos:   position{line: 2515, col: 5, offset: 80858},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2516, col: 9, offset: 80829},
+																			pos: position{line: 2516, col: 9, offset: 80876},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2516, col: 10, offset: 80830},
+																				pos:        position{line: 2516, col: 10, offset: 80877},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -45694,32 +45754,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1219, col: 5, offset: 38102},
+															pos: position{line: 1219, col: 5, offset: 38149},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 1219, col: 5, offset: 38102},
+																pos: position{line: 1219, col: 5, offset: 38149},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1219, col: 5, offset: 38102},
+																		pos: position{line: 1219, col: 5, offset: 38149},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1222, col: 5, offset: 38178},
+																		pos:        position{line: 1222, col: 5, offset: 38225},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1223, col: 5, offset: 38186},
+																		pos: position{line: 1223, col: 5, offset: 38233},
 																		run: (*parser).callonNormalGroup142,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1227, col: 5, offset: 38273},
+																		pos: position{line: 1227, col: 5, offset: 38320},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92411},
+																			pos: position{line: 2922, col: 10, offset: 92458},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92411},
+																				pos:        position{line: 2922, col: 10, offset: 92458},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45728,30 +45788,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1227, col: 12, offset: 38280},
+																		pos: position{line: 1227, col: 12, offset: 38327},
 																		expr: &choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92809},
+																			pos: position{line: 2944, col: 8, offset: 92856},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92582},
+																					pos: position{line: 2931, col: 12, offset: 92629},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92583},
+																						pos: position{line: 2931, col: 13, offset: 92630},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92583},
+																								pos:        position{line: 2931, col: 13, offset: 92630},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92590},
+																								pos:        position{line: 2931, col: 20, offset: 92637},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92599},
+																								pos:        position{line: 2931, col: 29, offset: 92646},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45760,9 +45820,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92759},
+																					pos: position{line: 2941, col: 8, offset: 92806},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92760,
+																						line: 2941, col: 9, offset: 92807,
 																					},
 																				},
 																			},
@@ -45772,7 +45832,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2425, col: 15, offset: 78453},
+															pos:  position{line: 2425, col: 15, offset: 78500},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -45811,14 +45871,18 @@ var g = &grammar{
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
+																	&andCodeExpr{
+																		pos: position{line: 1211, col: 123, offset: 37756},
+																		run: (*parser).callonNormalGroup164,
+																	},
 																},
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90719},
-															run: (*parser).callonNormalGroup164,
+															pos: position{line: 2861, col: 12, offset: 90766},
+															run: (*parser).callonNormalGroup165,
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 12, offset: 90719},
+																pos:        position{line: 2861, col: 12, offset: 90766},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45834,9 +45898,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92759},
+							pos: position{line: 2941, col: 8, offset: 92806},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92760,
+								line: 2941, col: 9, offset: 92807,
 							},
 						},
 					},
@@ -45845,28 +45909,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2436, col: 1, offset: 78891},
+			pos:  position{line: 2436, col: 1, offset: 78938},
 			expr: &actionExpr{
-				pos: position{line: 2437, col: 5, offset: 78924},
+				pos: position{line: 2437, col: 5, offset: 78971},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2437, col: 5, offset: 78924},
+					pos: position{line: 2437, col: 5, offset: 78971},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2437, col: 5, offset: 78924},
+							pos:   position{line: 2437, col: 5, offset: 78971},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2437, col: 14, offset: 78933},
+								pos: position{line: 2437, col: 14, offset: 78980},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2437, col: 15, offset: 78934},
+									pos:  position{line: 2437, col: 15, offset: 78981},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92759},
+							pos: position{line: 2941, col: 8, offset: 92806},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92760,
+								line: 2941, col: 9, offset: 92807,
 							},
 						},
 					},
@@ -45875,41 +45939,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2441, col: 1, offset: 79031},
+			pos:  position{line: 2441, col: 1, offset: 79078},
 			expr: &actionExpr{
-				pos: position{line: 2442, col: 5, offset: 79071},
+				pos: position{line: 2442, col: 5, offset: 79118},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2442, col: 5, offset: 79071},
+					pos: position{line: 2442, col: 5, offset: 79118},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92745},
+							pos: position{line: 2939, col: 11, offset: 92792},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92747,
+								line: 2939, col: 13, offset: 92794,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2443, col: 5, offset: 79082},
+							pos:   position{line: 2443, col: 5, offset: 79129},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2444, col: 9, offset: 79100},
+								pos: position{line: 2444, col: 9, offset: 79147},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2821, col: 5, offset: 89653},
+										pos: position{line: 2821, col: 5, offset: 89700},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2821, col: 5, offset: 89653},
+											pos: position{line: 2821, col: 5, offset: 89700},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2821, col: 5, offset: 89653},
+													pos:   position{line: 2821, col: 5, offset: 89700},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2821, col: 11, offset: 89659},
+														pos: position{line: 2821, col: 11, offset: 89706},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2821, col: 11, offset: 89659},
+															pos: position{line: 2821, col: 11, offset: 89706},
 															expr: &charClassMatcher{
-																pos:        position{line: 2821, col: 11, offset: 89659},
+																pos:        position{line: 2821, col: 11, offset: 89706},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45919,36 +45983,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2824, col: 5, offset: 89717},
+													pos: position{line: 2824, col: 5, offset: 89764},
 													expr: &seqExpr{
-														pos: position{line: 2825, col: 9, offset: 89728},
+														pos: position{line: 2825, col: 9, offset: 89775},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2825, col: 9, offset: 89728},
+																pos:        position{line: 2825, col: 9, offset: 89775},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2826, col: 9, offset: 89777},
+																pos: position{line: 2826, col: 9, offset: 89824},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2830, col: 5, offset: 89857},
+													pos: position{line: 2830, col: 5, offset: 89904},
 													expr: &seqExpr{
-														pos: position{line: 2831, col: 9, offset: 89868},
+														pos: position{line: 2831, col: 9, offset: 89915},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2831, col: 9, offset: 89868},
+																pos:        position{line: 2831, col: 9, offset: 89915},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2831, col: 13, offset: 89872},
+																pos:        position{line: 2831, col: 13, offset: 89919},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45961,10 +46025,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2922, col: 10, offset: 92411},
+										pos: position{line: 2922, col: 10, offset: 92458},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2922, col: 10, offset: 92411},
+											pos:        position{line: 2922, col: 10, offset: 92458},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45972,31 +46036,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2446, col: 11, offset: 79138},
+										pos:  position{line: 2446, col: 11, offset: 79185},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2839, col: 5, offset: 90065},
+										pos: position{line: 2839, col: 5, offset: 90112},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2840, col: 9, offset: 90075},
+											pos: position{line: 2840, col: 9, offset: 90122},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2840, col: 10, offset: 90076},
+													pos:        position{line: 2840, col: 10, offset: 90123},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2842, col: 13, offset: 90173},
+													pos: position{line: 2842, col: 13, offset: 90220},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2842, col: 13, offset: 90173},
+															pos: position{line: 2842, col: 13, offset: 90220},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2845, col: 13, offset: 90273},
+															pos:        position{line: 2845, col: 13, offset: 90320},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46004,20 +46068,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2845, col: 19, offset: 90279},
+													pos:        position{line: 2845, col: 19, offset: 90326},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2848, col: 13, offset: 90317},
+													pos: position{line: 2848, col: 13, offset: 90364},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2848, col: 13, offset: 90317},
+															pos: position{line: 2848, col: 13, offset: 90364},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2851, col: 14, offset: 90410},
+															pos:        position{line: 2851, col: 14, offset: 90457},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46026,18 +46090,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2853, col: 12, offset: 90454},
+													pos: position{line: 2853, col: 12, offset: 90501},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2853, col: 12, offset: 90454},
+															pos:        position{line: 2853, col: 12, offset: 90501},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2853, col: 16, offset: 90458},
+															pos: position{line: 2853, col: 16, offset: 90505},
 															expr: &litMatcher{
-																pos:        position{line: 2853, col: 17, offset: 90459},
+																pos:        position{line: 2853, col: 17, offset: 90506},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46049,31 +46113,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2448, col: 11, offset: 79211},
+										pos:  position{line: 2448, col: 11, offset: 79258},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2449, col: 11, offset: 79227},
+										pos:  position{line: 2449, col: 11, offset: 79274},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 5, offset: 80735},
+										pos: position{line: 2512, col: 5, offset: 80782},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 5, offset: 80735},
+											pos: position{line: 2512, col: 5, offset: 80782},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 80735},
+													pos: position{line: 2512, col: 5, offset: 80782},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 5, offset: 80811},
+													pos:   position{line: 2515, col: 5, offset: 80858},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2516, col: 9, offset: 80829},
+														pos: position{line: 2516, col: 9, offset: 80876},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2516, col: 10, offset: 80830},
+															pos:        position{line: 2516, col: 10, offset: 80877},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46120,29 +46184,33 @@ var g = &grammar{
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
+												&andCodeExpr{
+													pos: position{line: 1211, col: 123, offset: 37756},
+													run: (*parser).callonAttributeStructuredValueElement54,
+												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2931, col: 12, offset: 92582},
-										run: (*parser).callonAttributeStructuredValueElement54,
+										pos: position{line: 2931, col: 12, offset: 92629},
+										run: (*parser).callonAttributeStructuredValueElement55,
 										expr: &choiceExpr{
-											pos: position{line: 2931, col: 13, offset: 92583},
+											pos: position{line: 2931, col: 13, offset: 92630},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2931, col: 13, offset: 92583},
+													pos:        position{line: 2931, col: 13, offset: 92630},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 20, offset: 92590},
+													pos:        position{line: 2931, col: 20, offset: 92637},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 29, offset: 92599},
+													pos:        position{line: 2931, col: 29, offset: 92646},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46151,10 +46219,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90719},
-										run: (*parser).callonAttributeStructuredValueElement59,
+										pos: position{line: 2861, col: 12, offset: 90766},
+										run: (*parser).callonAttributeStructuredValueElement60,
 										expr: &charClassMatcher{
-											pos:        position{line: 2861, col: 12, offset: 90719},
+											pos:        position{line: 2861, col: 12, offset: 90766},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46170,73 +46238,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2460, col: 1, offset: 79497},
+			pos:  position{line: 2460, col: 1, offset: 79544},
 			expr: &actionExpr{
-				pos: position{line: 2462, col: 5, offset: 79579},
+				pos: position{line: 2462, col: 5, offset: 79626},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2462, col: 5, offset: 79579},
+					pos: position{line: 2462, col: 5, offset: 79626},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2462, col: 5, offset: 79579},
+							pos: position{line: 2462, col: 5, offset: 79626},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2465, col: 5, offset: 79644},
+							pos:   position{line: 2465, col: 5, offset: 79691},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2466, col: 9, offset: 79662},
+								pos: position{line: 2466, col: 9, offset: 79709},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2466, col: 9, offset: 79662},
+										pos:  position{line: 2466, col: 9, offset: 79709},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2467, col: 11, offset: 79683},
+										pos:  position{line: 2467, col: 11, offset: 79730},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2468, col: 11, offset: 79706},
+										pos:  position{line: 2468, col: 11, offset: 79753},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2469, col: 11, offset: 79722},
+										pos:  position{line: 2469, col: 11, offset: 79769},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2470, col: 11, offset: 79751},
+										pos:  position{line: 2470, col: 11, offset: 79798},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2471, col: 11, offset: 79777},
+										pos:  position{line: 2471, col: 11, offset: 79824},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2472, col: 11, offset: 79803},
+										pos:  position{line: 2472, col: 11, offset: 79850},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1266, col: 5, offset: 39416},
+										pos: position{line: 1266, col: 5, offset: 39463},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1266, col: 5, offset: 39416},
+											pos: position{line: 1266, col: 5, offset: 39463},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1266, col: 5, offset: 39416},
+													pos:        position{line: 1266, col: 5, offset: 39463},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1266, col: 14, offset: 39425},
+													pos:   position{line: 1266, col: 14, offset: 39472},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 7, offset: 92063},
+														pos: position{line: 2907, col: 7, offset: 92110},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2907, col: 7, offset: 92063},
+															pos: position{line: 2907, col: 7, offset: 92110},
 															expr: &charClassMatcher{
-																pos:        position{line: 2907, col: 7, offset: 92063},
+																pos:        position{line: 2907, col: 7, offset: 92110},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46246,7 +46314,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1266, col: 22, offset: 39433},
+													pos:        position{line: 1266, col: 22, offset: 39480},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46255,27 +46323,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1271, col: 5, offset: 39552},
+										pos: position{line: 1271, col: 5, offset: 39599},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1271, col: 5, offset: 39552},
+											pos: position{line: 1271, col: 5, offset: 39599},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1271, col: 5, offset: 39552},
+													pos:        position{line: 1271, col: 5, offset: 39599},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1271, col: 10, offset: 39557},
+													pos:   position{line: 1271, col: 10, offset: 39604},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 7, offset: 92063},
+														pos: position{line: 2907, col: 7, offset: 92110},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2907, col: 7, offset: 92063},
+															pos: position{line: 2907, col: 7, offset: 92110},
 															expr: &charClassMatcher{
-																pos:        position{line: 2907, col: 7, offset: 92063},
+																pos:        position{line: 2907, col: 7, offset: 92110},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46285,7 +46353,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1271, col: 18, offset: 39565},
+													pos:        position{line: 1271, col: 18, offset: 39612},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46294,40 +46362,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1310, col: 23, offset: 41041},
+										pos: position{line: 1310, col: 23, offset: 41088},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1310, col: 23, offset: 41041},
+											pos: position{line: 1310, col: 23, offset: 41088},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1310, col: 23, offset: 41041},
+													pos:        position{line: 1310, col: 23, offset: 41088},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1310, col: 29, offset: 41047},
+													pos:   position{line: 1310, col: 29, offset: 41094},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1317, col: 30, offset: 41378},
+														pos: position{line: 1317, col: 30, offset: 41425},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1317, col: 30, offset: 41378},
+															pos: position{line: 1317, col: 30, offset: 41425},
 															expr: &choiceExpr{
-																pos: position{line: 1317, col: 31, offset: 41379},
+																pos: position{line: 1317, col: 31, offset: 41426},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2812, col: 13, offset: 89506},
+																		pos:        position{line: 2812, col: 13, offset: 89553},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92411},
+																		pos: position{line: 2922, col: 10, offset: 92458},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92411},
+																			pos:        position{line: 2922, col: 10, offset: 92458},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46340,23 +46408,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1311, col: 5, offset: 41086},
+													pos:   position{line: 1311, col: 5, offset: 41133},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1311, col: 11, offset: 41092},
+														pos: position{line: 1311, col: 11, offset: 41139},
 														expr: &actionExpr{
-															pos: position{line: 1311, col: 12, offset: 41093},
+															pos: position{line: 1311, col: 12, offset: 41140},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1311, col: 12, offset: 41093},
+																pos: position{line: 1311, col: 12, offset: 41140},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1311, col: 12, offset: 41093},
+																		pos: position{line: 1311, col: 12, offset: 41140},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92411},
+																			pos: position{line: 2922, col: 10, offset: 92458},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92411},
+																				pos:        position{line: 2922, col: 10, offset: 92458},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46365,18 +46433,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1311, col: 19, offset: 41100},
+																		pos:        position{line: 1311, col: 19, offset: 41147},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1311, col: 23, offset: 41104},
+																		pos: position{line: 1311, col: 23, offset: 41151},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92411},
+																			pos: position{line: 2922, col: 10, offset: 92458},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92411},
+																				pos:        position{line: 2922, col: 10, offset: 92458},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46385,28 +46453,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1311, col: 30, offset: 41111},
+																		pos:   position{line: 1311, col: 30, offset: 41158},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1317, col: 30, offset: 41378},
+																			pos: position{line: 1317, col: 30, offset: 41425},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1317, col: 30, offset: 41378},
+																				pos: position{line: 1317, col: 30, offset: 41425},
 																				expr: &choiceExpr{
-																					pos: position{line: 1317, col: 31, offset: 41379},
+																					pos: position{line: 1317, col: 31, offset: 41426},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2812, col: 13, offset: 89506},
+																							pos:        position{line: 2812, col: 13, offset: 89553},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92411},
+																							pos: position{line: 2922, col: 10, offset: 92458},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92411},
+																								pos:        position{line: 2922, col: 10, offset: 92458},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46424,23 +46492,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1312, col: 5, offset: 41178},
+													pos:   position{line: 1312, col: 5, offset: 41225},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1312, col: 11, offset: 41184},
+														pos: position{line: 1312, col: 11, offset: 41231},
 														expr: &actionExpr{
-															pos: position{line: 1312, col: 12, offset: 41185},
+															pos: position{line: 1312, col: 12, offset: 41232},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1312, col: 12, offset: 41185},
+																pos: position{line: 1312, col: 12, offset: 41232},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1312, col: 12, offset: 41185},
+																		pos: position{line: 1312, col: 12, offset: 41232},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92411},
+																			pos: position{line: 2922, col: 10, offset: 92458},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92411},
+																				pos:        position{line: 2922, col: 10, offset: 92458},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46449,18 +46517,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1312, col: 19, offset: 41192},
+																		pos:        position{line: 1312, col: 19, offset: 41239},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1312, col: 23, offset: 41196},
+																		pos: position{line: 1312, col: 23, offset: 41243},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92411},
+																			pos: position{line: 2922, col: 10, offset: 92458},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92411},
+																				pos:        position{line: 2922, col: 10, offset: 92458},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46469,28 +46537,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1312, col: 30, offset: 41203},
+																		pos:   position{line: 1312, col: 30, offset: 41250},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1317, col: 30, offset: 41378},
+																			pos: position{line: 1317, col: 30, offset: 41425},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1317, col: 30, offset: 41378},
+																				pos: position{line: 1317, col: 30, offset: 41425},
 																				expr: &choiceExpr{
-																					pos: position{line: 1317, col: 31, offset: 41379},
+																					pos: position{line: 1317, col: 31, offset: 41426},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2812, col: 13, offset: 89506},
+																							pos:        position{line: 2812, col: 13, offset: 89553},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92411},
+																							pos: position{line: 2922, col: 10, offset: 92458},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92411},
+																								pos:        position{line: 2922, col: 10, offset: 92458},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46508,7 +46576,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1313, col: 5, offset: 41270},
+													pos:        position{line: 1313, col: 5, offset: 41317},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -46517,15 +46585,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2475, col: 11, offset: 79882},
+										pos:  position{line: 2475, col: 11, offset: 79929},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2476, col: 11, offset: 79902},
+										pos:  position{line: 2476, col: 11, offset: 79949},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2477, col: 11, offset: 79925},
+										pos:  position{line: 2477, col: 11, offset: 79972},
 										name: "InlineMenu",
 									},
 								},
@@ -46537,80 +46605,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2481, col: 1, offset: 79982},
+			pos:  position{line: 2481, col: 1, offset: 80029},
 			expr: &actionExpr{
-				pos: position{line: 2483, col: 5, offset: 80070},
+				pos: position{line: 2483, col: 5, offset: 80117},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2483, col: 5, offset: 80070},
+					pos: position{line: 2483, col: 5, offset: 80117},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2483, col: 5, offset: 80070},
+							pos: position{line: 2483, col: 5, offset: 80117},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2486, col: 5, offset: 80147},
+							pos:   position{line: 2486, col: 5, offset: 80194},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2487, col: 9, offset: 80165},
+								pos: position{line: 2487, col: 9, offset: 80212},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1397, col: 26, offset: 44764},
+										pos: position{line: 1397, col: 26, offset: 44811},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1397, col: 26, offset: 44764},
+											pos: position{line: 1397, col: 26, offset: 44811},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1395, col: 32, offset: 44732},
+													pos:        position{line: 1395, col: 32, offset: 44779},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1397, col: 54, offset: 44792},
+													pos:   position{line: 1397, col: 54, offset: 44839},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1401, col: 33, offset: 45005},
+														pos: position{line: 1401, col: 33, offset: 45052},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1401, col: 34, offset: 45006},
+																pos: position{line: 1401, col: 34, offset: 45053},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1401, col: 34, offset: 45006},
+																	pos: position{line: 1401, col: 34, offset: 45053},
 																	expr: &seqExpr{
-																		pos: position{line: 1401, col: 35, offset: 45007},
+																		pos: position{line: 1401, col: 35, offset: 45054},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1401, col: 35, offset: 45007},
+																				pos: position{line: 1401, col: 35, offset: 45054},
 																				expr: &litMatcher{
-																					pos:        position{line: 1395, col: 32, offset: 44732},
+																					pos:        position{line: 1395, col: 32, offset: 44779},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1401, col: 64, offset: 45036,
+																				line: 1401, col: 64, offset: 45083,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1403, col: 11, offset: 45209},
+																pos: position{line: 1403, col: 11, offset: 45256},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1403, col: 11, offset: 45209},
+																	pos: position{line: 1403, col: 11, offset: 45256},
 																	expr: &seqExpr{
-																		pos: position{line: 1403, col: 12, offset: 45210},
+																		pos: position{line: 1403, col: 12, offset: 45257},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1403, col: 12, offset: 45210},
+																				pos: position{line: 1403, col: 12, offset: 45257},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92411},
+																					pos: position{line: 2922, col: 10, offset: 92458},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92411},
+																						pos:        position{line: 2922, col: 10, offset: 92458},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46619,27 +46687,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1403, col: 19, offset: 45217},
+																				pos: position{line: 1403, col: 19, offset: 45264},
 																				expr: &actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92582},
+																					pos: position{line: 2931, col: 12, offset: 92629},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92583},
+																						pos: position{line: 2931, col: 13, offset: 92630},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92583},
+																								pos:        position{line: 2931, col: 13, offset: 92630},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92590},
+																								pos:        position{line: 2931, col: 20, offset: 92637},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92599},
+																								pos:        position{line: 2931, col: 29, offset: 92646},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46649,16 +46717,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1403, col: 28, offset: 45226},
+																				pos: position{line: 1403, col: 28, offset: 45273},
 																				expr: &litMatcher{
-																					pos:        position{line: 1395, col: 32, offset: 44732},
+																					pos:        position{line: 1395, col: 32, offset: 44779},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1403, col: 57, offset: 45255,
+																				line: 1403, col: 57, offset: 45302,
 																			},
 																		},
 																	},
@@ -46668,15 +46736,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1395, col: 32, offset: 44732},
+													pos:        position{line: 1395, col: 32, offset: 44779},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1397, col: 121, offset: 44859},
+													pos: position{line: 1397, col: 121, offset: 44906},
 													expr: &charClassMatcher{
-														pos:        position{line: 2812, col: 13, offset: 89506},
+														pos:        position{line: 2812, col: 13, offset: 89553},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46687,45 +46755,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1385, col: 26, offset: 44047},
+										pos: position{line: 1385, col: 26, offset: 44094},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1385, col: 26, offset: 44047},
+											pos: position{line: 1385, col: 26, offset: 44094},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1383, col: 32, offset: 44017},
+													pos:        position{line: 1383, col: 32, offset: 44064},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1385, col: 54, offset: 44075},
+													pos:   position{line: 1385, col: 54, offset: 44122},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1389, col: 33, offset: 44288},
+														pos: position{line: 1389, col: 33, offset: 44335},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1389, col: 34, offset: 44289},
+																pos: position{line: 1389, col: 34, offset: 44336},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1389, col: 34, offset: 44289},
+																	pos: position{line: 1389, col: 34, offset: 44336},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1389, col: 35, offset: 44290},
+																			pos: position{line: 1389, col: 35, offset: 44337},
 																			expr: &litMatcher{
-																				pos:        position{line: 1383, col: 32, offset: 44017},
+																				pos:        position{line: 1383, col: 32, offset: 44064},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1389, col: 64, offset: 44319},
+																			pos: position{line: 1389, col: 64, offset: 44366},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92411},
+																				pos: position{line: 2922, col: 10, offset: 92458},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92411},
+																					pos:        position{line: 2922, col: 10, offset: 92458},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46734,27 +46802,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1389, col: 71, offset: 44326},
+																			pos: position{line: 1389, col: 71, offset: 44373},
 																			expr: &actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
+																				pos: position{line: 2931, col: 12, offset: 92629},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46764,25 +46832,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1389, col: 80, offset: 44335,
+																			line: 1389, col: 80, offset: 44382,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1389, col: 83, offset: 44338},
+																			pos: position{line: 1389, col: 83, offset: 44385},
 																			expr: &seqExpr{
-																				pos: position{line: 1389, col: 84, offset: 44339},
+																				pos: position{line: 1389, col: 84, offset: 44386},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1389, col: 84, offset: 44339},
+																						pos: position{line: 1389, col: 84, offset: 44386},
 																						expr: &seqExpr{
-																							pos: position{line: 1389, col: 86, offset: 44341},
+																							pos: position{line: 1389, col: 86, offset: 44388},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2926, col: 11, offset: 92472},
+																									pos: position{line: 2926, col: 11, offset: 92519},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2926, col: 11, offset: 92472},
+																										pos: position{line: 2926, col: 11, offset: 92519},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2926, col: 11, offset: 92472},
+																											pos:        position{line: 2926, col: 11, offset: 92519},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46791,7 +46859,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1383, col: 32, offset: 44017},
+																									pos:        position{line: 1383, col: 32, offset: 44064},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -46800,36 +46868,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1389, col: 122, offset: 44377},
+																						pos: position{line: 1389, col: 122, offset: 44424},
 																						expr: &litMatcher{
-																							pos:        position{line: 1383, col: 32, offset: 44017},
+																							pos:        position{line: 1383, col: 32, offset: 44064},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1389, col: 151, offset: 44406},
+																						pos: position{line: 1389, col: 151, offset: 44453},
 																						expr: &actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92582},
+																							pos: position{line: 2931, col: 12, offset: 92629},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92583},
+																								pos: position{line: 2931, col: 13, offset: 92630},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92583},
+																										pos:        position{line: 2931, col: 13, offset: 92630},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92590},
+																										pos:        position{line: 2931, col: 20, offset: 92637},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92599},
+																										pos:        position{line: 2931, col: 29, offset: 92646},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46839,7 +46907,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1389, col: 160, offset: 44415,
+																						line: 1389, col: 160, offset: 44462,
 																					},
 																				},
 																			},
@@ -46848,18 +46916,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1391, col: 11, offset: 44565},
+																pos: position{line: 1391, col: 11, offset: 44612},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1391, col: 12, offset: 44566},
+																	pos: position{line: 1391, col: 12, offset: 44613},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1391, col: 12, offset: 44566},
+																			pos: position{line: 1391, col: 12, offset: 44613},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92411},
+																				pos: position{line: 2922, col: 10, offset: 92458},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92411},
+																					pos:        position{line: 2922, col: 10, offset: 92458},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46868,27 +46936,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1391, col: 19, offset: 44573},
+																			pos: position{line: 1391, col: 19, offset: 44620},
 																			expr: &actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92582},
+																				pos: position{line: 2931, col: 12, offset: 92629},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92583},
+																					pos: position{line: 2931, col: 13, offset: 92630},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92583},
+																							pos:        position{line: 2931, col: 13, offset: 92630},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92590},
+																							pos:        position{line: 2931, col: 20, offset: 92637},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92599},
+																							pos:        position{line: 2931, col: 29, offset: 92646},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46898,16 +46966,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1391, col: 28, offset: 44582},
+																			pos: position{line: 1391, col: 28, offset: 44629},
 																			expr: &litMatcher{
-																				pos:        position{line: 1383, col: 32, offset: 44017},
+																				pos:        position{line: 1383, col: 32, offset: 44064},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1391, col: 57, offset: 44611,
+																			line: 1391, col: 57, offset: 44658,
 																		},
 																	},
 																},
@@ -46916,15 +46984,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1383, col: 32, offset: 44017},
+													pos:        position{line: 1383, col: 32, offset: 44064},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1385, col: 121, offset: 44142},
+													pos: position{line: 1385, col: 121, offset: 44189},
 													expr: &charClassMatcher{
-														pos:        position{line: 2812, col: 13, offset: 89506},
+														pos:        position{line: 2812, col: 13, offset: 89553},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46935,7 +47003,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2487, col: 57, offset: 80213},
+										pos:  position{line: 2487, col: 57, offset: 80260},
 										name: "PassthroughMacro",
 									},
 								},
@@ -46947,16 +47015,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2492, col: 1, offset: 80273},
+			pos:  position{line: 2492, col: 1, offset: 80320},
 			expr: &seqExpr{
-				pos: position{line: 2494, col: 5, offset: 80349},
+				pos: position{line: 2494, col: 5, offset: 80396},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2494, col: 5, offset: 80349},
+						pos: position{line: 2494, col: 5, offset: 80396},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2497, col: 5, offset: 80414},
+						pos:  position{line: 2497, col: 5, offset: 80461},
 						name: "QuotedText",
 					},
 				},
@@ -46964,22 +47032,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2499, col: 1, offset: 80427},
+			pos:  position{line: 2499, col: 1, offset: 80474},
 			expr: &actionExpr{
-				pos: position{line: 2501, col: 5, offset: 80509},
+				pos: position{line: 2501, col: 5, offset: 80556},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2501, col: 5, offset: 80509},
+					pos: position{line: 2501, col: 5, offset: 80556},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2501, col: 5, offset: 80509},
+							pos: position{line: 2501, col: 5, offset: 80556},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2504, col: 5, offset: 80580},
+							pos:   position{line: 2504, col: 5, offset: 80627},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2505, col: 9, offset: 80598},
+								pos:  position{line: 2505, col: 9, offset: 80645},
 								name: "Symbol",
 							},
 						},
@@ -46989,103 +47057,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2560, col: 1, offset: 82385},
+			pos:  position{line: 2560, col: 1, offset: 82432},
 			expr: &choiceExpr{
-				pos: position{line: 2562, col: 5, offset: 82415},
+				pos: position{line: 2562, col: 5, offset: 82462},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2562, col: 5, offset: 82415},
+						pos: position{line: 2562, col: 5, offset: 82462},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2562, col: 5, offset: 82415},
+							pos: position{line: 2562, col: 5, offset: 82462},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2562, col: 5, offset: 82415},
+									pos:        position{line: 2562, col: 5, offset: 82462},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2562, col: 10, offset: 82420},
+									pos: position{line: 2562, col: 10, offset: 82467},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2562, col: 10, offset: 82420},
+											pos:  position{line: 2562, col: 10, offset: 82467},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2591, col: 14, offset: 83524},
+											pos: position{line: 2591, col: 14, offset: 83571},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2591, col: 14, offset: 83524},
+												pos:        position{line: 2591, col: 14, offset: 83571},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2595, col: 14, offset: 83590},
+											pos: position{line: 2595, col: 14, offset: 83637},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2595, col: 14, offset: 83590},
+												pos:        position{line: 2595, col: 14, offset: 83637},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2599, col: 15, offset: 83659},
+											pos: position{line: 2599, col: 15, offset: 83706},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2599, col: 15, offset: 83659},
+												pos:        position{line: 2599, col: 15, offset: 83706},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2603, col: 13, offset: 83724},
+											pos: position{line: 2603, col: 13, offset: 83771},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2603, col: 13, offset: 83724},
+												pos:        position{line: 2603, col: 13, offset: 83771},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2631, col: 21, offset: 84294},
+											pos: position{line: 2631, col: 21, offset: 84341},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2631, col: 21, offset: 84294},
+												pos:        position{line: 2631, col: 21, offset: 84341},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2610, col: 5, offset: 83880},
+											pos: position{line: 2610, col: 5, offset: 83927},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2610, col: 5, offset: 83880},
+												pos: position{line: 2610, col: 5, offset: 83927},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2610, col: 5, offset: 83880},
+														pos:        position{line: 2610, col: 5, offset: 83927},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2611, col: 5, offset: 83890},
+														pos: position{line: 2611, col: 5, offset: 83937},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2615, col: 6, offset: 83977},
+														pos: position{line: 2615, col: 6, offset: 84024},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2922, col: 10, offset: 92411},
+																pos: position{line: 2922, col: 10, offset: 92458},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2922, col: 10, offset: 92411},
+																	pos:        position{line: 2922, col: 10, offset: 92458},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47093,30 +47161,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2615, col: 14, offset: 83985},
+																pos: position{line: 2615, col: 14, offset: 84032},
 																expr: &choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92809},
+																	pos: position{line: 2944, col: 8, offset: 92856},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92582},
+																			pos: position{line: 2931, col: 12, offset: 92629},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92583},
+																				pos: position{line: 2931, col: 13, offset: 92630},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92583},
+																						pos:        position{line: 2931, col: 13, offset: 92630},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92590},
+																						pos:        position{line: 2931, col: 20, offset: 92637},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92599},
+																						pos:        position{line: 2931, col: 29, offset: 92646},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47125,9 +47193,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92759},
+																			pos: position{line: 2941, col: 8, offset: 92806},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92760,
+																				line: 2941, col: 9, offset: 92807,
 																			},
 																		},
 																	},
@@ -47139,53 +47207,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2620, col: 5, offset: 84105},
+											pos: position{line: 2620, col: 5, offset: 84152},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2620, col: 5, offset: 84105},
+												pos: position{line: 2620, col: 5, offset: 84152},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2620, col: 5, offset: 84105},
+														pos:        position{line: 2620, col: 5, offset: 84152},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2621, col: 5, offset: 84115},
+														pos: position{line: 2621, col: 5, offset: 84162},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2625, col: 5, offset: 84204},
+														pos: position{line: 2625, col: 5, offset: 84251},
 														expr: &choiceExpr{
-															pos: position{line: 2625, col: 7, offset: 84206},
+															pos: position{line: 2625, col: 7, offset: 84253},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2812, col: 13, offset: 89506},
+																	pos:        position{line: 2812, col: 13, offset: 89553},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2931, col: 12, offset: 92582},
+																	pos: position{line: 2931, col: 12, offset: 92629},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2931, col: 13, offset: 92583},
+																		pos: position{line: 2931, col: 13, offset: 92630},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2931, col: 13, offset: 92583},
+																				pos:        position{line: 2931, col: 13, offset: 92630},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2931, col: 20, offset: 92590},
+																				pos:        position{line: 2931, col: 20, offset: 92637},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2931, col: 29, offset: 92599},
+																				pos:        position{line: 2931, col: 29, offset: 92646},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47194,9 +47262,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92759},
+																	pos: position{line: 2941, col: 8, offset: 92806},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92760,
+																		line: 2941, col: 9, offset: 92807,
 																	},
 																},
 															},
@@ -47206,30 +47274,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2635, col: 20, offset: 84364},
+											pos: position{line: 2635, col: 20, offset: 84411},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2635, col: 20, offset: 84364},
+												pos:        position{line: 2635, col: 20, offset: 84411},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2639, col: 21, offset: 84435},
+											pos: position{line: 2639, col: 21, offset: 84482},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2639, col: 21, offset: 84435},
+												pos:        position{line: 2639, col: 21, offset: 84482},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2643, col: 20, offset: 84505},
+											pos: position{line: 2643, col: 20, offset: 84552},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2643, col: 20, offset: 84505},
+												pos:        position{line: 2643, col: 20, offset: 84552},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -47241,73 +47309,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2566, col: 7, offset: 82675},
+						pos:  position{line: 2566, col: 7, offset: 82722},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2591, col: 14, offset: 83524},
+						pos: position{line: 2591, col: 14, offset: 83571},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2591, col: 14, offset: 83524},
+							pos:        position{line: 2591, col: 14, offset: 83571},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2595, col: 14, offset: 83590},
+						pos: position{line: 2595, col: 14, offset: 83637},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2595, col: 14, offset: 83590},
+							pos:        position{line: 2595, col: 14, offset: 83637},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2599, col: 15, offset: 83659},
+						pos: position{line: 2599, col: 15, offset: 83706},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2599, col: 15, offset: 83659},
+							pos:        position{line: 2599, col: 15, offset: 83706},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2603, col: 13, offset: 83724},
+						pos: position{line: 2603, col: 13, offset: 83771},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2603, col: 13, offset: 83724},
+							pos:        position{line: 2603, col: 13, offset: 83771},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2610, col: 5, offset: 83880},
+						pos: position{line: 2610, col: 5, offset: 83927},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2610, col: 5, offset: 83880},
+							pos: position{line: 2610, col: 5, offset: 83927},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2610, col: 5, offset: 83880},
+									pos:        position{line: 2610, col: 5, offset: 83927},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2611, col: 5, offset: 83890},
+									pos: position{line: 2611, col: 5, offset: 83937},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2615, col: 6, offset: 83977},
+									pos: position{line: 2615, col: 6, offset: 84024},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2922, col: 10, offset: 92411},
+											pos: position{line: 2922, col: 10, offset: 92458},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2922, col: 10, offset: 92411},
+												pos:        position{line: 2922, col: 10, offset: 92458},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47315,30 +47383,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2615, col: 14, offset: 83985},
+											pos: position{line: 2615, col: 14, offset: 84032},
 											expr: &choiceExpr{
-												pos: position{line: 2944, col: 8, offset: 92809},
+												pos: position{line: 2944, col: 8, offset: 92856},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2931, col: 12, offset: 92582},
+														pos: position{line: 2931, col: 12, offset: 92629},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2931, col: 13, offset: 92583},
+															pos: position{line: 2931, col: 13, offset: 92630},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2931, col: 13, offset: 92583},
+																	pos:        position{line: 2931, col: 13, offset: 92630},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 20, offset: 92590},
+																	pos:        position{line: 2931, col: 20, offset: 92637},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 29, offset: 92599},
+																	pos:        position{line: 2931, col: 29, offset: 92646},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47347,9 +47415,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2941, col: 8, offset: 92759},
+														pos: position{line: 2941, col: 8, offset: 92806},
 														expr: &anyMatcher{
-															line: 2941, col: 9, offset: 92760,
+															line: 2941, col: 9, offset: 92807,
 														},
 													},
 												},
@@ -47361,53 +47429,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2620, col: 5, offset: 84105},
+						pos: position{line: 2620, col: 5, offset: 84152},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2620, col: 5, offset: 84105},
+							pos: position{line: 2620, col: 5, offset: 84152},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2620, col: 5, offset: 84105},
+									pos:        position{line: 2620, col: 5, offset: 84152},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2621, col: 5, offset: 84115},
+									pos: position{line: 2621, col: 5, offset: 84162},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2625, col: 5, offset: 84204},
+									pos: position{line: 2625, col: 5, offset: 84251},
 									expr: &choiceExpr{
-										pos: position{line: 2625, col: 7, offset: 84206},
+										pos: position{line: 2625, col: 7, offset: 84253},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2812, col: 13, offset: 89506},
+												pos:        position{line: 2812, col: 13, offset: 89553},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2931, col: 12, offset: 92582},
+												pos: position{line: 2931, col: 12, offset: 92629},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2931, col: 13, offset: 92583},
+													pos: position{line: 2931, col: 13, offset: 92630},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2931, col: 13, offset: 92583},
+															pos:        position{line: 2931, col: 13, offset: 92630},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2931, col: 20, offset: 92590},
+															pos:        position{line: 2931, col: 20, offset: 92637},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2931, col: 29, offset: 92599},
+															pos:        position{line: 2931, col: 29, offset: 92646},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47416,9 +47484,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2941, col: 8, offset: 92759},
+												pos: position{line: 2941, col: 8, offset: 92806},
 												expr: &anyMatcher{
-													line: 2941, col: 9, offset: 92760,
+													line: 2941, col: 9, offset: 92807,
 												},
 											},
 										},
@@ -47428,40 +47496,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2631, col: 21, offset: 84294},
+						pos: position{line: 2631, col: 21, offset: 84341},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2631, col: 21, offset: 84294},
+							pos:        position{line: 2631, col: 21, offset: 84341},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2635, col: 20, offset: 84364},
+						pos: position{line: 2635, col: 20, offset: 84411},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2635, col: 20, offset: 84364},
+							pos:        position{line: 2635, col: 20, offset: 84411},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2639, col: 21, offset: 84435},
+						pos: position{line: 2639, col: 21, offset: 84482},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2639, col: 21, offset: 84435},
+							pos:        position{line: 2639, col: 21, offset: 84482},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2643, col: 20, offset: 84505},
+						pos: position{line: 2643, col: 20, offset: 84552},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2643, col: 20, offset: 84505},
+							pos:        position{line: 2643, col: 20, offset: 84552},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -47472,43 +47540,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2577, col: 1, offset: 82865},
+			pos:  position{line: 2577, col: 1, offset: 82912},
 			expr: &choiceExpr{
-				pos: position{line: 2578, col: 5, offset: 82887},
+				pos: position{line: 2578, col: 5, offset: 82934},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2578, col: 5, offset: 82887},
+						pos: position{line: 2578, col: 5, offset: 82934},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2578, col: 5, offset: 82887},
+							pos: position{line: 2578, col: 5, offset: 82934},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2578, col: 5, offset: 82887},
+									pos:        position{line: 2578, col: 5, offset: 82934},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2578, col: 11, offset: 82893},
+									pos: position{line: 2578, col: 11, offset: 82940},
 									expr: &seqExpr{
-										pos: position{line: 2119, col: 5, offset: 68483},
+										pos: position{line: 2119, col: 5, offset: 68530},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2119, col: 5, offset: 68483},
+												pos:        position{line: 2119, col: 5, offset: 68530},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2120, col: 5, offset: 68492},
+												pos: position{line: 2120, col: 5, offset: 68539},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2124, col: 5, offset: 68615},
+												pos: position{line: 2124, col: 5, offset: 68662},
 												expr: &notExpr{
-													pos: position{line: 2124, col: 7, offset: 68617},
+													pos: position{line: 2124, col: 7, offset: 68664},
 													expr: &litMatcher{
-														pos:        position{line: 2124, col: 8, offset: 68618},
+														pos:        position{line: 2124, col: 8, offset: 68665},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47522,21 +47590,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2581, col: 7, offset: 83046},
+						pos: position{line: 2581, col: 7, offset: 83093},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2581, col: 7, offset: 83046},
+							pos: position{line: 2581, col: 7, offset: 83093},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2581, col: 7, offset: 83046},
+									pos:        position{line: 2581, col: 7, offset: 83093},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2581, col: 13, offset: 83052},
+									pos: position{line: 2581, col: 13, offset: 83099},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2581, col: 14, offset: 83053},
+										pos:  position{line: 2581, col: 14, offset: 83100},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47544,38 +47612,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2584, col: 7, offset: 83203},
+						pos: position{line: 2584, col: 7, offset: 83250},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2584, col: 7, offset: 83203},
+							pos: position{line: 2584, col: 7, offset: 83250},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2584, col: 7, offset: 83203},
+									pos:        position{line: 2584, col: 7, offset: 83250},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2584, col: 12, offset: 83208},
+									pos: position{line: 2584, col: 12, offset: 83255},
 									expr: &seqExpr{
-										pos: position{line: 2119, col: 5, offset: 68483},
+										pos: position{line: 2119, col: 5, offset: 68530},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2119, col: 5, offset: 68483},
+												pos:        position{line: 2119, col: 5, offset: 68530},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2120, col: 5, offset: 68492},
+												pos: position{line: 2120, col: 5, offset: 68539},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2124, col: 5, offset: 68615},
+												pos: position{line: 2124, col: 5, offset: 68662},
 												expr: &notExpr{
-													pos: position{line: 2124, col: 7, offset: 68617},
+													pos: position{line: 2124, col: 7, offset: 68664},
 													expr: &litMatcher{
-														pos:        position{line: 2124, col: 8, offset: 68618},
+														pos:        position{line: 2124, col: 8, offset: 68665},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47589,21 +47657,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2587, col: 7, offset: 83361},
+						pos: position{line: 2587, col: 7, offset: 83408},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2587, col: 7, offset: 83361},
+							pos: position{line: 2587, col: 7, offset: 83408},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2587, col: 7, offset: 83361},
+									pos:        position{line: 2587, col: 7, offset: 83408},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2587, col: 12, offset: 83366},
+									pos: position{line: 2587, col: 12, offset: 83413},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2587, col: 13, offset: 83367},
+										pos:  position{line: 2587, col: 13, offset: 83414},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47615,63 +47683,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2727, col: 1, offset: 86586},
+			pos:  position{line: 2727, col: 1, offset: 86633},
 			expr: &actionExpr{
-				pos: position{line: 2727, col: 26, offset: 86611},
+				pos: position{line: 2727, col: 26, offset: 86658},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2727, col: 26, offset: 86611},
+					pos: position{line: 2727, col: 26, offset: 86658},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2727, col: 26, offset: 86611},
+							pos:   position{line: 2727, col: 26, offset: 86658},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2727, col: 31, offset: 86616},
+								pos: position{line: 2727, col: 31, offset: 86663},
 								expr: &actionExpr{
-									pos: position{line: 2732, col: 5, offset: 86679},
+									pos: position{line: 2732, col: 5, offset: 86726},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2732, col: 5, offset: 86679},
+										pos: position{line: 2732, col: 5, offset: 86726},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2939, col: 11, offset: 92745},
+												pos: position{line: 2939, col: 11, offset: 92792},
 												expr: &anyMatcher{
-													line: 2939, col: 13, offset: 92747,
+													line: 2939, col: 13, offset: 92794,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2735, col: 5, offset: 86805},
+												pos:   position{line: 2735, col: 5, offset: 86852},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2735, col: 16, offset: 86816},
+													pos: position{line: 2735, col: 16, offset: 86863},
 													expr: &actionExpr{
-														pos: position{line: 2735, col: 17, offset: 86817},
+														pos: position{line: 2735, col: 17, offset: 86864},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2735, col: 17, offset: 86817},
+															pos: position{line: 2735, col: 17, offset: 86864},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2735, col: 17, offset: 86817},
+																	pos:   position{line: 2735, col: 17, offset: 86864},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2914, col: 12, offset: 92238},
+																		pos: position{line: 2914, col: 12, offset: 92285},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2914, col: 13, offset: 92239},
+																			pos: position{line: 2914, col: 13, offset: 92286},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2914, col: 13, offset: 92239},
+																					pos: position{line: 2914, col: 13, offset: 92286},
 																					expr: &litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92239},
+																						pos:        position{line: 2914, col: 13, offset: 92286},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2914, col: 18, offset: 92244},
+																					pos: position{line: 2914, col: 18, offset: 92291},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2914, col: 18, offset: 92244},
+																						pos:        position{line: 2914, col: 18, offset: 92291},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47683,7 +47751,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2735, col: 27, offset: 86827},
+																	pos:        position{line: 2735, col: 27, offset: 86874},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47694,38 +47762,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2736, col: 5, offset: 86855},
+												pos:   position{line: 2736, col: 5, offset: 86902},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2736, col: 12, offset: 86862},
+													pos: position{line: 2736, col: 12, offset: 86909},
 													expr: &choiceExpr{
-														pos: position{line: 2737, col: 9, offset: 86872},
+														pos: position{line: 2737, col: 9, offset: 86919},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2737, col: 9, offset: 86872},
+																pos: position{line: 2737, col: 9, offset: 86919},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2737, col: 9, offset: 86872},
+																	pos:        position{line: 2737, col: 9, offset: 86919},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2738, col: 11, offset: 86919},
+																pos: position{line: 2738, col: 11, offset: 86966},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2738, col: 11, offset: 86919},
+																	pos:        position{line: 2738, col: 11, offset: 86966},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2739, col: 11, offset: 86967},
+																pos: position{line: 2739, col: 11, offset: 87014},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2739, col: 11, offset: 86967},
+																	pos:        position{line: 2739, col: 11, offset: 87014},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47736,38 +47804,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2741, col: 5, offset: 87017},
+												pos:   position{line: 2741, col: 5, offset: 87064},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2741, col: 12, offset: 87024},
+													pos: position{line: 2741, col: 12, offset: 87071},
 													expr: &choiceExpr{
-														pos: position{line: 2742, col: 9, offset: 87034},
+														pos: position{line: 2742, col: 9, offset: 87081},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2742, col: 9, offset: 87034},
+																pos: position{line: 2742, col: 9, offset: 87081},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2742, col: 9, offset: 87034},
+																	pos:        position{line: 2742, col: 9, offset: 87081},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2743, col: 11, offset: 87081},
+																pos: position{line: 2743, col: 11, offset: 87128},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2743, col: 11, offset: 87081},
+																	pos:        position{line: 2743, col: 11, offset: 87128},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2744, col: 11, offset: 87131},
+																pos: position{line: 2744, col: 11, offset: 87178},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2744, col: 11, offset: 87131},
+																	pos:        position{line: 2744, col: 11, offset: 87178},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47778,32 +47846,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2746, col: 5, offset: 87182},
+												pos:   position{line: 2746, col: 5, offset: 87229},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2746, col: 12, offset: 87189},
+													pos: position{line: 2746, col: 12, offset: 87236},
 													expr: &choiceExpr{
-														pos: position{line: 2746, col: 13, offset: 87190},
+														pos: position{line: 2746, col: 13, offset: 87237},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2914, col: 12, offset: 92238},
+																pos: position{line: 2914, col: 12, offset: 92285},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2914, col: 13, offset: 92239},
+																	pos: position{line: 2914, col: 13, offset: 92286},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2914, col: 13, offset: 92239},
+																			pos: position{line: 2914, col: 13, offset: 92286},
 																			expr: &litMatcher{
-																				pos:        position{line: 2914, col: 13, offset: 92239},
+																				pos:        position{line: 2914, col: 13, offset: 92286},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2914, col: 18, offset: 92244},
+																			pos: position{line: 2914, col: 18, offset: 92291},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2914, col: 18, offset: 92244},
+																				pos:        position{line: 2914, col: 18, offset: 92291},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47814,10 +47882,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2746, col: 24, offset: 87201},
+																pos: position{line: 2746, col: 24, offset: 87248},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2746, col: 24, offset: 87201},
+																	pos:        position{line: 2746, col: 24, offset: 87248},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47828,15 +47896,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2747, col: 5, offset: 87243},
+												pos:   position{line: 2747, col: 5, offset: 87290},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2747, col: 11, offset: 87249},
+													pos: position{line: 2747, col: 11, offset: 87296},
 													expr: &actionExpr{
-														pos: position{line: 2747, col: 12, offset: 87250},
+														pos: position{line: 2747, col: 12, offset: 87297},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2747, col: 12, offset: 87250},
+															pos:        position{line: 2747, col: 12, offset: 87297},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47846,12 +47914,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2749, col: 5, offset: 87380},
+												pos:   position{line: 2749, col: 5, offset: 87427},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2749, col: 11, offset: 87386},
+													pos: position{line: 2749, col: 11, offset: 87433},
 													expr: &litMatcher{
-														pos:        position{line: 2749, col: 12, offset: 87387},
+														pos:        position{line: 2749, col: 12, offset: 87434},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47859,7 +47927,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2750, col: 5, offset: 87397},
+												pos: position{line: 2750, col: 5, offset: 87444},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47868,9 +47936,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92759},
+							pos: position{line: 2941, col: 8, offset: 92806},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92760,
+								line: 2941, col: 9, offset: 92807,
 							},
 						},
 					},
@@ -47879,23 +47947,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2777, col: 1, offset: 88406},
+			pos:  position{line: 2777, col: 1, offset: 88453},
 			expr: &actionExpr{
-				pos: position{line: 2778, col: 5, offset: 88429},
+				pos: position{line: 2778, col: 5, offset: 88476},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2778, col: 5, offset: 88429},
+					pos: position{line: 2778, col: 5, offset: 88476},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2778, col: 5, offset: 88429},
+							pos:   position{line: 2778, col: 5, offset: 88476},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2801, col: 18, offset: 89170},
+								pos: position{line: 2801, col: 18, offset: 89217},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2801, col: 19, offset: 89171},
+									pos: position{line: 2801, col: 19, offset: 89218},
 									expr: &charClassMatcher{
-										pos:        position{line: 2801, col: 19, offset: 89171},
+										pos:        position{line: 2801, col: 19, offset: 89218},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47906,25 +47974,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2779, col: 5, offset: 88455},
+							pos: position{line: 2779, col: 5, offset: 88502},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2783, col: 5, offset: 88583},
+							pos:        position{line: 2783, col: 5, offset: 88630},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2784, col: 5, offset: 88593},
+							pos:   position{line: 2784, col: 5, offset: 88640},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2805, col: 19, offset: 89246},
+								pos: position{line: 2805, col: 19, offset: 89293},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2805, col: 19, offset: 89246},
+									pos: position{line: 2805, col: 19, offset: 89293},
 									expr: &charClassMatcher{
-										pos:        position{line: 2805, col: 19, offset: 89246},
+										pos:        position{line: 2805, col: 19, offset: 89293},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47934,36 +48002,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2785, col: 5, offset: 88621},
+							pos:   position{line: 2785, col: 5, offset: 88668},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2785, col: 17, offset: 88633},
+								pos:  position{line: 2785, col: 17, offset: 88680},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92809},
+							pos: position{line: 2944, col: 8, offset: 92856},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92582},
+									pos: position{line: 2931, col: 12, offset: 92629},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92583},
+										pos: position{line: 2931, col: 13, offset: 92630},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92583},
+												pos:        position{line: 2931, col: 13, offset: 92630},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92590},
+												pos:        position{line: 2931, col: 20, offset: 92637},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92599},
+												pos:        position{line: 2931, col: 29, offset: 92646},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -47972,9 +48040,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92759},
+									pos: position{line: 2941, col: 8, offset: 92806},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92760,
+										line: 2941, col: 9, offset: 92807,
 									},
 								},
 							},
@@ -47985,23 +48053,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2789, col: 1, offset: 88781},
+			pos:  position{line: 2789, col: 1, offset: 88828},
 			expr: &actionExpr{
-				pos: position{line: 2790, col: 5, offset: 88805},
+				pos: position{line: 2790, col: 5, offset: 88852},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2790, col: 5, offset: 88805},
+					pos: position{line: 2790, col: 5, offset: 88852},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2790, col: 5, offset: 88805},
+							pos:   position{line: 2790, col: 5, offset: 88852},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2801, col: 18, offset: 89170},
+								pos: position{line: 2801, col: 18, offset: 89217},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2801, col: 19, offset: 89171},
+									pos: position{line: 2801, col: 19, offset: 89218},
 									expr: &charClassMatcher{
-										pos:        position{line: 2801, col: 19, offset: 89171},
+										pos:        position{line: 2801, col: 19, offset: 89218},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48012,25 +48080,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2791, col: 5, offset: 88831},
+							pos: position{line: 2791, col: 5, offset: 88878},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2795, col: 5, offset: 88959},
+							pos:        position{line: 2795, col: 5, offset: 89006},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2796, col: 5, offset: 88968},
+							pos:   position{line: 2796, col: 5, offset: 89015},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2805, col: 19, offset: 89246},
+								pos: position{line: 2805, col: 19, offset: 89293},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2805, col: 19, offset: 89246},
+									pos: position{line: 2805, col: 19, offset: 89293},
 									expr: &charClassMatcher{
-										pos:        position{line: 2805, col: 19, offset: 89246},
+										pos:        position{line: 2805, col: 19, offset: 89293},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48040,10 +48108,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2797, col: 5, offset: 88996},
+							pos:   position{line: 2797, col: 5, offset: 89043},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2797, col: 17, offset: 89008},
+								pos:  position{line: 2797, col: 17, offset: 89055},
 								name: "InlineAttributes",
 							},
 						},
@@ -48053,43 +48121,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2876, col: 1, offset: 91058},
+			pos:  position{line: 2876, col: 1, offset: 91105},
 			expr: &actionExpr{
-				pos: position{line: 2876, col: 17, offset: 91074},
+				pos: position{line: 2876, col: 17, offset: 91121},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2876, col: 17, offset: 91074},
+					pos:   position{line: 2876, col: 17, offset: 91121},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2893, col: 5, offset: 91528},
+						pos: position{line: 2893, col: 5, offset: 91575},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2893, col: 5, offset: 91528},
+							pos:   position{line: 2893, col: 5, offset: 91575},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2893, col: 14, offset: 91537},
+								pos: position{line: 2893, col: 14, offset: 91584},
 								expr: &choiceExpr{
-									pos: position{line: 2894, col: 9, offset: 91547},
+									pos: position{line: 2894, col: 9, offset: 91594},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2894, col: 9, offset: 91547},
+											pos: position{line: 2894, col: 9, offset: 91594},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2894, col: 9, offset: 91547},
+												pos: position{line: 2894, col: 9, offset: 91594},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2894, col: 9, offset: 91547},
+														pos: position{line: 2894, col: 9, offset: 91594},
 														expr: &litMatcher{
-															pos:        position{line: 2894, col: 10, offset: 91548},
+															pos:        position{line: 2894, col: 10, offset: 91595},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2895, col: 9, offset: 91576},
+														pos: position{line: 2895, col: 9, offset: 91623},
 														expr: &charClassMatcher{
-															pos:        position{line: 2895, col: 10, offset: 91577},
+															pos:        position{line: 2895, col: 10, offset: 91624},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -48100,27 +48168,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2898, col: 11, offset: 91789},
+											pos: position{line: 2898, col: 11, offset: 91836},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2898, col: 11, offset: 91789},
+													pos:        position{line: 2898, col: 11, offset: 91836},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2898, col: 19, offset: 91797},
+													pos: position{line: 2898, col: 19, offset: 91844},
 													expr: &seqExpr{
-														pos: position{line: 2898, col: 21, offset: 91799},
+														pos: position{line: 2898, col: 21, offset: 91846},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2898, col: 21, offset: 91799},
+																pos: position{line: 2898, col: 21, offset: 91846},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92411},
+																	pos: position{line: 2922, col: 10, offset: 92458},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92411},
+																		pos:        position{line: 2922, col: 10, offset: 92458},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48129,11 +48197,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2898, col: 28, offset: 91806},
+																pos: position{line: 2898, col: 28, offset: 91853},
 																expr: &notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92759},
+																	pos: position{line: 2941, col: 8, offset: 92806},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92760,
+																		line: 2941, col: 9, offset: 92807,
 																	},
 																},
 															},
@@ -48524,14 +48592,18 @@ var g = &grammar{
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
+													&andCodeExpr{
+														pos: position{line: 1211, col: 123, offset: 37756},
+														run: (*parser).callonFileLocation100,
+													},
 												},
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2901, col: 11, offset: 91926},
-											run: (*parser).callonFileLocation100,
+											pos: position{line: 2901, col: 11, offset: 91973},
+											run: (*parser).callonFileLocation101,
 											expr: &litMatcher{
-												pos:        position{line: 2901, col: 11, offset: 91926},
+												pos:        position{line: 2901, col: 11, offset: 91973},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -50081,6 +50153,16 @@ func (p *parser) callonFileInclusion103() (interface{}, error) {
 	return p.cur.onFileInclusion103()
 }
 
+func (c *current) onFileInclusion107(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)), nil
+}
+
+func (p *parser) callonFileInclusion107() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onFileInclusion107(stack["ref"])
+}
+
 func (c *current) onFileInclusion99(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -50091,15 +50173,15 @@ func (p *parser) callonFileInclusion99() (interface{}, error) {
 	return p.cur.onFileInclusion99(stack["ref"])
 }
 
-func (c *current) onFileInclusion107() (interface{}, error) {
+func (c *current) onFileInclusion108() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFileInclusion107() (interface{}, error) {
+func (p *parser) callonFileInclusion108() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFileInclusion107()
+	return p.cur.onFileInclusion108()
 }
 
 func (c *current) onFileInclusion10(elements interface{}) (interface{}, error) {
@@ -50136,27 +50218,27 @@ func (p *parser) callonFileInclusion4() (interface{}, error) {
 	return p.cur.onFileInclusion4(stack["path"], stack["attributes"])
 }
 
-func (c *current) onFileInclusion112() (interface{}, error) {
+func (c *current) onFileInclusion113() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFileInclusion112() (interface{}, error) {
+func (p *parser) callonFileInclusion113() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFileInclusion112()
+	return p.cur.onFileInclusion113()
 }
 
-func (c *current) onFileInclusion115() (interface{}, error) {
+func (c *current) onFileInclusion116() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonFileInclusion115() (interface{}, error) {
+func (p *parser) callonFileInclusion116() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFileInclusion115()
+	return p.cur.onFileInclusion116()
 }
 
 func (c *current) onFileInclusion1(incl interface{}) (interface{}, error) {
@@ -54008,6 +54090,16 @@ func (p *parser) callonDelimitedBlockElements11() (interface{}, error) {
 	return p.cur.onDelimitedBlockElements11()
 }
 
+func (c *current) onDelimitedBlockElements15(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)), nil
+}
+
+func (p *parser) callonDelimitedBlockElements15() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDelimitedBlockElements15(stack["ref"])
+}
+
 func (c *current) onDelimitedBlockElements7(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -54441,6 +54533,16 @@ func (p *parser) callonBlockAttributes23() (interface{}, error) {
 	return p.cur.onBlockAttributes23()
 }
 
+func (c *current) onBlockAttributes27(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)), nil
+}
+
+func (p *parser) callonBlockAttributes27() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes27(stack["ref"])
+}
+
 func (c *current) onBlockAttributes19(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -54451,29 +54553,29 @@ func (p *parser) callonBlockAttributes19() (interface{}, error) {
 	return p.cur.onBlockAttributes19(stack["ref"])
 }
 
-func (c *current) onBlockAttributes29() (bool, error) {
+func (c *current) onBlockAttributes30() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonBlockAttributes29() (bool, error) {
+func (p *parser) callonBlockAttributes30() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes29()
+	return p.cur.onBlockAttributes30()
 }
 
-func (c *current) onBlockAttributes36() (interface{}, error) {
+func (c *current) onBlockAttributes37() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes36() (interface{}, error) {
+func (p *parser) callonBlockAttributes37() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes36()
+	return p.cur.onBlockAttributes37()
 }
 
-func (c *current) onBlockAttributes32(name interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes33(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -54481,166 +54583,166 @@ func (c *current) onBlockAttributes32(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonBlockAttributes32() (interface{}, error) {
+func (p *parser) callonBlockAttributes33() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes32(stack["name"])
+	return p.cur.onBlockAttributes33(stack["name"])
 }
 
-func (c *current) onBlockAttributes46() (interface{}, error) {
+func (c *current) onBlockAttributes47() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes46() (interface{}, error) {
+func (p *parser) callonBlockAttributes47() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes46()
+	return p.cur.onBlockAttributes47()
 }
 
-func (c *current) onBlockAttributes42(name interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes43(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonBlockAttributes42() (interface{}, error) {
+func (p *parser) callonBlockAttributes43() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes42(stack["name"])
+	return p.cur.onBlockAttributes43(stack["name"])
 }
 
-func (c *current) onBlockAttributes56() (interface{}, error) {
+func (c *current) onBlockAttributes57() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes56() (interface{}, error) {
+func (p *parser) callonBlockAttributes57() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes56()
+	return p.cur.onBlockAttributes57()
 }
 
-func (c *current) onBlockAttributes68() (interface{}, error) {
+func (c *current) onBlockAttributes69() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes68() (interface{}, error) {
+func (p *parser) callonBlockAttributes69() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes68()
+	return p.cur.onBlockAttributes69()
 }
 
-func (c *current) onBlockAttributes70() (interface{}, error) {
+func (c *current) onBlockAttributes71() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonBlockAttributes70() (interface{}, error) {
+func (p *parser) callonBlockAttributes71() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes70()
+	return p.cur.onBlockAttributes71()
 }
 
-func (c *current) onBlockAttributes63(start interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes64(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonBlockAttributes63() (interface{}, error) {
+func (p *parser) callonBlockAttributes64() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes63(stack["start"])
+	return p.cur.onBlockAttributes64(stack["start"])
 }
 
-func (c *current) onBlockAttributes52(name, start interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes53(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonBlockAttributes52() (interface{}, error) {
+func (p *parser) callonBlockAttributes53() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes52(stack["name"], stack["start"])
+	return p.cur.onBlockAttributes53(stack["name"], stack["start"])
 }
 
-func (c *current) onBlockAttributes78() (interface{}, error) {
+func (c *current) onBlockAttributes79() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes78() (interface{}, error) {
+func (p *parser) callonBlockAttributes79() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes78()
+	return p.cur.onBlockAttributes79()
 }
 
-func (c *current) onBlockAttributes90() (interface{}, error) {
+func (c *current) onBlockAttributes91() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes90() (interface{}, error) {
+func (p *parser) callonBlockAttributes91() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes90()
+	return p.cur.onBlockAttributes91()
 }
 
-func (c *current) onBlockAttributes92() (interface{}, error) {
+func (c *current) onBlockAttributes93() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonBlockAttributes92() (interface{}, error) {
+func (p *parser) callonBlockAttributes93() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes92()
+	return p.cur.onBlockAttributes93()
 }
 
-func (c *current) onBlockAttributes85(start interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes86(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonBlockAttributes85() (interface{}, error) {
+func (p *parser) callonBlockAttributes86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes85(stack["start"])
+	return p.cur.onBlockAttributes86(stack["start"])
 }
 
-func (c *current) onBlockAttributes74(name, start interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes75(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
-func (p *parser) callonBlockAttributes74() (interface{}, error) {
+func (p *parser) callonBlockAttributes75() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes74(stack["name"], stack["start"])
+	return p.cur.onBlockAttributes75(stack["name"], stack["start"])
 }
 
-func (c *current) onBlockAttributes27(element interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes28(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonBlockAttributes27() (interface{}, error) {
+func (p *parser) callonBlockAttributes28() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes27(stack["element"])
+	return p.cur.onBlockAttributes28(stack["element"])
 }
 
-func (c *current) onBlockAttributes96() (interface{}, error) {
+func (c *current) onBlockAttributes97() (interface{}, error) {
 
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonBlockAttributes96() (interface{}, error) {
+func (p *parser) callonBlockAttributes97() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes96()
+	return p.cur.onBlockAttributes97()
 }
 
 func (c *current) onBlockAttributes12(elements interface{}) (interface{}, error) {
@@ -54665,95 +54767,95 @@ func (p *parser) callonBlockAttributes8() (interface{}, error) {
 	return p.cur.onBlockAttributes8(stack["id"])
 }
 
-func (c *current) onBlockAttributes100() (interface{}, error) {
+func (c *current) onBlockAttributes101() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes100() (interface{}, error) {
+func (p *parser) callonBlockAttributes101() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes100()
+	return p.cur.onBlockAttributes101()
 }
 
-func (c *current) onBlockAttributes103() (interface{}, error) {
+func (c *current) onBlockAttributes104() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes103() (interface{}, error) {
+func (p *parser) callonBlockAttributes104() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes103()
+	return p.cur.onBlockAttributes104()
 }
 
-func (c *current) onBlockAttributes117() (interface{}, error) {
+func (c *current) onBlockAttributes118() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes117() (interface{}, error) {
+func (p *parser) callonBlockAttributes118() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes117()
+	return p.cur.onBlockAttributes118()
 }
 
-func (c *current) onBlockAttributes120() (interface{}, error) {
+func (c *current) onBlockAttributes121() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes120() (interface{}, error) {
+func (p *parser) callonBlockAttributes121() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes120()
+	return p.cur.onBlockAttributes121()
 }
 
-func (c *current) onBlockAttributes112() (interface{}, error) {
+func (c *current) onBlockAttributes113() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonBlockAttributes112() (interface{}, error) {
+func (p *parser) callonBlockAttributes113() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes112()
+	return p.cur.onBlockAttributes113()
 }
 
-func (c *current) onBlockAttributes133() (interface{}, error) {
+func (c *current) onBlockAttributes134() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes133() (interface{}, error) {
+func (p *parser) callonBlockAttributes134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes133()
+	return p.cur.onBlockAttributes134()
 }
 
-func (c *current) onBlockAttributes137() (interface{}, error) {
+func (c *current) onBlockAttributes138() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes137() (interface{}, error) {
+func (p *parser) callonBlockAttributes138() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes137()
+	return p.cur.onBlockAttributes138()
 }
 
-func (c *current) onBlockAttributes127(content interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes128(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonBlockAttributes127() (interface{}, error) {
+func (p *parser) callonBlockAttributes128() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes127(stack["content"])
+	return p.cur.onBlockAttributes128(stack["content"])
 }
 
 func (c *current) onBlockAttributes5(anchor interface{}) (interface{}, error) {
@@ -54767,78 +54869,78 @@ func (p *parser) callonBlockAttributes5() (interface{}, error) {
 	return p.cur.onBlockAttributes5(stack["anchor"])
 }
 
-func (c *current) onBlockAttributes155() (interface{}, error) {
+func (c *current) onBlockAttributes156() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes155() (interface{}, error) {
+func (p *parser) callonBlockAttributes156() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes155()
+	return p.cur.onBlockAttributes156()
 }
 
-func (c *current) onBlockAttributes158() (interface{}, error) {
+func (c *current) onBlockAttributes159() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes158() (interface{}, error) {
+func (p *parser) callonBlockAttributes159() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes158()
+	return p.cur.onBlockAttributes159()
 }
 
-func (c *current) onBlockAttributes164() (bool, error) {
+func (c *current) onBlockAttributes165() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonBlockAttributes164() (bool, error) {
+func (p *parser) callonBlockAttributes165() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes164()
+	return p.cur.onBlockAttributes165()
 }
 
-func (c *current) onBlockAttributes168() (bool, error) {
+func (c *current) onBlockAttributes169() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonBlockAttributes168() (bool, error) {
+func (p *parser) callonBlockAttributes169() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes168()
+	return p.cur.onBlockAttributes169()
 }
 
-func (c *current) onBlockAttributes160() (interface{}, error) {
+func (c *current) onBlockAttributes161() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes160() (interface{}, error) {
+func (p *parser) callonBlockAttributes161() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes160()
+	return p.cur.onBlockAttributes161()
 }
 
-func (c *current) onBlockAttributes178() (interface{}, error) {
+func (c *current) onBlockAttributes179() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes178() (interface{}, error) {
+func (p *parser) callonBlockAttributes179() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes178()
+	return p.cur.onBlockAttributes179()
 }
 
-func (c *current) onBlockAttributes174(name interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes175(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -54846,146 +54948,146 @@ func (c *current) onBlockAttributes174(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonBlockAttributes174() (interface{}, error) {
+func (p *parser) callonBlockAttributes175() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes174(stack["name"])
+	return p.cur.onBlockAttributes175(stack["name"])
 }
 
-func (c *current) onBlockAttributes188() (interface{}, error) {
+func (c *current) onBlockAttributes189() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes188() (interface{}, error) {
+func (p *parser) callonBlockAttributes189() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes188()
+	return p.cur.onBlockAttributes189()
 }
 
-func (c *current) onBlockAttributes184(name interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes185(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonBlockAttributes184() (interface{}, error) {
+func (p *parser) callonBlockAttributes185() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes184(stack["name"])
+	return p.cur.onBlockAttributes185(stack["name"])
 }
 
-func (c *current) onBlockAttributes198() (interface{}, error) {
+func (c *current) onBlockAttributes199() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes198() (interface{}, error) {
+func (p *parser) callonBlockAttributes199() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes198()
+	return p.cur.onBlockAttributes199()
 }
 
-func (c *current) onBlockAttributes210() (interface{}, error) {
+func (c *current) onBlockAttributes211() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes210() (interface{}, error) {
+func (p *parser) callonBlockAttributes211() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes210()
+	return p.cur.onBlockAttributes211()
 }
 
-func (c *current) onBlockAttributes212() (interface{}, error) {
+func (c *current) onBlockAttributes213() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonBlockAttributes212() (interface{}, error) {
+func (p *parser) callonBlockAttributes213() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes212()
+	return p.cur.onBlockAttributes213()
 }
 
-func (c *current) onBlockAttributes205(start interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes206(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonBlockAttributes205() (interface{}, error) {
+func (p *parser) callonBlockAttributes206() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes205(stack["start"])
+	return p.cur.onBlockAttributes206(stack["start"])
 }
 
-func (c *current) onBlockAttributes194(name, start interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes195(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonBlockAttributes194() (interface{}, error) {
+func (p *parser) callonBlockAttributes195() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes194(stack["name"], stack["start"])
+	return p.cur.onBlockAttributes195(stack["name"], stack["start"])
 }
 
-func (c *current) onBlockAttributes220() (interface{}, error) {
+func (c *current) onBlockAttributes221() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes220() (interface{}, error) {
+func (p *parser) callonBlockAttributes221() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes220()
+	return p.cur.onBlockAttributes221()
 }
 
-func (c *current) onBlockAttributes232() (interface{}, error) {
+func (c *current) onBlockAttributes233() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes232() (interface{}, error) {
+func (p *parser) callonBlockAttributes233() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes232()
+	return p.cur.onBlockAttributes233()
 }
 
-func (c *current) onBlockAttributes234() (interface{}, error) {
+func (c *current) onBlockAttributes235() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonBlockAttributes234() (interface{}, error) {
+func (p *parser) callonBlockAttributes235() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes234()
+	return p.cur.onBlockAttributes235()
 }
 
-func (c *current) onBlockAttributes227(start interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes228(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonBlockAttributes227() (interface{}, error) {
+func (p *parser) callonBlockAttributes228() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes227(stack["start"])
+	return p.cur.onBlockAttributes228(stack["start"])
 }
 
-func (c *current) onBlockAttributes216(name, start interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes217(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
-func (p *parser) callonBlockAttributes216() (interface{}, error) {
+func (p *parser) callonBlockAttributes217() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes216(stack["name"], stack["start"])
+	return p.cur.onBlockAttributes217(stack["name"], stack["start"])
 }
 
-func (c *current) onBlockAttributes238() (interface{}, error) {
+func (c *current) onBlockAttributes239() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -54994,225 +55096,225 @@ func (c *current) onBlockAttributes238() (interface{}, error) {
 
 }
 
-func (p *parser) callonBlockAttributes238() (interface{}, error) {
+func (p *parser) callonBlockAttributes239() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes238()
+	return p.cur.onBlockAttributes239()
 }
 
-func (c *current) onBlockAttributes147(elements interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes148(elements interface{}) (interface{}, error) {
 	return types.NewTitleAttribute(types.Reduce(elements, strings.TrimSpace))
 
 }
 
-func (p *parser) callonBlockAttributes147() (interface{}, error) {
+func (p *parser) callonBlockAttributes148() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes147(stack["elements"])
+	return p.cur.onBlockAttributes148(stack["elements"])
 }
 
-func (c *current) onBlockAttributes241() (interface{}, error) {
+func (c *current) onBlockAttributes242() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes241() (interface{}, error) {
+func (p *parser) callonBlockAttributes242() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes241()
+	return p.cur.onBlockAttributes242()
 }
 
-func (c *current) onBlockAttributes244() (interface{}, error) {
+func (c *current) onBlockAttributes245() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes244() (interface{}, error) {
+func (p *parser) callonBlockAttributes245() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes244()
+	return p.cur.onBlockAttributes245()
 }
 
-func (c *current) onBlockAttributes258() (interface{}, error) {
+func (c *current) onBlockAttributes259() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes258() (interface{}, error) {
+func (p *parser) callonBlockAttributes259() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes258()
+	return p.cur.onBlockAttributes259()
 }
 
-func (c *current) onBlockAttributes261() (interface{}, error) {
+func (c *current) onBlockAttributes262() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes261() (interface{}, error) {
+func (p *parser) callonBlockAttributes262() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes261()
+	return p.cur.onBlockAttributes262()
 }
 
-func (c *current) onBlockAttributes253() (interface{}, error) {
+func (c *current) onBlockAttributes254() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonBlockAttributes253() (interface{}, error) {
+func (p *parser) callonBlockAttributes254() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes253()
+	return p.cur.onBlockAttributes254()
 }
 
-func (c *current) onBlockAttributes274() (interface{}, error) {
+func (c *current) onBlockAttributes275() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes274() (interface{}, error) {
+func (p *parser) callonBlockAttributes275() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes274()
+	return p.cur.onBlockAttributes275()
 }
 
-func (c *current) onBlockAttributes278() (interface{}, error) {
+func (c *current) onBlockAttributes279() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes278() (interface{}, error) {
+func (p *parser) callonBlockAttributes279() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes278()
+	return p.cur.onBlockAttributes279()
 }
 
-func (c *current) onBlockAttributes268(content interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes269(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonBlockAttributes268() (interface{}, error) {
+func (p *parser) callonBlockAttributes269() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes268(stack["content"])
+	return p.cur.onBlockAttributes269(stack["content"])
 }
 
-func (c *current) onBlockAttributes144(title interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes145(title interface{}) (interface{}, error) {
 	return title, nil
 
 }
 
-func (p *parser) callonBlockAttributes144() (interface{}, error) {
+func (p *parser) callonBlockAttributes145() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes144(stack["title"])
+	return p.cur.onBlockAttributes145(stack["title"])
 }
 
-func (c *current) onBlockAttributes290() (interface{}, error) {
+func (c *current) onBlockAttributes291() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes290() (interface{}, error) {
+func (p *parser) callonBlockAttributes291() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes290()
+	return p.cur.onBlockAttributes291()
 }
 
-func (c *current) onBlockAttributes293() (interface{}, error) {
+func (c *current) onBlockAttributes294() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes293() (interface{}, error) {
+func (p *parser) callonBlockAttributes294() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes293()
+	return p.cur.onBlockAttributes294()
 }
 
-func (c *current) onBlockAttributes307() (interface{}, error) {
+func (c *current) onBlockAttributes308() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes307() (interface{}, error) {
+func (p *parser) callonBlockAttributes308() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes307()
+	return p.cur.onBlockAttributes308()
 }
 
-func (c *current) onBlockAttributes310() (interface{}, error) {
+func (c *current) onBlockAttributes311() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes310() (interface{}, error) {
+func (p *parser) callonBlockAttributes311() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes310()
+	return p.cur.onBlockAttributes311()
 }
 
-func (c *current) onBlockAttributes302() (interface{}, error) {
+func (c *current) onBlockAttributes303() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonBlockAttributes302() (interface{}, error) {
+func (p *parser) callonBlockAttributes303() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes302()
+	return p.cur.onBlockAttributes303()
 }
 
-func (c *current) onBlockAttributes323() (interface{}, error) {
+func (c *current) onBlockAttributes324() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes323() (interface{}, error) {
+func (p *parser) callonBlockAttributes324() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes323()
+	return p.cur.onBlockAttributes324()
 }
 
-func (c *current) onBlockAttributes327() (interface{}, error) {
+func (c *current) onBlockAttributes328() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes327() (interface{}, error) {
+func (p *parser) callonBlockAttributes328() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes327()
+	return p.cur.onBlockAttributes328()
 }
 
-func (c *current) onBlockAttributes317(content interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes318(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonBlockAttributes317() (interface{}, error) {
+func (p *parser) callonBlockAttributes318() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes317(stack["content"])
+	return p.cur.onBlockAttributes318(stack["content"])
 }
 
-func (c *current) onBlockAttributes285(attributes interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes286(attributes interface{}) (interface{}, error) {
 	return attributes, nil
 
 }
 
-func (p *parser) callonBlockAttributes285() (interface{}, error) {
+func (p *parser) callonBlockAttributes286() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes285(stack["attributes"])
+	return p.cur.onBlockAttributes286(stack["attributes"])
 }
 
 func (c *current) onBlockAttributes1(attributes interface{}) (interface{}, error) {
@@ -56859,6 +56961,16 @@ func (p *parser) callonExternalCrossReference100() (interface{}, error) {
 	return p.cur.onExternalCrossReference100()
 }
 
+func (c *current) onExternalCrossReference104(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)), nil
+}
+
+func (p *parser) callonExternalCrossReference104() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalCrossReference104(stack["ref"])
+}
+
 func (c *current) onExternalCrossReference96(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -56869,15 +56981,15 @@ func (p *parser) callonExternalCrossReference96() (interface{}, error) {
 	return p.cur.onExternalCrossReference96(stack["ref"])
 }
 
-func (c *current) onExternalCrossReference104() (interface{}, error) {
+func (c *current) onExternalCrossReference105() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalCrossReference104() (interface{}, error) {
+func (p *parser) callonExternalCrossReference105() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalCrossReference104()
+	return p.cur.onExternalCrossReference105()
 }
 
 func (c *current) onExternalCrossReference7(elements interface{}) (interface{}, error) {
@@ -58560,6 +58672,16 @@ func (p *parser) callonIndexTermContent21() (interface{}, error) {
 	return p.cur.onIndexTermContent21()
 }
 
+func (c *current) onIndexTermContent25(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)), nil
+}
+
+func (p *parser) callonIndexTermContent25() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onIndexTermContent25(stack["ref"])
+}
+
 func (c *current) onIndexTermContent17(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -58570,14 +58692,14 @@ func (p *parser) callonIndexTermContent17() (interface{}, error) {
 	return p.cur.onIndexTermContent17(stack["ref"])
 }
 
-func (c *current) onIndexTermContent25() (interface{}, error) {
+func (c *current) onIndexTermContent26() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonIndexTermContent25() (interface{}, error) {
+func (p *parser) callonIndexTermContent26() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onIndexTermContent25()
+	return p.cur.onIndexTermContent26()
 }
 
 func (c *current) onIndexTermContent1(elements interface{}) (interface{}, error) {
@@ -58814,6 +58936,16 @@ func (p *parser) callonImageBlock110() (interface{}, error) {
 	return p.cur.onImageBlock110()
 }
 
+func (c *current) onImageBlock114(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)), nil
+}
+
+func (p *parser) callonImageBlock114() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onImageBlock114(stack["ref"])
+}
+
 func (c *current) onImageBlock106(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -58824,15 +58956,15 @@ func (p *parser) callonImageBlock106() (interface{}, error) {
 	return p.cur.onImageBlock106(stack["ref"])
 }
 
-func (c *current) onImageBlock114() (interface{}, error) {
+func (c *current) onImageBlock115() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonImageBlock114() (interface{}, error) {
+func (p *parser) callonImageBlock115() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock114()
+	return p.cur.onImageBlock115()
 }
 
 func (c *current) onImageBlock17(elements interface{}) (interface{}, error) {
@@ -58857,27 +58989,27 @@ func (p *parser) callonImageBlock5() (interface{}, error) {
 	return p.cur.onImageBlock5(stack["scheme"], stack["path"])
 }
 
-func (c *current) onImageBlock119() (interface{}, error) {
+func (c *current) onImageBlock120() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonImageBlock119() (interface{}, error) {
+func (p *parser) callonImageBlock120() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock119()
+	return p.cur.onImageBlock120()
 }
 
-func (c *current) onImageBlock122() (interface{}, error) {
+func (c *current) onImageBlock123() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonImageBlock122() (interface{}, error) {
+func (p *parser) callonImageBlock123() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock122()
+	return p.cur.onImageBlock123()
 }
 
 func (c *current) onImageBlock1(path, attributes interface{}) (interface{}, error) {
@@ -59116,6 +59248,16 @@ func (p *parser) callonInlineImage112() (interface{}, error) {
 	return p.cur.onInlineImage112()
 }
 
+func (c *current) onInlineImage116(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)), nil
+}
+
+func (p *parser) callonInlineImage116() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onInlineImage116(stack["ref"])
+}
+
 func (c *current) onInlineImage108(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -59126,15 +59268,15 @@ func (p *parser) callonInlineImage108() (interface{}, error) {
 	return p.cur.onInlineImage108(stack["ref"])
 }
 
-func (c *current) onInlineImage116() (interface{}, error) {
+func (c *current) onInlineImage117() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonInlineImage116() (interface{}, error) {
+func (p *parser) callonInlineImage117() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlineImage116()
+	return p.cur.onInlineImage117()
 }
 
 func (c *current) onInlineImage19(elements interface{}) (interface{}, error) {
@@ -59944,6 +60086,16 @@ func (p *parser) callonLink112() (interface{}, error) {
 	return p.cur.onLink112()
 }
 
+func (c *current) onLink116(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)), nil
+}
+
+func (p *parser) callonLink116() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onLink116(stack["ref"])
+}
+
 func (c *current) onLink108(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -59954,15 +60106,15 @@ func (p *parser) callonLink108() (interface{}, error) {
 	return p.cur.onLink108(stack["ref"])
 }
 
-func (c *current) onLink116() (interface{}, error) {
+func (c *current) onLink117() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonLink116() (interface{}, error) {
+func (p *parser) callonLink117() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink116()
+	return p.cur.onLink117()
 }
 
 func (c *current) onLink19(elements interface{}) (interface{}, error) {
@@ -59999,19 +60151,19 @@ func (p *parser) callonLink2() (interface{}, error) {
 	return p.cur.onLink2(stack["url"])
 }
 
-func (c *current) onLink127() (interface{}, error) {
+func (c *current) onLink128() (interface{}, error) {
 	// `'
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonLink127() (interface{}, error) {
+func (p *parser) callonLink128() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink127()
+	return p.cur.onLink128()
 }
 
-func (c *current) onLink130(local interface{}) (bool, error) {
+func (c *current) onLink131(local interface{}) (bool, error) {
 	// must not start or end with `.` nor contain `..`
 	return !strings.HasPrefix(local.(string), ".") &&
 		!strings.HasSuffix(local.(string), ".") &&
@@ -60019,65 +60171,65 @@ func (c *current) onLink130(local interface{}) (bool, error) {
 
 }
 
-func (p *parser) callonLink130() (bool, error) {
+func (p *parser) callonLink131() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink130(stack["local"])
+	return p.cur.onLink131(stack["local"])
 }
 
-func (c *current) onLink124(local interface{}) (interface{}, error) {
+func (c *current) onLink125(local interface{}) (interface{}, error) {
 	return local, nil
 
 }
 
-func (p *parser) callonLink124() (interface{}, error) {
+func (p *parser) callonLink125() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink124(stack["local"])
+	return p.cur.onLink125(stack["local"])
 }
 
-func (c *current) onLink136() (interface{}, error) {
+func (c *current) onLink137() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonLink136() (interface{}, error) {
+func (p *parser) callonLink137() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink136()
+	return p.cur.onLink137()
 }
 
-func (c *current) onLink145(domain interface{}) (bool, error) {
+func (c *current) onLink146(domain interface{}) (bool, error) {
 	// must not end with `-`
 	return !strings.HasSuffix(domain.(string), "-"), nil
 
 }
 
-func (p *parser) callonLink145() (bool, error) {
+func (p *parser) callonLink146() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink145(stack["domain"])
+	return p.cur.onLink146(stack["domain"])
 }
 
-func (c *current) onLink133(domain interface{}) (interface{}, error) {
+func (c *current) onLink134(domain interface{}) (interface{}, error) {
 	return domain, nil
 
 }
 
-func (p *parser) callonLink133() (interface{}, error) {
+func (p *parser) callonLink134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink133(stack["domain"])
+	return p.cur.onLink134(stack["domain"])
 }
 
-func (c *current) onLink121(local, domain interface{}) (interface{}, error) {
+func (c *current) onLink122(local, domain interface{}) (interface{}, error) {
 	return types.NewEmailAddressLink(local.(string) + "@" + domain.(string))
 }
 
-func (p *parser) callonLink121() (interface{}, error) {
+func (p *parser) callonLink122() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink121(stack["local"], stack["domain"])
+	return p.cur.onLink122(stack["local"], stack["domain"])
 }
 
 func (c *current) onRelativeLink10() (interface{}, error) {
@@ -60304,6 +60456,16 @@ func (p *parser) callonRelativeLink111() (interface{}, error) {
 	return p.cur.onRelativeLink111()
 }
 
+func (c *current) onRelativeLink115(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)), nil
+}
+
+func (p *parser) callonRelativeLink115() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onRelativeLink115(stack["ref"])
+}
+
 func (c *current) onRelativeLink107(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -60314,15 +60476,15 @@ func (p *parser) callonRelativeLink107() (interface{}, error) {
 	return p.cur.onRelativeLink107(stack["ref"])
 }
 
-func (c *current) onRelativeLink115() (interface{}, error) {
+func (c *current) onRelativeLink116() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink115() (interface{}, error) {
+func (p *parser) callonRelativeLink116() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink115()
+	return p.cur.onRelativeLink116()
 }
 
 func (c *current) onRelativeLink18(elements interface{}) (interface{}, error) {
@@ -60358,63 +60520,63 @@ func (p *parser) callonRelativeLink2() (interface{}, error) {
 	return p.cur.onRelativeLink2(stack["url"], stack["attributes"])
 }
 
-func (c *current) onRelativeLink127() (interface{}, error) {
+func (c *current) onRelativeLink128() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonRelativeLink127() (interface{}, error) {
+func (p *parser) callonRelativeLink128() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink127()
+	return p.cur.onRelativeLink128()
 }
 
-func (c *current) onRelativeLink139() (interface{}, error) {
+func (c *current) onRelativeLink140() (interface{}, error) {
 	// excluding EOL, space, "{", "[", "]". Also, punctuation chars and `<` and `>` special chars are treated separately below
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink139() (interface{}, error) {
+func (p *parser) callonRelativeLink140() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink139()
+	return p.cur.onRelativeLink140()
 }
 
-func (c *current) onRelativeLink150() (interface{}, error) {
+func (c *current) onRelativeLink151() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink150() (interface{}, error) {
+func (p *parser) callonRelativeLink151() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink150()
+	return p.cur.onRelativeLink151()
 }
 
-func (c *current) onRelativeLink157() (bool, error) {
+func (c *current) onRelativeLink158() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonRelativeLink157() (bool, error) {
+func (p *parser) callonRelativeLink158() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink157()
+	return p.cur.onRelativeLink158()
 }
 
-func (c *current) onRelativeLink164() (interface{}, error) {
+func (c *current) onRelativeLink165() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink164() (interface{}, error) {
+func (p *parser) callonRelativeLink165() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink164()
+	return p.cur.onRelativeLink165()
 }
 
-func (c *current) onRelativeLink160(name interface{}) (interface{}, error) {
+func (c *current) onRelativeLink161(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -60422,218 +60584,228 @@ func (c *current) onRelativeLink160(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonRelativeLink160() (interface{}, error) {
+func (p *parser) callonRelativeLink161() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink160(stack["name"])
+	return p.cur.onRelativeLink161(stack["name"])
 }
 
-func (c *current) onRelativeLink174() (interface{}, error) {
+func (c *current) onRelativeLink175() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink174() (interface{}, error) {
+func (p *parser) callonRelativeLink175() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink174()
+	return p.cur.onRelativeLink175()
 }
 
-func (c *current) onRelativeLink170(name interface{}) (interface{}, error) {
+func (c *current) onRelativeLink171(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonRelativeLink170() (interface{}, error) {
+func (p *parser) callonRelativeLink171() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink170(stack["name"])
+	return p.cur.onRelativeLink171(stack["name"])
 }
 
-func (c *current) onRelativeLink184() (interface{}, error) {
+func (c *current) onRelativeLink185() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink184() (interface{}, error) {
+func (p *parser) callonRelativeLink185() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink184()
+	return p.cur.onRelativeLink185()
 }
 
-func (c *current) onRelativeLink196() (interface{}, error) {
+func (c *current) onRelativeLink197() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink196() (interface{}, error) {
+func (p *parser) callonRelativeLink197() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink196()
+	return p.cur.onRelativeLink197()
 }
 
-func (c *current) onRelativeLink198() (interface{}, error) {
+func (c *current) onRelativeLink199() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonRelativeLink198() (interface{}, error) {
+func (p *parser) callonRelativeLink199() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink198()
+	return p.cur.onRelativeLink199()
 }
 
-func (c *current) onRelativeLink191(start interface{}) (interface{}, error) {
+func (c *current) onRelativeLink192(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonRelativeLink191() (interface{}, error) {
+func (p *parser) callonRelativeLink192() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink191(stack["start"])
+	return p.cur.onRelativeLink192(stack["start"])
 }
 
-func (c *current) onRelativeLink180(name, start interface{}) (interface{}, error) {
+func (c *current) onRelativeLink181(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonRelativeLink180() (interface{}, error) {
+func (p *parser) callonRelativeLink181() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink180(stack["name"], stack["start"])
+	return p.cur.onRelativeLink181(stack["name"], stack["start"])
 }
 
-func (c *current) onRelativeLink206() (interface{}, error) {
+func (c *current) onRelativeLink207() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink206() (interface{}, error) {
+func (p *parser) callonRelativeLink207() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink206()
+	return p.cur.onRelativeLink207()
 }
 
-func (c *current) onRelativeLink218() (interface{}, error) {
+func (c *current) onRelativeLink219() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink218() (interface{}, error) {
+func (p *parser) callonRelativeLink219() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink218()
+	return p.cur.onRelativeLink219()
 }
 
-func (c *current) onRelativeLink220() (interface{}, error) {
+func (c *current) onRelativeLink221() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonRelativeLink220() (interface{}, error) {
+func (p *parser) callonRelativeLink221() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink220()
+	return p.cur.onRelativeLink221()
 }
 
-func (c *current) onRelativeLink213(start interface{}) (interface{}, error) {
+func (c *current) onRelativeLink214(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonRelativeLink213() (interface{}, error) {
+func (p *parser) callonRelativeLink214() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink213(stack["start"])
+	return p.cur.onRelativeLink214(stack["start"])
 }
 
-func (c *current) onRelativeLink202(name, start interface{}) (interface{}, error) {
+func (c *current) onRelativeLink203(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
-func (p *parser) callonRelativeLink202() (interface{}, error) {
+func (p *parser) callonRelativeLink203() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink202(stack["name"], stack["start"])
+	return p.cur.onRelativeLink203(stack["name"], stack["start"])
 }
 
-func (c *current) onRelativeLink155(element interface{}) (interface{}, error) {
+func (c *current) onRelativeLink156(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonRelativeLink155() (interface{}, error) {
+func (p *parser) callonRelativeLink156() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink155(stack["element"])
+	return p.cur.onRelativeLink156(stack["element"])
 }
 
-func (c *current) onRelativeLink228() (interface{}, error) {
+func (c *current) onRelativeLink229() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonRelativeLink228() (interface{}, error) {
+func (p *parser) callonRelativeLink229() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onRelativeLink229()
+}
+
+func (c *current) onRelativeLink233(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)), nil
+}
+
+func (p *parser) callonRelativeLink233() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink228()
+	return p.cur.onRelativeLink233(stack["ref"])
 }
 
-func (c *current) onRelativeLink224(ref interface{}) (interface{}, error) {
+func (c *current) onRelativeLink225(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonRelativeLink224() (interface{}, error) {
+func (p *parser) callonRelativeLink225() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink224(stack["ref"])
+	return p.cur.onRelativeLink225(stack["ref"])
 }
 
-func (c *current) onRelativeLink232() (interface{}, error) {
+func (c *current) onRelativeLink234() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink232() (interface{}, error) {
+func (p *parser) callonRelativeLink234() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink232()
+	return p.cur.onRelativeLink234()
 }
 
-func (c *current) onRelativeLink135(elements interface{}) (interface{}, error) {
+func (c *current) onRelativeLink136(elements interface{}) (interface{}, error) {
 	return types.NewInlineElements(elements.([]interface{}))
 
 }
 
-func (p *parser) callonRelativeLink135() (interface{}, error) {
+func (p *parser) callonRelativeLink136() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink135(stack["elements"])
+	return p.cur.onRelativeLink136(stack["elements"])
 }
 
-func (c *current) onRelativeLink123(scheme, path interface{}) (interface{}, error) {
+func (c *current) onRelativeLink124(scheme, path interface{}) (interface{}, error) {
 	return types.NewLocation(scheme, path.([]interface{}))
 
 }
 
-func (p *parser) callonRelativeLink123() (interface{}, error) {
+func (p *parser) callonRelativeLink124() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink123(stack["scheme"], stack["path"])
+	return p.cur.onRelativeLink124(stack["scheme"], stack["path"])
 }
 
-func (c *current) onRelativeLink119(url, attributes interface{}) (interface{}, error) {
+func (c *current) onRelativeLink120(url, attributes interface{}) (interface{}, error) {
 	return types.NewInlineLink(url.(*types.Location), attributes.(types.Attributes))
 
 }
 
-func (p *parser) callonRelativeLink119() (interface{}, error) {
+func (p *parser) callonRelativeLink120() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink119(stack["url"], stack["attributes"])
+	return p.cur.onRelativeLink120(stack["url"], stack["attributes"])
 }
 
 func (c *current) onExternalLink11() (interface{}, error) {
@@ -60860,6 +61032,16 @@ func (p *parser) callonExternalLink112() (interface{}, error) {
 	return p.cur.onExternalLink112()
 }
 
+func (c *current) onExternalLink116(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)), nil
+}
+
+func (p *parser) callonExternalLink116() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink116(stack["ref"])
+}
+
 func (c *current) onExternalLink108(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -60870,15 +61052,15 @@ func (p *parser) callonExternalLink108() (interface{}, error) {
 	return p.cur.onExternalLink108(stack["ref"])
 }
 
-func (c *current) onExternalLink116() (interface{}, error) {
+func (c *current) onExternalLink117() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink116() (interface{}, error) {
+func (p *parser) callonExternalLink117() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink116()
+	return p.cur.onExternalLink117()
 }
 
 func (c *current) onExternalLink19(elements interface{}) (interface{}, error) {
@@ -60914,63 +61096,63 @@ func (p *parser) callonExternalLink2() (interface{}, error) {
 	return p.cur.onExternalLink2(stack["url"], stack["attributes"])
 }
 
-func (c *current) onExternalLink129() (interface{}, error) {
+func (c *current) onExternalLink130() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonExternalLink129() (interface{}, error) {
+func (p *parser) callonExternalLink130() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink129()
+	return p.cur.onExternalLink130()
 }
 
-func (c *current) onExternalLink141() (interface{}, error) {
+func (c *current) onExternalLink142() (interface{}, error) {
 	// excluding EOL, space, "{", "[", "]". Also, punctuation chars and `<` and `>` special chars are treated separately below
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink141() (interface{}, error) {
+func (p *parser) callonExternalLink142() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink141()
+	return p.cur.onExternalLink142()
 }
 
-func (c *current) onExternalLink152() (interface{}, error) {
+func (c *current) onExternalLink153() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink152() (interface{}, error) {
+func (p *parser) callonExternalLink153() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink152()
+	return p.cur.onExternalLink153()
 }
 
-func (c *current) onExternalLink159() (bool, error) {
+func (c *current) onExternalLink160() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonExternalLink159() (bool, error) {
+func (p *parser) callonExternalLink160() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink159()
+	return p.cur.onExternalLink160()
 }
 
-func (c *current) onExternalLink166() (interface{}, error) {
+func (c *current) onExternalLink167() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink166() (interface{}, error) {
+func (p *parser) callonExternalLink167() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink166()
+	return p.cur.onExternalLink167()
 }
 
-func (c *current) onExternalLink162(name interface{}) (interface{}, error) {
+func (c *current) onExternalLink163(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -60978,218 +61160,228 @@ func (c *current) onExternalLink162(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonExternalLink162() (interface{}, error) {
+func (p *parser) callonExternalLink163() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink162(stack["name"])
+	return p.cur.onExternalLink163(stack["name"])
 }
 
-func (c *current) onExternalLink176() (interface{}, error) {
+func (c *current) onExternalLink177() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink176() (interface{}, error) {
+func (p *parser) callonExternalLink177() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink176()
+	return p.cur.onExternalLink177()
 }
 
-func (c *current) onExternalLink172(name interface{}) (interface{}, error) {
+func (c *current) onExternalLink173(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonExternalLink172() (interface{}, error) {
+func (p *parser) callonExternalLink173() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink172(stack["name"])
+	return p.cur.onExternalLink173(stack["name"])
 }
 
-func (c *current) onExternalLink186() (interface{}, error) {
+func (c *current) onExternalLink187() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink186() (interface{}, error) {
+func (p *parser) callonExternalLink187() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink186()
+	return p.cur.onExternalLink187()
 }
 
-func (c *current) onExternalLink198() (interface{}, error) {
+func (c *current) onExternalLink199() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink198() (interface{}, error) {
+func (p *parser) callonExternalLink199() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink198()
+	return p.cur.onExternalLink199()
 }
 
-func (c *current) onExternalLink200() (interface{}, error) {
+func (c *current) onExternalLink201() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonExternalLink200() (interface{}, error) {
+func (p *parser) callonExternalLink201() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink200()
+	return p.cur.onExternalLink201()
 }
 
-func (c *current) onExternalLink193(start interface{}) (interface{}, error) {
+func (c *current) onExternalLink194(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonExternalLink193() (interface{}, error) {
+func (p *parser) callonExternalLink194() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink193(stack["start"])
+	return p.cur.onExternalLink194(stack["start"])
 }
 
-func (c *current) onExternalLink182(name, start interface{}) (interface{}, error) {
+func (c *current) onExternalLink183(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonExternalLink182() (interface{}, error) {
+func (p *parser) callonExternalLink183() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink182(stack["name"], stack["start"])
+	return p.cur.onExternalLink183(stack["name"], stack["start"])
 }
 
-func (c *current) onExternalLink208() (interface{}, error) {
+func (c *current) onExternalLink209() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink208() (interface{}, error) {
+func (p *parser) callonExternalLink209() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink208()
+	return p.cur.onExternalLink209()
 }
 
-func (c *current) onExternalLink220() (interface{}, error) {
+func (c *current) onExternalLink221() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink220() (interface{}, error) {
+func (p *parser) callonExternalLink221() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink220()
+	return p.cur.onExternalLink221()
 }
 
-func (c *current) onExternalLink222() (interface{}, error) {
+func (c *current) onExternalLink223() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonExternalLink222() (interface{}, error) {
+func (p *parser) callonExternalLink223() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink222()
+	return p.cur.onExternalLink223()
 }
 
-func (c *current) onExternalLink215(start interface{}) (interface{}, error) {
+func (c *current) onExternalLink216(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonExternalLink215() (interface{}, error) {
+func (p *parser) callonExternalLink216() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink215(stack["start"])
+	return p.cur.onExternalLink216(stack["start"])
 }
 
-func (c *current) onExternalLink204(name, start interface{}) (interface{}, error) {
+func (c *current) onExternalLink205(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
-func (p *parser) callonExternalLink204() (interface{}, error) {
+func (p *parser) callonExternalLink205() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink204(stack["name"], stack["start"])
+	return p.cur.onExternalLink205(stack["name"], stack["start"])
 }
 
-func (c *current) onExternalLink157(element interface{}) (interface{}, error) {
+func (c *current) onExternalLink158(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonExternalLink157() (interface{}, error) {
+func (p *parser) callonExternalLink158() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink157(stack["element"])
+	return p.cur.onExternalLink158(stack["element"])
 }
 
-func (c *current) onExternalLink230() (interface{}, error) {
+func (c *current) onExternalLink231() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonExternalLink230() (interface{}, error) {
+func (p *parser) callonExternalLink231() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink231()
+}
+
+func (c *current) onExternalLink235(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)), nil
+}
+
+func (p *parser) callonExternalLink235() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink230()
+	return p.cur.onExternalLink235(stack["ref"])
 }
 
-func (c *current) onExternalLink226(ref interface{}) (interface{}, error) {
+func (c *current) onExternalLink227(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonExternalLink226() (interface{}, error) {
+func (p *parser) callonExternalLink227() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink226(stack["ref"])
+	return p.cur.onExternalLink227(stack["ref"])
 }
 
-func (c *current) onExternalLink234() (interface{}, error) {
+func (c *current) onExternalLink236() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink234() (interface{}, error) {
+func (p *parser) callonExternalLink236() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink234()
+	return p.cur.onExternalLink236()
 }
 
-func (c *current) onExternalLink137(elements interface{}) (interface{}, error) {
+func (c *current) onExternalLink138(elements interface{}) (interface{}, error) {
 	return types.NewInlineElements(elements.([]interface{}))
 
 }
 
-func (p *parser) callonExternalLink137() (interface{}, error) {
+func (p *parser) callonExternalLink138() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink137(stack["elements"])
+	return p.cur.onExternalLink138(stack["elements"])
 }
 
-func (c *current) onExternalLink124(scheme, path interface{}) (interface{}, error) {
+func (c *current) onExternalLink125(scheme, path interface{}) (interface{}, error) {
 	return types.NewLocation(scheme, path.([]interface{}))
 
 }
 
-func (p *parser) callonExternalLink124() (interface{}, error) {
+func (p *parser) callonExternalLink125() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink124(stack["scheme"], stack["path"])
+	return p.cur.onExternalLink125(stack["scheme"], stack["path"])
 }
 
-func (c *current) onExternalLink121(url, attributes interface{}) (interface{}, error) {
+func (c *current) onExternalLink122(url, attributes interface{}) (interface{}, error) {
 	return types.NewInlineLink(url.(*types.Location), attributes)
 
 }
 
-func (p *parser) callonExternalLink121() (interface{}, error) {
+func (p *parser) callonExternalLink122() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink121(stack["url"], stack["attributes"])
+	return p.cur.onExternalLink122(stack["url"], stack["attributes"])
 }
 
 func (c *current) onListElements11() (interface{}, error) {
@@ -70401,6 +70593,16 @@ func (p *parser) callonQuotedTextElement140() (interface{}, error) {
 	return p.cur.onQuotedTextElement140()
 }
 
+func (c *current) onQuotedTextElement144(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)), nil
+}
+
+func (p *parser) callonQuotedTextElement144() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onQuotedTextElement144(stack["ref"])
+}
+
 func (c *current) onQuotedTextElement136(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -70411,7 +70613,7 @@ func (p *parser) callonQuotedTextElement136() (interface{}, error) {
 	return p.cur.onQuotedTextElement136(stack["ref"])
 }
 
-func (c *current) onQuotedTextElement144() (interface{}, error) {
+func (c *current) onQuotedTextElement145() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -70420,10 +70622,10 @@ func (c *current) onQuotedTextElement144() (interface{}, error) {
 
 }
 
-func (p *parser) callonQuotedTextElement144() (interface{}, error) {
+func (p *parser) callonQuotedTextElement145() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement144()
+	return p.cur.onQuotedTextElement145()
 }
 
 func (c *current) onDoubleQuoteBoldText1(elements interface{}) (interface{}, error) {
@@ -71849,6 +72051,16 @@ func (p *parser) callonSectionTitleElement141() (interface{}, error) {
 	return p.cur.onSectionTitleElement141()
 }
 
+func (c *current) onSectionTitleElement145(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)), nil
+}
+
+func (p *parser) callonSectionTitleElement145() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSectionTitleElement145(stack["ref"])
+}
+
 func (c *current) onSectionTitleElement137(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -71859,72 +72071,82 @@ func (p *parser) callonSectionTitleElement137() (interface{}, error) {
 	return p.cur.onSectionTitleElement137(stack["ref"])
 }
 
-func (c *current) onSectionTitleElement147() (bool, error) {
+func (c *current) onSectionTitleElement148() (bool, error) {
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonSectionTitleElement147() (bool, error) {
+func (p *parser) callonSectionTitleElement148() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement147()
+	return p.cur.onSectionTitleElement148()
 }
 
-func (c *current) onSectionTitleElement157() (interface{}, error) {
+func (c *current) onSectionTitleElement158() (interface{}, error) {
 	// spaces, commas and dots are allowed in this syntax
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement157() (interface{}, error) {
+func (p *parser) callonSectionTitleElement158() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement157()
+	return p.cur.onSectionTitleElement158()
 }
 
-func (c *current) onSectionTitleElement164() (interface{}, error) {
+func (c *current) onSectionTitleElement165() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleElement164() (interface{}, error) {
+func (p *parser) callonSectionTitleElement165() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSectionTitleElement165()
+}
+
+func (c *current) onSectionTitleElement169(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)), nil
+}
+
+func (p *parser) callonSectionTitleElement169() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement164()
+	return p.cur.onSectionTitleElement169(stack["ref"])
 }
 
-func (c *current) onSectionTitleElement160(ref interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement161(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonSectionTitleElement160() (interface{}, error) {
+func (p *parser) callonSectionTitleElement161() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement160(stack["ref"])
+	return p.cur.onSectionTitleElement161(stack["ref"])
 }
 
-func (c *current) onSectionTitleElement170() (bool, error) {
+func (c *current) onSectionTitleElement172() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonSectionTitleElement170() (bool, error) {
+func (p *parser) callonSectionTitleElement172() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement170()
+	return p.cur.onSectionTitleElement172()
 }
 
-func (c *current) onSectionTitleElement177() (interface{}, error) {
+func (c *current) onSectionTitleElement179() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement177() (interface{}, error) {
+func (p *parser) callonSectionTitleElement179() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement177()
+	return p.cur.onSectionTitleElement179()
 }
 
-func (c *current) onSectionTitleElement173(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement175(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -71932,273 +72154,273 @@ func (c *current) onSectionTitleElement173(name interface{}) (interface{}, error
 
 }
 
-func (p *parser) callonSectionTitleElement173() (interface{}, error) {
+func (p *parser) callonSectionTitleElement175() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement173(stack["name"])
+	return p.cur.onSectionTitleElement175(stack["name"])
 }
 
-func (c *current) onSectionTitleElement187() (interface{}, error) {
+func (c *current) onSectionTitleElement189() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement187() (interface{}, error) {
+func (p *parser) callonSectionTitleElement189() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement187()
+	return p.cur.onSectionTitleElement189()
 }
 
-func (c *current) onSectionTitleElement183(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement185(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement183() (interface{}, error) {
+func (p *parser) callonSectionTitleElement185() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement183(stack["name"])
+	return p.cur.onSectionTitleElement185(stack["name"])
 }
 
-func (c *current) onSectionTitleElement197() (interface{}, error) {
+func (c *current) onSectionTitleElement199() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement197() (interface{}, error) {
+func (p *parser) callonSectionTitleElement199() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement197()
+	return p.cur.onSectionTitleElement199()
 }
 
-func (c *current) onSectionTitleElement209() (interface{}, error) {
+func (c *current) onSectionTitleElement211() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement209() (interface{}, error) {
+func (p *parser) callonSectionTitleElement211() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement209()
+	return p.cur.onSectionTitleElement211()
 }
 
-func (c *current) onSectionTitleElement211() (interface{}, error) {
+func (c *current) onSectionTitleElement213() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement211() (interface{}, error) {
+func (p *parser) callonSectionTitleElement213() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement211()
+	return p.cur.onSectionTitleElement213()
 }
 
-func (c *current) onSectionTitleElement204(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement206(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement204() (interface{}, error) {
+func (p *parser) callonSectionTitleElement206() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement204(stack["start"])
+	return p.cur.onSectionTitleElement206(stack["start"])
 }
 
-func (c *current) onSectionTitleElement193(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement195(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement193() (interface{}, error) {
+func (p *parser) callonSectionTitleElement195() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement193(stack["name"], stack["start"])
+	return p.cur.onSectionTitleElement195(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement219() (interface{}, error) {
+func (c *current) onSectionTitleElement221() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement219() (interface{}, error) {
+func (p *parser) callonSectionTitleElement221() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement219()
+	return p.cur.onSectionTitleElement221()
 }
 
-func (c *current) onSectionTitleElement231() (interface{}, error) {
+func (c *current) onSectionTitleElement233() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement231() (interface{}, error) {
+func (p *parser) callonSectionTitleElement233() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement231()
+	return p.cur.onSectionTitleElement233()
 }
 
-func (c *current) onSectionTitleElement233() (interface{}, error) {
+func (c *current) onSectionTitleElement235() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement233() (interface{}, error) {
+func (p *parser) callonSectionTitleElement235() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement233()
+	return p.cur.onSectionTitleElement235()
 }
 
-func (c *current) onSectionTitleElement226(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement228(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement226() (interface{}, error) {
+func (p *parser) callonSectionTitleElement228() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement226(stack["start"])
+	return p.cur.onSectionTitleElement228(stack["start"])
 }
 
-func (c *current) onSectionTitleElement215(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement217(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement215() (interface{}, error) {
+func (p *parser) callonSectionTitleElement217() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement215(stack["name"], stack["start"])
+	return p.cur.onSectionTitleElement217(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement168(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement170(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleElement168() (interface{}, error) {
+func (p *parser) callonSectionTitleElement170() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement168(stack["element"])
+	return p.cur.onSectionTitleElement170(stack["element"])
 }
 
-func (c *current) onSectionTitleElement237() (interface{}, error) {
+func (c *current) onSectionTitleElement239() (interface{}, error) {
 
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement237() (interface{}, error) {
+func (p *parser) callonSectionTitleElement239() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement237()
+	return p.cur.onSectionTitleElement239()
 }
 
-func (c *current) onSectionTitleElement153(elements interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement154(elements interface{}) (interface{}, error) {
 	return types.Reduce(elements, strings.TrimSpace), nil
 
 }
 
-func (p *parser) callonSectionTitleElement153() (interface{}, error) {
+func (p *parser) callonSectionTitleElement154() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement153(stack["elements"])
+	return p.cur.onSectionTitleElement154(stack["elements"])
 }
 
-func (c *current) onSectionTitleElement149(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement150(id interface{}) (interface{}, error) {
 	return types.NewIDAttribute(id)
 
 }
 
-func (p *parser) callonSectionTitleElement149() (interface{}, error) {
+func (p *parser) callonSectionTitleElement150() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement149(stack["id"])
+	return p.cur.onSectionTitleElement150(stack["id"])
 }
 
-func (c *current) onSectionTitleElement241() (interface{}, error) {
+func (c *current) onSectionTitleElement243() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement241() (interface{}, error) {
+func (p *parser) callonSectionTitleElement243() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement241()
+	return p.cur.onSectionTitleElement243()
 }
 
-func (c *current) onSectionTitleElement245() (interface{}, error) {
+func (c *current) onSectionTitleElement247() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleElement245() (interface{}, error) {
+func (p *parser) callonSectionTitleElement247() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement245()
+	return p.cur.onSectionTitleElement247()
 }
 
-func (c *current) onSectionTitleElement145(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement146(id interface{}) (interface{}, error) {
 
 	return id, nil
 
 }
 
-func (p *parser) callonSectionTitleElement145() (interface{}, error) {
+func (p *parser) callonSectionTitleElement146() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement145(stack["id"])
+	return p.cur.onSectionTitleElement146(stack["id"])
 }
 
-func (c *current) onSectionTitleElement256() (interface{}, error) {
+func (c *current) onSectionTitleElement258() (interface{}, error) {
 	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement256() (interface{}, error) {
+func (p *parser) callonSectionTitleElement258() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement256()
+	return p.cur.onSectionTitleElement258()
 }
 
-func (c *current) onSectionTitleElement252(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement254(id interface{}) (interface{}, error) {
 	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
 
 }
 
-func (p *parser) callonSectionTitleElement252() (interface{}, error) {
+func (p *parser) callonSectionTitleElement254() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement252(stack["id"])
+	return p.cur.onSectionTitleElement254(stack["id"])
 }
 
-func (c *current) onSectionTitleElement264() (interface{}, error) {
+func (c *current) onSectionTitleElement266() (interface{}, error) {
 	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement264() (interface{}, error) {
+func (p *parser) callonSectionTitleElement266() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement264()
+	return p.cur.onSectionTitleElement266()
 }
 
-func (c *current) onSectionTitleElement260(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement262(id interface{}) (interface{}, error) {
 	// no EOL here since there can be multiple InlineElementID on the same line
 	return types.NewInlineAnchor(id.(string))
 
 }
 
-func (p *parser) callonSectionTitleElement260() (interface{}, error) {
+func (p *parser) callonSectionTitleElement262() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement260(stack["id"])
+	return p.cur.onSectionTitleElement262(stack["id"])
 }
 
-func (c *current) onSectionTitleElement269() (interface{}, error) {
+func (c *current) onSectionTitleElement271() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -72207,10 +72429,10 @@ func (c *current) onSectionTitleElement269() (interface{}, error) {
 
 }
 
-func (p *parser) callonSectionTitleElement269() (interface{}, error) {
+func (p *parser) callonSectionTitleElement271() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement269()
+	return p.cur.onSectionTitleElement271()
 }
 
 func (c *current) onSectionTitleElement1(element interface{}) (interface{}, error) {
@@ -72647,6 +72869,16 @@ func (p *parser) callonNormalGroup160() (interface{}, error) {
 	return p.cur.onNormalGroup160()
 }
 
+func (c *current) onNormalGroup164(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)), nil
+}
+
+func (p *parser) callonNormalGroup164() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNormalGroup164(stack["ref"])
+}
+
 func (c *current) onNormalGroup156(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -72657,7 +72889,7 @@ func (p *parser) callonNormalGroup156() (interface{}, error) {
 	return p.cur.onNormalGroup156(stack["ref"])
 }
 
-func (c *current) onNormalGroup164() (interface{}, error) {
+func (c *current) onNormalGroup165() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -72666,10 +72898,10 @@ func (c *current) onNormalGroup164() (interface{}, error) {
 
 }
 
-func (p *parser) callonNormalGroup164() (interface{}, error) {
+func (p *parser) callonNormalGroup165() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup164()
+	return p.cur.onNormalGroup165()
 }
 
 func (c *current) onNormalGroup5(element interface{}) (interface{}, error) {
@@ -72833,6 +73065,16 @@ func (p *parser) callonAttributeStructuredValueElement50() (interface{}, error)
 	return p.cur.onAttributeStructuredValueElement50()
 }
 
+func (c *current) onAttributeStructuredValueElement54(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)), nil
+}
+
+func (p *parser) callonAttributeStructuredValueElement54() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onAttributeStructuredValueElement54(stack["ref"])
+}
+
 func (c *current) onAttributeStructuredValueElement46(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -72843,18 +73085,18 @@ func (p *parser) callonAttributeStructuredValueElement46() (interface{}, error)
 	return p.cur.onAttributeStructuredValueElement46(stack["ref"])
 }
 
-func (c *current) onAttributeStructuredValueElement54() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement55() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonAttributeStructuredValueElement54() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement55() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement54()
+	return p.cur.onAttributeStructuredValueElement55()
 }
 
-func (c *current) onAttributeStructuredValueElement59() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement60() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -72863,10 +73105,10 @@ func (c *current) onAttributeStructuredValueElement59() (interface{}, error) {
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement59() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement60() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement59()
+	return p.cur.onAttributeStructuredValueElement60()
 }
 
 func (c *current) onAttributeStructuredValueElement1(element interface{}) (interface{}, error) {
@@ -74198,6 +74440,16 @@ func (p *parser) callonFileLocation96() (interface{}, error) {
 	return p.cur.onFileLocation96()
 }
 
+func (c *current) onFileLocation100(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)), nil
+}
+
+func (p *parser) callonFileLocation100() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onFileLocation100(stack["ref"])
+}
+
 func (c *current) onFileLocation92(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -74208,15 +74460,15 @@ func (p *parser) callonFileLocation92() (interface{}, error) {
 	return p.cur.onFileLocation92(stack["ref"])
 }
 
-func (c *current) onFileLocation100() (interface{}, error) {
+func (c *current) onFileLocation101() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFileLocation100() (interface{}, error) {
+func (p *parser) callonFileLocation101() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFileLocation100()
+	return p.cur.onFileLocation101()
 }
 
 func (c *current) onFileLocation3(elements interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index cc6bde4..3304ab2 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1208,7 +1208,7 @@ DocumentRevisionRemark <- [^\r\r\n]+ {
 // -------------------------------------------------------------------------------------
 ElementPlaceHolderDelimiter <- "\uFFFD"
 
-ElementPlaceHolder <- ElementPlaceHolderDelimiter ref:([0-9]+ { return string(c.text), nil }) ElementPlaceHolderDelimiter {
+ElementPlaceHolder <- ElementPlaceHolderDelimiter ref:([0-9]+ { return string(c.text), nil }) ElementPlaceHolderDelimiter &{ return c.isPlaceHolder(ref.(string)), nil } {
     return types.NewElementPlaceHolder(ref.(string))
 }
 
-- 
2.43.0


From 89c7d91a177aa8b47750a079a009d2dcab048815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:23 +0000
Subject: [PATCH 56/75] fix: passthroughs followed by a word are not protected

---
 pkg/parser/parser.go  | 12140 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |     2 +-
 2 files changed, 6066 insertions(+), 6076 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index bef99cd..bc0eee8 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 49, offset: 11042},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92458},
+														pos: position{line: 2922, col: 10, offset: 92448},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92458},
+															pos:        position{line: 2922, col: 10, offset: 92448},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92856},
+													pos: position{line: 2944, col: 8, offset: 92846},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92629},
+															pos: position{line: 2931, col: 12, offset: 92619},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92630},
+																pos: position{line: 2931, col: 13, offset: 92620},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92630},
+																		pos:        position{line: 2931, col: 13, offset: 92620},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92637},
+																		pos:        position{line: 2931, col: 20, offset: 92627},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92646},
+																		pos:        position{line: 2931, col: 29, offset: 92636},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92806},
+															pos: position{line: 2941, col: 8, offset: 92796},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92807,
+																line: 2941, col: 9, offset: 92797,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 364, col: 39, offset: 11163},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92458},
+														pos: position{line: 2922, col: 10, offset: 92448},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92458},
+															pos:        position{line: 2922, col: 10, offset: 92448},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92856},
+													pos: position{line: 2944, col: 8, offset: 92846},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92629},
+															pos: position{line: 2931, col: 12, offset: 92619},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92630},
+																pos: position{line: 2931, col: 13, offset: 92620},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92630},
+																		pos:        position{line: 2931, col: 13, offset: 92620},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92637},
+																		pos:        position{line: 2931, col: 20, offset: 92627},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92646},
+																		pos:        position{line: 2931, col: 29, offset: 92636},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92806},
+															pos: position{line: 2941, col: 8, offset: 92796},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92807,
+																line: 2941, col: 9, offset: 92797,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92458},
+														pos: position{line: 2922, col: 10, offset: 92448},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92458},
+															pos:        position{line: 2922, col: 10, offset: 92448},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92806},
+													pos: position{line: 2941, col: 8, offset: 92796},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92807,
+														line: 2941, col: 9, offset: 92797,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92458},
+														pos: position{line: 2922, col: 10, offset: 92448},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92458},
+															pos:        position{line: 2922, col: 10, offset: 92448},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92806},
+													pos: position{line: 2941, col: 8, offset: 92796},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92807,
+														line: 2941, col: 9, offset: 92797,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2914, col: 12, offset: 92285},
+																pos: position{line: 2914, col: 12, offset: 92275},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2914, col: 13, offset: 92286},
+																	pos: position{line: 2914, col: 13, offset: 92276},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2914, col: 13, offset: 92286},
+																			pos: position{line: 2914, col: 13, offset: 92276},
 																			expr: &litMatcher{
-																				pos:        position{line: 2914, col: 13, offset: 92286},
+																				pos:        position{line: 2914, col: 13, offset: 92276},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2914, col: 18, offset: 92291},
+																			pos: position{line: 2914, col: 18, offset: 92281},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2914, col: 18, offset: 92291},
+																				pos:        position{line: 2914, col: 18, offset: 92281},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92458},
+														pos: position{line: 2922, col: 10, offset: 92448},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92458},
+															pos:        position{line: 2922, col: 10, offset: 92448},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92458},
+														pos: position{line: 2922, col: 10, offset: 92448},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92458},
+															pos:        position{line: 2922, col: 10, offset: 92448},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2914, col: 12, offset: 92285},
+																pos: position{line: 2914, col: 12, offset: 92275},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2914, col: 13, offset: 92286},
+																	pos: position{line: 2914, col: 13, offset: 92276},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2914, col: 13, offset: 92286},
+																			pos: position{line: 2914, col: 13, offset: 92276},
 																			expr: &litMatcher{
-																				pos:        position{line: 2914, col: 13, offset: 92286},
+																				pos:        position{line: 2914, col: 13, offset: 92276},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2914, col: 18, offset: 92291},
+																			pos: position{line: 2914, col: 18, offset: 92281},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2914, col: 18, offset: 92291},
+																				pos:        position{line: 2914, col: 18, offset: 92281},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92458},
+														pos: position{line: 2922, col: 10, offset: 92448},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92458},
+															pos:        position{line: 2922, col: 10, offset: 92448},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92806},
+													pos: position{line: 2941, col: 8, offset: 92796},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92807,
+														line: 2941, col: 9, offset: 92797,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92458},
+														pos: position{line: 2922, col: 10, offset: 92448},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92458},
+															pos:        position{line: 2922, col: 10, offset: 92448},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92806},
+													pos: position{line: 2941, col: 8, offset: 92796},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92807,
+														line: 2941, col: 9, offset: 92797,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 737, col: 5, offset: 23726},
 													expr: &charClassMatcher{
-														pos:        position{line: 2812, col: 13, offset: 89553},
+														pos:        position{line: 2812, col: 13, offset: 89543},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 755, col: 8, offset: 24370},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92458},
+																				pos: position{line: 2922, col: 10, offset: 92448},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92458},
+																					pos:        position{line: 2922, col: 10, offset: 92448},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92856},
+																			pos: position{line: 2944, col: 8, offset: 92846},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92629},
+																					pos: position{line: 2931, col: 12, offset: 92619},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92630},
+																						pos: position{line: 2931, col: 13, offset: 92620},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92630},
+																								pos:        position{line: 2931, col: 13, offset: 92620},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92637},
+																								pos:        position{line: 2931, col: 20, offset: 92627},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92646},
+																								pos:        position{line: 2931, col: 29, offset: 92636},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 762, col: 8, offset: 24618},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92458},
+																				pos: position{line: 2922, col: 10, offset: 92448},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92458},
+																					pos:        position{line: 2922, col: 10, offset: 92448},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92856},
+																			pos: position{line: 2944, col: 8, offset: 92846},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92629},
+																					pos: position{line: 2931, col: 12, offset: 92619},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92630},
+																						pos: position{line: 2931, col: 13, offset: 92620},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92630},
+																								pos:        position{line: 2931, col: 13, offset: 92620},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92637},
+																								pos:        position{line: 2931, col: 20, offset: 92627},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92646},
+																								pos:        position{line: 2931, col: 29, offset: 92636},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 773, col: 52, offset: 25030},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92458},
+																				pos: position{line: 2922, col: 10, offset: 92448},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92458},
+																					pos:        position{line: 2922, col: 10, offset: 92448},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92856},
+																			pos: position{line: 2944, col: 8, offset: 92846},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92629},
+																					pos: position{line: 2931, col: 12, offset: 92619},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92630},
+																						pos: position{line: 2931, col: 13, offset: 92620},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92630},
+																								pos:        position{line: 2931, col: 13, offset: 92620},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92637},
+																								pos:        position{line: 2931, col: 20, offset: 92627},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92646},
+																								pos:        position{line: 2931, col: 29, offset: 92636},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 769, col: 8, offset: 24864},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92458},
+																				pos: position{line: 2922, col: 10, offset: 92448},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92458},
+																					pos:        position{line: 2922, col: 10, offset: 92448},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92856},
+																			pos: position{line: 2944, col: 8, offset: 92846},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92629},
+																					pos: position{line: 2931, col: 12, offset: 92619},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92630},
+																						pos: position{line: 2931, col: 13, offset: 92620},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92630},
+																								pos:        position{line: 2931, col: 13, offset: 92620},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92637},
+																								pos:        position{line: 2931, col: 20, offset: 92627},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92646},
+																								pos:        position{line: 2931, col: 29, offset: 92636},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 784, col: 8, offset: 25402},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92458},
+																				pos: position{line: 2922, col: 10, offset: 92448},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92458},
+																					pos:        position{line: 2922, col: 10, offset: 92448},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92856},
+																			pos: position{line: 2944, col: 8, offset: 92846},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92629},
+																					pos: position{line: 2931, col: 12, offset: 92619},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92630},
+																						pos: position{line: 2931, col: 13, offset: 92620},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92630},
+																								pos:        position{line: 2931, col: 13, offset: 92620},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92637},
+																								pos:        position{line: 2931, col: 20, offset: 92627},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92646},
+																								pos:        position{line: 2931, col: 29, offset: 92636},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 798, col: 8, offset: 25878},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92458},
+																				pos: position{line: 2922, col: 10, offset: 92448},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92458},
+																					pos:        position{line: 2922, col: 10, offset: 92448},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92856},
+																			pos: position{line: 2944, col: 8, offset: 92846},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92629},
+																					pos: position{line: 2931, col: 12, offset: 92619},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92630},
+																						pos: position{line: 2931, col: 13, offset: 92620},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92630},
+																								pos:        position{line: 2931, col: 13, offset: 92620},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92637},
+																								pos:        position{line: 2931, col: 20, offset: 92627},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92646},
+																								pos:        position{line: 2931, col: 29, offset: 92636},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 805, col: 8, offset: 26130},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92458},
+																				pos: position{line: 2922, col: 10, offset: 92448},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92458},
+																					pos:        position{line: 2922, col: 10, offset: 92448},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92856},
+																			pos: position{line: 2944, col: 8, offset: 92846},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92629},
+																					pos: position{line: 2931, col: 12, offset: 92619},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92630},
+																						pos: position{line: 2931, col: 13, offset: 92620},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92630},
+																								pos:        position{line: 2931, col: 13, offset: 92620},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92637},
+																								pos:        position{line: 2931, col: 20, offset: 92627},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92646},
+																								pos:        position{line: 2931, col: 29, offset: 92636},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 812, col: 8, offset: 26380},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92458},
+																				pos: position{line: 2922, col: 10, offset: 92448},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92458},
+																					pos:        position{line: 2922, col: 10, offset: 92448},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92856},
+																			pos: position{line: 2944, col: 8, offset: 92846},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92629},
+																					pos: position{line: 2931, col: 12, offset: 92619},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92630},
+																						pos: position{line: 2931, col: 13, offset: 92620},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92630},
+																								pos:        position{line: 2931, col: 13, offset: 92620},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92637},
+																								pos:        position{line: 2931, col: 20, offset: 92627},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92646},
+																								pos:        position{line: 2931, col: 29, offset: 92636},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 819, col: 8, offset: 26626},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92458},
+																				pos: position{line: 2922, col: 10, offset: 92448},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92458},
+																					pos:        position{line: 2922, col: 10, offset: 92448},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92856},
+																			pos: position{line: 2944, col: 8, offset: 92846},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92629},
+																					pos: position{line: 2931, col: 12, offset: 92619},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92630},
+																						pos: position{line: 2931, col: 13, offset: 92620},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92630},
+																								pos:        position{line: 2931, col: 13, offset: 92620},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92637},
+																								pos:        position{line: 2931, col: 20, offset: 92627},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92646},
+																								pos:        position{line: 2931, col: 29, offset: 92636},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2926, col: 11, offset: 92519},
+													pos: position{line: 2926, col: 11, offset: 92509},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2926, col: 11, offset: 92519},
+														pos: position{line: 2926, col: 11, offset: 92509},
 														expr: &charClassMatcher{
-															pos:        position{line: 2926, col: 11, offset: 92519},
+															pos:        position{line: 2926, col: 11, offset: 92509},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2872, col: 14, offset: 91051},
+													pos: position{line: 2872, col: 14, offset: 91041},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2872, col: 14, offset: 91051},
+														pos: position{line: 2872, col: 14, offset: 91041},
 														expr: &charClassMatcher{
-															pos:        position{line: 2872, col: 14, offset: 91051},
+															pos:        position{line: 2872, col: 14, offset: 91041},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92806},
+													pos: position{line: 2941, col: 8, offset: 92796},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92807,
+														line: 2941, col: 9, offset: 92797,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92806},
+							pos: position{line: 2941, col: 8, offset: 92796},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92807,
+								line: 2941, col: 9, offset: 92797,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2876, col: 17, offset: 91121},
+												pos: position{line: 2876, col: 17, offset: 91111},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2876, col: 17, offset: 91121},
+													pos:   position{line: 2876, col: 17, offset: 91111},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2893, col: 5, offset: 91575},
+														pos: position{line: 2893, col: 5, offset: 91565},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2893, col: 5, offset: 91575},
+															pos:   position{line: 2893, col: 5, offset: 91565},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2893, col: 14, offset: 91584},
+																pos: position{line: 2893, col: 14, offset: 91574},
 																expr: &choiceExpr{
-																	pos: position{line: 2894, col: 9, offset: 91594},
+																	pos: position{line: 2894, col: 9, offset: 91584},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2894, col: 9, offset: 91594},
+																			pos: position{line: 2894, col: 9, offset: 91584},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2894, col: 9, offset: 91594},
+																				pos: position{line: 2894, col: 9, offset: 91584},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2894, col: 9, offset: 91594},
+																						pos: position{line: 2894, col: 9, offset: 91584},
 																						expr: &litMatcher{
-																							pos:        position{line: 2894, col: 10, offset: 91595},
+																							pos:        position{line: 2894, col: 10, offset: 91585},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2895, col: 9, offset: 91623},
+																						pos: position{line: 2895, col: 9, offset: 91613},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2895, col: 10, offset: 91624},
+																							pos:        position{line: 2895, col: 10, offset: 91614},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2898, col: 11, offset: 91836},
+																			pos: position{line: 2898, col: 11, offset: 91826},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2898, col: 11, offset: 91836},
+																					pos:        position{line: 2898, col: 11, offset: 91826},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2898, col: 19, offset: 91844},
+																					pos: position{line: 2898, col: 19, offset: 91834},
 																					expr: &seqExpr{
-																						pos: position{line: 2898, col: 21, offset: 91846},
+																						pos: position{line: 2898, col: 21, offset: 91836},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2898, col: 21, offset: 91846},
+																								pos: position{line: 2898, col: 21, offset: 91836},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92458},
+																									pos: position{line: 2922, col: 10, offset: 92448},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92458},
+																										pos:        position{line: 2922, col: 10, offset: 92448},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2898, col: 28, offset: 91853},
+																								pos: position{line: 2898, col: 28, offset: 91843},
 																								expr: &notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -3088,10 +3088,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2901, col: 11, offset: 91973},
+																			pos: position{line: 2901, col: 11, offset: 91963},
 																			run: (*parser).callonFileInclusion108,
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 11, offset: 91973},
+																				pos:        position{line: 2901, col: 11, offset: 91963},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3120,10 +3120,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92458},
+								pos: position{line: 2922, col: 10, offset: 92448},
 								run: (*parser).callonFileInclusion113,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92458},
+									pos:        position{line: 2922, col: 10, offset: 92448},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3132,28 +3132,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92856},
+							pos: position{line: 2944, col: 8, offset: 92846},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92629},
+									pos: position{line: 2931, col: 12, offset: 92619},
 									run: (*parser).callonFileInclusion116,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92630},
+										pos: position{line: 2931, col: 13, offset: 92620},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92630},
+												pos:        position{line: 2931, col: 13, offset: 92620},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92637},
+												pos:        position{line: 2931, col: 20, offset: 92627},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92646},
+												pos:        position{line: 2931, col: 29, offset: 92636},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3162,9 +3162,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92806},
+									pos: position{line: 2941, col: 8, offset: 92796},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92807,
+										line: 2941, col: 9, offset: 92797,
 									},
 								},
 							},
@@ -3210,24 +3210,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92285},
+																				pos: position{line: 2914, col: 12, offset: 92275},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2914, col: 13, offset: 92286},
+																					pos: position{line: 2914, col: 13, offset: 92276},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2914, col: 13, offset: 92286},
+																							pos: position{line: 2914, col: 13, offset: 92276},
 																							expr: &litMatcher{
-																								pos:        position{line: 2914, col: 13, offset: 92286},
+																								pos:        position{line: 2914, col: 13, offset: 92276},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2914, col: 18, offset: 92291},
+																							pos: position{line: 2914, col: 18, offset: 92281},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2914, col: 18, offset: 92291},
+																								pos:        position{line: 2914, col: 18, offset: 92281},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3248,24 +3248,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92285},
+																				pos: position{line: 2914, col: 12, offset: 92275},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2914, col: 13, offset: 92286},
+																					pos: position{line: 2914, col: 13, offset: 92276},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2914, col: 13, offset: 92286},
+																							pos: position{line: 2914, col: 13, offset: 92276},
 																							expr: &litMatcher{
-																								pos:        position{line: 2914, col: 13, offset: 92286},
+																								pos:        position{line: 2914, col: 13, offset: 92276},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2914, col: 18, offset: 92291},
+																							pos: position{line: 2914, col: 18, offset: 92281},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2914, col: 18, offset: 92291},
+																								pos:        position{line: 2914, col: 18, offset: 92281},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3286,24 +3286,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2914, col: 12, offset: 92285},
+																		pos: position{line: 2914, col: 12, offset: 92275},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2914, col: 13, offset: 92286},
+																			pos: position{line: 2914, col: 13, offset: 92276},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2914, col: 13, offset: 92286},
+																					pos: position{line: 2914, col: 13, offset: 92276},
 																					expr: &litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92286},
+																						pos:        position{line: 2914, col: 13, offset: 92276},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2914, col: 18, offset: 92291},
+																					pos: position{line: 2914, col: 18, offset: 92281},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2914, col: 18, offset: 92291},
+																						pos:        position{line: 2914, col: 18, offset: 92281},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3352,24 +3352,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92285},
+																									pos: position{line: 2914, col: 12, offset: 92275},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2914, col: 13, offset: 92286},
+																										pos: position{line: 2914, col: 13, offset: 92276},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2914, col: 13, offset: 92286},
+																												pos: position{line: 2914, col: 13, offset: 92276},
 																												expr: &litMatcher{
-																													pos:        position{line: 2914, col: 13, offset: 92286},
+																													pos:        position{line: 2914, col: 13, offset: 92276},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2914, col: 18, offset: 92291},
+																												pos: position{line: 2914, col: 18, offset: 92281},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2914, col: 18, offset: 92291},
+																													pos:        position{line: 2914, col: 18, offset: 92281},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3390,24 +3390,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92285},
+																									pos: position{line: 2914, col: 12, offset: 92275},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2914, col: 13, offset: 92286},
+																										pos: position{line: 2914, col: 13, offset: 92276},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2914, col: 13, offset: 92286},
+																												pos: position{line: 2914, col: 13, offset: 92276},
 																												expr: &litMatcher{
-																													pos:        position{line: 2914, col: 13, offset: 92286},
+																													pos:        position{line: 2914, col: 13, offset: 92276},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2914, col: 18, offset: 92291},
+																												pos: position{line: 2914, col: 18, offset: 92281},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2914, col: 18, offset: 92291},
+																													pos:        position{line: 2914, col: 18, offset: 92281},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3428,24 +3428,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2914, col: 12, offset: 92285},
+																							pos: position{line: 2914, col: 12, offset: 92275},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2914, col: 13, offset: 92286},
+																								pos: position{line: 2914, col: 13, offset: 92276},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2914, col: 13, offset: 92286},
+																										pos: position{line: 2914, col: 13, offset: 92276},
 																										expr: &litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92286},
+																											pos:        position{line: 2914, col: 13, offset: 92276},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2914, col: 18, offset: 92291},
+																										pos: position{line: 2914, col: 18, offset: 92281},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2914, col: 18, offset: 92291},
+																											pos:        position{line: 2914, col: 18, offset: 92281},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3478,24 +3478,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2914, col: 12, offset: 92285},
+														pos: position{line: 2914, col: 12, offset: 92275},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2914, col: 13, offset: 92286},
+															pos: position{line: 2914, col: 13, offset: 92276},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2914, col: 13, offset: 92286},
+																	pos: position{line: 2914, col: 13, offset: 92276},
 																	expr: &litMatcher{
-																		pos:        position{line: 2914, col: 13, offset: 92286},
+																		pos:        position{line: 2914, col: 13, offset: 92276},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2914, col: 18, offset: 92291},
+																	pos: position{line: 2914, col: 18, offset: 92281},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2914, col: 18, offset: 92291},
+																		pos:        position{line: 2914, col: 18, offset: 92281},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3516,24 +3516,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2914, col: 12, offset: 92285},
+														pos: position{line: 2914, col: 12, offset: 92275},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2914, col: 13, offset: 92286},
+															pos: position{line: 2914, col: 13, offset: 92276},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2914, col: 13, offset: 92286},
+																	pos: position{line: 2914, col: 13, offset: 92276},
 																	expr: &litMatcher{
-																		pos:        position{line: 2914, col: 13, offset: 92286},
+																		pos:        position{line: 2914, col: 13, offset: 92276},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2914, col: 18, offset: 92291},
+																	pos: position{line: 2914, col: 18, offset: 92281},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2914, col: 18, offset: 92291},
+																		pos:        position{line: 2914, col: 18, offset: 92281},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3554,24 +3554,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2914, col: 12, offset: 92285},
+												pos: position{line: 2914, col: 12, offset: 92275},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2914, col: 13, offset: 92286},
+													pos: position{line: 2914, col: 13, offset: 92276},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2914, col: 13, offset: 92286},
+															pos: position{line: 2914, col: 13, offset: 92276},
 															expr: &litMatcher{
-																pos:        position{line: 2914, col: 13, offset: 92286},
+																pos:        position{line: 2914, col: 13, offset: 92276},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2914, col: 18, offset: 92291},
+															pos: position{line: 2914, col: 18, offset: 92281},
 															expr: &charClassMatcher{
-																pos:        position{line: 2914, col: 18, offset: 92291},
+																pos:        position{line: 2914, col: 18, offset: 92281},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3587,9 +3587,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92806},
+							pos: position{line: 2941, col: 8, offset: 92796},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92807,
+								line: 2941, col: 9, offset: 92797,
 							},
 						},
 					},
@@ -3630,12 +3630,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2816, col: 14, offset: 89627},
+																		pos: position{line: 2816, col: 14, offset: 89617},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2816, col: 14, offset: 89627},
+																			pos: position{line: 2816, col: 14, offset: 89617},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2816, col: 14, offset: 89627},
+																				pos:        position{line: 2816, col: 14, offset: 89617},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3696,12 +3696,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2816, col: 14, offset: 89627},
+																				pos: position{line: 2816, col: 14, offset: 89617},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2816, col: 14, offset: 89627},
+																					pos: position{line: 2816, col: 14, offset: 89617},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2816, col: 14, offset: 89627},
+																						pos:        position{line: 2816, col: 14, offset: 89617},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3782,12 +3782,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2816, col: 14, offset: 89627},
+																							pos: position{line: 2816, col: 14, offset: 89617},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2816, col: 14, offset: 89627},
+																								pos: position{line: 2816, col: 14, offset: 89617},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2816, col: 14, offset: 89627},
+																									pos:        position{line: 2816, col: 14, offset: 89617},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3848,12 +3848,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2816, col: 14, offset: 89627},
+																									pos: position{line: 2816, col: 14, offset: 89617},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2816, col: 14, offset: 89627},
+																										pos: position{line: 2816, col: 14, offset: 89617},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2816, col: 14, offset: 89627},
+																											pos:        position{line: 2816, col: 14, offset: 89617},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3910,9 +3910,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92806},
+							pos: position{line: 2941, col: 8, offset: 92796},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92807,
+								line: 2941, col: 9, offset: 92797,
 							},
 						},
 					},
@@ -3955,12 +3955,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2816, col: 14, offset: 89627},
+																pos: position{line: 2816, col: 14, offset: 89617},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2816, col: 14, offset: 89627},
+																	pos: position{line: 2816, col: 14, offset: 89617},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2816, col: 14, offset: 89627},
+																		pos:        position{line: 2816, col: 14, offset: 89617},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3998,12 +3998,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2816, col: 14, offset: 89627},
+																pos: position{line: 2816, col: 14, offset: 89617},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2816, col: 14, offset: 89627},
+																	pos: position{line: 2816, col: 14, offset: 89617},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2816, col: 14, offset: 89627},
+																		pos:        position{line: 2816, col: 14, offset: 89617},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4034,28 +4034,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92856},
+							pos: position{line: 2944, col: 8, offset: 92846},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92629},
+									pos: position{line: 2931, col: 12, offset: 92619},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92630},
+										pos: position{line: 2931, col: 13, offset: 92620},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92630},
+												pos:        position{line: 2931, col: 13, offset: 92620},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92637},
+												pos:        position{line: 2931, col: 20, offset: 92627},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92646},
+												pos:        position{line: 2931, col: 29, offset: 92636},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4064,9 +4064,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92806},
+									pos: position{line: 2941, col: 8, offset: 92796},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92807,
+										line: 2941, col: 9, offset: 92797,
 									},
 								},
 							},
@@ -4085,9 +4085,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92792},
+							pos: position{line: 2939, col: 11, offset: 92782},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92794,
+								line: 2939, col: 13, offset: 92784,
 							},
 						},
 						&labeledExpr{
@@ -4182,10 +4182,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 49, offset: 11042},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92458},
+															pos: position{line: 2922, col: 10, offset: 92448},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92458},
+																pos:        position{line: 2922, col: 10, offset: 92448},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4194,28 +4194,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92856},
+														pos: position{line: 2944, col: 8, offset: 92846},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92629},
+																pos: position{line: 2931, col: 12, offset: 92619},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92630},
+																	pos: position{line: 2931, col: 13, offset: 92620},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92630},
+																			pos:        position{line: 2931, col: 13, offset: 92620},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92637},
+																			pos:        position{line: 2931, col: 20, offset: 92627},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92646},
+																			pos:        position{line: 2931, col: 29, offset: 92636},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4224,9 +4224,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92806},
+																pos: position{line: 2941, col: 8, offset: 92796},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92807,
+																	line: 2941, col: 9, offset: 92797,
 																},
 															},
 														},
@@ -4287,10 +4287,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 364, col: 39, offset: 11163},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92458},
+															pos: position{line: 2922, col: 10, offset: 92448},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92458},
+																pos:        position{line: 2922, col: 10, offset: 92448},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4299,28 +4299,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92856},
+														pos: position{line: 2944, col: 8, offset: 92846},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92629},
+																pos: position{line: 2931, col: 12, offset: 92619},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92630},
+																	pos: position{line: 2931, col: 13, offset: 92620},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92630},
+																			pos:        position{line: 2931, col: 13, offset: 92620},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92637},
+																			pos:        position{line: 2931, col: 20, offset: 92627},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92646},
+																			pos:        position{line: 2931, col: 29, offset: 92636},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4329,9 +4329,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92806},
+																pos: position{line: 2941, col: 8, offset: 92796},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92807,
+																	line: 2941, col: 9, offset: 92797,
 																},
 															},
 														},
@@ -4346,18 +4346,18 @@ var g = &grammar{
 												pos: position{line: 690, col: 14, offset: 22173},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2939, col: 11, offset: 92792},
+														pos: position{line: 2939, col: 11, offset: 92782},
 														expr: &anyMatcher{
-															line: 2939, col: 13, offset: 92794,
+															line: 2939, col: 13, offset: 92784,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 690, col: 21, offset: 22180},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92458},
+															pos: position{line: 2922, col: 10, offset: 92448},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92458},
+																pos:        position{line: 2922, col: 10, offset: 92448},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4366,28 +4366,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92856},
+														pos: position{line: 2944, col: 8, offset: 92846},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92629},
+																pos: position{line: 2931, col: 12, offset: 92619},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92630},
+																	pos: position{line: 2931, col: 13, offset: 92620},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92630},
+																			pos:        position{line: 2931, col: 13, offset: 92620},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92637},
+																			pos:        position{line: 2931, col: 20, offset: 92627},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92646},
+																			pos:        position{line: 2931, col: 29, offset: 92636},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4396,9 +4396,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92806},
+																pos: position{line: 2941, col: 8, offset: 92796},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92807,
+																	line: 2941, col: 9, offset: 92797,
 																},
 															},
 														},
@@ -4457,10 +4457,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 755, col: 8, offset: 24370},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92458},
+																		pos: position{line: 2922, col: 10, offset: 92448},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92458},
+																			pos:        position{line: 2922, col: 10, offset: 92448},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4469,28 +4469,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92856},
+																	pos: position{line: 2944, col: 8, offset: 92846},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92629},
+																			pos: position{line: 2931, col: 12, offset: 92619},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92630},
+																				pos: position{line: 2931, col: 13, offset: 92620},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92630},
+																						pos:        position{line: 2931, col: 13, offset: 92620},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92637},
+																						pos:        position{line: 2931, col: 20, offset: 92627},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92646},
+																						pos:        position{line: 2931, col: 29, offset: 92636},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4499,9 +4499,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92806},
+																			pos: position{line: 2941, col: 8, offset: 92796},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92807,
+																				line: 2941, col: 9, offset: 92797,
 																			},
 																		},
 																	},
@@ -4562,10 +4562,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 755, col: 8, offset: 24370},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92458},
+																										pos: position{line: 2922, col: 10, offset: 92448},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92458},
+																											pos:        position{line: 2922, col: 10, offset: 92448},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4574,28 +4574,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92856},
+																									pos: position{line: 2944, col: 8, offset: 92846},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92629},
+																											pos: position{line: 2931, col: 12, offset: 92619},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92630},
+																												pos: position{line: 2931, col: 13, offset: 92620},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92630},
+																														pos:        position{line: 2931, col: 13, offset: 92620},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92637},
+																														pos:        position{line: 2931, col: 20, offset: 92627},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92646},
+																														pos:        position{line: 2931, col: 29, offset: 92636},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4604,9 +4604,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92806},
+																											pos: position{line: 2941, col: 8, offset: 92796},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92807,
+																												line: 2941, col: 9, offset: 92797,
 																											},
 																										},
 																									},
@@ -4615,9 +4615,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92806},
+																						pos: position{line: 2941, col: 8, offset: 92796},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92807,
+																							line: 2941, col: 9, offset: 92797,
 																						},
 																					},
 																				},
@@ -4633,21 +4633,21 @@ var g = &grammar{
 																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92792},
+																							pos: position{line: 2939, col: 11, offset: 92782},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92794,
+																								line: 2939, col: 13, offset: 92784,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90984},
+																								pos: position{line: 2868, col: 13, offset: 90974},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90984},
+																									pos: position{line: 2868, col: 13, offset: 90974},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90984},
+																										pos:        position{line: 2868, col: 13, offset: 90974},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4657,28 +4657,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4687,9 +4687,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -4745,10 +4745,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 755, col: 8, offset: 24370},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92458},
+																					pos: position{line: 2922, col: 10, offset: 92448},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92458},
+																						pos:        position{line: 2922, col: 10, offset: 92448},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4757,28 +4757,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92856},
+																				pos: position{line: 2944, col: 8, offset: 92846},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92629},
+																						pos: position{line: 2931, col: 12, offset: 92619},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92630},
+																							pos: position{line: 2931, col: 13, offset: 92620},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92630},
+																									pos:        position{line: 2931, col: 13, offset: 92620},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92637},
+																									pos:        position{line: 2931, col: 20, offset: 92627},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92646},
+																									pos:        position{line: 2931, col: 29, offset: 92636},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4787,9 +4787,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92806},
+																						pos: position{line: 2941, col: 8, offset: 92796},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92807,
+																							line: 2941, col: 9, offset: 92797,
 																						},
 																					},
 																				},
@@ -4798,9 +4798,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92806},
+																	pos: position{line: 2941, col: 8, offset: 92796},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92807,
+																		line: 2941, col: 9, offset: 92797,
 																	},
 																},
 															},
@@ -4855,10 +4855,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24618},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92458},
+																			pos: position{line: 2922, col: 10, offset: 92448},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92458},
+																				pos:        position{line: 2922, col: 10, offset: 92448},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4867,28 +4867,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92856},
+																		pos: position{line: 2944, col: 8, offset: 92846},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
+																				pos: position{line: 2931, col: 12, offset: 92619},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4897,9 +4897,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92806},
+																				pos: position{line: 2941, col: 8, offset: 92796},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92807,
+																					line: 2941, col: 9, offset: 92797,
 																				},
 																			},
 																		},
@@ -4971,10 +4971,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24618},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92458},
+																													pos: position{line: 2922, col: 10, offset: 92448},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92458},
+																														pos:        position{line: 2922, col: 10, offset: 92448},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4983,28 +4983,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92856},
+																												pos: position{line: 2944, col: 8, offset: 92846},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92629},
+																														pos: position{line: 2931, col: 12, offset: 92619},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92630},
+																															pos: position{line: 2931, col: 13, offset: 92620},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92630},
+																																	pos:        position{line: 2931, col: 13, offset: 92620},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92637},
+																																	pos:        position{line: 2931, col: 20, offset: 92627},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92646},
+																																	pos:        position{line: 2931, col: 29, offset: 92636},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5013,9 +5013,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92806},
+																														pos: position{line: 2941, col: 8, offset: 92796},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92807,
+																															line: 2941, col: 9, offset: 92797,
 																														},
 																													},
 																												},
@@ -5031,9 +5031,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92806},
+																						pos: position{line: 2941, col: 8, offset: 92796},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92807,
+																							line: 2941, col: 9, offset: 92797,
 																						},
 																					},
 																				},
@@ -5049,21 +5049,21 @@ var g = &grammar{
 																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92792},
+																							pos: position{line: 2939, col: 11, offset: 92782},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92794,
+																								line: 2939, col: 13, offset: 92784,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90984},
+																								pos: position{line: 2868, col: 13, offset: 90974},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90984},
+																									pos: position{line: 2868, col: 13, offset: 90974},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90984},
+																										pos:        position{line: 2868, col: 13, offset: 90974},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5073,28 +5073,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5103,9 +5103,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -5170,10 +5170,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24618},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92458},
+																									pos: position{line: 2922, col: 10, offset: 92448},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92458},
+																										pos:        position{line: 2922, col: 10, offset: 92448},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5182,28 +5182,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92856},
+																								pos: position{line: 2944, col: 8, offset: 92846},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92629},
+																										pos: position{line: 2931, col: 12, offset: 92619},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92630},
+																											pos: position{line: 2931, col: 13, offset: 92620},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92630},
+																													pos:        position{line: 2931, col: 13, offset: 92620},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92637},
+																													pos:        position{line: 2931, col: 20, offset: 92627},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92646},
+																													pos:        position{line: 2931, col: 29, offset: 92636},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5212,9 +5212,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92806},
+																										pos: position{line: 2941, col: 8, offset: 92796},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92807,
+																											line: 2941, col: 9, offset: 92797,
 																										},
 																									},
 																								},
@@ -5230,9 +5230,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92806},
+																		pos: position{line: 2941, col: 8, offset: 92796},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92807,
+																			line: 2941, col: 9, offset: 92797,
 																		},
 																	},
 																},
@@ -5284,10 +5284,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 773, col: 52, offset: 25030},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92458},
+																			pos: position{line: 2922, col: 10, offset: 92448},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92458},
+																				pos:        position{line: 2922, col: 10, offset: 92448},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5296,28 +5296,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92856},
+																		pos: position{line: 2944, col: 8, offset: 92846},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
+																				pos: position{line: 2931, col: 12, offset: 92619},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5326,9 +5326,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92806},
+																				pos: position{line: 2941, col: 8, offset: 92796},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92807,
+																					line: 2941, col: 9, offset: 92797,
 																				},
 																			},
 																		},
@@ -5362,10 +5362,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 976, col: 40, offset: 30833},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92458},
+																							pos: position{line: 2922, col: 10, offset: 92448},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92458},
+																								pos:        position{line: 2922, col: 10, offset: 92448},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5374,28 +5374,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92856},
+																						pos: position{line: 2944, col: 8, offset: 92846},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92629},
+																								pos: position{line: 2931, col: 12, offset: 92619},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92630},
+																									pos: position{line: 2931, col: 13, offset: 92620},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92630},
+																											pos:        position{line: 2931, col: 13, offset: 92620},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92637},
+																											pos:        position{line: 2931, col: 20, offset: 92627},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92646},
+																											pos:        position{line: 2931, col: 29, offset: 92636},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5404,9 +5404,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92806},
+																								pos: position{line: 2941, col: 8, offset: 92796},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92807,
+																									line: 2941, col: 9, offset: 92797,
 																								},
 																							},
 																						},
@@ -5424,21 +5424,21 @@ var g = &grammar{
 																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92792},
+																							pos: position{line: 2939, col: 11, offset: 92782},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92794,
+																								line: 2939, col: 13, offset: 92784,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90984},
+																								pos: position{line: 2868, col: 13, offset: 90974},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90984},
+																									pos: position{line: 2868, col: 13, offset: 90974},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90984},
+																										pos:        position{line: 2868, col: 13, offset: 90974},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5448,28 +5448,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5478,9 +5478,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -5508,10 +5508,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 976, col: 40, offset: 30833},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92458},
+																		pos: position{line: 2922, col: 10, offset: 92448},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92458},
+																			pos:        position{line: 2922, col: 10, offset: 92448},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5520,28 +5520,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92856},
+																	pos: position{line: 2944, col: 8, offset: 92846},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92629},
+																			pos: position{line: 2931, col: 12, offset: 92619},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92630},
+																				pos: position{line: 2931, col: 13, offset: 92620},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92630},
+																						pos:        position{line: 2931, col: 13, offset: 92620},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92637},
+																						pos:        position{line: 2931, col: 20, offset: 92627},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92646},
+																						pos:        position{line: 2931, col: 29, offset: 92636},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5550,9 +5550,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92806},
+																			pos: position{line: 2941, col: 8, offset: 92796},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92807,
+																				line: 2941, col: 9, offset: 92797,
 																			},
 																		},
 																	},
@@ -5609,10 +5609,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 769, col: 8, offset: 24864},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92458},
+																			pos: position{line: 2922, col: 10, offset: 92448},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92458},
+																				pos:        position{line: 2922, col: 10, offset: 92448},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5621,28 +5621,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92856},
+																		pos: position{line: 2944, col: 8, offset: 92846},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
+																				pos: position{line: 2931, col: 12, offset: 92619},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5651,9 +5651,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92806},
+																				pos: position{line: 2941, col: 8, offset: 92796},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92807,
+																					line: 2941, col: 9, offset: 92797,
 																				},
 																			},
 																		},
@@ -5725,10 +5725,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 769, col: 8, offset: 24864},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92458},
+																													pos: position{line: 2922, col: 10, offset: 92448},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92458},
+																														pos:        position{line: 2922, col: 10, offset: 92448},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5737,28 +5737,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92856},
+																												pos: position{line: 2944, col: 8, offset: 92846},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92629},
+																														pos: position{line: 2931, col: 12, offset: 92619},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92630},
+																															pos: position{line: 2931, col: 13, offset: 92620},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92630},
+																																	pos:        position{line: 2931, col: 13, offset: 92620},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92637},
+																																	pos:        position{line: 2931, col: 20, offset: 92627},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92646},
+																																	pos:        position{line: 2931, col: 29, offset: 92636},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5767,9 +5767,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92806},
+																														pos: position{line: 2941, col: 8, offset: 92796},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92807,
+																															line: 2941, col: 9, offset: 92797,
 																														},
 																													},
 																												},
@@ -5785,9 +5785,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92806},
+																						pos: position{line: 2941, col: 8, offset: 92796},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92807,
+																							line: 2941, col: 9, offset: 92797,
 																						},
 																					},
 																				},
@@ -5803,21 +5803,21 @@ var g = &grammar{
 																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92792},
+																							pos: position{line: 2939, col: 11, offset: 92782},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92794,
+																								line: 2939, col: 13, offset: 92784,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90984},
+																								pos: position{line: 2868, col: 13, offset: 90974},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90984},
+																									pos: position{line: 2868, col: 13, offset: 90974},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90984},
+																										pos:        position{line: 2868, col: 13, offset: 90974},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5827,28 +5827,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5857,9 +5857,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -5924,10 +5924,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24864},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92458},
+																									pos: position{line: 2922, col: 10, offset: 92448},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92458},
+																										pos:        position{line: 2922, col: 10, offset: 92448},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5936,28 +5936,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92856},
+																								pos: position{line: 2944, col: 8, offset: 92846},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92629},
+																										pos: position{line: 2931, col: 12, offset: 92619},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92630},
+																											pos: position{line: 2931, col: 13, offset: 92620},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92630},
+																													pos:        position{line: 2931, col: 13, offset: 92620},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92637},
+																													pos:        position{line: 2931, col: 20, offset: 92627},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92646},
+																													pos:        position{line: 2931, col: 29, offset: 92636},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5966,9 +5966,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92806},
+																										pos: position{line: 2941, col: 8, offset: 92796},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92807,
+																											line: 2941, col: 9, offset: 92797,
 																										},
 																									},
 																								},
@@ -5984,9 +5984,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92806},
+																		pos: position{line: 2941, col: 8, offset: 92796},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92807,
+																			line: 2941, col: 9, offset: 92797,
 																		},
 																	},
 																},
@@ -6042,10 +6042,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 784, col: 8, offset: 25402},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92458},
+																			pos: position{line: 2922, col: 10, offset: 92448},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92458},
+																				pos:        position{line: 2922, col: 10, offset: 92448},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6054,28 +6054,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92856},
+																		pos: position{line: 2944, col: 8, offset: 92846},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
+																				pos: position{line: 2931, col: 12, offset: 92619},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6084,9 +6084,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92806},
+																				pos: position{line: 2941, col: 8, offset: 92796},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92807,
+																					line: 2941, col: 9, offset: 92797,
 																				},
 																			},
 																		},
@@ -6158,10 +6158,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 784, col: 8, offset: 25402},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92458},
+																													pos: position{line: 2922, col: 10, offset: 92448},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92458},
+																														pos:        position{line: 2922, col: 10, offset: 92448},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6170,28 +6170,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92856},
+																												pos: position{line: 2944, col: 8, offset: 92846},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92629},
+																														pos: position{line: 2931, col: 12, offset: 92619},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92630},
+																															pos: position{line: 2931, col: 13, offset: 92620},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92630},
+																																	pos:        position{line: 2931, col: 13, offset: 92620},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92637},
+																																	pos:        position{line: 2931, col: 20, offset: 92627},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92646},
+																																	pos:        position{line: 2931, col: 29, offset: 92636},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6200,9 +6200,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92806},
+																														pos: position{line: 2941, col: 8, offset: 92796},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92807,
+																															line: 2941, col: 9, offset: 92797,
 																														},
 																													},
 																												},
@@ -6218,9 +6218,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92806},
+																						pos: position{line: 2941, col: 8, offset: 92796},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92807,
+																							line: 2941, col: 9, offset: 92797,
 																						},
 																					},
 																				},
@@ -6236,21 +6236,21 @@ var g = &grammar{
 																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92792},
+																							pos: position{line: 2939, col: 11, offset: 92782},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92794,
+																								line: 2939, col: 13, offset: 92784,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90984},
+																								pos: position{line: 2868, col: 13, offset: 90974},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90984},
+																									pos: position{line: 2868, col: 13, offset: 90974},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90984},
+																										pos:        position{line: 2868, col: 13, offset: 90974},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6260,28 +6260,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6290,9 +6290,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -6357,10 +6357,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 784, col: 8, offset: 25402},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92458},
+																									pos: position{line: 2922, col: 10, offset: 92448},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92458},
+																										pos:        position{line: 2922, col: 10, offset: 92448},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6369,28 +6369,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92856},
+																								pos: position{line: 2944, col: 8, offset: 92846},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92629},
+																										pos: position{line: 2931, col: 12, offset: 92619},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92630},
+																											pos: position{line: 2931, col: 13, offset: 92620},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92630},
+																													pos:        position{line: 2931, col: 13, offset: 92620},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92637},
+																													pos:        position{line: 2931, col: 20, offset: 92627},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92646},
+																													pos:        position{line: 2931, col: 29, offset: 92636},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6399,9 +6399,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92806},
+																										pos: position{line: 2941, col: 8, offset: 92796},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92807,
+																											line: 2941, col: 9, offset: 92797,
 																										},
 																									},
 																								},
@@ -6417,9 +6417,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92806},
+																		pos: position{line: 2941, col: 8, offset: 92796},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92807,
+																			line: 2941, col: 9, offset: 92797,
 																		},
 																	},
 																},
@@ -6475,10 +6475,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25878},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92458},
+																			pos: position{line: 2922, col: 10, offset: 92448},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92458},
+																				pos:        position{line: 2922, col: 10, offset: 92448},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6487,28 +6487,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92856},
+																		pos: position{line: 2944, col: 8, offset: 92846},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
+																				pos: position{line: 2931, col: 12, offset: 92619},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6517,9 +6517,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92806},
+																				pos: position{line: 2941, col: 8, offset: 92796},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92807,
+																					line: 2941, col: 9, offset: 92797,
 																				},
 																			},
 																		},
@@ -6591,10 +6591,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 798, col: 8, offset: 25878},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92458},
+																													pos: position{line: 2922, col: 10, offset: 92448},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92458},
+																														pos:        position{line: 2922, col: 10, offset: 92448},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6603,28 +6603,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92856},
+																												pos: position{line: 2944, col: 8, offset: 92846},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92629},
+																														pos: position{line: 2931, col: 12, offset: 92619},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92630},
+																															pos: position{line: 2931, col: 13, offset: 92620},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92630},
+																																	pos:        position{line: 2931, col: 13, offset: 92620},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92637},
+																																	pos:        position{line: 2931, col: 20, offset: 92627},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92646},
+																																	pos:        position{line: 2931, col: 29, offset: 92636},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6633,9 +6633,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92806},
+																														pos: position{line: 2941, col: 8, offset: 92796},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92807,
+																															line: 2941, col: 9, offset: 92797,
 																														},
 																													},
 																												},
@@ -6651,9 +6651,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92806},
+																						pos: position{line: 2941, col: 8, offset: 92796},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92807,
+																							line: 2941, col: 9, offset: 92797,
 																						},
 																					},
 																				},
@@ -6669,21 +6669,21 @@ var g = &grammar{
 																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92792},
+																							pos: position{line: 2939, col: 11, offset: 92782},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92794,
+																								line: 2939, col: 13, offset: 92784,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90984},
+																								pos: position{line: 2868, col: 13, offset: 90974},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90984},
+																									pos: position{line: 2868, col: 13, offset: 90974},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90984},
+																										pos:        position{line: 2868, col: 13, offset: 90974},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6693,28 +6693,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6723,9 +6723,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -6790,10 +6790,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 798, col: 8, offset: 25878},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92458},
+																									pos: position{line: 2922, col: 10, offset: 92448},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92458},
+																										pos:        position{line: 2922, col: 10, offset: 92448},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6802,28 +6802,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92856},
+																								pos: position{line: 2944, col: 8, offset: 92846},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92629},
+																										pos: position{line: 2931, col: 12, offset: 92619},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92630},
+																											pos: position{line: 2931, col: 13, offset: 92620},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92630},
+																													pos:        position{line: 2931, col: 13, offset: 92620},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92637},
+																													pos:        position{line: 2931, col: 20, offset: 92627},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92646},
+																													pos:        position{line: 2931, col: 29, offset: 92636},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6832,9 +6832,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92806},
+																										pos: position{line: 2941, col: 8, offset: 92796},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92807,
+																											line: 2941, col: 9, offset: 92797,
 																										},
 																									},
 																								},
@@ -6850,9 +6850,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92806},
+																		pos: position{line: 2941, col: 8, offset: 92796},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92807,
+																			line: 2941, col: 9, offset: 92797,
 																		},
 																	},
 																},
@@ -6886,18 +6886,18 @@ var g = &grammar{
 																				pos: position{line: 690, col: 14, offset: 22173},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92792},
+																						pos: position{line: 2939, col: 11, offset: 92782},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92794,
+																							line: 2939, col: 13, offset: 92784,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 690, col: 21, offset: 22180},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92458},
+																							pos: position{line: 2922, col: 10, offset: 92448},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92458},
+																								pos:        position{line: 2922, col: 10, offset: 92448},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6906,28 +6906,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92856},
+																						pos: position{line: 2944, col: 8, offset: 92846},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92629},
+																								pos: position{line: 2931, col: 12, offset: 92619},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92630},
+																									pos: position{line: 2931, col: 13, offset: 92620},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92630},
+																											pos:        position{line: 2931, col: 13, offset: 92620},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92637},
+																											pos:        position{line: 2931, col: 20, offset: 92627},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92646},
+																											pos:        position{line: 2931, col: 29, offset: 92636},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6936,9 +6936,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92806},
+																								pos: position{line: 2941, col: 8, offset: 92796},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92807,
+																									line: 2941, col: 9, offset: 92797,
 																								},
 																							},
 																						},
@@ -6957,12 +6957,12 @@ var g = &grammar{
 																		pos:   position{line: 997, col: 5, offset: 31368},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 14, offset: 91051},
+																			pos: position{line: 2872, col: 14, offset: 91041},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2872, col: 14, offset: 91051},
+																				pos: position{line: 2872, col: 14, offset: 91041},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 14, offset: 91051},
+																					pos:        position{line: 2872, col: 14, offset: 91041},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -6972,28 +6972,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92856},
+																		pos: position{line: 2944, col: 8, offset: 92846},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
+																				pos: position{line: 2931, col: 12, offset: 92619},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7002,9 +7002,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92806},
+																				pos: position{line: 2941, col: 8, offset: 92796},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92807,
+																					line: 2941, col: 9, offset: 92797,
 																				},
 																			},
 																		},
@@ -7036,18 +7036,18 @@ var g = &grammar{
 																							pos: position{line: 690, col: 14, offset: 22173},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2939, col: 11, offset: 92792},
+																									pos: position{line: 2939, col: 11, offset: 92782},
 																									expr: &anyMatcher{
-																										line: 2939, col: 13, offset: 92794,
+																										line: 2939, col: 13, offset: 92784,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 690, col: 21, offset: 22180},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92458},
+																										pos: position{line: 2922, col: 10, offset: 92448},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92458},
+																											pos:        position{line: 2922, col: 10, offset: 92448},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7056,28 +7056,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92856},
+																									pos: position{line: 2944, col: 8, offset: 92846},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92629},
+																											pos: position{line: 2931, col: 12, offset: 92619},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92630},
+																												pos: position{line: 2931, col: 13, offset: 92620},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92630},
+																														pos:        position{line: 2931, col: 13, offset: 92620},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92637},
+																														pos:        position{line: 2931, col: 20, offset: 92627},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92646},
+																														pos:        position{line: 2931, col: 29, offset: 92636},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7086,9 +7086,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92806},
+																											pos: position{line: 2941, col: 8, offset: 92796},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92807,
+																												line: 2941, col: 9, offset: 92797,
 																											},
 																										},
 																									},
@@ -7107,12 +7107,12 @@ var g = &grammar{
 																					pos:   position{line: 997, col: 5, offset: 31368},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2872, col: 14, offset: 91051},
+																						pos: position{line: 2872, col: 14, offset: 91041},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2872, col: 14, offset: 91051},
+																							pos: position{line: 2872, col: 14, offset: 91041},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 14, offset: 91051},
+																								pos:        position{line: 2872, col: 14, offset: 91041},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7122,28 +7122,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92856},
+																					pos: position{line: 2944, col: 8, offset: 92846},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92629},
+																							pos: position{line: 2931, col: 12, offset: 92619},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92630},
+																								pos: position{line: 2931, col: 13, offset: 92620},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92630},
+																										pos:        position{line: 2931, col: 13, offset: 92620},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92637},
+																										pos:        position{line: 2931, col: 20, offset: 92627},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92646},
+																										pos:        position{line: 2931, col: 29, offset: 92636},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7152,9 +7152,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92806},
+																							pos: position{line: 2941, col: 8, offset: 92796},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92807,
+																								line: 2941, col: 9, offset: 92797,
 																							},
 																						},
 																					},
@@ -7163,21 +7163,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1804, col: 5, offset: 58518},
+																		pos: position{line: 1804, col: 5, offset: 58508},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1804, col: 5, offset: 58518},
+																			pos: position{line: 1804, col: 5, offset: 58508},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1804, col: 5, offset: 58518},
+																					pos:   position{line: 1804, col: 5, offset: 58508},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2872, col: 14, offset: 91051},
+																						pos: position{line: 2872, col: 14, offset: 91041},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2872, col: 14, offset: 91051},
+																							pos: position{line: 2872, col: 14, offset: 91041},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 14, offset: 91051},
+																								pos:        position{line: 2872, col: 14, offset: 91041},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7187,32 +7187,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1805, col: 5, offset: 58542},
+																					pos: position{line: 1805, col: 5, offset: 58532},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92856},
+																					pos: position{line: 2944, col: 8, offset: 92846},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92629},
+																							pos: position{line: 2931, col: 12, offset: 92619},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92630},
+																								pos: position{line: 2931, col: 13, offset: 92620},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92630},
+																										pos:        position{line: 2931, col: 13, offset: 92620},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92637},
+																										pos:        position{line: 2931, col: 20, offset: 92627},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92646},
+																										pos:        position{line: 2931, col: 29, offset: 92636},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7221,9 +7221,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92806},
+																							pos: position{line: 2941, col: 8, offset: 92796},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92807,
+																								line: 2941, col: 9, offset: 92797,
 																							},
 																						},
 																					},
@@ -7270,10 +7270,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 791, col: 8, offset: 25633},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92458},
+																			pos: position{line: 2922, col: 10, offset: 92448},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92458},
+																				pos:        position{line: 2922, col: 10, offset: 92448},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7282,28 +7282,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92856},
+																		pos: position{line: 2944, col: 8, offset: 92846},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
+																				pos: position{line: 2931, col: 12, offset: 92619},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7312,9 +7312,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92806},
+																				pos: position{line: 2941, col: 8, offset: 92796},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92807,
+																					line: 2941, col: 9, offset: 92797,
 																				},
 																			},
 																		},
@@ -7362,10 +7362,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 791, col: 8, offset: 25633},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92458},
+																										pos: position{line: 2922, col: 10, offset: 92448},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92458},
+																											pos:        position{line: 2922, col: 10, offset: 92448},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7374,28 +7374,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92856},
+																									pos: position{line: 2944, col: 8, offset: 92846},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92629},
+																											pos: position{line: 2931, col: 12, offset: 92619},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92630},
+																												pos: position{line: 2931, col: 13, offset: 92620},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92630},
+																														pos:        position{line: 2931, col: 13, offset: 92620},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92637},
+																														pos:        position{line: 2931, col: 20, offset: 92627},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92646},
+																														pos:        position{line: 2931, col: 29, offset: 92636},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7404,9 +7404,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92806},
+																											pos: position{line: 2941, col: 8, offset: 92796},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92807,
+																												line: 2941, col: 9, offset: 92797,
 																											},
 																										},
 																									},
@@ -7415,9 +7415,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92806},
+																						pos: position{line: 2941, col: 8, offset: 92796},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92807,
+																							line: 2941, col: 9, offset: 92797,
 																						},
 																					},
 																				},
@@ -7433,21 +7433,21 @@ var g = &grammar{
 																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92792},
+																							pos: position{line: 2939, col: 11, offset: 92782},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92794,
+																								line: 2939, col: 13, offset: 92784,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90984},
+																								pos: position{line: 2868, col: 13, offset: 90974},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90984},
+																									pos: position{line: 2868, col: 13, offset: 90974},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90984},
+																										pos:        position{line: 2868, col: 13, offset: 90974},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7457,28 +7457,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7487,9 +7487,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -7534,10 +7534,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 791, col: 8, offset: 25633},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92458},
+																						pos: position{line: 2922, col: 10, offset: 92448},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92458},
+																							pos:        position{line: 2922, col: 10, offset: 92448},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7546,28 +7546,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92856},
+																					pos: position{line: 2944, col: 8, offset: 92846},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92629},
+																							pos: position{line: 2931, col: 12, offset: 92619},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92630},
+																								pos: position{line: 2931, col: 13, offset: 92620},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92630},
+																										pos:        position{line: 2931, col: 13, offset: 92620},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92637},
+																										pos:        position{line: 2931, col: 20, offset: 92627},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92646},
+																										pos:        position{line: 2931, col: 29, offset: 92636},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7576,9 +7576,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92806},
+																							pos: position{line: 2941, col: 8, offset: 92796},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92807,
+																								line: 2941, col: 9, offset: 92797,
 																							},
 																						},
 																					},
@@ -7587,9 +7587,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92806},
+																		pos: position{line: 2941, col: 8, offset: 92796},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92807,
+																			line: 2941, col: 9, offset: 92797,
 																		},
 																	},
 																},
@@ -7645,10 +7645,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 805, col: 8, offset: 26130},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92458},
+																			pos: position{line: 2922, col: 10, offset: 92448},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92458},
+																				pos:        position{line: 2922, col: 10, offset: 92448},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7657,28 +7657,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92856},
+																		pos: position{line: 2944, col: 8, offset: 92846},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
+																				pos: position{line: 2931, col: 12, offset: 92619},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7687,9 +7687,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92806},
+																				pos: position{line: 2941, col: 8, offset: 92796},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92807,
+																					line: 2941, col: 9, offset: 92797,
 																				},
 																			},
 																		},
@@ -7761,10 +7761,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 805, col: 8, offset: 26130},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92458},
+																													pos: position{line: 2922, col: 10, offset: 92448},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92458},
+																														pos:        position{line: 2922, col: 10, offset: 92448},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7773,28 +7773,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92856},
+																												pos: position{line: 2944, col: 8, offset: 92846},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92629},
+																														pos: position{line: 2931, col: 12, offset: 92619},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92630},
+																															pos: position{line: 2931, col: 13, offset: 92620},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92630},
+																																	pos:        position{line: 2931, col: 13, offset: 92620},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92637},
+																																	pos:        position{line: 2931, col: 20, offset: 92627},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92646},
+																																	pos:        position{line: 2931, col: 29, offset: 92636},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7803,9 +7803,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92806},
+																														pos: position{line: 2941, col: 8, offset: 92796},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92807,
+																															line: 2941, col: 9, offset: 92797,
 																														},
 																													},
 																												},
@@ -7821,9 +7821,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92806},
+																						pos: position{line: 2941, col: 8, offset: 92796},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92807,
+																							line: 2941, col: 9, offset: 92797,
 																						},
 																					},
 																				},
@@ -7839,21 +7839,21 @@ var g = &grammar{
 																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92792},
+																							pos: position{line: 2939, col: 11, offset: 92782},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92794,
+																								line: 2939, col: 13, offset: 92784,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90984},
+																								pos: position{line: 2868, col: 13, offset: 90974},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90984},
+																									pos: position{line: 2868, col: 13, offset: 90974},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90984},
+																										pos:        position{line: 2868, col: 13, offset: 90974},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7863,28 +7863,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7893,9 +7893,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -7960,10 +7960,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 26130},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92458},
+																									pos: position{line: 2922, col: 10, offset: 92448},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92458},
+																										pos:        position{line: 2922, col: 10, offset: 92448},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7972,28 +7972,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92856},
+																								pos: position{line: 2944, col: 8, offset: 92846},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92629},
+																										pos: position{line: 2931, col: 12, offset: 92619},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92630},
+																											pos: position{line: 2931, col: 13, offset: 92620},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92630},
+																													pos:        position{line: 2931, col: 13, offset: 92620},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92637},
+																													pos:        position{line: 2931, col: 20, offset: 92627},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92646},
+																													pos:        position{line: 2931, col: 29, offset: 92636},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8002,9 +8002,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92806},
+																										pos: position{line: 2941, col: 8, offset: 92796},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92807,
+																											line: 2941, col: 9, offset: 92797,
 																										},
 																									},
 																								},
@@ -8020,9 +8020,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92806},
+																		pos: position{line: 2941, col: 8, offset: 92796},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92807,
+																			line: 2941, col: 9, offset: 92797,
 																		},
 																	},
 																},
@@ -8078,10 +8078,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 812, col: 8, offset: 26380},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92458},
+																			pos: position{line: 2922, col: 10, offset: 92448},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92458},
+																				pos:        position{line: 2922, col: 10, offset: 92448},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8090,28 +8090,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92856},
+																		pos: position{line: 2944, col: 8, offset: 92846},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
+																				pos: position{line: 2931, col: 12, offset: 92619},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8120,9 +8120,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92806},
+																				pos: position{line: 2941, col: 8, offset: 92796},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92807,
+																					line: 2941, col: 9, offset: 92797,
 																				},
 																			},
 																		},
@@ -8194,10 +8194,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 812, col: 8, offset: 26380},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92458},
+																													pos: position{line: 2922, col: 10, offset: 92448},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92458},
+																														pos:        position{line: 2922, col: 10, offset: 92448},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8206,28 +8206,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92856},
+																												pos: position{line: 2944, col: 8, offset: 92846},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92629},
+																														pos: position{line: 2931, col: 12, offset: 92619},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92630},
+																															pos: position{line: 2931, col: 13, offset: 92620},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92630},
+																																	pos:        position{line: 2931, col: 13, offset: 92620},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92637},
+																																	pos:        position{line: 2931, col: 20, offset: 92627},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92646},
+																																	pos:        position{line: 2931, col: 29, offset: 92636},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8236,9 +8236,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92806},
+																														pos: position{line: 2941, col: 8, offset: 92796},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92807,
+																															line: 2941, col: 9, offset: 92797,
 																														},
 																													},
 																												},
@@ -8254,9 +8254,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92806},
+																						pos: position{line: 2941, col: 8, offset: 92796},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92807,
+																							line: 2941, col: 9, offset: 92797,
 																						},
 																					},
 																				},
@@ -8272,21 +8272,21 @@ var g = &grammar{
 																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92792},
+																							pos: position{line: 2939, col: 11, offset: 92782},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92794,
+																								line: 2939, col: 13, offset: 92784,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90984},
+																								pos: position{line: 2868, col: 13, offset: 90974},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90984},
+																									pos: position{line: 2868, col: 13, offset: 90974},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90984},
+																										pos:        position{line: 2868, col: 13, offset: 90974},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8296,28 +8296,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8326,9 +8326,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -8393,10 +8393,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26380},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92458},
+																									pos: position{line: 2922, col: 10, offset: 92448},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92458},
+																										pos:        position{line: 2922, col: 10, offset: 92448},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8405,28 +8405,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92856},
+																								pos: position{line: 2944, col: 8, offset: 92846},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92629},
+																										pos: position{line: 2931, col: 12, offset: 92619},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92630},
+																											pos: position{line: 2931, col: 13, offset: 92620},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92630},
+																													pos:        position{line: 2931, col: 13, offset: 92620},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92637},
+																													pos:        position{line: 2931, col: 20, offset: 92627},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92646},
+																													pos:        position{line: 2931, col: 29, offset: 92636},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8435,9 +8435,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92806},
+																										pos: position{line: 2941, col: 8, offset: 92796},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92807,
+																											line: 2941, col: 9, offset: 92797,
 																										},
 																									},
 																								},
@@ -8453,9 +8453,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92806},
+																		pos: position{line: 2941, col: 8, offset: 92796},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92807,
+																			line: 2941, col: 9, offset: 92797,
 																		},
 																	},
 																},
@@ -8511,10 +8511,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 819, col: 8, offset: 26626},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92458},
+																			pos: position{line: 2922, col: 10, offset: 92448},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92458},
+																				pos:        position{line: 2922, col: 10, offset: 92448},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8523,28 +8523,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92856},
+																		pos: position{line: 2944, col: 8, offset: 92846},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
+																				pos: position{line: 2931, col: 12, offset: 92619},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8553,9 +8553,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92806},
+																				pos: position{line: 2941, col: 8, offset: 92796},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92807,
+																					line: 2941, col: 9, offset: 92797,
 																				},
 																			},
 																		},
@@ -8627,10 +8627,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 819, col: 8, offset: 26626},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92458},
+																													pos: position{line: 2922, col: 10, offset: 92448},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92458},
+																														pos:        position{line: 2922, col: 10, offset: 92448},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8639,28 +8639,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92856},
+																												pos: position{line: 2944, col: 8, offset: 92846},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92629},
+																														pos: position{line: 2931, col: 12, offset: 92619},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92630},
+																															pos: position{line: 2931, col: 13, offset: 92620},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92630},
+																																	pos:        position{line: 2931, col: 13, offset: 92620},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92637},
+																																	pos:        position{line: 2931, col: 20, offset: 92627},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92646},
+																																	pos:        position{line: 2931, col: 29, offset: 92636},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8669,9 +8669,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92806},
+																														pos: position{line: 2941, col: 8, offset: 92796},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92807,
+																															line: 2941, col: 9, offset: 92797,
 																														},
 																													},
 																												},
@@ -8687,9 +8687,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92806},
+																						pos: position{line: 2941, col: 8, offset: 92796},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92807,
+																							line: 2941, col: 9, offset: 92797,
 																						},
 																					},
 																				},
@@ -8705,21 +8705,21 @@ var g = &grammar{
 																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92792},
+																							pos: position{line: 2939, col: 11, offset: 92782},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92794,
+																								line: 2939, col: 13, offset: 92784,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90984},
+																								pos: position{line: 2868, col: 13, offset: 90974},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90984},
+																									pos: position{line: 2868, col: 13, offset: 90974},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90984},
+																										pos:        position{line: 2868, col: 13, offset: 90974},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8729,28 +8729,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8759,9 +8759,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -8826,10 +8826,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26626},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92458},
+																									pos: position{line: 2922, col: 10, offset: 92448},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92458},
+																										pos:        position{line: 2922, col: 10, offset: 92448},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8838,28 +8838,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92856},
+																								pos: position{line: 2944, col: 8, offset: 92846},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92629},
+																										pos: position{line: 2931, col: 12, offset: 92619},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92630},
+																											pos: position{line: 2931, col: 13, offset: 92620},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92630},
+																													pos:        position{line: 2931, col: 13, offset: 92620},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92637},
+																													pos:        position{line: 2931, col: 20, offset: 92627},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92646},
+																													pos:        position{line: 2931, col: 29, offset: 92636},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8868,9 +8868,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92806},
+																										pos: position{line: 2941, col: 8, offset: 92796},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92807,
+																											line: 2941, col: 9, offset: 92797,
 																										},
 																									},
 																								},
@@ -8886,9 +8886,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92806},
+																		pos: position{line: 2941, col: 8, offset: 92796},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92807,
+																			line: 2941, col: 9, offset: 92797,
 																		},
 																	},
 																},
@@ -8899,52 +8899,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2767, col: 18, offset: 88048},
+											pos: position{line: 2767, col: 18, offset: 88038},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2767, col: 18, offset: 88048},
+												pos: position{line: 2767, col: 18, offset: 88038},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2768, col: 9, offset: 88058},
+														pos: position{line: 2768, col: 9, offset: 88048},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2768, col: 9, offset: 88058},
+																pos:        position{line: 2768, col: 9, offset: 88048},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2769, col: 11, offset: 88094},
+																pos:        position{line: 2769, col: 11, offset: 88084},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2769, col: 19, offset: 88102},
+																pos:        position{line: 2769, col: 19, offset: 88092},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2769, col: 29, offset: 88112},
+																pos:        position{line: 2769, col: 29, offset: 88102},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2769, col: 37, offset: 88120},
+																pos:        position{line: 2769, col: 37, offset: 88110},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2769, col: 47, offset: 88130},
+																pos:        position{line: 2769, col: 47, offset: 88120},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2769, col: 55, offset: 88138},
+																pos:        position{line: 2769, col: 55, offset: 88128},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -8952,12 +8952,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2770, col: 11, offset: 88196},
+														pos: position{line: 2770, col: 11, offset: 88186},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92458},
+															pos: position{line: 2922, col: 10, offset: 92448},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92458},
+																pos:        position{line: 2922, col: 10, offset: 92448},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -8966,28 +8966,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92856},
+														pos: position{line: 2944, col: 8, offset: 92846},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92629},
+																pos: position{line: 2931, col: 12, offset: 92619},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92630},
+																	pos: position{line: 2931, col: 13, offset: 92620},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92630},
+																			pos:        position{line: 2931, col: 13, offset: 92620},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92637},
+																			pos:        position{line: 2931, col: 20, offset: 92627},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92646},
+																			pos:        position{line: 2931, col: 29, offset: 92636},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -8996,36 +8996,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92806},
+																pos: position{line: 2941, col: 8, offset: 92796},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92807,
+																	line: 2941, col: 9, offset: 92797,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92856},
+														pos: position{line: 2944, col: 8, offset: 92846},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92629},
+																pos: position{line: 2931, col: 12, offset: 92619},
 																run: (*parser).callonDocumentFragment1098,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92630},
+																	pos: position{line: 2931, col: 13, offset: 92620},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92630},
+																			pos:        position{line: 2931, col: 13, offset: 92620},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92637},
+																			pos:        position{line: 2931, col: 20, offset: 92627},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92646},
+																			pos:        position{line: 2931, col: 29, offset: 92636},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9034,9 +9034,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92806},
+																pos: position{line: 2941, col: 8, offset: 92796},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92807,
+																	line: 2941, col: 9, offset: 92797,
 																},
 															},
 														},
@@ -9049,24 +9049,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2651, col: 5, offset: 84805},
+											pos: position{line: 2651, col: 5, offset: 84795},
 											run: (*parser).callonDocumentFragment1106,
 											expr: &seqExpr{
-												pos: position{line: 2651, col: 5, offset: 84805},
+												pos: position{line: 2651, col: 5, offset: 84795},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2657, col: 19, offset: 84982},
+														pos:        position{line: 2657, col: 19, offset: 84972},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2657, col: 26, offset: 84989},
+														pos: position{line: 2657, col: 26, offset: 84979},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92458},
+															pos: position{line: 2922, col: 10, offset: 92448},
 															run: (*parser).callonDocumentFragment1110,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92458},
+																pos:        position{line: 2922, col: 10, offset: 92448},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9075,28 +9075,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92856},
+														pos: position{line: 2944, col: 8, offset: 92846},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92629},
+																pos: position{line: 2931, col: 12, offset: 92619},
 																run: (*parser).callonDocumentFragment1113,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92630},
+																	pos: position{line: 2931, col: 13, offset: 92620},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92630},
+																			pos:        position{line: 2931, col: 13, offset: 92620},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92637},
+																			pos:        position{line: 2931, col: 20, offset: 92627},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92646},
+																			pos:        position{line: 2931, col: 29, offset: 92636},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9105,20 +9105,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92806},
+																pos: position{line: 2941, col: 8, offset: 92796},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92807,
+																	line: 2941, col: 9, offset: 92797,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2652, col: 5, offset: 84829},
+														pos:   position{line: 2652, col: 5, offset: 84819},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2652, col: 11, offset: 84835},
+															pos: position{line: 2652, col: 11, offset: 84825},
 															expr: &choiceExpr{
-																pos: position{line: 2652, col: 12, offset: 84836},
+																pos: position{line: 2652, col: 12, offset: 84826},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 690, col: 14, offset: 22173},
@@ -9127,18 +9127,18 @@ var g = &grammar{
 																			pos: position{line: 690, col: 14, offset: 22173},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2939, col: 11, offset: 92792},
+																					pos: position{line: 2939, col: 11, offset: 92782},
 																					expr: &anyMatcher{
-																						line: 2939, col: 13, offset: 92794,
+																						line: 2939, col: 13, offset: 92784,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 690, col: 21, offset: 22180},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92458},
+																						pos: position{line: 2922, col: 10, offset: 92448},
 																						run: (*parser).callonDocumentFragment1128,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92458},
+																							pos:        position{line: 2922, col: 10, offset: 92448},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9147,28 +9147,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92856},
+																					pos: position{line: 2944, col: 8, offset: 92846},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92629},
+																							pos: position{line: 2931, col: 12, offset: 92619},
 																							run: (*parser).callonDocumentFragment1131,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92630},
+																								pos: position{line: 2931, col: 13, offset: 92620},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92630},
+																										pos:        position{line: 2931, col: 13, offset: 92620},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92637},
+																										pos:        position{line: 2931, col: 20, offset: 92627},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92646},
+																										pos:        position{line: 2931, col: 29, offset: 92636},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9177,9 +9177,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92806},
+																							pos: position{line: 2941, col: 8, offset: 92796},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92807,
+																								line: 2941, col: 9, offset: 92797,
 																							},
 																						},
 																					},
@@ -9188,36 +9188,36 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2525, col: 22, offset: 81236},
+																		pos: position{line: 2525, col: 22, offset: 81226},
 																		run: (*parser).callonDocumentFragment1138,
 																		expr: &seqExpr{
-																			pos: position{line: 2525, col: 22, offset: 81236},
+																			pos: position{line: 2525, col: 22, offset: 81226},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2530, col: 31, offset: 81486},
+																					pos:        position{line: 2530, col: 31, offset: 81476},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																				&notExpr{
-																					pos: position{line: 2530, col: 36, offset: 81491},
+																					pos: position{line: 2530, col: 36, offset: 81481},
 																					expr: &litMatcher{
-																						pos:        position{line: 2530, col: 37, offset: 81492},
+																						pos:        position{line: 2530, col: 37, offset: 81482},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2525, col: 49, offset: 81263},
+																					pos:   position{line: 2525, col: 49, offset: 81253},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2868, col: 13, offset: 90984},
+																						pos: position{line: 2868, col: 13, offset: 90974},
 																						run: (*parser).callonDocumentFragment1144,
 																						expr: &zeroOrMoreExpr{
-																							pos: position{line: 2868, col: 13, offset: 90984},
+																							pos: position{line: 2868, col: 13, offset: 90974},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 13, offset: 90984},
+																								pos:        position{line: 2868, col: 13, offset: 90974},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -9227,28 +9227,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92856},
+																					pos: position{line: 2944, col: 8, offset: 92846},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92629},
+																							pos: position{line: 2931, col: 12, offset: 92619},
 																							run: (*parser).callonDocumentFragment1148,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92630},
+																								pos: position{line: 2931, col: 13, offset: 92620},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92630},
+																										pos:        position{line: 2931, col: 13, offset: 92620},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92637},
+																										pos:        position{line: 2931, col: 20, offset: 92627},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92646},
+																										pos:        position{line: 2931, col: 29, offset: 92636},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9257,9 +9257,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92806},
+																							pos: position{line: 2941, col: 8, offset: 92796},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92807,
+																								line: 2941, col: 9, offset: 92797,
 																							},
 																						},
 																					},
@@ -9268,32 +9268,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2664, col: 5, offset: 85101},
+																		pos: position{line: 2664, col: 5, offset: 85091},
 																		run: (*parser).callonDocumentFragment1155,
 																		expr: &seqExpr{
-																			pos: position{line: 2664, col: 5, offset: 85101},
+																			pos: position{line: 2664, col: 5, offset: 85091},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2664, col: 5, offset: 85101},
+																					pos: position{line: 2664, col: 5, offset: 85091},
 																					expr: &choiceExpr{
-																						pos: position{line: 2661, col: 22, offset: 85062},
+																						pos: position{line: 2661, col: 22, offset: 85052},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2657, col: 19, offset: 84982},
+																								pos: position{line: 2657, col: 19, offset: 84972},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2657, col: 19, offset: 84982},
+																										pos:        position{line: 2657, col: 19, offset: 84972},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2657, col: 26, offset: 84989},
+																										pos: position{line: 2657, col: 26, offset: 84979},
 																										expr: &actionExpr{
-																											pos: position{line: 2922, col: 10, offset: 92458},
+																											pos: position{line: 2922, col: 10, offset: 92448},
 																											run: (*parser).callonDocumentFragment1162,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2922, col: 10, offset: 92458},
+																												pos:        position{line: 2922, col: 10, offset: 92448},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9302,28 +9302,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2944, col: 8, offset: 92856},
+																										pos: position{line: 2944, col: 8, offset: 92846},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2931, col: 12, offset: 92629},
+																												pos: position{line: 2931, col: 12, offset: 92619},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &choiceExpr{
-																													pos: position{line: 2931, col: 13, offset: 92630},
+																													pos: position{line: 2931, col: 13, offset: 92620},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2931, col: 13, offset: 92630},
+																															pos:        position{line: 2931, col: 13, offset: 92620},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2931, col: 20, offset: 92637},
+																															pos:        position{line: 2931, col: 20, offset: 92627},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2931, col: 29, offset: 92646},
+																															pos:        position{line: 2931, col: 29, offset: 92636},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9332,9 +9332,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2941, col: 8, offset: 92806},
+																												pos: position{line: 2941, col: 8, offset: 92796},
 																												expr: &anyMatcher{
-																													line: 2941, col: 9, offset: 92807,
+																													line: 2941, col: 9, offset: 92797,
 																												},
 																											},
 																										},
@@ -9342,59 +9342,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92806},
+																								pos: position{line: 2941, col: 8, offset: 92796},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92807,
+																									line: 2941, col: 9, offset: 92797,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2665, col: 5, offset: 85124},
+																					pos:   position{line: 2665, col: 5, offset: 85114},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2666, col: 9, offset: 85142},
+																						pos: position{line: 2666, col: 9, offset: 85132},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2666, col: 10, offset: 85143},
+																								pos: position{line: 2666, col: 10, offset: 85133},
 																								run: (*parser).callonDocumentFragment1176,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2666, col: 10, offset: 85143},
+																									pos:   position{line: 2666, col: 10, offset: 85133},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2666, col: 17, offset: 85150},
+																										pos: position{line: 2666, col: 17, offset: 85140},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2674, col: 21, offset: 85346},
+																												pos: position{line: 2674, col: 21, offset: 85336},
 																												run: (*parser).callonDocumentFragment1179,
 																												expr: &seqExpr{
-																													pos: position{line: 2674, col: 21, offset: 85346},
+																													pos: position{line: 2674, col: 21, offset: 85336},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2674, col: 21, offset: 85346},
+																															pos:   position{line: 2674, col: 21, offset: 85336},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2674, col: 27, offset: 85352},
+																																pos: position{line: 2674, col: 27, offset: 85342},
 																																expr: &actionExpr{
-																																	pos: position{line: 2679, col: 5, offset: 85427},
+																																	pos: position{line: 2679, col: 5, offset: 85417},
 																																	run: (*parser).callonDocumentFragment1183,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2679, col: 5, offset: 85427},
+																																		pos: position{line: 2679, col: 5, offset: 85417},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2679, col: 5, offset: 85427},
+																																				pos:        position{line: 2679, col: 5, offset: 85417},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2679, col: 9, offset: 85431},
+																																				pos: position{line: 2679, col: 9, offset: 85421},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2922, col: 10, offset: 92458},
+																																					pos: position{line: 2922, col: 10, offset: 92448},
 																																					run: (*parser).callonDocumentFragment1187,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2922, col: 10, offset: 92458},
+																																						pos:        position{line: 2922, col: 10, offset: 92448},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9403,21 +9403,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2679, col: 16, offset: 85438},
+																																				pos:   position{line: 2679, col: 16, offset: 85428},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2685, col: 5, offset: 85638},
+																																					pos: position{line: 2685, col: 5, offset: 85628},
 																																					run: (*parser).callonDocumentFragment1190,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2685, col: 5, offset: 85638},
+																																						pos:   position{line: 2685, col: 5, offset: 85628},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2685, col: 14, offset: 85647},
+																																							pos: position{line: 2685, col: 14, offset: 85637},
 																																							run: (*parser).callonDocumentFragment1192,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2685, col: 14, offset: 85647},
+																																								pos: position{line: 2685, col: 14, offset: 85637},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2685, col: 14, offset: 85647},
+																																									pos:        position{line: 2685, col: 14, offset: 85637},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9434,28 +9434,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2944, col: 8, offset: 92856},
+																															pos: position{line: 2944, col: 8, offset: 92846},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2931, col: 12, offset: 92629},
+																																	pos: position{line: 2931, col: 12, offset: 92619},
 																																	run: (*parser).callonDocumentFragment1196,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2931, col: 13, offset: 92630},
+																																		pos: position{line: 2931, col: 13, offset: 92620},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2931, col: 13, offset: 92630},
+																																				pos:        position{line: 2931, col: 13, offset: 92620},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2931, col: 20, offset: 92637},
+																																				pos:        position{line: 2931, col: 20, offset: 92627},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2931, col: 29, offset: 92646},
+																																				pos:        position{line: 2931, col: 29, offset: 92636},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9464,9 +9464,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2941, col: 8, offset: 92806},
+																																	pos: position{line: 2941, col: 8, offset: 92796},
 																																	expr: &anyMatcher{
-																																		line: 2941, col: 9, offset: 92807,
+																																		line: 2941, col: 9, offset: 92797,
 																																	},
 																																},
 																															},
@@ -9475,40 +9475,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2691, col: 24, offset: 85783},
+																												pos: position{line: 2691, col: 24, offset: 85773},
 																												run: (*parser).callonDocumentFragment1203,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2691, col: 24, offset: 85783},
+																													pos:   position{line: 2691, col: 24, offset: 85773},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2691, col: 30, offset: 85789},
+																														pos: position{line: 2691, col: 30, offset: 85779},
 																														expr: &actionExpr{
-																															pos: position{line: 2696, col: 5, offset: 85865},
+																															pos: position{line: 2696, col: 5, offset: 85855},
 																															run: (*parser).callonDocumentFragment1206,
 																															expr: &seqExpr{
-																																pos: position{line: 2696, col: 5, offset: 85865},
+																																pos: position{line: 2696, col: 5, offset: 85855},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2696, col: 5, offset: 85865},
+																																		pos: position{line: 2696, col: 5, offset: 85855},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2661, col: 22, offset: 85062},
+																																			pos: position{line: 2661, col: 22, offset: 85052},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2657, col: 19, offset: 84982},
+																																					pos: position{line: 2657, col: 19, offset: 84972},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2657, col: 19, offset: 84982},
+																																							pos:        position{line: 2657, col: 19, offset: 84972},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2657, col: 26, offset: 84989},
+																																							pos: position{line: 2657, col: 26, offset: 84979},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2922, col: 10, offset: 92458},
+																																								pos: position{line: 2922, col: 10, offset: 92448},
 																																								run: (*parser).callonDocumentFragment1213,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2922, col: 10, offset: 92458},
+																																									pos:        position{line: 2922, col: 10, offset: 92448},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9517,28 +9517,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2944, col: 8, offset: 92856},
+																																							pos: position{line: 2944, col: 8, offset: 92846},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2931, col: 12, offset: 92629},
+																																									pos: position{line: 2931, col: 12, offset: 92619},
 																																									run: (*parser).callonDocumentFragment1216,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2931, col: 13, offset: 92630},
+																																										pos: position{line: 2931, col: 13, offset: 92620},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2931, col: 13, offset: 92630},
+																																												pos:        position{line: 2931, col: 13, offset: 92620},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2931, col: 20, offset: 92637},
+																																												pos:        position{line: 2931, col: 20, offset: 92627},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2931, col: 29, offset: 92646},
+																																												pos:        position{line: 2931, col: 29, offset: 92636},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9547,9 +9547,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2941, col: 8, offset: 92806},
+																																									pos: position{line: 2941, col: 8, offset: 92796},
 																																									expr: &anyMatcher{
-																																										line: 2941, col: 9, offset: 92807,
+																																										line: 2941, col: 9, offset: 92797,
 																																									},
 																																								},
 																																							},
@@ -9557,16 +9557,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2941, col: 8, offset: 92806},
+																																					pos: position{line: 2941, col: 8, offset: 92796},
 																																					expr: &anyMatcher{
-																																						line: 2941, col: 9, offset: 92807,
+																																						line: 2941, col: 9, offset: 92797,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2697, col: 5, offset: 85888},
+																																		pos: position{line: 2697, col: 5, offset: 85878},
 																																		expr: &actionExpr{
 																																			pos: position{line: 690, col: 14, offset: 22173},
 																																			run: (*parser).callonDocumentFragment1226,
@@ -9574,18 +9574,18 @@ var g = &grammar{
 																																				pos: position{line: 690, col: 14, offset: 22173},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2939, col: 11, offset: 92792},
+																																						pos: position{line: 2939, col: 11, offset: 92782},
 																																						expr: &anyMatcher{
-																																							line: 2939, col: 13, offset: 92794,
+																																							line: 2939, col: 13, offset: 92784,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 690, col: 21, offset: 22180},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2922, col: 10, offset: 92458},
+																																							pos: position{line: 2922, col: 10, offset: 92448},
 																																							run: (*parser).callonDocumentFragment1231,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2922, col: 10, offset: 92458},
+																																								pos:        position{line: 2922, col: 10, offset: 92448},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9594,28 +9594,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2944, col: 8, offset: 92856},
+																																						pos: position{line: 2944, col: 8, offset: 92846},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2931, col: 12, offset: 92629},
+																																								pos: position{line: 2931, col: 12, offset: 92619},
 																																								run: (*parser).callonDocumentFragment1234,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2931, col: 13, offset: 92630},
+																																									pos: position{line: 2931, col: 13, offset: 92620},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2931, col: 13, offset: 92630},
+																																											pos:        position{line: 2931, col: 13, offset: 92620},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2931, col: 20, offset: 92637},
+																																											pos:        position{line: 2931, col: 20, offset: 92627},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2931, col: 29, offset: 92646},
+																																											pos:        position{line: 2931, col: 29, offset: 92636},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9624,9 +9624,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2941, col: 8, offset: 92806},
+																																								pos: position{line: 2941, col: 8, offset: 92796},
 																																								expr: &anyMatcher{
-																																									line: 2941, col: 9, offset: 92807,
+																																									line: 2941, col: 9, offset: 92797,
 																																								},
 																																							},
 																																						},
@@ -9636,17 +9636,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2698, col: 5, offset: 85903},
+																																		pos:   position{line: 2698, col: 5, offset: 85893},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2698, col: 12, offset: 85910},
+																																			pos: position{line: 2698, col: 12, offset: 85900},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2722, col: 20, offset: 86533},
+																																				pos: position{line: 2722, col: 20, offset: 86523},
 																																				run: (*parser).callonDocumentFragment1243,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2722, col: 20, offset: 86533},
+																																					pos: position{line: 2722, col: 20, offset: 86523},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2722, col: 20, offset: 86533},
+																																						pos:        position{line: 2722, col: 20, offset: 86523},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9657,18 +9657,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2698, col: 31, offset: 85929},
+																																		pos:        position{line: 2698, col: 31, offset: 85919},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2698, col: 35, offset: 85933},
+																																		pos: position{line: 2698, col: 35, offset: 85923},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2922, col: 10, offset: 92458},
+																																			pos: position{line: 2922, col: 10, offset: 92448},
 																																			run: (*parser).callonDocumentFragment1248,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2922, col: 10, offset: 92458},
+																																				pos:        position{line: 2922, col: 10, offset: 92448},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9677,27 +9677,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2698, col: 42, offset: 85940},
+																																		pos: position{line: 2698, col: 42, offset: 85930},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2931, col: 12, offset: 92629},
+																																			pos: position{line: 2931, col: 12, offset: 92619},
 																																			run: (*parser).callonDocumentFragment1251,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2931, col: 13, offset: 92630},
+																																				pos: position{line: 2931, col: 13, offset: 92620},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2931, col: 13, offset: 92630},
+																																						pos:        position{line: 2931, col: 13, offset: 92620},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2931, col: 20, offset: 92637},
+																																						pos:        position{line: 2931, col: 20, offset: 92627},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2931, col: 29, offset: 92646},
+																																						pos:        position{line: 2931, col: 29, offset: 92636},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9707,57 +9707,57 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2698, col: 51, offset: 85949},
+																																		pos:   position{line: 2698, col: 51, offset: 85939},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2704, col: 5, offset: 86108},
+																																			pos: position{line: 2704, col: 5, offset: 86098},
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2705, col: 9, offset: 86118},
+																																				pos: position{line: 2705, col: 9, offset: 86108},
 																																				alternatives: []interface{}{
 																																					&actionExpr{
-																																						pos: position{line: 2705, col: 9, offset: 86118},
+																																						pos: position{line: 2705, col: 9, offset: 86108},
 																																						run: (*parser).callonDocumentFragment1259,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2705, col: 9, offset: 86118},
+																																							pos: position{line: 2705, col: 9, offset: 86108},
 																																							exprs: []interface{}{
 																																								&andCodeExpr{
-																																									pos: position{line: 2705, col: 9, offset: 86118},
+																																									pos: position{line: 2705, col: 9, offset: 86108},
 																																									run: (*parser).callonDocumentFragment1261,
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2708, col: 9, offset: 86187},
+																																									pos:   position{line: 2708, col: 9, offset: 86177},
 																																									label: "comment",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2525, col: 22, offset: 81236},
+																																										pos: position{line: 2525, col: 22, offset: 81226},
 																																										run: (*parser).callonDocumentFragment1263,
 																																										expr: &seqExpr{
-																																											pos: position{line: 2525, col: 22, offset: 81236},
+																																											pos: position{line: 2525, col: 22, offset: 81226},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2530, col: 31, offset: 81486},
+																																													pos:        position{line: 2530, col: 31, offset: 81476},
 																																													val:        "//",
 																																													ignoreCase: false,
 																																													want:       "\"//\"",
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2530, col: 36, offset: 81491},
+																																													pos: position{line: 2530, col: 36, offset: 81481},
 																																													expr: &litMatcher{
-																																														pos:        position{line: 2530, col: 37, offset: 81492},
+																																														pos:        position{line: 2530, col: 37, offset: 81482},
 																																														val:        "/",
 																																														ignoreCase: false,
 																																														want:       "\"/\"",
 																																													},
 																																												},
 																																												&labeledExpr{
-																																													pos:   position{line: 2525, col: 49, offset: 81263},
+																																													pos:   position{line: 2525, col: 49, offset: 81253},
 																																													label: "content",
 																																													expr: &actionExpr{
-																																														pos: position{line: 2868, col: 13, offset: 90984},
+																																														pos: position{line: 2868, col: 13, offset: 90974},
 																																														run: (*parser).callonDocumentFragment1269,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2868, col: 13, offset: 90984},
+																																															pos: position{line: 2868, col: 13, offset: 90974},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2868, col: 13, offset: 90984},
+																																																pos:        position{line: 2868, col: 13, offset: 90974},
 																																																val:        "[^\\r\\n]",
 																																																chars:      []rune{'\r', '\n'},
 																																																ignoreCase: false,
@@ -9767,28 +9767,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2944, col: 8, offset: 92856},
+																																													pos: position{line: 2944, col: 8, offset: 92846},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2931, col: 12, offset: 92629},
+																																															pos: position{line: 2931, col: 12, offset: 92619},
 																																															run: (*parser).callonDocumentFragment1273,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2931, col: 13, offset: 92630},
+																																																pos: position{line: 2931, col: 13, offset: 92620},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 13, offset: 92630},
+																																																		pos:        position{line: 2931, col: 13, offset: 92620},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 20, offset: 92637},
+																																																		pos:        position{line: 2931, col: 20, offset: 92627},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 29, offset: 92646},
+																																																		pos:        position{line: 2931, col: 29, offset: 92636},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -9797,9 +9797,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2941, col: 8, offset: 92806},
+																																															pos: position{line: 2941, col: 8, offset: 92796},
 																																															expr: &anyMatcher{
-																																																line: 2941, col: 9, offset: 92807,
+																																																line: 2941, col: 9, offset: 92797,
 																																															},
 																																														},
 																																													},
@@ -9812,32 +9812,32 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&actionExpr{
-																																						pos: position{line: 2712, col: 9, offset: 86277},
+																																						pos: position{line: 2712, col: 9, offset: 86267},
 																																						run: (*parser).callonDocumentFragment1280,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2712, col: 9, offset: 86277},
+																																							pos: position{line: 2712, col: 9, offset: 86267},
 																																							exprs: []interface{}{
 																																								&notExpr{
-																																									pos: position{line: 2712, col: 9, offset: 86277},
+																																									pos: position{line: 2712, col: 9, offset: 86267},
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2661, col: 22, offset: 85062},
+																																										pos: position{line: 2661, col: 22, offset: 85052},
 																																										alternatives: []interface{}{
 																																											&seqExpr{
-																																												pos: position{line: 2657, col: 19, offset: 84982},
+																																												pos: position{line: 2657, col: 19, offset: 84972},
 																																												exprs: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2657, col: 19, offset: 84982},
+																																														pos:        position{line: 2657, col: 19, offset: 84972},
 																																														val:        "|===",
 																																														ignoreCase: false,
 																																														want:       "\"|===\"",
 																																													},
 																																													&zeroOrMoreExpr{
-																																														pos: position{line: 2657, col: 26, offset: 84989},
+																																														pos: position{line: 2657, col: 26, offset: 84979},
 																																														expr: &actionExpr{
-																																															pos: position{line: 2922, col: 10, offset: 92458},
+																																															pos: position{line: 2922, col: 10, offset: 92448},
 																																															run: (*parser).callonDocumentFragment1287,
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2922, col: 10, offset: 92458},
+																																																pos:        position{line: 2922, col: 10, offset: 92448},
 																																																val:        "[\\t ]",
 																																																chars:      []rune{'\t', ' '},
 																																																ignoreCase: false,
@@ -9846,28 +9846,28 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&choiceExpr{
-																																														pos: position{line: 2944, col: 8, offset: 92856},
+																																														pos: position{line: 2944, col: 8, offset: 92846},
 																																														alternatives: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2931, col: 12, offset: 92629},
+																																																pos: position{line: 2931, col: 12, offset: 92619},
 																																																run: (*parser).callonDocumentFragment1290,
 																																																expr: &choiceExpr{
-																																																	pos: position{line: 2931, col: 13, offset: 92630},
+																																																	pos: position{line: 2931, col: 13, offset: 92620},
 																																																	alternatives: []interface{}{
 																																																		&litMatcher{
-																																																			pos:        position{line: 2931, col: 13, offset: 92630},
+																																																			pos:        position{line: 2931, col: 13, offset: 92620},
 																																																			val:        "\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2931, col: 20, offset: 92637},
+																																																			pos:        position{line: 2931, col: 20, offset: 92627},
 																																																			val:        "\r\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2931, col: 29, offset: 92646},
+																																																			pos:        position{line: 2931, col: 29, offset: 92636},
 																																																			val:        "\r",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\"",
@@ -9876,9 +9876,9 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&notExpr{
-																																																pos: position{line: 2941, col: 8, offset: 92806},
+																																																pos: position{line: 2941, col: 8, offset: 92796},
 																																																expr: &anyMatcher{
-																																																	line: 2941, col: 9, offset: 92807,
+																																																	line: 2941, col: 9, offset: 92797,
 																																																},
 																																															},
 																																														},
@@ -9886,16 +9886,16 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2941, col: 8, offset: 92806},
+																																												pos: position{line: 2941, col: 8, offset: 92796},
 																																												expr: &anyMatcher{
-																																													line: 2941, col: 9, offset: 92807,
+																																													line: 2941, col: 9, offset: 92797,
 																																												},
 																																											},
 																																										},
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2713, col: 9, offset: 86304},
+																																									pos: position{line: 2713, col: 9, offset: 86294},
 																																									expr: &actionExpr{
 																																										pos: position{line: 690, col: 14, offset: 22173},
 																																										run: (*parser).callonDocumentFragment1300,
@@ -9903,18 +9903,18 @@ var g = &grammar{
 																																											pos: position{line: 690, col: 14, offset: 22173},
 																																											exprs: []interface{}{
 																																												&andExpr{
-																																													pos: position{line: 2939, col: 11, offset: 92792},
+																																													pos: position{line: 2939, col: 11, offset: 92782},
 																																													expr: &anyMatcher{
-																																														line: 2939, col: 13, offset: 92794,
+																																														line: 2939, col: 13, offset: 92784,
 																																													},
 																																												},
 																																												&zeroOrMoreExpr{
 																																													pos: position{line: 690, col: 21, offset: 22180},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2922, col: 10, offset: 92458},
+																																														pos: position{line: 2922, col: 10, offset: 92448},
 																																														run: (*parser).callonDocumentFragment1305,
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2922, col: 10, offset: 92458},
+																																															pos:        position{line: 2922, col: 10, offset: 92448},
 																																															val:        "[\\t ]",
 																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
@@ -9923,28 +9923,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2944, col: 8, offset: 92856},
+																																													pos: position{line: 2944, col: 8, offset: 92846},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2931, col: 12, offset: 92629},
+																																															pos: position{line: 2931, col: 12, offset: 92619},
 																																															run: (*parser).callonDocumentFragment1308,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2931, col: 13, offset: 92630},
+																																																pos: position{line: 2931, col: 13, offset: 92620},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 13, offset: 92630},
+																																																		pos:        position{line: 2931, col: 13, offset: 92620},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 20, offset: 92637},
+																																																		pos:        position{line: 2931, col: 20, offset: 92627},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 29, offset: 92646},
+																																																		pos:        position{line: 2931, col: 29, offset: 92636},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -9953,9 +9953,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2941, col: 8, offset: 92806},
+																																															pos: position{line: 2941, col: 8, offset: 92796},
 																																															expr: &anyMatcher{
-																																																line: 2941, col: 9, offset: 92807,
+																																																line: 2941, col: 9, offset: 92797,
 																																															},
 																																														},
 																																													},
@@ -9965,22 +9965,22 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2714, col: 9, offset: 86323},
+																																									pos: position{line: 2714, col: 9, offset: 86313},
 																																									expr: &seqExpr{
-																																										pos: position{line: 2714, col: 11, offset: 86325},
+																																										pos: position{line: 2714, col: 11, offset: 86315},
 																																										exprs: []interface{}{
 																																											&labeledExpr{
-																																												pos:   position{line: 2714, col: 11, offset: 86325},
+																																												pos:   position{line: 2714, col: 11, offset: 86315},
 																																												label: "format",
 																																												expr: &zeroOrOneExpr{
-																																													pos: position{line: 2714, col: 18, offset: 86332},
+																																													pos: position{line: 2714, col: 18, offset: 86322},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2722, col: 20, offset: 86533},
+																																														pos: position{line: 2722, col: 20, offset: 86523},
 																																														run: (*parser).callonDocumentFragment1319,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2722, col: 20, offset: 86533},
+																																															pos: position{line: 2722, col: 20, offset: 86523},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2722, col: 20, offset: 86533},
+																																																pos:        position{line: 2722, col: 20, offset: 86523},
 																																																val:        "[^ |\\r\\n]",
 																																																chars:      []rune{' ', '|', '\r', '\n'},
 																																																ignoreCase: false,
@@ -9991,7 +9991,7 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2714, col: 37, offset: 86351},
+																																												pos:        position{line: 2714, col: 37, offset: 86341},
 																																												val:        "|",
 																																												ignoreCase: false,
 																																												want:       "\"|\"",
@@ -10000,15 +10000,15 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2715, col: 9, offset: 86364},
+																																									pos:   position{line: 2715, col: 9, offset: 86354},
 																																									label: "content",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2715, col: 18, offset: 86373},
+																																										pos: position{line: 2715, col: 18, offset: 86363},
 																																										run: (*parser).callonDocumentFragment1324,
 																																										expr: &zeroOrMoreExpr{
-																																											pos: position{line: 2715, col: 18, offset: 86373},
+																																											pos: position{line: 2715, col: 18, offset: 86363},
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2715, col: 18, offset: 86373},
+																																												pos:        position{line: 2715, col: 18, offset: 86363},
 																																												val:        "[^|\\r\\n]",
 																																												chars:      []rune{'|', '\r', '\n'},
 																																												ignoreCase: false,
@@ -10018,30 +10018,30 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&zeroOrOneExpr{
-																																									pos: position{line: 2717, col: 12, offset: 86435},
+																																									pos: position{line: 2717, col: 12, offset: 86425},
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2944, col: 8, offset: 92856},
+																																										pos: position{line: 2944, col: 8, offset: 92846},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2931, col: 12, offset: 92629},
+																																												pos: position{line: 2931, col: 12, offset: 92619},
 																																												run: (*parser).callonDocumentFragment1329,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2931, col: 13, offset: 92630},
+																																													pos: position{line: 2931, col: 13, offset: 92620},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2931, col: 13, offset: 92630},
+																																															pos:        position{line: 2931, col: 13, offset: 92620},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2931, col: 20, offset: 92637},
+																																															pos:        position{line: 2931, col: 20, offset: 92627},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2931, col: 29, offset: 92646},
+																																															pos:        position{line: 2931, col: 29, offset: 92636},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -10050,9 +10050,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2941, col: 8, offset: 92806},
+																																												pos: position{line: 2941, col: 8, offset: 92796},
 																																												expr: &anyMatcher{
-																																													line: 2941, col: 9, offset: 92807,
+																																													line: 2941, col: 9, offset: 92797,
 																																												},
 																																											},
 																																										},
@@ -10082,18 +10082,18 @@ var g = &grammar{
 																									pos: position{line: 690, col: 14, offset: 22173},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2939, col: 11, offset: 92792},
+																											pos: position{line: 2939, col: 11, offset: 92782},
 																											expr: &anyMatcher{
-																												line: 2939, col: 13, offset: 92794,
+																												line: 2939, col: 13, offset: 92784,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 690, col: 21, offset: 22180},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92458},
+																												pos: position{line: 2922, col: 10, offset: 92448},
 																												run: (*parser).callonDocumentFragment1341,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92458},
+																													pos:        position{line: 2922, col: 10, offset: 92448},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10102,28 +10102,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92856},
+																											pos: position{line: 2944, col: 8, offset: 92846},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92629},
+																													pos: position{line: 2931, col: 12, offset: 92619},
 																													run: (*parser).callonDocumentFragment1344,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92630},
+																														pos: position{line: 2931, col: 13, offset: 92620},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92630},
+																																pos:        position{line: 2931, col: 13, offset: 92620},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92637},
+																																pos:        position{line: 2931, col: 20, offset: 92627},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92646},
+																																pos:        position{line: 2931, col: 29, offset: 92636},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10132,9 +10132,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92806},
+																													pos: position{line: 2941, col: 8, offset: 92796},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92807,
+																														line: 2941, col: 9, offset: 92797,
 																													},
 																												},
 																											},
@@ -10153,24 +10153,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2661, col: 22, offset: 85062},
+														pos: position{line: 2661, col: 22, offset: 85052},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2657, col: 19, offset: 84982},
+																pos: position{line: 2657, col: 19, offset: 84972},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2657, col: 19, offset: 84982},
+																		pos:        position{line: 2657, col: 19, offset: 84972},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2657, col: 26, offset: 84989},
+																		pos: position{line: 2657, col: 26, offset: 84979},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92458},
+																			pos: position{line: 2922, col: 10, offset: 92448},
 																			run: (*parser).callonDocumentFragment1355,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92458},
+																				pos:        position{line: 2922, col: 10, offset: 92448},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10179,28 +10179,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92856},
+																		pos: position{line: 2944, col: 8, offset: 92846},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
+																				pos: position{line: 2931, col: 12, offset: 92619},
 																				run: (*parser).callonDocumentFragment1358,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10209,9 +10209,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92806},
+																				pos: position{line: 2941, col: 8, offset: 92796},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92807,
+																					line: 2941, col: 9, offset: 92797,
 																				},
 																			},
 																		},
@@ -10219,9 +10219,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92806},
+																pos: position{line: 2941, col: 8, offset: 92796},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92807,
+																	line: 2941, col: 9, offset: 92797,
 																},
 															},
 														},
@@ -10230,36 +10230,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2525, col: 22, offset: 81236},
+											pos: position{line: 2525, col: 22, offset: 81226},
 											run: (*parser).callonDocumentFragment1367,
 											expr: &seqExpr{
-												pos: position{line: 2525, col: 22, offset: 81236},
+												pos: position{line: 2525, col: 22, offset: 81226},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2530, col: 31, offset: 81486},
+														pos:        position{line: 2530, col: 31, offset: 81476},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2530, col: 36, offset: 81491},
+														pos: position{line: 2530, col: 36, offset: 81481},
 														expr: &litMatcher{
-															pos:        position{line: 2530, col: 37, offset: 81492},
+															pos:        position{line: 2530, col: 37, offset: 81482},
 															val:        "/",
 															ignoreCase: false,
 															want:       "\"/\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2525, col: 49, offset: 81263},
+														pos:   position{line: 2525, col: 49, offset: 81253},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2868, col: 13, offset: 90984},
+															pos: position{line: 2868, col: 13, offset: 90974},
 															run: (*parser).callonDocumentFragment1373,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2868, col: 13, offset: 90984},
+																pos: position{line: 2868, col: 13, offset: 90974},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2868, col: 13, offset: 90984},
+																	pos:        position{line: 2868, col: 13, offset: 90974},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10269,28 +10269,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92856},
+														pos: position{line: 2944, col: 8, offset: 92846},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92629},
+																pos: position{line: 2931, col: 12, offset: 92619},
 																run: (*parser).callonDocumentFragment1377,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92630},
+																	pos: position{line: 2931, col: 13, offset: 92620},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92630},
+																			pos:        position{line: 2931, col: 13, offset: 92620},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92637},
+																			pos:        position{line: 2931, col: 20, offset: 92627},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92646},
+																			pos:        position{line: 2931, col: 29, offset: 92636},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10299,9 +10299,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92806},
+																pos: position{line: 2941, col: 8, offset: 92796},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92807,
+																	line: 2941, col: 9, offset: 92797,
 																},
 															},
 														},
@@ -10337,10 +10337,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1247, col: 36, offset: 38928},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92458},
+																			pos: position{line: 2922, col: 10, offset: 92448},
 																			run: (*parser).callonDocumentFragment1392,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92458},
+																				pos:        position{line: 2922, col: 10, offset: 92448},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10349,28 +10349,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92856},
+																		pos: position{line: 2944, col: 8, offset: 92846},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
+																				pos: position{line: 2931, col: 12, offset: 92619},
 																				run: (*parser).callonDocumentFragment1395,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10379,9 +10379,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92806},
+																				pos: position{line: 2941, col: 8, offset: 92796},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92807,
+																					line: 2941, col: 9, offset: 92797,
 																				},
 																			},
 																		},
@@ -10415,10 +10415,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1247, col: 36, offset: 38928},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92458},
+																													pos: position{line: 2922, col: 10, offset: 92448},
 																													run: (*parser).callonDocumentFragment1412,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92458},
+																														pos:        position{line: 2922, col: 10, offset: 92448},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10427,28 +10427,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92856},
+																												pos: position{line: 2944, col: 8, offset: 92846},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92629},
+																														pos: position{line: 2931, col: 12, offset: 92619},
 																														run: (*parser).callonDocumentFragment1415,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92630},
+																															pos: position{line: 2931, col: 13, offset: 92620},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92630},
+																																	pos:        position{line: 2931, col: 13, offset: 92620},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92637},
+																																	pos:        position{line: 2931, col: 20, offset: 92627},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92646},
+																																	pos:        position{line: 2931, col: 29, offset: 92636},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10457,9 +10457,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92806},
+																														pos: position{line: 2941, col: 8, offset: 92796},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92807,
+																															line: 2941, col: 9, offset: 92797,
 																														},
 																													},
 																												},
@@ -10486,10 +10486,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1247, col: 36, offset: 38928},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92458},
+																			pos: position{line: 2922, col: 10, offset: 92448},
 																			run: (*parser).callonDocumentFragment1425,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92458},
+																				pos:        position{line: 2922, col: 10, offset: 92448},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10498,28 +10498,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92856},
+																		pos: position{line: 2944, col: 8, offset: 92846},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
+																				pos: position{line: 2931, col: 12, offset: 92619},
 																				run: (*parser).callonDocumentFragment1428,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10528,9 +10528,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92806},
+																				pos: position{line: 2941, col: 8, offset: 92796},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92807,
+																					line: 2941, col: 9, offset: 92797,
 																				},
 																			},
 																		},
@@ -10631,9 +10631,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92806},
+							pos: position{line: 2941, col: 8, offset: 92796},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92807,
+								line: 2941, col: 9, offset: 92797,
 							},
 						},
 					},
@@ -10705,12 +10705,12 @@ var g = &grammar{
 										pos: position{line: 307, col: 9, offset: 9333},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2926, col: 11, offset: 92519},
+												pos: position{line: 2926, col: 11, offset: 92509},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2926, col: 11, offset: 92519},
+													pos: position{line: 2926, col: 11, offset: 92509},
 													expr: &charClassMatcher{
-														pos:        position{line: 2926, col: 11, offset: 92519},
+														pos:        position{line: 2926, col: 11, offset: 92509},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10732,28 +10732,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92856},
+							pos: position{line: 2944, col: 8, offset: 92846},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92629},
+									pos: position{line: 2931, col: 12, offset: 92619},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92630},
+										pos: position{line: 2931, col: 13, offset: 92620},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92630},
+												pos:        position{line: 2931, col: 13, offset: 92620},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92637},
+												pos:        position{line: 2931, col: 20, offset: 92627},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92646},
+												pos:        position{line: 2931, col: 29, offset: 92636},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10762,9 +10762,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92806},
+									pos: position{line: 2941, col: 8, offset: 92796},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92807,
+										line: 2941, col: 9, offset: 92797,
 									},
 								},
 							},
@@ -10808,25 +10808,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2931, col: 12, offset: 92629},
+												pos: position{line: 2931, col: 12, offset: 92619},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2931, col: 13, offset: 92630},
+													pos: position{line: 2931, col: 13, offset: 92620},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2931, col: 13, offset: 92630},
+															pos:        position{line: 2931, col: 13, offset: 92620},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2931, col: 20, offset: 92637},
+															pos:        position{line: 2931, col: 20, offset: 92627},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2931, col: 29, offset: 92646},
+															pos:        position{line: 2931, col: 29, offset: 92636},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10837,10 +10837,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 328, col: 9, offset: 10035},
 												expr: &actionExpr{
-													pos: position{line: 2922, col: 10, offset: 92458},
+													pos: position{line: 2922, col: 10, offset: 92448},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2922, col: 10, offset: 92458},
+														pos:        position{line: 2922, col: 10, offset: 92448},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10910,10 +10910,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 346, col: 13, offset: 10580},
 										expr: &actionExpr{
-											pos: position{line: 2922, col: 10, offset: 92458},
+											pos: position{line: 2922, col: 10, offset: 92448},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2922, col: 10, offset: 92458},
+												pos:        position{line: 2922, col: 10, offset: 92448},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10922,28 +10922,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2944, col: 8, offset: 92856},
+										pos: position{line: 2944, col: 8, offset: 92846},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2931, col: 12, offset: 92629},
+												pos: position{line: 2931, col: 12, offset: 92619},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2931, col: 13, offset: 92630},
+													pos: position{line: 2931, col: 13, offset: 92620},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2931, col: 13, offset: 92630},
+															pos:        position{line: 2931, col: 13, offset: 92620},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2931, col: 20, offset: 92637},
+															pos:        position{line: 2931, col: 20, offset: 92627},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2931, col: 29, offset: 92646},
+															pos:        position{line: 2931, col: 29, offset: 92636},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10952,9 +10952,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2941, col: 8, offset: 92806},
+												pos: position{line: 2941, col: 8, offset: 92796},
 												expr: &anyMatcher{
-													line: 2941, col: 9, offset: 92807,
+													line: 2941, col: 9, offset: 92797,
 												},
 											},
 										},
@@ -10987,23 +10987,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 5, offset: 80782},
+										pos: position{line: 2512, col: 5, offset: 80772},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 5, offset: 80782},
+											pos: position{line: 2512, col: 5, offset: 80772},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 80782},
+													pos: position{line: 2512, col: 5, offset: 80772},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 5, offset: 80858},
+													pos:   position{line: 2515, col: 5, offset: 80848},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2516, col: 9, offset: 80876},
+														pos: position{line: 2516, col: 9, offset: 80866},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2516, col: 10, offset: 80877},
+															pos:        position{line: 2516, col: 10, offset: 80867},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -11015,10 +11015,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2922, col: 10, offset: 92458},
+										pos: position{line: 2922, col: 10, offset: 92448},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2922, col: 10, offset: 92458},
+											pos:        position{line: 2922, col: 10, offset: 92448},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11859,10 +11859,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 374, col: 35, offset: 11589},
 												expr: &actionExpr{
-													pos: position{line: 2922, col: 10, offset: 92458},
+													pos: position{line: 2922, col: 10, offset: 92448},
 													run: (*parser).callonBlockAttributes101,
 													expr: &charClassMatcher{
-														pos:        position{line: 2922, col: 10, offset: 92458},
+														pos:        position{line: 2922, col: 10, offset: 92448},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11871,28 +11871,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2944, col: 8, offset: 92856},
+												pos: position{line: 2944, col: 8, offset: 92846},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2931, col: 12, offset: 92629},
+														pos: position{line: 2931, col: 12, offset: 92619},
 														run: (*parser).callonBlockAttributes104,
 														expr: &choiceExpr{
-															pos: position{line: 2931, col: 13, offset: 92630},
+															pos: position{line: 2931, col: 13, offset: 92620},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2931, col: 13, offset: 92630},
+																	pos:        position{line: 2931, col: 13, offset: 92620},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 20, offset: 92637},
+																	pos:        position{line: 2931, col: 20, offset: 92627},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 29, offset: 92646},
+																	pos:        position{line: 2931, col: 29, offset: 92636},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11901,9 +11901,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2941, col: 8, offset: 92806},
+														pos: position{line: 2941, col: 8, offset: 92796},
 														expr: &anyMatcher{
-															line: 2941, col: 9, offset: 92807,
+															line: 2941, col: 9, offset: 92797,
 														},
 													},
 												},
@@ -11920,18 +11920,18 @@ var g = &grammar{
 																pos: position{line: 690, col: 14, offset: 22173},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2939, col: 11, offset: 92792},
+																		pos: position{line: 2939, col: 11, offset: 92782},
 																		expr: &anyMatcher{
-																			line: 2939, col: 13, offset: 92794,
+																			line: 2939, col: 13, offset: 92784,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 690, col: 21, offset: 22180},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92458},
+																			pos: position{line: 2922, col: 10, offset: 92448},
 																			run: (*parser).callonBlockAttributes118,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92458},
+																				pos:        position{line: 2922, col: 10, offset: 92448},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -11940,28 +11940,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92856},
+																		pos: position{line: 2944, col: 8, offset: 92846},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
+																				pos: position{line: 2931, col: 12, offset: 92619},
 																				run: (*parser).callonBlockAttributes121,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -11970,9 +11970,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92806},
+																				pos: position{line: 2941, col: 8, offset: 92796},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92807,
+																					line: 2941, col: 9, offset: 92797,
 																				},
 																			},
 																		},
@@ -11981,36 +11981,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81236},
+															pos: position{line: 2525, col: 22, offset: 81226},
 															run: (*parser).callonBlockAttributes128,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81236},
+																pos: position{line: 2525, col: 22, offset: 81226},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81486},
+																		pos:        position{line: 2530, col: 31, offset: 81476},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81491},
+																		pos: position{line: 2530, col: 36, offset: 81481},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81492},
+																			pos:        position{line: 2530, col: 37, offset: 81482},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81263},
+																		pos:   position{line: 2525, col: 49, offset: 81253},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 13, offset: 90984},
+																			pos: position{line: 2868, col: 13, offset: 90974},
 																			run: (*parser).callonBlockAttributes134,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2868, col: 13, offset: 90984},
+																				pos: position{line: 2868, col: 13, offset: 90974},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 13, offset: 90984},
+																					pos:        position{line: 2868, col: 13, offset: 90974},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12020,28 +12020,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92856},
+																		pos: position{line: 2944, col: 8, offset: 92846},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
+																				pos: position{line: 2931, col: 12, offset: 92619},
 																				run: (*parser).callonBlockAttributes138,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12050,9 +12050,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92806},
+																				pos: position{line: 2941, col: 8, offset: 92796},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92807,
+																					line: 2941, col: 9, offset: 92797,
 																				},
 																			},
 																		},
@@ -12106,12 +12106,12 @@ var g = &grammar{
 																		pos: position{line: 428, col: 9, offset: 13233},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2816, col: 14, offset: 89627},
+																				pos: position{line: 2816, col: 14, offset: 89617},
 																				run: (*parser).callonBlockAttributes156,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2816, col: 14, offset: 89627},
+																					pos: position{line: 2816, col: 14, offset: 89617},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2816, col: 14, offset: 89627},
+																						pos:        position{line: 2816, col: 14, offset: 89617},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12120,10 +12120,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92458},
+																				pos: position{line: 2922, col: 10, offset: 92448},
 																				run: (*parser).callonBlockAttributes159,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92458},
+																					pos:        position{line: 2922, col: 10, offset: 92448},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12131,27 +12131,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2839, col: 5, offset: 90112},
+																				pos: position{line: 2839, col: 5, offset: 90102},
 																				run: (*parser).callonBlockAttributes161,
 																				expr: &choiceExpr{
-																					pos: position{line: 2840, col: 9, offset: 90122},
+																					pos: position{line: 2840, col: 9, offset: 90112},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2840, col: 10, offset: 90123},
+																							pos:        position{line: 2840, col: 10, offset: 90113},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2842, col: 13, offset: 90220},
+																							pos: position{line: 2842, col: 13, offset: 90210},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2842, col: 13, offset: 90220},
+																									pos: position{line: 2842, col: 13, offset: 90210},
 																									run: (*parser).callonBlockAttributes165,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2845, col: 13, offset: 90320},
+																									pos:        position{line: 2845, col: 13, offset: 90310},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12159,20 +12159,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2845, col: 19, offset: 90326},
+																							pos:        position{line: 2845, col: 19, offset: 90316},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2848, col: 13, offset: 90364},
+																							pos: position{line: 2848, col: 13, offset: 90354},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2848, col: 13, offset: 90364},
+																									pos: position{line: 2848, col: 13, offset: 90354},
 																									run: (*parser).callonBlockAttributes169,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2851, col: 14, offset: 90457},
+																									pos:        position{line: 2851, col: 14, offset: 90447},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12181,18 +12181,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2853, col: 12, offset: 90501},
+																							pos: position{line: 2853, col: 12, offset: 90491},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2853, col: 12, offset: 90501},
+																									pos:        position{line: 2853, col: 12, offset: 90491},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2853, col: 16, offset: 90505},
+																									pos: position{line: 2853, col: 16, offset: 90495},
 																									expr: &litMatcher{
-																										pos:        position{line: 2853, col: 17, offset: 90506},
+																										pos:        position{line: 2853, col: 17, offset: 90496},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12528,10 +12528,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90766},
+																				pos: position{line: 2861, col: 12, offset: 90756},
 																				run: (*parser).callonBlockAttributes239,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 12, offset: 90766},
+																					pos:        position{line: 2861, col: 12, offset: 90756},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12549,10 +12549,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 378, col: 35, offset: 11766},
 												expr: &actionExpr{
-													pos: position{line: 2922, col: 10, offset: 92458},
+													pos: position{line: 2922, col: 10, offset: 92448},
 													run: (*parser).callonBlockAttributes242,
 													expr: &charClassMatcher{
-														pos:        position{line: 2922, col: 10, offset: 92458},
+														pos:        position{line: 2922, col: 10, offset: 92448},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12561,28 +12561,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2944, col: 8, offset: 92856},
+												pos: position{line: 2944, col: 8, offset: 92846},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2931, col: 12, offset: 92629},
+														pos: position{line: 2931, col: 12, offset: 92619},
 														run: (*parser).callonBlockAttributes245,
 														expr: &choiceExpr{
-															pos: position{line: 2931, col: 13, offset: 92630},
+															pos: position{line: 2931, col: 13, offset: 92620},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2931, col: 13, offset: 92630},
+																	pos:        position{line: 2931, col: 13, offset: 92620},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 20, offset: 92637},
+																	pos:        position{line: 2931, col: 20, offset: 92627},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 29, offset: 92646},
+																	pos:        position{line: 2931, col: 29, offset: 92636},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12591,9 +12591,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2941, col: 8, offset: 92806},
+														pos: position{line: 2941, col: 8, offset: 92796},
 														expr: &anyMatcher{
-															line: 2941, col: 9, offset: 92807,
+															line: 2941, col: 9, offset: 92797,
 														},
 													},
 												},
@@ -12610,18 +12610,18 @@ var g = &grammar{
 																pos: position{line: 690, col: 14, offset: 22173},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2939, col: 11, offset: 92792},
+																		pos: position{line: 2939, col: 11, offset: 92782},
 																		expr: &anyMatcher{
-																			line: 2939, col: 13, offset: 92794,
+																			line: 2939, col: 13, offset: 92784,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 690, col: 21, offset: 22180},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92458},
+																			pos: position{line: 2922, col: 10, offset: 92448},
 																			run: (*parser).callonBlockAttributes259,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92458},
+																				pos:        position{line: 2922, col: 10, offset: 92448},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12630,28 +12630,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92856},
+																		pos: position{line: 2944, col: 8, offset: 92846},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
+																				pos: position{line: 2931, col: 12, offset: 92619},
 																				run: (*parser).callonBlockAttributes262,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12660,9 +12660,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92806},
+																				pos: position{line: 2941, col: 8, offset: 92796},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92807,
+																					line: 2941, col: 9, offset: 92797,
 																				},
 																			},
 																		},
@@ -12671,36 +12671,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81236},
+															pos: position{line: 2525, col: 22, offset: 81226},
 															run: (*parser).callonBlockAttributes269,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81236},
+																pos: position{line: 2525, col: 22, offset: 81226},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81486},
+																		pos:        position{line: 2530, col: 31, offset: 81476},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81491},
+																		pos: position{line: 2530, col: 36, offset: 81481},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81492},
+																			pos:        position{line: 2530, col: 37, offset: 81482},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81263},
+																		pos:   position{line: 2525, col: 49, offset: 81253},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 13, offset: 90984},
+																			pos: position{line: 2868, col: 13, offset: 90974},
 																			run: (*parser).callonBlockAttributes275,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2868, col: 13, offset: 90984},
+																				pos: position{line: 2868, col: 13, offset: 90974},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 13, offset: 90984},
+																					pos:        position{line: 2868, col: 13, offset: 90974},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12710,28 +12710,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92856},
+																		pos: position{line: 2944, col: 8, offset: 92846},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
+																				pos: position{line: 2931, col: 12, offset: 92619},
 																				run: (*parser).callonBlockAttributes279,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12740,9 +12740,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92806},
+																				pos: position{line: 2941, col: 8, offset: 92796},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92807,
+																					line: 2941, col: 9, offset: 92797,
 																				},
 																			},
 																		},
@@ -12773,10 +12773,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 382, col: 44, offset: 11922},
 												expr: &actionExpr{
-													pos: position{line: 2922, col: 10, offset: 92458},
+													pos: position{line: 2922, col: 10, offset: 92448},
 													run: (*parser).callonBlockAttributes291,
 													expr: &charClassMatcher{
-														pos:        position{line: 2922, col: 10, offset: 92458},
+														pos:        position{line: 2922, col: 10, offset: 92448},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12785,28 +12785,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2944, col: 8, offset: 92856},
+												pos: position{line: 2944, col: 8, offset: 92846},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2931, col: 12, offset: 92629},
+														pos: position{line: 2931, col: 12, offset: 92619},
 														run: (*parser).callonBlockAttributes294,
 														expr: &choiceExpr{
-															pos: position{line: 2931, col: 13, offset: 92630},
+															pos: position{line: 2931, col: 13, offset: 92620},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2931, col: 13, offset: 92630},
+																	pos:        position{line: 2931, col: 13, offset: 92620},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 20, offset: 92637},
+																	pos:        position{line: 2931, col: 20, offset: 92627},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 29, offset: 92646},
+																	pos:        position{line: 2931, col: 29, offset: 92636},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12815,9 +12815,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2941, col: 8, offset: 92806},
+														pos: position{line: 2941, col: 8, offset: 92796},
 														expr: &anyMatcher{
-															line: 2941, col: 9, offset: 92807,
+															line: 2941, col: 9, offset: 92797,
 														},
 													},
 												},
@@ -12834,18 +12834,18 @@ var g = &grammar{
 																pos: position{line: 690, col: 14, offset: 22173},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2939, col: 11, offset: 92792},
+																		pos: position{line: 2939, col: 11, offset: 92782},
 																		expr: &anyMatcher{
-																			line: 2939, col: 13, offset: 92794,
+																			line: 2939, col: 13, offset: 92784,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 690, col: 21, offset: 22180},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92458},
+																			pos: position{line: 2922, col: 10, offset: 92448},
 																			run: (*parser).callonBlockAttributes308,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92458},
+																				pos:        position{line: 2922, col: 10, offset: 92448},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12854,28 +12854,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92856},
+																		pos: position{line: 2944, col: 8, offset: 92846},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
+																				pos: position{line: 2931, col: 12, offset: 92619},
 																				run: (*parser).callonBlockAttributes311,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12884,9 +12884,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92806},
+																				pos: position{line: 2941, col: 8, offset: 92796},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92807,
+																					line: 2941, col: 9, offset: 92797,
 																				},
 																			},
 																		},
@@ -12895,36 +12895,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81236},
+															pos: position{line: 2525, col: 22, offset: 81226},
 															run: (*parser).callonBlockAttributes318,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81236},
+																pos: position{line: 2525, col: 22, offset: 81226},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81486},
+																		pos:        position{line: 2530, col: 31, offset: 81476},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81491},
+																		pos: position{line: 2530, col: 36, offset: 81481},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81492},
+																			pos:        position{line: 2530, col: 37, offset: 81482},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81263},
+																		pos:   position{line: 2525, col: 49, offset: 81253},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 13, offset: 90984},
+																			pos: position{line: 2868, col: 13, offset: 90974},
 																			run: (*parser).callonBlockAttributes324,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2868, col: 13, offset: 90984},
+																				pos: position{line: 2868, col: 13, offset: 90974},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 13, offset: 90984},
+																					pos:        position{line: 2868, col: 13, offset: 90974},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12934,28 +12934,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92856},
+																		pos: position{line: 2944, col: 8, offset: 92846},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
+																				pos: position{line: 2931, col: 12, offset: 92619},
 																				run: (*parser).callonBlockAttributes328,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12964,9 +12964,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92806},
+																				pos: position{line: 2941, col: 8, offset: 92796},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92807,
+																					line: 2941, col: 9, offset: 92797,
 																				},
 																			},
 																		},
@@ -13216,10 +13216,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 473, col: 13, offset: 14999},
 										expr: &actionExpr{
-											pos: position{line: 2922, col: 10, offset: 92458},
+											pos: position{line: 2922, col: 10, offset: 92448},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2922, col: 10, offset: 92458},
+												pos:        position{line: 2922, col: 10, offset: 92448},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13751,10 +13751,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 525, col: 9, offset: 16581},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92458},
+														pos: position{line: 2922, col: 10, offset: 92448},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92458},
+															pos:        position{line: 2922, col: 10, offset: 92448},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13815,10 +13815,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 531, col: 34, offset: 16724},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92458},
+															pos: position{line: 2922, col: 10, offset: 92448},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92458},
+																pos:        position{line: 2922, col: 10, offset: 92448},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13858,10 +13858,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 536, col: 13, offset: 16888},
 												expr: &actionExpr{
-													pos: position{line: 2922, col: 10, offset: 92458},
+													pos: position{line: 2922, col: 10, offset: 92448},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2922, col: 10, offset: 92458},
+														pos:        position{line: 2922, col: 10, offset: 92448},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13884,10 +13884,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 536, col: 26, offset: 16901},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92458},
+																	pos: position{line: 2922, col: 10, offset: 92448},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92458},
+																		pos:        position{line: 2922, col: 10, offset: 92448},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13942,10 +13942,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 556, col: 22, offset: 17548},
 											expr: &actionExpr{
-												pos: position{line: 2922, col: 10, offset: 92458},
+												pos: position{line: 2922, col: 10, offset: 92448},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2922, col: 10, offset: 92458},
+													pos:        position{line: 2922, col: 10, offset: 92448},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13976,10 +13976,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 549, col: 9, offset: 17293},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92458},
+								pos: position{line: 2922, col: 10, offset: 92448},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92458},
+									pos:        position{line: 2922, col: 10, offset: 92448},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14009,10 +14009,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 550, col: 33, offset: 17333},
 										expr: &actionExpr{
-											pos: position{line: 2922, col: 10, offset: 92458},
+											pos: position{line: 2922, col: 10, offset: 92448},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2922, col: 10, offset: 92458},
+												pos:        position{line: 2922, col: 10, offset: 92448},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14067,10 +14067,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 566, col: 9, offset: 17765},
 											expr: &actionExpr{
-												pos: position{line: 2922, col: 10, offset: 92458},
+												pos: position{line: 2922, col: 10, offset: 92448},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2922, col: 10, offset: 92458},
+													pos:        position{line: 2922, col: 10, offset: 92448},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14149,12 +14149,12 @@ var g = &grammar{
 							pos: position{line: 579, col: 9, offset: 18082},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2816, col: 14, offset: 89627},
+									pos: position{line: 2816, col: 14, offset: 89617},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2816, col: 14, offset: 89627},
+										pos: position{line: 2816, col: 14, offset: 89617},
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 14, offset: 89627},
+											pos:        position{line: 2816, col: 14, offset: 89617},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14163,10 +14163,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2922, col: 10, offset: 92458},
+									pos: position{line: 2922, col: 10, offset: 92448},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2922, col: 10, offset: 92458},
+										pos:        position{line: 2922, col: 10, offset: 92448},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14623,10 +14623,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 602, col: 14, offset: 18929},
 											expr: &actionExpr{
-												pos: position{line: 2922, col: 10, offset: 92458},
+												pos: position{line: 2922, col: 10, offset: 92448},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2922, col: 10, offset: 92458},
+													pos:        position{line: 2922, col: 10, offset: 92448},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14663,12 +14663,12 @@ var g = &grammar{
 							pos: position{line: 608, col: 9, offset: 19040},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2816, col: 14, offset: 89627},
+									pos: position{line: 2816, col: 14, offset: 89617},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2816, col: 14, offset: 89627},
+										pos: position{line: 2816, col: 14, offset: 89617},
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 14, offset: 89627},
+											pos:        position{line: 2816, col: 14, offset: 89617},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14677,10 +14677,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2922, col: 10, offset: 92458},
+									pos: position{line: 2922, col: 10, offset: 92448},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2922, col: 10, offset: 92458},
+										pos:        position{line: 2922, col: 10, offset: 92448},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15107,10 +15107,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 632, col: 5, offset: 20003},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92458},
+								pos: position{line: 2922, col: 10, offset: 92448},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92458},
+									pos:        position{line: 2922, col: 10, offset: 92448},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15500,10 +15500,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2922, col: 10, offset: 92458},
+											pos: position{line: 2922, col: 10, offset: 92448},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2922, col: 10, offset: 92458},
+												pos:        position{line: 2922, col: 10, offset: 92448},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15554,12 +15554,12 @@ var g = &grammar{
 									pos:   position{line: 699, col: 32, offset: 22533},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2907, col: 7, offset: 92110},
+										pos: position{line: 2907, col: 7, offset: 92100},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2907, col: 7, offset: 92110},
+											pos: position{line: 2907, col: 7, offset: 92100},
 											expr: &charClassMatcher{
-												pos:        position{line: 2907, col: 7, offset: 92110},
+												pos:        position{line: 2907, col: 7, offset: 92100},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15571,10 +15571,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 699, col: 40, offset: 22541},
 									expr: &actionExpr{
-										pos: position{line: 2922, col: 10, offset: 92458},
+										pos: position{line: 2922, col: 10, offset: 92448},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2922, col: 10, offset: 92458},
+											pos:        position{line: 2922, col: 10, offset: 92448},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15767,12 +15767,12 @@ var g = &grammar{
 									pos:   position{line: 701, col: 14, offset: 22658},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2907, col: 7, offset: 92110},
+										pos: position{line: 2907, col: 7, offset: 92100},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2907, col: 7, offset: 92110},
+											pos: position{line: 2907, col: 7, offset: 92100},
 											expr: &charClassMatcher{
-												pos:        position{line: 2907, col: 7, offset: 92110},
+												pos:        position{line: 2907, col: 7, offset: 92100},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15816,41 +15816,41 @@ var g = &grammar{
 							pos:   position{line: 705, col: 35, offset: 22771},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 17, offset: 91121},
+								pos: position{line: 2876, col: 17, offset: 91111},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2876, col: 17, offset: 91121},
+									pos:   position{line: 2876, col: 17, offset: 91111},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2893, col: 5, offset: 91575},
+										pos: position{line: 2893, col: 5, offset: 91565},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2893, col: 5, offset: 91575},
+											pos:   position{line: 2893, col: 5, offset: 91565},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2893, col: 14, offset: 91584},
+												pos: position{line: 2893, col: 14, offset: 91574},
 												expr: &choiceExpr{
-													pos: position{line: 2894, col: 9, offset: 91594},
+													pos: position{line: 2894, col: 9, offset: 91584},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2894, col: 9, offset: 91594},
+															pos: position{line: 2894, col: 9, offset: 91584},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2894, col: 9, offset: 91594},
+																pos: position{line: 2894, col: 9, offset: 91584},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2894, col: 9, offset: 91594},
+																		pos: position{line: 2894, col: 9, offset: 91584},
 																		expr: &litMatcher{
-																			pos:        position{line: 2894, col: 10, offset: 91595},
+																			pos:        position{line: 2894, col: 10, offset: 91585},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2895, col: 9, offset: 91623},
+																		pos: position{line: 2895, col: 9, offset: 91613},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2895, col: 10, offset: 91624},
+																			pos:        position{line: 2895, col: 10, offset: 91614},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15861,27 +15861,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2898, col: 11, offset: 91836},
+															pos: position{line: 2898, col: 11, offset: 91826},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2898, col: 11, offset: 91836},
+																	pos:        position{line: 2898, col: 11, offset: 91826},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2898, col: 19, offset: 91844},
+																	pos: position{line: 2898, col: 19, offset: 91834},
 																	expr: &seqExpr{
-																		pos: position{line: 2898, col: 21, offset: 91846},
+																		pos: position{line: 2898, col: 21, offset: 91836},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2898, col: 21, offset: 91846},
+																				pos: position{line: 2898, col: 21, offset: 91836},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92458},
+																					pos: position{line: 2922, col: 10, offset: 92448},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92458},
+																						pos:        position{line: 2922, col: 10, offset: 92448},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15890,11 +15890,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2898, col: 28, offset: 91853},
+																				pos: position{line: 2898, col: 28, offset: 91843},
 																				expr: &notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -16293,10 +16293,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2901, col: 11, offset: 91973},
+															pos: position{line: 2901, col: 11, offset: 91963},
 															run: (*parser).callonExternalCrossReference105,
 															expr: &litMatcher{
-																pos:        position{line: 2901, col: 11, offset: 91973},
+																pos:        position{line: 2901, col: 11, offset: 91963},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16341,12 +16341,12 @@ var g = &grammar{
 							pos:   position{line: 1002, col: 11, offset: 31490},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2872, col: 14, offset: 91051},
+								pos: position{line: 2872, col: 14, offset: 91041},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2872, col: 14, offset: 91051},
+									pos: position{line: 2872, col: 14, offset: 91041},
 									expr: &charClassMatcher{
-										pos:        position{line: 2872, col: 14, offset: 91051},
+										pos:        position{line: 2872, col: 14, offset: 91041},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16356,28 +16356,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92856},
+							pos: position{line: 2944, col: 8, offset: 92846},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92629},
+									pos: position{line: 2931, col: 12, offset: 92619},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92630},
+										pos: position{line: 2931, col: 13, offset: 92620},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92630},
+												pos:        position{line: 2931, col: 13, offset: 92620},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92637},
+												pos:        position{line: 2931, col: 20, offset: 92627},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92646},
+												pos:        position{line: 2931, col: 29, offset: 92636},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16386,9 +16386,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92806},
+									pos: position{line: 2941, col: 8, offset: 92796},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92807,
+										line: 2941, col: 9, offset: 92797,
 									},
 								},
 							},
@@ -16416,36 +16416,36 @@ var g = &grammar{
 								pos: position{line: 1117, col: 6, offset: 34492},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2525, col: 22, offset: 81236},
+										pos: position{line: 2525, col: 22, offset: 81226},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 22, offset: 81236},
+											pos: position{line: 2525, col: 22, offset: 81226},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2530, col: 31, offset: 81486},
+													pos:        position{line: 2530, col: 31, offset: 81476},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2530, col: 36, offset: 81491},
+													pos: position{line: 2530, col: 36, offset: 81481},
 													expr: &litMatcher{
-														pos:        position{line: 2530, col: 37, offset: 81492},
+														pos:        position{line: 2530, col: 37, offset: 81482},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2525, col: 49, offset: 81263},
+													pos:   position{line: 2525, col: 49, offset: 81253},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 13, offset: 90984},
+														pos: position{line: 2868, col: 13, offset: 90974},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2868, col: 13, offset: 90984},
+															pos: position{line: 2868, col: 13, offset: 90974},
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 13, offset: 90984},
+																pos:        position{line: 2868, col: 13, offset: 90974},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16455,28 +16455,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92856},
+													pos: position{line: 2944, col: 8, offset: 92846},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92629},
+															pos: position{line: 2931, col: 12, offset: 92619},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92630},
+																pos: position{line: 2931, col: 13, offset: 92620},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92630},
+																		pos:        position{line: 2931, col: 13, offset: 92620},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92637},
+																		pos:        position{line: 2931, col: 20, offset: 92627},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92646},
+																		pos:        position{line: 2931, col: 29, offset: 92636},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16485,9 +16485,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92806},
+															pos: position{line: 2941, col: 8, offset: 92796},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92807,
+																line: 2941, col: 9, offset: 92797,
 															},
 														},
 													},
@@ -16538,10 +16538,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 755, col: 8, offset: 24370},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92458},
+																	pos: position{line: 2922, col: 10, offset: 92448},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92458},
+																		pos:        position{line: 2922, col: 10, offset: 92448},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16550,28 +16550,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92856},
+																pos: position{line: 2944, col: 8, offset: 92846},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92629},
+																		pos: position{line: 2931, col: 12, offset: 92619},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92630},
+																			pos: position{line: 2931, col: 13, offset: 92620},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92630},
+																					pos:        position{line: 2931, col: 13, offset: 92620},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92637},
+																					pos:        position{line: 2931, col: 20, offset: 92627},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92646},
+																					pos:        position{line: 2931, col: 29, offset: 92636},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16580,9 +16580,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92806},
+																		pos: position{line: 2941, col: 8, offset: 92796},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92807,
+																			line: 2941, col: 9, offset: 92797,
 																		},
 																	},
 																},
@@ -16643,10 +16643,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 755, col: 8, offset: 24370},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92458},
+																									pos: position{line: 2922, col: 10, offset: 92448},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92458},
+																										pos:        position{line: 2922, col: 10, offset: 92448},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16655,28 +16655,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92856},
+																								pos: position{line: 2944, col: 8, offset: 92846},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92629},
+																										pos: position{line: 2931, col: 12, offset: 92619},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92630},
+																											pos: position{line: 2931, col: 13, offset: 92620},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92630},
+																													pos:        position{line: 2931, col: 13, offset: 92620},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92637},
+																													pos:        position{line: 2931, col: 20, offset: 92627},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92646},
+																													pos:        position{line: 2931, col: 29, offset: 92636},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16685,9 +16685,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92806},
+																										pos: position{line: 2941, col: 8, offset: 92796},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92807,
+																											line: 2941, col: 9, offset: 92797,
 																										},
 																									},
 																								},
@@ -16696,9 +16696,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -16714,21 +16714,21 @@ var g = &grammar{
 																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92792},
+																						pos: position{line: 2939, col: 11, offset: 92782},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92794,
+																							line: 2939, col: 13, offset: 92784,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90984},
+																							pos: position{line: 2868, col: 13, offset: 90974},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90984},
+																								pos: position{line: 2868, col: 13, offset: 90974},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90984},
+																									pos:        position{line: 2868, col: 13, offset: 90974},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16738,28 +16738,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92856},
+																						pos: position{line: 2944, col: 8, offset: 92846},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92629},
+																								pos: position{line: 2931, col: 12, offset: 92619},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92630},
+																									pos: position{line: 2931, col: 13, offset: 92620},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92630},
+																											pos:        position{line: 2931, col: 13, offset: 92620},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92637},
+																											pos:        position{line: 2931, col: 20, offset: 92627},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92646},
+																											pos:        position{line: 2931, col: 29, offset: 92636},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16768,9 +16768,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92806},
+																								pos: position{line: 2941, col: 8, offset: 92796},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92807,
+																									line: 2941, col: 9, offset: 92797,
 																								},
 																							},
 																						},
@@ -16826,10 +16826,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 755, col: 8, offset: 24370},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92458},
+																				pos: position{line: 2922, col: 10, offset: 92448},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92458},
+																					pos:        position{line: 2922, col: 10, offset: 92448},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16838,28 +16838,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92856},
+																			pos: position{line: 2944, col: 8, offset: 92846},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92629},
+																					pos: position{line: 2931, col: 12, offset: 92619},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92630},
+																						pos: position{line: 2931, col: 13, offset: 92620},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92630},
+																								pos:        position{line: 2931, col: 13, offset: 92620},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92637},
+																								pos:        position{line: 2931, col: 20, offset: 92627},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92646},
+																								pos:        position{line: 2931, col: 29, offset: 92636},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16868,9 +16868,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -16879,9 +16879,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92806},
+																pos: position{line: 2941, col: 8, offset: 92796},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92807,
+																	line: 2941, col: 9, offset: 92797,
 																},
 															},
 														},
@@ -16907,36 +16907,36 @@ var g = &grammar{
 								pos: position{line: 1119, col: 6, offset: 34615},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2525, col: 22, offset: 81236},
+										pos: position{line: 2525, col: 22, offset: 81226},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 22, offset: 81236},
+											pos: position{line: 2525, col: 22, offset: 81226},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2530, col: 31, offset: 81486},
+													pos:        position{line: 2530, col: 31, offset: 81476},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2530, col: 36, offset: 81491},
+													pos: position{line: 2530, col: 36, offset: 81481},
 													expr: &litMatcher{
-														pos:        position{line: 2530, col: 37, offset: 81492},
+														pos:        position{line: 2530, col: 37, offset: 81482},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2525, col: 49, offset: 81263},
+													pos:   position{line: 2525, col: 49, offset: 81253},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 13, offset: 90984},
+														pos: position{line: 2868, col: 13, offset: 90974},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2868, col: 13, offset: 90984},
+															pos: position{line: 2868, col: 13, offset: 90974},
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 13, offset: 90984},
+																pos:        position{line: 2868, col: 13, offset: 90974},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16946,28 +16946,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92856},
+													pos: position{line: 2944, col: 8, offset: 92846},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92629},
+															pos: position{line: 2931, col: 12, offset: 92619},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92630},
+																pos: position{line: 2931, col: 13, offset: 92620},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92630},
+																		pos:        position{line: 2931, col: 13, offset: 92620},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92637},
+																		pos:        position{line: 2931, col: 20, offset: 92627},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92646},
+																		pos:        position{line: 2931, col: 29, offset: 92636},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16976,9 +16976,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92806},
+															pos: position{line: 2941, col: 8, offset: 92796},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92807,
+																line: 2941, col: 9, offset: 92797,
 															},
 														},
 													},
@@ -17029,10 +17029,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 755, col: 8, offset: 24370},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92458},
+																	pos: position{line: 2922, col: 10, offset: 92448},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92458},
+																		pos:        position{line: 2922, col: 10, offset: 92448},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17041,28 +17041,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92856},
+																pos: position{line: 2944, col: 8, offset: 92846},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92629},
+																		pos: position{line: 2931, col: 12, offset: 92619},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92630},
+																			pos: position{line: 2931, col: 13, offset: 92620},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92630},
+																					pos:        position{line: 2931, col: 13, offset: 92620},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92637},
+																					pos:        position{line: 2931, col: 20, offset: 92627},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92646},
+																					pos:        position{line: 2931, col: 29, offset: 92636},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17071,9 +17071,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92806},
+																		pos: position{line: 2941, col: 8, offset: 92796},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92807,
+																			line: 2941, col: 9, offset: 92797,
 																		},
 																	},
 																},
@@ -17134,10 +17134,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 755, col: 8, offset: 24370},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92458},
+																									pos: position{line: 2922, col: 10, offset: 92448},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92458},
+																										pos:        position{line: 2922, col: 10, offset: 92448},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17146,28 +17146,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92856},
+																								pos: position{line: 2944, col: 8, offset: 92846},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92629},
+																										pos: position{line: 2931, col: 12, offset: 92619},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92630},
+																											pos: position{line: 2931, col: 13, offset: 92620},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92630},
+																													pos:        position{line: 2931, col: 13, offset: 92620},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92637},
+																													pos:        position{line: 2931, col: 20, offset: 92627},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92646},
+																													pos:        position{line: 2931, col: 29, offset: 92636},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17176,9 +17176,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92806},
+																										pos: position{line: 2941, col: 8, offset: 92796},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92807,
+																											line: 2941, col: 9, offset: 92797,
 																										},
 																									},
 																								},
@@ -17187,9 +17187,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -17205,21 +17205,21 @@ var g = &grammar{
 																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92792},
+																						pos: position{line: 2939, col: 11, offset: 92782},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92794,
+																							line: 2939, col: 13, offset: 92784,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90984},
+																							pos: position{line: 2868, col: 13, offset: 90974},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90984},
+																								pos: position{line: 2868, col: 13, offset: 90974},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90984},
+																									pos:        position{line: 2868, col: 13, offset: 90974},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17229,28 +17229,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92856},
+																						pos: position{line: 2944, col: 8, offset: 92846},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92629},
+																								pos: position{line: 2931, col: 12, offset: 92619},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92630},
+																									pos: position{line: 2931, col: 13, offset: 92620},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92630},
+																											pos:        position{line: 2931, col: 13, offset: 92620},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92637},
+																											pos:        position{line: 2931, col: 20, offset: 92627},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92646},
+																											pos:        position{line: 2931, col: 29, offset: 92636},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17259,9 +17259,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92806},
+																								pos: position{line: 2941, col: 8, offset: 92796},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92807,
+																									line: 2941, col: 9, offset: 92797,
 																								},
 																							},
 																						},
@@ -17317,10 +17317,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 755, col: 8, offset: 24370},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92458},
+																				pos: position{line: 2922, col: 10, offset: 92448},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92458},
+																					pos:        position{line: 2922, col: 10, offset: 92448},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -17329,28 +17329,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92856},
+																			pos: position{line: 2944, col: 8, offset: 92846},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92629},
+																					pos: position{line: 2931, col: 12, offset: 92619},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92630},
+																						pos: position{line: 2931, col: 13, offset: 92620},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92630},
+																								pos:        position{line: 2931, col: 13, offset: 92620},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92637},
+																								pos:        position{line: 2931, col: 20, offset: 92627},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92646},
+																								pos:        position{line: 2931, col: 29, offset: 92636},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -17359,9 +17359,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -17370,9 +17370,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92806},
+																pos: position{line: 2941, col: 8, offset: 92796},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92807,
+																	line: 2941, col: 9, offset: 92797,
 																},
 															},
 														},
@@ -17416,10 +17416,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1138, col: 20, offset: 35370},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92458},
+																	pos: position{line: 2922, col: 10, offset: 92448},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92458},
+																		pos:        position{line: 2922, col: 10, offset: 92448},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17470,10 +17470,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1157, col: 5, offset: 35975},
 																										expr: &actionExpr{
-																											pos: position{line: 2922, col: 10, offset: 92458},
+																											pos: position{line: 2922, col: 10, offset: 92448},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2922, col: 10, offset: 92458},
+																												pos:        position{line: 2922, col: 10, offset: 92448},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17505,10 +17505,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1161, col: 5, offset: 36074},
 																										expr: &actionExpr{
-																											pos: position{line: 2922, col: 10, offset: 92458},
+																											pos: position{line: 2922, col: 10, offset: 92448},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2922, col: 10, offset: 92458},
+																												pos:        position{line: 2922, col: 10, offset: 92448},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17540,10 +17540,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1165, col: 5, offset: 36171},
 																										expr: &actionExpr{
-																											pos: position{line: 2922, col: 10, offset: 92458},
+																											pos: position{line: 2922, col: 10, offset: 92448},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2922, col: 10, offset: 92458},
+																												pos:        position{line: 2922, col: 10, offset: 92448},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17568,9 +17568,9 @@ var g = &grammar{
 																								pos: position{line: 1171, col: 5, offset: 36293},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2939, col: 11, offset: 92792},
+																										pos: position{line: 2939, col: 11, offset: 92782},
 																										expr: &anyMatcher{
-																											line: 2939, col: 13, offset: 92794,
+																											line: 2939, col: 13, offset: 92784,
 																										},
 																									},
 																									&litMatcher{
@@ -17611,10 +17611,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1143, col: 69, offset: 35563},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92458},
+																						pos: position{line: 2922, col: 10, offset: 92448},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92458},
+																							pos:        position{line: 2922, col: 10, offset: 92448},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17634,10 +17634,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1143, col: 81, offset: 35575},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92458},
+																						pos: position{line: 2922, col: 10, offset: 92448},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92458},
+																							pos:        position{line: 2922, col: 10, offset: 92448},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17655,28 +17655,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92856},
+																pos: position{line: 2944, col: 8, offset: 92846},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92629},
+																		pos: position{line: 2931, col: 12, offset: 92619},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92630},
+																			pos: position{line: 2931, col: 13, offset: 92620},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92630},
+																					pos:        position{line: 2931, col: 13, offset: 92620},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92637},
+																					pos:        position{line: 2931, col: 20, offset: 92627},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92646},
+																					pos:        position{line: 2931, col: 29, offset: 92636},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17685,9 +17685,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92806},
+																		pos: position{line: 2941, col: 8, offset: 92796},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92807,
+																			line: 2941, col: 9, offset: 92797,
 																		},
 																	},
 																},
@@ -17702,36 +17702,36 @@ var g = &grammar{
 													pos: position{line: 1133, col: 6, offset: 35145},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81236},
+															pos: position{line: 2525, col: 22, offset: 81226},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81236},
+																pos: position{line: 2525, col: 22, offset: 81226},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81486},
+																		pos:        position{line: 2530, col: 31, offset: 81476},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81491},
+																		pos: position{line: 2530, col: 36, offset: 81481},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81492},
+																			pos:        position{line: 2530, col: 37, offset: 81482},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81263},
+																		pos:   position{line: 2525, col: 49, offset: 81253},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 13, offset: 90984},
+																			pos: position{line: 2868, col: 13, offset: 90974},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2868, col: 13, offset: 90984},
+																				pos: position{line: 2868, col: 13, offset: 90974},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 13, offset: 90984},
+																					pos:        position{line: 2868, col: 13, offset: 90974},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17741,28 +17741,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92856},
+																		pos: position{line: 2944, col: 8, offset: 92846},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
+																				pos: position{line: 2931, col: 12, offset: 92619},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17771,9 +17771,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92806},
+																				pos: position{line: 2941, col: 8, offset: 92796},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92807,
+																					line: 2941, col: 9, offset: 92797,
 																				},
 																			},
 																		},
@@ -17824,10 +17824,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 755, col: 8, offset: 24370},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92458},
+																						pos: position{line: 2922, col: 10, offset: 92448},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92458},
+																							pos:        position{line: 2922, col: 10, offset: 92448},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17836,28 +17836,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92856},
+																					pos: position{line: 2944, col: 8, offset: 92846},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92629},
+																							pos: position{line: 2931, col: 12, offset: 92619},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92630},
+																								pos: position{line: 2931, col: 13, offset: 92620},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92630},
+																										pos:        position{line: 2931, col: 13, offset: 92620},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92637},
+																										pos:        position{line: 2931, col: 20, offset: 92627},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92646},
+																										pos:        position{line: 2931, col: 29, offset: 92636},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17866,9 +17866,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92806},
+																							pos: position{line: 2941, col: 8, offset: 92796},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92807,
+																								line: 2941, col: 9, offset: 92797,
 																							},
 																						},
 																					},
@@ -17929,10 +17929,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 755, col: 8, offset: 24370},
 																													expr: &actionExpr{
-																														pos: position{line: 2922, col: 10, offset: 92458},
+																														pos: position{line: 2922, col: 10, offset: 92448},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2922, col: 10, offset: 92458},
+																															pos:        position{line: 2922, col: 10, offset: 92448},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17941,28 +17941,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2944, col: 8, offset: 92856},
+																													pos: position{line: 2944, col: 8, offset: 92846},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2931, col: 12, offset: 92629},
+																															pos: position{line: 2931, col: 12, offset: 92619},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2931, col: 13, offset: 92630},
+																																pos: position{line: 2931, col: 13, offset: 92620},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 13, offset: 92630},
+																																		pos:        position{line: 2931, col: 13, offset: 92620},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 20, offset: 92637},
+																																		pos:        position{line: 2931, col: 20, offset: 92627},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 29, offset: 92646},
+																																		pos:        position{line: 2931, col: 29, offset: 92636},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17971,9 +17971,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2941, col: 8, offset: 92806},
+																															pos: position{line: 2941, col: 8, offset: 92796},
 																															expr: &anyMatcher{
-																																line: 2941, col: 9, offset: 92807,
+																																line: 2941, col: 9, offset: 92797,
 																															},
 																														},
 																													},
@@ -17982,9 +17982,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92806},
+																										pos: position{line: 2941, col: 8, offset: 92796},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92807,
+																											line: 2941, col: 9, offset: 92797,
 																										},
 																									},
 																								},
@@ -18000,21 +18000,21 @@ var g = &grammar{
 																									pos: position{line: 824, col: 5, offset: 26772},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2939, col: 11, offset: 92792},
+																											pos: position{line: 2939, col: 11, offset: 92782},
 																											expr: &anyMatcher{
-																												line: 2939, col: 13, offset: 92794,
+																												line: 2939, col: 13, offset: 92784,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 825, col: 5, offset: 26847},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2868, col: 13, offset: 90984},
+																												pos: position{line: 2868, col: 13, offset: 90974},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2868, col: 13, offset: 90984},
+																													pos: position{line: 2868, col: 13, offset: 90974},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2868, col: 13, offset: 90984},
+																														pos:        position{line: 2868, col: 13, offset: 90974},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18024,28 +18024,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92856},
+																											pos: position{line: 2944, col: 8, offset: 92846},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92629},
+																													pos: position{line: 2931, col: 12, offset: 92619},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92630},
+																														pos: position{line: 2931, col: 13, offset: 92620},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92630},
+																																pos:        position{line: 2931, col: 13, offset: 92620},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92637},
+																																pos:        position{line: 2931, col: 20, offset: 92627},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92646},
+																																pos:        position{line: 2931, col: 29, offset: 92636},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18054,9 +18054,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92806},
+																													pos: position{line: 2941, col: 8, offset: 92796},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92807,
+																														line: 2941, col: 9, offset: 92797,
 																													},
 																												},
 																											},
@@ -18112,10 +18112,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 755, col: 8, offset: 24370},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92458},
+																									pos: position{line: 2922, col: 10, offset: 92448},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92458},
+																										pos:        position{line: 2922, col: 10, offset: 92448},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -18124,28 +18124,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92856},
+																								pos: position{line: 2944, col: 8, offset: 92846},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92629},
+																										pos: position{line: 2931, col: 12, offset: 92619},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92630},
+																											pos: position{line: 2931, col: 13, offset: 92620},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92630},
+																													pos:        position{line: 2931, col: 13, offset: 92620},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92637},
+																													pos:        position{line: 2931, col: 20, offset: 92627},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92646},
+																													pos:        position{line: 2931, col: 29, offset: 92636},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -18154,9 +18154,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92806},
+																										pos: position{line: 2941, col: 8, offset: 92796},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92807,
+																											line: 2941, col: 9, offset: 92797,
 																										},
 																									},
 																								},
@@ -18165,9 +18165,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -18193,10 +18193,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1182, col: 21, offset: 36571},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92458},
+																		pos: position{line: 2922, col: 10, offset: 92448},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92458},
+																			pos:        position{line: 2922, col: 10, offset: 92448},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18298,10 +18298,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1194, col: 28, offset: 37202},
 																													expr: &actionExpr{
-																														pos: position{line: 2922, col: 10, offset: 92458},
+																														pos: position{line: 2922, col: 10, offset: 92448},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2922, col: 10, offset: 92458},
+																															pos:        position{line: 2922, col: 10, offset: 92448},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18448,28 +18448,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92856},
+																	pos: position{line: 2944, col: 8, offset: 92846},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92629},
+																			pos: position{line: 2931, col: 12, offset: 92619},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92630},
+																				pos: position{line: 2931, col: 13, offset: 92620},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92630},
+																						pos:        position{line: 2931, col: 13, offset: 92620},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92637},
+																						pos:        position{line: 2931, col: 20, offset: 92627},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92646},
+																						pos:        position{line: 2931, col: 29, offset: 92636},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18478,9 +18478,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92806},
+																			pos: position{line: 2941, col: 8, offset: 92796},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92807,
+																				line: 2941, col: 9, offset: 92797,
 																			},
 																		},
 																	},
@@ -18560,10 +18560,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 49, offset: 11042},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92458},
+															pos: position{line: 2922, col: 10, offset: 92448},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92458},
+																pos:        position{line: 2922, col: 10, offset: 92448},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18572,28 +18572,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92856},
+														pos: position{line: 2944, col: 8, offset: 92846},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92629},
+																pos: position{line: 2931, col: 12, offset: 92619},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92630},
+																	pos: position{line: 2931, col: 13, offset: 92620},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92630},
+																			pos:        position{line: 2931, col: 13, offset: 92620},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92637},
+																			pos:        position{line: 2931, col: 20, offset: 92627},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92646},
+																			pos:        position{line: 2931, col: 29, offset: 92636},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18602,9 +18602,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92806},
+																pos: position{line: 2941, col: 8, offset: 92796},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92807,
+																	line: 2941, col: 9, offset: 92797,
 																},
 															},
 														},
@@ -18665,10 +18665,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 364, col: 39, offset: 11163},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92458},
+															pos: position{line: 2922, col: 10, offset: 92448},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92458},
+																pos:        position{line: 2922, col: 10, offset: 92448},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18677,28 +18677,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92856},
+														pos: position{line: 2944, col: 8, offset: 92846},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92629},
+																pos: position{line: 2931, col: 12, offset: 92619},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92630},
+																	pos: position{line: 2931, col: 13, offset: 92620},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92630},
+																			pos:        position{line: 2931, col: 13, offset: 92620},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92637},
+																			pos:        position{line: 2931, col: 20, offset: 92627},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92646},
+																			pos:        position{line: 2931, col: 29, offset: 92636},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18707,9 +18707,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92806},
+																pos: position{line: 2941, col: 8, offset: 92796},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92807,
+																	line: 2941, col: 9, offset: 92797,
 																},
 															},
 														},
@@ -18718,36 +18718,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2525, col: 22, offset: 81236},
+											pos: position{line: 2525, col: 22, offset: 81226},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2525, col: 22, offset: 81236},
+												pos: position{line: 2525, col: 22, offset: 81226},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2530, col: 31, offset: 81486},
+														pos:        position{line: 2530, col: 31, offset: 81476},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2530, col: 36, offset: 81491},
+														pos: position{line: 2530, col: 36, offset: 81481},
 														expr: &litMatcher{
-															pos:        position{line: 2530, col: 37, offset: 81492},
+															pos:        position{line: 2530, col: 37, offset: 81482},
 															val:        "/",
 															ignoreCase: false,
 															want:       "\"/\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2525, col: 49, offset: 81263},
+														pos:   position{line: 2525, col: 49, offset: 81253},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2868, col: 13, offset: 90984},
+															pos: position{line: 2868, col: 13, offset: 90974},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2868, col: 13, offset: 90984},
+																pos: position{line: 2868, col: 13, offset: 90974},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2868, col: 13, offset: 90984},
+																	pos:        position{line: 2868, col: 13, offset: 90974},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18757,28 +18757,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92856},
+														pos: position{line: 2944, col: 8, offset: 92846},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92629},
+																pos: position{line: 2931, col: 12, offset: 92619},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92630},
+																	pos: position{line: 2931, col: 13, offset: 92620},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92630},
+																			pos:        position{line: 2931, col: 13, offset: 92620},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92637},
+																			pos:        position{line: 2931, col: 20, offset: 92627},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92646},
+																			pos:        position{line: 2931, col: 29, offset: 92636},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18787,9 +18787,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92806},
+																pos: position{line: 2941, col: 8, offset: 92796},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92807,
+																	line: 2941, col: 9, offset: 92797,
 																},
 															},
 														},
@@ -18840,10 +18840,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 755, col: 8, offset: 24370},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92458},
+																		pos: position{line: 2922, col: 10, offset: 92448},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92458},
+																			pos:        position{line: 2922, col: 10, offset: 92448},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18852,28 +18852,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92856},
+																	pos: position{line: 2944, col: 8, offset: 92846},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92629},
+																			pos: position{line: 2931, col: 12, offset: 92619},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92630},
+																				pos: position{line: 2931, col: 13, offset: 92620},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92630},
+																						pos:        position{line: 2931, col: 13, offset: 92620},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92637},
+																						pos:        position{line: 2931, col: 20, offset: 92627},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92646},
+																						pos:        position{line: 2931, col: 29, offset: 92636},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18882,9 +18882,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92806},
+																			pos: position{line: 2941, col: 8, offset: 92796},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92807,
+																				line: 2941, col: 9, offset: 92797,
 																			},
 																		},
 																	},
@@ -18945,10 +18945,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 755, col: 8, offset: 24370},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92458},
+																										pos: position{line: 2922, col: 10, offset: 92448},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92458},
+																											pos:        position{line: 2922, col: 10, offset: 92448},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18957,28 +18957,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92856},
+																									pos: position{line: 2944, col: 8, offset: 92846},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92629},
+																											pos: position{line: 2931, col: 12, offset: 92619},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92630},
+																												pos: position{line: 2931, col: 13, offset: 92620},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92630},
+																														pos:        position{line: 2931, col: 13, offset: 92620},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92637},
+																														pos:        position{line: 2931, col: 20, offset: 92627},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92646},
+																														pos:        position{line: 2931, col: 29, offset: 92636},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18987,9 +18987,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92806},
+																											pos: position{line: 2941, col: 8, offset: 92796},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92807,
+																												line: 2941, col: 9, offset: 92797,
 																											},
 																										},
 																									},
@@ -18998,9 +18998,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92806},
+																						pos: position{line: 2941, col: 8, offset: 92796},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92807,
+																							line: 2941, col: 9, offset: 92797,
 																						},
 																					},
 																				},
@@ -19016,21 +19016,21 @@ var g = &grammar{
 																					pos: position{line: 824, col: 5, offset: 26772},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92792},
+																							pos: position{line: 2939, col: 11, offset: 92782},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92794,
+																								line: 2939, col: 13, offset: 92784,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 825, col: 5, offset: 26847},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90984},
+																								pos: position{line: 2868, col: 13, offset: 90974},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90984},
+																									pos: position{line: 2868, col: 13, offset: 90974},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90984},
+																										pos:        position{line: 2868, col: 13, offset: 90974},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19040,28 +19040,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19070,9 +19070,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -19128,10 +19128,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 755, col: 8, offset: 24370},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92458},
+																					pos: position{line: 2922, col: 10, offset: 92448},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92458},
+																						pos:        position{line: 2922, col: 10, offset: 92448},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -19140,28 +19140,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92856},
+																				pos: position{line: 2944, col: 8, offset: 92846},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92629},
+																						pos: position{line: 2931, col: 12, offset: 92619},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92630},
+																							pos: position{line: 2931, col: 13, offset: 92620},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92630},
+																									pos:        position{line: 2931, col: 13, offset: 92620},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92637},
+																									pos:        position{line: 2931, col: 20, offset: 92627},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92646},
+																									pos:        position{line: 2931, col: 29, offset: 92636},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -19170,9 +19170,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92806},
+																						pos: position{line: 2941, col: 8, offset: 92796},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92807,
+																							line: 2941, col: 9, offset: 92797,
 																						},
 																					},
 																				},
@@ -19181,9 +19181,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92806},
+																	pos: position{line: 2941, col: 8, offset: 92796},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92807,
+																		line: 2941, col: 9, offset: 92797,
 																	},
 																},
 															},
@@ -19216,12 +19216,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2926, col: 11, offset: 92519},
+							pos: position{line: 2926, col: 11, offset: 92509},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2926, col: 11, offset: 92519},
+								pos: position{line: 2926, col: 11, offset: 92509},
 								expr: &charClassMatcher{
-									pos:        position{line: 2926, col: 11, offset: 92519},
+									pos:        position{line: 2926, col: 11, offset: 92509},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19238,28 +19238,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92856},
+							pos: position{line: 2944, col: 8, offset: 92846},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92629},
+									pos: position{line: 2931, col: 12, offset: 92619},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92630},
+										pos: position{line: 2931, col: 13, offset: 92620},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92630},
+												pos:        position{line: 2931, col: 13, offset: 92620},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92637},
+												pos:        position{line: 2931, col: 20, offset: 92627},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92646},
+												pos:        position{line: 2931, col: 29, offset: 92636},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19268,9 +19268,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92806},
+									pos: position{line: 2941, col: 8, offset: 92796},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92807,
+										line: 2941, col: 9, offset: 92797,
 									},
 								},
 							},
@@ -19309,10 +19309,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1157, col: 5, offset: 35975},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92458},
+								pos: position{line: 2922, col: 10, offset: 92448},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92458},
+									pos:        position{line: 2922, col: 10, offset: 92448},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19344,10 +19344,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1161, col: 5, offset: 36074},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92458},
+								pos: position{line: 2922, col: 10, offset: 92448},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92458},
+									pos:        position{line: 2922, col: 10, offset: 92448},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19379,10 +19379,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1165, col: 5, offset: 36171},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92458},
+								pos: position{line: 2922, col: 10, offset: 92448},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92458},
+									pos:        position{line: 2922, col: 10, offset: 92448},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19448,12 +19448,12 @@ var g = &grammar{
 							pos:   position{line: 1293, col: 13, offset: 40420},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2907, col: 7, offset: 92110},
+								pos: position{line: 2907, col: 7, offset: 92100},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2907, col: 7, offset: 92110},
+									pos: position{line: 2907, col: 7, offset: 92100},
 									expr: &charClassMatcher{
-										pos:        position{line: 2907, col: 7, offset: 92110},
+										pos:        position{line: 2907, col: 7, offset: 92100},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19522,12 +19522,12 @@ var g = &grammar{
 							pos: position{line: 1304, col: 31, offset: 40880},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2816, col: 14, offset: 89627},
+									pos: position{line: 2816, col: 14, offset: 89617},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2816, col: 14, offset: 89627},
+										pos: position{line: 2816, col: 14, offset: 89617},
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 14, offset: 89627},
+											pos:        position{line: 2816, col: 14, offset: 89617},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19540,10 +19540,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2922, col: 10, offset: 92458},
+									pos: position{line: 2922, col: 10, offset: 92448},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2922, col: 10, offset: 92458},
+										pos:        position{line: 2922, col: 10, offset: 92448},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19551,23 +19551,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2512, col: 5, offset: 80782},
+									pos: position{line: 2512, col: 5, offset: 80772},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2512, col: 5, offset: 80782},
+										pos: position{line: 2512, col: 5, offset: 80772},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2512, col: 5, offset: 80782},
+												pos: position{line: 2512, col: 5, offset: 80772},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2515, col: 5, offset: 80858},
+												pos:   position{line: 2515, col: 5, offset: 80848},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2516, col: 9, offset: 80876},
+													pos: position{line: 2516, col: 9, offset: 80866},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2516, col: 10, offset: 80877},
+														pos:        position{line: 2516, col: 10, offset: 80867},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19667,48 +19667,48 @@ var g = &grammar{
 							pos:   position{line: 1325, col: 15, offset: 41698},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2880, col: 13, offset: 91217},
+								pos: position{line: 2880, col: 13, offset: 91207},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2880, col: 13, offset: 91217},
+									pos: position{line: 2880, col: 13, offset: 91207},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2880, col: 13, offset: 91217},
+											pos:   position{line: 2880, col: 13, offset: 91207},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2880, col: 20, offset: 91224},
+												pos: position{line: 2880, col: 20, offset: 91214},
 												expr: &actionExpr{
-													pos: position{line: 2888, col: 11, offset: 91463},
+													pos: position{line: 2888, col: 11, offset: 91453},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2888, col: 12, offset: 91464},
+														pos: position{line: 2888, col: 12, offset: 91454},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2888, col: 12, offset: 91464},
+																pos:        position{line: 2888, col: 12, offset: 91454},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 24, offset: 91476},
+																pos:        position{line: 2888, col: 24, offset: 91466},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 37, offset: 91489},
+																pos:        position{line: 2888, col: 37, offset: 91479},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 48, offset: 91500},
+																pos:        position{line: 2888, col: 48, offset: 91490},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 59, offset: 91511},
+																pos:        position{line: 2888, col: 59, offset: 91501},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19719,38 +19719,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2880, col: 30, offset: 91234},
+											pos:   position{line: 2880, col: 30, offset: 91224},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2893, col: 5, offset: 91575},
+												pos: position{line: 2893, col: 5, offset: 91565},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2893, col: 5, offset: 91575},
+													pos:   position{line: 2893, col: 5, offset: 91565},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2893, col: 14, offset: 91584},
+														pos: position{line: 2893, col: 14, offset: 91574},
 														expr: &choiceExpr{
-															pos: position{line: 2894, col: 9, offset: 91594},
+															pos: position{line: 2894, col: 9, offset: 91584},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2894, col: 9, offset: 91594},
+																	pos: position{line: 2894, col: 9, offset: 91584},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2894, col: 9, offset: 91594},
+																		pos: position{line: 2894, col: 9, offset: 91584},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2894, col: 9, offset: 91594},
+																				pos: position{line: 2894, col: 9, offset: 91584},
 																				expr: &litMatcher{
-																					pos:        position{line: 2894, col: 10, offset: 91595},
+																					pos:        position{line: 2894, col: 10, offset: 91585},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2895, col: 9, offset: 91623},
+																				pos: position{line: 2895, col: 9, offset: 91613},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2895, col: 10, offset: 91624},
+																					pos:        position{line: 2895, col: 10, offset: 91614},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19761,27 +19761,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2898, col: 11, offset: 91836},
+																	pos: position{line: 2898, col: 11, offset: 91826},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2898, col: 11, offset: 91836},
+																			pos:        position{line: 2898, col: 11, offset: 91826},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2898, col: 19, offset: 91844},
+																			pos: position{line: 2898, col: 19, offset: 91834},
 																			expr: &seqExpr{
-																				pos: position{line: 2898, col: 21, offset: 91846},
+																				pos: position{line: 2898, col: 21, offset: 91836},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2898, col: 21, offset: 91846},
+																						pos: position{line: 2898, col: 21, offset: 91836},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92458},
+																							pos: position{line: 2922, col: 10, offset: 92448},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92458},
+																								pos:        position{line: 2922, col: 10, offset: 92448},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19790,11 +19790,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2898, col: 28, offset: 91853},
+																						pos: position{line: 2898, col: 28, offset: 91843},
 																						expr: &notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92806},
+																							pos: position{line: 2941, col: 8, offset: 92796},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92807,
+																								line: 2941, col: 9, offset: 92797,
 																							},
 																						},
 																					},
@@ -20193,10 +20193,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2901, col: 11, offset: 91973},
+																	pos: position{line: 2901, col: 11, offset: 91963},
 																	run: (*parser).callonImageBlock115,
 																	expr: &litMatcher{
-																		pos:        position{line: 2901, col: 11, offset: 91973},
+																		pos:        position{line: 2901, col: 11, offset: 91963},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20223,10 +20223,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1325, col: 61, offset: 41744},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92458},
+								pos: position{line: 2922, col: 10, offset: 92448},
 								run: (*parser).callonImageBlock120,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92458},
+									pos:        position{line: 2922, col: 10, offset: 92448},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20235,28 +20235,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92856},
+							pos: position{line: 2944, col: 8, offset: 92846},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92629},
+									pos: position{line: 2931, col: 12, offset: 92619},
 									run: (*parser).callonImageBlock123,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92630},
+										pos: position{line: 2931, col: 13, offset: 92620},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92630},
+												pos:        position{line: 2931, col: 13, offset: 92620},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92637},
+												pos:        position{line: 2931, col: 20, offset: 92627},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92646},
+												pos:        position{line: 2931, col: 29, offset: 92636},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20265,9 +20265,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92806},
+									pos: position{line: 2941, col: 8, offset: 92796},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92807,
+										line: 2941, col: 9, offset: 92797,
 									},
 								},
 							},
@@ -20304,48 +20304,48 @@ var g = &grammar{
 							pos:   position{line: 1330, col: 30, offset: 41990},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2880, col: 13, offset: 91217},
+								pos: position{line: 2880, col: 13, offset: 91207},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2880, col: 13, offset: 91217},
+									pos: position{line: 2880, col: 13, offset: 91207},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2880, col: 13, offset: 91217},
+											pos:   position{line: 2880, col: 13, offset: 91207},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2880, col: 20, offset: 91224},
+												pos: position{line: 2880, col: 20, offset: 91214},
 												expr: &actionExpr{
-													pos: position{line: 2888, col: 11, offset: 91463},
+													pos: position{line: 2888, col: 11, offset: 91453},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2888, col: 12, offset: 91464},
+														pos: position{line: 2888, col: 12, offset: 91454},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2888, col: 12, offset: 91464},
+																pos:        position{line: 2888, col: 12, offset: 91454},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 24, offset: 91476},
+																pos:        position{line: 2888, col: 24, offset: 91466},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 37, offset: 91489},
+																pos:        position{line: 2888, col: 37, offset: 91479},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 48, offset: 91500},
+																pos:        position{line: 2888, col: 48, offset: 91490},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 59, offset: 91511},
+																pos:        position{line: 2888, col: 59, offset: 91501},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20356,38 +20356,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2880, col: 30, offset: 91234},
+											pos:   position{line: 2880, col: 30, offset: 91224},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2893, col: 5, offset: 91575},
+												pos: position{line: 2893, col: 5, offset: 91565},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2893, col: 5, offset: 91575},
+													pos:   position{line: 2893, col: 5, offset: 91565},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2893, col: 14, offset: 91584},
+														pos: position{line: 2893, col: 14, offset: 91574},
 														expr: &choiceExpr{
-															pos: position{line: 2894, col: 9, offset: 91594},
+															pos: position{line: 2894, col: 9, offset: 91584},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2894, col: 9, offset: 91594},
+																	pos: position{line: 2894, col: 9, offset: 91584},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2894, col: 9, offset: 91594},
+																		pos: position{line: 2894, col: 9, offset: 91584},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2894, col: 9, offset: 91594},
+																				pos: position{line: 2894, col: 9, offset: 91584},
 																				expr: &litMatcher{
-																					pos:        position{line: 2894, col: 10, offset: 91595},
+																					pos:        position{line: 2894, col: 10, offset: 91585},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2895, col: 9, offset: 91623},
+																				pos: position{line: 2895, col: 9, offset: 91613},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2895, col: 10, offset: 91624},
+																					pos:        position{line: 2895, col: 10, offset: 91614},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20398,27 +20398,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2898, col: 11, offset: 91836},
+																	pos: position{line: 2898, col: 11, offset: 91826},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2898, col: 11, offset: 91836},
+																			pos:        position{line: 2898, col: 11, offset: 91826},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2898, col: 19, offset: 91844},
+																			pos: position{line: 2898, col: 19, offset: 91834},
 																			expr: &seqExpr{
-																				pos: position{line: 2898, col: 21, offset: 91846},
+																				pos: position{line: 2898, col: 21, offset: 91836},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2898, col: 21, offset: 91846},
+																						pos: position{line: 2898, col: 21, offset: 91836},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92458},
+																							pos: position{line: 2922, col: 10, offset: 92448},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92458},
+																								pos:        position{line: 2922, col: 10, offset: 92448},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20427,11 +20427,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2898, col: 28, offset: 91853},
+																						pos: position{line: 2898, col: 28, offset: 91843},
 																						expr: &notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92806},
+																							pos: position{line: 2941, col: 8, offset: 92796},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92807,
+																								line: 2941, col: 9, offset: 92797,
 																							},
 																						},
 																					},
@@ -20830,10 +20830,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2901, col: 11, offset: 91973},
+																	pos: position{line: 2901, col: 11, offset: 91963},
 																	run: (*parser).callonInlineImage117,
 																	expr: &litMatcher{
-																		pos:        position{line: 2901, col: 11, offset: 91973},
+																		pos:        position{line: 2901, col: 11, offset: 91963},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20928,12 +20928,12 @@ var g = &grammar{
 							expr: &zeroOrOneExpr{
 								pos: position{line: 1344, col: 35, offset: 42898},
 								expr: &actionExpr{
-									pos: position{line: 2816, col: 14, offset: 89627},
+									pos: position{line: 2816, col: 14, offset: 89617},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2816, col: 14, offset: 89627},
+										pos: position{line: 2816, col: 14, offset: 89617},
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 14, offset: 89627},
+											pos:        position{line: 2816, col: 14, offset: 89617},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -21020,21 +21020,21 @@ var g = &grammar{
 								pos: position{line: 1362, col: 9, offset: 43392},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2821, col: 5, offset: 89700},
+										pos: position{line: 2821, col: 5, offset: 89690},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2821, col: 5, offset: 89700},
+											pos: position{line: 2821, col: 5, offset: 89690},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2821, col: 5, offset: 89700},
+													pos:   position{line: 2821, col: 5, offset: 89690},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2821, col: 11, offset: 89706},
+														pos: position{line: 2821, col: 11, offset: 89696},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2821, col: 11, offset: 89706},
+															pos: position{line: 2821, col: 11, offset: 89696},
 															expr: &charClassMatcher{
-																pos:        position{line: 2821, col: 11, offset: 89706},
+																pos:        position{line: 2821, col: 11, offset: 89696},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21044,36 +21044,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2824, col: 5, offset: 89764},
+													pos: position{line: 2824, col: 5, offset: 89754},
 													expr: &seqExpr{
-														pos: position{line: 2825, col: 9, offset: 89775},
+														pos: position{line: 2825, col: 9, offset: 89765},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2825, col: 9, offset: 89775},
+																pos:        position{line: 2825, col: 9, offset: 89765},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2826, col: 9, offset: 89824},
+																pos: position{line: 2826, col: 9, offset: 89814},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2830, col: 5, offset: 89904},
+													pos: position{line: 2830, col: 5, offset: 89894},
 													expr: &seqExpr{
-														pos: position{line: 2831, col: 9, offset: 89915},
+														pos: position{line: 2831, col: 9, offset: 89905},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2831, col: 9, offset: 89915},
+																pos:        position{line: 2831, col: 9, offset: 89905},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2831, col: 13, offset: 89919},
+																pos:        position{line: 2831, col: 13, offset: 89909},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21086,12 +21086,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2926, col: 11, offset: 92519},
+										pos: position{line: 2926, col: 11, offset: 92509},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2926, col: 11, offset: 92519},
+											pos: position{line: 2926, col: 11, offset: 92509},
 											expr: &charClassMatcher{
-												pos:        position{line: 2926, col: 11, offset: 92519},
+												pos:        position{line: 2926, col: 11, offset: 92509},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21100,21 +21100,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2543, col: 5, offset: 81981},
+										pos: position{line: 2543, col: 5, offset: 81971},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2543, col: 5, offset: 81981},
+											pos: position{line: 2543, col: 5, offset: 81971},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2543, col: 5, offset: 81981},
+													pos:        position{line: 2543, col: 5, offset: 81971},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2543, col: 10, offset: 81986},
+													pos: position{line: 2543, col: 10, offset: 81976},
 													expr: &charClassMatcher{
-														pos:        position{line: 2543, col: 11, offset: 81987},
+														pos:        position{line: 2543, col: 11, offset: 81977},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21125,29 +21125,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2549, col: 5, offset: 82179},
+										pos: position{line: 2549, col: 5, offset: 82169},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2549, col: 5, offset: 82179},
+											pos: position{line: 2549, col: 5, offset: 82169},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2549, col: 5, offset: 82179},
+													pos: position{line: 2549, col: 5, offset: 82169},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2552, col: 5, offset: 82250},
+													pos: position{line: 2552, col: 5, offset: 82240},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2556, col: 5, offset: 82375},
+													pos:        position{line: 2556, col: 5, offset: 82365},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2556, col: 9, offset: 82379},
+													pos: position{line: 2556, col: 9, offset: 82369},
 													expr: &charClassMatcher{
-														pos:        position{line: 2556, col: 10, offset: 82380},
+														pos:        position{line: 2556, col: 10, offset: 82370},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21166,27 +21166,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2839, col: 5, offset: 90112},
+										pos: position{line: 2839, col: 5, offset: 90102},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2840, col: 9, offset: 90122},
+											pos: position{line: 2840, col: 9, offset: 90112},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2840, col: 10, offset: 90123},
+													pos:        position{line: 2840, col: 10, offset: 90113},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2842, col: 13, offset: 90220},
+													pos: position{line: 2842, col: 13, offset: 90210},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2842, col: 13, offset: 90220},
+															pos: position{line: 2842, col: 13, offset: 90210},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2845, col: 13, offset: 90320},
+															pos:        position{line: 2845, col: 13, offset: 90310},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21194,20 +21194,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2845, col: 19, offset: 90326},
+													pos:        position{line: 2845, col: 19, offset: 90316},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2848, col: 13, offset: 90364},
+													pos: position{line: 2848, col: 13, offset: 90354},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2848, col: 13, offset: 90364},
+															pos: position{line: 2848, col: 13, offset: 90354},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2851, col: 14, offset: 90457},
+															pos:        position{line: 2851, col: 14, offset: 90447},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21216,18 +21216,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2853, col: 12, offset: 90501},
+													pos: position{line: 2853, col: 12, offset: 90491},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2853, col: 12, offset: 90501},
+															pos:        position{line: 2853, col: 12, offset: 90491},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2853, col: 16, offset: 90505},
+															pos: position{line: 2853, col: 16, offset: 90495},
 															expr: &litMatcher{
-																pos:        position{line: 2853, col: 17, offset: 90506},
+																pos:        position{line: 2853, col: 17, offset: 90496},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21265,10 +21265,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1227, col: 5, offset: 38320},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92458},
+														pos: position{line: 2922, col: 10, offset: 92448},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92458},
+															pos:        position{line: 2922, col: 10, offset: 92448},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21279,28 +21279,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1227, col: 12, offset: 38327},
 													expr: &choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92856},
+														pos: position{line: 2944, col: 8, offset: 92846},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92629},
+																pos: position{line: 2931, col: 12, offset: 92619},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92630},
+																	pos: position{line: 2931, col: 13, offset: 92620},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92630},
+																			pos:        position{line: 2931, col: 13, offset: 92620},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92637},
+																			pos:        position{line: 2931, col: 20, offset: 92627},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92646},
+																			pos:        position{line: 2931, col: 29, offset: 92636},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21309,9 +21309,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92806},
+																pos: position{line: 2941, col: 8, offset: 92796},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92807,
+																	line: 2941, col: 9, offset: 92797,
 																},
 															},
 														},
@@ -21667,23 +21667,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 5, offset: 80782},
+										pos: position{line: 2512, col: 5, offset: 80772},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 5, offset: 80782},
+											pos: position{line: 2512, col: 5, offset: 80772},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 80782},
+													pos: position{line: 2512, col: 5, offset: 80772},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 5, offset: 80858},
+													pos:   position{line: 2515, col: 5, offset: 80848},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2516, col: 9, offset: 80876},
+														pos: position{line: 2516, col: 9, offset: 80866},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2516, col: 10, offset: 80877},
+															pos:        position{line: 2516, col: 10, offset: 80867},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21695,25 +21695,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2931, col: 12, offset: 92629},
+										pos: position{line: 2931, col: 12, offset: 92619},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2931, col: 13, offset: 92630},
+											pos: position{line: 2931, col: 13, offset: 92620},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2931, col: 13, offset: 92630},
+													pos:        position{line: 2931, col: 13, offset: 92620},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 20, offset: 92637},
+													pos:        position{line: 2931, col: 20, offset: 92627},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 29, offset: 92646},
+													pos:        position{line: 2931, col: 29, offset: 92636},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21722,10 +21722,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90766},
+										pos: position{line: 2861, col: 12, offset: 90756},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2861, col: 12, offset: 90766},
+											pos:        position{line: 2861, col: 12, offset: 90756},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21741,32 +21741,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1407, col: 1, offset: 45393},
+			pos:  position{line: 1407, col: 1, offset: 45383},
 			expr: &choiceExpr{
-				pos: position{line: 1407, col: 21, offset: 45413},
+				pos: position{line: 1407, col: 21, offset: 45403},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1407, col: 21, offset: 45413},
+						pos: position{line: 1407, col: 21, offset: 45403},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1407, col: 21, offset: 45413},
+							pos: position{line: 1407, col: 21, offset: 45403},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1407, col: 21, offset: 45413},
+									pos:        position{line: 1407, col: 21, offset: 45403},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1407, col: 30, offset: 45422},
+									pos:   position{line: 1407, col: 30, offset: 45412},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1407, col: 38, offset: 45430},
+										pos: position{line: 1407, col: 38, offset: 45420},
 										expr: &actionExpr{
-											pos: position{line: 1413, col: 30, offset: 45756},
+											pos: position{line: 1413, col: 30, offset: 45746},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1413, col: 30, offset: 45756},
+												pos:        position{line: 1413, col: 30, offset: 45746},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21776,7 +21776,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1407, col: 67, offset: 45459},
+									pos:        position{line: 1407, col: 67, offset: 45449},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21785,34 +21785,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1409, col: 9, offset: 45563},
+						pos: position{line: 1409, col: 9, offset: 45553},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1409, col: 9, offset: 45563},
+							pos: position{line: 1409, col: 9, offset: 45553},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1409, col: 9, offset: 45563},
+									pos:        position{line: 1409, col: 9, offset: 45553},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1409, col: 19, offset: 45573},
+									pos:   position{line: 1409, col: 19, offset: 45563},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1409, col: 27, offset: 45581},
+										pos: position{line: 1409, col: 27, offset: 45571},
 										expr: &choiceExpr{
-											pos: position{line: 1409, col: 28, offset: 45582},
+											pos: position{line: 1409, col: 28, offset: 45572},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1409, col: 28, offset: 45582},
+													pos:  position{line: 1409, col: 28, offset: 45572},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1413, col: 30, offset: 45756},
+													pos: position{line: 1413, col: 30, offset: 45746},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1413, col: 30, offset: 45756},
+														pos:        position{line: 1413, col: 30, offset: 45746},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -21824,7 +21824,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1409, col: 69, offset: 45623},
+									pos:        position{line: 1409, col: 69, offset: 45613},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21837,75 +21837,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1420, col: 1, offset: 46012},
+			pos:  position{line: 1420, col: 1, offset: 46002},
 			expr: &choiceExpr{
-				pos: position{line: 1420, col: 9, offset: 46020},
+				pos: position{line: 1420, col: 9, offset: 46010},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1423, col: 5, offset: 46089},
+						pos: position{line: 1423, col: 5, offset: 46079},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1423, col: 5, offset: 46089},
+							pos: position{line: 1423, col: 5, offset: 46079},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1423, col: 5, offset: 46089},
+									pos:        position{line: 1423, col: 5, offset: 46079},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1424, col: 5, offset: 46098},
+									pos:   position{line: 1424, col: 5, offset: 46088},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2884, col: 23, offset: 91344},
+										pos: position{line: 2884, col: 23, offset: 91334},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2884, col: 23, offset: 91344},
+											pos: position{line: 2884, col: 23, offset: 91334},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2884, col: 23, offset: 91344},
+													pos: position{line: 2884, col: 23, offset: 91334},
 													expr: &litMatcher{
-														pos:        position{line: 2884, col: 24, offset: 91345},
+														pos:        position{line: 2884, col: 24, offset: 91335},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2884, col: 28, offset: 91349},
+													pos:   position{line: 2884, col: 28, offset: 91339},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 11, offset: 91463},
+														pos: position{line: 2888, col: 11, offset: 91453},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2888, col: 12, offset: 91464},
+															pos: position{line: 2888, col: 12, offset: 91454},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2888, col: 12, offset: 91464},
+																	pos:        position{line: 2888, col: 12, offset: 91454},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 24, offset: 91476},
+																	pos:        position{line: 2888, col: 24, offset: 91466},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 37, offset: 91489},
+																	pos:        position{line: 2888, col: 37, offset: 91479},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 48, offset: 91500},
+																	pos:        position{line: 2888, col: 48, offset: 91490},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 59, offset: 91511},
+																	pos:        position{line: 2888, col: 59, offset: 91501},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21915,38 +21915,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2884, col: 44, offset: 91365},
+													pos:   position{line: 2884, col: 44, offset: 91355},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2893, col: 5, offset: 91575},
+														pos: position{line: 2893, col: 5, offset: 91565},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2893, col: 5, offset: 91575},
+															pos:   position{line: 2893, col: 5, offset: 91565},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2893, col: 14, offset: 91584},
+																pos: position{line: 2893, col: 14, offset: 91574},
 																expr: &choiceExpr{
-																	pos: position{line: 2894, col: 9, offset: 91594},
+																	pos: position{line: 2894, col: 9, offset: 91584},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2894, col: 9, offset: 91594},
+																			pos: position{line: 2894, col: 9, offset: 91584},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2894, col: 9, offset: 91594},
+																				pos: position{line: 2894, col: 9, offset: 91584},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2894, col: 9, offset: 91594},
+																						pos: position{line: 2894, col: 9, offset: 91584},
 																						expr: &litMatcher{
-																							pos:        position{line: 2894, col: 10, offset: 91595},
+																							pos:        position{line: 2894, col: 10, offset: 91585},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2895, col: 9, offset: 91623},
+																						pos: position{line: 2895, col: 9, offset: 91613},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2895, col: 10, offset: 91624},
+																							pos:        position{line: 2895, col: 10, offset: 91614},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21957,27 +21957,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2898, col: 11, offset: 91836},
+																			pos: position{line: 2898, col: 11, offset: 91826},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2898, col: 11, offset: 91836},
+																					pos:        position{line: 2898, col: 11, offset: 91826},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2898, col: 19, offset: 91844},
+																					pos: position{line: 2898, col: 19, offset: 91834},
 																					expr: &seqExpr{
-																						pos: position{line: 2898, col: 21, offset: 91846},
+																						pos: position{line: 2898, col: 21, offset: 91836},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2898, col: 21, offset: 91846},
+																								pos: position{line: 2898, col: 21, offset: 91836},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92458},
+																									pos: position{line: 2922, col: 10, offset: 92448},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92458},
+																										pos:        position{line: 2922, col: 10, offset: 92448},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21986,11 +21986,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2898, col: 28, offset: 91853},
+																								pos: position{line: 2898, col: 28, offset: 91843},
 																								expr: &notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -22389,10 +22389,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2901, col: 11, offset: 91973},
+																			pos: position{line: 2901, col: 11, offset: 91963},
 																			run: (*parser).callonLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 11, offset: 91973},
+																				pos:        position{line: 2901, col: 11, offset: 91963},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22409,7 +22409,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1429, col: 5, offset: 46317},
+									pos:        position{line: 1429, col: 5, offset: 46307},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22418,38 +22418,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1420, col: 19, offset: 46030},
+						pos:  position{line: 1420, col: 19, offset: 46020},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1420, col: 34, offset: 46045},
+						pos:  position{line: 1420, col: 34, offset: 46035},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1458, col: 17, offset: 47310},
+						pos: position{line: 1458, col: 17, offset: 47300},
 						run: (*parser).callonLink122,
 						expr: &seqExpr{
-							pos: position{line: 1458, col: 17, offset: 47310},
+							pos: position{line: 1458, col: 17, offset: 47300},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1458, col: 17, offset: 47310},
+									pos:   position{line: 1458, col: 17, offset: 47300},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1463, col: 5, offset: 47475},
+										pos: position{line: 1463, col: 5, offset: 47465},
 										run: (*parser).callonLink125,
 										expr: &seqExpr{
-											pos: position{line: 1463, col: 5, offset: 47475},
+											pos: position{line: 1463, col: 5, offset: 47465},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1463, col: 5, offset: 47475},
+													pos:   position{line: 1463, col: 5, offset: 47465},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1463, col: 12, offset: 47482},
+														pos: position{line: 1463, col: 12, offset: 47472},
 														run: (*parser).callonLink128,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1463, col: 12, offset: 47482},
+															pos: position{line: 1463, col: 12, offset: 47472},
 															expr: &charClassMatcher{
-																pos:        position{line: 1463, col: 12, offset: 47482},
+																pos:        position{line: 1463, col: 12, offset: 47472},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22461,7 +22461,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1466, col: 5, offset: 47566},
+													pos: position{line: 1466, col: 5, offset: 47556},
 													run: (*parser).callonLink131,
 												},
 											},
@@ -22469,33 +22469,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1458, col: 43, offset: 47336},
+									pos:        position{line: 1458, col: 43, offset: 47326},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1458, col: 47, offset: 47340},
+									pos:   position{line: 1458, col: 47, offset: 47330},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1475, col: 23, offset: 47860},
+										pos: position{line: 1475, col: 23, offset: 47850},
 										run: (*parser).callonLink134,
 										expr: &seqExpr{
-											pos: position{line: 1475, col: 23, offset: 47860},
+											pos: position{line: 1475, col: 23, offset: 47850},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1475, col: 23, offset: 47860},
+													pos:   position{line: 1475, col: 23, offset: 47850},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1475, col: 31, offset: 47868},
+														pos: position{line: 1475, col: 31, offset: 47858},
 														run: (*parser).callonLink137,
 														expr: &seqExpr{
-															pos: position{line: 1475, col: 31, offset: 47868},
+															pos: position{line: 1475, col: 31, offset: 47858},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1475, col: 31, offset: 47868},
+																	pos: position{line: 1475, col: 31, offset: 47858},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1475, col: 31, offset: 47868},
+																		pos:        position{line: 1475, col: 31, offset: 47858},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -22503,20 +22503,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1475, col: 41, offset: 47878},
+																	pos: position{line: 1475, col: 41, offset: 47868},
 																	expr: &seqExpr{
-																		pos: position{line: 1475, col: 42, offset: 47879},
+																		pos: position{line: 1475, col: 42, offset: 47869},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1475, col: 42, offset: 47879},
+																				pos:        position{line: 1475, col: 42, offset: 47869},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1475, col: 46, offset: 47883},
+																				pos: position{line: 1475, col: 46, offset: 47873},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1475, col: 46, offset: 47883},
+																					pos:        position{line: 1475, col: 46, offset: 47873},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22532,7 +22532,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1478, col: 5, offset: 47944},
+													pos: position{line: 1478, col: 5, offset: 47934},
 													run: (*parser).callonLink146,
 												},
 											},
@@ -22547,68 +22547,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1435, col: 1, offset: 46465},
+			pos:  position{line: 1435, col: 1, offset: 46455},
 			expr: &choiceExpr{
-				pos: position{line: 1437, col: 5, offset: 46501},
+				pos: position{line: 1437, col: 5, offset: 46491},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1437, col: 5, offset: 46501},
+						pos: position{line: 1437, col: 5, offset: 46491},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1437, col: 5, offset: 46501},
+							pos: position{line: 1437, col: 5, offset: 46491},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1437, col: 5, offset: 46501},
+									pos:        position{line: 1437, col: 5, offset: 46491},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1437, col: 17, offset: 46513},
+									pos:   position{line: 1437, col: 17, offset: 46503},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2880, col: 13, offset: 91217},
+										pos: position{line: 2880, col: 13, offset: 91207},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2880, col: 13, offset: 91217},
+											pos: position{line: 2880, col: 13, offset: 91207},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2880, col: 13, offset: 91217},
+													pos:   position{line: 2880, col: 13, offset: 91207},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2880, col: 20, offset: 91224},
+														pos: position{line: 2880, col: 20, offset: 91214},
 														expr: &actionExpr{
-															pos: position{line: 2888, col: 11, offset: 91463},
+															pos: position{line: 2888, col: 11, offset: 91453},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2888, col: 12, offset: 91464},
+																pos: position{line: 2888, col: 12, offset: 91454},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 12, offset: 91464},
+																		pos:        position{line: 2888, col: 12, offset: 91454},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 24, offset: 91476},
+																		pos:        position{line: 2888, col: 24, offset: 91466},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 37, offset: 91489},
+																		pos:        position{line: 2888, col: 37, offset: 91479},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 48, offset: 91500},
+																		pos:        position{line: 2888, col: 48, offset: 91490},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 59, offset: 91511},
+																		pos:        position{line: 2888, col: 59, offset: 91501},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22619,38 +22619,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2880, col: 30, offset: 91234},
+													pos:   position{line: 2880, col: 30, offset: 91224},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2893, col: 5, offset: 91575},
+														pos: position{line: 2893, col: 5, offset: 91565},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2893, col: 5, offset: 91575},
+															pos:   position{line: 2893, col: 5, offset: 91565},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2893, col: 14, offset: 91584},
+																pos: position{line: 2893, col: 14, offset: 91574},
 																expr: &choiceExpr{
-																	pos: position{line: 2894, col: 9, offset: 91594},
+																	pos: position{line: 2894, col: 9, offset: 91584},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2894, col: 9, offset: 91594},
+																			pos: position{line: 2894, col: 9, offset: 91584},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2894, col: 9, offset: 91594},
+																				pos: position{line: 2894, col: 9, offset: 91584},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2894, col: 9, offset: 91594},
+																						pos: position{line: 2894, col: 9, offset: 91584},
 																						expr: &litMatcher{
-																							pos:        position{line: 2894, col: 10, offset: 91595},
+																							pos:        position{line: 2894, col: 10, offset: 91585},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2895, col: 9, offset: 91623},
+																						pos: position{line: 2895, col: 9, offset: 91613},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2895, col: 10, offset: 91624},
+																							pos:        position{line: 2895, col: 10, offset: 91614},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22661,27 +22661,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2898, col: 11, offset: 91836},
+																			pos: position{line: 2898, col: 11, offset: 91826},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2898, col: 11, offset: 91836},
+																					pos:        position{line: 2898, col: 11, offset: 91826},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2898, col: 19, offset: 91844},
+																					pos: position{line: 2898, col: 19, offset: 91834},
 																					expr: &seqExpr{
-																						pos: position{line: 2898, col: 21, offset: 91846},
+																						pos: position{line: 2898, col: 21, offset: 91836},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2898, col: 21, offset: 91846},
+																								pos: position{line: 2898, col: 21, offset: 91836},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92458},
+																									pos: position{line: 2922, col: 10, offset: 92448},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92458},
+																										pos:        position{line: 2922, col: 10, offset: 92448},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22690,11 +22690,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2898, col: 28, offset: 91853},
+																								pos: position{line: 2898, col: 28, offset: 91843},
 																								expr: &notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -23093,10 +23093,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2901, col: 11, offset: 91973},
+																			pos: position{line: 2901, col: 11, offset: 91963},
 																			run: (*parser).callonRelativeLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 11, offset: 91973},
+																				pos:        position{line: 2901, col: 11, offset: 91963},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23113,10 +23113,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1437, col: 32, offset: 46528},
+									pos:   position{line: 1437, col: 32, offset: 46518},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1437, col: 44, offset: 46540},
+										pos:  position{line: 1437, col: 44, offset: 46530},
 										name: "InlineAttributes",
 									},
 								},
@@ -23124,63 +23124,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1442, col: 5, offset: 46672},
+						pos: position{line: 1442, col: 5, offset: 46662},
 						run: (*parser).callonRelativeLink120,
 						expr: &seqExpr{
-							pos: position{line: 1442, col: 5, offset: 46672},
+							pos: position{line: 1442, col: 5, offset: 46662},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1442, col: 5, offset: 46672},
+									pos:        position{line: 1442, col: 5, offset: 46662},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1442, col: 13, offset: 46680},
+									pos:   position{line: 1442, col: 13, offset: 46670},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2880, col: 13, offset: 91217},
+										pos: position{line: 2880, col: 13, offset: 91207},
 										run: (*parser).callonRelativeLink124,
 										expr: &seqExpr{
-											pos: position{line: 2880, col: 13, offset: 91217},
+											pos: position{line: 2880, col: 13, offset: 91207},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2880, col: 13, offset: 91217},
+													pos:   position{line: 2880, col: 13, offset: 91207},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2880, col: 20, offset: 91224},
+														pos: position{line: 2880, col: 20, offset: 91214},
 														expr: &actionExpr{
-															pos: position{line: 2888, col: 11, offset: 91463},
+															pos: position{line: 2888, col: 11, offset: 91453},
 															run: (*parser).callonRelativeLink128,
 															expr: &choiceExpr{
-																pos: position{line: 2888, col: 12, offset: 91464},
+																pos: position{line: 2888, col: 12, offset: 91454},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 12, offset: 91464},
+																		pos:        position{line: 2888, col: 12, offset: 91454},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 24, offset: 91476},
+																		pos:        position{line: 2888, col: 24, offset: 91466},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 37, offset: 91489},
+																		pos:        position{line: 2888, col: 37, offset: 91479},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 48, offset: 91500},
+																		pos:        position{line: 2888, col: 48, offset: 91490},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 59, offset: 91511},
+																		pos:        position{line: 2888, col: 59, offset: 91501},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23191,38 +23191,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2880, col: 30, offset: 91234},
+													pos:   position{line: 2880, col: 30, offset: 91224},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2893, col: 5, offset: 91575},
+														pos: position{line: 2893, col: 5, offset: 91565},
 														run: (*parser).callonRelativeLink136,
 														expr: &labeledExpr{
-															pos:   position{line: 2893, col: 5, offset: 91575},
+															pos:   position{line: 2893, col: 5, offset: 91565},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2893, col: 14, offset: 91584},
+																pos: position{line: 2893, col: 14, offset: 91574},
 																expr: &choiceExpr{
-																	pos: position{line: 2894, col: 9, offset: 91594},
+																	pos: position{line: 2894, col: 9, offset: 91584},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2894, col: 9, offset: 91594},
+																			pos: position{line: 2894, col: 9, offset: 91584},
 																			run: (*parser).callonRelativeLink140,
 																			expr: &seqExpr{
-																				pos: position{line: 2894, col: 9, offset: 91594},
+																				pos: position{line: 2894, col: 9, offset: 91584},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2894, col: 9, offset: 91594},
+																						pos: position{line: 2894, col: 9, offset: 91584},
 																						expr: &litMatcher{
-																							pos:        position{line: 2894, col: 10, offset: 91595},
+																							pos:        position{line: 2894, col: 10, offset: 91585},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2895, col: 9, offset: 91623},
+																						pos: position{line: 2895, col: 9, offset: 91613},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2895, col: 10, offset: 91624},
+																							pos:        position{line: 2895, col: 10, offset: 91614},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23233,27 +23233,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2898, col: 11, offset: 91836},
+																			pos: position{line: 2898, col: 11, offset: 91826},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2898, col: 11, offset: 91836},
+																					pos:        position{line: 2898, col: 11, offset: 91826},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2898, col: 19, offset: 91844},
+																					pos: position{line: 2898, col: 19, offset: 91834},
 																					expr: &seqExpr{
-																						pos: position{line: 2898, col: 21, offset: 91846},
+																						pos: position{line: 2898, col: 21, offset: 91836},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2898, col: 21, offset: 91846},
+																								pos: position{line: 2898, col: 21, offset: 91836},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92458},
+																									pos: position{line: 2922, col: 10, offset: 92448},
 																									run: (*parser).callonRelativeLink151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92458},
+																										pos:        position{line: 2922, col: 10, offset: 92448},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23262,11 +23262,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2898, col: 28, offset: 91853},
+																								pos: position{line: 2898, col: 28, offset: 91843},
 																								expr: &notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -23665,10 +23665,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2901, col: 11, offset: 91973},
+																			pos: position{line: 2901, col: 11, offset: 91963},
 																			run: (*parser).callonRelativeLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 11, offset: 91973},
+																				pos:        position{line: 2901, col: 11, offset: 91963},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23685,10 +23685,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1442, col: 28, offset: 46695},
+									pos:   position{line: 1442, col: 28, offset: 46685},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1442, col: 40, offset: 46707},
+										pos:  position{line: 1442, col: 40, offset: 46697},
 										name: "InlineAttributes",
 									},
 								},
@@ -23700,75 +23700,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1446, col: 1, offset: 46823},
+			pos:  position{line: 1446, col: 1, offset: 46813},
 			expr: &choiceExpr{
-				pos: position{line: 1449, col: 5, offset: 46985},
+				pos: position{line: 1449, col: 5, offset: 46975},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1449, col: 5, offset: 46985},
+						pos: position{line: 1449, col: 5, offset: 46975},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1449, col: 5, offset: 46985},
+							pos: position{line: 1449, col: 5, offset: 46975},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1449, col: 5, offset: 46985},
+									pos:        position{line: 1449, col: 5, offset: 46975},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1449, col: 9, offset: 46989},
+									pos:   position{line: 1449, col: 9, offset: 46979},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2884, col: 23, offset: 91344},
+										pos: position{line: 2884, col: 23, offset: 91334},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2884, col: 23, offset: 91344},
+											pos: position{line: 2884, col: 23, offset: 91334},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2884, col: 23, offset: 91344},
+													pos: position{line: 2884, col: 23, offset: 91334},
 													expr: &litMatcher{
-														pos:        position{line: 2884, col: 24, offset: 91345},
+														pos:        position{line: 2884, col: 24, offset: 91335},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2884, col: 28, offset: 91349},
+													pos:   position{line: 2884, col: 28, offset: 91339},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 11, offset: 91463},
+														pos: position{line: 2888, col: 11, offset: 91453},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2888, col: 12, offset: 91464},
+															pos: position{line: 2888, col: 12, offset: 91454},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2888, col: 12, offset: 91464},
+																	pos:        position{line: 2888, col: 12, offset: 91454},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 24, offset: 91476},
+																	pos:        position{line: 2888, col: 24, offset: 91466},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 37, offset: 91489},
+																	pos:        position{line: 2888, col: 37, offset: 91479},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 48, offset: 91500},
+																	pos:        position{line: 2888, col: 48, offset: 91490},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 59, offset: 91511},
+																	pos:        position{line: 2888, col: 59, offset: 91501},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23778,38 +23778,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2884, col: 44, offset: 91365},
+													pos:   position{line: 2884, col: 44, offset: 91355},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2893, col: 5, offset: 91575},
+														pos: position{line: 2893, col: 5, offset: 91565},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2893, col: 5, offset: 91575},
+															pos:   position{line: 2893, col: 5, offset: 91565},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2893, col: 14, offset: 91584},
+																pos: position{line: 2893, col: 14, offset: 91574},
 																expr: &choiceExpr{
-																	pos: position{line: 2894, col: 9, offset: 91594},
+																	pos: position{line: 2894, col: 9, offset: 91584},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2894, col: 9, offset: 91594},
+																			pos: position{line: 2894, col: 9, offset: 91584},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2894, col: 9, offset: 91594},
+																				pos: position{line: 2894, col: 9, offset: 91584},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2894, col: 9, offset: 91594},
+																						pos: position{line: 2894, col: 9, offset: 91584},
 																						expr: &litMatcher{
-																							pos:        position{line: 2894, col: 10, offset: 91595},
+																							pos:        position{line: 2894, col: 10, offset: 91585},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2895, col: 9, offset: 91623},
+																						pos: position{line: 2895, col: 9, offset: 91613},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2895, col: 10, offset: 91624},
+																							pos:        position{line: 2895, col: 10, offset: 91614},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23820,27 +23820,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2898, col: 11, offset: 91836},
+																			pos: position{line: 2898, col: 11, offset: 91826},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2898, col: 11, offset: 91836},
+																					pos:        position{line: 2898, col: 11, offset: 91826},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2898, col: 19, offset: 91844},
+																					pos: position{line: 2898, col: 19, offset: 91834},
 																					expr: &seqExpr{
-																						pos: position{line: 2898, col: 21, offset: 91846},
+																						pos: position{line: 2898, col: 21, offset: 91836},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2898, col: 21, offset: 91846},
+																								pos: position{line: 2898, col: 21, offset: 91836},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92458},
+																									pos: position{line: 2922, col: 10, offset: 92448},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92458},
+																										pos:        position{line: 2922, col: 10, offset: 92448},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23849,11 +23849,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2898, col: 28, offset: 91853},
+																								pos: position{line: 2898, col: 28, offset: 91843},
 																								expr: &notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -24252,10 +24252,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2901, col: 11, offset: 91973},
+																			pos: position{line: 2901, col: 11, offset: 91963},
 																			run: (*parser).callonExternalLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 11, offset: 91973},
+																				pos:        position{line: 2901, col: 11, offset: 91963},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24272,12 +24272,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1449, col: 34, offset: 47014},
+									pos:   position{line: 1449, col: 34, offset: 47004},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1449, col: 45, offset: 47025},
+										pos: position{line: 1449, col: 45, offset: 47015},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1449, col: 46, offset: 47026},
+											pos:  position{line: 1449, col: 46, offset: 47016},
 											name: "InlineAttributes",
 										},
 									},
@@ -24286,64 +24286,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1454, col: 5, offset: 47159},
+						pos: position{line: 1454, col: 5, offset: 47149},
 						run: (*parser).callonExternalLink122,
 						expr: &seqExpr{
-							pos: position{line: 1454, col: 5, offset: 47159},
+							pos: position{line: 1454, col: 5, offset: 47149},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1454, col: 5, offset: 47159},
+									pos:   position{line: 1454, col: 5, offset: 47149},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2884, col: 23, offset: 91344},
+										pos: position{line: 2884, col: 23, offset: 91334},
 										run: (*parser).callonExternalLink125,
 										expr: &seqExpr{
-											pos: position{line: 2884, col: 23, offset: 91344},
+											pos: position{line: 2884, col: 23, offset: 91334},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2884, col: 23, offset: 91344},
+													pos: position{line: 2884, col: 23, offset: 91334},
 													expr: &litMatcher{
-														pos:        position{line: 2884, col: 24, offset: 91345},
+														pos:        position{line: 2884, col: 24, offset: 91335},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2884, col: 28, offset: 91349},
+													pos:   position{line: 2884, col: 28, offset: 91339},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 11, offset: 91463},
+														pos: position{line: 2888, col: 11, offset: 91453},
 														run: (*parser).callonExternalLink130,
 														expr: &choiceExpr{
-															pos: position{line: 2888, col: 12, offset: 91464},
+															pos: position{line: 2888, col: 12, offset: 91454},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2888, col: 12, offset: 91464},
+																	pos:        position{line: 2888, col: 12, offset: 91454},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 24, offset: 91476},
+																	pos:        position{line: 2888, col: 24, offset: 91466},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 37, offset: 91489},
+																	pos:        position{line: 2888, col: 37, offset: 91479},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 48, offset: 91500},
+																	pos:        position{line: 2888, col: 48, offset: 91490},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 59, offset: 91511},
+																	pos:        position{line: 2888, col: 59, offset: 91501},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24353,38 +24353,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2884, col: 44, offset: 91365},
+													pos:   position{line: 2884, col: 44, offset: 91355},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2893, col: 5, offset: 91575},
+														pos: position{line: 2893, col: 5, offset: 91565},
 														run: (*parser).callonExternalLink138,
 														expr: &labeledExpr{
-															pos:   position{line: 2893, col: 5, offset: 91575},
+															pos:   position{line: 2893, col: 5, offset: 91565},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2893, col: 14, offset: 91584},
+																pos: position{line: 2893, col: 14, offset: 91574},
 																expr: &choiceExpr{
-																	pos: position{line: 2894, col: 9, offset: 91594},
+																	pos: position{line: 2894, col: 9, offset: 91584},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2894, col: 9, offset: 91594},
+																			pos: position{line: 2894, col: 9, offset: 91584},
 																			run: (*parser).callonExternalLink142,
 																			expr: &seqExpr{
-																				pos: position{line: 2894, col: 9, offset: 91594},
+																				pos: position{line: 2894, col: 9, offset: 91584},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2894, col: 9, offset: 91594},
+																						pos: position{line: 2894, col: 9, offset: 91584},
 																						expr: &litMatcher{
-																							pos:        position{line: 2894, col: 10, offset: 91595},
+																							pos:        position{line: 2894, col: 10, offset: 91585},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2895, col: 9, offset: 91623},
+																						pos: position{line: 2895, col: 9, offset: 91613},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2895, col: 10, offset: 91624},
+																							pos:        position{line: 2895, col: 10, offset: 91614},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24395,27 +24395,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2898, col: 11, offset: 91836},
+																			pos: position{line: 2898, col: 11, offset: 91826},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2898, col: 11, offset: 91836},
+																					pos:        position{line: 2898, col: 11, offset: 91826},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2898, col: 19, offset: 91844},
+																					pos: position{line: 2898, col: 19, offset: 91834},
 																					expr: &seqExpr{
-																						pos: position{line: 2898, col: 21, offset: 91846},
+																						pos: position{line: 2898, col: 21, offset: 91836},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2898, col: 21, offset: 91846},
+																								pos: position{line: 2898, col: 21, offset: 91836},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92458},
+																									pos: position{line: 2922, col: 10, offset: 92448},
 																									run: (*parser).callonExternalLink153,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92458},
+																										pos:        position{line: 2922, col: 10, offset: 92448},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24424,11 +24424,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2898, col: 28, offset: 91853},
+																								pos: position{line: 2898, col: 28, offset: 91843},
 																								expr: &notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -24827,10 +24827,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2901, col: 11, offset: 91973},
+																			pos: position{line: 2901, col: 11, offset: 91963},
 																			run: (*parser).callonExternalLink236,
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 11, offset: 91973},
+																				pos:        position{line: 2901, col: 11, offset: 91963},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24847,12 +24847,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1454, col: 30, offset: 47184},
+									pos:   position{line: 1454, col: 30, offset: 47174},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1454, col: 41, offset: 47195},
+										pos: position{line: 1454, col: 41, offset: 47185},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1454, col: 42, offset: 47196},
+											pos:  position{line: 1454, col: 42, offset: 47186},
 											name: "InlineAttributes",
 										},
 									},
@@ -24865,41 +24865,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1488, col: 1, offset: 48337},
+			pos:  position{line: 1488, col: 1, offset: 48327},
 			expr: &actionExpr{
-				pos: position{line: 1489, col: 5, offset: 48358},
+				pos: position{line: 1489, col: 5, offset: 48348},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1489, col: 5, offset: 48358},
+					pos: position{line: 1489, col: 5, offset: 48348},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1489, col: 5, offset: 48358},
+							pos:   position{line: 1489, col: 5, offset: 48348},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1495, col: 5, offset: 48560},
+								pos: position{line: 1495, col: 5, offset: 48550},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1589, col: 5, offset: 51528},
+										pos: position{line: 1589, col: 5, offset: 51518},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1589, col: 5, offset: 51528},
+											pos: position{line: 1589, col: 5, offset: 51518},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1589, col: 5, offset: 51528},
+													pos:   position{line: 1589, col: 5, offset: 51518},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1596, col: 5, offset: 51736},
+														pos: position{line: 1596, col: 5, offset: 51726},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1596, col: 5, offset: 51736},
+															pos: position{line: 1596, col: 5, offset: 51726},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1596, col: 5, offset: 51736},
+																	pos: position{line: 1596, col: 5, offset: 51726},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92458},
+																		pos: position{line: 2922, col: 10, offset: 92448},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92458},
+																			pos:        position{line: 2922, col: 10, offset: 92448},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24908,27 +24908,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1596, col: 12, offset: 51743},
+																	pos:   position{line: 1596, col: 12, offset: 51733},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1598, col: 9, offset: 51806},
+																		pos: position{line: 1598, col: 9, offset: 51796},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1598, col: 9, offset: 51806},
+																				pos: position{line: 1598, col: 9, offset: 51796},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1598, col: 9, offset: 51806},
+																					pos: position{line: 1598, col: 9, offset: 51796},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1598, col: 9, offset: 51806},
+																							pos:   position{line: 1598, col: 9, offset: 51796},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1598, col: 16, offset: 51813},
+																								pos: position{line: 1598, col: 16, offset: 51803},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1598, col: 16, offset: 51813},
+																									pos: position{line: 1598, col: 16, offset: 51803},
 																									expr: &litMatcher{
-																										pos:        position{line: 1598, col: 17, offset: 51814},
+																										pos:        position{line: 1598, col: 17, offset: 51804},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24937,22 +24937,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1602, col: 9, offset: 51914},
+																							pos: position{line: 1602, col: 9, offset: 51904},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 11, offset: 52631},
+																				pos: position{line: 1621, col: 11, offset: 52621},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 11, offset: 52631},
+																					pos: position{line: 1621, col: 11, offset: 52621},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1621, col: 11, offset: 52631},
+																							pos: position{line: 1621, col: 11, offset: 52621},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1621, col: 12, offset: 52632},
+																								pos:        position{line: 1621, col: 12, offset: 52622},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24960,7 +24960,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 20, offset: 52640},
+																							pos:        position{line: 1621, col: 20, offset: 52630},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24969,20 +24969,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1623, col: 13, offset: 52757},
+																				pos: position{line: 1623, col: 13, offset: 52747},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1623, col: 13, offset: 52757},
+																					pos: position{line: 1623, col: 13, offset: 52747},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1623, col: 14, offset: 52758},
+																							pos:        position{line: 1623, col: 14, offset: 52748},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1623, col: 21, offset: 52765},
+																							pos:        position{line: 1623, col: 21, offset: 52755},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24991,20 +24991,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1625, col: 13, offset: 52885},
+																				pos: position{line: 1625, col: 13, offset: 52875},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1625, col: 13, offset: 52885},
+																					pos: position{line: 1625, col: 13, offset: 52875},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1625, col: 14, offset: 52886},
+																							pos:        position{line: 1625, col: 14, offset: 52876},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1625, col: 21, offset: 52893},
+																							pos:        position{line: 1625, col: 21, offset: 52883},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25013,15 +25013,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1627, col: 13, offset: 53013},
+																				pos: position{line: 1627, col: 13, offset: 53003},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1627, col: 13, offset: 53013},
+																					pos: position{line: 1627, col: 13, offset: 53003},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1627, col: 13, offset: 53013},
+																							pos: position{line: 1627, col: 13, offset: 53003},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1627, col: 14, offset: 53014},
+																								pos:        position{line: 1627, col: 14, offset: 53004},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -25029,7 +25029,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1627, col: 26, offset: 53026},
+																							pos:        position{line: 1627, col: 26, offset: 53016},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25038,15 +25038,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1629, col: 13, offset: 53146},
+																				pos: position{line: 1629, col: 13, offset: 53136},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1629, col: 13, offset: 53146},
+																					pos: position{line: 1629, col: 13, offset: 53136},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1629, col: 13, offset: 53146},
+																							pos: position{line: 1629, col: 13, offset: 53136},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1629, col: 14, offset: 53147},
+																								pos:        position{line: 1629, col: 14, offset: 53137},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -25054,7 +25054,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1629, col: 26, offset: 53159},
+																							pos:        position{line: 1629, col: 26, offset: 53149},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25066,12 +25066,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92519},
+																	pos: position{line: 2926, col: 11, offset: 92509},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92519},
+																		pos: position{line: 2926, col: 11, offset: 92509},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92519},
+																			pos:        position{line: 2926, col: 11, offset: 92509},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25084,26 +25084,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1590, col: 5, offset: 51567},
+													pos:   position{line: 1590, col: 5, offset: 51557},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1536, col: 5, offset: 50000},
+														pos: position{line: 1536, col: 5, offset: 49990},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1536, col: 5, offset: 50000},
+															pos: position{line: 1536, col: 5, offset: 49990},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1536, col: 5, offset: 50000},
+																	pos:   position{line: 1536, col: 5, offset: 49990},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1536, col: 14, offset: 50009},
+																		pos: position{line: 1536, col: 14, offset: 49999},
 																		expr: &actionExpr{
-																			pos: position{line: 1536, col: 15, offset: 50010},
+																			pos: position{line: 1536, col: 15, offset: 50000},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1536, col: 15, offset: 50010},
+																				pos: position{line: 1536, col: 15, offset: 50000},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1536, col: 15, offset: 50010},
+																					pos:        position{line: 1536, col: 15, offset: 50000},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25114,28 +25114,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92856},
+																	pos: position{line: 2944, col: 8, offset: 92846},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92629},
+																			pos: position{line: 2931, col: 12, offset: 92619},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92630},
+																				pos: position{line: 2931, col: 13, offset: 92620},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92630},
+																						pos:        position{line: 2931, col: 13, offset: 92620},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92637},
+																						pos:        position{line: 2931, col: 20, offset: 92627},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92646},
+																						pos:        position{line: 2931, col: 29, offset: 92636},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25144,9 +25144,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92806},
+																			pos: position{line: 2941, col: 8, offset: 92796},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92807,
+																				line: 2941, col: 9, offset: 92797,
 																			},
 																		},
 																	},
@@ -25159,27 +25159,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1639, col: 5, offset: 53425},
+										pos: position{line: 1639, col: 5, offset: 53415},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1639, col: 5, offset: 53425},
+											pos: position{line: 1639, col: 5, offset: 53415},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1639, col: 5, offset: 53425},
+													pos:   position{line: 1639, col: 5, offset: 53415},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1646, col: 5, offset: 53698},
+														pos: position{line: 1646, col: 5, offset: 53688},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1646, col: 5, offset: 53698},
+															pos: position{line: 1646, col: 5, offset: 53688},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1646, col: 5, offset: 53698},
+																	pos: position{line: 1646, col: 5, offset: 53688},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92458},
+																		pos: position{line: 2922, col: 10, offset: 92448},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92458},
+																			pos:        position{line: 2922, col: 10, offset: 92448},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25188,24 +25188,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1647, col: 5, offset: 53710},
+																	pos:   position{line: 1647, col: 5, offset: 53700},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1648, col: 9, offset: 53726},
+																		pos: position{line: 1648, col: 9, offset: 53716},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1648, col: 10, offset: 53727},
+																			pos: position{line: 1648, col: 10, offset: 53717},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1648, col: 11, offset: 53728},
+																					pos:        position{line: 1648, col: 11, offset: 53718},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1648, col: 18, offset: 53735},
+																					pos: position{line: 1648, col: 18, offset: 53725},
 																					expr: &litMatcher{
-																						pos:        position{line: 1648, col: 19, offset: 53736},
+																						pos:        position{line: 1648, col: 19, offset: 53726},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -25216,16 +25216,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1651, col: 7, offset: 53826},
+																	pos: position{line: 1651, col: 7, offset: 53816},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92519},
+																	pos: position{line: 2926, col: 11, offset: 92509},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92519},
+																		pos: position{line: 2926, col: 11, offset: 92509},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92519},
+																			pos:        position{line: 2926, col: 11, offset: 92509},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25238,56 +25238,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1640, col: 5, offset: 53466},
+													pos:   position{line: 1640, col: 5, offset: 53456},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1640, col: 16, offset: 53477},
+														pos: position{line: 1640, col: 16, offset: 53467},
 														expr: &actionExpr{
-															pos: position{line: 1661, col: 5, offset: 54091},
+															pos: position{line: 1661, col: 5, offset: 54081},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1661, col: 5, offset: 54091},
+																pos: position{line: 1661, col: 5, offset: 54081},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1661, col: 5, offset: 54091},
+																		pos: position{line: 1661, col: 5, offset: 54081},
 																		expr: &litMatcher{
-																			pos:        position{line: 1661, col: 6, offset: 54092},
+																			pos:        position{line: 1661, col: 6, offset: 54082},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1661, col: 10, offset: 54096},
+																		pos:   position{line: 1661, col: 10, offset: 54086},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1662, col: 7, offset: 54110},
+																			pos: position{line: 1662, col: 7, offset: 54100},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1662, col: 7, offset: 54110},
+																					pos: position{line: 1662, col: 7, offset: 54100},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1662, col: 7, offset: 54110},
+																						pos:        position{line: 1662, col: 7, offset: 54100},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1663, col: 7, offset: 54155},
+																					pos: position{line: 1663, col: 7, offset: 54145},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1663, col: 7, offset: 54155},
+																						pos:        position{line: 1663, col: 7, offset: 54145},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1664, col: 7, offset: 54198},
+																					pos: position{line: 1664, col: 7, offset: 54188},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1664, col: 7, offset: 54198},
+																						pos:        position{line: 1664, col: 7, offset: 54188},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -25297,12 +25297,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2926, col: 11, offset: 92519},
+																		pos: position{line: 2926, col: 11, offset: 92509},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2926, col: 11, offset: 92519},
+																			pos: position{line: 2926, col: 11, offset: 92509},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2926, col: 11, offset: 92519},
+																				pos:        position{line: 2926, col: 11, offset: 92509},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25316,26 +25316,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1641, col: 5, offset: 53516},
+													pos:   position{line: 1641, col: 5, offset: 53506},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1536, col: 5, offset: 50000},
+														pos: position{line: 1536, col: 5, offset: 49990},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1536, col: 5, offset: 50000},
+															pos: position{line: 1536, col: 5, offset: 49990},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1536, col: 5, offset: 50000},
+																	pos:   position{line: 1536, col: 5, offset: 49990},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1536, col: 14, offset: 50009},
+																		pos: position{line: 1536, col: 14, offset: 49999},
 																		expr: &actionExpr{
-																			pos: position{line: 1536, col: 15, offset: 50010},
+																			pos: position{line: 1536, col: 15, offset: 50000},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1536, col: 15, offset: 50010},
+																				pos: position{line: 1536, col: 15, offset: 50000},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1536, col: 15, offset: 50010},
+																					pos:        position{line: 1536, col: 15, offset: 50000},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25346,28 +25346,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92856},
+																	pos: position{line: 2944, col: 8, offset: 92846},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92629},
+																			pos: position{line: 2931, col: 12, offset: 92619},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92630},
+																				pos: position{line: 2931, col: 13, offset: 92620},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92630},
+																						pos:        position{line: 2931, col: 13, offset: 92620},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92637},
+																						pos:        position{line: 2931, col: 20, offset: 92627},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92646},
+																						pos:        position{line: 2931, col: 29, offset: 92636},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25376,9 +25376,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92806},
+																			pos: position{line: 2941, col: 8, offset: 92796},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92807,
+																				line: 2941, col: 9, offset: 92797,
 																			},
 																		},
 																	},
@@ -25391,36 +25391,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1730, col: 5, offset: 56070},
+										pos: position{line: 1730, col: 5, offset: 56060},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1730, col: 5, offset: 56070},
+											pos: position{line: 1730, col: 5, offset: 56060},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1730, col: 5, offset: 56070},
+													pos:   position{line: 1730, col: 5, offset: 56060},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1736, col: 5, offset: 56267},
+														pos: position{line: 1736, col: 5, offset: 56257},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1736, col: 5, offset: 56267},
+															pos: position{line: 1736, col: 5, offset: 56257},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1736, col: 5, offset: 56267},
+																	pos:        position{line: 1736, col: 5, offset: 56257},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1736, col: 9, offset: 56271},
+																	pos:   position{line: 1736, col: 9, offset: 56261},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1736, col: 14, offset: 56276},
+																		pos: position{line: 1736, col: 14, offset: 56266},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1736, col: 14, offset: 56276},
+																			pos: position{line: 1736, col: 14, offset: 56266},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1736, col: 14, offset: 56276},
+																				pos:        position{line: 1736, col: 14, offset: 56266},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25430,18 +25430,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1736, col: 62, offset: 56324},
+																	pos:        position{line: 1736, col: 62, offset: 56314},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92519},
+																	pos: position{line: 2926, col: 11, offset: 92509},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92519},
+																		pos: position{line: 2926, col: 11, offset: 92509},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92519},
+																			pos:        position{line: 2926, col: 11, offset: 92509},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25454,26 +25454,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1731, col: 5, offset: 56106},
+													pos:   position{line: 1731, col: 5, offset: 56096},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1536, col: 5, offset: 50000},
+														pos: position{line: 1536, col: 5, offset: 49990},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1536, col: 5, offset: 50000},
+															pos: position{line: 1536, col: 5, offset: 49990},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1536, col: 5, offset: 50000},
+																	pos:   position{line: 1536, col: 5, offset: 49990},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1536, col: 14, offset: 50009},
+																		pos: position{line: 1536, col: 14, offset: 49999},
 																		expr: &actionExpr{
-																			pos: position{line: 1536, col: 15, offset: 50010},
+																			pos: position{line: 1536, col: 15, offset: 50000},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1536, col: 15, offset: 50010},
+																				pos: position{line: 1536, col: 15, offset: 50000},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1536, col: 15, offset: 50010},
+																					pos:        position{line: 1536, col: 15, offset: 50000},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25484,28 +25484,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92856},
+																	pos: position{line: 2944, col: 8, offset: 92846},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92629},
+																			pos: position{line: 2931, col: 12, offset: 92619},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92630},
+																				pos: position{line: 2931, col: 13, offset: 92620},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92630},
+																						pos:        position{line: 2931, col: 13, offset: 92620},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92637},
+																						pos:        position{line: 2931, col: 20, offset: 92627},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92646},
+																						pos:        position{line: 2931, col: 29, offset: 92636},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25514,9 +25514,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92806},
+																			pos: position{line: 2941, col: 8, offset: 92796},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92807,
+																				line: 2941, col: 9, offset: 92797,
 																			},
 																		},
 																	},
@@ -25529,35 +25529,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1673, col: 5, offset: 54391},
+										pos: position{line: 1673, col: 5, offset: 54381},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1673, col: 5, offset: 54391},
+											pos: position{line: 1673, col: 5, offset: 54381},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1673, col: 5, offset: 54391},
+													pos:   position{line: 1673, col: 5, offset: 54381},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1681, col: 5, offset: 54717},
+														pos: position{line: 1681, col: 5, offset: 54707},
 														run: (*parser).callonListElements148,
 														expr: &seqExpr{
-															pos: position{line: 1681, col: 5, offset: 54717},
+															pos: position{line: 1681, col: 5, offset: 54707},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1681, col: 5, offset: 54717},
+																	pos: position{line: 1681, col: 5, offset: 54707},
 																	expr: &seqExpr{
-																		pos: position{line: 2530, col: 31, offset: 81486},
+																		pos: position{line: 2530, col: 31, offset: 81476},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2530, col: 31, offset: 81486},
+																				pos:        position{line: 2530, col: 31, offset: 81476},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2530, col: 36, offset: 81491},
+																				pos: position{line: 2530, col: 36, offset: 81481},
 																				expr: &litMatcher{
-																					pos:        position{line: 2530, col: 37, offset: 81492},
+																					pos:        position{line: 2530, col: 37, offset: 81482},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -25567,28 +25567,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1682, col: 5, offset: 54749},
+																	pos: position{line: 1682, col: 5, offset: 54739},
 																	expr: &seqExpr{
-																		pos: position{line: 1682, col: 6, offset: 54750},
+																		pos: position{line: 1682, col: 6, offset: 54740},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1682, col: 6, offset: 54750},
+																				pos: position{line: 1682, col: 6, offset: 54740},
 																				expr: &actionExpr{
-																					pos: position{line: 1687, col: 5, offset: 54900},
+																					pos: position{line: 1687, col: 5, offset: 54890},
 																					run: (*parser).callonListElements158,
 																					expr: &seqExpr{
-																						pos: position{line: 1687, col: 5, offset: 54900},
+																						pos: position{line: 1687, col: 5, offset: 54890},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1687, col: 5, offset: 54900},
+																								pos:   position{line: 1687, col: 5, offset: 54890},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1687, col: 16, offset: 54911},
+																									pos: position{line: 1687, col: 16, offset: 54901},
 																									run: (*parser).callonListElements161,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1687, col: 16, offset: 54911},
+																										pos: position{line: 1687, col: 16, offset: 54901},
 																										expr: &litMatcher{
-																											pos:        position{line: 1687, col: 17, offset: 54912},
+																											pos:        position{line: 1687, col: 17, offset: 54902},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -25597,7 +25597,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1690, col: 5, offset: 54969},
+																								pos: position{line: 1690, col: 5, offset: 54959},
 																								run: (*parser).callonListElements164,
 																							},
 																						},
@@ -25605,30 +25605,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1682, col: 35, offset: 54779},
+																				pos: position{line: 1682, col: 35, offset: 54769},
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92856},
+																					pos: position{line: 2944, col: 8, offset: 92846},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92629},
+																							pos: position{line: 2931, col: 12, offset: 92619},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92630},
+																								pos: position{line: 2931, col: 13, offset: 92620},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92630},
+																										pos:        position{line: 2931, col: 13, offset: 92620},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92637},
+																										pos:        position{line: 2931, col: 20, offset: 92627},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92646},
+																										pos:        position{line: 2931, col: 29, offset: 92636},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25637,16 +25637,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92806},
+																							pos: position{line: 2941, col: 8, offset: 92796},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92807,
+																								line: 2941, col: 9, offset: 92797,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1682, col: 40, offset: 54784,
+																				line: 1682, col: 40, offset: 54774,
 																			},
 																		},
 																	},
@@ -25656,24 +25656,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1674, col: 5, offset: 54426},
+													pos:   position{line: 1674, col: 5, offset: 54416},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1687, col: 5, offset: 54900},
+														pos: position{line: 1687, col: 5, offset: 54890},
 														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1687, col: 5, offset: 54900},
+															pos: position{line: 1687, col: 5, offset: 54890},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1687, col: 5, offset: 54900},
+																	pos:   position{line: 1687, col: 5, offset: 54890},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1687, col: 16, offset: 54911},
+																		pos: position{line: 1687, col: 16, offset: 54901},
 																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1687, col: 16, offset: 54911},
+																			pos: position{line: 1687, col: 16, offset: 54901},
 																			expr: &litMatcher{
-																				pos:        position{line: 1687, col: 17, offset: 54912},
+																				pos:        position{line: 1687, col: 17, offset: 54902},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25682,7 +25682,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1690, col: 5, offset: 54969},
+																	pos: position{line: 1690, col: 5, offset: 54959},
 																	run: (*parser).callonListElements182,
 																},
 															},
@@ -25690,24 +25690,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1675, col: 5, offset: 54471},
+													pos:   position{line: 1675, col: 5, offset: 54461},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1698, col: 5, offset: 55218},
+														pos: position{line: 1698, col: 5, offset: 55208},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1700, col: 9, offset: 55284},
+																pos: position{line: 1700, col: 9, offset: 55274},
 																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1700, col: 9, offset: 55284},
+																	pos: position{line: 1700, col: 9, offset: 55274},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1700, col: 9, offset: 55284},
+																			pos: position{line: 1700, col: 9, offset: 55274},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92458},
+																				pos: position{line: 2922, col: 10, offset: 92448},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92458},
+																					pos:        position{line: 2922, col: 10, offset: 92448},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25716,28 +25716,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92856},
+																			pos: position{line: 2944, col: 8, offset: 92846},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92629},
+																					pos: position{line: 2931, col: 12, offset: 92619},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92630},
+																						pos: position{line: 2931, col: 13, offset: 92620},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92630},
+																								pos:        position{line: 2931, col: 13, offset: 92620},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92637},
+																								pos:        position{line: 2931, col: 20, offset: 92627},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92646},
+																								pos:        position{line: 2931, col: 29, offset: 92636},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25746,15 +25746,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1701, col: 9, offset: 55303},
+																			pos: position{line: 1701, col: 9, offset: 55293},
 																			expr: &actionExpr{
 																				pos: position{line: 690, col: 14, offset: 22173},
 																				run: (*parser).callonListElements199,
@@ -25762,18 +25762,18 @@ var g = &grammar{
 																					pos: position{line: 690, col: 14, offset: 22173},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92792},
+																							pos: position{line: 2939, col: 11, offset: 92782},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92794,
+																								line: 2939, col: 13, offset: 92784,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 690, col: 21, offset: 22180},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92458},
+																								pos: position{line: 2922, col: 10, offset: 92448},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92458},
+																									pos:        position{line: 2922, col: 10, offset: 92448},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25782,28 +25782,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25812,9 +25812,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -25827,18 +25827,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1707, col: 9, offset: 55432},
+																pos: position{line: 1707, col: 9, offset: 55422},
 																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1707, col: 9, offset: 55432},
+																	pos: position{line: 1707, col: 9, offset: 55422},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2926, col: 11, offset: 92519},
+																			pos: position{line: 2926, col: 11, offset: 92509},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2926, col: 11, offset: 92519},
+																				pos: position{line: 2926, col: 11, offset: 92509},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2926, col: 11, offset: 92519},
+																					pos:        position{line: 2926, col: 11, offset: 92509},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25847,15 +25847,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1708, col: 9, offset: 55505},
+																			pos:   position{line: 1708, col: 9, offset: 55495},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1708, col: 18, offset: 55514},
+																				pos: position{line: 1708, col: 18, offset: 55504},
 																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1708, col: 18, offset: 55514},
+																					pos: position{line: 1708, col: 18, offset: 55504},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1708, col: 18, offset: 55514},
+																						pos:        position{line: 1708, col: 18, offset: 55504},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25865,28 +25865,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92856},
+																			pos: position{line: 2944, col: 8, offset: 92846},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92629},
+																					pos: position{line: 2931, col: 12, offset: 92619},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92630},
+																						pos: position{line: 2931, col: 13, offset: 92620},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92630},
+																								pos:        position{line: 2931, col: 13, offset: 92620},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92637},
+																								pos:        position{line: 2931, col: 20, offset: 92627},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92646},
+																								pos:        position{line: 2931, col: 29, offset: 92636},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25895,9 +25895,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -25915,10 +25915,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1490, col: 5, offset: 48389},
+							pos:   position{line: 1490, col: 5, offset: 48379},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1490, col: 20, offset: 48404},
+								pos:  position{line: 1490, col: 20, offset: 48394},
 								name: "ExtraListElements",
 							},
 						},
@@ -25928,17 +25928,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1500, col: 1, offset: 48659},
+			pos:  position{line: 1500, col: 1, offset: 48649},
 			expr: &actionExpr{
-				pos: position{line: 1500, col: 22, offset: 48680},
+				pos: position{line: 1500, col: 22, offset: 48670},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1500, col: 22, offset: 48680},
+					pos:   position{line: 1500, col: 22, offset: 48670},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1500, col: 31, offset: 48689},
+						pos: position{line: 1500, col: 31, offset: 48679},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1500, col: 32, offset: 48690},
+							pos:  position{line: 1500, col: 32, offset: 48680},
 							name: "ExtraListElement",
 						},
 					},
@@ -25947,33 +25947,33 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1504, col: 1, offset: 48770},
+			pos:  position{line: 1504, col: 1, offset: 48760},
 			expr: &actionExpr{
-				pos: position{line: 1505, col: 5, offset: 48909},
+				pos: position{line: 1505, col: 5, offset: 48899},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1505, col: 5, offset: 48909},
+					pos: position{line: 1505, col: 5, offset: 48899},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92792},
+							pos: position{line: 2939, col: 11, offset: 92782},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92794,
+								line: 2939, col: 13, offset: 92784,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1506, col: 5, offset: 48921},
+							pos:   position{line: 1506, col: 5, offset: 48911},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1507, col: 9, offset: 48939},
+								pos: position{line: 1507, col: 9, offset: 48929},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1507, col: 13, offset: 48943},
+										pos: position{line: 1507, col: 13, offset: 48933},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1507, col: 13, offset: 48943},
+											pos: position{line: 1507, col: 13, offset: 48933},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1507, col: 13, offset: 48943},
+													pos: position{line: 1507, col: 13, offset: 48933},
 													expr: &actionExpr{
 														pos: position{line: 690, col: 14, offset: 22173},
 														run: (*parser).callonExtraListElement10,
@@ -25981,18 +25981,18 @@ var g = &grammar{
 															pos: position{line: 690, col: 14, offset: 22173},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2939, col: 11, offset: 92792},
+																	pos: position{line: 2939, col: 11, offset: 92782},
 																	expr: &anyMatcher{
-																		line: 2939, col: 13, offset: 92794,
+																		line: 2939, col: 13, offset: 92784,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 690, col: 21, offset: 22180},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92458},
+																		pos: position{line: 2922, col: 10, offset: 92448},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92458},
+																			pos:        position{line: 2922, col: 10, offset: 92448},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26001,28 +26001,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92856},
+																	pos: position{line: 2944, col: 8, offset: 92846},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92629},
+																			pos: position{line: 2931, col: 12, offset: 92619},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92630},
+																				pos: position{line: 2931, col: 13, offset: 92620},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92630},
+																						pos:        position{line: 2931, col: 13, offset: 92620},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92637},
+																						pos:        position{line: 2931, col: 20, offset: 92627},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92646},
+																						pos:        position{line: 2931, col: 29, offset: 92636},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26031,9 +26031,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92806},
+																			pos: position{line: 2941, col: 8, offset: 92796},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92807,
+																				line: 2941, col: 9, offset: 92797,
 																			},
 																		},
 																	},
@@ -26043,33 +26043,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1508, col: 13, offset: 48967},
+													pos:   position{line: 1508, col: 13, offset: 48957},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1508, col: 22, offset: 48976},
+														pos: position{line: 1508, col: 22, offset: 48966},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1589, col: 5, offset: 51528},
+																pos: position{line: 1589, col: 5, offset: 51518},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1589, col: 5, offset: 51528},
+																	pos: position{line: 1589, col: 5, offset: 51518},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1589, col: 5, offset: 51528},
+																			pos:   position{line: 1589, col: 5, offset: 51518},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1596, col: 5, offset: 51736},
+																				pos: position{line: 1596, col: 5, offset: 51726},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1596, col: 5, offset: 51736},
+																					pos: position{line: 1596, col: 5, offset: 51726},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1596, col: 5, offset: 51736},
+																							pos: position{line: 1596, col: 5, offset: 51726},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92458},
+																								pos: position{line: 2922, col: 10, offset: 92448},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92458},
+																									pos:        position{line: 2922, col: 10, offset: 92448},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26078,27 +26078,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1596, col: 12, offset: 51743},
+																							pos:   position{line: 1596, col: 12, offset: 51733},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1598, col: 9, offset: 51806},
+																								pos: position{line: 1598, col: 9, offset: 51796},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1598, col: 9, offset: 51806},
+																										pos: position{line: 1598, col: 9, offset: 51796},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1598, col: 9, offset: 51806},
+																											pos: position{line: 1598, col: 9, offset: 51796},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1598, col: 9, offset: 51806},
+																													pos:   position{line: 1598, col: 9, offset: 51796},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1598, col: 16, offset: 51813},
+																														pos: position{line: 1598, col: 16, offset: 51803},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1598, col: 16, offset: 51813},
+																															pos: position{line: 1598, col: 16, offset: 51803},
 																															expr: &litMatcher{
-																																pos:        position{line: 1598, col: 17, offset: 51814},
+																																pos:        position{line: 1598, col: 17, offset: 51804},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26107,22 +26107,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1602, col: 9, offset: 51914},
+																													pos: position{line: 1602, col: 9, offset: 51904},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1621, col: 11, offset: 52631},
+																										pos: position{line: 1621, col: 11, offset: 52621},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1621, col: 11, offset: 52631},
+																											pos: position{line: 1621, col: 11, offset: 52621},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1621, col: 11, offset: 52631},
+																													pos: position{line: 1621, col: 11, offset: 52621},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1621, col: 12, offset: 52632},
+																														pos:        position{line: 1621, col: 12, offset: 52622},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26130,7 +26130,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1621, col: 20, offset: 52640},
+																													pos:        position{line: 1621, col: 20, offset: 52630},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26139,20 +26139,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1623, col: 13, offset: 52757},
+																										pos: position{line: 1623, col: 13, offset: 52747},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1623, col: 13, offset: 52757},
+																											pos: position{line: 1623, col: 13, offset: 52747},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1623, col: 14, offset: 52758},
+																													pos:        position{line: 1623, col: 14, offset: 52748},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1623, col: 21, offset: 52765},
+																													pos:        position{line: 1623, col: 21, offset: 52755},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26161,20 +26161,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1625, col: 13, offset: 52885},
+																										pos: position{line: 1625, col: 13, offset: 52875},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1625, col: 13, offset: 52885},
+																											pos: position{line: 1625, col: 13, offset: 52875},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1625, col: 14, offset: 52886},
+																													pos:        position{line: 1625, col: 14, offset: 52876},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1625, col: 21, offset: 52893},
+																													pos:        position{line: 1625, col: 21, offset: 52883},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26183,15 +26183,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1627, col: 13, offset: 53013},
+																										pos: position{line: 1627, col: 13, offset: 53003},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1627, col: 13, offset: 53013},
+																											pos: position{line: 1627, col: 13, offset: 53003},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1627, col: 13, offset: 53013},
+																													pos: position{line: 1627, col: 13, offset: 53003},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1627, col: 14, offset: 53014},
+																														pos:        position{line: 1627, col: 14, offset: 53004},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26199,7 +26199,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1627, col: 26, offset: 53026},
+																													pos:        position{line: 1627, col: 26, offset: 53016},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26208,15 +26208,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1629, col: 13, offset: 53146},
+																										pos: position{line: 1629, col: 13, offset: 53136},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1629, col: 13, offset: 53146},
+																											pos: position{line: 1629, col: 13, offset: 53136},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1629, col: 13, offset: 53146},
+																													pos: position{line: 1629, col: 13, offset: 53136},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1629, col: 14, offset: 53147},
+																														pos:        position{line: 1629, col: 14, offset: 53137},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26224,7 +26224,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1629, col: 26, offset: 53159},
+																													pos:        position{line: 1629, col: 26, offset: 53149},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26236,12 +26236,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92519},
+																							pos: position{line: 2926, col: 11, offset: 92509},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92519},
+																								pos: position{line: 2926, col: 11, offset: 92509},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92519},
+																									pos:        position{line: 2926, col: 11, offset: 92509},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26254,26 +26254,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1590, col: 5, offset: 51567},
+																			pos:   position{line: 1590, col: 5, offset: 51557},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1536, col: 5, offset: 50000},
+																				pos: position{line: 1536, col: 5, offset: 49990},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1536, col: 5, offset: 50000},
+																					pos: position{line: 1536, col: 5, offset: 49990},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1536, col: 5, offset: 50000},
+																							pos:   position{line: 1536, col: 5, offset: 49990},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1536, col: 14, offset: 50009},
+																								pos: position{line: 1536, col: 14, offset: 49999},
 																								expr: &actionExpr{
-																									pos: position{line: 1536, col: 15, offset: 50010},
+																									pos: position{line: 1536, col: 15, offset: 50000},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1536, col: 15, offset: 50010},
+																										pos: position{line: 1536, col: 15, offset: 50000},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1536, col: 15, offset: 50010},
+																											pos:        position{line: 1536, col: 15, offset: 50000},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26284,28 +26284,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26314,9 +26314,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -26329,27 +26329,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1639, col: 5, offset: 53425},
+																pos: position{line: 1639, col: 5, offset: 53415},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1639, col: 5, offset: 53425},
+																	pos: position{line: 1639, col: 5, offset: 53415},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1639, col: 5, offset: 53425},
+																			pos:   position{line: 1639, col: 5, offset: 53415},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1646, col: 5, offset: 53698},
+																				pos: position{line: 1646, col: 5, offset: 53688},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1646, col: 5, offset: 53698},
+																					pos: position{line: 1646, col: 5, offset: 53688},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1646, col: 5, offset: 53698},
+																							pos: position{line: 1646, col: 5, offset: 53688},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92458},
+																								pos: position{line: 2922, col: 10, offset: 92448},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92458},
+																									pos:        position{line: 2922, col: 10, offset: 92448},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26358,24 +26358,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1647, col: 5, offset: 53710},
+																							pos:   position{line: 1647, col: 5, offset: 53700},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1648, col: 9, offset: 53726},
+																								pos: position{line: 1648, col: 9, offset: 53716},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1648, col: 10, offset: 53727},
+																									pos: position{line: 1648, col: 10, offset: 53717},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1648, col: 11, offset: 53728},
+																											pos:        position{line: 1648, col: 11, offset: 53718},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1648, col: 18, offset: 53735},
+																											pos: position{line: 1648, col: 18, offset: 53725},
 																											expr: &litMatcher{
-																												pos:        position{line: 1648, col: 19, offset: 53736},
+																												pos:        position{line: 1648, col: 19, offset: 53726},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26386,16 +26386,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1651, col: 7, offset: 53826},
+																							pos: position{line: 1651, col: 7, offset: 53816},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92519},
+																							pos: position{line: 2926, col: 11, offset: 92509},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92519},
+																								pos: position{line: 2926, col: 11, offset: 92509},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92519},
+																									pos:        position{line: 2926, col: 11, offset: 92509},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26408,56 +26408,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1640, col: 5, offset: 53466},
+																			pos:   position{line: 1640, col: 5, offset: 53456},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1640, col: 16, offset: 53477},
+																				pos: position{line: 1640, col: 16, offset: 53467},
 																				expr: &actionExpr{
-																					pos: position{line: 1661, col: 5, offset: 54091},
+																					pos: position{line: 1661, col: 5, offset: 54081},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1661, col: 5, offset: 54091},
+																						pos: position{line: 1661, col: 5, offset: 54081},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1661, col: 5, offset: 54091},
+																								pos: position{line: 1661, col: 5, offset: 54081},
 																								expr: &litMatcher{
-																									pos:        position{line: 1661, col: 6, offset: 54092},
+																									pos:        position{line: 1661, col: 6, offset: 54082},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1661, col: 10, offset: 54096},
+																								pos:   position{line: 1661, col: 10, offset: 54086},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1662, col: 7, offset: 54110},
+																									pos: position{line: 1662, col: 7, offset: 54100},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1662, col: 7, offset: 54110},
+																											pos: position{line: 1662, col: 7, offset: 54100},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1662, col: 7, offset: 54110},
+																												pos:        position{line: 1662, col: 7, offset: 54100},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1663, col: 7, offset: 54155},
+																											pos: position{line: 1663, col: 7, offset: 54145},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1663, col: 7, offset: 54155},
+																												pos:        position{line: 1663, col: 7, offset: 54145},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1664, col: 7, offset: 54198},
+																											pos: position{line: 1664, col: 7, offset: 54188},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1664, col: 7, offset: 54198},
+																												pos:        position{line: 1664, col: 7, offset: 54188},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26467,12 +26467,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2926, col: 11, offset: 92519},
+																								pos: position{line: 2926, col: 11, offset: 92509},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2926, col: 11, offset: 92519},
+																									pos: position{line: 2926, col: 11, offset: 92509},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2926, col: 11, offset: 92519},
+																										pos:        position{line: 2926, col: 11, offset: 92509},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26486,26 +26486,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1641, col: 5, offset: 53516},
+																			pos:   position{line: 1641, col: 5, offset: 53506},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1536, col: 5, offset: 50000},
+																				pos: position{line: 1536, col: 5, offset: 49990},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1536, col: 5, offset: 50000},
+																					pos: position{line: 1536, col: 5, offset: 49990},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1536, col: 5, offset: 50000},
+																							pos:   position{line: 1536, col: 5, offset: 49990},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1536, col: 14, offset: 50009},
+																								pos: position{line: 1536, col: 14, offset: 49999},
 																								expr: &actionExpr{
-																									pos: position{line: 1536, col: 15, offset: 50010},
+																									pos: position{line: 1536, col: 15, offset: 50000},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1536, col: 15, offset: 50010},
+																										pos: position{line: 1536, col: 15, offset: 50000},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1536, col: 15, offset: 50010},
+																											pos:        position{line: 1536, col: 15, offset: 50000},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26516,28 +26516,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26546,9 +26546,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -26561,36 +26561,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1730, col: 5, offset: 56070},
+																pos: position{line: 1730, col: 5, offset: 56060},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1730, col: 5, offset: 56070},
+																	pos: position{line: 1730, col: 5, offset: 56060},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1730, col: 5, offset: 56070},
+																			pos:   position{line: 1730, col: 5, offset: 56060},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1736, col: 5, offset: 56267},
+																				pos: position{line: 1736, col: 5, offset: 56257},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1736, col: 5, offset: 56267},
+																					pos: position{line: 1736, col: 5, offset: 56257},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1736, col: 5, offset: 56267},
+																							pos:        position{line: 1736, col: 5, offset: 56257},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1736, col: 9, offset: 56271},
+																							pos:   position{line: 1736, col: 9, offset: 56261},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1736, col: 14, offset: 56276},
+																								pos: position{line: 1736, col: 14, offset: 56266},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1736, col: 14, offset: 56276},
+																									pos: position{line: 1736, col: 14, offset: 56266},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1736, col: 14, offset: 56276},
+																										pos:        position{line: 1736, col: 14, offset: 56266},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26600,18 +26600,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1736, col: 62, offset: 56324},
+																							pos:        position{line: 1736, col: 62, offset: 56314},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92519},
+																							pos: position{line: 2926, col: 11, offset: 92509},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92519},
+																								pos: position{line: 2926, col: 11, offset: 92509},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92519},
+																									pos:        position{line: 2926, col: 11, offset: 92509},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26624,26 +26624,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1731, col: 5, offset: 56106},
+																			pos:   position{line: 1731, col: 5, offset: 56096},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1536, col: 5, offset: 50000},
+																				pos: position{line: 1536, col: 5, offset: 49990},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1536, col: 5, offset: 50000},
+																					pos: position{line: 1536, col: 5, offset: 49990},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1536, col: 5, offset: 50000},
+																							pos:   position{line: 1536, col: 5, offset: 49990},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1536, col: 14, offset: 50009},
+																								pos: position{line: 1536, col: 14, offset: 49999},
 																								expr: &actionExpr{
-																									pos: position{line: 1536, col: 15, offset: 50010},
+																									pos: position{line: 1536, col: 15, offset: 50000},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1536, col: 15, offset: 50010},
+																										pos: position{line: 1536, col: 15, offset: 50000},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1536, col: 15, offset: 50010},
+																											pos:        position{line: 1536, col: 15, offset: 50000},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26654,28 +26654,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26684,9 +26684,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -26699,35 +26699,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1673, col: 5, offset: 54391},
+																pos: position{line: 1673, col: 5, offset: 54381},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1673, col: 5, offset: 54391},
+																	pos: position{line: 1673, col: 5, offset: 54381},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1673, col: 5, offset: 54391},
+																			pos:   position{line: 1673, col: 5, offset: 54381},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1681, col: 5, offset: 54717},
+																				pos: position{line: 1681, col: 5, offset: 54707},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &seqExpr{
-																					pos: position{line: 1681, col: 5, offset: 54717},
+																					pos: position{line: 1681, col: 5, offset: 54707},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1681, col: 5, offset: 54717},
+																							pos: position{line: 1681, col: 5, offset: 54707},
 																							expr: &seqExpr{
-																								pos: position{line: 2530, col: 31, offset: 81486},
+																								pos: position{line: 2530, col: 31, offset: 81476},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2530, col: 31, offset: 81486},
+																										pos:        position{line: 2530, col: 31, offset: 81476},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2530, col: 36, offset: 81491},
+																										pos: position{line: 2530, col: 36, offset: 81481},
 																										expr: &litMatcher{
-																											pos:        position{line: 2530, col: 37, offset: 81492},
+																											pos:        position{line: 2530, col: 37, offset: 81482},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -26737,28 +26737,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1682, col: 5, offset: 54749},
+																							pos: position{line: 1682, col: 5, offset: 54739},
 																							expr: &seqExpr{
-																								pos: position{line: 1682, col: 6, offset: 54750},
+																								pos: position{line: 1682, col: 6, offset: 54740},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1682, col: 6, offset: 54750},
+																										pos: position{line: 1682, col: 6, offset: 54740},
 																										expr: &actionExpr{
-																											pos: position{line: 1687, col: 5, offset: 54900},
+																											pos: position{line: 1687, col: 5, offset: 54890},
 																											run: (*parser).callonExtraListElement180,
 																											expr: &seqExpr{
-																												pos: position{line: 1687, col: 5, offset: 54900},
+																												pos: position{line: 1687, col: 5, offset: 54890},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1687, col: 5, offset: 54900},
+																														pos:   position{line: 1687, col: 5, offset: 54890},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1687, col: 16, offset: 54911},
+																															pos: position{line: 1687, col: 16, offset: 54901},
 																															run: (*parser).callonExtraListElement183,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1687, col: 16, offset: 54911},
+																																pos: position{line: 1687, col: 16, offset: 54901},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1687, col: 17, offset: 54912},
+																																	pos:        position{line: 1687, col: 17, offset: 54902},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -26767,7 +26767,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1690, col: 5, offset: 54969},
+																														pos: position{line: 1690, col: 5, offset: 54959},
 																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
@@ -26775,30 +26775,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1682, col: 35, offset: 54779},
+																										pos: position{line: 1682, col: 35, offset: 54769},
 																										expr: &choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92856},
+																											pos: position{line: 2944, col: 8, offset: 92846},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92629},
+																													pos: position{line: 2931, col: 12, offset: 92619},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92630},
+																														pos: position{line: 2931, col: 13, offset: 92620},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92630},
+																																pos:        position{line: 2931, col: 13, offset: 92620},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92637},
+																																pos:        position{line: 2931, col: 20, offset: 92627},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92646},
+																																pos:        position{line: 2931, col: 29, offset: 92636},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26807,16 +26807,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92806},
+																													pos: position{line: 2941, col: 8, offset: 92796},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92807,
+																														line: 2941, col: 9, offset: 92797,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1682, col: 40, offset: 54784,
+																										line: 1682, col: 40, offset: 54774,
 																									},
 																								},
 																							},
@@ -26826,24 +26826,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1674, col: 5, offset: 54426},
+																			pos:   position{line: 1674, col: 5, offset: 54416},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1687, col: 5, offset: 54900},
+																				pos: position{line: 1687, col: 5, offset: 54890},
 																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1687, col: 5, offset: 54900},
+																					pos: position{line: 1687, col: 5, offset: 54890},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1687, col: 5, offset: 54900},
+																							pos:   position{line: 1687, col: 5, offset: 54890},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1687, col: 16, offset: 54911},
+																								pos: position{line: 1687, col: 16, offset: 54901},
 																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1687, col: 16, offset: 54911},
+																									pos: position{line: 1687, col: 16, offset: 54901},
 																									expr: &litMatcher{
-																										pos:        position{line: 1687, col: 17, offset: 54912},
+																										pos:        position{line: 1687, col: 17, offset: 54902},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26852,7 +26852,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1690, col: 5, offset: 54969},
+																							pos: position{line: 1690, col: 5, offset: 54959},
 																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
@@ -26860,24 +26860,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1675, col: 5, offset: 54471},
+																			pos:   position{line: 1675, col: 5, offset: 54461},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1698, col: 5, offset: 55218},
+																				pos: position{line: 1698, col: 5, offset: 55208},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1700, col: 9, offset: 55284},
+																						pos: position{line: 1700, col: 9, offset: 55274},
 																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1700, col: 9, offset: 55284},
+																							pos: position{line: 1700, col: 9, offset: 55274},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1700, col: 9, offset: 55284},
+																									pos: position{line: 1700, col: 9, offset: 55274},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92458},
+																										pos: position{line: 2922, col: 10, offset: 92448},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92458},
+																											pos:        position{line: 2922, col: 10, offset: 92448},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26886,28 +26886,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92856},
+																									pos: position{line: 2944, col: 8, offset: 92846},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92629},
+																											pos: position{line: 2931, col: 12, offset: 92619},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92630},
+																												pos: position{line: 2931, col: 13, offset: 92620},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92630},
+																														pos:        position{line: 2931, col: 13, offset: 92620},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92637},
+																														pos:        position{line: 2931, col: 20, offset: 92627},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92646},
+																														pos:        position{line: 2931, col: 29, offset: 92636},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26916,15 +26916,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92806},
+																											pos: position{line: 2941, col: 8, offset: 92796},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92807,
+																												line: 2941, col: 9, offset: 92797,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1701, col: 9, offset: 55303},
+																									pos: position{line: 1701, col: 9, offset: 55293},
 																									expr: &actionExpr{
 																										pos: position{line: 690, col: 14, offset: 22173},
 																										run: (*parser).callonExtraListElement221,
@@ -26932,18 +26932,18 @@ var g = &grammar{
 																											pos: position{line: 690, col: 14, offset: 22173},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2939, col: 11, offset: 92792},
+																													pos: position{line: 2939, col: 11, offset: 92782},
 																													expr: &anyMatcher{
-																														line: 2939, col: 13, offset: 92794,
+																														line: 2939, col: 13, offset: 92784,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 690, col: 21, offset: 22180},
 																													expr: &actionExpr{
-																														pos: position{line: 2922, col: 10, offset: 92458},
+																														pos: position{line: 2922, col: 10, offset: 92448},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2922, col: 10, offset: 92458},
+																															pos:        position{line: 2922, col: 10, offset: 92448},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26952,28 +26952,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2944, col: 8, offset: 92856},
+																													pos: position{line: 2944, col: 8, offset: 92846},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2931, col: 12, offset: 92629},
+																															pos: position{line: 2931, col: 12, offset: 92619},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2931, col: 13, offset: 92630},
+																																pos: position{line: 2931, col: 13, offset: 92620},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 13, offset: 92630},
+																																		pos:        position{line: 2931, col: 13, offset: 92620},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 20, offset: 92637},
+																																		pos:        position{line: 2931, col: 20, offset: 92627},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 29, offset: 92646},
+																																		pos:        position{line: 2931, col: 29, offset: 92636},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26982,9 +26982,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2941, col: 8, offset: 92806},
+																															pos: position{line: 2941, col: 8, offset: 92796},
 																															expr: &anyMatcher{
-																																line: 2941, col: 9, offset: 92807,
+																																line: 2941, col: 9, offset: 92797,
 																															},
 																														},
 																													},
@@ -26997,18 +26997,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1707, col: 9, offset: 55432},
+																						pos: position{line: 1707, col: 9, offset: 55422},
 																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1707, col: 9, offset: 55432},
+																							pos: position{line: 1707, col: 9, offset: 55422},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2926, col: 11, offset: 92519},
+																									pos: position{line: 2926, col: 11, offset: 92509},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2926, col: 11, offset: 92519},
+																										pos: position{line: 2926, col: 11, offset: 92509},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2926, col: 11, offset: 92519},
+																											pos:        position{line: 2926, col: 11, offset: 92509},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27017,15 +27017,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1708, col: 9, offset: 55505},
+																									pos:   position{line: 1708, col: 9, offset: 55495},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1708, col: 18, offset: 55514},
+																										pos: position{line: 1708, col: 18, offset: 55504},
 																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1708, col: 18, offset: 55514},
+																											pos: position{line: 1708, col: 18, offset: 55504},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1708, col: 18, offset: 55514},
+																												pos:        position{line: 1708, col: 18, offset: 55504},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27035,28 +27035,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92856},
+																									pos: position{line: 2944, col: 8, offset: 92846},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92629},
+																											pos: position{line: 2931, col: 12, offset: 92619},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92630},
+																												pos: position{line: 2931, col: 13, offset: 92620},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92630},
+																														pos:        position{line: 2931, col: 13, offset: 92620},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92637},
+																														pos:        position{line: 2931, col: 20, offset: 92627},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92646},
+																														pos:        position{line: 2931, col: 29, offset: 92636},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27065,9 +27065,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92806},
+																											pos: position{line: 2941, col: 8, offset: 92796},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92807,
+																												line: 2941, col: 9, offset: 92797,
 																											},
 																										},
 																									},
@@ -27088,50 +27088,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1511, col: 13, offset: 49127},
+										pos: position{line: 1511, col: 13, offset: 49117},
 										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
-											pos: position{line: 1511, col: 13, offset: 49127},
+											pos: position{line: 1511, col: 13, offset: 49117},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1511, col: 13, offset: 49127},
+													pos:   position{line: 1511, col: 13, offset: 49117},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1511, col: 24, offset: 49138},
+														pos: position{line: 1511, col: 24, offset: 49128},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1511, col: 25, offset: 49139},
+															pos:  position{line: 1511, col: 25, offset: 49129},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1512, col: 13, offset: 49170},
+													pos:   position{line: 1512, col: 13, offset: 49160},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1512, col: 22, offset: 49179},
+														pos: position{line: 1512, col: 22, offset: 49169},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1589, col: 5, offset: 51528},
+																pos: position{line: 1589, col: 5, offset: 51518},
 																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
-																	pos: position{line: 1589, col: 5, offset: 51528},
+																	pos: position{line: 1589, col: 5, offset: 51518},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1589, col: 5, offset: 51528},
+																			pos:   position{line: 1589, col: 5, offset: 51518},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1596, col: 5, offset: 51736},
+																				pos: position{line: 1596, col: 5, offset: 51726},
 																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
-																					pos: position{line: 1596, col: 5, offset: 51736},
+																					pos: position{line: 1596, col: 5, offset: 51726},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1596, col: 5, offset: 51736},
+																							pos: position{line: 1596, col: 5, offset: 51726},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92458},
+																								pos: position{line: 2922, col: 10, offset: 92448},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92458},
+																									pos:        position{line: 2922, col: 10, offset: 92448},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27140,27 +27140,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1596, col: 12, offset: 51743},
+																							pos:   position{line: 1596, col: 12, offset: 51733},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1598, col: 9, offset: 51806},
+																								pos: position{line: 1598, col: 9, offset: 51796},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1598, col: 9, offset: 51806},
+																										pos: position{line: 1598, col: 9, offset: 51796},
 																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
-																											pos: position{line: 1598, col: 9, offset: 51806},
+																											pos: position{line: 1598, col: 9, offset: 51796},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1598, col: 9, offset: 51806},
+																													pos:   position{line: 1598, col: 9, offset: 51796},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1598, col: 16, offset: 51813},
+																														pos: position{line: 1598, col: 16, offset: 51803},
 																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1598, col: 16, offset: 51813},
+																															pos: position{line: 1598, col: 16, offset: 51803},
 																															expr: &litMatcher{
-																																pos:        position{line: 1598, col: 17, offset: 51814},
+																																pos:        position{line: 1598, col: 17, offset: 51804},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27169,22 +27169,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1602, col: 9, offset: 51914},
+																													pos: position{line: 1602, col: 9, offset: 51904},
 																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1621, col: 11, offset: 52631},
+																										pos: position{line: 1621, col: 11, offset: 52621},
 																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
-																											pos: position{line: 1621, col: 11, offset: 52631},
+																											pos: position{line: 1621, col: 11, offset: 52621},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1621, col: 11, offset: 52631},
+																													pos: position{line: 1621, col: 11, offset: 52621},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1621, col: 12, offset: 52632},
+																														pos:        position{line: 1621, col: 12, offset: 52622},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27192,7 +27192,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1621, col: 20, offset: 52640},
+																													pos:        position{line: 1621, col: 20, offset: 52630},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27201,20 +27201,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1623, col: 13, offset: 52757},
+																										pos: position{line: 1623, col: 13, offset: 52747},
 																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
-																											pos: position{line: 1623, col: 13, offset: 52757},
+																											pos: position{line: 1623, col: 13, offset: 52747},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1623, col: 14, offset: 52758},
+																													pos:        position{line: 1623, col: 14, offset: 52748},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1623, col: 21, offset: 52765},
+																													pos:        position{line: 1623, col: 21, offset: 52755},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27223,20 +27223,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1625, col: 13, offset: 52885},
+																										pos: position{line: 1625, col: 13, offset: 52875},
 																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
-																											pos: position{line: 1625, col: 13, offset: 52885},
+																											pos: position{line: 1625, col: 13, offset: 52875},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1625, col: 14, offset: 52886},
+																													pos:        position{line: 1625, col: 14, offset: 52876},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1625, col: 21, offset: 52893},
+																													pos:        position{line: 1625, col: 21, offset: 52883},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27245,15 +27245,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1627, col: 13, offset: 53013},
+																										pos: position{line: 1627, col: 13, offset: 53003},
 																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
-																											pos: position{line: 1627, col: 13, offset: 53013},
+																											pos: position{line: 1627, col: 13, offset: 53003},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1627, col: 13, offset: 53013},
+																													pos: position{line: 1627, col: 13, offset: 53003},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1627, col: 14, offset: 53014},
+																														pos:        position{line: 1627, col: 14, offset: 53004},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27261,7 +27261,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1627, col: 26, offset: 53026},
+																													pos:        position{line: 1627, col: 26, offset: 53016},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27270,15 +27270,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1629, col: 13, offset: 53146},
+																										pos: position{line: 1629, col: 13, offset: 53136},
 																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
-																											pos: position{line: 1629, col: 13, offset: 53146},
+																											pos: position{line: 1629, col: 13, offset: 53136},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1629, col: 13, offset: 53146},
+																													pos: position{line: 1629, col: 13, offset: 53136},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1629, col: 14, offset: 53147},
+																														pos:        position{line: 1629, col: 14, offset: 53137},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27286,7 +27286,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1629, col: 26, offset: 53159},
+																													pos:        position{line: 1629, col: 26, offset: 53149},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27298,12 +27298,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92519},
+																							pos: position{line: 2926, col: 11, offset: 92509},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92519},
+																								pos: position{line: 2926, col: 11, offset: 92509},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92519},
+																									pos:        position{line: 2926, col: 11, offset: 92509},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27316,26 +27316,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1590, col: 5, offset: 51567},
+																			pos:   position{line: 1590, col: 5, offset: 51557},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1536, col: 5, offset: 50000},
+																				pos: position{line: 1536, col: 5, offset: 49990},
 																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
-																					pos: position{line: 1536, col: 5, offset: 50000},
+																					pos: position{line: 1536, col: 5, offset: 49990},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1536, col: 5, offset: 50000},
+																							pos:   position{line: 1536, col: 5, offset: 49990},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1536, col: 14, offset: 50009},
+																								pos: position{line: 1536, col: 14, offset: 49999},
 																								expr: &actionExpr{
-																									pos: position{line: 1536, col: 15, offset: 50010},
+																									pos: position{line: 1536, col: 15, offset: 50000},
 																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1536, col: 15, offset: 50010},
+																										pos: position{line: 1536, col: 15, offset: 50000},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1536, col: 15, offset: 50010},
+																											pos:        position{line: 1536, col: 15, offset: 50000},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27346,28 +27346,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27376,9 +27376,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -27391,27 +27391,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1639, col: 5, offset: 53425},
+																pos: position{line: 1639, col: 5, offset: 53415},
 																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
-																	pos: position{line: 1639, col: 5, offset: 53425},
+																	pos: position{line: 1639, col: 5, offset: 53415},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1639, col: 5, offset: 53425},
+																			pos:   position{line: 1639, col: 5, offset: 53415},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1646, col: 5, offset: 53698},
+																				pos: position{line: 1646, col: 5, offset: 53688},
 																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
-																					pos: position{line: 1646, col: 5, offset: 53698},
+																					pos: position{line: 1646, col: 5, offset: 53688},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1646, col: 5, offset: 53698},
+																							pos: position{line: 1646, col: 5, offset: 53688},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92458},
+																								pos: position{line: 2922, col: 10, offset: 92448},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92458},
+																									pos:        position{line: 2922, col: 10, offset: 92448},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27420,24 +27420,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1647, col: 5, offset: 53710},
+																							pos:   position{line: 1647, col: 5, offset: 53700},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1648, col: 9, offset: 53726},
+																								pos: position{line: 1648, col: 9, offset: 53716},
 																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
-																									pos: position{line: 1648, col: 10, offset: 53727},
+																									pos: position{line: 1648, col: 10, offset: 53717},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1648, col: 11, offset: 53728},
+																											pos:        position{line: 1648, col: 11, offset: 53718},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1648, col: 18, offset: 53735},
+																											pos: position{line: 1648, col: 18, offset: 53725},
 																											expr: &litMatcher{
-																												pos:        position{line: 1648, col: 19, offset: 53736},
+																												pos:        position{line: 1648, col: 19, offset: 53726},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27448,16 +27448,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1651, col: 7, offset: 53826},
+																							pos: position{line: 1651, col: 7, offset: 53816},
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92519},
+																							pos: position{line: 2926, col: 11, offset: 92509},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92519},
+																								pos: position{line: 2926, col: 11, offset: 92509},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92519},
+																									pos:        position{line: 2926, col: 11, offset: 92509},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27470,56 +27470,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1640, col: 5, offset: 53466},
+																			pos:   position{line: 1640, col: 5, offset: 53456},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1640, col: 16, offset: 53477},
+																				pos: position{line: 1640, col: 16, offset: 53467},
 																				expr: &actionExpr{
-																					pos: position{line: 1661, col: 5, offset: 54091},
+																					pos: position{line: 1661, col: 5, offset: 54081},
 																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
-																						pos: position{line: 1661, col: 5, offset: 54091},
+																						pos: position{line: 1661, col: 5, offset: 54081},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1661, col: 5, offset: 54091},
+																								pos: position{line: 1661, col: 5, offset: 54081},
 																								expr: &litMatcher{
-																									pos:        position{line: 1661, col: 6, offset: 54092},
+																									pos:        position{line: 1661, col: 6, offset: 54082},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1661, col: 10, offset: 54096},
+																								pos:   position{line: 1661, col: 10, offset: 54086},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1662, col: 7, offset: 54110},
+																									pos: position{line: 1662, col: 7, offset: 54100},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1662, col: 7, offset: 54110},
+																											pos: position{line: 1662, col: 7, offset: 54100},
 																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
-																												pos:        position{line: 1662, col: 7, offset: 54110},
+																												pos:        position{line: 1662, col: 7, offset: 54100},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1663, col: 7, offset: 54155},
+																											pos: position{line: 1663, col: 7, offset: 54145},
 																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
-																												pos:        position{line: 1663, col: 7, offset: 54155},
+																												pos:        position{line: 1663, col: 7, offset: 54145},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1664, col: 7, offset: 54198},
+																											pos: position{line: 1664, col: 7, offset: 54188},
 																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
-																												pos:        position{line: 1664, col: 7, offset: 54198},
+																												pos:        position{line: 1664, col: 7, offset: 54188},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27529,12 +27529,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2926, col: 11, offset: 92519},
+																								pos: position{line: 2926, col: 11, offset: 92509},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2926, col: 11, offset: 92519},
+																									pos: position{line: 2926, col: 11, offset: 92509},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2926, col: 11, offset: 92519},
+																										pos:        position{line: 2926, col: 11, offset: 92509},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27548,26 +27548,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1641, col: 5, offset: 53516},
+																			pos:   position{line: 1641, col: 5, offset: 53506},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1536, col: 5, offset: 50000},
+																				pos: position{line: 1536, col: 5, offset: 49990},
 																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
-																					pos: position{line: 1536, col: 5, offset: 50000},
+																					pos: position{line: 1536, col: 5, offset: 49990},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1536, col: 5, offset: 50000},
+																							pos:   position{line: 1536, col: 5, offset: 49990},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1536, col: 14, offset: 50009},
+																								pos: position{line: 1536, col: 14, offset: 49999},
 																								expr: &actionExpr{
-																									pos: position{line: 1536, col: 15, offset: 50010},
+																									pos: position{line: 1536, col: 15, offset: 50000},
 																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1536, col: 15, offset: 50010},
+																										pos: position{line: 1536, col: 15, offset: 50000},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1536, col: 15, offset: 50010},
+																											pos:        position{line: 1536, col: 15, offset: 50000},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27578,28 +27578,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27608,9 +27608,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -27623,36 +27623,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1730, col: 5, offset: 56070},
+																pos: position{line: 1730, col: 5, offset: 56060},
 																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1730, col: 5, offset: 56070},
+																	pos: position{line: 1730, col: 5, offset: 56060},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1730, col: 5, offset: 56070},
+																			pos:   position{line: 1730, col: 5, offset: 56060},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1736, col: 5, offset: 56267},
+																				pos: position{line: 1736, col: 5, offset: 56257},
 																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1736, col: 5, offset: 56267},
+																					pos: position{line: 1736, col: 5, offset: 56257},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1736, col: 5, offset: 56267},
+																							pos:        position{line: 1736, col: 5, offset: 56257},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1736, col: 9, offset: 56271},
+																							pos:   position{line: 1736, col: 9, offset: 56261},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1736, col: 14, offset: 56276},
+																								pos: position{line: 1736, col: 14, offset: 56266},
 																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1736, col: 14, offset: 56276},
+																									pos: position{line: 1736, col: 14, offset: 56266},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1736, col: 14, offset: 56276},
+																										pos:        position{line: 1736, col: 14, offset: 56266},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27662,18 +27662,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1736, col: 62, offset: 56324},
+																							pos:        position{line: 1736, col: 62, offset: 56314},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92519},
+																							pos: position{line: 2926, col: 11, offset: 92509},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92519},
+																								pos: position{line: 2926, col: 11, offset: 92509},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92519},
+																									pos:        position{line: 2926, col: 11, offset: 92509},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27686,26 +27686,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1731, col: 5, offset: 56106},
+																			pos:   position{line: 1731, col: 5, offset: 56096},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1536, col: 5, offset: 50000},
+																				pos: position{line: 1536, col: 5, offset: 49990},
 																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
-																					pos: position{line: 1536, col: 5, offset: 50000},
+																					pos: position{line: 1536, col: 5, offset: 49990},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1536, col: 5, offset: 50000},
+																							pos:   position{line: 1536, col: 5, offset: 49990},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1536, col: 14, offset: 50009},
+																								pos: position{line: 1536, col: 14, offset: 49999},
 																								expr: &actionExpr{
-																									pos: position{line: 1536, col: 15, offset: 50010},
+																									pos: position{line: 1536, col: 15, offset: 50000},
 																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1536, col: 15, offset: 50010},
+																										pos: position{line: 1536, col: 15, offset: 50000},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1536, col: 15, offset: 50010},
+																											pos:        position{line: 1536, col: 15, offset: 50000},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27716,28 +27716,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27746,9 +27746,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -27761,35 +27761,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1673, col: 5, offset: 54391},
+																pos: position{line: 1673, col: 5, offset: 54381},
 																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
-																	pos: position{line: 1673, col: 5, offset: 54391},
+																	pos: position{line: 1673, col: 5, offset: 54381},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1673, col: 5, offset: 54391},
+																			pos:   position{line: 1673, col: 5, offset: 54381},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1681, col: 5, offset: 54717},
+																				pos: position{line: 1681, col: 5, offset: 54707},
 																				run: (*parser).callonExtraListElement403,
 																				expr: &seqExpr{
-																					pos: position{line: 1681, col: 5, offset: 54717},
+																					pos: position{line: 1681, col: 5, offset: 54707},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1681, col: 5, offset: 54717},
+																							pos: position{line: 1681, col: 5, offset: 54707},
 																							expr: &seqExpr{
-																								pos: position{line: 2530, col: 31, offset: 81486},
+																								pos: position{line: 2530, col: 31, offset: 81476},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2530, col: 31, offset: 81486},
+																										pos:        position{line: 2530, col: 31, offset: 81476},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2530, col: 36, offset: 81491},
+																										pos: position{line: 2530, col: 36, offset: 81481},
 																										expr: &litMatcher{
-																											pos:        position{line: 2530, col: 37, offset: 81492},
+																											pos:        position{line: 2530, col: 37, offset: 81482},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -27799,28 +27799,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1682, col: 5, offset: 54749},
+																							pos: position{line: 1682, col: 5, offset: 54739},
 																							expr: &seqExpr{
-																								pos: position{line: 1682, col: 6, offset: 54750},
+																								pos: position{line: 1682, col: 6, offset: 54740},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1682, col: 6, offset: 54750},
+																										pos: position{line: 1682, col: 6, offset: 54740},
 																										expr: &actionExpr{
-																											pos: position{line: 1687, col: 5, offset: 54900},
+																											pos: position{line: 1687, col: 5, offset: 54890},
 																											run: (*parser).callonExtraListElement413,
 																											expr: &seqExpr{
-																												pos: position{line: 1687, col: 5, offset: 54900},
+																												pos: position{line: 1687, col: 5, offset: 54890},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1687, col: 5, offset: 54900},
+																														pos:   position{line: 1687, col: 5, offset: 54890},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1687, col: 16, offset: 54911},
+																															pos: position{line: 1687, col: 16, offset: 54901},
 																															run: (*parser).callonExtraListElement416,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1687, col: 16, offset: 54911},
+																																pos: position{line: 1687, col: 16, offset: 54901},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1687, col: 17, offset: 54912},
+																																	pos:        position{line: 1687, col: 17, offset: 54902},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -27829,7 +27829,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1690, col: 5, offset: 54969},
+																														pos: position{line: 1690, col: 5, offset: 54959},
 																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
@@ -27837,30 +27837,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1682, col: 35, offset: 54779},
+																										pos: position{line: 1682, col: 35, offset: 54769},
 																										expr: &choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92856},
+																											pos: position{line: 2944, col: 8, offset: 92846},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92629},
+																													pos: position{line: 2931, col: 12, offset: 92619},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92630},
+																														pos: position{line: 2931, col: 13, offset: 92620},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92630},
+																																pos:        position{line: 2931, col: 13, offset: 92620},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92637},
+																																pos:        position{line: 2931, col: 20, offset: 92627},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92646},
+																																pos:        position{line: 2931, col: 29, offset: 92636},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27869,16 +27869,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92806},
+																													pos: position{line: 2941, col: 8, offset: 92796},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92807,
+																														line: 2941, col: 9, offset: 92797,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1682, col: 40, offset: 54784,
+																										line: 1682, col: 40, offset: 54774,
 																									},
 																								},
 																							},
@@ -27888,24 +27888,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1674, col: 5, offset: 54426},
+																			pos:   position{line: 1674, col: 5, offset: 54416},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1687, col: 5, offset: 54900},
+																				pos: position{line: 1687, col: 5, offset: 54890},
 																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1687, col: 5, offset: 54900},
+																					pos: position{line: 1687, col: 5, offset: 54890},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1687, col: 5, offset: 54900},
+																							pos:   position{line: 1687, col: 5, offset: 54890},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1687, col: 16, offset: 54911},
+																								pos: position{line: 1687, col: 16, offset: 54901},
 																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1687, col: 16, offset: 54911},
+																									pos: position{line: 1687, col: 16, offset: 54901},
 																									expr: &litMatcher{
-																										pos:        position{line: 1687, col: 17, offset: 54912},
+																										pos:        position{line: 1687, col: 17, offset: 54902},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27914,7 +27914,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1690, col: 5, offset: 54969},
+																							pos: position{line: 1690, col: 5, offset: 54959},
 																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
@@ -27922,24 +27922,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1675, col: 5, offset: 54471},
+																			pos:   position{line: 1675, col: 5, offset: 54461},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1698, col: 5, offset: 55218},
+																				pos: position{line: 1698, col: 5, offset: 55208},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1700, col: 9, offset: 55284},
+																						pos: position{line: 1700, col: 9, offset: 55274},
 																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1700, col: 9, offset: 55284},
+																							pos: position{line: 1700, col: 9, offset: 55274},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1700, col: 9, offset: 55284},
+																									pos: position{line: 1700, col: 9, offset: 55274},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92458},
+																										pos: position{line: 2922, col: 10, offset: 92448},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92458},
+																											pos:        position{line: 2922, col: 10, offset: 92448},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27948,28 +27948,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92856},
+																									pos: position{line: 2944, col: 8, offset: 92846},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92629},
+																											pos: position{line: 2931, col: 12, offset: 92619},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92630},
+																												pos: position{line: 2931, col: 13, offset: 92620},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92630},
+																														pos:        position{line: 2931, col: 13, offset: 92620},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92637},
+																														pos:        position{line: 2931, col: 20, offset: 92627},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92646},
+																														pos:        position{line: 2931, col: 29, offset: 92636},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27978,15 +27978,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92806},
+																											pos: position{line: 2941, col: 8, offset: 92796},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92807,
+																												line: 2941, col: 9, offset: 92797,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1701, col: 9, offset: 55303},
+																									pos: position{line: 1701, col: 9, offset: 55293},
 																									expr: &actionExpr{
 																										pos: position{line: 690, col: 14, offset: 22173},
 																										run: (*parser).callonExtraListElement454,
@@ -27994,18 +27994,18 @@ var g = &grammar{
 																											pos: position{line: 690, col: 14, offset: 22173},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2939, col: 11, offset: 92792},
+																													pos: position{line: 2939, col: 11, offset: 92782},
 																													expr: &anyMatcher{
-																														line: 2939, col: 13, offset: 92794,
+																														line: 2939, col: 13, offset: 92784,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 690, col: 21, offset: 22180},
 																													expr: &actionExpr{
-																														pos: position{line: 2922, col: 10, offset: 92458},
+																														pos: position{line: 2922, col: 10, offset: 92448},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2922, col: 10, offset: 92458},
+																															pos:        position{line: 2922, col: 10, offset: 92448},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -28014,28 +28014,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2944, col: 8, offset: 92856},
+																													pos: position{line: 2944, col: 8, offset: 92846},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2931, col: 12, offset: 92629},
+																															pos: position{line: 2931, col: 12, offset: 92619},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2931, col: 13, offset: 92630},
+																																pos: position{line: 2931, col: 13, offset: 92620},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 13, offset: 92630},
+																																		pos:        position{line: 2931, col: 13, offset: 92620},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 20, offset: 92637},
+																																		pos:        position{line: 2931, col: 20, offset: 92627},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 29, offset: 92646},
+																																		pos:        position{line: 2931, col: 29, offset: 92636},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28044,9 +28044,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2941, col: 8, offset: 92806},
+																															pos: position{line: 2941, col: 8, offset: 92796},
 																															expr: &anyMatcher{
-																																line: 2941, col: 9, offset: 92807,
+																																line: 2941, col: 9, offset: 92797,
 																															},
 																														},
 																													},
@@ -28059,18 +28059,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1707, col: 9, offset: 55432},
+																						pos: position{line: 1707, col: 9, offset: 55422},
 																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1707, col: 9, offset: 55432},
+																							pos: position{line: 1707, col: 9, offset: 55422},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2926, col: 11, offset: 92519},
+																									pos: position{line: 2926, col: 11, offset: 92509},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2926, col: 11, offset: 92519},
+																										pos: position{line: 2926, col: 11, offset: 92509},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2926, col: 11, offset: 92519},
+																											pos:        position{line: 2926, col: 11, offset: 92509},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28079,15 +28079,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1708, col: 9, offset: 55505},
+																									pos:   position{line: 1708, col: 9, offset: 55495},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1708, col: 18, offset: 55514},
+																										pos: position{line: 1708, col: 18, offset: 55504},
 																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1708, col: 18, offset: 55514},
+																											pos: position{line: 1708, col: 18, offset: 55504},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1708, col: 18, offset: 55514},
+																												pos:        position{line: 1708, col: 18, offset: 55504},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28097,28 +28097,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92856},
+																									pos: position{line: 2944, col: 8, offset: 92846},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92629},
+																											pos: position{line: 2931, col: 12, offset: 92619},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92630},
+																												pos: position{line: 2931, col: 13, offset: 92620},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92630},
+																														pos:        position{line: 2931, col: 13, offset: 92620},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92637},
+																														pos:        position{line: 2931, col: 20, offset: 92627},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92646},
+																														pos:        position{line: 2931, col: 29, offset: 92636},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28127,9 +28127,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92806},
+																											pos: position{line: 2941, col: 8, offset: 92796},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92807,
+																												line: 2941, col: 9, offset: 92797,
 																											},
 																										},
 																									},
@@ -28150,40 +28150,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1515, col: 11, offset: 49364},
+										pos:  position{line: 1515, col: 11, offset: 49354},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2525, col: 22, offset: 81236},
+										pos: position{line: 2525, col: 22, offset: 81226},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 22, offset: 81236},
+											pos: position{line: 2525, col: 22, offset: 81226},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2530, col: 31, offset: 81486},
+													pos:        position{line: 2530, col: 31, offset: 81476},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2530, col: 36, offset: 81491},
+													pos: position{line: 2530, col: 36, offset: 81481},
 													expr: &litMatcher{
-														pos:        position{line: 2530, col: 37, offset: 81492},
+														pos:        position{line: 2530, col: 37, offset: 81482},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2525, col: 49, offset: 81263},
+													pos:   position{line: 2525, col: 49, offset: 81253},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 13, offset: 90984},
+														pos: position{line: 2868, col: 13, offset: 90974},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2868, col: 13, offset: 90984},
+															pos: position{line: 2868, col: 13, offset: 90974},
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 13, offset: 90984},
+																pos:        position{line: 2868, col: 13, offset: 90974},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28193,28 +28193,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92856},
+													pos: position{line: 2944, col: 8, offset: 92846},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92629},
+															pos: position{line: 2931, col: 12, offset: 92619},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92630},
+																pos: position{line: 2931, col: 13, offset: 92620},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92630},
+																		pos:        position{line: 2931, col: 13, offset: 92620},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92637},
+																		pos:        position{line: 2931, col: 20, offset: 92627},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92646},
+																		pos:        position{line: 2931, col: 29, offset: 92636},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28223,9 +28223,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92806},
+															pos: position{line: 2941, col: 8, offset: 92796},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92807,
+																line: 2941, col: 9, offset: 92797,
 															},
 														},
 													},
@@ -28234,13 +28234,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1523, col: 5, offset: 49642},
+										pos: position{line: 1523, col: 5, offset: 49632},
 										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
-											pos: position{line: 1523, col: 5, offset: 49642},
+											pos: position{line: 1523, col: 5, offset: 49632},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1523, col: 5, offset: 49642},
+													pos: position{line: 1523, col: 5, offset: 49632},
 													expr: &actionExpr{
 														pos: position{line: 690, col: 14, offset: 22173},
 														run: (*parser).callonExtraListElement507,
@@ -28248,18 +28248,18 @@ var g = &grammar{
 															pos: position{line: 690, col: 14, offset: 22173},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2939, col: 11, offset: 92792},
+																	pos: position{line: 2939, col: 11, offset: 92782},
 																	expr: &anyMatcher{
-																		line: 2939, col: 13, offset: 92794,
+																		line: 2939, col: 13, offset: 92784,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 690, col: 21, offset: 22180},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92458},
+																		pos: position{line: 2922, col: 10, offset: 92448},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92458},
+																			pos:        position{line: 2922, col: 10, offset: 92448},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28268,28 +28268,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92856},
+																	pos: position{line: 2944, col: 8, offset: 92846},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92629},
+																			pos: position{line: 2931, col: 12, offset: 92619},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92630},
+																				pos: position{line: 2931, col: 13, offset: 92620},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92630},
+																						pos:        position{line: 2931, col: 13, offset: 92620},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92637},
+																						pos:        position{line: 2931, col: 20, offset: 92627},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92646},
+																						pos:        position{line: 2931, col: 29, offset: 92636},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28298,9 +28298,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92806},
+																			pos: position{line: 2941, col: 8, offset: 92796},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92807,
+																				line: 2941, col: 9, offset: 92797,
 																			},
 																		},
 																	},
@@ -28310,23 +28310,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1524, col: 5, offset: 49657},
+													pos: position{line: 1524, col: 5, offset: 49647},
 													expr: &seqExpr{
-														pos: position{line: 1555, col: 27, offset: 50517},
+														pos: position{line: 1555, col: 27, offset: 50507},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1555, col: 27, offset: 50517},
+																pos:        position{line: 1555, col: 27, offset: 50507},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1555, col: 31, offset: 50521},
+																pos: position{line: 1555, col: 31, offset: 50511},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92458},
+																	pos: position{line: 2922, col: 10, offset: 92448},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92458},
+																		pos:        position{line: 2922, col: 10, offset: 92448},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28335,25 +28335,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92629},
+																pos: position{line: 2931, col: 12, offset: 92619},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92630},
+																	pos: position{line: 2931, col: 13, offset: 92620},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92630},
+																			pos:        position{line: 2931, col: 13, offset: 92620},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92637},
+																			pos:        position{line: 2931, col: 20, offset: 92627},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92646},
+																			pos:        position{line: 2931, col: 29, offset: 92636},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28365,20 +28365,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1525, col: 5, offset: 49685},
+													pos: position{line: 1525, col: 5, offset: 49675},
 													expr: &actionExpr{
-														pos: position{line: 1596, col: 5, offset: 51736},
+														pos: position{line: 1596, col: 5, offset: 51726},
 														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
-															pos: position{line: 1596, col: 5, offset: 51736},
+															pos: position{line: 1596, col: 5, offset: 51726},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1596, col: 5, offset: 51736},
+																	pos: position{line: 1596, col: 5, offset: 51726},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92458},
+																		pos: position{line: 2922, col: 10, offset: 92448},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92458},
+																			pos:        position{line: 2922, col: 10, offset: 92448},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28387,27 +28387,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1596, col: 12, offset: 51743},
+																	pos:   position{line: 1596, col: 12, offset: 51733},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1598, col: 9, offset: 51806},
+																		pos: position{line: 1598, col: 9, offset: 51796},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1598, col: 9, offset: 51806},
+																				pos: position{line: 1598, col: 9, offset: 51796},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1598, col: 9, offset: 51806},
+																					pos: position{line: 1598, col: 9, offset: 51796},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1598, col: 9, offset: 51806},
+																							pos:   position{line: 1598, col: 9, offset: 51796},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1598, col: 16, offset: 51813},
+																								pos: position{line: 1598, col: 16, offset: 51803},
 																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1598, col: 16, offset: 51813},
+																									pos: position{line: 1598, col: 16, offset: 51803},
 																									expr: &litMatcher{
-																										pos:        position{line: 1598, col: 17, offset: 51814},
+																										pos:        position{line: 1598, col: 17, offset: 51804},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28416,22 +28416,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1602, col: 9, offset: 51914},
+																							pos: position{line: 1602, col: 9, offset: 51904},
 																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 11, offset: 52631},
+																				pos: position{line: 1621, col: 11, offset: 52621},
 																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 11, offset: 52631},
+																					pos: position{line: 1621, col: 11, offset: 52621},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1621, col: 11, offset: 52631},
+																							pos: position{line: 1621, col: 11, offset: 52621},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1621, col: 12, offset: 52632},
+																								pos:        position{line: 1621, col: 12, offset: 52622},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28439,7 +28439,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 20, offset: 52640},
+																							pos:        position{line: 1621, col: 20, offset: 52630},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28448,20 +28448,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1623, col: 13, offset: 52757},
+																				pos: position{line: 1623, col: 13, offset: 52747},
 																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
-																					pos: position{line: 1623, col: 13, offset: 52757},
+																					pos: position{line: 1623, col: 13, offset: 52747},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1623, col: 14, offset: 52758},
+																							pos:        position{line: 1623, col: 14, offset: 52748},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1623, col: 21, offset: 52765},
+																							pos:        position{line: 1623, col: 21, offset: 52755},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28470,20 +28470,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1625, col: 13, offset: 52885},
+																				pos: position{line: 1625, col: 13, offset: 52875},
 																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
-																					pos: position{line: 1625, col: 13, offset: 52885},
+																					pos: position{line: 1625, col: 13, offset: 52875},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1625, col: 14, offset: 52886},
+																							pos:        position{line: 1625, col: 14, offset: 52876},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1625, col: 21, offset: 52893},
+																							pos:        position{line: 1625, col: 21, offset: 52883},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28492,15 +28492,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1627, col: 13, offset: 53013},
+																				pos: position{line: 1627, col: 13, offset: 53003},
 																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
-																					pos: position{line: 1627, col: 13, offset: 53013},
+																					pos: position{line: 1627, col: 13, offset: 53003},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1627, col: 13, offset: 53013},
+																							pos: position{line: 1627, col: 13, offset: 53003},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1627, col: 14, offset: 53014},
+																								pos:        position{line: 1627, col: 14, offset: 53004},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28508,7 +28508,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1627, col: 26, offset: 53026},
+																							pos:        position{line: 1627, col: 26, offset: 53016},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28517,15 +28517,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1629, col: 13, offset: 53146},
+																				pos: position{line: 1629, col: 13, offset: 53136},
 																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
-																					pos: position{line: 1629, col: 13, offset: 53146},
+																					pos: position{line: 1629, col: 13, offset: 53136},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1629, col: 13, offset: 53146},
+																							pos: position{line: 1629, col: 13, offset: 53136},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1629, col: 14, offset: 53147},
+																								pos:        position{line: 1629, col: 14, offset: 53137},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28533,7 +28533,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1629, col: 26, offset: 53159},
+																							pos:        position{line: 1629, col: 26, offset: 53149},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28545,12 +28545,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92519},
+																	pos: position{line: 2926, col: 11, offset: 92509},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92519},
+																		pos: position{line: 2926, col: 11, offset: 92509},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92519},
+																			pos:        position{line: 2926, col: 11, offset: 92509},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28563,20 +28563,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1526, col: 5, offset: 49715},
+													pos: position{line: 1526, col: 5, offset: 49705},
 													expr: &actionExpr{
-														pos: position{line: 1646, col: 5, offset: 53698},
+														pos: position{line: 1646, col: 5, offset: 53688},
 														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
-															pos: position{line: 1646, col: 5, offset: 53698},
+															pos: position{line: 1646, col: 5, offset: 53688},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1646, col: 5, offset: 53698},
+																	pos: position{line: 1646, col: 5, offset: 53688},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92458},
+																		pos: position{line: 2922, col: 10, offset: 92448},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92458},
+																			pos:        position{line: 2922, col: 10, offset: 92448},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28585,24 +28585,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1647, col: 5, offset: 53710},
+																	pos:   position{line: 1647, col: 5, offset: 53700},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1648, col: 9, offset: 53726},
+																		pos: position{line: 1648, col: 9, offset: 53716},
 																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
-																			pos: position{line: 1648, col: 10, offset: 53727},
+																			pos: position{line: 1648, col: 10, offset: 53717},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1648, col: 11, offset: 53728},
+																					pos:        position{line: 1648, col: 11, offset: 53718},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1648, col: 18, offset: 53735},
+																					pos: position{line: 1648, col: 18, offset: 53725},
 																					expr: &litMatcher{
-																						pos:        position{line: 1648, col: 19, offset: 53736},
+																						pos:        position{line: 1648, col: 19, offset: 53726},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28613,16 +28613,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1651, col: 7, offset: 53826},
+																	pos: position{line: 1651, col: 7, offset: 53816},
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92519},
+																	pos: position{line: 2926, col: 11, offset: 92509},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92519},
+																		pos: position{line: 2926, col: 11, offset: 92509},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92519},
+																			pos:        position{line: 2926, col: 11, offset: 92509},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28635,29 +28635,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1527, col: 5, offset: 49747},
+													pos: position{line: 1527, col: 5, offset: 49737},
 													expr: &actionExpr{
-														pos: position{line: 1736, col: 5, offset: 56267},
+														pos: position{line: 1736, col: 5, offset: 56257},
 														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1736, col: 5, offset: 56267},
+															pos: position{line: 1736, col: 5, offset: 56257},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1736, col: 5, offset: 56267},
+																	pos:        position{line: 1736, col: 5, offset: 56257},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1736, col: 9, offset: 56271},
+																	pos:   position{line: 1736, col: 9, offset: 56261},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1736, col: 14, offset: 56276},
+																		pos: position{line: 1736, col: 14, offset: 56266},
 																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1736, col: 14, offset: 56276},
+																			pos: position{line: 1736, col: 14, offset: 56266},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1736, col: 14, offset: 56276},
+																				pos:        position{line: 1736, col: 14, offset: 56266},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28667,18 +28667,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1736, col: 62, offset: 56324},
+																	pos:        position{line: 1736, col: 62, offset: 56314},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92519},
+																	pos: position{line: 2926, col: 11, offset: 92509},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92519},
+																		pos: position{line: 2926, col: 11, offset: 92509},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92519},
+																			pos:        position{line: 2926, col: 11, offset: 92509},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28691,31 +28691,31 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1528, col: 5, offset: 49777},
+													pos: position{line: 1528, col: 5, offset: 49767},
 													expr: &seqExpr{
-														pos: position{line: 1528, col: 7, offset: 49779},
+														pos: position{line: 1528, col: 7, offset: 49769},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1681, col: 5, offset: 54717},
+																pos: position{line: 1681, col: 5, offset: 54707},
 																run: (*parser).callonExtraListElement604,
 																expr: &seqExpr{
-																	pos: position{line: 1681, col: 5, offset: 54717},
+																	pos: position{line: 1681, col: 5, offset: 54707},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1681, col: 5, offset: 54717},
+																			pos: position{line: 1681, col: 5, offset: 54707},
 																			expr: &seqExpr{
-																				pos: position{line: 2530, col: 31, offset: 81486},
+																				pos: position{line: 2530, col: 31, offset: 81476},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2530, col: 31, offset: 81486},
+																						pos:        position{line: 2530, col: 31, offset: 81476},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2530, col: 36, offset: 81491},
+																						pos: position{line: 2530, col: 36, offset: 81481},
 																						expr: &litMatcher{
-																							pos:        position{line: 2530, col: 37, offset: 81492},
+																							pos:        position{line: 2530, col: 37, offset: 81482},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -28725,28 +28725,28 @@ var g = &grammar{
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1682, col: 5, offset: 54749},
+																			pos: position{line: 1682, col: 5, offset: 54739},
 																			expr: &seqExpr{
-																				pos: position{line: 1682, col: 6, offset: 54750},
+																				pos: position{line: 1682, col: 6, offset: 54740},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1682, col: 6, offset: 54750},
+																						pos: position{line: 1682, col: 6, offset: 54740},
 																						expr: &actionExpr{
-																							pos: position{line: 1687, col: 5, offset: 54900},
+																							pos: position{line: 1687, col: 5, offset: 54890},
 																							run: (*parser).callonExtraListElement614,
 																							expr: &seqExpr{
-																								pos: position{line: 1687, col: 5, offset: 54900},
+																								pos: position{line: 1687, col: 5, offset: 54890},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1687, col: 5, offset: 54900},
+																										pos:   position{line: 1687, col: 5, offset: 54890},
 																										label: "separator",
 																										expr: &actionExpr{
-																											pos: position{line: 1687, col: 16, offset: 54911},
+																											pos: position{line: 1687, col: 16, offset: 54901},
 																											run: (*parser).callonExtraListElement617,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1687, col: 16, offset: 54911},
+																												pos: position{line: 1687, col: 16, offset: 54901},
 																												expr: &litMatcher{
-																													pos:        position{line: 1687, col: 17, offset: 54912},
+																													pos:        position{line: 1687, col: 17, offset: 54902},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
@@ -28755,7 +28755,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1690, col: 5, offset: 54969},
+																										pos: position{line: 1690, col: 5, offset: 54959},
 																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
@@ -28763,30 +28763,30 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1682, col: 35, offset: 54779},
+																						pos: position{line: 1682, col: 35, offset: 54769},
 																						expr: &choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28795,16 +28795,16 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1682, col: 40, offset: 54784,
+																						line: 1682, col: 40, offset: 54774,
 																					},
 																				},
 																			},
@@ -28813,21 +28813,21 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1687, col: 5, offset: 54900},
+																pos: position{line: 1687, col: 5, offset: 54890},
 																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 5, offset: 54900},
+																	pos: position{line: 1687, col: 5, offset: 54890},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1687, col: 5, offset: 54900},
+																			pos:   position{line: 1687, col: 5, offset: 54890},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1687, col: 16, offset: 54911},
+																				pos: position{line: 1687, col: 16, offset: 54901},
 																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1687, col: 16, offset: 54911},
+																					pos: position{line: 1687, col: 16, offset: 54901},
 																					expr: &litMatcher{
-																						pos:        position{line: 1687, col: 17, offset: 54912},
+																						pos:        position{line: 1687, col: 17, offset: 54902},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28836,7 +28836,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1690, col: 5, offset: 54969},
+																			pos: position{line: 1690, col: 5, offset: 54959},
 																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
@@ -28846,7 +28846,7 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1529, col: 5, offset: 49835},
+													pos: position{line: 1529, col: 5, offset: 49825},
 													expr: &actionExpr{
 														pos: position{line: 737, col: 5, offset: 23726},
 														run: (*parser).callonExtraListElement639,
@@ -28856,7 +28856,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 737, col: 5, offset: 23726},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2812, col: 13, offset: 89553},
+																		pos:        position{line: 2812, col: 13, offset: 89543},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28906,10 +28906,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 755, col: 8, offset: 24370},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92458},
+																								pos: position{line: 2922, col: 10, offset: 92448},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92458},
+																									pos:        position{line: 2922, col: 10, offset: 92448},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28918,28 +28918,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28948,9 +28948,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -28995,10 +28995,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24618},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92458},
+																								pos: position{line: 2922, col: 10, offset: 92448},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92458},
+																									pos:        position{line: 2922, col: 10, offset: 92448},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29007,28 +29007,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29037,9 +29037,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -29080,10 +29080,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 773, col: 52, offset: 25030},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92458},
+																								pos: position{line: 2922, col: 10, offset: 92448},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92458},
+																									pos:        position{line: 2922, col: 10, offset: 92448},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29092,28 +29092,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29122,9 +29122,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -29169,10 +29169,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 769, col: 8, offset: 24864},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92458},
+																								pos: position{line: 2922, col: 10, offset: 92448},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92458},
+																									pos:        position{line: 2922, col: 10, offset: 92448},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29181,28 +29181,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29211,9 +29211,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -29258,10 +29258,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 784, col: 8, offset: 25402},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92458},
+																								pos: position{line: 2922, col: 10, offset: 92448},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92458},
+																									pos:        position{line: 2922, col: 10, offset: 92448},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29270,28 +29270,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29300,9 +29300,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -29347,10 +29347,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 798, col: 8, offset: 25878},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92458},
+																								pos: position{line: 2922, col: 10, offset: 92448},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92458},
+																									pos:        position{line: 2922, col: 10, offset: 92448},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29359,28 +29359,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29389,9 +29389,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -29436,10 +29436,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 805, col: 8, offset: 26130},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92458},
+																								pos: position{line: 2922, col: 10, offset: 92448},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92458},
+																									pos:        position{line: 2922, col: 10, offset: 92448},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29448,28 +29448,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29478,9 +29478,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -29525,10 +29525,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 812, col: 8, offset: 26380},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92458},
+																								pos: position{line: 2922, col: 10, offset: 92448},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92458},
+																									pos:        position{line: 2922, col: 10, offset: 92448},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29537,28 +29537,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29567,9 +29567,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -29614,10 +29614,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 819, col: 8, offset: 26626},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92458},
+																								pos: position{line: 2922, col: 10, offset: 92448},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92458},
+																									pos:        position{line: 2922, col: 10, offset: 92448},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29626,28 +29626,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29656,9 +29656,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -29674,15 +29674,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1530, col: 5, offset: 49855},
+													pos:   position{line: 1530, col: 5, offset: 49845},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 14, offset: 91051},
+														pos: position{line: 2872, col: 14, offset: 91041},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2872, col: 14, offset: 91051},
+															pos: position{line: 2872, col: 14, offset: 91041},
 															expr: &charClassMatcher{
-																pos:        position{line: 2872, col: 14, offset: 91051},
+																pos:        position{line: 2872, col: 14, offset: 91041},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29692,28 +29692,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92856},
+													pos: position{line: 2944, col: 8, offset: 92846},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92629},
+															pos: position{line: 2931, col: 12, offset: 92619},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92630},
+																pos: position{line: 2931, col: 13, offset: 92620},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92630},
+																		pos:        position{line: 2931, col: 13, offset: 92620},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92637},
+																		pos:        position{line: 2931, col: 20, offset: 92627},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92646},
+																		pos:        position{line: 2931, col: 29, offset: 92636},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29722,9 +29722,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92806},
+															pos: position{line: 2941, col: 8, offset: 92796},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92807,
+																line: 2941, col: 9, offset: 92797,
 															},
 														},
 													},
@@ -29741,28 +29741,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1546, col: 1, offset: 50246},
+			pos:  position{line: 1546, col: 1, offset: 50236},
 			expr: &actionExpr{
-				pos: position{line: 1547, col: 5, offset: 50271},
+				pos: position{line: 1547, col: 5, offset: 50261},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1547, col: 5, offset: 50271},
+					pos: position{line: 1547, col: 5, offset: 50261},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1547, col: 5, offset: 50271},
+							pos:   position{line: 1547, col: 5, offset: 50261},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1547, col: 12, offset: 50278},
+								pos: position{line: 1547, col: 12, offset: 50268},
 								expr: &seqExpr{
-									pos: position{line: 1547, col: 13, offset: 50279},
+									pos: position{line: 1547, col: 13, offset: 50269},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1547, col: 13, offset: 50279},
+											pos: position{line: 1547, col: 13, offset: 50269},
 											expr: &actionExpr{
-												pos: position{line: 2922, col: 10, offset: 92458},
+												pos: position{line: 2922, col: 10, offset: 92448},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2922, col: 10, offset: 92458},
+													pos:        position{line: 2922, col: 10, offset: 92448},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29771,25 +29771,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2931, col: 12, offset: 92629},
+											pos: position{line: 2931, col: 12, offset: 92619},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2931, col: 13, offset: 92630},
+												pos: position{line: 2931, col: 13, offset: 92620},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2931, col: 13, offset: 92630},
+														pos:        position{line: 2931, col: 13, offset: 92620},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2931, col: 20, offset: 92637},
+														pos:        position{line: 2931, col: 20, offset: 92627},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2931, col: 29, offset: 92646},
+														pos:        position{line: 2931, col: 29, offset: 92636},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29802,18 +29802,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1555, col: 27, offset: 50517},
+							pos:        position{line: 1555, col: 27, offset: 50507},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1555, col: 31, offset: 50521},
+							pos: position{line: 1555, col: 31, offset: 50511},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92458},
+								pos: position{line: 2922, col: 10, offset: 92448},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92458},
+									pos:        position{line: 2922, col: 10, offset: 92448},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29822,25 +29822,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2931, col: 12, offset: 92629},
+							pos: position{line: 2931, col: 12, offset: 92619},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2931, col: 13, offset: 92630},
+								pos: position{line: 2931, col: 13, offset: 92620},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2931, col: 13, offset: 92630},
+										pos:        position{line: 2931, col: 13, offset: 92620},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2931, col: 20, offset: 92637},
+										pos:        position{line: 2931, col: 20, offset: 92627},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2931, col: 29, offset: 92646},
+										pos:        position{line: 2931, col: 29, offset: 92636},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29849,38 +29849,38 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1549, col: 5, offset: 50328},
+							pos: position{line: 1549, col: 5, offset: 50318},
 							expr: &actionExpr{
-								pos: position{line: 2525, col: 22, offset: 81236},
+								pos: position{line: 2525, col: 22, offset: 81226},
 								run: (*parser).callonListContinuation24,
 								expr: &seqExpr{
-									pos: position{line: 2525, col: 22, offset: 81236},
+									pos: position{line: 2525, col: 22, offset: 81226},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2530, col: 31, offset: 81486},
+											pos:        position{line: 2530, col: 31, offset: 81476},
 											val:        "//",
 											ignoreCase: false,
 											want:       "\"//\"",
 										},
 										&notExpr{
-											pos: position{line: 2530, col: 36, offset: 81491},
+											pos: position{line: 2530, col: 36, offset: 81481},
 											expr: &litMatcher{
-												pos:        position{line: 2530, col: 37, offset: 81492},
+												pos:        position{line: 2530, col: 37, offset: 81482},
 												val:        "/",
 												ignoreCase: false,
 												want:       "\"/\"",
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2525, col: 49, offset: 81263},
+											pos:   position{line: 2525, col: 49, offset: 81253},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2868, col: 13, offset: 90984},
+												pos: position{line: 2868, col: 13, offset: 90974},
 												run: (*parser).callonListContinuation30,
 												expr: &zeroOrMoreExpr{
-													pos: position{line: 2868, col: 13, offset: 90984},
+													pos: position{line: 2868, col: 13, offset: 90974},
 													expr: &charClassMatcher{
-														pos:        position{line: 2868, col: 13, offset: 90984},
+														pos:        position{line: 2868, col: 13, offset: 90974},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -29890,28 +29890,28 @@ var g = &grammar{
 											},
 										},
 										&choiceExpr{
-											pos: position{line: 2944, col: 8, offset: 92856},
+											pos: position{line: 2944, col: 8, offset: 92846},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2931, col: 12, offset: 92629},
+													pos: position{line: 2931, col: 12, offset: 92619},
 													run: (*parser).callonListContinuation34,
 													expr: &choiceExpr{
-														pos: position{line: 2931, col: 13, offset: 92630},
+														pos: position{line: 2931, col: 13, offset: 92620},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2931, col: 13, offset: 92630},
+																pos:        position{line: 2931, col: 13, offset: 92620},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2931, col: 20, offset: 92637},
+																pos:        position{line: 2931, col: 20, offset: 92627},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2931, col: 29, offset: 92646},
+																pos:        position{line: 2931, col: 29, offset: 92636},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -29920,9 +29920,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92806},
+													pos: position{line: 2941, col: 8, offset: 92796},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92807,
+														line: 2941, col: 9, offset: 92797,
 													},
 												},
 											},
@@ -29932,12 +29932,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1550, col: 5, offset: 50362},
+							pos:   position{line: 1550, col: 5, offset: 50352},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1550, col: 13, offset: 50370},
+								pos: position{line: 1550, col: 13, offset: 50360},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1550, col: 13, offset: 50370},
+									pos:  position{line: 1550, col: 13, offset: 50360},
 									name: "ListContinuationElement",
 								},
 							},
@@ -29948,46 +29948,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1557, col: 1, offset: 50537},
+			pos:  position{line: 1557, col: 1, offset: 50527},
 			expr: &actionExpr{
-				pos: position{line: 1558, col: 5, offset: 50608},
+				pos: position{line: 1558, col: 5, offset: 50598},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1558, col: 5, offset: 50608},
+					pos: position{line: 1558, col: 5, offset: 50598},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92792},
+							pos: position{line: 2939, col: 11, offset: 92782},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92794,
+								line: 2939, col: 13, offset: 92784,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1559, col: 5, offset: 50636},
+							pos: position{line: 1559, col: 5, offset: 50626},
 							expr: &choiceExpr{
-								pos: position{line: 1495, col: 5, offset: 48560},
+								pos: position{line: 1495, col: 5, offset: 48550},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1589, col: 5, offset: 51528},
+										pos: position{line: 1589, col: 5, offset: 51518},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1589, col: 5, offset: 51528},
+											pos: position{line: 1589, col: 5, offset: 51518},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1589, col: 5, offset: 51528},
+													pos:   position{line: 1589, col: 5, offset: 51518},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1596, col: 5, offset: 51736},
+														pos: position{line: 1596, col: 5, offset: 51726},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1596, col: 5, offset: 51736},
+															pos: position{line: 1596, col: 5, offset: 51726},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1596, col: 5, offset: 51736},
+																	pos: position{line: 1596, col: 5, offset: 51726},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92458},
+																		pos: position{line: 2922, col: 10, offset: 92448},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92458},
+																			pos:        position{line: 2922, col: 10, offset: 92448},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29996,27 +29996,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1596, col: 12, offset: 51743},
+																	pos:   position{line: 1596, col: 12, offset: 51733},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1598, col: 9, offset: 51806},
+																		pos: position{line: 1598, col: 9, offset: 51796},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1598, col: 9, offset: 51806},
+																				pos: position{line: 1598, col: 9, offset: 51796},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1598, col: 9, offset: 51806},
+																					pos: position{line: 1598, col: 9, offset: 51796},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1598, col: 9, offset: 51806},
+																							pos:   position{line: 1598, col: 9, offset: 51796},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1598, col: 16, offset: 51813},
+																								pos: position{line: 1598, col: 16, offset: 51803},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1598, col: 16, offset: 51813},
+																									pos: position{line: 1598, col: 16, offset: 51803},
 																									expr: &litMatcher{
-																										pos:        position{line: 1598, col: 17, offset: 51814},
+																										pos:        position{line: 1598, col: 17, offset: 51804},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -30025,22 +30025,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1602, col: 9, offset: 51914},
+																							pos: position{line: 1602, col: 9, offset: 51904},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 11, offset: 52631},
+																				pos: position{line: 1621, col: 11, offset: 52621},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 11, offset: 52631},
+																					pos: position{line: 1621, col: 11, offset: 52621},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1621, col: 11, offset: 52631},
+																							pos: position{line: 1621, col: 11, offset: 52621},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1621, col: 12, offset: 52632},
+																								pos:        position{line: 1621, col: 12, offset: 52622},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -30048,7 +30048,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 20, offset: 52640},
+																							pos:        position{line: 1621, col: 20, offset: 52630},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30057,20 +30057,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1623, col: 13, offset: 52757},
+																				pos: position{line: 1623, col: 13, offset: 52747},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1623, col: 13, offset: 52757},
+																					pos: position{line: 1623, col: 13, offset: 52747},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1623, col: 14, offset: 52758},
+																							pos:        position{line: 1623, col: 14, offset: 52748},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1623, col: 21, offset: 52765},
+																							pos:        position{line: 1623, col: 21, offset: 52755},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30079,20 +30079,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1625, col: 13, offset: 52885},
+																				pos: position{line: 1625, col: 13, offset: 52875},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1625, col: 13, offset: 52885},
+																					pos: position{line: 1625, col: 13, offset: 52875},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1625, col: 14, offset: 52886},
+																							pos:        position{line: 1625, col: 14, offset: 52876},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1625, col: 21, offset: 52893},
+																							pos:        position{line: 1625, col: 21, offset: 52883},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30101,15 +30101,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1627, col: 13, offset: 53013},
+																				pos: position{line: 1627, col: 13, offset: 53003},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1627, col: 13, offset: 53013},
+																					pos: position{line: 1627, col: 13, offset: 53003},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1627, col: 13, offset: 53013},
+																							pos: position{line: 1627, col: 13, offset: 53003},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1627, col: 14, offset: 53014},
+																								pos:        position{line: 1627, col: 14, offset: 53004},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -30117,7 +30117,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1627, col: 26, offset: 53026},
+																							pos:        position{line: 1627, col: 26, offset: 53016},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30126,15 +30126,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1629, col: 13, offset: 53146},
+																				pos: position{line: 1629, col: 13, offset: 53136},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1629, col: 13, offset: 53146},
+																					pos: position{line: 1629, col: 13, offset: 53136},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1629, col: 13, offset: 53146},
+																							pos: position{line: 1629, col: 13, offset: 53136},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1629, col: 14, offset: 53147},
+																								pos:        position{line: 1629, col: 14, offset: 53137},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -30142,7 +30142,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1629, col: 26, offset: 53159},
+																							pos:        position{line: 1629, col: 26, offset: 53149},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30154,12 +30154,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92519},
+																	pos: position{line: 2926, col: 11, offset: 92509},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92519},
+																		pos: position{line: 2926, col: 11, offset: 92509},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92519},
+																			pos:        position{line: 2926, col: 11, offset: 92509},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30172,26 +30172,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1590, col: 5, offset: 51567},
+													pos:   position{line: 1590, col: 5, offset: 51557},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1536, col: 5, offset: 50000},
+														pos: position{line: 1536, col: 5, offset: 49990},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1536, col: 5, offset: 50000},
+															pos: position{line: 1536, col: 5, offset: 49990},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1536, col: 5, offset: 50000},
+																	pos:   position{line: 1536, col: 5, offset: 49990},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1536, col: 14, offset: 50009},
+																		pos: position{line: 1536, col: 14, offset: 49999},
 																		expr: &actionExpr{
-																			pos: position{line: 1536, col: 15, offset: 50010},
+																			pos: position{line: 1536, col: 15, offset: 50000},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1536, col: 15, offset: 50010},
+																				pos: position{line: 1536, col: 15, offset: 50000},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1536, col: 15, offset: 50010},
+																					pos:        position{line: 1536, col: 15, offset: 50000},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30202,28 +30202,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92856},
+																	pos: position{line: 2944, col: 8, offset: 92846},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92629},
+																			pos: position{line: 2931, col: 12, offset: 92619},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92630},
+																				pos: position{line: 2931, col: 13, offset: 92620},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92630},
+																						pos:        position{line: 2931, col: 13, offset: 92620},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92637},
+																						pos:        position{line: 2931, col: 20, offset: 92627},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92646},
+																						pos:        position{line: 2931, col: 29, offset: 92636},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30232,9 +30232,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92806},
+																			pos: position{line: 2941, col: 8, offset: 92796},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92807,
+																				line: 2941, col: 9, offset: 92797,
 																			},
 																		},
 																	},
@@ -30247,27 +30247,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1639, col: 5, offset: 53425},
+										pos: position{line: 1639, col: 5, offset: 53415},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1639, col: 5, offset: 53425},
+											pos: position{line: 1639, col: 5, offset: 53415},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1639, col: 5, offset: 53425},
+													pos:   position{line: 1639, col: 5, offset: 53415},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1646, col: 5, offset: 53698},
+														pos: position{line: 1646, col: 5, offset: 53688},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1646, col: 5, offset: 53698},
+															pos: position{line: 1646, col: 5, offset: 53688},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1646, col: 5, offset: 53698},
+																	pos: position{line: 1646, col: 5, offset: 53688},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92458},
+																		pos: position{line: 2922, col: 10, offset: 92448},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92458},
+																			pos:        position{line: 2922, col: 10, offset: 92448},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30276,24 +30276,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1647, col: 5, offset: 53710},
+																	pos:   position{line: 1647, col: 5, offset: 53700},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1648, col: 9, offset: 53726},
+																		pos: position{line: 1648, col: 9, offset: 53716},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1648, col: 10, offset: 53727},
+																			pos: position{line: 1648, col: 10, offset: 53717},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1648, col: 11, offset: 53728},
+																					pos:        position{line: 1648, col: 11, offset: 53718},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1648, col: 18, offset: 53735},
+																					pos: position{line: 1648, col: 18, offset: 53725},
 																					expr: &litMatcher{
-																						pos:        position{line: 1648, col: 19, offset: 53736},
+																						pos:        position{line: 1648, col: 19, offset: 53726},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -30304,16 +30304,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1651, col: 7, offset: 53826},
+																	pos: position{line: 1651, col: 7, offset: 53816},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92519},
+																	pos: position{line: 2926, col: 11, offset: 92509},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92519},
+																		pos: position{line: 2926, col: 11, offset: 92509},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92519},
+																			pos:        position{line: 2926, col: 11, offset: 92509},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30326,56 +30326,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1640, col: 5, offset: 53466},
+													pos:   position{line: 1640, col: 5, offset: 53456},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1640, col: 16, offset: 53477},
+														pos: position{line: 1640, col: 16, offset: 53467},
 														expr: &actionExpr{
-															pos: position{line: 1661, col: 5, offset: 54091},
+															pos: position{line: 1661, col: 5, offset: 54081},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1661, col: 5, offset: 54091},
+																pos: position{line: 1661, col: 5, offset: 54081},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1661, col: 5, offset: 54091},
+																		pos: position{line: 1661, col: 5, offset: 54081},
 																		expr: &litMatcher{
-																			pos:        position{line: 1661, col: 6, offset: 54092},
+																			pos:        position{line: 1661, col: 6, offset: 54082},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1661, col: 10, offset: 54096},
+																		pos:   position{line: 1661, col: 10, offset: 54086},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1662, col: 7, offset: 54110},
+																			pos: position{line: 1662, col: 7, offset: 54100},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1662, col: 7, offset: 54110},
+																					pos: position{line: 1662, col: 7, offset: 54100},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1662, col: 7, offset: 54110},
+																						pos:        position{line: 1662, col: 7, offset: 54100},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1663, col: 7, offset: 54155},
+																					pos: position{line: 1663, col: 7, offset: 54145},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1663, col: 7, offset: 54155},
+																						pos:        position{line: 1663, col: 7, offset: 54145},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1664, col: 7, offset: 54198},
+																					pos: position{line: 1664, col: 7, offset: 54188},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1664, col: 7, offset: 54198},
+																						pos:        position{line: 1664, col: 7, offset: 54188},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -30385,12 +30385,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2926, col: 11, offset: 92519},
+																		pos: position{line: 2926, col: 11, offset: 92509},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2926, col: 11, offset: 92519},
+																			pos: position{line: 2926, col: 11, offset: 92509},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2926, col: 11, offset: 92519},
+																				pos:        position{line: 2926, col: 11, offset: 92509},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30404,26 +30404,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1641, col: 5, offset: 53516},
+													pos:   position{line: 1641, col: 5, offset: 53506},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1536, col: 5, offset: 50000},
+														pos: position{line: 1536, col: 5, offset: 49990},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1536, col: 5, offset: 50000},
+															pos: position{line: 1536, col: 5, offset: 49990},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1536, col: 5, offset: 50000},
+																	pos:   position{line: 1536, col: 5, offset: 49990},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1536, col: 14, offset: 50009},
+																		pos: position{line: 1536, col: 14, offset: 49999},
 																		expr: &actionExpr{
-																			pos: position{line: 1536, col: 15, offset: 50010},
+																			pos: position{line: 1536, col: 15, offset: 50000},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1536, col: 15, offset: 50010},
+																				pos: position{line: 1536, col: 15, offset: 50000},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1536, col: 15, offset: 50010},
+																					pos:        position{line: 1536, col: 15, offset: 50000},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30434,28 +30434,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92856},
+																	pos: position{line: 2944, col: 8, offset: 92846},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92629},
+																			pos: position{line: 2931, col: 12, offset: 92619},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92630},
+																				pos: position{line: 2931, col: 13, offset: 92620},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92630},
+																						pos:        position{line: 2931, col: 13, offset: 92620},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92637},
+																						pos:        position{line: 2931, col: 20, offset: 92627},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92646},
+																						pos:        position{line: 2931, col: 29, offset: 92636},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30464,9 +30464,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92806},
+																			pos: position{line: 2941, col: 8, offset: 92796},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92807,
+																				line: 2941, col: 9, offset: 92797,
 																			},
 																		},
 																	},
@@ -30479,36 +30479,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1730, col: 5, offset: 56070},
+										pos: position{line: 1730, col: 5, offset: 56060},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1730, col: 5, offset: 56070},
+											pos: position{line: 1730, col: 5, offset: 56060},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1730, col: 5, offset: 56070},
+													pos:   position{line: 1730, col: 5, offset: 56060},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1736, col: 5, offset: 56267},
+														pos: position{line: 1736, col: 5, offset: 56257},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1736, col: 5, offset: 56267},
+															pos: position{line: 1736, col: 5, offset: 56257},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1736, col: 5, offset: 56267},
+																	pos:        position{line: 1736, col: 5, offset: 56257},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1736, col: 9, offset: 56271},
+																	pos:   position{line: 1736, col: 9, offset: 56261},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1736, col: 14, offset: 56276},
+																		pos: position{line: 1736, col: 14, offset: 56266},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1736, col: 14, offset: 56276},
+																			pos: position{line: 1736, col: 14, offset: 56266},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1736, col: 14, offset: 56276},
+																				pos:        position{line: 1736, col: 14, offset: 56266},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30518,18 +30518,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1736, col: 62, offset: 56324},
+																	pos:        position{line: 1736, col: 62, offset: 56314},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92519},
+																	pos: position{line: 2926, col: 11, offset: 92509},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92519},
+																		pos: position{line: 2926, col: 11, offset: 92509},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92519},
+																			pos:        position{line: 2926, col: 11, offset: 92509},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30542,26 +30542,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1731, col: 5, offset: 56106},
+													pos:   position{line: 1731, col: 5, offset: 56096},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1536, col: 5, offset: 50000},
+														pos: position{line: 1536, col: 5, offset: 49990},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1536, col: 5, offset: 50000},
+															pos: position{line: 1536, col: 5, offset: 49990},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1536, col: 5, offset: 50000},
+																	pos:   position{line: 1536, col: 5, offset: 49990},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1536, col: 14, offset: 50009},
+																		pos: position{line: 1536, col: 14, offset: 49999},
 																		expr: &actionExpr{
-																			pos: position{line: 1536, col: 15, offset: 50010},
+																			pos: position{line: 1536, col: 15, offset: 50000},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1536, col: 15, offset: 50010},
+																				pos: position{line: 1536, col: 15, offset: 50000},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1536, col: 15, offset: 50010},
+																					pos:        position{line: 1536, col: 15, offset: 50000},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30572,28 +30572,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92856},
+																	pos: position{line: 2944, col: 8, offset: 92846},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92629},
+																			pos: position{line: 2931, col: 12, offset: 92619},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92630},
+																				pos: position{line: 2931, col: 13, offset: 92620},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92630},
+																						pos:        position{line: 2931, col: 13, offset: 92620},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92637},
+																						pos:        position{line: 2931, col: 20, offset: 92627},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92646},
+																						pos:        position{line: 2931, col: 29, offset: 92636},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30602,9 +30602,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92806},
+																			pos: position{line: 2941, col: 8, offset: 92796},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92807,
+																				line: 2941, col: 9, offset: 92797,
 																			},
 																		},
 																	},
@@ -30617,35 +30617,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1673, col: 5, offset: 54391},
+										pos: position{line: 1673, col: 5, offset: 54381},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1673, col: 5, offset: 54391},
+											pos: position{line: 1673, col: 5, offset: 54381},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1673, col: 5, offset: 54391},
+													pos:   position{line: 1673, col: 5, offset: 54381},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1681, col: 5, offset: 54717},
+														pos: position{line: 1681, col: 5, offset: 54707},
 														run: (*parser).callonListContinuationElement150,
 														expr: &seqExpr{
-															pos: position{line: 1681, col: 5, offset: 54717},
+															pos: position{line: 1681, col: 5, offset: 54707},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1681, col: 5, offset: 54717},
+																	pos: position{line: 1681, col: 5, offset: 54707},
 																	expr: &seqExpr{
-																		pos: position{line: 2530, col: 31, offset: 81486},
+																		pos: position{line: 2530, col: 31, offset: 81476},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2530, col: 31, offset: 81486},
+																				pos:        position{line: 2530, col: 31, offset: 81476},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2530, col: 36, offset: 81491},
+																				pos: position{line: 2530, col: 36, offset: 81481},
 																				expr: &litMatcher{
-																					pos:        position{line: 2530, col: 37, offset: 81492},
+																					pos:        position{line: 2530, col: 37, offset: 81482},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -30655,28 +30655,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1682, col: 5, offset: 54749},
+																	pos: position{line: 1682, col: 5, offset: 54739},
 																	expr: &seqExpr{
-																		pos: position{line: 1682, col: 6, offset: 54750},
+																		pos: position{line: 1682, col: 6, offset: 54740},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1682, col: 6, offset: 54750},
+																				pos: position{line: 1682, col: 6, offset: 54740},
 																				expr: &actionExpr{
-																					pos: position{line: 1687, col: 5, offset: 54900},
+																					pos: position{line: 1687, col: 5, offset: 54890},
 																					run: (*parser).callonListContinuationElement160,
 																					expr: &seqExpr{
-																						pos: position{line: 1687, col: 5, offset: 54900},
+																						pos: position{line: 1687, col: 5, offset: 54890},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1687, col: 5, offset: 54900},
+																								pos:   position{line: 1687, col: 5, offset: 54890},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1687, col: 16, offset: 54911},
+																									pos: position{line: 1687, col: 16, offset: 54901},
 																									run: (*parser).callonListContinuationElement163,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1687, col: 16, offset: 54911},
+																										pos: position{line: 1687, col: 16, offset: 54901},
 																										expr: &litMatcher{
-																											pos:        position{line: 1687, col: 17, offset: 54912},
+																											pos:        position{line: 1687, col: 17, offset: 54902},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -30685,7 +30685,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1690, col: 5, offset: 54969},
+																								pos: position{line: 1690, col: 5, offset: 54959},
 																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
@@ -30693,30 +30693,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1682, col: 35, offset: 54779},
+																				pos: position{line: 1682, col: 35, offset: 54769},
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92856},
+																					pos: position{line: 2944, col: 8, offset: 92846},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92629},
+																							pos: position{line: 2931, col: 12, offset: 92619},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92630},
+																								pos: position{line: 2931, col: 13, offset: 92620},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92630},
+																										pos:        position{line: 2931, col: 13, offset: 92620},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92637},
+																										pos:        position{line: 2931, col: 20, offset: 92627},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92646},
+																										pos:        position{line: 2931, col: 29, offset: 92636},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30725,16 +30725,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92806},
+																							pos: position{line: 2941, col: 8, offset: 92796},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92807,
+																								line: 2941, col: 9, offset: 92797,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1682, col: 40, offset: 54784,
+																				line: 1682, col: 40, offset: 54774,
 																			},
 																		},
 																	},
@@ -30744,24 +30744,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1674, col: 5, offset: 54426},
+													pos:   position{line: 1674, col: 5, offset: 54416},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1687, col: 5, offset: 54900},
+														pos: position{line: 1687, col: 5, offset: 54890},
 														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1687, col: 5, offset: 54900},
+															pos: position{line: 1687, col: 5, offset: 54890},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1687, col: 5, offset: 54900},
+																	pos:   position{line: 1687, col: 5, offset: 54890},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1687, col: 16, offset: 54911},
+																		pos: position{line: 1687, col: 16, offset: 54901},
 																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1687, col: 16, offset: 54911},
+																			pos: position{line: 1687, col: 16, offset: 54901},
 																			expr: &litMatcher{
-																				pos:        position{line: 1687, col: 17, offset: 54912},
+																				pos:        position{line: 1687, col: 17, offset: 54902},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30770,7 +30770,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1690, col: 5, offset: 54969},
+																	pos: position{line: 1690, col: 5, offset: 54959},
 																	run: (*parser).callonListContinuationElement184,
 																},
 															},
@@ -30778,24 +30778,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1675, col: 5, offset: 54471},
+													pos:   position{line: 1675, col: 5, offset: 54461},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1698, col: 5, offset: 55218},
+														pos: position{line: 1698, col: 5, offset: 55208},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1700, col: 9, offset: 55284},
+																pos: position{line: 1700, col: 9, offset: 55274},
 																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1700, col: 9, offset: 55284},
+																	pos: position{line: 1700, col: 9, offset: 55274},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1700, col: 9, offset: 55284},
+																			pos: position{line: 1700, col: 9, offset: 55274},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92458},
+																				pos: position{line: 2922, col: 10, offset: 92448},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92458},
+																					pos:        position{line: 2922, col: 10, offset: 92448},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30804,28 +30804,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92856},
+																			pos: position{line: 2944, col: 8, offset: 92846},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92629},
+																					pos: position{line: 2931, col: 12, offset: 92619},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92630},
+																						pos: position{line: 2931, col: 13, offset: 92620},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92630},
+																								pos:        position{line: 2931, col: 13, offset: 92620},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92637},
+																								pos:        position{line: 2931, col: 20, offset: 92627},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92646},
+																								pos:        position{line: 2931, col: 29, offset: 92636},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30834,15 +30834,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1701, col: 9, offset: 55303},
+																			pos: position{line: 1701, col: 9, offset: 55293},
 																			expr: &actionExpr{
 																				pos: position{line: 690, col: 14, offset: 22173},
 																				run: (*parser).callonListContinuationElement201,
@@ -30850,18 +30850,18 @@ var g = &grammar{
 																					pos: position{line: 690, col: 14, offset: 22173},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92792},
+																							pos: position{line: 2939, col: 11, offset: 92782},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92794,
+																								line: 2939, col: 13, offset: 92784,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 690, col: 21, offset: 22180},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92458},
+																								pos: position{line: 2922, col: 10, offset: 92448},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92458},
+																									pos:        position{line: 2922, col: 10, offset: 92448},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30870,28 +30870,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30900,9 +30900,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -30915,18 +30915,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1707, col: 9, offset: 55432},
+																pos: position{line: 1707, col: 9, offset: 55422},
 																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1707, col: 9, offset: 55432},
+																	pos: position{line: 1707, col: 9, offset: 55422},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2926, col: 11, offset: 92519},
+																			pos: position{line: 2926, col: 11, offset: 92509},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2926, col: 11, offset: 92519},
+																				pos: position{line: 2926, col: 11, offset: 92509},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2926, col: 11, offset: 92519},
+																					pos:        position{line: 2926, col: 11, offset: 92509},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30935,15 +30935,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1708, col: 9, offset: 55505},
+																			pos:   position{line: 1708, col: 9, offset: 55495},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1708, col: 18, offset: 55514},
+																				pos: position{line: 1708, col: 18, offset: 55504},
 																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1708, col: 18, offset: 55514},
+																					pos: position{line: 1708, col: 18, offset: 55504},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1708, col: 18, offset: 55514},
+																						pos:        position{line: 1708, col: 18, offset: 55504},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30953,28 +30953,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92856},
+																			pos: position{line: 2944, col: 8, offset: 92846},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92629},
+																					pos: position{line: 2931, col: 12, offset: 92619},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92630},
+																						pos: position{line: 2931, col: 13, offset: 92620},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92630},
+																								pos:        position{line: 2931, col: 13, offset: 92620},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92637},
+																								pos:        position{line: 2931, col: 20, offset: 92627},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92646},
+																								pos:        position{line: 2931, col: 29, offset: 92636},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30983,9 +30983,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -31003,21 +31003,21 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1560, col: 5, offset: 50653},
+							pos:   position{line: 1560, col: 5, offset: 50643},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1560, col: 16, offset: 50664},
+								pos: position{line: 1560, col: 16, offset: 50654},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1560, col: 17, offset: 50665},
+									pos:  position{line: 1560, col: 17, offset: 50655},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1561, col: 5, offset: 50687},
+							pos:   position{line: 1561, col: 5, offset: 50677},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1562, col: 9, offset: 50705},
+								pos: position{line: 1562, col: 9, offset: 50695},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 690, col: 14, offset: 22173},
@@ -31026,18 +31026,18 @@ var g = &grammar{
 											pos: position{line: 690, col: 14, offset: 22173},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2939, col: 11, offset: 92792},
+													pos: position{line: 2939, col: 11, offset: 92782},
 													expr: &anyMatcher{
-														line: 2939, col: 13, offset: 92794,
+														line: 2939, col: 13, offset: 92784,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 690, col: 21, offset: 22180},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92458},
+														pos: position{line: 2922, col: 10, offset: 92448},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92458},
+															pos:        position{line: 2922, col: 10, offset: 92448},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31046,28 +31046,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92856},
+													pos: position{line: 2944, col: 8, offset: 92846},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92629},
+															pos: position{line: 2931, col: 12, offset: 92619},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92630},
+																pos: position{line: 2931, col: 13, offset: 92620},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92630},
+																		pos:        position{line: 2931, col: 13, offset: 92620},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92637},
+																		pos:        position{line: 2931, col: 20, offset: 92627},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92646},
+																		pos:        position{line: 2931, col: 29, offset: 92636},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31076,9 +31076,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92806},
+															pos: position{line: 2941, col: 8, offset: 92796},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92807,
+																line: 2941, col: 9, offset: 92797,
 															},
 														},
 													},
@@ -31087,7 +31087,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1563, col: 11, offset: 50725},
+										pos:  position{line: 1563, col: 11, offset: 50715},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -31143,10 +31143,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 49, offset: 11042},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92458},
+														pos: position{line: 2922, col: 10, offset: 92448},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92458},
+															pos:        position{line: 2922, col: 10, offset: 92448},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31155,28 +31155,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92856},
+													pos: position{line: 2944, col: 8, offset: 92846},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92629},
+															pos: position{line: 2931, col: 12, offset: 92619},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92630},
+																pos: position{line: 2931, col: 13, offset: 92620},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92630},
+																		pos:        position{line: 2931, col: 13, offset: 92620},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92637},
+																		pos:        position{line: 2931, col: 20, offset: 92627},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92646},
+																		pos:        position{line: 2931, col: 29, offset: 92636},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31185,9 +31185,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92806},
+															pos: position{line: 2941, col: 8, offset: 92796},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92807,
+																line: 2941, col: 9, offset: 92797,
 															},
 														},
 													},
@@ -31248,10 +31248,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 364, col: 39, offset: 11163},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92458},
+														pos: position{line: 2922, col: 10, offset: 92448},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92458},
+															pos:        position{line: 2922, col: 10, offset: 92448},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31260,28 +31260,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92856},
+													pos: position{line: 2944, col: 8, offset: 92846},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92629},
+															pos: position{line: 2931, col: 12, offset: 92619},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92630},
+																pos: position{line: 2931, col: 13, offset: 92620},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92630},
+																		pos:        position{line: 2931, col: 13, offset: 92620},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92637},
+																		pos:        position{line: 2931, col: 20, offset: 92627},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92646},
+																		pos:        position{line: 2931, col: 29, offset: 92636},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31290,9 +31290,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92806},
+															pos: position{line: 2941, col: 8, offset: 92796},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92807,
+																line: 2941, col: 9, offset: 92797,
 															},
 														},
 													},
@@ -31343,10 +31343,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 755, col: 8, offset: 24370},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92458},
+																	pos: position{line: 2922, col: 10, offset: 92448},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92458},
+																		pos:        position{line: 2922, col: 10, offset: 92448},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31355,28 +31355,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92856},
+																pos: position{line: 2944, col: 8, offset: 92846},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92629},
+																		pos: position{line: 2931, col: 12, offset: 92619},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92630},
+																			pos: position{line: 2931, col: 13, offset: 92620},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92630},
+																					pos:        position{line: 2931, col: 13, offset: 92620},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92637},
+																					pos:        position{line: 2931, col: 20, offset: 92627},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92646},
+																					pos:        position{line: 2931, col: 29, offset: 92636},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31385,9 +31385,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92806},
+																		pos: position{line: 2941, col: 8, offset: 92796},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92807,
+																			line: 2941, col: 9, offset: 92797,
 																		},
 																	},
 																},
@@ -31448,10 +31448,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 755, col: 8, offset: 24370},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92458},
+																									pos: position{line: 2922, col: 10, offset: 92448},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92458},
+																										pos:        position{line: 2922, col: 10, offset: 92448},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -31460,28 +31460,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92856},
+																								pos: position{line: 2944, col: 8, offset: 92846},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92629},
+																										pos: position{line: 2931, col: 12, offset: 92619},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92630},
+																											pos: position{line: 2931, col: 13, offset: 92620},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92630},
+																													pos:        position{line: 2931, col: 13, offset: 92620},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92637},
+																													pos:        position{line: 2931, col: 20, offset: 92627},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92646},
+																													pos:        position{line: 2931, col: 29, offset: 92636},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -31490,9 +31490,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92806},
+																										pos: position{line: 2941, col: 8, offset: 92796},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92807,
+																											line: 2941, col: 9, offset: 92797,
 																										},
 																									},
 																								},
@@ -31501,9 +31501,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -31519,21 +31519,21 @@ var g = &grammar{
 																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92792},
+																						pos: position{line: 2939, col: 11, offset: 92782},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92794,
+																							line: 2939, col: 13, offset: 92784,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90984},
+																							pos: position{line: 2868, col: 13, offset: 90974},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90984},
+																								pos: position{line: 2868, col: 13, offset: 90974},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90984},
+																									pos:        position{line: 2868, col: 13, offset: 90974},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31543,28 +31543,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92856},
+																						pos: position{line: 2944, col: 8, offset: 92846},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92629},
+																								pos: position{line: 2931, col: 12, offset: 92619},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92630},
+																									pos: position{line: 2931, col: 13, offset: 92620},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92630},
+																											pos:        position{line: 2931, col: 13, offset: 92620},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92637},
+																											pos:        position{line: 2931, col: 20, offset: 92627},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92646},
+																											pos:        position{line: 2931, col: 29, offset: 92636},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31573,9 +31573,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92806},
+																								pos: position{line: 2941, col: 8, offset: 92796},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92807,
+																									line: 2941, col: 9, offset: 92797,
 																								},
 																							},
 																						},
@@ -31631,10 +31631,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 755, col: 8, offset: 24370},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92458},
+																				pos: position{line: 2922, col: 10, offset: 92448},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92458},
+																					pos:        position{line: 2922, col: 10, offset: 92448},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31643,28 +31643,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92856},
+																			pos: position{line: 2944, col: 8, offset: 92846},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92629},
+																					pos: position{line: 2931, col: 12, offset: 92619},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92630},
+																						pos: position{line: 2931, col: 13, offset: 92620},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92630},
+																								pos:        position{line: 2931, col: 13, offset: 92620},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92637},
+																								pos:        position{line: 2931, col: 20, offset: 92627},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92646},
+																								pos:        position{line: 2931, col: 29, offset: 92636},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31673,9 +31673,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -31684,9 +31684,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92806},
+																pos: position{line: 2941, col: 8, offset: 92796},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92807,
+																	line: 2941, col: 9, offset: 92797,
 																},
 															},
 														},
@@ -31741,10 +31741,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24618},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92458},
+																		pos: position{line: 2922, col: 10, offset: 92448},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92458},
+																			pos:        position{line: 2922, col: 10, offset: 92448},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31753,28 +31753,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92856},
+																	pos: position{line: 2944, col: 8, offset: 92846},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92629},
+																			pos: position{line: 2931, col: 12, offset: 92619},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92630},
+																				pos: position{line: 2931, col: 13, offset: 92620},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92630},
+																						pos:        position{line: 2931, col: 13, offset: 92620},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92637},
+																						pos:        position{line: 2931, col: 20, offset: 92627},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92646},
+																						pos:        position{line: 2931, col: 29, offset: 92636},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31783,9 +31783,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92806},
+																			pos: position{line: 2941, col: 8, offset: 92796},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92807,
+																				line: 2941, col: 9, offset: 92797,
 																			},
 																		},
 																	},
@@ -31857,10 +31857,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24618},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92458},
+																												pos: position{line: 2922, col: 10, offset: 92448},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92458},
+																													pos:        position{line: 2922, col: 10, offset: 92448},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31869,28 +31869,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92856},
+																											pos: position{line: 2944, col: 8, offset: 92846},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92629},
+																													pos: position{line: 2931, col: 12, offset: 92619},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92630},
+																														pos: position{line: 2931, col: 13, offset: 92620},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92630},
+																																pos:        position{line: 2931, col: 13, offset: 92620},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92637},
+																																pos:        position{line: 2931, col: 20, offset: 92627},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92646},
+																																pos:        position{line: 2931, col: 29, offset: 92636},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31899,9 +31899,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92806},
+																													pos: position{line: 2941, col: 8, offset: 92796},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92807,
+																														line: 2941, col: 9, offset: 92797,
 																													},
 																												},
 																											},
@@ -31917,9 +31917,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -31935,21 +31935,21 @@ var g = &grammar{
 																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92792},
+																						pos: position{line: 2939, col: 11, offset: 92782},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92794,
+																							line: 2939, col: 13, offset: 92784,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90984},
+																							pos: position{line: 2868, col: 13, offset: 90974},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90984},
+																								pos: position{line: 2868, col: 13, offset: 90974},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90984},
+																									pos:        position{line: 2868, col: 13, offset: 90974},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31959,28 +31959,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92856},
+																						pos: position{line: 2944, col: 8, offset: 92846},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92629},
+																								pos: position{line: 2931, col: 12, offset: 92619},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92630},
+																									pos: position{line: 2931, col: 13, offset: 92620},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92630},
+																											pos:        position{line: 2931, col: 13, offset: 92620},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92637},
+																											pos:        position{line: 2931, col: 20, offset: 92627},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92646},
+																											pos:        position{line: 2931, col: 29, offset: 92636},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31989,9 +31989,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92806},
+																								pos: position{line: 2941, col: 8, offset: 92796},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92807,
+																									line: 2941, col: 9, offset: 92797,
 																								},
 																							},
 																						},
@@ -32056,10 +32056,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24618},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92458},
+																								pos: position{line: 2922, col: 10, offset: 92448},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92458},
+																									pos:        position{line: 2922, col: 10, offset: 92448},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32068,28 +32068,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32098,9 +32098,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -32116,9 +32116,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92806},
+																	pos: position{line: 2941, col: 8, offset: 92796},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92807,
+																		line: 2941, col: 9, offset: 92797,
 																	},
 																},
 															},
@@ -32170,10 +32170,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 773, col: 52, offset: 25030},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92458},
+																		pos: position{line: 2922, col: 10, offset: 92448},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92458},
+																			pos:        position{line: 2922, col: 10, offset: 92448},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32182,28 +32182,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92856},
+																	pos: position{line: 2944, col: 8, offset: 92846},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92629},
+																			pos: position{line: 2931, col: 12, offset: 92619},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92630},
+																				pos: position{line: 2931, col: 13, offset: 92620},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92630},
+																						pos:        position{line: 2931, col: 13, offset: 92620},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92637},
+																						pos:        position{line: 2931, col: 20, offset: 92627},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92646},
+																						pos:        position{line: 2931, col: 29, offset: 92636},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32212,9 +32212,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92806},
+																			pos: position{line: 2941, col: 8, offset: 92796},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92807,
+																				line: 2941, col: 9, offset: 92797,
 																			},
 																		},
 																	},
@@ -32248,10 +32248,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 976, col: 40, offset: 30833},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92458},
+																						pos: position{line: 2922, col: 10, offset: 92448},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92458},
+																							pos:        position{line: 2922, col: 10, offset: 92448},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32260,28 +32260,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92856},
+																					pos: position{line: 2944, col: 8, offset: 92846},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92629},
+																							pos: position{line: 2931, col: 12, offset: 92619},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92630},
+																								pos: position{line: 2931, col: 13, offset: 92620},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92630},
+																										pos:        position{line: 2931, col: 13, offset: 92620},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92637},
+																										pos:        position{line: 2931, col: 20, offset: 92627},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92646},
+																										pos:        position{line: 2931, col: 29, offset: 92636},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32290,9 +32290,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92806},
+																							pos: position{line: 2941, col: 8, offset: 92796},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92807,
+																								line: 2941, col: 9, offset: 92797,
 																							},
 																						},
 																					},
@@ -32310,21 +32310,21 @@ var g = &grammar{
 																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92792},
+																						pos: position{line: 2939, col: 11, offset: 92782},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92794,
+																							line: 2939, col: 13, offset: 92784,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90984},
+																							pos: position{line: 2868, col: 13, offset: 90974},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90984},
+																								pos: position{line: 2868, col: 13, offset: 90974},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90984},
+																									pos:        position{line: 2868, col: 13, offset: 90974},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32334,28 +32334,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92856},
+																						pos: position{line: 2944, col: 8, offset: 92846},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92629},
+																								pos: position{line: 2931, col: 12, offset: 92619},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92630},
+																									pos: position{line: 2931, col: 13, offset: 92620},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92630},
+																											pos:        position{line: 2931, col: 13, offset: 92620},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92637},
+																											pos:        position{line: 2931, col: 20, offset: 92627},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92646},
+																											pos:        position{line: 2931, col: 29, offset: 92636},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32364,9 +32364,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92806},
+																								pos: position{line: 2941, col: 8, offset: 92796},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92807,
+																									line: 2941, col: 9, offset: 92797,
 																								},
 																							},
 																						},
@@ -32394,10 +32394,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 976, col: 40, offset: 30833},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92458},
+																	pos: position{line: 2922, col: 10, offset: 92448},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92458},
+																		pos:        position{line: 2922, col: 10, offset: 92448},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32406,28 +32406,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92856},
+																pos: position{line: 2944, col: 8, offset: 92846},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92629},
+																		pos: position{line: 2931, col: 12, offset: 92619},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92630},
+																			pos: position{line: 2931, col: 13, offset: 92620},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92630},
+																					pos:        position{line: 2931, col: 13, offset: 92620},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92637},
+																					pos:        position{line: 2931, col: 20, offset: 92627},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92646},
+																					pos:        position{line: 2931, col: 29, offset: 92636},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32436,9 +32436,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92806},
+																		pos: position{line: 2941, col: 8, offset: 92796},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92807,
+																			line: 2941, col: 9, offset: 92797,
 																		},
 																	},
 																},
@@ -32495,10 +32495,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 769, col: 8, offset: 24864},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92458},
+																		pos: position{line: 2922, col: 10, offset: 92448},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92458},
+																			pos:        position{line: 2922, col: 10, offset: 92448},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32507,28 +32507,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92856},
+																	pos: position{line: 2944, col: 8, offset: 92846},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92629},
+																			pos: position{line: 2931, col: 12, offset: 92619},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92630},
+																				pos: position{line: 2931, col: 13, offset: 92620},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92630},
+																						pos:        position{line: 2931, col: 13, offset: 92620},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92637},
+																						pos:        position{line: 2931, col: 20, offset: 92627},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92646},
+																						pos:        position{line: 2931, col: 29, offset: 92636},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32537,9 +32537,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92806},
+																			pos: position{line: 2941, col: 8, offset: 92796},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92807,
+																				line: 2941, col: 9, offset: 92797,
 																			},
 																		},
 																	},
@@ -32611,10 +32611,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 769, col: 8, offset: 24864},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92458},
+																												pos: position{line: 2922, col: 10, offset: 92448},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92458},
+																													pos:        position{line: 2922, col: 10, offset: 92448},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32623,28 +32623,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92856},
+																											pos: position{line: 2944, col: 8, offset: 92846},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92629},
+																													pos: position{line: 2931, col: 12, offset: 92619},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92630},
+																														pos: position{line: 2931, col: 13, offset: 92620},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92630},
+																																pos:        position{line: 2931, col: 13, offset: 92620},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92637},
+																																pos:        position{line: 2931, col: 20, offset: 92627},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92646},
+																																pos:        position{line: 2931, col: 29, offset: 92636},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32653,9 +32653,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92806},
+																													pos: position{line: 2941, col: 8, offset: 92796},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92807,
+																														line: 2941, col: 9, offset: 92797,
 																													},
 																												},
 																											},
@@ -32671,9 +32671,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -32689,21 +32689,21 @@ var g = &grammar{
 																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92792},
+																						pos: position{line: 2939, col: 11, offset: 92782},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92794,
+																							line: 2939, col: 13, offset: 92784,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90984},
+																							pos: position{line: 2868, col: 13, offset: 90974},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90984},
+																								pos: position{line: 2868, col: 13, offset: 90974},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90984},
+																									pos:        position{line: 2868, col: 13, offset: 90974},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32713,28 +32713,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92856},
+																						pos: position{line: 2944, col: 8, offset: 92846},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92629},
+																								pos: position{line: 2931, col: 12, offset: 92619},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92630},
+																									pos: position{line: 2931, col: 13, offset: 92620},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92630},
+																											pos:        position{line: 2931, col: 13, offset: 92620},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92637},
+																											pos:        position{line: 2931, col: 20, offset: 92627},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92646},
+																											pos:        position{line: 2931, col: 29, offset: 92636},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32743,9 +32743,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92806},
+																								pos: position{line: 2941, col: 8, offset: 92796},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92807,
+																									line: 2941, col: 9, offset: 92797,
 																								},
 																							},
 																						},
@@ -32810,10 +32810,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 769, col: 8, offset: 24864},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92458},
+																								pos: position{line: 2922, col: 10, offset: 92448},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92458},
+																									pos:        position{line: 2922, col: 10, offset: 92448},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32822,28 +32822,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32852,9 +32852,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -32870,9 +32870,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92806},
+																	pos: position{line: 2941, col: 8, offset: 92796},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92807,
+																		line: 2941, col: 9, offset: 92797,
 																	},
 																},
 															},
@@ -32928,10 +32928,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 784, col: 8, offset: 25402},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92458},
+																		pos: position{line: 2922, col: 10, offset: 92448},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92458},
+																			pos:        position{line: 2922, col: 10, offset: 92448},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32940,28 +32940,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92856},
+																	pos: position{line: 2944, col: 8, offset: 92846},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92629},
+																			pos: position{line: 2931, col: 12, offset: 92619},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92630},
+																				pos: position{line: 2931, col: 13, offset: 92620},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92630},
+																						pos:        position{line: 2931, col: 13, offset: 92620},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92637},
+																						pos:        position{line: 2931, col: 20, offset: 92627},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92646},
+																						pos:        position{line: 2931, col: 29, offset: 92636},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32970,9 +32970,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92806},
+																			pos: position{line: 2941, col: 8, offset: 92796},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92807,
+																				line: 2941, col: 9, offset: 92797,
 																			},
 																		},
 																	},
@@ -33044,10 +33044,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 784, col: 8, offset: 25402},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92458},
+																												pos: position{line: 2922, col: 10, offset: 92448},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92458},
+																													pos:        position{line: 2922, col: 10, offset: 92448},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33056,28 +33056,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92856},
+																											pos: position{line: 2944, col: 8, offset: 92846},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92629},
+																													pos: position{line: 2931, col: 12, offset: 92619},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92630},
+																														pos: position{line: 2931, col: 13, offset: 92620},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92630},
+																																pos:        position{line: 2931, col: 13, offset: 92620},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92637},
+																																pos:        position{line: 2931, col: 20, offset: 92627},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92646},
+																																pos:        position{line: 2931, col: 29, offset: 92636},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33086,9 +33086,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92806},
+																													pos: position{line: 2941, col: 8, offset: 92796},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92807,
+																														line: 2941, col: 9, offset: 92797,
 																													},
 																												},
 																											},
@@ -33104,9 +33104,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -33122,21 +33122,21 @@ var g = &grammar{
 																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92792},
+																						pos: position{line: 2939, col: 11, offset: 92782},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92794,
+																							line: 2939, col: 13, offset: 92784,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90984},
+																							pos: position{line: 2868, col: 13, offset: 90974},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90984},
+																								pos: position{line: 2868, col: 13, offset: 90974},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90984},
+																									pos:        position{line: 2868, col: 13, offset: 90974},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33146,28 +33146,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92856},
+																						pos: position{line: 2944, col: 8, offset: 92846},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92629},
+																								pos: position{line: 2931, col: 12, offset: 92619},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92630},
+																									pos: position{line: 2931, col: 13, offset: 92620},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92630},
+																											pos:        position{line: 2931, col: 13, offset: 92620},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92637},
+																											pos:        position{line: 2931, col: 20, offset: 92627},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92646},
+																											pos:        position{line: 2931, col: 29, offset: 92636},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33176,9 +33176,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92806},
+																								pos: position{line: 2941, col: 8, offset: 92796},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92807,
+																									line: 2941, col: 9, offset: 92797,
 																								},
 																							},
 																						},
@@ -33243,10 +33243,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 784, col: 8, offset: 25402},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92458},
+																								pos: position{line: 2922, col: 10, offset: 92448},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92458},
+																									pos:        position{line: 2922, col: 10, offset: 92448},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33255,28 +33255,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33285,9 +33285,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -33303,9 +33303,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92806},
+																	pos: position{line: 2941, col: 8, offset: 92796},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92807,
+																		line: 2941, col: 9, offset: 92797,
 																	},
 																},
 															},
@@ -33361,10 +33361,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 798, col: 8, offset: 25878},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92458},
+																		pos: position{line: 2922, col: 10, offset: 92448},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92458},
+																			pos:        position{line: 2922, col: 10, offset: 92448},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33373,28 +33373,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92856},
+																	pos: position{line: 2944, col: 8, offset: 92846},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92629},
+																			pos: position{line: 2931, col: 12, offset: 92619},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92630},
+																				pos: position{line: 2931, col: 13, offset: 92620},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92630},
+																						pos:        position{line: 2931, col: 13, offset: 92620},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92637},
+																						pos:        position{line: 2931, col: 20, offset: 92627},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92646},
+																						pos:        position{line: 2931, col: 29, offset: 92636},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33403,9 +33403,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92806},
+																			pos: position{line: 2941, col: 8, offset: 92796},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92807,
+																				line: 2941, col: 9, offset: 92797,
 																			},
 																		},
 																	},
@@ -33477,10 +33477,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 798, col: 8, offset: 25878},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92458},
+																												pos: position{line: 2922, col: 10, offset: 92448},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92458},
+																													pos:        position{line: 2922, col: 10, offset: 92448},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33489,28 +33489,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92856},
+																											pos: position{line: 2944, col: 8, offset: 92846},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92629},
+																													pos: position{line: 2931, col: 12, offset: 92619},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92630},
+																														pos: position{line: 2931, col: 13, offset: 92620},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92630},
+																																pos:        position{line: 2931, col: 13, offset: 92620},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92637},
+																																pos:        position{line: 2931, col: 20, offset: 92627},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92646},
+																																pos:        position{line: 2931, col: 29, offset: 92636},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33519,9 +33519,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92806},
+																													pos: position{line: 2941, col: 8, offset: 92796},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92807,
+																														line: 2941, col: 9, offset: 92797,
 																													},
 																												},
 																											},
@@ -33537,9 +33537,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -33555,21 +33555,21 @@ var g = &grammar{
 																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92792},
+																						pos: position{line: 2939, col: 11, offset: 92782},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92794,
+																							line: 2939, col: 13, offset: 92784,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90984},
+																							pos: position{line: 2868, col: 13, offset: 90974},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90984},
+																								pos: position{line: 2868, col: 13, offset: 90974},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90984},
+																									pos:        position{line: 2868, col: 13, offset: 90974},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33579,28 +33579,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92856},
+																						pos: position{line: 2944, col: 8, offset: 92846},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92629},
+																								pos: position{line: 2931, col: 12, offset: 92619},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92630},
+																									pos: position{line: 2931, col: 13, offset: 92620},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92630},
+																											pos:        position{line: 2931, col: 13, offset: 92620},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92637},
+																											pos:        position{line: 2931, col: 20, offset: 92627},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92646},
+																											pos:        position{line: 2931, col: 29, offset: 92636},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33609,9 +33609,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92806},
+																								pos: position{line: 2941, col: 8, offset: 92796},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92807,
+																									line: 2941, col: 9, offset: 92797,
 																								},
 																							},
 																						},
@@ -33676,10 +33676,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 798, col: 8, offset: 25878},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92458},
+																								pos: position{line: 2922, col: 10, offset: 92448},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92458},
+																									pos:        position{line: 2922, col: 10, offset: 92448},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33688,28 +33688,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33718,9 +33718,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -33736,9 +33736,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92806},
+																	pos: position{line: 2941, col: 8, offset: 92796},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92807,
+																		line: 2941, col: 9, offset: 92797,
 																	},
 																},
 															},
@@ -33772,18 +33772,18 @@ var g = &grammar{
 																			pos: position{line: 690, col: 14, offset: 22173},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2939, col: 11, offset: 92792},
+																					pos: position{line: 2939, col: 11, offset: 92782},
 																					expr: &anyMatcher{
-																						line: 2939, col: 13, offset: 92794,
+																						line: 2939, col: 13, offset: 92784,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 690, col: 21, offset: 22180},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92458},
+																						pos: position{line: 2922, col: 10, offset: 92448},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92458},
+																							pos:        position{line: 2922, col: 10, offset: 92448},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33792,28 +33792,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92856},
+																					pos: position{line: 2944, col: 8, offset: 92846},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92629},
+																							pos: position{line: 2931, col: 12, offset: 92619},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92630},
+																								pos: position{line: 2931, col: 13, offset: 92620},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92630},
+																										pos:        position{line: 2931, col: 13, offset: 92620},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92637},
+																										pos:        position{line: 2931, col: 20, offset: 92627},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92646},
+																										pos:        position{line: 2931, col: 29, offset: 92636},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33822,9 +33822,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92806},
+																							pos: position{line: 2941, col: 8, offset: 92796},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92807,
+																								line: 2941, col: 9, offset: 92797,
 																							},
 																						},
 																					},
@@ -33843,12 +33843,12 @@ var g = &grammar{
 																	pos:   position{line: 997, col: 5, offset: 31368},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 14, offset: 91051},
+																		pos: position{line: 2872, col: 14, offset: 91041},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2872, col: 14, offset: 91051},
+																			pos: position{line: 2872, col: 14, offset: 91041},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 14, offset: 91051},
+																				pos:        position{line: 2872, col: 14, offset: 91041},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33858,28 +33858,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92856},
+																	pos: position{line: 2944, col: 8, offset: 92846},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92629},
+																			pos: position{line: 2931, col: 12, offset: 92619},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92630},
+																				pos: position{line: 2931, col: 13, offset: 92620},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92630},
+																						pos:        position{line: 2931, col: 13, offset: 92620},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92637},
+																						pos:        position{line: 2931, col: 20, offset: 92627},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92646},
+																						pos:        position{line: 2931, col: 29, offset: 92636},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33888,9 +33888,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92806},
+																			pos: position{line: 2941, col: 8, offset: 92796},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92807,
+																				line: 2941, col: 9, offset: 92797,
 																			},
 																		},
 																	},
@@ -33922,18 +33922,18 @@ var g = &grammar{
 																						pos: position{line: 690, col: 14, offset: 22173},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2939, col: 11, offset: 92792},
+																								pos: position{line: 2939, col: 11, offset: 92782},
 																								expr: &anyMatcher{
-																									line: 2939, col: 13, offset: 92794,
+																									line: 2939, col: 13, offset: 92784,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 690, col: 21, offset: 22180},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92458},
+																									pos: position{line: 2922, col: 10, offset: 92448},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92458},
+																										pos:        position{line: 2922, col: 10, offset: 92448},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33942,28 +33942,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92856},
+																								pos: position{line: 2944, col: 8, offset: 92846},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92629},
+																										pos: position{line: 2931, col: 12, offset: 92619},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92630},
+																											pos: position{line: 2931, col: 13, offset: 92620},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92630},
+																													pos:        position{line: 2931, col: 13, offset: 92620},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92637},
+																													pos:        position{line: 2931, col: 20, offset: 92627},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92646},
+																													pos:        position{line: 2931, col: 29, offset: 92636},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33972,9 +33972,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92806},
+																										pos: position{line: 2941, col: 8, offset: 92796},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92807,
+																											line: 2941, col: 9, offset: 92797,
 																										},
 																									},
 																								},
@@ -33993,12 +33993,12 @@ var g = &grammar{
 																				pos:   position{line: 997, col: 5, offset: 31368},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2872, col: 14, offset: 91051},
+																					pos: position{line: 2872, col: 14, offset: 91041},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2872, col: 14, offset: 91051},
+																						pos: position{line: 2872, col: 14, offset: 91041},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2872, col: 14, offset: 91051},
+																							pos:        position{line: 2872, col: 14, offset: 91041},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34008,28 +34008,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92856},
+																				pos: position{line: 2944, col: 8, offset: 92846},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92629},
+																						pos: position{line: 2931, col: 12, offset: 92619},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92630},
+																							pos: position{line: 2931, col: 13, offset: 92620},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92630},
+																									pos:        position{line: 2931, col: 13, offset: 92620},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92637},
+																									pos:        position{line: 2931, col: 20, offset: 92627},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92646},
+																									pos:        position{line: 2931, col: 29, offset: 92636},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34038,9 +34038,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92806},
+																						pos: position{line: 2941, col: 8, offset: 92796},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92807,
+																							line: 2941, col: 9, offset: 92797,
 																						},
 																					},
 																				},
@@ -34049,21 +34049,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1804, col: 5, offset: 58518},
+																	pos: position{line: 1804, col: 5, offset: 58508},
 																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 1804, col: 5, offset: 58518},
+																		pos: position{line: 1804, col: 5, offset: 58508},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1804, col: 5, offset: 58518},
+																				pos:   position{line: 1804, col: 5, offset: 58508},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2872, col: 14, offset: 91051},
+																					pos: position{line: 2872, col: 14, offset: 91041},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2872, col: 14, offset: 91051},
+																						pos: position{line: 2872, col: 14, offset: 91041},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2872, col: 14, offset: 91051},
+																							pos:        position{line: 2872, col: 14, offset: 91041},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34073,32 +34073,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1805, col: 5, offset: 58542},
+																				pos: position{line: 1805, col: 5, offset: 58532},
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92856},
+																				pos: position{line: 2944, col: 8, offset: 92846},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92629},
+																						pos: position{line: 2931, col: 12, offset: 92619},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92630},
+																							pos: position{line: 2931, col: 13, offset: 92620},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92630},
+																									pos:        position{line: 2931, col: 13, offset: 92620},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92637},
+																									pos:        position{line: 2931, col: 20, offset: 92627},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92646},
+																									pos:        position{line: 2931, col: 29, offset: 92636},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34107,9 +34107,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92806},
+																						pos: position{line: 2941, col: 8, offset: 92796},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92807,
+																							line: 2941, col: 9, offset: 92797,
 																						},
 																					},
 																				},
@@ -34156,10 +34156,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 791, col: 8, offset: 25633},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92458},
+																		pos: position{line: 2922, col: 10, offset: 92448},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92458},
+																			pos:        position{line: 2922, col: 10, offset: 92448},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34168,28 +34168,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92856},
+																	pos: position{line: 2944, col: 8, offset: 92846},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92629},
+																			pos: position{line: 2931, col: 12, offset: 92619},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92630},
+																				pos: position{line: 2931, col: 13, offset: 92620},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92630},
+																						pos:        position{line: 2931, col: 13, offset: 92620},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92637},
+																						pos:        position{line: 2931, col: 20, offset: 92627},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92646},
+																						pos:        position{line: 2931, col: 29, offset: 92636},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34198,9 +34198,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92806},
+																			pos: position{line: 2941, col: 8, offset: 92796},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92807,
+																				line: 2941, col: 9, offset: 92797,
 																			},
 																		},
 																	},
@@ -34248,10 +34248,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25633},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92458},
+																									pos: position{line: 2922, col: 10, offset: 92448},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92458},
+																										pos:        position{line: 2922, col: 10, offset: 92448},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34260,28 +34260,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92856},
+																								pos: position{line: 2944, col: 8, offset: 92846},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92629},
+																										pos: position{line: 2931, col: 12, offset: 92619},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92630},
+																											pos: position{line: 2931, col: 13, offset: 92620},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92630},
+																													pos:        position{line: 2931, col: 13, offset: 92620},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92637},
+																													pos:        position{line: 2931, col: 20, offset: 92627},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92646},
+																													pos:        position{line: 2931, col: 29, offset: 92636},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34290,9 +34290,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92806},
+																										pos: position{line: 2941, col: 8, offset: 92796},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92807,
+																											line: 2941, col: 9, offset: 92797,
 																										},
 																									},
 																								},
@@ -34301,9 +34301,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -34319,21 +34319,21 @@ var g = &grammar{
 																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92792},
+																						pos: position{line: 2939, col: 11, offset: 92782},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92794,
+																							line: 2939, col: 13, offset: 92784,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90984},
+																							pos: position{line: 2868, col: 13, offset: 90974},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90984},
+																								pos: position{line: 2868, col: 13, offset: 90974},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90984},
+																									pos:        position{line: 2868, col: 13, offset: 90974},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34343,28 +34343,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92856},
+																						pos: position{line: 2944, col: 8, offset: 92846},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92629},
+																								pos: position{line: 2931, col: 12, offset: 92619},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92630},
+																									pos: position{line: 2931, col: 13, offset: 92620},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92630},
+																											pos:        position{line: 2931, col: 13, offset: 92620},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92637},
+																											pos:        position{line: 2931, col: 20, offset: 92627},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92646},
+																											pos:        position{line: 2931, col: 29, offset: 92636},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34373,9 +34373,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92806},
+																								pos: position{line: 2941, col: 8, offset: 92796},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92807,
+																									line: 2941, col: 9, offset: 92797,
 																								},
 																							},
 																						},
@@ -34420,10 +34420,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 791, col: 8, offset: 25633},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92458},
+																					pos: position{line: 2922, col: 10, offset: 92448},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92458},
+																						pos:        position{line: 2922, col: 10, offset: 92448},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34432,28 +34432,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92856},
+																				pos: position{line: 2944, col: 8, offset: 92846},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92629},
+																						pos: position{line: 2931, col: 12, offset: 92619},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92630},
+																							pos: position{line: 2931, col: 13, offset: 92620},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92630},
+																									pos:        position{line: 2931, col: 13, offset: 92620},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92637},
+																									pos:        position{line: 2931, col: 20, offset: 92627},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92646},
+																									pos:        position{line: 2931, col: 29, offset: 92636},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34462,9 +34462,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92806},
+																						pos: position{line: 2941, col: 8, offset: 92796},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92807,
+																							line: 2941, col: 9, offset: 92797,
 																						},
 																					},
 																				},
@@ -34473,9 +34473,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92806},
+																	pos: position{line: 2941, col: 8, offset: 92796},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92807,
+																		line: 2941, col: 9, offset: 92797,
 																	},
 																},
 															},
@@ -34531,10 +34531,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 805, col: 8, offset: 26130},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92458},
+																		pos: position{line: 2922, col: 10, offset: 92448},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92458},
+																			pos:        position{line: 2922, col: 10, offset: 92448},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34543,28 +34543,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92856},
+																	pos: position{line: 2944, col: 8, offset: 92846},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92629},
+																			pos: position{line: 2931, col: 12, offset: 92619},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92630},
+																				pos: position{line: 2931, col: 13, offset: 92620},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92630},
+																						pos:        position{line: 2931, col: 13, offset: 92620},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92637},
+																						pos:        position{line: 2931, col: 20, offset: 92627},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92646},
+																						pos:        position{line: 2931, col: 29, offset: 92636},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34573,9 +34573,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92806},
+																			pos: position{line: 2941, col: 8, offset: 92796},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92807,
+																				line: 2941, col: 9, offset: 92797,
 																			},
 																		},
 																	},
@@ -34647,10 +34647,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 805, col: 8, offset: 26130},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92458},
+																												pos: position{line: 2922, col: 10, offset: 92448},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92458},
+																													pos:        position{line: 2922, col: 10, offset: 92448},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34659,28 +34659,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92856},
+																											pos: position{line: 2944, col: 8, offset: 92846},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92629},
+																													pos: position{line: 2931, col: 12, offset: 92619},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92630},
+																														pos: position{line: 2931, col: 13, offset: 92620},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92630},
+																																pos:        position{line: 2931, col: 13, offset: 92620},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92637},
+																																pos:        position{line: 2931, col: 20, offset: 92627},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92646},
+																																pos:        position{line: 2931, col: 29, offset: 92636},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34689,9 +34689,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92806},
+																													pos: position{line: 2941, col: 8, offset: 92796},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92807,
+																														line: 2941, col: 9, offset: 92797,
 																													},
 																												},
 																											},
@@ -34707,9 +34707,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -34725,21 +34725,21 @@ var g = &grammar{
 																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92792},
+																						pos: position{line: 2939, col: 11, offset: 92782},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92794,
+																							line: 2939, col: 13, offset: 92784,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90984},
+																							pos: position{line: 2868, col: 13, offset: 90974},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90984},
+																								pos: position{line: 2868, col: 13, offset: 90974},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90984},
+																									pos:        position{line: 2868, col: 13, offset: 90974},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34749,28 +34749,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92856},
+																						pos: position{line: 2944, col: 8, offset: 92846},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92629},
+																								pos: position{line: 2931, col: 12, offset: 92619},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92630},
+																									pos: position{line: 2931, col: 13, offset: 92620},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92630},
+																											pos:        position{line: 2931, col: 13, offset: 92620},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92637},
+																											pos:        position{line: 2931, col: 20, offset: 92627},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92646},
+																											pos:        position{line: 2931, col: 29, offset: 92636},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34779,9 +34779,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92806},
+																								pos: position{line: 2941, col: 8, offset: 92796},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92807,
+																									line: 2941, col: 9, offset: 92797,
 																								},
 																							},
 																						},
@@ -34846,10 +34846,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 805, col: 8, offset: 26130},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92458},
+																								pos: position{line: 2922, col: 10, offset: 92448},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92458},
+																									pos:        position{line: 2922, col: 10, offset: 92448},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34858,28 +34858,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34888,9 +34888,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -34906,9 +34906,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92806},
+																	pos: position{line: 2941, col: 8, offset: 92796},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92807,
+																		line: 2941, col: 9, offset: 92797,
 																	},
 																},
 															},
@@ -34964,10 +34964,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 812, col: 8, offset: 26380},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92458},
+																		pos: position{line: 2922, col: 10, offset: 92448},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92458},
+																			pos:        position{line: 2922, col: 10, offset: 92448},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34976,28 +34976,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92856},
+																	pos: position{line: 2944, col: 8, offset: 92846},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92629},
+																			pos: position{line: 2931, col: 12, offset: 92619},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92630},
+																				pos: position{line: 2931, col: 13, offset: 92620},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92630},
+																						pos:        position{line: 2931, col: 13, offset: 92620},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92637},
+																						pos:        position{line: 2931, col: 20, offset: 92627},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92646},
+																						pos:        position{line: 2931, col: 29, offset: 92636},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35006,9 +35006,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92806},
+																			pos: position{line: 2941, col: 8, offset: 92796},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92807,
+																				line: 2941, col: 9, offset: 92797,
 																			},
 																		},
 																	},
@@ -35080,10 +35080,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 812, col: 8, offset: 26380},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92458},
+																												pos: position{line: 2922, col: 10, offset: 92448},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92458},
+																													pos:        position{line: 2922, col: 10, offset: 92448},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35092,28 +35092,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92856},
+																											pos: position{line: 2944, col: 8, offset: 92846},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92629},
+																													pos: position{line: 2931, col: 12, offset: 92619},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92630},
+																														pos: position{line: 2931, col: 13, offset: 92620},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92630},
+																																pos:        position{line: 2931, col: 13, offset: 92620},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92637},
+																																pos:        position{line: 2931, col: 20, offset: 92627},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92646},
+																																pos:        position{line: 2931, col: 29, offset: 92636},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35122,9 +35122,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92806},
+																													pos: position{line: 2941, col: 8, offset: 92796},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92807,
+																														line: 2941, col: 9, offset: 92797,
 																													},
 																												},
 																											},
@@ -35140,9 +35140,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -35158,21 +35158,21 @@ var g = &grammar{
 																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92792},
+																						pos: position{line: 2939, col: 11, offset: 92782},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92794,
+																							line: 2939, col: 13, offset: 92784,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90984},
+																							pos: position{line: 2868, col: 13, offset: 90974},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90984},
+																								pos: position{line: 2868, col: 13, offset: 90974},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90984},
+																									pos:        position{line: 2868, col: 13, offset: 90974},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35182,28 +35182,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92856},
+																						pos: position{line: 2944, col: 8, offset: 92846},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92629},
+																								pos: position{line: 2931, col: 12, offset: 92619},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92630},
+																									pos: position{line: 2931, col: 13, offset: 92620},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92630},
+																											pos:        position{line: 2931, col: 13, offset: 92620},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92637},
+																											pos:        position{line: 2931, col: 20, offset: 92627},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92646},
+																											pos:        position{line: 2931, col: 29, offset: 92636},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35212,9 +35212,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92806},
+																								pos: position{line: 2941, col: 8, offset: 92796},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92807,
+																									line: 2941, col: 9, offset: 92797,
 																								},
 																							},
 																						},
@@ -35279,10 +35279,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 812, col: 8, offset: 26380},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92458},
+																								pos: position{line: 2922, col: 10, offset: 92448},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92458},
+																									pos:        position{line: 2922, col: 10, offset: 92448},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35291,28 +35291,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35321,9 +35321,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -35339,9 +35339,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92806},
+																	pos: position{line: 2941, col: 8, offset: 92796},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92807,
+																		line: 2941, col: 9, offset: 92797,
 																	},
 																},
 															},
@@ -35397,10 +35397,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 819, col: 8, offset: 26626},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92458},
+																		pos: position{line: 2922, col: 10, offset: 92448},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92458},
+																			pos:        position{line: 2922, col: 10, offset: 92448},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35409,28 +35409,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92856},
+																	pos: position{line: 2944, col: 8, offset: 92846},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92629},
+																			pos: position{line: 2931, col: 12, offset: 92619},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92630},
+																				pos: position{line: 2931, col: 13, offset: 92620},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92630},
+																						pos:        position{line: 2931, col: 13, offset: 92620},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92637},
+																						pos:        position{line: 2931, col: 20, offset: 92627},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92646},
+																						pos:        position{line: 2931, col: 29, offset: 92636},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35439,9 +35439,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92806},
+																			pos: position{line: 2941, col: 8, offset: 92796},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92807,
+																				line: 2941, col: 9, offset: 92797,
 																			},
 																		},
 																	},
@@ -35513,10 +35513,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 819, col: 8, offset: 26626},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92458},
+																												pos: position{line: 2922, col: 10, offset: 92448},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92458},
+																													pos:        position{line: 2922, col: 10, offset: 92448},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35525,28 +35525,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92856},
+																											pos: position{line: 2944, col: 8, offset: 92846},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92629},
+																													pos: position{line: 2931, col: 12, offset: 92619},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92630},
+																														pos: position{line: 2931, col: 13, offset: 92620},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92630},
+																																pos:        position{line: 2931, col: 13, offset: 92620},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92637},
+																																pos:        position{line: 2931, col: 20, offset: 92627},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92646},
+																																pos:        position{line: 2931, col: 29, offset: 92636},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35555,9 +35555,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92806},
+																													pos: position{line: 2941, col: 8, offset: 92796},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92807,
+																														line: 2941, col: 9, offset: 92797,
 																													},
 																												},
 																											},
@@ -35573,9 +35573,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -35591,21 +35591,21 @@ var g = &grammar{
 																				pos: position{line: 824, col: 5, offset: 26772},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92792},
+																						pos: position{line: 2939, col: 11, offset: 92782},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92794,
+																							line: 2939, col: 13, offset: 92784,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 825, col: 5, offset: 26847},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90984},
+																							pos: position{line: 2868, col: 13, offset: 90974},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90984},
+																								pos: position{line: 2868, col: 13, offset: 90974},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90984},
+																									pos:        position{line: 2868, col: 13, offset: 90974},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35615,28 +35615,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92856},
+																						pos: position{line: 2944, col: 8, offset: 92846},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92629},
+																								pos: position{line: 2931, col: 12, offset: 92619},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92630},
+																									pos: position{line: 2931, col: 13, offset: 92620},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92630},
+																											pos:        position{line: 2931, col: 13, offset: 92620},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92637},
+																											pos:        position{line: 2931, col: 20, offset: 92627},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92646},
+																											pos:        position{line: 2931, col: 29, offset: 92636},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35645,9 +35645,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92806},
+																								pos: position{line: 2941, col: 8, offset: 92796},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92807,
+																									line: 2941, col: 9, offset: 92797,
 																								},
 																							},
 																						},
@@ -35712,10 +35712,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 819, col: 8, offset: 26626},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92458},
+																								pos: position{line: 2922, col: 10, offset: 92448},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92458},
+																									pos:        position{line: 2922, col: 10, offset: 92448},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35724,28 +35724,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92856},
+																							pos: position{line: 2944, col: 8, offset: 92846},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92629},
+																									pos: position{line: 2931, col: 12, offset: 92619},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92630},
+																										pos: position{line: 2931, col: 13, offset: 92620},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92630},
+																												pos:        position{line: 2931, col: 13, offset: 92620},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92637},
+																												pos:        position{line: 2931, col: 20, offset: 92627},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92646},
+																												pos:        position{line: 2931, col: 29, offset: 92636},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35754,9 +35754,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92806},
+																									pos: position{line: 2941, col: 8, offset: 92796},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92807,
+																										line: 2941, col: 9, offset: 92797,
 																									},
 																								},
 																							},
@@ -35772,9 +35772,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92806},
+																	pos: position{line: 2941, col: 8, offset: 92796},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92807,
+																		line: 2941, col: 9, offset: 92797,
 																	},
 																},
 															},
@@ -35785,52 +35785,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2767, col: 18, offset: 88048},
+										pos: position{line: 2767, col: 18, offset: 88038},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2767, col: 18, offset: 88048},
+											pos: position{line: 2767, col: 18, offset: 88038},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2768, col: 9, offset: 88058},
+													pos: position{line: 2768, col: 9, offset: 88048},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2768, col: 9, offset: 88058},
+															pos:        position{line: 2768, col: 9, offset: 88048},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2769, col: 11, offset: 88094},
+															pos:        position{line: 2769, col: 11, offset: 88084},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2769, col: 19, offset: 88102},
+															pos:        position{line: 2769, col: 19, offset: 88092},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2769, col: 29, offset: 88112},
+															pos:        position{line: 2769, col: 29, offset: 88102},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2769, col: 37, offset: 88120},
+															pos:        position{line: 2769, col: 37, offset: 88110},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2769, col: 47, offset: 88130},
+															pos:        position{line: 2769, col: 47, offset: 88120},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2769, col: 55, offset: 88138},
+															pos:        position{line: 2769, col: 55, offset: 88128},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35838,12 +35838,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2770, col: 11, offset: 88196},
+													pos: position{line: 2770, col: 11, offset: 88186},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92458},
+														pos: position{line: 2922, col: 10, offset: 92448},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92458},
+															pos:        position{line: 2922, col: 10, offset: 92448},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35852,28 +35852,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92856},
+													pos: position{line: 2944, col: 8, offset: 92846},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92629},
+															pos: position{line: 2931, col: 12, offset: 92619},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92630},
+																pos: position{line: 2931, col: 13, offset: 92620},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92630},
+																		pos:        position{line: 2931, col: 13, offset: 92620},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92637},
+																		pos:        position{line: 2931, col: 20, offset: 92627},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92646},
+																		pos:        position{line: 2931, col: 29, offset: 92636},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35882,36 +35882,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92806},
+															pos: position{line: 2941, col: 8, offset: 92796},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92807,
+																line: 2941, col: 9, offset: 92797,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92856},
+													pos: position{line: 2944, col: 8, offset: 92846},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92629},
+															pos: position{line: 2931, col: 12, offset: 92619},
 															run: (*parser).callonListContinuationElement1319,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92630},
+																pos: position{line: 2931, col: 13, offset: 92620},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92630},
+																		pos:        position{line: 2931, col: 13, offset: 92620},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92637},
+																		pos:        position{line: 2931, col: 20, offset: 92627},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92646},
+																		pos:        position{line: 2931, col: 29, offset: 92636},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35920,9 +35920,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92806},
+															pos: position{line: 2941, col: 8, offset: 92796},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92807,
+																line: 2941, col: 9, offset: 92797,
 															},
 														},
 													},
@@ -35931,28 +35931,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1567, col: 11, offset: 50867},
+										pos:  position{line: 1567, col: 11, offset: 50857},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2651, col: 5, offset: 84805},
+										pos: position{line: 2651, col: 5, offset: 84795},
 										run: (*parser).callonListContinuationElement1327,
 										expr: &seqExpr{
-											pos: position{line: 2651, col: 5, offset: 84805},
+											pos: position{line: 2651, col: 5, offset: 84795},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2657, col: 19, offset: 84982},
+													pos:        position{line: 2657, col: 19, offset: 84972},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2657, col: 26, offset: 84989},
+													pos: position{line: 2657, col: 26, offset: 84979},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92458},
+														pos: position{line: 2922, col: 10, offset: 92448},
 														run: (*parser).callonListContinuationElement1331,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92458},
+															pos:        position{line: 2922, col: 10, offset: 92448},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35961,28 +35961,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92856},
+													pos: position{line: 2944, col: 8, offset: 92846},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92629},
+															pos: position{line: 2931, col: 12, offset: 92619},
 															run: (*parser).callonListContinuationElement1334,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92630},
+																pos: position{line: 2931, col: 13, offset: 92620},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92630},
+																		pos:        position{line: 2931, col: 13, offset: 92620},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92637},
+																		pos:        position{line: 2931, col: 20, offset: 92627},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92646},
+																		pos:        position{line: 2931, col: 29, offset: 92636},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35991,20 +35991,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92806},
+															pos: position{line: 2941, col: 8, offset: 92796},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92807,
+																line: 2941, col: 9, offset: 92797,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2652, col: 5, offset: 84829},
+													pos:   position{line: 2652, col: 5, offset: 84819},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2652, col: 11, offset: 84835},
+														pos: position{line: 2652, col: 11, offset: 84825},
 														expr: &choiceExpr{
-															pos: position{line: 2652, col: 12, offset: 84836},
+															pos: position{line: 2652, col: 12, offset: 84826},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 690, col: 14, offset: 22173},
@@ -36013,18 +36013,18 @@ var g = &grammar{
 																		pos: position{line: 690, col: 14, offset: 22173},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2939, col: 11, offset: 92792},
+																				pos: position{line: 2939, col: 11, offset: 92782},
 																				expr: &anyMatcher{
-																					line: 2939, col: 13, offset: 92794,
+																					line: 2939, col: 13, offset: 92784,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 690, col: 21, offset: 22180},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92458},
+																					pos: position{line: 2922, col: 10, offset: 92448},
 																					run: (*parser).callonListContinuationElement1349,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92458},
+																						pos:        position{line: 2922, col: 10, offset: 92448},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36033,28 +36033,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92856},
+																				pos: position{line: 2944, col: 8, offset: 92846},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92629},
+																						pos: position{line: 2931, col: 12, offset: 92619},
 																						run: (*parser).callonListContinuationElement1352,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92630},
+																							pos: position{line: 2931, col: 13, offset: 92620},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92630},
+																									pos:        position{line: 2931, col: 13, offset: 92620},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92637},
+																									pos:        position{line: 2931, col: 20, offset: 92627},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92646},
+																									pos:        position{line: 2931, col: 29, offset: 92636},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36063,9 +36063,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92806},
+																						pos: position{line: 2941, col: 8, offset: 92796},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92807,
+																							line: 2941, col: 9, offset: 92797,
 																						},
 																					},
 																				},
@@ -36074,36 +36074,36 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2525, col: 22, offset: 81236},
+																	pos: position{line: 2525, col: 22, offset: 81226},
 																	run: (*parser).callonListContinuationElement1359,
 																	expr: &seqExpr{
-																		pos: position{line: 2525, col: 22, offset: 81236},
+																		pos: position{line: 2525, col: 22, offset: 81226},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2530, col: 31, offset: 81486},
+																				pos:        position{line: 2530, col: 31, offset: 81476},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2530, col: 36, offset: 81491},
+																				pos: position{line: 2530, col: 36, offset: 81481},
 																				expr: &litMatcher{
-																					pos:        position{line: 2530, col: 37, offset: 81492},
+																					pos:        position{line: 2530, col: 37, offset: 81482},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2525, col: 49, offset: 81263},
+																				pos:   position{line: 2525, col: 49, offset: 81253},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2868, col: 13, offset: 90984},
+																					pos: position{line: 2868, col: 13, offset: 90974},
 																					run: (*parser).callonListContinuationElement1365,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2868, col: 13, offset: 90984},
+																						pos: position{line: 2868, col: 13, offset: 90974},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2868, col: 13, offset: 90984},
+																							pos:        position{line: 2868, col: 13, offset: 90974},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -36113,28 +36113,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92856},
+																				pos: position{line: 2944, col: 8, offset: 92846},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92629},
+																						pos: position{line: 2931, col: 12, offset: 92619},
 																						run: (*parser).callonListContinuationElement1369,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92630},
+																							pos: position{line: 2931, col: 13, offset: 92620},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92630},
+																									pos:        position{line: 2931, col: 13, offset: 92620},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92637},
+																									pos:        position{line: 2931, col: 20, offset: 92627},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92646},
+																									pos:        position{line: 2931, col: 29, offset: 92636},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36143,9 +36143,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92806},
+																						pos: position{line: 2941, col: 8, offset: 92796},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92807,
+																							line: 2941, col: 9, offset: 92797,
 																						},
 																					},
 																				},
@@ -36154,32 +36154,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2664, col: 5, offset: 85101},
+																	pos: position{line: 2664, col: 5, offset: 85091},
 																	run: (*parser).callonListContinuationElement1376,
 																	expr: &seqExpr{
-																		pos: position{line: 2664, col: 5, offset: 85101},
+																		pos: position{line: 2664, col: 5, offset: 85091},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2664, col: 5, offset: 85101},
+																				pos: position{line: 2664, col: 5, offset: 85091},
 																				expr: &choiceExpr{
-																					pos: position{line: 2661, col: 22, offset: 85062},
+																					pos: position{line: 2661, col: 22, offset: 85052},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2657, col: 19, offset: 84982},
+																							pos: position{line: 2657, col: 19, offset: 84972},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2657, col: 19, offset: 84982},
+																									pos:        position{line: 2657, col: 19, offset: 84972},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2657, col: 26, offset: 84989},
+																									pos: position{line: 2657, col: 26, offset: 84979},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92458},
+																										pos: position{line: 2922, col: 10, offset: 92448},
 																										run: (*parser).callonListContinuationElement1383,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92458},
+																											pos:        position{line: 2922, col: 10, offset: 92448},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36188,28 +36188,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92856},
+																									pos: position{line: 2944, col: 8, offset: 92846},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92629},
+																											pos: position{line: 2931, col: 12, offset: 92619},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92630},
+																												pos: position{line: 2931, col: 13, offset: 92620},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92630},
+																														pos:        position{line: 2931, col: 13, offset: 92620},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92637},
+																														pos:        position{line: 2931, col: 20, offset: 92627},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92646},
+																														pos:        position{line: 2931, col: 29, offset: 92636},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36218,9 +36218,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92806},
+																											pos: position{line: 2941, col: 8, offset: 92796},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92807,
+																												line: 2941, col: 9, offset: 92797,
 																											},
 																										},
 																									},
@@ -36228,59 +36228,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92806},
+																							pos: position{line: 2941, col: 8, offset: 92796},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92807,
+																								line: 2941, col: 9, offset: 92797,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2665, col: 5, offset: 85124},
+																				pos:   position{line: 2665, col: 5, offset: 85114},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2666, col: 9, offset: 85142},
+																					pos: position{line: 2666, col: 9, offset: 85132},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2666, col: 10, offset: 85143},
+																							pos: position{line: 2666, col: 10, offset: 85133},
 																							run: (*parser).callonListContinuationElement1397,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2666, col: 10, offset: 85143},
+																								pos:   position{line: 2666, col: 10, offset: 85133},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2666, col: 17, offset: 85150},
+																									pos: position{line: 2666, col: 17, offset: 85140},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2674, col: 21, offset: 85346},
+																											pos: position{line: 2674, col: 21, offset: 85336},
 																											run: (*parser).callonListContinuationElement1400,
 																											expr: &seqExpr{
-																												pos: position{line: 2674, col: 21, offset: 85346},
+																												pos: position{line: 2674, col: 21, offset: 85336},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2674, col: 21, offset: 85346},
+																														pos:   position{line: 2674, col: 21, offset: 85336},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2674, col: 27, offset: 85352},
+																															pos: position{line: 2674, col: 27, offset: 85342},
 																															expr: &actionExpr{
-																																pos: position{line: 2679, col: 5, offset: 85427},
+																																pos: position{line: 2679, col: 5, offset: 85417},
 																																run: (*parser).callonListContinuationElement1404,
 																																expr: &seqExpr{
-																																	pos: position{line: 2679, col: 5, offset: 85427},
+																																	pos: position{line: 2679, col: 5, offset: 85417},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2679, col: 5, offset: 85427},
+																																			pos:        position{line: 2679, col: 5, offset: 85417},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2679, col: 9, offset: 85431},
+																																			pos: position{line: 2679, col: 9, offset: 85421},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2922, col: 10, offset: 92458},
+																																				pos: position{line: 2922, col: 10, offset: 92448},
 																																				run: (*parser).callonListContinuationElement1408,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2922, col: 10, offset: 92458},
+																																					pos:        position{line: 2922, col: 10, offset: 92448},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36289,21 +36289,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2679, col: 16, offset: 85438},
+																																			pos:   position{line: 2679, col: 16, offset: 85428},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2685, col: 5, offset: 85638},
+																																				pos: position{line: 2685, col: 5, offset: 85628},
 																																				run: (*parser).callonListContinuationElement1411,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2685, col: 5, offset: 85638},
+																																					pos:   position{line: 2685, col: 5, offset: 85628},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2685, col: 14, offset: 85647},
+																																						pos: position{line: 2685, col: 14, offset: 85637},
 																																						run: (*parser).callonListContinuationElement1413,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2685, col: 14, offset: 85647},
+																																							pos: position{line: 2685, col: 14, offset: 85637},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2685, col: 14, offset: 85647},
+																																								pos:        position{line: 2685, col: 14, offset: 85637},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36320,28 +36320,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2944, col: 8, offset: 92856},
+																														pos: position{line: 2944, col: 8, offset: 92846},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2931, col: 12, offset: 92629},
+																																pos: position{line: 2931, col: 12, offset: 92619},
 																																run: (*parser).callonListContinuationElement1417,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2931, col: 13, offset: 92630},
+																																	pos: position{line: 2931, col: 13, offset: 92620},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2931, col: 13, offset: 92630},
+																																			pos:        position{line: 2931, col: 13, offset: 92620},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2931, col: 20, offset: 92637},
+																																			pos:        position{line: 2931, col: 20, offset: 92627},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2931, col: 29, offset: 92646},
+																																			pos:        position{line: 2931, col: 29, offset: 92636},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36350,9 +36350,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2941, col: 8, offset: 92806},
+																																pos: position{line: 2941, col: 8, offset: 92796},
 																																expr: &anyMatcher{
-																																	line: 2941, col: 9, offset: 92807,
+																																	line: 2941, col: 9, offset: 92797,
 																																},
 																															},
 																														},
@@ -36361,40 +36361,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2691, col: 24, offset: 85783},
+																											pos: position{line: 2691, col: 24, offset: 85773},
 																											run: (*parser).callonListContinuationElement1424,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2691, col: 24, offset: 85783},
+																												pos:   position{line: 2691, col: 24, offset: 85773},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2691, col: 30, offset: 85789},
+																													pos: position{line: 2691, col: 30, offset: 85779},
 																													expr: &actionExpr{
-																														pos: position{line: 2696, col: 5, offset: 85865},
+																														pos: position{line: 2696, col: 5, offset: 85855},
 																														run: (*parser).callonListContinuationElement1427,
 																														expr: &seqExpr{
-																															pos: position{line: 2696, col: 5, offset: 85865},
+																															pos: position{line: 2696, col: 5, offset: 85855},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2696, col: 5, offset: 85865},
+																																	pos: position{line: 2696, col: 5, offset: 85855},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2661, col: 22, offset: 85062},
+																																		pos: position{line: 2661, col: 22, offset: 85052},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2657, col: 19, offset: 84982},
+																																				pos: position{line: 2657, col: 19, offset: 84972},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2657, col: 19, offset: 84982},
+																																						pos:        position{line: 2657, col: 19, offset: 84972},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2657, col: 26, offset: 84989},
+																																						pos: position{line: 2657, col: 26, offset: 84979},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2922, col: 10, offset: 92458},
+																																							pos: position{line: 2922, col: 10, offset: 92448},
 																																							run: (*parser).callonListContinuationElement1434,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2922, col: 10, offset: 92458},
+																																								pos:        position{line: 2922, col: 10, offset: 92448},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36403,28 +36403,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2944, col: 8, offset: 92856},
+																																						pos: position{line: 2944, col: 8, offset: 92846},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2931, col: 12, offset: 92629},
+																																								pos: position{line: 2931, col: 12, offset: 92619},
 																																								run: (*parser).callonListContinuationElement1437,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2931, col: 13, offset: 92630},
+																																									pos: position{line: 2931, col: 13, offset: 92620},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2931, col: 13, offset: 92630},
+																																											pos:        position{line: 2931, col: 13, offset: 92620},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2931, col: 20, offset: 92637},
+																																											pos:        position{line: 2931, col: 20, offset: 92627},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2931, col: 29, offset: 92646},
+																																											pos:        position{line: 2931, col: 29, offset: 92636},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36433,9 +36433,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2941, col: 8, offset: 92806},
+																																								pos: position{line: 2941, col: 8, offset: 92796},
 																																								expr: &anyMatcher{
-																																									line: 2941, col: 9, offset: 92807,
+																																									line: 2941, col: 9, offset: 92797,
 																																								},
 																																							},
 																																						},
@@ -36443,16 +36443,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2941, col: 8, offset: 92806},
+																																				pos: position{line: 2941, col: 8, offset: 92796},
 																																				expr: &anyMatcher{
-																																					line: 2941, col: 9, offset: 92807,
+																																					line: 2941, col: 9, offset: 92797,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2697, col: 5, offset: 85888},
+																																	pos: position{line: 2697, col: 5, offset: 85878},
 																																	expr: &actionExpr{
 																																		pos: position{line: 690, col: 14, offset: 22173},
 																																		run: (*parser).callonListContinuationElement1447,
@@ -36460,18 +36460,18 @@ var g = &grammar{
 																																			pos: position{line: 690, col: 14, offset: 22173},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2939, col: 11, offset: 92792},
+																																					pos: position{line: 2939, col: 11, offset: 92782},
 																																					expr: &anyMatcher{
-																																						line: 2939, col: 13, offset: 92794,
+																																						line: 2939, col: 13, offset: 92784,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 690, col: 21, offset: 22180},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2922, col: 10, offset: 92458},
+																																						pos: position{line: 2922, col: 10, offset: 92448},
 																																						run: (*parser).callonListContinuationElement1452,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2922, col: 10, offset: 92458},
+																																							pos:        position{line: 2922, col: 10, offset: 92448},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36480,28 +36480,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2944, col: 8, offset: 92856},
+																																					pos: position{line: 2944, col: 8, offset: 92846},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2931, col: 12, offset: 92629},
+																																							pos: position{line: 2931, col: 12, offset: 92619},
 																																							run: (*parser).callonListContinuationElement1455,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2931, col: 13, offset: 92630},
+																																								pos: position{line: 2931, col: 13, offset: 92620},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2931, col: 13, offset: 92630},
+																																										pos:        position{line: 2931, col: 13, offset: 92620},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2931, col: 20, offset: 92637},
+																																										pos:        position{line: 2931, col: 20, offset: 92627},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2931, col: 29, offset: 92646},
+																																										pos:        position{line: 2931, col: 29, offset: 92636},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36510,9 +36510,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2941, col: 8, offset: 92806},
+																																							pos: position{line: 2941, col: 8, offset: 92796},
 																																							expr: &anyMatcher{
-																																								line: 2941, col: 9, offset: 92807,
+																																								line: 2941, col: 9, offset: 92797,
 																																							},
 																																						},
 																																					},
@@ -36522,17 +36522,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2698, col: 5, offset: 85903},
+																																	pos:   position{line: 2698, col: 5, offset: 85893},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2698, col: 12, offset: 85910},
+																																		pos: position{line: 2698, col: 12, offset: 85900},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2722, col: 20, offset: 86533},
+																																			pos: position{line: 2722, col: 20, offset: 86523},
 																																			run: (*parser).callonListContinuationElement1464,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2722, col: 20, offset: 86533},
+																																				pos: position{line: 2722, col: 20, offset: 86523},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2722, col: 20, offset: 86533},
+																																					pos:        position{line: 2722, col: 20, offset: 86523},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36543,18 +36543,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2698, col: 31, offset: 85929},
+																																	pos:        position{line: 2698, col: 31, offset: 85919},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2698, col: 35, offset: 85933},
+																																	pos: position{line: 2698, col: 35, offset: 85923},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2922, col: 10, offset: 92458},
+																																		pos: position{line: 2922, col: 10, offset: 92448},
 																																		run: (*parser).callonListContinuationElement1469,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2922, col: 10, offset: 92458},
+																																			pos:        position{line: 2922, col: 10, offset: 92448},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36563,27 +36563,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2698, col: 42, offset: 85940},
+																																	pos: position{line: 2698, col: 42, offset: 85930},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2931, col: 12, offset: 92629},
+																																		pos: position{line: 2931, col: 12, offset: 92619},
 																																		run: (*parser).callonListContinuationElement1472,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2931, col: 13, offset: 92630},
+																																			pos: position{line: 2931, col: 13, offset: 92620},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2931, col: 13, offset: 92630},
+																																					pos:        position{line: 2931, col: 13, offset: 92620},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2931, col: 20, offset: 92637},
+																																					pos:        position{line: 2931, col: 20, offset: 92627},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2931, col: 29, offset: 92646},
+																																					pos:        position{line: 2931, col: 29, offset: 92636},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36593,57 +36593,57 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2698, col: 51, offset: 85949},
+																																	pos:   position{line: 2698, col: 51, offset: 85939},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2704, col: 5, offset: 86108},
+																																		pos: position{line: 2704, col: 5, offset: 86098},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2705, col: 9, offset: 86118},
+																																			pos: position{line: 2705, col: 9, offset: 86108},
 																																			alternatives: []interface{}{
 																																				&actionExpr{
-																																					pos: position{line: 2705, col: 9, offset: 86118},
+																																					pos: position{line: 2705, col: 9, offset: 86108},
 																																					run: (*parser).callonListContinuationElement1480,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2705, col: 9, offset: 86118},
+																																						pos: position{line: 2705, col: 9, offset: 86108},
 																																						exprs: []interface{}{
 																																							&andCodeExpr{
-																																								pos: position{line: 2705, col: 9, offset: 86118},
+																																								pos: position{line: 2705, col: 9, offset: 86108},
 																																								run: (*parser).callonListContinuationElement1482,
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2708, col: 9, offset: 86187},
+																																								pos:   position{line: 2708, col: 9, offset: 86177},
 																																								label: "comment",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2525, col: 22, offset: 81236},
+																																									pos: position{line: 2525, col: 22, offset: 81226},
 																																									run: (*parser).callonListContinuationElement1484,
 																																									expr: &seqExpr{
-																																										pos: position{line: 2525, col: 22, offset: 81236},
+																																										pos: position{line: 2525, col: 22, offset: 81226},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2530, col: 31, offset: 81486},
+																																												pos:        position{line: 2530, col: 31, offset: 81476},
 																																												val:        "//",
 																																												ignoreCase: false,
 																																												want:       "\"//\"",
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2530, col: 36, offset: 81491},
+																																												pos: position{line: 2530, col: 36, offset: 81481},
 																																												expr: &litMatcher{
-																																													pos:        position{line: 2530, col: 37, offset: 81492},
+																																													pos:        position{line: 2530, col: 37, offset: 81482},
 																																													val:        "/",
 																																													ignoreCase: false,
 																																													want:       "\"/\"",
 																																												},
 																																											},
 																																											&labeledExpr{
-																																												pos:   position{line: 2525, col: 49, offset: 81263},
+																																												pos:   position{line: 2525, col: 49, offset: 81253},
 																																												label: "content",
 																																												expr: &actionExpr{
-																																													pos: position{line: 2868, col: 13, offset: 90984},
+																																													pos: position{line: 2868, col: 13, offset: 90974},
 																																													run: (*parser).callonListContinuationElement1490,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2868, col: 13, offset: 90984},
+																																														pos: position{line: 2868, col: 13, offset: 90974},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2868, col: 13, offset: 90984},
+																																															pos:        position{line: 2868, col: 13, offset: 90974},
 																																															val:        "[^\\r\\n]",
 																																															chars:      []rune{'\r', '\n'},
 																																															ignoreCase: false,
@@ -36653,28 +36653,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2944, col: 8, offset: 92856},
+																																												pos: position{line: 2944, col: 8, offset: 92846},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2931, col: 12, offset: 92629},
+																																														pos: position{line: 2931, col: 12, offset: 92619},
 																																														run: (*parser).callonListContinuationElement1494,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2931, col: 13, offset: 92630},
+																																															pos: position{line: 2931, col: 13, offset: 92620},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2931, col: 13, offset: 92630},
+																																																	pos:        position{line: 2931, col: 13, offset: 92620},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2931, col: 20, offset: 92637},
+																																																	pos:        position{line: 2931, col: 20, offset: 92627},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2931, col: 29, offset: 92646},
+																																																	pos:        position{line: 2931, col: 29, offset: 92636},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -36683,9 +36683,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2941, col: 8, offset: 92806},
+																																														pos: position{line: 2941, col: 8, offset: 92796},
 																																														expr: &anyMatcher{
-																																															line: 2941, col: 9, offset: 92807,
+																																															line: 2941, col: 9, offset: 92797,
 																																														},
 																																													},
 																																												},
@@ -36698,32 +36698,32 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&actionExpr{
-																																					pos: position{line: 2712, col: 9, offset: 86277},
+																																					pos: position{line: 2712, col: 9, offset: 86267},
 																																					run: (*parser).callonListContinuationElement1501,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2712, col: 9, offset: 86277},
+																																						pos: position{line: 2712, col: 9, offset: 86267},
 																																						exprs: []interface{}{
 																																							&notExpr{
-																																								pos: position{line: 2712, col: 9, offset: 86277},
+																																								pos: position{line: 2712, col: 9, offset: 86267},
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2661, col: 22, offset: 85062},
+																																									pos: position{line: 2661, col: 22, offset: 85052},
 																																									alternatives: []interface{}{
 																																										&seqExpr{
-																																											pos: position{line: 2657, col: 19, offset: 84982},
+																																											pos: position{line: 2657, col: 19, offset: 84972},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2657, col: 19, offset: 84982},
+																																													pos:        position{line: 2657, col: 19, offset: 84972},
 																																													val:        "|===",
 																																													ignoreCase: false,
 																																													want:       "\"|===\"",
 																																												},
 																																												&zeroOrMoreExpr{
-																																													pos: position{line: 2657, col: 26, offset: 84989},
+																																													pos: position{line: 2657, col: 26, offset: 84979},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2922, col: 10, offset: 92458},
+																																														pos: position{line: 2922, col: 10, offset: 92448},
 																																														run: (*parser).callonListContinuationElement1508,
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2922, col: 10, offset: 92458},
+																																															pos:        position{line: 2922, col: 10, offset: 92448},
 																																															val:        "[\\t ]",
 																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
@@ -36732,28 +36732,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2944, col: 8, offset: 92856},
+																																													pos: position{line: 2944, col: 8, offset: 92846},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2931, col: 12, offset: 92629},
+																																															pos: position{line: 2931, col: 12, offset: 92619},
 																																															run: (*parser).callonListContinuationElement1511,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2931, col: 13, offset: 92630},
+																																																pos: position{line: 2931, col: 13, offset: 92620},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 13, offset: 92630},
+																																																		pos:        position{line: 2931, col: 13, offset: 92620},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 20, offset: 92637},
+																																																		pos:        position{line: 2931, col: 20, offset: 92627},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 29, offset: 92646},
+																																																		pos:        position{line: 2931, col: 29, offset: 92636},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -36762,9 +36762,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2941, col: 8, offset: 92806},
+																																															pos: position{line: 2941, col: 8, offset: 92796},
 																																															expr: &anyMatcher{
-																																																line: 2941, col: 9, offset: 92807,
+																																																line: 2941, col: 9, offset: 92797,
 																																															},
 																																														},
 																																													},
@@ -36772,16 +36772,16 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2941, col: 8, offset: 92806},
+																																											pos: position{line: 2941, col: 8, offset: 92796},
 																																											expr: &anyMatcher{
-																																												line: 2941, col: 9, offset: 92807,
+																																												line: 2941, col: 9, offset: 92797,
 																																											},
 																																										},
 																																									},
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2713, col: 9, offset: 86304},
+																																								pos: position{line: 2713, col: 9, offset: 86294},
 																																								expr: &actionExpr{
 																																									pos: position{line: 690, col: 14, offset: 22173},
 																																									run: (*parser).callonListContinuationElement1521,
@@ -36789,18 +36789,18 @@ var g = &grammar{
 																																										pos: position{line: 690, col: 14, offset: 22173},
 																																										exprs: []interface{}{
 																																											&andExpr{
-																																												pos: position{line: 2939, col: 11, offset: 92792},
+																																												pos: position{line: 2939, col: 11, offset: 92782},
 																																												expr: &anyMatcher{
-																																													line: 2939, col: 13, offset: 92794,
+																																													line: 2939, col: 13, offset: 92784,
 																																												},
 																																											},
 																																											&zeroOrMoreExpr{
 																																												pos: position{line: 690, col: 21, offset: 22180},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2922, col: 10, offset: 92458},
+																																													pos: position{line: 2922, col: 10, offset: 92448},
 																																													run: (*parser).callonListContinuationElement1526,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2922, col: 10, offset: 92458},
+																																														pos:        position{line: 2922, col: 10, offset: 92448},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -36809,28 +36809,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2944, col: 8, offset: 92856},
+																																												pos: position{line: 2944, col: 8, offset: 92846},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2931, col: 12, offset: 92629},
+																																														pos: position{line: 2931, col: 12, offset: 92619},
 																																														run: (*parser).callonListContinuationElement1529,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2931, col: 13, offset: 92630},
+																																															pos: position{line: 2931, col: 13, offset: 92620},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2931, col: 13, offset: 92630},
+																																																	pos:        position{line: 2931, col: 13, offset: 92620},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2931, col: 20, offset: 92637},
+																																																	pos:        position{line: 2931, col: 20, offset: 92627},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2931, col: 29, offset: 92646},
+																																																	pos:        position{line: 2931, col: 29, offset: 92636},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -36839,9 +36839,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2941, col: 8, offset: 92806},
+																																														pos: position{line: 2941, col: 8, offset: 92796},
 																																														expr: &anyMatcher{
-																																															line: 2941, col: 9, offset: 92807,
+																																															line: 2941, col: 9, offset: 92797,
 																																														},
 																																													},
 																																												},
@@ -36851,22 +36851,22 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2714, col: 9, offset: 86323},
+																																								pos: position{line: 2714, col: 9, offset: 86313},
 																																								expr: &seqExpr{
-																																									pos: position{line: 2714, col: 11, offset: 86325},
+																																									pos: position{line: 2714, col: 11, offset: 86315},
 																																									exprs: []interface{}{
 																																										&labeledExpr{
-																																											pos:   position{line: 2714, col: 11, offset: 86325},
+																																											pos:   position{line: 2714, col: 11, offset: 86315},
 																																											label: "format",
 																																											expr: &zeroOrOneExpr{
-																																												pos: position{line: 2714, col: 18, offset: 86332},
+																																												pos: position{line: 2714, col: 18, offset: 86322},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2722, col: 20, offset: 86533},
+																																													pos: position{line: 2722, col: 20, offset: 86523},
 																																													run: (*parser).callonListContinuationElement1540,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2722, col: 20, offset: 86533},
+																																														pos: position{line: 2722, col: 20, offset: 86523},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2722, col: 20, offset: 86533},
+																																															pos:        position{line: 2722, col: 20, offset: 86523},
 																																															val:        "[^ |\\r\\n]",
 																																															chars:      []rune{' ', '|', '\r', '\n'},
 																																															ignoreCase: false,
@@ -36877,7 +36877,7 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2714, col: 37, offset: 86351},
+																																											pos:        position{line: 2714, col: 37, offset: 86341},
 																																											val:        "|",
 																																											ignoreCase: false,
 																																											want:       "\"|\"",
@@ -36886,15 +36886,15 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2715, col: 9, offset: 86364},
+																																								pos:   position{line: 2715, col: 9, offset: 86354},
 																																								label: "content",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2715, col: 18, offset: 86373},
+																																									pos: position{line: 2715, col: 18, offset: 86363},
 																																									run: (*parser).callonListContinuationElement1545,
 																																									expr: &zeroOrMoreExpr{
-																																										pos: position{line: 2715, col: 18, offset: 86373},
+																																										pos: position{line: 2715, col: 18, offset: 86363},
 																																										expr: &charClassMatcher{
-																																											pos:        position{line: 2715, col: 18, offset: 86373},
+																																											pos:        position{line: 2715, col: 18, offset: 86363},
 																																											val:        "[^|\\r\\n]",
 																																											chars:      []rune{'|', '\r', '\n'},
 																																											ignoreCase: false,
@@ -36904,30 +36904,30 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&zeroOrOneExpr{
-																																								pos: position{line: 2717, col: 12, offset: 86435},
+																																								pos: position{line: 2717, col: 12, offset: 86425},
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2944, col: 8, offset: 92856},
+																																									pos: position{line: 2944, col: 8, offset: 92846},
 																																									alternatives: []interface{}{
 																																										&actionExpr{
-																																											pos: position{line: 2931, col: 12, offset: 92629},
+																																											pos: position{line: 2931, col: 12, offset: 92619},
 																																											run: (*parser).callonListContinuationElement1550,
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2931, col: 13, offset: 92630},
+																																												pos: position{line: 2931, col: 13, offset: 92620},
 																																												alternatives: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2931, col: 13, offset: 92630},
+																																														pos:        position{line: 2931, col: 13, offset: 92620},
 																																														val:        "\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2931, col: 20, offset: 92637},
+																																														pos:        position{line: 2931, col: 20, offset: 92627},
 																																														val:        "\r\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2931, col: 29, offset: 92646},
+																																														pos:        position{line: 2931, col: 29, offset: 92636},
 																																														val:        "\r",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\"",
@@ -36936,9 +36936,9 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2941, col: 8, offset: 92806},
+																																											pos: position{line: 2941, col: 8, offset: 92796},
 																																											expr: &anyMatcher{
-																																												line: 2941, col: 9, offset: 92807,
+																																												line: 2941, col: 9, offset: 92797,
 																																											},
 																																										},
 																																									},
@@ -36968,18 +36968,18 @@ var g = &grammar{
 																								pos: position{line: 690, col: 14, offset: 22173},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2939, col: 11, offset: 92792},
+																										pos: position{line: 2939, col: 11, offset: 92782},
 																										expr: &anyMatcher{
-																											line: 2939, col: 13, offset: 92794,
+																											line: 2939, col: 13, offset: 92784,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 690, col: 21, offset: 22180},
 																										expr: &actionExpr{
-																											pos: position{line: 2922, col: 10, offset: 92458},
+																											pos: position{line: 2922, col: 10, offset: 92448},
 																											run: (*parser).callonListContinuationElement1562,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2922, col: 10, offset: 92458},
+																												pos:        position{line: 2922, col: 10, offset: 92448},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36988,28 +36988,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2944, col: 8, offset: 92856},
+																										pos: position{line: 2944, col: 8, offset: 92846},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2931, col: 12, offset: 92629},
+																												pos: position{line: 2931, col: 12, offset: 92619},
 																												run: (*parser).callonListContinuationElement1565,
 																												expr: &choiceExpr{
-																													pos: position{line: 2931, col: 13, offset: 92630},
+																													pos: position{line: 2931, col: 13, offset: 92620},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2931, col: 13, offset: 92630},
+																															pos:        position{line: 2931, col: 13, offset: 92620},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2931, col: 20, offset: 92637},
+																															pos:        position{line: 2931, col: 20, offset: 92627},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2931, col: 29, offset: 92646},
+																															pos:        position{line: 2931, col: 29, offset: 92636},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -37018,9 +37018,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2941, col: 8, offset: 92806},
+																												pos: position{line: 2941, col: 8, offset: 92796},
 																												expr: &anyMatcher{
-																													line: 2941, col: 9, offset: 92807,
+																													line: 2941, col: 9, offset: 92797,
 																												},
 																											},
 																										},
@@ -37039,24 +37039,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2661, col: 22, offset: 85062},
+													pos: position{line: 2661, col: 22, offset: 85052},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2657, col: 19, offset: 84982},
+															pos: position{line: 2657, col: 19, offset: 84972},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2657, col: 19, offset: 84982},
+																	pos:        position{line: 2657, col: 19, offset: 84972},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2657, col: 26, offset: 84989},
+																	pos: position{line: 2657, col: 26, offset: 84979},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92458},
+																		pos: position{line: 2922, col: 10, offset: 92448},
 																		run: (*parser).callonListContinuationElement1576,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92458},
+																			pos:        position{line: 2922, col: 10, offset: 92448},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37065,28 +37065,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92856},
+																	pos: position{line: 2944, col: 8, offset: 92846},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92629},
+																			pos: position{line: 2931, col: 12, offset: 92619},
 																			run: (*parser).callonListContinuationElement1579,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92630},
+																				pos: position{line: 2931, col: 13, offset: 92620},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92630},
+																						pos:        position{line: 2931, col: 13, offset: 92620},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92637},
+																						pos:        position{line: 2931, col: 20, offset: 92627},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92646},
+																						pos:        position{line: 2931, col: 29, offset: 92636},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37095,9 +37095,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92806},
+																			pos: position{line: 2941, col: 8, offset: 92796},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92807,
+																				line: 2941, col: 9, offset: 92797,
 																			},
 																		},
 																	},
@@ -37105,9 +37105,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92806},
+															pos: position{line: 2941, col: 8, offset: 92796},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92807,
+																line: 2941, col: 9, offset: 92797,
 															},
 														},
 													},
@@ -37116,36 +37116,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2525, col: 22, offset: 81236},
+										pos: position{line: 2525, col: 22, offset: 81226},
 										run: (*parser).callonListContinuationElement1588,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 22, offset: 81236},
+											pos: position{line: 2525, col: 22, offset: 81226},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2530, col: 31, offset: 81486},
+													pos:        position{line: 2530, col: 31, offset: 81476},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2530, col: 36, offset: 81491},
+													pos: position{line: 2530, col: 36, offset: 81481},
 													expr: &litMatcher{
-														pos:        position{line: 2530, col: 37, offset: 81492},
+														pos:        position{line: 2530, col: 37, offset: 81482},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2525, col: 49, offset: 81263},
+													pos:   position{line: 2525, col: 49, offset: 81253},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 13, offset: 90984},
+														pos: position{line: 2868, col: 13, offset: 90974},
 														run: (*parser).callonListContinuationElement1594,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2868, col: 13, offset: 90984},
+															pos: position{line: 2868, col: 13, offset: 90974},
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 13, offset: 90984},
+																pos:        position{line: 2868, col: 13, offset: 90974},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37155,28 +37155,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92856},
+													pos: position{line: 2944, col: 8, offset: 92846},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92629},
+															pos: position{line: 2931, col: 12, offset: 92619},
 															run: (*parser).callonListContinuationElement1598,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92630},
+																pos: position{line: 2931, col: 13, offset: 92620},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92630},
+																		pos:        position{line: 2931, col: 13, offset: 92620},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92637},
+																		pos:        position{line: 2931, col: 20, offset: 92627},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92646},
+																		pos:        position{line: 2931, col: 29, offset: 92636},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37185,9 +37185,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92806},
+															pos: position{line: 2941, col: 8, offset: 92796},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92807,
+																line: 2941, col: 9, offset: 92797,
 															},
 														},
 													},
@@ -37196,94 +37196,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1580, col: 5, offset: 51297},
+										pos: position{line: 1580, col: 5, offset: 51287},
 										run: (*parser).callonListContinuationElement1605,
 										expr: &seqExpr{
-											pos: position{line: 1580, col: 5, offset: 51297},
+											pos: position{line: 1580, col: 5, offset: 51287},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1580, col: 5, offset: 51297},
+													pos:   position{line: 1580, col: 5, offset: 51287},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1580, col: 11, offset: 51303},
+														pos: position{line: 1580, col: 11, offset: 51293},
 														expr: &actionExpr{
-															pos: position{line: 1745, col: 5, offset: 56652},
+															pos: position{line: 1745, col: 5, offset: 56642},
 															run: (*parser).callonListContinuationElement1609,
 															expr: &seqExpr{
-																pos: position{line: 1745, col: 5, offset: 56652},
+																pos: position{line: 1745, col: 5, offset: 56642},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1745, col: 5, offset: 56652},
+																		pos: position{line: 1745, col: 5, offset: 56642},
 																		run: (*parser).callonListContinuationElement1611,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1748, col: 5, offset: 56715},
+																		pos:   position{line: 1748, col: 5, offset: 56705},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1748, col: 12, offset: 56722},
+																			pos: position{line: 1748, col: 12, offset: 56712},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1748, col: 12, offset: 56722},
+																					pos: position{line: 1748, col: 12, offset: 56712},
 																					run: (*parser).callonListContinuationElement1614,
 																					expr: &litMatcher{
-																						pos:        position{line: 1748, col: 12, offset: 56722},
+																						pos:        position{line: 1748, col: 12, offset: 56712},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1750, col: 13, offset: 56778},
+																					pos: position{line: 1750, col: 13, offset: 56768},
 																					run: (*parser).callonListContinuationElement1616,
 																					expr: &litMatcher{
-																						pos:        position{line: 1750, col: 13, offset: 56778},
+																						pos:        position{line: 1750, col: 13, offset: 56768},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1752, col: 13, offset: 56836},
+																					pos: position{line: 1752, col: 13, offset: 56826},
 																					run: (*parser).callonListContinuationElement1618,
 																					expr: &litMatcher{
-																						pos:        position{line: 1752, col: 13, offset: 56836},
+																						pos:        position{line: 1752, col: 13, offset: 56826},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1754, col: 13, offset: 56904},
+																					pos: position{line: 1754, col: 13, offset: 56894},
 																					run: (*parser).callonListContinuationElement1620,
 																					expr: &litMatcher{
-																						pos:        position{line: 1754, col: 13, offset: 56904},
+																						pos:        position{line: 1754, col: 13, offset: 56894},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1756, col: 13, offset: 56968},
+																					pos: position{line: 1756, col: 13, offset: 56958},
 																					run: (*parser).callonListContinuationElement1622,
 																					expr: &litMatcher{
-																						pos:        position{line: 1756, col: 13, offset: 56968},
+																						pos:        position{line: 1756, col: 13, offset: 56958},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1758, col: 13, offset: 57032},
+																					pos: position{line: 1758, col: 13, offset: 57022},
 																					run: (*parser).callonListContinuationElement1624,
 																					expr: &andExpr{
-																						pos: position{line: 1758, col: 13, offset: 57032},
+																						pos: position{line: 1758, col: 13, offset: 57022},
 																						expr: &actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92519},
+																							pos: position{line: 2926, col: 11, offset: 92509},
 																							run: (*parser).callonListContinuationElement1626,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92519},
+																								pos: position{line: 2926, col: 11, offset: 92509},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92519},
+																									pos:        position{line: 2926, col: 11, offset: 92509},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37302,16 +37302,16 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1581, col: 5, offset: 51326},
+													pos:   position{line: 1581, col: 5, offset: 51316},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1523, col: 5, offset: 49642},
+														pos: position{line: 1523, col: 5, offset: 49632},
 														run: (*parser).callonListContinuationElement1630,
 														expr: &seqExpr{
-															pos: position{line: 1523, col: 5, offset: 49642},
+															pos: position{line: 1523, col: 5, offset: 49632},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1523, col: 5, offset: 49642},
+																	pos: position{line: 1523, col: 5, offset: 49632},
 																	expr: &actionExpr{
 																		pos: position{line: 690, col: 14, offset: 22173},
 																		run: (*parser).callonListContinuationElement1633,
@@ -37319,18 +37319,18 @@ var g = &grammar{
 																			pos: position{line: 690, col: 14, offset: 22173},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2939, col: 11, offset: 92792},
+																					pos: position{line: 2939, col: 11, offset: 92782},
 																					expr: &anyMatcher{
-																						line: 2939, col: 13, offset: 92794,
+																						line: 2939, col: 13, offset: 92784,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 690, col: 21, offset: 22180},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92458},
+																						pos: position{line: 2922, col: 10, offset: 92448},
 																						run: (*parser).callonListContinuationElement1638,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92458},
+																							pos:        position{line: 2922, col: 10, offset: 92448},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37339,28 +37339,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92856},
+																					pos: position{line: 2944, col: 8, offset: 92846},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92629},
+																							pos: position{line: 2931, col: 12, offset: 92619},
 																							run: (*parser).callonListContinuationElement1641,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92630},
+																								pos: position{line: 2931, col: 13, offset: 92620},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92630},
+																										pos:        position{line: 2931, col: 13, offset: 92620},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92637},
+																										pos:        position{line: 2931, col: 20, offset: 92627},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92646},
+																										pos:        position{line: 2931, col: 29, offset: 92636},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37369,9 +37369,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92806},
+																							pos: position{line: 2941, col: 8, offset: 92796},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92807,
+																								line: 2941, col: 9, offset: 92797,
 																							},
 																						},
 																					},
@@ -37381,23 +37381,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1524, col: 5, offset: 49657},
+																	pos: position{line: 1524, col: 5, offset: 49647},
 																	expr: &seqExpr{
-																		pos: position{line: 1555, col: 27, offset: 50517},
+																		pos: position{line: 1555, col: 27, offset: 50507},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1555, col: 27, offset: 50517},
+																				pos:        position{line: 1555, col: 27, offset: 50507},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1555, col: 31, offset: 50521},
+																				pos: position{line: 1555, col: 31, offset: 50511},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92458},
+																					pos: position{line: 2922, col: 10, offset: 92448},
 																					run: (*parser).callonListContinuationElement1652,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92458},
+																						pos:        position{line: 2922, col: 10, offset: 92448},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37406,25 +37406,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
+																				pos: position{line: 2931, col: 12, offset: 92619},
 																				run: (*parser).callonListContinuationElement1654,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37436,20 +37436,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1525, col: 5, offset: 49685},
+																	pos: position{line: 1525, col: 5, offset: 49675},
 																	expr: &actionExpr{
-																		pos: position{line: 1596, col: 5, offset: 51736},
+																		pos: position{line: 1596, col: 5, offset: 51726},
 																		run: (*parser).callonListContinuationElement1660,
 																		expr: &seqExpr{
-																			pos: position{line: 1596, col: 5, offset: 51736},
+																			pos: position{line: 1596, col: 5, offset: 51726},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1596, col: 5, offset: 51736},
+																					pos: position{line: 1596, col: 5, offset: 51726},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92458},
+																						pos: position{line: 2922, col: 10, offset: 92448},
 																						run: (*parser).callonListContinuationElement1663,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92458},
+																							pos:        position{line: 2922, col: 10, offset: 92448},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37458,27 +37458,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1596, col: 12, offset: 51743},
+																					pos:   position{line: 1596, col: 12, offset: 51733},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1598, col: 9, offset: 51806},
+																						pos: position{line: 1598, col: 9, offset: 51796},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1598, col: 9, offset: 51806},
+																								pos: position{line: 1598, col: 9, offset: 51796},
 																								run: (*parser).callonListContinuationElement1667,
 																								expr: &seqExpr{
-																									pos: position{line: 1598, col: 9, offset: 51806},
+																									pos: position{line: 1598, col: 9, offset: 51796},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1598, col: 9, offset: 51806},
+																											pos:   position{line: 1598, col: 9, offset: 51796},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1598, col: 16, offset: 51813},
+																												pos: position{line: 1598, col: 16, offset: 51803},
 																												run: (*parser).callonListContinuationElement1670,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1598, col: 16, offset: 51813},
+																													pos: position{line: 1598, col: 16, offset: 51803},
 																													expr: &litMatcher{
-																														pos:        position{line: 1598, col: 17, offset: 51814},
+																														pos:        position{line: 1598, col: 17, offset: 51804},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -37487,22 +37487,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1602, col: 9, offset: 51914},
+																											pos: position{line: 1602, col: 9, offset: 51904},
 																											run: (*parser).callonListContinuationElement1673,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1621, col: 11, offset: 52631},
+																								pos: position{line: 1621, col: 11, offset: 52621},
 																								run: (*parser).callonListContinuationElement1674,
 																								expr: &seqExpr{
-																									pos: position{line: 1621, col: 11, offset: 52631},
+																									pos: position{line: 1621, col: 11, offset: 52621},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1621, col: 11, offset: 52631},
+																											pos: position{line: 1621, col: 11, offset: 52621},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1621, col: 12, offset: 52632},
+																												pos:        position{line: 1621, col: 12, offset: 52622},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -37510,7 +37510,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1621, col: 20, offset: 52640},
+																											pos:        position{line: 1621, col: 20, offset: 52630},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37519,20 +37519,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1623, col: 13, offset: 52757},
+																								pos: position{line: 1623, col: 13, offset: 52747},
 																								run: (*parser).callonListContinuationElement1679,
 																								expr: &seqExpr{
-																									pos: position{line: 1623, col: 13, offset: 52757},
+																									pos: position{line: 1623, col: 13, offset: 52747},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1623, col: 14, offset: 52758},
+																											pos:        position{line: 1623, col: 14, offset: 52748},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1623, col: 21, offset: 52765},
+																											pos:        position{line: 1623, col: 21, offset: 52755},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37541,20 +37541,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1625, col: 13, offset: 52885},
+																								pos: position{line: 1625, col: 13, offset: 52875},
 																								run: (*parser).callonListContinuationElement1683,
 																								expr: &seqExpr{
-																									pos: position{line: 1625, col: 13, offset: 52885},
+																									pos: position{line: 1625, col: 13, offset: 52875},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1625, col: 14, offset: 52886},
+																											pos:        position{line: 1625, col: 14, offset: 52876},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1625, col: 21, offset: 52893},
+																											pos:        position{line: 1625, col: 21, offset: 52883},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37563,15 +37563,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1627, col: 13, offset: 53013},
+																								pos: position{line: 1627, col: 13, offset: 53003},
 																								run: (*parser).callonListContinuationElement1687,
 																								expr: &seqExpr{
-																									pos: position{line: 1627, col: 13, offset: 53013},
+																									pos: position{line: 1627, col: 13, offset: 53003},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1627, col: 13, offset: 53013},
+																											pos: position{line: 1627, col: 13, offset: 53003},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1627, col: 14, offset: 53014},
+																												pos:        position{line: 1627, col: 14, offset: 53004},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -37579,7 +37579,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1627, col: 26, offset: 53026},
+																											pos:        position{line: 1627, col: 26, offset: 53016},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37588,15 +37588,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1629, col: 13, offset: 53146},
+																								pos: position{line: 1629, col: 13, offset: 53136},
 																								run: (*parser).callonListContinuationElement1692,
 																								expr: &seqExpr{
-																									pos: position{line: 1629, col: 13, offset: 53146},
+																									pos: position{line: 1629, col: 13, offset: 53136},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1629, col: 13, offset: 53146},
+																											pos: position{line: 1629, col: 13, offset: 53136},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1629, col: 14, offset: 53147},
+																												pos:        position{line: 1629, col: 14, offset: 53137},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -37604,7 +37604,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1629, col: 26, offset: 53159},
+																											pos:        position{line: 1629, col: 26, offset: 53149},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37616,12 +37616,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2926, col: 11, offset: 92519},
+																					pos: position{line: 2926, col: 11, offset: 92509},
 																					run: (*parser).callonListContinuationElement1697,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2926, col: 11, offset: 92519},
+																						pos: position{line: 2926, col: 11, offset: 92509},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2926, col: 11, offset: 92519},
+																							pos:        position{line: 2926, col: 11, offset: 92509},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37634,20 +37634,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1526, col: 5, offset: 49715},
+																	pos: position{line: 1526, col: 5, offset: 49705},
 																	expr: &actionExpr{
-																		pos: position{line: 1646, col: 5, offset: 53698},
+																		pos: position{line: 1646, col: 5, offset: 53688},
 																		run: (*parser).callonListContinuationElement1701,
 																		expr: &seqExpr{
-																			pos: position{line: 1646, col: 5, offset: 53698},
+																			pos: position{line: 1646, col: 5, offset: 53688},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1646, col: 5, offset: 53698},
+																					pos: position{line: 1646, col: 5, offset: 53688},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92458},
+																						pos: position{line: 2922, col: 10, offset: 92448},
 																						run: (*parser).callonListContinuationElement1704,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92458},
+																							pos:        position{line: 2922, col: 10, offset: 92448},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37656,24 +37656,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1647, col: 5, offset: 53710},
+																					pos:   position{line: 1647, col: 5, offset: 53700},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1648, col: 9, offset: 53726},
+																						pos: position{line: 1648, col: 9, offset: 53716},
 																						run: (*parser).callonListContinuationElement1707,
 																						expr: &choiceExpr{
-																							pos: position{line: 1648, col: 10, offset: 53727},
+																							pos: position{line: 1648, col: 10, offset: 53717},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1648, col: 11, offset: 53728},
+																									pos:        position{line: 1648, col: 11, offset: 53718},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1648, col: 18, offset: 53735},
+																									pos: position{line: 1648, col: 18, offset: 53725},
 																									expr: &litMatcher{
-																										pos:        position{line: 1648, col: 19, offset: 53736},
+																										pos:        position{line: 1648, col: 19, offset: 53726},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -37684,16 +37684,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1651, col: 7, offset: 53826},
+																					pos: position{line: 1651, col: 7, offset: 53816},
 																					run: (*parser).callonListContinuationElement1712,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2926, col: 11, offset: 92519},
+																					pos: position{line: 2926, col: 11, offset: 92509},
 																					run: (*parser).callonListContinuationElement1713,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2926, col: 11, offset: 92519},
+																						pos: position{line: 2926, col: 11, offset: 92509},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2926, col: 11, offset: 92519},
+																							pos:        position{line: 2926, col: 11, offset: 92509},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37706,29 +37706,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1527, col: 5, offset: 49747},
+																	pos: position{line: 1527, col: 5, offset: 49737},
 																	expr: &actionExpr{
-																		pos: position{line: 1736, col: 5, offset: 56267},
+																		pos: position{line: 1736, col: 5, offset: 56257},
 																		run: (*parser).callonListContinuationElement1717,
 																		expr: &seqExpr{
-																			pos: position{line: 1736, col: 5, offset: 56267},
+																			pos: position{line: 1736, col: 5, offset: 56257},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1736, col: 5, offset: 56267},
+																					pos:        position{line: 1736, col: 5, offset: 56257},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1736, col: 9, offset: 56271},
+																					pos:   position{line: 1736, col: 9, offset: 56261},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1736, col: 14, offset: 56276},
+																						pos: position{line: 1736, col: 14, offset: 56266},
 																						run: (*parser).callonListContinuationElement1721,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1736, col: 14, offset: 56276},
+																							pos: position{line: 1736, col: 14, offset: 56266},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1736, col: 14, offset: 56276},
+																								pos:        position{line: 1736, col: 14, offset: 56266},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37738,18 +37738,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1736, col: 62, offset: 56324},
+																					pos:        position{line: 1736, col: 62, offset: 56314},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2926, col: 11, offset: 92519},
+																					pos: position{line: 2926, col: 11, offset: 92509},
 																					run: (*parser).callonListContinuationElement1725,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2926, col: 11, offset: 92519},
+																						pos: position{line: 2926, col: 11, offset: 92509},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2926, col: 11, offset: 92519},
+																							pos:        position{line: 2926, col: 11, offset: 92509},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37762,31 +37762,31 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1528, col: 5, offset: 49777},
+																	pos: position{line: 1528, col: 5, offset: 49767},
 																	expr: &seqExpr{
-																		pos: position{line: 1528, col: 7, offset: 49779},
+																		pos: position{line: 1528, col: 7, offset: 49769},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1681, col: 5, offset: 54717},
+																				pos: position{line: 1681, col: 5, offset: 54707},
 																				run: (*parser).callonListContinuationElement1730,
 																				expr: &seqExpr{
-																					pos: position{line: 1681, col: 5, offset: 54717},
+																					pos: position{line: 1681, col: 5, offset: 54707},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1681, col: 5, offset: 54717},
+																							pos: position{line: 1681, col: 5, offset: 54707},
 																							expr: &seqExpr{
-																								pos: position{line: 2530, col: 31, offset: 81486},
+																								pos: position{line: 2530, col: 31, offset: 81476},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2530, col: 31, offset: 81486},
+																										pos:        position{line: 2530, col: 31, offset: 81476},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2530, col: 36, offset: 81491},
+																										pos: position{line: 2530, col: 36, offset: 81481},
 																										expr: &litMatcher{
-																											pos:        position{line: 2530, col: 37, offset: 81492},
+																											pos:        position{line: 2530, col: 37, offset: 81482},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -37796,28 +37796,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1682, col: 5, offset: 54749},
+																							pos: position{line: 1682, col: 5, offset: 54739},
 																							expr: &seqExpr{
-																								pos: position{line: 1682, col: 6, offset: 54750},
+																								pos: position{line: 1682, col: 6, offset: 54740},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1682, col: 6, offset: 54750},
+																										pos: position{line: 1682, col: 6, offset: 54740},
 																										expr: &actionExpr{
-																											pos: position{line: 1687, col: 5, offset: 54900},
+																											pos: position{line: 1687, col: 5, offset: 54890},
 																											run: (*parser).callonListContinuationElement1740,
 																											expr: &seqExpr{
-																												pos: position{line: 1687, col: 5, offset: 54900},
+																												pos: position{line: 1687, col: 5, offset: 54890},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1687, col: 5, offset: 54900},
+																														pos:   position{line: 1687, col: 5, offset: 54890},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1687, col: 16, offset: 54911},
+																															pos: position{line: 1687, col: 16, offset: 54901},
 																															run: (*parser).callonListContinuationElement1743,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1687, col: 16, offset: 54911},
+																																pos: position{line: 1687, col: 16, offset: 54901},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1687, col: 17, offset: 54912},
+																																	pos:        position{line: 1687, col: 17, offset: 54902},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -37826,7 +37826,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1690, col: 5, offset: 54969},
+																														pos: position{line: 1690, col: 5, offset: 54959},
 																														run: (*parser).callonListContinuationElement1746,
 																													},
 																												},
@@ -37834,30 +37834,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1682, col: 35, offset: 54779},
+																										pos: position{line: 1682, col: 35, offset: 54769},
 																										expr: &choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92856},
+																											pos: position{line: 2944, col: 8, offset: 92846},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92629},
+																													pos: position{line: 2931, col: 12, offset: 92619},
 																													run: (*parser).callonListContinuationElement1749,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92630},
+																														pos: position{line: 2931, col: 13, offset: 92620},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92630},
+																																pos:        position{line: 2931, col: 13, offset: 92620},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92637},
+																																pos:        position{line: 2931, col: 20, offset: 92627},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92646},
+																																pos:        position{line: 2931, col: 29, offset: 92636},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37866,16 +37866,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92806},
+																													pos: position{line: 2941, col: 8, offset: 92796},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92807,
+																														line: 2941, col: 9, offset: 92797,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1682, col: 40, offset: 54784,
+																										line: 1682, col: 40, offset: 54774,
 																									},
 																								},
 																							},
@@ -37884,21 +37884,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1687, col: 5, offset: 54900},
+																				pos: position{line: 1687, col: 5, offset: 54890},
 																				run: (*parser).callonListContinuationElement1757,
 																				expr: &seqExpr{
-																					pos: position{line: 1687, col: 5, offset: 54900},
+																					pos: position{line: 1687, col: 5, offset: 54890},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1687, col: 5, offset: 54900},
+																							pos:   position{line: 1687, col: 5, offset: 54890},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1687, col: 16, offset: 54911},
+																								pos: position{line: 1687, col: 16, offset: 54901},
 																								run: (*parser).callonListContinuationElement1760,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1687, col: 16, offset: 54911},
+																									pos: position{line: 1687, col: 16, offset: 54901},
 																									expr: &litMatcher{
-																										pos:        position{line: 1687, col: 17, offset: 54912},
+																										pos:        position{line: 1687, col: 17, offset: 54902},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37907,7 +37907,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1690, col: 5, offset: 54969},
+																							pos: position{line: 1690, col: 5, offset: 54959},
 																							run: (*parser).callonListContinuationElement1763,
 																						},
 																					},
@@ -37917,7 +37917,7 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1529, col: 5, offset: 49835},
+																	pos: position{line: 1529, col: 5, offset: 49825},
 																	expr: &actionExpr{
 																		pos: position{line: 737, col: 5, offset: 23726},
 																		run: (*parser).callonListContinuationElement1765,
@@ -37927,7 +37927,7 @@ var g = &grammar{
 																				&notExpr{
 																					pos: position{line: 737, col: 5, offset: 23726},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2812, col: 13, offset: 89553},
+																						pos:        position{line: 2812, col: 13, offset: 89543},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37977,10 +37977,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 755, col: 8, offset: 24370},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92458},
+																												pos: position{line: 2922, col: 10, offset: 92448},
 																												run: (*parser).callonListContinuationElement1780,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92458},
+																													pos:        position{line: 2922, col: 10, offset: 92448},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37989,28 +37989,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92856},
+																											pos: position{line: 2944, col: 8, offset: 92846},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92629},
+																													pos: position{line: 2931, col: 12, offset: 92619},
 																													run: (*parser).callonListContinuationElement1783,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92630},
+																														pos: position{line: 2931, col: 13, offset: 92620},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92630},
+																																pos:        position{line: 2931, col: 13, offset: 92620},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92637},
+																																pos:        position{line: 2931, col: 20, offset: 92627},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92646},
+																																pos:        position{line: 2931, col: 29, offset: 92636},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38019,9 +38019,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92806},
+																													pos: position{line: 2941, col: 8, offset: 92796},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92807,
+																														line: 2941, col: 9, offset: 92797,
 																													},
 																												},
 																											},
@@ -38066,10 +38066,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24618},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92458},
+																												pos: position{line: 2922, col: 10, offset: 92448},
 																												run: (*parser).callonListContinuationElement1799,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92458},
+																													pos:        position{line: 2922, col: 10, offset: 92448},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38078,28 +38078,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92856},
+																											pos: position{line: 2944, col: 8, offset: 92846},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92629},
+																													pos: position{line: 2931, col: 12, offset: 92619},
 																													run: (*parser).callonListContinuationElement1802,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92630},
+																														pos: position{line: 2931, col: 13, offset: 92620},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92630},
+																																pos:        position{line: 2931, col: 13, offset: 92620},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92637},
+																																pos:        position{line: 2931, col: 20, offset: 92627},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92646},
+																																pos:        position{line: 2931, col: 29, offset: 92636},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38108,9 +38108,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92806},
+																													pos: position{line: 2941, col: 8, offset: 92796},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92807,
+																														line: 2941, col: 9, offset: 92797,
 																													},
 																												},
 																											},
@@ -38151,10 +38151,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 773, col: 52, offset: 25030},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92458},
+																												pos: position{line: 2922, col: 10, offset: 92448},
 																												run: (*parser).callonListContinuationElement1817,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92458},
+																													pos:        position{line: 2922, col: 10, offset: 92448},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38163,28 +38163,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92856},
+																											pos: position{line: 2944, col: 8, offset: 92846},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92629},
+																													pos: position{line: 2931, col: 12, offset: 92619},
 																													run: (*parser).callonListContinuationElement1820,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92630},
+																														pos: position{line: 2931, col: 13, offset: 92620},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92630},
+																																pos:        position{line: 2931, col: 13, offset: 92620},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92637},
+																																pos:        position{line: 2931, col: 20, offset: 92627},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92646},
+																																pos:        position{line: 2931, col: 29, offset: 92636},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38193,9 +38193,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92806},
+																													pos: position{line: 2941, col: 8, offset: 92796},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92807,
+																														line: 2941, col: 9, offset: 92797,
 																													},
 																												},
 																											},
@@ -38240,10 +38240,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 769, col: 8, offset: 24864},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92458},
+																												pos: position{line: 2922, col: 10, offset: 92448},
 																												run: (*parser).callonListContinuationElement1836,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92458},
+																													pos:        position{line: 2922, col: 10, offset: 92448},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38252,28 +38252,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92856},
+																											pos: position{line: 2944, col: 8, offset: 92846},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92629},
+																													pos: position{line: 2931, col: 12, offset: 92619},
 																													run: (*parser).callonListContinuationElement1839,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92630},
+																														pos: position{line: 2931, col: 13, offset: 92620},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92630},
+																																pos:        position{line: 2931, col: 13, offset: 92620},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92637},
+																																pos:        position{line: 2931, col: 20, offset: 92627},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92646},
+																																pos:        position{line: 2931, col: 29, offset: 92636},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38282,9 +38282,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92806},
+																													pos: position{line: 2941, col: 8, offset: 92796},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92807,
+																														line: 2941, col: 9, offset: 92797,
 																													},
 																												},
 																											},
@@ -38329,10 +38329,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 784, col: 8, offset: 25402},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92458},
+																												pos: position{line: 2922, col: 10, offset: 92448},
 																												run: (*parser).callonListContinuationElement1855,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92458},
+																													pos:        position{line: 2922, col: 10, offset: 92448},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38341,28 +38341,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92856},
+																											pos: position{line: 2944, col: 8, offset: 92846},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92629},
+																													pos: position{line: 2931, col: 12, offset: 92619},
 																													run: (*parser).callonListContinuationElement1858,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92630},
+																														pos: position{line: 2931, col: 13, offset: 92620},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92630},
+																																pos:        position{line: 2931, col: 13, offset: 92620},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92637},
+																																pos:        position{line: 2931, col: 20, offset: 92627},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92646},
+																																pos:        position{line: 2931, col: 29, offset: 92636},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38371,9 +38371,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92806},
+																													pos: position{line: 2941, col: 8, offset: 92796},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92807,
+																														line: 2941, col: 9, offset: 92797,
 																													},
 																												},
 																											},
@@ -38418,10 +38418,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 798, col: 8, offset: 25878},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92458},
+																												pos: position{line: 2922, col: 10, offset: 92448},
 																												run: (*parser).callonListContinuationElement1874,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92458},
+																													pos:        position{line: 2922, col: 10, offset: 92448},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38430,28 +38430,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92856},
+																											pos: position{line: 2944, col: 8, offset: 92846},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92629},
+																													pos: position{line: 2931, col: 12, offset: 92619},
 																													run: (*parser).callonListContinuationElement1877,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92630},
+																														pos: position{line: 2931, col: 13, offset: 92620},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92630},
+																																pos:        position{line: 2931, col: 13, offset: 92620},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92637},
+																																pos:        position{line: 2931, col: 20, offset: 92627},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92646},
+																																pos:        position{line: 2931, col: 29, offset: 92636},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38460,9 +38460,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92806},
+																													pos: position{line: 2941, col: 8, offset: 92796},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92807,
+																														line: 2941, col: 9, offset: 92797,
 																													},
 																												},
 																											},
@@ -38507,10 +38507,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 805, col: 8, offset: 26130},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92458},
+																												pos: position{line: 2922, col: 10, offset: 92448},
 																												run: (*parser).callonListContinuationElement1893,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92458},
+																													pos:        position{line: 2922, col: 10, offset: 92448},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38519,28 +38519,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92856},
+																											pos: position{line: 2944, col: 8, offset: 92846},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92629},
+																													pos: position{line: 2931, col: 12, offset: 92619},
 																													run: (*parser).callonListContinuationElement1896,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92630},
+																														pos: position{line: 2931, col: 13, offset: 92620},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92630},
+																																pos:        position{line: 2931, col: 13, offset: 92620},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92637},
+																																pos:        position{line: 2931, col: 20, offset: 92627},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92646},
+																																pos:        position{line: 2931, col: 29, offset: 92636},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38549,9 +38549,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92806},
+																													pos: position{line: 2941, col: 8, offset: 92796},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92807,
+																														line: 2941, col: 9, offset: 92797,
 																													},
 																												},
 																											},
@@ -38596,10 +38596,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 812, col: 8, offset: 26380},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92458},
+																												pos: position{line: 2922, col: 10, offset: 92448},
 																												run: (*parser).callonListContinuationElement1912,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92458},
+																													pos:        position{line: 2922, col: 10, offset: 92448},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38608,28 +38608,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92856},
+																											pos: position{line: 2944, col: 8, offset: 92846},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92629},
+																													pos: position{line: 2931, col: 12, offset: 92619},
 																													run: (*parser).callonListContinuationElement1915,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92630},
+																														pos: position{line: 2931, col: 13, offset: 92620},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92630},
+																																pos:        position{line: 2931, col: 13, offset: 92620},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92637},
+																																pos:        position{line: 2931, col: 20, offset: 92627},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92646},
+																																pos:        position{line: 2931, col: 29, offset: 92636},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38638,9 +38638,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92806},
+																													pos: position{line: 2941, col: 8, offset: 92796},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92807,
+																														line: 2941, col: 9, offset: 92797,
 																													},
 																												},
 																											},
@@ -38685,10 +38685,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 819, col: 8, offset: 26626},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92458},
+																												pos: position{line: 2922, col: 10, offset: 92448},
 																												run: (*parser).callonListContinuationElement1931,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92458},
+																													pos:        position{line: 2922, col: 10, offset: 92448},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38697,28 +38697,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92856},
+																											pos: position{line: 2944, col: 8, offset: 92846},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92629},
+																													pos: position{line: 2931, col: 12, offset: 92619},
 																													run: (*parser).callonListContinuationElement1934,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92630},
+																														pos: position{line: 2931, col: 13, offset: 92620},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92630},
+																																pos:        position{line: 2931, col: 13, offset: 92620},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92637},
+																																pos:        position{line: 2931, col: 20, offset: 92627},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92646},
+																																pos:        position{line: 2931, col: 29, offset: 92636},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38727,9 +38727,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92806},
+																													pos: position{line: 2941, col: 8, offset: 92796},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92807,
+																														line: 2941, col: 9, offset: 92797,
 																													},
 																												},
 																											},
@@ -38745,15 +38745,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1530, col: 5, offset: 49855},
+																	pos:   position{line: 1530, col: 5, offset: 49845},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 14, offset: 91051},
+																		pos: position{line: 2872, col: 14, offset: 91041},
 																		run: (*parser).callonListContinuationElement1942,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2872, col: 14, offset: 91051},
+																			pos: position{line: 2872, col: 14, offset: 91041},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 14, offset: 91051},
+																				pos:        position{line: 2872, col: 14, offset: 91041},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38763,28 +38763,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92856},
+																	pos: position{line: 2944, col: 8, offset: 92846},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92629},
+																			pos: position{line: 2931, col: 12, offset: 92619},
 																			run: (*parser).callonListContinuationElement1946,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92630},
+																				pos: position{line: 2931, col: 13, offset: 92620},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92630},
+																						pos:        position{line: 2931, col: 13, offset: 92620},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92637},
+																						pos:        position{line: 2931, col: 20, offset: 92627},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92646},
+																						pos:        position{line: 2931, col: 29, offset: 92636},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38793,9 +38793,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92806},
+																			pos: position{line: 2941, col: 8, offset: 92796},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92807,
+																				line: 2941, col: 9, offset: 92797,
 																			},
 																		},
 																	},
@@ -38816,33 +38816,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1720, col: 1, offset: 55761},
+			pos:  position{line: 1720, col: 1, offset: 55751},
 			expr: &actionExpr{
-				pos: position{line: 1722, col: 5, offset: 55839},
+				pos: position{line: 1722, col: 5, offset: 55829},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1722, col: 5, offset: 55839},
+					pos: position{line: 1722, col: 5, offset: 55829},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1722, col: 5, offset: 55839},
+							pos: position{line: 1722, col: 5, offset: 55829},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1725, col: 5, offset: 55906},
+							pos:        position{line: 1725, col: 5, offset: 55896},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1725, col: 9, offset: 55910},
+							pos:   position{line: 1725, col: 9, offset: 55900},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1725, col: 14, offset: 55915},
+								pos: position{line: 1725, col: 14, offset: 55905},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1725, col: 14, offset: 55915},
+									pos: position{line: 1725, col: 14, offset: 55905},
 									expr: &charClassMatcher{
-										pos:        position{line: 1725, col: 14, offset: 55915},
+										pos:        position{line: 1725, col: 14, offset: 55905},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -38852,18 +38852,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1725, col: 62, offset: 55963},
+							pos:        position{line: 1725, col: 62, offset: 55953},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1725, col: 66, offset: 55967},
+							pos: position{line: 1725, col: 66, offset: 55957},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92458},
+								pos: position{line: 2922, col: 10, offset: 92448},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92458},
+									pos:        position{line: 2922, col: 10, offset: 92448},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38872,30 +38872,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1725, col: 73, offset: 55974},
+							pos: position{line: 1725, col: 73, offset: 55964},
 							expr: &choiceExpr{
-								pos: position{line: 1725, col: 75, offset: 55976},
+								pos: position{line: 1725, col: 75, offset: 55966},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2931, col: 12, offset: 92629},
+										pos: position{line: 2931, col: 12, offset: 92619},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2931, col: 13, offset: 92630},
+											pos: position{line: 2931, col: 13, offset: 92620},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2931, col: 13, offset: 92630},
+													pos:        position{line: 2931, col: 13, offset: 92620},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 20, offset: 92637},
+													pos:        position{line: 2931, col: 20, offset: 92627},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 29, offset: 92646},
+													pos:        position{line: 2931, col: 29, offset: 92636},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38904,13 +38904,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2941, col: 8, offset: 92806},
+										pos: position{line: 2941, col: 8, offset: 92796},
 										expr: &anyMatcher{
-											line: 2941, col: 9, offset: 92807,
+											line: 2941, col: 9, offset: 92797,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1725, col: 81, offset: 55982},
+										pos:  position{line: 1725, col: 81, offset: 55972},
 										name: "Callout",
 									},
 								},
@@ -38922,44 +38922,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1764, col: 1, offset: 57155},
+			pos:  position{line: 1764, col: 1, offset: 57145},
 			expr: &actionExpr{
-				pos: position{line: 1766, col: 5, offset: 57229},
+				pos: position{line: 1766, col: 5, offset: 57219},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1766, col: 5, offset: 57229},
+					pos: position{line: 1766, col: 5, offset: 57219},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1766, col: 5, offset: 57229},
+							pos: position{line: 1766, col: 5, offset: 57219},
 							expr: &seqExpr{
-								pos: position{line: 1766, col: 7, offset: 57231},
+								pos: position{line: 1766, col: 7, offset: 57221},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2812, col: 13, offset: 89553},
+										pos:        position{line: 2812, col: 13, offset: 89543},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1766, col: 16, offset: 57240},
+										pos: position{line: 1766, col: 16, offset: 57230},
 										expr: &seqExpr{
-											pos: position{line: 1766, col: 18, offset: 57242},
+											pos: position{line: 1766, col: 18, offset: 57232},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1766, col: 19, offset: 57243},
+													pos:        position{line: 1766, col: 19, offset: 57233},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2926, col: 11, offset: 92519},
+													pos: position{line: 2926, col: 11, offset: 92509},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2926, col: 11, offset: 92519},
+														pos: position{line: 2926, col: 11, offset: 92509},
 														expr: &charClassMatcher{
-															pos:        position{line: 2926, col: 11, offset: 92519},
+															pos:        position{line: 2926, col: 11, offset: 92509},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38974,88 +38974,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1767, col: 5, offset: 57383},
+							pos:   position{line: 1767, col: 5, offset: 57373},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1767, col: 11, offset: 57389},
+								pos: position{line: 1767, col: 11, offset: 57379},
 								expr: &actionExpr{
-									pos: position{line: 1745, col: 5, offset: 56652},
+									pos: position{line: 1745, col: 5, offset: 56642},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1745, col: 5, offset: 56652},
+										pos: position{line: 1745, col: 5, offset: 56642},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1745, col: 5, offset: 56652},
+												pos: position{line: 1745, col: 5, offset: 56642},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1748, col: 5, offset: 56715},
+												pos:   position{line: 1748, col: 5, offset: 56705},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1748, col: 12, offset: 56722},
+													pos: position{line: 1748, col: 12, offset: 56712},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1748, col: 12, offset: 56722},
+															pos: position{line: 1748, col: 12, offset: 56712},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1748, col: 12, offset: 56722},
+																pos:        position{line: 1748, col: 12, offset: 56712},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1750, col: 13, offset: 56778},
+															pos: position{line: 1750, col: 13, offset: 56768},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1750, col: 13, offset: 56778},
+																pos:        position{line: 1750, col: 13, offset: 56768},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1752, col: 13, offset: 56836},
+															pos: position{line: 1752, col: 13, offset: 56826},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1752, col: 13, offset: 56836},
+																pos:        position{line: 1752, col: 13, offset: 56826},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1754, col: 13, offset: 56904},
+															pos: position{line: 1754, col: 13, offset: 56894},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1754, col: 13, offset: 56904},
+																pos:        position{line: 1754, col: 13, offset: 56894},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1756, col: 13, offset: 56968},
+															pos: position{line: 1756, col: 13, offset: 56958},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1756, col: 13, offset: 56968},
+																pos:        position{line: 1756, col: 13, offset: 56958},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1758, col: 13, offset: 57032},
+															pos: position{line: 1758, col: 13, offset: 57022},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1758, col: 13, offset: 57032},
+																pos: position{line: 1758, col: 13, offset: 57022},
 																expr: &actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92519},
+																	pos: position{line: 2926, col: 11, offset: 92509},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92519},
+																		pos: position{line: 2926, col: 11, offset: 92509},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92519},
+																			pos:        position{line: 2926, col: 11, offset: 92509},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39074,24 +39074,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1768, col: 5, offset: 57411},
+							pos:   position{line: 1768, col: 5, offset: 57401},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1804, col: 5, offset: 58518},
+								pos: position{line: 1804, col: 5, offset: 58508},
 								run: (*parser).callonShortcutParagraph35,
 								expr: &seqExpr{
-									pos: position{line: 1804, col: 5, offset: 58518},
+									pos: position{line: 1804, col: 5, offset: 58508},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1804, col: 5, offset: 58518},
+											pos:   position{line: 1804, col: 5, offset: 58508},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2872, col: 14, offset: 91051},
+												pos: position{line: 2872, col: 14, offset: 91041},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2872, col: 14, offset: 91051},
+													pos: position{line: 2872, col: 14, offset: 91041},
 													expr: &charClassMatcher{
-														pos:        position{line: 2872, col: 14, offset: 91051},
+														pos:        position{line: 2872, col: 14, offset: 91041},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39101,32 +39101,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1805, col: 5, offset: 58542},
+											pos: position{line: 1805, col: 5, offset: 58532},
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2944, col: 8, offset: 92856},
+											pos: position{line: 2944, col: 8, offset: 92846},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2931, col: 12, offset: 92629},
+													pos: position{line: 2931, col: 12, offset: 92619},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2931, col: 13, offset: 92630},
+														pos: position{line: 2931, col: 13, offset: 92620},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2931, col: 13, offset: 92630},
+																pos:        position{line: 2931, col: 13, offset: 92620},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2931, col: 20, offset: 92637},
+																pos:        position{line: 2931, col: 20, offset: 92627},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2931, col: 29, offset: 92646},
+																pos:        position{line: 2931, col: 29, offset: 92636},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39135,9 +39135,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92806},
+													pos: position{line: 2941, col: 8, offset: 92796},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92807,
+														line: 2941, col: 9, offset: 92797,
 													},
 												},
 											},
@@ -39147,28 +39147,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1769, col: 5, offset: 57445},
+							pos: position{line: 1769, col: 5, offset: 57435},
 							run: (*parser).callonShortcutParagraph50,
 						},
 						&labeledExpr{
-							pos:   position{line: 1776, col: 5, offset: 57775},
+							pos:   position{line: 1776, col: 5, offset: 57765},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1776, col: 16, offset: 57786},
+								pos: position{line: 1776, col: 16, offset: 57776},
 								expr: &actionExpr{
-									pos: position{line: 1777, col: 9, offset: 57796},
+									pos: position{line: 1777, col: 9, offset: 57786},
 									run: (*parser).callonShortcutParagraph53,
 									expr: &seqExpr{
-										pos: position{line: 1777, col: 9, offset: 57796},
+										pos: position{line: 1777, col: 9, offset: 57786},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2939, col: 11, offset: 92792},
+												pos: position{line: 2939, col: 11, offset: 92782},
 												expr: &anyMatcher{
-													line: 2939, col: 13, offset: 92794,
+													line: 2939, col: 13, offset: 92784,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1778, col: 9, offset: 57812},
+												pos: position{line: 1778, col: 9, offset: 57802},
 												expr: &actionExpr{
 													pos: position{line: 690, col: 14, offset: 22173},
 													run: (*parser).callonShortcutParagraph58,
@@ -39176,18 +39176,18 @@ var g = &grammar{
 														pos: position{line: 690, col: 14, offset: 22173},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2939, col: 11, offset: 92792},
+																pos: position{line: 2939, col: 11, offset: 92782},
 																expr: &anyMatcher{
-																	line: 2939, col: 13, offset: 92794,
+																	line: 2939, col: 13, offset: 92784,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 690, col: 21, offset: 22180},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92458},
+																	pos: position{line: 2922, col: 10, offset: 92448},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92458},
+																		pos:        position{line: 2922, col: 10, offset: 92448},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39196,28 +39196,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92856},
+																pos: position{line: 2944, col: 8, offset: 92846},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92629},
+																		pos: position{line: 2931, col: 12, offset: 92619},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92630},
+																			pos: position{line: 2931, col: 13, offset: 92620},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92630},
+																					pos:        position{line: 2931, col: 13, offset: 92620},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92637},
+																					pos:        position{line: 2931, col: 20, offset: 92627},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92646},
+																					pos:        position{line: 2931, col: 29, offset: 92636},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39226,9 +39226,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92806},
+																		pos: position{line: 2941, col: 8, offset: 92796},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92807,
+																			line: 2941, col: 9, offset: 92797,
 																		},
 																	},
 																},
@@ -39238,14 +39238,14 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1779, col: 9, offset: 57831},
+												pos: position{line: 1779, col: 9, offset: 57821},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1779, col: 10, offset: 57832},
+													pos:  position{line: 1779, col: 10, offset: 57822},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1780, col: 9, offset: 57856},
+												pos: position{line: 1780, col: 9, offset: 57846},
 												expr: &actionExpr{
 													pos: position{line: 737, col: 5, offset: 23726},
 													run: (*parser).callonShortcutParagraph76,
@@ -39255,7 +39255,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 737, col: 5, offset: 23726},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2812, col: 13, offset: 89553},
+																	pos:        position{line: 2812, col: 13, offset: 89543},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -39305,10 +39305,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 755, col: 8, offset: 24370},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92458},
+																							pos: position{line: 2922, col: 10, offset: 92448},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92458},
+																								pos:        position{line: 2922, col: 10, offset: 92448},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39317,28 +39317,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92856},
+																						pos: position{line: 2944, col: 8, offset: 92846},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92629},
+																								pos: position{line: 2931, col: 12, offset: 92619},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92630},
+																									pos: position{line: 2931, col: 13, offset: 92620},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92630},
+																											pos:        position{line: 2931, col: 13, offset: 92620},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92637},
+																											pos:        position{line: 2931, col: 20, offset: 92627},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92646},
+																											pos:        position{line: 2931, col: 29, offset: 92636},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39347,9 +39347,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92806},
+																								pos: position{line: 2941, col: 8, offset: 92796},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92807,
+																									line: 2941, col: 9, offset: 92797,
 																								},
 																							},
 																						},
@@ -39394,10 +39394,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24618},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92458},
+																							pos: position{line: 2922, col: 10, offset: 92448},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92458},
+																								pos:        position{line: 2922, col: 10, offset: 92448},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39406,28 +39406,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92856},
+																						pos: position{line: 2944, col: 8, offset: 92846},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92629},
+																								pos: position{line: 2931, col: 12, offset: 92619},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92630},
+																									pos: position{line: 2931, col: 13, offset: 92620},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92630},
+																											pos:        position{line: 2931, col: 13, offset: 92620},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92637},
+																											pos:        position{line: 2931, col: 20, offset: 92627},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92646},
+																											pos:        position{line: 2931, col: 29, offset: 92636},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39436,9 +39436,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92806},
+																								pos: position{line: 2941, col: 8, offset: 92796},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92807,
+																									line: 2941, col: 9, offset: 92797,
 																								},
 																							},
 																						},
@@ -39479,10 +39479,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 773, col: 52, offset: 25030},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92458},
+																							pos: position{line: 2922, col: 10, offset: 92448},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92458},
+																								pos:        position{line: 2922, col: 10, offset: 92448},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39491,28 +39491,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92856},
+																						pos: position{line: 2944, col: 8, offset: 92846},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92629},
+																								pos: position{line: 2931, col: 12, offset: 92619},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92630},
+																									pos: position{line: 2931, col: 13, offset: 92620},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92630},
+																											pos:        position{line: 2931, col: 13, offset: 92620},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92637},
+																											pos:        position{line: 2931, col: 20, offset: 92627},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92646},
+																											pos:        position{line: 2931, col: 29, offset: 92636},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39521,9 +39521,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92806},
+																								pos: position{line: 2941, col: 8, offset: 92796},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92807,
+																									line: 2941, col: 9, offset: 92797,
 																								},
 																							},
 																						},
@@ -39568,10 +39568,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 769, col: 8, offset: 24864},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92458},
+																							pos: position{line: 2922, col: 10, offset: 92448},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92458},
+																								pos:        position{line: 2922, col: 10, offset: 92448},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39580,28 +39580,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92856},
+																						pos: position{line: 2944, col: 8, offset: 92846},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92629},
+																								pos: position{line: 2931, col: 12, offset: 92619},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92630},
+																									pos: position{line: 2931, col: 13, offset: 92620},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92630},
+																											pos:        position{line: 2931, col: 13, offset: 92620},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92637},
+																											pos:        position{line: 2931, col: 20, offset: 92627},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92646},
+																											pos:        position{line: 2931, col: 29, offset: 92636},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39610,9 +39610,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92806},
+																								pos: position{line: 2941, col: 8, offset: 92796},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92807,
+																									line: 2941, col: 9, offset: 92797,
 																								},
 																							},
 																						},
@@ -39657,10 +39657,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 784, col: 8, offset: 25402},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92458},
+																							pos: position{line: 2922, col: 10, offset: 92448},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92458},
+																								pos:        position{line: 2922, col: 10, offset: 92448},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39669,28 +39669,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92856},
+																						pos: position{line: 2944, col: 8, offset: 92846},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92629},
+																								pos: position{line: 2931, col: 12, offset: 92619},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92630},
+																									pos: position{line: 2931, col: 13, offset: 92620},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92630},
+																											pos:        position{line: 2931, col: 13, offset: 92620},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92637},
+																											pos:        position{line: 2931, col: 20, offset: 92627},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92646},
+																											pos:        position{line: 2931, col: 29, offset: 92636},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39699,9 +39699,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92806},
+																								pos: position{line: 2941, col: 8, offset: 92796},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92807,
+																									line: 2941, col: 9, offset: 92797,
 																								},
 																							},
 																						},
@@ -39746,10 +39746,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 798, col: 8, offset: 25878},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92458},
+																							pos: position{line: 2922, col: 10, offset: 92448},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92458},
+																								pos:        position{line: 2922, col: 10, offset: 92448},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39758,28 +39758,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92856},
+																						pos: position{line: 2944, col: 8, offset: 92846},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92629},
+																								pos: position{line: 2931, col: 12, offset: 92619},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92630},
+																									pos: position{line: 2931, col: 13, offset: 92620},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92630},
+																											pos:        position{line: 2931, col: 13, offset: 92620},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92637},
+																											pos:        position{line: 2931, col: 20, offset: 92627},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92646},
+																											pos:        position{line: 2931, col: 29, offset: 92636},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39788,9 +39788,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92806},
+																								pos: position{line: 2941, col: 8, offset: 92796},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92807,
+																									line: 2941, col: 9, offset: 92797,
 																								},
 																							},
 																						},
@@ -39835,10 +39835,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 805, col: 8, offset: 26130},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92458},
+																							pos: position{line: 2922, col: 10, offset: 92448},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92458},
+																								pos:        position{line: 2922, col: 10, offset: 92448},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39847,28 +39847,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92856},
+																						pos: position{line: 2944, col: 8, offset: 92846},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92629},
+																								pos: position{line: 2931, col: 12, offset: 92619},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92630},
+																									pos: position{line: 2931, col: 13, offset: 92620},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92630},
+																											pos:        position{line: 2931, col: 13, offset: 92620},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92637},
+																											pos:        position{line: 2931, col: 20, offset: 92627},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92646},
+																											pos:        position{line: 2931, col: 29, offset: 92636},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39877,9 +39877,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92806},
+																								pos: position{line: 2941, col: 8, offset: 92796},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92807,
+																									line: 2941, col: 9, offset: 92797,
 																								},
 																							},
 																						},
@@ -39924,10 +39924,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 812, col: 8, offset: 26380},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92458},
+																							pos: position{line: 2922, col: 10, offset: 92448},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92458},
+																								pos:        position{line: 2922, col: 10, offset: 92448},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39936,28 +39936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92856},
+																						pos: position{line: 2944, col: 8, offset: 92846},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92629},
+																								pos: position{line: 2931, col: 12, offset: 92619},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92630},
+																									pos: position{line: 2931, col: 13, offset: 92620},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92630},
+																											pos:        position{line: 2931, col: 13, offset: 92620},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92637},
+																											pos:        position{line: 2931, col: 20, offset: 92627},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92646},
+																											pos:        position{line: 2931, col: 29, offset: 92636},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39966,9 +39966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92806},
+																								pos: position{line: 2941, col: 8, offset: 92796},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92807,
+																									line: 2941, col: 9, offset: 92797,
 																								},
 																							},
 																						},
@@ -40013,10 +40013,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 819, col: 8, offset: 26626},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92458},
+																							pos: position{line: 2922, col: 10, offset: 92448},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92458},
+																								pos:        position{line: 2922, col: 10, offset: 92448},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40025,28 +40025,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92856},
+																						pos: position{line: 2944, col: 8, offset: 92846},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92629},
+																								pos: position{line: 2931, col: 12, offset: 92619},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92630},
+																									pos: position{line: 2931, col: 13, offset: 92620},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92630},
+																											pos:        position{line: 2931, col: 13, offset: 92620},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92637},
+																											pos:        position{line: 2931, col: 20, offset: 92627},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92646},
+																											pos:        position{line: 2931, col: 29, offset: 92636},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40055,9 +40055,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92806},
+																								pos: position{line: 2941, col: 8, offset: 92796},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92807,
+																									line: 2941, col: 9, offset: 92797,
 																								},
 																							},
 																						},
@@ -40073,23 +40073,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1781, col: 9, offset: 57880},
+												pos: position{line: 1781, col: 9, offset: 57870},
 												expr: &seqExpr{
-													pos: position{line: 1555, col: 27, offset: 50517},
+													pos: position{line: 1555, col: 27, offset: 50507},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1555, col: 27, offset: 50517},
+															pos:        position{line: 1555, col: 27, offset: 50507},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1555, col: 31, offset: 50521},
+															pos: position{line: 1555, col: 31, offset: 50511},
 															expr: &actionExpr{
-																pos: position{line: 2922, col: 10, offset: 92458},
+																pos: position{line: 2922, col: 10, offset: 92448},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2922, col: 10, offset: 92458},
+																	pos:        position{line: 2922, col: 10, offset: 92448},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40098,25 +40098,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92629},
+															pos: position{line: 2931, col: 12, offset: 92619},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92630},
+																pos: position{line: 2931, col: 13, offset: 92620},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92630},
+																		pos:        position{line: 2931, col: 13, offset: 92620},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92637},
+																		pos:        position{line: 2931, col: 20, offset: 92627},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92646},
+																		pos:        position{line: 2931, col: 29, offset: 92636},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40128,42 +40128,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1782, col: 9, offset: 57912},
+												pos:   position{line: 1782, col: 9, offset: 57902},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1782, col: 15, offset: 57918},
+													pos: position{line: 1782, col: 15, offset: 57908},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81236},
+															pos: position{line: 2525, col: 22, offset: 81226},
 															run: (*parser).callonShortcutParagraph265,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81236},
+																pos: position{line: 2525, col: 22, offset: 81226},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81486},
+																		pos:        position{line: 2530, col: 31, offset: 81476},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81491},
+																		pos: position{line: 2530, col: 36, offset: 81481},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81492},
+																			pos:        position{line: 2530, col: 37, offset: 81482},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81263},
+																		pos:   position{line: 2525, col: 49, offset: 81253},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 13, offset: 90984},
+																			pos: position{line: 2868, col: 13, offset: 90974},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2868, col: 13, offset: 90984},
+																				pos: position{line: 2868, col: 13, offset: 90974},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 13, offset: 90984},
+																					pos:        position{line: 2868, col: 13, offset: 90974},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40173,28 +40173,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92856},
+																		pos: position{line: 2944, col: 8, offset: 92846},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
+																				pos: position{line: 2931, col: 12, offset: 92619},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40203,9 +40203,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92806},
+																				pos: position{line: 2941, col: 8, offset: 92796},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92807,
+																					line: 2941, col: 9, offset: 92797,
 																				},
 																			},
 																		},
@@ -40214,21 +40214,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1804, col: 5, offset: 58518},
+															pos: position{line: 1804, col: 5, offset: 58508},
 															run: (*parser).callonShortcutParagraph282,
 															expr: &seqExpr{
-																pos: position{line: 1804, col: 5, offset: 58518},
+																pos: position{line: 1804, col: 5, offset: 58508},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1804, col: 5, offset: 58518},
+																		pos:   position{line: 1804, col: 5, offset: 58508},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 14, offset: 91051},
+																			pos: position{line: 2872, col: 14, offset: 91041},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2872, col: 14, offset: 91051},
+																				pos: position{line: 2872, col: 14, offset: 91041},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 14, offset: 91051},
+																					pos:        position{line: 2872, col: 14, offset: 91041},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40238,32 +40238,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1805, col: 5, offset: 58542},
+																		pos: position{line: 1805, col: 5, offset: 58532},
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92856},
+																		pos: position{line: 2944, col: 8, offset: 92846},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
+																				pos: position{line: 2931, col: 12, offset: 92619},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40272,9 +40272,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92806},
+																				pos: position{line: 2941, col: 8, offset: 92796},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92807,
+																					line: 2941, col: 9, offset: 92797,
 																				},
 																			},
 																		},
@@ -40296,96 +40296,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1789, col: 1, offset: 58122},
+			pos:  position{line: 1789, col: 1, offset: 58112},
 			expr: &actionExpr{
-				pos: position{line: 1790, col: 5, offset: 58140},
+				pos: position{line: 1790, col: 5, offset: 58130},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1790, col: 5, offset: 58140},
+					pos: position{line: 1790, col: 5, offset: 58130},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1790, col: 5, offset: 58140},
+							pos:   position{line: 1790, col: 5, offset: 58130},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1790, col: 11, offset: 58146},
+								pos: position{line: 1790, col: 11, offset: 58136},
 								expr: &actionExpr{
-									pos: position{line: 1745, col: 5, offset: 56652},
+									pos: position{line: 1745, col: 5, offset: 56642},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1745, col: 5, offset: 56652},
+										pos: position{line: 1745, col: 5, offset: 56642},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1745, col: 5, offset: 56652},
+												pos: position{line: 1745, col: 5, offset: 56642},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1748, col: 5, offset: 56715},
+												pos:   position{line: 1748, col: 5, offset: 56705},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1748, col: 12, offset: 56722},
+													pos: position{line: 1748, col: 12, offset: 56712},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1748, col: 12, offset: 56722},
+															pos: position{line: 1748, col: 12, offset: 56712},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1748, col: 12, offset: 56722},
+																pos:        position{line: 1748, col: 12, offset: 56712},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1750, col: 13, offset: 56778},
+															pos: position{line: 1750, col: 13, offset: 56768},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1750, col: 13, offset: 56778},
+																pos:        position{line: 1750, col: 13, offset: 56768},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1752, col: 13, offset: 56836},
+															pos: position{line: 1752, col: 13, offset: 56826},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1752, col: 13, offset: 56836},
+																pos:        position{line: 1752, col: 13, offset: 56826},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1754, col: 13, offset: 56904},
+															pos: position{line: 1754, col: 13, offset: 56894},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1754, col: 13, offset: 56904},
+																pos:        position{line: 1754, col: 13, offset: 56894},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1756, col: 13, offset: 56968},
+															pos: position{line: 1756, col: 13, offset: 56958},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1756, col: 13, offset: 56968},
+																pos:        position{line: 1756, col: 13, offset: 56958},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1758, col: 13, offset: 57032},
+															pos: position{line: 1758, col: 13, offset: 57022},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1758, col: 13, offset: 57032},
+																pos: position{line: 1758, col: 13, offset: 57022},
 																expr: &actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92519},
+																	pos: position{line: 2926, col: 11, offset: 92509},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92519},
+																		pos: position{line: 2926, col: 11, offset: 92509},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92519},
+																			pos:        position{line: 2926, col: 11, offset: 92509},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40404,24 +40404,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1791, col: 5, offset: 58169},
+							pos:   position{line: 1791, col: 5, offset: 58159},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1804, col: 5, offset: 58518},
+								pos: position{line: 1804, col: 5, offset: 58508},
 								run: (*parser).callonParagraph26,
 								expr: &seqExpr{
-									pos: position{line: 1804, col: 5, offset: 58518},
+									pos: position{line: 1804, col: 5, offset: 58508},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1804, col: 5, offset: 58518},
+											pos:   position{line: 1804, col: 5, offset: 58508},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2872, col: 14, offset: 91051},
+												pos: position{line: 2872, col: 14, offset: 91041},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2872, col: 14, offset: 91051},
+													pos: position{line: 2872, col: 14, offset: 91041},
 													expr: &charClassMatcher{
-														pos:        position{line: 2872, col: 14, offset: 91051},
+														pos:        position{line: 2872, col: 14, offset: 91041},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40431,32 +40431,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1805, col: 5, offset: 58542},
+											pos: position{line: 1805, col: 5, offset: 58532},
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2944, col: 8, offset: 92856},
+											pos: position{line: 2944, col: 8, offset: 92846},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2931, col: 12, offset: 92629},
+													pos: position{line: 2931, col: 12, offset: 92619},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2931, col: 13, offset: 92630},
+														pos: position{line: 2931, col: 13, offset: 92620},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2931, col: 13, offset: 92630},
+																pos:        position{line: 2931, col: 13, offset: 92620},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2931, col: 20, offset: 92637},
+																pos:        position{line: 2931, col: 20, offset: 92627},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2931, col: 29, offset: 92646},
+																pos:        position{line: 2931, col: 29, offset: 92636},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40465,9 +40465,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92806},
+													pos: position{line: 2941, col: 8, offset: 92796},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92807,
+														line: 2941, col: 9, offset: 92797,
 													},
 												},
 											},
@@ -40477,24 +40477,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1792, col: 5, offset: 58203},
+							pos:   position{line: 1792, col: 5, offset: 58193},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1792, col: 16, offset: 58214},
+								pos: position{line: 1792, col: 16, offset: 58204},
 								expr: &actionExpr{
-									pos: position{line: 1793, col: 9, offset: 58224},
+									pos: position{line: 1793, col: 9, offset: 58214},
 									run: (*parser).callonParagraph43,
 									expr: &seqExpr{
-										pos: position{line: 1793, col: 9, offset: 58224},
+										pos: position{line: 1793, col: 9, offset: 58214},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2939, col: 11, offset: 92792},
+												pos: position{line: 2939, col: 11, offset: 92782},
 												expr: &anyMatcher{
-													line: 2939, col: 13, offset: 92794,
+													line: 2939, col: 13, offset: 92784,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1794, col: 9, offset: 58239},
+												pos: position{line: 1794, col: 9, offset: 58229},
 												expr: &actionExpr{
 													pos: position{line: 690, col: 14, offset: 22173},
 													run: (*parser).callonParagraph48,
@@ -40502,18 +40502,18 @@ var g = &grammar{
 														pos: position{line: 690, col: 14, offset: 22173},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2939, col: 11, offset: 92792},
+																pos: position{line: 2939, col: 11, offset: 92782},
 																expr: &anyMatcher{
-																	line: 2939, col: 13, offset: 92794,
+																	line: 2939, col: 13, offset: 92784,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 690, col: 21, offset: 22180},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92458},
+																	pos: position{line: 2922, col: 10, offset: 92448},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92458},
+																		pos:        position{line: 2922, col: 10, offset: 92448},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40522,28 +40522,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92856},
+																pos: position{line: 2944, col: 8, offset: 92846},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92629},
+																		pos: position{line: 2931, col: 12, offset: 92619},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92630},
+																			pos: position{line: 2931, col: 13, offset: 92620},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92630},
+																					pos:        position{line: 2931, col: 13, offset: 92620},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92637},
+																					pos:        position{line: 2931, col: 20, offset: 92627},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92646},
+																					pos:        position{line: 2931, col: 29, offset: 92636},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40552,9 +40552,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92806},
+																		pos: position{line: 2941, col: 8, offset: 92796},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92807,
+																			line: 2941, col: 9, offset: 92797,
 																		},
 																	},
 																},
@@ -40564,49 +40564,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1795, col: 9, offset: 58258},
+												pos: position{line: 1795, col: 9, offset: 58248},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1795, col: 10, offset: 58259},
+													pos:  position{line: 1795, col: 10, offset: 58249},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1796, col: 9, offset: 58283},
+												pos:   position{line: 1796, col: 9, offset: 58273},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1796, col: 15, offset: 58289},
+													pos: position{line: 1796, col: 15, offset: 58279},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81236},
+															pos: position{line: 2525, col: 22, offset: 81226},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81236},
+																pos: position{line: 2525, col: 22, offset: 81226},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81486},
+																		pos:        position{line: 2530, col: 31, offset: 81476},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81491},
+																		pos: position{line: 2530, col: 36, offset: 81481},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81492},
+																			pos:        position{line: 2530, col: 37, offset: 81482},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81263},
+																		pos:   position{line: 2525, col: 49, offset: 81253},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 13, offset: 90984},
+																			pos: position{line: 2868, col: 13, offset: 90974},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2868, col: 13, offset: 90984},
+																				pos: position{line: 2868, col: 13, offset: 90974},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 13, offset: 90984},
+																					pos:        position{line: 2868, col: 13, offset: 90974},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40616,28 +40616,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92856},
+																		pos: position{line: 2944, col: 8, offset: 92846},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
+																				pos: position{line: 2931, col: 12, offset: 92619},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40646,9 +40646,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92806},
+																				pos: position{line: 2941, col: 8, offset: 92796},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92807,
+																					line: 2941, col: 9, offset: 92797,
 																				},
 																			},
 																		},
@@ -40657,21 +40657,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1804, col: 5, offset: 58518},
+															pos: position{line: 1804, col: 5, offset: 58508},
 															run: (*parser).callonParagraph84,
 															expr: &seqExpr{
-																pos: position{line: 1804, col: 5, offset: 58518},
+																pos: position{line: 1804, col: 5, offset: 58508},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1804, col: 5, offset: 58518},
+																		pos:   position{line: 1804, col: 5, offset: 58508},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 14, offset: 91051},
+																			pos: position{line: 2872, col: 14, offset: 91041},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2872, col: 14, offset: 91051},
+																				pos: position{line: 2872, col: 14, offset: 91041},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 14, offset: 91051},
+																					pos:        position{line: 2872, col: 14, offset: 91041},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40681,32 +40681,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1805, col: 5, offset: 58542},
+																		pos: position{line: 1805, col: 5, offset: 58532},
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92856},
+																		pos: position{line: 2944, col: 8, offset: 92846},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
+																				pos: position{line: 2931, col: 12, offset: 92619},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40715,9 +40715,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92806},
+																				pos: position{line: 2941, col: 8, offset: 92796},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92807,
+																					line: 2941, col: 9, offset: 92797,
 																				},
 																			},
 																		},
@@ -40739,16 +40739,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1815, col: 1, offset: 59028},
+			pos:  position{line: 1815, col: 1, offset: 59018},
 			expr: &choiceExpr{
-				pos: position{line: 1815, col: 15, offset: 59042},
+				pos: position{line: 1815, col: 15, offset: 59032},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1815, col: 15, offset: 59042},
+						pos:  position{line: 1815, col: 15, offset: 59032},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1815, col: 35, offset: 59062},
+						pos:  position{line: 1815, col: 35, offset: 59052},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -40756,65 +40756,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1817, col: 1, offset: 59083},
+			pos:  position{line: 1817, col: 1, offset: 59073},
 			expr: &actionExpr{
-				pos: position{line: 1818, col: 5, offset: 59108},
+				pos: position{line: 1818, col: 5, offset: 59098},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1818, col: 5, offset: 59108},
+					pos: position{line: 1818, col: 5, offset: 59098},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1818, col: 5, offset: 59108},
+							pos:   position{line: 1818, col: 5, offset: 59098},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1818, col: 16, offset: 59119},
+								pos: position{line: 1818, col: 16, offset: 59109},
 								expr: &actionExpr{
-									pos: position{line: 1818, col: 17, offset: 59120},
+									pos: position{line: 1818, col: 17, offset: 59110},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1818, col: 17, offset: 59120},
+										pos:  position{line: 1818, col: 17, offset: 59110},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1821, col: 5, offset: 59188},
+							pos: position{line: 1821, col: 5, offset: 59178},
 							expr: &litMatcher{
-								pos:        position{line: 1821, col: 7, offset: 59190},
+								pos:        position{line: 1821, col: 7, offset: 59180},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1822, col: 5, offset: 59199},
+							pos:   position{line: 1822, col: 5, offset: 59189},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1823, col: 9, offset: 59217},
+								pos: position{line: 1823, col: 9, offset: 59207},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1823, col: 9, offset: 59217},
+										pos:  position{line: 1823, col: 9, offset: 59207},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1824, col: 11, offset: 59244},
+										pos:  position{line: 1824, col: 11, offset: 59234},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1825, col: 11, offset: 59272},
+										pos:  position{line: 1825, col: 11, offset: 59262},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1826, col: 11, offset: 59303},
+										pos:  position{line: 1826, col: 11, offset: 59293},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1827, col: 11, offset: 59331},
+										pos:  position{line: 1827, col: 11, offset: 59321},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1828, col: 11, offset: 59362},
+										pos:  position{line: 1828, col: 11, offset: 59352},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -40826,36 +40826,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1833, col: 1, offset: 59482},
+			pos:  position{line: 1833, col: 1, offset: 59472},
 			expr: &actionExpr{
-				pos: position{line: 1834, col: 5, offset: 59524},
+				pos: position{line: 1834, col: 5, offset: 59514},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1834, col: 5, offset: 59524},
+					pos: position{line: 1834, col: 5, offset: 59514},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1834, col: 5, offset: 59524},
+							pos:   position{line: 1834, col: 5, offset: 59514},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1834, col: 16, offset: 59535},
+								pos: position{line: 1834, col: 16, offset: 59525},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1834, col: 17, offset: 59536},
+									pos:  position{line: 1834, col: 17, offset: 59526},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1835, col: 5, offset: 59561},
+							pos:   position{line: 1835, col: 5, offset: 59551},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1835, col: 14, offset: 59570},
+								pos: position{line: 1835, col: 14, offset: 59560},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1835, col: 14, offset: 59570},
+										pos:  position{line: 1835, col: 14, offset: 59560},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1835, col: 33, offset: 59589},
+										pos:  position{line: 1835, col: 33, offset: 59579},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -40867,32 +40867,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1843, col: 1, offset: 59820},
+			pos:  position{line: 1843, col: 1, offset: 59810},
 			expr: &choiceExpr{
-				pos: position{line: 1844, col: 5, offset: 59845},
+				pos: position{line: 1844, col: 5, offset: 59835},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1844, col: 5, offset: 59845},
+						pos:  position{line: 1844, col: 5, offset: 59835},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1845, col: 7, offset: 59872},
+						pos:  position{line: 1845, col: 7, offset: 59862},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1846, col: 7, offset: 59900},
+						pos:  position{line: 1846, col: 7, offset: 59890},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1847, col: 7, offset: 59932},
+						pos:  position{line: 1847, col: 7, offset: 59922},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1848, col: 7, offset: 59960},
+						pos:  position{line: 1848, col: 7, offset: 59950},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1849, col: 7, offset: 59981},
+						pos:  position{line: 1849, col: 7, offset: 59971},
 						name: "SuperscriptText",
 					},
 				},
@@ -40900,24 +40900,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1851, col: 1, offset: 59999},
+			pos:  position{line: 1851, col: 1, offset: 59989},
 			expr: &choiceExpr{
-				pos: position{line: 1852, col: 5, offset: 60024},
+				pos: position{line: 1852, col: 5, offset: 60014},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1852, col: 5, offset: 60024},
+						pos:  position{line: 1852, col: 5, offset: 60014},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1853, col: 7, offset: 60050},
+						pos:  position{line: 1853, col: 7, offset: 60040},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1854, col: 7, offset: 60078},
+						pos:  position{line: 1854, col: 7, offset: 60068},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1855, col: 7, offset: 60109},
+						pos:  position{line: 1855, col: 7, offset: 60099},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -40925,26 +40925,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1869, col: 1, offset: 60463},
+			pos:  position{line: 1869, col: 1, offset: 60453},
 			expr: &choiceExpr{
-				pos: position{line: 1870, col: 5, offset: 60489},
+				pos: position{line: 1870, col: 5, offset: 60479},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2821, col: 5, offset: 89700},
+						pos: position{line: 2821, col: 5, offset: 89690},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2821, col: 5, offset: 89700},
+							pos: position{line: 2821, col: 5, offset: 89690},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2821, col: 5, offset: 89700},
+									pos:   position{line: 2821, col: 5, offset: 89690},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2821, col: 11, offset: 89706},
+										pos: position{line: 2821, col: 11, offset: 89696},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2821, col: 11, offset: 89706},
+											pos: position{line: 2821, col: 11, offset: 89696},
 											expr: &charClassMatcher{
-												pos:        position{line: 2821, col: 11, offset: 89706},
+												pos:        position{line: 2821, col: 11, offset: 89696},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40954,36 +40954,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2824, col: 5, offset: 89764},
+									pos: position{line: 2824, col: 5, offset: 89754},
 									expr: &seqExpr{
-										pos: position{line: 2825, col: 9, offset: 89775},
+										pos: position{line: 2825, col: 9, offset: 89765},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2825, col: 9, offset: 89775},
+												pos:        position{line: 2825, col: 9, offset: 89765},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2826, col: 9, offset: 89824},
+												pos: position{line: 2826, col: 9, offset: 89814},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2830, col: 5, offset: 89904},
+									pos: position{line: 2830, col: 5, offset: 89894},
 									expr: &seqExpr{
-										pos: position{line: 2831, col: 9, offset: 89915},
+										pos: position{line: 2831, col: 9, offset: 89905},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2831, col: 9, offset: 89915},
+												pos:        position{line: 2831, col: 9, offset: 89905},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2831, col: 13, offset: 89919},
+												pos:        position{line: 2831, col: 13, offset: 89909},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40996,12 +40996,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2926, col: 11, offset: 92519},
+						pos: position{line: 2926, col: 11, offset: 92509},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2926, col: 11, offset: 92519},
+							pos: position{line: 2926, col: 11, offset: 92509},
 							expr: &charClassMatcher{
-								pos:        position{line: 2926, col: 11, offset: 92519},
+								pos:        position{line: 2926, col: 11, offset: 92509},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -41010,25 +41010,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1872, col: 7, offset: 60552},
+						pos:  position{line: 1872, col: 7, offset: 60542},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2543, col: 5, offset: 81981},
+						pos: position{line: 2543, col: 5, offset: 81971},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2543, col: 5, offset: 81981},
+							pos: position{line: 2543, col: 5, offset: 81971},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2543, col: 5, offset: 81981},
+									pos:        position{line: 2543, col: 5, offset: 81971},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2543, col: 10, offset: 81986},
+									pos: position{line: 2543, col: 10, offset: 81976},
 									expr: &charClassMatcher{
-										pos:        position{line: 2543, col: 11, offset: 81987},
+										pos:        position{line: 2543, col: 11, offset: 81977},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41039,29 +41039,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2549, col: 5, offset: 82179},
+						pos: position{line: 2549, col: 5, offset: 82169},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2549, col: 5, offset: 82179},
+							pos: position{line: 2549, col: 5, offset: 82169},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2549, col: 5, offset: 82179},
+									pos: position{line: 2549, col: 5, offset: 82169},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2552, col: 5, offset: 82250},
+									pos: position{line: 2552, col: 5, offset: 82240},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2556, col: 5, offset: 82375},
+									pos:        position{line: 2556, col: 5, offset: 82365},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2556, col: 9, offset: 82379},
+									pos: position{line: 2556, col: 9, offset: 82369},
 									expr: &charClassMatcher{
-										pos:        position{line: 2556, col: 10, offset: 82380},
+										pos:        position{line: 2556, col: 10, offset: 82370},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41072,27 +41072,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2839, col: 5, offset: 90112},
+						pos: position{line: 2839, col: 5, offset: 90102},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2840, col: 9, offset: 90122},
+							pos: position{line: 2840, col: 9, offset: 90112},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2840, col: 10, offset: 90123},
+									pos:        position{line: 2840, col: 10, offset: 90113},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2842, col: 13, offset: 90220},
+									pos: position{line: 2842, col: 13, offset: 90210},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2842, col: 13, offset: 90220},
+											pos: position{line: 2842, col: 13, offset: 90210},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2845, col: 13, offset: 90320},
+											pos:        position{line: 2845, col: 13, offset: 90310},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -41100,20 +41100,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2845, col: 19, offset: 90326},
+									pos:        position{line: 2845, col: 19, offset: 90316},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2848, col: 13, offset: 90364},
+									pos: position{line: 2848, col: 13, offset: 90354},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2848, col: 13, offset: 90364},
+											pos: position{line: 2848, col: 13, offset: 90354},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2851, col: 14, offset: 90457},
+											pos:        position{line: 2851, col: 14, offset: 90447},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -41122,18 +41122,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2853, col: 12, offset: 90501},
+									pos: position{line: 2853, col: 12, offset: 90491},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2853, col: 12, offset: 90501},
+											pos:        position{line: 2853, col: 12, offset: 90491},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2853, col: 16, offset: 90505},
+											pos: position{line: 2853, col: 16, offset: 90495},
 											expr: &litMatcher{
-												pos:        position{line: 2853, col: 17, offset: 90506},
+												pos:        position{line: 2853, col: 17, offset: 90496},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -41491,31 +41491,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2935, col: 18, offset: 92729},
+						pos: position{line: 2935, col: 18, offset: 92719},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2935, col: 18, offset: 92729},
+							pos: position{line: 2935, col: 18, offset: 92719},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92629},
+									pos: position{line: 2931, col: 12, offset: 92619},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92630},
+										pos: position{line: 2931, col: 13, offset: 92620},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92630},
+												pos:        position{line: 2931, col: 13, offset: 92620},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92637},
+												pos:        position{line: 2931, col: 20, offset: 92627},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92646},
+												pos:        position{line: 2931, col: 29, offset: 92636},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41524,27 +41524,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2935, col: 26, offset: 92737},
+									pos: position{line: 2935, col: 26, offset: 92727},
 									expr: &actionExpr{
-										pos: position{line: 2931, col: 12, offset: 92629},
+										pos: position{line: 2931, col: 12, offset: 92619},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2931, col: 13, offset: 92630},
+											pos: position{line: 2931, col: 13, offset: 92620},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2931, col: 13, offset: 92630},
+													pos:        position{line: 2931, col: 13, offset: 92620},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 20, offset: 92637},
+													pos:        position{line: 2931, col: 20, offset: 92627},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 29, offset: 92646},
+													pos:        position{line: 2931, col: 29, offset: 92636},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41557,31 +41557,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1877, col: 7, offset: 60719},
+						pos:  position{line: 1877, col: 7, offset: 60709},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1878, col: 7, offset: 60766},
+						pos:  position{line: 1878, col: 7, offset: 60756},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2512, col: 5, offset: 80782},
+						pos: position{line: 2512, col: 5, offset: 80772},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2512, col: 5, offset: 80782},
+							pos: position{line: 2512, col: 5, offset: 80772},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2512, col: 5, offset: 80782},
+									pos: position{line: 2512, col: 5, offset: 80772},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2515, col: 5, offset: 80858},
+									pos:   position{line: 2515, col: 5, offset: 80848},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2516, col: 9, offset: 80876},
+										pos: position{line: 2516, col: 9, offset: 80866},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2516, col: 10, offset: 80877},
+											pos:        position{line: 2516, col: 10, offset: 80867},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -41636,10 +41636,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2861, col: 12, offset: 90766},
+						pos: position{line: 2861, col: 12, offset: 90756},
 						run: (*parser).callonQuotedTextElement145,
 						expr: &charClassMatcher{
-							pos:        position{line: 2861, col: 12, offset: 90766},
+							pos:        position{line: 2861, col: 12, offset: 90756},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41651,29 +41651,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1896, col: 1, offset: 61236},
+			pos:  position{line: 1896, col: 1, offset: 61226},
 			expr: &actionExpr{
-				pos: position{line: 1897, col: 5, offset: 61264},
+				pos: position{line: 1897, col: 5, offset: 61254},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1897, col: 5, offset: 61264},
+					pos: position{line: 1897, col: 5, offset: 61254},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1892, col: 38, offset: 61189},
+							pos:        position{line: 1892, col: 38, offset: 61179},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1898, col: 5, offset: 61303},
+							pos:   position{line: 1898, col: 5, offset: 61293},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1898, col: 15, offset: 61313},
+								pos:  position{line: 1898, col: 15, offset: 61303},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1894, col: 36, offset: 61230},
+							pos:        position{line: 1894, col: 36, offset: 61220},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -41684,24 +41684,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1903, col: 1, offset: 61473},
+			pos:  position{line: 1903, col: 1, offset: 61463},
 			expr: &actionExpr{
-				pos: position{line: 1904, col: 5, offset: 61508},
+				pos: position{line: 1904, col: 5, offset: 61498},
 				run: (*parser).callonDoubleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1904, col: 5, offset: 61508},
+					pos: position{line: 1904, col: 5, offset: 61498},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1904, col: 5, offset: 61508},
+							pos: position{line: 1904, col: 5, offset: 61498},
 							run: (*parser).callonDoubleQuoteBoldTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1908, col: 5, offset: 61628},
+							pos:   position{line: 1908, col: 5, offset: 61618},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1908, col: 14, offset: 61637},
+								pos: position{line: 1908, col: 14, offset: 61627},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1908, col: 15, offset: 61638},
+									pos:  position{line: 1908, col: 15, offset: 61628},
 									name: "DoubleQuoteBoldTextElement",
 								},
 							},
@@ -41712,33 +41712,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1912, col: 1, offset: 61705},
+			pos:  position{line: 1912, col: 1, offset: 61695},
 			expr: &actionExpr{
-				pos: position{line: 1913, col: 5, offset: 61740},
+				pos: position{line: 1913, col: 5, offset: 61730},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1913, col: 5, offset: 61740},
+					pos: position{line: 1913, col: 5, offset: 61730},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92792},
+							pos: position{line: 2939, col: 11, offset: 92782},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92794,
+								line: 2939, col: 13, offset: 92784,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1914, col: 5, offset: 61751},
+							pos: position{line: 1914, col: 5, offset: 61741},
 							expr: &litMatcher{
-								pos:        position{line: 1894, col: 36, offset: 61230},
+								pos:        position{line: 1894, col: 36, offset: 61220},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1915, col: 5, offset: 61788},
+							pos:   position{line: 1915, col: 5, offset: 61778},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1915, col: 14, offset: 61797},
+								pos:  position{line: 1915, col: 14, offset: 61787},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41748,29 +41748,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1940, col: 1, offset: 62477},
+			pos:  position{line: 1940, col: 1, offset: 62467},
 			expr: &actionExpr{
-				pos: position{line: 1941, col: 5, offset: 62505},
+				pos: position{line: 1941, col: 5, offset: 62495},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1941, col: 5, offset: 62505},
+					pos: position{line: 1941, col: 5, offset: 62495},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1924, col: 5, offset: 62031},
+							pos:        position{line: 1924, col: 5, offset: 62021},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1925, col: 5, offset: 62040},
+							pos: position{line: 1925, col: 5, offset: 62030},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1929, col: 5, offset: 62158},
+							pos: position{line: 1929, col: 5, offset: 62148},
 							expr: &notExpr{
-								pos: position{line: 1929, col: 7, offset: 62160},
+								pos: position{line: 1929, col: 7, offset: 62150},
 								expr: &litMatcher{
-									pos:        position{line: 1929, col: 8, offset: 62161},
+									pos:        position{line: 1929, col: 8, offset: 62151},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41778,38 +41778,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1942, col: 5, offset: 62543},
+							pos:   position{line: 1942, col: 5, offset: 62533},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1942, col: 15, offset: 62553},
+								pos:  position{line: 1942, col: 15, offset: 62543},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1932, col: 5, offset: 62281},
+							pos:        position{line: 1932, col: 5, offset: 62271},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1933, col: 5, offset: 62290},
+							pos: position{line: 1933, col: 5, offset: 62280},
 							expr: &litMatcher{
-								pos:        position{line: 1933, col: 6, offset: 62291},
+								pos:        position{line: 1933, col: 6, offset: 62281},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1934, col: 5, offset: 62354},
+							pos: position{line: 1934, col: 5, offset: 62344},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1938, col: 5, offset: 62463},
+							pos: position{line: 1938, col: 5, offset: 62453},
 							expr: &notExpr{
-								pos: position{line: 1938, col: 7, offset: 62465},
+								pos: position{line: 1938, col: 7, offset: 62455},
 								expr: &charClassMatcher{
-									pos:        position{line: 2812, col: 13, offset: 89553},
+									pos:        position{line: 2812, col: 13, offset: 89543},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41823,20 +41823,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1947, col: 1, offset: 62713},
+			pos:  position{line: 1947, col: 1, offset: 62703},
 			expr: &actionExpr{
-				pos: position{line: 1948, col: 5, offset: 62750},
+				pos: position{line: 1948, col: 5, offset: 62740},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1948, col: 5, offset: 62750},
+					pos: position{line: 1948, col: 5, offset: 62740},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1948, col: 5, offset: 62750},
+							pos: position{line: 1948, col: 5, offset: 62740},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92458},
+								pos: position{line: 2922, col: 10, offset: 92448},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92458},
+									pos:        position{line: 2922, col: 10, offset: 92448},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41845,18 +41845,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1949, col: 5, offset: 62789},
+							pos:   position{line: 1949, col: 5, offset: 62779},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1949, col: 14, offset: 62798},
+								pos: position{line: 1949, col: 14, offset: 62788},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1949, col: 15, offset: 62799},
+									pos:  position{line: 1949, col: 15, offset: 62789},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1950, col: 5, offset: 62833},
+							pos: position{line: 1950, col: 5, offset: 62823},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -41865,49 +41865,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1956, col: 1, offset: 62974},
+			pos:  position{line: 1956, col: 1, offset: 62964},
 			expr: &actionExpr{
-				pos: position{line: 1957, col: 5, offset: 63009},
+				pos: position{line: 1957, col: 5, offset: 62999},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1957, col: 5, offset: 63009},
+					pos: position{line: 1957, col: 5, offset: 62999},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92792},
+							pos: position{line: 2939, col: 11, offset: 92782},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92794,
+								line: 2939, col: 13, offset: 92784,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1958, col: 5, offset: 63037},
+							pos: position{line: 1958, col: 5, offset: 63027},
 							expr: &seqExpr{
-								pos: position{line: 1932, col: 5, offset: 62281},
+								pos: position{line: 1932, col: 5, offset: 62271},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1932, col: 5, offset: 62281},
+										pos:        position{line: 1932, col: 5, offset: 62271},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1933, col: 5, offset: 62290},
+										pos: position{line: 1933, col: 5, offset: 62280},
 										expr: &litMatcher{
-											pos:        position{line: 1933, col: 6, offset: 62291},
+											pos:        position{line: 1933, col: 6, offset: 62281},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1934, col: 5, offset: 62354},
+										pos: position{line: 1934, col: 5, offset: 62344},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1938, col: 5, offset: 62463},
+										pos: position{line: 1938, col: 5, offset: 62453},
 										expr: &notExpr{
-											pos: position{line: 1938, col: 7, offset: 62465},
+											pos: position{line: 1938, col: 7, offset: 62455},
 											expr: &charClassMatcher{
-												pos:        position{line: 2812, col: 13, offset: 89553},
+												pos:        position{line: 2812, col: 13, offset: 89543},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41919,10 +41919,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1959, col: 5, offset: 63074},
+							pos:   position{line: 1959, col: 5, offset: 63064},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1959, col: 14, offset: 63083},
+								pos:  position{line: 1959, col: 14, offset: 63073},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41932,35 +41932,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1964, col: 1, offset: 63171},
+			pos:  position{line: 1964, col: 1, offset: 63161},
 			expr: &choiceExpr{
-				pos: position{line: 1966, col: 5, offset: 63232},
+				pos: position{line: 1966, col: 5, offset: 63222},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1966, col: 5, offset: 63232},
+						pos: position{line: 1966, col: 5, offset: 63222},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1966, col: 5, offset: 63232},
+							pos: position{line: 1966, col: 5, offset: 63222},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1966, col: 5, offset: 63232},
+									pos:   position{line: 1966, col: 5, offset: 63222},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1865, col: 25, offset: 60409},
+										pos: position{line: 1865, col: 25, offset: 60399},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1865, col: 25, offset: 60409},
+											pos: position{line: 1865, col: 25, offset: 60399},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1865, col: 25, offset: 60409},
+													pos:        position{line: 1865, col: 25, offset: 60399},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1865, col: 30, offset: 60414},
+													pos: position{line: 1865, col: 30, offset: 60404},
 													expr: &litMatcher{
-														pos:        position{line: 1865, col: 30, offset: 60414},
+														pos:        position{line: 1865, col: 30, offset: 60404},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41971,21 +41971,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1966, col: 40, offset: 63267},
+									pos:        position{line: 1966, col: 40, offset: 63257},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1966, col: 45, offset: 63272},
+									pos:   position{line: 1966, col: 45, offset: 63262},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1966, col: 55, offset: 63282},
+										pos:  position{line: 1966, col: 55, offset: 63272},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1966, col: 84, offset: 63311},
+									pos:        position{line: 1966, col: 84, offset: 63301},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41994,21 +41994,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1970, col: 7, offset: 63475},
+						pos: position{line: 1970, col: 7, offset: 63465},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1970, col: 7, offset: 63475},
+							pos: position{line: 1970, col: 7, offset: 63465},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1970, col: 7, offset: 63475},
+									pos:   position{line: 1970, col: 7, offset: 63465},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60336},
+										pos: position{line: 1861, col: 25, offset: 60326},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60336},
+											pos: position{line: 1861, col: 25, offset: 60326},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60336},
+												pos:        position{line: 1861, col: 25, offset: 60326},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42017,21 +42017,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1970, col: 42, offset: 63510},
+									pos:        position{line: 1970, col: 42, offset: 63500},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1970, col: 47, offset: 63515},
+									pos:   position{line: 1970, col: 47, offset: 63505},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1970, col: 57, offset: 63525},
+										pos:  position{line: 1970, col: 57, offset: 63515},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1970, col: 86, offset: 63554},
+									pos:        position{line: 1970, col: 86, offset: 63544},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42040,21 +42040,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1975, col: 7, offset: 63756},
+						pos: position{line: 1975, col: 7, offset: 63746},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1975, col: 7, offset: 63756},
+							pos: position{line: 1975, col: 7, offset: 63746},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1975, col: 7, offset: 63756},
+									pos:   position{line: 1975, col: 7, offset: 63746},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60336},
+										pos: position{line: 1861, col: 25, offset: 60326},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60336},
+											pos: position{line: 1861, col: 25, offset: 60326},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60336},
+												pos:        position{line: 1861, col: 25, offset: 60326},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42063,21 +42063,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1975, col: 42, offset: 63791},
+									pos:        position{line: 1975, col: 42, offset: 63781},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1975, col: 46, offset: 63795},
+									pos:   position{line: 1975, col: 46, offset: 63785},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1975, col: 56, offset: 63805},
+										pos:  position{line: 1975, col: 56, offset: 63795},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1975, col: 85, offset: 63834},
+									pos:        position{line: 1975, col: 85, offset: 63824},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42090,29 +42090,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1992, col: 1, offset: 64314},
+			pos:  position{line: 1992, col: 1, offset: 64304},
 			expr: &actionExpr{
-				pos: position{line: 1993, col: 5, offset: 64344},
+				pos: position{line: 1993, col: 5, offset: 64334},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1993, col: 5, offset: 64344},
+					pos: position{line: 1993, col: 5, offset: 64334},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1988, col: 40, offset: 64265},
+							pos:        position{line: 1988, col: 40, offset: 64255},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1994, col: 5, offset: 64385},
+							pos:   position{line: 1994, col: 5, offset: 64375},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1994, col: 15, offset: 64395},
+								pos:  position{line: 1994, col: 15, offset: 64385},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1990, col: 38, offset: 64308},
+							pos:        position{line: 1990, col: 38, offset: 64298},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -42123,24 +42123,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1999, col: 1, offset: 64560},
+			pos:  position{line: 1999, col: 1, offset: 64550},
 			expr: &actionExpr{
-				pos: position{line: 2000, col: 5, offset: 64597},
+				pos: position{line: 2000, col: 5, offset: 64587},
 				run: (*parser).callonDoubleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2000, col: 5, offset: 64597},
+					pos: position{line: 2000, col: 5, offset: 64587},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2000, col: 5, offset: 64597},
+							pos: position{line: 2000, col: 5, offset: 64587},
 							run: (*parser).callonDoubleQuoteItalicTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2004, col: 5, offset: 64717},
+							pos:   position{line: 2004, col: 5, offset: 64707},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2004, col: 14, offset: 64726},
+								pos: position{line: 2004, col: 14, offset: 64716},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2004, col: 15, offset: 64727},
+									pos:  position{line: 2004, col: 15, offset: 64717},
 									name: "DoubleQuoteItalicTextElement",
 								},
 							},
@@ -42151,33 +42151,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 2008, col: 1, offset: 64796},
+			pos:  position{line: 2008, col: 1, offset: 64786},
 			expr: &actionExpr{
-				pos: position{line: 2009, col: 5, offset: 64833},
+				pos: position{line: 2009, col: 5, offset: 64823},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2009, col: 5, offset: 64833},
+					pos: position{line: 2009, col: 5, offset: 64823},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92792},
+							pos: position{line: 2939, col: 11, offset: 92782},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92794,
+								line: 2939, col: 13, offset: 92784,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2010, col: 5, offset: 64844},
+							pos: position{line: 2010, col: 5, offset: 64834},
 							expr: &litMatcher{
-								pos:        position{line: 1990, col: 38, offset: 64308},
+								pos:        position{line: 1990, col: 38, offset: 64298},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2011, col: 5, offset: 64883},
+							pos:   position{line: 2011, col: 5, offset: 64873},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2011, col: 14, offset: 64892},
+								pos:  position{line: 2011, col: 14, offset: 64882},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42187,29 +42187,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2037, col: 1, offset: 65576},
+			pos:  position{line: 2037, col: 1, offset: 65566},
 			expr: &actionExpr{
-				pos: position{line: 2038, col: 5, offset: 65606},
+				pos: position{line: 2038, col: 5, offset: 65596},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2038, col: 5, offset: 65606},
+					pos: position{line: 2038, col: 5, offset: 65596},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2020, col: 5, offset: 65134},
+							pos:        position{line: 2020, col: 5, offset: 65124},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2021, col: 5, offset: 65143},
+							pos: position{line: 2021, col: 5, offset: 65133},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2025, col: 5, offset: 65263},
+							pos: position{line: 2025, col: 5, offset: 65253},
 							expr: &notExpr{
-								pos: position{line: 2025, col: 7, offset: 65265},
+								pos: position{line: 2025, col: 7, offset: 65255},
 								expr: &litMatcher{
-									pos:        position{line: 2025, col: 8, offset: 65266},
+									pos:        position{line: 2025, col: 8, offset: 65256},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42217,38 +42217,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2039, col: 5, offset: 65646},
+							pos:   position{line: 2039, col: 5, offset: 65636},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2039, col: 15, offset: 65656},
+								pos:  position{line: 2039, col: 15, offset: 65646},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2029, col: 5, offset: 65376},
+							pos:        position{line: 2029, col: 5, offset: 65366},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2030, col: 5, offset: 65385},
+							pos: position{line: 2030, col: 5, offset: 65375},
 							expr: &litMatcher{
-								pos:        position{line: 2030, col: 6, offset: 65386},
+								pos:        position{line: 2030, col: 6, offset: 65376},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2031, col: 5, offset: 65451},
+							pos: position{line: 2031, col: 5, offset: 65441},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2035, col: 5, offset: 65562},
+							pos: position{line: 2035, col: 5, offset: 65552},
 							expr: &notExpr{
-								pos: position{line: 2035, col: 7, offset: 65564},
+								pos: position{line: 2035, col: 7, offset: 65554},
 								expr: &charClassMatcher{
-									pos:        position{line: 2812, col: 13, offset: 89553},
+									pos:        position{line: 2812, col: 13, offset: 89543},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42262,20 +42262,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2044, col: 1, offset: 65823},
+			pos:  position{line: 2044, col: 1, offset: 65813},
 			expr: &actionExpr{
-				pos: position{line: 2045, col: 5, offset: 65861},
+				pos: position{line: 2045, col: 5, offset: 65851},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2045, col: 5, offset: 65861},
+					pos: position{line: 2045, col: 5, offset: 65851},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2045, col: 5, offset: 65861},
+							pos: position{line: 2045, col: 5, offset: 65851},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92458},
+								pos: position{line: 2922, col: 10, offset: 92448},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92458},
+									pos:        position{line: 2922, col: 10, offset: 92448},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42284,18 +42284,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2046, col: 5, offset: 65900},
+							pos:   position{line: 2046, col: 5, offset: 65890},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2046, col: 14, offset: 65909},
+								pos: position{line: 2046, col: 14, offset: 65899},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2046, col: 15, offset: 65910},
+									pos:  position{line: 2046, col: 15, offset: 65900},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2047, col: 5, offset: 65945},
+							pos: position{line: 2047, col: 5, offset: 65935},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -42304,49 +42304,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2053, col: 1, offset: 66086},
+			pos:  position{line: 2053, col: 1, offset: 66076},
 			expr: &actionExpr{
-				pos: position{line: 2054, col: 5, offset: 66123},
+				pos: position{line: 2054, col: 5, offset: 66113},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2054, col: 5, offset: 66123},
+					pos: position{line: 2054, col: 5, offset: 66113},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92792},
+							pos: position{line: 2939, col: 11, offset: 92782},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92794,
+								line: 2939, col: 13, offset: 92784,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2055, col: 5, offset: 66134},
+							pos: position{line: 2055, col: 5, offset: 66124},
 							expr: &seqExpr{
-								pos: position{line: 2029, col: 5, offset: 65376},
+								pos: position{line: 2029, col: 5, offset: 65366},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2029, col: 5, offset: 65376},
+										pos:        position{line: 2029, col: 5, offset: 65366},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2030, col: 5, offset: 65385},
+										pos: position{line: 2030, col: 5, offset: 65375},
 										expr: &litMatcher{
-											pos:        position{line: 2030, col: 6, offset: 65386},
+											pos:        position{line: 2030, col: 6, offset: 65376},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2031, col: 5, offset: 65451},
+										pos: position{line: 2031, col: 5, offset: 65441},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2035, col: 5, offset: 65562},
+										pos: position{line: 2035, col: 5, offset: 65552},
 										expr: &notExpr{
-											pos: position{line: 2035, col: 7, offset: 65564},
+											pos: position{line: 2035, col: 7, offset: 65554},
 											expr: &charClassMatcher{
-												pos:        position{line: 2812, col: 13, offset: 89553},
+												pos:        position{line: 2812, col: 13, offset: 89543},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42358,10 +42358,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2056, col: 5, offset: 66173},
+							pos:   position{line: 2056, col: 5, offset: 66163},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2056, col: 14, offset: 66182},
+								pos:  position{line: 2056, col: 14, offset: 66172},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42371,35 +42371,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2061, col: 1, offset: 66270},
+			pos:  position{line: 2061, col: 1, offset: 66260},
 			expr: &choiceExpr{
-				pos: position{line: 2063, col: 5, offset: 66335},
+				pos: position{line: 2063, col: 5, offset: 66325},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2063, col: 5, offset: 66335},
+						pos: position{line: 2063, col: 5, offset: 66325},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2063, col: 5, offset: 66335},
+							pos: position{line: 2063, col: 5, offset: 66325},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2063, col: 5, offset: 66335},
+									pos:   position{line: 2063, col: 5, offset: 66325},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1865, col: 25, offset: 60409},
+										pos: position{line: 1865, col: 25, offset: 60399},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1865, col: 25, offset: 60409},
+											pos: position{line: 1865, col: 25, offset: 60399},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1865, col: 25, offset: 60409},
+													pos:        position{line: 1865, col: 25, offset: 60399},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1865, col: 30, offset: 60414},
+													pos: position{line: 1865, col: 30, offset: 60404},
 													expr: &litMatcher{
-														pos:        position{line: 1865, col: 30, offset: 60414},
+														pos:        position{line: 1865, col: 30, offset: 60404},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42410,21 +42410,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2063, col: 40, offset: 66370},
+									pos:        position{line: 2063, col: 40, offset: 66360},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2063, col: 45, offset: 66375},
+									pos:   position{line: 2063, col: 45, offset: 66365},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2063, col: 55, offset: 66385},
+										pos:  position{line: 2063, col: 55, offset: 66375},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2063, col: 86, offset: 66416},
+									pos:        position{line: 2063, col: 86, offset: 66406},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -42433,21 +42433,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2067, col: 7, offset: 66581},
+						pos: position{line: 2067, col: 7, offset: 66571},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2067, col: 7, offset: 66581},
+							pos: position{line: 2067, col: 7, offset: 66571},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2067, col: 7, offset: 66581},
+									pos:   position{line: 2067, col: 7, offset: 66571},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60336},
+										pos: position{line: 1861, col: 25, offset: 60326},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60336},
+											pos: position{line: 1861, col: 25, offset: 60326},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60336},
+												pos:        position{line: 1861, col: 25, offset: 60326},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42456,21 +42456,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2067, col: 42, offset: 66616},
+									pos:        position{line: 2067, col: 42, offset: 66606},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2067, col: 47, offset: 66621},
+									pos:   position{line: 2067, col: 47, offset: 66611},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2067, col: 57, offset: 66631},
+										pos:  position{line: 2067, col: 57, offset: 66621},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2067, col: 88, offset: 66662},
+									pos:        position{line: 2067, col: 88, offset: 66652},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42479,21 +42479,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2072, col: 7, offset: 66903},
+						pos: position{line: 2072, col: 7, offset: 66893},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2072, col: 7, offset: 66903},
+							pos: position{line: 2072, col: 7, offset: 66893},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2072, col: 7, offset: 66903},
+									pos:   position{line: 2072, col: 7, offset: 66893},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60336},
+										pos: position{line: 1861, col: 25, offset: 60326},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60336},
+											pos: position{line: 1861, col: 25, offset: 60326},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60336},
+												pos:        position{line: 1861, col: 25, offset: 60326},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42502,21 +42502,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2072, col: 42, offset: 66938},
+									pos:        position{line: 2072, col: 42, offset: 66928},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2072, col: 46, offset: 66942},
+									pos:   position{line: 2072, col: 46, offset: 66932},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2072, col: 56, offset: 66952},
+										pos:  position{line: 2072, col: 56, offset: 66942},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2072, col: 87, offset: 66983},
+									pos:        position{line: 2072, col: 87, offset: 66973},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42529,29 +42529,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2089, col: 1, offset: 67547},
+			pos:  position{line: 2089, col: 1, offset: 67537},
 			expr: &actionExpr{
-				pos: position{line: 2090, col: 5, offset: 67580},
+				pos: position{line: 2090, col: 5, offset: 67570},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2090, col: 5, offset: 67580},
+					pos: position{line: 2090, col: 5, offset: 67570},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2085, col: 43, offset: 67495},
+							pos:        position{line: 2085, col: 43, offset: 67485},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2091, col: 5, offset: 67624},
+							pos:   position{line: 2091, col: 5, offset: 67614},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2091, col: 15, offset: 67634},
+								pos:  position{line: 2091, col: 15, offset: 67624},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2087, col: 41, offset: 67541},
+							pos:        position{line: 2087, col: 41, offset: 67531},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -42562,24 +42562,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2096, col: 1, offset: 67809},
+			pos:  position{line: 2096, col: 1, offset: 67799},
 			expr: &actionExpr{
-				pos: position{line: 2097, col: 5, offset: 67882},
+				pos: position{line: 2097, col: 5, offset: 67872},
 				run: (*parser).callonDoubleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2097, col: 5, offset: 67882},
+					pos: position{line: 2097, col: 5, offset: 67872},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2097, col: 5, offset: 67882},
+							pos: position{line: 2097, col: 5, offset: 67872},
 							run: (*parser).callonDoubleQuoteMonospaceTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2101, col: 5, offset: 68002},
+							pos:   position{line: 2101, col: 5, offset: 67992},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2101, col: 14, offset: 68011},
+								pos: position{line: 2101, col: 14, offset: 68001},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2101, col: 15, offset: 68012},
+									pos:  position{line: 2101, col: 15, offset: 68002},
 									name: "DoubleQuoteMonospaceTextElement",
 								},
 							},
@@ -42590,33 +42590,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2105, col: 1, offset: 68084},
+			pos:  position{line: 2105, col: 1, offset: 68074},
 			expr: &actionExpr{
-				pos: position{line: 2106, col: 5, offset: 68124},
+				pos: position{line: 2106, col: 5, offset: 68114},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2106, col: 5, offset: 68124},
+					pos: position{line: 2106, col: 5, offset: 68114},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92792},
+							pos: position{line: 2939, col: 11, offset: 92782},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92794,
+								line: 2939, col: 13, offset: 92784,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2107, col: 5, offset: 68135},
+							pos: position{line: 2107, col: 5, offset: 68125},
 							expr: &litMatcher{
-								pos:        position{line: 2087, col: 41, offset: 67541},
+								pos:        position{line: 2087, col: 41, offset: 67531},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2108, col: 5, offset: 68177},
+							pos:   position{line: 2108, col: 5, offset: 68167},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2108, col: 14, offset: 68186},
+								pos:  position{line: 2108, col: 14, offset: 68176},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42626,33 +42626,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2126, col: 1, offset: 68728},
+			pos:  position{line: 2126, col: 1, offset: 68718},
 			expr: &seqExpr{
-				pos: position{line: 2127, col: 5, offset: 68773},
+				pos: position{line: 2127, col: 5, offset: 68763},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2127, col: 5, offset: 68773},
+						pos: position{line: 2127, col: 5, offset: 68763},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2127, col: 6, offset: 68774},
+							pos:  position{line: 2127, col: 6, offset: 68764},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2128, col: 5, offset: 68793},
+						pos:        position{line: 2128, col: 5, offset: 68783},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2129, col: 5, offset: 68801},
+						pos: position{line: 2129, col: 5, offset: 68791},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2133, col: 5, offset: 68915},
+						pos: position{line: 2133, col: 5, offset: 68905},
 						expr: &notExpr{
-							pos: position{line: 2133, col: 7, offset: 68917},
+							pos: position{line: 2133, col: 7, offset: 68907},
 							expr: &charClassMatcher{
-								pos:        position{line: 2812, col: 13, offset: 89553},
+								pos:        position{line: 2812, col: 13, offset: 89543},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42665,29 +42665,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2136, col: 1, offset: 68934},
+			pos:  position{line: 2136, col: 1, offset: 68924},
 			expr: &actionExpr{
-				pos: position{line: 2137, col: 5, offset: 68967},
+				pos: position{line: 2137, col: 5, offset: 68957},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2137, col: 5, offset: 68967},
+					pos: position{line: 2137, col: 5, offset: 68957},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2119, col: 5, offset: 68530},
+							pos:        position{line: 2119, col: 5, offset: 68520},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2120, col: 5, offset: 68539},
+							pos: position{line: 2120, col: 5, offset: 68529},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2124, col: 5, offset: 68662},
+							pos: position{line: 2124, col: 5, offset: 68652},
 							expr: &notExpr{
-								pos: position{line: 2124, col: 7, offset: 68664},
+								pos: position{line: 2124, col: 7, offset: 68654},
 								expr: &litMatcher{
-									pos:        position{line: 2124, col: 8, offset: 68665},
+									pos:        position{line: 2124, col: 8, offset: 68655},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42695,15 +42695,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2138, col: 5, offset: 69011},
+							pos:   position{line: 2138, col: 5, offset: 69001},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2138, col: 15, offset: 69021},
+								pos:  position{line: 2138, col: 15, offset: 69011},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2139, col: 5, offset: 69060},
+							pos:  position{line: 2139, col: 5, offset: 69050},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -42712,20 +42712,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2143, col: 1, offset: 69197},
+			pos:  position{line: 2143, col: 1, offset: 69187},
 			expr: &actionExpr{
-				pos: position{line: 2144, col: 5, offset: 69238},
+				pos: position{line: 2144, col: 5, offset: 69228},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2144, col: 5, offset: 69238},
+					pos: position{line: 2144, col: 5, offset: 69228},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2144, col: 5, offset: 69238},
+							pos: position{line: 2144, col: 5, offset: 69228},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92458},
+								pos: position{line: 2922, col: 10, offset: 92448},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92458},
+									pos:        position{line: 2922, col: 10, offset: 92448},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42734,18 +42734,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2145, col: 5, offset: 69277},
+							pos:   position{line: 2145, col: 5, offset: 69267},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2145, col: 14, offset: 69286},
+								pos: position{line: 2145, col: 14, offset: 69276},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2145, col: 15, offset: 69287},
+									pos:  position{line: 2145, col: 15, offset: 69277},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2146, col: 5, offset: 69325},
+							pos: position{line: 2146, col: 5, offset: 69315},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -42754,31 +42754,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2152, col: 1, offset: 69466},
+			pos:  position{line: 2152, col: 1, offset: 69456},
 			expr: &actionExpr{
-				pos: position{line: 2153, col: 5, offset: 69506},
+				pos: position{line: 2153, col: 5, offset: 69496},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2153, col: 5, offset: 69506},
+					pos: position{line: 2153, col: 5, offset: 69496},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92792},
+							pos: position{line: 2939, col: 11, offset: 92782},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92794,
+								line: 2939, col: 13, offset: 92784,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2154, col: 5, offset: 69517},
+							pos: position{line: 2154, col: 5, offset: 69507},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2154, col: 6, offset: 69518},
+								pos:  position{line: 2154, col: 6, offset: 69508},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2155, col: 5, offset: 69559},
+							pos:   position{line: 2155, col: 5, offset: 69549},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2155, col: 14, offset: 69568},
+								pos:  position{line: 2155, col: 14, offset: 69558},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42788,35 +42788,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2160, col: 1, offset: 69656},
+			pos:  position{line: 2160, col: 1, offset: 69646},
 			expr: &choiceExpr{
-				pos: position{line: 2162, col: 5, offset: 69727},
+				pos: position{line: 2162, col: 5, offset: 69717},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2162, col: 5, offset: 69727},
+						pos: position{line: 2162, col: 5, offset: 69717},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2162, col: 5, offset: 69727},
+							pos: position{line: 2162, col: 5, offset: 69717},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2162, col: 5, offset: 69727},
+									pos:   position{line: 2162, col: 5, offset: 69717},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1865, col: 25, offset: 60409},
+										pos: position{line: 1865, col: 25, offset: 60399},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1865, col: 25, offset: 60409},
+											pos: position{line: 1865, col: 25, offset: 60399},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1865, col: 25, offset: 60409},
+													pos:        position{line: 1865, col: 25, offset: 60399},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1865, col: 30, offset: 60414},
+													pos: position{line: 1865, col: 30, offset: 60404},
 													expr: &litMatcher{
-														pos:        position{line: 1865, col: 30, offset: 60414},
+														pos:        position{line: 1865, col: 30, offset: 60404},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42827,21 +42827,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2162, col: 40, offset: 69762},
+									pos:        position{line: 2162, col: 40, offset: 69752},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2162, col: 45, offset: 69767},
+									pos:   position{line: 2162, col: 45, offset: 69757},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2162, col: 55, offset: 69777},
+										pos:  position{line: 2162, col: 55, offset: 69767},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2162, col: 89, offset: 69811},
+									pos:        position{line: 2162, col: 89, offset: 69801},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -42850,21 +42850,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2166, col: 7, offset: 69980},
+						pos: position{line: 2166, col: 7, offset: 69970},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2166, col: 7, offset: 69980},
+							pos: position{line: 2166, col: 7, offset: 69970},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2166, col: 7, offset: 69980},
+									pos:   position{line: 2166, col: 7, offset: 69970},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60336},
+										pos: position{line: 1861, col: 25, offset: 60326},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60336},
+											pos: position{line: 1861, col: 25, offset: 60326},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60336},
+												pos:        position{line: 1861, col: 25, offset: 60326},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42873,21 +42873,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2166, col: 42, offset: 70015},
+									pos:        position{line: 2166, col: 42, offset: 70005},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2166, col: 47, offset: 70020},
+									pos:   position{line: 2166, col: 47, offset: 70010},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2166, col: 57, offset: 70030},
+										pos:  position{line: 2166, col: 57, offset: 70020},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2166, col: 91, offset: 70064},
+									pos:        position{line: 2166, col: 91, offset: 70054},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42896,21 +42896,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2171, col: 7, offset: 70270},
+						pos: position{line: 2171, col: 7, offset: 70260},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2171, col: 7, offset: 70270},
+							pos: position{line: 2171, col: 7, offset: 70260},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2171, col: 7, offset: 70270},
+									pos:   position{line: 2171, col: 7, offset: 70260},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60336},
+										pos: position{line: 1861, col: 25, offset: 60326},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60336},
+											pos: position{line: 1861, col: 25, offset: 60326},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60336},
+												pos:        position{line: 1861, col: 25, offset: 60326},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42919,21 +42919,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2171, col: 42, offset: 70305},
+									pos:        position{line: 2171, col: 42, offset: 70295},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2171, col: 46, offset: 70309},
+									pos:   position{line: 2171, col: 46, offset: 70299},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2171, col: 56, offset: 70319},
+										pos:  position{line: 2171, col: 56, offset: 70309},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2171, col: 90, offset: 70353},
+									pos:        position{line: 2171, col: 90, offset: 70343},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42946,29 +42946,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2188, col: 1, offset: 70838},
+			pos:  position{line: 2188, col: 1, offset: 70828},
 			expr: &actionExpr{
-				pos: position{line: 2189, col: 5, offset: 70868},
+				pos: position{line: 2189, col: 5, offset: 70858},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2189, col: 5, offset: 70868},
+					pos: position{line: 2189, col: 5, offset: 70858},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2184, col: 40, offset: 70789},
+							pos:        position{line: 2184, col: 40, offset: 70779},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2190, col: 5, offset: 70909},
+							pos:   position{line: 2190, col: 5, offset: 70899},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2190, col: 15, offset: 70919},
+								pos:  position{line: 2190, col: 15, offset: 70909},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2186, col: 38, offset: 70832},
+							pos:        position{line: 2186, col: 38, offset: 70822},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -42979,24 +42979,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2195, col: 1, offset: 71085},
+			pos:  position{line: 2195, col: 1, offset: 71075},
 			expr: &actionExpr{
-				pos: position{line: 2196, col: 5, offset: 71122},
+				pos: position{line: 2196, col: 5, offset: 71112},
 				run: (*parser).callonDoubleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2196, col: 5, offset: 71122},
+					pos: position{line: 2196, col: 5, offset: 71112},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2196, col: 5, offset: 71122},
+							pos: position{line: 2196, col: 5, offset: 71112},
 							run: (*parser).callonDoubleQuoteMarkedTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2200, col: 5, offset: 71242},
+							pos:   position{line: 2200, col: 5, offset: 71232},
 							label: "elements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2200, col: 14, offset: 71251},
+								pos: position{line: 2200, col: 14, offset: 71241},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2200, col: 15, offset: 71252},
+									pos:  position{line: 2200, col: 15, offset: 71242},
 									name: "DoubleQuoteMarkedTextElement",
 								},
 							},
@@ -43007,33 +43007,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2204, col: 1, offset: 71321},
+			pos:  position{line: 2204, col: 1, offset: 71311},
 			expr: &actionExpr{
-				pos: position{line: 2205, col: 5, offset: 71390},
+				pos: position{line: 2205, col: 5, offset: 71380},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2205, col: 5, offset: 71390},
+					pos: position{line: 2205, col: 5, offset: 71380},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92792},
+							pos: position{line: 2939, col: 11, offset: 92782},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92794,
+								line: 2939, col: 13, offset: 92784,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2206, col: 5, offset: 71401},
+							pos: position{line: 2206, col: 5, offset: 71391},
 							expr: &litMatcher{
-								pos:        position{line: 2186, col: 38, offset: 70832},
+								pos:        position{line: 2186, col: 38, offset: 70822},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2207, col: 5, offset: 71440},
+							pos:   position{line: 2207, col: 5, offset: 71430},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2207, col: 14, offset: 71449},
+								pos:  position{line: 2207, col: 14, offset: 71439},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43043,29 +43043,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2232, col: 1, offset: 72131},
+			pos:  position{line: 2232, col: 1, offset: 72121},
 			expr: &actionExpr{
-				pos: position{line: 2233, col: 5, offset: 72161},
+				pos: position{line: 2233, col: 5, offset: 72151},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2233, col: 5, offset: 72161},
+					pos: position{line: 2233, col: 5, offset: 72151},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2216, col: 5, offset: 71697},
+							pos:        position{line: 2216, col: 5, offset: 71687},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2217, col: 5, offset: 71706},
+							pos: position{line: 2217, col: 5, offset: 71696},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2221, col: 5, offset: 71826},
+							pos: position{line: 2221, col: 5, offset: 71816},
 							expr: &notExpr{
-								pos: position{line: 2221, col: 7, offset: 71828},
+								pos: position{line: 2221, col: 7, offset: 71818},
 								expr: &litMatcher{
-									pos:        position{line: 2221, col: 8, offset: 71829},
+									pos:        position{line: 2221, col: 8, offset: 71819},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43073,38 +43073,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2234, col: 5, offset: 72201},
+							pos:   position{line: 2234, col: 5, offset: 72191},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2234, col: 15, offset: 72211},
+								pos:  position{line: 2234, col: 15, offset: 72201},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2224, col: 5, offset: 71934},
+							pos:        position{line: 2224, col: 5, offset: 71924},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2225, col: 5, offset: 71942},
+							pos: position{line: 2225, col: 5, offset: 71932},
 							expr: &litMatcher{
-								pos:        position{line: 2225, col: 6, offset: 71943},
+								pos:        position{line: 2225, col: 6, offset: 71933},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2226, col: 5, offset: 72006},
+							pos: position{line: 2226, col: 5, offset: 71996},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2230, col: 5, offset: 72117},
+							pos: position{line: 2230, col: 5, offset: 72107},
 							expr: &notExpr{
-								pos: position{line: 2230, col: 7, offset: 72119},
+								pos: position{line: 2230, col: 7, offset: 72109},
 								expr: &charClassMatcher{
-									pos:        position{line: 2812, col: 13, offset: 89553},
+									pos:        position{line: 2812, col: 13, offset: 89543},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43118,20 +43118,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2239, col: 1, offset: 72378},
+			pos:  position{line: 2239, col: 1, offset: 72368},
 			expr: &actionExpr{
-				pos: position{line: 2240, col: 5, offset: 72416},
+				pos: position{line: 2240, col: 5, offset: 72406},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2240, col: 5, offset: 72416},
+					pos: position{line: 2240, col: 5, offset: 72406},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2240, col: 5, offset: 72416},
+							pos: position{line: 2240, col: 5, offset: 72406},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92458},
+								pos: position{line: 2922, col: 10, offset: 92448},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92458},
+									pos:        position{line: 2922, col: 10, offset: 92448},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43140,18 +43140,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2241, col: 5, offset: 72455},
+							pos:   position{line: 2241, col: 5, offset: 72445},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2241, col: 14, offset: 72464},
+								pos: position{line: 2241, col: 14, offset: 72454},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2241, col: 15, offset: 72465},
+									pos:  position{line: 2241, col: 15, offset: 72455},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2242, col: 5, offset: 72501},
+							pos: position{line: 2242, col: 5, offset: 72491},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -43160,49 +43160,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2248, col: 1, offset: 72642},
+			pos:  position{line: 2248, col: 1, offset: 72632},
 			expr: &actionExpr{
-				pos: position{line: 2249, col: 5, offset: 72679},
+				pos: position{line: 2249, col: 5, offset: 72669},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2249, col: 5, offset: 72679},
+					pos: position{line: 2249, col: 5, offset: 72669},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92792},
+							pos: position{line: 2939, col: 11, offset: 92782},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92794,
+								line: 2939, col: 13, offset: 92784,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2250, col: 5, offset: 72690},
+							pos: position{line: 2250, col: 5, offset: 72680},
 							expr: &seqExpr{
-								pos: position{line: 2224, col: 5, offset: 71934},
+								pos: position{line: 2224, col: 5, offset: 71924},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2224, col: 5, offset: 71934},
+										pos:        position{line: 2224, col: 5, offset: 71924},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2225, col: 5, offset: 71942},
+										pos: position{line: 2225, col: 5, offset: 71932},
 										expr: &litMatcher{
-											pos:        position{line: 2225, col: 6, offset: 71943},
+											pos:        position{line: 2225, col: 6, offset: 71933},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2226, col: 5, offset: 72006},
+										pos: position{line: 2226, col: 5, offset: 71996},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2230, col: 5, offset: 72117},
+										pos: position{line: 2230, col: 5, offset: 72107},
 										expr: &notExpr{
-											pos: position{line: 2230, col: 7, offset: 72119},
+											pos: position{line: 2230, col: 7, offset: 72109},
 											expr: &charClassMatcher{
-												pos:        position{line: 2812, col: 13, offset: 89553},
+												pos:        position{line: 2812, col: 13, offset: 89543},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43214,10 +43214,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2251, col: 5, offset: 72729},
+							pos:   position{line: 2251, col: 5, offset: 72719},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2251, col: 14, offset: 72738},
+								pos:  position{line: 2251, col: 14, offset: 72728},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43227,35 +43227,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2256, col: 1, offset: 72826},
+			pos:  position{line: 2256, col: 1, offset: 72816},
 			expr: &choiceExpr{
-				pos: position{line: 2258, col: 5, offset: 72890},
+				pos: position{line: 2258, col: 5, offset: 72880},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2258, col: 5, offset: 72890},
+						pos: position{line: 2258, col: 5, offset: 72880},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2258, col: 5, offset: 72890},
+							pos: position{line: 2258, col: 5, offset: 72880},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2258, col: 5, offset: 72890},
+									pos:   position{line: 2258, col: 5, offset: 72880},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1865, col: 25, offset: 60409},
+										pos: position{line: 1865, col: 25, offset: 60399},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1865, col: 25, offset: 60409},
+											pos: position{line: 1865, col: 25, offset: 60399},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1865, col: 25, offset: 60409},
+													pos:        position{line: 1865, col: 25, offset: 60399},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1865, col: 30, offset: 60414},
+													pos: position{line: 1865, col: 30, offset: 60404},
 													expr: &litMatcher{
-														pos:        position{line: 1865, col: 30, offset: 60414},
+														pos:        position{line: 1865, col: 30, offset: 60404},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43266,21 +43266,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2258, col: 40, offset: 72925},
+									pos:        position{line: 2258, col: 40, offset: 72915},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2258, col: 45, offset: 72930},
+									pos:   position{line: 2258, col: 45, offset: 72920},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2258, col: 55, offset: 72940},
+										pos:  position{line: 2258, col: 55, offset: 72930},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2258, col: 86, offset: 72971},
+									pos:        position{line: 2258, col: 86, offset: 72961},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -43289,21 +43289,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2262, col: 7, offset: 73136},
+						pos: position{line: 2262, col: 7, offset: 73126},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2262, col: 7, offset: 73136},
+							pos: position{line: 2262, col: 7, offset: 73126},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2262, col: 7, offset: 73136},
+									pos:   position{line: 2262, col: 7, offset: 73126},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60336},
+										pos: position{line: 1861, col: 25, offset: 60326},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60336},
+											pos: position{line: 1861, col: 25, offset: 60326},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60336},
+												pos:        position{line: 1861, col: 25, offset: 60326},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43312,21 +43312,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2262, col: 42, offset: 73171},
+									pos:        position{line: 2262, col: 42, offset: 73161},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2262, col: 47, offset: 73176},
+									pos:   position{line: 2262, col: 47, offset: 73166},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2262, col: 57, offset: 73186},
+										pos:  position{line: 2262, col: 57, offset: 73176},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2262, col: 88, offset: 73217},
+									pos:        position{line: 2262, col: 88, offset: 73207},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43335,21 +43335,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2267, col: 7, offset: 73420},
+						pos: position{line: 2267, col: 7, offset: 73410},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2267, col: 7, offset: 73420},
+							pos: position{line: 2267, col: 7, offset: 73410},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2267, col: 7, offset: 73420},
+									pos:   position{line: 2267, col: 7, offset: 73410},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60336},
+										pos: position{line: 1861, col: 25, offset: 60326},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60336},
+											pos: position{line: 1861, col: 25, offset: 60326},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60336},
+												pos:        position{line: 1861, col: 25, offset: 60326},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43358,21 +43358,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2267, col: 42, offset: 73455},
+									pos:        position{line: 2267, col: 42, offset: 73445},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2267, col: 46, offset: 73459},
+									pos:   position{line: 2267, col: 46, offset: 73449},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2267, col: 56, offset: 73469},
+										pos:  position{line: 2267, col: 56, offset: 73459},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2267, col: 87, offset: 73500},
+									pos:        position{line: 2267, col: 87, offset: 73490},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43385,29 +43385,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2274, col: 1, offset: 73767},
+			pos:  position{line: 2274, col: 1, offset: 73757},
 			expr: &actionExpr{
-				pos: position{line: 2275, col: 5, offset: 73789},
+				pos: position{line: 2275, col: 5, offset: 73779},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2275, col: 5, offset: 73789},
+					pos: position{line: 2275, col: 5, offset: 73779},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2281, col: 27, offset: 74004},
+							pos:        position{line: 2281, col: 27, offset: 73994},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2276, col: 5, offset: 73816},
+							pos:   position{line: 2276, col: 5, offset: 73806},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2276, col: 14, offset: 73825},
+								pos:  position{line: 2276, col: 14, offset: 73815},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2281, col: 27, offset: 74004},
+							pos:        position{line: 2281, col: 27, offset: 73994},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43418,34 +43418,34 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2283, col: 1, offset: 74009},
+			pos:  position{line: 2283, col: 1, offset: 73999},
 			expr: &actionExpr{
-				pos: position{line: 2284, col: 5, offset: 74037},
+				pos: position{line: 2284, col: 5, offset: 74027},
 				run: (*parser).callonSubscriptTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2284, col: 5, offset: 74037},
+					pos: position{line: 2284, col: 5, offset: 74027},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2284, col: 5, offset: 74037},
+							pos: position{line: 2284, col: 5, offset: 74027},
 							run: (*parser).callonSubscriptTextElement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2288, col: 5, offset: 74157},
+							pos:   position{line: 2288, col: 5, offset: 74147},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2288, col: 14, offset: 74166},
+								pos: position{line: 2288, col: 14, offset: 74156},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2288, col: 14, offset: 74166},
+										pos:  position{line: 2288, col: 14, offset: 74156},
 										name: "QuotedText",
 									},
 									&actionExpr{
-										pos: position{line: 2292, col: 21, offset: 74254},
+										pos: position{line: 2292, col: 21, offset: 74244},
 										run: (*parser).callonSubscriptTextElement7,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2292, col: 21, offset: 74254},
+											pos: position{line: 2292, col: 21, offset: 74244},
 											expr: &charClassMatcher{
-												pos:        position{line: 2292, col: 21, offset: 74254},
+												pos:        position{line: 2292, col: 21, offset: 74244},
 												val:        "[^\\r\\n ~]",
 												chars:      []rune{'\r', '\n', ' ', '~'},
 												ignoreCase: false,
@@ -43462,23 +43462,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2296, col: 1, offset: 74339},
+			pos:  position{line: 2296, col: 1, offset: 74329},
 			expr: &actionExpr{
-				pos: position{line: 2298, col: 5, offset: 74406},
+				pos: position{line: 2298, col: 5, offset: 74396},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2298, col: 5, offset: 74406},
+					pos: position{line: 2298, col: 5, offset: 74396},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2298, col: 5, offset: 74406},
+							pos:   position{line: 2298, col: 5, offset: 74396},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1861, col: 25, offset: 60336},
+								pos: position{line: 1861, col: 25, offset: 60326},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1861, col: 25, offset: 60336},
+									pos: position{line: 1861, col: 25, offset: 60326},
 									expr: &litMatcher{
-										pos:        position{line: 1861, col: 25, offset: 60336},
+										pos:        position{line: 1861, col: 25, offset: 60326},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43487,21 +43487,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2281, col: 27, offset: 74004},
+							pos:        position{line: 2281, col: 27, offset: 73994},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2300, col: 5, offset: 74474},
+							pos:   position{line: 2300, col: 5, offset: 74464},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2300, col: 14, offset: 74483},
+								pos:  position{line: 2300, col: 14, offset: 74473},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2281, col: 27, offset: 74004},
+							pos:        position{line: 2281, col: 27, offset: 73994},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43512,29 +43512,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2308, col: 1, offset: 74746},
+			pos:  position{line: 2308, col: 1, offset: 74736},
 			expr: &actionExpr{
-				pos: position{line: 2309, col: 5, offset: 74770},
+				pos: position{line: 2309, col: 5, offset: 74760},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2309, col: 5, offset: 74770},
+					pos: position{line: 2309, col: 5, offset: 74760},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2315, col: 29, offset: 74997},
+							pos:        position{line: 2315, col: 29, offset: 74987},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2310, col: 5, offset: 74800},
+							pos:   position{line: 2310, col: 5, offset: 74790},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2310, col: 14, offset: 74809},
+								pos:  position{line: 2310, col: 14, offset: 74799},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2315, col: 29, offset: 74997},
+							pos:        position{line: 2315, col: 29, offset: 74987},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43545,34 +43545,34 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2317, col: 1, offset: 75002},
+			pos:  position{line: 2317, col: 1, offset: 74992},
 			expr: &actionExpr{
-				pos: position{line: 2318, col: 5, offset: 75032},
+				pos: position{line: 2318, col: 5, offset: 75022},
 				run: (*parser).callonSuperscriptTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2318, col: 5, offset: 75032},
+					pos: position{line: 2318, col: 5, offset: 75022},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2318, col: 5, offset: 75032},
+							pos: position{line: 2318, col: 5, offset: 75022},
 							run: (*parser).callonSuperscriptTextElement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2322, col: 5, offset: 75152},
+							pos:   position{line: 2322, col: 5, offset: 75142},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2322, col: 14, offset: 75161},
+								pos: position{line: 2322, col: 14, offset: 75151},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2322, col: 14, offset: 75161},
+										pos:  position{line: 2322, col: 14, offset: 75151},
 										name: "QuotedText",
 									},
 									&actionExpr{
-										pos: position{line: 2326, col: 23, offset: 75253},
+										pos: position{line: 2326, col: 23, offset: 75243},
 										run: (*parser).callonSuperscriptTextElement7,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2326, col: 23, offset: 75253},
+											pos: position{line: 2326, col: 23, offset: 75243},
 											expr: &charClassMatcher{
-												pos:        position{line: 2326, col: 23, offset: 75253},
+												pos:        position{line: 2326, col: 23, offset: 75243},
 												val:        "[^\\r\\n ^]",
 												chars:      []rune{'\r', '\n', ' ', '^'},
 												ignoreCase: false,
@@ -43589,23 +43589,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2330, col: 1, offset: 75338},
+			pos:  position{line: 2330, col: 1, offset: 75328},
 			expr: &actionExpr{
-				pos: position{line: 2332, col: 5, offset: 75410},
+				pos: position{line: 2332, col: 5, offset: 75400},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2332, col: 5, offset: 75410},
+					pos: position{line: 2332, col: 5, offset: 75400},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2332, col: 5, offset: 75410},
+							pos:   position{line: 2332, col: 5, offset: 75400},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1861, col: 25, offset: 60336},
+								pos: position{line: 1861, col: 25, offset: 60326},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1861, col: 25, offset: 60336},
+									pos: position{line: 1861, col: 25, offset: 60326},
 									expr: &litMatcher{
-										pos:        position{line: 1861, col: 25, offset: 60336},
+										pos:        position{line: 1861, col: 25, offset: 60326},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43614,21 +43614,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2315, col: 29, offset: 74997},
+							pos:        position{line: 2315, col: 29, offset: 74987},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2334, col: 5, offset: 75480},
+							pos:   position{line: 2334, col: 5, offset: 75470},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2334, col: 14, offset: 75489},
+								pos:  position{line: 2334, col: 14, offset: 75479},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2315, col: 29, offset: 74997},
+							pos:        position{line: 2315, col: 29, offset: 74987},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43639,27 +43639,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2343, col: 1, offset: 75958},
+			pos:  position{line: 2343, col: 1, offset: 75948},
 			expr: &actionExpr{
-				pos: position{line: 2344, col: 5, offset: 75974},
+				pos: position{line: 2344, col: 5, offset: 75964},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2344, col: 5, offset: 75974},
+					pos: position{line: 2344, col: 5, offset: 75964},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2344, col: 5, offset: 75974},
+							pos: position{line: 2344, col: 5, offset: 75964},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2347, col: 5, offset: 76037},
+							pos:   position{line: 2347, col: 5, offset: 76027},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2347, col: 12, offset: 76044},
+								pos: position{line: 2347, col: 12, offset: 76034},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2347, col: 12, offset: 76044},
+									pos: position{line: 2347, col: 12, offset: 76034},
 									expr: &litMatcher{
-										pos:        position{line: 2347, col: 13, offset: 76045},
+										pos:        position{line: 2347, col: 13, offset: 76035},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -43668,16 +43668,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2351, col: 5, offset: 76153},
+							pos: position{line: 2351, col: 5, offset: 76143},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2926, col: 11, offset: 92519},
+							pos: position{line: 2926, col: 11, offset: 92509},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2926, col: 11, offset: 92519},
+								pos: position{line: 2926, col: 11, offset: 92509},
 								expr: &charClassMatcher{
-									pos:        position{line: 2926, col: 11, offset: 92519},
+									pos:        position{line: 2926, col: 11, offset: 92509},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43686,36 +43686,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2355, col: 12, offset: 76312},
+							pos:   position{line: 2355, col: 12, offset: 76302},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2355, col: 19, offset: 76319},
+								pos:  position{line: 2355, col: 19, offset: 76309},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92856},
+							pos: position{line: 2944, col: 8, offset: 92846},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92629},
+									pos: position{line: 2931, col: 12, offset: 92619},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92630},
+										pos: position{line: 2931, col: 13, offset: 92620},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92630},
+												pos:        position{line: 2931, col: 13, offset: 92620},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92637},
+												pos:        position{line: 2931, col: 20, offset: 92627},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92646},
+												pos:        position{line: 2931, col: 29, offset: 92636},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43724,9 +43724,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92806},
+									pos: position{line: 2941, col: 8, offset: 92796},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92807,
+										line: 2941, col: 9, offset: 92797,
 									},
 								},
 							},
@@ -43737,24 +43737,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2359, col: 1, offset: 76415},
+			pos:  position{line: 2359, col: 1, offset: 76405},
 			expr: &actionExpr{
-				pos: position{line: 2360, col: 5, offset: 76436},
+				pos: position{line: 2360, col: 5, offset: 76426},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2360, col: 5, offset: 76436},
+					pos: position{line: 2360, col: 5, offset: 76426},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2360, col: 5, offset: 76436},
+							pos: position{line: 2360, col: 5, offset: 76426},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2366, col: 5, offset: 76627},
+							pos:   position{line: 2366, col: 5, offset: 76617},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2366, col: 14, offset: 76636},
+								pos: position{line: 2366, col: 14, offset: 76626},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2366, col: 15, offset: 76637},
+									pos:  position{line: 2366, col: 15, offset: 76627},
 									name: "SectionTitleElement",
 								},
 							},
@@ -43765,38 +43765,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2370, col: 1, offset: 76718},
+			pos:  position{line: 2370, col: 1, offset: 76708},
 			expr: &actionExpr{
-				pos: position{line: 2371, col: 5, offset: 76745},
+				pos: position{line: 2371, col: 5, offset: 76735},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2371, col: 5, offset: 76745},
+					pos: position{line: 2371, col: 5, offset: 76735},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2371, col: 5, offset: 76745},
+							pos: position{line: 2371, col: 5, offset: 76735},
 							expr: &choiceExpr{
-								pos: position{line: 2944, col: 8, offset: 92856},
+								pos: position{line: 2944, col: 8, offset: 92846},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2931, col: 12, offset: 92629},
+										pos: position{line: 2931, col: 12, offset: 92619},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2931, col: 13, offset: 92630},
+											pos: position{line: 2931, col: 13, offset: 92620},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2931, col: 13, offset: 92630},
+													pos:        position{line: 2931, col: 13, offset: 92620},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 20, offset: 92637},
+													pos:        position{line: 2931, col: 20, offset: 92627},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 29, offset: 92646},
+													pos:        position{line: 2931, col: 29, offset: 92636},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43805,36 +43805,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2941, col: 8, offset: 92806},
+										pos: position{line: 2941, col: 8, offset: 92796},
 										expr: &anyMatcher{
-											line: 2941, col: 9, offset: 92807,
+											line: 2941, col: 9, offset: 92797,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2372, col: 5, offset: 76754},
+							pos:   position{line: 2372, col: 5, offset: 76744},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2373, col: 9, offset: 76772},
+								pos: position{line: 2373, col: 9, offset: 76762},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2821, col: 5, offset: 89700},
+										pos: position{line: 2821, col: 5, offset: 89690},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2821, col: 5, offset: 89700},
+											pos: position{line: 2821, col: 5, offset: 89690},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2821, col: 5, offset: 89700},
+													pos:   position{line: 2821, col: 5, offset: 89690},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2821, col: 11, offset: 89706},
+														pos: position{line: 2821, col: 11, offset: 89696},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2821, col: 11, offset: 89706},
+															pos: position{line: 2821, col: 11, offset: 89696},
 															expr: &charClassMatcher{
-																pos:        position{line: 2821, col: 11, offset: 89706},
+																pos:        position{line: 2821, col: 11, offset: 89696},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43844,36 +43844,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2824, col: 5, offset: 89764},
+													pos: position{line: 2824, col: 5, offset: 89754},
 													expr: &seqExpr{
-														pos: position{line: 2825, col: 9, offset: 89775},
+														pos: position{line: 2825, col: 9, offset: 89765},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2825, col: 9, offset: 89775},
+																pos:        position{line: 2825, col: 9, offset: 89765},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2826, col: 9, offset: 89824},
+																pos: position{line: 2826, col: 9, offset: 89814},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2830, col: 5, offset: 89904},
+													pos: position{line: 2830, col: 5, offset: 89894},
 													expr: &seqExpr{
-														pos: position{line: 2831, col: 9, offset: 89915},
+														pos: position{line: 2831, col: 9, offset: 89905},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2831, col: 9, offset: 89915},
+																pos:        position{line: 2831, col: 9, offset: 89905},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2831, col: 13, offset: 89919},
+																pos:        position{line: 2831, col: 13, offset: 89909},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43886,12 +43886,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2926, col: 11, offset: 92519},
+										pos: position{line: 2926, col: 11, offset: 92509},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2926, col: 11, offset: 92519},
+											pos: position{line: 2926, col: 11, offset: 92509},
 											expr: &charClassMatcher{
-												pos:        position{line: 2926, col: 11, offset: 92519},
+												pos:        position{line: 2926, col: 11, offset: 92509},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43900,21 +43900,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2543, col: 5, offset: 81981},
+										pos: position{line: 2543, col: 5, offset: 81971},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2543, col: 5, offset: 81981},
+											pos: position{line: 2543, col: 5, offset: 81971},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2543, col: 5, offset: 81981},
+													pos:        position{line: 2543, col: 5, offset: 81971},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2543, col: 10, offset: 81986},
+													pos: position{line: 2543, col: 10, offset: 81976},
 													expr: &charClassMatcher{
-														pos:        position{line: 2543, col: 11, offset: 81987},
+														pos:        position{line: 2543, col: 11, offset: 81977},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43925,29 +43925,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2549, col: 5, offset: 82179},
+										pos: position{line: 2549, col: 5, offset: 82169},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2549, col: 5, offset: 82179},
+											pos: position{line: 2549, col: 5, offset: 82169},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2549, col: 5, offset: 82179},
+													pos: position{line: 2549, col: 5, offset: 82169},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2552, col: 5, offset: 82250},
+													pos: position{line: 2552, col: 5, offset: 82240},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2556, col: 5, offset: 82375},
+													pos:        position{line: 2556, col: 5, offset: 82365},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2556, col: 9, offset: 82379},
+													pos: position{line: 2556, col: 9, offset: 82369},
 													expr: &charClassMatcher{
-														pos:        position{line: 2556, col: 10, offset: 82380},
+														pos:        position{line: 2556, col: 10, offset: 82370},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43958,31 +43958,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2376, col: 11, offset: 76837},
+										pos:  position{line: 2376, col: 11, offset: 76827},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2839, col: 5, offset: 90112},
+										pos: position{line: 2839, col: 5, offset: 90102},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2840, col: 9, offset: 90122},
+											pos: position{line: 2840, col: 9, offset: 90112},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2840, col: 10, offset: 90123},
+													pos:        position{line: 2840, col: 10, offset: 90113},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2842, col: 13, offset: 90220},
+													pos: position{line: 2842, col: 13, offset: 90210},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2842, col: 13, offset: 90220},
+															pos: position{line: 2842, col: 13, offset: 90210},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2845, col: 13, offset: 90320},
+															pos:        position{line: 2845, col: 13, offset: 90310},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43990,20 +43990,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2845, col: 19, offset: 90326},
+													pos:        position{line: 2845, col: 19, offset: 90316},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2848, col: 13, offset: 90364},
+													pos: position{line: 2848, col: 13, offset: 90354},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2848, col: 13, offset: 90364},
+															pos: position{line: 2848, col: 13, offset: 90354},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2851, col: 14, offset: 90457},
+															pos:        position{line: 2851, col: 14, offset: 90447},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -44012,18 +44012,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2853, col: 12, offset: 90501},
+													pos: position{line: 2853, col: 12, offset: 90491},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2853, col: 12, offset: 90501},
+															pos:        position{line: 2853, col: 12, offset: 90491},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2853, col: 16, offset: 90505},
+															pos: position{line: 2853, col: 16, offset: 90495},
 															expr: &litMatcher{
-																pos:        position{line: 2853, col: 17, offset: 90506},
+																pos:        position{line: 2853, col: 17, offset: 90496},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -44035,35 +44035,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2378, col: 11, offset: 76910},
+										pos:  position{line: 2378, col: 11, offset: 76900},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2379, col: 11, offset: 76926},
+										pos:  position{line: 2379, col: 11, offset: 76916},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2380, col: 11, offset: 76954},
+										pos:  position{line: 2380, col: 11, offset: 76944},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 5, offset: 80782},
+										pos: position{line: 2512, col: 5, offset: 80772},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 5, offset: 80782},
+											pos: position{line: 2512, col: 5, offset: 80772},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 80782},
+													pos: position{line: 2512, col: 5, offset: 80772},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 5, offset: 80858},
+													pos:   position{line: 2515, col: 5, offset: 80848},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2516, col: 9, offset: 80876},
+														pos: position{line: 2516, col: 9, offset: 80866},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2516, col: 10, offset: 80877},
+															pos:        position{line: 2516, col: 10, offset: 80867},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -44075,7 +44075,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2382, col: 11, offset: 77039},
+										pos:  position{line: 2382, col: 11, offset: 77029},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -44468,17 +44468,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2395, col: 5, offset: 77492},
+										pos: position{line: 2395, col: 5, offset: 77482},
 										run: (*parser).callonSectionTitleElement146,
 										expr: &seqExpr{
-											pos: position{line: 2395, col: 5, offset: 77492},
+											pos: position{line: 2395, col: 5, offset: 77482},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2395, col: 5, offset: 77492},
+													pos: position{line: 2395, col: 5, offset: 77482},
 													run: (*parser).callonSectionTitleElement148,
 												},
 												&labeledExpr{
-													pos:   position{line: 2398, col: 5, offset: 77547},
+													pos:   position{line: 2398, col: 5, offset: 77537},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 406, col: 5, offset: 12507},
@@ -44936,12 +44936,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2398, col: 26, offset: 77568},
+													pos: position{line: 2398, col: 26, offset: 77558},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92458},
+														pos: position{line: 2922, col: 10, offset: 92448},
 														run: (*parser).callonSectionTitleElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92458},
+															pos:        position{line: 2922, col: 10, offset: 92448},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44950,30 +44950,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2398, col: 33, offset: 77575},
+													pos: position{line: 2398, col: 33, offset: 77565},
 													expr: &choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92856},
+														pos: position{line: 2944, col: 8, offset: 92846},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92629},
+																pos: position{line: 2931, col: 12, offset: 92619},
 																run: (*parser).callonSectionTitleElement247,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92630},
+																	pos: position{line: 2931, col: 13, offset: 92620},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92630},
+																			pos:        position{line: 2931, col: 13, offset: 92620},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92637},
+																			pos:        position{line: 2931, col: 20, offset: 92627},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92646},
+																			pos:        position{line: 2931, col: 29, offset: 92636},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44982,9 +44982,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92806},
+																pos: position{line: 2941, col: 8, offset: 92796},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92807,
+																	line: 2941, col: 9, offset: 92797,
 																},
 															},
 														},
@@ -45009,12 +45009,12 @@ var g = &grammar{
 													pos:   position{line: 1266, col: 14, offset: 39472},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 7, offset: 92110},
+														pos: position{line: 2907, col: 7, offset: 92100},
 														run: (*parser).callonSectionTitleElement258,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2907, col: 7, offset: 92110},
+															pos: position{line: 2907, col: 7, offset: 92100},
 															expr: &charClassMatcher{
-																pos:        position{line: 2907, col: 7, offset: 92110},
+																pos:        position{line: 2907, col: 7, offset: 92100},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45048,12 +45048,12 @@ var g = &grammar{
 													pos:   position{line: 1271, col: 10, offset: 39604},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 7, offset: 92110},
+														pos: position{line: 2907, col: 7, offset: 92100},
 														run: (*parser).callonSectionTitleElement266,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2907, col: 7, offset: 92110},
+															pos: position{line: 2907, col: 7, offset: 92100},
 															expr: &charClassMatcher{
-																pos:        position{line: 2907, col: 7, offset: 92110},
+																pos:        position{line: 2907, col: 7, offset: 92100},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45072,14 +45072,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2387, col: 11, offset: 77293},
+										pos:  position{line: 2387, col: 11, offset: 77283},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90766},
+										pos: position{line: 2861, col: 12, offset: 90756},
 										run: (*parser).callonSectionTitleElement271,
 										expr: &charClassMatcher{
-											pos:        position{line: 2861, col: 12, offset: 90766},
+											pos:        position{line: 2861, col: 12, offset: 90756},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45095,52 +45095,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2408, col: 1, offset: 77837},
+			pos:  position{line: 2408, col: 1, offset: 77827},
 			expr: &actionExpr{
-				pos: position{line: 2409, col: 5, offset: 77924},
+				pos: position{line: 2409, col: 5, offset: 77914},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2409, col: 5, offset: 77924},
+					pos: position{line: 2409, col: 5, offset: 77914},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2409, col: 5, offset: 77924},
+							pos:   position{line: 2409, col: 5, offset: 77914},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2409, col: 14, offset: 77933},
+								pos: position{line: 2409, col: 14, offset: 77923},
 								expr: &actionExpr{
-									pos: position{line: 2411, col: 9, offset: 77959},
+									pos: position{line: 2411, col: 9, offset: 77949},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2411, col: 9, offset: 77959},
+										pos: position{line: 2411, col: 9, offset: 77949},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2939, col: 11, offset: 92792},
+												pos: position{line: 2939, col: 11, offset: 92782},
 												expr: &anyMatcher{
-													line: 2939, col: 13, offset: 92794,
+													line: 2939, col: 13, offset: 92784,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2412, col: 9, offset: 77974},
+												pos:   position{line: 2412, col: 9, offset: 77964},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2413, col: 13, offset: 77996},
+													pos: position{line: 2413, col: 13, offset: 77986},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2821, col: 5, offset: 89700},
+															pos: position{line: 2821, col: 5, offset: 89690},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2821, col: 5, offset: 89700},
+																pos: position{line: 2821, col: 5, offset: 89690},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2821, col: 5, offset: 89700},
+																		pos:   position{line: 2821, col: 5, offset: 89690},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2821, col: 11, offset: 89706},
+																			pos: position{line: 2821, col: 11, offset: 89696},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2821, col: 11, offset: 89706},
+																				pos: position{line: 2821, col: 11, offset: 89696},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2821, col: 11, offset: 89706},
+																					pos:        position{line: 2821, col: 11, offset: 89696},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45150,36 +45150,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2824, col: 5, offset: 89764},
+																		pos: position{line: 2824, col: 5, offset: 89754},
 																		expr: &seqExpr{
-																			pos: position{line: 2825, col: 9, offset: 89775},
+																			pos: position{line: 2825, col: 9, offset: 89765},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2825, col: 9, offset: 89775},
+																					pos:        position{line: 2825, col: 9, offset: 89765},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2826, col: 9, offset: 89824},
+																					pos: position{line: 2826, col: 9, offset: 89814},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2830, col: 5, offset: 89904},
+																		pos: position{line: 2830, col: 5, offset: 89894},
 																		expr: &seqExpr{
-																			pos: position{line: 2831, col: 9, offset: 89915},
+																			pos: position{line: 2831, col: 9, offset: 89905},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2831, col: 9, offset: 89915},
+																					pos:        position{line: 2831, col: 9, offset: 89905},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2831, col: 13, offset: 89919},
+																					pos:        position{line: 2831, col: 13, offset: 89909},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45192,12 +45192,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2926, col: 11, offset: 92519},
+															pos: position{line: 2926, col: 11, offset: 92509},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2926, col: 11, offset: 92519},
+																pos: position{line: 2926, col: 11, offset: 92509},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2926, col: 11, offset: 92519},
+																	pos:        position{line: 2926, col: 11, offset: 92509},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45206,25 +45206,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2415, col: 15, offset: 78042},
+															pos:  position{line: 2415, col: 15, offset: 78032},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2543, col: 5, offset: 81981},
+															pos: position{line: 2543, col: 5, offset: 81971},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2543, col: 5, offset: 81981},
+																pos: position{line: 2543, col: 5, offset: 81971},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2543, col: 5, offset: 81981},
+																		pos:        position{line: 2543, col: 5, offset: 81971},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2543, col: 10, offset: 81986},
+																		pos: position{line: 2543, col: 10, offset: 81976},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2543, col: 11, offset: 81987},
+																			pos:        position{line: 2543, col: 11, offset: 81977},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45235,29 +45235,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2549, col: 5, offset: 82179},
+															pos: position{line: 2549, col: 5, offset: 82169},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2549, col: 5, offset: 82179},
+																pos: position{line: 2549, col: 5, offset: 82169},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2549, col: 5, offset: 82179},
+																		pos: position{line: 2549, col: 5, offset: 82169},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2552, col: 5, offset: 82250},
+																		pos: position{line: 2552, col: 5, offset: 82240},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2556, col: 5, offset: 82375},
+																		pos:        position{line: 2556, col: 5, offset: 82365},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2556, col: 9, offset: 82379},
+																		pos: position{line: 2556, col: 9, offset: 82369},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2556, col: 10, offset: 82380},
+																			pos:        position{line: 2556, col: 10, offset: 82370},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45268,27 +45268,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2839, col: 5, offset: 90112},
+															pos: position{line: 2839, col: 5, offset: 90102},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2840, col: 9, offset: 90122},
+																pos: position{line: 2840, col: 9, offset: 90112},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2840, col: 10, offset: 90123},
+																		pos:        position{line: 2840, col: 10, offset: 90113},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2842, col: 13, offset: 90220},
+																		pos: position{line: 2842, col: 13, offset: 90210},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2842, col: 13, offset: 90220},
+																				pos: position{line: 2842, col: 13, offset: 90210},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2845, col: 13, offset: 90320},
+																				pos:        position{line: 2845, col: 13, offset: 90310},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45296,20 +45296,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2845, col: 19, offset: 90326},
+																		pos:        position{line: 2845, col: 19, offset: 90316},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2848, col: 13, offset: 90364},
+																		pos: position{line: 2848, col: 13, offset: 90354},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2848, col: 13, offset: 90364},
+																				pos: position{line: 2848, col: 13, offset: 90354},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2851, col: 14, offset: 90457},
+																				pos:        position{line: 2851, col: 14, offset: 90447},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45318,18 +45318,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2853, col: 12, offset: 90501},
+																		pos: position{line: 2853, col: 12, offset: 90491},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2853, col: 12, offset: 90501},
+																				pos:        position{line: 2853, col: 12, offset: 90491},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2853, col: 16, offset: 90505},
+																				pos: position{line: 2853, col: 16, offset: 90495},
 																				expr: &litMatcher{
-																					pos:        position{line: 2853, col: 17, offset: 90506},
+																					pos:        position{line: 2853, col: 17, offset: 90496},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45341,25 +45341,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92629},
+															pos: position{line: 2931, col: 12, offset: 92619},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92630},
+																pos: position{line: 2931, col: 13, offset: 92620},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92630},
+																		pos:        position{line: 2931, col: 13, offset: 92620},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92637},
+																		pos:        position{line: 2931, col: 20, offset: 92627},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92646},
+																		pos:        position{line: 2931, col: 29, offset: 92636},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45714,35 +45714,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2420, col: 15, offset: 78209},
+															pos:  position{line: 2420, col: 15, offset: 78199},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2421, col: 15, offset: 78229},
+															pos:  position{line: 2421, col: 15, offset: 78219},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2422, col: 15, offset: 78318},
+															pos:  position{line: 2422, col: 15, offset: 78308},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2512, col: 5, offset: 80782},
+															pos: position{line: 2512, col: 5, offset: 80772},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2512, col: 5, offset: 80782},
+																pos: position{line: 2512, col: 5, offset: 80772},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2512, col: 5, offset: 80782},
+																		pos: position{line: 2512, col: 5, offset: 80772},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2515, col: 5, offset: 80858},
+																		pos:   position{line: 2515, col: 5, offset: 80848},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2516, col: 9, offset: 80876},
+																			pos: position{line: 2516, col: 9, offset: 80866},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2516, col: 10, offset: 80877},
+																				pos:        position{line: 2516, col: 10, offset: 80867},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -45776,10 +45776,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1227, col: 5, offset: 38320},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92458},
+																			pos: position{line: 2922, col: 10, offset: 92448},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92458},
+																				pos:        position{line: 2922, col: 10, offset: 92448},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45790,28 +45790,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1227, col: 12, offset: 38327},
 																		expr: &choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92856},
+																			pos: position{line: 2944, col: 8, offset: 92846},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92629},
+																					pos: position{line: 2931, col: 12, offset: 92619},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92630},
+																						pos: position{line: 2931, col: 13, offset: 92620},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92630},
+																								pos:        position{line: 2931, col: 13, offset: 92620},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92637},
+																								pos:        position{line: 2931, col: 20, offset: 92627},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92646},
+																								pos:        position{line: 2931, col: 29, offset: 92636},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45820,9 +45820,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92806},
+																					pos: position{line: 2941, col: 8, offset: 92796},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92807,
+																						line: 2941, col: 9, offset: 92797,
 																					},
 																				},
 																			},
@@ -45832,7 +45832,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2425, col: 15, offset: 78500},
+															pos:  position{line: 2425, col: 15, offset: 78490},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -45879,10 +45879,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90766},
+															pos: position{line: 2861, col: 12, offset: 90756},
 															run: (*parser).callonNormalGroup165,
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 12, offset: 90766},
+																pos:        position{line: 2861, col: 12, offset: 90756},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45898,9 +45898,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92806},
+							pos: position{line: 2941, col: 8, offset: 92796},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92807,
+								line: 2941, col: 9, offset: 92797,
 							},
 						},
 					},
@@ -45909,28 +45909,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2436, col: 1, offset: 78938},
+			pos:  position{line: 2436, col: 1, offset: 78928},
 			expr: &actionExpr{
-				pos: position{line: 2437, col: 5, offset: 78971},
+				pos: position{line: 2437, col: 5, offset: 78961},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2437, col: 5, offset: 78971},
+					pos: position{line: 2437, col: 5, offset: 78961},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2437, col: 5, offset: 78971},
+							pos:   position{line: 2437, col: 5, offset: 78961},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2437, col: 14, offset: 78980},
+								pos: position{line: 2437, col: 14, offset: 78970},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2437, col: 15, offset: 78981},
+									pos:  position{line: 2437, col: 15, offset: 78971},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92806},
+							pos: position{line: 2941, col: 8, offset: 92796},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92807,
+								line: 2941, col: 9, offset: 92797,
 							},
 						},
 					},
@@ -45939,41 +45939,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2441, col: 1, offset: 79078},
+			pos:  position{line: 2441, col: 1, offset: 79068},
 			expr: &actionExpr{
-				pos: position{line: 2442, col: 5, offset: 79118},
+				pos: position{line: 2442, col: 5, offset: 79108},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2442, col: 5, offset: 79118},
+					pos: position{line: 2442, col: 5, offset: 79108},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92792},
+							pos: position{line: 2939, col: 11, offset: 92782},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92794,
+								line: 2939, col: 13, offset: 92784,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2443, col: 5, offset: 79129},
+							pos:   position{line: 2443, col: 5, offset: 79119},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2444, col: 9, offset: 79147},
+								pos: position{line: 2444, col: 9, offset: 79137},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2821, col: 5, offset: 89700},
+										pos: position{line: 2821, col: 5, offset: 89690},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2821, col: 5, offset: 89700},
+											pos: position{line: 2821, col: 5, offset: 89690},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2821, col: 5, offset: 89700},
+													pos:   position{line: 2821, col: 5, offset: 89690},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2821, col: 11, offset: 89706},
+														pos: position{line: 2821, col: 11, offset: 89696},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2821, col: 11, offset: 89706},
+															pos: position{line: 2821, col: 11, offset: 89696},
 															expr: &charClassMatcher{
-																pos:        position{line: 2821, col: 11, offset: 89706},
+																pos:        position{line: 2821, col: 11, offset: 89696},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45983,36 +45983,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2824, col: 5, offset: 89764},
+													pos: position{line: 2824, col: 5, offset: 89754},
 													expr: &seqExpr{
-														pos: position{line: 2825, col: 9, offset: 89775},
+														pos: position{line: 2825, col: 9, offset: 89765},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2825, col: 9, offset: 89775},
+																pos:        position{line: 2825, col: 9, offset: 89765},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2826, col: 9, offset: 89824},
+																pos: position{line: 2826, col: 9, offset: 89814},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2830, col: 5, offset: 89904},
+													pos: position{line: 2830, col: 5, offset: 89894},
 													expr: &seqExpr{
-														pos: position{line: 2831, col: 9, offset: 89915},
+														pos: position{line: 2831, col: 9, offset: 89905},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2831, col: 9, offset: 89915},
+																pos:        position{line: 2831, col: 9, offset: 89905},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2831, col: 13, offset: 89919},
+																pos:        position{line: 2831, col: 13, offset: 89909},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46025,10 +46025,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2922, col: 10, offset: 92458},
+										pos: position{line: 2922, col: 10, offset: 92448},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2922, col: 10, offset: 92458},
+											pos:        position{line: 2922, col: 10, offset: 92448},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -46036,31 +46036,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2446, col: 11, offset: 79185},
+										pos:  position{line: 2446, col: 11, offset: 79175},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2839, col: 5, offset: 90112},
+										pos: position{line: 2839, col: 5, offset: 90102},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2840, col: 9, offset: 90122},
+											pos: position{line: 2840, col: 9, offset: 90112},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2840, col: 10, offset: 90123},
+													pos:        position{line: 2840, col: 10, offset: 90113},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2842, col: 13, offset: 90220},
+													pos: position{line: 2842, col: 13, offset: 90210},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2842, col: 13, offset: 90220},
+															pos: position{line: 2842, col: 13, offset: 90210},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2845, col: 13, offset: 90320},
+															pos:        position{line: 2845, col: 13, offset: 90310},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46068,20 +46068,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2845, col: 19, offset: 90326},
+													pos:        position{line: 2845, col: 19, offset: 90316},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2848, col: 13, offset: 90364},
+													pos: position{line: 2848, col: 13, offset: 90354},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2848, col: 13, offset: 90364},
+															pos: position{line: 2848, col: 13, offset: 90354},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2851, col: 14, offset: 90457},
+															pos:        position{line: 2851, col: 14, offset: 90447},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46090,18 +46090,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2853, col: 12, offset: 90501},
+													pos: position{line: 2853, col: 12, offset: 90491},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2853, col: 12, offset: 90501},
+															pos:        position{line: 2853, col: 12, offset: 90491},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2853, col: 16, offset: 90505},
+															pos: position{line: 2853, col: 16, offset: 90495},
 															expr: &litMatcher{
-																pos:        position{line: 2853, col: 17, offset: 90506},
+																pos:        position{line: 2853, col: 17, offset: 90496},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46113,31 +46113,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2448, col: 11, offset: 79258},
+										pos:  position{line: 2448, col: 11, offset: 79248},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2449, col: 11, offset: 79274},
+										pos:  position{line: 2449, col: 11, offset: 79264},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 5, offset: 80782},
+										pos: position{line: 2512, col: 5, offset: 80772},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 5, offset: 80782},
+											pos: position{line: 2512, col: 5, offset: 80772},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 80782},
+													pos: position{line: 2512, col: 5, offset: 80772},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 5, offset: 80858},
+													pos:   position{line: 2515, col: 5, offset: 80848},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2516, col: 9, offset: 80876},
+														pos: position{line: 2516, col: 9, offset: 80866},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2516, col: 10, offset: 80877},
+															pos:        position{line: 2516, col: 10, offset: 80867},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46192,25 +46192,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2931, col: 12, offset: 92629},
+										pos: position{line: 2931, col: 12, offset: 92619},
 										run: (*parser).callonAttributeStructuredValueElement55,
 										expr: &choiceExpr{
-											pos: position{line: 2931, col: 13, offset: 92630},
+											pos: position{line: 2931, col: 13, offset: 92620},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2931, col: 13, offset: 92630},
+													pos:        position{line: 2931, col: 13, offset: 92620},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 20, offset: 92637},
+													pos:        position{line: 2931, col: 20, offset: 92627},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 29, offset: 92646},
+													pos:        position{line: 2931, col: 29, offset: 92636},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46219,10 +46219,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90766},
+										pos: position{line: 2861, col: 12, offset: 90756},
 										run: (*parser).callonAttributeStructuredValueElement60,
 										expr: &charClassMatcher{
-											pos:        position{line: 2861, col: 12, offset: 90766},
+											pos:        position{line: 2861, col: 12, offset: 90756},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46238,49 +46238,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2460, col: 1, offset: 79544},
+			pos:  position{line: 2460, col: 1, offset: 79534},
 			expr: &actionExpr{
-				pos: position{line: 2462, col: 5, offset: 79626},
+				pos: position{line: 2462, col: 5, offset: 79616},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2462, col: 5, offset: 79626},
+					pos: position{line: 2462, col: 5, offset: 79616},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2462, col: 5, offset: 79626},
+							pos: position{line: 2462, col: 5, offset: 79616},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2465, col: 5, offset: 79691},
+							pos:   position{line: 2465, col: 5, offset: 79681},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2466, col: 9, offset: 79709},
+								pos: position{line: 2466, col: 9, offset: 79699},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2466, col: 9, offset: 79709},
+										pos:  position{line: 2466, col: 9, offset: 79699},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2467, col: 11, offset: 79730},
+										pos:  position{line: 2467, col: 11, offset: 79720},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2468, col: 11, offset: 79753},
+										pos:  position{line: 2468, col: 11, offset: 79743},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2469, col: 11, offset: 79769},
+										pos:  position{line: 2469, col: 11, offset: 79759},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2470, col: 11, offset: 79798},
+										pos:  position{line: 2470, col: 11, offset: 79788},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2471, col: 11, offset: 79824},
+										pos:  position{line: 2471, col: 11, offset: 79814},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2472, col: 11, offset: 79850},
+										pos:  position{line: 2472, col: 11, offset: 79840},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -46299,12 +46299,12 @@ var g = &grammar{
 													pos:   position{line: 1266, col: 14, offset: 39472},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 7, offset: 92110},
+														pos: position{line: 2907, col: 7, offset: 92100},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2907, col: 7, offset: 92110},
+															pos: position{line: 2907, col: 7, offset: 92100},
 															expr: &charClassMatcher{
-																pos:        position{line: 2907, col: 7, offset: 92110},
+																pos:        position{line: 2907, col: 7, offset: 92100},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46338,12 +46338,12 @@ var g = &grammar{
 													pos:   position{line: 1271, col: 10, offset: 39604},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 7, offset: 92110},
+														pos: position{line: 2907, col: 7, offset: 92100},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2907, col: 7, offset: 92110},
+															pos: position{line: 2907, col: 7, offset: 92100},
 															expr: &charClassMatcher{
-																pos:        position{line: 2907, col: 7, offset: 92110},
+																pos:        position{line: 2907, col: 7, offset: 92100},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46385,17 +46385,17 @@ var g = &grammar{
 																pos: position{line: 1317, col: 31, offset: 41426},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2812, col: 13, offset: 89553},
+																		pos:        position{line: 2812, col: 13, offset: 89543},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92458},
+																		pos: position{line: 2922, col: 10, offset: 92448},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92458},
+																			pos:        position{line: 2922, col: 10, offset: 92448},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46421,10 +46421,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1311, col: 12, offset: 41140},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92458},
+																			pos: position{line: 2922, col: 10, offset: 92448},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92458},
+																				pos:        position{line: 2922, col: 10, offset: 92448},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46441,10 +46441,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1311, col: 23, offset: 41151},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92458},
+																			pos: position{line: 2922, col: 10, offset: 92448},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92458},
+																				pos:        position{line: 2922, col: 10, offset: 92448},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46464,17 +46464,17 @@ var g = &grammar{
 																					pos: position{line: 1317, col: 31, offset: 41426},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2812, col: 13, offset: 89553},
+																							pos:        position{line: 2812, col: 13, offset: 89543},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92458},
+																							pos: position{line: 2922, col: 10, offset: 92448},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92458},
+																								pos:        position{line: 2922, col: 10, offset: 92448},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46505,10 +46505,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1312, col: 12, offset: 41232},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92458},
+																			pos: position{line: 2922, col: 10, offset: 92448},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92458},
+																				pos:        position{line: 2922, col: 10, offset: 92448},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46525,10 +46525,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1312, col: 23, offset: 41243},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92458},
+																			pos: position{line: 2922, col: 10, offset: 92448},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92458},
+																				pos:        position{line: 2922, col: 10, offset: 92448},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46548,17 +46548,17 @@ var g = &grammar{
 																					pos: position{line: 1317, col: 31, offset: 41426},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2812, col: 13, offset: 89553},
+																							pos:        position{line: 2812, col: 13, offset: 89543},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92458},
+																							pos: position{line: 2922, col: 10, offset: 92448},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92458},
+																								pos:        position{line: 2922, col: 10, offset: 92448},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46585,15 +46585,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2475, col: 11, offset: 79929},
+										pos:  position{line: 2475, col: 11, offset: 79919},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2476, col: 11, offset: 79949},
+										pos:  position{line: 2476, col: 11, offset: 79939},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2477, col: 11, offset: 79972},
+										pos:  position{line: 2477, col: 11, offset: 79962},
 										name: "InlineMenu",
 									},
 								},
@@ -46605,22 +46605,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2481, col: 1, offset: 80029},
+			pos:  position{line: 2481, col: 1, offset: 80019},
 			expr: &actionExpr{
-				pos: position{line: 2483, col: 5, offset: 80117},
+				pos: position{line: 2483, col: 5, offset: 80107},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2483, col: 5, offset: 80117},
+					pos: position{line: 2483, col: 5, offset: 80107},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2483, col: 5, offset: 80117},
+							pos: position{line: 2483, col: 5, offset: 80107},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2486, col: 5, offset: 80194},
+							pos:   position{line: 2486, col: 5, offset: 80184},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2487, col: 9, offset: 80212},
+								pos: position{line: 2487, col: 9, offset: 80202},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1397, col: 26, offset: 44811},
@@ -46638,18 +46638,18 @@ var g = &grammar{
 													pos:   position{line: 1397, col: 54, offset: 44839},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1401, col: 33, offset: 45052},
+														pos: position{line: 1401, col: 33, offset: 45042},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1401, col: 34, offset: 45053},
+																pos: position{line: 1401, col: 34, offset: 45043},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1401, col: 34, offset: 45053},
+																	pos: position{line: 1401, col: 34, offset: 45043},
 																	expr: &seqExpr{
-																		pos: position{line: 1401, col: 35, offset: 45054},
+																		pos: position{line: 1401, col: 35, offset: 45044},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1401, col: 35, offset: 45054},
+																				pos: position{line: 1401, col: 35, offset: 45044},
 																				expr: &litMatcher{
 																					pos:        position{line: 1395, col: 32, offset: 44779},
 																					val:        "+++",
@@ -46658,27 +46658,27 @@ var g = &grammar{
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1401, col: 64, offset: 45083,
+																				line: 1401, col: 64, offset: 45073,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1403, col: 11, offset: 45256},
+																pos: position{line: 1403, col: 11, offset: 45246},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1403, col: 11, offset: 45256},
+																	pos: position{line: 1403, col: 11, offset: 45246},
 																	expr: &seqExpr{
-																		pos: position{line: 1403, col: 12, offset: 45257},
+																		pos: position{line: 1403, col: 12, offset: 45247},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1403, col: 12, offset: 45257},
+																				pos: position{line: 1403, col: 12, offset: 45247},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92458},
+																					pos: position{line: 2922, col: 10, offset: 92448},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92458},
+																						pos:        position{line: 2922, col: 10, offset: 92448},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46687,27 +46687,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1403, col: 19, offset: 45264},
+																				pos: position{line: 1403, col: 19, offset: 45254},
 																				expr: &actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92629},
+																					pos: position{line: 2931, col: 12, offset: 92619},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92630},
+																						pos: position{line: 2931, col: 13, offset: 92620},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92630},
+																								pos:        position{line: 2931, col: 13, offset: 92620},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92637},
+																								pos:        position{line: 2931, col: 20, offset: 92627},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92646},
+																								pos:        position{line: 2931, col: 29, offset: 92636},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46717,7 +46717,7 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1403, col: 28, offset: 45273},
+																				pos: position{line: 1403, col: 28, offset: 45263},
 																				expr: &litMatcher{
 																					pos:        position{line: 1395, col: 32, offset: 44779},
 																					val:        "+++",
@@ -46726,7 +46726,7 @@ var g = &grammar{
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1403, col: 57, offset: 45302,
+																				line: 1403, col: 57, offset: 45292,
 																			},
 																		},
 																	},
@@ -46741,22 +46741,12 @@ var g = &grammar{
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
-												&notExpr{
-													pos: position{line: 1397, col: 121, offset: 44906},
-													expr: &charClassMatcher{
-														pos:        position{line: 2812, col: 13, offset: 89553},
-														val:        "[\\pL\\pN]",
-														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-														ignoreCase: false,
-														inverted:   false,
-													},
-												},
 											},
 										},
 									},
 									&actionExpr{
 										pos: position{line: 1385, col: 26, offset: 44094},
-										run: (*parser).callonInlinePassthrough35,
+										run: (*parser).callonInlinePassthrough33,
 										expr: &seqExpr{
 											pos: position{line: 1385, col: 26, offset: 44094},
 											exprs: []interface{}{
@@ -46774,7 +46764,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 1389, col: 34, offset: 44336},
-																run: (*parser).callonInlinePassthrough40,
+																run: (*parser).callonInlinePassthrough38,
 																expr: &seqExpr{
 																	pos: position{line: 1389, col: 34, offset: 44336},
 																	exprs: []interface{}{
@@ -46790,10 +46780,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1389, col: 64, offset: 44366},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92458},
-																				run: (*parser).callonInlinePassthrough45,
+																				pos: position{line: 2922, col: 10, offset: 92448},
+																				run: (*parser).callonInlinePassthrough43,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92458},
+																					pos:        position{line: 2922, col: 10, offset: 92448},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46804,25 +46794,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1389, col: 71, offset: 44373},
 																			expr: &actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
-																				run: (*parser).callonInlinePassthrough48,
+																				pos: position{line: 2931, col: 12, offset: 92619},
+																				run: (*parser).callonInlinePassthrough46,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46845,12 +46835,12 @@ var g = &grammar{
 																							pos: position{line: 1389, col: 86, offset: 44388},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2926, col: 11, offset: 92519},
-																									run: (*parser).callonInlinePassthrough58,
+																									pos: position{line: 2926, col: 11, offset: 92509},
+																									run: (*parser).callonInlinePassthrough56,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2926, col: 11, offset: 92519},
+																										pos: position{line: 2926, col: 11, offset: 92509},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2926, col: 11, offset: 92519},
+																											pos:        position{line: 2926, col: 11, offset: 92509},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46879,25 +46869,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1389, col: 151, offset: 44453},
 																						expr: &actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92629},
-																							run: (*parser).callonInlinePassthrough65,
+																							pos: position{line: 2931, col: 12, offset: 92619},
+																							run: (*parser).callonInlinePassthrough63,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92630},
+																								pos: position{line: 2931, col: 13, offset: 92620},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92630},
+																										pos:        position{line: 2931, col: 13, offset: 92620},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92637},
+																										pos:        position{line: 2931, col: 20, offset: 92627},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92646},
+																										pos:        position{line: 2931, col: 29, offset: 92636},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46917,17 +46907,17 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 1391, col: 11, offset: 44612},
-																run: (*parser).callonInlinePassthrough71,
+																run: (*parser).callonInlinePassthrough69,
 																expr: &seqExpr{
 																	pos: position{line: 1391, col: 12, offset: 44613},
 																	exprs: []interface{}{
 																		&notExpr{
 																			pos: position{line: 1391, col: 12, offset: 44613},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92458},
-																				run: (*parser).callonInlinePassthrough74,
+																				pos: position{line: 2922, col: 10, offset: 92448},
+																				run: (*parser).callonInlinePassthrough72,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92458},
+																					pos:        position{line: 2922, col: 10, offset: 92448},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46938,25 +46928,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1391, col: 19, offset: 44620},
 																			expr: &actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92629},
-																				run: (*parser).callonInlinePassthrough77,
+																				pos: position{line: 2931, col: 12, offset: 92619},
+																				run: (*parser).callonInlinePassthrough75,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92630},
+																					pos: position{line: 2931, col: 13, offset: 92620},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92630},
+																							pos:        position{line: 2931, col: 13, offset: 92620},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92637},
+																							pos:        position{line: 2931, col: 20, offset: 92627},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92646},
+																							pos:        position{line: 2931, col: 29, offset: 92636},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46992,7 +46982,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1385, col: 121, offset: 44189},
 													expr: &charClassMatcher{
-														pos:        position{line: 2812, col: 13, offset: 89553},
+														pos:        position{line: 2812, col: 13, offset: 89543},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -47003,7 +46993,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2487, col: 57, offset: 80260},
+										pos:  position{line: 2487, col: 57, offset: 80250},
 										name: "PassthroughMacro",
 									},
 								},
@@ -47015,16 +47005,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2492, col: 1, offset: 80320},
+			pos:  position{line: 2492, col: 1, offset: 80310},
 			expr: &seqExpr{
-				pos: position{line: 2494, col: 5, offset: 80396},
+				pos: position{line: 2494, col: 5, offset: 80386},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2494, col: 5, offset: 80396},
+						pos: position{line: 2494, col: 5, offset: 80386},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2497, col: 5, offset: 80461},
+						pos:  position{line: 2497, col: 5, offset: 80451},
 						name: "QuotedText",
 					},
 				},
@@ -47032,22 +47022,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2499, col: 1, offset: 80474},
+			pos:  position{line: 2499, col: 1, offset: 80464},
 			expr: &actionExpr{
-				pos: position{line: 2501, col: 5, offset: 80556},
+				pos: position{line: 2501, col: 5, offset: 80546},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2501, col: 5, offset: 80556},
+					pos: position{line: 2501, col: 5, offset: 80546},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2501, col: 5, offset: 80556},
+							pos: position{line: 2501, col: 5, offset: 80546},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2504, col: 5, offset: 80627},
+							pos:   position{line: 2504, col: 5, offset: 80617},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2505, col: 9, offset: 80645},
+								pos:  position{line: 2505, col: 9, offset: 80635},
 								name: "Symbol",
 							},
 						},
@@ -47057,103 +47047,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2560, col: 1, offset: 82432},
+			pos:  position{line: 2560, col: 1, offset: 82422},
 			expr: &choiceExpr{
-				pos: position{line: 2562, col: 5, offset: 82462},
+				pos: position{line: 2562, col: 5, offset: 82452},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2562, col: 5, offset: 82462},
+						pos: position{line: 2562, col: 5, offset: 82452},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2562, col: 5, offset: 82462},
+							pos: position{line: 2562, col: 5, offset: 82452},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2562, col: 5, offset: 82462},
+									pos:        position{line: 2562, col: 5, offset: 82452},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2562, col: 10, offset: 82467},
+									pos: position{line: 2562, col: 10, offset: 82457},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2562, col: 10, offset: 82467},
+											pos:  position{line: 2562, col: 10, offset: 82457},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2591, col: 14, offset: 83571},
+											pos: position{line: 2591, col: 14, offset: 83561},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2591, col: 14, offset: 83571},
+												pos:        position{line: 2591, col: 14, offset: 83561},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2595, col: 14, offset: 83637},
+											pos: position{line: 2595, col: 14, offset: 83627},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2595, col: 14, offset: 83637},
+												pos:        position{line: 2595, col: 14, offset: 83627},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2599, col: 15, offset: 83706},
+											pos: position{line: 2599, col: 15, offset: 83696},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2599, col: 15, offset: 83706},
+												pos:        position{line: 2599, col: 15, offset: 83696},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2603, col: 13, offset: 83771},
+											pos: position{line: 2603, col: 13, offset: 83761},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2603, col: 13, offset: 83771},
+												pos:        position{line: 2603, col: 13, offset: 83761},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2631, col: 21, offset: 84341},
+											pos: position{line: 2631, col: 21, offset: 84331},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2631, col: 21, offset: 84341},
+												pos:        position{line: 2631, col: 21, offset: 84331},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2610, col: 5, offset: 83927},
+											pos: position{line: 2610, col: 5, offset: 83917},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2610, col: 5, offset: 83927},
+												pos: position{line: 2610, col: 5, offset: 83917},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2610, col: 5, offset: 83927},
+														pos:        position{line: 2610, col: 5, offset: 83917},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2611, col: 5, offset: 83937},
+														pos: position{line: 2611, col: 5, offset: 83927},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2615, col: 6, offset: 84024},
+														pos: position{line: 2615, col: 6, offset: 84014},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2922, col: 10, offset: 92458},
+																pos: position{line: 2922, col: 10, offset: 92448},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2922, col: 10, offset: 92458},
+																	pos:        position{line: 2922, col: 10, offset: 92448},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47161,30 +47151,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2615, col: 14, offset: 84032},
+																pos: position{line: 2615, col: 14, offset: 84022},
 																expr: &choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92856},
+																	pos: position{line: 2944, col: 8, offset: 92846},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92629},
+																			pos: position{line: 2931, col: 12, offset: 92619},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92630},
+																				pos: position{line: 2931, col: 13, offset: 92620},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92630},
+																						pos:        position{line: 2931, col: 13, offset: 92620},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92637},
+																						pos:        position{line: 2931, col: 20, offset: 92627},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92646},
+																						pos:        position{line: 2931, col: 29, offset: 92636},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47193,9 +47183,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92806},
+																			pos: position{line: 2941, col: 8, offset: 92796},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92807,
+																				line: 2941, col: 9, offset: 92797,
 																			},
 																		},
 																	},
@@ -47207,53 +47197,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2620, col: 5, offset: 84152},
+											pos: position{line: 2620, col: 5, offset: 84142},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2620, col: 5, offset: 84152},
+												pos: position{line: 2620, col: 5, offset: 84142},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2620, col: 5, offset: 84152},
+														pos:        position{line: 2620, col: 5, offset: 84142},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2621, col: 5, offset: 84162},
+														pos: position{line: 2621, col: 5, offset: 84152},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2625, col: 5, offset: 84251},
+														pos: position{line: 2625, col: 5, offset: 84241},
 														expr: &choiceExpr{
-															pos: position{line: 2625, col: 7, offset: 84253},
+															pos: position{line: 2625, col: 7, offset: 84243},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2812, col: 13, offset: 89553},
+																	pos:        position{line: 2812, col: 13, offset: 89543},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2931, col: 12, offset: 92629},
+																	pos: position{line: 2931, col: 12, offset: 92619},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2931, col: 13, offset: 92630},
+																		pos: position{line: 2931, col: 13, offset: 92620},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2931, col: 13, offset: 92630},
+																				pos:        position{line: 2931, col: 13, offset: 92620},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2931, col: 20, offset: 92637},
+																				pos:        position{line: 2931, col: 20, offset: 92627},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2931, col: 29, offset: 92646},
+																				pos:        position{line: 2931, col: 29, offset: 92636},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47262,9 +47252,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92806},
+																	pos: position{line: 2941, col: 8, offset: 92796},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92807,
+																		line: 2941, col: 9, offset: 92797,
 																	},
 																},
 															},
@@ -47274,30 +47264,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2635, col: 20, offset: 84411},
+											pos: position{line: 2635, col: 20, offset: 84401},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2635, col: 20, offset: 84411},
+												pos:        position{line: 2635, col: 20, offset: 84401},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2639, col: 21, offset: 84482},
+											pos: position{line: 2639, col: 21, offset: 84472},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2639, col: 21, offset: 84482},
+												pos:        position{line: 2639, col: 21, offset: 84472},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2643, col: 20, offset: 84552},
+											pos: position{line: 2643, col: 20, offset: 84542},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2643, col: 20, offset: 84552},
+												pos:        position{line: 2643, col: 20, offset: 84542},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -47309,73 +47299,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2566, col: 7, offset: 82722},
+						pos:  position{line: 2566, col: 7, offset: 82712},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2591, col: 14, offset: 83571},
+						pos: position{line: 2591, col: 14, offset: 83561},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2591, col: 14, offset: 83571},
+							pos:        position{line: 2591, col: 14, offset: 83561},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2595, col: 14, offset: 83637},
+						pos: position{line: 2595, col: 14, offset: 83627},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2595, col: 14, offset: 83637},
+							pos:        position{line: 2595, col: 14, offset: 83627},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2599, col: 15, offset: 83706},
+						pos: position{line: 2599, col: 15, offset: 83696},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2599, col: 15, offset: 83706},
+							pos:        position{line: 2599, col: 15, offset: 83696},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2603, col: 13, offset: 83771},
+						pos: position{line: 2603, col: 13, offset: 83761},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2603, col: 13, offset: 83771},
+							pos:        position{line: 2603, col: 13, offset: 83761},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2610, col: 5, offset: 83927},
+						pos: position{line: 2610, col: 5, offset: 83917},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2610, col: 5, offset: 83927},
+							pos: position{line: 2610, col: 5, offset: 83917},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2610, col: 5, offset: 83927},
+									pos:        position{line: 2610, col: 5, offset: 83917},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2611, col: 5, offset: 83937},
+									pos: position{line: 2611, col: 5, offset: 83927},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2615, col: 6, offset: 84024},
+									pos: position{line: 2615, col: 6, offset: 84014},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2922, col: 10, offset: 92458},
+											pos: position{line: 2922, col: 10, offset: 92448},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2922, col: 10, offset: 92458},
+												pos:        position{line: 2922, col: 10, offset: 92448},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47383,30 +47373,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2615, col: 14, offset: 84032},
+											pos: position{line: 2615, col: 14, offset: 84022},
 											expr: &choiceExpr{
-												pos: position{line: 2944, col: 8, offset: 92856},
+												pos: position{line: 2944, col: 8, offset: 92846},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2931, col: 12, offset: 92629},
+														pos: position{line: 2931, col: 12, offset: 92619},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2931, col: 13, offset: 92630},
+															pos: position{line: 2931, col: 13, offset: 92620},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2931, col: 13, offset: 92630},
+																	pos:        position{line: 2931, col: 13, offset: 92620},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 20, offset: 92637},
+																	pos:        position{line: 2931, col: 20, offset: 92627},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 29, offset: 92646},
+																	pos:        position{line: 2931, col: 29, offset: 92636},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47415,9 +47405,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2941, col: 8, offset: 92806},
+														pos: position{line: 2941, col: 8, offset: 92796},
 														expr: &anyMatcher{
-															line: 2941, col: 9, offset: 92807,
+															line: 2941, col: 9, offset: 92797,
 														},
 													},
 												},
@@ -47429,53 +47419,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2620, col: 5, offset: 84152},
+						pos: position{line: 2620, col: 5, offset: 84142},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2620, col: 5, offset: 84152},
+							pos: position{line: 2620, col: 5, offset: 84142},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2620, col: 5, offset: 84152},
+									pos:        position{line: 2620, col: 5, offset: 84142},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2621, col: 5, offset: 84162},
+									pos: position{line: 2621, col: 5, offset: 84152},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2625, col: 5, offset: 84251},
+									pos: position{line: 2625, col: 5, offset: 84241},
 									expr: &choiceExpr{
-										pos: position{line: 2625, col: 7, offset: 84253},
+										pos: position{line: 2625, col: 7, offset: 84243},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2812, col: 13, offset: 89553},
+												pos:        position{line: 2812, col: 13, offset: 89543},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2931, col: 12, offset: 92629},
+												pos: position{line: 2931, col: 12, offset: 92619},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2931, col: 13, offset: 92630},
+													pos: position{line: 2931, col: 13, offset: 92620},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2931, col: 13, offset: 92630},
+															pos:        position{line: 2931, col: 13, offset: 92620},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2931, col: 20, offset: 92637},
+															pos:        position{line: 2931, col: 20, offset: 92627},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2931, col: 29, offset: 92646},
+															pos:        position{line: 2931, col: 29, offset: 92636},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47484,9 +47474,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2941, col: 8, offset: 92806},
+												pos: position{line: 2941, col: 8, offset: 92796},
 												expr: &anyMatcher{
-													line: 2941, col: 9, offset: 92807,
+													line: 2941, col: 9, offset: 92797,
 												},
 											},
 										},
@@ -47496,40 +47486,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2631, col: 21, offset: 84341},
+						pos: position{line: 2631, col: 21, offset: 84331},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2631, col: 21, offset: 84341},
+							pos:        position{line: 2631, col: 21, offset: 84331},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2635, col: 20, offset: 84411},
+						pos: position{line: 2635, col: 20, offset: 84401},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2635, col: 20, offset: 84411},
+							pos:        position{line: 2635, col: 20, offset: 84401},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2639, col: 21, offset: 84482},
+						pos: position{line: 2639, col: 21, offset: 84472},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2639, col: 21, offset: 84482},
+							pos:        position{line: 2639, col: 21, offset: 84472},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2643, col: 20, offset: 84552},
+						pos: position{line: 2643, col: 20, offset: 84542},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2643, col: 20, offset: 84552},
+							pos:        position{line: 2643, col: 20, offset: 84542},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -47540,43 +47530,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2577, col: 1, offset: 82912},
+			pos:  position{line: 2577, col: 1, offset: 82902},
 			expr: &choiceExpr{
-				pos: position{line: 2578, col: 5, offset: 82934},
+				pos: position{line: 2578, col: 5, offset: 82924},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2578, col: 5, offset: 82934},
+						pos: position{line: 2578, col: 5, offset: 82924},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2578, col: 5, offset: 82934},
+							pos: position{line: 2578, col: 5, offset: 82924},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2578, col: 5, offset: 82934},
+									pos:        position{line: 2578, col: 5, offset: 82924},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2578, col: 11, offset: 82940},
+									pos: position{line: 2578, col: 11, offset: 82930},
 									expr: &seqExpr{
-										pos: position{line: 2119, col: 5, offset: 68530},
+										pos: position{line: 2119, col: 5, offset: 68520},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2119, col: 5, offset: 68530},
+												pos:        position{line: 2119, col: 5, offset: 68520},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2120, col: 5, offset: 68539},
+												pos: position{line: 2120, col: 5, offset: 68529},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2124, col: 5, offset: 68662},
+												pos: position{line: 2124, col: 5, offset: 68652},
 												expr: &notExpr{
-													pos: position{line: 2124, col: 7, offset: 68664},
+													pos: position{line: 2124, col: 7, offset: 68654},
 													expr: &litMatcher{
-														pos:        position{line: 2124, col: 8, offset: 68665},
+														pos:        position{line: 2124, col: 8, offset: 68655},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47590,21 +47580,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2581, col: 7, offset: 83093},
+						pos: position{line: 2581, col: 7, offset: 83083},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2581, col: 7, offset: 83093},
+							pos: position{line: 2581, col: 7, offset: 83083},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2581, col: 7, offset: 83093},
+									pos:        position{line: 2581, col: 7, offset: 83083},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2581, col: 13, offset: 83099},
+									pos: position{line: 2581, col: 13, offset: 83089},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2581, col: 14, offset: 83100},
+										pos:  position{line: 2581, col: 14, offset: 83090},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47612,38 +47602,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2584, col: 7, offset: 83250},
+						pos: position{line: 2584, col: 7, offset: 83240},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2584, col: 7, offset: 83250},
+							pos: position{line: 2584, col: 7, offset: 83240},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2584, col: 7, offset: 83250},
+									pos:        position{line: 2584, col: 7, offset: 83240},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2584, col: 12, offset: 83255},
+									pos: position{line: 2584, col: 12, offset: 83245},
 									expr: &seqExpr{
-										pos: position{line: 2119, col: 5, offset: 68530},
+										pos: position{line: 2119, col: 5, offset: 68520},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2119, col: 5, offset: 68530},
+												pos:        position{line: 2119, col: 5, offset: 68520},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2120, col: 5, offset: 68539},
+												pos: position{line: 2120, col: 5, offset: 68529},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2124, col: 5, offset: 68662},
+												pos: position{line: 2124, col: 5, offset: 68652},
 												expr: &notExpr{
-													pos: position{line: 2124, col: 7, offset: 68664},
+													pos: position{line: 2124, col: 7, offset: 68654},
 													expr: &litMatcher{
-														pos:        position{line: 2124, col: 8, offset: 68665},
+														pos:        position{line: 2124, col: 8, offset: 68655},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47657,21 +47647,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2587, col: 7, offset: 83408},
+						pos: position{line: 2587, col: 7, offset: 83398},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2587, col: 7, offset: 83408},
+							pos: position{line: 2587, col: 7, offset: 83398},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2587, col: 7, offset: 83408},
+									pos:        position{line: 2587, col: 7, offset: 83398},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2587, col: 12, offset: 83413},
+									pos: position{line: 2587, col: 12, offset: 83403},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2587, col: 13, offset: 83414},
+										pos:  position{line: 2587, col: 13, offset: 83404},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47683,63 +47673,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2727, col: 1, offset: 86633},
+			pos:  position{line: 2727, col: 1, offset: 86623},
 			expr: &actionExpr{
-				pos: position{line: 2727, col: 26, offset: 86658},
+				pos: position{line: 2727, col: 26, offset: 86648},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2727, col: 26, offset: 86658},
+					pos: position{line: 2727, col: 26, offset: 86648},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2727, col: 26, offset: 86658},
+							pos:   position{line: 2727, col: 26, offset: 86648},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2727, col: 31, offset: 86663},
+								pos: position{line: 2727, col: 31, offset: 86653},
 								expr: &actionExpr{
-									pos: position{line: 2732, col: 5, offset: 86726},
+									pos: position{line: 2732, col: 5, offset: 86716},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2732, col: 5, offset: 86726},
+										pos: position{line: 2732, col: 5, offset: 86716},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2939, col: 11, offset: 92792},
+												pos: position{line: 2939, col: 11, offset: 92782},
 												expr: &anyMatcher{
-													line: 2939, col: 13, offset: 92794,
+													line: 2939, col: 13, offset: 92784,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2735, col: 5, offset: 86852},
+												pos:   position{line: 2735, col: 5, offset: 86842},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2735, col: 16, offset: 86863},
+													pos: position{line: 2735, col: 16, offset: 86853},
 													expr: &actionExpr{
-														pos: position{line: 2735, col: 17, offset: 86864},
+														pos: position{line: 2735, col: 17, offset: 86854},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2735, col: 17, offset: 86864},
+															pos: position{line: 2735, col: 17, offset: 86854},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2735, col: 17, offset: 86864},
+																	pos:   position{line: 2735, col: 17, offset: 86854},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2914, col: 12, offset: 92285},
+																		pos: position{line: 2914, col: 12, offset: 92275},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2914, col: 13, offset: 92286},
+																			pos: position{line: 2914, col: 13, offset: 92276},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2914, col: 13, offset: 92286},
+																					pos: position{line: 2914, col: 13, offset: 92276},
 																					expr: &litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92286},
+																						pos:        position{line: 2914, col: 13, offset: 92276},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2914, col: 18, offset: 92291},
+																					pos: position{line: 2914, col: 18, offset: 92281},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2914, col: 18, offset: 92291},
+																						pos:        position{line: 2914, col: 18, offset: 92281},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47751,7 +47741,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2735, col: 27, offset: 86874},
+																	pos:        position{line: 2735, col: 27, offset: 86864},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47762,38 +47752,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2736, col: 5, offset: 86902},
+												pos:   position{line: 2736, col: 5, offset: 86892},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2736, col: 12, offset: 86909},
+													pos: position{line: 2736, col: 12, offset: 86899},
 													expr: &choiceExpr{
-														pos: position{line: 2737, col: 9, offset: 86919},
+														pos: position{line: 2737, col: 9, offset: 86909},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2737, col: 9, offset: 86919},
+																pos: position{line: 2737, col: 9, offset: 86909},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2737, col: 9, offset: 86919},
+																	pos:        position{line: 2737, col: 9, offset: 86909},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2738, col: 11, offset: 86966},
+																pos: position{line: 2738, col: 11, offset: 86956},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2738, col: 11, offset: 86966},
+																	pos:        position{line: 2738, col: 11, offset: 86956},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2739, col: 11, offset: 87014},
+																pos: position{line: 2739, col: 11, offset: 87004},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2739, col: 11, offset: 87014},
+																	pos:        position{line: 2739, col: 11, offset: 87004},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47804,38 +47794,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2741, col: 5, offset: 87064},
+												pos:   position{line: 2741, col: 5, offset: 87054},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2741, col: 12, offset: 87071},
+													pos: position{line: 2741, col: 12, offset: 87061},
 													expr: &choiceExpr{
-														pos: position{line: 2742, col: 9, offset: 87081},
+														pos: position{line: 2742, col: 9, offset: 87071},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2742, col: 9, offset: 87081},
+																pos: position{line: 2742, col: 9, offset: 87071},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2742, col: 9, offset: 87081},
+																	pos:        position{line: 2742, col: 9, offset: 87071},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2743, col: 11, offset: 87128},
+																pos: position{line: 2743, col: 11, offset: 87118},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2743, col: 11, offset: 87128},
+																	pos:        position{line: 2743, col: 11, offset: 87118},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2744, col: 11, offset: 87178},
+																pos: position{line: 2744, col: 11, offset: 87168},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2744, col: 11, offset: 87178},
+																	pos:        position{line: 2744, col: 11, offset: 87168},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47846,32 +47836,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2746, col: 5, offset: 87229},
+												pos:   position{line: 2746, col: 5, offset: 87219},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2746, col: 12, offset: 87236},
+													pos: position{line: 2746, col: 12, offset: 87226},
 													expr: &choiceExpr{
-														pos: position{line: 2746, col: 13, offset: 87237},
+														pos: position{line: 2746, col: 13, offset: 87227},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2914, col: 12, offset: 92285},
+																pos: position{line: 2914, col: 12, offset: 92275},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2914, col: 13, offset: 92286},
+																	pos: position{line: 2914, col: 13, offset: 92276},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2914, col: 13, offset: 92286},
+																			pos: position{line: 2914, col: 13, offset: 92276},
 																			expr: &litMatcher{
-																				pos:        position{line: 2914, col: 13, offset: 92286},
+																				pos:        position{line: 2914, col: 13, offset: 92276},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2914, col: 18, offset: 92291},
+																			pos: position{line: 2914, col: 18, offset: 92281},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2914, col: 18, offset: 92291},
+																				pos:        position{line: 2914, col: 18, offset: 92281},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47882,10 +47872,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2746, col: 24, offset: 87248},
+																pos: position{line: 2746, col: 24, offset: 87238},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2746, col: 24, offset: 87248},
+																	pos:        position{line: 2746, col: 24, offset: 87238},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47896,15 +47886,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2747, col: 5, offset: 87290},
+												pos:   position{line: 2747, col: 5, offset: 87280},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2747, col: 11, offset: 87296},
+													pos: position{line: 2747, col: 11, offset: 87286},
 													expr: &actionExpr{
-														pos: position{line: 2747, col: 12, offset: 87297},
+														pos: position{line: 2747, col: 12, offset: 87287},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2747, col: 12, offset: 87297},
+															pos:        position{line: 2747, col: 12, offset: 87287},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47914,12 +47904,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2749, col: 5, offset: 87427},
+												pos:   position{line: 2749, col: 5, offset: 87417},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2749, col: 11, offset: 87433},
+													pos: position{line: 2749, col: 11, offset: 87423},
 													expr: &litMatcher{
-														pos:        position{line: 2749, col: 12, offset: 87434},
+														pos:        position{line: 2749, col: 12, offset: 87424},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47927,7 +47917,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2750, col: 5, offset: 87444},
+												pos: position{line: 2750, col: 5, offset: 87434},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47936,9 +47926,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92806},
+							pos: position{line: 2941, col: 8, offset: 92796},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92807,
+								line: 2941, col: 9, offset: 92797,
 							},
 						},
 					},
@@ -47947,23 +47937,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2777, col: 1, offset: 88453},
+			pos:  position{line: 2777, col: 1, offset: 88443},
 			expr: &actionExpr{
-				pos: position{line: 2778, col: 5, offset: 88476},
+				pos: position{line: 2778, col: 5, offset: 88466},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2778, col: 5, offset: 88476},
+					pos: position{line: 2778, col: 5, offset: 88466},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2778, col: 5, offset: 88476},
+							pos:   position{line: 2778, col: 5, offset: 88466},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2801, col: 18, offset: 89217},
+								pos: position{line: 2801, col: 18, offset: 89207},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2801, col: 19, offset: 89218},
+									pos: position{line: 2801, col: 19, offset: 89208},
 									expr: &charClassMatcher{
-										pos:        position{line: 2801, col: 19, offset: 89218},
+										pos:        position{line: 2801, col: 19, offset: 89208},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47974,25 +47964,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2779, col: 5, offset: 88502},
+							pos: position{line: 2779, col: 5, offset: 88492},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2783, col: 5, offset: 88630},
+							pos:        position{line: 2783, col: 5, offset: 88620},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2784, col: 5, offset: 88640},
+							pos:   position{line: 2784, col: 5, offset: 88630},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2805, col: 19, offset: 89293},
+								pos: position{line: 2805, col: 19, offset: 89283},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2805, col: 19, offset: 89293},
+									pos: position{line: 2805, col: 19, offset: 89283},
 									expr: &charClassMatcher{
-										pos:        position{line: 2805, col: 19, offset: 89293},
+										pos:        position{line: 2805, col: 19, offset: 89283},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48002,36 +47992,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2785, col: 5, offset: 88668},
+							pos:   position{line: 2785, col: 5, offset: 88658},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2785, col: 17, offset: 88680},
+								pos:  position{line: 2785, col: 17, offset: 88670},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92856},
+							pos: position{line: 2944, col: 8, offset: 92846},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92629},
+									pos: position{line: 2931, col: 12, offset: 92619},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92630},
+										pos: position{line: 2931, col: 13, offset: 92620},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92630},
+												pos:        position{line: 2931, col: 13, offset: 92620},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92637},
+												pos:        position{line: 2931, col: 20, offset: 92627},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92646},
+												pos:        position{line: 2931, col: 29, offset: 92636},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -48040,9 +48030,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92806},
+									pos: position{line: 2941, col: 8, offset: 92796},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92807,
+										line: 2941, col: 9, offset: 92797,
 									},
 								},
 							},
@@ -48053,23 +48043,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2789, col: 1, offset: 88828},
+			pos:  position{line: 2789, col: 1, offset: 88818},
 			expr: &actionExpr{
-				pos: position{line: 2790, col: 5, offset: 88852},
+				pos: position{line: 2790, col: 5, offset: 88842},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2790, col: 5, offset: 88852},
+					pos: position{line: 2790, col: 5, offset: 88842},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2790, col: 5, offset: 88852},
+							pos:   position{line: 2790, col: 5, offset: 88842},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2801, col: 18, offset: 89217},
+								pos: position{line: 2801, col: 18, offset: 89207},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2801, col: 19, offset: 89218},
+									pos: position{line: 2801, col: 19, offset: 89208},
 									expr: &charClassMatcher{
-										pos:        position{line: 2801, col: 19, offset: 89218},
+										pos:        position{line: 2801, col: 19, offset: 89208},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48080,25 +48070,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2791, col: 5, offset: 88878},
+							pos: position{line: 2791, col: 5, offset: 88868},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2795, col: 5, offset: 89006},
+							pos:        position{line: 2795, col: 5, offset: 88996},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2796, col: 5, offset: 89015},
+							pos:   position{line: 2796, col: 5, offset: 89005},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2805, col: 19, offset: 89293},
+								pos: position{line: 2805, col: 19, offset: 89283},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2805, col: 19, offset: 89293},
+									pos: position{line: 2805, col: 19, offset: 89283},
 									expr: &charClassMatcher{
-										pos:        position{line: 2805, col: 19, offset: 89293},
+										pos:        position{line: 2805, col: 19, offset: 89283},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48108,10 +48098,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2797, col: 5, offset: 89043},
+							pos:   position{line: 2797, col: 5, offset: 89033},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2797, col: 17, offset: 89055},
+								pos:  position{line: 2797, col: 17, offset: 89045},
 								name: "InlineAttributes",
 							},
 						},
@@ -48121,43 +48111,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2876, col: 1, offset: 91105},
+			pos:  position{line: 2876, col: 1, offset: 91095},
 			expr: &actionExpr{
-				pos: position{line: 2876, col: 17, offset: 91121},
+				pos: position{line: 2876, col: 17, offset: 91111},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2876, col: 17, offset: 91121},
+					pos:   position{line: 2876, col: 17, offset: 91111},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2893, col: 5, offset: 91575},
+						pos: position{line: 2893, col: 5, offset: 91565},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2893, col: 5, offset: 91575},
+							pos:   position{line: 2893, col: 5, offset: 91565},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2893, col: 14, offset: 91584},
+								pos: position{line: 2893, col: 14, offset: 91574},
 								expr: &choiceExpr{
-									pos: position{line: 2894, col: 9, offset: 91594},
+									pos: position{line: 2894, col: 9, offset: 91584},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2894, col: 9, offset: 91594},
+											pos: position{line: 2894, col: 9, offset: 91584},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2894, col: 9, offset: 91594},
+												pos: position{line: 2894, col: 9, offset: 91584},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2894, col: 9, offset: 91594},
+														pos: position{line: 2894, col: 9, offset: 91584},
 														expr: &litMatcher{
-															pos:        position{line: 2894, col: 10, offset: 91595},
+															pos:        position{line: 2894, col: 10, offset: 91585},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2895, col: 9, offset: 91623},
+														pos: position{line: 2895, col: 9, offset: 91613},
 														expr: &charClassMatcher{
-															pos:        position{line: 2895, col: 10, offset: 91624},
+															pos:        position{line: 2895, col: 10, offset: 91614},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -48168,27 +48158,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2898, col: 11, offset: 91836},
+											pos: position{line: 2898, col: 11, offset: 91826},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2898, col: 11, offset: 91836},
+													pos:        position{line: 2898, col: 11, offset: 91826},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2898, col: 19, offset: 91844},
+													pos: position{line: 2898, col: 19, offset: 91834},
 													expr: &seqExpr{
-														pos: position{line: 2898, col: 21, offset: 91846},
+														pos: position{line: 2898, col: 21, offset: 91836},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2898, col: 21, offset: 91846},
+																pos: position{line: 2898, col: 21, offset: 91836},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92458},
+																	pos: position{line: 2922, col: 10, offset: 92448},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92458},
+																		pos:        position{line: 2922, col: 10, offset: 92448},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48197,11 +48187,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2898, col: 28, offset: 91853},
+																pos: position{line: 2898, col: 28, offset: 91843},
 																expr: &notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92806},
+																	pos: position{line: 2941, col: 8, offset: 92796},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92807,
+																		line: 2941, col: 9, offset: 92797,
 																	},
 																},
 															},
@@ -48600,10 +48590,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2901, col: 11, offset: 91973},
+											pos: position{line: 2901, col: 11, offset: 91963},
 											run: (*parser).callonFileLocation101,
 											expr: &litMatcher{
-												pos:        position{line: 2901, col: 11, offset: 91973},
+												pos:        position{line: 2901, col: 11, offset: 91963},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -73406,108 +73396,108 @@ func (p *parser) callonInlinePassthrough6() (interface{}, error) {
 	return p.cur.onInlinePassthrough6(stack["content"])
 }
 
-func (c *current) onInlinePassthrough45() (interface{}, error) {
+func (c *current) onInlinePassthrough43() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonInlinePassthrough45() (interface{}, error) {
+func (p *parser) callonInlinePassthrough43() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough45()
+	return p.cur.onInlinePassthrough43()
 }
 
-func (c *current) onInlinePassthrough48() (interface{}, error) {
+func (c *current) onInlinePassthrough46() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonInlinePassthrough48() (interface{}, error) {
+func (p *parser) callonInlinePassthrough46() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough48()
+	return p.cur.onInlinePassthrough46()
 }
 
-func (c *current) onInlinePassthrough58() (interface{}, error) {
+func (c *current) onInlinePassthrough56() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonInlinePassthrough58() (interface{}, error) {
+func (p *parser) callonInlinePassthrough56() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough58()
+	return p.cur.onInlinePassthrough56()
 }
 
-func (c *current) onInlinePassthrough65() (interface{}, error) {
+func (c *current) onInlinePassthrough63() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonInlinePassthrough65() (interface{}, error) {
+func (p *parser) callonInlinePassthrough63() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough65()
+	return p.cur.onInlinePassthrough63()
 }
 
-func (c *current) onInlinePassthrough40() (interface{}, error) {
+func (c *current) onInlinePassthrough38() (interface{}, error) {
 	// no space in the first or last position of the content, but allowed elsewhere
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonInlinePassthrough40() (interface{}, error) {
+func (p *parser) callonInlinePassthrough38() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough40()
+	return p.cur.onInlinePassthrough38()
 }
 
-func (c *current) onInlinePassthrough74() (interface{}, error) {
+func (c *current) onInlinePassthrough72() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonInlinePassthrough74() (interface{}, error) {
+func (p *parser) callonInlinePassthrough72() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough74()
+	return p.cur.onInlinePassthrough72()
 }
 
-func (c *current) onInlinePassthrough77() (interface{}, error) {
+func (c *current) onInlinePassthrough75() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonInlinePassthrough77() (interface{}, error) {
+func (p *parser) callonInlinePassthrough75() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough77()
+	return p.cur.onInlinePassthrough75()
 }
 
-func (c *current) onInlinePassthrough71() (interface{}, error) {
+func (c *current) onInlinePassthrough69() (interface{}, error) {
 	// a single character
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonInlinePassthrough71() (interface{}, error) {
+func (p *parser) callonInlinePassthrough69() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough71()
+	return p.cur.onInlinePassthrough69()
 }
 
-func (c *current) onInlinePassthrough35(content interface{}) (interface{}, error) {
+func (c *current) onInlinePassthrough33(content interface{}) (interface{}, error) {
 	return types.NewInlinePassthrough(types.SinglePlusPassthrough, []interface{}{content})
 
 }
 
-func (p *parser) callonInlinePassthrough35() (interface{}, error) {
+func (p *parser) callonInlinePassthrough33() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough35(stack["content"])
+	return p.cur.onInlinePassthrough33(stack["content"])
 }
 
 func (c *current) onInlinePassthrough1(element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 3304ab2..671172a 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1394,7 +1394,7 @@ SinglePlusPassthroughContent <- ((!SinglePlusPassthroughPrefix !Space !Newline .
 
 TriplePlusPassthroughPrefix <- "+++"
 
-TriplePlusPassthrough <- TriplePlusPassthroughPrefix content:(TriplePlusPassthroughContent) TriplePlusPassthroughPrefix !Alphanum {
+TriplePlusPassthrough <- TriplePlusPassthroughPrefix content:(TriplePlusPassthroughContent) TriplePlusPassthroughPrefix {
         return types.NewInlinePassthrough(types.TriplePlusPassthrough, []interface{}{content})
     }
 
-- 
2.43.0


From b3f980c9a840fc4a713229639e54cf2fdac9d163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:36 +0000
Subject: [PATCH 57/75] fix: references to attributes in titles

Passthroughs in block titles are set aside before references to
attributes are replaced, and what is not a reference to a known attribute
stays as text in a quoted text, too.
---
 pkg/parser/document_substitutions.go |     1 -
 pkg/parser/parser.go                 | 21095 +++++++++++++------------
 pkg/parser/parser.peg                |    14 +-
 3 files changed, 10954 insertions(+), 10156 deletions(-)

diff --git a/pkg/parser/document_substitutions.go b/pkg/parser/document_substitutions.go
index 9862b8e..ee014b6 100644
--- a/pkg/parser/document_substitutions.go
+++ b/pkg/parser/document_substitutions.go
@@ -61,7 +61,6 @@ func attributeSubstitutions() *substitutions {
 	return &substitutions{
 		sequence: []string{
 			InlinePassthroughs,
-			AttributeRefs,
 			SpecialCharacters,
 			Quotes,
 			// Macros,
diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index bc0eee8..c278796 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 49, offset: 11042},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92448},
+														pos: position{line: 2934, col: 10, offset: 92852},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92448},
+															pos:        position{line: 2934, col: 10, offset: 92852},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92846},
+													pos: position{line: 2956, col: 8, offset: 93250},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92619},
+															pos: position{line: 2943, col: 12, offset: 93023},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92620},
+																pos: position{line: 2943, col: 13, offset: 93024},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92620},
+																		pos:        position{line: 2943, col: 13, offset: 93024},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92627},
+																		pos:        position{line: 2943, col: 20, offset: 93031},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92636},
+																		pos:        position{line: 2943, col: 29, offset: 93040},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92796},
+															pos: position{line: 2953, col: 8, offset: 93200},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92797,
+																line: 2953, col: 9, offset: 93201,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 364, col: 39, offset: 11163},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92448},
+														pos: position{line: 2934, col: 10, offset: 92852},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92448},
+															pos:        position{line: 2934, col: 10, offset: 92852},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92846},
+													pos: position{line: 2956, col: 8, offset: 93250},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92619},
+															pos: position{line: 2943, col: 12, offset: 93023},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92620},
+																pos: position{line: 2943, col: 13, offset: 93024},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92620},
+																		pos:        position{line: 2943, col: 13, offset: 93024},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92627},
+																		pos:        position{line: 2943, col: 20, offset: 93031},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92636},
+																		pos:        position{line: 2943, col: 29, offset: 93040},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92796},
+															pos: position{line: 2953, col: 8, offset: 93200},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92797,
+																line: 2953, col: 9, offset: 93201,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92448},
+														pos: position{line: 2934, col: 10, offset: 92852},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92448},
+															pos:        position{line: 2934, col: 10, offset: 92852},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92796},
+													pos: position{line: 2953, col: 8, offset: 93200},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92797,
+														line: 2953, col: 9, offset: 93201,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92448},
+														pos: position{line: 2934, col: 10, offset: 92852},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92448},
+															pos:        position{line: 2934, col: 10, offset: 92852},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92796},
+													pos: position{line: 2953, col: 8, offset: 93200},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92797,
+														line: 2953, col: 9, offset: 93201,
 													},
 												},
 											},
@@ -464,22 +464,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 658, col: 5, offset: 21001},
+																				pos: position{line: 670, col: 5, offset: 21405},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 658, col: 5, offset: 21001},
+																						pos: position{line: 670, col: 5, offset: 21405},
 																						run: (*parser).callonDocumentRawLine97,
 																						expr: &seqExpr{
-																							pos: position{line: 658, col: 5, offset: 21001},
+																							pos: position{line: 670, col: 5, offset: 21405},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 658, col: 5, offset: 21001},
+																									pos:        position{line: 670, col: 5, offset: 21405},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 658, col: 13, offset: 21009},
+																									pos:   position{line: 670, col: 13, offset: 21413},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -511,7 +511,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 658, col: 32, offset: 21028},
+																									pos:        position{line: 670, col: 32, offset: 21432},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -520,19 +520,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 665, col: 5, offset: 21269},
+																						pos: position{line: 677, col: 5, offset: 21673},
 																						run: (*parser).callonDocumentRawLine107,
 																						expr: &seqExpr{
-																							pos: position{line: 665, col: 5, offset: 21269},
+																							pos: position{line: 677, col: 5, offset: 21673},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 665, col: 5, offset: 21269},
+																									pos:        position{line: 677, col: 5, offset: 21673},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 665, col: 9, offset: 21273},
+																									pos:   position{line: 677, col: 9, offset: 21677},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -564,7 +564,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 665, col: 28, offset: 21292},
+																									pos:        position{line: 677, col: 28, offset: 21696},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -600,22 +600,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 658, col: 5, offset: 21001},
+																				pos: position{line: 670, col: 5, offset: 21405},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 658, col: 5, offset: 21001},
+																						pos: position{line: 670, col: 5, offset: 21405},
 																						run: (*parser).callonDocumentRawLine123,
 																						expr: &seqExpr{
-																							pos: position{line: 658, col: 5, offset: 21001},
+																							pos: position{line: 670, col: 5, offset: 21405},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 658, col: 5, offset: 21001},
+																									pos:        position{line: 670, col: 5, offset: 21405},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 658, col: 13, offset: 21009},
+																									pos:   position{line: 670, col: 13, offset: 21413},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -647,7 +647,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 658, col: 32, offset: 21028},
+																									pos:        position{line: 670, col: 32, offset: 21432},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -656,19 +656,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 665, col: 5, offset: 21269},
+																						pos: position{line: 677, col: 5, offset: 21673},
 																						run: (*parser).callonDocumentRawLine133,
 																						expr: &seqExpr{
-																							pos: position{line: 665, col: 5, offset: 21269},
+																							pos: position{line: 677, col: 5, offset: 21673},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 665, col: 5, offset: 21269},
+																									pos:        position{line: 677, col: 5, offset: 21673},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 665, col: 9, offset: 21273},
+																									pos:   position{line: 677, col: 9, offset: 21677},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -700,7 +700,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 665, col: 28, offset: 21292},
+																									pos:        position{line: 677, col: 28, offset: 21696},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -727,22 +727,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 658, col: 5, offset: 21001},
+																		pos: position{line: 670, col: 5, offset: 21405},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 658, col: 5, offset: 21001},
+																				pos: position{line: 670, col: 5, offset: 21405},
 																				run: (*parser).callonDocumentRawLine147,
 																				expr: &seqExpr{
-																					pos: position{line: 658, col: 5, offset: 21001},
+																					pos: position{line: 670, col: 5, offset: 21405},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 658, col: 5, offset: 21001},
+																							pos:        position{line: 670, col: 5, offset: 21405},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 658, col: 13, offset: 21009},
+																							pos:   position{line: 670, col: 13, offset: 21413},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -774,7 +774,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 658, col: 32, offset: 21028},
+																							pos:        position{line: 670, col: 32, offset: 21432},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -783,19 +783,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 665, col: 5, offset: 21269},
+																				pos: position{line: 677, col: 5, offset: 21673},
 																				run: (*parser).callonDocumentRawLine157,
 																				expr: &seqExpr{
-																					pos: position{line: 665, col: 5, offset: 21269},
+																					pos: position{line: 677, col: 5, offset: 21673},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 665, col: 5, offset: 21269},
+																							pos:        position{line: 677, col: 5, offset: 21673},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 665, col: 9, offset: 21273},
+																							pos:   position{line: 677, col: 9, offset: 21677},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -827,7 +827,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 665, col: 28, offset: 21292},
+																							pos:        position{line: 677, col: 28, offset: 21696},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2914, col: 12, offset: 92275},
+																pos: position{line: 2926, col: 12, offset: 92679},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2914, col: 13, offset: 92276},
+																	pos: position{line: 2926, col: 13, offset: 92680},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2914, col: 13, offset: 92276},
+																			pos: position{line: 2926, col: 13, offset: 92680},
 																			expr: &litMatcher{
-																				pos:        position{line: 2914, col: 13, offset: 92276},
+																				pos:        position{line: 2926, col: 13, offset: 92680},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2914, col: 18, offset: 92281},
+																			pos: position{line: 2926, col: 18, offset: 92685},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2914, col: 18, offset: 92281},
+																				pos:        position{line: 2926, col: 18, offset: 92685},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92448},
+														pos: position{line: 2934, col: 10, offset: 92852},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92448},
+															pos:        position{line: 2934, col: 10, offset: 92852},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92448},
+														pos: position{line: 2934, col: 10, offset: 92852},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92448},
+															pos:        position{line: 2934, col: 10, offset: 92852},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1069,22 +1069,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 658, col: 5, offset: 21001},
+																				pos: position{line: 670, col: 5, offset: 21405},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 658, col: 5, offset: 21001},
+																						pos: position{line: 670, col: 5, offset: 21405},
 																						run: (*parser).callonDocumentRawLine216,
 																						expr: &seqExpr{
-																							pos: position{line: 658, col: 5, offset: 21001},
+																							pos: position{line: 670, col: 5, offset: 21405},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 658, col: 5, offset: 21001},
+																									pos:        position{line: 670, col: 5, offset: 21405},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 658, col: 13, offset: 21009},
+																									pos:   position{line: 670, col: 13, offset: 21413},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -1116,7 +1116,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 658, col: 32, offset: 21028},
+																									pos:        position{line: 670, col: 32, offset: 21432},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1125,19 +1125,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 665, col: 5, offset: 21269},
+																						pos: position{line: 677, col: 5, offset: 21673},
 																						run: (*parser).callonDocumentRawLine226,
 																						expr: &seqExpr{
-																							pos: position{line: 665, col: 5, offset: 21269},
+																							pos: position{line: 677, col: 5, offset: 21673},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 665, col: 5, offset: 21269},
+																									pos:        position{line: 677, col: 5, offset: 21673},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 665, col: 9, offset: 21273},
+																									pos:   position{line: 677, col: 9, offset: 21677},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -1169,7 +1169,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 665, col: 28, offset: 21292},
+																									pos:        position{line: 677, col: 28, offset: 21696},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1205,22 +1205,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 658, col: 5, offset: 21001},
+																				pos: position{line: 670, col: 5, offset: 21405},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 658, col: 5, offset: 21001},
+																						pos: position{line: 670, col: 5, offset: 21405},
 																						run: (*parser).callonDocumentRawLine242,
 																						expr: &seqExpr{
-																							pos: position{line: 658, col: 5, offset: 21001},
+																							pos: position{line: 670, col: 5, offset: 21405},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 658, col: 5, offset: 21001},
+																									pos:        position{line: 670, col: 5, offset: 21405},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 658, col: 13, offset: 21009},
+																									pos:   position{line: 670, col: 13, offset: 21413},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -1252,7 +1252,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 658, col: 32, offset: 21028},
+																									pos:        position{line: 670, col: 32, offset: 21432},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1261,19 +1261,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 665, col: 5, offset: 21269},
+																						pos: position{line: 677, col: 5, offset: 21673},
 																						run: (*parser).callonDocumentRawLine252,
 																						expr: &seqExpr{
-																							pos: position{line: 665, col: 5, offset: 21269},
+																							pos: position{line: 677, col: 5, offset: 21673},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 665, col: 5, offset: 21269},
+																									pos:        position{line: 677, col: 5, offset: 21673},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 665, col: 9, offset: 21273},
+																									pos:   position{line: 677, col: 9, offset: 21677},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -1305,7 +1305,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 665, col: 28, offset: 21292},
+																									pos:        position{line: 677, col: 28, offset: 21696},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1332,22 +1332,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 658, col: 5, offset: 21001},
+																		pos: position{line: 670, col: 5, offset: 21405},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 658, col: 5, offset: 21001},
+																				pos: position{line: 670, col: 5, offset: 21405},
 																				run: (*parser).callonDocumentRawLine266,
 																				expr: &seqExpr{
-																					pos: position{line: 658, col: 5, offset: 21001},
+																					pos: position{line: 670, col: 5, offset: 21405},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 658, col: 5, offset: 21001},
+																							pos:        position{line: 670, col: 5, offset: 21405},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 658, col: 13, offset: 21009},
+																							pos:   position{line: 670, col: 13, offset: 21413},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -1379,7 +1379,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 658, col: 32, offset: 21028},
+																							pos:        position{line: 670, col: 32, offset: 21432},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1388,19 +1388,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 665, col: 5, offset: 21269},
+																				pos: position{line: 677, col: 5, offset: 21673},
 																				run: (*parser).callonDocumentRawLine276,
 																				expr: &seqExpr{
-																					pos: position{line: 665, col: 5, offset: 21269},
+																					pos: position{line: 677, col: 5, offset: 21673},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 665, col: 5, offset: 21269},
+																							pos:        position{line: 677, col: 5, offset: 21673},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 665, col: 9, offset: 21273},
+																							pos:   position{line: 677, col: 9, offset: 21677},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -1432,7 +1432,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 665, col: 28, offset: 21292},
+																							pos:        position{line: 677, col: 28, offset: 21696},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2914, col: 12, offset: 92275},
+																pos: position{line: 2926, col: 12, offset: 92679},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2914, col: 13, offset: 92276},
+																	pos: position{line: 2926, col: 13, offset: 92680},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2914, col: 13, offset: 92276},
+																			pos: position{line: 2926, col: 13, offset: 92680},
 																			expr: &litMatcher{
-																				pos:        position{line: 2914, col: 13, offset: 92276},
+																				pos:        position{line: 2926, col: 13, offset: 92680},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2914, col: 18, offset: 92281},
+																			pos: position{line: 2926, col: 18, offset: 92685},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2914, col: 18, offset: 92281},
+																				pos:        position{line: 2926, col: 18, offset: 92685},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92448},
+														pos: position{line: 2934, col: 10, offset: 92852},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92448},
+															pos:        position{line: 2934, col: 10, offset: 92852},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92796},
+													pos: position{line: 2953, col: 8, offset: 93200},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92797,
+														line: 2953, col: 9, offset: 93201,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92448},
+														pos: position{line: 2934, col: 10, offset: 92852},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92448},
+															pos:        position{line: 2934, col: 10, offset: 92852},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,24 +1665,24 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92796},
+													pos: position{line: 2953, col: 8, offset: 93200},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92797,
+														line: 2953, col: 9, offset: 93201,
 													},
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 737, col: 5, offset: 23726},
+										pos: position{line: 749, col: 5, offset: 24130},
 										run: (*parser).callonDocumentRawLine334,
 										expr: &seqExpr{
-											pos: position{line: 737, col: 5, offset: 23726},
+											pos: position{line: 749, col: 5, offset: 24130},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 737, col: 5, offset: 23726},
+													pos: position{line: 749, col: 5, offset: 24130},
 													expr: &charClassMatcher{
-														pos:        position{line: 2812, col: 13, offset: 89543},
+														pos:        position{line: 2824, col: 13, offset: 89947},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1690,36 +1690,36 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 738, col: 5, offset: 23756},
+													pos:   position{line: 750, col: 5, offset: 24160},
 													label: "delimiter",
 													expr: &choiceExpr{
-														pos: position{line: 739, col: 9, offset: 23776},
+														pos: position{line: 751, col: 9, offset: 24180},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 753, col: 5, offset: 24268},
+																pos: position{line: 765, col: 5, offset: 24672},
 																run: (*parser).callonDocumentRawLine340,
 																expr: &seqExpr{
-																	pos: position{line: 753, col: 5, offset: 24268},
+																	pos: position{line: 765, col: 5, offset: 24672},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 753, col: 5, offset: 24268},
+																			pos:   position{line: 765, col: 5, offset: 24672},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 753, col: 16, offset: 24279},
+																				pos: position{line: 765, col: 16, offset: 24683},
 																				run: (*parser).callonDocumentRawLine343,
 																				expr: &seqExpr{
-																					pos: position{line: 753, col: 16, offset: 24279},
+																					pos: position{line: 765, col: 16, offset: 24683},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 753, col: 16, offset: 24279},
+																							pos:        position{line: 765, col: 16, offset: 24683},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 753, col: 23, offset: 24286},
+																							pos: position{line: 765, col: 23, offset: 24690},
 																							expr: &litMatcher{
-																								pos:        position{line: 753, col: 23, offset: 24286},
+																								pos:        position{line: 765, col: 23, offset: 24690},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -1730,12 +1730,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 755, col: 8, offset: 24370},
+																			pos: position{line: 767, col: 8, offset: 24774},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92448},
+																				pos: position{line: 2934, col: 10, offset: 92852},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92448},
+																					pos:        position{line: 2934, col: 10, offset: 92852},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92846},
+																			pos: position{line: 2956, col: 8, offset: 93250},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92619},
+																					pos: position{line: 2943, col: 12, offset: 93023},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92620},
+																						pos: position{line: 2943, col: 13, offset: 93024},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92620},
+																								pos:        position{line: 2943, col: 13, offset: 93024},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92627},
+																								pos:        position{line: 2943, col: 20, offset: 93031},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92636},
+																								pos:        position{line: 2943, col: 29, offset: 93040},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
@@ -1785,30 +1785,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 760, col: 5, offset: 24516},
+																pos: position{line: 772, col: 5, offset: 24920},
 																run: (*parser).callonDocumentRawLine359,
 																expr: &seqExpr{
-																	pos: position{line: 760, col: 5, offset: 24516},
+																	pos: position{line: 772, col: 5, offset: 24920},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 760, col: 5, offset: 24516},
+																			pos:   position{line: 772, col: 5, offset: 24920},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 760, col: 16, offset: 24527},
+																				pos: position{line: 772, col: 16, offset: 24931},
 																				run: (*parser).callonDocumentRawLine362,
 																				expr: &seqExpr{
-																					pos: position{line: 760, col: 16, offset: 24527},
+																					pos: position{line: 772, col: 16, offset: 24931},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 760, col: 16, offset: 24527},
+																							pos:        position{line: 772, col: 16, offset: 24931},
 																							val:        "====",
 																							ignoreCase: false,
 																							want:       "\"====\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 760, col: 23, offset: 24534},
+																							pos: position{line: 772, col: 23, offset: 24938},
 																							expr: &litMatcher{
-																								pos:        position{line: 760, col: 23, offset: 24534},
+																								pos:        position{line: 772, col: 23, offset: 24938},
 																								val:        "=",
 																								ignoreCase: false,
 																								want:       "\"=\"",
@@ -1819,12 +1819,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 762, col: 8, offset: 24618},
+																			pos: position{line: 774, col: 8, offset: 25022},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92448},
+																				pos: position{line: 2934, col: 10, offset: 92852},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92448},
+																					pos:        position{line: 2934, col: 10, offset: 92852},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92846},
+																			pos: position{line: 2956, col: 8, offset: 93250},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92619},
+																					pos: position{line: 2943, col: 12, offset: 93023},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92620},
+																						pos: position{line: 2943, col: 13, offset: 93024},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92620},
+																								pos:        position{line: 2943, col: 13, offset: 93024},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92627},
+																								pos:        position{line: 2943, col: 20, offset: 93031},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92636},
+																								pos:        position{line: 2943, col: 29, offset: 93040},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
@@ -1874,27 +1874,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 773, col: 26, offset: 25004},
+																pos: position{line: 785, col: 26, offset: 25408},
 																run: (*parser).callonDocumentRawLine378,
 																expr: &seqExpr{
-																	pos: position{line: 773, col: 26, offset: 25004},
+																	pos: position{line: 785, col: 26, offset: 25408},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 773, col: 26, offset: 25004},
+																			pos:        position{line: 785, col: 26, offset: 25408},
 																			val:        "```",
 																			ignoreCase: false,
 																			want:       "\"```\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 773, col: 32, offset: 25010},
+																			pos:   position{line: 785, col: 32, offset: 25414},
 																			label: "language",
 																			expr: &actionExpr{
-																				pos: position{line: 777, col: 13, offset: 25140},
+																				pos: position{line: 789, col: 13, offset: 25544},
 																				run: (*parser).callonDocumentRawLine382,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 777, col: 14, offset: 25141},
+																					pos: position{line: 789, col: 14, offset: 25545},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 777, col: 14, offset: 25141},
+																						pos:        position{line: 789, col: 14, offset: 25545},
 																						val:        "[^\\r\\n` ]",
 																						chars:      []rune{'\r', '\n', '`', ' '},
 																						ignoreCase: false,
@@ -1904,12 +1904,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 773, col: 52, offset: 25030},
+																			pos: position{line: 785, col: 52, offset: 25434},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92448},
+																				pos: position{line: 2934, col: 10, offset: 92852},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92448},
+																					pos:        position{line: 2934, col: 10, offset: 92852},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92846},
+																			pos: position{line: 2956, col: 8, offset: 93250},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92619},
+																					pos: position{line: 2943, col: 12, offset: 93023},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92620},
+																						pos: position{line: 2943, col: 13, offset: 93024},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92620},
+																								pos:        position{line: 2943, col: 13, offset: 93024},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92627},
+																								pos:        position{line: 2943, col: 20, offset: 93031},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92636},
+																								pos:        position{line: 2943, col: 29, offset: 93040},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
@@ -1959,30 +1959,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 767, col: 5, offset: 24763},
+																pos: position{line: 779, col: 5, offset: 25167},
 																run: (*parser).callonDocumentRawLine396,
 																expr: &seqExpr{
-																	pos: position{line: 767, col: 5, offset: 24763},
+																	pos: position{line: 779, col: 5, offset: 25167},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 767, col: 5, offset: 24763},
+																			pos:   position{line: 779, col: 5, offset: 25167},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 767, col: 16, offset: 24774},
+																				pos: position{line: 779, col: 16, offset: 25178},
 																				run: (*parser).callonDocumentRawLine399,
 																				expr: &seqExpr{
-																					pos: position{line: 767, col: 16, offset: 24774},
+																					pos: position{line: 779, col: 16, offset: 25178},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 767, col: 16, offset: 24774},
+																							pos:        position{line: 779, col: 16, offset: 25178},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 767, col: 22, offset: 24780},
+																							pos: position{line: 779, col: 22, offset: 25184},
 																							expr: &litMatcher{
-																								pos:        position{line: 767, col: 22, offset: 24780},
+																								pos:        position{line: 779, col: 22, offset: 25184},
 																								val:        "`",
 																								ignoreCase: false,
 																								want:       "\"`\"",
@@ -1993,12 +1993,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 769, col: 8, offset: 24864},
+																			pos: position{line: 781, col: 8, offset: 25268},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92448},
+																				pos: position{line: 2934, col: 10, offset: 92852},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92448},
+																					pos:        position{line: 2934, col: 10, offset: 92852},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92846},
+																			pos: position{line: 2956, col: 8, offset: 93250},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92619},
+																					pos: position{line: 2943, col: 12, offset: 93023},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92620},
+																						pos: position{line: 2943, col: 13, offset: 93024},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92620},
+																								pos:        position{line: 2943, col: 13, offset: 93024},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92627},
+																								pos:        position{line: 2943, col: 20, offset: 93031},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92636},
+																								pos:        position{line: 2943, col: 29, offset: 93040},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
@@ -2048,30 +2048,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 782, col: 5, offset: 25300},
+																pos: position{line: 794, col: 5, offset: 25704},
 																run: (*parser).callonDocumentRawLine415,
 																expr: &seqExpr{
-																	pos: position{line: 782, col: 5, offset: 25300},
+																	pos: position{line: 794, col: 5, offset: 25704},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 782, col: 5, offset: 25300},
+																			pos:   position{line: 794, col: 5, offset: 25704},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 782, col: 16, offset: 25311},
+																				pos: position{line: 794, col: 16, offset: 25715},
 																				run: (*parser).callonDocumentRawLine418,
 																				expr: &seqExpr{
-																					pos: position{line: 782, col: 16, offset: 25311},
+																					pos: position{line: 794, col: 16, offset: 25715},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 782, col: 16, offset: 25311},
+																							pos:        position{line: 794, col: 16, offset: 25715},
 																							val:        "----",
 																							ignoreCase: false,
 																							want:       "\"----\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 782, col: 23, offset: 25318},
+																							pos: position{line: 794, col: 23, offset: 25722},
 																							expr: &litMatcher{
-																								pos:        position{line: 782, col: 23, offset: 25318},
+																								pos:        position{line: 794, col: 23, offset: 25722},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
@@ -2082,12 +2082,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 784, col: 8, offset: 25402},
+																			pos: position{line: 796, col: 8, offset: 25806},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92448},
+																				pos: position{line: 2934, col: 10, offset: 92852},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92448},
+																					pos:        position{line: 2934, col: 10, offset: 92852},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92846},
+																			pos: position{line: 2956, col: 8, offset: 93250},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92619},
+																					pos: position{line: 2943, col: 12, offset: 93023},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92620},
+																						pos: position{line: 2943, col: 13, offset: 93024},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92620},
+																								pos:        position{line: 2943, col: 13, offset: 93024},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92627},
+																								pos:        position{line: 2943, col: 20, offset: 93031},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92636},
+																								pos:        position{line: 2943, col: 29, offset: 93040},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
@@ -2137,30 +2137,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 796, col: 5, offset: 25776},
+																pos: position{line: 808, col: 5, offset: 26180},
 																run: (*parser).callonDocumentRawLine434,
 																expr: &seqExpr{
-																	pos: position{line: 796, col: 5, offset: 25776},
+																	pos: position{line: 808, col: 5, offset: 26180},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 796, col: 5, offset: 25776},
+																			pos:   position{line: 808, col: 5, offset: 26180},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 796, col: 16, offset: 25787},
+																				pos: position{line: 808, col: 16, offset: 26191},
 																				run: (*parser).callonDocumentRawLine437,
 																				expr: &seqExpr{
-																					pos: position{line: 796, col: 16, offset: 25787},
+																					pos: position{line: 808, col: 16, offset: 26191},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 796, col: 16, offset: 25787},
+																							pos:        position{line: 808, col: 16, offset: 26191},
 																							val:        "....",
 																							ignoreCase: false,
 																							want:       "\"....\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 796, col: 23, offset: 25794},
+																							pos: position{line: 808, col: 23, offset: 26198},
 																							expr: &litMatcher{
-																								pos:        position{line: 796, col: 23, offset: 25794},
+																								pos:        position{line: 808, col: 23, offset: 26198},
 																								val:        ".",
 																								ignoreCase: false,
 																								want:       "\".\"",
@@ -2171,12 +2171,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 798, col: 8, offset: 25878},
+																			pos: position{line: 810, col: 8, offset: 26282},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92448},
+																				pos: position{line: 2934, col: 10, offset: 92852},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92448},
+																					pos:        position{line: 2934, col: 10, offset: 92852},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92846},
+																			pos: position{line: 2956, col: 8, offset: 93250},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92619},
+																					pos: position{line: 2943, col: 12, offset: 93023},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92620},
+																						pos: position{line: 2943, col: 13, offset: 93024},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92620},
+																								pos:        position{line: 2943, col: 13, offset: 93024},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92627},
+																								pos:        position{line: 2943, col: 20, offset: 93031},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92636},
+																								pos:        position{line: 2943, col: 29, offset: 93040},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
@@ -2226,30 +2226,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 803, col: 5, offset: 26028},
+																pos: position{line: 815, col: 5, offset: 26432},
 																run: (*parser).callonDocumentRawLine453,
 																expr: &seqExpr{
-																	pos: position{line: 803, col: 5, offset: 26028},
+																	pos: position{line: 815, col: 5, offset: 26432},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 803, col: 5, offset: 26028},
+																			pos:   position{line: 815, col: 5, offset: 26432},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 803, col: 16, offset: 26039},
+																				pos: position{line: 815, col: 16, offset: 26443},
 																				run: (*parser).callonDocumentRawLine456,
 																				expr: &seqExpr{
-																					pos: position{line: 803, col: 16, offset: 26039},
+																					pos: position{line: 815, col: 16, offset: 26443},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 803, col: 16, offset: 26039},
+																							pos:        position{line: 815, col: 16, offset: 26443},
 																							val:        "++++",
 																							ignoreCase: false,
 																							want:       "\"++++\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 803, col: 23, offset: 26046},
+																							pos: position{line: 815, col: 23, offset: 26450},
 																							expr: &litMatcher{
-																								pos:        position{line: 803, col: 23, offset: 26046},
+																								pos:        position{line: 815, col: 23, offset: 26450},
 																								val:        "+",
 																								ignoreCase: false,
 																								want:       "\"+\"",
@@ -2260,12 +2260,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 805, col: 8, offset: 26130},
+																			pos: position{line: 817, col: 8, offset: 26534},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92448},
+																				pos: position{line: 2934, col: 10, offset: 92852},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92448},
+																					pos:        position{line: 2934, col: 10, offset: 92852},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92846},
+																			pos: position{line: 2956, col: 8, offset: 93250},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92619},
+																					pos: position{line: 2943, col: 12, offset: 93023},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92620},
+																						pos: position{line: 2943, col: 13, offset: 93024},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92620},
+																								pos:        position{line: 2943, col: 13, offset: 93024},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92627},
+																								pos:        position{line: 2943, col: 20, offset: 93031},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92636},
+																								pos:        position{line: 2943, col: 29, offset: 93040},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
@@ -2315,30 +2315,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 810, col: 5, offset: 26278},
+																pos: position{line: 822, col: 5, offset: 26682},
 																run: (*parser).callonDocumentRawLine472,
 																expr: &seqExpr{
-																	pos: position{line: 810, col: 5, offset: 26278},
+																	pos: position{line: 822, col: 5, offset: 26682},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 810, col: 5, offset: 26278},
+																			pos:   position{line: 822, col: 5, offset: 26682},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 16, offset: 26289},
+																				pos: position{line: 822, col: 16, offset: 26693},
 																				run: (*parser).callonDocumentRawLine475,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 16, offset: 26289},
+																					pos: position{line: 822, col: 16, offset: 26693},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 810, col: 16, offset: 26289},
+																							pos:        position{line: 822, col: 16, offset: 26693},
 																							val:        "____",
 																							ignoreCase: false,
 																							want:       "\"____\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 810, col: 23, offset: 26296},
+																							pos: position{line: 822, col: 23, offset: 26700},
 																							expr: &litMatcher{
-																								pos:        position{line: 810, col: 23, offset: 26296},
+																								pos:        position{line: 822, col: 23, offset: 26700},
 																								val:        "_",
 																								ignoreCase: false,
 																								want:       "\"_\"",
@@ -2349,12 +2349,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 812, col: 8, offset: 26380},
+																			pos: position{line: 824, col: 8, offset: 26784},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92448},
+																				pos: position{line: 2934, col: 10, offset: 92852},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92448},
+																					pos:        position{line: 2934, col: 10, offset: 92852},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92846},
+																			pos: position{line: 2956, col: 8, offset: 93250},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92619},
+																					pos: position{line: 2943, col: 12, offset: 93023},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92620},
+																						pos: position{line: 2943, col: 13, offset: 93024},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92620},
+																								pos:        position{line: 2943, col: 13, offset: 93024},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92627},
+																								pos:        position{line: 2943, col: 20, offset: 93031},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92636},
+																								pos:        position{line: 2943, col: 29, offset: 93040},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
@@ -2404,30 +2404,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 817, col: 5, offset: 26524},
+																pos: position{line: 829, col: 5, offset: 26928},
 																run: (*parser).callonDocumentRawLine491,
 																expr: &seqExpr{
-																	pos: position{line: 817, col: 5, offset: 26524},
+																	pos: position{line: 829, col: 5, offset: 26928},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 817, col: 5, offset: 26524},
+																			pos:   position{line: 829, col: 5, offset: 26928},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 817, col: 16, offset: 26535},
+																				pos: position{line: 829, col: 16, offset: 26939},
 																				run: (*parser).callonDocumentRawLine494,
 																				expr: &seqExpr{
-																					pos: position{line: 817, col: 16, offset: 26535},
+																					pos: position{line: 829, col: 16, offset: 26939},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 817, col: 16, offset: 26535},
+																							pos:        position{line: 829, col: 16, offset: 26939},
 																							val:        "****",
 																							ignoreCase: false,
 																							want:       "\"****\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 817, col: 23, offset: 26542},
+																							pos: position{line: 829, col: 23, offset: 26946},
 																							expr: &litMatcher{
-																								pos:        position{line: 817, col: 23, offset: 26542},
+																								pos:        position{line: 829, col: 23, offset: 26946},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -2438,12 +2438,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 819, col: 8, offset: 26626},
+																			pos: position{line: 831, col: 8, offset: 27030},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92448},
+																				pos: position{line: 2934, col: 10, offset: 92852},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92448},
+																					pos:        position{line: 2934, col: 10, offset: 92852},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92846},
+																			pos: position{line: 2956, col: 8, offset: 93250},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92619},
+																					pos: position{line: 2943, col: 12, offset: 93023},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92620},
+																						pos: position{line: 2943, col: 13, offset: 93024},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92620},
+																								pos:        position{line: 2943, col: 13, offset: 93024},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92627},
+																								pos:        position{line: 2943, col: 20, offset: 93031},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92636},
+																								pos:        position{line: 2943, col: 29, offset: 93040},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2926, col: 11, offset: 92509},
+													pos: position{line: 2938, col: 11, offset: 92913},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2926, col: 11, offset: 92509},
+														pos: position{line: 2938, col: 11, offset: 92913},
 														expr: &charClassMatcher{
-															pos:        position{line: 2926, col: 11, offset: 92509},
+															pos:        position{line: 2938, col: 11, offset: 92913},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2872, col: 14, offset: 91041},
+													pos: position{line: 2884, col: 14, offset: 91445},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2872, col: 14, offset: 91041},
+														pos: position{line: 2884, col: 14, offset: 91445},
 														expr: &charClassMatcher{
-															pos:        position{line: 2872, col: 14, offset: 91041},
+															pos:        position{line: 2884, col: 14, offset: 91445},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92796},
+													pos: position{line: 2953, col: 8, offset: 93200},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92797,
+														line: 2953, col: 9, offset: 93201,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92796},
+							pos: position{line: 2953, col: 8, offset: 93200},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92797,
+								line: 2953, col: 9, offset: 93201,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2876, col: 17, offset: 91111},
+												pos: position{line: 2888, col: 17, offset: 91515},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2876, col: 17, offset: 91111},
+													pos:   position{line: 2888, col: 17, offset: 91515},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2893, col: 5, offset: 91565},
+														pos: position{line: 2905, col: 5, offset: 91969},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2893, col: 5, offset: 91565},
+															pos:   position{line: 2905, col: 5, offset: 91969},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2893, col: 14, offset: 91574},
+																pos: position{line: 2905, col: 14, offset: 91978},
 																expr: &choiceExpr{
-																	pos: position{line: 2894, col: 9, offset: 91584},
+																	pos: position{line: 2906, col: 9, offset: 91988},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2894, col: 9, offset: 91584},
+																			pos: position{line: 2906, col: 9, offset: 91988},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2894, col: 9, offset: 91584},
+																				pos: position{line: 2906, col: 9, offset: 91988},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2894, col: 9, offset: 91584},
+																						pos: position{line: 2906, col: 9, offset: 91988},
 																						expr: &litMatcher{
-																							pos:        position{line: 2894, col: 10, offset: 91585},
+																							pos:        position{line: 2906, col: 10, offset: 91989},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2895, col: 9, offset: 91613},
+																						pos: position{line: 2907, col: 9, offset: 92017},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2895, col: 10, offset: 91614},
+																							pos:        position{line: 2907, col: 10, offset: 92018},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2898, col: 11, offset: 91826},
+																			pos: position{line: 2910, col: 11, offset: 92230},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2898, col: 11, offset: 91826},
+																					pos:        position{line: 2910, col: 11, offset: 92230},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2898, col: 19, offset: 91834},
+																					pos: position{line: 2910, col: 19, offset: 92238},
 																					expr: &seqExpr{
-																						pos: position{line: 2898, col: 21, offset: 91836},
+																						pos: position{line: 2910, col: 21, offset: 92240},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2898, col: 21, offset: 91836},
+																								pos: position{line: 2910, col: 21, offset: 92240},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92448},
+																									pos: position{line: 2934, col: 10, offset: 92852},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92448},
+																										pos:        position{line: 2934, col: 10, offset: 92852},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2898, col: 28, offset: 91843},
+																								pos: position{line: 2910, col: 28, offset: 92247},
 																								expr: &notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -2699,35 +2699,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 649, col: 5, offset: 20791},
+																			pos: position{line: 661, col: 5, offset: 21195},
 																			run: (*parser).callonFileInclusion30,
 																			expr: &seqExpr{
-																				pos: position{line: 649, col: 5, offset: 20791},
+																				pos: position{line: 661, col: 5, offset: 21195},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 649, col: 5, offset: 20791},
+																						pos: position{line: 661, col: 5, offset: 21195},
 																						run: (*parser).callonFileInclusion32,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 652, col: 5, offset: 20863},
+																						pos:   position{line: 664, col: 5, offset: 21267},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 652, col: 14, offset: 20872},
+																							pos: position{line: 664, col: 14, offset: 21276},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 658, col: 5, offset: 21001},
+																									pos: position{line: 670, col: 5, offset: 21405},
 																									run: (*parser).callonFileInclusion35,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 5, offset: 21001},
+																										pos: position{line: 670, col: 5, offset: 21405},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 5, offset: 21001},
+																												pos:        position{line: 670, col: 5, offset: 21405},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 13, offset: 21009},
+																												pos:   position{line: 670, col: 13, offset: 21413},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -2759,7 +2759,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 32, offset: 21028},
+																												pos:        position{line: 670, col: 32, offset: 21432},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2768,19 +2768,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 5, offset: 21269},
+																									pos: position{line: 677, col: 5, offset: 21673},
 																									run: (*parser).callonFileInclusion45,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 5, offset: 21269},
+																										pos: position{line: 677, col: 5, offset: 21673},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 5, offset: 21269},
+																												pos:        position{line: 677, col: 5, offset: 21673},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 9, offset: 21273},
+																												pos:   position{line: 677, col: 9, offset: 21677},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -2812,7 +2812,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 28, offset: 21292},
+																												pos:        position{line: 677, col: 28, offset: 21696},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2821,19 +2821,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 671, col: 25, offset: 21473},
+																									pos: position{line: 683, col: 25, offset: 21877},
 																									run: (*parser).callonFileInclusion55,
 																									expr: &seqExpr{
-																										pos: position{line: 671, col: 25, offset: 21473},
+																										pos: position{line: 683, col: 25, offset: 21877},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 671, col: 25, offset: 21473},
+																												pos:        position{line: 683, col: 25, offset: 21877},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 37, offset: 21485},
+																												pos:   position{line: 683, col: 37, offset: 21889},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -2865,33 +2865,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 56, offset: 21504},
+																												pos:   position{line: 683, col: 56, offset: 21908},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 671, col: 62, offset: 21510},
+																													pos: position{line: 683, col: 62, offset: 21914},
 																													expr: &actionExpr{
-																														pos: position{line: 679, col: 17, offset: 21807},
+																														pos: position{line: 691, col: 17, offset: 22211},
 																														run: (*parser).callonFileInclusion66,
 																														expr: &seqExpr{
-																															pos: position{line: 679, col: 17, offset: 21807},
+																															pos: position{line: 691, col: 17, offset: 22211},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 679, col: 17, offset: 21807},
+																																	pos:        position{line: 691, col: 17, offset: 22211},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 679, col: 21, offset: 21811},
+																																	pos:   position{line: 691, col: 21, offset: 22215},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 679, col: 28, offset: 21818},
+																																		pos: position{line: 691, col: 28, offset: 22222},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 679, col: 28, offset: 21818},
+																																				pos: position{line: 691, col: 28, offset: 22222},
 																																				run: (*parser).callonFileInclusion71,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 679, col: 28, offset: 21818},
+																																					pos:        position{line: 691, col: 28, offset: 22222},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -2899,12 +2899,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 681, col: 9, offset: 21872},
+																																				pos: position{line: 693, col: 9, offset: 22276},
 																																				run: (*parser).callonFileInclusion73,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 681, col: 9, offset: 21872},
+																																					pos: position{line: 693, col: 9, offset: 22276},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 681, col: 9, offset: 21872},
+																																						pos:        position{line: 693, col: 9, offset: 22276},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -2921,7 +2921,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 671, col: 78, offset: 21526},
+																												pos:        position{line: 683, col: 78, offset: 21930},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2930,19 +2930,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 675, col: 25, offset: 21644},
+																									pos: position{line: 687, col: 25, offset: 22048},
 																									run: (*parser).callonFileInclusion77,
 																									expr: &seqExpr{
-																										pos: position{line: 675, col: 25, offset: 21644},
+																										pos: position{line: 687, col: 25, offset: 22048},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 675, col: 25, offset: 21644},
+																												pos:        position{line: 687, col: 25, offset: 22048},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 675, col: 38, offset: 21657},
+																												pos:   position{line: 687, col: 38, offset: 22061},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -2974,33 +2974,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 675, col: 57, offset: 21676},
+																												pos:   position{line: 687, col: 57, offset: 22080},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 675, col: 63, offset: 21682},
+																													pos: position{line: 687, col: 63, offset: 22086},
 																													expr: &actionExpr{
-																														pos: position{line: 679, col: 17, offset: 21807},
+																														pos: position{line: 691, col: 17, offset: 22211},
 																														run: (*parser).callonFileInclusion88,
 																														expr: &seqExpr{
-																															pos: position{line: 679, col: 17, offset: 21807},
+																															pos: position{line: 691, col: 17, offset: 22211},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 679, col: 17, offset: 21807},
+																																	pos:        position{line: 691, col: 17, offset: 22211},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 679, col: 21, offset: 21811},
+																																	pos:   position{line: 691, col: 21, offset: 22215},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 679, col: 28, offset: 21818},
+																																		pos: position{line: 691, col: 28, offset: 22222},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 679, col: 28, offset: 21818},
+																																				pos: position{line: 691, col: 28, offset: 22222},
 																																				run: (*parser).callonFileInclusion93,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 679, col: 28, offset: 21818},
+																																					pos:        position{line: 691, col: 28, offset: 22222},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3008,12 +3008,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 681, col: 9, offset: 21872},
+																																				pos: position{line: 693, col: 9, offset: 22276},
 																																				run: (*parser).callonFileInclusion95,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 681, col: 9, offset: 21872},
+																																					pos: position{line: 693, col: 9, offset: 22276},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 681, col: 9, offset: 21872},
+																																						pos:        position{line: 693, col: 9, offset: 22276},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3030,7 +3030,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 675, col: 79, offset: 21698},
+																												pos:        position{line: 687, col: 79, offset: 22102},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -3045,27 +3045,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1211, col: 23, offset: 37656},
+																			pos: position{line: 1223, col: 23, offset: 38060},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1211, col: 23, offset: 37656},
+																				pos: position{line: 1223, col: 23, offset: 38060},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1209, col: 32, offset: 37624},
+																						pos:        position{line: 1221, col: 32, offset: 38028},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1211, col: 51, offset: 37684},
+																						pos:   position{line: 1223, col: 51, offset: 38088},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1211, col: 56, offset: 37689},
+																							pos: position{line: 1223, col: 56, offset: 38093},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1211, col: 56, offset: 37689},
+																								pos: position{line: 1223, col: 56, offset: 38093},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1211, col: 56, offset: 37689},
+																									pos:        position{line: 1223, col: 56, offset: 38093},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3075,23 +3075,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1209, col: 32, offset: 37624},
+																						pos:        position{line: 1221, col: 32, offset: 38028},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1211, col: 123, offset: 37756},
+																						pos: position{line: 1223, col: 123, offset: 38160},
 																						run: (*parser).callonFileInclusion107,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2901, col: 11, offset: 91963},
+																			pos: position{line: 2913, col: 11, offset: 92367},
 																			run: (*parser).callonFileInclusion108,
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 11, offset: 91963},
+																				pos:        position{line: 2913, col: 11, offset: 92367},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3120,10 +3120,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92448},
+								pos: position{line: 2934, col: 10, offset: 92852},
 								run: (*parser).callonFileInclusion113,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92448},
+									pos:        position{line: 2934, col: 10, offset: 92852},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3132,28 +3132,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92846},
+							pos: position{line: 2956, col: 8, offset: 93250},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92619},
+									pos: position{line: 2943, col: 12, offset: 93023},
 									run: (*parser).callonFileInclusion116,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92620},
+										pos: position{line: 2943, col: 13, offset: 93024},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92620},
+												pos:        position{line: 2943, col: 13, offset: 93024},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92627},
+												pos:        position{line: 2943, col: 20, offset: 93031},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92636},
+												pos:        position{line: 2943, col: 29, offset: 93040},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3162,9 +3162,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92796},
+									pos: position{line: 2953, col: 8, offset: 93200},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92797,
+										line: 2953, col: 9, offset: 93201,
 									},
 								},
 							},
@@ -3210,24 +3210,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92275},
+																				pos: position{line: 2926, col: 12, offset: 92679},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2914, col: 13, offset: 92276},
+																					pos: position{line: 2926, col: 13, offset: 92680},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2914, col: 13, offset: 92276},
+																							pos: position{line: 2926, col: 13, offset: 92680},
 																							expr: &litMatcher{
-																								pos:        position{line: 2914, col: 13, offset: 92276},
+																								pos:        position{line: 2926, col: 13, offset: 92680},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2914, col: 18, offset: 92281},
+																							pos: position{line: 2926, col: 18, offset: 92685},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2914, col: 18, offset: 92281},
+																								pos:        position{line: 2926, col: 18, offset: 92685},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3248,24 +3248,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92275},
+																				pos: position{line: 2926, col: 12, offset: 92679},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2914, col: 13, offset: 92276},
+																					pos: position{line: 2926, col: 13, offset: 92680},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2914, col: 13, offset: 92276},
+																							pos: position{line: 2926, col: 13, offset: 92680},
 																							expr: &litMatcher{
-																								pos:        position{line: 2914, col: 13, offset: 92276},
+																								pos:        position{line: 2926, col: 13, offset: 92680},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2914, col: 18, offset: 92281},
+																							pos: position{line: 2926, col: 18, offset: 92685},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2914, col: 18, offset: 92281},
+																								pos:        position{line: 2926, col: 18, offset: 92685},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3286,24 +3286,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2914, col: 12, offset: 92275},
+																		pos: position{line: 2926, col: 12, offset: 92679},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2914, col: 13, offset: 92276},
+																			pos: position{line: 2926, col: 13, offset: 92680},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2914, col: 13, offset: 92276},
+																					pos: position{line: 2926, col: 13, offset: 92680},
 																					expr: &litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92276},
+																						pos:        position{line: 2926, col: 13, offset: 92680},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2914, col: 18, offset: 92281},
+																					pos: position{line: 2926, col: 18, offset: 92685},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2914, col: 18, offset: 92281},
+																						pos:        position{line: 2926, col: 18, offset: 92685},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3352,24 +3352,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92275},
+																									pos: position{line: 2926, col: 12, offset: 92679},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2914, col: 13, offset: 92276},
+																										pos: position{line: 2926, col: 13, offset: 92680},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2914, col: 13, offset: 92276},
+																												pos: position{line: 2926, col: 13, offset: 92680},
 																												expr: &litMatcher{
-																													pos:        position{line: 2914, col: 13, offset: 92276},
+																													pos:        position{line: 2926, col: 13, offset: 92680},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2914, col: 18, offset: 92281},
+																												pos: position{line: 2926, col: 18, offset: 92685},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2914, col: 18, offset: 92281},
+																													pos:        position{line: 2926, col: 18, offset: 92685},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3390,24 +3390,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92275},
+																									pos: position{line: 2926, col: 12, offset: 92679},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2914, col: 13, offset: 92276},
+																										pos: position{line: 2926, col: 13, offset: 92680},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2914, col: 13, offset: 92276},
+																												pos: position{line: 2926, col: 13, offset: 92680},
 																												expr: &litMatcher{
-																													pos:        position{line: 2914, col: 13, offset: 92276},
+																													pos:        position{line: 2926, col: 13, offset: 92680},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2914, col: 18, offset: 92281},
+																												pos: position{line: 2926, col: 18, offset: 92685},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2914, col: 18, offset: 92281},
+																													pos:        position{line: 2926, col: 18, offset: 92685},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3428,24 +3428,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2914, col: 12, offset: 92275},
+																							pos: position{line: 2926, col: 12, offset: 92679},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2914, col: 13, offset: 92276},
+																								pos: position{line: 2926, col: 13, offset: 92680},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2914, col: 13, offset: 92276},
+																										pos: position{line: 2926, col: 13, offset: 92680},
 																										expr: &litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92276},
+																											pos:        position{line: 2926, col: 13, offset: 92680},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2914, col: 18, offset: 92281},
+																										pos: position{line: 2926, col: 18, offset: 92685},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2914, col: 18, offset: 92281},
+																											pos:        position{line: 2926, col: 18, offset: 92685},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3478,24 +3478,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2914, col: 12, offset: 92275},
+														pos: position{line: 2926, col: 12, offset: 92679},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2914, col: 13, offset: 92276},
+															pos: position{line: 2926, col: 13, offset: 92680},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2914, col: 13, offset: 92276},
+																	pos: position{line: 2926, col: 13, offset: 92680},
 																	expr: &litMatcher{
-																		pos:        position{line: 2914, col: 13, offset: 92276},
+																		pos:        position{line: 2926, col: 13, offset: 92680},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2914, col: 18, offset: 92281},
+																	pos: position{line: 2926, col: 18, offset: 92685},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2914, col: 18, offset: 92281},
+																		pos:        position{line: 2926, col: 18, offset: 92685},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3516,24 +3516,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2914, col: 12, offset: 92275},
+														pos: position{line: 2926, col: 12, offset: 92679},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2914, col: 13, offset: 92276},
+															pos: position{line: 2926, col: 13, offset: 92680},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2914, col: 13, offset: 92276},
+																	pos: position{line: 2926, col: 13, offset: 92680},
 																	expr: &litMatcher{
-																		pos:        position{line: 2914, col: 13, offset: 92276},
+																		pos:        position{line: 2926, col: 13, offset: 92680},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2914, col: 18, offset: 92281},
+																	pos: position{line: 2926, col: 18, offset: 92685},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2914, col: 18, offset: 92281},
+																		pos:        position{line: 2926, col: 18, offset: 92685},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3554,24 +3554,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2914, col: 12, offset: 92275},
+												pos: position{line: 2926, col: 12, offset: 92679},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2914, col: 13, offset: 92276},
+													pos: position{line: 2926, col: 13, offset: 92680},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2914, col: 13, offset: 92276},
+															pos: position{line: 2926, col: 13, offset: 92680},
 															expr: &litMatcher{
-																pos:        position{line: 2914, col: 13, offset: 92276},
+																pos:        position{line: 2926, col: 13, offset: 92680},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2914, col: 18, offset: 92281},
+															pos: position{line: 2926, col: 18, offset: 92685},
 															expr: &charClassMatcher{
-																pos:        position{line: 2914, col: 18, offset: 92281},
+																pos:        position{line: 2926, col: 18, offset: 92685},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3587,9 +3587,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92796},
+							pos: position{line: 2953, col: 8, offset: 93200},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92797,
+								line: 2953, col: 9, offset: 93201,
 							},
 						},
 					},
@@ -3630,12 +3630,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2816, col: 14, offset: 89617},
+																		pos: position{line: 2828, col: 14, offset: 90021},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2816, col: 14, offset: 89617},
+																			pos: position{line: 2828, col: 14, offset: 90021},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2816, col: 14, offset: 89617},
+																				pos:        position{line: 2828, col: 14, offset: 90021},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3696,12 +3696,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2816, col: 14, offset: 89617},
+																				pos: position{line: 2828, col: 14, offset: 90021},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2816, col: 14, offset: 89617},
+																					pos: position{line: 2828, col: 14, offset: 90021},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2816, col: 14, offset: 89617},
+																						pos:        position{line: 2828, col: 14, offset: 90021},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3782,12 +3782,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2816, col: 14, offset: 89617},
+																							pos: position{line: 2828, col: 14, offset: 90021},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2816, col: 14, offset: 89617},
+																								pos: position{line: 2828, col: 14, offset: 90021},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2816, col: 14, offset: 89617},
+																									pos:        position{line: 2828, col: 14, offset: 90021},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3848,12 +3848,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2816, col: 14, offset: 89617},
+																									pos: position{line: 2828, col: 14, offset: 90021},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2816, col: 14, offset: 89617},
+																										pos: position{line: 2828, col: 14, offset: 90021},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2816, col: 14, offset: 89617},
+																											pos:        position{line: 2828, col: 14, offset: 90021},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3910,9 +3910,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92796},
+							pos: position{line: 2953, col: 8, offset: 93200},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92797,
+								line: 2953, col: 9, offset: 93201,
 							},
 						},
 					},
@@ -3955,12 +3955,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2816, col: 14, offset: 89617},
+																pos: position{line: 2828, col: 14, offset: 90021},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2816, col: 14, offset: 89617},
+																	pos: position{line: 2828, col: 14, offset: 90021},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2816, col: 14, offset: 89617},
+																		pos:        position{line: 2828, col: 14, offset: 90021},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3998,12 +3998,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2816, col: 14, offset: 89617},
+																pos: position{line: 2828, col: 14, offset: 90021},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2816, col: 14, offset: 89617},
+																	pos: position{line: 2828, col: 14, offset: 90021},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2816, col: 14, offset: 89617},
+																		pos:        position{line: 2828, col: 14, offset: 90021},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4034,28 +4034,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92846},
+							pos: position{line: 2956, col: 8, offset: 93250},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92619},
+									pos: position{line: 2943, col: 12, offset: 93023},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92620},
+										pos: position{line: 2943, col: 13, offset: 93024},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92620},
+												pos:        position{line: 2943, col: 13, offset: 93024},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92627},
+												pos:        position{line: 2943, col: 20, offset: 93031},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92636},
+												pos:        position{line: 2943, col: 29, offset: 93040},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4064,9 +4064,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92796},
+									pos: position{line: 2953, col: 8, offset: 93200},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92797,
+										line: 2953, col: 9, offset: 93201,
 									},
 								},
 							},
@@ -4085,9 +4085,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92782},
+							pos: position{line: 2951, col: 11, offset: 93186},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92784,
+								line: 2951, col: 13, offset: 93188,
 							},
 						},
 						&labeledExpr{
@@ -4182,10 +4182,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 49, offset: 11042},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92448},
+															pos: position{line: 2934, col: 10, offset: 92852},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92448},
+																pos:        position{line: 2934, col: 10, offset: 92852},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4194,28 +4194,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92846},
+														pos: position{line: 2956, col: 8, offset: 93250},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92619},
+																pos: position{line: 2943, col: 12, offset: 93023},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92620},
+																	pos: position{line: 2943, col: 13, offset: 93024},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92620},
+																			pos:        position{line: 2943, col: 13, offset: 93024},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92627},
+																			pos:        position{line: 2943, col: 20, offset: 93031},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92636},
+																			pos:        position{line: 2943, col: 29, offset: 93040},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4224,9 +4224,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92796},
+																pos: position{line: 2953, col: 8, offset: 93200},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92797,
+																	line: 2953, col: 9, offset: 93201,
 																},
 															},
 														},
@@ -4287,10 +4287,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 364, col: 39, offset: 11163},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92448},
+															pos: position{line: 2934, col: 10, offset: 92852},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92448},
+																pos:        position{line: 2934, col: 10, offset: 92852},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4299,28 +4299,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92846},
+														pos: position{line: 2956, col: 8, offset: 93250},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92619},
+																pos: position{line: 2943, col: 12, offset: 93023},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92620},
+																	pos: position{line: 2943, col: 13, offset: 93024},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92620},
+																			pos:        position{line: 2943, col: 13, offset: 93024},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92627},
+																			pos:        position{line: 2943, col: 20, offset: 93031},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92636},
+																			pos:        position{line: 2943, col: 29, offset: 93040},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4329,9 +4329,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92796},
+																pos: position{line: 2953, col: 8, offset: 93200},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92797,
+																	line: 2953, col: 9, offset: 93201,
 																},
 															},
 														},
@@ -4340,24 +4340,24 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 690, col: 14, offset: 22173},
+											pos: position{line: 702, col: 14, offset: 22577},
 											run: (*parser).callonDocumentFragment58,
 											expr: &seqExpr{
-												pos: position{line: 690, col: 14, offset: 22173},
+												pos: position{line: 702, col: 14, offset: 22577},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2939, col: 11, offset: 92782},
+														pos: position{line: 2951, col: 11, offset: 93186},
 														expr: &anyMatcher{
-															line: 2939, col: 13, offset: 92784,
+															line: 2951, col: 13, offset: 93188,
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 690, col: 21, offset: 22180},
+														pos: position{line: 702, col: 21, offset: 22584},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92448},
+															pos: position{line: 2934, col: 10, offset: 92852},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92448},
+																pos:        position{line: 2934, col: 10, offset: 92852},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4366,28 +4366,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92846},
+														pos: position{line: 2956, col: 8, offset: 93250},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92619},
+																pos: position{line: 2943, col: 12, offset: 93023},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92620},
+																	pos: position{line: 2943, col: 13, offset: 93024},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92620},
+																			pos:        position{line: 2943, col: 13, offset: 93024},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92627},
+																			pos:        position{line: 2943, col: 20, offset: 93031},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92636},
+																			pos:        position{line: 2943, col: 29, offset: 93040},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4396,9 +4396,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92796},
+																pos: position{line: 2953, col: 8, offset: 93200},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92797,
+																	line: 2953, col: 9, offset: 93201,
 																},
 															},
 														},
@@ -4415,36 +4415,36 @@ var g = &grammar{
 											name: "Section",
 										},
 										&actionExpr{
-											pos: position{line: 833, col: 5, offset: 27008},
+											pos: position{line: 845, col: 5, offset: 27412},
 											run: (*parser).callonDocumentFragment75,
 											expr: &seqExpr{
-												pos: position{line: 833, col: 5, offset: 27008},
+												pos: position{line: 845, col: 5, offset: 27412},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 753, col: 5, offset: 24268},
+														pos: position{line: 765, col: 5, offset: 24672},
 														run: (*parser).callonDocumentFragment77,
 														expr: &seqExpr{
-															pos: position{line: 753, col: 5, offset: 24268},
+															pos: position{line: 765, col: 5, offset: 24672},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 753, col: 5, offset: 24268},
+																	pos:   position{line: 765, col: 5, offset: 24672},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 753, col: 16, offset: 24279},
+																		pos: position{line: 765, col: 16, offset: 24683},
 																		run: (*parser).callonDocumentFragment80,
 																		expr: &seqExpr{
-																			pos: position{line: 753, col: 16, offset: 24279},
+																			pos: position{line: 765, col: 16, offset: 24683},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 753, col: 16, offset: 24279},
+																					pos:        position{line: 765, col: 16, offset: 24683},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 753, col: 23, offset: 24286},
+																					pos: position{line: 765, col: 23, offset: 24690},
 																					expr: &litMatcher{
-																						pos:        position{line: 753, col: 23, offset: 24286},
+																						pos:        position{line: 765, col: 23, offset: 24690},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -4455,12 +4455,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 755, col: 8, offset: 24370},
+																	pos: position{line: 767, col: 8, offset: 24774},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92448},
+																		pos: position{line: 2934, col: 10, offset: 92852},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92448},
+																			pos:        position{line: 2934, col: 10, offset: 92852},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4469,28 +4469,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92846},
+																	pos: position{line: 2956, col: 8, offset: 93250},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92619},
+																			pos: position{line: 2943, col: 12, offset: 93023},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92620},
+																				pos: position{line: 2943, col: 13, offset: 93024},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92620},
+																						pos:        position{line: 2943, col: 13, offset: 93024},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92627},
+																						pos:        position{line: 2943, col: 20, offset: 93031},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92636},
+																						pos:        position{line: 2943, col: 29, offset: 93040},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4499,9 +4499,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92796},
+																			pos: position{line: 2953, col: 8, offset: 93200},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92797,
+																				line: 2953, col: 9, offset: 93201,
 																			},
 																		},
 																	},
@@ -4510,46 +4510,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 834, col: 5, offset: 27039},
+														pos:   position{line: 846, col: 5, offset: 27443},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 844, col: 5, offset: 27325},
+															pos: position{line: 856, col: 5, offset: 27729},
 															expr: &actionExpr{
-																pos: position{line: 844, col: 6, offset: 27326},
+																pos: position{line: 856, col: 6, offset: 27730},
 																run: (*parser).callonDocumentFragment98,
 																expr: &seqExpr{
-																	pos: position{line: 844, col: 6, offset: 27326},
+																	pos: position{line: 856, col: 6, offset: 27730},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 844, col: 6, offset: 27326},
+																			pos: position{line: 856, col: 6, offset: 27730},
 																			expr: &choiceExpr{
-																				pos: position{line: 841, col: 29, offset: 27268},
+																				pos: position{line: 853, col: 29, offset: 27672},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 753, col: 5, offset: 24268},
+																						pos: position{line: 765, col: 5, offset: 24672},
 																						run: (*parser).callonDocumentFragment102,
 																						expr: &seqExpr{
-																							pos: position{line: 753, col: 5, offset: 24268},
+																							pos: position{line: 765, col: 5, offset: 24672},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 753, col: 5, offset: 24268},
+																									pos:   position{line: 765, col: 5, offset: 24672},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 753, col: 16, offset: 24279},
+																										pos: position{line: 765, col: 16, offset: 24683},
 																										run: (*parser).callonDocumentFragment105,
 																										expr: &seqExpr{
-																											pos: position{line: 753, col: 16, offset: 24279},
+																											pos: position{line: 765, col: 16, offset: 24683},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 753, col: 16, offset: 24279},
+																													pos:        position{line: 765, col: 16, offset: 24683},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 753, col: 23, offset: 24286},
+																													pos: position{line: 765, col: 23, offset: 24690},
 																													expr: &litMatcher{
-																														pos:        position{line: 753, col: 23, offset: 24286},
+																														pos:        position{line: 765, col: 23, offset: 24690},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -4560,12 +4560,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 755, col: 8, offset: 24370},
+																									pos: position{line: 767, col: 8, offset: 24774},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92448},
+																										pos: position{line: 2934, col: 10, offset: 92852},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92448},
+																											pos:        position{line: 2934, col: 10, offset: 92852},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4574,28 +4574,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92846},
+																									pos: position{line: 2956, col: 8, offset: 93250},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92619},
+																											pos: position{line: 2943, col: 12, offset: 93023},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92620},
+																												pos: position{line: 2943, col: 13, offset: 93024},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92620},
+																														pos:        position{line: 2943, col: 13, offset: 93024},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92627},
+																														pos:        position{line: 2943, col: 20, offset: 93031},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92636},
+																														pos:        position{line: 2943, col: 29, offset: 93040},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4604,9 +4604,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92796},
+																											pos: position{line: 2953, col: 8, offset: 93200},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92797,
+																												line: 2953, col: 9, offset: 93201,
 																											},
 																										},
 																									},
@@ -4615,39 +4615,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92796},
+																						pos: position{line: 2953, col: 8, offset: 93200},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92797,
+																							line: 2953, col: 9, offset: 93201,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 845, col: 5, offset: 27356},
+																			pos:   position{line: 857, col: 5, offset: 27760},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 824, col: 5, offset: 26772},
+																				pos: position{line: 836, col: 5, offset: 27176},
 																				run: (*parser).callonDocumentFragment124,
 																				expr: &seqExpr{
-																					pos: position{line: 824, col: 5, offset: 26772},
+																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92782},
+																							pos: position{line: 2951, col: 11, offset: 93186},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92784,
+																								line: 2951, col: 13, offset: 93188,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 825, col: 5, offset: 26847},
+																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90974},
+																								pos: position{line: 2880, col: 13, offset: 91378},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90974},
+																									pos: position{line: 2880, col: 13, offset: 91378},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90974},
+																										pos:        position{line: 2880, col: 13, offset: 91378},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4657,28 +4657,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4687,9 +4687,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -4704,35 +4704,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 835, col: 5, offset: 27073},
+														pos: position{line: 847, col: 5, offset: 27477},
 														expr: &choiceExpr{
-															pos: position{line: 841, col: 29, offset: 27268},
+															pos: position{line: 853, col: 29, offset: 27672},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 753, col: 5, offset: 24268},
+																	pos: position{line: 765, col: 5, offset: 24672},
 																	run: (*parser).callonDocumentFragment142,
 																	expr: &seqExpr{
-																		pos: position{line: 753, col: 5, offset: 24268},
+																		pos: position{line: 765, col: 5, offset: 24672},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 753, col: 5, offset: 24268},
+																				pos:   position{line: 765, col: 5, offset: 24672},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 753, col: 16, offset: 24279},
+																					pos: position{line: 765, col: 16, offset: 24683},
 																					run: (*parser).callonDocumentFragment145,
 																					expr: &seqExpr{
-																						pos: position{line: 753, col: 16, offset: 24279},
+																						pos: position{line: 765, col: 16, offset: 24683},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 753, col: 16, offset: 24279},
+																								pos:        position{line: 765, col: 16, offset: 24683},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 753, col: 23, offset: 24286},
+																								pos: position{line: 765, col: 23, offset: 24690},
 																								expr: &litMatcher{
-																									pos:        position{line: 753, col: 23, offset: 24286},
+																									pos:        position{line: 765, col: 23, offset: 24690},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -4743,12 +4743,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 755, col: 8, offset: 24370},
+																				pos: position{line: 767, col: 8, offset: 24774},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92448},
+																					pos: position{line: 2934, col: 10, offset: 92852},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92448},
+																						pos:        position{line: 2934, col: 10, offset: 92852},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4757,28 +4757,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92846},
+																				pos: position{line: 2956, col: 8, offset: 93250},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92619},
+																						pos: position{line: 2943, col: 12, offset: 93023},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92620},
+																							pos: position{line: 2943, col: 13, offset: 93024},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92620},
+																									pos:        position{line: 2943, col: 13, offset: 93024},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92627},
+																									pos:        position{line: 2943, col: 20, offset: 93031},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92636},
+																									pos:        position{line: 2943, col: 29, offset: 93040},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4787,9 +4787,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92796},
+																						pos: position{line: 2953, col: 8, offset: 93200},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92797,
+																							line: 2953, col: 9, offset: 93201,
 																						},
 																					},
 																				},
@@ -4798,9 +4798,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92796},
+																	pos: position{line: 2953, col: 8, offset: 93200},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92797,
+																		line: 2953, col: 9, offset: 93201,
 																	},
 																},
 															},
@@ -4810,39 +4810,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 853, col: 5, offset: 27509},
+											pos: position{line: 865, col: 5, offset: 27913},
 											run: (*parser).callonDocumentFragment163,
 											expr: &seqExpr{
-												pos: position{line: 853, col: 5, offset: 27509},
+												pos: position{line: 865, col: 5, offset: 27913},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 853, col: 5, offset: 27509},
+														pos:   position{line: 865, col: 5, offset: 27913},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 760, col: 5, offset: 24516},
+															pos: position{line: 772, col: 5, offset: 24920},
 															run: (*parser).callonDocumentFragment166,
 															expr: &seqExpr{
-																pos: position{line: 760, col: 5, offset: 24516},
+																pos: position{line: 772, col: 5, offset: 24920},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 760, col: 5, offset: 24516},
+																		pos:   position{line: 772, col: 5, offset: 24920},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 760, col: 16, offset: 24527},
+																			pos: position{line: 772, col: 16, offset: 24931},
 																			run: (*parser).callonDocumentFragment169,
 																			expr: &seqExpr{
-																				pos: position{line: 760, col: 16, offset: 24527},
+																				pos: position{line: 772, col: 16, offset: 24931},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 760, col: 16, offset: 24527},
+																						pos:        position{line: 772, col: 16, offset: 24931},
 																						val:        "====",
 																						ignoreCase: false,
 																						want:       "\"====\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 760, col: 23, offset: 24534},
+																						pos: position{line: 772, col: 23, offset: 24938},
 																						expr: &litMatcher{
-																							pos:        position{line: 760, col: 23, offset: 24534},
+																							pos:        position{line: 772, col: 23, offset: 24938},
 																							val:        "=",
 																							ignoreCase: false,
 																							want:       "\"=\"",
@@ -4853,12 +4853,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 762, col: 8, offset: 24618},
+																		pos: position{line: 774, col: 8, offset: 25022},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92448},
+																			pos: position{line: 2934, col: 10, offset: 92852},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92448},
+																				pos:        position{line: 2934, col: 10, offset: 92852},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4867,28 +4867,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92846},
+																		pos: position{line: 2956, col: 8, offset: 93250},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
+																				pos: position{line: 2943, col: 12, offset: 93023},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4897,9 +4897,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92796},
+																				pos: position{line: 2953, col: 8, offset: 93200},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92797,
+																					line: 2953, col: 9, offset: 93201,
 																				},
 																			},
 																		},
@@ -4909,56 +4909,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 854, col: 5, offset: 27548},
+														pos: position{line: 866, col: 5, offset: 27952},
 														run: (*parser).callonDocumentFragment185,
 													},
 													&labeledExpr{
-														pos:   position{line: 857, col: 5, offset: 27640},
+														pos:   position{line: 869, col: 5, offset: 28044},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 872, col: 4, offset: 28037},
+															pos: position{line: 884, col: 4, offset: 28441},
 															expr: &actionExpr{
-																pos: position{line: 872, col: 5, offset: 28038},
+																pos: position{line: 884, col: 5, offset: 28442},
 																run: (*parser).callonDocumentFragment188,
 																expr: &seqExpr{
-																	pos: position{line: 872, col: 5, offset: 28038},
+																	pos: position{line: 884, col: 5, offset: 28442},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 872, col: 5, offset: 28038},
+																			pos: position{line: 884, col: 5, offset: 28442},
 																			expr: &choiceExpr{
-																				pos: position{line: 865, col: 5, offset: 27880},
+																				pos: position{line: 877, col: 5, offset: 28284},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 865, col: 5, offset: 27880},
+																						pos: position{line: 877, col: 5, offset: 28284},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 865, col: 5, offset: 27880},
+																								pos:   position{line: 877, col: 5, offset: 28284},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 760, col: 5, offset: 24516},
+																									pos: position{line: 772, col: 5, offset: 24920},
 																									run: (*parser).callonDocumentFragment194,
 																									expr: &seqExpr{
-																										pos: position{line: 760, col: 5, offset: 24516},
+																										pos: position{line: 772, col: 5, offset: 24920},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 760, col: 5, offset: 24516},
+																												pos:   position{line: 772, col: 5, offset: 24920},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 760, col: 16, offset: 24527},
+																													pos: position{line: 772, col: 16, offset: 24931},
 																													run: (*parser).callonDocumentFragment197,
 																													expr: &seqExpr{
-																														pos: position{line: 760, col: 16, offset: 24527},
+																														pos: position{line: 772, col: 16, offset: 24931},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 760, col: 16, offset: 24527},
+																																pos:        position{line: 772, col: 16, offset: 24931},
 																																val:        "====",
 																																ignoreCase: false,
 																																want:       "\"====\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 760, col: 23, offset: 24534},
+																																pos: position{line: 772, col: 23, offset: 24938},
 																																expr: &litMatcher{
-																																	pos:        position{line: 760, col: 23, offset: 24534},
+																																	pos:        position{line: 772, col: 23, offset: 24938},
 																																	val:        "=",
 																																	ignoreCase: false,
 																																	want:       "\"=\"",
@@ -4969,12 +4969,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 762, col: 8, offset: 24618},
+																												pos: position{line: 774, col: 8, offset: 25022},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92448},
+																													pos: position{line: 2934, col: 10, offset: 92852},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92448},
+																														pos:        position{line: 2934, col: 10, offset: 92852},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4983,28 +4983,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92846},
+																												pos: position{line: 2956, col: 8, offset: 93250},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92619},
+																														pos: position{line: 2943, col: 12, offset: 93023},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92620},
+																															pos: position{line: 2943, col: 13, offset: 93024},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92620},
+																																	pos:        position{line: 2943, col: 13, offset: 93024},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92627},
+																																	pos:        position{line: 2943, col: 20, offset: 93031},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92636},
+																																	pos:        position{line: 2943, col: 29, offset: 93040},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5013,9 +5013,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92796},
+																														pos: position{line: 2953, col: 8, offset: 93200},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92797,
+																															line: 2953, col: 9, offset: 93201,
 																														},
 																													},
 																												},
@@ -5025,45 +5025,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 866, col: 5, offset: 27911},
+																								pos: position{line: 878, col: 5, offset: 28315},
 																								run: (*parser).callonDocumentFragment213,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92796},
+																						pos: position{line: 2953, col: 8, offset: 93200},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92797,
+																							line: 2953, col: 9, offset: 93201,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 873, col: 5, offset: 28068},
+																			pos:   position{line: 885, col: 5, offset: 28472},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 824, col: 5, offset: 26772},
+																				pos: position{line: 836, col: 5, offset: 27176},
 																				run: (*parser).callonDocumentFragment217,
 																				expr: &seqExpr{
-																					pos: position{line: 824, col: 5, offset: 26772},
+																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92782},
+																							pos: position{line: 2951, col: 11, offset: 93186},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92784,
+																								line: 2951, col: 13, offset: 93188,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 825, col: 5, offset: 26847},
+																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90974},
+																								pos: position{line: 2880, col: 13, offset: 91378},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90974},
+																									pos: position{line: 2880, col: 13, offset: 91378},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90974},
+																										pos:        position{line: 2880, col: 13, offset: 91378},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5073,28 +5073,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5103,9 +5103,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -5120,44 +5120,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 858, col: 5, offset: 27674},
+														pos:   position{line: 870, col: 5, offset: 28078},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 858, col: 9, offset: 27678},
+															pos: position{line: 870, col: 9, offset: 28082},
 															expr: &choiceExpr{
-																pos: position{line: 865, col: 5, offset: 27880},
+																pos: position{line: 877, col: 5, offset: 28284},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 865, col: 5, offset: 27880},
+																		pos: position{line: 877, col: 5, offset: 28284},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 865, col: 5, offset: 27880},
+																				pos:   position{line: 877, col: 5, offset: 28284},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 760, col: 5, offset: 24516},
+																					pos: position{line: 772, col: 5, offset: 24920},
 																					run: (*parser).callonDocumentFragment238,
 																					expr: &seqExpr{
-																						pos: position{line: 760, col: 5, offset: 24516},
+																						pos: position{line: 772, col: 5, offset: 24920},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 760, col: 5, offset: 24516},
+																								pos:   position{line: 772, col: 5, offset: 24920},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 760, col: 16, offset: 24527},
+																									pos: position{line: 772, col: 16, offset: 24931},
 																									run: (*parser).callonDocumentFragment241,
 																									expr: &seqExpr{
-																										pos: position{line: 760, col: 16, offset: 24527},
+																										pos: position{line: 772, col: 16, offset: 24931},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 760, col: 16, offset: 24527},
+																												pos:        position{line: 772, col: 16, offset: 24931},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 760, col: 23, offset: 24534},
+																												pos: position{line: 772, col: 23, offset: 24938},
 																												expr: &litMatcher{
-																													pos:        position{line: 760, col: 23, offset: 24534},
+																													pos:        position{line: 772, col: 23, offset: 24938},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -5168,12 +5168,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 762, col: 8, offset: 24618},
+																								pos: position{line: 774, col: 8, offset: 25022},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92448},
+																									pos: position{line: 2934, col: 10, offset: 92852},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92448},
+																										pos:        position{line: 2934, col: 10, offset: 92852},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5182,28 +5182,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92846},
+																								pos: position{line: 2956, col: 8, offset: 93250},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92619},
+																										pos: position{line: 2943, col: 12, offset: 93023},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92620},
+																											pos: position{line: 2943, col: 13, offset: 93024},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92620},
+																													pos:        position{line: 2943, col: 13, offset: 93024},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92627},
+																													pos:        position{line: 2943, col: 20, offset: 93031},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92636},
+																													pos:        position{line: 2943, col: 29, offset: 93040},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5212,9 +5212,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92796},
+																										pos: position{line: 2953, col: 8, offset: 93200},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92797,
+																											line: 2953, col: 9, offset: 93201,
 																										},
 																									},
 																								},
@@ -5224,15 +5224,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 866, col: 5, offset: 27911},
+																				pos: position{line: 878, col: 5, offset: 28315},
 																				run: (*parser).callonDocumentFragment257,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92796},
+																		pos: position{line: 2953, col: 8, offset: 93200},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92797,
+																			line: 2953, col: 9, offset: 93201,
 																		},
 																	},
 																},
@@ -5243,36 +5243,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 965, col: 5, offset: 30360},
+											pos: position{line: 977, col: 5, offset: 30764},
 											run: (*parser).callonDocumentFragment260,
 											expr: &seqExpr{
-												pos: position{line: 965, col: 5, offset: 30360},
+												pos: position{line: 977, col: 5, offset: 30764},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 965, col: 5, offset: 30360},
+														pos:   position{line: 977, col: 5, offset: 30764},
 														label: "delimiter",
 														expr: &actionExpr{
-															pos: position{line: 773, col: 26, offset: 25004},
+															pos: position{line: 785, col: 26, offset: 25408},
 															run: (*parser).callonDocumentFragment263,
 															expr: &seqExpr{
-																pos: position{line: 773, col: 26, offset: 25004},
+																pos: position{line: 785, col: 26, offset: 25408},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 773, col: 26, offset: 25004},
+																		pos:        position{line: 785, col: 26, offset: 25408},
 																		val:        "```",
 																		ignoreCase: false,
 																		want:       "\"```\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 773, col: 32, offset: 25010},
+																		pos:   position{line: 785, col: 32, offset: 25414},
 																		label: "language",
 																		expr: &actionExpr{
-																			pos: position{line: 777, col: 13, offset: 25140},
+																			pos: position{line: 789, col: 13, offset: 25544},
 																			run: (*parser).callonDocumentFragment267,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 777, col: 14, offset: 25141},
+																				pos: position{line: 789, col: 14, offset: 25545},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 777, col: 14, offset: 25141},
+																					pos:        position{line: 789, col: 14, offset: 25545},
 																					val:        "[^\\r\\n` ]",
 																					chars:      []rune{'\r', '\n', '`', ' '},
 																					ignoreCase: false,
@@ -5282,12 +5282,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 773, col: 52, offset: 25030},
+																		pos: position{line: 785, col: 52, offset: 25434},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92448},
+																			pos: position{line: 2934, col: 10, offset: 92852},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92448},
+																				pos:        position{line: 2934, col: 10, offset: 92852},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5296,28 +5296,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92846},
+																		pos: position{line: 2956, col: 8, offset: 93250},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
+																				pos: position{line: 2943, col: 12, offset: 93023},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5326,9 +5326,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92796},
+																				pos: position{line: 2953, col: 8, offset: 93200},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92797,
+																					line: 2953, col: 9, offset: 93201,
 																				},
 																			},
 																		},
@@ -5338,34 +5338,34 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 966, col: 5, offset: 30406},
+														pos:   position{line: 978, col: 5, offset: 30810},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 979, col: 5, offset: 30879},
+															pos: position{line: 991, col: 5, offset: 31283},
 															expr: &actionExpr{
-																pos: position{line: 979, col: 6, offset: 30880},
+																pos: position{line: 991, col: 6, offset: 31284},
 																run: (*parser).callonDocumentFragment283,
 																expr: &seqExpr{
-																	pos: position{line: 979, col: 6, offset: 30880},
+																	pos: position{line: 991, col: 6, offset: 31284},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 979, col: 6, offset: 30880},
+																			pos: position{line: 991, col: 6, offset: 31284},
 																			expr: &seqExpr{
-																				pos: position{line: 976, col: 34, offset: 30827},
+																				pos: position{line: 988, col: 34, offset: 31231},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 976, col: 34, offset: 30827},
+																						pos:        position{line: 988, col: 34, offset: 31231},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 976, col: 40, offset: 30833},
+																						pos: position{line: 988, col: 40, offset: 31237},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92448},
+																							pos: position{line: 2934, col: 10, offset: 92852},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92448},
+																								pos:        position{line: 2934, col: 10, offset: 92852},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5374,28 +5374,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92846},
+																						pos: position{line: 2956, col: 8, offset: 93250},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92619},
+																								pos: position{line: 2943, col: 12, offset: 93023},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92620},
+																									pos: position{line: 2943, col: 13, offset: 93024},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92620},
+																											pos:        position{line: 2943, col: 13, offset: 93024},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92627},
+																											pos:        position{line: 2943, col: 20, offset: 93031},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92636},
+																											pos:        position{line: 2943, col: 29, offset: 93040},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5404,9 +5404,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92796},
+																								pos: position{line: 2953, col: 8, offset: 93200},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92797,
+																									line: 2953, col: 9, offset: 93201,
 																								},
 																							},
 																						},
@@ -5415,30 +5415,30 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 980, col: 5, offset: 30915},
+																			pos:   position{line: 992, col: 5, offset: 31319},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 824, col: 5, offset: 26772},
+																				pos: position{line: 836, col: 5, offset: 27176},
 																				run: (*parser).callonDocumentFragment300,
 																				expr: &seqExpr{
-																					pos: position{line: 824, col: 5, offset: 26772},
+																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92782},
+																							pos: position{line: 2951, col: 11, offset: 93186},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92784,
+																								line: 2951, col: 13, offset: 93188,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 825, col: 5, offset: 26847},
+																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90974},
+																								pos: position{line: 2880, col: 13, offset: 91378},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90974},
+																									pos: position{line: 2880, col: 13, offset: 91378},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90974},
+																										pos:        position{line: 2880, col: 13, offset: 91378},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5448,28 +5448,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5478,9 +5478,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -5495,23 +5495,23 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 967, col: 5, offset: 30445},
+														pos: position{line: 979, col: 5, offset: 30849},
 														expr: &seqExpr{
-															pos: position{line: 976, col: 34, offset: 30827},
+															pos: position{line: 988, col: 34, offset: 31231},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 976, col: 34, offset: 30827},
+																	pos:        position{line: 988, col: 34, offset: 31231},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 976, col: 40, offset: 30833},
+																	pos: position{line: 988, col: 40, offset: 31237},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92448},
+																		pos: position{line: 2934, col: 10, offset: 92852},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92448},
+																			pos:        position{line: 2934, col: 10, offset: 92852},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5520,28 +5520,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92846},
+																	pos: position{line: 2956, col: 8, offset: 93250},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92619},
+																			pos: position{line: 2943, col: 12, offset: 93023},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92620},
+																				pos: position{line: 2943, col: 13, offset: 93024},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92620},
+																						pos:        position{line: 2943, col: 13, offset: 93024},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92627},
+																						pos:        position{line: 2943, col: 20, offset: 93031},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92636},
+																						pos:        position{line: 2943, col: 29, offset: 93040},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5550,9 +5550,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92796},
+																			pos: position{line: 2953, col: 8, offset: 93200},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92797,
+																				line: 2953, col: 9, offset: 93201,
 																			},
 																		},
 																	},
@@ -5564,39 +5564,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 881, col: 5, offset: 28221},
+											pos: position{line: 893, col: 5, offset: 28625},
 											run: (*parser).callonDocumentFragment330,
 											expr: &seqExpr{
-												pos: position{line: 881, col: 5, offset: 28221},
+												pos: position{line: 893, col: 5, offset: 28625},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 881, col: 5, offset: 28221},
+														pos:   position{line: 893, col: 5, offset: 28625},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 767, col: 5, offset: 24763},
+															pos: position{line: 779, col: 5, offset: 25167},
 															run: (*parser).callonDocumentFragment333,
 															expr: &seqExpr{
-																pos: position{line: 767, col: 5, offset: 24763},
+																pos: position{line: 779, col: 5, offset: 25167},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 767, col: 5, offset: 24763},
+																		pos:   position{line: 779, col: 5, offset: 25167},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 767, col: 16, offset: 24774},
+																			pos: position{line: 779, col: 16, offset: 25178},
 																			run: (*parser).callonDocumentFragment336,
 																			expr: &seqExpr{
-																				pos: position{line: 767, col: 16, offset: 24774},
+																				pos: position{line: 779, col: 16, offset: 25178},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 767, col: 16, offset: 24774},
+																						pos:        position{line: 779, col: 16, offset: 25178},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 767, col: 22, offset: 24780},
+																						pos: position{line: 779, col: 22, offset: 25184},
 																						expr: &litMatcher{
-																							pos:        position{line: 767, col: 22, offset: 24780},
+																							pos:        position{line: 779, col: 22, offset: 25184},
 																							val:        "`",
 																							ignoreCase: false,
 																							want:       "\"`\"",
@@ -5607,12 +5607,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 769, col: 8, offset: 24864},
+																		pos: position{line: 781, col: 8, offset: 25268},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92448},
+																			pos: position{line: 2934, col: 10, offset: 92852},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92448},
+																				pos:        position{line: 2934, col: 10, offset: 92852},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5621,28 +5621,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92846},
+																		pos: position{line: 2956, col: 8, offset: 93250},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
+																				pos: position{line: 2943, col: 12, offset: 93023},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5651,9 +5651,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92796},
+																				pos: position{line: 2953, col: 8, offset: 93200},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92797,
+																					line: 2953, col: 9, offset: 93201,
 																				},
 																			},
 																		},
@@ -5663,56 +5663,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 882, col: 5, offset: 28259},
+														pos: position{line: 894, col: 5, offset: 28663},
 														run: (*parser).callonDocumentFragment352,
 													},
 													&labeledExpr{
-														pos:   position{line: 885, col: 5, offset: 28351},
+														pos:   position{line: 897, col: 5, offset: 28755},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 900, col: 5, offset: 28741},
+															pos: position{line: 912, col: 5, offset: 29145},
 															expr: &actionExpr{
-																pos: position{line: 900, col: 6, offset: 28742},
+																pos: position{line: 912, col: 6, offset: 29146},
 																run: (*parser).callonDocumentFragment355,
 																expr: &seqExpr{
-																	pos: position{line: 900, col: 6, offset: 28742},
+																	pos: position{line: 912, col: 6, offset: 29146},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 900, col: 6, offset: 28742},
+																			pos: position{line: 912, col: 6, offset: 29146},
 																			expr: &choiceExpr{
-																				pos: position{line: 893, col: 5, offset: 28585},
+																				pos: position{line: 905, col: 5, offset: 28989},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 893, col: 5, offset: 28585},
+																						pos: position{line: 905, col: 5, offset: 28989},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 893, col: 5, offset: 28585},
+																								pos:   position{line: 905, col: 5, offset: 28989},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 767, col: 5, offset: 24763},
+																									pos: position{line: 779, col: 5, offset: 25167},
 																									run: (*parser).callonDocumentFragment361,
 																									expr: &seqExpr{
-																										pos: position{line: 767, col: 5, offset: 24763},
+																										pos: position{line: 779, col: 5, offset: 25167},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 767, col: 5, offset: 24763},
+																												pos:   position{line: 779, col: 5, offset: 25167},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 767, col: 16, offset: 24774},
+																													pos: position{line: 779, col: 16, offset: 25178},
 																													run: (*parser).callonDocumentFragment364,
 																													expr: &seqExpr{
-																														pos: position{line: 767, col: 16, offset: 24774},
+																														pos: position{line: 779, col: 16, offset: 25178},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 767, col: 16, offset: 24774},
+																																pos:        position{line: 779, col: 16, offset: 25178},
 																																val:        "```",
 																																ignoreCase: false,
 																																want:       "\"```\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 767, col: 22, offset: 24780},
+																																pos: position{line: 779, col: 22, offset: 25184},
 																																expr: &litMatcher{
-																																	pos:        position{line: 767, col: 22, offset: 24780},
+																																	pos:        position{line: 779, col: 22, offset: 25184},
 																																	val:        "`",
 																																	ignoreCase: false,
 																																	want:       "\"`\"",
@@ -5723,12 +5723,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 769, col: 8, offset: 24864},
+																												pos: position{line: 781, col: 8, offset: 25268},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92448},
+																													pos: position{line: 2934, col: 10, offset: 92852},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92448},
+																														pos:        position{line: 2934, col: 10, offset: 92852},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5737,28 +5737,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92846},
+																												pos: position{line: 2956, col: 8, offset: 93250},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92619},
+																														pos: position{line: 2943, col: 12, offset: 93023},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92620},
+																															pos: position{line: 2943, col: 13, offset: 93024},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92620},
+																																	pos:        position{line: 2943, col: 13, offset: 93024},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92627},
+																																	pos:        position{line: 2943, col: 20, offset: 93031},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92636},
+																																	pos:        position{line: 2943, col: 29, offset: 93040},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5767,9 +5767,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92796},
+																														pos: position{line: 2953, col: 8, offset: 93200},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92797,
+																															line: 2953, col: 9, offset: 93201,
 																														},
 																													},
 																												},
@@ -5779,45 +5779,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 894, col: 5, offset: 28615},
+																								pos: position{line: 906, col: 5, offset: 29019},
 																								run: (*parser).callonDocumentFragment380,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92796},
+																						pos: position{line: 2953, col: 8, offset: 93200},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92797,
+																							line: 2953, col: 9, offset: 93201,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 901, col: 5, offset: 28771},
+																			pos:   position{line: 913, col: 5, offset: 29175},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 824, col: 5, offset: 26772},
+																				pos: position{line: 836, col: 5, offset: 27176},
 																				run: (*parser).callonDocumentFragment384,
 																				expr: &seqExpr{
-																					pos: position{line: 824, col: 5, offset: 26772},
+																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92782},
+																							pos: position{line: 2951, col: 11, offset: 93186},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92784,
+																								line: 2951, col: 13, offset: 93188,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 825, col: 5, offset: 26847},
+																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90974},
+																								pos: position{line: 2880, col: 13, offset: 91378},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90974},
+																									pos: position{line: 2880, col: 13, offset: 91378},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90974},
+																										pos:        position{line: 2880, col: 13, offset: 91378},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5827,28 +5827,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5857,9 +5857,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -5874,44 +5874,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 886, col: 5, offset: 28384},
+														pos:   position{line: 898, col: 5, offset: 28788},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 886, col: 9, offset: 28388},
+															pos: position{line: 898, col: 9, offset: 28792},
 															expr: &choiceExpr{
-																pos: position{line: 893, col: 5, offset: 28585},
+																pos: position{line: 905, col: 5, offset: 28989},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 893, col: 5, offset: 28585},
+																		pos: position{line: 905, col: 5, offset: 28989},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 893, col: 5, offset: 28585},
+																				pos:   position{line: 905, col: 5, offset: 28989},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 767, col: 5, offset: 24763},
+																					pos: position{line: 779, col: 5, offset: 25167},
 																					run: (*parser).callonDocumentFragment405,
 																					expr: &seqExpr{
-																						pos: position{line: 767, col: 5, offset: 24763},
+																						pos: position{line: 779, col: 5, offset: 25167},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 767, col: 5, offset: 24763},
+																								pos:   position{line: 779, col: 5, offset: 25167},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 767, col: 16, offset: 24774},
+																									pos: position{line: 779, col: 16, offset: 25178},
 																									run: (*parser).callonDocumentFragment408,
 																									expr: &seqExpr{
-																										pos: position{line: 767, col: 16, offset: 24774},
+																										pos: position{line: 779, col: 16, offset: 25178},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 767, col: 16, offset: 24774},
+																												pos:        position{line: 779, col: 16, offset: 25178},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 767, col: 22, offset: 24780},
+																												pos: position{line: 779, col: 22, offset: 25184},
 																												expr: &litMatcher{
-																													pos:        position{line: 767, col: 22, offset: 24780},
+																													pos:        position{line: 779, col: 22, offset: 25184},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -5922,12 +5922,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 769, col: 8, offset: 24864},
+																								pos: position{line: 781, col: 8, offset: 25268},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92448},
+																									pos: position{line: 2934, col: 10, offset: 92852},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92448},
+																										pos:        position{line: 2934, col: 10, offset: 92852},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5936,28 +5936,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92846},
+																								pos: position{line: 2956, col: 8, offset: 93250},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92619},
+																										pos: position{line: 2943, col: 12, offset: 93023},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92620},
+																											pos: position{line: 2943, col: 13, offset: 93024},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92620},
+																													pos:        position{line: 2943, col: 13, offset: 93024},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92627},
+																													pos:        position{line: 2943, col: 20, offset: 93031},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92636},
+																													pos:        position{line: 2943, col: 29, offset: 93040},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5966,9 +5966,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92796},
+																										pos: position{line: 2953, col: 8, offset: 93200},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92797,
+																											line: 2953, col: 9, offset: 93201,
 																										},
 																									},
 																								},
@@ -5978,15 +5978,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 894, col: 5, offset: 28615},
+																				pos: position{line: 906, col: 5, offset: 29019},
 																				run: (*parser).callonDocumentFragment424,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92796},
+																		pos: position{line: 2953, col: 8, offset: 93200},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92797,
+																			line: 2953, col: 9, offset: 93201,
 																		},
 																	},
 																},
@@ -5997,39 +5997,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 909, col: 5, offset: 28926},
+											pos: position{line: 921, col: 5, offset: 29330},
 											run: (*parser).callonDocumentFragment427,
 											expr: &seqExpr{
-												pos: position{line: 909, col: 5, offset: 28926},
+												pos: position{line: 921, col: 5, offset: 29330},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 909, col: 5, offset: 28926},
+														pos:   position{line: 921, col: 5, offset: 29330},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 782, col: 5, offset: 25300},
+															pos: position{line: 794, col: 5, offset: 25704},
 															run: (*parser).callonDocumentFragment430,
 															expr: &seqExpr{
-																pos: position{line: 782, col: 5, offset: 25300},
+																pos: position{line: 794, col: 5, offset: 25704},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 782, col: 5, offset: 25300},
+																		pos:   position{line: 794, col: 5, offset: 25704},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 782, col: 16, offset: 25311},
+																			pos: position{line: 794, col: 16, offset: 25715},
 																			run: (*parser).callonDocumentFragment433,
 																			expr: &seqExpr{
-																				pos: position{line: 782, col: 16, offset: 25311},
+																				pos: position{line: 794, col: 16, offset: 25715},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 782, col: 16, offset: 25311},
+																						pos:        position{line: 794, col: 16, offset: 25715},
 																						val:        "----",
 																						ignoreCase: false,
 																						want:       "\"----\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 782, col: 23, offset: 25318},
+																						pos: position{line: 794, col: 23, offset: 25722},
 																						expr: &litMatcher{
-																							pos:        position{line: 782, col: 23, offset: 25318},
+																							pos:        position{line: 794, col: 23, offset: 25722},
 																							val:        "-",
 																							ignoreCase: false,
 																							want:       "\"-\"",
@@ -6040,12 +6040,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 784, col: 8, offset: 25402},
+																		pos: position{line: 796, col: 8, offset: 25806},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92448},
+																			pos: position{line: 2934, col: 10, offset: 92852},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92448},
+																				pos:        position{line: 2934, col: 10, offset: 92852},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6054,28 +6054,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92846},
+																		pos: position{line: 2956, col: 8, offset: 93250},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
+																				pos: position{line: 2943, col: 12, offset: 93023},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6084,9 +6084,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92796},
+																				pos: position{line: 2953, col: 8, offset: 93200},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92797,
+																					line: 2953, col: 9, offset: 93201,
 																				},
 																			},
 																		},
@@ -6096,56 +6096,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 910, col: 5, offset: 28965},
+														pos: position{line: 922, col: 5, offset: 29369},
 														run: (*parser).callonDocumentFragment449,
 													},
 													&labeledExpr{
-														pos:   position{line: 913, col: 5, offset: 29057},
+														pos:   position{line: 925, col: 5, offset: 29461},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 928, col: 5, offset: 29455},
+															pos: position{line: 940, col: 5, offset: 29859},
 															expr: &actionExpr{
-																pos: position{line: 928, col: 6, offset: 29456},
+																pos: position{line: 940, col: 6, offset: 29860},
 																run: (*parser).callonDocumentFragment452,
 																expr: &seqExpr{
-																	pos: position{line: 928, col: 6, offset: 29456},
+																	pos: position{line: 940, col: 6, offset: 29860},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 928, col: 6, offset: 29456},
+																			pos: position{line: 940, col: 6, offset: 29860},
 																			expr: &choiceExpr{
-																				pos: position{line: 921, col: 5, offset: 29297},
+																				pos: position{line: 933, col: 5, offset: 29701},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 921, col: 5, offset: 29297},
+																						pos: position{line: 933, col: 5, offset: 29701},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 921, col: 5, offset: 29297},
+																								pos:   position{line: 933, col: 5, offset: 29701},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 782, col: 5, offset: 25300},
+																									pos: position{line: 794, col: 5, offset: 25704},
 																									run: (*parser).callonDocumentFragment458,
 																									expr: &seqExpr{
-																										pos: position{line: 782, col: 5, offset: 25300},
+																										pos: position{line: 794, col: 5, offset: 25704},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 782, col: 5, offset: 25300},
+																												pos:   position{line: 794, col: 5, offset: 25704},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 782, col: 16, offset: 25311},
+																													pos: position{line: 794, col: 16, offset: 25715},
 																													run: (*parser).callonDocumentFragment461,
 																													expr: &seqExpr{
-																														pos: position{line: 782, col: 16, offset: 25311},
+																														pos: position{line: 794, col: 16, offset: 25715},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 782, col: 16, offset: 25311},
+																																pos:        position{line: 794, col: 16, offset: 25715},
 																																val:        "----",
 																																ignoreCase: false,
 																																want:       "\"----\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 782, col: 23, offset: 25318},
+																																pos: position{line: 794, col: 23, offset: 25722},
 																																expr: &litMatcher{
-																																	pos:        position{line: 782, col: 23, offset: 25318},
+																																	pos:        position{line: 794, col: 23, offset: 25722},
 																																	val:        "-",
 																																	ignoreCase: false,
 																																	want:       "\"-\"",
@@ -6156,12 +6156,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 784, col: 8, offset: 25402},
+																												pos: position{line: 796, col: 8, offset: 25806},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92448},
+																													pos: position{line: 2934, col: 10, offset: 92852},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92448},
+																														pos:        position{line: 2934, col: 10, offset: 92852},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6170,28 +6170,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92846},
+																												pos: position{line: 2956, col: 8, offset: 93250},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92619},
+																														pos: position{line: 2943, col: 12, offset: 93023},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92620},
+																															pos: position{line: 2943, col: 13, offset: 93024},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92620},
+																																	pos:        position{line: 2943, col: 13, offset: 93024},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92627},
+																																	pos:        position{line: 2943, col: 20, offset: 93031},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92636},
+																																	pos:        position{line: 2943, col: 29, offset: 93040},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6200,9 +6200,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92796},
+																														pos: position{line: 2953, col: 8, offset: 93200},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92797,
+																															line: 2953, col: 9, offset: 93201,
 																														},
 																													},
 																												},
@@ -6212,45 +6212,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 922, col: 5, offset: 29328},
+																								pos: position{line: 934, col: 5, offset: 29732},
 																								run: (*parser).callonDocumentFragment477,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92796},
+																						pos: position{line: 2953, col: 8, offset: 93200},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92797,
+																							line: 2953, col: 9, offset: 93201,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 929, col: 5, offset: 29486},
+																			pos:   position{line: 941, col: 5, offset: 29890},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 824, col: 5, offset: 26772},
+																				pos: position{line: 836, col: 5, offset: 27176},
 																				run: (*parser).callonDocumentFragment481,
 																				expr: &seqExpr{
-																					pos: position{line: 824, col: 5, offset: 26772},
+																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92782},
+																							pos: position{line: 2951, col: 11, offset: 93186},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92784,
+																								line: 2951, col: 13, offset: 93188,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 825, col: 5, offset: 26847},
+																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90974},
+																								pos: position{line: 2880, col: 13, offset: 91378},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90974},
+																									pos: position{line: 2880, col: 13, offset: 91378},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90974},
+																										pos:        position{line: 2880, col: 13, offset: 91378},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6260,28 +6260,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6290,9 +6290,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -6307,44 +6307,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 914, col: 5, offset: 29091},
+														pos:   position{line: 926, col: 5, offset: 29495},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 914, col: 9, offset: 29095},
+															pos: position{line: 926, col: 9, offset: 29499},
 															expr: &choiceExpr{
-																pos: position{line: 921, col: 5, offset: 29297},
+																pos: position{line: 933, col: 5, offset: 29701},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 921, col: 5, offset: 29297},
+																		pos: position{line: 933, col: 5, offset: 29701},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 921, col: 5, offset: 29297},
+																				pos:   position{line: 933, col: 5, offset: 29701},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 782, col: 5, offset: 25300},
+																					pos: position{line: 794, col: 5, offset: 25704},
 																					run: (*parser).callonDocumentFragment502,
 																					expr: &seqExpr{
-																						pos: position{line: 782, col: 5, offset: 25300},
+																						pos: position{line: 794, col: 5, offset: 25704},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 782, col: 5, offset: 25300},
+																								pos:   position{line: 794, col: 5, offset: 25704},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 782, col: 16, offset: 25311},
+																									pos: position{line: 794, col: 16, offset: 25715},
 																									run: (*parser).callonDocumentFragment505,
 																									expr: &seqExpr{
-																										pos: position{line: 782, col: 16, offset: 25311},
+																										pos: position{line: 794, col: 16, offset: 25715},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 782, col: 16, offset: 25311},
+																												pos:        position{line: 794, col: 16, offset: 25715},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 782, col: 23, offset: 25318},
+																												pos: position{line: 794, col: 23, offset: 25722},
 																												expr: &litMatcher{
-																													pos:        position{line: 782, col: 23, offset: 25318},
+																													pos:        position{line: 794, col: 23, offset: 25722},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -6355,12 +6355,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 784, col: 8, offset: 25402},
+																								pos: position{line: 796, col: 8, offset: 25806},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92448},
+																									pos: position{line: 2934, col: 10, offset: 92852},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92448},
+																										pos:        position{line: 2934, col: 10, offset: 92852},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6369,28 +6369,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92846},
+																								pos: position{line: 2956, col: 8, offset: 93250},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92619},
+																										pos: position{line: 2943, col: 12, offset: 93023},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92620},
+																											pos: position{line: 2943, col: 13, offset: 93024},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92620},
+																													pos:        position{line: 2943, col: 13, offset: 93024},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92627},
+																													pos:        position{line: 2943, col: 20, offset: 93031},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92636},
+																													pos:        position{line: 2943, col: 29, offset: 93040},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6399,9 +6399,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92796},
+																										pos: position{line: 2953, col: 8, offset: 93200},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92797,
+																											line: 2953, col: 9, offset: 93201,
 																										},
 																									},
 																								},
@@ -6411,15 +6411,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 922, col: 5, offset: 29328},
+																				pos: position{line: 934, col: 5, offset: 29732},
 																				run: (*parser).callonDocumentFragment521,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92796},
+																		pos: position{line: 2953, col: 8, offset: 93200},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92797,
+																			line: 2953, col: 9, offset: 93201,
 																		},
 																	},
 																},
@@ -6430,39 +6430,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 937, col: 5, offset: 29641},
+											pos: position{line: 949, col: 5, offset: 30045},
 											run: (*parser).callonDocumentFragment524,
 											expr: &seqExpr{
-												pos: position{line: 937, col: 5, offset: 29641},
+												pos: position{line: 949, col: 5, offset: 30045},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 937, col: 5, offset: 29641},
+														pos:   position{line: 949, col: 5, offset: 30045},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 796, col: 5, offset: 25776},
+															pos: position{line: 808, col: 5, offset: 26180},
 															run: (*parser).callonDocumentFragment527,
 															expr: &seqExpr{
-																pos: position{line: 796, col: 5, offset: 25776},
+																pos: position{line: 808, col: 5, offset: 26180},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 796, col: 5, offset: 25776},
+																		pos:   position{line: 808, col: 5, offset: 26180},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 796, col: 16, offset: 25787},
+																			pos: position{line: 808, col: 16, offset: 26191},
 																			run: (*parser).callonDocumentFragment530,
 																			expr: &seqExpr{
-																				pos: position{line: 796, col: 16, offset: 25787},
+																				pos: position{line: 808, col: 16, offset: 26191},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 796, col: 16, offset: 25787},
+																						pos:        position{line: 808, col: 16, offset: 26191},
 																						val:        "....",
 																						ignoreCase: false,
 																						want:       "\"....\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 796, col: 23, offset: 25794},
+																						pos: position{line: 808, col: 23, offset: 26198},
 																						expr: &litMatcher{
-																							pos:        position{line: 796, col: 23, offset: 25794},
+																							pos:        position{line: 808, col: 23, offset: 26198},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -6473,12 +6473,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 798, col: 8, offset: 25878},
+																		pos: position{line: 810, col: 8, offset: 26282},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92448},
+																			pos: position{line: 2934, col: 10, offset: 92852},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92448},
+																				pos:        position{line: 2934, col: 10, offset: 92852},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6487,28 +6487,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92846},
+																		pos: position{line: 2956, col: 8, offset: 93250},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
+																				pos: position{line: 2943, col: 12, offset: 93023},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6517,9 +6517,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92796},
+																				pos: position{line: 2953, col: 8, offset: 93200},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92797,
+																					line: 2953, col: 9, offset: 93201,
 																				},
 																			},
 																		},
@@ -6529,56 +6529,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 938, col: 5, offset: 29680},
+														pos: position{line: 950, col: 5, offset: 30084},
 														run: (*parser).callonDocumentFragment546,
 													},
 													&labeledExpr{
-														pos:   position{line: 941, col: 5, offset: 29772},
+														pos:   position{line: 953, col: 5, offset: 30176},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 956, col: 5, offset: 30170},
+															pos: position{line: 968, col: 5, offset: 30574},
 															expr: &actionExpr{
-																pos: position{line: 956, col: 6, offset: 30171},
+																pos: position{line: 968, col: 6, offset: 30575},
 																run: (*parser).callonDocumentFragment549,
 																expr: &seqExpr{
-																	pos: position{line: 956, col: 6, offset: 30171},
+																	pos: position{line: 968, col: 6, offset: 30575},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 956, col: 6, offset: 30171},
+																			pos: position{line: 968, col: 6, offset: 30575},
 																			expr: &choiceExpr{
-																				pos: position{line: 949, col: 5, offset: 30012},
+																				pos: position{line: 961, col: 5, offset: 30416},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 949, col: 5, offset: 30012},
+																						pos: position{line: 961, col: 5, offset: 30416},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 949, col: 5, offset: 30012},
+																								pos:   position{line: 961, col: 5, offset: 30416},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 796, col: 5, offset: 25776},
+																									pos: position{line: 808, col: 5, offset: 26180},
 																									run: (*parser).callonDocumentFragment555,
 																									expr: &seqExpr{
-																										pos: position{line: 796, col: 5, offset: 25776},
+																										pos: position{line: 808, col: 5, offset: 26180},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 796, col: 5, offset: 25776},
+																												pos:   position{line: 808, col: 5, offset: 26180},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 796, col: 16, offset: 25787},
+																													pos: position{line: 808, col: 16, offset: 26191},
 																													run: (*parser).callonDocumentFragment558,
 																													expr: &seqExpr{
-																														pos: position{line: 796, col: 16, offset: 25787},
+																														pos: position{line: 808, col: 16, offset: 26191},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 796, col: 16, offset: 25787},
+																																pos:        position{line: 808, col: 16, offset: 26191},
 																																val:        "....",
 																																ignoreCase: false,
 																																want:       "\"....\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 796, col: 23, offset: 25794},
+																																pos: position{line: 808, col: 23, offset: 26198},
 																																expr: &litMatcher{
-																																	pos:        position{line: 796, col: 23, offset: 25794},
+																																	pos:        position{line: 808, col: 23, offset: 26198},
 																																	val:        ".",
 																																	ignoreCase: false,
 																																	want:       "\".\"",
@@ -6589,12 +6589,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 798, col: 8, offset: 25878},
+																												pos: position{line: 810, col: 8, offset: 26282},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92448},
+																													pos: position{line: 2934, col: 10, offset: 92852},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92448},
+																														pos:        position{line: 2934, col: 10, offset: 92852},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6603,28 +6603,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92846},
+																												pos: position{line: 2956, col: 8, offset: 93250},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92619},
+																														pos: position{line: 2943, col: 12, offset: 93023},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92620},
+																															pos: position{line: 2943, col: 13, offset: 93024},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92620},
+																																	pos:        position{line: 2943, col: 13, offset: 93024},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92627},
+																																	pos:        position{line: 2943, col: 20, offset: 93031},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92636},
+																																	pos:        position{line: 2943, col: 29, offset: 93040},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6633,9 +6633,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92796},
+																														pos: position{line: 2953, col: 8, offset: 93200},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92797,
+																															line: 2953, col: 9, offset: 93201,
 																														},
 																													},
 																												},
@@ -6645,45 +6645,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 950, col: 5, offset: 30043},
+																								pos: position{line: 962, col: 5, offset: 30447},
 																								run: (*parser).callonDocumentFragment574,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92796},
+																						pos: position{line: 2953, col: 8, offset: 93200},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92797,
+																							line: 2953, col: 9, offset: 93201,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 957, col: 5, offset: 30201},
+																			pos:   position{line: 969, col: 5, offset: 30605},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 824, col: 5, offset: 26772},
+																				pos: position{line: 836, col: 5, offset: 27176},
 																				run: (*parser).callonDocumentFragment578,
 																				expr: &seqExpr{
-																					pos: position{line: 824, col: 5, offset: 26772},
+																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92782},
+																							pos: position{line: 2951, col: 11, offset: 93186},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92784,
+																								line: 2951, col: 13, offset: 93188,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 825, col: 5, offset: 26847},
+																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90974},
+																								pos: position{line: 2880, col: 13, offset: 91378},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90974},
+																									pos: position{line: 2880, col: 13, offset: 91378},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90974},
+																										pos:        position{line: 2880, col: 13, offset: 91378},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6693,28 +6693,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6723,9 +6723,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -6740,44 +6740,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 942, col: 5, offset: 29806},
+														pos:   position{line: 954, col: 5, offset: 30210},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 942, col: 9, offset: 29810},
+															pos: position{line: 954, col: 9, offset: 30214},
 															expr: &choiceExpr{
-																pos: position{line: 949, col: 5, offset: 30012},
+																pos: position{line: 961, col: 5, offset: 30416},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 949, col: 5, offset: 30012},
+																		pos: position{line: 961, col: 5, offset: 30416},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 949, col: 5, offset: 30012},
+																				pos:   position{line: 961, col: 5, offset: 30416},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 796, col: 5, offset: 25776},
+																					pos: position{line: 808, col: 5, offset: 26180},
 																					run: (*parser).callonDocumentFragment599,
 																					expr: &seqExpr{
-																						pos: position{line: 796, col: 5, offset: 25776},
+																						pos: position{line: 808, col: 5, offset: 26180},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 796, col: 5, offset: 25776},
+																								pos:   position{line: 808, col: 5, offset: 26180},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 796, col: 16, offset: 25787},
+																									pos: position{line: 808, col: 16, offset: 26191},
 																									run: (*parser).callonDocumentFragment602,
 																									expr: &seqExpr{
-																										pos: position{line: 796, col: 16, offset: 25787},
+																										pos: position{line: 808, col: 16, offset: 26191},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 796, col: 16, offset: 25787},
+																												pos:        position{line: 808, col: 16, offset: 26191},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 796, col: 23, offset: 25794},
+																												pos: position{line: 808, col: 23, offset: 26198},
 																												expr: &litMatcher{
-																													pos:        position{line: 796, col: 23, offset: 25794},
+																													pos:        position{line: 808, col: 23, offset: 26198},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -6788,12 +6788,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 798, col: 8, offset: 25878},
+																								pos: position{line: 810, col: 8, offset: 26282},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92448},
+																									pos: position{line: 2934, col: 10, offset: 92852},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92448},
+																										pos:        position{line: 2934, col: 10, offset: 92852},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6802,28 +6802,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92846},
+																								pos: position{line: 2956, col: 8, offset: 93250},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92619},
+																										pos: position{line: 2943, col: 12, offset: 93023},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92620},
+																											pos: position{line: 2943, col: 13, offset: 93024},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92620},
+																													pos:        position{line: 2943, col: 13, offset: 93024},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92627},
+																													pos:        position{line: 2943, col: 20, offset: 93031},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92636},
+																													pos:        position{line: 2943, col: 29, offset: 93040},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6832,9 +6832,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92796},
+																										pos: position{line: 2953, col: 8, offset: 93200},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92797,
+																											line: 2953, col: 9, offset: 93201,
 																										},
 																									},
 																								},
@@ -6844,15 +6844,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 950, col: 5, offset: 30043},
+																				pos: position{line: 962, col: 5, offset: 30447},
 																				run: (*parser).callonDocumentFragment618,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92796},
+																		pos: position{line: 2953, col: 8, offset: 93200},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92797,
+																			line: 2953, col: 9, offset: 93201,
 																		},
 																	},
 																},
@@ -6863,41 +6863,41 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 988, col: 5, offset: 31084},
+											pos: position{line: 1000, col: 5, offset: 31488},
 											run: (*parser).callonDocumentFragment621,
 											expr: &seqExpr{
-												pos: position{line: 988, col: 5, offset: 31084},
+												pos: position{line: 1000, col: 5, offset: 31488},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 988, col: 5, offset: 31084},
+														pos:   position{line: 1000, col: 5, offset: 31488},
 														label: "firstLine",
 														expr: &actionExpr{
-															pos: position{line: 995, col: 5, offset: 31343},
+															pos: position{line: 1007, col: 5, offset: 31747},
 															run: (*parser).callonDocumentFragment624,
 															expr: &seqExpr{
-																pos: position{line: 995, col: 5, offset: 31343},
+																pos: position{line: 1007, col: 5, offset: 31747},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 995, col: 5, offset: 31343},
+																		pos: position{line: 1007, col: 5, offset: 31747},
 																		expr: &actionExpr{
-																			pos: position{line: 690, col: 14, offset: 22173},
+																			pos: position{line: 702, col: 14, offset: 22577},
 																			run: (*parser).callonDocumentFragment627,
 																			expr: &seqExpr{
-																				pos: position{line: 690, col: 14, offset: 22173},
+																				pos: position{line: 702, col: 14, offset: 22577},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92782},
+																						pos: position{line: 2951, col: 11, offset: 93186},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92784,
+																							line: 2951, col: 13, offset: 93188,
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 690, col: 21, offset: 22180},
+																						pos: position{line: 702, col: 21, offset: 22584},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92448},
+																							pos: position{line: 2934, col: 10, offset: 92852},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92448},
+																								pos:        position{line: 2934, col: 10, offset: 92852},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6906,28 +6906,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92846},
+																						pos: position{line: 2956, col: 8, offset: 93250},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92619},
+																								pos: position{line: 2943, col: 12, offset: 93023},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92620},
+																									pos: position{line: 2943, col: 13, offset: 93024},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92620},
+																											pos:        position{line: 2943, col: 13, offset: 93024},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92627},
+																											pos:        position{line: 2943, col: 20, offset: 93031},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92636},
+																											pos:        position{line: 2943, col: 29, offset: 93040},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6936,9 +6936,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92796},
+																								pos: position{line: 2953, col: 8, offset: 93200},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92797,
+																									line: 2953, col: 9, offset: 93201,
 																								},
 																							},
 																						},
@@ -6948,21 +6948,21 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 996, col: 5, offset: 31358},
+																		pos:        position{line: 1008, col: 5, offset: 31762},
 																		val:        "> ",
 																		ignoreCase: false,
 																		want:       "\"> \"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 997, col: 5, offset: 31368},
+																		pos:   position{line: 1009, col: 5, offset: 31772},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 14, offset: 91041},
+																			pos: position{line: 2884, col: 14, offset: 91445},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2872, col: 14, offset: 91041},
+																				pos: position{line: 2884, col: 14, offset: 91445},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 14, offset: 91041},
+																					pos:        position{line: 2884, col: 14, offset: 91445},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -6972,28 +6972,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92846},
+																		pos: position{line: 2956, col: 8, offset: 93250},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
+																				pos: position{line: 2943, col: 12, offset: 93023},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7002,9 +7002,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92796},
+																				pos: position{line: 2953, col: 8, offset: 93200},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92797,
+																					line: 2953, col: 9, offset: 93201,
 																				},
 																			},
 																		},
@@ -7014,40 +7014,40 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 989, col: 5, offset: 31121},
+														pos:   position{line: 1001, col: 5, offset: 31525},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 989, col: 16, offset: 31132},
+															pos: position{line: 1001, col: 16, offset: 31536},
 															expr: &choiceExpr{
-																pos: position{line: 989, col: 17, offset: 31133},
+																pos: position{line: 1001, col: 17, offset: 31537},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 995, col: 5, offset: 31343},
+																		pos: position{line: 1007, col: 5, offset: 31747},
 																		run: (*parser).callonDocumentFragment658,
 																		expr: &seqExpr{
-																			pos: position{line: 995, col: 5, offset: 31343},
+																			pos: position{line: 1007, col: 5, offset: 31747},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 995, col: 5, offset: 31343},
+																					pos: position{line: 1007, col: 5, offset: 31747},
 																					expr: &actionExpr{
-																						pos: position{line: 690, col: 14, offset: 22173},
+																						pos: position{line: 702, col: 14, offset: 22577},
 																						run: (*parser).callonDocumentFragment661,
 																						expr: &seqExpr{
-																							pos: position{line: 690, col: 14, offset: 22173},
+																							pos: position{line: 702, col: 14, offset: 22577},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2939, col: 11, offset: 92782},
+																									pos: position{line: 2951, col: 11, offset: 93186},
 																									expr: &anyMatcher{
-																										line: 2939, col: 13, offset: 92784,
+																										line: 2951, col: 13, offset: 93188,
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 690, col: 21, offset: 22180},
+																									pos: position{line: 702, col: 21, offset: 22584},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92448},
+																										pos: position{line: 2934, col: 10, offset: 92852},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92448},
+																											pos:        position{line: 2934, col: 10, offset: 92852},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7056,28 +7056,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92846},
+																									pos: position{line: 2956, col: 8, offset: 93250},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92619},
+																											pos: position{line: 2943, col: 12, offset: 93023},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92620},
+																												pos: position{line: 2943, col: 13, offset: 93024},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92620},
+																														pos:        position{line: 2943, col: 13, offset: 93024},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92627},
+																														pos:        position{line: 2943, col: 20, offset: 93031},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92636},
+																														pos:        position{line: 2943, col: 29, offset: 93040},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7086,9 +7086,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92796},
+																											pos: position{line: 2953, col: 8, offset: 93200},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92797,
+																												line: 2953, col: 9, offset: 93201,
 																											},
 																										},
 																									},
@@ -7098,21 +7098,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 996, col: 5, offset: 31358},
+																					pos:        position{line: 1008, col: 5, offset: 31762},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 997, col: 5, offset: 31368},
+																					pos:   position{line: 1009, col: 5, offset: 31772},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2872, col: 14, offset: 91041},
+																						pos: position{line: 2884, col: 14, offset: 91445},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2872, col: 14, offset: 91041},
+																							pos: position{line: 2884, col: 14, offset: 91445},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 14, offset: 91041},
+																								pos:        position{line: 2884, col: 14, offset: 91445},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7122,28 +7122,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92846},
+																					pos: position{line: 2956, col: 8, offset: 93250},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92619},
+																							pos: position{line: 2943, col: 12, offset: 93023},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92620},
+																								pos: position{line: 2943, col: 13, offset: 93024},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92620},
+																										pos:        position{line: 2943, col: 13, offset: 93024},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92627},
+																										pos:        position{line: 2943, col: 20, offset: 93031},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92636},
+																										pos:        position{line: 2943, col: 29, offset: 93040},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7152,9 +7152,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92796},
+																							pos: position{line: 2953, col: 8, offset: 93200},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92797,
+																								line: 2953, col: 9, offset: 93201,
 																							},
 																						},
 																					},
@@ -7163,21 +7163,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1804, col: 5, offset: 58508},
+																		pos: position{line: 1816, col: 5, offset: 58912},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1804, col: 5, offset: 58508},
+																			pos: position{line: 1816, col: 5, offset: 58912},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1804, col: 5, offset: 58508},
+																					pos:   position{line: 1816, col: 5, offset: 58912},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2872, col: 14, offset: 91041},
+																						pos: position{line: 2884, col: 14, offset: 91445},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2872, col: 14, offset: 91041},
+																							pos: position{line: 2884, col: 14, offset: 91445},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 14, offset: 91041},
+																								pos:        position{line: 2884, col: 14, offset: 91445},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7187,32 +7187,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1805, col: 5, offset: 58532},
+																					pos: position{line: 1817, col: 5, offset: 58936},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92846},
+																					pos: position{line: 2956, col: 8, offset: 93250},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92619},
+																							pos: position{line: 2943, col: 12, offset: 93023},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92620},
+																								pos: position{line: 2943, col: 13, offset: 93024},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92620},
+																										pos:        position{line: 2943, col: 13, offset: 93024},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92627},
+																										pos:        position{line: 2943, col: 20, offset: 93031},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92636},
+																										pos:        position{line: 2943, col: 29, offset: 93040},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7221,9 +7221,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92796},
+																							pos: position{line: 2953, col: 8, offset: 93200},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92797,
+																								line: 2953, col: 9, offset: 93201,
 																							},
 																						},
 																					},
@@ -7239,28 +7239,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1010, col: 5, offset: 31633},
+											pos: position{line: 1022, col: 5, offset: 32037},
 											run: (*parser).callonDocumentFragment704,
 											expr: &seqExpr{
-												pos: position{line: 1010, col: 5, offset: 31633},
+												pos: position{line: 1022, col: 5, offset: 32037},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1010, col: 5, offset: 31633},
+														pos:   position{line: 1022, col: 5, offset: 32037},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 789, col: 5, offset: 25545},
+															pos: position{line: 801, col: 5, offset: 25949},
 															run: (*parser).callonDocumentFragment707,
 															expr: &seqExpr{
-																pos: position{line: 789, col: 5, offset: 25545},
+																pos: position{line: 801, col: 5, offset: 25949},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 789, col: 5, offset: 25545},
+																		pos:   position{line: 801, col: 5, offset: 25949},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 789, col: 16, offset: 25556},
+																			pos: position{line: 801, col: 16, offset: 25960},
 																			run: (*parser).callonDocumentFragment710,
 																			expr: &litMatcher{
-																				pos:        position{line: 789, col: 16, offset: 25556},
+																				pos:        position{line: 801, col: 16, offset: 25960},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -7268,12 +7268,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 791, col: 8, offset: 25633},
+																		pos: position{line: 803, col: 8, offset: 26037},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92448},
+																			pos: position{line: 2934, col: 10, offset: 92852},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92448},
+																				pos:        position{line: 2934, col: 10, offset: 92852},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7282,28 +7282,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92846},
+																		pos: position{line: 2956, col: 8, offset: 93250},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
+																				pos: position{line: 2943, col: 12, offset: 93023},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7312,9 +7312,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92796},
+																				pos: position{line: 2953, col: 8, offset: 93200},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92797,
+																					line: 2953, col: 9, offset: 93201,
 																				},
 																			},
 																		},
@@ -7324,35 +7324,35 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1011, col: 5, offset: 31669},
+														pos:   position{line: 1023, col: 5, offset: 32073},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1021, col: 5, offset: 31937},
+															pos: position{line: 1033, col: 5, offset: 32341},
 															expr: &actionExpr{
-																pos: position{line: 1021, col: 6, offset: 31938},
+																pos: position{line: 1033, col: 6, offset: 32342},
 																run: (*parser).callonDocumentFragment725,
 																expr: &seqExpr{
-																	pos: position{line: 1021, col: 6, offset: 31938},
+																	pos: position{line: 1033, col: 6, offset: 32342},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1021, col: 6, offset: 31938},
+																			pos: position{line: 1033, col: 6, offset: 32342},
 																			expr: &choiceExpr{
-																				pos: position{line: 1018, col: 26, offset: 31886},
+																				pos: position{line: 1030, col: 26, offset: 32290},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 789, col: 5, offset: 25545},
+																						pos: position{line: 801, col: 5, offset: 25949},
 																						run: (*parser).callonDocumentFragment729,
 																						expr: &seqExpr{
-																							pos: position{line: 789, col: 5, offset: 25545},
+																							pos: position{line: 801, col: 5, offset: 25949},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 789, col: 5, offset: 25545},
+																									pos:   position{line: 801, col: 5, offset: 25949},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 789, col: 16, offset: 25556},
+																										pos: position{line: 801, col: 16, offset: 25960},
 																										run: (*parser).callonDocumentFragment732,
 																										expr: &litMatcher{
-																											pos:        position{line: 789, col: 16, offset: 25556},
+																											pos:        position{line: 801, col: 16, offset: 25960},
 																											val:        "--",
 																											ignoreCase: false,
 																											want:       "\"--\"",
@@ -7360,12 +7360,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 791, col: 8, offset: 25633},
+																									pos: position{line: 803, col: 8, offset: 26037},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92448},
+																										pos: position{line: 2934, col: 10, offset: 92852},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92448},
+																											pos:        position{line: 2934, col: 10, offset: 92852},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7374,28 +7374,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92846},
+																									pos: position{line: 2956, col: 8, offset: 93250},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92619},
+																											pos: position{line: 2943, col: 12, offset: 93023},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92620},
+																												pos: position{line: 2943, col: 13, offset: 93024},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92620},
+																														pos:        position{line: 2943, col: 13, offset: 93024},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92627},
+																														pos:        position{line: 2943, col: 20, offset: 93031},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92636},
+																														pos:        position{line: 2943, col: 29, offset: 93040},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7404,9 +7404,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92796},
+																											pos: position{line: 2953, col: 8, offset: 93200},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92797,
+																												line: 2953, col: 9, offset: 93201,
 																											},
 																										},
 																									},
@@ -7415,39 +7415,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92796},
+																						pos: position{line: 2953, col: 8, offset: 93200},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92797,
+																							line: 2953, col: 9, offset: 93201,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1022, col: 5, offset: 31965},
+																			pos:   position{line: 1034, col: 5, offset: 32369},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 824, col: 5, offset: 26772},
+																				pos: position{line: 836, col: 5, offset: 27176},
 																				run: (*parser).callonDocumentFragment748,
 																				expr: &seqExpr{
-																					pos: position{line: 824, col: 5, offset: 26772},
+																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92782},
+																							pos: position{line: 2951, col: 11, offset: 93186},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92784,
+																								line: 2951, col: 13, offset: 93188,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 825, col: 5, offset: 26847},
+																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90974},
+																								pos: position{line: 2880, col: 13, offset: 91378},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90974},
+																									pos: position{line: 2880, col: 13, offset: 91378},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90974},
+																										pos:        position{line: 2880, col: 13, offset: 91378},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7457,28 +7457,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7487,9 +7487,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -7504,27 +7504,27 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1012, col: 5, offset: 31700},
+														pos:   position{line: 1024, col: 5, offset: 32104},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1012, col: 9, offset: 31704},
+															pos: position{line: 1024, col: 9, offset: 32108},
 															expr: &choiceExpr{
-																pos: position{line: 1018, col: 26, offset: 31886},
+																pos: position{line: 1030, col: 26, offset: 32290},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 789, col: 5, offset: 25545},
+																		pos: position{line: 801, col: 5, offset: 25949},
 																		run: (*parser).callonDocumentFragment767,
 																		expr: &seqExpr{
-																			pos: position{line: 789, col: 5, offset: 25545},
+																			pos: position{line: 801, col: 5, offset: 25949},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 789, col: 5, offset: 25545},
+																					pos:   position{line: 801, col: 5, offset: 25949},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 789, col: 16, offset: 25556},
+																						pos: position{line: 801, col: 16, offset: 25960},
 																						run: (*parser).callonDocumentFragment770,
 																						expr: &litMatcher{
-																							pos:        position{line: 789, col: 16, offset: 25556},
+																							pos:        position{line: 801, col: 16, offset: 25960},
 																							val:        "--",
 																							ignoreCase: false,
 																							want:       "\"--\"",
@@ -7532,12 +7532,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 791, col: 8, offset: 25633},
+																					pos: position{line: 803, col: 8, offset: 26037},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92448},
+																						pos: position{line: 2934, col: 10, offset: 92852},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92448},
+																							pos:        position{line: 2934, col: 10, offset: 92852},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7546,28 +7546,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92846},
+																					pos: position{line: 2956, col: 8, offset: 93250},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92619},
+																							pos: position{line: 2943, col: 12, offset: 93023},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92620},
+																								pos: position{line: 2943, col: 13, offset: 93024},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92620},
+																										pos:        position{line: 2943, col: 13, offset: 93024},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92627},
+																										pos:        position{line: 2943, col: 20, offset: 93031},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92636},
+																										pos:        position{line: 2943, col: 29, offset: 93040},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7576,9 +7576,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92796},
+																							pos: position{line: 2953, col: 8, offset: 93200},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92797,
+																								line: 2953, col: 9, offset: 93201,
 																							},
 																						},
 																					},
@@ -7587,9 +7587,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92796},
+																		pos: position{line: 2953, col: 8, offset: 93200},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92797,
+																			line: 2953, col: 9, offset: 93201,
 																		},
 																	},
 																},
@@ -7600,39 +7600,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1030, col: 5, offset: 32128},
+											pos: position{line: 1042, col: 5, offset: 32532},
 											run: (*parser).callonDocumentFragment785,
 											expr: &seqExpr{
-												pos: position{line: 1030, col: 5, offset: 32128},
+												pos: position{line: 1042, col: 5, offset: 32532},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1030, col: 5, offset: 32128},
+														pos:   position{line: 1042, col: 5, offset: 32532},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 803, col: 5, offset: 26028},
+															pos: position{line: 815, col: 5, offset: 26432},
 															run: (*parser).callonDocumentFragment788,
 															expr: &seqExpr{
-																pos: position{line: 803, col: 5, offset: 26028},
+																pos: position{line: 815, col: 5, offset: 26432},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 803, col: 5, offset: 26028},
+																		pos:   position{line: 815, col: 5, offset: 26432},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 803, col: 16, offset: 26039},
+																			pos: position{line: 815, col: 16, offset: 26443},
 																			run: (*parser).callonDocumentFragment791,
 																			expr: &seqExpr{
-																				pos: position{line: 803, col: 16, offset: 26039},
+																				pos: position{line: 815, col: 16, offset: 26443},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 803, col: 16, offset: 26039},
+																						pos:        position{line: 815, col: 16, offset: 26443},
 																						val:        "++++",
 																						ignoreCase: false,
 																						want:       "\"++++\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 803, col: 23, offset: 26046},
+																						pos: position{line: 815, col: 23, offset: 26450},
 																						expr: &litMatcher{
-																							pos:        position{line: 803, col: 23, offset: 26046},
+																							pos:        position{line: 815, col: 23, offset: 26450},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
@@ -7643,12 +7643,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 805, col: 8, offset: 26130},
+																		pos: position{line: 817, col: 8, offset: 26534},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92448},
+																			pos: position{line: 2934, col: 10, offset: 92852},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92448},
+																				pos:        position{line: 2934, col: 10, offset: 92852},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7657,28 +7657,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92846},
+																		pos: position{line: 2956, col: 8, offset: 93250},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
+																				pos: position{line: 2943, col: 12, offset: 93023},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7687,9 +7687,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92796},
+																				pos: position{line: 2953, col: 8, offset: 93200},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92797,
+																					line: 2953, col: 9, offset: 93201,
 																				},
 																			},
 																		},
@@ -7699,56 +7699,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1031, col: 5, offset: 32171},
+														pos: position{line: 1043, col: 5, offset: 32575},
 														run: (*parser).callonDocumentFragment807,
 													},
 													&labeledExpr{
-														pos:   position{line: 1034, col: 5, offset: 32263},
+														pos:   position{line: 1046, col: 5, offset: 32667},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1049, col: 5, offset: 32693},
+															pos: position{line: 1061, col: 5, offset: 33097},
 															expr: &actionExpr{
-																pos: position{line: 1049, col: 6, offset: 32694},
+																pos: position{line: 1061, col: 6, offset: 33098},
 																run: (*parser).callonDocumentFragment810,
 																expr: &seqExpr{
-																	pos: position{line: 1049, col: 6, offset: 32694},
+																	pos: position{line: 1061, col: 6, offset: 33098},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1049, col: 6, offset: 32694},
+																			pos: position{line: 1061, col: 6, offset: 33098},
 																			expr: &choiceExpr{
-																				pos: position{line: 1042, col: 5, offset: 32527},
+																				pos: position{line: 1054, col: 5, offset: 32931},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1042, col: 5, offset: 32527},
+																						pos: position{line: 1054, col: 5, offset: 32931},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1042, col: 5, offset: 32527},
+																								pos:   position{line: 1054, col: 5, offset: 32931},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 803, col: 5, offset: 26028},
+																									pos: position{line: 815, col: 5, offset: 26432},
 																									run: (*parser).callonDocumentFragment816,
 																									expr: &seqExpr{
-																										pos: position{line: 803, col: 5, offset: 26028},
+																										pos: position{line: 815, col: 5, offset: 26432},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 803, col: 5, offset: 26028},
+																												pos:   position{line: 815, col: 5, offset: 26432},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 803, col: 16, offset: 26039},
+																													pos: position{line: 815, col: 16, offset: 26443},
 																													run: (*parser).callonDocumentFragment819,
 																													expr: &seqExpr{
-																														pos: position{line: 803, col: 16, offset: 26039},
+																														pos: position{line: 815, col: 16, offset: 26443},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 803, col: 16, offset: 26039},
+																																pos:        position{line: 815, col: 16, offset: 26443},
 																																val:        "++++",
 																																ignoreCase: false,
 																																want:       "\"++++\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 803, col: 23, offset: 26046},
+																																pos: position{line: 815, col: 23, offset: 26450},
 																																expr: &litMatcher{
-																																	pos:        position{line: 803, col: 23, offset: 26046},
+																																	pos:        position{line: 815, col: 23, offset: 26450},
 																																	val:        "+",
 																																	ignoreCase: false,
 																																	want:       "\"+\"",
@@ -7759,12 +7759,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 805, col: 8, offset: 26130},
+																												pos: position{line: 817, col: 8, offset: 26534},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92448},
+																													pos: position{line: 2934, col: 10, offset: 92852},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92448},
+																														pos:        position{line: 2934, col: 10, offset: 92852},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7773,28 +7773,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92846},
+																												pos: position{line: 2956, col: 8, offset: 93250},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92619},
+																														pos: position{line: 2943, col: 12, offset: 93023},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92620},
+																															pos: position{line: 2943, col: 13, offset: 93024},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92620},
+																																	pos:        position{line: 2943, col: 13, offset: 93024},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92627},
+																																	pos:        position{line: 2943, col: 20, offset: 93031},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92636},
+																																	pos:        position{line: 2943, col: 29, offset: 93040},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7803,9 +7803,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92796},
+																														pos: position{line: 2953, col: 8, offset: 93200},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92797,
+																															line: 2953, col: 9, offset: 93201,
 																														},
 																													},
 																												},
@@ -7815,45 +7815,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1043, col: 5, offset: 32562},
+																								pos: position{line: 1055, col: 5, offset: 32966},
 																								run: (*parser).callonDocumentFragment835,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92796},
+																						pos: position{line: 2953, col: 8, offset: 93200},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92797,
+																							line: 2953, col: 9, offset: 93201,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1050, col: 5, offset: 32728},
+																			pos:   position{line: 1062, col: 5, offset: 33132},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 824, col: 5, offset: 26772},
+																				pos: position{line: 836, col: 5, offset: 27176},
 																				run: (*parser).callonDocumentFragment839,
 																				expr: &seqExpr{
-																					pos: position{line: 824, col: 5, offset: 26772},
+																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92782},
+																							pos: position{line: 2951, col: 11, offset: 93186},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92784,
+																								line: 2951, col: 13, offset: 93188,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 825, col: 5, offset: 26847},
+																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90974},
+																								pos: position{line: 2880, col: 13, offset: 91378},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90974},
+																									pos: position{line: 2880, col: 13, offset: 91378},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90974},
+																										pos:        position{line: 2880, col: 13, offset: 91378},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7863,28 +7863,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7893,9 +7893,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -7910,44 +7910,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1035, col: 5, offset: 32301},
+														pos:   position{line: 1047, col: 5, offset: 32705},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1035, col: 9, offset: 32305},
+															pos: position{line: 1047, col: 9, offset: 32709},
 															expr: &choiceExpr{
-																pos: position{line: 1042, col: 5, offset: 32527},
+																pos: position{line: 1054, col: 5, offset: 32931},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1042, col: 5, offset: 32527},
+																		pos: position{line: 1054, col: 5, offset: 32931},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1042, col: 5, offset: 32527},
+																				pos:   position{line: 1054, col: 5, offset: 32931},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 803, col: 5, offset: 26028},
+																					pos: position{line: 815, col: 5, offset: 26432},
 																					run: (*parser).callonDocumentFragment860,
 																					expr: &seqExpr{
-																						pos: position{line: 803, col: 5, offset: 26028},
+																						pos: position{line: 815, col: 5, offset: 26432},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 803, col: 5, offset: 26028},
+																								pos:   position{line: 815, col: 5, offset: 26432},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 803, col: 16, offset: 26039},
+																									pos: position{line: 815, col: 16, offset: 26443},
 																									run: (*parser).callonDocumentFragment863,
 																									expr: &seqExpr{
-																										pos: position{line: 803, col: 16, offset: 26039},
+																										pos: position{line: 815, col: 16, offset: 26443},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 803, col: 16, offset: 26039},
+																												pos:        position{line: 815, col: 16, offset: 26443},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 803, col: 23, offset: 26046},
+																												pos: position{line: 815, col: 23, offset: 26450},
 																												expr: &litMatcher{
-																													pos:        position{line: 803, col: 23, offset: 26046},
+																													pos:        position{line: 815, col: 23, offset: 26450},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -7958,12 +7958,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 805, col: 8, offset: 26130},
+																								pos: position{line: 817, col: 8, offset: 26534},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92448},
+																									pos: position{line: 2934, col: 10, offset: 92852},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92448},
+																										pos:        position{line: 2934, col: 10, offset: 92852},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7972,28 +7972,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92846},
+																								pos: position{line: 2956, col: 8, offset: 93250},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92619},
+																										pos: position{line: 2943, col: 12, offset: 93023},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92620},
+																											pos: position{line: 2943, col: 13, offset: 93024},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92620},
+																													pos:        position{line: 2943, col: 13, offset: 93024},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92627},
+																													pos:        position{line: 2943, col: 20, offset: 93031},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92636},
+																													pos:        position{line: 2943, col: 29, offset: 93040},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8002,9 +8002,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92796},
+																										pos: position{line: 2953, col: 8, offset: 93200},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92797,
+																											line: 2953, col: 9, offset: 93201,
 																										},
 																									},
 																								},
@@ -8014,15 +8014,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1043, col: 5, offset: 32562},
+																				pos: position{line: 1055, col: 5, offset: 32966},
 																				run: (*parser).callonDocumentFragment879,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92796},
+																		pos: position{line: 2953, col: 8, offset: 93200},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92797,
+																			line: 2953, col: 9, offset: 93201,
 																		},
 																	},
 																},
@@ -8033,39 +8033,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1058, col: 5, offset: 32879},
+											pos: position{line: 1070, col: 5, offset: 33283},
 											run: (*parser).callonDocumentFragment882,
 											expr: &seqExpr{
-												pos: position{line: 1058, col: 5, offset: 32879},
+												pos: position{line: 1070, col: 5, offset: 33283},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1058, col: 5, offset: 32879},
+														pos:   position{line: 1070, col: 5, offset: 33283},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 810, col: 5, offset: 26278},
+															pos: position{line: 822, col: 5, offset: 26682},
 															run: (*parser).callonDocumentFragment885,
 															expr: &seqExpr{
-																pos: position{line: 810, col: 5, offset: 26278},
+																pos: position{line: 822, col: 5, offset: 26682},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 810, col: 5, offset: 26278},
+																		pos:   position{line: 822, col: 5, offset: 26682},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 16, offset: 26289},
+																			pos: position{line: 822, col: 16, offset: 26693},
 																			run: (*parser).callonDocumentFragment888,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 16, offset: 26289},
+																				pos: position{line: 822, col: 16, offset: 26693},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 810, col: 16, offset: 26289},
+																						pos:        position{line: 822, col: 16, offset: 26693},
 																						val:        "____",
 																						ignoreCase: false,
 																						want:       "\"____\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 810, col: 23, offset: 26296},
+																						pos: position{line: 822, col: 23, offset: 26700},
 																						expr: &litMatcher{
-																							pos:        position{line: 810, col: 23, offset: 26296},
+																							pos:        position{line: 822, col: 23, offset: 26700},
 																							val:        "_",
 																							ignoreCase: false,
 																							want:       "\"_\"",
@@ -8076,12 +8076,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 812, col: 8, offset: 26380},
+																		pos: position{line: 824, col: 8, offset: 26784},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92448},
+																			pos: position{line: 2934, col: 10, offset: 92852},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92448},
+																				pos:        position{line: 2934, col: 10, offset: 92852},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8090,28 +8090,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92846},
+																		pos: position{line: 2956, col: 8, offset: 93250},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
+																				pos: position{line: 2943, col: 12, offset: 93023},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8120,9 +8120,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92796},
+																				pos: position{line: 2953, col: 8, offset: 93200},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92797,
+																					line: 2953, col: 9, offset: 93201,
 																				},
 																			},
 																		},
@@ -8132,56 +8132,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1059, col: 5, offset: 32916},
+														pos: position{line: 1071, col: 5, offset: 33320},
 														run: (*parser).callonDocumentFragment904,
 													},
 													&labeledExpr{
-														pos:   position{line: 1062, col: 5, offset: 33008},
+														pos:   position{line: 1074, col: 5, offset: 33412},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1077, col: 4, offset: 33389},
+															pos: position{line: 1089, col: 4, offset: 33793},
 															expr: &actionExpr{
-																pos: position{line: 1077, col: 5, offset: 33390},
+																pos: position{line: 1089, col: 5, offset: 33794},
 																run: (*parser).callonDocumentFragment907,
 																expr: &seqExpr{
-																	pos: position{line: 1077, col: 5, offset: 33390},
+																	pos: position{line: 1089, col: 5, offset: 33794},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1077, col: 5, offset: 33390},
+																			pos: position{line: 1089, col: 5, offset: 33794},
 																			expr: &choiceExpr{
-																				pos: position{line: 1070, col: 5, offset: 33236},
+																				pos: position{line: 1082, col: 5, offset: 33640},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1070, col: 5, offset: 33236},
+																						pos: position{line: 1082, col: 5, offset: 33640},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1070, col: 5, offset: 33236},
+																								pos:   position{line: 1082, col: 5, offset: 33640},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 810, col: 5, offset: 26278},
+																									pos: position{line: 822, col: 5, offset: 26682},
 																									run: (*parser).callonDocumentFragment913,
 																									expr: &seqExpr{
-																										pos: position{line: 810, col: 5, offset: 26278},
+																										pos: position{line: 822, col: 5, offset: 26682},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 810, col: 5, offset: 26278},
+																												pos:   position{line: 822, col: 5, offset: 26682},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 810, col: 16, offset: 26289},
+																													pos: position{line: 822, col: 16, offset: 26693},
 																													run: (*parser).callonDocumentFragment916,
 																													expr: &seqExpr{
-																														pos: position{line: 810, col: 16, offset: 26289},
+																														pos: position{line: 822, col: 16, offset: 26693},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 810, col: 16, offset: 26289},
+																																pos:        position{line: 822, col: 16, offset: 26693},
 																																val:        "____",
 																																ignoreCase: false,
 																																want:       "\"____\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 810, col: 23, offset: 26296},
+																																pos: position{line: 822, col: 23, offset: 26700},
 																																expr: &litMatcher{
-																																	pos:        position{line: 810, col: 23, offset: 26296},
+																																	pos:        position{line: 822, col: 23, offset: 26700},
 																																	val:        "_",
 																																	ignoreCase: false,
 																																	want:       "\"_\"",
@@ -8192,12 +8192,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 812, col: 8, offset: 26380},
+																												pos: position{line: 824, col: 8, offset: 26784},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92448},
+																													pos: position{line: 2934, col: 10, offset: 92852},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92448},
+																														pos:        position{line: 2934, col: 10, offset: 92852},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8206,28 +8206,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92846},
+																												pos: position{line: 2956, col: 8, offset: 93250},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92619},
+																														pos: position{line: 2943, col: 12, offset: 93023},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92620},
+																															pos: position{line: 2943, col: 13, offset: 93024},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92620},
+																																	pos:        position{line: 2943, col: 13, offset: 93024},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92627},
+																																	pos:        position{line: 2943, col: 20, offset: 93031},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92636},
+																																	pos:        position{line: 2943, col: 29, offset: 93040},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8236,9 +8236,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92796},
+																														pos: position{line: 2953, col: 8, offset: 93200},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92797,
+																															line: 2953, col: 9, offset: 93201,
 																														},
 																													},
 																												},
@@ -8248,45 +8248,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1071, col: 5, offset: 33265},
+																								pos: position{line: 1083, col: 5, offset: 33669},
 																								run: (*parser).callonDocumentFragment932,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92796},
+																						pos: position{line: 2953, col: 8, offset: 93200},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92797,
+																							line: 2953, col: 9, offset: 93201,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1078, col: 5, offset: 33418},
+																			pos:   position{line: 1090, col: 5, offset: 33822},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 824, col: 5, offset: 26772},
+																				pos: position{line: 836, col: 5, offset: 27176},
 																				run: (*parser).callonDocumentFragment936,
 																				expr: &seqExpr{
-																					pos: position{line: 824, col: 5, offset: 26772},
+																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92782},
+																							pos: position{line: 2951, col: 11, offset: 93186},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92784,
+																								line: 2951, col: 13, offset: 93188,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 825, col: 5, offset: 26847},
+																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90974},
+																								pos: position{line: 2880, col: 13, offset: 91378},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90974},
+																									pos: position{line: 2880, col: 13, offset: 91378},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90974},
+																										pos:        position{line: 2880, col: 13, offset: 91378},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8296,28 +8296,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8326,9 +8326,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -8343,44 +8343,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1063, col: 5, offset: 33040},
+														pos:   position{line: 1075, col: 5, offset: 33444},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1063, col: 9, offset: 33044},
+															pos: position{line: 1075, col: 9, offset: 33448},
 															expr: &choiceExpr{
-																pos: position{line: 1070, col: 5, offset: 33236},
+																pos: position{line: 1082, col: 5, offset: 33640},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1070, col: 5, offset: 33236},
+																		pos: position{line: 1082, col: 5, offset: 33640},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1070, col: 5, offset: 33236},
+																				pos:   position{line: 1082, col: 5, offset: 33640},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 810, col: 5, offset: 26278},
+																					pos: position{line: 822, col: 5, offset: 26682},
 																					run: (*parser).callonDocumentFragment957,
 																					expr: &seqExpr{
-																						pos: position{line: 810, col: 5, offset: 26278},
+																						pos: position{line: 822, col: 5, offset: 26682},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 810, col: 5, offset: 26278},
+																								pos:   position{line: 822, col: 5, offset: 26682},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 810, col: 16, offset: 26289},
+																									pos: position{line: 822, col: 16, offset: 26693},
 																									run: (*parser).callonDocumentFragment960,
 																									expr: &seqExpr{
-																										pos: position{line: 810, col: 16, offset: 26289},
+																										pos: position{line: 822, col: 16, offset: 26693},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 810, col: 16, offset: 26289},
+																												pos:        position{line: 822, col: 16, offset: 26693},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 810, col: 23, offset: 26296},
+																												pos: position{line: 822, col: 23, offset: 26700},
 																												expr: &litMatcher{
-																													pos:        position{line: 810, col: 23, offset: 26296},
+																													pos:        position{line: 822, col: 23, offset: 26700},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -8391,12 +8391,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 812, col: 8, offset: 26380},
+																								pos: position{line: 824, col: 8, offset: 26784},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92448},
+																									pos: position{line: 2934, col: 10, offset: 92852},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92448},
+																										pos:        position{line: 2934, col: 10, offset: 92852},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8405,28 +8405,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92846},
+																								pos: position{line: 2956, col: 8, offset: 93250},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92619},
+																										pos: position{line: 2943, col: 12, offset: 93023},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92620},
+																											pos: position{line: 2943, col: 13, offset: 93024},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92620},
+																													pos:        position{line: 2943, col: 13, offset: 93024},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92627},
+																													pos:        position{line: 2943, col: 20, offset: 93031},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92636},
+																													pos:        position{line: 2943, col: 29, offset: 93040},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8435,9 +8435,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92796},
+																										pos: position{line: 2953, col: 8, offset: 93200},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92797,
+																											line: 2953, col: 9, offset: 93201,
 																										},
 																									},
 																								},
@@ -8447,15 +8447,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1071, col: 5, offset: 33265},
+																				pos: position{line: 1083, col: 5, offset: 33669},
 																				run: (*parser).callonDocumentFragment976,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92796},
+																		pos: position{line: 2953, col: 8, offset: 93200},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92797,
+																			line: 2953, col: 9, offset: 93201,
 																		},
 																	},
 																},
@@ -8466,39 +8466,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1086, col: 5, offset: 33573},
+											pos: position{line: 1098, col: 5, offset: 33977},
 											run: (*parser).callonDocumentFragment979,
 											expr: &seqExpr{
-												pos: position{line: 1086, col: 5, offset: 33573},
+												pos: position{line: 1098, col: 5, offset: 33977},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1086, col: 5, offset: 33573},
+														pos:   position{line: 1098, col: 5, offset: 33977},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 817, col: 5, offset: 26524},
+															pos: position{line: 829, col: 5, offset: 26928},
 															run: (*parser).callonDocumentFragment982,
 															expr: &seqExpr{
-																pos: position{line: 817, col: 5, offset: 26524},
+																pos: position{line: 829, col: 5, offset: 26928},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 817, col: 5, offset: 26524},
+																		pos:   position{line: 829, col: 5, offset: 26928},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 817, col: 16, offset: 26535},
+																			pos: position{line: 829, col: 16, offset: 26939},
 																			run: (*parser).callonDocumentFragment985,
 																			expr: &seqExpr{
-																				pos: position{line: 817, col: 16, offset: 26535},
+																				pos: position{line: 829, col: 16, offset: 26939},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 817, col: 16, offset: 26535},
+																						pos:        position{line: 829, col: 16, offset: 26939},
 																						val:        "****",
 																						ignoreCase: false,
 																						want:       "\"****\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 817, col: 23, offset: 26542},
+																						pos: position{line: 829, col: 23, offset: 26946},
 																						expr: &litMatcher{
-																							pos:        position{line: 817, col: 23, offset: 26542},
+																							pos:        position{line: 829, col: 23, offset: 26946},
 																							val:        "*",
 																							ignoreCase: false,
 																							want:       "\"*\"",
@@ -8509,12 +8509,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 819, col: 8, offset: 26626},
+																		pos: position{line: 831, col: 8, offset: 27030},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92448},
+																			pos: position{line: 2934, col: 10, offset: 92852},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92448},
+																				pos:        position{line: 2934, col: 10, offset: 92852},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8523,28 +8523,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92846},
+																		pos: position{line: 2956, col: 8, offset: 93250},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
+																				pos: position{line: 2943, col: 12, offset: 93023},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8553,9 +8553,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92796},
+																				pos: position{line: 2953, col: 8, offset: 93200},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92797,
+																					line: 2953, col: 9, offset: 93201,
 																				},
 																			},
 																		},
@@ -8565,56 +8565,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1087, col: 5, offset: 33612},
+														pos: position{line: 1099, col: 5, offset: 34016},
 														run: (*parser).callonDocumentFragment1001,
 													},
 													&labeledExpr{
-														pos:   position{line: 1090, col: 5, offset: 33704},
+														pos:   position{line: 1102, col: 5, offset: 34108},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1105, col: 4, offset: 34101},
+															pos: position{line: 1117, col: 4, offset: 34505},
 															expr: &actionExpr{
-																pos: position{line: 1105, col: 5, offset: 34102},
+																pos: position{line: 1117, col: 5, offset: 34506},
 																run: (*parser).callonDocumentFragment1004,
 																expr: &seqExpr{
-																	pos: position{line: 1105, col: 5, offset: 34102},
+																	pos: position{line: 1117, col: 5, offset: 34506},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1105, col: 5, offset: 34102},
+																			pos: position{line: 1117, col: 5, offset: 34506},
 																			expr: &choiceExpr{
-																				pos: position{line: 1098, col: 5, offset: 33944},
+																				pos: position{line: 1110, col: 5, offset: 34348},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1098, col: 5, offset: 33944},
+																						pos: position{line: 1110, col: 5, offset: 34348},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1098, col: 5, offset: 33944},
+																								pos:   position{line: 1110, col: 5, offset: 34348},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 817, col: 5, offset: 26524},
+																									pos: position{line: 829, col: 5, offset: 26928},
 																									run: (*parser).callonDocumentFragment1010,
 																									expr: &seqExpr{
-																										pos: position{line: 817, col: 5, offset: 26524},
+																										pos: position{line: 829, col: 5, offset: 26928},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 817, col: 5, offset: 26524},
+																												pos:   position{line: 829, col: 5, offset: 26928},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 817, col: 16, offset: 26535},
+																													pos: position{line: 829, col: 16, offset: 26939},
 																													run: (*parser).callonDocumentFragment1013,
 																													expr: &seqExpr{
-																														pos: position{line: 817, col: 16, offset: 26535},
+																														pos: position{line: 829, col: 16, offset: 26939},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 817, col: 16, offset: 26535},
+																																pos:        position{line: 829, col: 16, offset: 26939},
 																																val:        "****",
 																																ignoreCase: false,
 																																want:       "\"****\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 817, col: 23, offset: 26542},
+																																pos: position{line: 829, col: 23, offset: 26946},
 																																expr: &litMatcher{
-																																	pos:        position{line: 817, col: 23, offset: 26542},
+																																	pos:        position{line: 829, col: 23, offset: 26946},
 																																	val:        "*",
 																																	ignoreCase: false,
 																																	want:       "\"*\"",
@@ -8625,12 +8625,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 819, col: 8, offset: 26626},
+																												pos: position{line: 831, col: 8, offset: 27030},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92448},
+																													pos: position{line: 2934, col: 10, offset: 92852},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92448},
+																														pos:        position{line: 2934, col: 10, offset: 92852},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8639,28 +8639,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92846},
+																												pos: position{line: 2956, col: 8, offset: 93250},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92619},
+																														pos: position{line: 2943, col: 12, offset: 93023},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92620},
+																															pos: position{line: 2943, col: 13, offset: 93024},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92620},
+																																	pos:        position{line: 2943, col: 13, offset: 93024},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92627},
+																																	pos:        position{line: 2943, col: 20, offset: 93031},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92636},
+																																	pos:        position{line: 2943, col: 29, offset: 93040},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8669,9 +8669,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92796},
+																														pos: position{line: 2953, col: 8, offset: 93200},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92797,
+																															line: 2953, col: 9, offset: 93201,
 																														},
 																													},
 																												},
@@ -8681,45 +8681,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1099, col: 5, offset: 33975},
+																								pos: position{line: 1111, col: 5, offset: 34379},
 																								run: (*parser).callonDocumentFragment1029,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92796},
+																						pos: position{line: 2953, col: 8, offset: 93200},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92797,
+																							line: 2953, col: 9, offset: 93201,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1106, col: 5, offset: 34132},
+																			pos:   position{line: 1118, col: 5, offset: 34536},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 824, col: 5, offset: 26772},
+																				pos: position{line: 836, col: 5, offset: 27176},
 																				run: (*parser).callonDocumentFragment1033,
 																				expr: &seqExpr{
-																					pos: position{line: 824, col: 5, offset: 26772},
+																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92782},
+																							pos: position{line: 2951, col: 11, offset: 93186},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92784,
+																								line: 2951, col: 13, offset: 93188,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 825, col: 5, offset: 26847},
+																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90974},
+																								pos: position{line: 2880, col: 13, offset: 91378},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90974},
+																									pos: position{line: 2880, col: 13, offset: 91378},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90974},
+																										pos:        position{line: 2880, col: 13, offset: 91378},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8729,28 +8729,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8759,9 +8759,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -8776,44 +8776,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1091, col: 5, offset: 33738},
+														pos:   position{line: 1103, col: 5, offset: 34142},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1091, col: 9, offset: 33742},
+															pos: position{line: 1103, col: 9, offset: 34146},
 															expr: &choiceExpr{
-																pos: position{line: 1098, col: 5, offset: 33944},
+																pos: position{line: 1110, col: 5, offset: 34348},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1098, col: 5, offset: 33944},
+																		pos: position{line: 1110, col: 5, offset: 34348},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1098, col: 5, offset: 33944},
+																				pos:   position{line: 1110, col: 5, offset: 34348},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 817, col: 5, offset: 26524},
+																					pos: position{line: 829, col: 5, offset: 26928},
 																					run: (*parser).callonDocumentFragment1054,
 																					expr: &seqExpr{
-																						pos: position{line: 817, col: 5, offset: 26524},
+																						pos: position{line: 829, col: 5, offset: 26928},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 817, col: 5, offset: 26524},
+																								pos:   position{line: 829, col: 5, offset: 26928},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 817, col: 16, offset: 26535},
+																									pos: position{line: 829, col: 16, offset: 26939},
 																									run: (*parser).callonDocumentFragment1057,
 																									expr: &seqExpr{
-																										pos: position{line: 817, col: 16, offset: 26535},
+																										pos: position{line: 829, col: 16, offset: 26939},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 817, col: 16, offset: 26535},
+																												pos:        position{line: 829, col: 16, offset: 26939},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 817, col: 23, offset: 26542},
+																												pos: position{line: 829, col: 23, offset: 26946},
 																												expr: &litMatcher{
-																													pos:        position{line: 817, col: 23, offset: 26542},
+																													pos:        position{line: 829, col: 23, offset: 26946},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -8824,12 +8824,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 819, col: 8, offset: 26626},
+																								pos: position{line: 831, col: 8, offset: 27030},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92448},
+																									pos: position{line: 2934, col: 10, offset: 92852},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92448},
+																										pos:        position{line: 2934, col: 10, offset: 92852},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8838,28 +8838,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92846},
+																								pos: position{line: 2956, col: 8, offset: 93250},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92619},
+																										pos: position{line: 2943, col: 12, offset: 93023},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92620},
+																											pos: position{line: 2943, col: 13, offset: 93024},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92620},
+																													pos:        position{line: 2943, col: 13, offset: 93024},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92627},
+																													pos:        position{line: 2943, col: 20, offset: 93031},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92636},
+																													pos:        position{line: 2943, col: 29, offset: 93040},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8868,9 +8868,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92796},
+																										pos: position{line: 2953, col: 8, offset: 93200},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92797,
+																											line: 2953, col: 9, offset: 93201,
 																										},
 																									},
 																								},
@@ -8880,15 +8880,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1099, col: 5, offset: 33975},
+																				pos: position{line: 1111, col: 5, offset: 34379},
 																				run: (*parser).callonDocumentFragment1073,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92796},
+																		pos: position{line: 2953, col: 8, offset: 93200},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92797,
+																			line: 2953, col: 9, offset: 93201,
 																		},
 																	},
 																},
@@ -8899,52 +8899,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2767, col: 18, offset: 88038},
+											pos: position{line: 2779, col: 18, offset: 88442},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2767, col: 18, offset: 88038},
+												pos: position{line: 2779, col: 18, offset: 88442},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2768, col: 9, offset: 88048},
+														pos: position{line: 2780, col: 9, offset: 88452},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2768, col: 9, offset: 88048},
+																pos:        position{line: 2780, col: 9, offset: 88452},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2769, col: 11, offset: 88084},
+																pos:        position{line: 2781, col: 11, offset: 88488},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2769, col: 19, offset: 88092},
+																pos:        position{line: 2781, col: 19, offset: 88496},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2769, col: 29, offset: 88102},
+																pos:        position{line: 2781, col: 29, offset: 88506},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2769, col: 37, offset: 88110},
+																pos:        position{line: 2781, col: 37, offset: 88514},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2769, col: 47, offset: 88120},
+																pos:        position{line: 2781, col: 47, offset: 88524},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2769, col: 55, offset: 88128},
+																pos:        position{line: 2781, col: 55, offset: 88532},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -8952,12 +8952,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2770, col: 11, offset: 88186},
+														pos: position{line: 2782, col: 11, offset: 88590},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92448},
+															pos: position{line: 2934, col: 10, offset: 92852},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92448},
+																pos:        position{line: 2934, col: 10, offset: 92852},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -8966,28 +8966,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92846},
+														pos: position{line: 2956, col: 8, offset: 93250},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92619},
+																pos: position{line: 2943, col: 12, offset: 93023},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92620},
+																	pos: position{line: 2943, col: 13, offset: 93024},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92620},
+																			pos:        position{line: 2943, col: 13, offset: 93024},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92627},
+																			pos:        position{line: 2943, col: 20, offset: 93031},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92636},
+																			pos:        position{line: 2943, col: 29, offset: 93040},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -8996,36 +8996,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92796},
+																pos: position{line: 2953, col: 8, offset: 93200},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92797,
+																	line: 2953, col: 9, offset: 93201,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92846},
+														pos: position{line: 2956, col: 8, offset: 93250},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92619},
+																pos: position{line: 2943, col: 12, offset: 93023},
 																run: (*parser).callonDocumentFragment1098,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92620},
+																	pos: position{line: 2943, col: 13, offset: 93024},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92620},
+																			pos:        position{line: 2943, col: 13, offset: 93024},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92627},
+																			pos:        position{line: 2943, col: 20, offset: 93031},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92636},
+																			pos:        position{line: 2943, col: 29, offset: 93040},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9034,9 +9034,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92796},
+																pos: position{line: 2953, col: 8, offset: 93200},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92797,
+																	line: 2953, col: 9, offset: 93201,
 																},
 															},
 														},
@@ -9049,24 +9049,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2651, col: 5, offset: 84795},
+											pos: position{line: 2663, col: 5, offset: 85199},
 											run: (*parser).callonDocumentFragment1106,
 											expr: &seqExpr{
-												pos: position{line: 2651, col: 5, offset: 84795},
+												pos: position{line: 2663, col: 5, offset: 85199},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2657, col: 19, offset: 84972},
+														pos:        position{line: 2669, col: 19, offset: 85376},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2657, col: 26, offset: 84979},
+														pos: position{line: 2669, col: 26, offset: 85383},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92448},
+															pos: position{line: 2934, col: 10, offset: 92852},
 															run: (*parser).callonDocumentFragment1110,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92448},
+																pos:        position{line: 2934, col: 10, offset: 92852},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9075,28 +9075,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92846},
+														pos: position{line: 2956, col: 8, offset: 93250},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92619},
+																pos: position{line: 2943, col: 12, offset: 93023},
 																run: (*parser).callonDocumentFragment1113,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92620},
+																	pos: position{line: 2943, col: 13, offset: 93024},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92620},
+																			pos:        position{line: 2943, col: 13, offset: 93024},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92627},
+																			pos:        position{line: 2943, col: 20, offset: 93031},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92636},
+																			pos:        position{line: 2943, col: 29, offset: 93040},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9105,40 +9105,40 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92796},
+																pos: position{line: 2953, col: 8, offset: 93200},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92797,
+																	line: 2953, col: 9, offset: 93201,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2652, col: 5, offset: 84819},
+														pos:   position{line: 2664, col: 5, offset: 85223},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2652, col: 11, offset: 84825},
+															pos: position{line: 2664, col: 11, offset: 85229},
 															expr: &choiceExpr{
-																pos: position{line: 2652, col: 12, offset: 84826},
+																pos: position{line: 2664, col: 12, offset: 85230},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 690, col: 14, offset: 22173},
+																		pos: position{line: 702, col: 14, offset: 22577},
 																		run: (*parser).callonDocumentFragment1123,
 																		expr: &seqExpr{
-																			pos: position{line: 690, col: 14, offset: 22173},
+																			pos: position{line: 702, col: 14, offset: 22577},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2939, col: 11, offset: 92782},
+																					pos: position{line: 2951, col: 11, offset: 93186},
 																					expr: &anyMatcher{
-																						line: 2939, col: 13, offset: 92784,
+																						line: 2951, col: 13, offset: 93188,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 690, col: 21, offset: 22180},
+																					pos: position{line: 702, col: 21, offset: 22584},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92448},
+																						pos: position{line: 2934, col: 10, offset: 92852},
 																						run: (*parser).callonDocumentFragment1128,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92448},
+																							pos:        position{line: 2934, col: 10, offset: 92852},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9147,28 +9147,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92846},
+																					pos: position{line: 2956, col: 8, offset: 93250},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92619},
+																							pos: position{line: 2943, col: 12, offset: 93023},
 																							run: (*parser).callonDocumentFragment1131,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92620},
+																								pos: position{line: 2943, col: 13, offset: 93024},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92620},
+																										pos:        position{line: 2943, col: 13, offset: 93024},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92627},
+																										pos:        position{line: 2943, col: 20, offset: 93031},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92636},
+																										pos:        position{line: 2943, col: 29, offset: 93040},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9177,9 +9177,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92796},
+																							pos: position{line: 2953, col: 8, offset: 93200},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92797,
+																								line: 2953, col: 9, offset: 93201,
 																							},
 																						},
 																					},
@@ -9188,36 +9188,36 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2525, col: 22, offset: 81226},
+																		pos: position{line: 2537, col: 22, offset: 81630},
 																		run: (*parser).callonDocumentFragment1138,
 																		expr: &seqExpr{
-																			pos: position{line: 2525, col: 22, offset: 81226},
+																			pos: position{line: 2537, col: 22, offset: 81630},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2530, col: 31, offset: 81476},
+																					pos:        position{line: 2542, col: 31, offset: 81880},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																				&notExpr{
-																					pos: position{line: 2530, col: 36, offset: 81481},
+																					pos: position{line: 2542, col: 36, offset: 81885},
 																					expr: &litMatcher{
-																						pos:        position{line: 2530, col: 37, offset: 81482},
+																						pos:        position{line: 2542, col: 37, offset: 81886},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2525, col: 49, offset: 81253},
+																					pos:   position{line: 2537, col: 49, offset: 81657},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2868, col: 13, offset: 90974},
+																						pos: position{line: 2880, col: 13, offset: 91378},
 																						run: (*parser).callonDocumentFragment1144,
 																						expr: &zeroOrMoreExpr{
-																							pos: position{line: 2868, col: 13, offset: 90974},
+																							pos: position{line: 2880, col: 13, offset: 91378},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 13, offset: 90974},
+																								pos:        position{line: 2880, col: 13, offset: 91378},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -9227,28 +9227,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92846},
+																					pos: position{line: 2956, col: 8, offset: 93250},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92619},
+																							pos: position{line: 2943, col: 12, offset: 93023},
 																							run: (*parser).callonDocumentFragment1148,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92620},
+																								pos: position{line: 2943, col: 13, offset: 93024},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92620},
+																										pos:        position{line: 2943, col: 13, offset: 93024},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92627},
+																										pos:        position{line: 2943, col: 20, offset: 93031},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92636},
+																										pos:        position{line: 2943, col: 29, offset: 93040},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9257,9 +9257,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92796},
+																							pos: position{line: 2953, col: 8, offset: 93200},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92797,
+																								line: 2953, col: 9, offset: 93201,
 																							},
 																						},
 																					},
@@ -9268,32 +9268,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2664, col: 5, offset: 85091},
+																		pos: position{line: 2676, col: 5, offset: 85495},
 																		run: (*parser).callonDocumentFragment1155,
 																		expr: &seqExpr{
-																			pos: position{line: 2664, col: 5, offset: 85091},
+																			pos: position{line: 2676, col: 5, offset: 85495},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2664, col: 5, offset: 85091},
+																					pos: position{line: 2676, col: 5, offset: 85495},
 																					expr: &choiceExpr{
-																						pos: position{line: 2661, col: 22, offset: 85052},
+																						pos: position{line: 2673, col: 22, offset: 85456},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2657, col: 19, offset: 84972},
+																								pos: position{line: 2669, col: 19, offset: 85376},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2657, col: 19, offset: 84972},
+																										pos:        position{line: 2669, col: 19, offset: 85376},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2657, col: 26, offset: 84979},
+																										pos: position{line: 2669, col: 26, offset: 85383},
 																										expr: &actionExpr{
-																											pos: position{line: 2922, col: 10, offset: 92448},
+																											pos: position{line: 2934, col: 10, offset: 92852},
 																											run: (*parser).callonDocumentFragment1162,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2922, col: 10, offset: 92448},
+																												pos:        position{line: 2934, col: 10, offset: 92852},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9302,28 +9302,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2944, col: 8, offset: 92846},
+																										pos: position{line: 2956, col: 8, offset: 93250},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2931, col: 12, offset: 92619},
+																												pos: position{line: 2943, col: 12, offset: 93023},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &choiceExpr{
-																													pos: position{line: 2931, col: 13, offset: 92620},
+																													pos: position{line: 2943, col: 13, offset: 93024},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2931, col: 13, offset: 92620},
+																															pos:        position{line: 2943, col: 13, offset: 93024},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2931, col: 20, offset: 92627},
+																															pos:        position{line: 2943, col: 20, offset: 93031},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2931, col: 29, offset: 92636},
+																															pos:        position{line: 2943, col: 29, offset: 93040},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9332,9 +9332,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2941, col: 8, offset: 92796},
+																												pos: position{line: 2953, col: 8, offset: 93200},
 																												expr: &anyMatcher{
-																													line: 2941, col: 9, offset: 92797,
+																													line: 2953, col: 9, offset: 93201,
 																												},
 																											},
 																										},
@@ -9342,59 +9342,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92796},
+																								pos: position{line: 2953, col: 8, offset: 93200},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92797,
+																									line: 2953, col: 9, offset: 93201,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2665, col: 5, offset: 85114},
+																					pos:   position{line: 2677, col: 5, offset: 85518},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2666, col: 9, offset: 85132},
+																						pos: position{line: 2678, col: 9, offset: 85536},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2666, col: 10, offset: 85133},
+																								pos: position{line: 2678, col: 10, offset: 85537},
 																								run: (*parser).callonDocumentFragment1176,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2666, col: 10, offset: 85133},
+																									pos:   position{line: 2678, col: 10, offset: 85537},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2666, col: 17, offset: 85140},
+																										pos: position{line: 2678, col: 17, offset: 85544},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2674, col: 21, offset: 85336},
+																												pos: position{line: 2686, col: 21, offset: 85740},
 																												run: (*parser).callonDocumentFragment1179,
 																												expr: &seqExpr{
-																													pos: position{line: 2674, col: 21, offset: 85336},
+																													pos: position{line: 2686, col: 21, offset: 85740},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2674, col: 21, offset: 85336},
+																															pos:   position{line: 2686, col: 21, offset: 85740},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2674, col: 27, offset: 85342},
+																																pos: position{line: 2686, col: 27, offset: 85746},
 																																expr: &actionExpr{
-																																	pos: position{line: 2679, col: 5, offset: 85417},
+																																	pos: position{line: 2691, col: 5, offset: 85821},
 																																	run: (*parser).callonDocumentFragment1183,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2679, col: 5, offset: 85417},
+																																		pos: position{line: 2691, col: 5, offset: 85821},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2679, col: 5, offset: 85417},
+																																				pos:        position{line: 2691, col: 5, offset: 85821},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2679, col: 9, offset: 85421},
+																																				pos: position{line: 2691, col: 9, offset: 85825},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2922, col: 10, offset: 92448},
+																																					pos: position{line: 2934, col: 10, offset: 92852},
 																																					run: (*parser).callonDocumentFragment1187,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2922, col: 10, offset: 92448},
+																																						pos:        position{line: 2934, col: 10, offset: 92852},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9403,21 +9403,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2679, col: 16, offset: 85428},
+																																				pos:   position{line: 2691, col: 16, offset: 85832},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2685, col: 5, offset: 85628},
+																																					pos: position{line: 2697, col: 5, offset: 86032},
 																																					run: (*parser).callonDocumentFragment1190,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2685, col: 5, offset: 85628},
+																																						pos:   position{line: 2697, col: 5, offset: 86032},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2685, col: 14, offset: 85637},
+																																							pos: position{line: 2697, col: 14, offset: 86041},
 																																							run: (*parser).callonDocumentFragment1192,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2685, col: 14, offset: 85637},
+																																								pos: position{line: 2697, col: 14, offset: 86041},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2685, col: 14, offset: 85637},
+																																									pos:        position{line: 2697, col: 14, offset: 86041},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9434,28 +9434,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2944, col: 8, offset: 92846},
+																															pos: position{line: 2956, col: 8, offset: 93250},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2931, col: 12, offset: 92619},
+																																	pos: position{line: 2943, col: 12, offset: 93023},
 																																	run: (*parser).callonDocumentFragment1196,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2931, col: 13, offset: 92620},
+																																		pos: position{line: 2943, col: 13, offset: 93024},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2931, col: 13, offset: 92620},
+																																				pos:        position{line: 2943, col: 13, offset: 93024},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2931, col: 20, offset: 92627},
+																																				pos:        position{line: 2943, col: 20, offset: 93031},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2931, col: 29, offset: 92636},
+																																				pos:        position{line: 2943, col: 29, offset: 93040},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9464,9 +9464,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2941, col: 8, offset: 92796},
+																																	pos: position{line: 2953, col: 8, offset: 93200},
 																																	expr: &anyMatcher{
-																																		line: 2941, col: 9, offset: 92797,
+																																		line: 2953, col: 9, offset: 93201,
 																																	},
 																																},
 																															},
@@ -9475,40 +9475,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2691, col: 24, offset: 85773},
+																												pos: position{line: 2703, col: 24, offset: 86177},
 																												run: (*parser).callonDocumentFragment1203,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2691, col: 24, offset: 85773},
+																													pos:   position{line: 2703, col: 24, offset: 86177},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2691, col: 30, offset: 85779},
+																														pos: position{line: 2703, col: 30, offset: 86183},
 																														expr: &actionExpr{
-																															pos: position{line: 2696, col: 5, offset: 85855},
+																															pos: position{line: 2708, col: 5, offset: 86259},
 																															run: (*parser).callonDocumentFragment1206,
 																															expr: &seqExpr{
-																																pos: position{line: 2696, col: 5, offset: 85855},
+																																pos: position{line: 2708, col: 5, offset: 86259},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2696, col: 5, offset: 85855},
+																																		pos: position{line: 2708, col: 5, offset: 86259},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2661, col: 22, offset: 85052},
+																																			pos: position{line: 2673, col: 22, offset: 85456},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2657, col: 19, offset: 84972},
+																																					pos: position{line: 2669, col: 19, offset: 85376},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2657, col: 19, offset: 84972},
+																																							pos:        position{line: 2669, col: 19, offset: 85376},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2657, col: 26, offset: 84979},
+																																							pos: position{line: 2669, col: 26, offset: 85383},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2922, col: 10, offset: 92448},
+																																								pos: position{line: 2934, col: 10, offset: 92852},
 																																								run: (*parser).callonDocumentFragment1213,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2922, col: 10, offset: 92448},
+																																									pos:        position{line: 2934, col: 10, offset: 92852},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9517,28 +9517,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2944, col: 8, offset: 92846},
+																																							pos: position{line: 2956, col: 8, offset: 93250},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2931, col: 12, offset: 92619},
+																																									pos: position{line: 2943, col: 12, offset: 93023},
 																																									run: (*parser).callonDocumentFragment1216,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2931, col: 13, offset: 92620},
+																																										pos: position{line: 2943, col: 13, offset: 93024},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2931, col: 13, offset: 92620},
+																																												pos:        position{line: 2943, col: 13, offset: 93024},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2931, col: 20, offset: 92627},
+																																												pos:        position{line: 2943, col: 20, offset: 93031},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2931, col: 29, offset: 92636},
+																																												pos:        position{line: 2943, col: 29, offset: 93040},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9547,9 +9547,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2941, col: 8, offset: 92796},
+																																									pos: position{line: 2953, col: 8, offset: 93200},
 																																									expr: &anyMatcher{
-																																										line: 2941, col: 9, offset: 92797,
+																																										line: 2953, col: 9, offset: 93201,
 																																									},
 																																								},
 																																							},
@@ -9557,35 +9557,35 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2941, col: 8, offset: 92796},
+																																					pos: position{line: 2953, col: 8, offset: 93200},
 																																					expr: &anyMatcher{
-																																						line: 2941, col: 9, offset: 92797,
+																																						line: 2953, col: 9, offset: 93201,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2697, col: 5, offset: 85878},
+																																		pos: position{line: 2709, col: 5, offset: 86282},
 																																		expr: &actionExpr{
-																																			pos: position{line: 690, col: 14, offset: 22173},
+																																			pos: position{line: 702, col: 14, offset: 22577},
 																																			run: (*parser).callonDocumentFragment1226,
 																																			expr: &seqExpr{
-																																				pos: position{line: 690, col: 14, offset: 22173},
+																																				pos: position{line: 702, col: 14, offset: 22577},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2939, col: 11, offset: 92782},
+																																						pos: position{line: 2951, col: 11, offset: 93186},
 																																						expr: &anyMatcher{
-																																							line: 2939, col: 13, offset: 92784,
+																																							line: 2951, col: 13, offset: 93188,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 690, col: 21, offset: 22180},
+																																						pos: position{line: 702, col: 21, offset: 22584},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2922, col: 10, offset: 92448},
+																																							pos: position{line: 2934, col: 10, offset: 92852},
 																																							run: (*parser).callonDocumentFragment1231,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2922, col: 10, offset: 92448},
+																																								pos:        position{line: 2934, col: 10, offset: 92852},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9594,28 +9594,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2944, col: 8, offset: 92846},
+																																						pos: position{line: 2956, col: 8, offset: 93250},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2931, col: 12, offset: 92619},
+																																								pos: position{line: 2943, col: 12, offset: 93023},
 																																								run: (*parser).callonDocumentFragment1234,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2931, col: 13, offset: 92620},
+																																									pos: position{line: 2943, col: 13, offset: 93024},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2931, col: 13, offset: 92620},
+																																											pos:        position{line: 2943, col: 13, offset: 93024},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2931, col: 20, offset: 92627},
+																																											pos:        position{line: 2943, col: 20, offset: 93031},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2931, col: 29, offset: 92636},
+																																											pos:        position{line: 2943, col: 29, offset: 93040},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9624,9 +9624,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2941, col: 8, offset: 92796},
+																																								pos: position{line: 2953, col: 8, offset: 93200},
 																																								expr: &anyMatcher{
-																																									line: 2941, col: 9, offset: 92797,
+																																									line: 2953, col: 9, offset: 93201,
 																																								},
 																																							},
 																																						},
@@ -9636,17 +9636,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2698, col: 5, offset: 85893},
+																																		pos:   position{line: 2710, col: 5, offset: 86297},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2698, col: 12, offset: 85900},
+																																			pos: position{line: 2710, col: 12, offset: 86304},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2722, col: 20, offset: 86523},
+																																				pos: position{line: 2734, col: 20, offset: 86927},
 																																				run: (*parser).callonDocumentFragment1243,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2722, col: 20, offset: 86523},
+																																					pos: position{line: 2734, col: 20, offset: 86927},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2722, col: 20, offset: 86523},
+																																						pos:        position{line: 2734, col: 20, offset: 86927},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9657,18 +9657,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2698, col: 31, offset: 85919},
+																																		pos:        position{line: 2710, col: 31, offset: 86323},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2698, col: 35, offset: 85923},
+																																		pos: position{line: 2710, col: 35, offset: 86327},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2922, col: 10, offset: 92448},
+																																			pos: position{line: 2934, col: 10, offset: 92852},
 																																			run: (*parser).callonDocumentFragment1248,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2922, col: 10, offset: 92448},
+																																				pos:        position{line: 2934, col: 10, offset: 92852},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9677,27 +9677,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2698, col: 42, offset: 85930},
+																																		pos: position{line: 2710, col: 42, offset: 86334},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2931, col: 12, offset: 92619},
+																																			pos: position{line: 2943, col: 12, offset: 93023},
 																																			run: (*parser).callonDocumentFragment1251,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2931, col: 13, offset: 92620},
+																																				pos: position{line: 2943, col: 13, offset: 93024},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2931, col: 13, offset: 92620},
+																																						pos:        position{line: 2943, col: 13, offset: 93024},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2931, col: 20, offset: 92627},
+																																						pos:        position{line: 2943, col: 20, offset: 93031},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2931, col: 29, offset: 92636},
+																																						pos:        position{line: 2943, col: 29, offset: 93040},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9707,57 +9707,57 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2698, col: 51, offset: 85939},
+																																		pos:   position{line: 2710, col: 51, offset: 86343},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2704, col: 5, offset: 86098},
+																																			pos: position{line: 2716, col: 5, offset: 86502},
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2705, col: 9, offset: 86108},
+																																				pos: position{line: 2717, col: 9, offset: 86512},
 																																				alternatives: []interface{}{
 																																					&actionExpr{
-																																						pos: position{line: 2705, col: 9, offset: 86108},
+																																						pos: position{line: 2717, col: 9, offset: 86512},
 																																						run: (*parser).callonDocumentFragment1259,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2705, col: 9, offset: 86108},
+																																							pos: position{line: 2717, col: 9, offset: 86512},
 																																							exprs: []interface{}{
 																																								&andCodeExpr{
-																																									pos: position{line: 2705, col: 9, offset: 86108},
+																																									pos: position{line: 2717, col: 9, offset: 86512},
 																																									run: (*parser).callonDocumentFragment1261,
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2708, col: 9, offset: 86177},
+																																									pos:   position{line: 2720, col: 9, offset: 86581},
 																																									label: "comment",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2525, col: 22, offset: 81226},
+																																										pos: position{line: 2537, col: 22, offset: 81630},
 																																										run: (*parser).callonDocumentFragment1263,
 																																										expr: &seqExpr{
-																																											pos: position{line: 2525, col: 22, offset: 81226},
+																																											pos: position{line: 2537, col: 22, offset: 81630},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2530, col: 31, offset: 81476},
+																																													pos:        position{line: 2542, col: 31, offset: 81880},
 																																													val:        "//",
 																																													ignoreCase: false,
 																																													want:       "\"//\"",
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2530, col: 36, offset: 81481},
+																																													pos: position{line: 2542, col: 36, offset: 81885},
 																																													expr: &litMatcher{
-																																														pos:        position{line: 2530, col: 37, offset: 81482},
+																																														pos:        position{line: 2542, col: 37, offset: 81886},
 																																														val:        "/",
 																																														ignoreCase: false,
 																																														want:       "\"/\"",
 																																													},
 																																												},
 																																												&labeledExpr{
-																																													pos:   position{line: 2525, col: 49, offset: 81253},
+																																													pos:   position{line: 2537, col: 49, offset: 81657},
 																																													label: "content",
 																																													expr: &actionExpr{
-																																														pos: position{line: 2868, col: 13, offset: 90974},
+																																														pos: position{line: 2880, col: 13, offset: 91378},
 																																														run: (*parser).callonDocumentFragment1269,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2868, col: 13, offset: 90974},
+																																															pos: position{line: 2880, col: 13, offset: 91378},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2868, col: 13, offset: 90974},
+																																																pos:        position{line: 2880, col: 13, offset: 91378},
 																																																val:        "[^\\r\\n]",
 																																																chars:      []rune{'\r', '\n'},
 																																																ignoreCase: false,
@@ -9767,28 +9767,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2944, col: 8, offset: 92846},
+																																													pos: position{line: 2956, col: 8, offset: 93250},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2931, col: 12, offset: 92619},
+																																															pos: position{line: 2943, col: 12, offset: 93023},
 																																															run: (*parser).callonDocumentFragment1273,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2931, col: 13, offset: 92620},
+																																																pos: position{line: 2943, col: 13, offset: 93024},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 13, offset: 92620},
+																																																		pos:        position{line: 2943, col: 13, offset: 93024},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 20, offset: 92627},
+																																																		pos:        position{line: 2943, col: 20, offset: 93031},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 29, offset: 92636},
+																																																		pos:        position{line: 2943, col: 29, offset: 93040},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -9797,9 +9797,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2941, col: 8, offset: 92796},
+																																															pos: position{line: 2953, col: 8, offset: 93200},
 																																															expr: &anyMatcher{
-																																																line: 2941, col: 9, offset: 92797,
+																																																line: 2953, col: 9, offset: 93201,
 																																															},
 																																														},
 																																													},
@@ -9812,32 +9812,32 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&actionExpr{
-																																						pos: position{line: 2712, col: 9, offset: 86267},
+																																						pos: position{line: 2724, col: 9, offset: 86671},
 																																						run: (*parser).callonDocumentFragment1280,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2712, col: 9, offset: 86267},
+																																							pos: position{line: 2724, col: 9, offset: 86671},
 																																							exprs: []interface{}{
 																																								&notExpr{
-																																									pos: position{line: 2712, col: 9, offset: 86267},
+																																									pos: position{line: 2724, col: 9, offset: 86671},
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2661, col: 22, offset: 85052},
+																																										pos: position{line: 2673, col: 22, offset: 85456},
 																																										alternatives: []interface{}{
 																																											&seqExpr{
-																																												pos: position{line: 2657, col: 19, offset: 84972},
+																																												pos: position{line: 2669, col: 19, offset: 85376},
 																																												exprs: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2657, col: 19, offset: 84972},
+																																														pos:        position{line: 2669, col: 19, offset: 85376},
 																																														val:        "|===",
 																																														ignoreCase: false,
 																																														want:       "\"|===\"",
 																																													},
 																																													&zeroOrMoreExpr{
-																																														pos: position{line: 2657, col: 26, offset: 84979},
+																																														pos: position{line: 2669, col: 26, offset: 85383},
 																																														expr: &actionExpr{
-																																															pos: position{line: 2922, col: 10, offset: 92448},
+																																															pos: position{line: 2934, col: 10, offset: 92852},
 																																															run: (*parser).callonDocumentFragment1287,
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2922, col: 10, offset: 92448},
+																																																pos:        position{line: 2934, col: 10, offset: 92852},
 																																																val:        "[\\t ]",
 																																																chars:      []rune{'\t', ' '},
 																																																ignoreCase: false,
@@ -9846,28 +9846,28 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&choiceExpr{
-																																														pos: position{line: 2944, col: 8, offset: 92846},
+																																														pos: position{line: 2956, col: 8, offset: 93250},
 																																														alternatives: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2931, col: 12, offset: 92619},
+																																																pos: position{line: 2943, col: 12, offset: 93023},
 																																																run: (*parser).callonDocumentFragment1290,
 																																																expr: &choiceExpr{
-																																																	pos: position{line: 2931, col: 13, offset: 92620},
+																																																	pos: position{line: 2943, col: 13, offset: 93024},
 																																																	alternatives: []interface{}{
 																																																		&litMatcher{
-																																																			pos:        position{line: 2931, col: 13, offset: 92620},
+																																																			pos:        position{line: 2943, col: 13, offset: 93024},
 																																																			val:        "\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2931, col: 20, offset: 92627},
+																																																			pos:        position{line: 2943, col: 20, offset: 93031},
 																																																			val:        "\r\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2931, col: 29, offset: 92636},
+																																																			pos:        position{line: 2943, col: 29, offset: 93040},
 																																																			val:        "\r",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\"",
@@ -9876,9 +9876,9 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&notExpr{
-																																																pos: position{line: 2941, col: 8, offset: 92796},
+																																																pos: position{line: 2953, col: 8, offset: 93200},
 																																																expr: &anyMatcher{
-																																																	line: 2941, col: 9, offset: 92797,
+																																																	line: 2953, col: 9, offset: 93201,
 																																																},
 																																															},
 																																														},
@@ -9886,35 +9886,35 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2941, col: 8, offset: 92796},
+																																												pos: position{line: 2953, col: 8, offset: 93200},
 																																												expr: &anyMatcher{
-																																													line: 2941, col: 9, offset: 92797,
+																																													line: 2953, col: 9, offset: 93201,
 																																												},
 																																											},
 																																										},
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2713, col: 9, offset: 86294},
+																																									pos: position{line: 2725, col: 9, offset: 86698},
 																																									expr: &actionExpr{
-																																										pos: position{line: 690, col: 14, offset: 22173},
+																																										pos: position{line: 702, col: 14, offset: 22577},
 																																										run: (*parser).callonDocumentFragment1300,
 																																										expr: &seqExpr{
-																																											pos: position{line: 690, col: 14, offset: 22173},
+																																											pos: position{line: 702, col: 14, offset: 22577},
 																																											exprs: []interface{}{
 																																												&andExpr{
-																																													pos: position{line: 2939, col: 11, offset: 92782},
+																																													pos: position{line: 2951, col: 11, offset: 93186},
 																																													expr: &anyMatcher{
-																																														line: 2939, col: 13, offset: 92784,
+																																														line: 2951, col: 13, offset: 93188,
 																																													},
 																																												},
 																																												&zeroOrMoreExpr{
-																																													pos: position{line: 690, col: 21, offset: 22180},
+																																													pos: position{line: 702, col: 21, offset: 22584},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2922, col: 10, offset: 92448},
+																																														pos: position{line: 2934, col: 10, offset: 92852},
 																																														run: (*parser).callonDocumentFragment1305,
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2922, col: 10, offset: 92448},
+																																															pos:        position{line: 2934, col: 10, offset: 92852},
 																																															val:        "[\\t ]",
 																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
@@ -9923,28 +9923,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2944, col: 8, offset: 92846},
+																																													pos: position{line: 2956, col: 8, offset: 93250},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2931, col: 12, offset: 92619},
+																																															pos: position{line: 2943, col: 12, offset: 93023},
 																																															run: (*parser).callonDocumentFragment1308,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2931, col: 13, offset: 92620},
+																																																pos: position{line: 2943, col: 13, offset: 93024},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 13, offset: 92620},
+																																																		pos:        position{line: 2943, col: 13, offset: 93024},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 20, offset: 92627},
+																																																		pos:        position{line: 2943, col: 20, offset: 93031},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 29, offset: 92636},
+																																																		pos:        position{line: 2943, col: 29, offset: 93040},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -9953,9 +9953,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2941, col: 8, offset: 92796},
+																																															pos: position{line: 2953, col: 8, offset: 93200},
 																																															expr: &anyMatcher{
-																																																line: 2941, col: 9, offset: 92797,
+																																																line: 2953, col: 9, offset: 93201,
 																																															},
 																																														},
 																																													},
@@ -9965,22 +9965,22 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2714, col: 9, offset: 86313},
+																																									pos: position{line: 2726, col: 9, offset: 86717},
 																																									expr: &seqExpr{
-																																										pos: position{line: 2714, col: 11, offset: 86315},
+																																										pos: position{line: 2726, col: 11, offset: 86719},
 																																										exprs: []interface{}{
 																																											&labeledExpr{
-																																												pos:   position{line: 2714, col: 11, offset: 86315},
+																																												pos:   position{line: 2726, col: 11, offset: 86719},
 																																												label: "format",
 																																												expr: &zeroOrOneExpr{
-																																													pos: position{line: 2714, col: 18, offset: 86322},
+																																													pos: position{line: 2726, col: 18, offset: 86726},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2722, col: 20, offset: 86523},
+																																														pos: position{line: 2734, col: 20, offset: 86927},
 																																														run: (*parser).callonDocumentFragment1319,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2722, col: 20, offset: 86523},
+																																															pos: position{line: 2734, col: 20, offset: 86927},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2722, col: 20, offset: 86523},
+																																																pos:        position{line: 2734, col: 20, offset: 86927},
 																																																val:        "[^ |\\r\\n]",
 																																																chars:      []rune{' ', '|', '\r', '\n'},
 																																																ignoreCase: false,
@@ -9991,7 +9991,7 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2714, col: 37, offset: 86341},
+																																												pos:        position{line: 2726, col: 37, offset: 86745},
 																																												val:        "|",
 																																												ignoreCase: false,
 																																												want:       "\"|\"",
@@ -10000,15 +10000,15 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2715, col: 9, offset: 86354},
+																																									pos:   position{line: 2727, col: 9, offset: 86758},
 																																									label: "content",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2715, col: 18, offset: 86363},
+																																										pos: position{line: 2727, col: 18, offset: 86767},
 																																										run: (*parser).callonDocumentFragment1324,
 																																										expr: &zeroOrMoreExpr{
-																																											pos: position{line: 2715, col: 18, offset: 86363},
+																																											pos: position{line: 2727, col: 18, offset: 86767},
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2715, col: 18, offset: 86363},
+																																												pos:        position{line: 2727, col: 18, offset: 86767},
 																																												val:        "[^|\\r\\n]",
 																																												chars:      []rune{'|', '\r', '\n'},
 																																												ignoreCase: false,
@@ -10018,30 +10018,30 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&zeroOrOneExpr{
-																																									pos: position{line: 2717, col: 12, offset: 86425},
+																																									pos: position{line: 2729, col: 12, offset: 86829},
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2944, col: 8, offset: 92846},
+																																										pos: position{line: 2956, col: 8, offset: 93250},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2931, col: 12, offset: 92619},
+																																												pos: position{line: 2943, col: 12, offset: 93023},
 																																												run: (*parser).callonDocumentFragment1329,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2931, col: 13, offset: 92620},
+																																													pos: position{line: 2943, col: 13, offset: 93024},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2931, col: 13, offset: 92620},
+																																															pos:        position{line: 2943, col: 13, offset: 93024},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2931, col: 20, offset: 92627},
+																																															pos:        position{line: 2943, col: 20, offset: 93031},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2931, col: 29, offset: 92636},
+																																															pos:        position{line: 2943, col: 29, offset: 93040},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -10050,9 +10050,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2941, col: 8, offset: 92796},
+																																												pos: position{line: 2953, col: 8, offset: 93200},
 																																												expr: &anyMatcher{
-																																													line: 2941, col: 9, offset: 92797,
+																																													line: 2953, col: 9, offset: 93201,
 																																												},
 																																											},
 																																										},
@@ -10076,24 +10076,24 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 690, col: 14, offset: 22173},
+																								pos: position{line: 702, col: 14, offset: 22577},
 																								run: (*parser).callonDocumentFragment1336,
 																								expr: &seqExpr{
-																									pos: position{line: 690, col: 14, offset: 22173},
+																									pos: position{line: 702, col: 14, offset: 22577},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2939, col: 11, offset: 92782},
+																											pos: position{line: 2951, col: 11, offset: 93186},
 																											expr: &anyMatcher{
-																												line: 2939, col: 13, offset: 92784,
+																												line: 2951, col: 13, offset: 93188,
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 690, col: 21, offset: 22180},
+																											pos: position{line: 702, col: 21, offset: 22584},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92448},
+																												pos: position{line: 2934, col: 10, offset: 92852},
 																												run: (*parser).callonDocumentFragment1341,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92448},
+																													pos:        position{line: 2934, col: 10, offset: 92852},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10102,28 +10102,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92846},
+																											pos: position{line: 2956, col: 8, offset: 93250},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92619},
+																													pos: position{line: 2943, col: 12, offset: 93023},
 																													run: (*parser).callonDocumentFragment1344,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92620},
+																														pos: position{line: 2943, col: 13, offset: 93024},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92620},
+																																pos:        position{line: 2943, col: 13, offset: 93024},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92627},
+																																pos:        position{line: 2943, col: 20, offset: 93031},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92636},
+																																pos:        position{line: 2943, col: 29, offset: 93040},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10132,9 +10132,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92796},
+																													pos: position{line: 2953, col: 8, offset: 93200},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92797,
+																														line: 2953, col: 9, offset: 93201,
 																													},
 																												},
 																											},
@@ -10153,24 +10153,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2661, col: 22, offset: 85052},
+														pos: position{line: 2673, col: 22, offset: 85456},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2657, col: 19, offset: 84972},
+																pos: position{line: 2669, col: 19, offset: 85376},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2657, col: 19, offset: 84972},
+																		pos:        position{line: 2669, col: 19, offset: 85376},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2657, col: 26, offset: 84979},
+																		pos: position{line: 2669, col: 26, offset: 85383},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92448},
+																			pos: position{line: 2934, col: 10, offset: 92852},
 																			run: (*parser).callonDocumentFragment1355,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92448},
+																				pos:        position{line: 2934, col: 10, offset: 92852},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10179,28 +10179,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92846},
+																		pos: position{line: 2956, col: 8, offset: 93250},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
+																				pos: position{line: 2943, col: 12, offset: 93023},
 																				run: (*parser).callonDocumentFragment1358,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10209,9 +10209,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92796},
+																				pos: position{line: 2953, col: 8, offset: 93200},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92797,
+																					line: 2953, col: 9, offset: 93201,
 																				},
 																			},
 																		},
@@ -10219,9 +10219,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92796},
+																pos: position{line: 2953, col: 8, offset: 93200},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92797,
+																	line: 2953, col: 9, offset: 93201,
 																},
 															},
 														},
@@ -10230,36 +10230,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2525, col: 22, offset: 81226},
+											pos: position{line: 2537, col: 22, offset: 81630},
 											run: (*parser).callonDocumentFragment1367,
 											expr: &seqExpr{
-												pos: position{line: 2525, col: 22, offset: 81226},
+												pos: position{line: 2537, col: 22, offset: 81630},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2530, col: 31, offset: 81476},
+														pos:        position{line: 2542, col: 31, offset: 81880},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2530, col: 36, offset: 81481},
+														pos: position{line: 2542, col: 36, offset: 81885},
 														expr: &litMatcher{
-															pos:        position{line: 2530, col: 37, offset: 81482},
+															pos:        position{line: 2542, col: 37, offset: 81886},
 															val:        "/",
 															ignoreCase: false,
 															want:       "\"/\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2525, col: 49, offset: 81253},
+														pos:   position{line: 2537, col: 49, offset: 81657},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2868, col: 13, offset: 90974},
+															pos: position{line: 2880, col: 13, offset: 91378},
 															run: (*parser).callonDocumentFragment1373,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2868, col: 13, offset: 90974},
+																pos: position{line: 2880, col: 13, offset: 91378},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2868, col: 13, offset: 90974},
+																	pos:        position{line: 2880, col: 13, offset: 91378},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10269,28 +10269,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92846},
+														pos: position{line: 2956, col: 8, offset: 93250},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92619},
+																pos: position{line: 2943, col: 12, offset: 93023},
 																run: (*parser).callonDocumentFragment1377,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92620},
+																	pos: position{line: 2943, col: 13, offset: 93024},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92620},
+																			pos:        position{line: 2943, col: 13, offset: 93024},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92627},
+																			pos:        position{line: 2943, col: 20, offset: 93031},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92636},
+																			pos:        position{line: 2943, col: 29, offset: 93040},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10299,9 +10299,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92796},
+																pos: position{line: 2953, col: 8, offset: 93200},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92797,
+																	line: 2953, col: 9, offset: 93201,
 																},
 															},
 														},
@@ -10310,37 +10310,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1235, col: 5, offset: 38597},
+											pos: position{line: 1247, col: 5, offset: 39001},
 											run: (*parser).callonDocumentFragment1384,
 											expr: &seqExpr{
-												pos: position{line: 1235, col: 5, offset: 38597},
+												pos: position{line: 1247, col: 5, offset: 39001},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1235, col: 5, offset: 38597},
+														pos: position{line: 1247, col: 5, offset: 39001},
 														run: (*parser).callonDocumentFragment1386,
 													},
 													&labeledExpr{
-														pos:   position{line: 1238, col: 5, offset: 38655},
+														pos:   position{line: 1250, col: 5, offset: 39059},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1243, col: 20, offset: 38750},
+															pos: position{line: 1255, col: 20, offset: 39154},
 															run: (*parser).callonDocumentFragment1388,
 															expr: &seqExpr{
-																pos: position{line: 1243, col: 20, offset: 38750},
+																pos: position{line: 1255, col: 20, offset: 39154},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1247, col: 30, offset: 38922},
+																		pos:        position{line: 1259, col: 30, offset: 39326},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1247, col: 36, offset: 38928},
+																		pos: position{line: 1259, col: 36, offset: 39332},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92448},
+																			pos: position{line: 2934, col: 10, offset: 92852},
 																			run: (*parser).callonDocumentFragment1392,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92448},
+																				pos:        position{line: 2934, col: 10, offset: 92852},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10349,28 +10349,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92846},
+																		pos: position{line: 2956, col: 8, offset: 93250},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
+																				pos: position{line: 2943, col: 12, offset: 93023},
 																				run: (*parser).callonDocumentFragment1395,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10379,46 +10379,46 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92796},
+																				pos: position{line: 2953, col: 8, offset: 93200},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92797,
+																					line: 2953, col: 9, offset: 93201,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1243, col: 45, offset: 38775},
+																		pos:   position{line: 1255, col: 45, offset: 39179},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1243, col: 53, offset: 38783},
+																			pos: position{line: 1255, col: 53, offset: 39187},
 																			expr: &actionExpr{
-																				pos: position{line: 1249, col: 27, offset: 38966},
+																				pos: position{line: 1261, col: 27, offset: 39370},
 																				run: (*parser).callonDocumentFragment1404,
 																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1249, col: 27, offset: 38966},
+																					pos: position{line: 1261, col: 27, offset: 39370},
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1249, col: 28, offset: 38967},
+																						pos: position{line: 1261, col: 28, offset: 39371},
 																						expr: &seqExpr{
-																							pos: position{line: 1249, col: 29, offset: 38968},
+																							pos: position{line: 1261, col: 29, offset: 39372},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 1249, col: 29, offset: 38968},
+																									pos: position{line: 1261, col: 29, offset: 39372},
 																									expr: &seqExpr{
-																										pos: position{line: 1247, col: 30, offset: 38922},
+																										pos: position{line: 1259, col: 30, offset: 39326},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 1247, col: 30, offset: 38922},
+																												pos:        position{line: 1259, col: 30, offset: 39326},
 																												val:        "---",
 																												ignoreCase: false,
 																												want:       "\"---\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 1247, col: 36, offset: 38928},
+																												pos: position{line: 1259, col: 36, offset: 39332},
 																												expr: &actionExpr{
-																													pos: position{line: 2922, col: 10, offset: 92448},
+																													pos: position{line: 2934, col: 10, offset: 92852},
 																													run: (*parser).callonDocumentFragment1412,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2922, col: 10, offset: 92448},
+																														pos:        position{line: 2934, col: 10, offset: 92852},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10427,28 +10427,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2944, col: 8, offset: 92846},
+																												pos: position{line: 2956, col: 8, offset: 93250},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2931, col: 12, offset: 92619},
+																														pos: position{line: 2943, col: 12, offset: 93023},
 																														run: (*parser).callonDocumentFragment1415,
 																														expr: &choiceExpr{
-																															pos: position{line: 2931, col: 13, offset: 92620},
+																															pos: position{line: 2943, col: 13, offset: 93024},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 13, offset: 92620},
+																																	pos:        position{line: 2943, col: 13, offset: 93024},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 20, offset: 92627},
+																																	pos:        position{line: 2943, col: 20, offset: 93031},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2931, col: 29, offset: 92636},
+																																	pos:        position{line: 2943, col: 29, offset: 93040},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10457,9 +10457,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2941, col: 8, offset: 92796},
+																														pos: position{line: 2953, col: 8, offset: 93200},
 																														expr: &anyMatcher{
-																															line: 2941, col: 9, offset: 92797,
+																															line: 2953, col: 9, offset: 93201,
 																														},
 																													},
 																												},
@@ -10468,7 +10468,7 @@ var g = &grammar{
 																									},
 																								},
 																								&anyMatcher{
-																									line: 1249, col: 55, offset: 38994,
+																									line: 1261, col: 55, offset: 39398,
 																								},
 																							},
 																						},
@@ -10478,18 +10478,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1247, col: 30, offset: 38922},
+																		pos:        position{line: 1259, col: 30, offset: 39326},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1247, col: 36, offset: 38928},
+																		pos: position{line: 1259, col: 36, offset: 39332},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92448},
+																			pos: position{line: 2934, col: 10, offset: 92852},
 																			run: (*parser).callonDocumentFragment1425,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92448},
+																				pos:        position{line: 2934, col: 10, offset: 92852},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10498,28 +10498,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92846},
+																		pos: position{line: 2956, col: 8, offset: 93250},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
+																				pos: position{line: 2943, col: 12, offset: 93023},
 																				run: (*parser).callonDocumentFragment1428,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10528,9 +10528,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92796},
+																				pos: position{line: 2953, col: 8, offset: 93200},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92797,
+																					line: 2953, col: 9, offset: 93201,
 																				},
 																			},
 																		},
@@ -10580,27 +10580,27 @@ var g = &grammar{
 									pos: position{line: 284, col: 9, offset: 8489},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1211, col: 23, offset: 37656},
+											pos: position{line: 1223, col: 23, offset: 38060},
 											run: (*parser).callonDelimitedBlockElements7,
 											expr: &seqExpr{
-												pos: position{line: 1211, col: 23, offset: 37656},
+												pos: position{line: 1223, col: 23, offset: 38060},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1209, col: 32, offset: 37624},
+														pos:        position{line: 1221, col: 32, offset: 38028},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1211, col: 51, offset: 37684},
+														pos:   position{line: 1223, col: 51, offset: 38088},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1211, col: 56, offset: 37689},
+															pos: position{line: 1223, col: 56, offset: 38093},
 															run: (*parser).callonDelimitedBlockElements11,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1211, col: 56, offset: 37689},
+																pos: position{line: 1223, col: 56, offset: 38093},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1211, col: 56, offset: 37689},
+																	pos:        position{line: 1223, col: 56, offset: 38093},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -10610,13 +10610,13 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1209, col: 32, offset: 37624},
+														pos:        position{line: 1221, col: 32, offset: 38028},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 1211, col: 123, offset: 37756},
+														pos: position{line: 1223, col: 123, offset: 38160},
 														run: (*parser).callonDelimitedBlockElements15,
 													},
 												},
@@ -10631,9 +10631,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92796},
+							pos: position{line: 2953, col: 8, offset: 93200},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92797,
+								line: 2953, col: 9, offset: 93201,
 							},
 						},
 					},
@@ -10705,12 +10705,12 @@ var g = &grammar{
 										pos: position{line: 307, col: 9, offset: 9333},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2926, col: 11, offset: 92509},
+												pos: position{line: 2938, col: 11, offset: 92913},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2926, col: 11, offset: 92509},
+													pos: position{line: 2938, col: 11, offset: 92913},
 													expr: &charClassMatcher{
-														pos:        position{line: 2926, col: 11, offset: 92509},
+														pos:        position{line: 2938, col: 11, offset: 92913},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10732,28 +10732,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92846},
+							pos: position{line: 2956, col: 8, offset: 93250},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92619},
+									pos: position{line: 2943, col: 12, offset: 93023},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92620},
+										pos: position{line: 2943, col: 13, offset: 93024},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92620},
+												pos:        position{line: 2943, col: 13, offset: 93024},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92627},
+												pos:        position{line: 2943, col: 20, offset: 93031},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92636},
+												pos:        position{line: 2943, col: 29, offset: 93040},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10762,9 +10762,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92796},
+									pos: position{line: 2953, col: 8, offset: 93200},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92797,
+										line: 2953, col: 9, offset: 93201,
 									},
 								},
 							},
@@ -10808,25 +10808,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2931, col: 12, offset: 92619},
+												pos: position{line: 2943, col: 12, offset: 93023},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2931, col: 13, offset: 92620},
+													pos: position{line: 2943, col: 13, offset: 93024},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2931, col: 13, offset: 92620},
+															pos:        position{line: 2943, col: 13, offset: 93024},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2931, col: 20, offset: 92627},
+															pos:        position{line: 2943, col: 20, offset: 93031},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2931, col: 29, offset: 92636},
+															pos:        position{line: 2943, col: 29, offset: 93040},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10837,10 +10837,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 328, col: 9, offset: 10035},
 												expr: &actionExpr{
-													pos: position{line: 2922, col: 10, offset: 92448},
+													pos: position{line: 2934, col: 10, offset: 92852},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2922, col: 10, offset: 92448},
+														pos:        position{line: 2934, col: 10, offset: 92852},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10910,10 +10910,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 346, col: 13, offset: 10580},
 										expr: &actionExpr{
-											pos: position{line: 2922, col: 10, offset: 92448},
+											pos: position{line: 2934, col: 10, offset: 92852},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2922, col: 10, offset: 92448},
+												pos:        position{line: 2934, col: 10, offset: 92852},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10922,28 +10922,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2944, col: 8, offset: 92846},
+										pos: position{line: 2956, col: 8, offset: 93250},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2931, col: 12, offset: 92619},
+												pos: position{line: 2943, col: 12, offset: 93023},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2931, col: 13, offset: 92620},
+													pos: position{line: 2943, col: 13, offset: 93024},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2931, col: 13, offset: 92620},
+															pos:        position{line: 2943, col: 13, offset: 93024},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2931, col: 20, offset: 92627},
+															pos:        position{line: 2943, col: 20, offset: 93031},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2931, col: 29, offset: 92636},
+															pos:        position{line: 2943, col: 29, offset: 93040},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10952,9 +10952,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2941, col: 8, offset: 92796},
+												pos: position{line: 2953, col: 8, offset: 93200},
 												expr: &anyMatcher{
-													line: 2941, col: 9, offset: 92797,
+													line: 2953, col: 9, offset: 93201,
 												},
 											},
 										},
@@ -10987,23 +10987,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 5, offset: 80772},
+										pos: position{line: 2524, col: 5, offset: 81176},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 5, offset: 80772},
+											pos: position{line: 2524, col: 5, offset: 81176},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 80772},
+													pos: position{line: 2524, col: 5, offset: 81176},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 5, offset: 80848},
+													pos:   position{line: 2527, col: 5, offset: 81252},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2516, col: 9, offset: 80866},
+														pos: position{line: 2528, col: 9, offset: 81270},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2516, col: 10, offset: 80867},
+															pos:        position{line: 2528, col: 10, offset: 81271},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -11015,10 +11015,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2922, col: 10, offset: 92448},
+										pos: position{line: 2934, col: 10, offset: 92852},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2922, col: 10, offset: 92448},
+											pos:        position{line: 2934, col: 10, offset: 92852},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11026,35 +11026,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 649, col: 5, offset: 20791},
+										pos: position{line: 661, col: 5, offset: 21195},
 										run: (*parser).callonAttributeDeclarationValueElement32,
 										expr: &seqExpr{
-											pos: position{line: 649, col: 5, offset: 20791},
+											pos: position{line: 661, col: 5, offset: 21195},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 649, col: 5, offset: 20791},
+													pos: position{line: 661, col: 5, offset: 21195},
 													run: (*parser).callonAttributeDeclarationValueElement34,
 												},
 												&labeledExpr{
-													pos:   position{line: 652, col: 5, offset: 20863},
+													pos:   position{line: 664, col: 5, offset: 21267},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 652, col: 14, offset: 20872},
+														pos: position{line: 664, col: 14, offset: 21276},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 658, col: 5, offset: 21001},
+																pos: position{line: 670, col: 5, offset: 21405},
 																run: (*parser).callonAttributeDeclarationValueElement37,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 5, offset: 21001},
+																	pos: position{line: 670, col: 5, offset: 21405},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 5, offset: 21001},
+																			pos:        position{line: 670, col: 5, offset: 21405},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 13, offset: 21009},
+																			pos:   position{line: 670, col: 13, offset: 21413},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -11086,7 +11086,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 32, offset: 21028},
+																			pos:        position{line: 670, col: 32, offset: 21432},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11095,19 +11095,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 665, col: 5, offset: 21269},
+																pos: position{line: 677, col: 5, offset: 21673},
 																run: (*parser).callonAttributeDeclarationValueElement47,
 																expr: &seqExpr{
-																	pos: position{line: 665, col: 5, offset: 21269},
+																	pos: position{line: 677, col: 5, offset: 21673},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 665, col: 5, offset: 21269},
+																			pos:        position{line: 677, col: 5, offset: 21673},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 665, col: 9, offset: 21273},
+																			pos:   position{line: 677, col: 9, offset: 21677},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -11139,7 +11139,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 665, col: 28, offset: 21292},
+																			pos:        position{line: 677, col: 28, offset: 21696},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11148,19 +11148,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 671, col: 25, offset: 21473},
+																pos: position{line: 683, col: 25, offset: 21877},
 																run: (*parser).callonAttributeDeclarationValueElement57,
 																expr: &seqExpr{
-																	pos: position{line: 671, col: 25, offset: 21473},
+																	pos: position{line: 683, col: 25, offset: 21877},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 671, col: 25, offset: 21473},
+																			pos:        position{line: 683, col: 25, offset: 21877},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 671, col: 37, offset: 21485},
+																			pos:   position{line: 683, col: 37, offset: 21889},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -11192,33 +11192,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 671, col: 56, offset: 21504},
+																			pos:   position{line: 683, col: 56, offset: 21908},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 671, col: 62, offset: 21510},
+																				pos: position{line: 683, col: 62, offset: 21914},
 																				expr: &actionExpr{
-																					pos: position{line: 679, col: 17, offset: 21807},
+																					pos: position{line: 691, col: 17, offset: 22211},
 																					run: (*parser).callonAttributeDeclarationValueElement68,
 																					expr: &seqExpr{
-																						pos: position{line: 679, col: 17, offset: 21807},
+																						pos: position{line: 691, col: 17, offset: 22211},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 679, col: 17, offset: 21807},
+																								pos:        position{line: 691, col: 17, offset: 22211},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 679, col: 21, offset: 21811},
+																								pos:   position{line: 691, col: 21, offset: 22215},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 679, col: 28, offset: 21818},
+																									pos: position{line: 691, col: 28, offset: 22222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 679, col: 28, offset: 21818},
+																											pos: position{line: 691, col: 28, offset: 22222},
 																											run: (*parser).callonAttributeDeclarationValueElement73,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 679, col: 28, offset: 21818},
+																												pos:        position{line: 691, col: 28, offset: 22222},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11226,12 +11226,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 681, col: 9, offset: 21872},
+																											pos: position{line: 693, col: 9, offset: 22276},
 																											run: (*parser).callonAttributeDeclarationValueElement75,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 681, col: 9, offset: 21872},
+																												pos: position{line: 693, col: 9, offset: 22276},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 681, col: 9, offset: 21872},
+																													pos:        position{line: 693, col: 9, offset: 22276},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11248,7 +11248,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 671, col: 78, offset: 21526},
+																			pos:        position{line: 683, col: 78, offset: 21930},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11257,19 +11257,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 675, col: 25, offset: 21644},
+																pos: position{line: 687, col: 25, offset: 22048},
 																run: (*parser).callonAttributeDeclarationValueElement79,
 																expr: &seqExpr{
-																	pos: position{line: 675, col: 25, offset: 21644},
+																	pos: position{line: 687, col: 25, offset: 22048},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 675, col: 25, offset: 21644},
+																			pos:        position{line: 687, col: 25, offset: 22048},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 675, col: 38, offset: 21657},
+																			pos:   position{line: 687, col: 38, offset: 22061},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -11301,33 +11301,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 675, col: 57, offset: 21676},
+																			pos:   position{line: 687, col: 57, offset: 22080},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 675, col: 63, offset: 21682},
+																				pos: position{line: 687, col: 63, offset: 22086},
 																				expr: &actionExpr{
-																					pos: position{line: 679, col: 17, offset: 21807},
+																					pos: position{line: 691, col: 17, offset: 22211},
 																					run: (*parser).callonAttributeDeclarationValueElement90,
 																					expr: &seqExpr{
-																						pos: position{line: 679, col: 17, offset: 21807},
+																						pos: position{line: 691, col: 17, offset: 22211},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 679, col: 17, offset: 21807},
+																								pos:        position{line: 691, col: 17, offset: 22211},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 679, col: 21, offset: 21811},
+																								pos:   position{line: 691, col: 21, offset: 22215},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 679, col: 28, offset: 21818},
+																									pos: position{line: 691, col: 28, offset: 22222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 679, col: 28, offset: 21818},
+																											pos: position{line: 691, col: 28, offset: 22222},
 																											run: (*parser).callonAttributeDeclarationValueElement95,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 679, col: 28, offset: 21818},
+																												pos:        position{line: 691, col: 28, offset: 22222},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11335,12 +11335,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 681, col: 9, offset: 21872},
+																											pos: position{line: 693, col: 9, offset: 22276},
 																											run: (*parser).callonAttributeDeclarationValueElement97,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 681, col: 9, offset: 21872},
+																												pos: position{line: 693, col: 9, offset: 22276},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 681, col: 9, offset: 21872},
+																													pos:        position{line: 693, col: 9, offset: 22276},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11357,7 +11357,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 675, col: 79, offset: 21698},
+																			pos:        position{line: 687, col: 79, offset: 22102},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11442,27 +11442,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1211, col: 23, offset: 37656},
+																						pos: position{line: 1223, col: 23, offset: 38060},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1211, col: 23, offset: 37656},
+																							pos: position{line: 1223, col: 23, offset: 38060},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1209, col: 32, offset: 37624},
+																									pos:        position{line: 1221, col: 32, offset: 38028},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1211, col: 51, offset: 37684},
+																									pos:   position{line: 1223, col: 51, offset: 38088},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1211, col: 56, offset: 37689},
+																										pos: position{line: 1223, col: 56, offset: 38093},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1211, col: 56, offset: 37689},
+																											pos: position{line: 1223, col: 56, offset: 38093},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1211, col: 56, offset: 37689},
+																												pos:        position{line: 1223, col: 56, offset: 38093},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11472,48 +11472,48 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1209, col: 32, offset: 37624},
+																									pos:        position{line: 1221, col: 32, offset: 38028},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&andCodeExpr{
-																									pos: position{line: 1211, col: 123, offset: 37756},
+																									pos: position{line: 1223, col: 123, offset: 38160},
 																									run: (*parser).callonBlockAttributes27,
 																								},
 																							},
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 649, col: 5, offset: 20791},
+																						pos: position{line: 661, col: 5, offset: 21195},
 																						run: (*parser).callonBlockAttributes28,
 																						expr: &seqExpr{
-																							pos: position{line: 649, col: 5, offset: 20791},
+																							pos: position{line: 661, col: 5, offset: 21195},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 649, col: 5, offset: 20791},
+																									pos: position{line: 661, col: 5, offset: 21195},
 																									run: (*parser).callonBlockAttributes30,
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 5, offset: 20863},
+																									pos:   position{line: 664, col: 5, offset: 21267},
 																									label: "element",
 																									expr: &choiceExpr{
-																										pos: position{line: 652, col: 14, offset: 20872},
+																										pos: position{line: 664, col: 14, offset: 21276},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 658, col: 5, offset: 21001},
+																												pos: position{line: 670, col: 5, offset: 21405},
 																												run: (*parser).callonBlockAttributes33,
 																												expr: &seqExpr{
-																													pos: position{line: 658, col: 5, offset: 21001},
+																													pos: position{line: 670, col: 5, offset: 21405},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 658, col: 5, offset: 21001},
+																															pos:        position{line: 670, col: 5, offset: 21405},
 																															val:        "\\{",
 																															ignoreCase: false,
 																															want:       "\"\\\\{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 658, col: 13, offset: 21009},
+																															pos:   position{line: 670, col: 13, offset: 21413},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 320, col: 18, offset: 9837},
@@ -11545,7 +11545,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 658, col: 32, offset: 21028},
+																															pos:        position{line: 670, col: 32, offset: 21432},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11554,19 +11554,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 665, col: 5, offset: 21269},
+																												pos: position{line: 677, col: 5, offset: 21673},
 																												run: (*parser).callonBlockAttributes43,
 																												expr: &seqExpr{
-																													pos: position{line: 665, col: 5, offset: 21269},
+																													pos: position{line: 677, col: 5, offset: 21673},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 665, col: 5, offset: 21269},
+																															pos:        position{line: 677, col: 5, offset: 21673},
 																															val:        "{",
 																															ignoreCase: false,
 																															want:       "\"{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 665, col: 9, offset: 21273},
+																															pos:   position{line: 677, col: 9, offset: 21677},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 320, col: 18, offset: 9837},
@@ -11598,7 +11598,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 665, col: 28, offset: 21292},
+																															pos:        position{line: 677, col: 28, offset: 21696},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11607,19 +11607,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 671, col: 25, offset: 21473},
+																												pos: position{line: 683, col: 25, offset: 21877},
 																												run: (*parser).callonBlockAttributes53,
 																												expr: &seqExpr{
-																													pos: position{line: 671, col: 25, offset: 21473},
+																													pos: position{line: 683, col: 25, offset: 21877},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 671, col: 25, offset: 21473},
+																															pos:        position{line: 683, col: 25, offset: 21877},
 																															val:        "{counter:",
 																															ignoreCase: false,
 																															want:       "\"{counter:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 671, col: 37, offset: 21485},
+																															pos:   position{line: 683, col: 37, offset: 21889},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 320, col: 18, offset: 9837},
@@ -11651,33 +11651,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 671, col: 56, offset: 21504},
+																															pos:   position{line: 683, col: 56, offset: 21908},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 671, col: 62, offset: 21510},
+																																pos: position{line: 683, col: 62, offset: 21914},
 																																expr: &actionExpr{
-																																	pos: position{line: 679, col: 17, offset: 21807},
+																																	pos: position{line: 691, col: 17, offset: 22211},
 																																	run: (*parser).callonBlockAttributes64,
 																																	expr: &seqExpr{
-																																		pos: position{line: 679, col: 17, offset: 21807},
+																																		pos: position{line: 691, col: 17, offset: 22211},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 679, col: 17, offset: 21807},
+																																				pos:        position{line: 691, col: 17, offset: 22211},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 679, col: 21, offset: 21811},
+																																				pos:   position{line: 691, col: 21, offset: 22215},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 679, col: 28, offset: 21818},
+																																					pos: position{line: 691, col: 28, offset: 22222},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 679, col: 28, offset: 21818},
+																																							pos: position{line: 691, col: 28, offset: 22222},
 																																							run: (*parser).callonBlockAttributes69,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 679, col: 28, offset: 21818},
+																																								pos:        position{line: 691, col: 28, offset: 22222},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11685,12 +11685,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 681, col: 9, offset: 21872},
+																																							pos: position{line: 693, col: 9, offset: 22276},
 																																							run: (*parser).callonBlockAttributes71,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 681, col: 9, offset: 21872},
+																																								pos: position{line: 693, col: 9, offset: 22276},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 681, col: 9, offset: 21872},
+																																									pos:        position{line: 693, col: 9, offset: 22276},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11707,7 +11707,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 671, col: 78, offset: 21526},
+																															pos:        position{line: 683, col: 78, offset: 21930},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11716,19 +11716,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 675, col: 25, offset: 21644},
+																												pos: position{line: 687, col: 25, offset: 22048},
 																												run: (*parser).callonBlockAttributes75,
 																												expr: &seqExpr{
-																													pos: position{line: 675, col: 25, offset: 21644},
+																													pos: position{line: 687, col: 25, offset: 22048},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 675, col: 25, offset: 21644},
+																															pos:        position{line: 687, col: 25, offset: 22048},
 																															val:        "{counter2:",
 																															ignoreCase: false,
 																															want:       "\"{counter2:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 675, col: 38, offset: 21657},
+																															pos:   position{line: 687, col: 38, offset: 22061},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 320, col: 18, offset: 9837},
@@ -11760,33 +11760,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 675, col: 57, offset: 21676},
+																															pos:   position{line: 687, col: 57, offset: 22080},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 675, col: 63, offset: 21682},
+																																pos: position{line: 687, col: 63, offset: 22086},
 																																expr: &actionExpr{
-																																	pos: position{line: 679, col: 17, offset: 21807},
+																																	pos: position{line: 691, col: 17, offset: 22211},
 																																	run: (*parser).callonBlockAttributes86,
 																																	expr: &seqExpr{
-																																		pos: position{line: 679, col: 17, offset: 21807},
+																																		pos: position{line: 691, col: 17, offset: 22211},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 679, col: 17, offset: 21807},
+																																				pos:        position{line: 691, col: 17, offset: 22211},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 679, col: 21, offset: 21811},
+																																				pos:   position{line: 691, col: 21, offset: 22215},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 679, col: 28, offset: 21818},
+																																					pos: position{line: 691, col: 28, offset: 22222},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 679, col: 28, offset: 21818},
+																																							pos: position{line: 691, col: 28, offset: 22222},
 																																							run: (*parser).callonBlockAttributes91,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 679, col: 28, offset: 21818},
+																																								pos:        position{line: 691, col: 28, offset: 22222},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11794,12 +11794,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 681, col: 9, offset: 21872},
+																																							pos: position{line: 693, col: 9, offset: 22276},
 																																							run: (*parser).callonBlockAttributes93,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 681, col: 9, offset: 21872},
+																																								pos: position{line: 693, col: 9, offset: 22276},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 681, col: 9, offset: 21872},
+																																									pos:        position{line: 693, col: 9, offset: 22276},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11816,7 +11816,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 675, col: 79, offset: 21698},
+																															pos:        position{line: 687, col: 79, offset: 22102},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11859,10 +11859,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 374, col: 35, offset: 11589},
 												expr: &actionExpr{
-													pos: position{line: 2922, col: 10, offset: 92448},
+													pos: position{line: 2934, col: 10, offset: 92852},
 													run: (*parser).callonBlockAttributes101,
 													expr: &charClassMatcher{
-														pos:        position{line: 2922, col: 10, offset: 92448},
+														pos:        position{line: 2934, col: 10, offset: 92852},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11871,28 +11871,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2944, col: 8, offset: 92846},
+												pos: position{line: 2956, col: 8, offset: 93250},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2931, col: 12, offset: 92619},
+														pos: position{line: 2943, col: 12, offset: 93023},
 														run: (*parser).callonBlockAttributes104,
 														expr: &choiceExpr{
-															pos: position{line: 2931, col: 13, offset: 92620},
+															pos: position{line: 2943, col: 13, offset: 93024},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2931, col: 13, offset: 92620},
+																	pos:        position{line: 2943, col: 13, offset: 93024},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 20, offset: 92627},
+																	pos:        position{line: 2943, col: 20, offset: 93031},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 29, offset: 92636},
+																	pos:        position{line: 2943, col: 29, offset: 93040},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11901,9 +11901,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2941, col: 8, offset: 92796},
+														pos: position{line: 2953, col: 8, offset: 93200},
 														expr: &anyMatcher{
-															line: 2941, col: 9, offset: 92797,
+															line: 2953, col: 9, offset: 93201,
 														},
 													},
 												},
@@ -11914,24 +11914,24 @@ var g = &grammar{
 													pos: position{line: 374, col: 47, offset: 11601},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 690, col: 14, offset: 22173},
+															pos: position{line: 702, col: 14, offset: 22577},
 															run: (*parser).callonBlockAttributes113,
 															expr: &seqExpr{
-																pos: position{line: 690, col: 14, offset: 22173},
+																pos: position{line: 702, col: 14, offset: 22577},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2939, col: 11, offset: 92782},
+																		pos: position{line: 2951, col: 11, offset: 93186},
 																		expr: &anyMatcher{
-																			line: 2939, col: 13, offset: 92784,
+																			line: 2951, col: 13, offset: 93188,
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 690, col: 21, offset: 22180},
+																		pos: position{line: 702, col: 21, offset: 22584},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92448},
+																			pos: position{line: 2934, col: 10, offset: 92852},
 																			run: (*parser).callonBlockAttributes118,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92448},
+																				pos:        position{line: 2934, col: 10, offset: 92852},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -11940,28 +11940,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92846},
+																		pos: position{line: 2956, col: 8, offset: 93250},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
+																				pos: position{line: 2943, col: 12, offset: 93023},
 																				run: (*parser).callonBlockAttributes121,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -11970,9 +11970,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92796},
+																				pos: position{line: 2953, col: 8, offset: 93200},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92797,
+																					line: 2953, col: 9, offset: 93201,
 																				},
 																			},
 																		},
@@ -11981,36 +11981,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81226},
+															pos: position{line: 2537, col: 22, offset: 81630},
 															run: (*parser).callonBlockAttributes128,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81226},
+																pos: position{line: 2537, col: 22, offset: 81630},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81476},
+																		pos:        position{line: 2542, col: 31, offset: 81880},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81481},
+																		pos: position{line: 2542, col: 36, offset: 81885},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81482},
+																			pos:        position{line: 2542, col: 37, offset: 81886},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81253},
+																		pos:   position{line: 2537, col: 49, offset: 81657},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 13, offset: 90974},
+																			pos: position{line: 2880, col: 13, offset: 91378},
 																			run: (*parser).callonBlockAttributes134,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2868, col: 13, offset: 90974},
+																				pos: position{line: 2880, col: 13, offset: 91378},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 13, offset: 90974},
+																					pos:        position{line: 2880, col: 13, offset: 91378},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12020,28 +12020,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92846},
+																		pos: position{line: 2956, col: 8, offset: 93250},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
+																				pos: position{line: 2943, col: 12, offset: 93023},
 																				run: (*parser).callonBlockAttributes138,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12050,9 +12050,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92796},
+																				pos: position{line: 2953, col: 8, offset: 93200},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92797,
+																					line: 2953, col: 9, offset: 93201,
 																				},
 																			},
 																		},
@@ -12075,467 +12075,208 @@ var g = &grammar{
 											&labeledExpr{
 												pos:   position{line: 378, col: 12, offset: 11743},
 												label: "title",
+												expr: &ruleRefExpr{
+													pos:  position{line: 378, col: 19, offset: 11750},
+													name: "ShortHandTitle",
+												},
+											},
+											&zeroOrMoreExpr{
+												pos: position{line: 378, col: 35, offset: 11766},
 												expr: &actionExpr{
-													pos: position{line: 425, col: 19, offset: 13092},
-													run: (*parser).callonBlockAttributes148,
-													expr: &seqExpr{
-														pos: position{line: 425, col: 19, offset: 13092},
-														exprs: []interface{}{
-															&litMatcher{
-																pos:        position{line: 425, col: 19, offset: 13092},
-																val:        ".",
-																ignoreCase: false,
-																want:       "\".\"",
-															},
-															&notExpr{
-																pos: position{line: 426, col: 5, offset: 13101},
-																expr: &charClassMatcher{
-																	pos:        position{line: 426, col: 6, offset: 13102},
-																	val:        "[. ]",
-																	chars:      []rune{'.', ' '},
+													pos: position{line: 2934, col: 10, offset: 92852},
+													run: (*parser).callonBlockAttributes150,
+													expr: &charClassMatcher{
+														pos:        position{line: 2934, col: 10, offset: 92852},
+														val:        "[\\t ]",
+														chars:      []rune{'\t', ' '},
+														ignoreCase: false,
+														inverted:   false,
+													},
+												},
+											},
+											&choiceExpr{
+												pos: position{line: 2956, col: 8, offset: 93250},
+												alternatives: []interface{}{
+													&actionExpr{
+														pos: position{line: 2943, col: 12, offset: 93023},
+														run: (*parser).callonBlockAttributes153,
+														expr: &choiceExpr{
+															pos: position{line: 2943, col: 13, offset: 93024},
+															alternatives: []interface{}{
+																&litMatcher{
+																	pos:        position{line: 2943, col: 13, offset: 93024},
+																	val:        "\n",
 																	ignoreCase: false,
-																	inverted:   false,
+																	want:       "\"\\n\"",
+																},
+																&litMatcher{
+																	pos:        position{line: 2943, col: 20, offset: 93031},
+																	val:        "\r\n",
+																	ignoreCase: false,
+																	want:       "\"\\r\\n\"",
+																},
+																&litMatcher{
+																	pos:        position{line: 2943, col: 29, offset: 93040},
+																	val:        "\r",
+																	ignoreCase: false,
+																	want:       "\"\\r\"",
 																},
 															},
-															&labeledExpr{
-																pos:   position{line: 427, col: 5, offset: 13214},
-																label: "elements",
-																expr: &oneOrMoreExpr{
-																	pos: position{line: 427, col: 14, offset: 13223},
-																	expr: &choiceExpr{
-																		pos: position{line: 428, col: 9, offset: 13233},
-																		alternatives: []interface{}{
-																			&actionExpr{
-																				pos: position{line: 2816, col: 14, offset: 89617},
-																				run: (*parser).callonBlockAttributes156,
-																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2816, col: 14, offset: 89617},
-																					expr: &charClassMatcher{
-																						pos:        position{line: 2816, col: 14, offset: 89617},
-																						val:        "[\\pL\\pN]",
-																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																						ignoreCase: false,
-																						inverted:   false,
-																					},
-																				},
-																			},
-																			&actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92448},
-																				run: (*parser).callonBlockAttributes159,
-																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92448},
-																					val:        "[\\t ]",
-																					chars:      []rune{'\t', ' '},
-																					ignoreCase: false,
-																					inverted:   false,
-																				},
+														},
+													},
+													&notExpr{
+														pos: position{line: 2953, col: 8, offset: 93200},
+														expr: &anyMatcher{
+															line: 2953, col: 9, offset: 93201,
+														},
+													},
+												},
+											},
+											&zeroOrMoreExpr{
+												pos: position{line: 378, col: 46, offset: 11777},
+												expr: &choiceExpr{
+													pos: position{line: 378, col: 47, offset: 11778},
+													alternatives: []interface{}{
+														&actionExpr{
+															pos: position{line: 702, col: 14, offset: 22577},
+															run: (*parser).callonBlockAttributes162,
+															expr: &seqExpr{
+																pos: position{line: 702, col: 14, offset: 22577},
+																exprs: []interface{}{
+																	&andExpr{
+																		pos: position{line: 2951, col: 11, offset: 93186},
+																		expr: &anyMatcher{
+																			line: 2951, col: 13, offset: 93188,
+																		},
+																	},
+																	&zeroOrMoreExpr{
+																		pos: position{line: 702, col: 21, offset: 22584},
+																		expr: &actionExpr{
+																			pos: position{line: 2934, col: 10, offset: 92852},
+																			run: (*parser).callonBlockAttributes167,
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2934, col: 10, offset: 92852},
+																				val:        "[\\t ]",
+																				chars:      []rune{'\t', ' '},
+																				ignoreCase: false,
+																				inverted:   false,
 																			},
+																		},
+																	},
+																	&choiceExpr{
+																		pos: position{line: 2956, col: 8, offset: 93250},
+																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2839, col: 5, offset: 90102},
-																				run: (*parser).callonBlockAttributes161,
+																				pos: position{line: 2943, col: 12, offset: 93023},
+																				run: (*parser).callonBlockAttributes170,
 																				expr: &choiceExpr{
-																					pos: position{line: 2840, col: 9, offset: 90112},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
-																						&charClassMatcher{
-																							pos:        position{line: 2840, col: 10, offset: 90113},
-																							val:        "[.,;?)!/:\"\\@=-]",
-																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
-																							ignoreCase: false,
-																							inverted:   false,
-																						},
-																						&seqExpr{
-																							pos: position{line: 2842, col: 13, offset: 90210},
-																							exprs: []interface{}{
-																								&andCodeExpr{
-																									pos: position{line: 2842, col: 13, offset: 90210},
-																									run: (*parser).callonBlockAttributes165,
-																								},
-																								&litMatcher{
-																									pos:        position{line: 2845, col: 13, offset: 90310},
-																									val:        "[",
-																									ignoreCase: false,
-																									want:       "\"[\"",
-																								},
-																							},
-																						},
 																						&litMatcher{
-																							pos:        position{line: 2845, col: 19, offset: 90316},
-																							val:        "]",
+																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							val:        "\n",
 																							ignoreCase: false,
-																							want:       "\"]\"",
-																						},
-																						&seqExpr{
-																							pos: position{line: 2848, col: 13, offset: 90354},
-																							exprs: []interface{}{
-																								&andCodeExpr{
-																									pos: position{line: 2848, col: 13, offset: 90354},
-																									run: (*parser).callonBlockAttributes169,
-																								},
-																								&charClassMatcher{
-																									pos:        position{line: 2851, col: 14, offset: 90447},
-																									val:        "[*_`#]",
-																									chars:      []rune{'*', '_', '`', '#'},
-																									ignoreCase: false,
-																									inverted:   false,
-																								},
-																							},
-																						},
-																						&seqExpr{
-																							pos: position{line: 2853, col: 12, offset: 90491},
-																							exprs: []interface{}{
-																								&litMatcher{
-																									pos:        position{line: 2853, col: 12, offset: 90491},
-																									val:        "(",
-																									ignoreCase: false,
-																									want:       "\"(\"",
-																								},
-																								&notExpr{
-																									pos: position{line: 2853, col: 16, offset: 90495},
-																									expr: &litMatcher{
-																										pos:        position{line: 2853, col: 17, offset: 90496},
-																										val:        "(",
-																										ignoreCase: false,
-																										want:       "\"(\"",
-																									},
-																								},
-																							},
+																							want:       "\"\\n\"",
 																						},
-																					},
-																				},
-																			},
-																			&actionExpr{
-																				pos: position{line: 658, col: 5, offset: 21001},
-																				run: (*parser).callonBlockAttributes175,
-																				expr: &seqExpr{
-																					pos: position{line: 658, col: 5, offset: 21001},
-																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 658, col: 5, offset: 21001},
-																							val:        "\\{",
+																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							val:        "\r\n",
 																							ignoreCase: false,
-																							want:       "\"\\\\{\"",
-																						},
-																						&labeledExpr{
-																							pos:   position{line: 658, col: 13, offset: 21009},
-																							label: "name",
-																							expr: &actionExpr{
-																								pos: position{line: 320, col: 18, offset: 9837},
-																								run: (*parser).callonBlockAttributes179,
-																								expr: &seqExpr{
-																									pos: position{line: 320, col: 18, offset: 9837},
-																									exprs: []interface{}{
-																										&charClassMatcher{
-																											pos:        position{line: 320, col: 18, offset: 9837},
-																											val:        "[_\\pL\\pN]",
-																											chars:      []rune{'_'},
-																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																											ignoreCase: false,
-																											inverted:   false,
-																										},
-																										&zeroOrMoreExpr{
-																											pos: position{line: 320, col: 28, offset: 9847},
-																											expr: &charClassMatcher{
-																												pos:        position{line: 320, col: 29, offset: 9848},
-																												val:        "[_-\\pL\\pN]",
-																												chars:      []rune{'_', '-'},
-																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																												ignoreCase: false,
-																												inverted:   false,
-																											},
-																										},
-																									},
-																								},
-																							},
+																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 658, col: 32, offset: 21028},
-																							val:        "}",
+																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							val:        "\r",
 																							ignoreCase: false,
-																							want:       "\"}\"",
+																							want:       "\"\\r\"",
 																						},
 																					},
 																				},
 																			},
-																			&actionExpr{
-																				pos: position{line: 665, col: 5, offset: 21269},
-																				run: (*parser).callonBlockAttributes185,
-																				expr: &seqExpr{
-																					pos: position{line: 665, col: 5, offset: 21269},
-																					exprs: []interface{}{
-																						&litMatcher{
-																							pos:        position{line: 665, col: 5, offset: 21269},
-																							val:        "{",
-																							ignoreCase: false,
-																							want:       "\"{\"",
-																						},
-																						&labeledExpr{
-																							pos:   position{line: 665, col: 9, offset: 21273},
-																							label: "name",
-																							expr: &actionExpr{
-																								pos: position{line: 320, col: 18, offset: 9837},
-																								run: (*parser).callonBlockAttributes189,
-																								expr: &seqExpr{
-																									pos: position{line: 320, col: 18, offset: 9837},
-																									exprs: []interface{}{
-																										&charClassMatcher{
-																											pos:        position{line: 320, col: 18, offset: 9837},
-																											val:        "[_\\pL\\pN]",
-																											chars:      []rune{'_'},
-																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																											ignoreCase: false,
-																											inverted:   false,
-																										},
-																										&zeroOrMoreExpr{
-																											pos: position{line: 320, col: 28, offset: 9847},
-																											expr: &charClassMatcher{
-																												pos:        position{line: 320, col: 29, offset: 9848},
-																												val:        "[_-\\pL\\pN]",
-																												chars:      []rune{'_', '-'},
-																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																												ignoreCase: false,
-																												inverted:   false,
-																											},
-																										},
-																									},
-																								},
-																							},
-																						},
-																						&litMatcher{
-																							pos:        position{line: 665, col: 28, offset: 21292},
-																							val:        "}",
-																							ignoreCase: false,
-																							want:       "\"}\"",
-																						},
-																					},
+																			&notExpr{
+																				pos: position{line: 2953, col: 8, offset: 93200},
+																				expr: &anyMatcher{
+																					line: 2953, col: 9, offset: 93201,
 																				},
 																			},
-																			&actionExpr{
-																				pos: position{line: 671, col: 25, offset: 21473},
-																				run: (*parser).callonBlockAttributes195,
-																				expr: &seqExpr{
-																					pos: position{line: 671, col: 25, offset: 21473},
-																					exprs: []interface{}{
-																						&litMatcher{
-																							pos:        position{line: 671, col: 25, offset: 21473},
-																							val:        "{counter:",
-																							ignoreCase: false,
-																							want:       "\"{counter:\"",
-																						},
-																						&labeledExpr{
-																							pos:   position{line: 671, col: 37, offset: 21485},
-																							label: "name",
-																							expr: &actionExpr{
-																								pos: position{line: 320, col: 18, offset: 9837},
-																								run: (*parser).callonBlockAttributes199,
-																								expr: &seqExpr{
-																									pos: position{line: 320, col: 18, offset: 9837},
-																									exprs: []interface{}{
-																										&charClassMatcher{
-																											pos:        position{line: 320, col: 18, offset: 9837},
-																											val:        "[_\\pL\\pN]",
-																											chars:      []rune{'_'},
-																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																											ignoreCase: false,
-																											inverted:   false,
-																										},
-																										&zeroOrMoreExpr{
-																											pos: position{line: 320, col: 28, offset: 9847},
-																											expr: &charClassMatcher{
-																												pos:        position{line: 320, col: 29, offset: 9848},
-																												val:        "[_-\\pL\\pN]",
-																												chars:      []rune{'_', '-'},
-																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																												ignoreCase: false,
-																												inverted:   false,
-																											},
-																										},
-																									},
-																								},
-																							},
-																						},
-																						&labeledExpr{
-																							pos:   position{line: 671, col: 56, offset: 21504},
-																							label: "start",
-																							expr: &zeroOrOneExpr{
-																								pos: position{line: 671, col: 62, offset: 21510},
-																								expr: &actionExpr{
-																									pos: position{line: 679, col: 17, offset: 21807},
-																									run: (*parser).callonBlockAttributes206,
-																									expr: &seqExpr{
-																										pos: position{line: 679, col: 17, offset: 21807},
-																										exprs: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 679, col: 17, offset: 21807},
-																												val:        ":",
-																												ignoreCase: false,
-																												want:       "\":\"",
-																											},
-																											&labeledExpr{
-																												pos:   position{line: 679, col: 21, offset: 21811},
-																												label: "start",
-																												expr: &choiceExpr{
-																													pos: position{line: 679, col: 28, offset: 21818},
-																													alternatives: []interface{}{
-																														&actionExpr{
-																															pos: position{line: 679, col: 28, offset: 21818},
-																															run: (*parser).callonBlockAttributes211,
-																															expr: &charClassMatcher{
-																																pos:        position{line: 679, col: 28, offset: 21818},
-																																val:        "[A-Za-z]",
-																																ranges:     []rune{'A', 'Z', 'a', 'z'},
-																																ignoreCase: false,
-																																inverted:   false,
-																															},
-																														},
-																														&actionExpr{
-																															pos: position{line: 681, col: 9, offset: 21872},
-																															run: (*parser).callonBlockAttributes213,
-																															expr: &oneOrMoreExpr{
-																																pos: position{line: 681, col: 9, offset: 21872},
-																																expr: &charClassMatcher{
-																																	pos:        position{line: 681, col: 9, offset: 21872},
-																																	val:        "[0-9]",
-																																	ranges:     []rune{'0', '9'},
-																																	ignoreCase: false,
-																																	inverted:   false,
-																																},
-																															},
-																														},
-																													},
-																												},
-																											},
-																										},
-																									},
-																								},
-																							},
-																						},
-																						&litMatcher{
-																							pos:        position{line: 671, col: 78, offset: 21526},
-																							val:        "}",
-																							ignoreCase: false,
-																							want:       "\"}\"",
-																						},
-																					},
+																		},
+																	},
+																},
+															},
+														},
+														&actionExpr{
+															pos: position{line: 2537, col: 22, offset: 81630},
+															run: (*parser).callonBlockAttributes177,
+															expr: &seqExpr{
+																pos: position{line: 2537, col: 22, offset: 81630},
+																exprs: []interface{}{
+																	&litMatcher{
+																		pos:        position{line: 2542, col: 31, offset: 81880},
+																		val:        "//",
+																		ignoreCase: false,
+																		want:       "\"//\"",
+																	},
+																	&notExpr{
+																		pos: position{line: 2542, col: 36, offset: 81885},
+																		expr: &litMatcher{
+																			pos:        position{line: 2542, col: 37, offset: 81886},
+																			val:        "/",
+																			ignoreCase: false,
+																			want:       "\"/\"",
+																		},
+																	},
+																	&labeledExpr{
+																		pos:   position{line: 2537, col: 49, offset: 81657},
+																		label: "content",
+																		expr: &actionExpr{
+																			pos: position{line: 2880, col: 13, offset: 91378},
+																			run: (*parser).callonBlockAttributes183,
+																			expr: &zeroOrMoreExpr{
+																				pos: position{line: 2880, col: 13, offset: 91378},
+																				expr: &charClassMatcher{
+																					pos:        position{line: 2880, col: 13, offset: 91378},
+																					val:        "[^\\r\\n]",
+																					chars:      []rune{'\r', '\n'},
+																					ignoreCase: false,
+																					inverted:   true,
 																				},
 																			},
+																		},
+																	},
+																	&choiceExpr{
+																		pos: position{line: 2956, col: 8, offset: 93250},
+																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 675, col: 25, offset: 21644},
-																				run: (*parser).callonBlockAttributes217,
-																				expr: &seqExpr{
-																					pos: position{line: 675, col: 25, offset: 21644},
-																					exprs: []interface{}{
+																				pos: position{line: 2943, col: 12, offset: 93023},
+																				run: (*parser).callonBlockAttributes187,
+																				expr: &choiceExpr{
+																					pos: position{line: 2943, col: 13, offset: 93024},
+																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 675, col: 25, offset: 21644},
-																							val:        "{counter2:",
+																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							val:        "\n",
 																							ignoreCase: false,
-																							want:       "\"{counter2:\"",
-																						},
-																						&labeledExpr{
-																							pos:   position{line: 675, col: 38, offset: 21657},
-																							label: "name",
-																							expr: &actionExpr{
-																								pos: position{line: 320, col: 18, offset: 9837},
-																								run: (*parser).callonBlockAttributes221,
-																								expr: &seqExpr{
-																									pos: position{line: 320, col: 18, offset: 9837},
-																									exprs: []interface{}{
-																										&charClassMatcher{
-																											pos:        position{line: 320, col: 18, offset: 9837},
-																											val:        "[_\\pL\\pN]",
-																											chars:      []rune{'_'},
-																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																											ignoreCase: false,
-																											inverted:   false,
-																										},
-																										&zeroOrMoreExpr{
-																											pos: position{line: 320, col: 28, offset: 9847},
-																											expr: &charClassMatcher{
-																												pos:        position{line: 320, col: 29, offset: 9848},
-																												val:        "[_-\\pL\\pN]",
-																												chars:      []rune{'_', '-'},
-																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																												ignoreCase: false,
-																												inverted:   false,
-																											},
-																										},
-																									},
-																								},
-																							},
+																							want:       "\"\\n\"",
 																						},
-																						&labeledExpr{
-																							pos:   position{line: 675, col: 57, offset: 21676},
-																							label: "start",
-																							expr: &zeroOrOneExpr{
-																								pos: position{line: 675, col: 63, offset: 21682},
-																								expr: &actionExpr{
-																									pos: position{line: 679, col: 17, offset: 21807},
-																									run: (*parser).callonBlockAttributes228,
-																									expr: &seqExpr{
-																										pos: position{line: 679, col: 17, offset: 21807},
-																										exprs: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 679, col: 17, offset: 21807},
-																												val:        ":",
-																												ignoreCase: false,
-																												want:       "\":\"",
-																											},
-																											&labeledExpr{
-																												pos:   position{line: 679, col: 21, offset: 21811},
-																												label: "start",
-																												expr: &choiceExpr{
-																													pos: position{line: 679, col: 28, offset: 21818},
-																													alternatives: []interface{}{
-																														&actionExpr{
-																															pos: position{line: 679, col: 28, offset: 21818},
-																															run: (*parser).callonBlockAttributes233,
-																															expr: &charClassMatcher{
-																																pos:        position{line: 679, col: 28, offset: 21818},
-																																val:        "[A-Za-z]",
-																																ranges:     []rune{'A', 'Z', 'a', 'z'},
-																																ignoreCase: false,
-																																inverted:   false,
-																															},
-																														},
-																														&actionExpr{
-																															pos: position{line: 681, col: 9, offset: 21872},
-																															run: (*parser).callonBlockAttributes235,
-																															expr: &oneOrMoreExpr{
-																																pos: position{line: 681, col: 9, offset: 21872},
-																																expr: &charClassMatcher{
-																																	pos:        position{line: 681, col: 9, offset: 21872},
-																																	val:        "[0-9]",
-																																	ranges:     []rune{'0', '9'},
-																																	ignoreCase: false,
-																																	inverted:   false,
-																																},
-																															},
-																														},
-																													},
-																												},
-																											},
-																										},
-																									},
-																								},
-																							},
+																						&litMatcher{
+																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							val:        "\r\n",
+																							ignoreCase: false,
+																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 675, col: 79, offset: 21698},
-																							val:        "}",
+																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							val:        "\r",
 																							ignoreCase: false,
-																							want:       "\"}\"",
+																							want:       "\"\\r\"",
 																						},
 																					},
 																				},
 																			},
-																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90756},
-																				run: (*parser).callonBlockAttributes239,
-																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 12, offset: 90756},
-																					val:        "[^\\r\\n]",
-																					chars:      []rune{'\r', '\n'},
-																					ignoreCase: false,
-																					inverted:   true,
+																			&notExpr{
+																				pos: position{line: 2953, col: 8, offset: 93200},
+																				expr: &anyMatcher{
+																					line: 2953, col: 9, offset: 93201,
 																				},
 																			},
 																		},
@@ -12546,13 +12287,30 @@ var g = &grammar{
 													},
 												},
 											},
+										},
+									},
+								},
+								&actionExpr{
+									pos: position{line: 382, col: 12, offset: 11890},
+									run: (*parser).callonBlockAttributes194,
+									expr: &seqExpr{
+										pos: position{line: 382, col: 12, offset: 11890},
+										exprs: []interface{}{
+											&labeledExpr{
+												pos:   position{line: 382, col: 12, offset: 11890},
+												label: "attributes",
+												expr: &ruleRefExpr{
+													pos:  position{line: 382, col: 24, offset: 11902},
+													name: "LongHandAttributes",
+												},
+											},
 											&zeroOrMoreExpr{
-												pos: position{line: 378, col: 35, offset: 11766},
+												pos: position{line: 382, col: 44, offset: 11922},
 												expr: &actionExpr{
-													pos: position{line: 2922, col: 10, offset: 92448},
-													run: (*parser).callonBlockAttributes242,
+													pos: position{line: 2934, col: 10, offset: 92852},
+													run: (*parser).callonBlockAttributes199,
 													expr: &charClassMatcher{
-														pos:        position{line: 2922, col: 10, offset: 92448},
+														pos:        position{line: 2934, col: 10, offset: 92852},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12561,28 +12319,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2944, col: 8, offset: 92846},
+												pos: position{line: 2956, col: 8, offset: 93250},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2931, col: 12, offset: 92619},
-														run: (*parser).callonBlockAttributes245,
+														pos: position{line: 2943, col: 12, offset: 93023},
+														run: (*parser).callonBlockAttributes202,
 														expr: &choiceExpr{
-															pos: position{line: 2931, col: 13, offset: 92620},
+															pos: position{line: 2943, col: 13, offset: 93024},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2931, col: 13, offset: 92620},
+																	pos:        position{line: 2943, col: 13, offset: 93024},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 20, offset: 92627},
+																	pos:        position{line: 2943, col: 20, offset: 93031},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 29, offset: 92636},
+																	pos:        position{line: 2943, col: 29, offset: 93040},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12591,37 +12349,37 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2941, col: 8, offset: 92796},
+														pos: position{line: 2953, col: 8, offset: 93200},
 														expr: &anyMatcher{
-															line: 2941, col: 9, offset: 92797,
+															line: 2953, col: 9, offset: 93201,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 378, col: 46, offset: 11777},
+												pos: position{line: 382, col: 55, offset: 11933},
 												expr: &choiceExpr{
-													pos: position{line: 378, col: 47, offset: 11778},
+													pos: position{line: 382, col: 56, offset: 11934},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 690, col: 14, offset: 22173},
-															run: (*parser).callonBlockAttributes254,
+															pos: position{line: 702, col: 14, offset: 22577},
+															run: (*parser).callonBlockAttributes211,
 															expr: &seqExpr{
-																pos: position{line: 690, col: 14, offset: 22173},
+																pos: position{line: 702, col: 14, offset: 22577},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2939, col: 11, offset: 92782},
+																		pos: position{line: 2951, col: 11, offset: 93186},
 																		expr: &anyMatcher{
-																			line: 2939, col: 13, offset: 92784,
+																			line: 2951, col: 13, offset: 93188,
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 690, col: 21, offset: 22180},
+																		pos: position{line: 702, col: 21, offset: 22584},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92448},
-																			run: (*parser).callonBlockAttributes259,
+																			pos: position{line: 2934, col: 10, offset: 92852},
+																			run: (*parser).callonBlockAttributes216,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92448},
+																				pos:        position{line: 2934, col: 10, offset: 92852},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12630,28 +12388,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92846},
+																		pos: position{line: 2956, col: 8, offset: 93250},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
-																				run: (*parser).callonBlockAttributes262,
+																				pos: position{line: 2943, col: 12, offset: 93023},
+																				run: (*parser).callonBlockAttributes219,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12660,9 +12418,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92796},
+																				pos: position{line: 2953, col: 8, offset: 93200},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92797,
+																					line: 2953, col: 9, offset: 93201,
 																				},
 																			},
 																		},
@@ -12671,36 +12429,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81226},
-															run: (*parser).callonBlockAttributes269,
+															pos: position{line: 2537, col: 22, offset: 81630},
+															run: (*parser).callonBlockAttributes226,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81226},
+																pos: position{line: 2537, col: 22, offset: 81630},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81476},
+																		pos:        position{line: 2542, col: 31, offset: 81880},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81481},
+																		pos: position{line: 2542, col: 36, offset: 81885},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81482},
+																			pos:        position{line: 2542, col: 37, offset: 81886},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81253},
+																		pos:   position{line: 2537, col: 49, offset: 81657},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 13, offset: 90974},
-																			run: (*parser).callonBlockAttributes275,
+																			pos: position{line: 2880, col: 13, offset: 91378},
+																			run: (*parser).callonBlockAttributes232,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2868, col: 13, offset: 90974},
+																				pos: position{line: 2880, col: 13, offset: 91378},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 13, offset: 90974},
+																					pos:        position{line: 2880, col: 13, offset: 91378},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12710,28 +12468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92846},
+																		pos: position{line: 2956, col: 8, offset: 93250},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
-																				run: (*parser).callonBlockAttributes279,
+																				pos: position{line: 2943, col: 12, offset: 93023},
+																				run: (*parser).callonBlockAttributes236,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12740,9 +12498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92796},
+																				pos: position{line: 2953, col: 8, offset: 93200},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92797,
+																					line: 2953, col: 9, offset: 93201,
 																				},
 																			},
 																		},
@@ -12756,126 +12514,947 @@ var g = &grammar{
 										},
 									},
 								},
-								&actionExpr{
-									pos: position{line: 382, col: 12, offset: 11890},
-									run: (*parser).callonBlockAttributes286,
+							},
+						},
+					},
+				},
+			},
+		},
+		{
+			name: "InlineAttributes",
+			pos:  position{line: 390, col: 1, offset: 12140},
+			expr: &actionExpr{
+				pos: position{line: 391, col: 5, offset: 12164},
+				run: (*parser).callonInlineAttributes1,
+				expr: &seqExpr{
+					pos: position{line: 391, col: 5, offset: 12164},
+					exprs: []interface{}{
+						&litMatcher{
+							pos:        position{line: 391, col: 5, offset: 12164},
+							val:        "[",
+							ignoreCase: false,
+							want:       "\"[\"",
+						},
+						&labeledExpr{
+							pos:   position{line: 392, col: 5, offset: 12172},
+							label: "attributes",
+							expr: &zeroOrMoreExpr{
+								pos: position{line: 392, col: 16, offset: 12183},
+								expr: &actionExpr{
+									pos: position{line: 393, col: 9, offset: 12193},
+									run: (*parser).callonInlineAttributes6,
 									expr: &seqExpr{
-										pos: position{line: 382, col: 12, offset: 11890},
+										pos: position{line: 394, col: 13, offset: 12207},
 										exprs: []interface{}{
-											&labeledExpr{
-												pos:   position{line: 382, col: 12, offset: 11890},
-												label: "attributes",
-												expr: &ruleRefExpr{
-													pos:  position{line: 382, col: 24, offset: 11902},
-													name: "LongHandAttributes",
+											&notExpr{
+												pos: position{line: 394, col: 13, offset: 12207},
+												expr: &litMatcher{
+													pos:        position{line: 394, col: 14, offset: 12208},
+													val:        "]",
+													ignoreCase: false,
+													want:       "\"]\"",
 												},
 											},
-											&zeroOrMoreExpr{
-												pos: position{line: 382, col: 44, offset: 11922},
-												expr: &actionExpr{
-													pos: position{line: 2922, col: 10, offset: 92448},
-													run: (*parser).callonBlockAttributes291,
-													expr: &charClassMatcher{
-														pos:        position{line: 2922, col: 10, offset: 92448},
-														val:        "[\\t ]",
-														chars:      []rune{'\t', ' '},
-														ignoreCase: false,
-														inverted:   false,
+											&labeledExpr{
+												pos:   position{line: 395, col: 13, offset: 12240},
+												label: "attribute",
+												expr: &choiceExpr{
+													pos: position{line: 395, col: 24, offset: 12251},
+													alternatives: []interface{}{
+														&ruleRefExpr{
+															pos:  position{line: 395, col: 24, offset: 12251},
+															name: "PositionalAttribute",
+														},
+														&ruleRefExpr{
+															pos:  position{line: 395, col: 46, offset: 12273},
+															name: "NamedAttribute",
+														},
 													},
 												},
 											},
-											&choiceExpr{
-												pos: position{line: 2944, col: 8, offset: 92846},
-												alternatives: []interface{}{
-													&actionExpr{
-														pos: position{line: 2931, col: 12, offset: 92619},
-														run: (*parser).callonBlockAttributes294,
-														expr: &choiceExpr{
-															pos: position{line: 2931, col: 13, offset: 92620},
-															alternatives: []interface{}{
-																&litMatcher{
-																	pos:        position{line: 2931, col: 13, offset: 92620},
-																	val:        "\n",
+										},
+									},
+								},
+							},
+						},
+						&litMatcher{
+							pos:        position{line: 400, col: 5, offset: 12356},
+							val:        "]",
+							ignoreCase: false,
+							want:       "\"]\"",
+						},
+					},
+				},
+			},
+		},
+		{
+			name: "ShortHandTitle",
+			pos:  position{line: 425, col: 1, offset: 13074},
+			expr: &actionExpr{
+				pos: position{line: 425, col: 19, offset: 13092},
+				run: (*parser).callonShortHandTitle1,
+				expr: &seqExpr{
+					pos: position{line: 425, col: 19, offset: 13092},
+					exprs: []interface{}{
+						&litMatcher{
+							pos:        position{line: 425, col: 19, offset: 13092},
+							val:        ".",
+							ignoreCase: false,
+							want:       "\".\"",
+						},
+						&notExpr{
+							pos: position{line: 426, col: 5, offset: 13101},
+							expr: &charClassMatcher{
+								pos:        position{line: 426, col: 6, offset: 13102},
+								val:        "[. ]",
+								chars:      []rune{'.', ' '},
+								ignoreCase: false,
+								inverted:   false,
+							},
+						},
+						&labeledExpr{
+							pos:   position{line: 427, col: 5, offset: 13214},
+							label: "elements",
+							expr: &oneOrMoreExpr{
+								pos: position{line: 427, col: 14, offset: 13223},
+								expr: &choiceExpr{
+									pos: position{line: 428, col: 9, offset: 13233},
+									alternatives: []interface{}{
+										&ruleRefExpr{
+											pos:  position{line: 428, col: 9, offset: 13233},
+											name: "TitlePassthrough",
+										},
+										&actionExpr{
+											pos: position{line: 2828, col: 14, offset: 90021},
+											run: (*parser).callonShortHandTitle10,
+											expr: &oneOrMoreExpr{
+												pos: position{line: 2828, col: 14, offset: 90021},
+												expr: &charClassMatcher{
+													pos:        position{line: 2828, col: 14, offset: 90021},
+													val:        "[\\pL\\pN]",
+													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+													ignoreCase: false,
+													inverted:   false,
+												},
+											},
+										},
+										&actionExpr{
+											pos: position{line: 2934, col: 10, offset: 92852},
+											run: (*parser).callonShortHandTitle13,
+											expr: &charClassMatcher{
+												pos:        position{line: 2934, col: 10, offset: 92852},
+												val:        "[\\t ]",
+												chars:      []rune{'\t', ' '},
+												ignoreCase: false,
+												inverted:   false,
+											},
+										},
+										&actionExpr{
+											pos: position{line: 2851, col: 5, offset: 90506},
+											run: (*parser).callonShortHandTitle15,
+											expr: &choiceExpr{
+												pos: position{line: 2852, col: 9, offset: 90516},
+												alternatives: []interface{}{
+													&charClassMatcher{
+														pos:        position{line: 2852, col: 10, offset: 90517},
+														val:        "[.,;?)!/:\"\\@=-]",
+														chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
+														ignoreCase: false,
+														inverted:   false,
+													},
+													&seqExpr{
+														pos: position{line: 2854, col: 13, offset: 90614},
+														exprs: []interface{}{
+															&andCodeExpr{
+																pos: position{line: 2854, col: 13, offset: 90614},
+																run: (*parser).callonShortHandTitle19,
+															},
+															&litMatcher{
+																pos:        position{line: 2857, col: 13, offset: 90714},
+																val:        "[",
+																ignoreCase: false,
+																want:       "\"[\"",
+															},
+														},
+													},
+													&litMatcher{
+														pos:        position{line: 2857, col: 19, offset: 90720},
+														val:        "]",
+														ignoreCase: false,
+														want:       "\"]\"",
+													},
+													&seqExpr{
+														pos: position{line: 2860, col: 13, offset: 90758},
+														exprs: []interface{}{
+															&andCodeExpr{
+																pos: position{line: 2860, col: 13, offset: 90758},
+																run: (*parser).callonShortHandTitle23,
+															},
+															&charClassMatcher{
+																pos:        position{line: 2863, col: 14, offset: 90851},
+																val:        "[*_`#]",
+																chars:      []rune{'*', '_', '`', '#'},
+																ignoreCase: false,
+																inverted:   false,
+															},
+														},
+													},
+													&seqExpr{
+														pos: position{line: 2865, col: 12, offset: 90895},
+														exprs: []interface{}{
+															&litMatcher{
+																pos:        position{line: 2865, col: 12, offset: 90895},
+																val:        "(",
+																ignoreCase: false,
+																want:       "\"(\"",
+															},
+															&notExpr{
+																pos: position{line: 2865, col: 16, offset: 90899},
+																expr: &litMatcher{
+																	pos:        position{line: 2865, col: 17, offset: 90900},
+																	val:        "(",
 																	ignoreCase: false,
-																	want:       "\"\\n\"",
+																	want:       "\"(\"",
 																},
-																&litMatcher{
-																	pos:        position{line: 2931, col: 20, offset: 92627},
-																	val:        "\r\n",
-																	ignoreCase: false,
-																	want:       "\"\\r\\n\"",
+															},
+														},
+													},
+												},
+											},
+										},
+										&actionExpr{
+											pos: position{line: 670, col: 5, offset: 21405},
+											run: (*parser).callonShortHandTitle29,
+											expr: &seqExpr{
+												pos: position{line: 670, col: 5, offset: 21405},
+												exprs: []interface{}{
+													&litMatcher{
+														pos:        position{line: 670, col: 5, offset: 21405},
+														val:        "\\{",
+														ignoreCase: false,
+														want:       "\"\\\\{\"",
+													},
+													&labeledExpr{
+														pos:   position{line: 670, col: 13, offset: 21413},
+														label: "name",
+														expr: &actionExpr{
+															pos: position{line: 320, col: 18, offset: 9837},
+															run: (*parser).callonShortHandTitle33,
+															expr: &seqExpr{
+																pos: position{line: 320, col: 18, offset: 9837},
+																exprs: []interface{}{
+																	&charClassMatcher{
+																		pos:        position{line: 320, col: 18, offset: 9837},
+																		val:        "[_\\pL\\pN]",
+																		chars:      []rune{'_'},
+																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																		ignoreCase: false,
+																		inverted:   false,
+																	},
+																	&zeroOrMoreExpr{
+																		pos: position{line: 320, col: 28, offset: 9847},
+																		expr: &charClassMatcher{
+																			pos:        position{line: 320, col: 29, offset: 9848},
+																			val:        "[_-\\pL\\pN]",
+																			chars:      []rune{'_', '-'},
+																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																			ignoreCase: false,
+																			inverted:   false,
+																		},
+																	},
 																},
-																&litMatcher{
-																	pos:        position{line: 2931, col: 29, offset: 92636},
-																	val:        "\r",
-																	ignoreCase: false,
-																	want:       "\"\\r\"",
+															},
+														},
+													},
+													&litMatcher{
+														pos:        position{line: 670, col: 32, offset: 21432},
+														val:        "}",
+														ignoreCase: false,
+														want:       "\"}\"",
+													},
+												},
+											},
+										},
+										&actionExpr{
+											pos: position{line: 677, col: 5, offset: 21673},
+											run: (*parser).callonShortHandTitle39,
+											expr: &seqExpr{
+												pos: position{line: 677, col: 5, offset: 21673},
+												exprs: []interface{}{
+													&litMatcher{
+														pos:        position{line: 677, col: 5, offset: 21673},
+														val:        "{",
+														ignoreCase: false,
+														want:       "\"{\"",
+													},
+													&labeledExpr{
+														pos:   position{line: 677, col: 9, offset: 21677},
+														label: "name",
+														expr: &actionExpr{
+															pos: position{line: 320, col: 18, offset: 9837},
+															run: (*parser).callonShortHandTitle43,
+															expr: &seqExpr{
+																pos: position{line: 320, col: 18, offset: 9837},
+																exprs: []interface{}{
+																	&charClassMatcher{
+																		pos:        position{line: 320, col: 18, offset: 9837},
+																		val:        "[_\\pL\\pN]",
+																		chars:      []rune{'_'},
+																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																		ignoreCase: false,
+																		inverted:   false,
+																	},
+																	&zeroOrMoreExpr{
+																		pos: position{line: 320, col: 28, offset: 9847},
+																		expr: &charClassMatcher{
+																			pos:        position{line: 320, col: 29, offset: 9848},
+																			val:        "[_-\\pL\\pN]",
+																			chars:      []rune{'_', '-'},
+																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																			ignoreCase: false,
+																			inverted:   false,
+																		},
+																	},
+																},
+															},
+														},
+													},
+													&litMatcher{
+														pos:        position{line: 677, col: 28, offset: 21696},
+														val:        "}",
+														ignoreCase: false,
+														want:       "\"}\"",
+													},
+												},
+											},
+										},
+										&actionExpr{
+											pos: position{line: 683, col: 25, offset: 21877},
+											run: (*parser).callonShortHandTitle49,
+											expr: &seqExpr{
+												pos: position{line: 683, col: 25, offset: 21877},
+												exprs: []interface{}{
+													&litMatcher{
+														pos:        position{line: 683, col: 25, offset: 21877},
+														val:        "{counter:",
+														ignoreCase: false,
+														want:       "\"{counter:\"",
+													},
+													&labeledExpr{
+														pos:   position{line: 683, col: 37, offset: 21889},
+														label: "name",
+														expr: &actionExpr{
+															pos: position{line: 320, col: 18, offset: 9837},
+															run: (*parser).callonShortHandTitle53,
+															expr: &seqExpr{
+																pos: position{line: 320, col: 18, offset: 9837},
+																exprs: []interface{}{
+																	&charClassMatcher{
+																		pos:        position{line: 320, col: 18, offset: 9837},
+																		val:        "[_\\pL\\pN]",
+																		chars:      []rune{'_'},
+																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																		ignoreCase: false,
+																		inverted:   false,
+																	},
+																	&zeroOrMoreExpr{
+																		pos: position{line: 320, col: 28, offset: 9847},
+																		expr: &charClassMatcher{
+																			pos:        position{line: 320, col: 29, offset: 9848},
+																			val:        "[_-\\pL\\pN]",
+																			chars:      []rune{'_', '-'},
+																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																			ignoreCase: false,
+																			inverted:   false,
+																		},
+																	},
+																},
+															},
+														},
+													},
+													&labeledExpr{
+														pos:   position{line: 683, col: 56, offset: 21908},
+														label: "start",
+														expr: &zeroOrOneExpr{
+															pos: position{line: 683, col: 62, offset: 21914},
+															expr: &actionExpr{
+																pos: position{line: 691, col: 17, offset: 22211},
+																run: (*parser).callonShortHandTitle60,
+																expr: &seqExpr{
+																	pos: position{line: 691, col: 17, offset: 22211},
+																	exprs: []interface{}{
+																		&litMatcher{
+																			pos:        position{line: 691, col: 17, offset: 22211},
+																			val:        ":",
+																			ignoreCase: false,
+																			want:       "\":\"",
+																		},
+																		&labeledExpr{
+																			pos:   position{line: 691, col: 21, offset: 22215},
+																			label: "start",
+																			expr: &choiceExpr{
+																				pos: position{line: 691, col: 28, offset: 22222},
+																				alternatives: []interface{}{
+																					&actionExpr{
+																						pos: position{line: 691, col: 28, offset: 22222},
+																						run: (*parser).callonShortHandTitle65,
+																						expr: &charClassMatcher{
+																							pos:        position{line: 691, col: 28, offset: 22222},
+																							val:        "[A-Za-z]",
+																							ranges:     []rune{'A', 'Z', 'a', 'z'},
+																							ignoreCase: false,
+																							inverted:   false,
+																						},
+																					},
+																					&actionExpr{
+																						pos: position{line: 693, col: 9, offset: 22276},
+																						run: (*parser).callonShortHandTitle67,
+																						expr: &oneOrMoreExpr{
+																							pos: position{line: 693, col: 9, offset: 22276},
+																							expr: &charClassMatcher{
+																								pos:        position{line: 693, col: 9, offset: 22276},
+																								val:        "[0-9]",
+																								ranges:     []rune{'0', '9'},
+																								ignoreCase: false,
+																								inverted:   false,
+																							},
+																						},
+																					},
+																				},
+																			},
+																		},
+																	},
+																},
+															},
+														},
+													},
+													&litMatcher{
+														pos:        position{line: 683, col: 78, offset: 21930},
+														val:        "}",
+														ignoreCase: false,
+														want:       "\"}\"",
+													},
+												},
+											},
+										},
+										&actionExpr{
+											pos: position{line: 687, col: 25, offset: 22048},
+											run: (*parser).callonShortHandTitle71,
+											expr: &seqExpr{
+												pos: position{line: 687, col: 25, offset: 22048},
+												exprs: []interface{}{
+													&litMatcher{
+														pos:        position{line: 687, col: 25, offset: 22048},
+														val:        "{counter2:",
+														ignoreCase: false,
+														want:       "\"{counter2:\"",
+													},
+													&labeledExpr{
+														pos:   position{line: 687, col: 38, offset: 22061},
+														label: "name",
+														expr: &actionExpr{
+															pos: position{line: 320, col: 18, offset: 9837},
+															run: (*parser).callonShortHandTitle75,
+															expr: &seqExpr{
+																pos: position{line: 320, col: 18, offset: 9837},
+																exprs: []interface{}{
+																	&charClassMatcher{
+																		pos:        position{line: 320, col: 18, offset: 9837},
+																		val:        "[_\\pL\\pN]",
+																		chars:      []rune{'_'},
+																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																		ignoreCase: false,
+																		inverted:   false,
+																	},
+																	&zeroOrMoreExpr{
+																		pos: position{line: 320, col: 28, offset: 9847},
+																		expr: &charClassMatcher{
+																			pos:        position{line: 320, col: 29, offset: 9848},
+																			val:        "[_-\\pL\\pN]",
+																			chars:      []rune{'_', '-'},
+																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																			ignoreCase: false,
+																			inverted:   false,
+																		},
+																	},
+																},
+															},
+														},
+													},
+													&labeledExpr{
+														pos:   position{line: 687, col: 57, offset: 22080},
+														label: "start",
+														expr: &zeroOrOneExpr{
+															pos: position{line: 687, col: 63, offset: 22086},
+															expr: &actionExpr{
+																pos: position{line: 691, col: 17, offset: 22211},
+																run: (*parser).callonShortHandTitle82,
+																expr: &seqExpr{
+																	pos: position{line: 691, col: 17, offset: 22211},
+																	exprs: []interface{}{
+																		&litMatcher{
+																			pos:        position{line: 691, col: 17, offset: 22211},
+																			val:        ":",
+																			ignoreCase: false,
+																			want:       "\":\"",
+																		},
+																		&labeledExpr{
+																			pos:   position{line: 691, col: 21, offset: 22215},
+																			label: "start",
+																			expr: &choiceExpr{
+																				pos: position{line: 691, col: 28, offset: 22222},
+																				alternatives: []interface{}{
+																					&actionExpr{
+																						pos: position{line: 691, col: 28, offset: 22222},
+																						run: (*parser).callonShortHandTitle87,
+																						expr: &charClassMatcher{
+																							pos:        position{line: 691, col: 28, offset: 22222},
+																							val:        "[A-Za-z]",
+																							ranges:     []rune{'A', 'Z', 'a', 'z'},
+																							ignoreCase: false,
+																							inverted:   false,
+																						},
+																					},
+																					&actionExpr{
+																						pos: position{line: 693, col: 9, offset: 22276},
+																						run: (*parser).callonShortHandTitle89,
+																						expr: &oneOrMoreExpr{
+																							pos: position{line: 693, col: 9, offset: 22276},
+																							expr: &charClassMatcher{
+																								pos:        position{line: 693, col: 9, offset: 22276},
+																								val:        "[0-9]",
+																								ranges:     []rune{'0', '9'},
+																								ignoreCase: false,
+																								inverted:   false,
+																							},
+																						},
+																					},
+																				},
+																			},
+																		},
+																	},
+																},
+															},
+														},
+													},
+													&litMatcher{
+														pos:        position{line: 687, col: 79, offset: 22102},
+														val:        "}",
+														ignoreCase: false,
+														want:       "\"}\"",
+													},
+												},
+											},
+										},
+										&actionExpr{
+											pos: position{line: 2873, col: 12, offset: 91160},
+											run: (*parser).callonShortHandTitle93,
+											expr: &charClassMatcher{
+												pos:        position{line: 2873, col: 12, offset: 91160},
+												val:        "[^\\r\\n]",
+												chars:      []rune{'\r', '\n'},
+												ignoreCase: false,
+												inverted:   true,
+											},
+										},
+									},
+								},
+							},
+						},
+					},
+				},
+			},
+		},
+		{
+			name: "TitlePassthrough",
+			pos:  position{line: 440, col: 1, offset: 13587},
+			expr: &actionExpr{
+				pos: position{line: 441, col: 5, offset: 13611},
+				run: (*parser).callonTitlePassthrough1,
+				expr: &seqExpr{
+					pos: position{line: 441, col: 5, offset: 13611},
+					exprs: []interface{}{
+						&andExpr{
+							pos: position{line: 441, col: 5, offset: 13611},
+							expr: &choiceExpr{
+								pos: position{line: 442, col: 9, offset: 13622},
+								alternatives: []interface{}{
+									&seqExpr{
+										pos: position{line: 442, col: 10, offset: 13623},
+										exprs: []interface{}{
+											&litMatcher{
+												pos:        position{line: 442, col: 10, offset: 13623},
+												val:        "+++",
+												ignoreCase: false,
+												want:       "\"+++\"",
+											},
+											&zeroOrMoreExpr{
+												pos: position{line: 442, col: 16, offset: 13629},
+												expr: &seqExpr{
+													pos: position{line: 442, col: 17, offset: 13630},
+													exprs: []interface{}{
+														&notExpr{
+															pos: position{line: 442, col: 17, offset: 13630},
+															expr: &litMatcher{
+																pos:        position{line: 442, col: 18, offset: 13631},
+																val:        "+++",
+																ignoreCase: false,
+																want:       "\"+++\"",
+															},
+														},
+														&notExpr{
+															pos: position{line: 442, col: 24, offset: 13637},
+															expr: &actionExpr{
+																pos: position{line: 2943, col: 12, offset: 93023},
+																run: (*parser).callonTitlePassthrough12,
+																expr: &choiceExpr{
+																	pos: position{line: 2943, col: 13, offset: 93024},
+																	alternatives: []interface{}{
+																		&litMatcher{
+																			pos:        position{line: 2943, col: 13, offset: 93024},
+																			val:        "\n",
+																			ignoreCase: false,
+																			want:       "\"\\n\"",
+																		},
+																		&litMatcher{
+																			pos:        position{line: 2943, col: 20, offset: 93031},
+																			val:        "\r\n",
+																			ignoreCase: false,
+																			want:       "\"\\r\\n\"",
+																		},
+																		&litMatcher{
+																			pos:        position{line: 2943, col: 29, offset: 93040},
+																			val:        "\r",
+																			ignoreCase: false,
+																			want:       "\"\\r\"",
+																		},
+																	},
+																},
+															},
+														},
+														&anyMatcher{
+															line: 442, col: 33, offset: 13646,
+														},
+													},
+												},
+											},
+											&litMatcher{
+												pos:        position{line: 442, col: 37, offset: 13650},
+												val:        "+++",
+												ignoreCase: false,
+												want:       "\"+++\"",
+											},
+										},
+									},
+									&seqExpr{
+										pos: position{line: 443, col: 12, offset: 13668},
+										exprs: []interface{}{
+											&litMatcher{
+												pos:        position{line: 443, col: 12, offset: 13668},
+												val:        "+",
+												ignoreCase: false,
+												want:       "\"+\"",
+											},
+											&oneOrMoreExpr{
+												pos: position{line: 443, col: 16, offset: 13672},
+												expr: &seqExpr{
+													pos: position{line: 443, col: 17, offset: 13673},
+													exprs: []interface{}{
+														&notExpr{
+															pos: position{line: 443, col: 17, offset: 13673},
+															expr: &litMatcher{
+																pos:        position{line: 443, col: 18, offset: 13674},
+																val:        "+",
+																ignoreCase: false,
+																want:       "\"+\"",
+															},
+														},
+														&notExpr{
+															pos: position{line: 443, col: 22, offset: 13678},
+															expr: &actionExpr{
+																pos: position{line: 2943, col: 12, offset: 93023},
+																run: (*parser).callonTitlePassthrough26,
+																expr: &choiceExpr{
+																	pos: position{line: 2943, col: 13, offset: 93024},
+																	alternatives: []interface{}{
+																		&litMatcher{
+																			pos:        position{line: 2943, col: 13, offset: 93024},
+																			val:        "\n",
+																			ignoreCase: false,
+																			want:       "\"\\n\"",
+																		},
+																		&litMatcher{
+																			pos:        position{line: 2943, col: 20, offset: 93031},
+																			val:        "\r\n",
+																			ignoreCase: false,
+																			want:       "\"\\r\\n\"",
+																		},
+																		&litMatcher{
+																			pos:        position{line: 2943, col: 29, offset: 93040},
+																			val:        "\r",
+																			ignoreCase: false,
+																			want:       "\"\\r\"",
+																		},
+																	},
+																},
+															},
+														},
+														&anyMatcher{
+															line: 443, col: 31, offset: 13687,
+														},
+													},
+												},
+											},
+											&litMatcher{
+												pos:        position{line: 443, col: 35, offset: 13691},
+												val:        "+",
+												ignoreCase: false,
+												want:       "\"+\"",
+											},
+										},
+									},
+									&seqExpr{
+										pos: position{line: 444, col: 12, offset: 13707},
+										exprs: []interface{}{
+											&litMatcher{
+												pos:        position{line: 444, col: 12, offset: 13707},
+												val:        "pass:",
+												ignoreCase: false,
+												want:       "\"pass:\"",
+											},
+											&zeroOrOneExpr{
+												pos: position{line: 444, col: 20, offset: 13715},
+												expr: &litMatcher{
+													pos:        position{line: 444, col: 20, offset: 13715},
+													val:        "q",
+													ignoreCase: false,
+													want:       "\"q\"",
+												},
+											},
+											&litMatcher{
+												pos:        position{line: 444, col: 25, offset: 13720},
+												val:        "[",
+												ignoreCase: false,
+												want:       "\"[\"",
+											},
+											&zeroOrMoreExpr{
+												pos: position{line: 444, col: 29, offset: 13724},
+												expr: &charClassMatcher{
+													pos:        position{line: 444, col: 29, offset: 13724},
+													val:        "[^]\\r\\n]",
+													chars:      []rune{']', '\r', '\n'},
+													ignoreCase: false,
+													inverted:   true,
+												},
+											},
+											&litMatcher{
+												pos:        position{line: 444, col: 40, offset: 13735},
+												val:        "]",
+												ignoreCase: false,
+												want:       "\"]\"",
+											},
+										},
+									},
+								},
+							},
+						},
+						&labeledExpr{
+							pos:   position{line: 446, col: 5, offset: 13750},
+							label: "element",
+							expr: &choiceExpr{
+								pos: position{line: 446, col: 14, offset: 13759},
+								alternatives: []interface{}{
+									&actionExpr{
+										pos: position{line: 1409, col: 26, offset: 45215},
+										run: (*parser).callonTitlePassthrough43,
+										expr: &seqExpr{
+											pos: position{line: 1409, col: 26, offset: 45215},
+											exprs: []interface{}{
+												&litMatcher{
+													pos:        position{line: 1407, col: 32, offset: 45183},
+													val:        "+++",
+													ignoreCase: false,
+													want:       "\"+++\"",
+												},
+												&labeledExpr{
+													pos:   position{line: 1409, col: 54, offset: 45243},
+													label: "content",
+													expr: &choiceExpr{
+														pos: position{line: 1413, col: 33, offset: 45446},
+														alternatives: []interface{}{
+															&actionExpr{
+																pos: position{line: 1413, col: 34, offset: 45447},
+																run: (*parser).callonTitlePassthrough48,
+																expr: &zeroOrMoreExpr{
+																	pos: position{line: 1413, col: 34, offset: 45447},
+																	expr: &seqExpr{
+																		pos: position{line: 1413, col: 35, offset: 45448},
+																		exprs: []interface{}{
+																			&notExpr{
+																				pos: position{line: 1413, col: 35, offset: 45448},
+																				expr: &litMatcher{
+																					pos:        position{line: 1407, col: 32, offset: 45183},
+																					val:        "+++",
+																					ignoreCase: false,
+																					want:       "\"+++\"",
+																				},
+																			},
+																			&anyMatcher{
+																				line: 1413, col: 64, offset: 45477,
+																			},
+																		},
+																	},
+																},
+															},
+															&actionExpr{
+																pos: position{line: 1415, col: 11, offset: 45650},
+																run: (*parser).callonTitlePassthrough54,
+																expr: &zeroOrOneExpr{
+																	pos: position{line: 1415, col: 11, offset: 45650},
+																	expr: &seqExpr{
+																		pos: position{line: 1415, col: 12, offset: 45651},
+																		exprs: []interface{}{
+																			&notExpr{
+																				pos: position{line: 1415, col: 12, offset: 45651},
+																				expr: &actionExpr{
+																					pos: position{line: 2934, col: 10, offset: 92852},
+																					run: (*parser).callonTitlePassthrough58,
+																					expr: &charClassMatcher{
+																						pos:        position{line: 2934, col: 10, offset: 92852},
+																						val:        "[\\t ]",
+																						chars:      []rune{'\t', ' '},
+																						ignoreCase: false,
+																						inverted:   false,
+																					},
+																				},
+																			},
+																			&notExpr{
+																				pos: position{line: 1415, col: 19, offset: 45658},
+																				expr: &actionExpr{
+																					pos: position{line: 2943, col: 12, offset: 93023},
+																					run: (*parser).callonTitlePassthrough61,
+																					expr: &choiceExpr{
+																						pos: position{line: 2943, col: 13, offset: 93024},
+																						alternatives: []interface{}{
+																							&litMatcher{
+																								pos:        position{line: 2943, col: 13, offset: 93024},
+																								val:        "\n",
+																								ignoreCase: false,
+																								want:       "\"\\n\"",
+																							},
+																							&litMatcher{
+																								pos:        position{line: 2943, col: 20, offset: 93031},
+																								val:        "\r\n",
+																								ignoreCase: false,
+																								want:       "\"\\r\\n\"",
+																							},
+																							&litMatcher{
+																								pos:        position{line: 2943, col: 29, offset: 93040},
+																								val:        "\r",
+																								ignoreCase: false,
+																								want:       "\"\\r\"",
+																							},
+																						},
+																					},
+																				},
+																			},
+																			&notExpr{
+																				pos: position{line: 1415, col: 28, offset: 45667},
+																				expr: &litMatcher{
+																					pos:        position{line: 1407, col: 32, offset: 45183},
+																					val:        "+++",
+																					ignoreCase: false,
+																					want:       "\"+++\"",
+																				},
+																			},
+																			&anyMatcher{
+																				line: 1415, col: 57, offset: 45696,
+																			},
+																		},
+																	},
 																},
 															},
 														},
 													},
-													&notExpr{
-														pos: position{line: 2941, col: 8, offset: 92796},
-														expr: &anyMatcher{
-															line: 2941, col: 9, offset: 92797,
-														},
-													},
+												},
+												&litMatcher{
+													pos:        position{line: 1407, col: 32, offset: 45183},
+													val:        "+++",
+													ignoreCase: false,
+													want:       "\"+++\"",
 												},
 											},
-											&zeroOrMoreExpr{
-												pos: position{line: 382, col: 55, offset: 11933},
-												expr: &choiceExpr{
-													pos: position{line: 382, col: 56, offset: 11934},
-													alternatives: []interface{}{
-														&actionExpr{
-															pos: position{line: 690, col: 14, offset: 22173},
-															run: (*parser).callonBlockAttributes303,
-															expr: &seqExpr{
-																pos: position{line: 690, col: 14, offset: 22173},
-																exprs: []interface{}{
-																	&andExpr{
-																		pos: position{line: 2939, col: 11, offset: 92782},
-																		expr: &anyMatcher{
-																			line: 2939, col: 13, offset: 92784,
-																		},
-																	},
-																	&zeroOrMoreExpr{
-																		pos: position{line: 690, col: 21, offset: 22180},
-																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92448},
-																			run: (*parser).callonBlockAttributes308,
-																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92448},
-																				val:        "[\\t ]",
-																				chars:      []rune{'\t', ' '},
+										},
+									},
+									&actionExpr{
+										pos: position{line: 1397, col: 26, offset: 44498},
+										run: (*parser).callonTitlePassthrough70,
+										expr: &seqExpr{
+											pos: position{line: 1397, col: 26, offset: 44498},
+											exprs: []interface{}{
+												&litMatcher{
+													pos:        position{line: 1395, col: 32, offset: 44468},
+													val:        "+",
+													ignoreCase: false,
+													want:       "\"+\"",
+												},
+												&labeledExpr{
+													pos:   position{line: 1397, col: 54, offset: 44526},
+													label: "content",
+													expr: &choiceExpr{
+														pos: position{line: 1401, col: 33, offset: 44739},
+														alternatives: []interface{}{
+															&actionExpr{
+																pos: position{line: 1401, col: 34, offset: 44740},
+																run: (*parser).callonTitlePassthrough75,
+																expr: &seqExpr{
+																	pos: position{line: 1401, col: 34, offset: 44740},
+																	exprs: []interface{}{
+																		&notExpr{
+																			pos: position{line: 1401, col: 35, offset: 44741},
+																			expr: &litMatcher{
+																				pos:        position{line: 1395, col: 32, offset: 44468},
+																				val:        "+",
 																				ignoreCase: false,
-																				inverted:   false,
+																				want:       "\"+\"",
 																			},
 																		},
-																	},
-																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92846},
-																		alternatives: []interface{}{
-																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
-																				run: (*parser).callonBlockAttributes311,
+																		&notExpr{
+																			pos: position{line: 1401, col: 64, offset: 44770},
+																			expr: &actionExpr{
+																				pos: position{line: 2934, col: 10, offset: 92852},
+																				run: (*parser).callonTitlePassthrough80,
+																				expr: &charClassMatcher{
+																					pos:        position{line: 2934, col: 10, offset: 92852},
+																					val:        "[\\t ]",
+																					chars:      []rune{'\t', ' '},
+																					ignoreCase: false,
+																					inverted:   false,
+																				},
+																			},
+																		},
+																		&notExpr{
+																			pos: position{line: 1401, col: 71, offset: 44777},
+																			expr: &actionExpr{
+																				pos: position{line: 2943, col: 12, offset: 93023},
+																				run: (*parser).callonTitlePassthrough83,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12883,79 +13462,133 @@ var g = &grammar{
 																					},
 																				},
 																			},
-																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92796},
-																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92797,
+																		},
+																		&anyMatcher{
+																			line: 1401, col: 80, offset: 44786,
+																		},
+																		&zeroOrMoreExpr{
+																			pos: position{line: 1401, col: 83, offset: 44789},
+																			expr: &seqExpr{
+																				pos: position{line: 1401, col: 84, offset: 44790},
+																				exprs: []interface{}{
+																					&notExpr{
+																						pos: position{line: 1401, col: 84, offset: 44790},
+																						expr: &seqExpr{
+																							pos: position{line: 1401, col: 86, offset: 44792},
+																							exprs: []interface{}{
+																								&actionExpr{
+																									pos: position{line: 2938, col: 11, offset: 92913},
+																									run: (*parser).callonTitlePassthrough93,
+																									expr: &oneOrMoreExpr{
+																										pos: position{line: 2938, col: 11, offset: 92913},
+																										expr: &charClassMatcher{
+																											pos:        position{line: 2938, col: 11, offset: 92913},
+																											val:        "[\\t ]",
+																											chars:      []rune{'\t', ' '},
+																											ignoreCase: false,
+																											inverted:   false,
+																										},
+																									},
+																								},
+																								&litMatcher{
+																									pos:        position{line: 1395, col: 32, offset: 44468},
+																									val:        "+",
+																									ignoreCase: false,
+																									want:       "\"+\"",
+																								},
+																							},
+																						},
+																					},
+																					&notExpr{
+																						pos: position{line: 1401, col: 122, offset: 44828},
+																						expr: &litMatcher{
+																							pos:        position{line: 1395, col: 32, offset: 44468},
+																							val:        "+",
+																							ignoreCase: false,
+																							want:       "\"+\"",
+																						},
+																					},
+																					&notExpr{
+																						pos: position{line: 1401, col: 151, offset: 44857},
+																						expr: &actionExpr{
+																							pos: position{line: 2943, col: 12, offset: 93023},
+																							run: (*parser).callonTitlePassthrough100,
+																							expr: &choiceExpr{
+																								pos: position{line: 2943, col: 13, offset: 93024},
+																								alternatives: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2943, col: 13, offset: 93024},
+																										val:        "\n",
+																										ignoreCase: false,
+																										want:       "\"\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2943, col: 20, offset: 93031},
+																										val:        "\r\n",
+																										ignoreCase: false,
+																										want:       "\"\\r\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2943, col: 29, offset: 93040},
+																										val:        "\r",
+																										ignoreCase: false,
+																										want:       "\"\\r\"",
+																									},
+																								},
+																							},
+																						},
+																					},
+																					&anyMatcher{
+																						line: 1401, col: 160, offset: 44866,
+																					},
 																				},
 																			},
 																		},
 																	},
 																},
 															},
-														},
-														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81226},
-															run: (*parser).callonBlockAttributes318,
-															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81226},
-																exprs: []interface{}{
-																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81476},
-																		val:        "//",
-																		ignoreCase: false,
-																		want:       "\"//\"",
-																	},
-																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81481},
-																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81482},
-																			val:        "/",
-																			ignoreCase: false,
-																			want:       "\"/\"",
-																		},
-																	},
-																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81253},
-																		label: "content",
-																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 13, offset: 90974},
-																			run: (*parser).callonBlockAttributes324,
-																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2868, col: 13, offset: 90974},
+															&actionExpr{
+																pos: position{line: 1403, col: 11, offset: 45016},
+																run: (*parser).callonTitlePassthrough106,
+																expr: &seqExpr{
+																	pos: position{line: 1403, col: 12, offset: 45017},
+																	exprs: []interface{}{
+																		&notExpr{
+																			pos: position{line: 1403, col: 12, offset: 45017},
+																			expr: &actionExpr{
+																				pos: position{line: 2934, col: 10, offset: 92852},
+																				run: (*parser).callonTitlePassthrough109,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 13, offset: 90974},
-																					val:        "[^\\r\\n]",
-																					chars:      []rune{'\r', '\n'},
+																					pos:        position{line: 2934, col: 10, offset: 92852},
+																					val:        "[\\t ]",
+																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
-																					inverted:   true,
+																					inverted:   false,
 																				},
 																			},
 																		},
-																	},
-																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92846},
-																		alternatives: []interface{}{
-																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
-																				run: (*parser).callonBlockAttributes328,
+																		&notExpr{
+																			pos: position{line: 1403, col: 19, offset: 45024},
+																			expr: &actionExpr{
+																				pos: position{line: 2943, col: 12, offset: 93023},
+																				run: (*parser).callonTitlePassthrough112,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12963,154 +13596,113 @@ var g = &grammar{
 																					},
 																				},
 																			},
-																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92796},
-																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92797,
-																				},
+																		},
+																		&notExpr{
+																			pos: position{line: 1403, col: 28, offset: 45033},
+																			expr: &litMatcher{
+																				pos:        position{line: 1395, col: 32, offset: 44468},
+																				val:        "+",
+																				ignoreCase: false,
+																				want:       "\"+\"",
 																			},
 																		},
+																		&anyMatcher{
+																			line: 1403, col: 57, offset: 45062,
+																		},
 																	},
 																},
 															},
 														},
 													},
 												},
-											},
-										},
-									},
-								},
-							},
-						},
-					},
-				},
-			},
-		},
-		{
-			name: "InlineAttributes",
-			pos:  position{line: 390, col: 1, offset: 12140},
-			expr: &actionExpr{
-				pos: position{line: 391, col: 5, offset: 12164},
-				run: (*parser).callonInlineAttributes1,
-				expr: &seqExpr{
-					pos: position{line: 391, col: 5, offset: 12164},
-					exprs: []interface{}{
-						&litMatcher{
-							pos:        position{line: 391, col: 5, offset: 12164},
-							val:        "[",
-							ignoreCase: false,
-							want:       "\"[\"",
-						},
-						&labeledExpr{
-							pos:   position{line: 392, col: 5, offset: 12172},
-							label: "attributes",
-							expr: &zeroOrMoreExpr{
-								pos: position{line: 392, col: 16, offset: 12183},
-								expr: &actionExpr{
-									pos: position{line: 393, col: 9, offset: 12193},
-									run: (*parser).callonInlineAttributes6,
-									expr: &seqExpr{
-										pos: position{line: 394, col: 13, offset: 12207},
-										exprs: []interface{}{
-											&notExpr{
-												pos: position{line: 394, col: 13, offset: 12207},
-												expr: &litMatcher{
-													pos:        position{line: 394, col: 14, offset: 12208},
-													val:        "]",
+												&litMatcher{
+													pos:        position{line: 1395, col: 32, offset: 44468},
+													val:        "+",
 													ignoreCase: false,
-													want:       "\"]\"",
+													want:       "\"+\"",
 												},
-											},
-											&labeledExpr{
-												pos:   position{line: 395, col: 13, offset: 12240},
-												label: "attribute",
-												expr: &choiceExpr{
-													pos: position{line: 395, col: 24, offset: 12251},
-													alternatives: []interface{}{
-														&ruleRefExpr{
-															pos:  position{line: 395, col: 24, offset: 12251},
-															name: "PositionalAttribute",
-														},
-														&ruleRefExpr{
-															pos:  position{line: 395, col: 46, offset: 12273},
-															name: "NamedAttribute",
-														},
+												&notExpr{
+													pos: position{line: 1397, col: 121, offset: 44593},
+													expr: &charClassMatcher{
+														pos:        position{line: 2824, col: 13, offset: 89947},
+														val:        "[\\pL\\pN]",
+														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+														ignoreCase: false,
+														inverted:   false,
 													},
 												},
 											},
 										},
 									},
+									&ruleRefExpr{
+										pos:  position{line: 446, col: 62, offset: 13807},
+										name: "PassthroughMacro",
+									},
 								},
 							},
 						},
-						&litMatcher{
-							pos:        position{line: 400, col: 5, offset: 12356},
-							val:        "]",
-							ignoreCase: false,
-							want:       "\"]\"",
-						},
 					},
 				},
 			},
 		},
 		{
 			name: "LongHandAttributes",
-			pos:  position{line: 440, col: 1, offset: 13641},
+			pos:  position{line: 452, col: 1, offset: 14045},
 			expr: &actionExpr{
-				pos: position{line: 441, col: 5, offset: 13667},
+				pos: position{line: 453, col: 5, offset: 14071},
 				run: (*parser).callonLongHandAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 441, col: 5, offset: 13667},
+					pos: position{line: 453, col: 5, offset: 14071},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 441, col: 5, offset: 13667},
+							pos: position{line: 453, col: 5, offset: 14071},
 							expr: &litMatcher{
-								pos:        position{line: 441, col: 6, offset: 13668},
+								pos:        position{line: 453, col: 6, offset: 14072},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 441, col: 10, offset: 13672},
+							pos:        position{line: 453, col: 10, offset: 14076},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&notExpr{
-							pos: position{line: 441, col: 14, offset: 13676},
+							pos: position{line: 453, col: 14, offset: 14080},
 							expr: &litMatcher{
-								pos:        position{line: 441, col: 15, offset: 13677},
+								pos:        position{line: 453, col: 15, offset: 14081},
 								val:        "[",
 								ignoreCase: false,
 								want:       "\"[\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 442, col: 5, offset: 13790},
+							pos:   position{line: 454, col: 5, offset: 14194},
 							label: "firstPositionalAttributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 442, col: 31, offset: 13816},
+								pos: position{line: 454, col: 31, offset: 14220},
 								expr: &ruleRefExpr{
-									pos:  position{line: 442, col: 32, offset: 13817},
+									pos:  position{line: 454, col: 32, offset: 14221},
 									name: "FirstPositionalAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 443, col: 5, offset: 13849},
+							pos:   position{line: 455, col: 5, offset: 14253},
 							label: "otherAttributes",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 443, col: 21, offset: 13865},
+								pos: position{line: 455, col: 21, offset: 14269},
 								expr: &choiceExpr{
-									pos: position{line: 443, col: 22, offset: 13866},
+									pos: position{line: 455, col: 22, offset: 14270},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 443, col: 22, offset: 13866},
+											pos:  position{line: 455, col: 22, offset: 14270},
 											name: "PositionalAttribute",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 443, col: 44, offset: 13888},
+											pos:  position{line: 455, col: 44, offset: 14292},
 											name: "NamedAttribute",
 										},
 									},
@@ -13118,7 +13710,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 444, col: 5, offset: 13909},
+							pos:        position{line: 456, col: 5, offset: 14313},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -13129,69 +13721,69 @@ var g = &grammar{
 		},
 		{
 			name: "FirstPositionalAttributes",
-			pos:  position{line: 461, col: 1, offset: 14708},
+			pos:  position{line: 473, col: 1, offset: 15112},
 			expr: &actionExpr{
-				pos: position{line: 462, col: 5, offset: 14742},
+				pos: position{line: 474, col: 5, offset: 15146},
 				run: (*parser).callonFirstPositionalAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 462, col: 5, offset: 14742},
+					pos: position{line: 474, col: 5, offset: 15146},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 462, col: 5, offset: 14742},
+							pos:   position{line: 474, col: 5, offset: 15146},
 							label: "main",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 462, col: 10, offset: 14747},
+								pos: position{line: 474, col: 10, offset: 15151},
 								expr: &ruleRefExpr{
-									pos:  position{line: 463, col: 9, offset: 14757},
+									pos:  position{line: 475, col: 9, offset: 15161},
 									name: "ShortHandAttribute",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 465, col: 5, offset: 14787},
+							pos:   position{line: 477, col: 5, offset: 15191},
 							label: "extras",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 465, col: 12, offset: 14794},
+								pos: position{line: 477, col: 12, offset: 15198},
 								expr: &actionExpr{
-									pos: position{line: 466, col: 9, offset: 14805},
+									pos: position{line: 478, col: 9, offset: 15209},
 									run: (*parser).callonFirstPositionalAttributes8,
 									expr: &seqExpr{
-										pos: position{line: 466, col: 9, offset: 14805},
+										pos: position{line: 478, col: 9, offset: 15209},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 466, col: 9, offset: 14805},
+												pos: position{line: 478, col: 9, offset: 15209},
 												expr: &litMatcher{
-													pos:        position{line: 466, col: 10, offset: 14806},
+													pos:        position{line: 478, col: 10, offset: 15210},
 													val:        ",",
 													ignoreCase: false,
 													want:       "\",\"",
 												},
 											},
 											&notExpr{
-												pos: position{line: 466, col: 14, offset: 14810},
+												pos: position{line: 478, col: 14, offset: 15214},
 												expr: &litMatcher{
-													pos:        position{line: 466, col: 15, offset: 14811},
+													pos:        position{line: 478, col: 15, offset: 15215},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 467, col: 9, offset: 14823},
+												pos:   position{line: 479, col: 9, offset: 15227},
 												label: "extra",
 												expr: &choiceExpr{
-													pos: position{line: 468, col: 13, offset: 14843},
+													pos: position{line: 480, col: 13, offset: 15247},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 468, col: 13, offset: 14843},
+															pos:  position{line: 480, col: 13, offset: 15247},
 															name: "ShortHandIDAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 469, col: 15, offset: 14879},
+															pos:  position{line: 481, col: 15, offset: 15283},
 															name: "ShortHandOptionAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 470, col: 15, offset: 14918},
+															pos:  position{line: 482, col: 15, offset: 15322},
 															name: "ShortHandDotRoleAttribute",
 														},
 													},
@@ -13203,23 +13795,23 @@ var g = &grammar{
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 473, col: 8, offset: 14994},
+							pos: position{line: 485, col: 8, offset: 15398},
 							expr: &seqExpr{
-								pos: position{line: 473, col: 9, offset: 14995},
+								pos: position{line: 485, col: 9, offset: 15399},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 473, col: 9, offset: 14995},
+										pos:        position{line: 485, col: 9, offset: 15399},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 473, col: 13, offset: 14999},
+										pos: position{line: 485, col: 13, offset: 15403},
 										expr: &actionExpr{
-											pos: position{line: 2922, col: 10, offset: 92448},
+											pos: position{line: 2934, col: 10, offset: 92852},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2922, col: 10, offset: 92448},
+												pos:        position{line: 2934, col: 10, offset: 92852},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13231,7 +13823,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 474, col: 5, offset: 15013},
+							pos: position{line: 486, col: 5, offset: 15417},
 							run: (*parser).callonFirstPositionalAttributes25,
 						},
 					},
@@ -13240,24 +13832,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandIDAttribute",
-			pos:  position{line: 490, col: 1, offset: 15429},
+			pos:  position{line: 502, col: 1, offset: 15833},
 			expr: &actionExpr{
-				pos: position{line: 490, col: 25, offset: 15453},
+				pos: position{line: 502, col: 25, offset: 15857},
 				run: (*parser).callonShortHandIDAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 490, col: 25, offset: 15453},
+					pos: position{line: 502, col: 25, offset: 15857},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 490, col: 25, offset: 15453},
+							pos:        position{line: 502, col: 25, offset: 15857},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 490, col: 29, offset: 15457},
+							pos:   position{line: 502, col: 29, offset: 15861},
 							label: "id",
 							expr: &ruleRefExpr{
-								pos:  position{line: 490, col: 33, offset: 15461},
+								pos:  position{line: 502, col: 33, offset: 15865},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -13267,15 +13859,15 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttribute",
-			pos:  position{line: 494, col: 1, offset: 15535},
+			pos:  position{line: 506, col: 1, offset: 15939},
 			expr: &actionExpr{
-				pos: position{line: 494, col: 23, offset: 15557},
+				pos: position{line: 506, col: 23, offset: 15961},
 				run: (*parser).callonShortHandAttribute1,
 				expr: &labeledExpr{
-					pos:   position{line: 494, col: 23, offset: 15557},
+					pos:   position{line: 506, col: 23, offset: 15961},
 					label: "value",
 					expr: &ruleRefExpr{
-						pos:  position{line: 494, col: 30, offset: 15564},
+						pos:  position{line: 506, col: 30, offset: 15968},
 						name: "ShortHandAttributeValue",
 					},
 				},
@@ -13283,24 +13875,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandDotRoleAttribute",
-			pos:  position{line: 499, col: 1, offset: 15690},
+			pos:  position{line: 511, col: 1, offset: 16094},
 			expr: &actionExpr{
-				pos: position{line: 499, col: 30, offset: 15719},
+				pos: position{line: 511, col: 30, offset: 16123},
 				run: (*parser).callonShortHandDotRoleAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 499, col: 30, offset: 15719},
+					pos: position{line: 511, col: 30, offset: 16123},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 499, col: 30, offset: 15719},
+							pos:        position{line: 511, col: 30, offset: 16123},
 							val:        ".",
 							ignoreCase: false,
 							want:       "\".\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 499, col: 34, offset: 15723},
+							pos:   position{line: 511, col: 34, offset: 16127},
 							label: "role",
 							expr: &ruleRefExpr{
-								pos:  position{line: 499, col: 40, offset: 15729},
+								pos:  position{line: 511, col: 40, offset: 16133},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -13310,24 +13902,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandOptionAttribute",
-			pos:  position{line: 504, col: 1, offset: 15851},
+			pos:  position{line: 516, col: 1, offset: 16255},
 			expr: &actionExpr{
-				pos: position{line: 504, col: 29, offset: 15879},
+				pos: position{line: 516, col: 29, offset: 16283},
 				run: (*parser).callonShortHandOptionAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 504, col: 29, offset: 15879},
+					pos: position{line: 516, col: 29, offset: 16283},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 504, col: 29, offset: 15879},
+							pos:        position{line: 516, col: 29, offset: 16283},
 							val:        "%",
 							ignoreCase: false,
 							want:       "\"%\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 504, col: 33, offset: 15883},
+							pos:   position{line: 516, col: 33, offset: 16287},
 							label: "option",
 							expr: &ruleRefExpr{
-								pos:  position{line: 504, col: 41, offset: 15891},
+								pos:  position{line: 516, col: 41, offset: 16295},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -13337,43 +13929,43 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttributeValue",
-			pos:  position{line: 509, col: 1, offset: 16004},
+			pos:  position{line: 521, col: 1, offset: 16408},
 			expr: &choiceExpr{
-				pos: position{line: 510, col: 5, offset: 16036},
+				pos: position{line: 522, col: 5, offset: 16440},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 510, col: 5, offset: 16036},
+						pos:  position{line: 522, col: 5, offset: 16440},
 						name: "SingleQuotedAttributeValue",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 511, col: 7, offset: 16070},
+						pos:  position{line: 523, col: 7, offset: 16474},
 						name: "DoubleQuotedAttributeValue",
 					},
 					&actionExpr{
-						pos: position{line: 512, col: 7, offset: 16104},
+						pos: position{line: 524, col: 7, offset: 16508},
 						run: (*parser).callonShortHandAttributeValue4,
 						expr: &seqExpr{
-							pos: position{line: 512, col: 7, offset: 16104},
+							pos: position{line: 524, col: 7, offset: 16508},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 512, col: 7, offset: 16104},
+									pos:   position{line: 524, col: 7, offset: 16508},
 									label: "elements",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 512, col: 16, offset: 16113},
+										pos: position{line: 524, col: 16, offset: 16517},
 										expr: &choiceExpr{
-											pos: position{line: 515, col: 9, offset: 16295},
+											pos: position{line: 527, col: 9, offset: 16699},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 515, col: 9, offset: 16295},
+													pos:  position{line: 527, col: 9, offset: 16699},
 													name: "QuotationMark",
 												},
 												&actionExpr{
-													pos: position{line: 516, col: 12, offset: 16321},
+													pos: position{line: 528, col: 12, offset: 16725},
 													run: (*parser).callonShortHandAttributeValue10,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 516, col: 12, offset: 16321},
+														pos: position{line: 528, col: 12, offset: 16725},
 														expr: &charClassMatcher{
-															pos:        position{line: 516, col: 12, offset: 16321},
+															pos:        position{line: 528, col: 12, offset: 16725},
 															val:        "[^,=.%# \\r\\n�{]]",
 															chars:      []rune{',', '=', '.', '%', '#', ' ', '\r', '\n', '�', '{', ']'},
 															ignoreCase: false,
@@ -13382,35 +13974,35 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 649, col: 5, offset: 20791},
+													pos: position{line: 661, col: 5, offset: 21195},
 													run: (*parser).callonShortHandAttributeValue13,
 													expr: &seqExpr{
-														pos: position{line: 649, col: 5, offset: 20791},
+														pos: position{line: 661, col: 5, offset: 21195},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 649, col: 5, offset: 20791},
+																pos: position{line: 661, col: 5, offset: 21195},
 																run: (*parser).callonShortHandAttributeValue15,
 															},
 															&labeledExpr{
-																pos:   position{line: 652, col: 5, offset: 20863},
+																pos:   position{line: 664, col: 5, offset: 21267},
 																label: "element",
 																expr: &choiceExpr{
-																	pos: position{line: 652, col: 14, offset: 20872},
+																	pos: position{line: 664, col: 14, offset: 21276},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 658, col: 5, offset: 21001},
+																			pos: position{line: 670, col: 5, offset: 21405},
 																			run: (*parser).callonShortHandAttributeValue18,
 																			expr: &seqExpr{
-																				pos: position{line: 658, col: 5, offset: 21001},
+																				pos: position{line: 670, col: 5, offset: 21405},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 658, col: 5, offset: 21001},
+																						pos:        position{line: 670, col: 5, offset: 21405},
 																						val:        "\\{",
 																						ignoreCase: false,
 																						want:       "\"\\\\{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 658, col: 13, offset: 21009},
+																						pos:   position{line: 670, col: 13, offset: 21413},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 320, col: 18, offset: 9837},
@@ -13442,7 +14034,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 658, col: 32, offset: 21028},
+																						pos:        position{line: 670, col: 32, offset: 21432},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13451,19 +14043,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 665, col: 5, offset: 21269},
+																			pos: position{line: 677, col: 5, offset: 21673},
 																			run: (*parser).callonShortHandAttributeValue28,
 																			expr: &seqExpr{
-																				pos: position{line: 665, col: 5, offset: 21269},
+																				pos: position{line: 677, col: 5, offset: 21673},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 665, col: 5, offset: 21269},
+																						pos:        position{line: 677, col: 5, offset: 21673},
 																						val:        "{",
 																						ignoreCase: false,
 																						want:       "\"{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 665, col: 9, offset: 21273},
+																						pos:   position{line: 677, col: 9, offset: 21677},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 320, col: 18, offset: 9837},
@@ -13495,7 +14087,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 665, col: 28, offset: 21292},
+																						pos:        position{line: 677, col: 28, offset: 21696},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13504,19 +14096,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 671, col: 25, offset: 21473},
+																			pos: position{line: 683, col: 25, offset: 21877},
 																			run: (*parser).callonShortHandAttributeValue38,
 																			expr: &seqExpr{
-																				pos: position{line: 671, col: 25, offset: 21473},
+																				pos: position{line: 683, col: 25, offset: 21877},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 671, col: 25, offset: 21473},
+																						pos:        position{line: 683, col: 25, offset: 21877},
 																						val:        "{counter:",
 																						ignoreCase: false,
 																						want:       "\"{counter:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 671, col: 37, offset: 21485},
+																						pos:   position{line: 683, col: 37, offset: 21889},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 320, col: 18, offset: 9837},
@@ -13548,33 +14140,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 671, col: 56, offset: 21504},
+																						pos:   position{line: 683, col: 56, offset: 21908},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 671, col: 62, offset: 21510},
+																							pos: position{line: 683, col: 62, offset: 21914},
 																							expr: &actionExpr{
-																								pos: position{line: 679, col: 17, offset: 21807},
+																								pos: position{line: 691, col: 17, offset: 22211},
 																								run: (*parser).callonShortHandAttributeValue49,
 																								expr: &seqExpr{
-																									pos: position{line: 679, col: 17, offset: 21807},
+																									pos: position{line: 691, col: 17, offset: 22211},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 679, col: 17, offset: 21807},
+																											pos:        position{line: 691, col: 17, offset: 22211},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 679, col: 21, offset: 21811},
+																											pos:   position{line: 691, col: 21, offset: 22215},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 679, col: 28, offset: 21818},
+																												pos: position{line: 691, col: 28, offset: 22222},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 679, col: 28, offset: 21818},
+																														pos: position{line: 691, col: 28, offset: 22222},
 																														run: (*parser).callonShortHandAttributeValue54,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 679, col: 28, offset: 21818},
+																															pos:        position{line: 691, col: 28, offset: 22222},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13582,12 +14174,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 681, col: 9, offset: 21872},
+																														pos: position{line: 693, col: 9, offset: 22276},
 																														run: (*parser).callonShortHandAttributeValue56,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 681, col: 9, offset: 21872},
+																															pos: position{line: 693, col: 9, offset: 22276},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 681, col: 9, offset: 21872},
+																																pos:        position{line: 693, col: 9, offset: 22276},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13604,7 +14196,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 671, col: 78, offset: 21526},
+																						pos:        position{line: 683, col: 78, offset: 21930},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13613,19 +14205,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 675, col: 25, offset: 21644},
+																			pos: position{line: 687, col: 25, offset: 22048},
 																			run: (*parser).callonShortHandAttributeValue60,
 																			expr: &seqExpr{
-																				pos: position{line: 675, col: 25, offset: 21644},
+																				pos: position{line: 687, col: 25, offset: 22048},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 675, col: 25, offset: 21644},
+																						pos:        position{line: 687, col: 25, offset: 22048},
 																						val:        "{counter2:",
 																						ignoreCase: false,
 																						want:       "\"{counter2:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 675, col: 38, offset: 21657},
+																						pos:   position{line: 687, col: 38, offset: 22061},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 320, col: 18, offset: 9837},
@@ -13657,33 +14249,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 675, col: 57, offset: 21676},
+																						pos:   position{line: 687, col: 57, offset: 22080},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 675, col: 63, offset: 21682},
+																							pos: position{line: 687, col: 63, offset: 22086},
 																							expr: &actionExpr{
-																								pos: position{line: 679, col: 17, offset: 21807},
+																								pos: position{line: 691, col: 17, offset: 22211},
 																								run: (*parser).callonShortHandAttributeValue71,
 																								expr: &seqExpr{
-																									pos: position{line: 679, col: 17, offset: 21807},
+																									pos: position{line: 691, col: 17, offset: 22211},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 679, col: 17, offset: 21807},
+																											pos:        position{line: 691, col: 17, offset: 22211},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 679, col: 21, offset: 21811},
+																											pos:   position{line: 691, col: 21, offset: 22215},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 679, col: 28, offset: 21818},
+																												pos: position{line: 691, col: 28, offset: 22222},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 679, col: 28, offset: 21818},
+																														pos: position{line: 691, col: 28, offset: 22222},
 																														run: (*parser).callonShortHandAttributeValue76,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 679, col: 28, offset: 21818},
+																															pos:        position{line: 691, col: 28, offset: 22222},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13691,12 +14283,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 681, col: 9, offset: 21872},
+																														pos: position{line: 693, col: 9, offset: 22276},
 																														run: (*parser).callonShortHandAttributeValue78,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 681, col: 9, offset: 21872},
+																															pos: position{line: 693, col: 9, offset: 22276},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 681, col: 9, offset: 21872},
+																																pos:        position{line: 693, col: 9, offset: 22276},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13713,7 +14305,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 675, col: 79, offset: 21698},
+																						pos:        position{line: 687, col: 79, offset: 22102},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13728,10 +14320,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 521, col: 12, offset: 16489},
+													pos: position{line: 533, col: 12, offset: 16893},
 													run: (*parser).callonShortHandAttributeValue82,
 													expr: &litMatcher{
-														pos:        position{line: 521, col: 12, offset: 16489},
+														pos:        position{line: 533, col: 12, offset: 16893},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -13742,19 +14334,19 @@ var g = &grammar{
 									},
 								},
 								&andExpr{
-									pos: position{line: 525, col: 5, offset: 16577},
+									pos: position{line: 537, col: 5, offset: 16981},
 									expr: &notExpr{
-										pos: position{line: 525, col: 7, offset: 16579},
+										pos: position{line: 537, col: 7, offset: 16983},
 										expr: &seqExpr{
-											pos: position{line: 525, col: 9, offset: 16581},
+											pos: position{line: 537, col: 9, offset: 16985},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 525, col: 9, offset: 16581},
+													pos: position{line: 537, col: 9, offset: 16985},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92448},
+														pos: position{line: 2934, col: 10, offset: 92852},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92448},
+															pos:        position{line: 2934, col: 10, offset: 92852},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13763,7 +14355,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 525, col: 16, offset: 16588},
+													pos:        position{line: 537, col: 16, offset: 16992},
 													val:        "=",
 													ignoreCase: false,
 													want:       "\"=\"",
@@ -13780,45 +14372,45 @@ var g = &grammar{
 		},
 		{
 			name: "PositionalAttribute",
-			pos:  position{line: 530, col: 1, offset: 16666},
+			pos:  position{line: 542, col: 1, offset: 17070},
 			expr: &choiceExpr{
-				pos: position{line: 530, col: 24, offset: 16689},
+				pos: position{line: 542, col: 24, offset: 17093},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 531, col: 5, offset: 16695},
+						pos: position{line: 543, col: 5, offset: 17099},
 						run: (*parser).callonPositionalAttribute2,
 						expr: &seqExpr{
-							pos: position{line: 531, col: 5, offset: 16695},
+							pos: position{line: 543, col: 5, offset: 17099},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 531, col: 5, offset: 16695},
+									pos:   position{line: 543, col: 5, offset: 17099},
 									label: "value",
 									expr: &ruleRefExpr{
-										pos:  position{line: 531, col: 12, offset: 16702},
+										pos:  position{line: 543, col: 12, offset: 17106},
 										name: "AttributeValue",
 									},
 								},
 								&choiceExpr{
-									pos: position{line: 531, col: 29, offset: 16719},
+									pos: position{line: 543, col: 29, offset: 17123},
 									alternatives: []interface{}{
 										&zeroOrOneExpr{
-											pos: position{line: 531, col: 29, offset: 16719},
+											pos: position{line: 543, col: 29, offset: 17123},
 											expr: &seqExpr{
-												pos: position{line: 531, col: 30, offset: 16720},
+												pos: position{line: 543, col: 30, offset: 17124},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 531, col: 30, offset: 16720},
+														pos:        position{line: 543, col: 30, offset: 17124},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 531, col: 34, offset: 16724},
+														pos: position{line: 543, col: 34, offset: 17128},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92448},
+															pos: position{line: 2934, col: 10, offset: 92852},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92448},
+																pos:        position{line: 2934, col: 10, offset: 92852},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13830,9 +14422,9 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 531, col: 45, offset: 16735},
+											pos: position{line: 543, col: 45, offset: 17139},
 											expr: &litMatcher{
-												pos:        position{line: 531, col: 46, offset: 16736},
+												pos:        position{line: 543, col: 46, offset: 17140},
 												val:        "]",
 												ignoreCase: false,
 												want:       "\"]\"",
@@ -13844,24 +14436,24 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 536, col: 6, offset: 16881},
+						pos: position{line: 548, col: 6, offset: 17285},
 						run: (*parser).callonPositionalAttribute15,
 						expr: &seqExpr{
-							pos: position{line: 536, col: 6, offset: 16881},
+							pos: position{line: 548, col: 6, offset: 17285},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 536, col: 6, offset: 16881},
+									pos:   position{line: 548, col: 6, offset: 17285},
 									label: "value",
 									expr: &seqExpr{
-										pos: position{line: 536, col: 13, offset: 16888},
+										pos: position{line: 548, col: 13, offset: 17292},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 536, col: 13, offset: 16888},
+												pos: position{line: 548, col: 13, offset: 17292},
 												expr: &actionExpr{
-													pos: position{line: 2922, col: 10, offset: 92448},
+													pos: position{line: 2934, col: 10, offset: 92852},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2922, col: 10, offset: 92448},
+														pos:        position{line: 2934, col: 10, offset: 92852},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13870,24 +14462,24 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 536, col: 21, offset: 16896},
+												pos: position{line: 548, col: 21, offset: 17300},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 536, col: 22, offset: 16897},
+														pos: position{line: 548, col: 22, offset: 17301},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 536, col: 22, offset: 16897},
+																pos:        position{line: 548, col: 22, offset: 17301},
 																val:        ",",
 																ignoreCase: false,
 																want:       "\",\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 536, col: 26, offset: 16901},
+																pos: position{line: 548, col: 26, offset: 17305},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92448},
+																	pos: position{line: 2934, col: 10, offset: 92852},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92448},
+																		pos:        position{line: 2934, col: 10, offset: 92852},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13898,9 +14490,9 @@ var g = &grammar{
 														},
 													},
 													&andExpr{
-														pos: position{line: 536, col: 36, offset: 16911},
+														pos: position{line: 548, col: 36, offset: 17315},
 														expr: &litMatcher{
-															pos:        position{line: 536, col: 37, offset: 16912},
+															pos:        position{line: 548, col: 37, offset: 17316},
 															val:        "]",
 															ignoreCase: false,
 															want:       "\"]\"",
@@ -13912,7 +14504,7 @@ var g = &grammar{
 									},
 								},
 								&andCodeExpr{
-									pos: position{line: 537, col: 5, offset: 16922},
+									pos: position{line: 549, col: 5, offset: 17326},
 									run: (*parser).callonPositionalAttribute30,
 								},
 							},
@@ -13923,29 +14515,29 @@ var g = &grammar{
 		},
 		{
 			name: "NamedAttribute",
-			pos:  position{line: 547, col: 1, offset: 17237},
+			pos:  position{line: 559, col: 1, offset: 17641},
 			expr: &actionExpr{
-				pos: position{line: 548, col: 5, offset: 17260},
+				pos: position{line: 560, col: 5, offset: 17664},
 				run: (*parser).callonNamedAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 548, col: 5, offset: 17260},
+					pos: position{line: 560, col: 5, offset: 17664},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 548, col: 5, offset: 17260},
+							pos:   position{line: 560, col: 5, offset: 17664},
 							label: "key",
 							expr: &actionExpr{
-								pos: position{line: 556, col: 22, offset: 17548},
+								pos: position{line: 568, col: 22, offset: 17952},
 								run: (*parser).callonNamedAttribute4,
 								expr: &seqExpr{
-									pos: position{line: 556, col: 22, offset: 17548},
+									pos: position{line: 568, col: 22, offset: 17952},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 556, col: 22, offset: 17548},
+											pos: position{line: 568, col: 22, offset: 17952},
 											expr: &actionExpr{
-												pos: position{line: 2922, col: 10, offset: 92448},
+												pos: position{line: 2934, col: 10, offset: 92852},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2922, col: 10, offset: 92448},
+													pos:        position{line: 2934, col: 10, offset: 92852},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13954,9 +14546,9 @@ var g = &grammar{
 											},
 										},
 										&oneOrMoreExpr{
-											pos: position{line: 556, col: 29, offset: 17555},
+											pos: position{line: 568, col: 29, offset: 17959},
 											expr: &charClassMatcher{
-												pos:        position{line: 556, col: 29, offset: 17555},
+												pos:        position{line: 568, col: 29, offset: 17959},
 												val:        "[^\\r\\n=,]]",
 												chars:      []rune{'\r', '\n', '=', ',', ']'},
 												ignoreCase: false,
@@ -13968,18 +14560,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 549, col: 5, offset: 17289},
+							pos:        position{line: 561, col: 5, offset: 17693},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 549, col: 9, offset: 17293},
+							pos: position{line: 561, col: 9, offset: 17697},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92448},
+								pos: position{line: 2934, col: 10, offset: 92852},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92448},
+									pos:        position{line: 2934, col: 10, offset: 92852},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13988,31 +14580,31 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 550, col: 5, offset: 17305},
+							pos:   position{line: 562, col: 5, offset: 17709},
 							label: "value",
 							expr: &ruleRefExpr{
-								pos:  position{line: 550, col: 12, offset: 17312},
+								pos:  position{line: 562, col: 12, offset: 17716},
 								name: "AttributeValue",
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 550, col: 28, offset: 17328},
+							pos: position{line: 562, col: 28, offset: 17732},
 							expr: &seqExpr{
-								pos: position{line: 550, col: 29, offset: 17329},
+								pos: position{line: 562, col: 29, offset: 17733},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 550, col: 29, offset: 17329},
+										pos:        position{line: 562, col: 29, offset: 17733},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 550, col: 33, offset: 17333},
+										pos: position{line: 562, col: 33, offset: 17737},
 										expr: &actionExpr{
-											pos: position{line: 2922, col: 10, offset: 92448},
+											pos: position{line: 2934, col: 10, offset: 92852},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2922, col: 10, offset: 92448},
+												pos:        position{line: 2934, col: 10, offset: 92852},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14029,48 +14621,48 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeValue",
-			pos:  position{line: 560, col: 1, offset: 17612},
+			pos:  position{line: 572, col: 1, offset: 18016},
 			expr: &actionExpr{
-				pos: position{line: 561, col: 5, offset: 17635},
+				pos: position{line: 573, col: 5, offset: 18039},
 				run: (*parser).callonAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 561, col: 5, offset: 17635},
+					pos: position{line: 573, col: 5, offset: 18039},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 561, col: 5, offset: 17635},
+							pos:   position{line: 573, col: 5, offset: 18039},
 							label: "value",
 							expr: &choiceExpr{
-								pos: position{line: 562, col: 9, offset: 17651},
+								pos: position{line: 574, col: 9, offset: 18055},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 562, col: 9, offset: 17651},
+										pos:  position{line: 574, col: 9, offset: 18055},
 										name: "SingleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 563, col: 11, offset: 17689},
+										pos:  position{line: 575, col: 11, offset: 18093},
 										name: "DoubleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 564, col: 11, offset: 17727},
+										pos:  position{line: 576, col: 11, offset: 18131},
 										name: "UnquotedAttributeValue",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 566, col: 5, offset: 17761},
+							pos: position{line: 578, col: 5, offset: 18165},
 							expr: &notExpr{
-								pos: position{line: 566, col: 7, offset: 17763},
+								pos: position{line: 578, col: 7, offset: 18167},
 								expr: &seqExpr{
-									pos: position{line: 566, col: 9, offset: 17765},
+									pos: position{line: 578, col: 9, offset: 18169},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 566, col: 9, offset: 17765},
+											pos: position{line: 578, col: 9, offset: 18169},
 											expr: &actionExpr{
-												pos: position{line: 2922, col: 10, offset: 92448},
+												pos: position{line: 2934, col: 10, offset: 92852},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2922, col: 10, offset: 92448},
+													pos:        position{line: 2934, col: 10, offset: 92852},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14079,7 +14671,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 566, col: 16, offset: 17772},
+											pos:        position{line: 578, col: 16, offset: 18176},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -14094,38 +14686,38 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValue",
-			pos:  position{line: 570, col: 1, offset: 17813},
+			pos:  position{line: 582, col: 1, offset: 18217},
 			expr: &actionExpr{
-				pos: position{line: 571, col: 5, offset: 17848},
+				pos: position{line: 583, col: 5, offset: 18252},
 				run: (*parser).callonSingleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 571, col: 5, offset: 17848},
+					pos: position{line: 583, col: 5, offset: 18252},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 571, col: 5, offset: 17848},
+							pos:        position{line: 583, col: 5, offset: 18252},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
 						},
 						&notExpr{
-							pos: position{line: 571, col: 9, offset: 17852},
+							pos: position{line: 583, col: 9, offset: 18256},
 							expr: &litMatcher{
-								pos:        position{line: 571, col: 10, offset: 17853},
+								pos:        position{line: 583, col: 10, offset: 18257},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 572, col: 5, offset: 17932},
+							pos:   position{line: 584, col: 5, offset: 18336},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 572, col: 14, offset: 17941},
+								pos:  position{line: 584, col: 14, offset: 18345},
 								name: "SingleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 573, col: 5, offset: 17980},
+							pos:        position{line: 585, col: 5, offset: 18384},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
@@ -14136,25 +14728,25 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValueContent",
-			pos:  position{line: 577, col: 1, offset: 18021},
+			pos:  position{line: 589, col: 1, offset: 18425},
 			expr: &actionExpr{
-				pos: position{line: 578, col: 5, offset: 18063},
+				pos: position{line: 590, col: 5, offset: 18467},
 				run: (*parser).callonSingleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 578, col: 5, offset: 18063},
+					pos:   position{line: 590, col: 5, offset: 18467},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 578, col: 14, offset: 18072},
+						pos: position{line: 590, col: 14, offset: 18476},
 						expr: &choiceExpr{
-							pos: position{line: 579, col: 9, offset: 18082},
+							pos: position{line: 591, col: 9, offset: 18486},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2816, col: 14, offset: 89617},
+									pos: position{line: 2828, col: 14, offset: 90021},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2816, col: 14, offset: 89617},
+										pos: position{line: 2828, col: 14, offset: 90021},
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 14, offset: 89617},
+											pos:        position{line: 2828, col: 14, offset: 90021},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14163,10 +14755,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2922, col: 10, offset: 92448},
+									pos: position{line: 2934, col: 10, offset: 92852},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2922, col: 10, offset: 92448},
+										pos:        position{line: 2934, col: 10, offset: 92852},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14174,39 +14766,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 581, col: 11, offset: 18118},
+									pos:  position{line: 593, col: 11, offset: 18522},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 649, col: 5, offset: 20791},
+									pos: position{line: 661, col: 5, offset: 21195},
 									run: (*parser).callonSingleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 649, col: 5, offset: 20791},
+										pos: position{line: 661, col: 5, offset: 21195},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 649, col: 5, offset: 20791},
+												pos: position{line: 661, col: 5, offset: 21195},
 												run: (*parser).callonSingleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 652, col: 5, offset: 20863},
+												pos:   position{line: 664, col: 5, offset: 21267},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 652, col: 14, offset: 20872},
+													pos: position{line: 664, col: 14, offset: 21276},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 658, col: 5, offset: 21001},
+															pos: position{line: 670, col: 5, offset: 21405},
 															run: (*parser).callonSingleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 658, col: 5, offset: 21001},
+																pos: position{line: 670, col: 5, offset: 21405},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 658, col: 5, offset: 21001},
+																		pos:        position{line: 670, col: 5, offset: 21405},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 13, offset: 21009},
+																		pos:   position{line: 670, col: 13, offset: 21413},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14238,7 +14830,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 658, col: 32, offset: 21028},
+																		pos:        position{line: 670, col: 32, offset: 21432},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14247,19 +14839,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 665, col: 5, offset: 21269},
+															pos: position{line: 677, col: 5, offset: 21673},
 															run: (*parser).callonSingleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 665, col: 5, offset: 21269},
+																pos: position{line: 677, col: 5, offset: 21673},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 665, col: 5, offset: 21269},
+																		pos:        position{line: 677, col: 5, offset: 21673},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 665, col: 9, offset: 21273},
+																		pos:   position{line: 677, col: 9, offset: 21677},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14291,7 +14883,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 665, col: 28, offset: 21292},
+																		pos:        position{line: 677, col: 28, offset: 21696},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14300,19 +14892,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 671, col: 25, offset: 21473},
+															pos: position{line: 683, col: 25, offset: 21877},
 															run: (*parser).callonSingleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 671, col: 25, offset: 21473},
+																pos: position{line: 683, col: 25, offset: 21877},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 671, col: 25, offset: 21473},
+																		pos:        position{line: 683, col: 25, offset: 21877},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 671, col: 37, offset: 21485},
+																		pos:   position{line: 683, col: 37, offset: 21889},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14344,33 +14936,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 671, col: 56, offset: 21504},
+																		pos:   position{line: 683, col: 56, offset: 21908},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 671, col: 62, offset: 21510},
+																			pos: position{line: 683, col: 62, offset: 21914},
 																			expr: &actionExpr{
-																				pos: position{line: 679, col: 17, offset: 21807},
+																				pos: position{line: 691, col: 17, offset: 22211},
 																				run: (*parser).callonSingleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 679, col: 17, offset: 21807},
+																					pos: position{line: 691, col: 17, offset: 22211},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 679, col: 17, offset: 21807},
+																							pos:        position{line: 691, col: 17, offset: 22211},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 679, col: 21, offset: 21811},
+																							pos:   position{line: 691, col: 21, offset: 22215},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 679, col: 28, offset: 21818},
+																								pos: position{line: 691, col: 28, offset: 22222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 679, col: 28, offset: 21818},
+																										pos: position{line: 691, col: 28, offset: 22222},
 																										run: (*parser).callonSingleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 679, col: 28, offset: 21818},
+																											pos:        position{line: 691, col: 28, offset: 22222},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14378,12 +14970,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 681, col: 9, offset: 21872},
+																										pos: position{line: 693, col: 9, offset: 22276},
 																										run: (*parser).callonSingleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 681, col: 9, offset: 21872},
+																											pos: position{line: 693, col: 9, offset: 22276},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 681, col: 9, offset: 21872},
+																												pos:        position{line: 693, col: 9, offset: 22276},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14400,7 +14992,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 671, col: 78, offset: 21526},
+																		pos:        position{line: 683, col: 78, offset: 21930},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14409,19 +15001,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 675, col: 25, offset: 21644},
+															pos: position{line: 687, col: 25, offset: 22048},
 															run: (*parser).callonSingleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 675, col: 25, offset: 21644},
+																pos: position{line: 687, col: 25, offset: 22048},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 675, col: 25, offset: 21644},
+																		pos:        position{line: 687, col: 25, offset: 22048},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 675, col: 38, offset: 21657},
+																		pos:   position{line: 687, col: 38, offset: 22061},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14453,33 +15045,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 675, col: 57, offset: 21676},
+																		pos:   position{line: 687, col: 57, offset: 22080},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 675, col: 63, offset: 21682},
+																			pos: position{line: 687, col: 63, offset: 22086},
 																			expr: &actionExpr{
-																				pos: position{line: 679, col: 17, offset: 21807},
+																				pos: position{line: 691, col: 17, offset: 22211},
 																				run: (*parser).callonSingleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 679, col: 17, offset: 21807},
+																					pos: position{line: 691, col: 17, offset: 22211},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 679, col: 17, offset: 21807},
+																							pos:        position{line: 691, col: 17, offset: 22211},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 679, col: 21, offset: 21811},
+																							pos:   position{line: 691, col: 21, offset: 22215},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 679, col: 28, offset: 21818},
+																								pos: position{line: 691, col: 28, offset: 22222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 679, col: 28, offset: 21818},
+																										pos: position{line: 691, col: 28, offset: 22222},
 																										run: (*parser).callonSingleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 679, col: 28, offset: 21818},
+																											pos:        position{line: 691, col: 28, offset: 22222},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14487,12 +15079,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 681, col: 9, offset: 21872},
+																										pos: position{line: 693, col: 9, offset: 22276},
 																										run: (*parser).callonSingleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 681, col: 9, offset: 21872},
+																											pos: position{line: 693, col: 9, offset: 22276},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 681, col: 9, offset: 21872},
+																												pos:        position{line: 693, col: 9, offset: 22276},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14509,7 +15101,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 675, col: 79, offset: 21698},
+																		pos:        position{line: 687, col: 79, offset: 22102},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14524,44 +15116,44 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 583, col: 12, offset: 18172},
+									pos: position{line: 595, col: 12, offset: 18576},
 									run: (*parser).callonSingleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 583, col: 12, offset: 18172},
+										pos:        position{line: 595, col: 12, offset: 18576},
 										val:        "\\'",
 										ignoreCase: false,
 										want:       "\"\\\\'\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 586, col: 13, offset: 18274},
+									pos:        position{line: 598, col: 13, offset: 18678},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 586, col: 20, offset: 18281},
+									pos:        position{line: 598, col: 20, offset: 18685},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&actionExpr{
-									pos: position{line: 586, col: 27, offset: 18288},
+									pos: position{line: 598, col: 27, offset: 18692},
 									run: (*parser).callonSingleQuotedAttributeValueContent84,
 									expr: &litMatcher{
-										pos:        position{line: 586, col: 27, offset: 18288},
+										pos:        position{line: 598, col: 27, offset: 18692},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 589, col: 12, offset: 18448},
+									pos: position{line: 601, col: 12, offset: 18852},
 									run: (*parser).callonSingleQuotedAttributeValueContent86,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 589, col: 12, offset: 18448},
+										pos: position{line: 601, col: 12, offset: 18852},
 										expr: &charClassMatcher{
-											pos:        position{line: 589, col: 12, offset: 18448},
+											pos:        position{line: 601, col: 12, offset: 18852},
 											val:        "[^\\r\\n\\\\\\ ]",
 											chars:      []rune{'\r', '\n', '\\', '\'', ' '},
 											ignoreCase: false,
@@ -14577,56 +15169,56 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValue",
-			pos:  position{line: 599, col: 1, offset: 18752},
+			pos:  position{line: 611, col: 1, offset: 19156},
 			expr: &actionExpr{
-				pos: position{line: 600, col: 5, offset: 18787},
+				pos: position{line: 612, col: 5, offset: 19191},
 				run: (*parser).callonDoubleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 600, col: 5, offset: 18787},
+					pos: position{line: 612, col: 5, offset: 19191},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 600, col: 5, offset: 18787},
+							pos:        position{line: 612, col: 5, offset: 19191},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&notExpr{
-							pos: position{line: 600, col: 10, offset: 18792},
+							pos: position{line: 612, col: 10, offset: 19196},
 							expr: &litMatcher{
-								pos:        position{line: 600, col: 11, offset: 18793},
+								pos:        position{line: 612, col: 11, offset: 19197},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 601, col: 5, offset: 18872},
+							pos:   position{line: 613, col: 5, offset: 19276},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 601, col: 14, offset: 18881},
+								pos:  position{line: 613, col: 14, offset: 19285},
 								name: "DoubleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 602, col: 5, offset: 18920},
+							pos:        position{line: 614, col: 5, offset: 19324},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&andExpr{
-							pos: position{line: 602, col: 10, offset: 18925},
+							pos: position{line: 614, col: 10, offset: 19329},
 							expr: &notExpr{
-								pos: position{line: 602, col: 12, offset: 18927},
+								pos: position{line: 614, col: 12, offset: 19331},
 								expr: &seqExpr{
-									pos: position{line: 602, col: 14, offset: 18929},
+									pos: position{line: 614, col: 14, offset: 19333},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 602, col: 14, offset: 18929},
+											pos: position{line: 614, col: 14, offset: 19333},
 											expr: &actionExpr{
-												pos: position{line: 2922, col: 10, offset: 92448},
+												pos: position{line: 2934, col: 10, offset: 92852},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2922, col: 10, offset: 92448},
+													pos:        position{line: 2934, col: 10, offset: 92852},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14635,7 +15227,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 602, col: 21, offset: 18936},
+											pos:        position{line: 614, col: 21, offset: 19340},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -14650,25 +15242,25 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValueContent",
-			pos:  position{line: 606, col: 1, offset: 18979},
+			pos:  position{line: 618, col: 1, offset: 19383},
 			expr: &actionExpr{
-				pos: position{line: 607, col: 5, offset: 19021},
+				pos: position{line: 619, col: 5, offset: 19425},
 				run: (*parser).callonDoubleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 607, col: 5, offset: 19021},
+					pos:   position{line: 619, col: 5, offset: 19425},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 607, col: 14, offset: 19030},
+						pos: position{line: 619, col: 14, offset: 19434},
 						expr: &choiceExpr{
-							pos: position{line: 608, col: 9, offset: 19040},
+							pos: position{line: 620, col: 9, offset: 19444},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2816, col: 14, offset: 89617},
+									pos: position{line: 2828, col: 14, offset: 90021},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2816, col: 14, offset: 89617},
+										pos: position{line: 2828, col: 14, offset: 90021},
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 14, offset: 89617},
+											pos:        position{line: 2828, col: 14, offset: 90021},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14677,10 +15269,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2922, col: 10, offset: 92448},
+									pos: position{line: 2934, col: 10, offset: 92852},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2922, col: 10, offset: 92448},
+										pos:        position{line: 2934, col: 10, offset: 92852},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14688,39 +15280,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 610, col: 11, offset: 19076},
+									pos:  position{line: 622, col: 11, offset: 19480},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 649, col: 5, offset: 20791},
+									pos: position{line: 661, col: 5, offset: 21195},
 									run: (*parser).callonDoubleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 649, col: 5, offset: 20791},
+										pos: position{line: 661, col: 5, offset: 21195},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 649, col: 5, offset: 20791},
+												pos: position{line: 661, col: 5, offset: 21195},
 												run: (*parser).callonDoubleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 652, col: 5, offset: 20863},
+												pos:   position{line: 664, col: 5, offset: 21267},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 652, col: 14, offset: 20872},
+													pos: position{line: 664, col: 14, offset: 21276},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 658, col: 5, offset: 21001},
+															pos: position{line: 670, col: 5, offset: 21405},
 															run: (*parser).callonDoubleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 658, col: 5, offset: 21001},
+																pos: position{line: 670, col: 5, offset: 21405},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 658, col: 5, offset: 21001},
+																		pos:        position{line: 670, col: 5, offset: 21405},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 13, offset: 21009},
+																		pos:   position{line: 670, col: 13, offset: 21413},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14752,7 +15344,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 658, col: 32, offset: 21028},
+																		pos:        position{line: 670, col: 32, offset: 21432},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14761,19 +15353,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 665, col: 5, offset: 21269},
+															pos: position{line: 677, col: 5, offset: 21673},
 															run: (*parser).callonDoubleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 665, col: 5, offset: 21269},
+																pos: position{line: 677, col: 5, offset: 21673},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 665, col: 5, offset: 21269},
+																		pos:        position{line: 677, col: 5, offset: 21673},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 665, col: 9, offset: 21273},
+																		pos:   position{line: 677, col: 9, offset: 21677},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14805,7 +15397,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 665, col: 28, offset: 21292},
+																		pos:        position{line: 677, col: 28, offset: 21696},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14814,19 +15406,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 671, col: 25, offset: 21473},
+															pos: position{line: 683, col: 25, offset: 21877},
 															run: (*parser).callonDoubleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 671, col: 25, offset: 21473},
+																pos: position{line: 683, col: 25, offset: 21877},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 671, col: 25, offset: 21473},
+																		pos:        position{line: 683, col: 25, offset: 21877},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 671, col: 37, offset: 21485},
+																		pos:   position{line: 683, col: 37, offset: 21889},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14858,33 +15450,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 671, col: 56, offset: 21504},
+																		pos:   position{line: 683, col: 56, offset: 21908},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 671, col: 62, offset: 21510},
+																			pos: position{line: 683, col: 62, offset: 21914},
 																			expr: &actionExpr{
-																				pos: position{line: 679, col: 17, offset: 21807},
+																				pos: position{line: 691, col: 17, offset: 22211},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 679, col: 17, offset: 21807},
+																					pos: position{line: 691, col: 17, offset: 22211},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 679, col: 17, offset: 21807},
+																							pos:        position{line: 691, col: 17, offset: 22211},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 679, col: 21, offset: 21811},
+																							pos:   position{line: 691, col: 21, offset: 22215},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 679, col: 28, offset: 21818},
+																								pos: position{line: 691, col: 28, offset: 22222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 679, col: 28, offset: 21818},
+																										pos: position{line: 691, col: 28, offset: 22222},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 679, col: 28, offset: 21818},
+																											pos:        position{line: 691, col: 28, offset: 22222},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14892,12 +15484,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 681, col: 9, offset: 21872},
+																										pos: position{line: 693, col: 9, offset: 22276},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 681, col: 9, offset: 21872},
+																											pos: position{line: 693, col: 9, offset: 22276},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 681, col: 9, offset: 21872},
+																												pos:        position{line: 693, col: 9, offset: 22276},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14914,7 +15506,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 671, col: 78, offset: 21526},
+																		pos:        position{line: 683, col: 78, offset: 21930},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14923,19 +15515,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 675, col: 25, offset: 21644},
+															pos: position{line: 687, col: 25, offset: 22048},
 															run: (*parser).callonDoubleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 675, col: 25, offset: 21644},
+																pos: position{line: 687, col: 25, offset: 22048},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 675, col: 25, offset: 21644},
+																		pos:        position{line: 687, col: 25, offset: 22048},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 675, col: 38, offset: 21657},
+																		pos:   position{line: 687, col: 38, offset: 22061},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -14967,33 +15559,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 675, col: 57, offset: 21676},
+																		pos:   position{line: 687, col: 57, offset: 22080},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 675, col: 63, offset: 21682},
+																			pos: position{line: 687, col: 63, offset: 22086},
 																			expr: &actionExpr{
-																				pos: position{line: 679, col: 17, offset: 21807},
+																				pos: position{line: 691, col: 17, offset: 22211},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 679, col: 17, offset: 21807},
+																					pos: position{line: 691, col: 17, offset: 22211},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 679, col: 17, offset: 21807},
+																							pos:        position{line: 691, col: 17, offset: 22211},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 679, col: 21, offset: 21811},
+																							pos:   position{line: 691, col: 21, offset: 22215},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 679, col: 28, offset: 21818},
+																								pos: position{line: 691, col: 28, offset: 22222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 679, col: 28, offset: 21818},
+																										pos: position{line: 691, col: 28, offset: 22222},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 679, col: 28, offset: 21818},
+																											pos:        position{line: 691, col: 28, offset: 22222},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -15001,12 +15593,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 681, col: 9, offset: 21872},
+																										pos: position{line: 693, col: 9, offset: 22276},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 681, col: 9, offset: 21872},
+																											pos: position{line: 693, col: 9, offset: 22276},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 681, col: 9, offset: 21872},
+																												pos:        position{line: 693, col: 9, offset: 22276},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -15023,7 +15615,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 675, col: 79, offset: 21698},
+																		pos:        position{line: 687, col: 79, offset: 22102},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -15038,50 +15630,50 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 612, col: 12, offset: 19131},
+									pos: position{line: 624, col: 12, offset: 19535},
 									run: (*parser).callonDoubleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 612, col: 12, offset: 19131},
+										pos:        position{line: 624, col: 12, offset: 19535},
 										val:        "\\\"",
 										ignoreCase: false,
 										want:       "\"\\\\\\\"\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 615, col: 13, offset: 19233},
+									pos:        position{line: 627, col: 13, offset: 19637},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 615, col: 21, offset: 19241},
+									pos:        position{line: 627, col: 21, offset: 19645},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&litMatcher{
-									pos:        position{line: 615, col: 29, offset: 19249},
+									pos:        position{line: 627, col: 29, offset: 19653},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&actionExpr{
-									pos: position{line: 615, col: 35, offset: 19255},
+									pos: position{line: 627, col: 35, offset: 19659},
 									run: (*parser).callonDoubleQuotedAttributeValueContent85,
 									expr: &litMatcher{
-										pos:        position{line: 615, col: 35, offset: 19255},
+										pos:        position{line: 627, col: 35, offset: 19659},
 										val:        "`",
 										ignoreCase: false,
 										want:       "\"`\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 618, col: 12, offset: 19438},
+									pos: position{line: 630, col: 12, offset: 19842},
 									run: (*parser).callonDoubleQuotedAttributeValueContent87,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 618, col: 12, offset: 19438},
+										pos: position{line: 630, col: 12, offset: 19842},
 										expr: &charClassMatcher{
-											pos:        position{line: 618, col: 12, offset: 19438},
+											pos:        position{line: 630, col: 12, offset: 19842},
 											val:        "[^\\r\\n\\\\\"` ]",
 											chars:      []rune{'\r', '\n', '\\', '"', '`', ' '},
 											ignoreCase: false,
@@ -15097,20 +15689,20 @@ var g = &grammar{
 		},
 		{
 			name: "UnquotedAttributeValue",
-			pos:  position{line: 629, col: 1, offset: 19819},
+			pos:  position{line: 641, col: 1, offset: 20223},
 			expr: &actionExpr{
-				pos: position{line: 632, col: 5, offset: 20003},
+				pos: position{line: 644, col: 5, offset: 20407},
 				run: (*parser).callonUnquotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 632, col: 5, offset: 20003},
+					pos: position{line: 644, col: 5, offset: 20407},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 632, col: 5, offset: 20003},
+							pos: position{line: 644, col: 5, offset: 20407},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92448},
+								pos: position{line: 2934, col: 10, offset: 92852},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92448},
+									pos:        position{line: 2934, col: 10, offset: 92852},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15119,28 +15711,28 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 633, col: 5, offset: 20072},
+							pos:   position{line: 645, col: 5, offset: 20476},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 633, col: 14, offset: 20081},
+								pos: position{line: 645, col: 14, offset: 20485},
 								expr: &choiceExpr{
-									pos: position{line: 634, col: 9, offset: 20091},
+									pos: position{line: 646, col: 9, offset: 20495},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 634, col: 10, offset: 20092},
+											pos: position{line: 646, col: 10, offset: 20496},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 634, col: 10, offset: 20092},
+													pos:        position{line: 646, col: 10, offset: 20496},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
 												},
 												&ruleRefExpr{
-													pos:  position{line: 634, col: 14, offset: 20096},
+													pos:  position{line: 646, col: 14, offset: 20500},
 													name: "UnquotedAttributeValue",
 												},
 												&litMatcher{
-													pos:        position{line: 634, col: 37, offset: 20119},
+													pos:        position{line: 646, col: 37, offset: 20523},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
@@ -15148,35 +15740,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 649, col: 5, offset: 20791},
+											pos: position{line: 661, col: 5, offset: 21195},
 											run: (*parser).callonUnquotedAttributeValue13,
 											expr: &seqExpr{
-												pos: position{line: 649, col: 5, offset: 20791},
+												pos: position{line: 661, col: 5, offset: 21195},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 649, col: 5, offset: 20791},
+														pos: position{line: 661, col: 5, offset: 21195},
 														run: (*parser).callonUnquotedAttributeValue15,
 													},
 													&labeledExpr{
-														pos:   position{line: 652, col: 5, offset: 20863},
+														pos:   position{line: 664, col: 5, offset: 21267},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 652, col: 14, offset: 20872},
+															pos: position{line: 664, col: 14, offset: 21276},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 658, col: 5, offset: 21001},
+																	pos: position{line: 670, col: 5, offset: 21405},
 																	run: (*parser).callonUnquotedAttributeValue18,
 																	expr: &seqExpr{
-																		pos: position{line: 658, col: 5, offset: 21001},
+																		pos: position{line: 670, col: 5, offset: 21405},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 658, col: 5, offset: 21001},
+																				pos:        position{line: 670, col: 5, offset: 21405},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 13, offset: 21009},
+																				pos:   position{line: 670, col: 13, offset: 21413},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -15208,7 +15800,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 32, offset: 21028},
+																				pos:        position{line: 670, col: 32, offset: 21432},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15217,19 +15809,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 665, col: 5, offset: 21269},
+																	pos: position{line: 677, col: 5, offset: 21673},
 																	run: (*parser).callonUnquotedAttributeValue28,
 																	expr: &seqExpr{
-																		pos: position{line: 665, col: 5, offset: 21269},
+																		pos: position{line: 677, col: 5, offset: 21673},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 665, col: 5, offset: 21269},
+																				pos:        position{line: 677, col: 5, offset: 21673},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 665, col: 9, offset: 21273},
+																				pos:   position{line: 677, col: 9, offset: 21677},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -15261,7 +15853,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 665, col: 28, offset: 21292},
+																				pos:        position{line: 677, col: 28, offset: 21696},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15270,19 +15862,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 671, col: 25, offset: 21473},
+																	pos: position{line: 683, col: 25, offset: 21877},
 																	run: (*parser).callonUnquotedAttributeValue38,
 																	expr: &seqExpr{
-																		pos: position{line: 671, col: 25, offset: 21473},
+																		pos: position{line: 683, col: 25, offset: 21877},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 671, col: 25, offset: 21473},
+																				pos:        position{line: 683, col: 25, offset: 21877},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 671, col: 37, offset: 21485},
+																				pos:   position{line: 683, col: 37, offset: 21889},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -15314,33 +15906,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 671, col: 56, offset: 21504},
+																				pos:   position{line: 683, col: 56, offset: 21908},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 671, col: 62, offset: 21510},
+																					pos: position{line: 683, col: 62, offset: 21914},
 																					expr: &actionExpr{
-																						pos: position{line: 679, col: 17, offset: 21807},
+																						pos: position{line: 691, col: 17, offset: 22211},
 																						run: (*parser).callonUnquotedAttributeValue49,
 																						expr: &seqExpr{
-																							pos: position{line: 679, col: 17, offset: 21807},
+																							pos: position{line: 691, col: 17, offset: 22211},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 679, col: 17, offset: 21807},
+																									pos:        position{line: 691, col: 17, offset: 22211},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 679, col: 21, offset: 21811},
+																									pos:   position{line: 691, col: 21, offset: 22215},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 679, col: 28, offset: 21818},
+																										pos: position{line: 691, col: 28, offset: 22222},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 679, col: 28, offset: 21818},
+																												pos: position{line: 691, col: 28, offset: 22222},
 																												run: (*parser).callonUnquotedAttributeValue54,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 679, col: 28, offset: 21818},
+																													pos:        position{line: 691, col: 28, offset: 22222},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15348,12 +15940,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 681, col: 9, offset: 21872},
+																												pos: position{line: 693, col: 9, offset: 22276},
 																												run: (*parser).callonUnquotedAttributeValue56,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 681, col: 9, offset: 21872},
+																													pos: position{line: 693, col: 9, offset: 22276},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 681, col: 9, offset: 21872},
+																														pos:        position{line: 693, col: 9, offset: 22276},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15370,7 +15962,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 671, col: 78, offset: 21526},
+																				pos:        position{line: 683, col: 78, offset: 21930},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15379,19 +15971,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 675, col: 25, offset: 21644},
+																	pos: position{line: 687, col: 25, offset: 22048},
 																	run: (*parser).callonUnquotedAttributeValue60,
 																	expr: &seqExpr{
-																		pos: position{line: 675, col: 25, offset: 21644},
+																		pos: position{line: 687, col: 25, offset: 22048},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 675, col: 25, offset: 21644},
+																				pos:        position{line: 687, col: 25, offset: 22048},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 675, col: 38, offset: 21657},
+																				pos:   position{line: 687, col: 38, offset: 22061},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -15423,33 +16015,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 675, col: 57, offset: 21676},
+																				pos:   position{line: 687, col: 57, offset: 22080},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 675, col: 63, offset: 21682},
+																					pos: position{line: 687, col: 63, offset: 22086},
 																					expr: &actionExpr{
-																						pos: position{line: 679, col: 17, offset: 21807},
+																						pos: position{line: 691, col: 17, offset: 22211},
 																						run: (*parser).callonUnquotedAttributeValue71,
 																						expr: &seqExpr{
-																							pos: position{line: 679, col: 17, offset: 21807},
+																							pos: position{line: 691, col: 17, offset: 22211},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 679, col: 17, offset: 21807},
+																									pos:        position{line: 691, col: 17, offset: 22211},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 679, col: 21, offset: 21811},
+																									pos:   position{line: 691, col: 21, offset: 22215},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 679, col: 28, offset: 21818},
+																										pos: position{line: 691, col: 28, offset: 22222},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 679, col: 28, offset: 21818},
+																												pos: position{line: 691, col: 28, offset: 22222},
 																												run: (*parser).callonUnquotedAttributeValue76,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 679, col: 28, offset: 21818},
+																													pos:        position{line: 691, col: 28, offset: 22222},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15457,12 +16049,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 681, col: 9, offset: 21872},
+																												pos: position{line: 693, col: 9, offset: 22276},
 																												run: (*parser).callonUnquotedAttributeValue78,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 681, col: 9, offset: 21872},
+																													pos: position{line: 693, col: 9, offset: 22276},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 681, col: 9, offset: 21872},
+																														pos:        position{line: 693, col: 9, offset: 22276},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15479,7 +16071,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 675, col: 79, offset: 21698},
+																				pos:        position{line: 687, col: 79, offset: 22102},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15494,16 +16086,16 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 635, col: 32, offset: 20206},
+											pos:        position{line: 647, col: 32, offset: 20610},
 											val:        "{",
 											ignoreCase: false,
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2922, col: 10, offset: 92448},
+											pos: position{line: 2934, col: 10, offset: 92852},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2922, col: 10, offset: 92448},
+												pos:        position{line: 2934, col: 10, offset: 92852},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15511,12 +16103,12 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 637, col: 12, offset: 20291},
+											pos: position{line: 649, col: 12, offset: 20695},
 											run: (*parser).callonUnquotedAttributeValue85,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 637, col: 12, offset: 20291},
+												pos: position{line: 649, col: 12, offset: 20695},
 												expr: &charClassMatcher{
-													pos:        position{line: 637, col: 12, offset: 20291},
+													pos:        position{line: 649, col: 12, offset: 20695},
 													val:        "[^=,]{ ]",
 													chars:      []rune{'=', ',', ']', '{', ' '},
 													ignoreCase: false,
@@ -15534,32 +16126,32 @@ var g = &grammar{
 		},
 		{
 			name: "CrossReference",
-			pos:  position{line: 697, col: 1, offset: 22434},
+			pos:  position{line: 709, col: 1, offset: 22838},
 			expr: &choiceExpr{
-				pos: position{line: 697, col: 19, offset: 22452},
+				pos: position{line: 709, col: 19, offset: 22856},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 699, col: 27, offset: 22528},
+						pos: position{line: 711, col: 27, offset: 22932},
 						run: (*parser).callonCrossReference2,
 						expr: &seqExpr{
-							pos: position{line: 699, col: 27, offset: 22528},
+							pos: position{line: 711, col: 27, offset: 22932},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 699, col: 27, offset: 22528},
+									pos:        position{line: 711, col: 27, offset: 22932},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 699, col: 32, offset: 22533},
+									pos:   position{line: 711, col: 32, offset: 22937},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2907, col: 7, offset: 92100},
+										pos: position{line: 2919, col: 7, offset: 92504},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2907, col: 7, offset: 92100},
+											pos: position{line: 2919, col: 7, offset: 92504},
 											expr: &charClassMatcher{
-												pos:        position{line: 2907, col: 7, offset: 92100},
+												pos:        position{line: 2919, col: 7, offset: 92504},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15569,12 +16161,12 @@ var g = &grammar{
 									},
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 699, col: 40, offset: 22541},
+									pos: position{line: 711, col: 40, offset: 22945},
 									expr: &actionExpr{
-										pos: position{line: 2922, col: 10, offset: 92448},
+										pos: position{line: 2934, col: 10, offset: 92852},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2922, col: 10, offset: 92448},
+											pos:        position{line: 2934, col: 10, offset: 92852},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15583,36 +16175,36 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 699, col: 47, offset: 22548},
+									pos:        position{line: 711, col: 47, offset: 22952},
 									val:        ",",
 									ignoreCase: false,
 									want:       "\",\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 699, col: 51, offset: 22552},
+									pos:   position{line: 711, col: 51, offset: 22956},
 									label: "label",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 709, col: 24, offset: 22953},
+										pos: position{line: 721, col: 24, offset: 23357},
 										expr: &choiceExpr{
-											pos: position{line: 710, col: 5, offset: 22959},
+											pos: position{line: 722, col: 5, offset: 23363},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 710, col: 6, offset: 22960},
+													pos: position{line: 722, col: 6, offset: 23364},
 													run: (*parser).callonCrossReference16,
 													expr: &seqExpr{
-														pos: position{line: 710, col: 6, offset: 22960},
+														pos: position{line: 722, col: 6, offset: 23364},
 														exprs: []interface{}{
 															&charClassMatcher{
-																pos:        position{line: 710, col: 6, offset: 22960},
+																pos:        position{line: 722, col: 6, offset: 23364},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
 																inverted:   false,
 															},
 															&oneOrMoreExpr{
-																pos: position{line: 710, col: 14, offset: 22968},
+																pos: position{line: 722, col: 14, offset: 23372},
 																expr: &charClassMatcher{
-																	pos:        position{line: 710, col: 14, offset: 22968},
+																	pos:        position{line: 722, col: 14, offset: 23372},
 																	val:        "[^\\r\\n{<>]",
 																	chars:      []rune{'\r', '\n', '{', '<', '>'},
 																	ignoreCase: false,
@@ -15623,19 +16215,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 658, col: 5, offset: 21001},
+													pos: position{line: 670, col: 5, offset: 21405},
 													run: (*parser).callonCrossReference21,
 													expr: &seqExpr{
-														pos: position{line: 658, col: 5, offset: 21001},
+														pos: position{line: 670, col: 5, offset: 21405},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 658, col: 5, offset: 21001},
+																pos:        position{line: 670, col: 5, offset: 21405},
 																val:        "\\{",
 																ignoreCase: false,
 																want:       "\"\\\\{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 658, col: 13, offset: 21009},
+																pos:   position{line: 670, col: 13, offset: 21413},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 320, col: 18, offset: 9837},
@@ -15667,7 +16259,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 658, col: 32, offset: 21028},
+																pos:        position{line: 670, col: 32, offset: 21432},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15676,19 +16268,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 665, col: 5, offset: 21269},
+													pos: position{line: 677, col: 5, offset: 21673},
 													run: (*parser).callonCrossReference31,
 													expr: &seqExpr{
-														pos: position{line: 665, col: 5, offset: 21269},
+														pos: position{line: 677, col: 5, offset: 21673},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 665, col: 5, offset: 21269},
+																pos:        position{line: 677, col: 5, offset: 21673},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 665, col: 9, offset: 21273},
+																pos:   position{line: 677, col: 9, offset: 21677},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 320, col: 18, offset: 9837},
@@ -15720,7 +16312,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 665, col: 28, offset: 21292},
+																pos:        position{line: 677, col: 28, offset: 21696},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15729,10 +16321,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 714, col: 8, offset: 23194},
+													pos: position{line: 726, col: 8, offset: 23598},
 													run: (*parser).callonCrossReference41,
 													expr: &litMatcher{
-														pos:        position{line: 714, col: 8, offset: 23194},
+														pos:        position{line: 726, col: 8, offset: 23598},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -15743,7 +16335,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 699, col: 79, offset: 22580},
+									pos:        position{line: 711, col: 79, offset: 22984},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15752,27 +16344,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 701, col: 9, offset: 22653},
+						pos: position{line: 713, col: 9, offset: 23057},
 						run: (*parser).callonCrossReference44,
 						expr: &seqExpr{
-							pos: position{line: 701, col: 9, offset: 22653},
+							pos: position{line: 713, col: 9, offset: 23057},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 701, col: 9, offset: 22653},
+									pos:        position{line: 713, col: 9, offset: 23057},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 701, col: 14, offset: 22658},
+									pos:   position{line: 713, col: 14, offset: 23062},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2907, col: 7, offset: 92100},
+										pos: position{line: 2919, col: 7, offset: 92504},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2907, col: 7, offset: 92100},
+											pos: position{line: 2919, col: 7, offset: 92504},
 											expr: &charClassMatcher{
-												pos:        position{line: 2907, col: 7, offset: 92100},
+												pos:        position{line: 2919, col: 7, offset: 92504},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15782,7 +16374,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 701, col: 22, offset: 22666},
+									pos:        position{line: 713, col: 22, offset: 23070},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15791,7 +16383,7 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 697, col: 44, offset: 22477},
+						pos:  position{line: 709, col: 44, offset: 22881},
 						name: "ExternalCrossReference",
 					},
 				},
@@ -15799,58 +16391,58 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalCrossReference",
-			pos:  position{line: 705, col: 1, offset: 22737},
+			pos:  position{line: 717, col: 1, offset: 23141},
 			expr: &actionExpr{
-				pos: position{line: 705, col: 27, offset: 22763},
+				pos: position{line: 717, col: 27, offset: 23167},
 				run: (*parser).callonExternalCrossReference1,
 				expr: &seqExpr{
-					pos: position{line: 705, col: 27, offset: 22763},
+					pos: position{line: 717, col: 27, offset: 23167},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 705, col: 27, offset: 22763},
+							pos:        position{line: 717, col: 27, offset: 23167},
 							val:        "xref:",
 							ignoreCase: false,
 							want:       "\"xref:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 705, col: 35, offset: 22771},
+							pos:   position{line: 717, col: 35, offset: 23175},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 17, offset: 91111},
+								pos: position{line: 2888, col: 17, offset: 91515},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2876, col: 17, offset: 91111},
+									pos:   position{line: 2888, col: 17, offset: 91515},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2893, col: 5, offset: 91565},
+										pos: position{line: 2905, col: 5, offset: 91969},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2893, col: 5, offset: 91565},
+											pos:   position{line: 2905, col: 5, offset: 91969},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2893, col: 14, offset: 91574},
+												pos: position{line: 2905, col: 14, offset: 91978},
 												expr: &choiceExpr{
-													pos: position{line: 2894, col: 9, offset: 91584},
+													pos: position{line: 2906, col: 9, offset: 91988},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2894, col: 9, offset: 91584},
+															pos: position{line: 2906, col: 9, offset: 91988},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2894, col: 9, offset: 91584},
+																pos: position{line: 2906, col: 9, offset: 91988},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2894, col: 9, offset: 91584},
+																		pos: position{line: 2906, col: 9, offset: 91988},
 																		expr: &litMatcher{
-																			pos:        position{line: 2894, col: 10, offset: 91585},
+																			pos:        position{line: 2906, col: 10, offset: 91989},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2895, col: 9, offset: 91613},
+																		pos: position{line: 2907, col: 9, offset: 92017},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2895, col: 10, offset: 91614},
+																			pos:        position{line: 2907, col: 10, offset: 92018},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15861,27 +16453,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2898, col: 11, offset: 91826},
+															pos: position{line: 2910, col: 11, offset: 92230},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2898, col: 11, offset: 91826},
+																	pos:        position{line: 2910, col: 11, offset: 92230},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2898, col: 19, offset: 91834},
+																	pos: position{line: 2910, col: 19, offset: 92238},
 																	expr: &seqExpr{
-																		pos: position{line: 2898, col: 21, offset: 91836},
+																		pos: position{line: 2910, col: 21, offset: 92240},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2898, col: 21, offset: 91836},
+																				pos: position{line: 2910, col: 21, offset: 92240},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92448},
+																					pos: position{line: 2934, col: 10, offset: 92852},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92448},
+																						pos:        position{line: 2934, col: 10, offset: 92852},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15890,11 +16482,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2898, col: 28, offset: 91843},
+																				pos: position{line: 2910, col: 28, offset: 92247},
 																				expr: &notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
@@ -15904,35 +16496,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 649, col: 5, offset: 20791},
+															pos: position{line: 661, col: 5, offset: 21195},
 															run: (*parser).callonExternalCrossReference27,
 															expr: &seqExpr{
-																pos: position{line: 649, col: 5, offset: 20791},
+																pos: position{line: 661, col: 5, offset: 21195},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 649, col: 5, offset: 20791},
+																		pos: position{line: 661, col: 5, offset: 21195},
 																		run: (*parser).callonExternalCrossReference29,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 652, col: 5, offset: 20863},
+																		pos:   position{line: 664, col: 5, offset: 21267},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 652, col: 14, offset: 20872},
+																			pos: position{line: 664, col: 14, offset: 21276},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 658, col: 5, offset: 21001},
+																					pos: position{line: 670, col: 5, offset: 21405},
 																					run: (*parser).callonExternalCrossReference32,
 																					expr: &seqExpr{
-																						pos: position{line: 658, col: 5, offset: 21001},
+																						pos: position{line: 670, col: 5, offset: 21405},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 658, col: 5, offset: 21001},
+																								pos:        position{line: 670, col: 5, offset: 21405},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 13, offset: 21009},
+																								pos:   position{line: 670, col: 13, offset: 21413},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -15964,7 +16556,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 658, col: 32, offset: 21028},
+																								pos:        position{line: 670, col: 32, offset: 21432},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15973,19 +16565,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 665, col: 5, offset: 21269},
+																					pos: position{line: 677, col: 5, offset: 21673},
 																					run: (*parser).callonExternalCrossReference42,
 																					expr: &seqExpr{
-																						pos: position{line: 665, col: 5, offset: 21269},
+																						pos: position{line: 677, col: 5, offset: 21673},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 665, col: 5, offset: 21269},
+																								pos:        position{line: 677, col: 5, offset: 21673},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 9, offset: 21273},
+																								pos:   position{line: 677, col: 9, offset: 21677},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -16017,7 +16609,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 665, col: 28, offset: 21292},
+																								pos:        position{line: 677, col: 28, offset: 21696},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16026,19 +16618,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 671, col: 25, offset: 21473},
+																					pos: position{line: 683, col: 25, offset: 21877},
 																					run: (*parser).callonExternalCrossReference52,
 																					expr: &seqExpr{
-																						pos: position{line: 671, col: 25, offset: 21473},
+																						pos: position{line: 683, col: 25, offset: 21877},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 671, col: 25, offset: 21473},
+																								pos:        position{line: 683, col: 25, offset: 21877},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 671, col: 37, offset: 21485},
+																								pos:   position{line: 683, col: 37, offset: 21889},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -16070,33 +16662,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 671, col: 56, offset: 21504},
+																								pos:   position{line: 683, col: 56, offset: 21908},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 671, col: 62, offset: 21510},
+																									pos: position{line: 683, col: 62, offset: 21914},
 																									expr: &actionExpr{
-																										pos: position{line: 679, col: 17, offset: 21807},
+																										pos: position{line: 691, col: 17, offset: 22211},
 																										run: (*parser).callonExternalCrossReference63,
 																										expr: &seqExpr{
-																											pos: position{line: 679, col: 17, offset: 21807},
+																											pos: position{line: 691, col: 17, offset: 22211},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 679, col: 17, offset: 21807},
+																													pos:        position{line: 691, col: 17, offset: 22211},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 679, col: 21, offset: 21811},
+																													pos:   position{line: 691, col: 21, offset: 22215},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 679, col: 28, offset: 21818},
+																														pos: position{line: 691, col: 28, offset: 22222},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 679, col: 28, offset: 21818},
+																																pos: position{line: 691, col: 28, offset: 22222},
 																																run: (*parser).callonExternalCrossReference68,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 679, col: 28, offset: 21818},
+																																	pos:        position{line: 691, col: 28, offset: 22222},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -16104,12 +16696,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 681, col: 9, offset: 21872},
+																																pos: position{line: 693, col: 9, offset: 22276},
 																																run: (*parser).callonExternalCrossReference70,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 681, col: 9, offset: 21872},
+																																	pos: position{line: 693, col: 9, offset: 22276},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 681, col: 9, offset: 21872},
+																																		pos:        position{line: 693, col: 9, offset: 22276},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -16126,7 +16718,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 671, col: 78, offset: 21526},
+																								pos:        position{line: 683, col: 78, offset: 21930},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16135,19 +16727,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 675, col: 25, offset: 21644},
+																					pos: position{line: 687, col: 25, offset: 22048},
 																					run: (*parser).callonExternalCrossReference74,
 																					expr: &seqExpr{
-																						pos: position{line: 675, col: 25, offset: 21644},
+																						pos: position{line: 687, col: 25, offset: 22048},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 675, col: 25, offset: 21644},
+																								pos:        position{line: 687, col: 25, offset: 22048},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 675, col: 38, offset: 21657},
+																								pos:   position{line: 687, col: 38, offset: 22061},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -16179,33 +16771,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 675, col: 57, offset: 21676},
+																								pos:   position{line: 687, col: 57, offset: 22080},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 675, col: 63, offset: 21682},
+																									pos: position{line: 687, col: 63, offset: 22086},
 																									expr: &actionExpr{
-																										pos: position{line: 679, col: 17, offset: 21807},
+																										pos: position{line: 691, col: 17, offset: 22211},
 																										run: (*parser).callonExternalCrossReference85,
 																										expr: &seqExpr{
-																											pos: position{line: 679, col: 17, offset: 21807},
+																											pos: position{line: 691, col: 17, offset: 22211},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 679, col: 17, offset: 21807},
+																													pos:        position{line: 691, col: 17, offset: 22211},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 679, col: 21, offset: 21811},
+																													pos:   position{line: 691, col: 21, offset: 22215},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 679, col: 28, offset: 21818},
+																														pos: position{line: 691, col: 28, offset: 22222},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 679, col: 28, offset: 21818},
+																																pos: position{line: 691, col: 28, offset: 22222},
 																																run: (*parser).callonExternalCrossReference90,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 679, col: 28, offset: 21818},
+																																	pos:        position{line: 691, col: 28, offset: 22222},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -16213,12 +16805,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 681, col: 9, offset: 21872},
+																																pos: position{line: 693, col: 9, offset: 22276},
 																																run: (*parser).callonExternalCrossReference92,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 681, col: 9, offset: 21872},
+																																	pos: position{line: 693, col: 9, offset: 22276},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 681, col: 9, offset: 21872},
+																																		pos:        position{line: 693, col: 9, offset: 22276},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -16235,7 +16827,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 675, col: 79, offset: 21698},
+																								pos:        position{line: 687, col: 79, offset: 22102},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16250,27 +16842,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1211, col: 23, offset: 37656},
+															pos: position{line: 1223, col: 23, offset: 38060},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1211, col: 23, offset: 37656},
+																pos: position{line: 1223, col: 23, offset: 38060},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1209, col: 32, offset: 37624},
+																		pos:        position{line: 1221, col: 32, offset: 38028},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1211, col: 51, offset: 37684},
+																		pos:   position{line: 1223, col: 51, offset: 38088},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1211, col: 56, offset: 37689},
+																			pos: position{line: 1223, col: 56, offset: 38093},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1211, col: 56, offset: 37689},
+																				pos: position{line: 1223, col: 56, offset: 38093},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1211, col: 56, offset: 37689},
+																					pos:        position{line: 1223, col: 56, offset: 38093},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -16280,23 +16872,23 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1209, col: 32, offset: 37624},
+																		pos:        position{line: 1221, col: 32, offset: 38028},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1211, col: 123, offset: 37756},
+																		pos: position{line: 1223, col: 123, offset: 38160},
 																		run: (*parser).callonExternalCrossReference104,
 																	},
 																},
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2901, col: 11, offset: 91963},
+															pos: position{line: 2913, col: 11, offset: 92367},
 															run: (*parser).callonExternalCrossReference105,
 															expr: &litMatcher{
-																pos:        position{line: 2901, col: 11, offset: 91963},
+																pos:        position{line: 2913, col: 11, offset: 92367},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16311,10 +16903,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 705, col: 54, offset: 22790},
+							pos:   position{line: 717, col: 54, offset: 23194},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 705, col: 66, offset: 22802},
+								pos:  position{line: 717, col: 66, offset: 23206},
 								name: "InlineAttributes",
 							},
 						},
@@ -16324,29 +16916,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 1001, col: 1, offset: 31451},
+			pos:  position{line: 1013, col: 1, offset: 31855},
 			expr: &actionExpr{
-				pos: position{line: 1002, col: 5, offset: 31484},
+				pos: position{line: 1014, col: 5, offset: 31888},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 1002, col: 5, offset: 31484},
+					pos: position{line: 1014, col: 5, offset: 31888},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1002, col: 5, offset: 31484},
+							pos:        position{line: 1014, col: 5, offset: 31888},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1002, col: 11, offset: 31490},
+							pos:   position{line: 1014, col: 11, offset: 31894},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2872, col: 14, offset: 91041},
+								pos: position{line: 2884, col: 14, offset: 91445},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2872, col: 14, offset: 91041},
+									pos: position{line: 2884, col: 14, offset: 91445},
 									expr: &charClassMatcher{
-										pos:        position{line: 2872, col: 14, offset: 91041},
+										pos:        position{line: 2884, col: 14, offset: 91445},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16356,28 +16948,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92846},
+							pos: position{line: 2956, col: 8, offset: 93250},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92619},
+									pos: position{line: 2943, col: 12, offset: 93023},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92620},
+										pos: position{line: 2943, col: 13, offset: 93024},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92620},
+												pos:        position{line: 2943, col: 13, offset: 93024},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92627},
+												pos:        position{line: 2943, col: 20, offset: 93031},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92636},
+												pos:        position{line: 2943, col: 29, offset: 93040},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16386,9 +16978,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92796},
+									pos: position{line: 2953, col: 8, offset: 93200},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92797,
+										line: 2953, col: 9, offset: 93201,
 									},
 								},
 							},
@@ -16399,53 +16991,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1113, col: 1, offset: 34407},
+			pos:  position{line: 1125, col: 1, offset: 34811},
 			expr: &actionExpr{
-				pos: position{line: 1114, col: 5, offset: 34430},
+				pos: position{line: 1126, col: 5, offset: 34834},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1114, col: 5, offset: 34430},
+					pos: position{line: 1126, col: 5, offset: 34834},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1114, col: 5, offset: 34430},
+							pos: position{line: 1126, col: 5, offset: 34834},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1117, col: 5, offset: 34491},
+							pos: position{line: 1129, col: 5, offset: 34895},
 							expr: &choiceExpr{
-								pos: position{line: 1117, col: 6, offset: 34492},
+								pos: position{line: 1129, col: 6, offset: 34896},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2525, col: 22, offset: 81226},
+										pos: position{line: 2537, col: 22, offset: 81630},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 22, offset: 81226},
+											pos: position{line: 2537, col: 22, offset: 81630},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2530, col: 31, offset: 81476},
+													pos:        position{line: 2542, col: 31, offset: 81880},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2530, col: 36, offset: 81481},
+													pos: position{line: 2542, col: 36, offset: 81885},
 													expr: &litMatcher{
-														pos:        position{line: 2530, col: 37, offset: 81482},
+														pos:        position{line: 2542, col: 37, offset: 81886},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2525, col: 49, offset: 81253},
+													pos:   position{line: 2537, col: 49, offset: 81657},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 13, offset: 90974},
+														pos: position{line: 2880, col: 13, offset: 91378},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2868, col: 13, offset: 90974},
+															pos: position{line: 2880, col: 13, offset: 91378},
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 13, offset: 90974},
+																pos:        position{line: 2880, col: 13, offset: 91378},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16455,28 +17047,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92846},
+													pos: position{line: 2956, col: 8, offset: 93250},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92619},
+															pos: position{line: 2943, col: 12, offset: 93023},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92620},
+																pos: position{line: 2943, col: 13, offset: 93024},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92620},
+																		pos:        position{line: 2943, col: 13, offset: 93024},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92627},
+																		pos:        position{line: 2943, col: 20, offset: 93031},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92636},
+																		pos:        position{line: 2943, col: 29, offset: 93040},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16485,9 +17077,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92796},
+															pos: position{line: 2953, col: 8, offset: 93200},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92797,
+																line: 2953, col: 9, offset: 93201,
 															},
 														},
 													},
@@ -16496,36 +17088,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 833, col: 5, offset: 27008},
+										pos: position{line: 845, col: 5, offset: 27412},
 										run: (*parser).callonDocumentHeader23,
 										expr: &seqExpr{
-											pos: position{line: 833, col: 5, offset: 27008},
+											pos: position{line: 845, col: 5, offset: 27412},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 753, col: 5, offset: 24268},
+													pos: position{line: 765, col: 5, offset: 24672},
 													run: (*parser).callonDocumentHeader25,
 													expr: &seqExpr{
-														pos: position{line: 753, col: 5, offset: 24268},
+														pos: position{line: 765, col: 5, offset: 24672},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 753, col: 5, offset: 24268},
+																pos:   position{line: 765, col: 5, offset: 24672},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 753, col: 16, offset: 24279},
+																	pos: position{line: 765, col: 16, offset: 24683},
 																	run: (*parser).callonDocumentHeader28,
 																	expr: &seqExpr{
-																		pos: position{line: 753, col: 16, offset: 24279},
+																		pos: position{line: 765, col: 16, offset: 24683},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 753, col: 16, offset: 24279},
+																				pos:        position{line: 765, col: 16, offset: 24683},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 753, col: 23, offset: 24286},
+																				pos: position{line: 765, col: 23, offset: 24690},
 																				expr: &litMatcher{
-																					pos:        position{line: 753, col: 23, offset: 24286},
+																					pos:        position{line: 765, col: 23, offset: 24690},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -16536,12 +17128,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 755, col: 8, offset: 24370},
+																pos: position{line: 767, col: 8, offset: 24774},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92448},
+																	pos: position{line: 2934, col: 10, offset: 92852},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92448},
+																		pos:        position{line: 2934, col: 10, offset: 92852},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16550,28 +17142,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92846},
+																pos: position{line: 2956, col: 8, offset: 93250},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92619},
+																		pos: position{line: 2943, col: 12, offset: 93023},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92620},
+																			pos: position{line: 2943, col: 13, offset: 93024},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92620},
+																					pos:        position{line: 2943, col: 13, offset: 93024},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92627},
+																					pos:        position{line: 2943, col: 20, offset: 93031},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92636},
+																					pos:        position{line: 2943, col: 29, offset: 93040},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16580,9 +17172,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92796},
+																		pos: position{line: 2953, col: 8, offset: 93200},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92797,
+																			line: 2953, col: 9, offset: 93201,
 																		},
 																	},
 																},
@@ -16591,46 +17183,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 834, col: 5, offset: 27039},
+													pos:   position{line: 846, col: 5, offset: 27443},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 844, col: 5, offset: 27325},
+														pos: position{line: 856, col: 5, offset: 27729},
 														expr: &actionExpr{
-															pos: position{line: 844, col: 6, offset: 27326},
+															pos: position{line: 856, col: 6, offset: 27730},
 															run: (*parser).callonDocumentHeader46,
 															expr: &seqExpr{
-																pos: position{line: 844, col: 6, offset: 27326},
+																pos: position{line: 856, col: 6, offset: 27730},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 844, col: 6, offset: 27326},
+																		pos: position{line: 856, col: 6, offset: 27730},
 																		expr: &choiceExpr{
-																			pos: position{line: 841, col: 29, offset: 27268},
+																			pos: position{line: 853, col: 29, offset: 27672},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 753, col: 5, offset: 24268},
+																					pos: position{line: 765, col: 5, offset: 24672},
 																					run: (*parser).callonDocumentHeader50,
 																					expr: &seqExpr{
-																						pos: position{line: 753, col: 5, offset: 24268},
+																						pos: position{line: 765, col: 5, offset: 24672},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 753, col: 5, offset: 24268},
+																								pos:   position{line: 765, col: 5, offset: 24672},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 753, col: 16, offset: 24279},
+																									pos: position{line: 765, col: 16, offset: 24683},
 																									run: (*parser).callonDocumentHeader53,
 																									expr: &seqExpr{
-																										pos: position{line: 753, col: 16, offset: 24279},
+																										pos: position{line: 765, col: 16, offset: 24683},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 753, col: 16, offset: 24279},
+																												pos:        position{line: 765, col: 16, offset: 24683},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 753, col: 23, offset: 24286},
+																												pos: position{line: 765, col: 23, offset: 24690},
 																												expr: &litMatcher{
-																													pos:        position{line: 753, col: 23, offset: 24286},
+																													pos:        position{line: 765, col: 23, offset: 24690},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -16641,12 +17233,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 755, col: 8, offset: 24370},
+																								pos: position{line: 767, col: 8, offset: 24774},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92448},
+																									pos: position{line: 2934, col: 10, offset: 92852},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92448},
+																										pos:        position{line: 2934, col: 10, offset: 92852},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16655,28 +17247,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92846},
+																								pos: position{line: 2956, col: 8, offset: 93250},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92619},
+																										pos: position{line: 2943, col: 12, offset: 93023},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92620},
+																											pos: position{line: 2943, col: 13, offset: 93024},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92620},
+																													pos:        position{line: 2943, col: 13, offset: 93024},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92627},
+																													pos:        position{line: 2943, col: 20, offset: 93031},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92636},
+																													pos:        position{line: 2943, col: 29, offset: 93040},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16685,9 +17277,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92796},
+																										pos: position{line: 2953, col: 8, offset: 93200},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92797,
+																											line: 2953, col: 9, offset: 93201,
 																										},
 																									},
 																								},
@@ -16696,39 +17288,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 845, col: 5, offset: 27356},
+																		pos:   position{line: 857, col: 5, offset: 27760},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 824, col: 5, offset: 26772},
+																			pos: position{line: 836, col: 5, offset: 27176},
 																			run: (*parser).callonDocumentHeader72,
 																			expr: &seqExpr{
-																				pos: position{line: 824, col: 5, offset: 26772},
+																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92782},
+																						pos: position{line: 2951, col: 11, offset: 93186},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92784,
+																							line: 2951, col: 13, offset: 93188,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 825, col: 5, offset: 26847},
+																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90974},
+																							pos: position{line: 2880, col: 13, offset: 91378},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90974},
+																								pos: position{line: 2880, col: 13, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90974},
+																									pos:        position{line: 2880, col: 13, offset: 91378},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16738,28 +17330,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92846},
+																						pos: position{line: 2956, col: 8, offset: 93250},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92619},
+																								pos: position{line: 2943, col: 12, offset: 93023},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92620},
+																									pos: position{line: 2943, col: 13, offset: 93024},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92620},
+																											pos:        position{line: 2943, col: 13, offset: 93024},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92627},
+																											pos:        position{line: 2943, col: 20, offset: 93031},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92636},
+																											pos:        position{line: 2943, col: 29, offset: 93040},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16768,9 +17360,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92796},
+																								pos: position{line: 2953, col: 8, offset: 93200},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92797,
+																									line: 2953, col: 9, offset: 93201,
 																								},
 																							},
 																						},
@@ -16785,35 +17377,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 835, col: 5, offset: 27073},
+													pos: position{line: 847, col: 5, offset: 27477},
 													expr: &choiceExpr{
-														pos: position{line: 841, col: 29, offset: 27268},
+														pos: position{line: 853, col: 29, offset: 27672},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 753, col: 5, offset: 24268},
+																pos: position{line: 765, col: 5, offset: 24672},
 																run: (*parser).callonDocumentHeader90,
 																expr: &seqExpr{
-																	pos: position{line: 753, col: 5, offset: 24268},
+																	pos: position{line: 765, col: 5, offset: 24672},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 753, col: 5, offset: 24268},
+																			pos:   position{line: 765, col: 5, offset: 24672},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 753, col: 16, offset: 24279},
+																				pos: position{line: 765, col: 16, offset: 24683},
 																				run: (*parser).callonDocumentHeader93,
 																				expr: &seqExpr{
-																					pos: position{line: 753, col: 16, offset: 24279},
+																					pos: position{line: 765, col: 16, offset: 24683},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 753, col: 16, offset: 24279},
+																							pos:        position{line: 765, col: 16, offset: 24683},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 753, col: 23, offset: 24286},
+																							pos: position{line: 765, col: 23, offset: 24690},
 																							expr: &litMatcher{
-																								pos:        position{line: 753, col: 23, offset: 24286},
+																								pos:        position{line: 765, col: 23, offset: 24690},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -16824,12 +17416,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 755, col: 8, offset: 24370},
+																			pos: position{line: 767, col: 8, offset: 24774},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92448},
+																				pos: position{line: 2934, col: 10, offset: 92852},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92448},
+																					pos:        position{line: 2934, col: 10, offset: 92852},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16838,28 +17430,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92846},
+																			pos: position{line: 2956, col: 8, offset: 93250},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92619},
+																					pos: position{line: 2943, col: 12, offset: 93023},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92620},
+																						pos: position{line: 2943, col: 13, offset: 93024},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92620},
+																								pos:        position{line: 2943, col: 13, offset: 93024},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92627},
+																								pos:        position{line: 2943, col: 20, offset: 93031},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92636},
+																								pos:        position{line: 2943, col: 29, offset: 93040},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16868,9 +17460,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
@@ -16879,9 +17471,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92796},
+																pos: position{line: 2953, col: 8, offset: 93200},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92797,
+																	line: 2953, col: 9, offset: 93201,
 																},
 															},
 														},
@@ -16894,49 +17486,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1118, col: 5, offset: 34588},
+							pos:   position{line: 1130, col: 5, offset: 34992},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1118, col: 12, offset: 34595},
+								pos:  position{line: 1130, col: 12, offset: 34999},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1119, col: 5, offset: 34614},
+							pos: position{line: 1131, col: 5, offset: 35018},
 							expr: &choiceExpr{
-								pos: position{line: 1119, col: 6, offset: 34615},
+								pos: position{line: 1131, col: 6, offset: 35019},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2525, col: 22, offset: 81226},
+										pos: position{line: 2537, col: 22, offset: 81630},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 22, offset: 81226},
+											pos: position{line: 2537, col: 22, offset: 81630},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2530, col: 31, offset: 81476},
+													pos:        position{line: 2542, col: 31, offset: 81880},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2530, col: 36, offset: 81481},
+													pos: position{line: 2542, col: 36, offset: 81885},
 													expr: &litMatcher{
-														pos:        position{line: 2530, col: 37, offset: 81482},
+														pos:        position{line: 2542, col: 37, offset: 81886},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2525, col: 49, offset: 81253},
+													pos:   position{line: 2537, col: 49, offset: 81657},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 13, offset: 90974},
+														pos: position{line: 2880, col: 13, offset: 91378},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2868, col: 13, offset: 90974},
+															pos: position{line: 2880, col: 13, offset: 91378},
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 13, offset: 90974},
+																pos:        position{line: 2880, col: 13, offset: 91378},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16946,28 +17538,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92846},
+													pos: position{line: 2956, col: 8, offset: 93250},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92619},
+															pos: position{line: 2943, col: 12, offset: 93023},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92620},
+																pos: position{line: 2943, col: 13, offset: 93024},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92620},
+																		pos:        position{line: 2943, col: 13, offset: 93024},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92627},
+																		pos:        position{line: 2943, col: 20, offset: 93031},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92636},
+																		pos:        position{line: 2943, col: 29, offset: 93040},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16976,9 +17568,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92796},
+															pos: position{line: 2953, col: 8, offset: 93200},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92797,
+																line: 2953, col: 9, offset: 93201,
 															},
 														},
 													},
@@ -16987,36 +17579,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 833, col: 5, offset: 27008},
+										pos: position{line: 845, col: 5, offset: 27412},
 										run: (*parser).callonDocumentHeader132,
 										expr: &seqExpr{
-											pos: position{line: 833, col: 5, offset: 27008},
+											pos: position{line: 845, col: 5, offset: 27412},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 753, col: 5, offset: 24268},
+													pos: position{line: 765, col: 5, offset: 24672},
 													run: (*parser).callonDocumentHeader134,
 													expr: &seqExpr{
-														pos: position{line: 753, col: 5, offset: 24268},
+														pos: position{line: 765, col: 5, offset: 24672},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 753, col: 5, offset: 24268},
+																pos:   position{line: 765, col: 5, offset: 24672},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 753, col: 16, offset: 24279},
+																	pos: position{line: 765, col: 16, offset: 24683},
 																	run: (*parser).callonDocumentHeader137,
 																	expr: &seqExpr{
-																		pos: position{line: 753, col: 16, offset: 24279},
+																		pos: position{line: 765, col: 16, offset: 24683},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 753, col: 16, offset: 24279},
+																				pos:        position{line: 765, col: 16, offset: 24683},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 753, col: 23, offset: 24286},
+																				pos: position{line: 765, col: 23, offset: 24690},
 																				expr: &litMatcher{
-																					pos:        position{line: 753, col: 23, offset: 24286},
+																					pos:        position{line: 765, col: 23, offset: 24690},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -17027,12 +17619,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 755, col: 8, offset: 24370},
+																pos: position{line: 767, col: 8, offset: 24774},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92448},
+																	pos: position{line: 2934, col: 10, offset: 92852},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92448},
+																		pos:        position{line: 2934, col: 10, offset: 92852},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17041,28 +17633,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92846},
+																pos: position{line: 2956, col: 8, offset: 93250},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92619},
+																		pos: position{line: 2943, col: 12, offset: 93023},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92620},
+																			pos: position{line: 2943, col: 13, offset: 93024},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92620},
+																					pos:        position{line: 2943, col: 13, offset: 93024},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92627},
+																					pos:        position{line: 2943, col: 20, offset: 93031},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92636},
+																					pos:        position{line: 2943, col: 29, offset: 93040},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17071,9 +17663,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92796},
+																		pos: position{line: 2953, col: 8, offset: 93200},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92797,
+																			line: 2953, col: 9, offset: 93201,
 																		},
 																	},
 																},
@@ -17082,46 +17674,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 834, col: 5, offset: 27039},
+													pos:   position{line: 846, col: 5, offset: 27443},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 844, col: 5, offset: 27325},
+														pos: position{line: 856, col: 5, offset: 27729},
 														expr: &actionExpr{
-															pos: position{line: 844, col: 6, offset: 27326},
+															pos: position{line: 856, col: 6, offset: 27730},
 															run: (*parser).callonDocumentHeader155,
 															expr: &seqExpr{
-																pos: position{line: 844, col: 6, offset: 27326},
+																pos: position{line: 856, col: 6, offset: 27730},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 844, col: 6, offset: 27326},
+																		pos: position{line: 856, col: 6, offset: 27730},
 																		expr: &choiceExpr{
-																			pos: position{line: 841, col: 29, offset: 27268},
+																			pos: position{line: 853, col: 29, offset: 27672},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 753, col: 5, offset: 24268},
+																					pos: position{line: 765, col: 5, offset: 24672},
 																					run: (*parser).callonDocumentHeader159,
 																					expr: &seqExpr{
-																						pos: position{line: 753, col: 5, offset: 24268},
+																						pos: position{line: 765, col: 5, offset: 24672},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 753, col: 5, offset: 24268},
+																								pos:   position{line: 765, col: 5, offset: 24672},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 753, col: 16, offset: 24279},
+																									pos: position{line: 765, col: 16, offset: 24683},
 																									run: (*parser).callonDocumentHeader162,
 																									expr: &seqExpr{
-																										pos: position{line: 753, col: 16, offset: 24279},
+																										pos: position{line: 765, col: 16, offset: 24683},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 753, col: 16, offset: 24279},
+																												pos:        position{line: 765, col: 16, offset: 24683},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 753, col: 23, offset: 24286},
+																												pos: position{line: 765, col: 23, offset: 24690},
 																												expr: &litMatcher{
-																													pos:        position{line: 753, col: 23, offset: 24286},
+																													pos:        position{line: 765, col: 23, offset: 24690},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -17132,12 +17724,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 755, col: 8, offset: 24370},
+																								pos: position{line: 767, col: 8, offset: 24774},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92448},
+																									pos: position{line: 2934, col: 10, offset: 92852},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92448},
+																										pos:        position{line: 2934, col: 10, offset: 92852},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17146,28 +17738,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92846},
+																								pos: position{line: 2956, col: 8, offset: 93250},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92619},
+																										pos: position{line: 2943, col: 12, offset: 93023},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92620},
+																											pos: position{line: 2943, col: 13, offset: 93024},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92620},
+																													pos:        position{line: 2943, col: 13, offset: 93024},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92627},
+																													pos:        position{line: 2943, col: 20, offset: 93031},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92636},
+																													pos:        position{line: 2943, col: 29, offset: 93040},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17176,9 +17768,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92796},
+																										pos: position{line: 2953, col: 8, offset: 93200},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92797,
+																											line: 2953, col: 9, offset: 93201,
 																										},
 																									},
 																								},
@@ -17187,39 +17779,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 845, col: 5, offset: 27356},
+																		pos:   position{line: 857, col: 5, offset: 27760},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 824, col: 5, offset: 26772},
+																			pos: position{line: 836, col: 5, offset: 27176},
 																			run: (*parser).callonDocumentHeader181,
 																			expr: &seqExpr{
-																				pos: position{line: 824, col: 5, offset: 26772},
+																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92782},
+																						pos: position{line: 2951, col: 11, offset: 93186},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92784,
+																							line: 2951, col: 13, offset: 93188,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 825, col: 5, offset: 26847},
+																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90974},
+																							pos: position{line: 2880, col: 13, offset: 91378},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90974},
+																								pos: position{line: 2880, col: 13, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90974},
+																									pos:        position{line: 2880, col: 13, offset: 91378},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17229,28 +17821,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92846},
+																						pos: position{line: 2956, col: 8, offset: 93250},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92619},
+																								pos: position{line: 2943, col: 12, offset: 93023},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92620},
+																									pos: position{line: 2943, col: 13, offset: 93024},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92620},
+																											pos:        position{line: 2943, col: 13, offset: 93024},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92627},
+																											pos:        position{line: 2943, col: 20, offset: 93031},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92636},
+																											pos:        position{line: 2943, col: 29, offset: 93040},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17259,9 +17851,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92796},
+																								pos: position{line: 2953, col: 8, offset: 93200},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92797,
+																									line: 2953, col: 9, offset: 93201,
 																								},
 																							},
 																						},
@@ -17276,35 +17868,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 835, col: 5, offset: 27073},
+													pos: position{line: 847, col: 5, offset: 27477},
 													expr: &choiceExpr{
-														pos: position{line: 841, col: 29, offset: 27268},
+														pos: position{line: 853, col: 29, offset: 27672},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 753, col: 5, offset: 24268},
+																pos: position{line: 765, col: 5, offset: 24672},
 																run: (*parser).callonDocumentHeader199,
 																expr: &seqExpr{
-																	pos: position{line: 753, col: 5, offset: 24268},
+																	pos: position{line: 765, col: 5, offset: 24672},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 753, col: 5, offset: 24268},
+																			pos:   position{line: 765, col: 5, offset: 24672},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 753, col: 16, offset: 24279},
+																				pos: position{line: 765, col: 16, offset: 24683},
 																				run: (*parser).callonDocumentHeader202,
 																				expr: &seqExpr{
-																					pos: position{line: 753, col: 16, offset: 24279},
+																					pos: position{line: 765, col: 16, offset: 24683},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 753, col: 16, offset: 24279},
+																							pos:        position{line: 765, col: 16, offset: 24683},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 753, col: 23, offset: 24286},
+																							pos: position{line: 765, col: 23, offset: 24690},
 																							expr: &litMatcher{
-																								pos:        position{line: 753, col: 23, offset: 24286},
+																								pos:        position{line: 765, col: 23, offset: 24690},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -17315,12 +17907,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 755, col: 8, offset: 24370},
+																			pos: position{line: 767, col: 8, offset: 24774},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92448},
+																				pos: position{line: 2934, col: 10, offset: 92852},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92448},
+																					pos:        position{line: 2934, col: 10, offset: 92852},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -17329,28 +17921,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92846},
+																			pos: position{line: 2956, col: 8, offset: 93250},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92619},
+																					pos: position{line: 2943, col: 12, offset: 93023},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92620},
+																						pos: position{line: 2943, col: 13, offset: 93024},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92620},
+																								pos:        position{line: 2943, col: 13, offset: 93024},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92627},
+																								pos:        position{line: 2943, col: 20, offset: 93031},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92636},
+																								pos:        position{line: 2943, col: 29, offset: 93040},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -17359,9 +17951,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
@@ -17370,9 +17962,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92796},
+																pos: position{line: 2953, col: 8, offset: 93200},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92797,
+																	line: 2953, col: 9, offset: 93201,
 																},
 															},
 														},
@@ -17385,41 +17977,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1120, col: 5, offset: 34711},
+							pos:   position{line: 1132, col: 5, offset: 35115},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1120, col: 24, offset: 34730},
+								pos: position{line: 1132, col: 24, offset: 35134},
 								expr: &actionExpr{
-									pos: position{line: 1131, col: 5, offset: 35105},
+									pos: position{line: 1143, col: 5, offset: 35509},
 									run: (*parser).callonDocumentHeader222,
 									expr: &seqExpr{
-										pos: position{line: 1131, col: 5, offset: 35105},
+										pos: position{line: 1143, col: 5, offset: 35509},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1131, col: 5, offset: 35105},
+												pos: position{line: 1143, col: 5, offset: 35509},
 												expr: &litMatcher{
-													pos:        position{line: 1131, col: 6, offset: 35106},
+													pos:        position{line: 1143, col: 6, offset: 35510},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1132, col: 5, offset: 35114},
+												pos:   position{line: 1144, col: 5, offset: 35518},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1138, col: 20, offset: 35370},
+													pos: position{line: 1150, col: 20, offset: 35774},
 													run: (*parser).callonDocumentHeader227,
 													expr: &seqExpr{
-														pos: position{line: 1138, col: 20, offset: 35370},
+														pos: position{line: 1150, col: 20, offset: 35774},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1138, col: 20, offset: 35370},
+																pos: position{line: 1150, col: 20, offset: 35774},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92448},
+																	pos: position{line: 2934, col: 10, offset: 92852},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92448},
+																		pos:        position{line: 2934, col: 10, offset: 92852},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17428,37 +18020,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1138, col: 27, offset: 35377},
+																pos:   position{line: 1150, col: 27, offset: 35781},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1138, col: 36, offset: 35386},
+																	pos: position{line: 1150, col: 36, offset: 35790},
 																	expr: &actionExpr{
-																		pos: position{line: 1143, col: 5, offset: 35499},
+																		pos: position{line: 1155, col: 5, offset: 35903},
 																		run: (*parser).callonDocumentHeader234,
 																		expr: &seqExpr{
-																			pos: position{line: 1143, col: 5, offset: 35499},
+																			pos: position{line: 1155, col: 5, offset: 35903},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1143, col: 5, offset: 35499},
+																					pos:   position{line: 1155, col: 5, offset: 35903},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1143, col: 14, offset: 35508},
+																						pos: position{line: 1155, col: 14, offset: 35912},
 																						expr: &actionExpr{
-																							pos: position{line: 1154, col: 5, offset: 35888},
+																							pos: position{line: 1166, col: 5, offset: 36292},
 																							run: (*parser).callonDocumentHeader238,
 																							expr: &seqExpr{
-																								pos: position{line: 1154, col: 5, offset: 35888},
+																								pos: position{line: 1166, col: 5, offset: 36292},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1154, col: 5, offset: 35888},
+																										pos:   position{line: 1166, col: 5, offset: 36292},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1154, col: 12, offset: 35895},
+																											pos: position{line: 1166, col: 12, offset: 36299},
 																											run: (*parser).callonDocumentHeader241,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1154, col: 12, offset: 35895},
+																												pos: position{line: 1166, col: 12, offset: 36299},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1154, col: 12, offset: 35895},
+																													pos:        position{line: 1166, col: 12, offset: 36299},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -17468,12 +18060,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1157, col: 5, offset: 35975},
+																										pos: position{line: 1169, col: 5, offset: 36379},
 																										expr: &actionExpr{
-																											pos: position{line: 2922, col: 10, offset: 92448},
+																											pos: position{line: 2934, col: 10, offset: 92852},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2922, col: 10, offset: 92448},
+																												pos:        position{line: 2934, col: 10, offset: 92852},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17482,17 +18074,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1158, col: 5, offset: 35986},
+																										pos:   position{line: 1170, col: 5, offset: 36390},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1158, col: 11, offset: 35992},
+																											pos: position{line: 1170, col: 11, offset: 36396},
 																											expr: &actionExpr{
-																												pos: position{line: 1158, col: 12, offset: 35993},
+																												pos: position{line: 1170, col: 12, offset: 36397},
 																												run: (*parser).callonDocumentHeader249,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1158, col: 12, offset: 35993},
+																													pos: position{line: 1170, col: 12, offset: 36397},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1158, col: 12, offset: 35993},
+																														pos:        position{line: 1170, col: 12, offset: 36397},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -17503,12 +18095,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1161, col: 5, offset: 36074},
+																										pos: position{line: 1173, col: 5, offset: 36478},
 																										expr: &actionExpr{
-																											pos: position{line: 2922, col: 10, offset: 92448},
+																											pos: position{line: 2934, col: 10, offset: 92852},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2922, col: 10, offset: 92448},
+																												pos:        position{line: 2934, col: 10, offset: 92852},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17517,17 +18109,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1162, col: 5, offset: 36085},
+																										pos:   position{line: 1174, col: 5, offset: 36489},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1162, col: 11, offset: 36091},
+																											pos: position{line: 1174, col: 11, offset: 36495},
 																											expr: &actionExpr{
-																												pos: position{line: 1162, col: 12, offset: 36092},
+																												pos: position{line: 1174, col: 12, offset: 36496},
 																												run: (*parser).callonDocumentHeader257,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1162, col: 12, offset: 36092},
+																													pos: position{line: 1174, col: 12, offset: 36496},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1162, col: 12, offset: 36092},
+																														pos:        position{line: 1174, col: 12, offset: 36496},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -17538,12 +18130,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1165, col: 5, offset: 36171},
+																										pos: position{line: 1177, col: 5, offset: 36575},
 																										expr: &actionExpr{
-																											pos: position{line: 2922, col: 10, offset: 92448},
+																											pos: position{line: 2934, col: 10, offset: 92852},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2922, col: 10, offset: 92448},
+																												pos:        position{line: 2934, col: 10, offset: 92852},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17557,38 +18149,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1143, col: 40, offset: 35534},
+																					pos:   position{line: 1155, col: 40, offset: 35938},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1143, col: 46, offset: 35540},
+																						pos: position{line: 1155, col: 46, offset: 35944},
 																						expr: &actionExpr{
-																							pos: position{line: 1171, col: 5, offset: 36293},
+																							pos: position{line: 1183, col: 5, offset: 36697},
 																							run: (*parser).callonDocumentHeader265,
 																							expr: &seqExpr{
-																								pos: position{line: 1171, col: 5, offset: 36293},
+																								pos: position{line: 1183, col: 5, offset: 36697},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2939, col: 11, offset: 92782},
+																										pos: position{line: 2951, col: 11, offset: 93186},
 																										expr: &anyMatcher{
-																											line: 2939, col: 13, offset: 92784,
+																											line: 2951, col: 13, offset: 93188,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1172, col: 5, offset: 36305},
+																										pos:        position{line: 1184, col: 5, offset: 36709},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1173, col: 5, offset: 36314},
+																										pos:   position{line: 1185, col: 5, offset: 36718},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1173, col: 12, offset: 36321},
+																											pos: position{line: 1185, col: 12, offset: 36725},
 																											run: (*parser).callonDocumentHeader271,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1173, col: 13, offset: 36322},
+																												pos: position{line: 1185, col: 13, offset: 36726},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1173, col: 13, offset: 36322},
+																													pos:        position{line: 1185, col: 13, offset: 36726},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -17598,7 +18190,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1176, col: 5, offset: 36382},
+																										pos:        position{line: 1188, col: 5, offset: 36786},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -17609,12 +18201,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1143, col: 69, offset: 35563},
+																					pos: position{line: 1155, col: 69, offset: 35967},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92448},
+																						pos: position{line: 2934, col: 10, offset: 92852},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92448},
+																							pos:        position{line: 2934, col: 10, offset: 92852},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17623,21 +18215,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1143, col: 76, offset: 35570},
+																					pos: position{line: 1155, col: 76, offset: 35974},
 																					expr: &litMatcher{
-																						pos:        position{line: 1143, col: 76, offset: 35570},
+																						pos:        position{line: 1155, col: 76, offset: 35974},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1143, col: 81, offset: 35575},
+																					pos: position{line: 1155, col: 81, offset: 35979},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92448},
+																						pos: position{line: 2934, col: 10, offset: 92852},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92448},
+																							pos:        position{line: 2934, col: 10, offset: 92852},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17646,7 +18238,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1144, col: 5, offset: 35587},
+																					pos: position{line: 1156, col: 5, offset: 35991},
 																					run: (*parser).callonDocumentHeader283,
 																				},
 																			},
@@ -17655,28 +18247,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92846},
+																pos: position{line: 2956, col: 8, offset: 93250},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92619},
+																		pos: position{line: 2943, col: 12, offset: 93023},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92620},
+																			pos: position{line: 2943, col: 13, offset: 93024},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92620},
+																					pos:        position{line: 2943, col: 13, offset: 93024},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92627},
+																					pos:        position{line: 2943, col: 20, offset: 93031},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92636},
+																					pos:        position{line: 2943, col: 29, offset: 93040},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17685,9 +18277,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92796},
+																		pos: position{line: 2953, col: 8, offset: 93200},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92797,
+																			line: 2953, col: 9, offset: 93201,
 																		},
 																	},
 																},
@@ -17697,41 +18289,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1133, col: 5, offset: 35144},
+												pos: position{line: 1145, col: 5, offset: 35548},
 												expr: &choiceExpr{
-													pos: position{line: 1133, col: 6, offset: 35145},
+													pos: position{line: 1145, col: 6, offset: 35549},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81226},
+															pos: position{line: 2537, col: 22, offset: 81630},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81226},
+																pos: position{line: 2537, col: 22, offset: 81630},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81476},
+																		pos:        position{line: 2542, col: 31, offset: 81880},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81481},
+																		pos: position{line: 2542, col: 36, offset: 81885},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81482},
+																			pos:        position{line: 2542, col: 37, offset: 81886},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81253},
+																		pos:   position{line: 2537, col: 49, offset: 81657},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 13, offset: 90974},
+																			pos: position{line: 2880, col: 13, offset: 91378},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2868, col: 13, offset: 90974},
+																				pos: position{line: 2880, col: 13, offset: 91378},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 13, offset: 90974},
+																					pos:        position{line: 2880, col: 13, offset: 91378},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17741,28 +18333,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92846},
+																		pos: position{line: 2956, col: 8, offset: 93250},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
+																				pos: position{line: 2943, col: 12, offset: 93023},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17771,9 +18363,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92796},
+																				pos: position{line: 2953, col: 8, offset: 93200},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92797,
+																					line: 2953, col: 9, offset: 93201,
 																				},
 																			},
 																		},
@@ -17782,36 +18374,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 833, col: 5, offset: 27008},
+															pos: position{line: 845, col: 5, offset: 27412},
 															run: (*parser).callonDocumentHeader311,
 															expr: &seqExpr{
-																pos: position{line: 833, col: 5, offset: 27008},
+																pos: position{line: 845, col: 5, offset: 27412},
 																exprs: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 753, col: 5, offset: 24268},
+																		pos: position{line: 765, col: 5, offset: 24672},
 																		run: (*parser).callonDocumentHeader313,
 																		expr: &seqExpr{
-																			pos: position{line: 753, col: 5, offset: 24268},
+																			pos: position{line: 765, col: 5, offset: 24672},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 753, col: 5, offset: 24268},
+																					pos:   position{line: 765, col: 5, offset: 24672},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 753, col: 16, offset: 24279},
+																						pos: position{line: 765, col: 16, offset: 24683},
 																						run: (*parser).callonDocumentHeader316,
 																						expr: &seqExpr{
-																							pos: position{line: 753, col: 16, offset: 24279},
+																							pos: position{line: 765, col: 16, offset: 24683},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 753, col: 16, offset: 24279},
+																									pos:        position{line: 765, col: 16, offset: 24683},
 																									val:        "////",
 																									ignoreCase: false,
 																									want:       "\"////\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 753, col: 23, offset: 24286},
+																									pos: position{line: 765, col: 23, offset: 24690},
 																									expr: &litMatcher{
-																										pos:        position{line: 753, col: 23, offset: 24286},
+																										pos:        position{line: 765, col: 23, offset: 24690},
 																										val:        "/",
 																										ignoreCase: false,
 																										want:       "\"/\"",
@@ -17822,12 +18414,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 755, col: 8, offset: 24370},
+																					pos: position{line: 767, col: 8, offset: 24774},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92448},
+																						pos: position{line: 2934, col: 10, offset: 92852},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92448},
+																							pos:        position{line: 2934, col: 10, offset: 92852},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17836,28 +18428,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92846},
+																					pos: position{line: 2956, col: 8, offset: 93250},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92619},
+																							pos: position{line: 2943, col: 12, offset: 93023},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92620},
+																								pos: position{line: 2943, col: 13, offset: 93024},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92620},
+																										pos:        position{line: 2943, col: 13, offset: 93024},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92627},
+																										pos:        position{line: 2943, col: 20, offset: 93031},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92636},
+																										pos:        position{line: 2943, col: 29, offset: 93040},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17866,9 +18458,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92796},
+																							pos: position{line: 2953, col: 8, offset: 93200},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92797,
+																								line: 2953, col: 9, offset: 93201,
 																							},
 																						},
 																					},
@@ -17877,46 +18469,46 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 834, col: 5, offset: 27039},
+																		pos:   position{line: 846, col: 5, offset: 27443},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 844, col: 5, offset: 27325},
+																			pos: position{line: 856, col: 5, offset: 27729},
 																			expr: &actionExpr{
-																				pos: position{line: 844, col: 6, offset: 27326},
+																				pos: position{line: 856, col: 6, offset: 27730},
 																				run: (*parser).callonDocumentHeader334,
 																				expr: &seqExpr{
-																					pos: position{line: 844, col: 6, offset: 27326},
+																					pos: position{line: 856, col: 6, offset: 27730},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 844, col: 6, offset: 27326},
+																							pos: position{line: 856, col: 6, offset: 27730},
 																							expr: &choiceExpr{
-																								pos: position{line: 841, col: 29, offset: 27268},
+																								pos: position{line: 853, col: 29, offset: 27672},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 753, col: 5, offset: 24268},
+																										pos: position{line: 765, col: 5, offset: 24672},
 																										run: (*parser).callonDocumentHeader338,
 																										expr: &seqExpr{
-																											pos: position{line: 753, col: 5, offset: 24268},
+																											pos: position{line: 765, col: 5, offset: 24672},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 753, col: 5, offset: 24268},
+																													pos:   position{line: 765, col: 5, offset: 24672},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 753, col: 16, offset: 24279},
+																														pos: position{line: 765, col: 16, offset: 24683},
 																														run: (*parser).callonDocumentHeader341,
 																														expr: &seqExpr{
-																															pos: position{line: 753, col: 16, offset: 24279},
+																															pos: position{line: 765, col: 16, offset: 24683},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 753, col: 16, offset: 24279},
+																																	pos:        position{line: 765, col: 16, offset: 24683},
 																																	val:        "////",
 																																	ignoreCase: false,
 																																	want:       "\"////\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 753, col: 23, offset: 24286},
+																																	pos: position{line: 765, col: 23, offset: 24690},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 753, col: 23, offset: 24286},
+																																		pos:        position{line: 765, col: 23, offset: 24690},
 																																		val:        "/",
 																																		ignoreCase: false,
 																																		want:       "\"/\"",
@@ -17927,12 +18519,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 755, col: 8, offset: 24370},
+																													pos: position{line: 767, col: 8, offset: 24774},
 																													expr: &actionExpr{
-																														pos: position{line: 2922, col: 10, offset: 92448},
+																														pos: position{line: 2934, col: 10, offset: 92852},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2922, col: 10, offset: 92448},
+																															pos:        position{line: 2934, col: 10, offset: 92852},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17941,28 +18533,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2944, col: 8, offset: 92846},
+																													pos: position{line: 2956, col: 8, offset: 93250},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2931, col: 12, offset: 92619},
+																															pos: position{line: 2943, col: 12, offset: 93023},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2931, col: 13, offset: 92620},
+																																pos: position{line: 2943, col: 13, offset: 93024},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 13, offset: 92620},
+																																		pos:        position{line: 2943, col: 13, offset: 93024},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 20, offset: 92627},
+																																		pos:        position{line: 2943, col: 20, offset: 93031},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 29, offset: 92636},
+																																		pos:        position{line: 2943, col: 29, offset: 93040},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17971,9 +18563,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2941, col: 8, offset: 92796},
+																															pos: position{line: 2953, col: 8, offset: 93200},
 																															expr: &anyMatcher{
-																																line: 2941, col: 9, offset: 92797,
+																																line: 2953, col: 9, offset: 93201,
 																															},
 																														},
 																													},
@@ -17982,39 +18574,39 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92796},
+																										pos: position{line: 2953, col: 8, offset: 93200},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92797,
+																											line: 2953, col: 9, offset: 93201,
 																										},
 																									},
 																								},
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 845, col: 5, offset: 27356},
+																							pos:   position{line: 857, col: 5, offset: 27760},
 																							label: "line",
 																							expr: &actionExpr{
-																								pos: position{line: 824, col: 5, offset: 26772},
+																								pos: position{line: 836, col: 5, offset: 27176},
 																								run: (*parser).callonDocumentHeader360,
 																								expr: &seqExpr{
-																									pos: position{line: 824, col: 5, offset: 26772},
+																									pos: position{line: 836, col: 5, offset: 27176},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2939, col: 11, offset: 92782},
+																											pos: position{line: 2951, col: 11, offset: 93186},
 																											expr: &anyMatcher{
-																												line: 2939, col: 13, offset: 92784,
+																												line: 2951, col: 13, offset: 93188,
 																											},
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 825, col: 5, offset: 26847},
+																											pos:   position{line: 837, col: 5, offset: 27251},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2868, col: 13, offset: 90974},
+																												pos: position{line: 2880, col: 13, offset: 91378},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2868, col: 13, offset: 90974},
+																													pos: position{line: 2880, col: 13, offset: 91378},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2868, col: 13, offset: 90974},
+																														pos:        position{line: 2880, col: 13, offset: 91378},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18024,28 +18616,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92846},
+																											pos: position{line: 2956, col: 8, offset: 93250},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92619},
+																													pos: position{line: 2943, col: 12, offset: 93023},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92620},
+																														pos: position{line: 2943, col: 13, offset: 93024},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92620},
+																																pos:        position{line: 2943, col: 13, offset: 93024},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92627},
+																																pos:        position{line: 2943, col: 20, offset: 93031},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92636},
+																																pos:        position{line: 2943, col: 29, offset: 93040},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18054,9 +18646,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92796},
+																													pos: position{line: 2953, col: 8, offset: 93200},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92797,
+																														line: 2953, col: 9, offset: 93201,
 																													},
 																												},
 																											},
@@ -18071,35 +18663,35 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrOneExpr{
-																		pos: position{line: 835, col: 5, offset: 27073},
+																		pos: position{line: 847, col: 5, offset: 27477},
 																		expr: &choiceExpr{
-																			pos: position{line: 841, col: 29, offset: 27268},
+																			pos: position{line: 853, col: 29, offset: 27672},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 753, col: 5, offset: 24268},
+																					pos: position{line: 765, col: 5, offset: 24672},
 																					run: (*parser).callonDocumentHeader378,
 																					expr: &seqExpr{
-																						pos: position{line: 753, col: 5, offset: 24268},
+																						pos: position{line: 765, col: 5, offset: 24672},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 753, col: 5, offset: 24268},
+																								pos:   position{line: 765, col: 5, offset: 24672},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 753, col: 16, offset: 24279},
+																									pos: position{line: 765, col: 16, offset: 24683},
 																									run: (*parser).callonDocumentHeader381,
 																									expr: &seqExpr{
-																										pos: position{line: 753, col: 16, offset: 24279},
+																										pos: position{line: 765, col: 16, offset: 24683},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 753, col: 16, offset: 24279},
+																												pos:        position{line: 765, col: 16, offset: 24683},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 753, col: 23, offset: 24286},
+																												pos: position{line: 765, col: 23, offset: 24690},
 																												expr: &litMatcher{
-																													pos:        position{line: 753, col: 23, offset: 24286},
+																													pos:        position{line: 765, col: 23, offset: 24690},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -18110,12 +18702,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 755, col: 8, offset: 24370},
+																								pos: position{line: 767, col: 8, offset: 24774},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92448},
+																									pos: position{line: 2934, col: 10, offset: 92852},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92448},
+																										pos:        position{line: 2934, col: 10, offset: 92852},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -18124,28 +18716,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92846},
+																								pos: position{line: 2956, col: 8, offset: 93250},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92619},
+																										pos: position{line: 2943, col: 12, offset: 93023},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92620},
+																											pos: position{line: 2943, col: 13, offset: 93024},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92620},
+																													pos:        position{line: 2943, col: 13, offset: 93024},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92627},
+																													pos:        position{line: 2943, col: 20, offset: 93031},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92636},
+																													pos:        position{line: 2943, col: 29, offset: 93040},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -18154,9 +18746,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92796},
+																										pos: position{line: 2953, col: 8, offset: 93200},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92797,
+																											line: 2953, col: 9, offset: 93201,
 																										},
 																									},
 																								},
@@ -18165,9 +18757,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
@@ -18180,23 +18772,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1134, col: 5, offset: 35219},
+												pos:   position{line: 1146, col: 5, offset: 35623},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1134, col: 14, offset: 35228},
+													pos: position{line: 1146, col: 14, offset: 35632},
 													expr: &actionExpr{
-														pos: position{line: 1182, col: 21, offset: 36571},
+														pos: position{line: 1194, col: 21, offset: 36975},
 														run: (*parser).callonDocumentHeader401,
 														expr: &seqExpr{
-															pos: position{line: 1182, col: 21, offset: 36571},
+															pos: position{line: 1194, col: 21, offset: 36975},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1182, col: 21, offset: 36571},
+																	pos: position{line: 1194, col: 21, offset: 36975},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92448},
+																		pos: position{line: 2934, col: 10, offset: 92852},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92448},
+																			pos:        position{line: 2934, col: 10, offset: 92852},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18205,55 +18797,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1182, col: 28, offset: 36578},
+																	pos: position{line: 1194, col: 28, offset: 36982},
 																	expr: &litMatcher{
-																		pos:        position{line: 1182, col: 29, offset: 36579},
+																		pos:        position{line: 1194, col: 29, offset: 36983},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1182, col: 33, offset: 36583},
+																	pos:   position{line: 1194, col: 33, offset: 36987},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1183, col: 9, offset: 36602},
+																		pos: position{line: 1195, col: 9, offset: 37006},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1183, col: 10, offset: 36603},
+																				pos: position{line: 1195, col: 10, offset: 37007},
 																				run: (*parser).callonDocumentHeader410,
 																				expr: &seqExpr{
-																					pos: position{line: 1183, col: 10, offset: 36603},
+																					pos: position{line: 1195, col: 10, offset: 37007},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1183, col: 10, offset: 36603},
+																							pos:   position{line: 1195, col: 10, offset: 37007},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1192, col: 27, offset: 37120},
+																								pos: position{line: 1204, col: 27, offset: 37524},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1192, col: 27, offset: 37120},
+																										pos: position{line: 1204, col: 27, offset: 37524},
 																										run: (*parser).callonDocumentHeader414,
 																										expr: &seqExpr{
-																											pos: position{line: 1192, col: 27, offset: 37120},
+																											pos: position{line: 1204, col: 27, offset: 37524},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1192, col: 27, offset: 37120},
+																													pos:        position{line: 1204, col: 27, offset: 37524},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1192, col: 32, offset: 37125},
+																													pos:        position{line: 1204, col: 32, offset: 37529},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1192, col: 38, offset: 37131},
+																													pos: position{line: 1204, col: 38, offset: 37535},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1192, col: 38, offset: 37131},
+																														pos:        position{line: 1204, col: 38, offset: 37535},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18264,31 +18856,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1194, col: 5, offset: 37179},
+																										pos: position{line: 1206, col: 5, offset: 37583},
 																										run: (*parser).callonDocumentHeader420,
 																										expr: &seqExpr{
-																											pos: position{line: 1194, col: 5, offset: 37179},
+																											pos: position{line: 1206, col: 5, offset: 37583},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1194, col: 5, offset: 37179},
+																													pos: position{line: 1206, col: 5, offset: 37583},
 																													expr: &litMatcher{
-																														pos:        position{line: 1194, col: 5, offset: 37179},
+																														pos:        position{line: 1206, col: 5, offset: 37583},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1194, col: 11, offset: 37185},
+																													pos:        position{line: 1206, col: 11, offset: 37589},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1194, col: 17, offset: 37191},
+																													pos: position{line: 1206, col: 17, offset: 37595},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1194, col: 17, offset: 37191},
+																														pos:        position{line: 1206, col: 17, offset: 37595},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18296,12 +18888,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1194, col: 28, offset: 37202},
+																													pos: position{line: 1206, col: 28, offset: 37606},
 																													expr: &actionExpr{
-																														pos: position{line: 2922, col: 10, offset: 92448},
+																														pos: position{line: 2934, col: 10, offset: 92852},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2922, col: 10, offset: 92448},
+																															pos:        position{line: 2934, col: 10, offset: 92852},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18310,9 +18902,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1194, col: 35, offset: 37209},
+																													pos: position{line: 1206, col: 35, offset: 37613},
 																													expr: &litMatcher{
-																														pos:        position{line: 1194, col: 36, offset: 37210},
+																														pos:        position{line: 1206, col: 36, offset: 37614},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -18325,26 +18917,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1183, col: 45, offset: 36638},
+																							pos: position{line: 1195, col: 45, offset: 37042},
 																							expr: &litMatcher{
-																								pos:        position{line: 1183, col: 45, offset: 36638},
+																								pos:        position{line: 1195, col: 45, offset: 37042},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1183, col: 50, offset: 36643},
+																							pos:   position{line: 1195, col: 50, offset: 37047},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1183, col: 58, offset: 36651},
+																								pos: position{line: 1195, col: 58, offset: 37055},
 																								expr: &actionExpr{
-																									pos: position{line: 1198, col: 25, offset: 37274},
+																									pos: position{line: 1210, col: 25, offset: 37678},
 																									run: (*parser).callonDocumentHeader436,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1198, col: 25, offset: 37274},
+																										pos: position{line: 1210, col: 25, offset: 37678},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1198, col: 25, offset: 37274},
+																											pos:        position{line: 1210, col: 25, offset: 37678},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -18355,26 +18947,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1183, col: 82, offset: 36675},
+																							pos: position{line: 1195, col: 82, offset: 37079},
 																							expr: &litMatcher{
-																								pos:        position{line: 1183, col: 82, offset: 36675},
+																								pos:        position{line: 1195, col: 82, offset: 37079},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1183, col: 87, offset: 36680},
+																							pos:   position{line: 1195, col: 87, offset: 37084},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1183, col: 97, offset: 36690},
+																								pos: position{line: 1195, col: 97, offset: 37094},
 																								expr: &actionExpr{
-																									pos: position{line: 1202, col: 27, offset: 37346},
+																									pos: position{line: 1214, col: 27, offset: 37750},
 																									run: (*parser).callonDocumentHeader443,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1202, col: 27, offset: 37346},
+																										pos: position{line: 1214, col: 27, offset: 37750},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1202, col: 27, offset: 37346},
+																											pos:        position{line: 1214, col: 27, offset: 37750},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18388,21 +18980,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1185, col: 15, offset: 36808},
+																				pos: position{line: 1197, col: 15, offset: 37212},
 																				run: (*parser).callonDocumentHeader446,
 																				expr: &seqExpr{
-																					pos: position{line: 1185, col: 15, offset: 36808},
+																					pos: position{line: 1197, col: 15, offset: 37212},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1185, col: 15, offset: 36808},
+																							pos:   position{line: 1197, col: 15, offset: 37212},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1198, col: 25, offset: 37274},
+																								pos: position{line: 1210, col: 25, offset: 37678},
 																								run: (*parser).callonDocumentHeader449,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1198, col: 25, offset: 37274},
+																									pos: position{line: 1210, col: 25, offset: 37678},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1198, col: 25, offset: 37274},
+																										pos:        position{line: 1210, col: 25, offset: 37678},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -18412,26 +19004,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1185, col: 46, offset: 36839},
+																							pos: position{line: 1197, col: 46, offset: 37243},
 																							expr: &litMatcher{
-																								pos:        position{line: 1185, col: 46, offset: 36839},
+																								pos:        position{line: 1197, col: 46, offset: 37243},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1185, col: 51, offset: 36844},
+																							pos:   position{line: 1197, col: 51, offset: 37248},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1185, col: 61, offset: 36854},
+																								pos: position{line: 1197, col: 61, offset: 37258},
 																								expr: &actionExpr{
-																									pos: position{line: 1202, col: 27, offset: 37346},
+																									pos: position{line: 1214, col: 27, offset: 37750},
 																									run: (*parser).callonDocumentHeader456,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1202, col: 27, offset: 37346},
+																										pos: position{line: 1214, col: 27, offset: 37750},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1202, col: 27, offset: 37346},
+																											pos:        position{line: 1214, col: 27, offset: 37750},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18448,28 +19040,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92846},
+																	pos: position{line: 2956, col: 8, offset: 93250},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92619},
+																			pos: position{line: 2943, col: 12, offset: 93023},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92620},
+																				pos: position{line: 2943, col: 13, offset: 93024},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92620},
+																						pos:        position{line: 2943, col: 13, offset: 93024},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92627},
+																						pos:        position{line: 2943, col: 20, offset: 93031},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92636},
+																						pos:        position{line: 2943, col: 29, offset: 93040},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18478,9 +19070,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92796},
+																			pos: position{line: 2953, col: 8, offset: 93200},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92797,
+																				line: 2953, col: 9, offset: 93201,
 																			},
 																		},
 																	},
@@ -18496,15 +19088,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1121, col: 5, offset: 34765},
+							pos:   position{line: 1133, col: 5, offset: 35169},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1121, col: 19, offset: 34779},
+								pos: position{line: 1133, col: 19, offset: 35183},
 								expr: &choiceExpr{
-									pos: position{line: 1121, col: 20, offset: 34780},
+									pos: position{line: 1133, col: 20, offset: 35184},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1121, col: 20, offset: 34780},
+											pos:  position{line: 1133, col: 20, offset: 35184},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
@@ -18560,10 +19152,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 49, offset: 11042},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92448},
+															pos: position{line: 2934, col: 10, offset: 92852},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92448},
+																pos:        position{line: 2934, col: 10, offset: 92852},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18572,28 +19164,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92846},
+														pos: position{line: 2956, col: 8, offset: 93250},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92619},
+																pos: position{line: 2943, col: 12, offset: 93023},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92620},
+																	pos: position{line: 2943, col: 13, offset: 93024},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92620},
+																			pos:        position{line: 2943, col: 13, offset: 93024},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92627},
+																			pos:        position{line: 2943, col: 20, offset: 93031},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92636},
+																			pos:        position{line: 2943, col: 29, offset: 93040},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18602,9 +19194,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92796},
+																pos: position{line: 2953, col: 8, offset: 93200},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92797,
+																	line: 2953, col: 9, offset: 93201,
 																},
 															},
 														},
@@ -18665,10 +19257,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 364, col: 39, offset: 11163},
 														expr: &actionExpr{
-															pos: position{line: 2922, col: 10, offset: 92448},
+															pos: position{line: 2934, col: 10, offset: 92852},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2922, col: 10, offset: 92448},
+																pos:        position{line: 2934, col: 10, offset: 92852},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18677,28 +19269,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92846},
+														pos: position{line: 2956, col: 8, offset: 93250},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92619},
+																pos: position{line: 2943, col: 12, offset: 93023},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92620},
+																	pos: position{line: 2943, col: 13, offset: 93024},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92620},
+																			pos:        position{line: 2943, col: 13, offset: 93024},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92627},
+																			pos:        position{line: 2943, col: 20, offset: 93031},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92636},
+																			pos:        position{line: 2943, col: 29, offset: 93040},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18707,9 +19299,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92796},
+																pos: position{line: 2953, col: 8, offset: 93200},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92797,
+																	line: 2953, col: 9, offset: 93201,
 																},
 															},
 														},
@@ -18718,36 +19310,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2525, col: 22, offset: 81226},
+											pos: position{line: 2537, col: 22, offset: 81630},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2525, col: 22, offset: 81226},
+												pos: position{line: 2537, col: 22, offset: 81630},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2530, col: 31, offset: 81476},
+														pos:        position{line: 2542, col: 31, offset: 81880},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2530, col: 36, offset: 81481},
+														pos: position{line: 2542, col: 36, offset: 81885},
 														expr: &litMatcher{
-															pos:        position{line: 2530, col: 37, offset: 81482},
+															pos:        position{line: 2542, col: 37, offset: 81886},
 															val:        "/",
 															ignoreCase: false,
 															want:       "\"/\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2525, col: 49, offset: 81253},
+														pos:   position{line: 2537, col: 49, offset: 81657},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2868, col: 13, offset: 90974},
+															pos: position{line: 2880, col: 13, offset: 91378},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2868, col: 13, offset: 90974},
+																pos: position{line: 2880, col: 13, offset: 91378},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2868, col: 13, offset: 90974},
+																	pos:        position{line: 2880, col: 13, offset: 91378},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18757,28 +19349,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92846},
+														pos: position{line: 2956, col: 8, offset: 93250},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92619},
+																pos: position{line: 2943, col: 12, offset: 93023},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92620},
+																	pos: position{line: 2943, col: 13, offset: 93024},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92620},
+																			pos:        position{line: 2943, col: 13, offset: 93024},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92627},
+																			pos:        position{line: 2943, col: 20, offset: 93031},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92636},
+																			pos:        position{line: 2943, col: 29, offset: 93040},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18787,9 +19379,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92796},
+																pos: position{line: 2953, col: 8, offset: 93200},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92797,
+																	line: 2953, col: 9, offset: 93201,
 																},
 															},
 														},
@@ -18798,36 +19390,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 833, col: 5, offset: 27008},
+											pos: position{line: 845, col: 5, offset: 27412},
 											run: (*parser).callonDocumentHeader530,
 											expr: &seqExpr{
-												pos: position{line: 833, col: 5, offset: 27008},
+												pos: position{line: 845, col: 5, offset: 27412},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 753, col: 5, offset: 24268},
+														pos: position{line: 765, col: 5, offset: 24672},
 														run: (*parser).callonDocumentHeader532,
 														expr: &seqExpr{
-															pos: position{line: 753, col: 5, offset: 24268},
+															pos: position{line: 765, col: 5, offset: 24672},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 753, col: 5, offset: 24268},
+																	pos:   position{line: 765, col: 5, offset: 24672},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 753, col: 16, offset: 24279},
+																		pos: position{line: 765, col: 16, offset: 24683},
 																		run: (*parser).callonDocumentHeader535,
 																		expr: &seqExpr{
-																			pos: position{line: 753, col: 16, offset: 24279},
+																			pos: position{line: 765, col: 16, offset: 24683},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 753, col: 16, offset: 24279},
+																					pos:        position{line: 765, col: 16, offset: 24683},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 753, col: 23, offset: 24286},
+																					pos: position{line: 765, col: 23, offset: 24690},
 																					expr: &litMatcher{
-																						pos:        position{line: 753, col: 23, offset: 24286},
+																						pos:        position{line: 765, col: 23, offset: 24690},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -18838,12 +19430,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 755, col: 8, offset: 24370},
+																	pos: position{line: 767, col: 8, offset: 24774},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92448},
+																		pos: position{line: 2934, col: 10, offset: 92852},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92448},
+																			pos:        position{line: 2934, col: 10, offset: 92852},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18852,28 +19444,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92846},
+																	pos: position{line: 2956, col: 8, offset: 93250},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92619},
+																			pos: position{line: 2943, col: 12, offset: 93023},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92620},
+																				pos: position{line: 2943, col: 13, offset: 93024},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92620},
+																						pos:        position{line: 2943, col: 13, offset: 93024},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92627},
+																						pos:        position{line: 2943, col: 20, offset: 93031},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92636},
+																						pos:        position{line: 2943, col: 29, offset: 93040},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18882,9 +19474,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92796},
+																			pos: position{line: 2953, col: 8, offset: 93200},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92797,
+																				line: 2953, col: 9, offset: 93201,
 																			},
 																		},
 																	},
@@ -18893,46 +19485,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 834, col: 5, offset: 27039},
+														pos:   position{line: 846, col: 5, offset: 27443},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 844, col: 5, offset: 27325},
+															pos: position{line: 856, col: 5, offset: 27729},
 															expr: &actionExpr{
-																pos: position{line: 844, col: 6, offset: 27326},
+																pos: position{line: 856, col: 6, offset: 27730},
 																run: (*parser).callonDocumentHeader553,
 																expr: &seqExpr{
-																	pos: position{line: 844, col: 6, offset: 27326},
+																	pos: position{line: 856, col: 6, offset: 27730},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 844, col: 6, offset: 27326},
+																			pos: position{line: 856, col: 6, offset: 27730},
 																			expr: &choiceExpr{
-																				pos: position{line: 841, col: 29, offset: 27268},
+																				pos: position{line: 853, col: 29, offset: 27672},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 753, col: 5, offset: 24268},
+																						pos: position{line: 765, col: 5, offset: 24672},
 																						run: (*parser).callonDocumentHeader557,
 																						expr: &seqExpr{
-																							pos: position{line: 753, col: 5, offset: 24268},
+																							pos: position{line: 765, col: 5, offset: 24672},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 753, col: 5, offset: 24268},
+																									pos:   position{line: 765, col: 5, offset: 24672},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 753, col: 16, offset: 24279},
+																										pos: position{line: 765, col: 16, offset: 24683},
 																										run: (*parser).callonDocumentHeader560,
 																										expr: &seqExpr{
-																											pos: position{line: 753, col: 16, offset: 24279},
+																											pos: position{line: 765, col: 16, offset: 24683},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 753, col: 16, offset: 24279},
+																													pos:        position{line: 765, col: 16, offset: 24683},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 753, col: 23, offset: 24286},
+																													pos: position{line: 765, col: 23, offset: 24690},
 																													expr: &litMatcher{
-																														pos:        position{line: 753, col: 23, offset: 24286},
+																														pos:        position{line: 765, col: 23, offset: 24690},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -18943,12 +19535,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 755, col: 8, offset: 24370},
+																									pos: position{line: 767, col: 8, offset: 24774},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92448},
+																										pos: position{line: 2934, col: 10, offset: 92852},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92448},
+																											pos:        position{line: 2934, col: 10, offset: 92852},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18957,28 +19549,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92846},
+																									pos: position{line: 2956, col: 8, offset: 93250},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92619},
+																											pos: position{line: 2943, col: 12, offset: 93023},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92620},
+																												pos: position{line: 2943, col: 13, offset: 93024},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92620},
+																														pos:        position{line: 2943, col: 13, offset: 93024},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92627},
+																														pos:        position{line: 2943, col: 20, offset: 93031},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92636},
+																														pos:        position{line: 2943, col: 29, offset: 93040},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18987,9 +19579,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92796},
+																											pos: position{line: 2953, col: 8, offset: 93200},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92797,
+																												line: 2953, col: 9, offset: 93201,
 																											},
 																										},
 																									},
@@ -18998,39 +19590,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92796},
+																						pos: position{line: 2953, col: 8, offset: 93200},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92797,
+																							line: 2953, col: 9, offset: 93201,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 845, col: 5, offset: 27356},
+																			pos:   position{line: 857, col: 5, offset: 27760},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 824, col: 5, offset: 26772},
+																				pos: position{line: 836, col: 5, offset: 27176},
 																				run: (*parser).callonDocumentHeader579,
 																				expr: &seqExpr{
-																					pos: position{line: 824, col: 5, offset: 26772},
+																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92782},
+																							pos: position{line: 2951, col: 11, offset: 93186},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92784,
+																								line: 2951, col: 13, offset: 93188,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 825, col: 5, offset: 26847},
+																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 13, offset: 90974},
+																								pos: position{line: 2880, col: 13, offset: 91378},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2868, col: 13, offset: 90974},
+																									pos: position{line: 2880, col: 13, offset: 91378},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 13, offset: 90974},
+																										pos:        position{line: 2880, col: 13, offset: 91378},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19040,28 +19632,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19070,9 +19662,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -19087,35 +19679,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 835, col: 5, offset: 27073},
+														pos: position{line: 847, col: 5, offset: 27477},
 														expr: &choiceExpr{
-															pos: position{line: 841, col: 29, offset: 27268},
+															pos: position{line: 853, col: 29, offset: 27672},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 753, col: 5, offset: 24268},
+																	pos: position{line: 765, col: 5, offset: 24672},
 																	run: (*parser).callonDocumentHeader597,
 																	expr: &seqExpr{
-																		pos: position{line: 753, col: 5, offset: 24268},
+																		pos: position{line: 765, col: 5, offset: 24672},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 753, col: 5, offset: 24268},
+																				pos:   position{line: 765, col: 5, offset: 24672},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 753, col: 16, offset: 24279},
+																					pos: position{line: 765, col: 16, offset: 24683},
 																					run: (*parser).callonDocumentHeader600,
 																					expr: &seqExpr{
-																						pos: position{line: 753, col: 16, offset: 24279},
+																						pos: position{line: 765, col: 16, offset: 24683},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 753, col: 16, offset: 24279},
+																								pos:        position{line: 765, col: 16, offset: 24683},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 753, col: 23, offset: 24286},
+																								pos: position{line: 765, col: 23, offset: 24690},
 																								expr: &litMatcher{
-																									pos:        position{line: 753, col: 23, offset: 24286},
+																									pos:        position{line: 765, col: 23, offset: 24690},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -19126,12 +19718,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 755, col: 8, offset: 24370},
+																				pos: position{line: 767, col: 8, offset: 24774},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92448},
+																					pos: position{line: 2934, col: 10, offset: 92852},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92448},
+																						pos:        position{line: 2934, col: 10, offset: 92852},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -19140,28 +19732,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92846},
+																				pos: position{line: 2956, col: 8, offset: 93250},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92619},
+																						pos: position{line: 2943, col: 12, offset: 93023},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92620},
+																							pos: position{line: 2943, col: 13, offset: 93024},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92620},
+																									pos:        position{line: 2943, col: 13, offset: 93024},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92627},
+																									pos:        position{line: 2943, col: 20, offset: 93031},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92636},
+																									pos:        position{line: 2943, col: 29, offset: 93040},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -19170,9 +19762,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92796},
+																						pos: position{line: 2953, col: 8, offset: 93200},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92797,
+																							line: 2953, col: 9, offset: 93201,
 																						},
 																					},
 																				},
@@ -19181,9 +19773,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92796},
+																	pos: position{line: 2953, col: 8, offset: 93200},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92797,
+																		line: 2953, col: 9, offset: 93201,
 																	},
 																},
 															},
@@ -19202,26 +19794,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1125, col: 1, offset: 34977},
+			pos:  position{line: 1137, col: 1, offset: 35381},
 			expr: &actionExpr{
-				pos: position{line: 1126, col: 5, offset: 34999},
+				pos: position{line: 1138, col: 5, offset: 35403},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1126, col: 5, offset: 34999},
+					pos: position{line: 1138, col: 5, offset: 35403},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1126, col: 5, offset: 34999},
+							pos:        position{line: 1138, col: 5, offset: 35403},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2926, col: 11, offset: 92509},
+							pos: position{line: 2938, col: 11, offset: 92913},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2926, col: 11, offset: 92509},
+								pos: position{line: 2938, col: 11, offset: 92913},
 								expr: &charClassMatcher{
-									pos:        position{line: 2926, col: 11, offset: 92509},
+									pos:        position{line: 2938, col: 11, offset: 92913},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19230,36 +19822,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1126, col: 16, offset: 35010},
+							pos:   position{line: 1138, col: 16, offset: 35414},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1126, col: 23, offset: 35017},
+								pos:  position{line: 1138, col: 23, offset: 35421},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92846},
+							pos: position{line: 2956, col: 8, offset: 93250},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92619},
+									pos: position{line: 2943, col: 12, offset: 93023},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92620},
+										pos: position{line: 2943, col: 13, offset: 93024},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92620},
+												pos:        position{line: 2943, col: 13, offset: 93024},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92627},
+												pos:        position{line: 2943, col: 20, offset: 93031},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92636},
+												pos:        position{line: 2943, col: 29, offset: 93040},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19268,9 +19860,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92796},
+									pos: position{line: 2953, col: 8, offset: 93200},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92797,
+										line: 2953, col: 9, offset: 93201,
 									},
 								},
 							},
@@ -19281,23 +19873,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1153, col: 1, offset: 35857},
+			pos:  position{line: 1165, col: 1, offset: 36261},
 			expr: &actionExpr{
-				pos: position{line: 1154, col: 5, offset: 35888},
+				pos: position{line: 1166, col: 5, offset: 36292},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1154, col: 5, offset: 35888},
+					pos: position{line: 1166, col: 5, offset: 36292},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1154, col: 5, offset: 35888},
+							pos:   position{line: 1166, col: 5, offset: 36292},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1154, col: 12, offset: 35895},
+								pos: position{line: 1166, col: 12, offset: 36299},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1154, col: 12, offset: 35895},
+									pos: position{line: 1166, col: 12, offset: 36299},
 									expr: &charClassMatcher{
-										pos:        position{line: 1154, col: 12, offset: 35895},
+										pos:        position{line: 1166, col: 12, offset: 36299},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -19307,12 +19899,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1157, col: 5, offset: 35975},
+							pos: position{line: 1169, col: 5, offset: 36379},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92448},
+								pos: position{line: 2934, col: 10, offset: 92852},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92448},
+									pos:        position{line: 2934, col: 10, offset: 92852},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19321,17 +19913,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1158, col: 5, offset: 35986},
+							pos:   position{line: 1170, col: 5, offset: 36390},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1158, col: 11, offset: 35992},
+								pos: position{line: 1170, col: 11, offset: 36396},
 								expr: &actionExpr{
-									pos: position{line: 1158, col: 12, offset: 35993},
+									pos: position{line: 1170, col: 12, offset: 36397},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1158, col: 12, offset: 35993},
+										pos: position{line: 1170, col: 12, offset: 36397},
 										expr: &charClassMatcher{
-											pos:        position{line: 1158, col: 12, offset: 35993},
+											pos:        position{line: 1170, col: 12, offset: 36397},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -19342,12 +19934,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1161, col: 5, offset: 36074},
+							pos: position{line: 1173, col: 5, offset: 36478},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92448},
+								pos: position{line: 2934, col: 10, offset: 92852},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92448},
+									pos:        position{line: 2934, col: 10, offset: 92852},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19356,17 +19948,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1162, col: 5, offset: 36085},
+							pos:   position{line: 1174, col: 5, offset: 36489},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1162, col: 11, offset: 36091},
+								pos: position{line: 1174, col: 11, offset: 36495},
 								expr: &actionExpr{
-									pos: position{line: 1162, col: 12, offset: 36092},
+									pos: position{line: 1174, col: 12, offset: 36496},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1162, col: 12, offset: 36092},
+										pos: position{line: 1174, col: 12, offset: 36496},
 										expr: &charClassMatcher{
-											pos:        position{line: 1162, col: 12, offset: 36092},
+											pos:        position{line: 1174, col: 12, offset: 36496},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -19377,12 +19969,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1165, col: 5, offset: 36171},
+							pos: position{line: 1177, col: 5, offset: 36575},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92448},
+								pos: position{line: 2934, col: 10, offset: 92852},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92448},
+									pos:        position{line: 2934, col: 10, offset: 92852},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19396,28 +19988,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1278, col: 1, offset: 39947},
+			pos:  position{line: 1290, col: 1, offset: 40351},
 			expr: &actionExpr{
-				pos: position{line: 1279, col: 5, offset: 39968},
+				pos: position{line: 1291, col: 5, offset: 40372},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1279, col: 5, offset: 39968},
+					pos: position{line: 1291, col: 5, offset: 40372},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1279, col: 5, offset: 39968},
+							pos: position{line: 1291, col: 5, offset: 40372},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1282, col: 5, offset: 40027},
+							pos:        position{line: 1294, col: 5, offset: 40431},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1282, col: 12, offset: 40034},
+							pos:   position{line: 1294, col: 12, offset: 40438},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1282, col: 24, offset: 40046},
+								pos:  position{line: 1294, col: 24, offset: 40450},
 								name: "InlineAttributes",
 							},
 						},
@@ -19427,33 +20019,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1289, col: 1, offset: 40334},
+			pos:  position{line: 1301, col: 1, offset: 40738},
 			expr: &actionExpr{
-				pos: position{line: 1290, col: 5, offset: 40353},
+				pos: position{line: 1302, col: 5, offset: 40757},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1290, col: 5, offset: 40353},
+					pos: position{line: 1302, col: 5, offset: 40757},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1290, col: 5, offset: 40353},
+							pos: position{line: 1302, col: 5, offset: 40757},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1293, col: 5, offset: 40412},
+							pos:        position{line: 1305, col: 5, offset: 40816},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1293, col: 13, offset: 40420},
+							pos:   position{line: 1305, col: 13, offset: 40824},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2907, col: 7, offset: 92100},
+								pos: position{line: 2919, col: 7, offset: 92504},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2907, col: 7, offset: 92100},
+									pos: position{line: 2919, col: 7, offset: 92504},
 									expr: &charClassMatcher{
-										pos:        position{line: 2907, col: 7, offset: 92100},
+										pos:        position{line: 2919, col: 7, offset: 92504},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19463,10 +20055,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1293, col: 21, offset: 40428},
+							pos:   position{line: 1305, col: 21, offset: 40832},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1293, col: 33, offset: 40440},
+								pos:  position{line: 1305, col: 33, offset: 40844},
 								name: "InlineAttributes",
 							},
 						},
@@ -19476,29 +20068,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1300, col: 1, offset: 40739},
+			pos:  position{line: 1312, col: 1, offset: 41143},
 			expr: &actionExpr{
-				pos: position{line: 1300, col: 14, offset: 40752},
+				pos: position{line: 1312, col: 14, offset: 41156},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1300, col: 14, offset: 40752},
+					pos: position{line: 1312, col: 14, offset: 41156},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1300, col: 14, offset: 40752},
+							pos:        position{line: 1312, col: 14, offset: 41156},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1300, col: 19, offset: 40757},
+							pos:   position{line: 1312, col: 19, offset: 41161},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1300, col: 25, offset: 40763},
+								pos:  position{line: 1312, col: 25, offset: 41167},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1300, col: 43, offset: 40781},
+							pos:        position{line: 1312, col: 43, offset: 41185},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19509,25 +20101,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1304, col: 1, offset: 40850},
+			pos:  position{line: 1316, col: 1, offset: 41254},
 			expr: &actionExpr{
-				pos: position{line: 1304, col: 21, offset: 40870},
+				pos: position{line: 1316, col: 21, offset: 41274},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1304, col: 21, offset: 40870},
+					pos:   position{line: 1316, col: 21, offset: 41274},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1304, col: 30, offset: 40879},
+						pos: position{line: 1316, col: 30, offset: 41283},
 						expr: &choiceExpr{
-							pos: position{line: 1304, col: 31, offset: 40880},
+							pos: position{line: 1316, col: 31, offset: 41284},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2816, col: 14, offset: 89617},
+									pos: position{line: 2828, col: 14, offset: 90021},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2816, col: 14, offset: 89617},
+										pos: position{line: 2828, col: 14, offset: 90021},
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 14, offset: 89617},
+											pos:        position{line: 2828, col: 14, offset: 90021},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19536,14 +20128,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1304, col: 43, offset: 40892},
+									pos:  position{line: 1316, col: 43, offset: 41296},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2922, col: 10, offset: 92448},
+									pos: position{line: 2934, col: 10, offset: 92852},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2922, col: 10, offset: 92448},
+										pos:        position{line: 2934, col: 10, offset: 92852},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19551,23 +20143,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2512, col: 5, offset: 80772},
+									pos: position{line: 2524, col: 5, offset: 81176},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2512, col: 5, offset: 80772},
+										pos: position{line: 2524, col: 5, offset: 81176},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2512, col: 5, offset: 80772},
+												pos: position{line: 2524, col: 5, offset: 81176},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2515, col: 5, offset: 80848},
+												pos:   position{line: 2527, col: 5, offset: 81252},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2516, col: 9, offset: 80866},
+													pos: position{line: 2528, col: 9, offset: 81270},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2516, col: 10, offset: 80867},
+														pos:        position{line: 2528, col: 10, offset: 81271},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19579,27 +20171,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1211, col: 23, offset: 37656},
+									pos: position{line: 1223, col: 23, offset: 38060},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1211, col: 23, offset: 37656},
+										pos: position{line: 1223, col: 23, offset: 38060},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1209, col: 32, offset: 37624},
+												pos:        position{line: 1221, col: 32, offset: 38028},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1211, col: 51, offset: 37684},
+												pos:   position{line: 1223, col: 51, offset: 38088},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1211, col: 56, offset: 37689},
+													pos: position{line: 1223, col: 56, offset: 38093},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1211, col: 56, offset: 37689},
+														pos: position{line: 1223, col: 56, offset: 38093},
 														expr: &charClassMatcher{
-															pos:        position{line: 1211, col: 56, offset: 37689},
+															pos:        position{line: 1223, col: 56, offset: 38093},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -19609,35 +20201,35 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1209, col: 32, offset: 37624},
+												pos:        position{line: 1221, col: 32, offset: 38028},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 1211, col: 123, offset: 37756},
+												pos: position{line: 1223, col: 123, offset: 38160},
 												run: (*parser).callonIndexTermContent25,
 											},
 										},
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1304, col: 104, offset: 40953},
+									pos: position{line: 1316, col: 104, offset: 41357},
 									run: (*parser).callonIndexTermContent26,
 									expr: &seqExpr{
-										pos: position{line: 1304, col: 105, offset: 40954},
+										pos: position{line: 1316, col: 105, offset: 41358},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1304, col: 105, offset: 40954},
+												pos: position{line: 1316, col: 105, offset: 41358},
 												expr: &litMatcher{
-													pos:        position{line: 1304, col: 106, offset: 40955},
+													pos:        position{line: 1316, col: 106, offset: 41359},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1304, col: 111, offset: 40960,
+												line: 1316, col: 111, offset: 41364,
 											},
 										},
 									},
@@ -19650,65 +20242,65 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1324, col: 1, offset: 41669},
+			pos:  position{line: 1336, col: 1, offset: 42073},
 			expr: &actionExpr{
-				pos: position{line: 1325, col: 5, offset: 41688},
+				pos: position{line: 1337, col: 5, offset: 42092},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1325, col: 5, offset: 41688},
+					pos: position{line: 1337, col: 5, offset: 42092},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1325, col: 5, offset: 41688},
+							pos:        position{line: 1337, col: 5, offset: 42092},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1325, col: 15, offset: 41698},
+							pos:   position{line: 1337, col: 15, offset: 42102},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2880, col: 13, offset: 91207},
+								pos: position{line: 2892, col: 13, offset: 91611},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2880, col: 13, offset: 91207},
+									pos: position{line: 2892, col: 13, offset: 91611},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2880, col: 13, offset: 91207},
+											pos:   position{line: 2892, col: 13, offset: 91611},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2880, col: 20, offset: 91214},
+												pos: position{line: 2892, col: 20, offset: 91618},
 												expr: &actionExpr{
-													pos: position{line: 2888, col: 11, offset: 91453},
+													pos: position{line: 2900, col: 11, offset: 91857},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2888, col: 12, offset: 91454},
+														pos: position{line: 2900, col: 12, offset: 91858},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2888, col: 12, offset: 91454},
+																pos:        position{line: 2900, col: 12, offset: 91858},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 24, offset: 91466},
+																pos:        position{line: 2900, col: 24, offset: 91870},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 37, offset: 91479},
+																pos:        position{line: 2900, col: 37, offset: 91883},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 48, offset: 91490},
+																pos:        position{line: 2900, col: 48, offset: 91894},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 59, offset: 91501},
+																pos:        position{line: 2900, col: 59, offset: 91905},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19719,38 +20311,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2880, col: 30, offset: 91224},
+											pos:   position{line: 2892, col: 30, offset: 91628},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2893, col: 5, offset: 91565},
+												pos: position{line: 2905, col: 5, offset: 91969},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2893, col: 5, offset: 91565},
+													pos:   position{line: 2905, col: 5, offset: 91969},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2893, col: 14, offset: 91574},
+														pos: position{line: 2905, col: 14, offset: 91978},
 														expr: &choiceExpr{
-															pos: position{line: 2894, col: 9, offset: 91584},
+															pos: position{line: 2906, col: 9, offset: 91988},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2894, col: 9, offset: 91584},
+																	pos: position{line: 2906, col: 9, offset: 91988},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2894, col: 9, offset: 91584},
+																		pos: position{line: 2906, col: 9, offset: 91988},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2894, col: 9, offset: 91584},
+																				pos: position{line: 2906, col: 9, offset: 91988},
 																				expr: &litMatcher{
-																					pos:        position{line: 2894, col: 10, offset: 91585},
+																					pos:        position{line: 2906, col: 10, offset: 91989},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2895, col: 9, offset: 91613},
+																				pos: position{line: 2907, col: 9, offset: 92017},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2895, col: 10, offset: 91614},
+																					pos:        position{line: 2907, col: 10, offset: 92018},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19761,27 +20353,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2898, col: 11, offset: 91826},
+																	pos: position{line: 2910, col: 11, offset: 92230},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2898, col: 11, offset: 91826},
+																			pos:        position{line: 2910, col: 11, offset: 92230},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2898, col: 19, offset: 91834},
+																			pos: position{line: 2910, col: 19, offset: 92238},
 																			expr: &seqExpr{
-																				pos: position{line: 2898, col: 21, offset: 91836},
+																				pos: position{line: 2910, col: 21, offset: 92240},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2898, col: 21, offset: 91836},
+																						pos: position{line: 2910, col: 21, offset: 92240},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92448},
+																							pos: position{line: 2934, col: 10, offset: 92852},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92448},
+																								pos:        position{line: 2934, col: 10, offset: 92852},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19790,11 +20382,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2898, col: 28, offset: 91843},
+																						pos: position{line: 2910, col: 28, offset: 92247},
 																						expr: &notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92796},
+																							pos: position{line: 2953, col: 8, offset: 93200},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92797,
+																								line: 2953, col: 9, offset: 93201,
 																							},
 																						},
 																					},
@@ -19804,35 +20396,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 649, col: 5, offset: 20791},
+																	pos: position{line: 661, col: 5, offset: 21195},
 																	run: (*parser).callonImageBlock37,
 																	expr: &seqExpr{
-																		pos: position{line: 649, col: 5, offset: 20791},
+																		pos: position{line: 661, col: 5, offset: 21195},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 649, col: 5, offset: 20791},
+																				pos: position{line: 661, col: 5, offset: 21195},
 																				run: (*parser).callonImageBlock39,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 652, col: 5, offset: 20863},
+																				pos:   position{line: 664, col: 5, offset: 21267},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 652, col: 14, offset: 20872},
+																					pos: position{line: 664, col: 14, offset: 21276},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 658, col: 5, offset: 21001},
+																							pos: position{line: 670, col: 5, offset: 21405},
 																							run: (*parser).callonImageBlock42,
 																							expr: &seqExpr{
-																								pos: position{line: 658, col: 5, offset: 21001},
+																								pos: position{line: 670, col: 5, offset: 21405},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 658, col: 5, offset: 21001},
+																										pos:        position{line: 670, col: 5, offset: 21405},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 13, offset: 21009},
+																										pos:   position{line: 670, col: 13, offset: 21413},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -19864,7 +20456,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 658, col: 32, offset: 21028},
+																										pos:        position{line: 670, col: 32, offset: 21432},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19873,19 +20465,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 665, col: 5, offset: 21269},
+																							pos: position{line: 677, col: 5, offset: 21673},
 																							run: (*parser).callonImageBlock52,
 																							expr: &seqExpr{
-																								pos: position{line: 665, col: 5, offset: 21269},
+																								pos: position{line: 677, col: 5, offset: 21673},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 665, col: 5, offset: 21269},
+																										pos:        position{line: 677, col: 5, offset: 21673},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 665, col: 9, offset: 21273},
+																										pos:   position{line: 677, col: 9, offset: 21677},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -19917,7 +20509,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 665, col: 28, offset: 21292},
+																										pos:        position{line: 677, col: 28, offset: 21696},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19926,19 +20518,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 671, col: 25, offset: 21473},
+																							pos: position{line: 683, col: 25, offset: 21877},
 																							run: (*parser).callonImageBlock62,
 																							expr: &seqExpr{
-																								pos: position{line: 671, col: 25, offset: 21473},
+																								pos: position{line: 683, col: 25, offset: 21877},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 671, col: 25, offset: 21473},
+																										pos:        position{line: 683, col: 25, offset: 21877},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 671, col: 37, offset: 21485},
+																										pos:   position{line: 683, col: 37, offset: 21889},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -19970,33 +20562,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 671, col: 56, offset: 21504},
+																										pos:   position{line: 683, col: 56, offset: 21908},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 671, col: 62, offset: 21510},
+																											pos: position{line: 683, col: 62, offset: 21914},
 																											expr: &actionExpr{
-																												pos: position{line: 679, col: 17, offset: 21807},
+																												pos: position{line: 691, col: 17, offset: 22211},
 																												run: (*parser).callonImageBlock73,
 																												expr: &seqExpr{
-																													pos: position{line: 679, col: 17, offset: 21807},
+																													pos: position{line: 691, col: 17, offset: 22211},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 679, col: 17, offset: 21807},
+																															pos:        position{line: 691, col: 17, offset: 22211},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 679, col: 21, offset: 21811},
+																															pos:   position{line: 691, col: 21, offset: 22215},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 679, col: 28, offset: 21818},
+																																pos: position{line: 691, col: 28, offset: 22222},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 679, col: 28, offset: 21818},
+																																		pos: position{line: 691, col: 28, offset: 22222},
 																																		run: (*parser).callonImageBlock78,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 679, col: 28, offset: 21818},
+																																			pos:        position{line: 691, col: 28, offset: 22222},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20004,12 +20596,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 681, col: 9, offset: 21872},
+																																		pos: position{line: 693, col: 9, offset: 22276},
 																																		run: (*parser).callonImageBlock80,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 681, col: 9, offset: 21872},
+																																			pos: position{line: 693, col: 9, offset: 22276},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 681, col: 9, offset: 21872},
+																																				pos:        position{line: 693, col: 9, offset: 22276},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20026,7 +20618,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 671, col: 78, offset: 21526},
+																										pos:        position{line: 683, col: 78, offset: 21930},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20035,19 +20627,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 675, col: 25, offset: 21644},
+																							pos: position{line: 687, col: 25, offset: 22048},
 																							run: (*parser).callonImageBlock84,
 																							expr: &seqExpr{
-																								pos: position{line: 675, col: 25, offset: 21644},
+																								pos: position{line: 687, col: 25, offset: 22048},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 675, col: 25, offset: 21644},
+																										pos:        position{line: 687, col: 25, offset: 22048},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 675, col: 38, offset: 21657},
+																										pos:   position{line: 687, col: 38, offset: 22061},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -20079,33 +20671,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 675, col: 57, offset: 21676},
+																										pos:   position{line: 687, col: 57, offset: 22080},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 675, col: 63, offset: 21682},
+																											pos: position{line: 687, col: 63, offset: 22086},
 																											expr: &actionExpr{
-																												pos: position{line: 679, col: 17, offset: 21807},
+																												pos: position{line: 691, col: 17, offset: 22211},
 																												run: (*parser).callonImageBlock95,
 																												expr: &seqExpr{
-																													pos: position{line: 679, col: 17, offset: 21807},
+																													pos: position{line: 691, col: 17, offset: 22211},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 679, col: 17, offset: 21807},
+																															pos:        position{line: 691, col: 17, offset: 22211},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 679, col: 21, offset: 21811},
+																															pos:   position{line: 691, col: 21, offset: 22215},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 679, col: 28, offset: 21818},
+																																pos: position{line: 691, col: 28, offset: 22222},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 679, col: 28, offset: 21818},
+																																		pos: position{line: 691, col: 28, offset: 22222},
 																																		run: (*parser).callonImageBlock100,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 679, col: 28, offset: 21818},
+																																			pos:        position{line: 691, col: 28, offset: 22222},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20113,12 +20705,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 681, col: 9, offset: 21872},
+																																		pos: position{line: 693, col: 9, offset: 22276},
 																																		run: (*parser).callonImageBlock102,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 681, col: 9, offset: 21872},
+																																			pos: position{line: 693, col: 9, offset: 22276},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 681, col: 9, offset: 21872},
+																																				pos:        position{line: 693, col: 9, offset: 22276},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20135,7 +20727,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 675, col: 79, offset: 21698},
+																										pos:        position{line: 687, col: 79, offset: 22102},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20150,27 +20742,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1211, col: 23, offset: 37656},
+																	pos: position{line: 1223, col: 23, offset: 38060},
 																	run: (*parser).callonImageBlock106,
 																	expr: &seqExpr{
-																		pos: position{line: 1211, col: 23, offset: 37656},
+																		pos: position{line: 1223, col: 23, offset: 38060},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1209, col: 32, offset: 37624},
+																				pos:        position{line: 1221, col: 32, offset: 38028},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1211, col: 51, offset: 37684},
+																				pos:   position{line: 1223, col: 51, offset: 38088},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1211, col: 56, offset: 37689},
+																					pos: position{line: 1223, col: 56, offset: 38093},
 																					run: (*parser).callonImageBlock110,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1211, col: 56, offset: 37689},
+																						pos: position{line: 1223, col: 56, offset: 38093},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1211, col: 56, offset: 37689},
+																							pos:        position{line: 1223, col: 56, offset: 38093},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20180,23 +20772,23 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1209, col: 32, offset: 37624},
+																				pos:        position{line: 1221, col: 32, offset: 38028},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1211, col: 123, offset: 37756},
+																				pos: position{line: 1223, col: 123, offset: 38160},
 																				run: (*parser).callonImageBlock114,
 																			},
 																		},
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2901, col: 11, offset: 91963},
+																	pos: position{line: 2913, col: 11, offset: 92367},
 																	run: (*parser).callonImageBlock115,
 																	expr: &litMatcher{
-																		pos:        position{line: 2901, col: 11, offset: 91963},
+																		pos:        position{line: 2913, col: 11, offset: 92367},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20213,20 +20805,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1325, col: 31, offset: 41714},
+							pos:   position{line: 1337, col: 31, offset: 42118},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1325, col: 43, offset: 41726},
+								pos:  position{line: 1337, col: 43, offset: 42130},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1325, col: 61, offset: 41744},
+							pos: position{line: 1337, col: 61, offset: 42148},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92448},
+								pos: position{line: 2934, col: 10, offset: 92852},
 								run: (*parser).callonImageBlock120,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92448},
+									pos:        position{line: 2934, col: 10, offset: 92852},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20235,28 +20827,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92846},
+							pos: position{line: 2956, col: 8, offset: 93250},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92619},
+									pos: position{line: 2943, col: 12, offset: 93023},
 									run: (*parser).callonImageBlock123,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92620},
+										pos: position{line: 2943, col: 13, offset: 93024},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92620},
+												pos:        position{line: 2943, col: 13, offset: 93024},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92627},
+												pos:        position{line: 2943, col: 20, offset: 93031},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92636},
+												pos:        position{line: 2943, col: 29, offset: 93040},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20265,9 +20857,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92796},
+									pos: position{line: 2953, col: 8, offset: 93200},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92797,
+										line: 2953, col: 9, offset: 93201,
 									},
 								},
 							},
@@ -20278,74 +20870,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1330, col: 1, offset: 41961},
+			pos:  position{line: 1342, col: 1, offset: 42365},
 			expr: &actionExpr{
-				pos: position{line: 1330, col: 16, offset: 41976},
+				pos: position{line: 1342, col: 16, offset: 42380},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1330, col: 16, offset: 41976},
+					pos: position{line: 1342, col: 16, offset: 42380},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1330, col: 16, offset: 41976},
+							pos:        position{line: 1342, col: 16, offset: 42380},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1330, col: 25, offset: 41985},
+							pos: position{line: 1342, col: 25, offset: 42389},
 							expr: &litMatcher{
-								pos:        position{line: 1330, col: 26, offset: 41986},
+								pos:        position{line: 1342, col: 26, offset: 42390},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1330, col: 30, offset: 41990},
+							pos:   position{line: 1342, col: 30, offset: 42394},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2880, col: 13, offset: 91207},
+								pos: position{line: 2892, col: 13, offset: 91611},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2880, col: 13, offset: 91207},
+									pos: position{line: 2892, col: 13, offset: 91611},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2880, col: 13, offset: 91207},
+											pos:   position{line: 2892, col: 13, offset: 91611},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2880, col: 20, offset: 91214},
+												pos: position{line: 2892, col: 20, offset: 91618},
 												expr: &actionExpr{
-													pos: position{line: 2888, col: 11, offset: 91453},
+													pos: position{line: 2900, col: 11, offset: 91857},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2888, col: 12, offset: 91454},
+														pos: position{line: 2900, col: 12, offset: 91858},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2888, col: 12, offset: 91454},
+																pos:        position{line: 2900, col: 12, offset: 91858},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 24, offset: 91466},
+																pos:        position{line: 2900, col: 24, offset: 91870},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 37, offset: 91479},
+																pos:        position{line: 2900, col: 37, offset: 91883},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 48, offset: 91490},
+																pos:        position{line: 2900, col: 48, offset: 91894},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2888, col: 59, offset: 91501},
+																pos:        position{line: 2900, col: 59, offset: 91905},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20356,38 +20948,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2880, col: 30, offset: 91224},
+											pos:   position{line: 2892, col: 30, offset: 91628},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2893, col: 5, offset: 91565},
+												pos: position{line: 2905, col: 5, offset: 91969},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2893, col: 5, offset: 91565},
+													pos:   position{line: 2905, col: 5, offset: 91969},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2893, col: 14, offset: 91574},
+														pos: position{line: 2905, col: 14, offset: 91978},
 														expr: &choiceExpr{
-															pos: position{line: 2894, col: 9, offset: 91584},
+															pos: position{line: 2906, col: 9, offset: 91988},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2894, col: 9, offset: 91584},
+																	pos: position{line: 2906, col: 9, offset: 91988},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2894, col: 9, offset: 91584},
+																		pos: position{line: 2906, col: 9, offset: 91988},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2894, col: 9, offset: 91584},
+																				pos: position{line: 2906, col: 9, offset: 91988},
 																				expr: &litMatcher{
-																					pos:        position{line: 2894, col: 10, offset: 91585},
+																					pos:        position{line: 2906, col: 10, offset: 91989},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2895, col: 9, offset: 91613},
+																				pos: position{line: 2907, col: 9, offset: 92017},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2895, col: 10, offset: 91614},
+																					pos:        position{line: 2907, col: 10, offset: 92018},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20398,27 +20990,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2898, col: 11, offset: 91826},
+																	pos: position{line: 2910, col: 11, offset: 92230},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2898, col: 11, offset: 91826},
+																			pos:        position{line: 2910, col: 11, offset: 92230},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2898, col: 19, offset: 91834},
+																			pos: position{line: 2910, col: 19, offset: 92238},
 																			expr: &seqExpr{
-																				pos: position{line: 2898, col: 21, offset: 91836},
+																				pos: position{line: 2910, col: 21, offset: 92240},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2898, col: 21, offset: 91836},
+																						pos: position{line: 2910, col: 21, offset: 92240},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92448},
+																							pos: position{line: 2934, col: 10, offset: 92852},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92448},
+																								pos:        position{line: 2934, col: 10, offset: 92852},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20427,11 +21019,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2898, col: 28, offset: 91843},
+																						pos: position{line: 2910, col: 28, offset: 92247},
 																						expr: &notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92796},
+																							pos: position{line: 2953, col: 8, offset: 93200},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92797,
+																								line: 2953, col: 9, offset: 93201,
 																							},
 																						},
 																					},
@@ -20441,35 +21033,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 649, col: 5, offset: 20791},
+																	pos: position{line: 661, col: 5, offset: 21195},
 																	run: (*parser).callonInlineImage39,
 																	expr: &seqExpr{
-																		pos: position{line: 649, col: 5, offset: 20791},
+																		pos: position{line: 661, col: 5, offset: 21195},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 649, col: 5, offset: 20791},
+																				pos: position{line: 661, col: 5, offset: 21195},
 																				run: (*parser).callonInlineImage41,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 652, col: 5, offset: 20863},
+																				pos:   position{line: 664, col: 5, offset: 21267},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 652, col: 14, offset: 20872},
+																					pos: position{line: 664, col: 14, offset: 21276},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 658, col: 5, offset: 21001},
+																							pos: position{line: 670, col: 5, offset: 21405},
 																							run: (*parser).callonInlineImage44,
 																							expr: &seqExpr{
-																								pos: position{line: 658, col: 5, offset: 21001},
+																								pos: position{line: 670, col: 5, offset: 21405},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 658, col: 5, offset: 21001},
+																										pos:        position{line: 670, col: 5, offset: 21405},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 13, offset: 21009},
+																										pos:   position{line: 670, col: 13, offset: 21413},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -20501,7 +21093,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 658, col: 32, offset: 21028},
+																										pos:        position{line: 670, col: 32, offset: 21432},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20510,19 +21102,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 665, col: 5, offset: 21269},
+																							pos: position{line: 677, col: 5, offset: 21673},
 																							run: (*parser).callonInlineImage54,
 																							expr: &seqExpr{
-																								pos: position{line: 665, col: 5, offset: 21269},
+																								pos: position{line: 677, col: 5, offset: 21673},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 665, col: 5, offset: 21269},
+																										pos:        position{line: 677, col: 5, offset: 21673},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 665, col: 9, offset: 21273},
+																										pos:   position{line: 677, col: 9, offset: 21677},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -20554,7 +21146,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 665, col: 28, offset: 21292},
+																										pos:        position{line: 677, col: 28, offset: 21696},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20563,19 +21155,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 671, col: 25, offset: 21473},
+																							pos: position{line: 683, col: 25, offset: 21877},
 																							run: (*parser).callonInlineImage64,
 																							expr: &seqExpr{
-																								pos: position{line: 671, col: 25, offset: 21473},
+																								pos: position{line: 683, col: 25, offset: 21877},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 671, col: 25, offset: 21473},
+																										pos:        position{line: 683, col: 25, offset: 21877},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 671, col: 37, offset: 21485},
+																										pos:   position{line: 683, col: 37, offset: 21889},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -20607,33 +21199,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 671, col: 56, offset: 21504},
+																										pos:   position{line: 683, col: 56, offset: 21908},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 671, col: 62, offset: 21510},
+																											pos: position{line: 683, col: 62, offset: 21914},
 																											expr: &actionExpr{
-																												pos: position{line: 679, col: 17, offset: 21807},
+																												pos: position{line: 691, col: 17, offset: 22211},
 																												run: (*parser).callonInlineImage75,
 																												expr: &seqExpr{
-																													pos: position{line: 679, col: 17, offset: 21807},
+																													pos: position{line: 691, col: 17, offset: 22211},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 679, col: 17, offset: 21807},
+																															pos:        position{line: 691, col: 17, offset: 22211},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 679, col: 21, offset: 21811},
+																															pos:   position{line: 691, col: 21, offset: 22215},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 679, col: 28, offset: 21818},
+																																pos: position{line: 691, col: 28, offset: 22222},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 679, col: 28, offset: 21818},
+																																		pos: position{line: 691, col: 28, offset: 22222},
 																																		run: (*parser).callonInlineImage80,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 679, col: 28, offset: 21818},
+																																			pos:        position{line: 691, col: 28, offset: 22222},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20641,12 +21233,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 681, col: 9, offset: 21872},
+																																		pos: position{line: 693, col: 9, offset: 22276},
 																																		run: (*parser).callonInlineImage82,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 681, col: 9, offset: 21872},
+																																			pos: position{line: 693, col: 9, offset: 22276},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 681, col: 9, offset: 21872},
+																																				pos:        position{line: 693, col: 9, offset: 22276},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20663,7 +21255,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 671, col: 78, offset: 21526},
+																										pos:        position{line: 683, col: 78, offset: 21930},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20672,19 +21264,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 675, col: 25, offset: 21644},
+																							pos: position{line: 687, col: 25, offset: 22048},
 																							run: (*parser).callonInlineImage86,
 																							expr: &seqExpr{
-																								pos: position{line: 675, col: 25, offset: 21644},
+																								pos: position{line: 687, col: 25, offset: 22048},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 675, col: 25, offset: 21644},
+																										pos:        position{line: 687, col: 25, offset: 22048},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 675, col: 38, offset: 21657},
+																										pos:   position{line: 687, col: 38, offset: 22061},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -20716,33 +21308,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 675, col: 57, offset: 21676},
+																										pos:   position{line: 687, col: 57, offset: 22080},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 675, col: 63, offset: 21682},
+																											pos: position{line: 687, col: 63, offset: 22086},
 																											expr: &actionExpr{
-																												pos: position{line: 679, col: 17, offset: 21807},
+																												pos: position{line: 691, col: 17, offset: 22211},
 																												run: (*parser).callonInlineImage97,
 																												expr: &seqExpr{
-																													pos: position{line: 679, col: 17, offset: 21807},
+																													pos: position{line: 691, col: 17, offset: 22211},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 679, col: 17, offset: 21807},
+																															pos:        position{line: 691, col: 17, offset: 22211},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 679, col: 21, offset: 21811},
+																															pos:   position{line: 691, col: 21, offset: 22215},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 679, col: 28, offset: 21818},
+																																pos: position{line: 691, col: 28, offset: 22222},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 679, col: 28, offset: 21818},
+																																		pos: position{line: 691, col: 28, offset: 22222},
 																																		run: (*parser).callonInlineImage102,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 679, col: 28, offset: 21818},
+																																			pos:        position{line: 691, col: 28, offset: 22222},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20750,12 +21342,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 681, col: 9, offset: 21872},
+																																		pos: position{line: 693, col: 9, offset: 22276},
 																																		run: (*parser).callonInlineImage104,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 681, col: 9, offset: 21872},
+																																			pos: position{line: 693, col: 9, offset: 22276},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 681, col: 9, offset: 21872},
+																																				pos:        position{line: 693, col: 9, offset: 22276},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20772,7 +21364,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 675, col: 79, offset: 21698},
+																										pos:        position{line: 687, col: 79, offset: 22102},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20787,27 +21379,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1211, col: 23, offset: 37656},
+																	pos: position{line: 1223, col: 23, offset: 38060},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1211, col: 23, offset: 37656},
+																		pos: position{line: 1223, col: 23, offset: 38060},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1209, col: 32, offset: 37624},
+																				pos:        position{line: 1221, col: 32, offset: 38028},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1211, col: 51, offset: 37684},
+																				pos:   position{line: 1223, col: 51, offset: 38088},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1211, col: 56, offset: 37689},
+																					pos: position{line: 1223, col: 56, offset: 38093},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1211, col: 56, offset: 37689},
+																						pos: position{line: 1223, col: 56, offset: 38093},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1211, col: 56, offset: 37689},
+																							pos:        position{line: 1223, col: 56, offset: 38093},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20817,23 +21409,23 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1209, col: 32, offset: 37624},
+																				pos:        position{line: 1221, col: 32, offset: 38028},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1211, col: 123, offset: 37756},
+																				pos: position{line: 1223, col: 123, offset: 38160},
 																				run: (*parser).callonInlineImage116,
 																			},
 																		},
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2901, col: 11, offset: 91963},
+																	pos: position{line: 2913, col: 11, offset: 92367},
 																	run: (*parser).callonInlineImage117,
 																	expr: &litMatcher{
-																		pos:        position{line: 2901, col: 11, offset: 91963},
+																		pos:        position{line: 2913, col: 11, offset: 92367},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20850,10 +21442,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1330, col: 46, offset: 42006},
+							pos:   position{line: 1342, col: 46, offset: 42410},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1330, col: 58, offset: 42018},
+								pos:  position{line: 1342, col: 58, offset: 42422},
 								name: "InlineAttributes",
 							},
 						},
@@ -20863,29 +21455,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1337, col: 1, offset: 42414},
+			pos:  position{line: 1349, col: 1, offset: 42818},
 			expr: &actionExpr{
-				pos: position{line: 1337, col: 15, offset: 42428},
+				pos: position{line: 1349, col: 15, offset: 42832},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1337, col: 15, offset: 42428},
+					pos: position{line: 1349, col: 15, offset: 42832},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1337, col: 15, offset: 42428},
+							pos:        position{line: 1349, col: 15, offset: 42832},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1337, col: 23, offset: 42436},
+							pos:   position{line: 1349, col: 23, offset: 42840},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1337, col: 29, offset: 42442},
+								pos: position{line: 1349, col: 29, offset: 42846},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1337, col: 29, offset: 42442},
+									pos: position{line: 1349, col: 29, offset: 42846},
 									expr: &charClassMatcher{
-										pos:        position{line: 1337, col: 29, offset: 42442},
+										pos:        position{line: 1349, col: 29, offset: 42846},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20896,10 +21488,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1337, col: 73, offset: 42486},
+							pos:   position{line: 1349, col: 73, offset: 42890},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1337, col: 85, offset: 42498},
+								pos:  position{line: 1349, col: 85, offset: 42902},
 								name: "InlineAttributes",
 							},
 						},
@@ -20909,31 +21501,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1344, col: 1, offset: 42864},
+			pos:  position{line: 1356, col: 1, offset: 43268},
 			expr: &actionExpr{
-				pos: position{line: 1344, col: 19, offset: 42882},
+				pos: position{line: 1356, col: 19, offset: 43286},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1344, col: 19, offset: 42882},
+					pos: position{line: 1356, col: 19, offset: 43286},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1344, col: 19, offset: 42882},
+							pos:        position{line: 1356, col: 19, offset: 43286},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1344, col: 31, offset: 42894},
+							pos:   position{line: 1356, col: 31, offset: 43298},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1344, col: 35, offset: 42898},
+								pos: position{line: 1356, col: 35, offset: 43302},
 								expr: &actionExpr{
-									pos: position{line: 2816, col: 14, offset: 89617},
+									pos: position{line: 2828, col: 14, offset: 90021},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2816, col: 14, offset: 89617},
+										pos: position{line: 2828, col: 14, offset: 90021},
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 14, offset: 89617},
+											pos:        position{line: 2828, col: 14, offset: 90021},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20944,21 +21536,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1344, col: 50, offset: 42913},
+							pos:        position{line: 1356, col: 50, offset: 43317},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1344, col: 54, offset: 42917},
+							pos:   position{line: 1356, col: 54, offset: 43321},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1344, col: 64, offset: 42927},
+								pos:  position{line: 1356, col: 64, offset: 43331},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1344, col: 82, offset: 42945},
+							pos:        position{line: 1356, col: 82, offset: 43349},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20969,24 +21561,24 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1350, col: 1, offset: 43102},
+			pos:  position{line: 1362, col: 1, offset: 43506},
 			expr: &actionExpr{
-				pos: position{line: 1351, col: 5, offset: 43127},
+				pos: position{line: 1363, col: 5, offset: 43531},
 				run: (*parser).callonFootnoteElements1,
 				expr: &seqExpr{
-					pos: position{line: 1351, col: 5, offset: 43127},
+					pos: position{line: 1363, col: 5, offset: 43531},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1351, col: 5, offset: 43127},
+							pos: position{line: 1363, col: 5, offset: 43531},
 							run: (*parser).callonFootnoteElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1355, col: 5, offset: 43238},
+							pos:   position{line: 1367, col: 5, offset: 43642},
 							label: "elements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1355, col: 14, offset: 43247},
+								pos: position{line: 1367, col: 14, offset: 43651},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1355, col: 15, offset: 43248},
+									pos:  position{line: 1367, col: 15, offset: 43652},
 									name: "FootnoteElement",
 								},
 							},
@@ -20997,44 +21589,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1359, col: 1, offset: 43340},
+			pos:  position{line: 1371, col: 1, offset: 43744},
 			expr: &actionExpr{
-				pos: position{line: 1360, col: 5, offset: 43364},
+				pos: position{line: 1372, col: 5, offset: 43768},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1360, col: 5, offset: 43364},
+					pos: position{line: 1372, col: 5, offset: 43768},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1360, col: 5, offset: 43364},
+							pos: position{line: 1372, col: 5, offset: 43768},
 							expr: &litMatcher{
-								pos:        position{line: 1360, col: 6, offset: 43365},
+								pos:        position{line: 1372, col: 6, offset: 43769},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1361, col: 5, offset: 43374},
+							pos:   position{line: 1373, col: 5, offset: 43778},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1362, col: 9, offset: 43392},
+								pos: position{line: 1374, col: 9, offset: 43796},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2821, col: 5, offset: 89690},
+										pos: position{line: 2833, col: 5, offset: 90094},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2821, col: 5, offset: 89690},
+											pos: position{line: 2833, col: 5, offset: 90094},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2821, col: 5, offset: 89690},
+													pos:   position{line: 2833, col: 5, offset: 90094},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2821, col: 11, offset: 89696},
+														pos: position{line: 2833, col: 11, offset: 90100},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2821, col: 11, offset: 89696},
+															pos: position{line: 2833, col: 11, offset: 90100},
 															expr: &charClassMatcher{
-																pos:        position{line: 2821, col: 11, offset: 89696},
+																pos:        position{line: 2833, col: 11, offset: 90100},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21044,36 +21636,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2824, col: 5, offset: 89754},
+													pos: position{line: 2836, col: 5, offset: 90158},
 													expr: &seqExpr{
-														pos: position{line: 2825, col: 9, offset: 89765},
+														pos: position{line: 2837, col: 9, offset: 90169},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2825, col: 9, offset: 89765},
+																pos:        position{line: 2837, col: 9, offset: 90169},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2826, col: 9, offset: 89814},
+																pos: position{line: 2838, col: 9, offset: 90218},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2830, col: 5, offset: 89894},
+													pos: position{line: 2842, col: 5, offset: 90298},
 													expr: &seqExpr{
-														pos: position{line: 2831, col: 9, offset: 89905},
+														pos: position{line: 2843, col: 9, offset: 90309},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2831, col: 9, offset: 89905},
+																pos:        position{line: 2843, col: 9, offset: 90309},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2831, col: 13, offset: 89909},
+																pos:        position{line: 2843, col: 13, offset: 90313},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21086,12 +21678,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2926, col: 11, offset: 92509},
+										pos: position{line: 2938, col: 11, offset: 92913},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2926, col: 11, offset: 92509},
+											pos: position{line: 2938, col: 11, offset: 92913},
 											expr: &charClassMatcher{
-												pos:        position{line: 2926, col: 11, offset: 92509},
+												pos:        position{line: 2938, col: 11, offset: 92913},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21100,21 +21692,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2543, col: 5, offset: 81971},
+										pos: position{line: 2555, col: 5, offset: 82375},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2543, col: 5, offset: 81971},
+											pos: position{line: 2555, col: 5, offset: 82375},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2543, col: 5, offset: 81971},
+													pos:        position{line: 2555, col: 5, offset: 82375},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2543, col: 10, offset: 81976},
+													pos: position{line: 2555, col: 10, offset: 82380},
 													expr: &charClassMatcher{
-														pos:        position{line: 2543, col: 11, offset: 81977},
+														pos:        position{line: 2555, col: 11, offset: 82381},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21125,29 +21717,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2549, col: 5, offset: 82169},
+										pos: position{line: 2561, col: 5, offset: 82573},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2549, col: 5, offset: 82169},
+											pos: position{line: 2561, col: 5, offset: 82573},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2549, col: 5, offset: 82169},
+													pos: position{line: 2561, col: 5, offset: 82573},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2552, col: 5, offset: 82240},
+													pos: position{line: 2564, col: 5, offset: 82644},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2556, col: 5, offset: 82365},
+													pos:        position{line: 2568, col: 5, offset: 82769},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2556, col: 9, offset: 82369},
+													pos: position{line: 2568, col: 9, offset: 82773},
 													expr: &charClassMatcher{
-														pos:        position{line: 2556, col: 10, offset: 82370},
+														pos:        position{line: 2568, col: 10, offset: 82774},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21158,35 +21750,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1365, col: 11, offset: 43459},
+										pos:  position{line: 1377, col: 11, offset: 43863},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1366, col: 11, offset: 43475},
+										pos:  position{line: 1378, col: 11, offset: 43879},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2839, col: 5, offset: 90102},
+										pos: position{line: 2851, col: 5, offset: 90506},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2840, col: 9, offset: 90112},
+											pos: position{line: 2852, col: 9, offset: 90516},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2840, col: 10, offset: 90113},
+													pos:        position{line: 2852, col: 10, offset: 90517},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2842, col: 13, offset: 90210},
+													pos: position{line: 2854, col: 13, offset: 90614},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2842, col: 13, offset: 90210},
+															pos: position{line: 2854, col: 13, offset: 90614},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2845, col: 13, offset: 90310},
+															pos:        position{line: 2857, col: 13, offset: 90714},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21194,20 +21786,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2845, col: 19, offset: 90316},
+													pos:        position{line: 2857, col: 19, offset: 90720},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2848, col: 13, offset: 90354},
+													pos: position{line: 2860, col: 13, offset: 90758},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2848, col: 13, offset: 90354},
+															pos: position{line: 2860, col: 13, offset: 90758},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2851, col: 14, offset: 90447},
+															pos:        position{line: 2863, col: 14, offset: 90851},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21216,18 +21808,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2853, col: 12, offset: 90491},
+													pos: position{line: 2865, col: 12, offset: 90895},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2853, col: 12, offset: 90491},
+															pos:        position{line: 2865, col: 12, offset: 90895},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2853, col: 16, offset: 90495},
+															pos: position{line: 2865, col: 16, offset: 90899},
 															expr: &litMatcher{
-																pos:        position{line: 2853, col: 17, offset: 90496},
+																pos:        position{line: 2865, col: 17, offset: 90900},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21239,36 +21831,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1368, col: 11, offset: 43548},
+										pos:  position{line: 1380, col: 11, offset: 43952},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1219, col: 5, offset: 38149},
+										pos: position{line: 1231, col: 5, offset: 38553},
 										run: (*parser).callonFootnoteElement53,
 										expr: &seqExpr{
-											pos: position{line: 1219, col: 5, offset: 38149},
+											pos: position{line: 1231, col: 5, offset: 38553},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1219, col: 5, offset: 38149},
+													pos: position{line: 1231, col: 5, offset: 38553},
 													run: (*parser).callonFootnoteElement55,
 												},
 												&litMatcher{
-													pos:        position{line: 1222, col: 5, offset: 38225},
+													pos:        position{line: 1234, col: 5, offset: 38629},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1223, col: 5, offset: 38233},
+													pos: position{line: 1235, col: 5, offset: 38637},
 													run: (*parser).callonFootnoteElement57,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1227, col: 5, offset: 38320},
+													pos: position{line: 1239, col: 5, offset: 38724},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92448},
+														pos: position{line: 2934, col: 10, offset: 92852},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92448},
+															pos:        position{line: 2934, col: 10, offset: 92852},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21277,30 +21869,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1227, col: 12, offset: 38327},
+													pos: position{line: 1239, col: 12, offset: 38731},
 													expr: &choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92846},
+														pos: position{line: 2956, col: 8, offset: 93250},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92619},
+																pos: position{line: 2943, col: 12, offset: 93023},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92620},
+																	pos: position{line: 2943, col: 13, offset: 93024},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92620},
+																			pos:        position{line: 2943, col: 13, offset: 93024},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92627},
+																			pos:        position{line: 2943, col: 20, offset: 93031},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92636},
+																			pos:        position{line: 2943, col: 29, offset: 93040},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21309,9 +21901,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92796},
+																pos: position{line: 2953, col: 8, offset: 93200},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92797,
+																	line: 2953, col: 9, offset: 93201,
 																},
 															},
 														},
@@ -21321,35 +21913,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 649, col: 5, offset: 20791},
+										pos: position{line: 661, col: 5, offset: 21195},
 										run: (*parser).callonFootnoteElement70,
 										expr: &seqExpr{
-											pos: position{line: 649, col: 5, offset: 20791},
+											pos: position{line: 661, col: 5, offset: 21195},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 649, col: 5, offset: 20791},
+													pos: position{line: 661, col: 5, offset: 21195},
 													run: (*parser).callonFootnoteElement72,
 												},
 												&labeledExpr{
-													pos:   position{line: 652, col: 5, offset: 20863},
+													pos:   position{line: 664, col: 5, offset: 21267},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 652, col: 14, offset: 20872},
+														pos: position{line: 664, col: 14, offset: 21276},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 658, col: 5, offset: 21001},
+																pos: position{line: 670, col: 5, offset: 21405},
 																run: (*parser).callonFootnoteElement75,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 5, offset: 21001},
+																	pos: position{line: 670, col: 5, offset: 21405},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 5, offset: 21001},
+																			pos:        position{line: 670, col: 5, offset: 21405},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 13, offset: 21009},
+																			pos:   position{line: 670, col: 13, offset: 21413},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -21381,7 +21973,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 32, offset: 21028},
+																			pos:        position{line: 670, col: 32, offset: 21432},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21390,19 +21982,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 665, col: 5, offset: 21269},
+																pos: position{line: 677, col: 5, offset: 21673},
 																run: (*parser).callonFootnoteElement85,
 																expr: &seqExpr{
-																	pos: position{line: 665, col: 5, offset: 21269},
+																	pos: position{line: 677, col: 5, offset: 21673},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 665, col: 5, offset: 21269},
+																			pos:        position{line: 677, col: 5, offset: 21673},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 665, col: 9, offset: 21273},
+																			pos:   position{line: 677, col: 9, offset: 21677},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -21434,7 +22026,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 665, col: 28, offset: 21292},
+																			pos:        position{line: 677, col: 28, offset: 21696},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21443,19 +22035,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 671, col: 25, offset: 21473},
+																pos: position{line: 683, col: 25, offset: 21877},
 																run: (*parser).callonFootnoteElement95,
 																expr: &seqExpr{
-																	pos: position{line: 671, col: 25, offset: 21473},
+																	pos: position{line: 683, col: 25, offset: 21877},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 671, col: 25, offset: 21473},
+																			pos:        position{line: 683, col: 25, offset: 21877},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 671, col: 37, offset: 21485},
+																			pos:   position{line: 683, col: 37, offset: 21889},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -21487,33 +22079,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 671, col: 56, offset: 21504},
+																			pos:   position{line: 683, col: 56, offset: 21908},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 671, col: 62, offset: 21510},
+																				pos: position{line: 683, col: 62, offset: 21914},
 																				expr: &actionExpr{
-																					pos: position{line: 679, col: 17, offset: 21807},
+																					pos: position{line: 691, col: 17, offset: 22211},
 																					run: (*parser).callonFootnoteElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 679, col: 17, offset: 21807},
+																						pos: position{line: 691, col: 17, offset: 22211},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 679, col: 17, offset: 21807},
+																								pos:        position{line: 691, col: 17, offset: 22211},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 679, col: 21, offset: 21811},
+																								pos:   position{line: 691, col: 21, offset: 22215},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 679, col: 28, offset: 21818},
+																									pos: position{line: 691, col: 28, offset: 22222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 679, col: 28, offset: 21818},
+																											pos: position{line: 691, col: 28, offset: 22222},
 																											run: (*parser).callonFootnoteElement111,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 679, col: 28, offset: 21818},
+																												pos:        position{line: 691, col: 28, offset: 22222},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21521,12 +22113,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 681, col: 9, offset: 21872},
+																											pos: position{line: 693, col: 9, offset: 22276},
 																											run: (*parser).callonFootnoteElement113,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 681, col: 9, offset: 21872},
+																												pos: position{line: 693, col: 9, offset: 22276},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 681, col: 9, offset: 21872},
+																													pos:        position{line: 693, col: 9, offset: 22276},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21543,7 +22135,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 671, col: 78, offset: 21526},
+																			pos:        position{line: 683, col: 78, offset: 21930},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21552,19 +22144,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 675, col: 25, offset: 21644},
+																pos: position{line: 687, col: 25, offset: 22048},
 																run: (*parser).callonFootnoteElement117,
 																expr: &seqExpr{
-																	pos: position{line: 675, col: 25, offset: 21644},
+																	pos: position{line: 687, col: 25, offset: 22048},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 675, col: 25, offset: 21644},
+																			pos:        position{line: 687, col: 25, offset: 22048},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 675, col: 38, offset: 21657},
+																			pos:   position{line: 687, col: 38, offset: 22061},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -21596,33 +22188,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 675, col: 57, offset: 21676},
+																			pos:   position{line: 687, col: 57, offset: 22080},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 675, col: 63, offset: 21682},
+																				pos: position{line: 687, col: 63, offset: 22086},
 																				expr: &actionExpr{
-																					pos: position{line: 679, col: 17, offset: 21807},
+																					pos: position{line: 691, col: 17, offset: 22211},
 																					run: (*parser).callonFootnoteElement128,
 																					expr: &seqExpr{
-																						pos: position{line: 679, col: 17, offset: 21807},
+																						pos: position{line: 691, col: 17, offset: 22211},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 679, col: 17, offset: 21807},
+																								pos:        position{line: 691, col: 17, offset: 22211},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 679, col: 21, offset: 21811},
+																								pos:   position{line: 691, col: 21, offset: 22215},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 679, col: 28, offset: 21818},
+																									pos: position{line: 691, col: 28, offset: 22222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 679, col: 28, offset: 21818},
+																											pos: position{line: 691, col: 28, offset: 22222},
 																											run: (*parser).callonFootnoteElement133,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 679, col: 28, offset: 21818},
+																												pos:        position{line: 691, col: 28, offset: 22222},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21630,12 +22222,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 681, col: 9, offset: 21872},
+																											pos: position{line: 693, col: 9, offset: 22276},
 																											run: (*parser).callonFootnoteElement135,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 681, col: 9, offset: 21872},
+																												pos: position{line: 693, col: 9, offset: 22276},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 681, col: 9, offset: 21872},
+																													pos:        position{line: 693, col: 9, offset: 22276},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21652,7 +22244,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 675, col: 79, offset: 21698},
+																			pos:        position{line: 687, col: 79, offset: 22102},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21667,23 +22259,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 5, offset: 80772},
+										pos: position{line: 2524, col: 5, offset: 81176},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 5, offset: 80772},
+											pos: position{line: 2524, col: 5, offset: 81176},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 80772},
+													pos: position{line: 2524, col: 5, offset: 81176},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 5, offset: 80848},
+													pos:   position{line: 2527, col: 5, offset: 81252},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2516, col: 9, offset: 80866},
+														pos: position{line: 2528, col: 9, offset: 81270},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2516, col: 10, offset: 80867},
+															pos:        position{line: 2528, col: 10, offset: 81271},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21695,25 +22287,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2931, col: 12, offset: 92619},
+										pos: position{line: 2943, col: 12, offset: 93023},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2931, col: 13, offset: 92620},
+											pos: position{line: 2943, col: 13, offset: 93024},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2931, col: 13, offset: 92620},
+													pos:        position{line: 2943, col: 13, offset: 93024},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 20, offset: 92627},
+													pos:        position{line: 2943, col: 20, offset: 93031},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 29, offset: 92636},
+													pos:        position{line: 2943, col: 29, offset: 93040},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21722,10 +22314,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90756},
+										pos: position{line: 2873, col: 12, offset: 91160},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2861, col: 12, offset: 90756},
+											pos:        position{line: 2873, col: 12, offset: 91160},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21741,32 +22333,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1407, col: 1, offset: 45383},
+			pos:  position{line: 1419, col: 1, offset: 45787},
 			expr: &choiceExpr{
-				pos: position{line: 1407, col: 21, offset: 45403},
+				pos: position{line: 1419, col: 21, offset: 45807},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1407, col: 21, offset: 45403},
+						pos: position{line: 1419, col: 21, offset: 45807},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1407, col: 21, offset: 45403},
+							pos: position{line: 1419, col: 21, offset: 45807},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1407, col: 21, offset: 45403},
+									pos:        position{line: 1419, col: 21, offset: 45807},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1407, col: 30, offset: 45412},
+									pos:   position{line: 1419, col: 30, offset: 45816},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1407, col: 38, offset: 45420},
+										pos: position{line: 1419, col: 38, offset: 45824},
 										expr: &actionExpr{
-											pos: position{line: 1413, col: 30, offset: 45746},
+											pos: position{line: 1425, col: 30, offset: 46150},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1413, col: 30, offset: 45746},
+												pos:        position{line: 1425, col: 30, offset: 46150},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21776,7 +22368,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1407, col: 67, offset: 45449},
+									pos:        position{line: 1419, col: 67, offset: 45853},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21785,34 +22377,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1409, col: 9, offset: 45553},
+						pos: position{line: 1421, col: 9, offset: 45957},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1409, col: 9, offset: 45553},
+							pos: position{line: 1421, col: 9, offset: 45957},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1409, col: 9, offset: 45553},
+									pos:        position{line: 1421, col: 9, offset: 45957},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1409, col: 19, offset: 45563},
+									pos:   position{line: 1421, col: 19, offset: 45967},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1409, col: 27, offset: 45571},
+										pos: position{line: 1421, col: 27, offset: 45975},
 										expr: &choiceExpr{
-											pos: position{line: 1409, col: 28, offset: 45572},
+											pos: position{line: 1421, col: 28, offset: 45976},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1409, col: 28, offset: 45572},
+													pos:  position{line: 1421, col: 28, offset: 45976},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1413, col: 30, offset: 45746},
+													pos: position{line: 1425, col: 30, offset: 46150},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1413, col: 30, offset: 45746},
+														pos:        position{line: 1425, col: 30, offset: 46150},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -21824,7 +22416,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1409, col: 69, offset: 45613},
+									pos:        position{line: 1421, col: 69, offset: 46017},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21837,75 +22429,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1420, col: 1, offset: 46002},
+			pos:  position{line: 1432, col: 1, offset: 46406},
 			expr: &choiceExpr{
-				pos: position{line: 1420, col: 9, offset: 46010},
+				pos: position{line: 1432, col: 9, offset: 46414},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1423, col: 5, offset: 46079},
+						pos: position{line: 1435, col: 5, offset: 46483},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1423, col: 5, offset: 46079},
+							pos: position{line: 1435, col: 5, offset: 46483},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1423, col: 5, offset: 46079},
+									pos:        position{line: 1435, col: 5, offset: 46483},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1424, col: 5, offset: 46088},
+									pos:   position{line: 1436, col: 5, offset: 46492},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2884, col: 23, offset: 91334},
+										pos: position{line: 2896, col: 23, offset: 91738},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2884, col: 23, offset: 91334},
+											pos: position{line: 2896, col: 23, offset: 91738},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2884, col: 23, offset: 91334},
+													pos: position{line: 2896, col: 23, offset: 91738},
 													expr: &litMatcher{
-														pos:        position{line: 2884, col: 24, offset: 91335},
+														pos:        position{line: 2896, col: 24, offset: 91739},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2884, col: 28, offset: 91339},
+													pos:   position{line: 2896, col: 28, offset: 91743},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 11, offset: 91453},
+														pos: position{line: 2900, col: 11, offset: 91857},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2888, col: 12, offset: 91454},
+															pos: position{line: 2900, col: 12, offset: 91858},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2888, col: 12, offset: 91454},
+																	pos:        position{line: 2900, col: 12, offset: 91858},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 24, offset: 91466},
+																	pos:        position{line: 2900, col: 24, offset: 91870},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 37, offset: 91479},
+																	pos:        position{line: 2900, col: 37, offset: 91883},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 48, offset: 91490},
+																	pos:        position{line: 2900, col: 48, offset: 91894},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 59, offset: 91501},
+																	pos:        position{line: 2900, col: 59, offset: 91905},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21915,38 +22507,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2884, col: 44, offset: 91355},
+													pos:   position{line: 2896, col: 44, offset: 91759},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2893, col: 5, offset: 91565},
+														pos: position{line: 2905, col: 5, offset: 91969},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2893, col: 5, offset: 91565},
+															pos:   position{line: 2905, col: 5, offset: 91969},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2893, col: 14, offset: 91574},
+																pos: position{line: 2905, col: 14, offset: 91978},
 																expr: &choiceExpr{
-																	pos: position{line: 2894, col: 9, offset: 91584},
+																	pos: position{line: 2906, col: 9, offset: 91988},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2894, col: 9, offset: 91584},
+																			pos: position{line: 2906, col: 9, offset: 91988},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2894, col: 9, offset: 91584},
+																				pos: position{line: 2906, col: 9, offset: 91988},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2894, col: 9, offset: 91584},
+																						pos: position{line: 2906, col: 9, offset: 91988},
 																						expr: &litMatcher{
-																							pos:        position{line: 2894, col: 10, offset: 91585},
+																							pos:        position{line: 2906, col: 10, offset: 91989},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2895, col: 9, offset: 91613},
+																						pos: position{line: 2907, col: 9, offset: 92017},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2895, col: 10, offset: 91614},
+																							pos:        position{line: 2907, col: 10, offset: 92018},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21957,27 +22549,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2898, col: 11, offset: 91826},
+																			pos: position{line: 2910, col: 11, offset: 92230},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2898, col: 11, offset: 91826},
+																					pos:        position{line: 2910, col: 11, offset: 92230},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2898, col: 19, offset: 91834},
+																					pos: position{line: 2910, col: 19, offset: 92238},
 																					expr: &seqExpr{
-																						pos: position{line: 2898, col: 21, offset: 91836},
+																						pos: position{line: 2910, col: 21, offset: 92240},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2898, col: 21, offset: 91836},
+																								pos: position{line: 2910, col: 21, offset: 92240},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92448},
+																									pos: position{line: 2934, col: 10, offset: 92852},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92448},
+																										pos:        position{line: 2934, col: 10, offset: 92852},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21986,11 +22578,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2898, col: 28, offset: 91843},
+																								pos: position{line: 2910, col: 28, offset: 92247},
 																								expr: &notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -22000,35 +22592,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 649, col: 5, offset: 20791},
+																			pos: position{line: 661, col: 5, offset: 21195},
 																			run: (*parser).callonLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 649, col: 5, offset: 20791},
+																				pos: position{line: 661, col: 5, offset: 21195},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 649, col: 5, offset: 20791},
+																						pos: position{line: 661, col: 5, offset: 21195},
 																						run: (*parser).callonLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 652, col: 5, offset: 20863},
+																						pos:   position{line: 664, col: 5, offset: 21267},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 652, col: 14, offset: 20872},
+																							pos: position{line: 664, col: 14, offset: 21276},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 658, col: 5, offset: 21001},
+																									pos: position{line: 670, col: 5, offset: 21405},
 																									run: (*parser).callonLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 5, offset: 21001},
+																										pos: position{line: 670, col: 5, offset: 21405},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 5, offset: 21001},
+																												pos:        position{line: 670, col: 5, offset: 21405},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 13, offset: 21009},
+																												pos:   position{line: 670, col: 13, offset: 21413},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22060,7 +22652,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 32, offset: 21028},
+																												pos:        position{line: 670, col: 32, offset: 21432},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22069,19 +22661,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 5, offset: 21269},
+																									pos: position{line: 677, col: 5, offset: 21673},
 																									run: (*parser).callonLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 5, offset: 21269},
+																										pos: position{line: 677, col: 5, offset: 21673},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 5, offset: 21269},
+																												pos:        position{line: 677, col: 5, offset: 21673},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 9, offset: 21273},
+																												pos:   position{line: 677, col: 9, offset: 21677},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22113,7 +22705,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 28, offset: 21292},
+																												pos:        position{line: 677, col: 28, offset: 21696},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22122,19 +22714,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 671, col: 25, offset: 21473},
+																									pos: position{line: 683, col: 25, offset: 21877},
 																									run: (*parser).callonLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 671, col: 25, offset: 21473},
+																										pos: position{line: 683, col: 25, offset: 21877},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 671, col: 25, offset: 21473},
+																												pos:        position{line: 683, col: 25, offset: 21877},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 37, offset: 21485},
+																												pos:   position{line: 683, col: 37, offset: 21889},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22166,33 +22758,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 56, offset: 21504},
+																												pos:   position{line: 683, col: 56, offset: 21908},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 671, col: 62, offset: 21510},
+																													pos: position{line: 683, col: 62, offset: 21914},
 																													expr: &actionExpr{
-																														pos: position{line: 679, col: 17, offset: 21807},
+																														pos: position{line: 691, col: 17, offset: 22211},
 																														run: (*parser).callonLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 679, col: 17, offset: 21807},
+																															pos: position{line: 691, col: 17, offset: 22211},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 679, col: 17, offset: 21807},
+																																	pos:        position{line: 691, col: 17, offset: 22211},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 679, col: 21, offset: 21811},
+																																	pos:   position{line: 691, col: 21, offset: 22215},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 679, col: 28, offset: 21818},
+																																		pos: position{line: 691, col: 28, offset: 22222},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 679, col: 28, offset: 21818},
+																																				pos: position{line: 691, col: 28, offset: 22222},
 																																				run: (*parser).callonLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 679, col: 28, offset: 21818},
+																																					pos:        position{line: 691, col: 28, offset: 22222},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22200,12 +22792,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 681, col: 9, offset: 21872},
+																																				pos: position{line: 693, col: 9, offset: 22276},
 																																				run: (*parser).callonLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 681, col: 9, offset: 21872},
+																																					pos: position{line: 693, col: 9, offset: 22276},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 681, col: 9, offset: 21872},
+																																						pos:        position{line: 693, col: 9, offset: 22276},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22222,7 +22814,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 671, col: 78, offset: 21526},
+																												pos:        position{line: 683, col: 78, offset: 21930},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22231,19 +22823,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 675, col: 25, offset: 21644},
+																									pos: position{line: 687, col: 25, offset: 22048},
 																									run: (*parser).callonLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 675, col: 25, offset: 21644},
+																										pos: position{line: 687, col: 25, offset: 22048},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 675, col: 25, offset: 21644},
+																												pos:        position{line: 687, col: 25, offset: 22048},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 675, col: 38, offset: 21657},
+																												pos:   position{line: 687, col: 38, offset: 22061},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22275,33 +22867,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 675, col: 57, offset: 21676},
+																												pos:   position{line: 687, col: 57, offset: 22080},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 675, col: 63, offset: 21682},
+																													pos: position{line: 687, col: 63, offset: 22086},
 																													expr: &actionExpr{
-																														pos: position{line: 679, col: 17, offset: 21807},
+																														pos: position{line: 691, col: 17, offset: 22211},
 																														run: (*parser).callonLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 679, col: 17, offset: 21807},
+																															pos: position{line: 691, col: 17, offset: 22211},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 679, col: 17, offset: 21807},
+																																	pos:        position{line: 691, col: 17, offset: 22211},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 679, col: 21, offset: 21811},
+																																	pos:   position{line: 691, col: 21, offset: 22215},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 679, col: 28, offset: 21818},
+																																		pos: position{line: 691, col: 28, offset: 22222},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 679, col: 28, offset: 21818},
+																																				pos: position{line: 691, col: 28, offset: 22222},
 																																				run: (*parser).callonLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 679, col: 28, offset: 21818},
+																																					pos:        position{line: 691, col: 28, offset: 22222},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22309,12 +22901,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 681, col: 9, offset: 21872},
+																																				pos: position{line: 693, col: 9, offset: 22276},
 																																				run: (*parser).callonLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 681, col: 9, offset: 21872},
+																																					pos: position{line: 693, col: 9, offset: 22276},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 681, col: 9, offset: 21872},
+																																						pos:        position{line: 693, col: 9, offset: 22276},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22331,7 +22923,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 675, col: 79, offset: 21698},
+																												pos:        position{line: 687, col: 79, offset: 22102},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22346,27 +22938,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1211, col: 23, offset: 37656},
+																			pos: position{line: 1223, col: 23, offset: 38060},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1211, col: 23, offset: 37656},
+																				pos: position{line: 1223, col: 23, offset: 38060},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1209, col: 32, offset: 37624},
+																						pos:        position{line: 1221, col: 32, offset: 38028},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1211, col: 51, offset: 37684},
+																						pos:   position{line: 1223, col: 51, offset: 38088},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1211, col: 56, offset: 37689},
+																							pos: position{line: 1223, col: 56, offset: 38093},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1211, col: 56, offset: 37689},
+																								pos: position{line: 1223, col: 56, offset: 38093},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1211, col: 56, offset: 37689},
+																									pos:        position{line: 1223, col: 56, offset: 38093},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22376,23 +22968,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1209, col: 32, offset: 37624},
+																						pos:        position{line: 1221, col: 32, offset: 38028},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1211, col: 123, offset: 37756},
+																						pos: position{line: 1223, col: 123, offset: 38160},
 																						run: (*parser).callonLink116,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2901, col: 11, offset: 91963},
+																			pos: position{line: 2913, col: 11, offset: 92367},
 																			run: (*parser).callonLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 11, offset: 91963},
+																				pos:        position{line: 2913, col: 11, offset: 92367},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22409,7 +23001,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1429, col: 5, offset: 46307},
+									pos:        position{line: 1441, col: 5, offset: 46711},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22418,38 +23010,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1420, col: 19, offset: 46020},
+						pos:  position{line: 1432, col: 19, offset: 46424},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1420, col: 34, offset: 46035},
+						pos:  position{line: 1432, col: 34, offset: 46439},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1458, col: 17, offset: 47300},
+						pos: position{line: 1470, col: 17, offset: 47704},
 						run: (*parser).callonLink122,
 						expr: &seqExpr{
-							pos: position{line: 1458, col: 17, offset: 47300},
+							pos: position{line: 1470, col: 17, offset: 47704},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1458, col: 17, offset: 47300},
+									pos:   position{line: 1470, col: 17, offset: 47704},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1463, col: 5, offset: 47465},
+										pos: position{line: 1475, col: 5, offset: 47869},
 										run: (*parser).callonLink125,
 										expr: &seqExpr{
-											pos: position{line: 1463, col: 5, offset: 47465},
+											pos: position{line: 1475, col: 5, offset: 47869},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1463, col: 5, offset: 47465},
+													pos:   position{line: 1475, col: 5, offset: 47869},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1463, col: 12, offset: 47472},
+														pos: position{line: 1475, col: 12, offset: 47876},
 														run: (*parser).callonLink128,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1463, col: 12, offset: 47472},
+															pos: position{line: 1475, col: 12, offset: 47876},
 															expr: &charClassMatcher{
-																pos:        position{line: 1463, col: 12, offset: 47472},
+																pos:        position{line: 1475, col: 12, offset: 47876},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22461,7 +23053,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1466, col: 5, offset: 47556},
+													pos: position{line: 1478, col: 5, offset: 47960},
 													run: (*parser).callonLink131,
 												},
 											},
@@ -22469,33 +23061,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1458, col: 43, offset: 47326},
+									pos:        position{line: 1470, col: 43, offset: 47730},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1458, col: 47, offset: 47330},
+									pos:   position{line: 1470, col: 47, offset: 47734},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1475, col: 23, offset: 47850},
+										pos: position{line: 1487, col: 23, offset: 48254},
 										run: (*parser).callonLink134,
 										expr: &seqExpr{
-											pos: position{line: 1475, col: 23, offset: 47850},
+											pos: position{line: 1487, col: 23, offset: 48254},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1475, col: 23, offset: 47850},
+													pos:   position{line: 1487, col: 23, offset: 48254},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1475, col: 31, offset: 47858},
+														pos: position{line: 1487, col: 31, offset: 48262},
 														run: (*parser).callonLink137,
 														expr: &seqExpr{
-															pos: position{line: 1475, col: 31, offset: 47858},
+															pos: position{line: 1487, col: 31, offset: 48262},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1475, col: 31, offset: 47858},
+																	pos: position{line: 1487, col: 31, offset: 48262},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1475, col: 31, offset: 47858},
+																		pos:        position{line: 1487, col: 31, offset: 48262},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -22503,20 +23095,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1475, col: 41, offset: 47868},
+																	pos: position{line: 1487, col: 41, offset: 48272},
 																	expr: &seqExpr{
-																		pos: position{line: 1475, col: 42, offset: 47869},
+																		pos: position{line: 1487, col: 42, offset: 48273},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1475, col: 42, offset: 47869},
+																				pos:        position{line: 1487, col: 42, offset: 48273},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1475, col: 46, offset: 47873},
+																				pos: position{line: 1487, col: 46, offset: 48277},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1475, col: 46, offset: 47873},
+																					pos:        position{line: 1487, col: 46, offset: 48277},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22532,7 +23124,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1478, col: 5, offset: 47934},
+													pos: position{line: 1490, col: 5, offset: 48338},
 													run: (*parser).callonLink146,
 												},
 											},
@@ -22547,68 +23139,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1435, col: 1, offset: 46455},
+			pos:  position{line: 1447, col: 1, offset: 46859},
 			expr: &choiceExpr{
-				pos: position{line: 1437, col: 5, offset: 46491},
+				pos: position{line: 1449, col: 5, offset: 46895},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1437, col: 5, offset: 46491},
+						pos: position{line: 1449, col: 5, offset: 46895},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1437, col: 5, offset: 46491},
+							pos: position{line: 1449, col: 5, offset: 46895},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1437, col: 5, offset: 46491},
+									pos:        position{line: 1449, col: 5, offset: 46895},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1437, col: 17, offset: 46503},
+									pos:   position{line: 1449, col: 17, offset: 46907},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2880, col: 13, offset: 91207},
+										pos: position{line: 2892, col: 13, offset: 91611},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2880, col: 13, offset: 91207},
+											pos: position{line: 2892, col: 13, offset: 91611},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2880, col: 13, offset: 91207},
+													pos:   position{line: 2892, col: 13, offset: 91611},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2880, col: 20, offset: 91214},
+														pos: position{line: 2892, col: 20, offset: 91618},
 														expr: &actionExpr{
-															pos: position{line: 2888, col: 11, offset: 91453},
+															pos: position{line: 2900, col: 11, offset: 91857},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2888, col: 12, offset: 91454},
+																pos: position{line: 2900, col: 12, offset: 91858},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 12, offset: 91454},
+																		pos:        position{line: 2900, col: 12, offset: 91858},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 24, offset: 91466},
+																		pos:        position{line: 2900, col: 24, offset: 91870},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 37, offset: 91479},
+																		pos:        position{line: 2900, col: 37, offset: 91883},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 48, offset: 91490},
+																		pos:        position{line: 2900, col: 48, offset: 91894},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 59, offset: 91501},
+																		pos:        position{line: 2900, col: 59, offset: 91905},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22619,38 +23211,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2880, col: 30, offset: 91224},
+													pos:   position{line: 2892, col: 30, offset: 91628},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2893, col: 5, offset: 91565},
+														pos: position{line: 2905, col: 5, offset: 91969},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2893, col: 5, offset: 91565},
+															pos:   position{line: 2905, col: 5, offset: 91969},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2893, col: 14, offset: 91574},
+																pos: position{line: 2905, col: 14, offset: 91978},
 																expr: &choiceExpr{
-																	pos: position{line: 2894, col: 9, offset: 91584},
+																	pos: position{line: 2906, col: 9, offset: 91988},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2894, col: 9, offset: 91584},
+																			pos: position{line: 2906, col: 9, offset: 91988},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2894, col: 9, offset: 91584},
+																				pos: position{line: 2906, col: 9, offset: 91988},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2894, col: 9, offset: 91584},
+																						pos: position{line: 2906, col: 9, offset: 91988},
 																						expr: &litMatcher{
-																							pos:        position{line: 2894, col: 10, offset: 91585},
+																							pos:        position{line: 2906, col: 10, offset: 91989},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2895, col: 9, offset: 91613},
+																						pos: position{line: 2907, col: 9, offset: 92017},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2895, col: 10, offset: 91614},
+																							pos:        position{line: 2907, col: 10, offset: 92018},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22661,27 +23253,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2898, col: 11, offset: 91826},
+																			pos: position{line: 2910, col: 11, offset: 92230},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2898, col: 11, offset: 91826},
+																					pos:        position{line: 2910, col: 11, offset: 92230},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2898, col: 19, offset: 91834},
+																					pos: position{line: 2910, col: 19, offset: 92238},
 																					expr: &seqExpr{
-																						pos: position{line: 2898, col: 21, offset: 91836},
+																						pos: position{line: 2910, col: 21, offset: 92240},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2898, col: 21, offset: 91836},
+																								pos: position{line: 2910, col: 21, offset: 92240},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92448},
+																									pos: position{line: 2934, col: 10, offset: 92852},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92448},
+																										pos:        position{line: 2934, col: 10, offset: 92852},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22690,11 +23282,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2898, col: 28, offset: 91843},
+																								pos: position{line: 2910, col: 28, offset: 92247},
 																								expr: &notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -22704,35 +23296,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 649, col: 5, offset: 20791},
+																			pos: position{line: 661, col: 5, offset: 21195},
 																			run: (*parser).callonRelativeLink38,
 																			expr: &seqExpr{
-																				pos: position{line: 649, col: 5, offset: 20791},
+																				pos: position{line: 661, col: 5, offset: 21195},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 649, col: 5, offset: 20791},
+																						pos: position{line: 661, col: 5, offset: 21195},
 																						run: (*parser).callonRelativeLink40,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 652, col: 5, offset: 20863},
+																						pos:   position{line: 664, col: 5, offset: 21267},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 652, col: 14, offset: 20872},
+																							pos: position{line: 664, col: 14, offset: 21276},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 658, col: 5, offset: 21001},
+																									pos: position{line: 670, col: 5, offset: 21405},
 																									run: (*parser).callonRelativeLink43,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 5, offset: 21001},
+																										pos: position{line: 670, col: 5, offset: 21405},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 5, offset: 21001},
+																												pos:        position{line: 670, col: 5, offset: 21405},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 13, offset: 21009},
+																												pos:   position{line: 670, col: 13, offset: 21413},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22764,7 +23356,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 32, offset: 21028},
+																												pos:        position{line: 670, col: 32, offset: 21432},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22773,19 +23365,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 5, offset: 21269},
+																									pos: position{line: 677, col: 5, offset: 21673},
 																									run: (*parser).callonRelativeLink53,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 5, offset: 21269},
+																										pos: position{line: 677, col: 5, offset: 21673},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 5, offset: 21269},
+																												pos:        position{line: 677, col: 5, offset: 21673},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 9, offset: 21273},
+																												pos:   position{line: 677, col: 9, offset: 21677},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22817,7 +23409,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 28, offset: 21292},
+																												pos:        position{line: 677, col: 28, offset: 21696},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22826,19 +23418,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 671, col: 25, offset: 21473},
+																									pos: position{line: 683, col: 25, offset: 21877},
 																									run: (*parser).callonRelativeLink63,
 																									expr: &seqExpr{
-																										pos: position{line: 671, col: 25, offset: 21473},
+																										pos: position{line: 683, col: 25, offset: 21877},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 671, col: 25, offset: 21473},
+																												pos:        position{line: 683, col: 25, offset: 21877},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 37, offset: 21485},
+																												pos:   position{line: 683, col: 37, offset: 21889},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22870,33 +23462,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 56, offset: 21504},
+																												pos:   position{line: 683, col: 56, offset: 21908},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 671, col: 62, offset: 21510},
+																													pos: position{line: 683, col: 62, offset: 21914},
 																													expr: &actionExpr{
-																														pos: position{line: 679, col: 17, offset: 21807},
+																														pos: position{line: 691, col: 17, offset: 22211},
 																														run: (*parser).callonRelativeLink74,
 																														expr: &seqExpr{
-																															pos: position{line: 679, col: 17, offset: 21807},
+																															pos: position{line: 691, col: 17, offset: 22211},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 679, col: 17, offset: 21807},
+																																	pos:        position{line: 691, col: 17, offset: 22211},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 679, col: 21, offset: 21811},
+																																	pos:   position{line: 691, col: 21, offset: 22215},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 679, col: 28, offset: 21818},
+																																		pos: position{line: 691, col: 28, offset: 22222},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 679, col: 28, offset: 21818},
+																																				pos: position{line: 691, col: 28, offset: 22222},
 																																				run: (*parser).callonRelativeLink79,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 679, col: 28, offset: 21818},
+																																					pos:        position{line: 691, col: 28, offset: 22222},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22904,12 +23496,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 681, col: 9, offset: 21872},
+																																				pos: position{line: 693, col: 9, offset: 22276},
 																																				run: (*parser).callonRelativeLink81,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 681, col: 9, offset: 21872},
+																																					pos: position{line: 693, col: 9, offset: 22276},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 681, col: 9, offset: 21872},
+																																						pos:        position{line: 693, col: 9, offset: 22276},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22926,7 +23518,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 671, col: 78, offset: 21526},
+																												pos:        position{line: 683, col: 78, offset: 21930},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22935,19 +23527,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 675, col: 25, offset: 21644},
+																									pos: position{line: 687, col: 25, offset: 22048},
 																									run: (*parser).callonRelativeLink85,
 																									expr: &seqExpr{
-																										pos: position{line: 675, col: 25, offset: 21644},
+																										pos: position{line: 687, col: 25, offset: 22048},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 675, col: 25, offset: 21644},
+																												pos:        position{line: 687, col: 25, offset: 22048},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 675, col: 38, offset: 21657},
+																												pos:   position{line: 687, col: 38, offset: 22061},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22979,33 +23571,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 675, col: 57, offset: 21676},
+																												pos:   position{line: 687, col: 57, offset: 22080},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 675, col: 63, offset: 21682},
+																													pos: position{line: 687, col: 63, offset: 22086},
 																													expr: &actionExpr{
-																														pos: position{line: 679, col: 17, offset: 21807},
+																														pos: position{line: 691, col: 17, offset: 22211},
 																														run: (*parser).callonRelativeLink96,
 																														expr: &seqExpr{
-																															pos: position{line: 679, col: 17, offset: 21807},
+																															pos: position{line: 691, col: 17, offset: 22211},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 679, col: 17, offset: 21807},
+																																	pos:        position{line: 691, col: 17, offset: 22211},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 679, col: 21, offset: 21811},
+																																	pos:   position{line: 691, col: 21, offset: 22215},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 679, col: 28, offset: 21818},
+																																		pos: position{line: 691, col: 28, offset: 22222},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 679, col: 28, offset: 21818},
+																																				pos: position{line: 691, col: 28, offset: 22222},
 																																				run: (*parser).callonRelativeLink101,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 679, col: 28, offset: 21818},
+																																					pos:        position{line: 691, col: 28, offset: 22222},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23013,12 +23605,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 681, col: 9, offset: 21872},
+																																				pos: position{line: 693, col: 9, offset: 22276},
 																																				run: (*parser).callonRelativeLink103,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 681, col: 9, offset: 21872},
+																																					pos: position{line: 693, col: 9, offset: 22276},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 681, col: 9, offset: 21872},
+																																						pos:        position{line: 693, col: 9, offset: 22276},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23035,7 +23627,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 675, col: 79, offset: 21698},
+																												pos:        position{line: 687, col: 79, offset: 22102},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23050,27 +23642,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1211, col: 23, offset: 37656},
+																			pos: position{line: 1223, col: 23, offset: 38060},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1211, col: 23, offset: 37656},
+																				pos: position{line: 1223, col: 23, offset: 38060},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1209, col: 32, offset: 37624},
+																						pos:        position{line: 1221, col: 32, offset: 38028},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1211, col: 51, offset: 37684},
+																						pos:   position{line: 1223, col: 51, offset: 38088},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1211, col: 56, offset: 37689},
+																							pos: position{line: 1223, col: 56, offset: 38093},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1211, col: 56, offset: 37689},
+																								pos: position{line: 1223, col: 56, offset: 38093},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1211, col: 56, offset: 37689},
+																									pos:        position{line: 1223, col: 56, offset: 38093},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23080,23 +23672,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1209, col: 32, offset: 37624},
+																						pos:        position{line: 1221, col: 32, offset: 38028},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1211, col: 123, offset: 37756},
+																						pos: position{line: 1223, col: 123, offset: 38160},
 																						run: (*parser).callonRelativeLink115,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2901, col: 11, offset: 91963},
+																			pos: position{line: 2913, col: 11, offset: 92367},
 																			run: (*parser).callonRelativeLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 11, offset: 91963},
+																				pos:        position{line: 2913, col: 11, offset: 92367},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23113,10 +23705,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1437, col: 32, offset: 46518},
+									pos:   position{line: 1449, col: 32, offset: 46922},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1437, col: 44, offset: 46530},
+										pos:  position{line: 1449, col: 44, offset: 46934},
 										name: "InlineAttributes",
 									},
 								},
@@ -23124,63 +23716,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1442, col: 5, offset: 46662},
+						pos: position{line: 1454, col: 5, offset: 47066},
 						run: (*parser).callonRelativeLink120,
 						expr: &seqExpr{
-							pos: position{line: 1442, col: 5, offset: 46662},
+							pos: position{line: 1454, col: 5, offset: 47066},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1442, col: 5, offset: 46662},
+									pos:        position{line: 1454, col: 5, offset: 47066},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1442, col: 13, offset: 46670},
+									pos:   position{line: 1454, col: 13, offset: 47074},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2880, col: 13, offset: 91207},
+										pos: position{line: 2892, col: 13, offset: 91611},
 										run: (*parser).callonRelativeLink124,
 										expr: &seqExpr{
-											pos: position{line: 2880, col: 13, offset: 91207},
+											pos: position{line: 2892, col: 13, offset: 91611},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2880, col: 13, offset: 91207},
+													pos:   position{line: 2892, col: 13, offset: 91611},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2880, col: 20, offset: 91214},
+														pos: position{line: 2892, col: 20, offset: 91618},
 														expr: &actionExpr{
-															pos: position{line: 2888, col: 11, offset: 91453},
+															pos: position{line: 2900, col: 11, offset: 91857},
 															run: (*parser).callonRelativeLink128,
 															expr: &choiceExpr{
-																pos: position{line: 2888, col: 12, offset: 91454},
+																pos: position{line: 2900, col: 12, offset: 91858},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 12, offset: 91454},
+																		pos:        position{line: 2900, col: 12, offset: 91858},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 24, offset: 91466},
+																		pos:        position{line: 2900, col: 24, offset: 91870},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 37, offset: 91479},
+																		pos:        position{line: 2900, col: 37, offset: 91883},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 48, offset: 91490},
+																		pos:        position{line: 2900, col: 48, offset: 91894},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2888, col: 59, offset: 91501},
+																		pos:        position{line: 2900, col: 59, offset: 91905},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23191,38 +23783,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2880, col: 30, offset: 91224},
+													pos:   position{line: 2892, col: 30, offset: 91628},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2893, col: 5, offset: 91565},
+														pos: position{line: 2905, col: 5, offset: 91969},
 														run: (*parser).callonRelativeLink136,
 														expr: &labeledExpr{
-															pos:   position{line: 2893, col: 5, offset: 91565},
+															pos:   position{line: 2905, col: 5, offset: 91969},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2893, col: 14, offset: 91574},
+																pos: position{line: 2905, col: 14, offset: 91978},
 																expr: &choiceExpr{
-																	pos: position{line: 2894, col: 9, offset: 91584},
+																	pos: position{line: 2906, col: 9, offset: 91988},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2894, col: 9, offset: 91584},
+																			pos: position{line: 2906, col: 9, offset: 91988},
 																			run: (*parser).callonRelativeLink140,
 																			expr: &seqExpr{
-																				pos: position{line: 2894, col: 9, offset: 91584},
+																				pos: position{line: 2906, col: 9, offset: 91988},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2894, col: 9, offset: 91584},
+																						pos: position{line: 2906, col: 9, offset: 91988},
 																						expr: &litMatcher{
-																							pos:        position{line: 2894, col: 10, offset: 91585},
+																							pos:        position{line: 2906, col: 10, offset: 91989},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2895, col: 9, offset: 91613},
+																						pos: position{line: 2907, col: 9, offset: 92017},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2895, col: 10, offset: 91614},
+																							pos:        position{line: 2907, col: 10, offset: 92018},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23233,27 +23825,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2898, col: 11, offset: 91826},
+																			pos: position{line: 2910, col: 11, offset: 92230},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2898, col: 11, offset: 91826},
+																					pos:        position{line: 2910, col: 11, offset: 92230},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2898, col: 19, offset: 91834},
+																					pos: position{line: 2910, col: 19, offset: 92238},
 																					expr: &seqExpr{
-																						pos: position{line: 2898, col: 21, offset: 91836},
+																						pos: position{line: 2910, col: 21, offset: 92240},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2898, col: 21, offset: 91836},
+																								pos: position{line: 2910, col: 21, offset: 92240},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92448},
+																									pos: position{line: 2934, col: 10, offset: 92852},
 																									run: (*parser).callonRelativeLink151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92448},
+																										pos:        position{line: 2934, col: 10, offset: 92852},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23262,11 +23854,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2898, col: 28, offset: 91843},
+																								pos: position{line: 2910, col: 28, offset: 92247},
 																								expr: &notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -23276,35 +23868,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 649, col: 5, offset: 20791},
+																			pos: position{line: 661, col: 5, offset: 21195},
 																			run: (*parser).callonRelativeLink156,
 																			expr: &seqExpr{
-																				pos: position{line: 649, col: 5, offset: 20791},
+																				pos: position{line: 661, col: 5, offset: 21195},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 649, col: 5, offset: 20791},
+																						pos: position{line: 661, col: 5, offset: 21195},
 																						run: (*parser).callonRelativeLink158,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 652, col: 5, offset: 20863},
+																						pos:   position{line: 664, col: 5, offset: 21267},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 652, col: 14, offset: 20872},
+																							pos: position{line: 664, col: 14, offset: 21276},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 658, col: 5, offset: 21001},
+																									pos: position{line: 670, col: 5, offset: 21405},
 																									run: (*parser).callonRelativeLink161,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 5, offset: 21001},
+																										pos: position{line: 670, col: 5, offset: 21405},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 5, offset: 21001},
+																												pos:        position{line: 670, col: 5, offset: 21405},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 13, offset: 21009},
+																												pos:   position{line: 670, col: 13, offset: 21413},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23336,7 +23928,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 32, offset: 21028},
+																												pos:        position{line: 670, col: 32, offset: 21432},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23345,19 +23937,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 5, offset: 21269},
+																									pos: position{line: 677, col: 5, offset: 21673},
 																									run: (*parser).callonRelativeLink171,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 5, offset: 21269},
+																										pos: position{line: 677, col: 5, offset: 21673},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 5, offset: 21269},
+																												pos:        position{line: 677, col: 5, offset: 21673},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 9, offset: 21273},
+																												pos:   position{line: 677, col: 9, offset: 21677},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23389,7 +23981,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 28, offset: 21292},
+																												pos:        position{line: 677, col: 28, offset: 21696},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23398,19 +23990,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 671, col: 25, offset: 21473},
+																									pos: position{line: 683, col: 25, offset: 21877},
 																									run: (*parser).callonRelativeLink181,
 																									expr: &seqExpr{
-																										pos: position{line: 671, col: 25, offset: 21473},
+																										pos: position{line: 683, col: 25, offset: 21877},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 671, col: 25, offset: 21473},
+																												pos:        position{line: 683, col: 25, offset: 21877},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 37, offset: 21485},
+																												pos:   position{line: 683, col: 37, offset: 21889},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23442,33 +24034,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 56, offset: 21504},
+																												pos:   position{line: 683, col: 56, offset: 21908},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 671, col: 62, offset: 21510},
+																													pos: position{line: 683, col: 62, offset: 21914},
 																													expr: &actionExpr{
-																														pos: position{line: 679, col: 17, offset: 21807},
+																														pos: position{line: 691, col: 17, offset: 22211},
 																														run: (*parser).callonRelativeLink192,
 																														expr: &seqExpr{
-																															pos: position{line: 679, col: 17, offset: 21807},
+																															pos: position{line: 691, col: 17, offset: 22211},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 679, col: 17, offset: 21807},
+																																	pos:        position{line: 691, col: 17, offset: 22211},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 679, col: 21, offset: 21811},
+																																	pos:   position{line: 691, col: 21, offset: 22215},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 679, col: 28, offset: 21818},
+																																		pos: position{line: 691, col: 28, offset: 22222},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 679, col: 28, offset: 21818},
+																																				pos: position{line: 691, col: 28, offset: 22222},
 																																				run: (*parser).callonRelativeLink197,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 679, col: 28, offset: 21818},
+																																					pos:        position{line: 691, col: 28, offset: 22222},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23476,12 +24068,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 681, col: 9, offset: 21872},
+																																				pos: position{line: 693, col: 9, offset: 22276},
 																																				run: (*parser).callonRelativeLink199,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 681, col: 9, offset: 21872},
+																																					pos: position{line: 693, col: 9, offset: 22276},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 681, col: 9, offset: 21872},
+																																						pos:        position{line: 693, col: 9, offset: 22276},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23498,7 +24090,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 671, col: 78, offset: 21526},
+																												pos:        position{line: 683, col: 78, offset: 21930},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23507,19 +24099,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 675, col: 25, offset: 21644},
+																									pos: position{line: 687, col: 25, offset: 22048},
 																									run: (*parser).callonRelativeLink203,
 																									expr: &seqExpr{
-																										pos: position{line: 675, col: 25, offset: 21644},
+																										pos: position{line: 687, col: 25, offset: 22048},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 675, col: 25, offset: 21644},
+																												pos:        position{line: 687, col: 25, offset: 22048},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 675, col: 38, offset: 21657},
+																												pos:   position{line: 687, col: 38, offset: 22061},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23551,33 +24143,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 675, col: 57, offset: 21676},
+																												pos:   position{line: 687, col: 57, offset: 22080},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 675, col: 63, offset: 21682},
+																													pos: position{line: 687, col: 63, offset: 22086},
 																													expr: &actionExpr{
-																														pos: position{line: 679, col: 17, offset: 21807},
+																														pos: position{line: 691, col: 17, offset: 22211},
 																														run: (*parser).callonRelativeLink214,
 																														expr: &seqExpr{
-																															pos: position{line: 679, col: 17, offset: 21807},
+																															pos: position{line: 691, col: 17, offset: 22211},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 679, col: 17, offset: 21807},
+																																	pos:        position{line: 691, col: 17, offset: 22211},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 679, col: 21, offset: 21811},
+																																	pos:   position{line: 691, col: 21, offset: 22215},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 679, col: 28, offset: 21818},
+																																		pos: position{line: 691, col: 28, offset: 22222},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 679, col: 28, offset: 21818},
+																																				pos: position{line: 691, col: 28, offset: 22222},
 																																				run: (*parser).callonRelativeLink219,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 679, col: 28, offset: 21818},
+																																					pos:        position{line: 691, col: 28, offset: 22222},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23585,12 +24177,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 681, col: 9, offset: 21872},
+																																				pos: position{line: 693, col: 9, offset: 22276},
 																																				run: (*parser).callonRelativeLink221,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 681, col: 9, offset: 21872},
+																																					pos: position{line: 693, col: 9, offset: 22276},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 681, col: 9, offset: 21872},
+																																						pos:        position{line: 693, col: 9, offset: 22276},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23607,7 +24199,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 675, col: 79, offset: 21698},
+																												pos:        position{line: 687, col: 79, offset: 22102},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23622,27 +24214,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1211, col: 23, offset: 37656},
+																			pos: position{line: 1223, col: 23, offset: 38060},
 																			run: (*parser).callonRelativeLink225,
 																			expr: &seqExpr{
-																				pos: position{line: 1211, col: 23, offset: 37656},
+																				pos: position{line: 1223, col: 23, offset: 38060},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1209, col: 32, offset: 37624},
+																						pos:        position{line: 1221, col: 32, offset: 38028},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1211, col: 51, offset: 37684},
+																						pos:   position{line: 1223, col: 51, offset: 38088},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1211, col: 56, offset: 37689},
+																							pos: position{line: 1223, col: 56, offset: 38093},
 																							run: (*parser).callonRelativeLink229,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1211, col: 56, offset: 37689},
+																								pos: position{line: 1223, col: 56, offset: 38093},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1211, col: 56, offset: 37689},
+																									pos:        position{line: 1223, col: 56, offset: 38093},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23652,23 +24244,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1209, col: 32, offset: 37624},
+																						pos:        position{line: 1221, col: 32, offset: 38028},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1211, col: 123, offset: 37756},
+																						pos: position{line: 1223, col: 123, offset: 38160},
 																						run: (*parser).callonRelativeLink233,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2901, col: 11, offset: 91963},
+																			pos: position{line: 2913, col: 11, offset: 92367},
 																			run: (*parser).callonRelativeLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 11, offset: 91963},
+																				pos:        position{line: 2913, col: 11, offset: 92367},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23685,10 +24277,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1442, col: 28, offset: 46685},
+									pos:   position{line: 1454, col: 28, offset: 47089},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1442, col: 40, offset: 46697},
+										pos:  position{line: 1454, col: 40, offset: 47101},
 										name: "InlineAttributes",
 									},
 								},
@@ -23700,75 +24292,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1446, col: 1, offset: 46813},
+			pos:  position{line: 1458, col: 1, offset: 47217},
 			expr: &choiceExpr{
-				pos: position{line: 1449, col: 5, offset: 46975},
+				pos: position{line: 1461, col: 5, offset: 47379},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1449, col: 5, offset: 46975},
+						pos: position{line: 1461, col: 5, offset: 47379},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1449, col: 5, offset: 46975},
+							pos: position{line: 1461, col: 5, offset: 47379},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1449, col: 5, offset: 46975},
+									pos:        position{line: 1461, col: 5, offset: 47379},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1449, col: 9, offset: 46979},
+									pos:   position{line: 1461, col: 9, offset: 47383},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2884, col: 23, offset: 91334},
+										pos: position{line: 2896, col: 23, offset: 91738},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2884, col: 23, offset: 91334},
+											pos: position{line: 2896, col: 23, offset: 91738},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2884, col: 23, offset: 91334},
+													pos: position{line: 2896, col: 23, offset: 91738},
 													expr: &litMatcher{
-														pos:        position{line: 2884, col: 24, offset: 91335},
+														pos:        position{line: 2896, col: 24, offset: 91739},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2884, col: 28, offset: 91339},
+													pos:   position{line: 2896, col: 28, offset: 91743},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 11, offset: 91453},
+														pos: position{line: 2900, col: 11, offset: 91857},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2888, col: 12, offset: 91454},
+															pos: position{line: 2900, col: 12, offset: 91858},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2888, col: 12, offset: 91454},
+																	pos:        position{line: 2900, col: 12, offset: 91858},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 24, offset: 91466},
+																	pos:        position{line: 2900, col: 24, offset: 91870},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 37, offset: 91479},
+																	pos:        position{line: 2900, col: 37, offset: 91883},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 48, offset: 91490},
+																	pos:        position{line: 2900, col: 48, offset: 91894},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 59, offset: 91501},
+																	pos:        position{line: 2900, col: 59, offset: 91905},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23778,38 +24370,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2884, col: 44, offset: 91355},
+													pos:   position{line: 2896, col: 44, offset: 91759},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2893, col: 5, offset: 91565},
+														pos: position{line: 2905, col: 5, offset: 91969},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2893, col: 5, offset: 91565},
+															pos:   position{line: 2905, col: 5, offset: 91969},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2893, col: 14, offset: 91574},
+																pos: position{line: 2905, col: 14, offset: 91978},
 																expr: &choiceExpr{
-																	pos: position{line: 2894, col: 9, offset: 91584},
+																	pos: position{line: 2906, col: 9, offset: 91988},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2894, col: 9, offset: 91584},
+																			pos: position{line: 2906, col: 9, offset: 91988},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2894, col: 9, offset: 91584},
+																				pos: position{line: 2906, col: 9, offset: 91988},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2894, col: 9, offset: 91584},
+																						pos: position{line: 2906, col: 9, offset: 91988},
 																						expr: &litMatcher{
-																							pos:        position{line: 2894, col: 10, offset: 91585},
+																							pos:        position{line: 2906, col: 10, offset: 91989},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2895, col: 9, offset: 91613},
+																						pos: position{line: 2907, col: 9, offset: 92017},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2895, col: 10, offset: 91614},
+																							pos:        position{line: 2907, col: 10, offset: 92018},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23820,27 +24412,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2898, col: 11, offset: 91826},
+																			pos: position{line: 2910, col: 11, offset: 92230},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2898, col: 11, offset: 91826},
+																					pos:        position{line: 2910, col: 11, offset: 92230},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2898, col: 19, offset: 91834},
+																					pos: position{line: 2910, col: 19, offset: 92238},
 																					expr: &seqExpr{
-																						pos: position{line: 2898, col: 21, offset: 91836},
+																						pos: position{line: 2910, col: 21, offset: 92240},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2898, col: 21, offset: 91836},
+																								pos: position{line: 2910, col: 21, offset: 92240},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92448},
+																									pos: position{line: 2934, col: 10, offset: 92852},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92448},
+																										pos:        position{line: 2934, col: 10, offset: 92852},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23849,11 +24441,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2898, col: 28, offset: 91843},
+																								pos: position{line: 2910, col: 28, offset: 92247},
 																								expr: &notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -23863,35 +24455,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 649, col: 5, offset: 20791},
+																			pos: position{line: 661, col: 5, offset: 21195},
 																			run: (*parser).callonExternalLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 649, col: 5, offset: 20791},
+																				pos: position{line: 661, col: 5, offset: 21195},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 649, col: 5, offset: 20791},
+																						pos: position{line: 661, col: 5, offset: 21195},
 																						run: (*parser).callonExternalLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 652, col: 5, offset: 20863},
+																						pos:   position{line: 664, col: 5, offset: 21267},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 652, col: 14, offset: 20872},
+																							pos: position{line: 664, col: 14, offset: 21276},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 658, col: 5, offset: 21001},
+																									pos: position{line: 670, col: 5, offset: 21405},
 																									run: (*parser).callonExternalLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 5, offset: 21001},
+																										pos: position{line: 670, col: 5, offset: 21405},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 5, offset: 21001},
+																												pos:        position{line: 670, col: 5, offset: 21405},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 13, offset: 21009},
+																												pos:   position{line: 670, col: 13, offset: 21413},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23923,7 +24515,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 32, offset: 21028},
+																												pos:        position{line: 670, col: 32, offset: 21432},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23932,19 +24524,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 5, offset: 21269},
+																									pos: position{line: 677, col: 5, offset: 21673},
 																									run: (*parser).callonExternalLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 5, offset: 21269},
+																										pos: position{line: 677, col: 5, offset: 21673},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 5, offset: 21269},
+																												pos:        position{line: 677, col: 5, offset: 21673},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 9, offset: 21273},
+																												pos:   position{line: 677, col: 9, offset: 21677},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23976,7 +24568,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 28, offset: 21292},
+																												pos:        position{line: 677, col: 28, offset: 21696},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23985,19 +24577,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 671, col: 25, offset: 21473},
+																									pos: position{line: 683, col: 25, offset: 21877},
 																									run: (*parser).callonExternalLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 671, col: 25, offset: 21473},
+																										pos: position{line: 683, col: 25, offset: 21877},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 671, col: 25, offset: 21473},
+																												pos:        position{line: 683, col: 25, offset: 21877},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 37, offset: 21485},
+																												pos:   position{line: 683, col: 37, offset: 21889},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24029,33 +24621,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 56, offset: 21504},
+																												pos:   position{line: 683, col: 56, offset: 21908},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 671, col: 62, offset: 21510},
+																													pos: position{line: 683, col: 62, offset: 21914},
 																													expr: &actionExpr{
-																														pos: position{line: 679, col: 17, offset: 21807},
+																														pos: position{line: 691, col: 17, offset: 22211},
 																														run: (*parser).callonExternalLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 679, col: 17, offset: 21807},
+																															pos: position{line: 691, col: 17, offset: 22211},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 679, col: 17, offset: 21807},
+																																	pos:        position{line: 691, col: 17, offset: 22211},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 679, col: 21, offset: 21811},
+																																	pos:   position{line: 691, col: 21, offset: 22215},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 679, col: 28, offset: 21818},
+																																		pos: position{line: 691, col: 28, offset: 22222},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 679, col: 28, offset: 21818},
+																																				pos: position{line: 691, col: 28, offset: 22222},
 																																				run: (*parser).callonExternalLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 679, col: 28, offset: 21818},
+																																					pos:        position{line: 691, col: 28, offset: 22222},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24063,12 +24655,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 681, col: 9, offset: 21872},
+																																				pos: position{line: 693, col: 9, offset: 22276},
 																																				run: (*parser).callonExternalLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 681, col: 9, offset: 21872},
+																																					pos: position{line: 693, col: 9, offset: 22276},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 681, col: 9, offset: 21872},
+																																						pos:        position{line: 693, col: 9, offset: 22276},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24085,7 +24677,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 671, col: 78, offset: 21526},
+																												pos:        position{line: 683, col: 78, offset: 21930},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24094,19 +24686,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 675, col: 25, offset: 21644},
+																									pos: position{line: 687, col: 25, offset: 22048},
 																									run: (*parser).callonExternalLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 675, col: 25, offset: 21644},
+																										pos: position{line: 687, col: 25, offset: 22048},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 675, col: 25, offset: 21644},
+																												pos:        position{line: 687, col: 25, offset: 22048},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 675, col: 38, offset: 21657},
+																												pos:   position{line: 687, col: 38, offset: 22061},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24138,33 +24730,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 675, col: 57, offset: 21676},
+																												pos:   position{line: 687, col: 57, offset: 22080},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 675, col: 63, offset: 21682},
+																													pos: position{line: 687, col: 63, offset: 22086},
 																													expr: &actionExpr{
-																														pos: position{line: 679, col: 17, offset: 21807},
+																														pos: position{line: 691, col: 17, offset: 22211},
 																														run: (*parser).callonExternalLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 679, col: 17, offset: 21807},
+																															pos: position{line: 691, col: 17, offset: 22211},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 679, col: 17, offset: 21807},
+																																	pos:        position{line: 691, col: 17, offset: 22211},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 679, col: 21, offset: 21811},
+																																	pos:   position{line: 691, col: 21, offset: 22215},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 679, col: 28, offset: 21818},
+																																		pos: position{line: 691, col: 28, offset: 22222},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 679, col: 28, offset: 21818},
+																																				pos: position{line: 691, col: 28, offset: 22222},
 																																				run: (*parser).callonExternalLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 679, col: 28, offset: 21818},
+																																					pos:        position{line: 691, col: 28, offset: 22222},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24172,12 +24764,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 681, col: 9, offset: 21872},
+																																				pos: position{line: 693, col: 9, offset: 22276},
 																																				run: (*parser).callonExternalLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 681, col: 9, offset: 21872},
+																																					pos: position{line: 693, col: 9, offset: 22276},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 681, col: 9, offset: 21872},
+																																						pos:        position{line: 693, col: 9, offset: 22276},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24194,7 +24786,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 675, col: 79, offset: 21698},
+																												pos:        position{line: 687, col: 79, offset: 22102},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24209,27 +24801,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1211, col: 23, offset: 37656},
+																			pos: position{line: 1223, col: 23, offset: 38060},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1211, col: 23, offset: 37656},
+																				pos: position{line: 1223, col: 23, offset: 38060},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1209, col: 32, offset: 37624},
+																						pos:        position{line: 1221, col: 32, offset: 38028},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1211, col: 51, offset: 37684},
+																						pos:   position{line: 1223, col: 51, offset: 38088},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1211, col: 56, offset: 37689},
+																							pos: position{line: 1223, col: 56, offset: 38093},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1211, col: 56, offset: 37689},
+																								pos: position{line: 1223, col: 56, offset: 38093},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1211, col: 56, offset: 37689},
+																									pos:        position{line: 1223, col: 56, offset: 38093},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24239,23 +24831,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1209, col: 32, offset: 37624},
+																						pos:        position{line: 1221, col: 32, offset: 38028},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1211, col: 123, offset: 37756},
+																						pos: position{line: 1223, col: 123, offset: 38160},
 																						run: (*parser).callonExternalLink116,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2901, col: 11, offset: 91963},
+																			pos: position{line: 2913, col: 11, offset: 92367},
 																			run: (*parser).callonExternalLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 11, offset: 91963},
+																				pos:        position{line: 2913, col: 11, offset: 92367},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24272,12 +24864,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1449, col: 34, offset: 47004},
+									pos:   position{line: 1461, col: 34, offset: 47408},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1449, col: 45, offset: 47015},
+										pos: position{line: 1461, col: 45, offset: 47419},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1449, col: 46, offset: 47016},
+											pos:  position{line: 1461, col: 46, offset: 47420},
 											name: "InlineAttributes",
 										},
 									},
@@ -24286,64 +24878,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1454, col: 5, offset: 47149},
+						pos: position{line: 1466, col: 5, offset: 47553},
 						run: (*parser).callonExternalLink122,
 						expr: &seqExpr{
-							pos: position{line: 1454, col: 5, offset: 47149},
+							pos: position{line: 1466, col: 5, offset: 47553},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1454, col: 5, offset: 47149},
+									pos:   position{line: 1466, col: 5, offset: 47553},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2884, col: 23, offset: 91334},
+										pos: position{line: 2896, col: 23, offset: 91738},
 										run: (*parser).callonExternalLink125,
 										expr: &seqExpr{
-											pos: position{line: 2884, col: 23, offset: 91334},
+											pos: position{line: 2896, col: 23, offset: 91738},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2884, col: 23, offset: 91334},
+													pos: position{line: 2896, col: 23, offset: 91738},
 													expr: &litMatcher{
-														pos:        position{line: 2884, col: 24, offset: 91335},
+														pos:        position{line: 2896, col: 24, offset: 91739},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2884, col: 28, offset: 91339},
+													pos:   position{line: 2896, col: 28, offset: 91743},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 11, offset: 91453},
+														pos: position{line: 2900, col: 11, offset: 91857},
 														run: (*parser).callonExternalLink130,
 														expr: &choiceExpr{
-															pos: position{line: 2888, col: 12, offset: 91454},
+															pos: position{line: 2900, col: 12, offset: 91858},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2888, col: 12, offset: 91454},
+																	pos:        position{line: 2900, col: 12, offset: 91858},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 24, offset: 91466},
+																	pos:        position{line: 2900, col: 24, offset: 91870},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 37, offset: 91479},
+																	pos:        position{line: 2900, col: 37, offset: 91883},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 48, offset: 91490},
+																	pos:        position{line: 2900, col: 48, offset: 91894},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2888, col: 59, offset: 91501},
+																	pos:        position{line: 2900, col: 59, offset: 91905},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24353,38 +24945,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2884, col: 44, offset: 91355},
+													pos:   position{line: 2896, col: 44, offset: 91759},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2893, col: 5, offset: 91565},
+														pos: position{line: 2905, col: 5, offset: 91969},
 														run: (*parser).callonExternalLink138,
 														expr: &labeledExpr{
-															pos:   position{line: 2893, col: 5, offset: 91565},
+															pos:   position{line: 2905, col: 5, offset: 91969},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2893, col: 14, offset: 91574},
+																pos: position{line: 2905, col: 14, offset: 91978},
 																expr: &choiceExpr{
-																	pos: position{line: 2894, col: 9, offset: 91584},
+																	pos: position{line: 2906, col: 9, offset: 91988},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2894, col: 9, offset: 91584},
+																			pos: position{line: 2906, col: 9, offset: 91988},
 																			run: (*parser).callonExternalLink142,
 																			expr: &seqExpr{
-																				pos: position{line: 2894, col: 9, offset: 91584},
+																				pos: position{line: 2906, col: 9, offset: 91988},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2894, col: 9, offset: 91584},
+																						pos: position{line: 2906, col: 9, offset: 91988},
 																						expr: &litMatcher{
-																							pos:        position{line: 2894, col: 10, offset: 91585},
+																							pos:        position{line: 2906, col: 10, offset: 91989},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2895, col: 9, offset: 91613},
+																						pos: position{line: 2907, col: 9, offset: 92017},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2895, col: 10, offset: 91614},
+																							pos:        position{line: 2907, col: 10, offset: 92018},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24395,27 +24987,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2898, col: 11, offset: 91826},
+																			pos: position{line: 2910, col: 11, offset: 92230},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2898, col: 11, offset: 91826},
+																					pos:        position{line: 2910, col: 11, offset: 92230},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2898, col: 19, offset: 91834},
+																					pos: position{line: 2910, col: 19, offset: 92238},
 																					expr: &seqExpr{
-																						pos: position{line: 2898, col: 21, offset: 91836},
+																						pos: position{line: 2910, col: 21, offset: 92240},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2898, col: 21, offset: 91836},
+																								pos: position{line: 2910, col: 21, offset: 92240},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92448},
+																									pos: position{line: 2934, col: 10, offset: 92852},
 																									run: (*parser).callonExternalLink153,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92448},
+																										pos:        position{line: 2934, col: 10, offset: 92852},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24424,11 +25016,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2898, col: 28, offset: 91843},
+																								pos: position{line: 2910, col: 28, offset: 92247},
 																								expr: &notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -24438,35 +25030,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 649, col: 5, offset: 20791},
+																			pos: position{line: 661, col: 5, offset: 21195},
 																			run: (*parser).callonExternalLink158,
 																			expr: &seqExpr{
-																				pos: position{line: 649, col: 5, offset: 20791},
+																				pos: position{line: 661, col: 5, offset: 21195},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 649, col: 5, offset: 20791},
+																						pos: position{line: 661, col: 5, offset: 21195},
 																						run: (*parser).callonExternalLink160,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 652, col: 5, offset: 20863},
+																						pos:   position{line: 664, col: 5, offset: 21267},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 652, col: 14, offset: 20872},
+																							pos: position{line: 664, col: 14, offset: 21276},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 658, col: 5, offset: 21001},
+																									pos: position{line: 670, col: 5, offset: 21405},
 																									run: (*parser).callonExternalLink163,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 5, offset: 21001},
+																										pos: position{line: 670, col: 5, offset: 21405},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 5, offset: 21001},
+																												pos:        position{line: 670, col: 5, offset: 21405},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 13, offset: 21009},
+																												pos:   position{line: 670, col: 13, offset: 21413},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24498,7 +25090,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 32, offset: 21028},
+																												pos:        position{line: 670, col: 32, offset: 21432},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24507,19 +25099,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 5, offset: 21269},
+																									pos: position{line: 677, col: 5, offset: 21673},
 																									run: (*parser).callonExternalLink173,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 5, offset: 21269},
+																										pos: position{line: 677, col: 5, offset: 21673},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 5, offset: 21269},
+																												pos:        position{line: 677, col: 5, offset: 21673},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 9, offset: 21273},
+																												pos:   position{line: 677, col: 9, offset: 21677},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24551,7 +25143,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 28, offset: 21292},
+																												pos:        position{line: 677, col: 28, offset: 21696},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24560,19 +25152,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 671, col: 25, offset: 21473},
+																									pos: position{line: 683, col: 25, offset: 21877},
 																									run: (*parser).callonExternalLink183,
 																									expr: &seqExpr{
-																										pos: position{line: 671, col: 25, offset: 21473},
+																										pos: position{line: 683, col: 25, offset: 21877},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 671, col: 25, offset: 21473},
+																												pos:        position{line: 683, col: 25, offset: 21877},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 37, offset: 21485},
+																												pos:   position{line: 683, col: 37, offset: 21889},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24604,33 +25196,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 671, col: 56, offset: 21504},
+																												pos:   position{line: 683, col: 56, offset: 21908},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 671, col: 62, offset: 21510},
+																													pos: position{line: 683, col: 62, offset: 21914},
 																													expr: &actionExpr{
-																														pos: position{line: 679, col: 17, offset: 21807},
+																														pos: position{line: 691, col: 17, offset: 22211},
 																														run: (*parser).callonExternalLink194,
 																														expr: &seqExpr{
-																															pos: position{line: 679, col: 17, offset: 21807},
+																															pos: position{line: 691, col: 17, offset: 22211},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 679, col: 17, offset: 21807},
+																																	pos:        position{line: 691, col: 17, offset: 22211},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 679, col: 21, offset: 21811},
+																																	pos:   position{line: 691, col: 21, offset: 22215},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 679, col: 28, offset: 21818},
+																																		pos: position{line: 691, col: 28, offset: 22222},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 679, col: 28, offset: 21818},
+																																				pos: position{line: 691, col: 28, offset: 22222},
 																																				run: (*parser).callonExternalLink199,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 679, col: 28, offset: 21818},
+																																					pos:        position{line: 691, col: 28, offset: 22222},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24638,12 +25230,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 681, col: 9, offset: 21872},
+																																				pos: position{line: 693, col: 9, offset: 22276},
 																																				run: (*parser).callonExternalLink201,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 681, col: 9, offset: 21872},
+																																					pos: position{line: 693, col: 9, offset: 22276},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 681, col: 9, offset: 21872},
+																																						pos:        position{line: 693, col: 9, offset: 22276},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24660,7 +25252,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 671, col: 78, offset: 21526},
+																												pos:        position{line: 683, col: 78, offset: 21930},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24669,19 +25261,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 675, col: 25, offset: 21644},
+																									pos: position{line: 687, col: 25, offset: 22048},
 																									run: (*parser).callonExternalLink205,
 																									expr: &seqExpr{
-																										pos: position{line: 675, col: 25, offset: 21644},
+																										pos: position{line: 687, col: 25, offset: 22048},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 675, col: 25, offset: 21644},
+																												pos:        position{line: 687, col: 25, offset: 22048},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 675, col: 38, offset: 21657},
+																												pos:   position{line: 687, col: 38, offset: 22061},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24713,33 +25305,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 675, col: 57, offset: 21676},
+																												pos:   position{line: 687, col: 57, offset: 22080},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 675, col: 63, offset: 21682},
+																													pos: position{line: 687, col: 63, offset: 22086},
 																													expr: &actionExpr{
-																														pos: position{line: 679, col: 17, offset: 21807},
+																														pos: position{line: 691, col: 17, offset: 22211},
 																														run: (*parser).callonExternalLink216,
 																														expr: &seqExpr{
-																															pos: position{line: 679, col: 17, offset: 21807},
+																															pos: position{line: 691, col: 17, offset: 22211},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 679, col: 17, offset: 21807},
+																																	pos:        position{line: 691, col: 17, offset: 22211},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 679, col: 21, offset: 21811},
+																																	pos:   position{line: 691, col: 21, offset: 22215},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 679, col: 28, offset: 21818},
+																																		pos: position{line: 691, col: 28, offset: 22222},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 679, col: 28, offset: 21818},
+																																				pos: position{line: 691, col: 28, offset: 22222},
 																																				run: (*parser).callonExternalLink221,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 679, col: 28, offset: 21818},
+																																					pos:        position{line: 691, col: 28, offset: 22222},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24747,12 +25339,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 681, col: 9, offset: 21872},
+																																				pos: position{line: 693, col: 9, offset: 22276},
 																																				run: (*parser).callonExternalLink223,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 681, col: 9, offset: 21872},
+																																					pos: position{line: 693, col: 9, offset: 22276},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 681, col: 9, offset: 21872},
+																																						pos:        position{line: 693, col: 9, offset: 22276},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24769,7 +25361,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 675, col: 79, offset: 21698},
+																												pos:        position{line: 687, col: 79, offset: 22102},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24784,27 +25376,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1211, col: 23, offset: 37656},
+																			pos: position{line: 1223, col: 23, offset: 38060},
 																			run: (*parser).callonExternalLink227,
 																			expr: &seqExpr{
-																				pos: position{line: 1211, col: 23, offset: 37656},
+																				pos: position{line: 1223, col: 23, offset: 38060},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1209, col: 32, offset: 37624},
+																						pos:        position{line: 1221, col: 32, offset: 38028},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1211, col: 51, offset: 37684},
+																						pos:   position{line: 1223, col: 51, offset: 38088},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1211, col: 56, offset: 37689},
+																							pos: position{line: 1223, col: 56, offset: 38093},
 																							run: (*parser).callonExternalLink231,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1211, col: 56, offset: 37689},
+																								pos: position{line: 1223, col: 56, offset: 38093},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1211, col: 56, offset: 37689},
+																									pos:        position{line: 1223, col: 56, offset: 38093},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24814,23 +25406,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1209, col: 32, offset: 37624},
+																						pos:        position{line: 1221, col: 32, offset: 38028},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1211, col: 123, offset: 37756},
+																						pos: position{line: 1223, col: 123, offset: 38160},
 																						run: (*parser).callonExternalLink235,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2901, col: 11, offset: 91963},
+																			pos: position{line: 2913, col: 11, offset: 92367},
 																			run: (*parser).callonExternalLink236,
 																			expr: &litMatcher{
-																				pos:        position{line: 2901, col: 11, offset: 91963},
+																				pos:        position{line: 2913, col: 11, offset: 92367},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24847,12 +25439,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1454, col: 30, offset: 47174},
+									pos:   position{line: 1466, col: 30, offset: 47578},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1454, col: 41, offset: 47185},
+										pos: position{line: 1466, col: 41, offset: 47589},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1454, col: 42, offset: 47186},
+											pos:  position{line: 1466, col: 42, offset: 47590},
 											name: "InlineAttributes",
 										},
 									},
@@ -24865,41 +25457,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1488, col: 1, offset: 48327},
+			pos:  position{line: 1500, col: 1, offset: 48731},
 			expr: &actionExpr{
-				pos: position{line: 1489, col: 5, offset: 48348},
+				pos: position{line: 1501, col: 5, offset: 48752},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1489, col: 5, offset: 48348},
+					pos: position{line: 1501, col: 5, offset: 48752},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1489, col: 5, offset: 48348},
+							pos:   position{line: 1501, col: 5, offset: 48752},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1495, col: 5, offset: 48550},
+								pos: position{line: 1507, col: 5, offset: 48954},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1589, col: 5, offset: 51518},
+										pos: position{line: 1601, col: 5, offset: 51922},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1589, col: 5, offset: 51518},
+											pos: position{line: 1601, col: 5, offset: 51922},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1589, col: 5, offset: 51518},
+													pos:   position{line: 1601, col: 5, offset: 51922},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1596, col: 5, offset: 51726},
+														pos: position{line: 1608, col: 5, offset: 52130},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1596, col: 5, offset: 51726},
+															pos: position{line: 1608, col: 5, offset: 52130},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1596, col: 5, offset: 51726},
+																	pos: position{line: 1608, col: 5, offset: 52130},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92448},
+																		pos: position{line: 2934, col: 10, offset: 92852},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92448},
+																			pos:        position{line: 2934, col: 10, offset: 92852},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24908,27 +25500,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1596, col: 12, offset: 51733},
+																	pos:   position{line: 1608, col: 12, offset: 52137},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1598, col: 9, offset: 51796},
+																		pos: position{line: 1610, col: 9, offset: 52200},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1598, col: 9, offset: 51796},
+																				pos: position{line: 1610, col: 9, offset: 52200},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1598, col: 9, offset: 51796},
+																					pos: position{line: 1610, col: 9, offset: 52200},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1598, col: 9, offset: 51796},
+																							pos:   position{line: 1610, col: 9, offset: 52200},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1598, col: 16, offset: 51803},
+																								pos: position{line: 1610, col: 16, offset: 52207},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1598, col: 16, offset: 51803},
+																									pos: position{line: 1610, col: 16, offset: 52207},
 																									expr: &litMatcher{
-																										pos:        position{line: 1598, col: 17, offset: 51804},
+																										pos:        position{line: 1610, col: 17, offset: 52208},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24937,22 +25529,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1602, col: 9, offset: 51904},
+																							pos: position{line: 1614, col: 9, offset: 52308},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 11, offset: 52621},
+																				pos: position{line: 1633, col: 11, offset: 53025},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 11, offset: 52621},
+																					pos: position{line: 1633, col: 11, offset: 53025},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1621, col: 11, offset: 52621},
+																							pos: position{line: 1633, col: 11, offset: 53025},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1621, col: 12, offset: 52622},
+																								pos:        position{line: 1633, col: 12, offset: 53026},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24960,7 +25552,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 20, offset: 52630},
+																							pos:        position{line: 1633, col: 20, offset: 53034},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24969,20 +25561,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1623, col: 13, offset: 52747},
+																				pos: position{line: 1635, col: 13, offset: 53151},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1623, col: 13, offset: 52747},
+																					pos: position{line: 1635, col: 13, offset: 53151},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1623, col: 14, offset: 52748},
+																							pos:        position{line: 1635, col: 14, offset: 53152},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1623, col: 21, offset: 52755},
+																							pos:        position{line: 1635, col: 21, offset: 53159},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24991,20 +25583,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1625, col: 13, offset: 52875},
+																				pos: position{line: 1637, col: 13, offset: 53279},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1625, col: 13, offset: 52875},
+																					pos: position{line: 1637, col: 13, offset: 53279},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1625, col: 14, offset: 52876},
+																							pos:        position{line: 1637, col: 14, offset: 53280},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1625, col: 21, offset: 52883},
+																							pos:        position{line: 1637, col: 21, offset: 53287},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25013,15 +25605,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1627, col: 13, offset: 53003},
+																				pos: position{line: 1639, col: 13, offset: 53407},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1627, col: 13, offset: 53003},
+																					pos: position{line: 1639, col: 13, offset: 53407},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1627, col: 13, offset: 53003},
+																							pos: position{line: 1639, col: 13, offset: 53407},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1627, col: 14, offset: 53004},
+																								pos:        position{line: 1639, col: 14, offset: 53408},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -25029,7 +25621,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1627, col: 26, offset: 53016},
+																							pos:        position{line: 1639, col: 26, offset: 53420},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25038,15 +25630,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1629, col: 13, offset: 53136},
+																				pos: position{line: 1641, col: 13, offset: 53540},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1629, col: 13, offset: 53136},
+																					pos: position{line: 1641, col: 13, offset: 53540},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1629, col: 13, offset: 53136},
+																							pos: position{line: 1641, col: 13, offset: 53540},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1629, col: 14, offset: 53137},
+																								pos:        position{line: 1641, col: 14, offset: 53541},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -25054,7 +25646,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1629, col: 26, offset: 53149},
+																							pos:        position{line: 1641, col: 26, offset: 53553},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25066,12 +25658,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92509},
+																	pos: position{line: 2938, col: 11, offset: 92913},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92509},
+																		pos: position{line: 2938, col: 11, offset: 92913},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92509},
+																			pos:        position{line: 2938, col: 11, offset: 92913},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25084,26 +25676,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1590, col: 5, offset: 51557},
+													pos:   position{line: 1602, col: 5, offset: 51961},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1536, col: 5, offset: 49990},
+														pos: position{line: 1548, col: 5, offset: 50394},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1536, col: 5, offset: 49990},
+															pos: position{line: 1548, col: 5, offset: 50394},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1536, col: 5, offset: 49990},
+																	pos:   position{line: 1548, col: 5, offset: 50394},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1536, col: 14, offset: 49999},
+																		pos: position{line: 1548, col: 14, offset: 50403},
 																		expr: &actionExpr{
-																			pos: position{line: 1536, col: 15, offset: 50000},
+																			pos: position{line: 1548, col: 15, offset: 50404},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1536, col: 15, offset: 50000},
+																				pos: position{line: 1548, col: 15, offset: 50404},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1536, col: 15, offset: 50000},
+																					pos:        position{line: 1548, col: 15, offset: 50404},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25114,28 +25706,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92846},
+																	pos: position{line: 2956, col: 8, offset: 93250},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92619},
+																			pos: position{line: 2943, col: 12, offset: 93023},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92620},
+																				pos: position{line: 2943, col: 13, offset: 93024},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92620},
+																						pos:        position{line: 2943, col: 13, offset: 93024},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92627},
+																						pos:        position{line: 2943, col: 20, offset: 93031},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92636},
+																						pos:        position{line: 2943, col: 29, offset: 93040},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25144,9 +25736,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92796},
+																			pos: position{line: 2953, col: 8, offset: 93200},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92797,
+																				line: 2953, col: 9, offset: 93201,
 																			},
 																		},
 																	},
@@ -25159,27 +25751,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1639, col: 5, offset: 53415},
+										pos: position{line: 1651, col: 5, offset: 53819},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1639, col: 5, offset: 53415},
+											pos: position{line: 1651, col: 5, offset: 53819},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1639, col: 5, offset: 53415},
+													pos:   position{line: 1651, col: 5, offset: 53819},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1646, col: 5, offset: 53688},
+														pos: position{line: 1658, col: 5, offset: 54092},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1646, col: 5, offset: 53688},
+															pos: position{line: 1658, col: 5, offset: 54092},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1646, col: 5, offset: 53688},
+																	pos: position{line: 1658, col: 5, offset: 54092},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92448},
+																		pos: position{line: 2934, col: 10, offset: 92852},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92448},
+																			pos:        position{line: 2934, col: 10, offset: 92852},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25188,24 +25780,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1647, col: 5, offset: 53700},
+																	pos:   position{line: 1659, col: 5, offset: 54104},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1648, col: 9, offset: 53716},
+																		pos: position{line: 1660, col: 9, offset: 54120},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1648, col: 10, offset: 53717},
+																			pos: position{line: 1660, col: 10, offset: 54121},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1648, col: 11, offset: 53718},
+																					pos:        position{line: 1660, col: 11, offset: 54122},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1648, col: 18, offset: 53725},
+																					pos: position{line: 1660, col: 18, offset: 54129},
 																					expr: &litMatcher{
-																						pos:        position{line: 1648, col: 19, offset: 53726},
+																						pos:        position{line: 1660, col: 19, offset: 54130},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -25216,16 +25808,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1651, col: 7, offset: 53816},
+																	pos: position{line: 1663, col: 7, offset: 54220},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92509},
+																	pos: position{line: 2938, col: 11, offset: 92913},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92509},
+																		pos: position{line: 2938, col: 11, offset: 92913},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92509},
+																			pos:        position{line: 2938, col: 11, offset: 92913},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25238,56 +25830,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1640, col: 5, offset: 53456},
+													pos:   position{line: 1652, col: 5, offset: 53860},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1640, col: 16, offset: 53467},
+														pos: position{line: 1652, col: 16, offset: 53871},
 														expr: &actionExpr{
-															pos: position{line: 1661, col: 5, offset: 54081},
+															pos: position{line: 1673, col: 5, offset: 54485},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1661, col: 5, offset: 54081},
+																pos: position{line: 1673, col: 5, offset: 54485},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1661, col: 5, offset: 54081},
+																		pos: position{line: 1673, col: 5, offset: 54485},
 																		expr: &litMatcher{
-																			pos:        position{line: 1661, col: 6, offset: 54082},
+																			pos:        position{line: 1673, col: 6, offset: 54486},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1661, col: 10, offset: 54086},
+																		pos:   position{line: 1673, col: 10, offset: 54490},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1662, col: 7, offset: 54100},
+																			pos: position{line: 1674, col: 7, offset: 54504},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1662, col: 7, offset: 54100},
+																					pos: position{line: 1674, col: 7, offset: 54504},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1662, col: 7, offset: 54100},
+																						pos:        position{line: 1674, col: 7, offset: 54504},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1663, col: 7, offset: 54145},
+																					pos: position{line: 1675, col: 7, offset: 54549},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1663, col: 7, offset: 54145},
+																						pos:        position{line: 1675, col: 7, offset: 54549},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1664, col: 7, offset: 54188},
+																					pos: position{line: 1676, col: 7, offset: 54592},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1664, col: 7, offset: 54188},
+																						pos:        position{line: 1676, col: 7, offset: 54592},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -25297,12 +25889,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2926, col: 11, offset: 92509},
+																		pos: position{line: 2938, col: 11, offset: 92913},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2926, col: 11, offset: 92509},
+																			pos: position{line: 2938, col: 11, offset: 92913},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2926, col: 11, offset: 92509},
+																				pos:        position{line: 2938, col: 11, offset: 92913},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25316,26 +25908,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1641, col: 5, offset: 53506},
+													pos:   position{line: 1653, col: 5, offset: 53910},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1536, col: 5, offset: 49990},
+														pos: position{line: 1548, col: 5, offset: 50394},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1536, col: 5, offset: 49990},
+															pos: position{line: 1548, col: 5, offset: 50394},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1536, col: 5, offset: 49990},
+																	pos:   position{line: 1548, col: 5, offset: 50394},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1536, col: 14, offset: 49999},
+																		pos: position{line: 1548, col: 14, offset: 50403},
 																		expr: &actionExpr{
-																			pos: position{line: 1536, col: 15, offset: 50000},
+																			pos: position{line: 1548, col: 15, offset: 50404},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1536, col: 15, offset: 50000},
+																				pos: position{line: 1548, col: 15, offset: 50404},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1536, col: 15, offset: 50000},
+																					pos:        position{line: 1548, col: 15, offset: 50404},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25346,28 +25938,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92846},
+																	pos: position{line: 2956, col: 8, offset: 93250},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92619},
+																			pos: position{line: 2943, col: 12, offset: 93023},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92620},
+																				pos: position{line: 2943, col: 13, offset: 93024},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92620},
+																						pos:        position{line: 2943, col: 13, offset: 93024},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92627},
+																						pos:        position{line: 2943, col: 20, offset: 93031},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92636},
+																						pos:        position{line: 2943, col: 29, offset: 93040},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25376,9 +25968,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92796},
+																			pos: position{line: 2953, col: 8, offset: 93200},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92797,
+																				line: 2953, col: 9, offset: 93201,
 																			},
 																		},
 																	},
@@ -25391,36 +25983,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1730, col: 5, offset: 56060},
+										pos: position{line: 1742, col: 5, offset: 56464},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1730, col: 5, offset: 56060},
+											pos: position{line: 1742, col: 5, offset: 56464},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1730, col: 5, offset: 56060},
+													pos:   position{line: 1742, col: 5, offset: 56464},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1736, col: 5, offset: 56257},
+														pos: position{line: 1748, col: 5, offset: 56661},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1736, col: 5, offset: 56257},
+															pos: position{line: 1748, col: 5, offset: 56661},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1736, col: 5, offset: 56257},
+																	pos:        position{line: 1748, col: 5, offset: 56661},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1736, col: 9, offset: 56261},
+																	pos:   position{line: 1748, col: 9, offset: 56665},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1736, col: 14, offset: 56266},
+																		pos: position{line: 1748, col: 14, offset: 56670},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1736, col: 14, offset: 56266},
+																			pos: position{line: 1748, col: 14, offset: 56670},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1736, col: 14, offset: 56266},
+																				pos:        position{line: 1748, col: 14, offset: 56670},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25430,18 +26022,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1736, col: 62, offset: 56314},
+																	pos:        position{line: 1748, col: 62, offset: 56718},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92509},
+																	pos: position{line: 2938, col: 11, offset: 92913},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92509},
+																		pos: position{line: 2938, col: 11, offset: 92913},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92509},
+																			pos:        position{line: 2938, col: 11, offset: 92913},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25454,26 +26046,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1731, col: 5, offset: 56096},
+													pos:   position{line: 1743, col: 5, offset: 56500},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1536, col: 5, offset: 49990},
+														pos: position{line: 1548, col: 5, offset: 50394},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1536, col: 5, offset: 49990},
+															pos: position{line: 1548, col: 5, offset: 50394},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1536, col: 5, offset: 49990},
+																	pos:   position{line: 1548, col: 5, offset: 50394},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1536, col: 14, offset: 49999},
+																		pos: position{line: 1548, col: 14, offset: 50403},
 																		expr: &actionExpr{
-																			pos: position{line: 1536, col: 15, offset: 50000},
+																			pos: position{line: 1548, col: 15, offset: 50404},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1536, col: 15, offset: 50000},
+																				pos: position{line: 1548, col: 15, offset: 50404},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1536, col: 15, offset: 50000},
+																					pos:        position{line: 1548, col: 15, offset: 50404},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25484,28 +26076,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92846},
+																	pos: position{line: 2956, col: 8, offset: 93250},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92619},
+																			pos: position{line: 2943, col: 12, offset: 93023},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92620},
+																				pos: position{line: 2943, col: 13, offset: 93024},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92620},
+																						pos:        position{line: 2943, col: 13, offset: 93024},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92627},
+																						pos:        position{line: 2943, col: 20, offset: 93031},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92636},
+																						pos:        position{line: 2943, col: 29, offset: 93040},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25514,9 +26106,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92796},
+																			pos: position{line: 2953, col: 8, offset: 93200},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92797,
+																				line: 2953, col: 9, offset: 93201,
 																			},
 																		},
 																	},
@@ -25529,35 +26121,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1673, col: 5, offset: 54381},
+										pos: position{line: 1685, col: 5, offset: 54785},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1673, col: 5, offset: 54381},
+											pos: position{line: 1685, col: 5, offset: 54785},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1673, col: 5, offset: 54381},
+													pos:   position{line: 1685, col: 5, offset: 54785},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1681, col: 5, offset: 54707},
+														pos: position{line: 1693, col: 5, offset: 55111},
 														run: (*parser).callonListElements148,
 														expr: &seqExpr{
-															pos: position{line: 1681, col: 5, offset: 54707},
+															pos: position{line: 1693, col: 5, offset: 55111},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1681, col: 5, offset: 54707},
+																	pos: position{line: 1693, col: 5, offset: 55111},
 																	expr: &seqExpr{
-																		pos: position{line: 2530, col: 31, offset: 81476},
+																		pos: position{line: 2542, col: 31, offset: 81880},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2530, col: 31, offset: 81476},
+																				pos:        position{line: 2542, col: 31, offset: 81880},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2530, col: 36, offset: 81481},
+																				pos: position{line: 2542, col: 36, offset: 81885},
 																				expr: &litMatcher{
-																					pos:        position{line: 2530, col: 37, offset: 81482},
+																					pos:        position{line: 2542, col: 37, offset: 81886},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -25567,28 +26159,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1682, col: 5, offset: 54739},
+																	pos: position{line: 1694, col: 5, offset: 55143},
 																	expr: &seqExpr{
-																		pos: position{line: 1682, col: 6, offset: 54740},
+																		pos: position{line: 1694, col: 6, offset: 55144},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1682, col: 6, offset: 54740},
+																				pos: position{line: 1694, col: 6, offset: 55144},
 																				expr: &actionExpr{
-																					pos: position{line: 1687, col: 5, offset: 54890},
+																					pos: position{line: 1699, col: 5, offset: 55294},
 																					run: (*parser).callonListElements158,
 																					expr: &seqExpr{
-																						pos: position{line: 1687, col: 5, offset: 54890},
+																						pos: position{line: 1699, col: 5, offset: 55294},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1687, col: 5, offset: 54890},
+																								pos:   position{line: 1699, col: 5, offset: 55294},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1687, col: 16, offset: 54901},
+																									pos: position{line: 1699, col: 16, offset: 55305},
 																									run: (*parser).callonListElements161,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1687, col: 16, offset: 54901},
+																										pos: position{line: 1699, col: 16, offset: 55305},
 																										expr: &litMatcher{
-																											pos:        position{line: 1687, col: 17, offset: 54902},
+																											pos:        position{line: 1699, col: 17, offset: 55306},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -25597,7 +26189,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1690, col: 5, offset: 54959},
+																								pos: position{line: 1702, col: 5, offset: 55363},
 																								run: (*parser).callonListElements164,
 																							},
 																						},
@@ -25605,30 +26197,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1682, col: 35, offset: 54769},
+																				pos: position{line: 1694, col: 35, offset: 55173},
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92846},
+																					pos: position{line: 2956, col: 8, offset: 93250},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92619},
+																							pos: position{line: 2943, col: 12, offset: 93023},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92620},
+																								pos: position{line: 2943, col: 13, offset: 93024},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92620},
+																										pos:        position{line: 2943, col: 13, offset: 93024},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92627},
+																										pos:        position{line: 2943, col: 20, offset: 93031},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92636},
+																										pos:        position{line: 2943, col: 29, offset: 93040},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25637,16 +26229,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92796},
+																							pos: position{line: 2953, col: 8, offset: 93200},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92797,
+																								line: 2953, col: 9, offset: 93201,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1682, col: 40, offset: 54774,
+																				line: 1694, col: 40, offset: 55178,
 																			},
 																		},
 																	},
@@ -25656,24 +26248,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1674, col: 5, offset: 54416},
+													pos:   position{line: 1686, col: 5, offset: 54820},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1687, col: 5, offset: 54890},
+														pos: position{line: 1699, col: 5, offset: 55294},
 														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1687, col: 5, offset: 54890},
+															pos: position{line: 1699, col: 5, offset: 55294},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1687, col: 5, offset: 54890},
+																	pos:   position{line: 1699, col: 5, offset: 55294},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1687, col: 16, offset: 54901},
+																		pos: position{line: 1699, col: 16, offset: 55305},
 																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1687, col: 16, offset: 54901},
+																			pos: position{line: 1699, col: 16, offset: 55305},
 																			expr: &litMatcher{
-																				pos:        position{line: 1687, col: 17, offset: 54902},
+																				pos:        position{line: 1699, col: 17, offset: 55306},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25682,7 +26274,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1690, col: 5, offset: 54959},
+																	pos: position{line: 1702, col: 5, offset: 55363},
 																	run: (*parser).callonListElements182,
 																},
 															},
@@ -25690,24 +26282,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1675, col: 5, offset: 54461},
+													pos:   position{line: 1687, col: 5, offset: 54865},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1698, col: 5, offset: 55208},
+														pos: position{line: 1710, col: 5, offset: 55612},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1700, col: 9, offset: 55274},
+																pos: position{line: 1712, col: 9, offset: 55678},
 																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1700, col: 9, offset: 55274},
+																	pos: position{line: 1712, col: 9, offset: 55678},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1700, col: 9, offset: 55274},
+																			pos: position{line: 1712, col: 9, offset: 55678},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92448},
+																				pos: position{line: 2934, col: 10, offset: 92852},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92448},
+																					pos:        position{line: 2934, col: 10, offset: 92852},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25716,28 +26308,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92846},
+																			pos: position{line: 2956, col: 8, offset: 93250},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92619},
+																					pos: position{line: 2943, col: 12, offset: 93023},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92620},
+																						pos: position{line: 2943, col: 13, offset: 93024},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92620},
+																								pos:        position{line: 2943, col: 13, offset: 93024},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92627},
+																								pos:        position{line: 2943, col: 20, offset: 93031},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92636},
+																								pos:        position{line: 2943, col: 29, offset: 93040},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25746,34 +26338,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1701, col: 9, offset: 55293},
+																			pos: position{line: 1713, col: 9, offset: 55697},
 																			expr: &actionExpr{
-																				pos: position{line: 690, col: 14, offset: 22173},
+																				pos: position{line: 702, col: 14, offset: 22577},
 																				run: (*parser).callonListElements199,
 																				expr: &seqExpr{
-																					pos: position{line: 690, col: 14, offset: 22173},
+																					pos: position{line: 702, col: 14, offset: 22577},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92782},
+																							pos: position{line: 2951, col: 11, offset: 93186},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92784,
+																								line: 2951, col: 13, offset: 93188,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 690, col: 21, offset: 22180},
+																							pos: position{line: 702, col: 21, offset: 22584},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92448},
+																								pos: position{line: 2934, col: 10, offset: 92852},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92448},
+																									pos:        position{line: 2934, col: 10, offset: 92852},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25782,28 +26374,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25812,9 +26404,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -25827,18 +26419,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1707, col: 9, offset: 55422},
+																pos: position{line: 1719, col: 9, offset: 55826},
 																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1707, col: 9, offset: 55422},
+																	pos: position{line: 1719, col: 9, offset: 55826},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2926, col: 11, offset: 92509},
+																			pos: position{line: 2938, col: 11, offset: 92913},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2926, col: 11, offset: 92509},
+																				pos: position{line: 2938, col: 11, offset: 92913},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2926, col: 11, offset: 92509},
+																					pos:        position{line: 2938, col: 11, offset: 92913},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25847,15 +26439,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1708, col: 9, offset: 55495},
+																			pos:   position{line: 1720, col: 9, offset: 55899},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1708, col: 18, offset: 55504},
+																				pos: position{line: 1720, col: 18, offset: 55908},
 																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1708, col: 18, offset: 55504},
+																					pos: position{line: 1720, col: 18, offset: 55908},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1708, col: 18, offset: 55504},
+																						pos:        position{line: 1720, col: 18, offset: 55908},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25865,28 +26457,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92846},
+																			pos: position{line: 2956, col: 8, offset: 93250},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92619},
+																					pos: position{line: 2943, col: 12, offset: 93023},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92620},
+																						pos: position{line: 2943, col: 13, offset: 93024},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92620},
+																								pos:        position{line: 2943, col: 13, offset: 93024},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92627},
+																								pos:        position{line: 2943, col: 20, offset: 93031},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92636},
+																								pos:        position{line: 2943, col: 29, offset: 93040},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25895,9 +26487,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
@@ -25915,10 +26507,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1490, col: 5, offset: 48379},
+							pos:   position{line: 1502, col: 5, offset: 48783},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1490, col: 20, offset: 48394},
+								pos:  position{line: 1502, col: 20, offset: 48798},
 								name: "ExtraListElements",
 							},
 						},
@@ -25928,17 +26520,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1500, col: 1, offset: 48649},
+			pos:  position{line: 1512, col: 1, offset: 49053},
 			expr: &actionExpr{
-				pos: position{line: 1500, col: 22, offset: 48670},
+				pos: position{line: 1512, col: 22, offset: 49074},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1500, col: 22, offset: 48670},
+					pos:   position{line: 1512, col: 22, offset: 49074},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1500, col: 31, offset: 48679},
+						pos: position{line: 1512, col: 31, offset: 49083},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1500, col: 32, offset: 48680},
+							pos:  position{line: 1512, col: 32, offset: 49084},
 							name: "ExtraListElement",
 						},
 					},
@@ -25947,52 +26539,52 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1504, col: 1, offset: 48760},
+			pos:  position{line: 1516, col: 1, offset: 49164},
 			expr: &actionExpr{
-				pos: position{line: 1505, col: 5, offset: 48899},
+				pos: position{line: 1517, col: 5, offset: 49303},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1505, col: 5, offset: 48899},
+					pos: position{line: 1517, col: 5, offset: 49303},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92782},
+							pos: position{line: 2951, col: 11, offset: 93186},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92784,
+								line: 2951, col: 13, offset: 93188,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1506, col: 5, offset: 48911},
+							pos:   position{line: 1518, col: 5, offset: 49315},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1507, col: 9, offset: 48929},
+								pos: position{line: 1519, col: 9, offset: 49333},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1507, col: 13, offset: 48933},
+										pos: position{line: 1519, col: 13, offset: 49337},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1507, col: 13, offset: 48933},
+											pos: position{line: 1519, col: 13, offset: 49337},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1507, col: 13, offset: 48933},
+													pos: position{line: 1519, col: 13, offset: 49337},
 													expr: &actionExpr{
-														pos: position{line: 690, col: 14, offset: 22173},
+														pos: position{line: 702, col: 14, offset: 22577},
 														run: (*parser).callonExtraListElement10,
 														expr: &seqExpr{
-															pos: position{line: 690, col: 14, offset: 22173},
+															pos: position{line: 702, col: 14, offset: 22577},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2939, col: 11, offset: 92782},
+																	pos: position{line: 2951, col: 11, offset: 93186},
 																	expr: &anyMatcher{
-																		line: 2939, col: 13, offset: 92784,
+																		line: 2951, col: 13, offset: 93188,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 690, col: 21, offset: 22180},
+																	pos: position{line: 702, col: 21, offset: 22584},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92448},
+																		pos: position{line: 2934, col: 10, offset: 92852},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92448},
+																			pos:        position{line: 2934, col: 10, offset: 92852},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26001,28 +26593,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92846},
+																	pos: position{line: 2956, col: 8, offset: 93250},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92619},
+																			pos: position{line: 2943, col: 12, offset: 93023},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92620},
+																				pos: position{line: 2943, col: 13, offset: 93024},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92620},
+																						pos:        position{line: 2943, col: 13, offset: 93024},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92627},
+																						pos:        position{line: 2943, col: 20, offset: 93031},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92636},
+																						pos:        position{line: 2943, col: 29, offset: 93040},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26031,9 +26623,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92796},
+																			pos: position{line: 2953, col: 8, offset: 93200},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92797,
+																				line: 2953, col: 9, offset: 93201,
 																			},
 																		},
 																	},
@@ -26043,33 +26635,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1508, col: 13, offset: 48957},
+													pos:   position{line: 1520, col: 13, offset: 49361},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1508, col: 22, offset: 48966},
+														pos: position{line: 1520, col: 22, offset: 49370},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1589, col: 5, offset: 51518},
+																pos: position{line: 1601, col: 5, offset: 51922},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1589, col: 5, offset: 51518},
+																	pos: position{line: 1601, col: 5, offset: 51922},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1589, col: 5, offset: 51518},
+																			pos:   position{line: 1601, col: 5, offset: 51922},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1596, col: 5, offset: 51726},
+																				pos: position{line: 1608, col: 5, offset: 52130},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1596, col: 5, offset: 51726},
+																					pos: position{line: 1608, col: 5, offset: 52130},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1596, col: 5, offset: 51726},
+																							pos: position{line: 1608, col: 5, offset: 52130},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92448},
+																								pos: position{line: 2934, col: 10, offset: 92852},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92448},
+																									pos:        position{line: 2934, col: 10, offset: 92852},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26078,27 +26670,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1596, col: 12, offset: 51733},
+																							pos:   position{line: 1608, col: 12, offset: 52137},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1598, col: 9, offset: 51796},
+																								pos: position{line: 1610, col: 9, offset: 52200},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1598, col: 9, offset: 51796},
+																										pos: position{line: 1610, col: 9, offset: 52200},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1598, col: 9, offset: 51796},
+																											pos: position{line: 1610, col: 9, offset: 52200},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1598, col: 9, offset: 51796},
+																													pos:   position{line: 1610, col: 9, offset: 52200},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1598, col: 16, offset: 51803},
+																														pos: position{line: 1610, col: 16, offset: 52207},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1598, col: 16, offset: 51803},
+																															pos: position{line: 1610, col: 16, offset: 52207},
 																															expr: &litMatcher{
-																																pos:        position{line: 1598, col: 17, offset: 51804},
+																																pos:        position{line: 1610, col: 17, offset: 52208},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26107,22 +26699,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1602, col: 9, offset: 51904},
+																													pos: position{line: 1614, col: 9, offset: 52308},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1621, col: 11, offset: 52621},
+																										pos: position{line: 1633, col: 11, offset: 53025},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1621, col: 11, offset: 52621},
+																											pos: position{line: 1633, col: 11, offset: 53025},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1621, col: 11, offset: 52621},
+																													pos: position{line: 1633, col: 11, offset: 53025},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1621, col: 12, offset: 52622},
+																														pos:        position{line: 1633, col: 12, offset: 53026},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26130,7 +26722,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1621, col: 20, offset: 52630},
+																													pos:        position{line: 1633, col: 20, offset: 53034},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26139,20 +26731,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1623, col: 13, offset: 52747},
+																										pos: position{line: 1635, col: 13, offset: 53151},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1623, col: 13, offset: 52747},
+																											pos: position{line: 1635, col: 13, offset: 53151},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1623, col: 14, offset: 52748},
+																													pos:        position{line: 1635, col: 14, offset: 53152},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1623, col: 21, offset: 52755},
+																													pos:        position{line: 1635, col: 21, offset: 53159},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26161,20 +26753,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1625, col: 13, offset: 52875},
+																										pos: position{line: 1637, col: 13, offset: 53279},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1625, col: 13, offset: 52875},
+																											pos: position{line: 1637, col: 13, offset: 53279},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1625, col: 14, offset: 52876},
+																													pos:        position{line: 1637, col: 14, offset: 53280},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1625, col: 21, offset: 52883},
+																													pos:        position{line: 1637, col: 21, offset: 53287},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26183,15 +26775,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1627, col: 13, offset: 53003},
+																										pos: position{line: 1639, col: 13, offset: 53407},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1627, col: 13, offset: 53003},
+																											pos: position{line: 1639, col: 13, offset: 53407},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1627, col: 13, offset: 53003},
+																													pos: position{line: 1639, col: 13, offset: 53407},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1627, col: 14, offset: 53004},
+																														pos:        position{line: 1639, col: 14, offset: 53408},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26199,7 +26791,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1627, col: 26, offset: 53016},
+																													pos:        position{line: 1639, col: 26, offset: 53420},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26208,15 +26800,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1629, col: 13, offset: 53136},
+																										pos: position{line: 1641, col: 13, offset: 53540},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1629, col: 13, offset: 53136},
+																											pos: position{line: 1641, col: 13, offset: 53540},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1629, col: 13, offset: 53136},
+																													pos: position{line: 1641, col: 13, offset: 53540},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1629, col: 14, offset: 53137},
+																														pos:        position{line: 1641, col: 14, offset: 53541},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26224,7 +26816,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1629, col: 26, offset: 53149},
+																													pos:        position{line: 1641, col: 26, offset: 53553},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26236,12 +26828,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92509},
+																							pos: position{line: 2938, col: 11, offset: 92913},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92509},
+																								pos: position{line: 2938, col: 11, offset: 92913},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92509},
+																									pos:        position{line: 2938, col: 11, offset: 92913},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26254,26 +26846,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1590, col: 5, offset: 51557},
+																			pos:   position{line: 1602, col: 5, offset: 51961},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1536, col: 5, offset: 49990},
+																				pos: position{line: 1548, col: 5, offset: 50394},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1536, col: 5, offset: 49990},
+																					pos: position{line: 1548, col: 5, offset: 50394},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1536, col: 5, offset: 49990},
+																							pos:   position{line: 1548, col: 5, offset: 50394},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1536, col: 14, offset: 49999},
+																								pos: position{line: 1548, col: 14, offset: 50403},
 																								expr: &actionExpr{
-																									pos: position{line: 1536, col: 15, offset: 50000},
+																									pos: position{line: 1548, col: 15, offset: 50404},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1536, col: 15, offset: 50000},
+																										pos: position{line: 1548, col: 15, offset: 50404},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1536, col: 15, offset: 50000},
+																											pos:        position{line: 1548, col: 15, offset: 50404},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26284,28 +26876,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26314,9 +26906,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -26329,27 +26921,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1639, col: 5, offset: 53415},
+																pos: position{line: 1651, col: 5, offset: 53819},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1639, col: 5, offset: 53415},
+																	pos: position{line: 1651, col: 5, offset: 53819},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1639, col: 5, offset: 53415},
+																			pos:   position{line: 1651, col: 5, offset: 53819},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1646, col: 5, offset: 53688},
+																				pos: position{line: 1658, col: 5, offset: 54092},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1646, col: 5, offset: 53688},
+																					pos: position{line: 1658, col: 5, offset: 54092},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1646, col: 5, offset: 53688},
+																							pos: position{line: 1658, col: 5, offset: 54092},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92448},
+																								pos: position{line: 2934, col: 10, offset: 92852},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92448},
+																									pos:        position{line: 2934, col: 10, offset: 92852},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26358,24 +26950,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1647, col: 5, offset: 53700},
+																							pos:   position{line: 1659, col: 5, offset: 54104},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1648, col: 9, offset: 53716},
+																								pos: position{line: 1660, col: 9, offset: 54120},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1648, col: 10, offset: 53717},
+																									pos: position{line: 1660, col: 10, offset: 54121},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1648, col: 11, offset: 53718},
+																											pos:        position{line: 1660, col: 11, offset: 54122},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1648, col: 18, offset: 53725},
+																											pos: position{line: 1660, col: 18, offset: 54129},
 																											expr: &litMatcher{
-																												pos:        position{line: 1648, col: 19, offset: 53726},
+																												pos:        position{line: 1660, col: 19, offset: 54130},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26386,16 +26978,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1651, col: 7, offset: 53816},
+																							pos: position{line: 1663, col: 7, offset: 54220},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92509},
+																							pos: position{line: 2938, col: 11, offset: 92913},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92509},
+																								pos: position{line: 2938, col: 11, offset: 92913},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92509},
+																									pos:        position{line: 2938, col: 11, offset: 92913},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26408,56 +27000,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1640, col: 5, offset: 53456},
+																			pos:   position{line: 1652, col: 5, offset: 53860},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1640, col: 16, offset: 53467},
+																				pos: position{line: 1652, col: 16, offset: 53871},
 																				expr: &actionExpr{
-																					pos: position{line: 1661, col: 5, offset: 54081},
+																					pos: position{line: 1673, col: 5, offset: 54485},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1661, col: 5, offset: 54081},
+																						pos: position{line: 1673, col: 5, offset: 54485},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1661, col: 5, offset: 54081},
+																								pos: position{line: 1673, col: 5, offset: 54485},
 																								expr: &litMatcher{
-																									pos:        position{line: 1661, col: 6, offset: 54082},
+																									pos:        position{line: 1673, col: 6, offset: 54486},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1661, col: 10, offset: 54086},
+																								pos:   position{line: 1673, col: 10, offset: 54490},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1662, col: 7, offset: 54100},
+																									pos: position{line: 1674, col: 7, offset: 54504},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1662, col: 7, offset: 54100},
+																											pos: position{line: 1674, col: 7, offset: 54504},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1662, col: 7, offset: 54100},
+																												pos:        position{line: 1674, col: 7, offset: 54504},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1663, col: 7, offset: 54145},
+																											pos: position{line: 1675, col: 7, offset: 54549},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1663, col: 7, offset: 54145},
+																												pos:        position{line: 1675, col: 7, offset: 54549},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1664, col: 7, offset: 54188},
+																											pos: position{line: 1676, col: 7, offset: 54592},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1664, col: 7, offset: 54188},
+																												pos:        position{line: 1676, col: 7, offset: 54592},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26467,12 +27059,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2926, col: 11, offset: 92509},
+																								pos: position{line: 2938, col: 11, offset: 92913},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2926, col: 11, offset: 92509},
+																									pos: position{line: 2938, col: 11, offset: 92913},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2926, col: 11, offset: 92509},
+																										pos:        position{line: 2938, col: 11, offset: 92913},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26486,26 +27078,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1641, col: 5, offset: 53506},
+																			pos:   position{line: 1653, col: 5, offset: 53910},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1536, col: 5, offset: 49990},
+																				pos: position{line: 1548, col: 5, offset: 50394},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1536, col: 5, offset: 49990},
+																					pos: position{line: 1548, col: 5, offset: 50394},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1536, col: 5, offset: 49990},
+																							pos:   position{line: 1548, col: 5, offset: 50394},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1536, col: 14, offset: 49999},
+																								pos: position{line: 1548, col: 14, offset: 50403},
 																								expr: &actionExpr{
-																									pos: position{line: 1536, col: 15, offset: 50000},
+																									pos: position{line: 1548, col: 15, offset: 50404},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1536, col: 15, offset: 50000},
+																										pos: position{line: 1548, col: 15, offset: 50404},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1536, col: 15, offset: 50000},
+																											pos:        position{line: 1548, col: 15, offset: 50404},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26516,28 +27108,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26546,9 +27138,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -26561,36 +27153,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1730, col: 5, offset: 56060},
+																pos: position{line: 1742, col: 5, offset: 56464},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1730, col: 5, offset: 56060},
+																	pos: position{line: 1742, col: 5, offset: 56464},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1730, col: 5, offset: 56060},
+																			pos:   position{line: 1742, col: 5, offset: 56464},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1736, col: 5, offset: 56257},
+																				pos: position{line: 1748, col: 5, offset: 56661},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1736, col: 5, offset: 56257},
+																					pos: position{line: 1748, col: 5, offset: 56661},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1736, col: 5, offset: 56257},
+																							pos:        position{line: 1748, col: 5, offset: 56661},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1736, col: 9, offset: 56261},
+																							pos:   position{line: 1748, col: 9, offset: 56665},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1736, col: 14, offset: 56266},
+																								pos: position{line: 1748, col: 14, offset: 56670},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1736, col: 14, offset: 56266},
+																									pos: position{line: 1748, col: 14, offset: 56670},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1736, col: 14, offset: 56266},
+																										pos:        position{line: 1748, col: 14, offset: 56670},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26600,18 +27192,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1736, col: 62, offset: 56314},
+																							pos:        position{line: 1748, col: 62, offset: 56718},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92509},
+																							pos: position{line: 2938, col: 11, offset: 92913},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92509},
+																								pos: position{line: 2938, col: 11, offset: 92913},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92509},
+																									pos:        position{line: 2938, col: 11, offset: 92913},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26624,26 +27216,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1731, col: 5, offset: 56096},
+																			pos:   position{line: 1743, col: 5, offset: 56500},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1536, col: 5, offset: 49990},
+																				pos: position{line: 1548, col: 5, offset: 50394},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1536, col: 5, offset: 49990},
+																					pos: position{line: 1548, col: 5, offset: 50394},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1536, col: 5, offset: 49990},
+																							pos:   position{line: 1548, col: 5, offset: 50394},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1536, col: 14, offset: 49999},
+																								pos: position{line: 1548, col: 14, offset: 50403},
 																								expr: &actionExpr{
-																									pos: position{line: 1536, col: 15, offset: 50000},
+																									pos: position{line: 1548, col: 15, offset: 50404},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1536, col: 15, offset: 50000},
+																										pos: position{line: 1548, col: 15, offset: 50404},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1536, col: 15, offset: 50000},
+																											pos:        position{line: 1548, col: 15, offset: 50404},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26654,28 +27246,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26684,9 +27276,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -26699,35 +27291,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1673, col: 5, offset: 54381},
+																pos: position{line: 1685, col: 5, offset: 54785},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1673, col: 5, offset: 54381},
+																	pos: position{line: 1685, col: 5, offset: 54785},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1673, col: 5, offset: 54381},
+																			pos:   position{line: 1685, col: 5, offset: 54785},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1681, col: 5, offset: 54707},
+																				pos: position{line: 1693, col: 5, offset: 55111},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &seqExpr{
-																					pos: position{line: 1681, col: 5, offset: 54707},
+																					pos: position{line: 1693, col: 5, offset: 55111},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1681, col: 5, offset: 54707},
+																							pos: position{line: 1693, col: 5, offset: 55111},
 																							expr: &seqExpr{
-																								pos: position{line: 2530, col: 31, offset: 81476},
+																								pos: position{line: 2542, col: 31, offset: 81880},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2530, col: 31, offset: 81476},
+																										pos:        position{line: 2542, col: 31, offset: 81880},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2530, col: 36, offset: 81481},
+																										pos: position{line: 2542, col: 36, offset: 81885},
 																										expr: &litMatcher{
-																											pos:        position{line: 2530, col: 37, offset: 81482},
+																											pos:        position{line: 2542, col: 37, offset: 81886},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -26737,28 +27329,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1682, col: 5, offset: 54739},
+																							pos: position{line: 1694, col: 5, offset: 55143},
 																							expr: &seqExpr{
-																								pos: position{line: 1682, col: 6, offset: 54740},
+																								pos: position{line: 1694, col: 6, offset: 55144},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1682, col: 6, offset: 54740},
+																										pos: position{line: 1694, col: 6, offset: 55144},
 																										expr: &actionExpr{
-																											pos: position{line: 1687, col: 5, offset: 54890},
+																											pos: position{line: 1699, col: 5, offset: 55294},
 																											run: (*parser).callonExtraListElement180,
 																											expr: &seqExpr{
-																												pos: position{line: 1687, col: 5, offset: 54890},
+																												pos: position{line: 1699, col: 5, offset: 55294},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1687, col: 5, offset: 54890},
+																														pos:   position{line: 1699, col: 5, offset: 55294},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1687, col: 16, offset: 54901},
+																															pos: position{line: 1699, col: 16, offset: 55305},
 																															run: (*parser).callonExtraListElement183,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1687, col: 16, offset: 54901},
+																																pos: position{line: 1699, col: 16, offset: 55305},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1687, col: 17, offset: 54902},
+																																	pos:        position{line: 1699, col: 17, offset: 55306},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -26767,7 +27359,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1690, col: 5, offset: 54959},
+																														pos: position{line: 1702, col: 5, offset: 55363},
 																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
@@ -26775,30 +27367,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1682, col: 35, offset: 54769},
+																										pos: position{line: 1694, col: 35, offset: 55173},
 																										expr: &choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92846},
+																											pos: position{line: 2956, col: 8, offset: 93250},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92619},
+																													pos: position{line: 2943, col: 12, offset: 93023},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92620},
+																														pos: position{line: 2943, col: 13, offset: 93024},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92620},
+																																pos:        position{line: 2943, col: 13, offset: 93024},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92627},
+																																pos:        position{line: 2943, col: 20, offset: 93031},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92636},
+																																pos:        position{line: 2943, col: 29, offset: 93040},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26807,16 +27399,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92796},
+																													pos: position{line: 2953, col: 8, offset: 93200},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92797,
+																														line: 2953, col: 9, offset: 93201,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1682, col: 40, offset: 54774,
+																										line: 1694, col: 40, offset: 55178,
 																									},
 																								},
 																							},
@@ -26826,24 +27418,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1674, col: 5, offset: 54416},
+																			pos:   position{line: 1686, col: 5, offset: 54820},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1687, col: 5, offset: 54890},
+																				pos: position{line: 1699, col: 5, offset: 55294},
 																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1687, col: 5, offset: 54890},
+																					pos: position{line: 1699, col: 5, offset: 55294},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1687, col: 5, offset: 54890},
+																							pos:   position{line: 1699, col: 5, offset: 55294},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1687, col: 16, offset: 54901},
+																								pos: position{line: 1699, col: 16, offset: 55305},
 																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1687, col: 16, offset: 54901},
+																									pos: position{line: 1699, col: 16, offset: 55305},
 																									expr: &litMatcher{
-																										pos:        position{line: 1687, col: 17, offset: 54902},
+																										pos:        position{line: 1699, col: 17, offset: 55306},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26852,7 +27444,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1690, col: 5, offset: 54959},
+																							pos: position{line: 1702, col: 5, offset: 55363},
 																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
@@ -26860,24 +27452,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1675, col: 5, offset: 54461},
+																			pos:   position{line: 1687, col: 5, offset: 54865},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1698, col: 5, offset: 55208},
+																				pos: position{line: 1710, col: 5, offset: 55612},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1700, col: 9, offset: 55274},
+																						pos: position{line: 1712, col: 9, offset: 55678},
 																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1700, col: 9, offset: 55274},
+																							pos: position{line: 1712, col: 9, offset: 55678},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1700, col: 9, offset: 55274},
+																									pos: position{line: 1712, col: 9, offset: 55678},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92448},
+																										pos: position{line: 2934, col: 10, offset: 92852},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92448},
+																											pos:        position{line: 2934, col: 10, offset: 92852},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26886,28 +27478,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92846},
+																									pos: position{line: 2956, col: 8, offset: 93250},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92619},
+																											pos: position{line: 2943, col: 12, offset: 93023},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92620},
+																												pos: position{line: 2943, col: 13, offset: 93024},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92620},
+																														pos:        position{line: 2943, col: 13, offset: 93024},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92627},
+																														pos:        position{line: 2943, col: 20, offset: 93031},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92636},
+																														pos:        position{line: 2943, col: 29, offset: 93040},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26916,34 +27508,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92796},
+																											pos: position{line: 2953, col: 8, offset: 93200},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92797,
+																												line: 2953, col: 9, offset: 93201,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1701, col: 9, offset: 55293},
+																									pos: position{line: 1713, col: 9, offset: 55697},
 																									expr: &actionExpr{
-																										pos: position{line: 690, col: 14, offset: 22173},
+																										pos: position{line: 702, col: 14, offset: 22577},
 																										run: (*parser).callonExtraListElement221,
 																										expr: &seqExpr{
-																											pos: position{line: 690, col: 14, offset: 22173},
+																											pos: position{line: 702, col: 14, offset: 22577},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2939, col: 11, offset: 92782},
+																													pos: position{line: 2951, col: 11, offset: 93186},
 																													expr: &anyMatcher{
-																														line: 2939, col: 13, offset: 92784,
+																														line: 2951, col: 13, offset: 93188,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 690, col: 21, offset: 22180},
+																													pos: position{line: 702, col: 21, offset: 22584},
 																													expr: &actionExpr{
-																														pos: position{line: 2922, col: 10, offset: 92448},
+																														pos: position{line: 2934, col: 10, offset: 92852},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2922, col: 10, offset: 92448},
+																															pos:        position{line: 2934, col: 10, offset: 92852},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26952,28 +27544,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2944, col: 8, offset: 92846},
+																													pos: position{line: 2956, col: 8, offset: 93250},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2931, col: 12, offset: 92619},
+																															pos: position{line: 2943, col: 12, offset: 93023},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2931, col: 13, offset: 92620},
+																																pos: position{line: 2943, col: 13, offset: 93024},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 13, offset: 92620},
+																																		pos:        position{line: 2943, col: 13, offset: 93024},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 20, offset: 92627},
+																																		pos:        position{line: 2943, col: 20, offset: 93031},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 29, offset: 92636},
+																																		pos:        position{line: 2943, col: 29, offset: 93040},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26982,9 +27574,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2941, col: 8, offset: 92796},
+																															pos: position{line: 2953, col: 8, offset: 93200},
 																															expr: &anyMatcher{
-																																line: 2941, col: 9, offset: 92797,
+																																line: 2953, col: 9, offset: 93201,
 																															},
 																														},
 																													},
@@ -26997,18 +27589,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1707, col: 9, offset: 55422},
+																						pos: position{line: 1719, col: 9, offset: 55826},
 																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1707, col: 9, offset: 55422},
+																							pos: position{line: 1719, col: 9, offset: 55826},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2926, col: 11, offset: 92509},
+																									pos: position{line: 2938, col: 11, offset: 92913},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2926, col: 11, offset: 92509},
+																										pos: position{line: 2938, col: 11, offset: 92913},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2926, col: 11, offset: 92509},
+																											pos:        position{line: 2938, col: 11, offset: 92913},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27017,15 +27609,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1708, col: 9, offset: 55495},
+																									pos:   position{line: 1720, col: 9, offset: 55899},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1708, col: 18, offset: 55504},
+																										pos: position{line: 1720, col: 18, offset: 55908},
 																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1708, col: 18, offset: 55504},
+																											pos: position{line: 1720, col: 18, offset: 55908},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1708, col: 18, offset: 55504},
+																												pos:        position{line: 1720, col: 18, offset: 55908},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27035,28 +27627,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92846},
+																									pos: position{line: 2956, col: 8, offset: 93250},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92619},
+																											pos: position{line: 2943, col: 12, offset: 93023},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92620},
+																												pos: position{line: 2943, col: 13, offset: 93024},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92620},
+																														pos:        position{line: 2943, col: 13, offset: 93024},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92627},
+																														pos:        position{line: 2943, col: 20, offset: 93031},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92636},
+																														pos:        position{line: 2943, col: 29, offset: 93040},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27065,9 +27657,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92796},
+																											pos: position{line: 2953, col: 8, offset: 93200},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92797,
+																												line: 2953, col: 9, offset: 93201,
 																											},
 																										},
 																									},
@@ -27088,50 +27680,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1511, col: 13, offset: 49117},
+										pos: position{line: 1523, col: 13, offset: 49521},
 										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
-											pos: position{line: 1511, col: 13, offset: 49117},
+											pos: position{line: 1523, col: 13, offset: 49521},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1511, col: 13, offset: 49117},
+													pos:   position{line: 1523, col: 13, offset: 49521},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1511, col: 24, offset: 49128},
+														pos: position{line: 1523, col: 24, offset: 49532},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1511, col: 25, offset: 49129},
+															pos:  position{line: 1523, col: 25, offset: 49533},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1512, col: 13, offset: 49160},
+													pos:   position{line: 1524, col: 13, offset: 49564},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1512, col: 22, offset: 49169},
+														pos: position{line: 1524, col: 22, offset: 49573},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1589, col: 5, offset: 51518},
+																pos: position{line: 1601, col: 5, offset: 51922},
 																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
-																	pos: position{line: 1589, col: 5, offset: 51518},
+																	pos: position{line: 1601, col: 5, offset: 51922},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1589, col: 5, offset: 51518},
+																			pos:   position{line: 1601, col: 5, offset: 51922},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1596, col: 5, offset: 51726},
+																				pos: position{line: 1608, col: 5, offset: 52130},
 																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
-																					pos: position{line: 1596, col: 5, offset: 51726},
+																					pos: position{line: 1608, col: 5, offset: 52130},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1596, col: 5, offset: 51726},
+																							pos: position{line: 1608, col: 5, offset: 52130},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92448},
+																								pos: position{line: 2934, col: 10, offset: 92852},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92448},
+																									pos:        position{line: 2934, col: 10, offset: 92852},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27140,27 +27732,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1596, col: 12, offset: 51733},
+																							pos:   position{line: 1608, col: 12, offset: 52137},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1598, col: 9, offset: 51796},
+																								pos: position{line: 1610, col: 9, offset: 52200},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1598, col: 9, offset: 51796},
+																										pos: position{line: 1610, col: 9, offset: 52200},
 																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
-																											pos: position{line: 1598, col: 9, offset: 51796},
+																											pos: position{line: 1610, col: 9, offset: 52200},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1598, col: 9, offset: 51796},
+																													pos:   position{line: 1610, col: 9, offset: 52200},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1598, col: 16, offset: 51803},
+																														pos: position{line: 1610, col: 16, offset: 52207},
 																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1598, col: 16, offset: 51803},
+																															pos: position{line: 1610, col: 16, offset: 52207},
 																															expr: &litMatcher{
-																																pos:        position{line: 1598, col: 17, offset: 51804},
+																																pos:        position{line: 1610, col: 17, offset: 52208},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27169,22 +27761,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1602, col: 9, offset: 51904},
+																													pos: position{line: 1614, col: 9, offset: 52308},
 																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1621, col: 11, offset: 52621},
+																										pos: position{line: 1633, col: 11, offset: 53025},
 																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
-																											pos: position{line: 1621, col: 11, offset: 52621},
+																											pos: position{line: 1633, col: 11, offset: 53025},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1621, col: 11, offset: 52621},
+																													pos: position{line: 1633, col: 11, offset: 53025},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1621, col: 12, offset: 52622},
+																														pos:        position{line: 1633, col: 12, offset: 53026},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27192,7 +27784,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1621, col: 20, offset: 52630},
+																													pos:        position{line: 1633, col: 20, offset: 53034},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27201,20 +27793,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1623, col: 13, offset: 52747},
+																										pos: position{line: 1635, col: 13, offset: 53151},
 																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
-																											pos: position{line: 1623, col: 13, offset: 52747},
+																											pos: position{line: 1635, col: 13, offset: 53151},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1623, col: 14, offset: 52748},
+																													pos:        position{line: 1635, col: 14, offset: 53152},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1623, col: 21, offset: 52755},
+																													pos:        position{line: 1635, col: 21, offset: 53159},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27223,20 +27815,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1625, col: 13, offset: 52875},
+																										pos: position{line: 1637, col: 13, offset: 53279},
 																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
-																											pos: position{line: 1625, col: 13, offset: 52875},
+																											pos: position{line: 1637, col: 13, offset: 53279},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1625, col: 14, offset: 52876},
+																													pos:        position{line: 1637, col: 14, offset: 53280},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1625, col: 21, offset: 52883},
+																													pos:        position{line: 1637, col: 21, offset: 53287},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27245,15 +27837,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1627, col: 13, offset: 53003},
+																										pos: position{line: 1639, col: 13, offset: 53407},
 																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
-																											pos: position{line: 1627, col: 13, offset: 53003},
+																											pos: position{line: 1639, col: 13, offset: 53407},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1627, col: 13, offset: 53003},
+																													pos: position{line: 1639, col: 13, offset: 53407},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1627, col: 14, offset: 53004},
+																														pos:        position{line: 1639, col: 14, offset: 53408},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27261,7 +27853,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1627, col: 26, offset: 53016},
+																													pos:        position{line: 1639, col: 26, offset: 53420},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27270,15 +27862,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1629, col: 13, offset: 53136},
+																										pos: position{line: 1641, col: 13, offset: 53540},
 																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
-																											pos: position{line: 1629, col: 13, offset: 53136},
+																											pos: position{line: 1641, col: 13, offset: 53540},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1629, col: 13, offset: 53136},
+																													pos: position{line: 1641, col: 13, offset: 53540},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1629, col: 14, offset: 53137},
+																														pos:        position{line: 1641, col: 14, offset: 53541},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27286,7 +27878,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1629, col: 26, offset: 53149},
+																													pos:        position{line: 1641, col: 26, offset: 53553},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27298,12 +27890,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92509},
+																							pos: position{line: 2938, col: 11, offset: 92913},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92509},
+																								pos: position{line: 2938, col: 11, offset: 92913},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92509},
+																									pos:        position{line: 2938, col: 11, offset: 92913},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27316,26 +27908,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1590, col: 5, offset: 51557},
+																			pos:   position{line: 1602, col: 5, offset: 51961},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1536, col: 5, offset: 49990},
+																				pos: position{line: 1548, col: 5, offset: 50394},
 																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
-																					pos: position{line: 1536, col: 5, offset: 49990},
+																					pos: position{line: 1548, col: 5, offset: 50394},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1536, col: 5, offset: 49990},
+																							pos:   position{line: 1548, col: 5, offset: 50394},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1536, col: 14, offset: 49999},
+																								pos: position{line: 1548, col: 14, offset: 50403},
 																								expr: &actionExpr{
-																									pos: position{line: 1536, col: 15, offset: 50000},
+																									pos: position{line: 1548, col: 15, offset: 50404},
 																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1536, col: 15, offset: 50000},
+																										pos: position{line: 1548, col: 15, offset: 50404},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1536, col: 15, offset: 50000},
+																											pos:        position{line: 1548, col: 15, offset: 50404},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27346,28 +27938,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27376,9 +27968,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -27391,27 +27983,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1639, col: 5, offset: 53415},
+																pos: position{line: 1651, col: 5, offset: 53819},
 																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
-																	pos: position{line: 1639, col: 5, offset: 53415},
+																	pos: position{line: 1651, col: 5, offset: 53819},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1639, col: 5, offset: 53415},
+																			pos:   position{line: 1651, col: 5, offset: 53819},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1646, col: 5, offset: 53688},
+																				pos: position{line: 1658, col: 5, offset: 54092},
 																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
-																					pos: position{line: 1646, col: 5, offset: 53688},
+																					pos: position{line: 1658, col: 5, offset: 54092},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1646, col: 5, offset: 53688},
+																							pos: position{line: 1658, col: 5, offset: 54092},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92448},
+																								pos: position{line: 2934, col: 10, offset: 92852},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92448},
+																									pos:        position{line: 2934, col: 10, offset: 92852},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27420,24 +28012,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1647, col: 5, offset: 53700},
+																							pos:   position{line: 1659, col: 5, offset: 54104},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1648, col: 9, offset: 53716},
+																								pos: position{line: 1660, col: 9, offset: 54120},
 																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
-																									pos: position{line: 1648, col: 10, offset: 53717},
+																									pos: position{line: 1660, col: 10, offset: 54121},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1648, col: 11, offset: 53718},
+																											pos:        position{line: 1660, col: 11, offset: 54122},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1648, col: 18, offset: 53725},
+																											pos: position{line: 1660, col: 18, offset: 54129},
 																											expr: &litMatcher{
-																												pos:        position{line: 1648, col: 19, offset: 53726},
+																												pos:        position{line: 1660, col: 19, offset: 54130},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27448,16 +28040,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1651, col: 7, offset: 53816},
+																							pos: position{line: 1663, col: 7, offset: 54220},
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92509},
+																							pos: position{line: 2938, col: 11, offset: 92913},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92509},
+																								pos: position{line: 2938, col: 11, offset: 92913},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92509},
+																									pos:        position{line: 2938, col: 11, offset: 92913},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27470,56 +28062,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1640, col: 5, offset: 53456},
+																			pos:   position{line: 1652, col: 5, offset: 53860},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1640, col: 16, offset: 53467},
+																				pos: position{line: 1652, col: 16, offset: 53871},
 																				expr: &actionExpr{
-																					pos: position{line: 1661, col: 5, offset: 54081},
+																					pos: position{line: 1673, col: 5, offset: 54485},
 																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
-																						pos: position{line: 1661, col: 5, offset: 54081},
+																						pos: position{line: 1673, col: 5, offset: 54485},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1661, col: 5, offset: 54081},
+																								pos: position{line: 1673, col: 5, offset: 54485},
 																								expr: &litMatcher{
-																									pos:        position{line: 1661, col: 6, offset: 54082},
+																									pos:        position{line: 1673, col: 6, offset: 54486},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1661, col: 10, offset: 54086},
+																								pos:   position{line: 1673, col: 10, offset: 54490},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1662, col: 7, offset: 54100},
+																									pos: position{line: 1674, col: 7, offset: 54504},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1662, col: 7, offset: 54100},
+																											pos: position{line: 1674, col: 7, offset: 54504},
 																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
-																												pos:        position{line: 1662, col: 7, offset: 54100},
+																												pos:        position{line: 1674, col: 7, offset: 54504},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1663, col: 7, offset: 54145},
+																											pos: position{line: 1675, col: 7, offset: 54549},
 																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
-																												pos:        position{line: 1663, col: 7, offset: 54145},
+																												pos:        position{line: 1675, col: 7, offset: 54549},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1664, col: 7, offset: 54188},
+																											pos: position{line: 1676, col: 7, offset: 54592},
 																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
-																												pos:        position{line: 1664, col: 7, offset: 54188},
+																												pos:        position{line: 1676, col: 7, offset: 54592},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27529,12 +28121,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2926, col: 11, offset: 92509},
+																								pos: position{line: 2938, col: 11, offset: 92913},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2926, col: 11, offset: 92509},
+																									pos: position{line: 2938, col: 11, offset: 92913},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2926, col: 11, offset: 92509},
+																										pos:        position{line: 2938, col: 11, offset: 92913},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27548,26 +28140,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1641, col: 5, offset: 53506},
+																			pos:   position{line: 1653, col: 5, offset: 53910},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1536, col: 5, offset: 49990},
+																				pos: position{line: 1548, col: 5, offset: 50394},
 																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
-																					pos: position{line: 1536, col: 5, offset: 49990},
+																					pos: position{line: 1548, col: 5, offset: 50394},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1536, col: 5, offset: 49990},
+																							pos:   position{line: 1548, col: 5, offset: 50394},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1536, col: 14, offset: 49999},
+																								pos: position{line: 1548, col: 14, offset: 50403},
 																								expr: &actionExpr{
-																									pos: position{line: 1536, col: 15, offset: 50000},
+																									pos: position{line: 1548, col: 15, offset: 50404},
 																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1536, col: 15, offset: 50000},
+																										pos: position{line: 1548, col: 15, offset: 50404},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1536, col: 15, offset: 50000},
+																											pos:        position{line: 1548, col: 15, offset: 50404},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27578,28 +28170,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27608,9 +28200,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -27623,36 +28215,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1730, col: 5, offset: 56060},
+																pos: position{line: 1742, col: 5, offset: 56464},
 																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1730, col: 5, offset: 56060},
+																	pos: position{line: 1742, col: 5, offset: 56464},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1730, col: 5, offset: 56060},
+																			pos:   position{line: 1742, col: 5, offset: 56464},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1736, col: 5, offset: 56257},
+																				pos: position{line: 1748, col: 5, offset: 56661},
 																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1736, col: 5, offset: 56257},
+																					pos: position{line: 1748, col: 5, offset: 56661},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1736, col: 5, offset: 56257},
+																							pos:        position{line: 1748, col: 5, offset: 56661},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1736, col: 9, offset: 56261},
+																							pos:   position{line: 1748, col: 9, offset: 56665},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1736, col: 14, offset: 56266},
+																								pos: position{line: 1748, col: 14, offset: 56670},
 																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1736, col: 14, offset: 56266},
+																									pos: position{line: 1748, col: 14, offset: 56670},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1736, col: 14, offset: 56266},
+																										pos:        position{line: 1748, col: 14, offset: 56670},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27662,18 +28254,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1736, col: 62, offset: 56314},
+																							pos:        position{line: 1748, col: 62, offset: 56718},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92509},
+																							pos: position{line: 2938, col: 11, offset: 92913},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92509},
+																								pos: position{line: 2938, col: 11, offset: 92913},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92509},
+																									pos:        position{line: 2938, col: 11, offset: 92913},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27686,26 +28278,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1731, col: 5, offset: 56096},
+																			pos:   position{line: 1743, col: 5, offset: 56500},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1536, col: 5, offset: 49990},
+																				pos: position{line: 1548, col: 5, offset: 50394},
 																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
-																					pos: position{line: 1536, col: 5, offset: 49990},
+																					pos: position{line: 1548, col: 5, offset: 50394},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1536, col: 5, offset: 49990},
+																							pos:   position{line: 1548, col: 5, offset: 50394},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1536, col: 14, offset: 49999},
+																								pos: position{line: 1548, col: 14, offset: 50403},
 																								expr: &actionExpr{
-																									pos: position{line: 1536, col: 15, offset: 50000},
+																									pos: position{line: 1548, col: 15, offset: 50404},
 																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1536, col: 15, offset: 50000},
+																										pos: position{line: 1548, col: 15, offset: 50404},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1536, col: 15, offset: 50000},
+																											pos:        position{line: 1548, col: 15, offset: 50404},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27716,28 +28308,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27746,9 +28338,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -27761,35 +28353,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1673, col: 5, offset: 54381},
+																pos: position{line: 1685, col: 5, offset: 54785},
 																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
-																	pos: position{line: 1673, col: 5, offset: 54381},
+																	pos: position{line: 1685, col: 5, offset: 54785},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1673, col: 5, offset: 54381},
+																			pos:   position{line: 1685, col: 5, offset: 54785},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1681, col: 5, offset: 54707},
+																				pos: position{line: 1693, col: 5, offset: 55111},
 																				run: (*parser).callonExtraListElement403,
 																				expr: &seqExpr{
-																					pos: position{line: 1681, col: 5, offset: 54707},
+																					pos: position{line: 1693, col: 5, offset: 55111},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1681, col: 5, offset: 54707},
+																							pos: position{line: 1693, col: 5, offset: 55111},
 																							expr: &seqExpr{
-																								pos: position{line: 2530, col: 31, offset: 81476},
+																								pos: position{line: 2542, col: 31, offset: 81880},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2530, col: 31, offset: 81476},
+																										pos:        position{line: 2542, col: 31, offset: 81880},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2530, col: 36, offset: 81481},
+																										pos: position{line: 2542, col: 36, offset: 81885},
 																										expr: &litMatcher{
-																											pos:        position{line: 2530, col: 37, offset: 81482},
+																											pos:        position{line: 2542, col: 37, offset: 81886},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -27799,28 +28391,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1682, col: 5, offset: 54739},
+																							pos: position{line: 1694, col: 5, offset: 55143},
 																							expr: &seqExpr{
-																								pos: position{line: 1682, col: 6, offset: 54740},
+																								pos: position{line: 1694, col: 6, offset: 55144},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1682, col: 6, offset: 54740},
+																										pos: position{line: 1694, col: 6, offset: 55144},
 																										expr: &actionExpr{
-																											pos: position{line: 1687, col: 5, offset: 54890},
+																											pos: position{line: 1699, col: 5, offset: 55294},
 																											run: (*parser).callonExtraListElement413,
 																											expr: &seqExpr{
-																												pos: position{line: 1687, col: 5, offset: 54890},
+																												pos: position{line: 1699, col: 5, offset: 55294},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1687, col: 5, offset: 54890},
+																														pos:   position{line: 1699, col: 5, offset: 55294},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1687, col: 16, offset: 54901},
+																															pos: position{line: 1699, col: 16, offset: 55305},
 																															run: (*parser).callonExtraListElement416,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1687, col: 16, offset: 54901},
+																																pos: position{line: 1699, col: 16, offset: 55305},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1687, col: 17, offset: 54902},
+																																	pos:        position{line: 1699, col: 17, offset: 55306},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -27829,7 +28421,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1690, col: 5, offset: 54959},
+																														pos: position{line: 1702, col: 5, offset: 55363},
 																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
@@ -27837,30 +28429,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1682, col: 35, offset: 54769},
+																										pos: position{line: 1694, col: 35, offset: 55173},
 																										expr: &choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92846},
+																											pos: position{line: 2956, col: 8, offset: 93250},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92619},
+																													pos: position{line: 2943, col: 12, offset: 93023},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92620},
+																														pos: position{line: 2943, col: 13, offset: 93024},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92620},
+																																pos:        position{line: 2943, col: 13, offset: 93024},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92627},
+																																pos:        position{line: 2943, col: 20, offset: 93031},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92636},
+																																pos:        position{line: 2943, col: 29, offset: 93040},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27869,16 +28461,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92796},
+																													pos: position{line: 2953, col: 8, offset: 93200},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92797,
+																														line: 2953, col: 9, offset: 93201,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1682, col: 40, offset: 54774,
+																										line: 1694, col: 40, offset: 55178,
 																									},
 																								},
 																							},
@@ -27888,24 +28480,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1674, col: 5, offset: 54416},
+																			pos:   position{line: 1686, col: 5, offset: 54820},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1687, col: 5, offset: 54890},
+																				pos: position{line: 1699, col: 5, offset: 55294},
 																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1687, col: 5, offset: 54890},
+																					pos: position{line: 1699, col: 5, offset: 55294},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1687, col: 5, offset: 54890},
+																							pos:   position{line: 1699, col: 5, offset: 55294},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1687, col: 16, offset: 54901},
+																								pos: position{line: 1699, col: 16, offset: 55305},
 																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1687, col: 16, offset: 54901},
+																									pos: position{line: 1699, col: 16, offset: 55305},
 																									expr: &litMatcher{
-																										pos:        position{line: 1687, col: 17, offset: 54902},
+																										pos:        position{line: 1699, col: 17, offset: 55306},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27914,7 +28506,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1690, col: 5, offset: 54959},
+																							pos: position{line: 1702, col: 5, offset: 55363},
 																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
@@ -27922,24 +28514,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1675, col: 5, offset: 54461},
+																			pos:   position{line: 1687, col: 5, offset: 54865},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1698, col: 5, offset: 55208},
+																				pos: position{line: 1710, col: 5, offset: 55612},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1700, col: 9, offset: 55274},
+																						pos: position{line: 1712, col: 9, offset: 55678},
 																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1700, col: 9, offset: 55274},
+																							pos: position{line: 1712, col: 9, offset: 55678},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1700, col: 9, offset: 55274},
+																									pos: position{line: 1712, col: 9, offset: 55678},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92448},
+																										pos: position{line: 2934, col: 10, offset: 92852},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92448},
+																											pos:        position{line: 2934, col: 10, offset: 92852},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27948,28 +28540,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92846},
+																									pos: position{line: 2956, col: 8, offset: 93250},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92619},
+																											pos: position{line: 2943, col: 12, offset: 93023},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92620},
+																												pos: position{line: 2943, col: 13, offset: 93024},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92620},
+																														pos:        position{line: 2943, col: 13, offset: 93024},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92627},
+																														pos:        position{line: 2943, col: 20, offset: 93031},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92636},
+																														pos:        position{line: 2943, col: 29, offset: 93040},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27978,34 +28570,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92796},
+																											pos: position{line: 2953, col: 8, offset: 93200},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92797,
+																												line: 2953, col: 9, offset: 93201,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1701, col: 9, offset: 55293},
+																									pos: position{line: 1713, col: 9, offset: 55697},
 																									expr: &actionExpr{
-																										pos: position{line: 690, col: 14, offset: 22173},
+																										pos: position{line: 702, col: 14, offset: 22577},
 																										run: (*parser).callonExtraListElement454,
 																										expr: &seqExpr{
-																											pos: position{line: 690, col: 14, offset: 22173},
+																											pos: position{line: 702, col: 14, offset: 22577},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2939, col: 11, offset: 92782},
+																													pos: position{line: 2951, col: 11, offset: 93186},
 																													expr: &anyMatcher{
-																														line: 2939, col: 13, offset: 92784,
+																														line: 2951, col: 13, offset: 93188,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 690, col: 21, offset: 22180},
+																													pos: position{line: 702, col: 21, offset: 22584},
 																													expr: &actionExpr{
-																														pos: position{line: 2922, col: 10, offset: 92448},
+																														pos: position{line: 2934, col: 10, offset: 92852},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2922, col: 10, offset: 92448},
+																															pos:        position{line: 2934, col: 10, offset: 92852},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -28014,28 +28606,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2944, col: 8, offset: 92846},
+																													pos: position{line: 2956, col: 8, offset: 93250},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2931, col: 12, offset: 92619},
+																															pos: position{line: 2943, col: 12, offset: 93023},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2931, col: 13, offset: 92620},
+																																pos: position{line: 2943, col: 13, offset: 93024},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 13, offset: 92620},
+																																		pos:        position{line: 2943, col: 13, offset: 93024},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 20, offset: 92627},
+																																		pos:        position{line: 2943, col: 20, offset: 93031},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2931, col: 29, offset: 92636},
+																																		pos:        position{line: 2943, col: 29, offset: 93040},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28044,9 +28636,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2941, col: 8, offset: 92796},
+																															pos: position{line: 2953, col: 8, offset: 93200},
 																															expr: &anyMatcher{
-																																line: 2941, col: 9, offset: 92797,
+																																line: 2953, col: 9, offset: 93201,
 																															},
 																														},
 																													},
@@ -28059,18 +28651,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1707, col: 9, offset: 55422},
+																						pos: position{line: 1719, col: 9, offset: 55826},
 																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1707, col: 9, offset: 55422},
+																							pos: position{line: 1719, col: 9, offset: 55826},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2926, col: 11, offset: 92509},
+																									pos: position{line: 2938, col: 11, offset: 92913},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2926, col: 11, offset: 92509},
+																										pos: position{line: 2938, col: 11, offset: 92913},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2926, col: 11, offset: 92509},
+																											pos:        position{line: 2938, col: 11, offset: 92913},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28079,15 +28671,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1708, col: 9, offset: 55495},
+																									pos:   position{line: 1720, col: 9, offset: 55899},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1708, col: 18, offset: 55504},
+																										pos: position{line: 1720, col: 18, offset: 55908},
 																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1708, col: 18, offset: 55504},
+																											pos: position{line: 1720, col: 18, offset: 55908},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1708, col: 18, offset: 55504},
+																												pos:        position{line: 1720, col: 18, offset: 55908},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28097,28 +28689,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92846},
+																									pos: position{line: 2956, col: 8, offset: 93250},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92619},
+																											pos: position{line: 2943, col: 12, offset: 93023},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92620},
+																												pos: position{line: 2943, col: 13, offset: 93024},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92620},
+																														pos:        position{line: 2943, col: 13, offset: 93024},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92627},
+																														pos:        position{line: 2943, col: 20, offset: 93031},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92636},
+																														pos:        position{line: 2943, col: 29, offset: 93040},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28127,9 +28719,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92796},
+																											pos: position{line: 2953, col: 8, offset: 93200},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92797,
+																												line: 2953, col: 9, offset: 93201,
 																											},
 																										},
 																									},
@@ -28150,40 +28742,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1515, col: 11, offset: 49354},
+										pos:  position{line: 1527, col: 11, offset: 49758},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2525, col: 22, offset: 81226},
+										pos: position{line: 2537, col: 22, offset: 81630},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 22, offset: 81226},
+											pos: position{line: 2537, col: 22, offset: 81630},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2530, col: 31, offset: 81476},
+													pos:        position{line: 2542, col: 31, offset: 81880},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2530, col: 36, offset: 81481},
+													pos: position{line: 2542, col: 36, offset: 81885},
 													expr: &litMatcher{
-														pos:        position{line: 2530, col: 37, offset: 81482},
+														pos:        position{line: 2542, col: 37, offset: 81886},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2525, col: 49, offset: 81253},
+													pos:   position{line: 2537, col: 49, offset: 81657},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 13, offset: 90974},
+														pos: position{line: 2880, col: 13, offset: 91378},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2868, col: 13, offset: 90974},
+															pos: position{line: 2880, col: 13, offset: 91378},
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 13, offset: 90974},
+																pos:        position{line: 2880, col: 13, offset: 91378},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28193,28 +28785,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92846},
+													pos: position{line: 2956, col: 8, offset: 93250},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92619},
+															pos: position{line: 2943, col: 12, offset: 93023},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92620},
+																pos: position{line: 2943, col: 13, offset: 93024},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92620},
+																		pos:        position{line: 2943, col: 13, offset: 93024},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92627},
+																		pos:        position{line: 2943, col: 20, offset: 93031},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92636},
+																		pos:        position{line: 2943, col: 29, offset: 93040},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28223,9 +28815,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92796},
+															pos: position{line: 2953, col: 8, offset: 93200},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92797,
+																line: 2953, col: 9, offset: 93201,
 															},
 														},
 													},
@@ -28234,32 +28826,32 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1523, col: 5, offset: 49632},
+										pos: position{line: 1535, col: 5, offset: 50036},
 										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
-											pos: position{line: 1523, col: 5, offset: 49632},
+											pos: position{line: 1535, col: 5, offset: 50036},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1523, col: 5, offset: 49632},
+													pos: position{line: 1535, col: 5, offset: 50036},
 													expr: &actionExpr{
-														pos: position{line: 690, col: 14, offset: 22173},
+														pos: position{line: 702, col: 14, offset: 22577},
 														run: (*parser).callonExtraListElement507,
 														expr: &seqExpr{
-															pos: position{line: 690, col: 14, offset: 22173},
+															pos: position{line: 702, col: 14, offset: 22577},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2939, col: 11, offset: 92782},
+																	pos: position{line: 2951, col: 11, offset: 93186},
 																	expr: &anyMatcher{
-																		line: 2939, col: 13, offset: 92784,
+																		line: 2951, col: 13, offset: 93188,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 690, col: 21, offset: 22180},
+																	pos: position{line: 702, col: 21, offset: 22584},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92448},
+																		pos: position{line: 2934, col: 10, offset: 92852},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92448},
+																			pos:        position{line: 2934, col: 10, offset: 92852},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28268,28 +28860,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92846},
+																	pos: position{line: 2956, col: 8, offset: 93250},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92619},
+																			pos: position{line: 2943, col: 12, offset: 93023},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92620},
+																				pos: position{line: 2943, col: 13, offset: 93024},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92620},
+																						pos:        position{line: 2943, col: 13, offset: 93024},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92627},
+																						pos:        position{line: 2943, col: 20, offset: 93031},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92636},
+																						pos:        position{line: 2943, col: 29, offset: 93040},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28298,9 +28890,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92796},
+																			pos: position{line: 2953, col: 8, offset: 93200},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92797,
+																				line: 2953, col: 9, offset: 93201,
 																			},
 																		},
 																	},
@@ -28310,23 +28902,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1524, col: 5, offset: 49647},
+													pos: position{line: 1536, col: 5, offset: 50051},
 													expr: &seqExpr{
-														pos: position{line: 1555, col: 27, offset: 50507},
+														pos: position{line: 1567, col: 27, offset: 50911},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1555, col: 27, offset: 50507},
+																pos:        position{line: 1567, col: 27, offset: 50911},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1555, col: 31, offset: 50511},
+																pos: position{line: 1567, col: 31, offset: 50915},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92448},
+																	pos: position{line: 2934, col: 10, offset: 92852},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92448},
+																		pos:        position{line: 2934, col: 10, offset: 92852},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28335,25 +28927,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92619},
+																pos: position{line: 2943, col: 12, offset: 93023},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92620},
+																	pos: position{line: 2943, col: 13, offset: 93024},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92620},
+																			pos:        position{line: 2943, col: 13, offset: 93024},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92627},
+																			pos:        position{line: 2943, col: 20, offset: 93031},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92636},
+																			pos:        position{line: 2943, col: 29, offset: 93040},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28365,20 +28957,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1525, col: 5, offset: 49675},
+													pos: position{line: 1537, col: 5, offset: 50079},
 													expr: &actionExpr{
-														pos: position{line: 1596, col: 5, offset: 51726},
+														pos: position{line: 1608, col: 5, offset: 52130},
 														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
-															pos: position{line: 1596, col: 5, offset: 51726},
+															pos: position{line: 1608, col: 5, offset: 52130},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1596, col: 5, offset: 51726},
+																	pos: position{line: 1608, col: 5, offset: 52130},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92448},
+																		pos: position{line: 2934, col: 10, offset: 92852},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92448},
+																			pos:        position{line: 2934, col: 10, offset: 92852},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28387,27 +28979,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1596, col: 12, offset: 51733},
+																	pos:   position{line: 1608, col: 12, offset: 52137},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1598, col: 9, offset: 51796},
+																		pos: position{line: 1610, col: 9, offset: 52200},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1598, col: 9, offset: 51796},
+																				pos: position{line: 1610, col: 9, offset: 52200},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1598, col: 9, offset: 51796},
+																					pos: position{line: 1610, col: 9, offset: 52200},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1598, col: 9, offset: 51796},
+																							pos:   position{line: 1610, col: 9, offset: 52200},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1598, col: 16, offset: 51803},
+																								pos: position{line: 1610, col: 16, offset: 52207},
 																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1598, col: 16, offset: 51803},
+																									pos: position{line: 1610, col: 16, offset: 52207},
 																									expr: &litMatcher{
-																										pos:        position{line: 1598, col: 17, offset: 51804},
+																										pos:        position{line: 1610, col: 17, offset: 52208},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28416,22 +29008,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1602, col: 9, offset: 51904},
+																							pos: position{line: 1614, col: 9, offset: 52308},
 																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 11, offset: 52621},
+																				pos: position{line: 1633, col: 11, offset: 53025},
 																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 11, offset: 52621},
+																					pos: position{line: 1633, col: 11, offset: 53025},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1621, col: 11, offset: 52621},
+																							pos: position{line: 1633, col: 11, offset: 53025},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1621, col: 12, offset: 52622},
+																								pos:        position{line: 1633, col: 12, offset: 53026},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28439,7 +29031,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 20, offset: 52630},
+																							pos:        position{line: 1633, col: 20, offset: 53034},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28448,20 +29040,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1623, col: 13, offset: 52747},
+																				pos: position{line: 1635, col: 13, offset: 53151},
 																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
-																					pos: position{line: 1623, col: 13, offset: 52747},
+																					pos: position{line: 1635, col: 13, offset: 53151},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1623, col: 14, offset: 52748},
+																							pos:        position{line: 1635, col: 14, offset: 53152},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1623, col: 21, offset: 52755},
+																							pos:        position{line: 1635, col: 21, offset: 53159},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28470,20 +29062,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1625, col: 13, offset: 52875},
+																				pos: position{line: 1637, col: 13, offset: 53279},
 																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
-																					pos: position{line: 1625, col: 13, offset: 52875},
+																					pos: position{line: 1637, col: 13, offset: 53279},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1625, col: 14, offset: 52876},
+																							pos:        position{line: 1637, col: 14, offset: 53280},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1625, col: 21, offset: 52883},
+																							pos:        position{line: 1637, col: 21, offset: 53287},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28492,15 +29084,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1627, col: 13, offset: 53003},
+																				pos: position{line: 1639, col: 13, offset: 53407},
 																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
-																					pos: position{line: 1627, col: 13, offset: 53003},
+																					pos: position{line: 1639, col: 13, offset: 53407},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1627, col: 13, offset: 53003},
+																							pos: position{line: 1639, col: 13, offset: 53407},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1627, col: 14, offset: 53004},
+																								pos:        position{line: 1639, col: 14, offset: 53408},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28508,7 +29100,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1627, col: 26, offset: 53016},
+																							pos:        position{line: 1639, col: 26, offset: 53420},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28517,15 +29109,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1629, col: 13, offset: 53136},
+																				pos: position{line: 1641, col: 13, offset: 53540},
 																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
-																					pos: position{line: 1629, col: 13, offset: 53136},
+																					pos: position{line: 1641, col: 13, offset: 53540},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1629, col: 13, offset: 53136},
+																							pos: position{line: 1641, col: 13, offset: 53540},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1629, col: 14, offset: 53137},
+																								pos:        position{line: 1641, col: 14, offset: 53541},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28533,7 +29125,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1629, col: 26, offset: 53149},
+																							pos:        position{line: 1641, col: 26, offset: 53553},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28545,12 +29137,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92509},
+																	pos: position{line: 2938, col: 11, offset: 92913},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92509},
+																		pos: position{line: 2938, col: 11, offset: 92913},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92509},
+																			pos:        position{line: 2938, col: 11, offset: 92913},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28563,20 +29155,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1526, col: 5, offset: 49705},
+													pos: position{line: 1538, col: 5, offset: 50109},
 													expr: &actionExpr{
-														pos: position{line: 1646, col: 5, offset: 53688},
+														pos: position{line: 1658, col: 5, offset: 54092},
 														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
-															pos: position{line: 1646, col: 5, offset: 53688},
+															pos: position{line: 1658, col: 5, offset: 54092},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1646, col: 5, offset: 53688},
+																	pos: position{line: 1658, col: 5, offset: 54092},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92448},
+																		pos: position{line: 2934, col: 10, offset: 92852},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92448},
+																			pos:        position{line: 2934, col: 10, offset: 92852},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28585,24 +29177,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1647, col: 5, offset: 53700},
+																	pos:   position{line: 1659, col: 5, offset: 54104},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1648, col: 9, offset: 53716},
+																		pos: position{line: 1660, col: 9, offset: 54120},
 																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
-																			pos: position{line: 1648, col: 10, offset: 53717},
+																			pos: position{line: 1660, col: 10, offset: 54121},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1648, col: 11, offset: 53718},
+																					pos:        position{line: 1660, col: 11, offset: 54122},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1648, col: 18, offset: 53725},
+																					pos: position{line: 1660, col: 18, offset: 54129},
 																					expr: &litMatcher{
-																						pos:        position{line: 1648, col: 19, offset: 53726},
+																						pos:        position{line: 1660, col: 19, offset: 54130},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28613,16 +29205,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1651, col: 7, offset: 53816},
+																	pos: position{line: 1663, col: 7, offset: 54220},
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92509},
+																	pos: position{line: 2938, col: 11, offset: 92913},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92509},
+																		pos: position{line: 2938, col: 11, offset: 92913},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92509},
+																			pos:        position{line: 2938, col: 11, offset: 92913},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28635,29 +29227,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1527, col: 5, offset: 49737},
+													pos: position{line: 1539, col: 5, offset: 50141},
 													expr: &actionExpr{
-														pos: position{line: 1736, col: 5, offset: 56257},
+														pos: position{line: 1748, col: 5, offset: 56661},
 														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1736, col: 5, offset: 56257},
+															pos: position{line: 1748, col: 5, offset: 56661},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1736, col: 5, offset: 56257},
+																	pos:        position{line: 1748, col: 5, offset: 56661},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1736, col: 9, offset: 56261},
+																	pos:   position{line: 1748, col: 9, offset: 56665},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1736, col: 14, offset: 56266},
+																		pos: position{line: 1748, col: 14, offset: 56670},
 																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1736, col: 14, offset: 56266},
+																			pos: position{line: 1748, col: 14, offset: 56670},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1736, col: 14, offset: 56266},
+																				pos:        position{line: 1748, col: 14, offset: 56670},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28667,18 +29259,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1736, col: 62, offset: 56314},
+																	pos:        position{line: 1748, col: 62, offset: 56718},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92509},
+																	pos: position{line: 2938, col: 11, offset: 92913},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92509},
+																		pos: position{line: 2938, col: 11, offset: 92913},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92509},
+																			pos:        position{line: 2938, col: 11, offset: 92913},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28691,31 +29283,31 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1528, col: 5, offset: 49767},
+													pos: position{line: 1540, col: 5, offset: 50171},
 													expr: &seqExpr{
-														pos: position{line: 1528, col: 7, offset: 49769},
+														pos: position{line: 1540, col: 7, offset: 50173},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1681, col: 5, offset: 54707},
+																pos: position{line: 1693, col: 5, offset: 55111},
 																run: (*parser).callonExtraListElement604,
 																expr: &seqExpr{
-																	pos: position{line: 1681, col: 5, offset: 54707},
+																	pos: position{line: 1693, col: 5, offset: 55111},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1681, col: 5, offset: 54707},
+																			pos: position{line: 1693, col: 5, offset: 55111},
 																			expr: &seqExpr{
-																				pos: position{line: 2530, col: 31, offset: 81476},
+																				pos: position{line: 2542, col: 31, offset: 81880},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2530, col: 31, offset: 81476},
+																						pos:        position{line: 2542, col: 31, offset: 81880},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2530, col: 36, offset: 81481},
+																						pos: position{line: 2542, col: 36, offset: 81885},
 																						expr: &litMatcher{
-																							pos:        position{line: 2530, col: 37, offset: 81482},
+																							pos:        position{line: 2542, col: 37, offset: 81886},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -28725,28 +29317,28 @@ var g = &grammar{
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1682, col: 5, offset: 54739},
+																			pos: position{line: 1694, col: 5, offset: 55143},
 																			expr: &seqExpr{
-																				pos: position{line: 1682, col: 6, offset: 54740},
+																				pos: position{line: 1694, col: 6, offset: 55144},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1682, col: 6, offset: 54740},
+																						pos: position{line: 1694, col: 6, offset: 55144},
 																						expr: &actionExpr{
-																							pos: position{line: 1687, col: 5, offset: 54890},
+																							pos: position{line: 1699, col: 5, offset: 55294},
 																							run: (*parser).callonExtraListElement614,
 																							expr: &seqExpr{
-																								pos: position{line: 1687, col: 5, offset: 54890},
+																								pos: position{line: 1699, col: 5, offset: 55294},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1687, col: 5, offset: 54890},
+																										pos:   position{line: 1699, col: 5, offset: 55294},
 																										label: "separator",
 																										expr: &actionExpr{
-																											pos: position{line: 1687, col: 16, offset: 54901},
+																											pos: position{line: 1699, col: 16, offset: 55305},
 																											run: (*parser).callonExtraListElement617,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1687, col: 16, offset: 54901},
+																												pos: position{line: 1699, col: 16, offset: 55305},
 																												expr: &litMatcher{
-																													pos:        position{line: 1687, col: 17, offset: 54902},
+																													pos:        position{line: 1699, col: 17, offset: 55306},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
@@ -28755,7 +29347,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1690, col: 5, offset: 54959},
+																										pos: position{line: 1702, col: 5, offset: 55363},
 																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
@@ -28763,30 +29355,30 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1682, col: 35, offset: 54769},
+																						pos: position{line: 1694, col: 35, offset: 55173},
 																						expr: &choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28795,16 +29387,16 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1682, col: 40, offset: 54774,
+																						line: 1694, col: 40, offset: 55178,
 																					},
 																				},
 																			},
@@ -28813,21 +29405,21 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1687, col: 5, offset: 54890},
+																pos: position{line: 1699, col: 5, offset: 55294},
 																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 5, offset: 54890},
+																	pos: position{line: 1699, col: 5, offset: 55294},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1687, col: 5, offset: 54890},
+																			pos:   position{line: 1699, col: 5, offset: 55294},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1687, col: 16, offset: 54901},
+																				pos: position{line: 1699, col: 16, offset: 55305},
 																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1687, col: 16, offset: 54901},
+																					pos: position{line: 1699, col: 16, offset: 55305},
 																					expr: &litMatcher{
-																						pos:        position{line: 1687, col: 17, offset: 54902},
+																						pos:        position{line: 1699, col: 17, offset: 55306},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28836,7 +29428,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1690, col: 5, offset: 54959},
+																			pos: position{line: 1702, col: 5, offset: 55363},
 																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
@@ -28846,17 +29438,17 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1529, col: 5, offset: 49825},
+													pos: position{line: 1541, col: 5, offset: 50229},
 													expr: &actionExpr{
-														pos: position{line: 737, col: 5, offset: 23726},
+														pos: position{line: 749, col: 5, offset: 24130},
 														run: (*parser).callonExtraListElement639,
 														expr: &seqExpr{
-															pos: position{line: 737, col: 5, offset: 23726},
+															pos: position{line: 749, col: 5, offset: 24130},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 737, col: 5, offset: 23726},
+																	pos: position{line: 749, col: 5, offset: 24130},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2812, col: 13, offset: 89543},
+																		pos:        position{line: 2824, col: 13, offset: 89947},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28864,36 +29456,36 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 738, col: 5, offset: 23756},
+																	pos:   position{line: 750, col: 5, offset: 24160},
 																	label: "delimiter",
 																	expr: &choiceExpr{
-																		pos: position{line: 739, col: 9, offset: 23776},
+																		pos: position{line: 751, col: 9, offset: 24180},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 753, col: 5, offset: 24268},
+																				pos: position{line: 765, col: 5, offset: 24672},
 																				run: (*parser).callonExtraListElement645,
 																				expr: &seqExpr{
-																					pos: position{line: 753, col: 5, offset: 24268},
+																					pos: position{line: 765, col: 5, offset: 24672},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 753, col: 5, offset: 24268},
+																							pos:   position{line: 765, col: 5, offset: 24672},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 753, col: 16, offset: 24279},
+																								pos: position{line: 765, col: 16, offset: 24683},
 																								run: (*parser).callonExtraListElement648,
 																								expr: &seqExpr{
-																									pos: position{line: 753, col: 16, offset: 24279},
+																									pos: position{line: 765, col: 16, offset: 24683},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 753, col: 16, offset: 24279},
+																											pos:        position{line: 765, col: 16, offset: 24683},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 753, col: 23, offset: 24286},
+																											pos: position{line: 765, col: 23, offset: 24690},
 																											expr: &litMatcher{
-																												pos:        position{line: 753, col: 23, offset: 24286},
+																												pos:        position{line: 765, col: 23, offset: 24690},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -28904,12 +29496,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 755, col: 8, offset: 24370},
+																							pos: position{line: 767, col: 8, offset: 24774},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92448},
+																								pos: position{line: 2934, col: 10, offset: 92852},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92448},
+																									pos:        position{line: 2934, col: 10, offset: 92852},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28918,28 +29510,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28948,9 +29540,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -28959,30 +29551,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 760, col: 5, offset: 24516},
+																				pos: position{line: 772, col: 5, offset: 24920},
 																				run: (*parser).callonExtraListElement664,
 																				expr: &seqExpr{
-																					pos: position{line: 760, col: 5, offset: 24516},
+																					pos: position{line: 772, col: 5, offset: 24920},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 760, col: 5, offset: 24516},
+																							pos:   position{line: 772, col: 5, offset: 24920},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 760, col: 16, offset: 24527},
+																								pos: position{line: 772, col: 16, offset: 24931},
 																								run: (*parser).callonExtraListElement667,
 																								expr: &seqExpr{
-																									pos: position{line: 760, col: 16, offset: 24527},
+																									pos: position{line: 772, col: 16, offset: 24931},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 760, col: 16, offset: 24527},
+																											pos:        position{line: 772, col: 16, offset: 24931},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 760, col: 23, offset: 24534},
+																											pos: position{line: 772, col: 23, offset: 24938},
 																											expr: &litMatcher{
-																												pos:        position{line: 760, col: 23, offset: 24534},
+																												pos:        position{line: 772, col: 23, offset: 24938},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -28993,12 +29585,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 762, col: 8, offset: 24618},
+																							pos: position{line: 774, col: 8, offset: 25022},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92448},
+																								pos: position{line: 2934, col: 10, offset: 92852},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92448},
+																									pos:        position{line: 2934, col: 10, offset: 92852},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29007,28 +29599,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29037,9 +29629,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -29048,27 +29640,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 773, col: 26, offset: 25004},
+																				pos: position{line: 785, col: 26, offset: 25408},
 																				run: (*parser).callonExtraListElement683,
 																				expr: &seqExpr{
-																					pos: position{line: 773, col: 26, offset: 25004},
+																					pos: position{line: 785, col: 26, offset: 25408},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 773, col: 26, offset: 25004},
+																							pos:        position{line: 785, col: 26, offset: 25408},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 773, col: 32, offset: 25010},
+																							pos:   position{line: 785, col: 32, offset: 25414},
 																							label: "language",
 																							expr: &actionExpr{
-																								pos: position{line: 777, col: 13, offset: 25140},
+																								pos: position{line: 789, col: 13, offset: 25544},
 																								run: (*parser).callonExtraListElement687,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 777, col: 14, offset: 25141},
+																									pos: position{line: 789, col: 14, offset: 25545},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 777, col: 14, offset: 25141},
+																										pos:        position{line: 789, col: 14, offset: 25545},
 																										val:        "[^\\r\\n` ]",
 																										chars:      []rune{'\r', '\n', '`', ' '},
 																										ignoreCase: false,
@@ -29078,12 +29670,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 773, col: 52, offset: 25030},
+																							pos: position{line: 785, col: 52, offset: 25434},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92448},
+																								pos: position{line: 2934, col: 10, offset: 92852},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92448},
+																									pos:        position{line: 2934, col: 10, offset: 92852},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29092,28 +29684,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29122,9 +29714,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -29133,30 +29725,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 767, col: 5, offset: 24763},
+																				pos: position{line: 779, col: 5, offset: 25167},
 																				run: (*parser).callonExtraListElement701,
 																				expr: &seqExpr{
-																					pos: position{line: 767, col: 5, offset: 24763},
+																					pos: position{line: 779, col: 5, offset: 25167},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 767, col: 5, offset: 24763},
+																							pos:   position{line: 779, col: 5, offset: 25167},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 767, col: 16, offset: 24774},
+																								pos: position{line: 779, col: 16, offset: 25178},
 																								run: (*parser).callonExtraListElement704,
 																								expr: &seqExpr{
-																									pos: position{line: 767, col: 16, offset: 24774},
+																									pos: position{line: 779, col: 16, offset: 25178},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 767, col: 16, offset: 24774},
+																											pos:        position{line: 779, col: 16, offset: 25178},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 767, col: 22, offset: 24780},
+																											pos: position{line: 779, col: 22, offset: 25184},
 																											expr: &litMatcher{
-																												pos:        position{line: 767, col: 22, offset: 24780},
+																												pos:        position{line: 779, col: 22, offset: 25184},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -29167,12 +29759,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 769, col: 8, offset: 24864},
+																							pos: position{line: 781, col: 8, offset: 25268},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92448},
+																								pos: position{line: 2934, col: 10, offset: 92852},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92448},
+																									pos:        position{line: 2934, col: 10, offset: 92852},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29181,28 +29773,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29211,9 +29803,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -29222,30 +29814,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 782, col: 5, offset: 25300},
+																				pos: position{line: 794, col: 5, offset: 25704},
 																				run: (*parser).callonExtraListElement720,
 																				expr: &seqExpr{
-																					pos: position{line: 782, col: 5, offset: 25300},
+																					pos: position{line: 794, col: 5, offset: 25704},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 782, col: 5, offset: 25300},
+																							pos:   position{line: 794, col: 5, offset: 25704},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 782, col: 16, offset: 25311},
+																								pos: position{line: 794, col: 16, offset: 25715},
 																								run: (*parser).callonExtraListElement723,
 																								expr: &seqExpr{
-																									pos: position{line: 782, col: 16, offset: 25311},
+																									pos: position{line: 794, col: 16, offset: 25715},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 782, col: 16, offset: 25311},
+																											pos:        position{line: 794, col: 16, offset: 25715},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 782, col: 23, offset: 25318},
+																											pos: position{line: 794, col: 23, offset: 25722},
 																											expr: &litMatcher{
-																												pos:        position{line: 782, col: 23, offset: 25318},
+																												pos:        position{line: 794, col: 23, offset: 25722},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -29256,12 +29848,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 784, col: 8, offset: 25402},
+																							pos: position{line: 796, col: 8, offset: 25806},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92448},
+																								pos: position{line: 2934, col: 10, offset: 92852},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92448},
+																									pos:        position{line: 2934, col: 10, offset: 92852},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29270,28 +29862,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29300,9 +29892,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -29311,30 +29903,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 796, col: 5, offset: 25776},
+																				pos: position{line: 808, col: 5, offset: 26180},
 																				run: (*parser).callonExtraListElement739,
 																				expr: &seqExpr{
-																					pos: position{line: 796, col: 5, offset: 25776},
+																					pos: position{line: 808, col: 5, offset: 26180},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 796, col: 5, offset: 25776},
+																							pos:   position{line: 808, col: 5, offset: 26180},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 796, col: 16, offset: 25787},
+																								pos: position{line: 808, col: 16, offset: 26191},
 																								run: (*parser).callonExtraListElement742,
 																								expr: &seqExpr{
-																									pos: position{line: 796, col: 16, offset: 25787},
+																									pos: position{line: 808, col: 16, offset: 26191},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 796, col: 16, offset: 25787},
+																											pos:        position{line: 808, col: 16, offset: 26191},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 796, col: 23, offset: 25794},
+																											pos: position{line: 808, col: 23, offset: 26198},
 																											expr: &litMatcher{
-																												pos:        position{line: 796, col: 23, offset: 25794},
+																												pos:        position{line: 808, col: 23, offset: 26198},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -29345,12 +29937,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 798, col: 8, offset: 25878},
+																							pos: position{line: 810, col: 8, offset: 26282},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92448},
+																								pos: position{line: 2934, col: 10, offset: 92852},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92448},
+																									pos:        position{line: 2934, col: 10, offset: 92852},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29359,28 +29951,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29389,9 +29981,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -29400,30 +29992,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 803, col: 5, offset: 26028},
+																				pos: position{line: 815, col: 5, offset: 26432},
 																				run: (*parser).callonExtraListElement758,
 																				expr: &seqExpr{
-																					pos: position{line: 803, col: 5, offset: 26028},
+																					pos: position{line: 815, col: 5, offset: 26432},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 803, col: 5, offset: 26028},
+																							pos:   position{line: 815, col: 5, offset: 26432},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 803, col: 16, offset: 26039},
+																								pos: position{line: 815, col: 16, offset: 26443},
 																								run: (*parser).callonExtraListElement761,
 																								expr: &seqExpr{
-																									pos: position{line: 803, col: 16, offset: 26039},
+																									pos: position{line: 815, col: 16, offset: 26443},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 803, col: 16, offset: 26039},
+																											pos:        position{line: 815, col: 16, offset: 26443},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 803, col: 23, offset: 26046},
+																											pos: position{line: 815, col: 23, offset: 26450},
 																											expr: &litMatcher{
-																												pos:        position{line: 803, col: 23, offset: 26046},
+																												pos:        position{line: 815, col: 23, offset: 26450},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -29434,12 +30026,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 805, col: 8, offset: 26130},
+																							pos: position{line: 817, col: 8, offset: 26534},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92448},
+																								pos: position{line: 2934, col: 10, offset: 92852},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92448},
+																									pos:        position{line: 2934, col: 10, offset: 92852},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29448,28 +30040,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29478,9 +30070,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -29489,30 +30081,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26278},
+																				pos: position{line: 822, col: 5, offset: 26682},
 																				run: (*parser).callonExtraListElement777,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26278},
+																					pos: position{line: 822, col: 5, offset: 26682},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 810, col: 5, offset: 26278},
+																							pos:   position{line: 822, col: 5, offset: 26682},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 810, col: 16, offset: 26289},
+																								pos: position{line: 822, col: 16, offset: 26693},
 																								run: (*parser).callonExtraListElement780,
 																								expr: &seqExpr{
-																									pos: position{line: 810, col: 16, offset: 26289},
+																									pos: position{line: 822, col: 16, offset: 26693},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 810, col: 16, offset: 26289},
+																											pos:        position{line: 822, col: 16, offset: 26693},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 810, col: 23, offset: 26296},
+																											pos: position{line: 822, col: 23, offset: 26700},
 																											expr: &litMatcher{
-																												pos:        position{line: 810, col: 23, offset: 26296},
+																												pos:        position{line: 822, col: 23, offset: 26700},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -29523,12 +30115,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 812, col: 8, offset: 26380},
+																							pos: position{line: 824, col: 8, offset: 26784},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92448},
+																								pos: position{line: 2934, col: 10, offset: 92852},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92448},
+																									pos:        position{line: 2934, col: 10, offset: 92852},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29537,28 +30129,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29567,9 +30159,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -29578,30 +30170,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 817, col: 5, offset: 26524},
+																				pos: position{line: 829, col: 5, offset: 26928},
 																				run: (*parser).callonExtraListElement796,
 																				expr: &seqExpr{
-																					pos: position{line: 817, col: 5, offset: 26524},
+																					pos: position{line: 829, col: 5, offset: 26928},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 817, col: 5, offset: 26524},
+																							pos:   position{line: 829, col: 5, offset: 26928},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 817, col: 16, offset: 26535},
+																								pos: position{line: 829, col: 16, offset: 26939},
 																								run: (*parser).callonExtraListElement799,
 																								expr: &seqExpr{
-																									pos: position{line: 817, col: 16, offset: 26535},
+																									pos: position{line: 829, col: 16, offset: 26939},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 817, col: 16, offset: 26535},
+																											pos:        position{line: 829, col: 16, offset: 26939},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 817, col: 23, offset: 26542},
+																											pos: position{line: 829, col: 23, offset: 26946},
 																											expr: &litMatcher{
-																												pos:        position{line: 817, col: 23, offset: 26542},
+																												pos:        position{line: 829, col: 23, offset: 26946},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -29612,12 +30204,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 819, col: 8, offset: 26626},
+																							pos: position{line: 831, col: 8, offset: 27030},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92448},
+																								pos: position{line: 2934, col: 10, offset: 92852},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92448},
+																									pos:        position{line: 2934, col: 10, offset: 92852},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29626,28 +30218,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29656,9 +30248,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -29674,15 +30266,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1530, col: 5, offset: 49845},
+													pos:   position{line: 1542, col: 5, offset: 50249},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 14, offset: 91041},
+														pos: position{line: 2884, col: 14, offset: 91445},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2872, col: 14, offset: 91041},
+															pos: position{line: 2884, col: 14, offset: 91445},
 															expr: &charClassMatcher{
-																pos:        position{line: 2872, col: 14, offset: 91041},
+																pos:        position{line: 2884, col: 14, offset: 91445},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29692,28 +30284,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92846},
+													pos: position{line: 2956, col: 8, offset: 93250},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92619},
+															pos: position{line: 2943, col: 12, offset: 93023},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92620},
+																pos: position{line: 2943, col: 13, offset: 93024},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92620},
+																		pos:        position{line: 2943, col: 13, offset: 93024},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92627},
+																		pos:        position{line: 2943, col: 20, offset: 93031},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92636},
+																		pos:        position{line: 2943, col: 29, offset: 93040},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29722,9 +30314,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92796},
+															pos: position{line: 2953, col: 8, offset: 93200},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92797,
+																line: 2953, col: 9, offset: 93201,
 															},
 														},
 													},
@@ -29741,28 +30333,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1546, col: 1, offset: 50236},
+			pos:  position{line: 1558, col: 1, offset: 50640},
 			expr: &actionExpr{
-				pos: position{line: 1547, col: 5, offset: 50261},
+				pos: position{line: 1559, col: 5, offset: 50665},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1547, col: 5, offset: 50261},
+					pos: position{line: 1559, col: 5, offset: 50665},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1547, col: 5, offset: 50261},
+							pos:   position{line: 1559, col: 5, offset: 50665},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1547, col: 12, offset: 50268},
+								pos: position{line: 1559, col: 12, offset: 50672},
 								expr: &seqExpr{
-									pos: position{line: 1547, col: 13, offset: 50269},
+									pos: position{line: 1559, col: 13, offset: 50673},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1547, col: 13, offset: 50269},
+											pos: position{line: 1559, col: 13, offset: 50673},
 											expr: &actionExpr{
-												pos: position{line: 2922, col: 10, offset: 92448},
+												pos: position{line: 2934, col: 10, offset: 92852},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2922, col: 10, offset: 92448},
+													pos:        position{line: 2934, col: 10, offset: 92852},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29771,25 +30363,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2931, col: 12, offset: 92619},
+											pos: position{line: 2943, col: 12, offset: 93023},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2931, col: 13, offset: 92620},
+												pos: position{line: 2943, col: 13, offset: 93024},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2931, col: 13, offset: 92620},
+														pos:        position{line: 2943, col: 13, offset: 93024},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2931, col: 20, offset: 92627},
+														pos:        position{line: 2943, col: 20, offset: 93031},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2931, col: 29, offset: 92636},
+														pos:        position{line: 2943, col: 29, offset: 93040},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29802,18 +30394,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1555, col: 27, offset: 50507},
+							pos:        position{line: 1567, col: 27, offset: 50911},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1555, col: 31, offset: 50511},
+							pos: position{line: 1567, col: 31, offset: 50915},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92448},
+								pos: position{line: 2934, col: 10, offset: 92852},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92448},
+									pos:        position{line: 2934, col: 10, offset: 92852},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29822,25 +30414,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2931, col: 12, offset: 92619},
+							pos: position{line: 2943, col: 12, offset: 93023},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2931, col: 13, offset: 92620},
+								pos: position{line: 2943, col: 13, offset: 93024},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2931, col: 13, offset: 92620},
+										pos:        position{line: 2943, col: 13, offset: 93024},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2931, col: 20, offset: 92627},
+										pos:        position{line: 2943, col: 20, offset: 93031},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2931, col: 29, offset: 92636},
+										pos:        position{line: 2943, col: 29, offset: 93040},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29849,38 +30441,38 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1549, col: 5, offset: 50318},
+							pos: position{line: 1561, col: 5, offset: 50722},
 							expr: &actionExpr{
-								pos: position{line: 2525, col: 22, offset: 81226},
+								pos: position{line: 2537, col: 22, offset: 81630},
 								run: (*parser).callonListContinuation24,
 								expr: &seqExpr{
-									pos: position{line: 2525, col: 22, offset: 81226},
+									pos: position{line: 2537, col: 22, offset: 81630},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2530, col: 31, offset: 81476},
+											pos:        position{line: 2542, col: 31, offset: 81880},
 											val:        "//",
 											ignoreCase: false,
 											want:       "\"//\"",
 										},
 										&notExpr{
-											pos: position{line: 2530, col: 36, offset: 81481},
+											pos: position{line: 2542, col: 36, offset: 81885},
 											expr: &litMatcher{
-												pos:        position{line: 2530, col: 37, offset: 81482},
+												pos:        position{line: 2542, col: 37, offset: 81886},
 												val:        "/",
 												ignoreCase: false,
 												want:       "\"/\"",
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2525, col: 49, offset: 81253},
+											pos:   position{line: 2537, col: 49, offset: 81657},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2868, col: 13, offset: 90974},
+												pos: position{line: 2880, col: 13, offset: 91378},
 												run: (*parser).callonListContinuation30,
 												expr: &zeroOrMoreExpr{
-													pos: position{line: 2868, col: 13, offset: 90974},
+													pos: position{line: 2880, col: 13, offset: 91378},
 													expr: &charClassMatcher{
-														pos:        position{line: 2868, col: 13, offset: 90974},
+														pos:        position{line: 2880, col: 13, offset: 91378},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -29890,28 +30482,28 @@ var g = &grammar{
 											},
 										},
 										&choiceExpr{
-											pos: position{line: 2944, col: 8, offset: 92846},
+											pos: position{line: 2956, col: 8, offset: 93250},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2931, col: 12, offset: 92619},
+													pos: position{line: 2943, col: 12, offset: 93023},
 													run: (*parser).callonListContinuation34,
 													expr: &choiceExpr{
-														pos: position{line: 2931, col: 13, offset: 92620},
+														pos: position{line: 2943, col: 13, offset: 93024},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2931, col: 13, offset: 92620},
+																pos:        position{line: 2943, col: 13, offset: 93024},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2931, col: 20, offset: 92627},
+																pos:        position{line: 2943, col: 20, offset: 93031},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2931, col: 29, offset: 92636},
+																pos:        position{line: 2943, col: 29, offset: 93040},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -29920,9 +30512,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92796},
+													pos: position{line: 2953, col: 8, offset: 93200},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92797,
+														line: 2953, col: 9, offset: 93201,
 													},
 												},
 											},
@@ -29932,12 +30524,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1550, col: 5, offset: 50352},
+							pos:   position{line: 1562, col: 5, offset: 50756},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1550, col: 13, offset: 50360},
+								pos: position{line: 1562, col: 13, offset: 50764},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1550, col: 13, offset: 50360},
+									pos:  position{line: 1562, col: 13, offset: 50764},
 									name: "ListContinuationElement",
 								},
 							},
@@ -29948,46 +30540,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1557, col: 1, offset: 50527},
+			pos:  position{line: 1569, col: 1, offset: 50931},
 			expr: &actionExpr{
-				pos: position{line: 1558, col: 5, offset: 50598},
+				pos: position{line: 1570, col: 5, offset: 51002},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1558, col: 5, offset: 50598},
+					pos: position{line: 1570, col: 5, offset: 51002},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92782},
+							pos: position{line: 2951, col: 11, offset: 93186},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92784,
+								line: 2951, col: 13, offset: 93188,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1559, col: 5, offset: 50626},
+							pos: position{line: 1571, col: 5, offset: 51030},
 							expr: &choiceExpr{
-								pos: position{line: 1495, col: 5, offset: 48550},
+								pos: position{line: 1507, col: 5, offset: 48954},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1589, col: 5, offset: 51518},
+										pos: position{line: 1601, col: 5, offset: 51922},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1589, col: 5, offset: 51518},
+											pos: position{line: 1601, col: 5, offset: 51922},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1589, col: 5, offset: 51518},
+													pos:   position{line: 1601, col: 5, offset: 51922},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1596, col: 5, offset: 51726},
+														pos: position{line: 1608, col: 5, offset: 52130},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1596, col: 5, offset: 51726},
+															pos: position{line: 1608, col: 5, offset: 52130},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1596, col: 5, offset: 51726},
+																	pos: position{line: 1608, col: 5, offset: 52130},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92448},
+																		pos: position{line: 2934, col: 10, offset: 92852},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92448},
+																			pos:        position{line: 2934, col: 10, offset: 92852},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29996,27 +30588,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1596, col: 12, offset: 51733},
+																	pos:   position{line: 1608, col: 12, offset: 52137},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1598, col: 9, offset: 51796},
+																		pos: position{line: 1610, col: 9, offset: 52200},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1598, col: 9, offset: 51796},
+																				pos: position{line: 1610, col: 9, offset: 52200},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1598, col: 9, offset: 51796},
+																					pos: position{line: 1610, col: 9, offset: 52200},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1598, col: 9, offset: 51796},
+																							pos:   position{line: 1610, col: 9, offset: 52200},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1598, col: 16, offset: 51803},
+																								pos: position{line: 1610, col: 16, offset: 52207},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1598, col: 16, offset: 51803},
+																									pos: position{line: 1610, col: 16, offset: 52207},
 																									expr: &litMatcher{
-																										pos:        position{line: 1598, col: 17, offset: 51804},
+																										pos:        position{line: 1610, col: 17, offset: 52208},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -30025,22 +30617,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1602, col: 9, offset: 51904},
+																							pos: position{line: 1614, col: 9, offset: 52308},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 11, offset: 52621},
+																				pos: position{line: 1633, col: 11, offset: 53025},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 11, offset: 52621},
+																					pos: position{line: 1633, col: 11, offset: 53025},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1621, col: 11, offset: 52621},
+																							pos: position{line: 1633, col: 11, offset: 53025},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1621, col: 12, offset: 52622},
+																								pos:        position{line: 1633, col: 12, offset: 53026},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -30048,7 +30640,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 20, offset: 52630},
+																							pos:        position{line: 1633, col: 20, offset: 53034},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30057,20 +30649,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1623, col: 13, offset: 52747},
+																				pos: position{line: 1635, col: 13, offset: 53151},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1623, col: 13, offset: 52747},
+																					pos: position{line: 1635, col: 13, offset: 53151},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1623, col: 14, offset: 52748},
+																							pos:        position{line: 1635, col: 14, offset: 53152},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1623, col: 21, offset: 52755},
+																							pos:        position{line: 1635, col: 21, offset: 53159},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30079,20 +30671,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1625, col: 13, offset: 52875},
+																				pos: position{line: 1637, col: 13, offset: 53279},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1625, col: 13, offset: 52875},
+																					pos: position{line: 1637, col: 13, offset: 53279},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1625, col: 14, offset: 52876},
+																							pos:        position{line: 1637, col: 14, offset: 53280},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1625, col: 21, offset: 52883},
+																							pos:        position{line: 1637, col: 21, offset: 53287},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30101,15 +30693,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1627, col: 13, offset: 53003},
+																				pos: position{line: 1639, col: 13, offset: 53407},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1627, col: 13, offset: 53003},
+																					pos: position{line: 1639, col: 13, offset: 53407},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1627, col: 13, offset: 53003},
+																							pos: position{line: 1639, col: 13, offset: 53407},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1627, col: 14, offset: 53004},
+																								pos:        position{line: 1639, col: 14, offset: 53408},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -30117,7 +30709,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1627, col: 26, offset: 53016},
+																							pos:        position{line: 1639, col: 26, offset: 53420},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30126,15 +30718,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1629, col: 13, offset: 53136},
+																				pos: position{line: 1641, col: 13, offset: 53540},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1629, col: 13, offset: 53136},
+																					pos: position{line: 1641, col: 13, offset: 53540},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1629, col: 13, offset: 53136},
+																							pos: position{line: 1641, col: 13, offset: 53540},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1629, col: 14, offset: 53137},
+																								pos:        position{line: 1641, col: 14, offset: 53541},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -30142,7 +30734,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1629, col: 26, offset: 53149},
+																							pos:        position{line: 1641, col: 26, offset: 53553},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30154,12 +30746,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92509},
+																	pos: position{line: 2938, col: 11, offset: 92913},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92509},
+																		pos: position{line: 2938, col: 11, offset: 92913},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92509},
+																			pos:        position{line: 2938, col: 11, offset: 92913},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30172,26 +30764,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1590, col: 5, offset: 51557},
+													pos:   position{line: 1602, col: 5, offset: 51961},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1536, col: 5, offset: 49990},
+														pos: position{line: 1548, col: 5, offset: 50394},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1536, col: 5, offset: 49990},
+															pos: position{line: 1548, col: 5, offset: 50394},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1536, col: 5, offset: 49990},
+																	pos:   position{line: 1548, col: 5, offset: 50394},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1536, col: 14, offset: 49999},
+																		pos: position{line: 1548, col: 14, offset: 50403},
 																		expr: &actionExpr{
-																			pos: position{line: 1536, col: 15, offset: 50000},
+																			pos: position{line: 1548, col: 15, offset: 50404},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1536, col: 15, offset: 50000},
+																				pos: position{line: 1548, col: 15, offset: 50404},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1536, col: 15, offset: 50000},
+																					pos:        position{line: 1548, col: 15, offset: 50404},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30202,28 +30794,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92846},
+																	pos: position{line: 2956, col: 8, offset: 93250},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92619},
+																			pos: position{line: 2943, col: 12, offset: 93023},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92620},
+																				pos: position{line: 2943, col: 13, offset: 93024},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92620},
+																						pos:        position{line: 2943, col: 13, offset: 93024},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92627},
+																						pos:        position{line: 2943, col: 20, offset: 93031},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92636},
+																						pos:        position{line: 2943, col: 29, offset: 93040},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30232,9 +30824,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92796},
+																			pos: position{line: 2953, col: 8, offset: 93200},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92797,
+																				line: 2953, col: 9, offset: 93201,
 																			},
 																		},
 																	},
@@ -30247,27 +30839,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1639, col: 5, offset: 53415},
+										pos: position{line: 1651, col: 5, offset: 53819},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1639, col: 5, offset: 53415},
+											pos: position{line: 1651, col: 5, offset: 53819},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1639, col: 5, offset: 53415},
+													pos:   position{line: 1651, col: 5, offset: 53819},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1646, col: 5, offset: 53688},
+														pos: position{line: 1658, col: 5, offset: 54092},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1646, col: 5, offset: 53688},
+															pos: position{line: 1658, col: 5, offset: 54092},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1646, col: 5, offset: 53688},
+																	pos: position{line: 1658, col: 5, offset: 54092},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92448},
+																		pos: position{line: 2934, col: 10, offset: 92852},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92448},
+																			pos:        position{line: 2934, col: 10, offset: 92852},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30276,24 +30868,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1647, col: 5, offset: 53700},
+																	pos:   position{line: 1659, col: 5, offset: 54104},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1648, col: 9, offset: 53716},
+																		pos: position{line: 1660, col: 9, offset: 54120},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1648, col: 10, offset: 53717},
+																			pos: position{line: 1660, col: 10, offset: 54121},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1648, col: 11, offset: 53718},
+																					pos:        position{line: 1660, col: 11, offset: 54122},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1648, col: 18, offset: 53725},
+																					pos: position{line: 1660, col: 18, offset: 54129},
 																					expr: &litMatcher{
-																						pos:        position{line: 1648, col: 19, offset: 53726},
+																						pos:        position{line: 1660, col: 19, offset: 54130},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -30304,16 +30896,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1651, col: 7, offset: 53816},
+																	pos: position{line: 1663, col: 7, offset: 54220},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92509},
+																	pos: position{line: 2938, col: 11, offset: 92913},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92509},
+																		pos: position{line: 2938, col: 11, offset: 92913},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92509},
+																			pos:        position{line: 2938, col: 11, offset: 92913},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30326,56 +30918,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1640, col: 5, offset: 53456},
+													pos:   position{line: 1652, col: 5, offset: 53860},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1640, col: 16, offset: 53467},
+														pos: position{line: 1652, col: 16, offset: 53871},
 														expr: &actionExpr{
-															pos: position{line: 1661, col: 5, offset: 54081},
+															pos: position{line: 1673, col: 5, offset: 54485},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1661, col: 5, offset: 54081},
+																pos: position{line: 1673, col: 5, offset: 54485},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1661, col: 5, offset: 54081},
+																		pos: position{line: 1673, col: 5, offset: 54485},
 																		expr: &litMatcher{
-																			pos:        position{line: 1661, col: 6, offset: 54082},
+																			pos:        position{line: 1673, col: 6, offset: 54486},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1661, col: 10, offset: 54086},
+																		pos:   position{line: 1673, col: 10, offset: 54490},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1662, col: 7, offset: 54100},
+																			pos: position{line: 1674, col: 7, offset: 54504},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1662, col: 7, offset: 54100},
+																					pos: position{line: 1674, col: 7, offset: 54504},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1662, col: 7, offset: 54100},
+																						pos:        position{line: 1674, col: 7, offset: 54504},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1663, col: 7, offset: 54145},
+																					pos: position{line: 1675, col: 7, offset: 54549},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1663, col: 7, offset: 54145},
+																						pos:        position{line: 1675, col: 7, offset: 54549},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1664, col: 7, offset: 54188},
+																					pos: position{line: 1676, col: 7, offset: 54592},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1664, col: 7, offset: 54188},
+																						pos:        position{line: 1676, col: 7, offset: 54592},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -30385,12 +30977,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2926, col: 11, offset: 92509},
+																		pos: position{line: 2938, col: 11, offset: 92913},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2926, col: 11, offset: 92509},
+																			pos: position{line: 2938, col: 11, offset: 92913},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2926, col: 11, offset: 92509},
+																				pos:        position{line: 2938, col: 11, offset: 92913},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30404,26 +30996,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1641, col: 5, offset: 53506},
+													pos:   position{line: 1653, col: 5, offset: 53910},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1536, col: 5, offset: 49990},
+														pos: position{line: 1548, col: 5, offset: 50394},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1536, col: 5, offset: 49990},
+															pos: position{line: 1548, col: 5, offset: 50394},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1536, col: 5, offset: 49990},
+																	pos:   position{line: 1548, col: 5, offset: 50394},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1536, col: 14, offset: 49999},
+																		pos: position{line: 1548, col: 14, offset: 50403},
 																		expr: &actionExpr{
-																			pos: position{line: 1536, col: 15, offset: 50000},
+																			pos: position{line: 1548, col: 15, offset: 50404},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1536, col: 15, offset: 50000},
+																				pos: position{line: 1548, col: 15, offset: 50404},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1536, col: 15, offset: 50000},
+																					pos:        position{line: 1548, col: 15, offset: 50404},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30434,28 +31026,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92846},
+																	pos: position{line: 2956, col: 8, offset: 93250},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92619},
+																			pos: position{line: 2943, col: 12, offset: 93023},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92620},
+																				pos: position{line: 2943, col: 13, offset: 93024},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92620},
+																						pos:        position{line: 2943, col: 13, offset: 93024},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92627},
+																						pos:        position{line: 2943, col: 20, offset: 93031},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92636},
+																						pos:        position{line: 2943, col: 29, offset: 93040},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30464,9 +31056,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92796},
+																			pos: position{line: 2953, col: 8, offset: 93200},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92797,
+																				line: 2953, col: 9, offset: 93201,
 																			},
 																		},
 																	},
@@ -30479,36 +31071,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1730, col: 5, offset: 56060},
+										pos: position{line: 1742, col: 5, offset: 56464},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1730, col: 5, offset: 56060},
+											pos: position{line: 1742, col: 5, offset: 56464},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1730, col: 5, offset: 56060},
+													pos:   position{line: 1742, col: 5, offset: 56464},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1736, col: 5, offset: 56257},
+														pos: position{line: 1748, col: 5, offset: 56661},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1736, col: 5, offset: 56257},
+															pos: position{line: 1748, col: 5, offset: 56661},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1736, col: 5, offset: 56257},
+																	pos:        position{line: 1748, col: 5, offset: 56661},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1736, col: 9, offset: 56261},
+																	pos:   position{line: 1748, col: 9, offset: 56665},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1736, col: 14, offset: 56266},
+																		pos: position{line: 1748, col: 14, offset: 56670},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1736, col: 14, offset: 56266},
+																			pos: position{line: 1748, col: 14, offset: 56670},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1736, col: 14, offset: 56266},
+																				pos:        position{line: 1748, col: 14, offset: 56670},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30518,18 +31110,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1736, col: 62, offset: 56314},
+																	pos:        position{line: 1748, col: 62, offset: 56718},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92509},
+																	pos: position{line: 2938, col: 11, offset: 92913},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92509},
+																		pos: position{line: 2938, col: 11, offset: 92913},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92509},
+																			pos:        position{line: 2938, col: 11, offset: 92913},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30542,26 +31134,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1731, col: 5, offset: 56096},
+													pos:   position{line: 1743, col: 5, offset: 56500},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1536, col: 5, offset: 49990},
+														pos: position{line: 1548, col: 5, offset: 50394},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1536, col: 5, offset: 49990},
+															pos: position{line: 1548, col: 5, offset: 50394},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1536, col: 5, offset: 49990},
+																	pos:   position{line: 1548, col: 5, offset: 50394},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1536, col: 14, offset: 49999},
+																		pos: position{line: 1548, col: 14, offset: 50403},
 																		expr: &actionExpr{
-																			pos: position{line: 1536, col: 15, offset: 50000},
+																			pos: position{line: 1548, col: 15, offset: 50404},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1536, col: 15, offset: 50000},
+																				pos: position{line: 1548, col: 15, offset: 50404},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1536, col: 15, offset: 50000},
+																					pos:        position{line: 1548, col: 15, offset: 50404},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30572,28 +31164,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92846},
+																	pos: position{line: 2956, col: 8, offset: 93250},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92619},
+																			pos: position{line: 2943, col: 12, offset: 93023},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92620},
+																				pos: position{line: 2943, col: 13, offset: 93024},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92620},
+																						pos:        position{line: 2943, col: 13, offset: 93024},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92627},
+																						pos:        position{line: 2943, col: 20, offset: 93031},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92636},
+																						pos:        position{line: 2943, col: 29, offset: 93040},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30602,9 +31194,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92796},
+																			pos: position{line: 2953, col: 8, offset: 93200},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92797,
+																				line: 2953, col: 9, offset: 93201,
 																			},
 																		},
 																	},
@@ -30617,35 +31209,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1673, col: 5, offset: 54381},
+										pos: position{line: 1685, col: 5, offset: 54785},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1673, col: 5, offset: 54381},
+											pos: position{line: 1685, col: 5, offset: 54785},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1673, col: 5, offset: 54381},
+													pos:   position{line: 1685, col: 5, offset: 54785},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1681, col: 5, offset: 54707},
+														pos: position{line: 1693, col: 5, offset: 55111},
 														run: (*parser).callonListContinuationElement150,
 														expr: &seqExpr{
-															pos: position{line: 1681, col: 5, offset: 54707},
+															pos: position{line: 1693, col: 5, offset: 55111},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1681, col: 5, offset: 54707},
+																	pos: position{line: 1693, col: 5, offset: 55111},
 																	expr: &seqExpr{
-																		pos: position{line: 2530, col: 31, offset: 81476},
+																		pos: position{line: 2542, col: 31, offset: 81880},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2530, col: 31, offset: 81476},
+																				pos:        position{line: 2542, col: 31, offset: 81880},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2530, col: 36, offset: 81481},
+																				pos: position{line: 2542, col: 36, offset: 81885},
 																				expr: &litMatcher{
-																					pos:        position{line: 2530, col: 37, offset: 81482},
+																					pos:        position{line: 2542, col: 37, offset: 81886},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -30655,28 +31247,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1682, col: 5, offset: 54739},
+																	pos: position{line: 1694, col: 5, offset: 55143},
 																	expr: &seqExpr{
-																		pos: position{line: 1682, col: 6, offset: 54740},
+																		pos: position{line: 1694, col: 6, offset: 55144},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1682, col: 6, offset: 54740},
+																				pos: position{line: 1694, col: 6, offset: 55144},
 																				expr: &actionExpr{
-																					pos: position{line: 1687, col: 5, offset: 54890},
+																					pos: position{line: 1699, col: 5, offset: 55294},
 																					run: (*parser).callonListContinuationElement160,
 																					expr: &seqExpr{
-																						pos: position{line: 1687, col: 5, offset: 54890},
+																						pos: position{line: 1699, col: 5, offset: 55294},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1687, col: 5, offset: 54890},
+																								pos:   position{line: 1699, col: 5, offset: 55294},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1687, col: 16, offset: 54901},
+																									pos: position{line: 1699, col: 16, offset: 55305},
 																									run: (*parser).callonListContinuationElement163,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1687, col: 16, offset: 54901},
+																										pos: position{line: 1699, col: 16, offset: 55305},
 																										expr: &litMatcher{
-																											pos:        position{line: 1687, col: 17, offset: 54902},
+																											pos:        position{line: 1699, col: 17, offset: 55306},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -30685,7 +31277,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1690, col: 5, offset: 54959},
+																								pos: position{line: 1702, col: 5, offset: 55363},
 																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
@@ -30693,30 +31285,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1682, col: 35, offset: 54769},
+																				pos: position{line: 1694, col: 35, offset: 55173},
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92846},
+																					pos: position{line: 2956, col: 8, offset: 93250},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92619},
+																							pos: position{line: 2943, col: 12, offset: 93023},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92620},
+																								pos: position{line: 2943, col: 13, offset: 93024},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92620},
+																										pos:        position{line: 2943, col: 13, offset: 93024},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92627},
+																										pos:        position{line: 2943, col: 20, offset: 93031},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92636},
+																										pos:        position{line: 2943, col: 29, offset: 93040},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30725,16 +31317,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92796},
+																							pos: position{line: 2953, col: 8, offset: 93200},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92797,
+																								line: 2953, col: 9, offset: 93201,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1682, col: 40, offset: 54774,
+																				line: 1694, col: 40, offset: 55178,
 																			},
 																		},
 																	},
@@ -30744,24 +31336,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1674, col: 5, offset: 54416},
+													pos:   position{line: 1686, col: 5, offset: 54820},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1687, col: 5, offset: 54890},
+														pos: position{line: 1699, col: 5, offset: 55294},
 														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1687, col: 5, offset: 54890},
+															pos: position{line: 1699, col: 5, offset: 55294},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1687, col: 5, offset: 54890},
+																	pos:   position{line: 1699, col: 5, offset: 55294},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1687, col: 16, offset: 54901},
+																		pos: position{line: 1699, col: 16, offset: 55305},
 																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1687, col: 16, offset: 54901},
+																			pos: position{line: 1699, col: 16, offset: 55305},
 																			expr: &litMatcher{
-																				pos:        position{line: 1687, col: 17, offset: 54902},
+																				pos:        position{line: 1699, col: 17, offset: 55306},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30770,7 +31362,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1690, col: 5, offset: 54959},
+																	pos: position{line: 1702, col: 5, offset: 55363},
 																	run: (*parser).callonListContinuationElement184,
 																},
 															},
@@ -30778,24 +31370,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1675, col: 5, offset: 54461},
+													pos:   position{line: 1687, col: 5, offset: 54865},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1698, col: 5, offset: 55208},
+														pos: position{line: 1710, col: 5, offset: 55612},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1700, col: 9, offset: 55274},
+																pos: position{line: 1712, col: 9, offset: 55678},
 																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1700, col: 9, offset: 55274},
+																	pos: position{line: 1712, col: 9, offset: 55678},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1700, col: 9, offset: 55274},
+																			pos: position{line: 1712, col: 9, offset: 55678},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92448},
+																				pos: position{line: 2934, col: 10, offset: 92852},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92448},
+																					pos:        position{line: 2934, col: 10, offset: 92852},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30804,28 +31396,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92846},
+																			pos: position{line: 2956, col: 8, offset: 93250},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92619},
+																					pos: position{line: 2943, col: 12, offset: 93023},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92620},
+																						pos: position{line: 2943, col: 13, offset: 93024},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92620},
+																								pos:        position{line: 2943, col: 13, offset: 93024},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92627},
+																								pos:        position{line: 2943, col: 20, offset: 93031},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92636},
+																								pos:        position{line: 2943, col: 29, offset: 93040},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30834,34 +31426,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1701, col: 9, offset: 55293},
+																			pos: position{line: 1713, col: 9, offset: 55697},
 																			expr: &actionExpr{
-																				pos: position{line: 690, col: 14, offset: 22173},
+																				pos: position{line: 702, col: 14, offset: 22577},
 																				run: (*parser).callonListContinuationElement201,
 																				expr: &seqExpr{
-																					pos: position{line: 690, col: 14, offset: 22173},
+																					pos: position{line: 702, col: 14, offset: 22577},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2939, col: 11, offset: 92782},
+																							pos: position{line: 2951, col: 11, offset: 93186},
 																							expr: &anyMatcher{
-																								line: 2939, col: 13, offset: 92784,
+																								line: 2951, col: 13, offset: 93188,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 690, col: 21, offset: 22180},
+																							pos: position{line: 702, col: 21, offset: 22584},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92448},
+																								pos: position{line: 2934, col: 10, offset: 92852},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92448},
+																									pos:        position{line: 2934, col: 10, offset: 92852},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30870,28 +31462,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30900,9 +31492,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -30915,18 +31507,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1707, col: 9, offset: 55422},
+																pos: position{line: 1719, col: 9, offset: 55826},
 																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1707, col: 9, offset: 55422},
+																	pos: position{line: 1719, col: 9, offset: 55826},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2926, col: 11, offset: 92509},
+																			pos: position{line: 2938, col: 11, offset: 92913},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2926, col: 11, offset: 92509},
+																				pos: position{line: 2938, col: 11, offset: 92913},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2926, col: 11, offset: 92509},
+																					pos:        position{line: 2938, col: 11, offset: 92913},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30935,15 +31527,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1708, col: 9, offset: 55495},
+																			pos:   position{line: 1720, col: 9, offset: 55899},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1708, col: 18, offset: 55504},
+																				pos: position{line: 1720, col: 18, offset: 55908},
 																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1708, col: 18, offset: 55504},
+																					pos: position{line: 1720, col: 18, offset: 55908},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1708, col: 18, offset: 55504},
+																						pos:        position{line: 1720, col: 18, offset: 55908},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30953,28 +31545,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92846},
+																			pos: position{line: 2956, col: 8, offset: 93250},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92619},
+																					pos: position{line: 2943, col: 12, offset: 93023},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92620},
+																						pos: position{line: 2943, col: 13, offset: 93024},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92620},
+																								pos:        position{line: 2943, col: 13, offset: 93024},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92627},
+																								pos:        position{line: 2943, col: 20, offset: 93031},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92636},
+																								pos:        position{line: 2943, col: 29, offset: 93040},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30983,9 +31575,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
@@ -31003,41 +31595,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1560, col: 5, offset: 50643},
+							pos:   position{line: 1572, col: 5, offset: 51047},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1560, col: 16, offset: 50654},
+								pos: position{line: 1572, col: 16, offset: 51058},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1560, col: 17, offset: 50655},
+									pos:  position{line: 1572, col: 17, offset: 51059},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1561, col: 5, offset: 50677},
+							pos:   position{line: 1573, col: 5, offset: 51081},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1562, col: 9, offset: 50695},
+								pos: position{line: 1574, col: 9, offset: 51099},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 690, col: 14, offset: 22173},
+										pos: position{line: 702, col: 14, offset: 22577},
 										run: (*parser).callonListContinuationElement238,
 										expr: &seqExpr{
-											pos: position{line: 690, col: 14, offset: 22173},
+											pos: position{line: 702, col: 14, offset: 22577},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2939, col: 11, offset: 92782},
+													pos: position{line: 2951, col: 11, offset: 93186},
 													expr: &anyMatcher{
-														line: 2939, col: 13, offset: 92784,
+														line: 2951, col: 13, offset: 93188,
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 690, col: 21, offset: 22180},
+													pos: position{line: 702, col: 21, offset: 22584},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92448},
+														pos: position{line: 2934, col: 10, offset: 92852},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92448},
+															pos:        position{line: 2934, col: 10, offset: 92852},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31046,28 +31638,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92846},
+													pos: position{line: 2956, col: 8, offset: 93250},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92619},
+															pos: position{line: 2943, col: 12, offset: 93023},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92620},
+																pos: position{line: 2943, col: 13, offset: 93024},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92620},
+																		pos:        position{line: 2943, col: 13, offset: 93024},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92627},
+																		pos:        position{line: 2943, col: 20, offset: 93031},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92636},
+																		pos:        position{line: 2943, col: 29, offset: 93040},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31076,9 +31668,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92796},
+															pos: position{line: 2953, col: 8, offset: 93200},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92797,
+																line: 2953, col: 9, offset: 93201,
 															},
 														},
 													},
@@ -31087,7 +31679,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1563, col: 11, offset: 50715},
+										pos:  position{line: 1575, col: 11, offset: 51119},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -31143,10 +31735,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 49, offset: 11042},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92448},
+														pos: position{line: 2934, col: 10, offset: 92852},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92448},
+															pos:        position{line: 2934, col: 10, offset: 92852},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31155,28 +31747,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92846},
+													pos: position{line: 2956, col: 8, offset: 93250},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92619},
+															pos: position{line: 2943, col: 12, offset: 93023},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92620},
+																pos: position{line: 2943, col: 13, offset: 93024},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92620},
+																		pos:        position{line: 2943, col: 13, offset: 93024},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92627},
+																		pos:        position{line: 2943, col: 20, offset: 93031},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92636},
+																		pos:        position{line: 2943, col: 29, offset: 93040},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31185,9 +31777,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92796},
+															pos: position{line: 2953, col: 8, offset: 93200},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92797,
+																line: 2953, col: 9, offset: 93201,
 															},
 														},
 													},
@@ -31248,10 +31840,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 364, col: 39, offset: 11163},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92448},
+														pos: position{line: 2934, col: 10, offset: 92852},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92448},
+															pos:        position{line: 2934, col: 10, offset: 92852},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31260,28 +31852,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92846},
+													pos: position{line: 2956, col: 8, offset: 93250},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92619},
+															pos: position{line: 2943, col: 12, offset: 93023},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92620},
+																pos: position{line: 2943, col: 13, offset: 93024},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92620},
+																		pos:        position{line: 2943, col: 13, offset: 93024},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92627},
+																		pos:        position{line: 2943, col: 20, offset: 93031},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92636},
+																		pos:        position{line: 2943, col: 29, offset: 93040},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31290,9 +31882,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92796},
+															pos: position{line: 2953, col: 8, offset: 93200},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92797,
+																line: 2953, col: 9, offset: 93201,
 															},
 														},
 													},
@@ -31301,36 +31893,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 833, col: 5, offset: 27008},
+										pos: position{line: 845, col: 5, offset: 27412},
 										run: (*parser).callonListContinuationElement296,
 										expr: &seqExpr{
-											pos: position{line: 833, col: 5, offset: 27008},
+											pos: position{line: 845, col: 5, offset: 27412},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 753, col: 5, offset: 24268},
+													pos: position{line: 765, col: 5, offset: 24672},
 													run: (*parser).callonListContinuationElement298,
 													expr: &seqExpr{
-														pos: position{line: 753, col: 5, offset: 24268},
+														pos: position{line: 765, col: 5, offset: 24672},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 753, col: 5, offset: 24268},
+																pos:   position{line: 765, col: 5, offset: 24672},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 753, col: 16, offset: 24279},
+																	pos: position{line: 765, col: 16, offset: 24683},
 																	run: (*parser).callonListContinuationElement301,
 																	expr: &seqExpr{
-																		pos: position{line: 753, col: 16, offset: 24279},
+																		pos: position{line: 765, col: 16, offset: 24683},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 753, col: 16, offset: 24279},
+																				pos:        position{line: 765, col: 16, offset: 24683},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 753, col: 23, offset: 24286},
+																				pos: position{line: 765, col: 23, offset: 24690},
 																				expr: &litMatcher{
-																					pos:        position{line: 753, col: 23, offset: 24286},
+																					pos:        position{line: 765, col: 23, offset: 24690},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -31341,12 +31933,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 755, col: 8, offset: 24370},
+																pos: position{line: 767, col: 8, offset: 24774},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92448},
+																	pos: position{line: 2934, col: 10, offset: 92852},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92448},
+																		pos:        position{line: 2934, col: 10, offset: 92852},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31355,28 +31947,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92846},
+																pos: position{line: 2956, col: 8, offset: 93250},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92619},
+																		pos: position{line: 2943, col: 12, offset: 93023},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92620},
+																			pos: position{line: 2943, col: 13, offset: 93024},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92620},
+																					pos:        position{line: 2943, col: 13, offset: 93024},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92627},
+																					pos:        position{line: 2943, col: 20, offset: 93031},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92636},
+																					pos:        position{line: 2943, col: 29, offset: 93040},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31385,9 +31977,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92796},
+																		pos: position{line: 2953, col: 8, offset: 93200},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92797,
+																			line: 2953, col: 9, offset: 93201,
 																		},
 																	},
 																},
@@ -31396,46 +31988,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 834, col: 5, offset: 27039},
+													pos:   position{line: 846, col: 5, offset: 27443},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 844, col: 5, offset: 27325},
+														pos: position{line: 856, col: 5, offset: 27729},
 														expr: &actionExpr{
-															pos: position{line: 844, col: 6, offset: 27326},
+															pos: position{line: 856, col: 6, offset: 27730},
 															run: (*parser).callonListContinuationElement319,
 															expr: &seqExpr{
-																pos: position{line: 844, col: 6, offset: 27326},
+																pos: position{line: 856, col: 6, offset: 27730},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 844, col: 6, offset: 27326},
+																		pos: position{line: 856, col: 6, offset: 27730},
 																		expr: &choiceExpr{
-																			pos: position{line: 841, col: 29, offset: 27268},
+																			pos: position{line: 853, col: 29, offset: 27672},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 753, col: 5, offset: 24268},
+																					pos: position{line: 765, col: 5, offset: 24672},
 																					run: (*parser).callonListContinuationElement323,
 																					expr: &seqExpr{
-																						pos: position{line: 753, col: 5, offset: 24268},
+																						pos: position{line: 765, col: 5, offset: 24672},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 753, col: 5, offset: 24268},
+																								pos:   position{line: 765, col: 5, offset: 24672},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 753, col: 16, offset: 24279},
+																									pos: position{line: 765, col: 16, offset: 24683},
 																									run: (*parser).callonListContinuationElement326,
 																									expr: &seqExpr{
-																										pos: position{line: 753, col: 16, offset: 24279},
+																										pos: position{line: 765, col: 16, offset: 24683},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 753, col: 16, offset: 24279},
+																												pos:        position{line: 765, col: 16, offset: 24683},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 753, col: 23, offset: 24286},
+																												pos: position{line: 765, col: 23, offset: 24690},
 																												expr: &litMatcher{
-																													pos:        position{line: 753, col: 23, offset: 24286},
+																													pos:        position{line: 765, col: 23, offset: 24690},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -31446,12 +32038,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 755, col: 8, offset: 24370},
+																								pos: position{line: 767, col: 8, offset: 24774},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92448},
+																									pos: position{line: 2934, col: 10, offset: 92852},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92448},
+																										pos:        position{line: 2934, col: 10, offset: 92852},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -31460,28 +32052,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92846},
+																								pos: position{line: 2956, col: 8, offset: 93250},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92619},
+																										pos: position{line: 2943, col: 12, offset: 93023},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92620},
+																											pos: position{line: 2943, col: 13, offset: 93024},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92620},
+																													pos:        position{line: 2943, col: 13, offset: 93024},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92627},
+																													pos:        position{line: 2943, col: 20, offset: 93031},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92636},
+																													pos:        position{line: 2943, col: 29, offset: 93040},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -31490,9 +32082,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92796},
+																										pos: position{line: 2953, col: 8, offset: 93200},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92797,
+																											line: 2953, col: 9, offset: 93201,
 																										},
 																									},
 																								},
@@ -31501,39 +32093,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 845, col: 5, offset: 27356},
+																		pos:   position{line: 857, col: 5, offset: 27760},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 824, col: 5, offset: 26772},
+																			pos: position{line: 836, col: 5, offset: 27176},
 																			run: (*parser).callonListContinuationElement345,
 																			expr: &seqExpr{
-																				pos: position{line: 824, col: 5, offset: 26772},
+																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92782},
+																						pos: position{line: 2951, col: 11, offset: 93186},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92784,
+																							line: 2951, col: 13, offset: 93188,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 825, col: 5, offset: 26847},
+																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90974},
+																							pos: position{line: 2880, col: 13, offset: 91378},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90974},
+																								pos: position{line: 2880, col: 13, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90974},
+																									pos:        position{line: 2880, col: 13, offset: 91378},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31543,28 +32135,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92846},
+																						pos: position{line: 2956, col: 8, offset: 93250},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92619},
+																								pos: position{line: 2943, col: 12, offset: 93023},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92620},
+																									pos: position{line: 2943, col: 13, offset: 93024},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92620},
+																											pos:        position{line: 2943, col: 13, offset: 93024},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92627},
+																											pos:        position{line: 2943, col: 20, offset: 93031},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92636},
+																											pos:        position{line: 2943, col: 29, offset: 93040},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31573,9 +32165,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92796},
+																								pos: position{line: 2953, col: 8, offset: 93200},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92797,
+																									line: 2953, col: 9, offset: 93201,
 																								},
 																							},
 																						},
@@ -31590,35 +32182,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 835, col: 5, offset: 27073},
+													pos: position{line: 847, col: 5, offset: 27477},
 													expr: &choiceExpr{
-														pos: position{line: 841, col: 29, offset: 27268},
+														pos: position{line: 853, col: 29, offset: 27672},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 753, col: 5, offset: 24268},
+																pos: position{line: 765, col: 5, offset: 24672},
 																run: (*parser).callonListContinuationElement363,
 																expr: &seqExpr{
-																	pos: position{line: 753, col: 5, offset: 24268},
+																	pos: position{line: 765, col: 5, offset: 24672},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 753, col: 5, offset: 24268},
+																			pos:   position{line: 765, col: 5, offset: 24672},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 753, col: 16, offset: 24279},
+																				pos: position{line: 765, col: 16, offset: 24683},
 																				run: (*parser).callonListContinuationElement366,
 																				expr: &seqExpr{
-																					pos: position{line: 753, col: 16, offset: 24279},
+																					pos: position{line: 765, col: 16, offset: 24683},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 753, col: 16, offset: 24279},
+																							pos:        position{line: 765, col: 16, offset: 24683},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 753, col: 23, offset: 24286},
+																							pos: position{line: 765, col: 23, offset: 24690},
 																							expr: &litMatcher{
-																								pos:        position{line: 753, col: 23, offset: 24286},
+																								pos:        position{line: 765, col: 23, offset: 24690},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -31629,12 +32221,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 755, col: 8, offset: 24370},
+																			pos: position{line: 767, col: 8, offset: 24774},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92448},
+																				pos: position{line: 2934, col: 10, offset: 92852},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92448},
+																					pos:        position{line: 2934, col: 10, offset: 92852},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31643,28 +32235,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92846},
+																			pos: position{line: 2956, col: 8, offset: 93250},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92619},
+																					pos: position{line: 2943, col: 12, offset: 93023},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92620},
+																						pos: position{line: 2943, col: 13, offset: 93024},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92620},
+																								pos:        position{line: 2943, col: 13, offset: 93024},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92627},
+																								pos:        position{line: 2943, col: 20, offset: 93031},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92636},
+																								pos:        position{line: 2943, col: 29, offset: 93040},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31673,9 +32265,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
@@ -31684,9 +32276,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92796},
+																pos: position{line: 2953, col: 8, offset: 93200},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92797,
+																	line: 2953, col: 9, offset: 93201,
 																},
 															},
 														},
@@ -31696,39 +32288,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 853, col: 5, offset: 27509},
+										pos: position{line: 865, col: 5, offset: 27913},
 										run: (*parser).callonListContinuationElement384,
 										expr: &seqExpr{
-											pos: position{line: 853, col: 5, offset: 27509},
+											pos: position{line: 865, col: 5, offset: 27913},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 853, col: 5, offset: 27509},
+													pos:   position{line: 865, col: 5, offset: 27913},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 760, col: 5, offset: 24516},
+														pos: position{line: 772, col: 5, offset: 24920},
 														run: (*parser).callonListContinuationElement387,
 														expr: &seqExpr{
-															pos: position{line: 760, col: 5, offset: 24516},
+															pos: position{line: 772, col: 5, offset: 24920},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 760, col: 5, offset: 24516},
+																	pos:   position{line: 772, col: 5, offset: 24920},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 760, col: 16, offset: 24527},
+																		pos: position{line: 772, col: 16, offset: 24931},
 																		run: (*parser).callonListContinuationElement390,
 																		expr: &seqExpr{
-																			pos: position{line: 760, col: 16, offset: 24527},
+																			pos: position{line: 772, col: 16, offset: 24931},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 760, col: 16, offset: 24527},
+																					pos:        position{line: 772, col: 16, offset: 24931},
 																					val:        "====",
 																					ignoreCase: false,
 																					want:       "\"====\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 760, col: 23, offset: 24534},
+																					pos: position{line: 772, col: 23, offset: 24938},
 																					expr: &litMatcher{
-																						pos:        position{line: 760, col: 23, offset: 24534},
+																						pos:        position{line: 772, col: 23, offset: 24938},
 																						val:        "=",
 																						ignoreCase: false,
 																						want:       "\"=\"",
@@ -31739,12 +32331,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 762, col: 8, offset: 24618},
+																	pos: position{line: 774, col: 8, offset: 25022},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92448},
+																		pos: position{line: 2934, col: 10, offset: 92852},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92448},
+																			pos:        position{line: 2934, col: 10, offset: 92852},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31753,28 +32345,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92846},
+																	pos: position{line: 2956, col: 8, offset: 93250},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92619},
+																			pos: position{line: 2943, col: 12, offset: 93023},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92620},
+																				pos: position{line: 2943, col: 13, offset: 93024},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92620},
+																						pos:        position{line: 2943, col: 13, offset: 93024},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92627},
+																						pos:        position{line: 2943, col: 20, offset: 93031},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92636},
+																						pos:        position{line: 2943, col: 29, offset: 93040},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31783,9 +32375,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92796},
+																			pos: position{line: 2953, col: 8, offset: 93200},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92797,
+																				line: 2953, col: 9, offset: 93201,
 																			},
 																		},
 																	},
@@ -31795,56 +32387,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 854, col: 5, offset: 27548},
+													pos: position{line: 866, col: 5, offset: 27952},
 													run: (*parser).callonListContinuationElement406,
 												},
 												&labeledExpr{
-													pos:   position{line: 857, col: 5, offset: 27640},
+													pos:   position{line: 869, col: 5, offset: 28044},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 872, col: 4, offset: 28037},
+														pos: position{line: 884, col: 4, offset: 28441},
 														expr: &actionExpr{
-															pos: position{line: 872, col: 5, offset: 28038},
+															pos: position{line: 884, col: 5, offset: 28442},
 															run: (*parser).callonListContinuationElement409,
 															expr: &seqExpr{
-																pos: position{line: 872, col: 5, offset: 28038},
+																pos: position{line: 884, col: 5, offset: 28442},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 872, col: 5, offset: 28038},
+																		pos: position{line: 884, col: 5, offset: 28442},
 																		expr: &choiceExpr{
-																			pos: position{line: 865, col: 5, offset: 27880},
+																			pos: position{line: 877, col: 5, offset: 28284},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 865, col: 5, offset: 27880},
+																					pos: position{line: 877, col: 5, offset: 28284},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 865, col: 5, offset: 27880},
+																							pos:   position{line: 877, col: 5, offset: 28284},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 760, col: 5, offset: 24516},
+																								pos: position{line: 772, col: 5, offset: 24920},
 																								run: (*parser).callonListContinuationElement415,
 																								expr: &seqExpr{
-																									pos: position{line: 760, col: 5, offset: 24516},
+																									pos: position{line: 772, col: 5, offset: 24920},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 760, col: 5, offset: 24516},
+																											pos:   position{line: 772, col: 5, offset: 24920},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 760, col: 16, offset: 24527},
+																												pos: position{line: 772, col: 16, offset: 24931},
 																												run: (*parser).callonListContinuationElement418,
 																												expr: &seqExpr{
-																													pos: position{line: 760, col: 16, offset: 24527},
+																													pos: position{line: 772, col: 16, offset: 24931},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 760, col: 16, offset: 24527},
+																															pos:        position{line: 772, col: 16, offset: 24931},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 760, col: 23, offset: 24534},
+																															pos: position{line: 772, col: 23, offset: 24938},
 																															expr: &litMatcher{
-																																pos:        position{line: 760, col: 23, offset: 24534},
+																																pos:        position{line: 772, col: 23, offset: 24938},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -31855,12 +32447,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 762, col: 8, offset: 24618},
+																											pos: position{line: 774, col: 8, offset: 25022},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92448},
+																												pos: position{line: 2934, col: 10, offset: 92852},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92448},
+																													pos:        position{line: 2934, col: 10, offset: 92852},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31869,28 +32461,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92846},
+																											pos: position{line: 2956, col: 8, offset: 93250},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92619},
+																													pos: position{line: 2943, col: 12, offset: 93023},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92620},
+																														pos: position{line: 2943, col: 13, offset: 93024},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92620},
+																																pos:        position{line: 2943, col: 13, offset: 93024},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92627},
+																																pos:        position{line: 2943, col: 20, offset: 93031},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92636},
+																																pos:        position{line: 2943, col: 29, offset: 93040},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31899,9 +32491,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92796},
+																													pos: position{line: 2953, col: 8, offset: 93200},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92797,
+																														line: 2953, col: 9, offset: 93201,
 																													},
 																												},
 																											},
@@ -31911,45 +32503,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 866, col: 5, offset: 27911},
+																							pos: position{line: 878, col: 5, offset: 28315},
 																							run: (*parser).callonListContinuationElement434,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 873, col: 5, offset: 28068},
+																		pos:   position{line: 885, col: 5, offset: 28472},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 824, col: 5, offset: 26772},
+																			pos: position{line: 836, col: 5, offset: 27176},
 																			run: (*parser).callonListContinuationElement438,
 																			expr: &seqExpr{
-																				pos: position{line: 824, col: 5, offset: 26772},
+																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92782},
+																						pos: position{line: 2951, col: 11, offset: 93186},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92784,
+																							line: 2951, col: 13, offset: 93188,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 825, col: 5, offset: 26847},
+																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90974},
+																							pos: position{line: 2880, col: 13, offset: 91378},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90974},
+																								pos: position{line: 2880, col: 13, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90974},
+																									pos:        position{line: 2880, col: 13, offset: 91378},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31959,28 +32551,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92846},
+																						pos: position{line: 2956, col: 8, offset: 93250},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92619},
+																								pos: position{line: 2943, col: 12, offset: 93023},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92620},
+																									pos: position{line: 2943, col: 13, offset: 93024},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92620},
+																											pos:        position{line: 2943, col: 13, offset: 93024},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92627},
+																											pos:        position{line: 2943, col: 20, offset: 93031},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92636},
+																											pos:        position{line: 2943, col: 29, offset: 93040},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31989,9 +32581,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92796},
+																								pos: position{line: 2953, col: 8, offset: 93200},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92797,
+																									line: 2953, col: 9, offset: 93201,
 																								},
 																							},
 																						},
@@ -32006,44 +32598,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 858, col: 5, offset: 27674},
+													pos:   position{line: 870, col: 5, offset: 28078},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 858, col: 9, offset: 27678},
+														pos: position{line: 870, col: 9, offset: 28082},
 														expr: &choiceExpr{
-															pos: position{line: 865, col: 5, offset: 27880},
+															pos: position{line: 877, col: 5, offset: 28284},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 865, col: 5, offset: 27880},
+																	pos: position{line: 877, col: 5, offset: 28284},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 865, col: 5, offset: 27880},
+																			pos:   position{line: 877, col: 5, offset: 28284},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 760, col: 5, offset: 24516},
+																				pos: position{line: 772, col: 5, offset: 24920},
 																				run: (*parser).callonListContinuationElement459,
 																				expr: &seqExpr{
-																					pos: position{line: 760, col: 5, offset: 24516},
+																					pos: position{line: 772, col: 5, offset: 24920},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 760, col: 5, offset: 24516},
+																							pos:   position{line: 772, col: 5, offset: 24920},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 760, col: 16, offset: 24527},
+																								pos: position{line: 772, col: 16, offset: 24931},
 																								run: (*parser).callonListContinuationElement462,
 																								expr: &seqExpr{
-																									pos: position{line: 760, col: 16, offset: 24527},
+																									pos: position{line: 772, col: 16, offset: 24931},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 760, col: 16, offset: 24527},
+																											pos:        position{line: 772, col: 16, offset: 24931},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 760, col: 23, offset: 24534},
+																											pos: position{line: 772, col: 23, offset: 24938},
 																											expr: &litMatcher{
-																												pos:        position{line: 760, col: 23, offset: 24534},
+																												pos:        position{line: 772, col: 23, offset: 24938},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -32054,12 +32646,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 762, col: 8, offset: 24618},
+																							pos: position{line: 774, col: 8, offset: 25022},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92448},
+																								pos: position{line: 2934, col: 10, offset: 92852},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92448},
+																									pos:        position{line: 2934, col: 10, offset: 92852},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32068,28 +32660,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32098,9 +32690,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -32110,15 +32702,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 866, col: 5, offset: 27911},
+																			pos: position{line: 878, col: 5, offset: 28315},
 																			run: (*parser).callonListContinuationElement478,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92796},
+																	pos: position{line: 2953, col: 8, offset: 93200},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92797,
+																		line: 2953, col: 9, offset: 93201,
 																	},
 																},
 															},
@@ -32129,36 +32721,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 965, col: 5, offset: 30360},
+										pos: position{line: 977, col: 5, offset: 30764},
 										run: (*parser).callonListContinuationElement481,
 										expr: &seqExpr{
-											pos: position{line: 965, col: 5, offset: 30360},
+											pos: position{line: 977, col: 5, offset: 30764},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 965, col: 5, offset: 30360},
+													pos:   position{line: 977, col: 5, offset: 30764},
 													label: "delimiter",
 													expr: &actionExpr{
-														pos: position{line: 773, col: 26, offset: 25004},
+														pos: position{line: 785, col: 26, offset: 25408},
 														run: (*parser).callonListContinuationElement484,
 														expr: &seqExpr{
-															pos: position{line: 773, col: 26, offset: 25004},
+															pos: position{line: 785, col: 26, offset: 25408},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 773, col: 26, offset: 25004},
+																	pos:        position{line: 785, col: 26, offset: 25408},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 773, col: 32, offset: 25010},
+																	pos:   position{line: 785, col: 32, offset: 25414},
 																	label: "language",
 																	expr: &actionExpr{
-																		pos: position{line: 777, col: 13, offset: 25140},
+																		pos: position{line: 789, col: 13, offset: 25544},
 																		run: (*parser).callonListContinuationElement488,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 777, col: 14, offset: 25141},
+																			pos: position{line: 789, col: 14, offset: 25545},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 777, col: 14, offset: 25141},
+																				pos:        position{line: 789, col: 14, offset: 25545},
 																				val:        "[^\\r\\n` ]",
 																				chars:      []rune{'\r', '\n', '`', ' '},
 																				ignoreCase: false,
@@ -32168,12 +32760,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 773, col: 52, offset: 25030},
+																	pos: position{line: 785, col: 52, offset: 25434},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92448},
+																		pos: position{line: 2934, col: 10, offset: 92852},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92448},
+																			pos:        position{line: 2934, col: 10, offset: 92852},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32182,28 +32774,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92846},
+																	pos: position{line: 2956, col: 8, offset: 93250},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92619},
+																			pos: position{line: 2943, col: 12, offset: 93023},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92620},
+																				pos: position{line: 2943, col: 13, offset: 93024},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92620},
+																						pos:        position{line: 2943, col: 13, offset: 93024},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92627},
+																						pos:        position{line: 2943, col: 20, offset: 93031},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92636},
+																						pos:        position{line: 2943, col: 29, offset: 93040},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32212,9 +32804,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92796},
+																			pos: position{line: 2953, col: 8, offset: 93200},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92797,
+																				line: 2953, col: 9, offset: 93201,
 																			},
 																		},
 																	},
@@ -32224,34 +32816,34 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 966, col: 5, offset: 30406},
+													pos:   position{line: 978, col: 5, offset: 30810},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 979, col: 5, offset: 30879},
+														pos: position{line: 991, col: 5, offset: 31283},
 														expr: &actionExpr{
-															pos: position{line: 979, col: 6, offset: 30880},
+															pos: position{line: 991, col: 6, offset: 31284},
 															run: (*parser).callonListContinuationElement504,
 															expr: &seqExpr{
-																pos: position{line: 979, col: 6, offset: 30880},
+																pos: position{line: 991, col: 6, offset: 31284},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 979, col: 6, offset: 30880},
+																		pos: position{line: 991, col: 6, offset: 31284},
 																		expr: &seqExpr{
-																			pos: position{line: 976, col: 34, offset: 30827},
+																			pos: position{line: 988, col: 34, offset: 31231},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 976, col: 34, offset: 30827},
+																					pos:        position{line: 988, col: 34, offset: 31231},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 976, col: 40, offset: 30833},
+																					pos: position{line: 988, col: 40, offset: 31237},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92448},
+																						pos: position{line: 2934, col: 10, offset: 92852},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92448},
+																							pos:        position{line: 2934, col: 10, offset: 92852},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32260,28 +32852,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92846},
+																					pos: position{line: 2956, col: 8, offset: 93250},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92619},
+																							pos: position{line: 2943, col: 12, offset: 93023},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92620},
+																								pos: position{line: 2943, col: 13, offset: 93024},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92620},
+																										pos:        position{line: 2943, col: 13, offset: 93024},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92627},
+																										pos:        position{line: 2943, col: 20, offset: 93031},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92636},
+																										pos:        position{line: 2943, col: 29, offset: 93040},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32290,9 +32882,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92796},
+																							pos: position{line: 2953, col: 8, offset: 93200},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92797,
+																								line: 2953, col: 9, offset: 93201,
 																							},
 																						},
 																					},
@@ -32301,30 +32893,30 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 980, col: 5, offset: 30915},
+																		pos:   position{line: 992, col: 5, offset: 31319},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 824, col: 5, offset: 26772},
+																			pos: position{line: 836, col: 5, offset: 27176},
 																			run: (*parser).callonListContinuationElement521,
 																			expr: &seqExpr{
-																				pos: position{line: 824, col: 5, offset: 26772},
+																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92782},
+																						pos: position{line: 2951, col: 11, offset: 93186},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92784,
+																							line: 2951, col: 13, offset: 93188,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 825, col: 5, offset: 26847},
+																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90974},
+																							pos: position{line: 2880, col: 13, offset: 91378},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90974},
+																								pos: position{line: 2880, col: 13, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90974},
+																									pos:        position{line: 2880, col: 13, offset: 91378},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32334,28 +32926,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92846},
+																						pos: position{line: 2956, col: 8, offset: 93250},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92619},
+																								pos: position{line: 2943, col: 12, offset: 93023},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92620},
+																									pos: position{line: 2943, col: 13, offset: 93024},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92620},
+																											pos:        position{line: 2943, col: 13, offset: 93024},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92627},
+																											pos:        position{line: 2943, col: 20, offset: 93031},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92636},
+																											pos:        position{line: 2943, col: 29, offset: 93040},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32364,9 +32956,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92796},
+																								pos: position{line: 2953, col: 8, offset: 93200},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92797,
+																									line: 2953, col: 9, offset: 93201,
 																								},
 																							},
 																						},
@@ -32381,23 +32973,23 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 967, col: 5, offset: 30445},
+													pos: position{line: 979, col: 5, offset: 30849},
 													expr: &seqExpr{
-														pos: position{line: 976, col: 34, offset: 30827},
+														pos: position{line: 988, col: 34, offset: 31231},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 976, col: 34, offset: 30827},
+																pos:        position{line: 988, col: 34, offset: 31231},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 976, col: 40, offset: 30833},
+																pos: position{line: 988, col: 40, offset: 31237},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92448},
+																	pos: position{line: 2934, col: 10, offset: 92852},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92448},
+																		pos:        position{line: 2934, col: 10, offset: 92852},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32406,28 +32998,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92846},
+																pos: position{line: 2956, col: 8, offset: 93250},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92619},
+																		pos: position{line: 2943, col: 12, offset: 93023},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92620},
+																			pos: position{line: 2943, col: 13, offset: 93024},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92620},
+																					pos:        position{line: 2943, col: 13, offset: 93024},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92627},
+																					pos:        position{line: 2943, col: 20, offset: 93031},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92636},
+																					pos:        position{line: 2943, col: 29, offset: 93040},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32436,9 +33028,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92796},
+																		pos: position{line: 2953, col: 8, offset: 93200},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92797,
+																			line: 2953, col: 9, offset: 93201,
 																		},
 																	},
 																},
@@ -32450,39 +33042,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 881, col: 5, offset: 28221},
+										pos: position{line: 893, col: 5, offset: 28625},
 										run: (*parser).callonListContinuationElement551,
 										expr: &seqExpr{
-											pos: position{line: 881, col: 5, offset: 28221},
+											pos: position{line: 893, col: 5, offset: 28625},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 881, col: 5, offset: 28221},
+													pos:   position{line: 893, col: 5, offset: 28625},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 767, col: 5, offset: 24763},
+														pos: position{line: 779, col: 5, offset: 25167},
 														run: (*parser).callonListContinuationElement554,
 														expr: &seqExpr{
-															pos: position{line: 767, col: 5, offset: 24763},
+															pos: position{line: 779, col: 5, offset: 25167},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 767, col: 5, offset: 24763},
+																	pos:   position{line: 779, col: 5, offset: 25167},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 767, col: 16, offset: 24774},
+																		pos: position{line: 779, col: 16, offset: 25178},
 																		run: (*parser).callonListContinuationElement557,
 																		expr: &seqExpr{
-																			pos: position{line: 767, col: 16, offset: 24774},
+																			pos: position{line: 779, col: 16, offset: 25178},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 767, col: 16, offset: 24774},
+																					pos:        position{line: 779, col: 16, offset: 25178},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 767, col: 22, offset: 24780},
+																					pos: position{line: 779, col: 22, offset: 25184},
 																					expr: &litMatcher{
-																						pos:        position{line: 767, col: 22, offset: 24780},
+																						pos:        position{line: 779, col: 22, offset: 25184},
 																						val:        "`",
 																						ignoreCase: false,
 																						want:       "\"`\"",
@@ -32493,12 +33085,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 769, col: 8, offset: 24864},
+																	pos: position{line: 781, col: 8, offset: 25268},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92448},
+																		pos: position{line: 2934, col: 10, offset: 92852},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92448},
+																			pos:        position{line: 2934, col: 10, offset: 92852},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32507,28 +33099,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92846},
+																	pos: position{line: 2956, col: 8, offset: 93250},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92619},
+																			pos: position{line: 2943, col: 12, offset: 93023},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92620},
+																				pos: position{line: 2943, col: 13, offset: 93024},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92620},
+																						pos:        position{line: 2943, col: 13, offset: 93024},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92627},
+																						pos:        position{line: 2943, col: 20, offset: 93031},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92636},
+																						pos:        position{line: 2943, col: 29, offset: 93040},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32537,9 +33129,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92796},
+																			pos: position{line: 2953, col: 8, offset: 93200},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92797,
+																				line: 2953, col: 9, offset: 93201,
 																			},
 																		},
 																	},
@@ -32549,56 +33141,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 882, col: 5, offset: 28259},
+													pos: position{line: 894, col: 5, offset: 28663},
 													run: (*parser).callonListContinuationElement573,
 												},
 												&labeledExpr{
-													pos:   position{line: 885, col: 5, offset: 28351},
+													pos:   position{line: 897, col: 5, offset: 28755},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 900, col: 5, offset: 28741},
+														pos: position{line: 912, col: 5, offset: 29145},
 														expr: &actionExpr{
-															pos: position{line: 900, col: 6, offset: 28742},
+															pos: position{line: 912, col: 6, offset: 29146},
 															run: (*parser).callonListContinuationElement576,
 															expr: &seqExpr{
-																pos: position{line: 900, col: 6, offset: 28742},
+																pos: position{line: 912, col: 6, offset: 29146},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 900, col: 6, offset: 28742},
+																		pos: position{line: 912, col: 6, offset: 29146},
 																		expr: &choiceExpr{
-																			pos: position{line: 893, col: 5, offset: 28585},
+																			pos: position{line: 905, col: 5, offset: 28989},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 893, col: 5, offset: 28585},
+																					pos: position{line: 905, col: 5, offset: 28989},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 893, col: 5, offset: 28585},
+																							pos:   position{line: 905, col: 5, offset: 28989},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 767, col: 5, offset: 24763},
+																								pos: position{line: 779, col: 5, offset: 25167},
 																								run: (*parser).callonListContinuationElement582,
 																								expr: &seqExpr{
-																									pos: position{line: 767, col: 5, offset: 24763},
+																									pos: position{line: 779, col: 5, offset: 25167},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 767, col: 5, offset: 24763},
+																											pos:   position{line: 779, col: 5, offset: 25167},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 767, col: 16, offset: 24774},
+																												pos: position{line: 779, col: 16, offset: 25178},
 																												run: (*parser).callonListContinuationElement585,
 																												expr: &seqExpr{
-																													pos: position{line: 767, col: 16, offset: 24774},
+																													pos: position{line: 779, col: 16, offset: 25178},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 767, col: 16, offset: 24774},
+																															pos:        position{line: 779, col: 16, offset: 25178},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 767, col: 22, offset: 24780},
+																															pos: position{line: 779, col: 22, offset: 25184},
 																															expr: &litMatcher{
-																																pos:        position{line: 767, col: 22, offset: 24780},
+																																pos:        position{line: 779, col: 22, offset: 25184},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -32609,12 +33201,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 8, offset: 24864},
+																											pos: position{line: 781, col: 8, offset: 25268},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92448},
+																												pos: position{line: 2934, col: 10, offset: 92852},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92448},
+																													pos:        position{line: 2934, col: 10, offset: 92852},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32623,28 +33215,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92846},
+																											pos: position{line: 2956, col: 8, offset: 93250},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92619},
+																													pos: position{line: 2943, col: 12, offset: 93023},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92620},
+																														pos: position{line: 2943, col: 13, offset: 93024},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92620},
+																																pos:        position{line: 2943, col: 13, offset: 93024},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92627},
+																																pos:        position{line: 2943, col: 20, offset: 93031},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92636},
+																																pos:        position{line: 2943, col: 29, offset: 93040},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32653,9 +33245,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92796},
+																													pos: position{line: 2953, col: 8, offset: 93200},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92797,
+																														line: 2953, col: 9, offset: 93201,
 																													},
 																												},
 																											},
@@ -32665,45 +33257,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 894, col: 5, offset: 28615},
+																							pos: position{line: 906, col: 5, offset: 29019},
 																							run: (*parser).callonListContinuationElement601,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 901, col: 5, offset: 28771},
+																		pos:   position{line: 913, col: 5, offset: 29175},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 824, col: 5, offset: 26772},
+																			pos: position{line: 836, col: 5, offset: 27176},
 																			run: (*parser).callonListContinuationElement605,
 																			expr: &seqExpr{
-																				pos: position{line: 824, col: 5, offset: 26772},
+																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92782},
+																						pos: position{line: 2951, col: 11, offset: 93186},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92784,
+																							line: 2951, col: 13, offset: 93188,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 825, col: 5, offset: 26847},
+																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90974},
+																							pos: position{line: 2880, col: 13, offset: 91378},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90974},
+																								pos: position{line: 2880, col: 13, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90974},
+																									pos:        position{line: 2880, col: 13, offset: 91378},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32713,28 +33305,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92846},
+																						pos: position{line: 2956, col: 8, offset: 93250},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92619},
+																								pos: position{line: 2943, col: 12, offset: 93023},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92620},
+																									pos: position{line: 2943, col: 13, offset: 93024},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92620},
+																											pos:        position{line: 2943, col: 13, offset: 93024},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92627},
+																											pos:        position{line: 2943, col: 20, offset: 93031},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92636},
+																											pos:        position{line: 2943, col: 29, offset: 93040},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32743,9 +33335,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92796},
+																								pos: position{line: 2953, col: 8, offset: 93200},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92797,
+																									line: 2953, col: 9, offset: 93201,
 																								},
 																							},
 																						},
@@ -32760,44 +33352,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 886, col: 5, offset: 28384},
+													pos:   position{line: 898, col: 5, offset: 28788},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 886, col: 9, offset: 28388},
+														pos: position{line: 898, col: 9, offset: 28792},
 														expr: &choiceExpr{
-															pos: position{line: 893, col: 5, offset: 28585},
+															pos: position{line: 905, col: 5, offset: 28989},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 893, col: 5, offset: 28585},
+																	pos: position{line: 905, col: 5, offset: 28989},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 893, col: 5, offset: 28585},
+																			pos:   position{line: 905, col: 5, offset: 28989},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 767, col: 5, offset: 24763},
+																				pos: position{line: 779, col: 5, offset: 25167},
 																				run: (*parser).callonListContinuationElement626,
 																				expr: &seqExpr{
-																					pos: position{line: 767, col: 5, offset: 24763},
+																					pos: position{line: 779, col: 5, offset: 25167},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 767, col: 5, offset: 24763},
+																							pos:   position{line: 779, col: 5, offset: 25167},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 767, col: 16, offset: 24774},
+																								pos: position{line: 779, col: 16, offset: 25178},
 																								run: (*parser).callonListContinuationElement629,
 																								expr: &seqExpr{
-																									pos: position{line: 767, col: 16, offset: 24774},
+																									pos: position{line: 779, col: 16, offset: 25178},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 767, col: 16, offset: 24774},
+																											pos:        position{line: 779, col: 16, offset: 25178},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 767, col: 22, offset: 24780},
+																											pos: position{line: 779, col: 22, offset: 25184},
 																											expr: &litMatcher{
-																												pos:        position{line: 767, col: 22, offset: 24780},
+																												pos:        position{line: 779, col: 22, offset: 25184},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -32808,12 +33400,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 769, col: 8, offset: 24864},
+																							pos: position{line: 781, col: 8, offset: 25268},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92448},
+																								pos: position{line: 2934, col: 10, offset: 92852},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92448},
+																									pos:        position{line: 2934, col: 10, offset: 92852},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32822,28 +33414,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32852,9 +33444,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -32864,15 +33456,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 894, col: 5, offset: 28615},
+																			pos: position{line: 906, col: 5, offset: 29019},
 																			run: (*parser).callonListContinuationElement645,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92796},
+																	pos: position{line: 2953, col: 8, offset: 93200},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92797,
+																		line: 2953, col: 9, offset: 93201,
 																	},
 																},
 															},
@@ -32883,39 +33475,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 909, col: 5, offset: 28926},
+										pos: position{line: 921, col: 5, offset: 29330},
 										run: (*parser).callonListContinuationElement648,
 										expr: &seqExpr{
-											pos: position{line: 909, col: 5, offset: 28926},
+											pos: position{line: 921, col: 5, offset: 29330},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 909, col: 5, offset: 28926},
+													pos:   position{line: 921, col: 5, offset: 29330},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 782, col: 5, offset: 25300},
+														pos: position{line: 794, col: 5, offset: 25704},
 														run: (*parser).callonListContinuationElement651,
 														expr: &seqExpr{
-															pos: position{line: 782, col: 5, offset: 25300},
+															pos: position{line: 794, col: 5, offset: 25704},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 782, col: 5, offset: 25300},
+																	pos:   position{line: 794, col: 5, offset: 25704},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 782, col: 16, offset: 25311},
+																		pos: position{line: 794, col: 16, offset: 25715},
 																		run: (*parser).callonListContinuationElement654,
 																		expr: &seqExpr{
-																			pos: position{line: 782, col: 16, offset: 25311},
+																			pos: position{line: 794, col: 16, offset: 25715},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 782, col: 16, offset: 25311},
+																					pos:        position{line: 794, col: 16, offset: 25715},
 																					val:        "----",
 																					ignoreCase: false,
 																					want:       "\"----\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 782, col: 23, offset: 25318},
+																					pos: position{line: 794, col: 23, offset: 25722},
 																					expr: &litMatcher{
-																						pos:        position{line: 782, col: 23, offset: 25318},
+																						pos:        position{line: 794, col: 23, offset: 25722},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
@@ -32926,12 +33518,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 784, col: 8, offset: 25402},
+																	pos: position{line: 796, col: 8, offset: 25806},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92448},
+																		pos: position{line: 2934, col: 10, offset: 92852},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92448},
+																			pos:        position{line: 2934, col: 10, offset: 92852},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32940,28 +33532,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92846},
+																	pos: position{line: 2956, col: 8, offset: 93250},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92619},
+																			pos: position{line: 2943, col: 12, offset: 93023},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92620},
+																				pos: position{line: 2943, col: 13, offset: 93024},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92620},
+																						pos:        position{line: 2943, col: 13, offset: 93024},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92627},
+																						pos:        position{line: 2943, col: 20, offset: 93031},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92636},
+																						pos:        position{line: 2943, col: 29, offset: 93040},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32970,9 +33562,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92796},
+																			pos: position{line: 2953, col: 8, offset: 93200},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92797,
+																				line: 2953, col: 9, offset: 93201,
 																			},
 																		},
 																	},
@@ -32982,56 +33574,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 910, col: 5, offset: 28965},
+													pos: position{line: 922, col: 5, offset: 29369},
 													run: (*parser).callonListContinuationElement670,
 												},
 												&labeledExpr{
-													pos:   position{line: 913, col: 5, offset: 29057},
+													pos:   position{line: 925, col: 5, offset: 29461},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 928, col: 5, offset: 29455},
+														pos: position{line: 940, col: 5, offset: 29859},
 														expr: &actionExpr{
-															pos: position{line: 928, col: 6, offset: 29456},
+															pos: position{line: 940, col: 6, offset: 29860},
 															run: (*parser).callonListContinuationElement673,
 															expr: &seqExpr{
-																pos: position{line: 928, col: 6, offset: 29456},
+																pos: position{line: 940, col: 6, offset: 29860},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 928, col: 6, offset: 29456},
+																		pos: position{line: 940, col: 6, offset: 29860},
 																		expr: &choiceExpr{
-																			pos: position{line: 921, col: 5, offset: 29297},
+																			pos: position{line: 933, col: 5, offset: 29701},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 921, col: 5, offset: 29297},
+																					pos: position{line: 933, col: 5, offset: 29701},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 921, col: 5, offset: 29297},
+																							pos:   position{line: 933, col: 5, offset: 29701},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 782, col: 5, offset: 25300},
+																								pos: position{line: 794, col: 5, offset: 25704},
 																								run: (*parser).callonListContinuationElement679,
 																								expr: &seqExpr{
-																									pos: position{line: 782, col: 5, offset: 25300},
+																									pos: position{line: 794, col: 5, offset: 25704},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 782, col: 5, offset: 25300},
+																											pos:   position{line: 794, col: 5, offset: 25704},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 782, col: 16, offset: 25311},
+																												pos: position{line: 794, col: 16, offset: 25715},
 																												run: (*parser).callonListContinuationElement682,
 																												expr: &seqExpr{
-																													pos: position{line: 782, col: 16, offset: 25311},
+																													pos: position{line: 794, col: 16, offset: 25715},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 782, col: 16, offset: 25311},
+																															pos:        position{line: 794, col: 16, offset: 25715},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 782, col: 23, offset: 25318},
+																															pos: position{line: 794, col: 23, offset: 25722},
 																															expr: &litMatcher{
-																																pos:        position{line: 782, col: 23, offset: 25318},
+																																pos:        position{line: 794, col: 23, offset: 25722},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -33042,12 +33634,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 784, col: 8, offset: 25402},
+																											pos: position{line: 796, col: 8, offset: 25806},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92448},
+																												pos: position{line: 2934, col: 10, offset: 92852},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92448},
+																													pos:        position{line: 2934, col: 10, offset: 92852},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33056,28 +33648,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92846},
+																											pos: position{line: 2956, col: 8, offset: 93250},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92619},
+																													pos: position{line: 2943, col: 12, offset: 93023},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92620},
+																														pos: position{line: 2943, col: 13, offset: 93024},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92620},
+																																pos:        position{line: 2943, col: 13, offset: 93024},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92627},
+																																pos:        position{line: 2943, col: 20, offset: 93031},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92636},
+																																pos:        position{line: 2943, col: 29, offset: 93040},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33086,9 +33678,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92796},
+																													pos: position{line: 2953, col: 8, offset: 93200},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92797,
+																														line: 2953, col: 9, offset: 93201,
 																													},
 																												},
 																											},
@@ -33098,45 +33690,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 922, col: 5, offset: 29328},
+																							pos: position{line: 934, col: 5, offset: 29732},
 																							run: (*parser).callonListContinuationElement698,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 929, col: 5, offset: 29486},
+																		pos:   position{line: 941, col: 5, offset: 29890},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 824, col: 5, offset: 26772},
+																			pos: position{line: 836, col: 5, offset: 27176},
 																			run: (*parser).callonListContinuationElement702,
 																			expr: &seqExpr{
-																				pos: position{line: 824, col: 5, offset: 26772},
+																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92782},
+																						pos: position{line: 2951, col: 11, offset: 93186},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92784,
+																							line: 2951, col: 13, offset: 93188,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 825, col: 5, offset: 26847},
+																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90974},
+																							pos: position{line: 2880, col: 13, offset: 91378},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90974},
+																								pos: position{line: 2880, col: 13, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90974},
+																									pos:        position{line: 2880, col: 13, offset: 91378},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33146,28 +33738,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92846},
+																						pos: position{line: 2956, col: 8, offset: 93250},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92619},
+																								pos: position{line: 2943, col: 12, offset: 93023},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92620},
+																									pos: position{line: 2943, col: 13, offset: 93024},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92620},
+																											pos:        position{line: 2943, col: 13, offset: 93024},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92627},
+																											pos:        position{line: 2943, col: 20, offset: 93031},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92636},
+																											pos:        position{line: 2943, col: 29, offset: 93040},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33176,9 +33768,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92796},
+																								pos: position{line: 2953, col: 8, offset: 93200},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92797,
+																									line: 2953, col: 9, offset: 93201,
 																								},
 																							},
 																						},
@@ -33193,44 +33785,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 914, col: 5, offset: 29091},
+													pos:   position{line: 926, col: 5, offset: 29495},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 914, col: 9, offset: 29095},
+														pos: position{line: 926, col: 9, offset: 29499},
 														expr: &choiceExpr{
-															pos: position{line: 921, col: 5, offset: 29297},
+															pos: position{line: 933, col: 5, offset: 29701},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 921, col: 5, offset: 29297},
+																	pos: position{line: 933, col: 5, offset: 29701},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 921, col: 5, offset: 29297},
+																			pos:   position{line: 933, col: 5, offset: 29701},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 782, col: 5, offset: 25300},
+																				pos: position{line: 794, col: 5, offset: 25704},
 																				run: (*parser).callonListContinuationElement723,
 																				expr: &seqExpr{
-																					pos: position{line: 782, col: 5, offset: 25300},
+																					pos: position{line: 794, col: 5, offset: 25704},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 782, col: 5, offset: 25300},
+																							pos:   position{line: 794, col: 5, offset: 25704},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 782, col: 16, offset: 25311},
+																								pos: position{line: 794, col: 16, offset: 25715},
 																								run: (*parser).callonListContinuationElement726,
 																								expr: &seqExpr{
-																									pos: position{line: 782, col: 16, offset: 25311},
+																									pos: position{line: 794, col: 16, offset: 25715},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 782, col: 16, offset: 25311},
+																											pos:        position{line: 794, col: 16, offset: 25715},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 782, col: 23, offset: 25318},
+																											pos: position{line: 794, col: 23, offset: 25722},
 																											expr: &litMatcher{
-																												pos:        position{line: 782, col: 23, offset: 25318},
+																												pos:        position{line: 794, col: 23, offset: 25722},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -33241,12 +33833,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 784, col: 8, offset: 25402},
+																							pos: position{line: 796, col: 8, offset: 25806},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92448},
+																								pos: position{line: 2934, col: 10, offset: 92852},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92448},
+																									pos:        position{line: 2934, col: 10, offset: 92852},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33255,28 +33847,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33285,9 +33877,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -33297,15 +33889,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 922, col: 5, offset: 29328},
+																			pos: position{line: 934, col: 5, offset: 29732},
 																			run: (*parser).callonListContinuationElement742,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92796},
+																	pos: position{line: 2953, col: 8, offset: 93200},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92797,
+																		line: 2953, col: 9, offset: 93201,
 																	},
 																},
 															},
@@ -33316,39 +33908,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 937, col: 5, offset: 29641},
+										pos: position{line: 949, col: 5, offset: 30045},
 										run: (*parser).callonListContinuationElement745,
 										expr: &seqExpr{
-											pos: position{line: 937, col: 5, offset: 29641},
+											pos: position{line: 949, col: 5, offset: 30045},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 937, col: 5, offset: 29641},
+													pos:   position{line: 949, col: 5, offset: 30045},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 796, col: 5, offset: 25776},
+														pos: position{line: 808, col: 5, offset: 26180},
 														run: (*parser).callonListContinuationElement748,
 														expr: &seqExpr{
-															pos: position{line: 796, col: 5, offset: 25776},
+															pos: position{line: 808, col: 5, offset: 26180},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 796, col: 5, offset: 25776},
+																	pos:   position{line: 808, col: 5, offset: 26180},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 796, col: 16, offset: 25787},
+																		pos: position{line: 808, col: 16, offset: 26191},
 																		run: (*parser).callonListContinuationElement751,
 																		expr: &seqExpr{
-																			pos: position{line: 796, col: 16, offset: 25787},
+																			pos: position{line: 808, col: 16, offset: 26191},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 796, col: 16, offset: 25787},
+																					pos:        position{line: 808, col: 16, offset: 26191},
 																					val:        "....",
 																					ignoreCase: false,
 																					want:       "\"....\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 796, col: 23, offset: 25794},
+																					pos: position{line: 808, col: 23, offset: 26198},
 																					expr: &litMatcher{
-																						pos:        position{line: 796, col: 23, offset: 25794},
+																						pos:        position{line: 808, col: 23, offset: 26198},
 																						val:        ".",
 																						ignoreCase: false,
 																						want:       "\".\"",
@@ -33359,12 +33951,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 798, col: 8, offset: 25878},
+																	pos: position{line: 810, col: 8, offset: 26282},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92448},
+																		pos: position{line: 2934, col: 10, offset: 92852},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92448},
+																			pos:        position{line: 2934, col: 10, offset: 92852},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33373,28 +33965,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92846},
+																	pos: position{line: 2956, col: 8, offset: 93250},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92619},
+																			pos: position{line: 2943, col: 12, offset: 93023},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92620},
+																				pos: position{line: 2943, col: 13, offset: 93024},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92620},
+																						pos:        position{line: 2943, col: 13, offset: 93024},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92627},
+																						pos:        position{line: 2943, col: 20, offset: 93031},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92636},
+																						pos:        position{line: 2943, col: 29, offset: 93040},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33403,9 +33995,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92796},
+																			pos: position{line: 2953, col: 8, offset: 93200},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92797,
+																				line: 2953, col: 9, offset: 93201,
 																			},
 																		},
 																	},
@@ -33415,56 +34007,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 938, col: 5, offset: 29680},
+													pos: position{line: 950, col: 5, offset: 30084},
 													run: (*parser).callonListContinuationElement767,
 												},
 												&labeledExpr{
-													pos:   position{line: 941, col: 5, offset: 29772},
+													pos:   position{line: 953, col: 5, offset: 30176},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 956, col: 5, offset: 30170},
+														pos: position{line: 968, col: 5, offset: 30574},
 														expr: &actionExpr{
-															pos: position{line: 956, col: 6, offset: 30171},
+															pos: position{line: 968, col: 6, offset: 30575},
 															run: (*parser).callonListContinuationElement770,
 															expr: &seqExpr{
-																pos: position{line: 956, col: 6, offset: 30171},
+																pos: position{line: 968, col: 6, offset: 30575},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 956, col: 6, offset: 30171},
+																		pos: position{line: 968, col: 6, offset: 30575},
 																		expr: &choiceExpr{
-																			pos: position{line: 949, col: 5, offset: 30012},
+																			pos: position{line: 961, col: 5, offset: 30416},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 949, col: 5, offset: 30012},
+																					pos: position{line: 961, col: 5, offset: 30416},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 949, col: 5, offset: 30012},
+																							pos:   position{line: 961, col: 5, offset: 30416},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 796, col: 5, offset: 25776},
+																								pos: position{line: 808, col: 5, offset: 26180},
 																								run: (*parser).callonListContinuationElement776,
 																								expr: &seqExpr{
-																									pos: position{line: 796, col: 5, offset: 25776},
+																									pos: position{line: 808, col: 5, offset: 26180},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 796, col: 5, offset: 25776},
+																											pos:   position{line: 808, col: 5, offset: 26180},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 796, col: 16, offset: 25787},
+																												pos: position{line: 808, col: 16, offset: 26191},
 																												run: (*parser).callonListContinuationElement779,
 																												expr: &seqExpr{
-																													pos: position{line: 796, col: 16, offset: 25787},
+																													pos: position{line: 808, col: 16, offset: 26191},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 796, col: 16, offset: 25787},
+																															pos:        position{line: 808, col: 16, offset: 26191},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 796, col: 23, offset: 25794},
+																															pos: position{line: 808, col: 23, offset: 26198},
 																															expr: &litMatcher{
-																																pos:        position{line: 796, col: 23, offset: 25794},
+																																pos:        position{line: 808, col: 23, offset: 26198},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -33475,12 +34067,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 798, col: 8, offset: 25878},
+																											pos: position{line: 810, col: 8, offset: 26282},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92448},
+																												pos: position{line: 2934, col: 10, offset: 92852},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92448},
+																													pos:        position{line: 2934, col: 10, offset: 92852},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33489,28 +34081,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92846},
+																											pos: position{line: 2956, col: 8, offset: 93250},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92619},
+																													pos: position{line: 2943, col: 12, offset: 93023},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92620},
+																														pos: position{line: 2943, col: 13, offset: 93024},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92620},
+																																pos:        position{line: 2943, col: 13, offset: 93024},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92627},
+																																pos:        position{line: 2943, col: 20, offset: 93031},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92636},
+																																pos:        position{line: 2943, col: 29, offset: 93040},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33519,9 +34111,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92796},
+																													pos: position{line: 2953, col: 8, offset: 93200},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92797,
+																														line: 2953, col: 9, offset: 93201,
 																													},
 																												},
 																											},
@@ -33531,45 +34123,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 950, col: 5, offset: 30043},
+																							pos: position{line: 962, col: 5, offset: 30447},
 																							run: (*parser).callonListContinuationElement795,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 957, col: 5, offset: 30201},
+																		pos:   position{line: 969, col: 5, offset: 30605},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 824, col: 5, offset: 26772},
+																			pos: position{line: 836, col: 5, offset: 27176},
 																			run: (*parser).callonListContinuationElement799,
 																			expr: &seqExpr{
-																				pos: position{line: 824, col: 5, offset: 26772},
+																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92782},
+																						pos: position{line: 2951, col: 11, offset: 93186},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92784,
+																							line: 2951, col: 13, offset: 93188,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 825, col: 5, offset: 26847},
+																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90974},
+																							pos: position{line: 2880, col: 13, offset: 91378},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90974},
+																								pos: position{line: 2880, col: 13, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90974},
+																									pos:        position{line: 2880, col: 13, offset: 91378},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33579,28 +34171,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92846},
+																						pos: position{line: 2956, col: 8, offset: 93250},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92619},
+																								pos: position{line: 2943, col: 12, offset: 93023},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92620},
+																									pos: position{line: 2943, col: 13, offset: 93024},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92620},
+																											pos:        position{line: 2943, col: 13, offset: 93024},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92627},
+																											pos:        position{line: 2943, col: 20, offset: 93031},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92636},
+																											pos:        position{line: 2943, col: 29, offset: 93040},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33609,9 +34201,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92796},
+																								pos: position{line: 2953, col: 8, offset: 93200},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92797,
+																									line: 2953, col: 9, offset: 93201,
 																								},
 																							},
 																						},
@@ -33626,44 +34218,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 942, col: 5, offset: 29806},
+													pos:   position{line: 954, col: 5, offset: 30210},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 942, col: 9, offset: 29810},
+														pos: position{line: 954, col: 9, offset: 30214},
 														expr: &choiceExpr{
-															pos: position{line: 949, col: 5, offset: 30012},
+															pos: position{line: 961, col: 5, offset: 30416},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 949, col: 5, offset: 30012},
+																	pos: position{line: 961, col: 5, offset: 30416},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 949, col: 5, offset: 30012},
+																			pos:   position{line: 961, col: 5, offset: 30416},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 796, col: 5, offset: 25776},
+																				pos: position{line: 808, col: 5, offset: 26180},
 																				run: (*parser).callonListContinuationElement820,
 																				expr: &seqExpr{
-																					pos: position{line: 796, col: 5, offset: 25776},
+																					pos: position{line: 808, col: 5, offset: 26180},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 796, col: 5, offset: 25776},
+																							pos:   position{line: 808, col: 5, offset: 26180},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 796, col: 16, offset: 25787},
+																								pos: position{line: 808, col: 16, offset: 26191},
 																								run: (*parser).callonListContinuationElement823,
 																								expr: &seqExpr{
-																									pos: position{line: 796, col: 16, offset: 25787},
+																									pos: position{line: 808, col: 16, offset: 26191},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 796, col: 16, offset: 25787},
+																											pos:        position{line: 808, col: 16, offset: 26191},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 796, col: 23, offset: 25794},
+																											pos: position{line: 808, col: 23, offset: 26198},
 																											expr: &litMatcher{
-																												pos:        position{line: 796, col: 23, offset: 25794},
+																												pos:        position{line: 808, col: 23, offset: 26198},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -33674,12 +34266,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 798, col: 8, offset: 25878},
+																							pos: position{line: 810, col: 8, offset: 26282},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92448},
+																								pos: position{line: 2934, col: 10, offset: 92852},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92448},
+																									pos:        position{line: 2934, col: 10, offset: 92852},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33688,28 +34280,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33718,9 +34310,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -33730,15 +34322,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 950, col: 5, offset: 30043},
+																			pos: position{line: 962, col: 5, offset: 30447},
 																			run: (*parser).callonListContinuationElement839,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92796},
+																	pos: position{line: 2953, col: 8, offset: 93200},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92797,
+																		line: 2953, col: 9, offset: 93201,
 																	},
 																},
 															},
@@ -33749,41 +34341,41 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 988, col: 5, offset: 31084},
+										pos: position{line: 1000, col: 5, offset: 31488},
 										run: (*parser).callonListContinuationElement842,
 										expr: &seqExpr{
-											pos: position{line: 988, col: 5, offset: 31084},
+											pos: position{line: 1000, col: 5, offset: 31488},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 988, col: 5, offset: 31084},
+													pos:   position{line: 1000, col: 5, offset: 31488},
 													label: "firstLine",
 													expr: &actionExpr{
-														pos: position{line: 995, col: 5, offset: 31343},
+														pos: position{line: 1007, col: 5, offset: 31747},
 														run: (*parser).callonListContinuationElement845,
 														expr: &seqExpr{
-															pos: position{line: 995, col: 5, offset: 31343},
+															pos: position{line: 1007, col: 5, offset: 31747},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 995, col: 5, offset: 31343},
+																	pos: position{line: 1007, col: 5, offset: 31747},
 																	expr: &actionExpr{
-																		pos: position{line: 690, col: 14, offset: 22173},
+																		pos: position{line: 702, col: 14, offset: 22577},
 																		run: (*parser).callonListContinuationElement848,
 																		expr: &seqExpr{
-																			pos: position{line: 690, col: 14, offset: 22173},
+																			pos: position{line: 702, col: 14, offset: 22577},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2939, col: 11, offset: 92782},
+																					pos: position{line: 2951, col: 11, offset: 93186},
 																					expr: &anyMatcher{
-																						line: 2939, col: 13, offset: 92784,
+																						line: 2951, col: 13, offset: 93188,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 690, col: 21, offset: 22180},
+																					pos: position{line: 702, col: 21, offset: 22584},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92448},
+																						pos: position{line: 2934, col: 10, offset: 92852},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92448},
+																							pos:        position{line: 2934, col: 10, offset: 92852},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33792,28 +34384,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92846},
+																					pos: position{line: 2956, col: 8, offset: 93250},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92619},
+																							pos: position{line: 2943, col: 12, offset: 93023},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92620},
+																								pos: position{line: 2943, col: 13, offset: 93024},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92620},
+																										pos:        position{line: 2943, col: 13, offset: 93024},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92627},
+																										pos:        position{line: 2943, col: 20, offset: 93031},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92636},
+																										pos:        position{line: 2943, col: 29, offset: 93040},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33822,9 +34414,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92796},
+																							pos: position{line: 2953, col: 8, offset: 93200},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92797,
+																								line: 2953, col: 9, offset: 93201,
 																							},
 																						},
 																					},
@@ -33834,21 +34426,21 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 996, col: 5, offset: 31358},
+																	pos:        position{line: 1008, col: 5, offset: 31762},
 																	val:        "> ",
 																	ignoreCase: false,
 																	want:       "\"> \"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 997, col: 5, offset: 31368},
+																	pos:   position{line: 1009, col: 5, offset: 31772},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 14, offset: 91041},
+																		pos: position{line: 2884, col: 14, offset: 91445},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2872, col: 14, offset: 91041},
+																			pos: position{line: 2884, col: 14, offset: 91445},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 14, offset: 91041},
+																				pos:        position{line: 2884, col: 14, offset: 91445},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33858,28 +34450,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92846},
+																	pos: position{line: 2956, col: 8, offset: 93250},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92619},
+																			pos: position{line: 2943, col: 12, offset: 93023},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92620},
+																				pos: position{line: 2943, col: 13, offset: 93024},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92620},
+																						pos:        position{line: 2943, col: 13, offset: 93024},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92627},
+																						pos:        position{line: 2943, col: 20, offset: 93031},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92636},
+																						pos:        position{line: 2943, col: 29, offset: 93040},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33888,9 +34480,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92796},
+																			pos: position{line: 2953, col: 8, offset: 93200},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92797,
+																				line: 2953, col: 9, offset: 93201,
 																			},
 																		},
 																	},
@@ -33900,40 +34492,40 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 989, col: 5, offset: 31121},
+													pos:   position{line: 1001, col: 5, offset: 31525},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 989, col: 16, offset: 31132},
+														pos: position{line: 1001, col: 16, offset: 31536},
 														expr: &choiceExpr{
-															pos: position{line: 989, col: 17, offset: 31133},
+															pos: position{line: 1001, col: 17, offset: 31537},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 995, col: 5, offset: 31343},
+																	pos: position{line: 1007, col: 5, offset: 31747},
 																	run: (*parser).callonListContinuationElement879,
 																	expr: &seqExpr{
-																		pos: position{line: 995, col: 5, offset: 31343},
+																		pos: position{line: 1007, col: 5, offset: 31747},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 995, col: 5, offset: 31343},
+																				pos: position{line: 1007, col: 5, offset: 31747},
 																				expr: &actionExpr{
-																					pos: position{line: 690, col: 14, offset: 22173},
+																					pos: position{line: 702, col: 14, offset: 22577},
 																					run: (*parser).callonListContinuationElement882,
 																					expr: &seqExpr{
-																						pos: position{line: 690, col: 14, offset: 22173},
+																						pos: position{line: 702, col: 14, offset: 22577},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2939, col: 11, offset: 92782},
+																								pos: position{line: 2951, col: 11, offset: 93186},
 																								expr: &anyMatcher{
-																									line: 2939, col: 13, offset: 92784,
+																									line: 2951, col: 13, offset: 93188,
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 690, col: 21, offset: 22180},
+																								pos: position{line: 702, col: 21, offset: 22584},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92448},
+																									pos: position{line: 2934, col: 10, offset: 92852},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92448},
+																										pos:        position{line: 2934, col: 10, offset: 92852},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33942,28 +34534,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92846},
+																								pos: position{line: 2956, col: 8, offset: 93250},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92619},
+																										pos: position{line: 2943, col: 12, offset: 93023},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92620},
+																											pos: position{line: 2943, col: 13, offset: 93024},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92620},
+																													pos:        position{line: 2943, col: 13, offset: 93024},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92627},
+																													pos:        position{line: 2943, col: 20, offset: 93031},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92636},
+																													pos:        position{line: 2943, col: 29, offset: 93040},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33972,9 +34564,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92796},
+																										pos: position{line: 2953, col: 8, offset: 93200},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92797,
+																											line: 2953, col: 9, offset: 93201,
 																										},
 																									},
 																								},
@@ -33984,21 +34576,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 996, col: 5, offset: 31358},
+																				pos:        position{line: 1008, col: 5, offset: 31762},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 997, col: 5, offset: 31368},
+																				pos:   position{line: 1009, col: 5, offset: 31772},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2872, col: 14, offset: 91041},
+																					pos: position{line: 2884, col: 14, offset: 91445},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2872, col: 14, offset: 91041},
+																						pos: position{line: 2884, col: 14, offset: 91445},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2872, col: 14, offset: 91041},
+																							pos:        position{line: 2884, col: 14, offset: 91445},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34008,28 +34600,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92846},
+																				pos: position{line: 2956, col: 8, offset: 93250},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92619},
+																						pos: position{line: 2943, col: 12, offset: 93023},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92620},
+																							pos: position{line: 2943, col: 13, offset: 93024},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92620},
+																									pos:        position{line: 2943, col: 13, offset: 93024},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92627},
+																									pos:        position{line: 2943, col: 20, offset: 93031},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92636},
+																									pos:        position{line: 2943, col: 29, offset: 93040},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34038,9 +34630,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92796},
+																						pos: position{line: 2953, col: 8, offset: 93200},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92797,
+																							line: 2953, col: 9, offset: 93201,
 																						},
 																					},
 																				},
@@ -34049,21 +34641,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1804, col: 5, offset: 58508},
+																	pos: position{line: 1816, col: 5, offset: 58912},
 																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 1804, col: 5, offset: 58508},
+																		pos: position{line: 1816, col: 5, offset: 58912},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1804, col: 5, offset: 58508},
+																				pos:   position{line: 1816, col: 5, offset: 58912},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2872, col: 14, offset: 91041},
+																					pos: position{line: 2884, col: 14, offset: 91445},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2872, col: 14, offset: 91041},
+																						pos: position{line: 2884, col: 14, offset: 91445},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2872, col: 14, offset: 91041},
+																							pos:        position{line: 2884, col: 14, offset: 91445},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34073,32 +34665,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1805, col: 5, offset: 58532},
+																				pos: position{line: 1817, col: 5, offset: 58936},
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92846},
+																				pos: position{line: 2956, col: 8, offset: 93250},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92619},
+																						pos: position{line: 2943, col: 12, offset: 93023},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92620},
+																							pos: position{line: 2943, col: 13, offset: 93024},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92620},
+																									pos:        position{line: 2943, col: 13, offset: 93024},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92627},
+																									pos:        position{line: 2943, col: 20, offset: 93031},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92636},
+																									pos:        position{line: 2943, col: 29, offset: 93040},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34107,9 +34699,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92796},
+																						pos: position{line: 2953, col: 8, offset: 93200},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92797,
+																							line: 2953, col: 9, offset: 93201,
 																						},
 																					},
 																				},
@@ -34125,28 +34717,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1010, col: 5, offset: 31633},
+										pos: position{line: 1022, col: 5, offset: 32037},
 										run: (*parser).callonListContinuationElement925,
 										expr: &seqExpr{
-											pos: position{line: 1010, col: 5, offset: 31633},
+											pos: position{line: 1022, col: 5, offset: 32037},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1010, col: 5, offset: 31633},
+													pos:   position{line: 1022, col: 5, offset: 32037},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 789, col: 5, offset: 25545},
+														pos: position{line: 801, col: 5, offset: 25949},
 														run: (*parser).callonListContinuationElement928,
 														expr: &seqExpr{
-															pos: position{line: 789, col: 5, offset: 25545},
+															pos: position{line: 801, col: 5, offset: 25949},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 789, col: 5, offset: 25545},
+																	pos:   position{line: 801, col: 5, offset: 25949},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 789, col: 16, offset: 25556},
+																		pos: position{line: 801, col: 16, offset: 25960},
 																		run: (*parser).callonListContinuationElement931,
 																		expr: &litMatcher{
-																			pos:        position{line: 789, col: 16, offset: 25556},
+																			pos:        position{line: 801, col: 16, offset: 25960},
 																			val:        "--",
 																			ignoreCase: false,
 																			want:       "\"--\"",
@@ -34154,12 +34746,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 791, col: 8, offset: 25633},
+																	pos: position{line: 803, col: 8, offset: 26037},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92448},
+																		pos: position{line: 2934, col: 10, offset: 92852},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92448},
+																			pos:        position{line: 2934, col: 10, offset: 92852},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34168,28 +34760,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92846},
+																	pos: position{line: 2956, col: 8, offset: 93250},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92619},
+																			pos: position{line: 2943, col: 12, offset: 93023},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92620},
+																				pos: position{line: 2943, col: 13, offset: 93024},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92620},
+																						pos:        position{line: 2943, col: 13, offset: 93024},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92627},
+																						pos:        position{line: 2943, col: 20, offset: 93031},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92636},
+																						pos:        position{line: 2943, col: 29, offset: 93040},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34198,9 +34790,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92796},
+																			pos: position{line: 2953, col: 8, offset: 93200},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92797,
+																				line: 2953, col: 9, offset: 93201,
 																			},
 																		},
 																	},
@@ -34210,35 +34802,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1011, col: 5, offset: 31669},
+													pos:   position{line: 1023, col: 5, offset: 32073},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1021, col: 5, offset: 31937},
+														pos: position{line: 1033, col: 5, offset: 32341},
 														expr: &actionExpr{
-															pos: position{line: 1021, col: 6, offset: 31938},
+															pos: position{line: 1033, col: 6, offset: 32342},
 															run: (*parser).callonListContinuationElement946,
 															expr: &seqExpr{
-																pos: position{line: 1021, col: 6, offset: 31938},
+																pos: position{line: 1033, col: 6, offset: 32342},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1021, col: 6, offset: 31938},
+																		pos: position{line: 1033, col: 6, offset: 32342},
 																		expr: &choiceExpr{
-																			pos: position{line: 1018, col: 26, offset: 31886},
+																			pos: position{line: 1030, col: 26, offset: 32290},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 789, col: 5, offset: 25545},
+																					pos: position{line: 801, col: 5, offset: 25949},
 																					run: (*parser).callonListContinuationElement950,
 																					expr: &seqExpr{
-																						pos: position{line: 789, col: 5, offset: 25545},
+																						pos: position{line: 801, col: 5, offset: 25949},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 789, col: 5, offset: 25545},
+																								pos:   position{line: 801, col: 5, offset: 25949},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 789, col: 16, offset: 25556},
+																									pos: position{line: 801, col: 16, offset: 25960},
 																									run: (*parser).callonListContinuationElement953,
 																									expr: &litMatcher{
-																										pos:        position{line: 789, col: 16, offset: 25556},
+																										pos:        position{line: 801, col: 16, offset: 25960},
 																										val:        "--",
 																										ignoreCase: false,
 																										want:       "\"--\"",
@@ -34246,12 +34838,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 791, col: 8, offset: 25633},
+																								pos: position{line: 803, col: 8, offset: 26037},
 																								expr: &actionExpr{
-																									pos: position{line: 2922, col: 10, offset: 92448},
+																									pos: position{line: 2934, col: 10, offset: 92852},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 10, offset: 92448},
+																										pos:        position{line: 2934, col: 10, offset: 92852},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34260,28 +34852,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2944, col: 8, offset: 92846},
+																								pos: position{line: 2956, col: 8, offset: 93250},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2931, col: 12, offset: 92619},
+																										pos: position{line: 2943, col: 12, offset: 93023},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2931, col: 13, offset: 92620},
+																											pos: position{line: 2943, col: 13, offset: 93024},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 13, offset: 92620},
+																													pos:        position{line: 2943, col: 13, offset: 93024},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 20, offset: 92627},
+																													pos:        position{line: 2943, col: 20, offset: 93031},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2931, col: 29, offset: 92636},
+																													pos:        position{line: 2943, col: 29, offset: 93040},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34290,9 +34882,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2941, col: 8, offset: 92796},
+																										pos: position{line: 2953, col: 8, offset: 93200},
 																										expr: &anyMatcher{
-																											line: 2941, col: 9, offset: 92797,
+																											line: 2953, col: 9, offset: 93201,
 																										},
 																									},
 																								},
@@ -34301,39 +34893,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1022, col: 5, offset: 31965},
+																		pos:   position{line: 1034, col: 5, offset: 32369},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 824, col: 5, offset: 26772},
+																			pos: position{line: 836, col: 5, offset: 27176},
 																			run: (*parser).callonListContinuationElement969,
 																			expr: &seqExpr{
-																				pos: position{line: 824, col: 5, offset: 26772},
+																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92782},
+																						pos: position{line: 2951, col: 11, offset: 93186},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92784,
+																							line: 2951, col: 13, offset: 93188,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 825, col: 5, offset: 26847},
+																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90974},
+																							pos: position{line: 2880, col: 13, offset: 91378},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90974},
+																								pos: position{line: 2880, col: 13, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90974},
+																									pos:        position{line: 2880, col: 13, offset: 91378},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34343,28 +34935,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92846},
+																						pos: position{line: 2956, col: 8, offset: 93250},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92619},
+																								pos: position{line: 2943, col: 12, offset: 93023},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92620},
+																									pos: position{line: 2943, col: 13, offset: 93024},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92620},
+																											pos:        position{line: 2943, col: 13, offset: 93024},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92627},
+																											pos:        position{line: 2943, col: 20, offset: 93031},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92636},
+																											pos:        position{line: 2943, col: 29, offset: 93040},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34373,9 +34965,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92796},
+																								pos: position{line: 2953, col: 8, offset: 93200},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92797,
+																									line: 2953, col: 9, offset: 93201,
 																								},
 																							},
 																						},
@@ -34390,27 +34982,27 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1012, col: 5, offset: 31700},
+													pos:   position{line: 1024, col: 5, offset: 32104},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1012, col: 9, offset: 31704},
+														pos: position{line: 1024, col: 9, offset: 32108},
 														expr: &choiceExpr{
-															pos: position{line: 1018, col: 26, offset: 31886},
+															pos: position{line: 1030, col: 26, offset: 32290},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 789, col: 5, offset: 25545},
+																	pos: position{line: 801, col: 5, offset: 25949},
 																	run: (*parser).callonListContinuationElement988,
 																	expr: &seqExpr{
-																		pos: position{line: 789, col: 5, offset: 25545},
+																		pos: position{line: 801, col: 5, offset: 25949},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 789, col: 5, offset: 25545},
+																				pos:   position{line: 801, col: 5, offset: 25949},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 789, col: 16, offset: 25556},
+																					pos: position{line: 801, col: 16, offset: 25960},
 																					run: (*parser).callonListContinuationElement991,
 																					expr: &litMatcher{
-																						pos:        position{line: 789, col: 16, offset: 25556},
+																						pos:        position{line: 801, col: 16, offset: 25960},
 																						val:        "--",
 																						ignoreCase: false,
 																						want:       "\"--\"",
@@ -34418,12 +35010,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 791, col: 8, offset: 25633},
+																				pos: position{line: 803, col: 8, offset: 26037},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92448},
+																					pos: position{line: 2934, col: 10, offset: 92852},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92448},
+																						pos:        position{line: 2934, col: 10, offset: 92852},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34432,28 +35024,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92846},
+																				pos: position{line: 2956, col: 8, offset: 93250},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92619},
+																						pos: position{line: 2943, col: 12, offset: 93023},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92620},
+																							pos: position{line: 2943, col: 13, offset: 93024},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92620},
+																									pos:        position{line: 2943, col: 13, offset: 93024},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92627},
+																									pos:        position{line: 2943, col: 20, offset: 93031},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92636},
+																									pos:        position{line: 2943, col: 29, offset: 93040},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34462,9 +35054,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92796},
+																						pos: position{line: 2953, col: 8, offset: 93200},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92797,
+																							line: 2953, col: 9, offset: 93201,
 																						},
 																					},
 																				},
@@ -34473,9 +35065,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92796},
+																	pos: position{line: 2953, col: 8, offset: 93200},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92797,
+																		line: 2953, col: 9, offset: 93201,
 																	},
 																},
 															},
@@ -34486,39 +35078,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1030, col: 5, offset: 32128},
+										pos: position{line: 1042, col: 5, offset: 32532},
 										run: (*parser).callonListContinuationElement1006,
 										expr: &seqExpr{
-											pos: position{line: 1030, col: 5, offset: 32128},
+											pos: position{line: 1042, col: 5, offset: 32532},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1030, col: 5, offset: 32128},
+													pos:   position{line: 1042, col: 5, offset: 32532},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 803, col: 5, offset: 26028},
+														pos: position{line: 815, col: 5, offset: 26432},
 														run: (*parser).callonListContinuationElement1009,
 														expr: &seqExpr{
-															pos: position{line: 803, col: 5, offset: 26028},
+															pos: position{line: 815, col: 5, offset: 26432},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 803, col: 5, offset: 26028},
+																	pos:   position{line: 815, col: 5, offset: 26432},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 803, col: 16, offset: 26039},
+																		pos: position{line: 815, col: 16, offset: 26443},
 																		run: (*parser).callonListContinuationElement1012,
 																		expr: &seqExpr{
-																			pos: position{line: 803, col: 16, offset: 26039},
+																			pos: position{line: 815, col: 16, offset: 26443},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 803, col: 16, offset: 26039},
+																					pos:        position{line: 815, col: 16, offset: 26443},
 																					val:        "++++",
 																					ignoreCase: false,
 																					want:       "\"++++\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 803, col: 23, offset: 26046},
+																					pos: position{line: 815, col: 23, offset: 26450},
 																					expr: &litMatcher{
-																						pos:        position{line: 803, col: 23, offset: 26046},
+																						pos:        position{line: 815, col: 23, offset: 26450},
 																						val:        "+",
 																						ignoreCase: false,
 																						want:       "\"+\"",
@@ -34529,12 +35121,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 805, col: 8, offset: 26130},
+																	pos: position{line: 817, col: 8, offset: 26534},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92448},
+																		pos: position{line: 2934, col: 10, offset: 92852},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92448},
+																			pos:        position{line: 2934, col: 10, offset: 92852},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34543,28 +35135,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92846},
+																	pos: position{line: 2956, col: 8, offset: 93250},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92619},
+																			pos: position{line: 2943, col: 12, offset: 93023},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92620},
+																				pos: position{line: 2943, col: 13, offset: 93024},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92620},
+																						pos:        position{line: 2943, col: 13, offset: 93024},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92627},
+																						pos:        position{line: 2943, col: 20, offset: 93031},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92636},
+																						pos:        position{line: 2943, col: 29, offset: 93040},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34573,9 +35165,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92796},
+																			pos: position{line: 2953, col: 8, offset: 93200},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92797,
+																				line: 2953, col: 9, offset: 93201,
 																			},
 																		},
 																	},
@@ -34585,56 +35177,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1031, col: 5, offset: 32171},
+													pos: position{line: 1043, col: 5, offset: 32575},
 													run: (*parser).callonListContinuationElement1028,
 												},
 												&labeledExpr{
-													pos:   position{line: 1034, col: 5, offset: 32263},
+													pos:   position{line: 1046, col: 5, offset: 32667},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1049, col: 5, offset: 32693},
+														pos: position{line: 1061, col: 5, offset: 33097},
 														expr: &actionExpr{
-															pos: position{line: 1049, col: 6, offset: 32694},
+															pos: position{line: 1061, col: 6, offset: 33098},
 															run: (*parser).callonListContinuationElement1031,
 															expr: &seqExpr{
-																pos: position{line: 1049, col: 6, offset: 32694},
+																pos: position{line: 1061, col: 6, offset: 33098},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1049, col: 6, offset: 32694},
+																		pos: position{line: 1061, col: 6, offset: 33098},
 																		expr: &choiceExpr{
-																			pos: position{line: 1042, col: 5, offset: 32527},
+																			pos: position{line: 1054, col: 5, offset: 32931},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1042, col: 5, offset: 32527},
+																					pos: position{line: 1054, col: 5, offset: 32931},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1042, col: 5, offset: 32527},
+																							pos:   position{line: 1054, col: 5, offset: 32931},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 803, col: 5, offset: 26028},
+																								pos: position{line: 815, col: 5, offset: 26432},
 																								run: (*parser).callonListContinuationElement1037,
 																								expr: &seqExpr{
-																									pos: position{line: 803, col: 5, offset: 26028},
+																									pos: position{line: 815, col: 5, offset: 26432},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 803, col: 5, offset: 26028},
+																											pos:   position{line: 815, col: 5, offset: 26432},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 803, col: 16, offset: 26039},
+																												pos: position{line: 815, col: 16, offset: 26443},
 																												run: (*parser).callonListContinuationElement1040,
 																												expr: &seqExpr{
-																													pos: position{line: 803, col: 16, offset: 26039},
+																													pos: position{line: 815, col: 16, offset: 26443},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 803, col: 16, offset: 26039},
+																															pos:        position{line: 815, col: 16, offset: 26443},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 803, col: 23, offset: 26046},
+																															pos: position{line: 815, col: 23, offset: 26450},
 																															expr: &litMatcher{
-																																pos:        position{line: 803, col: 23, offset: 26046},
+																																pos:        position{line: 815, col: 23, offset: 26450},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -34645,12 +35237,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 805, col: 8, offset: 26130},
+																											pos: position{line: 817, col: 8, offset: 26534},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92448},
+																												pos: position{line: 2934, col: 10, offset: 92852},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92448},
+																													pos:        position{line: 2934, col: 10, offset: 92852},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34659,28 +35251,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92846},
+																											pos: position{line: 2956, col: 8, offset: 93250},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92619},
+																													pos: position{line: 2943, col: 12, offset: 93023},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92620},
+																														pos: position{line: 2943, col: 13, offset: 93024},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92620},
+																																pos:        position{line: 2943, col: 13, offset: 93024},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92627},
+																																pos:        position{line: 2943, col: 20, offset: 93031},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92636},
+																																pos:        position{line: 2943, col: 29, offset: 93040},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34689,9 +35281,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92796},
+																													pos: position{line: 2953, col: 8, offset: 93200},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92797,
+																														line: 2953, col: 9, offset: 93201,
 																													},
 																												},
 																											},
@@ -34701,45 +35293,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1043, col: 5, offset: 32562},
+																							pos: position{line: 1055, col: 5, offset: 32966},
 																							run: (*parser).callonListContinuationElement1056,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1050, col: 5, offset: 32728},
+																		pos:   position{line: 1062, col: 5, offset: 33132},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 824, col: 5, offset: 26772},
+																			pos: position{line: 836, col: 5, offset: 27176},
 																			run: (*parser).callonListContinuationElement1060,
 																			expr: &seqExpr{
-																				pos: position{line: 824, col: 5, offset: 26772},
+																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92782},
+																						pos: position{line: 2951, col: 11, offset: 93186},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92784,
+																							line: 2951, col: 13, offset: 93188,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 825, col: 5, offset: 26847},
+																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90974},
+																							pos: position{line: 2880, col: 13, offset: 91378},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90974},
+																								pos: position{line: 2880, col: 13, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90974},
+																									pos:        position{line: 2880, col: 13, offset: 91378},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34749,28 +35341,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92846},
+																						pos: position{line: 2956, col: 8, offset: 93250},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92619},
+																								pos: position{line: 2943, col: 12, offset: 93023},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92620},
+																									pos: position{line: 2943, col: 13, offset: 93024},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92620},
+																											pos:        position{line: 2943, col: 13, offset: 93024},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92627},
+																											pos:        position{line: 2943, col: 20, offset: 93031},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92636},
+																											pos:        position{line: 2943, col: 29, offset: 93040},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34779,9 +35371,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92796},
+																								pos: position{line: 2953, col: 8, offset: 93200},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92797,
+																									line: 2953, col: 9, offset: 93201,
 																								},
 																							},
 																						},
@@ -34796,44 +35388,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1035, col: 5, offset: 32301},
+													pos:   position{line: 1047, col: 5, offset: 32705},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1035, col: 9, offset: 32305},
+														pos: position{line: 1047, col: 9, offset: 32709},
 														expr: &choiceExpr{
-															pos: position{line: 1042, col: 5, offset: 32527},
+															pos: position{line: 1054, col: 5, offset: 32931},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1042, col: 5, offset: 32527},
+																	pos: position{line: 1054, col: 5, offset: 32931},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1042, col: 5, offset: 32527},
+																			pos:   position{line: 1054, col: 5, offset: 32931},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 803, col: 5, offset: 26028},
+																				pos: position{line: 815, col: 5, offset: 26432},
 																				run: (*parser).callonListContinuationElement1081,
 																				expr: &seqExpr{
-																					pos: position{line: 803, col: 5, offset: 26028},
+																					pos: position{line: 815, col: 5, offset: 26432},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 803, col: 5, offset: 26028},
+																							pos:   position{line: 815, col: 5, offset: 26432},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 803, col: 16, offset: 26039},
+																								pos: position{line: 815, col: 16, offset: 26443},
 																								run: (*parser).callonListContinuationElement1084,
 																								expr: &seqExpr{
-																									pos: position{line: 803, col: 16, offset: 26039},
+																									pos: position{line: 815, col: 16, offset: 26443},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 803, col: 16, offset: 26039},
+																											pos:        position{line: 815, col: 16, offset: 26443},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 803, col: 23, offset: 26046},
+																											pos: position{line: 815, col: 23, offset: 26450},
 																											expr: &litMatcher{
-																												pos:        position{line: 803, col: 23, offset: 26046},
+																												pos:        position{line: 815, col: 23, offset: 26450},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -34844,12 +35436,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 805, col: 8, offset: 26130},
+																							pos: position{line: 817, col: 8, offset: 26534},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92448},
+																								pos: position{line: 2934, col: 10, offset: 92852},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92448},
+																									pos:        position{line: 2934, col: 10, offset: 92852},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34858,28 +35450,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34888,9 +35480,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -34900,15 +35492,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1043, col: 5, offset: 32562},
+																			pos: position{line: 1055, col: 5, offset: 32966},
 																			run: (*parser).callonListContinuationElement1100,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92796},
+																	pos: position{line: 2953, col: 8, offset: 93200},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92797,
+																		line: 2953, col: 9, offset: 93201,
 																	},
 																},
 															},
@@ -34919,39 +35511,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1058, col: 5, offset: 32879},
+										pos: position{line: 1070, col: 5, offset: 33283},
 										run: (*parser).callonListContinuationElement1103,
 										expr: &seqExpr{
-											pos: position{line: 1058, col: 5, offset: 32879},
+											pos: position{line: 1070, col: 5, offset: 33283},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1058, col: 5, offset: 32879},
+													pos:   position{line: 1070, col: 5, offset: 33283},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 810, col: 5, offset: 26278},
+														pos: position{line: 822, col: 5, offset: 26682},
 														run: (*parser).callonListContinuationElement1106,
 														expr: &seqExpr{
-															pos: position{line: 810, col: 5, offset: 26278},
+															pos: position{line: 822, col: 5, offset: 26682},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 810, col: 5, offset: 26278},
+																	pos:   position{line: 822, col: 5, offset: 26682},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 810, col: 16, offset: 26289},
+																		pos: position{line: 822, col: 16, offset: 26693},
 																		run: (*parser).callonListContinuationElement1109,
 																		expr: &seqExpr{
-																			pos: position{line: 810, col: 16, offset: 26289},
+																			pos: position{line: 822, col: 16, offset: 26693},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 810, col: 16, offset: 26289},
+																					pos:        position{line: 822, col: 16, offset: 26693},
 																					val:        "____",
 																					ignoreCase: false,
 																					want:       "\"____\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 810, col: 23, offset: 26296},
+																					pos: position{line: 822, col: 23, offset: 26700},
 																					expr: &litMatcher{
-																						pos:        position{line: 810, col: 23, offset: 26296},
+																						pos:        position{line: 822, col: 23, offset: 26700},
 																						val:        "_",
 																						ignoreCase: false,
 																						want:       "\"_\"",
@@ -34962,12 +35554,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 812, col: 8, offset: 26380},
+																	pos: position{line: 824, col: 8, offset: 26784},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92448},
+																		pos: position{line: 2934, col: 10, offset: 92852},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92448},
+																			pos:        position{line: 2934, col: 10, offset: 92852},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34976,28 +35568,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92846},
+																	pos: position{line: 2956, col: 8, offset: 93250},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92619},
+																			pos: position{line: 2943, col: 12, offset: 93023},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92620},
+																				pos: position{line: 2943, col: 13, offset: 93024},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92620},
+																						pos:        position{line: 2943, col: 13, offset: 93024},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92627},
+																						pos:        position{line: 2943, col: 20, offset: 93031},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92636},
+																						pos:        position{line: 2943, col: 29, offset: 93040},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35006,9 +35598,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92796},
+																			pos: position{line: 2953, col: 8, offset: 93200},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92797,
+																				line: 2953, col: 9, offset: 93201,
 																			},
 																		},
 																	},
@@ -35018,56 +35610,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1059, col: 5, offset: 32916},
+													pos: position{line: 1071, col: 5, offset: 33320},
 													run: (*parser).callonListContinuationElement1125,
 												},
 												&labeledExpr{
-													pos:   position{line: 1062, col: 5, offset: 33008},
+													pos:   position{line: 1074, col: 5, offset: 33412},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1077, col: 4, offset: 33389},
+														pos: position{line: 1089, col: 4, offset: 33793},
 														expr: &actionExpr{
-															pos: position{line: 1077, col: 5, offset: 33390},
+															pos: position{line: 1089, col: 5, offset: 33794},
 															run: (*parser).callonListContinuationElement1128,
 															expr: &seqExpr{
-																pos: position{line: 1077, col: 5, offset: 33390},
+																pos: position{line: 1089, col: 5, offset: 33794},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1077, col: 5, offset: 33390},
+																		pos: position{line: 1089, col: 5, offset: 33794},
 																		expr: &choiceExpr{
-																			pos: position{line: 1070, col: 5, offset: 33236},
+																			pos: position{line: 1082, col: 5, offset: 33640},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1070, col: 5, offset: 33236},
+																					pos: position{line: 1082, col: 5, offset: 33640},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1070, col: 5, offset: 33236},
+																							pos:   position{line: 1082, col: 5, offset: 33640},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 810, col: 5, offset: 26278},
+																								pos: position{line: 822, col: 5, offset: 26682},
 																								run: (*parser).callonListContinuationElement1134,
 																								expr: &seqExpr{
-																									pos: position{line: 810, col: 5, offset: 26278},
+																									pos: position{line: 822, col: 5, offset: 26682},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 810, col: 5, offset: 26278},
+																											pos:   position{line: 822, col: 5, offset: 26682},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 810, col: 16, offset: 26289},
+																												pos: position{line: 822, col: 16, offset: 26693},
 																												run: (*parser).callonListContinuationElement1137,
 																												expr: &seqExpr{
-																													pos: position{line: 810, col: 16, offset: 26289},
+																													pos: position{line: 822, col: 16, offset: 26693},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 810, col: 16, offset: 26289},
+																															pos:        position{line: 822, col: 16, offset: 26693},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 810, col: 23, offset: 26296},
+																															pos: position{line: 822, col: 23, offset: 26700},
 																															expr: &litMatcher{
-																																pos:        position{line: 810, col: 23, offset: 26296},
+																																pos:        position{line: 822, col: 23, offset: 26700},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -35078,12 +35670,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 812, col: 8, offset: 26380},
+																											pos: position{line: 824, col: 8, offset: 26784},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92448},
+																												pos: position{line: 2934, col: 10, offset: 92852},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92448},
+																													pos:        position{line: 2934, col: 10, offset: 92852},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35092,28 +35684,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92846},
+																											pos: position{line: 2956, col: 8, offset: 93250},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92619},
+																													pos: position{line: 2943, col: 12, offset: 93023},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92620},
+																														pos: position{line: 2943, col: 13, offset: 93024},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92620},
+																																pos:        position{line: 2943, col: 13, offset: 93024},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92627},
+																																pos:        position{line: 2943, col: 20, offset: 93031},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92636},
+																																pos:        position{line: 2943, col: 29, offset: 93040},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35122,9 +35714,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92796},
+																													pos: position{line: 2953, col: 8, offset: 93200},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92797,
+																														line: 2953, col: 9, offset: 93201,
 																													},
 																												},
 																											},
@@ -35134,45 +35726,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1071, col: 5, offset: 33265},
+																							pos: position{line: 1083, col: 5, offset: 33669},
 																							run: (*parser).callonListContinuationElement1153,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1078, col: 5, offset: 33418},
+																		pos:   position{line: 1090, col: 5, offset: 33822},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 824, col: 5, offset: 26772},
+																			pos: position{line: 836, col: 5, offset: 27176},
 																			run: (*parser).callonListContinuationElement1157,
 																			expr: &seqExpr{
-																				pos: position{line: 824, col: 5, offset: 26772},
+																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92782},
+																						pos: position{line: 2951, col: 11, offset: 93186},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92784,
+																							line: 2951, col: 13, offset: 93188,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 825, col: 5, offset: 26847},
+																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90974},
+																							pos: position{line: 2880, col: 13, offset: 91378},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90974},
+																								pos: position{line: 2880, col: 13, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90974},
+																									pos:        position{line: 2880, col: 13, offset: 91378},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35182,28 +35774,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92846},
+																						pos: position{line: 2956, col: 8, offset: 93250},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92619},
+																								pos: position{line: 2943, col: 12, offset: 93023},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92620},
+																									pos: position{line: 2943, col: 13, offset: 93024},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92620},
+																											pos:        position{line: 2943, col: 13, offset: 93024},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92627},
+																											pos:        position{line: 2943, col: 20, offset: 93031},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92636},
+																											pos:        position{line: 2943, col: 29, offset: 93040},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35212,9 +35804,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92796},
+																								pos: position{line: 2953, col: 8, offset: 93200},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92797,
+																									line: 2953, col: 9, offset: 93201,
 																								},
 																							},
 																						},
@@ -35229,44 +35821,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1063, col: 5, offset: 33040},
+													pos:   position{line: 1075, col: 5, offset: 33444},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1063, col: 9, offset: 33044},
+														pos: position{line: 1075, col: 9, offset: 33448},
 														expr: &choiceExpr{
-															pos: position{line: 1070, col: 5, offset: 33236},
+															pos: position{line: 1082, col: 5, offset: 33640},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1070, col: 5, offset: 33236},
+																	pos: position{line: 1082, col: 5, offset: 33640},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1070, col: 5, offset: 33236},
+																			pos:   position{line: 1082, col: 5, offset: 33640},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26278},
+																				pos: position{line: 822, col: 5, offset: 26682},
 																				run: (*parser).callonListContinuationElement1178,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26278},
+																					pos: position{line: 822, col: 5, offset: 26682},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 810, col: 5, offset: 26278},
+																							pos:   position{line: 822, col: 5, offset: 26682},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 810, col: 16, offset: 26289},
+																								pos: position{line: 822, col: 16, offset: 26693},
 																								run: (*parser).callonListContinuationElement1181,
 																								expr: &seqExpr{
-																									pos: position{line: 810, col: 16, offset: 26289},
+																									pos: position{line: 822, col: 16, offset: 26693},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 810, col: 16, offset: 26289},
+																											pos:        position{line: 822, col: 16, offset: 26693},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 810, col: 23, offset: 26296},
+																											pos: position{line: 822, col: 23, offset: 26700},
 																											expr: &litMatcher{
-																												pos:        position{line: 810, col: 23, offset: 26296},
+																												pos:        position{line: 822, col: 23, offset: 26700},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -35277,12 +35869,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 812, col: 8, offset: 26380},
+																							pos: position{line: 824, col: 8, offset: 26784},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92448},
+																								pos: position{line: 2934, col: 10, offset: 92852},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92448},
+																									pos:        position{line: 2934, col: 10, offset: 92852},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35291,28 +35883,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35321,9 +35913,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -35333,15 +35925,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1071, col: 5, offset: 33265},
+																			pos: position{line: 1083, col: 5, offset: 33669},
 																			run: (*parser).callonListContinuationElement1197,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92796},
+																	pos: position{line: 2953, col: 8, offset: 93200},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92797,
+																		line: 2953, col: 9, offset: 93201,
 																	},
 																},
 															},
@@ -35352,39 +35944,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1086, col: 5, offset: 33573},
+										pos: position{line: 1098, col: 5, offset: 33977},
 										run: (*parser).callonListContinuationElement1200,
 										expr: &seqExpr{
-											pos: position{line: 1086, col: 5, offset: 33573},
+											pos: position{line: 1098, col: 5, offset: 33977},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1086, col: 5, offset: 33573},
+													pos:   position{line: 1098, col: 5, offset: 33977},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 817, col: 5, offset: 26524},
+														pos: position{line: 829, col: 5, offset: 26928},
 														run: (*parser).callonListContinuationElement1203,
 														expr: &seqExpr{
-															pos: position{line: 817, col: 5, offset: 26524},
+															pos: position{line: 829, col: 5, offset: 26928},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 817, col: 5, offset: 26524},
+																	pos:   position{line: 829, col: 5, offset: 26928},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 817, col: 16, offset: 26535},
+																		pos: position{line: 829, col: 16, offset: 26939},
 																		run: (*parser).callonListContinuationElement1206,
 																		expr: &seqExpr{
-																			pos: position{line: 817, col: 16, offset: 26535},
+																			pos: position{line: 829, col: 16, offset: 26939},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 817, col: 16, offset: 26535},
+																					pos:        position{line: 829, col: 16, offset: 26939},
 																					val:        "****",
 																					ignoreCase: false,
 																					want:       "\"****\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 817, col: 23, offset: 26542},
+																					pos: position{line: 829, col: 23, offset: 26946},
 																					expr: &litMatcher{
-																						pos:        position{line: 817, col: 23, offset: 26542},
+																						pos:        position{line: 829, col: 23, offset: 26946},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -35395,12 +35987,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 819, col: 8, offset: 26626},
+																	pos: position{line: 831, col: 8, offset: 27030},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92448},
+																		pos: position{line: 2934, col: 10, offset: 92852},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92448},
+																			pos:        position{line: 2934, col: 10, offset: 92852},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35409,28 +36001,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92846},
+																	pos: position{line: 2956, col: 8, offset: 93250},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92619},
+																			pos: position{line: 2943, col: 12, offset: 93023},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92620},
+																				pos: position{line: 2943, col: 13, offset: 93024},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92620},
+																						pos:        position{line: 2943, col: 13, offset: 93024},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92627},
+																						pos:        position{line: 2943, col: 20, offset: 93031},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92636},
+																						pos:        position{line: 2943, col: 29, offset: 93040},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35439,9 +36031,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92796},
+																			pos: position{line: 2953, col: 8, offset: 93200},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92797,
+																				line: 2953, col: 9, offset: 93201,
 																			},
 																		},
 																	},
@@ -35451,56 +36043,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1087, col: 5, offset: 33612},
+													pos: position{line: 1099, col: 5, offset: 34016},
 													run: (*parser).callonListContinuationElement1222,
 												},
 												&labeledExpr{
-													pos:   position{line: 1090, col: 5, offset: 33704},
+													pos:   position{line: 1102, col: 5, offset: 34108},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1105, col: 4, offset: 34101},
+														pos: position{line: 1117, col: 4, offset: 34505},
 														expr: &actionExpr{
-															pos: position{line: 1105, col: 5, offset: 34102},
+															pos: position{line: 1117, col: 5, offset: 34506},
 															run: (*parser).callonListContinuationElement1225,
 															expr: &seqExpr{
-																pos: position{line: 1105, col: 5, offset: 34102},
+																pos: position{line: 1117, col: 5, offset: 34506},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1105, col: 5, offset: 34102},
+																		pos: position{line: 1117, col: 5, offset: 34506},
 																		expr: &choiceExpr{
-																			pos: position{line: 1098, col: 5, offset: 33944},
+																			pos: position{line: 1110, col: 5, offset: 34348},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1098, col: 5, offset: 33944},
+																					pos: position{line: 1110, col: 5, offset: 34348},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1098, col: 5, offset: 33944},
+																							pos:   position{line: 1110, col: 5, offset: 34348},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 817, col: 5, offset: 26524},
+																								pos: position{line: 829, col: 5, offset: 26928},
 																								run: (*parser).callonListContinuationElement1231,
 																								expr: &seqExpr{
-																									pos: position{line: 817, col: 5, offset: 26524},
+																									pos: position{line: 829, col: 5, offset: 26928},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 817, col: 5, offset: 26524},
+																											pos:   position{line: 829, col: 5, offset: 26928},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 817, col: 16, offset: 26535},
+																												pos: position{line: 829, col: 16, offset: 26939},
 																												run: (*parser).callonListContinuationElement1234,
 																												expr: &seqExpr{
-																													pos: position{line: 817, col: 16, offset: 26535},
+																													pos: position{line: 829, col: 16, offset: 26939},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 817, col: 16, offset: 26535},
+																															pos:        position{line: 829, col: 16, offset: 26939},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 817, col: 23, offset: 26542},
+																															pos: position{line: 829, col: 23, offset: 26946},
 																															expr: &litMatcher{
-																																pos:        position{line: 817, col: 23, offset: 26542},
+																																pos:        position{line: 829, col: 23, offset: 26946},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -35511,12 +36103,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 819, col: 8, offset: 26626},
+																											pos: position{line: 831, col: 8, offset: 27030},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92448},
+																												pos: position{line: 2934, col: 10, offset: 92852},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92448},
+																													pos:        position{line: 2934, col: 10, offset: 92852},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35525,28 +36117,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92846},
+																											pos: position{line: 2956, col: 8, offset: 93250},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92619},
+																													pos: position{line: 2943, col: 12, offset: 93023},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92620},
+																														pos: position{line: 2943, col: 13, offset: 93024},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92620},
+																																pos:        position{line: 2943, col: 13, offset: 93024},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92627},
+																																pos:        position{line: 2943, col: 20, offset: 93031},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92636},
+																																pos:        position{line: 2943, col: 29, offset: 93040},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35555,9 +36147,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92796},
+																													pos: position{line: 2953, col: 8, offset: 93200},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92797,
+																														line: 2953, col: 9, offset: 93201,
 																													},
 																												},
 																											},
@@ -35567,45 +36159,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1099, col: 5, offset: 33975},
+																							pos: position{line: 1111, col: 5, offset: 34379},
 																							run: (*parser).callonListContinuationElement1250,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1106, col: 5, offset: 34132},
+																		pos:   position{line: 1118, col: 5, offset: 34536},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 824, col: 5, offset: 26772},
+																			pos: position{line: 836, col: 5, offset: 27176},
 																			run: (*parser).callonListContinuationElement1254,
 																			expr: &seqExpr{
-																				pos: position{line: 824, col: 5, offset: 26772},
+																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2939, col: 11, offset: 92782},
+																						pos: position{line: 2951, col: 11, offset: 93186},
 																						expr: &anyMatcher{
-																							line: 2939, col: 13, offset: 92784,
+																							line: 2951, col: 13, offset: 93188,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 825, col: 5, offset: 26847},
+																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 13, offset: 90974},
+																							pos: position{line: 2880, col: 13, offset: 91378},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2868, col: 13, offset: 90974},
+																								pos: position{line: 2880, col: 13, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 13, offset: 90974},
+																									pos:        position{line: 2880, col: 13, offset: 91378},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35615,28 +36207,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92846},
+																						pos: position{line: 2956, col: 8, offset: 93250},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92619},
+																								pos: position{line: 2943, col: 12, offset: 93023},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92620},
+																									pos: position{line: 2943, col: 13, offset: 93024},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92620},
+																											pos:        position{line: 2943, col: 13, offset: 93024},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92627},
+																											pos:        position{line: 2943, col: 20, offset: 93031},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92636},
+																											pos:        position{line: 2943, col: 29, offset: 93040},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35645,9 +36237,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92796},
+																								pos: position{line: 2953, col: 8, offset: 93200},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92797,
+																									line: 2953, col: 9, offset: 93201,
 																								},
 																							},
 																						},
@@ -35662,44 +36254,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1091, col: 5, offset: 33738},
+													pos:   position{line: 1103, col: 5, offset: 34142},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1091, col: 9, offset: 33742},
+														pos: position{line: 1103, col: 9, offset: 34146},
 														expr: &choiceExpr{
-															pos: position{line: 1098, col: 5, offset: 33944},
+															pos: position{line: 1110, col: 5, offset: 34348},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1098, col: 5, offset: 33944},
+																	pos: position{line: 1110, col: 5, offset: 34348},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1098, col: 5, offset: 33944},
+																			pos:   position{line: 1110, col: 5, offset: 34348},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 817, col: 5, offset: 26524},
+																				pos: position{line: 829, col: 5, offset: 26928},
 																				run: (*parser).callonListContinuationElement1275,
 																				expr: &seqExpr{
-																					pos: position{line: 817, col: 5, offset: 26524},
+																					pos: position{line: 829, col: 5, offset: 26928},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 817, col: 5, offset: 26524},
+																							pos:   position{line: 829, col: 5, offset: 26928},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 817, col: 16, offset: 26535},
+																								pos: position{line: 829, col: 16, offset: 26939},
 																								run: (*parser).callonListContinuationElement1278,
 																								expr: &seqExpr{
-																									pos: position{line: 817, col: 16, offset: 26535},
+																									pos: position{line: 829, col: 16, offset: 26939},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 817, col: 16, offset: 26535},
+																											pos:        position{line: 829, col: 16, offset: 26939},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 817, col: 23, offset: 26542},
+																											pos: position{line: 829, col: 23, offset: 26946},
 																											expr: &litMatcher{
-																												pos:        position{line: 817, col: 23, offset: 26542},
+																												pos:        position{line: 829, col: 23, offset: 26946},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -35710,12 +36302,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 819, col: 8, offset: 26626},
+																							pos: position{line: 831, col: 8, offset: 27030},
 																							expr: &actionExpr{
-																								pos: position{line: 2922, col: 10, offset: 92448},
+																								pos: position{line: 2934, col: 10, offset: 92852},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 10, offset: 92448},
+																									pos:        position{line: 2934, col: 10, offset: 92852},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35724,28 +36316,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2944, col: 8, offset: 92846},
+																							pos: position{line: 2956, col: 8, offset: 93250},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2931, col: 12, offset: 92619},
+																									pos: position{line: 2943, col: 12, offset: 93023},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2931, col: 13, offset: 92620},
+																										pos: position{line: 2943, col: 13, offset: 93024},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 13, offset: 92620},
+																												pos:        position{line: 2943, col: 13, offset: 93024},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 20, offset: 92627},
+																												pos:        position{line: 2943, col: 20, offset: 93031},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2931, col: 29, offset: 92636},
+																												pos:        position{line: 2943, col: 29, offset: 93040},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35754,9 +36346,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2941, col: 8, offset: 92796},
+																									pos: position{line: 2953, col: 8, offset: 93200},
 																									expr: &anyMatcher{
-																										line: 2941, col: 9, offset: 92797,
+																										line: 2953, col: 9, offset: 93201,
 																									},
 																								},
 																							},
@@ -35766,15 +36358,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1099, col: 5, offset: 33975},
+																			pos: position{line: 1111, col: 5, offset: 34379},
 																			run: (*parser).callonListContinuationElement1294,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92796},
+																	pos: position{line: 2953, col: 8, offset: 93200},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92797,
+																		line: 2953, col: 9, offset: 93201,
 																	},
 																},
 															},
@@ -35785,52 +36377,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2767, col: 18, offset: 88038},
+										pos: position{line: 2779, col: 18, offset: 88442},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2767, col: 18, offset: 88038},
+											pos: position{line: 2779, col: 18, offset: 88442},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2768, col: 9, offset: 88048},
+													pos: position{line: 2780, col: 9, offset: 88452},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2768, col: 9, offset: 88048},
+															pos:        position{line: 2780, col: 9, offset: 88452},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2769, col: 11, offset: 88084},
+															pos:        position{line: 2781, col: 11, offset: 88488},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2769, col: 19, offset: 88092},
+															pos:        position{line: 2781, col: 19, offset: 88496},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2769, col: 29, offset: 88102},
+															pos:        position{line: 2781, col: 29, offset: 88506},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2769, col: 37, offset: 88110},
+															pos:        position{line: 2781, col: 37, offset: 88514},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2769, col: 47, offset: 88120},
+															pos:        position{line: 2781, col: 47, offset: 88524},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2769, col: 55, offset: 88128},
+															pos:        position{line: 2781, col: 55, offset: 88532},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35838,12 +36430,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2770, col: 11, offset: 88186},
+													pos: position{line: 2782, col: 11, offset: 88590},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92448},
+														pos: position{line: 2934, col: 10, offset: 92852},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92448},
+															pos:        position{line: 2934, col: 10, offset: 92852},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35852,28 +36444,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92846},
+													pos: position{line: 2956, col: 8, offset: 93250},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92619},
+															pos: position{line: 2943, col: 12, offset: 93023},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92620},
+																pos: position{line: 2943, col: 13, offset: 93024},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92620},
+																		pos:        position{line: 2943, col: 13, offset: 93024},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92627},
+																		pos:        position{line: 2943, col: 20, offset: 93031},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92636},
+																		pos:        position{line: 2943, col: 29, offset: 93040},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35882,36 +36474,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92796},
+															pos: position{line: 2953, col: 8, offset: 93200},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92797,
+																line: 2953, col: 9, offset: 93201,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92846},
+													pos: position{line: 2956, col: 8, offset: 93250},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92619},
+															pos: position{line: 2943, col: 12, offset: 93023},
 															run: (*parser).callonListContinuationElement1319,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92620},
+																pos: position{line: 2943, col: 13, offset: 93024},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92620},
+																		pos:        position{line: 2943, col: 13, offset: 93024},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92627},
+																		pos:        position{line: 2943, col: 20, offset: 93031},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92636},
+																		pos:        position{line: 2943, col: 29, offset: 93040},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35920,9 +36512,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92796},
+															pos: position{line: 2953, col: 8, offset: 93200},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92797,
+																line: 2953, col: 9, offset: 93201,
 															},
 														},
 													},
@@ -35931,28 +36523,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1567, col: 11, offset: 50857},
+										pos:  position{line: 1579, col: 11, offset: 51261},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2651, col: 5, offset: 84795},
+										pos: position{line: 2663, col: 5, offset: 85199},
 										run: (*parser).callonListContinuationElement1327,
 										expr: &seqExpr{
-											pos: position{line: 2651, col: 5, offset: 84795},
+											pos: position{line: 2663, col: 5, offset: 85199},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2657, col: 19, offset: 84972},
+													pos:        position{line: 2669, col: 19, offset: 85376},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2657, col: 26, offset: 84979},
+													pos: position{line: 2669, col: 26, offset: 85383},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92448},
+														pos: position{line: 2934, col: 10, offset: 92852},
 														run: (*parser).callonListContinuationElement1331,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92448},
+															pos:        position{line: 2934, col: 10, offset: 92852},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35961,28 +36553,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92846},
+													pos: position{line: 2956, col: 8, offset: 93250},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92619},
+															pos: position{line: 2943, col: 12, offset: 93023},
 															run: (*parser).callonListContinuationElement1334,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92620},
+																pos: position{line: 2943, col: 13, offset: 93024},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92620},
+																		pos:        position{line: 2943, col: 13, offset: 93024},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92627},
+																		pos:        position{line: 2943, col: 20, offset: 93031},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92636},
+																		pos:        position{line: 2943, col: 29, offset: 93040},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35991,40 +36583,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92796},
+															pos: position{line: 2953, col: 8, offset: 93200},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92797,
+																line: 2953, col: 9, offset: 93201,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2652, col: 5, offset: 84819},
+													pos:   position{line: 2664, col: 5, offset: 85223},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2652, col: 11, offset: 84825},
+														pos: position{line: 2664, col: 11, offset: 85229},
 														expr: &choiceExpr{
-															pos: position{line: 2652, col: 12, offset: 84826},
+															pos: position{line: 2664, col: 12, offset: 85230},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 690, col: 14, offset: 22173},
+																	pos: position{line: 702, col: 14, offset: 22577},
 																	run: (*parser).callonListContinuationElement1344,
 																	expr: &seqExpr{
-																		pos: position{line: 690, col: 14, offset: 22173},
+																		pos: position{line: 702, col: 14, offset: 22577},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2939, col: 11, offset: 92782},
+																				pos: position{line: 2951, col: 11, offset: 93186},
 																				expr: &anyMatcher{
-																					line: 2939, col: 13, offset: 92784,
+																					line: 2951, col: 13, offset: 93188,
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 690, col: 21, offset: 22180},
+																				pos: position{line: 702, col: 21, offset: 22584},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92448},
+																					pos: position{line: 2934, col: 10, offset: 92852},
 																					run: (*parser).callonListContinuationElement1349,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92448},
+																						pos:        position{line: 2934, col: 10, offset: 92852},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36033,28 +36625,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92846},
+																				pos: position{line: 2956, col: 8, offset: 93250},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92619},
+																						pos: position{line: 2943, col: 12, offset: 93023},
 																						run: (*parser).callonListContinuationElement1352,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92620},
+																							pos: position{line: 2943, col: 13, offset: 93024},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92620},
+																									pos:        position{line: 2943, col: 13, offset: 93024},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92627},
+																									pos:        position{line: 2943, col: 20, offset: 93031},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92636},
+																									pos:        position{line: 2943, col: 29, offset: 93040},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36063,9 +36655,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92796},
+																						pos: position{line: 2953, col: 8, offset: 93200},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92797,
+																							line: 2953, col: 9, offset: 93201,
 																						},
 																					},
 																				},
@@ -36074,36 +36666,36 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2525, col: 22, offset: 81226},
+																	pos: position{line: 2537, col: 22, offset: 81630},
 																	run: (*parser).callonListContinuationElement1359,
 																	expr: &seqExpr{
-																		pos: position{line: 2525, col: 22, offset: 81226},
+																		pos: position{line: 2537, col: 22, offset: 81630},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2530, col: 31, offset: 81476},
+																				pos:        position{line: 2542, col: 31, offset: 81880},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2530, col: 36, offset: 81481},
+																				pos: position{line: 2542, col: 36, offset: 81885},
 																				expr: &litMatcher{
-																					pos:        position{line: 2530, col: 37, offset: 81482},
+																					pos:        position{line: 2542, col: 37, offset: 81886},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2525, col: 49, offset: 81253},
+																				pos:   position{line: 2537, col: 49, offset: 81657},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2868, col: 13, offset: 90974},
+																					pos: position{line: 2880, col: 13, offset: 91378},
 																					run: (*parser).callonListContinuationElement1365,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2868, col: 13, offset: 90974},
+																						pos: position{line: 2880, col: 13, offset: 91378},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2868, col: 13, offset: 90974},
+																							pos:        position{line: 2880, col: 13, offset: 91378},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -36113,28 +36705,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2944, col: 8, offset: 92846},
+																				pos: position{line: 2956, col: 8, offset: 93250},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2931, col: 12, offset: 92619},
+																						pos: position{line: 2943, col: 12, offset: 93023},
 																						run: (*parser).callonListContinuationElement1369,
 																						expr: &choiceExpr{
-																							pos: position{line: 2931, col: 13, offset: 92620},
+																							pos: position{line: 2943, col: 13, offset: 93024},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 13, offset: 92620},
+																									pos:        position{line: 2943, col: 13, offset: 93024},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 20, offset: 92627},
+																									pos:        position{line: 2943, col: 20, offset: 93031},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2931, col: 29, offset: 92636},
+																									pos:        position{line: 2943, col: 29, offset: 93040},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36143,9 +36735,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2941, col: 8, offset: 92796},
+																						pos: position{line: 2953, col: 8, offset: 93200},
 																						expr: &anyMatcher{
-																							line: 2941, col: 9, offset: 92797,
+																							line: 2953, col: 9, offset: 93201,
 																						},
 																					},
 																				},
@@ -36154,32 +36746,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2664, col: 5, offset: 85091},
+																	pos: position{line: 2676, col: 5, offset: 85495},
 																	run: (*parser).callonListContinuationElement1376,
 																	expr: &seqExpr{
-																		pos: position{line: 2664, col: 5, offset: 85091},
+																		pos: position{line: 2676, col: 5, offset: 85495},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2664, col: 5, offset: 85091},
+																				pos: position{line: 2676, col: 5, offset: 85495},
 																				expr: &choiceExpr{
-																					pos: position{line: 2661, col: 22, offset: 85052},
+																					pos: position{line: 2673, col: 22, offset: 85456},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2657, col: 19, offset: 84972},
+																							pos: position{line: 2669, col: 19, offset: 85376},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2657, col: 19, offset: 84972},
+																									pos:        position{line: 2669, col: 19, offset: 85376},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2657, col: 26, offset: 84979},
+																									pos: position{line: 2669, col: 26, offset: 85383},
 																									expr: &actionExpr{
-																										pos: position{line: 2922, col: 10, offset: 92448},
+																										pos: position{line: 2934, col: 10, offset: 92852},
 																										run: (*parser).callonListContinuationElement1383,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 10, offset: 92448},
+																											pos:        position{line: 2934, col: 10, offset: 92852},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36188,28 +36780,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2944, col: 8, offset: 92846},
+																									pos: position{line: 2956, col: 8, offset: 93250},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2931, col: 12, offset: 92619},
+																											pos: position{line: 2943, col: 12, offset: 93023},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &choiceExpr{
-																												pos: position{line: 2931, col: 13, offset: 92620},
+																												pos: position{line: 2943, col: 13, offset: 93024},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 13, offset: 92620},
+																														pos:        position{line: 2943, col: 13, offset: 93024},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 20, offset: 92627},
+																														pos:        position{line: 2943, col: 20, offset: 93031},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2931, col: 29, offset: 92636},
+																														pos:        position{line: 2943, col: 29, offset: 93040},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36218,9 +36810,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2941, col: 8, offset: 92796},
+																											pos: position{line: 2953, col: 8, offset: 93200},
 																											expr: &anyMatcher{
-																												line: 2941, col: 9, offset: 92797,
+																												line: 2953, col: 9, offset: 93201,
 																											},
 																										},
 																									},
@@ -36228,59 +36820,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92796},
+																							pos: position{line: 2953, col: 8, offset: 93200},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92797,
+																								line: 2953, col: 9, offset: 93201,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2665, col: 5, offset: 85114},
+																				pos:   position{line: 2677, col: 5, offset: 85518},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2666, col: 9, offset: 85132},
+																					pos: position{line: 2678, col: 9, offset: 85536},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2666, col: 10, offset: 85133},
+																							pos: position{line: 2678, col: 10, offset: 85537},
 																							run: (*parser).callonListContinuationElement1397,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2666, col: 10, offset: 85133},
+																								pos:   position{line: 2678, col: 10, offset: 85537},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2666, col: 17, offset: 85140},
+																									pos: position{line: 2678, col: 17, offset: 85544},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2674, col: 21, offset: 85336},
+																											pos: position{line: 2686, col: 21, offset: 85740},
 																											run: (*parser).callonListContinuationElement1400,
 																											expr: &seqExpr{
-																												pos: position{line: 2674, col: 21, offset: 85336},
+																												pos: position{line: 2686, col: 21, offset: 85740},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2674, col: 21, offset: 85336},
+																														pos:   position{line: 2686, col: 21, offset: 85740},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2674, col: 27, offset: 85342},
+																															pos: position{line: 2686, col: 27, offset: 85746},
 																															expr: &actionExpr{
-																																pos: position{line: 2679, col: 5, offset: 85417},
+																																pos: position{line: 2691, col: 5, offset: 85821},
 																																run: (*parser).callonListContinuationElement1404,
 																																expr: &seqExpr{
-																																	pos: position{line: 2679, col: 5, offset: 85417},
+																																	pos: position{line: 2691, col: 5, offset: 85821},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2679, col: 5, offset: 85417},
+																																			pos:        position{line: 2691, col: 5, offset: 85821},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2679, col: 9, offset: 85421},
+																																			pos: position{line: 2691, col: 9, offset: 85825},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2922, col: 10, offset: 92448},
+																																				pos: position{line: 2934, col: 10, offset: 92852},
 																																				run: (*parser).callonListContinuationElement1408,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2922, col: 10, offset: 92448},
+																																					pos:        position{line: 2934, col: 10, offset: 92852},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36289,21 +36881,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2679, col: 16, offset: 85428},
+																																			pos:   position{line: 2691, col: 16, offset: 85832},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2685, col: 5, offset: 85628},
+																																				pos: position{line: 2697, col: 5, offset: 86032},
 																																				run: (*parser).callonListContinuationElement1411,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2685, col: 5, offset: 85628},
+																																					pos:   position{line: 2697, col: 5, offset: 86032},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2685, col: 14, offset: 85637},
+																																						pos: position{line: 2697, col: 14, offset: 86041},
 																																						run: (*parser).callonListContinuationElement1413,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2685, col: 14, offset: 85637},
+																																							pos: position{line: 2697, col: 14, offset: 86041},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2685, col: 14, offset: 85637},
+																																								pos:        position{line: 2697, col: 14, offset: 86041},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36320,28 +36912,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2944, col: 8, offset: 92846},
+																														pos: position{line: 2956, col: 8, offset: 93250},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2931, col: 12, offset: 92619},
+																																pos: position{line: 2943, col: 12, offset: 93023},
 																																run: (*parser).callonListContinuationElement1417,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2931, col: 13, offset: 92620},
+																																	pos: position{line: 2943, col: 13, offset: 93024},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2931, col: 13, offset: 92620},
+																																			pos:        position{line: 2943, col: 13, offset: 93024},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2931, col: 20, offset: 92627},
+																																			pos:        position{line: 2943, col: 20, offset: 93031},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2931, col: 29, offset: 92636},
+																																			pos:        position{line: 2943, col: 29, offset: 93040},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36350,9 +36942,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2941, col: 8, offset: 92796},
+																																pos: position{line: 2953, col: 8, offset: 93200},
 																																expr: &anyMatcher{
-																																	line: 2941, col: 9, offset: 92797,
+																																	line: 2953, col: 9, offset: 93201,
 																																},
 																															},
 																														},
@@ -36361,40 +36953,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2691, col: 24, offset: 85773},
+																											pos: position{line: 2703, col: 24, offset: 86177},
 																											run: (*parser).callonListContinuationElement1424,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2691, col: 24, offset: 85773},
+																												pos:   position{line: 2703, col: 24, offset: 86177},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2691, col: 30, offset: 85779},
+																													pos: position{line: 2703, col: 30, offset: 86183},
 																													expr: &actionExpr{
-																														pos: position{line: 2696, col: 5, offset: 85855},
+																														pos: position{line: 2708, col: 5, offset: 86259},
 																														run: (*parser).callonListContinuationElement1427,
 																														expr: &seqExpr{
-																															pos: position{line: 2696, col: 5, offset: 85855},
+																															pos: position{line: 2708, col: 5, offset: 86259},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2696, col: 5, offset: 85855},
+																																	pos: position{line: 2708, col: 5, offset: 86259},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2661, col: 22, offset: 85052},
+																																		pos: position{line: 2673, col: 22, offset: 85456},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2657, col: 19, offset: 84972},
+																																				pos: position{line: 2669, col: 19, offset: 85376},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2657, col: 19, offset: 84972},
+																																						pos:        position{line: 2669, col: 19, offset: 85376},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2657, col: 26, offset: 84979},
+																																						pos: position{line: 2669, col: 26, offset: 85383},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2922, col: 10, offset: 92448},
+																																							pos: position{line: 2934, col: 10, offset: 92852},
 																																							run: (*parser).callonListContinuationElement1434,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2922, col: 10, offset: 92448},
+																																								pos:        position{line: 2934, col: 10, offset: 92852},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36403,28 +36995,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2944, col: 8, offset: 92846},
+																																						pos: position{line: 2956, col: 8, offset: 93250},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2931, col: 12, offset: 92619},
+																																								pos: position{line: 2943, col: 12, offset: 93023},
 																																								run: (*parser).callonListContinuationElement1437,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2931, col: 13, offset: 92620},
+																																									pos: position{line: 2943, col: 13, offset: 93024},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2931, col: 13, offset: 92620},
+																																											pos:        position{line: 2943, col: 13, offset: 93024},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2931, col: 20, offset: 92627},
+																																											pos:        position{line: 2943, col: 20, offset: 93031},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2931, col: 29, offset: 92636},
+																																											pos:        position{line: 2943, col: 29, offset: 93040},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36433,9 +37025,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2941, col: 8, offset: 92796},
+																																								pos: position{line: 2953, col: 8, offset: 93200},
 																																								expr: &anyMatcher{
-																																									line: 2941, col: 9, offset: 92797,
+																																									line: 2953, col: 9, offset: 93201,
 																																								},
 																																							},
 																																						},
@@ -36443,35 +37035,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2941, col: 8, offset: 92796},
+																																				pos: position{line: 2953, col: 8, offset: 93200},
 																																				expr: &anyMatcher{
-																																					line: 2941, col: 9, offset: 92797,
+																																					line: 2953, col: 9, offset: 93201,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2697, col: 5, offset: 85878},
+																																	pos: position{line: 2709, col: 5, offset: 86282},
 																																	expr: &actionExpr{
-																																		pos: position{line: 690, col: 14, offset: 22173},
+																																		pos: position{line: 702, col: 14, offset: 22577},
 																																		run: (*parser).callonListContinuationElement1447,
 																																		expr: &seqExpr{
-																																			pos: position{line: 690, col: 14, offset: 22173},
+																																			pos: position{line: 702, col: 14, offset: 22577},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2939, col: 11, offset: 92782},
+																																					pos: position{line: 2951, col: 11, offset: 93186},
 																																					expr: &anyMatcher{
-																																						line: 2939, col: 13, offset: 92784,
+																																						line: 2951, col: 13, offset: 93188,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 690, col: 21, offset: 22180},
+																																					pos: position{line: 702, col: 21, offset: 22584},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2922, col: 10, offset: 92448},
+																																						pos: position{line: 2934, col: 10, offset: 92852},
 																																						run: (*parser).callonListContinuationElement1452,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2922, col: 10, offset: 92448},
+																																							pos:        position{line: 2934, col: 10, offset: 92852},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36480,28 +37072,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2944, col: 8, offset: 92846},
+																																					pos: position{line: 2956, col: 8, offset: 93250},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2931, col: 12, offset: 92619},
+																																							pos: position{line: 2943, col: 12, offset: 93023},
 																																							run: (*parser).callonListContinuationElement1455,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2931, col: 13, offset: 92620},
+																																								pos: position{line: 2943, col: 13, offset: 93024},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2931, col: 13, offset: 92620},
+																																										pos:        position{line: 2943, col: 13, offset: 93024},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2931, col: 20, offset: 92627},
+																																										pos:        position{line: 2943, col: 20, offset: 93031},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2931, col: 29, offset: 92636},
+																																										pos:        position{line: 2943, col: 29, offset: 93040},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36510,9 +37102,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2941, col: 8, offset: 92796},
+																																							pos: position{line: 2953, col: 8, offset: 93200},
 																																							expr: &anyMatcher{
-																																								line: 2941, col: 9, offset: 92797,
+																																								line: 2953, col: 9, offset: 93201,
 																																							},
 																																						},
 																																					},
@@ -36522,17 +37114,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2698, col: 5, offset: 85893},
+																																	pos:   position{line: 2710, col: 5, offset: 86297},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2698, col: 12, offset: 85900},
+																																		pos: position{line: 2710, col: 12, offset: 86304},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2722, col: 20, offset: 86523},
+																																			pos: position{line: 2734, col: 20, offset: 86927},
 																																			run: (*parser).callonListContinuationElement1464,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2722, col: 20, offset: 86523},
+																																				pos: position{line: 2734, col: 20, offset: 86927},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2722, col: 20, offset: 86523},
+																																					pos:        position{line: 2734, col: 20, offset: 86927},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36543,18 +37135,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2698, col: 31, offset: 85919},
+																																	pos:        position{line: 2710, col: 31, offset: 86323},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2698, col: 35, offset: 85923},
+																																	pos: position{line: 2710, col: 35, offset: 86327},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2922, col: 10, offset: 92448},
+																																		pos: position{line: 2934, col: 10, offset: 92852},
 																																		run: (*parser).callonListContinuationElement1469,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2922, col: 10, offset: 92448},
+																																			pos:        position{line: 2934, col: 10, offset: 92852},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36563,27 +37155,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2698, col: 42, offset: 85930},
+																																	pos: position{line: 2710, col: 42, offset: 86334},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2931, col: 12, offset: 92619},
+																																		pos: position{line: 2943, col: 12, offset: 93023},
 																																		run: (*parser).callonListContinuationElement1472,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2931, col: 13, offset: 92620},
+																																			pos: position{line: 2943, col: 13, offset: 93024},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2931, col: 13, offset: 92620},
+																																					pos:        position{line: 2943, col: 13, offset: 93024},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2931, col: 20, offset: 92627},
+																																					pos:        position{line: 2943, col: 20, offset: 93031},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2931, col: 29, offset: 92636},
+																																					pos:        position{line: 2943, col: 29, offset: 93040},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36593,57 +37185,57 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2698, col: 51, offset: 85939},
+																																	pos:   position{line: 2710, col: 51, offset: 86343},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2704, col: 5, offset: 86098},
+																																		pos: position{line: 2716, col: 5, offset: 86502},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2705, col: 9, offset: 86108},
+																																			pos: position{line: 2717, col: 9, offset: 86512},
 																																			alternatives: []interface{}{
 																																				&actionExpr{
-																																					pos: position{line: 2705, col: 9, offset: 86108},
+																																					pos: position{line: 2717, col: 9, offset: 86512},
 																																					run: (*parser).callonListContinuationElement1480,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2705, col: 9, offset: 86108},
+																																						pos: position{line: 2717, col: 9, offset: 86512},
 																																						exprs: []interface{}{
 																																							&andCodeExpr{
-																																								pos: position{line: 2705, col: 9, offset: 86108},
+																																								pos: position{line: 2717, col: 9, offset: 86512},
 																																								run: (*parser).callonListContinuationElement1482,
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2708, col: 9, offset: 86177},
+																																								pos:   position{line: 2720, col: 9, offset: 86581},
 																																								label: "comment",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2525, col: 22, offset: 81226},
+																																									pos: position{line: 2537, col: 22, offset: 81630},
 																																									run: (*parser).callonListContinuationElement1484,
 																																									expr: &seqExpr{
-																																										pos: position{line: 2525, col: 22, offset: 81226},
+																																										pos: position{line: 2537, col: 22, offset: 81630},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2530, col: 31, offset: 81476},
+																																												pos:        position{line: 2542, col: 31, offset: 81880},
 																																												val:        "//",
 																																												ignoreCase: false,
 																																												want:       "\"//\"",
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2530, col: 36, offset: 81481},
+																																												pos: position{line: 2542, col: 36, offset: 81885},
 																																												expr: &litMatcher{
-																																													pos:        position{line: 2530, col: 37, offset: 81482},
+																																													pos:        position{line: 2542, col: 37, offset: 81886},
 																																													val:        "/",
 																																													ignoreCase: false,
 																																													want:       "\"/\"",
 																																												},
 																																											},
 																																											&labeledExpr{
-																																												pos:   position{line: 2525, col: 49, offset: 81253},
+																																												pos:   position{line: 2537, col: 49, offset: 81657},
 																																												label: "content",
 																																												expr: &actionExpr{
-																																													pos: position{line: 2868, col: 13, offset: 90974},
+																																													pos: position{line: 2880, col: 13, offset: 91378},
 																																													run: (*parser).callonListContinuationElement1490,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2868, col: 13, offset: 90974},
+																																														pos: position{line: 2880, col: 13, offset: 91378},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2868, col: 13, offset: 90974},
+																																															pos:        position{line: 2880, col: 13, offset: 91378},
 																																															val:        "[^\\r\\n]",
 																																															chars:      []rune{'\r', '\n'},
 																																															ignoreCase: false,
@@ -36653,28 +37245,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2944, col: 8, offset: 92846},
+																																												pos: position{line: 2956, col: 8, offset: 93250},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2931, col: 12, offset: 92619},
+																																														pos: position{line: 2943, col: 12, offset: 93023},
 																																														run: (*parser).callonListContinuationElement1494,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2931, col: 13, offset: 92620},
+																																															pos: position{line: 2943, col: 13, offset: 93024},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2931, col: 13, offset: 92620},
+																																																	pos:        position{line: 2943, col: 13, offset: 93024},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2931, col: 20, offset: 92627},
+																																																	pos:        position{line: 2943, col: 20, offset: 93031},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2931, col: 29, offset: 92636},
+																																																	pos:        position{line: 2943, col: 29, offset: 93040},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -36683,9 +37275,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2941, col: 8, offset: 92796},
+																																														pos: position{line: 2953, col: 8, offset: 93200},
 																																														expr: &anyMatcher{
-																																															line: 2941, col: 9, offset: 92797,
+																																															line: 2953, col: 9, offset: 93201,
 																																														},
 																																													},
 																																												},
@@ -36698,32 +37290,32 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&actionExpr{
-																																					pos: position{line: 2712, col: 9, offset: 86267},
+																																					pos: position{line: 2724, col: 9, offset: 86671},
 																																					run: (*parser).callonListContinuationElement1501,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2712, col: 9, offset: 86267},
+																																						pos: position{line: 2724, col: 9, offset: 86671},
 																																						exprs: []interface{}{
 																																							&notExpr{
-																																								pos: position{line: 2712, col: 9, offset: 86267},
+																																								pos: position{line: 2724, col: 9, offset: 86671},
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2661, col: 22, offset: 85052},
+																																									pos: position{line: 2673, col: 22, offset: 85456},
 																																									alternatives: []interface{}{
 																																										&seqExpr{
-																																											pos: position{line: 2657, col: 19, offset: 84972},
+																																											pos: position{line: 2669, col: 19, offset: 85376},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2657, col: 19, offset: 84972},
+																																													pos:        position{line: 2669, col: 19, offset: 85376},
 																																													val:        "|===",
 																																													ignoreCase: false,
 																																													want:       "\"|===\"",
 																																												},
 																																												&zeroOrMoreExpr{
-																																													pos: position{line: 2657, col: 26, offset: 84979},
+																																													pos: position{line: 2669, col: 26, offset: 85383},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2922, col: 10, offset: 92448},
+																																														pos: position{line: 2934, col: 10, offset: 92852},
 																																														run: (*parser).callonListContinuationElement1508,
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2922, col: 10, offset: 92448},
+																																															pos:        position{line: 2934, col: 10, offset: 92852},
 																																															val:        "[\\t ]",
 																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
@@ -36732,28 +37324,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2944, col: 8, offset: 92846},
+																																													pos: position{line: 2956, col: 8, offset: 93250},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2931, col: 12, offset: 92619},
+																																															pos: position{line: 2943, col: 12, offset: 93023},
 																																															run: (*parser).callonListContinuationElement1511,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2931, col: 13, offset: 92620},
+																																																pos: position{line: 2943, col: 13, offset: 93024},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 13, offset: 92620},
+																																																		pos:        position{line: 2943, col: 13, offset: 93024},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 20, offset: 92627},
+																																																		pos:        position{line: 2943, col: 20, offset: 93031},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2931, col: 29, offset: 92636},
+																																																		pos:        position{line: 2943, col: 29, offset: 93040},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -36762,9 +37354,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2941, col: 8, offset: 92796},
+																																															pos: position{line: 2953, col: 8, offset: 93200},
 																																															expr: &anyMatcher{
-																																																line: 2941, col: 9, offset: 92797,
+																																																line: 2953, col: 9, offset: 93201,
 																																															},
 																																														},
 																																													},
@@ -36772,35 +37364,35 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2941, col: 8, offset: 92796},
+																																											pos: position{line: 2953, col: 8, offset: 93200},
 																																											expr: &anyMatcher{
-																																												line: 2941, col: 9, offset: 92797,
+																																												line: 2953, col: 9, offset: 93201,
 																																											},
 																																										},
 																																									},
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2713, col: 9, offset: 86294},
+																																								pos: position{line: 2725, col: 9, offset: 86698},
 																																								expr: &actionExpr{
-																																									pos: position{line: 690, col: 14, offset: 22173},
+																																									pos: position{line: 702, col: 14, offset: 22577},
 																																									run: (*parser).callonListContinuationElement1521,
 																																									expr: &seqExpr{
-																																										pos: position{line: 690, col: 14, offset: 22173},
+																																										pos: position{line: 702, col: 14, offset: 22577},
 																																										exprs: []interface{}{
 																																											&andExpr{
-																																												pos: position{line: 2939, col: 11, offset: 92782},
+																																												pos: position{line: 2951, col: 11, offset: 93186},
 																																												expr: &anyMatcher{
-																																													line: 2939, col: 13, offset: 92784,
+																																													line: 2951, col: 13, offset: 93188,
 																																												},
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 690, col: 21, offset: 22180},
+																																												pos: position{line: 702, col: 21, offset: 22584},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2922, col: 10, offset: 92448},
+																																													pos: position{line: 2934, col: 10, offset: 92852},
 																																													run: (*parser).callonListContinuationElement1526,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2922, col: 10, offset: 92448},
+																																														pos:        position{line: 2934, col: 10, offset: 92852},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -36809,28 +37401,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2944, col: 8, offset: 92846},
+																																												pos: position{line: 2956, col: 8, offset: 93250},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2931, col: 12, offset: 92619},
+																																														pos: position{line: 2943, col: 12, offset: 93023},
 																																														run: (*parser).callonListContinuationElement1529,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2931, col: 13, offset: 92620},
+																																															pos: position{line: 2943, col: 13, offset: 93024},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2931, col: 13, offset: 92620},
+																																																	pos:        position{line: 2943, col: 13, offset: 93024},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2931, col: 20, offset: 92627},
+																																																	pos:        position{line: 2943, col: 20, offset: 93031},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2931, col: 29, offset: 92636},
+																																																	pos:        position{line: 2943, col: 29, offset: 93040},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -36839,9 +37431,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2941, col: 8, offset: 92796},
+																																														pos: position{line: 2953, col: 8, offset: 93200},
 																																														expr: &anyMatcher{
-																																															line: 2941, col: 9, offset: 92797,
+																																															line: 2953, col: 9, offset: 93201,
 																																														},
 																																													},
 																																												},
@@ -36851,22 +37443,22 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2714, col: 9, offset: 86313},
+																																								pos: position{line: 2726, col: 9, offset: 86717},
 																																								expr: &seqExpr{
-																																									pos: position{line: 2714, col: 11, offset: 86315},
+																																									pos: position{line: 2726, col: 11, offset: 86719},
 																																									exprs: []interface{}{
 																																										&labeledExpr{
-																																											pos:   position{line: 2714, col: 11, offset: 86315},
+																																											pos:   position{line: 2726, col: 11, offset: 86719},
 																																											label: "format",
 																																											expr: &zeroOrOneExpr{
-																																												pos: position{line: 2714, col: 18, offset: 86322},
+																																												pos: position{line: 2726, col: 18, offset: 86726},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2722, col: 20, offset: 86523},
+																																													pos: position{line: 2734, col: 20, offset: 86927},
 																																													run: (*parser).callonListContinuationElement1540,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2722, col: 20, offset: 86523},
+																																														pos: position{line: 2734, col: 20, offset: 86927},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2722, col: 20, offset: 86523},
+																																															pos:        position{line: 2734, col: 20, offset: 86927},
 																																															val:        "[^ |\\r\\n]",
 																																															chars:      []rune{' ', '|', '\r', '\n'},
 																																															ignoreCase: false,
@@ -36877,7 +37469,7 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2714, col: 37, offset: 86341},
+																																											pos:        position{line: 2726, col: 37, offset: 86745},
 																																											val:        "|",
 																																											ignoreCase: false,
 																																											want:       "\"|\"",
@@ -36886,15 +37478,15 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2715, col: 9, offset: 86354},
+																																								pos:   position{line: 2727, col: 9, offset: 86758},
 																																								label: "content",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2715, col: 18, offset: 86363},
+																																									pos: position{line: 2727, col: 18, offset: 86767},
 																																									run: (*parser).callonListContinuationElement1545,
 																																									expr: &zeroOrMoreExpr{
-																																										pos: position{line: 2715, col: 18, offset: 86363},
+																																										pos: position{line: 2727, col: 18, offset: 86767},
 																																										expr: &charClassMatcher{
-																																											pos:        position{line: 2715, col: 18, offset: 86363},
+																																											pos:        position{line: 2727, col: 18, offset: 86767},
 																																											val:        "[^|\\r\\n]",
 																																											chars:      []rune{'|', '\r', '\n'},
 																																											ignoreCase: false,
@@ -36904,30 +37496,30 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&zeroOrOneExpr{
-																																								pos: position{line: 2717, col: 12, offset: 86425},
+																																								pos: position{line: 2729, col: 12, offset: 86829},
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2944, col: 8, offset: 92846},
+																																									pos: position{line: 2956, col: 8, offset: 93250},
 																																									alternatives: []interface{}{
 																																										&actionExpr{
-																																											pos: position{line: 2931, col: 12, offset: 92619},
+																																											pos: position{line: 2943, col: 12, offset: 93023},
 																																											run: (*parser).callonListContinuationElement1550,
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2931, col: 13, offset: 92620},
+																																												pos: position{line: 2943, col: 13, offset: 93024},
 																																												alternatives: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2931, col: 13, offset: 92620},
+																																														pos:        position{line: 2943, col: 13, offset: 93024},
 																																														val:        "\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2931, col: 20, offset: 92627},
+																																														pos:        position{line: 2943, col: 20, offset: 93031},
 																																														val:        "\r\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2931, col: 29, offset: 92636},
+																																														pos:        position{line: 2943, col: 29, offset: 93040},
 																																														val:        "\r",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\"",
@@ -36936,9 +37528,9 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2941, col: 8, offset: 92796},
+																																											pos: position{line: 2953, col: 8, offset: 93200},
 																																											expr: &anyMatcher{
-																																												line: 2941, col: 9, offset: 92797,
+																																												line: 2953, col: 9, offset: 93201,
 																																											},
 																																										},
 																																									},
@@ -36962,24 +37554,24 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 690, col: 14, offset: 22173},
+																							pos: position{line: 702, col: 14, offset: 22577},
 																							run: (*parser).callonListContinuationElement1557,
 																							expr: &seqExpr{
-																								pos: position{line: 690, col: 14, offset: 22173},
+																								pos: position{line: 702, col: 14, offset: 22577},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2939, col: 11, offset: 92782},
+																										pos: position{line: 2951, col: 11, offset: 93186},
 																										expr: &anyMatcher{
-																											line: 2939, col: 13, offset: 92784,
+																											line: 2951, col: 13, offset: 93188,
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 690, col: 21, offset: 22180},
+																										pos: position{line: 702, col: 21, offset: 22584},
 																										expr: &actionExpr{
-																											pos: position{line: 2922, col: 10, offset: 92448},
+																											pos: position{line: 2934, col: 10, offset: 92852},
 																											run: (*parser).callonListContinuationElement1562,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2922, col: 10, offset: 92448},
+																												pos:        position{line: 2934, col: 10, offset: 92852},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36988,28 +37580,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2944, col: 8, offset: 92846},
+																										pos: position{line: 2956, col: 8, offset: 93250},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2931, col: 12, offset: 92619},
+																												pos: position{line: 2943, col: 12, offset: 93023},
 																												run: (*parser).callonListContinuationElement1565,
 																												expr: &choiceExpr{
-																													pos: position{line: 2931, col: 13, offset: 92620},
+																													pos: position{line: 2943, col: 13, offset: 93024},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2931, col: 13, offset: 92620},
+																															pos:        position{line: 2943, col: 13, offset: 93024},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2931, col: 20, offset: 92627},
+																															pos:        position{line: 2943, col: 20, offset: 93031},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2931, col: 29, offset: 92636},
+																															pos:        position{line: 2943, col: 29, offset: 93040},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -37018,9 +37610,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2941, col: 8, offset: 92796},
+																												pos: position{line: 2953, col: 8, offset: 93200},
 																												expr: &anyMatcher{
-																													line: 2941, col: 9, offset: 92797,
+																													line: 2953, col: 9, offset: 93201,
 																												},
 																											},
 																										},
@@ -37039,24 +37631,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2661, col: 22, offset: 85052},
+													pos: position{line: 2673, col: 22, offset: 85456},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2657, col: 19, offset: 84972},
+															pos: position{line: 2669, col: 19, offset: 85376},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2657, col: 19, offset: 84972},
+																	pos:        position{line: 2669, col: 19, offset: 85376},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2657, col: 26, offset: 84979},
+																	pos: position{line: 2669, col: 26, offset: 85383},
 																	expr: &actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92448},
+																		pos: position{line: 2934, col: 10, offset: 92852},
 																		run: (*parser).callonListContinuationElement1576,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92448},
+																			pos:        position{line: 2934, col: 10, offset: 92852},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37065,28 +37657,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92846},
+																	pos: position{line: 2956, col: 8, offset: 93250},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92619},
+																			pos: position{line: 2943, col: 12, offset: 93023},
 																			run: (*parser).callonListContinuationElement1579,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92620},
+																				pos: position{line: 2943, col: 13, offset: 93024},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92620},
+																						pos:        position{line: 2943, col: 13, offset: 93024},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92627},
+																						pos:        position{line: 2943, col: 20, offset: 93031},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92636},
+																						pos:        position{line: 2943, col: 29, offset: 93040},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37095,9 +37687,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92796},
+																			pos: position{line: 2953, col: 8, offset: 93200},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92797,
+																				line: 2953, col: 9, offset: 93201,
 																			},
 																		},
 																	},
@@ -37105,9 +37697,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92796},
+															pos: position{line: 2953, col: 8, offset: 93200},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92797,
+																line: 2953, col: 9, offset: 93201,
 															},
 														},
 													},
@@ -37116,36 +37708,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2525, col: 22, offset: 81226},
+										pos: position{line: 2537, col: 22, offset: 81630},
 										run: (*parser).callonListContinuationElement1588,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 22, offset: 81226},
+											pos: position{line: 2537, col: 22, offset: 81630},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2530, col: 31, offset: 81476},
+													pos:        position{line: 2542, col: 31, offset: 81880},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2530, col: 36, offset: 81481},
+													pos: position{line: 2542, col: 36, offset: 81885},
 													expr: &litMatcher{
-														pos:        position{line: 2530, col: 37, offset: 81482},
+														pos:        position{line: 2542, col: 37, offset: 81886},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2525, col: 49, offset: 81253},
+													pos:   position{line: 2537, col: 49, offset: 81657},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 13, offset: 90974},
+														pos: position{line: 2880, col: 13, offset: 91378},
 														run: (*parser).callonListContinuationElement1594,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2868, col: 13, offset: 90974},
+															pos: position{line: 2880, col: 13, offset: 91378},
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 13, offset: 90974},
+																pos:        position{line: 2880, col: 13, offset: 91378},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37155,28 +37747,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2944, col: 8, offset: 92846},
+													pos: position{line: 2956, col: 8, offset: 93250},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92619},
+															pos: position{line: 2943, col: 12, offset: 93023},
 															run: (*parser).callonListContinuationElement1598,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92620},
+																pos: position{line: 2943, col: 13, offset: 93024},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92620},
+																		pos:        position{line: 2943, col: 13, offset: 93024},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92627},
+																		pos:        position{line: 2943, col: 20, offset: 93031},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92636},
+																		pos:        position{line: 2943, col: 29, offset: 93040},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37185,9 +37777,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2941, col: 8, offset: 92796},
+															pos: position{line: 2953, col: 8, offset: 93200},
 															expr: &anyMatcher{
-																line: 2941, col: 9, offset: 92797,
+																line: 2953, col: 9, offset: 93201,
 															},
 														},
 													},
@@ -37196,94 +37788,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1580, col: 5, offset: 51287},
+										pos: position{line: 1592, col: 5, offset: 51691},
 										run: (*parser).callonListContinuationElement1605,
 										expr: &seqExpr{
-											pos: position{line: 1580, col: 5, offset: 51287},
+											pos: position{line: 1592, col: 5, offset: 51691},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1580, col: 5, offset: 51287},
+													pos:   position{line: 1592, col: 5, offset: 51691},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1580, col: 11, offset: 51293},
+														pos: position{line: 1592, col: 11, offset: 51697},
 														expr: &actionExpr{
-															pos: position{line: 1745, col: 5, offset: 56642},
+															pos: position{line: 1757, col: 5, offset: 57046},
 															run: (*parser).callonListContinuationElement1609,
 															expr: &seqExpr{
-																pos: position{line: 1745, col: 5, offset: 56642},
+																pos: position{line: 1757, col: 5, offset: 57046},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1745, col: 5, offset: 56642},
+																		pos: position{line: 1757, col: 5, offset: 57046},
 																		run: (*parser).callonListContinuationElement1611,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1748, col: 5, offset: 56705},
+																		pos:   position{line: 1760, col: 5, offset: 57109},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1748, col: 12, offset: 56712},
+																			pos: position{line: 1760, col: 12, offset: 57116},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1748, col: 12, offset: 56712},
+																					pos: position{line: 1760, col: 12, offset: 57116},
 																					run: (*parser).callonListContinuationElement1614,
 																					expr: &litMatcher{
-																						pos:        position{line: 1748, col: 12, offset: 56712},
+																						pos:        position{line: 1760, col: 12, offset: 57116},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1750, col: 13, offset: 56768},
+																					pos: position{line: 1762, col: 13, offset: 57172},
 																					run: (*parser).callonListContinuationElement1616,
 																					expr: &litMatcher{
-																						pos:        position{line: 1750, col: 13, offset: 56768},
+																						pos:        position{line: 1762, col: 13, offset: 57172},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1752, col: 13, offset: 56826},
+																					pos: position{line: 1764, col: 13, offset: 57230},
 																					run: (*parser).callonListContinuationElement1618,
 																					expr: &litMatcher{
-																						pos:        position{line: 1752, col: 13, offset: 56826},
+																						pos:        position{line: 1764, col: 13, offset: 57230},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1754, col: 13, offset: 56894},
+																					pos: position{line: 1766, col: 13, offset: 57298},
 																					run: (*parser).callonListContinuationElement1620,
 																					expr: &litMatcher{
-																						pos:        position{line: 1754, col: 13, offset: 56894},
+																						pos:        position{line: 1766, col: 13, offset: 57298},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1756, col: 13, offset: 56958},
+																					pos: position{line: 1768, col: 13, offset: 57362},
 																					run: (*parser).callonListContinuationElement1622,
 																					expr: &litMatcher{
-																						pos:        position{line: 1756, col: 13, offset: 56958},
+																						pos:        position{line: 1768, col: 13, offset: 57362},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1758, col: 13, offset: 57022},
+																					pos: position{line: 1770, col: 13, offset: 57426},
 																					run: (*parser).callonListContinuationElement1624,
 																					expr: &andExpr{
-																						pos: position{line: 1758, col: 13, offset: 57022},
+																						pos: position{line: 1770, col: 13, offset: 57426},
 																						expr: &actionExpr{
-																							pos: position{line: 2926, col: 11, offset: 92509},
+																							pos: position{line: 2938, col: 11, offset: 92913},
 																							run: (*parser).callonListContinuationElement1626,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2926, col: 11, offset: 92509},
+																								pos: position{line: 2938, col: 11, offset: 92913},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2926, col: 11, offset: 92509},
+																									pos:        position{line: 2938, col: 11, offset: 92913},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37302,35 +37894,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1581, col: 5, offset: 51316},
+													pos:   position{line: 1593, col: 5, offset: 51720},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1523, col: 5, offset: 49632},
+														pos: position{line: 1535, col: 5, offset: 50036},
 														run: (*parser).callonListContinuationElement1630,
 														expr: &seqExpr{
-															pos: position{line: 1523, col: 5, offset: 49632},
+															pos: position{line: 1535, col: 5, offset: 50036},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1523, col: 5, offset: 49632},
+																	pos: position{line: 1535, col: 5, offset: 50036},
 																	expr: &actionExpr{
-																		pos: position{line: 690, col: 14, offset: 22173},
+																		pos: position{line: 702, col: 14, offset: 22577},
 																		run: (*parser).callonListContinuationElement1633,
 																		expr: &seqExpr{
-																			pos: position{line: 690, col: 14, offset: 22173},
+																			pos: position{line: 702, col: 14, offset: 22577},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2939, col: 11, offset: 92782},
+																					pos: position{line: 2951, col: 11, offset: 93186},
 																					expr: &anyMatcher{
-																						line: 2939, col: 13, offset: 92784,
+																						line: 2951, col: 13, offset: 93188,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 690, col: 21, offset: 22180},
+																					pos: position{line: 702, col: 21, offset: 22584},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92448},
+																						pos: position{line: 2934, col: 10, offset: 92852},
 																						run: (*parser).callonListContinuationElement1638,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92448},
+																							pos:        position{line: 2934, col: 10, offset: 92852},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37339,28 +37931,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2944, col: 8, offset: 92846},
+																					pos: position{line: 2956, col: 8, offset: 93250},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92619},
+																							pos: position{line: 2943, col: 12, offset: 93023},
 																							run: (*parser).callonListContinuationElement1641,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92620},
+																								pos: position{line: 2943, col: 13, offset: 93024},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92620},
+																										pos:        position{line: 2943, col: 13, offset: 93024},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92627},
+																										pos:        position{line: 2943, col: 20, offset: 93031},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92636},
+																										pos:        position{line: 2943, col: 29, offset: 93040},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37369,9 +37961,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2941, col: 8, offset: 92796},
+																							pos: position{line: 2953, col: 8, offset: 93200},
 																							expr: &anyMatcher{
-																								line: 2941, col: 9, offset: 92797,
+																								line: 2953, col: 9, offset: 93201,
 																							},
 																						},
 																					},
@@ -37381,23 +37973,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1524, col: 5, offset: 49647},
+																	pos: position{line: 1536, col: 5, offset: 50051},
 																	expr: &seqExpr{
-																		pos: position{line: 1555, col: 27, offset: 50507},
+																		pos: position{line: 1567, col: 27, offset: 50911},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1555, col: 27, offset: 50507},
+																				pos:        position{line: 1567, col: 27, offset: 50911},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1555, col: 31, offset: 50511},
+																				pos: position{line: 1567, col: 31, offset: 50915},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92448},
+																					pos: position{line: 2934, col: 10, offset: 92852},
 																					run: (*parser).callonListContinuationElement1652,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92448},
+																						pos:        position{line: 2934, col: 10, offset: 92852},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37406,25 +37998,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
+																				pos: position{line: 2943, col: 12, offset: 93023},
 																				run: (*parser).callonListContinuationElement1654,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37436,20 +38028,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1525, col: 5, offset: 49675},
+																	pos: position{line: 1537, col: 5, offset: 50079},
 																	expr: &actionExpr{
-																		pos: position{line: 1596, col: 5, offset: 51726},
+																		pos: position{line: 1608, col: 5, offset: 52130},
 																		run: (*parser).callonListContinuationElement1660,
 																		expr: &seqExpr{
-																			pos: position{line: 1596, col: 5, offset: 51726},
+																			pos: position{line: 1608, col: 5, offset: 52130},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1596, col: 5, offset: 51726},
+																					pos: position{line: 1608, col: 5, offset: 52130},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92448},
+																						pos: position{line: 2934, col: 10, offset: 92852},
 																						run: (*parser).callonListContinuationElement1663,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92448},
+																							pos:        position{line: 2934, col: 10, offset: 92852},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37458,27 +38050,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1596, col: 12, offset: 51733},
+																					pos:   position{line: 1608, col: 12, offset: 52137},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1598, col: 9, offset: 51796},
+																						pos: position{line: 1610, col: 9, offset: 52200},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1598, col: 9, offset: 51796},
+																								pos: position{line: 1610, col: 9, offset: 52200},
 																								run: (*parser).callonListContinuationElement1667,
 																								expr: &seqExpr{
-																									pos: position{line: 1598, col: 9, offset: 51796},
+																									pos: position{line: 1610, col: 9, offset: 52200},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1598, col: 9, offset: 51796},
+																											pos:   position{line: 1610, col: 9, offset: 52200},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1598, col: 16, offset: 51803},
+																												pos: position{line: 1610, col: 16, offset: 52207},
 																												run: (*parser).callonListContinuationElement1670,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1598, col: 16, offset: 51803},
+																													pos: position{line: 1610, col: 16, offset: 52207},
 																													expr: &litMatcher{
-																														pos:        position{line: 1598, col: 17, offset: 51804},
+																														pos:        position{line: 1610, col: 17, offset: 52208},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -37487,22 +38079,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1602, col: 9, offset: 51904},
+																											pos: position{line: 1614, col: 9, offset: 52308},
 																											run: (*parser).callonListContinuationElement1673,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1621, col: 11, offset: 52621},
+																								pos: position{line: 1633, col: 11, offset: 53025},
 																								run: (*parser).callonListContinuationElement1674,
 																								expr: &seqExpr{
-																									pos: position{line: 1621, col: 11, offset: 52621},
+																									pos: position{line: 1633, col: 11, offset: 53025},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1621, col: 11, offset: 52621},
+																											pos: position{line: 1633, col: 11, offset: 53025},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1621, col: 12, offset: 52622},
+																												pos:        position{line: 1633, col: 12, offset: 53026},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -37510,7 +38102,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1621, col: 20, offset: 52630},
+																											pos:        position{line: 1633, col: 20, offset: 53034},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37519,20 +38111,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1623, col: 13, offset: 52747},
+																								pos: position{line: 1635, col: 13, offset: 53151},
 																								run: (*parser).callonListContinuationElement1679,
 																								expr: &seqExpr{
-																									pos: position{line: 1623, col: 13, offset: 52747},
+																									pos: position{line: 1635, col: 13, offset: 53151},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1623, col: 14, offset: 52748},
+																											pos:        position{line: 1635, col: 14, offset: 53152},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1623, col: 21, offset: 52755},
+																											pos:        position{line: 1635, col: 21, offset: 53159},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37541,20 +38133,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1625, col: 13, offset: 52875},
+																								pos: position{line: 1637, col: 13, offset: 53279},
 																								run: (*parser).callonListContinuationElement1683,
 																								expr: &seqExpr{
-																									pos: position{line: 1625, col: 13, offset: 52875},
+																									pos: position{line: 1637, col: 13, offset: 53279},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1625, col: 14, offset: 52876},
+																											pos:        position{line: 1637, col: 14, offset: 53280},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1625, col: 21, offset: 52883},
+																											pos:        position{line: 1637, col: 21, offset: 53287},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37563,15 +38155,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1627, col: 13, offset: 53003},
+																								pos: position{line: 1639, col: 13, offset: 53407},
 																								run: (*parser).callonListContinuationElement1687,
 																								expr: &seqExpr{
-																									pos: position{line: 1627, col: 13, offset: 53003},
+																									pos: position{line: 1639, col: 13, offset: 53407},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1627, col: 13, offset: 53003},
+																											pos: position{line: 1639, col: 13, offset: 53407},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1627, col: 14, offset: 53004},
+																												pos:        position{line: 1639, col: 14, offset: 53408},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -37579,7 +38171,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1627, col: 26, offset: 53016},
+																											pos:        position{line: 1639, col: 26, offset: 53420},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37588,15 +38180,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1629, col: 13, offset: 53136},
+																								pos: position{line: 1641, col: 13, offset: 53540},
 																								run: (*parser).callonListContinuationElement1692,
 																								expr: &seqExpr{
-																									pos: position{line: 1629, col: 13, offset: 53136},
+																									pos: position{line: 1641, col: 13, offset: 53540},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1629, col: 13, offset: 53136},
+																											pos: position{line: 1641, col: 13, offset: 53540},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1629, col: 14, offset: 53137},
+																												pos:        position{line: 1641, col: 14, offset: 53541},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -37604,7 +38196,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1629, col: 26, offset: 53149},
+																											pos:        position{line: 1641, col: 26, offset: 53553},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37616,12 +38208,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2926, col: 11, offset: 92509},
+																					pos: position{line: 2938, col: 11, offset: 92913},
 																					run: (*parser).callonListContinuationElement1697,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2926, col: 11, offset: 92509},
+																						pos: position{line: 2938, col: 11, offset: 92913},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2926, col: 11, offset: 92509},
+																							pos:        position{line: 2938, col: 11, offset: 92913},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37634,20 +38226,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1526, col: 5, offset: 49705},
+																	pos: position{line: 1538, col: 5, offset: 50109},
 																	expr: &actionExpr{
-																		pos: position{line: 1646, col: 5, offset: 53688},
+																		pos: position{line: 1658, col: 5, offset: 54092},
 																		run: (*parser).callonListContinuationElement1701,
 																		expr: &seqExpr{
-																			pos: position{line: 1646, col: 5, offset: 53688},
+																			pos: position{line: 1658, col: 5, offset: 54092},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1646, col: 5, offset: 53688},
+																					pos: position{line: 1658, col: 5, offset: 54092},
 																					expr: &actionExpr{
-																						pos: position{line: 2922, col: 10, offset: 92448},
+																						pos: position{line: 2934, col: 10, offset: 92852},
 																						run: (*parser).callonListContinuationElement1704,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92448},
+																							pos:        position{line: 2934, col: 10, offset: 92852},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37656,24 +38248,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1647, col: 5, offset: 53700},
+																					pos:   position{line: 1659, col: 5, offset: 54104},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1648, col: 9, offset: 53716},
+																						pos: position{line: 1660, col: 9, offset: 54120},
 																						run: (*parser).callonListContinuationElement1707,
 																						expr: &choiceExpr{
-																							pos: position{line: 1648, col: 10, offset: 53717},
+																							pos: position{line: 1660, col: 10, offset: 54121},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1648, col: 11, offset: 53718},
+																									pos:        position{line: 1660, col: 11, offset: 54122},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1648, col: 18, offset: 53725},
+																									pos: position{line: 1660, col: 18, offset: 54129},
 																									expr: &litMatcher{
-																										pos:        position{line: 1648, col: 19, offset: 53726},
+																										pos:        position{line: 1660, col: 19, offset: 54130},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -37684,16 +38276,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1651, col: 7, offset: 53816},
+																					pos: position{line: 1663, col: 7, offset: 54220},
 																					run: (*parser).callonListContinuationElement1712,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2926, col: 11, offset: 92509},
+																					pos: position{line: 2938, col: 11, offset: 92913},
 																					run: (*parser).callonListContinuationElement1713,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2926, col: 11, offset: 92509},
+																						pos: position{line: 2938, col: 11, offset: 92913},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2926, col: 11, offset: 92509},
+																							pos:        position{line: 2938, col: 11, offset: 92913},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37706,29 +38298,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1527, col: 5, offset: 49737},
+																	pos: position{line: 1539, col: 5, offset: 50141},
 																	expr: &actionExpr{
-																		pos: position{line: 1736, col: 5, offset: 56257},
+																		pos: position{line: 1748, col: 5, offset: 56661},
 																		run: (*parser).callonListContinuationElement1717,
 																		expr: &seqExpr{
-																			pos: position{line: 1736, col: 5, offset: 56257},
+																			pos: position{line: 1748, col: 5, offset: 56661},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1736, col: 5, offset: 56257},
+																					pos:        position{line: 1748, col: 5, offset: 56661},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1736, col: 9, offset: 56261},
+																					pos:   position{line: 1748, col: 9, offset: 56665},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1736, col: 14, offset: 56266},
+																						pos: position{line: 1748, col: 14, offset: 56670},
 																						run: (*parser).callonListContinuationElement1721,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1736, col: 14, offset: 56266},
+																							pos: position{line: 1748, col: 14, offset: 56670},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1736, col: 14, offset: 56266},
+																								pos:        position{line: 1748, col: 14, offset: 56670},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37738,18 +38330,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1736, col: 62, offset: 56314},
+																					pos:        position{line: 1748, col: 62, offset: 56718},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2926, col: 11, offset: 92509},
+																					pos: position{line: 2938, col: 11, offset: 92913},
 																					run: (*parser).callonListContinuationElement1725,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2926, col: 11, offset: 92509},
+																						pos: position{line: 2938, col: 11, offset: 92913},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2926, col: 11, offset: 92509},
+																							pos:        position{line: 2938, col: 11, offset: 92913},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37762,31 +38354,31 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1528, col: 5, offset: 49767},
+																	pos: position{line: 1540, col: 5, offset: 50171},
 																	expr: &seqExpr{
-																		pos: position{line: 1528, col: 7, offset: 49769},
+																		pos: position{line: 1540, col: 7, offset: 50173},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1681, col: 5, offset: 54707},
+																				pos: position{line: 1693, col: 5, offset: 55111},
 																				run: (*parser).callonListContinuationElement1730,
 																				expr: &seqExpr{
-																					pos: position{line: 1681, col: 5, offset: 54707},
+																					pos: position{line: 1693, col: 5, offset: 55111},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1681, col: 5, offset: 54707},
+																							pos: position{line: 1693, col: 5, offset: 55111},
 																							expr: &seqExpr{
-																								pos: position{line: 2530, col: 31, offset: 81476},
+																								pos: position{line: 2542, col: 31, offset: 81880},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2530, col: 31, offset: 81476},
+																										pos:        position{line: 2542, col: 31, offset: 81880},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2530, col: 36, offset: 81481},
+																										pos: position{line: 2542, col: 36, offset: 81885},
 																										expr: &litMatcher{
-																											pos:        position{line: 2530, col: 37, offset: 81482},
+																											pos:        position{line: 2542, col: 37, offset: 81886},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -37796,28 +38388,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1682, col: 5, offset: 54739},
+																							pos: position{line: 1694, col: 5, offset: 55143},
 																							expr: &seqExpr{
-																								pos: position{line: 1682, col: 6, offset: 54740},
+																								pos: position{line: 1694, col: 6, offset: 55144},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1682, col: 6, offset: 54740},
+																										pos: position{line: 1694, col: 6, offset: 55144},
 																										expr: &actionExpr{
-																											pos: position{line: 1687, col: 5, offset: 54890},
+																											pos: position{line: 1699, col: 5, offset: 55294},
 																											run: (*parser).callonListContinuationElement1740,
 																											expr: &seqExpr{
-																												pos: position{line: 1687, col: 5, offset: 54890},
+																												pos: position{line: 1699, col: 5, offset: 55294},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1687, col: 5, offset: 54890},
+																														pos:   position{line: 1699, col: 5, offset: 55294},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1687, col: 16, offset: 54901},
+																															pos: position{line: 1699, col: 16, offset: 55305},
 																															run: (*parser).callonListContinuationElement1743,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1687, col: 16, offset: 54901},
+																																pos: position{line: 1699, col: 16, offset: 55305},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1687, col: 17, offset: 54902},
+																																	pos:        position{line: 1699, col: 17, offset: 55306},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -37826,7 +38418,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1690, col: 5, offset: 54959},
+																														pos: position{line: 1702, col: 5, offset: 55363},
 																														run: (*parser).callonListContinuationElement1746,
 																													},
 																												},
@@ -37834,30 +38426,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1682, col: 35, offset: 54769},
+																										pos: position{line: 1694, col: 35, offset: 55173},
 																										expr: &choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92846},
+																											pos: position{line: 2956, col: 8, offset: 93250},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92619},
+																													pos: position{line: 2943, col: 12, offset: 93023},
 																													run: (*parser).callonListContinuationElement1749,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92620},
+																														pos: position{line: 2943, col: 13, offset: 93024},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92620},
+																																pos:        position{line: 2943, col: 13, offset: 93024},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92627},
+																																pos:        position{line: 2943, col: 20, offset: 93031},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92636},
+																																pos:        position{line: 2943, col: 29, offset: 93040},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37866,16 +38458,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92796},
+																													pos: position{line: 2953, col: 8, offset: 93200},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92797,
+																														line: 2953, col: 9, offset: 93201,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1682, col: 40, offset: 54774,
+																										line: 1694, col: 40, offset: 55178,
 																									},
 																								},
 																							},
@@ -37884,21 +38476,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1687, col: 5, offset: 54890},
+																				pos: position{line: 1699, col: 5, offset: 55294},
 																				run: (*parser).callonListContinuationElement1757,
 																				expr: &seqExpr{
-																					pos: position{line: 1687, col: 5, offset: 54890},
+																					pos: position{line: 1699, col: 5, offset: 55294},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1687, col: 5, offset: 54890},
+																							pos:   position{line: 1699, col: 5, offset: 55294},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1687, col: 16, offset: 54901},
+																								pos: position{line: 1699, col: 16, offset: 55305},
 																								run: (*parser).callonListContinuationElement1760,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1687, col: 16, offset: 54901},
+																									pos: position{line: 1699, col: 16, offset: 55305},
 																									expr: &litMatcher{
-																										pos:        position{line: 1687, col: 17, offset: 54902},
+																										pos:        position{line: 1699, col: 17, offset: 55306},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37907,7 +38499,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1690, col: 5, offset: 54959},
+																							pos: position{line: 1702, col: 5, offset: 55363},
 																							run: (*parser).callonListContinuationElement1763,
 																						},
 																					},
@@ -37917,17 +38509,17 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1529, col: 5, offset: 49825},
+																	pos: position{line: 1541, col: 5, offset: 50229},
 																	expr: &actionExpr{
-																		pos: position{line: 737, col: 5, offset: 23726},
+																		pos: position{line: 749, col: 5, offset: 24130},
 																		run: (*parser).callonListContinuationElement1765,
 																		expr: &seqExpr{
-																			pos: position{line: 737, col: 5, offset: 23726},
+																			pos: position{line: 749, col: 5, offset: 24130},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 737, col: 5, offset: 23726},
+																					pos: position{line: 749, col: 5, offset: 24130},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2812, col: 13, offset: 89543},
+																						pos:        position{line: 2824, col: 13, offset: 89947},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37935,36 +38527,36 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 738, col: 5, offset: 23756},
+																					pos:   position{line: 750, col: 5, offset: 24160},
 																					label: "delimiter",
 																					expr: &choiceExpr{
-																						pos: position{line: 739, col: 9, offset: 23776},
+																						pos: position{line: 751, col: 9, offset: 24180},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 753, col: 5, offset: 24268},
+																								pos: position{line: 765, col: 5, offset: 24672},
 																								run: (*parser).callonListContinuationElement1771,
 																								expr: &seqExpr{
-																									pos: position{line: 753, col: 5, offset: 24268},
+																									pos: position{line: 765, col: 5, offset: 24672},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 753, col: 5, offset: 24268},
+																											pos:   position{line: 765, col: 5, offset: 24672},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 753, col: 16, offset: 24279},
+																												pos: position{line: 765, col: 16, offset: 24683},
 																												run: (*parser).callonListContinuationElement1774,
 																												expr: &seqExpr{
-																													pos: position{line: 753, col: 16, offset: 24279},
+																													pos: position{line: 765, col: 16, offset: 24683},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 753, col: 16, offset: 24279},
+																															pos:        position{line: 765, col: 16, offset: 24683},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 753, col: 23, offset: 24286},
+																															pos: position{line: 765, col: 23, offset: 24690},
 																															expr: &litMatcher{
-																																pos:        position{line: 753, col: 23, offset: 24286},
+																																pos:        position{line: 765, col: 23, offset: 24690},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -37975,12 +38567,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 755, col: 8, offset: 24370},
+																											pos: position{line: 767, col: 8, offset: 24774},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92448},
+																												pos: position{line: 2934, col: 10, offset: 92852},
 																												run: (*parser).callonListContinuationElement1780,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92448},
+																													pos:        position{line: 2934, col: 10, offset: 92852},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37989,28 +38581,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92846},
+																											pos: position{line: 2956, col: 8, offset: 93250},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92619},
+																													pos: position{line: 2943, col: 12, offset: 93023},
 																													run: (*parser).callonListContinuationElement1783,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92620},
+																														pos: position{line: 2943, col: 13, offset: 93024},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92620},
+																																pos:        position{line: 2943, col: 13, offset: 93024},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92627},
+																																pos:        position{line: 2943, col: 20, offset: 93031},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92636},
+																																pos:        position{line: 2943, col: 29, offset: 93040},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38019,9 +38611,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92796},
+																													pos: position{line: 2953, col: 8, offset: 93200},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92797,
+																														line: 2953, col: 9, offset: 93201,
 																													},
 																												},
 																											},
@@ -38030,30 +38622,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 760, col: 5, offset: 24516},
+																								pos: position{line: 772, col: 5, offset: 24920},
 																								run: (*parser).callonListContinuationElement1790,
 																								expr: &seqExpr{
-																									pos: position{line: 760, col: 5, offset: 24516},
+																									pos: position{line: 772, col: 5, offset: 24920},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 760, col: 5, offset: 24516},
+																											pos:   position{line: 772, col: 5, offset: 24920},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 760, col: 16, offset: 24527},
+																												pos: position{line: 772, col: 16, offset: 24931},
 																												run: (*parser).callonListContinuationElement1793,
 																												expr: &seqExpr{
-																													pos: position{line: 760, col: 16, offset: 24527},
+																													pos: position{line: 772, col: 16, offset: 24931},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 760, col: 16, offset: 24527},
+																															pos:        position{line: 772, col: 16, offset: 24931},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 760, col: 23, offset: 24534},
+																															pos: position{line: 772, col: 23, offset: 24938},
 																															expr: &litMatcher{
-																																pos:        position{line: 760, col: 23, offset: 24534},
+																																pos:        position{line: 772, col: 23, offset: 24938},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -38064,12 +38656,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 762, col: 8, offset: 24618},
+																											pos: position{line: 774, col: 8, offset: 25022},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92448},
+																												pos: position{line: 2934, col: 10, offset: 92852},
 																												run: (*parser).callonListContinuationElement1799,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92448},
+																													pos:        position{line: 2934, col: 10, offset: 92852},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38078,28 +38670,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92846},
+																											pos: position{line: 2956, col: 8, offset: 93250},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92619},
+																													pos: position{line: 2943, col: 12, offset: 93023},
 																													run: (*parser).callonListContinuationElement1802,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92620},
+																														pos: position{line: 2943, col: 13, offset: 93024},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92620},
+																																pos:        position{line: 2943, col: 13, offset: 93024},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92627},
+																																pos:        position{line: 2943, col: 20, offset: 93031},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92636},
+																																pos:        position{line: 2943, col: 29, offset: 93040},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38108,9 +38700,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92796},
+																													pos: position{line: 2953, col: 8, offset: 93200},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92797,
+																														line: 2953, col: 9, offset: 93201,
 																													},
 																												},
 																											},
@@ -38119,27 +38711,27 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 773, col: 26, offset: 25004},
+																								pos: position{line: 785, col: 26, offset: 25408},
 																								run: (*parser).callonListContinuationElement1809,
 																								expr: &seqExpr{
-																									pos: position{line: 773, col: 26, offset: 25004},
+																									pos: position{line: 785, col: 26, offset: 25408},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 773, col: 26, offset: 25004},
+																											pos:        position{line: 785, col: 26, offset: 25408},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 773, col: 32, offset: 25010},
+																											pos:   position{line: 785, col: 32, offset: 25414},
 																											label: "language",
 																											expr: &actionExpr{
-																												pos: position{line: 777, col: 13, offset: 25140},
+																												pos: position{line: 789, col: 13, offset: 25544},
 																												run: (*parser).callonListContinuationElement1813,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 777, col: 14, offset: 25141},
+																													pos: position{line: 789, col: 14, offset: 25545},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 777, col: 14, offset: 25141},
+																														pos:        position{line: 789, col: 14, offset: 25545},
 																														val:        "[^\\r\\n` ]",
 																														chars:      []rune{'\r', '\n', '`', ' '},
 																														ignoreCase: false,
@@ -38149,12 +38741,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 773, col: 52, offset: 25030},
+																											pos: position{line: 785, col: 52, offset: 25434},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92448},
+																												pos: position{line: 2934, col: 10, offset: 92852},
 																												run: (*parser).callonListContinuationElement1817,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92448},
+																													pos:        position{line: 2934, col: 10, offset: 92852},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38163,28 +38755,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92846},
+																											pos: position{line: 2956, col: 8, offset: 93250},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92619},
+																													pos: position{line: 2943, col: 12, offset: 93023},
 																													run: (*parser).callonListContinuationElement1820,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92620},
+																														pos: position{line: 2943, col: 13, offset: 93024},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92620},
+																																pos:        position{line: 2943, col: 13, offset: 93024},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92627},
+																																pos:        position{line: 2943, col: 20, offset: 93031},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92636},
+																																pos:        position{line: 2943, col: 29, offset: 93040},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38193,9 +38785,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92796},
+																													pos: position{line: 2953, col: 8, offset: 93200},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92797,
+																														line: 2953, col: 9, offset: 93201,
 																													},
 																												},
 																											},
@@ -38204,30 +38796,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 767, col: 5, offset: 24763},
+																								pos: position{line: 779, col: 5, offset: 25167},
 																								run: (*parser).callonListContinuationElement1827,
 																								expr: &seqExpr{
-																									pos: position{line: 767, col: 5, offset: 24763},
+																									pos: position{line: 779, col: 5, offset: 25167},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 767, col: 5, offset: 24763},
+																											pos:   position{line: 779, col: 5, offset: 25167},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 767, col: 16, offset: 24774},
+																												pos: position{line: 779, col: 16, offset: 25178},
 																												run: (*parser).callonListContinuationElement1830,
 																												expr: &seqExpr{
-																													pos: position{line: 767, col: 16, offset: 24774},
+																													pos: position{line: 779, col: 16, offset: 25178},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 767, col: 16, offset: 24774},
+																															pos:        position{line: 779, col: 16, offset: 25178},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 767, col: 22, offset: 24780},
+																															pos: position{line: 779, col: 22, offset: 25184},
 																															expr: &litMatcher{
-																																pos:        position{line: 767, col: 22, offset: 24780},
+																																pos:        position{line: 779, col: 22, offset: 25184},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -38238,12 +38830,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 8, offset: 24864},
+																											pos: position{line: 781, col: 8, offset: 25268},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92448},
+																												pos: position{line: 2934, col: 10, offset: 92852},
 																												run: (*parser).callonListContinuationElement1836,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92448},
+																													pos:        position{line: 2934, col: 10, offset: 92852},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38252,28 +38844,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92846},
+																											pos: position{line: 2956, col: 8, offset: 93250},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92619},
+																													pos: position{line: 2943, col: 12, offset: 93023},
 																													run: (*parser).callonListContinuationElement1839,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92620},
+																														pos: position{line: 2943, col: 13, offset: 93024},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92620},
+																																pos:        position{line: 2943, col: 13, offset: 93024},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92627},
+																																pos:        position{line: 2943, col: 20, offset: 93031},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92636},
+																																pos:        position{line: 2943, col: 29, offset: 93040},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38282,9 +38874,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92796},
+																													pos: position{line: 2953, col: 8, offset: 93200},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92797,
+																														line: 2953, col: 9, offset: 93201,
 																													},
 																												},
 																											},
@@ -38293,30 +38885,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 782, col: 5, offset: 25300},
+																								pos: position{line: 794, col: 5, offset: 25704},
 																								run: (*parser).callonListContinuationElement1846,
 																								expr: &seqExpr{
-																									pos: position{line: 782, col: 5, offset: 25300},
+																									pos: position{line: 794, col: 5, offset: 25704},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 782, col: 5, offset: 25300},
+																											pos:   position{line: 794, col: 5, offset: 25704},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 782, col: 16, offset: 25311},
+																												pos: position{line: 794, col: 16, offset: 25715},
 																												run: (*parser).callonListContinuationElement1849,
 																												expr: &seqExpr{
-																													pos: position{line: 782, col: 16, offset: 25311},
+																													pos: position{line: 794, col: 16, offset: 25715},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 782, col: 16, offset: 25311},
+																															pos:        position{line: 794, col: 16, offset: 25715},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 782, col: 23, offset: 25318},
+																															pos: position{line: 794, col: 23, offset: 25722},
 																															expr: &litMatcher{
-																																pos:        position{line: 782, col: 23, offset: 25318},
+																																pos:        position{line: 794, col: 23, offset: 25722},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -38327,12 +38919,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 784, col: 8, offset: 25402},
+																											pos: position{line: 796, col: 8, offset: 25806},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92448},
+																												pos: position{line: 2934, col: 10, offset: 92852},
 																												run: (*parser).callonListContinuationElement1855,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92448},
+																													pos:        position{line: 2934, col: 10, offset: 92852},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38341,28 +38933,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92846},
+																											pos: position{line: 2956, col: 8, offset: 93250},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92619},
+																													pos: position{line: 2943, col: 12, offset: 93023},
 																													run: (*parser).callonListContinuationElement1858,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92620},
+																														pos: position{line: 2943, col: 13, offset: 93024},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92620},
+																																pos:        position{line: 2943, col: 13, offset: 93024},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92627},
+																																pos:        position{line: 2943, col: 20, offset: 93031},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92636},
+																																pos:        position{line: 2943, col: 29, offset: 93040},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38371,9 +38963,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92796},
+																													pos: position{line: 2953, col: 8, offset: 93200},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92797,
+																														line: 2953, col: 9, offset: 93201,
 																													},
 																												},
 																											},
@@ -38382,30 +38974,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 796, col: 5, offset: 25776},
+																								pos: position{line: 808, col: 5, offset: 26180},
 																								run: (*parser).callonListContinuationElement1865,
 																								expr: &seqExpr{
-																									pos: position{line: 796, col: 5, offset: 25776},
+																									pos: position{line: 808, col: 5, offset: 26180},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 796, col: 5, offset: 25776},
+																											pos:   position{line: 808, col: 5, offset: 26180},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 796, col: 16, offset: 25787},
+																												pos: position{line: 808, col: 16, offset: 26191},
 																												run: (*parser).callonListContinuationElement1868,
 																												expr: &seqExpr{
-																													pos: position{line: 796, col: 16, offset: 25787},
+																													pos: position{line: 808, col: 16, offset: 26191},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 796, col: 16, offset: 25787},
+																															pos:        position{line: 808, col: 16, offset: 26191},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 796, col: 23, offset: 25794},
+																															pos: position{line: 808, col: 23, offset: 26198},
 																															expr: &litMatcher{
-																																pos:        position{line: 796, col: 23, offset: 25794},
+																																pos:        position{line: 808, col: 23, offset: 26198},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -38416,12 +39008,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 798, col: 8, offset: 25878},
+																											pos: position{line: 810, col: 8, offset: 26282},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92448},
+																												pos: position{line: 2934, col: 10, offset: 92852},
 																												run: (*parser).callonListContinuationElement1874,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92448},
+																													pos:        position{line: 2934, col: 10, offset: 92852},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38430,28 +39022,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92846},
+																											pos: position{line: 2956, col: 8, offset: 93250},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92619},
+																													pos: position{line: 2943, col: 12, offset: 93023},
 																													run: (*parser).callonListContinuationElement1877,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92620},
+																														pos: position{line: 2943, col: 13, offset: 93024},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92620},
+																																pos:        position{line: 2943, col: 13, offset: 93024},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92627},
+																																pos:        position{line: 2943, col: 20, offset: 93031},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92636},
+																																pos:        position{line: 2943, col: 29, offset: 93040},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38460,9 +39052,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92796},
+																													pos: position{line: 2953, col: 8, offset: 93200},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92797,
+																														line: 2953, col: 9, offset: 93201,
 																													},
 																												},
 																											},
@@ -38471,30 +39063,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 803, col: 5, offset: 26028},
+																								pos: position{line: 815, col: 5, offset: 26432},
 																								run: (*parser).callonListContinuationElement1884,
 																								expr: &seqExpr{
-																									pos: position{line: 803, col: 5, offset: 26028},
+																									pos: position{line: 815, col: 5, offset: 26432},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 803, col: 5, offset: 26028},
+																											pos:   position{line: 815, col: 5, offset: 26432},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 803, col: 16, offset: 26039},
+																												pos: position{line: 815, col: 16, offset: 26443},
 																												run: (*parser).callonListContinuationElement1887,
 																												expr: &seqExpr{
-																													pos: position{line: 803, col: 16, offset: 26039},
+																													pos: position{line: 815, col: 16, offset: 26443},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 803, col: 16, offset: 26039},
+																															pos:        position{line: 815, col: 16, offset: 26443},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 803, col: 23, offset: 26046},
+																															pos: position{line: 815, col: 23, offset: 26450},
 																															expr: &litMatcher{
-																																pos:        position{line: 803, col: 23, offset: 26046},
+																																pos:        position{line: 815, col: 23, offset: 26450},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -38505,12 +39097,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 805, col: 8, offset: 26130},
+																											pos: position{line: 817, col: 8, offset: 26534},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92448},
+																												pos: position{line: 2934, col: 10, offset: 92852},
 																												run: (*parser).callonListContinuationElement1893,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92448},
+																													pos:        position{line: 2934, col: 10, offset: 92852},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38519,28 +39111,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92846},
+																											pos: position{line: 2956, col: 8, offset: 93250},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92619},
+																													pos: position{line: 2943, col: 12, offset: 93023},
 																													run: (*parser).callonListContinuationElement1896,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92620},
+																														pos: position{line: 2943, col: 13, offset: 93024},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92620},
+																																pos:        position{line: 2943, col: 13, offset: 93024},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92627},
+																																pos:        position{line: 2943, col: 20, offset: 93031},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92636},
+																																pos:        position{line: 2943, col: 29, offset: 93040},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38549,9 +39141,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92796},
+																													pos: position{line: 2953, col: 8, offset: 93200},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92797,
+																														line: 2953, col: 9, offset: 93201,
 																													},
 																												},
 																											},
@@ -38560,30 +39152,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 810, col: 5, offset: 26278},
+																								pos: position{line: 822, col: 5, offset: 26682},
 																								run: (*parser).callonListContinuationElement1903,
 																								expr: &seqExpr{
-																									pos: position{line: 810, col: 5, offset: 26278},
+																									pos: position{line: 822, col: 5, offset: 26682},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 810, col: 5, offset: 26278},
+																											pos:   position{line: 822, col: 5, offset: 26682},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 810, col: 16, offset: 26289},
+																												pos: position{line: 822, col: 16, offset: 26693},
 																												run: (*parser).callonListContinuationElement1906,
 																												expr: &seqExpr{
-																													pos: position{line: 810, col: 16, offset: 26289},
+																													pos: position{line: 822, col: 16, offset: 26693},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 810, col: 16, offset: 26289},
+																															pos:        position{line: 822, col: 16, offset: 26693},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 810, col: 23, offset: 26296},
+																															pos: position{line: 822, col: 23, offset: 26700},
 																															expr: &litMatcher{
-																																pos:        position{line: 810, col: 23, offset: 26296},
+																																pos:        position{line: 822, col: 23, offset: 26700},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -38594,12 +39186,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 812, col: 8, offset: 26380},
+																											pos: position{line: 824, col: 8, offset: 26784},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92448},
+																												pos: position{line: 2934, col: 10, offset: 92852},
 																												run: (*parser).callonListContinuationElement1912,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92448},
+																													pos:        position{line: 2934, col: 10, offset: 92852},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38608,28 +39200,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92846},
+																											pos: position{line: 2956, col: 8, offset: 93250},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92619},
+																													pos: position{line: 2943, col: 12, offset: 93023},
 																													run: (*parser).callonListContinuationElement1915,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92620},
+																														pos: position{line: 2943, col: 13, offset: 93024},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92620},
+																																pos:        position{line: 2943, col: 13, offset: 93024},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92627},
+																																pos:        position{line: 2943, col: 20, offset: 93031},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92636},
+																																pos:        position{line: 2943, col: 29, offset: 93040},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38638,9 +39230,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92796},
+																													pos: position{line: 2953, col: 8, offset: 93200},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92797,
+																														line: 2953, col: 9, offset: 93201,
 																													},
 																												},
 																											},
@@ -38649,30 +39241,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 817, col: 5, offset: 26524},
+																								pos: position{line: 829, col: 5, offset: 26928},
 																								run: (*parser).callonListContinuationElement1922,
 																								expr: &seqExpr{
-																									pos: position{line: 817, col: 5, offset: 26524},
+																									pos: position{line: 829, col: 5, offset: 26928},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 817, col: 5, offset: 26524},
+																											pos:   position{line: 829, col: 5, offset: 26928},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 817, col: 16, offset: 26535},
+																												pos: position{line: 829, col: 16, offset: 26939},
 																												run: (*parser).callonListContinuationElement1925,
 																												expr: &seqExpr{
-																													pos: position{line: 817, col: 16, offset: 26535},
+																													pos: position{line: 829, col: 16, offset: 26939},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 817, col: 16, offset: 26535},
+																															pos:        position{line: 829, col: 16, offset: 26939},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 817, col: 23, offset: 26542},
+																															pos: position{line: 829, col: 23, offset: 26946},
 																															expr: &litMatcher{
-																																pos:        position{line: 817, col: 23, offset: 26542},
+																																pos:        position{line: 829, col: 23, offset: 26946},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -38683,12 +39275,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 819, col: 8, offset: 26626},
+																											pos: position{line: 831, col: 8, offset: 27030},
 																											expr: &actionExpr{
-																												pos: position{line: 2922, col: 10, offset: 92448},
+																												pos: position{line: 2934, col: 10, offset: 92852},
 																												run: (*parser).callonListContinuationElement1931,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2922, col: 10, offset: 92448},
+																													pos:        position{line: 2934, col: 10, offset: 92852},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38697,28 +39289,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2944, col: 8, offset: 92846},
+																											pos: position{line: 2956, col: 8, offset: 93250},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2931, col: 12, offset: 92619},
+																													pos: position{line: 2943, col: 12, offset: 93023},
 																													run: (*parser).callonListContinuationElement1934,
 																													expr: &choiceExpr{
-																														pos: position{line: 2931, col: 13, offset: 92620},
+																														pos: position{line: 2943, col: 13, offset: 93024},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 13, offset: 92620},
+																																pos:        position{line: 2943, col: 13, offset: 93024},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 20, offset: 92627},
+																																pos:        position{line: 2943, col: 20, offset: 93031},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2931, col: 29, offset: 92636},
+																																pos:        position{line: 2943, col: 29, offset: 93040},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38727,9 +39319,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2941, col: 8, offset: 92796},
+																													pos: position{line: 2953, col: 8, offset: 93200},
 																													expr: &anyMatcher{
-																														line: 2941, col: 9, offset: 92797,
+																														line: 2953, col: 9, offset: 93201,
 																													},
 																												},
 																											},
@@ -38745,15 +39337,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1530, col: 5, offset: 49845},
+																	pos:   position{line: 1542, col: 5, offset: 50249},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 14, offset: 91041},
+																		pos: position{line: 2884, col: 14, offset: 91445},
 																		run: (*parser).callonListContinuationElement1942,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2872, col: 14, offset: 91041},
+																			pos: position{line: 2884, col: 14, offset: 91445},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 14, offset: 91041},
+																				pos:        position{line: 2884, col: 14, offset: 91445},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38763,28 +39355,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92846},
+																	pos: position{line: 2956, col: 8, offset: 93250},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92619},
+																			pos: position{line: 2943, col: 12, offset: 93023},
 																			run: (*parser).callonListContinuationElement1946,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92620},
+																				pos: position{line: 2943, col: 13, offset: 93024},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92620},
+																						pos:        position{line: 2943, col: 13, offset: 93024},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92627},
+																						pos:        position{line: 2943, col: 20, offset: 93031},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92636},
+																						pos:        position{line: 2943, col: 29, offset: 93040},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38793,9 +39385,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92796},
+																			pos: position{line: 2953, col: 8, offset: 93200},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92797,
+																				line: 2953, col: 9, offset: 93201,
 																			},
 																		},
 																	},
@@ -38816,33 +39408,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1720, col: 1, offset: 55751},
+			pos:  position{line: 1732, col: 1, offset: 56155},
 			expr: &actionExpr{
-				pos: position{line: 1722, col: 5, offset: 55829},
+				pos: position{line: 1734, col: 5, offset: 56233},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1722, col: 5, offset: 55829},
+					pos: position{line: 1734, col: 5, offset: 56233},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1722, col: 5, offset: 55829},
+							pos: position{line: 1734, col: 5, offset: 56233},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1725, col: 5, offset: 55896},
+							pos:        position{line: 1737, col: 5, offset: 56300},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1725, col: 9, offset: 55900},
+							pos:   position{line: 1737, col: 9, offset: 56304},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1725, col: 14, offset: 55905},
+								pos: position{line: 1737, col: 14, offset: 56309},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1725, col: 14, offset: 55905},
+									pos: position{line: 1737, col: 14, offset: 56309},
 									expr: &charClassMatcher{
-										pos:        position{line: 1725, col: 14, offset: 55905},
+										pos:        position{line: 1737, col: 14, offset: 56309},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -38852,18 +39444,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1725, col: 62, offset: 55953},
+							pos:        position{line: 1737, col: 62, offset: 56357},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1725, col: 66, offset: 55957},
+							pos: position{line: 1737, col: 66, offset: 56361},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92448},
+								pos: position{line: 2934, col: 10, offset: 92852},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92448},
+									pos:        position{line: 2934, col: 10, offset: 92852},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38872,30 +39464,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1725, col: 73, offset: 55964},
+							pos: position{line: 1737, col: 73, offset: 56368},
 							expr: &choiceExpr{
-								pos: position{line: 1725, col: 75, offset: 55966},
+								pos: position{line: 1737, col: 75, offset: 56370},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2931, col: 12, offset: 92619},
+										pos: position{line: 2943, col: 12, offset: 93023},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2931, col: 13, offset: 92620},
+											pos: position{line: 2943, col: 13, offset: 93024},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2931, col: 13, offset: 92620},
+													pos:        position{line: 2943, col: 13, offset: 93024},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 20, offset: 92627},
+													pos:        position{line: 2943, col: 20, offset: 93031},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 29, offset: 92636},
+													pos:        position{line: 2943, col: 29, offset: 93040},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38904,13 +39496,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2941, col: 8, offset: 92796},
+										pos: position{line: 2953, col: 8, offset: 93200},
 										expr: &anyMatcher{
-											line: 2941, col: 9, offset: 92797,
+											line: 2953, col: 9, offset: 93201,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1725, col: 81, offset: 55972},
+										pos:  position{line: 1737, col: 81, offset: 56376},
 										name: "Callout",
 									},
 								},
@@ -38922,44 +39514,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1764, col: 1, offset: 57145},
+			pos:  position{line: 1776, col: 1, offset: 57549},
 			expr: &actionExpr{
-				pos: position{line: 1766, col: 5, offset: 57219},
+				pos: position{line: 1778, col: 5, offset: 57623},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1766, col: 5, offset: 57219},
+					pos: position{line: 1778, col: 5, offset: 57623},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1766, col: 5, offset: 57219},
+							pos: position{line: 1778, col: 5, offset: 57623},
 							expr: &seqExpr{
-								pos: position{line: 1766, col: 7, offset: 57221},
+								pos: position{line: 1778, col: 7, offset: 57625},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2812, col: 13, offset: 89543},
+										pos:        position{line: 2824, col: 13, offset: 89947},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1766, col: 16, offset: 57230},
+										pos: position{line: 1778, col: 16, offset: 57634},
 										expr: &seqExpr{
-											pos: position{line: 1766, col: 18, offset: 57232},
+											pos: position{line: 1778, col: 18, offset: 57636},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1766, col: 19, offset: 57233},
+													pos:        position{line: 1778, col: 19, offset: 57637},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2926, col: 11, offset: 92509},
+													pos: position{line: 2938, col: 11, offset: 92913},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2926, col: 11, offset: 92509},
+														pos: position{line: 2938, col: 11, offset: 92913},
 														expr: &charClassMatcher{
-															pos:        position{line: 2926, col: 11, offset: 92509},
+															pos:        position{line: 2938, col: 11, offset: 92913},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38974,88 +39566,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1767, col: 5, offset: 57373},
+							pos:   position{line: 1779, col: 5, offset: 57777},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1767, col: 11, offset: 57379},
+								pos: position{line: 1779, col: 11, offset: 57783},
 								expr: &actionExpr{
-									pos: position{line: 1745, col: 5, offset: 56642},
+									pos: position{line: 1757, col: 5, offset: 57046},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1745, col: 5, offset: 56642},
+										pos: position{line: 1757, col: 5, offset: 57046},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1745, col: 5, offset: 56642},
+												pos: position{line: 1757, col: 5, offset: 57046},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1748, col: 5, offset: 56705},
+												pos:   position{line: 1760, col: 5, offset: 57109},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1748, col: 12, offset: 56712},
+													pos: position{line: 1760, col: 12, offset: 57116},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1748, col: 12, offset: 56712},
+															pos: position{line: 1760, col: 12, offset: 57116},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1748, col: 12, offset: 56712},
+																pos:        position{line: 1760, col: 12, offset: 57116},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1750, col: 13, offset: 56768},
+															pos: position{line: 1762, col: 13, offset: 57172},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1750, col: 13, offset: 56768},
+																pos:        position{line: 1762, col: 13, offset: 57172},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1752, col: 13, offset: 56826},
+															pos: position{line: 1764, col: 13, offset: 57230},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1752, col: 13, offset: 56826},
+																pos:        position{line: 1764, col: 13, offset: 57230},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1754, col: 13, offset: 56894},
+															pos: position{line: 1766, col: 13, offset: 57298},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1754, col: 13, offset: 56894},
+																pos:        position{line: 1766, col: 13, offset: 57298},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1756, col: 13, offset: 56958},
+															pos: position{line: 1768, col: 13, offset: 57362},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1756, col: 13, offset: 56958},
+																pos:        position{line: 1768, col: 13, offset: 57362},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1758, col: 13, offset: 57022},
+															pos: position{line: 1770, col: 13, offset: 57426},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1758, col: 13, offset: 57022},
+																pos: position{line: 1770, col: 13, offset: 57426},
 																expr: &actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92509},
+																	pos: position{line: 2938, col: 11, offset: 92913},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92509},
+																		pos: position{line: 2938, col: 11, offset: 92913},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92509},
+																			pos:        position{line: 2938, col: 11, offset: 92913},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39074,24 +39666,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1768, col: 5, offset: 57401},
+							pos:   position{line: 1780, col: 5, offset: 57805},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1804, col: 5, offset: 58508},
+								pos: position{line: 1816, col: 5, offset: 58912},
 								run: (*parser).callonShortcutParagraph35,
 								expr: &seqExpr{
-									pos: position{line: 1804, col: 5, offset: 58508},
+									pos: position{line: 1816, col: 5, offset: 58912},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1804, col: 5, offset: 58508},
+											pos:   position{line: 1816, col: 5, offset: 58912},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2872, col: 14, offset: 91041},
+												pos: position{line: 2884, col: 14, offset: 91445},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2872, col: 14, offset: 91041},
+													pos: position{line: 2884, col: 14, offset: 91445},
 													expr: &charClassMatcher{
-														pos:        position{line: 2872, col: 14, offset: 91041},
+														pos:        position{line: 2884, col: 14, offset: 91445},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39101,32 +39693,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1805, col: 5, offset: 58532},
+											pos: position{line: 1817, col: 5, offset: 58936},
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2944, col: 8, offset: 92846},
+											pos: position{line: 2956, col: 8, offset: 93250},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2931, col: 12, offset: 92619},
+													pos: position{line: 2943, col: 12, offset: 93023},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2931, col: 13, offset: 92620},
+														pos: position{line: 2943, col: 13, offset: 93024},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2931, col: 13, offset: 92620},
+																pos:        position{line: 2943, col: 13, offset: 93024},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2931, col: 20, offset: 92627},
+																pos:        position{line: 2943, col: 20, offset: 93031},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2931, col: 29, offset: 92636},
+																pos:        position{line: 2943, col: 29, offset: 93040},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39135,9 +39727,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92796},
+													pos: position{line: 2953, col: 8, offset: 93200},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92797,
+														line: 2953, col: 9, offset: 93201,
 													},
 												},
 											},
@@ -39147,47 +39739,47 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1769, col: 5, offset: 57435},
+							pos: position{line: 1781, col: 5, offset: 57839},
 							run: (*parser).callonShortcutParagraph50,
 						},
 						&labeledExpr{
-							pos:   position{line: 1776, col: 5, offset: 57765},
+							pos:   position{line: 1788, col: 5, offset: 58169},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1776, col: 16, offset: 57776},
+								pos: position{line: 1788, col: 16, offset: 58180},
 								expr: &actionExpr{
-									pos: position{line: 1777, col: 9, offset: 57786},
+									pos: position{line: 1789, col: 9, offset: 58190},
 									run: (*parser).callonShortcutParagraph53,
 									expr: &seqExpr{
-										pos: position{line: 1777, col: 9, offset: 57786},
+										pos: position{line: 1789, col: 9, offset: 58190},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2939, col: 11, offset: 92782},
+												pos: position{line: 2951, col: 11, offset: 93186},
 												expr: &anyMatcher{
-													line: 2939, col: 13, offset: 92784,
+													line: 2951, col: 13, offset: 93188,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1778, col: 9, offset: 57802},
+												pos: position{line: 1790, col: 9, offset: 58206},
 												expr: &actionExpr{
-													pos: position{line: 690, col: 14, offset: 22173},
+													pos: position{line: 702, col: 14, offset: 22577},
 													run: (*parser).callonShortcutParagraph58,
 													expr: &seqExpr{
-														pos: position{line: 690, col: 14, offset: 22173},
+														pos: position{line: 702, col: 14, offset: 22577},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2939, col: 11, offset: 92782},
+																pos: position{line: 2951, col: 11, offset: 93186},
 																expr: &anyMatcher{
-																	line: 2939, col: 13, offset: 92784,
+																	line: 2951, col: 13, offset: 93188,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 690, col: 21, offset: 22180},
+																pos: position{line: 702, col: 21, offset: 22584},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92448},
+																	pos: position{line: 2934, col: 10, offset: 92852},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92448},
+																		pos:        position{line: 2934, col: 10, offset: 92852},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39196,28 +39788,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92846},
+																pos: position{line: 2956, col: 8, offset: 93250},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92619},
+																		pos: position{line: 2943, col: 12, offset: 93023},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92620},
+																			pos: position{line: 2943, col: 13, offset: 93024},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92620},
+																					pos:        position{line: 2943, col: 13, offset: 93024},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92627},
+																					pos:        position{line: 2943, col: 20, offset: 93031},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92636},
+																					pos:        position{line: 2943, col: 29, offset: 93040},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39226,9 +39818,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92796},
+																		pos: position{line: 2953, col: 8, offset: 93200},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92797,
+																			line: 2953, col: 9, offset: 93201,
 																		},
 																	},
 																},
@@ -39238,24 +39830,24 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1779, col: 9, offset: 57821},
+												pos: position{line: 1791, col: 9, offset: 58225},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1779, col: 10, offset: 57822},
+													pos:  position{line: 1791, col: 10, offset: 58226},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1780, col: 9, offset: 57846},
+												pos: position{line: 1792, col: 9, offset: 58250},
 												expr: &actionExpr{
-													pos: position{line: 737, col: 5, offset: 23726},
+													pos: position{line: 749, col: 5, offset: 24130},
 													run: (*parser).callonShortcutParagraph76,
 													expr: &seqExpr{
-														pos: position{line: 737, col: 5, offset: 23726},
+														pos: position{line: 749, col: 5, offset: 24130},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 737, col: 5, offset: 23726},
+																pos: position{line: 749, col: 5, offset: 24130},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2812, col: 13, offset: 89543},
+																	pos:        position{line: 2824, col: 13, offset: 89947},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -39263,36 +39855,36 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 738, col: 5, offset: 23756},
+																pos:   position{line: 750, col: 5, offset: 24160},
 																label: "delimiter",
 																expr: &choiceExpr{
-																	pos: position{line: 739, col: 9, offset: 23776},
+																	pos: position{line: 751, col: 9, offset: 24180},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 753, col: 5, offset: 24268},
+																			pos: position{line: 765, col: 5, offset: 24672},
 																			run: (*parser).callonShortcutParagraph82,
 																			expr: &seqExpr{
-																				pos: position{line: 753, col: 5, offset: 24268},
+																				pos: position{line: 765, col: 5, offset: 24672},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 753, col: 5, offset: 24268},
+																						pos:   position{line: 765, col: 5, offset: 24672},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 753, col: 16, offset: 24279},
+																							pos: position{line: 765, col: 16, offset: 24683},
 																							run: (*parser).callonShortcutParagraph85,
 																							expr: &seqExpr{
-																								pos: position{line: 753, col: 16, offset: 24279},
+																								pos: position{line: 765, col: 16, offset: 24683},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 753, col: 16, offset: 24279},
+																										pos:        position{line: 765, col: 16, offset: 24683},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 753, col: 23, offset: 24286},
+																										pos: position{line: 765, col: 23, offset: 24690},
 																										expr: &litMatcher{
-																											pos:        position{line: 753, col: 23, offset: 24286},
+																											pos:        position{line: 765, col: 23, offset: 24690},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -39303,12 +39895,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 755, col: 8, offset: 24370},
+																						pos: position{line: 767, col: 8, offset: 24774},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92448},
+																							pos: position{line: 2934, col: 10, offset: 92852},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92448},
+																								pos:        position{line: 2934, col: 10, offset: 92852},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39317,28 +39909,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92846},
+																						pos: position{line: 2956, col: 8, offset: 93250},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92619},
+																								pos: position{line: 2943, col: 12, offset: 93023},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92620},
+																									pos: position{line: 2943, col: 13, offset: 93024},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92620},
+																											pos:        position{line: 2943, col: 13, offset: 93024},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92627},
+																											pos:        position{line: 2943, col: 20, offset: 93031},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92636},
+																											pos:        position{line: 2943, col: 29, offset: 93040},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39347,9 +39939,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92796},
+																								pos: position{line: 2953, col: 8, offset: 93200},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92797,
+																									line: 2953, col: 9, offset: 93201,
 																								},
 																							},
 																						},
@@ -39358,30 +39950,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 760, col: 5, offset: 24516},
+																			pos: position{line: 772, col: 5, offset: 24920},
 																			run: (*parser).callonShortcutParagraph101,
 																			expr: &seqExpr{
-																				pos: position{line: 760, col: 5, offset: 24516},
+																				pos: position{line: 772, col: 5, offset: 24920},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 760, col: 5, offset: 24516},
+																						pos:   position{line: 772, col: 5, offset: 24920},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 760, col: 16, offset: 24527},
+																							pos: position{line: 772, col: 16, offset: 24931},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &seqExpr{
-																								pos: position{line: 760, col: 16, offset: 24527},
+																								pos: position{line: 772, col: 16, offset: 24931},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 760, col: 16, offset: 24527},
+																										pos:        position{line: 772, col: 16, offset: 24931},
 																										val:        "====",
 																										ignoreCase: false,
 																										want:       "\"====\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 760, col: 23, offset: 24534},
+																										pos: position{line: 772, col: 23, offset: 24938},
 																										expr: &litMatcher{
-																											pos:        position{line: 760, col: 23, offset: 24534},
+																											pos:        position{line: 772, col: 23, offset: 24938},
 																											val:        "=",
 																											ignoreCase: false,
 																											want:       "\"=\"",
@@ -39392,12 +39984,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 762, col: 8, offset: 24618},
+																						pos: position{line: 774, col: 8, offset: 25022},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92448},
+																							pos: position{line: 2934, col: 10, offset: 92852},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92448},
+																								pos:        position{line: 2934, col: 10, offset: 92852},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39406,28 +39998,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92846},
+																						pos: position{line: 2956, col: 8, offset: 93250},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92619},
+																								pos: position{line: 2943, col: 12, offset: 93023},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92620},
+																									pos: position{line: 2943, col: 13, offset: 93024},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92620},
+																											pos:        position{line: 2943, col: 13, offset: 93024},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92627},
+																											pos:        position{line: 2943, col: 20, offset: 93031},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92636},
+																											pos:        position{line: 2943, col: 29, offset: 93040},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39436,9 +40028,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92796},
+																								pos: position{line: 2953, col: 8, offset: 93200},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92797,
+																									line: 2953, col: 9, offset: 93201,
 																								},
 																							},
 																						},
@@ -39447,27 +40039,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 773, col: 26, offset: 25004},
+																			pos: position{line: 785, col: 26, offset: 25408},
 																			run: (*parser).callonShortcutParagraph120,
 																			expr: &seqExpr{
-																				pos: position{line: 773, col: 26, offset: 25004},
+																				pos: position{line: 785, col: 26, offset: 25408},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 773, col: 26, offset: 25004},
+																						pos:        position{line: 785, col: 26, offset: 25408},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 773, col: 32, offset: 25010},
+																						pos:   position{line: 785, col: 32, offset: 25414},
 																						label: "language",
 																						expr: &actionExpr{
-																							pos: position{line: 777, col: 13, offset: 25140},
+																							pos: position{line: 789, col: 13, offset: 25544},
 																							run: (*parser).callonShortcutParagraph124,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 777, col: 14, offset: 25141},
+																								pos: position{line: 789, col: 14, offset: 25545},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 777, col: 14, offset: 25141},
+																									pos:        position{line: 789, col: 14, offset: 25545},
 																									val:        "[^\\r\\n` ]",
 																									chars:      []rune{'\r', '\n', '`', ' '},
 																									ignoreCase: false,
@@ -39477,12 +40069,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 773, col: 52, offset: 25030},
+																						pos: position{line: 785, col: 52, offset: 25434},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92448},
+																							pos: position{line: 2934, col: 10, offset: 92852},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92448},
+																								pos:        position{line: 2934, col: 10, offset: 92852},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39491,28 +40083,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92846},
+																						pos: position{line: 2956, col: 8, offset: 93250},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92619},
+																								pos: position{line: 2943, col: 12, offset: 93023},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92620},
+																									pos: position{line: 2943, col: 13, offset: 93024},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92620},
+																											pos:        position{line: 2943, col: 13, offset: 93024},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92627},
+																											pos:        position{line: 2943, col: 20, offset: 93031},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92636},
+																											pos:        position{line: 2943, col: 29, offset: 93040},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39521,9 +40113,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92796},
+																								pos: position{line: 2953, col: 8, offset: 93200},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92797,
+																									line: 2953, col: 9, offset: 93201,
 																								},
 																							},
 																						},
@@ -39532,30 +40124,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 767, col: 5, offset: 24763},
+																			pos: position{line: 779, col: 5, offset: 25167},
 																			run: (*parser).callonShortcutParagraph138,
 																			expr: &seqExpr{
-																				pos: position{line: 767, col: 5, offset: 24763},
+																				pos: position{line: 779, col: 5, offset: 25167},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 767, col: 5, offset: 24763},
+																						pos:   position{line: 779, col: 5, offset: 25167},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 767, col: 16, offset: 24774},
+																							pos: position{line: 779, col: 16, offset: 25178},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &seqExpr{
-																								pos: position{line: 767, col: 16, offset: 24774},
+																								pos: position{line: 779, col: 16, offset: 25178},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 767, col: 16, offset: 24774},
+																										pos:        position{line: 779, col: 16, offset: 25178},
 																										val:        "```",
 																										ignoreCase: false,
 																										want:       "\"```\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 767, col: 22, offset: 24780},
+																										pos: position{line: 779, col: 22, offset: 25184},
 																										expr: &litMatcher{
-																											pos:        position{line: 767, col: 22, offset: 24780},
+																											pos:        position{line: 779, col: 22, offset: 25184},
 																											val:        "`",
 																											ignoreCase: false,
 																											want:       "\"`\"",
@@ -39566,12 +40158,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 769, col: 8, offset: 24864},
+																						pos: position{line: 781, col: 8, offset: 25268},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92448},
+																							pos: position{line: 2934, col: 10, offset: 92852},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92448},
+																								pos:        position{line: 2934, col: 10, offset: 92852},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39580,28 +40172,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92846},
+																						pos: position{line: 2956, col: 8, offset: 93250},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92619},
+																								pos: position{line: 2943, col: 12, offset: 93023},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92620},
+																									pos: position{line: 2943, col: 13, offset: 93024},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92620},
+																											pos:        position{line: 2943, col: 13, offset: 93024},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92627},
+																											pos:        position{line: 2943, col: 20, offset: 93031},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92636},
+																											pos:        position{line: 2943, col: 29, offset: 93040},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39610,9 +40202,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92796},
+																								pos: position{line: 2953, col: 8, offset: 93200},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92797,
+																									line: 2953, col: 9, offset: 93201,
 																								},
 																							},
 																						},
@@ -39621,30 +40213,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 782, col: 5, offset: 25300},
+																			pos: position{line: 794, col: 5, offset: 25704},
 																			run: (*parser).callonShortcutParagraph157,
 																			expr: &seqExpr{
-																				pos: position{line: 782, col: 5, offset: 25300},
+																				pos: position{line: 794, col: 5, offset: 25704},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 782, col: 5, offset: 25300},
+																						pos:   position{line: 794, col: 5, offset: 25704},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 782, col: 16, offset: 25311},
+																							pos: position{line: 794, col: 16, offset: 25715},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &seqExpr{
-																								pos: position{line: 782, col: 16, offset: 25311},
+																								pos: position{line: 794, col: 16, offset: 25715},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 782, col: 16, offset: 25311},
+																										pos:        position{line: 794, col: 16, offset: 25715},
 																										val:        "----",
 																										ignoreCase: false,
 																										want:       "\"----\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 782, col: 23, offset: 25318},
+																										pos: position{line: 794, col: 23, offset: 25722},
 																										expr: &litMatcher{
-																											pos:        position{line: 782, col: 23, offset: 25318},
+																											pos:        position{line: 794, col: 23, offset: 25722},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
@@ -39655,12 +40247,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 784, col: 8, offset: 25402},
+																						pos: position{line: 796, col: 8, offset: 25806},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92448},
+																							pos: position{line: 2934, col: 10, offset: 92852},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92448},
+																								pos:        position{line: 2934, col: 10, offset: 92852},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39669,28 +40261,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92846},
+																						pos: position{line: 2956, col: 8, offset: 93250},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92619},
+																								pos: position{line: 2943, col: 12, offset: 93023},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92620},
+																									pos: position{line: 2943, col: 13, offset: 93024},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92620},
+																											pos:        position{line: 2943, col: 13, offset: 93024},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92627},
+																											pos:        position{line: 2943, col: 20, offset: 93031},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92636},
+																											pos:        position{line: 2943, col: 29, offset: 93040},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39699,9 +40291,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92796},
+																								pos: position{line: 2953, col: 8, offset: 93200},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92797,
+																									line: 2953, col: 9, offset: 93201,
 																								},
 																							},
 																						},
@@ -39710,30 +40302,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 796, col: 5, offset: 25776},
+																			pos: position{line: 808, col: 5, offset: 26180},
 																			run: (*parser).callonShortcutParagraph176,
 																			expr: &seqExpr{
-																				pos: position{line: 796, col: 5, offset: 25776},
+																				pos: position{line: 808, col: 5, offset: 26180},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 796, col: 5, offset: 25776},
+																						pos:   position{line: 808, col: 5, offset: 26180},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 796, col: 16, offset: 25787},
+																							pos: position{line: 808, col: 16, offset: 26191},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &seqExpr{
-																								pos: position{line: 796, col: 16, offset: 25787},
+																								pos: position{line: 808, col: 16, offset: 26191},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 796, col: 16, offset: 25787},
+																										pos:        position{line: 808, col: 16, offset: 26191},
 																										val:        "....",
 																										ignoreCase: false,
 																										want:       "\"....\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 796, col: 23, offset: 25794},
+																										pos: position{line: 808, col: 23, offset: 26198},
 																										expr: &litMatcher{
-																											pos:        position{line: 796, col: 23, offset: 25794},
+																											pos:        position{line: 808, col: 23, offset: 26198},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -39744,12 +40336,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 798, col: 8, offset: 25878},
+																						pos: position{line: 810, col: 8, offset: 26282},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92448},
+																							pos: position{line: 2934, col: 10, offset: 92852},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92448},
+																								pos:        position{line: 2934, col: 10, offset: 92852},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39758,28 +40350,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92846},
+																						pos: position{line: 2956, col: 8, offset: 93250},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92619},
+																								pos: position{line: 2943, col: 12, offset: 93023},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92620},
+																									pos: position{line: 2943, col: 13, offset: 93024},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92620},
+																											pos:        position{line: 2943, col: 13, offset: 93024},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92627},
+																											pos:        position{line: 2943, col: 20, offset: 93031},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92636},
+																											pos:        position{line: 2943, col: 29, offset: 93040},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39788,9 +40380,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92796},
+																								pos: position{line: 2953, col: 8, offset: 93200},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92797,
+																									line: 2953, col: 9, offset: 93201,
 																								},
 																							},
 																						},
@@ -39799,30 +40391,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 803, col: 5, offset: 26028},
+																			pos: position{line: 815, col: 5, offset: 26432},
 																			run: (*parser).callonShortcutParagraph195,
 																			expr: &seqExpr{
-																				pos: position{line: 803, col: 5, offset: 26028},
+																				pos: position{line: 815, col: 5, offset: 26432},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 803, col: 5, offset: 26028},
+																						pos:   position{line: 815, col: 5, offset: 26432},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 803, col: 16, offset: 26039},
+																							pos: position{line: 815, col: 16, offset: 26443},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &seqExpr{
-																								pos: position{line: 803, col: 16, offset: 26039},
+																								pos: position{line: 815, col: 16, offset: 26443},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 803, col: 16, offset: 26039},
+																										pos:        position{line: 815, col: 16, offset: 26443},
 																										val:        "++++",
 																										ignoreCase: false,
 																										want:       "\"++++\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 803, col: 23, offset: 26046},
+																										pos: position{line: 815, col: 23, offset: 26450},
 																										expr: &litMatcher{
-																											pos:        position{line: 803, col: 23, offset: 26046},
+																											pos:        position{line: 815, col: 23, offset: 26450},
 																											val:        "+",
 																											ignoreCase: false,
 																											want:       "\"+\"",
@@ -39833,12 +40425,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 805, col: 8, offset: 26130},
+																						pos: position{line: 817, col: 8, offset: 26534},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92448},
+																							pos: position{line: 2934, col: 10, offset: 92852},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92448},
+																								pos:        position{line: 2934, col: 10, offset: 92852},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39847,28 +40439,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92846},
+																						pos: position{line: 2956, col: 8, offset: 93250},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92619},
+																								pos: position{line: 2943, col: 12, offset: 93023},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92620},
+																									pos: position{line: 2943, col: 13, offset: 93024},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92620},
+																											pos:        position{line: 2943, col: 13, offset: 93024},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92627},
+																											pos:        position{line: 2943, col: 20, offset: 93031},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92636},
+																											pos:        position{line: 2943, col: 29, offset: 93040},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39877,9 +40469,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92796},
+																								pos: position{line: 2953, col: 8, offset: 93200},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92797,
+																									line: 2953, col: 9, offset: 93201,
 																								},
 																							},
 																						},
@@ -39888,30 +40480,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 810, col: 5, offset: 26278},
+																			pos: position{line: 822, col: 5, offset: 26682},
 																			run: (*parser).callonShortcutParagraph214,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 5, offset: 26278},
+																				pos: position{line: 822, col: 5, offset: 26682},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 810, col: 5, offset: 26278},
+																						pos:   position{line: 822, col: 5, offset: 26682},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 810, col: 16, offset: 26289},
+																							pos: position{line: 822, col: 16, offset: 26693},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &seqExpr{
-																								pos: position{line: 810, col: 16, offset: 26289},
+																								pos: position{line: 822, col: 16, offset: 26693},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 810, col: 16, offset: 26289},
+																										pos:        position{line: 822, col: 16, offset: 26693},
 																										val:        "____",
 																										ignoreCase: false,
 																										want:       "\"____\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 810, col: 23, offset: 26296},
+																										pos: position{line: 822, col: 23, offset: 26700},
 																										expr: &litMatcher{
-																											pos:        position{line: 810, col: 23, offset: 26296},
+																											pos:        position{line: 822, col: 23, offset: 26700},
 																											val:        "_",
 																											ignoreCase: false,
 																											want:       "\"_\"",
@@ -39922,12 +40514,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 812, col: 8, offset: 26380},
+																						pos: position{line: 824, col: 8, offset: 26784},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92448},
+																							pos: position{line: 2934, col: 10, offset: 92852},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92448},
+																								pos:        position{line: 2934, col: 10, offset: 92852},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39936,28 +40528,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92846},
+																						pos: position{line: 2956, col: 8, offset: 93250},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92619},
+																								pos: position{line: 2943, col: 12, offset: 93023},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92620},
+																									pos: position{line: 2943, col: 13, offset: 93024},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92620},
+																											pos:        position{line: 2943, col: 13, offset: 93024},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92627},
+																											pos:        position{line: 2943, col: 20, offset: 93031},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92636},
+																											pos:        position{line: 2943, col: 29, offset: 93040},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39966,9 +40558,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92796},
+																								pos: position{line: 2953, col: 8, offset: 93200},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92797,
+																									line: 2953, col: 9, offset: 93201,
 																								},
 																							},
 																						},
@@ -39977,30 +40569,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 817, col: 5, offset: 26524},
+																			pos: position{line: 829, col: 5, offset: 26928},
 																			run: (*parser).callonShortcutParagraph233,
 																			expr: &seqExpr{
-																				pos: position{line: 817, col: 5, offset: 26524},
+																				pos: position{line: 829, col: 5, offset: 26928},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 817, col: 5, offset: 26524},
+																						pos:   position{line: 829, col: 5, offset: 26928},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 817, col: 16, offset: 26535},
+																							pos: position{line: 829, col: 16, offset: 26939},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &seqExpr{
-																								pos: position{line: 817, col: 16, offset: 26535},
+																								pos: position{line: 829, col: 16, offset: 26939},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 817, col: 16, offset: 26535},
+																										pos:        position{line: 829, col: 16, offset: 26939},
 																										val:        "****",
 																										ignoreCase: false,
 																										want:       "\"****\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 817, col: 23, offset: 26542},
+																										pos: position{line: 829, col: 23, offset: 26946},
 																										expr: &litMatcher{
-																											pos:        position{line: 817, col: 23, offset: 26542},
+																											pos:        position{line: 829, col: 23, offset: 26946},
 																											val:        "*",
 																											ignoreCase: false,
 																											want:       "\"*\"",
@@ -40011,12 +40603,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 819, col: 8, offset: 26626},
+																						pos: position{line: 831, col: 8, offset: 27030},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92448},
+																							pos: position{line: 2934, col: 10, offset: 92852},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92448},
+																								pos:        position{line: 2934, col: 10, offset: 92852},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40025,28 +40617,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2944, col: 8, offset: 92846},
+																						pos: position{line: 2956, col: 8, offset: 93250},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2931, col: 12, offset: 92619},
+																								pos: position{line: 2943, col: 12, offset: 93023},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2931, col: 13, offset: 92620},
+																									pos: position{line: 2943, col: 13, offset: 93024},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 13, offset: 92620},
+																											pos:        position{line: 2943, col: 13, offset: 93024},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 20, offset: 92627},
+																											pos:        position{line: 2943, col: 20, offset: 93031},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2931, col: 29, offset: 92636},
+																											pos:        position{line: 2943, col: 29, offset: 93040},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40055,9 +40647,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2941, col: 8, offset: 92796},
+																								pos: position{line: 2953, col: 8, offset: 93200},
 																								expr: &anyMatcher{
-																									line: 2941, col: 9, offset: 92797,
+																									line: 2953, col: 9, offset: 93201,
 																								},
 																							},
 																						},
@@ -40073,23 +40665,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1781, col: 9, offset: 57870},
+												pos: position{line: 1793, col: 9, offset: 58274},
 												expr: &seqExpr{
-													pos: position{line: 1555, col: 27, offset: 50507},
+													pos: position{line: 1567, col: 27, offset: 50911},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1555, col: 27, offset: 50507},
+															pos:        position{line: 1567, col: 27, offset: 50911},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1555, col: 31, offset: 50511},
+															pos: position{line: 1567, col: 31, offset: 50915},
 															expr: &actionExpr{
-																pos: position{line: 2922, col: 10, offset: 92448},
+																pos: position{line: 2934, col: 10, offset: 92852},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2922, col: 10, offset: 92448},
+																	pos:        position{line: 2934, col: 10, offset: 92852},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40098,25 +40690,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92619},
+															pos: position{line: 2943, col: 12, offset: 93023},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92620},
+																pos: position{line: 2943, col: 13, offset: 93024},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92620},
+																		pos:        position{line: 2943, col: 13, offset: 93024},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92627},
+																		pos:        position{line: 2943, col: 20, offset: 93031},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92636},
+																		pos:        position{line: 2943, col: 29, offset: 93040},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40128,42 +40720,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1782, col: 9, offset: 57902},
+												pos:   position{line: 1794, col: 9, offset: 58306},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1782, col: 15, offset: 57908},
+													pos: position{line: 1794, col: 15, offset: 58312},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81226},
+															pos: position{line: 2537, col: 22, offset: 81630},
 															run: (*parser).callonShortcutParagraph265,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81226},
+																pos: position{line: 2537, col: 22, offset: 81630},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81476},
+																		pos:        position{line: 2542, col: 31, offset: 81880},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81481},
+																		pos: position{line: 2542, col: 36, offset: 81885},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81482},
+																			pos:        position{line: 2542, col: 37, offset: 81886},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81253},
+																		pos:   position{line: 2537, col: 49, offset: 81657},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 13, offset: 90974},
+																			pos: position{line: 2880, col: 13, offset: 91378},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2868, col: 13, offset: 90974},
+																				pos: position{line: 2880, col: 13, offset: 91378},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 13, offset: 90974},
+																					pos:        position{line: 2880, col: 13, offset: 91378},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40173,28 +40765,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92846},
+																		pos: position{line: 2956, col: 8, offset: 93250},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
+																				pos: position{line: 2943, col: 12, offset: 93023},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40203,9 +40795,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92796},
+																				pos: position{line: 2953, col: 8, offset: 93200},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92797,
+																					line: 2953, col: 9, offset: 93201,
 																				},
 																			},
 																		},
@@ -40214,21 +40806,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1804, col: 5, offset: 58508},
+															pos: position{line: 1816, col: 5, offset: 58912},
 															run: (*parser).callonShortcutParagraph282,
 															expr: &seqExpr{
-																pos: position{line: 1804, col: 5, offset: 58508},
+																pos: position{line: 1816, col: 5, offset: 58912},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1804, col: 5, offset: 58508},
+																		pos:   position{line: 1816, col: 5, offset: 58912},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 14, offset: 91041},
+																			pos: position{line: 2884, col: 14, offset: 91445},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2872, col: 14, offset: 91041},
+																				pos: position{line: 2884, col: 14, offset: 91445},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 14, offset: 91041},
+																					pos:        position{line: 2884, col: 14, offset: 91445},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40238,32 +40830,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1805, col: 5, offset: 58532},
+																		pos: position{line: 1817, col: 5, offset: 58936},
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92846},
+																		pos: position{line: 2956, col: 8, offset: 93250},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
+																				pos: position{line: 2943, col: 12, offset: 93023},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40272,9 +40864,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92796},
+																				pos: position{line: 2953, col: 8, offset: 93200},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92797,
+																					line: 2953, col: 9, offset: 93201,
 																				},
 																			},
 																		},
@@ -40296,96 +40888,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1789, col: 1, offset: 58112},
+			pos:  position{line: 1801, col: 1, offset: 58516},
 			expr: &actionExpr{
-				pos: position{line: 1790, col: 5, offset: 58130},
+				pos: position{line: 1802, col: 5, offset: 58534},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1790, col: 5, offset: 58130},
+					pos: position{line: 1802, col: 5, offset: 58534},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1790, col: 5, offset: 58130},
+							pos:   position{line: 1802, col: 5, offset: 58534},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1790, col: 11, offset: 58136},
+								pos: position{line: 1802, col: 11, offset: 58540},
 								expr: &actionExpr{
-									pos: position{line: 1745, col: 5, offset: 56642},
+									pos: position{line: 1757, col: 5, offset: 57046},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1745, col: 5, offset: 56642},
+										pos: position{line: 1757, col: 5, offset: 57046},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1745, col: 5, offset: 56642},
+												pos: position{line: 1757, col: 5, offset: 57046},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1748, col: 5, offset: 56705},
+												pos:   position{line: 1760, col: 5, offset: 57109},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1748, col: 12, offset: 56712},
+													pos: position{line: 1760, col: 12, offset: 57116},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1748, col: 12, offset: 56712},
+															pos: position{line: 1760, col: 12, offset: 57116},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1748, col: 12, offset: 56712},
+																pos:        position{line: 1760, col: 12, offset: 57116},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1750, col: 13, offset: 56768},
+															pos: position{line: 1762, col: 13, offset: 57172},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1750, col: 13, offset: 56768},
+																pos:        position{line: 1762, col: 13, offset: 57172},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1752, col: 13, offset: 56826},
+															pos: position{line: 1764, col: 13, offset: 57230},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1752, col: 13, offset: 56826},
+																pos:        position{line: 1764, col: 13, offset: 57230},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1754, col: 13, offset: 56894},
+															pos: position{line: 1766, col: 13, offset: 57298},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1754, col: 13, offset: 56894},
+																pos:        position{line: 1766, col: 13, offset: 57298},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1756, col: 13, offset: 56958},
+															pos: position{line: 1768, col: 13, offset: 57362},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1756, col: 13, offset: 56958},
+																pos:        position{line: 1768, col: 13, offset: 57362},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1758, col: 13, offset: 57022},
+															pos: position{line: 1770, col: 13, offset: 57426},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1758, col: 13, offset: 57022},
+																pos: position{line: 1770, col: 13, offset: 57426},
 																expr: &actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92509},
+																	pos: position{line: 2938, col: 11, offset: 92913},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2926, col: 11, offset: 92509},
+																		pos: position{line: 2938, col: 11, offset: 92913},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92509},
+																			pos:        position{line: 2938, col: 11, offset: 92913},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40404,24 +40996,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1791, col: 5, offset: 58159},
+							pos:   position{line: 1803, col: 5, offset: 58563},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1804, col: 5, offset: 58508},
+								pos: position{line: 1816, col: 5, offset: 58912},
 								run: (*parser).callonParagraph26,
 								expr: &seqExpr{
-									pos: position{line: 1804, col: 5, offset: 58508},
+									pos: position{line: 1816, col: 5, offset: 58912},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1804, col: 5, offset: 58508},
+											pos:   position{line: 1816, col: 5, offset: 58912},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2872, col: 14, offset: 91041},
+												pos: position{line: 2884, col: 14, offset: 91445},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2872, col: 14, offset: 91041},
+													pos: position{line: 2884, col: 14, offset: 91445},
 													expr: &charClassMatcher{
-														pos:        position{line: 2872, col: 14, offset: 91041},
+														pos:        position{line: 2884, col: 14, offset: 91445},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40431,32 +41023,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1805, col: 5, offset: 58532},
+											pos: position{line: 1817, col: 5, offset: 58936},
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2944, col: 8, offset: 92846},
+											pos: position{line: 2956, col: 8, offset: 93250},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2931, col: 12, offset: 92619},
+													pos: position{line: 2943, col: 12, offset: 93023},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2931, col: 13, offset: 92620},
+														pos: position{line: 2943, col: 13, offset: 93024},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2931, col: 13, offset: 92620},
+																pos:        position{line: 2943, col: 13, offset: 93024},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2931, col: 20, offset: 92627},
+																pos:        position{line: 2943, col: 20, offset: 93031},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2931, col: 29, offset: 92636},
+																pos:        position{line: 2943, col: 29, offset: 93040},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40465,9 +41057,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2941, col: 8, offset: 92796},
+													pos: position{line: 2953, col: 8, offset: 93200},
 													expr: &anyMatcher{
-														line: 2941, col: 9, offset: 92797,
+														line: 2953, col: 9, offset: 93201,
 													},
 												},
 											},
@@ -40477,43 +41069,43 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1792, col: 5, offset: 58193},
+							pos:   position{line: 1804, col: 5, offset: 58597},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1792, col: 16, offset: 58204},
+								pos: position{line: 1804, col: 16, offset: 58608},
 								expr: &actionExpr{
-									pos: position{line: 1793, col: 9, offset: 58214},
+									pos: position{line: 1805, col: 9, offset: 58618},
 									run: (*parser).callonParagraph43,
 									expr: &seqExpr{
-										pos: position{line: 1793, col: 9, offset: 58214},
+										pos: position{line: 1805, col: 9, offset: 58618},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2939, col: 11, offset: 92782},
+												pos: position{line: 2951, col: 11, offset: 93186},
 												expr: &anyMatcher{
-													line: 2939, col: 13, offset: 92784,
+													line: 2951, col: 13, offset: 93188,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1794, col: 9, offset: 58229},
+												pos: position{line: 1806, col: 9, offset: 58633},
 												expr: &actionExpr{
-													pos: position{line: 690, col: 14, offset: 22173},
+													pos: position{line: 702, col: 14, offset: 22577},
 													run: (*parser).callonParagraph48,
 													expr: &seqExpr{
-														pos: position{line: 690, col: 14, offset: 22173},
+														pos: position{line: 702, col: 14, offset: 22577},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2939, col: 11, offset: 92782},
+																pos: position{line: 2951, col: 11, offset: 93186},
 																expr: &anyMatcher{
-																	line: 2939, col: 13, offset: 92784,
+																	line: 2951, col: 13, offset: 93188,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 690, col: 21, offset: 22180},
+																pos: position{line: 702, col: 21, offset: 22584},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92448},
+																	pos: position{line: 2934, col: 10, offset: 92852},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92448},
+																		pos:        position{line: 2934, col: 10, offset: 92852},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40522,28 +41114,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2944, col: 8, offset: 92846},
+																pos: position{line: 2956, col: 8, offset: 93250},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2931, col: 12, offset: 92619},
+																		pos: position{line: 2943, col: 12, offset: 93023},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2931, col: 13, offset: 92620},
+																			pos: position{line: 2943, col: 13, offset: 93024},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 13, offset: 92620},
+																					pos:        position{line: 2943, col: 13, offset: 93024},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 20, offset: 92627},
+																					pos:        position{line: 2943, col: 20, offset: 93031},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2931, col: 29, offset: 92636},
+																					pos:        position{line: 2943, col: 29, offset: 93040},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40552,9 +41144,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2941, col: 8, offset: 92796},
+																		pos: position{line: 2953, col: 8, offset: 93200},
 																		expr: &anyMatcher{
-																			line: 2941, col: 9, offset: 92797,
+																			line: 2953, col: 9, offset: 93201,
 																		},
 																	},
 																},
@@ -40564,49 +41156,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1795, col: 9, offset: 58248},
+												pos: position{line: 1807, col: 9, offset: 58652},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1795, col: 10, offset: 58249},
+													pos:  position{line: 1807, col: 10, offset: 58653},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1796, col: 9, offset: 58273},
+												pos:   position{line: 1808, col: 9, offset: 58677},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1796, col: 15, offset: 58279},
+													pos: position{line: 1808, col: 15, offset: 58683},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81226},
+															pos: position{line: 2537, col: 22, offset: 81630},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81226},
+																pos: position{line: 2537, col: 22, offset: 81630},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81476},
+																		pos:        position{line: 2542, col: 31, offset: 81880},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81481},
+																		pos: position{line: 2542, col: 36, offset: 81885},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81482},
+																			pos:        position{line: 2542, col: 37, offset: 81886},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81253},
+																		pos:   position{line: 2537, col: 49, offset: 81657},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 13, offset: 90974},
+																			pos: position{line: 2880, col: 13, offset: 91378},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2868, col: 13, offset: 90974},
+																				pos: position{line: 2880, col: 13, offset: 91378},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 13, offset: 90974},
+																					pos:        position{line: 2880, col: 13, offset: 91378},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40616,28 +41208,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92846},
+																		pos: position{line: 2956, col: 8, offset: 93250},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
+																				pos: position{line: 2943, col: 12, offset: 93023},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40646,9 +41238,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92796},
+																				pos: position{line: 2953, col: 8, offset: 93200},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92797,
+																					line: 2953, col: 9, offset: 93201,
 																				},
 																			},
 																		},
@@ -40657,21 +41249,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1804, col: 5, offset: 58508},
+															pos: position{line: 1816, col: 5, offset: 58912},
 															run: (*parser).callonParagraph84,
 															expr: &seqExpr{
-																pos: position{line: 1804, col: 5, offset: 58508},
+																pos: position{line: 1816, col: 5, offset: 58912},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1804, col: 5, offset: 58508},
+																		pos:   position{line: 1816, col: 5, offset: 58912},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 14, offset: 91041},
+																			pos: position{line: 2884, col: 14, offset: 91445},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2872, col: 14, offset: 91041},
+																				pos: position{line: 2884, col: 14, offset: 91445},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 14, offset: 91041},
+																					pos:        position{line: 2884, col: 14, offset: 91445},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40681,32 +41273,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1805, col: 5, offset: 58532},
+																		pos: position{line: 1817, col: 5, offset: 58936},
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2944, col: 8, offset: 92846},
+																		pos: position{line: 2956, col: 8, offset: 93250},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
+																				pos: position{line: 2943, col: 12, offset: 93023},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40715,9 +41307,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2941, col: 8, offset: 92796},
+																				pos: position{line: 2953, col: 8, offset: 93200},
 																				expr: &anyMatcher{
-																					line: 2941, col: 9, offset: 92797,
+																					line: 2953, col: 9, offset: 93201,
 																				},
 																			},
 																		},
@@ -40739,16 +41331,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1815, col: 1, offset: 59018},
+			pos:  position{line: 1827, col: 1, offset: 59422},
 			expr: &choiceExpr{
-				pos: position{line: 1815, col: 15, offset: 59032},
+				pos: position{line: 1827, col: 15, offset: 59436},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1815, col: 15, offset: 59032},
+						pos:  position{line: 1827, col: 15, offset: 59436},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1815, col: 35, offset: 59052},
+						pos:  position{line: 1827, col: 35, offset: 59456},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -40756,65 +41348,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1817, col: 1, offset: 59073},
+			pos:  position{line: 1829, col: 1, offset: 59477},
 			expr: &actionExpr{
-				pos: position{line: 1818, col: 5, offset: 59098},
+				pos: position{line: 1830, col: 5, offset: 59502},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1818, col: 5, offset: 59098},
+					pos: position{line: 1830, col: 5, offset: 59502},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1818, col: 5, offset: 59098},
+							pos:   position{line: 1830, col: 5, offset: 59502},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1818, col: 16, offset: 59109},
+								pos: position{line: 1830, col: 16, offset: 59513},
 								expr: &actionExpr{
-									pos: position{line: 1818, col: 17, offset: 59110},
+									pos: position{line: 1830, col: 17, offset: 59514},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1818, col: 17, offset: 59110},
+										pos:  position{line: 1830, col: 17, offset: 59514},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1821, col: 5, offset: 59178},
+							pos: position{line: 1833, col: 5, offset: 59582},
 							expr: &litMatcher{
-								pos:        position{line: 1821, col: 7, offset: 59180},
+								pos:        position{line: 1833, col: 7, offset: 59584},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1822, col: 5, offset: 59189},
+							pos:   position{line: 1834, col: 5, offset: 59593},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1823, col: 9, offset: 59207},
+								pos: position{line: 1835, col: 9, offset: 59611},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1823, col: 9, offset: 59207},
+										pos:  position{line: 1835, col: 9, offset: 59611},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1824, col: 11, offset: 59234},
+										pos:  position{line: 1836, col: 11, offset: 59638},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1825, col: 11, offset: 59262},
+										pos:  position{line: 1837, col: 11, offset: 59666},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1826, col: 11, offset: 59293},
+										pos:  position{line: 1838, col: 11, offset: 59697},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1827, col: 11, offset: 59321},
+										pos:  position{line: 1839, col: 11, offset: 59725},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1828, col: 11, offset: 59352},
+										pos:  position{line: 1840, col: 11, offset: 59756},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -40826,36 +41418,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1833, col: 1, offset: 59472},
+			pos:  position{line: 1845, col: 1, offset: 59876},
 			expr: &actionExpr{
-				pos: position{line: 1834, col: 5, offset: 59514},
+				pos: position{line: 1846, col: 5, offset: 59918},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1834, col: 5, offset: 59514},
+					pos: position{line: 1846, col: 5, offset: 59918},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1834, col: 5, offset: 59514},
+							pos:   position{line: 1846, col: 5, offset: 59918},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1834, col: 16, offset: 59525},
+								pos: position{line: 1846, col: 16, offset: 59929},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1834, col: 17, offset: 59526},
+									pos:  position{line: 1846, col: 17, offset: 59930},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1835, col: 5, offset: 59551},
+							pos:   position{line: 1847, col: 5, offset: 59955},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1835, col: 14, offset: 59560},
+								pos: position{line: 1847, col: 14, offset: 59964},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1835, col: 14, offset: 59560},
+										pos:  position{line: 1847, col: 14, offset: 59964},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1835, col: 33, offset: 59579},
+										pos:  position{line: 1847, col: 33, offset: 59983},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -40867,32 +41459,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1843, col: 1, offset: 59810},
+			pos:  position{line: 1855, col: 1, offset: 60214},
 			expr: &choiceExpr{
-				pos: position{line: 1844, col: 5, offset: 59835},
+				pos: position{line: 1856, col: 5, offset: 60239},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1844, col: 5, offset: 59835},
+						pos:  position{line: 1856, col: 5, offset: 60239},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1845, col: 7, offset: 59862},
+						pos:  position{line: 1857, col: 7, offset: 60266},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1846, col: 7, offset: 59890},
+						pos:  position{line: 1858, col: 7, offset: 60294},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1847, col: 7, offset: 59922},
+						pos:  position{line: 1859, col: 7, offset: 60326},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1848, col: 7, offset: 59950},
+						pos:  position{line: 1860, col: 7, offset: 60354},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1849, col: 7, offset: 59971},
+						pos:  position{line: 1861, col: 7, offset: 60375},
 						name: "SuperscriptText",
 					},
 				},
@@ -40900,24 +41492,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1851, col: 1, offset: 59989},
+			pos:  position{line: 1863, col: 1, offset: 60393},
 			expr: &choiceExpr{
-				pos: position{line: 1852, col: 5, offset: 60014},
+				pos: position{line: 1864, col: 5, offset: 60418},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1852, col: 5, offset: 60014},
+						pos:  position{line: 1864, col: 5, offset: 60418},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1853, col: 7, offset: 60040},
+						pos:  position{line: 1865, col: 7, offset: 60444},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1854, col: 7, offset: 60068},
+						pos:  position{line: 1866, col: 7, offset: 60472},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1855, col: 7, offset: 60099},
+						pos:  position{line: 1867, col: 7, offset: 60503},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -40925,26 +41517,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1869, col: 1, offset: 60453},
+			pos:  position{line: 1881, col: 1, offset: 60857},
 			expr: &choiceExpr{
-				pos: position{line: 1870, col: 5, offset: 60479},
+				pos: position{line: 1882, col: 5, offset: 60883},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2821, col: 5, offset: 89690},
+						pos: position{line: 2833, col: 5, offset: 90094},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2821, col: 5, offset: 89690},
+							pos: position{line: 2833, col: 5, offset: 90094},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2821, col: 5, offset: 89690},
+									pos:   position{line: 2833, col: 5, offset: 90094},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2821, col: 11, offset: 89696},
+										pos: position{line: 2833, col: 11, offset: 90100},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2821, col: 11, offset: 89696},
+											pos: position{line: 2833, col: 11, offset: 90100},
 											expr: &charClassMatcher{
-												pos:        position{line: 2821, col: 11, offset: 89696},
+												pos:        position{line: 2833, col: 11, offset: 90100},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40954,36 +41546,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2824, col: 5, offset: 89754},
+									pos: position{line: 2836, col: 5, offset: 90158},
 									expr: &seqExpr{
-										pos: position{line: 2825, col: 9, offset: 89765},
+										pos: position{line: 2837, col: 9, offset: 90169},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2825, col: 9, offset: 89765},
+												pos:        position{line: 2837, col: 9, offset: 90169},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2826, col: 9, offset: 89814},
+												pos: position{line: 2838, col: 9, offset: 90218},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2830, col: 5, offset: 89894},
+									pos: position{line: 2842, col: 5, offset: 90298},
 									expr: &seqExpr{
-										pos: position{line: 2831, col: 9, offset: 89905},
+										pos: position{line: 2843, col: 9, offset: 90309},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2831, col: 9, offset: 89905},
+												pos:        position{line: 2843, col: 9, offset: 90309},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2831, col: 13, offset: 89909},
+												pos:        position{line: 2843, col: 13, offset: 90313},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40996,12 +41588,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2926, col: 11, offset: 92509},
+						pos: position{line: 2938, col: 11, offset: 92913},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2926, col: 11, offset: 92509},
+							pos: position{line: 2938, col: 11, offset: 92913},
 							expr: &charClassMatcher{
-								pos:        position{line: 2926, col: 11, offset: 92509},
+								pos:        position{line: 2938, col: 11, offset: 92913},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -41010,25 +41602,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1872, col: 7, offset: 60542},
+						pos:  position{line: 1884, col: 7, offset: 60946},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2543, col: 5, offset: 81971},
+						pos: position{line: 2555, col: 5, offset: 82375},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2543, col: 5, offset: 81971},
+							pos: position{line: 2555, col: 5, offset: 82375},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2543, col: 5, offset: 81971},
+									pos:        position{line: 2555, col: 5, offset: 82375},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2543, col: 10, offset: 81976},
+									pos: position{line: 2555, col: 10, offset: 82380},
 									expr: &charClassMatcher{
-										pos:        position{line: 2543, col: 11, offset: 81977},
+										pos:        position{line: 2555, col: 11, offset: 82381},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41039,29 +41631,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2549, col: 5, offset: 82169},
+						pos: position{line: 2561, col: 5, offset: 82573},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2549, col: 5, offset: 82169},
+							pos: position{line: 2561, col: 5, offset: 82573},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2549, col: 5, offset: 82169},
+									pos: position{line: 2561, col: 5, offset: 82573},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2552, col: 5, offset: 82240},
+									pos: position{line: 2564, col: 5, offset: 82644},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2556, col: 5, offset: 82365},
+									pos:        position{line: 2568, col: 5, offset: 82769},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2556, col: 9, offset: 82369},
+									pos: position{line: 2568, col: 9, offset: 82773},
 									expr: &charClassMatcher{
-										pos:        position{line: 2556, col: 10, offset: 82370},
+										pos:        position{line: 2568, col: 10, offset: 82774},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41072,27 +41664,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2839, col: 5, offset: 90102},
+						pos: position{line: 2851, col: 5, offset: 90506},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2840, col: 9, offset: 90112},
+							pos: position{line: 2852, col: 9, offset: 90516},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2840, col: 10, offset: 90113},
+									pos:        position{line: 2852, col: 10, offset: 90517},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2842, col: 13, offset: 90210},
+									pos: position{line: 2854, col: 13, offset: 90614},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2842, col: 13, offset: 90210},
+											pos: position{line: 2854, col: 13, offset: 90614},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2845, col: 13, offset: 90310},
+											pos:        position{line: 2857, col: 13, offset: 90714},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -41100,20 +41692,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2845, col: 19, offset: 90316},
+									pos:        position{line: 2857, col: 19, offset: 90720},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2848, col: 13, offset: 90354},
+									pos: position{line: 2860, col: 13, offset: 90758},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2848, col: 13, offset: 90354},
+											pos: position{line: 2860, col: 13, offset: 90758},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2851, col: 14, offset: 90447},
+											pos:        position{line: 2863, col: 14, offset: 90851},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -41122,18 +41714,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2853, col: 12, offset: 90491},
+									pos: position{line: 2865, col: 12, offset: 90895},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2853, col: 12, offset: 90491},
+											pos:        position{line: 2865, col: 12, offset: 90895},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2853, col: 16, offset: 90495},
+											pos: position{line: 2865, col: 16, offset: 90899},
 											expr: &litMatcher{
-												pos:        position{line: 2853, col: 17, offset: 90496},
+												pos:        position{line: 2865, col: 17, offset: 90900},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -41145,35 +41737,35 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 649, col: 5, offset: 20791},
+						pos: position{line: 661, col: 5, offset: 21195},
 						run: (*parser).callonQuotedTextElement46,
 						expr: &seqExpr{
-							pos: position{line: 649, col: 5, offset: 20791},
+							pos: position{line: 661, col: 5, offset: 21195},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 649, col: 5, offset: 20791},
+									pos: position{line: 661, col: 5, offset: 21195},
 									run: (*parser).callonQuotedTextElement48,
 								},
 								&labeledExpr{
-									pos:   position{line: 652, col: 5, offset: 20863},
+									pos:   position{line: 664, col: 5, offset: 21267},
 									label: "element",
 									expr: &choiceExpr{
-										pos: position{line: 652, col: 14, offset: 20872},
+										pos: position{line: 664, col: 14, offset: 21276},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 658, col: 5, offset: 21001},
+												pos: position{line: 670, col: 5, offset: 21405},
 												run: (*parser).callonQuotedTextElement51,
 												expr: &seqExpr{
-													pos: position{line: 658, col: 5, offset: 21001},
+													pos: position{line: 670, col: 5, offset: 21405},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 658, col: 5, offset: 21001},
+															pos:        position{line: 670, col: 5, offset: 21405},
 															val:        "\\{",
 															ignoreCase: false,
 															want:       "\"\\\\{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 658, col: 13, offset: 21009},
+															pos:   position{line: 670, col: 13, offset: 21413},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 320, col: 18, offset: 9837},
@@ -41205,7 +41797,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 658, col: 32, offset: 21028},
+															pos:        position{line: 670, col: 32, offset: 21432},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41214,19 +41806,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 665, col: 5, offset: 21269},
+												pos: position{line: 677, col: 5, offset: 21673},
 												run: (*parser).callonQuotedTextElement61,
 												expr: &seqExpr{
-													pos: position{line: 665, col: 5, offset: 21269},
+													pos: position{line: 677, col: 5, offset: 21673},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 665, col: 5, offset: 21269},
+															pos:        position{line: 677, col: 5, offset: 21673},
 															val:        "{",
 															ignoreCase: false,
 															want:       "\"{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 665, col: 9, offset: 21273},
+															pos:   position{line: 677, col: 9, offset: 21677},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 320, col: 18, offset: 9837},
@@ -41258,7 +41850,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 665, col: 28, offset: 21292},
+															pos:        position{line: 677, col: 28, offset: 21696},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41267,19 +41859,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 671, col: 25, offset: 21473},
+												pos: position{line: 683, col: 25, offset: 21877},
 												run: (*parser).callonQuotedTextElement71,
 												expr: &seqExpr{
-													pos: position{line: 671, col: 25, offset: 21473},
+													pos: position{line: 683, col: 25, offset: 21877},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 671, col: 25, offset: 21473},
+															pos:        position{line: 683, col: 25, offset: 21877},
 															val:        "{counter:",
 															ignoreCase: false,
 															want:       "\"{counter:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 671, col: 37, offset: 21485},
+															pos:   position{line: 683, col: 37, offset: 21889},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 320, col: 18, offset: 9837},
@@ -41311,33 +41903,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 671, col: 56, offset: 21504},
+															pos:   position{line: 683, col: 56, offset: 21908},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 671, col: 62, offset: 21510},
+																pos: position{line: 683, col: 62, offset: 21914},
 																expr: &actionExpr{
-																	pos: position{line: 679, col: 17, offset: 21807},
+																	pos: position{line: 691, col: 17, offset: 22211},
 																	run: (*parser).callonQuotedTextElement82,
 																	expr: &seqExpr{
-																		pos: position{line: 679, col: 17, offset: 21807},
+																		pos: position{line: 691, col: 17, offset: 22211},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 679, col: 17, offset: 21807},
+																				pos:        position{line: 691, col: 17, offset: 22211},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 679, col: 21, offset: 21811},
+																				pos:   position{line: 691, col: 21, offset: 22215},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 679, col: 28, offset: 21818},
+																					pos: position{line: 691, col: 28, offset: 22222},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 679, col: 28, offset: 21818},
+																							pos: position{line: 691, col: 28, offset: 22222},
 																							run: (*parser).callonQuotedTextElement87,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 679, col: 28, offset: 21818},
+																								pos:        position{line: 691, col: 28, offset: 22222},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -41345,12 +41937,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 681, col: 9, offset: 21872},
+																							pos: position{line: 693, col: 9, offset: 22276},
 																							run: (*parser).callonQuotedTextElement89,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 681, col: 9, offset: 21872},
+																								pos: position{line: 693, col: 9, offset: 22276},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 681, col: 9, offset: 21872},
+																									pos:        position{line: 693, col: 9, offset: 22276},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -41367,7 +41959,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 671, col: 78, offset: 21526},
+															pos:        position{line: 683, col: 78, offset: 21930},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41376,19 +41968,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 675, col: 25, offset: 21644},
+												pos: position{line: 687, col: 25, offset: 22048},
 												run: (*parser).callonQuotedTextElement93,
 												expr: &seqExpr{
-													pos: position{line: 675, col: 25, offset: 21644},
+													pos: position{line: 687, col: 25, offset: 22048},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 675, col: 25, offset: 21644},
+															pos:        position{line: 687, col: 25, offset: 22048},
 															val:        "{counter2:",
 															ignoreCase: false,
 															want:       "\"{counter2:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 675, col: 38, offset: 21657},
+															pos:   position{line: 687, col: 38, offset: 22061},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 320, col: 18, offset: 9837},
@@ -41420,33 +42012,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 675, col: 57, offset: 21676},
+															pos:   position{line: 687, col: 57, offset: 22080},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 675, col: 63, offset: 21682},
+																pos: position{line: 687, col: 63, offset: 22086},
 																expr: &actionExpr{
-																	pos: position{line: 679, col: 17, offset: 21807},
+																	pos: position{line: 691, col: 17, offset: 22211},
 																	run: (*parser).callonQuotedTextElement104,
 																	expr: &seqExpr{
-																		pos: position{line: 679, col: 17, offset: 21807},
+																		pos: position{line: 691, col: 17, offset: 22211},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 679, col: 17, offset: 21807},
+																				pos:        position{line: 691, col: 17, offset: 22211},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 679, col: 21, offset: 21811},
+																				pos:   position{line: 691, col: 21, offset: 22215},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 679, col: 28, offset: 21818},
+																					pos: position{line: 691, col: 28, offset: 22222},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 679, col: 28, offset: 21818},
+																							pos: position{line: 691, col: 28, offset: 22222},
 																							run: (*parser).callonQuotedTextElement109,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 679, col: 28, offset: 21818},
+																								pos:        position{line: 691, col: 28, offset: 22222},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -41454,12 +42046,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 681, col: 9, offset: 21872},
+																							pos: position{line: 693, col: 9, offset: 22276},
 																							run: (*parser).callonQuotedTextElement111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 681, col: 9, offset: 21872},
+																								pos: position{line: 693, col: 9, offset: 22276},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 681, col: 9, offset: 21872},
+																									pos:        position{line: 693, col: 9, offset: 22276},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -41476,7 +42068,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 675, col: 79, offset: 21698},
+															pos:        position{line: 687, col: 79, offset: 22102},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41491,31 +42083,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2935, col: 18, offset: 92719},
+						pos: position{line: 2947, col: 18, offset: 93123},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2935, col: 18, offset: 92719},
+							pos: position{line: 2947, col: 18, offset: 93123},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92619},
+									pos: position{line: 2943, col: 12, offset: 93023},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92620},
+										pos: position{line: 2943, col: 13, offset: 93024},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92620},
+												pos:        position{line: 2943, col: 13, offset: 93024},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92627},
+												pos:        position{line: 2943, col: 20, offset: 93031},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92636},
+												pos:        position{line: 2943, col: 29, offset: 93040},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41524,27 +42116,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2935, col: 26, offset: 92727},
+									pos: position{line: 2947, col: 26, offset: 93131},
 									expr: &actionExpr{
-										pos: position{line: 2931, col: 12, offset: 92619},
+										pos: position{line: 2943, col: 12, offset: 93023},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2931, col: 13, offset: 92620},
+											pos: position{line: 2943, col: 13, offset: 93024},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2931, col: 13, offset: 92620},
+													pos:        position{line: 2943, col: 13, offset: 93024},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 20, offset: 92627},
+													pos:        position{line: 2943, col: 20, offset: 93031},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 29, offset: 92636},
+													pos:        position{line: 2943, col: 29, offset: 93040},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41557,31 +42149,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1877, col: 7, offset: 60709},
+						pos:  position{line: 1889, col: 7, offset: 61113},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1878, col: 7, offset: 60756},
+						pos:  position{line: 1890, col: 7, offset: 61160},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2512, col: 5, offset: 80772},
+						pos: position{line: 2524, col: 5, offset: 81176},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2512, col: 5, offset: 80772},
+							pos: position{line: 2524, col: 5, offset: 81176},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2512, col: 5, offset: 80772},
+									pos: position{line: 2524, col: 5, offset: 81176},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2515, col: 5, offset: 80848},
+									pos:   position{line: 2527, col: 5, offset: 81252},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2516, col: 9, offset: 80866},
+										pos: position{line: 2528, col: 9, offset: 81270},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2516, col: 10, offset: 80867},
+											pos:        position{line: 2528, col: 10, offset: 81271},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -41593,27 +42185,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1211, col: 23, offset: 37656},
+						pos: position{line: 1223, col: 23, offset: 38060},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 1211, col: 23, offset: 37656},
+							pos: position{line: 1223, col: 23, offset: 38060},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1209, col: 32, offset: 37624},
+									pos:        position{line: 1221, col: 32, offset: 38028},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1211, col: 51, offset: 37684},
+									pos:   position{line: 1223, col: 51, offset: 38088},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1211, col: 56, offset: 37689},
+										pos: position{line: 1223, col: 56, offset: 38093},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1211, col: 56, offset: 37689},
+											pos: position{line: 1223, col: 56, offset: 38093},
 											expr: &charClassMatcher{
-												pos:        position{line: 1211, col: 56, offset: 37689},
+												pos:        position{line: 1223, col: 56, offset: 38093},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -41623,23 +42215,23 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1209, col: 32, offset: 37624},
+									pos:        position{line: 1221, col: 32, offset: 38028},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 1211, col: 123, offset: 37756},
+									pos: position{line: 1223, col: 123, offset: 38160},
 									run: (*parser).callonQuotedTextElement144,
 								},
 							},
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2861, col: 12, offset: 90756},
+						pos: position{line: 2873, col: 12, offset: 91160},
 						run: (*parser).callonQuotedTextElement145,
 						expr: &charClassMatcher{
-							pos:        position{line: 2861, col: 12, offset: 90756},
+							pos:        position{line: 2873, col: 12, offset: 91160},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41651,29 +42243,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1896, col: 1, offset: 61226},
+			pos:  position{line: 1908, col: 1, offset: 61630},
 			expr: &actionExpr{
-				pos: position{line: 1897, col: 5, offset: 61254},
+				pos: position{line: 1909, col: 5, offset: 61658},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1897, col: 5, offset: 61254},
+					pos: position{line: 1909, col: 5, offset: 61658},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1892, col: 38, offset: 61179},
+							pos:        position{line: 1904, col: 38, offset: 61583},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1898, col: 5, offset: 61293},
+							pos:   position{line: 1910, col: 5, offset: 61697},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1898, col: 15, offset: 61303},
+								pos:  position{line: 1910, col: 15, offset: 61707},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1894, col: 36, offset: 61220},
+							pos:        position{line: 1906, col: 36, offset: 61624},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -41684,24 +42276,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1903, col: 1, offset: 61463},
+			pos:  position{line: 1915, col: 1, offset: 61867},
 			expr: &actionExpr{
-				pos: position{line: 1904, col: 5, offset: 61498},
+				pos: position{line: 1916, col: 5, offset: 61902},
 				run: (*parser).callonDoubleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1904, col: 5, offset: 61498},
+					pos: position{line: 1916, col: 5, offset: 61902},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1904, col: 5, offset: 61498},
+							pos: position{line: 1916, col: 5, offset: 61902},
 							run: (*parser).callonDoubleQuoteBoldTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1908, col: 5, offset: 61618},
+							pos:   position{line: 1920, col: 5, offset: 62022},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1908, col: 14, offset: 61627},
+								pos: position{line: 1920, col: 14, offset: 62031},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1908, col: 15, offset: 61628},
+									pos:  position{line: 1920, col: 15, offset: 62032},
 									name: "DoubleQuoteBoldTextElement",
 								},
 							},
@@ -41712,33 +42304,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1912, col: 1, offset: 61695},
+			pos:  position{line: 1924, col: 1, offset: 62099},
 			expr: &actionExpr{
-				pos: position{line: 1913, col: 5, offset: 61730},
+				pos: position{line: 1925, col: 5, offset: 62134},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1913, col: 5, offset: 61730},
+					pos: position{line: 1925, col: 5, offset: 62134},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92782},
+							pos: position{line: 2951, col: 11, offset: 93186},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92784,
+								line: 2951, col: 13, offset: 93188,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1914, col: 5, offset: 61741},
+							pos: position{line: 1926, col: 5, offset: 62145},
 							expr: &litMatcher{
-								pos:        position{line: 1894, col: 36, offset: 61220},
+								pos:        position{line: 1906, col: 36, offset: 61624},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1915, col: 5, offset: 61778},
+							pos:   position{line: 1927, col: 5, offset: 62182},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1915, col: 14, offset: 61787},
+								pos:  position{line: 1927, col: 14, offset: 62191},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41748,29 +42340,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1940, col: 1, offset: 62467},
+			pos:  position{line: 1952, col: 1, offset: 62871},
 			expr: &actionExpr{
-				pos: position{line: 1941, col: 5, offset: 62495},
+				pos: position{line: 1953, col: 5, offset: 62899},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1941, col: 5, offset: 62495},
+					pos: position{line: 1953, col: 5, offset: 62899},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1924, col: 5, offset: 62021},
+							pos:        position{line: 1936, col: 5, offset: 62425},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1925, col: 5, offset: 62030},
+							pos: position{line: 1937, col: 5, offset: 62434},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1929, col: 5, offset: 62148},
+							pos: position{line: 1941, col: 5, offset: 62552},
 							expr: &notExpr{
-								pos: position{line: 1929, col: 7, offset: 62150},
+								pos: position{line: 1941, col: 7, offset: 62554},
 								expr: &litMatcher{
-									pos:        position{line: 1929, col: 8, offset: 62151},
+									pos:        position{line: 1941, col: 8, offset: 62555},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41778,38 +42370,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1942, col: 5, offset: 62533},
+							pos:   position{line: 1954, col: 5, offset: 62937},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1942, col: 15, offset: 62543},
+								pos:  position{line: 1954, col: 15, offset: 62947},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1932, col: 5, offset: 62271},
+							pos:        position{line: 1944, col: 5, offset: 62675},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1933, col: 5, offset: 62280},
+							pos: position{line: 1945, col: 5, offset: 62684},
 							expr: &litMatcher{
-								pos:        position{line: 1933, col: 6, offset: 62281},
+								pos:        position{line: 1945, col: 6, offset: 62685},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1934, col: 5, offset: 62344},
+							pos: position{line: 1946, col: 5, offset: 62748},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1938, col: 5, offset: 62453},
+							pos: position{line: 1950, col: 5, offset: 62857},
 							expr: &notExpr{
-								pos: position{line: 1938, col: 7, offset: 62455},
+								pos: position{line: 1950, col: 7, offset: 62859},
 								expr: &charClassMatcher{
-									pos:        position{line: 2812, col: 13, offset: 89543},
+									pos:        position{line: 2824, col: 13, offset: 89947},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41823,20 +42415,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1947, col: 1, offset: 62703},
+			pos:  position{line: 1959, col: 1, offset: 63107},
 			expr: &actionExpr{
-				pos: position{line: 1948, col: 5, offset: 62740},
+				pos: position{line: 1960, col: 5, offset: 63144},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1948, col: 5, offset: 62740},
+					pos: position{line: 1960, col: 5, offset: 63144},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1948, col: 5, offset: 62740},
+							pos: position{line: 1960, col: 5, offset: 63144},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92448},
+								pos: position{line: 2934, col: 10, offset: 92852},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92448},
+									pos:        position{line: 2934, col: 10, offset: 92852},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41845,18 +42437,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1949, col: 5, offset: 62779},
+							pos:   position{line: 1961, col: 5, offset: 63183},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1949, col: 14, offset: 62788},
+								pos: position{line: 1961, col: 14, offset: 63192},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1949, col: 15, offset: 62789},
+									pos:  position{line: 1961, col: 15, offset: 63193},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1950, col: 5, offset: 62823},
+							pos: position{line: 1962, col: 5, offset: 63227},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -41865,49 +42457,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1956, col: 1, offset: 62964},
+			pos:  position{line: 1968, col: 1, offset: 63368},
 			expr: &actionExpr{
-				pos: position{line: 1957, col: 5, offset: 62999},
+				pos: position{line: 1969, col: 5, offset: 63403},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1957, col: 5, offset: 62999},
+					pos: position{line: 1969, col: 5, offset: 63403},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92782},
+							pos: position{line: 2951, col: 11, offset: 93186},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92784,
+								line: 2951, col: 13, offset: 93188,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1958, col: 5, offset: 63027},
+							pos: position{line: 1970, col: 5, offset: 63431},
 							expr: &seqExpr{
-								pos: position{line: 1932, col: 5, offset: 62271},
+								pos: position{line: 1944, col: 5, offset: 62675},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1932, col: 5, offset: 62271},
+										pos:        position{line: 1944, col: 5, offset: 62675},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1933, col: 5, offset: 62280},
+										pos: position{line: 1945, col: 5, offset: 62684},
 										expr: &litMatcher{
-											pos:        position{line: 1933, col: 6, offset: 62281},
+											pos:        position{line: 1945, col: 6, offset: 62685},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1934, col: 5, offset: 62344},
+										pos: position{line: 1946, col: 5, offset: 62748},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1938, col: 5, offset: 62453},
+										pos: position{line: 1950, col: 5, offset: 62857},
 										expr: &notExpr{
-											pos: position{line: 1938, col: 7, offset: 62455},
+											pos: position{line: 1950, col: 7, offset: 62859},
 											expr: &charClassMatcher{
-												pos:        position{line: 2812, col: 13, offset: 89543},
+												pos:        position{line: 2824, col: 13, offset: 89947},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41919,10 +42511,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1959, col: 5, offset: 63064},
+							pos:   position{line: 1971, col: 5, offset: 63468},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1959, col: 14, offset: 63073},
+								pos:  position{line: 1971, col: 14, offset: 63477},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41932,35 +42524,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1964, col: 1, offset: 63161},
+			pos:  position{line: 1976, col: 1, offset: 63565},
 			expr: &choiceExpr{
-				pos: position{line: 1966, col: 5, offset: 63222},
+				pos: position{line: 1978, col: 5, offset: 63626},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1966, col: 5, offset: 63222},
+						pos: position{line: 1978, col: 5, offset: 63626},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1966, col: 5, offset: 63222},
+							pos: position{line: 1978, col: 5, offset: 63626},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1966, col: 5, offset: 63222},
+									pos:   position{line: 1978, col: 5, offset: 63626},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1865, col: 25, offset: 60399},
+										pos: position{line: 1877, col: 25, offset: 60803},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1865, col: 25, offset: 60399},
+											pos: position{line: 1877, col: 25, offset: 60803},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1865, col: 25, offset: 60399},
+													pos:        position{line: 1877, col: 25, offset: 60803},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1865, col: 30, offset: 60404},
+													pos: position{line: 1877, col: 30, offset: 60808},
 													expr: &litMatcher{
-														pos:        position{line: 1865, col: 30, offset: 60404},
+														pos:        position{line: 1877, col: 30, offset: 60808},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41971,21 +42563,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1966, col: 40, offset: 63257},
+									pos:        position{line: 1978, col: 40, offset: 63661},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1966, col: 45, offset: 63262},
+									pos:   position{line: 1978, col: 45, offset: 63666},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1966, col: 55, offset: 63272},
+										pos:  position{line: 1978, col: 55, offset: 63676},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1966, col: 84, offset: 63301},
+									pos:        position{line: 1978, col: 84, offset: 63705},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41994,21 +42586,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1970, col: 7, offset: 63465},
+						pos: position{line: 1982, col: 7, offset: 63869},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1970, col: 7, offset: 63465},
+							pos: position{line: 1982, col: 7, offset: 63869},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1970, col: 7, offset: 63465},
+									pos:   position{line: 1982, col: 7, offset: 63869},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60326},
+										pos: position{line: 1873, col: 25, offset: 60730},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60326},
+											pos: position{line: 1873, col: 25, offset: 60730},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60326},
+												pos:        position{line: 1873, col: 25, offset: 60730},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42017,21 +42609,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1970, col: 42, offset: 63500},
+									pos:        position{line: 1982, col: 42, offset: 63904},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1970, col: 47, offset: 63505},
+									pos:   position{line: 1982, col: 47, offset: 63909},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1970, col: 57, offset: 63515},
+										pos:  position{line: 1982, col: 57, offset: 63919},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1970, col: 86, offset: 63544},
+									pos:        position{line: 1982, col: 86, offset: 63948},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42040,21 +42632,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1975, col: 7, offset: 63746},
+						pos: position{line: 1987, col: 7, offset: 64150},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1975, col: 7, offset: 63746},
+							pos: position{line: 1987, col: 7, offset: 64150},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1975, col: 7, offset: 63746},
+									pos:   position{line: 1987, col: 7, offset: 64150},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60326},
+										pos: position{line: 1873, col: 25, offset: 60730},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60326},
+											pos: position{line: 1873, col: 25, offset: 60730},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60326},
+												pos:        position{line: 1873, col: 25, offset: 60730},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42063,21 +42655,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1975, col: 42, offset: 63781},
+									pos:        position{line: 1987, col: 42, offset: 64185},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1975, col: 46, offset: 63785},
+									pos:   position{line: 1987, col: 46, offset: 64189},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1975, col: 56, offset: 63795},
+										pos:  position{line: 1987, col: 56, offset: 64199},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1975, col: 85, offset: 63824},
+									pos:        position{line: 1987, col: 85, offset: 64228},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42090,29 +42682,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1992, col: 1, offset: 64304},
+			pos:  position{line: 2004, col: 1, offset: 64708},
 			expr: &actionExpr{
-				pos: position{line: 1993, col: 5, offset: 64334},
+				pos: position{line: 2005, col: 5, offset: 64738},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1993, col: 5, offset: 64334},
+					pos: position{line: 2005, col: 5, offset: 64738},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1988, col: 40, offset: 64255},
+							pos:        position{line: 2000, col: 40, offset: 64659},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1994, col: 5, offset: 64375},
+							pos:   position{line: 2006, col: 5, offset: 64779},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1994, col: 15, offset: 64385},
+								pos:  position{line: 2006, col: 15, offset: 64789},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1990, col: 38, offset: 64298},
+							pos:        position{line: 2002, col: 38, offset: 64702},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -42123,24 +42715,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1999, col: 1, offset: 64550},
+			pos:  position{line: 2011, col: 1, offset: 64954},
 			expr: &actionExpr{
-				pos: position{line: 2000, col: 5, offset: 64587},
+				pos: position{line: 2012, col: 5, offset: 64991},
 				run: (*parser).callonDoubleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2000, col: 5, offset: 64587},
+					pos: position{line: 2012, col: 5, offset: 64991},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2000, col: 5, offset: 64587},
+							pos: position{line: 2012, col: 5, offset: 64991},
 							run: (*parser).callonDoubleQuoteItalicTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2004, col: 5, offset: 64707},
+							pos:   position{line: 2016, col: 5, offset: 65111},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2004, col: 14, offset: 64716},
+								pos: position{line: 2016, col: 14, offset: 65120},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2004, col: 15, offset: 64717},
+									pos:  position{line: 2016, col: 15, offset: 65121},
 									name: "DoubleQuoteItalicTextElement",
 								},
 							},
@@ -42151,33 +42743,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 2008, col: 1, offset: 64786},
+			pos:  position{line: 2020, col: 1, offset: 65190},
 			expr: &actionExpr{
-				pos: position{line: 2009, col: 5, offset: 64823},
+				pos: position{line: 2021, col: 5, offset: 65227},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2009, col: 5, offset: 64823},
+					pos: position{line: 2021, col: 5, offset: 65227},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92782},
+							pos: position{line: 2951, col: 11, offset: 93186},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92784,
+								line: 2951, col: 13, offset: 93188,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2010, col: 5, offset: 64834},
+							pos: position{line: 2022, col: 5, offset: 65238},
 							expr: &litMatcher{
-								pos:        position{line: 1990, col: 38, offset: 64298},
+								pos:        position{line: 2002, col: 38, offset: 64702},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2011, col: 5, offset: 64873},
+							pos:   position{line: 2023, col: 5, offset: 65277},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2011, col: 14, offset: 64882},
+								pos:  position{line: 2023, col: 14, offset: 65286},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42187,29 +42779,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2037, col: 1, offset: 65566},
+			pos:  position{line: 2049, col: 1, offset: 65970},
 			expr: &actionExpr{
-				pos: position{line: 2038, col: 5, offset: 65596},
+				pos: position{line: 2050, col: 5, offset: 66000},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2038, col: 5, offset: 65596},
+					pos: position{line: 2050, col: 5, offset: 66000},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2020, col: 5, offset: 65124},
+							pos:        position{line: 2032, col: 5, offset: 65528},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2021, col: 5, offset: 65133},
+							pos: position{line: 2033, col: 5, offset: 65537},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2025, col: 5, offset: 65253},
+							pos: position{line: 2037, col: 5, offset: 65657},
 							expr: &notExpr{
-								pos: position{line: 2025, col: 7, offset: 65255},
+								pos: position{line: 2037, col: 7, offset: 65659},
 								expr: &litMatcher{
-									pos:        position{line: 2025, col: 8, offset: 65256},
+									pos:        position{line: 2037, col: 8, offset: 65660},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42217,38 +42809,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2039, col: 5, offset: 65636},
+							pos:   position{line: 2051, col: 5, offset: 66040},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2039, col: 15, offset: 65646},
+								pos:  position{line: 2051, col: 15, offset: 66050},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2029, col: 5, offset: 65366},
+							pos:        position{line: 2041, col: 5, offset: 65770},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2030, col: 5, offset: 65375},
+							pos: position{line: 2042, col: 5, offset: 65779},
 							expr: &litMatcher{
-								pos:        position{line: 2030, col: 6, offset: 65376},
+								pos:        position{line: 2042, col: 6, offset: 65780},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2031, col: 5, offset: 65441},
+							pos: position{line: 2043, col: 5, offset: 65845},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2035, col: 5, offset: 65552},
+							pos: position{line: 2047, col: 5, offset: 65956},
 							expr: &notExpr{
-								pos: position{line: 2035, col: 7, offset: 65554},
+								pos: position{line: 2047, col: 7, offset: 65958},
 								expr: &charClassMatcher{
-									pos:        position{line: 2812, col: 13, offset: 89543},
+									pos:        position{line: 2824, col: 13, offset: 89947},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42262,20 +42854,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2044, col: 1, offset: 65813},
+			pos:  position{line: 2056, col: 1, offset: 66217},
 			expr: &actionExpr{
-				pos: position{line: 2045, col: 5, offset: 65851},
+				pos: position{line: 2057, col: 5, offset: 66255},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2045, col: 5, offset: 65851},
+					pos: position{line: 2057, col: 5, offset: 66255},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2045, col: 5, offset: 65851},
+							pos: position{line: 2057, col: 5, offset: 66255},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92448},
+								pos: position{line: 2934, col: 10, offset: 92852},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92448},
+									pos:        position{line: 2934, col: 10, offset: 92852},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42284,18 +42876,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2046, col: 5, offset: 65890},
+							pos:   position{line: 2058, col: 5, offset: 66294},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2046, col: 14, offset: 65899},
+								pos: position{line: 2058, col: 14, offset: 66303},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2046, col: 15, offset: 65900},
+									pos:  position{line: 2058, col: 15, offset: 66304},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2047, col: 5, offset: 65935},
+							pos: position{line: 2059, col: 5, offset: 66339},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -42304,49 +42896,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2053, col: 1, offset: 66076},
+			pos:  position{line: 2065, col: 1, offset: 66480},
 			expr: &actionExpr{
-				pos: position{line: 2054, col: 5, offset: 66113},
+				pos: position{line: 2066, col: 5, offset: 66517},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2054, col: 5, offset: 66113},
+					pos: position{line: 2066, col: 5, offset: 66517},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92782},
+							pos: position{line: 2951, col: 11, offset: 93186},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92784,
+								line: 2951, col: 13, offset: 93188,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2055, col: 5, offset: 66124},
+							pos: position{line: 2067, col: 5, offset: 66528},
 							expr: &seqExpr{
-								pos: position{line: 2029, col: 5, offset: 65366},
+								pos: position{line: 2041, col: 5, offset: 65770},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2029, col: 5, offset: 65366},
+										pos:        position{line: 2041, col: 5, offset: 65770},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2030, col: 5, offset: 65375},
+										pos: position{line: 2042, col: 5, offset: 65779},
 										expr: &litMatcher{
-											pos:        position{line: 2030, col: 6, offset: 65376},
+											pos:        position{line: 2042, col: 6, offset: 65780},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2031, col: 5, offset: 65441},
+										pos: position{line: 2043, col: 5, offset: 65845},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2035, col: 5, offset: 65552},
+										pos: position{line: 2047, col: 5, offset: 65956},
 										expr: &notExpr{
-											pos: position{line: 2035, col: 7, offset: 65554},
+											pos: position{line: 2047, col: 7, offset: 65958},
 											expr: &charClassMatcher{
-												pos:        position{line: 2812, col: 13, offset: 89543},
+												pos:        position{line: 2824, col: 13, offset: 89947},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42358,10 +42950,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2056, col: 5, offset: 66163},
+							pos:   position{line: 2068, col: 5, offset: 66567},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2056, col: 14, offset: 66172},
+								pos:  position{line: 2068, col: 14, offset: 66576},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42371,35 +42963,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2061, col: 1, offset: 66260},
+			pos:  position{line: 2073, col: 1, offset: 66664},
 			expr: &choiceExpr{
-				pos: position{line: 2063, col: 5, offset: 66325},
+				pos: position{line: 2075, col: 5, offset: 66729},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2063, col: 5, offset: 66325},
+						pos: position{line: 2075, col: 5, offset: 66729},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2063, col: 5, offset: 66325},
+							pos: position{line: 2075, col: 5, offset: 66729},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2063, col: 5, offset: 66325},
+									pos:   position{line: 2075, col: 5, offset: 66729},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1865, col: 25, offset: 60399},
+										pos: position{line: 1877, col: 25, offset: 60803},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1865, col: 25, offset: 60399},
+											pos: position{line: 1877, col: 25, offset: 60803},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1865, col: 25, offset: 60399},
+													pos:        position{line: 1877, col: 25, offset: 60803},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1865, col: 30, offset: 60404},
+													pos: position{line: 1877, col: 30, offset: 60808},
 													expr: &litMatcher{
-														pos:        position{line: 1865, col: 30, offset: 60404},
+														pos:        position{line: 1877, col: 30, offset: 60808},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42410,21 +43002,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2063, col: 40, offset: 66360},
+									pos:        position{line: 2075, col: 40, offset: 66764},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2063, col: 45, offset: 66365},
+									pos:   position{line: 2075, col: 45, offset: 66769},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2063, col: 55, offset: 66375},
+										pos:  position{line: 2075, col: 55, offset: 66779},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2063, col: 86, offset: 66406},
+									pos:        position{line: 2075, col: 86, offset: 66810},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -42433,21 +43025,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2067, col: 7, offset: 66571},
+						pos: position{line: 2079, col: 7, offset: 66975},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2067, col: 7, offset: 66571},
+							pos: position{line: 2079, col: 7, offset: 66975},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2067, col: 7, offset: 66571},
+									pos:   position{line: 2079, col: 7, offset: 66975},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60326},
+										pos: position{line: 1873, col: 25, offset: 60730},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60326},
+											pos: position{line: 1873, col: 25, offset: 60730},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60326},
+												pos:        position{line: 1873, col: 25, offset: 60730},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42456,21 +43048,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2067, col: 42, offset: 66606},
+									pos:        position{line: 2079, col: 42, offset: 67010},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2067, col: 47, offset: 66611},
+									pos:   position{line: 2079, col: 47, offset: 67015},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2067, col: 57, offset: 66621},
+										pos:  position{line: 2079, col: 57, offset: 67025},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2067, col: 88, offset: 66652},
+									pos:        position{line: 2079, col: 88, offset: 67056},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42479,21 +43071,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2072, col: 7, offset: 66893},
+						pos: position{line: 2084, col: 7, offset: 67297},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2072, col: 7, offset: 66893},
+							pos: position{line: 2084, col: 7, offset: 67297},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2072, col: 7, offset: 66893},
+									pos:   position{line: 2084, col: 7, offset: 67297},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60326},
+										pos: position{line: 1873, col: 25, offset: 60730},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60326},
+											pos: position{line: 1873, col: 25, offset: 60730},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60326},
+												pos:        position{line: 1873, col: 25, offset: 60730},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42502,21 +43094,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2072, col: 42, offset: 66928},
+									pos:        position{line: 2084, col: 42, offset: 67332},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2072, col: 46, offset: 66932},
+									pos:   position{line: 2084, col: 46, offset: 67336},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2072, col: 56, offset: 66942},
+										pos:  position{line: 2084, col: 56, offset: 67346},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2072, col: 87, offset: 66973},
+									pos:        position{line: 2084, col: 87, offset: 67377},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42529,29 +43121,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2089, col: 1, offset: 67537},
+			pos:  position{line: 2101, col: 1, offset: 67941},
 			expr: &actionExpr{
-				pos: position{line: 2090, col: 5, offset: 67570},
+				pos: position{line: 2102, col: 5, offset: 67974},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2090, col: 5, offset: 67570},
+					pos: position{line: 2102, col: 5, offset: 67974},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2085, col: 43, offset: 67485},
+							pos:        position{line: 2097, col: 43, offset: 67889},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2091, col: 5, offset: 67614},
+							pos:   position{line: 2103, col: 5, offset: 68018},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2091, col: 15, offset: 67624},
+								pos:  position{line: 2103, col: 15, offset: 68028},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2087, col: 41, offset: 67531},
+							pos:        position{line: 2099, col: 41, offset: 67935},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -42562,24 +43154,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2096, col: 1, offset: 67799},
+			pos:  position{line: 2108, col: 1, offset: 68203},
 			expr: &actionExpr{
-				pos: position{line: 2097, col: 5, offset: 67872},
+				pos: position{line: 2109, col: 5, offset: 68276},
 				run: (*parser).callonDoubleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2097, col: 5, offset: 67872},
+					pos: position{line: 2109, col: 5, offset: 68276},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2097, col: 5, offset: 67872},
+							pos: position{line: 2109, col: 5, offset: 68276},
 							run: (*parser).callonDoubleQuoteMonospaceTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2101, col: 5, offset: 67992},
+							pos:   position{line: 2113, col: 5, offset: 68396},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2101, col: 14, offset: 68001},
+								pos: position{line: 2113, col: 14, offset: 68405},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2101, col: 15, offset: 68002},
+									pos:  position{line: 2113, col: 15, offset: 68406},
 									name: "DoubleQuoteMonospaceTextElement",
 								},
 							},
@@ -42590,33 +43182,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2105, col: 1, offset: 68074},
+			pos:  position{line: 2117, col: 1, offset: 68478},
 			expr: &actionExpr{
-				pos: position{line: 2106, col: 5, offset: 68114},
+				pos: position{line: 2118, col: 5, offset: 68518},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2106, col: 5, offset: 68114},
+					pos: position{line: 2118, col: 5, offset: 68518},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92782},
+							pos: position{line: 2951, col: 11, offset: 93186},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92784,
+								line: 2951, col: 13, offset: 93188,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2107, col: 5, offset: 68125},
+							pos: position{line: 2119, col: 5, offset: 68529},
 							expr: &litMatcher{
-								pos:        position{line: 2087, col: 41, offset: 67531},
+								pos:        position{line: 2099, col: 41, offset: 67935},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2108, col: 5, offset: 68167},
+							pos:   position{line: 2120, col: 5, offset: 68571},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2108, col: 14, offset: 68176},
+								pos:  position{line: 2120, col: 14, offset: 68580},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42626,33 +43218,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2126, col: 1, offset: 68718},
+			pos:  position{line: 2138, col: 1, offset: 69122},
 			expr: &seqExpr{
-				pos: position{line: 2127, col: 5, offset: 68763},
+				pos: position{line: 2139, col: 5, offset: 69167},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2127, col: 5, offset: 68763},
+						pos: position{line: 2139, col: 5, offset: 69167},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2127, col: 6, offset: 68764},
+							pos:  position{line: 2139, col: 6, offset: 69168},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2128, col: 5, offset: 68783},
+						pos:        position{line: 2140, col: 5, offset: 69187},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2129, col: 5, offset: 68791},
+						pos: position{line: 2141, col: 5, offset: 69195},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2133, col: 5, offset: 68905},
+						pos: position{line: 2145, col: 5, offset: 69309},
 						expr: &notExpr{
-							pos: position{line: 2133, col: 7, offset: 68907},
+							pos: position{line: 2145, col: 7, offset: 69311},
 							expr: &charClassMatcher{
-								pos:        position{line: 2812, col: 13, offset: 89543},
+								pos:        position{line: 2824, col: 13, offset: 89947},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42665,29 +43257,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2136, col: 1, offset: 68924},
+			pos:  position{line: 2148, col: 1, offset: 69328},
 			expr: &actionExpr{
-				pos: position{line: 2137, col: 5, offset: 68957},
+				pos: position{line: 2149, col: 5, offset: 69361},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2137, col: 5, offset: 68957},
+					pos: position{line: 2149, col: 5, offset: 69361},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2119, col: 5, offset: 68520},
+							pos:        position{line: 2131, col: 5, offset: 68924},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2120, col: 5, offset: 68529},
+							pos: position{line: 2132, col: 5, offset: 68933},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2124, col: 5, offset: 68652},
+							pos: position{line: 2136, col: 5, offset: 69056},
 							expr: &notExpr{
-								pos: position{line: 2124, col: 7, offset: 68654},
+								pos: position{line: 2136, col: 7, offset: 69058},
 								expr: &litMatcher{
-									pos:        position{line: 2124, col: 8, offset: 68655},
+									pos:        position{line: 2136, col: 8, offset: 69059},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42695,15 +43287,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2138, col: 5, offset: 69001},
+							pos:   position{line: 2150, col: 5, offset: 69405},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2138, col: 15, offset: 69011},
+								pos:  position{line: 2150, col: 15, offset: 69415},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2139, col: 5, offset: 69050},
+							pos:  position{line: 2151, col: 5, offset: 69454},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -42712,20 +43304,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2143, col: 1, offset: 69187},
+			pos:  position{line: 2155, col: 1, offset: 69591},
 			expr: &actionExpr{
-				pos: position{line: 2144, col: 5, offset: 69228},
+				pos: position{line: 2156, col: 5, offset: 69632},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2144, col: 5, offset: 69228},
+					pos: position{line: 2156, col: 5, offset: 69632},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2144, col: 5, offset: 69228},
+							pos: position{line: 2156, col: 5, offset: 69632},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92448},
+								pos: position{line: 2934, col: 10, offset: 92852},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92448},
+									pos:        position{line: 2934, col: 10, offset: 92852},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42734,18 +43326,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2145, col: 5, offset: 69267},
+							pos:   position{line: 2157, col: 5, offset: 69671},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2145, col: 14, offset: 69276},
+								pos: position{line: 2157, col: 14, offset: 69680},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2145, col: 15, offset: 69277},
+									pos:  position{line: 2157, col: 15, offset: 69681},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2146, col: 5, offset: 69315},
+							pos: position{line: 2158, col: 5, offset: 69719},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -42754,31 +43346,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2152, col: 1, offset: 69456},
+			pos:  position{line: 2164, col: 1, offset: 69860},
 			expr: &actionExpr{
-				pos: position{line: 2153, col: 5, offset: 69496},
+				pos: position{line: 2165, col: 5, offset: 69900},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2153, col: 5, offset: 69496},
+					pos: position{line: 2165, col: 5, offset: 69900},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92782},
+							pos: position{line: 2951, col: 11, offset: 93186},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92784,
+								line: 2951, col: 13, offset: 93188,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2154, col: 5, offset: 69507},
+							pos: position{line: 2166, col: 5, offset: 69911},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2154, col: 6, offset: 69508},
+								pos:  position{line: 2166, col: 6, offset: 69912},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2155, col: 5, offset: 69549},
+							pos:   position{line: 2167, col: 5, offset: 69953},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2155, col: 14, offset: 69558},
+								pos:  position{line: 2167, col: 14, offset: 69962},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42788,35 +43380,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2160, col: 1, offset: 69646},
+			pos:  position{line: 2172, col: 1, offset: 70050},
 			expr: &choiceExpr{
-				pos: position{line: 2162, col: 5, offset: 69717},
+				pos: position{line: 2174, col: 5, offset: 70121},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2162, col: 5, offset: 69717},
+						pos: position{line: 2174, col: 5, offset: 70121},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2162, col: 5, offset: 69717},
+							pos: position{line: 2174, col: 5, offset: 70121},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2162, col: 5, offset: 69717},
+									pos:   position{line: 2174, col: 5, offset: 70121},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1865, col: 25, offset: 60399},
+										pos: position{line: 1877, col: 25, offset: 60803},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1865, col: 25, offset: 60399},
+											pos: position{line: 1877, col: 25, offset: 60803},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1865, col: 25, offset: 60399},
+													pos:        position{line: 1877, col: 25, offset: 60803},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1865, col: 30, offset: 60404},
+													pos: position{line: 1877, col: 30, offset: 60808},
 													expr: &litMatcher{
-														pos:        position{line: 1865, col: 30, offset: 60404},
+														pos:        position{line: 1877, col: 30, offset: 60808},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42827,21 +43419,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2162, col: 40, offset: 69752},
+									pos:        position{line: 2174, col: 40, offset: 70156},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2162, col: 45, offset: 69757},
+									pos:   position{line: 2174, col: 45, offset: 70161},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2162, col: 55, offset: 69767},
+										pos:  position{line: 2174, col: 55, offset: 70171},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2162, col: 89, offset: 69801},
+									pos:        position{line: 2174, col: 89, offset: 70205},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -42850,21 +43442,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2166, col: 7, offset: 69970},
+						pos: position{line: 2178, col: 7, offset: 70374},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2166, col: 7, offset: 69970},
+							pos: position{line: 2178, col: 7, offset: 70374},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2166, col: 7, offset: 69970},
+									pos:   position{line: 2178, col: 7, offset: 70374},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60326},
+										pos: position{line: 1873, col: 25, offset: 60730},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60326},
+											pos: position{line: 1873, col: 25, offset: 60730},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60326},
+												pos:        position{line: 1873, col: 25, offset: 60730},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42873,21 +43465,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2166, col: 42, offset: 70005},
+									pos:        position{line: 2178, col: 42, offset: 70409},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2166, col: 47, offset: 70010},
+									pos:   position{line: 2178, col: 47, offset: 70414},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2166, col: 57, offset: 70020},
+										pos:  position{line: 2178, col: 57, offset: 70424},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2166, col: 91, offset: 70054},
+									pos:        position{line: 2178, col: 91, offset: 70458},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42896,21 +43488,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2171, col: 7, offset: 70260},
+						pos: position{line: 2183, col: 7, offset: 70664},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2171, col: 7, offset: 70260},
+							pos: position{line: 2183, col: 7, offset: 70664},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2171, col: 7, offset: 70260},
+									pos:   position{line: 2183, col: 7, offset: 70664},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60326},
+										pos: position{line: 1873, col: 25, offset: 60730},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60326},
+											pos: position{line: 1873, col: 25, offset: 60730},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60326},
+												pos:        position{line: 1873, col: 25, offset: 60730},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42919,21 +43511,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2171, col: 42, offset: 70295},
+									pos:        position{line: 2183, col: 42, offset: 70699},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2171, col: 46, offset: 70299},
+									pos:   position{line: 2183, col: 46, offset: 70703},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2171, col: 56, offset: 70309},
+										pos:  position{line: 2183, col: 56, offset: 70713},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2171, col: 90, offset: 70343},
+									pos:        position{line: 2183, col: 90, offset: 70747},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42946,29 +43538,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2188, col: 1, offset: 70828},
+			pos:  position{line: 2200, col: 1, offset: 71232},
 			expr: &actionExpr{
-				pos: position{line: 2189, col: 5, offset: 70858},
+				pos: position{line: 2201, col: 5, offset: 71262},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2189, col: 5, offset: 70858},
+					pos: position{line: 2201, col: 5, offset: 71262},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2184, col: 40, offset: 70779},
+							pos:        position{line: 2196, col: 40, offset: 71183},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2190, col: 5, offset: 70899},
+							pos:   position{line: 2202, col: 5, offset: 71303},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2190, col: 15, offset: 70909},
+								pos:  position{line: 2202, col: 15, offset: 71313},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2186, col: 38, offset: 70822},
+							pos:        position{line: 2198, col: 38, offset: 71226},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -42979,24 +43571,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2195, col: 1, offset: 71075},
+			pos:  position{line: 2207, col: 1, offset: 71479},
 			expr: &actionExpr{
-				pos: position{line: 2196, col: 5, offset: 71112},
+				pos: position{line: 2208, col: 5, offset: 71516},
 				run: (*parser).callonDoubleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2196, col: 5, offset: 71112},
+					pos: position{line: 2208, col: 5, offset: 71516},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2196, col: 5, offset: 71112},
+							pos: position{line: 2208, col: 5, offset: 71516},
 							run: (*parser).callonDoubleQuoteMarkedTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2200, col: 5, offset: 71232},
+							pos:   position{line: 2212, col: 5, offset: 71636},
 							label: "elements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2200, col: 14, offset: 71241},
+								pos: position{line: 2212, col: 14, offset: 71645},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2200, col: 15, offset: 71242},
+									pos:  position{line: 2212, col: 15, offset: 71646},
 									name: "DoubleQuoteMarkedTextElement",
 								},
 							},
@@ -43007,33 +43599,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2204, col: 1, offset: 71311},
+			pos:  position{line: 2216, col: 1, offset: 71715},
 			expr: &actionExpr{
-				pos: position{line: 2205, col: 5, offset: 71380},
+				pos: position{line: 2217, col: 5, offset: 71784},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2205, col: 5, offset: 71380},
+					pos: position{line: 2217, col: 5, offset: 71784},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92782},
+							pos: position{line: 2951, col: 11, offset: 93186},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92784,
+								line: 2951, col: 13, offset: 93188,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2206, col: 5, offset: 71391},
+							pos: position{line: 2218, col: 5, offset: 71795},
 							expr: &litMatcher{
-								pos:        position{line: 2186, col: 38, offset: 70822},
+								pos:        position{line: 2198, col: 38, offset: 71226},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2207, col: 5, offset: 71430},
+							pos:   position{line: 2219, col: 5, offset: 71834},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2207, col: 14, offset: 71439},
+								pos:  position{line: 2219, col: 14, offset: 71843},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43043,29 +43635,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2232, col: 1, offset: 72121},
+			pos:  position{line: 2244, col: 1, offset: 72525},
 			expr: &actionExpr{
-				pos: position{line: 2233, col: 5, offset: 72151},
+				pos: position{line: 2245, col: 5, offset: 72555},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2233, col: 5, offset: 72151},
+					pos: position{line: 2245, col: 5, offset: 72555},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2216, col: 5, offset: 71687},
+							pos:        position{line: 2228, col: 5, offset: 72091},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2217, col: 5, offset: 71696},
+							pos: position{line: 2229, col: 5, offset: 72100},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2221, col: 5, offset: 71816},
+							pos: position{line: 2233, col: 5, offset: 72220},
 							expr: &notExpr{
-								pos: position{line: 2221, col: 7, offset: 71818},
+								pos: position{line: 2233, col: 7, offset: 72222},
 								expr: &litMatcher{
-									pos:        position{line: 2221, col: 8, offset: 71819},
+									pos:        position{line: 2233, col: 8, offset: 72223},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43073,38 +43665,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2234, col: 5, offset: 72191},
+							pos:   position{line: 2246, col: 5, offset: 72595},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2234, col: 15, offset: 72201},
+								pos:  position{line: 2246, col: 15, offset: 72605},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2224, col: 5, offset: 71924},
+							pos:        position{line: 2236, col: 5, offset: 72328},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2225, col: 5, offset: 71932},
+							pos: position{line: 2237, col: 5, offset: 72336},
 							expr: &litMatcher{
-								pos:        position{line: 2225, col: 6, offset: 71933},
+								pos:        position{line: 2237, col: 6, offset: 72337},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2226, col: 5, offset: 71996},
+							pos: position{line: 2238, col: 5, offset: 72400},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2230, col: 5, offset: 72107},
+							pos: position{line: 2242, col: 5, offset: 72511},
 							expr: &notExpr{
-								pos: position{line: 2230, col: 7, offset: 72109},
+								pos: position{line: 2242, col: 7, offset: 72513},
 								expr: &charClassMatcher{
-									pos:        position{line: 2812, col: 13, offset: 89543},
+									pos:        position{line: 2824, col: 13, offset: 89947},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43118,20 +43710,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2239, col: 1, offset: 72368},
+			pos:  position{line: 2251, col: 1, offset: 72772},
 			expr: &actionExpr{
-				pos: position{line: 2240, col: 5, offset: 72406},
+				pos: position{line: 2252, col: 5, offset: 72810},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2240, col: 5, offset: 72406},
+					pos: position{line: 2252, col: 5, offset: 72810},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2240, col: 5, offset: 72406},
+							pos: position{line: 2252, col: 5, offset: 72810},
 							expr: &actionExpr{
-								pos: position{line: 2922, col: 10, offset: 92448},
+								pos: position{line: 2934, col: 10, offset: 92852},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 10, offset: 92448},
+									pos:        position{line: 2934, col: 10, offset: 92852},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43140,18 +43732,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2241, col: 5, offset: 72445},
+							pos:   position{line: 2253, col: 5, offset: 72849},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2241, col: 14, offset: 72454},
+								pos: position{line: 2253, col: 14, offset: 72858},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2241, col: 15, offset: 72455},
+									pos:  position{line: 2253, col: 15, offset: 72859},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2242, col: 5, offset: 72491},
+							pos: position{line: 2254, col: 5, offset: 72895},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -43160,49 +43752,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2248, col: 1, offset: 72632},
+			pos:  position{line: 2260, col: 1, offset: 73036},
 			expr: &actionExpr{
-				pos: position{line: 2249, col: 5, offset: 72669},
+				pos: position{line: 2261, col: 5, offset: 73073},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2249, col: 5, offset: 72669},
+					pos: position{line: 2261, col: 5, offset: 73073},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92782},
+							pos: position{line: 2951, col: 11, offset: 93186},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92784,
+								line: 2951, col: 13, offset: 93188,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2250, col: 5, offset: 72680},
+							pos: position{line: 2262, col: 5, offset: 73084},
 							expr: &seqExpr{
-								pos: position{line: 2224, col: 5, offset: 71924},
+								pos: position{line: 2236, col: 5, offset: 72328},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2224, col: 5, offset: 71924},
+										pos:        position{line: 2236, col: 5, offset: 72328},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2225, col: 5, offset: 71932},
+										pos: position{line: 2237, col: 5, offset: 72336},
 										expr: &litMatcher{
-											pos:        position{line: 2225, col: 6, offset: 71933},
+											pos:        position{line: 2237, col: 6, offset: 72337},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2226, col: 5, offset: 71996},
+										pos: position{line: 2238, col: 5, offset: 72400},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2230, col: 5, offset: 72107},
+										pos: position{line: 2242, col: 5, offset: 72511},
 										expr: &notExpr{
-											pos: position{line: 2230, col: 7, offset: 72109},
+											pos: position{line: 2242, col: 7, offset: 72513},
 											expr: &charClassMatcher{
-												pos:        position{line: 2812, col: 13, offset: 89543},
+												pos:        position{line: 2824, col: 13, offset: 89947},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43214,10 +43806,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2251, col: 5, offset: 72719},
+							pos:   position{line: 2263, col: 5, offset: 73123},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2251, col: 14, offset: 72728},
+								pos:  position{line: 2263, col: 14, offset: 73132},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43227,35 +43819,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2256, col: 1, offset: 72816},
+			pos:  position{line: 2268, col: 1, offset: 73220},
 			expr: &choiceExpr{
-				pos: position{line: 2258, col: 5, offset: 72880},
+				pos: position{line: 2270, col: 5, offset: 73284},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2258, col: 5, offset: 72880},
+						pos: position{line: 2270, col: 5, offset: 73284},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2258, col: 5, offset: 72880},
+							pos: position{line: 2270, col: 5, offset: 73284},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2258, col: 5, offset: 72880},
+									pos:   position{line: 2270, col: 5, offset: 73284},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1865, col: 25, offset: 60399},
+										pos: position{line: 1877, col: 25, offset: 60803},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1865, col: 25, offset: 60399},
+											pos: position{line: 1877, col: 25, offset: 60803},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1865, col: 25, offset: 60399},
+													pos:        position{line: 1877, col: 25, offset: 60803},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1865, col: 30, offset: 60404},
+													pos: position{line: 1877, col: 30, offset: 60808},
 													expr: &litMatcher{
-														pos:        position{line: 1865, col: 30, offset: 60404},
+														pos:        position{line: 1877, col: 30, offset: 60808},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43266,21 +43858,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2258, col: 40, offset: 72915},
+									pos:        position{line: 2270, col: 40, offset: 73319},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2258, col: 45, offset: 72920},
+									pos:   position{line: 2270, col: 45, offset: 73324},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2258, col: 55, offset: 72930},
+										pos:  position{line: 2270, col: 55, offset: 73334},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2258, col: 86, offset: 72961},
+									pos:        position{line: 2270, col: 86, offset: 73365},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -43289,21 +43881,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2262, col: 7, offset: 73126},
+						pos: position{line: 2274, col: 7, offset: 73530},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2262, col: 7, offset: 73126},
+							pos: position{line: 2274, col: 7, offset: 73530},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2262, col: 7, offset: 73126},
+									pos:   position{line: 2274, col: 7, offset: 73530},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60326},
+										pos: position{line: 1873, col: 25, offset: 60730},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60326},
+											pos: position{line: 1873, col: 25, offset: 60730},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60326},
+												pos:        position{line: 1873, col: 25, offset: 60730},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43312,21 +43904,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2262, col: 42, offset: 73161},
+									pos:        position{line: 2274, col: 42, offset: 73565},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2262, col: 47, offset: 73166},
+									pos:   position{line: 2274, col: 47, offset: 73570},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2262, col: 57, offset: 73176},
+										pos:  position{line: 2274, col: 57, offset: 73580},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2262, col: 88, offset: 73207},
+									pos:        position{line: 2274, col: 88, offset: 73611},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43335,21 +43927,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2267, col: 7, offset: 73410},
+						pos: position{line: 2279, col: 7, offset: 73814},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2267, col: 7, offset: 73410},
+							pos: position{line: 2279, col: 7, offset: 73814},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2267, col: 7, offset: 73410},
+									pos:   position{line: 2279, col: 7, offset: 73814},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60326},
+										pos: position{line: 1873, col: 25, offset: 60730},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1861, col: 25, offset: 60326},
+											pos: position{line: 1873, col: 25, offset: 60730},
 											expr: &litMatcher{
-												pos:        position{line: 1861, col: 25, offset: 60326},
+												pos:        position{line: 1873, col: 25, offset: 60730},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43358,21 +43950,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2267, col: 42, offset: 73445},
+									pos:        position{line: 2279, col: 42, offset: 73849},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2267, col: 46, offset: 73449},
+									pos:   position{line: 2279, col: 46, offset: 73853},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2267, col: 56, offset: 73459},
+										pos:  position{line: 2279, col: 56, offset: 73863},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2267, col: 87, offset: 73490},
+									pos:        position{line: 2279, col: 87, offset: 73894},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43385,29 +43977,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2274, col: 1, offset: 73757},
+			pos:  position{line: 2286, col: 1, offset: 74161},
 			expr: &actionExpr{
-				pos: position{line: 2275, col: 5, offset: 73779},
+				pos: position{line: 2287, col: 5, offset: 74183},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2275, col: 5, offset: 73779},
+					pos: position{line: 2287, col: 5, offset: 74183},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2281, col: 27, offset: 73994},
+							pos:        position{line: 2293, col: 27, offset: 74398},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2276, col: 5, offset: 73806},
+							pos:   position{line: 2288, col: 5, offset: 74210},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2276, col: 14, offset: 73815},
+								pos:  position{line: 2288, col: 14, offset: 74219},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2281, col: 27, offset: 73994},
+							pos:        position{line: 2293, col: 27, offset: 74398},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43418,34 +44010,34 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2283, col: 1, offset: 73999},
+			pos:  position{line: 2295, col: 1, offset: 74403},
 			expr: &actionExpr{
-				pos: position{line: 2284, col: 5, offset: 74027},
+				pos: position{line: 2296, col: 5, offset: 74431},
 				run: (*parser).callonSubscriptTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2284, col: 5, offset: 74027},
+					pos: position{line: 2296, col: 5, offset: 74431},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2284, col: 5, offset: 74027},
+							pos: position{line: 2296, col: 5, offset: 74431},
 							run: (*parser).callonSubscriptTextElement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2288, col: 5, offset: 74147},
+							pos:   position{line: 2300, col: 5, offset: 74551},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2288, col: 14, offset: 74156},
+								pos: position{line: 2300, col: 14, offset: 74560},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2288, col: 14, offset: 74156},
+										pos:  position{line: 2300, col: 14, offset: 74560},
 										name: "QuotedText",
 									},
 									&actionExpr{
-										pos: position{line: 2292, col: 21, offset: 74244},
+										pos: position{line: 2304, col: 21, offset: 74648},
 										run: (*parser).callonSubscriptTextElement7,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2292, col: 21, offset: 74244},
+											pos: position{line: 2304, col: 21, offset: 74648},
 											expr: &charClassMatcher{
-												pos:        position{line: 2292, col: 21, offset: 74244},
+												pos:        position{line: 2304, col: 21, offset: 74648},
 												val:        "[^\\r\\n ~]",
 												chars:      []rune{'\r', '\n', ' ', '~'},
 												ignoreCase: false,
@@ -43462,23 +44054,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2296, col: 1, offset: 74329},
+			pos:  position{line: 2308, col: 1, offset: 74733},
 			expr: &actionExpr{
-				pos: position{line: 2298, col: 5, offset: 74396},
+				pos: position{line: 2310, col: 5, offset: 74800},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2298, col: 5, offset: 74396},
+					pos: position{line: 2310, col: 5, offset: 74800},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2298, col: 5, offset: 74396},
+							pos:   position{line: 2310, col: 5, offset: 74800},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1861, col: 25, offset: 60326},
+								pos: position{line: 1873, col: 25, offset: 60730},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1861, col: 25, offset: 60326},
+									pos: position{line: 1873, col: 25, offset: 60730},
 									expr: &litMatcher{
-										pos:        position{line: 1861, col: 25, offset: 60326},
+										pos:        position{line: 1873, col: 25, offset: 60730},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43487,21 +44079,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2281, col: 27, offset: 73994},
+							pos:        position{line: 2293, col: 27, offset: 74398},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2300, col: 5, offset: 74464},
+							pos:   position{line: 2312, col: 5, offset: 74868},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2300, col: 14, offset: 74473},
+								pos:  position{line: 2312, col: 14, offset: 74877},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2281, col: 27, offset: 73994},
+							pos:        position{line: 2293, col: 27, offset: 74398},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43512,29 +44104,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2308, col: 1, offset: 74736},
+			pos:  position{line: 2320, col: 1, offset: 75140},
 			expr: &actionExpr{
-				pos: position{line: 2309, col: 5, offset: 74760},
+				pos: position{line: 2321, col: 5, offset: 75164},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2309, col: 5, offset: 74760},
+					pos: position{line: 2321, col: 5, offset: 75164},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2315, col: 29, offset: 74987},
+							pos:        position{line: 2327, col: 29, offset: 75391},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2310, col: 5, offset: 74790},
+							pos:   position{line: 2322, col: 5, offset: 75194},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2310, col: 14, offset: 74799},
+								pos:  position{line: 2322, col: 14, offset: 75203},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2315, col: 29, offset: 74987},
+							pos:        position{line: 2327, col: 29, offset: 75391},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43545,34 +44137,34 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2317, col: 1, offset: 74992},
+			pos:  position{line: 2329, col: 1, offset: 75396},
 			expr: &actionExpr{
-				pos: position{line: 2318, col: 5, offset: 75022},
+				pos: position{line: 2330, col: 5, offset: 75426},
 				run: (*parser).callonSuperscriptTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2318, col: 5, offset: 75022},
+					pos: position{line: 2330, col: 5, offset: 75426},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2318, col: 5, offset: 75022},
+							pos: position{line: 2330, col: 5, offset: 75426},
 							run: (*parser).callonSuperscriptTextElement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2322, col: 5, offset: 75142},
+							pos:   position{line: 2334, col: 5, offset: 75546},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2322, col: 14, offset: 75151},
+								pos: position{line: 2334, col: 14, offset: 75555},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2322, col: 14, offset: 75151},
+										pos:  position{line: 2334, col: 14, offset: 75555},
 										name: "QuotedText",
 									},
 									&actionExpr{
-										pos: position{line: 2326, col: 23, offset: 75243},
+										pos: position{line: 2338, col: 23, offset: 75647},
 										run: (*parser).callonSuperscriptTextElement7,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2326, col: 23, offset: 75243},
+											pos: position{line: 2338, col: 23, offset: 75647},
 											expr: &charClassMatcher{
-												pos:        position{line: 2326, col: 23, offset: 75243},
+												pos:        position{line: 2338, col: 23, offset: 75647},
 												val:        "[^\\r\\n ^]",
 												chars:      []rune{'\r', '\n', ' ', '^'},
 												ignoreCase: false,
@@ -43589,23 +44181,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2330, col: 1, offset: 75328},
+			pos:  position{line: 2342, col: 1, offset: 75732},
 			expr: &actionExpr{
-				pos: position{line: 2332, col: 5, offset: 75400},
+				pos: position{line: 2344, col: 5, offset: 75804},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2332, col: 5, offset: 75400},
+					pos: position{line: 2344, col: 5, offset: 75804},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2332, col: 5, offset: 75400},
+							pos:   position{line: 2344, col: 5, offset: 75804},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1861, col: 25, offset: 60326},
+								pos: position{line: 1873, col: 25, offset: 60730},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1861, col: 25, offset: 60326},
+									pos: position{line: 1873, col: 25, offset: 60730},
 									expr: &litMatcher{
-										pos:        position{line: 1861, col: 25, offset: 60326},
+										pos:        position{line: 1873, col: 25, offset: 60730},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43614,21 +44206,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2315, col: 29, offset: 74987},
+							pos:        position{line: 2327, col: 29, offset: 75391},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2334, col: 5, offset: 75470},
+							pos:   position{line: 2346, col: 5, offset: 75874},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2334, col: 14, offset: 75479},
+								pos:  position{line: 2346, col: 14, offset: 75883},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2315, col: 29, offset: 74987},
+							pos:        position{line: 2327, col: 29, offset: 75391},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43639,27 +44231,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2343, col: 1, offset: 75948},
+			pos:  position{line: 2355, col: 1, offset: 76352},
 			expr: &actionExpr{
-				pos: position{line: 2344, col: 5, offset: 75964},
+				pos: position{line: 2356, col: 5, offset: 76368},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2344, col: 5, offset: 75964},
+					pos: position{line: 2356, col: 5, offset: 76368},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2344, col: 5, offset: 75964},
+							pos: position{line: 2356, col: 5, offset: 76368},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2347, col: 5, offset: 76027},
+							pos:   position{line: 2359, col: 5, offset: 76431},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2347, col: 12, offset: 76034},
+								pos: position{line: 2359, col: 12, offset: 76438},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2347, col: 12, offset: 76034},
+									pos: position{line: 2359, col: 12, offset: 76438},
 									expr: &litMatcher{
-										pos:        position{line: 2347, col: 13, offset: 76035},
+										pos:        position{line: 2359, col: 13, offset: 76439},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -43668,16 +44260,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2351, col: 5, offset: 76143},
+							pos: position{line: 2363, col: 5, offset: 76547},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2926, col: 11, offset: 92509},
+							pos: position{line: 2938, col: 11, offset: 92913},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2926, col: 11, offset: 92509},
+								pos: position{line: 2938, col: 11, offset: 92913},
 								expr: &charClassMatcher{
-									pos:        position{line: 2926, col: 11, offset: 92509},
+									pos:        position{line: 2938, col: 11, offset: 92913},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43686,36 +44278,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2355, col: 12, offset: 76302},
+							pos:   position{line: 2367, col: 12, offset: 76706},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2355, col: 19, offset: 76309},
+								pos:  position{line: 2367, col: 19, offset: 76713},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92846},
+							pos: position{line: 2956, col: 8, offset: 93250},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92619},
+									pos: position{line: 2943, col: 12, offset: 93023},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92620},
+										pos: position{line: 2943, col: 13, offset: 93024},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92620},
+												pos:        position{line: 2943, col: 13, offset: 93024},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92627},
+												pos:        position{line: 2943, col: 20, offset: 93031},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92636},
+												pos:        position{line: 2943, col: 29, offset: 93040},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43724,9 +44316,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92796},
+									pos: position{line: 2953, col: 8, offset: 93200},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92797,
+										line: 2953, col: 9, offset: 93201,
 									},
 								},
 							},
@@ -43737,24 +44329,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2359, col: 1, offset: 76405},
+			pos:  position{line: 2371, col: 1, offset: 76809},
 			expr: &actionExpr{
-				pos: position{line: 2360, col: 5, offset: 76426},
+				pos: position{line: 2372, col: 5, offset: 76830},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2360, col: 5, offset: 76426},
+					pos: position{line: 2372, col: 5, offset: 76830},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2360, col: 5, offset: 76426},
+							pos: position{line: 2372, col: 5, offset: 76830},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2366, col: 5, offset: 76617},
+							pos:   position{line: 2378, col: 5, offset: 77021},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2366, col: 14, offset: 76626},
+								pos: position{line: 2378, col: 14, offset: 77030},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2366, col: 15, offset: 76627},
+									pos:  position{line: 2378, col: 15, offset: 77031},
 									name: "SectionTitleElement",
 								},
 							},
@@ -43765,38 +44357,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2370, col: 1, offset: 76708},
+			pos:  position{line: 2382, col: 1, offset: 77112},
 			expr: &actionExpr{
-				pos: position{line: 2371, col: 5, offset: 76735},
+				pos: position{line: 2383, col: 5, offset: 77139},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2371, col: 5, offset: 76735},
+					pos: position{line: 2383, col: 5, offset: 77139},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2371, col: 5, offset: 76735},
+							pos: position{line: 2383, col: 5, offset: 77139},
 							expr: &choiceExpr{
-								pos: position{line: 2944, col: 8, offset: 92846},
+								pos: position{line: 2956, col: 8, offset: 93250},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2931, col: 12, offset: 92619},
+										pos: position{line: 2943, col: 12, offset: 93023},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2931, col: 13, offset: 92620},
+											pos: position{line: 2943, col: 13, offset: 93024},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2931, col: 13, offset: 92620},
+													pos:        position{line: 2943, col: 13, offset: 93024},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 20, offset: 92627},
+													pos:        position{line: 2943, col: 20, offset: 93031},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 29, offset: 92636},
+													pos:        position{line: 2943, col: 29, offset: 93040},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43805,36 +44397,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2941, col: 8, offset: 92796},
+										pos: position{line: 2953, col: 8, offset: 93200},
 										expr: &anyMatcher{
-											line: 2941, col: 9, offset: 92797,
+											line: 2953, col: 9, offset: 93201,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2372, col: 5, offset: 76744},
+							pos:   position{line: 2384, col: 5, offset: 77148},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2373, col: 9, offset: 76762},
+								pos: position{line: 2385, col: 9, offset: 77166},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2821, col: 5, offset: 89690},
+										pos: position{line: 2833, col: 5, offset: 90094},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2821, col: 5, offset: 89690},
+											pos: position{line: 2833, col: 5, offset: 90094},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2821, col: 5, offset: 89690},
+													pos:   position{line: 2833, col: 5, offset: 90094},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2821, col: 11, offset: 89696},
+														pos: position{line: 2833, col: 11, offset: 90100},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2821, col: 11, offset: 89696},
+															pos: position{line: 2833, col: 11, offset: 90100},
 															expr: &charClassMatcher{
-																pos:        position{line: 2821, col: 11, offset: 89696},
+																pos:        position{line: 2833, col: 11, offset: 90100},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43844,36 +44436,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2824, col: 5, offset: 89754},
+													pos: position{line: 2836, col: 5, offset: 90158},
 													expr: &seqExpr{
-														pos: position{line: 2825, col: 9, offset: 89765},
+														pos: position{line: 2837, col: 9, offset: 90169},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2825, col: 9, offset: 89765},
+																pos:        position{line: 2837, col: 9, offset: 90169},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2826, col: 9, offset: 89814},
+																pos: position{line: 2838, col: 9, offset: 90218},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2830, col: 5, offset: 89894},
+													pos: position{line: 2842, col: 5, offset: 90298},
 													expr: &seqExpr{
-														pos: position{line: 2831, col: 9, offset: 89905},
+														pos: position{line: 2843, col: 9, offset: 90309},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2831, col: 9, offset: 89905},
+																pos:        position{line: 2843, col: 9, offset: 90309},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2831, col: 13, offset: 89909},
+																pos:        position{line: 2843, col: 13, offset: 90313},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43886,12 +44478,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2926, col: 11, offset: 92509},
+										pos: position{line: 2938, col: 11, offset: 92913},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2926, col: 11, offset: 92509},
+											pos: position{line: 2938, col: 11, offset: 92913},
 											expr: &charClassMatcher{
-												pos:        position{line: 2926, col: 11, offset: 92509},
+												pos:        position{line: 2938, col: 11, offset: 92913},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43900,21 +44492,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2543, col: 5, offset: 81971},
+										pos: position{line: 2555, col: 5, offset: 82375},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2543, col: 5, offset: 81971},
+											pos: position{line: 2555, col: 5, offset: 82375},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2543, col: 5, offset: 81971},
+													pos:        position{line: 2555, col: 5, offset: 82375},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2543, col: 10, offset: 81976},
+													pos: position{line: 2555, col: 10, offset: 82380},
 													expr: &charClassMatcher{
-														pos:        position{line: 2543, col: 11, offset: 81977},
+														pos:        position{line: 2555, col: 11, offset: 82381},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43925,29 +44517,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2549, col: 5, offset: 82169},
+										pos: position{line: 2561, col: 5, offset: 82573},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2549, col: 5, offset: 82169},
+											pos: position{line: 2561, col: 5, offset: 82573},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2549, col: 5, offset: 82169},
+													pos: position{line: 2561, col: 5, offset: 82573},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2552, col: 5, offset: 82240},
+													pos: position{line: 2564, col: 5, offset: 82644},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2556, col: 5, offset: 82365},
+													pos:        position{line: 2568, col: 5, offset: 82769},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2556, col: 9, offset: 82369},
+													pos: position{line: 2568, col: 9, offset: 82773},
 													expr: &charClassMatcher{
-														pos:        position{line: 2556, col: 10, offset: 82370},
+														pos:        position{line: 2568, col: 10, offset: 82774},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43958,31 +44550,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2376, col: 11, offset: 76827},
+										pos:  position{line: 2388, col: 11, offset: 77231},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2839, col: 5, offset: 90102},
+										pos: position{line: 2851, col: 5, offset: 90506},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2840, col: 9, offset: 90112},
+											pos: position{line: 2852, col: 9, offset: 90516},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2840, col: 10, offset: 90113},
+													pos:        position{line: 2852, col: 10, offset: 90517},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2842, col: 13, offset: 90210},
+													pos: position{line: 2854, col: 13, offset: 90614},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2842, col: 13, offset: 90210},
+															pos: position{line: 2854, col: 13, offset: 90614},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2845, col: 13, offset: 90310},
+															pos:        position{line: 2857, col: 13, offset: 90714},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43990,20 +44582,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2845, col: 19, offset: 90316},
+													pos:        position{line: 2857, col: 19, offset: 90720},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2848, col: 13, offset: 90354},
+													pos: position{line: 2860, col: 13, offset: 90758},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2848, col: 13, offset: 90354},
+															pos: position{line: 2860, col: 13, offset: 90758},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2851, col: 14, offset: 90447},
+															pos:        position{line: 2863, col: 14, offset: 90851},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -44012,18 +44604,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2853, col: 12, offset: 90491},
+													pos: position{line: 2865, col: 12, offset: 90895},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2853, col: 12, offset: 90491},
+															pos:        position{line: 2865, col: 12, offset: 90895},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2853, col: 16, offset: 90495},
+															pos: position{line: 2865, col: 16, offset: 90899},
 															expr: &litMatcher{
-																pos:        position{line: 2853, col: 17, offset: 90496},
+																pos:        position{line: 2865, col: 17, offset: 90900},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -44035,35 +44627,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2378, col: 11, offset: 76900},
+										pos:  position{line: 2390, col: 11, offset: 77304},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2379, col: 11, offset: 76916},
+										pos:  position{line: 2391, col: 11, offset: 77320},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2380, col: 11, offset: 76944},
+										pos:  position{line: 2392, col: 11, offset: 77348},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 5, offset: 80772},
+										pos: position{line: 2524, col: 5, offset: 81176},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 5, offset: 80772},
+											pos: position{line: 2524, col: 5, offset: 81176},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 80772},
+													pos: position{line: 2524, col: 5, offset: 81176},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 5, offset: 80848},
+													pos:   position{line: 2527, col: 5, offset: 81252},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2516, col: 9, offset: 80866},
+														pos: position{line: 2528, col: 9, offset: 81270},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2516, col: 10, offset: 80867},
+															pos:        position{line: 2528, col: 10, offset: 81271},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -44075,39 +44667,39 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2382, col: 11, offset: 77029},
+										pos:  position{line: 2394, col: 11, offset: 77433},
 										name: "InlineIcon",
 									},
 									&actionExpr{
-										pos: position{line: 649, col: 5, offset: 20791},
+										pos: position{line: 661, col: 5, offset: 21195},
 										run: (*parser).callonSectionTitleElement68,
 										expr: &seqExpr{
-											pos: position{line: 649, col: 5, offset: 20791},
+											pos: position{line: 661, col: 5, offset: 21195},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 649, col: 5, offset: 20791},
+													pos: position{line: 661, col: 5, offset: 21195},
 													run: (*parser).callonSectionTitleElement70,
 												},
 												&labeledExpr{
-													pos:   position{line: 652, col: 5, offset: 20863},
+													pos:   position{line: 664, col: 5, offset: 21267},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 652, col: 14, offset: 20872},
+														pos: position{line: 664, col: 14, offset: 21276},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 658, col: 5, offset: 21001},
+																pos: position{line: 670, col: 5, offset: 21405},
 																run: (*parser).callonSectionTitleElement73,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 5, offset: 21001},
+																	pos: position{line: 670, col: 5, offset: 21405},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 5, offset: 21001},
+																			pos:        position{line: 670, col: 5, offset: 21405},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 13, offset: 21009},
+																			pos:   position{line: 670, col: 13, offset: 21413},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -44139,7 +44731,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 32, offset: 21028},
+																			pos:        position{line: 670, col: 32, offset: 21432},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44148,19 +44740,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 665, col: 5, offset: 21269},
+																pos: position{line: 677, col: 5, offset: 21673},
 																run: (*parser).callonSectionTitleElement83,
 																expr: &seqExpr{
-																	pos: position{line: 665, col: 5, offset: 21269},
+																	pos: position{line: 677, col: 5, offset: 21673},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 665, col: 5, offset: 21269},
+																			pos:        position{line: 677, col: 5, offset: 21673},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 665, col: 9, offset: 21273},
+																			pos:   position{line: 677, col: 9, offset: 21677},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -44192,7 +44784,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 665, col: 28, offset: 21292},
+																			pos:        position{line: 677, col: 28, offset: 21696},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44201,19 +44793,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 671, col: 25, offset: 21473},
+																pos: position{line: 683, col: 25, offset: 21877},
 																run: (*parser).callonSectionTitleElement93,
 																expr: &seqExpr{
-																	pos: position{line: 671, col: 25, offset: 21473},
+																	pos: position{line: 683, col: 25, offset: 21877},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 671, col: 25, offset: 21473},
+																			pos:        position{line: 683, col: 25, offset: 21877},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 671, col: 37, offset: 21485},
+																			pos:   position{line: 683, col: 37, offset: 21889},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -44245,33 +44837,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 671, col: 56, offset: 21504},
+																			pos:   position{line: 683, col: 56, offset: 21908},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 671, col: 62, offset: 21510},
+																				pos: position{line: 683, col: 62, offset: 21914},
 																				expr: &actionExpr{
-																					pos: position{line: 679, col: 17, offset: 21807},
+																					pos: position{line: 691, col: 17, offset: 22211},
 																					run: (*parser).callonSectionTitleElement104,
 																					expr: &seqExpr{
-																						pos: position{line: 679, col: 17, offset: 21807},
+																						pos: position{line: 691, col: 17, offset: 22211},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 679, col: 17, offset: 21807},
+																								pos:        position{line: 691, col: 17, offset: 22211},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 679, col: 21, offset: 21811},
+																								pos:   position{line: 691, col: 21, offset: 22215},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 679, col: 28, offset: 21818},
+																									pos: position{line: 691, col: 28, offset: 22222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 679, col: 28, offset: 21818},
+																											pos: position{line: 691, col: 28, offset: 22222},
 																											run: (*parser).callonSectionTitleElement109,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 679, col: 28, offset: 21818},
+																												pos:        position{line: 691, col: 28, offset: 22222},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -44279,12 +44871,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 681, col: 9, offset: 21872},
+																											pos: position{line: 693, col: 9, offset: 22276},
 																											run: (*parser).callonSectionTitleElement111,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 681, col: 9, offset: 21872},
+																												pos: position{line: 693, col: 9, offset: 22276},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 681, col: 9, offset: 21872},
+																													pos:        position{line: 693, col: 9, offset: 22276},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44301,7 +44893,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 671, col: 78, offset: 21526},
+																			pos:        position{line: 683, col: 78, offset: 21930},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44310,19 +44902,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 675, col: 25, offset: 21644},
+																pos: position{line: 687, col: 25, offset: 22048},
 																run: (*parser).callonSectionTitleElement115,
 																expr: &seqExpr{
-																	pos: position{line: 675, col: 25, offset: 21644},
+																	pos: position{line: 687, col: 25, offset: 22048},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 675, col: 25, offset: 21644},
+																			pos:        position{line: 687, col: 25, offset: 22048},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 675, col: 38, offset: 21657},
+																			pos:   position{line: 687, col: 38, offset: 22061},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -44354,33 +44946,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 675, col: 57, offset: 21676},
+																			pos:   position{line: 687, col: 57, offset: 22080},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 675, col: 63, offset: 21682},
+																				pos: position{line: 687, col: 63, offset: 22086},
 																				expr: &actionExpr{
-																					pos: position{line: 679, col: 17, offset: 21807},
+																					pos: position{line: 691, col: 17, offset: 22211},
 																					run: (*parser).callonSectionTitleElement126,
 																					expr: &seqExpr{
-																						pos: position{line: 679, col: 17, offset: 21807},
+																						pos: position{line: 691, col: 17, offset: 22211},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 679, col: 17, offset: 21807},
+																								pos:        position{line: 691, col: 17, offset: 22211},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 679, col: 21, offset: 21811},
+																								pos:   position{line: 691, col: 21, offset: 22215},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 679, col: 28, offset: 21818},
+																									pos: position{line: 691, col: 28, offset: 22222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 679, col: 28, offset: 21818},
+																											pos: position{line: 691, col: 28, offset: 22222},
 																											run: (*parser).callonSectionTitleElement131,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 679, col: 28, offset: 21818},
+																												pos:        position{line: 691, col: 28, offset: 22222},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -44388,12 +44980,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 681, col: 9, offset: 21872},
+																											pos: position{line: 693, col: 9, offset: 22276},
 																											run: (*parser).callonSectionTitleElement133,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 681, col: 9, offset: 21872},
+																												pos: position{line: 693, col: 9, offset: 22276},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 681, col: 9, offset: 21872},
+																													pos:        position{line: 693, col: 9, offset: 22276},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44410,7 +45002,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 675, col: 79, offset: 21698},
+																			pos:        position{line: 687, col: 79, offset: 22102},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44425,27 +45017,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1211, col: 23, offset: 37656},
+										pos: position{line: 1223, col: 23, offset: 38060},
 										run: (*parser).callonSectionTitleElement137,
 										expr: &seqExpr{
-											pos: position{line: 1211, col: 23, offset: 37656},
+											pos: position{line: 1223, col: 23, offset: 38060},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1209, col: 32, offset: 37624},
+													pos:        position{line: 1221, col: 32, offset: 38028},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1211, col: 51, offset: 37684},
+													pos:   position{line: 1223, col: 51, offset: 38088},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1211, col: 56, offset: 37689},
+														pos: position{line: 1223, col: 56, offset: 38093},
 														run: (*parser).callonSectionTitleElement141,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1211, col: 56, offset: 37689},
+															pos: position{line: 1223, col: 56, offset: 38093},
 															expr: &charClassMatcher{
-																pos:        position{line: 1211, col: 56, offset: 37689},
+																pos:        position{line: 1223, col: 56, offset: 38093},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -44455,30 +45047,30 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1209, col: 32, offset: 37624},
+													pos:        position{line: 1221, col: 32, offset: 38028},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1211, col: 123, offset: 37756},
+													pos: position{line: 1223, col: 123, offset: 38160},
 													run: (*parser).callonSectionTitleElement145,
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2395, col: 5, offset: 77482},
+										pos: position{line: 2407, col: 5, offset: 77886},
 										run: (*parser).callonSectionTitleElement146,
 										expr: &seqExpr{
-											pos: position{line: 2395, col: 5, offset: 77482},
+											pos: position{line: 2407, col: 5, offset: 77886},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2395, col: 5, offset: 77482},
+													pos: position{line: 2407, col: 5, offset: 77886},
 													run: (*parser).callonSectionTitleElement148,
 												},
 												&labeledExpr{
-													pos:   position{line: 2398, col: 5, offset: 77537},
+													pos:   position{line: 2410, col: 5, offset: 77941},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 406, col: 5, offset: 12507},
@@ -44521,27 +45113,27 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 1211, col: 23, offset: 37656},
+																							pos: position{line: 1223, col: 23, offset: 38060},
 																							run: (*parser).callonSectionTitleElement161,
 																							expr: &seqExpr{
-																								pos: position{line: 1211, col: 23, offset: 37656},
+																								pos: position{line: 1223, col: 23, offset: 38060},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1209, col: 32, offset: 37624},
+																										pos:        position{line: 1221, col: 32, offset: 38028},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1211, col: 51, offset: 37684},
+																										pos:   position{line: 1223, col: 51, offset: 38088},
 																										label: "ref",
 																										expr: &actionExpr{
-																											pos: position{line: 1211, col: 56, offset: 37689},
+																											pos: position{line: 1223, col: 56, offset: 38093},
 																											run: (*parser).callonSectionTitleElement165,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1211, col: 56, offset: 37689},
+																												pos: position{line: 1223, col: 56, offset: 38093},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1211, col: 56, offset: 37689},
+																													pos:        position{line: 1223, col: 56, offset: 38093},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44551,48 +45143,48 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1209, col: 32, offset: 37624},
+																										pos:        position{line: 1221, col: 32, offset: 38028},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1211, col: 123, offset: 37756},
+																										pos: position{line: 1223, col: 123, offset: 38160},
 																										run: (*parser).callonSectionTitleElement169,
 																									},
 																								},
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 649, col: 5, offset: 20791},
+																							pos: position{line: 661, col: 5, offset: 21195},
 																							run: (*parser).callonSectionTitleElement170,
 																							expr: &seqExpr{
-																								pos: position{line: 649, col: 5, offset: 20791},
+																								pos: position{line: 661, col: 5, offset: 21195},
 																								exprs: []interface{}{
 																									&andCodeExpr{
-																										pos: position{line: 649, col: 5, offset: 20791},
+																										pos: position{line: 661, col: 5, offset: 21195},
 																										run: (*parser).callonSectionTitleElement172,
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 5, offset: 20863},
+																										pos:   position{line: 664, col: 5, offset: 21267},
 																										label: "element",
 																										expr: &choiceExpr{
-																											pos: position{line: 652, col: 14, offset: 20872},
+																											pos: position{line: 664, col: 14, offset: 21276},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 658, col: 5, offset: 21001},
+																													pos: position{line: 670, col: 5, offset: 21405},
 																													run: (*parser).callonSectionTitleElement175,
 																													expr: &seqExpr{
-																														pos: position{line: 658, col: 5, offset: 21001},
+																														pos: position{line: 670, col: 5, offset: 21405},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 658, col: 5, offset: 21001},
+																																pos:        position{line: 670, col: 5, offset: 21405},
 																																val:        "\\{",
 																																ignoreCase: false,
 																																want:       "\"\\\\{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 658, col: 13, offset: 21009},
+																																pos:   position{line: 670, col: 13, offset: 21413},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
@@ -44624,7 +45216,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 658, col: 32, offset: 21028},
+																																pos:        position{line: 670, col: 32, offset: 21432},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44633,19 +45225,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 665, col: 5, offset: 21269},
+																													pos: position{line: 677, col: 5, offset: 21673},
 																													run: (*parser).callonSectionTitleElement185,
 																													expr: &seqExpr{
-																														pos: position{line: 665, col: 5, offset: 21269},
+																														pos: position{line: 677, col: 5, offset: 21673},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 665, col: 5, offset: 21269},
+																																pos:        position{line: 677, col: 5, offset: 21673},
 																																val:        "{",
 																																ignoreCase: false,
 																																want:       "\"{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 665, col: 9, offset: 21273},
+																																pos:   position{line: 677, col: 9, offset: 21677},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
@@ -44677,7 +45269,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 665, col: 28, offset: 21292},
+																																pos:        position{line: 677, col: 28, offset: 21696},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44686,19 +45278,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 671, col: 25, offset: 21473},
+																													pos: position{line: 683, col: 25, offset: 21877},
 																													run: (*parser).callonSectionTitleElement195,
 																													expr: &seqExpr{
-																														pos: position{line: 671, col: 25, offset: 21473},
+																														pos: position{line: 683, col: 25, offset: 21877},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 671, col: 25, offset: 21473},
+																																pos:        position{line: 683, col: 25, offset: 21877},
 																																val:        "{counter:",
 																																ignoreCase: false,
 																																want:       "\"{counter:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 671, col: 37, offset: 21485},
+																																pos:   position{line: 683, col: 37, offset: 21889},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
@@ -44730,33 +45322,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 671, col: 56, offset: 21504},
+																																pos:   position{line: 683, col: 56, offset: 21908},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 671, col: 62, offset: 21510},
+																																	pos: position{line: 683, col: 62, offset: 21914},
 																																	expr: &actionExpr{
-																																		pos: position{line: 679, col: 17, offset: 21807},
+																																		pos: position{line: 691, col: 17, offset: 22211},
 																																		run: (*parser).callonSectionTitleElement206,
 																																		expr: &seqExpr{
-																																			pos: position{line: 679, col: 17, offset: 21807},
+																																			pos: position{line: 691, col: 17, offset: 22211},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 679, col: 17, offset: 21807},
+																																					pos:        position{line: 691, col: 17, offset: 22211},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 679, col: 21, offset: 21811},
+																																					pos:   position{line: 691, col: 21, offset: 22215},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 679, col: 28, offset: 21818},
+																																						pos: position{line: 691, col: 28, offset: 22222},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 679, col: 28, offset: 21818},
+																																								pos: position{line: 691, col: 28, offset: 22222},
 																																								run: (*parser).callonSectionTitleElement211,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 679, col: 28, offset: 21818},
+																																									pos:        position{line: 691, col: 28, offset: 22222},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -44764,12 +45356,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 681, col: 9, offset: 21872},
+																																								pos: position{line: 693, col: 9, offset: 22276},
 																																								run: (*parser).callonSectionTitleElement213,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 681, col: 9, offset: 21872},
+																																									pos: position{line: 693, col: 9, offset: 22276},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 681, col: 9, offset: 21872},
+																																										pos:        position{line: 693, col: 9, offset: 22276},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -44786,7 +45378,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 671, col: 78, offset: 21526},
+																																pos:        position{line: 683, col: 78, offset: 21930},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44795,19 +45387,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 675, col: 25, offset: 21644},
+																													pos: position{line: 687, col: 25, offset: 22048},
 																													run: (*parser).callonSectionTitleElement217,
 																													expr: &seqExpr{
-																														pos: position{line: 675, col: 25, offset: 21644},
+																														pos: position{line: 687, col: 25, offset: 22048},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 675, col: 25, offset: 21644},
+																																pos:        position{line: 687, col: 25, offset: 22048},
 																																val:        "{counter2:",
 																																ignoreCase: false,
 																																want:       "\"{counter2:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 675, col: 38, offset: 21657},
+																																pos:   position{line: 687, col: 38, offset: 22061},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
@@ -44839,33 +45431,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 675, col: 57, offset: 21676},
+																																pos:   position{line: 687, col: 57, offset: 22080},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 675, col: 63, offset: 21682},
+																																	pos: position{line: 687, col: 63, offset: 22086},
 																																	expr: &actionExpr{
-																																		pos: position{line: 679, col: 17, offset: 21807},
+																																		pos: position{line: 691, col: 17, offset: 22211},
 																																		run: (*parser).callonSectionTitleElement228,
 																																		expr: &seqExpr{
-																																			pos: position{line: 679, col: 17, offset: 21807},
+																																			pos: position{line: 691, col: 17, offset: 22211},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 679, col: 17, offset: 21807},
+																																					pos:        position{line: 691, col: 17, offset: 22211},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 679, col: 21, offset: 21811},
+																																					pos:   position{line: 691, col: 21, offset: 22215},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 679, col: 28, offset: 21818},
+																																						pos: position{line: 691, col: 28, offset: 22222},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 679, col: 28, offset: 21818},
+																																								pos: position{line: 691, col: 28, offset: 22222},
 																																								run: (*parser).callonSectionTitleElement233,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 679, col: 28, offset: 21818},
+																																									pos:        position{line: 691, col: 28, offset: 22222},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -44873,12 +45465,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 681, col: 9, offset: 21872},
+																																								pos: position{line: 693, col: 9, offset: 22276},
 																																								run: (*parser).callonSectionTitleElement235,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 681, col: 9, offset: 21872},
+																																									pos: position{line: 693, col: 9, offset: 22276},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 681, col: 9, offset: 21872},
+																																										pos:        position{line: 693, col: 9, offset: 22276},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -44895,7 +45487,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 675, col: 79, offset: 21698},
+																																pos:        position{line: 687, col: 79, offset: 22102},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44936,12 +45528,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2398, col: 26, offset: 77558},
+													pos: position{line: 2410, col: 26, offset: 77962},
 													expr: &actionExpr{
-														pos: position{line: 2922, col: 10, offset: 92448},
+														pos: position{line: 2934, col: 10, offset: 92852},
 														run: (*parser).callonSectionTitleElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92448},
+															pos:        position{line: 2934, col: 10, offset: 92852},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44950,30 +45542,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2398, col: 33, offset: 77565},
+													pos: position{line: 2410, col: 33, offset: 77969},
 													expr: &choiceExpr{
-														pos: position{line: 2944, col: 8, offset: 92846},
+														pos: position{line: 2956, col: 8, offset: 93250},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2931, col: 12, offset: 92619},
+																pos: position{line: 2943, col: 12, offset: 93023},
 																run: (*parser).callonSectionTitleElement247,
 																expr: &choiceExpr{
-																	pos: position{line: 2931, col: 13, offset: 92620},
+																	pos: position{line: 2943, col: 13, offset: 93024},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 13, offset: 92620},
+																			pos:        position{line: 2943, col: 13, offset: 93024},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 20, offset: 92627},
+																			pos:        position{line: 2943, col: 20, offset: 93031},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2931, col: 29, offset: 92636},
+																			pos:        position{line: 2943, col: 29, offset: 93040},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44982,9 +45574,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2941, col: 8, offset: 92796},
+																pos: position{line: 2953, col: 8, offset: 93200},
 																expr: &anyMatcher{
-																	line: 2941, col: 9, offset: 92797,
+																	line: 2953, col: 9, offset: 93201,
 																},
 															},
 														},
@@ -44994,27 +45586,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1266, col: 5, offset: 39463},
+										pos: position{line: 1278, col: 5, offset: 39867},
 										run: (*parser).callonSectionTitleElement254,
 										expr: &seqExpr{
-											pos: position{line: 1266, col: 5, offset: 39463},
+											pos: position{line: 1278, col: 5, offset: 39867},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1266, col: 5, offset: 39463},
+													pos:        position{line: 1278, col: 5, offset: 39867},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1266, col: 14, offset: 39472},
+													pos:   position{line: 1278, col: 14, offset: 39876},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 7, offset: 92100},
+														pos: position{line: 2919, col: 7, offset: 92504},
 														run: (*parser).callonSectionTitleElement258,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2907, col: 7, offset: 92100},
+															pos: position{line: 2919, col: 7, offset: 92504},
 															expr: &charClassMatcher{
-																pos:        position{line: 2907, col: 7, offset: 92100},
+																pos:        position{line: 2919, col: 7, offset: 92504},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45024,7 +45616,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1266, col: 22, offset: 39480},
+													pos:        position{line: 1278, col: 22, offset: 39884},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45033,27 +45625,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1271, col: 5, offset: 39599},
+										pos: position{line: 1283, col: 5, offset: 40003},
 										run: (*parser).callonSectionTitleElement262,
 										expr: &seqExpr{
-											pos: position{line: 1271, col: 5, offset: 39599},
+											pos: position{line: 1283, col: 5, offset: 40003},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1271, col: 5, offset: 39599},
+													pos:        position{line: 1283, col: 5, offset: 40003},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1271, col: 10, offset: 39604},
+													pos:   position{line: 1283, col: 10, offset: 40008},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 7, offset: 92100},
+														pos: position{line: 2919, col: 7, offset: 92504},
 														run: (*parser).callonSectionTitleElement266,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2907, col: 7, offset: 92100},
+															pos: position{line: 2919, col: 7, offset: 92504},
 															expr: &charClassMatcher{
-																pos:        position{line: 2907, col: 7, offset: 92100},
+																pos:        position{line: 2919, col: 7, offset: 92504},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45063,7 +45655,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1271, col: 18, offset: 39612},
+													pos:        position{line: 1283, col: 18, offset: 40016},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45072,14 +45664,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2387, col: 11, offset: 77283},
+										pos:  position{line: 2399, col: 11, offset: 77687},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90756},
+										pos: position{line: 2873, col: 12, offset: 91160},
 										run: (*parser).callonSectionTitleElement271,
 										expr: &charClassMatcher{
-											pos:        position{line: 2861, col: 12, offset: 90756},
+											pos:        position{line: 2873, col: 12, offset: 91160},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45095,52 +45687,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2408, col: 1, offset: 77827},
+			pos:  position{line: 2420, col: 1, offset: 78231},
 			expr: &actionExpr{
-				pos: position{line: 2409, col: 5, offset: 77914},
+				pos: position{line: 2421, col: 5, offset: 78318},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2409, col: 5, offset: 77914},
+					pos: position{line: 2421, col: 5, offset: 78318},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2409, col: 5, offset: 77914},
+							pos:   position{line: 2421, col: 5, offset: 78318},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2409, col: 14, offset: 77923},
+								pos: position{line: 2421, col: 14, offset: 78327},
 								expr: &actionExpr{
-									pos: position{line: 2411, col: 9, offset: 77949},
+									pos: position{line: 2423, col: 9, offset: 78353},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2411, col: 9, offset: 77949},
+										pos: position{line: 2423, col: 9, offset: 78353},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2939, col: 11, offset: 92782},
+												pos: position{line: 2951, col: 11, offset: 93186},
 												expr: &anyMatcher{
-													line: 2939, col: 13, offset: 92784,
+													line: 2951, col: 13, offset: 93188,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2412, col: 9, offset: 77964},
+												pos:   position{line: 2424, col: 9, offset: 78368},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2413, col: 13, offset: 77986},
+													pos: position{line: 2425, col: 13, offset: 78390},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2821, col: 5, offset: 89690},
+															pos: position{line: 2833, col: 5, offset: 90094},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2821, col: 5, offset: 89690},
+																pos: position{line: 2833, col: 5, offset: 90094},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2821, col: 5, offset: 89690},
+																		pos:   position{line: 2833, col: 5, offset: 90094},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2821, col: 11, offset: 89696},
+																			pos: position{line: 2833, col: 11, offset: 90100},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2821, col: 11, offset: 89696},
+																				pos: position{line: 2833, col: 11, offset: 90100},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2821, col: 11, offset: 89696},
+																					pos:        position{line: 2833, col: 11, offset: 90100},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45150,36 +45742,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2824, col: 5, offset: 89754},
+																		pos: position{line: 2836, col: 5, offset: 90158},
 																		expr: &seqExpr{
-																			pos: position{line: 2825, col: 9, offset: 89765},
+																			pos: position{line: 2837, col: 9, offset: 90169},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2825, col: 9, offset: 89765},
+																					pos:        position{line: 2837, col: 9, offset: 90169},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2826, col: 9, offset: 89814},
+																					pos: position{line: 2838, col: 9, offset: 90218},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2830, col: 5, offset: 89894},
+																		pos: position{line: 2842, col: 5, offset: 90298},
 																		expr: &seqExpr{
-																			pos: position{line: 2831, col: 9, offset: 89905},
+																			pos: position{line: 2843, col: 9, offset: 90309},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2831, col: 9, offset: 89905},
+																					pos:        position{line: 2843, col: 9, offset: 90309},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2831, col: 13, offset: 89909},
+																					pos:        position{line: 2843, col: 13, offset: 90313},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45192,12 +45784,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2926, col: 11, offset: 92509},
+															pos: position{line: 2938, col: 11, offset: 92913},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2926, col: 11, offset: 92509},
+																pos: position{line: 2938, col: 11, offset: 92913},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2926, col: 11, offset: 92509},
+																	pos:        position{line: 2938, col: 11, offset: 92913},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45206,25 +45798,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2415, col: 15, offset: 78032},
+															pos:  position{line: 2427, col: 15, offset: 78436},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2543, col: 5, offset: 81971},
+															pos: position{line: 2555, col: 5, offset: 82375},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2543, col: 5, offset: 81971},
+																pos: position{line: 2555, col: 5, offset: 82375},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2543, col: 5, offset: 81971},
+																		pos:        position{line: 2555, col: 5, offset: 82375},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2543, col: 10, offset: 81976},
+																		pos: position{line: 2555, col: 10, offset: 82380},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2543, col: 11, offset: 81977},
+																			pos:        position{line: 2555, col: 11, offset: 82381},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45235,29 +45827,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2549, col: 5, offset: 82169},
+															pos: position{line: 2561, col: 5, offset: 82573},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2549, col: 5, offset: 82169},
+																pos: position{line: 2561, col: 5, offset: 82573},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2549, col: 5, offset: 82169},
+																		pos: position{line: 2561, col: 5, offset: 82573},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2552, col: 5, offset: 82240},
+																		pos: position{line: 2564, col: 5, offset: 82644},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2556, col: 5, offset: 82365},
+																		pos:        position{line: 2568, col: 5, offset: 82769},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2556, col: 9, offset: 82369},
+																		pos: position{line: 2568, col: 9, offset: 82773},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2556, col: 10, offset: 82370},
+																			pos:        position{line: 2568, col: 10, offset: 82774},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45268,27 +45860,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2839, col: 5, offset: 90102},
+															pos: position{line: 2851, col: 5, offset: 90506},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2840, col: 9, offset: 90112},
+																pos: position{line: 2852, col: 9, offset: 90516},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2840, col: 10, offset: 90113},
+																		pos:        position{line: 2852, col: 10, offset: 90517},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2842, col: 13, offset: 90210},
+																		pos: position{line: 2854, col: 13, offset: 90614},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2842, col: 13, offset: 90210},
+																				pos: position{line: 2854, col: 13, offset: 90614},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2845, col: 13, offset: 90310},
+																				pos:        position{line: 2857, col: 13, offset: 90714},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45296,20 +45888,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2845, col: 19, offset: 90316},
+																		pos:        position{line: 2857, col: 19, offset: 90720},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2848, col: 13, offset: 90354},
+																		pos: position{line: 2860, col: 13, offset: 90758},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2848, col: 13, offset: 90354},
+																				pos: position{line: 2860, col: 13, offset: 90758},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2851, col: 14, offset: 90447},
+																				pos:        position{line: 2863, col: 14, offset: 90851},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45318,18 +45910,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2853, col: 12, offset: 90491},
+																		pos: position{line: 2865, col: 12, offset: 90895},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2853, col: 12, offset: 90491},
+																				pos:        position{line: 2865, col: 12, offset: 90895},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2853, col: 16, offset: 90495},
+																				pos: position{line: 2865, col: 16, offset: 90899},
 																				expr: &litMatcher{
-																					pos:        position{line: 2853, col: 17, offset: 90496},
+																					pos:        position{line: 2865, col: 17, offset: 90900},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45341,25 +45933,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2931, col: 12, offset: 92619},
+															pos: position{line: 2943, col: 12, offset: 93023},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2931, col: 13, offset: 92620},
+																pos: position{line: 2943, col: 13, offset: 93024},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 13, offset: 92620},
+																		pos:        position{line: 2943, col: 13, offset: 93024},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 20, offset: 92627},
+																		pos:        position{line: 2943, col: 20, offset: 93031},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2931, col: 29, offset: 92636},
+																		pos:        position{line: 2943, col: 29, offset: 93040},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45368,35 +45960,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 649, col: 5, offset: 20791},
+															pos: position{line: 661, col: 5, offset: 21195},
 															run: (*parser).callonNormalGroup60,
 															expr: &seqExpr{
-																pos: position{line: 649, col: 5, offset: 20791},
+																pos: position{line: 661, col: 5, offset: 21195},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 649, col: 5, offset: 20791},
+																		pos: position{line: 661, col: 5, offset: 21195},
 																		run: (*parser).callonNormalGroup62,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 652, col: 5, offset: 20863},
+																		pos:   position{line: 664, col: 5, offset: 21267},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 652, col: 14, offset: 20872},
+																			pos: position{line: 664, col: 14, offset: 21276},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 658, col: 5, offset: 21001},
+																					pos: position{line: 670, col: 5, offset: 21405},
 																					run: (*parser).callonNormalGroup65,
 																					expr: &seqExpr{
-																						pos: position{line: 658, col: 5, offset: 21001},
+																						pos: position{line: 670, col: 5, offset: 21405},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 658, col: 5, offset: 21001},
+																								pos:        position{line: 670, col: 5, offset: 21405},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 13, offset: 21009},
+																								pos:   position{line: 670, col: 13, offset: 21413},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -45428,7 +46020,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 658, col: 32, offset: 21028},
+																								pos:        position{line: 670, col: 32, offset: 21432},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45437,19 +46029,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 665, col: 5, offset: 21269},
+																					pos: position{line: 677, col: 5, offset: 21673},
 																					run: (*parser).callonNormalGroup75,
 																					expr: &seqExpr{
-																						pos: position{line: 665, col: 5, offset: 21269},
+																						pos: position{line: 677, col: 5, offset: 21673},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 665, col: 5, offset: 21269},
+																								pos:        position{line: 677, col: 5, offset: 21673},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 9, offset: 21273},
+																								pos:   position{line: 677, col: 9, offset: 21677},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -45481,7 +46073,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 665, col: 28, offset: 21292},
+																								pos:        position{line: 677, col: 28, offset: 21696},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45490,19 +46082,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 671, col: 25, offset: 21473},
+																					pos: position{line: 683, col: 25, offset: 21877},
 																					run: (*parser).callonNormalGroup85,
 																					expr: &seqExpr{
-																						pos: position{line: 671, col: 25, offset: 21473},
+																						pos: position{line: 683, col: 25, offset: 21877},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 671, col: 25, offset: 21473},
+																								pos:        position{line: 683, col: 25, offset: 21877},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 671, col: 37, offset: 21485},
+																								pos:   position{line: 683, col: 37, offset: 21889},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -45534,33 +46126,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 671, col: 56, offset: 21504},
+																								pos:   position{line: 683, col: 56, offset: 21908},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 671, col: 62, offset: 21510},
+																									pos: position{line: 683, col: 62, offset: 21914},
 																									expr: &actionExpr{
-																										pos: position{line: 679, col: 17, offset: 21807},
+																										pos: position{line: 691, col: 17, offset: 22211},
 																										run: (*parser).callonNormalGroup96,
 																										expr: &seqExpr{
-																											pos: position{line: 679, col: 17, offset: 21807},
+																											pos: position{line: 691, col: 17, offset: 22211},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 679, col: 17, offset: 21807},
+																													pos:        position{line: 691, col: 17, offset: 22211},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 679, col: 21, offset: 21811},
+																													pos:   position{line: 691, col: 21, offset: 22215},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 679, col: 28, offset: 21818},
+																														pos: position{line: 691, col: 28, offset: 22222},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 679, col: 28, offset: 21818},
+																																pos: position{line: 691, col: 28, offset: 22222},
 																																run: (*parser).callonNormalGroup101,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 679, col: 28, offset: 21818},
+																																	pos:        position{line: 691, col: 28, offset: 22222},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -45568,12 +46160,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 681, col: 9, offset: 21872},
+																																pos: position{line: 693, col: 9, offset: 22276},
 																																run: (*parser).callonNormalGroup103,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 681, col: 9, offset: 21872},
+																																	pos: position{line: 693, col: 9, offset: 22276},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 681, col: 9, offset: 21872},
+																																		pos:        position{line: 693, col: 9, offset: 22276},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -45590,7 +46182,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 671, col: 78, offset: 21526},
+																								pos:        position{line: 683, col: 78, offset: 21930},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45599,19 +46191,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 675, col: 25, offset: 21644},
+																					pos: position{line: 687, col: 25, offset: 22048},
 																					run: (*parser).callonNormalGroup107,
 																					expr: &seqExpr{
-																						pos: position{line: 675, col: 25, offset: 21644},
+																						pos: position{line: 687, col: 25, offset: 22048},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 675, col: 25, offset: 21644},
+																								pos:        position{line: 687, col: 25, offset: 22048},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 675, col: 38, offset: 21657},
+																								pos:   position{line: 687, col: 38, offset: 22061},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -45643,33 +46235,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 675, col: 57, offset: 21676},
+																								pos:   position{line: 687, col: 57, offset: 22080},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 675, col: 63, offset: 21682},
+																									pos: position{line: 687, col: 63, offset: 22086},
 																									expr: &actionExpr{
-																										pos: position{line: 679, col: 17, offset: 21807},
+																										pos: position{line: 691, col: 17, offset: 22211},
 																										run: (*parser).callonNormalGroup118,
 																										expr: &seqExpr{
-																											pos: position{line: 679, col: 17, offset: 21807},
+																											pos: position{line: 691, col: 17, offset: 22211},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 679, col: 17, offset: 21807},
+																													pos:        position{line: 691, col: 17, offset: 22211},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 679, col: 21, offset: 21811},
+																													pos:   position{line: 691, col: 21, offset: 22215},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 679, col: 28, offset: 21818},
+																														pos: position{line: 691, col: 28, offset: 22222},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 679, col: 28, offset: 21818},
+																																pos: position{line: 691, col: 28, offset: 22222},
 																																run: (*parser).callonNormalGroup123,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 679, col: 28, offset: 21818},
+																																	pos:        position{line: 691, col: 28, offset: 22222},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -45677,12 +46269,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 681, col: 9, offset: 21872},
+																																pos: position{line: 693, col: 9, offset: 22276},
 																																run: (*parser).callonNormalGroup125,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 681, col: 9, offset: 21872},
+																																	pos: position{line: 693, col: 9, offset: 22276},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 681, col: 9, offset: 21872},
+																																		pos:        position{line: 693, col: 9, offset: 22276},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -45699,7 +46291,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 675, col: 79, offset: 21698},
+																								pos:        position{line: 687, col: 79, offset: 22102},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45714,35 +46306,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2420, col: 15, offset: 78199},
+															pos:  position{line: 2432, col: 15, offset: 78603},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2421, col: 15, offset: 78219},
+															pos:  position{line: 2433, col: 15, offset: 78623},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2422, col: 15, offset: 78308},
+															pos:  position{line: 2434, col: 15, offset: 78712},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2512, col: 5, offset: 80772},
+															pos: position{line: 2524, col: 5, offset: 81176},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2512, col: 5, offset: 80772},
+																pos: position{line: 2524, col: 5, offset: 81176},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2512, col: 5, offset: 80772},
+																		pos: position{line: 2524, col: 5, offset: 81176},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2515, col: 5, offset: 80848},
+																		pos:   position{line: 2527, col: 5, offset: 81252},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2516, col: 9, offset: 80866},
+																			pos: position{line: 2528, col: 9, offset: 81270},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2516, col: 10, offset: 80867},
+																				pos:        position{line: 2528, col: 10, offset: 81271},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -45754,32 +46346,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1219, col: 5, offset: 38149},
+															pos: position{line: 1231, col: 5, offset: 38553},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 1219, col: 5, offset: 38149},
+																pos: position{line: 1231, col: 5, offset: 38553},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1219, col: 5, offset: 38149},
+																		pos: position{line: 1231, col: 5, offset: 38553},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1222, col: 5, offset: 38225},
+																		pos:        position{line: 1234, col: 5, offset: 38629},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1223, col: 5, offset: 38233},
+																		pos: position{line: 1235, col: 5, offset: 38637},
 																		run: (*parser).callonNormalGroup142,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1227, col: 5, offset: 38320},
+																		pos: position{line: 1239, col: 5, offset: 38724},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92448},
+																			pos: position{line: 2934, col: 10, offset: 92852},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92448},
+																				pos:        position{line: 2934, col: 10, offset: 92852},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45788,30 +46380,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1227, col: 12, offset: 38327},
+																		pos: position{line: 1239, col: 12, offset: 38731},
 																		expr: &choiceExpr{
-																			pos: position{line: 2944, col: 8, offset: 92846},
+																			pos: position{line: 2956, col: 8, offset: 93250},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92619},
+																					pos: position{line: 2943, col: 12, offset: 93023},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92620},
+																						pos: position{line: 2943, col: 13, offset: 93024},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92620},
+																								pos:        position{line: 2943, col: 13, offset: 93024},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92627},
+																								pos:        position{line: 2943, col: 20, offset: 93031},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92636},
+																								pos:        position{line: 2943, col: 29, offset: 93040},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45820,9 +46412,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2941, col: 8, offset: 92796},
+																					pos: position{line: 2953, col: 8, offset: 93200},
 																					expr: &anyMatcher{
-																						line: 2941, col: 9, offset: 92797,
+																						line: 2953, col: 9, offset: 93201,
 																					},
 																				},
 																			},
@@ -45832,31 +46424,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2425, col: 15, offset: 78490},
+															pos:  position{line: 2437, col: 15, offset: 78894},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1211, col: 23, offset: 37656},
+															pos: position{line: 1223, col: 23, offset: 38060},
 															run: (*parser).callonNormalGroup156,
 															expr: &seqExpr{
-																pos: position{line: 1211, col: 23, offset: 37656},
+																pos: position{line: 1223, col: 23, offset: 38060},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1209, col: 32, offset: 37624},
+																		pos:        position{line: 1221, col: 32, offset: 38028},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1211, col: 51, offset: 37684},
+																		pos:   position{line: 1223, col: 51, offset: 38088},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1211, col: 56, offset: 37689},
+																			pos: position{line: 1223, col: 56, offset: 38093},
 																			run: (*parser).callonNormalGroup160,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1211, col: 56, offset: 37689},
+																				pos: position{line: 1223, col: 56, offset: 38093},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1211, col: 56, offset: 37689},
+																					pos:        position{line: 1223, col: 56, offset: 38093},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -45866,23 +46458,23 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1209, col: 32, offset: 37624},
+																		pos:        position{line: 1221, col: 32, offset: 38028},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1211, col: 123, offset: 37756},
+																		pos: position{line: 1223, col: 123, offset: 38160},
 																		run: (*parser).callonNormalGroup164,
 																	},
 																},
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90756},
+															pos: position{line: 2873, col: 12, offset: 91160},
 															run: (*parser).callonNormalGroup165,
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 12, offset: 90756},
+																pos:        position{line: 2873, col: 12, offset: 91160},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45898,9 +46490,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92796},
+							pos: position{line: 2953, col: 8, offset: 93200},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92797,
+								line: 2953, col: 9, offset: 93201,
 							},
 						},
 					},
@@ -45909,28 +46501,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2436, col: 1, offset: 78928},
+			pos:  position{line: 2448, col: 1, offset: 79332},
 			expr: &actionExpr{
-				pos: position{line: 2437, col: 5, offset: 78961},
+				pos: position{line: 2449, col: 5, offset: 79365},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2437, col: 5, offset: 78961},
+					pos: position{line: 2449, col: 5, offset: 79365},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2437, col: 5, offset: 78961},
+							pos:   position{line: 2449, col: 5, offset: 79365},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2437, col: 14, offset: 78970},
+								pos: position{line: 2449, col: 14, offset: 79374},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2437, col: 15, offset: 78971},
+									pos:  position{line: 2449, col: 15, offset: 79375},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92796},
+							pos: position{line: 2953, col: 8, offset: 93200},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92797,
+								line: 2953, col: 9, offset: 93201,
 							},
 						},
 					},
@@ -45939,41 +46531,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2441, col: 1, offset: 79068},
+			pos:  position{line: 2453, col: 1, offset: 79472},
 			expr: &actionExpr{
-				pos: position{line: 2442, col: 5, offset: 79108},
+				pos: position{line: 2454, col: 5, offset: 79512},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2442, col: 5, offset: 79108},
+					pos: position{line: 2454, col: 5, offset: 79512},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2939, col: 11, offset: 92782},
+							pos: position{line: 2951, col: 11, offset: 93186},
 							expr: &anyMatcher{
-								line: 2939, col: 13, offset: 92784,
+								line: 2951, col: 13, offset: 93188,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2443, col: 5, offset: 79119},
+							pos:   position{line: 2455, col: 5, offset: 79523},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2444, col: 9, offset: 79137},
+								pos: position{line: 2456, col: 9, offset: 79541},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2821, col: 5, offset: 89690},
+										pos: position{line: 2833, col: 5, offset: 90094},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2821, col: 5, offset: 89690},
+											pos: position{line: 2833, col: 5, offset: 90094},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2821, col: 5, offset: 89690},
+													pos:   position{line: 2833, col: 5, offset: 90094},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2821, col: 11, offset: 89696},
+														pos: position{line: 2833, col: 11, offset: 90100},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2821, col: 11, offset: 89696},
+															pos: position{line: 2833, col: 11, offset: 90100},
 															expr: &charClassMatcher{
-																pos:        position{line: 2821, col: 11, offset: 89696},
+																pos:        position{line: 2833, col: 11, offset: 90100},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45983,36 +46575,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2824, col: 5, offset: 89754},
+													pos: position{line: 2836, col: 5, offset: 90158},
 													expr: &seqExpr{
-														pos: position{line: 2825, col: 9, offset: 89765},
+														pos: position{line: 2837, col: 9, offset: 90169},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2825, col: 9, offset: 89765},
+																pos:        position{line: 2837, col: 9, offset: 90169},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2826, col: 9, offset: 89814},
+																pos: position{line: 2838, col: 9, offset: 90218},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2830, col: 5, offset: 89894},
+													pos: position{line: 2842, col: 5, offset: 90298},
 													expr: &seqExpr{
-														pos: position{line: 2831, col: 9, offset: 89905},
+														pos: position{line: 2843, col: 9, offset: 90309},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2831, col: 9, offset: 89905},
+																pos:        position{line: 2843, col: 9, offset: 90309},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2831, col: 13, offset: 89909},
+																pos:        position{line: 2843, col: 13, offset: 90313},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46025,10 +46617,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2922, col: 10, offset: 92448},
+										pos: position{line: 2934, col: 10, offset: 92852},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2922, col: 10, offset: 92448},
+											pos:        position{line: 2934, col: 10, offset: 92852},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -46036,31 +46628,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2446, col: 11, offset: 79175},
+										pos:  position{line: 2458, col: 11, offset: 79579},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2839, col: 5, offset: 90102},
+										pos: position{line: 2851, col: 5, offset: 90506},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2840, col: 9, offset: 90112},
+											pos: position{line: 2852, col: 9, offset: 90516},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2840, col: 10, offset: 90113},
+													pos:        position{line: 2852, col: 10, offset: 90517},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2842, col: 13, offset: 90210},
+													pos: position{line: 2854, col: 13, offset: 90614},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2842, col: 13, offset: 90210},
+															pos: position{line: 2854, col: 13, offset: 90614},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2845, col: 13, offset: 90310},
+															pos:        position{line: 2857, col: 13, offset: 90714},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46068,20 +46660,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2845, col: 19, offset: 90316},
+													pos:        position{line: 2857, col: 19, offset: 90720},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2848, col: 13, offset: 90354},
+													pos: position{line: 2860, col: 13, offset: 90758},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2848, col: 13, offset: 90354},
+															pos: position{line: 2860, col: 13, offset: 90758},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2851, col: 14, offset: 90447},
+															pos:        position{line: 2863, col: 14, offset: 90851},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46090,18 +46682,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2853, col: 12, offset: 90491},
+													pos: position{line: 2865, col: 12, offset: 90895},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2853, col: 12, offset: 90491},
+															pos:        position{line: 2865, col: 12, offset: 90895},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2853, col: 16, offset: 90495},
+															pos: position{line: 2865, col: 16, offset: 90899},
 															expr: &litMatcher{
-																pos:        position{line: 2853, col: 17, offset: 90496},
+																pos:        position{line: 2865, col: 17, offset: 90900},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46113,31 +46705,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2448, col: 11, offset: 79248},
+										pos:  position{line: 2460, col: 11, offset: 79652},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2449, col: 11, offset: 79264},
+										pos:  position{line: 2461, col: 11, offset: 79668},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 5, offset: 80772},
+										pos: position{line: 2524, col: 5, offset: 81176},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 5, offset: 80772},
+											pos: position{line: 2524, col: 5, offset: 81176},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 80772},
+													pos: position{line: 2524, col: 5, offset: 81176},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 5, offset: 80848},
+													pos:   position{line: 2527, col: 5, offset: 81252},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2516, col: 9, offset: 80866},
+														pos: position{line: 2528, col: 9, offset: 81270},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2516, col: 10, offset: 80867},
+															pos:        position{line: 2528, col: 10, offset: 81271},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46149,27 +46741,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1211, col: 23, offset: 37656},
+										pos: position{line: 1223, col: 23, offset: 38060},
 										run: (*parser).callonAttributeStructuredValueElement46,
 										expr: &seqExpr{
-											pos: position{line: 1211, col: 23, offset: 37656},
+											pos: position{line: 1223, col: 23, offset: 38060},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1209, col: 32, offset: 37624},
+													pos:        position{line: 1221, col: 32, offset: 38028},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1211, col: 51, offset: 37684},
+													pos:   position{line: 1223, col: 51, offset: 38088},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1211, col: 56, offset: 37689},
+														pos: position{line: 1223, col: 56, offset: 38093},
 														run: (*parser).callonAttributeStructuredValueElement50,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1211, col: 56, offset: 37689},
+															pos: position{line: 1223, col: 56, offset: 38093},
 															expr: &charClassMatcher{
-																pos:        position{line: 1211, col: 56, offset: 37689},
+																pos:        position{line: 1223, col: 56, offset: 38093},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -46179,38 +46771,38 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1209, col: 32, offset: 37624},
+													pos:        position{line: 1221, col: 32, offset: 38028},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1211, col: 123, offset: 37756},
+													pos: position{line: 1223, col: 123, offset: 38160},
 													run: (*parser).callonAttributeStructuredValueElement54,
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2931, col: 12, offset: 92619},
+										pos: position{line: 2943, col: 12, offset: 93023},
 										run: (*parser).callonAttributeStructuredValueElement55,
 										expr: &choiceExpr{
-											pos: position{line: 2931, col: 13, offset: 92620},
+											pos: position{line: 2943, col: 13, offset: 93024},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2931, col: 13, offset: 92620},
+													pos:        position{line: 2943, col: 13, offset: 93024},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 20, offset: 92627},
+													pos:        position{line: 2943, col: 20, offset: 93031},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2931, col: 29, offset: 92636},
+													pos:        position{line: 2943, col: 29, offset: 93040},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46219,10 +46811,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90756},
+										pos: position{line: 2873, col: 12, offset: 91160},
 										run: (*parser).callonAttributeStructuredValueElement60,
 										expr: &charClassMatcher{
-											pos:        position{line: 2861, col: 12, offset: 90756},
+											pos:        position{line: 2873, col: 12, offset: 91160},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46238,73 +46830,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2460, col: 1, offset: 79534},
+			pos:  position{line: 2472, col: 1, offset: 79938},
 			expr: &actionExpr{
-				pos: position{line: 2462, col: 5, offset: 79616},
+				pos: position{line: 2474, col: 5, offset: 80020},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2462, col: 5, offset: 79616},
+					pos: position{line: 2474, col: 5, offset: 80020},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2462, col: 5, offset: 79616},
+							pos: position{line: 2474, col: 5, offset: 80020},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2465, col: 5, offset: 79681},
+							pos:   position{line: 2477, col: 5, offset: 80085},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2466, col: 9, offset: 79699},
+								pos: position{line: 2478, col: 9, offset: 80103},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2466, col: 9, offset: 79699},
+										pos:  position{line: 2478, col: 9, offset: 80103},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2467, col: 11, offset: 79720},
+										pos:  position{line: 2479, col: 11, offset: 80124},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2468, col: 11, offset: 79743},
+										pos:  position{line: 2480, col: 11, offset: 80147},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2469, col: 11, offset: 79759},
+										pos:  position{line: 2481, col: 11, offset: 80163},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2470, col: 11, offset: 79788},
+										pos:  position{line: 2482, col: 11, offset: 80192},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2471, col: 11, offset: 79814},
+										pos:  position{line: 2483, col: 11, offset: 80218},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2472, col: 11, offset: 79840},
+										pos:  position{line: 2484, col: 11, offset: 80244},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1266, col: 5, offset: 39463},
+										pos: position{line: 1278, col: 5, offset: 39867},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1266, col: 5, offset: 39463},
+											pos: position{line: 1278, col: 5, offset: 39867},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1266, col: 5, offset: 39463},
+													pos:        position{line: 1278, col: 5, offset: 39867},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1266, col: 14, offset: 39472},
+													pos:   position{line: 1278, col: 14, offset: 39876},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 7, offset: 92100},
+														pos: position{line: 2919, col: 7, offset: 92504},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2907, col: 7, offset: 92100},
+															pos: position{line: 2919, col: 7, offset: 92504},
 															expr: &charClassMatcher{
-																pos:        position{line: 2907, col: 7, offset: 92100},
+																pos:        position{line: 2919, col: 7, offset: 92504},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46314,7 +46906,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1266, col: 22, offset: 39480},
+													pos:        position{line: 1278, col: 22, offset: 39884},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46323,27 +46915,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1271, col: 5, offset: 39599},
+										pos: position{line: 1283, col: 5, offset: 40003},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1271, col: 5, offset: 39599},
+											pos: position{line: 1283, col: 5, offset: 40003},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1271, col: 5, offset: 39599},
+													pos:        position{line: 1283, col: 5, offset: 40003},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1271, col: 10, offset: 39604},
+													pos:   position{line: 1283, col: 10, offset: 40008},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 7, offset: 92100},
+														pos: position{line: 2919, col: 7, offset: 92504},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2907, col: 7, offset: 92100},
+															pos: position{line: 2919, col: 7, offset: 92504},
 															expr: &charClassMatcher{
-																pos:        position{line: 2907, col: 7, offset: 92100},
+																pos:        position{line: 2919, col: 7, offset: 92504},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46353,7 +46945,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1271, col: 18, offset: 39612},
+													pos:        position{line: 1283, col: 18, offset: 40016},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46362,40 +46954,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1310, col: 23, offset: 41088},
+										pos: position{line: 1322, col: 23, offset: 41492},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1310, col: 23, offset: 41088},
+											pos: position{line: 1322, col: 23, offset: 41492},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1310, col: 23, offset: 41088},
+													pos:        position{line: 1322, col: 23, offset: 41492},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1310, col: 29, offset: 41094},
+													pos:   position{line: 1322, col: 29, offset: 41498},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1317, col: 30, offset: 41425},
+														pos: position{line: 1329, col: 30, offset: 41829},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1317, col: 30, offset: 41425},
+															pos: position{line: 1329, col: 30, offset: 41829},
 															expr: &choiceExpr{
-																pos: position{line: 1317, col: 31, offset: 41426},
+																pos: position{line: 1329, col: 31, offset: 41830},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2812, col: 13, offset: 89543},
+																		pos:        position{line: 2824, col: 13, offset: 89947},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2922, col: 10, offset: 92448},
+																		pos: position{line: 2934, col: 10, offset: 92852},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92448},
+																			pos:        position{line: 2934, col: 10, offset: 92852},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46408,23 +47000,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1311, col: 5, offset: 41133},
+													pos:   position{line: 1323, col: 5, offset: 41537},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1311, col: 11, offset: 41139},
+														pos: position{line: 1323, col: 11, offset: 41543},
 														expr: &actionExpr{
-															pos: position{line: 1311, col: 12, offset: 41140},
+															pos: position{line: 1323, col: 12, offset: 41544},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1311, col: 12, offset: 41140},
+																pos: position{line: 1323, col: 12, offset: 41544},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1311, col: 12, offset: 41140},
+																		pos: position{line: 1323, col: 12, offset: 41544},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92448},
+																			pos: position{line: 2934, col: 10, offset: 92852},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92448},
+																				pos:        position{line: 2934, col: 10, offset: 92852},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46433,18 +47025,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1311, col: 19, offset: 41147},
+																		pos:        position{line: 1323, col: 19, offset: 41551},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1311, col: 23, offset: 41151},
+																		pos: position{line: 1323, col: 23, offset: 41555},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92448},
+																			pos: position{line: 2934, col: 10, offset: 92852},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92448},
+																				pos:        position{line: 2934, col: 10, offset: 92852},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46453,28 +47045,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1311, col: 30, offset: 41158},
+																		pos:   position{line: 1323, col: 30, offset: 41562},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1317, col: 30, offset: 41425},
+																			pos: position{line: 1329, col: 30, offset: 41829},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1317, col: 30, offset: 41425},
+																				pos: position{line: 1329, col: 30, offset: 41829},
 																				expr: &choiceExpr{
-																					pos: position{line: 1317, col: 31, offset: 41426},
+																					pos: position{line: 1329, col: 31, offset: 41830},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2812, col: 13, offset: 89543},
+																							pos:        position{line: 2824, col: 13, offset: 89947},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92448},
+																							pos: position{line: 2934, col: 10, offset: 92852},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92448},
+																								pos:        position{line: 2934, col: 10, offset: 92852},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46492,23 +47084,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1312, col: 5, offset: 41225},
+													pos:   position{line: 1324, col: 5, offset: 41629},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1312, col: 11, offset: 41231},
+														pos: position{line: 1324, col: 11, offset: 41635},
 														expr: &actionExpr{
-															pos: position{line: 1312, col: 12, offset: 41232},
+															pos: position{line: 1324, col: 12, offset: 41636},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1312, col: 12, offset: 41232},
+																pos: position{line: 1324, col: 12, offset: 41636},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1312, col: 12, offset: 41232},
+																		pos: position{line: 1324, col: 12, offset: 41636},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92448},
+																			pos: position{line: 2934, col: 10, offset: 92852},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92448},
+																				pos:        position{line: 2934, col: 10, offset: 92852},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46517,18 +47109,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1312, col: 19, offset: 41239},
+																		pos:        position{line: 1324, col: 19, offset: 41643},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1312, col: 23, offset: 41243},
+																		pos: position{line: 1324, col: 23, offset: 41647},
 																		expr: &actionExpr{
-																			pos: position{line: 2922, col: 10, offset: 92448},
+																			pos: position{line: 2934, col: 10, offset: 92852},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 10, offset: 92448},
+																				pos:        position{line: 2934, col: 10, offset: 92852},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46537,28 +47129,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1312, col: 30, offset: 41250},
+																		pos:   position{line: 1324, col: 30, offset: 41654},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1317, col: 30, offset: 41425},
+																			pos: position{line: 1329, col: 30, offset: 41829},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1317, col: 30, offset: 41425},
+																				pos: position{line: 1329, col: 30, offset: 41829},
 																				expr: &choiceExpr{
-																					pos: position{line: 1317, col: 31, offset: 41426},
+																					pos: position{line: 1329, col: 31, offset: 41830},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2812, col: 13, offset: 89543},
+																							pos:        position{line: 2824, col: 13, offset: 89947},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2922, col: 10, offset: 92448},
+																							pos: position{line: 2934, col: 10, offset: 92852},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2922, col: 10, offset: 92448},
+																								pos:        position{line: 2934, col: 10, offset: 92852},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46576,7 +47168,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1313, col: 5, offset: 41317},
+													pos:        position{line: 1325, col: 5, offset: 41721},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -46585,15 +47177,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2475, col: 11, offset: 79919},
+										pos:  position{line: 2487, col: 11, offset: 80323},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2476, col: 11, offset: 79939},
+										pos:  position{line: 2488, col: 11, offset: 80343},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2477, col: 11, offset: 79962},
+										pos:  position{line: 2489, col: 11, offset: 80366},
 										name: "InlineMenu",
 									},
 								},
@@ -46605,80 +47197,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2481, col: 1, offset: 80019},
+			pos:  position{line: 2493, col: 1, offset: 80423},
 			expr: &actionExpr{
-				pos: position{line: 2483, col: 5, offset: 80107},
+				pos: position{line: 2495, col: 5, offset: 80511},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2483, col: 5, offset: 80107},
+					pos: position{line: 2495, col: 5, offset: 80511},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2483, col: 5, offset: 80107},
+							pos: position{line: 2495, col: 5, offset: 80511},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2486, col: 5, offset: 80184},
+							pos:   position{line: 2498, col: 5, offset: 80588},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2487, col: 9, offset: 80202},
+								pos: position{line: 2499, col: 9, offset: 80606},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1397, col: 26, offset: 44811},
+										pos: position{line: 1409, col: 26, offset: 45215},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1397, col: 26, offset: 44811},
+											pos: position{line: 1409, col: 26, offset: 45215},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1395, col: 32, offset: 44779},
+													pos:        position{line: 1407, col: 32, offset: 45183},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1397, col: 54, offset: 44839},
+													pos:   position{line: 1409, col: 54, offset: 45243},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1401, col: 33, offset: 45042},
+														pos: position{line: 1413, col: 33, offset: 45446},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1401, col: 34, offset: 45043},
+																pos: position{line: 1413, col: 34, offset: 45447},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1401, col: 34, offset: 45043},
+																	pos: position{line: 1413, col: 34, offset: 45447},
 																	expr: &seqExpr{
-																		pos: position{line: 1401, col: 35, offset: 45044},
+																		pos: position{line: 1413, col: 35, offset: 45448},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1401, col: 35, offset: 45044},
+																				pos: position{line: 1413, col: 35, offset: 45448},
 																				expr: &litMatcher{
-																					pos:        position{line: 1395, col: 32, offset: 44779},
+																					pos:        position{line: 1407, col: 32, offset: 45183},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1401, col: 64, offset: 45073,
+																				line: 1413, col: 64, offset: 45477,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1403, col: 11, offset: 45246},
+																pos: position{line: 1415, col: 11, offset: 45650},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1403, col: 11, offset: 45246},
+																	pos: position{line: 1415, col: 11, offset: 45650},
 																	expr: &seqExpr{
-																		pos: position{line: 1403, col: 12, offset: 45247},
+																		pos: position{line: 1415, col: 12, offset: 45651},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1403, col: 12, offset: 45247},
+																				pos: position{line: 1415, col: 12, offset: 45651},
 																				expr: &actionExpr{
-																					pos: position{line: 2922, col: 10, offset: 92448},
+																					pos: position{line: 2934, col: 10, offset: 92852},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2922, col: 10, offset: 92448},
+																						pos:        position{line: 2934, col: 10, offset: 92852},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46687,27 +47279,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1403, col: 19, offset: 45254},
+																				pos: position{line: 1415, col: 19, offset: 45658},
 																				expr: &actionExpr{
-																					pos: position{line: 2931, col: 12, offset: 92619},
+																					pos: position{line: 2943, col: 12, offset: 93023},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2931, col: 13, offset: 92620},
+																						pos: position{line: 2943, col: 13, offset: 93024},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 13, offset: 92620},
+																								pos:        position{line: 2943, col: 13, offset: 93024},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 20, offset: 92627},
+																								pos:        position{line: 2943, col: 20, offset: 93031},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2931, col: 29, offset: 92636},
+																								pos:        position{line: 2943, col: 29, offset: 93040},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46717,16 +47309,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1403, col: 28, offset: 45263},
+																				pos: position{line: 1415, col: 28, offset: 45667},
 																				expr: &litMatcher{
-																					pos:        position{line: 1395, col: 32, offset: 44779},
+																					pos:        position{line: 1407, col: 32, offset: 45183},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1403, col: 57, offset: 45292,
+																				line: 1415, col: 57, offset: 45696,
 																			},
 																		},
 																	},
@@ -46736,7 +47328,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1395, col: 32, offset: 44779},
+													pos:        position{line: 1407, col: 32, offset: 45183},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
@@ -46745,45 +47337,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1385, col: 26, offset: 44094},
+										pos: position{line: 1397, col: 26, offset: 44498},
 										run: (*parser).callonInlinePassthrough33,
 										expr: &seqExpr{
-											pos: position{line: 1385, col: 26, offset: 44094},
+											pos: position{line: 1397, col: 26, offset: 44498},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1383, col: 32, offset: 44064},
+													pos:        position{line: 1395, col: 32, offset: 44468},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1385, col: 54, offset: 44122},
+													pos:   position{line: 1397, col: 54, offset: 44526},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1389, col: 33, offset: 44335},
+														pos: position{line: 1401, col: 33, offset: 44739},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1389, col: 34, offset: 44336},
+																pos: position{line: 1401, col: 34, offset: 44740},
 																run: (*parser).callonInlinePassthrough38,
 																expr: &seqExpr{
-																	pos: position{line: 1389, col: 34, offset: 44336},
+																	pos: position{line: 1401, col: 34, offset: 44740},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1389, col: 35, offset: 44337},
+																			pos: position{line: 1401, col: 35, offset: 44741},
 																			expr: &litMatcher{
-																				pos:        position{line: 1383, col: 32, offset: 44064},
+																				pos:        position{line: 1395, col: 32, offset: 44468},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1389, col: 64, offset: 44366},
+																			pos: position{line: 1401, col: 64, offset: 44770},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92448},
+																				pos: position{line: 2934, col: 10, offset: 92852},
 																				run: (*parser).callonInlinePassthrough43,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92448},
+																					pos:        position{line: 2934, col: 10, offset: 92852},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46792,27 +47384,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1389, col: 71, offset: 44373},
+																			pos: position{line: 1401, col: 71, offset: 44777},
 																			expr: &actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
+																				pos: position{line: 2943, col: 12, offset: 93023},
 																				run: (*parser).callonInlinePassthrough46,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46822,25 +47414,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1389, col: 80, offset: 44382,
+																			line: 1401, col: 80, offset: 44786,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1389, col: 83, offset: 44385},
+																			pos: position{line: 1401, col: 83, offset: 44789},
 																			expr: &seqExpr{
-																				pos: position{line: 1389, col: 84, offset: 44386},
+																				pos: position{line: 1401, col: 84, offset: 44790},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1389, col: 84, offset: 44386},
+																						pos: position{line: 1401, col: 84, offset: 44790},
 																						expr: &seqExpr{
-																							pos: position{line: 1389, col: 86, offset: 44388},
+																							pos: position{line: 1401, col: 86, offset: 44792},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2926, col: 11, offset: 92509},
+																									pos: position{line: 2938, col: 11, offset: 92913},
 																									run: (*parser).callonInlinePassthrough56,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2926, col: 11, offset: 92509},
+																										pos: position{line: 2938, col: 11, offset: 92913},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2926, col: 11, offset: 92509},
+																											pos:        position{line: 2938, col: 11, offset: 92913},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46849,7 +47441,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1383, col: 32, offset: 44064},
+																									pos:        position{line: 1395, col: 32, offset: 44468},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -46858,36 +47450,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1389, col: 122, offset: 44424},
+																						pos: position{line: 1401, col: 122, offset: 44828},
 																						expr: &litMatcher{
-																							pos:        position{line: 1383, col: 32, offset: 44064},
+																							pos:        position{line: 1395, col: 32, offset: 44468},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1389, col: 151, offset: 44453},
+																						pos: position{line: 1401, col: 151, offset: 44857},
 																						expr: &actionExpr{
-																							pos: position{line: 2931, col: 12, offset: 92619},
+																							pos: position{line: 2943, col: 12, offset: 93023},
 																							run: (*parser).callonInlinePassthrough63,
 																							expr: &choiceExpr{
-																								pos: position{line: 2931, col: 13, offset: 92620},
+																								pos: position{line: 2943, col: 13, offset: 93024},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 13, offset: 92620},
+																										pos:        position{line: 2943, col: 13, offset: 93024},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 20, offset: 92627},
+																										pos:        position{line: 2943, col: 20, offset: 93031},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2931, col: 29, offset: 92636},
+																										pos:        position{line: 2943, col: 29, offset: 93040},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46897,7 +47489,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1389, col: 160, offset: 44462,
+																						line: 1401, col: 160, offset: 44866,
 																					},
 																				},
 																			},
@@ -46906,18 +47498,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1391, col: 11, offset: 44612},
+																pos: position{line: 1403, col: 11, offset: 45016},
 																run: (*parser).callonInlinePassthrough69,
 																expr: &seqExpr{
-																	pos: position{line: 1391, col: 12, offset: 44613},
+																	pos: position{line: 1403, col: 12, offset: 45017},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1391, col: 12, offset: 44613},
+																			pos: position{line: 1403, col: 12, offset: 45017},
 																			expr: &actionExpr{
-																				pos: position{line: 2922, col: 10, offset: 92448},
+																				pos: position{line: 2934, col: 10, offset: 92852},
 																				run: (*parser).callonInlinePassthrough72,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92448},
+																					pos:        position{line: 2934, col: 10, offset: 92852},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46926,27 +47518,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1391, col: 19, offset: 44620},
+																			pos: position{line: 1403, col: 19, offset: 45024},
 																			expr: &actionExpr{
-																				pos: position{line: 2931, col: 12, offset: 92619},
+																				pos: position{line: 2943, col: 12, offset: 93023},
 																				run: (*parser).callonInlinePassthrough75,
 																				expr: &choiceExpr{
-																					pos: position{line: 2931, col: 13, offset: 92620},
+																					pos: position{line: 2943, col: 13, offset: 93024},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 13, offset: 92620},
+																							pos:        position{line: 2943, col: 13, offset: 93024},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 20, offset: 92627},
+																							pos:        position{line: 2943, col: 20, offset: 93031},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2931, col: 29, offset: 92636},
+																							pos:        position{line: 2943, col: 29, offset: 93040},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46956,16 +47548,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1391, col: 28, offset: 44629},
+																			pos: position{line: 1403, col: 28, offset: 45033},
 																			expr: &litMatcher{
-																				pos:        position{line: 1383, col: 32, offset: 44064},
+																				pos:        position{line: 1395, col: 32, offset: 44468},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1391, col: 57, offset: 44658,
+																			line: 1403, col: 57, offset: 45062,
 																		},
 																	},
 																},
@@ -46974,15 +47566,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1383, col: 32, offset: 44064},
+													pos:        position{line: 1395, col: 32, offset: 44468},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1385, col: 121, offset: 44189},
+													pos: position{line: 1397, col: 121, offset: 44593},
 													expr: &charClassMatcher{
-														pos:        position{line: 2812, col: 13, offset: 89543},
+														pos:        position{line: 2824, col: 13, offset: 89947},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46993,7 +47585,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2487, col: 57, offset: 80250},
+										pos:  position{line: 2499, col: 57, offset: 80654},
 										name: "PassthroughMacro",
 									},
 								},
@@ -47005,16 +47597,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2492, col: 1, offset: 80310},
+			pos:  position{line: 2504, col: 1, offset: 80714},
 			expr: &seqExpr{
-				pos: position{line: 2494, col: 5, offset: 80386},
+				pos: position{line: 2506, col: 5, offset: 80790},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2494, col: 5, offset: 80386},
+						pos: position{line: 2506, col: 5, offset: 80790},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2497, col: 5, offset: 80451},
+						pos:  position{line: 2509, col: 5, offset: 80855},
 						name: "QuotedText",
 					},
 				},
@@ -47022,22 +47614,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2499, col: 1, offset: 80464},
+			pos:  position{line: 2511, col: 1, offset: 80868},
 			expr: &actionExpr{
-				pos: position{line: 2501, col: 5, offset: 80546},
+				pos: position{line: 2513, col: 5, offset: 80950},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2501, col: 5, offset: 80546},
+					pos: position{line: 2513, col: 5, offset: 80950},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2501, col: 5, offset: 80546},
+							pos: position{line: 2513, col: 5, offset: 80950},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2504, col: 5, offset: 80617},
+							pos:   position{line: 2516, col: 5, offset: 81021},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2505, col: 9, offset: 80635},
+								pos:  position{line: 2517, col: 9, offset: 81039},
 								name: "Symbol",
 							},
 						},
@@ -47047,103 +47639,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2560, col: 1, offset: 82422},
+			pos:  position{line: 2572, col: 1, offset: 82826},
 			expr: &choiceExpr{
-				pos: position{line: 2562, col: 5, offset: 82452},
+				pos: position{line: 2574, col: 5, offset: 82856},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2562, col: 5, offset: 82452},
+						pos: position{line: 2574, col: 5, offset: 82856},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2562, col: 5, offset: 82452},
+							pos: position{line: 2574, col: 5, offset: 82856},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2562, col: 5, offset: 82452},
+									pos:        position{line: 2574, col: 5, offset: 82856},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2562, col: 10, offset: 82457},
+									pos: position{line: 2574, col: 10, offset: 82861},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2562, col: 10, offset: 82457},
+											pos:  position{line: 2574, col: 10, offset: 82861},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2591, col: 14, offset: 83561},
+											pos: position{line: 2603, col: 14, offset: 83965},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2591, col: 14, offset: 83561},
+												pos:        position{line: 2603, col: 14, offset: 83965},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2595, col: 14, offset: 83627},
+											pos: position{line: 2607, col: 14, offset: 84031},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2595, col: 14, offset: 83627},
+												pos:        position{line: 2607, col: 14, offset: 84031},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2599, col: 15, offset: 83696},
+											pos: position{line: 2611, col: 15, offset: 84100},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2599, col: 15, offset: 83696},
+												pos:        position{line: 2611, col: 15, offset: 84100},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2603, col: 13, offset: 83761},
+											pos: position{line: 2615, col: 13, offset: 84165},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2603, col: 13, offset: 83761},
+												pos:        position{line: 2615, col: 13, offset: 84165},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2631, col: 21, offset: 84331},
+											pos: position{line: 2643, col: 21, offset: 84735},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2631, col: 21, offset: 84331},
+												pos:        position{line: 2643, col: 21, offset: 84735},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2610, col: 5, offset: 83917},
+											pos: position{line: 2622, col: 5, offset: 84321},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2610, col: 5, offset: 83917},
+												pos: position{line: 2622, col: 5, offset: 84321},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2610, col: 5, offset: 83917},
+														pos:        position{line: 2622, col: 5, offset: 84321},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2611, col: 5, offset: 83927},
+														pos: position{line: 2623, col: 5, offset: 84331},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2615, col: 6, offset: 84014},
+														pos: position{line: 2627, col: 6, offset: 84418},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2922, col: 10, offset: 92448},
+																pos: position{line: 2934, col: 10, offset: 92852},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2922, col: 10, offset: 92448},
+																	pos:        position{line: 2934, col: 10, offset: 92852},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47151,30 +47743,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2615, col: 14, offset: 84022},
+																pos: position{line: 2627, col: 14, offset: 84426},
 																expr: &choiceExpr{
-																	pos: position{line: 2944, col: 8, offset: 92846},
+																	pos: position{line: 2956, col: 8, offset: 93250},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2931, col: 12, offset: 92619},
+																			pos: position{line: 2943, col: 12, offset: 93023},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2931, col: 13, offset: 92620},
+																				pos: position{line: 2943, col: 13, offset: 93024},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 13, offset: 92620},
+																						pos:        position{line: 2943, col: 13, offset: 93024},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 20, offset: 92627},
+																						pos:        position{line: 2943, col: 20, offset: 93031},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2931, col: 29, offset: 92636},
+																						pos:        position{line: 2943, col: 29, offset: 93040},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47183,9 +47775,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2941, col: 8, offset: 92796},
+																			pos: position{line: 2953, col: 8, offset: 93200},
 																			expr: &anyMatcher{
-																				line: 2941, col: 9, offset: 92797,
+																				line: 2953, col: 9, offset: 93201,
 																			},
 																		},
 																	},
@@ -47197,53 +47789,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2620, col: 5, offset: 84142},
+											pos: position{line: 2632, col: 5, offset: 84546},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2620, col: 5, offset: 84142},
+												pos: position{line: 2632, col: 5, offset: 84546},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2620, col: 5, offset: 84142},
+														pos:        position{line: 2632, col: 5, offset: 84546},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2621, col: 5, offset: 84152},
+														pos: position{line: 2633, col: 5, offset: 84556},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2625, col: 5, offset: 84241},
+														pos: position{line: 2637, col: 5, offset: 84645},
 														expr: &choiceExpr{
-															pos: position{line: 2625, col: 7, offset: 84243},
+															pos: position{line: 2637, col: 7, offset: 84647},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2812, col: 13, offset: 89543},
+																	pos:        position{line: 2824, col: 13, offset: 89947},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2931, col: 12, offset: 92619},
+																	pos: position{line: 2943, col: 12, offset: 93023},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2931, col: 13, offset: 92620},
+																		pos: position{line: 2943, col: 13, offset: 93024},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2931, col: 13, offset: 92620},
+																				pos:        position{line: 2943, col: 13, offset: 93024},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2931, col: 20, offset: 92627},
+																				pos:        position{line: 2943, col: 20, offset: 93031},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2931, col: 29, offset: 92636},
+																				pos:        position{line: 2943, col: 29, offset: 93040},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47252,9 +47844,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92796},
+																	pos: position{line: 2953, col: 8, offset: 93200},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92797,
+																		line: 2953, col: 9, offset: 93201,
 																	},
 																},
 															},
@@ -47264,30 +47856,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2635, col: 20, offset: 84401},
+											pos: position{line: 2647, col: 20, offset: 84805},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2635, col: 20, offset: 84401},
+												pos:        position{line: 2647, col: 20, offset: 84805},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2639, col: 21, offset: 84472},
+											pos: position{line: 2651, col: 21, offset: 84876},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2639, col: 21, offset: 84472},
+												pos:        position{line: 2651, col: 21, offset: 84876},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2643, col: 20, offset: 84542},
+											pos: position{line: 2655, col: 20, offset: 84946},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2643, col: 20, offset: 84542},
+												pos:        position{line: 2655, col: 20, offset: 84946},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -47299,73 +47891,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2566, col: 7, offset: 82712},
+						pos:  position{line: 2578, col: 7, offset: 83116},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2591, col: 14, offset: 83561},
+						pos: position{line: 2603, col: 14, offset: 83965},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2591, col: 14, offset: 83561},
+							pos:        position{line: 2603, col: 14, offset: 83965},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2595, col: 14, offset: 83627},
+						pos: position{line: 2607, col: 14, offset: 84031},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2595, col: 14, offset: 83627},
+							pos:        position{line: 2607, col: 14, offset: 84031},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2599, col: 15, offset: 83696},
+						pos: position{line: 2611, col: 15, offset: 84100},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2599, col: 15, offset: 83696},
+							pos:        position{line: 2611, col: 15, offset: 84100},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2603, col: 13, offset: 83761},
+						pos: position{line: 2615, col: 13, offset: 84165},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2603, col: 13, offset: 83761},
+							pos:        position{line: 2615, col: 13, offset: 84165},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2610, col: 5, offset: 83917},
+						pos: position{line: 2622, col: 5, offset: 84321},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2610, col: 5, offset: 83917},
+							pos: position{line: 2622, col: 5, offset: 84321},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2610, col: 5, offset: 83917},
+									pos:        position{line: 2622, col: 5, offset: 84321},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2611, col: 5, offset: 83927},
+									pos: position{line: 2623, col: 5, offset: 84331},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2615, col: 6, offset: 84014},
+									pos: position{line: 2627, col: 6, offset: 84418},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2922, col: 10, offset: 92448},
+											pos: position{line: 2934, col: 10, offset: 92852},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2922, col: 10, offset: 92448},
+												pos:        position{line: 2934, col: 10, offset: 92852},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47373,30 +47965,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2615, col: 14, offset: 84022},
+											pos: position{line: 2627, col: 14, offset: 84426},
 											expr: &choiceExpr{
-												pos: position{line: 2944, col: 8, offset: 92846},
+												pos: position{line: 2956, col: 8, offset: 93250},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2931, col: 12, offset: 92619},
+														pos: position{line: 2943, col: 12, offset: 93023},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2931, col: 13, offset: 92620},
+															pos: position{line: 2943, col: 13, offset: 93024},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2931, col: 13, offset: 92620},
+																	pos:        position{line: 2943, col: 13, offset: 93024},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 20, offset: 92627},
+																	pos:        position{line: 2943, col: 20, offset: 93031},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2931, col: 29, offset: 92636},
+																	pos:        position{line: 2943, col: 29, offset: 93040},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47405,9 +47997,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2941, col: 8, offset: 92796},
+														pos: position{line: 2953, col: 8, offset: 93200},
 														expr: &anyMatcher{
-															line: 2941, col: 9, offset: 92797,
+															line: 2953, col: 9, offset: 93201,
 														},
 													},
 												},
@@ -47419,53 +48011,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2620, col: 5, offset: 84142},
+						pos: position{line: 2632, col: 5, offset: 84546},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2620, col: 5, offset: 84142},
+							pos: position{line: 2632, col: 5, offset: 84546},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2620, col: 5, offset: 84142},
+									pos:        position{line: 2632, col: 5, offset: 84546},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2621, col: 5, offset: 84152},
+									pos: position{line: 2633, col: 5, offset: 84556},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2625, col: 5, offset: 84241},
+									pos: position{line: 2637, col: 5, offset: 84645},
 									expr: &choiceExpr{
-										pos: position{line: 2625, col: 7, offset: 84243},
+										pos: position{line: 2637, col: 7, offset: 84647},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2812, col: 13, offset: 89543},
+												pos:        position{line: 2824, col: 13, offset: 89947},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2931, col: 12, offset: 92619},
+												pos: position{line: 2943, col: 12, offset: 93023},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2931, col: 13, offset: 92620},
+													pos: position{line: 2943, col: 13, offset: 93024},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2931, col: 13, offset: 92620},
+															pos:        position{line: 2943, col: 13, offset: 93024},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2931, col: 20, offset: 92627},
+															pos:        position{line: 2943, col: 20, offset: 93031},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2931, col: 29, offset: 92636},
+															pos:        position{line: 2943, col: 29, offset: 93040},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47474,9 +48066,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2941, col: 8, offset: 92796},
+												pos: position{line: 2953, col: 8, offset: 93200},
 												expr: &anyMatcher{
-													line: 2941, col: 9, offset: 92797,
+													line: 2953, col: 9, offset: 93201,
 												},
 											},
 										},
@@ -47486,40 +48078,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2631, col: 21, offset: 84331},
+						pos: position{line: 2643, col: 21, offset: 84735},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2631, col: 21, offset: 84331},
+							pos:        position{line: 2643, col: 21, offset: 84735},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2635, col: 20, offset: 84401},
+						pos: position{line: 2647, col: 20, offset: 84805},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2635, col: 20, offset: 84401},
+							pos:        position{line: 2647, col: 20, offset: 84805},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2639, col: 21, offset: 84472},
+						pos: position{line: 2651, col: 21, offset: 84876},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2639, col: 21, offset: 84472},
+							pos:        position{line: 2651, col: 21, offset: 84876},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2643, col: 20, offset: 84542},
+						pos: position{line: 2655, col: 20, offset: 84946},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2643, col: 20, offset: 84542},
+							pos:        position{line: 2655, col: 20, offset: 84946},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -47530,43 +48122,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2577, col: 1, offset: 82902},
+			pos:  position{line: 2589, col: 1, offset: 83306},
 			expr: &choiceExpr{
-				pos: position{line: 2578, col: 5, offset: 82924},
+				pos: position{line: 2590, col: 5, offset: 83328},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2578, col: 5, offset: 82924},
+						pos: position{line: 2590, col: 5, offset: 83328},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2578, col: 5, offset: 82924},
+							pos: position{line: 2590, col: 5, offset: 83328},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2578, col: 5, offset: 82924},
+									pos:        position{line: 2590, col: 5, offset: 83328},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2578, col: 11, offset: 82930},
+									pos: position{line: 2590, col: 11, offset: 83334},
 									expr: &seqExpr{
-										pos: position{line: 2119, col: 5, offset: 68520},
+										pos: position{line: 2131, col: 5, offset: 68924},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2119, col: 5, offset: 68520},
+												pos:        position{line: 2131, col: 5, offset: 68924},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2120, col: 5, offset: 68529},
+												pos: position{line: 2132, col: 5, offset: 68933},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2124, col: 5, offset: 68652},
+												pos: position{line: 2136, col: 5, offset: 69056},
 												expr: &notExpr{
-													pos: position{line: 2124, col: 7, offset: 68654},
+													pos: position{line: 2136, col: 7, offset: 69058},
 													expr: &litMatcher{
-														pos:        position{line: 2124, col: 8, offset: 68655},
+														pos:        position{line: 2136, col: 8, offset: 69059},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47580,21 +48172,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2581, col: 7, offset: 83083},
+						pos: position{line: 2593, col: 7, offset: 83487},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2581, col: 7, offset: 83083},
+							pos: position{line: 2593, col: 7, offset: 83487},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2581, col: 7, offset: 83083},
+									pos:        position{line: 2593, col: 7, offset: 83487},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2581, col: 13, offset: 83089},
+									pos: position{line: 2593, col: 13, offset: 83493},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2581, col: 14, offset: 83090},
+										pos:  position{line: 2593, col: 14, offset: 83494},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47602,38 +48194,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2584, col: 7, offset: 83240},
+						pos: position{line: 2596, col: 7, offset: 83644},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2584, col: 7, offset: 83240},
+							pos: position{line: 2596, col: 7, offset: 83644},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2584, col: 7, offset: 83240},
+									pos:        position{line: 2596, col: 7, offset: 83644},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2584, col: 12, offset: 83245},
+									pos: position{line: 2596, col: 12, offset: 83649},
 									expr: &seqExpr{
-										pos: position{line: 2119, col: 5, offset: 68520},
+										pos: position{line: 2131, col: 5, offset: 68924},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2119, col: 5, offset: 68520},
+												pos:        position{line: 2131, col: 5, offset: 68924},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2120, col: 5, offset: 68529},
+												pos: position{line: 2132, col: 5, offset: 68933},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2124, col: 5, offset: 68652},
+												pos: position{line: 2136, col: 5, offset: 69056},
 												expr: &notExpr{
-													pos: position{line: 2124, col: 7, offset: 68654},
+													pos: position{line: 2136, col: 7, offset: 69058},
 													expr: &litMatcher{
-														pos:        position{line: 2124, col: 8, offset: 68655},
+														pos:        position{line: 2136, col: 8, offset: 69059},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47647,21 +48239,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2587, col: 7, offset: 83398},
+						pos: position{line: 2599, col: 7, offset: 83802},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2587, col: 7, offset: 83398},
+							pos: position{line: 2599, col: 7, offset: 83802},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2587, col: 7, offset: 83398},
+									pos:        position{line: 2599, col: 7, offset: 83802},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2587, col: 12, offset: 83403},
+									pos: position{line: 2599, col: 12, offset: 83807},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2587, col: 13, offset: 83404},
+										pos:  position{line: 2599, col: 13, offset: 83808},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47673,63 +48265,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2727, col: 1, offset: 86623},
+			pos:  position{line: 2739, col: 1, offset: 87027},
 			expr: &actionExpr{
-				pos: position{line: 2727, col: 26, offset: 86648},
+				pos: position{line: 2739, col: 26, offset: 87052},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2727, col: 26, offset: 86648},
+					pos: position{line: 2739, col: 26, offset: 87052},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2727, col: 26, offset: 86648},
+							pos:   position{line: 2739, col: 26, offset: 87052},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2727, col: 31, offset: 86653},
+								pos: position{line: 2739, col: 31, offset: 87057},
 								expr: &actionExpr{
-									pos: position{line: 2732, col: 5, offset: 86716},
+									pos: position{line: 2744, col: 5, offset: 87120},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2732, col: 5, offset: 86716},
+										pos: position{line: 2744, col: 5, offset: 87120},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2939, col: 11, offset: 92782},
+												pos: position{line: 2951, col: 11, offset: 93186},
 												expr: &anyMatcher{
-													line: 2939, col: 13, offset: 92784,
+													line: 2951, col: 13, offset: 93188,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2735, col: 5, offset: 86842},
+												pos:   position{line: 2747, col: 5, offset: 87246},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2735, col: 16, offset: 86853},
+													pos: position{line: 2747, col: 16, offset: 87257},
 													expr: &actionExpr{
-														pos: position{line: 2735, col: 17, offset: 86854},
+														pos: position{line: 2747, col: 17, offset: 87258},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2735, col: 17, offset: 86854},
+															pos: position{line: 2747, col: 17, offset: 87258},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2735, col: 17, offset: 86854},
+																	pos:   position{line: 2747, col: 17, offset: 87258},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2914, col: 12, offset: 92275},
+																		pos: position{line: 2926, col: 12, offset: 92679},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2914, col: 13, offset: 92276},
+																			pos: position{line: 2926, col: 13, offset: 92680},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2914, col: 13, offset: 92276},
+																					pos: position{line: 2926, col: 13, offset: 92680},
 																					expr: &litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92276},
+																						pos:        position{line: 2926, col: 13, offset: 92680},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2914, col: 18, offset: 92281},
+																					pos: position{line: 2926, col: 18, offset: 92685},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2914, col: 18, offset: 92281},
+																						pos:        position{line: 2926, col: 18, offset: 92685},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47741,7 +48333,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2735, col: 27, offset: 86864},
+																	pos:        position{line: 2747, col: 27, offset: 87268},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47752,38 +48344,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2736, col: 5, offset: 86892},
+												pos:   position{line: 2748, col: 5, offset: 87296},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2736, col: 12, offset: 86899},
+													pos: position{line: 2748, col: 12, offset: 87303},
 													expr: &choiceExpr{
-														pos: position{line: 2737, col: 9, offset: 86909},
+														pos: position{line: 2749, col: 9, offset: 87313},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2737, col: 9, offset: 86909},
+																pos: position{line: 2749, col: 9, offset: 87313},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2737, col: 9, offset: 86909},
+																	pos:        position{line: 2749, col: 9, offset: 87313},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2738, col: 11, offset: 86956},
+																pos: position{line: 2750, col: 11, offset: 87360},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2738, col: 11, offset: 86956},
+																	pos:        position{line: 2750, col: 11, offset: 87360},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2739, col: 11, offset: 87004},
+																pos: position{line: 2751, col: 11, offset: 87408},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2739, col: 11, offset: 87004},
+																	pos:        position{line: 2751, col: 11, offset: 87408},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47794,38 +48386,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2741, col: 5, offset: 87054},
+												pos:   position{line: 2753, col: 5, offset: 87458},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2741, col: 12, offset: 87061},
+													pos: position{line: 2753, col: 12, offset: 87465},
 													expr: &choiceExpr{
-														pos: position{line: 2742, col: 9, offset: 87071},
+														pos: position{line: 2754, col: 9, offset: 87475},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2742, col: 9, offset: 87071},
+																pos: position{line: 2754, col: 9, offset: 87475},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2742, col: 9, offset: 87071},
+																	pos:        position{line: 2754, col: 9, offset: 87475},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2743, col: 11, offset: 87118},
+																pos: position{line: 2755, col: 11, offset: 87522},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2743, col: 11, offset: 87118},
+																	pos:        position{line: 2755, col: 11, offset: 87522},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2744, col: 11, offset: 87168},
+																pos: position{line: 2756, col: 11, offset: 87572},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2744, col: 11, offset: 87168},
+																	pos:        position{line: 2756, col: 11, offset: 87572},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47836,32 +48428,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2746, col: 5, offset: 87219},
+												pos:   position{line: 2758, col: 5, offset: 87623},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2746, col: 12, offset: 87226},
+													pos: position{line: 2758, col: 12, offset: 87630},
 													expr: &choiceExpr{
-														pos: position{line: 2746, col: 13, offset: 87227},
+														pos: position{line: 2758, col: 13, offset: 87631},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2914, col: 12, offset: 92275},
+																pos: position{line: 2926, col: 12, offset: 92679},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2914, col: 13, offset: 92276},
+																	pos: position{line: 2926, col: 13, offset: 92680},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2914, col: 13, offset: 92276},
+																			pos: position{line: 2926, col: 13, offset: 92680},
 																			expr: &litMatcher{
-																				pos:        position{line: 2914, col: 13, offset: 92276},
+																				pos:        position{line: 2926, col: 13, offset: 92680},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2914, col: 18, offset: 92281},
+																			pos: position{line: 2926, col: 18, offset: 92685},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2914, col: 18, offset: 92281},
+																				pos:        position{line: 2926, col: 18, offset: 92685},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47872,10 +48464,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2746, col: 24, offset: 87238},
+																pos: position{line: 2758, col: 24, offset: 87642},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2746, col: 24, offset: 87238},
+																	pos:        position{line: 2758, col: 24, offset: 87642},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47886,15 +48478,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2747, col: 5, offset: 87280},
+												pos:   position{line: 2759, col: 5, offset: 87684},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2747, col: 11, offset: 87286},
+													pos: position{line: 2759, col: 11, offset: 87690},
 													expr: &actionExpr{
-														pos: position{line: 2747, col: 12, offset: 87287},
+														pos: position{line: 2759, col: 12, offset: 87691},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2747, col: 12, offset: 87287},
+															pos:        position{line: 2759, col: 12, offset: 87691},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47904,12 +48496,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2749, col: 5, offset: 87417},
+												pos:   position{line: 2761, col: 5, offset: 87821},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2749, col: 11, offset: 87423},
+													pos: position{line: 2761, col: 11, offset: 87827},
 													expr: &litMatcher{
-														pos:        position{line: 2749, col: 12, offset: 87424},
+														pos:        position{line: 2761, col: 12, offset: 87828},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47917,7 +48509,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2750, col: 5, offset: 87434},
+												pos: position{line: 2762, col: 5, offset: 87838},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47926,9 +48518,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2941, col: 8, offset: 92796},
+							pos: position{line: 2953, col: 8, offset: 93200},
 							expr: &anyMatcher{
-								line: 2941, col: 9, offset: 92797,
+								line: 2953, col: 9, offset: 93201,
 							},
 						},
 					},
@@ -47937,23 +48529,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2777, col: 1, offset: 88443},
+			pos:  position{line: 2789, col: 1, offset: 88847},
 			expr: &actionExpr{
-				pos: position{line: 2778, col: 5, offset: 88466},
+				pos: position{line: 2790, col: 5, offset: 88870},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2778, col: 5, offset: 88466},
+					pos: position{line: 2790, col: 5, offset: 88870},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2778, col: 5, offset: 88466},
+							pos:   position{line: 2790, col: 5, offset: 88870},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2801, col: 18, offset: 89207},
+								pos: position{line: 2813, col: 18, offset: 89611},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2801, col: 19, offset: 89208},
+									pos: position{line: 2813, col: 19, offset: 89612},
 									expr: &charClassMatcher{
-										pos:        position{line: 2801, col: 19, offset: 89208},
+										pos:        position{line: 2813, col: 19, offset: 89612},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47964,25 +48556,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2779, col: 5, offset: 88492},
+							pos: position{line: 2791, col: 5, offset: 88896},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2783, col: 5, offset: 88620},
+							pos:        position{line: 2795, col: 5, offset: 89024},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2784, col: 5, offset: 88630},
+							pos:   position{line: 2796, col: 5, offset: 89034},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2805, col: 19, offset: 89283},
+								pos: position{line: 2817, col: 19, offset: 89687},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2805, col: 19, offset: 89283},
+									pos: position{line: 2817, col: 19, offset: 89687},
 									expr: &charClassMatcher{
-										pos:        position{line: 2805, col: 19, offset: 89283},
+										pos:        position{line: 2817, col: 19, offset: 89687},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47992,36 +48584,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2785, col: 5, offset: 88658},
+							pos:   position{line: 2797, col: 5, offset: 89062},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2785, col: 17, offset: 88670},
+								pos:  position{line: 2797, col: 17, offset: 89074},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2944, col: 8, offset: 92846},
+							pos: position{line: 2956, col: 8, offset: 93250},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2931, col: 12, offset: 92619},
+									pos: position{line: 2943, col: 12, offset: 93023},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2931, col: 13, offset: 92620},
+										pos: position{line: 2943, col: 13, offset: 93024},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2931, col: 13, offset: 92620},
+												pos:        position{line: 2943, col: 13, offset: 93024},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 20, offset: 92627},
+												pos:        position{line: 2943, col: 20, offset: 93031},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2931, col: 29, offset: 92636},
+												pos:        position{line: 2943, col: 29, offset: 93040},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -48030,9 +48622,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2941, col: 8, offset: 92796},
+									pos: position{line: 2953, col: 8, offset: 93200},
 									expr: &anyMatcher{
-										line: 2941, col: 9, offset: 92797,
+										line: 2953, col: 9, offset: 93201,
 									},
 								},
 							},
@@ -48043,23 +48635,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2789, col: 1, offset: 88818},
+			pos:  position{line: 2801, col: 1, offset: 89222},
 			expr: &actionExpr{
-				pos: position{line: 2790, col: 5, offset: 88842},
+				pos: position{line: 2802, col: 5, offset: 89246},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2790, col: 5, offset: 88842},
+					pos: position{line: 2802, col: 5, offset: 89246},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2790, col: 5, offset: 88842},
+							pos:   position{line: 2802, col: 5, offset: 89246},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2801, col: 18, offset: 89207},
+								pos: position{line: 2813, col: 18, offset: 89611},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2801, col: 19, offset: 89208},
+									pos: position{line: 2813, col: 19, offset: 89612},
 									expr: &charClassMatcher{
-										pos:        position{line: 2801, col: 19, offset: 89208},
+										pos:        position{line: 2813, col: 19, offset: 89612},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48070,25 +48662,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2791, col: 5, offset: 88868},
+							pos: position{line: 2803, col: 5, offset: 89272},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2795, col: 5, offset: 88996},
+							pos:        position{line: 2807, col: 5, offset: 89400},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2796, col: 5, offset: 89005},
+							pos:   position{line: 2808, col: 5, offset: 89409},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2805, col: 19, offset: 89283},
+								pos: position{line: 2817, col: 19, offset: 89687},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2805, col: 19, offset: 89283},
+									pos: position{line: 2817, col: 19, offset: 89687},
 									expr: &charClassMatcher{
-										pos:        position{line: 2805, col: 19, offset: 89283},
+										pos:        position{line: 2817, col: 19, offset: 89687},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48098,10 +48690,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2797, col: 5, offset: 89033},
+							pos:   position{line: 2809, col: 5, offset: 89437},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2797, col: 17, offset: 89045},
+								pos:  position{line: 2809, col: 17, offset: 89449},
 								name: "InlineAttributes",
 							},
 						},
@@ -48111,43 +48703,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2876, col: 1, offset: 91095},
+			pos:  position{line: 2888, col: 1, offset: 91499},
 			expr: &actionExpr{
-				pos: position{line: 2876, col: 17, offset: 91111},
+				pos: position{line: 2888, col: 17, offset: 91515},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2876, col: 17, offset: 91111},
+					pos:   position{line: 2888, col: 17, offset: 91515},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2893, col: 5, offset: 91565},
+						pos: position{line: 2905, col: 5, offset: 91969},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2893, col: 5, offset: 91565},
+							pos:   position{line: 2905, col: 5, offset: 91969},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2893, col: 14, offset: 91574},
+								pos: position{line: 2905, col: 14, offset: 91978},
 								expr: &choiceExpr{
-									pos: position{line: 2894, col: 9, offset: 91584},
+									pos: position{line: 2906, col: 9, offset: 91988},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2894, col: 9, offset: 91584},
+											pos: position{line: 2906, col: 9, offset: 91988},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2894, col: 9, offset: 91584},
+												pos: position{line: 2906, col: 9, offset: 91988},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2894, col: 9, offset: 91584},
+														pos: position{line: 2906, col: 9, offset: 91988},
 														expr: &litMatcher{
-															pos:        position{line: 2894, col: 10, offset: 91585},
+															pos:        position{line: 2906, col: 10, offset: 91989},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2895, col: 9, offset: 91613},
+														pos: position{line: 2907, col: 9, offset: 92017},
 														expr: &charClassMatcher{
-															pos:        position{line: 2895, col: 10, offset: 91614},
+															pos:        position{line: 2907, col: 10, offset: 92018},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -48158,27 +48750,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2898, col: 11, offset: 91826},
+											pos: position{line: 2910, col: 11, offset: 92230},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2898, col: 11, offset: 91826},
+													pos:        position{line: 2910, col: 11, offset: 92230},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2898, col: 19, offset: 91834},
+													pos: position{line: 2910, col: 19, offset: 92238},
 													expr: &seqExpr{
-														pos: position{line: 2898, col: 21, offset: 91836},
+														pos: position{line: 2910, col: 21, offset: 92240},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2898, col: 21, offset: 91836},
+																pos: position{line: 2910, col: 21, offset: 92240},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 10, offset: 92448},
+																	pos: position{line: 2934, col: 10, offset: 92852},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2922, col: 10, offset: 92448},
+																		pos:        position{line: 2934, col: 10, offset: 92852},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48187,11 +48779,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2898, col: 28, offset: 91843},
+																pos: position{line: 2910, col: 28, offset: 92247},
 																expr: &notExpr{
-																	pos: position{line: 2941, col: 8, offset: 92796},
+																	pos: position{line: 2953, col: 8, offset: 93200},
 																	expr: &anyMatcher{
-																		line: 2941, col: 9, offset: 92797,
+																		line: 2953, col: 9, offset: 93201,
 																	},
 																},
 															},
@@ -48201,35 +48793,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 649, col: 5, offset: 20791},
+											pos: position{line: 661, col: 5, offset: 21195},
 											run: (*parser).callonFileLocation23,
 											expr: &seqExpr{
-												pos: position{line: 649, col: 5, offset: 20791},
+												pos: position{line: 661, col: 5, offset: 21195},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 649, col: 5, offset: 20791},
+														pos: position{line: 661, col: 5, offset: 21195},
 														run: (*parser).callonFileLocation25,
 													},
 													&labeledExpr{
-														pos:   position{line: 652, col: 5, offset: 20863},
+														pos:   position{line: 664, col: 5, offset: 21267},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 652, col: 14, offset: 20872},
+															pos: position{line: 664, col: 14, offset: 21276},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 658, col: 5, offset: 21001},
+																	pos: position{line: 670, col: 5, offset: 21405},
 																	run: (*parser).callonFileLocation28,
 																	expr: &seqExpr{
-																		pos: position{line: 658, col: 5, offset: 21001},
+																		pos: position{line: 670, col: 5, offset: 21405},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 658, col: 5, offset: 21001},
+																				pos:        position{line: 670, col: 5, offset: 21405},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 13, offset: 21009},
+																				pos:   position{line: 670, col: 13, offset: 21413},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -48261,7 +48853,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 32, offset: 21028},
+																				pos:        position{line: 670, col: 32, offset: 21432},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48270,19 +48862,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 665, col: 5, offset: 21269},
+																	pos: position{line: 677, col: 5, offset: 21673},
 																	run: (*parser).callonFileLocation38,
 																	expr: &seqExpr{
-																		pos: position{line: 665, col: 5, offset: 21269},
+																		pos: position{line: 677, col: 5, offset: 21673},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 665, col: 5, offset: 21269},
+																				pos:        position{line: 677, col: 5, offset: 21673},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 665, col: 9, offset: 21273},
+																				pos:   position{line: 677, col: 9, offset: 21677},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -48314,7 +48906,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 665, col: 28, offset: 21292},
+																				pos:        position{line: 677, col: 28, offset: 21696},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48323,19 +48915,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 671, col: 25, offset: 21473},
+																	pos: position{line: 683, col: 25, offset: 21877},
 																	run: (*parser).callonFileLocation48,
 																	expr: &seqExpr{
-																		pos: position{line: 671, col: 25, offset: 21473},
+																		pos: position{line: 683, col: 25, offset: 21877},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 671, col: 25, offset: 21473},
+																				pos:        position{line: 683, col: 25, offset: 21877},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 671, col: 37, offset: 21485},
+																				pos:   position{line: 683, col: 37, offset: 21889},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -48367,33 +48959,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 671, col: 56, offset: 21504},
+																				pos:   position{line: 683, col: 56, offset: 21908},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 671, col: 62, offset: 21510},
+																					pos: position{line: 683, col: 62, offset: 21914},
 																					expr: &actionExpr{
-																						pos: position{line: 679, col: 17, offset: 21807},
+																						pos: position{line: 691, col: 17, offset: 22211},
 																						run: (*parser).callonFileLocation59,
 																						expr: &seqExpr{
-																							pos: position{line: 679, col: 17, offset: 21807},
+																							pos: position{line: 691, col: 17, offset: 22211},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 679, col: 17, offset: 21807},
+																									pos:        position{line: 691, col: 17, offset: 22211},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 679, col: 21, offset: 21811},
+																									pos:   position{line: 691, col: 21, offset: 22215},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 679, col: 28, offset: 21818},
+																										pos: position{line: 691, col: 28, offset: 22222},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 679, col: 28, offset: 21818},
+																												pos: position{line: 691, col: 28, offset: 22222},
 																												run: (*parser).callonFileLocation64,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 679, col: 28, offset: 21818},
+																													pos:        position{line: 691, col: 28, offset: 22222},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -48401,12 +48993,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 681, col: 9, offset: 21872},
+																												pos: position{line: 693, col: 9, offset: 22276},
 																												run: (*parser).callonFileLocation66,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 681, col: 9, offset: 21872},
+																													pos: position{line: 693, col: 9, offset: 22276},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 681, col: 9, offset: 21872},
+																														pos:        position{line: 693, col: 9, offset: 22276},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -48423,7 +49015,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 671, col: 78, offset: 21526},
+																				pos:        position{line: 683, col: 78, offset: 21930},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48432,19 +49024,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 675, col: 25, offset: 21644},
+																	pos: position{line: 687, col: 25, offset: 22048},
 																	run: (*parser).callonFileLocation70,
 																	expr: &seqExpr{
-																		pos: position{line: 675, col: 25, offset: 21644},
+																		pos: position{line: 687, col: 25, offset: 22048},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 675, col: 25, offset: 21644},
+																				pos:        position{line: 687, col: 25, offset: 22048},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 675, col: 38, offset: 21657},
+																				pos:   position{line: 687, col: 38, offset: 22061},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -48476,33 +49068,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 675, col: 57, offset: 21676},
+																				pos:   position{line: 687, col: 57, offset: 22080},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 675, col: 63, offset: 21682},
+																					pos: position{line: 687, col: 63, offset: 22086},
 																					expr: &actionExpr{
-																						pos: position{line: 679, col: 17, offset: 21807},
+																						pos: position{line: 691, col: 17, offset: 22211},
 																						run: (*parser).callonFileLocation81,
 																						expr: &seqExpr{
-																							pos: position{line: 679, col: 17, offset: 21807},
+																							pos: position{line: 691, col: 17, offset: 22211},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 679, col: 17, offset: 21807},
+																									pos:        position{line: 691, col: 17, offset: 22211},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 679, col: 21, offset: 21811},
+																									pos:   position{line: 691, col: 21, offset: 22215},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 679, col: 28, offset: 21818},
+																										pos: position{line: 691, col: 28, offset: 22222},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 679, col: 28, offset: 21818},
+																												pos: position{line: 691, col: 28, offset: 22222},
 																												run: (*parser).callonFileLocation86,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 679, col: 28, offset: 21818},
+																													pos:        position{line: 691, col: 28, offset: 22222},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -48510,12 +49102,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 681, col: 9, offset: 21872},
+																												pos: position{line: 693, col: 9, offset: 22276},
 																												run: (*parser).callonFileLocation88,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 681, col: 9, offset: 21872},
+																													pos: position{line: 693, col: 9, offset: 22276},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 681, col: 9, offset: 21872},
+																														pos:        position{line: 693, col: 9, offset: 22276},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -48532,7 +49124,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 675, col: 79, offset: 21698},
+																				pos:        position{line: 687, col: 79, offset: 22102},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48547,27 +49139,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1211, col: 23, offset: 37656},
+											pos: position{line: 1223, col: 23, offset: 38060},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1211, col: 23, offset: 37656},
+												pos: position{line: 1223, col: 23, offset: 38060},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1209, col: 32, offset: 37624},
+														pos:        position{line: 1221, col: 32, offset: 38028},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1211, col: 51, offset: 37684},
+														pos:   position{line: 1223, col: 51, offset: 38088},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1211, col: 56, offset: 37689},
+															pos: position{line: 1223, col: 56, offset: 38093},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1211, col: 56, offset: 37689},
+																pos: position{line: 1223, col: 56, offset: 38093},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1211, col: 56, offset: 37689},
+																	pos:        position{line: 1223, col: 56, offset: 38093},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -48577,23 +49169,23 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1209, col: 32, offset: 37624},
+														pos:        position{line: 1221, col: 32, offset: 38028},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 1211, col: 123, offset: 37756},
+														pos: position{line: 1223, col: 123, offset: 38160},
 														run: (*parser).callonFileLocation100,
 													},
 												},
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2901, col: 11, offset: 91963},
+											pos: position{line: 2913, col: 11, offset: 92367},
 											run: (*parser).callonFileLocation101,
 											expr: &litMatcher{
-												pos:        position{line: 2901, col: 11, offset: 91963},
+												pos:        position{line: 2913, col: 11, offset: 92367},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -54859,127 +55451,156 @@ func (p *parser) callonBlockAttributes5() (interface{}, error) {
 	return p.cur.onBlockAttributes5(stack["anchor"])
 }
 
-func (c *current) onBlockAttributes156() (interface{}, error) {
+func (c *current) onBlockAttributes150() (interface{}, error) {
+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes156() (interface{}, error) {
+func (p *parser) callonBlockAttributes150() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes156()
+	return p.cur.onBlockAttributes150()
 }
 
-func (c *current) onBlockAttributes159() (interface{}, error) {
-
+func (c *current) onBlockAttributes153() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonBlockAttributes159() (interface{}, error) {
+func (p *parser) callonBlockAttributes153() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes159()
+	return p.cur.onBlockAttributes153()
 }
 
-func (c *current) onBlockAttributes165() (bool, error) {
+func (c *current) onBlockAttributes167() (interface{}, error) {
 
-	return c.allSubstitutionsDisabled(Macros, Quotes), nil
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes165() (bool, error) {
+func (p *parser) callonBlockAttributes167() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes165()
+	return p.cur.onBlockAttributes167()
+}
+
+func (c *current) onBlockAttributes170() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (c *current) onBlockAttributes169() (bool, error) {
+func (p *parser) callonBlockAttributes170() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes170()
+}
 
-	return c.isSubstitutionDisabled(Quotes), nil
+func (c *current) onBlockAttributes162() (interface{}, error) {
+	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonBlockAttributes169() (bool, error) {
+func (p *parser) callonBlockAttributes162() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes169()
+	return p.cur.onBlockAttributes162()
 }
 
-func (c *current) onBlockAttributes161() (interface{}, error) {
+func (c *current) onBlockAttributes183() (interface{}, error) {
 
-	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes161() (interface{}, error) {
+func (p *parser) callonBlockAttributes183() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes161()
+	return p.cur.onBlockAttributes183()
 }
 
-func (c *current) onBlockAttributes179() (interface{}, error) {
+func (c *current) onBlockAttributes187() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonBlockAttributes179() (interface{}, error) {
+func (p *parser) callonBlockAttributes187() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes179()
+	return p.cur.onBlockAttributes187()
 }
 
-func (c *current) onBlockAttributes175(name interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes177(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
 
-	log.Debug("matching escaped attribute reference")
-	// return types.NewStringElement("{"+name.(string)+"}")
-	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
+}
+
+func (p *parser) callonBlockAttributes177() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes177(stack["content"])
+}
+
+func (c *current) onBlockAttributes145(title interface{}) (interface{}, error) {
+	return title, nil
 
 }
 
-func (p *parser) callonBlockAttributes175() (interface{}, error) {
+func (p *parser) callonBlockAttributes145() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes175(stack["name"])
+	return p.cur.onBlockAttributes145(stack["title"])
 }
 
-func (c *current) onBlockAttributes189() (interface{}, error) {
+func (c *current) onBlockAttributes199() (interface{}, error) {
+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes189() (interface{}, error) {
+func (p *parser) callonBlockAttributes199() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes189()
+	return p.cur.onBlockAttributes199()
 }
 
-func (c *current) onBlockAttributes185(name interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes202() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
 
-	return types.NewAttributeReference(name.(string), string(c.text))
+func (p *parser) callonBlockAttributes202() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes202()
+}
+
+func (c *current) onBlockAttributes216() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes185() (interface{}, error) {
+func (p *parser) callonBlockAttributes216() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes185(stack["name"])
+	return p.cur.onBlockAttributes216()
 }
 
-func (c *current) onBlockAttributes199() (interface{}, error) {
+func (c *current) onBlockAttributes219() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonBlockAttributes199() (interface{}, error) {
+func (p *parser) callonBlockAttributes219() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes199()
+	return p.cur.onBlockAttributes219()
 }
 
 func (c *current) onBlockAttributes211() (interface{}, error) {
-	return string(c.text), nil
+	return types.NewBlankLine()
 
 }
 
@@ -54989,356 +55610,522 @@ func (p *parser) callonBlockAttributes211() (interface{}, error) {
 	return p.cur.onBlockAttributes211()
 }
 
-func (c *current) onBlockAttributes213() (interface{}, error) {
+func (c *current) onBlockAttributes232() (interface{}, error) {
 
-	return strconv.Atoi(string(c.text))
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes213() (interface{}, error) {
+func (p *parser) callonBlockAttributes232() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes213()
+	return p.cur.onBlockAttributes232()
 }
 
-func (c *current) onBlockAttributes206(start interface{}) (interface{}, error) {
-	return start, nil
+func (c *current) onBlockAttributes236() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonBlockAttributes236() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes236()
+}
+
+func (c *current) onBlockAttributes226(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonBlockAttributes206() (interface{}, error) {
+func (p *parser) callonBlockAttributes226() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes206(stack["start"])
+	return p.cur.onBlockAttributes226(stack["content"])
 }
 
-func (c *current) onBlockAttributes195(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+func (c *current) onBlockAttributes194(attributes interface{}) (interface{}, error) {
+	return attributes, nil
+
 }
 
-func (p *parser) callonBlockAttributes195() (interface{}, error) {
+func (p *parser) callonBlockAttributes194() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes195(stack["name"], stack["start"])
+	return p.cur.onBlockAttributes194(stack["attributes"])
 }
 
-func (c *current) onBlockAttributes221() (interface{}, error) {
-	return string(c.text), nil
+func (c *current) onBlockAttributes1(attributes interface{}) (interface{}, error) {
+	// c.unsetCurrentSubstitution()
+	return types.MergeAttributes(attributes.([]interface{})...)
+
+}
+
+func (p *parser) callonBlockAttributes1() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes1(stack["attributes"])
+}
+
+func (c *current) onInlineAttributes6(attribute interface{}) (interface{}, error) {
+	return attribute, nil
+
+}
+
+func (p *parser) callonInlineAttributes6() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onInlineAttributes6(stack["attribute"])
+}
+
+func (c *current) onInlineAttributes1(attributes interface{}) (interface{}, error) {
+	return types.NewAttributes(attributes.([]interface{})...)
 
 }
 
-func (p *parser) callonBlockAttributes221() (interface{}, error) {
+func (p *parser) callonInlineAttributes1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes221()
+	return p.cur.onInlineAttributes1(stack["attributes"])
 }
 
-func (c *current) onBlockAttributes233() (interface{}, error) {
+func (c *current) onShortHandTitle10() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes233() (interface{}, error) {
+func (p *parser) callonShortHandTitle10() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes233()
+	return p.cur.onShortHandTitle10()
 }
 
-func (c *current) onBlockAttributes235() (interface{}, error) {
+func (c *current) onShortHandTitle13() (interface{}, error) {
 
-	return strconv.Atoi(string(c.text))
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes235() (interface{}, error) {
+func (p *parser) callonShortHandTitle13() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes235()
+	return p.cur.onShortHandTitle13()
 }
 
-func (c *current) onBlockAttributes228(start interface{}) (interface{}, error) {
-	return start, nil
+func (c *current) onShortHandTitle19() (bool, error) {
+
+	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonBlockAttributes228() (interface{}, error) {
+func (p *parser) callonShortHandTitle19() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes228(stack["start"])
+	return p.cur.onShortHandTitle19()
 }
 
-func (c *current) onBlockAttributes217(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
+func (c *current) onShortHandTitle23() (bool, error) {
+
+	return c.isSubstitutionDisabled(Quotes), nil
+
 }
 
-func (p *parser) callonBlockAttributes217() (interface{}, error) {
+func (p *parser) callonShortHandTitle23() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes217(stack["name"], stack["start"])
+	return p.cur.onShortHandTitle23()
 }
 
-func (c *current) onBlockAttributes239() (interface{}, error) {
+func (c *current) onShortHandTitle15() (interface{}, error) {
 
-	if log.IsLevelEnabled(log.DebugLevel) {
-		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
-	}
+	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes239() (interface{}, error) {
+func (p *parser) callonShortHandTitle15() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes239()
+	return p.cur.onShortHandTitle15()
 }
 
-func (c *current) onBlockAttributes148(elements interface{}) (interface{}, error) {
-	return types.NewTitleAttribute(types.Reduce(elements, strings.TrimSpace))
+func (c *current) onShortHandTitle33() (interface{}, error) {
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes148() (interface{}, error) {
+func (p *parser) callonShortHandTitle33() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes148(stack["elements"])
+	return p.cur.onShortHandTitle33()
 }
 
-func (c *current) onBlockAttributes242() (interface{}, error) {
+func (c *current) onShortHandTitle29(name interface{}) (interface{}, error) {
 
-	return string(c.text), nil
+	log.Debug("matching escaped attribute reference")
+	// return types.NewStringElement("{"+name.(string)+"}")
+	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
 
 }
 
-func (p *parser) callonBlockAttributes242() (interface{}, error) {
+func (p *parser) callonShortHandTitle29() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes242()
+	return p.cur.onShortHandTitle29(stack["name"])
 }
 
-func (c *current) onBlockAttributes245() (interface{}, error) {
-	// TODO: just use "\n"
+func (c *current) onShortHandTitle43() (interface{}, error) {
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonBlockAttributes245() (interface{}, error) {
+func (p *parser) callonShortHandTitle43() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes245()
+	return p.cur.onShortHandTitle43()
+}
+
+func (c *current) onShortHandTitle39(name interface{}) (interface{}, error) {
+
+	return types.NewAttributeReference(name.(string), string(c.text))
+
 }
 
-func (c *current) onBlockAttributes259() (interface{}, error) {
+func (p *parser) callonShortHandTitle39() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortHandTitle39(stack["name"])
+}
 
+func (c *current) onShortHandTitle53() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes259() (interface{}, error) {
+func (p *parser) callonShortHandTitle53() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes259()
+	return p.cur.onShortHandTitle53()
 }
 
-func (c *current) onBlockAttributes262() (interface{}, error) {
-	// TODO: just use "\n"
+func (c *current) onShortHandTitle65() (interface{}, error) {
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonBlockAttributes262() (interface{}, error) {
+func (p *parser) callonShortHandTitle65() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes262()
+	return p.cur.onShortHandTitle65()
 }
 
-func (c *current) onBlockAttributes254() (interface{}, error) {
-	return types.NewBlankLine()
+func (c *current) onShortHandTitle67() (interface{}, error) {
+
+	return strconv.Atoi(string(c.text))
+
+}
+
+func (p *parser) callonShortHandTitle67() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortHandTitle67()
+}
+
+func (c *current) onShortHandTitle60(start interface{}) (interface{}, error) {
+	return start, nil
 
 }
 
-func (p *parser) callonBlockAttributes254() (interface{}, error) {
+func (p *parser) callonShortHandTitle60() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes254()
+	return p.cur.onShortHandTitle60(stack["start"])
+}
+
+func (c *current) onShortHandTitle49(name, start interface{}) (interface{}, error) {
+	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (c *current) onBlockAttributes275() (interface{}, error) {
+func (p *parser) callonShortHandTitle49() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortHandTitle49(stack["name"], stack["start"])
+}
 
+func (c *current) onShortHandTitle75() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes275() (interface{}, error) {
+func (p *parser) callonShortHandTitle75() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes275()
+	return p.cur.onShortHandTitle75()
 }
 
-func (c *current) onBlockAttributes279() (interface{}, error) {
-	// TODO: just use "\n"
+func (c *current) onShortHandTitle87() (interface{}, error) {
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonBlockAttributes279() (interface{}, error) {
+func (p *parser) callonShortHandTitle87() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes279()
+	return p.cur.onShortHandTitle87()
 }
 
-func (c *current) onBlockAttributes269(content interface{}) (interface{}, error) {
-	return types.NewSinglelineComment(content.(string))
+func (c *current) onShortHandTitle89() (interface{}, error) {
+
+	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonBlockAttributes269() (interface{}, error) {
+func (p *parser) callonShortHandTitle89() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes269(stack["content"])
+	return p.cur.onShortHandTitle89()
 }
 
-func (c *current) onBlockAttributes145(title interface{}) (interface{}, error) {
-	return title, nil
+func (c *current) onShortHandTitle82(start interface{}) (interface{}, error) {
+	return start, nil
 
 }
 
-func (p *parser) callonBlockAttributes145() (interface{}, error) {
+func (p *parser) callonShortHandTitle82() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes145(stack["title"])
+	return p.cur.onShortHandTitle82(stack["start"])
+}
+
+func (c *current) onShortHandTitle71(name, start interface{}) (interface{}, error) {
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
+}
+
+func (p *parser) callonShortHandTitle71() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortHandTitle71(stack["name"], stack["start"])
 }
 
-func (c *current) onBlockAttributes291() (interface{}, error) {
+func (c *current) onShortHandTitle93() (interface{}, error) {
 
+	if log.IsLevelEnabled(log.DebugLevel) {
+		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
+	}
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes291() (interface{}, error) {
+func (p *parser) callonShortHandTitle93() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortHandTitle93()
+}
+
+func (c *current) onShortHandTitle1(elements interface{}) (interface{}, error) {
+	return types.NewTitleAttribute(types.Reduce(elements, strings.TrimSpace))
+
+}
+
+func (p *parser) callonShortHandTitle1() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortHandTitle1(stack["elements"])
+}
+
+func (c *current) onTitlePassthrough12() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonTitlePassthrough12() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes291()
+	return p.cur.onTitlePassthrough12()
 }
 
-func (c *current) onBlockAttributes294() (interface{}, error) {
+func (c *current) onTitlePassthrough26() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes294() (interface{}, error) {
+func (p *parser) callonTitlePassthrough26() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onTitlePassthrough26()
+}
+
+func (c *current) onTitlePassthrough48() (interface{}, error) {
+	// spaces and newlines are also allowed in the first or last position of the content and elsewhere too
+	return types.NewStringElement(string(c.text))
+
+}
+
+func (p *parser) callonTitlePassthrough48() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes294()
+	return p.cur.onTitlePassthrough48()
 }
 
-func (c *current) onBlockAttributes308() (interface{}, error) {
+func (c *current) onTitlePassthrough58() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes308() (interface{}, error) {
+func (p *parser) callonTitlePassthrough58() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes308()
+	return p.cur.onTitlePassthrough58()
 }
 
-func (c *current) onBlockAttributes311() (interface{}, error) {
+func (c *current) onTitlePassthrough61() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes311() (interface{}, error) {
+func (p *parser) callonTitlePassthrough61() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes311()
+	return p.cur.onTitlePassthrough61()
 }
 
-func (c *current) onBlockAttributes303() (interface{}, error) {
-	return types.NewBlankLine()
+func (c *current) onTitlePassthrough54() (interface{}, error) {
+	// a single character
+	return types.NewStringElement(string(c.text))
+
+}
+
+func (p *parser) callonTitlePassthrough54() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onTitlePassthrough54()
+}
+
+func (c *current) onTitlePassthrough43(content interface{}) (interface{}, error) {
+	return types.NewInlinePassthrough(types.TriplePlusPassthrough, []interface{}{content})
 
 }
 
-func (p *parser) callonBlockAttributes303() (interface{}, error) {
+func (p *parser) callonTitlePassthrough43() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes303()
+	return p.cur.onTitlePassthrough43(stack["content"])
 }
 
-func (c *current) onBlockAttributes324() (interface{}, error) {
+func (c *current) onTitlePassthrough80() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes324() (interface{}, error) {
+func (p *parser) callonTitlePassthrough80() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes324()
+	return p.cur.onTitlePassthrough80()
 }
 
-func (c *current) onBlockAttributes328() (interface{}, error) {
+func (c *current) onTitlePassthrough83() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes328() (interface{}, error) {
+func (p *parser) callonTitlePassthrough83() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes328()
+	return p.cur.onTitlePassthrough83()
 }
 
-func (c *current) onBlockAttributes318(content interface{}) (interface{}, error) {
-	return types.NewSinglelineComment(content.(string))
+func (c *current) onTitlePassthrough93() (interface{}, error) {
+	// log.Debug("matched multiple spaces")
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes318() (interface{}, error) {
+func (p *parser) callonTitlePassthrough93() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes318(stack["content"])
+	return p.cur.onTitlePassthrough93()
 }
 
-func (c *current) onBlockAttributes286(attributes interface{}) (interface{}, error) {
-	return attributes, nil
+func (c *current) onTitlePassthrough100() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonTitlePassthrough100() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onTitlePassthrough100()
+}
+
+func (c *current) onTitlePassthrough75() (interface{}, error) {
+	// no space in the first or last position of the content, but allowed elsewhere
+	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonBlockAttributes286() (interface{}, error) {
+func (p *parser) callonTitlePassthrough75() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes286(stack["attributes"])
+	return p.cur.onTitlePassthrough75()
 }
 
-func (c *current) onBlockAttributes1(attributes interface{}) (interface{}, error) {
-	// c.unsetCurrentSubstitution()
-	return types.MergeAttributes(attributes.([]interface{})...)
+func (c *current) onTitlePassthrough109() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes1() (interface{}, error) {
+func (p *parser) callonTitlePassthrough109() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes1(stack["attributes"])
+	return p.cur.onTitlePassthrough109()
 }
 
-func (c *current) onInlineAttributes6(attribute interface{}) (interface{}, error) {
-	return attribute, nil
+func (c *current) onTitlePassthrough112() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
 
+func (p *parser) callonTitlePassthrough112() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onTitlePassthrough112()
 }
 
-func (p *parser) callonInlineAttributes6() (interface{}, error) {
+func (c *current) onTitlePassthrough106() (interface{}, error) {
+	// a single character
+	return types.NewStringElement(string(c.text))
+
+}
+
+func (p *parser) callonTitlePassthrough106() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlineAttributes6(stack["attribute"])
+	return p.cur.onTitlePassthrough106()
 }
 
-func (c *current) onInlineAttributes1(attributes interface{}) (interface{}, error) {
-	return types.NewAttributes(attributes.([]interface{})...)
+func (c *current) onTitlePassthrough70(content interface{}) (interface{}, error) {
+	return types.NewInlinePassthrough(types.SinglePlusPassthrough, []interface{}{content})
 
 }
 
-func (p *parser) callonInlineAttributes1() (interface{}, error) {
+func (p *parser) callonTitlePassthrough70() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlineAttributes1(stack["attributes"])
+	return p.cur.onTitlePassthrough70(stack["content"])
+}
+
+func (c *current) onTitlePassthrough1(element interface{}) (interface{}, error) {
+	return element, nil
+
+}
+
+func (p *parser) callonTitlePassthrough1() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onTitlePassthrough1(stack["element"])
 }
 
 func (c *current) onLongHandAttributes1(firstPositionalAttributes, otherAttributes interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 671172a..7f98da6 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -425,7 +425,8 @@ LegacyElementID <-
 ShortHandTitle <- `.` 
     ![. ] // may not start with a dot or a space, to avoid confusion with list items or literal block delimiters
     elements:(
-        Alphanums
+        TitlePassthrough
+        / Alphanums
         / Space
         / Punctuation
         / AttributeReferenceValue
@@ -435,6 +436,17 @@ ShortHandTitle <- `.`
         return types.NewTitleAttribute(types.Reduce(elements, strings.TrimSpace))
     }
 
+// passthroughs on a single line, in which references to attributes and counters must not be replaced
+TitlePassthrough <-
+    &(
+        ("+++" (!"+++" !Newline .)* "+++")
+        / ("+" (!"+" !Newline .)+ "+")
+        / ("pass:" "q"? "[" [^\]\r\n]* "]")
+    )
+    element:(TriplePlusPassthrough / SinglePlusPassthrough / PassthroughMacro) {
+        return element, nil
+    }
+
 // LongHandAttributes. Eg: `[positional1,positional2,...,named1,named2,...]
 // positional attributes are optional, and `positional1` can be combined with options and roles ("extras")
 LongHandAttributes <-
-- 
2.43.0


From b47201b696feb527d96cef6b39674ff147f0d95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:06 +0000
Subject: [PATCH 58/75] fix: references to attributes in passthrough macros
 with quotes

The conversion failed on references to attributes in a quoted text in
such a macro, in which they are not replaced.
---
 pkg/types/types.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 2479b82..fddcb46 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2963,10 +2963,26 @@ const (
 func NewInlinePassthrough(kind PassthroughKind, elements []interface{}) (*InlinePassthrough, error) {
 	return &InlinePassthrough{
 		Kind:     kind,
-		Elements: merge(elements...),
+		Elements: merge(withoutAttributeRefs(elements)...),
 	}, nil
 }
 
+// withoutAttributeRefs returns the elements in which the references to attributes and counters are kept as text,
+// since they are not replaced in passthroughs
+func withoutAttributeRefs(elements []interface{}) []interface{} {
+	for i, e := range elements {
+		switch e := e.(type) {
+		case *AttributeReference:
+			elements[i] = &StringElement{Content: e.rawText}
+		case *CounterSubstitution:
+			elements[i] = &StringElement{Content: e.rawText}
+		case *QuotedText:
+			e.Elements = withoutAttributeRefs(e.Elements)
+		}
+	}
+	return elements
+}
+
 // ------------------------------------------
 // Inline Links
 // ------------------------------------------
-- 
2.43.0


From 5a35987df63c84d5d2cfe927d628a1c29e762f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:19 +0000
Subject: [PATCH 59/75] fix: options ignored when a single text is reduced

---
 pkg/types/types_utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/types/types_utils.go b/pkg/types/types_utils.go
index 71281cb..0b8f1f5 100644
--- a/pkg/types/types_utils.go
+++ b/pkg/types/types_utils.go
@@ -115,7 +115,7 @@ func Reduce(elements interface{}, opts ...ReduceOption) interface{} {
 			return e
 		}
 	case *StringElement:
-		return Reduce(e.Content)
+		return Reduce(e.Content, opts...)
 	case string:
 		for _, apply := range opts {
 			e = apply(e)
-- 
2.43.0


From 3ee07ea96ac70327b474dfb436cca20186d4b301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:09 +0000
Subject: [PATCH 60/75] fix: references to attributes before the at sign of an
 e-mail address

---
 pkg/parser/parser.go  | 12060 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |     2 +-
 2 files changed, 6049 insertions(+), 6013 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index c278796..2e73553 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 49, offset: 11042},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92852},
+														pos: position{line: 2934, col: 10, offset: 92906},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92852},
+															pos:        position{line: 2934, col: 10, offset: 92906},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2956, col: 8, offset: 93250},
+													pos: position{line: 2956, col: 8, offset: 93304},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93023},
+															pos: position{line: 2943, col: 12, offset: 93077},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93024},
+																pos: position{line: 2943, col: 13, offset: 93078},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93024},
+																		pos:        position{line: 2943, col: 13, offset: 93078},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93031},
+																		pos:        position{line: 2943, col: 20, offset: 93085},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93040},
+																		pos:        position{line: 2943, col: 29, offset: 93094},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93200},
+															pos: position{line: 2953, col: 8, offset: 93254},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93201,
+																line: 2953, col: 9, offset: 93255,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 364, col: 39, offset: 11163},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92852},
+														pos: position{line: 2934, col: 10, offset: 92906},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92852},
+															pos:        position{line: 2934, col: 10, offset: 92906},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2956, col: 8, offset: 93250},
+													pos: position{line: 2956, col: 8, offset: 93304},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93023},
+															pos: position{line: 2943, col: 12, offset: 93077},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93024},
+																pos: position{line: 2943, col: 13, offset: 93078},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93024},
+																		pos:        position{line: 2943, col: 13, offset: 93078},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93031},
+																		pos:        position{line: 2943, col: 20, offset: 93085},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93040},
+																		pos:        position{line: 2943, col: 29, offset: 93094},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93200},
+															pos: position{line: 2953, col: 8, offset: 93254},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93201,
+																line: 2953, col: 9, offset: 93255,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92852},
+														pos: position{line: 2934, col: 10, offset: 92906},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92852},
+															pos:        position{line: 2934, col: 10, offset: 92906},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2953, col: 8, offset: 93200},
+													pos: position{line: 2953, col: 8, offset: 93254},
 													expr: &anyMatcher{
-														line: 2953, col: 9, offset: 93201,
+														line: 2953, col: 9, offset: 93255,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92852},
+														pos: position{line: 2934, col: 10, offset: 92906},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92852},
+															pos:        position{line: 2934, col: 10, offset: 92906},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2953, col: 8, offset: 93200},
+													pos: position{line: 2953, col: 8, offset: 93254},
 													expr: &anyMatcher{
-														line: 2953, col: 9, offset: 93201,
+														line: 2953, col: 9, offset: 93255,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2926, col: 12, offset: 92679},
+																pos: position{line: 2926, col: 12, offset: 92733},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2926, col: 13, offset: 92680},
+																	pos: position{line: 2926, col: 13, offset: 92734},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2926, col: 13, offset: 92680},
+																			pos: position{line: 2926, col: 13, offset: 92734},
 																			expr: &litMatcher{
-																				pos:        position{line: 2926, col: 13, offset: 92680},
+																				pos:        position{line: 2926, col: 13, offset: 92734},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2926, col: 18, offset: 92685},
+																			pos: position{line: 2926, col: 18, offset: 92739},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2926, col: 18, offset: 92685},
+																				pos:        position{line: 2926, col: 18, offset: 92739},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92852},
+														pos: position{line: 2934, col: 10, offset: 92906},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92852},
+															pos:        position{line: 2934, col: 10, offset: 92906},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92852},
+														pos: position{line: 2934, col: 10, offset: 92906},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92852},
+															pos:        position{line: 2934, col: 10, offset: 92906},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2926, col: 12, offset: 92679},
+																pos: position{line: 2926, col: 12, offset: 92733},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2926, col: 13, offset: 92680},
+																	pos: position{line: 2926, col: 13, offset: 92734},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2926, col: 13, offset: 92680},
+																			pos: position{line: 2926, col: 13, offset: 92734},
 																			expr: &litMatcher{
-																				pos:        position{line: 2926, col: 13, offset: 92680},
+																				pos:        position{line: 2926, col: 13, offset: 92734},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2926, col: 18, offset: 92685},
+																			pos: position{line: 2926, col: 18, offset: 92739},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2926, col: 18, offset: 92685},
+																				pos:        position{line: 2926, col: 18, offset: 92739},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92852},
+														pos: position{line: 2934, col: 10, offset: 92906},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92852},
+															pos:        position{line: 2934, col: 10, offset: 92906},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2953, col: 8, offset: 93200},
+													pos: position{line: 2953, col: 8, offset: 93254},
 													expr: &anyMatcher{
-														line: 2953, col: 9, offset: 93201,
+														line: 2953, col: 9, offset: 93255,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92852},
+														pos: position{line: 2934, col: 10, offset: 92906},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92852},
+															pos:        position{line: 2934, col: 10, offset: 92906},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2953, col: 8, offset: 93200},
+													pos: position{line: 2953, col: 8, offset: 93254},
 													expr: &anyMatcher{
-														line: 2953, col: 9, offset: 93201,
+														line: 2953, col: 9, offset: 93255,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 749, col: 5, offset: 24130},
 													expr: &charClassMatcher{
-														pos:        position{line: 2824, col: 13, offset: 89947},
+														pos:        position{line: 2824, col: 13, offset: 90001},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 767, col: 8, offset: 24774},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92852},
+																				pos: position{line: 2934, col: 10, offset: 92906},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92852},
+																					pos:        position{line: 2934, col: 10, offset: 92906},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93250},
+																			pos: position{line: 2956, col: 8, offset: 93304},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93023},
+																					pos: position{line: 2943, col: 12, offset: 93077},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93024},
+																						pos: position{line: 2943, col: 13, offset: 93078},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93024},
+																								pos:        position{line: 2943, col: 13, offset: 93078},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93031},
+																								pos:        position{line: 2943, col: 20, offset: 93085},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93040},
+																								pos:        position{line: 2943, col: 29, offset: 93094},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 774, col: 8, offset: 25022},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92852},
+																				pos: position{line: 2934, col: 10, offset: 92906},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92852},
+																					pos:        position{line: 2934, col: 10, offset: 92906},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93250},
+																			pos: position{line: 2956, col: 8, offset: 93304},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93023},
+																					pos: position{line: 2943, col: 12, offset: 93077},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93024},
+																						pos: position{line: 2943, col: 13, offset: 93078},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93024},
+																								pos:        position{line: 2943, col: 13, offset: 93078},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93031},
+																								pos:        position{line: 2943, col: 20, offset: 93085},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93040},
+																								pos:        position{line: 2943, col: 29, offset: 93094},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 785, col: 52, offset: 25434},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92852},
+																				pos: position{line: 2934, col: 10, offset: 92906},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92852},
+																					pos:        position{line: 2934, col: 10, offset: 92906},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93250},
+																			pos: position{line: 2956, col: 8, offset: 93304},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93023},
+																					pos: position{line: 2943, col: 12, offset: 93077},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93024},
+																						pos: position{line: 2943, col: 13, offset: 93078},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93024},
+																								pos:        position{line: 2943, col: 13, offset: 93078},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93031},
+																								pos:        position{line: 2943, col: 20, offset: 93085},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93040},
+																								pos:        position{line: 2943, col: 29, offset: 93094},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 781, col: 8, offset: 25268},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92852},
+																				pos: position{line: 2934, col: 10, offset: 92906},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92852},
+																					pos:        position{line: 2934, col: 10, offset: 92906},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93250},
+																			pos: position{line: 2956, col: 8, offset: 93304},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93023},
+																					pos: position{line: 2943, col: 12, offset: 93077},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93024},
+																						pos: position{line: 2943, col: 13, offset: 93078},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93024},
+																								pos:        position{line: 2943, col: 13, offset: 93078},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93031},
+																								pos:        position{line: 2943, col: 20, offset: 93085},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93040},
+																								pos:        position{line: 2943, col: 29, offset: 93094},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 796, col: 8, offset: 25806},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92852},
+																				pos: position{line: 2934, col: 10, offset: 92906},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92852},
+																					pos:        position{line: 2934, col: 10, offset: 92906},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93250},
+																			pos: position{line: 2956, col: 8, offset: 93304},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93023},
+																					pos: position{line: 2943, col: 12, offset: 93077},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93024},
+																						pos: position{line: 2943, col: 13, offset: 93078},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93024},
+																								pos:        position{line: 2943, col: 13, offset: 93078},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93031},
+																								pos:        position{line: 2943, col: 20, offset: 93085},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93040},
+																								pos:        position{line: 2943, col: 29, offset: 93094},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 810, col: 8, offset: 26282},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92852},
+																				pos: position{line: 2934, col: 10, offset: 92906},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92852},
+																					pos:        position{line: 2934, col: 10, offset: 92906},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93250},
+																			pos: position{line: 2956, col: 8, offset: 93304},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93023},
+																					pos: position{line: 2943, col: 12, offset: 93077},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93024},
+																						pos: position{line: 2943, col: 13, offset: 93078},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93024},
+																								pos:        position{line: 2943, col: 13, offset: 93078},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93031},
+																								pos:        position{line: 2943, col: 20, offset: 93085},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93040},
+																								pos:        position{line: 2943, col: 29, offset: 93094},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 817, col: 8, offset: 26534},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92852},
+																				pos: position{line: 2934, col: 10, offset: 92906},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92852},
+																					pos:        position{line: 2934, col: 10, offset: 92906},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93250},
+																			pos: position{line: 2956, col: 8, offset: 93304},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93023},
+																					pos: position{line: 2943, col: 12, offset: 93077},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93024},
+																						pos: position{line: 2943, col: 13, offset: 93078},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93024},
+																								pos:        position{line: 2943, col: 13, offset: 93078},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93031},
+																								pos:        position{line: 2943, col: 20, offset: 93085},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93040},
+																								pos:        position{line: 2943, col: 29, offset: 93094},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 824, col: 8, offset: 26784},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92852},
+																				pos: position{line: 2934, col: 10, offset: 92906},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92852},
+																					pos:        position{line: 2934, col: 10, offset: 92906},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93250},
+																			pos: position{line: 2956, col: 8, offset: 93304},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93023},
+																					pos: position{line: 2943, col: 12, offset: 93077},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93024},
+																						pos: position{line: 2943, col: 13, offset: 93078},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93024},
+																								pos:        position{line: 2943, col: 13, offset: 93078},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93031},
+																								pos:        position{line: 2943, col: 20, offset: 93085},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93040},
+																								pos:        position{line: 2943, col: 29, offset: 93094},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 831, col: 8, offset: 27030},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92852},
+																				pos: position{line: 2934, col: 10, offset: 92906},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92852},
+																					pos:        position{line: 2934, col: 10, offset: 92906},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93250},
+																			pos: position{line: 2956, col: 8, offset: 93304},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93023},
+																					pos: position{line: 2943, col: 12, offset: 93077},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93024},
+																						pos: position{line: 2943, col: 13, offset: 93078},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93024},
+																								pos:        position{line: 2943, col: 13, offset: 93078},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93031},
+																								pos:        position{line: 2943, col: 20, offset: 93085},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93040},
+																								pos:        position{line: 2943, col: 29, offset: 93094},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2938, col: 11, offset: 92913},
+													pos: position{line: 2938, col: 11, offset: 92967},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2938, col: 11, offset: 92913},
+														pos: position{line: 2938, col: 11, offset: 92967},
 														expr: &charClassMatcher{
-															pos:        position{line: 2938, col: 11, offset: 92913},
+															pos:        position{line: 2938, col: 11, offset: 92967},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2884, col: 14, offset: 91445},
+													pos: position{line: 2884, col: 14, offset: 91499},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2884, col: 14, offset: 91445},
+														pos: position{line: 2884, col: 14, offset: 91499},
 														expr: &charClassMatcher{
-															pos:        position{line: 2884, col: 14, offset: 91445},
+															pos:        position{line: 2884, col: 14, offset: 91499},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2953, col: 8, offset: 93200},
+													pos: position{line: 2953, col: 8, offset: 93254},
 													expr: &anyMatcher{
-														line: 2953, col: 9, offset: 93201,
+														line: 2953, col: 9, offset: 93255,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2953, col: 8, offset: 93200},
+							pos: position{line: 2953, col: 8, offset: 93254},
 							expr: &anyMatcher{
-								line: 2953, col: 9, offset: 93201,
+								line: 2953, col: 9, offset: 93255,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2888, col: 17, offset: 91515},
+												pos: position{line: 2888, col: 17, offset: 91569},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2888, col: 17, offset: 91515},
+													pos:   position{line: 2888, col: 17, offset: 91569},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 5, offset: 91969},
+														pos: position{line: 2905, col: 5, offset: 92023},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2905, col: 5, offset: 91969},
+															pos:   position{line: 2905, col: 5, offset: 92023},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2905, col: 14, offset: 91978},
+																pos: position{line: 2905, col: 14, offset: 92032},
 																expr: &choiceExpr{
-																	pos: position{line: 2906, col: 9, offset: 91988},
+																	pos: position{line: 2906, col: 9, offset: 92042},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2906, col: 9, offset: 91988},
+																			pos: position{line: 2906, col: 9, offset: 92042},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2906, col: 9, offset: 91988},
+																				pos: position{line: 2906, col: 9, offset: 92042},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2906, col: 9, offset: 91988},
+																						pos: position{line: 2906, col: 9, offset: 92042},
 																						expr: &litMatcher{
-																							pos:        position{line: 2906, col: 10, offset: 91989},
+																							pos:        position{line: 2906, col: 10, offset: 92043},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2907, col: 9, offset: 92017},
+																						pos: position{line: 2907, col: 9, offset: 92071},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2907, col: 10, offset: 92018},
+																							pos:        position{line: 2907, col: 10, offset: 92072},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2910, col: 11, offset: 92230},
+																			pos: position{line: 2910, col: 11, offset: 92284},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2910, col: 11, offset: 92230},
+																					pos:        position{line: 2910, col: 11, offset: 92284},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2910, col: 19, offset: 92238},
+																					pos: position{line: 2910, col: 19, offset: 92292},
 																					expr: &seqExpr{
-																						pos: position{line: 2910, col: 21, offset: 92240},
+																						pos: position{line: 2910, col: 21, offset: 92294},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2910, col: 21, offset: 92240},
+																								pos: position{line: 2910, col: 21, offset: 92294},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92852},
+																									pos: position{line: 2934, col: 10, offset: 92906},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92852},
+																										pos:        position{line: 2934, col: 10, offset: 92906},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2910, col: 28, offset: 92247},
+																								pos: position{line: 2910, col: 28, offset: 92301},
 																								expr: &notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -3088,10 +3088,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2913, col: 11, offset: 92367},
+																			pos: position{line: 2913, col: 11, offset: 92421},
 																			run: (*parser).callonFileInclusion108,
 																			expr: &litMatcher{
-																				pos:        position{line: 2913, col: 11, offset: 92367},
+																				pos:        position{line: 2913, col: 11, offset: 92421},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3120,10 +3120,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2934, col: 10, offset: 92852},
+								pos: position{line: 2934, col: 10, offset: 92906},
 								run: (*parser).callonFileInclusion113,
 								expr: &charClassMatcher{
-									pos:        position{line: 2934, col: 10, offset: 92852},
+									pos:        position{line: 2934, col: 10, offset: 92906},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3132,28 +3132,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2956, col: 8, offset: 93250},
+							pos: position{line: 2956, col: 8, offset: 93304},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2943, col: 12, offset: 93023},
+									pos: position{line: 2943, col: 12, offset: 93077},
 									run: (*parser).callonFileInclusion116,
 									expr: &choiceExpr{
-										pos: position{line: 2943, col: 13, offset: 93024},
+										pos: position{line: 2943, col: 13, offset: 93078},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2943, col: 13, offset: 93024},
+												pos:        position{line: 2943, col: 13, offset: 93078},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 20, offset: 93031},
+												pos:        position{line: 2943, col: 20, offset: 93085},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 29, offset: 93040},
+												pos:        position{line: 2943, col: 29, offset: 93094},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3162,9 +3162,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2953, col: 8, offset: 93200},
+									pos: position{line: 2953, col: 8, offset: 93254},
 									expr: &anyMatcher{
-										line: 2953, col: 9, offset: 93201,
+										line: 2953, col: 9, offset: 93255,
 									},
 								},
 							},
@@ -3210,24 +3210,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2926, col: 12, offset: 92679},
+																				pos: position{line: 2926, col: 12, offset: 92733},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2926, col: 13, offset: 92680},
+																					pos: position{line: 2926, col: 13, offset: 92734},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2926, col: 13, offset: 92680},
+																							pos: position{line: 2926, col: 13, offset: 92734},
 																							expr: &litMatcher{
-																								pos:        position{line: 2926, col: 13, offset: 92680},
+																								pos:        position{line: 2926, col: 13, offset: 92734},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2926, col: 18, offset: 92685},
+																							pos: position{line: 2926, col: 18, offset: 92739},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2926, col: 18, offset: 92685},
+																								pos:        position{line: 2926, col: 18, offset: 92739},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3248,24 +3248,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2926, col: 12, offset: 92679},
+																				pos: position{line: 2926, col: 12, offset: 92733},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2926, col: 13, offset: 92680},
+																					pos: position{line: 2926, col: 13, offset: 92734},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2926, col: 13, offset: 92680},
+																							pos: position{line: 2926, col: 13, offset: 92734},
 																							expr: &litMatcher{
-																								pos:        position{line: 2926, col: 13, offset: 92680},
+																								pos:        position{line: 2926, col: 13, offset: 92734},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2926, col: 18, offset: 92685},
+																							pos: position{line: 2926, col: 18, offset: 92739},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2926, col: 18, offset: 92685},
+																								pos:        position{line: 2926, col: 18, offset: 92739},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3286,24 +3286,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2926, col: 12, offset: 92679},
+																		pos: position{line: 2926, col: 12, offset: 92733},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2926, col: 13, offset: 92680},
+																			pos: position{line: 2926, col: 13, offset: 92734},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2926, col: 13, offset: 92680},
+																					pos: position{line: 2926, col: 13, offset: 92734},
 																					expr: &litMatcher{
-																						pos:        position{line: 2926, col: 13, offset: 92680},
+																						pos:        position{line: 2926, col: 13, offset: 92734},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2926, col: 18, offset: 92685},
+																					pos: position{line: 2926, col: 18, offset: 92739},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2926, col: 18, offset: 92685},
+																						pos:        position{line: 2926, col: 18, offset: 92739},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3352,24 +3352,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2926, col: 12, offset: 92679},
+																									pos: position{line: 2926, col: 12, offset: 92733},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2926, col: 13, offset: 92680},
+																										pos: position{line: 2926, col: 13, offset: 92734},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2926, col: 13, offset: 92680},
+																												pos: position{line: 2926, col: 13, offset: 92734},
 																												expr: &litMatcher{
-																													pos:        position{line: 2926, col: 13, offset: 92680},
+																													pos:        position{line: 2926, col: 13, offset: 92734},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2926, col: 18, offset: 92685},
+																												pos: position{line: 2926, col: 18, offset: 92739},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2926, col: 18, offset: 92685},
+																													pos:        position{line: 2926, col: 18, offset: 92739},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3390,24 +3390,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2926, col: 12, offset: 92679},
+																									pos: position{line: 2926, col: 12, offset: 92733},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2926, col: 13, offset: 92680},
+																										pos: position{line: 2926, col: 13, offset: 92734},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2926, col: 13, offset: 92680},
+																												pos: position{line: 2926, col: 13, offset: 92734},
 																												expr: &litMatcher{
-																													pos:        position{line: 2926, col: 13, offset: 92680},
+																													pos:        position{line: 2926, col: 13, offset: 92734},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2926, col: 18, offset: 92685},
+																												pos: position{line: 2926, col: 18, offset: 92739},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2926, col: 18, offset: 92685},
+																													pos:        position{line: 2926, col: 18, offset: 92739},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3428,24 +3428,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2926, col: 12, offset: 92679},
+																							pos: position{line: 2926, col: 12, offset: 92733},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2926, col: 13, offset: 92680},
+																								pos: position{line: 2926, col: 13, offset: 92734},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2926, col: 13, offset: 92680},
+																										pos: position{line: 2926, col: 13, offset: 92734},
 																										expr: &litMatcher{
-																											pos:        position{line: 2926, col: 13, offset: 92680},
+																											pos:        position{line: 2926, col: 13, offset: 92734},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2926, col: 18, offset: 92685},
+																										pos: position{line: 2926, col: 18, offset: 92739},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2926, col: 18, offset: 92685},
+																											pos:        position{line: 2926, col: 18, offset: 92739},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3478,24 +3478,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2926, col: 12, offset: 92679},
+														pos: position{line: 2926, col: 12, offset: 92733},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2926, col: 13, offset: 92680},
+															pos: position{line: 2926, col: 13, offset: 92734},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2926, col: 13, offset: 92680},
+																	pos: position{line: 2926, col: 13, offset: 92734},
 																	expr: &litMatcher{
-																		pos:        position{line: 2926, col: 13, offset: 92680},
+																		pos:        position{line: 2926, col: 13, offset: 92734},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2926, col: 18, offset: 92685},
+																	pos: position{line: 2926, col: 18, offset: 92739},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2926, col: 18, offset: 92685},
+																		pos:        position{line: 2926, col: 18, offset: 92739},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3516,24 +3516,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2926, col: 12, offset: 92679},
+														pos: position{line: 2926, col: 12, offset: 92733},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2926, col: 13, offset: 92680},
+															pos: position{line: 2926, col: 13, offset: 92734},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2926, col: 13, offset: 92680},
+																	pos: position{line: 2926, col: 13, offset: 92734},
 																	expr: &litMatcher{
-																		pos:        position{line: 2926, col: 13, offset: 92680},
+																		pos:        position{line: 2926, col: 13, offset: 92734},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2926, col: 18, offset: 92685},
+																	pos: position{line: 2926, col: 18, offset: 92739},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2926, col: 18, offset: 92685},
+																		pos:        position{line: 2926, col: 18, offset: 92739},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3554,24 +3554,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2926, col: 12, offset: 92679},
+												pos: position{line: 2926, col: 12, offset: 92733},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2926, col: 13, offset: 92680},
+													pos: position{line: 2926, col: 13, offset: 92734},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2926, col: 13, offset: 92680},
+															pos: position{line: 2926, col: 13, offset: 92734},
 															expr: &litMatcher{
-																pos:        position{line: 2926, col: 13, offset: 92680},
+																pos:        position{line: 2926, col: 13, offset: 92734},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2926, col: 18, offset: 92685},
+															pos: position{line: 2926, col: 18, offset: 92739},
 															expr: &charClassMatcher{
-																pos:        position{line: 2926, col: 18, offset: 92685},
+																pos:        position{line: 2926, col: 18, offset: 92739},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3587,9 +3587,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2953, col: 8, offset: 93200},
+							pos: position{line: 2953, col: 8, offset: 93254},
 							expr: &anyMatcher{
-								line: 2953, col: 9, offset: 93201,
+								line: 2953, col: 9, offset: 93255,
 							},
 						},
 					},
@@ -3630,12 +3630,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2828, col: 14, offset: 90021},
+																		pos: position{line: 2828, col: 14, offset: 90075},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2828, col: 14, offset: 90021},
+																			pos: position{line: 2828, col: 14, offset: 90075},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2828, col: 14, offset: 90021},
+																				pos:        position{line: 2828, col: 14, offset: 90075},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3696,12 +3696,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2828, col: 14, offset: 90021},
+																				pos: position{line: 2828, col: 14, offset: 90075},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2828, col: 14, offset: 90021},
+																					pos: position{line: 2828, col: 14, offset: 90075},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2828, col: 14, offset: 90021},
+																						pos:        position{line: 2828, col: 14, offset: 90075},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3782,12 +3782,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2828, col: 14, offset: 90021},
+																							pos: position{line: 2828, col: 14, offset: 90075},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2828, col: 14, offset: 90021},
+																								pos: position{line: 2828, col: 14, offset: 90075},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2828, col: 14, offset: 90021},
+																									pos:        position{line: 2828, col: 14, offset: 90075},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3848,12 +3848,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2828, col: 14, offset: 90021},
+																									pos: position{line: 2828, col: 14, offset: 90075},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2828, col: 14, offset: 90021},
+																										pos: position{line: 2828, col: 14, offset: 90075},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2828, col: 14, offset: 90021},
+																											pos:        position{line: 2828, col: 14, offset: 90075},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3910,9 +3910,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2953, col: 8, offset: 93200},
+							pos: position{line: 2953, col: 8, offset: 93254},
 							expr: &anyMatcher{
-								line: 2953, col: 9, offset: 93201,
+								line: 2953, col: 9, offset: 93255,
 							},
 						},
 					},
@@ -3955,12 +3955,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2828, col: 14, offset: 90021},
+																pos: position{line: 2828, col: 14, offset: 90075},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2828, col: 14, offset: 90021},
+																	pos: position{line: 2828, col: 14, offset: 90075},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2828, col: 14, offset: 90021},
+																		pos:        position{line: 2828, col: 14, offset: 90075},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3998,12 +3998,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2828, col: 14, offset: 90021},
+																pos: position{line: 2828, col: 14, offset: 90075},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2828, col: 14, offset: 90021},
+																	pos: position{line: 2828, col: 14, offset: 90075},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2828, col: 14, offset: 90021},
+																		pos:        position{line: 2828, col: 14, offset: 90075},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4034,28 +4034,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2956, col: 8, offset: 93250},
+							pos: position{line: 2956, col: 8, offset: 93304},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2943, col: 12, offset: 93023},
+									pos: position{line: 2943, col: 12, offset: 93077},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2943, col: 13, offset: 93024},
+										pos: position{line: 2943, col: 13, offset: 93078},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2943, col: 13, offset: 93024},
+												pos:        position{line: 2943, col: 13, offset: 93078},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 20, offset: 93031},
+												pos:        position{line: 2943, col: 20, offset: 93085},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 29, offset: 93040},
+												pos:        position{line: 2943, col: 29, offset: 93094},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4064,9 +4064,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2953, col: 8, offset: 93200},
+									pos: position{line: 2953, col: 8, offset: 93254},
 									expr: &anyMatcher{
-										line: 2953, col: 9, offset: 93201,
+										line: 2953, col: 9, offset: 93255,
 									},
 								},
 							},
@@ -4085,9 +4085,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2951, col: 11, offset: 93186},
+							pos: position{line: 2951, col: 11, offset: 93240},
 							expr: &anyMatcher{
-								line: 2951, col: 13, offset: 93188,
+								line: 2951, col: 13, offset: 93242,
 							},
 						},
 						&labeledExpr{
@@ -4182,10 +4182,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 49, offset: 11042},
 														expr: &actionExpr{
-															pos: position{line: 2934, col: 10, offset: 92852},
+															pos: position{line: 2934, col: 10, offset: 92906},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2934, col: 10, offset: 92852},
+																pos:        position{line: 2934, col: 10, offset: 92906},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4194,28 +4194,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2956, col: 8, offset: 93250},
+														pos: position{line: 2956, col: 8, offset: 93304},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93023},
+																pos: position{line: 2943, col: 12, offset: 93077},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93024},
+																	pos: position{line: 2943, col: 13, offset: 93078},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93024},
+																			pos:        position{line: 2943, col: 13, offset: 93078},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93031},
+																			pos:        position{line: 2943, col: 20, offset: 93085},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93040},
+																			pos:        position{line: 2943, col: 29, offset: 93094},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4224,9 +4224,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93200},
+																pos: position{line: 2953, col: 8, offset: 93254},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93201,
+																	line: 2953, col: 9, offset: 93255,
 																},
 															},
 														},
@@ -4287,10 +4287,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 364, col: 39, offset: 11163},
 														expr: &actionExpr{
-															pos: position{line: 2934, col: 10, offset: 92852},
+															pos: position{line: 2934, col: 10, offset: 92906},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2934, col: 10, offset: 92852},
+																pos:        position{line: 2934, col: 10, offset: 92906},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4299,28 +4299,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2956, col: 8, offset: 93250},
+														pos: position{line: 2956, col: 8, offset: 93304},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93023},
+																pos: position{line: 2943, col: 12, offset: 93077},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93024},
+																	pos: position{line: 2943, col: 13, offset: 93078},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93024},
+																			pos:        position{line: 2943, col: 13, offset: 93078},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93031},
+																			pos:        position{line: 2943, col: 20, offset: 93085},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93040},
+																			pos:        position{line: 2943, col: 29, offset: 93094},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4329,9 +4329,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93200},
+																pos: position{line: 2953, col: 8, offset: 93254},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93201,
+																	line: 2953, col: 9, offset: 93255,
 																},
 															},
 														},
@@ -4346,18 +4346,18 @@ var g = &grammar{
 												pos: position{line: 702, col: 14, offset: 22577},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2951, col: 11, offset: 93186},
+														pos: position{line: 2951, col: 11, offset: 93240},
 														expr: &anyMatcher{
-															line: 2951, col: 13, offset: 93188,
+															line: 2951, col: 13, offset: 93242,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 702, col: 21, offset: 22584},
 														expr: &actionExpr{
-															pos: position{line: 2934, col: 10, offset: 92852},
+															pos: position{line: 2934, col: 10, offset: 92906},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2934, col: 10, offset: 92852},
+																pos:        position{line: 2934, col: 10, offset: 92906},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4366,28 +4366,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2956, col: 8, offset: 93250},
+														pos: position{line: 2956, col: 8, offset: 93304},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93023},
+																pos: position{line: 2943, col: 12, offset: 93077},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93024},
+																	pos: position{line: 2943, col: 13, offset: 93078},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93024},
+																			pos:        position{line: 2943, col: 13, offset: 93078},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93031},
+																			pos:        position{line: 2943, col: 20, offset: 93085},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93040},
+																			pos:        position{line: 2943, col: 29, offset: 93094},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4396,9 +4396,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93200},
+																pos: position{line: 2953, col: 8, offset: 93254},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93201,
+																	line: 2953, col: 9, offset: 93255,
 																},
 															},
 														},
@@ -4457,10 +4457,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 767, col: 8, offset: 24774},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92852},
+																		pos: position{line: 2934, col: 10, offset: 92906},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92852},
+																			pos:        position{line: 2934, col: 10, offset: 92906},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4469,28 +4469,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93250},
+																	pos: position{line: 2956, col: 8, offset: 93304},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93023},
+																			pos: position{line: 2943, col: 12, offset: 93077},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93024},
+																				pos: position{line: 2943, col: 13, offset: 93078},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93024},
+																						pos:        position{line: 2943, col: 13, offset: 93078},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93031},
+																						pos:        position{line: 2943, col: 20, offset: 93085},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93040},
+																						pos:        position{line: 2943, col: 29, offset: 93094},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4499,9 +4499,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93200},
+																			pos: position{line: 2953, col: 8, offset: 93254},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93201,
+																				line: 2953, col: 9, offset: 93255,
 																			},
 																		},
 																	},
@@ -4562,10 +4562,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 767, col: 8, offset: 24774},
 																									expr: &actionExpr{
-																										pos: position{line: 2934, col: 10, offset: 92852},
+																										pos: position{line: 2934, col: 10, offset: 92906},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2934, col: 10, offset: 92852},
+																											pos:        position{line: 2934, col: 10, offset: 92906},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4574,28 +4574,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2956, col: 8, offset: 93250},
+																									pos: position{line: 2956, col: 8, offset: 93304},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2943, col: 12, offset: 93023},
+																											pos: position{line: 2943, col: 12, offset: 93077},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2943, col: 13, offset: 93024},
+																												pos: position{line: 2943, col: 13, offset: 93078},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 13, offset: 93024},
+																														pos:        position{line: 2943, col: 13, offset: 93078},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 20, offset: 93031},
+																														pos:        position{line: 2943, col: 20, offset: 93085},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 29, offset: 93040},
+																														pos:        position{line: 2943, col: 29, offset: 93094},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4604,9 +4604,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2953, col: 8, offset: 93200},
+																											pos: position{line: 2953, col: 8, offset: 93254},
 																											expr: &anyMatcher{
-																												line: 2953, col: 9, offset: 93201,
+																												line: 2953, col: 9, offset: 93255,
 																											},
 																										},
 																									},
@@ -4615,9 +4615,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93200},
+																						pos: position{line: 2953, col: 8, offset: 93254},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93201,
+																							line: 2953, col: 9, offset: 93255,
 																						},
 																					},
 																				},
@@ -4633,21 +4633,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2951, col: 11, offset: 93186},
+																							pos: position{line: 2951, col: 11, offset: 93240},
 																							expr: &anyMatcher{
-																								line: 2951, col: 13, offset: 93188,
+																								line: 2951, col: 13, offset: 93242,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 13, offset: 91378},
+																								pos: position{line: 2880, col: 13, offset: 91432},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2880, col: 13, offset: 91378},
+																									pos: position{line: 2880, col: 13, offset: 91432},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 13, offset: 91378},
+																										pos:        position{line: 2880, col: 13, offset: 91432},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4657,28 +4657,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4687,9 +4687,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -4745,10 +4745,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 767, col: 8, offset: 24774},
 																				expr: &actionExpr{
-																					pos: position{line: 2934, col: 10, offset: 92852},
+																					pos: position{line: 2934, col: 10, offset: 92906},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2934, col: 10, offset: 92852},
+																						pos:        position{line: 2934, col: 10, offset: 92906},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4757,28 +4757,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2956, col: 8, offset: 93250},
+																				pos: position{line: 2956, col: 8, offset: 93304},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2943, col: 12, offset: 93023},
+																						pos: position{line: 2943, col: 12, offset: 93077},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2943, col: 13, offset: 93024},
+																							pos: position{line: 2943, col: 13, offset: 93078},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 13, offset: 93024},
+																									pos:        position{line: 2943, col: 13, offset: 93078},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 20, offset: 93031},
+																									pos:        position{line: 2943, col: 20, offset: 93085},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 29, offset: 93040},
+																									pos:        position{line: 2943, col: 29, offset: 93094},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4787,9 +4787,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93200},
+																						pos: position{line: 2953, col: 8, offset: 93254},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93201,
+																							line: 2953, col: 9, offset: 93255,
 																						},
 																					},
 																				},
@@ -4798,9 +4798,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2953, col: 8, offset: 93200},
+																	pos: position{line: 2953, col: 8, offset: 93254},
 																	expr: &anyMatcher{
-																		line: 2953, col: 9, offset: 93201,
+																		line: 2953, col: 9, offset: 93255,
 																	},
 																},
 															},
@@ -4855,10 +4855,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 774, col: 8, offset: 25022},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92852},
+																			pos: position{line: 2934, col: 10, offset: 92906},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92852},
+																				pos:        position{line: 2934, col: 10, offset: 92906},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4867,28 +4867,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93250},
+																		pos: position{line: 2956, col: 8, offset: 93304},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4897,9 +4897,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93200},
+																				pos: position{line: 2953, col: 8, offset: 93254},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93201,
+																					line: 2953, col: 9, offset: 93255,
 																				},
 																			},
 																		},
@@ -4971,10 +4971,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 774, col: 8, offset: 25022},
 																												expr: &actionExpr{
-																													pos: position{line: 2934, col: 10, offset: 92852},
+																													pos: position{line: 2934, col: 10, offset: 92906},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2934, col: 10, offset: 92852},
+																														pos:        position{line: 2934, col: 10, offset: 92906},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4983,28 +4983,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2956, col: 8, offset: 93250},
+																												pos: position{line: 2956, col: 8, offset: 93304},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2943, col: 12, offset: 93023},
+																														pos: position{line: 2943, col: 12, offset: 93077},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2943, col: 13, offset: 93024},
+																															pos: position{line: 2943, col: 13, offset: 93078},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 13, offset: 93024},
+																																	pos:        position{line: 2943, col: 13, offset: 93078},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 20, offset: 93031},
+																																	pos:        position{line: 2943, col: 20, offset: 93085},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 29, offset: 93040},
+																																	pos:        position{line: 2943, col: 29, offset: 93094},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5013,9 +5013,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2953, col: 8, offset: 93200},
+																														pos: position{line: 2953, col: 8, offset: 93254},
 																														expr: &anyMatcher{
-																															line: 2953, col: 9, offset: 93201,
+																															line: 2953, col: 9, offset: 93255,
 																														},
 																													},
 																												},
@@ -5031,9 +5031,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93200},
+																						pos: position{line: 2953, col: 8, offset: 93254},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93201,
+																							line: 2953, col: 9, offset: 93255,
 																						},
 																					},
 																				},
@@ -5049,21 +5049,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2951, col: 11, offset: 93186},
+																							pos: position{line: 2951, col: 11, offset: 93240},
 																							expr: &anyMatcher{
-																								line: 2951, col: 13, offset: 93188,
+																								line: 2951, col: 13, offset: 93242,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 13, offset: 91378},
+																								pos: position{line: 2880, col: 13, offset: 91432},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2880, col: 13, offset: 91378},
+																									pos: position{line: 2880, col: 13, offset: 91432},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 13, offset: 91378},
+																										pos:        position{line: 2880, col: 13, offset: 91432},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5073,28 +5073,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5103,9 +5103,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -5170,10 +5170,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 774, col: 8, offset: 25022},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92852},
+																									pos: position{line: 2934, col: 10, offset: 92906},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92852},
+																										pos:        position{line: 2934, col: 10, offset: 92906},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5182,28 +5182,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2956, col: 8, offset: 93250},
+																								pos: position{line: 2956, col: 8, offset: 93304},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2943, col: 12, offset: 93023},
+																										pos: position{line: 2943, col: 12, offset: 93077},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2943, col: 13, offset: 93024},
+																											pos: position{line: 2943, col: 13, offset: 93078},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 13, offset: 93024},
+																													pos:        position{line: 2943, col: 13, offset: 93078},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 20, offset: 93031},
+																													pos:        position{line: 2943, col: 20, offset: 93085},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 29, offset: 93040},
+																													pos:        position{line: 2943, col: 29, offset: 93094},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5212,9 +5212,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93200},
+																										pos: position{line: 2953, col: 8, offset: 93254},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93201,
+																											line: 2953, col: 9, offset: 93255,
 																										},
 																									},
 																								},
@@ -5230,9 +5230,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93200},
+																		pos: position{line: 2953, col: 8, offset: 93254},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93201,
+																			line: 2953, col: 9, offset: 93255,
 																		},
 																	},
 																},
@@ -5284,10 +5284,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 785, col: 52, offset: 25434},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92852},
+																			pos: position{line: 2934, col: 10, offset: 92906},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92852},
+																				pos:        position{line: 2934, col: 10, offset: 92906},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5296,28 +5296,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93250},
+																		pos: position{line: 2956, col: 8, offset: 93304},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5326,9 +5326,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93200},
+																				pos: position{line: 2953, col: 8, offset: 93254},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93201,
+																					line: 2953, col: 9, offset: 93255,
 																				},
 																			},
 																		},
@@ -5362,10 +5362,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 988, col: 40, offset: 31237},
 																						expr: &actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92852},
+																							pos: position{line: 2934, col: 10, offset: 92906},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92852},
+																								pos:        position{line: 2934, col: 10, offset: 92906},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5374,28 +5374,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93250},
+																						pos: position{line: 2956, col: 8, offset: 93304},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93023},
+																								pos: position{line: 2943, col: 12, offset: 93077},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93024},
+																									pos: position{line: 2943, col: 13, offset: 93078},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93024},
+																											pos:        position{line: 2943, col: 13, offset: 93078},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93031},
+																											pos:        position{line: 2943, col: 20, offset: 93085},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93040},
+																											pos:        position{line: 2943, col: 29, offset: 93094},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5404,9 +5404,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93200},
+																								pos: position{line: 2953, col: 8, offset: 93254},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93201,
+																									line: 2953, col: 9, offset: 93255,
 																								},
 																							},
 																						},
@@ -5424,21 +5424,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2951, col: 11, offset: 93186},
+																							pos: position{line: 2951, col: 11, offset: 93240},
 																							expr: &anyMatcher{
-																								line: 2951, col: 13, offset: 93188,
+																								line: 2951, col: 13, offset: 93242,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 13, offset: 91378},
+																								pos: position{line: 2880, col: 13, offset: 91432},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2880, col: 13, offset: 91378},
+																									pos: position{line: 2880, col: 13, offset: 91432},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 13, offset: 91378},
+																										pos:        position{line: 2880, col: 13, offset: 91432},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5448,28 +5448,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5478,9 +5478,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -5508,10 +5508,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 988, col: 40, offset: 31237},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92852},
+																		pos: position{line: 2934, col: 10, offset: 92906},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92852},
+																			pos:        position{line: 2934, col: 10, offset: 92906},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5520,28 +5520,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93250},
+																	pos: position{line: 2956, col: 8, offset: 93304},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93023},
+																			pos: position{line: 2943, col: 12, offset: 93077},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93024},
+																				pos: position{line: 2943, col: 13, offset: 93078},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93024},
+																						pos:        position{line: 2943, col: 13, offset: 93078},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93031},
+																						pos:        position{line: 2943, col: 20, offset: 93085},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93040},
+																						pos:        position{line: 2943, col: 29, offset: 93094},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5550,9 +5550,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93200},
+																			pos: position{line: 2953, col: 8, offset: 93254},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93201,
+																				line: 2953, col: 9, offset: 93255,
 																			},
 																		},
 																	},
@@ -5609,10 +5609,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 781, col: 8, offset: 25268},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92852},
+																			pos: position{line: 2934, col: 10, offset: 92906},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92852},
+																				pos:        position{line: 2934, col: 10, offset: 92906},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5621,28 +5621,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93250},
+																		pos: position{line: 2956, col: 8, offset: 93304},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5651,9 +5651,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93200},
+																				pos: position{line: 2953, col: 8, offset: 93254},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93201,
+																					line: 2953, col: 9, offset: 93255,
 																				},
 																			},
 																		},
@@ -5725,10 +5725,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 781, col: 8, offset: 25268},
 																												expr: &actionExpr{
-																													pos: position{line: 2934, col: 10, offset: 92852},
+																													pos: position{line: 2934, col: 10, offset: 92906},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2934, col: 10, offset: 92852},
+																														pos:        position{line: 2934, col: 10, offset: 92906},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5737,28 +5737,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2956, col: 8, offset: 93250},
+																												pos: position{line: 2956, col: 8, offset: 93304},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2943, col: 12, offset: 93023},
+																														pos: position{line: 2943, col: 12, offset: 93077},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2943, col: 13, offset: 93024},
+																															pos: position{line: 2943, col: 13, offset: 93078},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 13, offset: 93024},
+																																	pos:        position{line: 2943, col: 13, offset: 93078},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 20, offset: 93031},
+																																	pos:        position{line: 2943, col: 20, offset: 93085},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 29, offset: 93040},
+																																	pos:        position{line: 2943, col: 29, offset: 93094},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5767,9 +5767,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2953, col: 8, offset: 93200},
+																														pos: position{line: 2953, col: 8, offset: 93254},
 																														expr: &anyMatcher{
-																															line: 2953, col: 9, offset: 93201,
+																															line: 2953, col: 9, offset: 93255,
 																														},
 																													},
 																												},
@@ -5785,9 +5785,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93200},
+																						pos: position{line: 2953, col: 8, offset: 93254},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93201,
+																							line: 2953, col: 9, offset: 93255,
 																						},
 																					},
 																				},
@@ -5803,21 +5803,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2951, col: 11, offset: 93186},
+																							pos: position{line: 2951, col: 11, offset: 93240},
 																							expr: &anyMatcher{
-																								line: 2951, col: 13, offset: 93188,
+																								line: 2951, col: 13, offset: 93242,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 13, offset: 91378},
+																								pos: position{line: 2880, col: 13, offset: 91432},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2880, col: 13, offset: 91378},
+																									pos: position{line: 2880, col: 13, offset: 91432},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 13, offset: 91378},
+																										pos:        position{line: 2880, col: 13, offset: 91432},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5827,28 +5827,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5857,9 +5857,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -5924,10 +5924,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 781, col: 8, offset: 25268},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92852},
+																									pos: position{line: 2934, col: 10, offset: 92906},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92852},
+																										pos:        position{line: 2934, col: 10, offset: 92906},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5936,28 +5936,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2956, col: 8, offset: 93250},
+																								pos: position{line: 2956, col: 8, offset: 93304},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2943, col: 12, offset: 93023},
+																										pos: position{line: 2943, col: 12, offset: 93077},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2943, col: 13, offset: 93024},
+																											pos: position{line: 2943, col: 13, offset: 93078},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 13, offset: 93024},
+																													pos:        position{line: 2943, col: 13, offset: 93078},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 20, offset: 93031},
+																													pos:        position{line: 2943, col: 20, offset: 93085},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 29, offset: 93040},
+																													pos:        position{line: 2943, col: 29, offset: 93094},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5966,9 +5966,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93200},
+																										pos: position{line: 2953, col: 8, offset: 93254},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93201,
+																											line: 2953, col: 9, offset: 93255,
 																										},
 																									},
 																								},
@@ -5984,9 +5984,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93200},
+																		pos: position{line: 2953, col: 8, offset: 93254},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93201,
+																			line: 2953, col: 9, offset: 93255,
 																		},
 																	},
 																},
@@ -6042,10 +6042,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 796, col: 8, offset: 25806},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92852},
+																			pos: position{line: 2934, col: 10, offset: 92906},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92852},
+																				pos:        position{line: 2934, col: 10, offset: 92906},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6054,28 +6054,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93250},
+																		pos: position{line: 2956, col: 8, offset: 93304},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6084,9 +6084,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93200},
+																				pos: position{line: 2953, col: 8, offset: 93254},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93201,
+																					line: 2953, col: 9, offset: 93255,
 																				},
 																			},
 																		},
@@ -6158,10 +6158,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 796, col: 8, offset: 25806},
 																												expr: &actionExpr{
-																													pos: position{line: 2934, col: 10, offset: 92852},
+																													pos: position{line: 2934, col: 10, offset: 92906},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2934, col: 10, offset: 92852},
+																														pos:        position{line: 2934, col: 10, offset: 92906},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6170,28 +6170,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2956, col: 8, offset: 93250},
+																												pos: position{line: 2956, col: 8, offset: 93304},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2943, col: 12, offset: 93023},
+																														pos: position{line: 2943, col: 12, offset: 93077},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2943, col: 13, offset: 93024},
+																															pos: position{line: 2943, col: 13, offset: 93078},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 13, offset: 93024},
+																																	pos:        position{line: 2943, col: 13, offset: 93078},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 20, offset: 93031},
+																																	pos:        position{line: 2943, col: 20, offset: 93085},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 29, offset: 93040},
+																																	pos:        position{line: 2943, col: 29, offset: 93094},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6200,9 +6200,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2953, col: 8, offset: 93200},
+																														pos: position{line: 2953, col: 8, offset: 93254},
 																														expr: &anyMatcher{
-																															line: 2953, col: 9, offset: 93201,
+																															line: 2953, col: 9, offset: 93255,
 																														},
 																													},
 																												},
@@ -6218,9 +6218,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93200},
+																						pos: position{line: 2953, col: 8, offset: 93254},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93201,
+																							line: 2953, col: 9, offset: 93255,
 																						},
 																					},
 																				},
@@ -6236,21 +6236,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2951, col: 11, offset: 93186},
+																							pos: position{line: 2951, col: 11, offset: 93240},
 																							expr: &anyMatcher{
-																								line: 2951, col: 13, offset: 93188,
+																								line: 2951, col: 13, offset: 93242,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 13, offset: 91378},
+																								pos: position{line: 2880, col: 13, offset: 91432},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2880, col: 13, offset: 91378},
+																									pos: position{line: 2880, col: 13, offset: 91432},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 13, offset: 91378},
+																										pos:        position{line: 2880, col: 13, offset: 91432},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6260,28 +6260,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6290,9 +6290,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -6357,10 +6357,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 796, col: 8, offset: 25806},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92852},
+																									pos: position{line: 2934, col: 10, offset: 92906},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92852},
+																										pos:        position{line: 2934, col: 10, offset: 92906},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6369,28 +6369,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2956, col: 8, offset: 93250},
+																								pos: position{line: 2956, col: 8, offset: 93304},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2943, col: 12, offset: 93023},
+																										pos: position{line: 2943, col: 12, offset: 93077},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2943, col: 13, offset: 93024},
+																											pos: position{line: 2943, col: 13, offset: 93078},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 13, offset: 93024},
+																													pos:        position{line: 2943, col: 13, offset: 93078},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 20, offset: 93031},
+																													pos:        position{line: 2943, col: 20, offset: 93085},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 29, offset: 93040},
+																													pos:        position{line: 2943, col: 29, offset: 93094},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6399,9 +6399,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93200},
+																										pos: position{line: 2953, col: 8, offset: 93254},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93201,
+																											line: 2953, col: 9, offset: 93255,
 																										},
 																									},
 																								},
@@ -6417,9 +6417,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93200},
+																		pos: position{line: 2953, col: 8, offset: 93254},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93201,
+																			line: 2953, col: 9, offset: 93255,
 																		},
 																	},
 																},
@@ -6475,10 +6475,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 810, col: 8, offset: 26282},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92852},
+																			pos: position{line: 2934, col: 10, offset: 92906},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92852},
+																				pos:        position{line: 2934, col: 10, offset: 92906},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6487,28 +6487,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93250},
+																		pos: position{line: 2956, col: 8, offset: 93304},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6517,9 +6517,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93200},
+																				pos: position{line: 2953, col: 8, offset: 93254},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93201,
+																					line: 2953, col: 9, offset: 93255,
 																				},
 																			},
 																		},
@@ -6591,10 +6591,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 810, col: 8, offset: 26282},
 																												expr: &actionExpr{
-																													pos: position{line: 2934, col: 10, offset: 92852},
+																													pos: position{line: 2934, col: 10, offset: 92906},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2934, col: 10, offset: 92852},
+																														pos:        position{line: 2934, col: 10, offset: 92906},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6603,28 +6603,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2956, col: 8, offset: 93250},
+																												pos: position{line: 2956, col: 8, offset: 93304},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2943, col: 12, offset: 93023},
+																														pos: position{line: 2943, col: 12, offset: 93077},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2943, col: 13, offset: 93024},
+																															pos: position{line: 2943, col: 13, offset: 93078},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 13, offset: 93024},
+																																	pos:        position{line: 2943, col: 13, offset: 93078},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 20, offset: 93031},
+																																	pos:        position{line: 2943, col: 20, offset: 93085},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 29, offset: 93040},
+																																	pos:        position{line: 2943, col: 29, offset: 93094},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6633,9 +6633,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2953, col: 8, offset: 93200},
+																														pos: position{line: 2953, col: 8, offset: 93254},
 																														expr: &anyMatcher{
-																															line: 2953, col: 9, offset: 93201,
+																															line: 2953, col: 9, offset: 93255,
 																														},
 																													},
 																												},
@@ -6651,9 +6651,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93200},
+																						pos: position{line: 2953, col: 8, offset: 93254},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93201,
+																							line: 2953, col: 9, offset: 93255,
 																						},
 																					},
 																				},
@@ -6669,21 +6669,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2951, col: 11, offset: 93186},
+																							pos: position{line: 2951, col: 11, offset: 93240},
 																							expr: &anyMatcher{
-																								line: 2951, col: 13, offset: 93188,
+																								line: 2951, col: 13, offset: 93242,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 13, offset: 91378},
+																								pos: position{line: 2880, col: 13, offset: 91432},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2880, col: 13, offset: 91378},
+																									pos: position{line: 2880, col: 13, offset: 91432},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 13, offset: 91378},
+																										pos:        position{line: 2880, col: 13, offset: 91432},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6693,28 +6693,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6723,9 +6723,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -6790,10 +6790,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 810, col: 8, offset: 26282},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92852},
+																									pos: position{line: 2934, col: 10, offset: 92906},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92852},
+																										pos:        position{line: 2934, col: 10, offset: 92906},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6802,28 +6802,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2956, col: 8, offset: 93250},
+																								pos: position{line: 2956, col: 8, offset: 93304},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2943, col: 12, offset: 93023},
+																										pos: position{line: 2943, col: 12, offset: 93077},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2943, col: 13, offset: 93024},
+																											pos: position{line: 2943, col: 13, offset: 93078},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 13, offset: 93024},
+																													pos:        position{line: 2943, col: 13, offset: 93078},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 20, offset: 93031},
+																													pos:        position{line: 2943, col: 20, offset: 93085},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 29, offset: 93040},
+																													pos:        position{line: 2943, col: 29, offset: 93094},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6832,9 +6832,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93200},
+																										pos: position{line: 2953, col: 8, offset: 93254},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93201,
+																											line: 2953, col: 9, offset: 93255,
 																										},
 																									},
 																								},
@@ -6850,9 +6850,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93200},
+																		pos: position{line: 2953, col: 8, offset: 93254},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93201,
+																			line: 2953, col: 9, offset: 93255,
 																		},
 																	},
 																},
@@ -6886,18 +6886,18 @@ var g = &grammar{
 																				pos: position{line: 702, col: 14, offset: 22577},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2951, col: 11, offset: 93186},
+																						pos: position{line: 2951, col: 11, offset: 93240},
 																						expr: &anyMatcher{
-																							line: 2951, col: 13, offset: 93188,
+																							line: 2951, col: 13, offset: 93242,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 702, col: 21, offset: 22584},
 																						expr: &actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92852},
+																							pos: position{line: 2934, col: 10, offset: 92906},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92852},
+																								pos:        position{line: 2934, col: 10, offset: 92906},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6906,28 +6906,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93250},
+																						pos: position{line: 2956, col: 8, offset: 93304},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93023},
+																								pos: position{line: 2943, col: 12, offset: 93077},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93024},
+																									pos: position{line: 2943, col: 13, offset: 93078},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93024},
+																											pos:        position{line: 2943, col: 13, offset: 93078},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93031},
+																											pos:        position{line: 2943, col: 20, offset: 93085},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93040},
+																											pos:        position{line: 2943, col: 29, offset: 93094},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6936,9 +6936,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93200},
+																								pos: position{line: 2953, col: 8, offset: 93254},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93201,
+																									line: 2953, col: 9, offset: 93255,
 																								},
 																							},
 																						},
@@ -6957,12 +6957,12 @@ var g = &grammar{
 																		pos:   position{line: 1009, col: 5, offset: 31772},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2884, col: 14, offset: 91445},
+																			pos: position{line: 2884, col: 14, offset: 91499},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2884, col: 14, offset: 91445},
+																				pos: position{line: 2884, col: 14, offset: 91499},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2884, col: 14, offset: 91445},
+																					pos:        position{line: 2884, col: 14, offset: 91499},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -6972,28 +6972,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93250},
+																		pos: position{line: 2956, col: 8, offset: 93304},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7002,9 +7002,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93200},
+																				pos: position{line: 2953, col: 8, offset: 93254},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93201,
+																					line: 2953, col: 9, offset: 93255,
 																				},
 																			},
 																		},
@@ -7036,18 +7036,18 @@ var g = &grammar{
 																							pos: position{line: 702, col: 14, offset: 22577},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2951, col: 11, offset: 93186},
+																									pos: position{line: 2951, col: 11, offset: 93240},
 																									expr: &anyMatcher{
-																										line: 2951, col: 13, offset: 93188,
+																										line: 2951, col: 13, offset: 93242,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 702, col: 21, offset: 22584},
 																									expr: &actionExpr{
-																										pos: position{line: 2934, col: 10, offset: 92852},
+																										pos: position{line: 2934, col: 10, offset: 92906},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2934, col: 10, offset: 92852},
+																											pos:        position{line: 2934, col: 10, offset: 92906},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7056,28 +7056,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2956, col: 8, offset: 93250},
+																									pos: position{line: 2956, col: 8, offset: 93304},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2943, col: 12, offset: 93023},
+																											pos: position{line: 2943, col: 12, offset: 93077},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2943, col: 13, offset: 93024},
+																												pos: position{line: 2943, col: 13, offset: 93078},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 13, offset: 93024},
+																														pos:        position{line: 2943, col: 13, offset: 93078},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 20, offset: 93031},
+																														pos:        position{line: 2943, col: 20, offset: 93085},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 29, offset: 93040},
+																														pos:        position{line: 2943, col: 29, offset: 93094},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7086,9 +7086,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2953, col: 8, offset: 93200},
+																											pos: position{line: 2953, col: 8, offset: 93254},
 																											expr: &anyMatcher{
-																												line: 2953, col: 9, offset: 93201,
+																												line: 2953, col: 9, offset: 93255,
 																											},
 																										},
 																									},
@@ -7107,12 +7107,12 @@ var g = &grammar{
 																					pos:   position{line: 1009, col: 5, offset: 31772},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2884, col: 14, offset: 91445},
+																						pos: position{line: 2884, col: 14, offset: 91499},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2884, col: 14, offset: 91445},
+																							pos: position{line: 2884, col: 14, offset: 91499},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2884, col: 14, offset: 91445},
+																								pos:        position{line: 2884, col: 14, offset: 91499},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7122,28 +7122,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2956, col: 8, offset: 93250},
+																					pos: position{line: 2956, col: 8, offset: 93304},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2943, col: 12, offset: 93023},
+																							pos: position{line: 2943, col: 12, offset: 93077},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2943, col: 13, offset: 93024},
+																								pos: position{line: 2943, col: 13, offset: 93078},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 13, offset: 93024},
+																										pos:        position{line: 2943, col: 13, offset: 93078},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 20, offset: 93031},
+																										pos:        position{line: 2943, col: 20, offset: 93085},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 29, offset: 93040},
+																										pos:        position{line: 2943, col: 29, offset: 93094},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7152,9 +7152,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93200},
+																							pos: position{line: 2953, col: 8, offset: 93254},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93201,
+																								line: 2953, col: 9, offset: 93255,
 																							},
 																						},
 																					},
@@ -7163,21 +7163,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1816, col: 5, offset: 58912},
+																		pos: position{line: 1816, col: 5, offset: 58966},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1816, col: 5, offset: 58912},
+																			pos: position{line: 1816, col: 5, offset: 58966},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1816, col: 5, offset: 58912},
+																					pos:   position{line: 1816, col: 5, offset: 58966},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2884, col: 14, offset: 91445},
+																						pos: position{line: 2884, col: 14, offset: 91499},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2884, col: 14, offset: 91445},
+																							pos: position{line: 2884, col: 14, offset: 91499},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2884, col: 14, offset: 91445},
+																								pos:        position{line: 2884, col: 14, offset: 91499},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7187,32 +7187,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1817, col: 5, offset: 58936},
+																					pos: position{line: 1817, col: 5, offset: 58990},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2956, col: 8, offset: 93250},
+																					pos: position{line: 2956, col: 8, offset: 93304},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2943, col: 12, offset: 93023},
+																							pos: position{line: 2943, col: 12, offset: 93077},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2943, col: 13, offset: 93024},
+																								pos: position{line: 2943, col: 13, offset: 93078},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 13, offset: 93024},
+																										pos:        position{line: 2943, col: 13, offset: 93078},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 20, offset: 93031},
+																										pos:        position{line: 2943, col: 20, offset: 93085},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 29, offset: 93040},
+																										pos:        position{line: 2943, col: 29, offset: 93094},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7221,9 +7221,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93200},
+																							pos: position{line: 2953, col: 8, offset: 93254},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93201,
+																								line: 2953, col: 9, offset: 93255,
 																							},
 																						},
 																					},
@@ -7270,10 +7270,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 803, col: 8, offset: 26037},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92852},
+																			pos: position{line: 2934, col: 10, offset: 92906},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92852},
+																				pos:        position{line: 2934, col: 10, offset: 92906},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7282,28 +7282,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93250},
+																		pos: position{line: 2956, col: 8, offset: 93304},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7312,9 +7312,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93200},
+																				pos: position{line: 2953, col: 8, offset: 93254},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93201,
+																					line: 2953, col: 9, offset: 93255,
 																				},
 																			},
 																		},
@@ -7362,10 +7362,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 803, col: 8, offset: 26037},
 																									expr: &actionExpr{
-																										pos: position{line: 2934, col: 10, offset: 92852},
+																										pos: position{line: 2934, col: 10, offset: 92906},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2934, col: 10, offset: 92852},
+																											pos:        position{line: 2934, col: 10, offset: 92906},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7374,28 +7374,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2956, col: 8, offset: 93250},
+																									pos: position{line: 2956, col: 8, offset: 93304},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2943, col: 12, offset: 93023},
+																											pos: position{line: 2943, col: 12, offset: 93077},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2943, col: 13, offset: 93024},
+																												pos: position{line: 2943, col: 13, offset: 93078},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 13, offset: 93024},
+																														pos:        position{line: 2943, col: 13, offset: 93078},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 20, offset: 93031},
+																														pos:        position{line: 2943, col: 20, offset: 93085},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 29, offset: 93040},
+																														pos:        position{line: 2943, col: 29, offset: 93094},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7404,9 +7404,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2953, col: 8, offset: 93200},
+																											pos: position{line: 2953, col: 8, offset: 93254},
 																											expr: &anyMatcher{
-																												line: 2953, col: 9, offset: 93201,
+																												line: 2953, col: 9, offset: 93255,
 																											},
 																										},
 																									},
@@ -7415,9 +7415,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93200},
+																						pos: position{line: 2953, col: 8, offset: 93254},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93201,
+																							line: 2953, col: 9, offset: 93255,
 																						},
 																					},
 																				},
@@ -7433,21 +7433,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2951, col: 11, offset: 93186},
+																							pos: position{line: 2951, col: 11, offset: 93240},
 																							expr: &anyMatcher{
-																								line: 2951, col: 13, offset: 93188,
+																								line: 2951, col: 13, offset: 93242,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 13, offset: 91378},
+																								pos: position{line: 2880, col: 13, offset: 91432},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2880, col: 13, offset: 91378},
+																									pos: position{line: 2880, col: 13, offset: 91432},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 13, offset: 91378},
+																										pos:        position{line: 2880, col: 13, offset: 91432},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7457,28 +7457,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7487,9 +7487,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -7534,10 +7534,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 803, col: 8, offset: 26037},
 																					expr: &actionExpr{
-																						pos: position{line: 2934, col: 10, offset: 92852},
+																						pos: position{line: 2934, col: 10, offset: 92906},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2934, col: 10, offset: 92852},
+																							pos:        position{line: 2934, col: 10, offset: 92906},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7546,28 +7546,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2956, col: 8, offset: 93250},
+																					pos: position{line: 2956, col: 8, offset: 93304},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2943, col: 12, offset: 93023},
+																							pos: position{line: 2943, col: 12, offset: 93077},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2943, col: 13, offset: 93024},
+																								pos: position{line: 2943, col: 13, offset: 93078},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 13, offset: 93024},
+																										pos:        position{line: 2943, col: 13, offset: 93078},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 20, offset: 93031},
+																										pos:        position{line: 2943, col: 20, offset: 93085},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 29, offset: 93040},
+																										pos:        position{line: 2943, col: 29, offset: 93094},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7576,9 +7576,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93200},
+																							pos: position{line: 2953, col: 8, offset: 93254},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93201,
+																								line: 2953, col: 9, offset: 93255,
 																							},
 																						},
 																					},
@@ -7587,9 +7587,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93200},
+																		pos: position{line: 2953, col: 8, offset: 93254},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93201,
+																			line: 2953, col: 9, offset: 93255,
 																		},
 																	},
 																},
@@ -7645,10 +7645,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 817, col: 8, offset: 26534},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92852},
+																			pos: position{line: 2934, col: 10, offset: 92906},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92852},
+																				pos:        position{line: 2934, col: 10, offset: 92906},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7657,28 +7657,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93250},
+																		pos: position{line: 2956, col: 8, offset: 93304},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7687,9 +7687,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93200},
+																				pos: position{line: 2953, col: 8, offset: 93254},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93201,
+																					line: 2953, col: 9, offset: 93255,
 																				},
 																			},
 																		},
@@ -7761,10 +7761,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 817, col: 8, offset: 26534},
 																												expr: &actionExpr{
-																													pos: position{line: 2934, col: 10, offset: 92852},
+																													pos: position{line: 2934, col: 10, offset: 92906},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2934, col: 10, offset: 92852},
+																														pos:        position{line: 2934, col: 10, offset: 92906},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7773,28 +7773,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2956, col: 8, offset: 93250},
+																												pos: position{line: 2956, col: 8, offset: 93304},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2943, col: 12, offset: 93023},
+																														pos: position{line: 2943, col: 12, offset: 93077},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2943, col: 13, offset: 93024},
+																															pos: position{line: 2943, col: 13, offset: 93078},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 13, offset: 93024},
+																																	pos:        position{line: 2943, col: 13, offset: 93078},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 20, offset: 93031},
+																																	pos:        position{line: 2943, col: 20, offset: 93085},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 29, offset: 93040},
+																																	pos:        position{line: 2943, col: 29, offset: 93094},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7803,9 +7803,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2953, col: 8, offset: 93200},
+																														pos: position{line: 2953, col: 8, offset: 93254},
 																														expr: &anyMatcher{
-																															line: 2953, col: 9, offset: 93201,
+																															line: 2953, col: 9, offset: 93255,
 																														},
 																													},
 																												},
@@ -7821,9 +7821,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93200},
+																						pos: position{line: 2953, col: 8, offset: 93254},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93201,
+																							line: 2953, col: 9, offset: 93255,
 																						},
 																					},
 																				},
@@ -7839,21 +7839,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2951, col: 11, offset: 93186},
+																							pos: position{line: 2951, col: 11, offset: 93240},
 																							expr: &anyMatcher{
-																								line: 2951, col: 13, offset: 93188,
+																								line: 2951, col: 13, offset: 93242,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 13, offset: 91378},
+																								pos: position{line: 2880, col: 13, offset: 91432},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2880, col: 13, offset: 91378},
+																									pos: position{line: 2880, col: 13, offset: 91432},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 13, offset: 91378},
+																										pos:        position{line: 2880, col: 13, offset: 91432},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7863,28 +7863,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7893,9 +7893,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -7960,10 +7960,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 817, col: 8, offset: 26534},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92852},
+																									pos: position{line: 2934, col: 10, offset: 92906},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92852},
+																										pos:        position{line: 2934, col: 10, offset: 92906},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7972,28 +7972,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2956, col: 8, offset: 93250},
+																								pos: position{line: 2956, col: 8, offset: 93304},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2943, col: 12, offset: 93023},
+																										pos: position{line: 2943, col: 12, offset: 93077},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2943, col: 13, offset: 93024},
+																											pos: position{line: 2943, col: 13, offset: 93078},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 13, offset: 93024},
+																													pos:        position{line: 2943, col: 13, offset: 93078},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 20, offset: 93031},
+																													pos:        position{line: 2943, col: 20, offset: 93085},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 29, offset: 93040},
+																													pos:        position{line: 2943, col: 29, offset: 93094},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8002,9 +8002,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93200},
+																										pos: position{line: 2953, col: 8, offset: 93254},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93201,
+																											line: 2953, col: 9, offset: 93255,
 																										},
 																									},
 																								},
@@ -8020,9 +8020,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93200},
+																		pos: position{line: 2953, col: 8, offset: 93254},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93201,
+																			line: 2953, col: 9, offset: 93255,
 																		},
 																	},
 																},
@@ -8078,10 +8078,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 824, col: 8, offset: 26784},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92852},
+																			pos: position{line: 2934, col: 10, offset: 92906},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92852},
+																				pos:        position{line: 2934, col: 10, offset: 92906},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8090,28 +8090,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93250},
+																		pos: position{line: 2956, col: 8, offset: 93304},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8120,9 +8120,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93200},
+																				pos: position{line: 2953, col: 8, offset: 93254},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93201,
+																					line: 2953, col: 9, offset: 93255,
 																				},
 																			},
 																		},
@@ -8194,10 +8194,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 824, col: 8, offset: 26784},
 																												expr: &actionExpr{
-																													pos: position{line: 2934, col: 10, offset: 92852},
+																													pos: position{line: 2934, col: 10, offset: 92906},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2934, col: 10, offset: 92852},
+																														pos:        position{line: 2934, col: 10, offset: 92906},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8206,28 +8206,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2956, col: 8, offset: 93250},
+																												pos: position{line: 2956, col: 8, offset: 93304},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2943, col: 12, offset: 93023},
+																														pos: position{line: 2943, col: 12, offset: 93077},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2943, col: 13, offset: 93024},
+																															pos: position{line: 2943, col: 13, offset: 93078},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 13, offset: 93024},
+																																	pos:        position{line: 2943, col: 13, offset: 93078},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 20, offset: 93031},
+																																	pos:        position{line: 2943, col: 20, offset: 93085},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 29, offset: 93040},
+																																	pos:        position{line: 2943, col: 29, offset: 93094},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8236,9 +8236,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2953, col: 8, offset: 93200},
+																														pos: position{line: 2953, col: 8, offset: 93254},
 																														expr: &anyMatcher{
-																															line: 2953, col: 9, offset: 93201,
+																															line: 2953, col: 9, offset: 93255,
 																														},
 																													},
 																												},
@@ -8254,9 +8254,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93200},
+																						pos: position{line: 2953, col: 8, offset: 93254},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93201,
+																							line: 2953, col: 9, offset: 93255,
 																						},
 																					},
 																				},
@@ -8272,21 +8272,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2951, col: 11, offset: 93186},
+																							pos: position{line: 2951, col: 11, offset: 93240},
 																							expr: &anyMatcher{
-																								line: 2951, col: 13, offset: 93188,
+																								line: 2951, col: 13, offset: 93242,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 13, offset: 91378},
+																								pos: position{line: 2880, col: 13, offset: 91432},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2880, col: 13, offset: 91378},
+																									pos: position{line: 2880, col: 13, offset: 91432},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 13, offset: 91378},
+																										pos:        position{line: 2880, col: 13, offset: 91432},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8296,28 +8296,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8326,9 +8326,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -8393,10 +8393,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 824, col: 8, offset: 26784},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92852},
+																									pos: position{line: 2934, col: 10, offset: 92906},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92852},
+																										pos:        position{line: 2934, col: 10, offset: 92906},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8405,28 +8405,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2956, col: 8, offset: 93250},
+																								pos: position{line: 2956, col: 8, offset: 93304},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2943, col: 12, offset: 93023},
+																										pos: position{line: 2943, col: 12, offset: 93077},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2943, col: 13, offset: 93024},
+																											pos: position{line: 2943, col: 13, offset: 93078},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 13, offset: 93024},
+																													pos:        position{line: 2943, col: 13, offset: 93078},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 20, offset: 93031},
+																													pos:        position{line: 2943, col: 20, offset: 93085},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 29, offset: 93040},
+																													pos:        position{line: 2943, col: 29, offset: 93094},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8435,9 +8435,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93200},
+																										pos: position{line: 2953, col: 8, offset: 93254},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93201,
+																											line: 2953, col: 9, offset: 93255,
 																										},
 																									},
 																								},
@@ -8453,9 +8453,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93200},
+																		pos: position{line: 2953, col: 8, offset: 93254},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93201,
+																			line: 2953, col: 9, offset: 93255,
 																		},
 																	},
 																},
@@ -8511,10 +8511,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 831, col: 8, offset: 27030},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92852},
+																			pos: position{line: 2934, col: 10, offset: 92906},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92852},
+																				pos:        position{line: 2934, col: 10, offset: 92906},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8523,28 +8523,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93250},
+																		pos: position{line: 2956, col: 8, offset: 93304},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8553,9 +8553,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93200},
+																				pos: position{line: 2953, col: 8, offset: 93254},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93201,
+																					line: 2953, col: 9, offset: 93255,
 																				},
 																			},
 																		},
@@ -8627,10 +8627,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 831, col: 8, offset: 27030},
 																												expr: &actionExpr{
-																													pos: position{line: 2934, col: 10, offset: 92852},
+																													pos: position{line: 2934, col: 10, offset: 92906},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2934, col: 10, offset: 92852},
+																														pos:        position{line: 2934, col: 10, offset: 92906},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8639,28 +8639,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2956, col: 8, offset: 93250},
+																												pos: position{line: 2956, col: 8, offset: 93304},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2943, col: 12, offset: 93023},
+																														pos: position{line: 2943, col: 12, offset: 93077},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2943, col: 13, offset: 93024},
+																															pos: position{line: 2943, col: 13, offset: 93078},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 13, offset: 93024},
+																																	pos:        position{line: 2943, col: 13, offset: 93078},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 20, offset: 93031},
+																																	pos:        position{line: 2943, col: 20, offset: 93085},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 29, offset: 93040},
+																																	pos:        position{line: 2943, col: 29, offset: 93094},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8669,9 +8669,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2953, col: 8, offset: 93200},
+																														pos: position{line: 2953, col: 8, offset: 93254},
 																														expr: &anyMatcher{
-																															line: 2953, col: 9, offset: 93201,
+																															line: 2953, col: 9, offset: 93255,
 																														},
 																													},
 																												},
@@ -8687,9 +8687,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93200},
+																						pos: position{line: 2953, col: 8, offset: 93254},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93201,
+																							line: 2953, col: 9, offset: 93255,
 																						},
 																					},
 																				},
@@ -8705,21 +8705,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2951, col: 11, offset: 93186},
+																							pos: position{line: 2951, col: 11, offset: 93240},
 																							expr: &anyMatcher{
-																								line: 2951, col: 13, offset: 93188,
+																								line: 2951, col: 13, offset: 93242,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 13, offset: 91378},
+																								pos: position{line: 2880, col: 13, offset: 91432},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2880, col: 13, offset: 91378},
+																									pos: position{line: 2880, col: 13, offset: 91432},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 13, offset: 91378},
+																										pos:        position{line: 2880, col: 13, offset: 91432},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8729,28 +8729,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8759,9 +8759,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -8826,10 +8826,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 831, col: 8, offset: 27030},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92852},
+																									pos: position{line: 2934, col: 10, offset: 92906},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92852},
+																										pos:        position{line: 2934, col: 10, offset: 92906},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8838,28 +8838,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2956, col: 8, offset: 93250},
+																								pos: position{line: 2956, col: 8, offset: 93304},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2943, col: 12, offset: 93023},
+																										pos: position{line: 2943, col: 12, offset: 93077},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2943, col: 13, offset: 93024},
+																											pos: position{line: 2943, col: 13, offset: 93078},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 13, offset: 93024},
+																													pos:        position{line: 2943, col: 13, offset: 93078},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 20, offset: 93031},
+																													pos:        position{line: 2943, col: 20, offset: 93085},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 29, offset: 93040},
+																													pos:        position{line: 2943, col: 29, offset: 93094},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8868,9 +8868,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93200},
+																										pos: position{line: 2953, col: 8, offset: 93254},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93201,
+																											line: 2953, col: 9, offset: 93255,
 																										},
 																									},
 																								},
@@ -8886,9 +8886,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93200},
+																		pos: position{line: 2953, col: 8, offset: 93254},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93201,
+																			line: 2953, col: 9, offset: 93255,
 																		},
 																	},
 																},
@@ -8899,52 +8899,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2779, col: 18, offset: 88442},
+											pos: position{line: 2779, col: 18, offset: 88496},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2779, col: 18, offset: 88442},
+												pos: position{line: 2779, col: 18, offset: 88496},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2780, col: 9, offset: 88452},
+														pos: position{line: 2780, col: 9, offset: 88506},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2780, col: 9, offset: 88452},
+																pos:        position{line: 2780, col: 9, offset: 88506},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2781, col: 11, offset: 88488},
+																pos:        position{line: 2781, col: 11, offset: 88542},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2781, col: 19, offset: 88496},
+																pos:        position{line: 2781, col: 19, offset: 88550},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2781, col: 29, offset: 88506},
+																pos:        position{line: 2781, col: 29, offset: 88560},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2781, col: 37, offset: 88514},
+																pos:        position{line: 2781, col: 37, offset: 88568},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2781, col: 47, offset: 88524},
+																pos:        position{line: 2781, col: 47, offset: 88578},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2781, col: 55, offset: 88532},
+																pos:        position{line: 2781, col: 55, offset: 88586},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -8952,12 +8952,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2782, col: 11, offset: 88590},
+														pos: position{line: 2782, col: 11, offset: 88644},
 														expr: &actionExpr{
-															pos: position{line: 2934, col: 10, offset: 92852},
+															pos: position{line: 2934, col: 10, offset: 92906},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2934, col: 10, offset: 92852},
+																pos:        position{line: 2934, col: 10, offset: 92906},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -8966,28 +8966,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2956, col: 8, offset: 93250},
+														pos: position{line: 2956, col: 8, offset: 93304},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93023},
+																pos: position{line: 2943, col: 12, offset: 93077},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93024},
+																	pos: position{line: 2943, col: 13, offset: 93078},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93024},
+																			pos:        position{line: 2943, col: 13, offset: 93078},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93031},
+																			pos:        position{line: 2943, col: 20, offset: 93085},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93040},
+																			pos:        position{line: 2943, col: 29, offset: 93094},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -8996,36 +8996,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93200},
+																pos: position{line: 2953, col: 8, offset: 93254},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93201,
+																	line: 2953, col: 9, offset: 93255,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2956, col: 8, offset: 93250},
+														pos: position{line: 2956, col: 8, offset: 93304},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93023},
+																pos: position{line: 2943, col: 12, offset: 93077},
 																run: (*parser).callonDocumentFragment1098,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93024},
+																	pos: position{line: 2943, col: 13, offset: 93078},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93024},
+																			pos:        position{line: 2943, col: 13, offset: 93078},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93031},
+																			pos:        position{line: 2943, col: 20, offset: 93085},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93040},
+																			pos:        position{line: 2943, col: 29, offset: 93094},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9034,9 +9034,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93200},
+																pos: position{line: 2953, col: 8, offset: 93254},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93201,
+																	line: 2953, col: 9, offset: 93255,
 																},
 															},
 														},
@@ -9049,24 +9049,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2663, col: 5, offset: 85199},
+											pos: position{line: 2663, col: 5, offset: 85253},
 											run: (*parser).callonDocumentFragment1106,
 											expr: &seqExpr{
-												pos: position{line: 2663, col: 5, offset: 85199},
+												pos: position{line: 2663, col: 5, offset: 85253},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2669, col: 19, offset: 85376},
+														pos:        position{line: 2669, col: 19, offset: 85430},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2669, col: 26, offset: 85383},
+														pos: position{line: 2669, col: 26, offset: 85437},
 														expr: &actionExpr{
-															pos: position{line: 2934, col: 10, offset: 92852},
+															pos: position{line: 2934, col: 10, offset: 92906},
 															run: (*parser).callonDocumentFragment1110,
 															expr: &charClassMatcher{
-																pos:        position{line: 2934, col: 10, offset: 92852},
+																pos:        position{line: 2934, col: 10, offset: 92906},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9075,28 +9075,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2956, col: 8, offset: 93250},
+														pos: position{line: 2956, col: 8, offset: 93304},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93023},
+																pos: position{line: 2943, col: 12, offset: 93077},
 																run: (*parser).callonDocumentFragment1113,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93024},
+																	pos: position{line: 2943, col: 13, offset: 93078},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93024},
+																			pos:        position{line: 2943, col: 13, offset: 93078},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93031},
+																			pos:        position{line: 2943, col: 20, offset: 93085},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93040},
+																			pos:        position{line: 2943, col: 29, offset: 93094},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9105,20 +9105,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93200},
+																pos: position{line: 2953, col: 8, offset: 93254},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93201,
+																	line: 2953, col: 9, offset: 93255,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2664, col: 5, offset: 85223},
+														pos:   position{line: 2664, col: 5, offset: 85277},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2664, col: 11, offset: 85229},
+															pos: position{line: 2664, col: 11, offset: 85283},
 															expr: &choiceExpr{
-																pos: position{line: 2664, col: 12, offset: 85230},
+																pos: position{line: 2664, col: 12, offset: 85284},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 702, col: 14, offset: 22577},
@@ -9127,18 +9127,18 @@ var g = &grammar{
 																			pos: position{line: 702, col: 14, offset: 22577},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2951, col: 11, offset: 93186},
+																					pos: position{line: 2951, col: 11, offset: 93240},
 																					expr: &anyMatcher{
-																						line: 2951, col: 13, offset: 93188,
+																						line: 2951, col: 13, offset: 93242,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 702, col: 21, offset: 22584},
 																					expr: &actionExpr{
-																						pos: position{line: 2934, col: 10, offset: 92852},
+																						pos: position{line: 2934, col: 10, offset: 92906},
 																						run: (*parser).callonDocumentFragment1128,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2934, col: 10, offset: 92852},
+																							pos:        position{line: 2934, col: 10, offset: 92906},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9147,28 +9147,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2956, col: 8, offset: 93250},
+																					pos: position{line: 2956, col: 8, offset: 93304},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2943, col: 12, offset: 93023},
+																							pos: position{line: 2943, col: 12, offset: 93077},
 																							run: (*parser).callonDocumentFragment1131,
 																							expr: &choiceExpr{
-																								pos: position{line: 2943, col: 13, offset: 93024},
+																								pos: position{line: 2943, col: 13, offset: 93078},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 13, offset: 93024},
+																										pos:        position{line: 2943, col: 13, offset: 93078},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 20, offset: 93031},
+																										pos:        position{line: 2943, col: 20, offset: 93085},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 29, offset: 93040},
+																										pos:        position{line: 2943, col: 29, offset: 93094},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9177,9 +9177,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93200},
+																							pos: position{line: 2953, col: 8, offset: 93254},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93201,
+																								line: 2953, col: 9, offset: 93255,
 																							},
 																						},
 																					},
@@ -9188,36 +9188,36 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2537, col: 22, offset: 81630},
+																		pos: position{line: 2537, col: 22, offset: 81684},
 																		run: (*parser).callonDocumentFragment1138,
 																		expr: &seqExpr{
-																			pos: position{line: 2537, col: 22, offset: 81630},
+																			pos: position{line: 2537, col: 22, offset: 81684},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2542, col: 31, offset: 81880},
+																					pos:        position{line: 2542, col: 31, offset: 81934},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																				&notExpr{
-																					pos: position{line: 2542, col: 36, offset: 81885},
+																					pos: position{line: 2542, col: 36, offset: 81939},
 																					expr: &litMatcher{
-																						pos:        position{line: 2542, col: 37, offset: 81886},
+																						pos:        position{line: 2542, col: 37, offset: 81940},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2537, col: 49, offset: 81657},
+																					pos:   position{line: 2537, col: 49, offset: 81711},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2880, col: 13, offset: 91378},
+																						pos: position{line: 2880, col: 13, offset: 91432},
 																						run: (*parser).callonDocumentFragment1144,
 																						expr: &zeroOrMoreExpr{
-																							pos: position{line: 2880, col: 13, offset: 91378},
+																							pos: position{line: 2880, col: 13, offset: 91432},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2880, col: 13, offset: 91378},
+																								pos:        position{line: 2880, col: 13, offset: 91432},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -9227,28 +9227,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2956, col: 8, offset: 93250},
+																					pos: position{line: 2956, col: 8, offset: 93304},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2943, col: 12, offset: 93023},
+																							pos: position{line: 2943, col: 12, offset: 93077},
 																							run: (*parser).callonDocumentFragment1148,
 																							expr: &choiceExpr{
-																								pos: position{line: 2943, col: 13, offset: 93024},
+																								pos: position{line: 2943, col: 13, offset: 93078},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 13, offset: 93024},
+																										pos:        position{line: 2943, col: 13, offset: 93078},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 20, offset: 93031},
+																										pos:        position{line: 2943, col: 20, offset: 93085},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 29, offset: 93040},
+																										pos:        position{line: 2943, col: 29, offset: 93094},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9257,9 +9257,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93200},
+																							pos: position{line: 2953, col: 8, offset: 93254},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93201,
+																								line: 2953, col: 9, offset: 93255,
 																							},
 																						},
 																					},
@@ -9268,32 +9268,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2676, col: 5, offset: 85495},
+																		pos: position{line: 2676, col: 5, offset: 85549},
 																		run: (*parser).callonDocumentFragment1155,
 																		expr: &seqExpr{
-																			pos: position{line: 2676, col: 5, offset: 85495},
+																			pos: position{line: 2676, col: 5, offset: 85549},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2676, col: 5, offset: 85495},
+																					pos: position{line: 2676, col: 5, offset: 85549},
 																					expr: &choiceExpr{
-																						pos: position{line: 2673, col: 22, offset: 85456},
+																						pos: position{line: 2673, col: 22, offset: 85510},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2669, col: 19, offset: 85376},
+																								pos: position{line: 2669, col: 19, offset: 85430},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2669, col: 19, offset: 85376},
+																										pos:        position{line: 2669, col: 19, offset: 85430},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2669, col: 26, offset: 85383},
+																										pos: position{line: 2669, col: 26, offset: 85437},
 																										expr: &actionExpr{
-																											pos: position{line: 2934, col: 10, offset: 92852},
+																											pos: position{line: 2934, col: 10, offset: 92906},
 																											run: (*parser).callonDocumentFragment1162,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2934, col: 10, offset: 92852},
+																												pos:        position{line: 2934, col: 10, offset: 92906},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9302,28 +9302,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2956, col: 8, offset: 93250},
+																										pos: position{line: 2956, col: 8, offset: 93304},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2943, col: 12, offset: 93023},
+																												pos: position{line: 2943, col: 12, offset: 93077},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &choiceExpr{
-																													pos: position{line: 2943, col: 13, offset: 93024},
+																													pos: position{line: 2943, col: 13, offset: 93078},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2943, col: 13, offset: 93024},
+																															pos:        position{line: 2943, col: 13, offset: 93078},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2943, col: 20, offset: 93031},
+																															pos:        position{line: 2943, col: 20, offset: 93085},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2943, col: 29, offset: 93040},
+																															pos:        position{line: 2943, col: 29, offset: 93094},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9332,9 +9332,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2953, col: 8, offset: 93200},
+																												pos: position{line: 2953, col: 8, offset: 93254},
 																												expr: &anyMatcher{
-																													line: 2953, col: 9, offset: 93201,
+																													line: 2953, col: 9, offset: 93255,
 																												},
 																											},
 																										},
@@ -9342,59 +9342,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93200},
+																								pos: position{line: 2953, col: 8, offset: 93254},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93201,
+																									line: 2953, col: 9, offset: 93255,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2677, col: 5, offset: 85518},
+																					pos:   position{line: 2677, col: 5, offset: 85572},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2678, col: 9, offset: 85536},
+																						pos: position{line: 2678, col: 9, offset: 85590},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2678, col: 10, offset: 85537},
+																								pos: position{line: 2678, col: 10, offset: 85591},
 																								run: (*parser).callonDocumentFragment1176,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2678, col: 10, offset: 85537},
+																									pos:   position{line: 2678, col: 10, offset: 85591},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2678, col: 17, offset: 85544},
+																										pos: position{line: 2678, col: 17, offset: 85598},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2686, col: 21, offset: 85740},
+																												pos: position{line: 2686, col: 21, offset: 85794},
 																												run: (*parser).callonDocumentFragment1179,
 																												expr: &seqExpr{
-																													pos: position{line: 2686, col: 21, offset: 85740},
+																													pos: position{line: 2686, col: 21, offset: 85794},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2686, col: 21, offset: 85740},
+																															pos:   position{line: 2686, col: 21, offset: 85794},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2686, col: 27, offset: 85746},
+																																pos: position{line: 2686, col: 27, offset: 85800},
 																																expr: &actionExpr{
-																																	pos: position{line: 2691, col: 5, offset: 85821},
+																																	pos: position{line: 2691, col: 5, offset: 85875},
 																																	run: (*parser).callonDocumentFragment1183,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2691, col: 5, offset: 85821},
+																																		pos: position{line: 2691, col: 5, offset: 85875},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2691, col: 5, offset: 85821},
+																																				pos:        position{line: 2691, col: 5, offset: 85875},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2691, col: 9, offset: 85825},
+																																				pos: position{line: 2691, col: 9, offset: 85879},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2934, col: 10, offset: 92852},
+																																					pos: position{line: 2934, col: 10, offset: 92906},
 																																					run: (*parser).callonDocumentFragment1187,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2934, col: 10, offset: 92852},
+																																						pos:        position{line: 2934, col: 10, offset: 92906},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9403,21 +9403,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2691, col: 16, offset: 85832},
+																																				pos:   position{line: 2691, col: 16, offset: 85886},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2697, col: 5, offset: 86032},
+																																					pos: position{line: 2697, col: 5, offset: 86086},
 																																					run: (*parser).callonDocumentFragment1190,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2697, col: 5, offset: 86032},
+																																						pos:   position{line: 2697, col: 5, offset: 86086},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2697, col: 14, offset: 86041},
+																																							pos: position{line: 2697, col: 14, offset: 86095},
 																																							run: (*parser).callonDocumentFragment1192,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2697, col: 14, offset: 86041},
+																																								pos: position{line: 2697, col: 14, offset: 86095},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2697, col: 14, offset: 86041},
+																																									pos:        position{line: 2697, col: 14, offset: 86095},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9434,28 +9434,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2956, col: 8, offset: 93250},
+																															pos: position{line: 2956, col: 8, offset: 93304},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2943, col: 12, offset: 93023},
+																																	pos: position{line: 2943, col: 12, offset: 93077},
 																																	run: (*parser).callonDocumentFragment1196,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2943, col: 13, offset: 93024},
+																																		pos: position{line: 2943, col: 13, offset: 93078},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2943, col: 13, offset: 93024},
+																																				pos:        position{line: 2943, col: 13, offset: 93078},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2943, col: 20, offset: 93031},
+																																				pos:        position{line: 2943, col: 20, offset: 93085},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2943, col: 29, offset: 93040},
+																																				pos:        position{line: 2943, col: 29, offset: 93094},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9464,9 +9464,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2953, col: 8, offset: 93200},
+																																	pos: position{line: 2953, col: 8, offset: 93254},
 																																	expr: &anyMatcher{
-																																		line: 2953, col: 9, offset: 93201,
+																																		line: 2953, col: 9, offset: 93255,
 																																	},
 																																},
 																															},
@@ -9475,40 +9475,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2703, col: 24, offset: 86177},
+																												pos: position{line: 2703, col: 24, offset: 86231},
 																												run: (*parser).callonDocumentFragment1203,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2703, col: 24, offset: 86177},
+																													pos:   position{line: 2703, col: 24, offset: 86231},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2703, col: 30, offset: 86183},
+																														pos: position{line: 2703, col: 30, offset: 86237},
 																														expr: &actionExpr{
-																															pos: position{line: 2708, col: 5, offset: 86259},
+																															pos: position{line: 2708, col: 5, offset: 86313},
 																															run: (*parser).callonDocumentFragment1206,
 																															expr: &seqExpr{
-																																pos: position{line: 2708, col: 5, offset: 86259},
+																																pos: position{line: 2708, col: 5, offset: 86313},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2708, col: 5, offset: 86259},
+																																		pos: position{line: 2708, col: 5, offset: 86313},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2673, col: 22, offset: 85456},
+																																			pos: position{line: 2673, col: 22, offset: 85510},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2669, col: 19, offset: 85376},
+																																					pos: position{line: 2669, col: 19, offset: 85430},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2669, col: 19, offset: 85376},
+																																							pos:        position{line: 2669, col: 19, offset: 85430},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2669, col: 26, offset: 85383},
+																																							pos: position{line: 2669, col: 26, offset: 85437},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2934, col: 10, offset: 92852},
+																																								pos: position{line: 2934, col: 10, offset: 92906},
 																																								run: (*parser).callonDocumentFragment1213,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2934, col: 10, offset: 92852},
+																																									pos:        position{line: 2934, col: 10, offset: 92906},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9517,28 +9517,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2956, col: 8, offset: 93250},
+																																							pos: position{line: 2956, col: 8, offset: 93304},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2943, col: 12, offset: 93023},
+																																									pos: position{line: 2943, col: 12, offset: 93077},
 																																									run: (*parser).callonDocumentFragment1216,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2943, col: 13, offset: 93024},
+																																										pos: position{line: 2943, col: 13, offset: 93078},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2943, col: 13, offset: 93024},
+																																												pos:        position{line: 2943, col: 13, offset: 93078},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2943, col: 20, offset: 93031},
+																																												pos:        position{line: 2943, col: 20, offset: 93085},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2943, col: 29, offset: 93040},
+																																												pos:        position{line: 2943, col: 29, offset: 93094},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9547,9 +9547,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2953, col: 8, offset: 93200},
+																																									pos: position{line: 2953, col: 8, offset: 93254},
 																																									expr: &anyMatcher{
-																																										line: 2953, col: 9, offset: 93201,
+																																										line: 2953, col: 9, offset: 93255,
 																																									},
 																																								},
 																																							},
@@ -9557,16 +9557,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2953, col: 8, offset: 93200},
+																																					pos: position{line: 2953, col: 8, offset: 93254},
 																																					expr: &anyMatcher{
-																																						line: 2953, col: 9, offset: 93201,
+																																						line: 2953, col: 9, offset: 93255,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2709, col: 5, offset: 86282},
+																																		pos: position{line: 2709, col: 5, offset: 86336},
 																																		expr: &actionExpr{
 																																			pos: position{line: 702, col: 14, offset: 22577},
 																																			run: (*parser).callonDocumentFragment1226,
@@ -9574,18 +9574,18 @@ var g = &grammar{
 																																				pos: position{line: 702, col: 14, offset: 22577},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2951, col: 11, offset: 93186},
+																																						pos: position{line: 2951, col: 11, offset: 93240},
 																																						expr: &anyMatcher{
-																																							line: 2951, col: 13, offset: 93188,
+																																							line: 2951, col: 13, offset: 93242,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 702, col: 21, offset: 22584},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2934, col: 10, offset: 92852},
+																																							pos: position{line: 2934, col: 10, offset: 92906},
 																																							run: (*parser).callonDocumentFragment1231,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2934, col: 10, offset: 92852},
+																																								pos:        position{line: 2934, col: 10, offset: 92906},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9594,28 +9594,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2956, col: 8, offset: 93250},
+																																						pos: position{line: 2956, col: 8, offset: 93304},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2943, col: 12, offset: 93023},
+																																								pos: position{line: 2943, col: 12, offset: 93077},
 																																								run: (*parser).callonDocumentFragment1234,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2943, col: 13, offset: 93024},
+																																									pos: position{line: 2943, col: 13, offset: 93078},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2943, col: 13, offset: 93024},
+																																											pos:        position{line: 2943, col: 13, offset: 93078},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2943, col: 20, offset: 93031},
+																																											pos:        position{line: 2943, col: 20, offset: 93085},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2943, col: 29, offset: 93040},
+																																											pos:        position{line: 2943, col: 29, offset: 93094},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9624,9 +9624,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2953, col: 8, offset: 93200},
+																																								pos: position{line: 2953, col: 8, offset: 93254},
 																																								expr: &anyMatcher{
-																																									line: 2953, col: 9, offset: 93201,
+																																									line: 2953, col: 9, offset: 93255,
 																																								},
 																																							},
 																																						},
@@ -9636,17 +9636,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2710, col: 5, offset: 86297},
+																																		pos:   position{line: 2710, col: 5, offset: 86351},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2710, col: 12, offset: 86304},
+																																			pos: position{line: 2710, col: 12, offset: 86358},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2734, col: 20, offset: 86927},
+																																				pos: position{line: 2734, col: 20, offset: 86981},
 																																				run: (*parser).callonDocumentFragment1243,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2734, col: 20, offset: 86927},
+																																					pos: position{line: 2734, col: 20, offset: 86981},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2734, col: 20, offset: 86927},
+																																						pos:        position{line: 2734, col: 20, offset: 86981},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9657,18 +9657,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2710, col: 31, offset: 86323},
+																																		pos:        position{line: 2710, col: 31, offset: 86377},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2710, col: 35, offset: 86327},
+																																		pos: position{line: 2710, col: 35, offset: 86381},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2934, col: 10, offset: 92852},
+																																			pos: position{line: 2934, col: 10, offset: 92906},
 																																			run: (*parser).callonDocumentFragment1248,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2934, col: 10, offset: 92852},
+																																				pos:        position{line: 2934, col: 10, offset: 92906},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9677,27 +9677,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2710, col: 42, offset: 86334},
+																																		pos: position{line: 2710, col: 42, offset: 86388},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2943, col: 12, offset: 93023},
+																																			pos: position{line: 2943, col: 12, offset: 93077},
 																																			run: (*parser).callonDocumentFragment1251,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2943, col: 13, offset: 93024},
+																																				pos: position{line: 2943, col: 13, offset: 93078},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2943, col: 13, offset: 93024},
+																																						pos:        position{line: 2943, col: 13, offset: 93078},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2943, col: 20, offset: 93031},
+																																						pos:        position{line: 2943, col: 20, offset: 93085},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2943, col: 29, offset: 93040},
+																																						pos:        position{line: 2943, col: 29, offset: 93094},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9707,57 +9707,57 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2710, col: 51, offset: 86343},
+																																		pos:   position{line: 2710, col: 51, offset: 86397},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2716, col: 5, offset: 86502},
+																																			pos: position{line: 2716, col: 5, offset: 86556},
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2717, col: 9, offset: 86512},
+																																				pos: position{line: 2717, col: 9, offset: 86566},
 																																				alternatives: []interface{}{
 																																					&actionExpr{
-																																						pos: position{line: 2717, col: 9, offset: 86512},
+																																						pos: position{line: 2717, col: 9, offset: 86566},
 																																						run: (*parser).callonDocumentFragment1259,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2717, col: 9, offset: 86512},
+																																							pos: position{line: 2717, col: 9, offset: 86566},
 																																							exprs: []interface{}{
 																																								&andCodeExpr{
-																																									pos: position{line: 2717, col: 9, offset: 86512},
+																																									pos: position{line: 2717, col: 9, offset: 86566},
 																																									run: (*parser).callonDocumentFragment1261,
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2720, col: 9, offset: 86581},
+																																									pos:   position{line: 2720, col: 9, offset: 86635},
 																																									label: "comment",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2537, col: 22, offset: 81630},
+																																										pos: position{line: 2537, col: 22, offset: 81684},
 																																										run: (*parser).callonDocumentFragment1263,
 																																										expr: &seqExpr{
-																																											pos: position{line: 2537, col: 22, offset: 81630},
+																																											pos: position{line: 2537, col: 22, offset: 81684},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2542, col: 31, offset: 81880},
+																																													pos:        position{line: 2542, col: 31, offset: 81934},
 																																													val:        "//",
 																																													ignoreCase: false,
 																																													want:       "\"//\"",
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2542, col: 36, offset: 81885},
+																																													pos: position{line: 2542, col: 36, offset: 81939},
 																																													expr: &litMatcher{
-																																														pos:        position{line: 2542, col: 37, offset: 81886},
+																																														pos:        position{line: 2542, col: 37, offset: 81940},
 																																														val:        "/",
 																																														ignoreCase: false,
 																																														want:       "\"/\"",
 																																													},
 																																												},
 																																												&labeledExpr{
-																																													pos:   position{line: 2537, col: 49, offset: 81657},
+																																													pos:   position{line: 2537, col: 49, offset: 81711},
 																																													label: "content",
 																																													expr: &actionExpr{
-																																														pos: position{line: 2880, col: 13, offset: 91378},
+																																														pos: position{line: 2880, col: 13, offset: 91432},
 																																														run: (*parser).callonDocumentFragment1269,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2880, col: 13, offset: 91378},
+																																															pos: position{line: 2880, col: 13, offset: 91432},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2880, col: 13, offset: 91378},
+																																																pos:        position{line: 2880, col: 13, offset: 91432},
 																																																val:        "[^\\r\\n]",
 																																																chars:      []rune{'\r', '\n'},
 																																																ignoreCase: false,
@@ -9767,28 +9767,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2956, col: 8, offset: 93250},
+																																													pos: position{line: 2956, col: 8, offset: 93304},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2943, col: 12, offset: 93023},
+																																															pos: position{line: 2943, col: 12, offset: 93077},
 																																															run: (*parser).callonDocumentFragment1273,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2943, col: 13, offset: 93024},
+																																																pos: position{line: 2943, col: 13, offset: 93078},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2943, col: 13, offset: 93024},
+																																																		pos:        position{line: 2943, col: 13, offset: 93078},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2943, col: 20, offset: 93031},
+																																																		pos:        position{line: 2943, col: 20, offset: 93085},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2943, col: 29, offset: 93040},
+																																																		pos:        position{line: 2943, col: 29, offset: 93094},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -9797,9 +9797,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2953, col: 8, offset: 93200},
+																																															pos: position{line: 2953, col: 8, offset: 93254},
 																																															expr: &anyMatcher{
-																																																line: 2953, col: 9, offset: 93201,
+																																																line: 2953, col: 9, offset: 93255,
 																																															},
 																																														},
 																																													},
@@ -9812,32 +9812,32 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&actionExpr{
-																																						pos: position{line: 2724, col: 9, offset: 86671},
+																																						pos: position{line: 2724, col: 9, offset: 86725},
 																																						run: (*parser).callonDocumentFragment1280,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2724, col: 9, offset: 86671},
+																																							pos: position{line: 2724, col: 9, offset: 86725},
 																																							exprs: []interface{}{
 																																								&notExpr{
-																																									pos: position{line: 2724, col: 9, offset: 86671},
+																																									pos: position{line: 2724, col: 9, offset: 86725},
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2673, col: 22, offset: 85456},
+																																										pos: position{line: 2673, col: 22, offset: 85510},
 																																										alternatives: []interface{}{
 																																											&seqExpr{
-																																												pos: position{line: 2669, col: 19, offset: 85376},
+																																												pos: position{line: 2669, col: 19, offset: 85430},
 																																												exprs: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2669, col: 19, offset: 85376},
+																																														pos:        position{line: 2669, col: 19, offset: 85430},
 																																														val:        "|===",
 																																														ignoreCase: false,
 																																														want:       "\"|===\"",
 																																													},
 																																													&zeroOrMoreExpr{
-																																														pos: position{line: 2669, col: 26, offset: 85383},
+																																														pos: position{line: 2669, col: 26, offset: 85437},
 																																														expr: &actionExpr{
-																																															pos: position{line: 2934, col: 10, offset: 92852},
+																																															pos: position{line: 2934, col: 10, offset: 92906},
 																																															run: (*parser).callonDocumentFragment1287,
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2934, col: 10, offset: 92852},
+																																																pos:        position{line: 2934, col: 10, offset: 92906},
 																																																val:        "[\\t ]",
 																																																chars:      []rune{'\t', ' '},
 																																																ignoreCase: false,
@@ -9846,28 +9846,28 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&choiceExpr{
-																																														pos: position{line: 2956, col: 8, offset: 93250},
+																																														pos: position{line: 2956, col: 8, offset: 93304},
 																																														alternatives: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2943, col: 12, offset: 93023},
+																																																pos: position{line: 2943, col: 12, offset: 93077},
 																																																run: (*parser).callonDocumentFragment1290,
 																																																expr: &choiceExpr{
-																																																	pos: position{line: 2943, col: 13, offset: 93024},
+																																																	pos: position{line: 2943, col: 13, offset: 93078},
 																																																	alternatives: []interface{}{
 																																																		&litMatcher{
-																																																			pos:        position{line: 2943, col: 13, offset: 93024},
+																																																			pos:        position{line: 2943, col: 13, offset: 93078},
 																																																			val:        "\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2943, col: 20, offset: 93031},
+																																																			pos:        position{line: 2943, col: 20, offset: 93085},
 																																																			val:        "\r\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2943, col: 29, offset: 93040},
+																																																			pos:        position{line: 2943, col: 29, offset: 93094},
 																																																			val:        "\r",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\"",
@@ -9876,9 +9876,9 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&notExpr{
-																																																pos: position{line: 2953, col: 8, offset: 93200},
+																																																pos: position{line: 2953, col: 8, offset: 93254},
 																																																expr: &anyMatcher{
-																																																	line: 2953, col: 9, offset: 93201,
+																																																	line: 2953, col: 9, offset: 93255,
 																																																},
 																																															},
 																																														},
@@ -9886,16 +9886,16 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2953, col: 8, offset: 93200},
+																																												pos: position{line: 2953, col: 8, offset: 93254},
 																																												expr: &anyMatcher{
-																																													line: 2953, col: 9, offset: 93201,
+																																													line: 2953, col: 9, offset: 93255,
 																																												},
 																																											},
 																																										},
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2725, col: 9, offset: 86698},
+																																									pos: position{line: 2725, col: 9, offset: 86752},
 																																									expr: &actionExpr{
 																																										pos: position{line: 702, col: 14, offset: 22577},
 																																										run: (*parser).callonDocumentFragment1300,
@@ -9903,18 +9903,18 @@ var g = &grammar{
 																																											pos: position{line: 702, col: 14, offset: 22577},
 																																											exprs: []interface{}{
 																																												&andExpr{
-																																													pos: position{line: 2951, col: 11, offset: 93186},
+																																													pos: position{line: 2951, col: 11, offset: 93240},
 																																													expr: &anyMatcher{
-																																														line: 2951, col: 13, offset: 93188,
+																																														line: 2951, col: 13, offset: 93242,
 																																													},
 																																												},
 																																												&zeroOrMoreExpr{
 																																													pos: position{line: 702, col: 21, offset: 22584},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2934, col: 10, offset: 92852},
+																																														pos: position{line: 2934, col: 10, offset: 92906},
 																																														run: (*parser).callonDocumentFragment1305,
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2934, col: 10, offset: 92852},
+																																															pos:        position{line: 2934, col: 10, offset: 92906},
 																																															val:        "[\\t ]",
 																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
@@ -9923,28 +9923,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2956, col: 8, offset: 93250},
+																																													pos: position{line: 2956, col: 8, offset: 93304},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2943, col: 12, offset: 93023},
+																																															pos: position{line: 2943, col: 12, offset: 93077},
 																																															run: (*parser).callonDocumentFragment1308,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2943, col: 13, offset: 93024},
+																																																pos: position{line: 2943, col: 13, offset: 93078},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2943, col: 13, offset: 93024},
+																																																		pos:        position{line: 2943, col: 13, offset: 93078},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2943, col: 20, offset: 93031},
+																																																		pos:        position{line: 2943, col: 20, offset: 93085},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2943, col: 29, offset: 93040},
+																																																		pos:        position{line: 2943, col: 29, offset: 93094},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -9953,9 +9953,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2953, col: 8, offset: 93200},
+																																															pos: position{line: 2953, col: 8, offset: 93254},
 																																															expr: &anyMatcher{
-																																																line: 2953, col: 9, offset: 93201,
+																																																line: 2953, col: 9, offset: 93255,
 																																															},
 																																														},
 																																													},
@@ -9965,22 +9965,22 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2726, col: 9, offset: 86717},
+																																									pos: position{line: 2726, col: 9, offset: 86771},
 																																									expr: &seqExpr{
-																																										pos: position{line: 2726, col: 11, offset: 86719},
+																																										pos: position{line: 2726, col: 11, offset: 86773},
 																																										exprs: []interface{}{
 																																											&labeledExpr{
-																																												pos:   position{line: 2726, col: 11, offset: 86719},
+																																												pos:   position{line: 2726, col: 11, offset: 86773},
 																																												label: "format",
 																																												expr: &zeroOrOneExpr{
-																																													pos: position{line: 2726, col: 18, offset: 86726},
+																																													pos: position{line: 2726, col: 18, offset: 86780},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2734, col: 20, offset: 86927},
+																																														pos: position{line: 2734, col: 20, offset: 86981},
 																																														run: (*parser).callonDocumentFragment1319,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2734, col: 20, offset: 86927},
+																																															pos: position{line: 2734, col: 20, offset: 86981},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2734, col: 20, offset: 86927},
+																																																pos:        position{line: 2734, col: 20, offset: 86981},
 																																																val:        "[^ |\\r\\n]",
 																																																chars:      []rune{' ', '|', '\r', '\n'},
 																																																ignoreCase: false,
@@ -9991,7 +9991,7 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2726, col: 37, offset: 86745},
+																																												pos:        position{line: 2726, col: 37, offset: 86799},
 																																												val:        "|",
 																																												ignoreCase: false,
 																																												want:       "\"|\"",
@@ -10000,15 +10000,15 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2727, col: 9, offset: 86758},
+																																									pos:   position{line: 2727, col: 9, offset: 86812},
 																																									label: "content",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2727, col: 18, offset: 86767},
+																																										pos: position{line: 2727, col: 18, offset: 86821},
 																																										run: (*parser).callonDocumentFragment1324,
 																																										expr: &zeroOrMoreExpr{
-																																											pos: position{line: 2727, col: 18, offset: 86767},
+																																											pos: position{line: 2727, col: 18, offset: 86821},
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2727, col: 18, offset: 86767},
+																																												pos:        position{line: 2727, col: 18, offset: 86821},
 																																												val:        "[^|\\r\\n]",
 																																												chars:      []rune{'|', '\r', '\n'},
 																																												ignoreCase: false,
@@ -10018,30 +10018,30 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&zeroOrOneExpr{
-																																									pos: position{line: 2729, col: 12, offset: 86829},
+																																									pos: position{line: 2729, col: 12, offset: 86883},
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2956, col: 8, offset: 93250},
+																																										pos: position{line: 2956, col: 8, offset: 93304},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2943, col: 12, offset: 93023},
+																																												pos: position{line: 2943, col: 12, offset: 93077},
 																																												run: (*parser).callonDocumentFragment1329,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2943, col: 13, offset: 93024},
+																																													pos: position{line: 2943, col: 13, offset: 93078},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2943, col: 13, offset: 93024},
+																																															pos:        position{line: 2943, col: 13, offset: 93078},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2943, col: 20, offset: 93031},
+																																															pos:        position{line: 2943, col: 20, offset: 93085},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2943, col: 29, offset: 93040},
+																																															pos:        position{line: 2943, col: 29, offset: 93094},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -10050,9 +10050,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2953, col: 8, offset: 93200},
+																																												pos: position{line: 2953, col: 8, offset: 93254},
 																																												expr: &anyMatcher{
-																																													line: 2953, col: 9, offset: 93201,
+																																													line: 2953, col: 9, offset: 93255,
 																																												},
 																																											},
 																																										},
@@ -10082,18 +10082,18 @@ var g = &grammar{
 																									pos: position{line: 702, col: 14, offset: 22577},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2951, col: 11, offset: 93186},
+																											pos: position{line: 2951, col: 11, offset: 93240},
 																											expr: &anyMatcher{
-																												line: 2951, col: 13, offset: 93188,
+																												line: 2951, col: 13, offset: 93242,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 702, col: 21, offset: 22584},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92852},
+																												pos: position{line: 2934, col: 10, offset: 92906},
 																												run: (*parser).callonDocumentFragment1341,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92852},
+																													pos:        position{line: 2934, col: 10, offset: 92906},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10102,28 +10102,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93250},
+																											pos: position{line: 2956, col: 8, offset: 93304},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93023},
+																													pos: position{line: 2943, col: 12, offset: 93077},
 																													run: (*parser).callonDocumentFragment1344,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93024},
+																														pos: position{line: 2943, col: 13, offset: 93078},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93024},
+																																pos:        position{line: 2943, col: 13, offset: 93078},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93031},
+																																pos:        position{line: 2943, col: 20, offset: 93085},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93040},
+																																pos:        position{line: 2943, col: 29, offset: 93094},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10132,9 +10132,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93200},
+																													pos: position{line: 2953, col: 8, offset: 93254},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93201,
+																														line: 2953, col: 9, offset: 93255,
 																													},
 																												},
 																											},
@@ -10153,24 +10153,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2673, col: 22, offset: 85456},
+														pos: position{line: 2673, col: 22, offset: 85510},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2669, col: 19, offset: 85376},
+																pos: position{line: 2669, col: 19, offset: 85430},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2669, col: 19, offset: 85376},
+																		pos:        position{line: 2669, col: 19, offset: 85430},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2669, col: 26, offset: 85383},
+																		pos: position{line: 2669, col: 26, offset: 85437},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92852},
+																			pos: position{line: 2934, col: 10, offset: 92906},
 																			run: (*parser).callonDocumentFragment1355,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92852},
+																				pos:        position{line: 2934, col: 10, offset: 92906},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10179,28 +10179,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93250},
+																		pos: position{line: 2956, col: 8, offset: 93304},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonDocumentFragment1358,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10209,9 +10209,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93200},
+																				pos: position{line: 2953, col: 8, offset: 93254},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93201,
+																					line: 2953, col: 9, offset: 93255,
 																				},
 																			},
 																		},
@@ -10219,9 +10219,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93200},
+																pos: position{line: 2953, col: 8, offset: 93254},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93201,
+																	line: 2953, col: 9, offset: 93255,
 																},
 															},
 														},
@@ -10230,36 +10230,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2537, col: 22, offset: 81630},
+											pos: position{line: 2537, col: 22, offset: 81684},
 											run: (*parser).callonDocumentFragment1367,
 											expr: &seqExpr{
-												pos: position{line: 2537, col: 22, offset: 81630},
+												pos: position{line: 2537, col: 22, offset: 81684},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2542, col: 31, offset: 81880},
+														pos:        position{line: 2542, col: 31, offset: 81934},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2542, col: 36, offset: 81885},
+														pos: position{line: 2542, col: 36, offset: 81939},
 														expr: &litMatcher{
-															pos:        position{line: 2542, col: 37, offset: 81886},
+															pos:        position{line: 2542, col: 37, offset: 81940},
 															val:        "/",
 															ignoreCase: false,
 															want:       "\"/\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2537, col: 49, offset: 81657},
+														pos:   position{line: 2537, col: 49, offset: 81711},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2880, col: 13, offset: 91378},
+															pos: position{line: 2880, col: 13, offset: 91432},
 															run: (*parser).callonDocumentFragment1373,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2880, col: 13, offset: 91378},
+																pos: position{line: 2880, col: 13, offset: 91432},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2880, col: 13, offset: 91378},
+																	pos:        position{line: 2880, col: 13, offset: 91432},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10269,28 +10269,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2956, col: 8, offset: 93250},
+														pos: position{line: 2956, col: 8, offset: 93304},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93023},
+																pos: position{line: 2943, col: 12, offset: 93077},
 																run: (*parser).callonDocumentFragment1377,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93024},
+																	pos: position{line: 2943, col: 13, offset: 93078},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93024},
+																			pos:        position{line: 2943, col: 13, offset: 93078},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93031},
+																			pos:        position{line: 2943, col: 20, offset: 93085},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93040},
+																			pos:        position{line: 2943, col: 29, offset: 93094},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10299,9 +10299,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93200},
+																pos: position{line: 2953, col: 8, offset: 93254},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93201,
+																	line: 2953, col: 9, offset: 93255,
 																},
 															},
 														},
@@ -10337,10 +10337,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1259, col: 36, offset: 39332},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92852},
+																			pos: position{line: 2934, col: 10, offset: 92906},
 																			run: (*parser).callonDocumentFragment1392,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92852},
+																				pos:        position{line: 2934, col: 10, offset: 92906},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10349,28 +10349,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93250},
+																		pos: position{line: 2956, col: 8, offset: 93304},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonDocumentFragment1395,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10379,9 +10379,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93200},
+																				pos: position{line: 2953, col: 8, offset: 93254},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93201,
+																					line: 2953, col: 9, offset: 93255,
 																				},
 																			},
 																		},
@@ -10415,10 +10415,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1259, col: 36, offset: 39332},
 																												expr: &actionExpr{
-																													pos: position{line: 2934, col: 10, offset: 92852},
+																													pos: position{line: 2934, col: 10, offset: 92906},
 																													run: (*parser).callonDocumentFragment1412,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2934, col: 10, offset: 92852},
+																														pos:        position{line: 2934, col: 10, offset: 92906},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10427,28 +10427,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2956, col: 8, offset: 93250},
+																												pos: position{line: 2956, col: 8, offset: 93304},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2943, col: 12, offset: 93023},
+																														pos: position{line: 2943, col: 12, offset: 93077},
 																														run: (*parser).callonDocumentFragment1415,
 																														expr: &choiceExpr{
-																															pos: position{line: 2943, col: 13, offset: 93024},
+																															pos: position{line: 2943, col: 13, offset: 93078},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 13, offset: 93024},
+																																	pos:        position{line: 2943, col: 13, offset: 93078},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 20, offset: 93031},
+																																	pos:        position{line: 2943, col: 20, offset: 93085},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 29, offset: 93040},
+																																	pos:        position{line: 2943, col: 29, offset: 93094},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10457,9 +10457,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2953, col: 8, offset: 93200},
+																														pos: position{line: 2953, col: 8, offset: 93254},
 																														expr: &anyMatcher{
-																															line: 2953, col: 9, offset: 93201,
+																															line: 2953, col: 9, offset: 93255,
 																														},
 																													},
 																												},
@@ -10486,10 +10486,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1259, col: 36, offset: 39332},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92852},
+																			pos: position{line: 2934, col: 10, offset: 92906},
 																			run: (*parser).callonDocumentFragment1425,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92852},
+																				pos:        position{line: 2934, col: 10, offset: 92906},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10498,28 +10498,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93250},
+																		pos: position{line: 2956, col: 8, offset: 93304},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonDocumentFragment1428,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10528,9 +10528,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93200},
+																				pos: position{line: 2953, col: 8, offset: 93254},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93201,
+																					line: 2953, col: 9, offset: 93255,
 																				},
 																			},
 																		},
@@ -10631,9 +10631,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2953, col: 8, offset: 93200},
+							pos: position{line: 2953, col: 8, offset: 93254},
 							expr: &anyMatcher{
-								line: 2953, col: 9, offset: 93201,
+								line: 2953, col: 9, offset: 93255,
 							},
 						},
 					},
@@ -10705,12 +10705,12 @@ var g = &grammar{
 										pos: position{line: 307, col: 9, offset: 9333},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2938, col: 11, offset: 92913},
+												pos: position{line: 2938, col: 11, offset: 92967},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2938, col: 11, offset: 92913},
+													pos: position{line: 2938, col: 11, offset: 92967},
 													expr: &charClassMatcher{
-														pos:        position{line: 2938, col: 11, offset: 92913},
+														pos:        position{line: 2938, col: 11, offset: 92967},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10732,28 +10732,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2956, col: 8, offset: 93250},
+							pos: position{line: 2956, col: 8, offset: 93304},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2943, col: 12, offset: 93023},
+									pos: position{line: 2943, col: 12, offset: 93077},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2943, col: 13, offset: 93024},
+										pos: position{line: 2943, col: 13, offset: 93078},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2943, col: 13, offset: 93024},
+												pos:        position{line: 2943, col: 13, offset: 93078},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 20, offset: 93031},
+												pos:        position{line: 2943, col: 20, offset: 93085},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 29, offset: 93040},
+												pos:        position{line: 2943, col: 29, offset: 93094},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10762,9 +10762,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2953, col: 8, offset: 93200},
+									pos: position{line: 2953, col: 8, offset: 93254},
 									expr: &anyMatcher{
-										line: 2953, col: 9, offset: 93201,
+										line: 2953, col: 9, offset: 93255,
 									},
 								},
 							},
@@ -10808,25 +10808,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2943, col: 12, offset: 93023},
+												pos: position{line: 2943, col: 12, offset: 93077},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2943, col: 13, offset: 93024},
+													pos: position{line: 2943, col: 13, offset: 93078},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2943, col: 13, offset: 93024},
+															pos:        position{line: 2943, col: 13, offset: 93078},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2943, col: 20, offset: 93031},
+															pos:        position{line: 2943, col: 20, offset: 93085},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2943, col: 29, offset: 93040},
+															pos:        position{line: 2943, col: 29, offset: 93094},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10837,10 +10837,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 328, col: 9, offset: 10035},
 												expr: &actionExpr{
-													pos: position{line: 2934, col: 10, offset: 92852},
+													pos: position{line: 2934, col: 10, offset: 92906},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2934, col: 10, offset: 92852},
+														pos:        position{line: 2934, col: 10, offset: 92906},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10910,10 +10910,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 346, col: 13, offset: 10580},
 										expr: &actionExpr{
-											pos: position{line: 2934, col: 10, offset: 92852},
+											pos: position{line: 2934, col: 10, offset: 92906},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2934, col: 10, offset: 92852},
+												pos:        position{line: 2934, col: 10, offset: 92906},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10922,28 +10922,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2956, col: 8, offset: 93250},
+										pos: position{line: 2956, col: 8, offset: 93304},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2943, col: 12, offset: 93023},
+												pos: position{line: 2943, col: 12, offset: 93077},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2943, col: 13, offset: 93024},
+													pos: position{line: 2943, col: 13, offset: 93078},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2943, col: 13, offset: 93024},
+															pos:        position{line: 2943, col: 13, offset: 93078},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2943, col: 20, offset: 93031},
+															pos:        position{line: 2943, col: 20, offset: 93085},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2943, col: 29, offset: 93040},
+															pos:        position{line: 2943, col: 29, offset: 93094},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10952,9 +10952,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2953, col: 8, offset: 93200},
+												pos: position{line: 2953, col: 8, offset: 93254},
 												expr: &anyMatcher{
-													line: 2953, col: 9, offset: 93201,
+													line: 2953, col: 9, offset: 93255,
 												},
 											},
 										},
@@ -10987,23 +10987,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2524, col: 5, offset: 81176},
+										pos: position{line: 2524, col: 5, offset: 81230},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2524, col: 5, offset: 81176},
+											pos: position{line: 2524, col: 5, offset: 81230},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2524, col: 5, offset: 81176},
+													pos: position{line: 2524, col: 5, offset: 81230},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2527, col: 5, offset: 81252},
+													pos:   position{line: 2527, col: 5, offset: 81306},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2528, col: 9, offset: 81270},
+														pos: position{line: 2528, col: 9, offset: 81324},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2528, col: 10, offset: 81271},
+															pos:        position{line: 2528, col: 10, offset: 81325},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -11015,10 +11015,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2934, col: 10, offset: 92852},
+										pos: position{line: 2934, col: 10, offset: 92906},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2934, col: 10, offset: 92852},
+											pos:        position{line: 2934, col: 10, offset: 92906},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11859,10 +11859,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 374, col: 35, offset: 11589},
 												expr: &actionExpr{
-													pos: position{line: 2934, col: 10, offset: 92852},
+													pos: position{line: 2934, col: 10, offset: 92906},
 													run: (*parser).callonBlockAttributes101,
 													expr: &charClassMatcher{
-														pos:        position{line: 2934, col: 10, offset: 92852},
+														pos:        position{line: 2934, col: 10, offset: 92906},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11871,28 +11871,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2956, col: 8, offset: 93250},
+												pos: position{line: 2956, col: 8, offset: 93304},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2943, col: 12, offset: 93023},
+														pos: position{line: 2943, col: 12, offset: 93077},
 														run: (*parser).callonBlockAttributes104,
 														expr: &choiceExpr{
-															pos: position{line: 2943, col: 13, offset: 93024},
+															pos: position{line: 2943, col: 13, offset: 93078},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2943, col: 13, offset: 93024},
+																	pos:        position{line: 2943, col: 13, offset: 93078},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2943, col: 20, offset: 93031},
+																	pos:        position{line: 2943, col: 20, offset: 93085},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2943, col: 29, offset: 93040},
+																	pos:        position{line: 2943, col: 29, offset: 93094},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11901,9 +11901,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2953, col: 8, offset: 93200},
+														pos: position{line: 2953, col: 8, offset: 93254},
 														expr: &anyMatcher{
-															line: 2953, col: 9, offset: 93201,
+															line: 2953, col: 9, offset: 93255,
 														},
 													},
 												},
@@ -11920,18 +11920,18 @@ var g = &grammar{
 																pos: position{line: 702, col: 14, offset: 22577},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2951, col: 11, offset: 93186},
+																		pos: position{line: 2951, col: 11, offset: 93240},
 																		expr: &anyMatcher{
-																			line: 2951, col: 13, offset: 93188,
+																			line: 2951, col: 13, offset: 93242,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 702, col: 21, offset: 22584},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92852},
+																			pos: position{line: 2934, col: 10, offset: 92906},
 																			run: (*parser).callonBlockAttributes118,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92852},
+																				pos:        position{line: 2934, col: 10, offset: 92906},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -11940,28 +11940,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93250},
+																		pos: position{line: 2956, col: 8, offset: 93304},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonBlockAttributes121,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -11970,9 +11970,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93200},
+																				pos: position{line: 2953, col: 8, offset: 93254},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93201,
+																					line: 2953, col: 9, offset: 93255,
 																				},
 																			},
 																		},
@@ -11981,36 +11981,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2537, col: 22, offset: 81630},
+															pos: position{line: 2537, col: 22, offset: 81684},
 															run: (*parser).callonBlockAttributes128,
 															expr: &seqExpr{
-																pos: position{line: 2537, col: 22, offset: 81630},
+																pos: position{line: 2537, col: 22, offset: 81684},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2542, col: 31, offset: 81880},
+																		pos:        position{line: 2542, col: 31, offset: 81934},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2542, col: 36, offset: 81885},
+																		pos: position{line: 2542, col: 36, offset: 81939},
 																		expr: &litMatcher{
-																			pos:        position{line: 2542, col: 37, offset: 81886},
+																			pos:        position{line: 2542, col: 37, offset: 81940},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2537, col: 49, offset: 81657},
+																		pos:   position{line: 2537, col: 49, offset: 81711},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 13, offset: 91378},
+																			pos: position{line: 2880, col: 13, offset: 91432},
 																			run: (*parser).callonBlockAttributes134,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2880, col: 13, offset: 91378},
+																				pos: position{line: 2880, col: 13, offset: 91432},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 13, offset: 91378},
+																					pos:        position{line: 2880, col: 13, offset: 91432},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12020,28 +12020,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93250},
+																		pos: position{line: 2956, col: 8, offset: 93304},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonBlockAttributes138,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12050,9 +12050,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93200},
+																				pos: position{line: 2953, col: 8, offset: 93254},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93201,
+																					line: 2953, col: 9, offset: 93255,
 																				},
 																			},
 																		},
@@ -12083,10 +12083,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 378, col: 35, offset: 11766},
 												expr: &actionExpr{
-													pos: position{line: 2934, col: 10, offset: 92852},
+													pos: position{line: 2934, col: 10, offset: 92906},
 													run: (*parser).callonBlockAttributes150,
 													expr: &charClassMatcher{
-														pos:        position{line: 2934, col: 10, offset: 92852},
+														pos:        position{line: 2934, col: 10, offset: 92906},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12095,28 +12095,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2956, col: 8, offset: 93250},
+												pos: position{line: 2956, col: 8, offset: 93304},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2943, col: 12, offset: 93023},
+														pos: position{line: 2943, col: 12, offset: 93077},
 														run: (*parser).callonBlockAttributes153,
 														expr: &choiceExpr{
-															pos: position{line: 2943, col: 13, offset: 93024},
+															pos: position{line: 2943, col: 13, offset: 93078},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2943, col: 13, offset: 93024},
+																	pos:        position{line: 2943, col: 13, offset: 93078},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2943, col: 20, offset: 93031},
+																	pos:        position{line: 2943, col: 20, offset: 93085},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2943, col: 29, offset: 93040},
+																	pos:        position{line: 2943, col: 29, offset: 93094},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12125,9 +12125,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2953, col: 8, offset: 93200},
+														pos: position{line: 2953, col: 8, offset: 93254},
 														expr: &anyMatcher{
-															line: 2953, col: 9, offset: 93201,
+															line: 2953, col: 9, offset: 93255,
 														},
 													},
 												},
@@ -12144,18 +12144,18 @@ var g = &grammar{
 																pos: position{line: 702, col: 14, offset: 22577},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2951, col: 11, offset: 93186},
+																		pos: position{line: 2951, col: 11, offset: 93240},
 																		expr: &anyMatcher{
-																			line: 2951, col: 13, offset: 93188,
+																			line: 2951, col: 13, offset: 93242,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 702, col: 21, offset: 22584},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92852},
+																			pos: position{line: 2934, col: 10, offset: 92906},
 																			run: (*parser).callonBlockAttributes167,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92852},
+																				pos:        position{line: 2934, col: 10, offset: 92906},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12164,28 +12164,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93250},
+																		pos: position{line: 2956, col: 8, offset: 93304},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonBlockAttributes170,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12194,9 +12194,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93200},
+																				pos: position{line: 2953, col: 8, offset: 93254},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93201,
+																					line: 2953, col: 9, offset: 93255,
 																				},
 																			},
 																		},
@@ -12205,36 +12205,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2537, col: 22, offset: 81630},
+															pos: position{line: 2537, col: 22, offset: 81684},
 															run: (*parser).callonBlockAttributes177,
 															expr: &seqExpr{
-																pos: position{line: 2537, col: 22, offset: 81630},
+																pos: position{line: 2537, col: 22, offset: 81684},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2542, col: 31, offset: 81880},
+																		pos:        position{line: 2542, col: 31, offset: 81934},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2542, col: 36, offset: 81885},
+																		pos: position{line: 2542, col: 36, offset: 81939},
 																		expr: &litMatcher{
-																			pos:        position{line: 2542, col: 37, offset: 81886},
+																			pos:        position{line: 2542, col: 37, offset: 81940},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2537, col: 49, offset: 81657},
+																		pos:   position{line: 2537, col: 49, offset: 81711},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 13, offset: 91378},
+																			pos: position{line: 2880, col: 13, offset: 91432},
 																			run: (*parser).callonBlockAttributes183,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2880, col: 13, offset: 91378},
+																				pos: position{line: 2880, col: 13, offset: 91432},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 13, offset: 91378},
+																					pos:        position{line: 2880, col: 13, offset: 91432},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12244,28 +12244,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93250},
+																		pos: position{line: 2956, col: 8, offset: 93304},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonBlockAttributes187,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12274,9 +12274,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93200},
+																				pos: position{line: 2953, col: 8, offset: 93254},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93201,
+																					line: 2953, col: 9, offset: 93255,
 																				},
 																			},
 																		},
@@ -12307,10 +12307,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 382, col: 44, offset: 11922},
 												expr: &actionExpr{
-													pos: position{line: 2934, col: 10, offset: 92852},
+													pos: position{line: 2934, col: 10, offset: 92906},
 													run: (*parser).callonBlockAttributes199,
 													expr: &charClassMatcher{
-														pos:        position{line: 2934, col: 10, offset: 92852},
+														pos:        position{line: 2934, col: 10, offset: 92906},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12319,28 +12319,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2956, col: 8, offset: 93250},
+												pos: position{line: 2956, col: 8, offset: 93304},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2943, col: 12, offset: 93023},
+														pos: position{line: 2943, col: 12, offset: 93077},
 														run: (*parser).callonBlockAttributes202,
 														expr: &choiceExpr{
-															pos: position{line: 2943, col: 13, offset: 93024},
+															pos: position{line: 2943, col: 13, offset: 93078},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2943, col: 13, offset: 93024},
+																	pos:        position{line: 2943, col: 13, offset: 93078},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2943, col: 20, offset: 93031},
+																	pos:        position{line: 2943, col: 20, offset: 93085},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2943, col: 29, offset: 93040},
+																	pos:        position{line: 2943, col: 29, offset: 93094},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12349,9 +12349,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2953, col: 8, offset: 93200},
+														pos: position{line: 2953, col: 8, offset: 93254},
 														expr: &anyMatcher{
-															line: 2953, col: 9, offset: 93201,
+															line: 2953, col: 9, offset: 93255,
 														},
 													},
 												},
@@ -12368,18 +12368,18 @@ var g = &grammar{
 																pos: position{line: 702, col: 14, offset: 22577},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2951, col: 11, offset: 93186},
+																		pos: position{line: 2951, col: 11, offset: 93240},
 																		expr: &anyMatcher{
-																			line: 2951, col: 13, offset: 93188,
+																			line: 2951, col: 13, offset: 93242,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 702, col: 21, offset: 22584},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92852},
+																			pos: position{line: 2934, col: 10, offset: 92906},
 																			run: (*parser).callonBlockAttributes216,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92852},
+																				pos:        position{line: 2934, col: 10, offset: 92906},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12388,28 +12388,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93250},
+																		pos: position{line: 2956, col: 8, offset: 93304},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonBlockAttributes219,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12418,9 +12418,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93200},
+																				pos: position{line: 2953, col: 8, offset: 93254},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93201,
+																					line: 2953, col: 9, offset: 93255,
 																				},
 																			},
 																		},
@@ -12429,36 +12429,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2537, col: 22, offset: 81630},
+															pos: position{line: 2537, col: 22, offset: 81684},
 															run: (*parser).callonBlockAttributes226,
 															expr: &seqExpr{
-																pos: position{line: 2537, col: 22, offset: 81630},
+																pos: position{line: 2537, col: 22, offset: 81684},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2542, col: 31, offset: 81880},
+																		pos:        position{line: 2542, col: 31, offset: 81934},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2542, col: 36, offset: 81885},
+																		pos: position{line: 2542, col: 36, offset: 81939},
 																		expr: &litMatcher{
-																			pos:        position{line: 2542, col: 37, offset: 81886},
+																			pos:        position{line: 2542, col: 37, offset: 81940},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2537, col: 49, offset: 81657},
+																		pos:   position{line: 2537, col: 49, offset: 81711},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 13, offset: 91378},
+																			pos: position{line: 2880, col: 13, offset: 91432},
 																			run: (*parser).callonBlockAttributes232,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2880, col: 13, offset: 91378},
+																				pos: position{line: 2880, col: 13, offset: 91432},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 13, offset: 91378},
+																					pos:        position{line: 2880, col: 13, offset: 91432},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12468,28 +12468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93250},
+																		pos: position{line: 2956, col: 8, offset: 93304},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonBlockAttributes236,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12498,9 +12498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93200},
+																				pos: position{line: 2953, col: 8, offset: 93254},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93201,
+																					line: 2953, col: 9, offset: 93255,
 																				},
 																			},
 																		},
@@ -12625,12 +12625,12 @@ var g = &grammar{
 											name: "TitlePassthrough",
 										},
 										&actionExpr{
-											pos: position{line: 2828, col: 14, offset: 90021},
+											pos: position{line: 2828, col: 14, offset: 90075},
 											run: (*parser).callonShortHandTitle10,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2828, col: 14, offset: 90021},
+												pos: position{line: 2828, col: 14, offset: 90075},
 												expr: &charClassMatcher{
-													pos:        position{line: 2828, col: 14, offset: 90021},
+													pos:        position{line: 2828, col: 14, offset: 90075},
 													val:        "[\\pL\\pN]",
 													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 													ignoreCase: false,
@@ -12639,10 +12639,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2934, col: 10, offset: 92852},
+											pos: position{line: 2934, col: 10, offset: 92906},
 											run: (*parser).callonShortHandTitle13,
 											expr: &charClassMatcher{
-												pos:        position{line: 2934, col: 10, offset: 92852},
+												pos:        position{line: 2934, col: 10, offset: 92906},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -12650,27 +12650,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2851, col: 5, offset: 90506},
+											pos: position{line: 2851, col: 5, offset: 90560},
 											run: (*parser).callonShortHandTitle15,
 											expr: &choiceExpr{
-												pos: position{line: 2852, col: 9, offset: 90516},
+												pos: position{line: 2852, col: 9, offset: 90570},
 												alternatives: []interface{}{
 													&charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90517},
+														pos:        position{line: 2852, col: 10, offset: 90571},
 														val:        "[.,;?)!/:\"\\@=-]",
 														chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 														ignoreCase: false,
 														inverted:   false,
 													},
 													&seqExpr{
-														pos: position{line: 2854, col: 13, offset: 90614},
+														pos: position{line: 2854, col: 13, offset: 90668},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2854, col: 13, offset: 90614},
+																pos: position{line: 2854, col: 13, offset: 90668},
 																run: (*parser).callonShortHandTitle19,
 															},
 															&litMatcher{
-																pos:        position{line: 2857, col: 13, offset: 90714},
+																pos:        position{line: 2857, col: 13, offset: 90768},
 																val:        "[",
 																ignoreCase: false,
 																want:       "\"[\"",
@@ -12678,20 +12678,20 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 2857, col: 19, offset: 90720},
+														pos:        position{line: 2857, col: 19, offset: 90774},
 														val:        "]",
 														ignoreCase: false,
 														want:       "\"]\"",
 													},
 													&seqExpr{
-														pos: position{line: 2860, col: 13, offset: 90758},
+														pos: position{line: 2860, col: 13, offset: 90812},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2860, col: 13, offset: 90758},
+																pos: position{line: 2860, col: 13, offset: 90812},
 																run: (*parser).callonShortHandTitle23,
 															},
 															&charClassMatcher{
-																pos:        position{line: 2863, col: 14, offset: 90851},
+																pos:        position{line: 2863, col: 14, offset: 90905},
 																val:        "[*_`#]",
 																chars:      []rune{'*', '_', '`', '#'},
 																ignoreCase: false,
@@ -12700,18 +12700,18 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2865, col: 12, offset: 90895},
+														pos: position{line: 2865, col: 12, offset: 90949},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2865, col: 12, offset: 90895},
+																pos:        position{line: 2865, col: 12, offset: 90949},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
 															},
 															&notExpr{
-																pos: position{line: 2865, col: 16, offset: 90899},
+																pos: position{line: 2865, col: 16, offset: 90953},
 																expr: &litMatcher{
-																	pos:        position{line: 2865, col: 17, offset: 90900},
+																	pos:        position{line: 2865, col: 17, offset: 90954},
 																	val:        "(",
 																	ignoreCase: false,
 																	want:       "\"(\"",
@@ -13047,10 +13047,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2873, col: 12, offset: 91160},
+											pos: position{line: 2873, col: 12, offset: 91214},
 											run: (*parser).callonShortHandTitle93,
 											expr: &charClassMatcher{
-												pos:        position{line: 2873, col: 12, offset: 91160},
+												pos:        position{line: 2873, col: 12, offset: 91214},
 												val:        "[^\\r\\n]",
 												chars:      []rune{'\r', '\n'},
 												ignoreCase: false,
@@ -13105,25 +13105,25 @@ var g = &grammar{
 														&notExpr{
 															pos: position{line: 442, col: 24, offset: 13637},
 															expr: &actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93023},
+																pos: position{line: 2943, col: 12, offset: 93077},
 																run: (*parser).callonTitlePassthrough12,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93024},
+																	pos: position{line: 2943, col: 13, offset: 93078},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93024},
+																			pos:        position{line: 2943, col: 13, offset: 93078},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93031},
+																			pos:        position{line: 2943, col: 20, offset: 93085},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93040},
+																			pos:        position{line: 2943, col: 29, offset: 93094},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -13172,25 +13172,25 @@ var g = &grammar{
 														&notExpr{
 															pos: position{line: 443, col: 22, offset: 13678},
 															expr: &actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93023},
+																pos: position{line: 2943, col: 12, offset: 93077},
 																run: (*parser).callonTitlePassthrough26,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93024},
+																	pos: position{line: 2943, col: 13, offset: 93078},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93024},
+																			pos:        position{line: 2943, col: 13, offset: 93078},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93031},
+																			pos:        position{line: 2943, col: 20, offset: 93085},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93040},
+																			pos:        position{line: 2943, col: 29, offset: 93094},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -13317,10 +13317,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1415, col: 12, offset: 45651},
 																				expr: &actionExpr{
-																					pos: position{line: 2934, col: 10, offset: 92852},
+																					pos: position{line: 2934, col: 10, offset: 92906},
 																					run: (*parser).callonTitlePassthrough58,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2934, col: 10, offset: 92852},
+																						pos:        position{line: 2934, col: 10, offset: 92906},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -13331,25 +13331,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1415, col: 19, offset: 45658},
 																				expr: &actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93023},
+																					pos: position{line: 2943, col: 12, offset: 93077},
 																					run: (*parser).callonTitlePassthrough61,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93024},
+																						pos: position{line: 2943, col: 13, offset: 93078},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93024},
+																								pos:        position{line: 2943, col: 13, offset: 93078},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93031},
+																								pos:        position{line: 2943, col: 20, offset: 93085},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93040},
+																								pos:        position{line: 2943, col: 29, offset: 93094},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -13422,10 +13422,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1401, col: 64, offset: 44770},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92852},
+																				pos: position{line: 2934, col: 10, offset: 92906},
 																				run: (*parser).callonTitlePassthrough80,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92852},
+																					pos:        position{line: 2934, col: 10, offset: 92906},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -13436,25 +13436,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1401, col: 71, offset: 44777},
 																			expr: &actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonTitlePassthrough83,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -13477,12 +13477,12 @@ var g = &grammar{
 																							pos: position{line: 1401, col: 86, offset: 44792},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2938, col: 11, offset: 92913},
+																									pos: position{line: 2938, col: 11, offset: 92967},
 																									run: (*parser).callonTitlePassthrough93,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2938, col: 11, offset: 92913},
+																										pos: position{line: 2938, col: 11, offset: 92967},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2938, col: 11, offset: 92913},
+																											pos:        position{line: 2938, col: 11, offset: 92967},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -13511,25 +13511,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1401, col: 151, offset: 44857},
 																						expr: &actionExpr{
-																							pos: position{line: 2943, col: 12, offset: 93023},
+																							pos: position{line: 2943, col: 12, offset: 93077},
 																							run: (*parser).callonTitlePassthrough100,
 																							expr: &choiceExpr{
-																								pos: position{line: 2943, col: 13, offset: 93024},
+																								pos: position{line: 2943, col: 13, offset: 93078},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 13, offset: 93024},
+																										pos:        position{line: 2943, col: 13, offset: 93078},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 20, offset: 93031},
+																										pos:        position{line: 2943, col: 20, offset: 93085},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 29, offset: 93040},
+																										pos:        position{line: 2943, col: 29, offset: 93094},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -13556,10 +13556,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1403, col: 12, offset: 45017},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92852},
+																				pos: position{line: 2934, col: 10, offset: 92906},
 																				run: (*parser).callonTitlePassthrough109,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92852},
+																					pos:        position{line: 2934, col: 10, offset: 92906},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -13570,25 +13570,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1403, col: 19, offset: 45024},
 																			expr: &actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonTitlePassthrough112,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -13624,7 +13624,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1397, col: 121, offset: 44593},
 													expr: &charClassMatcher{
-														pos:        position{line: 2824, col: 13, offset: 89947},
+														pos:        position{line: 2824, col: 13, offset: 90001},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -13808,10 +13808,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 485, col: 13, offset: 15403},
 										expr: &actionExpr{
-											pos: position{line: 2934, col: 10, offset: 92852},
+											pos: position{line: 2934, col: 10, offset: 92906},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2934, col: 10, offset: 92852},
+												pos:        position{line: 2934, col: 10, offset: 92906},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14343,10 +14343,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 537, col: 9, offset: 16985},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92852},
+														pos: position{line: 2934, col: 10, offset: 92906},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92852},
+															pos:        position{line: 2934, col: 10, offset: 92906},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -14407,10 +14407,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 543, col: 34, offset: 17128},
 														expr: &actionExpr{
-															pos: position{line: 2934, col: 10, offset: 92852},
+															pos: position{line: 2934, col: 10, offset: 92906},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2934, col: 10, offset: 92852},
+																pos:        position{line: 2934, col: 10, offset: 92906},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -14450,10 +14450,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 548, col: 13, offset: 17292},
 												expr: &actionExpr{
-													pos: position{line: 2934, col: 10, offset: 92852},
+													pos: position{line: 2934, col: 10, offset: 92906},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2934, col: 10, offset: 92852},
+														pos:        position{line: 2934, col: 10, offset: 92906},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -14476,10 +14476,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 548, col: 26, offset: 17305},
 																expr: &actionExpr{
-																	pos: position{line: 2934, col: 10, offset: 92852},
+																	pos: position{line: 2934, col: 10, offset: 92906},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2934, col: 10, offset: 92852},
+																		pos:        position{line: 2934, col: 10, offset: 92906},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -14534,10 +14534,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 568, col: 22, offset: 17952},
 											expr: &actionExpr{
-												pos: position{line: 2934, col: 10, offset: 92852},
+												pos: position{line: 2934, col: 10, offset: 92906},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2934, col: 10, offset: 92852},
+													pos:        position{line: 2934, col: 10, offset: 92906},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14568,10 +14568,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 561, col: 9, offset: 17697},
 							expr: &actionExpr{
-								pos: position{line: 2934, col: 10, offset: 92852},
+								pos: position{line: 2934, col: 10, offset: 92906},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2934, col: 10, offset: 92852},
+									pos:        position{line: 2934, col: 10, offset: 92906},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14601,10 +14601,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 562, col: 33, offset: 17737},
 										expr: &actionExpr{
-											pos: position{line: 2934, col: 10, offset: 92852},
+											pos: position{line: 2934, col: 10, offset: 92906},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2934, col: 10, offset: 92852},
+												pos:        position{line: 2934, col: 10, offset: 92906},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14659,10 +14659,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 578, col: 9, offset: 18169},
 											expr: &actionExpr{
-												pos: position{line: 2934, col: 10, offset: 92852},
+												pos: position{line: 2934, col: 10, offset: 92906},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2934, col: 10, offset: 92852},
+													pos:        position{line: 2934, col: 10, offset: 92906},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14741,12 +14741,12 @@ var g = &grammar{
 							pos: position{line: 591, col: 9, offset: 18486},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2828, col: 14, offset: 90021},
+									pos: position{line: 2828, col: 14, offset: 90075},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2828, col: 14, offset: 90021},
+										pos: position{line: 2828, col: 14, offset: 90075},
 										expr: &charClassMatcher{
-											pos:        position{line: 2828, col: 14, offset: 90021},
+											pos:        position{line: 2828, col: 14, offset: 90075},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14755,10 +14755,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2934, col: 10, offset: 92852},
+									pos: position{line: 2934, col: 10, offset: 92906},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2934, col: 10, offset: 92852},
+										pos:        position{line: 2934, col: 10, offset: 92906},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15215,10 +15215,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 614, col: 14, offset: 19333},
 											expr: &actionExpr{
-												pos: position{line: 2934, col: 10, offset: 92852},
+												pos: position{line: 2934, col: 10, offset: 92906},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2934, col: 10, offset: 92852},
+													pos:        position{line: 2934, col: 10, offset: 92906},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -15255,12 +15255,12 @@ var g = &grammar{
 							pos: position{line: 620, col: 9, offset: 19444},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2828, col: 14, offset: 90021},
+									pos: position{line: 2828, col: 14, offset: 90075},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2828, col: 14, offset: 90021},
+										pos: position{line: 2828, col: 14, offset: 90075},
 										expr: &charClassMatcher{
-											pos:        position{line: 2828, col: 14, offset: 90021},
+											pos:        position{line: 2828, col: 14, offset: 90075},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -15269,10 +15269,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2934, col: 10, offset: 92852},
+									pos: position{line: 2934, col: 10, offset: 92906},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2934, col: 10, offset: 92852},
+										pos:        position{line: 2934, col: 10, offset: 92906},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15699,10 +15699,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 644, col: 5, offset: 20407},
 							expr: &actionExpr{
-								pos: position{line: 2934, col: 10, offset: 92852},
+								pos: position{line: 2934, col: 10, offset: 92906},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2934, col: 10, offset: 92852},
+									pos:        position{line: 2934, col: 10, offset: 92906},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -16092,10 +16092,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2934, col: 10, offset: 92852},
+											pos: position{line: 2934, col: 10, offset: 92906},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2934, col: 10, offset: 92852},
+												pos:        position{line: 2934, col: 10, offset: 92906},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -16146,12 +16146,12 @@ var g = &grammar{
 									pos:   position{line: 711, col: 32, offset: 22937},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2919, col: 7, offset: 92504},
+										pos: position{line: 2919, col: 7, offset: 92558},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2919, col: 7, offset: 92504},
+											pos: position{line: 2919, col: 7, offset: 92558},
 											expr: &charClassMatcher{
-												pos:        position{line: 2919, col: 7, offset: 92504},
+												pos:        position{line: 2919, col: 7, offset: 92558},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -16163,10 +16163,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 711, col: 40, offset: 22945},
 									expr: &actionExpr{
-										pos: position{line: 2934, col: 10, offset: 92852},
+										pos: position{line: 2934, col: 10, offset: 92906},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2934, col: 10, offset: 92852},
+											pos:        position{line: 2934, col: 10, offset: 92906},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -16359,12 +16359,12 @@ var g = &grammar{
 									pos:   position{line: 713, col: 14, offset: 23062},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2919, col: 7, offset: 92504},
+										pos: position{line: 2919, col: 7, offset: 92558},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2919, col: 7, offset: 92504},
+											pos: position{line: 2919, col: 7, offset: 92558},
 											expr: &charClassMatcher{
-												pos:        position{line: 2919, col: 7, offset: 92504},
+												pos:        position{line: 2919, col: 7, offset: 92558},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -16408,41 +16408,41 @@ var g = &grammar{
 							pos:   position{line: 717, col: 35, offset: 23175},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2888, col: 17, offset: 91515},
+								pos: position{line: 2888, col: 17, offset: 91569},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2888, col: 17, offset: 91515},
+									pos:   position{line: 2888, col: 17, offset: 91569},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2905, col: 5, offset: 91969},
+										pos: position{line: 2905, col: 5, offset: 92023},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2905, col: 5, offset: 91969},
+											pos:   position{line: 2905, col: 5, offset: 92023},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2905, col: 14, offset: 91978},
+												pos: position{line: 2905, col: 14, offset: 92032},
 												expr: &choiceExpr{
-													pos: position{line: 2906, col: 9, offset: 91988},
+													pos: position{line: 2906, col: 9, offset: 92042},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2906, col: 9, offset: 91988},
+															pos: position{line: 2906, col: 9, offset: 92042},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2906, col: 9, offset: 91988},
+																pos: position{line: 2906, col: 9, offset: 92042},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2906, col: 9, offset: 91988},
+																		pos: position{line: 2906, col: 9, offset: 92042},
 																		expr: &litMatcher{
-																			pos:        position{line: 2906, col: 10, offset: 91989},
+																			pos:        position{line: 2906, col: 10, offset: 92043},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2907, col: 9, offset: 92017},
+																		pos: position{line: 2907, col: 9, offset: 92071},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2907, col: 10, offset: 92018},
+																			pos:        position{line: 2907, col: 10, offset: 92072},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -16453,27 +16453,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2910, col: 11, offset: 92230},
+															pos: position{line: 2910, col: 11, offset: 92284},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2910, col: 11, offset: 92230},
+																	pos:        position{line: 2910, col: 11, offset: 92284},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2910, col: 19, offset: 92238},
+																	pos: position{line: 2910, col: 19, offset: 92292},
 																	expr: &seqExpr{
-																		pos: position{line: 2910, col: 21, offset: 92240},
+																		pos: position{line: 2910, col: 21, offset: 92294},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2910, col: 21, offset: 92240},
+																				pos: position{line: 2910, col: 21, offset: 92294},
 																				expr: &actionExpr{
-																					pos: position{line: 2934, col: 10, offset: 92852},
+																					pos: position{line: 2934, col: 10, offset: 92906},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2934, col: 10, offset: 92852},
+																						pos:        position{line: 2934, col: 10, offset: 92906},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -16482,11 +16482,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2910, col: 28, offset: 92247},
+																				pos: position{line: 2910, col: 28, offset: 92301},
 																				expr: &notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -16885,10 +16885,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2913, col: 11, offset: 92367},
+															pos: position{line: 2913, col: 11, offset: 92421},
 															run: (*parser).callonExternalCrossReference105,
 															expr: &litMatcher{
-																pos:        position{line: 2913, col: 11, offset: 92367},
+																pos:        position{line: 2913, col: 11, offset: 92421},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16933,12 +16933,12 @@ var g = &grammar{
 							pos:   position{line: 1014, col: 11, offset: 31894},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2884, col: 14, offset: 91445},
+								pos: position{line: 2884, col: 14, offset: 91499},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2884, col: 14, offset: 91445},
+									pos: position{line: 2884, col: 14, offset: 91499},
 									expr: &charClassMatcher{
-										pos:        position{line: 2884, col: 14, offset: 91445},
+										pos:        position{line: 2884, col: 14, offset: 91499},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16948,28 +16948,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2956, col: 8, offset: 93250},
+							pos: position{line: 2956, col: 8, offset: 93304},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2943, col: 12, offset: 93023},
+									pos: position{line: 2943, col: 12, offset: 93077},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2943, col: 13, offset: 93024},
+										pos: position{line: 2943, col: 13, offset: 93078},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2943, col: 13, offset: 93024},
+												pos:        position{line: 2943, col: 13, offset: 93078},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 20, offset: 93031},
+												pos:        position{line: 2943, col: 20, offset: 93085},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 29, offset: 93040},
+												pos:        position{line: 2943, col: 29, offset: 93094},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16978,9 +16978,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2953, col: 8, offset: 93200},
+									pos: position{line: 2953, col: 8, offset: 93254},
 									expr: &anyMatcher{
-										line: 2953, col: 9, offset: 93201,
+										line: 2953, col: 9, offset: 93255,
 									},
 								},
 							},
@@ -17008,36 +17008,36 @@ var g = &grammar{
 								pos: position{line: 1129, col: 6, offset: 34896},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2537, col: 22, offset: 81630},
+										pos: position{line: 2537, col: 22, offset: 81684},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2537, col: 22, offset: 81630},
+											pos: position{line: 2537, col: 22, offset: 81684},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2542, col: 31, offset: 81880},
+													pos:        position{line: 2542, col: 31, offset: 81934},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2542, col: 36, offset: 81885},
+													pos: position{line: 2542, col: 36, offset: 81939},
 													expr: &litMatcher{
-														pos:        position{line: 2542, col: 37, offset: 81886},
+														pos:        position{line: 2542, col: 37, offset: 81940},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2537, col: 49, offset: 81657},
+													pos:   position{line: 2537, col: 49, offset: 81711},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 13, offset: 91378},
+														pos: position{line: 2880, col: 13, offset: 91432},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2880, col: 13, offset: 91378},
+															pos: position{line: 2880, col: 13, offset: 91432},
 															expr: &charClassMatcher{
-																pos:        position{line: 2880, col: 13, offset: 91378},
+																pos:        position{line: 2880, col: 13, offset: 91432},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17047,28 +17047,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2956, col: 8, offset: 93250},
+													pos: position{line: 2956, col: 8, offset: 93304},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93023},
+															pos: position{line: 2943, col: 12, offset: 93077},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93024},
+																pos: position{line: 2943, col: 13, offset: 93078},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93024},
+																		pos:        position{line: 2943, col: 13, offset: 93078},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93031},
+																		pos:        position{line: 2943, col: 20, offset: 93085},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93040},
+																		pos:        position{line: 2943, col: 29, offset: 93094},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17077,9 +17077,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93200},
+															pos: position{line: 2953, col: 8, offset: 93254},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93201,
+																line: 2953, col: 9, offset: 93255,
 															},
 														},
 													},
@@ -17130,10 +17130,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 767, col: 8, offset: 24774},
 																expr: &actionExpr{
-																	pos: position{line: 2934, col: 10, offset: 92852},
+																	pos: position{line: 2934, col: 10, offset: 92906},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2934, col: 10, offset: 92852},
+																		pos:        position{line: 2934, col: 10, offset: 92906},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17142,28 +17142,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2956, col: 8, offset: 93250},
+																pos: position{line: 2956, col: 8, offset: 93304},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2943, col: 12, offset: 93023},
+																		pos: position{line: 2943, col: 12, offset: 93077},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2943, col: 13, offset: 93024},
+																			pos: position{line: 2943, col: 13, offset: 93078},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 13, offset: 93024},
+																					pos:        position{line: 2943, col: 13, offset: 93078},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 20, offset: 93031},
+																					pos:        position{line: 2943, col: 20, offset: 93085},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 29, offset: 93040},
+																					pos:        position{line: 2943, col: 29, offset: 93094},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17172,9 +17172,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93200},
+																		pos: position{line: 2953, col: 8, offset: 93254},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93201,
+																			line: 2953, col: 9, offset: 93255,
 																		},
 																	},
 																},
@@ -17235,10 +17235,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 767, col: 8, offset: 24774},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92852},
+																									pos: position{line: 2934, col: 10, offset: 92906},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92852},
+																										pos:        position{line: 2934, col: 10, offset: 92906},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17247,28 +17247,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2956, col: 8, offset: 93250},
+																								pos: position{line: 2956, col: 8, offset: 93304},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2943, col: 12, offset: 93023},
+																										pos: position{line: 2943, col: 12, offset: 93077},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2943, col: 13, offset: 93024},
+																											pos: position{line: 2943, col: 13, offset: 93078},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 13, offset: 93024},
+																													pos:        position{line: 2943, col: 13, offset: 93078},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 20, offset: 93031},
+																													pos:        position{line: 2943, col: 20, offset: 93085},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 29, offset: 93040},
+																													pos:        position{line: 2943, col: 29, offset: 93094},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17277,9 +17277,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93200},
+																										pos: position{line: 2953, col: 8, offset: 93254},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93201,
+																											line: 2953, col: 9, offset: 93255,
 																										},
 																									},
 																								},
@@ -17288,9 +17288,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -17306,21 +17306,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2951, col: 11, offset: 93186},
+																						pos: position{line: 2951, col: 11, offset: 93240},
 																						expr: &anyMatcher{
-																							line: 2951, col: 13, offset: 93188,
+																							line: 2951, col: 13, offset: 93242,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 13, offset: 91378},
+																							pos: position{line: 2880, col: 13, offset: 91432},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2880, col: 13, offset: 91378},
+																								pos: position{line: 2880, col: 13, offset: 91432},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 13, offset: 91378},
+																									pos:        position{line: 2880, col: 13, offset: 91432},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17330,28 +17330,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93250},
+																						pos: position{line: 2956, col: 8, offset: 93304},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93023},
+																								pos: position{line: 2943, col: 12, offset: 93077},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93024},
+																									pos: position{line: 2943, col: 13, offset: 93078},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93024},
+																											pos:        position{line: 2943, col: 13, offset: 93078},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93031},
+																											pos:        position{line: 2943, col: 20, offset: 93085},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93040},
+																											pos:        position{line: 2943, col: 29, offset: 93094},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17360,9 +17360,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93200},
+																								pos: position{line: 2953, col: 8, offset: 93254},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93201,
+																									line: 2953, col: 9, offset: 93255,
 																								},
 																							},
 																						},
@@ -17418,10 +17418,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 767, col: 8, offset: 24774},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92852},
+																				pos: position{line: 2934, col: 10, offset: 92906},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92852},
+																					pos:        position{line: 2934, col: 10, offset: 92906},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -17430,28 +17430,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93250},
+																			pos: position{line: 2956, col: 8, offset: 93304},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93023},
+																					pos: position{line: 2943, col: 12, offset: 93077},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93024},
+																						pos: position{line: 2943, col: 13, offset: 93078},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93024},
+																								pos:        position{line: 2943, col: 13, offset: 93078},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93031},
+																								pos:        position{line: 2943, col: 20, offset: 93085},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93040},
+																								pos:        position{line: 2943, col: 29, offset: 93094},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -17460,9 +17460,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -17471,9 +17471,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93200},
+																pos: position{line: 2953, col: 8, offset: 93254},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93201,
+																	line: 2953, col: 9, offset: 93255,
 																},
 															},
 														},
@@ -17499,36 +17499,36 @@ var g = &grammar{
 								pos: position{line: 1131, col: 6, offset: 35019},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2537, col: 22, offset: 81630},
+										pos: position{line: 2537, col: 22, offset: 81684},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2537, col: 22, offset: 81630},
+											pos: position{line: 2537, col: 22, offset: 81684},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2542, col: 31, offset: 81880},
+													pos:        position{line: 2542, col: 31, offset: 81934},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2542, col: 36, offset: 81885},
+													pos: position{line: 2542, col: 36, offset: 81939},
 													expr: &litMatcher{
-														pos:        position{line: 2542, col: 37, offset: 81886},
+														pos:        position{line: 2542, col: 37, offset: 81940},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2537, col: 49, offset: 81657},
+													pos:   position{line: 2537, col: 49, offset: 81711},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 13, offset: 91378},
+														pos: position{line: 2880, col: 13, offset: 91432},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2880, col: 13, offset: 91378},
+															pos: position{line: 2880, col: 13, offset: 91432},
 															expr: &charClassMatcher{
-																pos:        position{line: 2880, col: 13, offset: 91378},
+																pos:        position{line: 2880, col: 13, offset: 91432},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17538,28 +17538,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2956, col: 8, offset: 93250},
+													pos: position{line: 2956, col: 8, offset: 93304},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93023},
+															pos: position{line: 2943, col: 12, offset: 93077},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93024},
+																pos: position{line: 2943, col: 13, offset: 93078},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93024},
+																		pos:        position{line: 2943, col: 13, offset: 93078},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93031},
+																		pos:        position{line: 2943, col: 20, offset: 93085},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93040},
+																		pos:        position{line: 2943, col: 29, offset: 93094},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17568,9 +17568,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93200},
+															pos: position{line: 2953, col: 8, offset: 93254},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93201,
+																line: 2953, col: 9, offset: 93255,
 															},
 														},
 													},
@@ -17621,10 +17621,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 767, col: 8, offset: 24774},
 																expr: &actionExpr{
-																	pos: position{line: 2934, col: 10, offset: 92852},
+																	pos: position{line: 2934, col: 10, offset: 92906},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2934, col: 10, offset: 92852},
+																		pos:        position{line: 2934, col: 10, offset: 92906},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17633,28 +17633,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2956, col: 8, offset: 93250},
+																pos: position{line: 2956, col: 8, offset: 93304},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2943, col: 12, offset: 93023},
+																		pos: position{line: 2943, col: 12, offset: 93077},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2943, col: 13, offset: 93024},
+																			pos: position{line: 2943, col: 13, offset: 93078},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 13, offset: 93024},
+																					pos:        position{line: 2943, col: 13, offset: 93078},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 20, offset: 93031},
+																					pos:        position{line: 2943, col: 20, offset: 93085},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 29, offset: 93040},
+																					pos:        position{line: 2943, col: 29, offset: 93094},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17663,9 +17663,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93200},
+																		pos: position{line: 2953, col: 8, offset: 93254},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93201,
+																			line: 2953, col: 9, offset: 93255,
 																		},
 																	},
 																},
@@ -17726,10 +17726,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 767, col: 8, offset: 24774},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92852},
+																									pos: position{line: 2934, col: 10, offset: 92906},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92852},
+																										pos:        position{line: 2934, col: 10, offset: 92906},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17738,28 +17738,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2956, col: 8, offset: 93250},
+																								pos: position{line: 2956, col: 8, offset: 93304},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2943, col: 12, offset: 93023},
+																										pos: position{line: 2943, col: 12, offset: 93077},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2943, col: 13, offset: 93024},
+																											pos: position{line: 2943, col: 13, offset: 93078},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 13, offset: 93024},
+																													pos:        position{line: 2943, col: 13, offset: 93078},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 20, offset: 93031},
+																													pos:        position{line: 2943, col: 20, offset: 93085},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 29, offset: 93040},
+																													pos:        position{line: 2943, col: 29, offset: 93094},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17768,9 +17768,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93200},
+																										pos: position{line: 2953, col: 8, offset: 93254},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93201,
+																											line: 2953, col: 9, offset: 93255,
 																										},
 																									},
 																								},
@@ -17779,9 +17779,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -17797,21 +17797,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2951, col: 11, offset: 93186},
+																						pos: position{line: 2951, col: 11, offset: 93240},
 																						expr: &anyMatcher{
-																							line: 2951, col: 13, offset: 93188,
+																							line: 2951, col: 13, offset: 93242,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 13, offset: 91378},
+																							pos: position{line: 2880, col: 13, offset: 91432},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2880, col: 13, offset: 91378},
+																								pos: position{line: 2880, col: 13, offset: 91432},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 13, offset: 91378},
+																									pos:        position{line: 2880, col: 13, offset: 91432},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17821,28 +17821,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93250},
+																						pos: position{line: 2956, col: 8, offset: 93304},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93023},
+																								pos: position{line: 2943, col: 12, offset: 93077},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93024},
+																									pos: position{line: 2943, col: 13, offset: 93078},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93024},
+																											pos:        position{line: 2943, col: 13, offset: 93078},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93031},
+																											pos:        position{line: 2943, col: 20, offset: 93085},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93040},
+																											pos:        position{line: 2943, col: 29, offset: 93094},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17851,9 +17851,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93200},
+																								pos: position{line: 2953, col: 8, offset: 93254},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93201,
+																									line: 2953, col: 9, offset: 93255,
 																								},
 																							},
 																						},
@@ -17909,10 +17909,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 767, col: 8, offset: 24774},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92852},
+																				pos: position{line: 2934, col: 10, offset: 92906},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92852},
+																					pos:        position{line: 2934, col: 10, offset: 92906},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -17921,28 +17921,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93250},
+																			pos: position{line: 2956, col: 8, offset: 93304},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93023},
+																					pos: position{line: 2943, col: 12, offset: 93077},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93024},
+																						pos: position{line: 2943, col: 13, offset: 93078},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93024},
+																								pos:        position{line: 2943, col: 13, offset: 93078},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93031},
+																								pos:        position{line: 2943, col: 20, offset: 93085},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93040},
+																								pos:        position{line: 2943, col: 29, offset: 93094},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -17951,9 +17951,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -17962,9 +17962,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93200},
+																pos: position{line: 2953, col: 8, offset: 93254},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93201,
+																	line: 2953, col: 9, offset: 93255,
 																},
 															},
 														},
@@ -18008,10 +18008,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1150, col: 20, offset: 35774},
 																expr: &actionExpr{
-																	pos: position{line: 2934, col: 10, offset: 92852},
+																	pos: position{line: 2934, col: 10, offset: 92906},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2934, col: 10, offset: 92852},
+																		pos:        position{line: 2934, col: 10, offset: 92906},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -18062,10 +18062,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1169, col: 5, offset: 36379},
 																										expr: &actionExpr{
-																											pos: position{line: 2934, col: 10, offset: 92852},
+																											pos: position{line: 2934, col: 10, offset: 92906},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2934, col: 10, offset: 92852},
+																												pos:        position{line: 2934, col: 10, offset: 92906},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -18097,10 +18097,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1173, col: 5, offset: 36478},
 																										expr: &actionExpr{
-																											pos: position{line: 2934, col: 10, offset: 92852},
+																											pos: position{line: 2934, col: 10, offset: 92906},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2934, col: 10, offset: 92852},
+																												pos:        position{line: 2934, col: 10, offset: 92906},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -18132,10 +18132,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1177, col: 5, offset: 36575},
 																										expr: &actionExpr{
-																											pos: position{line: 2934, col: 10, offset: 92852},
+																											pos: position{line: 2934, col: 10, offset: 92906},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2934, col: 10, offset: 92852},
+																												pos:        position{line: 2934, col: 10, offset: 92906},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -18160,9 +18160,9 @@ var g = &grammar{
 																								pos: position{line: 1183, col: 5, offset: 36697},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2951, col: 11, offset: 93186},
+																										pos: position{line: 2951, col: 11, offset: 93240},
 																										expr: &anyMatcher{
-																											line: 2951, col: 13, offset: 93188,
+																											line: 2951, col: 13, offset: 93242,
 																										},
 																									},
 																									&litMatcher{
@@ -18203,10 +18203,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1155, col: 69, offset: 35967},
 																					expr: &actionExpr{
-																						pos: position{line: 2934, col: 10, offset: 92852},
+																						pos: position{line: 2934, col: 10, offset: 92906},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2934, col: 10, offset: 92852},
+																							pos:        position{line: 2934, col: 10, offset: 92906},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18226,10 +18226,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1155, col: 81, offset: 35979},
 																					expr: &actionExpr{
-																						pos: position{line: 2934, col: 10, offset: 92852},
+																						pos: position{line: 2934, col: 10, offset: 92906},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2934, col: 10, offset: 92852},
+																							pos:        position{line: 2934, col: 10, offset: 92906},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18247,28 +18247,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2956, col: 8, offset: 93250},
+																pos: position{line: 2956, col: 8, offset: 93304},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2943, col: 12, offset: 93023},
+																		pos: position{line: 2943, col: 12, offset: 93077},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2943, col: 13, offset: 93024},
+																			pos: position{line: 2943, col: 13, offset: 93078},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 13, offset: 93024},
+																					pos:        position{line: 2943, col: 13, offset: 93078},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 20, offset: 93031},
+																					pos:        position{line: 2943, col: 20, offset: 93085},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 29, offset: 93040},
+																					pos:        position{line: 2943, col: 29, offset: 93094},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -18277,9 +18277,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93200},
+																		pos: position{line: 2953, col: 8, offset: 93254},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93201,
+																			line: 2953, col: 9, offset: 93255,
 																		},
 																	},
 																},
@@ -18294,36 +18294,36 @@ var g = &grammar{
 													pos: position{line: 1145, col: 6, offset: 35549},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2537, col: 22, offset: 81630},
+															pos: position{line: 2537, col: 22, offset: 81684},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2537, col: 22, offset: 81630},
+																pos: position{line: 2537, col: 22, offset: 81684},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2542, col: 31, offset: 81880},
+																		pos:        position{line: 2542, col: 31, offset: 81934},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2542, col: 36, offset: 81885},
+																		pos: position{line: 2542, col: 36, offset: 81939},
 																		expr: &litMatcher{
-																			pos:        position{line: 2542, col: 37, offset: 81886},
+																			pos:        position{line: 2542, col: 37, offset: 81940},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2537, col: 49, offset: 81657},
+																		pos:   position{line: 2537, col: 49, offset: 81711},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 13, offset: 91378},
+																			pos: position{line: 2880, col: 13, offset: 91432},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2880, col: 13, offset: 91378},
+																				pos: position{line: 2880, col: 13, offset: 91432},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 13, offset: 91378},
+																					pos:        position{line: 2880, col: 13, offset: 91432},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -18333,28 +18333,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93250},
+																		pos: position{line: 2956, col: 8, offset: 93304},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18363,9 +18363,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93200},
+																				pos: position{line: 2953, col: 8, offset: 93254},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93201,
+																					line: 2953, col: 9, offset: 93255,
 																				},
 																			},
 																		},
@@ -18416,10 +18416,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 767, col: 8, offset: 24774},
 																					expr: &actionExpr{
-																						pos: position{line: 2934, col: 10, offset: 92852},
+																						pos: position{line: 2934, col: 10, offset: 92906},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2934, col: 10, offset: 92852},
+																							pos:        position{line: 2934, col: 10, offset: 92906},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18428,28 +18428,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2956, col: 8, offset: 93250},
+																					pos: position{line: 2956, col: 8, offset: 93304},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2943, col: 12, offset: 93023},
+																							pos: position{line: 2943, col: 12, offset: 93077},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2943, col: 13, offset: 93024},
+																								pos: position{line: 2943, col: 13, offset: 93078},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 13, offset: 93024},
+																										pos:        position{line: 2943, col: 13, offset: 93078},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 20, offset: 93031},
+																										pos:        position{line: 2943, col: 20, offset: 93085},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 29, offset: 93040},
+																										pos:        position{line: 2943, col: 29, offset: 93094},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -18458,9 +18458,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93200},
+																							pos: position{line: 2953, col: 8, offset: 93254},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93201,
+																								line: 2953, col: 9, offset: 93255,
 																							},
 																						},
 																					},
@@ -18521,10 +18521,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 767, col: 8, offset: 24774},
 																													expr: &actionExpr{
-																														pos: position{line: 2934, col: 10, offset: 92852},
+																														pos: position{line: 2934, col: 10, offset: 92906},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2934, col: 10, offset: 92852},
+																															pos:        position{line: 2934, col: 10, offset: 92906},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18533,28 +18533,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2956, col: 8, offset: 93250},
+																													pos: position{line: 2956, col: 8, offset: 93304},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2943, col: 12, offset: 93023},
+																															pos: position{line: 2943, col: 12, offset: 93077},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2943, col: 13, offset: 93024},
+																																pos: position{line: 2943, col: 13, offset: 93078},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2943, col: 13, offset: 93024},
+																																		pos:        position{line: 2943, col: 13, offset: 93078},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2943, col: 20, offset: 93031},
+																																		pos:        position{line: 2943, col: 20, offset: 93085},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2943, col: 29, offset: 93040},
+																																		pos:        position{line: 2943, col: 29, offset: 93094},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -18563,9 +18563,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2953, col: 8, offset: 93200},
+																															pos: position{line: 2953, col: 8, offset: 93254},
 																															expr: &anyMatcher{
-																																line: 2953, col: 9, offset: 93201,
+																																line: 2953, col: 9, offset: 93255,
 																															},
 																														},
 																													},
@@ -18574,9 +18574,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93200},
+																										pos: position{line: 2953, col: 8, offset: 93254},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93201,
+																											line: 2953, col: 9, offset: 93255,
 																										},
 																									},
 																								},
@@ -18592,21 +18592,21 @@ var g = &grammar{
 																									pos: position{line: 836, col: 5, offset: 27176},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2951, col: 11, offset: 93186},
+																											pos: position{line: 2951, col: 11, offset: 93240},
 																											expr: &anyMatcher{
-																												line: 2951, col: 13, offset: 93188,
+																												line: 2951, col: 13, offset: 93242,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 837, col: 5, offset: 27251},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2880, col: 13, offset: 91378},
+																												pos: position{line: 2880, col: 13, offset: 91432},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2880, col: 13, offset: 91378},
+																													pos: position{line: 2880, col: 13, offset: 91432},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2880, col: 13, offset: 91378},
+																														pos:        position{line: 2880, col: 13, offset: 91432},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18616,28 +18616,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93250},
+																											pos: position{line: 2956, col: 8, offset: 93304},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93023},
+																													pos: position{line: 2943, col: 12, offset: 93077},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93024},
+																														pos: position{line: 2943, col: 13, offset: 93078},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93024},
+																																pos:        position{line: 2943, col: 13, offset: 93078},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93031},
+																																pos:        position{line: 2943, col: 20, offset: 93085},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93040},
+																																pos:        position{line: 2943, col: 29, offset: 93094},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18646,9 +18646,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93200},
+																													pos: position{line: 2953, col: 8, offset: 93254},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93201,
+																														line: 2953, col: 9, offset: 93255,
 																													},
 																												},
 																											},
@@ -18704,10 +18704,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 767, col: 8, offset: 24774},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92852},
+																									pos: position{line: 2934, col: 10, offset: 92906},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92852},
+																										pos:        position{line: 2934, col: 10, offset: 92906},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -18716,28 +18716,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2956, col: 8, offset: 93250},
+																								pos: position{line: 2956, col: 8, offset: 93304},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2943, col: 12, offset: 93023},
+																										pos: position{line: 2943, col: 12, offset: 93077},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2943, col: 13, offset: 93024},
+																											pos: position{line: 2943, col: 13, offset: 93078},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 13, offset: 93024},
+																													pos:        position{line: 2943, col: 13, offset: 93078},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 20, offset: 93031},
+																													pos:        position{line: 2943, col: 20, offset: 93085},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 29, offset: 93040},
+																													pos:        position{line: 2943, col: 29, offset: 93094},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -18746,9 +18746,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93200},
+																										pos: position{line: 2953, col: 8, offset: 93254},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93201,
+																											line: 2953, col: 9, offset: 93255,
 																										},
 																									},
 																								},
@@ -18757,9 +18757,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -18785,10 +18785,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1194, col: 21, offset: 36975},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92852},
+																		pos: position{line: 2934, col: 10, offset: 92906},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92852},
+																			pos:        position{line: 2934, col: 10, offset: 92906},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18890,10 +18890,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1206, col: 28, offset: 37606},
 																													expr: &actionExpr{
-																														pos: position{line: 2934, col: 10, offset: 92852},
+																														pos: position{line: 2934, col: 10, offset: 92906},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2934, col: 10, offset: 92852},
+																															pos:        position{line: 2934, col: 10, offset: 92906},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -19040,28 +19040,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93250},
+																	pos: position{line: 2956, col: 8, offset: 93304},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93023},
+																			pos: position{line: 2943, col: 12, offset: 93077},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93024},
+																				pos: position{line: 2943, col: 13, offset: 93078},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93024},
+																						pos:        position{line: 2943, col: 13, offset: 93078},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93031},
+																						pos:        position{line: 2943, col: 20, offset: 93085},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93040},
+																						pos:        position{line: 2943, col: 29, offset: 93094},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -19070,9 +19070,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93200},
+																			pos: position{line: 2953, col: 8, offset: 93254},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93201,
+																				line: 2953, col: 9, offset: 93255,
 																			},
 																		},
 																	},
@@ -19152,10 +19152,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 49, offset: 11042},
 														expr: &actionExpr{
-															pos: position{line: 2934, col: 10, offset: 92852},
+															pos: position{line: 2934, col: 10, offset: 92906},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2934, col: 10, offset: 92852},
+																pos:        position{line: 2934, col: 10, offset: 92906},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19164,28 +19164,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2956, col: 8, offset: 93250},
+														pos: position{line: 2956, col: 8, offset: 93304},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93023},
+																pos: position{line: 2943, col: 12, offset: 93077},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93024},
+																	pos: position{line: 2943, col: 13, offset: 93078},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93024},
+																			pos:        position{line: 2943, col: 13, offset: 93078},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93031},
+																			pos:        position{line: 2943, col: 20, offset: 93085},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93040},
+																			pos:        position{line: 2943, col: 29, offset: 93094},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19194,9 +19194,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93200},
+																pos: position{line: 2953, col: 8, offset: 93254},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93201,
+																	line: 2953, col: 9, offset: 93255,
 																},
 															},
 														},
@@ -19257,10 +19257,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 364, col: 39, offset: 11163},
 														expr: &actionExpr{
-															pos: position{line: 2934, col: 10, offset: 92852},
+															pos: position{line: 2934, col: 10, offset: 92906},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2934, col: 10, offset: 92852},
+																pos:        position{line: 2934, col: 10, offset: 92906},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19269,28 +19269,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2956, col: 8, offset: 93250},
+														pos: position{line: 2956, col: 8, offset: 93304},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93023},
+																pos: position{line: 2943, col: 12, offset: 93077},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93024},
+																	pos: position{line: 2943, col: 13, offset: 93078},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93024},
+																			pos:        position{line: 2943, col: 13, offset: 93078},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93031},
+																			pos:        position{line: 2943, col: 20, offset: 93085},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93040},
+																			pos:        position{line: 2943, col: 29, offset: 93094},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19299,9 +19299,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93200},
+																pos: position{line: 2953, col: 8, offset: 93254},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93201,
+																	line: 2953, col: 9, offset: 93255,
 																},
 															},
 														},
@@ -19310,36 +19310,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2537, col: 22, offset: 81630},
+											pos: position{line: 2537, col: 22, offset: 81684},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2537, col: 22, offset: 81630},
+												pos: position{line: 2537, col: 22, offset: 81684},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2542, col: 31, offset: 81880},
+														pos:        position{line: 2542, col: 31, offset: 81934},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2542, col: 36, offset: 81885},
+														pos: position{line: 2542, col: 36, offset: 81939},
 														expr: &litMatcher{
-															pos:        position{line: 2542, col: 37, offset: 81886},
+															pos:        position{line: 2542, col: 37, offset: 81940},
 															val:        "/",
 															ignoreCase: false,
 															want:       "\"/\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2537, col: 49, offset: 81657},
+														pos:   position{line: 2537, col: 49, offset: 81711},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2880, col: 13, offset: 91378},
+															pos: position{line: 2880, col: 13, offset: 91432},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2880, col: 13, offset: 91378},
+																pos: position{line: 2880, col: 13, offset: 91432},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2880, col: 13, offset: 91378},
+																	pos:        position{line: 2880, col: 13, offset: 91432},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -19349,28 +19349,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2956, col: 8, offset: 93250},
+														pos: position{line: 2956, col: 8, offset: 93304},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93023},
+																pos: position{line: 2943, col: 12, offset: 93077},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93024},
+																	pos: position{line: 2943, col: 13, offset: 93078},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93024},
+																			pos:        position{line: 2943, col: 13, offset: 93078},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93031},
+																			pos:        position{line: 2943, col: 20, offset: 93085},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93040},
+																			pos:        position{line: 2943, col: 29, offset: 93094},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19379,9 +19379,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93200},
+																pos: position{line: 2953, col: 8, offset: 93254},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93201,
+																	line: 2953, col: 9, offset: 93255,
 																},
 															},
 														},
@@ -19432,10 +19432,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 767, col: 8, offset: 24774},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92852},
+																		pos: position{line: 2934, col: 10, offset: 92906},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92852},
+																			pos:        position{line: 2934, col: 10, offset: 92906},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -19444,28 +19444,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93250},
+																	pos: position{line: 2956, col: 8, offset: 93304},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93023},
+																			pos: position{line: 2943, col: 12, offset: 93077},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93024},
+																				pos: position{line: 2943, col: 13, offset: 93078},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93024},
+																						pos:        position{line: 2943, col: 13, offset: 93078},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93031},
+																						pos:        position{line: 2943, col: 20, offset: 93085},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93040},
+																						pos:        position{line: 2943, col: 29, offset: 93094},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -19474,9 +19474,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93200},
+																			pos: position{line: 2953, col: 8, offset: 93254},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93201,
+																				line: 2953, col: 9, offset: 93255,
 																			},
 																		},
 																	},
@@ -19537,10 +19537,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 767, col: 8, offset: 24774},
 																									expr: &actionExpr{
-																										pos: position{line: 2934, col: 10, offset: 92852},
+																										pos: position{line: 2934, col: 10, offset: 92906},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2934, col: 10, offset: 92852},
+																											pos:        position{line: 2934, col: 10, offset: 92906},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -19549,28 +19549,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2956, col: 8, offset: 93250},
+																									pos: position{line: 2956, col: 8, offset: 93304},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2943, col: 12, offset: 93023},
+																											pos: position{line: 2943, col: 12, offset: 93077},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2943, col: 13, offset: 93024},
+																												pos: position{line: 2943, col: 13, offset: 93078},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 13, offset: 93024},
+																														pos:        position{line: 2943, col: 13, offset: 93078},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 20, offset: 93031},
+																														pos:        position{line: 2943, col: 20, offset: 93085},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 29, offset: 93040},
+																														pos:        position{line: 2943, col: 29, offset: 93094},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -19579,9 +19579,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2953, col: 8, offset: 93200},
+																											pos: position{line: 2953, col: 8, offset: 93254},
 																											expr: &anyMatcher{
-																												line: 2953, col: 9, offset: 93201,
+																												line: 2953, col: 9, offset: 93255,
 																											},
 																										},
 																									},
@@ -19590,9 +19590,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93200},
+																						pos: position{line: 2953, col: 8, offset: 93254},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93201,
+																							line: 2953, col: 9, offset: 93255,
 																						},
 																					},
 																				},
@@ -19608,21 +19608,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2951, col: 11, offset: 93186},
+																							pos: position{line: 2951, col: 11, offset: 93240},
 																							expr: &anyMatcher{
-																								line: 2951, col: 13, offset: 93188,
+																								line: 2951, col: 13, offset: 93242,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 13, offset: 91378},
+																								pos: position{line: 2880, col: 13, offset: 91432},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2880, col: 13, offset: 91378},
+																									pos: position{line: 2880, col: 13, offset: 91432},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 13, offset: 91378},
+																										pos:        position{line: 2880, col: 13, offset: 91432},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19632,28 +19632,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19662,9 +19662,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -19720,10 +19720,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 767, col: 8, offset: 24774},
 																				expr: &actionExpr{
-																					pos: position{line: 2934, col: 10, offset: 92852},
+																					pos: position{line: 2934, col: 10, offset: 92906},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2934, col: 10, offset: 92852},
+																						pos:        position{line: 2934, col: 10, offset: 92906},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -19732,28 +19732,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2956, col: 8, offset: 93250},
+																				pos: position{line: 2956, col: 8, offset: 93304},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2943, col: 12, offset: 93023},
+																						pos: position{line: 2943, col: 12, offset: 93077},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2943, col: 13, offset: 93024},
+																							pos: position{line: 2943, col: 13, offset: 93078},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 13, offset: 93024},
+																									pos:        position{line: 2943, col: 13, offset: 93078},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 20, offset: 93031},
+																									pos:        position{line: 2943, col: 20, offset: 93085},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 29, offset: 93040},
+																									pos:        position{line: 2943, col: 29, offset: 93094},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -19762,9 +19762,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93200},
+																						pos: position{line: 2953, col: 8, offset: 93254},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93201,
+																							line: 2953, col: 9, offset: 93255,
 																						},
 																					},
 																				},
@@ -19773,9 +19773,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2953, col: 8, offset: 93200},
+																	pos: position{line: 2953, col: 8, offset: 93254},
 																	expr: &anyMatcher{
-																		line: 2953, col: 9, offset: 93201,
+																		line: 2953, col: 9, offset: 93255,
 																	},
 																},
 															},
@@ -19808,12 +19808,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2938, col: 11, offset: 92913},
+							pos: position{line: 2938, col: 11, offset: 92967},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2938, col: 11, offset: 92913},
+								pos: position{line: 2938, col: 11, offset: 92967},
 								expr: &charClassMatcher{
-									pos:        position{line: 2938, col: 11, offset: 92913},
+									pos:        position{line: 2938, col: 11, offset: 92967},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19830,28 +19830,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2956, col: 8, offset: 93250},
+							pos: position{line: 2956, col: 8, offset: 93304},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2943, col: 12, offset: 93023},
+									pos: position{line: 2943, col: 12, offset: 93077},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2943, col: 13, offset: 93024},
+										pos: position{line: 2943, col: 13, offset: 93078},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2943, col: 13, offset: 93024},
+												pos:        position{line: 2943, col: 13, offset: 93078},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 20, offset: 93031},
+												pos:        position{line: 2943, col: 20, offset: 93085},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 29, offset: 93040},
+												pos:        position{line: 2943, col: 29, offset: 93094},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19860,9 +19860,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2953, col: 8, offset: 93200},
+									pos: position{line: 2953, col: 8, offset: 93254},
 									expr: &anyMatcher{
-										line: 2953, col: 9, offset: 93201,
+										line: 2953, col: 9, offset: 93255,
 									},
 								},
 							},
@@ -19901,10 +19901,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1169, col: 5, offset: 36379},
 							expr: &actionExpr{
-								pos: position{line: 2934, col: 10, offset: 92852},
+								pos: position{line: 2934, col: 10, offset: 92906},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2934, col: 10, offset: 92852},
+									pos:        position{line: 2934, col: 10, offset: 92906},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19936,10 +19936,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1173, col: 5, offset: 36478},
 							expr: &actionExpr{
-								pos: position{line: 2934, col: 10, offset: 92852},
+								pos: position{line: 2934, col: 10, offset: 92906},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2934, col: 10, offset: 92852},
+									pos:        position{line: 2934, col: 10, offset: 92906},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19971,10 +19971,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1177, col: 5, offset: 36575},
 							expr: &actionExpr{
-								pos: position{line: 2934, col: 10, offset: 92852},
+								pos: position{line: 2934, col: 10, offset: 92906},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2934, col: 10, offset: 92852},
+									pos:        position{line: 2934, col: 10, offset: 92906},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20040,12 +20040,12 @@ var g = &grammar{
 							pos:   position{line: 1305, col: 13, offset: 40824},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2919, col: 7, offset: 92504},
+								pos: position{line: 2919, col: 7, offset: 92558},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2919, col: 7, offset: 92504},
+									pos: position{line: 2919, col: 7, offset: 92558},
 									expr: &charClassMatcher{
-										pos:        position{line: 2919, col: 7, offset: 92504},
+										pos:        position{line: 2919, col: 7, offset: 92558},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -20114,12 +20114,12 @@ var g = &grammar{
 							pos: position{line: 1316, col: 31, offset: 41284},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2828, col: 14, offset: 90021},
+									pos: position{line: 2828, col: 14, offset: 90075},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2828, col: 14, offset: 90021},
+										pos: position{line: 2828, col: 14, offset: 90075},
 										expr: &charClassMatcher{
-											pos:        position{line: 2828, col: 14, offset: 90021},
+											pos:        position{line: 2828, col: 14, offset: 90075},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20132,10 +20132,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2934, col: 10, offset: 92852},
+									pos: position{line: 2934, col: 10, offset: 92906},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2934, col: 10, offset: 92852},
+										pos:        position{line: 2934, col: 10, offset: 92906},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -20143,23 +20143,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2524, col: 5, offset: 81176},
+									pos: position{line: 2524, col: 5, offset: 81230},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2524, col: 5, offset: 81176},
+										pos: position{line: 2524, col: 5, offset: 81230},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2524, col: 5, offset: 81176},
+												pos: position{line: 2524, col: 5, offset: 81230},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2527, col: 5, offset: 81252},
+												pos:   position{line: 2527, col: 5, offset: 81306},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2528, col: 9, offset: 81270},
+													pos: position{line: 2528, col: 9, offset: 81324},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2528, col: 10, offset: 81271},
+														pos:        position{line: 2528, col: 10, offset: 81325},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -20259,48 +20259,48 @@ var g = &grammar{
 							pos:   position{line: 1337, col: 15, offset: 42102},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2892, col: 13, offset: 91611},
+								pos: position{line: 2892, col: 13, offset: 91665},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2892, col: 13, offset: 91611},
+									pos: position{line: 2892, col: 13, offset: 91665},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2892, col: 13, offset: 91611},
+											pos:   position{line: 2892, col: 13, offset: 91665},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2892, col: 20, offset: 91618},
+												pos: position{line: 2892, col: 20, offset: 91672},
 												expr: &actionExpr{
-													pos: position{line: 2900, col: 11, offset: 91857},
+													pos: position{line: 2900, col: 11, offset: 91911},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2900, col: 12, offset: 91858},
+														pos: position{line: 2900, col: 12, offset: 91912},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2900, col: 12, offset: 91858},
+																pos:        position{line: 2900, col: 12, offset: 91912},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2900, col: 24, offset: 91870},
+																pos:        position{line: 2900, col: 24, offset: 91924},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2900, col: 37, offset: 91883},
+																pos:        position{line: 2900, col: 37, offset: 91937},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2900, col: 48, offset: 91894},
+																pos:        position{line: 2900, col: 48, offset: 91948},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2900, col: 59, offset: 91905},
+																pos:        position{line: 2900, col: 59, offset: 91959},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20311,38 +20311,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2892, col: 30, offset: 91628},
+											pos:   position{line: 2892, col: 30, offset: 91682},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2905, col: 5, offset: 91969},
+												pos: position{line: 2905, col: 5, offset: 92023},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2905, col: 5, offset: 91969},
+													pos:   position{line: 2905, col: 5, offset: 92023},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2905, col: 14, offset: 91978},
+														pos: position{line: 2905, col: 14, offset: 92032},
 														expr: &choiceExpr{
-															pos: position{line: 2906, col: 9, offset: 91988},
+															pos: position{line: 2906, col: 9, offset: 92042},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2906, col: 9, offset: 91988},
+																	pos: position{line: 2906, col: 9, offset: 92042},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2906, col: 9, offset: 91988},
+																		pos: position{line: 2906, col: 9, offset: 92042},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2906, col: 9, offset: 91988},
+																				pos: position{line: 2906, col: 9, offset: 92042},
 																				expr: &litMatcher{
-																					pos:        position{line: 2906, col: 10, offset: 91989},
+																					pos:        position{line: 2906, col: 10, offset: 92043},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2907, col: 9, offset: 92017},
+																				pos: position{line: 2907, col: 9, offset: 92071},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2907, col: 10, offset: 92018},
+																					pos:        position{line: 2907, col: 10, offset: 92072},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20353,27 +20353,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2910, col: 11, offset: 92230},
+																	pos: position{line: 2910, col: 11, offset: 92284},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2910, col: 11, offset: 92230},
+																			pos:        position{line: 2910, col: 11, offset: 92284},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2910, col: 19, offset: 92238},
+																			pos: position{line: 2910, col: 19, offset: 92292},
 																			expr: &seqExpr{
-																				pos: position{line: 2910, col: 21, offset: 92240},
+																				pos: position{line: 2910, col: 21, offset: 92294},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2910, col: 21, offset: 92240},
+																						pos: position{line: 2910, col: 21, offset: 92294},
 																						expr: &actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92852},
+																							pos: position{line: 2934, col: 10, offset: 92906},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92852},
+																								pos:        position{line: 2934, col: 10, offset: 92906},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20382,11 +20382,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2910, col: 28, offset: 92247},
+																						pos: position{line: 2910, col: 28, offset: 92301},
 																						expr: &notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93200},
+																							pos: position{line: 2953, col: 8, offset: 93254},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93201,
+																								line: 2953, col: 9, offset: 93255,
 																							},
 																						},
 																					},
@@ -20785,10 +20785,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2913, col: 11, offset: 92367},
+																	pos: position{line: 2913, col: 11, offset: 92421},
 																	run: (*parser).callonImageBlock115,
 																	expr: &litMatcher{
-																		pos:        position{line: 2913, col: 11, offset: 92367},
+																		pos:        position{line: 2913, col: 11, offset: 92421},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20815,10 +20815,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1337, col: 61, offset: 42148},
 							expr: &actionExpr{
-								pos: position{line: 2934, col: 10, offset: 92852},
+								pos: position{line: 2934, col: 10, offset: 92906},
 								run: (*parser).callonImageBlock120,
 								expr: &charClassMatcher{
-									pos:        position{line: 2934, col: 10, offset: 92852},
+									pos:        position{line: 2934, col: 10, offset: 92906},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20827,28 +20827,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2956, col: 8, offset: 93250},
+							pos: position{line: 2956, col: 8, offset: 93304},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2943, col: 12, offset: 93023},
+									pos: position{line: 2943, col: 12, offset: 93077},
 									run: (*parser).callonImageBlock123,
 									expr: &choiceExpr{
-										pos: position{line: 2943, col: 13, offset: 93024},
+										pos: position{line: 2943, col: 13, offset: 93078},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2943, col: 13, offset: 93024},
+												pos:        position{line: 2943, col: 13, offset: 93078},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 20, offset: 93031},
+												pos:        position{line: 2943, col: 20, offset: 93085},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 29, offset: 93040},
+												pos:        position{line: 2943, col: 29, offset: 93094},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20857,9 +20857,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2953, col: 8, offset: 93200},
+									pos: position{line: 2953, col: 8, offset: 93254},
 									expr: &anyMatcher{
-										line: 2953, col: 9, offset: 93201,
+										line: 2953, col: 9, offset: 93255,
 									},
 								},
 							},
@@ -20896,48 +20896,48 @@ var g = &grammar{
 							pos:   position{line: 1342, col: 30, offset: 42394},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2892, col: 13, offset: 91611},
+								pos: position{line: 2892, col: 13, offset: 91665},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2892, col: 13, offset: 91611},
+									pos: position{line: 2892, col: 13, offset: 91665},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2892, col: 13, offset: 91611},
+											pos:   position{line: 2892, col: 13, offset: 91665},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2892, col: 20, offset: 91618},
+												pos: position{line: 2892, col: 20, offset: 91672},
 												expr: &actionExpr{
-													pos: position{line: 2900, col: 11, offset: 91857},
+													pos: position{line: 2900, col: 11, offset: 91911},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2900, col: 12, offset: 91858},
+														pos: position{line: 2900, col: 12, offset: 91912},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2900, col: 12, offset: 91858},
+																pos:        position{line: 2900, col: 12, offset: 91912},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2900, col: 24, offset: 91870},
+																pos:        position{line: 2900, col: 24, offset: 91924},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2900, col: 37, offset: 91883},
+																pos:        position{line: 2900, col: 37, offset: 91937},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2900, col: 48, offset: 91894},
+																pos:        position{line: 2900, col: 48, offset: 91948},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2900, col: 59, offset: 91905},
+																pos:        position{line: 2900, col: 59, offset: 91959},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20948,38 +20948,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2892, col: 30, offset: 91628},
+											pos:   position{line: 2892, col: 30, offset: 91682},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2905, col: 5, offset: 91969},
+												pos: position{line: 2905, col: 5, offset: 92023},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2905, col: 5, offset: 91969},
+													pos:   position{line: 2905, col: 5, offset: 92023},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2905, col: 14, offset: 91978},
+														pos: position{line: 2905, col: 14, offset: 92032},
 														expr: &choiceExpr{
-															pos: position{line: 2906, col: 9, offset: 91988},
+															pos: position{line: 2906, col: 9, offset: 92042},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2906, col: 9, offset: 91988},
+																	pos: position{line: 2906, col: 9, offset: 92042},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2906, col: 9, offset: 91988},
+																		pos: position{line: 2906, col: 9, offset: 92042},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2906, col: 9, offset: 91988},
+																				pos: position{line: 2906, col: 9, offset: 92042},
 																				expr: &litMatcher{
-																					pos:        position{line: 2906, col: 10, offset: 91989},
+																					pos:        position{line: 2906, col: 10, offset: 92043},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2907, col: 9, offset: 92017},
+																				pos: position{line: 2907, col: 9, offset: 92071},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2907, col: 10, offset: 92018},
+																					pos:        position{line: 2907, col: 10, offset: 92072},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20990,27 +20990,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2910, col: 11, offset: 92230},
+																	pos: position{line: 2910, col: 11, offset: 92284},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2910, col: 11, offset: 92230},
+																			pos:        position{line: 2910, col: 11, offset: 92284},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2910, col: 19, offset: 92238},
+																			pos: position{line: 2910, col: 19, offset: 92292},
 																			expr: &seqExpr{
-																				pos: position{line: 2910, col: 21, offset: 92240},
+																				pos: position{line: 2910, col: 21, offset: 92294},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2910, col: 21, offset: 92240},
+																						pos: position{line: 2910, col: 21, offset: 92294},
 																						expr: &actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92852},
+																							pos: position{line: 2934, col: 10, offset: 92906},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92852},
+																								pos:        position{line: 2934, col: 10, offset: 92906},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -21019,11 +21019,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2910, col: 28, offset: 92247},
+																						pos: position{line: 2910, col: 28, offset: 92301},
 																						expr: &notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93200},
+																							pos: position{line: 2953, col: 8, offset: 93254},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93201,
+																								line: 2953, col: 9, offset: 93255,
 																							},
 																						},
 																					},
@@ -21422,10 +21422,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2913, col: 11, offset: 92367},
+																	pos: position{line: 2913, col: 11, offset: 92421},
 																	run: (*parser).callonInlineImage117,
 																	expr: &litMatcher{
-																		pos:        position{line: 2913, col: 11, offset: 92367},
+																		pos:        position{line: 2913, col: 11, offset: 92421},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21520,12 +21520,12 @@ var g = &grammar{
 							expr: &zeroOrOneExpr{
 								pos: position{line: 1356, col: 35, offset: 43302},
 								expr: &actionExpr{
-									pos: position{line: 2828, col: 14, offset: 90021},
+									pos: position{line: 2828, col: 14, offset: 90075},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2828, col: 14, offset: 90021},
+										pos: position{line: 2828, col: 14, offset: 90075},
 										expr: &charClassMatcher{
-											pos:        position{line: 2828, col: 14, offset: 90021},
+											pos:        position{line: 2828, col: 14, offset: 90075},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -21612,21 +21612,21 @@ var g = &grammar{
 								pos: position{line: 1374, col: 9, offset: 43796},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2833, col: 5, offset: 90094},
+										pos: position{line: 2833, col: 5, offset: 90148},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2833, col: 5, offset: 90094},
+											pos: position{line: 2833, col: 5, offset: 90148},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2833, col: 5, offset: 90094},
+													pos:   position{line: 2833, col: 5, offset: 90148},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2833, col: 11, offset: 90100},
+														pos: position{line: 2833, col: 11, offset: 90154},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2833, col: 11, offset: 90100},
+															pos: position{line: 2833, col: 11, offset: 90154},
 															expr: &charClassMatcher{
-																pos:        position{line: 2833, col: 11, offset: 90100},
+																pos:        position{line: 2833, col: 11, offset: 90154},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21636,36 +21636,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2836, col: 5, offset: 90158},
+													pos: position{line: 2836, col: 5, offset: 90212},
 													expr: &seqExpr{
-														pos: position{line: 2837, col: 9, offset: 90169},
+														pos: position{line: 2837, col: 9, offset: 90223},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2837, col: 9, offset: 90169},
+																pos:        position{line: 2837, col: 9, offset: 90223},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2838, col: 9, offset: 90218},
+																pos: position{line: 2838, col: 9, offset: 90272},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2842, col: 5, offset: 90298},
+													pos: position{line: 2842, col: 5, offset: 90352},
 													expr: &seqExpr{
-														pos: position{line: 2843, col: 9, offset: 90309},
+														pos: position{line: 2843, col: 9, offset: 90363},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2843, col: 9, offset: 90309},
+																pos:        position{line: 2843, col: 9, offset: 90363},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2843, col: 13, offset: 90313},
+																pos:        position{line: 2843, col: 13, offset: 90367},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21678,12 +21678,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2938, col: 11, offset: 92913},
+										pos: position{line: 2938, col: 11, offset: 92967},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2938, col: 11, offset: 92913},
+											pos: position{line: 2938, col: 11, offset: 92967},
 											expr: &charClassMatcher{
-												pos:        position{line: 2938, col: 11, offset: 92913},
+												pos:        position{line: 2938, col: 11, offset: 92967},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21692,21 +21692,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2555, col: 5, offset: 82375},
+										pos: position{line: 2555, col: 5, offset: 82429},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2555, col: 5, offset: 82375},
+											pos: position{line: 2555, col: 5, offset: 82429},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2555, col: 5, offset: 82375},
+													pos:        position{line: 2555, col: 5, offset: 82429},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2555, col: 10, offset: 82380},
+													pos: position{line: 2555, col: 10, offset: 82434},
 													expr: &charClassMatcher{
-														pos:        position{line: 2555, col: 11, offset: 82381},
+														pos:        position{line: 2555, col: 11, offset: 82435},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21717,29 +21717,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2561, col: 5, offset: 82573},
+										pos: position{line: 2561, col: 5, offset: 82627},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2561, col: 5, offset: 82573},
+											pos: position{line: 2561, col: 5, offset: 82627},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2561, col: 5, offset: 82573},
+													pos: position{line: 2561, col: 5, offset: 82627},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2564, col: 5, offset: 82644},
+													pos: position{line: 2564, col: 5, offset: 82698},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2568, col: 5, offset: 82769},
+													pos:        position{line: 2568, col: 5, offset: 82823},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2568, col: 9, offset: 82773},
+													pos: position{line: 2568, col: 9, offset: 82827},
 													expr: &charClassMatcher{
-														pos:        position{line: 2568, col: 10, offset: 82774},
+														pos:        position{line: 2568, col: 10, offset: 82828},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21758,27 +21758,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2851, col: 5, offset: 90506},
+										pos: position{line: 2851, col: 5, offset: 90560},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2852, col: 9, offset: 90516},
+											pos: position{line: 2852, col: 9, offset: 90570},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2852, col: 10, offset: 90517},
+													pos:        position{line: 2852, col: 10, offset: 90571},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2854, col: 13, offset: 90614},
+													pos: position{line: 2854, col: 13, offset: 90668},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2854, col: 13, offset: 90614},
+															pos: position{line: 2854, col: 13, offset: 90668},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2857, col: 13, offset: 90714},
+															pos:        position{line: 2857, col: 13, offset: 90768},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21786,20 +21786,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2857, col: 19, offset: 90720},
+													pos:        position{line: 2857, col: 19, offset: 90774},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2860, col: 13, offset: 90758},
+													pos: position{line: 2860, col: 13, offset: 90812},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2860, col: 13, offset: 90758},
+															pos: position{line: 2860, col: 13, offset: 90812},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2863, col: 14, offset: 90851},
+															pos:        position{line: 2863, col: 14, offset: 90905},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21808,18 +21808,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2865, col: 12, offset: 90895},
+													pos: position{line: 2865, col: 12, offset: 90949},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2865, col: 12, offset: 90895},
+															pos:        position{line: 2865, col: 12, offset: 90949},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2865, col: 16, offset: 90899},
+															pos: position{line: 2865, col: 16, offset: 90953},
 															expr: &litMatcher{
-																pos:        position{line: 2865, col: 17, offset: 90900},
+																pos:        position{line: 2865, col: 17, offset: 90954},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21857,10 +21857,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1239, col: 5, offset: 38724},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92852},
+														pos: position{line: 2934, col: 10, offset: 92906},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92852},
+															pos:        position{line: 2934, col: 10, offset: 92906},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21871,28 +21871,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1239, col: 12, offset: 38731},
 													expr: &choiceExpr{
-														pos: position{line: 2956, col: 8, offset: 93250},
+														pos: position{line: 2956, col: 8, offset: 93304},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93023},
+																pos: position{line: 2943, col: 12, offset: 93077},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93024},
+																	pos: position{line: 2943, col: 13, offset: 93078},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93024},
+																			pos:        position{line: 2943, col: 13, offset: 93078},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93031},
+																			pos:        position{line: 2943, col: 20, offset: 93085},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93040},
+																			pos:        position{line: 2943, col: 29, offset: 93094},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21901,9 +21901,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93200},
+																pos: position{line: 2953, col: 8, offset: 93254},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93201,
+																	line: 2953, col: 9, offset: 93255,
 																},
 															},
 														},
@@ -22259,23 +22259,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2524, col: 5, offset: 81176},
+										pos: position{line: 2524, col: 5, offset: 81230},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2524, col: 5, offset: 81176},
+											pos: position{line: 2524, col: 5, offset: 81230},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2524, col: 5, offset: 81176},
+													pos: position{line: 2524, col: 5, offset: 81230},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2527, col: 5, offset: 81252},
+													pos:   position{line: 2527, col: 5, offset: 81306},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2528, col: 9, offset: 81270},
+														pos: position{line: 2528, col: 9, offset: 81324},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2528, col: 10, offset: 81271},
+															pos:        position{line: 2528, col: 10, offset: 81325},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -22287,25 +22287,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2943, col: 12, offset: 93023},
+										pos: position{line: 2943, col: 12, offset: 93077},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2943, col: 13, offset: 93024},
+											pos: position{line: 2943, col: 13, offset: 93078},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2943, col: 13, offset: 93024},
+													pos:        position{line: 2943, col: 13, offset: 93078},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2943, col: 20, offset: 93031},
+													pos:        position{line: 2943, col: 20, offset: 93085},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2943, col: 29, offset: 93040},
+													pos:        position{line: 2943, col: 29, offset: 93094},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -22314,10 +22314,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2873, col: 12, offset: 91160},
+										pos: position{line: 2873, col: 12, offset: 91214},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2873, col: 12, offset: 91160},
+											pos:        position{line: 2873, col: 12, offset: 91214},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -22449,55 +22449,55 @@ var g = &grammar{
 									pos:   position{line: 1436, col: 5, offset: 46492},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2896, col: 23, offset: 91738},
+										pos: position{line: 2896, col: 23, offset: 91792},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2896, col: 23, offset: 91738},
+											pos: position{line: 2896, col: 23, offset: 91792},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2896, col: 23, offset: 91738},
+													pos: position{line: 2896, col: 23, offset: 91792},
 													expr: &litMatcher{
-														pos:        position{line: 2896, col: 24, offset: 91739},
+														pos:        position{line: 2896, col: 24, offset: 91793},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2896, col: 28, offset: 91743},
+													pos:   position{line: 2896, col: 28, offset: 91797},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2900, col: 11, offset: 91857},
+														pos: position{line: 2900, col: 11, offset: 91911},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2900, col: 12, offset: 91858},
+															pos: position{line: 2900, col: 12, offset: 91912},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2900, col: 12, offset: 91858},
+																	pos:        position{line: 2900, col: 12, offset: 91912},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2900, col: 24, offset: 91870},
+																	pos:        position{line: 2900, col: 24, offset: 91924},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2900, col: 37, offset: 91883},
+																	pos:        position{line: 2900, col: 37, offset: 91937},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2900, col: 48, offset: 91894},
+																	pos:        position{line: 2900, col: 48, offset: 91948},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2900, col: 59, offset: 91905},
+																	pos:        position{line: 2900, col: 59, offset: 91959},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -22507,38 +22507,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2896, col: 44, offset: 91759},
+													pos:   position{line: 2896, col: 44, offset: 91813},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 5, offset: 91969},
+														pos: position{line: 2905, col: 5, offset: 92023},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2905, col: 5, offset: 91969},
+															pos:   position{line: 2905, col: 5, offset: 92023},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2905, col: 14, offset: 91978},
+																pos: position{line: 2905, col: 14, offset: 92032},
 																expr: &choiceExpr{
-																	pos: position{line: 2906, col: 9, offset: 91988},
+																	pos: position{line: 2906, col: 9, offset: 92042},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2906, col: 9, offset: 91988},
+																			pos: position{line: 2906, col: 9, offset: 92042},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2906, col: 9, offset: 91988},
+																				pos: position{line: 2906, col: 9, offset: 92042},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2906, col: 9, offset: 91988},
+																						pos: position{line: 2906, col: 9, offset: 92042},
 																						expr: &litMatcher{
-																							pos:        position{line: 2906, col: 10, offset: 91989},
+																							pos:        position{line: 2906, col: 10, offset: 92043},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2907, col: 9, offset: 92017},
+																						pos: position{line: 2907, col: 9, offset: 92071},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2907, col: 10, offset: 92018},
+																							pos:        position{line: 2907, col: 10, offset: 92072},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22549,27 +22549,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2910, col: 11, offset: 92230},
+																			pos: position{line: 2910, col: 11, offset: 92284},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2910, col: 11, offset: 92230},
+																					pos:        position{line: 2910, col: 11, offset: 92284},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2910, col: 19, offset: 92238},
+																					pos: position{line: 2910, col: 19, offset: 92292},
 																					expr: &seqExpr{
-																						pos: position{line: 2910, col: 21, offset: 92240},
+																						pos: position{line: 2910, col: 21, offset: 92294},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2910, col: 21, offset: 92240},
+																								pos: position{line: 2910, col: 21, offset: 92294},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92852},
+																									pos: position{line: 2934, col: 10, offset: 92906},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92852},
+																										pos:        position{line: 2934, col: 10, offset: 92906},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22578,11 +22578,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2910, col: 28, offset: 92247},
+																								pos: position{line: 2910, col: 28, offset: 92301},
 																								expr: &notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -22981,10 +22981,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2913, col: 11, offset: 92367},
+																			pos: position{line: 2913, col: 11, offset: 92421},
 																			run: (*parser).callonLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2913, col: 11, offset: 92367},
+																				pos:        position{line: 2913, col: 11, offset: 92421},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23040,21 +23040,57 @@ var g = &grammar{
 														run: (*parser).callonLink128,
 														expr: &oneOrMoreExpr{
 															pos: position{line: 1475, col: 12, offset: 47876},
-															expr: &charClassMatcher{
-																pos:        position{line: 1475, col: 12, offset: 47876},
-																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
-																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
-																ranges:     []rune{'+', '/'},
-																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																ignoreCase: false,
-																inverted:   false,
+															expr: &seqExpr{
+																pos: position{line: 1475, col: 13, offset: 47877},
+																exprs: []interface{}{
+																	&notExpr{
+																		pos: position{line: 1475, col: 13, offset: 47877},
+																		expr: &seqExpr{
+																			pos: position{line: 1475, col: 15, offset: 47879},
+																			exprs: []interface{}{
+																				&litMatcher{
+																					pos:        position{line: 1475, col: 15, offset: 47879},
+																					val:        "{",
+																					ignoreCase: false,
+																					want:       "\"{\"",
+																				},
+																				&oneOrMoreExpr{
+																					pos: position{line: 1475, col: 19, offset: 47883},
+																					expr: &charClassMatcher{
+																						pos:        position{line: 1475, col: 19, offset: 47883},
+																						val:        "[_-\\pL\\pN]",
+																						chars:      []rune{'_', '-'},
+																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																						ignoreCase: false,
+																						inverted:   false,
+																					},
+																				},
+																				&litMatcher{
+																					pos:        position{line: 1475, col: 31, offset: 47895},
+																					val:        "}",
+																					ignoreCase: false,
+																					want:       "\"}\"",
+																				},
+																			},
+																		},
+																	},
+																	&charClassMatcher{
+																		pos:        position{line: 1475, col: 36, offset: 47900},
+																		val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
+																		chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
+																		ranges:     []rune{'+', '/'},
+																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																		ignoreCase: false,
+																		inverted:   false,
+																	},
+																},
 															},
 														},
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1478, col: 5, offset: 47960},
-													run: (*parser).callonLink131,
+													pos: position{line: 1478, col: 5, offset: 48014},
+													run: (*parser).callonLink138,
 												},
 											},
 										},
@@ -23070,24 +23106,24 @@ var g = &grammar{
 									pos:   position{line: 1470, col: 47, offset: 47734},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1487, col: 23, offset: 48254},
-										run: (*parser).callonLink134,
+										pos: position{line: 1487, col: 23, offset: 48308},
+										run: (*parser).callonLink141,
 										expr: &seqExpr{
-											pos: position{line: 1487, col: 23, offset: 48254},
+											pos: position{line: 1487, col: 23, offset: 48308},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1487, col: 23, offset: 48254},
+													pos:   position{line: 1487, col: 23, offset: 48308},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1487, col: 31, offset: 48262},
-														run: (*parser).callonLink137,
+														pos: position{line: 1487, col: 31, offset: 48316},
+														run: (*parser).callonLink144,
 														expr: &seqExpr{
-															pos: position{line: 1487, col: 31, offset: 48262},
+															pos: position{line: 1487, col: 31, offset: 48316},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1487, col: 31, offset: 48262},
+																	pos: position{line: 1487, col: 31, offset: 48316},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1487, col: 31, offset: 48262},
+																		pos:        position{line: 1487, col: 31, offset: 48316},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -23095,20 +23131,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1487, col: 41, offset: 48272},
+																	pos: position{line: 1487, col: 41, offset: 48326},
 																	expr: &seqExpr{
-																		pos: position{line: 1487, col: 42, offset: 48273},
+																		pos: position{line: 1487, col: 42, offset: 48327},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1487, col: 42, offset: 48273},
+																				pos:        position{line: 1487, col: 42, offset: 48327},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1487, col: 46, offset: 48277},
+																				pos: position{line: 1487, col: 46, offset: 48331},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1487, col: 46, offset: 48277},
+																					pos:        position{line: 1487, col: 46, offset: 48331},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23124,8 +23160,8 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1490, col: 5, offset: 48338},
-													run: (*parser).callonLink146,
+													pos: position{line: 1490, col: 5, offset: 48392},
+													run: (*parser).callonLink153,
 												},
 											},
 										},
@@ -23159,48 +23195,48 @@ var g = &grammar{
 									pos:   position{line: 1449, col: 17, offset: 46907},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2892, col: 13, offset: 91611},
+										pos: position{line: 2892, col: 13, offset: 91665},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2892, col: 13, offset: 91611},
+											pos: position{line: 2892, col: 13, offset: 91665},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2892, col: 13, offset: 91611},
+													pos:   position{line: 2892, col: 13, offset: 91665},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2892, col: 20, offset: 91618},
+														pos: position{line: 2892, col: 20, offset: 91672},
 														expr: &actionExpr{
-															pos: position{line: 2900, col: 11, offset: 91857},
+															pos: position{line: 2900, col: 11, offset: 91911},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2900, col: 12, offset: 91858},
+																pos: position{line: 2900, col: 12, offset: 91912},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2900, col: 12, offset: 91858},
+																		pos:        position{line: 2900, col: 12, offset: 91912},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2900, col: 24, offset: 91870},
+																		pos:        position{line: 2900, col: 24, offset: 91924},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2900, col: 37, offset: 91883},
+																		pos:        position{line: 2900, col: 37, offset: 91937},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2900, col: 48, offset: 91894},
+																		pos:        position{line: 2900, col: 48, offset: 91948},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2900, col: 59, offset: 91905},
+																		pos:        position{line: 2900, col: 59, offset: 91959},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23211,38 +23247,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2892, col: 30, offset: 91628},
+													pos:   position{line: 2892, col: 30, offset: 91682},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 5, offset: 91969},
+														pos: position{line: 2905, col: 5, offset: 92023},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2905, col: 5, offset: 91969},
+															pos:   position{line: 2905, col: 5, offset: 92023},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2905, col: 14, offset: 91978},
+																pos: position{line: 2905, col: 14, offset: 92032},
 																expr: &choiceExpr{
-																	pos: position{line: 2906, col: 9, offset: 91988},
+																	pos: position{line: 2906, col: 9, offset: 92042},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2906, col: 9, offset: 91988},
+																			pos: position{line: 2906, col: 9, offset: 92042},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2906, col: 9, offset: 91988},
+																				pos: position{line: 2906, col: 9, offset: 92042},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2906, col: 9, offset: 91988},
+																						pos: position{line: 2906, col: 9, offset: 92042},
 																						expr: &litMatcher{
-																							pos:        position{line: 2906, col: 10, offset: 91989},
+																							pos:        position{line: 2906, col: 10, offset: 92043},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2907, col: 9, offset: 92017},
+																						pos: position{line: 2907, col: 9, offset: 92071},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2907, col: 10, offset: 92018},
+																							pos:        position{line: 2907, col: 10, offset: 92072},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23253,27 +23289,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2910, col: 11, offset: 92230},
+																			pos: position{line: 2910, col: 11, offset: 92284},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2910, col: 11, offset: 92230},
+																					pos:        position{line: 2910, col: 11, offset: 92284},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2910, col: 19, offset: 92238},
+																					pos: position{line: 2910, col: 19, offset: 92292},
 																					expr: &seqExpr{
-																						pos: position{line: 2910, col: 21, offset: 92240},
+																						pos: position{line: 2910, col: 21, offset: 92294},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2910, col: 21, offset: 92240},
+																								pos: position{line: 2910, col: 21, offset: 92294},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92852},
+																									pos: position{line: 2934, col: 10, offset: 92906},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92852},
+																										pos:        position{line: 2934, col: 10, offset: 92906},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23282,11 +23318,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2910, col: 28, offset: 92247},
+																								pos: position{line: 2910, col: 28, offset: 92301},
 																								expr: &notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -23685,10 +23721,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2913, col: 11, offset: 92367},
+																			pos: position{line: 2913, col: 11, offset: 92421},
 																			run: (*parser).callonRelativeLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2913, col: 11, offset: 92367},
+																				pos:        position{line: 2913, col: 11, offset: 92421},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23731,48 +23767,48 @@ var g = &grammar{
 									pos:   position{line: 1454, col: 13, offset: 47074},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2892, col: 13, offset: 91611},
+										pos: position{line: 2892, col: 13, offset: 91665},
 										run: (*parser).callonRelativeLink124,
 										expr: &seqExpr{
-											pos: position{line: 2892, col: 13, offset: 91611},
+											pos: position{line: 2892, col: 13, offset: 91665},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2892, col: 13, offset: 91611},
+													pos:   position{line: 2892, col: 13, offset: 91665},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2892, col: 20, offset: 91618},
+														pos: position{line: 2892, col: 20, offset: 91672},
 														expr: &actionExpr{
-															pos: position{line: 2900, col: 11, offset: 91857},
+															pos: position{line: 2900, col: 11, offset: 91911},
 															run: (*parser).callonRelativeLink128,
 															expr: &choiceExpr{
-																pos: position{line: 2900, col: 12, offset: 91858},
+																pos: position{line: 2900, col: 12, offset: 91912},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2900, col: 12, offset: 91858},
+																		pos:        position{line: 2900, col: 12, offset: 91912},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2900, col: 24, offset: 91870},
+																		pos:        position{line: 2900, col: 24, offset: 91924},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2900, col: 37, offset: 91883},
+																		pos:        position{line: 2900, col: 37, offset: 91937},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2900, col: 48, offset: 91894},
+																		pos:        position{line: 2900, col: 48, offset: 91948},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2900, col: 59, offset: 91905},
+																		pos:        position{line: 2900, col: 59, offset: 91959},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23783,38 +23819,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2892, col: 30, offset: 91628},
+													pos:   position{line: 2892, col: 30, offset: 91682},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 5, offset: 91969},
+														pos: position{line: 2905, col: 5, offset: 92023},
 														run: (*parser).callonRelativeLink136,
 														expr: &labeledExpr{
-															pos:   position{line: 2905, col: 5, offset: 91969},
+															pos:   position{line: 2905, col: 5, offset: 92023},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2905, col: 14, offset: 91978},
+																pos: position{line: 2905, col: 14, offset: 92032},
 																expr: &choiceExpr{
-																	pos: position{line: 2906, col: 9, offset: 91988},
+																	pos: position{line: 2906, col: 9, offset: 92042},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2906, col: 9, offset: 91988},
+																			pos: position{line: 2906, col: 9, offset: 92042},
 																			run: (*parser).callonRelativeLink140,
 																			expr: &seqExpr{
-																				pos: position{line: 2906, col: 9, offset: 91988},
+																				pos: position{line: 2906, col: 9, offset: 92042},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2906, col: 9, offset: 91988},
+																						pos: position{line: 2906, col: 9, offset: 92042},
 																						expr: &litMatcher{
-																							pos:        position{line: 2906, col: 10, offset: 91989},
+																							pos:        position{line: 2906, col: 10, offset: 92043},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2907, col: 9, offset: 92017},
+																						pos: position{line: 2907, col: 9, offset: 92071},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2907, col: 10, offset: 92018},
+																							pos:        position{line: 2907, col: 10, offset: 92072},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23825,27 +23861,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2910, col: 11, offset: 92230},
+																			pos: position{line: 2910, col: 11, offset: 92284},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2910, col: 11, offset: 92230},
+																					pos:        position{line: 2910, col: 11, offset: 92284},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2910, col: 19, offset: 92238},
+																					pos: position{line: 2910, col: 19, offset: 92292},
 																					expr: &seqExpr{
-																						pos: position{line: 2910, col: 21, offset: 92240},
+																						pos: position{line: 2910, col: 21, offset: 92294},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2910, col: 21, offset: 92240},
+																								pos: position{line: 2910, col: 21, offset: 92294},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92852},
+																									pos: position{line: 2934, col: 10, offset: 92906},
 																									run: (*parser).callonRelativeLink151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92852},
+																										pos:        position{line: 2934, col: 10, offset: 92906},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23854,11 +23890,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2910, col: 28, offset: 92247},
+																								pos: position{line: 2910, col: 28, offset: 92301},
 																								expr: &notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -24257,10 +24293,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2913, col: 11, offset: 92367},
+																			pos: position{line: 2913, col: 11, offset: 92421},
 																			run: (*parser).callonRelativeLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2913, col: 11, offset: 92367},
+																				pos:        position{line: 2913, col: 11, offset: 92421},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24312,55 +24348,55 @@ var g = &grammar{
 									pos:   position{line: 1461, col: 9, offset: 47383},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2896, col: 23, offset: 91738},
+										pos: position{line: 2896, col: 23, offset: 91792},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2896, col: 23, offset: 91738},
+											pos: position{line: 2896, col: 23, offset: 91792},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2896, col: 23, offset: 91738},
+													pos: position{line: 2896, col: 23, offset: 91792},
 													expr: &litMatcher{
-														pos:        position{line: 2896, col: 24, offset: 91739},
+														pos:        position{line: 2896, col: 24, offset: 91793},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2896, col: 28, offset: 91743},
+													pos:   position{line: 2896, col: 28, offset: 91797},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2900, col: 11, offset: 91857},
+														pos: position{line: 2900, col: 11, offset: 91911},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2900, col: 12, offset: 91858},
+															pos: position{line: 2900, col: 12, offset: 91912},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2900, col: 12, offset: 91858},
+																	pos:        position{line: 2900, col: 12, offset: 91912},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2900, col: 24, offset: 91870},
+																	pos:        position{line: 2900, col: 24, offset: 91924},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2900, col: 37, offset: 91883},
+																	pos:        position{line: 2900, col: 37, offset: 91937},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2900, col: 48, offset: 91894},
+																	pos:        position{line: 2900, col: 48, offset: 91948},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2900, col: 59, offset: 91905},
+																	pos:        position{line: 2900, col: 59, offset: 91959},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24370,38 +24406,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2896, col: 44, offset: 91759},
+													pos:   position{line: 2896, col: 44, offset: 91813},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 5, offset: 91969},
+														pos: position{line: 2905, col: 5, offset: 92023},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2905, col: 5, offset: 91969},
+															pos:   position{line: 2905, col: 5, offset: 92023},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2905, col: 14, offset: 91978},
+																pos: position{line: 2905, col: 14, offset: 92032},
 																expr: &choiceExpr{
-																	pos: position{line: 2906, col: 9, offset: 91988},
+																	pos: position{line: 2906, col: 9, offset: 92042},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2906, col: 9, offset: 91988},
+																			pos: position{line: 2906, col: 9, offset: 92042},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2906, col: 9, offset: 91988},
+																				pos: position{line: 2906, col: 9, offset: 92042},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2906, col: 9, offset: 91988},
+																						pos: position{line: 2906, col: 9, offset: 92042},
 																						expr: &litMatcher{
-																							pos:        position{line: 2906, col: 10, offset: 91989},
+																							pos:        position{line: 2906, col: 10, offset: 92043},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2907, col: 9, offset: 92017},
+																						pos: position{line: 2907, col: 9, offset: 92071},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2907, col: 10, offset: 92018},
+																							pos:        position{line: 2907, col: 10, offset: 92072},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24412,27 +24448,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2910, col: 11, offset: 92230},
+																			pos: position{line: 2910, col: 11, offset: 92284},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2910, col: 11, offset: 92230},
+																					pos:        position{line: 2910, col: 11, offset: 92284},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2910, col: 19, offset: 92238},
+																					pos: position{line: 2910, col: 19, offset: 92292},
 																					expr: &seqExpr{
-																						pos: position{line: 2910, col: 21, offset: 92240},
+																						pos: position{line: 2910, col: 21, offset: 92294},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2910, col: 21, offset: 92240},
+																								pos: position{line: 2910, col: 21, offset: 92294},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92852},
+																									pos: position{line: 2934, col: 10, offset: 92906},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92852},
+																										pos:        position{line: 2934, col: 10, offset: 92906},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24441,11 +24477,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2910, col: 28, offset: 92247},
+																								pos: position{line: 2910, col: 28, offset: 92301},
 																								expr: &notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -24844,10 +24880,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2913, col: 11, offset: 92367},
+																			pos: position{line: 2913, col: 11, offset: 92421},
 																			run: (*parser).callonExternalLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2913, col: 11, offset: 92367},
+																				pos:        position{line: 2913, col: 11, offset: 92421},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24887,55 +24923,55 @@ var g = &grammar{
 									pos:   position{line: 1466, col: 5, offset: 47553},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2896, col: 23, offset: 91738},
+										pos: position{line: 2896, col: 23, offset: 91792},
 										run: (*parser).callonExternalLink125,
 										expr: &seqExpr{
-											pos: position{line: 2896, col: 23, offset: 91738},
+											pos: position{line: 2896, col: 23, offset: 91792},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2896, col: 23, offset: 91738},
+													pos: position{line: 2896, col: 23, offset: 91792},
 													expr: &litMatcher{
-														pos:        position{line: 2896, col: 24, offset: 91739},
+														pos:        position{line: 2896, col: 24, offset: 91793},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2896, col: 28, offset: 91743},
+													pos:   position{line: 2896, col: 28, offset: 91797},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2900, col: 11, offset: 91857},
+														pos: position{line: 2900, col: 11, offset: 91911},
 														run: (*parser).callonExternalLink130,
 														expr: &choiceExpr{
-															pos: position{line: 2900, col: 12, offset: 91858},
+															pos: position{line: 2900, col: 12, offset: 91912},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2900, col: 12, offset: 91858},
+																	pos:        position{line: 2900, col: 12, offset: 91912},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2900, col: 24, offset: 91870},
+																	pos:        position{line: 2900, col: 24, offset: 91924},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2900, col: 37, offset: 91883},
+																	pos:        position{line: 2900, col: 37, offset: 91937},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2900, col: 48, offset: 91894},
+																	pos:        position{line: 2900, col: 48, offset: 91948},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2900, col: 59, offset: 91905},
+																	pos:        position{line: 2900, col: 59, offset: 91959},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24945,38 +24981,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2896, col: 44, offset: 91759},
+													pos:   position{line: 2896, col: 44, offset: 91813},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 5, offset: 91969},
+														pos: position{line: 2905, col: 5, offset: 92023},
 														run: (*parser).callonExternalLink138,
 														expr: &labeledExpr{
-															pos:   position{line: 2905, col: 5, offset: 91969},
+															pos:   position{line: 2905, col: 5, offset: 92023},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2905, col: 14, offset: 91978},
+																pos: position{line: 2905, col: 14, offset: 92032},
 																expr: &choiceExpr{
-																	pos: position{line: 2906, col: 9, offset: 91988},
+																	pos: position{line: 2906, col: 9, offset: 92042},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2906, col: 9, offset: 91988},
+																			pos: position{line: 2906, col: 9, offset: 92042},
 																			run: (*parser).callonExternalLink142,
 																			expr: &seqExpr{
-																				pos: position{line: 2906, col: 9, offset: 91988},
+																				pos: position{line: 2906, col: 9, offset: 92042},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2906, col: 9, offset: 91988},
+																						pos: position{line: 2906, col: 9, offset: 92042},
 																						expr: &litMatcher{
-																							pos:        position{line: 2906, col: 10, offset: 91989},
+																							pos:        position{line: 2906, col: 10, offset: 92043},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2907, col: 9, offset: 92017},
+																						pos: position{line: 2907, col: 9, offset: 92071},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2907, col: 10, offset: 92018},
+																							pos:        position{line: 2907, col: 10, offset: 92072},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24987,27 +25023,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2910, col: 11, offset: 92230},
+																			pos: position{line: 2910, col: 11, offset: 92284},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2910, col: 11, offset: 92230},
+																					pos:        position{line: 2910, col: 11, offset: 92284},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2910, col: 19, offset: 92238},
+																					pos: position{line: 2910, col: 19, offset: 92292},
 																					expr: &seqExpr{
-																						pos: position{line: 2910, col: 21, offset: 92240},
+																						pos: position{line: 2910, col: 21, offset: 92294},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2910, col: 21, offset: 92240},
+																								pos: position{line: 2910, col: 21, offset: 92294},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92852},
+																									pos: position{line: 2934, col: 10, offset: 92906},
 																									run: (*parser).callonExternalLink153,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92852},
+																										pos:        position{line: 2934, col: 10, offset: 92906},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -25016,11 +25052,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2910, col: 28, offset: 92247},
+																								pos: position{line: 2910, col: 28, offset: 92301},
 																								expr: &notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -25419,10 +25455,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2913, col: 11, offset: 92367},
+																			pos: position{line: 2913, col: 11, offset: 92421},
 																			run: (*parser).callonExternalLink236,
 																			expr: &litMatcher{
-																				pos:        position{line: 2913, col: 11, offset: 92367},
+																				pos:        position{line: 2913, col: 11, offset: 92421},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25457,41 +25493,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1500, col: 1, offset: 48731},
+			pos:  position{line: 1500, col: 1, offset: 48785},
 			expr: &actionExpr{
-				pos: position{line: 1501, col: 5, offset: 48752},
+				pos: position{line: 1501, col: 5, offset: 48806},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1501, col: 5, offset: 48752},
+					pos: position{line: 1501, col: 5, offset: 48806},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1501, col: 5, offset: 48752},
+							pos:   position{line: 1501, col: 5, offset: 48806},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1507, col: 5, offset: 48954},
+								pos: position{line: 1507, col: 5, offset: 49008},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1601, col: 5, offset: 51922},
+										pos: position{line: 1601, col: 5, offset: 51976},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1601, col: 5, offset: 51922},
+											pos: position{line: 1601, col: 5, offset: 51976},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1601, col: 5, offset: 51922},
+													pos:   position{line: 1601, col: 5, offset: 51976},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1608, col: 5, offset: 52130},
+														pos: position{line: 1608, col: 5, offset: 52184},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1608, col: 5, offset: 52130},
+															pos: position{line: 1608, col: 5, offset: 52184},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1608, col: 5, offset: 52130},
+																	pos: position{line: 1608, col: 5, offset: 52184},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92852},
+																		pos: position{line: 2934, col: 10, offset: 92906},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92852},
+																			pos:        position{line: 2934, col: 10, offset: 92906},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25500,27 +25536,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1608, col: 12, offset: 52137},
+																	pos:   position{line: 1608, col: 12, offset: 52191},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1610, col: 9, offset: 52200},
+																		pos: position{line: 1610, col: 9, offset: 52254},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1610, col: 9, offset: 52200},
+																				pos: position{line: 1610, col: 9, offset: 52254},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 9, offset: 52200},
+																					pos: position{line: 1610, col: 9, offset: 52254},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1610, col: 9, offset: 52200},
+																							pos:   position{line: 1610, col: 9, offset: 52254},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1610, col: 16, offset: 52207},
+																								pos: position{line: 1610, col: 16, offset: 52261},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1610, col: 16, offset: 52207},
+																									pos: position{line: 1610, col: 16, offset: 52261},
 																									expr: &litMatcher{
-																										pos:        position{line: 1610, col: 17, offset: 52208},
+																										pos:        position{line: 1610, col: 17, offset: 52262},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -25529,22 +25565,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1614, col: 9, offset: 52308},
+																							pos: position{line: 1614, col: 9, offset: 52362},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1633, col: 11, offset: 53025},
+																				pos: position{line: 1633, col: 11, offset: 53079},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1633, col: 11, offset: 53025},
+																					pos: position{line: 1633, col: 11, offset: 53079},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1633, col: 11, offset: 53025},
+																							pos: position{line: 1633, col: 11, offset: 53079},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1633, col: 12, offset: 53026},
+																								pos:        position{line: 1633, col: 12, offset: 53080},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -25552,7 +25588,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1633, col: 20, offset: 53034},
+																							pos:        position{line: 1633, col: 20, offset: 53088},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25561,20 +25597,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1635, col: 13, offset: 53151},
+																				pos: position{line: 1635, col: 13, offset: 53205},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1635, col: 13, offset: 53151},
+																					pos: position{line: 1635, col: 13, offset: 53205},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1635, col: 14, offset: 53152},
+																							pos:        position{line: 1635, col: 14, offset: 53206},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1635, col: 21, offset: 53159},
+																							pos:        position{line: 1635, col: 21, offset: 53213},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25583,20 +25619,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1637, col: 13, offset: 53279},
+																				pos: position{line: 1637, col: 13, offset: 53333},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1637, col: 13, offset: 53279},
+																					pos: position{line: 1637, col: 13, offset: 53333},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1637, col: 14, offset: 53280},
+																							pos:        position{line: 1637, col: 14, offset: 53334},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1637, col: 21, offset: 53287},
+																							pos:        position{line: 1637, col: 21, offset: 53341},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25605,15 +25641,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1639, col: 13, offset: 53407},
+																				pos: position{line: 1639, col: 13, offset: 53461},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1639, col: 13, offset: 53407},
+																					pos: position{line: 1639, col: 13, offset: 53461},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1639, col: 13, offset: 53407},
+																							pos: position{line: 1639, col: 13, offset: 53461},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1639, col: 14, offset: 53408},
+																								pos:        position{line: 1639, col: 14, offset: 53462},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -25621,7 +25657,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1639, col: 26, offset: 53420},
+																							pos:        position{line: 1639, col: 26, offset: 53474},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25630,15 +25666,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1641, col: 13, offset: 53540},
+																				pos: position{line: 1641, col: 13, offset: 53594},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1641, col: 13, offset: 53540},
+																					pos: position{line: 1641, col: 13, offset: 53594},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1641, col: 13, offset: 53540},
+																							pos: position{line: 1641, col: 13, offset: 53594},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1641, col: 14, offset: 53541},
+																								pos:        position{line: 1641, col: 14, offset: 53595},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -25646,7 +25682,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1641, col: 26, offset: 53553},
+																							pos:        position{line: 1641, col: 26, offset: 53607},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25658,12 +25694,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2938, col: 11, offset: 92913},
+																	pos: position{line: 2938, col: 11, offset: 92967},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2938, col: 11, offset: 92913},
+																		pos: position{line: 2938, col: 11, offset: 92967},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2938, col: 11, offset: 92913},
+																			pos:        position{line: 2938, col: 11, offset: 92967},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25676,26 +25712,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1602, col: 5, offset: 51961},
+													pos:   position{line: 1602, col: 5, offset: 52015},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1548, col: 5, offset: 50394},
+														pos: position{line: 1548, col: 5, offset: 50448},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1548, col: 5, offset: 50394},
+															pos: position{line: 1548, col: 5, offset: 50448},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1548, col: 5, offset: 50394},
+																	pos:   position{line: 1548, col: 5, offset: 50448},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1548, col: 14, offset: 50403},
+																		pos: position{line: 1548, col: 14, offset: 50457},
 																		expr: &actionExpr{
-																			pos: position{line: 1548, col: 15, offset: 50404},
+																			pos: position{line: 1548, col: 15, offset: 50458},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1548, col: 15, offset: 50404},
+																				pos: position{line: 1548, col: 15, offset: 50458},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1548, col: 15, offset: 50404},
+																					pos:        position{line: 1548, col: 15, offset: 50458},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25706,28 +25742,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93250},
+																	pos: position{line: 2956, col: 8, offset: 93304},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93023},
+																			pos: position{line: 2943, col: 12, offset: 93077},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93024},
+																				pos: position{line: 2943, col: 13, offset: 93078},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93024},
+																						pos:        position{line: 2943, col: 13, offset: 93078},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93031},
+																						pos:        position{line: 2943, col: 20, offset: 93085},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93040},
+																						pos:        position{line: 2943, col: 29, offset: 93094},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25736,9 +25772,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93200},
+																			pos: position{line: 2953, col: 8, offset: 93254},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93201,
+																				line: 2953, col: 9, offset: 93255,
 																			},
 																		},
 																	},
@@ -25751,27 +25787,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1651, col: 5, offset: 53819},
+										pos: position{line: 1651, col: 5, offset: 53873},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1651, col: 5, offset: 53819},
+											pos: position{line: 1651, col: 5, offset: 53873},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1651, col: 5, offset: 53819},
+													pos:   position{line: 1651, col: 5, offset: 53873},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1658, col: 5, offset: 54092},
+														pos: position{line: 1658, col: 5, offset: 54146},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1658, col: 5, offset: 54092},
+															pos: position{line: 1658, col: 5, offset: 54146},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1658, col: 5, offset: 54092},
+																	pos: position{line: 1658, col: 5, offset: 54146},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92852},
+																		pos: position{line: 2934, col: 10, offset: 92906},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92852},
+																			pos:        position{line: 2934, col: 10, offset: 92906},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25780,24 +25816,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1659, col: 5, offset: 54104},
+																	pos:   position{line: 1659, col: 5, offset: 54158},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1660, col: 9, offset: 54120},
+																		pos: position{line: 1660, col: 9, offset: 54174},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1660, col: 10, offset: 54121},
+																			pos: position{line: 1660, col: 10, offset: 54175},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1660, col: 11, offset: 54122},
+																					pos:        position{line: 1660, col: 11, offset: 54176},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1660, col: 18, offset: 54129},
+																					pos: position{line: 1660, col: 18, offset: 54183},
 																					expr: &litMatcher{
-																						pos:        position{line: 1660, col: 19, offset: 54130},
+																						pos:        position{line: 1660, col: 19, offset: 54184},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -25808,16 +25844,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1663, col: 7, offset: 54220},
+																	pos: position{line: 1663, col: 7, offset: 54274},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2938, col: 11, offset: 92913},
+																	pos: position{line: 2938, col: 11, offset: 92967},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2938, col: 11, offset: 92913},
+																		pos: position{line: 2938, col: 11, offset: 92967},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2938, col: 11, offset: 92913},
+																			pos:        position{line: 2938, col: 11, offset: 92967},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25830,56 +25866,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1652, col: 5, offset: 53860},
+													pos:   position{line: 1652, col: 5, offset: 53914},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1652, col: 16, offset: 53871},
+														pos: position{line: 1652, col: 16, offset: 53925},
 														expr: &actionExpr{
-															pos: position{line: 1673, col: 5, offset: 54485},
+															pos: position{line: 1673, col: 5, offset: 54539},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1673, col: 5, offset: 54485},
+																pos: position{line: 1673, col: 5, offset: 54539},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1673, col: 5, offset: 54485},
+																		pos: position{line: 1673, col: 5, offset: 54539},
 																		expr: &litMatcher{
-																			pos:        position{line: 1673, col: 6, offset: 54486},
+																			pos:        position{line: 1673, col: 6, offset: 54540},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1673, col: 10, offset: 54490},
+																		pos:   position{line: 1673, col: 10, offset: 54544},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1674, col: 7, offset: 54504},
+																			pos: position{line: 1674, col: 7, offset: 54558},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1674, col: 7, offset: 54504},
+																					pos: position{line: 1674, col: 7, offset: 54558},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1674, col: 7, offset: 54504},
+																						pos:        position{line: 1674, col: 7, offset: 54558},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1675, col: 7, offset: 54549},
+																					pos: position{line: 1675, col: 7, offset: 54603},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1675, col: 7, offset: 54549},
+																						pos:        position{line: 1675, col: 7, offset: 54603},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1676, col: 7, offset: 54592},
+																					pos: position{line: 1676, col: 7, offset: 54646},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1676, col: 7, offset: 54592},
+																						pos:        position{line: 1676, col: 7, offset: 54646},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -25889,12 +25925,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2938, col: 11, offset: 92913},
+																		pos: position{line: 2938, col: 11, offset: 92967},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2938, col: 11, offset: 92913},
+																			pos: position{line: 2938, col: 11, offset: 92967},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2938, col: 11, offset: 92913},
+																				pos:        position{line: 2938, col: 11, offset: 92967},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25908,26 +25944,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1653, col: 5, offset: 53910},
+													pos:   position{line: 1653, col: 5, offset: 53964},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1548, col: 5, offset: 50394},
+														pos: position{line: 1548, col: 5, offset: 50448},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1548, col: 5, offset: 50394},
+															pos: position{line: 1548, col: 5, offset: 50448},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1548, col: 5, offset: 50394},
+																	pos:   position{line: 1548, col: 5, offset: 50448},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1548, col: 14, offset: 50403},
+																		pos: position{line: 1548, col: 14, offset: 50457},
 																		expr: &actionExpr{
-																			pos: position{line: 1548, col: 15, offset: 50404},
+																			pos: position{line: 1548, col: 15, offset: 50458},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1548, col: 15, offset: 50404},
+																				pos: position{line: 1548, col: 15, offset: 50458},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1548, col: 15, offset: 50404},
+																					pos:        position{line: 1548, col: 15, offset: 50458},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25938,28 +25974,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93250},
+																	pos: position{line: 2956, col: 8, offset: 93304},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93023},
+																			pos: position{line: 2943, col: 12, offset: 93077},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93024},
+																				pos: position{line: 2943, col: 13, offset: 93078},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93024},
+																						pos:        position{line: 2943, col: 13, offset: 93078},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93031},
+																						pos:        position{line: 2943, col: 20, offset: 93085},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93040},
+																						pos:        position{line: 2943, col: 29, offset: 93094},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25968,9 +26004,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93200},
+																			pos: position{line: 2953, col: 8, offset: 93254},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93201,
+																				line: 2953, col: 9, offset: 93255,
 																			},
 																		},
 																	},
@@ -25983,36 +26019,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1742, col: 5, offset: 56464},
+										pos: position{line: 1742, col: 5, offset: 56518},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1742, col: 5, offset: 56464},
+											pos: position{line: 1742, col: 5, offset: 56518},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1742, col: 5, offset: 56464},
+													pos:   position{line: 1742, col: 5, offset: 56518},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1748, col: 5, offset: 56661},
+														pos: position{line: 1748, col: 5, offset: 56715},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1748, col: 5, offset: 56661},
+															pos: position{line: 1748, col: 5, offset: 56715},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1748, col: 5, offset: 56661},
+																	pos:        position{line: 1748, col: 5, offset: 56715},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1748, col: 9, offset: 56665},
+																	pos:   position{line: 1748, col: 9, offset: 56719},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1748, col: 14, offset: 56670},
+																		pos: position{line: 1748, col: 14, offset: 56724},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1748, col: 14, offset: 56670},
+																			pos: position{line: 1748, col: 14, offset: 56724},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1748, col: 14, offset: 56670},
+																				pos:        position{line: 1748, col: 14, offset: 56724},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -26022,18 +26058,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1748, col: 62, offset: 56718},
+																	pos:        position{line: 1748, col: 62, offset: 56772},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2938, col: 11, offset: 92913},
+																	pos: position{line: 2938, col: 11, offset: 92967},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2938, col: 11, offset: 92913},
+																		pos: position{line: 2938, col: 11, offset: 92967},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2938, col: 11, offset: 92913},
+																			pos:        position{line: 2938, col: 11, offset: 92967},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26046,26 +26082,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1743, col: 5, offset: 56500},
+													pos:   position{line: 1743, col: 5, offset: 56554},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1548, col: 5, offset: 50394},
+														pos: position{line: 1548, col: 5, offset: 50448},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1548, col: 5, offset: 50394},
+															pos: position{line: 1548, col: 5, offset: 50448},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1548, col: 5, offset: 50394},
+																	pos:   position{line: 1548, col: 5, offset: 50448},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1548, col: 14, offset: 50403},
+																		pos: position{line: 1548, col: 14, offset: 50457},
 																		expr: &actionExpr{
-																			pos: position{line: 1548, col: 15, offset: 50404},
+																			pos: position{line: 1548, col: 15, offset: 50458},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1548, col: 15, offset: 50404},
+																				pos: position{line: 1548, col: 15, offset: 50458},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1548, col: 15, offset: 50404},
+																					pos:        position{line: 1548, col: 15, offset: 50458},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -26076,28 +26112,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93250},
+																	pos: position{line: 2956, col: 8, offset: 93304},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93023},
+																			pos: position{line: 2943, col: 12, offset: 93077},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93024},
+																				pos: position{line: 2943, col: 13, offset: 93078},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93024},
+																						pos:        position{line: 2943, col: 13, offset: 93078},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93031},
+																						pos:        position{line: 2943, col: 20, offset: 93085},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93040},
+																						pos:        position{line: 2943, col: 29, offset: 93094},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26106,9 +26142,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93200},
+																			pos: position{line: 2953, col: 8, offset: 93254},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93201,
+																				line: 2953, col: 9, offset: 93255,
 																			},
 																		},
 																	},
@@ -26121,35 +26157,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1685, col: 5, offset: 54785},
+										pos: position{line: 1685, col: 5, offset: 54839},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1685, col: 5, offset: 54785},
+											pos: position{line: 1685, col: 5, offset: 54839},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1685, col: 5, offset: 54785},
+													pos:   position{line: 1685, col: 5, offset: 54839},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1693, col: 5, offset: 55111},
+														pos: position{line: 1693, col: 5, offset: 55165},
 														run: (*parser).callonListElements148,
 														expr: &seqExpr{
-															pos: position{line: 1693, col: 5, offset: 55111},
+															pos: position{line: 1693, col: 5, offset: 55165},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1693, col: 5, offset: 55111},
+																	pos: position{line: 1693, col: 5, offset: 55165},
 																	expr: &seqExpr{
-																		pos: position{line: 2542, col: 31, offset: 81880},
+																		pos: position{line: 2542, col: 31, offset: 81934},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2542, col: 31, offset: 81880},
+																				pos:        position{line: 2542, col: 31, offset: 81934},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2542, col: 36, offset: 81885},
+																				pos: position{line: 2542, col: 36, offset: 81939},
 																				expr: &litMatcher{
-																					pos:        position{line: 2542, col: 37, offset: 81886},
+																					pos:        position{line: 2542, col: 37, offset: 81940},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -26159,28 +26195,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1694, col: 5, offset: 55143},
+																	pos: position{line: 1694, col: 5, offset: 55197},
 																	expr: &seqExpr{
-																		pos: position{line: 1694, col: 6, offset: 55144},
+																		pos: position{line: 1694, col: 6, offset: 55198},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1694, col: 6, offset: 55144},
+																				pos: position{line: 1694, col: 6, offset: 55198},
 																				expr: &actionExpr{
-																					pos: position{line: 1699, col: 5, offset: 55294},
+																					pos: position{line: 1699, col: 5, offset: 55348},
 																					run: (*parser).callonListElements158,
 																					expr: &seqExpr{
-																						pos: position{line: 1699, col: 5, offset: 55294},
+																						pos: position{line: 1699, col: 5, offset: 55348},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1699, col: 5, offset: 55294},
+																								pos:   position{line: 1699, col: 5, offset: 55348},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1699, col: 16, offset: 55305},
+																									pos: position{line: 1699, col: 16, offset: 55359},
 																									run: (*parser).callonListElements161,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1699, col: 16, offset: 55305},
+																										pos: position{line: 1699, col: 16, offset: 55359},
 																										expr: &litMatcher{
-																											pos:        position{line: 1699, col: 17, offset: 55306},
+																											pos:        position{line: 1699, col: 17, offset: 55360},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -26189,7 +26225,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1702, col: 5, offset: 55363},
+																								pos: position{line: 1702, col: 5, offset: 55417},
 																								run: (*parser).callonListElements164,
 																							},
 																						},
@@ -26197,30 +26233,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1694, col: 35, offset: 55173},
+																				pos: position{line: 1694, col: 35, offset: 55227},
 																				expr: &choiceExpr{
-																					pos: position{line: 2956, col: 8, offset: 93250},
+																					pos: position{line: 2956, col: 8, offset: 93304},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2943, col: 12, offset: 93023},
+																							pos: position{line: 2943, col: 12, offset: 93077},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2943, col: 13, offset: 93024},
+																								pos: position{line: 2943, col: 13, offset: 93078},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 13, offset: 93024},
+																										pos:        position{line: 2943, col: 13, offset: 93078},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 20, offset: 93031},
+																										pos:        position{line: 2943, col: 20, offset: 93085},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 29, offset: 93040},
+																										pos:        position{line: 2943, col: 29, offset: 93094},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -26229,16 +26265,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93200},
+																							pos: position{line: 2953, col: 8, offset: 93254},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93201,
+																								line: 2953, col: 9, offset: 93255,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1694, col: 40, offset: 55178,
+																				line: 1694, col: 40, offset: 55232,
 																			},
 																		},
 																	},
@@ -26248,24 +26284,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1686, col: 5, offset: 54820},
+													pos:   position{line: 1686, col: 5, offset: 54874},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1699, col: 5, offset: 55294},
+														pos: position{line: 1699, col: 5, offset: 55348},
 														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1699, col: 5, offset: 55294},
+															pos: position{line: 1699, col: 5, offset: 55348},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1699, col: 5, offset: 55294},
+																	pos:   position{line: 1699, col: 5, offset: 55348},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1699, col: 16, offset: 55305},
+																		pos: position{line: 1699, col: 16, offset: 55359},
 																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1699, col: 16, offset: 55305},
+																			pos: position{line: 1699, col: 16, offset: 55359},
 																			expr: &litMatcher{
-																				pos:        position{line: 1699, col: 17, offset: 55306},
+																				pos:        position{line: 1699, col: 17, offset: 55360},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -26274,7 +26310,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1702, col: 5, offset: 55363},
+																	pos: position{line: 1702, col: 5, offset: 55417},
 																	run: (*parser).callonListElements182,
 																},
 															},
@@ -26282,24 +26318,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1687, col: 5, offset: 54865},
+													pos:   position{line: 1687, col: 5, offset: 54919},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1710, col: 5, offset: 55612},
+														pos: position{line: 1710, col: 5, offset: 55666},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1712, col: 9, offset: 55678},
+																pos: position{line: 1712, col: 9, offset: 55732},
 																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1712, col: 9, offset: 55678},
+																	pos: position{line: 1712, col: 9, offset: 55732},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1712, col: 9, offset: 55678},
+																			pos: position{line: 1712, col: 9, offset: 55732},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92852},
+																				pos: position{line: 2934, col: 10, offset: 92906},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92852},
+																					pos:        position{line: 2934, col: 10, offset: 92906},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26308,28 +26344,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93250},
+																			pos: position{line: 2956, col: 8, offset: 93304},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93023},
+																					pos: position{line: 2943, col: 12, offset: 93077},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93024},
+																						pos: position{line: 2943, col: 13, offset: 93078},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93024},
+																								pos:        position{line: 2943, col: 13, offset: 93078},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93031},
+																								pos:        position{line: 2943, col: 20, offset: 93085},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93040},
+																								pos:        position{line: 2943, col: 29, offset: 93094},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26338,15 +26374,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1713, col: 9, offset: 55697},
+																			pos: position{line: 1713, col: 9, offset: 55751},
 																			expr: &actionExpr{
 																				pos: position{line: 702, col: 14, offset: 22577},
 																				run: (*parser).callonListElements199,
@@ -26354,18 +26390,18 @@ var g = &grammar{
 																					pos: position{line: 702, col: 14, offset: 22577},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2951, col: 11, offset: 93186},
+																							pos: position{line: 2951, col: 11, offset: 93240},
 																							expr: &anyMatcher{
-																								line: 2951, col: 13, offset: 93188,
+																								line: 2951, col: 13, offset: 93242,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 702, col: 21, offset: 22584},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92852},
+																								pos: position{line: 2934, col: 10, offset: 92906},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92852},
+																									pos:        position{line: 2934, col: 10, offset: 92906},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26374,28 +26410,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26404,9 +26440,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -26419,18 +26455,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1719, col: 9, offset: 55826},
+																pos: position{line: 1719, col: 9, offset: 55880},
 																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1719, col: 9, offset: 55826},
+																	pos: position{line: 1719, col: 9, offset: 55880},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2938, col: 11, offset: 92913},
+																			pos: position{line: 2938, col: 11, offset: 92967},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2938, col: 11, offset: 92913},
+																				pos: position{line: 2938, col: 11, offset: 92967},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2938, col: 11, offset: 92913},
+																					pos:        position{line: 2938, col: 11, offset: 92967},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26439,15 +26475,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1720, col: 9, offset: 55899},
+																			pos:   position{line: 1720, col: 9, offset: 55953},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1720, col: 18, offset: 55908},
+																				pos: position{line: 1720, col: 18, offset: 55962},
 																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1720, col: 18, offset: 55908},
+																					pos: position{line: 1720, col: 18, offset: 55962},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1720, col: 18, offset: 55908},
+																						pos:        position{line: 1720, col: 18, offset: 55962},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -26457,28 +26493,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93250},
+																			pos: position{line: 2956, col: 8, offset: 93304},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93023},
+																					pos: position{line: 2943, col: 12, offset: 93077},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93024},
+																						pos: position{line: 2943, col: 13, offset: 93078},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93024},
+																								pos:        position{line: 2943, col: 13, offset: 93078},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93031},
+																								pos:        position{line: 2943, col: 20, offset: 93085},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93040},
+																								pos:        position{line: 2943, col: 29, offset: 93094},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26487,9 +26523,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -26507,10 +26543,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1502, col: 5, offset: 48783},
+							pos:   position{line: 1502, col: 5, offset: 48837},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1502, col: 20, offset: 48798},
+								pos:  position{line: 1502, col: 20, offset: 48852},
 								name: "ExtraListElements",
 							},
 						},
@@ -26520,17 +26556,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1512, col: 1, offset: 49053},
+			pos:  position{line: 1512, col: 1, offset: 49107},
 			expr: &actionExpr{
-				pos: position{line: 1512, col: 22, offset: 49074},
+				pos: position{line: 1512, col: 22, offset: 49128},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1512, col: 22, offset: 49074},
+					pos:   position{line: 1512, col: 22, offset: 49128},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1512, col: 31, offset: 49083},
+						pos: position{line: 1512, col: 31, offset: 49137},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1512, col: 32, offset: 49084},
+							pos:  position{line: 1512, col: 32, offset: 49138},
 							name: "ExtraListElement",
 						},
 					},
@@ -26539,33 +26575,33 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1516, col: 1, offset: 49164},
+			pos:  position{line: 1516, col: 1, offset: 49218},
 			expr: &actionExpr{
-				pos: position{line: 1517, col: 5, offset: 49303},
+				pos: position{line: 1517, col: 5, offset: 49357},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1517, col: 5, offset: 49303},
+					pos: position{line: 1517, col: 5, offset: 49357},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2951, col: 11, offset: 93186},
+							pos: position{line: 2951, col: 11, offset: 93240},
 							expr: &anyMatcher{
-								line: 2951, col: 13, offset: 93188,
+								line: 2951, col: 13, offset: 93242,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1518, col: 5, offset: 49315},
+							pos:   position{line: 1518, col: 5, offset: 49369},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1519, col: 9, offset: 49333},
+								pos: position{line: 1519, col: 9, offset: 49387},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1519, col: 13, offset: 49337},
+										pos: position{line: 1519, col: 13, offset: 49391},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1519, col: 13, offset: 49337},
+											pos: position{line: 1519, col: 13, offset: 49391},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1519, col: 13, offset: 49337},
+													pos: position{line: 1519, col: 13, offset: 49391},
 													expr: &actionExpr{
 														pos: position{line: 702, col: 14, offset: 22577},
 														run: (*parser).callonExtraListElement10,
@@ -26573,18 +26609,18 @@ var g = &grammar{
 															pos: position{line: 702, col: 14, offset: 22577},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2951, col: 11, offset: 93186},
+																	pos: position{line: 2951, col: 11, offset: 93240},
 																	expr: &anyMatcher{
-																		line: 2951, col: 13, offset: 93188,
+																		line: 2951, col: 13, offset: 93242,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 702, col: 21, offset: 22584},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92852},
+																		pos: position{line: 2934, col: 10, offset: 92906},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92852},
+																			pos:        position{line: 2934, col: 10, offset: 92906},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26593,28 +26629,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93250},
+																	pos: position{line: 2956, col: 8, offset: 93304},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93023},
+																			pos: position{line: 2943, col: 12, offset: 93077},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93024},
+																				pos: position{line: 2943, col: 13, offset: 93078},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93024},
+																						pos:        position{line: 2943, col: 13, offset: 93078},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93031},
+																						pos:        position{line: 2943, col: 20, offset: 93085},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93040},
+																						pos:        position{line: 2943, col: 29, offset: 93094},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26623,9 +26659,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93200},
+																			pos: position{line: 2953, col: 8, offset: 93254},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93201,
+																				line: 2953, col: 9, offset: 93255,
 																			},
 																		},
 																	},
@@ -26635,33 +26671,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1520, col: 13, offset: 49361},
+													pos:   position{line: 1520, col: 13, offset: 49415},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1520, col: 22, offset: 49370},
+														pos: position{line: 1520, col: 22, offset: 49424},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1601, col: 5, offset: 51922},
+																pos: position{line: 1601, col: 5, offset: 51976},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1601, col: 5, offset: 51922},
+																	pos: position{line: 1601, col: 5, offset: 51976},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1601, col: 5, offset: 51922},
+																			pos:   position{line: 1601, col: 5, offset: 51976},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1608, col: 5, offset: 52130},
+																				pos: position{line: 1608, col: 5, offset: 52184},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 5, offset: 52130},
+																					pos: position{line: 1608, col: 5, offset: 52184},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1608, col: 5, offset: 52130},
+																							pos: position{line: 1608, col: 5, offset: 52184},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92852},
+																								pos: position{line: 2934, col: 10, offset: 92906},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92852},
+																									pos:        position{line: 2934, col: 10, offset: 92906},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26670,27 +26706,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1608, col: 12, offset: 52137},
+																							pos:   position{line: 1608, col: 12, offset: 52191},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1610, col: 9, offset: 52200},
+																								pos: position{line: 1610, col: 9, offset: 52254},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1610, col: 9, offset: 52200},
+																										pos: position{line: 1610, col: 9, offset: 52254},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 9, offset: 52200},
+																											pos: position{line: 1610, col: 9, offset: 52254},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1610, col: 9, offset: 52200},
+																													pos:   position{line: 1610, col: 9, offset: 52254},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1610, col: 16, offset: 52207},
+																														pos: position{line: 1610, col: 16, offset: 52261},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1610, col: 16, offset: 52207},
+																															pos: position{line: 1610, col: 16, offset: 52261},
 																															expr: &litMatcher{
-																																pos:        position{line: 1610, col: 17, offset: 52208},
+																																pos:        position{line: 1610, col: 17, offset: 52262},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26699,22 +26735,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1614, col: 9, offset: 52308},
+																													pos: position{line: 1614, col: 9, offset: 52362},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1633, col: 11, offset: 53025},
+																										pos: position{line: 1633, col: 11, offset: 53079},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1633, col: 11, offset: 53025},
+																											pos: position{line: 1633, col: 11, offset: 53079},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1633, col: 11, offset: 53025},
+																													pos: position{line: 1633, col: 11, offset: 53079},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1633, col: 12, offset: 53026},
+																														pos:        position{line: 1633, col: 12, offset: 53080},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26722,7 +26758,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1633, col: 20, offset: 53034},
+																													pos:        position{line: 1633, col: 20, offset: 53088},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26731,20 +26767,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1635, col: 13, offset: 53151},
+																										pos: position{line: 1635, col: 13, offset: 53205},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1635, col: 13, offset: 53151},
+																											pos: position{line: 1635, col: 13, offset: 53205},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1635, col: 14, offset: 53152},
+																													pos:        position{line: 1635, col: 14, offset: 53206},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1635, col: 21, offset: 53159},
+																													pos:        position{line: 1635, col: 21, offset: 53213},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26753,20 +26789,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1637, col: 13, offset: 53279},
+																										pos: position{line: 1637, col: 13, offset: 53333},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1637, col: 13, offset: 53279},
+																											pos: position{line: 1637, col: 13, offset: 53333},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1637, col: 14, offset: 53280},
+																													pos:        position{line: 1637, col: 14, offset: 53334},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1637, col: 21, offset: 53287},
+																													pos:        position{line: 1637, col: 21, offset: 53341},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26775,15 +26811,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1639, col: 13, offset: 53407},
+																										pos: position{line: 1639, col: 13, offset: 53461},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1639, col: 13, offset: 53407},
+																											pos: position{line: 1639, col: 13, offset: 53461},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1639, col: 13, offset: 53407},
+																													pos: position{line: 1639, col: 13, offset: 53461},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1639, col: 14, offset: 53408},
+																														pos:        position{line: 1639, col: 14, offset: 53462},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26791,7 +26827,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1639, col: 26, offset: 53420},
+																													pos:        position{line: 1639, col: 26, offset: 53474},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26800,15 +26836,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1641, col: 13, offset: 53540},
+																										pos: position{line: 1641, col: 13, offset: 53594},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1641, col: 13, offset: 53540},
+																											pos: position{line: 1641, col: 13, offset: 53594},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1641, col: 13, offset: 53540},
+																													pos: position{line: 1641, col: 13, offset: 53594},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1641, col: 14, offset: 53541},
+																														pos:        position{line: 1641, col: 14, offset: 53595},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26816,7 +26852,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1641, col: 26, offset: 53553},
+																													pos:        position{line: 1641, col: 26, offset: 53607},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26828,12 +26864,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2938, col: 11, offset: 92913},
+																							pos: position{line: 2938, col: 11, offset: 92967},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2938, col: 11, offset: 92913},
+																								pos: position{line: 2938, col: 11, offset: 92967},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2938, col: 11, offset: 92913},
+																									pos:        position{line: 2938, col: 11, offset: 92967},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26846,26 +26882,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1602, col: 5, offset: 51961},
+																			pos:   position{line: 1602, col: 5, offset: 52015},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1548, col: 5, offset: 50394},
+																				pos: position{line: 1548, col: 5, offset: 50448},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1548, col: 5, offset: 50394},
+																					pos: position{line: 1548, col: 5, offset: 50448},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1548, col: 5, offset: 50394},
+																							pos:   position{line: 1548, col: 5, offset: 50448},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1548, col: 14, offset: 50403},
+																								pos: position{line: 1548, col: 14, offset: 50457},
 																								expr: &actionExpr{
-																									pos: position{line: 1548, col: 15, offset: 50404},
+																									pos: position{line: 1548, col: 15, offset: 50458},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1548, col: 15, offset: 50404},
+																										pos: position{line: 1548, col: 15, offset: 50458},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1548, col: 15, offset: 50404},
+																											pos:        position{line: 1548, col: 15, offset: 50458},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26876,28 +26912,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26906,9 +26942,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -26921,27 +26957,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1651, col: 5, offset: 53819},
+																pos: position{line: 1651, col: 5, offset: 53873},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1651, col: 5, offset: 53819},
+																	pos: position{line: 1651, col: 5, offset: 53873},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1651, col: 5, offset: 53819},
+																			pos:   position{line: 1651, col: 5, offset: 53873},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1658, col: 5, offset: 54092},
+																				pos: position{line: 1658, col: 5, offset: 54146},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1658, col: 5, offset: 54092},
+																					pos: position{line: 1658, col: 5, offset: 54146},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1658, col: 5, offset: 54092},
+																							pos: position{line: 1658, col: 5, offset: 54146},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92852},
+																								pos: position{line: 2934, col: 10, offset: 92906},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92852},
+																									pos:        position{line: 2934, col: 10, offset: 92906},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26950,24 +26986,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1659, col: 5, offset: 54104},
+																							pos:   position{line: 1659, col: 5, offset: 54158},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1660, col: 9, offset: 54120},
+																								pos: position{line: 1660, col: 9, offset: 54174},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1660, col: 10, offset: 54121},
+																									pos: position{line: 1660, col: 10, offset: 54175},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1660, col: 11, offset: 54122},
+																											pos:        position{line: 1660, col: 11, offset: 54176},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1660, col: 18, offset: 54129},
+																											pos: position{line: 1660, col: 18, offset: 54183},
 																											expr: &litMatcher{
-																												pos:        position{line: 1660, col: 19, offset: 54130},
+																												pos:        position{line: 1660, col: 19, offset: 54184},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26978,16 +27014,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1663, col: 7, offset: 54220},
+																							pos: position{line: 1663, col: 7, offset: 54274},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2938, col: 11, offset: 92913},
+																							pos: position{line: 2938, col: 11, offset: 92967},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2938, col: 11, offset: 92913},
+																								pos: position{line: 2938, col: 11, offset: 92967},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2938, col: 11, offset: 92913},
+																									pos:        position{line: 2938, col: 11, offset: 92967},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27000,56 +27036,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1652, col: 5, offset: 53860},
+																			pos:   position{line: 1652, col: 5, offset: 53914},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1652, col: 16, offset: 53871},
+																				pos: position{line: 1652, col: 16, offset: 53925},
 																				expr: &actionExpr{
-																					pos: position{line: 1673, col: 5, offset: 54485},
+																					pos: position{line: 1673, col: 5, offset: 54539},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1673, col: 5, offset: 54485},
+																						pos: position{line: 1673, col: 5, offset: 54539},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1673, col: 5, offset: 54485},
+																								pos: position{line: 1673, col: 5, offset: 54539},
 																								expr: &litMatcher{
-																									pos:        position{line: 1673, col: 6, offset: 54486},
+																									pos:        position{line: 1673, col: 6, offset: 54540},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1673, col: 10, offset: 54490},
+																								pos:   position{line: 1673, col: 10, offset: 54544},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1674, col: 7, offset: 54504},
+																									pos: position{line: 1674, col: 7, offset: 54558},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1674, col: 7, offset: 54504},
+																											pos: position{line: 1674, col: 7, offset: 54558},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1674, col: 7, offset: 54504},
+																												pos:        position{line: 1674, col: 7, offset: 54558},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1675, col: 7, offset: 54549},
+																											pos: position{line: 1675, col: 7, offset: 54603},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1675, col: 7, offset: 54549},
+																												pos:        position{line: 1675, col: 7, offset: 54603},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1676, col: 7, offset: 54592},
+																											pos: position{line: 1676, col: 7, offset: 54646},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1676, col: 7, offset: 54592},
+																												pos:        position{line: 1676, col: 7, offset: 54646},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27059,12 +27095,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2938, col: 11, offset: 92913},
+																								pos: position{line: 2938, col: 11, offset: 92967},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2938, col: 11, offset: 92913},
+																									pos: position{line: 2938, col: 11, offset: 92967},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2938, col: 11, offset: 92913},
+																										pos:        position{line: 2938, col: 11, offset: 92967},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27078,26 +27114,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1653, col: 5, offset: 53910},
+																			pos:   position{line: 1653, col: 5, offset: 53964},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1548, col: 5, offset: 50394},
+																				pos: position{line: 1548, col: 5, offset: 50448},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1548, col: 5, offset: 50394},
+																					pos: position{line: 1548, col: 5, offset: 50448},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1548, col: 5, offset: 50394},
+																							pos:   position{line: 1548, col: 5, offset: 50448},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1548, col: 14, offset: 50403},
+																								pos: position{line: 1548, col: 14, offset: 50457},
 																								expr: &actionExpr{
-																									pos: position{line: 1548, col: 15, offset: 50404},
+																									pos: position{line: 1548, col: 15, offset: 50458},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1548, col: 15, offset: 50404},
+																										pos: position{line: 1548, col: 15, offset: 50458},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1548, col: 15, offset: 50404},
+																											pos:        position{line: 1548, col: 15, offset: 50458},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27108,28 +27144,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27138,9 +27174,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -27153,36 +27189,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1742, col: 5, offset: 56464},
+																pos: position{line: 1742, col: 5, offset: 56518},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1742, col: 5, offset: 56464},
+																	pos: position{line: 1742, col: 5, offset: 56518},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1742, col: 5, offset: 56464},
+																			pos:   position{line: 1742, col: 5, offset: 56518},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1748, col: 5, offset: 56661},
+																				pos: position{line: 1748, col: 5, offset: 56715},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1748, col: 5, offset: 56661},
+																					pos: position{line: 1748, col: 5, offset: 56715},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1748, col: 5, offset: 56661},
+																							pos:        position{line: 1748, col: 5, offset: 56715},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1748, col: 9, offset: 56665},
+																							pos:   position{line: 1748, col: 9, offset: 56719},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1748, col: 14, offset: 56670},
+																								pos: position{line: 1748, col: 14, offset: 56724},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1748, col: 14, offset: 56670},
+																									pos: position{line: 1748, col: 14, offset: 56724},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1748, col: 14, offset: 56670},
+																										pos:        position{line: 1748, col: 14, offset: 56724},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27192,18 +27228,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1748, col: 62, offset: 56718},
+																							pos:        position{line: 1748, col: 62, offset: 56772},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2938, col: 11, offset: 92913},
+																							pos: position{line: 2938, col: 11, offset: 92967},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2938, col: 11, offset: 92913},
+																								pos: position{line: 2938, col: 11, offset: 92967},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2938, col: 11, offset: 92913},
+																									pos:        position{line: 2938, col: 11, offset: 92967},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27216,26 +27252,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1743, col: 5, offset: 56500},
+																			pos:   position{line: 1743, col: 5, offset: 56554},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1548, col: 5, offset: 50394},
+																				pos: position{line: 1548, col: 5, offset: 50448},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1548, col: 5, offset: 50394},
+																					pos: position{line: 1548, col: 5, offset: 50448},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1548, col: 5, offset: 50394},
+																							pos:   position{line: 1548, col: 5, offset: 50448},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1548, col: 14, offset: 50403},
+																								pos: position{line: 1548, col: 14, offset: 50457},
 																								expr: &actionExpr{
-																									pos: position{line: 1548, col: 15, offset: 50404},
+																									pos: position{line: 1548, col: 15, offset: 50458},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1548, col: 15, offset: 50404},
+																										pos: position{line: 1548, col: 15, offset: 50458},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1548, col: 15, offset: 50404},
+																											pos:        position{line: 1548, col: 15, offset: 50458},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27246,28 +27282,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27276,9 +27312,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -27291,35 +27327,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1685, col: 5, offset: 54785},
+																pos: position{line: 1685, col: 5, offset: 54839},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1685, col: 5, offset: 54785},
+																	pos: position{line: 1685, col: 5, offset: 54839},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1685, col: 5, offset: 54785},
+																			pos:   position{line: 1685, col: 5, offset: 54839},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1693, col: 5, offset: 55111},
+																				pos: position{line: 1693, col: 5, offset: 55165},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &seqExpr{
-																					pos: position{line: 1693, col: 5, offset: 55111},
+																					pos: position{line: 1693, col: 5, offset: 55165},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1693, col: 5, offset: 55111},
+																							pos: position{line: 1693, col: 5, offset: 55165},
 																							expr: &seqExpr{
-																								pos: position{line: 2542, col: 31, offset: 81880},
+																								pos: position{line: 2542, col: 31, offset: 81934},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2542, col: 31, offset: 81880},
+																										pos:        position{line: 2542, col: 31, offset: 81934},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2542, col: 36, offset: 81885},
+																										pos: position{line: 2542, col: 36, offset: 81939},
 																										expr: &litMatcher{
-																											pos:        position{line: 2542, col: 37, offset: 81886},
+																											pos:        position{line: 2542, col: 37, offset: 81940},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -27329,28 +27365,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1694, col: 5, offset: 55143},
+																							pos: position{line: 1694, col: 5, offset: 55197},
 																							expr: &seqExpr{
-																								pos: position{line: 1694, col: 6, offset: 55144},
+																								pos: position{line: 1694, col: 6, offset: 55198},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1694, col: 6, offset: 55144},
+																										pos: position{line: 1694, col: 6, offset: 55198},
 																										expr: &actionExpr{
-																											pos: position{line: 1699, col: 5, offset: 55294},
+																											pos: position{line: 1699, col: 5, offset: 55348},
 																											run: (*parser).callonExtraListElement180,
 																											expr: &seqExpr{
-																												pos: position{line: 1699, col: 5, offset: 55294},
+																												pos: position{line: 1699, col: 5, offset: 55348},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1699, col: 5, offset: 55294},
+																														pos:   position{line: 1699, col: 5, offset: 55348},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1699, col: 16, offset: 55305},
+																															pos: position{line: 1699, col: 16, offset: 55359},
 																															run: (*parser).callonExtraListElement183,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1699, col: 16, offset: 55305},
+																																pos: position{line: 1699, col: 16, offset: 55359},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1699, col: 17, offset: 55306},
+																																	pos:        position{line: 1699, col: 17, offset: 55360},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -27359,7 +27395,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1702, col: 5, offset: 55363},
+																														pos: position{line: 1702, col: 5, offset: 55417},
 																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
@@ -27367,30 +27403,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1694, col: 35, offset: 55173},
+																										pos: position{line: 1694, col: 35, offset: 55227},
 																										expr: &choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93250},
+																											pos: position{line: 2956, col: 8, offset: 93304},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93023},
+																													pos: position{line: 2943, col: 12, offset: 93077},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93024},
+																														pos: position{line: 2943, col: 13, offset: 93078},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93024},
+																																pos:        position{line: 2943, col: 13, offset: 93078},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93031},
+																																pos:        position{line: 2943, col: 20, offset: 93085},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93040},
+																																pos:        position{line: 2943, col: 29, offset: 93094},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27399,16 +27435,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93200},
+																													pos: position{line: 2953, col: 8, offset: 93254},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93201,
+																														line: 2953, col: 9, offset: 93255,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1694, col: 40, offset: 55178,
+																										line: 1694, col: 40, offset: 55232,
 																									},
 																								},
 																							},
@@ -27418,24 +27454,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1686, col: 5, offset: 54820},
+																			pos:   position{line: 1686, col: 5, offset: 54874},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1699, col: 5, offset: 55294},
+																				pos: position{line: 1699, col: 5, offset: 55348},
 																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1699, col: 5, offset: 55294},
+																					pos: position{line: 1699, col: 5, offset: 55348},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1699, col: 5, offset: 55294},
+																							pos:   position{line: 1699, col: 5, offset: 55348},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1699, col: 16, offset: 55305},
+																								pos: position{line: 1699, col: 16, offset: 55359},
 																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1699, col: 16, offset: 55305},
+																									pos: position{line: 1699, col: 16, offset: 55359},
 																									expr: &litMatcher{
-																										pos:        position{line: 1699, col: 17, offset: 55306},
+																										pos:        position{line: 1699, col: 17, offset: 55360},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27444,7 +27480,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1702, col: 5, offset: 55363},
+																							pos: position{line: 1702, col: 5, offset: 55417},
 																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
@@ -27452,24 +27488,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1687, col: 5, offset: 54865},
+																			pos:   position{line: 1687, col: 5, offset: 54919},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1710, col: 5, offset: 55612},
+																				pos: position{line: 1710, col: 5, offset: 55666},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1712, col: 9, offset: 55678},
+																						pos: position{line: 1712, col: 9, offset: 55732},
 																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1712, col: 9, offset: 55678},
+																							pos: position{line: 1712, col: 9, offset: 55732},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1712, col: 9, offset: 55678},
+																									pos: position{line: 1712, col: 9, offset: 55732},
 																									expr: &actionExpr{
-																										pos: position{line: 2934, col: 10, offset: 92852},
+																										pos: position{line: 2934, col: 10, offset: 92906},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2934, col: 10, offset: 92852},
+																											pos:        position{line: 2934, col: 10, offset: 92906},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27478,28 +27514,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2956, col: 8, offset: 93250},
+																									pos: position{line: 2956, col: 8, offset: 93304},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2943, col: 12, offset: 93023},
+																											pos: position{line: 2943, col: 12, offset: 93077},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2943, col: 13, offset: 93024},
+																												pos: position{line: 2943, col: 13, offset: 93078},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 13, offset: 93024},
+																														pos:        position{line: 2943, col: 13, offset: 93078},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 20, offset: 93031},
+																														pos:        position{line: 2943, col: 20, offset: 93085},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 29, offset: 93040},
+																														pos:        position{line: 2943, col: 29, offset: 93094},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27508,15 +27544,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2953, col: 8, offset: 93200},
+																											pos: position{line: 2953, col: 8, offset: 93254},
 																											expr: &anyMatcher{
-																												line: 2953, col: 9, offset: 93201,
+																												line: 2953, col: 9, offset: 93255,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1713, col: 9, offset: 55697},
+																									pos: position{line: 1713, col: 9, offset: 55751},
 																									expr: &actionExpr{
 																										pos: position{line: 702, col: 14, offset: 22577},
 																										run: (*parser).callonExtraListElement221,
@@ -27524,18 +27560,18 @@ var g = &grammar{
 																											pos: position{line: 702, col: 14, offset: 22577},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2951, col: 11, offset: 93186},
+																													pos: position{line: 2951, col: 11, offset: 93240},
 																													expr: &anyMatcher{
-																														line: 2951, col: 13, offset: 93188,
+																														line: 2951, col: 13, offset: 93242,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 702, col: 21, offset: 22584},
 																													expr: &actionExpr{
-																														pos: position{line: 2934, col: 10, offset: 92852},
+																														pos: position{line: 2934, col: 10, offset: 92906},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2934, col: 10, offset: 92852},
+																															pos:        position{line: 2934, col: 10, offset: 92906},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27544,28 +27580,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2956, col: 8, offset: 93250},
+																													pos: position{line: 2956, col: 8, offset: 93304},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2943, col: 12, offset: 93023},
+																															pos: position{line: 2943, col: 12, offset: 93077},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2943, col: 13, offset: 93024},
+																																pos: position{line: 2943, col: 13, offset: 93078},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2943, col: 13, offset: 93024},
+																																		pos:        position{line: 2943, col: 13, offset: 93078},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2943, col: 20, offset: 93031},
+																																		pos:        position{line: 2943, col: 20, offset: 93085},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2943, col: 29, offset: 93040},
+																																		pos:        position{line: 2943, col: 29, offset: 93094},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27574,9 +27610,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2953, col: 8, offset: 93200},
+																															pos: position{line: 2953, col: 8, offset: 93254},
 																															expr: &anyMatcher{
-																																line: 2953, col: 9, offset: 93201,
+																																line: 2953, col: 9, offset: 93255,
 																															},
 																														},
 																													},
@@ -27589,18 +27625,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1719, col: 9, offset: 55826},
+																						pos: position{line: 1719, col: 9, offset: 55880},
 																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1719, col: 9, offset: 55826},
+																							pos: position{line: 1719, col: 9, offset: 55880},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2938, col: 11, offset: 92913},
+																									pos: position{line: 2938, col: 11, offset: 92967},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2938, col: 11, offset: 92913},
+																										pos: position{line: 2938, col: 11, offset: 92967},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2938, col: 11, offset: 92913},
+																											pos:        position{line: 2938, col: 11, offset: 92967},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27609,15 +27645,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1720, col: 9, offset: 55899},
+																									pos:   position{line: 1720, col: 9, offset: 55953},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1720, col: 18, offset: 55908},
+																										pos: position{line: 1720, col: 18, offset: 55962},
 																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1720, col: 18, offset: 55908},
+																											pos: position{line: 1720, col: 18, offset: 55962},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1720, col: 18, offset: 55908},
+																												pos:        position{line: 1720, col: 18, offset: 55962},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27627,28 +27663,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2956, col: 8, offset: 93250},
+																									pos: position{line: 2956, col: 8, offset: 93304},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2943, col: 12, offset: 93023},
+																											pos: position{line: 2943, col: 12, offset: 93077},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2943, col: 13, offset: 93024},
+																												pos: position{line: 2943, col: 13, offset: 93078},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 13, offset: 93024},
+																														pos:        position{line: 2943, col: 13, offset: 93078},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 20, offset: 93031},
+																														pos:        position{line: 2943, col: 20, offset: 93085},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 29, offset: 93040},
+																														pos:        position{line: 2943, col: 29, offset: 93094},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27657,9 +27693,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2953, col: 8, offset: 93200},
+																											pos: position{line: 2953, col: 8, offset: 93254},
 																											expr: &anyMatcher{
-																												line: 2953, col: 9, offset: 93201,
+																												line: 2953, col: 9, offset: 93255,
 																											},
 																										},
 																									},
@@ -27680,50 +27716,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1523, col: 13, offset: 49521},
+										pos: position{line: 1523, col: 13, offset: 49575},
 										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
-											pos: position{line: 1523, col: 13, offset: 49521},
+											pos: position{line: 1523, col: 13, offset: 49575},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1523, col: 13, offset: 49521},
+													pos:   position{line: 1523, col: 13, offset: 49575},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1523, col: 24, offset: 49532},
+														pos: position{line: 1523, col: 24, offset: 49586},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1523, col: 25, offset: 49533},
+															pos:  position{line: 1523, col: 25, offset: 49587},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1524, col: 13, offset: 49564},
+													pos:   position{line: 1524, col: 13, offset: 49618},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1524, col: 22, offset: 49573},
+														pos: position{line: 1524, col: 22, offset: 49627},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1601, col: 5, offset: 51922},
+																pos: position{line: 1601, col: 5, offset: 51976},
 																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
-																	pos: position{line: 1601, col: 5, offset: 51922},
+																	pos: position{line: 1601, col: 5, offset: 51976},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1601, col: 5, offset: 51922},
+																			pos:   position{line: 1601, col: 5, offset: 51976},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1608, col: 5, offset: 52130},
+																				pos: position{line: 1608, col: 5, offset: 52184},
 																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 5, offset: 52130},
+																					pos: position{line: 1608, col: 5, offset: 52184},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1608, col: 5, offset: 52130},
+																							pos: position{line: 1608, col: 5, offset: 52184},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92852},
+																								pos: position{line: 2934, col: 10, offset: 92906},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92852},
+																									pos:        position{line: 2934, col: 10, offset: 92906},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27732,27 +27768,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1608, col: 12, offset: 52137},
+																							pos:   position{line: 1608, col: 12, offset: 52191},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1610, col: 9, offset: 52200},
+																								pos: position{line: 1610, col: 9, offset: 52254},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1610, col: 9, offset: 52200},
+																										pos: position{line: 1610, col: 9, offset: 52254},
 																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 9, offset: 52200},
+																											pos: position{line: 1610, col: 9, offset: 52254},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1610, col: 9, offset: 52200},
+																													pos:   position{line: 1610, col: 9, offset: 52254},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1610, col: 16, offset: 52207},
+																														pos: position{line: 1610, col: 16, offset: 52261},
 																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1610, col: 16, offset: 52207},
+																															pos: position{line: 1610, col: 16, offset: 52261},
 																															expr: &litMatcher{
-																																pos:        position{line: 1610, col: 17, offset: 52208},
+																																pos:        position{line: 1610, col: 17, offset: 52262},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27761,22 +27797,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1614, col: 9, offset: 52308},
+																													pos: position{line: 1614, col: 9, offset: 52362},
 																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1633, col: 11, offset: 53025},
+																										pos: position{line: 1633, col: 11, offset: 53079},
 																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
-																											pos: position{line: 1633, col: 11, offset: 53025},
+																											pos: position{line: 1633, col: 11, offset: 53079},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1633, col: 11, offset: 53025},
+																													pos: position{line: 1633, col: 11, offset: 53079},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1633, col: 12, offset: 53026},
+																														pos:        position{line: 1633, col: 12, offset: 53080},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27784,7 +27820,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1633, col: 20, offset: 53034},
+																													pos:        position{line: 1633, col: 20, offset: 53088},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27793,20 +27829,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1635, col: 13, offset: 53151},
+																										pos: position{line: 1635, col: 13, offset: 53205},
 																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
-																											pos: position{line: 1635, col: 13, offset: 53151},
+																											pos: position{line: 1635, col: 13, offset: 53205},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1635, col: 14, offset: 53152},
+																													pos:        position{line: 1635, col: 14, offset: 53206},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1635, col: 21, offset: 53159},
+																													pos:        position{line: 1635, col: 21, offset: 53213},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27815,20 +27851,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1637, col: 13, offset: 53279},
+																										pos: position{line: 1637, col: 13, offset: 53333},
 																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
-																											pos: position{line: 1637, col: 13, offset: 53279},
+																											pos: position{line: 1637, col: 13, offset: 53333},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1637, col: 14, offset: 53280},
+																													pos:        position{line: 1637, col: 14, offset: 53334},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1637, col: 21, offset: 53287},
+																													pos:        position{line: 1637, col: 21, offset: 53341},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27837,15 +27873,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1639, col: 13, offset: 53407},
+																										pos: position{line: 1639, col: 13, offset: 53461},
 																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
-																											pos: position{line: 1639, col: 13, offset: 53407},
+																											pos: position{line: 1639, col: 13, offset: 53461},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1639, col: 13, offset: 53407},
+																													pos: position{line: 1639, col: 13, offset: 53461},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1639, col: 14, offset: 53408},
+																														pos:        position{line: 1639, col: 14, offset: 53462},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27853,7 +27889,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1639, col: 26, offset: 53420},
+																													pos:        position{line: 1639, col: 26, offset: 53474},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27862,15 +27898,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1641, col: 13, offset: 53540},
+																										pos: position{line: 1641, col: 13, offset: 53594},
 																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
-																											pos: position{line: 1641, col: 13, offset: 53540},
+																											pos: position{line: 1641, col: 13, offset: 53594},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1641, col: 13, offset: 53540},
+																													pos: position{line: 1641, col: 13, offset: 53594},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1641, col: 14, offset: 53541},
+																														pos:        position{line: 1641, col: 14, offset: 53595},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27878,7 +27914,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1641, col: 26, offset: 53553},
+																													pos:        position{line: 1641, col: 26, offset: 53607},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27890,12 +27926,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2938, col: 11, offset: 92913},
+																							pos: position{line: 2938, col: 11, offset: 92967},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2938, col: 11, offset: 92913},
+																								pos: position{line: 2938, col: 11, offset: 92967},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2938, col: 11, offset: 92913},
+																									pos:        position{line: 2938, col: 11, offset: 92967},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27908,26 +27944,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1602, col: 5, offset: 51961},
+																			pos:   position{line: 1602, col: 5, offset: 52015},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1548, col: 5, offset: 50394},
+																				pos: position{line: 1548, col: 5, offset: 50448},
 																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
-																					pos: position{line: 1548, col: 5, offset: 50394},
+																					pos: position{line: 1548, col: 5, offset: 50448},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1548, col: 5, offset: 50394},
+																							pos:   position{line: 1548, col: 5, offset: 50448},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1548, col: 14, offset: 50403},
+																								pos: position{line: 1548, col: 14, offset: 50457},
 																								expr: &actionExpr{
-																									pos: position{line: 1548, col: 15, offset: 50404},
+																									pos: position{line: 1548, col: 15, offset: 50458},
 																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1548, col: 15, offset: 50404},
+																										pos: position{line: 1548, col: 15, offset: 50458},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1548, col: 15, offset: 50404},
+																											pos:        position{line: 1548, col: 15, offset: 50458},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27938,28 +27974,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27968,9 +28004,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -27983,27 +28019,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1651, col: 5, offset: 53819},
+																pos: position{line: 1651, col: 5, offset: 53873},
 																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
-																	pos: position{line: 1651, col: 5, offset: 53819},
+																	pos: position{line: 1651, col: 5, offset: 53873},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1651, col: 5, offset: 53819},
+																			pos:   position{line: 1651, col: 5, offset: 53873},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1658, col: 5, offset: 54092},
+																				pos: position{line: 1658, col: 5, offset: 54146},
 																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
-																					pos: position{line: 1658, col: 5, offset: 54092},
+																					pos: position{line: 1658, col: 5, offset: 54146},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1658, col: 5, offset: 54092},
+																							pos: position{line: 1658, col: 5, offset: 54146},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92852},
+																								pos: position{line: 2934, col: 10, offset: 92906},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92852},
+																									pos:        position{line: 2934, col: 10, offset: 92906},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28012,24 +28048,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1659, col: 5, offset: 54104},
+																							pos:   position{line: 1659, col: 5, offset: 54158},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1660, col: 9, offset: 54120},
+																								pos: position{line: 1660, col: 9, offset: 54174},
 																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
-																									pos: position{line: 1660, col: 10, offset: 54121},
+																									pos: position{line: 1660, col: 10, offset: 54175},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1660, col: 11, offset: 54122},
+																											pos:        position{line: 1660, col: 11, offset: 54176},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1660, col: 18, offset: 54129},
+																											pos: position{line: 1660, col: 18, offset: 54183},
 																											expr: &litMatcher{
-																												pos:        position{line: 1660, col: 19, offset: 54130},
+																												pos:        position{line: 1660, col: 19, offset: 54184},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -28040,16 +28076,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1663, col: 7, offset: 54220},
+																							pos: position{line: 1663, col: 7, offset: 54274},
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2938, col: 11, offset: 92913},
+																							pos: position{line: 2938, col: 11, offset: 92967},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2938, col: 11, offset: 92913},
+																								pos: position{line: 2938, col: 11, offset: 92967},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2938, col: 11, offset: 92913},
+																									pos:        position{line: 2938, col: 11, offset: 92967},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28062,56 +28098,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1652, col: 5, offset: 53860},
+																			pos:   position{line: 1652, col: 5, offset: 53914},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1652, col: 16, offset: 53871},
+																				pos: position{line: 1652, col: 16, offset: 53925},
 																				expr: &actionExpr{
-																					pos: position{line: 1673, col: 5, offset: 54485},
+																					pos: position{line: 1673, col: 5, offset: 54539},
 																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
-																						pos: position{line: 1673, col: 5, offset: 54485},
+																						pos: position{line: 1673, col: 5, offset: 54539},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1673, col: 5, offset: 54485},
+																								pos: position{line: 1673, col: 5, offset: 54539},
 																								expr: &litMatcher{
-																									pos:        position{line: 1673, col: 6, offset: 54486},
+																									pos:        position{line: 1673, col: 6, offset: 54540},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1673, col: 10, offset: 54490},
+																								pos:   position{line: 1673, col: 10, offset: 54544},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1674, col: 7, offset: 54504},
+																									pos: position{line: 1674, col: 7, offset: 54558},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1674, col: 7, offset: 54504},
+																											pos: position{line: 1674, col: 7, offset: 54558},
 																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
-																												pos:        position{line: 1674, col: 7, offset: 54504},
+																												pos:        position{line: 1674, col: 7, offset: 54558},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1675, col: 7, offset: 54549},
+																											pos: position{line: 1675, col: 7, offset: 54603},
 																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
-																												pos:        position{line: 1675, col: 7, offset: 54549},
+																												pos:        position{line: 1675, col: 7, offset: 54603},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1676, col: 7, offset: 54592},
+																											pos: position{line: 1676, col: 7, offset: 54646},
 																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
-																												pos:        position{line: 1676, col: 7, offset: 54592},
+																												pos:        position{line: 1676, col: 7, offset: 54646},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -28121,12 +28157,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2938, col: 11, offset: 92913},
+																								pos: position{line: 2938, col: 11, offset: 92967},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2938, col: 11, offset: 92913},
+																									pos: position{line: 2938, col: 11, offset: 92967},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2938, col: 11, offset: 92913},
+																										pos:        position{line: 2938, col: 11, offset: 92967},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -28140,26 +28176,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1653, col: 5, offset: 53910},
+																			pos:   position{line: 1653, col: 5, offset: 53964},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1548, col: 5, offset: 50394},
+																				pos: position{line: 1548, col: 5, offset: 50448},
 																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
-																					pos: position{line: 1548, col: 5, offset: 50394},
+																					pos: position{line: 1548, col: 5, offset: 50448},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1548, col: 5, offset: 50394},
+																							pos:   position{line: 1548, col: 5, offset: 50448},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1548, col: 14, offset: 50403},
+																								pos: position{line: 1548, col: 14, offset: 50457},
 																								expr: &actionExpr{
-																									pos: position{line: 1548, col: 15, offset: 50404},
+																									pos: position{line: 1548, col: 15, offset: 50458},
 																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1548, col: 15, offset: 50404},
+																										pos: position{line: 1548, col: 15, offset: 50458},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1548, col: 15, offset: 50404},
+																											pos:        position{line: 1548, col: 15, offset: 50458},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -28170,28 +28206,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28200,9 +28236,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -28215,36 +28251,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1742, col: 5, offset: 56464},
+																pos: position{line: 1742, col: 5, offset: 56518},
 																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1742, col: 5, offset: 56464},
+																	pos: position{line: 1742, col: 5, offset: 56518},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1742, col: 5, offset: 56464},
+																			pos:   position{line: 1742, col: 5, offset: 56518},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1748, col: 5, offset: 56661},
+																				pos: position{line: 1748, col: 5, offset: 56715},
 																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1748, col: 5, offset: 56661},
+																					pos: position{line: 1748, col: 5, offset: 56715},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1748, col: 5, offset: 56661},
+																							pos:        position{line: 1748, col: 5, offset: 56715},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1748, col: 9, offset: 56665},
+																							pos:   position{line: 1748, col: 9, offset: 56719},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1748, col: 14, offset: 56670},
+																								pos: position{line: 1748, col: 14, offset: 56724},
 																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1748, col: 14, offset: 56670},
+																									pos: position{line: 1748, col: 14, offset: 56724},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1748, col: 14, offset: 56670},
+																										pos:        position{line: 1748, col: 14, offset: 56724},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -28254,18 +28290,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1748, col: 62, offset: 56718},
+																							pos:        position{line: 1748, col: 62, offset: 56772},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2938, col: 11, offset: 92913},
+																							pos: position{line: 2938, col: 11, offset: 92967},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2938, col: 11, offset: 92913},
+																								pos: position{line: 2938, col: 11, offset: 92967},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2938, col: 11, offset: 92913},
+																									pos:        position{line: 2938, col: 11, offset: 92967},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28278,26 +28314,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1743, col: 5, offset: 56500},
+																			pos:   position{line: 1743, col: 5, offset: 56554},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1548, col: 5, offset: 50394},
+																				pos: position{line: 1548, col: 5, offset: 50448},
 																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
-																					pos: position{line: 1548, col: 5, offset: 50394},
+																					pos: position{line: 1548, col: 5, offset: 50448},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1548, col: 5, offset: 50394},
+																							pos:   position{line: 1548, col: 5, offset: 50448},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1548, col: 14, offset: 50403},
+																								pos: position{line: 1548, col: 14, offset: 50457},
 																								expr: &actionExpr{
-																									pos: position{line: 1548, col: 15, offset: 50404},
+																									pos: position{line: 1548, col: 15, offset: 50458},
 																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1548, col: 15, offset: 50404},
+																										pos: position{line: 1548, col: 15, offset: 50458},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1548, col: 15, offset: 50404},
+																											pos:        position{line: 1548, col: 15, offset: 50458},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -28308,28 +28344,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28338,9 +28374,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -28353,35 +28389,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1685, col: 5, offset: 54785},
+																pos: position{line: 1685, col: 5, offset: 54839},
 																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
-																	pos: position{line: 1685, col: 5, offset: 54785},
+																	pos: position{line: 1685, col: 5, offset: 54839},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1685, col: 5, offset: 54785},
+																			pos:   position{line: 1685, col: 5, offset: 54839},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1693, col: 5, offset: 55111},
+																				pos: position{line: 1693, col: 5, offset: 55165},
 																				run: (*parser).callonExtraListElement403,
 																				expr: &seqExpr{
-																					pos: position{line: 1693, col: 5, offset: 55111},
+																					pos: position{line: 1693, col: 5, offset: 55165},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1693, col: 5, offset: 55111},
+																							pos: position{line: 1693, col: 5, offset: 55165},
 																							expr: &seqExpr{
-																								pos: position{line: 2542, col: 31, offset: 81880},
+																								pos: position{line: 2542, col: 31, offset: 81934},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2542, col: 31, offset: 81880},
+																										pos:        position{line: 2542, col: 31, offset: 81934},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2542, col: 36, offset: 81885},
+																										pos: position{line: 2542, col: 36, offset: 81939},
 																										expr: &litMatcher{
-																											pos:        position{line: 2542, col: 37, offset: 81886},
+																											pos:        position{line: 2542, col: 37, offset: 81940},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -28391,28 +28427,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1694, col: 5, offset: 55143},
+																							pos: position{line: 1694, col: 5, offset: 55197},
 																							expr: &seqExpr{
-																								pos: position{line: 1694, col: 6, offset: 55144},
+																								pos: position{line: 1694, col: 6, offset: 55198},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1694, col: 6, offset: 55144},
+																										pos: position{line: 1694, col: 6, offset: 55198},
 																										expr: &actionExpr{
-																											pos: position{line: 1699, col: 5, offset: 55294},
+																											pos: position{line: 1699, col: 5, offset: 55348},
 																											run: (*parser).callonExtraListElement413,
 																											expr: &seqExpr{
-																												pos: position{line: 1699, col: 5, offset: 55294},
+																												pos: position{line: 1699, col: 5, offset: 55348},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1699, col: 5, offset: 55294},
+																														pos:   position{line: 1699, col: 5, offset: 55348},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1699, col: 16, offset: 55305},
+																															pos: position{line: 1699, col: 16, offset: 55359},
 																															run: (*parser).callonExtraListElement416,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1699, col: 16, offset: 55305},
+																																pos: position{line: 1699, col: 16, offset: 55359},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1699, col: 17, offset: 55306},
+																																	pos:        position{line: 1699, col: 17, offset: 55360},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -28421,7 +28457,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1702, col: 5, offset: 55363},
+																														pos: position{line: 1702, col: 5, offset: 55417},
 																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
@@ -28429,30 +28465,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1694, col: 35, offset: 55173},
+																										pos: position{line: 1694, col: 35, offset: 55227},
 																										expr: &choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93250},
+																											pos: position{line: 2956, col: 8, offset: 93304},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93023},
+																													pos: position{line: 2943, col: 12, offset: 93077},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93024},
+																														pos: position{line: 2943, col: 13, offset: 93078},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93024},
+																																pos:        position{line: 2943, col: 13, offset: 93078},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93031},
+																																pos:        position{line: 2943, col: 20, offset: 93085},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93040},
+																																pos:        position{line: 2943, col: 29, offset: 93094},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -28461,16 +28497,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93200},
+																													pos: position{line: 2953, col: 8, offset: 93254},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93201,
+																														line: 2953, col: 9, offset: 93255,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1694, col: 40, offset: 55178,
+																										line: 1694, col: 40, offset: 55232,
 																									},
 																								},
 																							},
@@ -28480,24 +28516,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1686, col: 5, offset: 54820},
+																			pos:   position{line: 1686, col: 5, offset: 54874},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1699, col: 5, offset: 55294},
+																				pos: position{line: 1699, col: 5, offset: 55348},
 																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1699, col: 5, offset: 55294},
+																					pos: position{line: 1699, col: 5, offset: 55348},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1699, col: 5, offset: 55294},
+																							pos:   position{line: 1699, col: 5, offset: 55348},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1699, col: 16, offset: 55305},
+																								pos: position{line: 1699, col: 16, offset: 55359},
 																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1699, col: 16, offset: 55305},
+																									pos: position{line: 1699, col: 16, offset: 55359},
 																									expr: &litMatcher{
-																										pos:        position{line: 1699, col: 17, offset: 55306},
+																										pos:        position{line: 1699, col: 17, offset: 55360},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -28506,7 +28542,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1702, col: 5, offset: 55363},
+																							pos: position{line: 1702, col: 5, offset: 55417},
 																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
@@ -28514,24 +28550,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1687, col: 5, offset: 54865},
+																			pos:   position{line: 1687, col: 5, offset: 54919},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1710, col: 5, offset: 55612},
+																				pos: position{line: 1710, col: 5, offset: 55666},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1712, col: 9, offset: 55678},
+																						pos: position{line: 1712, col: 9, offset: 55732},
 																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1712, col: 9, offset: 55678},
+																							pos: position{line: 1712, col: 9, offset: 55732},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1712, col: 9, offset: 55678},
+																									pos: position{line: 1712, col: 9, offset: 55732},
 																									expr: &actionExpr{
-																										pos: position{line: 2934, col: 10, offset: 92852},
+																										pos: position{line: 2934, col: 10, offset: 92906},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2934, col: 10, offset: 92852},
+																											pos:        position{line: 2934, col: 10, offset: 92906},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28540,28 +28576,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2956, col: 8, offset: 93250},
+																									pos: position{line: 2956, col: 8, offset: 93304},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2943, col: 12, offset: 93023},
+																											pos: position{line: 2943, col: 12, offset: 93077},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2943, col: 13, offset: 93024},
+																												pos: position{line: 2943, col: 13, offset: 93078},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 13, offset: 93024},
+																														pos:        position{line: 2943, col: 13, offset: 93078},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 20, offset: 93031},
+																														pos:        position{line: 2943, col: 20, offset: 93085},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 29, offset: 93040},
+																														pos:        position{line: 2943, col: 29, offset: 93094},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28570,15 +28606,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2953, col: 8, offset: 93200},
+																											pos: position{line: 2953, col: 8, offset: 93254},
 																											expr: &anyMatcher{
-																												line: 2953, col: 9, offset: 93201,
+																												line: 2953, col: 9, offset: 93255,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1713, col: 9, offset: 55697},
+																									pos: position{line: 1713, col: 9, offset: 55751},
 																									expr: &actionExpr{
 																										pos: position{line: 702, col: 14, offset: 22577},
 																										run: (*parser).callonExtraListElement454,
@@ -28586,18 +28622,18 @@ var g = &grammar{
 																											pos: position{line: 702, col: 14, offset: 22577},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2951, col: 11, offset: 93186},
+																													pos: position{line: 2951, col: 11, offset: 93240},
 																													expr: &anyMatcher{
-																														line: 2951, col: 13, offset: 93188,
+																														line: 2951, col: 13, offset: 93242,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 702, col: 21, offset: 22584},
 																													expr: &actionExpr{
-																														pos: position{line: 2934, col: 10, offset: 92852},
+																														pos: position{line: 2934, col: 10, offset: 92906},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2934, col: 10, offset: 92852},
+																															pos:        position{line: 2934, col: 10, offset: 92906},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -28606,28 +28642,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2956, col: 8, offset: 93250},
+																													pos: position{line: 2956, col: 8, offset: 93304},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2943, col: 12, offset: 93023},
+																															pos: position{line: 2943, col: 12, offset: 93077},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2943, col: 13, offset: 93024},
+																																pos: position{line: 2943, col: 13, offset: 93078},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2943, col: 13, offset: 93024},
+																																		pos:        position{line: 2943, col: 13, offset: 93078},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2943, col: 20, offset: 93031},
+																																		pos:        position{line: 2943, col: 20, offset: 93085},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2943, col: 29, offset: 93040},
+																																		pos:        position{line: 2943, col: 29, offset: 93094},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28636,9 +28672,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2953, col: 8, offset: 93200},
+																															pos: position{line: 2953, col: 8, offset: 93254},
 																															expr: &anyMatcher{
-																																line: 2953, col: 9, offset: 93201,
+																																line: 2953, col: 9, offset: 93255,
 																															},
 																														},
 																													},
@@ -28651,18 +28687,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1719, col: 9, offset: 55826},
+																						pos: position{line: 1719, col: 9, offset: 55880},
 																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1719, col: 9, offset: 55826},
+																							pos: position{line: 1719, col: 9, offset: 55880},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2938, col: 11, offset: 92913},
+																									pos: position{line: 2938, col: 11, offset: 92967},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2938, col: 11, offset: 92913},
+																										pos: position{line: 2938, col: 11, offset: 92967},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2938, col: 11, offset: 92913},
+																											pos:        position{line: 2938, col: 11, offset: 92967},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28671,15 +28707,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1720, col: 9, offset: 55899},
+																									pos:   position{line: 1720, col: 9, offset: 55953},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1720, col: 18, offset: 55908},
+																										pos: position{line: 1720, col: 18, offset: 55962},
 																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1720, col: 18, offset: 55908},
+																											pos: position{line: 1720, col: 18, offset: 55962},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1720, col: 18, offset: 55908},
+																												pos:        position{line: 1720, col: 18, offset: 55962},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28689,28 +28725,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2956, col: 8, offset: 93250},
+																									pos: position{line: 2956, col: 8, offset: 93304},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2943, col: 12, offset: 93023},
+																											pos: position{line: 2943, col: 12, offset: 93077},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2943, col: 13, offset: 93024},
+																												pos: position{line: 2943, col: 13, offset: 93078},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 13, offset: 93024},
+																														pos:        position{line: 2943, col: 13, offset: 93078},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 20, offset: 93031},
+																														pos:        position{line: 2943, col: 20, offset: 93085},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 29, offset: 93040},
+																														pos:        position{line: 2943, col: 29, offset: 93094},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28719,9 +28755,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2953, col: 8, offset: 93200},
+																											pos: position{line: 2953, col: 8, offset: 93254},
 																											expr: &anyMatcher{
-																												line: 2953, col: 9, offset: 93201,
+																												line: 2953, col: 9, offset: 93255,
 																											},
 																										},
 																									},
@@ -28742,40 +28778,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1527, col: 11, offset: 49758},
+										pos:  position{line: 1527, col: 11, offset: 49812},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2537, col: 22, offset: 81630},
+										pos: position{line: 2537, col: 22, offset: 81684},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2537, col: 22, offset: 81630},
+											pos: position{line: 2537, col: 22, offset: 81684},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2542, col: 31, offset: 81880},
+													pos:        position{line: 2542, col: 31, offset: 81934},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2542, col: 36, offset: 81885},
+													pos: position{line: 2542, col: 36, offset: 81939},
 													expr: &litMatcher{
-														pos:        position{line: 2542, col: 37, offset: 81886},
+														pos:        position{line: 2542, col: 37, offset: 81940},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2537, col: 49, offset: 81657},
+													pos:   position{line: 2537, col: 49, offset: 81711},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 13, offset: 91378},
+														pos: position{line: 2880, col: 13, offset: 91432},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2880, col: 13, offset: 91378},
+															pos: position{line: 2880, col: 13, offset: 91432},
 															expr: &charClassMatcher{
-																pos:        position{line: 2880, col: 13, offset: 91378},
+																pos:        position{line: 2880, col: 13, offset: 91432},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28785,28 +28821,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2956, col: 8, offset: 93250},
+													pos: position{line: 2956, col: 8, offset: 93304},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93023},
+															pos: position{line: 2943, col: 12, offset: 93077},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93024},
+																pos: position{line: 2943, col: 13, offset: 93078},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93024},
+																		pos:        position{line: 2943, col: 13, offset: 93078},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93031},
+																		pos:        position{line: 2943, col: 20, offset: 93085},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93040},
+																		pos:        position{line: 2943, col: 29, offset: 93094},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28815,9 +28851,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93200},
+															pos: position{line: 2953, col: 8, offset: 93254},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93201,
+																line: 2953, col: 9, offset: 93255,
 															},
 														},
 													},
@@ -28826,13 +28862,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1535, col: 5, offset: 50036},
+										pos: position{line: 1535, col: 5, offset: 50090},
 										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
-											pos: position{line: 1535, col: 5, offset: 50036},
+											pos: position{line: 1535, col: 5, offset: 50090},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1535, col: 5, offset: 50036},
+													pos: position{line: 1535, col: 5, offset: 50090},
 													expr: &actionExpr{
 														pos: position{line: 702, col: 14, offset: 22577},
 														run: (*parser).callonExtraListElement507,
@@ -28840,18 +28876,18 @@ var g = &grammar{
 															pos: position{line: 702, col: 14, offset: 22577},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2951, col: 11, offset: 93186},
+																	pos: position{line: 2951, col: 11, offset: 93240},
 																	expr: &anyMatcher{
-																		line: 2951, col: 13, offset: 93188,
+																		line: 2951, col: 13, offset: 93242,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 702, col: 21, offset: 22584},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92852},
+																		pos: position{line: 2934, col: 10, offset: 92906},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92852},
+																			pos:        position{line: 2934, col: 10, offset: 92906},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28860,28 +28896,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93250},
+																	pos: position{line: 2956, col: 8, offset: 93304},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93023},
+																			pos: position{line: 2943, col: 12, offset: 93077},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93024},
+																				pos: position{line: 2943, col: 13, offset: 93078},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93024},
+																						pos:        position{line: 2943, col: 13, offset: 93078},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93031},
+																						pos:        position{line: 2943, col: 20, offset: 93085},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93040},
+																						pos:        position{line: 2943, col: 29, offset: 93094},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28890,9 +28926,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93200},
+																			pos: position{line: 2953, col: 8, offset: 93254},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93201,
+																				line: 2953, col: 9, offset: 93255,
 																			},
 																		},
 																	},
@@ -28902,23 +28938,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1536, col: 5, offset: 50051},
+													pos: position{line: 1536, col: 5, offset: 50105},
 													expr: &seqExpr{
-														pos: position{line: 1567, col: 27, offset: 50911},
+														pos: position{line: 1567, col: 27, offset: 50965},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1567, col: 27, offset: 50911},
+																pos:        position{line: 1567, col: 27, offset: 50965},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1567, col: 31, offset: 50915},
+																pos: position{line: 1567, col: 31, offset: 50969},
 																expr: &actionExpr{
-																	pos: position{line: 2934, col: 10, offset: 92852},
+																	pos: position{line: 2934, col: 10, offset: 92906},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2934, col: 10, offset: 92852},
+																		pos:        position{line: 2934, col: 10, offset: 92906},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28927,25 +28963,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93023},
+																pos: position{line: 2943, col: 12, offset: 93077},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93024},
+																	pos: position{line: 2943, col: 13, offset: 93078},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93024},
+																			pos:        position{line: 2943, col: 13, offset: 93078},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93031},
+																			pos:        position{line: 2943, col: 20, offset: 93085},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93040},
+																			pos:        position{line: 2943, col: 29, offset: 93094},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28957,20 +28993,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1537, col: 5, offset: 50079},
+													pos: position{line: 1537, col: 5, offset: 50133},
 													expr: &actionExpr{
-														pos: position{line: 1608, col: 5, offset: 52130},
+														pos: position{line: 1608, col: 5, offset: 52184},
 														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
-															pos: position{line: 1608, col: 5, offset: 52130},
+															pos: position{line: 1608, col: 5, offset: 52184},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1608, col: 5, offset: 52130},
+																	pos: position{line: 1608, col: 5, offset: 52184},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92852},
+																		pos: position{line: 2934, col: 10, offset: 92906},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92852},
+																			pos:        position{line: 2934, col: 10, offset: 92906},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28979,27 +29015,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1608, col: 12, offset: 52137},
+																	pos:   position{line: 1608, col: 12, offset: 52191},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1610, col: 9, offset: 52200},
+																		pos: position{line: 1610, col: 9, offset: 52254},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1610, col: 9, offset: 52200},
+																				pos: position{line: 1610, col: 9, offset: 52254},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 9, offset: 52200},
+																					pos: position{line: 1610, col: 9, offset: 52254},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1610, col: 9, offset: 52200},
+																							pos:   position{line: 1610, col: 9, offset: 52254},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1610, col: 16, offset: 52207},
+																								pos: position{line: 1610, col: 16, offset: 52261},
 																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1610, col: 16, offset: 52207},
+																									pos: position{line: 1610, col: 16, offset: 52261},
 																									expr: &litMatcher{
-																										pos:        position{line: 1610, col: 17, offset: 52208},
+																										pos:        position{line: 1610, col: 17, offset: 52262},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29008,22 +29044,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1614, col: 9, offset: 52308},
+																							pos: position{line: 1614, col: 9, offset: 52362},
 																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1633, col: 11, offset: 53025},
+																				pos: position{line: 1633, col: 11, offset: 53079},
 																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
-																					pos: position{line: 1633, col: 11, offset: 53025},
+																					pos: position{line: 1633, col: 11, offset: 53079},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1633, col: 11, offset: 53025},
+																							pos: position{line: 1633, col: 11, offset: 53079},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1633, col: 12, offset: 53026},
+																								pos:        position{line: 1633, col: 12, offset: 53080},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29031,7 +29067,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1633, col: 20, offset: 53034},
+																							pos:        position{line: 1633, col: 20, offset: 53088},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29040,20 +29076,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1635, col: 13, offset: 53151},
+																				pos: position{line: 1635, col: 13, offset: 53205},
 																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
-																					pos: position{line: 1635, col: 13, offset: 53151},
+																					pos: position{line: 1635, col: 13, offset: 53205},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1635, col: 14, offset: 53152},
+																							pos:        position{line: 1635, col: 14, offset: 53206},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1635, col: 21, offset: 53159},
+																							pos:        position{line: 1635, col: 21, offset: 53213},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29062,20 +29098,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1637, col: 13, offset: 53279},
+																				pos: position{line: 1637, col: 13, offset: 53333},
 																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
-																					pos: position{line: 1637, col: 13, offset: 53279},
+																					pos: position{line: 1637, col: 13, offset: 53333},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1637, col: 14, offset: 53280},
+																							pos:        position{line: 1637, col: 14, offset: 53334},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1637, col: 21, offset: 53287},
+																							pos:        position{line: 1637, col: 21, offset: 53341},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29084,15 +29120,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1639, col: 13, offset: 53407},
+																				pos: position{line: 1639, col: 13, offset: 53461},
 																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
-																					pos: position{line: 1639, col: 13, offset: 53407},
+																					pos: position{line: 1639, col: 13, offset: 53461},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1639, col: 13, offset: 53407},
+																							pos: position{line: 1639, col: 13, offset: 53461},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1639, col: 14, offset: 53408},
+																								pos:        position{line: 1639, col: 14, offset: 53462},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29100,7 +29136,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1639, col: 26, offset: 53420},
+																							pos:        position{line: 1639, col: 26, offset: 53474},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29109,15 +29145,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1641, col: 13, offset: 53540},
+																				pos: position{line: 1641, col: 13, offset: 53594},
 																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
-																					pos: position{line: 1641, col: 13, offset: 53540},
+																					pos: position{line: 1641, col: 13, offset: 53594},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1641, col: 13, offset: 53540},
+																							pos: position{line: 1641, col: 13, offset: 53594},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1641, col: 14, offset: 53541},
+																								pos:        position{line: 1641, col: 14, offset: 53595},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29125,7 +29161,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1641, col: 26, offset: 53553},
+																							pos:        position{line: 1641, col: 26, offset: 53607},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29137,12 +29173,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2938, col: 11, offset: 92913},
+																	pos: position{line: 2938, col: 11, offset: 92967},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2938, col: 11, offset: 92913},
+																		pos: position{line: 2938, col: 11, offset: 92967},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2938, col: 11, offset: 92913},
+																			pos:        position{line: 2938, col: 11, offset: 92967},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29155,20 +29191,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1538, col: 5, offset: 50109},
+													pos: position{line: 1538, col: 5, offset: 50163},
 													expr: &actionExpr{
-														pos: position{line: 1658, col: 5, offset: 54092},
+														pos: position{line: 1658, col: 5, offset: 54146},
 														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
-															pos: position{line: 1658, col: 5, offset: 54092},
+															pos: position{line: 1658, col: 5, offset: 54146},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1658, col: 5, offset: 54092},
+																	pos: position{line: 1658, col: 5, offset: 54146},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92852},
+																		pos: position{line: 2934, col: 10, offset: 92906},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92852},
+																			pos:        position{line: 2934, col: 10, offset: 92906},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29177,24 +29213,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1659, col: 5, offset: 54104},
+																	pos:   position{line: 1659, col: 5, offset: 54158},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1660, col: 9, offset: 54120},
+																		pos: position{line: 1660, col: 9, offset: 54174},
 																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
-																			pos: position{line: 1660, col: 10, offset: 54121},
+																			pos: position{line: 1660, col: 10, offset: 54175},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1660, col: 11, offset: 54122},
+																					pos:        position{line: 1660, col: 11, offset: 54176},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1660, col: 18, offset: 54129},
+																					pos: position{line: 1660, col: 18, offset: 54183},
 																					expr: &litMatcher{
-																						pos:        position{line: 1660, col: 19, offset: 54130},
+																						pos:        position{line: 1660, col: 19, offset: 54184},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29205,16 +29241,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1663, col: 7, offset: 54220},
+																	pos: position{line: 1663, col: 7, offset: 54274},
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2938, col: 11, offset: 92913},
+																	pos: position{line: 2938, col: 11, offset: 92967},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2938, col: 11, offset: 92913},
+																		pos: position{line: 2938, col: 11, offset: 92967},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2938, col: 11, offset: 92913},
+																			pos:        position{line: 2938, col: 11, offset: 92967},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29227,29 +29263,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1539, col: 5, offset: 50141},
+													pos: position{line: 1539, col: 5, offset: 50195},
 													expr: &actionExpr{
-														pos: position{line: 1748, col: 5, offset: 56661},
+														pos: position{line: 1748, col: 5, offset: 56715},
 														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1748, col: 5, offset: 56661},
+															pos: position{line: 1748, col: 5, offset: 56715},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1748, col: 5, offset: 56661},
+																	pos:        position{line: 1748, col: 5, offset: 56715},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1748, col: 9, offset: 56665},
+																	pos:   position{line: 1748, col: 9, offset: 56719},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1748, col: 14, offset: 56670},
+																		pos: position{line: 1748, col: 14, offset: 56724},
 																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1748, col: 14, offset: 56670},
+																			pos: position{line: 1748, col: 14, offset: 56724},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1748, col: 14, offset: 56670},
+																				pos:        position{line: 1748, col: 14, offset: 56724},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -29259,18 +29295,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1748, col: 62, offset: 56718},
+																	pos:        position{line: 1748, col: 62, offset: 56772},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2938, col: 11, offset: 92913},
+																	pos: position{line: 2938, col: 11, offset: 92967},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2938, col: 11, offset: 92913},
+																		pos: position{line: 2938, col: 11, offset: 92967},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2938, col: 11, offset: 92913},
+																			pos:        position{line: 2938, col: 11, offset: 92967},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29283,31 +29319,31 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1540, col: 5, offset: 50171},
+													pos: position{line: 1540, col: 5, offset: 50225},
 													expr: &seqExpr{
-														pos: position{line: 1540, col: 7, offset: 50173},
+														pos: position{line: 1540, col: 7, offset: 50227},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1693, col: 5, offset: 55111},
+																pos: position{line: 1693, col: 5, offset: 55165},
 																run: (*parser).callonExtraListElement604,
 																expr: &seqExpr{
-																	pos: position{line: 1693, col: 5, offset: 55111},
+																	pos: position{line: 1693, col: 5, offset: 55165},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1693, col: 5, offset: 55111},
+																			pos: position{line: 1693, col: 5, offset: 55165},
 																			expr: &seqExpr{
-																				pos: position{line: 2542, col: 31, offset: 81880},
+																				pos: position{line: 2542, col: 31, offset: 81934},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2542, col: 31, offset: 81880},
+																						pos:        position{line: 2542, col: 31, offset: 81934},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2542, col: 36, offset: 81885},
+																						pos: position{line: 2542, col: 36, offset: 81939},
 																						expr: &litMatcher{
-																							pos:        position{line: 2542, col: 37, offset: 81886},
+																							pos:        position{line: 2542, col: 37, offset: 81940},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -29317,28 +29353,28 @@ var g = &grammar{
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1694, col: 5, offset: 55143},
+																			pos: position{line: 1694, col: 5, offset: 55197},
 																			expr: &seqExpr{
-																				pos: position{line: 1694, col: 6, offset: 55144},
+																				pos: position{line: 1694, col: 6, offset: 55198},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1694, col: 6, offset: 55144},
+																						pos: position{line: 1694, col: 6, offset: 55198},
 																						expr: &actionExpr{
-																							pos: position{line: 1699, col: 5, offset: 55294},
+																							pos: position{line: 1699, col: 5, offset: 55348},
 																							run: (*parser).callonExtraListElement614,
 																							expr: &seqExpr{
-																								pos: position{line: 1699, col: 5, offset: 55294},
+																								pos: position{line: 1699, col: 5, offset: 55348},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1699, col: 5, offset: 55294},
+																										pos:   position{line: 1699, col: 5, offset: 55348},
 																										label: "separator",
 																										expr: &actionExpr{
-																											pos: position{line: 1699, col: 16, offset: 55305},
+																											pos: position{line: 1699, col: 16, offset: 55359},
 																											run: (*parser).callonExtraListElement617,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1699, col: 16, offset: 55305},
+																												pos: position{line: 1699, col: 16, offset: 55359},
 																												expr: &litMatcher{
-																													pos:        position{line: 1699, col: 17, offset: 55306},
+																													pos:        position{line: 1699, col: 17, offset: 55360},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
@@ -29347,7 +29383,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1702, col: 5, offset: 55363},
+																										pos: position{line: 1702, col: 5, offset: 55417},
 																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
@@ -29355,30 +29391,30 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1694, col: 35, offset: 55173},
+																						pos: position{line: 1694, col: 35, offset: 55227},
 																						expr: &choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29387,16 +29423,16 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1694, col: 40, offset: 55178,
+																						line: 1694, col: 40, offset: 55232,
 																					},
 																				},
 																			},
@@ -29405,21 +29441,21 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1699, col: 5, offset: 55294},
+																pos: position{line: 1699, col: 5, offset: 55348},
 																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1699, col: 5, offset: 55294},
+																	pos: position{line: 1699, col: 5, offset: 55348},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1699, col: 5, offset: 55294},
+																			pos:   position{line: 1699, col: 5, offset: 55348},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1699, col: 16, offset: 55305},
+																				pos: position{line: 1699, col: 16, offset: 55359},
 																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1699, col: 16, offset: 55305},
+																					pos: position{line: 1699, col: 16, offset: 55359},
 																					expr: &litMatcher{
-																						pos:        position{line: 1699, col: 17, offset: 55306},
+																						pos:        position{line: 1699, col: 17, offset: 55360},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -29428,7 +29464,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1702, col: 5, offset: 55363},
+																			pos: position{line: 1702, col: 5, offset: 55417},
 																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
@@ -29438,7 +29474,7 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1541, col: 5, offset: 50229},
+													pos: position{line: 1541, col: 5, offset: 50283},
 													expr: &actionExpr{
 														pos: position{line: 749, col: 5, offset: 24130},
 														run: (*parser).callonExtraListElement639,
@@ -29448,7 +29484,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 749, col: 5, offset: 24130},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2824, col: 13, offset: 89947},
+																		pos:        position{line: 2824, col: 13, offset: 90001},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -29498,10 +29534,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 767, col: 8, offset: 24774},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92852},
+																								pos: position{line: 2934, col: 10, offset: 92906},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92852},
+																									pos:        position{line: 2934, col: 10, offset: 92906},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29510,28 +29546,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29540,9 +29576,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -29587,10 +29623,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 774, col: 8, offset: 25022},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92852},
+																								pos: position{line: 2934, col: 10, offset: 92906},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92852},
+																									pos:        position{line: 2934, col: 10, offset: 92906},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29599,28 +29635,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29629,9 +29665,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -29672,10 +29708,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 52, offset: 25434},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92852},
+																								pos: position{line: 2934, col: 10, offset: 92906},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92852},
+																									pos:        position{line: 2934, col: 10, offset: 92906},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29684,28 +29720,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29714,9 +29750,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -29761,10 +29797,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 781, col: 8, offset: 25268},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92852},
+																								pos: position{line: 2934, col: 10, offset: 92906},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92852},
+																									pos:        position{line: 2934, col: 10, offset: 92906},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29773,28 +29809,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29803,9 +29839,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -29850,10 +29886,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 796, col: 8, offset: 25806},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92852},
+																								pos: position{line: 2934, col: 10, offset: 92906},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92852},
+																									pos:        position{line: 2934, col: 10, offset: 92906},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29862,28 +29898,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29892,9 +29928,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -29939,10 +29975,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 810, col: 8, offset: 26282},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92852},
+																								pos: position{line: 2934, col: 10, offset: 92906},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92852},
+																									pos:        position{line: 2934, col: 10, offset: 92906},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29951,28 +29987,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29981,9 +30017,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -30028,10 +30064,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 817, col: 8, offset: 26534},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92852},
+																								pos: position{line: 2934, col: 10, offset: 92906},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92852},
+																									pos:        position{line: 2934, col: 10, offset: 92906},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30040,28 +30076,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30070,9 +30106,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -30117,10 +30153,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 824, col: 8, offset: 26784},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92852},
+																								pos: position{line: 2934, col: 10, offset: 92906},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92852},
+																									pos:        position{line: 2934, col: 10, offset: 92906},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30129,28 +30165,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30159,9 +30195,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -30206,10 +30242,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 831, col: 8, offset: 27030},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92852},
+																								pos: position{line: 2934, col: 10, offset: 92906},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92852},
+																									pos:        position{line: 2934, col: 10, offset: 92906},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30218,28 +30254,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30248,9 +30284,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -30266,15 +30302,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1542, col: 5, offset: 50249},
+													pos:   position{line: 1542, col: 5, offset: 50303},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2884, col: 14, offset: 91445},
+														pos: position{line: 2884, col: 14, offset: 91499},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2884, col: 14, offset: 91445},
+															pos: position{line: 2884, col: 14, offset: 91499},
 															expr: &charClassMatcher{
-																pos:        position{line: 2884, col: 14, offset: 91445},
+																pos:        position{line: 2884, col: 14, offset: 91499},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -30284,28 +30320,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2956, col: 8, offset: 93250},
+													pos: position{line: 2956, col: 8, offset: 93304},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93023},
+															pos: position{line: 2943, col: 12, offset: 93077},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93024},
+																pos: position{line: 2943, col: 13, offset: 93078},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93024},
+																		pos:        position{line: 2943, col: 13, offset: 93078},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93031},
+																		pos:        position{line: 2943, col: 20, offset: 93085},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93040},
+																		pos:        position{line: 2943, col: 29, offset: 93094},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30314,9 +30350,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93200},
+															pos: position{line: 2953, col: 8, offset: 93254},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93201,
+																line: 2953, col: 9, offset: 93255,
 															},
 														},
 													},
@@ -30333,28 +30369,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1558, col: 1, offset: 50640},
+			pos:  position{line: 1558, col: 1, offset: 50694},
 			expr: &actionExpr{
-				pos: position{line: 1559, col: 5, offset: 50665},
+				pos: position{line: 1559, col: 5, offset: 50719},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1559, col: 5, offset: 50665},
+					pos: position{line: 1559, col: 5, offset: 50719},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1559, col: 5, offset: 50665},
+							pos:   position{line: 1559, col: 5, offset: 50719},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1559, col: 12, offset: 50672},
+								pos: position{line: 1559, col: 12, offset: 50726},
 								expr: &seqExpr{
-									pos: position{line: 1559, col: 13, offset: 50673},
+									pos: position{line: 1559, col: 13, offset: 50727},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1559, col: 13, offset: 50673},
+											pos: position{line: 1559, col: 13, offset: 50727},
 											expr: &actionExpr{
-												pos: position{line: 2934, col: 10, offset: 92852},
+												pos: position{line: 2934, col: 10, offset: 92906},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2934, col: 10, offset: 92852},
+													pos:        position{line: 2934, col: 10, offset: 92906},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -30363,25 +30399,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2943, col: 12, offset: 93023},
+											pos: position{line: 2943, col: 12, offset: 93077},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2943, col: 13, offset: 93024},
+												pos: position{line: 2943, col: 13, offset: 93078},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2943, col: 13, offset: 93024},
+														pos:        position{line: 2943, col: 13, offset: 93078},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2943, col: 20, offset: 93031},
+														pos:        position{line: 2943, col: 20, offset: 93085},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2943, col: 29, offset: 93040},
+														pos:        position{line: 2943, col: 29, offset: 93094},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -30394,18 +30430,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1567, col: 27, offset: 50911},
+							pos:        position{line: 1567, col: 27, offset: 50965},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1567, col: 31, offset: 50915},
+							pos: position{line: 1567, col: 31, offset: 50969},
 							expr: &actionExpr{
-								pos: position{line: 2934, col: 10, offset: 92852},
+								pos: position{line: 2934, col: 10, offset: 92906},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2934, col: 10, offset: 92852},
+									pos:        position{line: 2934, col: 10, offset: 92906},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -30414,25 +30450,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2943, col: 12, offset: 93023},
+							pos: position{line: 2943, col: 12, offset: 93077},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2943, col: 13, offset: 93024},
+								pos: position{line: 2943, col: 13, offset: 93078},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2943, col: 13, offset: 93024},
+										pos:        position{line: 2943, col: 13, offset: 93078},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2943, col: 20, offset: 93031},
+										pos:        position{line: 2943, col: 20, offset: 93085},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2943, col: 29, offset: 93040},
+										pos:        position{line: 2943, col: 29, offset: 93094},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -30441,38 +30477,38 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1561, col: 5, offset: 50722},
+							pos: position{line: 1561, col: 5, offset: 50776},
 							expr: &actionExpr{
-								pos: position{line: 2537, col: 22, offset: 81630},
+								pos: position{line: 2537, col: 22, offset: 81684},
 								run: (*parser).callonListContinuation24,
 								expr: &seqExpr{
-									pos: position{line: 2537, col: 22, offset: 81630},
+									pos: position{line: 2537, col: 22, offset: 81684},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2542, col: 31, offset: 81880},
+											pos:        position{line: 2542, col: 31, offset: 81934},
 											val:        "//",
 											ignoreCase: false,
 											want:       "\"//\"",
 										},
 										&notExpr{
-											pos: position{line: 2542, col: 36, offset: 81885},
+											pos: position{line: 2542, col: 36, offset: 81939},
 											expr: &litMatcher{
-												pos:        position{line: 2542, col: 37, offset: 81886},
+												pos:        position{line: 2542, col: 37, offset: 81940},
 												val:        "/",
 												ignoreCase: false,
 												want:       "\"/\"",
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2537, col: 49, offset: 81657},
+											pos:   position{line: 2537, col: 49, offset: 81711},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2880, col: 13, offset: 91378},
+												pos: position{line: 2880, col: 13, offset: 91432},
 												run: (*parser).callonListContinuation30,
 												expr: &zeroOrMoreExpr{
-													pos: position{line: 2880, col: 13, offset: 91378},
+													pos: position{line: 2880, col: 13, offset: 91432},
 													expr: &charClassMatcher{
-														pos:        position{line: 2880, col: 13, offset: 91378},
+														pos:        position{line: 2880, col: 13, offset: 91432},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -30482,28 +30518,28 @@ var g = &grammar{
 											},
 										},
 										&choiceExpr{
-											pos: position{line: 2956, col: 8, offset: 93250},
+											pos: position{line: 2956, col: 8, offset: 93304},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2943, col: 12, offset: 93023},
+													pos: position{line: 2943, col: 12, offset: 93077},
 													run: (*parser).callonListContinuation34,
 													expr: &choiceExpr{
-														pos: position{line: 2943, col: 13, offset: 93024},
+														pos: position{line: 2943, col: 13, offset: 93078},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2943, col: 13, offset: 93024},
+																pos:        position{line: 2943, col: 13, offset: 93078},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2943, col: 20, offset: 93031},
+																pos:        position{line: 2943, col: 20, offset: 93085},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2943, col: 29, offset: 93040},
+																pos:        position{line: 2943, col: 29, offset: 93094},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -30512,9 +30548,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2953, col: 8, offset: 93200},
+													pos: position{line: 2953, col: 8, offset: 93254},
 													expr: &anyMatcher{
-														line: 2953, col: 9, offset: 93201,
+														line: 2953, col: 9, offset: 93255,
 													},
 												},
 											},
@@ -30524,12 +30560,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1562, col: 5, offset: 50756},
+							pos:   position{line: 1562, col: 5, offset: 50810},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1562, col: 13, offset: 50764},
+								pos: position{line: 1562, col: 13, offset: 50818},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1562, col: 13, offset: 50764},
+									pos:  position{line: 1562, col: 13, offset: 50818},
 									name: "ListContinuationElement",
 								},
 							},
@@ -30540,46 +30576,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1569, col: 1, offset: 50931},
+			pos:  position{line: 1569, col: 1, offset: 50985},
 			expr: &actionExpr{
-				pos: position{line: 1570, col: 5, offset: 51002},
+				pos: position{line: 1570, col: 5, offset: 51056},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1570, col: 5, offset: 51002},
+					pos: position{line: 1570, col: 5, offset: 51056},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2951, col: 11, offset: 93186},
+							pos: position{line: 2951, col: 11, offset: 93240},
 							expr: &anyMatcher{
-								line: 2951, col: 13, offset: 93188,
+								line: 2951, col: 13, offset: 93242,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1571, col: 5, offset: 51030},
+							pos: position{line: 1571, col: 5, offset: 51084},
 							expr: &choiceExpr{
-								pos: position{line: 1507, col: 5, offset: 48954},
+								pos: position{line: 1507, col: 5, offset: 49008},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1601, col: 5, offset: 51922},
+										pos: position{line: 1601, col: 5, offset: 51976},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1601, col: 5, offset: 51922},
+											pos: position{line: 1601, col: 5, offset: 51976},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1601, col: 5, offset: 51922},
+													pos:   position{line: 1601, col: 5, offset: 51976},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1608, col: 5, offset: 52130},
+														pos: position{line: 1608, col: 5, offset: 52184},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1608, col: 5, offset: 52130},
+															pos: position{line: 1608, col: 5, offset: 52184},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1608, col: 5, offset: 52130},
+																	pos: position{line: 1608, col: 5, offset: 52184},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92852},
+																		pos: position{line: 2934, col: 10, offset: 92906},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92852},
+																			pos:        position{line: 2934, col: 10, offset: 92906},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30588,27 +30624,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1608, col: 12, offset: 52137},
+																	pos:   position{line: 1608, col: 12, offset: 52191},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1610, col: 9, offset: 52200},
+																		pos: position{line: 1610, col: 9, offset: 52254},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1610, col: 9, offset: 52200},
+																				pos: position{line: 1610, col: 9, offset: 52254},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 9, offset: 52200},
+																					pos: position{line: 1610, col: 9, offset: 52254},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1610, col: 9, offset: 52200},
+																							pos:   position{line: 1610, col: 9, offset: 52254},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1610, col: 16, offset: 52207},
+																								pos: position{line: 1610, col: 16, offset: 52261},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1610, col: 16, offset: 52207},
+																									pos: position{line: 1610, col: 16, offset: 52261},
 																									expr: &litMatcher{
-																										pos:        position{line: 1610, col: 17, offset: 52208},
+																										pos:        position{line: 1610, col: 17, offset: 52262},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -30617,22 +30653,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1614, col: 9, offset: 52308},
+																							pos: position{line: 1614, col: 9, offset: 52362},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1633, col: 11, offset: 53025},
+																				pos: position{line: 1633, col: 11, offset: 53079},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1633, col: 11, offset: 53025},
+																					pos: position{line: 1633, col: 11, offset: 53079},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1633, col: 11, offset: 53025},
+																							pos: position{line: 1633, col: 11, offset: 53079},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1633, col: 12, offset: 53026},
+																								pos:        position{line: 1633, col: 12, offset: 53080},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -30640,7 +30676,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1633, col: 20, offset: 53034},
+																							pos:        position{line: 1633, col: 20, offset: 53088},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30649,20 +30685,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1635, col: 13, offset: 53151},
+																				pos: position{line: 1635, col: 13, offset: 53205},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1635, col: 13, offset: 53151},
+																					pos: position{line: 1635, col: 13, offset: 53205},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1635, col: 14, offset: 53152},
+																							pos:        position{line: 1635, col: 14, offset: 53206},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1635, col: 21, offset: 53159},
+																							pos:        position{line: 1635, col: 21, offset: 53213},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30671,20 +30707,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1637, col: 13, offset: 53279},
+																				pos: position{line: 1637, col: 13, offset: 53333},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1637, col: 13, offset: 53279},
+																					pos: position{line: 1637, col: 13, offset: 53333},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1637, col: 14, offset: 53280},
+																							pos:        position{line: 1637, col: 14, offset: 53334},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1637, col: 21, offset: 53287},
+																							pos:        position{line: 1637, col: 21, offset: 53341},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30693,15 +30729,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1639, col: 13, offset: 53407},
+																				pos: position{line: 1639, col: 13, offset: 53461},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1639, col: 13, offset: 53407},
+																					pos: position{line: 1639, col: 13, offset: 53461},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1639, col: 13, offset: 53407},
+																							pos: position{line: 1639, col: 13, offset: 53461},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1639, col: 14, offset: 53408},
+																								pos:        position{line: 1639, col: 14, offset: 53462},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -30709,7 +30745,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1639, col: 26, offset: 53420},
+																							pos:        position{line: 1639, col: 26, offset: 53474},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30718,15 +30754,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1641, col: 13, offset: 53540},
+																				pos: position{line: 1641, col: 13, offset: 53594},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1641, col: 13, offset: 53540},
+																					pos: position{line: 1641, col: 13, offset: 53594},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1641, col: 13, offset: 53540},
+																							pos: position{line: 1641, col: 13, offset: 53594},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1641, col: 14, offset: 53541},
+																								pos:        position{line: 1641, col: 14, offset: 53595},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -30734,7 +30770,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1641, col: 26, offset: 53553},
+																							pos:        position{line: 1641, col: 26, offset: 53607},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30746,12 +30782,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2938, col: 11, offset: 92913},
+																	pos: position{line: 2938, col: 11, offset: 92967},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2938, col: 11, offset: 92913},
+																		pos: position{line: 2938, col: 11, offset: 92967},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2938, col: 11, offset: 92913},
+																			pos:        position{line: 2938, col: 11, offset: 92967},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30764,26 +30800,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1602, col: 5, offset: 51961},
+													pos:   position{line: 1602, col: 5, offset: 52015},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1548, col: 5, offset: 50394},
+														pos: position{line: 1548, col: 5, offset: 50448},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1548, col: 5, offset: 50394},
+															pos: position{line: 1548, col: 5, offset: 50448},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1548, col: 5, offset: 50394},
+																	pos:   position{line: 1548, col: 5, offset: 50448},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1548, col: 14, offset: 50403},
+																		pos: position{line: 1548, col: 14, offset: 50457},
 																		expr: &actionExpr{
-																			pos: position{line: 1548, col: 15, offset: 50404},
+																			pos: position{line: 1548, col: 15, offset: 50458},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1548, col: 15, offset: 50404},
+																				pos: position{line: 1548, col: 15, offset: 50458},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1548, col: 15, offset: 50404},
+																					pos:        position{line: 1548, col: 15, offset: 50458},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30794,28 +30830,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93250},
+																	pos: position{line: 2956, col: 8, offset: 93304},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93023},
+																			pos: position{line: 2943, col: 12, offset: 93077},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93024},
+																				pos: position{line: 2943, col: 13, offset: 93078},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93024},
+																						pos:        position{line: 2943, col: 13, offset: 93078},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93031},
+																						pos:        position{line: 2943, col: 20, offset: 93085},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93040},
+																						pos:        position{line: 2943, col: 29, offset: 93094},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30824,9 +30860,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93200},
+																			pos: position{line: 2953, col: 8, offset: 93254},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93201,
+																				line: 2953, col: 9, offset: 93255,
 																			},
 																		},
 																	},
@@ -30839,27 +30875,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1651, col: 5, offset: 53819},
+										pos: position{line: 1651, col: 5, offset: 53873},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1651, col: 5, offset: 53819},
+											pos: position{line: 1651, col: 5, offset: 53873},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1651, col: 5, offset: 53819},
+													pos:   position{line: 1651, col: 5, offset: 53873},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1658, col: 5, offset: 54092},
+														pos: position{line: 1658, col: 5, offset: 54146},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1658, col: 5, offset: 54092},
+															pos: position{line: 1658, col: 5, offset: 54146},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1658, col: 5, offset: 54092},
+																	pos: position{line: 1658, col: 5, offset: 54146},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92852},
+																		pos: position{line: 2934, col: 10, offset: 92906},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92852},
+																			pos:        position{line: 2934, col: 10, offset: 92906},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30868,24 +30904,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1659, col: 5, offset: 54104},
+																	pos:   position{line: 1659, col: 5, offset: 54158},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1660, col: 9, offset: 54120},
+																		pos: position{line: 1660, col: 9, offset: 54174},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1660, col: 10, offset: 54121},
+																			pos: position{line: 1660, col: 10, offset: 54175},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1660, col: 11, offset: 54122},
+																					pos:        position{line: 1660, col: 11, offset: 54176},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1660, col: 18, offset: 54129},
+																					pos: position{line: 1660, col: 18, offset: 54183},
 																					expr: &litMatcher{
-																						pos:        position{line: 1660, col: 19, offset: 54130},
+																						pos:        position{line: 1660, col: 19, offset: 54184},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -30896,16 +30932,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1663, col: 7, offset: 54220},
+																	pos: position{line: 1663, col: 7, offset: 54274},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2938, col: 11, offset: 92913},
+																	pos: position{line: 2938, col: 11, offset: 92967},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2938, col: 11, offset: 92913},
+																		pos: position{line: 2938, col: 11, offset: 92967},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2938, col: 11, offset: 92913},
+																			pos:        position{line: 2938, col: 11, offset: 92967},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30918,56 +30954,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1652, col: 5, offset: 53860},
+													pos:   position{line: 1652, col: 5, offset: 53914},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1652, col: 16, offset: 53871},
+														pos: position{line: 1652, col: 16, offset: 53925},
 														expr: &actionExpr{
-															pos: position{line: 1673, col: 5, offset: 54485},
+															pos: position{line: 1673, col: 5, offset: 54539},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1673, col: 5, offset: 54485},
+																pos: position{line: 1673, col: 5, offset: 54539},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1673, col: 5, offset: 54485},
+																		pos: position{line: 1673, col: 5, offset: 54539},
 																		expr: &litMatcher{
-																			pos:        position{line: 1673, col: 6, offset: 54486},
+																			pos:        position{line: 1673, col: 6, offset: 54540},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1673, col: 10, offset: 54490},
+																		pos:   position{line: 1673, col: 10, offset: 54544},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1674, col: 7, offset: 54504},
+																			pos: position{line: 1674, col: 7, offset: 54558},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1674, col: 7, offset: 54504},
+																					pos: position{line: 1674, col: 7, offset: 54558},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1674, col: 7, offset: 54504},
+																						pos:        position{line: 1674, col: 7, offset: 54558},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1675, col: 7, offset: 54549},
+																					pos: position{line: 1675, col: 7, offset: 54603},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1675, col: 7, offset: 54549},
+																						pos:        position{line: 1675, col: 7, offset: 54603},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1676, col: 7, offset: 54592},
+																					pos: position{line: 1676, col: 7, offset: 54646},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1676, col: 7, offset: 54592},
+																						pos:        position{line: 1676, col: 7, offset: 54646},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -30977,12 +31013,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2938, col: 11, offset: 92913},
+																		pos: position{line: 2938, col: 11, offset: 92967},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2938, col: 11, offset: 92913},
+																			pos: position{line: 2938, col: 11, offset: 92967},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2938, col: 11, offset: 92913},
+																				pos:        position{line: 2938, col: 11, offset: 92967},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30996,26 +31032,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1653, col: 5, offset: 53910},
+													pos:   position{line: 1653, col: 5, offset: 53964},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1548, col: 5, offset: 50394},
+														pos: position{line: 1548, col: 5, offset: 50448},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1548, col: 5, offset: 50394},
+															pos: position{line: 1548, col: 5, offset: 50448},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1548, col: 5, offset: 50394},
+																	pos:   position{line: 1548, col: 5, offset: 50448},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1548, col: 14, offset: 50403},
+																		pos: position{line: 1548, col: 14, offset: 50457},
 																		expr: &actionExpr{
-																			pos: position{line: 1548, col: 15, offset: 50404},
+																			pos: position{line: 1548, col: 15, offset: 50458},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1548, col: 15, offset: 50404},
+																				pos: position{line: 1548, col: 15, offset: 50458},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1548, col: 15, offset: 50404},
+																					pos:        position{line: 1548, col: 15, offset: 50458},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -31026,28 +31062,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93250},
+																	pos: position{line: 2956, col: 8, offset: 93304},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93023},
+																			pos: position{line: 2943, col: 12, offset: 93077},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93024},
+																				pos: position{line: 2943, col: 13, offset: 93078},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93024},
+																						pos:        position{line: 2943, col: 13, offset: 93078},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93031},
+																						pos:        position{line: 2943, col: 20, offset: 93085},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93040},
+																						pos:        position{line: 2943, col: 29, offset: 93094},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31056,9 +31092,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93200},
+																			pos: position{line: 2953, col: 8, offset: 93254},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93201,
+																				line: 2953, col: 9, offset: 93255,
 																			},
 																		},
 																	},
@@ -31071,36 +31107,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1742, col: 5, offset: 56464},
+										pos: position{line: 1742, col: 5, offset: 56518},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1742, col: 5, offset: 56464},
+											pos: position{line: 1742, col: 5, offset: 56518},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1742, col: 5, offset: 56464},
+													pos:   position{line: 1742, col: 5, offset: 56518},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1748, col: 5, offset: 56661},
+														pos: position{line: 1748, col: 5, offset: 56715},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1748, col: 5, offset: 56661},
+															pos: position{line: 1748, col: 5, offset: 56715},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1748, col: 5, offset: 56661},
+																	pos:        position{line: 1748, col: 5, offset: 56715},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1748, col: 9, offset: 56665},
+																	pos:   position{line: 1748, col: 9, offset: 56719},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1748, col: 14, offset: 56670},
+																		pos: position{line: 1748, col: 14, offset: 56724},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1748, col: 14, offset: 56670},
+																			pos: position{line: 1748, col: 14, offset: 56724},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1748, col: 14, offset: 56670},
+																				pos:        position{line: 1748, col: 14, offset: 56724},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -31110,18 +31146,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1748, col: 62, offset: 56718},
+																	pos:        position{line: 1748, col: 62, offset: 56772},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2938, col: 11, offset: 92913},
+																	pos: position{line: 2938, col: 11, offset: 92967},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2938, col: 11, offset: 92913},
+																		pos: position{line: 2938, col: 11, offset: 92967},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2938, col: 11, offset: 92913},
+																			pos:        position{line: 2938, col: 11, offset: 92967},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31134,26 +31170,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1743, col: 5, offset: 56500},
+													pos:   position{line: 1743, col: 5, offset: 56554},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1548, col: 5, offset: 50394},
+														pos: position{line: 1548, col: 5, offset: 50448},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1548, col: 5, offset: 50394},
+															pos: position{line: 1548, col: 5, offset: 50448},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1548, col: 5, offset: 50394},
+																	pos:   position{line: 1548, col: 5, offset: 50448},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1548, col: 14, offset: 50403},
+																		pos: position{line: 1548, col: 14, offset: 50457},
 																		expr: &actionExpr{
-																			pos: position{line: 1548, col: 15, offset: 50404},
+																			pos: position{line: 1548, col: 15, offset: 50458},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1548, col: 15, offset: 50404},
+																				pos: position{line: 1548, col: 15, offset: 50458},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1548, col: 15, offset: 50404},
+																					pos:        position{line: 1548, col: 15, offset: 50458},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -31164,28 +31200,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93250},
+																	pos: position{line: 2956, col: 8, offset: 93304},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93023},
+																			pos: position{line: 2943, col: 12, offset: 93077},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93024},
+																				pos: position{line: 2943, col: 13, offset: 93078},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93024},
+																						pos:        position{line: 2943, col: 13, offset: 93078},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93031},
+																						pos:        position{line: 2943, col: 20, offset: 93085},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93040},
+																						pos:        position{line: 2943, col: 29, offset: 93094},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31194,9 +31230,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93200},
+																			pos: position{line: 2953, col: 8, offset: 93254},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93201,
+																				line: 2953, col: 9, offset: 93255,
 																			},
 																		},
 																	},
@@ -31209,35 +31245,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1685, col: 5, offset: 54785},
+										pos: position{line: 1685, col: 5, offset: 54839},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1685, col: 5, offset: 54785},
+											pos: position{line: 1685, col: 5, offset: 54839},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1685, col: 5, offset: 54785},
+													pos:   position{line: 1685, col: 5, offset: 54839},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1693, col: 5, offset: 55111},
+														pos: position{line: 1693, col: 5, offset: 55165},
 														run: (*parser).callonListContinuationElement150,
 														expr: &seqExpr{
-															pos: position{line: 1693, col: 5, offset: 55111},
+															pos: position{line: 1693, col: 5, offset: 55165},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1693, col: 5, offset: 55111},
+																	pos: position{line: 1693, col: 5, offset: 55165},
 																	expr: &seqExpr{
-																		pos: position{line: 2542, col: 31, offset: 81880},
+																		pos: position{line: 2542, col: 31, offset: 81934},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2542, col: 31, offset: 81880},
+																				pos:        position{line: 2542, col: 31, offset: 81934},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2542, col: 36, offset: 81885},
+																				pos: position{line: 2542, col: 36, offset: 81939},
 																				expr: &litMatcher{
-																					pos:        position{line: 2542, col: 37, offset: 81886},
+																					pos:        position{line: 2542, col: 37, offset: 81940},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -31247,28 +31283,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1694, col: 5, offset: 55143},
+																	pos: position{line: 1694, col: 5, offset: 55197},
 																	expr: &seqExpr{
-																		pos: position{line: 1694, col: 6, offset: 55144},
+																		pos: position{line: 1694, col: 6, offset: 55198},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1694, col: 6, offset: 55144},
+																				pos: position{line: 1694, col: 6, offset: 55198},
 																				expr: &actionExpr{
-																					pos: position{line: 1699, col: 5, offset: 55294},
+																					pos: position{line: 1699, col: 5, offset: 55348},
 																					run: (*parser).callonListContinuationElement160,
 																					expr: &seqExpr{
-																						pos: position{line: 1699, col: 5, offset: 55294},
+																						pos: position{line: 1699, col: 5, offset: 55348},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1699, col: 5, offset: 55294},
+																								pos:   position{line: 1699, col: 5, offset: 55348},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1699, col: 16, offset: 55305},
+																									pos: position{line: 1699, col: 16, offset: 55359},
 																									run: (*parser).callonListContinuationElement163,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1699, col: 16, offset: 55305},
+																										pos: position{line: 1699, col: 16, offset: 55359},
 																										expr: &litMatcher{
-																											pos:        position{line: 1699, col: 17, offset: 55306},
+																											pos:        position{line: 1699, col: 17, offset: 55360},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -31277,7 +31313,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1702, col: 5, offset: 55363},
+																								pos: position{line: 1702, col: 5, offset: 55417},
 																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
@@ -31285,30 +31321,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1694, col: 35, offset: 55173},
+																				pos: position{line: 1694, col: 35, offset: 55227},
 																				expr: &choiceExpr{
-																					pos: position{line: 2956, col: 8, offset: 93250},
+																					pos: position{line: 2956, col: 8, offset: 93304},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2943, col: 12, offset: 93023},
+																							pos: position{line: 2943, col: 12, offset: 93077},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2943, col: 13, offset: 93024},
+																								pos: position{line: 2943, col: 13, offset: 93078},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 13, offset: 93024},
+																										pos:        position{line: 2943, col: 13, offset: 93078},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 20, offset: 93031},
+																										pos:        position{line: 2943, col: 20, offset: 93085},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 29, offset: 93040},
+																										pos:        position{line: 2943, col: 29, offset: 93094},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31317,16 +31353,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93200},
+																							pos: position{line: 2953, col: 8, offset: 93254},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93201,
+																								line: 2953, col: 9, offset: 93255,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1694, col: 40, offset: 55178,
+																				line: 1694, col: 40, offset: 55232,
 																			},
 																		},
 																	},
@@ -31336,24 +31372,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1686, col: 5, offset: 54820},
+													pos:   position{line: 1686, col: 5, offset: 54874},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1699, col: 5, offset: 55294},
+														pos: position{line: 1699, col: 5, offset: 55348},
 														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1699, col: 5, offset: 55294},
+															pos: position{line: 1699, col: 5, offset: 55348},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1699, col: 5, offset: 55294},
+																	pos:   position{line: 1699, col: 5, offset: 55348},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1699, col: 16, offset: 55305},
+																		pos: position{line: 1699, col: 16, offset: 55359},
 																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1699, col: 16, offset: 55305},
+																			pos: position{line: 1699, col: 16, offset: 55359},
 																			expr: &litMatcher{
-																				pos:        position{line: 1699, col: 17, offset: 55306},
+																				pos:        position{line: 1699, col: 17, offset: 55360},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -31362,7 +31398,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1702, col: 5, offset: 55363},
+																	pos: position{line: 1702, col: 5, offset: 55417},
 																	run: (*parser).callonListContinuationElement184,
 																},
 															},
@@ -31370,24 +31406,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1687, col: 5, offset: 54865},
+													pos:   position{line: 1687, col: 5, offset: 54919},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1710, col: 5, offset: 55612},
+														pos: position{line: 1710, col: 5, offset: 55666},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1712, col: 9, offset: 55678},
+																pos: position{line: 1712, col: 9, offset: 55732},
 																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1712, col: 9, offset: 55678},
+																	pos: position{line: 1712, col: 9, offset: 55732},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1712, col: 9, offset: 55678},
+																			pos: position{line: 1712, col: 9, offset: 55732},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92852},
+																				pos: position{line: 2934, col: 10, offset: 92906},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92852},
+																					pos:        position{line: 2934, col: 10, offset: 92906},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31396,28 +31432,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93250},
+																			pos: position{line: 2956, col: 8, offset: 93304},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93023},
+																					pos: position{line: 2943, col: 12, offset: 93077},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93024},
+																						pos: position{line: 2943, col: 13, offset: 93078},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93024},
+																								pos:        position{line: 2943, col: 13, offset: 93078},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93031},
+																								pos:        position{line: 2943, col: 20, offset: 93085},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93040},
+																								pos:        position{line: 2943, col: 29, offset: 93094},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31426,15 +31462,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1713, col: 9, offset: 55697},
+																			pos: position{line: 1713, col: 9, offset: 55751},
 																			expr: &actionExpr{
 																				pos: position{line: 702, col: 14, offset: 22577},
 																				run: (*parser).callonListContinuationElement201,
@@ -31442,18 +31478,18 @@ var g = &grammar{
 																					pos: position{line: 702, col: 14, offset: 22577},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2951, col: 11, offset: 93186},
+																							pos: position{line: 2951, col: 11, offset: 93240},
 																							expr: &anyMatcher{
-																								line: 2951, col: 13, offset: 93188,
+																								line: 2951, col: 13, offset: 93242,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 702, col: 21, offset: 22584},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92852},
+																								pos: position{line: 2934, col: 10, offset: 92906},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92852},
+																									pos:        position{line: 2934, col: 10, offset: 92906},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31462,28 +31498,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31492,9 +31528,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -31507,18 +31543,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1719, col: 9, offset: 55826},
+																pos: position{line: 1719, col: 9, offset: 55880},
 																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1719, col: 9, offset: 55826},
+																	pos: position{line: 1719, col: 9, offset: 55880},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2938, col: 11, offset: 92913},
+																			pos: position{line: 2938, col: 11, offset: 92967},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2938, col: 11, offset: 92913},
+																				pos: position{line: 2938, col: 11, offset: 92967},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2938, col: 11, offset: 92913},
+																					pos:        position{line: 2938, col: 11, offset: 92967},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31527,15 +31563,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1720, col: 9, offset: 55899},
+																			pos:   position{line: 1720, col: 9, offset: 55953},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1720, col: 18, offset: 55908},
+																				pos: position{line: 1720, col: 18, offset: 55962},
 																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1720, col: 18, offset: 55908},
+																					pos: position{line: 1720, col: 18, offset: 55962},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1720, col: 18, offset: 55908},
+																						pos:        position{line: 1720, col: 18, offset: 55962},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -31545,28 +31581,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93250},
+																			pos: position{line: 2956, col: 8, offset: 93304},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93023},
+																					pos: position{line: 2943, col: 12, offset: 93077},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93024},
+																						pos: position{line: 2943, col: 13, offset: 93078},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93024},
+																								pos:        position{line: 2943, col: 13, offset: 93078},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93031},
+																								pos:        position{line: 2943, col: 20, offset: 93085},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93040},
+																								pos:        position{line: 2943, col: 29, offset: 93094},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31575,9 +31611,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -31595,21 +31631,21 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1572, col: 5, offset: 51047},
+							pos:   position{line: 1572, col: 5, offset: 51101},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1572, col: 16, offset: 51058},
+								pos: position{line: 1572, col: 16, offset: 51112},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1572, col: 17, offset: 51059},
+									pos:  position{line: 1572, col: 17, offset: 51113},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1573, col: 5, offset: 51081},
+							pos:   position{line: 1573, col: 5, offset: 51135},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1574, col: 9, offset: 51099},
+								pos: position{line: 1574, col: 9, offset: 51153},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 702, col: 14, offset: 22577},
@@ -31618,18 +31654,18 @@ var g = &grammar{
 											pos: position{line: 702, col: 14, offset: 22577},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2951, col: 11, offset: 93186},
+													pos: position{line: 2951, col: 11, offset: 93240},
 													expr: &anyMatcher{
-														line: 2951, col: 13, offset: 93188,
+														line: 2951, col: 13, offset: 93242,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 702, col: 21, offset: 22584},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92852},
+														pos: position{line: 2934, col: 10, offset: 92906},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92852},
+															pos:        position{line: 2934, col: 10, offset: 92906},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31638,28 +31674,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2956, col: 8, offset: 93250},
+													pos: position{line: 2956, col: 8, offset: 93304},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93023},
+															pos: position{line: 2943, col: 12, offset: 93077},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93024},
+																pos: position{line: 2943, col: 13, offset: 93078},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93024},
+																		pos:        position{line: 2943, col: 13, offset: 93078},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93031},
+																		pos:        position{line: 2943, col: 20, offset: 93085},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93040},
+																		pos:        position{line: 2943, col: 29, offset: 93094},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31668,9 +31704,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93200},
+															pos: position{line: 2953, col: 8, offset: 93254},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93201,
+																line: 2953, col: 9, offset: 93255,
 															},
 														},
 													},
@@ -31679,7 +31715,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1575, col: 11, offset: 51119},
+										pos:  position{line: 1575, col: 11, offset: 51173},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -31735,10 +31771,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 49, offset: 11042},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92852},
+														pos: position{line: 2934, col: 10, offset: 92906},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92852},
+															pos:        position{line: 2934, col: 10, offset: 92906},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31747,28 +31783,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2956, col: 8, offset: 93250},
+													pos: position{line: 2956, col: 8, offset: 93304},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93023},
+															pos: position{line: 2943, col: 12, offset: 93077},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93024},
+																pos: position{line: 2943, col: 13, offset: 93078},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93024},
+																		pos:        position{line: 2943, col: 13, offset: 93078},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93031},
+																		pos:        position{line: 2943, col: 20, offset: 93085},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93040},
+																		pos:        position{line: 2943, col: 29, offset: 93094},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31777,9 +31813,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93200},
+															pos: position{line: 2953, col: 8, offset: 93254},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93201,
+																line: 2953, col: 9, offset: 93255,
 															},
 														},
 													},
@@ -31840,10 +31876,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 364, col: 39, offset: 11163},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92852},
+														pos: position{line: 2934, col: 10, offset: 92906},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92852},
+															pos:        position{line: 2934, col: 10, offset: 92906},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31852,28 +31888,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2956, col: 8, offset: 93250},
+													pos: position{line: 2956, col: 8, offset: 93304},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93023},
+															pos: position{line: 2943, col: 12, offset: 93077},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93024},
+																pos: position{line: 2943, col: 13, offset: 93078},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93024},
+																		pos:        position{line: 2943, col: 13, offset: 93078},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93031},
+																		pos:        position{line: 2943, col: 20, offset: 93085},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93040},
+																		pos:        position{line: 2943, col: 29, offset: 93094},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31882,9 +31918,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93200},
+															pos: position{line: 2953, col: 8, offset: 93254},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93201,
+																line: 2953, col: 9, offset: 93255,
 															},
 														},
 													},
@@ -31935,10 +31971,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 767, col: 8, offset: 24774},
 																expr: &actionExpr{
-																	pos: position{line: 2934, col: 10, offset: 92852},
+																	pos: position{line: 2934, col: 10, offset: 92906},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2934, col: 10, offset: 92852},
+																		pos:        position{line: 2934, col: 10, offset: 92906},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31947,28 +31983,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2956, col: 8, offset: 93250},
+																pos: position{line: 2956, col: 8, offset: 93304},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2943, col: 12, offset: 93023},
+																		pos: position{line: 2943, col: 12, offset: 93077},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2943, col: 13, offset: 93024},
+																			pos: position{line: 2943, col: 13, offset: 93078},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 13, offset: 93024},
+																					pos:        position{line: 2943, col: 13, offset: 93078},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 20, offset: 93031},
+																					pos:        position{line: 2943, col: 20, offset: 93085},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 29, offset: 93040},
+																					pos:        position{line: 2943, col: 29, offset: 93094},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31977,9 +32013,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93200},
+																		pos: position{line: 2953, col: 8, offset: 93254},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93201,
+																			line: 2953, col: 9, offset: 93255,
 																		},
 																	},
 																},
@@ -32040,10 +32076,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 767, col: 8, offset: 24774},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92852},
+																									pos: position{line: 2934, col: 10, offset: 92906},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92852},
+																										pos:        position{line: 2934, col: 10, offset: 92906},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -32052,28 +32088,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2956, col: 8, offset: 93250},
+																								pos: position{line: 2956, col: 8, offset: 93304},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2943, col: 12, offset: 93023},
+																										pos: position{line: 2943, col: 12, offset: 93077},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2943, col: 13, offset: 93024},
+																											pos: position{line: 2943, col: 13, offset: 93078},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 13, offset: 93024},
+																													pos:        position{line: 2943, col: 13, offset: 93078},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 20, offset: 93031},
+																													pos:        position{line: 2943, col: 20, offset: 93085},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 29, offset: 93040},
+																													pos:        position{line: 2943, col: 29, offset: 93094},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -32082,9 +32118,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93200},
+																										pos: position{line: 2953, col: 8, offset: 93254},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93201,
+																											line: 2953, col: 9, offset: 93255,
 																										},
 																									},
 																								},
@@ -32093,9 +32129,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -32111,21 +32147,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2951, col: 11, offset: 93186},
+																						pos: position{line: 2951, col: 11, offset: 93240},
 																						expr: &anyMatcher{
-																							line: 2951, col: 13, offset: 93188,
+																							line: 2951, col: 13, offset: 93242,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 13, offset: 91378},
+																							pos: position{line: 2880, col: 13, offset: 91432},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2880, col: 13, offset: 91378},
+																								pos: position{line: 2880, col: 13, offset: 91432},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 13, offset: 91378},
+																									pos:        position{line: 2880, col: 13, offset: 91432},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32135,28 +32171,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93250},
+																						pos: position{line: 2956, col: 8, offset: 93304},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93023},
+																								pos: position{line: 2943, col: 12, offset: 93077},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93024},
+																									pos: position{line: 2943, col: 13, offset: 93078},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93024},
+																											pos:        position{line: 2943, col: 13, offset: 93078},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93031},
+																											pos:        position{line: 2943, col: 20, offset: 93085},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93040},
+																											pos:        position{line: 2943, col: 29, offset: 93094},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32165,9 +32201,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93200},
+																								pos: position{line: 2953, col: 8, offset: 93254},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93201,
+																									line: 2953, col: 9, offset: 93255,
 																								},
 																							},
 																						},
@@ -32223,10 +32259,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 767, col: 8, offset: 24774},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92852},
+																				pos: position{line: 2934, col: 10, offset: 92906},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92852},
+																					pos:        position{line: 2934, col: 10, offset: 92906},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -32235,28 +32271,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93250},
+																			pos: position{line: 2956, col: 8, offset: 93304},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93023},
+																					pos: position{line: 2943, col: 12, offset: 93077},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93024},
+																						pos: position{line: 2943, col: 13, offset: 93078},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93024},
+																								pos:        position{line: 2943, col: 13, offset: 93078},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93031},
+																								pos:        position{line: 2943, col: 20, offset: 93085},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93040},
+																								pos:        position{line: 2943, col: 29, offset: 93094},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32265,9 +32301,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -32276,9 +32312,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93200},
+																pos: position{line: 2953, col: 8, offset: 93254},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93201,
+																	line: 2953, col: 9, offset: 93255,
 																},
 															},
 														},
@@ -32333,10 +32369,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 774, col: 8, offset: 25022},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92852},
+																		pos: position{line: 2934, col: 10, offset: 92906},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92852},
+																			pos:        position{line: 2934, col: 10, offset: 92906},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32345,28 +32381,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93250},
+																	pos: position{line: 2956, col: 8, offset: 93304},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93023},
+																			pos: position{line: 2943, col: 12, offset: 93077},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93024},
+																				pos: position{line: 2943, col: 13, offset: 93078},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93024},
+																						pos:        position{line: 2943, col: 13, offset: 93078},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93031},
+																						pos:        position{line: 2943, col: 20, offset: 93085},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93040},
+																						pos:        position{line: 2943, col: 29, offset: 93094},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32375,9 +32411,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93200},
+																			pos: position{line: 2953, col: 8, offset: 93254},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93201,
+																				line: 2953, col: 9, offset: 93255,
 																			},
 																		},
 																	},
@@ -32449,10 +32485,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 774, col: 8, offset: 25022},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92852},
+																												pos: position{line: 2934, col: 10, offset: 92906},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92852},
+																													pos:        position{line: 2934, col: 10, offset: 92906},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32461,28 +32497,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93250},
+																											pos: position{line: 2956, col: 8, offset: 93304},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93023},
+																													pos: position{line: 2943, col: 12, offset: 93077},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93024},
+																														pos: position{line: 2943, col: 13, offset: 93078},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93024},
+																																pos:        position{line: 2943, col: 13, offset: 93078},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93031},
+																																pos:        position{line: 2943, col: 20, offset: 93085},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93040},
+																																pos:        position{line: 2943, col: 29, offset: 93094},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32491,9 +32527,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93200},
+																													pos: position{line: 2953, col: 8, offset: 93254},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93201,
+																														line: 2953, col: 9, offset: 93255,
 																													},
 																												},
 																											},
@@ -32509,9 +32545,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -32527,21 +32563,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2951, col: 11, offset: 93186},
+																						pos: position{line: 2951, col: 11, offset: 93240},
 																						expr: &anyMatcher{
-																							line: 2951, col: 13, offset: 93188,
+																							line: 2951, col: 13, offset: 93242,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 13, offset: 91378},
+																							pos: position{line: 2880, col: 13, offset: 91432},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2880, col: 13, offset: 91378},
+																								pos: position{line: 2880, col: 13, offset: 91432},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 13, offset: 91378},
+																									pos:        position{line: 2880, col: 13, offset: 91432},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32551,28 +32587,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93250},
+																						pos: position{line: 2956, col: 8, offset: 93304},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93023},
+																								pos: position{line: 2943, col: 12, offset: 93077},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93024},
+																									pos: position{line: 2943, col: 13, offset: 93078},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93024},
+																											pos:        position{line: 2943, col: 13, offset: 93078},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93031},
+																											pos:        position{line: 2943, col: 20, offset: 93085},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93040},
+																											pos:        position{line: 2943, col: 29, offset: 93094},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32581,9 +32617,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93200},
+																								pos: position{line: 2953, col: 8, offset: 93254},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93201,
+																									line: 2953, col: 9, offset: 93255,
 																								},
 																							},
 																						},
@@ -32648,10 +32684,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 774, col: 8, offset: 25022},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92852},
+																								pos: position{line: 2934, col: 10, offset: 92906},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92852},
+																									pos:        position{line: 2934, col: 10, offset: 92906},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32660,28 +32696,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32690,9 +32726,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -32708,9 +32744,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2953, col: 8, offset: 93200},
+																	pos: position{line: 2953, col: 8, offset: 93254},
 																	expr: &anyMatcher{
-																		line: 2953, col: 9, offset: 93201,
+																		line: 2953, col: 9, offset: 93255,
 																	},
 																},
 															},
@@ -32762,10 +32798,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 785, col: 52, offset: 25434},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92852},
+																		pos: position{line: 2934, col: 10, offset: 92906},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92852},
+																			pos:        position{line: 2934, col: 10, offset: 92906},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32774,28 +32810,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93250},
+																	pos: position{line: 2956, col: 8, offset: 93304},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93023},
+																			pos: position{line: 2943, col: 12, offset: 93077},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93024},
+																				pos: position{line: 2943, col: 13, offset: 93078},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93024},
+																						pos:        position{line: 2943, col: 13, offset: 93078},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93031},
+																						pos:        position{line: 2943, col: 20, offset: 93085},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93040},
+																						pos:        position{line: 2943, col: 29, offset: 93094},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32804,9 +32840,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93200},
+																			pos: position{line: 2953, col: 8, offset: 93254},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93201,
+																				line: 2953, col: 9, offset: 93255,
 																			},
 																		},
 																	},
@@ -32840,10 +32876,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 988, col: 40, offset: 31237},
 																					expr: &actionExpr{
-																						pos: position{line: 2934, col: 10, offset: 92852},
+																						pos: position{line: 2934, col: 10, offset: 92906},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2934, col: 10, offset: 92852},
+																							pos:        position{line: 2934, col: 10, offset: 92906},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32852,28 +32888,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2956, col: 8, offset: 93250},
+																					pos: position{line: 2956, col: 8, offset: 93304},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2943, col: 12, offset: 93023},
+																							pos: position{line: 2943, col: 12, offset: 93077},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2943, col: 13, offset: 93024},
+																								pos: position{line: 2943, col: 13, offset: 93078},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 13, offset: 93024},
+																										pos:        position{line: 2943, col: 13, offset: 93078},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 20, offset: 93031},
+																										pos:        position{line: 2943, col: 20, offset: 93085},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 29, offset: 93040},
+																										pos:        position{line: 2943, col: 29, offset: 93094},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32882,9 +32918,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93200},
+																							pos: position{line: 2953, col: 8, offset: 93254},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93201,
+																								line: 2953, col: 9, offset: 93255,
 																							},
 																						},
 																					},
@@ -32902,21 +32938,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2951, col: 11, offset: 93186},
+																						pos: position{line: 2951, col: 11, offset: 93240},
 																						expr: &anyMatcher{
-																							line: 2951, col: 13, offset: 93188,
+																							line: 2951, col: 13, offset: 93242,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 13, offset: 91378},
+																							pos: position{line: 2880, col: 13, offset: 91432},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2880, col: 13, offset: 91378},
+																								pos: position{line: 2880, col: 13, offset: 91432},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 13, offset: 91378},
+																									pos:        position{line: 2880, col: 13, offset: 91432},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32926,28 +32962,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93250},
+																						pos: position{line: 2956, col: 8, offset: 93304},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93023},
+																								pos: position{line: 2943, col: 12, offset: 93077},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93024},
+																									pos: position{line: 2943, col: 13, offset: 93078},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93024},
+																											pos:        position{line: 2943, col: 13, offset: 93078},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93031},
+																											pos:        position{line: 2943, col: 20, offset: 93085},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93040},
+																											pos:        position{line: 2943, col: 29, offset: 93094},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32956,9 +32992,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93200},
+																								pos: position{line: 2953, col: 8, offset: 93254},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93201,
+																									line: 2953, col: 9, offset: 93255,
 																								},
 																							},
 																						},
@@ -32986,10 +33022,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 988, col: 40, offset: 31237},
 																expr: &actionExpr{
-																	pos: position{line: 2934, col: 10, offset: 92852},
+																	pos: position{line: 2934, col: 10, offset: 92906},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2934, col: 10, offset: 92852},
+																		pos:        position{line: 2934, col: 10, offset: 92906},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32998,28 +33034,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2956, col: 8, offset: 93250},
+																pos: position{line: 2956, col: 8, offset: 93304},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2943, col: 12, offset: 93023},
+																		pos: position{line: 2943, col: 12, offset: 93077},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2943, col: 13, offset: 93024},
+																			pos: position{line: 2943, col: 13, offset: 93078},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 13, offset: 93024},
+																					pos:        position{line: 2943, col: 13, offset: 93078},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 20, offset: 93031},
+																					pos:        position{line: 2943, col: 20, offset: 93085},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 29, offset: 93040},
+																					pos:        position{line: 2943, col: 29, offset: 93094},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -33028,9 +33064,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93200},
+																		pos: position{line: 2953, col: 8, offset: 93254},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93201,
+																			line: 2953, col: 9, offset: 93255,
 																		},
 																	},
 																},
@@ -33087,10 +33123,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 781, col: 8, offset: 25268},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92852},
+																		pos: position{line: 2934, col: 10, offset: 92906},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92852},
+																			pos:        position{line: 2934, col: 10, offset: 92906},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33099,28 +33135,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93250},
+																	pos: position{line: 2956, col: 8, offset: 93304},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93023},
+																			pos: position{line: 2943, col: 12, offset: 93077},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93024},
+																				pos: position{line: 2943, col: 13, offset: 93078},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93024},
+																						pos:        position{line: 2943, col: 13, offset: 93078},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93031},
+																						pos:        position{line: 2943, col: 20, offset: 93085},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93040},
+																						pos:        position{line: 2943, col: 29, offset: 93094},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33129,9 +33165,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93200},
+																			pos: position{line: 2953, col: 8, offset: 93254},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93201,
+																				line: 2953, col: 9, offset: 93255,
 																			},
 																		},
 																	},
@@ -33203,10 +33239,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 781, col: 8, offset: 25268},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92852},
+																												pos: position{line: 2934, col: 10, offset: 92906},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92852},
+																													pos:        position{line: 2934, col: 10, offset: 92906},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33215,28 +33251,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93250},
+																											pos: position{line: 2956, col: 8, offset: 93304},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93023},
+																													pos: position{line: 2943, col: 12, offset: 93077},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93024},
+																														pos: position{line: 2943, col: 13, offset: 93078},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93024},
+																																pos:        position{line: 2943, col: 13, offset: 93078},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93031},
+																																pos:        position{line: 2943, col: 20, offset: 93085},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93040},
+																																pos:        position{line: 2943, col: 29, offset: 93094},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33245,9 +33281,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93200},
+																													pos: position{line: 2953, col: 8, offset: 93254},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93201,
+																														line: 2953, col: 9, offset: 93255,
 																													},
 																												},
 																											},
@@ -33263,9 +33299,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -33281,21 +33317,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2951, col: 11, offset: 93186},
+																						pos: position{line: 2951, col: 11, offset: 93240},
 																						expr: &anyMatcher{
-																							line: 2951, col: 13, offset: 93188,
+																							line: 2951, col: 13, offset: 93242,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 13, offset: 91378},
+																							pos: position{line: 2880, col: 13, offset: 91432},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2880, col: 13, offset: 91378},
+																								pos: position{line: 2880, col: 13, offset: 91432},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 13, offset: 91378},
+																									pos:        position{line: 2880, col: 13, offset: 91432},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33305,28 +33341,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93250},
+																						pos: position{line: 2956, col: 8, offset: 93304},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93023},
+																								pos: position{line: 2943, col: 12, offset: 93077},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93024},
+																									pos: position{line: 2943, col: 13, offset: 93078},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93024},
+																											pos:        position{line: 2943, col: 13, offset: 93078},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93031},
+																											pos:        position{line: 2943, col: 20, offset: 93085},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93040},
+																											pos:        position{line: 2943, col: 29, offset: 93094},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33335,9 +33371,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93200},
+																								pos: position{line: 2953, col: 8, offset: 93254},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93201,
+																									line: 2953, col: 9, offset: 93255,
 																								},
 																							},
 																						},
@@ -33402,10 +33438,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 781, col: 8, offset: 25268},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92852},
+																								pos: position{line: 2934, col: 10, offset: 92906},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92852},
+																									pos:        position{line: 2934, col: 10, offset: 92906},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33414,28 +33450,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33444,9 +33480,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -33462,9 +33498,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2953, col: 8, offset: 93200},
+																	pos: position{line: 2953, col: 8, offset: 93254},
 																	expr: &anyMatcher{
-																		line: 2953, col: 9, offset: 93201,
+																		line: 2953, col: 9, offset: 93255,
 																	},
 																},
 															},
@@ -33520,10 +33556,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 796, col: 8, offset: 25806},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92852},
+																		pos: position{line: 2934, col: 10, offset: 92906},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92852},
+																			pos:        position{line: 2934, col: 10, offset: 92906},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33532,28 +33568,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93250},
+																	pos: position{line: 2956, col: 8, offset: 93304},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93023},
+																			pos: position{line: 2943, col: 12, offset: 93077},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93024},
+																				pos: position{line: 2943, col: 13, offset: 93078},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93024},
+																						pos:        position{line: 2943, col: 13, offset: 93078},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93031},
+																						pos:        position{line: 2943, col: 20, offset: 93085},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93040},
+																						pos:        position{line: 2943, col: 29, offset: 93094},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33562,9 +33598,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93200},
+																			pos: position{line: 2953, col: 8, offset: 93254},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93201,
+																				line: 2953, col: 9, offset: 93255,
 																			},
 																		},
 																	},
@@ -33636,10 +33672,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 796, col: 8, offset: 25806},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92852},
+																												pos: position{line: 2934, col: 10, offset: 92906},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92852},
+																													pos:        position{line: 2934, col: 10, offset: 92906},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33648,28 +33684,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93250},
+																											pos: position{line: 2956, col: 8, offset: 93304},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93023},
+																													pos: position{line: 2943, col: 12, offset: 93077},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93024},
+																														pos: position{line: 2943, col: 13, offset: 93078},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93024},
+																																pos:        position{line: 2943, col: 13, offset: 93078},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93031},
+																																pos:        position{line: 2943, col: 20, offset: 93085},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93040},
+																																pos:        position{line: 2943, col: 29, offset: 93094},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33678,9 +33714,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93200},
+																													pos: position{line: 2953, col: 8, offset: 93254},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93201,
+																														line: 2953, col: 9, offset: 93255,
 																													},
 																												},
 																											},
@@ -33696,9 +33732,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -33714,21 +33750,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2951, col: 11, offset: 93186},
+																						pos: position{line: 2951, col: 11, offset: 93240},
 																						expr: &anyMatcher{
-																							line: 2951, col: 13, offset: 93188,
+																							line: 2951, col: 13, offset: 93242,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 13, offset: 91378},
+																							pos: position{line: 2880, col: 13, offset: 91432},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2880, col: 13, offset: 91378},
+																								pos: position{line: 2880, col: 13, offset: 91432},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 13, offset: 91378},
+																									pos:        position{line: 2880, col: 13, offset: 91432},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33738,28 +33774,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93250},
+																						pos: position{line: 2956, col: 8, offset: 93304},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93023},
+																								pos: position{line: 2943, col: 12, offset: 93077},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93024},
+																									pos: position{line: 2943, col: 13, offset: 93078},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93024},
+																											pos:        position{line: 2943, col: 13, offset: 93078},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93031},
+																											pos:        position{line: 2943, col: 20, offset: 93085},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93040},
+																											pos:        position{line: 2943, col: 29, offset: 93094},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33768,9 +33804,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93200},
+																								pos: position{line: 2953, col: 8, offset: 93254},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93201,
+																									line: 2953, col: 9, offset: 93255,
 																								},
 																							},
 																						},
@@ -33835,10 +33871,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 796, col: 8, offset: 25806},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92852},
+																								pos: position{line: 2934, col: 10, offset: 92906},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92852},
+																									pos:        position{line: 2934, col: 10, offset: 92906},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33847,28 +33883,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33877,9 +33913,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -33895,9 +33931,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2953, col: 8, offset: 93200},
+																	pos: position{line: 2953, col: 8, offset: 93254},
 																	expr: &anyMatcher{
-																		line: 2953, col: 9, offset: 93201,
+																		line: 2953, col: 9, offset: 93255,
 																	},
 																},
 															},
@@ -33953,10 +33989,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 810, col: 8, offset: 26282},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92852},
+																		pos: position{line: 2934, col: 10, offset: 92906},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92852},
+																			pos:        position{line: 2934, col: 10, offset: 92906},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33965,28 +34001,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93250},
+																	pos: position{line: 2956, col: 8, offset: 93304},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93023},
+																			pos: position{line: 2943, col: 12, offset: 93077},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93024},
+																				pos: position{line: 2943, col: 13, offset: 93078},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93024},
+																						pos:        position{line: 2943, col: 13, offset: 93078},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93031},
+																						pos:        position{line: 2943, col: 20, offset: 93085},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93040},
+																						pos:        position{line: 2943, col: 29, offset: 93094},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33995,9 +34031,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93200},
+																			pos: position{line: 2953, col: 8, offset: 93254},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93201,
+																				line: 2953, col: 9, offset: 93255,
 																			},
 																		},
 																	},
@@ -34069,10 +34105,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 810, col: 8, offset: 26282},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92852},
+																												pos: position{line: 2934, col: 10, offset: 92906},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92852},
+																													pos:        position{line: 2934, col: 10, offset: 92906},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34081,28 +34117,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93250},
+																											pos: position{line: 2956, col: 8, offset: 93304},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93023},
+																													pos: position{line: 2943, col: 12, offset: 93077},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93024},
+																														pos: position{line: 2943, col: 13, offset: 93078},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93024},
+																																pos:        position{line: 2943, col: 13, offset: 93078},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93031},
+																																pos:        position{line: 2943, col: 20, offset: 93085},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93040},
+																																pos:        position{line: 2943, col: 29, offset: 93094},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34111,9 +34147,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93200},
+																													pos: position{line: 2953, col: 8, offset: 93254},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93201,
+																														line: 2953, col: 9, offset: 93255,
 																													},
 																												},
 																											},
@@ -34129,9 +34165,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -34147,21 +34183,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2951, col: 11, offset: 93186},
+																						pos: position{line: 2951, col: 11, offset: 93240},
 																						expr: &anyMatcher{
-																							line: 2951, col: 13, offset: 93188,
+																							line: 2951, col: 13, offset: 93242,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 13, offset: 91378},
+																							pos: position{line: 2880, col: 13, offset: 91432},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2880, col: 13, offset: 91378},
+																								pos: position{line: 2880, col: 13, offset: 91432},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 13, offset: 91378},
+																									pos:        position{line: 2880, col: 13, offset: 91432},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34171,28 +34207,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93250},
+																						pos: position{line: 2956, col: 8, offset: 93304},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93023},
+																								pos: position{line: 2943, col: 12, offset: 93077},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93024},
+																									pos: position{line: 2943, col: 13, offset: 93078},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93024},
+																											pos:        position{line: 2943, col: 13, offset: 93078},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93031},
+																											pos:        position{line: 2943, col: 20, offset: 93085},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93040},
+																											pos:        position{line: 2943, col: 29, offset: 93094},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34201,9 +34237,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93200},
+																								pos: position{line: 2953, col: 8, offset: 93254},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93201,
+																									line: 2953, col: 9, offset: 93255,
 																								},
 																							},
 																						},
@@ -34268,10 +34304,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 810, col: 8, offset: 26282},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92852},
+																								pos: position{line: 2934, col: 10, offset: 92906},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92852},
+																									pos:        position{line: 2934, col: 10, offset: 92906},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34280,28 +34316,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34310,9 +34346,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -34328,9 +34364,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2953, col: 8, offset: 93200},
+																	pos: position{line: 2953, col: 8, offset: 93254},
 																	expr: &anyMatcher{
-																		line: 2953, col: 9, offset: 93201,
+																		line: 2953, col: 9, offset: 93255,
 																	},
 																},
 															},
@@ -34364,18 +34400,18 @@ var g = &grammar{
 																			pos: position{line: 702, col: 14, offset: 22577},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2951, col: 11, offset: 93186},
+																					pos: position{line: 2951, col: 11, offset: 93240},
 																					expr: &anyMatcher{
-																						line: 2951, col: 13, offset: 93188,
+																						line: 2951, col: 13, offset: 93242,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 702, col: 21, offset: 22584},
 																					expr: &actionExpr{
-																						pos: position{line: 2934, col: 10, offset: 92852},
+																						pos: position{line: 2934, col: 10, offset: 92906},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2934, col: 10, offset: 92852},
+																							pos:        position{line: 2934, col: 10, offset: 92906},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -34384,28 +34420,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2956, col: 8, offset: 93250},
+																					pos: position{line: 2956, col: 8, offset: 93304},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2943, col: 12, offset: 93023},
+																							pos: position{line: 2943, col: 12, offset: 93077},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2943, col: 13, offset: 93024},
+																								pos: position{line: 2943, col: 13, offset: 93078},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 13, offset: 93024},
+																										pos:        position{line: 2943, col: 13, offset: 93078},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 20, offset: 93031},
+																										pos:        position{line: 2943, col: 20, offset: 93085},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 29, offset: 93040},
+																										pos:        position{line: 2943, col: 29, offset: 93094},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -34414,9 +34450,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93200},
+																							pos: position{line: 2953, col: 8, offset: 93254},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93201,
+																								line: 2953, col: 9, offset: 93255,
 																							},
 																						},
 																					},
@@ -34435,12 +34471,12 @@ var g = &grammar{
 																	pos:   position{line: 1009, col: 5, offset: 31772},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2884, col: 14, offset: 91445},
+																		pos: position{line: 2884, col: 14, offset: 91499},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2884, col: 14, offset: 91445},
+																			pos: position{line: 2884, col: 14, offset: 91499},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2884, col: 14, offset: 91445},
+																				pos:        position{line: 2884, col: 14, offset: 91499},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -34450,28 +34486,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93250},
+																	pos: position{line: 2956, col: 8, offset: 93304},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93023},
+																			pos: position{line: 2943, col: 12, offset: 93077},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93024},
+																				pos: position{line: 2943, col: 13, offset: 93078},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93024},
+																						pos:        position{line: 2943, col: 13, offset: 93078},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93031},
+																						pos:        position{line: 2943, col: 20, offset: 93085},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93040},
+																						pos:        position{line: 2943, col: 29, offset: 93094},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34480,9 +34516,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93200},
+																			pos: position{line: 2953, col: 8, offset: 93254},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93201,
+																				line: 2953, col: 9, offset: 93255,
 																			},
 																		},
 																	},
@@ -34514,18 +34550,18 @@ var g = &grammar{
 																						pos: position{line: 702, col: 14, offset: 22577},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2951, col: 11, offset: 93186},
+																								pos: position{line: 2951, col: 11, offset: 93240},
 																								expr: &anyMatcher{
-																									line: 2951, col: 13, offset: 93188,
+																									line: 2951, col: 13, offset: 93242,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 702, col: 21, offset: 22584},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92852},
+																									pos: position{line: 2934, col: 10, offset: 92906},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92852},
+																										pos:        position{line: 2934, col: 10, offset: 92906},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34534,28 +34570,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2956, col: 8, offset: 93250},
+																								pos: position{line: 2956, col: 8, offset: 93304},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2943, col: 12, offset: 93023},
+																										pos: position{line: 2943, col: 12, offset: 93077},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2943, col: 13, offset: 93024},
+																											pos: position{line: 2943, col: 13, offset: 93078},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 13, offset: 93024},
+																													pos:        position{line: 2943, col: 13, offset: 93078},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 20, offset: 93031},
+																													pos:        position{line: 2943, col: 20, offset: 93085},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 29, offset: 93040},
+																													pos:        position{line: 2943, col: 29, offset: 93094},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34564,9 +34600,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93200},
+																										pos: position{line: 2953, col: 8, offset: 93254},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93201,
+																											line: 2953, col: 9, offset: 93255,
 																										},
 																									},
 																								},
@@ -34585,12 +34621,12 @@ var g = &grammar{
 																				pos:   position{line: 1009, col: 5, offset: 31772},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2884, col: 14, offset: 91445},
+																					pos: position{line: 2884, col: 14, offset: 91499},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2884, col: 14, offset: 91445},
+																						pos: position{line: 2884, col: 14, offset: 91499},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2884, col: 14, offset: 91445},
+																							pos:        position{line: 2884, col: 14, offset: 91499},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34600,28 +34636,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2956, col: 8, offset: 93250},
+																				pos: position{line: 2956, col: 8, offset: 93304},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2943, col: 12, offset: 93023},
+																						pos: position{line: 2943, col: 12, offset: 93077},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2943, col: 13, offset: 93024},
+																							pos: position{line: 2943, col: 13, offset: 93078},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 13, offset: 93024},
+																									pos:        position{line: 2943, col: 13, offset: 93078},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 20, offset: 93031},
+																									pos:        position{line: 2943, col: 20, offset: 93085},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 29, offset: 93040},
+																									pos:        position{line: 2943, col: 29, offset: 93094},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34630,9 +34666,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93200},
+																						pos: position{line: 2953, col: 8, offset: 93254},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93201,
+																							line: 2953, col: 9, offset: 93255,
 																						},
 																					},
 																				},
@@ -34641,21 +34677,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1816, col: 5, offset: 58912},
+																	pos: position{line: 1816, col: 5, offset: 58966},
 																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 1816, col: 5, offset: 58912},
+																		pos: position{line: 1816, col: 5, offset: 58966},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1816, col: 5, offset: 58912},
+																				pos:   position{line: 1816, col: 5, offset: 58966},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2884, col: 14, offset: 91445},
+																					pos: position{line: 2884, col: 14, offset: 91499},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2884, col: 14, offset: 91445},
+																						pos: position{line: 2884, col: 14, offset: 91499},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2884, col: 14, offset: 91445},
+																							pos:        position{line: 2884, col: 14, offset: 91499},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34665,32 +34701,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1817, col: 5, offset: 58936},
+																				pos: position{line: 1817, col: 5, offset: 58990},
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2956, col: 8, offset: 93250},
+																				pos: position{line: 2956, col: 8, offset: 93304},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2943, col: 12, offset: 93023},
+																						pos: position{line: 2943, col: 12, offset: 93077},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2943, col: 13, offset: 93024},
+																							pos: position{line: 2943, col: 13, offset: 93078},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 13, offset: 93024},
+																									pos:        position{line: 2943, col: 13, offset: 93078},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 20, offset: 93031},
+																									pos:        position{line: 2943, col: 20, offset: 93085},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 29, offset: 93040},
+																									pos:        position{line: 2943, col: 29, offset: 93094},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34699,9 +34735,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93200},
+																						pos: position{line: 2953, col: 8, offset: 93254},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93201,
+																							line: 2953, col: 9, offset: 93255,
 																						},
 																					},
 																				},
@@ -34748,10 +34784,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 803, col: 8, offset: 26037},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92852},
+																		pos: position{line: 2934, col: 10, offset: 92906},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92852},
+																			pos:        position{line: 2934, col: 10, offset: 92906},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34760,28 +34796,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93250},
+																	pos: position{line: 2956, col: 8, offset: 93304},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93023},
+																			pos: position{line: 2943, col: 12, offset: 93077},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93024},
+																				pos: position{line: 2943, col: 13, offset: 93078},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93024},
+																						pos:        position{line: 2943, col: 13, offset: 93078},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93031},
+																						pos:        position{line: 2943, col: 20, offset: 93085},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93040},
+																						pos:        position{line: 2943, col: 29, offset: 93094},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34790,9 +34826,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93200},
+																			pos: position{line: 2953, col: 8, offset: 93254},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93201,
+																				line: 2953, col: 9, offset: 93255,
 																			},
 																		},
 																	},
@@ -34840,10 +34876,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 803, col: 8, offset: 26037},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92852},
+																									pos: position{line: 2934, col: 10, offset: 92906},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92852},
+																										pos:        position{line: 2934, col: 10, offset: 92906},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34852,28 +34888,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2956, col: 8, offset: 93250},
+																								pos: position{line: 2956, col: 8, offset: 93304},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2943, col: 12, offset: 93023},
+																										pos: position{line: 2943, col: 12, offset: 93077},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2943, col: 13, offset: 93024},
+																											pos: position{line: 2943, col: 13, offset: 93078},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 13, offset: 93024},
+																													pos:        position{line: 2943, col: 13, offset: 93078},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 20, offset: 93031},
+																													pos:        position{line: 2943, col: 20, offset: 93085},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 29, offset: 93040},
+																													pos:        position{line: 2943, col: 29, offset: 93094},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34882,9 +34918,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93200},
+																										pos: position{line: 2953, col: 8, offset: 93254},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93201,
+																											line: 2953, col: 9, offset: 93255,
 																										},
 																									},
 																								},
@@ -34893,9 +34929,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -34911,21 +34947,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2951, col: 11, offset: 93186},
+																						pos: position{line: 2951, col: 11, offset: 93240},
 																						expr: &anyMatcher{
-																							line: 2951, col: 13, offset: 93188,
+																							line: 2951, col: 13, offset: 93242,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 13, offset: 91378},
+																							pos: position{line: 2880, col: 13, offset: 91432},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2880, col: 13, offset: 91378},
+																								pos: position{line: 2880, col: 13, offset: 91432},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 13, offset: 91378},
+																									pos:        position{line: 2880, col: 13, offset: 91432},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34935,28 +34971,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93250},
+																						pos: position{line: 2956, col: 8, offset: 93304},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93023},
+																								pos: position{line: 2943, col: 12, offset: 93077},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93024},
+																									pos: position{line: 2943, col: 13, offset: 93078},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93024},
+																											pos:        position{line: 2943, col: 13, offset: 93078},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93031},
+																											pos:        position{line: 2943, col: 20, offset: 93085},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93040},
+																											pos:        position{line: 2943, col: 29, offset: 93094},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34965,9 +35001,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93200},
+																								pos: position{line: 2953, col: 8, offset: 93254},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93201,
+																									line: 2953, col: 9, offset: 93255,
 																								},
 																							},
 																						},
@@ -35012,10 +35048,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 803, col: 8, offset: 26037},
 																				expr: &actionExpr{
-																					pos: position{line: 2934, col: 10, offset: 92852},
+																					pos: position{line: 2934, col: 10, offset: 92906},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2934, col: 10, offset: 92852},
+																						pos:        position{line: 2934, col: 10, offset: 92906},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35024,28 +35060,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2956, col: 8, offset: 93250},
+																				pos: position{line: 2956, col: 8, offset: 93304},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2943, col: 12, offset: 93023},
+																						pos: position{line: 2943, col: 12, offset: 93077},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2943, col: 13, offset: 93024},
+																							pos: position{line: 2943, col: 13, offset: 93078},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 13, offset: 93024},
+																									pos:        position{line: 2943, col: 13, offset: 93078},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 20, offset: 93031},
+																									pos:        position{line: 2943, col: 20, offset: 93085},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 29, offset: 93040},
+																									pos:        position{line: 2943, col: 29, offset: 93094},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35054,9 +35090,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93200},
+																						pos: position{line: 2953, col: 8, offset: 93254},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93201,
+																							line: 2953, col: 9, offset: 93255,
 																						},
 																					},
 																				},
@@ -35065,9 +35101,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2953, col: 8, offset: 93200},
+																	pos: position{line: 2953, col: 8, offset: 93254},
 																	expr: &anyMatcher{
-																		line: 2953, col: 9, offset: 93201,
+																		line: 2953, col: 9, offset: 93255,
 																	},
 																},
 															},
@@ -35123,10 +35159,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 817, col: 8, offset: 26534},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92852},
+																		pos: position{line: 2934, col: 10, offset: 92906},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92852},
+																			pos:        position{line: 2934, col: 10, offset: 92906},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35135,28 +35171,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93250},
+																	pos: position{line: 2956, col: 8, offset: 93304},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93023},
+																			pos: position{line: 2943, col: 12, offset: 93077},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93024},
+																				pos: position{line: 2943, col: 13, offset: 93078},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93024},
+																						pos:        position{line: 2943, col: 13, offset: 93078},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93031},
+																						pos:        position{line: 2943, col: 20, offset: 93085},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93040},
+																						pos:        position{line: 2943, col: 29, offset: 93094},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35165,9 +35201,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93200},
+																			pos: position{line: 2953, col: 8, offset: 93254},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93201,
+																				line: 2953, col: 9, offset: 93255,
 																			},
 																		},
 																	},
@@ -35239,10 +35275,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 817, col: 8, offset: 26534},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92852},
+																												pos: position{line: 2934, col: 10, offset: 92906},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92852},
+																													pos:        position{line: 2934, col: 10, offset: 92906},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35251,28 +35287,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93250},
+																											pos: position{line: 2956, col: 8, offset: 93304},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93023},
+																													pos: position{line: 2943, col: 12, offset: 93077},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93024},
+																														pos: position{line: 2943, col: 13, offset: 93078},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93024},
+																																pos:        position{line: 2943, col: 13, offset: 93078},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93031},
+																																pos:        position{line: 2943, col: 20, offset: 93085},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93040},
+																																pos:        position{line: 2943, col: 29, offset: 93094},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35281,9 +35317,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93200},
+																													pos: position{line: 2953, col: 8, offset: 93254},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93201,
+																														line: 2953, col: 9, offset: 93255,
 																													},
 																												},
 																											},
@@ -35299,9 +35335,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -35317,21 +35353,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2951, col: 11, offset: 93186},
+																						pos: position{line: 2951, col: 11, offset: 93240},
 																						expr: &anyMatcher{
-																							line: 2951, col: 13, offset: 93188,
+																							line: 2951, col: 13, offset: 93242,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 13, offset: 91378},
+																							pos: position{line: 2880, col: 13, offset: 91432},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2880, col: 13, offset: 91378},
+																								pos: position{line: 2880, col: 13, offset: 91432},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 13, offset: 91378},
+																									pos:        position{line: 2880, col: 13, offset: 91432},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35341,28 +35377,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93250},
+																						pos: position{line: 2956, col: 8, offset: 93304},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93023},
+																								pos: position{line: 2943, col: 12, offset: 93077},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93024},
+																									pos: position{line: 2943, col: 13, offset: 93078},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93024},
+																											pos:        position{line: 2943, col: 13, offset: 93078},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93031},
+																											pos:        position{line: 2943, col: 20, offset: 93085},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93040},
+																											pos:        position{line: 2943, col: 29, offset: 93094},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35371,9 +35407,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93200},
+																								pos: position{line: 2953, col: 8, offset: 93254},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93201,
+																									line: 2953, col: 9, offset: 93255,
 																								},
 																							},
 																						},
@@ -35438,10 +35474,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 817, col: 8, offset: 26534},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92852},
+																								pos: position{line: 2934, col: 10, offset: 92906},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92852},
+																									pos:        position{line: 2934, col: 10, offset: 92906},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35450,28 +35486,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35480,9 +35516,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -35498,9 +35534,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2953, col: 8, offset: 93200},
+																	pos: position{line: 2953, col: 8, offset: 93254},
 																	expr: &anyMatcher{
-																		line: 2953, col: 9, offset: 93201,
+																		line: 2953, col: 9, offset: 93255,
 																	},
 																},
 															},
@@ -35556,10 +35592,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 824, col: 8, offset: 26784},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92852},
+																		pos: position{line: 2934, col: 10, offset: 92906},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92852},
+																			pos:        position{line: 2934, col: 10, offset: 92906},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35568,28 +35604,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93250},
+																	pos: position{line: 2956, col: 8, offset: 93304},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93023},
+																			pos: position{line: 2943, col: 12, offset: 93077},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93024},
+																				pos: position{line: 2943, col: 13, offset: 93078},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93024},
+																						pos:        position{line: 2943, col: 13, offset: 93078},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93031},
+																						pos:        position{line: 2943, col: 20, offset: 93085},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93040},
+																						pos:        position{line: 2943, col: 29, offset: 93094},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35598,9 +35634,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93200},
+																			pos: position{line: 2953, col: 8, offset: 93254},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93201,
+																				line: 2953, col: 9, offset: 93255,
 																			},
 																		},
 																	},
@@ -35672,10 +35708,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 824, col: 8, offset: 26784},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92852},
+																												pos: position{line: 2934, col: 10, offset: 92906},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92852},
+																													pos:        position{line: 2934, col: 10, offset: 92906},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35684,28 +35720,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93250},
+																											pos: position{line: 2956, col: 8, offset: 93304},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93023},
+																													pos: position{line: 2943, col: 12, offset: 93077},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93024},
+																														pos: position{line: 2943, col: 13, offset: 93078},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93024},
+																																pos:        position{line: 2943, col: 13, offset: 93078},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93031},
+																																pos:        position{line: 2943, col: 20, offset: 93085},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93040},
+																																pos:        position{line: 2943, col: 29, offset: 93094},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35714,9 +35750,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93200},
+																													pos: position{line: 2953, col: 8, offset: 93254},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93201,
+																														line: 2953, col: 9, offset: 93255,
 																													},
 																												},
 																											},
@@ -35732,9 +35768,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -35750,21 +35786,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2951, col: 11, offset: 93186},
+																						pos: position{line: 2951, col: 11, offset: 93240},
 																						expr: &anyMatcher{
-																							line: 2951, col: 13, offset: 93188,
+																							line: 2951, col: 13, offset: 93242,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 13, offset: 91378},
+																							pos: position{line: 2880, col: 13, offset: 91432},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2880, col: 13, offset: 91378},
+																								pos: position{line: 2880, col: 13, offset: 91432},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 13, offset: 91378},
+																									pos:        position{line: 2880, col: 13, offset: 91432},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35774,28 +35810,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93250},
+																						pos: position{line: 2956, col: 8, offset: 93304},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93023},
+																								pos: position{line: 2943, col: 12, offset: 93077},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93024},
+																									pos: position{line: 2943, col: 13, offset: 93078},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93024},
+																											pos:        position{line: 2943, col: 13, offset: 93078},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93031},
+																											pos:        position{line: 2943, col: 20, offset: 93085},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93040},
+																											pos:        position{line: 2943, col: 29, offset: 93094},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35804,9 +35840,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93200},
+																								pos: position{line: 2953, col: 8, offset: 93254},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93201,
+																									line: 2953, col: 9, offset: 93255,
 																								},
 																							},
 																						},
@@ -35871,10 +35907,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 824, col: 8, offset: 26784},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92852},
+																								pos: position{line: 2934, col: 10, offset: 92906},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92852},
+																									pos:        position{line: 2934, col: 10, offset: 92906},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35883,28 +35919,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35913,9 +35949,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -35931,9 +35967,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2953, col: 8, offset: 93200},
+																	pos: position{line: 2953, col: 8, offset: 93254},
 																	expr: &anyMatcher{
-																		line: 2953, col: 9, offset: 93201,
+																		line: 2953, col: 9, offset: 93255,
 																	},
 																},
 															},
@@ -35989,10 +36025,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 831, col: 8, offset: 27030},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92852},
+																		pos: position{line: 2934, col: 10, offset: 92906},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92852},
+																			pos:        position{line: 2934, col: 10, offset: 92906},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36001,28 +36037,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93250},
+																	pos: position{line: 2956, col: 8, offset: 93304},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93023},
+																			pos: position{line: 2943, col: 12, offset: 93077},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93024},
+																				pos: position{line: 2943, col: 13, offset: 93078},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93024},
+																						pos:        position{line: 2943, col: 13, offset: 93078},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93031},
+																						pos:        position{line: 2943, col: 20, offset: 93085},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93040},
+																						pos:        position{line: 2943, col: 29, offset: 93094},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36031,9 +36067,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93200},
+																			pos: position{line: 2953, col: 8, offset: 93254},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93201,
+																				line: 2953, col: 9, offset: 93255,
 																			},
 																		},
 																	},
@@ -36105,10 +36141,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 831, col: 8, offset: 27030},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92852},
+																												pos: position{line: 2934, col: 10, offset: 92906},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92852},
+																													pos:        position{line: 2934, col: 10, offset: 92906},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36117,28 +36153,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93250},
+																											pos: position{line: 2956, col: 8, offset: 93304},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93023},
+																													pos: position{line: 2943, col: 12, offset: 93077},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93024},
+																														pos: position{line: 2943, col: 13, offset: 93078},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93024},
+																																pos:        position{line: 2943, col: 13, offset: 93078},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93031},
+																																pos:        position{line: 2943, col: 20, offset: 93085},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93040},
+																																pos:        position{line: 2943, col: 29, offset: 93094},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36147,9 +36183,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93200},
+																													pos: position{line: 2953, col: 8, offset: 93254},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93201,
+																														line: 2953, col: 9, offset: 93255,
 																													},
 																												},
 																											},
@@ -36165,9 +36201,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -36183,21 +36219,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2951, col: 11, offset: 93186},
+																						pos: position{line: 2951, col: 11, offset: 93240},
 																						expr: &anyMatcher{
-																							line: 2951, col: 13, offset: 93188,
+																							line: 2951, col: 13, offset: 93242,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 13, offset: 91378},
+																							pos: position{line: 2880, col: 13, offset: 91432},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2880, col: 13, offset: 91378},
+																								pos: position{line: 2880, col: 13, offset: 91432},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 13, offset: 91378},
+																									pos:        position{line: 2880, col: 13, offset: 91432},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36207,28 +36243,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93250},
+																						pos: position{line: 2956, col: 8, offset: 93304},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93023},
+																								pos: position{line: 2943, col: 12, offset: 93077},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93024},
+																									pos: position{line: 2943, col: 13, offset: 93078},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93024},
+																											pos:        position{line: 2943, col: 13, offset: 93078},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93031},
+																											pos:        position{line: 2943, col: 20, offset: 93085},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93040},
+																											pos:        position{line: 2943, col: 29, offset: 93094},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36237,9 +36273,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93200},
+																								pos: position{line: 2953, col: 8, offset: 93254},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93201,
+																									line: 2953, col: 9, offset: 93255,
 																								},
 																							},
 																						},
@@ -36304,10 +36340,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 831, col: 8, offset: 27030},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92852},
+																								pos: position{line: 2934, col: 10, offset: 92906},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92852},
+																									pos:        position{line: 2934, col: 10, offset: 92906},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36316,28 +36352,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93250},
+																							pos: position{line: 2956, col: 8, offset: 93304},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93023},
+																									pos: position{line: 2943, col: 12, offset: 93077},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93024},
+																										pos: position{line: 2943, col: 13, offset: 93078},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93024},
+																												pos:        position{line: 2943, col: 13, offset: 93078},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93031},
+																												pos:        position{line: 2943, col: 20, offset: 93085},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93040},
+																												pos:        position{line: 2943, col: 29, offset: 93094},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36346,9 +36382,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93200},
+																									pos: position{line: 2953, col: 8, offset: 93254},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93201,
+																										line: 2953, col: 9, offset: 93255,
 																									},
 																								},
 																							},
@@ -36364,9 +36400,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2953, col: 8, offset: 93200},
+																	pos: position{line: 2953, col: 8, offset: 93254},
 																	expr: &anyMatcher{
-																		line: 2953, col: 9, offset: 93201,
+																		line: 2953, col: 9, offset: 93255,
 																	},
 																},
 															},
@@ -36377,52 +36413,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2779, col: 18, offset: 88442},
+										pos: position{line: 2779, col: 18, offset: 88496},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2779, col: 18, offset: 88442},
+											pos: position{line: 2779, col: 18, offset: 88496},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2780, col: 9, offset: 88452},
+													pos: position{line: 2780, col: 9, offset: 88506},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2780, col: 9, offset: 88452},
+															pos:        position{line: 2780, col: 9, offset: 88506},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2781, col: 11, offset: 88488},
+															pos:        position{line: 2781, col: 11, offset: 88542},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2781, col: 19, offset: 88496},
+															pos:        position{line: 2781, col: 19, offset: 88550},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2781, col: 29, offset: 88506},
+															pos:        position{line: 2781, col: 29, offset: 88560},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2781, col: 37, offset: 88514},
+															pos:        position{line: 2781, col: 37, offset: 88568},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2781, col: 47, offset: 88524},
+															pos:        position{line: 2781, col: 47, offset: 88578},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2781, col: 55, offset: 88532},
+															pos:        position{line: 2781, col: 55, offset: 88586},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -36430,12 +36466,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2782, col: 11, offset: 88590},
+													pos: position{line: 2782, col: 11, offset: 88644},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92852},
+														pos: position{line: 2934, col: 10, offset: 92906},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92852},
+															pos:        position{line: 2934, col: 10, offset: 92906},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36444,28 +36480,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2956, col: 8, offset: 93250},
+													pos: position{line: 2956, col: 8, offset: 93304},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93023},
+															pos: position{line: 2943, col: 12, offset: 93077},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93024},
+																pos: position{line: 2943, col: 13, offset: 93078},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93024},
+																		pos:        position{line: 2943, col: 13, offset: 93078},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93031},
+																		pos:        position{line: 2943, col: 20, offset: 93085},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93040},
+																		pos:        position{line: 2943, col: 29, offset: 93094},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36474,36 +36510,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93200},
+															pos: position{line: 2953, col: 8, offset: 93254},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93201,
+																line: 2953, col: 9, offset: 93255,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2956, col: 8, offset: 93250},
+													pos: position{line: 2956, col: 8, offset: 93304},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93023},
+															pos: position{line: 2943, col: 12, offset: 93077},
 															run: (*parser).callonListContinuationElement1319,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93024},
+																pos: position{line: 2943, col: 13, offset: 93078},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93024},
+																		pos:        position{line: 2943, col: 13, offset: 93078},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93031},
+																		pos:        position{line: 2943, col: 20, offset: 93085},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93040},
+																		pos:        position{line: 2943, col: 29, offset: 93094},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36512,9 +36548,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93200},
+															pos: position{line: 2953, col: 8, offset: 93254},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93201,
+																line: 2953, col: 9, offset: 93255,
 															},
 														},
 													},
@@ -36523,28 +36559,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1579, col: 11, offset: 51261},
+										pos:  position{line: 1579, col: 11, offset: 51315},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2663, col: 5, offset: 85199},
+										pos: position{line: 2663, col: 5, offset: 85253},
 										run: (*parser).callonListContinuationElement1327,
 										expr: &seqExpr{
-											pos: position{line: 2663, col: 5, offset: 85199},
+											pos: position{line: 2663, col: 5, offset: 85253},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2669, col: 19, offset: 85376},
+													pos:        position{line: 2669, col: 19, offset: 85430},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2669, col: 26, offset: 85383},
+													pos: position{line: 2669, col: 26, offset: 85437},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92852},
+														pos: position{line: 2934, col: 10, offset: 92906},
 														run: (*parser).callonListContinuationElement1331,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92852},
+															pos:        position{line: 2934, col: 10, offset: 92906},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36553,28 +36589,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2956, col: 8, offset: 93250},
+													pos: position{line: 2956, col: 8, offset: 93304},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93023},
+															pos: position{line: 2943, col: 12, offset: 93077},
 															run: (*parser).callonListContinuationElement1334,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93024},
+																pos: position{line: 2943, col: 13, offset: 93078},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93024},
+																		pos:        position{line: 2943, col: 13, offset: 93078},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93031},
+																		pos:        position{line: 2943, col: 20, offset: 93085},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93040},
+																		pos:        position{line: 2943, col: 29, offset: 93094},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36583,20 +36619,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93200},
+															pos: position{line: 2953, col: 8, offset: 93254},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93201,
+																line: 2953, col: 9, offset: 93255,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2664, col: 5, offset: 85223},
+													pos:   position{line: 2664, col: 5, offset: 85277},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2664, col: 11, offset: 85229},
+														pos: position{line: 2664, col: 11, offset: 85283},
 														expr: &choiceExpr{
-															pos: position{line: 2664, col: 12, offset: 85230},
+															pos: position{line: 2664, col: 12, offset: 85284},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 702, col: 14, offset: 22577},
@@ -36605,18 +36641,18 @@ var g = &grammar{
 																		pos: position{line: 702, col: 14, offset: 22577},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2951, col: 11, offset: 93186},
+																				pos: position{line: 2951, col: 11, offset: 93240},
 																				expr: &anyMatcher{
-																					line: 2951, col: 13, offset: 93188,
+																					line: 2951, col: 13, offset: 93242,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 702, col: 21, offset: 22584},
 																				expr: &actionExpr{
-																					pos: position{line: 2934, col: 10, offset: 92852},
+																					pos: position{line: 2934, col: 10, offset: 92906},
 																					run: (*parser).callonListContinuationElement1349,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2934, col: 10, offset: 92852},
+																						pos:        position{line: 2934, col: 10, offset: 92906},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36625,28 +36661,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2956, col: 8, offset: 93250},
+																				pos: position{line: 2956, col: 8, offset: 93304},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2943, col: 12, offset: 93023},
+																						pos: position{line: 2943, col: 12, offset: 93077},
 																						run: (*parser).callonListContinuationElement1352,
 																						expr: &choiceExpr{
-																							pos: position{line: 2943, col: 13, offset: 93024},
+																							pos: position{line: 2943, col: 13, offset: 93078},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 13, offset: 93024},
+																									pos:        position{line: 2943, col: 13, offset: 93078},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 20, offset: 93031},
+																									pos:        position{line: 2943, col: 20, offset: 93085},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 29, offset: 93040},
+																									pos:        position{line: 2943, col: 29, offset: 93094},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36655,9 +36691,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93200},
+																						pos: position{line: 2953, col: 8, offset: 93254},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93201,
+																							line: 2953, col: 9, offset: 93255,
 																						},
 																					},
 																				},
@@ -36666,36 +36702,36 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2537, col: 22, offset: 81630},
+																	pos: position{line: 2537, col: 22, offset: 81684},
 																	run: (*parser).callonListContinuationElement1359,
 																	expr: &seqExpr{
-																		pos: position{line: 2537, col: 22, offset: 81630},
+																		pos: position{line: 2537, col: 22, offset: 81684},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2542, col: 31, offset: 81880},
+																				pos:        position{line: 2542, col: 31, offset: 81934},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2542, col: 36, offset: 81885},
+																				pos: position{line: 2542, col: 36, offset: 81939},
 																				expr: &litMatcher{
-																					pos:        position{line: 2542, col: 37, offset: 81886},
+																					pos:        position{line: 2542, col: 37, offset: 81940},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2537, col: 49, offset: 81657},
+																				pos:   position{line: 2537, col: 49, offset: 81711},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2880, col: 13, offset: 91378},
+																					pos: position{line: 2880, col: 13, offset: 91432},
 																					run: (*parser).callonListContinuationElement1365,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2880, col: 13, offset: 91378},
+																						pos: position{line: 2880, col: 13, offset: 91432},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2880, col: 13, offset: 91378},
+																							pos:        position{line: 2880, col: 13, offset: 91432},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -36705,28 +36741,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2956, col: 8, offset: 93250},
+																				pos: position{line: 2956, col: 8, offset: 93304},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2943, col: 12, offset: 93023},
+																						pos: position{line: 2943, col: 12, offset: 93077},
 																						run: (*parser).callonListContinuationElement1369,
 																						expr: &choiceExpr{
-																							pos: position{line: 2943, col: 13, offset: 93024},
+																							pos: position{line: 2943, col: 13, offset: 93078},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 13, offset: 93024},
+																									pos:        position{line: 2943, col: 13, offset: 93078},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 20, offset: 93031},
+																									pos:        position{line: 2943, col: 20, offset: 93085},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 29, offset: 93040},
+																									pos:        position{line: 2943, col: 29, offset: 93094},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36735,9 +36771,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93200},
+																						pos: position{line: 2953, col: 8, offset: 93254},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93201,
+																							line: 2953, col: 9, offset: 93255,
 																						},
 																					},
 																				},
@@ -36746,32 +36782,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2676, col: 5, offset: 85495},
+																	pos: position{line: 2676, col: 5, offset: 85549},
 																	run: (*parser).callonListContinuationElement1376,
 																	expr: &seqExpr{
-																		pos: position{line: 2676, col: 5, offset: 85495},
+																		pos: position{line: 2676, col: 5, offset: 85549},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2676, col: 5, offset: 85495},
+																				pos: position{line: 2676, col: 5, offset: 85549},
 																				expr: &choiceExpr{
-																					pos: position{line: 2673, col: 22, offset: 85456},
+																					pos: position{line: 2673, col: 22, offset: 85510},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2669, col: 19, offset: 85376},
+																							pos: position{line: 2669, col: 19, offset: 85430},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2669, col: 19, offset: 85376},
+																									pos:        position{line: 2669, col: 19, offset: 85430},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2669, col: 26, offset: 85383},
+																									pos: position{line: 2669, col: 26, offset: 85437},
 																									expr: &actionExpr{
-																										pos: position{line: 2934, col: 10, offset: 92852},
+																										pos: position{line: 2934, col: 10, offset: 92906},
 																										run: (*parser).callonListContinuationElement1383,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2934, col: 10, offset: 92852},
+																											pos:        position{line: 2934, col: 10, offset: 92906},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36780,28 +36816,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2956, col: 8, offset: 93250},
+																									pos: position{line: 2956, col: 8, offset: 93304},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2943, col: 12, offset: 93023},
+																											pos: position{line: 2943, col: 12, offset: 93077},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &choiceExpr{
-																												pos: position{line: 2943, col: 13, offset: 93024},
+																												pos: position{line: 2943, col: 13, offset: 93078},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 13, offset: 93024},
+																														pos:        position{line: 2943, col: 13, offset: 93078},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 20, offset: 93031},
+																														pos:        position{line: 2943, col: 20, offset: 93085},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 29, offset: 93040},
+																														pos:        position{line: 2943, col: 29, offset: 93094},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36810,9 +36846,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2953, col: 8, offset: 93200},
+																											pos: position{line: 2953, col: 8, offset: 93254},
 																											expr: &anyMatcher{
-																												line: 2953, col: 9, offset: 93201,
+																												line: 2953, col: 9, offset: 93255,
 																											},
 																										},
 																									},
@@ -36820,59 +36856,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93200},
+																							pos: position{line: 2953, col: 8, offset: 93254},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93201,
+																								line: 2953, col: 9, offset: 93255,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2677, col: 5, offset: 85518},
+																				pos:   position{line: 2677, col: 5, offset: 85572},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2678, col: 9, offset: 85536},
+																					pos: position{line: 2678, col: 9, offset: 85590},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2678, col: 10, offset: 85537},
+																							pos: position{line: 2678, col: 10, offset: 85591},
 																							run: (*parser).callonListContinuationElement1397,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2678, col: 10, offset: 85537},
+																								pos:   position{line: 2678, col: 10, offset: 85591},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2678, col: 17, offset: 85544},
+																									pos: position{line: 2678, col: 17, offset: 85598},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2686, col: 21, offset: 85740},
+																											pos: position{line: 2686, col: 21, offset: 85794},
 																											run: (*parser).callonListContinuationElement1400,
 																											expr: &seqExpr{
-																												pos: position{line: 2686, col: 21, offset: 85740},
+																												pos: position{line: 2686, col: 21, offset: 85794},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2686, col: 21, offset: 85740},
+																														pos:   position{line: 2686, col: 21, offset: 85794},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2686, col: 27, offset: 85746},
+																															pos: position{line: 2686, col: 27, offset: 85800},
 																															expr: &actionExpr{
-																																pos: position{line: 2691, col: 5, offset: 85821},
+																																pos: position{line: 2691, col: 5, offset: 85875},
 																																run: (*parser).callonListContinuationElement1404,
 																																expr: &seqExpr{
-																																	pos: position{line: 2691, col: 5, offset: 85821},
+																																	pos: position{line: 2691, col: 5, offset: 85875},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2691, col: 5, offset: 85821},
+																																			pos:        position{line: 2691, col: 5, offset: 85875},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2691, col: 9, offset: 85825},
+																																			pos: position{line: 2691, col: 9, offset: 85879},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2934, col: 10, offset: 92852},
+																																				pos: position{line: 2934, col: 10, offset: 92906},
 																																				run: (*parser).callonListContinuationElement1408,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2934, col: 10, offset: 92852},
+																																					pos:        position{line: 2934, col: 10, offset: 92906},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36881,21 +36917,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2691, col: 16, offset: 85832},
+																																			pos:   position{line: 2691, col: 16, offset: 85886},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2697, col: 5, offset: 86032},
+																																				pos: position{line: 2697, col: 5, offset: 86086},
 																																				run: (*parser).callonListContinuationElement1411,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2697, col: 5, offset: 86032},
+																																					pos:   position{line: 2697, col: 5, offset: 86086},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2697, col: 14, offset: 86041},
+																																						pos: position{line: 2697, col: 14, offset: 86095},
 																																						run: (*parser).callonListContinuationElement1413,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2697, col: 14, offset: 86041},
+																																							pos: position{line: 2697, col: 14, offset: 86095},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2697, col: 14, offset: 86041},
+																																								pos:        position{line: 2697, col: 14, offset: 86095},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36912,28 +36948,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2956, col: 8, offset: 93250},
+																														pos: position{line: 2956, col: 8, offset: 93304},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2943, col: 12, offset: 93023},
+																																pos: position{line: 2943, col: 12, offset: 93077},
 																																run: (*parser).callonListContinuationElement1417,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2943, col: 13, offset: 93024},
+																																	pos: position{line: 2943, col: 13, offset: 93078},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2943, col: 13, offset: 93024},
+																																			pos:        position{line: 2943, col: 13, offset: 93078},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2943, col: 20, offset: 93031},
+																																			pos:        position{line: 2943, col: 20, offset: 93085},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2943, col: 29, offset: 93040},
+																																			pos:        position{line: 2943, col: 29, offset: 93094},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36942,9 +36978,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2953, col: 8, offset: 93200},
+																																pos: position{line: 2953, col: 8, offset: 93254},
 																																expr: &anyMatcher{
-																																	line: 2953, col: 9, offset: 93201,
+																																	line: 2953, col: 9, offset: 93255,
 																																},
 																															},
 																														},
@@ -36953,40 +36989,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2703, col: 24, offset: 86177},
+																											pos: position{line: 2703, col: 24, offset: 86231},
 																											run: (*parser).callonListContinuationElement1424,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2703, col: 24, offset: 86177},
+																												pos:   position{line: 2703, col: 24, offset: 86231},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2703, col: 30, offset: 86183},
+																													pos: position{line: 2703, col: 30, offset: 86237},
 																													expr: &actionExpr{
-																														pos: position{line: 2708, col: 5, offset: 86259},
+																														pos: position{line: 2708, col: 5, offset: 86313},
 																														run: (*parser).callonListContinuationElement1427,
 																														expr: &seqExpr{
-																															pos: position{line: 2708, col: 5, offset: 86259},
+																															pos: position{line: 2708, col: 5, offset: 86313},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2708, col: 5, offset: 86259},
+																																	pos: position{line: 2708, col: 5, offset: 86313},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2673, col: 22, offset: 85456},
+																																		pos: position{line: 2673, col: 22, offset: 85510},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2669, col: 19, offset: 85376},
+																																				pos: position{line: 2669, col: 19, offset: 85430},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2669, col: 19, offset: 85376},
+																																						pos:        position{line: 2669, col: 19, offset: 85430},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2669, col: 26, offset: 85383},
+																																						pos: position{line: 2669, col: 26, offset: 85437},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2934, col: 10, offset: 92852},
+																																							pos: position{line: 2934, col: 10, offset: 92906},
 																																							run: (*parser).callonListContinuationElement1434,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2934, col: 10, offset: 92852},
+																																								pos:        position{line: 2934, col: 10, offset: 92906},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36995,28 +37031,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2956, col: 8, offset: 93250},
+																																						pos: position{line: 2956, col: 8, offset: 93304},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2943, col: 12, offset: 93023},
+																																								pos: position{line: 2943, col: 12, offset: 93077},
 																																								run: (*parser).callonListContinuationElement1437,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2943, col: 13, offset: 93024},
+																																									pos: position{line: 2943, col: 13, offset: 93078},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2943, col: 13, offset: 93024},
+																																											pos:        position{line: 2943, col: 13, offset: 93078},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2943, col: 20, offset: 93031},
+																																											pos:        position{line: 2943, col: 20, offset: 93085},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2943, col: 29, offset: 93040},
+																																											pos:        position{line: 2943, col: 29, offset: 93094},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -37025,9 +37061,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2953, col: 8, offset: 93200},
+																																								pos: position{line: 2953, col: 8, offset: 93254},
 																																								expr: &anyMatcher{
-																																									line: 2953, col: 9, offset: 93201,
+																																									line: 2953, col: 9, offset: 93255,
 																																								},
 																																							},
 																																						},
@@ -37035,16 +37071,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2953, col: 8, offset: 93200},
+																																				pos: position{line: 2953, col: 8, offset: 93254},
 																																				expr: &anyMatcher{
-																																					line: 2953, col: 9, offset: 93201,
+																																					line: 2953, col: 9, offset: 93255,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2709, col: 5, offset: 86282},
+																																	pos: position{line: 2709, col: 5, offset: 86336},
 																																	expr: &actionExpr{
 																																		pos: position{line: 702, col: 14, offset: 22577},
 																																		run: (*parser).callonListContinuationElement1447,
@@ -37052,18 +37088,18 @@ var g = &grammar{
 																																			pos: position{line: 702, col: 14, offset: 22577},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2951, col: 11, offset: 93186},
+																																					pos: position{line: 2951, col: 11, offset: 93240},
 																																					expr: &anyMatcher{
-																																						line: 2951, col: 13, offset: 93188,
+																																						line: 2951, col: 13, offset: 93242,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 702, col: 21, offset: 22584},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2934, col: 10, offset: 92852},
+																																						pos: position{line: 2934, col: 10, offset: 92906},
 																																						run: (*parser).callonListContinuationElement1452,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2934, col: 10, offset: 92852},
+																																							pos:        position{line: 2934, col: 10, offset: 92906},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -37072,28 +37108,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2956, col: 8, offset: 93250},
+																																					pos: position{line: 2956, col: 8, offset: 93304},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2943, col: 12, offset: 93023},
+																																							pos: position{line: 2943, col: 12, offset: 93077},
 																																							run: (*parser).callonListContinuationElement1455,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2943, col: 13, offset: 93024},
+																																								pos: position{line: 2943, col: 13, offset: 93078},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2943, col: 13, offset: 93024},
+																																										pos:        position{line: 2943, col: 13, offset: 93078},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2943, col: 20, offset: 93031},
+																																										pos:        position{line: 2943, col: 20, offset: 93085},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2943, col: 29, offset: 93040},
+																																										pos:        position{line: 2943, col: 29, offset: 93094},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -37102,9 +37138,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2953, col: 8, offset: 93200},
+																																							pos: position{line: 2953, col: 8, offset: 93254},
 																																							expr: &anyMatcher{
-																																								line: 2953, col: 9, offset: 93201,
+																																								line: 2953, col: 9, offset: 93255,
 																																							},
 																																						},
 																																					},
@@ -37114,17 +37150,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2710, col: 5, offset: 86297},
+																																	pos:   position{line: 2710, col: 5, offset: 86351},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2710, col: 12, offset: 86304},
+																																		pos: position{line: 2710, col: 12, offset: 86358},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2734, col: 20, offset: 86927},
+																																			pos: position{line: 2734, col: 20, offset: 86981},
 																																			run: (*parser).callonListContinuationElement1464,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2734, col: 20, offset: 86927},
+																																				pos: position{line: 2734, col: 20, offset: 86981},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2734, col: 20, offset: 86927},
+																																					pos:        position{line: 2734, col: 20, offset: 86981},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -37135,18 +37171,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2710, col: 31, offset: 86323},
+																																	pos:        position{line: 2710, col: 31, offset: 86377},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2710, col: 35, offset: 86327},
+																																	pos: position{line: 2710, col: 35, offset: 86381},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2934, col: 10, offset: 92852},
+																																		pos: position{line: 2934, col: 10, offset: 92906},
 																																		run: (*parser).callonListContinuationElement1469,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2934, col: 10, offset: 92852},
+																																			pos:        position{line: 2934, col: 10, offset: 92906},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -37155,27 +37191,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2710, col: 42, offset: 86334},
+																																	pos: position{line: 2710, col: 42, offset: 86388},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2943, col: 12, offset: 93023},
+																																		pos: position{line: 2943, col: 12, offset: 93077},
 																																		run: (*parser).callonListContinuationElement1472,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2943, col: 13, offset: 93024},
+																																			pos: position{line: 2943, col: 13, offset: 93078},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2943, col: 13, offset: 93024},
+																																					pos:        position{line: 2943, col: 13, offset: 93078},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2943, col: 20, offset: 93031},
+																																					pos:        position{line: 2943, col: 20, offset: 93085},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2943, col: 29, offset: 93040},
+																																					pos:        position{line: 2943, col: 29, offset: 93094},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -37185,57 +37221,57 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2710, col: 51, offset: 86343},
+																																	pos:   position{line: 2710, col: 51, offset: 86397},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2716, col: 5, offset: 86502},
+																																		pos: position{line: 2716, col: 5, offset: 86556},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2717, col: 9, offset: 86512},
+																																			pos: position{line: 2717, col: 9, offset: 86566},
 																																			alternatives: []interface{}{
 																																				&actionExpr{
-																																					pos: position{line: 2717, col: 9, offset: 86512},
+																																					pos: position{line: 2717, col: 9, offset: 86566},
 																																					run: (*parser).callonListContinuationElement1480,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2717, col: 9, offset: 86512},
+																																						pos: position{line: 2717, col: 9, offset: 86566},
 																																						exprs: []interface{}{
 																																							&andCodeExpr{
-																																								pos: position{line: 2717, col: 9, offset: 86512},
+																																								pos: position{line: 2717, col: 9, offset: 86566},
 																																								run: (*parser).callonListContinuationElement1482,
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2720, col: 9, offset: 86581},
+																																								pos:   position{line: 2720, col: 9, offset: 86635},
 																																								label: "comment",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2537, col: 22, offset: 81630},
+																																									pos: position{line: 2537, col: 22, offset: 81684},
 																																									run: (*parser).callonListContinuationElement1484,
 																																									expr: &seqExpr{
-																																										pos: position{line: 2537, col: 22, offset: 81630},
+																																										pos: position{line: 2537, col: 22, offset: 81684},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2542, col: 31, offset: 81880},
+																																												pos:        position{line: 2542, col: 31, offset: 81934},
 																																												val:        "//",
 																																												ignoreCase: false,
 																																												want:       "\"//\"",
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2542, col: 36, offset: 81885},
+																																												pos: position{line: 2542, col: 36, offset: 81939},
 																																												expr: &litMatcher{
-																																													pos:        position{line: 2542, col: 37, offset: 81886},
+																																													pos:        position{line: 2542, col: 37, offset: 81940},
 																																													val:        "/",
 																																													ignoreCase: false,
 																																													want:       "\"/\"",
 																																												},
 																																											},
 																																											&labeledExpr{
-																																												pos:   position{line: 2537, col: 49, offset: 81657},
+																																												pos:   position{line: 2537, col: 49, offset: 81711},
 																																												label: "content",
 																																												expr: &actionExpr{
-																																													pos: position{line: 2880, col: 13, offset: 91378},
+																																													pos: position{line: 2880, col: 13, offset: 91432},
 																																													run: (*parser).callonListContinuationElement1490,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2880, col: 13, offset: 91378},
+																																														pos: position{line: 2880, col: 13, offset: 91432},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2880, col: 13, offset: 91378},
+																																															pos:        position{line: 2880, col: 13, offset: 91432},
 																																															val:        "[^\\r\\n]",
 																																															chars:      []rune{'\r', '\n'},
 																																															ignoreCase: false,
@@ -37245,28 +37281,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2956, col: 8, offset: 93250},
+																																												pos: position{line: 2956, col: 8, offset: 93304},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2943, col: 12, offset: 93023},
+																																														pos: position{line: 2943, col: 12, offset: 93077},
 																																														run: (*parser).callonListContinuationElement1494,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2943, col: 13, offset: 93024},
+																																															pos: position{line: 2943, col: 13, offset: 93078},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2943, col: 13, offset: 93024},
+																																																	pos:        position{line: 2943, col: 13, offset: 93078},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2943, col: 20, offset: 93031},
+																																																	pos:        position{line: 2943, col: 20, offset: 93085},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2943, col: 29, offset: 93040},
+																																																	pos:        position{line: 2943, col: 29, offset: 93094},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -37275,9 +37311,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2953, col: 8, offset: 93200},
+																																														pos: position{line: 2953, col: 8, offset: 93254},
 																																														expr: &anyMatcher{
-																																															line: 2953, col: 9, offset: 93201,
+																																															line: 2953, col: 9, offset: 93255,
 																																														},
 																																													},
 																																												},
@@ -37290,32 +37326,32 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&actionExpr{
-																																					pos: position{line: 2724, col: 9, offset: 86671},
+																																					pos: position{line: 2724, col: 9, offset: 86725},
 																																					run: (*parser).callonListContinuationElement1501,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2724, col: 9, offset: 86671},
+																																						pos: position{line: 2724, col: 9, offset: 86725},
 																																						exprs: []interface{}{
 																																							&notExpr{
-																																								pos: position{line: 2724, col: 9, offset: 86671},
+																																								pos: position{line: 2724, col: 9, offset: 86725},
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2673, col: 22, offset: 85456},
+																																									pos: position{line: 2673, col: 22, offset: 85510},
 																																									alternatives: []interface{}{
 																																										&seqExpr{
-																																											pos: position{line: 2669, col: 19, offset: 85376},
+																																											pos: position{line: 2669, col: 19, offset: 85430},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2669, col: 19, offset: 85376},
+																																													pos:        position{line: 2669, col: 19, offset: 85430},
 																																													val:        "|===",
 																																													ignoreCase: false,
 																																													want:       "\"|===\"",
 																																												},
 																																												&zeroOrMoreExpr{
-																																													pos: position{line: 2669, col: 26, offset: 85383},
+																																													pos: position{line: 2669, col: 26, offset: 85437},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2934, col: 10, offset: 92852},
+																																														pos: position{line: 2934, col: 10, offset: 92906},
 																																														run: (*parser).callonListContinuationElement1508,
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2934, col: 10, offset: 92852},
+																																															pos:        position{line: 2934, col: 10, offset: 92906},
 																																															val:        "[\\t ]",
 																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
@@ -37324,28 +37360,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2956, col: 8, offset: 93250},
+																																													pos: position{line: 2956, col: 8, offset: 93304},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2943, col: 12, offset: 93023},
+																																															pos: position{line: 2943, col: 12, offset: 93077},
 																																															run: (*parser).callonListContinuationElement1511,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2943, col: 13, offset: 93024},
+																																																pos: position{line: 2943, col: 13, offset: 93078},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2943, col: 13, offset: 93024},
+																																																		pos:        position{line: 2943, col: 13, offset: 93078},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2943, col: 20, offset: 93031},
+																																																		pos:        position{line: 2943, col: 20, offset: 93085},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2943, col: 29, offset: 93040},
+																																																		pos:        position{line: 2943, col: 29, offset: 93094},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -37354,9 +37390,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2953, col: 8, offset: 93200},
+																																															pos: position{line: 2953, col: 8, offset: 93254},
 																																															expr: &anyMatcher{
-																																																line: 2953, col: 9, offset: 93201,
+																																																line: 2953, col: 9, offset: 93255,
 																																															},
 																																														},
 																																													},
@@ -37364,16 +37400,16 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2953, col: 8, offset: 93200},
+																																											pos: position{line: 2953, col: 8, offset: 93254},
 																																											expr: &anyMatcher{
-																																												line: 2953, col: 9, offset: 93201,
+																																												line: 2953, col: 9, offset: 93255,
 																																											},
 																																										},
 																																									},
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2725, col: 9, offset: 86698},
+																																								pos: position{line: 2725, col: 9, offset: 86752},
 																																								expr: &actionExpr{
 																																									pos: position{line: 702, col: 14, offset: 22577},
 																																									run: (*parser).callonListContinuationElement1521,
@@ -37381,18 +37417,18 @@ var g = &grammar{
 																																										pos: position{line: 702, col: 14, offset: 22577},
 																																										exprs: []interface{}{
 																																											&andExpr{
-																																												pos: position{line: 2951, col: 11, offset: 93186},
+																																												pos: position{line: 2951, col: 11, offset: 93240},
 																																												expr: &anyMatcher{
-																																													line: 2951, col: 13, offset: 93188,
+																																													line: 2951, col: 13, offset: 93242,
 																																												},
 																																											},
 																																											&zeroOrMoreExpr{
 																																												pos: position{line: 702, col: 21, offset: 22584},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2934, col: 10, offset: 92852},
+																																													pos: position{line: 2934, col: 10, offset: 92906},
 																																													run: (*parser).callonListContinuationElement1526,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2934, col: 10, offset: 92852},
+																																														pos:        position{line: 2934, col: 10, offset: 92906},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -37401,28 +37437,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2956, col: 8, offset: 93250},
+																																												pos: position{line: 2956, col: 8, offset: 93304},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2943, col: 12, offset: 93023},
+																																														pos: position{line: 2943, col: 12, offset: 93077},
 																																														run: (*parser).callonListContinuationElement1529,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2943, col: 13, offset: 93024},
+																																															pos: position{line: 2943, col: 13, offset: 93078},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2943, col: 13, offset: 93024},
+																																																	pos:        position{line: 2943, col: 13, offset: 93078},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2943, col: 20, offset: 93031},
+																																																	pos:        position{line: 2943, col: 20, offset: 93085},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2943, col: 29, offset: 93040},
+																																																	pos:        position{line: 2943, col: 29, offset: 93094},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -37431,9 +37467,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2953, col: 8, offset: 93200},
+																																														pos: position{line: 2953, col: 8, offset: 93254},
 																																														expr: &anyMatcher{
-																																															line: 2953, col: 9, offset: 93201,
+																																															line: 2953, col: 9, offset: 93255,
 																																														},
 																																													},
 																																												},
@@ -37443,22 +37479,22 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2726, col: 9, offset: 86717},
+																																								pos: position{line: 2726, col: 9, offset: 86771},
 																																								expr: &seqExpr{
-																																									pos: position{line: 2726, col: 11, offset: 86719},
+																																									pos: position{line: 2726, col: 11, offset: 86773},
 																																									exprs: []interface{}{
 																																										&labeledExpr{
-																																											pos:   position{line: 2726, col: 11, offset: 86719},
+																																											pos:   position{line: 2726, col: 11, offset: 86773},
 																																											label: "format",
 																																											expr: &zeroOrOneExpr{
-																																												pos: position{line: 2726, col: 18, offset: 86726},
+																																												pos: position{line: 2726, col: 18, offset: 86780},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2734, col: 20, offset: 86927},
+																																													pos: position{line: 2734, col: 20, offset: 86981},
 																																													run: (*parser).callonListContinuationElement1540,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2734, col: 20, offset: 86927},
+																																														pos: position{line: 2734, col: 20, offset: 86981},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2734, col: 20, offset: 86927},
+																																															pos:        position{line: 2734, col: 20, offset: 86981},
 																																															val:        "[^ |\\r\\n]",
 																																															chars:      []rune{' ', '|', '\r', '\n'},
 																																															ignoreCase: false,
@@ -37469,7 +37505,7 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2726, col: 37, offset: 86745},
+																																											pos:        position{line: 2726, col: 37, offset: 86799},
 																																											val:        "|",
 																																											ignoreCase: false,
 																																											want:       "\"|\"",
@@ -37478,15 +37514,15 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2727, col: 9, offset: 86758},
+																																								pos:   position{line: 2727, col: 9, offset: 86812},
 																																								label: "content",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2727, col: 18, offset: 86767},
+																																									pos: position{line: 2727, col: 18, offset: 86821},
 																																									run: (*parser).callonListContinuationElement1545,
 																																									expr: &zeroOrMoreExpr{
-																																										pos: position{line: 2727, col: 18, offset: 86767},
+																																										pos: position{line: 2727, col: 18, offset: 86821},
 																																										expr: &charClassMatcher{
-																																											pos:        position{line: 2727, col: 18, offset: 86767},
+																																											pos:        position{line: 2727, col: 18, offset: 86821},
 																																											val:        "[^|\\r\\n]",
 																																											chars:      []rune{'|', '\r', '\n'},
 																																											ignoreCase: false,
@@ -37496,30 +37532,30 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&zeroOrOneExpr{
-																																								pos: position{line: 2729, col: 12, offset: 86829},
+																																								pos: position{line: 2729, col: 12, offset: 86883},
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2956, col: 8, offset: 93250},
+																																									pos: position{line: 2956, col: 8, offset: 93304},
 																																									alternatives: []interface{}{
 																																										&actionExpr{
-																																											pos: position{line: 2943, col: 12, offset: 93023},
+																																											pos: position{line: 2943, col: 12, offset: 93077},
 																																											run: (*parser).callonListContinuationElement1550,
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2943, col: 13, offset: 93024},
+																																												pos: position{line: 2943, col: 13, offset: 93078},
 																																												alternatives: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2943, col: 13, offset: 93024},
+																																														pos:        position{line: 2943, col: 13, offset: 93078},
 																																														val:        "\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2943, col: 20, offset: 93031},
+																																														pos:        position{line: 2943, col: 20, offset: 93085},
 																																														val:        "\r\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2943, col: 29, offset: 93040},
+																																														pos:        position{line: 2943, col: 29, offset: 93094},
 																																														val:        "\r",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\"",
@@ -37528,9 +37564,9 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2953, col: 8, offset: 93200},
+																																											pos: position{line: 2953, col: 8, offset: 93254},
 																																											expr: &anyMatcher{
-																																												line: 2953, col: 9, offset: 93201,
+																																												line: 2953, col: 9, offset: 93255,
 																																											},
 																																										},
 																																									},
@@ -37560,18 +37596,18 @@ var g = &grammar{
 																								pos: position{line: 702, col: 14, offset: 22577},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2951, col: 11, offset: 93186},
+																										pos: position{line: 2951, col: 11, offset: 93240},
 																										expr: &anyMatcher{
-																											line: 2951, col: 13, offset: 93188,
+																											line: 2951, col: 13, offset: 93242,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 702, col: 21, offset: 22584},
 																										expr: &actionExpr{
-																											pos: position{line: 2934, col: 10, offset: 92852},
+																											pos: position{line: 2934, col: 10, offset: 92906},
 																											run: (*parser).callonListContinuationElement1562,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2934, col: 10, offset: 92852},
+																												pos:        position{line: 2934, col: 10, offset: 92906},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -37580,28 +37616,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2956, col: 8, offset: 93250},
+																										pos: position{line: 2956, col: 8, offset: 93304},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2943, col: 12, offset: 93023},
+																												pos: position{line: 2943, col: 12, offset: 93077},
 																												run: (*parser).callonListContinuationElement1565,
 																												expr: &choiceExpr{
-																													pos: position{line: 2943, col: 13, offset: 93024},
+																													pos: position{line: 2943, col: 13, offset: 93078},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2943, col: 13, offset: 93024},
+																															pos:        position{line: 2943, col: 13, offset: 93078},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2943, col: 20, offset: 93031},
+																															pos:        position{line: 2943, col: 20, offset: 93085},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2943, col: 29, offset: 93040},
+																															pos:        position{line: 2943, col: 29, offset: 93094},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -37610,9 +37646,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2953, col: 8, offset: 93200},
+																												pos: position{line: 2953, col: 8, offset: 93254},
 																												expr: &anyMatcher{
-																													line: 2953, col: 9, offset: 93201,
+																													line: 2953, col: 9, offset: 93255,
 																												},
 																											},
 																										},
@@ -37631,24 +37667,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2673, col: 22, offset: 85456},
+													pos: position{line: 2673, col: 22, offset: 85510},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2669, col: 19, offset: 85376},
+															pos: position{line: 2669, col: 19, offset: 85430},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2669, col: 19, offset: 85376},
+																	pos:        position{line: 2669, col: 19, offset: 85430},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2669, col: 26, offset: 85383},
+																	pos: position{line: 2669, col: 26, offset: 85437},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92852},
+																		pos: position{line: 2934, col: 10, offset: 92906},
 																		run: (*parser).callonListContinuationElement1576,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92852},
+																			pos:        position{line: 2934, col: 10, offset: 92906},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37657,28 +37693,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93250},
+																	pos: position{line: 2956, col: 8, offset: 93304},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93023},
+																			pos: position{line: 2943, col: 12, offset: 93077},
 																			run: (*parser).callonListContinuationElement1579,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93024},
+																				pos: position{line: 2943, col: 13, offset: 93078},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93024},
+																						pos:        position{line: 2943, col: 13, offset: 93078},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93031},
+																						pos:        position{line: 2943, col: 20, offset: 93085},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93040},
+																						pos:        position{line: 2943, col: 29, offset: 93094},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37687,9 +37723,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93200},
+																			pos: position{line: 2953, col: 8, offset: 93254},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93201,
+																				line: 2953, col: 9, offset: 93255,
 																			},
 																		},
 																	},
@@ -37697,9 +37733,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93200},
+															pos: position{line: 2953, col: 8, offset: 93254},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93201,
+																line: 2953, col: 9, offset: 93255,
 															},
 														},
 													},
@@ -37708,36 +37744,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2537, col: 22, offset: 81630},
+										pos: position{line: 2537, col: 22, offset: 81684},
 										run: (*parser).callonListContinuationElement1588,
 										expr: &seqExpr{
-											pos: position{line: 2537, col: 22, offset: 81630},
+											pos: position{line: 2537, col: 22, offset: 81684},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2542, col: 31, offset: 81880},
+													pos:        position{line: 2542, col: 31, offset: 81934},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2542, col: 36, offset: 81885},
+													pos: position{line: 2542, col: 36, offset: 81939},
 													expr: &litMatcher{
-														pos:        position{line: 2542, col: 37, offset: 81886},
+														pos:        position{line: 2542, col: 37, offset: 81940},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2537, col: 49, offset: 81657},
+													pos:   position{line: 2537, col: 49, offset: 81711},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 13, offset: 91378},
+														pos: position{line: 2880, col: 13, offset: 91432},
 														run: (*parser).callonListContinuationElement1594,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2880, col: 13, offset: 91378},
+															pos: position{line: 2880, col: 13, offset: 91432},
 															expr: &charClassMatcher{
-																pos:        position{line: 2880, col: 13, offset: 91378},
+																pos:        position{line: 2880, col: 13, offset: 91432},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37747,28 +37783,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2956, col: 8, offset: 93250},
+													pos: position{line: 2956, col: 8, offset: 93304},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93023},
+															pos: position{line: 2943, col: 12, offset: 93077},
 															run: (*parser).callonListContinuationElement1598,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93024},
+																pos: position{line: 2943, col: 13, offset: 93078},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93024},
+																		pos:        position{line: 2943, col: 13, offset: 93078},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93031},
+																		pos:        position{line: 2943, col: 20, offset: 93085},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93040},
+																		pos:        position{line: 2943, col: 29, offset: 93094},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37777,9 +37813,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93200},
+															pos: position{line: 2953, col: 8, offset: 93254},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93201,
+																line: 2953, col: 9, offset: 93255,
 															},
 														},
 													},
@@ -37788,94 +37824,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1592, col: 5, offset: 51691},
+										pos: position{line: 1592, col: 5, offset: 51745},
 										run: (*parser).callonListContinuationElement1605,
 										expr: &seqExpr{
-											pos: position{line: 1592, col: 5, offset: 51691},
+											pos: position{line: 1592, col: 5, offset: 51745},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1592, col: 5, offset: 51691},
+													pos:   position{line: 1592, col: 5, offset: 51745},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1592, col: 11, offset: 51697},
+														pos: position{line: 1592, col: 11, offset: 51751},
 														expr: &actionExpr{
-															pos: position{line: 1757, col: 5, offset: 57046},
+															pos: position{line: 1757, col: 5, offset: 57100},
 															run: (*parser).callonListContinuationElement1609,
 															expr: &seqExpr{
-																pos: position{line: 1757, col: 5, offset: 57046},
+																pos: position{line: 1757, col: 5, offset: 57100},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1757, col: 5, offset: 57046},
+																		pos: position{line: 1757, col: 5, offset: 57100},
 																		run: (*parser).callonListContinuationElement1611,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1760, col: 5, offset: 57109},
+																		pos:   position{line: 1760, col: 5, offset: 57163},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1760, col: 12, offset: 57116},
+																			pos: position{line: 1760, col: 12, offset: 57170},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1760, col: 12, offset: 57116},
+																					pos: position{line: 1760, col: 12, offset: 57170},
 																					run: (*parser).callonListContinuationElement1614,
 																					expr: &litMatcher{
-																						pos:        position{line: 1760, col: 12, offset: 57116},
+																						pos:        position{line: 1760, col: 12, offset: 57170},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1762, col: 13, offset: 57172},
+																					pos: position{line: 1762, col: 13, offset: 57226},
 																					run: (*parser).callonListContinuationElement1616,
 																					expr: &litMatcher{
-																						pos:        position{line: 1762, col: 13, offset: 57172},
+																						pos:        position{line: 1762, col: 13, offset: 57226},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1764, col: 13, offset: 57230},
+																					pos: position{line: 1764, col: 13, offset: 57284},
 																					run: (*parser).callonListContinuationElement1618,
 																					expr: &litMatcher{
-																						pos:        position{line: 1764, col: 13, offset: 57230},
+																						pos:        position{line: 1764, col: 13, offset: 57284},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1766, col: 13, offset: 57298},
+																					pos: position{line: 1766, col: 13, offset: 57352},
 																					run: (*parser).callonListContinuationElement1620,
 																					expr: &litMatcher{
-																						pos:        position{line: 1766, col: 13, offset: 57298},
+																						pos:        position{line: 1766, col: 13, offset: 57352},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1768, col: 13, offset: 57362},
+																					pos: position{line: 1768, col: 13, offset: 57416},
 																					run: (*parser).callonListContinuationElement1622,
 																					expr: &litMatcher{
-																						pos:        position{line: 1768, col: 13, offset: 57362},
+																						pos:        position{line: 1768, col: 13, offset: 57416},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1770, col: 13, offset: 57426},
+																					pos: position{line: 1770, col: 13, offset: 57480},
 																					run: (*parser).callonListContinuationElement1624,
 																					expr: &andExpr{
-																						pos: position{line: 1770, col: 13, offset: 57426},
+																						pos: position{line: 1770, col: 13, offset: 57480},
 																						expr: &actionExpr{
-																							pos: position{line: 2938, col: 11, offset: 92913},
+																							pos: position{line: 2938, col: 11, offset: 92967},
 																							run: (*parser).callonListContinuationElement1626,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2938, col: 11, offset: 92913},
+																								pos: position{line: 2938, col: 11, offset: 92967},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2938, col: 11, offset: 92913},
+																									pos:        position{line: 2938, col: 11, offset: 92967},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37894,16 +37930,16 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1593, col: 5, offset: 51720},
+													pos:   position{line: 1593, col: 5, offset: 51774},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1535, col: 5, offset: 50036},
+														pos: position{line: 1535, col: 5, offset: 50090},
 														run: (*parser).callonListContinuationElement1630,
 														expr: &seqExpr{
-															pos: position{line: 1535, col: 5, offset: 50036},
+															pos: position{line: 1535, col: 5, offset: 50090},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1535, col: 5, offset: 50036},
+																	pos: position{line: 1535, col: 5, offset: 50090},
 																	expr: &actionExpr{
 																		pos: position{line: 702, col: 14, offset: 22577},
 																		run: (*parser).callonListContinuationElement1633,
@@ -37911,18 +37947,18 @@ var g = &grammar{
 																			pos: position{line: 702, col: 14, offset: 22577},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2951, col: 11, offset: 93186},
+																					pos: position{line: 2951, col: 11, offset: 93240},
 																					expr: &anyMatcher{
-																						line: 2951, col: 13, offset: 93188,
+																						line: 2951, col: 13, offset: 93242,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 702, col: 21, offset: 22584},
 																					expr: &actionExpr{
-																						pos: position{line: 2934, col: 10, offset: 92852},
+																						pos: position{line: 2934, col: 10, offset: 92906},
 																						run: (*parser).callonListContinuationElement1638,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2934, col: 10, offset: 92852},
+																							pos:        position{line: 2934, col: 10, offset: 92906},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37931,28 +37967,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2956, col: 8, offset: 93250},
+																					pos: position{line: 2956, col: 8, offset: 93304},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2943, col: 12, offset: 93023},
+																							pos: position{line: 2943, col: 12, offset: 93077},
 																							run: (*parser).callonListContinuationElement1641,
 																							expr: &choiceExpr{
-																								pos: position{line: 2943, col: 13, offset: 93024},
+																								pos: position{line: 2943, col: 13, offset: 93078},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 13, offset: 93024},
+																										pos:        position{line: 2943, col: 13, offset: 93078},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 20, offset: 93031},
+																										pos:        position{line: 2943, col: 20, offset: 93085},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 29, offset: 93040},
+																										pos:        position{line: 2943, col: 29, offset: 93094},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37961,9 +37997,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93200},
+																							pos: position{line: 2953, col: 8, offset: 93254},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93201,
+																								line: 2953, col: 9, offset: 93255,
 																							},
 																						},
 																					},
@@ -37973,23 +38009,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1536, col: 5, offset: 50051},
+																	pos: position{line: 1536, col: 5, offset: 50105},
 																	expr: &seqExpr{
-																		pos: position{line: 1567, col: 27, offset: 50911},
+																		pos: position{line: 1567, col: 27, offset: 50965},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1567, col: 27, offset: 50911},
+																				pos:        position{line: 1567, col: 27, offset: 50965},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1567, col: 31, offset: 50915},
+																				pos: position{line: 1567, col: 31, offset: 50969},
 																				expr: &actionExpr{
-																					pos: position{line: 2934, col: 10, offset: 92852},
+																					pos: position{line: 2934, col: 10, offset: 92906},
 																					run: (*parser).callonListContinuationElement1652,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2934, col: 10, offset: 92852},
+																						pos:        position{line: 2934, col: 10, offset: 92906},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37998,25 +38034,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonListContinuationElement1654,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -38028,20 +38064,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1537, col: 5, offset: 50079},
+																	pos: position{line: 1537, col: 5, offset: 50133},
 																	expr: &actionExpr{
-																		pos: position{line: 1608, col: 5, offset: 52130},
+																		pos: position{line: 1608, col: 5, offset: 52184},
 																		run: (*parser).callonListContinuationElement1660,
 																		expr: &seqExpr{
-																			pos: position{line: 1608, col: 5, offset: 52130},
+																			pos: position{line: 1608, col: 5, offset: 52184},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1608, col: 5, offset: 52130},
+																					pos: position{line: 1608, col: 5, offset: 52184},
 																					expr: &actionExpr{
-																						pos: position{line: 2934, col: 10, offset: 92852},
+																						pos: position{line: 2934, col: 10, offset: 92906},
 																						run: (*parser).callonListContinuationElement1663,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2934, col: 10, offset: 92852},
+																							pos:        position{line: 2934, col: 10, offset: 92906},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38050,27 +38086,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1608, col: 12, offset: 52137},
+																					pos:   position{line: 1608, col: 12, offset: 52191},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1610, col: 9, offset: 52200},
+																						pos: position{line: 1610, col: 9, offset: 52254},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1610, col: 9, offset: 52200},
+																								pos: position{line: 1610, col: 9, offset: 52254},
 																								run: (*parser).callonListContinuationElement1667,
 																								expr: &seqExpr{
-																									pos: position{line: 1610, col: 9, offset: 52200},
+																									pos: position{line: 1610, col: 9, offset: 52254},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1610, col: 9, offset: 52200},
+																											pos:   position{line: 1610, col: 9, offset: 52254},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1610, col: 16, offset: 52207},
+																												pos: position{line: 1610, col: 16, offset: 52261},
 																												run: (*parser).callonListContinuationElement1670,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1610, col: 16, offset: 52207},
+																													pos: position{line: 1610, col: 16, offset: 52261},
 																													expr: &litMatcher{
-																														pos:        position{line: 1610, col: 17, offset: 52208},
+																														pos:        position{line: 1610, col: 17, offset: 52262},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -38079,22 +38115,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1614, col: 9, offset: 52308},
+																											pos: position{line: 1614, col: 9, offset: 52362},
 																											run: (*parser).callonListContinuationElement1673,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1633, col: 11, offset: 53025},
+																								pos: position{line: 1633, col: 11, offset: 53079},
 																								run: (*parser).callonListContinuationElement1674,
 																								expr: &seqExpr{
-																									pos: position{line: 1633, col: 11, offset: 53025},
+																									pos: position{line: 1633, col: 11, offset: 53079},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1633, col: 11, offset: 53025},
+																											pos: position{line: 1633, col: 11, offset: 53079},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1633, col: 12, offset: 53026},
+																												pos:        position{line: 1633, col: 12, offset: 53080},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -38102,7 +38138,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1633, col: 20, offset: 53034},
+																											pos:        position{line: 1633, col: 20, offset: 53088},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38111,20 +38147,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1635, col: 13, offset: 53151},
+																								pos: position{line: 1635, col: 13, offset: 53205},
 																								run: (*parser).callonListContinuationElement1679,
 																								expr: &seqExpr{
-																									pos: position{line: 1635, col: 13, offset: 53151},
+																									pos: position{line: 1635, col: 13, offset: 53205},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1635, col: 14, offset: 53152},
+																											pos:        position{line: 1635, col: 14, offset: 53206},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1635, col: 21, offset: 53159},
+																											pos:        position{line: 1635, col: 21, offset: 53213},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38133,20 +38169,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1637, col: 13, offset: 53279},
+																								pos: position{line: 1637, col: 13, offset: 53333},
 																								run: (*parser).callonListContinuationElement1683,
 																								expr: &seqExpr{
-																									pos: position{line: 1637, col: 13, offset: 53279},
+																									pos: position{line: 1637, col: 13, offset: 53333},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1637, col: 14, offset: 53280},
+																											pos:        position{line: 1637, col: 14, offset: 53334},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1637, col: 21, offset: 53287},
+																											pos:        position{line: 1637, col: 21, offset: 53341},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38155,15 +38191,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1639, col: 13, offset: 53407},
+																								pos: position{line: 1639, col: 13, offset: 53461},
 																								run: (*parser).callonListContinuationElement1687,
 																								expr: &seqExpr{
-																									pos: position{line: 1639, col: 13, offset: 53407},
+																									pos: position{line: 1639, col: 13, offset: 53461},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1639, col: 13, offset: 53407},
+																											pos: position{line: 1639, col: 13, offset: 53461},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1639, col: 14, offset: 53408},
+																												pos:        position{line: 1639, col: 14, offset: 53462},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -38171,7 +38207,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1639, col: 26, offset: 53420},
+																											pos:        position{line: 1639, col: 26, offset: 53474},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -38180,15 +38216,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1641, col: 13, offset: 53540},
+																								pos: position{line: 1641, col: 13, offset: 53594},
 																								run: (*parser).callonListContinuationElement1692,
 																								expr: &seqExpr{
-																									pos: position{line: 1641, col: 13, offset: 53540},
+																									pos: position{line: 1641, col: 13, offset: 53594},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1641, col: 13, offset: 53540},
+																											pos: position{line: 1641, col: 13, offset: 53594},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1641, col: 14, offset: 53541},
+																												pos:        position{line: 1641, col: 14, offset: 53595},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -38196,7 +38232,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1641, col: 26, offset: 53553},
+																											pos:        position{line: 1641, col: 26, offset: 53607},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -38208,12 +38244,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2938, col: 11, offset: 92913},
+																					pos: position{line: 2938, col: 11, offset: 92967},
 																					run: (*parser).callonListContinuationElement1697,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2938, col: 11, offset: 92913},
+																						pos: position{line: 2938, col: 11, offset: 92967},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2938, col: 11, offset: 92913},
+																							pos:        position{line: 2938, col: 11, offset: 92967},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38226,20 +38262,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1538, col: 5, offset: 50109},
+																	pos: position{line: 1538, col: 5, offset: 50163},
 																	expr: &actionExpr{
-																		pos: position{line: 1658, col: 5, offset: 54092},
+																		pos: position{line: 1658, col: 5, offset: 54146},
 																		run: (*parser).callonListContinuationElement1701,
 																		expr: &seqExpr{
-																			pos: position{line: 1658, col: 5, offset: 54092},
+																			pos: position{line: 1658, col: 5, offset: 54146},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1658, col: 5, offset: 54092},
+																					pos: position{line: 1658, col: 5, offset: 54146},
 																					expr: &actionExpr{
-																						pos: position{line: 2934, col: 10, offset: 92852},
+																						pos: position{line: 2934, col: 10, offset: 92906},
 																						run: (*parser).callonListContinuationElement1704,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2934, col: 10, offset: 92852},
+																							pos:        position{line: 2934, col: 10, offset: 92906},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38248,24 +38284,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1659, col: 5, offset: 54104},
+																					pos:   position{line: 1659, col: 5, offset: 54158},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1660, col: 9, offset: 54120},
+																						pos: position{line: 1660, col: 9, offset: 54174},
 																						run: (*parser).callonListContinuationElement1707,
 																						expr: &choiceExpr{
-																							pos: position{line: 1660, col: 10, offset: 54121},
+																							pos: position{line: 1660, col: 10, offset: 54175},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1660, col: 11, offset: 54122},
+																									pos:        position{line: 1660, col: 11, offset: 54176},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1660, col: 18, offset: 54129},
+																									pos: position{line: 1660, col: 18, offset: 54183},
 																									expr: &litMatcher{
-																										pos:        position{line: 1660, col: 19, offset: 54130},
+																										pos:        position{line: 1660, col: 19, offset: 54184},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -38276,16 +38312,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1663, col: 7, offset: 54220},
+																					pos: position{line: 1663, col: 7, offset: 54274},
 																					run: (*parser).callonListContinuationElement1712,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2938, col: 11, offset: 92913},
+																					pos: position{line: 2938, col: 11, offset: 92967},
 																					run: (*parser).callonListContinuationElement1713,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2938, col: 11, offset: 92913},
+																						pos: position{line: 2938, col: 11, offset: 92967},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2938, col: 11, offset: 92913},
+																							pos:        position{line: 2938, col: 11, offset: 92967},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38298,29 +38334,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1539, col: 5, offset: 50141},
+																	pos: position{line: 1539, col: 5, offset: 50195},
 																	expr: &actionExpr{
-																		pos: position{line: 1748, col: 5, offset: 56661},
+																		pos: position{line: 1748, col: 5, offset: 56715},
 																		run: (*parser).callonListContinuationElement1717,
 																		expr: &seqExpr{
-																			pos: position{line: 1748, col: 5, offset: 56661},
+																			pos: position{line: 1748, col: 5, offset: 56715},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1748, col: 5, offset: 56661},
+																					pos:        position{line: 1748, col: 5, offset: 56715},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1748, col: 9, offset: 56665},
+																					pos:   position{line: 1748, col: 9, offset: 56719},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1748, col: 14, offset: 56670},
+																						pos: position{line: 1748, col: 14, offset: 56724},
 																						run: (*parser).callonListContinuationElement1721,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1748, col: 14, offset: 56670},
+																							pos: position{line: 1748, col: 14, offset: 56724},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1748, col: 14, offset: 56670},
+																								pos:        position{line: 1748, col: 14, offset: 56724},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -38330,18 +38366,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1748, col: 62, offset: 56718},
+																					pos:        position{line: 1748, col: 62, offset: 56772},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2938, col: 11, offset: 92913},
+																					pos: position{line: 2938, col: 11, offset: 92967},
 																					run: (*parser).callonListContinuationElement1725,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2938, col: 11, offset: 92913},
+																						pos: position{line: 2938, col: 11, offset: 92967},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2938, col: 11, offset: 92913},
+																							pos:        position{line: 2938, col: 11, offset: 92967},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38354,31 +38390,31 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1540, col: 5, offset: 50171},
+																	pos: position{line: 1540, col: 5, offset: 50225},
 																	expr: &seqExpr{
-																		pos: position{line: 1540, col: 7, offset: 50173},
+																		pos: position{line: 1540, col: 7, offset: 50227},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1693, col: 5, offset: 55111},
+																				pos: position{line: 1693, col: 5, offset: 55165},
 																				run: (*parser).callonListContinuationElement1730,
 																				expr: &seqExpr{
-																					pos: position{line: 1693, col: 5, offset: 55111},
+																					pos: position{line: 1693, col: 5, offset: 55165},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1693, col: 5, offset: 55111},
+																							pos: position{line: 1693, col: 5, offset: 55165},
 																							expr: &seqExpr{
-																								pos: position{line: 2542, col: 31, offset: 81880},
+																								pos: position{line: 2542, col: 31, offset: 81934},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2542, col: 31, offset: 81880},
+																										pos:        position{line: 2542, col: 31, offset: 81934},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2542, col: 36, offset: 81885},
+																										pos: position{line: 2542, col: 36, offset: 81939},
 																										expr: &litMatcher{
-																											pos:        position{line: 2542, col: 37, offset: 81886},
+																											pos:        position{line: 2542, col: 37, offset: 81940},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -38388,28 +38424,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1694, col: 5, offset: 55143},
+																							pos: position{line: 1694, col: 5, offset: 55197},
 																							expr: &seqExpr{
-																								pos: position{line: 1694, col: 6, offset: 55144},
+																								pos: position{line: 1694, col: 6, offset: 55198},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1694, col: 6, offset: 55144},
+																										pos: position{line: 1694, col: 6, offset: 55198},
 																										expr: &actionExpr{
-																											pos: position{line: 1699, col: 5, offset: 55294},
+																											pos: position{line: 1699, col: 5, offset: 55348},
 																											run: (*parser).callonListContinuationElement1740,
 																											expr: &seqExpr{
-																												pos: position{line: 1699, col: 5, offset: 55294},
+																												pos: position{line: 1699, col: 5, offset: 55348},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1699, col: 5, offset: 55294},
+																														pos:   position{line: 1699, col: 5, offset: 55348},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1699, col: 16, offset: 55305},
+																															pos: position{line: 1699, col: 16, offset: 55359},
 																															run: (*parser).callonListContinuationElement1743,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1699, col: 16, offset: 55305},
+																																pos: position{line: 1699, col: 16, offset: 55359},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1699, col: 17, offset: 55306},
+																																	pos:        position{line: 1699, col: 17, offset: 55360},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -38418,7 +38454,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1702, col: 5, offset: 55363},
+																														pos: position{line: 1702, col: 5, offset: 55417},
 																														run: (*parser).callonListContinuationElement1746,
 																													},
 																												},
@@ -38426,30 +38462,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1694, col: 35, offset: 55173},
+																										pos: position{line: 1694, col: 35, offset: 55227},
 																										expr: &choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93250},
+																											pos: position{line: 2956, col: 8, offset: 93304},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93023},
+																													pos: position{line: 2943, col: 12, offset: 93077},
 																													run: (*parser).callonListContinuationElement1749,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93024},
+																														pos: position{line: 2943, col: 13, offset: 93078},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93024},
+																																pos:        position{line: 2943, col: 13, offset: 93078},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93031},
+																																pos:        position{line: 2943, col: 20, offset: 93085},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93040},
+																																pos:        position{line: 2943, col: 29, offset: 93094},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38458,16 +38494,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93200},
+																													pos: position{line: 2953, col: 8, offset: 93254},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93201,
+																														line: 2953, col: 9, offset: 93255,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1694, col: 40, offset: 55178,
+																										line: 1694, col: 40, offset: 55232,
 																									},
 																								},
 																							},
@@ -38476,21 +38512,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1699, col: 5, offset: 55294},
+																				pos: position{line: 1699, col: 5, offset: 55348},
 																				run: (*parser).callonListContinuationElement1757,
 																				expr: &seqExpr{
-																					pos: position{line: 1699, col: 5, offset: 55294},
+																					pos: position{line: 1699, col: 5, offset: 55348},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1699, col: 5, offset: 55294},
+																							pos:   position{line: 1699, col: 5, offset: 55348},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1699, col: 16, offset: 55305},
+																								pos: position{line: 1699, col: 16, offset: 55359},
 																								run: (*parser).callonListContinuationElement1760,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1699, col: 16, offset: 55305},
+																									pos: position{line: 1699, col: 16, offset: 55359},
 																									expr: &litMatcher{
-																										pos:        position{line: 1699, col: 17, offset: 55306},
+																										pos:        position{line: 1699, col: 17, offset: 55360},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -38499,7 +38535,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1702, col: 5, offset: 55363},
+																							pos: position{line: 1702, col: 5, offset: 55417},
 																							run: (*parser).callonListContinuationElement1763,
 																						},
 																					},
@@ -38509,7 +38545,7 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1541, col: 5, offset: 50229},
+																	pos: position{line: 1541, col: 5, offset: 50283},
 																	expr: &actionExpr{
 																		pos: position{line: 749, col: 5, offset: 24130},
 																		run: (*parser).callonListContinuationElement1765,
@@ -38519,7 +38555,7 @@ var g = &grammar{
 																				&notExpr{
 																					pos: position{line: 749, col: 5, offset: 24130},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2824, col: 13, offset: 89947},
+																						pos:        position{line: 2824, col: 13, offset: 90001},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -38569,10 +38605,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 767, col: 8, offset: 24774},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92852},
+																												pos: position{line: 2934, col: 10, offset: 92906},
 																												run: (*parser).callonListContinuationElement1780,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92852},
+																													pos:        position{line: 2934, col: 10, offset: 92906},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38581,28 +38617,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93250},
+																											pos: position{line: 2956, col: 8, offset: 93304},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93023},
+																													pos: position{line: 2943, col: 12, offset: 93077},
 																													run: (*parser).callonListContinuationElement1783,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93024},
+																														pos: position{line: 2943, col: 13, offset: 93078},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93024},
+																																pos:        position{line: 2943, col: 13, offset: 93078},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93031},
+																																pos:        position{line: 2943, col: 20, offset: 93085},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93040},
+																																pos:        position{line: 2943, col: 29, offset: 93094},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38611,9 +38647,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93200},
+																													pos: position{line: 2953, col: 8, offset: 93254},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93201,
+																														line: 2953, col: 9, offset: 93255,
 																													},
 																												},
 																											},
@@ -38658,10 +38694,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 774, col: 8, offset: 25022},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92852},
+																												pos: position{line: 2934, col: 10, offset: 92906},
 																												run: (*parser).callonListContinuationElement1799,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92852},
+																													pos:        position{line: 2934, col: 10, offset: 92906},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38670,28 +38706,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93250},
+																											pos: position{line: 2956, col: 8, offset: 93304},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93023},
+																													pos: position{line: 2943, col: 12, offset: 93077},
 																													run: (*parser).callonListContinuationElement1802,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93024},
+																														pos: position{line: 2943, col: 13, offset: 93078},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93024},
+																																pos:        position{line: 2943, col: 13, offset: 93078},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93031},
+																																pos:        position{line: 2943, col: 20, offset: 93085},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93040},
+																																pos:        position{line: 2943, col: 29, offset: 93094},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38700,9 +38736,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93200},
+																													pos: position{line: 2953, col: 8, offset: 93254},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93201,
+																														line: 2953, col: 9, offset: 93255,
 																													},
 																												},
 																											},
@@ -38743,10 +38779,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 52, offset: 25434},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92852},
+																												pos: position{line: 2934, col: 10, offset: 92906},
 																												run: (*parser).callonListContinuationElement1817,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92852},
+																													pos:        position{line: 2934, col: 10, offset: 92906},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38755,28 +38791,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93250},
+																											pos: position{line: 2956, col: 8, offset: 93304},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93023},
+																													pos: position{line: 2943, col: 12, offset: 93077},
 																													run: (*parser).callonListContinuationElement1820,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93024},
+																														pos: position{line: 2943, col: 13, offset: 93078},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93024},
+																																pos:        position{line: 2943, col: 13, offset: 93078},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93031},
+																																pos:        position{line: 2943, col: 20, offset: 93085},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93040},
+																																pos:        position{line: 2943, col: 29, offset: 93094},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38785,9 +38821,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93200},
+																													pos: position{line: 2953, col: 8, offset: 93254},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93201,
+																														line: 2953, col: 9, offset: 93255,
 																													},
 																												},
 																											},
@@ -38832,10 +38868,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 781, col: 8, offset: 25268},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92852},
+																												pos: position{line: 2934, col: 10, offset: 92906},
 																												run: (*parser).callonListContinuationElement1836,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92852},
+																													pos:        position{line: 2934, col: 10, offset: 92906},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38844,28 +38880,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93250},
+																											pos: position{line: 2956, col: 8, offset: 93304},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93023},
+																													pos: position{line: 2943, col: 12, offset: 93077},
 																													run: (*parser).callonListContinuationElement1839,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93024},
+																														pos: position{line: 2943, col: 13, offset: 93078},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93024},
+																																pos:        position{line: 2943, col: 13, offset: 93078},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93031},
+																																pos:        position{line: 2943, col: 20, offset: 93085},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93040},
+																																pos:        position{line: 2943, col: 29, offset: 93094},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38874,9 +38910,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93200},
+																													pos: position{line: 2953, col: 8, offset: 93254},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93201,
+																														line: 2953, col: 9, offset: 93255,
 																													},
 																												},
 																											},
@@ -38921,10 +38957,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 796, col: 8, offset: 25806},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92852},
+																												pos: position{line: 2934, col: 10, offset: 92906},
 																												run: (*parser).callonListContinuationElement1855,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92852},
+																													pos:        position{line: 2934, col: 10, offset: 92906},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38933,28 +38969,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93250},
+																											pos: position{line: 2956, col: 8, offset: 93304},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93023},
+																													pos: position{line: 2943, col: 12, offset: 93077},
 																													run: (*parser).callonListContinuationElement1858,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93024},
+																														pos: position{line: 2943, col: 13, offset: 93078},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93024},
+																																pos:        position{line: 2943, col: 13, offset: 93078},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93031},
+																																pos:        position{line: 2943, col: 20, offset: 93085},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93040},
+																																pos:        position{line: 2943, col: 29, offset: 93094},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38963,9 +38999,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93200},
+																													pos: position{line: 2953, col: 8, offset: 93254},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93201,
+																														line: 2953, col: 9, offset: 93255,
 																													},
 																												},
 																											},
@@ -39010,10 +39046,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 810, col: 8, offset: 26282},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92852},
+																												pos: position{line: 2934, col: 10, offset: 92906},
 																												run: (*parser).callonListContinuationElement1874,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92852},
+																													pos:        position{line: 2934, col: 10, offset: 92906},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39022,28 +39058,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93250},
+																											pos: position{line: 2956, col: 8, offset: 93304},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93023},
+																													pos: position{line: 2943, col: 12, offset: 93077},
 																													run: (*parser).callonListContinuationElement1877,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93024},
+																														pos: position{line: 2943, col: 13, offset: 93078},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93024},
+																																pos:        position{line: 2943, col: 13, offset: 93078},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93031},
+																																pos:        position{line: 2943, col: 20, offset: 93085},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93040},
+																																pos:        position{line: 2943, col: 29, offset: 93094},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39052,9 +39088,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93200},
+																													pos: position{line: 2953, col: 8, offset: 93254},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93201,
+																														line: 2953, col: 9, offset: 93255,
 																													},
 																												},
 																											},
@@ -39099,10 +39135,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 817, col: 8, offset: 26534},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92852},
+																												pos: position{line: 2934, col: 10, offset: 92906},
 																												run: (*parser).callonListContinuationElement1893,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92852},
+																													pos:        position{line: 2934, col: 10, offset: 92906},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39111,28 +39147,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93250},
+																											pos: position{line: 2956, col: 8, offset: 93304},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93023},
+																													pos: position{line: 2943, col: 12, offset: 93077},
 																													run: (*parser).callonListContinuationElement1896,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93024},
+																														pos: position{line: 2943, col: 13, offset: 93078},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93024},
+																																pos:        position{line: 2943, col: 13, offset: 93078},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93031},
+																																pos:        position{line: 2943, col: 20, offset: 93085},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93040},
+																																pos:        position{line: 2943, col: 29, offset: 93094},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39141,9 +39177,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93200},
+																													pos: position{line: 2953, col: 8, offset: 93254},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93201,
+																														line: 2953, col: 9, offset: 93255,
 																													},
 																												},
 																											},
@@ -39188,10 +39224,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 824, col: 8, offset: 26784},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92852},
+																												pos: position{line: 2934, col: 10, offset: 92906},
 																												run: (*parser).callonListContinuationElement1912,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92852},
+																													pos:        position{line: 2934, col: 10, offset: 92906},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39200,28 +39236,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93250},
+																											pos: position{line: 2956, col: 8, offset: 93304},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93023},
+																													pos: position{line: 2943, col: 12, offset: 93077},
 																													run: (*parser).callonListContinuationElement1915,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93024},
+																														pos: position{line: 2943, col: 13, offset: 93078},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93024},
+																																pos:        position{line: 2943, col: 13, offset: 93078},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93031},
+																																pos:        position{line: 2943, col: 20, offset: 93085},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93040},
+																																pos:        position{line: 2943, col: 29, offset: 93094},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39230,9 +39266,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93200},
+																													pos: position{line: 2953, col: 8, offset: 93254},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93201,
+																														line: 2953, col: 9, offset: 93255,
 																													},
 																												},
 																											},
@@ -39277,10 +39313,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 831, col: 8, offset: 27030},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92852},
+																												pos: position{line: 2934, col: 10, offset: 92906},
 																												run: (*parser).callonListContinuationElement1931,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92852},
+																													pos:        position{line: 2934, col: 10, offset: 92906},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39289,28 +39325,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93250},
+																											pos: position{line: 2956, col: 8, offset: 93304},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93023},
+																													pos: position{line: 2943, col: 12, offset: 93077},
 																													run: (*parser).callonListContinuationElement1934,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93024},
+																														pos: position{line: 2943, col: 13, offset: 93078},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93024},
+																																pos:        position{line: 2943, col: 13, offset: 93078},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93031},
+																																pos:        position{line: 2943, col: 20, offset: 93085},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93040},
+																																pos:        position{line: 2943, col: 29, offset: 93094},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39319,9 +39355,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93200},
+																													pos: position{line: 2953, col: 8, offset: 93254},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93201,
+																														line: 2953, col: 9, offset: 93255,
 																													},
 																												},
 																											},
@@ -39337,15 +39373,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1542, col: 5, offset: 50249},
+																	pos:   position{line: 1542, col: 5, offset: 50303},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2884, col: 14, offset: 91445},
+																		pos: position{line: 2884, col: 14, offset: 91499},
 																		run: (*parser).callonListContinuationElement1942,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2884, col: 14, offset: 91445},
+																			pos: position{line: 2884, col: 14, offset: 91499},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2884, col: 14, offset: 91445},
+																				pos:        position{line: 2884, col: 14, offset: 91499},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -39355,28 +39391,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93250},
+																	pos: position{line: 2956, col: 8, offset: 93304},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93023},
+																			pos: position{line: 2943, col: 12, offset: 93077},
 																			run: (*parser).callonListContinuationElement1946,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93024},
+																				pos: position{line: 2943, col: 13, offset: 93078},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93024},
+																						pos:        position{line: 2943, col: 13, offset: 93078},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93031},
+																						pos:        position{line: 2943, col: 20, offset: 93085},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93040},
+																						pos:        position{line: 2943, col: 29, offset: 93094},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -39385,9 +39421,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93200},
+																			pos: position{line: 2953, col: 8, offset: 93254},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93201,
+																				line: 2953, col: 9, offset: 93255,
 																			},
 																		},
 																	},
@@ -39408,33 +39444,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1732, col: 1, offset: 56155},
+			pos:  position{line: 1732, col: 1, offset: 56209},
 			expr: &actionExpr{
-				pos: position{line: 1734, col: 5, offset: 56233},
+				pos: position{line: 1734, col: 5, offset: 56287},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1734, col: 5, offset: 56233},
+					pos: position{line: 1734, col: 5, offset: 56287},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1734, col: 5, offset: 56233},
+							pos: position{line: 1734, col: 5, offset: 56287},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1737, col: 5, offset: 56300},
+							pos:        position{line: 1737, col: 5, offset: 56354},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1737, col: 9, offset: 56304},
+							pos:   position{line: 1737, col: 9, offset: 56358},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1737, col: 14, offset: 56309},
+								pos: position{line: 1737, col: 14, offset: 56363},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1737, col: 14, offset: 56309},
+									pos: position{line: 1737, col: 14, offset: 56363},
 									expr: &charClassMatcher{
-										pos:        position{line: 1737, col: 14, offset: 56309},
+										pos:        position{line: 1737, col: 14, offset: 56363},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -39444,18 +39480,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1737, col: 62, offset: 56357},
+							pos:        position{line: 1737, col: 62, offset: 56411},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1737, col: 66, offset: 56361},
+							pos: position{line: 1737, col: 66, offset: 56415},
 							expr: &actionExpr{
-								pos: position{line: 2934, col: 10, offset: 92852},
+								pos: position{line: 2934, col: 10, offset: 92906},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2934, col: 10, offset: 92852},
+									pos:        position{line: 2934, col: 10, offset: 92906},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -39464,30 +39500,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1737, col: 73, offset: 56368},
+							pos: position{line: 1737, col: 73, offset: 56422},
 							expr: &choiceExpr{
-								pos: position{line: 1737, col: 75, offset: 56370},
+								pos: position{line: 1737, col: 75, offset: 56424},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2943, col: 12, offset: 93023},
+										pos: position{line: 2943, col: 12, offset: 93077},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2943, col: 13, offset: 93024},
+											pos: position{line: 2943, col: 13, offset: 93078},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2943, col: 13, offset: 93024},
+													pos:        position{line: 2943, col: 13, offset: 93078},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2943, col: 20, offset: 93031},
+													pos:        position{line: 2943, col: 20, offset: 93085},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2943, col: 29, offset: 93040},
+													pos:        position{line: 2943, col: 29, offset: 93094},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -39496,13 +39532,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2953, col: 8, offset: 93200},
+										pos: position{line: 2953, col: 8, offset: 93254},
 										expr: &anyMatcher{
-											line: 2953, col: 9, offset: 93201,
+											line: 2953, col: 9, offset: 93255,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1737, col: 81, offset: 56376},
+										pos:  position{line: 1737, col: 81, offset: 56430},
 										name: "Callout",
 									},
 								},
@@ -39514,44 +39550,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1776, col: 1, offset: 57549},
+			pos:  position{line: 1776, col: 1, offset: 57603},
 			expr: &actionExpr{
-				pos: position{line: 1778, col: 5, offset: 57623},
+				pos: position{line: 1778, col: 5, offset: 57677},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1778, col: 5, offset: 57623},
+					pos: position{line: 1778, col: 5, offset: 57677},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1778, col: 5, offset: 57623},
+							pos: position{line: 1778, col: 5, offset: 57677},
 							expr: &seqExpr{
-								pos: position{line: 1778, col: 7, offset: 57625},
+								pos: position{line: 1778, col: 7, offset: 57679},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2824, col: 13, offset: 89947},
+										pos:        position{line: 2824, col: 13, offset: 90001},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1778, col: 16, offset: 57634},
+										pos: position{line: 1778, col: 16, offset: 57688},
 										expr: &seqExpr{
-											pos: position{line: 1778, col: 18, offset: 57636},
+											pos: position{line: 1778, col: 18, offset: 57690},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1778, col: 19, offset: 57637},
+													pos:        position{line: 1778, col: 19, offset: 57691},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2938, col: 11, offset: 92913},
+													pos: position{line: 2938, col: 11, offset: 92967},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2938, col: 11, offset: 92913},
+														pos: position{line: 2938, col: 11, offset: 92967},
 														expr: &charClassMatcher{
-															pos:        position{line: 2938, col: 11, offset: 92913},
+															pos:        position{line: 2938, col: 11, offset: 92967},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -39566,88 +39602,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1779, col: 5, offset: 57777},
+							pos:   position{line: 1779, col: 5, offset: 57831},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1779, col: 11, offset: 57783},
+								pos: position{line: 1779, col: 11, offset: 57837},
 								expr: &actionExpr{
-									pos: position{line: 1757, col: 5, offset: 57046},
+									pos: position{line: 1757, col: 5, offset: 57100},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1757, col: 5, offset: 57046},
+										pos: position{line: 1757, col: 5, offset: 57100},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1757, col: 5, offset: 57046},
+												pos: position{line: 1757, col: 5, offset: 57100},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1760, col: 5, offset: 57109},
+												pos:   position{line: 1760, col: 5, offset: 57163},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1760, col: 12, offset: 57116},
+													pos: position{line: 1760, col: 12, offset: 57170},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1760, col: 12, offset: 57116},
+															pos: position{line: 1760, col: 12, offset: 57170},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1760, col: 12, offset: 57116},
+																pos:        position{line: 1760, col: 12, offset: 57170},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1762, col: 13, offset: 57172},
+															pos: position{line: 1762, col: 13, offset: 57226},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1762, col: 13, offset: 57172},
+																pos:        position{line: 1762, col: 13, offset: 57226},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1764, col: 13, offset: 57230},
+															pos: position{line: 1764, col: 13, offset: 57284},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1764, col: 13, offset: 57230},
+																pos:        position{line: 1764, col: 13, offset: 57284},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1766, col: 13, offset: 57298},
+															pos: position{line: 1766, col: 13, offset: 57352},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1766, col: 13, offset: 57298},
+																pos:        position{line: 1766, col: 13, offset: 57352},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1768, col: 13, offset: 57362},
+															pos: position{line: 1768, col: 13, offset: 57416},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1768, col: 13, offset: 57362},
+																pos:        position{line: 1768, col: 13, offset: 57416},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1770, col: 13, offset: 57426},
+															pos: position{line: 1770, col: 13, offset: 57480},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1770, col: 13, offset: 57426},
+																pos: position{line: 1770, col: 13, offset: 57480},
 																expr: &actionExpr{
-																	pos: position{line: 2938, col: 11, offset: 92913},
+																	pos: position{line: 2938, col: 11, offset: 92967},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2938, col: 11, offset: 92913},
+																		pos: position{line: 2938, col: 11, offset: 92967},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2938, col: 11, offset: 92913},
+																			pos:        position{line: 2938, col: 11, offset: 92967},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39666,24 +39702,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1780, col: 5, offset: 57805},
+							pos:   position{line: 1780, col: 5, offset: 57859},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1816, col: 5, offset: 58912},
+								pos: position{line: 1816, col: 5, offset: 58966},
 								run: (*parser).callonShortcutParagraph35,
 								expr: &seqExpr{
-									pos: position{line: 1816, col: 5, offset: 58912},
+									pos: position{line: 1816, col: 5, offset: 58966},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1816, col: 5, offset: 58912},
+											pos:   position{line: 1816, col: 5, offset: 58966},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2884, col: 14, offset: 91445},
+												pos: position{line: 2884, col: 14, offset: 91499},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2884, col: 14, offset: 91445},
+													pos: position{line: 2884, col: 14, offset: 91499},
 													expr: &charClassMatcher{
-														pos:        position{line: 2884, col: 14, offset: 91445},
+														pos:        position{line: 2884, col: 14, offset: 91499},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39693,32 +39729,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1817, col: 5, offset: 58936},
+											pos: position{line: 1817, col: 5, offset: 58990},
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2956, col: 8, offset: 93250},
+											pos: position{line: 2956, col: 8, offset: 93304},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2943, col: 12, offset: 93023},
+													pos: position{line: 2943, col: 12, offset: 93077},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2943, col: 13, offset: 93024},
+														pos: position{line: 2943, col: 13, offset: 93078},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2943, col: 13, offset: 93024},
+																pos:        position{line: 2943, col: 13, offset: 93078},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2943, col: 20, offset: 93031},
+																pos:        position{line: 2943, col: 20, offset: 93085},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2943, col: 29, offset: 93040},
+																pos:        position{line: 2943, col: 29, offset: 93094},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39727,9 +39763,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2953, col: 8, offset: 93200},
+													pos: position{line: 2953, col: 8, offset: 93254},
 													expr: &anyMatcher{
-														line: 2953, col: 9, offset: 93201,
+														line: 2953, col: 9, offset: 93255,
 													},
 												},
 											},
@@ -39739,28 +39775,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1781, col: 5, offset: 57839},
+							pos: position{line: 1781, col: 5, offset: 57893},
 							run: (*parser).callonShortcutParagraph50,
 						},
 						&labeledExpr{
-							pos:   position{line: 1788, col: 5, offset: 58169},
+							pos:   position{line: 1788, col: 5, offset: 58223},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1788, col: 16, offset: 58180},
+								pos: position{line: 1788, col: 16, offset: 58234},
 								expr: &actionExpr{
-									pos: position{line: 1789, col: 9, offset: 58190},
+									pos: position{line: 1789, col: 9, offset: 58244},
 									run: (*parser).callonShortcutParagraph53,
 									expr: &seqExpr{
-										pos: position{line: 1789, col: 9, offset: 58190},
+										pos: position{line: 1789, col: 9, offset: 58244},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2951, col: 11, offset: 93186},
+												pos: position{line: 2951, col: 11, offset: 93240},
 												expr: &anyMatcher{
-													line: 2951, col: 13, offset: 93188,
+													line: 2951, col: 13, offset: 93242,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1790, col: 9, offset: 58206},
+												pos: position{line: 1790, col: 9, offset: 58260},
 												expr: &actionExpr{
 													pos: position{line: 702, col: 14, offset: 22577},
 													run: (*parser).callonShortcutParagraph58,
@@ -39768,18 +39804,18 @@ var g = &grammar{
 														pos: position{line: 702, col: 14, offset: 22577},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2951, col: 11, offset: 93186},
+																pos: position{line: 2951, col: 11, offset: 93240},
 																expr: &anyMatcher{
-																	line: 2951, col: 13, offset: 93188,
+																	line: 2951, col: 13, offset: 93242,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 702, col: 21, offset: 22584},
 																expr: &actionExpr{
-																	pos: position{line: 2934, col: 10, offset: 92852},
+																	pos: position{line: 2934, col: 10, offset: 92906},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2934, col: 10, offset: 92852},
+																		pos:        position{line: 2934, col: 10, offset: 92906},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39788,28 +39824,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2956, col: 8, offset: 93250},
+																pos: position{line: 2956, col: 8, offset: 93304},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2943, col: 12, offset: 93023},
+																		pos: position{line: 2943, col: 12, offset: 93077},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2943, col: 13, offset: 93024},
+																			pos: position{line: 2943, col: 13, offset: 93078},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 13, offset: 93024},
+																					pos:        position{line: 2943, col: 13, offset: 93078},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 20, offset: 93031},
+																					pos:        position{line: 2943, col: 20, offset: 93085},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 29, offset: 93040},
+																					pos:        position{line: 2943, col: 29, offset: 93094},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39818,9 +39854,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93200},
+																		pos: position{line: 2953, col: 8, offset: 93254},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93201,
+																			line: 2953, col: 9, offset: 93255,
 																		},
 																	},
 																},
@@ -39830,14 +39866,14 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1791, col: 9, offset: 58225},
+												pos: position{line: 1791, col: 9, offset: 58279},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1791, col: 10, offset: 58226},
+													pos:  position{line: 1791, col: 10, offset: 58280},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1792, col: 9, offset: 58250},
+												pos: position{line: 1792, col: 9, offset: 58304},
 												expr: &actionExpr{
 													pos: position{line: 749, col: 5, offset: 24130},
 													run: (*parser).callonShortcutParagraph76,
@@ -39847,7 +39883,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 749, col: 5, offset: 24130},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2824, col: 13, offset: 89947},
+																	pos:        position{line: 2824, col: 13, offset: 90001},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -39897,10 +39933,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 767, col: 8, offset: 24774},
 																						expr: &actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92852},
+																							pos: position{line: 2934, col: 10, offset: 92906},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92852},
+																								pos:        position{line: 2934, col: 10, offset: 92906},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39909,28 +39945,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93250},
+																						pos: position{line: 2956, col: 8, offset: 93304},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93023},
+																								pos: position{line: 2943, col: 12, offset: 93077},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93024},
+																									pos: position{line: 2943, col: 13, offset: 93078},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93024},
+																											pos:        position{line: 2943, col: 13, offset: 93078},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93031},
+																											pos:        position{line: 2943, col: 20, offset: 93085},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93040},
+																											pos:        position{line: 2943, col: 29, offset: 93094},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39939,9 +39975,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93200},
+																								pos: position{line: 2953, col: 8, offset: 93254},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93201,
+																									line: 2953, col: 9, offset: 93255,
 																								},
 																							},
 																						},
@@ -39986,10 +40022,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 774, col: 8, offset: 25022},
 																						expr: &actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92852},
+																							pos: position{line: 2934, col: 10, offset: 92906},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92852},
+																								pos:        position{line: 2934, col: 10, offset: 92906},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39998,28 +40034,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93250},
+																						pos: position{line: 2956, col: 8, offset: 93304},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93023},
+																								pos: position{line: 2943, col: 12, offset: 93077},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93024},
+																									pos: position{line: 2943, col: 13, offset: 93078},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93024},
+																											pos:        position{line: 2943, col: 13, offset: 93078},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93031},
+																											pos:        position{line: 2943, col: 20, offset: 93085},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93040},
+																											pos:        position{line: 2943, col: 29, offset: 93094},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40028,9 +40064,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93200},
+																								pos: position{line: 2953, col: 8, offset: 93254},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93201,
+																									line: 2953, col: 9, offset: 93255,
 																								},
 																							},
 																						},
@@ -40071,10 +40107,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 785, col: 52, offset: 25434},
 																						expr: &actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92852},
+																							pos: position{line: 2934, col: 10, offset: 92906},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92852},
+																								pos:        position{line: 2934, col: 10, offset: 92906},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40083,28 +40119,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93250},
+																						pos: position{line: 2956, col: 8, offset: 93304},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93023},
+																								pos: position{line: 2943, col: 12, offset: 93077},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93024},
+																									pos: position{line: 2943, col: 13, offset: 93078},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93024},
+																											pos:        position{line: 2943, col: 13, offset: 93078},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93031},
+																											pos:        position{line: 2943, col: 20, offset: 93085},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93040},
+																											pos:        position{line: 2943, col: 29, offset: 93094},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40113,9 +40149,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93200},
+																								pos: position{line: 2953, col: 8, offset: 93254},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93201,
+																									line: 2953, col: 9, offset: 93255,
 																								},
 																							},
 																						},
@@ -40160,10 +40196,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 781, col: 8, offset: 25268},
 																						expr: &actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92852},
+																							pos: position{line: 2934, col: 10, offset: 92906},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92852},
+																								pos:        position{line: 2934, col: 10, offset: 92906},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40172,28 +40208,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93250},
+																						pos: position{line: 2956, col: 8, offset: 93304},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93023},
+																								pos: position{line: 2943, col: 12, offset: 93077},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93024},
+																									pos: position{line: 2943, col: 13, offset: 93078},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93024},
+																											pos:        position{line: 2943, col: 13, offset: 93078},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93031},
+																											pos:        position{line: 2943, col: 20, offset: 93085},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93040},
+																											pos:        position{line: 2943, col: 29, offset: 93094},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40202,9 +40238,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93200},
+																								pos: position{line: 2953, col: 8, offset: 93254},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93201,
+																									line: 2953, col: 9, offset: 93255,
 																								},
 																							},
 																						},
@@ -40249,10 +40285,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 796, col: 8, offset: 25806},
 																						expr: &actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92852},
+																							pos: position{line: 2934, col: 10, offset: 92906},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92852},
+																								pos:        position{line: 2934, col: 10, offset: 92906},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40261,28 +40297,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93250},
+																						pos: position{line: 2956, col: 8, offset: 93304},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93023},
+																								pos: position{line: 2943, col: 12, offset: 93077},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93024},
+																									pos: position{line: 2943, col: 13, offset: 93078},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93024},
+																											pos:        position{line: 2943, col: 13, offset: 93078},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93031},
+																											pos:        position{line: 2943, col: 20, offset: 93085},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93040},
+																											pos:        position{line: 2943, col: 29, offset: 93094},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40291,9 +40327,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93200},
+																								pos: position{line: 2953, col: 8, offset: 93254},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93201,
+																									line: 2953, col: 9, offset: 93255,
 																								},
 																							},
 																						},
@@ -40338,10 +40374,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 810, col: 8, offset: 26282},
 																						expr: &actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92852},
+																							pos: position{line: 2934, col: 10, offset: 92906},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92852},
+																								pos:        position{line: 2934, col: 10, offset: 92906},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40350,28 +40386,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93250},
+																						pos: position{line: 2956, col: 8, offset: 93304},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93023},
+																								pos: position{line: 2943, col: 12, offset: 93077},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93024},
+																									pos: position{line: 2943, col: 13, offset: 93078},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93024},
+																											pos:        position{line: 2943, col: 13, offset: 93078},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93031},
+																											pos:        position{line: 2943, col: 20, offset: 93085},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93040},
+																											pos:        position{line: 2943, col: 29, offset: 93094},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40380,9 +40416,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93200},
+																								pos: position{line: 2953, col: 8, offset: 93254},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93201,
+																									line: 2953, col: 9, offset: 93255,
 																								},
 																							},
 																						},
@@ -40427,10 +40463,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 817, col: 8, offset: 26534},
 																						expr: &actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92852},
+																							pos: position{line: 2934, col: 10, offset: 92906},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92852},
+																								pos:        position{line: 2934, col: 10, offset: 92906},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40439,28 +40475,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93250},
+																						pos: position{line: 2956, col: 8, offset: 93304},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93023},
+																								pos: position{line: 2943, col: 12, offset: 93077},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93024},
+																									pos: position{line: 2943, col: 13, offset: 93078},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93024},
+																											pos:        position{line: 2943, col: 13, offset: 93078},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93031},
+																											pos:        position{line: 2943, col: 20, offset: 93085},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93040},
+																											pos:        position{line: 2943, col: 29, offset: 93094},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40469,9 +40505,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93200},
+																								pos: position{line: 2953, col: 8, offset: 93254},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93201,
+																									line: 2953, col: 9, offset: 93255,
 																								},
 																							},
 																						},
@@ -40516,10 +40552,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 824, col: 8, offset: 26784},
 																						expr: &actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92852},
+																							pos: position{line: 2934, col: 10, offset: 92906},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92852},
+																								pos:        position{line: 2934, col: 10, offset: 92906},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40528,28 +40564,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93250},
+																						pos: position{line: 2956, col: 8, offset: 93304},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93023},
+																								pos: position{line: 2943, col: 12, offset: 93077},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93024},
+																									pos: position{line: 2943, col: 13, offset: 93078},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93024},
+																											pos:        position{line: 2943, col: 13, offset: 93078},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93031},
+																											pos:        position{line: 2943, col: 20, offset: 93085},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93040},
+																											pos:        position{line: 2943, col: 29, offset: 93094},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40558,9 +40594,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93200},
+																								pos: position{line: 2953, col: 8, offset: 93254},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93201,
+																									line: 2953, col: 9, offset: 93255,
 																								},
 																							},
 																						},
@@ -40605,10 +40641,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 831, col: 8, offset: 27030},
 																						expr: &actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92852},
+																							pos: position{line: 2934, col: 10, offset: 92906},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92852},
+																								pos:        position{line: 2934, col: 10, offset: 92906},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40617,28 +40653,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93250},
+																						pos: position{line: 2956, col: 8, offset: 93304},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93023},
+																								pos: position{line: 2943, col: 12, offset: 93077},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93024},
+																									pos: position{line: 2943, col: 13, offset: 93078},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93024},
+																											pos:        position{line: 2943, col: 13, offset: 93078},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93031},
+																											pos:        position{line: 2943, col: 20, offset: 93085},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93040},
+																											pos:        position{line: 2943, col: 29, offset: 93094},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40647,9 +40683,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93200},
+																								pos: position{line: 2953, col: 8, offset: 93254},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93201,
+																									line: 2953, col: 9, offset: 93255,
 																								},
 																							},
 																						},
@@ -40665,23 +40701,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1793, col: 9, offset: 58274},
+												pos: position{line: 1793, col: 9, offset: 58328},
 												expr: &seqExpr{
-													pos: position{line: 1567, col: 27, offset: 50911},
+													pos: position{line: 1567, col: 27, offset: 50965},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1567, col: 27, offset: 50911},
+															pos:        position{line: 1567, col: 27, offset: 50965},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1567, col: 31, offset: 50915},
+															pos: position{line: 1567, col: 31, offset: 50969},
 															expr: &actionExpr{
-																pos: position{line: 2934, col: 10, offset: 92852},
+																pos: position{line: 2934, col: 10, offset: 92906},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2934, col: 10, offset: 92852},
+																	pos:        position{line: 2934, col: 10, offset: 92906},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40690,25 +40726,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93023},
+															pos: position{line: 2943, col: 12, offset: 93077},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93024},
+																pos: position{line: 2943, col: 13, offset: 93078},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93024},
+																		pos:        position{line: 2943, col: 13, offset: 93078},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93031},
+																		pos:        position{line: 2943, col: 20, offset: 93085},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93040},
+																		pos:        position{line: 2943, col: 29, offset: 93094},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40720,42 +40756,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1794, col: 9, offset: 58306},
+												pos:   position{line: 1794, col: 9, offset: 58360},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1794, col: 15, offset: 58312},
+													pos: position{line: 1794, col: 15, offset: 58366},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2537, col: 22, offset: 81630},
+															pos: position{line: 2537, col: 22, offset: 81684},
 															run: (*parser).callonShortcutParagraph265,
 															expr: &seqExpr{
-																pos: position{line: 2537, col: 22, offset: 81630},
+																pos: position{line: 2537, col: 22, offset: 81684},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2542, col: 31, offset: 81880},
+																		pos:        position{line: 2542, col: 31, offset: 81934},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2542, col: 36, offset: 81885},
+																		pos: position{line: 2542, col: 36, offset: 81939},
 																		expr: &litMatcher{
-																			pos:        position{line: 2542, col: 37, offset: 81886},
+																			pos:        position{line: 2542, col: 37, offset: 81940},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2537, col: 49, offset: 81657},
+																		pos:   position{line: 2537, col: 49, offset: 81711},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 13, offset: 91378},
+																			pos: position{line: 2880, col: 13, offset: 91432},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2880, col: 13, offset: 91378},
+																				pos: position{line: 2880, col: 13, offset: 91432},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 13, offset: 91378},
+																					pos:        position{line: 2880, col: 13, offset: 91432},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40765,28 +40801,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93250},
+																		pos: position{line: 2956, col: 8, offset: 93304},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40795,9 +40831,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93200},
+																				pos: position{line: 2953, col: 8, offset: 93254},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93201,
+																					line: 2953, col: 9, offset: 93255,
 																				},
 																			},
 																		},
@@ -40806,21 +40842,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1816, col: 5, offset: 58912},
+															pos: position{line: 1816, col: 5, offset: 58966},
 															run: (*parser).callonShortcutParagraph282,
 															expr: &seqExpr{
-																pos: position{line: 1816, col: 5, offset: 58912},
+																pos: position{line: 1816, col: 5, offset: 58966},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1816, col: 5, offset: 58912},
+																		pos:   position{line: 1816, col: 5, offset: 58966},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2884, col: 14, offset: 91445},
+																			pos: position{line: 2884, col: 14, offset: 91499},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2884, col: 14, offset: 91445},
+																				pos: position{line: 2884, col: 14, offset: 91499},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2884, col: 14, offset: 91445},
+																					pos:        position{line: 2884, col: 14, offset: 91499},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40830,32 +40866,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1817, col: 5, offset: 58936},
+																		pos: position{line: 1817, col: 5, offset: 58990},
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93250},
+																		pos: position{line: 2956, col: 8, offset: 93304},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40864,9 +40900,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93200},
+																				pos: position{line: 2953, col: 8, offset: 93254},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93201,
+																					line: 2953, col: 9, offset: 93255,
 																				},
 																			},
 																		},
@@ -40888,96 +40924,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1801, col: 1, offset: 58516},
+			pos:  position{line: 1801, col: 1, offset: 58570},
 			expr: &actionExpr{
-				pos: position{line: 1802, col: 5, offset: 58534},
+				pos: position{line: 1802, col: 5, offset: 58588},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1802, col: 5, offset: 58534},
+					pos: position{line: 1802, col: 5, offset: 58588},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1802, col: 5, offset: 58534},
+							pos:   position{line: 1802, col: 5, offset: 58588},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1802, col: 11, offset: 58540},
+								pos: position{line: 1802, col: 11, offset: 58594},
 								expr: &actionExpr{
-									pos: position{line: 1757, col: 5, offset: 57046},
+									pos: position{line: 1757, col: 5, offset: 57100},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1757, col: 5, offset: 57046},
+										pos: position{line: 1757, col: 5, offset: 57100},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1757, col: 5, offset: 57046},
+												pos: position{line: 1757, col: 5, offset: 57100},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1760, col: 5, offset: 57109},
+												pos:   position{line: 1760, col: 5, offset: 57163},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1760, col: 12, offset: 57116},
+													pos: position{line: 1760, col: 12, offset: 57170},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1760, col: 12, offset: 57116},
+															pos: position{line: 1760, col: 12, offset: 57170},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1760, col: 12, offset: 57116},
+																pos:        position{line: 1760, col: 12, offset: 57170},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1762, col: 13, offset: 57172},
+															pos: position{line: 1762, col: 13, offset: 57226},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1762, col: 13, offset: 57172},
+																pos:        position{line: 1762, col: 13, offset: 57226},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1764, col: 13, offset: 57230},
+															pos: position{line: 1764, col: 13, offset: 57284},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1764, col: 13, offset: 57230},
+																pos:        position{line: 1764, col: 13, offset: 57284},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1766, col: 13, offset: 57298},
+															pos: position{line: 1766, col: 13, offset: 57352},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1766, col: 13, offset: 57298},
+																pos:        position{line: 1766, col: 13, offset: 57352},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1768, col: 13, offset: 57362},
+															pos: position{line: 1768, col: 13, offset: 57416},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1768, col: 13, offset: 57362},
+																pos:        position{line: 1768, col: 13, offset: 57416},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1770, col: 13, offset: 57426},
+															pos: position{line: 1770, col: 13, offset: 57480},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1770, col: 13, offset: 57426},
+																pos: position{line: 1770, col: 13, offset: 57480},
 																expr: &actionExpr{
-																	pos: position{line: 2938, col: 11, offset: 92913},
+																	pos: position{line: 2938, col: 11, offset: 92967},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2938, col: 11, offset: 92913},
+																		pos: position{line: 2938, col: 11, offset: 92967},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2938, col: 11, offset: 92913},
+																			pos:        position{line: 2938, col: 11, offset: 92967},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40996,24 +41032,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1803, col: 5, offset: 58563},
+							pos:   position{line: 1803, col: 5, offset: 58617},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1816, col: 5, offset: 58912},
+								pos: position{line: 1816, col: 5, offset: 58966},
 								run: (*parser).callonParagraph26,
 								expr: &seqExpr{
-									pos: position{line: 1816, col: 5, offset: 58912},
+									pos: position{line: 1816, col: 5, offset: 58966},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1816, col: 5, offset: 58912},
+											pos:   position{line: 1816, col: 5, offset: 58966},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2884, col: 14, offset: 91445},
+												pos: position{line: 2884, col: 14, offset: 91499},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2884, col: 14, offset: 91445},
+													pos: position{line: 2884, col: 14, offset: 91499},
 													expr: &charClassMatcher{
-														pos:        position{line: 2884, col: 14, offset: 91445},
+														pos:        position{line: 2884, col: 14, offset: 91499},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -41023,32 +41059,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1817, col: 5, offset: 58936},
+											pos: position{line: 1817, col: 5, offset: 58990},
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2956, col: 8, offset: 93250},
+											pos: position{line: 2956, col: 8, offset: 93304},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2943, col: 12, offset: 93023},
+													pos: position{line: 2943, col: 12, offset: 93077},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2943, col: 13, offset: 93024},
+														pos: position{line: 2943, col: 13, offset: 93078},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2943, col: 13, offset: 93024},
+																pos:        position{line: 2943, col: 13, offset: 93078},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2943, col: 20, offset: 93031},
+																pos:        position{line: 2943, col: 20, offset: 93085},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2943, col: 29, offset: 93040},
+																pos:        position{line: 2943, col: 29, offset: 93094},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -41057,9 +41093,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2953, col: 8, offset: 93200},
+													pos: position{line: 2953, col: 8, offset: 93254},
 													expr: &anyMatcher{
-														line: 2953, col: 9, offset: 93201,
+														line: 2953, col: 9, offset: 93255,
 													},
 												},
 											},
@@ -41069,24 +41105,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1804, col: 5, offset: 58597},
+							pos:   position{line: 1804, col: 5, offset: 58651},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1804, col: 16, offset: 58608},
+								pos: position{line: 1804, col: 16, offset: 58662},
 								expr: &actionExpr{
-									pos: position{line: 1805, col: 9, offset: 58618},
+									pos: position{line: 1805, col: 9, offset: 58672},
 									run: (*parser).callonParagraph43,
 									expr: &seqExpr{
-										pos: position{line: 1805, col: 9, offset: 58618},
+										pos: position{line: 1805, col: 9, offset: 58672},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2951, col: 11, offset: 93186},
+												pos: position{line: 2951, col: 11, offset: 93240},
 												expr: &anyMatcher{
-													line: 2951, col: 13, offset: 93188,
+													line: 2951, col: 13, offset: 93242,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1806, col: 9, offset: 58633},
+												pos: position{line: 1806, col: 9, offset: 58687},
 												expr: &actionExpr{
 													pos: position{line: 702, col: 14, offset: 22577},
 													run: (*parser).callonParagraph48,
@@ -41094,18 +41130,18 @@ var g = &grammar{
 														pos: position{line: 702, col: 14, offset: 22577},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2951, col: 11, offset: 93186},
+																pos: position{line: 2951, col: 11, offset: 93240},
 																expr: &anyMatcher{
-																	line: 2951, col: 13, offset: 93188,
+																	line: 2951, col: 13, offset: 93242,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 702, col: 21, offset: 22584},
 																expr: &actionExpr{
-																	pos: position{line: 2934, col: 10, offset: 92852},
+																	pos: position{line: 2934, col: 10, offset: 92906},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2934, col: 10, offset: 92852},
+																		pos:        position{line: 2934, col: 10, offset: 92906},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -41114,28 +41150,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2956, col: 8, offset: 93250},
+																pos: position{line: 2956, col: 8, offset: 93304},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2943, col: 12, offset: 93023},
+																		pos: position{line: 2943, col: 12, offset: 93077},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2943, col: 13, offset: 93024},
+																			pos: position{line: 2943, col: 13, offset: 93078},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 13, offset: 93024},
+																					pos:        position{line: 2943, col: 13, offset: 93078},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 20, offset: 93031},
+																					pos:        position{line: 2943, col: 20, offset: 93085},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 29, offset: 93040},
+																					pos:        position{line: 2943, col: 29, offset: 93094},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -41144,9 +41180,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93200},
+																		pos: position{line: 2953, col: 8, offset: 93254},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93201,
+																			line: 2953, col: 9, offset: 93255,
 																		},
 																	},
 																},
@@ -41156,49 +41192,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1807, col: 9, offset: 58652},
+												pos: position{line: 1807, col: 9, offset: 58706},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1807, col: 10, offset: 58653},
+													pos:  position{line: 1807, col: 10, offset: 58707},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1808, col: 9, offset: 58677},
+												pos:   position{line: 1808, col: 9, offset: 58731},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1808, col: 15, offset: 58683},
+													pos: position{line: 1808, col: 15, offset: 58737},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2537, col: 22, offset: 81630},
+															pos: position{line: 2537, col: 22, offset: 81684},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 2537, col: 22, offset: 81630},
+																pos: position{line: 2537, col: 22, offset: 81684},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2542, col: 31, offset: 81880},
+																		pos:        position{line: 2542, col: 31, offset: 81934},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2542, col: 36, offset: 81885},
+																		pos: position{line: 2542, col: 36, offset: 81939},
 																		expr: &litMatcher{
-																			pos:        position{line: 2542, col: 37, offset: 81886},
+																			pos:        position{line: 2542, col: 37, offset: 81940},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2537, col: 49, offset: 81657},
+																		pos:   position{line: 2537, col: 49, offset: 81711},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 13, offset: 91378},
+																			pos: position{line: 2880, col: 13, offset: 91432},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2880, col: 13, offset: 91378},
+																				pos: position{line: 2880, col: 13, offset: 91432},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 13, offset: 91378},
+																					pos:        position{line: 2880, col: 13, offset: 91432},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41208,28 +41244,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93250},
+																		pos: position{line: 2956, col: 8, offset: 93304},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41238,9 +41274,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93200},
+																				pos: position{line: 2953, col: 8, offset: 93254},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93201,
+																					line: 2953, col: 9, offset: 93255,
 																				},
 																			},
 																		},
@@ -41249,21 +41285,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1816, col: 5, offset: 58912},
+															pos: position{line: 1816, col: 5, offset: 58966},
 															run: (*parser).callonParagraph84,
 															expr: &seqExpr{
-																pos: position{line: 1816, col: 5, offset: 58912},
+																pos: position{line: 1816, col: 5, offset: 58966},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1816, col: 5, offset: 58912},
+																		pos:   position{line: 1816, col: 5, offset: 58966},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2884, col: 14, offset: 91445},
+																			pos: position{line: 2884, col: 14, offset: 91499},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2884, col: 14, offset: 91445},
+																				pos: position{line: 2884, col: 14, offset: 91499},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2884, col: 14, offset: 91445},
+																					pos:        position{line: 2884, col: 14, offset: 91499},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41273,32 +41309,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1817, col: 5, offset: 58936},
+																		pos: position{line: 1817, col: 5, offset: 58990},
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93250},
+																		pos: position{line: 2956, col: 8, offset: 93304},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41307,9 +41343,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93200},
+																				pos: position{line: 2953, col: 8, offset: 93254},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93201,
+																					line: 2953, col: 9, offset: 93255,
 																				},
 																			},
 																		},
@@ -41331,16 +41367,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1827, col: 1, offset: 59422},
+			pos:  position{line: 1827, col: 1, offset: 59476},
 			expr: &choiceExpr{
-				pos: position{line: 1827, col: 15, offset: 59436},
+				pos: position{line: 1827, col: 15, offset: 59490},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1827, col: 15, offset: 59436},
+						pos:  position{line: 1827, col: 15, offset: 59490},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1827, col: 35, offset: 59456},
+						pos:  position{line: 1827, col: 35, offset: 59510},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -41348,65 +41384,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1829, col: 1, offset: 59477},
+			pos:  position{line: 1829, col: 1, offset: 59531},
 			expr: &actionExpr{
-				pos: position{line: 1830, col: 5, offset: 59502},
+				pos: position{line: 1830, col: 5, offset: 59556},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1830, col: 5, offset: 59502},
+					pos: position{line: 1830, col: 5, offset: 59556},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1830, col: 5, offset: 59502},
+							pos:   position{line: 1830, col: 5, offset: 59556},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1830, col: 16, offset: 59513},
+								pos: position{line: 1830, col: 16, offset: 59567},
 								expr: &actionExpr{
-									pos: position{line: 1830, col: 17, offset: 59514},
+									pos: position{line: 1830, col: 17, offset: 59568},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1830, col: 17, offset: 59514},
+										pos:  position{line: 1830, col: 17, offset: 59568},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1833, col: 5, offset: 59582},
+							pos: position{line: 1833, col: 5, offset: 59636},
 							expr: &litMatcher{
-								pos:        position{line: 1833, col: 7, offset: 59584},
+								pos:        position{line: 1833, col: 7, offset: 59638},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1834, col: 5, offset: 59593},
+							pos:   position{line: 1834, col: 5, offset: 59647},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1835, col: 9, offset: 59611},
+								pos: position{line: 1835, col: 9, offset: 59665},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1835, col: 9, offset: 59611},
+										pos:  position{line: 1835, col: 9, offset: 59665},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1836, col: 11, offset: 59638},
+										pos:  position{line: 1836, col: 11, offset: 59692},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1837, col: 11, offset: 59666},
+										pos:  position{line: 1837, col: 11, offset: 59720},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1838, col: 11, offset: 59697},
+										pos:  position{line: 1838, col: 11, offset: 59751},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1839, col: 11, offset: 59725},
+										pos:  position{line: 1839, col: 11, offset: 59779},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1840, col: 11, offset: 59756},
+										pos:  position{line: 1840, col: 11, offset: 59810},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -41418,36 +41454,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1845, col: 1, offset: 59876},
+			pos:  position{line: 1845, col: 1, offset: 59930},
 			expr: &actionExpr{
-				pos: position{line: 1846, col: 5, offset: 59918},
+				pos: position{line: 1846, col: 5, offset: 59972},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1846, col: 5, offset: 59918},
+					pos: position{line: 1846, col: 5, offset: 59972},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1846, col: 5, offset: 59918},
+							pos:   position{line: 1846, col: 5, offset: 59972},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1846, col: 16, offset: 59929},
+								pos: position{line: 1846, col: 16, offset: 59983},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1846, col: 17, offset: 59930},
+									pos:  position{line: 1846, col: 17, offset: 59984},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1847, col: 5, offset: 59955},
+							pos:   position{line: 1847, col: 5, offset: 60009},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1847, col: 14, offset: 59964},
+								pos: position{line: 1847, col: 14, offset: 60018},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1847, col: 14, offset: 59964},
+										pos:  position{line: 1847, col: 14, offset: 60018},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1847, col: 33, offset: 59983},
+										pos:  position{line: 1847, col: 33, offset: 60037},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -41459,32 +41495,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1855, col: 1, offset: 60214},
+			pos:  position{line: 1855, col: 1, offset: 60268},
 			expr: &choiceExpr{
-				pos: position{line: 1856, col: 5, offset: 60239},
+				pos: position{line: 1856, col: 5, offset: 60293},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1856, col: 5, offset: 60239},
+						pos:  position{line: 1856, col: 5, offset: 60293},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1857, col: 7, offset: 60266},
+						pos:  position{line: 1857, col: 7, offset: 60320},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1858, col: 7, offset: 60294},
+						pos:  position{line: 1858, col: 7, offset: 60348},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1859, col: 7, offset: 60326},
+						pos:  position{line: 1859, col: 7, offset: 60380},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1860, col: 7, offset: 60354},
+						pos:  position{line: 1860, col: 7, offset: 60408},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1861, col: 7, offset: 60375},
+						pos:  position{line: 1861, col: 7, offset: 60429},
 						name: "SuperscriptText",
 					},
 				},
@@ -41492,24 +41528,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1863, col: 1, offset: 60393},
+			pos:  position{line: 1863, col: 1, offset: 60447},
 			expr: &choiceExpr{
-				pos: position{line: 1864, col: 5, offset: 60418},
+				pos: position{line: 1864, col: 5, offset: 60472},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1864, col: 5, offset: 60418},
+						pos:  position{line: 1864, col: 5, offset: 60472},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1865, col: 7, offset: 60444},
+						pos:  position{line: 1865, col: 7, offset: 60498},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1866, col: 7, offset: 60472},
+						pos:  position{line: 1866, col: 7, offset: 60526},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1867, col: 7, offset: 60503},
+						pos:  position{line: 1867, col: 7, offset: 60557},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -41517,26 +41553,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1881, col: 1, offset: 60857},
+			pos:  position{line: 1881, col: 1, offset: 60911},
 			expr: &choiceExpr{
-				pos: position{line: 1882, col: 5, offset: 60883},
+				pos: position{line: 1882, col: 5, offset: 60937},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2833, col: 5, offset: 90094},
+						pos: position{line: 2833, col: 5, offset: 90148},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2833, col: 5, offset: 90094},
+							pos: position{line: 2833, col: 5, offset: 90148},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2833, col: 5, offset: 90094},
+									pos:   position{line: 2833, col: 5, offset: 90148},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2833, col: 11, offset: 90100},
+										pos: position{line: 2833, col: 11, offset: 90154},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2833, col: 11, offset: 90100},
+											pos: position{line: 2833, col: 11, offset: 90154},
 											expr: &charClassMatcher{
-												pos:        position{line: 2833, col: 11, offset: 90100},
+												pos:        position{line: 2833, col: 11, offset: 90154},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41546,36 +41582,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2836, col: 5, offset: 90158},
+									pos: position{line: 2836, col: 5, offset: 90212},
 									expr: &seqExpr{
-										pos: position{line: 2837, col: 9, offset: 90169},
+										pos: position{line: 2837, col: 9, offset: 90223},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2837, col: 9, offset: 90169},
+												pos:        position{line: 2837, col: 9, offset: 90223},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2838, col: 9, offset: 90218},
+												pos: position{line: 2838, col: 9, offset: 90272},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2842, col: 5, offset: 90298},
+									pos: position{line: 2842, col: 5, offset: 90352},
 									expr: &seqExpr{
-										pos: position{line: 2843, col: 9, offset: 90309},
+										pos: position{line: 2843, col: 9, offset: 90363},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2843, col: 9, offset: 90309},
+												pos:        position{line: 2843, col: 9, offset: 90363},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2843, col: 13, offset: 90313},
+												pos:        position{line: 2843, col: 13, offset: 90367},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41588,12 +41624,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2938, col: 11, offset: 92913},
+						pos: position{line: 2938, col: 11, offset: 92967},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2938, col: 11, offset: 92913},
+							pos: position{line: 2938, col: 11, offset: 92967},
 							expr: &charClassMatcher{
-								pos:        position{line: 2938, col: 11, offset: 92913},
+								pos:        position{line: 2938, col: 11, offset: 92967},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -41602,25 +41638,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1884, col: 7, offset: 60946},
+						pos:  position{line: 1884, col: 7, offset: 61000},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2555, col: 5, offset: 82375},
+						pos: position{line: 2555, col: 5, offset: 82429},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2555, col: 5, offset: 82375},
+							pos: position{line: 2555, col: 5, offset: 82429},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2555, col: 5, offset: 82375},
+									pos:        position{line: 2555, col: 5, offset: 82429},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2555, col: 10, offset: 82380},
+									pos: position{line: 2555, col: 10, offset: 82434},
 									expr: &charClassMatcher{
-										pos:        position{line: 2555, col: 11, offset: 82381},
+										pos:        position{line: 2555, col: 11, offset: 82435},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41631,29 +41667,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2561, col: 5, offset: 82573},
+						pos: position{line: 2561, col: 5, offset: 82627},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2561, col: 5, offset: 82573},
+							pos: position{line: 2561, col: 5, offset: 82627},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2561, col: 5, offset: 82573},
+									pos: position{line: 2561, col: 5, offset: 82627},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2564, col: 5, offset: 82644},
+									pos: position{line: 2564, col: 5, offset: 82698},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2568, col: 5, offset: 82769},
+									pos:        position{line: 2568, col: 5, offset: 82823},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2568, col: 9, offset: 82773},
+									pos: position{line: 2568, col: 9, offset: 82827},
 									expr: &charClassMatcher{
-										pos:        position{line: 2568, col: 10, offset: 82774},
+										pos:        position{line: 2568, col: 10, offset: 82828},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41664,27 +41700,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2851, col: 5, offset: 90506},
+						pos: position{line: 2851, col: 5, offset: 90560},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2852, col: 9, offset: 90516},
+							pos: position{line: 2852, col: 9, offset: 90570},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90517},
+									pos:        position{line: 2852, col: 10, offset: 90571},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2854, col: 13, offset: 90614},
+									pos: position{line: 2854, col: 13, offset: 90668},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2854, col: 13, offset: 90614},
+											pos: position{line: 2854, col: 13, offset: 90668},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2857, col: 13, offset: 90714},
+											pos:        position{line: 2857, col: 13, offset: 90768},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -41692,20 +41728,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2857, col: 19, offset: 90720},
+									pos:        position{line: 2857, col: 19, offset: 90774},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2860, col: 13, offset: 90758},
+									pos: position{line: 2860, col: 13, offset: 90812},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2860, col: 13, offset: 90758},
+											pos: position{line: 2860, col: 13, offset: 90812},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2863, col: 14, offset: 90851},
+											pos:        position{line: 2863, col: 14, offset: 90905},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -41714,18 +41750,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2865, col: 12, offset: 90895},
+									pos: position{line: 2865, col: 12, offset: 90949},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2865, col: 12, offset: 90895},
+											pos:        position{line: 2865, col: 12, offset: 90949},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2865, col: 16, offset: 90899},
+											pos: position{line: 2865, col: 16, offset: 90953},
 											expr: &litMatcher{
-												pos:        position{line: 2865, col: 17, offset: 90900},
+												pos:        position{line: 2865, col: 17, offset: 90954},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -42083,31 +42119,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2947, col: 18, offset: 93123},
+						pos: position{line: 2947, col: 18, offset: 93177},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2947, col: 18, offset: 93123},
+							pos: position{line: 2947, col: 18, offset: 93177},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2943, col: 12, offset: 93023},
+									pos: position{line: 2943, col: 12, offset: 93077},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2943, col: 13, offset: 93024},
+										pos: position{line: 2943, col: 13, offset: 93078},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2943, col: 13, offset: 93024},
+												pos:        position{line: 2943, col: 13, offset: 93078},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 20, offset: 93031},
+												pos:        position{line: 2943, col: 20, offset: 93085},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 29, offset: 93040},
+												pos:        position{line: 2943, col: 29, offset: 93094},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -42116,27 +42152,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2947, col: 26, offset: 93131},
+									pos: position{line: 2947, col: 26, offset: 93185},
 									expr: &actionExpr{
-										pos: position{line: 2943, col: 12, offset: 93023},
+										pos: position{line: 2943, col: 12, offset: 93077},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2943, col: 13, offset: 93024},
+											pos: position{line: 2943, col: 13, offset: 93078},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2943, col: 13, offset: 93024},
+													pos:        position{line: 2943, col: 13, offset: 93078},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2943, col: 20, offset: 93031},
+													pos:        position{line: 2943, col: 20, offset: 93085},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2943, col: 29, offset: 93040},
+													pos:        position{line: 2943, col: 29, offset: 93094},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -42149,31 +42185,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1889, col: 7, offset: 61113},
+						pos:  position{line: 1889, col: 7, offset: 61167},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1890, col: 7, offset: 61160},
+						pos:  position{line: 1890, col: 7, offset: 61214},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2524, col: 5, offset: 81176},
+						pos: position{line: 2524, col: 5, offset: 81230},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2524, col: 5, offset: 81176},
+							pos: position{line: 2524, col: 5, offset: 81230},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2524, col: 5, offset: 81176},
+									pos: position{line: 2524, col: 5, offset: 81230},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2527, col: 5, offset: 81252},
+									pos:   position{line: 2527, col: 5, offset: 81306},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2528, col: 9, offset: 81270},
+										pos: position{line: 2528, col: 9, offset: 81324},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2528, col: 10, offset: 81271},
+											pos:        position{line: 2528, col: 10, offset: 81325},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -42228,10 +42264,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2873, col: 12, offset: 91160},
+						pos: position{line: 2873, col: 12, offset: 91214},
 						run: (*parser).callonQuotedTextElement145,
 						expr: &charClassMatcher{
-							pos:        position{line: 2873, col: 12, offset: 91160},
+							pos:        position{line: 2873, col: 12, offset: 91214},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -42243,29 +42279,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1908, col: 1, offset: 61630},
+			pos:  position{line: 1908, col: 1, offset: 61684},
 			expr: &actionExpr{
-				pos: position{line: 1909, col: 5, offset: 61658},
+				pos: position{line: 1909, col: 5, offset: 61712},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1909, col: 5, offset: 61658},
+					pos: position{line: 1909, col: 5, offset: 61712},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1904, col: 38, offset: 61583},
+							pos:        position{line: 1904, col: 38, offset: 61637},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1910, col: 5, offset: 61697},
+							pos:   position{line: 1910, col: 5, offset: 61751},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1910, col: 15, offset: 61707},
+								pos:  position{line: 1910, col: 15, offset: 61761},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1906, col: 36, offset: 61624},
+							pos:        position{line: 1906, col: 36, offset: 61678},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -42276,24 +42312,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1915, col: 1, offset: 61867},
+			pos:  position{line: 1915, col: 1, offset: 61921},
 			expr: &actionExpr{
-				pos: position{line: 1916, col: 5, offset: 61902},
+				pos: position{line: 1916, col: 5, offset: 61956},
 				run: (*parser).callonDoubleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1916, col: 5, offset: 61902},
+					pos: position{line: 1916, col: 5, offset: 61956},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1916, col: 5, offset: 61902},
+							pos: position{line: 1916, col: 5, offset: 61956},
 							run: (*parser).callonDoubleQuoteBoldTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1920, col: 5, offset: 62022},
+							pos:   position{line: 1920, col: 5, offset: 62076},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1920, col: 14, offset: 62031},
+								pos: position{line: 1920, col: 14, offset: 62085},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1920, col: 15, offset: 62032},
+									pos:  position{line: 1920, col: 15, offset: 62086},
 									name: "DoubleQuoteBoldTextElement",
 								},
 							},
@@ -42304,33 +42340,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1924, col: 1, offset: 62099},
+			pos:  position{line: 1924, col: 1, offset: 62153},
 			expr: &actionExpr{
-				pos: position{line: 1925, col: 5, offset: 62134},
+				pos: position{line: 1925, col: 5, offset: 62188},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1925, col: 5, offset: 62134},
+					pos: position{line: 1925, col: 5, offset: 62188},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2951, col: 11, offset: 93186},
+							pos: position{line: 2951, col: 11, offset: 93240},
 							expr: &anyMatcher{
-								line: 2951, col: 13, offset: 93188,
+								line: 2951, col: 13, offset: 93242,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1926, col: 5, offset: 62145},
+							pos: position{line: 1926, col: 5, offset: 62199},
 							expr: &litMatcher{
-								pos:        position{line: 1906, col: 36, offset: 61624},
+								pos:        position{line: 1906, col: 36, offset: 61678},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1927, col: 5, offset: 62182},
+							pos:   position{line: 1927, col: 5, offset: 62236},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1927, col: 14, offset: 62191},
+								pos:  position{line: 1927, col: 14, offset: 62245},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42340,29 +42376,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1952, col: 1, offset: 62871},
+			pos:  position{line: 1952, col: 1, offset: 62925},
 			expr: &actionExpr{
-				pos: position{line: 1953, col: 5, offset: 62899},
+				pos: position{line: 1953, col: 5, offset: 62953},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1953, col: 5, offset: 62899},
+					pos: position{line: 1953, col: 5, offset: 62953},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1936, col: 5, offset: 62425},
+							pos:        position{line: 1936, col: 5, offset: 62479},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1937, col: 5, offset: 62434},
+							pos: position{line: 1937, col: 5, offset: 62488},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1941, col: 5, offset: 62552},
+							pos: position{line: 1941, col: 5, offset: 62606},
 							expr: &notExpr{
-								pos: position{line: 1941, col: 7, offset: 62554},
+								pos: position{line: 1941, col: 7, offset: 62608},
 								expr: &litMatcher{
-									pos:        position{line: 1941, col: 8, offset: 62555},
+									pos:        position{line: 1941, col: 8, offset: 62609},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42370,38 +42406,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1954, col: 5, offset: 62937},
+							pos:   position{line: 1954, col: 5, offset: 62991},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1954, col: 15, offset: 62947},
+								pos:  position{line: 1954, col: 15, offset: 63001},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1944, col: 5, offset: 62675},
+							pos:        position{line: 1944, col: 5, offset: 62729},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1945, col: 5, offset: 62684},
+							pos: position{line: 1945, col: 5, offset: 62738},
 							expr: &litMatcher{
-								pos:        position{line: 1945, col: 6, offset: 62685},
+								pos:        position{line: 1945, col: 6, offset: 62739},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1946, col: 5, offset: 62748},
+							pos: position{line: 1946, col: 5, offset: 62802},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1950, col: 5, offset: 62857},
+							pos: position{line: 1950, col: 5, offset: 62911},
 							expr: &notExpr{
-								pos: position{line: 1950, col: 7, offset: 62859},
+								pos: position{line: 1950, col: 7, offset: 62913},
 								expr: &charClassMatcher{
-									pos:        position{line: 2824, col: 13, offset: 89947},
+									pos:        position{line: 2824, col: 13, offset: 90001},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42415,20 +42451,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1959, col: 1, offset: 63107},
+			pos:  position{line: 1959, col: 1, offset: 63161},
 			expr: &actionExpr{
-				pos: position{line: 1960, col: 5, offset: 63144},
+				pos: position{line: 1960, col: 5, offset: 63198},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1960, col: 5, offset: 63144},
+					pos: position{line: 1960, col: 5, offset: 63198},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1960, col: 5, offset: 63144},
+							pos: position{line: 1960, col: 5, offset: 63198},
 							expr: &actionExpr{
-								pos: position{line: 2934, col: 10, offset: 92852},
+								pos: position{line: 2934, col: 10, offset: 92906},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2934, col: 10, offset: 92852},
+									pos:        position{line: 2934, col: 10, offset: 92906},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42437,18 +42473,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1961, col: 5, offset: 63183},
+							pos:   position{line: 1961, col: 5, offset: 63237},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1961, col: 14, offset: 63192},
+								pos: position{line: 1961, col: 14, offset: 63246},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1961, col: 15, offset: 63193},
+									pos:  position{line: 1961, col: 15, offset: 63247},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1962, col: 5, offset: 63227},
+							pos: position{line: 1962, col: 5, offset: 63281},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -42457,49 +42493,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1968, col: 1, offset: 63368},
+			pos:  position{line: 1968, col: 1, offset: 63422},
 			expr: &actionExpr{
-				pos: position{line: 1969, col: 5, offset: 63403},
+				pos: position{line: 1969, col: 5, offset: 63457},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1969, col: 5, offset: 63403},
+					pos: position{line: 1969, col: 5, offset: 63457},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2951, col: 11, offset: 93186},
+							pos: position{line: 2951, col: 11, offset: 93240},
 							expr: &anyMatcher{
-								line: 2951, col: 13, offset: 93188,
+								line: 2951, col: 13, offset: 93242,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1970, col: 5, offset: 63431},
+							pos: position{line: 1970, col: 5, offset: 63485},
 							expr: &seqExpr{
-								pos: position{line: 1944, col: 5, offset: 62675},
+								pos: position{line: 1944, col: 5, offset: 62729},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1944, col: 5, offset: 62675},
+										pos:        position{line: 1944, col: 5, offset: 62729},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1945, col: 5, offset: 62684},
+										pos: position{line: 1945, col: 5, offset: 62738},
 										expr: &litMatcher{
-											pos:        position{line: 1945, col: 6, offset: 62685},
+											pos:        position{line: 1945, col: 6, offset: 62739},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1946, col: 5, offset: 62748},
+										pos: position{line: 1946, col: 5, offset: 62802},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1950, col: 5, offset: 62857},
+										pos: position{line: 1950, col: 5, offset: 62911},
 										expr: &notExpr{
-											pos: position{line: 1950, col: 7, offset: 62859},
+											pos: position{line: 1950, col: 7, offset: 62913},
 											expr: &charClassMatcher{
-												pos:        position{line: 2824, col: 13, offset: 89947},
+												pos:        position{line: 2824, col: 13, offset: 90001},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42511,10 +42547,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1971, col: 5, offset: 63468},
+							pos:   position{line: 1971, col: 5, offset: 63522},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1971, col: 14, offset: 63477},
+								pos:  position{line: 1971, col: 14, offset: 63531},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42524,35 +42560,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1976, col: 1, offset: 63565},
+			pos:  position{line: 1976, col: 1, offset: 63619},
 			expr: &choiceExpr{
-				pos: position{line: 1978, col: 5, offset: 63626},
+				pos: position{line: 1978, col: 5, offset: 63680},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1978, col: 5, offset: 63626},
+						pos: position{line: 1978, col: 5, offset: 63680},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1978, col: 5, offset: 63626},
+							pos: position{line: 1978, col: 5, offset: 63680},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1978, col: 5, offset: 63626},
+									pos:   position{line: 1978, col: 5, offset: 63680},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1877, col: 25, offset: 60803},
+										pos: position{line: 1877, col: 25, offset: 60857},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1877, col: 25, offset: 60803},
+											pos: position{line: 1877, col: 25, offset: 60857},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1877, col: 25, offset: 60803},
+													pos:        position{line: 1877, col: 25, offset: 60857},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1877, col: 30, offset: 60808},
+													pos: position{line: 1877, col: 30, offset: 60862},
 													expr: &litMatcher{
-														pos:        position{line: 1877, col: 30, offset: 60808},
+														pos:        position{line: 1877, col: 30, offset: 60862},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42563,21 +42599,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1978, col: 40, offset: 63661},
+									pos:        position{line: 1978, col: 40, offset: 63715},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1978, col: 45, offset: 63666},
+									pos:   position{line: 1978, col: 45, offset: 63720},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1978, col: 55, offset: 63676},
+										pos:  position{line: 1978, col: 55, offset: 63730},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1978, col: 84, offset: 63705},
+									pos:        position{line: 1978, col: 84, offset: 63759},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -42586,21 +42622,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1982, col: 7, offset: 63869},
+						pos: position{line: 1982, col: 7, offset: 63923},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1982, col: 7, offset: 63869},
+							pos: position{line: 1982, col: 7, offset: 63923},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1982, col: 7, offset: 63869},
+									pos:   position{line: 1982, col: 7, offset: 63923},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1873, col: 25, offset: 60730},
+										pos: position{line: 1873, col: 25, offset: 60784},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1873, col: 25, offset: 60730},
+											pos: position{line: 1873, col: 25, offset: 60784},
 											expr: &litMatcher{
-												pos:        position{line: 1873, col: 25, offset: 60730},
+												pos:        position{line: 1873, col: 25, offset: 60784},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42609,21 +42645,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1982, col: 42, offset: 63904},
+									pos:        position{line: 1982, col: 42, offset: 63958},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1982, col: 47, offset: 63909},
+									pos:   position{line: 1982, col: 47, offset: 63963},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1982, col: 57, offset: 63919},
+										pos:  position{line: 1982, col: 57, offset: 63973},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1982, col: 86, offset: 63948},
+									pos:        position{line: 1982, col: 86, offset: 64002},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42632,21 +42668,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1987, col: 7, offset: 64150},
+						pos: position{line: 1987, col: 7, offset: 64204},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1987, col: 7, offset: 64150},
+							pos: position{line: 1987, col: 7, offset: 64204},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1987, col: 7, offset: 64150},
+									pos:   position{line: 1987, col: 7, offset: 64204},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1873, col: 25, offset: 60730},
+										pos: position{line: 1873, col: 25, offset: 60784},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1873, col: 25, offset: 60730},
+											pos: position{line: 1873, col: 25, offset: 60784},
 											expr: &litMatcher{
-												pos:        position{line: 1873, col: 25, offset: 60730},
+												pos:        position{line: 1873, col: 25, offset: 60784},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42655,21 +42691,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1987, col: 42, offset: 64185},
+									pos:        position{line: 1987, col: 42, offset: 64239},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1987, col: 46, offset: 64189},
+									pos:   position{line: 1987, col: 46, offset: 64243},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1987, col: 56, offset: 64199},
+										pos:  position{line: 1987, col: 56, offset: 64253},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1987, col: 85, offset: 64228},
+									pos:        position{line: 1987, col: 85, offset: 64282},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42682,29 +42718,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 2004, col: 1, offset: 64708},
+			pos:  position{line: 2004, col: 1, offset: 64762},
 			expr: &actionExpr{
-				pos: position{line: 2005, col: 5, offset: 64738},
+				pos: position{line: 2005, col: 5, offset: 64792},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2005, col: 5, offset: 64738},
+					pos: position{line: 2005, col: 5, offset: 64792},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2000, col: 40, offset: 64659},
+							pos:        position{line: 2000, col: 40, offset: 64713},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2006, col: 5, offset: 64779},
+							pos:   position{line: 2006, col: 5, offset: 64833},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2006, col: 15, offset: 64789},
+								pos:  position{line: 2006, col: 15, offset: 64843},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2002, col: 38, offset: 64702},
+							pos:        position{line: 2002, col: 38, offset: 64756},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -42715,24 +42751,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 2011, col: 1, offset: 64954},
+			pos:  position{line: 2011, col: 1, offset: 65008},
 			expr: &actionExpr{
-				pos: position{line: 2012, col: 5, offset: 64991},
+				pos: position{line: 2012, col: 5, offset: 65045},
 				run: (*parser).callonDoubleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2012, col: 5, offset: 64991},
+					pos: position{line: 2012, col: 5, offset: 65045},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2012, col: 5, offset: 64991},
+							pos: position{line: 2012, col: 5, offset: 65045},
 							run: (*parser).callonDoubleQuoteItalicTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2016, col: 5, offset: 65111},
+							pos:   position{line: 2016, col: 5, offset: 65165},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2016, col: 14, offset: 65120},
+								pos: position{line: 2016, col: 14, offset: 65174},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2016, col: 15, offset: 65121},
+									pos:  position{line: 2016, col: 15, offset: 65175},
 									name: "DoubleQuoteItalicTextElement",
 								},
 							},
@@ -42743,33 +42779,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 2020, col: 1, offset: 65190},
+			pos:  position{line: 2020, col: 1, offset: 65244},
 			expr: &actionExpr{
-				pos: position{line: 2021, col: 5, offset: 65227},
+				pos: position{line: 2021, col: 5, offset: 65281},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2021, col: 5, offset: 65227},
+					pos: position{line: 2021, col: 5, offset: 65281},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2951, col: 11, offset: 93186},
+							pos: position{line: 2951, col: 11, offset: 93240},
 							expr: &anyMatcher{
-								line: 2951, col: 13, offset: 93188,
+								line: 2951, col: 13, offset: 93242,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2022, col: 5, offset: 65238},
+							pos: position{line: 2022, col: 5, offset: 65292},
 							expr: &litMatcher{
-								pos:        position{line: 2002, col: 38, offset: 64702},
+								pos:        position{line: 2002, col: 38, offset: 64756},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2023, col: 5, offset: 65277},
+							pos:   position{line: 2023, col: 5, offset: 65331},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2023, col: 14, offset: 65286},
+								pos:  position{line: 2023, col: 14, offset: 65340},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42779,29 +42815,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2049, col: 1, offset: 65970},
+			pos:  position{line: 2049, col: 1, offset: 66024},
 			expr: &actionExpr{
-				pos: position{line: 2050, col: 5, offset: 66000},
+				pos: position{line: 2050, col: 5, offset: 66054},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2050, col: 5, offset: 66000},
+					pos: position{line: 2050, col: 5, offset: 66054},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2032, col: 5, offset: 65528},
+							pos:        position{line: 2032, col: 5, offset: 65582},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2033, col: 5, offset: 65537},
+							pos: position{line: 2033, col: 5, offset: 65591},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2037, col: 5, offset: 65657},
+							pos: position{line: 2037, col: 5, offset: 65711},
 							expr: &notExpr{
-								pos: position{line: 2037, col: 7, offset: 65659},
+								pos: position{line: 2037, col: 7, offset: 65713},
 								expr: &litMatcher{
-									pos:        position{line: 2037, col: 8, offset: 65660},
+									pos:        position{line: 2037, col: 8, offset: 65714},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42809,38 +42845,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2051, col: 5, offset: 66040},
+							pos:   position{line: 2051, col: 5, offset: 66094},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2051, col: 15, offset: 66050},
+								pos:  position{line: 2051, col: 15, offset: 66104},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2041, col: 5, offset: 65770},
+							pos:        position{line: 2041, col: 5, offset: 65824},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2042, col: 5, offset: 65779},
+							pos: position{line: 2042, col: 5, offset: 65833},
 							expr: &litMatcher{
-								pos:        position{line: 2042, col: 6, offset: 65780},
+								pos:        position{line: 2042, col: 6, offset: 65834},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2043, col: 5, offset: 65845},
+							pos: position{line: 2043, col: 5, offset: 65899},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2047, col: 5, offset: 65956},
+							pos: position{line: 2047, col: 5, offset: 66010},
 							expr: &notExpr{
-								pos: position{line: 2047, col: 7, offset: 65958},
+								pos: position{line: 2047, col: 7, offset: 66012},
 								expr: &charClassMatcher{
-									pos:        position{line: 2824, col: 13, offset: 89947},
+									pos:        position{line: 2824, col: 13, offset: 90001},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42854,20 +42890,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2056, col: 1, offset: 66217},
+			pos:  position{line: 2056, col: 1, offset: 66271},
 			expr: &actionExpr{
-				pos: position{line: 2057, col: 5, offset: 66255},
+				pos: position{line: 2057, col: 5, offset: 66309},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2057, col: 5, offset: 66255},
+					pos: position{line: 2057, col: 5, offset: 66309},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2057, col: 5, offset: 66255},
+							pos: position{line: 2057, col: 5, offset: 66309},
 							expr: &actionExpr{
-								pos: position{line: 2934, col: 10, offset: 92852},
+								pos: position{line: 2934, col: 10, offset: 92906},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2934, col: 10, offset: 92852},
+									pos:        position{line: 2934, col: 10, offset: 92906},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42876,18 +42912,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2058, col: 5, offset: 66294},
+							pos:   position{line: 2058, col: 5, offset: 66348},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2058, col: 14, offset: 66303},
+								pos: position{line: 2058, col: 14, offset: 66357},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2058, col: 15, offset: 66304},
+									pos:  position{line: 2058, col: 15, offset: 66358},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2059, col: 5, offset: 66339},
+							pos: position{line: 2059, col: 5, offset: 66393},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -42896,49 +42932,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2065, col: 1, offset: 66480},
+			pos:  position{line: 2065, col: 1, offset: 66534},
 			expr: &actionExpr{
-				pos: position{line: 2066, col: 5, offset: 66517},
+				pos: position{line: 2066, col: 5, offset: 66571},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2066, col: 5, offset: 66517},
+					pos: position{line: 2066, col: 5, offset: 66571},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2951, col: 11, offset: 93186},
+							pos: position{line: 2951, col: 11, offset: 93240},
 							expr: &anyMatcher{
-								line: 2951, col: 13, offset: 93188,
+								line: 2951, col: 13, offset: 93242,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2067, col: 5, offset: 66528},
+							pos: position{line: 2067, col: 5, offset: 66582},
 							expr: &seqExpr{
-								pos: position{line: 2041, col: 5, offset: 65770},
+								pos: position{line: 2041, col: 5, offset: 65824},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2041, col: 5, offset: 65770},
+										pos:        position{line: 2041, col: 5, offset: 65824},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2042, col: 5, offset: 65779},
+										pos: position{line: 2042, col: 5, offset: 65833},
 										expr: &litMatcher{
-											pos:        position{line: 2042, col: 6, offset: 65780},
+											pos:        position{line: 2042, col: 6, offset: 65834},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2043, col: 5, offset: 65845},
+										pos: position{line: 2043, col: 5, offset: 65899},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2047, col: 5, offset: 65956},
+										pos: position{line: 2047, col: 5, offset: 66010},
 										expr: &notExpr{
-											pos: position{line: 2047, col: 7, offset: 65958},
+											pos: position{line: 2047, col: 7, offset: 66012},
 											expr: &charClassMatcher{
-												pos:        position{line: 2824, col: 13, offset: 89947},
+												pos:        position{line: 2824, col: 13, offset: 90001},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42950,10 +42986,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2068, col: 5, offset: 66567},
+							pos:   position{line: 2068, col: 5, offset: 66621},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2068, col: 14, offset: 66576},
+								pos:  position{line: 2068, col: 14, offset: 66630},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42963,35 +42999,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2073, col: 1, offset: 66664},
+			pos:  position{line: 2073, col: 1, offset: 66718},
 			expr: &choiceExpr{
-				pos: position{line: 2075, col: 5, offset: 66729},
+				pos: position{line: 2075, col: 5, offset: 66783},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2075, col: 5, offset: 66729},
+						pos: position{line: 2075, col: 5, offset: 66783},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2075, col: 5, offset: 66729},
+							pos: position{line: 2075, col: 5, offset: 66783},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2075, col: 5, offset: 66729},
+									pos:   position{line: 2075, col: 5, offset: 66783},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1877, col: 25, offset: 60803},
+										pos: position{line: 1877, col: 25, offset: 60857},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1877, col: 25, offset: 60803},
+											pos: position{line: 1877, col: 25, offset: 60857},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1877, col: 25, offset: 60803},
+													pos:        position{line: 1877, col: 25, offset: 60857},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1877, col: 30, offset: 60808},
+													pos: position{line: 1877, col: 30, offset: 60862},
 													expr: &litMatcher{
-														pos:        position{line: 1877, col: 30, offset: 60808},
+														pos:        position{line: 1877, col: 30, offset: 60862},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43002,21 +43038,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2075, col: 40, offset: 66764},
+									pos:        position{line: 2075, col: 40, offset: 66818},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2075, col: 45, offset: 66769},
+									pos:   position{line: 2075, col: 45, offset: 66823},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2075, col: 55, offset: 66779},
+										pos:  position{line: 2075, col: 55, offset: 66833},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2075, col: 86, offset: 66810},
+									pos:        position{line: 2075, col: 86, offset: 66864},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -43025,21 +43061,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2079, col: 7, offset: 66975},
+						pos: position{line: 2079, col: 7, offset: 67029},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2079, col: 7, offset: 66975},
+							pos: position{line: 2079, col: 7, offset: 67029},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2079, col: 7, offset: 66975},
+									pos:   position{line: 2079, col: 7, offset: 67029},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1873, col: 25, offset: 60730},
+										pos: position{line: 1873, col: 25, offset: 60784},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1873, col: 25, offset: 60730},
+											pos: position{line: 1873, col: 25, offset: 60784},
 											expr: &litMatcher{
-												pos:        position{line: 1873, col: 25, offset: 60730},
+												pos:        position{line: 1873, col: 25, offset: 60784},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43048,21 +43084,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2079, col: 42, offset: 67010},
+									pos:        position{line: 2079, col: 42, offset: 67064},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2079, col: 47, offset: 67015},
+									pos:   position{line: 2079, col: 47, offset: 67069},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2079, col: 57, offset: 67025},
+										pos:  position{line: 2079, col: 57, offset: 67079},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2079, col: 88, offset: 67056},
+									pos:        position{line: 2079, col: 88, offset: 67110},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43071,21 +43107,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2084, col: 7, offset: 67297},
+						pos: position{line: 2084, col: 7, offset: 67351},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2084, col: 7, offset: 67297},
+							pos: position{line: 2084, col: 7, offset: 67351},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2084, col: 7, offset: 67297},
+									pos:   position{line: 2084, col: 7, offset: 67351},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1873, col: 25, offset: 60730},
+										pos: position{line: 1873, col: 25, offset: 60784},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1873, col: 25, offset: 60730},
+											pos: position{line: 1873, col: 25, offset: 60784},
 											expr: &litMatcher{
-												pos:        position{line: 1873, col: 25, offset: 60730},
+												pos:        position{line: 1873, col: 25, offset: 60784},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43094,21 +43130,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2084, col: 42, offset: 67332},
+									pos:        position{line: 2084, col: 42, offset: 67386},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2084, col: 46, offset: 67336},
+									pos:   position{line: 2084, col: 46, offset: 67390},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2084, col: 56, offset: 67346},
+										pos:  position{line: 2084, col: 56, offset: 67400},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2084, col: 87, offset: 67377},
+									pos:        position{line: 2084, col: 87, offset: 67431},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43121,29 +43157,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2101, col: 1, offset: 67941},
+			pos:  position{line: 2101, col: 1, offset: 67995},
 			expr: &actionExpr{
-				pos: position{line: 2102, col: 5, offset: 67974},
+				pos: position{line: 2102, col: 5, offset: 68028},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2102, col: 5, offset: 67974},
+					pos: position{line: 2102, col: 5, offset: 68028},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2097, col: 43, offset: 67889},
+							pos:        position{line: 2097, col: 43, offset: 67943},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2103, col: 5, offset: 68018},
+							pos:   position{line: 2103, col: 5, offset: 68072},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2103, col: 15, offset: 68028},
+								pos:  position{line: 2103, col: 15, offset: 68082},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2099, col: 41, offset: 67935},
+							pos:        position{line: 2099, col: 41, offset: 67989},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -43154,24 +43190,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2108, col: 1, offset: 68203},
+			pos:  position{line: 2108, col: 1, offset: 68257},
 			expr: &actionExpr{
-				pos: position{line: 2109, col: 5, offset: 68276},
+				pos: position{line: 2109, col: 5, offset: 68330},
 				run: (*parser).callonDoubleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2109, col: 5, offset: 68276},
+					pos: position{line: 2109, col: 5, offset: 68330},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2109, col: 5, offset: 68276},
+							pos: position{line: 2109, col: 5, offset: 68330},
 							run: (*parser).callonDoubleQuoteMonospaceTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2113, col: 5, offset: 68396},
+							pos:   position{line: 2113, col: 5, offset: 68450},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2113, col: 14, offset: 68405},
+								pos: position{line: 2113, col: 14, offset: 68459},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2113, col: 15, offset: 68406},
+									pos:  position{line: 2113, col: 15, offset: 68460},
 									name: "DoubleQuoteMonospaceTextElement",
 								},
 							},
@@ -43182,33 +43218,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2117, col: 1, offset: 68478},
+			pos:  position{line: 2117, col: 1, offset: 68532},
 			expr: &actionExpr{
-				pos: position{line: 2118, col: 5, offset: 68518},
+				pos: position{line: 2118, col: 5, offset: 68572},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2118, col: 5, offset: 68518},
+					pos: position{line: 2118, col: 5, offset: 68572},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2951, col: 11, offset: 93186},
+							pos: position{line: 2951, col: 11, offset: 93240},
 							expr: &anyMatcher{
-								line: 2951, col: 13, offset: 93188,
+								line: 2951, col: 13, offset: 93242,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2119, col: 5, offset: 68529},
+							pos: position{line: 2119, col: 5, offset: 68583},
 							expr: &litMatcher{
-								pos:        position{line: 2099, col: 41, offset: 67935},
+								pos:        position{line: 2099, col: 41, offset: 67989},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2120, col: 5, offset: 68571},
+							pos:   position{line: 2120, col: 5, offset: 68625},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2120, col: 14, offset: 68580},
+								pos:  position{line: 2120, col: 14, offset: 68634},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43218,33 +43254,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2138, col: 1, offset: 69122},
+			pos:  position{line: 2138, col: 1, offset: 69176},
 			expr: &seqExpr{
-				pos: position{line: 2139, col: 5, offset: 69167},
+				pos: position{line: 2139, col: 5, offset: 69221},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2139, col: 5, offset: 69167},
+						pos: position{line: 2139, col: 5, offset: 69221},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2139, col: 6, offset: 69168},
+							pos:  position{line: 2139, col: 6, offset: 69222},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2140, col: 5, offset: 69187},
+						pos:        position{line: 2140, col: 5, offset: 69241},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2141, col: 5, offset: 69195},
+						pos: position{line: 2141, col: 5, offset: 69249},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2145, col: 5, offset: 69309},
+						pos: position{line: 2145, col: 5, offset: 69363},
 						expr: &notExpr{
-							pos: position{line: 2145, col: 7, offset: 69311},
+							pos: position{line: 2145, col: 7, offset: 69365},
 							expr: &charClassMatcher{
-								pos:        position{line: 2824, col: 13, offset: 89947},
+								pos:        position{line: 2824, col: 13, offset: 90001},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -43257,29 +43293,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2148, col: 1, offset: 69328},
+			pos:  position{line: 2148, col: 1, offset: 69382},
 			expr: &actionExpr{
-				pos: position{line: 2149, col: 5, offset: 69361},
+				pos: position{line: 2149, col: 5, offset: 69415},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2149, col: 5, offset: 69361},
+					pos: position{line: 2149, col: 5, offset: 69415},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2131, col: 5, offset: 68924},
+							pos:        position{line: 2131, col: 5, offset: 68978},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2132, col: 5, offset: 68933},
+							pos: position{line: 2132, col: 5, offset: 68987},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2136, col: 5, offset: 69056},
+							pos: position{line: 2136, col: 5, offset: 69110},
 							expr: &notExpr{
-								pos: position{line: 2136, col: 7, offset: 69058},
+								pos: position{line: 2136, col: 7, offset: 69112},
 								expr: &litMatcher{
-									pos:        position{line: 2136, col: 8, offset: 69059},
+									pos:        position{line: 2136, col: 8, offset: 69113},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43287,15 +43323,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2150, col: 5, offset: 69405},
+							pos:   position{line: 2150, col: 5, offset: 69459},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2150, col: 15, offset: 69415},
+								pos:  position{line: 2150, col: 15, offset: 69469},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2151, col: 5, offset: 69454},
+							pos:  position{line: 2151, col: 5, offset: 69508},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -43304,20 +43340,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2155, col: 1, offset: 69591},
+			pos:  position{line: 2155, col: 1, offset: 69645},
 			expr: &actionExpr{
-				pos: position{line: 2156, col: 5, offset: 69632},
+				pos: position{line: 2156, col: 5, offset: 69686},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2156, col: 5, offset: 69632},
+					pos: position{line: 2156, col: 5, offset: 69686},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2156, col: 5, offset: 69632},
+							pos: position{line: 2156, col: 5, offset: 69686},
 							expr: &actionExpr{
-								pos: position{line: 2934, col: 10, offset: 92852},
+								pos: position{line: 2934, col: 10, offset: 92906},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2934, col: 10, offset: 92852},
+									pos:        position{line: 2934, col: 10, offset: 92906},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43326,18 +43362,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2157, col: 5, offset: 69671},
+							pos:   position{line: 2157, col: 5, offset: 69725},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2157, col: 14, offset: 69680},
+								pos: position{line: 2157, col: 14, offset: 69734},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2157, col: 15, offset: 69681},
+									pos:  position{line: 2157, col: 15, offset: 69735},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2158, col: 5, offset: 69719},
+							pos: position{line: 2158, col: 5, offset: 69773},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -43346,31 +43382,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2164, col: 1, offset: 69860},
+			pos:  position{line: 2164, col: 1, offset: 69914},
 			expr: &actionExpr{
-				pos: position{line: 2165, col: 5, offset: 69900},
+				pos: position{line: 2165, col: 5, offset: 69954},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2165, col: 5, offset: 69900},
+					pos: position{line: 2165, col: 5, offset: 69954},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2951, col: 11, offset: 93186},
+							pos: position{line: 2951, col: 11, offset: 93240},
 							expr: &anyMatcher{
-								line: 2951, col: 13, offset: 93188,
+								line: 2951, col: 13, offset: 93242,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2166, col: 5, offset: 69911},
+							pos: position{line: 2166, col: 5, offset: 69965},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2166, col: 6, offset: 69912},
+								pos:  position{line: 2166, col: 6, offset: 69966},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2167, col: 5, offset: 69953},
+							pos:   position{line: 2167, col: 5, offset: 70007},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2167, col: 14, offset: 69962},
+								pos:  position{line: 2167, col: 14, offset: 70016},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43380,35 +43416,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2172, col: 1, offset: 70050},
+			pos:  position{line: 2172, col: 1, offset: 70104},
 			expr: &choiceExpr{
-				pos: position{line: 2174, col: 5, offset: 70121},
+				pos: position{line: 2174, col: 5, offset: 70175},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2174, col: 5, offset: 70121},
+						pos: position{line: 2174, col: 5, offset: 70175},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2174, col: 5, offset: 70121},
+							pos: position{line: 2174, col: 5, offset: 70175},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2174, col: 5, offset: 70121},
+									pos:   position{line: 2174, col: 5, offset: 70175},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1877, col: 25, offset: 60803},
+										pos: position{line: 1877, col: 25, offset: 60857},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1877, col: 25, offset: 60803},
+											pos: position{line: 1877, col: 25, offset: 60857},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1877, col: 25, offset: 60803},
+													pos:        position{line: 1877, col: 25, offset: 60857},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1877, col: 30, offset: 60808},
+													pos: position{line: 1877, col: 30, offset: 60862},
 													expr: &litMatcher{
-														pos:        position{line: 1877, col: 30, offset: 60808},
+														pos:        position{line: 1877, col: 30, offset: 60862},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43419,21 +43455,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2174, col: 40, offset: 70156},
+									pos:        position{line: 2174, col: 40, offset: 70210},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2174, col: 45, offset: 70161},
+									pos:   position{line: 2174, col: 45, offset: 70215},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2174, col: 55, offset: 70171},
+										pos:  position{line: 2174, col: 55, offset: 70225},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2174, col: 89, offset: 70205},
+									pos:        position{line: 2174, col: 89, offset: 70259},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -43442,21 +43478,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2178, col: 7, offset: 70374},
+						pos: position{line: 2178, col: 7, offset: 70428},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2178, col: 7, offset: 70374},
+							pos: position{line: 2178, col: 7, offset: 70428},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2178, col: 7, offset: 70374},
+									pos:   position{line: 2178, col: 7, offset: 70428},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1873, col: 25, offset: 60730},
+										pos: position{line: 1873, col: 25, offset: 60784},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1873, col: 25, offset: 60730},
+											pos: position{line: 1873, col: 25, offset: 60784},
 											expr: &litMatcher{
-												pos:        position{line: 1873, col: 25, offset: 60730},
+												pos:        position{line: 1873, col: 25, offset: 60784},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43465,21 +43501,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2178, col: 42, offset: 70409},
+									pos:        position{line: 2178, col: 42, offset: 70463},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2178, col: 47, offset: 70414},
+									pos:   position{line: 2178, col: 47, offset: 70468},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2178, col: 57, offset: 70424},
+										pos:  position{line: 2178, col: 57, offset: 70478},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2178, col: 91, offset: 70458},
+									pos:        position{line: 2178, col: 91, offset: 70512},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43488,21 +43524,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2183, col: 7, offset: 70664},
+						pos: position{line: 2183, col: 7, offset: 70718},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2183, col: 7, offset: 70664},
+							pos: position{line: 2183, col: 7, offset: 70718},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2183, col: 7, offset: 70664},
+									pos:   position{line: 2183, col: 7, offset: 70718},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1873, col: 25, offset: 60730},
+										pos: position{line: 1873, col: 25, offset: 60784},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1873, col: 25, offset: 60730},
+											pos: position{line: 1873, col: 25, offset: 60784},
 											expr: &litMatcher{
-												pos:        position{line: 1873, col: 25, offset: 60730},
+												pos:        position{line: 1873, col: 25, offset: 60784},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43511,21 +43547,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2183, col: 42, offset: 70699},
+									pos:        position{line: 2183, col: 42, offset: 70753},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2183, col: 46, offset: 70703},
+									pos:   position{line: 2183, col: 46, offset: 70757},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2183, col: 56, offset: 70713},
+										pos:  position{line: 2183, col: 56, offset: 70767},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2183, col: 90, offset: 70747},
+									pos:        position{line: 2183, col: 90, offset: 70801},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43538,29 +43574,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2200, col: 1, offset: 71232},
+			pos:  position{line: 2200, col: 1, offset: 71286},
 			expr: &actionExpr{
-				pos: position{line: 2201, col: 5, offset: 71262},
+				pos: position{line: 2201, col: 5, offset: 71316},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2201, col: 5, offset: 71262},
+					pos: position{line: 2201, col: 5, offset: 71316},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2196, col: 40, offset: 71183},
+							pos:        position{line: 2196, col: 40, offset: 71237},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2202, col: 5, offset: 71303},
+							pos:   position{line: 2202, col: 5, offset: 71357},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2202, col: 15, offset: 71313},
+								pos:  position{line: 2202, col: 15, offset: 71367},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2198, col: 38, offset: 71226},
+							pos:        position{line: 2198, col: 38, offset: 71280},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -43571,24 +43607,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2207, col: 1, offset: 71479},
+			pos:  position{line: 2207, col: 1, offset: 71533},
 			expr: &actionExpr{
-				pos: position{line: 2208, col: 5, offset: 71516},
+				pos: position{line: 2208, col: 5, offset: 71570},
 				run: (*parser).callonDoubleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2208, col: 5, offset: 71516},
+					pos: position{line: 2208, col: 5, offset: 71570},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2208, col: 5, offset: 71516},
+							pos: position{line: 2208, col: 5, offset: 71570},
 							run: (*parser).callonDoubleQuoteMarkedTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2212, col: 5, offset: 71636},
+							pos:   position{line: 2212, col: 5, offset: 71690},
 							label: "elements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2212, col: 14, offset: 71645},
+								pos: position{line: 2212, col: 14, offset: 71699},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2212, col: 15, offset: 71646},
+									pos:  position{line: 2212, col: 15, offset: 71700},
 									name: "DoubleQuoteMarkedTextElement",
 								},
 							},
@@ -43599,33 +43635,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2216, col: 1, offset: 71715},
+			pos:  position{line: 2216, col: 1, offset: 71769},
 			expr: &actionExpr{
-				pos: position{line: 2217, col: 5, offset: 71784},
+				pos: position{line: 2217, col: 5, offset: 71838},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2217, col: 5, offset: 71784},
+					pos: position{line: 2217, col: 5, offset: 71838},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2951, col: 11, offset: 93186},
+							pos: position{line: 2951, col: 11, offset: 93240},
 							expr: &anyMatcher{
-								line: 2951, col: 13, offset: 93188,
+								line: 2951, col: 13, offset: 93242,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2218, col: 5, offset: 71795},
+							pos: position{line: 2218, col: 5, offset: 71849},
 							expr: &litMatcher{
-								pos:        position{line: 2198, col: 38, offset: 71226},
+								pos:        position{line: 2198, col: 38, offset: 71280},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2219, col: 5, offset: 71834},
+							pos:   position{line: 2219, col: 5, offset: 71888},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2219, col: 14, offset: 71843},
+								pos:  position{line: 2219, col: 14, offset: 71897},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43635,29 +43671,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2244, col: 1, offset: 72525},
+			pos:  position{line: 2244, col: 1, offset: 72579},
 			expr: &actionExpr{
-				pos: position{line: 2245, col: 5, offset: 72555},
+				pos: position{line: 2245, col: 5, offset: 72609},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2245, col: 5, offset: 72555},
+					pos: position{line: 2245, col: 5, offset: 72609},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2228, col: 5, offset: 72091},
+							pos:        position{line: 2228, col: 5, offset: 72145},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2229, col: 5, offset: 72100},
+							pos: position{line: 2229, col: 5, offset: 72154},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2233, col: 5, offset: 72220},
+							pos: position{line: 2233, col: 5, offset: 72274},
 							expr: &notExpr{
-								pos: position{line: 2233, col: 7, offset: 72222},
+								pos: position{line: 2233, col: 7, offset: 72276},
 								expr: &litMatcher{
-									pos:        position{line: 2233, col: 8, offset: 72223},
+									pos:        position{line: 2233, col: 8, offset: 72277},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43665,38 +43701,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2246, col: 5, offset: 72595},
+							pos:   position{line: 2246, col: 5, offset: 72649},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2246, col: 15, offset: 72605},
+								pos:  position{line: 2246, col: 15, offset: 72659},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2236, col: 5, offset: 72328},
+							pos:        position{line: 2236, col: 5, offset: 72382},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2237, col: 5, offset: 72336},
+							pos: position{line: 2237, col: 5, offset: 72390},
 							expr: &litMatcher{
-								pos:        position{line: 2237, col: 6, offset: 72337},
+								pos:        position{line: 2237, col: 6, offset: 72391},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2238, col: 5, offset: 72400},
+							pos: position{line: 2238, col: 5, offset: 72454},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2242, col: 5, offset: 72511},
+							pos: position{line: 2242, col: 5, offset: 72565},
 							expr: &notExpr{
-								pos: position{line: 2242, col: 7, offset: 72513},
+								pos: position{line: 2242, col: 7, offset: 72567},
 								expr: &charClassMatcher{
-									pos:        position{line: 2824, col: 13, offset: 89947},
+									pos:        position{line: 2824, col: 13, offset: 90001},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43710,20 +43746,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2251, col: 1, offset: 72772},
+			pos:  position{line: 2251, col: 1, offset: 72826},
 			expr: &actionExpr{
-				pos: position{line: 2252, col: 5, offset: 72810},
+				pos: position{line: 2252, col: 5, offset: 72864},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2252, col: 5, offset: 72810},
+					pos: position{line: 2252, col: 5, offset: 72864},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2252, col: 5, offset: 72810},
+							pos: position{line: 2252, col: 5, offset: 72864},
 							expr: &actionExpr{
-								pos: position{line: 2934, col: 10, offset: 92852},
+								pos: position{line: 2934, col: 10, offset: 92906},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2934, col: 10, offset: 92852},
+									pos:        position{line: 2934, col: 10, offset: 92906},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43732,18 +43768,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2253, col: 5, offset: 72849},
+							pos:   position{line: 2253, col: 5, offset: 72903},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2253, col: 14, offset: 72858},
+								pos: position{line: 2253, col: 14, offset: 72912},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2253, col: 15, offset: 72859},
+									pos:  position{line: 2253, col: 15, offset: 72913},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2254, col: 5, offset: 72895},
+							pos: position{line: 2254, col: 5, offset: 72949},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -43752,49 +43788,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2260, col: 1, offset: 73036},
+			pos:  position{line: 2260, col: 1, offset: 73090},
 			expr: &actionExpr{
-				pos: position{line: 2261, col: 5, offset: 73073},
+				pos: position{line: 2261, col: 5, offset: 73127},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2261, col: 5, offset: 73073},
+					pos: position{line: 2261, col: 5, offset: 73127},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2951, col: 11, offset: 93186},
+							pos: position{line: 2951, col: 11, offset: 93240},
 							expr: &anyMatcher{
-								line: 2951, col: 13, offset: 93188,
+								line: 2951, col: 13, offset: 93242,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2262, col: 5, offset: 73084},
+							pos: position{line: 2262, col: 5, offset: 73138},
 							expr: &seqExpr{
-								pos: position{line: 2236, col: 5, offset: 72328},
+								pos: position{line: 2236, col: 5, offset: 72382},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2236, col: 5, offset: 72328},
+										pos:        position{line: 2236, col: 5, offset: 72382},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2237, col: 5, offset: 72336},
+										pos: position{line: 2237, col: 5, offset: 72390},
 										expr: &litMatcher{
-											pos:        position{line: 2237, col: 6, offset: 72337},
+											pos:        position{line: 2237, col: 6, offset: 72391},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2238, col: 5, offset: 72400},
+										pos: position{line: 2238, col: 5, offset: 72454},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2242, col: 5, offset: 72511},
+										pos: position{line: 2242, col: 5, offset: 72565},
 										expr: &notExpr{
-											pos: position{line: 2242, col: 7, offset: 72513},
+											pos: position{line: 2242, col: 7, offset: 72567},
 											expr: &charClassMatcher{
-												pos:        position{line: 2824, col: 13, offset: 89947},
+												pos:        position{line: 2824, col: 13, offset: 90001},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43806,10 +43842,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2263, col: 5, offset: 73123},
+							pos:   position{line: 2263, col: 5, offset: 73177},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2263, col: 14, offset: 73132},
+								pos:  position{line: 2263, col: 14, offset: 73186},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43819,35 +43855,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2268, col: 1, offset: 73220},
+			pos:  position{line: 2268, col: 1, offset: 73274},
 			expr: &choiceExpr{
-				pos: position{line: 2270, col: 5, offset: 73284},
+				pos: position{line: 2270, col: 5, offset: 73338},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2270, col: 5, offset: 73284},
+						pos: position{line: 2270, col: 5, offset: 73338},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2270, col: 5, offset: 73284},
+							pos: position{line: 2270, col: 5, offset: 73338},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2270, col: 5, offset: 73284},
+									pos:   position{line: 2270, col: 5, offset: 73338},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1877, col: 25, offset: 60803},
+										pos: position{line: 1877, col: 25, offset: 60857},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1877, col: 25, offset: 60803},
+											pos: position{line: 1877, col: 25, offset: 60857},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1877, col: 25, offset: 60803},
+													pos:        position{line: 1877, col: 25, offset: 60857},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1877, col: 30, offset: 60808},
+													pos: position{line: 1877, col: 30, offset: 60862},
 													expr: &litMatcher{
-														pos:        position{line: 1877, col: 30, offset: 60808},
+														pos:        position{line: 1877, col: 30, offset: 60862},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43858,21 +43894,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2270, col: 40, offset: 73319},
+									pos:        position{line: 2270, col: 40, offset: 73373},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2270, col: 45, offset: 73324},
+									pos:   position{line: 2270, col: 45, offset: 73378},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2270, col: 55, offset: 73334},
+										pos:  position{line: 2270, col: 55, offset: 73388},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2270, col: 86, offset: 73365},
+									pos:        position{line: 2270, col: 86, offset: 73419},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -43881,21 +43917,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2274, col: 7, offset: 73530},
+						pos: position{line: 2274, col: 7, offset: 73584},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2274, col: 7, offset: 73530},
+							pos: position{line: 2274, col: 7, offset: 73584},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2274, col: 7, offset: 73530},
+									pos:   position{line: 2274, col: 7, offset: 73584},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1873, col: 25, offset: 60730},
+										pos: position{line: 1873, col: 25, offset: 60784},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1873, col: 25, offset: 60730},
+											pos: position{line: 1873, col: 25, offset: 60784},
 											expr: &litMatcher{
-												pos:        position{line: 1873, col: 25, offset: 60730},
+												pos:        position{line: 1873, col: 25, offset: 60784},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43904,21 +43940,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2274, col: 42, offset: 73565},
+									pos:        position{line: 2274, col: 42, offset: 73619},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2274, col: 47, offset: 73570},
+									pos:   position{line: 2274, col: 47, offset: 73624},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2274, col: 57, offset: 73580},
+										pos:  position{line: 2274, col: 57, offset: 73634},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2274, col: 88, offset: 73611},
+									pos:        position{line: 2274, col: 88, offset: 73665},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43927,21 +43963,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2279, col: 7, offset: 73814},
+						pos: position{line: 2279, col: 7, offset: 73868},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2279, col: 7, offset: 73814},
+							pos: position{line: 2279, col: 7, offset: 73868},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2279, col: 7, offset: 73814},
+									pos:   position{line: 2279, col: 7, offset: 73868},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1873, col: 25, offset: 60730},
+										pos: position{line: 1873, col: 25, offset: 60784},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1873, col: 25, offset: 60730},
+											pos: position{line: 1873, col: 25, offset: 60784},
 											expr: &litMatcher{
-												pos:        position{line: 1873, col: 25, offset: 60730},
+												pos:        position{line: 1873, col: 25, offset: 60784},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43950,21 +43986,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2279, col: 42, offset: 73849},
+									pos:        position{line: 2279, col: 42, offset: 73903},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2279, col: 46, offset: 73853},
+									pos:   position{line: 2279, col: 46, offset: 73907},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2279, col: 56, offset: 73863},
+										pos:  position{line: 2279, col: 56, offset: 73917},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2279, col: 87, offset: 73894},
+									pos:        position{line: 2279, col: 87, offset: 73948},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43977,29 +44013,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2286, col: 1, offset: 74161},
+			pos:  position{line: 2286, col: 1, offset: 74215},
 			expr: &actionExpr{
-				pos: position{line: 2287, col: 5, offset: 74183},
+				pos: position{line: 2287, col: 5, offset: 74237},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2287, col: 5, offset: 74183},
+					pos: position{line: 2287, col: 5, offset: 74237},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2293, col: 27, offset: 74398},
+							pos:        position{line: 2293, col: 27, offset: 74452},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2288, col: 5, offset: 74210},
+							pos:   position{line: 2288, col: 5, offset: 74264},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2288, col: 14, offset: 74219},
+								pos:  position{line: 2288, col: 14, offset: 74273},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2293, col: 27, offset: 74398},
+							pos:        position{line: 2293, col: 27, offset: 74452},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -44010,34 +44046,34 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2295, col: 1, offset: 74403},
+			pos:  position{line: 2295, col: 1, offset: 74457},
 			expr: &actionExpr{
-				pos: position{line: 2296, col: 5, offset: 74431},
+				pos: position{line: 2296, col: 5, offset: 74485},
 				run: (*parser).callonSubscriptTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2296, col: 5, offset: 74431},
+					pos: position{line: 2296, col: 5, offset: 74485},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2296, col: 5, offset: 74431},
+							pos: position{line: 2296, col: 5, offset: 74485},
 							run: (*parser).callonSubscriptTextElement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2300, col: 5, offset: 74551},
+							pos:   position{line: 2300, col: 5, offset: 74605},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2300, col: 14, offset: 74560},
+								pos: position{line: 2300, col: 14, offset: 74614},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2300, col: 14, offset: 74560},
+										pos:  position{line: 2300, col: 14, offset: 74614},
 										name: "QuotedText",
 									},
 									&actionExpr{
-										pos: position{line: 2304, col: 21, offset: 74648},
+										pos: position{line: 2304, col: 21, offset: 74702},
 										run: (*parser).callonSubscriptTextElement7,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2304, col: 21, offset: 74648},
+											pos: position{line: 2304, col: 21, offset: 74702},
 											expr: &charClassMatcher{
-												pos:        position{line: 2304, col: 21, offset: 74648},
+												pos:        position{line: 2304, col: 21, offset: 74702},
 												val:        "[^\\r\\n ~]",
 												chars:      []rune{'\r', '\n', ' ', '~'},
 												ignoreCase: false,
@@ -44054,23 +44090,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2308, col: 1, offset: 74733},
+			pos:  position{line: 2308, col: 1, offset: 74787},
 			expr: &actionExpr{
-				pos: position{line: 2310, col: 5, offset: 74800},
+				pos: position{line: 2310, col: 5, offset: 74854},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2310, col: 5, offset: 74800},
+					pos: position{line: 2310, col: 5, offset: 74854},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2310, col: 5, offset: 74800},
+							pos:   position{line: 2310, col: 5, offset: 74854},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1873, col: 25, offset: 60730},
+								pos: position{line: 1873, col: 25, offset: 60784},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1873, col: 25, offset: 60730},
+									pos: position{line: 1873, col: 25, offset: 60784},
 									expr: &litMatcher{
-										pos:        position{line: 1873, col: 25, offset: 60730},
+										pos:        position{line: 1873, col: 25, offset: 60784},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -44079,21 +44115,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2293, col: 27, offset: 74398},
+							pos:        position{line: 2293, col: 27, offset: 74452},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2312, col: 5, offset: 74868},
+							pos:   position{line: 2312, col: 5, offset: 74922},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2312, col: 14, offset: 74877},
+								pos:  position{line: 2312, col: 14, offset: 74931},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2293, col: 27, offset: 74398},
+							pos:        position{line: 2293, col: 27, offset: 74452},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -44104,29 +44140,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2320, col: 1, offset: 75140},
+			pos:  position{line: 2320, col: 1, offset: 75194},
 			expr: &actionExpr{
-				pos: position{line: 2321, col: 5, offset: 75164},
+				pos: position{line: 2321, col: 5, offset: 75218},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2321, col: 5, offset: 75164},
+					pos: position{line: 2321, col: 5, offset: 75218},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2327, col: 29, offset: 75391},
+							pos:        position{line: 2327, col: 29, offset: 75445},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2322, col: 5, offset: 75194},
+							pos:   position{line: 2322, col: 5, offset: 75248},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2322, col: 14, offset: 75203},
+								pos:  position{line: 2322, col: 14, offset: 75257},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2327, col: 29, offset: 75391},
+							pos:        position{line: 2327, col: 29, offset: 75445},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -44137,34 +44173,34 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2329, col: 1, offset: 75396},
+			pos:  position{line: 2329, col: 1, offset: 75450},
 			expr: &actionExpr{
-				pos: position{line: 2330, col: 5, offset: 75426},
+				pos: position{line: 2330, col: 5, offset: 75480},
 				run: (*parser).callonSuperscriptTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2330, col: 5, offset: 75426},
+					pos: position{line: 2330, col: 5, offset: 75480},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2330, col: 5, offset: 75426},
+							pos: position{line: 2330, col: 5, offset: 75480},
 							run: (*parser).callonSuperscriptTextElement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2334, col: 5, offset: 75546},
+							pos:   position{line: 2334, col: 5, offset: 75600},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2334, col: 14, offset: 75555},
+								pos: position{line: 2334, col: 14, offset: 75609},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2334, col: 14, offset: 75555},
+										pos:  position{line: 2334, col: 14, offset: 75609},
 										name: "QuotedText",
 									},
 									&actionExpr{
-										pos: position{line: 2338, col: 23, offset: 75647},
+										pos: position{line: 2338, col: 23, offset: 75701},
 										run: (*parser).callonSuperscriptTextElement7,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2338, col: 23, offset: 75647},
+											pos: position{line: 2338, col: 23, offset: 75701},
 											expr: &charClassMatcher{
-												pos:        position{line: 2338, col: 23, offset: 75647},
+												pos:        position{line: 2338, col: 23, offset: 75701},
 												val:        "[^\\r\\n ^]",
 												chars:      []rune{'\r', '\n', ' ', '^'},
 												ignoreCase: false,
@@ -44181,23 +44217,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2342, col: 1, offset: 75732},
+			pos:  position{line: 2342, col: 1, offset: 75786},
 			expr: &actionExpr{
-				pos: position{line: 2344, col: 5, offset: 75804},
+				pos: position{line: 2344, col: 5, offset: 75858},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2344, col: 5, offset: 75804},
+					pos: position{line: 2344, col: 5, offset: 75858},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2344, col: 5, offset: 75804},
+							pos:   position{line: 2344, col: 5, offset: 75858},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1873, col: 25, offset: 60730},
+								pos: position{line: 1873, col: 25, offset: 60784},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1873, col: 25, offset: 60730},
+									pos: position{line: 1873, col: 25, offset: 60784},
 									expr: &litMatcher{
-										pos:        position{line: 1873, col: 25, offset: 60730},
+										pos:        position{line: 1873, col: 25, offset: 60784},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -44206,21 +44242,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2327, col: 29, offset: 75391},
+							pos:        position{line: 2327, col: 29, offset: 75445},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2346, col: 5, offset: 75874},
+							pos:   position{line: 2346, col: 5, offset: 75928},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2346, col: 14, offset: 75883},
+								pos:  position{line: 2346, col: 14, offset: 75937},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2327, col: 29, offset: 75391},
+							pos:        position{line: 2327, col: 29, offset: 75445},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -44231,27 +44267,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2355, col: 1, offset: 76352},
+			pos:  position{line: 2355, col: 1, offset: 76406},
 			expr: &actionExpr{
-				pos: position{line: 2356, col: 5, offset: 76368},
+				pos: position{line: 2356, col: 5, offset: 76422},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2356, col: 5, offset: 76368},
+					pos: position{line: 2356, col: 5, offset: 76422},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2356, col: 5, offset: 76368},
+							pos: position{line: 2356, col: 5, offset: 76422},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2359, col: 5, offset: 76431},
+							pos:   position{line: 2359, col: 5, offset: 76485},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2359, col: 12, offset: 76438},
+								pos: position{line: 2359, col: 12, offset: 76492},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2359, col: 12, offset: 76438},
+									pos: position{line: 2359, col: 12, offset: 76492},
 									expr: &litMatcher{
-										pos:        position{line: 2359, col: 13, offset: 76439},
+										pos:        position{line: 2359, col: 13, offset: 76493},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -44260,16 +44296,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2363, col: 5, offset: 76547},
+							pos: position{line: 2363, col: 5, offset: 76601},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2938, col: 11, offset: 92913},
+							pos: position{line: 2938, col: 11, offset: 92967},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2938, col: 11, offset: 92913},
+								pos: position{line: 2938, col: 11, offset: 92967},
 								expr: &charClassMatcher{
-									pos:        position{line: 2938, col: 11, offset: 92913},
+									pos:        position{line: 2938, col: 11, offset: 92967},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44278,36 +44314,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2367, col: 12, offset: 76706},
+							pos:   position{line: 2367, col: 12, offset: 76760},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2367, col: 19, offset: 76713},
+								pos:  position{line: 2367, col: 19, offset: 76767},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2956, col: 8, offset: 93250},
+							pos: position{line: 2956, col: 8, offset: 93304},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2943, col: 12, offset: 93023},
+									pos: position{line: 2943, col: 12, offset: 93077},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2943, col: 13, offset: 93024},
+										pos: position{line: 2943, col: 13, offset: 93078},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2943, col: 13, offset: 93024},
+												pos:        position{line: 2943, col: 13, offset: 93078},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 20, offset: 93031},
+												pos:        position{line: 2943, col: 20, offset: 93085},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 29, offset: 93040},
+												pos:        position{line: 2943, col: 29, offset: 93094},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -44316,9 +44352,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2953, col: 8, offset: 93200},
+									pos: position{line: 2953, col: 8, offset: 93254},
 									expr: &anyMatcher{
-										line: 2953, col: 9, offset: 93201,
+										line: 2953, col: 9, offset: 93255,
 									},
 								},
 							},
@@ -44329,24 +44365,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2371, col: 1, offset: 76809},
+			pos:  position{line: 2371, col: 1, offset: 76863},
 			expr: &actionExpr{
-				pos: position{line: 2372, col: 5, offset: 76830},
+				pos: position{line: 2372, col: 5, offset: 76884},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2372, col: 5, offset: 76830},
+					pos: position{line: 2372, col: 5, offset: 76884},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2372, col: 5, offset: 76830},
+							pos: position{line: 2372, col: 5, offset: 76884},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2378, col: 5, offset: 77021},
+							pos:   position{line: 2378, col: 5, offset: 77075},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2378, col: 14, offset: 77030},
+								pos: position{line: 2378, col: 14, offset: 77084},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2378, col: 15, offset: 77031},
+									pos:  position{line: 2378, col: 15, offset: 77085},
 									name: "SectionTitleElement",
 								},
 							},
@@ -44357,38 +44393,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2382, col: 1, offset: 77112},
+			pos:  position{line: 2382, col: 1, offset: 77166},
 			expr: &actionExpr{
-				pos: position{line: 2383, col: 5, offset: 77139},
+				pos: position{line: 2383, col: 5, offset: 77193},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2383, col: 5, offset: 77139},
+					pos: position{line: 2383, col: 5, offset: 77193},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2383, col: 5, offset: 77139},
+							pos: position{line: 2383, col: 5, offset: 77193},
 							expr: &choiceExpr{
-								pos: position{line: 2956, col: 8, offset: 93250},
+								pos: position{line: 2956, col: 8, offset: 93304},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2943, col: 12, offset: 93023},
+										pos: position{line: 2943, col: 12, offset: 93077},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2943, col: 13, offset: 93024},
+											pos: position{line: 2943, col: 13, offset: 93078},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2943, col: 13, offset: 93024},
+													pos:        position{line: 2943, col: 13, offset: 93078},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2943, col: 20, offset: 93031},
+													pos:        position{line: 2943, col: 20, offset: 93085},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2943, col: 29, offset: 93040},
+													pos:        position{line: 2943, col: 29, offset: 93094},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44397,36 +44433,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2953, col: 8, offset: 93200},
+										pos: position{line: 2953, col: 8, offset: 93254},
 										expr: &anyMatcher{
-											line: 2953, col: 9, offset: 93201,
+											line: 2953, col: 9, offset: 93255,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2384, col: 5, offset: 77148},
+							pos:   position{line: 2384, col: 5, offset: 77202},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2385, col: 9, offset: 77166},
+								pos: position{line: 2385, col: 9, offset: 77220},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2833, col: 5, offset: 90094},
+										pos: position{line: 2833, col: 5, offset: 90148},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2833, col: 5, offset: 90094},
+											pos: position{line: 2833, col: 5, offset: 90148},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2833, col: 5, offset: 90094},
+													pos:   position{line: 2833, col: 5, offset: 90148},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2833, col: 11, offset: 90100},
+														pos: position{line: 2833, col: 11, offset: 90154},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2833, col: 11, offset: 90100},
+															pos: position{line: 2833, col: 11, offset: 90154},
 															expr: &charClassMatcher{
-																pos:        position{line: 2833, col: 11, offset: 90100},
+																pos:        position{line: 2833, col: 11, offset: 90154},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44436,36 +44472,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2836, col: 5, offset: 90158},
+													pos: position{line: 2836, col: 5, offset: 90212},
 													expr: &seqExpr{
-														pos: position{line: 2837, col: 9, offset: 90169},
+														pos: position{line: 2837, col: 9, offset: 90223},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2837, col: 9, offset: 90169},
+																pos:        position{line: 2837, col: 9, offset: 90223},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2838, col: 9, offset: 90218},
+																pos: position{line: 2838, col: 9, offset: 90272},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2842, col: 5, offset: 90298},
+													pos: position{line: 2842, col: 5, offset: 90352},
 													expr: &seqExpr{
-														pos: position{line: 2843, col: 9, offset: 90309},
+														pos: position{line: 2843, col: 9, offset: 90363},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2843, col: 9, offset: 90309},
+																pos:        position{line: 2843, col: 9, offset: 90363},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2843, col: 13, offset: 90313},
+																pos:        position{line: 2843, col: 13, offset: 90367},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44478,12 +44514,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2938, col: 11, offset: 92913},
+										pos: position{line: 2938, col: 11, offset: 92967},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2938, col: 11, offset: 92913},
+											pos: position{line: 2938, col: 11, offset: 92967},
 											expr: &charClassMatcher{
-												pos:        position{line: 2938, col: 11, offset: 92913},
+												pos:        position{line: 2938, col: 11, offset: 92967},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -44492,21 +44528,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2555, col: 5, offset: 82375},
+										pos: position{line: 2555, col: 5, offset: 82429},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2555, col: 5, offset: 82375},
+											pos: position{line: 2555, col: 5, offset: 82429},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2555, col: 5, offset: 82375},
+													pos:        position{line: 2555, col: 5, offset: 82429},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2555, col: 10, offset: 82380},
+													pos: position{line: 2555, col: 10, offset: 82434},
 													expr: &charClassMatcher{
-														pos:        position{line: 2555, col: 11, offset: 82381},
+														pos:        position{line: 2555, col: 11, offset: 82435},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -44517,29 +44553,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2561, col: 5, offset: 82573},
+										pos: position{line: 2561, col: 5, offset: 82627},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2561, col: 5, offset: 82573},
+											pos: position{line: 2561, col: 5, offset: 82627},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2561, col: 5, offset: 82573},
+													pos: position{line: 2561, col: 5, offset: 82627},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2564, col: 5, offset: 82644},
+													pos: position{line: 2564, col: 5, offset: 82698},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2568, col: 5, offset: 82769},
+													pos:        position{line: 2568, col: 5, offset: 82823},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2568, col: 9, offset: 82773},
+													pos: position{line: 2568, col: 9, offset: 82827},
 													expr: &charClassMatcher{
-														pos:        position{line: 2568, col: 10, offset: 82774},
+														pos:        position{line: 2568, col: 10, offset: 82828},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -44550,31 +44586,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2388, col: 11, offset: 77231},
+										pos:  position{line: 2388, col: 11, offset: 77285},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2851, col: 5, offset: 90506},
+										pos: position{line: 2851, col: 5, offset: 90560},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2852, col: 9, offset: 90516},
+											pos: position{line: 2852, col: 9, offset: 90570},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2852, col: 10, offset: 90517},
+													pos:        position{line: 2852, col: 10, offset: 90571},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2854, col: 13, offset: 90614},
+													pos: position{line: 2854, col: 13, offset: 90668},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2854, col: 13, offset: 90614},
+															pos: position{line: 2854, col: 13, offset: 90668},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2857, col: 13, offset: 90714},
+															pos:        position{line: 2857, col: 13, offset: 90768},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -44582,20 +44618,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2857, col: 19, offset: 90720},
+													pos:        position{line: 2857, col: 19, offset: 90774},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2860, col: 13, offset: 90758},
+													pos: position{line: 2860, col: 13, offset: 90812},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2860, col: 13, offset: 90758},
+															pos: position{line: 2860, col: 13, offset: 90812},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2863, col: 14, offset: 90851},
+															pos:        position{line: 2863, col: 14, offset: 90905},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -44604,18 +44640,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2865, col: 12, offset: 90895},
+													pos: position{line: 2865, col: 12, offset: 90949},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2865, col: 12, offset: 90895},
+															pos:        position{line: 2865, col: 12, offset: 90949},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2865, col: 16, offset: 90899},
+															pos: position{line: 2865, col: 16, offset: 90953},
 															expr: &litMatcher{
-																pos:        position{line: 2865, col: 17, offset: 90900},
+																pos:        position{line: 2865, col: 17, offset: 90954},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -44627,35 +44663,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2390, col: 11, offset: 77304},
+										pos:  position{line: 2390, col: 11, offset: 77358},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2391, col: 11, offset: 77320},
+										pos:  position{line: 2391, col: 11, offset: 77374},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2392, col: 11, offset: 77348},
+										pos:  position{line: 2392, col: 11, offset: 77402},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2524, col: 5, offset: 81176},
+										pos: position{line: 2524, col: 5, offset: 81230},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2524, col: 5, offset: 81176},
+											pos: position{line: 2524, col: 5, offset: 81230},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2524, col: 5, offset: 81176},
+													pos: position{line: 2524, col: 5, offset: 81230},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2527, col: 5, offset: 81252},
+													pos:   position{line: 2527, col: 5, offset: 81306},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2528, col: 9, offset: 81270},
+														pos: position{line: 2528, col: 9, offset: 81324},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2528, col: 10, offset: 81271},
+															pos:        position{line: 2528, col: 10, offset: 81325},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -44667,7 +44703,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2394, col: 11, offset: 77433},
+										pos:  position{line: 2394, col: 11, offset: 77487},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -45060,17 +45096,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2407, col: 5, offset: 77886},
+										pos: position{line: 2407, col: 5, offset: 77940},
 										run: (*parser).callonSectionTitleElement146,
 										expr: &seqExpr{
-											pos: position{line: 2407, col: 5, offset: 77886},
+											pos: position{line: 2407, col: 5, offset: 77940},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2407, col: 5, offset: 77886},
+													pos: position{line: 2407, col: 5, offset: 77940},
 													run: (*parser).callonSectionTitleElement148,
 												},
 												&labeledExpr{
-													pos:   position{line: 2410, col: 5, offset: 77941},
+													pos:   position{line: 2410, col: 5, offset: 77995},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 406, col: 5, offset: 12507},
@@ -45528,12 +45564,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2410, col: 26, offset: 77962},
+													pos: position{line: 2410, col: 26, offset: 78016},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92852},
+														pos: position{line: 2934, col: 10, offset: 92906},
 														run: (*parser).callonSectionTitleElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92852},
+															pos:        position{line: 2934, col: 10, offset: 92906},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -45542,30 +45578,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2410, col: 33, offset: 77969},
+													pos: position{line: 2410, col: 33, offset: 78023},
 													expr: &choiceExpr{
-														pos: position{line: 2956, col: 8, offset: 93250},
+														pos: position{line: 2956, col: 8, offset: 93304},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93023},
+																pos: position{line: 2943, col: 12, offset: 93077},
 																run: (*parser).callonSectionTitleElement247,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93024},
+																	pos: position{line: 2943, col: 13, offset: 93078},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93024},
+																			pos:        position{line: 2943, col: 13, offset: 93078},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93031},
+																			pos:        position{line: 2943, col: 20, offset: 93085},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93040},
+																			pos:        position{line: 2943, col: 29, offset: 93094},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -45574,9 +45610,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93200},
+																pos: position{line: 2953, col: 8, offset: 93254},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93201,
+																	line: 2953, col: 9, offset: 93255,
 																},
 															},
 														},
@@ -45601,12 +45637,12 @@ var g = &grammar{
 													pos:   position{line: 1278, col: 14, offset: 39876},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2919, col: 7, offset: 92504},
+														pos: position{line: 2919, col: 7, offset: 92558},
 														run: (*parser).callonSectionTitleElement258,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2919, col: 7, offset: 92504},
+															pos: position{line: 2919, col: 7, offset: 92558},
 															expr: &charClassMatcher{
-																pos:        position{line: 2919, col: 7, offset: 92504},
+																pos:        position{line: 2919, col: 7, offset: 92558},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45640,12 +45676,12 @@ var g = &grammar{
 													pos:   position{line: 1283, col: 10, offset: 40008},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2919, col: 7, offset: 92504},
+														pos: position{line: 2919, col: 7, offset: 92558},
 														run: (*parser).callonSectionTitleElement266,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2919, col: 7, offset: 92504},
+															pos: position{line: 2919, col: 7, offset: 92558},
 															expr: &charClassMatcher{
-																pos:        position{line: 2919, col: 7, offset: 92504},
+																pos:        position{line: 2919, col: 7, offset: 92558},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45664,14 +45700,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2399, col: 11, offset: 77687},
+										pos:  position{line: 2399, col: 11, offset: 77741},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2873, col: 12, offset: 91160},
+										pos: position{line: 2873, col: 12, offset: 91214},
 										run: (*parser).callonSectionTitleElement271,
 										expr: &charClassMatcher{
-											pos:        position{line: 2873, col: 12, offset: 91160},
+											pos:        position{line: 2873, col: 12, offset: 91214},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45687,52 +45723,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2420, col: 1, offset: 78231},
+			pos:  position{line: 2420, col: 1, offset: 78285},
 			expr: &actionExpr{
-				pos: position{line: 2421, col: 5, offset: 78318},
+				pos: position{line: 2421, col: 5, offset: 78372},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2421, col: 5, offset: 78318},
+					pos: position{line: 2421, col: 5, offset: 78372},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2421, col: 5, offset: 78318},
+							pos:   position{line: 2421, col: 5, offset: 78372},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2421, col: 14, offset: 78327},
+								pos: position{line: 2421, col: 14, offset: 78381},
 								expr: &actionExpr{
-									pos: position{line: 2423, col: 9, offset: 78353},
+									pos: position{line: 2423, col: 9, offset: 78407},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2423, col: 9, offset: 78353},
+										pos: position{line: 2423, col: 9, offset: 78407},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2951, col: 11, offset: 93186},
+												pos: position{line: 2951, col: 11, offset: 93240},
 												expr: &anyMatcher{
-													line: 2951, col: 13, offset: 93188,
+													line: 2951, col: 13, offset: 93242,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2424, col: 9, offset: 78368},
+												pos:   position{line: 2424, col: 9, offset: 78422},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2425, col: 13, offset: 78390},
+													pos: position{line: 2425, col: 13, offset: 78444},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2833, col: 5, offset: 90094},
+															pos: position{line: 2833, col: 5, offset: 90148},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2833, col: 5, offset: 90094},
+																pos: position{line: 2833, col: 5, offset: 90148},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2833, col: 5, offset: 90094},
+																		pos:   position{line: 2833, col: 5, offset: 90148},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2833, col: 11, offset: 90100},
+																			pos: position{line: 2833, col: 11, offset: 90154},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2833, col: 11, offset: 90100},
+																				pos: position{line: 2833, col: 11, offset: 90154},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2833, col: 11, offset: 90100},
+																					pos:        position{line: 2833, col: 11, offset: 90154},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45742,36 +45778,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2836, col: 5, offset: 90158},
+																		pos: position{line: 2836, col: 5, offset: 90212},
 																		expr: &seqExpr{
-																			pos: position{line: 2837, col: 9, offset: 90169},
+																			pos: position{line: 2837, col: 9, offset: 90223},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2837, col: 9, offset: 90169},
+																					pos:        position{line: 2837, col: 9, offset: 90223},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2838, col: 9, offset: 90218},
+																					pos: position{line: 2838, col: 9, offset: 90272},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2842, col: 5, offset: 90298},
+																		pos: position{line: 2842, col: 5, offset: 90352},
 																		expr: &seqExpr{
-																			pos: position{line: 2843, col: 9, offset: 90309},
+																			pos: position{line: 2843, col: 9, offset: 90363},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2843, col: 9, offset: 90309},
+																					pos:        position{line: 2843, col: 9, offset: 90363},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2843, col: 13, offset: 90313},
+																					pos:        position{line: 2843, col: 13, offset: 90367},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45784,12 +45820,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2938, col: 11, offset: 92913},
+															pos: position{line: 2938, col: 11, offset: 92967},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2938, col: 11, offset: 92913},
+																pos: position{line: 2938, col: 11, offset: 92967},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2938, col: 11, offset: 92913},
+																	pos:        position{line: 2938, col: 11, offset: 92967},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45798,25 +45834,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2427, col: 15, offset: 78436},
+															pos:  position{line: 2427, col: 15, offset: 78490},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2555, col: 5, offset: 82375},
+															pos: position{line: 2555, col: 5, offset: 82429},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2555, col: 5, offset: 82375},
+																pos: position{line: 2555, col: 5, offset: 82429},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2555, col: 5, offset: 82375},
+																		pos:        position{line: 2555, col: 5, offset: 82429},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2555, col: 10, offset: 82380},
+																		pos: position{line: 2555, col: 10, offset: 82434},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2555, col: 11, offset: 82381},
+																			pos:        position{line: 2555, col: 11, offset: 82435},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45827,29 +45863,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2561, col: 5, offset: 82573},
+															pos: position{line: 2561, col: 5, offset: 82627},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2561, col: 5, offset: 82573},
+																pos: position{line: 2561, col: 5, offset: 82627},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2561, col: 5, offset: 82573},
+																		pos: position{line: 2561, col: 5, offset: 82627},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2564, col: 5, offset: 82644},
+																		pos: position{line: 2564, col: 5, offset: 82698},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2568, col: 5, offset: 82769},
+																		pos:        position{line: 2568, col: 5, offset: 82823},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2568, col: 9, offset: 82773},
+																		pos: position{line: 2568, col: 9, offset: 82827},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2568, col: 10, offset: 82774},
+																			pos:        position{line: 2568, col: 10, offset: 82828},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45860,27 +45896,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2851, col: 5, offset: 90506},
+															pos: position{line: 2851, col: 5, offset: 90560},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2852, col: 9, offset: 90516},
+																pos: position{line: 2852, col: 9, offset: 90570},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90517},
+																		pos:        position{line: 2852, col: 10, offset: 90571},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2854, col: 13, offset: 90614},
+																		pos: position{line: 2854, col: 13, offset: 90668},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2854, col: 13, offset: 90614},
+																				pos: position{line: 2854, col: 13, offset: 90668},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2857, col: 13, offset: 90714},
+																				pos:        position{line: 2857, col: 13, offset: 90768},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45888,20 +45924,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2857, col: 19, offset: 90720},
+																		pos:        position{line: 2857, col: 19, offset: 90774},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2860, col: 13, offset: 90758},
+																		pos: position{line: 2860, col: 13, offset: 90812},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2860, col: 13, offset: 90758},
+																				pos: position{line: 2860, col: 13, offset: 90812},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2863, col: 14, offset: 90851},
+																				pos:        position{line: 2863, col: 14, offset: 90905},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45910,18 +45946,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2865, col: 12, offset: 90895},
+																		pos: position{line: 2865, col: 12, offset: 90949},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2865, col: 12, offset: 90895},
+																				pos:        position{line: 2865, col: 12, offset: 90949},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2865, col: 16, offset: 90899},
+																				pos: position{line: 2865, col: 16, offset: 90953},
 																				expr: &litMatcher{
-																					pos:        position{line: 2865, col: 17, offset: 90900},
+																					pos:        position{line: 2865, col: 17, offset: 90954},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45933,25 +45969,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93023},
+															pos: position{line: 2943, col: 12, offset: 93077},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93024},
+																pos: position{line: 2943, col: 13, offset: 93078},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93024},
+																		pos:        position{line: 2943, col: 13, offset: 93078},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93031},
+																		pos:        position{line: 2943, col: 20, offset: 93085},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93040},
+																		pos:        position{line: 2943, col: 29, offset: 93094},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -46306,35 +46342,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2432, col: 15, offset: 78603},
+															pos:  position{line: 2432, col: 15, offset: 78657},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2433, col: 15, offset: 78623},
+															pos:  position{line: 2433, col: 15, offset: 78677},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2434, col: 15, offset: 78712},
+															pos:  position{line: 2434, col: 15, offset: 78766},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2524, col: 5, offset: 81176},
+															pos: position{line: 2524, col: 5, offset: 81230},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2524, col: 5, offset: 81176},
+																pos: position{line: 2524, col: 5, offset: 81230},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2524, col: 5, offset: 81176},
+																		pos: position{line: 2524, col: 5, offset: 81230},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2527, col: 5, offset: 81252},
+																		pos:   position{line: 2527, col: 5, offset: 81306},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2528, col: 9, offset: 81270},
+																			pos: position{line: 2528, col: 9, offset: 81324},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2528, col: 10, offset: 81271},
+																				pos:        position{line: 2528, col: 10, offset: 81325},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -46368,10 +46404,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1239, col: 5, offset: 38724},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92852},
+																			pos: position{line: 2934, col: 10, offset: 92906},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92852},
+																				pos:        position{line: 2934, col: 10, offset: 92906},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46382,28 +46418,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1239, col: 12, offset: 38731},
 																		expr: &choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93250},
+																			pos: position{line: 2956, col: 8, offset: 93304},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93023},
+																					pos: position{line: 2943, col: 12, offset: 93077},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93024},
+																						pos: position{line: 2943, col: 13, offset: 93078},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93024},
+																								pos:        position{line: 2943, col: 13, offset: 93078},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93031},
+																								pos:        position{line: 2943, col: 20, offset: 93085},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93040},
+																								pos:        position{line: 2943, col: 29, offset: 93094},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46412,9 +46448,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93200},
+																					pos: position{line: 2953, col: 8, offset: 93254},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93201,
+																						line: 2953, col: 9, offset: 93255,
 																					},
 																				},
 																			},
@@ -46424,7 +46460,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2437, col: 15, offset: 78894},
+															pos:  position{line: 2437, col: 15, offset: 78948},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -46471,10 +46507,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 91160},
+															pos: position{line: 2873, col: 12, offset: 91214},
 															run: (*parser).callonNormalGroup165,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 12, offset: 91160},
+																pos:        position{line: 2873, col: 12, offset: 91214},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -46490,9 +46526,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2953, col: 8, offset: 93200},
+							pos: position{line: 2953, col: 8, offset: 93254},
 							expr: &anyMatcher{
-								line: 2953, col: 9, offset: 93201,
+								line: 2953, col: 9, offset: 93255,
 							},
 						},
 					},
@@ -46501,28 +46537,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2448, col: 1, offset: 79332},
+			pos:  position{line: 2448, col: 1, offset: 79386},
 			expr: &actionExpr{
-				pos: position{line: 2449, col: 5, offset: 79365},
+				pos: position{line: 2449, col: 5, offset: 79419},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2449, col: 5, offset: 79365},
+					pos: position{line: 2449, col: 5, offset: 79419},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2449, col: 5, offset: 79365},
+							pos:   position{line: 2449, col: 5, offset: 79419},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2449, col: 14, offset: 79374},
+								pos: position{line: 2449, col: 14, offset: 79428},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2449, col: 15, offset: 79375},
+									pos:  position{line: 2449, col: 15, offset: 79429},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2953, col: 8, offset: 93200},
+							pos: position{line: 2953, col: 8, offset: 93254},
 							expr: &anyMatcher{
-								line: 2953, col: 9, offset: 93201,
+								line: 2953, col: 9, offset: 93255,
 							},
 						},
 					},
@@ -46531,41 +46567,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2453, col: 1, offset: 79472},
+			pos:  position{line: 2453, col: 1, offset: 79526},
 			expr: &actionExpr{
-				pos: position{line: 2454, col: 5, offset: 79512},
+				pos: position{line: 2454, col: 5, offset: 79566},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2454, col: 5, offset: 79512},
+					pos: position{line: 2454, col: 5, offset: 79566},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2951, col: 11, offset: 93186},
+							pos: position{line: 2951, col: 11, offset: 93240},
 							expr: &anyMatcher{
-								line: 2951, col: 13, offset: 93188,
+								line: 2951, col: 13, offset: 93242,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2455, col: 5, offset: 79523},
+							pos:   position{line: 2455, col: 5, offset: 79577},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2456, col: 9, offset: 79541},
+								pos: position{line: 2456, col: 9, offset: 79595},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2833, col: 5, offset: 90094},
+										pos: position{line: 2833, col: 5, offset: 90148},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2833, col: 5, offset: 90094},
+											pos: position{line: 2833, col: 5, offset: 90148},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2833, col: 5, offset: 90094},
+													pos:   position{line: 2833, col: 5, offset: 90148},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2833, col: 11, offset: 90100},
+														pos: position{line: 2833, col: 11, offset: 90154},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2833, col: 11, offset: 90100},
+															pos: position{line: 2833, col: 11, offset: 90154},
 															expr: &charClassMatcher{
-																pos:        position{line: 2833, col: 11, offset: 90100},
+																pos:        position{line: 2833, col: 11, offset: 90154},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46575,36 +46611,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2836, col: 5, offset: 90158},
+													pos: position{line: 2836, col: 5, offset: 90212},
 													expr: &seqExpr{
-														pos: position{line: 2837, col: 9, offset: 90169},
+														pos: position{line: 2837, col: 9, offset: 90223},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2837, col: 9, offset: 90169},
+																pos:        position{line: 2837, col: 9, offset: 90223},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2838, col: 9, offset: 90218},
+																pos: position{line: 2838, col: 9, offset: 90272},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2842, col: 5, offset: 90298},
+													pos: position{line: 2842, col: 5, offset: 90352},
 													expr: &seqExpr{
-														pos: position{line: 2843, col: 9, offset: 90309},
+														pos: position{line: 2843, col: 9, offset: 90363},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2843, col: 9, offset: 90309},
+																pos:        position{line: 2843, col: 9, offset: 90363},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2843, col: 13, offset: 90313},
+																pos:        position{line: 2843, col: 13, offset: 90367},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46617,10 +46653,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2934, col: 10, offset: 92852},
+										pos: position{line: 2934, col: 10, offset: 92906},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2934, col: 10, offset: 92852},
+											pos:        position{line: 2934, col: 10, offset: 92906},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -46628,31 +46664,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2458, col: 11, offset: 79579},
+										pos:  position{line: 2458, col: 11, offset: 79633},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2851, col: 5, offset: 90506},
+										pos: position{line: 2851, col: 5, offset: 90560},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2852, col: 9, offset: 90516},
+											pos: position{line: 2852, col: 9, offset: 90570},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2852, col: 10, offset: 90517},
+													pos:        position{line: 2852, col: 10, offset: 90571},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2854, col: 13, offset: 90614},
+													pos: position{line: 2854, col: 13, offset: 90668},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2854, col: 13, offset: 90614},
+															pos: position{line: 2854, col: 13, offset: 90668},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2857, col: 13, offset: 90714},
+															pos:        position{line: 2857, col: 13, offset: 90768},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46660,20 +46696,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2857, col: 19, offset: 90720},
+													pos:        position{line: 2857, col: 19, offset: 90774},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2860, col: 13, offset: 90758},
+													pos: position{line: 2860, col: 13, offset: 90812},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2860, col: 13, offset: 90758},
+															pos: position{line: 2860, col: 13, offset: 90812},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2863, col: 14, offset: 90851},
+															pos:        position{line: 2863, col: 14, offset: 90905},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46682,18 +46718,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2865, col: 12, offset: 90895},
+													pos: position{line: 2865, col: 12, offset: 90949},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2865, col: 12, offset: 90895},
+															pos:        position{line: 2865, col: 12, offset: 90949},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2865, col: 16, offset: 90899},
+															pos: position{line: 2865, col: 16, offset: 90953},
 															expr: &litMatcher{
-																pos:        position{line: 2865, col: 17, offset: 90900},
+																pos:        position{line: 2865, col: 17, offset: 90954},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46705,31 +46741,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2460, col: 11, offset: 79652},
+										pos:  position{line: 2460, col: 11, offset: 79706},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2461, col: 11, offset: 79668},
+										pos:  position{line: 2461, col: 11, offset: 79722},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2524, col: 5, offset: 81176},
+										pos: position{line: 2524, col: 5, offset: 81230},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2524, col: 5, offset: 81176},
+											pos: position{line: 2524, col: 5, offset: 81230},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2524, col: 5, offset: 81176},
+													pos: position{line: 2524, col: 5, offset: 81230},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2527, col: 5, offset: 81252},
+													pos:   position{line: 2527, col: 5, offset: 81306},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2528, col: 9, offset: 81270},
+														pos: position{line: 2528, col: 9, offset: 81324},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2528, col: 10, offset: 81271},
+															pos:        position{line: 2528, col: 10, offset: 81325},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46784,25 +46820,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2943, col: 12, offset: 93023},
+										pos: position{line: 2943, col: 12, offset: 93077},
 										run: (*parser).callonAttributeStructuredValueElement55,
 										expr: &choiceExpr{
-											pos: position{line: 2943, col: 13, offset: 93024},
+											pos: position{line: 2943, col: 13, offset: 93078},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2943, col: 13, offset: 93024},
+													pos:        position{line: 2943, col: 13, offset: 93078},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2943, col: 20, offset: 93031},
+													pos:        position{line: 2943, col: 20, offset: 93085},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2943, col: 29, offset: 93040},
+													pos:        position{line: 2943, col: 29, offset: 93094},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46811,10 +46847,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2873, col: 12, offset: 91160},
+										pos: position{line: 2873, col: 12, offset: 91214},
 										run: (*parser).callonAttributeStructuredValueElement60,
 										expr: &charClassMatcher{
-											pos:        position{line: 2873, col: 12, offset: 91160},
+											pos:        position{line: 2873, col: 12, offset: 91214},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46830,49 +46866,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2472, col: 1, offset: 79938},
+			pos:  position{line: 2472, col: 1, offset: 79992},
 			expr: &actionExpr{
-				pos: position{line: 2474, col: 5, offset: 80020},
+				pos: position{line: 2474, col: 5, offset: 80074},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2474, col: 5, offset: 80020},
+					pos: position{line: 2474, col: 5, offset: 80074},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2474, col: 5, offset: 80020},
+							pos: position{line: 2474, col: 5, offset: 80074},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2477, col: 5, offset: 80085},
+							pos:   position{line: 2477, col: 5, offset: 80139},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2478, col: 9, offset: 80103},
+								pos: position{line: 2478, col: 9, offset: 80157},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2478, col: 9, offset: 80103},
+										pos:  position{line: 2478, col: 9, offset: 80157},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2479, col: 11, offset: 80124},
+										pos:  position{line: 2479, col: 11, offset: 80178},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2480, col: 11, offset: 80147},
+										pos:  position{line: 2480, col: 11, offset: 80201},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2481, col: 11, offset: 80163},
+										pos:  position{line: 2481, col: 11, offset: 80217},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2482, col: 11, offset: 80192},
+										pos:  position{line: 2482, col: 11, offset: 80246},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2483, col: 11, offset: 80218},
+										pos:  position{line: 2483, col: 11, offset: 80272},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2484, col: 11, offset: 80244},
+										pos:  position{line: 2484, col: 11, offset: 80298},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -46891,12 +46927,12 @@ var g = &grammar{
 													pos:   position{line: 1278, col: 14, offset: 39876},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2919, col: 7, offset: 92504},
+														pos: position{line: 2919, col: 7, offset: 92558},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2919, col: 7, offset: 92504},
+															pos: position{line: 2919, col: 7, offset: 92558},
 															expr: &charClassMatcher{
-																pos:        position{line: 2919, col: 7, offset: 92504},
+																pos:        position{line: 2919, col: 7, offset: 92558},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46930,12 +46966,12 @@ var g = &grammar{
 													pos:   position{line: 1283, col: 10, offset: 40008},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2919, col: 7, offset: 92504},
+														pos: position{line: 2919, col: 7, offset: 92558},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2919, col: 7, offset: 92504},
+															pos: position{line: 2919, col: 7, offset: 92558},
 															expr: &charClassMatcher{
-																pos:        position{line: 2919, col: 7, offset: 92504},
+																pos:        position{line: 2919, col: 7, offset: 92558},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46977,17 +47013,17 @@ var g = &grammar{
 																pos: position{line: 1329, col: 31, offset: 41830},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2824, col: 13, offset: 89947},
+																		pos:        position{line: 2824, col: 13, offset: 90001},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92852},
+																		pos: position{line: 2934, col: 10, offset: 92906},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92852},
+																			pos:        position{line: 2934, col: 10, offset: 92906},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -47013,10 +47049,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1323, col: 12, offset: 41544},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92852},
+																			pos: position{line: 2934, col: 10, offset: 92906},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92852},
+																				pos:        position{line: 2934, col: 10, offset: 92906},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47033,10 +47069,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1323, col: 23, offset: 41555},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92852},
+																			pos: position{line: 2934, col: 10, offset: 92906},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92852},
+																				pos:        position{line: 2934, col: 10, offset: 92906},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47056,17 +47092,17 @@ var g = &grammar{
 																					pos: position{line: 1329, col: 31, offset: 41830},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2824, col: 13, offset: 89947},
+																							pos:        position{line: 2824, col: 13, offset: 90001},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92852},
+																							pos: position{line: 2934, col: 10, offset: 92906},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92852},
+																								pos:        position{line: 2934, col: 10, offset: 92906},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47097,10 +47133,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1324, col: 12, offset: 41636},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92852},
+																			pos: position{line: 2934, col: 10, offset: 92906},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92852},
+																				pos:        position{line: 2934, col: 10, offset: 92906},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47117,10 +47153,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1324, col: 23, offset: 41647},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92852},
+																			pos: position{line: 2934, col: 10, offset: 92906},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92852},
+																				pos:        position{line: 2934, col: 10, offset: 92906},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47140,17 +47176,17 @@ var g = &grammar{
 																					pos: position{line: 1329, col: 31, offset: 41830},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2824, col: 13, offset: 89947},
+																							pos:        position{line: 2824, col: 13, offset: 90001},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92852},
+																							pos: position{line: 2934, col: 10, offset: 92906},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92852},
+																								pos:        position{line: 2934, col: 10, offset: 92906},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47177,15 +47213,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2487, col: 11, offset: 80323},
+										pos:  position{line: 2487, col: 11, offset: 80377},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2488, col: 11, offset: 80343},
+										pos:  position{line: 2488, col: 11, offset: 80397},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2489, col: 11, offset: 80366},
+										pos:  position{line: 2489, col: 11, offset: 80420},
 										name: "InlineMenu",
 									},
 								},
@@ -47197,22 +47233,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2493, col: 1, offset: 80423},
+			pos:  position{line: 2493, col: 1, offset: 80477},
 			expr: &actionExpr{
-				pos: position{line: 2495, col: 5, offset: 80511},
+				pos: position{line: 2495, col: 5, offset: 80565},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2495, col: 5, offset: 80511},
+					pos: position{line: 2495, col: 5, offset: 80565},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2495, col: 5, offset: 80511},
+							pos: position{line: 2495, col: 5, offset: 80565},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2498, col: 5, offset: 80588},
+							pos:   position{line: 2498, col: 5, offset: 80642},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2499, col: 9, offset: 80606},
+								pos: position{line: 2499, col: 9, offset: 80660},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1409, col: 26, offset: 45215},
@@ -47267,10 +47303,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1415, col: 12, offset: 45651},
 																				expr: &actionExpr{
-																					pos: position{line: 2934, col: 10, offset: 92852},
+																					pos: position{line: 2934, col: 10, offset: 92906},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2934, col: 10, offset: 92852},
+																						pos:        position{line: 2934, col: 10, offset: 92906},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -47281,25 +47317,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1415, col: 19, offset: 45658},
 																				expr: &actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93023},
+																					pos: position{line: 2943, col: 12, offset: 93077},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93024},
+																						pos: position{line: 2943, col: 13, offset: 93078},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93024},
+																								pos:        position{line: 2943, col: 13, offset: 93078},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93031},
+																								pos:        position{line: 2943, col: 20, offset: 93085},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93040},
+																								pos:        position{line: 2943, col: 29, offset: 93094},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -47372,10 +47408,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1401, col: 64, offset: 44770},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92852},
+																				pos: position{line: 2934, col: 10, offset: 92906},
 																				run: (*parser).callonInlinePassthrough43,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92852},
+																					pos:        position{line: 2934, col: 10, offset: 92906},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47386,25 +47422,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1401, col: 71, offset: 44777},
 																			expr: &actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonInlinePassthrough46,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47427,12 +47463,12 @@ var g = &grammar{
 																							pos: position{line: 1401, col: 86, offset: 44792},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2938, col: 11, offset: 92913},
+																									pos: position{line: 2938, col: 11, offset: 92967},
 																									run: (*parser).callonInlinePassthrough56,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2938, col: 11, offset: 92913},
+																										pos: position{line: 2938, col: 11, offset: 92967},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2938, col: 11, offset: 92913},
+																											pos:        position{line: 2938, col: 11, offset: 92967},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -47461,25 +47497,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1401, col: 151, offset: 44857},
 																						expr: &actionExpr{
-																							pos: position{line: 2943, col: 12, offset: 93023},
+																							pos: position{line: 2943, col: 12, offset: 93077},
 																							run: (*parser).callonInlinePassthrough63,
 																							expr: &choiceExpr{
-																								pos: position{line: 2943, col: 13, offset: 93024},
+																								pos: position{line: 2943, col: 13, offset: 93078},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 13, offset: 93024},
+																										pos:        position{line: 2943, col: 13, offset: 93078},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 20, offset: 93031},
+																										pos:        position{line: 2943, col: 20, offset: 93085},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 29, offset: 93040},
+																										pos:        position{line: 2943, col: 29, offset: 93094},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -47506,10 +47542,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1403, col: 12, offset: 45017},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92852},
+																				pos: position{line: 2934, col: 10, offset: 92906},
 																				run: (*parser).callonInlinePassthrough72,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92852},
+																					pos:        position{line: 2934, col: 10, offset: 92906},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47520,25 +47556,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1403, col: 19, offset: 45024},
 																			expr: &actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93023},
+																				pos: position{line: 2943, col: 12, offset: 93077},
 																				run: (*parser).callonInlinePassthrough75,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93024},
+																					pos: position{line: 2943, col: 13, offset: 93078},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93024},
+																							pos:        position{line: 2943, col: 13, offset: 93078},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93031},
+																							pos:        position{line: 2943, col: 20, offset: 93085},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93040},
+																							pos:        position{line: 2943, col: 29, offset: 93094},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47574,7 +47610,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1397, col: 121, offset: 44593},
 													expr: &charClassMatcher{
-														pos:        position{line: 2824, col: 13, offset: 89947},
+														pos:        position{line: 2824, col: 13, offset: 90001},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -47585,7 +47621,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2499, col: 57, offset: 80654},
+										pos:  position{line: 2499, col: 57, offset: 80708},
 										name: "PassthroughMacro",
 									},
 								},
@@ -47597,16 +47633,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2504, col: 1, offset: 80714},
+			pos:  position{line: 2504, col: 1, offset: 80768},
 			expr: &seqExpr{
-				pos: position{line: 2506, col: 5, offset: 80790},
+				pos: position{line: 2506, col: 5, offset: 80844},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2506, col: 5, offset: 80790},
+						pos: position{line: 2506, col: 5, offset: 80844},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2509, col: 5, offset: 80855},
+						pos:  position{line: 2509, col: 5, offset: 80909},
 						name: "QuotedText",
 					},
 				},
@@ -47614,22 +47650,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2511, col: 1, offset: 80868},
+			pos:  position{line: 2511, col: 1, offset: 80922},
 			expr: &actionExpr{
-				pos: position{line: 2513, col: 5, offset: 80950},
+				pos: position{line: 2513, col: 5, offset: 81004},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2513, col: 5, offset: 80950},
+					pos: position{line: 2513, col: 5, offset: 81004},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2513, col: 5, offset: 80950},
+							pos: position{line: 2513, col: 5, offset: 81004},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2516, col: 5, offset: 81021},
+							pos:   position{line: 2516, col: 5, offset: 81075},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2517, col: 9, offset: 81039},
+								pos:  position{line: 2517, col: 9, offset: 81093},
 								name: "Symbol",
 							},
 						},
@@ -47639,103 +47675,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2572, col: 1, offset: 82826},
+			pos:  position{line: 2572, col: 1, offset: 82880},
 			expr: &choiceExpr{
-				pos: position{line: 2574, col: 5, offset: 82856},
+				pos: position{line: 2574, col: 5, offset: 82910},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2574, col: 5, offset: 82856},
+						pos: position{line: 2574, col: 5, offset: 82910},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2574, col: 5, offset: 82856},
+							pos: position{line: 2574, col: 5, offset: 82910},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2574, col: 5, offset: 82856},
+									pos:        position{line: 2574, col: 5, offset: 82910},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2574, col: 10, offset: 82861},
+									pos: position{line: 2574, col: 10, offset: 82915},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2574, col: 10, offset: 82861},
+											pos:  position{line: 2574, col: 10, offset: 82915},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2603, col: 14, offset: 83965},
+											pos: position{line: 2603, col: 14, offset: 84019},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2603, col: 14, offset: 83965},
+												pos:        position{line: 2603, col: 14, offset: 84019},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2607, col: 14, offset: 84031},
+											pos: position{line: 2607, col: 14, offset: 84085},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2607, col: 14, offset: 84031},
+												pos:        position{line: 2607, col: 14, offset: 84085},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2611, col: 15, offset: 84100},
+											pos: position{line: 2611, col: 15, offset: 84154},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2611, col: 15, offset: 84100},
+												pos:        position{line: 2611, col: 15, offset: 84154},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2615, col: 13, offset: 84165},
+											pos: position{line: 2615, col: 13, offset: 84219},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2615, col: 13, offset: 84165},
+												pos:        position{line: 2615, col: 13, offset: 84219},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2643, col: 21, offset: 84735},
+											pos: position{line: 2643, col: 21, offset: 84789},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2643, col: 21, offset: 84735},
+												pos:        position{line: 2643, col: 21, offset: 84789},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2622, col: 5, offset: 84321},
+											pos: position{line: 2622, col: 5, offset: 84375},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2622, col: 5, offset: 84321},
+												pos: position{line: 2622, col: 5, offset: 84375},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2622, col: 5, offset: 84321},
+														pos:        position{line: 2622, col: 5, offset: 84375},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2623, col: 5, offset: 84331},
+														pos: position{line: 2623, col: 5, offset: 84385},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2627, col: 6, offset: 84418},
+														pos: position{line: 2627, col: 6, offset: 84472},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2934, col: 10, offset: 92852},
+																pos: position{line: 2934, col: 10, offset: 92906},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2934, col: 10, offset: 92852},
+																	pos:        position{line: 2934, col: 10, offset: 92906},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47743,30 +47779,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2627, col: 14, offset: 84426},
+																pos: position{line: 2627, col: 14, offset: 84480},
 																expr: &choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93250},
+																	pos: position{line: 2956, col: 8, offset: 93304},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93023},
+																			pos: position{line: 2943, col: 12, offset: 93077},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93024},
+																				pos: position{line: 2943, col: 13, offset: 93078},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93024},
+																						pos:        position{line: 2943, col: 13, offset: 93078},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93031},
+																						pos:        position{line: 2943, col: 20, offset: 93085},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93040},
+																						pos:        position{line: 2943, col: 29, offset: 93094},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47775,9 +47811,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93200},
+																			pos: position{line: 2953, col: 8, offset: 93254},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93201,
+																				line: 2953, col: 9, offset: 93255,
 																			},
 																		},
 																	},
@@ -47789,53 +47825,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2632, col: 5, offset: 84546},
+											pos: position{line: 2632, col: 5, offset: 84600},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2632, col: 5, offset: 84546},
+												pos: position{line: 2632, col: 5, offset: 84600},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2632, col: 5, offset: 84546},
+														pos:        position{line: 2632, col: 5, offset: 84600},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2633, col: 5, offset: 84556},
+														pos: position{line: 2633, col: 5, offset: 84610},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2637, col: 5, offset: 84645},
+														pos: position{line: 2637, col: 5, offset: 84699},
 														expr: &choiceExpr{
-															pos: position{line: 2637, col: 7, offset: 84647},
+															pos: position{line: 2637, col: 7, offset: 84701},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2824, col: 13, offset: 89947},
+																	pos:        position{line: 2824, col: 13, offset: 90001},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2943, col: 12, offset: 93023},
+																	pos: position{line: 2943, col: 12, offset: 93077},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2943, col: 13, offset: 93024},
+																		pos: position{line: 2943, col: 13, offset: 93078},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2943, col: 13, offset: 93024},
+																				pos:        position{line: 2943, col: 13, offset: 93078},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2943, col: 20, offset: 93031},
+																				pos:        position{line: 2943, col: 20, offset: 93085},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2943, col: 29, offset: 93040},
+																				pos:        position{line: 2943, col: 29, offset: 93094},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47844,9 +47880,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2953, col: 8, offset: 93200},
+																	pos: position{line: 2953, col: 8, offset: 93254},
 																	expr: &anyMatcher{
-																		line: 2953, col: 9, offset: 93201,
+																		line: 2953, col: 9, offset: 93255,
 																	},
 																},
 															},
@@ -47856,30 +47892,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2647, col: 20, offset: 84805},
+											pos: position{line: 2647, col: 20, offset: 84859},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2647, col: 20, offset: 84805},
+												pos:        position{line: 2647, col: 20, offset: 84859},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2651, col: 21, offset: 84876},
+											pos: position{line: 2651, col: 21, offset: 84930},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2651, col: 21, offset: 84876},
+												pos:        position{line: 2651, col: 21, offset: 84930},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2655, col: 20, offset: 84946},
+											pos: position{line: 2655, col: 20, offset: 85000},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2655, col: 20, offset: 84946},
+												pos:        position{line: 2655, col: 20, offset: 85000},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -47891,73 +47927,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2578, col: 7, offset: 83116},
+						pos:  position{line: 2578, col: 7, offset: 83170},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2603, col: 14, offset: 83965},
+						pos: position{line: 2603, col: 14, offset: 84019},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2603, col: 14, offset: 83965},
+							pos:        position{line: 2603, col: 14, offset: 84019},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2607, col: 14, offset: 84031},
+						pos: position{line: 2607, col: 14, offset: 84085},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2607, col: 14, offset: 84031},
+							pos:        position{line: 2607, col: 14, offset: 84085},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2611, col: 15, offset: 84100},
+						pos: position{line: 2611, col: 15, offset: 84154},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2611, col: 15, offset: 84100},
+							pos:        position{line: 2611, col: 15, offset: 84154},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2615, col: 13, offset: 84165},
+						pos: position{line: 2615, col: 13, offset: 84219},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2615, col: 13, offset: 84165},
+							pos:        position{line: 2615, col: 13, offset: 84219},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2622, col: 5, offset: 84321},
+						pos: position{line: 2622, col: 5, offset: 84375},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2622, col: 5, offset: 84321},
+							pos: position{line: 2622, col: 5, offset: 84375},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2622, col: 5, offset: 84321},
+									pos:        position{line: 2622, col: 5, offset: 84375},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2623, col: 5, offset: 84331},
+									pos: position{line: 2623, col: 5, offset: 84385},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2627, col: 6, offset: 84418},
+									pos: position{line: 2627, col: 6, offset: 84472},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2934, col: 10, offset: 92852},
+											pos: position{line: 2934, col: 10, offset: 92906},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2934, col: 10, offset: 92852},
+												pos:        position{line: 2934, col: 10, offset: 92906},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47965,30 +48001,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2627, col: 14, offset: 84426},
+											pos: position{line: 2627, col: 14, offset: 84480},
 											expr: &choiceExpr{
-												pos: position{line: 2956, col: 8, offset: 93250},
+												pos: position{line: 2956, col: 8, offset: 93304},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2943, col: 12, offset: 93023},
+														pos: position{line: 2943, col: 12, offset: 93077},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2943, col: 13, offset: 93024},
+															pos: position{line: 2943, col: 13, offset: 93078},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2943, col: 13, offset: 93024},
+																	pos:        position{line: 2943, col: 13, offset: 93078},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2943, col: 20, offset: 93031},
+																	pos:        position{line: 2943, col: 20, offset: 93085},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2943, col: 29, offset: 93040},
+																	pos:        position{line: 2943, col: 29, offset: 93094},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47997,9 +48033,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2953, col: 8, offset: 93200},
+														pos: position{line: 2953, col: 8, offset: 93254},
 														expr: &anyMatcher{
-															line: 2953, col: 9, offset: 93201,
+															line: 2953, col: 9, offset: 93255,
 														},
 													},
 												},
@@ -48011,53 +48047,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2632, col: 5, offset: 84546},
+						pos: position{line: 2632, col: 5, offset: 84600},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2632, col: 5, offset: 84546},
+							pos: position{line: 2632, col: 5, offset: 84600},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2632, col: 5, offset: 84546},
+									pos:        position{line: 2632, col: 5, offset: 84600},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2633, col: 5, offset: 84556},
+									pos: position{line: 2633, col: 5, offset: 84610},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2637, col: 5, offset: 84645},
+									pos: position{line: 2637, col: 5, offset: 84699},
 									expr: &choiceExpr{
-										pos: position{line: 2637, col: 7, offset: 84647},
+										pos: position{line: 2637, col: 7, offset: 84701},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2824, col: 13, offset: 89947},
+												pos:        position{line: 2824, col: 13, offset: 90001},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2943, col: 12, offset: 93023},
+												pos: position{line: 2943, col: 12, offset: 93077},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2943, col: 13, offset: 93024},
+													pos: position{line: 2943, col: 13, offset: 93078},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2943, col: 13, offset: 93024},
+															pos:        position{line: 2943, col: 13, offset: 93078},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2943, col: 20, offset: 93031},
+															pos:        position{line: 2943, col: 20, offset: 93085},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2943, col: 29, offset: 93040},
+															pos:        position{line: 2943, col: 29, offset: 93094},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -48066,9 +48102,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2953, col: 8, offset: 93200},
+												pos: position{line: 2953, col: 8, offset: 93254},
 												expr: &anyMatcher{
-													line: 2953, col: 9, offset: 93201,
+													line: 2953, col: 9, offset: 93255,
 												},
 											},
 										},
@@ -48078,40 +48114,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2643, col: 21, offset: 84735},
+						pos: position{line: 2643, col: 21, offset: 84789},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2643, col: 21, offset: 84735},
+							pos:        position{line: 2643, col: 21, offset: 84789},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2647, col: 20, offset: 84805},
+						pos: position{line: 2647, col: 20, offset: 84859},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2647, col: 20, offset: 84805},
+							pos:        position{line: 2647, col: 20, offset: 84859},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2651, col: 21, offset: 84876},
+						pos: position{line: 2651, col: 21, offset: 84930},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2651, col: 21, offset: 84876},
+							pos:        position{line: 2651, col: 21, offset: 84930},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2655, col: 20, offset: 84946},
+						pos: position{line: 2655, col: 20, offset: 85000},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2655, col: 20, offset: 84946},
+							pos:        position{line: 2655, col: 20, offset: 85000},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -48122,43 +48158,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2589, col: 1, offset: 83306},
+			pos:  position{line: 2589, col: 1, offset: 83360},
 			expr: &choiceExpr{
-				pos: position{line: 2590, col: 5, offset: 83328},
+				pos: position{line: 2590, col: 5, offset: 83382},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2590, col: 5, offset: 83328},
+						pos: position{line: 2590, col: 5, offset: 83382},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2590, col: 5, offset: 83328},
+							pos: position{line: 2590, col: 5, offset: 83382},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2590, col: 5, offset: 83328},
+									pos:        position{line: 2590, col: 5, offset: 83382},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2590, col: 11, offset: 83334},
+									pos: position{line: 2590, col: 11, offset: 83388},
 									expr: &seqExpr{
-										pos: position{line: 2131, col: 5, offset: 68924},
+										pos: position{line: 2131, col: 5, offset: 68978},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2131, col: 5, offset: 68924},
+												pos:        position{line: 2131, col: 5, offset: 68978},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2132, col: 5, offset: 68933},
+												pos: position{line: 2132, col: 5, offset: 68987},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2136, col: 5, offset: 69056},
+												pos: position{line: 2136, col: 5, offset: 69110},
 												expr: &notExpr{
-													pos: position{line: 2136, col: 7, offset: 69058},
+													pos: position{line: 2136, col: 7, offset: 69112},
 													expr: &litMatcher{
-														pos:        position{line: 2136, col: 8, offset: 69059},
+														pos:        position{line: 2136, col: 8, offset: 69113},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -48172,21 +48208,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2593, col: 7, offset: 83487},
+						pos: position{line: 2593, col: 7, offset: 83541},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2593, col: 7, offset: 83487},
+							pos: position{line: 2593, col: 7, offset: 83541},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2593, col: 7, offset: 83487},
+									pos:        position{line: 2593, col: 7, offset: 83541},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2593, col: 13, offset: 83493},
+									pos: position{line: 2593, col: 13, offset: 83547},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2593, col: 14, offset: 83494},
+										pos:  position{line: 2593, col: 14, offset: 83548},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -48194,38 +48230,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2596, col: 7, offset: 83644},
+						pos: position{line: 2596, col: 7, offset: 83698},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2596, col: 7, offset: 83644},
+							pos: position{line: 2596, col: 7, offset: 83698},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2596, col: 7, offset: 83644},
+									pos:        position{line: 2596, col: 7, offset: 83698},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2596, col: 12, offset: 83649},
+									pos: position{line: 2596, col: 12, offset: 83703},
 									expr: &seqExpr{
-										pos: position{line: 2131, col: 5, offset: 68924},
+										pos: position{line: 2131, col: 5, offset: 68978},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2131, col: 5, offset: 68924},
+												pos:        position{line: 2131, col: 5, offset: 68978},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2132, col: 5, offset: 68933},
+												pos: position{line: 2132, col: 5, offset: 68987},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2136, col: 5, offset: 69056},
+												pos: position{line: 2136, col: 5, offset: 69110},
 												expr: &notExpr{
-													pos: position{line: 2136, col: 7, offset: 69058},
+													pos: position{line: 2136, col: 7, offset: 69112},
 													expr: &litMatcher{
-														pos:        position{line: 2136, col: 8, offset: 69059},
+														pos:        position{line: 2136, col: 8, offset: 69113},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -48239,21 +48275,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2599, col: 7, offset: 83802},
+						pos: position{line: 2599, col: 7, offset: 83856},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2599, col: 7, offset: 83802},
+							pos: position{line: 2599, col: 7, offset: 83856},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2599, col: 7, offset: 83802},
+									pos:        position{line: 2599, col: 7, offset: 83856},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2599, col: 12, offset: 83807},
+									pos: position{line: 2599, col: 12, offset: 83861},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2599, col: 13, offset: 83808},
+										pos:  position{line: 2599, col: 13, offset: 83862},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -48265,63 +48301,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2739, col: 1, offset: 87027},
+			pos:  position{line: 2739, col: 1, offset: 87081},
 			expr: &actionExpr{
-				pos: position{line: 2739, col: 26, offset: 87052},
+				pos: position{line: 2739, col: 26, offset: 87106},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2739, col: 26, offset: 87052},
+					pos: position{line: 2739, col: 26, offset: 87106},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2739, col: 26, offset: 87052},
+							pos:   position{line: 2739, col: 26, offset: 87106},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2739, col: 31, offset: 87057},
+								pos: position{line: 2739, col: 31, offset: 87111},
 								expr: &actionExpr{
-									pos: position{line: 2744, col: 5, offset: 87120},
+									pos: position{line: 2744, col: 5, offset: 87174},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2744, col: 5, offset: 87120},
+										pos: position{line: 2744, col: 5, offset: 87174},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2951, col: 11, offset: 93186},
+												pos: position{line: 2951, col: 11, offset: 93240},
 												expr: &anyMatcher{
-													line: 2951, col: 13, offset: 93188,
+													line: 2951, col: 13, offset: 93242,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2747, col: 5, offset: 87246},
+												pos:   position{line: 2747, col: 5, offset: 87300},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2747, col: 16, offset: 87257},
+													pos: position{line: 2747, col: 16, offset: 87311},
 													expr: &actionExpr{
-														pos: position{line: 2747, col: 17, offset: 87258},
+														pos: position{line: 2747, col: 17, offset: 87312},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2747, col: 17, offset: 87258},
+															pos: position{line: 2747, col: 17, offset: 87312},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2747, col: 17, offset: 87258},
+																	pos:   position{line: 2747, col: 17, offset: 87312},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2926, col: 12, offset: 92679},
+																		pos: position{line: 2926, col: 12, offset: 92733},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2926, col: 13, offset: 92680},
+																			pos: position{line: 2926, col: 13, offset: 92734},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2926, col: 13, offset: 92680},
+																					pos: position{line: 2926, col: 13, offset: 92734},
 																					expr: &litMatcher{
-																						pos:        position{line: 2926, col: 13, offset: 92680},
+																						pos:        position{line: 2926, col: 13, offset: 92734},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2926, col: 18, offset: 92685},
+																					pos: position{line: 2926, col: 18, offset: 92739},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2926, col: 18, offset: 92685},
+																						pos:        position{line: 2926, col: 18, offset: 92739},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -48333,7 +48369,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2747, col: 27, offset: 87268},
+																	pos:        position{line: 2747, col: 27, offset: 87322},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -48344,38 +48380,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2748, col: 5, offset: 87296},
+												pos:   position{line: 2748, col: 5, offset: 87350},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2748, col: 12, offset: 87303},
+													pos: position{line: 2748, col: 12, offset: 87357},
 													expr: &choiceExpr{
-														pos: position{line: 2749, col: 9, offset: 87313},
+														pos: position{line: 2749, col: 9, offset: 87367},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2749, col: 9, offset: 87313},
+																pos: position{line: 2749, col: 9, offset: 87367},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2749, col: 9, offset: 87313},
+																	pos:        position{line: 2749, col: 9, offset: 87367},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2750, col: 11, offset: 87360},
+																pos: position{line: 2750, col: 11, offset: 87414},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2750, col: 11, offset: 87360},
+																	pos:        position{line: 2750, col: 11, offset: 87414},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2751, col: 11, offset: 87408},
+																pos: position{line: 2751, col: 11, offset: 87462},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2751, col: 11, offset: 87408},
+																	pos:        position{line: 2751, col: 11, offset: 87462},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -48386,38 +48422,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2753, col: 5, offset: 87458},
+												pos:   position{line: 2753, col: 5, offset: 87512},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2753, col: 12, offset: 87465},
+													pos: position{line: 2753, col: 12, offset: 87519},
 													expr: &choiceExpr{
-														pos: position{line: 2754, col: 9, offset: 87475},
+														pos: position{line: 2754, col: 9, offset: 87529},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2754, col: 9, offset: 87475},
+																pos: position{line: 2754, col: 9, offset: 87529},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2754, col: 9, offset: 87475},
+																	pos:        position{line: 2754, col: 9, offset: 87529},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2755, col: 11, offset: 87522},
+																pos: position{line: 2755, col: 11, offset: 87576},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2755, col: 11, offset: 87522},
+																	pos:        position{line: 2755, col: 11, offset: 87576},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2756, col: 11, offset: 87572},
+																pos: position{line: 2756, col: 11, offset: 87626},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2756, col: 11, offset: 87572},
+																	pos:        position{line: 2756, col: 11, offset: 87626},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -48428,32 +48464,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2758, col: 5, offset: 87623},
+												pos:   position{line: 2758, col: 5, offset: 87677},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2758, col: 12, offset: 87630},
+													pos: position{line: 2758, col: 12, offset: 87684},
 													expr: &choiceExpr{
-														pos: position{line: 2758, col: 13, offset: 87631},
+														pos: position{line: 2758, col: 13, offset: 87685},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2926, col: 12, offset: 92679},
+																pos: position{line: 2926, col: 12, offset: 92733},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2926, col: 13, offset: 92680},
+																	pos: position{line: 2926, col: 13, offset: 92734},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2926, col: 13, offset: 92680},
+																			pos: position{line: 2926, col: 13, offset: 92734},
 																			expr: &litMatcher{
-																				pos:        position{line: 2926, col: 13, offset: 92680},
+																				pos:        position{line: 2926, col: 13, offset: 92734},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2926, col: 18, offset: 92685},
+																			pos: position{line: 2926, col: 18, offset: 92739},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2926, col: 18, offset: 92685},
+																				pos:        position{line: 2926, col: 18, offset: 92739},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -48464,10 +48500,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2758, col: 24, offset: 87642},
+																pos: position{line: 2758, col: 24, offset: 87696},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2758, col: 24, offset: 87642},
+																	pos:        position{line: 2758, col: 24, offset: 87696},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -48478,15 +48514,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2759, col: 5, offset: 87684},
+												pos:   position{line: 2759, col: 5, offset: 87738},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2759, col: 11, offset: 87690},
+													pos: position{line: 2759, col: 11, offset: 87744},
 													expr: &actionExpr{
-														pos: position{line: 2759, col: 12, offset: 87691},
+														pos: position{line: 2759, col: 12, offset: 87745},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2759, col: 12, offset: 87691},
+															pos:        position{line: 2759, col: 12, offset: 87745},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -48496,12 +48532,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2761, col: 5, offset: 87821},
+												pos:   position{line: 2761, col: 5, offset: 87875},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2761, col: 11, offset: 87827},
+													pos: position{line: 2761, col: 11, offset: 87881},
 													expr: &litMatcher{
-														pos:        position{line: 2761, col: 12, offset: 87828},
+														pos:        position{line: 2761, col: 12, offset: 87882},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -48509,7 +48545,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2762, col: 5, offset: 87838},
+												pos: position{line: 2762, col: 5, offset: 87892},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -48518,9 +48554,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2953, col: 8, offset: 93200},
+							pos: position{line: 2953, col: 8, offset: 93254},
 							expr: &anyMatcher{
-								line: 2953, col: 9, offset: 93201,
+								line: 2953, col: 9, offset: 93255,
 							},
 						},
 					},
@@ -48529,23 +48565,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2789, col: 1, offset: 88847},
+			pos:  position{line: 2789, col: 1, offset: 88901},
 			expr: &actionExpr{
-				pos: position{line: 2790, col: 5, offset: 88870},
+				pos: position{line: 2790, col: 5, offset: 88924},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2790, col: 5, offset: 88870},
+					pos: position{line: 2790, col: 5, offset: 88924},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2790, col: 5, offset: 88870},
+							pos:   position{line: 2790, col: 5, offset: 88924},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2813, col: 18, offset: 89611},
+								pos: position{line: 2813, col: 18, offset: 89665},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2813, col: 19, offset: 89612},
+									pos: position{line: 2813, col: 19, offset: 89666},
 									expr: &charClassMatcher{
-										pos:        position{line: 2813, col: 19, offset: 89612},
+										pos:        position{line: 2813, col: 19, offset: 89666},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48556,25 +48592,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2791, col: 5, offset: 88896},
+							pos: position{line: 2791, col: 5, offset: 88950},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2795, col: 5, offset: 89024},
+							pos:        position{line: 2795, col: 5, offset: 89078},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2796, col: 5, offset: 89034},
+							pos:   position{line: 2796, col: 5, offset: 89088},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2817, col: 19, offset: 89687},
+								pos: position{line: 2817, col: 19, offset: 89741},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2817, col: 19, offset: 89687},
+									pos: position{line: 2817, col: 19, offset: 89741},
 									expr: &charClassMatcher{
-										pos:        position{line: 2817, col: 19, offset: 89687},
+										pos:        position{line: 2817, col: 19, offset: 89741},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48584,36 +48620,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2797, col: 5, offset: 89062},
+							pos:   position{line: 2797, col: 5, offset: 89116},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2797, col: 17, offset: 89074},
+								pos:  position{line: 2797, col: 17, offset: 89128},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2956, col: 8, offset: 93250},
+							pos: position{line: 2956, col: 8, offset: 93304},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2943, col: 12, offset: 93023},
+									pos: position{line: 2943, col: 12, offset: 93077},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2943, col: 13, offset: 93024},
+										pos: position{line: 2943, col: 13, offset: 93078},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2943, col: 13, offset: 93024},
+												pos:        position{line: 2943, col: 13, offset: 93078},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 20, offset: 93031},
+												pos:        position{line: 2943, col: 20, offset: 93085},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 29, offset: 93040},
+												pos:        position{line: 2943, col: 29, offset: 93094},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -48622,9 +48658,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2953, col: 8, offset: 93200},
+									pos: position{line: 2953, col: 8, offset: 93254},
 									expr: &anyMatcher{
-										line: 2953, col: 9, offset: 93201,
+										line: 2953, col: 9, offset: 93255,
 									},
 								},
 							},
@@ -48635,23 +48671,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2801, col: 1, offset: 89222},
+			pos:  position{line: 2801, col: 1, offset: 89276},
 			expr: &actionExpr{
-				pos: position{line: 2802, col: 5, offset: 89246},
+				pos: position{line: 2802, col: 5, offset: 89300},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2802, col: 5, offset: 89246},
+					pos: position{line: 2802, col: 5, offset: 89300},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2802, col: 5, offset: 89246},
+							pos:   position{line: 2802, col: 5, offset: 89300},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2813, col: 18, offset: 89611},
+								pos: position{line: 2813, col: 18, offset: 89665},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2813, col: 19, offset: 89612},
+									pos: position{line: 2813, col: 19, offset: 89666},
 									expr: &charClassMatcher{
-										pos:        position{line: 2813, col: 19, offset: 89612},
+										pos:        position{line: 2813, col: 19, offset: 89666},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48662,25 +48698,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2803, col: 5, offset: 89272},
+							pos: position{line: 2803, col: 5, offset: 89326},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2807, col: 5, offset: 89400},
+							pos:        position{line: 2807, col: 5, offset: 89454},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2808, col: 5, offset: 89409},
+							pos:   position{line: 2808, col: 5, offset: 89463},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2817, col: 19, offset: 89687},
+								pos: position{line: 2817, col: 19, offset: 89741},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2817, col: 19, offset: 89687},
+									pos: position{line: 2817, col: 19, offset: 89741},
 									expr: &charClassMatcher{
-										pos:        position{line: 2817, col: 19, offset: 89687},
+										pos:        position{line: 2817, col: 19, offset: 89741},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48690,10 +48726,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2809, col: 5, offset: 89437},
+							pos:   position{line: 2809, col: 5, offset: 89491},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2809, col: 17, offset: 89449},
+								pos:  position{line: 2809, col: 17, offset: 89503},
 								name: "InlineAttributes",
 							},
 						},
@@ -48703,43 +48739,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2888, col: 1, offset: 91499},
+			pos:  position{line: 2888, col: 1, offset: 91553},
 			expr: &actionExpr{
-				pos: position{line: 2888, col: 17, offset: 91515},
+				pos: position{line: 2888, col: 17, offset: 91569},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2888, col: 17, offset: 91515},
+					pos:   position{line: 2888, col: 17, offset: 91569},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2905, col: 5, offset: 91969},
+						pos: position{line: 2905, col: 5, offset: 92023},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2905, col: 5, offset: 91969},
+							pos:   position{line: 2905, col: 5, offset: 92023},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2905, col: 14, offset: 91978},
+								pos: position{line: 2905, col: 14, offset: 92032},
 								expr: &choiceExpr{
-									pos: position{line: 2906, col: 9, offset: 91988},
+									pos: position{line: 2906, col: 9, offset: 92042},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2906, col: 9, offset: 91988},
+											pos: position{line: 2906, col: 9, offset: 92042},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2906, col: 9, offset: 91988},
+												pos: position{line: 2906, col: 9, offset: 92042},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2906, col: 9, offset: 91988},
+														pos: position{line: 2906, col: 9, offset: 92042},
 														expr: &litMatcher{
-															pos:        position{line: 2906, col: 10, offset: 91989},
+															pos:        position{line: 2906, col: 10, offset: 92043},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2907, col: 9, offset: 92017},
+														pos: position{line: 2907, col: 9, offset: 92071},
 														expr: &charClassMatcher{
-															pos:        position{line: 2907, col: 10, offset: 92018},
+															pos:        position{line: 2907, col: 10, offset: 92072},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -48750,27 +48786,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2910, col: 11, offset: 92230},
+											pos: position{line: 2910, col: 11, offset: 92284},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2910, col: 11, offset: 92230},
+													pos:        position{line: 2910, col: 11, offset: 92284},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2910, col: 19, offset: 92238},
+													pos: position{line: 2910, col: 19, offset: 92292},
 													expr: &seqExpr{
-														pos: position{line: 2910, col: 21, offset: 92240},
+														pos: position{line: 2910, col: 21, offset: 92294},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2910, col: 21, offset: 92240},
+																pos: position{line: 2910, col: 21, offset: 92294},
 																expr: &actionExpr{
-																	pos: position{line: 2934, col: 10, offset: 92852},
+																	pos: position{line: 2934, col: 10, offset: 92906},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2934, col: 10, offset: 92852},
+																		pos:        position{line: 2934, col: 10, offset: 92906},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48779,11 +48815,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2910, col: 28, offset: 92247},
+																pos: position{line: 2910, col: 28, offset: 92301},
 																expr: &notExpr{
-																	pos: position{line: 2953, col: 8, offset: 93200},
+																	pos: position{line: 2953, col: 8, offset: 93254},
 																	expr: &anyMatcher{
-																		line: 2953, col: 9, offset: 93201,
+																		line: 2953, col: 9, offset: 93255,
 																	},
 																},
 															},
@@ -49182,10 +49218,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2913, col: 11, offset: 92367},
+											pos: position{line: 2913, col: 11, offset: 92421},
 											run: (*parser).callonFileLocation101,
 											expr: &litMatcher{
-												pos:        position{line: 2913, col: 11, offset: 92367},
+												pos:        position{line: 2913, col: 11, offset: 92421},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -60929,7 +60965,7 @@ func (p *parser) callonLink2() (interface{}, error) {
 }
 
 func (c *current) onLink128() (interface{}, error) {
-	// `'
+	// no reference to an attribute `'
 	return string(c.text), nil
 
 }
@@ -60940,7 +60976,7 @@ func (p *parser) callonLink128() (interface{}, error) {
 	return p.cur.onLink128()
 }
 
-func (c *current) onLink131(local interface{}) (bool, error) {
+func (c *current) onLink138(local interface{}) (bool, error) {
 	// must not start or end with `.` nor contain `..`
 	return !strings.HasPrefix(local.(string), ".") &&
 		!strings.HasSuffix(local.(string), ".") &&
@@ -60948,10 +60984,10 @@ func (c *current) onLink131(local interface{}) (bool, error) {
 
 }
 
-func (p *parser) callonLink131() (bool, error) {
+func (p *parser) callonLink138() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink131(stack["local"])
+	return p.cur.onLink138(stack["local"])
 }
 
 func (c *current) onLink125(local interface{}) (interface{}, error) {
@@ -60965,38 +61001,38 @@ func (p *parser) callonLink125() (interface{}, error) {
 	return p.cur.onLink125(stack["local"])
 }
 
-func (c *current) onLink137() (interface{}, error) {
+func (c *current) onLink144() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonLink137() (interface{}, error) {
+func (p *parser) callonLink144() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink137()
+	return p.cur.onLink144()
 }
 
-func (c *current) onLink146(domain interface{}) (bool, error) {
+func (c *current) onLink153(domain interface{}) (bool, error) {
 	// must not end with `-`
 	return !strings.HasSuffix(domain.(string), "-"), nil
 
 }
 
-func (p *parser) callonLink146() (bool, error) {
+func (p *parser) callonLink153() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink146(stack["domain"])
+	return p.cur.onLink153(stack["domain"])
 }
 
-func (c *current) onLink134(domain interface{}) (interface{}, error) {
+func (c *current) onLink141(domain interface{}) (interface{}, error) {
 	return domain, nil
 
 }
 
-func (p *parser) callonLink134() (interface{}, error) {
+func (p *parser) callonLink141() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink134(stack["domain"])
+	return p.cur.onLink141(stack["domain"])
 }
 
 func (c *current) onLink122(local, domain interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 7f98da6..892d732 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1472,7 +1472,7 @@ EmailAddress <- local:(EmailAddressLocal) "@" domain:(EmailAddressDomain) {
 }
 
 EmailAddressLocal <- 
-    local:([\pL\pN!#$%&'*+-/=?^_`{|}~.]+ { // `'
+    local:((!("{" [\pL\pN_-]+ "}") [\pL\pN!#$%&'*+-/=?^_`{|}~.])+ { // no reference to an attribute `'
         return string(c.text), nil
     })
     &{
-- 
2.43.0


From 343622c5b32d8f75f0b7111e3a21c06b1c07adde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:53 +0000
Subject: [PATCH 61/75] fix: passthroughs in the text of links

---
 pkg/parser/parser.go  | 9080 +++++++++++++++++++++--------------------
 pkg/parser/parser.peg |    1 +
 2 files changed, 4543 insertions(+), 4538 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 2e73553..0b932eb 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 49, offset: 11042},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92906},
+														pos: position{line: 2935, col: 10, offset: 92962},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92906},
+															pos:        position{line: 2935, col: 10, offset: 92962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2956, col: 8, offset: 93304},
+													pos: position{line: 2957, col: 8, offset: 93360},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93077},
+															pos: position{line: 2944, col: 12, offset: 93133},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93078},
+																pos: position{line: 2944, col: 13, offset: 93134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93078},
+																		pos:        position{line: 2944, col: 13, offset: 93134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93085},
+																		pos:        position{line: 2944, col: 20, offset: 93141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93094},
+																		pos:        position{line: 2944, col: 29, offset: 93150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93254},
+															pos: position{line: 2954, col: 8, offset: 93310},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93255,
+																line: 2954, col: 9, offset: 93311,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 364, col: 39, offset: 11163},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92906},
+														pos: position{line: 2935, col: 10, offset: 92962},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92906},
+															pos:        position{line: 2935, col: 10, offset: 92962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2956, col: 8, offset: 93304},
+													pos: position{line: 2957, col: 8, offset: 93360},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93077},
+															pos: position{line: 2944, col: 12, offset: 93133},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93078},
+																pos: position{line: 2944, col: 13, offset: 93134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93078},
+																		pos:        position{line: 2944, col: 13, offset: 93134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93085},
+																		pos:        position{line: 2944, col: 20, offset: 93141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93094},
+																		pos:        position{line: 2944, col: 29, offset: 93150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93254},
+															pos: position{line: 2954, col: 8, offset: 93310},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93255,
+																line: 2954, col: 9, offset: 93311,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92906},
+														pos: position{line: 2935, col: 10, offset: 92962},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92906},
+															pos:        position{line: 2935, col: 10, offset: 92962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2953, col: 8, offset: 93254},
+													pos: position{line: 2954, col: 8, offset: 93310},
 													expr: &anyMatcher{
-														line: 2953, col: 9, offset: 93255,
+														line: 2954, col: 9, offset: 93311,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92906},
+														pos: position{line: 2935, col: 10, offset: 92962},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92906},
+															pos:        position{line: 2935, col: 10, offset: 92962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2953, col: 8, offset: 93254},
+													pos: position{line: 2954, col: 8, offset: 93310},
 													expr: &anyMatcher{
-														line: 2953, col: 9, offset: 93255,
+														line: 2954, col: 9, offset: 93311,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2926, col: 12, offset: 92733},
+																pos: position{line: 2927, col: 12, offset: 92789},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2926, col: 13, offset: 92734},
+																	pos: position{line: 2927, col: 13, offset: 92790},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2926, col: 13, offset: 92734},
+																			pos: position{line: 2927, col: 13, offset: 92790},
 																			expr: &litMatcher{
-																				pos:        position{line: 2926, col: 13, offset: 92734},
+																				pos:        position{line: 2927, col: 13, offset: 92790},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2926, col: 18, offset: 92739},
+																			pos: position{line: 2927, col: 18, offset: 92795},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2926, col: 18, offset: 92739},
+																				pos:        position{line: 2927, col: 18, offset: 92795},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92906},
+														pos: position{line: 2935, col: 10, offset: 92962},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92906},
+															pos:        position{line: 2935, col: 10, offset: 92962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92906},
+														pos: position{line: 2935, col: 10, offset: 92962},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92906},
+															pos:        position{line: 2935, col: 10, offset: 92962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2926, col: 12, offset: 92733},
+																pos: position{line: 2927, col: 12, offset: 92789},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2926, col: 13, offset: 92734},
+																	pos: position{line: 2927, col: 13, offset: 92790},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2926, col: 13, offset: 92734},
+																			pos: position{line: 2927, col: 13, offset: 92790},
 																			expr: &litMatcher{
-																				pos:        position{line: 2926, col: 13, offset: 92734},
+																				pos:        position{line: 2927, col: 13, offset: 92790},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2926, col: 18, offset: 92739},
+																			pos: position{line: 2927, col: 18, offset: 92795},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2926, col: 18, offset: 92739},
+																				pos:        position{line: 2927, col: 18, offset: 92795},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92906},
+														pos: position{line: 2935, col: 10, offset: 92962},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92906},
+															pos:        position{line: 2935, col: 10, offset: 92962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2953, col: 8, offset: 93254},
+													pos: position{line: 2954, col: 8, offset: 93310},
 													expr: &anyMatcher{
-														line: 2953, col: 9, offset: 93255,
+														line: 2954, col: 9, offset: 93311,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92906},
+														pos: position{line: 2935, col: 10, offset: 92962},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92906},
+															pos:        position{line: 2935, col: 10, offset: 92962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2953, col: 8, offset: 93254},
+													pos: position{line: 2954, col: 8, offset: 93310},
 													expr: &anyMatcher{
-														line: 2953, col: 9, offset: 93255,
+														line: 2954, col: 9, offset: 93311,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 749, col: 5, offset: 24130},
 													expr: &charClassMatcher{
-														pos:        position{line: 2824, col: 13, offset: 90001},
+														pos:        position{line: 2825, col: 13, offset: 90057},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 767, col: 8, offset: 24774},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92906},
+																				pos: position{line: 2935, col: 10, offset: 92962},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92906},
+																					pos:        position{line: 2935, col: 10, offset: 92962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93304},
+																			pos: position{line: 2957, col: 8, offset: 93360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93077},
+																					pos: position{line: 2944, col: 12, offset: 93133},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93078},
+																						pos: position{line: 2944, col: 13, offset: 93134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93078},
+																								pos:        position{line: 2944, col: 13, offset: 93134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93085},
+																								pos:        position{line: 2944, col: 20, offset: 93141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93094},
+																								pos:        position{line: 2944, col: 29, offset: 93150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 774, col: 8, offset: 25022},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92906},
+																				pos: position{line: 2935, col: 10, offset: 92962},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92906},
+																					pos:        position{line: 2935, col: 10, offset: 92962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93304},
+																			pos: position{line: 2957, col: 8, offset: 93360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93077},
+																					pos: position{line: 2944, col: 12, offset: 93133},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93078},
+																						pos: position{line: 2944, col: 13, offset: 93134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93078},
+																								pos:        position{line: 2944, col: 13, offset: 93134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93085},
+																								pos:        position{line: 2944, col: 20, offset: 93141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93094},
+																								pos:        position{line: 2944, col: 29, offset: 93150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 785, col: 52, offset: 25434},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92906},
+																				pos: position{line: 2935, col: 10, offset: 92962},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92906},
+																					pos:        position{line: 2935, col: 10, offset: 92962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93304},
+																			pos: position{line: 2957, col: 8, offset: 93360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93077},
+																					pos: position{line: 2944, col: 12, offset: 93133},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93078},
+																						pos: position{line: 2944, col: 13, offset: 93134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93078},
+																								pos:        position{line: 2944, col: 13, offset: 93134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93085},
+																								pos:        position{line: 2944, col: 20, offset: 93141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93094},
+																								pos:        position{line: 2944, col: 29, offset: 93150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 781, col: 8, offset: 25268},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92906},
+																				pos: position{line: 2935, col: 10, offset: 92962},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92906},
+																					pos:        position{line: 2935, col: 10, offset: 92962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93304},
+																			pos: position{line: 2957, col: 8, offset: 93360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93077},
+																					pos: position{line: 2944, col: 12, offset: 93133},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93078},
+																						pos: position{line: 2944, col: 13, offset: 93134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93078},
+																								pos:        position{line: 2944, col: 13, offset: 93134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93085},
+																								pos:        position{line: 2944, col: 20, offset: 93141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93094},
+																								pos:        position{line: 2944, col: 29, offset: 93150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 796, col: 8, offset: 25806},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92906},
+																				pos: position{line: 2935, col: 10, offset: 92962},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92906},
+																					pos:        position{line: 2935, col: 10, offset: 92962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93304},
+																			pos: position{line: 2957, col: 8, offset: 93360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93077},
+																					pos: position{line: 2944, col: 12, offset: 93133},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93078},
+																						pos: position{line: 2944, col: 13, offset: 93134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93078},
+																								pos:        position{line: 2944, col: 13, offset: 93134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93085},
+																								pos:        position{line: 2944, col: 20, offset: 93141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93094},
+																								pos:        position{line: 2944, col: 29, offset: 93150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 810, col: 8, offset: 26282},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92906},
+																				pos: position{line: 2935, col: 10, offset: 92962},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92906},
+																					pos:        position{line: 2935, col: 10, offset: 92962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93304},
+																			pos: position{line: 2957, col: 8, offset: 93360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93077},
+																					pos: position{line: 2944, col: 12, offset: 93133},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93078},
+																						pos: position{line: 2944, col: 13, offset: 93134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93078},
+																								pos:        position{line: 2944, col: 13, offset: 93134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93085},
+																								pos:        position{line: 2944, col: 20, offset: 93141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93094},
+																								pos:        position{line: 2944, col: 29, offset: 93150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 817, col: 8, offset: 26534},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92906},
+																				pos: position{line: 2935, col: 10, offset: 92962},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92906},
+																					pos:        position{line: 2935, col: 10, offset: 92962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93304},
+																			pos: position{line: 2957, col: 8, offset: 93360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93077},
+																					pos: position{line: 2944, col: 12, offset: 93133},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93078},
+																						pos: position{line: 2944, col: 13, offset: 93134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93078},
+																								pos:        position{line: 2944, col: 13, offset: 93134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93085},
+																								pos:        position{line: 2944, col: 20, offset: 93141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93094},
+																								pos:        position{line: 2944, col: 29, offset: 93150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 824, col: 8, offset: 26784},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92906},
+																				pos: position{line: 2935, col: 10, offset: 92962},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92906},
+																					pos:        position{line: 2935, col: 10, offset: 92962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93304},
+																			pos: position{line: 2957, col: 8, offset: 93360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93077},
+																					pos: position{line: 2944, col: 12, offset: 93133},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93078},
+																						pos: position{line: 2944, col: 13, offset: 93134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93078},
+																								pos:        position{line: 2944, col: 13, offset: 93134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93085},
+																								pos:        position{line: 2944, col: 20, offset: 93141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93094},
+																								pos:        position{line: 2944, col: 29, offset: 93150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 831, col: 8, offset: 27030},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92906},
+																				pos: position{line: 2935, col: 10, offset: 92962},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92906},
+																					pos:        position{line: 2935, col: 10, offset: 92962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93304},
+																			pos: position{line: 2957, col: 8, offset: 93360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93077},
+																					pos: position{line: 2944, col: 12, offset: 93133},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93078},
+																						pos: position{line: 2944, col: 13, offset: 93134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93078},
+																								pos:        position{line: 2944, col: 13, offset: 93134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93085},
+																								pos:        position{line: 2944, col: 20, offset: 93141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93094},
+																								pos:        position{line: 2944, col: 29, offset: 93150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2938, col: 11, offset: 92967},
+													pos: position{line: 2939, col: 11, offset: 93023},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2938, col: 11, offset: 92967},
+														pos: position{line: 2939, col: 11, offset: 93023},
 														expr: &charClassMatcher{
-															pos:        position{line: 2938, col: 11, offset: 92967},
+															pos:        position{line: 2939, col: 11, offset: 93023},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2884, col: 14, offset: 91499},
+													pos: position{line: 2885, col: 14, offset: 91555},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2884, col: 14, offset: 91499},
+														pos: position{line: 2885, col: 14, offset: 91555},
 														expr: &charClassMatcher{
-															pos:        position{line: 2884, col: 14, offset: 91499},
+															pos:        position{line: 2885, col: 14, offset: 91555},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2953, col: 8, offset: 93254},
+													pos: position{line: 2954, col: 8, offset: 93310},
 													expr: &anyMatcher{
-														line: 2953, col: 9, offset: 93255,
+														line: 2954, col: 9, offset: 93311,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2953, col: 8, offset: 93254},
+							pos: position{line: 2954, col: 8, offset: 93310},
 							expr: &anyMatcher{
-								line: 2953, col: 9, offset: 93255,
+								line: 2954, col: 9, offset: 93311,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2888, col: 17, offset: 91569},
+												pos: position{line: 2889, col: 17, offset: 91625},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2888, col: 17, offset: 91569},
+													pos:   position{line: 2889, col: 17, offset: 91625},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 5, offset: 92023},
+														pos: position{line: 2906, col: 5, offset: 92079},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2905, col: 5, offset: 92023},
+															pos:   position{line: 2906, col: 5, offset: 92079},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2905, col: 14, offset: 92032},
+																pos: position{line: 2906, col: 14, offset: 92088},
 																expr: &choiceExpr{
-																	pos: position{line: 2906, col: 9, offset: 92042},
+																	pos: position{line: 2907, col: 9, offset: 92098},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2906, col: 9, offset: 92042},
+																			pos: position{line: 2907, col: 9, offset: 92098},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2906, col: 9, offset: 92042},
+																				pos: position{line: 2907, col: 9, offset: 92098},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2906, col: 9, offset: 92042},
+																						pos: position{line: 2907, col: 9, offset: 92098},
 																						expr: &litMatcher{
-																							pos:        position{line: 2906, col: 10, offset: 92043},
+																							pos:        position{line: 2907, col: 10, offset: 92099},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2907, col: 9, offset: 92071},
+																						pos: position{line: 2908, col: 9, offset: 92127},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2907, col: 10, offset: 92072},
+																							pos:        position{line: 2908, col: 10, offset: 92128},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2910, col: 11, offset: 92284},
+																			pos: position{line: 2911, col: 11, offset: 92340},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2910, col: 11, offset: 92284},
+																					pos:        position{line: 2911, col: 11, offset: 92340},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2910, col: 19, offset: 92292},
+																					pos: position{line: 2911, col: 19, offset: 92348},
 																					expr: &seqExpr{
-																						pos: position{line: 2910, col: 21, offset: 92294},
+																						pos: position{line: 2911, col: 21, offset: 92350},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2910, col: 21, offset: 92294},
+																								pos: position{line: 2911, col: 21, offset: 92350},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92906},
+																									pos: position{line: 2935, col: 10, offset: 92962},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92906},
+																										pos:        position{line: 2935, col: 10, offset: 92962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2910, col: 28, offset: 92301},
+																								pos: position{line: 2911, col: 28, offset: 92357},
 																								expr: &notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -3088,10 +3088,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2913, col: 11, offset: 92421},
+																			pos: position{line: 2914, col: 11, offset: 92477},
 																			run: (*parser).callonFileInclusion108,
 																			expr: &litMatcher{
-																				pos:        position{line: 2913, col: 11, offset: 92421},
+																				pos:        position{line: 2914, col: 11, offset: 92477},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3120,10 +3120,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2934, col: 10, offset: 92906},
+								pos: position{line: 2935, col: 10, offset: 92962},
 								run: (*parser).callonFileInclusion113,
 								expr: &charClassMatcher{
-									pos:        position{line: 2934, col: 10, offset: 92906},
+									pos:        position{line: 2935, col: 10, offset: 92962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3132,28 +3132,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2956, col: 8, offset: 93304},
+							pos: position{line: 2957, col: 8, offset: 93360},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2943, col: 12, offset: 93077},
+									pos: position{line: 2944, col: 12, offset: 93133},
 									run: (*parser).callonFileInclusion116,
 									expr: &choiceExpr{
-										pos: position{line: 2943, col: 13, offset: 93078},
+										pos: position{line: 2944, col: 13, offset: 93134},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2943, col: 13, offset: 93078},
+												pos:        position{line: 2944, col: 13, offset: 93134},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 20, offset: 93085},
+												pos:        position{line: 2944, col: 20, offset: 93141},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 29, offset: 93094},
+												pos:        position{line: 2944, col: 29, offset: 93150},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3162,9 +3162,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2953, col: 8, offset: 93254},
+									pos: position{line: 2954, col: 8, offset: 93310},
 									expr: &anyMatcher{
-										line: 2953, col: 9, offset: 93255,
+										line: 2954, col: 9, offset: 93311,
 									},
 								},
 							},
@@ -3210,24 +3210,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2926, col: 12, offset: 92733},
+																				pos: position{line: 2927, col: 12, offset: 92789},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2926, col: 13, offset: 92734},
+																					pos: position{line: 2927, col: 13, offset: 92790},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2926, col: 13, offset: 92734},
+																							pos: position{line: 2927, col: 13, offset: 92790},
 																							expr: &litMatcher{
-																								pos:        position{line: 2926, col: 13, offset: 92734},
+																								pos:        position{line: 2927, col: 13, offset: 92790},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2926, col: 18, offset: 92739},
+																							pos: position{line: 2927, col: 18, offset: 92795},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2926, col: 18, offset: 92739},
+																								pos:        position{line: 2927, col: 18, offset: 92795},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3248,24 +3248,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2926, col: 12, offset: 92733},
+																				pos: position{line: 2927, col: 12, offset: 92789},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2926, col: 13, offset: 92734},
+																					pos: position{line: 2927, col: 13, offset: 92790},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2926, col: 13, offset: 92734},
+																							pos: position{line: 2927, col: 13, offset: 92790},
 																							expr: &litMatcher{
-																								pos:        position{line: 2926, col: 13, offset: 92734},
+																								pos:        position{line: 2927, col: 13, offset: 92790},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2926, col: 18, offset: 92739},
+																							pos: position{line: 2927, col: 18, offset: 92795},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2926, col: 18, offset: 92739},
+																								pos:        position{line: 2927, col: 18, offset: 92795},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3286,24 +3286,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2926, col: 12, offset: 92733},
+																		pos: position{line: 2927, col: 12, offset: 92789},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2926, col: 13, offset: 92734},
+																			pos: position{line: 2927, col: 13, offset: 92790},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2926, col: 13, offset: 92734},
+																					pos: position{line: 2927, col: 13, offset: 92790},
 																					expr: &litMatcher{
-																						pos:        position{line: 2926, col: 13, offset: 92734},
+																						pos:        position{line: 2927, col: 13, offset: 92790},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2926, col: 18, offset: 92739},
+																					pos: position{line: 2927, col: 18, offset: 92795},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2926, col: 18, offset: 92739},
+																						pos:        position{line: 2927, col: 18, offset: 92795},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3352,24 +3352,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2926, col: 12, offset: 92733},
+																									pos: position{line: 2927, col: 12, offset: 92789},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2926, col: 13, offset: 92734},
+																										pos: position{line: 2927, col: 13, offset: 92790},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2926, col: 13, offset: 92734},
+																												pos: position{line: 2927, col: 13, offset: 92790},
 																												expr: &litMatcher{
-																													pos:        position{line: 2926, col: 13, offset: 92734},
+																													pos:        position{line: 2927, col: 13, offset: 92790},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2926, col: 18, offset: 92739},
+																												pos: position{line: 2927, col: 18, offset: 92795},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2926, col: 18, offset: 92739},
+																													pos:        position{line: 2927, col: 18, offset: 92795},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3390,24 +3390,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2926, col: 12, offset: 92733},
+																									pos: position{line: 2927, col: 12, offset: 92789},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2926, col: 13, offset: 92734},
+																										pos: position{line: 2927, col: 13, offset: 92790},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2926, col: 13, offset: 92734},
+																												pos: position{line: 2927, col: 13, offset: 92790},
 																												expr: &litMatcher{
-																													pos:        position{line: 2926, col: 13, offset: 92734},
+																													pos:        position{line: 2927, col: 13, offset: 92790},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2926, col: 18, offset: 92739},
+																												pos: position{line: 2927, col: 18, offset: 92795},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2926, col: 18, offset: 92739},
+																													pos:        position{line: 2927, col: 18, offset: 92795},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3428,24 +3428,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2926, col: 12, offset: 92733},
+																							pos: position{line: 2927, col: 12, offset: 92789},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2926, col: 13, offset: 92734},
+																								pos: position{line: 2927, col: 13, offset: 92790},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2926, col: 13, offset: 92734},
+																										pos: position{line: 2927, col: 13, offset: 92790},
 																										expr: &litMatcher{
-																											pos:        position{line: 2926, col: 13, offset: 92734},
+																											pos:        position{line: 2927, col: 13, offset: 92790},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2926, col: 18, offset: 92739},
+																										pos: position{line: 2927, col: 18, offset: 92795},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2926, col: 18, offset: 92739},
+																											pos:        position{line: 2927, col: 18, offset: 92795},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3478,24 +3478,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2926, col: 12, offset: 92733},
+														pos: position{line: 2927, col: 12, offset: 92789},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2926, col: 13, offset: 92734},
+															pos: position{line: 2927, col: 13, offset: 92790},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2926, col: 13, offset: 92734},
+																	pos: position{line: 2927, col: 13, offset: 92790},
 																	expr: &litMatcher{
-																		pos:        position{line: 2926, col: 13, offset: 92734},
+																		pos:        position{line: 2927, col: 13, offset: 92790},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2926, col: 18, offset: 92739},
+																	pos: position{line: 2927, col: 18, offset: 92795},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2926, col: 18, offset: 92739},
+																		pos:        position{line: 2927, col: 18, offset: 92795},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3516,24 +3516,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2926, col: 12, offset: 92733},
+														pos: position{line: 2927, col: 12, offset: 92789},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2926, col: 13, offset: 92734},
+															pos: position{line: 2927, col: 13, offset: 92790},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2926, col: 13, offset: 92734},
+																	pos: position{line: 2927, col: 13, offset: 92790},
 																	expr: &litMatcher{
-																		pos:        position{line: 2926, col: 13, offset: 92734},
+																		pos:        position{line: 2927, col: 13, offset: 92790},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2926, col: 18, offset: 92739},
+																	pos: position{line: 2927, col: 18, offset: 92795},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2926, col: 18, offset: 92739},
+																		pos:        position{line: 2927, col: 18, offset: 92795},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3554,24 +3554,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2926, col: 12, offset: 92733},
+												pos: position{line: 2927, col: 12, offset: 92789},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2926, col: 13, offset: 92734},
+													pos: position{line: 2927, col: 13, offset: 92790},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2926, col: 13, offset: 92734},
+															pos: position{line: 2927, col: 13, offset: 92790},
 															expr: &litMatcher{
-																pos:        position{line: 2926, col: 13, offset: 92734},
+																pos:        position{line: 2927, col: 13, offset: 92790},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2926, col: 18, offset: 92739},
+															pos: position{line: 2927, col: 18, offset: 92795},
 															expr: &charClassMatcher{
-																pos:        position{line: 2926, col: 18, offset: 92739},
+																pos:        position{line: 2927, col: 18, offset: 92795},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3587,9 +3587,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2953, col: 8, offset: 93254},
+							pos: position{line: 2954, col: 8, offset: 93310},
 							expr: &anyMatcher{
-								line: 2953, col: 9, offset: 93255,
+								line: 2954, col: 9, offset: 93311,
 							},
 						},
 					},
@@ -3630,12 +3630,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2828, col: 14, offset: 90075},
+																		pos: position{line: 2829, col: 14, offset: 90131},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2828, col: 14, offset: 90075},
+																			pos: position{line: 2829, col: 14, offset: 90131},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2828, col: 14, offset: 90075},
+																				pos:        position{line: 2829, col: 14, offset: 90131},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3696,12 +3696,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2828, col: 14, offset: 90075},
+																				pos: position{line: 2829, col: 14, offset: 90131},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2828, col: 14, offset: 90075},
+																					pos: position{line: 2829, col: 14, offset: 90131},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2828, col: 14, offset: 90075},
+																						pos:        position{line: 2829, col: 14, offset: 90131},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3782,12 +3782,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2828, col: 14, offset: 90075},
+																							pos: position{line: 2829, col: 14, offset: 90131},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2828, col: 14, offset: 90075},
+																								pos: position{line: 2829, col: 14, offset: 90131},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2828, col: 14, offset: 90075},
+																									pos:        position{line: 2829, col: 14, offset: 90131},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3848,12 +3848,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2828, col: 14, offset: 90075},
+																									pos: position{line: 2829, col: 14, offset: 90131},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2828, col: 14, offset: 90075},
+																										pos: position{line: 2829, col: 14, offset: 90131},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2828, col: 14, offset: 90075},
+																											pos:        position{line: 2829, col: 14, offset: 90131},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3910,9 +3910,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2953, col: 8, offset: 93254},
+							pos: position{line: 2954, col: 8, offset: 93310},
 							expr: &anyMatcher{
-								line: 2953, col: 9, offset: 93255,
+								line: 2954, col: 9, offset: 93311,
 							},
 						},
 					},
@@ -3955,12 +3955,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2828, col: 14, offset: 90075},
+																pos: position{line: 2829, col: 14, offset: 90131},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2828, col: 14, offset: 90075},
+																	pos: position{line: 2829, col: 14, offset: 90131},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2828, col: 14, offset: 90075},
+																		pos:        position{line: 2829, col: 14, offset: 90131},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3998,12 +3998,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2828, col: 14, offset: 90075},
+																pos: position{line: 2829, col: 14, offset: 90131},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2828, col: 14, offset: 90075},
+																	pos: position{line: 2829, col: 14, offset: 90131},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2828, col: 14, offset: 90075},
+																		pos:        position{line: 2829, col: 14, offset: 90131},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4034,28 +4034,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2956, col: 8, offset: 93304},
+							pos: position{line: 2957, col: 8, offset: 93360},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2943, col: 12, offset: 93077},
+									pos: position{line: 2944, col: 12, offset: 93133},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2943, col: 13, offset: 93078},
+										pos: position{line: 2944, col: 13, offset: 93134},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2943, col: 13, offset: 93078},
+												pos:        position{line: 2944, col: 13, offset: 93134},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 20, offset: 93085},
+												pos:        position{line: 2944, col: 20, offset: 93141},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 29, offset: 93094},
+												pos:        position{line: 2944, col: 29, offset: 93150},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4064,9 +4064,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2953, col: 8, offset: 93254},
+									pos: position{line: 2954, col: 8, offset: 93310},
 									expr: &anyMatcher{
-										line: 2953, col: 9, offset: 93255,
+										line: 2954, col: 9, offset: 93311,
 									},
 								},
 							},
@@ -4085,9 +4085,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2951, col: 11, offset: 93240},
+							pos: position{line: 2952, col: 11, offset: 93296},
 							expr: &anyMatcher{
-								line: 2951, col: 13, offset: 93242,
+								line: 2952, col: 13, offset: 93298,
 							},
 						},
 						&labeledExpr{
@@ -4182,10 +4182,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 49, offset: 11042},
 														expr: &actionExpr{
-															pos: position{line: 2934, col: 10, offset: 92906},
+															pos: position{line: 2935, col: 10, offset: 92962},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2934, col: 10, offset: 92906},
+																pos:        position{line: 2935, col: 10, offset: 92962},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4194,28 +4194,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2956, col: 8, offset: 93304},
+														pos: position{line: 2957, col: 8, offset: 93360},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93077},
+																pos: position{line: 2944, col: 12, offset: 93133},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93078},
+																	pos: position{line: 2944, col: 13, offset: 93134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93078},
+																			pos:        position{line: 2944, col: 13, offset: 93134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93085},
+																			pos:        position{line: 2944, col: 20, offset: 93141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93094},
+																			pos:        position{line: 2944, col: 29, offset: 93150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4224,9 +4224,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93254},
+																pos: position{line: 2954, col: 8, offset: 93310},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93255,
+																	line: 2954, col: 9, offset: 93311,
 																},
 															},
 														},
@@ -4287,10 +4287,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 364, col: 39, offset: 11163},
 														expr: &actionExpr{
-															pos: position{line: 2934, col: 10, offset: 92906},
+															pos: position{line: 2935, col: 10, offset: 92962},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2934, col: 10, offset: 92906},
+																pos:        position{line: 2935, col: 10, offset: 92962},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4299,28 +4299,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2956, col: 8, offset: 93304},
+														pos: position{line: 2957, col: 8, offset: 93360},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93077},
+																pos: position{line: 2944, col: 12, offset: 93133},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93078},
+																	pos: position{line: 2944, col: 13, offset: 93134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93078},
+																			pos:        position{line: 2944, col: 13, offset: 93134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93085},
+																			pos:        position{line: 2944, col: 20, offset: 93141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93094},
+																			pos:        position{line: 2944, col: 29, offset: 93150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4329,9 +4329,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93254},
+																pos: position{line: 2954, col: 8, offset: 93310},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93255,
+																	line: 2954, col: 9, offset: 93311,
 																},
 															},
 														},
@@ -4346,18 +4346,18 @@ var g = &grammar{
 												pos: position{line: 702, col: 14, offset: 22577},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2951, col: 11, offset: 93240},
+														pos: position{line: 2952, col: 11, offset: 93296},
 														expr: &anyMatcher{
-															line: 2951, col: 13, offset: 93242,
+															line: 2952, col: 13, offset: 93298,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 702, col: 21, offset: 22584},
 														expr: &actionExpr{
-															pos: position{line: 2934, col: 10, offset: 92906},
+															pos: position{line: 2935, col: 10, offset: 92962},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2934, col: 10, offset: 92906},
+																pos:        position{line: 2935, col: 10, offset: 92962},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4366,28 +4366,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2956, col: 8, offset: 93304},
+														pos: position{line: 2957, col: 8, offset: 93360},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93077},
+																pos: position{line: 2944, col: 12, offset: 93133},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93078},
+																	pos: position{line: 2944, col: 13, offset: 93134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93078},
+																			pos:        position{line: 2944, col: 13, offset: 93134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93085},
+																			pos:        position{line: 2944, col: 20, offset: 93141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93094},
+																			pos:        position{line: 2944, col: 29, offset: 93150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4396,9 +4396,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93254},
+																pos: position{line: 2954, col: 8, offset: 93310},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93255,
+																	line: 2954, col: 9, offset: 93311,
 																},
 															},
 														},
@@ -4457,10 +4457,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 767, col: 8, offset: 24774},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92906},
+																		pos: position{line: 2935, col: 10, offset: 92962},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92906},
+																			pos:        position{line: 2935, col: 10, offset: 92962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4469,28 +4469,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93304},
+																	pos: position{line: 2957, col: 8, offset: 93360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93077},
+																			pos: position{line: 2944, col: 12, offset: 93133},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93078},
+																				pos: position{line: 2944, col: 13, offset: 93134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93078},
+																						pos:        position{line: 2944, col: 13, offset: 93134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93085},
+																						pos:        position{line: 2944, col: 20, offset: 93141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93094},
+																						pos:        position{line: 2944, col: 29, offset: 93150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4499,9 +4499,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93254},
+																			pos: position{line: 2954, col: 8, offset: 93310},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93255,
+																				line: 2954, col: 9, offset: 93311,
 																			},
 																		},
 																	},
@@ -4562,10 +4562,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 767, col: 8, offset: 24774},
 																									expr: &actionExpr{
-																										pos: position{line: 2934, col: 10, offset: 92906},
+																										pos: position{line: 2935, col: 10, offset: 92962},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2934, col: 10, offset: 92906},
+																											pos:        position{line: 2935, col: 10, offset: 92962},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4574,28 +4574,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2956, col: 8, offset: 93304},
+																									pos: position{line: 2957, col: 8, offset: 93360},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2943, col: 12, offset: 93077},
+																											pos: position{line: 2944, col: 12, offset: 93133},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2943, col: 13, offset: 93078},
+																												pos: position{line: 2944, col: 13, offset: 93134},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 13, offset: 93078},
+																														pos:        position{line: 2944, col: 13, offset: 93134},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 20, offset: 93085},
+																														pos:        position{line: 2944, col: 20, offset: 93141},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 29, offset: 93094},
+																														pos:        position{line: 2944, col: 29, offset: 93150},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4604,9 +4604,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2953, col: 8, offset: 93254},
+																											pos: position{line: 2954, col: 8, offset: 93310},
 																											expr: &anyMatcher{
-																												line: 2953, col: 9, offset: 93255,
+																												line: 2954, col: 9, offset: 93311,
 																											},
 																										},
 																									},
@@ -4615,9 +4615,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93254},
+																						pos: position{line: 2954, col: 8, offset: 93310},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93255,
+																							line: 2954, col: 9, offset: 93311,
 																						},
 																					},
 																				},
@@ -4633,21 +4633,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2951, col: 11, offset: 93240},
+																							pos: position{line: 2952, col: 11, offset: 93296},
 																							expr: &anyMatcher{
-																								line: 2951, col: 13, offset: 93242,
+																								line: 2952, col: 13, offset: 93298,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 13, offset: 91432},
+																								pos: position{line: 2881, col: 13, offset: 91488},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2880, col: 13, offset: 91432},
+																									pos: position{line: 2881, col: 13, offset: 91488},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 13, offset: 91432},
+																										pos:        position{line: 2881, col: 13, offset: 91488},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4657,28 +4657,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4687,9 +4687,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -4745,10 +4745,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 767, col: 8, offset: 24774},
 																				expr: &actionExpr{
-																					pos: position{line: 2934, col: 10, offset: 92906},
+																					pos: position{line: 2935, col: 10, offset: 92962},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2934, col: 10, offset: 92906},
+																						pos:        position{line: 2935, col: 10, offset: 92962},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4757,28 +4757,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2956, col: 8, offset: 93304},
+																				pos: position{line: 2957, col: 8, offset: 93360},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2943, col: 12, offset: 93077},
+																						pos: position{line: 2944, col: 12, offset: 93133},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2943, col: 13, offset: 93078},
+																							pos: position{line: 2944, col: 13, offset: 93134},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 13, offset: 93078},
+																									pos:        position{line: 2944, col: 13, offset: 93134},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 20, offset: 93085},
+																									pos:        position{line: 2944, col: 20, offset: 93141},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 29, offset: 93094},
+																									pos:        position{line: 2944, col: 29, offset: 93150},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4787,9 +4787,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93254},
+																						pos: position{line: 2954, col: 8, offset: 93310},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93255,
+																							line: 2954, col: 9, offset: 93311,
 																						},
 																					},
 																				},
@@ -4798,9 +4798,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2953, col: 8, offset: 93254},
+																	pos: position{line: 2954, col: 8, offset: 93310},
 																	expr: &anyMatcher{
-																		line: 2953, col: 9, offset: 93255,
+																		line: 2954, col: 9, offset: 93311,
 																	},
 																},
 															},
@@ -4855,10 +4855,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 774, col: 8, offset: 25022},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92906},
+																			pos: position{line: 2935, col: 10, offset: 92962},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92906},
+																				pos:        position{line: 2935, col: 10, offset: 92962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4867,28 +4867,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93304},
+																		pos: position{line: 2957, col: 8, offset: 93360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4897,9 +4897,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93254},
+																				pos: position{line: 2954, col: 8, offset: 93310},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93255,
+																					line: 2954, col: 9, offset: 93311,
 																				},
 																			},
 																		},
@@ -4971,10 +4971,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 774, col: 8, offset: 25022},
 																												expr: &actionExpr{
-																													pos: position{line: 2934, col: 10, offset: 92906},
+																													pos: position{line: 2935, col: 10, offset: 92962},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2934, col: 10, offset: 92906},
+																														pos:        position{line: 2935, col: 10, offset: 92962},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4983,28 +4983,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2956, col: 8, offset: 93304},
+																												pos: position{line: 2957, col: 8, offset: 93360},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2943, col: 12, offset: 93077},
+																														pos: position{line: 2944, col: 12, offset: 93133},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2943, col: 13, offset: 93078},
+																															pos: position{line: 2944, col: 13, offset: 93134},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 13, offset: 93078},
+																																	pos:        position{line: 2944, col: 13, offset: 93134},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 20, offset: 93085},
+																																	pos:        position{line: 2944, col: 20, offset: 93141},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 29, offset: 93094},
+																																	pos:        position{line: 2944, col: 29, offset: 93150},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5013,9 +5013,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2953, col: 8, offset: 93254},
+																														pos: position{line: 2954, col: 8, offset: 93310},
 																														expr: &anyMatcher{
-																															line: 2953, col: 9, offset: 93255,
+																															line: 2954, col: 9, offset: 93311,
 																														},
 																													},
 																												},
@@ -5031,9 +5031,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93254},
+																						pos: position{line: 2954, col: 8, offset: 93310},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93255,
+																							line: 2954, col: 9, offset: 93311,
 																						},
 																					},
 																				},
@@ -5049,21 +5049,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2951, col: 11, offset: 93240},
+																							pos: position{line: 2952, col: 11, offset: 93296},
 																							expr: &anyMatcher{
-																								line: 2951, col: 13, offset: 93242,
+																								line: 2952, col: 13, offset: 93298,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 13, offset: 91432},
+																								pos: position{line: 2881, col: 13, offset: 91488},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2880, col: 13, offset: 91432},
+																									pos: position{line: 2881, col: 13, offset: 91488},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 13, offset: 91432},
+																										pos:        position{line: 2881, col: 13, offset: 91488},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5073,28 +5073,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5103,9 +5103,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -5170,10 +5170,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 774, col: 8, offset: 25022},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92906},
+																									pos: position{line: 2935, col: 10, offset: 92962},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92906},
+																										pos:        position{line: 2935, col: 10, offset: 92962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5182,28 +5182,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2956, col: 8, offset: 93304},
+																								pos: position{line: 2957, col: 8, offset: 93360},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2943, col: 12, offset: 93077},
+																										pos: position{line: 2944, col: 12, offset: 93133},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2943, col: 13, offset: 93078},
+																											pos: position{line: 2944, col: 13, offset: 93134},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 13, offset: 93078},
+																													pos:        position{line: 2944, col: 13, offset: 93134},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 20, offset: 93085},
+																													pos:        position{line: 2944, col: 20, offset: 93141},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 29, offset: 93094},
+																													pos:        position{line: 2944, col: 29, offset: 93150},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5212,9 +5212,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93254},
+																										pos: position{line: 2954, col: 8, offset: 93310},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93255,
+																											line: 2954, col: 9, offset: 93311,
 																										},
 																									},
 																								},
@@ -5230,9 +5230,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93254},
+																		pos: position{line: 2954, col: 8, offset: 93310},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93255,
+																			line: 2954, col: 9, offset: 93311,
 																		},
 																	},
 																},
@@ -5284,10 +5284,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 785, col: 52, offset: 25434},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92906},
+																			pos: position{line: 2935, col: 10, offset: 92962},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92906},
+																				pos:        position{line: 2935, col: 10, offset: 92962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5296,28 +5296,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93304},
+																		pos: position{line: 2957, col: 8, offset: 93360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5326,9 +5326,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93254},
+																				pos: position{line: 2954, col: 8, offset: 93310},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93255,
+																					line: 2954, col: 9, offset: 93311,
 																				},
 																			},
 																		},
@@ -5362,10 +5362,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 988, col: 40, offset: 31237},
 																						expr: &actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92906},
+																							pos: position{line: 2935, col: 10, offset: 92962},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92906},
+																								pos:        position{line: 2935, col: 10, offset: 92962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5374,28 +5374,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93304},
+																						pos: position{line: 2957, col: 8, offset: 93360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93077},
+																								pos: position{line: 2944, col: 12, offset: 93133},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93078},
+																									pos: position{line: 2944, col: 13, offset: 93134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93078},
+																											pos:        position{line: 2944, col: 13, offset: 93134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93085},
+																											pos:        position{line: 2944, col: 20, offset: 93141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93094},
+																											pos:        position{line: 2944, col: 29, offset: 93150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5404,9 +5404,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93254},
+																								pos: position{line: 2954, col: 8, offset: 93310},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93255,
+																									line: 2954, col: 9, offset: 93311,
 																								},
 																							},
 																						},
@@ -5424,21 +5424,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2951, col: 11, offset: 93240},
+																							pos: position{line: 2952, col: 11, offset: 93296},
 																							expr: &anyMatcher{
-																								line: 2951, col: 13, offset: 93242,
+																								line: 2952, col: 13, offset: 93298,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 13, offset: 91432},
+																								pos: position{line: 2881, col: 13, offset: 91488},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2880, col: 13, offset: 91432},
+																									pos: position{line: 2881, col: 13, offset: 91488},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 13, offset: 91432},
+																										pos:        position{line: 2881, col: 13, offset: 91488},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5448,28 +5448,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5478,9 +5478,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -5508,10 +5508,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 988, col: 40, offset: 31237},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92906},
+																		pos: position{line: 2935, col: 10, offset: 92962},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92906},
+																			pos:        position{line: 2935, col: 10, offset: 92962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5520,28 +5520,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93304},
+																	pos: position{line: 2957, col: 8, offset: 93360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93077},
+																			pos: position{line: 2944, col: 12, offset: 93133},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93078},
+																				pos: position{line: 2944, col: 13, offset: 93134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93078},
+																						pos:        position{line: 2944, col: 13, offset: 93134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93085},
+																						pos:        position{line: 2944, col: 20, offset: 93141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93094},
+																						pos:        position{line: 2944, col: 29, offset: 93150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5550,9 +5550,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93254},
+																			pos: position{line: 2954, col: 8, offset: 93310},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93255,
+																				line: 2954, col: 9, offset: 93311,
 																			},
 																		},
 																	},
@@ -5609,10 +5609,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 781, col: 8, offset: 25268},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92906},
+																			pos: position{line: 2935, col: 10, offset: 92962},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92906},
+																				pos:        position{line: 2935, col: 10, offset: 92962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5621,28 +5621,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93304},
+																		pos: position{line: 2957, col: 8, offset: 93360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5651,9 +5651,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93254},
+																				pos: position{line: 2954, col: 8, offset: 93310},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93255,
+																					line: 2954, col: 9, offset: 93311,
 																				},
 																			},
 																		},
@@ -5725,10 +5725,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 781, col: 8, offset: 25268},
 																												expr: &actionExpr{
-																													pos: position{line: 2934, col: 10, offset: 92906},
+																													pos: position{line: 2935, col: 10, offset: 92962},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2934, col: 10, offset: 92906},
+																														pos:        position{line: 2935, col: 10, offset: 92962},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5737,28 +5737,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2956, col: 8, offset: 93304},
+																												pos: position{line: 2957, col: 8, offset: 93360},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2943, col: 12, offset: 93077},
+																														pos: position{line: 2944, col: 12, offset: 93133},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2943, col: 13, offset: 93078},
+																															pos: position{line: 2944, col: 13, offset: 93134},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 13, offset: 93078},
+																																	pos:        position{line: 2944, col: 13, offset: 93134},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 20, offset: 93085},
+																																	pos:        position{line: 2944, col: 20, offset: 93141},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 29, offset: 93094},
+																																	pos:        position{line: 2944, col: 29, offset: 93150},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5767,9 +5767,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2953, col: 8, offset: 93254},
+																														pos: position{line: 2954, col: 8, offset: 93310},
 																														expr: &anyMatcher{
-																															line: 2953, col: 9, offset: 93255,
+																															line: 2954, col: 9, offset: 93311,
 																														},
 																													},
 																												},
@@ -5785,9 +5785,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93254},
+																						pos: position{line: 2954, col: 8, offset: 93310},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93255,
+																							line: 2954, col: 9, offset: 93311,
 																						},
 																					},
 																				},
@@ -5803,21 +5803,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2951, col: 11, offset: 93240},
+																							pos: position{line: 2952, col: 11, offset: 93296},
 																							expr: &anyMatcher{
-																								line: 2951, col: 13, offset: 93242,
+																								line: 2952, col: 13, offset: 93298,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 13, offset: 91432},
+																								pos: position{line: 2881, col: 13, offset: 91488},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2880, col: 13, offset: 91432},
+																									pos: position{line: 2881, col: 13, offset: 91488},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 13, offset: 91432},
+																										pos:        position{line: 2881, col: 13, offset: 91488},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5827,28 +5827,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5857,9 +5857,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -5924,10 +5924,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 781, col: 8, offset: 25268},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92906},
+																									pos: position{line: 2935, col: 10, offset: 92962},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92906},
+																										pos:        position{line: 2935, col: 10, offset: 92962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5936,28 +5936,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2956, col: 8, offset: 93304},
+																								pos: position{line: 2957, col: 8, offset: 93360},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2943, col: 12, offset: 93077},
+																										pos: position{line: 2944, col: 12, offset: 93133},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2943, col: 13, offset: 93078},
+																											pos: position{line: 2944, col: 13, offset: 93134},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 13, offset: 93078},
+																													pos:        position{line: 2944, col: 13, offset: 93134},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 20, offset: 93085},
+																													pos:        position{line: 2944, col: 20, offset: 93141},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 29, offset: 93094},
+																													pos:        position{line: 2944, col: 29, offset: 93150},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5966,9 +5966,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93254},
+																										pos: position{line: 2954, col: 8, offset: 93310},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93255,
+																											line: 2954, col: 9, offset: 93311,
 																										},
 																									},
 																								},
@@ -5984,9 +5984,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93254},
+																		pos: position{line: 2954, col: 8, offset: 93310},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93255,
+																			line: 2954, col: 9, offset: 93311,
 																		},
 																	},
 																},
@@ -6042,10 +6042,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 796, col: 8, offset: 25806},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92906},
+																			pos: position{line: 2935, col: 10, offset: 92962},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92906},
+																				pos:        position{line: 2935, col: 10, offset: 92962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6054,28 +6054,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93304},
+																		pos: position{line: 2957, col: 8, offset: 93360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6084,9 +6084,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93254},
+																				pos: position{line: 2954, col: 8, offset: 93310},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93255,
+																					line: 2954, col: 9, offset: 93311,
 																				},
 																			},
 																		},
@@ -6158,10 +6158,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 796, col: 8, offset: 25806},
 																												expr: &actionExpr{
-																													pos: position{line: 2934, col: 10, offset: 92906},
+																													pos: position{line: 2935, col: 10, offset: 92962},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2934, col: 10, offset: 92906},
+																														pos:        position{line: 2935, col: 10, offset: 92962},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6170,28 +6170,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2956, col: 8, offset: 93304},
+																												pos: position{line: 2957, col: 8, offset: 93360},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2943, col: 12, offset: 93077},
+																														pos: position{line: 2944, col: 12, offset: 93133},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2943, col: 13, offset: 93078},
+																															pos: position{line: 2944, col: 13, offset: 93134},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 13, offset: 93078},
+																																	pos:        position{line: 2944, col: 13, offset: 93134},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 20, offset: 93085},
+																																	pos:        position{line: 2944, col: 20, offset: 93141},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 29, offset: 93094},
+																																	pos:        position{line: 2944, col: 29, offset: 93150},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6200,9 +6200,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2953, col: 8, offset: 93254},
+																														pos: position{line: 2954, col: 8, offset: 93310},
 																														expr: &anyMatcher{
-																															line: 2953, col: 9, offset: 93255,
+																															line: 2954, col: 9, offset: 93311,
 																														},
 																													},
 																												},
@@ -6218,9 +6218,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93254},
+																						pos: position{line: 2954, col: 8, offset: 93310},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93255,
+																							line: 2954, col: 9, offset: 93311,
 																						},
 																					},
 																				},
@@ -6236,21 +6236,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2951, col: 11, offset: 93240},
+																							pos: position{line: 2952, col: 11, offset: 93296},
 																							expr: &anyMatcher{
-																								line: 2951, col: 13, offset: 93242,
+																								line: 2952, col: 13, offset: 93298,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 13, offset: 91432},
+																								pos: position{line: 2881, col: 13, offset: 91488},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2880, col: 13, offset: 91432},
+																									pos: position{line: 2881, col: 13, offset: 91488},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 13, offset: 91432},
+																										pos:        position{line: 2881, col: 13, offset: 91488},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6260,28 +6260,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6290,9 +6290,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -6357,10 +6357,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 796, col: 8, offset: 25806},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92906},
+																									pos: position{line: 2935, col: 10, offset: 92962},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92906},
+																										pos:        position{line: 2935, col: 10, offset: 92962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6369,28 +6369,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2956, col: 8, offset: 93304},
+																								pos: position{line: 2957, col: 8, offset: 93360},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2943, col: 12, offset: 93077},
+																										pos: position{line: 2944, col: 12, offset: 93133},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2943, col: 13, offset: 93078},
+																											pos: position{line: 2944, col: 13, offset: 93134},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 13, offset: 93078},
+																													pos:        position{line: 2944, col: 13, offset: 93134},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 20, offset: 93085},
+																													pos:        position{line: 2944, col: 20, offset: 93141},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 29, offset: 93094},
+																													pos:        position{line: 2944, col: 29, offset: 93150},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6399,9 +6399,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93254},
+																										pos: position{line: 2954, col: 8, offset: 93310},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93255,
+																											line: 2954, col: 9, offset: 93311,
 																										},
 																									},
 																								},
@@ -6417,9 +6417,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93254},
+																		pos: position{line: 2954, col: 8, offset: 93310},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93255,
+																			line: 2954, col: 9, offset: 93311,
 																		},
 																	},
 																},
@@ -6475,10 +6475,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 810, col: 8, offset: 26282},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92906},
+																			pos: position{line: 2935, col: 10, offset: 92962},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92906},
+																				pos:        position{line: 2935, col: 10, offset: 92962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6487,28 +6487,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93304},
+																		pos: position{line: 2957, col: 8, offset: 93360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6517,9 +6517,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93254},
+																				pos: position{line: 2954, col: 8, offset: 93310},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93255,
+																					line: 2954, col: 9, offset: 93311,
 																				},
 																			},
 																		},
@@ -6591,10 +6591,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 810, col: 8, offset: 26282},
 																												expr: &actionExpr{
-																													pos: position{line: 2934, col: 10, offset: 92906},
+																													pos: position{line: 2935, col: 10, offset: 92962},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2934, col: 10, offset: 92906},
+																														pos:        position{line: 2935, col: 10, offset: 92962},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6603,28 +6603,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2956, col: 8, offset: 93304},
+																												pos: position{line: 2957, col: 8, offset: 93360},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2943, col: 12, offset: 93077},
+																														pos: position{line: 2944, col: 12, offset: 93133},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2943, col: 13, offset: 93078},
+																															pos: position{line: 2944, col: 13, offset: 93134},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 13, offset: 93078},
+																																	pos:        position{line: 2944, col: 13, offset: 93134},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 20, offset: 93085},
+																																	pos:        position{line: 2944, col: 20, offset: 93141},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 29, offset: 93094},
+																																	pos:        position{line: 2944, col: 29, offset: 93150},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6633,9 +6633,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2953, col: 8, offset: 93254},
+																														pos: position{line: 2954, col: 8, offset: 93310},
 																														expr: &anyMatcher{
-																															line: 2953, col: 9, offset: 93255,
+																															line: 2954, col: 9, offset: 93311,
 																														},
 																													},
 																												},
@@ -6651,9 +6651,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93254},
+																						pos: position{line: 2954, col: 8, offset: 93310},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93255,
+																							line: 2954, col: 9, offset: 93311,
 																						},
 																					},
 																				},
@@ -6669,21 +6669,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2951, col: 11, offset: 93240},
+																							pos: position{line: 2952, col: 11, offset: 93296},
 																							expr: &anyMatcher{
-																								line: 2951, col: 13, offset: 93242,
+																								line: 2952, col: 13, offset: 93298,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 13, offset: 91432},
+																								pos: position{line: 2881, col: 13, offset: 91488},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2880, col: 13, offset: 91432},
+																									pos: position{line: 2881, col: 13, offset: 91488},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 13, offset: 91432},
+																										pos:        position{line: 2881, col: 13, offset: 91488},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6693,28 +6693,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6723,9 +6723,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -6790,10 +6790,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 810, col: 8, offset: 26282},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92906},
+																									pos: position{line: 2935, col: 10, offset: 92962},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92906},
+																										pos:        position{line: 2935, col: 10, offset: 92962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6802,28 +6802,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2956, col: 8, offset: 93304},
+																								pos: position{line: 2957, col: 8, offset: 93360},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2943, col: 12, offset: 93077},
+																										pos: position{line: 2944, col: 12, offset: 93133},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2943, col: 13, offset: 93078},
+																											pos: position{line: 2944, col: 13, offset: 93134},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 13, offset: 93078},
+																													pos:        position{line: 2944, col: 13, offset: 93134},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 20, offset: 93085},
+																													pos:        position{line: 2944, col: 20, offset: 93141},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 29, offset: 93094},
+																													pos:        position{line: 2944, col: 29, offset: 93150},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6832,9 +6832,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93254},
+																										pos: position{line: 2954, col: 8, offset: 93310},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93255,
+																											line: 2954, col: 9, offset: 93311,
 																										},
 																									},
 																								},
@@ -6850,9 +6850,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93254},
+																		pos: position{line: 2954, col: 8, offset: 93310},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93255,
+																			line: 2954, col: 9, offset: 93311,
 																		},
 																	},
 																},
@@ -6886,18 +6886,18 @@ var g = &grammar{
 																				pos: position{line: 702, col: 14, offset: 22577},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2951, col: 11, offset: 93240},
+																						pos: position{line: 2952, col: 11, offset: 93296},
 																						expr: &anyMatcher{
-																							line: 2951, col: 13, offset: 93242,
+																							line: 2952, col: 13, offset: 93298,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 702, col: 21, offset: 22584},
 																						expr: &actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92906},
+																							pos: position{line: 2935, col: 10, offset: 92962},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92906},
+																								pos:        position{line: 2935, col: 10, offset: 92962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6906,28 +6906,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93304},
+																						pos: position{line: 2957, col: 8, offset: 93360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93077},
+																								pos: position{line: 2944, col: 12, offset: 93133},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93078},
+																									pos: position{line: 2944, col: 13, offset: 93134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93078},
+																											pos:        position{line: 2944, col: 13, offset: 93134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93085},
+																											pos:        position{line: 2944, col: 20, offset: 93141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93094},
+																											pos:        position{line: 2944, col: 29, offset: 93150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6936,9 +6936,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93254},
+																								pos: position{line: 2954, col: 8, offset: 93310},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93255,
+																									line: 2954, col: 9, offset: 93311,
 																								},
 																							},
 																						},
@@ -6957,12 +6957,12 @@ var g = &grammar{
 																		pos:   position{line: 1009, col: 5, offset: 31772},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2884, col: 14, offset: 91499},
+																			pos: position{line: 2885, col: 14, offset: 91555},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2884, col: 14, offset: 91499},
+																				pos: position{line: 2885, col: 14, offset: 91555},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2884, col: 14, offset: 91499},
+																					pos:        position{line: 2885, col: 14, offset: 91555},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -6972,28 +6972,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93304},
+																		pos: position{line: 2957, col: 8, offset: 93360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7002,9 +7002,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93254},
+																				pos: position{line: 2954, col: 8, offset: 93310},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93255,
+																					line: 2954, col: 9, offset: 93311,
 																				},
 																			},
 																		},
@@ -7036,18 +7036,18 @@ var g = &grammar{
 																							pos: position{line: 702, col: 14, offset: 22577},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2951, col: 11, offset: 93240},
+																									pos: position{line: 2952, col: 11, offset: 93296},
 																									expr: &anyMatcher{
-																										line: 2951, col: 13, offset: 93242,
+																										line: 2952, col: 13, offset: 93298,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 702, col: 21, offset: 22584},
 																									expr: &actionExpr{
-																										pos: position{line: 2934, col: 10, offset: 92906},
+																										pos: position{line: 2935, col: 10, offset: 92962},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2934, col: 10, offset: 92906},
+																											pos:        position{line: 2935, col: 10, offset: 92962},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7056,28 +7056,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2956, col: 8, offset: 93304},
+																									pos: position{line: 2957, col: 8, offset: 93360},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2943, col: 12, offset: 93077},
+																											pos: position{line: 2944, col: 12, offset: 93133},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2943, col: 13, offset: 93078},
+																												pos: position{line: 2944, col: 13, offset: 93134},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 13, offset: 93078},
+																														pos:        position{line: 2944, col: 13, offset: 93134},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 20, offset: 93085},
+																														pos:        position{line: 2944, col: 20, offset: 93141},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 29, offset: 93094},
+																														pos:        position{line: 2944, col: 29, offset: 93150},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7086,9 +7086,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2953, col: 8, offset: 93254},
+																											pos: position{line: 2954, col: 8, offset: 93310},
 																											expr: &anyMatcher{
-																												line: 2953, col: 9, offset: 93255,
+																												line: 2954, col: 9, offset: 93311,
 																											},
 																										},
 																									},
@@ -7107,12 +7107,12 @@ var g = &grammar{
 																					pos:   position{line: 1009, col: 5, offset: 31772},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2884, col: 14, offset: 91499},
+																						pos: position{line: 2885, col: 14, offset: 91555},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2884, col: 14, offset: 91499},
+																							pos: position{line: 2885, col: 14, offset: 91555},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2884, col: 14, offset: 91499},
+																								pos:        position{line: 2885, col: 14, offset: 91555},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7122,28 +7122,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2956, col: 8, offset: 93304},
+																					pos: position{line: 2957, col: 8, offset: 93360},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2943, col: 12, offset: 93077},
+																							pos: position{line: 2944, col: 12, offset: 93133},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2943, col: 13, offset: 93078},
+																								pos: position{line: 2944, col: 13, offset: 93134},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 13, offset: 93078},
+																										pos:        position{line: 2944, col: 13, offset: 93134},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 20, offset: 93085},
+																										pos:        position{line: 2944, col: 20, offset: 93141},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 29, offset: 93094},
+																										pos:        position{line: 2944, col: 29, offset: 93150},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7152,9 +7152,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93254},
+																							pos: position{line: 2954, col: 8, offset: 93310},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93255,
+																								line: 2954, col: 9, offset: 93311,
 																							},
 																						},
 																					},
@@ -7172,12 +7172,12 @@ var g = &grammar{
 																					pos:   position{line: 1816, col: 5, offset: 58966},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2884, col: 14, offset: 91499},
+																						pos: position{line: 2885, col: 14, offset: 91555},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2884, col: 14, offset: 91499},
+																							pos: position{line: 2885, col: 14, offset: 91555},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2884, col: 14, offset: 91499},
+																								pos:        position{line: 2885, col: 14, offset: 91555},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7191,28 +7191,28 @@ var g = &grammar{
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2956, col: 8, offset: 93304},
+																					pos: position{line: 2957, col: 8, offset: 93360},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2943, col: 12, offset: 93077},
+																							pos: position{line: 2944, col: 12, offset: 93133},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2943, col: 13, offset: 93078},
+																								pos: position{line: 2944, col: 13, offset: 93134},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 13, offset: 93078},
+																										pos:        position{line: 2944, col: 13, offset: 93134},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 20, offset: 93085},
+																										pos:        position{line: 2944, col: 20, offset: 93141},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 29, offset: 93094},
+																										pos:        position{line: 2944, col: 29, offset: 93150},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7221,9 +7221,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93254},
+																							pos: position{line: 2954, col: 8, offset: 93310},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93255,
+																								line: 2954, col: 9, offset: 93311,
 																							},
 																						},
 																					},
@@ -7270,10 +7270,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 803, col: 8, offset: 26037},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92906},
+																			pos: position{line: 2935, col: 10, offset: 92962},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92906},
+																				pos:        position{line: 2935, col: 10, offset: 92962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7282,28 +7282,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93304},
+																		pos: position{line: 2957, col: 8, offset: 93360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7312,9 +7312,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93254},
+																				pos: position{line: 2954, col: 8, offset: 93310},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93255,
+																					line: 2954, col: 9, offset: 93311,
 																				},
 																			},
 																		},
@@ -7362,10 +7362,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 803, col: 8, offset: 26037},
 																									expr: &actionExpr{
-																										pos: position{line: 2934, col: 10, offset: 92906},
+																										pos: position{line: 2935, col: 10, offset: 92962},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2934, col: 10, offset: 92906},
+																											pos:        position{line: 2935, col: 10, offset: 92962},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7374,28 +7374,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2956, col: 8, offset: 93304},
+																									pos: position{line: 2957, col: 8, offset: 93360},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2943, col: 12, offset: 93077},
+																											pos: position{line: 2944, col: 12, offset: 93133},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2943, col: 13, offset: 93078},
+																												pos: position{line: 2944, col: 13, offset: 93134},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 13, offset: 93078},
+																														pos:        position{line: 2944, col: 13, offset: 93134},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 20, offset: 93085},
+																														pos:        position{line: 2944, col: 20, offset: 93141},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 29, offset: 93094},
+																														pos:        position{line: 2944, col: 29, offset: 93150},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7404,9 +7404,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2953, col: 8, offset: 93254},
+																											pos: position{line: 2954, col: 8, offset: 93310},
 																											expr: &anyMatcher{
-																												line: 2953, col: 9, offset: 93255,
+																												line: 2954, col: 9, offset: 93311,
 																											},
 																										},
 																									},
@@ -7415,9 +7415,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93254},
+																						pos: position{line: 2954, col: 8, offset: 93310},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93255,
+																							line: 2954, col: 9, offset: 93311,
 																						},
 																					},
 																				},
@@ -7433,21 +7433,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2951, col: 11, offset: 93240},
+																							pos: position{line: 2952, col: 11, offset: 93296},
 																							expr: &anyMatcher{
-																								line: 2951, col: 13, offset: 93242,
+																								line: 2952, col: 13, offset: 93298,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 13, offset: 91432},
+																								pos: position{line: 2881, col: 13, offset: 91488},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2880, col: 13, offset: 91432},
+																									pos: position{line: 2881, col: 13, offset: 91488},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 13, offset: 91432},
+																										pos:        position{line: 2881, col: 13, offset: 91488},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7457,28 +7457,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7487,9 +7487,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -7534,10 +7534,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 803, col: 8, offset: 26037},
 																					expr: &actionExpr{
-																						pos: position{line: 2934, col: 10, offset: 92906},
+																						pos: position{line: 2935, col: 10, offset: 92962},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2934, col: 10, offset: 92906},
+																							pos:        position{line: 2935, col: 10, offset: 92962},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7546,28 +7546,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2956, col: 8, offset: 93304},
+																					pos: position{line: 2957, col: 8, offset: 93360},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2943, col: 12, offset: 93077},
+																							pos: position{line: 2944, col: 12, offset: 93133},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2943, col: 13, offset: 93078},
+																								pos: position{line: 2944, col: 13, offset: 93134},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 13, offset: 93078},
+																										pos:        position{line: 2944, col: 13, offset: 93134},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 20, offset: 93085},
+																										pos:        position{line: 2944, col: 20, offset: 93141},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 29, offset: 93094},
+																										pos:        position{line: 2944, col: 29, offset: 93150},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7576,9 +7576,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93254},
+																							pos: position{line: 2954, col: 8, offset: 93310},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93255,
+																								line: 2954, col: 9, offset: 93311,
 																							},
 																						},
 																					},
@@ -7587,9 +7587,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93254},
+																		pos: position{line: 2954, col: 8, offset: 93310},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93255,
+																			line: 2954, col: 9, offset: 93311,
 																		},
 																	},
 																},
@@ -7645,10 +7645,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 817, col: 8, offset: 26534},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92906},
+																			pos: position{line: 2935, col: 10, offset: 92962},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92906},
+																				pos:        position{line: 2935, col: 10, offset: 92962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7657,28 +7657,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93304},
+																		pos: position{line: 2957, col: 8, offset: 93360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7687,9 +7687,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93254},
+																				pos: position{line: 2954, col: 8, offset: 93310},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93255,
+																					line: 2954, col: 9, offset: 93311,
 																				},
 																			},
 																		},
@@ -7761,10 +7761,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 817, col: 8, offset: 26534},
 																												expr: &actionExpr{
-																													pos: position{line: 2934, col: 10, offset: 92906},
+																													pos: position{line: 2935, col: 10, offset: 92962},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2934, col: 10, offset: 92906},
+																														pos:        position{line: 2935, col: 10, offset: 92962},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7773,28 +7773,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2956, col: 8, offset: 93304},
+																												pos: position{line: 2957, col: 8, offset: 93360},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2943, col: 12, offset: 93077},
+																														pos: position{line: 2944, col: 12, offset: 93133},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2943, col: 13, offset: 93078},
+																															pos: position{line: 2944, col: 13, offset: 93134},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 13, offset: 93078},
+																																	pos:        position{line: 2944, col: 13, offset: 93134},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 20, offset: 93085},
+																																	pos:        position{line: 2944, col: 20, offset: 93141},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 29, offset: 93094},
+																																	pos:        position{line: 2944, col: 29, offset: 93150},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7803,9 +7803,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2953, col: 8, offset: 93254},
+																														pos: position{line: 2954, col: 8, offset: 93310},
 																														expr: &anyMatcher{
-																															line: 2953, col: 9, offset: 93255,
+																															line: 2954, col: 9, offset: 93311,
 																														},
 																													},
 																												},
@@ -7821,9 +7821,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93254},
+																						pos: position{line: 2954, col: 8, offset: 93310},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93255,
+																							line: 2954, col: 9, offset: 93311,
 																						},
 																					},
 																				},
@@ -7839,21 +7839,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2951, col: 11, offset: 93240},
+																							pos: position{line: 2952, col: 11, offset: 93296},
 																							expr: &anyMatcher{
-																								line: 2951, col: 13, offset: 93242,
+																								line: 2952, col: 13, offset: 93298,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 13, offset: 91432},
+																								pos: position{line: 2881, col: 13, offset: 91488},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2880, col: 13, offset: 91432},
+																									pos: position{line: 2881, col: 13, offset: 91488},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 13, offset: 91432},
+																										pos:        position{line: 2881, col: 13, offset: 91488},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7863,28 +7863,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7893,9 +7893,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -7960,10 +7960,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 817, col: 8, offset: 26534},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92906},
+																									pos: position{line: 2935, col: 10, offset: 92962},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92906},
+																										pos:        position{line: 2935, col: 10, offset: 92962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7972,28 +7972,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2956, col: 8, offset: 93304},
+																								pos: position{line: 2957, col: 8, offset: 93360},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2943, col: 12, offset: 93077},
+																										pos: position{line: 2944, col: 12, offset: 93133},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2943, col: 13, offset: 93078},
+																											pos: position{line: 2944, col: 13, offset: 93134},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 13, offset: 93078},
+																													pos:        position{line: 2944, col: 13, offset: 93134},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 20, offset: 93085},
+																													pos:        position{line: 2944, col: 20, offset: 93141},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 29, offset: 93094},
+																													pos:        position{line: 2944, col: 29, offset: 93150},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8002,9 +8002,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93254},
+																										pos: position{line: 2954, col: 8, offset: 93310},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93255,
+																											line: 2954, col: 9, offset: 93311,
 																										},
 																									},
 																								},
@@ -8020,9 +8020,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93254},
+																		pos: position{line: 2954, col: 8, offset: 93310},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93255,
+																			line: 2954, col: 9, offset: 93311,
 																		},
 																	},
 																},
@@ -8078,10 +8078,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 824, col: 8, offset: 26784},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92906},
+																			pos: position{line: 2935, col: 10, offset: 92962},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92906},
+																				pos:        position{line: 2935, col: 10, offset: 92962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8090,28 +8090,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93304},
+																		pos: position{line: 2957, col: 8, offset: 93360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8120,9 +8120,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93254},
+																				pos: position{line: 2954, col: 8, offset: 93310},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93255,
+																					line: 2954, col: 9, offset: 93311,
 																				},
 																			},
 																		},
@@ -8194,10 +8194,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 824, col: 8, offset: 26784},
 																												expr: &actionExpr{
-																													pos: position{line: 2934, col: 10, offset: 92906},
+																													pos: position{line: 2935, col: 10, offset: 92962},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2934, col: 10, offset: 92906},
+																														pos:        position{line: 2935, col: 10, offset: 92962},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8206,28 +8206,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2956, col: 8, offset: 93304},
+																												pos: position{line: 2957, col: 8, offset: 93360},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2943, col: 12, offset: 93077},
+																														pos: position{line: 2944, col: 12, offset: 93133},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2943, col: 13, offset: 93078},
+																															pos: position{line: 2944, col: 13, offset: 93134},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 13, offset: 93078},
+																																	pos:        position{line: 2944, col: 13, offset: 93134},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 20, offset: 93085},
+																																	pos:        position{line: 2944, col: 20, offset: 93141},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 29, offset: 93094},
+																																	pos:        position{line: 2944, col: 29, offset: 93150},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8236,9 +8236,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2953, col: 8, offset: 93254},
+																														pos: position{line: 2954, col: 8, offset: 93310},
 																														expr: &anyMatcher{
-																															line: 2953, col: 9, offset: 93255,
+																															line: 2954, col: 9, offset: 93311,
 																														},
 																													},
 																												},
@@ -8254,9 +8254,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93254},
+																						pos: position{line: 2954, col: 8, offset: 93310},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93255,
+																							line: 2954, col: 9, offset: 93311,
 																						},
 																					},
 																				},
@@ -8272,21 +8272,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2951, col: 11, offset: 93240},
+																							pos: position{line: 2952, col: 11, offset: 93296},
 																							expr: &anyMatcher{
-																								line: 2951, col: 13, offset: 93242,
+																								line: 2952, col: 13, offset: 93298,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 13, offset: 91432},
+																								pos: position{line: 2881, col: 13, offset: 91488},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2880, col: 13, offset: 91432},
+																									pos: position{line: 2881, col: 13, offset: 91488},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 13, offset: 91432},
+																										pos:        position{line: 2881, col: 13, offset: 91488},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8296,28 +8296,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8326,9 +8326,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -8393,10 +8393,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 824, col: 8, offset: 26784},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92906},
+																									pos: position{line: 2935, col: 10, offset: 92962},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92906},
+																										pos:        position{line: 2935, col: 10, offset: 92962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8405,28 +8405,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2956, col: 8, offset: 93304},
+																								pos: position{line: 2957, col: 8, offset: 93360},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2943, col: 12, offset: 93077},
+																										pos: position{line: 2944, col: 12, offset: 93133},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2943, col: 13, offset: 93078},
+																											pos: position{line: 2944, col: 13, offset: 93134},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 13, offset: 93078},
+																													pos:        position{line: 2944, col: 13, offset: 93134},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 20, offset: 93085},
+																													pos:        position{line: 2944, col: 20, offset: 93141},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 29, offset: 93094},
+																													pos:        position{line: 2944, col: 29, offset: 93150},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8435,9 +8435,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93254},
+																										pos: position{line: 2954, col: 8, offset: 93310},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93255,
+																											line: 2954, col: 9, offset: 93311,
 																										},
 																									},
 																								},
@@ -8453,9 +8453,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93254},
+																		pos: position{line: 2954, col: 8, offset: 93310},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93255,
+																			line: 2954, col: 9, offset: 93311,
 																		},
 																	},
 																},
@@ -8511,10 +8511,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 831, col: 8, offset: 27030},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92906},
+																			pos: position{line: 2935, col: 10, offset: 92962},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92906},
+																				pos:        position{line: 2935, col: 10, offset: 92962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8523,28 +8523,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93304},
+																		pos: position{line: 2957, col: 8, offset: 93360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8553,9 +8553,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93254},
+																				pos: position{line: 2954, col: 8, offset: 93310},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93255,
+																					line: 2954, col: 9, offset: 93311,
 																				},
 																			},
 																		},
@@ -8627,10 +8627,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 831, col: 8, offset: 27030},
 																												expr: &actionExpr{
-																													pos: position{line: 2934, col: 10, offset: 92906},
+																													pos: position{line: 2935, col: 10, offset: 92962},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2934, col: 10, offset: 92906},
+																														pos:        position{line: 2935, col: 10, offset: 92962},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8639,28 +8639,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2956, col: 8, offset: 93304},
+																												pos: position{line: 2957, col: 8, offset: 93360},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2943, col: 12, offset: 93077},
+																														pos: position{line: 2944, col: 12, offset: 93133},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2943, col: 13, offset: 93078},
+																															pos: position{line: 2944, col: 13, offset: 93134},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 13, offset: 93078},
+																																	pos:        position{line: 2944, col: 13, offset: 93134},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 20, offset: 93085},
+																																	pos:        position{line: 2944, col: 20, offset: 93141},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 29, offset: 93094},
+																																	pos:        position{line: 2944, col: 29, offset: 93150},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8669,9 +8669,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2953, col: 8, offset: 93254},
+																														pos: position{line: 2954, col: 8, offset: 93310},
 																														expr: &anyMatcher{
-																															line: 2953, col: 9, offset: 93255,
+																															line: 2954, col: 9, offset: 93311,
 																														},
 																													},
 																												},
@@ -8687,9 +8687,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93254},
+																						pos: position{line: 2954, col: 8, offset: 93310},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93255,
+																							line: 2954, col: 9, offset: 93311,
 																						},
 																					},
 																				},
@@ -8705,21 +8705,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2951, col: 11, offset: 93240},
+																							pos: position{line: 2952, col: 11, offset: 93296},
 																							expr: &anyMatcher{
-																								line: 2951, col: 13, offset: 93242,
+																								line: 2952, col: 13, offset: 93298,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 13, offset: 91432},
+																								pos: position{line: 2881, col: 13, offset: 91488},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2880, col: 13, offset: 91432},
+																									pos: position{line: 2881, col: 13, offset: 91488},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 13, offset: 91432},
+																										pos:        position{line: 2881, col: 13, offset: 91488},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8729,28 +8729,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8759,9 +8759,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -8826,10 +8826,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 831, col: 8, offset: 27030},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92906},
+																									pos: position{line: 2935, col: 10, offset: 92962},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92906},
+																										pos:        position{line: 2935, col: 10, offset: 92962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8838,28 +8838,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2956, col: 8, offset: 93304},
+																								pos: position{line: 2957, col: 8, offset: 93360},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2943, col: 12, offset: 93077},
+																										pos: position{line: 2944, col: 12, offset: 93133},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2943, col: 13, offset: 93078},
+																											pos: position{line: 2944, col: 13, offset: 93134},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 13, offset: 93078},
+																													pos:        position{line: 2944, col: 13, offset: 93134},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 20, offset: 93085},
+																													pos:        position{line: 2944, col: 20, offset: 93141},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 29, offset: 93094},
+																													pos:        position{line: 2944, col: 29, offset: 93150},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8868,9 +8868,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93254},
+																										pos: position{line: 2954, col: 8, offset: 93310},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93255,
+																											line: 2954, col: 9, offset: 93311,
 																										},
 																									},
 																								},
@@ -8886,9 +8886,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93254},
+																		pos: position{line: 2954, col: 8, offset: 93310},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93255,
+																			line: 2954, col: 9, offset: 93311,
 																		},
 																	},
 																},
@@ -8899,52 +8899,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2779, col: 18, offset: 88496},
+											pos: position{line: 2780, col: 18, offset: 88552},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2779, col: 18, offset: 88496},
+												pos: position{line: 2780, col: 18, offset: 88552},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2780, col: 9, offset: 88506},
+														pos: position{line: 2781, col: 9, offset: 88562},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2780, col: 9, offset: 88506},
+																pos:        position{line: 2781, col: 9, offset: 88562},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2781, col: 11, offset: 88542},
+																pos:        position{line: 2782, col: 11, offset: 88598},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2781, col: 19, offset: 88550},
+																pos:        position{line: 2782, col: 19, offset: 88606},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2781, col: 29, offset: 88560},
+																pos:        position{line: 2782, col: 29, offset: 88616},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2781, col: 37, offset: 88568},
+																pos:        position{line: 2782, col: 37, offset: 88624},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2781, col: 47, offset: 88578},
+																pos:        position{line: 2782, col: 47, offset: 88634},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2781, col: 55, offset: 88586},
+																pos:        position{line: 2782, col: 55, offset: 88642},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -8952,12 +8952,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2782, col: 11, offset: 88644},
+														pos: position{line: 2783, col: 11, offset: 88700},
 														expr: &actionExpr{
-															pos: position{line: 2934, col: 10, offset: 92906},
+															pos: position{line: 2935, col: 10, offset: 92962},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2934, col: 10, offset: 92906},
+																pos:        position{line: 2935, col: 10, offset: 92962},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -8966,28 +8966,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2956, col: 8, offset: 93304},
+														pos: position{line: 2957, col: 8, offset: 93360},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93077},
+																pos: position{line: 2944, col: 12, offset: 93133},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93078},
+																	pos: position{line: 2944, col: 13, offset: 93134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93078},
+																			pos:        position{line: 2944, col: 13, offset: 93134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93085},
+																			pos:        position{line: 2944, col: 20, offset: 93141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93094},
+																			pos:        position{line: 2944, col: 29, offset: 93150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -8996,36 +8996,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93254},
+																pos: position{line: 2954, col: 8, offset: 93310},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93255,
+																	line: 2954, col: 9, offset: 93311,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2956, col: 8, offset: 93304},
+														pos: position{line: 2957, col: 8, offset: 93360},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93077},
+																pos: position{line: 2944, col: 12, offset: 93133},
 																run: (*parser).callonDocumentFragment1098,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93078},
+																	pos: position{line: 2944, col: 13, offset: 93134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93078},
+																			pos:        position{line: 2944, col: 13, offset: 93134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93085},
+																			pos:        position{line: 2944, col: 20, offset: 93141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93094},
+																			pos:        position{line: 2944, col: 29, offset: 93150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9034,9 +9034,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93254},
+																pos: position{line: 2954, col: 8, offset: 93310},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93255,
+																	line: 2954, col: 9, offset: 93311,
 																},
 															},
 														},
@@ -9049,24 +9049,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2663, col: 5, offset: 85253},
+											pos: position{line: 2664, col: 5, offset: 85309},
 											run: (*parser).callonDocumentFragment1106,
 											expr: &seqExpr{
-												pos: position{line: 2663, col: 5, offset: 85253},
+												pos: position{line: 2664, col: 5, offset: 85309},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2669, col: 19, offset: 85430},
+														pos:        position{line: 2670, col: 19, offset: 85486},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2669, col: 26, offset: 85437},
+														pos: position{line: 2670, col: 26, offset: 85493},
 														expr: &actionExpr{
-															pos: position{line: 2934, col: 10, offset: 92906},
+															pos: position{line: 2935, col: 10, offset: 92962},
 															run: (*parser).callonDocumentFragment1110,
 															expr: &charClassMatcher{
-																pos:        position{line: 2934, col: 10, offset: 92906},
+																pos:        position{line: 2935, col: 10, offset: 92962},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9075,28 +9075,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2956, col: 8, offset: 93304},
+														pos: position{line: 2957, col: 8, offset: 93360},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93077},
+																pos: position{line: 2944, col: 12, offset: 93133},
 																run: (*parser).callonDocumentFragment1113,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93078},
+																	pos: position{line: 2944, col: 13, offset: 93134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93078},
+																			pos:        position{line: 2944, col: 13, offset: 93134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93085},
+																			pos:        position{line: 2944, col: 20, offset: 93141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93094},
+																			pos:        position{line: 2944, col: 29, offset: 93150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9105,20 +9105,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93254},
+																pos: position{line: 2954, col: 8, offset: 93310},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93255,
+																	line: 2954, col: 9, offset: 93311,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2664, col: 5, offset: 85277},
+														pos:   position{line: 2665, col: 5, offset: 85333},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2664, col: 11, offset: 85283},
+															pos: position{line: 2665, col: 11, offset: 85339},
 															expr: &choiceExpr{
-																pos: position{line: 2664, col: 12, offset: 85284},
+																pos: position{line: 2665, col: 12, offset: 85340},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 702, col: 14, offset: 22577},
@@ -9127,18 +9127,18 @@ var g = &grammar{
 																			pos: position{line: 702, col: 14, offset: 22577},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2951, col: 11, offset: 93240},
+																					pos: position{line: 2952, col: 11, offset: 93296},
 																					expr: &anyMatcher{
-																						line: 2951, col: 13, offset: 93242,
+																						line: 2952, col: 13, offset: 93298,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 702, col: 21, offset: 22584},
 																					expr: &actionExpr{
-																						pos: position{line: 2934, col: 10, offset: 92906},
+																						pos: position{line: 2935, col: 10, offset: 92962},
 																						run: (*parser).callonDocumentFragment1128,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2934, col: 10, offset: 92906},
+																							pos:        position{line: 2935, col: 10, offset: 92962},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9147,28 +9147,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2956, col: 8, offset: 93304},
+																					pos: position{line: 2957, col: 8, offset: 93360},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2943, col: 12, offset: 93077},
+																							pos: position{line: 2944, col: 12, offset: 93133},
 																							run: (*parser).callonDocumentFragment1131,
 																							expr: &choiceExpr{
-																								pos: position{line: 2943, col: 13, offset: 93078},
+																								pos: position{line: 2944, col: 13, offset: 93134},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 13, offset: 93078},
+																										pos:        position{line: 2944, col: 13, offset: 93134},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 20, offset: 93085},
+																										pos:        position{line: 2944, col: 20, offset: 93141},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 29, offset: 93094},
+																										pos:        position{line: 2944, col: 29, offset: 93150},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9177,9 +9177,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93254},
+																							pos: position{line: 2954, col: 8, offset: 93310},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93255,
+																								line: 2954, col: 9, offset: 93311,
 																							},
 																						},
 																					},
@@ -9188,36 +9188,36 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2537, col: 22, offset: 81684},
+																		pos: position{line: 2538, col: 22, offset: 81740},
 																		run: (*parser).callonDocumentFragment1138,
 																		expr: &seqExpr{
-																			pos: position{line: 2537, col: 22, offset: 81684},
+																			pos: position{line: 2538, col: 22, offset: 81740},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2542, col: 31, offset: 81934},
+																					pos:        position{line: 2543, col: 31, offset: 81990},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																				&notExpr{
-																					pos: position{line: 2542, col: 36, offset: 81939},
+																					pos: position{line: 2543, col: 36, offset: 81995},
 																					expr: &litMatcher{
-																						pos:        position{line: 2542, col: 37, offset: 81940},
+																						pos:        position{line: 2543, col: 37, offset: 81996},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2537, col: 49, offset: 81711},
+																					pos:   position{line: 2538, col: 49, offset: 81767},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2880, col: 13, offset: 91432},
+																						pos: position{line: 2881, col: 13, offset: 91488},
 																						run: (*parser).callonDocumentFragment1144,
 																						expr: &zeroOrMoreExpr{
-																							pos: position{line: 2880, col: 13, offset: 91432},
+																							pos: position{line: 2881, col: 13, offset: 91488},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2880, col: 13, offset: 91432},
+																								pos:        position{line: 2881, col: 13, offset: 91488},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -9227,28 +9227,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2956, col: 8, offset: 93304},
+																					pos: position{line: 2957, col: 8, offset: 93360},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2943, col: 12, offset: 93077},
+																							pos: position{line: 2944, col: 12, offset: 93133},
 																							run: (*parser).callonDocumentFragment1148,
 																							expr: &choiceExpr{
-																								pos: position{line: 2943, col: 13, offset: 93078},
+																								pos: position{line: 2944, col: 13, offset: 93134},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 13, offset: 93078},
+																										pos:        position{line: 2944, col: 13, offset: 93134},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 20, offset: 93085},
+																										pos:        position{line: 2944, col: 20, offset: 93141},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 29, offset: 93094},
+																										pos:        position{line: 2944, col: 29, offset: 93150},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9257,9 +9257,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93254},
+																							pos: position{line: 2954, col: 8, offset: 93310},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93255,
+																								line: 2954, col: 9, offset: 93311,
 																							},
 																						},
 																					},
@@ -9268,32 +9268,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2676, col: 5, offset: 85549},
+																		pos: position{line: 2677, col: 5, offset: 85605},
 																		run: (*parser).callonDocumentFragment1155,
 																		expr: &seqExpr{
-																			pos: position{line: 2676, col: 5, offset: 85549},
+																			pos: position{line: 2677, col: 5, offset: 85605},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2676, col: 5, offset: 85549},
+																					pos: position{line: 2677, col: 5, offset: 85605},
 																					expr: &choiceExpr{
-																						pos: position{line: 2673, col: 22, offset: 85510},
+																						pos: position{line: 2674, col: 22, offset: 85566},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2669, col: 19, offset: 85430},
+																								pos: position{line: 2670, col: 19, offset: 85486},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2669, col: 19, offset: 85430},
+																										pos:        position{line: 2670, col: 19, offset: 85486},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2669, col: 26, offset: 85437},
+																										pos: position{line: 2670, col: 26, offset: 85493},
 																										expr: &actionExpr{
-																											pos: position{line: 2934, col: 10, offset: 92906},
+																											pos: position{line: 2935, col: 10, offset: 92962},
 																											run: (*parser).callonDocumentFragment1162,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2934, col: 10, offset: 92906},
+																												pos:        position{line: 2935, col: 10, offset: 92962},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9302,28 +9302,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2956, col: 8, offset: 93304},
+																										pos: position{line: 2957, col: 8, offset: 93360},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2943, col: 12, offset: 93077},
+																												pos: position{line: 2944, col: 12, offset: 93133},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &choiceExpr{
-																													pos: position{line: 2943, col: 13, offset: 93078},
+																													pos: position{line: 2944, col: 13, offset: 93134},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2943, col: 13, offset: 93078},
+																															pos:        position{line: 2944, col: 13, offset: 93134},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2943, col: 20, offset: 93085},
+																															pos:        position{line: 2944, col: 20, offset: 93141},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2943, col: 29, offset: 93094},
+																															pos:        position{line: 2944, col: 29, offset: 93150},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9332,9 +9332,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2953, col: 8, offset: 93254},
+																												pos: position{line: 2954, col: 8, offset: 93310},
 																												expr: &anyMatcher{
-																													line: 2953, col: 9, offset: 93255,
+																													line: 2954, col: 9, offset: 93311,
 																												},
 																											},
 																										},
@@ -9342,59 +9342,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93254},
+																								pos: position{line: 2954, col: 8, offset: 93310},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93255,
+																									line: 2954, col: 9, offset: 93311,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2677, col: 5, offset: 85572},
+																					pos:   position{line: 2678, col: 5, offset: 85628},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2678, col: 9, offset: 85590},
+																						pos: position{line: 2679, col: 9, offset: 85646},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2678, col: 10, offset: 85591},
+																								pos: position{line: 2679, col: 10, offset: 85647},
 																								run: (*parser).callonDocumentFragment1176,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2678, col: 10, offset: 85591},
+																									pos:   position{line: 2679, col: 10, offset: 85647},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2678, col: 17, offset: 85598},
+																										pos: position{line: 2679, col: 17, offset: 85654},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2686, col: 21, offset: 85794},
+																												pos: position{line: 2687, col: 21, offset: 85850},
 																												run: (*parser).callonDocumentFragment1179,
 																												expr: &seqExpr{
-																													pos: position{line: 2686, col: 21, offset: 85794},
+																													pos: position{line: 2687, col: 21, offset: 85850},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2686, col: 21, offset: 85794},
+																															pos:   position{line: 2687, col: 21, offset: 85850},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2686, col: 27, offset: 85800},
+																																pos: position{line: 2687, col: 27, offset: 85856},
 																																expr: &actionExpr{
-																																	pos: position{line: 2691, col: 5, offset: 85875},
+																																	pos: position{line: 2692, col: 5, offset: 85931},
 																																	run: (*parser).callonDocumentFragment1183,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2691, col: 5, offset: 85875},
+																																		pos: position{line: 2692, col: 5, offset: 85931},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2691, col: 5, offset: 85875},
+																																				pos:        position{line: 2692, col: 5, offset: 85931},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2691, col: 9, offset: 85879},
+																																				pos: position{line: 2692, col: 9, offset: 85935},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2934, col: 10, offset: 92906},
+																																					pos: position{line: 2935, col: 10, offset: 92962},
 																																					run: (*parser).callonDocumentFragment1187,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2934, col: 10, offset: 92906},
+																																						pos:        position{line: 2935, col: 10, offset: 92962},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9403,21 +9403,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2691, col: 16, offset: 85886},
+																																				pos:   position{line: 2692, col: 16, offset: 85942},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2697, col: 5, offset: 86086},
+																																					pos: position{line: 2698, col: 5, offset: 86142},
 																																					run: (*parser).callonDocumentFragment1190,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2697, col: 5, offset: 86086},
+																																						pos:   position{line: 2698, col: 5, offset: 86142},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2697, col: 14, offset: 86095},
+																																							pos: position{line: 2698, col: 14, offset: 86151},
 																																							run: (*parser).callonDocumentFragment1192,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2697, col: 14, offset: 86095},
+																																								pos: position{line: 2698, col: 14, offset: 86151},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2697, col: 14, offset: 86095},
+																																									pos:        position{line: 2698, col: 14, offset: 86151},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9434,28 +9434,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2956, col: 8, offset: 93304},
+																															pos: position{line: 2957, col: 8, offset: 93360},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2943, col: 12, offset: 93077},
+																																	pos: position{line: 2944, col: 12, offset: 93133},
 																																	run: (*parser).callonDocumentFragment1196,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2943, col: 13, offset: 93078},
+																																		pos: position{line: 2944, col: 13, offset: 93134},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2943, col: 13, offset: 93078},
+																																				pos:        position{line: 2944, col: 13, offset: 93134},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2943, col: 20, offset: 93085},
+																																				pos:        position{line: 2944, col: 20, offset: 93141},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2943, col: 29, offset: 93094},
+																																				pos:        position{line: 2944, col: 29, offset: 93150},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9464,9 +9464,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2953, col: 8, offset: 93254},
+																																	pos: position{line: 2954, col: 8, offset: 93310},
 																																	expr: &anyMatcher{
-																																		line: 2953, col: 9, offset: 93255,
+																																		line: 2954, col: 9, offset: 93311,
 																																	},
 																																},
 																															},
@@ -9475,40 +9475,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2703, col: 24, offset: 86231},
+																												pos: position{line: 2704, col: 24, offset: 86287},
 																												run: (*parser).callonDocumentFragment1203,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2703, col: 24, offset: 86231},
+																													pos:   position{line: 2704, col: 24, offset: 86287},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2703, col: 30, offset: 86237},
+																														pos: position{line: 2704, col: 30, offset: 86293},
 																														expr: &actionExpr{
-																															pos: position{line: 2708, col: 5, offset: 86313},
+																															pos: position{line: 2709, col: 5, offset: 86369},
 																															run: (*parser).callonDocumentFragment1206,
 																															expr: &seqExpr{
-																																pos: position{line: 2708, col: 5, offset: 86313},
+																																pos: position{line: 2709, col: 5, offset: 86369},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2708, col: 5, offset: 86313},
+																																		pos: position{line: 2709, col: 5, offset: 86369},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2673, col: 22, offset: 85510},
+																																			pos: position{line: 2674, col: 22, offset: 85566},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2669, col: 19, offset: 85430},
+																																					pos: position{line: 2670, col: 19, offset: 85486},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2669, col: 19, offset: 85430},
+																																							pos:        position{line: 2670, col: 19, offset: 85486},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2669, col: 26, offset: 85437},
+																																							pos: position{line: 2670, col: 26, offset: 85493},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2934, col: 10, offset: 92906},
+																																								pos: position{line: 2935, col: 10, offset: 92962},
 																																								run: (*parser).callonDocumentFragment1213,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2934, col: 10, offset: 92906},
+																																									pos:        position{line: 2935, col: 10, offset: 92962},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9517,28 +9517,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2956, col: 8, offset: 93304},
+																																							pos: position{line: 2957, col: 8, offset: 93360},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2943, col: 12, offset: 93077},
+																																									pos: position{line: 2944, col: 12, offset: 93133},
 																																									run: (*parser).callonDocumentFragment1216,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2943, col: 13, offset: 93078},
+																																										pos: position{line: 2944, col: 13, offset: 93134},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2943, col: 13, offset: 93078},
+																																												pos:        position{line: 2944, col: 13, offset: 93134},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2943, col: 20, offset: 93085},
+																																												pos:        position{line: 2944, col: 20, offset: 93141},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2943, col: 29, offset: 93094},
+																																												pos:        position{line: 2944, col: 29, offset: 93150},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9547,9 +9547,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2953, col: 8, offset: 93254},
+																																									pos: position{line: 2954, col: 8, offset: 93310},
 																																									expr: &anyMatcher{
-																																										line: 2953, col: 9, offset: 93255,
+																																										line: 2954, col: 9, offset: 93311,
 																																									},
 																																								},
 																																							},
@@ -9557,16 +9557,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2953, col: 8, offset: 93254},
+																																					pos: position{line: 2954, col: 8, offset: 93310},
 																																					expr: &anyMatcher{
-																																						line: 2953, col: 9, offset: 93255,
+																																						line: 2954, col: 9, offset: 93311,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2709, col: 5, offset: 86336},
+																																		pos: position{line: 2710, col: 5, offset: 86392},
 																																		expr: &actionExpr{
 																																			pos: position{line: 702, col: 14, offset: 22577},
 																																			run: (*parser).callonDocumentFragment1226,
@@ -9574,18 +9574,18 @@ var g = &grammar{
 																																				pos: position{line: 702, col: 14, offset: 22577},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2951, col: 11, offset: 93240},
+																																						pos: position{line: 2952, col: 11, offset: 93296},
 																																						expr: &anyMatcher{
-																																							line: 2951, col: 13, offset: 93242,
+																																							line: 2952, col: 13, offset: 93298,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 702, col: 21, offset: 22584},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2934, col: 10, offset: 92906},
+																																							pos: position{line: 2935, col: 10, offset: 92962},
 																																							run: (*parser).callonDocumentFragment1231,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2934, col: 10, offset: 92906},
+																																								pos:        position{line: 2935, col: 10, offset: 92962},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9594,28 +9594,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2956, col: 8, offset: 93304},
+																																						pos: position{line: 2957, col: 8, offset: 93360},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2943, col: 12, offset: 93077},
+																																								pos: position{line: 2944, col: 12, offset: 93133},
 																																								run: (*parser).callonDocumentFragment1234,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2943, col: 13, offset: 93078},
+																																									pos: position{line: 2944, col: 13, offset: 93134},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2943, col: 13, offset: 93078},
+																																											pos:        position{line: 2944, col: 13, offset: 93134},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2943, col: 20, offset: 93085},
+																																											pos:        position{line: 2944, col: 20, offset: 93141},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2943, col: 29, offset: 93094},
+																																											pos:        position{line: 2944, col: 29, offset: 93150},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9624,9 +9624,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2953, col: 8, offset: 93254},
+																																								pos: position{line: 2954, col: 8, offset: 93310},
 																																								expr: &anyMatcher{
-																																									line: 2953, col: 9, offset: 93255,
+																																									line: 2954, col: 9, offset: 93311,
 																																								},
 																																							},
 																																						},
@@ -9636,17 +9636,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2710, col: 5, offset: 86351},
+																																		pos:   position{line: 2711, col: 5, offset: 86407},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2710, col: 12, offset: 86358},
+																																			pos: position{line: 2711, col: 12, offset: 86414},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2734, col: 20, offset: 86981},
+																																				pos: position{line: 2735, col: 20, offset: 87037},
 																																				run: (*parser).callonDocumentFragment1243,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2734, col: 20, offset: 86981},
+																																					pos: position{line: 2735, col: 20, offset: 87037},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2734, col: 20, offset: 86981},
+																																						pos:        position{line: 2735, col: 20, offset: 87037},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9657,18 +9657,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2710, col: 31, offset: 86377},
+																																		pos:        position{line: 2711, col: 31, offset: 86433},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2710, col: 35, offset: 86381},
+																																		pos: position{line: 2711, col: 35, offset: 86437},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2934, col: 10, offset: 92906},
+																																			pos: position{line: 2935, col: 10, offset: 92962},
 																																			run: (*parser).callonDocumentFragment1248,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2934, col: 10, offset: 92906},
+																																				pos:        position{line: 2935, col: 10, offset: 92962},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9677,27 +9677,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2710, col: 42, offset: 86388},
+																																		pos: position{line: 2711, col: 42, offset: 86444},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2943, col: 12, offset: 93077},
+																																			pos: position{line: 2944, col: 12, offset: 93133},
 																																			run: (*parser).callonDocumentFragment1251,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2943, col: 13, offset: 93078},
+																																				pos: position{line: 2944, col: 13, offset: 93134},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2943, col: 13, offset: 93078},
+																																						pos:        position{line: 2944, col: 13, offset: 93134},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2943, col: 20, offset: 93085},
+																																						pos:        position{line: 2944, col: 20, offset: 93141},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2943, col: 29, offset: 93094},
+																																						pos:        position{line: 2944, col: 29, offset: 93150},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9707,57 +9707,57 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2710, col: 51, offset: 86397},
+																																		pos:   position{line: 2711, col: 51, offset: 86453},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2716, col: 5, offset: 86556},
+																																			pos: position{line: 2717, col: 5, offset: 86612},
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2717, col: 9, offset: 86566},
+																																				pos: position{line: 2718, col: 9, offset: 86622},
 																																				alternatives: []interface{}{
 																																					&actionExpr{
-																																						pos: position{line: 2717, col: 9, offset: 86566},
+																																						pos: position{line: 2718, col: 9, offset: 86622},
 																																						run: (*parser).callonDocumentFragment1259,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2717, col: 9, offset: 86566},
+																																							pos: position{line: 2718, col: 9, offset: 86622},
 																																							exprs: []interface{}{
 																																								&andCodeExpr{
-																																									pos: position{line: 2717, col: 9, offset: 86566},
+																																									pos: position{line: 2718, col: 9, offset: 86622},
 																																									run: (*parser).callonDocumentFragment1261,
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2720, col: 9, offset: 86635},
+																																									pos:   position{line: 2721, col: 9, offset: 86691},
 																																									label: "comment",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2537, col: 22, offset: 81684},
+																																										pos: position{line: 2538, col: 22, offset: 81740},
 																																										run: (*parser).callonDocumentFragment1263,
 																																										expr: &seqExpr{
-																																											pos: position{line: 2537, col: 22, offset: 81684},
+																																											pos: position{line: 2538, col: 22, offset: 81740},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2542, col: 31, offset: 81934},
+																																													pos:        position{line: 2543, col: 31, offset: 81990},
 																																													val:        "//",
 																																													ignoreCase: false,
 																																													want:       "\"//\"",
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2542, col: 36, offset: 81939},
+																																													pos: position{line: 2543, col: 36, offset: 81995},
 																																													expr: &litMatcher{
-																																														pos:        position{line: 2542, col: 37, offset: 81940},
+																																														pos:        position{line: 2543, col: 37, offset: 81996},
 																																														val:        "/",
 																																														ignoreCase: false,
 																																														want:       "\"/\"",
 																																													},
 																																												},
 																																												&labeledExpr{
-																																													pos:   position{line: 2537, col: 49, offset: 81711},
+																																													pos:   position{line: 2538, col: 49, offset: 81767},
 																																													label: "content",
 																																													expr: &actionExpr{
-																																														pos: position{line: 2880, col: 13, offset: 91432},
+																																														pos: position{line: 2881, col: 13, offset: 91488},
 																																														run: (*parser).callonDocumentFragment1269,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2880, col: 13, offset: 91432},
+																																															pos: position{line: 2881, col: 13, offset: 91488},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2880, col: 13, offset: 91432},
+																																																pos:        position{line: 2881, col: 13, offset: 91488},
 																																																val:        "[^\\r\\n]",
 																																																chars:      []rune{'\r', '\n'},
 																																																ignoreCase: false,
@@ -9767,28 +9767,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2956, col: 8, offset: 93304},
+																																													pos: position{line: 2957, col: 8, offset: 93360},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2943, col: 12, offset: 93077},
+																																															pos: position{line: 2944, col: 12, offset: 93133},
 																																															run: (*parser).callonDocumentFragment1273,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2943, col: 13, offset: 93078},
+																																																pos: position{line: 2944, col: 13, offset: 93134},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2943, col: 13, offset: 93078},
+																																																		pos:        position{line: 2944, col: 13, offset: 93134},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2943, col: 20, offset: 93085},
+																																																		pos:        position{line: 2944, col: 20, offset: 93141},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2943, col: 29, offset: 93094},
+																																																		pos:        position{line: 2944, col: 29, offset: 93150},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -9797,9 +9797,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2953, col: 8, offset: 93254},
+																																															pos: position{line: 2954, col: 8, offset: 93310},
 																																															expr: &anyMatcher{
-																																																line: 2953, col: 9, offset: 93255,
+																																																line: 2954, col: 9, offset: 93311,
 																																															},
 																																														},
 																																													},
@@ -9812,32 +9812,32 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&actionExpr{
-																																						pos: position{line: 2724, col: 9, offset: 86725},
+																																						pos: position{line: 2725, col: 9, offset: 86781},
 																																						run: (*parser).callonDocumentFragment1280,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2724, col: 9, offset: 86725},
+																																							pos: position{line: 2725, col: 9, offset: 86781},
 																																							exprs: []interface{}{
 																																								&notExpr{
-																																									pos: position{line: 2724, col: 9, offset: 86725},
+																																									pos: position{line: 2725, col: 9, offset: 86781},
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2673, col: 22, offset: 85510},
+																																										pos: position{line: 2674, col: 22, offset: 85566},
 																																										alternatives: []interface{}{
 																																											&seqExpr{
-																																												pos: position{line: 2669, col: 19, offset: 85430},
+																																												pos: position{line: 2670, col: 19, offset: 85486},
 																																												exprs: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2669, col: 19, offset: 85430},
+																																														pos:        position{line: 2670, col: 19, offset: 85486},
 																																														val:        "|===",
 																																														ignoreCase: false,
 																																														want:       "\"|===\"",
 																																													},
 																																													&zeroOrMoreExpr{
-																																														pos: position{line: 2669, col: 26, offset: 85437},
+																																														pos: position{line: 2670, col: 26, offset: 85493},
 																																														expr: &actionExpr{
-																																															pos: position{line: 2934, col: 10, offset: 92906},
+																																															pos: position{line: 2935, col: 10, offset: 92962},
 																																															run: (*parser).callonDocumentFragment1287,
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2934, col: 10, offset: 92906},
+																																																pos:        position{line: 2935, col: 10, offset: 92962},
 																																																val:        "[\\t ]",
 																																																chars:      []rune{'\t', ' '},
 																																																ignoreCase: false,
@@ -9846,28 +9846,28 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&choiceExpr{
-																																														pos: position{line: 2956, col: 8, offset: 93304},
+																																														pos: position{line: 2957, col: 8, offset: 93360},
 																																														alternatives: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2943, col: 12, offset: 93077},
+																																																pos: position{line: 2944, col: 12, offset: 93133},
 																																																run: (*parser).callonDocumentFragment1290,
 																																																expr: &choiceExpr{
-																																																	pos: position{line: 2943, col: 13, offset: 93078},
+																																																	pos: position{line: 2944, col: 13, offset: 93134},
 																																																	alternatives: []interface{}{
 																																																		&litMatcher{
-																																																			pos:        position{line: 2943, col: 13, offset: 93078},
+																																																			pos:        position{line: 2944, col: 13, offset: 93134},
 																																																			val:        "\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2943, col: 20, offset: 93085},
+																																																			pos:        position{line: 2944, col: 20, offset: 93141},
 																																																			val:        "\r\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2943, col: 29, offset: 93094},
+																																																			pos:        position{line: 2944, col: 29, offset: 93150},
 																																																			val:        "\r",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\"",
@@ -9876,9 +9876,9 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&notExpr{
-																																																pos: position{line: 2953, col: 8, offset: 93254},
+																																																pos: position{line: 2954, col: 8, offset: 93310},
 																																																expr: &anyMatcher{
-																																																	line: 2953, col: 9, offset: 93255,
+																																																	line: 2954, col: 9, offset: 93311,
 																																																},
 																																															},
 																																														},
@@ -9886,16 +9886,16 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2953, col: 8, offset: 93254},
+																																												pos: position{line: 2954, col: 8, offset: 93310},
 																																												expr: &anyMatcher{
-																																													line: 2953, col: 9, offset: 93255,
+																																													line: 2954, col: 9, offset: 93311,
 																																												},
 																																											},
 																																										},
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2725, col: 9, offset: 86752},
+																																									pos: position{line: 2726, col: 9, offset: 86808},
 																																									expr: &actionExpr{
 																																										pos: position{line: 702, col: 14, offset: 22577},
 																																										run: (*parser).callonDocumentFragment1300,
@@ -9903,18 +9903,18 @@ var g = &grammar{
 																																											pos: position{line: 702, col: 14, offset: 22577},
 																																											exprs: []interface{}{
 																																												&andExpr{
-																																													pos: position{line: 2951, col: 11, offset: 93240},
+																																													pos: position{line: 2952, col: 11, offset: 93296},
 																																													expr: &anyMatcher{
-																																														line: 2951, col: 13, offset: 93242,
+																																														line: 2952, col: 13, offset: 93298,
 																																													},
 																																												},
 																																												&zeroOrMoreExpr{
 																																													pos: position{line: 702, col: 21, offset: 22584},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2934, col: 10, offset: 92906},
+																																														pos: position{line: 2935, col: 10, offset: 92962},
 																																														run: (*parser).callonDocumentFragment1305,
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2934, col: 10, offset: 92906},
+																																															pos:        position{line: 2935, col: 10, offset: 92962},
 																																															val:        "[\\t ]",
 																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
@@ -9923,28 +9923,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2956, col: 8, offset: 93304},
+																																													pos: position{line: 2957, col: 8, offset: 93360},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2943, col: 12, offset: 93077},
+																																															pos: position{line: 2944, col: 12, offset: 93133},
 																																															run: (*parser).callonDocumentFragment1308,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2943, col: 13, offset: 93078},
+																																																pos: position{line: 2944, col: 13, offset: 93134},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2943, col: 13, offset: 93078},
+																																																		pos:        position{line: 2944, col: 13, offset: 93134},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2943, col: 20, offset: 93085},
+																																																		pos:        position{line: 2944, col: 20, offset: 93141},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2943, col: 29, offset: 93094},
+																																																		pos:        position{line: 2944, col: 29, offset: 93150},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -9953,9 +9953,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2953, col: 8, offset: 93254},
+																																															pos: position{line: 2954, col: 8, offset: 93310},
 																																															expr: &anyMatcher{
-																																																line: 2953, col: 9, offset: 93255,
+																																																line: 2954, col: 9, offset: 93311,
 																																															},
 																																														},
 																																													},
@@ -9965,22 +9965,22 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2726, col: 9, offset: 86771},
+																																									pos: position{line: 2727, col: 9, offset: 86827},
 																																									expr: &seqExpr{
-																																										pos: position{line: 2726, col: 11, offset: 86773},
+																																										pos: position{line: 2727, col: 11, offset: 86829},
 																																										exprs: []interface{}{
 																																											&labeledExpr{
-																																												pos:   position{line: 2726, col: 11, offset: 86773},
+																																												pos:   position{line: 2727, col: 11, offset: 86829},
 																																												label: "format",
 																																												expr: &zeroOrOneExpr{
-																																													pos: position{line: 2726, col: 18, offset: 86780},
+																																													pos: position{line: 2727, col: 18, offset: 86836},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2734, col: 20, offset: 86981},
+																																														pos: position{line: 2735, col: 20, offset: 87037},
 																																														run: (*parser).callonDocumentFragment1319,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2734, col: 20, offset: 86981},
+																																															pos: position{line: 2735, col: 20, offset: 87037},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2734, col: 20, offset: 86981},
+																																																pos:        position{line: 2735, col: 20, offset: 87037},
 																																																val:        "[^ |\\r\\n]",
 																																																chars:      []rune{' ', '|', '\r', '\n'},
 																																																ignoreCase: false,
@@ -9991,7 +9991,7 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2726, col: 37, offset: 86799},
+																																												pos:        position{line: 2727, col: 37, offset: 86855},
 																																												val:        "|",
 																																												ignoreCase: false,
 																																												want:       "\"|\"",
@@ -10000,15 +10000,15 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2727, col: 9, offset: 86812},
+																																									pos:   position{line: 2728, col: 9, offset: 86868},
 																																									label: "content",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2727, col: 18, offset: 86821},
+																																										pos: position{line: 2728, col: 18, offset: 86877},
 																																										run: (*parser).callonDocumentFragment1324,
 																																										expr: &zeroOrMoreExpr{
-																																											pos: position{line: 2727, col: 18, offset: 86821},
+																																											pos: position{line: 2728, col: 18, offset: 86877},
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2727, col: 18, offset: 86821},
+																																												pos:        position{line: 2728, col: 18, offset: 86877},
 																																												val:        "[^|\\r\\n]",
 																																												chars:      []rune{'|', '\r', '\n'},
 																																												ignoreCase: false,
@@ -10018,30 +10018,30 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&zeroOrOneExpr{
-																																									pos: position{line: 2729, col: 12, offset: 86883},
+																																									pos: position{line: 2730, col: 12, offset: 86939},
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2956, col: 8, offset: 93304},
+																																										pos: position{line: 2957, col: 8, offset: 93360},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2943, col: 12, offset: 93077},
+																																												pos: position{line: 2944, col: 12, offset: 93133},
 																																												run: (*parser).callonDocumentFragment1329,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2943, col: 13, offset: 93078},
+																																													pos: position{line: 2944, col: 13, offset: 93134},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2943, col: 13, offset: 93078},
+																																															pos:        position{line: 2944, col: 13, offset: 93134},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2943, col: 20, offset: 93085},
+																																															pos:        position{line: 2944, col: 20, offset: 93141},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2943, col: 29, offset: 93094},
+																																															pos:        position{line: 2944, col: 29, offset: 93150},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -10050,9 +10050,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2953, col: 8, offset: 93254},
+																																												pos: position{line: 2954, col: 8, offset: 93310},
 																																												expr: &anyMatcher{
-																																													line: 2953, col: 9, offset: 93255,
+																																													line: 2954, col: 9, offset: 93311,
 																																												},
 																																											},
 																																										},
@@ -10082,18 +10082,18 @@ var g = &grammar{
 																									pos: position{line: 702, col: 14, offset: 22577},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2951, col: 11, offset: 93240},
+																											pos: position{line: 2952, col: 11, offset: 93296},
 																											expr: &anyMatcher{
-																												line: 2951, col: 13, offset: 93242,
+																												line: 2952, col: 13, offset: 93298,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 702, col: 21, offset: 22584},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92906},
+																												pos: position{line: 2935, col: 10, offset: 92962},
 																												run: (*parser).callonDocumentFragment1341,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92906},
+																													pos:        position{line: 2935, col: 10, offset: 92962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10102,28 +10102,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93304},
+																											pos: position{line: 2957, col: 8, offset: 93360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93077},
+																													pos: position{line: 2944, col: 12, offset: 93133},
 																													run: (*parser).callonDocumentFragment1344,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93078},
+																														pos: position{line: 2944, col: 13, offset: 93134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93078},
+																																pos:        position{line: 2944, col: 13, offset: 93134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93085},
+																																pos:        position{line: 2944, col: 20, offset: 93141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93094},
+																																pos:        position{line: 2944, col: 29, offset: 93150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10132,9 +10132,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93254},
+																													pos: position{line: 2954, col: 8, offset: 93310},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93255,
+																														line: 2954, col: 9, offset: 93311,
 																													},
 																												},
 																											},
@@ -10153,24 +10153,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2673, col: 22, offset: 85510},
+														pos: position{line: 2674, col: 22, offset: 85566},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2669, col: 19, offset: 85430},
+																pos: position{line: 2670, col: 19, offset: 85486},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2669, col: 19, offset: 85430},
+																		pos:        position{line: 2670, col: 19, offset: 85486},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2669, col: 26, offset: 85437},
+																		pos: position{line: 2670, col: 26, offset: 85493},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92906},
+																			pos: position{line: 2935, col: 10, offset: 92962},
 																			run: (*parser).callonDocumentFragment1355,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92906},
+																				pos:        position{line: 2935, col: 10, offset: 92962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10179,28 +10179,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93304},
+																		pos: position{line: 2957, col: 8, offset: 93360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonDocumentFragment1358,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10209,9 +10209,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93254},
+																				pos: position{line: 2954, col: 8, offset: 93310},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93255,
+																					line: 2954, col: 9, offset: 93311,
 																				},
 																			},
 																		},
@@ -10219,9 +10219,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93254},
+																pos: position{line: 2954, col: 8, offset: 93310},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93255,
+																	line: 2954, col: 9, offset: 93311,
 																},
 															},
 														},
@@ -10230,36 +10230,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2537, col: 22, offset: 81684},
+											pos: position{line: 2538, col: 22, offset: 81740},
 											run: (*parser).callonDocumentFragment1367,
 											expr: &seqExpr{
-												pos: position{line: 2537, col: 22, offset: 81684},
+												pos: position{line: 2538, col: 22, offset: 81740},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2542, col: 31, offset: 81934},
+														pos:        position{line: 2543, col: 31, offset: 81990},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2542, col: 36, offset: 81939},
+														pos: position{line: 2543, col: 36, offset: 81995},
 														expr: &litMatcher{
-															pos:        position{line: 2542, col: 37, offset: 81940},
+															pos:        position{line: 2543, col: 37, offset: 81996},
 															val:        "/",
 															ignoreCase: false,
 															want:       "\"/\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2537, col: 49, offset: 81711},
+														pos:   position{line: 2538, col: 49, offset: 81767},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2880, col: 13, offset: 91432},
+															pos: position{line: 2881, col: 13, offset: 91488},
 															run: (*parser).callonDocumentFragment1373,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2880, col: 13, offset: 91432},
+																pos: position{line: 2881, col: 13, offset: 91488},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2880, col: 13, offset: 91432},
+																	pos:        position{line: 2881, col: 13, offset: 91488},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10269,28 +10269,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2956, col: 8, offset: 93304},
+														pos: position{line: 2957, col: 8, offset: 93360},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93077},
+																pos: position{line: 2944, col: 12, offset: 93133},
 																run: (*parser).callonDocumentFragment1377,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93078},
+																	pos: position{line: 2944, col: 13, offset: 93134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93078},
+																			pos:        position{line: 2944, col: 13, offset: 93134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93085},
+																			pos:        position{line: 2944, col: 20, offset: 93141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93094},
+																			pos:        position{line: 2944, col: 29, offset: 93150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10299,9 +10299,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93254},
+																pos: position{line: 2954, col: 8, offset: 93310},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93255,
+																	line: 2954, col: 9, offset: 93311,
 																},
 															},
 														},
@@ -10337,10 +10337,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1259, col: 36, offset: 39332},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92906},
+																			pos: position{line: 2935, col: 10, offset: 92962},
 																			run: (*parser).callonDocumentFragment1392,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92906},
+																				pos:        position{line: 2935, col: 10, offset: 92962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10349,28 +10349,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93304},
+																		pos: position{line: 2957, col: 8, offset: 93360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonDocumentFragment1395,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10379,9 +10379,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93254},
+																				pos: position{line: 2954, col: 8, offset: 93310},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93255,
+																					line: 2954, col: 9, offset: 93311,
 																				},
 																			},
 																		},
@@ -10415,10 +10415,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1259, col: 36, offset: 39332},
 																												expr: &actionExpr{
-																													pos: position{line: 2934, col: 10, offset: 92906},
+																													pos: position{line: 2935, col: 10, offset: 92962},
 																													run: (*parser).callonDocumentFragment1412,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2934, col: 10, offset: 92906},
+																														pos:        position{line: 2935, col: 10, offset: 92962},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10427,28 +10427,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2956, col: 8, offset: 93304},
+																												pos: position{line: 2957, col: 8, offset: 93360},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2943, col: 12, offset: 93077},
+																														pos: position{line: 2944, col: 12, offset: 93133},
 																														run: (*parser).callonDocumentFragment1415,
 																														expr: &choiceExpr{
-																															pos: position{line: 2943, col: 13, offset: 93078},
+																															pos: position{line: 2944, col: 13, offset: 93134},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 13, offset: 93078},
+																																	pos:        position{line: 2944, col: 13, offset: 93134},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 20, offset: 93085},
+																																	pos:        position{line: 2944, col: 20, offset: 93141},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2943, col: 29, offset: 93094},
+																																	pos:        position{line: 2944, col: 29, offset: 93150},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10457,9 +10457,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2953, col: 8, offset: 93254},
+																														pos: position{line: 2954, col: 8, offset: 93310},
 																														expr: &anyMatcher{
-																															line: 2953, col: 9, offset: 93255,
+																															line: 2954, col: 9, offset: 93311,
 																														},
 																													},
 																												},
@@ -10486,10 +10486,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1259, col: 36, offset: 39332},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92906},
+																			pos: position{line: 2935, col: 10, offset: 92962},
 																			run: (*parser).callonDocumentFragment1425,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92906},
+																				pos:        position{line: 2935, col: 10, offset: 92962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10498,28 +10498,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93304},
+																		pos: position{line: 2957, col: 8, offset: 93360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonDocumentFragment1428,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10528,9 +10528,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93254},
+																				pos: position{line: 2954, col: 8, offset: 93310},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93255,
+																					line: 2954, col: 9, offset: 93311,
 																				},
 																			},
 																		},
@@ -10631,9 +10631,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2953, col: 8, offset: 93254},
+							pos: position{line: 2954, col: 8, offset: 93310},
 							expr: &anyMatcher{
-								line: 2953, col: 9, offset: 93255,
+								line: 2954, col: 9, offset: 93311,
 							},
 						},
 					},
@@ -10705,12 +10705,12 @@ var g = &grammar{
 										pos: position{line: 307, col: 9, offset: 9333},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2938, col: 11, offset: 92967},
+												pos: position{line: 2939, col: 11, offset: 93023},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2938, col: 11, offset: 92967},
+													pos: position{line: 2939, col: 11, offset: 93023},
 													expr: &charClassMatcher{
-														pos:        position{line: 2938, col: 11, offset: 92967},
+														pos:        position{line: 2939, col: 11, offset: 93023},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10732,28 +10732,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2956, col: 8, offset: 93304},
+							pos: position{line: 2957, col: 8, offset: 93360},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2943, col: 12, offset: 93077},
+									pos: position{line: 2944, col: 12, offset: 93133},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2943, col: 13, offset: 93078},
+										pos: position{line: 2944, col: 13, offset: 93134},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2943, col: 13, offset: 93078},
+												pos:        position{line: 2944, col: 13, offset: 93134},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 20, offset: 93085},
+												pos:        position{line: 2944, col: 20, offset: 93141},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 29, offset: 93094},
+												pos:        position{line: 2944, col: 29, offset: 93150},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10762,9 +10762,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2953, col: 8, offset: 93254},
+									pos: position{line: 2954, col: 8, offset: 93310},
 									expr: &anyMatcher{
-										line: 2953, col: 9, offset: 93255,
+										line: 2954, col: 9, offset: 93311,
 									},
 								},
 							},
@@ -10808,25 +10808,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2943, col: 12, offset: 93077},
+												pos: position{line: 2944, col: 12, offset: 93133},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2943, col: 13, offset: 93078},
+													pos: position{line: 2944, col: 13, offset: 93134},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2943, col: 13, offset: 93078},
+															pos:        position{line: 2944, col: 13, offset: 93134},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2943, col: 20, offset: 93085},
+															pos:        position{line: 2944, col: 20, offset: 93141},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2943, col: 29, offset: 93094},
+															pos:        position{line: 2944, col: 29, offset: 93150},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10837,10 +10837,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 328, col: 9, offset: 10035},
 												expr: &actionExpr{
-													pos: position{line: 2934, col: 10, offset: 92906},
+													pos: position{line: 2935, col: 10, offset: 92962},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2934, col: 10, offset: 92906},
+														pos:        position{line: 2935, col: 10, offset: 92962},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10910,10 +10910,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 346, col: 13, offset: 10580},
 										expr: &actionExpr{
-											pos: position{line: 2934, col: 10, offset: 92906},
+											pos: position{line: 2935, col: 10, offset: 92962},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2934, col: 10, offset: 92906},
+												pos:        position{line: 2935, col: 10, offset: 92962},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10922,28 +10922,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2956, col: 8, offset: 93304},
+										pos: position{line: 2957, col: 8, offset: 93360},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2943, col: 12, offset: 93077},
+												pos: position{line: 2944, col: 12, offset: 93133},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2943, col: 13, offset: 93078},
+													pos: position{line: 2944, col: 13, offset: 93134},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2943, col: 13, offset: 93078},
+															pos:        position{line: 2944, col: 13, offset: 93134},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2943, col: 20, offset: 93085},
+															pos:        position{line: 2944, col: 20, offset: 93141},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2943, col: 29, offset: 93094},
+															pos:        position{line: 2944, col: 29, offset: 93150},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10952,9 +10952,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2953, col: 8, offset: 93254},
+												pos: position{line: 2954, col: 8, offset: 93310},
 												expr: &anyMatcher{
-													line: 2953, col: 9, offset: 93255,
+													line: 2954, col: 9, offset: 93311,
 												},
 											},
 										},
@@ -10987,23 +10987,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2524, col: 5, offset: 81230},
+										pos: position{line: 2525, col: 5, offset: 81286},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2524, col: 5, offset: 81230},
+											pos: position{line: 2525, col: 5, offset: 81286},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2524, col: 5, offset: 81230},
+													pos: position{line: 2525, col: 5, offset: 81286},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2527, col: 5, offset: 81306},
+													pos:   position{line: 2528, col: 5, offset: 81362},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2528, col: 9, offset: 81324},
+														pos: position{line: 2529, col: 9, offset: 81380},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2528, col: 10, offset: 81325},
+															pos:        position{line: 2529, col: 10, offset: 81381},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -11015,10 +11015,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2934, col: 10, offset: 92906},
+										pos: position{line: 2935, col: 10, offset: 92962},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2934, col: 10, offset: 92906},
+											pos:        position{line: 2935, col: 10, offset: 92962},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11859,10 +11859,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 374, col: 35, offset: 11589},
 												expr: &actionExpr{
-													pos: position{line: 2934, col: 10, offset: 92906},
+													pos: position{line: 2935, col: 10, offset: 92962},
 													run: (*parser).callonBlockAttributes101,
 													expr: &charClassMatcher{
-														pos:        position{line: 2934, col: 10, offset: 92906},
+														pos:        position{line: 2935, col: 10, offset: 92962},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11871,28 +11871,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2956, col: 8, offset: 93304},
+												pos: position{line: 2957, col: 8, offset: 93360},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2943, col: 12, offset: 93077},
+														pos: position{line: 2944, col: 12, offset: 93133},
 														run: (*parser).callonBlockAttributes104,
 														expr: &choiceExpr{
-															pos: position{line: 2943, col: 13, offset: 93078},
+															pos: position{line: 2944, col: 13, offset: 93134},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2943, col: 13, offset: 93078},
+																	pos:        position{line: 2944, col: 13, offset: 93134},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2943, col: 20, offset: 93085},
+																	pos:        position{line: 2944, col: 20, offset: 93141},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2943, col: 29, offset: 93094},
+																	pos:        position{line: 2944, col: 29, offset: 93150},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11901,9 +11901,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2953, col: 8, offset: 93254},
+														pos: position{line: 2954, col: 8, offset: 93310},
 														expr: &anyMatcher{
-															line: 2953, col: 9, offset: 93255,
+															line: 2954, col: 9, offset: 93311,
 														},
 													},
 												},
@@ -11920,18 +11920,18 @@ var g = &grammar{
 																pos: position{line: 702, col: 14, offset: 22577},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2951, col: 11, offset: 93240},
+																		pos: position{line: 2952, col: 11, offset: 93296},
 																		expr: &anyMatcher{
-																			line: 2951, col: 13, offset: 93242,
+																			line: 2952, col: 13, offset: 93298,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 702, col: 21, offset: 22584},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92906},
+																			pos: position{line: 2935, col: 10, offset: 92962},
 																			run: (*parser).callonBlockAttributes118,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92906},
+																				pos:        position{line: 2935, col: 10, offset: 92962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -11940,28 +11940,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93304},
+																		pos: position{line: 2957, col: 8, offset: 93360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonBlockAttributes121,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -11970,9 +11970,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93254},
+																				pos: position{line: 2954, col: 8, offset: 93310},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93255,
+																					line: 2954, col: 9, offset: 93311,
 																				},
 																			},
 																		},
@@ -11981,36 +11981,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2537, col: 22, offset: 81684},
+															pos: position{line: 2538, col: 22, offset: 81740},
 															run: (*parser).callonBlockAttributes128,
 															expr: &seqExpr{
-																pos: position{line: 2537, col: 22, offset: 81684},
+																pos: position{line: 2538, col: 22, offset: 81740},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2542, col: 31, offset: 81934},
+																		pos:        position{line: 2543, col: 31, offset: 81990},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2542, col: 36, offset: 81939},
+																		pos: position{line: 2543, col: 36, offset: 81995},
 																		expr: &litMatcher{
-																			pos:        position{line: 2542, col: 37, offset: 81940},
+																			pos:        position{line: 2543, col: 37, offset: 81996},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2537, col: 49, offset: 81711},
+																		pos:   position{line: 2538, col: 49, offset: 81767},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 13, offset: 91432},
+																			pos: position{line: 2881, col: 13, offset: 91488},
 																			run: (*parser).callonBlockAttributes134,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2880, col: 13, offset: 91432},
+																				pos: position{line: 2881, col: 13, offset: 91488},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 13, offset: 91432},
+																					pos:        position{line: 2881, col: 13, offset: 91488},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12020,28 +12020,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93304},
+																		pos: position{line: 2957, col: 8, offset: 93360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonBlockAttributes138,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12050,9 +12050,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93254},
+																				pos: position{line: 2954, col: 8, offset: 93310},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93255,
+																					line: 2954, col: 9, offset: 93311,
 																				},
 																			},
 																		},
@@ -12083,10 +12083,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 378, col: 35, offset: 11766},
 												expr: &actionExpr{
-													pos: position{line: 2934, col: 10, offset: 92906},
+													pos: position{line: 2935, col: 10, offset: 92962},
 													run: (*parser).callonBlockAttributes150,
 													expr: &charClassMatcher{
-														pos:        position{line: 2934, col: 10, offset: 92906},
+														pos:        position{line: 2935, col: 10, offset: 92962},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12095,28 +12095,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2956, col: 8, offset: 93304},
+												pos: position{line: 2957, col: 8, offset: 93360},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2943, col: 12, offset: 93077},
+														pos: position{line: 2944, col: 12, offset: 93133},
 														run: (*parser).callonBlockAttributes153,
 														expr: &choiceExpr{
-															pos: position{line: 2943, col: 13, offset: 93078},
+															pos: position{line: 2944, col: 13, offset: 93134},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2943, col: 13, offset: 93078},
+																	pos:        position{line: 2944, col: 13, offset: 93134},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2943, col: 20, offset: 93085},
+																	pos:        position{line: 2944, col: 20, offset: 93141},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2943, col: 29, offset: 93094},
+																	pos:        position{line: 2944, col: 29, offset: 93150},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12125,9 +12125,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2953, col: 8, offset: 93254},
+														pos: position{line: 2954, col: 8, offset: 93310},
 														expr: &anyMatcher{
-															line: 2953, col: 9, offset: 93255,
+															line: 2954, col: 9, offset: 93311,
 														},
 													},
 												},
@@ -12144,18 +12144,18 @@ var g = &grammar{
 																pos: position{line: 702, col: 14, offset: 22577},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2951, col: 11, offset: 93240},
+																		pos: position{line: 2952, col: 11, offset: 93296},
 																		expr: &anyMatcher{
-																			line: 2951, col: 13, offset: 93242,
+																			line: 2952, col: 13, offset: 93298,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 702, col: 21, offset: 22584},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92906},
+																			pos: position{line: 2935, col: 10, offset: 92962},
 																			run: (*parser).callonBlockAttributes167,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92906},
+																				pos:        position{line: 2935, col: 10, offset: 92962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12164,28 +12164,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93304},
+																		pos: position{line: 2957, col: 8, offset: 93360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonBlockAttributes170,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12194,9 +12194,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93254},
+																				pos: position{line: 2954, col: 8, offset: 93310},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93255,
+																					line: 2954, col: 9, offset: 93311,
 																				},
 																			},
 																		},
@@ -12205,36 +12205,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2537, col: 22, offset: 81684},
+															pos: position{line: 2538, col: 22, offset: 81740},
 															run: (*parser).callonBlockAttributes177,
 															expr: &seqExpr{
-																pos: position{line: 2537, col: 22, offset: 81684},
+																pos: position{line: 2538, col: 22, offset: 81740},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2542, col: 31, offset: 81934},
+																		pos:        position{line: 2543, col: 31, offset: 81990},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2542, col: 36, offset: 81939},
+																		pos: position{line: 2543, col: 36, offset: 81995},
 																		expr: &litMatcher{
-																			pos:        position{line: 2542, col: 37, offset: 81940},
+																			pos:        position{line: 2543, col: 37, offset: 81996},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2537, col: 49, offset: 81711},
+																		pos:   position{line: 2538, col: 49, offset: 81767},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 13, offset: 91432},
+																			pos: position{line: 2881, col: 13, offset: 91488},
 																			run: (*parser).callonBlockAttributes183,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2880, col: 13, offset: 91432},
+																				pos: position{line: 2881, col: 13, offset: 91488},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 13, offset: 91432},
+																					pos:        position{line: 2881, col: 13, offset: 91488},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12244,28 +12244,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93304},
+																		pos: position{line: 2957, col: 8, offset: 93360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonBlockAttributes187,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12274,9 +12274,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93254},
+																				pos: position{line: 2954, col: 8, offset: 93310},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93255,
+																					line: 2954, col: 9, offset: 93311,
 																				},
 																			},
 																		},
@@ -12307,10 +12307,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 382, col: 44, offset: 11922},
 												expr: &actionExpr{
-													pos: position{line: 2934, col: 10, offset: 92906},
+													pos: position{line: 2935, col: 10, offset: 92962},
 													run: (*parser).callonBlockAttributes199,
 													expr: &charClassMatcher{
-														pos:        position{line: 2934, col: 10, offset: 92906},
+														pos:        position{line: 2935, col: 10, offset: 92962},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12319,28 +12319,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2956, col: 8, offset: 93304},
+												pos: position{line: 2957, col: 8, offset: 93360},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2943, col: 12, offset: 93077},
+														pos: position{line: 2944, col: 12, offset: 93133},
 														run: (*parser).callonBlockAttributes202,
 														expr: &choiceExpr{
-															pos: position{line: 2943, col: 13, offset: 93078},
+															pos: position{line: 2944, col: 13, offset: 93134},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2943, col: 13, offset: 93078},
+																	pos:        position{line: 2944, col: 13, offset: 93134},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2943, col: 20, offset: 93085},
+																	pos:        position{line: 2944, col: 20, offset: 93141},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2943, col: 29, offset: 93094},
+																	pos:        position{line: 2944, col: 29, offset: 93150},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12349,9 +12349,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2953, col: 8, offset: 93254},
+														pos: position{line: 2954, col: 8, offset: 93310},
 														expr: &anyMatcher{
-															line: 2953, col: 9, offset: 93255,
+															line: 2954, col: 9, offset: 93311,
 														},
 													},
 												},
@@ -12368,18 +12368,18 @@ var g = &grammar{
 																pos: position{line: 702, col: 14, offset: 22577},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2951, col: 11, offset: 93240},
+																		pos: position{line: 2952, col: 11, offset: 93296},
 																		expr: &anyMatcher{
-																			line: 2951, col: 13, offset: 93242,
+																			line: 2952, col: 13, offset: 93298,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 702, col: 21, offset: 22584},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92906},
+																			pos: position{line: 2935, col: 10, offset: 92962},
 																			run: (*parser).callonBlockAttributes216,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92906},
+																				pos:        position{line: 2935, col: 10, offset: 92962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12388,28 +12388,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93304},
+																		pos: position{line: 2957, col: 8, offset: 93360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonBlockAttributes219,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12418,9 +12418,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93254},
+																				pos: position{line: 2954, col: 8, offset: 93310},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93255,
+																					line: 2954, col: 9, offset: 93311,
 																				},
 																			},
 																		},
@@ -12429,36 +12429,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2537, col: 22, offset: 81684},
+															pos: position{line: 2538, col: 22, offset: 81740},
 															run: (*parser).callonBlockAttributes226,
 															expr: &seqExpr{
-																pos: position{line: 2537, col: 22, offset: 81684},
+																pos: position{line: 2538, col: 22, offset: 81740},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2542, col: 31, offset: 81934},
+																		pos:        position{line: 2543, col: 31, offset: 81990},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2542, col: 36, offset: 81939},
+																		pos: position{line: 2543, col: 36, offset: 81995},
 																		expr: &litMatcher{
-																			pos:        position{line: 2542, col: 37, offset: 81940},
+																			pos:        position{line: 2543, col: 37, offset: 81996},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2537, col: 49, offset: 81711},
+																		pos:   position{line: 2538, col: 49, offset: 81767},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 13, offset: 91432},
+																			pos: position{line: 2881, col: 13, offset: 91488},
 																			run: (*parser).callonBlockAttributes232,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2880, col: 13, offset: 91432},
+																				pos: position{line: 2881, col: 13, offset: 91488},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 13, offset: 91432},
+																					pos:        position{line: 2881, col: 13, offset: 91488},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12468,28 +12468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93304},
+																		pos: position{line: 2957, col: 8, offset: 93360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonBlockAttributes236,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12498,9 +12498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93254},
+																				pos: position{line: 2954, col: 8, offset: 93310},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93255,
+																					line: 2954, col: 9, offset: 93311,
 																				},
 																			},
 																		},
@@ -12625,12 +12625,12 @@ var g = &grammar{
 											name: "TitlePassthrough",
 										},
 										&actionExpr{
-											pos: position{line: 2828, col: 14, offset: 90075},
+											pos: position{line: 2829, col: 14, offset: 90131},
 											run: (*parser).callonShortHandTitle10,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2828, col: 14, offset: 90075},
+												pos: position{line: 2829, col: 14, offset: 90131},
 												expr: &charClassMatcher{
-													pos:        position{line: 2828, col: 14, offset: 90075},
+													pos:        position{line: 2829, col: 14, offset: 90131},
 													val:        "[\\pL\\pN]",
 													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 													ignoreCase: false,
@@ -12639,10 +12639,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2934, col: 10, offset: 92906},
+											pos: position{line: 2935, col: 10, offset: 92962},
 											run: (*parser).callonShortHandTitle13,
 											expr: &charClassMatcher{
-												pos:        position{line: 2934, col: 10, offset: 92906},
+												pos:        position{line: 2935, col: 10, offset: 92962},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -12650,27 +12650,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2851, col: 5, offset: 90560},
+											pos: position{line: 2852, col: 5, offset: 90616},
 											run: (*parser).callonShortHandTitle15,
 											expr: &choiceExpr{
-												pos: position{line: 2852, col: 9, offset: 90570},
+												pos: position{line: 2853, col: 9, offset: 90626},
 												alternatives: []interface{}{
 													&charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90571},
+														pos:        position{line: 2853, col: 10, offset: 90627},
 														val:        "[.,;?)!/:\"\\@=-]",
 														chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 														ignoreCase: false,
 														inverted:   false,
 													},
 													&seqExpr{
-														pos: position{line: 2854, col: 13, offset: 90668},
+														pos: position{line: 2855, col: 13, offset: 90724},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2854, col: 13, offset: 90668},
+																pos: position{line: 2855, col: 13, offset: 90724},
 																run: (*parser).callonShortHandTitle19,
 															},
 															&litMatcher{
-																pos:        position{line: 2857, col: 13, offset: 90768},
+																pos:        position{line: 2858, col: 13, offset: 90824},
 																val:        "[",
 																ignoreCase: false,
 																want:       "\"[\"",
@@ -12678,20 +12678,20 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 2857, col: 19, offset: 90774},
+														pos:        position{line: 2858, col: 19, offset: 90830},
 														val:        "]",
 														ignoreCase: false,
 														want:       "\"]\"",
 													},
 													&seqExpr{
-														pos: position{line: 2860, col: 13, offset: 90812},
+														pos: position{line: 2861, col: 13, offset: 90868},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2860, col: 13, offset: 90812},
+																pos: position{line: 2861, col: 13, offset: 90868},
 																run: (*parser).callonShortHandTitle23,
 															},
 															&charClassMatcher{
-																pos:        position{line: 2863, col: 14, offset: 90905},
+																pos:        position{line: 2864, col: 14, offset: 90961},
 																val:        "[*_`#]",
 																chars:      []rune{'*', '_', '`', '#'},
 																ignoreCase: false,
@@ -12700,18 +12700,18 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2865, col: 12, offset: 90949},
+														pos: position{line: 2866, col: 12, offset: 91005},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2865, col: 12, offset: 90949},
+																pos:        position{line: 2866, col: 12, offset: 91005},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
 															},
 															&notExpr{
-																pos: position{line: 2865, col: 16, offset: 90953},
+																pos: position{line: 2866, col: 16, offset: 91009},
 																expr: &litMatcher{
-																	pos:        position{line: 2865, col: 17, offset: 90954},
+																	pos:        position{line: 2866, col: 17, offset: 91010},
 																	val:        "(",
 																	ignoreCase: false,
 																	want:       "\"(\"",
@@ -13047,10 +13047,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2873, col: 12, offset: 91214},
+											pos: position{line: 2874, col: 12, offset: 91270},
 											run: (*parser).callonShortHandTitle93,
 											expr: &charClassMatcher{
-												pos:        position{line: 2873, col: 12, offset: 91214},
+												pos:        position{line: 2874, col: 12, offset: 91270},
 												val:        "[^\\r\\n]",
 												chars:      []rune{'\r', '\n'},
 												ignoreCase: false,
@@ -13105,25 +13105,25 @@ var g = &grammar{
 														&notExpr{
 															pos: position{line: 442, col: 24, offset: 13637},
 															expr: &actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93077},
+																pos: position{line: 2944, col: 12, offset: 93133},
 																run: (*parser).callonTitlePassthrough12,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93078},
+																	pos: position{line: 2944, col: 13, offset: 93134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93078},
+																			pos:        position{line: 2944, col: 13, offset: 93134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93085},
+																			pos:        position{line: 2944, col: 20, offset: 93141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93094},
+																			pos:        position{line: 2944, col: 29, offset: 93150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -13172,25 +13172,25 @@ var g = &grammar{
 														&notExpr{
 															pos: position{line: 443, col: 22, offset: 13678},
 															expr: &actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93077},
+																pos: position{line: 2944, col: 12, offset: 93133},
 																run: (*parser).callonTitlePassthrough26,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93078},
+																	pos: position{line: 2944, col: 13, offset: 93134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93078},
+																			pos:        position{line: 2944, col: 13, offset: 93134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93085},
+																			pos:        position{line: 2944, col: 20, offset: 93141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93094},
+																			pos:        position{line: 2944, col: 29, offset: 93150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -13317,10 +13317,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1415, col: 12, offset: 45651},
 																				expr: &actionExpr{
-																					pos: position{line: 2934, col: 10, offset: 92906},
+																					pos: position{line: 2935, col: 10, offset: 92962},
 																					run: (*parser).callonTitlePassthrough58,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2934, col: 10, offset: 92906},
+																						pos:        position{line: 2935, col: 10, offset: 92962},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -13331,25 +13331,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1415, col: 19, offset: 45658},
 																				expr: &actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93077},
+																					pos: position{line: 2944, col: 12, offset: 93133},
 																					run: (*parser).callonTitlePassthrough61,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93078},
+																						pos: position{line: 2944, col: 13, offset: 93134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93078},
+																								pos:        position{line: 2944, col: 13, offset: 93134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93085},
+																								pos:        position{line: 2944, col: 20, offset: 93141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93094},
+																								pos:        position{line: 2944, col: 29, offset: 93150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -13422,10 +13422,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1401, col: 64, offset: 44770},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92906},
+																				pos: position{line: 2935, col: 10, offset: 92962},
 																				run: (*parser).callonTitlePassthrough80,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92906},
+																					pos:        position{line: 2935, col: 10, offset: 92962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -13436,25 +13436,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1401, col: 71, offset: 44777},
 																			expr: &actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonTitlePassthrough83,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -13477,12 +13477,12 @@ var g = &grammar{
 																							pos: position{line: 1401, col: 86, offset: 44792},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2938, col: 11, offset: 92967},
+																									pos: position{line: 2939, col: 11, offset: 93023},
 																									run: (*parser).callonTitlePassthrough93,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2938, col: 11, offset: 92967},
+																										pos: position{line: 2939, col: 11, offset: 93023},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2938, col: 11, offset: 92967},
+																											pos:        position{line: 2939, col: 11, offset: 93023},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -13511,25 +13511,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1401, col: 151, offset: 44857},
 																						expr: &actionExpr{
-																							pos: position{line: 2943, col: 12, offset: 93077},
+																							pos: position{line: 2944, col: 12, offset: 93133},
 																							run: (*parser).callonTitlePassthrough100,
 																							expr: &choiceExpr{
-																								pos: position{line: 2943, col: 13, offset: 93078},
+																								pos: position{line: 2944, col: 13, offset: 93134},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 13, offset: 93078},
+																										pos:        position{line: 2944, col: 13, offset: 93134},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 20, offset: 93085},
+																										pos:        position{line: 2944, col: 20, offset: 93141},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 29, offset: 93094},
+																										pos:        position{line: 2944, col: 29, offset: 93150},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -13556,10 +13556,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1403, col: 12, offset: 45017},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92906},
+																				pos: position{line: 2935, col: 10, offset: 92962},
 																				run: (*parser).callonTitlePassthrough109,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92906},
+																					pos:        position{line: 2935, col: 10, offset: 92962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -13570,25 +13570,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1403, col: 19, offset: 45024},
 																			expr: &actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonTitlePassthrough112,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -13624,7 +13624,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1397, col: 121, offset: 44593},
 													expr: &charClassMatcher{
-														pos:        position{line: 2824, col: 13, offset: 90001},
+														pos:        position{line: 2825, col: 13, offset: 90057},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -13808,10 +13808,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 485, col: 13, offset: 15403},
 										expr: &actionExpr{
-											pos: position{line: 2934, col: 10, offset: 92906},
+											pos: position{line: 2935, col: 10, offset: 92962},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2934, col: 10, offset: 92906},
+												pos:        position{line: 2935, col: 10, offset: 92962},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14343,10 +14343,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 537, col: 9, offset: 16985},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92906},
+														pos: position{line: 2935, col: 10, offset: 92962},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92906},
+															pos:        position{line: 2935, col: 10, offset: 92962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -14407,10 +14407,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 543, col: 34, offset: 17128},
 														expr: &actionExpr{
-															pos: position{line: 2934, col: 10, offset: 92906},
+															pos: position{line: 2935, col: 10, offset: 92962},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2934, col: 10, offset: 92906},
+																pos:        position{line: 2935, col: 10, offset: 92962},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -14450,10 +14450,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 548, col: 13, offset: 17292},
 												expr: &actionExpr{
-													pos: position{line: 2934, col: 10, offset: 92906},
+													pos: position{line: 2935, col: 10, offset: 92962},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2934, col: 10, offset: 92906},
+														pos:        position{line: 2935, col: 10, offset: 92962},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -14476,10 +14476,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 548, col: 26, offset: 17305},
 																expr: &actionExpr{
-																	pos: position{line: 2934, col: 10, offset: 92906},
+																	pos: position{line: 2935, col: 10, offset: 92962},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2934, col: 10, offset: 92906},
+																		pos:        position{line: 2935, col: 10, offset: 92962},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -14534,10 +14534,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 568, col: 22, offset: 17952},
 											expr: &actionExpr{
-												pos: position{line: 2934, col: 10, offset: 92906},
+												pos: position{line: 2935, col: 10, offset: 92962},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2934, col: 10, offset: 92906},
+													pos:        position{line: 2935, col: 10, offset: 92962},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14568,10 +14568,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 561, col: 9, offset: 17697},
 							expr: &actionExpr{
-								pos: position{line: 2934, col: 10, offset: 92906},
+								pos: position{line: 2935, col: 10, offset: 92962},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2934, col: 10, offset: 92906},
+									pos:        position{line: 2935, col: 10, offset: 92962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14601,10 +14601,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 562, col: 33, offset: 17737},
 										expr: &actionExpr{
-											pos: position{line: 2934, col: 10, offset: 92906},
+											pos: position{line: 2935, col: 10, offset: 92962},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2934, col: 10, offset: 92906},
+												pos:        position{line: 2935, col: 10, offset: 92962},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14659,10 +14659,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 578, col: 9, offset: 18169},
 											expr: &actionExpr{
-												pos: position{line: 2934, col: 10, offset: 92906},
+												pos: position{line: 2935, col: 10, offset: 92962},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2934, col: 10, offset: 92906},
+													pos:        position{line: 2935, col: 10, offset: 92962},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14741,12 +14741,12 @@ var g = &grammar{
 							pos: position{line: 591, col: 9, offset: 18486},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2828, col: 14, offset: 90075},
+									pos: position{line: 2829, col: 14, offset: 90131},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2828, col: 14, offset: 90075},
+										pos: position{line: 2829, col: 14, offset: 90131},
 										expr: &charClassMatcher{
-											pos:        position{line: 2828, col: 14, offset: 90075},
+											pos:        position{line: 2829, col: 14, offset: 90131},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14755,10 +14755,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2934, col: 10, offset: 92906},
+									pos: position{line: 2935, col: 10, offset: 92962},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2934, col: 10, offset: 92906},
+										pos:        position{line: 2935, col: 10, offset: 92962},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15215,10 +15215,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 614, col: 14, offset: 19333},
 											expr: &actionExpr{
-												pos: position{line: 2934, col: 10, offset: 92906},
+												pos: position{line: 2935, col: 10, offset: 92962},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2934, col: 10, offset: 92906},
+													pos:        position{line: 2935, col: 10, offset: 92962},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -15255,12 +15255,12 @@ var g = &grammar{
 							pos: position{line: 620, col: 9, offset: 19444},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2828, col: 14, offset: 90075},
+									pos: position{line: 2829, col: 14, offset: 90131},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2828, col: 14, offset: 90075},
+										pos: position{line: 2829, col: 14, offset: 90131},
 										expr: &charClassMatcher{
-											pos:        position{line: 2828, col: 14, offset: 90075},
+											pos:        position{line: 2829, col: 14, offset: 90131},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -15269,10 +15269,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2934, col: 10, offset: 92906},
+									pos: position{line: 2935, col: 10, offset: 92962},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2934, col: 10, offset: 92906},
+										pos:        position{line: 2935, col: 10, offset: 92962},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15699,10 +15699,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 644, col: 5, offset: 20407},
 							expr: &actionExpr{
-								pos: position{line: 2934, col: 10, offset: 92906},
+								pos: position{line: 2935, col: 10, offset: 92962},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2934, col: 10, offset: 92906},
+									pos:        position{line: 2935, col: 10, offset: 92962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -16092,10 +16092,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2934, col: 10, offset: 92906},
+											pos: position{line: 2935, col: 10, offset: 92962},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2934, col: 10, offset: 92906},
+												pos:        position{line: 2935, col: 10, offset: 92962},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -16146,12 +16146,12 @@ var g = &grammar{
 									pos:   position{line: 711, col: 32, offset: 22937},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2919, col: 7, offset: 92558},
+										pos: position{line: 2920, col: 7, offset: 92614},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2919, col: 7, offset: 92558},
+											pos: position{line: 2920, col: 7, offset: 92614},
 											expr: &charClassMatcher{
-												pos:        position{line: 2919, col: 7, offset: 92558},
+												pos:        position{line: 2920, col: 7, offset: 92614},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -16163,10 +16163,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 711, col: 40, offset: 22945},
 									expr: &actionExpr{
-										pos: position{line: 2934, col: 10, offset: 92906},
+										pos: position{line: 2935, col: 10, offset: 92962},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2934, col: 10, offset: 92906},
+											pos:        position{line: 2935, col: 10, offset: 92962},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -16359,12 +16359,12 @@ var g = &grammar{
 									pos:   position{line: 713, col: 14, offset: 23062},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2919, col: 7, offset: 92558},
+										pos: position{line: 2920, col: 7, offset: 92614},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2919, col: 7, offset: 92558},
+											pos: position{line: 2920, col: 7, offset: 92614},
 											expr: &charClassMatcher{
-												pos:        position{line: 2919, col: 7, offset: 92558},
+												pos:        position{line: 2920, col: 7, offset: 92614},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -16408,41 +16408,41 @@ var g = &grammar{
 							pos:   position{line: 717, col: 35, offset: 23175},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2888, col: 17, offset: 91569},
+								pos: position{line: 2889, col: 17, offset: 91625},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2888, col: 17, offset: 91569},
+									pos:   position{line: 2889, col: 17, offset: 91625},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2905, col: 5, offset: 92023},
+										pos: position{line: 2906, col: 5, offset: 92079},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2905, col: 5, offset: 92023},
+											pos:   position{line: 2906, col: 5, offset: 92079},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2905, col: 14, offset: 92032},
+												pos: position{line: 2906, col: 14, offset: 92088},
 												expr: &choiceExpr{
-													pos: position{line: 2906, col: 9, offset: 92042},
+													pos: position{line: 2907, col: 9, offset: 92098},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2906, col: 9, offset: 92042},
+															pos: position{line: 2907, col: 9, offset: 92098},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2906, col: 9, offset: 92042},
+																pos: position{line: 2907, col: 9, offset: 92098},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2906, col: 9, offset: 92042},
+																		pos: position{line: 2907, col: 9, offset: 92098},
 																		expr: &litMatcher{
-																			pos:        position{line: 2906, col: 10, offset: 92043},
+																			pos:        position{line: 2907, col: 10, offset: 92099},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2907, col: 9, offset: 92071},
+																		pos: position{line: 2908, col: 9, offset: 92127},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2907, col: 10, offset: 92072},
+																			pos:        position{line: 2908, col: 10, offset: 92128},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -16453,27 +16453,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2910, col: 11, offset: 92284},
+															pos: position{line: 2911, col: 11, offset: 92340},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2910, col: 11, offset: 92284},
+																	pos:        position{line: 2911, col: 11, offset: 92340},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2910, col: 19, offset: 92292},
+																	pos: position{line: 2911, col: 19, offset: 92348},
 																	expr: &seqExpr{
-																		pos: position{line: 2910, col: 21, offset: 92294},
+																		pos: position{line: 2911, col: 21, offset: 92350},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2910, col: 21, offset: 92294},
+																				pos: position{line: 2911, col: 21, offset: 92350},
 																				expr: &actionExpr{
-																					pos: position{line: 2934, col: 10, offset: 92906},
+																					pos: position{line: 2935, col: 10, offset: 92962},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2934, col: 10, offset: 92906},
+																						pos:        position{line: 2935, col: 10, offset: 92962},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -16482,11 +16482,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2910, col: 28, offset: 92301},
+																				pos: position{line: 2911, col: 28, offset: 92357},
 																				expr: &notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -16885,10 +16885,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2913, col: 11, offset: 92421},
+															pos: position{line: 2914, col: 11, offset: 92477},
 															run: (*parser).callonExternalCrossReference105,
 															expr: &litMatcher{
-																pos:        position{line: 2913, col: 11, offset: 92421},
+																pos:        position{line: 2914, col: 11, offset: 92477},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16933,12 +16933,12 @@ var g = &grammar{
 							pos:   position{line: 1014, col: 11, offset: 31894},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2884, col: 14, offset: 91499},
+								pos: position{line: 2885, col: 14, offset: 91555},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2884, col: 14, offset: 91499},
+									pos: position{line: 2885, col: 14, offset: 91555},
 									expr: &charClassMatcher{
-										pos:        position{line: 2884, col: 14, offset: 91499},
+										pos:        position{line: 2885, col: 14, offset: 91555},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16948,28 +16948,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2956, col: 8, offset: 93304},
+							pos: position{line: 2957, col: 8, offset: 93360},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2943, col: 12, offset: 93077},
+									pos: position{line: 2944, col: 12, offset: 93133},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2943, col: 13, offset: 93078},
+										pos: position{line: 2944, col: 13, offset: 93134},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2943, col: 13, offset: 93078},
+												pos:        position{line: 2944, col: 13, offset: 93134},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 20, offset: 93085},
+												pos:        position{line: 2944, col: 20, offset: 93141},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 29, offset: 93094},
+												pos:        position{line: 2944, col: 29, offset: 93150},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16978,9 +16978,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2953, col: 8, offset: 93254},
+									pos: position{line: 2954, col: 8, offset: 93310},
 									expr: &anyMatcher{
-										line: 2953, col: 9, offset: 93255,
+										line: 2954, col: 9, offset: 93311,
 									},
 								},
 							},
@@ -17008,36 +17008,36 @@ var g = &grammar{
 								pos: position{line: 1129, col: 6, offset: 34896},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2537, col: 22, offset: 81684},
+										pos: position{line: 2538, col: 22, offset: 81740},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2537, col: 22, offset: 81684},
+											pos: position{line: 2538, col: 22, offset: 81740},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2542, col: 31, offset: 81934},
+													pos:        position{line: 2543, col: 31, offset: 81990},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2542, col: 36, offset: 81939},
+													pos: position{line: 2543, col: 36, offset: 81995},
 													expr: &litMatcher{
-														pos:        position{line: 2542, col: 37, offset: 81940},
+														pos:        position{line: 2543, col: 37, offset: 81996},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2537, col: 49, offset: 81711},
+													pos:   position{line: 2538, col: 49, offset: 81767},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 13, offset: 91432},
+														pos: position{line: 2881, col: 13, offset: 91488},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2880, col: 13, offset: 91432},
+															pos: position{line: 2881, col: 13, offset: 91488},
 															expr: &charClassMatcher{
-																pos:        position{line: 2880, col: 13, offset: 91432},
+																pos:        position{line: 2881, col: 13, offset: 91488},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17047,28 +17047,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2956, col: 8, offset: 93304},
+													pos: position{line: 2957, col: 8, offset: 93360},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93077},
+															pos: position{line: 2944, col: 12, offset: 93133},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93078},
+																pos: position{line: 2944, col: 13, offset: 93134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93078},
+																		pos:        position{line: 2944, col: 13, offset: 93134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93085},
+																		pos:        position{line: 2944, col: 20, offset: 93141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93094},
+																		pos:        position{line: 2944, col: 29, offset: 93150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17077,9 +17077,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93254},
+															pos: position{line: 2954, col: 8, offset: 93310},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93255,
+																line: 2954, col: 9, offset: 93311,
 															},
 														},
 													},
@@ -17130,10 +17130,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 767, col: 8, offset: 24774},
 																expr: &actionExpr{
-																	pos: position{line: 2934, col: 10, offset: 92906},
+																	pos: position{line: 2935, col: 10, offset: 92962},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2934, col: 10, offset: 92906},
+																		pos:        position{line: 2935, col: 10, offset: 92962},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17142,28 +17142,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2956, col: 8, offset: 93304},
+																pos: position{line: 2957, col: 8, offset: 93360},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2943, col: 12, offset: 93077},
+																		pos: position{line: 2944, col: 12, offset: 93133},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2943, col: 13, offset: 93078},
+																			pos: position{line: 2944, col: 13, offset: 93134},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 13, offset: 93078},
+																					pos:        position{line: 2944, col: 13, offset: 93134},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 20, offset: 93085},
+																					pos:        position{line: 2944, col: 20, offset: 93141},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 29, offset: 93094},
+																					pos:        position{line: 2944, col: 29, offset: 93150},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17172,9 +17172,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93254},
+																		pos: position{line: 2954, col: 8, offset: 93310},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93255,
+																			line: 2954, col: 9, offset: 93311,
 																		},
 																	},
 																},
@@ -17235,10 +17235,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 767, col: 8, offset: 24774},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92906},
+																									pos: position{line: 2935, col: 10, offset: 92962},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92906},
+																										pos:        position{line: 2935, col: 10, offset: 92962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17247,28 +17247,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2956, col: 8, offset: 93304},
+																								pos: position{line: 2957, col: 8, offset: 93360},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2943, col: 12, offset: 93077},
+																										pos: position{line: 2944, col: 12, offset: 93133},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2943, col: 13, offset: 93078},
+																											pos: position{line: 2944, col: 13, offset: 93134},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 13, offset: 93078},
+																													pos:        position{line: 2944, col: 13, offset: 93134},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 20, offset: 93085},
+																													pos:        position{line: 2944, col: 20, offset: 93141},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 29, offset: 93094},
+																													pos:        position{line: 2944, col: 29, offset: 93150},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17277,9 +17277,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93254},
+																										pos: position{line: 2954, col: 8, offset: 93310},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93255,
+																											line: 2954, col: 9, offset: 93311,
 																										},
 																									},
 																								},
@@ -17288,9 +17288,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -17306,21 +17306,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2951, col: 11, offset: 93240},
+																						pos: position{line: 2952, col: 11, offset: 93296},
 																						expr: &anyMatcher{
-																							line: 2951, col: 13, offset: 93242,
+																							line: 2952, col: 13, offset: 93298,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 13, offset: 91432},
+																							pos: position{line: 2881, col: 13, offset: 91488},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2880, col: 13, offset: 91432},
+																								pos: position{line: 2881, col: 13, offset: 91488},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 13, offset: 91432},
+																									pos:        position{line: 2881, col: 13, offset: 91488},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17330,28 +17330,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93304},
+																						pos: position{line: 2957, col: 8, offset: 93360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93077},
+																								pos: position{line: 2944, col: 12, offset: 93133},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93078},
+																									pos: position{line: 2944, col: 13, offset: 93134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93078},
+																											pos:        position{line: 2944, col: 13, offset: 93134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93085},
+																											pos:        position{line: 2944, col: 20, offset: 93141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93094},
+																											pos:        position{line: 2944, col: 29, offset: 93150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17360,9 +17360,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93254},
+																								pos: position{line: 2954, col: 8, offset: 93310},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93255,
+																									line: 2954, col: 9, offset: 93311,
 																								},
 																							},
 																						},
@@ -17418,10 +17418,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 767, col: 8, offset: 24774},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92906},
+																				pos: position{line: 2935, col: 10, offset: 92962},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92906},
+																					pos:        position{line: 2935, col: 10, offset: 92962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -17430,28 +17430,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93304},
+																			pos: position{line: 2957, col: 8, offset: 93360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93077},
+																					pos: position{line: 2944, col: 12, offset: 93133},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93078},
+																						pos: position{line: 2944, col: 13, offset: 93134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93078},
+																								pos:        position{line: 2944, col: 13, offset: 93134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93085},
+																								pos:        position{line: 2944, col: 20, offset: 93141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93094},
+																								pos:        position{line: 2944, col: 29, offset: 93150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -17460,9 +17460,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -17471,9 +17471,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93254},
+																pos: position{line: 2954, col: 8, offset: 93310},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93255,
+																	line: 2954, col: 9, offset: 93311,
 																},
 															},
 														},
@@ -17499,36 +17499,36 @@ var g = &grammar{
 								pos: position{line: 1131, col: 6, offset: 35019},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2537, col: 22, offset: 81684},
+										pos: position{line: 2538, col: 22, offset: 81740},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2537, col: 22, offset: 81684},
+											pos: position{line: 2538, col: 22, offset: 81740},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2542, col: 31, offset: 81934},
+													pos:        position{line: 2543, col: 31, offset: 81990},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2542, col: 36, offset: 81939},
+													pos: position{line: 2543, col: 36, offset: 81995},
 													expr: &litMatcher{
-														pos:        position{line: 2542, col: 37, offset: 81940},
+														pos:        position{line: 2543, col: 37, offset: 81996},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2537, col: 49, offset: 81711},
+													pos:   position{line: 2538, col: 49, offset: 81767},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 13, offset: 91432},
+														pos: position{line: 2881, col: 13, offset: 91488},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2880, col: 13, offset: 91432},
+															pos: position{line: 2881, col: 13, offset: 91488},
 															expr: &charClassMatcher{
-																pos:        position{line: 2880, col: 13, offset: 91432},
+																pos:        position{line: 2881, col: 13, offset: 91488},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17538,28 +17538,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2956, col: 8, offset: 93304},
+													pos: position{line: 2957, col: 8, offset: 93360},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93077},
+															pos: position{line: 2944, col: 12, offset: 93133},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93078},
+																pos: position{line: 2944, col: 13, offset: 93134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93078},
+																		pos:        position{line: 2944, col: 13, offset: 93134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93085},
+																		pos:        position{line: 2944, col: 20, offset: 93141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93094},
+																		pos:        position{line: 2944, col: 29, offset: 93150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17568,9 +17568,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93254},
+															pos: position{line: 2954, col: 8, offset: 93310},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93255,
+																line: 2954, col: 9, offset: 93311,
 															},
 														},
 													},
@@ -17621,10 +17621,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 767, col: 8, offset: 24774},
 																expr: &actionExpr{
-																	pos: position{line: 2934, col: 10, offset: 92906},
+																	pos: position{line: 2935, col: 10, offset: 92962},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2934, col: 10, offset: 92906},
+																		pos:        position{line: 2935, col: 10, offset: 92962},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17633,28 +17633,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2956, col: 8, offset: 93304},
+																pos: position{line: 2957, col: 8, offset: 93360},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2943, col: 12, offset: 93077},
+																		pos: position{line: 2944, col: 12, offset: 93133},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2943, col: 13, offset: 93078},
+																			pos: position{line: 2944, col: 13, offset: 93134},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 13, offset: 93078},
+																					pos:        position{line: 2944, col: 13, offset: 93134},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 20, offset: 93085},
+																					pos:        position{line: 2944, col: 20, offset: 93141},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 29, offset: 93094},
+																					pos:        position{line: 2944, col: 29, offset: 93150},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17663,9 +17663,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93254},
+																		pos: position{line: 2954, col: 8, offset: 93310},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93255,
+																			line: 2954, col: 9, offset: 93311,
 																		},
 																	},
 																},
@@ -17726,10 +17726,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 767, col: 8, offset: 24774},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92906},
+																									pos: position{line: 2935, col: 10, offset: 92962},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92906},
+																										pos:        position{line: 2935, col: 10, offset: 92962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17738,28 +17738,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2956, col: 8, offset: 93304},
+																								pos: position{line: 2957, col: 8, offset: 93360},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2943, col: 12, offset: 93077},
+																										pos: position{line: 2944, col: 12, offset: 93133},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2943, col: 13, offset: 93078},
+																											pos: position{line: 2944, col: 13, offset: 93134},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 13, offset: 93078},
+																													pos:        position{line: 2944, col: 13, offset: 93134},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 20, offset: 93085},
+																													pos:        position{line: 2944, col: 20, offset: 93141},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 29, offset: 93094},
+																													pos:        position{line: 2944, col: 29, offset: 93150},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17768,9 +17768,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93254},
+																										pos: position{line: 2954, col: 8, offset: 93310},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93255,
+																											line: 2954, col: 9, offset: 93311,
 																										},
 																									},
 																								},
@@ -17779,9 +17779,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -17797,21 +17797,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2951, col: 11, offset: 93240},
+																						pos: position{line: 2952, col: 11, offset: 93296},
 																						expr: &anyMatcher{
-																							line: 2951, col: 13, offset: 93242,
+																							line: 2952, col: 13, offset: 93298,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 13, offset: 91432},
+																							pos: position{line: 2881, col: 13, offset: 91488},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2880, col: 13, offset: 91432},
+																								pos: position{line: 2881, col: 13, offset: 91488},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 13, offset: 91432},
+																									pos:        position{line: 2881, col: 13, offset: 91488},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17821,28 +17821,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93304},
+																						pos: position{line: 2957, col: 8, offset: 93360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93077},
+																								pos: position{line: 2944, col: 12, offset: 93133},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93078},
+																									pos: position{line: 2944, col: 13, offset: 93134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93078},
+																											pos:        position{line: 2944, col: 13, offset: 93134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93085},
+																											pos:        position{line: 2944, col: 20, offset: 93141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93094},
+																											pos:        position{line: 2944, col: 29, offset: 93150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17851,9 +17851,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93254},
+																								pos: position{line: 2954, col: 8, offset: 93310},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93255,
+																									line: 2954, col: 9, offset: 93311,
 																								},
 																							},
 																						},
@@ -17909,10 +17909,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 767, col: 8, offset: 24774},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92906},
+																				pos: position{line: 2935, col: 10, offset: 92962},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92906},
+																					pos:        position{line: 2935, col: 10, offset: 92962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -17921,28 +17921,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93304},
+																			pos: position{line: 2957, col: 8, offset: 93360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93077},
+																					pos: position{line: 2944, col: 12, offset: 93133},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93078},
+																						pos: position{line: 2944, col: 13, offset: 93134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93078},
+																								pos:        position{line: 2944, col: 13, offset: 93134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93085},
+																								pos:        position{line: 2944, col: 20, offset: 93141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93094},
+																								pos:        position{line: 2944, col: 29, offset: 93150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -17951,9 +17951,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -17962,9 +17962,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93254},
+																pos: position{line: 2954, col: 8, offset: 93310},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93255,
+																	line: 2954, col: 9, offset: 93311,
 																},
 															},
 														},
@@ -18008,10 +18008,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1150, col: 20, offset: 35774},
 																expr: &actionExpr{
-																	pos: position{line: 2934, col: 10, offset: 92906},
+																	pos: position{line: 2935, col: 10, offset: 92962},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2934, col: 10, offset: 92906},
+																		pos:        position{line: 2935, col: 10, offset: 92962},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -18062,10 +18062,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1169, col: 5, offset: 36379},
 																										expr: &actionExpr{
-																											pos: position{line: 2934, col: 10, offset: 92906},
+																											pos: position{line: 2935, col: 10, offset: 92962},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2934, col: 10, offset: 92906},
+																												pos:        position{line: 2935, col: 10, offset: 92962},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -18097,10 +18097,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1173, col: 5, offset: 36478},
 																										expr: &actionExpr{
-																											pos: position{line: 2934, col: 10, offset: 92906},
+																											pos: position{line: 2935, col: 10, offset: 92962},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2934, col: 10, offset: 92906},
+																												pos:        position{line: 2935, col: 10, offset: 92962},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -18132,10 +18132,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1177, col: 5, offset: 36575},
 																										expr: &actionExpr{
-																											pos: position{line: 2934, col: 10, offset: 92906},
+																											pos: position{line: 2935, col: 10, offset: 92962},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2934, col: 10, offset: 92906},
+																												pos:        position{line: 2935, col: 10, offset: 92962},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -18160,9 +18160,9 @@ var g = &grammar{
 																								pos: position{line: 1183, col: 5, offset: 36697},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2951, col: 11, offset: 93240},
+																										pos: position{line: 2952, col: 11, offset: 93296},
 																										expr: &anyMatcher{
-																											line: 2951, col: 13, offset: 93242,
+																											line: 2952, col: 13, offset: 93298,
 																										},
 																									},
 																									&litMatcher{
@@ -18203,10 +18203,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1155, col: 69, offset: 35967},
 																					expr: &actionExpr{
-																						pos: position{line: 2934, col: 10, offset: 92906},
+																						pos: position{line: 2935, col: 10, offset: 92962},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2934, col: 10, offset: 92906},
+																							pos:        position{line: 2935, col: 10, offset: 92962},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18226,10 +18226,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1155, col: 81, offset: 35979},
 																					expr: &actionExpr{
-																						pos: position{line: 2934, col: 10, offset: 92906},
+																						pos: position{line: 2935, col: 10, offset: 92962},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2934, col: 10, offset: 92906},
+																							pos:        position{line: 2935, col: 10, offset: 92962},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18247,28 +18247,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2956, col: 8, offset: 93304},
+																pos: position{line: 2957, col: 8, offset: 93360},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2943, col: 12, offset: 93077},
+																		pos: position{line: 2944, col: 12, offset: 93133},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2943, col: 13, offset: 93078},
+																			pos: position{line: 2944, col: 13, offset: 93134},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 13, offset: 93078},
+																					pos:        position{line: 2944, col: 13, offset: 93134},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 20, offset: 93085},
+																					pos:        position{line: 2944, col: 20, offset: 93141},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 29, offset: 93094},
+																					pos:        position{line: 2944, col: 29, offset: 93150},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -18277,9 +18277,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93254},
+																		pos: position{line: 2954, col: 8, offset: 93310},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93255,
+																			line: 2954, col: 9, offset: 93311,
 																		},
 																	},
 																},
@@ -18294,36 +18294,36 @@ var g = &grammar{
 													pos: position{line: 1145, col: 6, offset: 35549},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2537, col: 22, offset: 81684},
+															pos: position{line: 2538, col: 22, offset: 81740},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2537, col: 22, offset: 81684},
+																pos: position{line: 2538, col: 22, offset: 81740},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2542, col: 31, offset: 81934},
+																		pos:        position{line: 2543, col: 31, offset: 81990},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2542, col: 36, offset: 81939},
+																		pos: position{line: 2543, col: 36, offset: 81995},
 																		expr: &litMatcher{
-																			pos:        position{line: 2542, col: 37, offset: 81940},
+																			pos:        position{line: 2543, col: 37, offset: 81996},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2537, col: 49, offset: 81711},
+																		pos:   position{line: 2538, col: 49, offset: 81767},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 13, offset: 91432},
+																			pos: position{line: 2881, col: 13, offset: 91488},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2880, col: 13, offset: 91432},
+																				pos: position{line: 2881, col: 13, offset: 91488},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 13, offset: 91432},
+																					pos:        position{line: 2881, col: 13, offset: 91488},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -18333,28 +18333,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93304},
+																		pos: position{line: 2957, col: 8, offset: 93360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18363,9 +18363,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93254},
+																				pos: position{line: 2954, col: 8, offset: 93310},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93255,
+																					line: 2954, col: 9, offset: 93311,
 																				},
 																			},
 																		},
@@ -18416,10 +18416,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 767, col: 8, offset: 24774},
 																					expr: &actionExpr{
-																						pos: position{line: 2934, col: 10, offset: 92906},
+																						pos: position{line: 2935, col: 10, offset: 92962},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2934, col: 10, offset: 92906},
+																							pos:        position{line: 2935, col: 10, offset: 92962},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18428,28 +18428,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2956, col: 8, offset: 93304},
+																					pos: position{line: 2957, col: 8, offset: 93360},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2943, col: 12, offset: 93077},
+																							pos: position{line: 2944, col: 12, offset: 93133},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2943, col: 13, offset: 93078},
+																								pos: position{line: 2944, col: 13, offset: 93134},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 13, offset: 93078},
+																										pos:        position{line: 2944, col: 13, offset: 93134},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 20, offset: 93085},
+																										pos:        position{line: 2944, col: 20, offset: 93141},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 29, offset: 93094},
+																										pos:        position{line: 2944, col: 29, offset: 93150},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -18458,9 +18458,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93254},
+																							pos: position{line: 2954, col: 8, offset: 93310},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93255,
+																								line: 2954, col: 9, offset: 93311,
 																							},
 																						},
 																					},
@@ -18521,10 +18521,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 767, col: 8, offset: 24774},
 																													expr: &actionExpr{
-																														pos: position{line: 2934, col: 10, offset: 92906},
+																														pos: position{line: 2935, col: 10, offset: 92962},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2934, col: 10, offset: 92906},
+																															pos:        position{line: 2935, col: 10, offset: 92962},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18533,28 +18533,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2956, col: 8, offset: 93304},
+																													pos: position{line: 2957, col: 8, offset: 93360},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2943, col: 12, offset: 93077},
+																															pos: position{line: 2944, col: 12, offset: 93133},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2943, col: 13, offset: 93078},
+																																pos: position{line: 2944, col: 13, offset: 93134},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2943, col: 13, offset: 93078},
+																																		pos:        position{line: 2944, col: 13, offset: 93134},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2943, col: 20, offset: 93085},
+																																		pos:        position{line: 2944, col: 20, offset: 93141},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2943, col: 29, offset: 93094},
+																																		pos:        position{line: 2944, col: 29, offset: 93150},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -18563,9 +18563,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2953, col: 8, offset: 93254},
+																															pos: position{line: 2954, col: 8, offset: 93310},
 																															expr: &anyMatcher{
-																																line: 2953, col: 9, offset: 93255,
+																																line: 2954, col: 9, offset: 93311,
 																															},
 																														},
 																													},
@@ -18574,9 +18574,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93254},
+																										pos: position{line: 2954, col: 8, offset: 93310},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93255,
+																											line: 2954, col: 9, offset: 93311,
 																										},
 																									},
 																								},
@@ -18592,21 +18592,21 @@ var g = &grammar{
 																									pos: position{line: 836, col: 5, offset: 27176},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2951, col: 11, offset: 93240},
+																											pos: position{line: 2952, col: 11, offset: 93296},
 																											expr: &anyMatcher{
-																												line: 2951, col: 13, offset: 93242,
+																												line: 2952, col: 13, offset: 93298,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 837, col: 5, offset: 27251},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2880, col: 13, offset: 91432},
+																												pos: position{line: 2881, col: 13, offset: 91488},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2880, col: 13, offset: 91432},
+																													pos: position{line: 2881, col: 13, offset: 91488},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2880, col: 13, offset: 91432},
+																														pos:        position{line: 2881, col: 13, offset: 91488},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18616,28 +18616,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93304},
+																											pos: position{line: 2957, col: 8, offset: 93360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93077},
+																													pos: position{line: 2944, col: 12, offset: 93133},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93078},
+																														pos: position{line: 2944, col: 13, offset: 93134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93078},
+																																pos:        position{line: 2944, col: 13, offset: 93134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93085},
+																																pos:        position{line: 2944, col: 20, offset: 93141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93094},
+																																pos:        position{line: 2944, col: 29, offset: 93150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18646,9 +18646,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93254},
+																													pos: position{line: 2954, col: 8, offset: 93310},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93255,
+																														line: 2954, col: 9, offset: 93311,
 																													},
 																												},
 																											},
@@ -18704,10 +18704,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 767, col: 8, offset: 24774},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92906},
+																									pos: position{line: 2935, col: 10, offset: 92962},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92906},
+																										pos:        position{line: 2935, col: 10, offset: 92962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -18716,28 +18716,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2956, col: 8, offset: 93304},
+																								pos: position{line: 2957, col: 8, offset: 93360},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2943, col: 12, offset: 93077},
+																										pos: position{line: 2944, col: 12, offset: 93133},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2943, col: 13, offset: 93078},
+																											pos: position{line: 2944, col: 13, offset: 93134},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 13, offset: 93078},
+																													pos:        position{line: 2944, col: 13, offset: 93134},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 20, offset: 93085},
+																													pos:        position{line: 2944, col: 20, offset: 93141},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 29, offset: 93094},
+																													pos:        position{line: 2944, col: 29, offset: 93150},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -18746,9 +18746,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93254},
+																										pos: position{line: 2954, col: 8, offset: 93310},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93255,
+																											line: 2954, col: 9, offset: 93311,
 																										},
 																									},
 																								},
@@ -18757,9 +18757,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -18785,10 +18785,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1194, col: 21, offset: 36975},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92906},
+																		pos: position{line: 2935, col: 10, offset: 92962},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92906},
+																			pos:        position{line: 2935, col: 10, offset: 92962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18890,10 +18890,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1206, col: 28, offset: 37606},
 																													expr: &actionExpr{
-																														pos: position{line: 2934, col: 10, offset: 92906},
+																														pos: position{line: 2935, col: 10, offset: 92962},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2934, col: 10, offset: 92906},
+																															pos:        position{line: 2935, col: 10, offset: 92962},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -19040,28 +19040,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93304},
+																	pos: position{line: 2957, col: 8, offset: 93360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93077},
+																			pos: position{line: 2944, col: 12, offset: 93133},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93078},
+																				pos: position{line: 2944, col: 13, offset: 93134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93078},
+																						pos:        position{line: 2944, col: 13, offset: 93134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93085},
+																						pos:        position{line: 2944, col: 20, offset: 93141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93094},
+																						pos:        position{line: 2944, col: 29, offset: 93150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -19070,9 +19070,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93254},
+																			pos: position{line: 2954, col: 8, offset: 93310},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93255,
+																				line: 2954, col: 9, offset: 93311,
 																			},
 																		},
 																	},
@@ -19152,10 +19152,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 49, offset: 11042},
 														expr: &actionExpr{
-															pos: position{line: 2934, col: 10, offset: 92906},
+															pos: position{line: 2935, col: 10, offset: 92962},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2934, col: 10, offset: 92906},
+																pos:        position{line: 2935, col: 10, offset: 92962},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19164,28 +19164,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2956, col: 8, offset: 93304},
+														pos: position{line: 2957, col: 8, offset: 93360},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93077},
+																pos: position{line: 2944, col: 12, offset: 93133},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93078},
+																	pos: position{line: 2944, col: 13, offset: 93134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93078},
+																			pos:        position{line: 2944, col: 13, offset: 93134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93085},
+																			pos:        position{line: 2944, col: 20, offset: 93141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93094},
+																			pos:        position{line: 2944, col: 29, offset: 93150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19194,9 +19194,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93254},
+																pos: position{line: 2954, col: 8, offset: 93310},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93255,
+																	line: 2954, col: 9, offset: 93311,
 																},
 															},
 														},
@@ -19257,10 +19257,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 364, col: 39, offset: 11163},
 														expr: &actionExpr{
-															pos: position{line: 2934, col: 10, offset: 92906},
+															pos: position{line: 2935, col: 10, offset: 92962},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2934, col: 10, offset: 92906},
+																pos:        position{line: 2935, col: 10, offset: 92962},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19269,28 +19269,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2956, col: 8, offset: 93304},
+														pos: position{line: 2957, col: 8, offset: 93360},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93077},
+																pos: position{line: 2944, col: 12, offset: 93133},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93078},
+																	pos: position{line: 2944, col: 13, offset: 93134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93078},
+																			pos:        position{line: 2944, col: 13, offset: 93134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93085},
+																			pos:        position{line: 2944, col: 20, offset: 93141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93094},
+																			pos:        position{line: 2944, col: 29, offset: 93150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19299,9 +19299,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93254},
+																pos: position{line: 2954, col: 8, offset: 93310},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93255,
+																	line: 2954, col: 9, offset: 93311,
 																},
 															},
 														},
@@ -19310,36 +19310,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2537, col: 22, offset: 81684},
+											pos: position{line: 2538, col: 22, offset: 81740},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2537, col: 22, offset: 81684},
+												pos: position{line: 2538, col: 22, offset: 81740},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2542, col: 31, offset: 81934},
+														pos:        position{line: 2543, col: 31, offset: 81990},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2542, col: 36, offset: 81939},
+														pos: position{line: 2543, col: 36, offset: 81995},
 														expr: &litMatcher{
-															pos:        position{line: 2542, col: 37, offset: 81940},
+															pos:        position{line: 2543, col: 37, offset: 81996},
 															val:        "/",
 															ignoreCase: false,
 															want:       "\"/\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2537, col: 49, offset: 81711},
+														pos:   position{line: 2538, col: 49, offset: 81767},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2880, col: 13, offset: 91432},
+															pos: position{line: 2881, col: 13, offset: 91488},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2880, col: 13, offset: 91432},
+																pos: position{line: 2881, col: 13, offset: 91488},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2880, col: 13, offset: 91432},
+																	pos:        position{line: 2881, col: 13, offset: 91488},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -19349,28 +19349,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2956, col: 8, offset: 93304},
+														pos: position{line: 2957, col: 8, offset: 93360},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93077},
+																pos: position{line: 2944, col: 12, offset: 93133},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93078},
+																	pos: position{line: 2944, col: 13, offset: 93134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93078},
+																			pos:        position{line: 2944, col: 13, offset: 93134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93085},
+																			pos:        position{line: 2944, col: 20, offset: 93141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93094},
+																			pos:        position{line: 2944, col: 29, offset: 93150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19379,9 +19379,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93254},
+																pos: position{line: 2954, col: 8, offset: 93310},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93255,
+																	line: 2954, col: 9, offset: 93311,
 																},
 															},
 														},
@@ -19432,10 +19432,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 767, col: 8, offset: 24774},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92906},
+																		pos: position{line: 2935, col: 10, offset: 92962},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92906},
+																			pos:        position{line: 2935, col: 10, offset: 92962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -19444,28 +19444,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93304},
+																	pos: position{line: 2957, col: 8, offset: 93360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93077},
+																			pos: position{line: 2944, col: 12, offset: 93133},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93078},
+																				pos: position{line: 2944, col: 13, offset: 93134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93078},
+																						pos:        position{line: 2944, col: 13, offset: 93134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93085},
+																						pos:        position{line: 2944, col: 20, offset: 93141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93094},
+																						pos:        position{line: 2944, col: 29, offset: 93150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -19474,9 +19474,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93254},
+																			pos: position{line: 2954, col: 8, offset: 93310},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93255,
+																				line: 2954, col: 9, offset: 93311,
 																			},
 																		},
 																	},
@@ -19537,10 +19537,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 767, col: 8, offset: 24774},
 																									expr: &actionExpr{
-																										pos: position{line: 2934, col: 10, offset: 92906},
+																										pos: position{line: 2935, col: 10, offset: 92962},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2934, col: 10, offset: 92906},
+																											pos:        position{line: 2935, col: 10, offset: 92962},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -19549,28 +19549,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2956, col: 8, offset: 93304},
+																									pos: position{line: 2957, col: 8, offset: 93360},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2943, col: 12, offset: 93077},
+																											pos: position{line: 2944, col: 12, offset: 93133},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2943, col: 13, offset: 93078},
+																												pos: position{line: 2944, col: 13, offset: 93134},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 13, offset: 93078},
+																														pos:        position{line: 2944, col: 13, offset: 93134},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 20, offset: 93085},
+																														pos:        position{line: 2944, col: 20, offset: 93141},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 29, offset: 93094},
+																														pos:        position{line: 2944, col: 29, offset: 93150},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -19579,9 +19579,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2953, col: 8, offset: 93254},
+																											pos: position{line: 2954, col: 8, offset: 93310},
 																											expr: &anyMatcher{
-																												line: 2953, col: 9, offset: 93255,
+																												line: 2954, col: 9, offset: 93311,
 																											},
 																										},
 																									},
@@ -19590,9 +19590,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93254},
+																						pos: position{line: 2954, col: 8, offset: 93310},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93255,
+																							line: 2954, col: 9, offset: 93311,
 																						},
 																					},
 																				},
@@ -19608,21 +19608,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2951, col: 11, offset: 93240},
+																							pos: position{line: 2952, col: 11, offset: 93296},
 																							expr: &anyMatcher{
-																								line: 2951, col: 13, offset: 93242,
+																								line: 2952, col: 13, offset: 93298,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 13, offset: 91432},
+																								pos: position{line: 2881, col: 13, offset: 91488},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2880, col: 13, offset: 91432},
+																									pos: position{line: 2881, col: 13, offset: 91488},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 13, offset: 91432},
+																										pos:        position{line: 2881, col: 13, offset: 91488},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19632,28 +19632,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19662,9 +19662,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -19720,10 +19720,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 767, col: 8, offset: 24774},
 																				expr: &actionExpr{
-																					pos: position{line: 2934, col: 10, offset: 92906},
+																					pos: position{line: 2935, col: 10, offset: 92962},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2934, col: 10, offset: 92906},
+																						pos:        position{line: 2935, col: 10, offset: 92962},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -19732,28 +19732,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2956, col: 8, offset: 93304},
+																				pos: position{line: 2957, col: 8, offset: 93360},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2943, col: 12, offset: 93077},
+																						pos: position{line: 2944, col: 12, offset: 93133},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2943, col: 13, offset: 93078},
+																							pos: position{line: 2944, col: 13, offset: 93134},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 13, offset: 93078},
+																									pos:        position{line: 2944, col: 13, offset: 93134},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 20, offset: 93085},
+																									pos:        position{line: 2944, col: 20, offset: 93141},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 29, offset: 93094},
+																									pos:        position{line: 2944, col: 29, offset: 93150},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -19762,9 +19762,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93254},
+																						pos: position{line: 2954, col: 8, offset: 93310},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93255,
+																							line: 2954, col: 9, offset: 93311,
 																						},
 																					},
 																				},
@@ -19773,9 +19773,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2953, col: 8, offset: 93254},
+																	pos: position{line: 2954, col: 8, offset: 93310},
 																	expr: &anyMatcher{
-																		line: 2953, col: 9, offset: 93255,
+																		line: 2954, col: 9, offset: 93311,
 																	},
 																},
 															},
@@ -19808,12 +19808,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2938, col: 11, offset: 92967},
+							pos: position{line: 2939, col: 11, offset: 93023},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2938, col: 11, offset: 92967},
+								pos: position{line: 2939, col: 11, offset: 93023},
 								expr: &charClassMatcher{
-									pos:        position{line: 2938, col: 11, offset: 92967},
+									pos:        position{line: 2939, col: 11, offset: 93023},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19830,28 +19830,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2956, col: 8, offset: 93304},
+							pos: position{line: 2957, col: 8, offset: 93360},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2943, col: 12, offset: 93077},
+									pos: position{line: 2944, col: 12, offset: 93133},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2943, col: 13, offset: 93078},
+										pos: position{line: 2944, col: 13, offset: 93134},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2943, col: 13, offset: 93078},
+												pos:        position{line: 2944, col: 13, offset: 93134},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 20, offset: 93085},
+												pos:        position{line: 2944, col: 20, offset: 93141},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 29, offset: 93094},
+												pos:        position{line: 2944, col: 29, offset: 93150},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19860,9 +19860,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2953, col: 8, offset: 93254},
+									pos: position{line: 2954, col: 8, offset: 93310},
 									expr: &anyMatcher{
-										line: 2953, col: 9, offset: 93255,
+										line: 2954, col: 9, offset: 93311,
 									},
 								},
 							},
@@ -19901,10 +19901,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1169, col: 5, offset: 36379},
 							expr: &actionExpr{
-								pos: position{line: 2934, col: 10, offset: 92906},
+								pos: position{line: 2935, col: 10, offset: 92962},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2934, col: 10, offset: 92906},
+									pos:        position{line: 2935, col: 10, offset: 92962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19936,10 +19936,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1173, col: 5, offset: 36478},
 							expr: &actionExpr{
-								pos: position{line: 2934, col: 10, offset: 92906},
+								pos: position{line: 2935, col: 10, offset: 92962},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2934, col: 10, offset: 92906},
+									pos:        position{line: 2935, col: 10, offset: 92962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19971,10 +19971,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1177, col: 5, offset: 36575},
 							expr: &actionExpr{
-								pos: position{line: 2934, col: 10, offset: 92906},
+								pos: position{line: 2935, col: 10, offset: 92962},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2934, col: 10, offset: 92906},
+									pos:        position{line: 2935, col: 10, offset: 92962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20040,12 +20040,12 @@ var g = &grammar{
 							pos:   position{line: 1305, col: 13, offset: 40824},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2919, col: 7, offset: 92558},
+								pos: position{line: 2920, col: 7, offset: 92614},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2919, col: 7, offset: 92558},
+									pos: position{line: 2920, col: 7, offset: 92614},
 									expr: &charClassMatcher{
-										pos:        position{line: 2919, col: 7, offset: 92558},
+										pos:        position{line: 2920, col: 7, offset: 92614},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -20114,12 +20114,12 @@ var g = &grammar{
 							pos: position{line: 1316, col: 31, offset: 41284},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2828, col: 14, offset: 90075},
+									pos: position{line: 2829, col: 14, offset: 90131},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2828, col: 14, offset: 90075},
+										pos: position{line: 2829, col: 14, offset: 90131},
 										expr: &charClassMatcher{
-											pos:        position{line: 2828, col: 14, offset: 90075},
+											pos:        position{line: 2829, col: 14, offset: 90131},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20132,10 +20132,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2934, col: 10, offset: 92906},
+									pos: position{line: 2935, col: 10, offset: 92962},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2934, col: 10, offset: 92906},
+										pos:        position{line: 2935, col: 10, offset: 92962},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -20143,23 +20143,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2524, col: 5, offset: 81230},
+									pos: position{line: 2525, col: 5, offset: 81286},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2524, col: 5, offset: 81230},
+										pos: position{line: 2525, col: 5, offset: 81286},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2524, col: 5, offset: 81230},
+												pos: position{line: 2525, col: 5, offset: 81286},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2527, col: 5, offset: 81306},
+												pos:   position{line: 2528, col: 5, offset: 81362},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2528, col: 9, offset: 81324},
+													pos: position{line: 2529, col: 9, offset: 81380},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2528, col: 10, offset: 81325},
+														pos:        position{line: 2529, col: 10, offset: 81381},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -20259,48 +20259,48 @@ var g = &grammar{
 							pos:   position{line: 1337, col: 15, offset: 42102},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2892, col: 13, offset: 91665},
+								pos: position{line: 2893, col: 13, offset: 91721},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2892, col: 13, offset: 91665},
+									pos: position{line: 2893, col: 13, offset: 91721},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2892, col: 13, offset: 91665},
+											pos:   position{line: 2893, col: 13, offset: 91721},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2892, col: 20, offset: 91672},
+												pos: position{line: 2893, col: 20, offset: 91728},
 												expr: &actionExpr{
-													pos: position{line: 2900, col: 11, offset: 91911},
+													pos: position{line: 2901, col: 11, offset: 91967},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2900, col: 12, offset: 91912},
+														pos: position{line: 2901, col: 12, offset: 91968},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2900, col: 12, offset: 91912},
+																pos:        position{line: 2901, col: 12, offset: 91968},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2900, col: 24, offset: 91924},
+																pos:        position{line: 2901, col: 24, offset: 91980},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2900, col: 37, offset: 91937},
+																pos:        position{line: 2901, col: 37, offset: 91993},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2900, col: 48, offset: 91948},
+																pos:        position{line: 2901, col: 48, offset: 92004},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2900, col: 59, offset: 91959},
+																pos:        position{line: 2901, col: 59, offset: 92015},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20311,38 +20311,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2892, col: 30, offset: 91682},
+											pos:   position{line: 2893, col: 30, offset: 91738},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2905, col: 5, offset: 92023},
+												pos: position{line: 2906, col: 5, offset: 92079},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2905, col: 5, offset: 92023},
+													pos:   position{line: 2906, col: 5, offset: 92079},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2905, col: 14, offset: 92032},
+														pos: position{line: 2906, col: 14, offset: 92088},
 														expr: &choiceExpr{
-															pos: position{line: 2906, col: 9, offset: 92042},
+															pos: position{line: 2907, col: 9, offset: 92098},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2906, col: 9, offset: 92042},
+																	pos: position{line: 2907, col: 9, offset: 92098},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2906, col: 9, offset: 92042},
+																		pos: position{line: 2907, col: 9, offset: 92098},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2906, col: 9, offset: 92042},
+																				pos: position{line: 2907, col: 9, offset: 92098},
 																				expr: &litMatcher{
-																					pos:        position{line: 2906, col: 10, offset: 92043},
+																					pos:        position{line: 2907, col: 10, offset: 92099},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2907, col: 9, offset: 92071},
+																				pos: position{line: 2908, col: 9, offset: 92127},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2907, col: 10, offset: 92072},
+																					pos:        position{line: 2908, col: 10, offset: 92128},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20353,27 +20353,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2910, col: 11, offset: 92284},
+																	pos: position{line: 2911, col: 11, offset: 92340},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2910, col: 11, offset: 92284},
+																			pos:        position{line: 2911, col: 11, offset: 92340},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2910, col: 19, offset: 92292},
+																			pos: position{line: 2911, col: 19, offset: 92348},
 																			expr: &seqExpr{
-																				pos: position{line: 2910, col: 21, offset: 92294},
+																				pos: position{line: 2911, col: 21, offset: 92350},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2910, col: 21, offset: 92294},
+																						pos: position{line: 2911, col: 21, offset: 92350},
 																						expr: &actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92906},
+																							pos: position{line: 2935, col: 10, offset: 92962},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92906},
+																								pos:        position{line: 2935, col: 10, offset: 92962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20382,11 +20382,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2910, col: 28, offset: 92301},
+																						pos: position{line: 2911, col: 28, offset: 92357},
 																						expr: &notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93254},
+																							pos: position{line: 2954, col: 8, offset: 93310},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93255,
+																								line: 2954, col: 9, offset: 93311,
 																							},
 																						},
 																					},
@@ -20785,10 +20785,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2913, col: 11, offset: 92421},
+																	pos: position{line: 2914, col: 11, offset: 92477},
 																	run: (*parser).callonImageBlock115,
 																	expr: &litMatcher{
-																		pos:        position{line: 2913, col: 11, offset: 92421},
+																		pos:        position{line: 2914, col: 11, offset: 92477},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20815,10 +20815,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1337, col: 61, offset: 42148},
 							expr: &actionExpr{
-								pos: position{line: 2934, col: 10, offset: 92906},
+								pos: position{line: 2935, col: 10, offset: 92962},
 								run: (*parser).callonImageBlock120,
 								expr: &charClassMatcher{
-									pos:        position{line: 2934, col: 10, offset: 92906},
+									pos:        position{line: 2935, col: 10, offset: 92962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20827,28 +20827,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2956, col: 8, offset: 93304},
+							pos: position{line: 2957, col: 8, offset: 93360},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2943, col: 12, offset: 93077},
+									pos: position{line: 2944, col: 12, offset: 93133},
 									run: (*parser).callonImageBlock123,
 									expr: &choiceExpr{
-										pos: position{line: 2943, col: 13, offset: 93078},
+										pos: position{line: 2944, col: 13, offset: 93134},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2943, col: 13, offset: 93078},
+												pos:        position{line: 2944, col: 13, offset: 93134},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 20, offset: 93085},
+												pos:        position{line: 2944, col: 20, offset: 93141},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 29, offset: 93094},
+												pos:        position{line: 2944, col: 29, offset: 93150},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20857,9 +20857,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2953, col: 8, offset: 93254},
+									pos: position{line: 2954, col: 8, offset: 93310},
 									expr: &anyMatcher{
-										line: 2953, col: 9, offset: 93255,
+										line: 2954, col: 9, offset: 93311,
 									},
 								},
 							},
@@ -20896,48 +20896,48 @@ var g = &grammar{
 							pos:   position{line: 1342, col: 30, offset: 42394},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2892, col: 13, offset: 91665},
+								pos: position{line: 2893, col: 13, offset: 91721},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2892, col: 13, offset: 91665},
+									pos: position{line: 2893, col: 13, offset: 91721},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2892, col: 13, offset: 91665},
+											pos:   position{line: 2893, col: 13, offset: 91721},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2892, col: 20, offset: 91672},
+												pos: position{line: 2893, col: 20, offset: 91728},
 												expr: &actionExpr{
-													pos: position{line: 2900, col: 11, offset: 91911},
+													pos: position{line: 2901, col: 11, offset: 91967},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2900, col: 12, offset: 91912},
+														pos: position{line: 2901, col: 12, offset: 91968},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2900, col: 12, offset: 91912},
+																pos:        position{line: 2901, col: 12, offset: 91968},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2900, col: 24, offset: 91924},
+																pos:        position{line: 2901, col: 24, offset: 91980},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2900, col: 37, offset: 91937},
+																pos:        position{line: 2901, col: 37, offset: 91993},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2900, col: 48, offset: 91948},
+																pos:        position{line: 2901, col: 48, offset: 92004},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2900, col: 59, offset: 91959},
+																pos:        position{line: 2901, col: 59, offset: 92015},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20948,38 +20948,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2892, col: 30, offset: 91682},
+											pos:   position{line: 2893, col: 30, offset: 91738},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2905, col: 5, offset: 92023},
+												pos: position{line: 2906, col: 5, offset: 92079},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2905, col: 5, offset: 92023},
+													pos:   position{line: 2906, col: 5, offset: 92079},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2905, col: 14, offset: 92032},
+														pos: position{line: 2906, col: 14, offset: 92088},
 														expr: &choiceExpr{
-															pos: position{line: 2906, col: 9, offset: 92042},
+															pos: position{line: 2907, col: 9, offset: 92098},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2906, col: 9, offset: 92042},
+																	pos: position{line: 2907, col: 9, offset: 92098},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2906, col: 9, offset: 92042},
+																		pos: position{line: 2907, col: 9, offset: 92098},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2906, col: 9, offset: 92042},
+																				pos: position{line: 2907, col: 9, offset: 92098},
 																				expr: &litMatcher{
-																					pos:        position{line: 2906, col: 10, offset: 92043},
+																					pos:        position{line: 2907, col: 10, offset: 92099},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2907, col: 9, offset: 92071},
+																				pos: position{line: 2908, col: 9, offset: 92127},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2907, col: 10, offset: 92072},
+																					pos:        position{line: 2908, col: 10, offset: 92128},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20990,27 +20990,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2910, col: 11, offset: 92284},
+																	pos: position{line: 2911, col: 11, offset: 92340},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2910, col: 11, offset: 92284},
+																			pos:        position{line: 2911, col: 11, offset: 92340},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2910, col: 19, offset: 92292},
+																			pos: position{line: 2911, col: 19, offset: 92348},
 																			expr: &seqExpr{
-																				pos: position{line: 2910, col: 21, offset: 92294},
+																				pos: position{line: 2911, col: 21, offset: 92350},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2910, col: 21, offset: 92294},
+																						pos: position{line: 2911, col: 21, offset: 92350},
 																						expr: &actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92906},
+																							pos: position{line: 2935, col: 10, offset: 92962},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92906},
+																								pos:        position{line: 2935, col: 10, offset: 92962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -21019,11 +21019,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2910, col: 28, offset: 92301},
+																						pos: position{line: 2911, col: 28, offset: 92357},
 																						expr: &notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93254},
+																							pos: position{line: 2954, col: 8, offset: 93310},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93255,
+																								line: 2954, col: 9, offset: 93311,
 																							},
 																						},
 																					},
@@ -21422,10 +21422,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2913, col: 11, offset: 92421},
+																	pos: position{line: 2914, col: 11, offset: 92477},
 																	run: (*parser).callonInlineImage117,
 																	expr: &litMatcher{
-																		pos:        position{line: 2913, col: 11, offset: 92421},
+																		pos:        position{line: 2914, col: 11, offset: 92477},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21520,12 +21520,12 @@ var g = &grammar{
 							expr: &zeroOrOneExpr{
 								pos: position{line: 1356, col: 35, offset: 43302},
 								expr: &actionExpr{
-									pos: position{line: 2828, col: 14, offset: 90075},
+									pos: position{line: 2829, col: 14, offset: 90131},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2828, col: 14, offset: 90075},
+										pos: position{line: 2829, col: 14, offset: 90131},
 										expr: &charClassMatcher{
-											pos:        position{line: 2828, col: 14, offset: 90075},
+											pos:        position{line: 2829, col: 14, offset: 90131},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -21612,21 +21612,21 @@ var g = &grammar{
 								pos: position{line: 1374, col: 9, offset: 43796},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2833, col: 5, offset: 90148},
+										pos: position{line: 2834, col: 5, offset: 90204},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2833, col: 5, offset: 90148},
+											pos: position{line: 2834, col: 5, offset: 90204},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2833, col: 5, offset: 90148},
+													pos:   position{line: 2834, col: 5, offset: 90204},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2833, col: 11, offset: 90154},
+														pos: position{line: 2834, col: 11, offset: 90210},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2833, col: 11, offset: 90154},
+															pos: position{line: 2834, col: 11, offset: 90210},
 															expr: &charClassMatcher{
-																pos:        position{line: 2833, col: 11, offset: 90154},
+																pos:        position{line: 2834, col: 11, offset: 90210},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21636,36 +21636,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2836, col: 5, offset: 90212},
+													pos: position{line: 2837, col: 5, offset: 90268},
 													expr: &seqExpr{
-														pos: position{line: 2837, col: 9, offset: 90223},
+														pos: position{line: 2838, col: 9, offset: 90279},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2837, col: 9, offset: 90223},
+																pos:        position{line: 2838, col: 9, offset: 90279},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2838, col: 9, offset: 90272},
+																pos: position{line: 2839, col: 9, offset: 90328},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2842, col: 5, offset: 90352},
+													pos: position{line: 2843, col: 5, offset: 90408},
 													expr: &seqExpr{
-														pos: position{line: 2843, col: 9, offset: 90363},
+														pos: position{line: 2844, col: 9, offset: 90419},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2843, col: 9, offset: 90363},
+																pos:        position{line: 2844, col: 9, offset: 90419},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2843, col: 13, offset: 90367},
+																pos:        position{line: 2844, col: 13, offset: 90423},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21678,12 +21678,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2938, col: 11, offset: 92967},
+										pos: position{line: 2939, col: 11, offset: 93023},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2938, col: 11, offset: 92967},
+											pos: position{line: 2939, col: 11, offset: 93023},
 											expr: &charClassMatcher{
-												pos:        position{line: 2938, col: 11, offset: 92967},
+												pos:        position{line: 2939, col: 11, offset: 93023},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21692,21 +21692,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2555, col: 5, offset: 82429},
+										pos: position{line: 2556, col: 5, offset: 82485},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2555, col: 5, offset: 82429},
+											pos: position{line: 2556, col: 5, offset: 82485},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2555, col: 5, offset: 82429},
+													pos:        position{line: 2556, col: 5, offset: 82485},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2555, col: 10, offset: 82434},
+													pos: position{line: 2556, col: 10, offset: 82490},
 													expr: &charClassMatcher{
-														pos:        position{line: 2555, col: 11, offset: 82435},
+														pos:        position{line: 2556, col: 11, offset: 82491},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21717,29 +21717,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2561, col: 5, offset: 82627},
+										pos: position{line: 2562, col: 5, offset: 82683},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2561, col: 5, offset: 82627},
+											pos: position{line: 2562, col: 5, offset: 82683},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2561, col: 5, offset: 82627},
+													pos: position{line: 2562, col: 5, offset: 82683},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2564, col: 5, offset: 82698},
+													pos: position{line: 2565, col: 5, offset: 82754},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2568, col: 5, offset: 82823},
+													pos:        position{line: 2569, col: 5, offset: 82879},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2568, col: 9, offset: 82827},
+													pos: position{line: 2569, col: 9, offset: 82883},
 													expr: &charClassMatcher{
-														pos:        position{line: 2568, col: 10, offset: 82828},
+														pos:        position{line: 2569, col: 10, offset: 82884},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21758,27 +21758,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2851, col: 5, offset: 90560},
+										pos: position{line: 2852, col: 5, offset: 90616},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2852, col: 9, offset: 90570},
+											pos: position{line: 2853, col: 9, offset: 90626},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2852, col: 10, offset: 90571},
+													pos:        position{line: 2853, col: 10, offset: 90627},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2854, col: 13, offset: 90668},
+													pos: position{line: 2855, col: 13, offset: 90724},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2854, col: 13, offset: 90668},
+															pos: position{line: 2855, col: 13, offset: 90724},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2857, col: 13, offset: 90768},
+															pos:        position{line: 2858, col: 13, offset: 90824},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21786,20 +21786,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2857, col: 19, offset: 90774},
+													pos:        position{line: 2858, col: 19, offset: 90830},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2860, col: 13, offset: 90812},
+													pos: position{line: 2861, col: 13, offset: 90868},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2860, col: 13, offset: 90812},
+															pos: position{line: 2861, col: 13, offset: 90868},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2863, col: 14, offset: 90905},
+															pos:        position{line: 2864, col: 14, offset: 90961},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21808,18 +21808,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2865, col: 12, offset: 90949},
+													pos: position{line: 2866, col: 12, offset: 91005},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2865, col: 12, offset: 90949},
+															pos:        position{line: 2866, col: 12, offset: 91005},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2865, col: 16, offset: 90953},
+															pos: position{line: 2866, col: 16, offset: 91009},
 															expr: &litMatcher{
-																pos:        position{line: 2865, col: 17, offset: 90954},
+																pos:        position{line: 2866, col: 17, offset: 91010},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21857,10 +21857,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1239, col: 5, offset: 38724},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92906},
+														pos: position{line: 2935, col: 10, offset: 92962},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92906},
+															pos:        position{line: 2935, col: 10, offset: 92962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21871,28 +21871,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1239, col: 12, offset: 38731},
 													expr: &choiceExpr{
-														pos: position{line: 2956, col: 8, offset: 93304},
+														pos: position{line: 2957, col: 8, offset: 93360},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93077},
+																pos: position{line: 2944, col: 12, offset: 93133},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93078},
+																	pos: position{line: 2944, col: 13, offset: 93134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93078},
+																			pos:        position{line: 2944, col: 13, offset: 93134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93085},
+																			pos:        position{line: 2944, col: 20, offset: 93141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93094},
+																			pos:        position{line: 2944, col: 29, offset: 93150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21901,9 +21901,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93254},
+																pos: position{line: 2954, col: 8, offset: 93310},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93255,
+																	line: 2954, col: 9, offset: 93311,
 																},
 															},
 														},
@@ -22259,23 +22259,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2524, col: 5, offset: 81230},
+										pos: position{line: 2525, col: 5, offset: 81286},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2524, col: 5, offset: 81230},
+											pos: position{line: 2525, col: 5, offset: 81286},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2524, col: 5, offset: 81230},
+													pos: position{line: 2525, col: 5, offset: 81286},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2527, col: 5, offset: 81306},
+													pos:   position{line: 2528, col: 5, offset: 81362},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2528, col: 9, offset: 81324},
+														pos: position{line: 2529, col: 9, offset: 81380},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2528, col: 10, offset: 81325},
+															pos:        position{line: 2529, col: 10, offset: 81381},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -22287,25 +22287,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2943, col: 12, offset: 93077},
+										pos: position{line: 2944, col: 12, offset: 93133},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2943, col: 13, offset: 93078},
+											pos: position{line: 2944, col: 13, offset: 93134},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2943, col: 13, offset: 93078},
+													pos:        position{line: 2944, col: 13, offset: 93134},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2943, col: 20, offset: 93085},
+													pos:        position{line: 2944, col: 20, offset: 93141},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2943, col: 29, offset: 93094},
+													pos:        position{line: 2944, col: 29, offset: 93150},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -22314,10 +22314,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2873, col: 12, offset: 91214},
+										pos: position{line: 2874, col: 12, offset: 91270},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2873, col: 12, offset: 91214},
+											pos:        position{line: 2874, col: 12, offset: 91270},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -22449,55 +22449,55 @@ var g = &grammar{
 									pos:   position{line: 1436, col: 5, offset: 46492},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2896, col: 23, offset: 91792},
+										pos: position{line: 2897, col: 23, offset: 91848},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2896, col: 23, offset: 91792},
+											pos: position{line: 2897, col: 23, offset: 91848},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2896, col: 23, offset: 91792},
+													pos: position{line: 2897, col: 23, offset: 91848},
 													expr: &litMatcher{
-														pos:        position{line: 2896, col: 24, offset: 91793},
+														pos:        position{line: 2897, col: 24, offset: 91849},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2896, col: 28, offset: 91797},
+													pos:   position{line: 2897, col: 28, offset: 91853},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2900, col: 11, offset: 91911},
+														pos: position{line: 2901, col: 11, offset: 91967},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2900, col: 12, offset: 91912},
+															pos: position{line: 2901, col: 12, offset: 91968},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2900, col: 12, offset: 91912},
+																	pos:        position{line: 2901, col: 12, offset: 91968},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2900, col: 24, offset: 91924},
+																	pos:        position{line: 2901, col: 24, offset: 91980},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2900, col: 37, offset: 91937},
+																	pos:        position{line: 2901, col: 37, offset: 91993},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2900, col: 48, offset: 91948},
+																	pos:        position{line: 2901, col: 48, offset: 92004},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2900, col: 59, offset: 91959},
+																	pos:        position{line: 2901, col: 59, offset: 92015},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -22507,38 +22507,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2896, col: 44, offset: 91813},
+													pos:   position{line: 2897, col: 44, offset: 91869},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 5, offset: 92023},
+														pos: position{line: 2906, col: 5, offset: 92079},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2905, col: 5, offset: 92023},
+															pos:   position{line: 2906, col: 5, offset: 92079},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2905, col: 14, offset: 92032},
+																pos: position{line: 2906, col: 14, offset: 92088},
 																expr: &choiceExpr{
-																	pos: position{line: 2906, col: 9, offset: 92042},
+																	pos: position{line: 2907, col: 9, offset: 92098},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2906, col: 9, offset: 92042},
+																			pos: position{line: 2907, col: 9, offset: 92098},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2906, col: 9, offset: 92042},
+																				pos: position{line: 2907, col: 9, offset: 92098},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2906, col: 9, offset: 92042},
+																						pos: position{line: 2907, col: 9, offset: 92098},
 																						expr: &litMatcher{
-																							pos:        position{line: 2906, col: 10, offset: 92043},
+																							pos:        position{line: 2907, col: 10, offset: 92099},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2907, col: 9, offset: 92071},
+																						pos: position{line: 2908, col: 9, offset: 92127},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2907, col: 10, offset: 92072},
+																							pos:        position{line: 2908, col: 10, offset: 92128},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22549,27 +22549,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2910, col: 11, offset: 92284},
+																			pos: position{line: 2911, col: 11, offset: 92340},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2910, col: 11, offset: 92284},
+																					pos:        position{line: 2911, col: 11, offset: 92340},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2910, col: 19, offset: 92292},
+																					pos: position{line: 2911, col: 19, offset: 92348},
 																					expr: &seqExpr{
-																						pos: position{line: 2910, col: 21, offset: 92294},
+																						pos: position{line: 2911, col: 21, offset: 92350},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2910, col: 21, offset: 92294},
+																								pos: position{line: 2911, col: 21, offset: 92350},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92906},
+																									pos: position{line: 2935, col: 10, offset: 92962},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92906},
+																										pos:        position{line: 2935, col: 10, offset: 92962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22578,11 +22578,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2910, col: 28, offset: 92301},
+																								pos: position{line: 2911, col: 28, offset: 92357},
 																								expr: &notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -22981,10 +22981,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2913, col: 11, offset: 92421},
+																			pos: position{line: 2914, col: 11, offset: 92477},
 																			run: (*parser).callonLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2913, col: 11, offset: 92421},
+																				pos:        position{line: 2914, col: 11, offset: 92477},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23195,48 +23195,48 @@ var g = &grammar{
 									pos:   position{line: 1449, col: 17, offset: 46907},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2892, col: 13, offset: 91665},
+										pos: position{line: 2893, col: 13, offset: 91721},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2892, col: 13, offset: 91665},
+											pos: position{line: 2893, col: 13, offset: 91721},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2892, col: 13, offset: 91665},
+													pos:   position{line: 2893, col: 13, offset: 91721},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2892, col: 20, offset: 91672},
+														pos: position{line: 2893, col: 20, offset: 91728},
 														expr: &actionExpr{
-															pos: position{line: 2900, col: 11, offset: 91911},
+															pos: position{line: 2901, col: 11, offset: 91967},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2900, col: 12, offset: 91912},
+																pos: position{line: 2901, col: 12, offset: 91968},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2900, col: 12, offset: 91912},
+																		pos:        position{line: 2901, col: 12, offset: 91968},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2900, col: 24, offset: 91924},
+																		pos:        position{line: 2901, col: 24, offset: 91980},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2900, col: 37, offset: 91937},
+																		pos:        position{line: 2901, col: 37, offset: 91993},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2900, col: 48, offset: 91948},
+																		pos:        position{line: 2901, col: 48, offset: 92004},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2900, col: 59, offset: 91959},
+																		pos:        position{line: 2901, col: 59, offset: 92015},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23247,38 +23247,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2892, col: 30, offset: 91682},
+													pos:   position{line: 2893, col: 30, offset: 91738},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 5, offset: 92023},
+														pos: position{line: 2906, col: 5, offset: 92079},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2905, col: 5, offset: 92023},
+															pos:   position{line: 2906, col: 5, offset: 92079},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2905, col: 14, offset: 92032},
+																pos: position{line: 2906, col: 14, offset: 92088},
 																expr: &choiceExpr{
-																	pos: position{line: 2906, col: 9, offset: 92042},
+																	pos: position{line: 2907, col: 9, offset: 92098},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2906, col: 9, offset: 92042},
+																			pos: position{line: 2907, col: 9, offset: 92098},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2906, col: 9, offset: 92042},
+																				pos: position{line: 2907, col: 9, offset: 92098},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2906, col: 9, offset: 92042},
+																						pos: position{line: 2907, col: 9, offset: 92098},
 																						expr: &litMatcher{
-																							pos:        position{line: 2906, col: 10, offset: 92043},
+																							pos:        position{line: 2907, col: 10, offset: 92099},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2907, col: 9, offset: 92071},
+																						pos: position{line: 2908, col: 9, offset: 92127},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2907, col: 10, offset: 92072},
+																							pos:        position{line: 2908, col: 10, offset: 92128},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23289,27 +23289,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2910, col: 11, offset: 92284},
+																			pos: position{line: 2911, col: 11, offset: 92340},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2910, col: 11, offset: 92284},
+																					pos:        position{line: 2911, col: 11, offset: 92340},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2910, col: 19, offset: 92292},
+																					pos: position{line: 2911, col: 19, offset: 92348},
 																					expr: &seqExpr{
-																						pos: position{line: 2910, col: 21, offset: 92294},
+																						pos: position{line: 2911, col: 21, offset: 92350},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2910, col: 21, offset: 92294},
+																								pos: position{line: 2911, col: 21, offset: 92350},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92906},
+																									pos: position{line: 2935, col: 10, offset: 92962},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92906},
+																										pos:        position{line: 2935, col: 10, offset: 92962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23318,11 +23318,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2910, col: 28, offset: 92301},
+																								pos: position{line: 2911, col: 28, offset: 92357},
 																								expr: &notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -23721,10 +23721,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2913, col: 11, offset: 92421},
+																			pos: position{line: 2914, col: 11, offset: 92477},
 																			run: (*parser).callonRelativeLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2913, col: 11, offset: 92421},
+																				pos:        position{line: 2914, col: 11, offset: 92477},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23767,48 +23767,48 @@ var g = &grammar{
 									pos:   position{line: 1454, col: 13, offset: 47074},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2892, col: 13, offset: 91665},
+										pos: position{line: 2893, col: 13, offset: 91721},
 										run: (*parser).callonRelativeLink124,
 										expr: &seqExpr{
-											pos: position{line: 2892, col: 13, offset: 91665},
+											pos: position{line: 2893, col: 13, offset: 91721},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2892, col: 13, offset: 91665},
+													pos:   position{line: 2893, col: 13, offset: 91721},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2892, col: 20, offset: 91672},
+														pos: position{line: 2893, col: 20, offset: 91728},
 														expr: &actionExpr{
-															pos: position{line: 2900, col: 11, offset: 91911},
+															pos: position{line: 2901, col: 11, offset: 91967},
 															run: (*parser).callonRelativeLink128,
 															expr: &choiceExpr{
-																pos: position{line: 2900, col: 12, offset: 91912},
+																pos: position{line: 2901, col: 12, offset: 91968},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2900, col: 12, offset: 91912},
+																		pos:        position{line: 2901, col: 12, offset: 91968},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2900, col: 24, offset: 91924},
+																		pos:        position{line: 2901, col: 24, offset: 91980},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2900, col: 37, offset: 91937},
+																		pos:        position{line: 2901, col: 37, offset: 91993},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2900, col: 48, offset: 91948},
+																		pos:        position{line: 2901, col: 48, offset: 92004},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2900, col: 59, offset: 91959},
+																		pos:        position{line: 2901, col: 59, offset: 92015},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23819,38 +23819,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2892, col: 30, offset: 91682},
+													pos:   position{line: 2893, col: 30, offset: 91738},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 5, offset: 92023},
+														pos: position{line: 2906, col: 5, offset: 92079},
 														run: (*parser).callonRelativeLink136,
 														expr: &labeledExpr{
-															pos:   position{line: 2905, col: 5, offset: 92023},
+															pos:   position{line: 2906, col: 5, offset: 92079},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2905, col: 14, offset: 92032},
+																pos: position{line: 2906, col: 14, offset: 92088},
 																expr: &choiceExpr{
-																	pos: position{line: 2906, col: 9, offset: 92042},
+																	pos: position{line: 2907, col: 9, offset: 92098},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2906, col: 9, offset: 92042},
+																			pos: position{line: 2907, col: 9, offset: 92098},
 																			run: (*parser).callonRelativeLink140,
 																			expr: &seqExpr{
-																				pos: position{line: 2906, col: 9, offset: 92042},
+																				pos: position{line: 2907, col: 9, offset: 92098},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2906, col: 9, offset: 92042},
+																						pos: position{line: 2907, col: 9, offset: 92098},
 																						expr: &litMatcher{
-																							pos:        position{line: 2906, col: 10, offset: 92043},
+																							pos:        position{line: 2907, col: 10, offset: 92099},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2907, col: 9, offset: 92071},
+																						pos: position{line: 2908, col: 9, offset: 92127},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2907, col: 10, offset: 92072},
+																							pos:        position{line: 2908, col: 10, offset: 92128},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23861,27 +23861,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2910, col: 11, offset: 92284},
+																			pos: position{line: 2911, col: 11, offset: 92340},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2910, col: 11, offset: 92284},
+																					pos:        position{line: 2911, col: 11, offset: 92340},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2910, col: 19, offset: 92292},
+																					pos: position{line: 2911, col: 19, offset: 92348},
 																					expr: &seqExpr{
-																						pos: position{line: 2910, col: 21, offset: 92294},
+																						pos: position{line: 2911, col: 21, offset: 92350},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2910, col: 21, offset: 92294},
+																								pos: position{line: 2911, col: 21, offset: 92350},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92906},
+																									pos: position{line: 2935, col: 10, offset: 92962},
 																									run: (*parser).callonRelativeLink151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92906},
+																										pos:        position{line: 2935, col: 10, offset: 92962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23890,11 +23890,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2910, col: 28, offset: 92301},
+																								pos: position{line: 2911, col: 28, offset: 92357},
 																								expr: &notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -24293,10 +24293,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2913, col: 11, offset: 92421},
+																			pos: position{line: 2914, col: 11, offset: 92477},
 																			run: (*parser).callonRelativeLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2913, col: 11, offset: 92421},
+																				pos:        position{line: 2914, col: 11, offset: 92477},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24348,55 +24348,55 @@ var g = &grammar{
 									pos:   position{line: 1461, col: 9, offset: 47383},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2896, col: 23, offset: 91792},
+										pos: position{line: 2897, col: 23, offset: 91848},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2896, col: 23, offset: 91792},
+											pos: position{line: 2897, col: 23, offset: 91848},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2896, col: 23, offset: 91792},
+													pos: position{line: 2897, col: 23, offset: 91848},
 													expr: &litMatcher{
-														pos:        position{line: 2896, col: 24, offset: 91793},
+														pos:        position{line: 2897, col: 24, offset: 91849},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2896, col: 28, offset: 91797},
+													pos:   position{line: 2897, col: 28, offset: 91853},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2900, col: 11, offset: 91911},
+														pos: position{line: 2901, col: 11, offset: 91967},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2900, col: 12, offset: 91912},
+															pos: position{line: 2901, col: 12, offset: 91968},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2900, col: 12, offset: 91912},
+																	pos:        position{line: 2901, col: 12, offset: 91968},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2900, col: 24, offset: 91924},
+																	pos:        position{line: 2901, col: 24, offset: 91980},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2900, col: 37, offset: 91937},
+																	pos:        position{line: 2901, col: 37, offset: 91993},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2900, col: 48, offset: 91948},
+																	pos:        position{line: 2901, col: 48, offset: 92004},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2900, col: 59, offset: 91959},
+																	pos:        position{line: 2901, col: 59, offset: 92015},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24406,38 +24406,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2896, col: 44, offset: 91813},
+													pos:   position{line: 2897, col: 44, offset: 91869},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 5, offset: 92023},
+														pos: position{line: 2906, col: 5, offset: 92079},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2905, col: 5, offset: 92023},
+															pos:   position{line: 2906, col: 5, offset: 92079},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2905, col: 14, offset: 92032},
+																pos: position{line: 2906, col: 14, offset: 92088},
 																expr: &choiceExpr{
-																	pos: position{line: 2906, col: 9, offset: 92042},
+																	pos: position{line: 2907, col: 9, offset: 92098},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2906, col: 9, offset: 92042},
+																			pos: position{line: 2907, col: 9, offset: 92098},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2906, col: 9, offset: 92042},
+																				pos: position{line: 2907, col: 9, offset: 92098},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2906, col: 9, offset: 92042},
+																						pos: position{line: 2907, col: 9, offset: 92098},
 																						expr: &litMatcher{
-																							pos:        position{line: 2906, col: 10, offset: 92043},
+																							pos:        position{line: 2907, col: 10, offset: 92099},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2907, col: 9, offset: 92071},
+																						pos: position{line: 2908, col: 9, offset: 92127},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2907, col: 10, offset: 92072},
+																							pos:        position{line: 2908, col: 10, offset: 92128},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24448,27 +24448,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2910, col: 11, offset: 92284},
+																			pos: position{line: 2911, col: 11, offset: 92340},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2910, col: 11, offset: 92284},
+																					pos:        position{line: 2911, col: 11, offset: 92340},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2910, col: 19, offset: 92292},
+																					pos: position{line: 2911, col: 19, offset: 92348},
 																					expr: &seqExpr{
-																						pos: position{line: 2910, col: 21, offset: 92294},
+																						pos: position{line: 2911, col: 21, offset: 92350},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2910, col: 21, offset: 92294},
+																								pos: position{line: 2911, col: 21, offset: 92350},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92906},
+																									pos: position{line: 2935, col: 10, offset: 92962},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92906},
+																										pos:        position{line: 2935, col: 10, offset: 92962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24477,11 +24477,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2910, col: 28, offset: 92301},
+																								pos: position{line: 2911, col: 28, offset: 92357},
 																								expr: &notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -24880,10 +24880,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2913, col: 11, offset: 92421},
+																			pos: position{line: 2914, col: 11, offset: 92477},
 																			run: (*parser).callonExternalLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2913, col: 11, offset: 92421},
+																				pos:        position{line: 2914, col: 11, offset: 92477},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24923,55 +24923,55 @@ var g = &grammar{
 									pos:   position{line: 1466, col: 5, offset: 47553},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2896, col: 23, offset: 91792},
+										pos: position{line: 2897, col: 23, offset: 91848},
 										run: (*parser).callonExternalLink125,
 										expr: &seqExpr{
-											pos: position{line: 2896, col: 23, offset: 91792},
+											pos: position{line: 2897, col: 23, offset: 91848},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2896, col: 23, offset: 91792},
+													pos: position{line: 2897, col: 23, offset: 91848},
 													expr: &litMatcher{
-														pos:        position{line: 2896, col: 24, offset: 91793},
+														pos:        position{line: 2897, col: 24, offset: 91849},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2896, col: 28, offset: 91797},
+													pos:   position{line: 2897, col: 28, offset: 91853},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2900, col: 11, offset: 91911},
+														pos: position{line: 2901, col: 11, offset: 91967},
 														run: (*parser).callonExternalLink130,
 														expr: &choiceExpr{
-															pos: position{line: 2900, col: 12, offset: 91912},
+															pos: position{line: 2901, col: 12, offset: 91968},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2900, col: 12, offset: 91912},
+																	pos:        position{line: 2901, col: 12, offset: 91968},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2900, col: 24, offset: 91924},
+																	pos:        position{line: 2901, col: 24, offset: 91980},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2900, col: 37, offset: 91937},
+																	pos:        position{line: 2901, col: 37, offset: 91993},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2900, col: 48, offset: 91948},
+																	pos:        position{line: 2901, col: 48, offset: 92004},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2900, col: 59, offset: 91959},
+																	pos:        position{line: 2901, col: 59, offset: 92015},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24981,38 +24981,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2896, col: 44, offset: 91813},
+													pos:   position{line: 2897, col: 44, offset: 91869},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 5, offset: 92023},
+														pos: position{line: 2906, col: 5, offset: 92079},
 														run: (*parser).callonExternalLink138,
 														expr: &labeledExpr{
-															pos:   position{line: 2905, col: 5, offset: 92023},
+															pos:   position{line: 2906, col: 5, offset: 92079},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2905, col: 14, offset: 92032},
+																pos: position{line: 2906, col: 14, offset: 92088},
 																expr: &choiceExpr{
-																	pos: position{line: 2906, col: 9, offset: 92042},
+																	pos: position{line: 2907, col: 9, offset: 92098},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2906, col: 9, offset: 92042},
+																			pos: position{line: 2907, col: 9, offset: 92098},
 																			run: (*parser).callonExternalLink142,
 																			expr: &seqExpr{
-																				pos: position{line: 2906, col: 9, offset: 92042},
+																				pos: position{line: 2907, col: 9, offset: 92098},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2906, col: 9, offset: 92042},
+																						pos: position{line: 2907, col: 9, offset: 92098},
 																						expr: &litMatcher{
-																							pos:        position{line: 2906, col: 10, offset: 92043},
+																							pos:        position{line: 2907, col: 10, offset: 92099},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2907, col: 9, offset: 92071},
+																						pos: position{line: 2908, col: 9, offset: 92127},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2907, col: 10, offset: 92072},
+																							pos:        position{line: 2908, col: 10, offset: 92128},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -25023,27 +25023,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2910, col: 11, offset: 92284},
+																			pos: position{line: 2911, col: 11, offset: 92340},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2910, col: 11, offset: 92284},
+																					pos:        position{line: 2911, col: 11, offset: 92340},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2910, col: 19, offset: 92292},
+																					pos: position{line: 2911, col: 19, offset: 92348},
 																					expr: &seqExpr{
-																						pos: position{line: 2910, col: 21, offset: 92294},
+																						pos: position{line: 2911, col: 21, offset: 92350},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2910, col: 21, offset: 92294},
+																								pos: position{line: 2911, col: 21, offset: 92350},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92906},
+																									pos: position{line: 2935, col: 10, offset: 92962},
 																									run: (*parser).callonExternalLink153,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92906},
+																										pos:        position{line: 2935, col: 10, offset: 92962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -25052,11 +25052,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2910, col: 28, offset: 92301},
+																								pos: position{line: 2911, col: 28, offset: 92357},
 																								expr: &notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -25455,10 +25455,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2913, col: 11, offset: 92421},
+																			pos: position{line: 2914, col: 11, offset: 92477},
 																			run: (*parser).callonExternalLink236,
 																			expr: &litMatcher{
-																				pos:        position{line: 2913, col: 11, offset: 92421},
+																				pos:        position{line: 2914, col: 11, offset: 92477},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25524,10 +25524,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1608, col: 5, offset: 52184},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92906},
+																		pos: position{line: 2935, col: 10, offset: 92962},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92906},
+																			pos:        position{line: 2935, col: 10, offset: 92962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25694,12 +25694,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2938, col: 11, offset: 92967},
+																	pos: position{line: 2939, col: 11, offset: 93023},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2938, col: 11, offset: 92967},
+																		pos: position{line: 2939, col: 11, offset: 93023},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2938, col: 11, offset: 92967},
+																			pos:        position{line: 2939, col: 11, offset: 93023},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25742,28 +25742,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93304},
+																	pos: position{line: 2957, col: 8, offset: 93360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93077},
+																			pos: position{line: 2944, col: 12, offset: 93133},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93078},
+																				pos: position{line: 2944, col: 13, offset: 93134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93078},
+																						pos:        position{line: 2944, col: 13, offset: 93134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93085},
+																						pos:        position{line: 2944, col: 20, offset: 93141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93094},
+																						pos:        position{line: 2944, col: 29, offset: 93150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25772,9 +25772,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93254},
+																			pos: position{line: 2954, col: 8, offset: 93310},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93255,
+																				line: 2954, col: 9, offset: 93311,
 																			},
 																		},
 																	},
@@ -25804,10 +25804,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1658, col: 5, offset: 54146},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92906},
+																		pos: position{line: 2935, col: 10, offset: 92962},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92906},
+																			pos:        position{line: 2935, col: 10, offset: 92962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25848,12 +25848,12 @@ var g = &grammar{
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2938, col: 11, offset: 92967},
+																	pos: position{line: 2939, col: 11, offset: 93023},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2938, col: 11, offset: 92967},
+																		pos: position{line: 2939, col: 11, offset: 93023},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2938, col: 11, offset: 92967},
+																			pos:        position{line: 2939, col: 11, offset: 93023},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25925,12 +25925,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2938, col: 11, offset: 92967},
+																		pos: position{line: 2939, col: 11, offset: 93023},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2938, col: 11, offset: 92967},
+																			pos: position{line: 2939, col: 11, offset: 93023},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2938, col: 11, offset: 92967},
+																				pos:        position{line: 2939, col: 11, offset: 93023},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25974,28 +25974,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93304},
+																	pos: position{line: 2957, col: 8, offset: 93360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93077},
+																			pos: position{line: 2944, col: 12, offset: 93133},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93078},
+																				pos: position{line: 2944, col: 13, offset: 93134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93078},
+																						pos:        position{line: 2944, col: 13, offset: 93134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93085},
+																						pos:        position{line: 2944, col: 20, offset: 93141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93094},
+																						pos:        position{line: 2944, col: 29, offset: 93150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26004,9 +26004,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93254},
+																			pos: position{line: 2954, col: 8, offset: 93310},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93255,
+																				line: 2954, col: 9, offset: 93311,
 																			},
 																		},
 																	},
@@ -26064,12 +26064,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2938, col: 11, offset: 92967},
+																	pos: position{line: 2939, col: 11, offset: 93023},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2938, col: 11, offset: 92967},
+																		pos: position{line: 2939, col: 11, offset: 93023},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2938, col: 11, offset: 92967},
+																			pos:        position{line: 2939, col: 11, offset: 93023},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26112,28 +26112,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93304},
+																	pos: position{line: 2957, col: 8, offset: 93360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93077},
+																			pos: position{line: 2944, col: 12, offset: 93133},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93078},
+																				pos: position{line: 2944, col: 13, offset: 93134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93078},
+																						pos:        position{line: 2944, col: 13, offset: 93134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93085},
+																						pos:        position{line: 2944, col: 20, offset: 93141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93094},
+																						pos:        position{line: 2944, col: 29, offset: 93150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26142,9 +26142,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93254},
+																			pos: position{line: 2954, col: 8, offset: 93310},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93255,
+																				line: 2954, col: 9, offset: 93311,
 																			},
 																		},
 																	},
@@ -26174,18 +26174,18 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1693, col: 5, offset: 55165},
 																	expr: &seqExpr{
-																		pos: position{line: 2542, col: 31, offset: 81934},
+																		pos: position{line: 2543, col: 31, offset: 81990},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2542, col: 31, offset: 81934},
+																				pos:        position{line: 2543, col: 31, offset: 81990},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2542, col: 36, offset: 81939},
+																				pos: position{line: 2543, col: 36, offset: 81995},
 																				expr: &litMatcher{
-																					pos:        position{line: 2542, col: 37, offset: 81940},
+																					pos:        position{line: 2543, col: 37, offset: 81996},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -26235,28 +26235,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1694, col: 35, offset: 55227},
 																				expr: &choiceExpr{
-																					pos: position{line: 2956, col: 8, offset: 93304},
+																					pos: position{line: 2957, col: 8, offset: 93360},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2943, col: 12, offset: 93077},
+																							pos: position{line: 2944, col: 12, offset: 93133},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2943, col: 13, offset: 93078},
+																								pos: position{line: 2944, col: 13, offset: 93134},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 13, offset: 93078},
+																										pos:        position{line: 2944, col: 13, offset: 93134},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 20, offset: 93085},
+																										pos:        position{line: 2944, col: 20, offset: 93141},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 29, offset: 93094},
+																										pos:        position{line: 2944, col: 29, offset: 93150},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -26265,9 +26265,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93254},
+																							pos: position{line: 2954, col: 8, offset: 93310},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93255,
+																								line: 2954, col: 9, offset: 93311,
 																							},
 																						},
 																					},
@@ -26332,10 +26332,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1712, col: 9, offset: 55732},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92906},
+																				pos: position{line: 2935, col: 10, offset: 92962},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92906},
+																					pos:        position{line: 2935, col: 10, offset: 92962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26344,28 +26344,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93304},
+																			pos: position{line: 2957, col: 8, offset: 93360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93077},
+																					pos: position{line: 2944, col: 12, offset: 93133},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93078},
+																						pos: position{line: 2944, col: 13, offset: 93134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93078},
+																								pos:        position{line: 2944, col: 13, offset: 93134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93085},
+																								pos:        position{line: 2944, col: 20, offset: 93141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93094},
+																								pos:        position{line: 2944, col: 29, offset: 93150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26374,9 +26374,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -26390,18 +26390,18 @@ var g = &grammar{
 																					pos: position{line: 702, col: 14, offset: 22577},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2951, col: 11, offset: 93240},
+																							pos: position{line: 2952, col: 11, offset: 93296},
 																							expr: &anyMatcher{
-																								line: 2951, col: 13, offset: 93242,
+																								line: 2952, col: 13, offset: 93298,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 702, col: 21, offset: 22584},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92906},
+																								pos: position{line: 2935, col: 10, offset: 92962},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92906},
+																									pos:        position{line: 2935, col: 10, offset: 92962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26410,28 +26410,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26440,9 +26440,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -26461,12 +26461,12 @@ var g = &grammar{
 																	pos: position{line: 1719, col: 9, offset: 55880},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2938, col: 11, offset: 92967},
+																			pos: position{line: 2939, col: 11, offset: 93023},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2938, col: 11, offset: 92967},
+																				pos: position{line: 2939, col: 11, offset: 93023},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2938, col: 11, offset: 92967},
+																					pos:        position{line: 2939, col: 11, offset: 93023},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26493,28 +26493,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93304},
+																			pos: position{line: 2957, col: 8, offset: 93360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93077},
+																					pos: position{line: 2944, col: 12, offset: 93133},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93078},
+																						pos: position{line: 2944, col: 13, offset: 93134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93078},
+																								pos:        position{line: 2944, col: 13, offset: 93134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93085},
+																								pos:        position{line: 2944, col: 20, offset: 93141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93094},
+																								pos:        position{line: 2944, col: 29, offset: 93150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26523,9 +26523,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -26583,9 +26583,9 @@ var g = &grammar{
 					pos: position{line: 1517, col: 5, offset: 49357},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2951, col: 11, offset: 93240},
+							pos: position{line: 2952, col: 11, offset: 93296},
 							expr: &anyMatcher{
-								line: 2951, col: 13, offset: 93242,
+								line: 2952, col: 13, offset: 93298,
 							},
 						},
 						&labeledExpr{
@@ -26609,18 +26609,18 @@ var g = &grammar{
 															pos: position{line: 702, col: 14, offset: 22577},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2951, col: 11, offset: 93240},
+																	pos: position{line: 2952, col: 11, offset: 93296},
 																	expr: &anyMatcher{
-																		line: 2951, col: 13, offset: 93242,
+																		line: 2952, col: 13, offset: 93298,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 702, col: 21, offset: 22584},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92906},
+																		pos: position{line: 2935, col: 10, offset: 92962},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92906},
+																			pos:        position{line: 2935, col: 10, offset: 92962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26629,28 +26629,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93304},
+																	pos: position{line: 2957, col: 8, offset: 93360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93077},
+																			pos: position{line: 2944, col: 12, offset: 93133},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93078},
+																				pos: position{line: 2944, col: 13, offset: 93134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93078},
+																						pos:        position{line: 2944, col: 13, offset: 93134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93085},
+																						pos:        position{line: 2944, col: 20, offset: 93141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93094},
+																						pos:        position{line: 2944, col: 29, offset: 93150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26659,9 +26659,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93254},
+																			pos: position{line: 2954, col: 8, offset: 93310},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93255,
+																				line: 2954, col: 9, offset: 93311,
 																			},
 																		},
 																	},
@@ -26694,10 +26694,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1608, col: 5, offset: 52184},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92906},
+																								pos: position{line: 2935, col: 10, offset: 92962},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92906},
+																									pos:        position{line: 2935, col: 10, offset: 92962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26864,12 +26864,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2938, col: 11, offset: 92967},
+																							pos: position{line: 2939, col: 11, offset: 93023},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2938, col: 11, offset: 92967},
+																								pos: position{line: 2939, col: 11, offset: 93023},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2938, col: 11, offset: 92967},
+																									pos:        position{line: 2939, col: 11, offset: 93023},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26912,28 +26912,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26942,9 +26942,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -26974,10 +26974,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1658, col: 5, offset: 54146},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92906},
+																								pos: position{line: 2935, col: 10, offset: 92962},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92906},
+																									pos:        position{line: 2935, col: 10, offset: 92962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27018,12 +27018,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2938, col: 11, offset: 92967},
+																							pos: position{line: 2939, col: 11, offset: 93023},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2938, col: 11, offset: 92967},
+																								pos: position{line: 2939, col: 11, offset: 93023},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2938, col: 11, offset: 92967},
+																									pos:        position{line: 2939, col: 11, offset: 93023},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27095,12 +27095,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2938, col: 11, offset: 92967},
+																								pos: position{line: 2939, col: 11, offset: 93023},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2938, col: 11, offset: 92967},
+																									pos: position{line: 2939, col: 11, offset: 93023},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2938, col: 11, offset: 92967},
+																										pos:        position{line: 2939, col: 11, offset: 93023},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27144,28 +27144,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27174,9 +27174,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -27234,12 +27234,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2938, col: 11, offset: 92967},
+																							pos: position{line: 2939, col: 11, offset: 93023},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2938, col: 11, offset: 92967},
+																								pos: position{line: 2939, col: 11, offset: 93023},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2938, col: 11, offset: 92967},
+																									pos:        position{line: 2939, col: 11, offset: 93023},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27282,28 +27282,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27312,9 +27312,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -27344,18 +27344,18 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 1693, col: 5, offset: 55165},
 																							expr: &seqExpr{
-																								pos: position{line: 2542, col: 31, offset: 81934},
+																								pos: position{line: 2543, col: 31, offset: 81990},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2542, col: 31, offset: 81934},
+																										pos:        position{line: 2543, col: 31, offset: 81990},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2542, col: 36, offset: 81939},
+																										pos: position{line: 2543, col: 36, offset: 81995},
 																										expr: &litMatcher{
-																											pos:        position{line: 2542, col: 37, offset: 81940},
+																											pos:        position{line: 2543, col: 37, offset: 81996},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -27405,28 +27405,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1694, col: 35, offset: 55227},
 																										expr: &choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93304},
+																											pos: position{line: 2957, col: 8, offset: 93360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93077},
+																													pos: position{line: 2944, col: 12, offset: 93133},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93078},
+																														pos: position{line: 2944, col: 13, offset: 93134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93078},
+																																pos:        position{line: 2944, col: 13, offset: 93134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93085},
+																																pos:        position{line: 2944, col: 20, offset: 93141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93094},
+																																pos:        position{line: 2944, col: 29, offset: 93150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27435,9 +27435,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93254},
+																													pos: position{line: 2954, col: 8, offset: 93310},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93255,
+																														line: 2954, col: 9, offset: 93311,
 																													},
 																												},
 																											},
@@ -27502,10 +27502,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1712, col: 9, offset: 55732},
 																									expr: &actionExpr{
-																										pos: position{line: 2934, col: 10, offset: 92906},
+																										pos: position{line: 2935, col: 10, offset: 92962},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2934, col: 10, offset: 92906},
+																											pos:        position{line: 2935, col: 10, offset: 92962},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27514,28 +27514,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2956, col: 8, offset: 93304},
+																									pos: position{line: 2957, col: 8, offset: 93360},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2943, col: 12, offset: 93077},
+																											pos: position{line: 2944, col: 12, offset: 93133},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2943, col: 13, offset: 93078},
+																												pos: position{line: 2944, col: 13, offset: 93134},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 13, offset: 93078},
+																														pos:        position{line: 2944, col: 13, offset: 93134},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 20, offset: 93085},
+																														pos:        position{line: 2944, col: 20, offset: 93141},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 29, offset: 93094},
+																														pos:        position{line: 2944, col: 29, offset: 93150},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27544,9 +27544,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2953, col: 8, offset: 93254},
+																											pos: position{line: 2954, col: 8, offset: 93310},
 																											expr: &anyMatcher{
-																												line: 2953, col: 9, offset: 93255,
+																												line: 2954, col: 9, offset: 93311,
 																											},
 																										},
 																									},
@@ -27560,18 +27560,18 @@ var g = &grammar{
 																											pos: position{line: 702, col: 14, offset: 22577},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2951, col: 11, offset: 93240},
+																													pos: position{line: 2952, col: 11, offset: 93296},
 																													expr: &anyMatcher{
-																														line: 2951, col: 13, offset: 93242,
+																														line: 2952, col: 13, offset: 93298,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 702, col: 21, offset: 22584},
 																													expr: &actionExpr{
-																														pos: position{line: 2934, col: 10, offset: 92906},
+																														pos: position{line: 2935, col: 10, offset: 92962},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2934, col: 10, offset: 92906},
+																															pos:        position{line: 2935, col: 10, offset: 92962},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27580,28 +27580,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2956, col: 8, offset: 93304},
+																													pos: position{line: 2957, col: 8, offset: 93360},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2943, col: 12, offset: 93077},
+																															pos: position{line: 2944, col: 12, offset: 93133},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2943, col: 13, offset: 93078},
+																																pos: position{line: 2944, col: 13, offset: 93134},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2943, col: 13, offset: 93078},
+																																		pos:        position{line: 2944, col: 13, offset: 93134},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2943, col: 20, offset: 93085},
+																																		pos:        position{line: 2944, col: 20, offset: 93141},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2943, col: 29, offset: 93094},
+																																		pos:        position{line: 2944, col: 29, offset: 93150},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27610,9 +27610,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2953, col: 8, offset: 93254},
+																															pos: position{line: 2954, col: 8, offset: 93310},
 																															expr: &anyMatcher{
-																																line: 2953, col: 9, offset: 93255,
+																																line: 2954, col: 9, offset: 93311,
 																															},
 																														},
 																													},
@@ -27631,12 +27631,12 @@ var g = &grammar{
 																							pos: position{line: 1719, col: 9, offset: 55880},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2938, col: 11, offset: 92967},
+																									pos: position{line: 2939, col: 11, offset: 93023},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2938, col: 11, offset: 92967},
+																										pos: position{line: 2939, col: 11, offset: 93023},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2938, col: 11, offset: 92967},
+																											pos:        position{line: 2939, col: 11, offset: 93023},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27663,28 +27663,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2956, col: 8, offset: 93304},
+																									pos: position{line: 2957, col: 8, offset: 93360},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2943, col: 12, offset: 93077},
+																											pos: position{line: 2944, col: 12, offset: 93133},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2943, col: 13, offset: 93078},
+																												pos: position{line: 2944, col: 13, offset: 93134},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 13, offset: 93078},
+																														pos:        position{line: 2944, col: 13, offset: 93134},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 20, offset: 93085},
+																														pos:        position{line: 2944, col: 20, offset: 93141},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 29, offset: 93094},
+																														pos:        position{line: 2944, col: 29, offset: 93150},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27693,9 +27693,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2953, col: 8, offset: 93254},
+																											pos: position{line: 2954, col: 8, offset: 93310},
 																											expr: &anyMatcher{
-																												line: 2953, col: 9, offset: 93255,
+																												line: 2954, col: 9, offset: 93311,
 																											},
 																										},
 																									},
@@ -27756,10 +27756,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1608, col: 5, offset: 52184},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92906},
+																								pos: position{line: 2935, col: 10, offset: 92962},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92906},
+																									pos:        position{line: 2935, col: 10, offset: 92962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27926,12 +27926,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2938, col: 11, offset: 92967},
+																							pos: position{line: 2939, col: 11, offset: 93023},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2938, col: 11, offset: 92967},
+																								pos: position{line: 2939, col: 11, offset: 93023},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2938, col: 11, offset: 92967},
+																									pos:        position{line: 2939, col: 11, offset: 93023},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27974,28 +27974,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28004,9 +28004,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -28036,10 +28036,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1658, col: 5, offset: 54146},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92906},
+																								pos: position{line: 2935, col: 10, offset: 92962},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92906},
+																									pos:        position{line: 2935, col: 10, offset: 92962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28080,12 +28080,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2938, col: 11, offset: 92967},
+																							pos: position{line: 2939, col: 11, offset: 93023},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2938, col: 11, offset: 92967},
+																								pos: position{line: 2939, col: 11, offset: 93023},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2938, col: 11, offset: 92967},
+																									pos:        position{line: 2939, col: 11, offset: 93023},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28157,12 +28157,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2938, col: 11, offset: 92967},
+																								pos: position{line: 2939, col: 11, offset: 93023},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2938, col: 11, offset: 92967},
+																									pos: position{line: 2939, col: 11, offset: 93023},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2938, col: 11, offset: 92967},
+																										pos:        position{line: 2939, col: 11, offset: 93023},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -28206,28 +28206,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28236,9 +28236,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -28296,12 +28296,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2938, col: 11, offset: 92967},
+																							pos: position{line: 2939, col: 11, offset: 93023},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2938, col: 11, offset: 92967},
+																								pos: position{line: 2939, col: 11, offset: 93023},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2938, col: 11, offset: 92967},
+																									pos:        position{line: 2939, col: 11, offset: 93023},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28344,28 +28344,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28374,9 +28374,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -28406,18 +28406,18 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 1693, col: 5, offset: 55165},
 																							expr: &seqExpr{
-																								pos: position{line: 2542, col: 31, offset: 81934},
+																								pos: position{line: 2543, col: 31, offset: 81990},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2542, col: 31, offset: 81934},
+																										pos:        position{line: 2543, col: 31, offset: 81990},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2542, col: 36, offset: 81939},
+																										pos: position{line: 2543, col: 36, offset: 81995},
 																										expr: &litMatcher{
-																											pos:        position{line: 2542, col: 37, offset: 81940},
+																											pos:        position{line: 2543, col: 37, offset: 81996},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -28467,28 +28467,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1694, col: 35, offset: 55227},
 																										expr: &choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93304},
+																											pos: position{line: 2957, col: 8, offset: 93360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93077},
+																													pos: position{line: 2944, col: 12, offset: 93133},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93078},
+																														pos: position{line: 2944, col: 13, offset: 93134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93078},
+																																pos:        position{line: 2944, col: 13, offset: 93134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93085},
+																																pos:        position{line: 2944, col: 20, offset: 93141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93094},
+																																pos:        position{line: 2944, col: 29, offset: 93150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -28497,9 +28497,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93254},
+																													pos: position{line: 2954, col: 8, offset: 93310},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93255,
+																														line: 2954, col: 9, offset: 93311,
 																													},
 																												},
 																											},
@@ -28564,10 +28564,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1712, col: 9, offset: 55732},
 																									expr: &actionExpr{
-																										pos: position{line: 2934, col: 10, offset: 92906},
+																										pos: position{line: 2935, col: 10, offset: 92962},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2934, col: 10, offset: 92906},
+																											pos:        position{line: 2935, col: 10, offset: 92962},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28576,28 +28576,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2956, col: 8, offset: 93304},
+																									pos: position{line: 2957, col: 8, offset: 93360},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2943, col: 12, offset: 93077},
+																											pos: position{line: 2944, col: 12, offset: 93133},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2943, col: 13, offset: 93078},
+																												pos: position{line: 2944, col: 13, offset: 93134},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 13, offset: 93078},
+																														pos:        position{line: 2944, col: 13, offset: 93134},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 20, offset: 93085},
+																														pos:        position{line: 2944, col: 20, offset: 93141},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 29, offset: 93094},
+																														pos:        position{line: 2944, col: 29, offset: 93150},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28606,9 +28606,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2953, col: 8, offset: 93254},
+																											pos: position{line: 2954, col: 8, offset: 93310},
 																											expr: &anyMatcher{
-																												line: 2953, col: 9, offset: 93255,
+																												line: 2954, col: 9, offset: 93311,
 																											},
 																										},
 																									},
@@ -28622,18 +28622,18 @@ var g = &grammar{
 																											pos: position{line: 702, col: 14, offset: 22577},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2951, col: 11, offset: 93240},
+																													pos: position{line: 2952, col: 11, offset: 93296},
 																													expr: &anyMatcher{
-																														line: 2951, col: 13, offset: 93242,
+																														line: 2952, col: 13, offset: 93298,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 702, col: 21, offset: 22584},
 																													expr: &actionExpr{
-																														pos: position{line: 2934, col: 10, offset: 92906},
+																														pos: position{line: 2935, col: 10, offset: 92962},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2934, col: 10, offset: 92906},
+																															pos:        position{line: 2935, col: 10, offset: 92962},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -28642,28 +28642,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2956, col: 8, offset: 93304},
+																													pos: position{line: 2957, col: 8, offset: 93360},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2943, col: 12, offset: 93077},
+																															pos: position{line: 2944, col: 12, offset: 93133},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2943, col: 13, offset: 93078},
+																																pos: position{line: 2944, col: 13, offset: 93134},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2943, col: 13, offset: 93078},
+																																		pos:        position{line: 2944, col: 13, offset: 93134},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2943, col: 20, offset: 93085},
+																																		pos:        position{line: 2944, col: 20, offset: 93141},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2943, col: 29, offset: 93094},
+																																		pos:        position{line: 2944, col: 29, offset: 93150},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28672,9 +28672,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2953, col: 8, offset: 93254},
+																															pos: position{line: 2954, col: 8, offset: 93310},
 																															expr: &anyMatcher{
-																																line: 2953, col: 9, offset: 93255,
+																																line: 2954, col: 9, offset: 93311,
 																															},
 																														},
 																													},
@@ -28693,12 +28693,12 @@ var g = &grammar{
 																							pos: position{line: 1719, col: 9, offset: 55880},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2938, col: 11, offset: 92967},
+																									pos: position{line: 2939, col: 11, offset: 93023},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2938, col: 11, offset: 92967},
+																										pos: position{line: 2939, col: 11, offset: 93023},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2938, col: 11, offset: 92967},
+																											pos:        position{line: 2939, col: 11, offset: 93023},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28725,28 +28725,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2956, col: 8, offset: 93304},
+																									pos: position{line: 2957, col: 8, offset: 93360},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2943, col: 12, offset: 93077},
+																											pos: position{line: 2944, col: 12, offset: 93133},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2943, col: 13, offset: 93078},
+																												pos: position{line: 2944, col: 13, offset: 93134},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 13, offset: 93078},
+																														pos:        position{line: 2944, col: 13, offset: 93134},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 20, offset: 93085},
+																														pos:        position{line: 2944, col: 20, offset: 93141},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 29, offset: 93094},
+																														pos:        position{line: 2944, col: 29, offset: 93150},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28755,9 +28755,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2953, col: 8, offset: 93254},
+																											pos: position{line: 2954, col: 8, offset: 93310},
 																											expr: &anyMatcher{
-																												line: 2953, col: 9, offset: 93255,
+																												line: 2954, col: 9, offset: 93311,
 																											},
 																										},
 																									},
@@ -28782,36 +28782,36 @@ var g = &grammar{
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2537, col: 22, offset: 81684},
+										pos: position{line: 2538, col: 22, offset: 81740},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2537, col: 22, offset: 81684},
+											pos: position{line: 2538, col: 22, offset: 81740},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2542, col: 31, offset: 81934},
+													pos:        position{line: 2543, col: 31, offset: 81990},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2542, col: 36, offset: 81939},
+													pos: position{line: 2543, col: 36, offset: 81995},
 													expr: &litMatcher{
-														pos:        position{line: 2542, col: 37, offset: 81940},
+														pos:        position{line: 2543, col: 37, offset: 81996},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2537, col: 49, offset: 81711},
+													pos:   position{line: 2538, col: 49, offset: 81767},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 13, offset: 91432},
+														pos: position{line: 2881, col: 13, offset: 91488},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2880, col: 13, offset: 91432},
+															pos: position{line: 2881, col: 13, offset: 91488},
 															expr: &charClassMatcher{
-																pos:        position{line: 2880, col: 13, offset: 91432},
+																pos:        position{line: 2881, col: 13, offset: 91488},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28821,28 +28821,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2956, col: 8, offset: 93304},
+													pos: position{line: 2957, col: 8, offset: 93360},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93077},
+															pos: position{line: 2944, col: 12, offset: 93133},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93078},
+																pos: position{line: 2944, col: 13, offset: 93134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93078},
+																		pos:        position{line: 2944, col: 13, offset: 93134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93085},
+																		pos:        position{line: 2944, col: 20, offset: 93141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93094},
+																		pos:        position{line: 2944, col: 29, offset: 93150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28851,9 +28851,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93254},
+															pos: position{line: 2954, col: 8, offset: 93310},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93255,
+																line: 2954, col: 9, offset: 93311,
 															},
 														},
 													},
@@ -28876,18 +28876,18 @@ var g = &grammar{
 															pos: position{line: 702, col: 14, offset: 22577},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2951, col: 11, offset: 93240},
+																	pos: position{line: 2952, col: 11, offset: 93296},
 																	expr: &anyMatcher{
-																		line: 2951, col: 13, offset: 93242,
+																		line: 2952, col: 13, offset: 93298,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 702, col: 21, offset: 22584},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92906},
+																		pos: position{line: 2935, col: 10, offset: 92962},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92906},
+																			pos:        position{line: 2935, col: 10, offset: 92962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28896,28 +28896,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93304},
+																	pos: position{line: 2957, col: 8, offset: 93360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93077},
+																			pos: position{line: 2944, col: 12, offset: 93133},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93078},
+																				pos: position{line: 2944, col: 13, offset: 93134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93078},
+																						pos:        position{line: 2944, col: 13, offset: 93134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93085},
+																						pos:        position{line: 2944, col: 20, offset: 93141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93094},
+																						pos:        position{line: 2944, col: 29, offset: 93150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28926,9 +28926,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93254},
+																			pos: position{line: 2954, col: 8, offset: 93310},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93255,
+																				line: 2954, col: 9, offset: 93311,
 																			},
 																		},
 																	},
@@ -28951,10 +28951,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1567, col: 31, offset: 50969},
 																expr: &actionExpr{
-																	pos: position{line: 2934, col: 10, offset: 92906},
+																	pos: position{line: 2935, col: 10, offset: 92962},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2934, col: 10, offset: 92906},
+																		pos:        position{line: 2935, col: 10, offset: 92962},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28963,25 +28963,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93077},
+																pos: position{line: 2944, col: 12, offset: 93133},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93078},
+																	pos: position{line: 2944, col: 13, offset: 93134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93078},
+																			pos:        position{line: 2944, col: 13, offset: 93134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93085},
+																			pos:        position{line: 2944, col: 20, offset: 93141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93094},
+																			pos:        position{line: 2944, col: 29, offset: 93150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -29003,10 +29003,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1608, col: 5, offset: 52184},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92906},
+																		pos: position{line: 2935, col: 10, offset: 92962},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92906},
+																			pos:        position{line: 2935, col: 10, offset: 92962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29173,12 +29173,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2938, col: 11, offset: 92967},
+																	pos: position{line: 2939, col: 11, offset: 93023},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2938, col: 11, offset: 92967},
+																		pos: position{line: 2939, col: 11, offset: 93023},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2938, col: 11, offset: 92967},
+																			pos:        position{line: 2939, col: 11, offset: 93023},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29201,10 +29201,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1658, col: 5, offset: 54146},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92906},
+																		pos: position{line: 2935, col: 10, offset: 92962},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92906},
+																			pos:        position{line: 2935, col: 10, offset: 92962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29245,12 +29245,12 @@ var g = &grammar{
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2938, col: 11, offset: 92967},
+																	pos: position{line: 2939, col: 11, offset: 93023},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2938, col: 11, offset: 92967},
+																		pos: position{line: 2939, col: 11, offset: 93023},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2938, col: 11, offset: 92967},
+																			pos:        position{line: 2939, col: 11, offset: 93023},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29301,12 +29301,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2938, col: 11, offset: 92967},
+																	pos: position{line: 2939, col: 11, offset: 93023},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2938, col: 11, offset: 92967},
+																		pos: position{line: 2939, col: 11, offset: 93023},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2938, col: 11, offset: 92967},
+																			pos:        position{line: 2939, col: 11, offset: 93023},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29332,18 +29332,18 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1693, col: 5, offset: 55165},
 																			expr: &seqExpr{
-																				pos: position{line: 2542, col: 31, offset: 81934},
+																				pos: position{line: 2543, col: 31, offset: 81990},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2542, col: 31, offset: 81934},
+																						pos:        position{line: 2543, col: 31, offset: 81990},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2542, col: 36, offset: 81939},
+																						pos: position{line: 2543, col: 36, offset: 81995},
 																						expr: &litMatcher{
-																							pos:        position{line: 2542, col: 37, offset: 81940},
+																							pos:        position{line: 2543, col: 37, offset: 81996},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -29393,28 +29393,28 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1694, col: 35, offset: 55227},
 																						expr: &choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29423,9 +29423,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -29484,7 +29484,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 749, col: 5, offset: 24130},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2824, col: 13, offset: 90001},
+																		pos:        position{line: 2825, col: 13, offset: 90057},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -29534,10 +29534,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 767, col: 8, offset: 24774},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92906},
+																								pos: position{line: 2935, col: 10, offset: 92962},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92906},
+																									pos:        position{line: 2935, col: 10, offset: 92962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29546,28 +29546,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29576,9 +29576,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -29623,10 +29623,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 774, col: 8, offset: 25022},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92906},
+																								pos: position{line: 2935, col: 10, offset: 92962},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92906},
+																									pos:        position{line: 2935, col: 10, offset: 92962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29635,28 +29635,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29665,9 +29665,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -29708,10 +29708,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 52, offset: 25434},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92906},
+																								pos: position{line: 2935, col: 10, offset: 92962},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92906},
+																									pos:        position{line: 2935, col: 10, offset: 92962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29720,28 +29720,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29750,9 +29750,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -29797,10 +29797,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 781, col: 8, offset: 25268},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92906},
+																								pos: position{line: 2935, col: 10, offset: 92962},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92906},
+																									pos:        position{line: 2935, col: 10, offset: 92962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29809,28 +29809,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29839,9 +29839,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -29886,10 +29886,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 796, col: 8, offset: 25806},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92906},
+																								pos: position{line: 2935, col: 10, offset: 92962},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92906},
+																									pos:        position{line: 2935, col: 10, offset: 92962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29898,28 +29898,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29928,9 +29928,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -29975,10 +29975,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 810, col: 8, offset: 26282},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92906},
+																								pos: position{line: 2935, col: 10, offset: 92962},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92906},
+																									pos:        position{line: 2935, col: 10, offset: 92962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29987,28 +29987,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30017,9 +30017,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -30064,10 +30064,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 817, col: 8, offset: 26534},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92906},
+																								pos: position{line: 2935, col: 10, offset: 92962},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92906},
+																									pos:        position{line: 2935, col: 10, offset: 92962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30076,28 +30076,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30106,9 +30106,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -30153,10 +30153,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 824, col: 8, offset: 26784},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92906},
+																								pos: position{line: 2935, col: 10, offset: 92962},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92906},
+																									pos:        position{line: 2935, col: 10, offset: 92962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30165,28 +30165,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30195,9 +30195,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -30242,10 +30242,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 831, col: 8, offset: 27030},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92906},
+																								pos: position{line: 2935, col: 10, offset: 92962},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92906},
+																									pos:        position{line: 2935, col: 10, offset: 92962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30254,28 +30254,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30284,9 +30284,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -30305,12 +30305,12 @@ var g = &grammar{
 													pos:   position{line: 1542, col: 5, offset: 50303},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2884, col: 14, offset: 91499},
+														pos: position{line: 2885, col: 14, offset: 91555},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2884, col: 14, offset: 91499},
+															pos: position{line: 2885, col: 14, offset: 91555},
 															expr: &charClassMatcher{
-																pos:        position{line: 2884, col: 14, offset: 91499},
+																pos:        position{line: 2885, col: 14, offset: 91555},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -30320,28 +30320,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2956, col: 8, offset: 93304},
+													pos: position{line: 2957, col: 8, offset: 93360},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93077},
+															pos: position{line: 2944, col: 12, offset: 93133},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93078},
+																pos: position{line: 2944, col: 13, offset: 93134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93078},
+																		pos:        position{line: 2944, col: 13, offset: 93134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93085},
+																		pos:        position{line: 2944, col: 20, offset: 93141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93094},
+																		pos:        position{line: 2944, col: 29, offset: 93150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30350,9 +30350,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93254},
+															pos: position{line: 2954, col: 8, offset: 93310},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93255,
+																line: 2954, col: 9, offset: 93311,
 															},
 														},
 													},
@@ -30387,10 +30387,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1559, col: 13, offset: 50727},
 											expr: &actionExpr{
-												pos: position{line: 2934, col: 10, offset: 92906},
+												pos: position{line: 2935, col: 10, offset: 92962},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2934, col: 10, offset: 92906},
+													pos:        position{line: 2935, col: 10, offset: 92962},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -30399,25 +30399,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2943, col: 12, offset: 93077},
+											pos: position{line: 2944, col: 12, offset: 93133},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2943, col: 13, offset: 93078},
+												pos: position{line: 2944, col: 13, offset: 93134},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2943, col: 13, offset: 93078},
+														pos:        position{line: 2944, col: 13, offset: 93134},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2943, col: 20, offset: 93085},
+														pos:        position{line: 2944, col: 20, offset: 93141},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2943, col: 29, offset: 93094},
+														pos:        position{line: 2944, col: 29, offset: 93150},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -30438,10 +30438,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1567, col: 31, offset: 50969},
 							expr: &actionExpr{
-								pos: position{line: 2934, col: 10, offset: 92906},
+								pos: position{line: 2935, col: 10, offset: 92962},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2934, col: 10, offset: 92906},
+									pos:        position{line: 2935, col: 10, offset: 92962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -30450,25 +30450,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2943, col: 12, offset: 93077},
+							pos: position{line: 2944, col: 12, offset: 93133},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2943, col: 13, offset: 93078},
+								pos: position{line: 2944, col: 13, offset: 93134},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2943, col: 13, offset: 93078},
+										pos:        position{line: 2944, col: 13, offset: 93134},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2943, col: 20, offset: 93085},
+										pos:        position{line: 2944, col: 20, offset: 93141},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2943, col: 29, offset: 93094},
+										pos:        position{line: 2944, col: 29, offset: 93150},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -30479,36 +30479,36 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1561, col: 5, offset: 50776},
 							expr: &actionExpr{
-								pos: position{line: 2537, col: 22, offset: 81684},
+								pos: position{line: 2538, col: 22, offset: 81740},
 								run: (*parser).callonListContinuation24,
 								expr: &seqExpr{
-									pos: position{line: 2537, col: 22, offset: 81684},
+									pos: position{line: 2538, col: 22, offset: 81740},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2542, col: 31, offset: 81934},
+											pos:        position{line: 2543, col: 31, offset: 81990},
 											val:        "//",
 											ignoreCase: false,
 											want:       "\"//\"",
 										},
 										&notExpr{
-											pos: position{line: 2542, col: 36, offset: 81939},
+											pos: position{line: 2543, col: 36, offset: 81995},
 											expr: &litMatcher{
-												pos:        position{line: 2542, col: 37, offset: 81940},
+												pos:        position{line: 2543, col: 37, offset: 81996},
 												val:        "/",
 												ignoreCase: false,
 												want:       "\"/\"",
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2537, col: 49, offset: 81711},
+											pos:   position{line: 2538, col: 49, offset: 81767},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2880, col: 13, offset: 91432},
+												pos: position{line: 2881, col: 13, offset: 91488},
 												run: (*parser).callonListContinuation30,
 												expr: &zeroOrMoreExpr{
-													pos: position{line: 2880, col: 13, offset: 91432},
+													pos: position{line: 2881, col: 13, offset: 91488},
 													expr: &charClassMatcher{
-														pos:        position{line: 2880, col: 13, offset: 91432},
+														pos:        position{line: 2881, col: 13, offset: 91488},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -30518,28 +30518,28 @@ var g = &grammar{
 											},
 										},
 										&choiceExpr{
-											pos: position{line: 2956, col: 8, offset: 93304},
+											pos: position{line: 2957, col: 8, offset: 93360},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2943, col: 12, offset: 93077},
+													pos: position{line: 2944, col: 12, offset: 93133},
 													run: (*parser).callonListContinuation34,
 													expr: &choiceExpr{
-														pos: position{line: 2943, col: 13, offset: 93078},
+														pos: position{line: 2944, col: 13, offset: 93134},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2943, col: 13, offset: 93078},
+																pos:        position{line: 2944, col: 13, offset: 93134},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2943, col: 20, offset: 93085},
+																pos:        position{line: 2944, col: 20, offset: 93141},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2943, col: 29, offset: 93094},
+																pos:        position{line: 2944, col: 29, offset: 93150},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -30548,9 +30548,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2953, col: 8, offset: 93254},
+													pos: position{line: 2954, col: 8, offset: 93310},
 													expr: &anyMatcher{
-														line: 2953, col: 9, offset: 93255,
+														line: 2954, col: 9, offset: 93311,
 													},
 												},
 											},
@@ -30584,9 +30584,9 @@ var g = &grammar{
 					pos: position{line: 1570, col: 5, offset: 51056},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2951, col: 11, offset: 93240},
+							pos: position{line: 2952, col: 11, offset: 93296},
 							expr: &anyMatcher{
-								line: 2951, col: 13, offset: 93242,
+								line: 2952, col: 13, offset: 93298,
 							},
 						},
 						&notExpr{
@@ -30612,10 +30612,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1608, col: 5, offset: 52184},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92906},
+																		pos: position{line: 2935, col: 10, offset: 92962},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92906},
+																			pos:        position{line: 2935, col: 10, offset: 92962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30782,12 +30782,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2938, col: 11, offset: 92967},
+																	pos: position{line: 2939, col: 11, offset: 93023},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2938, col: 11, offset: 92967},
+																		pos: position{line: 2939, col: 11, offset: 93023},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2938, col: 11, offset: 92967},
+																			pos:        position{line: 2939, col: 11, offset: 93023},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30830,28 +30830,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93304},
+																	pos: position{line: 2957, col: 8, offset: 93360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93077},
+																			pos: position{line: 2944, col: 12, offset: 93133},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93078},
+																				pos: position{line: 2944, col: 13, offset: 93134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93078},
+																						pos:        position{line: 2944, col: 13, offset: 93134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93085},
+																						pos:        position{line: 2944, col: 20, offset: 93141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93094},
+																						pos:        position{line: 2944, col: 29, offset: 93150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30860,9 +30860,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93254},
+																			pos: position{line: 2954, col: 8, offset: 93310},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93255,
+																				line: 2954, col: 9, offset: 93311,
 																			},
 																		},
 																	},
@@ -30892,10 +30892,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1658, col: 5, offset: 54146},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92906},
+																		pos: position{line: 2935, col: 10, offset: 92962},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92906},
+																			pos:        position{line: 2935, col: 10, offset: 92962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30936,12 +30936,12 @@ var g = &grammar{
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2938, col: 11, offset: 92967},
+																	pos: position{line: 2939, col: 11, offset: 93023},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2938, col: 11, offset: 92967},
+																		pos: position{line: 2939, col: 11, offset: 93023},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2938, col: 11, offset: 92967},
+																			pos:        position{line: 2939, col: 11, offset: 93023},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31013,12 +31013,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2938, col: 11, offset: 92967},
+																		pos: position{line: 2939, col: 11, offset: 93023},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2938, col: 11, offset: 92967},
+																			pos: position{line: 2939, col: 11, offset: 93023},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2938, col: 11, offset: 92967},
+																				pos:        position{line: 2939, col: 11, offset: 93023},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -31062,28 +31062,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93304},
+																	pos: position{line: 2957, col: 8, offset: 93360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93077},
+																			pos: position{line: 2944, col: 12, offset: 93133},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93078},
+																				pos: position{line: 2944, col: 13, offset: 93134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93078},
+																						pos:        position{line: 2944, col: 13, offset: 93134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93085},
+																						pos:        position{line: 2944, col: 20, offset: 93141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93094},
+																						pos:        position{line: 2944, col: 29, offset: 93150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31092,9 +31092,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93254},
+																			pos: position{line: 2954, col: 8, offset: 93310},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93255,
+																				line: 2954, col: 9, offset: 93311,
 																			},
 																		},
 																	},
@@ -31152,12 +31152,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2938, col: 11, offset: 92967},
+																	pos: position{line: 2939, col: 11, offset: 93023},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2938, col: 11, offset: 92967},
+																		pos: position{line: 2939, col: 11, offset: 93023},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2938, col: 11, offset: 92967},
+																			pos:        position{line: 2939, col: 11, offset: 93023},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31200,28 +31200,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93304},
+																	pos: position{line: 2957, col: 8, offset: 93360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93077},
+																			pos: position{line: 2944, col: 12, offset: 93133},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93078},
+																				pos: position{line: 2944, col: 13, offset: 93134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93078},
+																						pos:        position{line: 2944, col: 13, offset: 93134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93085},
+																						pos:        position{line: 2944, col: 20, offset: 93141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93094},
+																						pos:        position{line: 2944, col: 29, offset: 93150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31230,9 +31230,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93254},
+																			pos: position{line: 2954, col: 8, offset: 93310},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93255,
+																				line: 2954, col: 9, offset: 93311,
 																			},
 																		},
 																	},
@@ -31262,18 +31262,18 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1693, col: 5, offset: 55165},
 																	expr: &seqExpr{
-																		pos: position{line: 2542, col: 31, offset: 81934},
+																		pos: position{line: 2543, col: 31, offset: 81990},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2542, col: 31, offset: 81934},
+																				pos:        position{line: 2543, col: 31, offset: 81990},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2542, col: 36, offset: 81939},
+																				pos: position{line: 2543, col: 36, offset: 81995},
 																				expr: &litMatcher{
-																					pos:        position{line: 2542, col: 37, offset: 81940},
+																					pos:        position{line: 2543, col: 37, offset: 81996},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -31323,28 +31323,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1694, col: 35, offset: 55227},
 																				expr: &choiceExpr{
-																					pos: position{line: 2956, col: 8, offset: 93304},
+																					pos: position{line: 2957, col: 8, offset: 93360},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2943, col: 12, offset: 93077},
+																							pos: position{line: 2944, col: 12, offset: 93133},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2943, col: 13, offset: 93078},
+																								pos: position{line: 2944, col: 13, offset: 93134},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 13, offset: 93078},
+																										pos:        position{line: 2944, col: 13, offset: 93134},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 20, offset: 93085},
+																										pos:        position{line: 2944, col: 20, offset: 93141},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 29, offset: 93094},
+																										pos:        position{line: 2944, col: 29, offset: 93150},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31353,9 +31353,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93254},
+																							pos: position{line: 2954, col: 8, offset: 93310},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93255,
+																								line: 2954, col: 9, offset: 93311,
 																							},
 																						},
 																					},
@@ -31420,10 +31420,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1712, col: 9, offset: 55732},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92906},
+																				pos: position{line: 2935, col: 10, offset: 92962},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92906},
+																					pos:        position{line: 2935, col: 10, offset: 92962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31432,28 +31432,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93304},
+																			pos: position{line: 2957, col: 8, offset: 93360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93077},
+																					pos: position{line: 2944, col: 12, offset: 93133},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93078},
+																						pos: position{line: 2944, col: 13, offset: 93134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93078},
+																								pos:        position{line: 2944, col: 13, offset: 93134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93085},
+																								pos:        position{line: 2944, col: 20, offset: 93141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93094},
+																								pos:        position{line: 2944, col: 29, offset: 93150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31462,9 +31462,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -31478,18 +31478,18 @@ var g = &grammar{
 																					pos: position{line: 702, col: 14, offset: 22577},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2951, col: 11, offset: 93240},
+																							pos: position{line: 2952, col: 11, offset: 93296},
 																							expr: &anyMatcher{
-																								line: 2951, col: 13, offset: 93242,
+																								line: 2952, col: 13, offset: 93298,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 702, col: 21, offset: 22584},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92906},
+																								pos: position{line: 2935, col: 10, offset: 92962},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92906},
+																									pos:        position{line: 2935, col: 10, offset: 92962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31498,28 +31498,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31528,9 +31528,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -31549,12 +31549,12 @@ var g = &grammar{
 																	pos: position{line: 1719, col: 9, offset: 55880},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2938, col: 11, offset: 92967},
+																			pos: position{line: 2939, col: 11, offset: 93023},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2938, col: 11, offset: 92967},
+																				pos: position{line: 2939, col: 11, offset: 93023},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2938, col: 11, offset: 92967},
+																					pos:        position{line: 2939, col: 11, offset: 93023},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31581,28 +31581,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93304},
+																			pos: position{line: 2957, col: 8, offset: 93360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93077},
+																					pos: position{line: 2944, col: 12, offset: 93133},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93078},
+																						pos: position{line: 2944, col: 13, offset: 93134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93078},
+																								pos:        position{line: 2944, col: 13, offset: 93134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93085},
+																								pos:        position{line: 2944, col: 20, offset: 93141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93094},
+																								pos:        position{line: 2944, col: 29, offset: 93150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31611,9 +31611,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -31654,18 +31654,18 @@ var g = &grammar{
 											pos: position{line: 702, col: 14, offset: 22577},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2951, col: 11, offset: 93240},
+													pos: position{line: 2952, col: 11, offset: 93296},
 													expr: &anyMatcher{
-														line: 2951, col: 13, offset: 93242,
+														line: 2952, col: 13, offset: 93298,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 702, col: 21, offset: 22584},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92906},
+														pos: position{line: 2935, col: 10, offset: 92962},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92906},
+															pos:        position{line: 2935, col: 10, offset: 92962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31674,28 +31674,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2956, col: 8, offset: 93304},
+													pos: position{line: 2957, col: 8, offset: 93360},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93077},
+															pos: position{line: 2944, col: 12, offset: 93133},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93078},
+																pos: position{line: 2944, col: 13, offset: 93134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93078},
+																		pos:        position{line: 2944, col: 13, offset: 93134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93085},
+																		pos:        position{line: 2944, col: 20, offset: 93141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93094},
+																		pos:        position{line: 2944, col: 29, offset: 93150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31704,9 +31704,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93254},
+															pos: position{line: 2954, col: 8, offset: 93310},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93255,
+																line: 2954, col: 9, offset: 93311,
 															},
 														},
 													},
@@ -31771,10 +31771,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 49, offset: 11042},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92906},
+														pos: position{line: 2935, col: 10, offset: 92962},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92906},
+															pos:        position{line: 2935, col: 10, offset: 92962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31783,28 +31783,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2956, col: 8, offset: 93304},
+													pos: position{line: 2957, col: 8, offset: 93360},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93077},
+															pos: position{line: 2944, col: 12, offset: 93133},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93078},
+																pos: position{line: 2944, col: 13, offset: 93134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93078},
+																		pos:        position{line: 2944, col: 13, offset: 93134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93085},
+																		pos:        position{line: 2944, col: 20, offset: 93141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93094},
+																		pos:        position{line: 2944, col: 29, offset: 93150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31813,9 +31813,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93254},
+															pos: position{line: 2954, col: 8, offset: 93310},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93255,
+																line: 2954, col: 9, offset: 93311,
 															},
 														},
 													},
@@ -31876,10 +31876,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 364, col: 39, offset: 11163},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92906},
+														pos: position{line: 2935, col: 10, offset: 92962},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92906},
+															pos:        position{line: 2935, col: 10, offset: 92962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31888,28 +31888,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2956, col: 8, offset: 93304},
+													pos: position{line: 2957, col: 8, offset: 93360},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93077},
+															pos: position{line: 2944, col: 12, offset: 93133},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93078},
+																pos: position{line: 2944, col: 13, offset: 93134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93078},
+																		pos:        position{line: 2944, col: 13, offset: 93134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93085},
+																		pos:        position{line: 2944, col: 20, offset: 93141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93094},
+																		pos:        position{line: 2944, col: 29, offset: 93150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31918,9 +31918,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93254},
+															pos: position{line: 2954, col: 8, offset: 93310},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93255,
+																line: 2954, col: 9, offset: 93311,
 															},
 														},
 													},
@@ -31971,10 +31971,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 767, col: 8, offset: 24774},
 																expr: &actionExpr{
-																	pos: position{line: 2934, col: 10, offset: 92906},
+																	pos: position{line: 2935, col: 10, offset: 92962},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2934, col: 10, offset: 92906},
+																		pos:        position{line: 2935, col: 10, offset: 92962},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31983,28 +31983,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2956, col: 8, offset: 93304},
+																pos: position{line: 2957, col: 8, offset: 93360},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2943, col: 12, offset: 93077},
+																		pos: position{line: 2944, col: 12, offset: 93133},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2943, col: 13, offset: 93078},
+																			pos: position{line: 2944, col: 13, offset: 93134},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 13, offset: 93078},
+																					pos:        position{line: 2944, col: 13, offset: 93134},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 20, offset: 93085},
+																					pos:        position{line: 2944, col: 20, offset: 93141},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 29, offset: 93094},
+																					pos:        position{line: 2944, col: 29, offset: 93150},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32013,9 +32013,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93254},
+																		pos: position{line: 2954, col: 8, offset: 93310},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93255,
+																			line: 2954, col: 9, offset: 93311,
 																		},
 																	},
 																},
@@ -32076,10 +32076,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 767, col: 8, offset: 24774},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92906},
+																									pos: position{line: 2935, col: 10, offset: 92962},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92906},
+																										pos:        position{line: 2935, col: 10, offset: 92962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -32088,28 +32088,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2956, col: 8, offset: 93304},
+																								pos: position{line: 2957, col: 8, offset: 93360},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2943, col: 12, offset: 93077},
+																										pos: position{line: 2944, col: 12, offset: 93133},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2943, col: 13, offset: 93078},
+																											pos: position{line: 2944, col: 13, offset: 93134},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 13, offset: 93078},
+																													pos:        position{line: 2944, col: 13, offset: 93134},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 20, offset: 93085},
+																													pos:        position{line: 2944, col: 20, offset: 93141},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 29, offset: 93094},
+																													pos:        position{line: 2944, col: 29, offset: 93150},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -32118,9 +32118,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93254},
+																										pos: position{line: 2954, col: 8, offset: 93310},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93255,
+																											line: 2954, col: 9, offset: 93311,
 																										},
 																									},
 																								},
@@ -32129,9 +32129,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -32147,21 +32147,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2951, col: 11, offset: 93240},
+																						pos: position{line: 2952, col: 11, offset: 93296},
 																						expr: &anyMatcher{
-																							line: 2951, col: 13, offset: 93242,
+																							line: 2952, col: 13, offset: 93298,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 13, offset: 91432},
+																							pos: position{line: 2881, col: 13, offset: 91488},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2880, col: 13, offset: 91432},
+																								pos: position{line: 2881, col: 13, offset: 91488},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 13, offset: 91432},
+																									pos:        position{line: 2881, col: 13, offset: 91488},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32171,28 +32171,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93304},
+																						pos: position{line: 2957, col: 8, offset: 93360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93077},
+																								pos: position{line: 2944, col: 12, offset: 93133},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93078},
+																									pos: position{line: 2944, col: 13, offset: 93134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93078},
+																											pos:        position{line: 2944, col: 13, offset: 93134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93085},
+																											pos:        position{line: 2944, col: 20, offset: 93141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93094},
+																											pos:        position{line: 2944, col: 29, offset: 93150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32201,9 +32201,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93254},
+																								pos: position{line: 2954, col: 8, offset: 93310},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93255,
+																									line: 2954, col: 9, offset: 93311,
 																								},
 																							},
 																						},
@@ -32259,10 +32259,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 767, col: 8, offset: 24774},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92906},
+																				pos: position{line: 2935, col: 10, offset: 92962},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92906},
+																					pos:        position{line: 2935, col: 10, offset: 92962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -32271,28 +32271,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93304},
+																			pos: position{line: 2957, col: 8, offset: 93360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93077},
+																					pos: position{line: 2944, col: 12, offset: 93133},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93078},
+																						pos: position{line: 2944, col: 13, offset: 93134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93078},
+																								pos:        position{line: 2944, col: 13, offset: 93134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93085},
+																								pos:        position{line: 2944, col: 20, offset: 93141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93094},
+																								pos:        position{line: 2944, col: 29, offset: 93150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32301,9 +32301,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -32312,9 +32312,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93254},
+																pos: position{line: 2954, col: 8, offset: 93310},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93255,
+																	line: 2954, col: 9, offset: 93311,
 																},
 															},
 														},
@@ -32369,10 +32369,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 774, col: 8, offset: 25022},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92906},
+																		pos: position{line: 2935, col: 10, offset: 92962},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92906},
+																			pos:        position{line: 2935, col: 10, offset: 92962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32381,28 +32381,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93304},
+																	pos: position{line: 2957, col: 8, offset: 93360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93077},
+																			pos: position{line: 2944, col: 12, offset: 93133},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93078},
+																				pos: position{line: 2944, col: 13, offset: 93134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93078},
+																						pos:        position{line: 2944, col: 13, offset: 93134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93085},
+																						pos:        position{line: 2944, col: 20, offset: 93141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93094},
+																						pos:        position{line: 2944, col: 29, offset: 93150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32411,9 +32411,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93254},
+																			pos: position{line: 2954, col: 8, offset: 93310},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93255,
+																				line: 2954, col: 9, offset: 93311,
 																			},
 																		},
 																	},
@@ -32485,10 +32485,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 774, col: 8, offset: 25022},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92906},
+																												pos: position{line: 2935, col: 10, offset: 92962},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92906},
+																													pos:        position{line: 2935, col: 10, offset: 92962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32497,28 +32497,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93304},
+																											pos: position{line: 2957, col: 8, offset: 93360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93077},
+																													pos: position{line: 2944, col: 12, offset: 93133},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93078},
+																														pos: position{line: 2944, col: 13, offset: 93134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93078},
+																																pos:        position{line: 2944, col: 13, offset: 93134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93085},
+																																pos:        position{line: 2944, col: 20, offset: 93141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93094},
+																																pos:        position{line: 2944, col: 29, offset: 93150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32527,9 +32527,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93254},
+																													pos: position{line: 2954, col: 8, offset: 93310},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93255,
+																														line: 2954, col: 9, offset: 93311,
 																													},
 																												},
 																											},
@@ -32545,9 +32545,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -32563,21 +32563,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2951, col: 11, offset: 93240},
+																						pos: position{line: 2952, col: 11, offset: 93296},
 																						expr: &anyMatcher{
-																							line: 2951, col: 13, offset: 93242,
+																							line: 2952, col: 13, offset: 93298,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 13, offset: 91432},
+																							pos: position{line: 2881, col: 13, offset: 91488},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2880, col: 13, offset: 91432},
+																								pos: position{line: 2881, col: 13, offset: 91488},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 13, offset: 91432},
+																									pos:        position{line: 2881, col: 13, offset: 91488},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32587,28 +32587,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93304},
+																						pos: position{line: 2957, col: 8, offset: 93360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93077},
+																								pos: position{line: 2944, col: 12, offset: 93133},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93078},
+																									pos: position{line: 2944, col: 13, offset: 93134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93078},
+																											pos:        position{line: 2944, col: 13, offset: 93134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93085},
+																											pos:        position{line: 2944, col: 20, offset: 93141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93094},
+																											pos:        position{line: 2944, col: 29, offset: 93150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32617,9 +32617,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93254},
+																								pos: position{line: 2954, col: 8, offset: 93310},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93255,
+																									line: 2954, col: 9, offset: 93311,
 																								},
 																							},
 																						},
@@ -32684,10 +32684,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 774, col: 8, offset: 25022},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92906},
+																								pos: position{line: 2935, col: 10, offset: 92962},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92906},
+																									pos:        position{line: 2935, col: 10, offset: 92962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32696,28 +32696,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32726,9 +32726,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -32744,9 +32744,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2953, col: 8, offset: 93254},
+																	pos: position{line: 2954, col: 8, offset: 93310},
 																	expr: &anyMatcher{
-																		line: 2953, col: 9, offset: 93255,
+																		line: 2954, col: 9, offset: 93311,
 																	},
 																},
 															},
@@ -32798,10 +32798,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 785, col: 52, offset: 25434},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92906},
+																		pos: position{line: 2935, col: 10, offset: 92962},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92906},
+																			pos:        position{line: 2935, col: 10, offset: 92962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32810,28 +32810,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93304},
+																	pos: position{line: 2957, col: 8, offset: 93360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93077},
+																			pos: position{line: 2944, col: 12, offset: 93133},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93078},
+																				pos: position{line: 2944, col: 13, offset: 93134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93078},
+																						pos:        position{line: 2944, col: 13, offset: 93134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93085},
+																						pos:        position{line: 2944, col: 20, offset: 93141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93094},
+																						pos:        position{line: 2944, col: 29, offset: 93150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32840,9 +32840,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93254},
+																			pos: position{line: 2954, col: 8, offset: 93310},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93255,
+																				line: 2954, col: 9, offset: 93311,
 																			},
 																		},
 																	},
@@ -32876,10 +32876,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 988, col: 40, offset: 31237},
 																					expr: &actionExpr{
-																						pos: position{line: 2934, col: 10, offset: 92906},
+																						pos: position{line: 2935, col: 10, offset: 92962},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2934, col: 10, offset: 92906},
+																							pos:        position{line: 2935, col: 10, offset: 92962},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32888,28 +32888,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2956, col: 8, offset: 93304},
+																					pos: position{line: 2957, col: 8, offset: 93360},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2943, col: 12, offset: 93077},
+																							pos: position{line: 2944, col: 12, offset: 93133},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2943, col: 13, offset: 93078},
+																								pos: position{line: 2944, col: 13, offset: 93134},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 13, offset: 93078},
+																										pos:        position{line: 2944, col: 13, offset: 93134},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 20, offset: 93085},
+																										pos:        position{line: 2944, col: 20, offset: 93141},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 29, offset: 93094},
+																										pos:        position{line: 2944, col: 29, offset: 93150},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32918,9 +32918,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93254},
+																							pos: position{line: 2954, col: 8, offset: 93310},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93255,
+																								line: 2954, col: 9, offset: 93311,
 																							},
 																						},
 																					},
@@ -32938,21 +32938,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2951, col: 11, offset: 93240},
+																						pos: position{line: 2952, col: 11, offset: 93296},
 																						expr: &anyMatcher{
-																							line: 2951, col: 13, offset: 93242,
+																							line: 2952, col: 13, offset: 93298,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 13, offset: 91432},
+																							pos: position{line: 2881, col: 13, offset: 91488},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2880, col: 13, offset: 91432},
+																								pos: position{line: 2881, col: 13, offset: 91488},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 13, offset: 91432},
+																									pos:        position{line: 2881, col: 13, offset: 91488},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32962,28 +32962,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93304},
+																						pos: position{line: 2957, col: 8, offset: 93360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93077},
+																								pos: position{line: 2944, col: 12, offset: 93133},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93078},
+																									pos: position{line: 2944, col: 13, offset: 93134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93078},
+																											pos:        position{line: 2944, col: 13, offset: 93134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93085},
+																											pos:        position{line: 2944, col: 20, offset: 93141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93094},
+																											pos:        position{line: 2944, col: 29, offset: 93150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32992,9 +32992,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93254},
+																								pos: position{line: 2954, col: 8, offset: 93310},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93255,
+																									line: 2954, col: 9, offset: 93311,
 																								},
 																							},
 																						},
@@ -33022,10 +33022,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 988, col: 40, offset: 31237},
 																expr: &actionExpr{
-																	pos: position{line: 2934, col: 10, offset: 92906},
+																	pos: position{line: 2935, col: 10, offset: 92962},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2934, col: 10, offset: 92906},
+																		pos:        position{line: 2935, col: 10, offset: 92962},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -33034,28 +33034,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2956, col: 8, offset: 93304},
+																pos: position{line: 2957, col: 8, offset: 93360},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2943, col: 12, offset: 93077},
+																		pos: position{line: 2944, col: 12, offset: 93133},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2943, col: 13, offset: 93078},
+																			pos: position{line: 2944, col: 13, offset: 93134},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 13, offset: 93078},
+																					pos:        position{line: 2944, col: 13, offset: 93134},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 20, offset: 93085},
+																					pos:        position{line: 2944, col: 20, offset: 93141},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 29, offset: 93094},
+																					pos:        position{line: 2944, col: 29, offset: 93150},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -33064,9 +33064,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93254},
+																		pos: position{line: 2954, col: 8, offset: 93310},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93255,
+																			line: 2954, col: 9, offset: 93311,
 																		},
 																	},
 																},
@@ -33123,10 +33123,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 781, col: 8, offset: 25268},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92906},
+																		pos: position{line: 2935, col: 10, offset: 92962},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92906},
+																			pos:        position{line: 2935, col: 10, offset: 92962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33135,28 +33135,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93304},
+																	pos: position{line: 2957, col: 8, offset: 93360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93077},
+																			pos: position{line: 2944, col: 12, offset: 93133},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93078},
+																				pos: position{line: 2944, col: 13, offset: 93134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93078},
+																						pos:        position{line: 2944, col: 13, offset: 93134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93085},
+																						pos:        position{line: 2944, col: 20, offset: 93141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93094},
+																						pos:        position{line: 2944, col: 29, offset: 93150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33165,9 +33165,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93254},
+																			pos: position{line: 2954, col: 8, offset: 93310},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93255,
+																				line: 2954, col: 9, offset: 93311,
 																			},
 																		},
 																	},
@@ -33239,10 +33239,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 781, col: 8, offset: 25268},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92906},
+																												pos: position{line: 2935, col: 10, offset: 92962},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92906},
+																													pos:        position{line: 2935, col: 10, offset: 92962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33251,28 +33251,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93304},
+																											pos: position{line: 2957, col: 8, offset: 93360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93077},
+																													pos: position{line: 2944, col: 12, offset: 93133},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93078},
+																														pos: position{line: 2944, col: 13, offset: 93134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93078},
+																																pos:        position{line: 2944, col: 13, offset: 93134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93085},
+																																pos:        position{line: 2944, col: 20, offset: 93141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93094},
+																																pos:        position{line: 2944, col: 29, offset: 93150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33281,9 +33281,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93254},
+																													pos: position{line: 2954, col: 8, offset: 93310},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93255,
+																														line: 2954, col: 9, offset: 93311,
 																													},
 																												},
 																											},
@@ -33299,9 +33299,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -33317,21 +33317,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2951, col: 11, offset: 93240},
+																						pos: position{line: 2952, col: 11, offset: 93296},
 																						expr: &anyMatcher{
-																							line: 2951, col: 13, offset: 93242,
+																							line: 2952, col: 13, offset: 93298,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 13, offset: 91432},
+																							pos: position{line: 2881, col: 13, offset: 91488},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2880, col: 13, offset: 91432},
+																								pos: position{line: 2881, col: 13, offset: 91488},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 13, offset: 91432},
+																									pos:        position{line: 2881, col: 13, offset: 91488},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33341,28 +33341,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93304},
+																						pos: position{line: 2957, col: 8, offset: 93360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93077},
+																								pos: position{line: 2944, col: 12, offset: 93133},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93078},
+																									pos: position{line: 2944, col: 13, offset: 93134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93078},
+																											pos:        position{line: 2944, col: 13, offset: 93134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93085},
+																											pos:        position{line: 2944, col: 20, offset: 93141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93094},
+																											pos:        position{line: 2944, col: 29, offset: 93150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33371,9 +33371,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93254},
+																								pos: position{line: 2954, col: 8, offset: 93310},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93255,
+																									line: 2954, col: 9, offset: 93311,
 																								},
 																							},
 																						},
@@ -33438,10 +33438,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 781, col: 8, offset: 25268},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92906},
+																								pos: position{line: 2935, col: 10, offset: 92962},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92906},
+																									pos:        position{line: 2935, col: 10, offset: 92962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33450,28 +33450,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33480,9 +33480,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -33498,9 +33498,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2953, col: 8, offset: 93254},
+																	pos: position{line: 2954, col: 8, offset: 93310},
 																	expr: &anyMatcher{
-																		line: 2953, col: 9, offset: 93255,
+																		line: 2954, col: 9, offset: 93311,
 																	},
 																},
 															},
@@ -33556,10 +33556,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 796, col: 8, offset: 25806},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92906},
+																		pos: position{line: 2935, col: 10, offset: 92962},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92906},
+																			pos:        position{line: 2935, col: 10, offset: 92962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33568,28 +33568,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93304},
+																	pos: position{line: 2957, col: 8, offset: 93360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93077},
+																			pos: position{line: 2944, col: 12, offset: 93133},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93078},
+																				pos: position{line: 2944, col: 13, offset: 93134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93078},
+																						pos:        position{line: 2944, col: 13, offset: 93134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93085},
+																						pos:        position{line: 2944, col: 20, offset: 93141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93094},
+																						pos:        position{line: 2944, col: 29, offset: 93150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33598,9 +33598,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93254},
+																			pos: position{line: 2954, col: 8, offset: 93310},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93255,
+																				line: 2954, col: 9, offset: 93311,
 																			},
 																		},
 																	},
@@ -33672,10 +33672,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 796, col: 8, offset: 25806},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92906},
+																												pos: position{line: 2935, col: 10, offset: 92962},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92906},
+																													pos:        position{line: 2935, col: 10, offset: 92962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33684,28 +33684,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93304},
+																											pos: position{line: 2957, col: 8, offset: 93360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93077},
+																													pos: position{line: 2944, col: 12, offset: 93133},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93078},
+																														pos: position{line: 2944, col: 13, offset: 93134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93078},
+																																pos:        position{line: 2944, col: 13, offset: 93134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93085},
+																																pos:        position{line: 2944, col: 20, offset: 93141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93094},
+																																pos:        position{line: 2944, col: 29, offset: 93150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33714,9 +33714,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93254},
+																													pos: position{line: 2954, col: 8, offset: 93310},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93255,
+																														line: 2954, col: 9, offset: 93311,
 																													},
 																												},
 																											},
@@ -33732,9 +33732,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -33750,21 +33750,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2951, col: 11, offset: 93240},
+																						pos: position{line: 2952, col: 11, offset: 93296},
 																						expr: &anyMatcher{
-																							line: 2951, col: 13, offset: 93242,
+																							line: 2952, col: 13, offset: 93298,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 13, offset: 91432},
+																							pos: position{line: 2881, col: 13, offset: 91488},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2880, col: 13, offset: 91432},
+																								pos: position{line: 2881, col: 13, offset: 91488},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 13, offset: 91432},
+																									pos:        position{line: 2881, col: 13, offset: 91488},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33774,28 +33774,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93304},
+																						pos: position{line: 2957, col: 8, offset: 93360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93077},
+																								pos: position{line: 2944, col: 12, offset: 93133},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93078},
+																									pos: position{line: 2944, col: 13, offset: 93134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93078},
+																											pos:        position{line: 2944, col: 13, offset: 93134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93085},
+																											pos:        position{line: 2944, col: 20, offset: 93141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93094},
+																											pos:        position{line: 2944, col: 29, offset: 93150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33804,9 +33804,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93254},
+																								pos: position{line: 2954, col: 8, offset: 93310},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93255,
+																									line: 2954, col: 9, offset: 93311,
 																								},
 																							},
 																						},
@@ -33871,10 +33871,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 796, col: 8, offset: 25806},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92906},
+																								pos: position{line: 2935, col: 10, offset: 92962},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92906},
+																									pos:        position{line: 2935, col: 10, offset: 92962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33883,28 +33883,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33913,9 +33913,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -33931,9 +33931,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2953, col: 8, offset: 93254},
+																	pos: position{line: 2954, col: 8, offset: 93310},
 																	expr: &anyMatcher{
-																		line: 2953, col: 9, offset: 93255,
+																		line: 2954, col: 9, offset: 93311,
 																	},
 																},
 															},
@@ -33989,10 +33989,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 810, col: 8, offset: 26282},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92906},
+																		pos: position{line: 2935, col: 10, offset: 92962},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92906},
+																			pos:        position{line: 2935, col: 10, offset: 92962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34001,28 +34001,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93304},
+																	pos: position{line: 2957, col: 8, offset: 93360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93077},
+																			pos: position{line: 2944, col: 12, offset: 93133},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93078},
+																				pos: position{line: 2944, col: 13, offset: 93134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93078},
+																						pos:        position{line: 2944, col: 13, offset: 93134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93085},
+																						pos:        position{line: 2944, col: 20, offset: 93141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93094},
+																						pos:        position{line: 2944, col: 29, offset: 93150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34031,9 +34031,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93254},
+																			pos: position{line: 2954, col: 8, offset: 93310},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93255,
+																				line: 2954, col: 9, offset: 93311,
 																			},
 																		},
 																	},
@@ -34105,10 +34105,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 810, col: 8, offset: 26282},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92906},
+																												pos: position{line: 2935, col: 10, offset: 92962},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92906},
+																													pos:        position{line: 2935, col: 10, offset: 92962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34117,28 +34117,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93304},
+																											pos: position{line: 2957, col: 8, offset: 93360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93077},
+																													pos: position{line: 2944, col: 12, offset: 93133},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93078},
+																														pos: position{line: 2944, col: 13, offset: 93134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93078},
+																																pos:        position{line: 2944, col: 13, offset: 93134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93085},
+																																pos:        position{line: 2944, col: 20, offset: 93141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93094},
+																																pos:        position{line: 2944, col: 29, offset: 93150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34147,9 +34147,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93254},
+																													pos: position{line: 2954, col: 8, offset: 93310},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93255,
+																														line: 2954, col: 9, offset: 93311,
 																													},
 																												},
 																											},
@@ -34165,9 +34165,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -34183,21 +34183,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2951, col: 11, offset: 93240},
+																						pos: position{line: 2952, col: 11, offset: 93296},
 																						expr: &anyMatcher{
-																							line: 2951, col: 13, offset: 93242,
+																							line: 2952, col: 13, offset: 93298,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 13, offset: 91432},
+																							pos: position{line: 2881, col: 13, offset: 91488},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2880, col: 13, offset: 91432},
+																								pos: position{line: 2881, col: 13, offset: 91488},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 13, offset: 91432},
+																									pos:        position{line: 2881, col: 13, offset: 91488},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34207,28 +34207,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93304},
+																						pos: position{line: 2957, col: 8, offset: 93360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93077},
+																								pos: position{line: 2944, col: 12, offset: 93133},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93078},
+																									pos: position{line: 2944, col: 13, offset: 93134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93078},
+																											pos:        position{line: 2944, col: 13, offset: 93134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93085},
+																											pos:        position{line: 2944, col: 20, offset: 93141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93094},
+																											pos:        position{line: 2944, col: 29, offset: 93150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34237,9 +34237,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93254},
+																								pos: position{line: 2954, col: 8, offset: 93310},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93255,
+																									line: 2954, col: 9, offset: 93311,
 																								},
 																							},
 																						},
@@ -34304,10 +34304,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 810, col: 8, offset: 26282},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92906},
+																								pos: position{line: 2935, col: 10, offset: 92962},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92906},
+																									pos:        position{line: 2935, col: 10, offset: 92962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34316,28 +34316,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34346,9 +34346,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -34364,9 +34364,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2953, col: 8, offset: 93254},
+																	pos: position{line: 2954, col: 8, offset: 93310},
 																	expr: &anyMatcher{
-																		line: 2953, col: 9, offset: 93255,
+																		line: 2954, col: 9, offset: 93311,
 																	},
 																},
 															},
@@ -34400,18 +34400,18 @@ var g = &grammar{
 																			pos: position{line: 702, col: 14, offset: 22577},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2951, col: 11, offset: 93240},
+																					pos: position{line: 2952, col: 11, offset: 93296},
 																					expr: &anyMatcher{
-																						line: 2951, col: 13, offset: 93242,
+																						line: 2952, col: 13, offset: 93298,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 702, col: 21, offset: 22584},
 																					expr: &actionExpr{
-																						pos: position{line: 2934, col: 10, offset: 92906},
+																						pos: position{line: 2935, col: 10, offset: 92962},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2934, col: 10, offset: 92906},
+																							pos:        position{line: 2935, col: 10, offset: 92962},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -34420,28 +34420,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2956, col: 8, offset: 93304},
+																					pos: position{line: 2957, col: 8, offset: 93360},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2943, col: 12, offset: 93077},
+																							pos: position{line: 2944, col: 12, offset: 93133},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2943, col: 13, offset: 93078},
+																								pos: position{line: 2944, col: 13, offset: 93134},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 13, offset: 93078},
+																										pos:        position{line: 2944, col: 13, offset: 93134},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 20, offset: 93085},
+																										pos:        position{line: 2944, col: 20, offset: 93141},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 29, offset: 93094},
+																										pos:        position{line: 2944, col: 29, offset: 93150},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -34450,9 +34450,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93254},
+																							pos: position{line: 2954, col: 8, offset: 93310},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93255,
+																								line: 2954, col: 9, offset: 93311,
 																							},
 																						},
 																					},
@@ -34471,12 +34471,12 @@ var g = &grammar{
 																	pos:   position{line: 1009, col: 5, offset: 31772},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2884, col: 14, offset: 91499},
+																		pos: position{line: 2885, col: 14, offset: 91555},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2884, col: 14, offset: 91499},
+																			pos: position{line: 2885, col: 14, offset: 91555},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2884, col: 14, offset: 91499},
+																				pos:        position{line: 2885, col: 14, offset: 91555},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -34486,28 +34486,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93304},
+																	pos: position{line: 2957, col: 8, offset: 93360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93077},
+																			pos: position{line: 2944, col: 12, offset: 93133},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93078},
+																				pos: position{line: 2944, col: 13, offset: 93134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93078},
+																						pos:        position{line: 2944, col: 13, offset: 93134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93085},
+																						pos:        position{line: 2944, col: 20, offset: 93141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93094},
+																						pos:        position{line: 2944, col: 29, offset: 93150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34516,9 +34516,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93254},
+																			pos: position{line: 2954, col: 8, offset: 93310},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93255,
+																				line: 2954, col: 9, offset: 93311,
 																			},
 																		},
 																	},
@@ -34550,18 +34550,18 @@ var g = &grammar{
 																						pos: position{line: 702, col: 14, offset: 22577},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2951, col: 11, offset: 93240},
+																								pos: position{line: 2952, col: 11, offset: 93296},
 																								expr: &anyMatcher{
-																									line: 2951, col: 13, offset: 93242,
+																									line: 2952, col: 13, offset: 93298,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 702, col: 21, offset: 22584},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92906},
+																									pos: position{line: 2935, col: 10, offset: 92962},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92906},
+																										pos:        position{line: 2935, col: 10, offset: 92962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34570,28 +34570,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2956, col: 8, offset: 93304},
+																								pos: position{line: 2957, col: 8, offset: 93360},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2943, col: 12, offset: 93077},
+																										pos: position{line: 2944, col: 12, offset: 93133},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2943, col: 13, offset: 93078},
+																											pos: position{line: 2944, col: 13, offset: 93134},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 13, offset: 93078},
+																													pos:        position{line: 2944, col: 13, offset: 93134},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 20, offset: 93085},
+																													pos:        position{line: 2944, col: 20, offset: 93141},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 29, offset: 93094},
+																													pos:        position{line: 2944, col: 29, offset: 93150},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34600,9 +34600,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93254},
+																										pos: position{line: 2954, col: 8, offset: 93310},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93255,
+																											line: 2954, col: 9, offset: 93311,
 																										},
 																									},
 																								},
@@ -34621,12 +34621,12 @@ var g = &grammar{
 																				pos:   position{line: 1009, col: 5, offset: 31772},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2884, col: 14, offset: 91499},
+																					pos: position{line: 2885, col: 14, offset: 91555},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2884, col: 14, offset: 91499},
+																						pos: position{line: 2885, col: 14, offset: 91555},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2884, col: 14, offset: 91499},
+																							pos:        position{line: 2885, col: 14, offset: 91555},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34636,28 +34636,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2956, col: 8, offset: 93304},
+																				pos: position{line: 2957, col: 8, offset: 93360},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2943, col: 12, offset: 93077},
+																						pos: position{line: 2944, col: 12, offset: 93133},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2943, col: 13, offset: 93078},
+																							pos: position{line: 2944, col: 13, offset: 93134},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 13, offset: 93078},
+																									pos:        position{line: 2944, col: 13, offset: 93134},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 20, offset: 93085},
+																									pos:        position{line: 2944, col: 20, offset: 93141},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 29, offset: 93094},
+																									pos:        position{line: 2944, col: 29, offset: 93150},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34666,9 +34666,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93254},
+																						pos: position{line: 2954, col: 8, offset: 93310},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93255,
+																							line: 2954, col: 9, offset: 93311,
 																						},
 																					},
 																				},
@@ -34686,12 +34686,12 @@ var g = &grammar{
 																				pos:   position{line: 1816, col: 5, offset: 58966},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2884, col: 14, offset: 91499},
+																					pos: position{line: 2885, col: 14, offset: 91555},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2884, col: 14, offset: 91499},
+																						pos: position{line: 2885, col: 14, offset: 91555},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2884, col: 14, offset: 91499},
+																							pos:        position{line: 2885, col: 14, offset: 91555},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34705,28 +34705,28 @@ var g = &grammar{
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2956, col: 8, offset: 93304},
+																				pos: position{line: 2957, col: 8, offset: 93360},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2943, col: 12, offset: 93077},
+																						pos: position{line: 2944, col: 12, offset: 93133},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2943, col: 13, offset: 93078},
+																							pos: position{line: 2944, col: 13, offset: 93134},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 13, offset: 93078},
+																									pos:        position{line: 2944, col: 13, offset: 93134},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 20, offset: 93085},
+																									pos:        position{line: 2944, col: 20, offset: 93141},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 29, offset: 93094},
+																									pos:        position{line: 2944, col: 29, offset: 93150},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34735,9 +34735,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93254},
+																						pos: position{line: 2954, col: 8, offset: 93310},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93255,
+																							line: 2954, col: 9, offset: 93311,
 																						},
 																					},
 																				},
@@ -34784,10 +34784,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 803, col: 8, offset: 26037},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92906},
+																		pos: position{line: 2935, col: 10, offset: 92962},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92906},
+																			pos:        position{line: 2935, col: 10, offset: 92962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34796,28 +34796,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93304},
+																	pos: position{line: 2957, col: 8, offset: 93360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93077},
+																			pos: position{line: 2944, col: 12, offset: 93133},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93078},
+																				pos: position{line: 2944, col: 13, offset: 93134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93078},
+																						pos:        position{line: 2944, col: 13, offset: 93134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93085},
+																						pos:        position{line: 2944, col: 20, offset: 93141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93094},
+																						pos:        position{line: 2944, col: 29, offset: 93150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34826,9 +34826,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93254},
+																			pos: position{line: 2954, col: 8, offset: 93310},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93255,
+																				line: 2954, col: 9, offset: 93311,
 																			},
 																		},
 																	},
@@ -34876,10 +34876,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 803, col: 8, offset: 26037},
 																								expr: &actionExpr{
-																									pos: position{line: 2934, col: 10, offset: 92906},
+																									pos: position{line: 2935, col: 10, offset: 92962},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2934, col: 10, offset: 92906},
+																										pos:        position{line: 2935, col: 10, offset: 92962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34888,28 +34888,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2956, col: 8, offset: 93304},
+																								pos: position{line: 2957, col: 8, offset: 93360},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2943, col: 12, offset: 93077},
+																										pos: position{line: 2944, col: 12, offset: 93133},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2943, col: 13, offset: 93078},
+																											pos: position{line: 2944, col: 13, offset: 93134},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 13, offset: 93078},
+																													pos:        position{line: 2944, col: 13, offset: 93134},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 20, offset: 93085},
+																													pos:        position{line: 2944, col: 20, offset: 93141},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2943, col: 29, offset: 93094},
+																													pos:        position{line: 2944, col: 29, offset: 93150},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34918,9 +34918,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2953, col: 8, offset: 93254},
+																										pos: position{line: 2954, col: 8, offset: 93310},
 																										expr: &anyMatcher{
-																											line: 2953, col: 9, offset: 93255,
+																											line: 2954, col: 9, offset: 93311,
 																										},
 																									},
 																								},
@@ -34929,9 +34929,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -34947,21 +34947,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2951, col: 11, offset: 93240},
+																						pos: position{line: 2952, col: 11, offset: 93296},
 																						expr: &anyMatcher{
-																							line: 2951, col: 13, offset: 93242,
+																							line: 2952, col: 13, offset: 93298,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 13, offset: 91432},
+																							pos: position{line: 2881, col: 13, offset: 91488},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2880, col: 13, offset: 91432},
+																								pos: position{line: 2881, col: 13, offset: 91488},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 13, offset: 91432},
+																									pos:        position{line: 2881, col: 13, offset: 91488},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34971,28 +34971,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93304},
+																						pos: position{line: 2957, col: 8, offset: 93360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93077},
+																								pos: position{line: 2944, col: 12, offset: 93133},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93078},
+																									pos: position{line: 2944, col: 13, offset: 93134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93078},
+																											pos:        position{line: 2944, col: 13, offset: 93134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93085},
+																											pos:        position{line: 2944, col: 20, offset: 93141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93094},
+																											pos:        position{line: 2944, col: 29, offset: 93150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35001,9 +35001,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93254},
+																								pos: position{line: 2954, col: 8, offset: 93310},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93255,
+																									line: 2954, col: 9, offset: 93311,
 																								},
 																							},
 																						},
@@ -35048,10 +35048,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 803, col: 8, offset: 26037},
 																				expr: &actionExpr{
-																					pos: position{line: 2934, col: 10, offset: 92906},
+																					pos: position{line: 2935, col: 10, offset: 92962},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2934, col: 10, offset: 92906},
+																						pos:        position{line: 2935, col: 10, offset: 92962},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35060,28 +35060,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2956, col: 8, offset: 93304},
+																				pos: position{line: 2957, col: 8, offset: 93360},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2943, col: 12, offset: 93077},
+																						pos: position{line: 2944, col: 12, offset: 93133},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2943, col: 13, offset: 93078},
+																							pos: position{line: 2944, col: 13, offset: 93134},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 13, offset: 93078},
+																									pos:        position{line: 2944, col: 13, offset: 93134},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 20, offset: 93085},
+																									pos:        position{line: 2944, col: 20, offset: 93141},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 29, offset: 93094},
+																									pos:        position{line: 2944, col: 29, offset: 93150},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35090,9 +35090,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93254},
+																						pos: position{line: 2954, col: 8, offset: 93310},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93255,
+																							line: 2954, col: 9, offset: 93311,
 																						},
 																					},
 																				},
@@ -35101,9 +35101,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2953, col: 8, offset: 93254},
+																	pos: position{line: 2954, col: 8, offset: 93310},
 																	expr: &anyMatcher{
-																		line: 2953, col: 9, offset: 93255,
+																		line: 2954, col: 9, offset: 93311,
 																	},
 																},
 															},
@@ -35159,10 +35159,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 817, col: 8, offset: 26534},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92906},
+																		pos: position{line: 2935, col: 10, offset: 92962},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92906},
+																			pos:        position{line: 2935, col: 10, offset: 92962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35171,28 +35171,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93304},
+																	pos: position{line: 2957, col: 8, offset: 93360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93077},
+																			pos: position{line: 2944, col: 12, offset: 93133},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93078},
+																				pos: position{line: 2944, col: 13, offset: 93134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93078},
+																						pos:        position{line: 2944, col: 13, offset: 93134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93085},
+																						pos:        position{line: 2944, col: 20, offset: 93141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93094},
+																						pos:        position{line: 2944, col: 29, offset: 93150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35201,9 +35201,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93254},
+																			pos: position{line: 2954, col: 8, offset: 93310},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93255,
+																				line: 2954, col: 9, offset: 93311,
 																			},
 																		},
 																	},
@@ -35275,10 +35275,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 817, col: 8, offset: 26534},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92906},
+																												pos: position{line: 2935, col: 10, offset: 92962},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92906},
+																													pos:        position{line: 2935, col: 10, offset: 92962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35287,28 +35287,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93304},
+																											pos: position{line: 2957, col: 8, offset: 93360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93077},
+																													pos: position{line: 2944, col: 12, offset: 93133},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93078},
+																														pos: position{line: 2944, col: 13, offset: 93134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93078},
+																																pos:        position{line: 2944, col: 13, offset: 93134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93085},
+																																pos:        position{line: 2944, col: 20, offset: 93141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93094},
+																																pos:        position{line: 2944, col: 29, offset: 93150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35317,9 +35317,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93254},
+																													pos: position{line: 2954, col: 8, offset: 93310},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93255,
+																														line: 2954, col: 9, offset: 93311,
 																													},
 																												},
 																											},
@@ -35335,9 +35335,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -35353,21 +35353,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2951, col: 11, offset: 93240},
+																						pos: position{line: 2952, col: 11, offset: 93296},
 																						expr: &anyMatcher{
-																							line: 2951, col: 13, offset: 93242,
+																							line: 2952, col: 13, offset: 93298,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 13, offset: 91432},
+																							pos: position{line: 2881, col: 13, offset: 91488},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2880, col: 13, offset: 91432},
+																								pos: position{line: 2881, col: 13, offset: 91488},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 13, offset: 91432},
+																									pos:        position{line: 2881, col: 13, offset: 91488},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35377,28 +35377,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93304},
+																						pos: position{line: 2957, col: 8, offset: 93360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93077},
+																								pos: position{line: 2944, col: 12, offset: 93133},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93078},
+																									pos: position{line: 2944, col: 13, offset: 93134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93078},
+																											pos:        position{line: 2944, col: 13, offset: 93134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93085},
+																											pos:        position{line: 2944, col: 20, offset: 93141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93094},
+																											pos:        position{line: 2944, col: 29, offset: 93150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35407,9 +35407,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93254},
+																								pos: position{line: 2954, col: 8, offset: 93310},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93255,
+																									line: 2954, col: 9, offset: 93311,
 																								},
 																							},
 																						},
@@ -35474,10 +35474,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 817, col: 8, offset: 26534},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92906},
+																								pos: position{line: 2935, col: 10, offset: 92962},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92906},
+																									pos:        position{line: 2935, col: 10, offset: 92962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35486,28 +35486,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35516,9 +35516,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -35534,9 +35534,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2953, col: 8, offset: 93254},
+																	pos: position{line: 2954, col: 8, offset: 93310},
 																	expr: &anyMatcher{
-																		line: 2953, col: 9, offset: 93255,
+																		line: 2954, col: 9, offset: 93311,
 																	},
 																},
 															},
@@ -35592,10 +35592,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 824, col: 8, offset: 26784},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92906},
+																		pos: position{line: 2935, col: 10, offset: 92962},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92906},
+																			pos:        position{line: 2935, col: 10, offset: 92962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35604,28 +35604,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93304},
+																	pos: position{line: 2957, col: 8, offset: 93360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93077},
+																			pos: position{line: 2944, col: 12, offset: 93133},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93078},
+																				pos: position{line: 2944, col: 13, offset: 93134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93078},
+																						pos:        position{line: 2944, col: 13, offset: 93134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93085},
+																						pos:        position{line: 2944, col: 20, offset: 93141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93094},
+																						pos:        position{line: 2944, col: 29, offset: 93150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35634,9 +35634,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93254},
+																			pos: position{line: 2954, col: 8, offset: 93310},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93255,
+																				line: 2954, col: 9, offset: 93311,
 																			},
 																		},
 																	},
@@ -35708,10 +35708,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 824, col: 8, offset: 26784},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92906},
+																												pos: position{line: 2935, col: 10, offset: 92962},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92906},
+																													pos:        position{line: 2935, col: 10, offset: 92962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35720,28 +35720,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93304},
+																											pos: position{line: 2957, col: 8, offset: 93360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93077},
+																													pos: position{line: 2944, col: 12, offset: 93133},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93078},
+																														pos: position{line: 2944, col: 13, offset: 93134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93078},
+																																pos:        position{line: 2944, col: 13, offset: 93134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93085},
+																																pos:        position{line: 2944, col: 20, offset: 93141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93094},
+																																pos:        position{line: 2944, col: 29, offset: 93150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35750,9 +35750,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93254},
+																													pos: position{line: 2954, col: 8, offset: 93310},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93255,
+																														line: 2954, col: 9, offset: 93311,
 																													},
 																												},
 																											},
@@ -35768,9 +35768,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -35786,21 +35786,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2951, col: 11, offset: 93240},
+																						pos: position{line: 2952, col: 11, offset: 93296},
 																						expr: &anyMatcher{
-																							line: 2951, col: 13, offset: 93242,
+																							line: 2952, col: 13, offset: 93298,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 13, offset: 91432},
+																							pos: position{line: 2881, col: 13, offset: 91488},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2880, col: 13, offset: 91432},
+																								pos: position{line: 2881, col: 13, offset: 91488},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 13, offset: 91432},
+																									pos:        position{line: 2881, col: 13, offset: 91488},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35810,28 +35810,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93304},
+																						pos: position{line: 2957, col: 8, offset: 93360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93077},
+																								pos: position{line: 2944, col: 12, offset: 93133},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93078},
+																									pos: position{line: 2944, col: 13, offset: 93134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93078},
+																											pos:        position{line: 2944, col: 13, offset: 93134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93085},
+																											pos:        position{line: 2944, col: 20, offset: 93141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93094},
+																											pos:        position{line: 2944, col: 29, offset: 93150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35840,9 +35840,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93254},
+																								pos: position{line: 2954, col: 8, offset: 93310},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93255,
+																									line: 2954, col: 9, offset: 93311,
 																								},
 																							},
 																						},
@@ -35907,10 +35907,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 824, col: 8, offset: 26784},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92906},
+																								pos: position{line: 2935, col: 10, offset: 92962},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92906},
+																									pos:        position{line: 2935, col: 10, offset: 92962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35919,28 +35919,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35949,9 +35949,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -35967,9 +35967,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2953, col: 8, offset: 93254},
+																	pos: position{line: 2954, col: 8, offset: 93310},
 																	expr: &anyMatcher{
-																		line: 2953, col: 9, offset: 93255,
+																		line: 2954, col: 9, offset: 93311,
 																	},
 																},
 															},
@@ -36025,10 +36025,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 831, col: 8, offset: 27030},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92906},
+																		pos: position{line: 2935, col: 10, offset: 92962},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92906},
+																			pos:        position{line: 2935, col: 10, offset: 92962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36037,28 +36037,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93304},
+																	pos: position{line: 2957, col: 8, offset: 93360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93077},
+																			pos: position{line: 2944, col: 12, offset: 93133},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93078},
+																				pos: position{line: 2944, col: 13, offset: 93134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93078},
+																						pos:        position{line: 2944, col: 13, offset: 93134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93085},
+																						pos:        position{line: 2944, col: 20, offset: 93141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93094},
+																						pos:        position{line: 2944, col: 29, offset: 93150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36067,9 +36067,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93254},
+																			pos: position{line: 2954, col: 8, offset: 93310},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93255,
+																				line: 2954, col: 9, offset: 93311,
 																			},
 																		},
 																	},
@@ -36141,10 +36141,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 831, col: 8, offset: 27030},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92906},
+																												pos: position{line: 2935, col: 10, offset: 92962},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92906},
+																													pos:        position{line: 2935, col: 10, offset: 92962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36153,28 +36153,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93304},
+																											pos: position{line: 2957, col: 8, offset: 93360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93077},
+																													pos: position{line: 2944, col: 12, offset: 93133},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93078},
+																														pos: position{line: 2944, col: 13, offset: 93134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93078},
+																																pos:        position{line: 2944, col: 13, offset: 93134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93085},
+																																pos:        position{line: 2944, col: 20, offset: 93141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93094},
+																																pos:        position{line: 2944, col: 29, offset: 93150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36183,9 +36183,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93254},
+																													pos: position{line: 2954, col: 8, offset: 93310},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93255,
+																														line: 2954, col: 9, offset: 93311,
 																													},
 																												},
 																											},
@@ -36201,9 +36201,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -36219,21 +36219,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2951, col: 11, offset: 93240},
+																						pos: position{line: 2952, col: 11, offset: 93296},
 																						expr: &anyMatcher{
-																							line: 2951, col: 13, offset: 93242,
+																							line: 2952, col: 13, offset: 93298,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 13, offset: 91432},
+																							pos: position{line: 2881, col: 13, offset: 91488},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2880, col: 13, offset: 91432},
+																								pos: position{line: 2881, col: 13, offset: 91488},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 13, offset: 91432},
+																									pos:        position{line: 2881, col: 13, offset: 91488},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36243,28 +36243,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93304},
+																						pos: position{line: 2957, col: 8, offset: 93360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93077},
+																								pos: position{line: 2944, col: 12, offset: 93133},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93078},
+																									pos: position{line: 2944, col: 13, offset: 93134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93078},
+																											pos:        position{line: 2944, col: 13, offset: 93134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93085},
+																											pos:        position{line: 2944, col: 20, offset: 93141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93094},
+																											pos:        position{line: 2944, col: 29, offset: 93150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36273,9 +36273,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93254},
+																								pos: position{line: 2954, col: 8, offset: 93310},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93255,
+																									line: 2954, col: 9, offset: 93311,
 																								},
 																							},
 																						},
@@ -36340,10 +36340,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 831, col: 8, offset: 27030},
 																							expr: &actionExpr{
-																								pos: position{line: 2934, col: 10, offset: 92906},
+																								pos: position{line: 2935, col: 10, offset: 92962},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2934, col: 10, offset: 92906},
+																									pos:        position{line: 2935, col: 10, offset: 92962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36352,28 +36352,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2956, col: 8, offset: 93304},
+																							pos: position{line: 2957, col: 8, offset: 93360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2943, col: 12, offset: 93077},
+																									pos: position{line: 2944, col: 12, offset: 93133},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2943, col: 13, offset: 93078},
+																										pos: position{line: 2944, col: 13, offset: 93134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 13, offset: 93078},
+																												pos:        position{line: 2944, col: 13, offset: 93134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 20, offset: 93085},
+																												pos:        position{line: 2944, col: 20, offset: 93141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2943, col: 29, offset: 93094},
+																												pos:        position{line: 2944, col: 29, offset: 93150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36382,9 +36382,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2953, col: 8, offset: 93254},
+																									pos: position{line: 2954, col: 8, offset: 93310},
 																									expr: &anyMatcher{
-																										line: 2953, col: 9, offset: 93255,
+																										line: 2954, col: 9, offset: 93311,
 																									},
 																								},
 																							},
@@ -36400,9 +36400,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2953, col: 8, offset: 93254},
+																	pos: position{line: 2954, col: 8, offset: 93310},
 																	expr: &anyMatcher{
-																		line: 2953, col: 9, offset: 93255,
+																		line: 2954, col: 9, offset: 93311,
 																	},
 																},
 															},
@@ -36413,52 +36413,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2779, col: 18, offset: 88496},
+										pos: position{line: 2780, col: 18, offset: 88552},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2779, col: 18, offset: 88496},
+											pos: position{line: 2780, col: 18, offset: 88552},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2780, col: 9, offset: 88506},
+													pos: position{line: 2781, col: 9, offset: 88562},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2780, col: 9, offset: 88506},
+															pos:        position{line: 2781, col: 9, offset: 88562},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2781, col: 11, offset: 88542},
+															pos:        position{line: 2782, col: 11, offset: 88598},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2781, col: 19, offset: 88550},
+															pos:        position{line: 2782, col: 19, offset: 88606},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2781, col: 29, offset: 88560},
+															pos:        position{line: 2782, col: 29, offset: 88616},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2781, col: 37, offset: 88568},
+															pos:        position{line: 2782, col: 37, offset: 88624},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2781, col: 47, offset: 88578},
+															pos:        position{line: 2782, col: 47, offset: 88634},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2781, col: 55, offset: 88586},
+															pos:        position{line: 2782, col: 55, offset: 88642},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -36466,12 +36466,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2782, col: 11, offset: 88644},
+													pos: position{line: 2783, col: 11, offset: 88700},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92906},
+														pos: position{line: 2935, col: 10, offset: 92962},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92906},
+															pos:        position{line: 2935, col: 10, offset: 92962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36480,28 +36480,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2956, col: 8, offset: 93304},
+													pos: position{line: 2957, col: 8, offset: 93360},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93077},
+															pos: position{line: 2944, col: 12, offset: 93133},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93078},
+																pos: position{line: 2944, col: 13, offset: 93134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93078},
+																		pos:        position{line: 2944, col: 13, offset: 93134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93085},
+																		pos:        position{line: 2944, col: 20, offset: 93141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93094},
+																		pos:        position{line: 2944, col: 29, offset: 93150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36510,36 +36510,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93254},
+															pos: position{line: 2954, col: 8, offset: 93310},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93255,
+																line: 2954, col: 9, offset: 93311,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2956, col: 8, offset: 93304},
+													pos: position{line: 2957, col: 8, offset: 93360},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93077},
+															pos: position{line: 2944, col: 12, offset: 93133},
 															run: (*parser).callonListContinuationElement1319,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93078},
+																pos: position{line: 2944, col: 13, offset: 93134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93078},
+																		pos:        position{line: 2944, col: 13, offset: 93134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93085},
+																		pos:        position{line: 2944, col: 20, offset: 93141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93094},
+																		pos:        position{line: 2944, col: 29, offset: 93150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36548,9 +36548,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93254},
+															pos: position{line: 2954, col: 8, offset: 93310},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93255,
+																line: 2954, col: 9, offset: 93311,
 															},
 														},
 													},
@@ -36563,24 +36563,24 @@ var g = &grammar{
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2663, col: 5, offset: 85253},
+										pos: position{line: 2664, col: 5, offset: 85309},
 										run: (*parser).callonListContinuationElement1327,
 										expr: &seqExpr{
-											pos: position{line: 2663, col: 5, offset: 85253},
+											pos: position{line: 2664, col: 5, offset: 85309},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2669, col: 19, offset: 85430},
+													pos:        position{line: 2670, col: 19, offset: 85486},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2669, col: 26, offset: 85437},
+													pos: position{line: 2670, col: 26, offset: 85493},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92906},
+														pos: position{line: 2935, col: 10, offset: 92962},
 														run: (*parser).callonListContinuationElement1331,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92906},
+															pos:        position{line: 2935, col: 10, offset: 92962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36589,28 +36589,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2956, col: 8, offset: 93304},
+													pos: position{line: 2957, col: 8, offset: 93360},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93077},
+															pos: position{line: 2944, col: 12, offset: 93133},
 															run: (*parser).callonListContinuationElement1334,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93078},
+																pos: position{line: 2944, col: 13, offset: 93134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93078},
+																		pos:        position{line: 2944, col: 13, offset: 93134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93085},
+																		pos:        position{line: 2944, col: 20, offset: 93141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93094},
+																		pos:        position{line: 2944, col: 29, offset: 93150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36619,20 +36619,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93254},
+															pos: position{line: 2954, col: 8, offset: 93310},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93255,
+																line: 2954, col: 9, offset: 93311,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2664, col: 5, offset: 85277},
+													pos:   position{line: 2665, col: 5, offset: 85333},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2664, col: 11, offset: 85283},
+														pos: position{line: 2665, col: 11, offset: 85339},
 														expr: &choiceExpr{
-															pos: position{line: 2664, col: 12, offset: 85284},
+															pos: position{line: 2665, col: 12, offset: 85340},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 702, col: 14, offset: 22577},
@@ -36641,18 +36641,18 @@ var g = &grammar{
 																		pos: position{line: 702, col: 14, offset: 22577},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2951, col: 11, offset: 93240},
+																				pos: position{line: 2952, col: 11, offset: 93296},
 																				expr: &anyMatcher{
-																					line: 2951, col: 13, offset: 93242,
+																					line: 2952, col: 13, offset: 93298,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 702, col: 21, offset: 22584},
 																				expr: &actionExpr{
-																					pos: position{line: 2934, col: 10, offset: 92906},
+																					pos: position{line: 2935, col: 10, offset: 92962},
 																					run: (*parser).callonListContinuationElement1349,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2934, col: 10, offset: 92906},
+																						pos:        position{line: 2935, col: 10, offset: 92962},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36661,28 +36661,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2956, col: 8, offset: 93304},
+																				pos: position{line: 2957, col: 8, offset: 93360},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2943, col: 12, offset: 93077},
+																						pos: position{line: 2944, col: 12, offset: 93133},
 																						run: (*parser).callonListContinuationElement1352,
 																						expr: &choiceExpr{
-																							pos: position{line: 2943, col: 13, offset: 93078},
+																							pos: position{line: 2944, col: 13, offset: 93134},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 13, offset: 93078},
+																									pos:        position{line: 2944, col: 13, offset: 93134},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 20, offset: 93085},
+																									pos:        position{line: 2944, col: 20, offset: 93141},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 29, offset: 93094},
+																									pos:        position{line: 2944, col: 29, offset: 93150},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36691,9 +36691,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93254},
+																						pos: position{line: 2954, col: 8, offset: 93310},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93255,
+																							line: 2954, col: 9, offset: 93311,
 																						},
 																					},
 																				},
@@ -36702,36 +36702,36 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2537, col: 22, offset: 81684},
+																	pos: position{line: 2538, col: 22, offset: 81740},
 																	run: (*parser).callonListContinuationElement1359,
 																	expr: &seqExpr{
-																		pos: position{line: 2537, col: 22, offset: 81684},
+																		pos: position{line: 2538, col: 22, offset: 81740},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2542, col: 31, offset: 81934},
+																				pos:        position{line: 2543, col: 31, offset: 81990},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2542, col: 36, offset: 81939},
+																				pos: position{line: 2543, col: 36, offset: 81995},
 																				expr: &litMatcher{
-																					pos:        position{line: 2542, col: 37, offset: 81940},
+																					pos:        position{line: 2543, col: 37, offset: 81996},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2537, col: 49, offset: 81711},
+																				pos:   position{line: 2538, col: 49, offset: 81767},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2880, col: 13, offset: 91432},
+																					pos: position{line: 2881, col: 13, offset: 91488},
 																					run: (*parser).callonListContinuationElement1365,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2880, col: 13, offset: 91432},
+																						pos: position{line: 2881, col: 13, offset: 91488},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2880, col: 13, offset: 91432},
+																							pos:        position{line: 2881, col: 13, offset: 91488},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -36741,28 +36741,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2956, col: 8, offset: 93304},
+																				pos: position{line: 2957, col: 8, offset: 93360},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2943, col: 12, offset: 93077},
+																						pos: position{line: 2944, col: 12, offset: 93133},
 																						run: (*parser).callonListContinuationElement1369,
 																						expr: &choiceExpr{
-																							pos: position{line: 2943, col: 13, offset: 93078},
+																							pos: position{line: 2944, col: 13, offset: 93134},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 13, offset: 93078},
+																									pos:        position{line: 2944, col: 13, offset: 93134},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 20, offset: 93085},
+																									pos:        position{line: 2944, col: 20, offset: 93141},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2943, col: 29, offset: 93094},
+																									pos:        position{line: 2944, col: 29, offset: 93150},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36771,9 +36771,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2953, col: 8, offset: 93254},
+																						pos: position{line: 2954, col: 8, offset: 93310},
 																						expr: &anyMatcher{
-																							line: 2953, col: 9, offset: 93255,
+																							line: 2954, col: 9, offset: 93311,
 																						},
 																					},
 																				},
@@ -36782,32 +36782,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2676, col: 5, offset: 85549},
+																	pos: position{line: 2677, col: 5, offset: 85605},
 																	run: (*parser).callonListContinuationElement1376,
 																	expr: &seqExpr{
-																		pos: position{line: 2676, col: 5, offset: 85549},
+																		pos: position{line: 2677, col: 5, offset: 85605},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2676, col: 5, offset: 85549},
+																				pos: position{line: 2677, col: 5, offset: 85605},
 																				expr: &choiceExpr{
-																					pos: position{line: 2673, col: 22, offset: 85510},
+																					pos: position{line: 2674, col: 22, offset: 85566},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2669, col: 19, offset: 85430},
+																							pos: position{line: 2670, col: 19, offset: 85486},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2669, col: 19, offset: 85430},
+																									pos:        position{line: 2670, col: 19, offset: 85486},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2669, col: 26, offset: 85437},
+																									pos: position{line: 2670, col: 26, offset: 85493},
 																									expr: &actionExpr{
-																										pos: position{line: 2934, col: 10, offset: 92906},
+																										pos: position{line: 2935, col: 10, offset: 92962},
 																										run: (*parser).callonListContinuationElement1383,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2934, col: 10, offset: 92906},
+																											pos:        position{line: 2935, col: 10, offset: 92962},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36816,28 +36816,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2956, col: 8, offset: 93304},
+																									pos: position{line: 2957, col: 8, offset: 93360},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2943, col: 12, offset: 93077},
+																											pos: position{line: 2944, col: 12, offset: 93133},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &choiceExpr{
-																												pos: position{line: 2943, col: 13, offset: 93078},
+																												pos: position{line: 2944, col: 13, offset: 93134},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 13, offset: 93078},
+																														pos:        position{line: 2944, col: 13, offset: 93134},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 20, offset: 93085},
+																														pos:        position{line: 2944, col: 20, offset: 93141},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2943, col: 29, offset: 93094},
+																														pos:        position{line: 2944, col: 29, offset: 93150},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36846,9 +36846,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2953, col: 8, offset: 93254},
+																											pos: position{line: 2954, col: 8, offset: 93310},
 																											expr: &anyMatcher{
-																												line: 2953, col: 9, offset: 93255,
+																												line: 2954, col: 9, offset: 93311,
 																											},
 																										},
 																									},
@@ -36856,59 +36856,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93254},
+																							pos: position{line: 2954, col: 8, offset: 93310},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93255,
+																								line: 2954, col: 9, offset: 93311,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2677, col: 5, offset: 85572},
+																				pos:   position{line: 2678, col: 5, offset: 85628},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2678, col: 9, offset: 85590},
+																					pos: position{line: 2679, col: 9, offset: 85646},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2678, col: 10, offset: 85591},
+																							pos: position{line: 2679, col: 10, offset: 85647},
 																							run: (*parser).callonListContinuationElement1397,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2678, col: 10, offset: 85591},
+																								pos:   position{line: 2679, col: 10, offset: 85647},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2678, col: 17, offset: 85598},
+																									pos: position{line: 2679, col: 17, offset: 85654},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2686, col: 21, offset: 85794},
+																											pos: position{line: 2687, col: 21, offset: 85850},
 																											run: (*parser).callonListContinuationElement1400,
 																											expr: &seqExpr{
-																												pos: position{line: 2686, col: 21, offset: 85794},
+																												pos: position{line: 2687, col: 21, offset: 85850},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2686, col: 21, offset: 85794},
+																														pos:   position{line: 2687, col: 21, offset: 85850},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2686, col: 27, offset: 85800},
+																															pos: position{line: 2687, col: 27, offset: 85856},
 																															expr: &actionExpr{
-																																pos: position{line: 2691, col: 5, offset: 85875},
+																																pos: position{line: 2692, col: 5, offset: 85931},
 																																run: (*parser).callonListContinuationElement1404,
 																																expr: &seqExpr{
-																																	pos: position{line: 2691, col: 5, offset: 85875},
+																																	pos: position{line: 2692, col: 5, offset: 85931},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2691, col: 5, offset: 85875},
+																																			pos:        position{line: 2692, col: 5, offset: 85931},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2691, col: 9, offset: 85879},
+																																			pos: position{line: 2692, col: 9, offset: 85935},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2934, col: 10, offset: 92906},
+																																				pos: position{line: 2935, col: 10, offset: 92962},
 																																				run: (*parser).callonListContinuationElement1408,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2934, col: 10, offset: 92906},
+																																					pos:        position{line: 2935, col: 10, offset: 92962},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36917,21 +36917,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2691, col: 16, offset: 85886},
+																																			pos:   position{line: 2692, col: 16, offset: 85942},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2697, col: 5, offset: 86086},
+																																				pos: position{line: 2698, col: 5, offset: 86142},
 																																				run: (*parser).callonListContinuationElement1411,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2697, col: 5, offset: 86086},
+																																					pos:   position{line: 2698, col: 5, offset: 86142},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2697, col: 14, offset: 86095},
+																																						pos: position{line: 2698, col: 14, offset: 86151},
 																																						run: (*parser).callonListContinuationElement1413,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2697, col: 14, offset: 86095},
+																																							pos: position{line: 2698, col: 14, offset: 86151},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2697, col: 14, offset: 86095},
+																																								pos:        position{line: 2698, col: 14, offset: 86151},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36948,28 +36948,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2956, col: 8, offset: 93304},
+																														pos: position{line: 2957, col: 8, offset: 93360},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2943, col: 12, offset: 93077},
+																																pos: position{line: 2944, col: 12, offset: 93133},
 																																run: (*parser).callonListContinuationElement1417,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2943, col: 13, offset: 93078},
+																																	pos: position{line: 2944, col: 13, offset: 93134},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2943, col: 13, offset: 93078},
+																																			pos:        position{line: 2944, col: 13, offset: 93134},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2943, col: 20, offset: 93085},
+																																			pos:        position{line: 2944, col: 20, offset: 93141},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2943, col: 29, offset: 93094},
+																																			pos:        position{line: 2944, col: 29, offset: 93150},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36978,9 +36978,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2953, col: 8, offset: 93254},
+																																pos: position{line: 2954, col: 8, offset: 93310},
 																																expr: &anyMatcher{
-																																	line: 2953, col: 9, offset: 93255,
+																																	line: 2954, col: 9, offset: 93311,
 																																},
 																															},
 																														},
@@ -36989,40 +36989,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2703, col: 24, offset: 86231},
+																											pos: position{line: 2704, col: 24, offset: 86287},
 																											run: (*parser).callonListContinuationElement1424,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2703, col: 24, offset: 86231},
+																												pos:   position{line: 2704, col: 24, offset: 86287},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2703, col: 30, offset: 86237},
+																													pos: position{line: 2704, col: 30, offset: 86293},
 																													expr: &actionExpr{
-																														pos: position{line: 2708, col: 5, offset: 86313},
+																														pos: position{line: 2709, col: 5, offset: 86369},
 																														run: (*parser).callonListContinuationElement1427,
 																														expr: &seqExpr{
-																															pos: position{line: 2708, col: 5, offset: 86313},
+																															pos: position{line: 2709, col: 5, offset: 86369},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2708, col: 5, offset: 86313},
+																																	pos: position{line: 2709, col: 5, offset: 86369},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2673, col: 22, offset: 85510},
+																																		pos: position{line: 2674, col: 22, offset: 85566},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2669, col: 19, offset: 85430},
+																																				pos: position{line: 2670, col: 19, offset: 85486},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2669, col: 19, offset: 85430},
+																																						pos:        position{line: 2670, col: 19, offset: 85486},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2669, col: 26, offset: 85437},
+																																						pos: position{line: 2670, col: 26, offset: 85493},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2934, col: 10, offset: 92906},
+																																							pos: position{line: 2935, col: 10, offset: 92962},
 																																							run: (*parser).callonListContinuationElement1434,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2934, col: 10, offset: 92906},
+																																								pos:        position{line: 2935, col: 10, offset: 92962},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -37031,28 +37031,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2956, col: 8, offset: 93304},
+																																						pos: position{line: 2957, col: 8, offset: 93360},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2943, col: 12, offset: 93077},
+																																								pos: position{line: 2944, col: 12, offset: 93133},
 																																								run: (*parser).callonListContinuationElement1437,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2943, col: 13, offset: 93078},
+																																									pos: position{line: 2944, col: 13, offset: 93134},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2943, col: 13, offset: 93078},
+																																											pos:        position{line: 2944, col: 13, offset: 93134},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2943, col: 20, offset: 93085},
+																																											pos:        position{line: 2944, col: 20, offset: 93141},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2943, col: 29, offset: 93094},
+																																											pos:        position{line: 2944, col: 29, offset: 93150},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -37061,9 +37061,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2953, col: 8, offset: 93254},
+																																								pos: position{line: 2954, col: 8, offset: 93310},
 																																								expr: &anyMatcher{
-																																									line: 2953, col: 9, offset: 93255,
+																																									line: 2954, col: 9, offset: 93311,
 																																								},
 																																							},
 																																						},
@@ -37071,16 +37071,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2953, col: 8, offset: 93254},
+																																				pos: position{line: 2954, col: 8, offset: 93310},
 																																				expr: &anyMatcher{
-																																					line: 2953, col: 9, offset: 93255,
+																																					line: 2954, col: 9, offset: 93311,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2709, col: 5, offset: 86336},
+																																	pos: position{line: 2710, col: 5, offset: 86392},
 																																	expr: &actionExpr{
 																																		pos: position{line: 702, col: 14, offset: 22577},
 																																		run: (*parser).callonListContinuationElement1447,
@@ -37088,18 +37088,18 @@ var g = &grammar{
 																																			pos: position{line: 702, col: 14, offset: 22577},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2951, col: 11, offset: 93240},
+																																					pos: position{line: 2952, col: 11, offset: 93296},
 																																					expr: &anyMatcher{
-																																						line: 2951, col: 13, offset: 93242,
+																																						line: 2952, col: 13, offset: 93298,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 702, col: 21, offset: 22584},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2934, col: 10, offset: 92906},
+																																						pos: position{line: 2935, col: 10, offset: 92962},
 																																						run: (*parser).callonListContinuationElement1452,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2934, col: 10, offset: 92906},
+																																							pos:        position{line: 2935, col: 10, offset: 92962},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -37108,28 +37108,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2956, col: 8, offset: 93304},
+																																					pos: position{line: 2957, col: 8, offset: 93360},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2943, col: 12, offset: 93077},
+																																							pos: position{line: 2944, col: 12, offset: 93133},
 																																							run: (*parser).callonListContinuationElement1455,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2943, col: 13, offset: 93078},
+																																								pos: position{line: 2944, col: 13, offset: 93134},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2943, col: 13, offset: 93078},
+																																										pos:        position{line: 2944, col: 13, offset: 93134},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2943, col: 20, offset: 93085},
+																																										pos:        position{line: 2944, col: 20, offset: 93141},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2943, col: 29, offset: 93094},
+																																										pos:        position{line: 2944, col: 29, offset: 93150},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -37138,9 +37138,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2953, col: 8, offset: 93254},
+																																							pos: position{line: 2954, col: 8, offset: 93310},
 																																							expr: &anyMatcher{
-																																								line: 2953, col: 9, offset: 93255,
+																																								line: 2954, col: 9, offset: 93311,
 																																							},
 																																						},
 																																					},
@@ -37150,17 +37150,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2710, col: 5, offset: 86351},
+																																	pos:   position{line: 2711, col: 5, offset: 86407},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2710, col: 12, offset: 86358},
+																																		pos: position{line: 2711, col: 12, offset: 86414},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2734, col: 20, offset: 86981},
+																																			pos: position{line: 2735, col: 20, offset: 87037},
 																																			run: (*parser).callonListContinuationElement1464,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2734, col: 20, offset: 86981},
+																																				pos: position{line: 2735, col: 20, offset: 87037},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2734, col: 20, offset: 86981},
+																																					pos:        position{line: 2735, col: 20, offset: 87037},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -37171,18 +37171,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2710, col: 31, offset: 86377},
+																																	pos:        position{line: 2711, col: 31, offset: 86433},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2710, col: 35, offset: 86381},
+																																	pos: position{line: 2711, col: 35, offset: 86437},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2934, col: 10, offset: 92906},
+																																		pos: position{line: 2935, col: 10, offset: 92962},
 																																		run: (*parser).callonListContinuationElement1469,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2934, col: 10, offset: 92906},
+																																			pos:        position{line: 2935, col: 10, offset: 92962},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -37191,27 +37191,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2710, col: 42, offset: 86388},
+																																	pos: position{line: 2711, col: 42, offset: 86444},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2943, col: 12, offset: 93077},
+																																		pos: position{line: 2944, col: 12, offset: 93133},
 																																		run: (*parser).callonListContinuationElement1472,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2943, col: 13, offset: 93078},
+																																			pos: position{line: 2944, col: 13, offset: 93134},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2943, col: 13, offset: 93078},
+																																					pos:        position{line: 2944, col: 13, offset: 93134},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2943, col: 20, offset: 93085},
+																																					pos:        position{line: 2944, col: 20, offset: 93141},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2943, col: 29, offset: 93094},
+																																					pos:        position{line: 2944, col: 29, offset: 93150},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -37221,57 +37221,57 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2710, col: 51, offset: 86397},
+																																	pos:   position{line: 2711, col: 51, offset: 86453},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2716, col: 5, offset: 86556},
+																																		pos: position{line: 2717, col: 5, offset: 86612},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2717, col: 9, offset: 86566},
+																																			pos: position{line: 2718, col: 9, offset: 86622},
 																																			alternatives: []interface{}{
 																																				&actionExpr{
-																																					pos: position{line: 2717, col: 9, offset: 86566},
+																																					pos: position{line: 2718, col: 9, offset: 86622},
 																																					run: (*parser).callonListContinuationElement1480,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2717, col: 9, offset: 86566},
+																																						pos: position{line: 2718, col: 9, offset: 86622},
 																																						exprs: []interface{}{
 																																							&andCodeExpr{
-																																								pos: position{line: 2717, col: 9, offset: 86566},
+																																								pos: position{line: 2718, col: 9, offset: 86622},
 																																								run: (*parser).callonListContinuationElement1482,
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2720, col: 9, offset: 86635},
+																																								pos:   position{line: 2721, col: 9, offset: 86691},
 																																								label: "comment",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2537, col: 22, offset: 81684},
+																																									pos: position{line: 2538, col: 22, offset: 81740},
 																																									run: (*parser).callonListContinuationElement1484,
 																																									expr: &seqExpr{
-																																										pos: position{line: 2537, col: 22, offset: 81684},
+																																										pos: position{line: 2538, col: 22, offset: 81740},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2542, col: 31, offset: 81934},
+																																												pos:        position{line: 2543, col: 31, offset: 81990},
 																																												val:        "//",
 																																												ignoreCase: false,
 																																												want:       "\"//\"",
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2542, col: 36, offset: 81939},
+																																												pos: position{line: 2543, col: 36, offset: 81995},
 																																												expr: &litMatcher{
-																																													pos:        position{line: 2542, col: 37, offset: 81940},
+																																													pos:        position{line: 2543, col: 37, offset: 81996},
 																																													val:        "/",
 																																													ignoreCase: false,
 																																													want:       "\"/\"",
 																																												},
 																																											},
 																																											&labeledExpr{
-																																												pos:   position{line: 2537, col: 49, offset: 81711},
+																																												pos:   position{line: 2538, col: 49, offset: 81767},
 																																												label: "content",
 																																												expr: &actionExpr{
-																																													pos: position{line: 2880, col: 13, offset: 91432},
+																																													pos: position{line: 2881, col: 13, offset: 91488},
 																																													run: (*parser).callonListContinuationElement1490,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2880, col: 13, offset: 91432},
+																																														pos: position{line: 2881, col: 13, offset: 91488},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2880, col: 13, offset: 91432},
+																																															pos:        position{line: 2881, col: 13, offset: 91488},
 																																															val:        "[^\\r\\n]",
 																																															chars:      []rune{'\r', '\n'},
 																																															ignoreCase: false,
@@ -37281,28 +37281,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2956, col: 8, offset: 93304},
+																																												pos: position{line: 2957, col: 8, offset: 93360},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2943, col: 12, offset: 93077},
+																																														pos: position{line: 2944, col: 12, offset: 93133},
 																																														run: (*parser).callonListContinuationElement1494,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2943, col: 13, offset: 93078},
+																																															pos: position{line: 2944, col: 13, offset: 93134},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2943, col: 13, offset: 93078},
+																																																	pos:        position{line: 2944, col: 13, offset: 93134},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2943, col: 20, offset: 93085},
+																																																	pos:        position{line: 2944, col: 20, offset: 93141},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2943, col: 29, offset: 93094},
+																																																	pos:        position{line: 2944, col: 29, offset: 93150},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -37311,9 +37311,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2953, col: 8, offset: 93254},
+																																														pos: position{line: 2954, col: 8, offset: 93310},
 																																														expr: &anyMatcher{
-																																															line: 2953, col: 9, offset: 93255,
+																																															line: 2954, col: 9, offset: 93311,
 																																														},
 																																													},
 																																												},
@@ -37326,32 +37326,32 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&actionExpr{
-																																					pos: position{line: 2724, col: 9, offset: 86725},
+																																					pos: position{line: 2725, col: 9, offset: 86781},
 																																					run: (*parser).callonListContinuationElement1501,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2724, col: 9, offset: 86725},
+																																						pos: position{line: 2725, col: 9, offset: 86781},
 																																						exprs: []interface{}{
 																																							&notExpr{
-																																								pos: position{line: 2724, col: 9, offset: 86725},
+																																								pos: position{line: 2725, col: 9, offset: 86781},
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2673, col: 22, offset: 85510},
+																																									pos: position{line: 2674, col: 22, offset: 85566},
 																																									alternatives: []interface{}{
 																																										&seqExpr{
-																																											pos: position{line: 2669, col: 19, offset: 85430},
+																																											pos: position{line: 2670, col: 19, offset: 85486},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2669, col: 19, offset: 85430},
+																																													pos:        position{line: 2670, col: 19, offset: 85486},
 																																													val:        "|===",
 																																													ignoreCase: false,
 																																													want:       "\"|===\"",
 																																												},
 																																												&zeroOrMoreExpr{
-																																													pos: position{line: 2669, col: 26, offset: 85437},
+																																													pos: position{line: 2670, col: 26, offset: 85493},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2934, col: 10, offset: 92906},
+																																														pos: position{line: 2935, col: 10, offset: 92962},
 																																														run: (*parser).callonListContinuationElement1508,
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2934, col: 10, offset: 92906},
+																																															pos:        position{line: 2935, col: 10, offset: 92962},
 																																															val:        "[\\t ]",
 																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
@@ -37360,28 +37360,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2956, col: 8, offset: 93304},
+																																													pos: position{line: 2957, col: 8, offset: 93360},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2943, col: 12, offset: 93077},
+																																															pos: position{line: 2944, col: 12, offset: 93133},
 																																															run: (*parser).callonListContinuationElement1511,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2943, col: 13, offset: 93078},
+																																																pos: position{line: 2944, col: 13, offset: 93134},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2943, col: 13, offset: 93078},
+																																																		pos:        position{line: 2944, col: 13, offset: 93134},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2943, col: 20, offset: 93085},
+																																																		pos:        position{line: 2944, col: 20, offset: 93141},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2943, col: 29, offset: 93094},
+																																																		pos:        position{line: 2944, col: 29, offset: 93150},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -37390,9 +37390,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2953, col: 8, offset: 93254},
+																																															pos: position{line: 2954, col: 8, offset: 93310},
 																																															expr: &anyMatcher{
-																																																line: 2953, col: 9, offset: 93255,
+																																																line: 2954, col: 9, offset: 93311,
 																																															},
 																																														},
 																																													},
@@ -37400,16 +37400,16 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2953, col: 8, offset: 93254},
+																																											pos: position{line: 2954, col: 8, offset: 93310},
 																																											expr: &anyMatcher{
-																																												line: 2953, col: 9, offset: 93255,
+																																												line: 2954, col: 9, offset: 93311,
 																																											},
 																																										},
 																																									},
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2725, col: 9, offset: 86752},
+																																								pos: position{line: 2726, col: 9, offset: 86808},
 																																								expr: &actionExpr{
 																																									pos: position{line: 702, col: 14, offset: 22577},
 																																									run: (*parser).callonListContinuationElement1521,
@@ -37417,18 +37417,18 @@ var g = &grammar{
 																																										pos: position{line: 702, col: 14, offset: 22577},
 																																										exprs: []interface{}{
 																																											&andExpr{
-																																												pos: position{line: 2951, col: 11, offset: 93240},
+																																												pos: position{line: 2952, col: 11, offset: 93296},
 																																												expr: &anyMatcher{
-																																													line: 2951, col: 13, offset: 93242,
+																																													line: 2952, col: 13, offset: 93298,
 																																												},
 																																											},
 																																											&zeroOrMoreExpr{
 																																												pos: position{line: 702, col: 21, offset: 22584},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2934, col: 10, offset: 92906},
+																																													pos: position{line: 2935, col: 10, offset: 92962},
 																																													run: (*parser).callonListContinuationElement1526,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2934, col: 10, offset: 92906},
+																																														pos:        position{line: 2935, col: 10, offset: 92962},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -37437,28 +37437,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2956, col: 8, offset: 93304},
+																																												pos: position{line: 2957, col: 8, offset: 93360},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2943, col: 12, offset: 93077},
+																																														pos: position{line: 2944, col: 12, offset: 93133},
 																																														run: (*parser).callonListContinuationElement1529,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2943, col: 13, offset: 93078},
+																																															pos: position{line: 2944, col: 13, offset: 93134},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2943, col: 13, offset: 93078},
+																																																	pos:        position{line: 2944, col: 13, offset: 93134},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2943, col: 20, offset: 93085},
+																																																	pos:        position{line: 2944, col: 20, offset: 93141},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2943, col: 29, offset: 93094},
+																																																	pos:        position{line: 2944, col: 29, offset: 93150},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -37467,9 +37467,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2953, col: 8, offset: 93254},
+																																														pos: position{line: 2954, col: 8, offset: 93310},
 																																														expr: &anyMatcher{
-																																															line: 2953, col: 9, offset: 93255,
+																																															line: 2954, col: 9, offset: 93311,
 																																														},
 																																													},
 																																												},
@@ -37479,22 +37479,22 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2726, col: 9, offset: 86771},
+																																								pos: position{line: 2727, col: 9, offset: 86827},
 																																								expr: &seqExpr{
-																																									pos: position{line: 2726, col: 11, offset: 86773},
+																																									pos: position{line: 2727, col: 11, offset: 86829},
 																																									exprs: []interface{}{
 																																										&labeledExpr{
-																																											pos:   position{line: 2726, col: 11, offset: 86773},
+																																											pos:   position{line: 2727, col: 11, offset: 86829},
 																																											label: "format",
 																																											expr: &zeroOrOneExpr{
-																																												pos: position{line: 2726, col: 18, offset: 86780},
+																																												pos: position{line: 2727, col: 18, offset: 86836},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2734, col: 20, offset: 86981},
+																																													pos: position{line: 2735, col: 20, offset: 87037},
 																																													run: (*parser).callonListContinuationElement1540,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2734, col: 20, offset: 86981},
+																																														pos: position{line: 2735, col: 20, offset: 87037},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2734, col: 20, offset: 86981},
+																																															pos:        position{line: 2735, col: 20, offset: 87037},
 																																															val:        "[^ |\\r\\n]",
 																																															chars:      []rune{' ', '|', '\r', '\n'},
 																																															ignoreCase: false,
@@ -37505,7 +37505,7 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2726, col: 37, offset: 86799},
+																																											pos:        position{line: 2727, col: 37, offset: 86855},
 																																											val:        "|",
 																																											ignoreCase: false,
 																																											want:       "\"|\"",
@@ -37514,15 +37514,15 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2727, col: 9, offset: 86812},
+																																								pos:   position{line: 2728, col: 9, offset: 86868},
 																																								label: "content",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2727, col: 18, offset: 86821},
+																																									pos: position{line: 2728, col: 18, offset: 86877},
 																																									run: (*parser).callonListContinuationElement1545,
 																																									expr: &zeroOrMoreExpr{
-																																										pos: position{line: 2727, col: 18, offset: 86821},
+																																										pos: position{line: 2728, col: 18, offset: 86877},
 																																										expr: &charClassMatcher{
-																																											pos:        position{line: 2727, col: 18, offset: 86821},
+																																											pos:        position{line: 2728, col: 18, offset: 86877},
 																																											val:        "[^|\\r\\n]",
 																																											chars:      []rune{'|', '\r', '\n'},
 																																											ignoreCase: false,
@@ -37532,30 +37532,30 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&zeroOrOneExpr{
-																																								pos: position{line: 2729, col: 12, offset: 86883},
+																																								pos: position{line: 2730, col: 12, offset: 86939},
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2956, col: 8, offset: 93304},
+																																									pos: position{line: 2957, col: 8, offset: 93360},
 																																									alternatives: []interface{}{
 																																										&actionExpr{
-																																											pos: position{line: 2943, col: 12, offset: 93077},
+																																											pos: position{line: 2944, col: 12, offset: 93133},
 																																											run: (*parser).callonListContinuationElement1550,
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2943, col: 13, offset: 93078},
+																																												pos: position{line: 2944, col: 13, offset: 93134},
 																																												alternatives: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2943, col: 13, offset: 93078},
+																																														pos:        position{line: 2944, col: 13, offset: 93134},
 																																														val:        "\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2943, col: 20, offset: 93085},
+																																														pos:        position{line: 2944, col: 20, offset: 93141},
 																																														val:        "\r\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2943, col: 29, offset: 93094},
+																																														pos:        position{line: 2944, col: 29, offset: 93150},
 																																														val:        "\r",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\"",
@@ -37564,9 +37564,9 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2953, col: 8, offset: 93254},
+																																											pos: position{line: 2954, col: 8, offset: 93310},
 																																											expr: &anyMatcher{
-																																												line: 2953, col: 9, offset: 93255,
+																																												line: 2954, col: 9, offset: 93311,
 																																											},
 																																										},
 																																									},
@@ -37596,18 +37596,18 @@ var g = &grammar{
 																								pos: position{line: 702, col: 14, offset: 22577},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2951, col: 11, offset: 93240},
+																										pos: position{line: 2952, col: 11, offset: 93296},
 																										expr: &anyMatcher{
-																											line: 2951, col: 13, offset: 93242,
+																											line: 2952, col: 13, offset: 93298,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 702, col: 21, offset: 22584},
 																										expr: &actionExpr{
-																											pos: position{line: 2934, col: 10, offset: 92906},
+																											pos: position{line: 2935, col: 10, offset: 92962},
 																											run: (*parser).callonListContinuationElement1562,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2934, col: 10, offset: 92906},
+																												pos:        position{line: 2935, col: 10, offset: 92962},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -37616,28 +37616,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2956, col: 8, offset: 93304},
+																										pos: position{line: 2957, col: 8, offset: 93360},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2943, col: 12, offset: 93077},
+																												pos: position{line: 2944, col: 12, offset: 93133},
 																												run: (*parser).callonListContinuationElement1565,
 																												expr: &choiceExpr{
-																													pos: position{line: 2943, col: 13, offset: 93078},
+																													pos: position{line: 2944, col: 13, offset: 93134},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2943, col: 13, offset: 93078},
+																															pos:        position{line: 2944, col: 13, offset: 93134},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2943, col: 20, offset: 93085},
+																															pos:        position{line: 2944, col: 20, offset: 93141},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2943, col: 29, offset: 93094},
+																															pos:        position{line: 2944, col: 29, offset: 93150},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -37646,9 +37646,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2953, col: 8, offset: 93254},
+																												pos: position{line: 2954, col: 8, offset: 93310},
 																												expr: &anyMatcher{
-																													line: 2953, col: 9, offset: 93255,
+																													line: 2954, col: 9, offset: 93311,
 																												},
 																											},
 																										},
@@ -37667,24 +37667,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2673, col: 22, offset: 85510},
+													pos: position{line: 2674, col: 22, offset: 85566},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2669, col: 19, offset: 85430},
+															pos: position{line: 2670, col: 19, offset: 85486},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2669, col: 19, offset: 85430},
+																	pos:        position{line: 2670, col: 19, offset: 85486},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2669, col: 26, offset: 85437},
+																	pos: position{line: 2670, col: 26, offset: 85493},
 																	expr: &actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92906},
+																		pos: position{line: 2935, col: 10, offset: 92962},
 																		run: (*parser).callonListContinuationElement1576,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92906},
+																			pos:        position{line: 2935, col: 10, offset: 92962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37693,28 +37693,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93304},
+																	pos: position{line: 2957, col: 8, offset: 93360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93077},
+																			pos: position{line: 2944, col: 12, offset: 93133},
 																			run: (*parser).callonListContinuationElement1579,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93078},
+																				pos: position{line: 2944, col: 13, offset: 93134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93078},
+																						pos:        position{line: 2944, col: 13, offset: 93134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93085},
+																						pos:        position{line: 2944, col: 20, offset: 93141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93094},
+																						pos:        position{line: 2944, col: 29, offset: 93150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37723,9 +37723,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93254},
+																			pos: position{line: 2954, col: 8, offset: 93310},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93255,
+																				line: 2954, col: 9, offset: 93311,
 																			},
 																		},
 																	},
@@ -37733,9 +37733,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93254},
+															pos: position{line: 2954, col: 8, offset: 93310},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93255,
+																line: 2954, col: 9, offset: 93311,
 															},
 														},
 													},
@@ -37744,36 +37744,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2537, col: 22, offset: 81684},
+										pos: position{line: 2538, col: 22, offset: 81740},
 										run: (*parser).callonListContinuationElement1588,
 										expr: &seqExpr{
-											pos: position{line: 2537, col: 22, offset: 81684},
+											pos: position{line: 2538, col: 22, offset: 81740},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2542, col: 31, offset: 81934},
+													pos:        position{line: 2543, col: 31, offset: 81990},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2542, col: 36, offset: 81939},
+													pos: position{line: 2543, col: 36, offset: 81995},
 													expr: &litMatcher{
-														pos:        position{line: 2542, col: 37, offset: 81940},
+														pos:        position{line: 2543, col: 37, offset: 81996},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2537, col: 49, offset: 81711},
+													pos:   position{line: 2538, col: 49, offset: 81767},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 13, offset: 91432},
+														pos: position{line: 2881, col: 13, offset: 91488},
 														run: (*parser).callonListContinuationElement1594,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2880, col: 13, offset: 91432},
+															pos: position{line: 2881, col: 13, offset: 91488},
 															expr: &charClassMatcher{
-																pos:        position{line: 2880, col: 13, offset: 91432},
+																pos:        position{line: 2881, col: 13, offset: 91488},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37783,28 +37783,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2956, col: 8, offset: 93304},
+													pos: position{line: 2957, col: 8, offset: 93360},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93077},
+															pos: position{line: 2944, col: 12, offset: 93133},
 															run: (*parser).callonListContinuationElement1598,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93078},
+																pos: position{line: 2944, col: 13, offset: 93134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93078},
+																		pos:        position{line: 2944, col: 13, offset: 93134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93085},
+																		pos:        position{line: 2944, col: 20, offset: 93141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93094},
+																		pos:        position{line: 2944, col: 29, offset: 93150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37813,9 +37813,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2953, col: 8, offset: 93254},
+															pos: position{line: 2954, col: 8, offset: 93310},
 															expr: &anyMatcher{
-																line: 2953, col: 9, offset: 93255,
+																line: 2954, col: 9, offset: 93311,
 															},
 														},
 													},
@@ -37906,12 +37906,12 @@ var g = &grammar{
 																					expr: &andExpr{
 																						pos: position{line: 1770, col: 13, offset: 57480},
 																						expr: &actionExpr{
-																							pos: position{line: 2938, col: 11, offset: 92967},
+																							pos: position{line: 2939, col: 11, offset: 93023},
 																							run: (*parser).callonListContinuationElement1626,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2938, col: 11, offset: 92967},
+																								pos: position{line: 2939, col: 11, offset: 93023},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2938, col: 11, offset: 92967},
+																									pos:        position{line: 2939, col: 11, offset: 93023},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37947,18 +37947,18 @@ var g = &grammar{
 																			pos: position{line: 702, col: 14, offset: 22577},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2951, col: 11, offset: 93240},
+																					pos: position{line: 2952, col: 11, offset: 93296},
 																					expr: &anyMatcher{
-																						line: 2951, col: 13, offset: 93242,
+																						line: 2952, col: 13, offset: 93298,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 702, col: 21, offset: 22584},
 																					expr: &actionExpr{
-																						pos: position{line: 2934, col: 10, offset: 92906},
+																						pos: position{line: 2935, col: 10, offset: 92962},
 																						run: (*parser).callonListContinuationElement1638,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2934, col: 10, offset: 92906},
+																							pos:        position{line: 2935, col: 10, offset: 92962},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37967,28 +37967,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2956, col: 8, offset: 93304},
+																					pos: position{line: 2957, col: 8, offset: 93360},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2943, col: 12, offset: 93077},
+																							pos: position{line: 2944, col: 12, offset: 93133},
 																							run: (*parser).callonListContinuationElement1641,
 																							expr: &choiceExpr{
-																								pos: position{line: 2943, col: 13, offset: 93078},
+																								pos: position{line: 2944, col: 13, offset: 93134},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 13, offset: 93078},
+																										pos:        position{line: 2944, col: 13, offset: 93134},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 20, offset: 93085},
+																										pos:        position{line: 2944, col: 20, offset: 93141},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 29, offset: 93094},
+																										pos:        position{line: 2944, col: 29, offset: 93150},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37997,9 +37997,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2953, col: 8, offset: 93254},
+																							pos: position{line: 2954, col: 8, offset: 93310},
 																							expr: &anyMatcher{
-																								line: 2953, col: 9, offset: 93255,
+																								line: 2954, col: 9, offset: 93311,
 																							},
 																						},
 																					},
@@ -38022,10 +38022,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1567, col: 31, offset: 50969},
 																				expr: &actionExpr{
-																					pos: position{line: 2934, col: 10, offset: 92906},
+																					pos: position{line: 2935, col: 10, offset: 92962},
 																					run: (*parser).callonListContinuationElement1652,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2934, col: 10, offset: 92906},
+																						pos:        position{line: 2935, col: 10, offset: 92962},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -38034,25 +38034,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonListContinuationElement1654,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -38074,10 +38074,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1608, col: 5, offset: 52184},
 																					expr: &actionExpr{
-																						pos: position{line: 2934, col: 10, offset: 92906},
+																						pos: position{line: 2935, col: 10, offset: 92962},
 																						run: (*parser).callonListContinuationElement1663,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2934, col: 10, offset: 92906},
+																							pos:        position{line: 2935, col: 10, offset: 92962},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38244,12 +38244,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2938, col: 11, offset: 92967},
+																					pos: position{line: 2939, col: 11, offset: 93023},
 																					run: (*parser).callonListContinuationElement1697,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2938, col: 11, offset: 92967},
+																						pos: position{line: 2939, col: 11, offset: 93023},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2938, col: 11, offset: 92967},
+																							pos:        position{line: 2939, col: 11, offset: 93023},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38272,10 +38272,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1658, col: 5, offset: 54146},
 																					expr: &actionExpr{
-																						pos: position{line: 2934, col: 10, offset: 92906},
+																						pos: position{line: 2935, col: 10, offset: 92962},
 																						run: (*parser).callonListContinuationElement1704,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2934, col: 10, offset: 92906},
+																							pos:        position{line: 2935, col: 10, offset: 92962},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38316,12 +38316,12 @@ var g = &grammar{
 																					run: (*parser).callonListContinuationElement1712,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2938, col: 11, offset: 92967},
+																					pos: position{line: 2939, col: 11, offset: 93023},
 																					run: (*parser).callonListContinuationElement1713,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2938, col: 11, offset: 92967},
+																						pos: position{line: 2939, col: 11, offset: 93023},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2938, col: 11, offset: 92967},
+																							pos:        position{line: 2939, col: 11, offset: 93023},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38372,12 +38372,12 @@ var g = &grammar{
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2938, col: 11, offset: 92967},
+																					pos: position{line: 2939, col: 11, offset: 93023},
 																					run: (*parser).callonListContinuationElement1725,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2938, col: 11, offset: 92967},
+																						pos: position{line: 2939, col: 11, offset: 93023},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2938, col: 11, offset: 92967},
+																							pos:        position{line: 2939, col: 11, offset: 93023},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38403,18 +38403,18 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 1693, col: 5, offset: 55165},
 																							expr: &seqExpr{
-																								pos: position{line: 2542, col: 31, offset: 81934},
+																								pos: position{line: 2543, col: 31, offset: 81990},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2542, col: 31, offset: 81934},
+																										pos:        position{line: 2543, col: 31, offset: 81990},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2542, col: 36, offset: 81939},
+																										pos: position{line: 2543, col: 36, offset: 81995},
 																										expr: &litMatcher{
-																											pos:        position{line: 2542, col: 37, offset: 81940},
+																											pos:        position{line: 2543, col: 37, offset: 81996},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -38464,28 +38464,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1694, col: 35, offset: 55227},
 																										expr: &choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93304},
+																											pos: position{line: 2957, col: 8, offset: 93360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93077},
+																													pos: position{line: 2944, col: 12, offset: 93133},
 																													run: (*parser).callonListContinuationElement1749,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93078},
+																														pos: position{line: 2944, col: 13, offset: 93134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93078},
+																																pos:        position{line: 2944, col: 13, offset: 93134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93085},
+																																pos:        position{line: 2944, col: 20, offset: 93141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93094},
+																																pos:        position{line: 2944, col: 29, offset: 93150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38494,9 +38494,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93254},
+																													pos: position{line: 2954, col: 8, offset: 93310},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93255,
+																														line: 2954, col: 9, offset: 93311,
 																													},
 																												},
 																											},
@@ -38555,7 +38555,7 @@ var g = &grammar{
 																				&notExpr{
 																					pos: position{line: 749, col: 5, offset: 24130},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2824, col: 13, offset: 90001},
+																						pos:        position{line: 2825, col: 13, offset: 90057},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -38605,10 +38605,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 767, col: 8, offset: 24774},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92906},
+																												pos: position{line: 2935, col: 10, offset: 92962},
 																												run: (*parser).callonListContinuationElement1780,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92906},
+																													pos:        position{line: 2935, col: 10, offset: 92962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38617,28 +38617,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93304},
+																											pos: position{line: 2957, col: 8, offset: 93360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93077},
+																													pos: position{line: 2944, col: 12, offset: 93133},
 																													run: (*parser).callonListContinuationElement1783,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93078},
+																														pos: position{line: 2944, col: 13, offset: 93134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93078},
+																																pos:        position{line: 2944, col: 13, offset: 93134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93085},
+																																pos:        position{line: 2944, col: 20, offset: 93141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93094},
+																																pos:        position{line: 2944, col: 29, offset: 93150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38647,9 +38647,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93254},
+																													pos: position{line: 2954, col: 8, offset: 93310},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93255,
+																														line: 2954, col: 9, offset: 93311,
 																													},
 																												},
 																											},
@@ -38694,10 +38694,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 774, col: 8, offset: 25022},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92906},
+																												pos: position{line: 2935, col: 10, offset: 92962},
 																												run: (*parser).callonListContinuationElement1799,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92906},
+																													pos:        position{line: 2935, col: 10, offset: 92962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38706,28 +38706,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93304},
+																											pos: position{line: 2957, col: 8, offset: 93360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93077},
+																													pos: position{line: 2944, col: 12, offset: 93133},
 																													run: (*parser).callonListContinuationElement1802,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93078},
+																														pos: position{line: 2944, col: 13, offset: 93134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93078},
+																																pos:        position{line: 2944, col: 13, offset: 93134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93085},
+																																pos:        position{line: 2944, col: 20, offset: 93141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93094},
+																																pos:        position{line: 2944, col: 29, offset: 93150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38736,9 +38736,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93254},
+																													pos: position{line: 2954, col: 8, offset: 93310},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93255,
+																														line: 2954, col: 9, offset: 93311,
 																													},
 																												},
 																											},
@@ -38779,10 +38779,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 52, offset: 25434},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92906},
+																												pos: position{line: 2935, col: 10, offset: 92962},
 																												run: (*parser).callonListContinuationElement1817,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92906},
+																													pos:        position{line: 2935, col: 10, offset: 92962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38791,28 +38791,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93304},
+																											pos: position{line: 2957, col: 8, offset: 93360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93077},
+																													pos: position{line: 2944, col: 12, offset: 93133},
 																													run: (*parser).callonListContinuationElement1820,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93078},
+																														pos: position{line: 2944, col: 13, offset: 93134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93078},
+																																pos:        position{line: 2944, col: 13, offset: 93134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93085},
+																																pos:        position{line: 2944, col: 20, offset: 93141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93094},
+																																pos:        position{line: 2944, col: 29, offset: 93150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38821,9 +38821,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93254},
+																													pos: position{line: 2954, col: 8, offset: 93310},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93255,
+																														line: 2954, col: 9, offset: 93311,
 																													},
 																												},
 																											},
@@ -38868,10 +38868,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 781, col: 8, offset: 25268},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92906},
+																												pos: position{line: 2935, col: 10, offset: 92962},
 																												run: (*parser).callonListContinuationElement1836,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92906},
+																													pos:        position{line: 2935, col: 10, offset: 92962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38880,28 +38880,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93304},
+																											pos: position{line: 2957, col: 8, offset: 93360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93077},
+																													pos: position{line: 2944, col: 12, offset: 93133},
 																													run: (*parser).callonListContinuationElement1839,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93078},
+																														pos: position{line: 2944, col: 13, offset: 93134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93078},
+																																pos:        position{line: 2944, col: 13, offset: 93134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93085},
+																																pos:        position{line: 2944, col: 20, offset: 93141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93094},
+																																pos:        position{line: 2944, col: 29, offset: 93150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38910,9 +38910,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93254},
+																													pos: position{line: 2954, col: 8, offset: 93310},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93255,
+																														line: 2954, col: 9, offset: 93311,
 																													},
 																												},
 																											},
@@ -38957,10 +38957,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 796, col: 8, offset: 25806},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92906},
+																												pos: position{line: 2935, col: 10, offset: 92962},
 																												run: (*parser).callonListContinuationElement1855,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92906},
+																													pos:        position{line: 2935, col: 10, offset: 92962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38969,28 +38969,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93304},
+																											pos: position{line: 2957, col: 8, offset: 93360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93077},
+																													pos: position{line: 2944, col: 12, offset: 93133},
 																													run: (*parser).callonListContinuationElement1858,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93078},
+																														pos: position{line: 2944, col: 13, offset: 93134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93078},
+																																pos:        position{line: 2944, col: 13, offset: 93134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93085},
+																																pos:        position{line: 2944, col: 20, offset: 93141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93094},
+																																pos:        position{line: 2944, col: 29, offset: 93150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38999,9 +38999,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93254},
+																													pos: position{line: 2954, col: 8, offset: 93310},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93255,
+																														line: 2954, col: 9, offset: 93311,
 																													},
 																												},
 																											},
@@ -39046,10 +39046,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 810, col: 8, offset: 26282},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92906},
+																												pos: position{line: 2935, col: 10, offset: 92962},
 																												run: (*parser).callonListContinuationElement1874,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92906},
+																													pos:        position{line: 2935, col: 10, offset: 92962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39058,28 +39058,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93304},
+																											pos: position{line: 2957, col: 8, offset: 93360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93077},
+																													pos: position{line: 2944, col: 12, offset: 93133},
 																													run: (*parser).callonListContinuationElement1877,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93078},
+																														pos: position{line: 2944, col: 13, offset: 93134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93078},
+																																pos:        position{line: 2944, col: 13, offset: 93134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93085},
+																																pos:        position{line: 2944, col: 20, offset: 93141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93094},
+																																pos:        position{line: 2944, col: 29, offset: 93150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39088,9 +39088,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93254},
+																													pos: position{line: 2954, col: 8, offset: 93310},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93255,
+																														line: 2954, col: 9, offset: 93311,
 																													},
 																												},
 																											},
@@ -39135,10 +39135,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 817, col: 8, offset: 26534},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92906},
+																												pos: position{line: 2935, col: 10, offset: 92962},
 																												run: (*parser).callonListContinuationElement1893,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92906},
+																													pos:        position{line: 2935, col: 10, offset: 92962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39147,28 +39147,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93304},
+																											pos: position{line: 2957, col: 8, offset: 93360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93077},
+																													pos: position{line: 2944, col: 12, offset: 93133},
 																													run: (*parser).callonListContinuationElement1896,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93078},
+																														pos: position{line: 2944, col: 13, offset: 93134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93078},
+																																pos:        position{line: 2944, col: 13, offset: 93134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93085},
+																																pos:        position{line: 2944, col: 20, offset: 93141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93094},
+																																pos:        position{line: 2944, col: 29, offset: 93150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39177,9 +39177,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93254},
+																													pos: position{line: 2954, col: 8, offset: 93310},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93255,
+																														line: 2954, col: 9, offset: 93311,
 																													},
 																												},
 																											},
@@ -39224,10 +39224,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 824, col: 8, offset: 26784},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92906},
+																												pos: position{line: 2935, col: 10, offset: 92962},
 																												run: (*parser).callonListContinuationElement1912,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92906},
+																													pos:        position{line: 2935, col: 10, offset: 92962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39236,28 +39236,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93304},
+																											pos: position{line: 2957, col: 8, offset: 93360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93077},
+																													pos: position{line: 2944, col: 12, offset: 93133},
 																													run: (*parser).callonListContinuationElement1915,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93078},
+																														pos: position{line: 2944, col: 13, offset: 93134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93078},
+																																pos:        position{line: 2944, col: 13, offset: 93134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93085},
+																																pos:        position{line: 2944, col: 20, offset: 93141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93094},
+																																pos:        position{line: 2944, col: 29, offset: 93150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39266,9 +39266,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93254},
+																													pos: position{line: 2954, col: 8, offset: 93310},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93255,
+																														line: 2954, col: 9, offset: 93311,
 																													},
 																												},
 																											},
@@ -39313,10 +39313,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 831, col: 8, offset: 27030},
 																											expr: &actionExpr{
-																												pos: position{line: 2934, col: 10, offset: 92906},
+																												pos: position{line: 2935, col: 10, offset: 92962},
 																												run: (*parser).callonListContinuationElement1931,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2934, col: 10, offset: 92906},
+																													pos:        position{line: 2935, col: 10, offset: 92962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39325,28 +39325,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2956, col: 8, offset: 93304},
+																											pos: position{line: 2957, col: 8, offset: 93360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2943, col: 12, offset: 93077},
+																													pos: position{line: 2944, col: 12, offset: 93133},
 																													run: (*parser).callonListContinuationElement1934,
 																													expr: &choiceExpr{
-																														pos: position{line: 2943, col: 13, offset: 93078},
+																														pos: position{line: 2944, col: 13, offset: 93134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 13, offset: 93078},
+																																pos:        position{line: 2944, col: 13, offset: 93134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 20, offset: 93085},
+																																pos:        position{line: 2944, col: 20, offset: 93141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2943, col: 29, offset: 93094},
+																																pos:        position{line: 2944, col: 29, offset: 93150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39355,9 +39355,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2953, col: 8, offset: 93254},
+																													pos: position{line: 2954, col: 8, offset: 93310},
 																													expr: &anyMatcher{
-																														line: 2953, col: 9, offset: 93255,
+																														line: 2954, col: 9, offset: 93311,
 																													},
 																												},
 																											},
@@ -39376,12 +39376,12 @@ var g = &grammar{
 																	pos:   position{line: 1542, col: 5, offset: 50303},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2884, col: 14, offset: 91499},
+																		pos: position{line: 2885, col: 14, offset: 91555},
 																		run: (*parser).callonListContinuationElement1942,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2884, col: 14, offset: 91499},
+																			pos: position{line: 2885, col: 14, offset: 91555},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2884, col: 14, offset: 91499},
+																				pos:        position{line: 2885, col: 14, offset: 91555},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -39391,28 +39391,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93304},
+																	pos: position{line: 2957, col: 8, offset: 93360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93077},
+																			pos: position{line: 2944, col: 12, offset: 93133},
 																			run: (*parser).callonListContinuationElement1946,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93078},
+																				pos: position{line: 2944, col: 13, offset: 93134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93078},
+																						pos:        position{line: 2944, col: 13, offset: 93134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93085},
+																						pos:        position{line: 2944, col: 20, offset: 93141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93094},
+																						pos:        position{line: 2944, col: 29, offset: 93150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -39421,9 +39421,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93254},
+																			pos: position{line: 2954, col: 8, offset: 93310},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93255,
+																				line: 2954, col: 9, offset: 93311,
 																			},
 																		},
 																	},
@@ -39488,10 +39488,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1737, col: 66, offset: 56415},
 							expr: &actionExpr{
-								pos: position{line: 2934, col: 10, offset: 92906},
+								pos: position{line: 2935, col: 10, offset: 92962},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2934, col: 10, offset: 92906},
+									pos:        position{line: 2935, col: 10, offset: 92962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -39505,25 +39505,25 @@ var g = &grammar{
 								pos: position{line: 1737, col: 75, offset: 56424},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2943, col: 12, offset: 93077},
+										pos: position{line: 2944, col: 12, offset: 93133},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2943, col: 13, offset: 93078},
+											pos: position{line: 2944, col: 13, offset: 93134},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2943, col: 13, offset: 93078},
+													pos:        position{line: 2944, col: 13, offset: 93134},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2943, col: 20, offset: 93085},
+													pos:        position{line: 2944, col: 20, offset: 93141},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2943, col: 29, offset: 93094},
+													pos:        position{line: 2944, col: 29, offset: 93150},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -39532,9 +39532,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2953, col: 8, offset: 93254},
+										pos: position{line: 2954, col: 8, offset: 93310},
 										expr: &anyMatcher{
-											line: 2953, col: 9, offset: 93255,
+											line: 2954, col: 9, offset: 93311,
 										},
 									},
 									&ruleRefExpr{
@@ -39563,7 +39563,7 @@ var g = &grammar{
 								pos: position{line: 1778, col: 7, offset: 57679},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2824, col: 13, offset: 90001},
+										pos:        position{line: 2825, col: 13, offset: 90057},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
@@ -39582,12 +39582,12 @@ var g = &grammar{
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2938, col: 11, offset: 92967},
+													pos: position{line: 2939, col: 11, offset: 93023},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2938, col: 11, offset: 92967},
+														pos: position{line: 2939, col: 11, offset: 93023},
 														expr: &charClassMatcher{
-															pos:        position{line: 2938, col: 11, offset: 92967},
+															pos:        position{line: 2939, col: 11, offset: 93023},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -39678,12 +39678,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1770, col: 13, offset: 57480},
 																expr: &actionExpr{
-																	pos: position{line: 2938, col: 11, offset: 92967},
+																	pos: position{line: 2939, col: 11, offset: 93023},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2938, col: 11, offset: 92967},
+																		pos: position{line: 2939, col: 11, offset: 93023},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2938, col: 11, offset: 92967},
+																			pos:        position{line: 2939, col: 11, offset: 93023},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39714,12 +39714,12 @@ var g = &grammar{
 											pos:   position{line: 1816, col: 5, offset: 58966},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2884, col: 14, offset: 91499},
+												pos: position{line: 2885, col: 14, offset: 91555},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2884, col: 14, offset: 91499},
+													pos: position{line: 2885, col: 14, offset: 91555},
 													expr: &charClassMatcher{
-														pos:        position{line: 2884, col: 14, offset: 91499},
+														pos:        position{line: 2885, col: 14, offset: 91555},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39733,28 +39733,28 @@ var g = &grammar{
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2956, col: 8, offset: 93304},
+											pos: position{line: 2957, col: 8, offset: 93360},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2943, col: 12, offset: 93077},
+													pos: position{line: 2944, col: 12, offset: 93133},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2943, col: 13, offset: 93078},
+														pos: position{line: 2944, col: 13, offset: 93134},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2943, col: 13, offset: 93078},
+																pos:        position{line: 2944, col: 13, offset: 93134},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2943, col: 20, offset: 93085},
+																pos:        position{line: 2944, col: 20, offset: 93141},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2943, col: 29, offset: 93094},
+																pos:        position{line: 2944, col: 29, offset: 93150},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39763,9 +39763,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2953, col: 8, offset: 93254},
+													pos: position{line: 2954, col: 8, offset: 93310},
 													expr: &anyMatcher{
-														line: 2953, col: 9, offset: 93255,
+														line: 2954, col: 9, offset: 93311,
 													},
 												},
 											},
@@ -39790,9 +39790,9 @@ var g = &grammar{
 										pos: position{line: 1789, col: 9, offset: 58244},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2951, col: 11, offset: 93240},
+												pos: position{line: 2952, col: 11, offset: 93296},
 												expr: &anyMatcher{
-													line: 2951, col: 13, offset: 93242,
+													line: 2952, col: 13, offset: 93298,
 												},
 											},
 											&notExpr{
@@ -39804,18 +39804,18 @@ var g = &grammar{
 														pos: position{line: 702, col: 14, offset: 22577},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2951, col: 11, offset: 93240},
+																pos: position{line: 2952, col: 11, offset: 93296},
 																expr: &anyMatcher{
-																	line: 2951, col: 13, offset: 93242,
+																	line: 2952, col: 13, offset: 93298,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 702, col: 21, offset: 22584},
 																expr: &actionExpr{
-																	pos: position{line: 2934, col: 10, offset: 92906},
+																	pos: position{line: 2935, col: 10, offset: 92962},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2934, col: 10, offset: 92906},
+																		pos:        position{line: 2935, col: 10, offset: 92962},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39824,28 +39824,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2956, col: 8, offset: 93304},
+																pos: position{line: 2957, col: 8, offset: 93360},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2943, col: 12, offset: 93077},
+																		pos: position{line: 2944, col: 12, offset: 93133},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2943, col: 13, offset: 93078},
+																			pos: position{line: 2944, col: 13, offset: 93134},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 13, offset: 93078},
+																					pos:        position{line: 2944, col: 13, offset: 93134},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 20, offset: 93085},
+																					pos:        position{line: 2944, col: 20, offset: 93141},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 29, offset: 93094},
+																					pos:        position{line: 2944, col: 29, offset: 93150},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39854,9 +39854,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93254},
+																		pos: position{line: 2954, col: 8, offset: 93310},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93255,
+																			line: 2954, col: 9, offset: 93311,
 																		},
 																	},
 																},
@@ -39883,7 +39883,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 749, col: 5, offset: 24130},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2824, col: 13, offset: 90001},
+																	pos:        position{line: 2825, col: 13, offset: 90057},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -39933,10 +39933,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 767, col: 8, offset: 24774},
 																						expr: &actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92906},
+																							pos: position{line: 2935, col: 10, offset: 92962},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92906},
+																								pos:        position{line: 2935, col: 10, offset: 92962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39945,28 +39945,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93304},
+																						pos: position{line: 2957, col: 8, offset: 93360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93077},
+																								pos: position{line: 2944, col: 12, offset: 93133},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93078},
+																									pos: position{line: 2944, col: 13, offset: 93134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93078},
+																											pos:        position{line: 2944, col: 13, offset: 93134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93085},
+																											pos:        position{line: 2944, col: 20, offset: 93141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93094},
+																											pos:        position{line: 2944, col: 29, offset: 93150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39975,9 +39975,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93254},
+																								pos: position{line: 2954, col: 8, offset: 93310},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93255,
+																									line: 2954, col: 9, offset: 93311,
 																								},
 																							},
 																						},
@@ -40022,10 +40022,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 774, col: 8, offset: 25022},
 																						expr: &actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92906},
+																							pos: position{line: 2935, col: 10, offset: 92962},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92906},
+																								pos:        position{line: 2935, col: 10, offset: 92962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40034,28 +40034,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93304},
+																						pos: position{line: 2957, col: 8, offset: 93360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93077},
+																								pos: position{line: 2944, col: 12, offset: 93133},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93078},
+																									pos: position{line: 2944, col: 13, offset: 93134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93078},
+																											pos:        position{line: 2944, col: 13, offset: 93134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93085},
+																											pos:        position{line: 2944, col: 20, offset: 93141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93094},
+																											pos:        position{line: 2944, col: 29, offset: 93150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40064,9 +40064,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93254},
+																								pos: position{line: 2954, col: 8, offset: 93310},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93255,
+																									line: 2954, col: 9, offset: 93311,
 																								},
 																							},
 																						},
@@ -40107,10 +40107,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 785, col: 52, offset: 25434},
 																						expr: &actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92906},
+																							pos: position{line: 2935, col: 10, offset: 92962},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92906},
+																								pos:        position{line: 2935, col: 10, offset: 92962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40119,28 +40119,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93304},
+																						pos: position{line: 2957, col: 8, offset: 93360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93077},
+																								pos: position{line: 2944, col: 12, offset: 93133},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93078},
+																									pos: position{line: 2944, col: 13, offset: 93134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93078},
+																											pos:        position{line: 2944, col: 13, offset: 93134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93085},
+																											pos:        position{line: 2944, col: 20, offset: 93141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93094},
+																											pos:        position{line: 2944, col: 29, offset: 93150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40149,9 +40149,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93254},
+																								pos: position{line: 2954, col: 8, offset: 93310},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93255,
+																									line: 2954, col: 9, offset: 93311,
 																								},
 																							},
 																						},
@@ -40196,10 +40196,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 781, col: 8, offset: 25268},
 																						expr: &actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92906},
+																							pos: position{line: 2935, col: 10, offset: 92962},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92906},
+																								pos:        position{line: 2935, col: 10, offset: 92962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40208,28 +40208,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93304},
+																						pos: position{line: 2957, col: 8, offset: 93360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93077},
+																								pos: position{line: 2944, col: 12, offset: 93133},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93078},
+																									pos: position{line: 2944, col: 13, offset: 93134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93078},
+																											pos:        position{line: 2944, col: 13, offset: 93134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93085},
+																											pos:        position{line: 2944, col: 20, offset: 93141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93094},
+																											pos:        position{line: 2944, col: 29, offset: 93150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40238,9 +40238,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93254},
+																								pos: position{line: 2954, col: 8, offset: 93310},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93255,
+																									line: 2954, col: 9, offset: 93311,
 																								},
 																							},
 																						},
@@ -40285,10 +40285,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 796, col: 8, offset: 25806},
 																						expr: &actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92906},
+																							pos: position{line: 2935, col: 10, offset: 92962},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92906},
+																								pos:        position{line: 2935, col: 10, offset: 92962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40297,28 +40297,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93304},
+																						pos: position{line: 2957, col: 8, offset: 93360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93077},
+																								pos: position{line: 2944, col: 12, offset: 93133},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93078},
+																									pos: position{line: 2944, col: 13, offset: 93134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93078},
+																											pos:        position{line: 2944, col: 13, offset: 93134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93085},
+																											pos:        position{line: 2944, col: 20, offset: 93141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93094},
+																											pos:        position{line: 2944, col: 29, offset: 93150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40327,9 +40327,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93254},
+																								pos: position{line: 2954, col: 8, offset: 93310},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93255,
+																									line: 2954, col: 9, offset: 93311,
 																								},
 																							},
 																						},
@@ -40374,10 +40374,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 810, col: 8, offset: 26282},
 																						expr: &actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92906},
+																							pos: position{line: 2935, col: 10, offset: 92962},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92906},
+																								pos:        position{line: 2935, col: 10, offset: 92962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40386,28 +40386,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93304},
+																						pos: position{line: 2957, col: 8, offset: 93360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93077},
+																								pos: position{line: 2944, col: 12, offset: 93133},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93078},
+																									pos: position{line: 2944, col: 13, offset: 93134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93078},
+																											pos:        position{line: 2944, col: 13, offset: 93134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93085},
+																											pos:        position{line: 2944, col: 20, offset: 93141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93094},
+																											pos:        position{line: 2944, col: 29, offset: 93150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40416,9 +40416,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93254},
+																								pos: position{line: 2954, col: 8, offset: 93310},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93255,
+																									line: 2954, col: 9, offset: 93311,
 																								},
 																							},
 																						},
@@ -40463,10 +40463,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 817, col: 8, offset: 26534},
 																						expr: &actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92906},
+																							pos: position{line: 2935, col: 10, offset: 92962},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92906},
+																								pos:        position{line: 2935, col: 10, offset: 92962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40475,28 +40475,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93304},
+																						pos: position{line: 2957, col: 8, offset: 93360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93077},
+																								pos: position{line: 2944, col: 12, offset: 93133},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93078},
+																									pos: position{line: 2944, col: 13, offset: 93134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93078},
+																											pos:        position{line: 2944, col: 13, offset: 93134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93085},
+																											pos:        position{line: 2944, col: 20, offset: 93141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93094},
+																											pos:        position{line: 2944, col: 29, offset: 93150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40505,9 +40505,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93254},
+																								pos: position{line: 2954, col: 8, offset: 93310},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93255,
+																									line: 2954, col: 9, offset: 93311,
 																								},
 																							},
 																						},
@@ -40552,10 +40552,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 824, col: 8, offset: 26784},
 																						expr: &actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92906},
+																							pos: position{line: 2935, col: 10, offset: 92962},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92906},
+																								pos:        position{line: 2935, col: 10, offset: 92962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40564,28 +40564,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93304},
+																						pos: position{line: 2957, col: 8, offset: 93360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93077},
+																								pos: position{line: 2944, col: 12, offset: 93133},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93078},
+																									pos: position{line: 2944, col: 13, offset: 93134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93078},
+																											pos:        position{line: 2944, col: 13, offset: 93134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93085},
+																											pos:        position{line: 2944, col: 20, offset: 93141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93094},
+																											pos:        position{line: 2944, col: 29, offset: 93150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40594,9 +40594,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93254},
+																								pos: position{line: 2954, col: 8, offset: 93310},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93255,
+																									line: 2954, col: 9, offset: 93311,
 																								},
 																							},
 																						},
@@ -40641,10 +40641,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 831, col: 8, offset: 27030},
 																						expr: &actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92906},
+																							pos: position{line: 2935, col: 10, offset: 92962},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92906},
+																								pos:        position{line: 2935, col: 10, offset: 92962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40653,28 +40653,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2956, col: 8, offset: 93304},
+																						pos: position{line: 2957, col: 8, offset: 93360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2943, col: 12, offset: 93077},
+																								pos: position{line: 2944, col: 12, offset: 93133},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2943, col: 13, offset: 93078},
+																									pos: position{line: 2944, col: 13, offset: 93134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 13, offset: 93078},
+																											pos:        position{line: 2944, col: 13, offset: 93134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 20, offset: 93085},
+																											pos:        position{line: 2944, col: 20, offset: 93141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2943, col: 29, offset: 93094},
+																											pos:        position{line: 2944, col: 29, offset: 93150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40683,9 +40683,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2953, col: 8, offset: 93254},
+																								pos: position{line: 2954, col: 8, offset: 93310},
 																								expr: &anyMatcher{
-																									line: 2953, col: 9, offset: 93255,
+																									line: 2954, col: 9, offset: 93311,
 																								},
 																							},
 																						},
@@ -40714,10 +40714,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1567, col: 31, offset: 50969},
 															expr: &actionExpr{
-																pos: position{line: 2934, col: 10, offset: 92906},
+																pos: position{line: 2935, col: 10, offset: 92962},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2934, col: 10, offset: 92906},
+																	pos:        position{line: 2935, col: 10, offset: 92962},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40726,25 +40726,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93077},
+															pos: position{line: 2944, col: 12, offset: 93133},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93078},
+																pos: position{line: 2944, col: 13, offset: 93134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93078},
+																		pos:        position{line: 2944, col: 13, offset: 93134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93085},
+																		pos:        position{line: 2944, col: 20, offset: 93141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93094},
+																		pos:        position{line: 2944, col: 29, offset: 93150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40762,36 +40762,36 @@ var g = &grammar{
 													pos: position{line: 1794, col: 15, offset: 58366},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2537, col: 22, offset: 81684},
+															pos: position{line: 2538, col: 22, offset: 81740},
 															run: (*parser).callonShortcutParagraph265,
 															expr: &seqExpr{
-																pos: position{line: 2537, col: 22, offset: 81684},
+																pos: position{line: 2538, col: 22, offset: 81740},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2542, col: 31, offset: 81934},
+																		pos:        position{line: 2543, col: 31, offset: 81990},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2542, col: 36, offset: 81939},
+																		pos: position{line: 2543, col: 36, offset: 81995},
 																		expr: &litMatcher{
-																			pos:        position{line: 2542, col: 37, offset: 81940},
+																			pos:        position{line: 2543, col: 37, offset: 81996},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2537, col: 49, offset: 81711},
+																		pos:   position{line: 2538, col: 49, offset: 81767},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 13, offset: 91432},
+																			pos: position{line: 2881, col: 13, offset: 91488},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2880, col: 13, offset: 91432},
+																				pos: position{line: 2881, col: 13, offset: 91488},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 13, offset: 91432},
+																					pos:        position{line: 2881, col: 13, offset: 91488},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40801,28 +40801,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93304},
+																		pos: position{line: 2957, col: 8, offset: 93360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40831,9 +40831,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93254},
+																				pos: position{line: 2954, col: 8, offset: 93310},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93255,
+																					line: 2954, col: 9, offset: 93311,
 																				},
 																			},
 																		},
@@ -40851,12 +40851,12 @@ var g = &grammar{
 																		pos:   position{line: 1816, col: 5, offset: 58966},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2884, col: 14, offset: 91499},
+																			pos: position{line: 2885, col: 14, offset: 91555},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2884, col: 14, offset: 91499},
+																				pos: position{line: 2885, col: 14, offset: 91555},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2884, col: 14, offset: 91499},
+																					pos:        position{line: 2885, col: 14, offset: 91555},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40870,28 +40870,28 @@ var g = &grammar{
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93304},
+																		pos: position{line: 2957, col: 8, offset: 93360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40900,9 +40900,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93254},
+																				pos: position{line: 2954, col: 8, offset: 93310},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93255,
+																					line: 2954, col: 9, offset: 93311,
 																				},
 																			},
 																		},
@@ -41008,12 +41008,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1770, col: 13, offset: 57480},
 																expr: &actionExpr{
-																	pos: position{line: 2938, col: 11, offset: 92967},
+																	pos: position{line: 2939, col: 11, offset: 93023},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2938, col: 11, offset: 92967},
+																		pos: position{line: 2939, col: 11, offset: 93023},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2938, col: 11, offset: 92967},
+																			pos:        position{line: 2939, col: 11, offset: 93023},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41044,12 +41044,12 @@ var g = &grammar{
 											pos:   position{line: 1816, col: 5, offset: 58966},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2884, col: 14, offset: 91499},
+												pos: position{line: 2885, col: 14, offset: 91555},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2884, col: 14, offset: 91499},
+													pos: position{line: 2885, col: 14, offset: 91555},
 													expr: &charClassMatcher{
-														pos:        position{line: 2884, col: 14, offset: 91499},
+														pos:        position{line: 2885, col: 14, offset: 91555},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -41063,28 +41063,28 @@ var g = &grammar{
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2956, col: 8, offset: 93304},
+											pos: position{line: 2957, col: 8, offset: 93360},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2943, col: 12, offset: 93077},
+													pos: position{line: 2944, col: 12, offset: 93133},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2943, col: 13, offset: 93078},
+														pos: position{line: 2944, col: 13, offset: 93134},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2943, col: 13, offset: 93078},
+																pos:        position{line: 2944, col: 13, offset: 93134},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2943, col: 20, offset: 93085},
+																pos:        position{line: 2944, col: 20, offset: 93141},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2943, col: 29, offset: 93094},
+																pos:        position{line: 2944, col: 29, offset: 93150},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -41093,9 +41093,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2953, col: 8, offset: 93254},
+													pos: position{line: 2954, col: 8, offset: 93310},
 													expr: &anyMatcher{
-														line: 2953, col: 9, offset: 93255,
+														line: 2954, col: 9, offset: 93311,
 													},
 												},
 											},
@@ -41116,9 +41116,9 @@ var g = &grammar{
 										pos: position{line: 1805, col: 9, offset: 58672},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2951, col: 11, offset: 93240},
+												pos: position{line: 2952, col: 11, offset: 93296},
 												expr: &anyMatcher{
-													line: 2951, col: 13, offset: 93242,
+													line: 2952, col: 13, offset: 93298,
 												},
 											},
 											&notExpr{
@@ -41130,18 +41130,18 @@ var g = &grammar{
 														pos: position{line: 702, col: 14, offset: 22577},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2951, col: 11, offset: 93240},
+																pos: position{line: 2952, col: 11, offset: 93296},
 																expr: &anyMatcher{
-																	line: 2951, col: 13, offset: 93242,
+																	line: 2952, col: 13, offset: 93298,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 702, col: 21, offset: 22584},
 																expr: &actionExpr{
-																	pos: position{line: 2934, col: 10, offset: 92906},
+																	pos: position{line: 2935, col: 10, offset: 92962},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2934, col: 10, offset: 92906},
+																		pos:        position{line: 2935, col: 10, offset: 92962},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -41150,28 +41150,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2956, col: 8, offset: 93304},
+																pos: position{line: 2957, col: 8, offset: 93360},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2943, col: 12, offset: 93077},
+																		pos: position{line: 2944, col: 12, offset: 93133},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2943, col: 13, offset: 93078},
+																			pos: position{line: 2944, col: 13, offset: 93134},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 13, offset: 93078},
+																					pos:        position{line: 2944, col: 13, offset: 93134},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 20, offset: 93085},
+																					pos:        position{line: 2944, col: 20, offset: 93141},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2943, col: 29, offset: 93094},
+																					pos:        position{line: 2944, col: 29, offset: 93150},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -41180,9 +41180,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2953, col: 8, offset: 93254},
+																		pos: position{line: 2954, col: 8, offset: 93310},
 																		expr: &anyMatcher{
-																			line: 2953, col: 9, offset: 93255,
+																			line: 2954, col: 9, offset: 93311,
 																		},
 																	},
 																},
@@ -41205,36 +41205,36 @@ var g = &grammar{
 													pos: position{line: 1808, col: 15, offset: 58737},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2537, col: 22, offset: 81684},
+															pos: position{line: 2538, col: 22, offset: 81740},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 2537, col: 22, offset: 81684},
+																pos: position{line: 2538, col: 22, offset: 81740},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2542, col: 31, offset: 81934},
+																		pos:        position{line: 2543, col: 31, offset: 81990},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2542, col: 36, offset: 81939},
+																		pos: position{line: 2543, col: 36, offset: 81995},
 																		expr: &litMatcher{
-																			pos:        position{line: 2542, col: 37, offset: 81940},
+																			pos:        position{line: 2543, col: 37, offset: 81996},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2537, col: 49, offset: 81711},
+																		pos:   position{line: 2538, col: 49, offset: 81767},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 13, offset: 91432},
+																			pos: position{line: 2881, col: 13, offset: 91488},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2880, col: 13, offset: 91432},
+																				pos: position{line: 2881, col: 13, offset: 91488},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 13, offset: 91432},
+																					pos:        position{line: 2881, col: 13, offset: 91488},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41244,28 +41244,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93304},
+																		pos: position{line: 2957, col: 8, offset: 93360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41274,9 +41274,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93254},
+																				pos: position{line: 2954, col: 8, offset: 93310},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93255,
+																					line: 2954, col: 9, offset: 93311,
 																				},
 																			},
 																		},
@@ -41294,12 +41294,12 @@ var g = &grammar{
 																		pos:   position{line: 1816, col: 5, offset: 58966},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2884, col: 14, offset: 91499},
+																			pos: position{line: 2885, col: 14, offset: 91555},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2884, col: 14, offset: 91499},
+																				pos: position{line: 2885, col: 14, offset: 91555},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2884, col: 14, offset: 91499},
+																					pos:        position{line: 2885, col: 14, offset: 91555},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41313,28 +41313,28 @@ var g = &grammar{
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2956, col: 8, offset: 93304},
+																		pos: position{line: 2957, col: 8, offset: 93360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41343,9 +41343,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2953, col: 8, offset: 93254},
+																				pos: position{line: 2954, col: 8, offset: 93310},
 																				expr: &anyMatcher{
-																					line: 2953, col: 9, offset: 93255,
+																					line: 2954, col: 9, offset: 93311,
 																				},
 																			},
 																		},
@@ -41558,21 +41558,21 @@ var g = &grammar{
 				pos: position{line: 1882, col: 5, offset: 60937},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2833, col: 5, offset: 90148},
+						pos: position{line: 2834, col: 5, offset: 90204},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2833, col: 5, offset: 90148},
+							pos: position{line: 2834, col: 5, offset: 90204},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2833, col: 5, offset: 90148},
+									pos:   position{line: 2834, col: 5, offset: 90204},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2833, col: 11, offset: 90154},
+										pos: position{line: 2834, col: 11, offset: 90210},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2833, col: 11, offset: 90154},
+											pos: position{line: 2834, col: 11, offset: 90210},
 											expr: &charClassMatcher{
-												pos:        position{line: 2833, col: 11, offset: 90154},
+												pos:        position{line: 2834, col: 11, offset: 90210},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41582,36 +41582,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2836, col: 5, offset: 90212},
+									pos: position{line: 2837, col: 5, offset: 90268},
 									expr: &seqExpr{
-										pos: position{line: 2837, col: 9, offset: 90223},
+										pos: position{line: 2838, col: 9, offset: 90279},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2837, col: 9, offset: 90223},
+												pos:        position{line: 2838, col: 9, offset: 90279},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2838, col: 9, offset: 90272},
+												pos: position{line: 2839, col: 9, offset: 90328},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2842, col: 5, offset: 90352},
+									pos: position{line: 2843, col: 5, offset: 90408},
 									expr: &seqExpr{
-										pos: position{line: 2843, col: 9, offset: 90363},
+										pos: position{line: 2844, col: 9, offset: 90419},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2843, col: 9, offset: 90363},
+												pos:        position{line: 2844, col: 9, offset: 90419},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2843, col: 13, offset: 90367},
+												pos:        position{line: 2844, col: 13, offset: 90423},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41624,12 +41624,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2938, col: 11, offset: 92967},
+						pos: position{line: 2939, col: 11, offset: 93023},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2938, col: 11, offset: 92967},
+							pos: position{line: 2939, col: 11, offset: 93023},
 							expr: &charClassMatcher{
-								pos:        position{line: 2938, col: 11, offset: 92967},
+								pos:        position{line: 2939, col: 11, offset: 93023},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -41642,21 +41642,21 @@ var g = &grammar{
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2555, col: 5, offset: 82429},
+						pos: position{line: 2556, col: 5, offset: 82485},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2555, col: 5, offset: 82429},
+							pos: position{line: 2556, col: 5, offset: 82485},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2555, col: 5, offset: 82429},
+									pos:        position{line: 2556, col: 5, offset: 82485},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2555, col: 10, offset: 82434},
+									pos: position{line: 2556, col: 10, offset: 82490},
 									expr: &charClassMatcher{
-										pos:        position{line: 2555, col: 11, offset: 82435},
+										pos:        position{line: 2556, col: 11, offset: 82491},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41667,29 +41667,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2561, col: 5, offset: 82627},
+						pos: position{line: 2562, col: 5, offset: 82683},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2561, col: 5, offset: 82627},
+							pos: position{line: 2562, col: 5, offset: 82683},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2561, col: 5, offset: 82627},
+									pos: position{line: 2562, col: 5, offset: 82683},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2564, col: 5, offset: 82698},
+									pos: position{line: 2565, col: 5, offset: 82754},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2568, col: 5, offset: 82823},
+									pos:        position{line: 2569, col: 5, offset: 82879},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2568, col: 9, offset: 82827},
+									pos: position{line: 2569, col: 9, offset: 82883},
 									expr: &charClassMatcher{
-										pos:        position{line: 2568, col: 10, offset: 82828},
+										pos:        position{line: 2569, col: 10, offset: 82884},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41700,27 +41700,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2851, col: 5, offset: 90560},
+						pos: position{line: 2852, col: 5, offset: 90616},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2852, col: 9, offset: 90570},
+							pos: position{line: 2853, col: 9, offset: 90626},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90571},
+									pos:        position{line: 2853, col: 10, offset: 90627},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2854, col: 13, offset: 90668},
+									pos: position{line: 2855, col: 13, offset: 90724},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2854, col: 13, offset: 90668},
+											pos: position{line: 2855, col: 13, offset: 90724},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2857, col: 13, offset: 90768},
+											pos:        position{line: 2858, col: 13, offset: 90824},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -41728,20 +41728,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2857, col: 19, offset: 90774},
+									pos:        position{line: 2858, col: 19, offset: 90830},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2860, col: 13, offset: 90812},
+									pos: position{line: 2861, col: 13, offset: 90868},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2860, col: 13, offset: 90812},
+											pos: position{line: 2861, col: 13, offset: 90868},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2863, col: 14, offset: 90905},
+											pos:        position{line: 2864, col: 14, offset: 90961},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -41750,18 +41750,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2865, col: 12, offset: 90949},
+									pos: position{line: 2866, col: 12, offset: 91005},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2865, col: 12, offset: 90949},
+											pos:        position{line: 2866, col: 12, offset: 91005},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2865, col: 16, offset: 90953},
+											pos: position{line: 2866, col: 16, offset: 91009},
 											expr: &litMatcher{
-												pos:        position{line: 2865, col: 17, offset: 90954},
+												pos:        position{line: 2866, col: 17, offset: 91010},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -42119,31 +42119,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2947, col: 18, offset: 93177},
+						pos: position{line: 2948, col: 18, offset: 93233},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2947, col: 18, offset: 93177},
+							pos: position{line: 2948, col: 18, offset: 93233},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2943, col: 12, offset: 93077},
+									pos: position{line: 2944, col: 12, offset: 93133},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2943, col: 13, offset: 93078},
+										pos: position{line: 2944, col: 13, offset: 93134},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2943, col: 13, offset: 93078},
+												pos:        position{line: 2944, col: 13, offset: 93134},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 20, offset: 93085},
+												pos:        position{line: 2944, col: 20, offset: 93141},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 29, offset: 93094},
+												pos:        position{line: 2944, col: 29, offset: 93150},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -42152,27 +42152,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2947, col: 26, offset: 93185},
+									pos: position{line: 2948, col: 26, offset: 93241},
 									expr: &actionExpr{
-										pos: position{line: 2943, col: 12, offset: 93077},
+										pos: position{line: 2944, col: 12, offset: 93133},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2943, col: 13, offset: 93078},
+											pos: position{line: 2944, col: 13, offset: 93134},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2943, col: 13, offset: 93078},
+													pos:        position{line: 2944, col: 13, offset: 93134},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2943, col: 20, offset: 93085},
+													pos:        position{line: 2944, col: 20, offset: 93141},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2943, col: 29, offset: 93094},
+													pos:        position{line: 2944, col: 29, offset: 93150},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -42193,23 +42193,23 @@ var g = &grammar{
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2524, col: 5, offset: 81230},
+						pos: position{line: 2525, col: 5, offset: 81286},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2524, col: 5, offset: 81230},
+							pos: position{line: 2525, col: 5, offset: 81286},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2524, col: 5, offset: 81230},
+									pos: position{line: 2525, col: 5, offset: 81286},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2527, col: 5, offset: 81306},
+									pos:   position{line: 2528, col: 5, offset: 81362},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2528, col: 9, offset: 81324},
+										pos: position{line: 2529, col: 9, offset: 81380},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2528, col: 10, offset: 81325},
+											pos:        position{line: 2529, col: 10, offset: 81381},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -42264,10 +42264,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2873, col: 12, offset: 91214},
+						pos: position{line: 2874, col: 12, offset: 91270},
 						run: (*parser).callonQuotedTextElement145,
 						expr: &charClassMatcher{
-							pos:        position{line: 2873, col: 12, offset: 91214},
+							pos:        position{line: 2874, col: 12, offset: 91270},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -42348,9 +42348,9 @@ var g = &grammar{
 					pos: position{line: 1925, col: 5, offset: 62188},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2951, col: 11, offset: 93240},
+							pos: position{line: 2952, col: 11, offset: 93296},
 							expr: &anyMatcher{
-								line: 2951, col: 13, offset: 93242,
+								line: 2952, col: 13, offset: 93298,
 							},
 						},
 						&notExpr{
@@ -42437,7 +42437,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 1950, col: 7, offset: 62913},
 								expr: &charClassMatcher{
-									pos:        position{line: 2824, col: 13, offset: 90001},
+									pos:        position{line: 2825, col: 13, offset: 90057},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42461,10 +42461,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 1960, col: 5, offset: 63198},
 							expr: &actionExpr{
-								pos: position{line: 2934, col: 10, offset: 92906},
+								pos: position{line: 2935, col: 10, offset: 92962},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2934, col: 10, offset: 92906},
+									pos:        position{line: 2935, col: 10, offset: 92962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42501,9 +42501,9 @@ var g = &grammar{
 					pos: position{line: 1969, col: 5, offset: 63457},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2951, col: 11, offset: 93240},
+							pos: position{line: 2952, col: 11, offset: 93296},
 							expr: &anyMatcher{
-								line: 2951, col: 13, offset: 93242,
+								line: 2952, col: 13, offset: 93298,
 							},
 						},
 						&notExpr{
@@ -42535,7 +42535,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 1950, col: 7, offset: 62913},
 											expr: &charClassMatcher{
-												pos:        position{line: 2824, col: 13, offset: 90001},
+												pos:        position{line: 2825, col: 13, offset: 90057},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42787,9 +42787,9 @@ var g = &grammar{
 					pos: position{line: 2021, col: 5, offset: 65281},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2951, col: 11, offset: 93240},
+							pos: position{line: 2952, col: 11, offset: 93296},
 							expr: &anyMatcher{
-								line: 2951, col: 13, offset: 93242,
+								line: 2952, col: 13, offset: 93298,
 							},
 						},
 						&notExpr{
@@ -42876,7 +42876,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 2047, col: 7, offset: 66012},
 								expr: &charClassMatcher{
-									pos:        position{line: 2824, col: 13, offset: 90001},
+									pos:        position{line: 2825, col: 13, offset: 90057},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42900,10 +42900,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2057, col: 5, offset: 66309},
 							expr: &actionExpr{
-								pos: position{line: 2934, col: 10, offset: 92906},
+								pos: position{line: 2935, col: 10, offset: 92962},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2934, col: 10, offset: 92906},
+									pos:        position{line: 2935, col: 10, offset: 92962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42940,9 +42940,9 @@ var g = &grammar{
 					pos: position{line: 2066, col: 5, offset: 66571},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2951, col: 11, offset: 93240},
+							pos: position{line: 2952, col: 11, offset: 93296},
 							expr: &anyMatcher{
-								line: 2951, col: 13, offset: 93242,
+								line: 2952, col: 13, offset: 93298,
 							},
 						},
 						&notExpr{
@@ -42974,7 +42974,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 2047, col: 7, offset: 66012},
 											expr: &charClassMatcher{
-												pos:        position{line: 2824, col: 13, offset: 90001},
+												pos:        position{line: 2825, col: 13, offset: 90057},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43226,9 +43226,9 @@ var g = &grammar{
 					pos: position{line: 2118, col: 5, offset: 68572},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2951, col: 11, offset: 93240},
+							pos: position{line: 2952, col: 11, offset: 93296},
 							expr: &anyMatcher{
-								line: 2951, col: 13, offset: 93242,
+								line: 2952, col: 13, offset: 93298,
 							},
 						},
 						&notExpr{
@@ -43280,7 +43280,7 @@ var g = &grammar{
 						expr: &notExpr{
 							pos: position{line: 2145, col: 7, offset: 69365},
 							expr: &charClassMatcher{
-								pos:        position{line: 2824, col: 13, offset: 90001},
+								pos:        position{line: 2825, col: 13, offset: 90057},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -43350,10 +43350,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2156, col: 5, offset: 69686},
 							expr: &actionExpr{
-								pos: position{line: 2934, col: 10, offset: 92906},
+								pos: position{line: 2935, col: 10, offset: 92962},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2934, col: 10, offset: 92906},
+									pos:        position{line: 2935, col: 10, offset: 92962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43390,9 +43390,9 @@ var g = &grammar{
 					pos: position{line: 2165, col: 5, offset: 69954},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2951, col: 11, offset: 93240},
+							pos: position{line: 2952, col: 11, offset: 93296},
 							expr: &anyMatcher{
-								line: 2951, col: 13, offset: 93242,
+								line: 2952, col: 13, offset: 93298,
 							},
 						},
 						&notExpr{
@@ -43643,9 +43643,9 @@ var g = &grammar{
 					pos: position{line: 2217, col: 5, offset: 71838},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2951, col: 11, offset: 93240},
+							pos: position{line: 2952, col: 11, offset: 93296},
 							expr: &anyMatcher{
-								line: 2951, col: 13, offset: 93242,
+								line: 2952, col: 13, offset: 93298,
 							},
 						},
 						&notExpr{
@@ -43732,7 +43732,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 2242, col: 7, offset: 72567},
 								expr: &charClassMatcher{
-									pos:        position{line: 2824, col: 13, offset: 90001},
+									pos:        position{line: 2825, col: 13, offset: 90057},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43756,10 +43756,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2252, col: 5, offset: 72864},
 							expr: &actionExpr{
-								pos: position{line: 2934, col: 10, offset: 92906},
+								pos: position{line: 2935, col: 10, offset: 92962},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2934, col: 10, offset: 92906},
+									pos:        position{line: 2935, col: 10, offset: 92962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43796,9 +43796,9 @@ var g = &grammar{
 					pos: position{line: 2261, col: 5, offset: 73127},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2951, col: 11, offset: 93240},
+							pos: position{line: 2952, col: 11, offset: 93296},
 							expr: &anyMatcher{
-								line: 2951, col: 13, offset: 93242,
+								line: 2952, col: 13, offset: 93298,
 							},
 						},
 						&notExpr{
@@ -43830,7 +43830,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 2242, col: 7, offset: 72567},
 											expr: &charClassMatcher{
-												pos:        position{line: 2824, col: 13, offset: 90001},
+												pos:        position{line: 2825, col: 13, offset: 90057},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44300,12 +44300,12 @@ var g = &grammar{
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2938, col: 11, offset: 92967},
+							pos: position{line: 2939, col: 11, offset: 93023},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2938, col: 11, offset: 92967},
+								pos: position{line: 2939, col: 11, offset: 93023},
 								expr: &charClassMatcher{
-									pos:        position{line: 2938, col: 11, offset: 92967},
+									pos:        position{line: 2939, col: 11, offset: 93023},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44322,28 +44322,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2956, col: 8, offset: 93304},
+							pos: position{line: 2957, col: 8, offset: 93360},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2943, col: 12, offset: 93077},
+									pos: position{line: 2944, col: 12, offset: 93133},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2943, col: 13, offset: 93078},
+										pos: position{line: 2944, col: 13, offset: 93134},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2943, col: 13, offset: 93078},
+												pos:        position{line: 2944, col: 13, offset: 93134},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 20, offset: 93085},
+												pos:        position{line: 2944, col: 20, offset: 93141},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 29, offset: 93094},
+												pos:        position{line: 2944, col: 29, offset: 93150},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -44352,9 +44352,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2953, col: 8, offset: 93254},
+									pos: position{line: 2954, col: 8, offset: 93310},
 									expr: &anyMatcher{
-										line: 2953, col: 9, offset: 93255,
+										line: 2954, col: 9, offset: 93311,
 									},
 								},
 							},
@@ -44403,28 +44403,28 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2383, col: 5, offset: 77193},
 							expr: &choiceExpr{
-								pos: position{line: 2956, col: 8, offset: 93304},
+								pos: position{line: 2957, col: 8, offset: 93360},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2943, col: 12, offset: 93077},
+										pos: position{line: 2944, col: 12, offset: 93133},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2943, col: 13, offset: 93078},
+											pos: position{line: 2944, col: 13, offset: 93134},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2943, col: 13, offset: 93078},
+													pos:        position{line: 2944, col: 13, offset: 93134},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2943, col: 20, offset: 93085},
+													pos:        position{line: 2944, col: 20, offset: 93141},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2943, col: 29, offset: 93094},
+													pos:        position{line: 2944, col: 29, offset: 93150},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44433,9 +44433,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2953, col: 8, offset: 93254},
+										pos: position{line: 2954, col: 8, offset: 93310},
 										expr: &anyMatcher{
-											line: 2953, col: 9, offset: 93255,
+											line: 2954, col: 9, offset: 93311,
 										},
 									},
 								},
@@ -44448,21 +44448,21 @@ var g = &grammar{
 								pos: position{line: 2385, col: 9, offset: 77220},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2833, col: 5, offset: 90148},
+										pos: position{line: 2834, col: 5, offset: 90204},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2833, col: 5, offset: 90148},
+											pos: position{line: 2834, col: 5, offset: 90204},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2833, col: 5, offset: 90148},
+													pos:   position{line: 2834, col: 5, offset: 90204},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2833, col: 11, offset: 90154},
+														pos: position{line: 2834, col: 11, offset: 90210},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2833, col: 11, offset: 90154},
+															pos: position{line: 2834, col: 11, offset: 90210},
 															expr: &charClassMatcher{
-																pos:        position{line: 2833, col: 11, offset: 90154},
+																pos:        position{line: 2834, col: 11, offset: 90210},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44472,36 +44472,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2836, col: 5, offset: 90212},
+													pos: position{line: 2837, col: 5, offset: 90268},
 													expr: &seqExpr{
-														pos: position{line: 2837, col: 9, offset: 90223},
+														pos: position{line: 2838, col: 9, offset: 90279},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2837, col: 9, offset: 90223},
+																pos:        position{line: 2838, col: 9, offset: 90279},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2838, col: 9, offset: 90272},
+																pos: position{line: 2839, col: 9, offset: 90328},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2842, col: 5, offset: 90352},
+													pos: position{line: 2843, col: 5, offset: 90408},
 													expr: &seqExpr{
-														pos: position{line: 2843, col: 9, offset: 90363},
+														pos: position{line: 2844, col: 9, offset: 90419},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2843, col: 9, offset: 90363},
+																pos:        position{line: 2844, col: 9, offset: 90419},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2843, col: 13, offset: 90367},
+																pos:        position{line: 2844, col: 13, offset: 90423},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44514,12 +44514,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2938, col: 11, offset: 92967},
+										pos: position{line: 2939, col: 11, offset: 93023},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2938, col: 11, offset: 92967},
+											pos: position{line: 2939, col: 11, offset: 93023},
 											expr: &charClassMatcher{
-												pos:        position{line: 2938, col: 11, offset: 92967},
+												pos:        position{line: 2939, col: 11, offset: 93023},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -44528,21 +44528,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2555, col: 5, offset: 82429},
+										pos: position{line: 2556, col: 5, offset: 82485},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2555, col: 5, offset: 82429},
+											pos: position{line: 2556, col: 5, offset: 82485},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2555, col: 5, offset: 82429},
+													pos:        position{line: 2556, col: 5, offset: 82485},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2555, col: 10, offset: 82434},
+													pos: position{line: 2556, col: 10, offset: 82490},
 													expr: &charClassMatcher{
-														pos:        position{line: 2555, col: 11, offset: 82435},
+														pos:        position{line: 2556, col: 11, offset: 82491},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -44553,29 +44553,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2561, col: 5, offset: 82627},
+										pos: position{line: 2562, col: 5, offset: 82683},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2561, col: 5, offset: 82627},
+											pos: position{line: 2562, col: 5, offset: 82683},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2561, col: 5, offset: 82627},
+													pos: position{line: 2562, col: 5, offset: 82683},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2564, col: 5, offset: 82698},
+													pos: position{line: 2565, col: 5, offset: 82754},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2568, col: 5, offset: 82823},
+													pos:        position{line: 2569, col: 5, offset: 82879},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2568, col: 9, offset: 82827},
+													pos: position{line: 2569, col: 9, offset: 82883},
 													expr: &charClassMatcher{
-														pos:        position{line: 2568, col: 10, offset: 82828},
+														pos:        position{line: 2569, col: 10, offset: 82884},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -44590,27 +44590,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2851, col: 5, offset: 90560},
+										pos: position{line: 2852, col: 5, offset: 90616},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2852, col: 9, offset: 90570},
+											pos: position{line: 2853, col: 9, offset: 90626},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2852, col: 10, offset: 90571},
+													pos:        position{line: 2853, col: 10, offset: 90627},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2854, col: 13, offset: 90668},
+													pos: position{line: 2855, col: 13, offset: 90724},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2854, col: 13, offset: 90668},
+															pos: position{line: 2855, col: 13, offset: 90724},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2857, col: 13, offset: 90768},
+															pos:        position{line: 2858, col: 13, offset: 90824},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -44618,20 +44618,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2857, col: 19, offset: 90774},
+													pos:        position{line: 2858, col: 19, offset: 90830},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2860, col: 13, offset: 90812},
+													pos: position{line: 2861, col: 13, offset: 90868},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2860, col: 13, offset: 90812},
+															pos: position{line: 2861, col: 13, offset: 90868},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2863, col: 14, offset: 90905},
+															pos:        position{line: 2864, col: 14, offset: 90961},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -44640,18 +44640,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2865, col: 12, offset: 90949},
+													pos: position{line: 2866, col: 12, offset: 91005},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2865, col: 12, offset: 90949},
+															pos:        position{line: 2866, col: 12, offset: 91005},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2865, col: 16, offset: 90953},
+															pos: position{line: 2866, col: 16, offset: 91009},
 															expr: &litMatcher{
-																pos:        position{line: 2865, col: 17, offset: 90954},
+																pos:        position{line: 2866, col: 17, offset: 91010},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -44675,23 +44675,23 @@ var g = &grammar{
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2524, col: 5, offset: 81230},
+										pos: position{line: 2525, col: 5, offset: 81286},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2524, col: 5, offset: 81230},
+											pos: position{line: 2525, col: 5, offset: 81286},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2524, col: 5, offset: 81230},
+													pos: position{line: 2525, col: 5, offset: 81286},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2527, col: 5, offset: 81306},
+													pos:   position{line: 2528, col: 5, offset: 81362},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2528, col: 9, offset: 81324},
+														pos: position{line: 2529, col: 9, offset: 81380},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2528, col: 10, offset: 81325},
+															pos:        position{line: 2529, col: 10, offset: 81381},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45566,10 +45566,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 2410, col: 26, offset: 78016},
 													expr: &actionExpr{
-														pos: position{line: 2934, col: 10, offset: 92906},
+														pos: position{line: 2935, col: 10, offset: 92962},
 														run: (*parser).callonSectionTitleElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2934, col: 10, offset: 92906},
+															pos:        position{line: 2935, col: 10, offset: 92962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -45580,28 +45580,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 2410, col: 33, offset: 78023},
 													expr: &choiceExpr{
-														pos: position{line: 2956, col: 8, offset: 93304},
+														pos: position{line: 2957, col: 8, offset: 93360},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2943, col: 12, offset: 93077},
+																pos: position{line: 2944, col: 12, offset: 93133},
 																run: (*parser).callonSectionTitleElement247,
 																expr: &choiceExpr{
-																	pos: position{line: 2943, col: 13, offset: 93078},
+																	pos: position{line: 2944, col: 13, offset: 93134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 13, offset: 93078},
+																			pos:        position{line: 2944, col: 13, offset: 93134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 20, offset: 93085},
+																			pos:        position{line: 2944, col: 20, offset: 93141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2943, col: 29, offset: 93094},
+																			pos:        position{line: 2944, col: 29, offset: 93150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -45610,9 +45610,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2953, col: 8, offset: 93254},
+																pos: position{line: 2954, col: 8, offset: 93310},
 																expr: &anyMatcher{
-																	line: 2953, col: 9, offset: 93255,
+																	line: 2954, col: 9, offset: 93311,
 																},
 															},
 														},
@@ -45637,12 +45637,12 @@ var g = &grammar{
 													pos:   position{line: 1278, col: 14, offset: 39876},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2919, col: 7, offset: 92558},
+														pos: position{line: 2920, col: 7, offset: 92614},
 														run: (*parser).callonSectionTitleElement258,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2919, col: 7, offset: 92558},
+															pos: position{line: 2920, col: 7, offset: 92614},
 															expr: &charClassMatcher{
-																pos:        position{line: 2919, col: 7, offset: 92558},
+																pos:        position{line: 2920, col: 7, offset: 92614},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45676,12 +45676,12 @@ var g = &grammar{
 													pos:   position{line: 1283, col: 10, offset: 40008},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2919, col: 7, offset: 92558},
+														pos: position{line: 2920, col: 7, offset: 92614},
 														run: (*parser).callonSectionTitleElement266,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2919, col: 7, offset: 92558},
+															pos: position{line: 2920, col: 7, offset: 92614},
 															expr: &charClassMatcher{
-																pos:        position{line: 2919, col: 7, offset: 92558},
+																pos:        position{line: 2920, col: 7, offset: 92614},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45704,10 +45704,10 @@ var g = &grammar{
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2873, col: 12, offset: 91214},
+										pos: position{line: 2874, col: 12, offset: 91270},
 										run: (*parser).callonSectionTitleElement271,
 										expr: &charClassMatcher{
-											pos:        position{line: 2873, col: 12, offset: 91214},
+											pos:        position{line: 2874, col: 12, offset: 91270},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45742,9 +45742,9 @@ var g = &grammar{
 										pos: position{line: 2423, col: 9, offset: 78407},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2951, col: 11, offset: 93240},
+												pos: position{line: 2952, col: 11, offset: 93296},
 												expr: &anyMatcher{
-													line: 2951, col: 13, offset: 93242,
+													line: 2952, col: 13, offset: 93298,
 												},
 											},
 											&labeledExpr{
@@ -45754,21 +45754,21 @@ var g = &grammar{
 													pos: position{line: 2425, col: 13, offset: 78444},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2833, col: 5, offset: 90148},
+															pos: position{line: 2834, col: 5, offset: 90204},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2833, col: 5, offset: 90148},
+																pos: position{line: 2834, col: 5, offset: 90204},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2833, col: 5, offset: 90148},
+																		pos:   position{line: 2834, col: 5, offset: 90204},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2833, col: 11, offset: 90154},
+																			pos: position{line: 2834, col: 11, offset: 90210},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2833, col: 11, offset: 90154},
+																				pos: position{line: 2834, col: 11, offset: 90210},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2833, col: 11, offset: 90154},
+																					pos:        position{line: 2834, col: 11, offset: 90210},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45778,36 +45778,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2836, col: 5, offset: 90212},
+																		pos: position{line: 2837, col: 5, offset: 90268},
 																		expr: &seqExpr{
-																			pos: position{line: 2837, col: 9, offset: 90223},
+																			pos: position{line: 2838, col: 9, offset: 90279},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2837, col: 9, offset: 90223},
+																					pos:        position{line: 2838, col: 9, offset: 90279},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2838, col: 9, offset: 90272},
+																					pos: position{line: 2839, col: 9, offset: 90328},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2842, col: 5, offset: 90352},
+																		pos: position{line: 2843, col: 5, offset: 90408},
 																		expr: &seqExpr{
-																			pos: position{line: 2843, col: 9, offset: 90363},
+																			pos: position{line: 2844, col: 9, offset: 90419},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2843, col: 9, offset: 90363},
+																					pos:        position{line: 2844, col: 9, offset: 90419},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2843, col: 13, offset: 90367},
+																					pos:        position{line: 2844, col: 13, offset: 90423},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45820,12 +45820,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2938, col: 11, offset: 92967},
+															pos: position{line: 2939, col: 11, offset: 93023},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2938, col: 11, offset: 92967},
+																pos: position{line: 2939, col: 11, offset: 93023},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2938, col: 11, offset: 92967},
+																	pos:        position{line: 2939, col: 11, offset: 93023},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45838,21 +45838,21 @@ var g = &grammar{
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2555, col: 5, offset: 82429},
+															pos: position{line: 2556, col: 5, offset: 82485},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2555, col: 5, offset: 82429},
+																pos: position{line: 2556, col: 5, offset: 82485},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2555, col: 5, offset: 82429},
+																		pos:        position{line: 2556, col: 5, offset: 82485},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2555, col: 10, offset: 82434},
+																		pos: position{line: 2556, col: 10, offset: 82490},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2555, col: 11, offset: 82435},
+																			pos:        position{line: 2556, col: 11, offset: 82491},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45863,29 +45863,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2561, col: 5, offset: 82627},
+															pos: position{line: 2562, col: 5, offset: 82683},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2561, col: 5, offset: 82627},
+																pos: position{line: 2562, col: 5, offset: 82683},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2561, col: 5, offset: 82627},
+																		pos: position{line: 2562, col: 5, offset: 82683},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2564, col: 5, offset: 82698},
+																		pos: position{line: 2565, col: 5, offset: 82754},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2568, col: 5, offset: 82823},
+																		pos:        position{line: 2569, col: 5, offset: 82879},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2568, col: 9, offset: 82827},
+																		pos: position{line: 2569, col: 9, offset: 82883},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2568, col: 10, offset: 82828},
+																			pos:        position{line: 2569, col: 10, offset: 82884},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45896,27 +45896,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2851, col: 5, offset: 90560},
+															pos: position{line: 2852, col: 5, offset: 90616},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2852, col: 9, offset: 90570},
+																pos: position{line: 2853, col: 9, offset: 90626},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90571},
+																		pos:        position{line: 2853, col: 10, offset: 90627},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2854, col: 13, offset: 90668},
+																		pos: position{line: 2855, col: 13, offset: 90724},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2854, col: 13, offset: 90668},
+																				pos: position{line: 2855, col: 13, offset: 90724},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2857, col: 13, offset: 90768},
+																				pos:        position{line: 2858, col: 13, offset: 90824},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45924,20 +45924,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2857, col: 19, offset: 90774},
+																		pos:        position{line: 2858, col: 19, offset: 90830},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2860, col: 13, offset: 90812},
+																		pos: position{line: 2861, col: 13, offset: 90868},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2860, col: 13, offset: 90812},
+																				pos: position{line: 2861, col: 13, offset: 90868},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2863, col: 14, offset: 90905},
+																				pos:        position{line: 2864, col: 14, offset: 90961},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45946,18 +45946,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2865, col: 12, offset: 90949},
+																		pos: position{line: 2866, col: 12, offset: 91005},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2865, col: 12, offset: 90949},
+																				pos:        position{line: 2866, col: 12, offset: 91005},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2865, col: 16, offset: 90953},
+																				pos: position{line: 2866, col: 16, offset: 91009},
 																				expr: &litMatcher{
-																					pos:        position{line: 2865, col: 17, offset: 90954},
+																					pos:        position{line: 2866, col: 17, offset: 91010},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45969,25 +45969,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2943, col: 12, offset: 93077},
+															pos: position{line: 2944, col: 12, offset: 93133},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2943, col: 13, offset: 93078},
+																pos: position{line: 2944, col: 13, offset: 93134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 13, offset: 93078},
+																		pos:        position{line: 2944, col: 13, offset: 93134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 20, offset: 93085},
+																		pos:        position{line: 2944, col: 20, offset: 93141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2943, col: 29, offset: 93094},
+																		pos:        position{line: 2944, col: 29, offset: 93150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -46354,23 +46354,23 @@ var g = &grammar{
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2524, col: 5, offset: 81230},
+															pos: position{line: 2525, col: 5, offset: 81286},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2524, col: 5, offset: 81230},
+																pos: position{line: 2525, col: 5, offset: 81286},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2524, col: 5, offset: 81230},
+																		pos: position{line: 2525, col: 5, offset: 81286},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2527, col: 5, offset: 81306},
+																		pos:   position{line: 2528, col: 5, offset: 81362},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2528, col: 9, offset: 81324},
+																			pos: position{line: 2529, col: 9, offset: 81380},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2528, col: 10, offset: 81325},
+																				pos:        position{line: 2529, col: 10, offset: 81381},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -46404,10 +46404,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1239, col: 5, offset: 38724},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92906},
+																			pos: position{line: 2935, col: 10, offset: 92962},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92906},
+																				pos:        position{line: 2935, col: 10, offset: 92962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46418,28 +46418,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1239, col: 12, offset: 38731},
 																		expr: &choiceExpr{
-																			pos: position{line: 2956, col: 8, offset: 93304},
+																			pos: position{line: 2957, col: 8, offset: 93360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93077},
+																					pos: position{line: 2944, col: 12, offset: 93133},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93078},
+																						pos: position{line: 2944, col: 13, offset: 93134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93078},
+																								pos:        position{line: 2944, col: 13, offset: 93134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93085},
+																								pos:        position{line: 2944, col: 20, offset: 93141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93094},
+																								pos:        position{line: 2944, col: 29, offset: 93150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46448,9 +46448,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2953, col: 8, offset: 93254},
+																					pos: position{line: 2954, col: 8, offset: 93310},
 																					expr: &anyMatcher{
-																						line: 2953, col: 9, offset: 93255,
+																						line: 2954, col: 9, offset: 93311,
 																					},
 																				},
 																			},
@@ -46507,10 +46507,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 91214},
+															pos: position{line: 2874, col: 12, offset: 91270},
 															run: (*parser).callonNormalGroup165,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 12, offset: 91214},
+																pos:        position{line: 2874, col: 12, offset: 91270},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -46526,9 +46526,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2953, col: 8, offset: 93254},
+							pos: position{line: 2954, col: 8, offset: 93310},
 							expr: &anyMatcher{
-								line: 2953, col: 9, offset: 93255,
+								line: 2954, col: 9, offset: 93311,
 							},
 						},
 					},
@@ -46556,9 +46556,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2953, col: 8, offset: 93254},
+							pos: position{line: 2954, col: 8, offset: 93310},
 							expr: &anyMatcher{
-								line: 2953, col: 9, offset: 93255,
+								line: 2954, col: 9, offset: 93311,
 							},
 						},
 					},
@@ -46575,9 +46575,9 @@ var g = &grammar{
 					pos: position{line: 2454, col: 5, offset: 79566},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2951, col: 11, offset: 93240},
+							pos: position{line: 2952, col: 11, offset: 93296},
 							expr: &anyMatcher{
-								line: 2951, col: 13, offset: 93242,
+								line: 2952, col: 13, offset: 93298,
 							},
 						},
 						&labeledExpr{
@@ -46587,21 +46587,21 @@ var g = &grammar{
 								pos: position{line: 2456, col: 9, offset: 79595},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2833, col: 5, offset: 90148},
+										pos: position{line: 2834, col: 5, offset: 90204},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2833, col: 5, offset: 90148},
+											pos: position{line: 2834, col: 5, offset: 90204},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2833, col: 5, offset: 90148},
+													pos:   position{line: 2834, col: 5, offset: 90204},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2833, col: 11, offset: 90154},
+														pos: position{line: 2834, col: 11, offset: 90210},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2833, col: 11, offset: 90154},
+															pos: position{line: 2834, col: 11, offset: 90210},
 															expr: &charClassMatcher{
-																pos:        position{line: 2833, col: 11, offset: 90154},
+																pos:        position{line: 2834, col: 11, offset: 90210},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46611,36 +46611,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2836, col: 5, offset: 90212},
+													pos: position{line: 2837, col: 5, offset: 90268},
 													expr: &seqExpr{
-														pos: position{line: 2837, col: 9, offset: 90223},
+														pos: position{line: 2838, col: 9, offset: 90279},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2837, col: 9, offset: 90223},
+																pos:        position{line: 2838, col: 9, offset: 90279},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2838, col: 9, offset: 90272},
+																pos: position{line: 2839, col: 9, offset: 90328},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2842, col: 5, offset: 90352},
+													pos: position{line: 2843, col: 5, offset: 90408},
 													expr: &seqExpr{
-														pos: position{line: 2843, col: 9, offset: 90363},
+														pos: position{line: 2844, col: 9, offset: 90419},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2843, col: 9, offset: 90363},
+																pos:        position{line: 2844, col: 9, offset: 90419},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2843, col: 13, offset: 90367},
+																pos:        position{line: 2844, col: 13, offset: 90423},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46653,10 +46653,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2934, col: 10, offset: 92906},
+										pos: position{line: 2935, col: 10, offset: 92962},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2934, col: 10, offset: 92906},
+											pos:        position{line: 2935, col: 10, offset: 92962},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -46668,27 +46668,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2851, col: 5, offset: 90560},
+										pos: position{line: 2852, col: 5, offset: 90616},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2852, col: 9, offset: 90570},
+											pos: position{line: 2853, col: 9, offset: 90626},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2852, col: 10, offset: 90571},
+													pos:        position{line: 2853, col: 10, offset: 90627},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2854, col: 13, offset: 90668},
+													pos: position{line: 2855, col: 13, offset: 90724},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2854, col: 13, offset: 90668},
+															pos: position{line: 2855, col: 13, offset: 90724},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2857, col: 13, offset: 90768},
+															pos:        position{line: 2858, col: 13, offset: 90824},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46696,20 +46696,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2857, col: 19, offset: 90774},
+													pos:        position{line: 2858, col: 19, offset: 90830},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2860, col: 13, offset: 90812},
+													pos: position{line: 2861, col: 13, offset: 90868},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2860, col: 13, offset: 90812},
+															pos: position{line: 2861, col: 13, offset: 90868},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2863, col: 14, offset: 90905},
+															pos:        position{line: 2864, col: 14, offset: 90961},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46718,18 +46718,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2865, col: 12, offset: 90949},
+													pos: position{line: 2866, col: 12, offset: 91005},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2865, col: 12, offset: 90949},
+															pos:        position{line: 2866, col: 12, offset: 91005},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2865, col: 16, offset: 90953},
+															pos: position{line: 2866, col: 16, offset: 91009},
 															expr: &litMatcher{
-																pos:        position{line: 2865, col: 17, offset: 90954},
+																pos:        position{line: 2866, col: 17, offset: 91010},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46748,24 +46748,28 @@ var g = &grammar{
 										pos:  position{line: 2461, col: 11, offset: 79722},
 										name: "InlineMacro",
 									},
+									&ruleRefExpr{
+										pos:  position{line: 2462, col: 11, offset: 79744},
+										name: "InlinePassthrough",
+									},
 									&actionExpr{
-										pos: position{line: 2524, col: 5, offset: 81230},
-										run: (*parser).callonAttributeStructuredValueElement40,
+										pos: position{line: 2525, col: 5, offset: 81286},
+										run: (*parser).callonAttributeStructuredValueElement41,
 										expr: &seqExpr{
-											pos: position{line: 2524, col: 5, offset: 81230},
+											pos: position{line: 2525, col: 5, offset: 81286},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2524, col: 5, offset: 81230},
-													run: (*parser).callonAttributeStructuredValueElement42,
+													pos: position{line: 2525, col: 5, offset: 81286},
+													run: (*parser).callonAttributeStructuredValueElement43,
 												},
 												&labeledExpr{
-													pos:   position{line: 2527, col: 5, offset: 81306},
+													pos:   position{line: 2528, col: 5, offset: 81362},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2528, col: 9, offset: 81324},
-														run: (*parser).callonAttributeStructuredValueElement44,
+														pos: position{line: 2529, col: 9, offset: 81380},
+														run: (*parser).callonAttributeStructuredValueElement45,
 														expr: &charClassMatcher{
-															pos:        position{line: 2528, col: 10, offset: 81325},
+															pos:        position{line: 2529, col: 10, offset: 81381},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46778,7 +46782,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1223, col: 23, offset: 38060},
-										run: (*parser).callonAttributeStructuredValueElement46,
+										run: (*parser).callonAttributeStructuredValueElement47,
 										expr: &seqExpr{
 											pos: position{line: 1223, col: 23, offset: 38060},
 											exprs: []interface{}{
@@ -46793,7 +46797,7 @@ var g = &grammar{
 													label: "ref",
 													expr: &actionExpr{
 														pos: position{line: 1223, col: 56, offset: 38093},
-														run: (*parser).callonAttributeStructuredValueElement50,
+														run: (*parser).callonAttributeStructuredValueElement51,
 														expr: &oneOrMoreExpr{
 															pos: position{line: 1223, col: 56, offset: 38093},
 															expr: &charClassMatcher{
@@ -46814,31 +46818,31 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1223, col: 123, offset: 38160},
-													run: (*parser).callonAttributeStructuredValueElement54,
+													run: (*parser).callonAttributeStructuredValueElement55,
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2943, col: 12, offset: 93077},
-										run: (*parser).callonAttributeStructuredValueElement55,
+										pos: position{line: 2944, col: 12, offset: 93133},
+										run: (*parser).callonAttributeStructuredValueElement56,
 										expr: &choiceExpr{
-											pos: position{line: 2943, col: 13, offset: 93078},
+											pos: position{line: 2944, col: 13, offset: 93134},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2943, col: 13, offset: 93078},
+													pos:        position{line: 2944, col: 13, offset: 93134},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2943, col: 20, offset: 93085},
+													pos:        position{line: 2944, col: 20, offset: 93141},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2943, col: 29, offset: 93094},
+													pos:        position{line: 2944, col: 29, offset: 93150},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46847,10 +46851,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2873, col: 12, offset: 91214},
-										run: (*parser).callonAttributeStructuredValueElement60,
+										pos: position{line: 2874, col: 12, offset: 91270},
+										run: (*parser).callonAttributeStructuredValueElement61,
 										expr: &charClassMatcher{
-											pos:        position{line: 2873, col: 12, offset: 91214},
+											pos:        position{line: 2874, col: 12, offset: 91270},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46866,49 +46870,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2472, col: 1, offset: 79992},
+			pos:  position{line: 2473, col: 1, offset: 80048},
 			expr: &actionExpr{
-				pos: position{line: 2474, col: 5, offset: 80074},
+				pos: position{line: 2475, col: 5, offset: 80130},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2474, col: 5, offset: 80074},
+					pos: position{line: 2475, col: 5, offset: 80130},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2474, col: 5, offset: 80074},
+							pos: position{line: 2475, col: 5, offset: 80130},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2477, col: 5, offset: 80139},
+							pos:   position{line: 2478, col: 5, offset: 80195},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2478, col: 9, offset: 80157},
+								pos: position{line: 2479, col: 9, offset: 80213},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2478, col: 9, offset: 80157},
+										pos:  position{line: 2479, col: 9, offset: 80213},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2479, col: 11, offset: 80178},
+										pos:  position{line: 2480, col: 11, offset: 80234},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2480, col: 11, offset: 80201},
+										pos:  position{line: 2481, col: 11, offset: 80257},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2481, col: 11, offset: 80217},
+										pos:  position{line: 2482, col: 11, offset: 80273},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2482, col: 11, offset: 80246},
+										pos:  position{line: 2483, col: 11, offset: 80302},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2483, col: 11, offset: 80272},
+										pos:  position{line: 2484, col: 11, offset: 80328},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2484, col: 11, offset: 80298},
+										pos:  position{line: 2485, col: 11, offset: 80354},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -46927,12 +46931,12 @@ var g = &grammar{
 													pos:   position{line: 1278, col: 14, offset: 39876},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2919, col: 7, offset: 92558},
+														pos: position{line: 2920, col: 7, offset: 92614},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2919, col: 7, offset: 92558},
+															pos: position{line: 2920, col: 7, offset: 92614},
 															expr: &charClassMatcher{
-																pos:        position{line: 2919, col: 7, offset: 92558},
+																pos:        position{line: 2920, col: 7, offset: 92614},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46966,12 +46970,12 @@ var g = &grammar{
 													pos:   position{line: 1283, col: 10, offset: 40008},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2919, col: 7, offset: 92558},
+														pos: position{line: 2920, col: 7, offset: 92614},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2919, col: 7, offset: 92558},
+															pos: position{line: 2920, col: 7, offset: 92614},
 															expr: &charClassMatcher{
-																pos:        position{line: 2919, col: 7, offset: 92558},
+																pos:        position{line: 2920, col: 7, offset: 92614},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47013,17 +47017,17 @@ var g = &grammar{
 																pos: position{line: 1329, col: 31, offset: 41830},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2824, col: 13, offset: 90001},
+																		pos:        position{line: 2825, col: 13, offset: 90057},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2934, col: 10, offset: 92906},
+																		pos: position{line: 2935, col: 10, offset: 92962},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2934, col: 10, offset: 92906},
+																			pos:        position{line: 2935, col: 10, offset: 92962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -47049,10 +47053,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1323, col: 12, offset: 41544},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92906},
+																			pos: position{line: 2935, col: 10, offset: 92962},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92906},
+																				pos:        position{line: 2935, col: 10, offset: 92962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47069,10 +47073,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1323, col: 23, offset: 41555},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92906},
+																			pos: position{line: 2935, col: 10, offset: 92962},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92906},
+																				pos:        position{line: 2935, col: 10, offset: 92962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47092,17 +47096,17 @@ var g = &grammar{
 																					pos: position{line: 1329, col: 31, offset: 41830},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2824, col: 13, offset: 90001},
+																							pos:        position{line: 2825, col: 13, offset: 90057},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92906},
+																							pos: position{line: 2935, col: 10, offset: 92962},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92906},
+																								pos:        position{line: 2935, col: 10, offset: 92962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47133,10 +47137,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1324, col: 12, offset: 41636},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92906},
+																			pos: position{line: 2935, col: 10, offset: 92962},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92906},
+																				pos:        position{line: 2935, col: 10, offset: 92962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47153,10 +47157,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1324, col: 23, offset: 41647},
 																		expr: &actionExpr{
-																			pos: position{line: 2934, col: 10, offset: 92906},
+																			pos: position{line: 2935, col: 10, offset: 92962},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2934, col: 10, offset: 92906},
+																				pos:        position{line: 2935, col: 10, offset: 92962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47176,17 +47180,17 @@ var g = &grammar{
 																					pos: position{line: 1329, col: 31, offset: 41830},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2824, col: 13, offset: 90001},
+																							pos:        position{line: 2825, col: 13, offset: 90057},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2934, col: 10, offset: 92906},
+																							pos: position{line: 2935, col: 10, offset: 92962},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2934, col: 10, offset: 92906},
+																								pos:        position{line: 2935, col: 10, offset: 92962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47213,15 +47217,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2487, col: 11, offset: 80377},
+										pos:  position{line: 2488, col: 11, offset: 80433},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2488, col: 11, offset: 80397},
+										pos:  position{line: 2489, col: 11, offset: 80453},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2489, col: 11, offset: 80420},
+										pos:  position{line: 2490, col: 11, offset: 80476},
 										name: "InlineMenu",
 									},
 								},
@@ -47233,22 +47237,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2493, col: 1, offset: 80477},
+			pos:  position{line: 2494, col: 1, offset: 80533},
 			expr: &actionExpr{
-				pos: position{line: 2495, col: 5, offset: 80565},
+				pos: position{line: 2496, col: 5, offset: 80621},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2495, col: 5, offset: 80565},
+					pos: position{line: 2496, col: 5, offset: 80621},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2495, col: 5, offset: 80565},
+							pos: position{line: 2496, col: 5, offset: 80621},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2498, col: 5, offset: 80642},
+							pos:   position{line: 2499, col: 5, offset: 80698},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2499, col: 9, offset: 80660},
+								pos: position{line: 2500, col: 9, offset: 80716},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1409, col: 26, offset: 45215},
@@ -47303,10 +47307,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1415, col: 12, offset: 45651},
 																				expr: &actionExpr{
-																					pos: position{line: 2934, col: 10, offset: 92906},
+																					pos: position{line: 2935, col: 10, offset: 92962},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2934, col: 10, offset: 92906},
+																						pos:        position{line: 2935, col: 10, offset: 92962},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -47317,25 +47321,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1415, col: 19, offset: 45658},
 																				expr: &actionExpr{
-																					pos: position{line: 2943, col: 12, offset: 93077},
+																					pos: position{line: 2944, col: 12, offset: 93133},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2943, col: 13, offset: 93078},
+																						pos: position{line: 2944, col: 13, offset: 93134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 13, offset: 93078},
+																								pos:        position{line: 2944, col: 13, offset: 93134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 20, offset: 93085},
+																								pos:        position{line: 2944, col: 20, offset: 93141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2943, col: 29, offset: 93094},
+																								pos:        position{line: 2944, col: 29, offset: 93150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -47408,10 +47412,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1401, col: 64, offset: 44770},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92906},
+																				pos: position{line: 2935, col: 10, offset: 92962},
 																				run: (*parser).callonInlinePassthrough43,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92906},
+																					pos:        position{line: 2935, col: 10, offset: 92962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47422,25 +47426,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1401, col: 71, offset: 44777},
 																			expr: &actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonInlinePassthrough46,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47463,12 +47467,12 @@ var g = &grammar{
 																							pos: position{line: 1401, col: 86, offset: 44792},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2938, col: 11, offset: 92967},
+																									pos: position{line: 2939, col: 11, offset: 93023},
 																									run: (*parser).callonInlinePassthrough56,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2938, col: 11, offset: 92967},
+																										pos: position{line: 2939, col: 11, offset: 93023},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2938, col: 11, offset: 92967},
+																											pos:        position{line: 2939, col: 11, offset: 93023},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -47497,25 +47501,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1401, col: 151, offset: 44857},
 																						expr: &actionExpr{
-																							pos: position{line: 2943, col: 12, offset: 93077},
+																							pos: position{line: 2944, col: 12, offset: 93133},
 																							run: (*parser).callonInlinePassthrough63,
 																							expr: &choiceExpr{
-																								pos: position{line: 2943, col: 13, offset: 93078},
+																								pos: position{line: 2944, col: 13, offset: 93134},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 13, offset: 93078},
+																										pos:        position{line: 2944, col: 13, offset: 93134},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 20, offset: 93085},
+																										pos:        position{line: 2944, col: 20, offset: 93141},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2943, col: 29, offset: 93094},
+																										pos:        position{line: 2944, col: 29, offset: 93150},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -47542,10 +47546,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1403, col: 12, offset: 45017},
 																			expr: &actionExpr{
-																				pos: position{line: 2934, col: 10, offset: 92906},
+																				pos: position{line: 2935, col: 10, offset: 92962},
 																				run: (*parser).callonInlinePassthrough72,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2934, col: 10, offset: 92906},
+																					pos:        position{line: 2935, col: 10, offset: 92962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47556,25 +47560,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1403, col: 19, offset: 45024},
 																			expr: &actionExpr{
-																				pos: position{line: 2943, col: 12, offset: 93077},
+																				pos: position{line: 2944, col: 12, offset: 93133},
 																				run: (*parser).callonInlinePassthrough75,
 																				expr: &choiceExpr{
-																					pos: position{line: 2943, col: 13, offset: 93078},
+																					pos: position{line: 2944, col: 13, offset: 93134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 13, offset: 93078},
+																							pos:        position{line: 2944, col: 13, offset: 93134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 20, offset: 93085},
+																							pos:        position{line: 2944, col: 20, offset: 93141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2943, col: 29, offset: 93094},
+																							pos:        position{line: 2944, col: 29, offset: 93150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47610,7 +47614,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1397, col: 121, offset: 44593},
 													expr: &charClassMatcher{
-														pos:        position{line: 2824, col: 13, offset: 90001},
+														pos:        position{line: 2825, col: 13, offset: 90057},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -47621,7 +47625,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2499, col: 57, offset: 80708},
+										pos:  position{line: 2500, col: 57, offset: 80764},
 										name: "PassthroughMacro",
 									},
 								},
@@ -47633,16 +47637,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2504, col: 1, offset: 80768},
+			pos:  position{line: 2505, col: 1, offset: 80824},
 			expr: &seqExpr{
-				pos: position{line: 2506, col: 5, offset: 80844},
+				pos: position{line: 2507, col: 5, offset: 80900},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2506, col: 5, offset: 80844},
+						pos: position{line: 2507, col: 5, offset: 80900},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2509, col: 5, offset: 80909},
+						pos:  position{line: 2510, col: 5, offset: 80965},
 						name: "QuotedText",
 					},
 				},
@@ -47650,22 +47654,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2511, col: 1, offset: 80922},
+			pos:  position{line: 2512, col: 1, offset: 80978},
 			expr: &actionExpr{
-				pos: position{line: 2513, col: 5, offset: 81004},
+				pos: position{line: 2514, col: 5, offset: 81060},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2513, col: 5, offset: 81004},
+					pos: position{line: 2514, col: 5, offset: 81060},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2513, col: 5, offset: 81004},
+							pos: position{line: 2514, col: 5, offset: 81060},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2516, col: 5, offset: 81075},
+							pos:   position{line: 2517, col: 5, offset: 81131},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2517, col: 9, offset: 81093},
+								pos:  position{line: 2518, col: 9, offset: 81149},
 								name: "Symbol",
 							},
 						},
@@ -47675,103 +47679,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2572, col: 1, offset: 82880},
+			pos:  position{line: 2573, col: 1, offset: 82936},
 			expr: &choiceExpr{
-				pos: position{line: 2574, col: 5, offset: 82910},
+				pos: position{line: 2575, col: 5, offset: 82966},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2574, col: 5, offset: 82910},
+						pos: position{line: 2575, col: 5, offset: 82966},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2574, col: 5, offset: 82910},
+							pos: position{line: 2575, col: 5, offset: 82966},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2574, col: 5, offset: 82910},
+									pos:        position{line: 2575, col: 5, offset: 82966},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2574, col: 10, offset: 82915},
+									pos: position{line: 2575, col: 10, offset: 82971},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2574, col: 10, offset: 82915},
+											pos:  position{line: 2575, col: 10, offset: 82971},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2603, col: 14, offset: 84019},
+											pos: position{line: 2604, col: 14, offset: 84075},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2603, col: 14, offset: 84019},
+												pos:        position{line: 2604, col: 14, offset: 84075},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2607, col: 14, offset: 84085},
+											pos: position{line: 2608, col: 14, offset: 84141},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2607, col: 14, offset: 84085},
+												pos:        position{line: 2608, col: 14, offset: 84141},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2611, col: 15, offset: 84154},
+											pos: position{line: 2612, col: 15, offset: 84210},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2611, col: 15, offset: 84154},
+												pos:        position{line: 2612, col: 15, offset: 84210},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2615, col: 13, offset: 84219},
+											pos: position{line: 2616, col: 13, offset: 84275},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2615, col: 13, offset: 84219},
+												pos:        position{line: 2616, col: 13, offset: 84275},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2643, col: 21, offset: 84789},
+											pos: position{line: 2644, col: 21, offset: 84845},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2643, col: 21, offset: 84789},
+												pos:        position{line: 2644, col: 21, offset: 84845},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2622, col: 5, offset: 84375},
+											pos: position{line: 2623, col: 5, offset: 84431},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2622, col: 5, offset: 84375},
+												pos: position{line: 2623, col: 5, offset: 84431},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2622, col: 5, offset: 84375},
+														pos:        position{line: 2623, col: 5, offset: 84431},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2623, col: 5, offset: 84385},
+														pos: position{line: 2624, col: 5, offset: 84441},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2627, col: 6, offset: 84472},
+														pos: position{line: 2628, col: 6, offset: 84528},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2934, col: 10, offset: 92906},
+																pos: position{line: 2935, col: 10, offset: 92962},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2934, col: 10, offset: 92906},
+																	pos:        position{line: 2935, col: 10, offset: 92962},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47779,30 +47783,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2627, col: 14, offset: 84480},
+																pos: position{line: 2628, col: 14, offset: 84536},
 																expr: &choiceExpr{
-																	pos: position{line: 2956, col: 8, offset: 93304},
+																	pos: position{line: 2957, col: 8, offset: 93360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2943, col: 12, offset: 93077},
+																			pos: position{line: 2944, col: 12, offset: 93133},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2943, col: 13, offset: 93078},
+																				pos: position{line: 2944, col: 13, offset: 93134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 13, offset: 93078},
+																						pos:        position{line: 2944, col: 13, offset: 93134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 20, offset: 93085},
+																						pos:        position{line: 2944, col: 20, offset: 93141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2943, col: 29, offset: 93094},
+																						pos:        position{line: 2944, col: 29, offset: 93150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47811,9 +47815,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2953, col: 8, offset: 93254},
+																			pos: position{line: 2954, col: 8, offset: 93310},
 																			expr: &anyMatcher{
-																				line: 2953, col: 9, offset: 93255,
+																				line: 2954, col: 9, offset: 93311,
 																			},
 																		},
 																	},
@@ -47825,53 +47829,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2632, col: 5, offset: 84600},
+											pos: position{line: 2633, col: 5, offset: 84656},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2632, col: 5, offset: 84600},
+												pos: position{line: 2633, col: 5, offset: 84656},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2632, col: 5, offset: 84600},
+														pos:        position{line: 2633, col: 5, offset: 84656},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2633, col: 5, offset: 84610},
+														pos: position{line: 2634, col: 5, offset: 84666},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2637, col: 5, offset: 84699},
+														pos: position{line: 2638, col: 5, offset: 84755},
 														expr: &choiceExpr{
-															pos: position{line: 2637, col: 7, offset: 84701},
+															pos: position{line: 2638, col: 7, offset: 84757},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2824, col: 13, offset: 90001},
+																	pos:        position{line: 2825, col: 13, offset: 90057},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2943, col: 12, offset: 93077},
+																	pos: position{line: 2944, col: 12, offset: 93133},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2943, col: 13, offset: 93078},
+																		pos: position{line: 2944, col: 13, offset: 93134},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2943, col: 13, offset: 93078},
+																				pos:        position{line: 2944, col: 13, offset: 93134},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2943, col: 20, offset: 93085},
+																				pos:        position{line: 2944, col: 20, offset: 93141},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2943, col: 29, offset: 93094},
+																				pos:        position{line: 2944, col: 29, offset: 93150},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47880,9 +47884,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2953, col: 8, offset: 93254},
+																	pos: position{line: 2954, col: 8, offset: 93310},
 																	expr: &anyMatcher{
-																		line: 2953, col: 9, offset: 93255,
+																		line: 2954, col: 9, offset: 93311,
 																	},
 																},
 															},
@@ -47892,30 +47896,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2647, col: 20, offset: 84859},
+											pos: position{line: 2648, col: 20, offset: 84915},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2647, col: 20, offset: 84859},
+												pos:        position{line: 2648, col: 20, offset: 84915},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2651, col: 21, offset: 84930},
+											pos: position{line: 2652, col: 21, offset: 84986},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2651, col: 21, offset: 84930},
+												pos:        position{line: 2652, col: 21, offset: 84986},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2655, col: 20, offset: 85000},
+											pos: position{line: 2656, col: 20, offset: 85056},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2655, col: 20, offset: 85000},
+												pos:        position{line: 2656, col: 20, offset: 85056},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -47927,73 +47931,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2578, col: 7, offset: 83170},
+						pos:  position{line: 2579, col: 7, offset: 83226},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2603, col: 14, offset: 84019},
+						pos: position{line: 2604, col: 14, offset: 84075},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2603, col: 14, offset: 84019},
+							pos:        position{line: 2604, col: 14, offset: 84075},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2607, col: 14, offset: 84085},
+						pos: position{line: 2608, col: 14, offset: 84141},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2607, col: 14, offset: 84085},
+							pos:        position{line: 2608, col: 14, offset: 84141},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2611, col: 15, offset: 84154},
+						pos: position{line: 2612, col: 15, offset: 84210},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2611, col: 15, offset: 84154},
+							pos:        position{line: 2612, col: 15, offset: 84210},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2615, col: 13, offset: 84219},
+						pos: position{line: 2616, col: 13, offset: 84275},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2615, col: 13, offset: 84219},
+							pos:        position{line: 2616, col: 13, offset: 84275},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2622, col: 5, offset: 84375},
+						pos: position{line: 2623, col: 5, offset: 84431},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2622, col: 5, offset: 84375},
+							pos: position{line: 2623, col: 5, offset: 84431},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2622, col: 5, offset: 84375},
+									pos:        position{line: 2623, col: 5, offset: 84431},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2623, col: 5, offset: 84385},
+									pos: position{line: 2624, col: 5, offset: 84441},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2627, col: 6, offset: 84472},
+									pos: position{line: 2628, col: 6, offset: 84528},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2934, col: 10, offset: 92906},
+											pos: position{line: 2935, col: 10, offset: 92962},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2934, col: 10, offset: 92906},
+												pos:        position{line: 2935, col: 10, offset: 92962},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -48001,30 +48005,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2627, col: 14, offset: 84480},
+											pos: position{line: 2628, col: 14, offset: 84536},
 											expr: &choiceExpr{
-												pos: position{line: 2956, col: 8, offset: 93304},
+												pos: position{line: 2957, col: 8, offset: 93360},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2943, col: 12, offset: 93077},
+														pos: position{line: 2944, col: 12, offset: 93133},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2943, col: 13, offset: 93078},
+															pos: position{line: 2944, col: 13, offset: 93134},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2943, col: 13, offset: 93078},
+																	pos:        position{line: 2944, col: 13, offset: 93134},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2943, col: 20, offset: 93085},
+																	pos:        position{line: 2944, col: 20, offset: 93141},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2943, col: 29, offset: 93094},
+																	pos:        position{line: 2944, col: 29, offset: 93150},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -48033,9 +48037,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2953, col: 8, offset: 93254},
+														pos: position{line: 2954, col: 8, offset: 93310},
 														expr: &anyMatcher{
-															line: 2953, col: 9, offset: 93255,
+															line: 2954, col: 9, offset: 93311,
 														},
 													},
 												},
@@ -48047,53 +48051,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2632, col: 5, offset: 84600},
+						pos: position{line: 2633, col: 5, offset: 84656},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2632, col: 5, offset: 84600},
+							pos: position{line: 2633, col: 5, offset: 84656},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2632, col: 5, offset: 84600},
+									pos:        position{line: 2633, col: 5, offset: 84656},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2633, col: 5, offset: 84610},
+									pos: position{line: 2634, col: 5, offset: 84666},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2637, col: 5, offset: 84699},
+									pos: position{line: 2638, col: 5, offset: 84755},
 									expr: &choiceExpr{
-										pos: position{line: 2637, col: 7, offset: 84701},
+										pos: position{line: 2638, col: 7, offset: 84757},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2824, col: 13, offset: 90001},
+												pos:        position{line: 2825, col: 13, offset: 90057},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2943, col: 12, offset: 93077},
+												pos: position{line: 2944, col: 12, offset: 93133},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2943, col: 13, offset: 93078},
+													pos: position{line: 2944, col: 13, offset: 93134},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2943, col: 13, offset: 93078},
+															pos:        position{line: 2944, col: 13, offset: 93134},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2943, col: 20, offset: 93085},
+															pos:        position{line: 2944, col: 20, offset: 93141},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2943, col: 29, offset: 93094},
+															pos:        position{line: 2944, col: 29, offset: 93150},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -48102,9 +48106,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2953, col: 8, offset: 93254},
+												pos: position{line: 2954, col: 8, offset: 93310},
 												expr: &anyMatcher{
-													line: 2953, col: 9, offset: 93255,
+													line: 2954, col: 9, offset: 93311,
 												},
 											},
 										},
@@ -48114,40 +48118,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2643, col: 21, offset: 84789},
+						pos: position{line: 2644, col: 21, offset: 84845},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2643, col: 21, offset: 84789},
+							pos:        position{line: 2644, col: 21, offset: 84845},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2647, col: 20, offset: 84859},
+						pos: position{line: 2648, col: 20, offset: 84915},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2647, col: 20, offset: 84859},
+							pos:        position{line: 2648, col: 20, offset: 84915},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2651, col: 21, offset: 84930},
+						pos: position{line: 2652, col: 21, offset: 84986},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2651, col: 21, offset: 84930},
+							pos:        position{line: 2652, col: 21, offset: 84986},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2655, col: 20, offset: 85000},
+						pos: position{line: 2656, col: 20, offset: 85056},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2655, col: 20, offset: 85000},
+							pos:        position{line: 2656, col: 20, offset: 85056},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -48158,24 +48162,24 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2589, col: 1, offset: 83360},
+			pos:  position{line: 2590, col: 1, offset: 83416},
 			expr: &choiceExpr{
-				pos: position{line: 2590, col: 5, offset: 83382},
+				pos: position{line: 2591, col: 5, offset: 83438},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2590, col: 5, offset: 83382},
+						pos: position{line: 2591, col: 5, offset: 83438},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2590, col: 5, offset: 83382},
+							pos: position{line: 2591, col: 5, offset: 83438},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2590, col: 5, offset: 83382},
+									pos:        position{line: 2591, col: 5, offset: 83438},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2590, col: 11, offset: 83388},
+									pos: position{line: 2591, col: 11, offset: 83444},
 									expr: &seqExpr{
 										pos: position{line: 2131, col: 5, offset: 68978},
 										exprs: []interface{}{
@@ -48208,21 +48212,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2593, col: 7, offset: 83541},
+						pos: position{line: 2594, col: 7, offset: 83597},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2593, col: 7, offset: 83541},
+							pos: position{line: 2594, col: 7, offset: 83597},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2593, col: 7, offset: 83541},
+									pos:        position{line: 2594, col: 7, offset: 83597},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2593, col: 13, offset: 83547},
+									pos: position{line: 2594, col: 13, offset: 83603},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2593, col: 14, offset: 83548},
+										pos:  position{line: 2594, col: 14, offset: 83604},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -48230,19 +48234,19 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2596, col: 7, offset: 83698},
+						pos: position{line: 2597, col: 7, offset: 83754},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2596, col: 7, offset: 83698},
+							pos: position{line: 2597, col: 7, offset: 83754},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2596, col: 7, offset: 83698},
+									pos:        position{line: 2597, col: 7, offset: 83754},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2596, col: 12, offset: 83703},
+									pos: position{line: 2597, col: 12, offset: 83759},
 									expr: &seqExpr{
 										pos: position{line: 2131, col: 5, offset: 68978},
 										exprs: []interface{}{
@@ -48275,21 +48279,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2599, col: 7, offset: 83856},
+						pos: position{line: 2600, col: 7, offset: 83912},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2599, col: 7, offset: 83856},
+							pos: position{line: 2600, col: 7, offset: 83912},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2599, col: 7, offset: 83856},
+									pos:        position{line: 2600, col: 7, offset: 83912},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2599, col: 12, offset: 83861},
+									pos: position{line: 2600, col: 12, offset: 83917},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2599, col: 13, offset: 83862},
+										pos:  position{line: 2600, col: 13, offset: 83918},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -48301,63 +48305,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2739, col: 1, offset: 87081},
+			pos:  position{line: 2740, col: 1, offset: 87137},
 			expr: &actionExpr{
-				pos: position{line: 2739, col: 26, offset: 87106},
+				pos: position{line: 2740, col: 26, offset: 87162},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2739, col: 26, offset: 87106},
+					pos: position{line: 2740, col: 26, offset: 87162},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2739, col: 26, offset: 87106},
+							pos:   position{line: 2740, col: 26, offset: 87162},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2739, col: 31, offset: 87111},
+								pos: position{line: 2740, col: 31, offset: 87167},
 								expr: &actionExpr{
-									pos: position{line: 2744, col: 5, offset: 87174},
+									pos: position{line: 2745, col: 5, offset: 87230},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2744, col: 5, offset: 87174},
+										pos: position{line: 2745, col: 5, offset: 87230},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2951, col: 11, offset: 93240},
+												pos: position{line: 2952, col: 11, offset: 93296},
 												expr: &anyMatcher{
-													line: 2951, col: 13, offset: 93242,
+													line: 2952, col: 13, offset: 93298,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2747, col: 5, offset: 87300},
+												pos:   position{line: 2748, col: 5, offset: 87356},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2747, col: 16, offset: 87311},
+													pos: position{line: 2748, col: 16, offset: 87367},
 													expr: &actionExpr{
-														pos: position{line: 2747, col: 17, offset: 87312},
+														pos: position{line: 2748, col: 17, offset: 87368},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2747, col: 17, offset: 87312},
+															pos: position{line: 2748, col: 17, offset: 87368},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2747, col: 17, offset: 87312},
+																	pos:   position{line: 2748, col: 17, offset: 87368},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2926, col: 12, offset: 92733},
+																		pos: position{line: 2927, col: 12, offset: 92789},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2926, col: 13, offset: 92734},
+																			pos: position{line: 2927, col: 13, offset: 92790},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2926, col: 13, offset: 92734},
+																					pos: position{line: 2927, col: 13, offset: 92790},
 																					expr: &litMatcher{
-																						pos:        position{line: 2926, col: 13, offset: 92734},
+																						pos:        position{line: 2927, col: 13, offset: 92790},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2926, col: 18, offset: 92739},
+																					pos: position{line: 2927, col: 18, offset: 92795},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2926, col: 18, offset: 92739},
+																						pos:        position{line: 2927, col: 18, offset: 92795},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -48369,7 +48373,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2747, col: 27, offset: 87322},
+																	pos:        position{line: 2748, col: 27, offset: 87378},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -48380,38 +48384,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2748, col: 5, offset: 87350},
+												pos:   position{line: 2749, col: 5, offset: 87406},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2748, col: 12, offset: 87357},
+													pos: position{line: 2749, col: 12, offset: 87413},
 													expr: &choiceExpr{
-														pos: position{line: 2749, col: 9, offset: 87367},
+														pos: position{line: 2750, col: 9, offset: 87423},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2749, col: 9, offset: 87367},
+																pos: position{line: 2750, col: 9, offset: 87423},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2749, col: 9, offset: 87367},
+																	pos:        position{line: 2750, col: 9, offset: 87423},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2750, col: 11, offset: 87414},
+																pos: position{line: 2751, col: 11, offset: 87470},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2750, col: 11, offset: 87414},
+																	pos:        position{line: 2751, col: 11, offset: 87470},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2751, col: 11, offset: 87462},
+																pos: position{line: 2752, col: 11, offset: 87518},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2751, col: 11, offset: 87462},
+																	pos:        position{line: 2752, col: 11, offset: 87518},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -48422,38 +48426,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2753, col: 5, offset: 87512},
+												pos:   position{line: 2754, col: 5, offset: 87568},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2753, col: 12, offset: 87519},
+													pos: position{line: 2754, col: 12, offset: 87575},
 													expr: &choiceExpr{
-														pos: position{line: 2754, col: 9, offset: 87529},
+														pos: position{line: 2755, col: 9, offset: 87585},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2754, col: 9, offset: 87529},
+																pos: position{line: 2755, col: 9, offset: 87585},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2754, col: 9, offset: 87529},
+																	pos:        position{line: 2755, col: 9, offset: 87585},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2755, col: 11, offset: 87576},
+																pos: position{line: 2756, col: 11, offset: 87632},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2755, col: 11, offset: 87576},
+																	pos:        position{line: 2756, col: 11, offset: 87632},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2756, col: 11, offset: 87626},
+																pos: position{line: 2757, col: 11, offset: 87682},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2756, col: 11, offset: 87626},
+																	pos:        position{line: 2757, col: 11, offset: 87682},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -48464,32 +48468,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2758, col: 5, offset: 87677},
+												pos:   position{line: 2759, col: 5, offset: 87733},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2758, col: 12, offset: 87684},
+													pos: position{line: 2759, col: 12, offset: 87740},
 													expr: &choiceExpr{
-														pos: position{line: 2758, col: 13, offset: 87685},
+														pos: position{line: 2759, col: 13, offset: 87741},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2926, col: 12, offset: 92733},
+																pos: position{line: 2927, col: 12, offset: 92789},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2926, col: 13, offset: 92734},
+																	pos: position{line: 2927, col: 13, offset: 92790},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2926, col: 13, offset: 92734},
+																			pos: position{line: 2927, col: 13, offset: 92790},
 																			expr: &litMatcher{
-																				pos:        position{line: 2926, col: 13, offset: 92734},
+																				pos:        position{line: 2927, col: 13, offset: 92790},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2926, col: 18, offset: 92739},
+																			pos: position{line: 2927, col: 18, offset: 92795},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2926, col: 18, offset: 92739},
+																				pos:        position{line: 2927, col: 18, offset: 92795},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -48500,10 +48504,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2758, col: 24, offset: 87696},
+																pos: position{line: 2759, col: 24, offset: 87752},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2758, col: 24, offset: 87696},
+																	pos:        position{line: 2759, col: 24, offset: 87752},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -48514,15 +48518,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2759, col: 5, offset: 87738},
+												pos:   position{line: 2760, col: 5, offset: 87794},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2759, col: 11, offset: 87744},
+													pos: position{line: 2760, col: 11, offset: 87800},
 													expr: &actionExpr{
-														pos: position{line: 2759, col: 12, offset: 87745},
+														pos: position{line: 2760, col: 12, offset: 87801},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2759, col: 12, offset: 87745},
+															pos:        position{line: 2760, col: 12, offset: 87801},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -48532,12 +48536,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2761, col: 5, offset: 87875},
+												pos:   position{line: 2762, col: 5, offset: 87931},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2761, col: 11, offset: 87881},
+													pos: position{line: 2762, col: 11, offset: 87937},
 													expr: &litMatcher{
-														pos:        position{line: 2761, col: 12, offset: 87882},
+														pos:        position{line: 2762, col: 12, offset: 87938},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -48545,7 +48549,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2762, col: 5, offset: 87892},
+												pos: position{line: 2763, col: 5, offset: 87948},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -48554,9 +48558,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2953, col: 8, offset: 93254},
+							pos: position{line: 2954, col: 8, offset: 93310},
 							expr: &anyMatcher{
-								line: 2953, col: 9, offset: 93255,
+								line: 2954, col: 9, offset: 93311,
 							},
 						},
 					},
@@ -48565,23 +48569,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2789, col: 1, offset: 88901},
+			pos:  position{line: 2790, col: 1, offset: 88957},
 			expr: &actionExpr{
-				pos: position{line: 2790, col: 5, offset: 88924},
+				pos: position{line: 2791, col: 5, offset: 88980},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2790, col: 5, offset: 88924},
+					pos: position{line: 2791, col: 5, offset: 88980},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2790, col: 5, offset: 88924},
+							pos:   position{line: 2791, col: 5, offset: 88980},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2813, col: 18, offset: 89665},
+								pos: position{line: 2814, col: 18, offset: 89721},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2813, col: 19, offset: 89666},
+									pos: position{line: 2814, col: 19, offset: 89722},
 									expr: &charClassMatcher{
-										pos:        position{line: 2813, col: 19, offset: 89666},
+										pos:        position{line: 2814, col: 19, offset: 89722},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48592,25 +48596,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2791, col: 5, offset: 88950},
+							pos: position{line: 2792, col: 5, offset: 89006},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2795, col: 5, offset: 89078},
+							pos:        position{line: 2796, col: 5, offset: 89134},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2796, col: 5, offset: 89088},
+							pos:   position{line: 2797, col: 5, offset: 89144},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2817, col: 19, offset: 89741},
+								pos: position{line: 2818, col: 19, offset: 89797},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2817, col: 19, offset: 89741},
+									pos: position{line: 2818, col: 19, offset: 89797},
 									expr: &charClassMatcher{
-										pos:        position{line: 2817, col: 19, offset: 89741},
+										pos:        position{line: 2818, col: 19, offset: 89797},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48620,36 +48624,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2797, col: 5, offset: 89116},
+							pos:   position{line: 2798, col: 5, offset: 89172},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2797, col: 17, offset: 89128},
+								pos:  position{line: 2798, col: 17, offset: 89184},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2956, col: 8, offset: 93304},
+							pos: position{line: 2957, col: 8, offset: 93360},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2943, col: 12, offset: 93077},
+									pos: position{line: 2944, col: 12, offset: 93133},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2943, col: 13, offset: 93078},
+										pos: position{line: 2944, col: 13, offset: 93134},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2943, col: 13, offset: 93078},
+												pos:        position{line: 2944, col: 13, offset: 93134},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 20, offset: 93085},
+												pos:        position{line: 2944, col: 20, offset: 93141},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2943, col: 29, offset: 93094},
+												pos:        position{line: 2944, col: 29, offset: 93150},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -48658,9 +48662,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2953, col: 8, offset: 93254},
+									pos: position{line: 2954, col: 8, offset: 93310},
 									expr: &anyMatcher{
-										line: 2953, col: 9, offset: 93255,
+										line: 2954, col: 9, offset: 93311,
 									},
 								},
 							},
@@ -48671,23 +48675,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2801, col: 1, offset: 89276},
+			pos:  position{line: 2802, col: 1, offset: 89332},
 			expr: &actionExpr{
-				pos: position{line: 2802, col: 5, offset: 89300},
+				pos: position{line: 2803, col: 5, offset: 89356},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2802, col: 5, offset: 89300},
+					pos: position{line: 2803, col: 5, offset: 89356},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2802, col: 5, offset: 89300},
+							pos:   position{line: 2803, col: 5, offset: 89356},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2813, col: 18, offset: 89665},
+								pos: position{line: 2814, col: 18, offset: 89721},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2813, col: 19, offset: 89666},
+									pos: position{line: 2814, col: 19, offset: 89722},
 									expr: &charClassMatcher{
-										pos:        position{line: 2813, col: 19, offset: 89666},
+										pos:        position{line: 2814, col: 19, offset: 89722},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48698,25 +48702,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2803, col: 5, offset: 89326},
+							pos: position{line: 2804, col: 5, offset: 89382},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2807, col: 5, offset: 89454},
+							pos:        position{line: 2808, col: 5, offset: 89510},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2808, col: 5, offset: 89463},
+							pos:   position{line: 2809, col: 5, offset: 89519},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2817, col: 19, offset: 89741},
+								pos: position{line: 2818, col: 19, offset: 89797},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2817, col: 19, offset: 89741},
+									pos: position{line: 2818, col: 19, offset: 89797},
 									expr: &charClassMatcher{
-										pos:        position{line: 2817, col: 19, offset: 89741},
+										pos:        position{line: 2818, col: 19, offset: 89797},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48726,10 +48730,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2809, col: 5, offset: 89491},
+							pos:   position{line: 2810, col: 5, offset: 89547},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2809, col: 17, offset: 89503},
+								pos:  position{line: 2810, col: 17, offset: 89559},
 								name: "InlineAttributes",
 							},
 						},
@@ -48739,43 +48743,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2888, col: 1, offset: 91553},
+			pos:  position{line: 2889, col: 1, offset: 91609},
 			expr: &actionExpr{
-				pos: position{line: 2888, col: 17, offset: 91569},
+				pos: position{line: 2889, col: 17, offset: 91625},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2888, col: 17, offset: 91569},
+					pos:   position{line: 2889, col: 17, offset: 91625},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2905, col: 5, offset: 92023},
+						pos: position{line: 2906, col: 5, offset: 92079},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2905, col: 5, offset: 92023},
+							pos:   position{line: 2906, col: 5, offset: 92079},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2905, col: 14, offset: 92032},
+								pos: position{line: 2906, col: 14, offset: 92088},
 								expr: &choiceExpr{
-									pos: position{line: 2906, col: 9, offset: 92042},
+									pos: position{line: 2907, col: 9, offset: 92098},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2906, col: 9, offset: 92042},
+											pos: position{line: 2907, col: 9, offset: 92098},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2906, col: 9, offset: 92042},
+												pos: position{line: 2907, col: 9, offset: 92098},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2906, col: 9, offset: 92042},
+														pos: position{line: 2907, col: 9, offset: 92098},
 														expr: &litMatcher{
-															pos:        position{line: 2906, col: 10, offset: 92043},
+															pos:        position{line: 2907, col: 10, offset: 92099},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2907, col: 9, offset: 92071},
+														pos: position{line: 2908, col: 9, offset: 92127},
 														expr: &charClassMatcher{
-															pos:        position{line: 2907, col: 10, offset: 92072},
+															pos:        position{line: 2908, col: 10, offset: 92128},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -48786,27 +48790,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2910, col: 11, offset: 92284},
+											pos: position{line: 2911, col: 11, offset: 92340},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2910, col: 11, offset: 92284},
+													pos:        position{line: 2911, col: 11, offset: 92340},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2910, col: 19, offset: 92292},
+													pos: position{line: 2911, col: 19, offset: 92348},
 													expr: &seqExpr{
-														pos: position{line: 2910, col: 21, offset: 92294},
+														pos: position{line: 2911, col: 21, offset: 92350},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2910, col: 21, offset: 92294},
+																pos: position{line: 2911, col: 21, offset: 92350},
 																expr: &actionExpr{
-																	pos: position{line: 2934, col: 10, offset: 92906},
+																	pos: position{line: 2935, col: 10, offset: 92962},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2934, col: 10, offset: 92906},
+																		pos:        position{line: 2935, col: 10, offset: 92962},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48815,11 +48819,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2910, col: 28, offset: 92301},
+																pos: position{line: 2911, col: 28, offset: 92357},
 																expr: &notExpr{
-																	pos: position{line: 2953, col: 8, offset: 93254},
+																	pos: position{line: 2954, col: 8, offset: 93310},
 																	expr: &anyMatcher{
-																		line: 2953, col: 9, offset: 93255,
+																		line: 2954, col: 9, offset: 93311,
 																	},
 																},
 															},
@@ -49218,10 +49222,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2913, col: 11, offset: 92421},
+											pos: position{line: 2914, col: 11, offset: 92477},
 											run: (*parser).callonFileLocation101,
 											expr: &litMatcher{
-												pos:        position{line: 2913, col: 11, offset: 92421},
+												pos:        position{line: 2914, col: 11, offset: 92477},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -73835,81 +73839,81 @@ func (p *parser) callonAttributeStructuredValueElement24() (interface{}, error)
 	return p.cur.onAttributeStructuredValueElement24()
 }
 
-func (c *current) onAttributeStructuredValueElement42() (bool, error) {
+func (c *current) onAttributeStructuredValueElement43() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement42() (bool, error) {
+func (p *parser) callonAttributeStructuredValueElement43() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement42()
+	return p.cur.onAttributeStructuredValueElement43()
 }
 
-func (c *current) onAttributeStructuredValueElement44() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement45() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement44() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement45() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement44()
+	return p.cur.onAttributeStructuredValueElement45()
 }
 
-func (c *current) onAttributeStructuredValueElement40(element interface{}) (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement41(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement40() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement41() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement40(stack["element"])
+	return p.cur.onAttributeStructuredValueElement41(stack["element"])
 }
 
-func (c *current) onAttributeStructuredValueElement50() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement51() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonAttributeStructuredValueElement50() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement51() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement50()
+	return p.cur.onAttributeStructuredValueElement51()
 }
 
-func (c *current) onAttributeStructuredValueElement54(ref interface{}) (bool, error) {
+func (c *current) onAttributeStructuredValueElement55(ref interface{}) (bool, error) {
 	return c.isPlaceHolder(ref.(string)), nil
 }
 
-func (p *parser) callonAttributeStructuredValueElement54() (bool, error) {
+func (p *parser) callonAttributeStructuredValueElement55() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement54(stack["ref"])
+	return p.cur.onAttributeStructuredValueElement55(stack["ref"])
 }
 
-func (c *current) onAttributeStructuredValueElement46(ref interface{}) (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement47(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonAttributeStructuredValueElement46() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement47() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement46(stack["ref"])
+	return p.cur.onAttributeStructuredValueElement47(stack["ref"])
 }
 
-func (c *current) onAttributeStructuredValueElement55() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement56() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonAttributeStructuredValueElement55() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement56() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement55()
+	return p.cur.onAttributeStructuredValueElement56()
 }
 
-func (c *current) onAttributeStructuredValueElement60() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement61() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -73918,10 +73922,10 @@ func (c *current) onAttributeStructuredValueElement60() (interface{}, error) {
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement60() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement61() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement60()
+	return p.cur.onAttributeStructuredValueElement61()
 }
 
 func (c *current) onAttributeStructuredValueElement1(element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 892d732..5358efa 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -2459,6 +2459,7 @@ AttributeStructuredValueElement <-
         / Punctuation // must be after Replacement
         / Quote
         / InlineMacro
+        / InlinePassthrough // when macros are disabled
         / SpecialCharacter // must be after InlineMacro (before of BareURL)
         / ElementPlaceHolder
         / Newline
-- 
2.43.0


From 0eff833da99c12716d05d65e6048a660a6eea009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:38 +0000
Subject: [PATCH 62/75] fix: render tables with a header only and header or
 footer cells with blocks

---
 pkg/renderer/sgml/html5/table.go  |  2 +-
 pkg/renderer/sgml/table.go        | 73 +++++++++++++++++--------------
 pkg/renderer/sgml/xhtml5/table.go |  2 +-
 3 files changed, 41 insertions(+), 36 deletions(-)

diff --git a/pkg/renderer/sgml/html5/table.go b/pkg/renderer/sgml/html5/table.go
index 5d3e8c7..7fc5b22 100644
--- a/pkg/renderer/sgml/html5/table.go
+++ b/pkg/renderer/sgml/html5/table.go
@@ -10,7 +10,7 @@ const (
 		"{{ if .Width }} style=\"width: {{ .Width }}%;\"{{ end }}" +
 		">\n" +
 		"{{ if .Title }}<caption class=\"title\">{{ .Caption }}{{ .Title }}</caption>\n{{ end }}" +
-		"{{ if .Body }}" +
+		"{{ if or .Header .Body .Footer }}" +
 		"<colgroup>\n" +
 		"{{ range $i, $w := .Columns }}<col" +
 		"{{ if $w.Width }} style=\"width: {{ $w.Width }}%;\"{{ end }}" +
diff --git a/pkg/renderer/sgml/table.go b/pkg/renderer/sgml/table.go
index 13be6fd..fac6791 100644
--- a/pkg/renderer/sgml/table.go
+++ b/pkg/renderer/sgml/table.go
@@ -1,7 +1,6 @@
 package sgml
 
 import (
-	"fmt"
 	"strconv"
 	"strings"
 
@@ -142,25 +141,19 @@ func (r *sgmlRenderer) renderTableHeader(ctx *context, h *types.TableRow, cols [
 }
 
 func (r *sgmlRenderer) renderTableHeaderCell(ctx *context, c *types.TableCell, col *types.TableColumn) (string, error) {
-	// assume that elements to render are within the first element of the cell, which should be a paragraph
-	if len(c.Elements) == 1 {
-		if p, ok := c.Elements[0].(*types.Paragraph); ok {
-			content, err := r.renderInlineElements(ctx, p.Elements)
-			if err != nil {
-				return "", errors.Wrap(err, "unable to render header cell")
-			}
-			return r.execute(r.tableHeaderCell, struct {
-				HAlign  types.HAlign
-				VAlign  types.VAlign
-				Content string
-			}{
-				HAlign:  col.HAlign,
-				VAlign:  col.VAlign,
-				Content: content,
-			})
-		}
+	content, err := r.renderTableInlineContent(ctx, c)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render header cell")
 	}
-	return "", fmt.Errorf("invalid header content (expected a single paragraph)")
+	return r.execute(r.tableHeaderCell, struct {
+		HAlign  types.HAlign
+		VAlign  types.VAlign
+		Content string
+	}{
+		HAlign:  col.HAlign,
+		VAlign:  col.VAlign,
+		Content: content,
+	})
 }
 
 func (r *sgmlRenderer) renderTableFooter(ctx *context, f *types.TableRow, cols []*types.TableColumn) (string, error) {
@@ -189,25 +182,37 @@ func (r *sgmlRenderer) renderTableFooter(ctx *context, f *types.TableRow, cols [
 }
 
 func (r *sgmlRenderer) renderTableFooterCell(ctx *context, c *types.TableCell, col *types.TableColumn) (string, error) {
-	// assume that elements to render are within the first element of the cell, which should be a paragraph
+	content, err := r.renderTableInlineContent(ctx, c)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render footer cell")
+	}
+	return r.execute(r.tableFooterCell, struct {
+		HAlign  types.HAlign
+		VAlign  types.VAlign
+		Content string
+	}{
+		HAlign:  col.HAlign,
+		VAlign:  col.VAlign,
+		Content: content,
+	})
+}
+
+// renderTableInlineContent renders the content of a header or footer cell, without a wrapping element if there is a single paragraph
+func (r *sgmlRenderer) renderTableInlineContent(ctx *context, c *types.TableCell) (string, error) {
 	if len(c.Elements) == 1 {
 		if p, ok := c.Elements[0].(*types.Paragraph); ok {
-			content, err := r.renderInlineElements(ctx, p.Elements)
-			if err != nil {
-				return "", errors.Wrap(err, "unable to render footer cell")
-			}
-			return r.execute(r.tableFooterCell, struct {
-				HAlign  types.HAlign
-				VAlign  types.VAlign
-				Content string
-			}{
-				HAlign:  col.HAlign,
-				VAlign:  col.VAlign,
-				Content: content,
-			})
+			return r.renderInlineElements(ctx, p.Elements)
+		}
+	}
+	content := &strings.Builder{}
+	for _, element := range c.Elements {
+		renderedElement, err := r.renderTableCellBlock(ctx, element)
+		if err != nil {
+			return "", err
 		}
+		content.WriteString(renderedElement)
 	}
-	return "", fmt.Errorf("invalid footer content (expected a single paragraph)")
+	return content.String(), nil
 }
 
 func (r *sgmlRenderer) renderTableBody(ctx *context, rows []*types.TableRow, columns []*types.TableColumn) (string, error) {
diff --git a/pkg/renderer/sgml/xhtml5/table.go b/pkg/renderer/sgml/xhtml5/table.go
index 8ffd7db..5123ba7 100644
--- a/pkg/renderer/sgml/xhtml5/table.go
+++ b/pkg/renderer/sgml/xhtml5/table.go
@@ -10,7 +10,7 @@ const (
 		"{{ if .Width }} style=\"width: {{ .Width }}%;\"{{ end }}" +
 		">\n" +
 		"{{ if .Title }}<caption class=\"title\">{{ .Caption }}{{ .Title }}</caption>\n{{ end }}" +
-		"{{ if .Body }}" +
+		"{{ if or .Header .Body .Footer }}" +
 		"<colgroup>\n" +
 		"{{ range $i, $w := .Columns }}<col" +
 		"{{ if $w.Width }} style=\"width: {{ $w.Width }}%;\"{{ end }}" +
-- 
2.43.0


From 3c2283f482ce5eabe5b0b1078bef1f5cb1c9c70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:38 +0000
Subject: [PATCH 63/75] fix: process blocks and lists in asciidoc table cells

---
 .../document_processing_arrange_lists.go      | 22 +++++++++++++++++++
 .../document_processing_refine_fragments.go   |  5 +++++
 2 files changed, 27 insertions(+)

diff --git a/pkg/parser/document_processing_arrange_lists.go b/pkg/parser/document_processing_arrange_lists.go
index 06681a6..923c8b8 100644
--- a/pkg/parser/document_processing_arrange_lists.go
+++ b/pkg/parser/document_processing_arrange_lists.go
@@ -46,6 +46,22 @@ func arrangeLists(f types.DocumentFragment) types.DocumentFragment {
 	return f
 }
 
+func arrangeListElementsInTable(t *types.Table) error {
+	rows := append([]*types.TableRow{t.Header, t.Footer}, t.Rows...)
+	for _, row := range rows {
+		if row == nil {
+			continue
+		}
+		for _, c := range row.Cells {
+			var err error
+			if c.Elements, err = arrangeListElements(c.Elements); err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
+
 func arrangeListElements(elements []interface{}) ([]interface{}, error) {
 	result := make([]interface{}, 0, len(elements))
 
@@ -58,6 +74,12 @@ func arrangeListElements(elements []interface{}) ([]interface{}, error) {
 				return nil, err
 			}
 			result = append(result, e)
+		case *types.Table:
+			log.Debug("checking elements in cells of Table")
+			if err := arrangeListElementsInTable(e); err != nil {
+				return nil, err
+			}
+			result = append(result, e)
 		case *types.ListElements:
 			log.Debug("arranging list elements in ListElements")
 			l, err := doArrangeListElements(e.Elements)
diff --git a/pkg/parser/document_processing_refine_fragments.go b/pkg/parser/document_processing_refine_fragments.go
index e3de41b..88c31dd 100644
--- a/pkg/parser/document_processing_refine_fragments.go
+++ b/pkg/parser/document_processing_refine_fragments.go
@@ -110,6 +110,11 @@ func reparseTableCell(ctx *ParseContext, c *types.TableCell) error {
 			return err
 		}
 		c.Elements = elements
+		for _, e := range c.Elements {
+			if err := refineElement(ctx, e); err != nil {
+				return err
+			}
+		}
 	default:
 		// wrap in a paragraph
 		c.Elements = []interface{}{
-- 
2.43.0


From 5e866131012f3ab242b4a03d5f9fe6dbe6b927cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:38 +0000
Subject: [PATCH 64/75] fix: substitute all header cells and support spaces and
 plain numbers in table columns

---
 .../document_processing_apply_substitutions.go      | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index d228b65..5e53b14 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -159,13 +159,8 @@ func applySubstitutionsOnTable(ctx *ParseContext, t *types.Table, opts ...Option
 	}
 	if t.Header != nil {
 		for _, c := range t.Header.Cells {
-			// assume elements to process were wrapped in a paragraph at parse time
-			if len(c.Elements) == 1 {
-				if p, ok := c.Elements[0].(*types.Paragraph); ok {
-					if err := applySubstitutionsOnWithElements(ctx, p, opts...); err != nil {
-						return err
-					}
-				}
+			if err := applySubstitutionsOnWithElements(ctx, c, opts...); err != nil {
+				return err
 			}
 		}
 	}
@@ -293,6 +288,10 @@ func reparseAttributes(ctx *ParseContext, element types.WithAttributes, opts ...
 			if err != nil {
 				return err
 			}
+			s = strings.ReplaceAll(s, " ", "")
+			if n, err := strconv.Atoi(s); err == nil && n > 0 { // number of columns
+				s = s + "*"
+			}
 			v, err := parseWithSubstitutions(s, attributeSubstitutions(), append(append(ctx.opts, Entrypoint("TableColumnsAttribute")), opts...)...)
 			if err != nil {
 				return err
-- 
2.43.0


From bd402fb693c6552acc814265911a869d45d51061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:38 +0000
Subject: [PATCH 65/75] fix: column definitions of tables without columns,
 without weights or with zero or negative factors

---
 pkg/types/types.go | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index fddcb46..ff75eaf 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -3999,17 +3999,21 @@ func (t *Table) SetColumnDefinitions(cols []interface{}) {
 			size += c.Multiplier
 		}
 	}
+	if size == 0 { // no column was defined
+		return
+	}
 	log.Debugf("re-organizing table in rows of %d cells", size)
 	// reorganize rows/columns
 
 	rows, header, footer := t.rows()
+	t.Header, t.Footer = nil, nil
 	t.Rows = organizeTableCells(rows, size)
 	// restore header and footer
-	if header || t.Attributes.HasOption("header") {
+	if len(t.Rows) > 0 && (header || t.Attributes.HasOption("header")) {
 		t.Header = t.Rows[0]
 		t.Rows = t.Rows[1:]
 	}
-	if footer || t.Attributes.HasOption("footer") {
+	if len(t.Rows) > 0 && (footer || t.Attributes.HasOption("footer")) {
 		t.Footer = t.Rows[len(t.Rows)-1]
 		t.Rows = t.Rows[:len(t.Rows)-1]
 	}
@@ -4112,7 +4116,7 @@ type TableColumn struct {
 
 func NewTableColumn(multiplier, halign, valign, weight, style interface{}) (*TableColumn, error) {
 	col := newDefaultTableColumn()
-	if multiplier, ok := multiplier.(int); ok {
+	if multiplier, ok := multiplier.(int); ok && multiplier >= 0 {
 		col.Multiplier = multiplier
 	}
 	if halign, ok := halign.(HAlign); ok {
@@ -4124,7 +4128,7 @@ func NewTableColumn(multiplier, halign, valign, weight, style interface{}) (*Tab
 	if weight == "~" {
 		col.Autowidth = true
 		col.Weight = 0
-	} else if weight, ok := weight.(int); ok {
+	} else if weight, ok := weight.(int); ok && weight >= 0 {
 		col.Weight = weight
 	}
 	if style, ok := style.(string); ok {
@@ -4164,13 +4168,11 @@ func (t *Table) Columns() ([]*TableColumn, error) {
 
 		}
 	}
-	// add empty entries if the first row has more cells than the number of column than what's specified in the `cols` attribute
+	// add empty entries if a row has more cells than the number of column than what's specified in the `cols` attribute
 	// (also works when the `cols` attribute is missing/empty)
-	if len(t.Rows) > 0 && len(t.Rows[0].Cells) > len(result) {
-		m := len(t.Rows[0].Cells) - len(result)
-		for i := 0; i < m; i++ {
-			col := newDefaultTableColumn()
-			result = append(result, col)
+	for _, row := range t.allRows() {
+		for len(row.Cells) > len(result) {
+			result = append(result, newDefaultTableColumn())
 		}
 	}
 	// unless table is set with "full autowidth"
@@ -4181,6 +4183,13 @@ func (t *Table) Columns() ([]*TableColumn, error) {
 			sumWeight += col.Weight
 			colsWithAutowidth = colsWithAutowidth || col.Autowidth
 		}
+		if sumWeight == 0 && !colsWithAutowidth {
+			// no weight at all: same width for all columns
+			for _, col := range result {
+				col.Weight = 1
+			}
+			sumWeight = len(result)
+		}
 		if colsWithAutowidth {
 			// some cols have `autowidth` (`~`) enabled, so the `weight` becomes the `width`
 			// TODO: check that sum of `width < 100`
@@ -4194,9 +4203,9 @@ func (t *Table) Columns() ([]*TableColumn, error) {
 			sumWidth := 0 // sum by a factor 1e5 to retain precision
 			for i, col := range result {
 				if i < len(result)-1 {
-					width := float64(col.Weight*100) / float64(sumWeight)
-					col.Width = strconv.FormatFloat(width, 'g', 6, 64)
-					sumWidth += int(width * 1e4)
+					width := col.Weight * 1e6 / sumWeight // no rounding, otherwise the sum may exceed 100
+					col.Width = strconv.FormatFloat(float64(width)/1e4, 'g', 6, 64)
+					sumWidth += width
 					log.Debugf("col %d width: %s", i, col.Width)
 				} else {
 					// rounding on the last column, to make sure that the sum reaches 100
-- 
2.43.0


From 137c60e475be40e010b8c9c05c18758d9b574b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:45 +0000
Subject: [PATCH 66/75] fix: keep the text before a pipe in table cells, unless
 it is a cell format

---
 pkg/parser/parser.go  | 9710 ++++++++++++++++++++++-------------------
 pkg/parser/parser.peg |   15 +-
 2 files changed, 5113 insertions(+), 4612 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 0b932eb..5eae645 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 49, offset: 11042},
 													expr: &actionExpr{
-														pos: position{line: 2935, col: 10, offset: 92962},
+														pos: position{line: 2944, col: 10, offset: 93180},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2935, col: 10, offset: 92962},
+															pos:        position{line: 2944, col: 10, offset: 93180},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2957, col: 8, offset: 93360},
+													pos: position{line: 2966, col: 8, offset: 93578},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2944, col: 12, offset: 93133},
+															pos: position{line: 2953, col: 12, offset: 93351},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2944, col: 13, offset: 93134},
+																pos: position{line: 2953, col: 13, offset: 93352},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 13, offset: 93134},
+																		pos:        position{line: 2953, col: 13, offset: 93352},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 20, offset: 93141},
+																		pos:        position{line: 2953, col: 20, offset: 93359},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 29, offset: 93150},
+																		pos:        position{line: 2953, col: 29, offset: 93368},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2954, col: 8, offset: 93310},
+															pos: position{line: 2963, col: 8, offset: 93528},
 															expr: &anyMatcher{
-																line: 2954, col: 9, offset: 93311,
+																line: 2963, col: 9, offset: 93529,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 364, col: 39, offset: 11163},
 													expr: &actionExpr{
-														pos: position{line: 2935, col: 10, offset: 92962},
+														pos: position{line: 2944, col: 10, offset: 93180},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2935, col: 10, offset: 92962},
+															pos:        position{line: 2944, col: 10, offset: 93180},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2957, col: 8, offset: 93360},
+													pos: position{line: 2966, col: 8, offset: 93578},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2944, col: 12, offset: 93133},
+															pos: position{line: 2953, col: 12, offset: 93351},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2944, col: 13, offset: 93134},
+																pos: position{line: 2953, col: 13, offset: 93352},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 13, offset: 93134},
+																		pos:        position{line: 2953, col: 13, offset: 93352},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 20, offset: 93141},
+																		pos:        position{line: 2953, col: 20, offset: 93359},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 29, offset: 93150},
+																		pos:        position{line: 2953, col: 29, offset: 93368},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2954, col: 8, offset: 93310},
+															pos: position{line: 2963, col: 8, offset: 93528},
 															expr: &anyMatcher{
-																line: 2954, col: 9, offset: 93311,
+																line: 2963, col: 9, offset: 93529,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2935, col: 10, offset: 92962},
+														pos: position{line: 2944, col: 10, offset: 93180},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2935, col: 10, offset: 92962},
+															pos:        position{line: 2944, col: 10, offset: 93180},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2954, col: 8, offset: 93310},
+													pos: position{line: 2963, col: 8, offset: 93528},
 													expr: &anyMatcher{
-														line: 2954, col: 9, offset: 93311,
+														line: 2963, col: 9, offset: 93529,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2935, col: 10, offset: 92962},
+														pos: position{line: 2944, col: 10, offset: 93180},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2935, col: 10, offset: 92962},
+															pos:        position{line: 2944, col: 10, offset: 93180},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2954, col: 8, offset: 93310},
+													pos: position{line: 2963, col: 8, offset: 93528},
 													expr: &anyMatcher{
-														line: 2954, col: 9, offset: 93311,
+														line: 2963, col: 9, offset: 93529,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92789},
+																pos: position{line: 2936, col: 12, offset: 93007},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2927, col: 13, offset: 92790},
+																	pos: position{line: 2936, col: 13, offset: 93008},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2927, col: 13, offset: 92790},
+																			pos: position{line: 2936, col: 13, offset: 93008},
 																			expr: &litMatcher{
-																				pos:        position{line: 2927, col: 13, offset: 92790},
+																				pos:        position{line: 2936, col: 13, offset: 93008},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2927, col: 18, offset: 92795},
+																			pos: position{line: 2936, col: 18, offset: 93013},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2927, col: 18, offset: 92795},
+																				pos:        position{line: 2936, col: 18, offset: 93013},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2935, col: 10, offset: 92962},
+														pos: position{line: 2944, col: 10, offset: 93180},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2935, col: 10, offset: 92962},
+															pos:        position{line: 2944, col: 10, offset: 93180},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2935, col: 10, offset: 92962},
+														pos: position{line: 2944, col: 10, offset: 93180},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2935, col: 10, offset: 92962},
+															pos:        position{line: 2944, col: 10, offset: 93180},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92789},
+																pos: position{line: 2936, col: 12, offset: 93007},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2927, col: 13, offset: 92790},
+																	pos: position{line: 2936, col: 13, offset: 93008},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2927, col: 13, offset: 92790},
+																			pos: position{line: 2936, col: 13, offset: 93008},
 																			expr: &litMatcher{
-																				pos:        position{line: 2927, col: 13, offset: 92790},
+																				pos:        position{line: 2936, col: 13, offset: 93008},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2927, col: 18, offset: 92795},
+																			pos: position{line: 2936, col: 18, offset: 93013},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2927, col: 18, offset: 92795},
+																				pos:        position{line: 2936, col: 18, offset: 93013},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2935, col: 10, offset: 92962},
+														pos: position{line: 2944, col: 10, offset: 93180},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2935, col: 10, offset: 92962},
+															pos:        position{line: 2944, col: 10, offset: 93180},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2954, col: 8, offset: 93310},
+													pos: position{line: 2963, col: 8, offset: 93528},
 													expr: &anyMatcher{
-														line: 2954, col: 9, offset: 93311,
+														line: 2963, col: 9, offset: 93529,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2935, col: 10, offset: 92962},
+														pos: position{line: 2944, col: 10, offset: 93180},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2935, col: 10, offset: 92962},
+															pos:        position{line: 2944, col: 10, offset: 93180},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2954, col: 8, offset: 93310},
+													pos: position{line: 2963, col: 8, offset: 93528},
 													expr: &anyMatcher{
-														line: 2954, col: 9, offset: 93311,
+														line: 2963, col: 9, offset: 93529,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 749, col: 5, offset: 24130},
 													expr: &charClassMatcher{
-														pos:        position{line: 2825, col: 13, offset: 90057},
+														pos:        position{line: 2834, col: 13, offset: 90275},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 767, col: 8, offset: 24774},
 																			expr: &actionExpr{
-																				pos: position{line: 2935, col: 10, offset: 92962},
+																				pos: position{line: 2944, col: 10, offset: 93180},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2935, col: 10, offset: 92962},
+																					pos:        position{line: 2944, col: 10, offset: 93180},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2957, col: 8, offset: 93360},
+																			pos: position{line: 2966, col: 8, offset: 93578},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2944, col: 12, offset: 93133},
+																					pos: position{line: 2953, col: 12, offset: 93351},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2944, col: 13, offset: 93134},
+																						pos: position{line: 2953, col: 13, offset: 93352},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 13, offset: 93134},
+																								pos:        position{line: 2953, col: 13, offset: 93352},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 20, offset: 93141},
+																								pos:        position{line: 2953, col: 20, offset: 93359},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 29, offset: 93150},
+																								pos:        position{line: 2953, col: 29, offset: 93368},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 774, col: 8, offset: 25022},
 																			expr: &actionExpr{
-																				pos: position{line: 2935, col: 10, offset: 92962},
+																				pos: position{line: 2944, col: 10, offset: 93180},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2935, col: 10, offset: 92962},
+																					pos:        position{line: 2944, col: 10, offset: 93180},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2957, col: 8, offset: 93360},
+																			pos: position{line: 2966, col: 8, offset: 93578},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2944, col: 12, offset: 93133},
+																					pos: position{line: 2953, col: 12, offset: 93351},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2944, col: 13, offset: 93134},
+																						pos: position{line: 2953, col: 13, offset: 93352},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 13, offset: 93134},
+																								pos:        position{line: 2953, col: 13, offset: 93352},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 20, offset: 93141},
+																								pos:        position{line: 2953, col: 20, offset: 93359},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 29, offset: 93150},
+																								pos:        position{line: 2953, col: 29, offset: 93368},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 785, col: 52, offset: 25434},
 																			expr: &actionExpr{
-																				pos: position{line: 2935, col: 10, offset: 92962},
+																				pos: position{line: 2944, col: 10, offset: 93180},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2935, col: 10, offset: 92962},
+																					pos:        position{line: 2944, col: 10, offset: 93180},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2957, col: 8, offset: 93360},
+																			pos: position{line: 2966, col: 8, offset: 93578},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2944, col: 12, offset: 93133},
+																					pos: position{line: 2953, col: 12, offset: 93351},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2944, col: 13, offset: 93134},
+																						pos: position{line: 2953, col: 13, offset: 93352},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 13, offset: 93134},
+																								pos:        position{line: 2953, col: 13, offset: 93352},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 20, offset: 93141},
+																								pos:        position{line: 2953, col: 20, offset: 93359},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 29, offset: 93150},
+																								pos:        position{line: 2953, col: 29, offset: 93368},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 781, col: 8, offset: 25268},
 																			expr: &actionExpr{
-																				pos: position{line: 2935, col: 10, offset: 92962},
+																				pos: position{line: 2944, col: 10, offset: 93180},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2935, col: 10, offset: 92962},
+																					pos:        position{line: 2944, col: 10, offset: 93180},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2957, col: 8, offset: 93360},
+																			pos: position{line: 2966, col: 8, offset: 93578},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2944, col: 12, offset: 93133},
+																					pos: position{line: 2953, col: 12, offset: 93351},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2944, col: 13, offset: 93134},
+																						pos: position{line: 2953, col: 13, offset: 93352},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 13, offset: 93134},
+																								pos:        position{line: 2953, col: 13, offset: 93352},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 20, offset: 93141},
+																								pos:        position{line: 2953, col: 20, offset: 93359},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 29, offset: 93150},
+																								pos:        position{line: 2953, col: 29, offset: 93368},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 796, col: 8, offset: 25806},
 																			expr: &actionExpr{
-																				pos: position{line: 2935, col: 10, offset: 92962},
+																				pos: position{line: 2944, col: 10, offset: 93180},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2935, col: 10, offset: 92962},
+																					pos:        position{line: 2944, col: 10, offset: 93180},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2957, col: 8, offset: 93360},
+																			pos: position{line: 2966, col: 8, offset: 93578},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2944, col: 12, offset: 93133},
+																					pos: position{line: 2953, col: 12, offset: 93351},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2944, col: 13, offset: 93134},
+																						pos: position{line: 2953, col: 13, offset: 93352},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 13, offset: 93134},
+																								pos:        position{line: 2953, col: 13, offset: 93352},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 20, offset: 93141},
+																								pos:        position{line: 2953, col: 20, offset: 93359},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 29, offset: 93150},
+																								pos:        position{line: 2953, col: 29, offset: 93368},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 810, col: 8, offset: 26282},
 																			expr: &actionExpr{
-																				pos: position{line: 2935, col: 10, offset: 92962},
+																				pos: position{line: 2944, col: 10, offset: 93180},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2935, col: 10, offset: 92962},
+																					pos:        position{line: 2944, col: 10, offset: 93180},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2957, col: 8, offset: 93360},
+																			pos: position{line: 2966, col: 8, offset: 93578},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2944, col: 12, offset: 93133},
+																					pos: position{line: 2953, col: 12, offset: 93351},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2944, col: 13, offset: 93134},
+																						pos: position{line: 2953, col: 13, offset: 93352},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 13, offset: 93134},
+																								pos:        position{line: 2953, col: 13, offset: 93352},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 20, offset: 93141},
+																								pos:        position{line: 2953, col: 20, offset: 93359},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 29, offset: 93150},
+																								pos:        position{line: 2953, col: 29, offset: 93368},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 817, col: 8, offset: 26534},
 																			expr: &actionExpr{
-																				pos: position{line: 2935, col: 10, offset: 92962},
+																				pos: position{line: 2944, col: 10, offset: 93180},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2935, col: 10, offset: 92962},
+																					pos:        position{line: 2944, col: 10, offset: 93180},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2957, col: 8, offset: 93360},
+																			pos: position{line: 2966, col: 8, offset: 93578},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2944, col: 12, offset: 93133},
+																					pos: position{line: 2953, col: 12, offset: 93351},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2944, col: 13, offset: 93134},
+																						pos: position{line: 2953, col: 13, offset: 93352},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 13, offset: 93134},
+																								pos:        position{line: 2953, col: 13, offset: 93352},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 20, offset: 93141},
+																								pos:        position{line: 2953, col: 20, offset: 93359},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 29, offset: 93150},
+																								pos:        position{line: 2953, col: 29, offset: 93368},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 824, col: 8, offset: 26784},
 																			expr: &actionExpr{
-																				pos: position{line: 2935, col: 10, offset: 92962},
+																				pos: position{line: 2944, col: 10, offset: 93180},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2935, col: 10, offset: 92962},
+																					pos:        position{line: 2944, col: 10, offset: 93180},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2957, col: 8, offset: 93360},
+																			pos: position{line: 2966, col: 8, offset: 93578},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2944, col: 12, offset: 93133},
+																					pos: position{line: 2953, col: 12, offset: 93351},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2944, col: 13, offset: 93134},
+																						pos: position{line: 2953, col: 13, offset: 93352},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 13, offset: 93134},
+																								pos:        position{line: 2953, col: 13, offset: 93352},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 20, offset: 93141},
+																								pos:        position{line: 2953, col: 20, offset: 93359},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 29, offset: 93150},
+																								pos:        position{line: 2953, col: 29, offset: 93368},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 831, col: 8, offset: 27030},
 																			expr: &actionExpr{
-																				pos: position{line: 2935, col: 10, offset: 92962},
+																				pos: position{line: 2944, col: 10, offset: 93180},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2935, col: 10, offset: 92962},
+																					pos:        position{line: 2944, col: 10, offset: 93180},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2957, col: 8, offset: 93360},
+																			pos: position{line: 2966, col: 8, offset: 93578},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2944, col: 12, offset: 93133},
+																					pos: position{line: 2953, col: 12, offset: 93351},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2944, col: 13, offset: 93134},
+																						pos: position{line: 2953, col: 13, offset: 93352},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 13, offset: 93134},
+																								pos:        position{line: 2953, col: 13, offset: 93352},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 20, offset: 93141},
+																								pos:        position{line: 2953, col: 20, offset: 93359},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 29, offset: 93150},
+																								pos:        position{line: 2953, col: 29, offset: 93368},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2939, col: 11, offset: 93023},
+													pos: position{line: 2948, col: 11, offset: 93241},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2939, col: 11, offset: 93023},
+														pos: position{line: 2948, col: 11, offset: 93241},
 														expr: &charClassMatcher{
-															pos:        position{line: 2939, col: 11, offset: 93023},
+															pos:        position{line: 2948, col: 11, offset: 93241},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2885, col: 14, offset: 91555},
+													pos: position{line: 2894, col: 14, offset: 91773},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2885, col: 14, offset: 91555},
+														pos: position{line: 2894, col: 14, offset: 91773},
 														expr: &charClassMatcher{
-															pos:        position{line: 2885, col: 14, offset: 91555},
+															pos:        position{line: 2894, col: 14, offset: 91773},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2954, col: 8, offset: 93310},
+													pos: position{line: 2963, col: 8, offset: 93528},
 													expr: &anyMatcher{
-														line: 2954, col: 9, offset: 93311,
+														line: 2963, col: 9, offset: 93529,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2954, col: 8, offset: 93310},
+							pos: position{line: 2963, col: 8, offset: 93528},
 							expr: &anyMatcher{
-								line: 2954, col: 9, offset: 93311,
+								line: 2963, col: 9, offset: 93529,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2889, col: 17, offset: 91625},
+												pos: position{line: 2898, col: 17, offset: 91843},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2889, col: 17, offset: 91625},
+													pos:   position{line: 2898, col: 17, offset: 91843},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2906, col: 5, offset: 92079},
+														pos: position{line: 2915, col: 5, offset: 92297},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2906, col: 5, offset: 92079},
+															pos:   position{line: 2915, col: 5, offset: 92297},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2906, col: 14, offset: 92088},
+																pos: position{line: 2915, col: 14, offset: 92306},
 																expr: &choiceExpr{
-																	pos: position{line: 2907, col: 9, offset: 92098},
+																	pos: position{line: 2916, col: 9, offset: 92316},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2907, col: 9, offset: 92098},
+																			pos: position{line: 2916, col: 9, offset: 92316},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2907, col: 9, offset: 92098},
+																				pos: position{line: 2916, col: 9, offset: 92316},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2907, col: 9, offset: 92098},
+																						pos: position{line: 2916, col: 9, offset: 92316},
 																						expr: &litMatcher{
-																							pos:        position{line: 2907, col: 10, offset: 92099},
+																							pos:        position{line: 2916, col: 10, offset: 92317},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2908, col: 9, offset: 92127},
+																						pos: position{line: 2917, col: 9, offset: 92345},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92128},
+																							pos:        position{line: 2917, col: 10, offset: 92346},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2911, col: 11, offset: 92340},
+																			pos: position{line: 2920, col: 11, offset: 92558},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2911, col: 11, offset: 92340},
+																					pos:        position{line: 2920, col: 11, offset: 92558},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2911, col: 19, offset: 92348},
+																					pos: position{line: 2920, col: 19, offset: 92566},
 																					expr: &seqExpr{
-																						pos: position{line: 2911, col: 21, offset: 92350},
+																						pos: position{line: 2920, col: 21, offset: 92568},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2911, col: 21, offset: 92350},
+																								pos: position{line: 2920, col: 21, offset: 92568},
 																								expr: &actionExpr{
-																									pos: position{line: 2935, col: 10, offset: 92962},
+																									pos: position{line: 2944, col: 10, offset: 93180},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2935, col: 10, offset: 92962},
+																										pos:        position{line: 2944, col: 10, offset: 93180},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 28, offset: 92357},
+																								pos: position{line: 2920, col: 28, offset: 92575},
 																								expr: &notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -3088,10 +3088,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2914, col: 11, offset: 92477},
+																			pos: position{line: 2923, col: 11, offset: 92695},
 																			run: (*parser).callonFileInclusion108,
 																			expr: &litMatcher{
-																				pos:        position{line: 2914, col: 11, offset: 92477},
+																				pos:        position{line: 2923, col: 11, offset: 92695},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3120,10 +3120,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2935, col: 10, offset: 92962},
+								pos: position{line: 2944, col: 10, offset: 93180},
 								run: (*parser).callonFileInclusion113,
 								expr: &charClassMatcher{
-									pos:        position{line: 2935, col: 10, offset: 92962},
+									pos:        position{line: 2944, col: 10, offset: 93180},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3132,28 +3132,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2957, col: 8, offset: 93360},
+							pos: position{line: 2966, col: 8, offset: 93578},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2944, col: 12, offset: 93133},
+									pos: position{line: 2953, col: 12, offset: 93351},
 									run: (*parser).callonFileInclusion116,
 									expr: &choiceExpr{
-										pos: position{line: 2944, col: 13, offset: 93134},
+										pos: position{line: 2953, col: 13, offset: 93352},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2944, col: 13, offset: 93134},
+												pos:        position{line: 2953, col: 13, offset: 93352},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2944, col: 20, offset: 93141},
+												pos:        position{line: 2953, col: 20, offset: 93359},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2944, col: 29, offset: 93150},
+												pos:        position{line: 2953, col: 29, offset: 93368},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3162,9 +3162,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2954, col: 8, offset: 93310},
+									pos: position{line: 2963, col: 8, offset: 93528},
 									expr: &anyMatcher{
-										line: 2954, col: 9, offset: 93311,
+										line: 2963, col: 9, offset: 93529,
 									},
 								},
 							},
@@ -3210,24 +3210,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92789},
+																				pos: position{line: 2936, col: 12, offset: 93007},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2927, col: 13, offset: 92790},
+																					pos: position{line: 2936, col: 13, offset: 93008},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2927, col: 13, offset: 92790},
+																							pos: position{line: 2936, col: 13, offset: 93008},
 																							expr: &litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92790},
+																								pos:        position{line: 2936, col: 13, offset: 93008},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2927, col: 18, offset: 92795},
+																							pos: position{line: 2936, col: 18, offset: 93013},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2927, col: 18, offset: 92795},
+																								pos:        position{line: 2936, col: 18, offset: 93013},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3248,24 +3248,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92789},
+																				pos: position{line: 2936, col: 12, offset: 93007},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2927, col: 13, offset: 92790},
+																					pos: position{line: 2936, col: 13, offset: 93008},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2927, col: 13, offset: 92790},
+																							pos: position{line: 2936, col: 13, offset: 93008},
 																							expr: &litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92790},
+																								pos:        position{line: 2936, col: 13, offset: 93008},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2927, col: 18, offset: 92795},
+																							pos: position{line: 2936, col: 18, offset: 93013},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2927, col: 18, offset: 92795},
+																								pos:        position{line: 2936, col: 18, offset: 93013},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3286,24 +3286,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2927, col: 12, offset: 92789},
+																		pos: position{line: 2936, col: 12, offset: 93007},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2927, col: 13, offset: 92790},
+																			pos: position{line: 2936, col: 13, offset: 93008},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2927, col: 13, offset: 92790},
+																					pos: position{line: 2936, col: 13, offset: 93008},
 																					expr: &litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92790},
+																						pos:        position{line: 2936, col: 13, offset: 93008},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2927, col: 18, offset: 92795},
+																					pos: position{line: 2936, col: 18, offset: 93013},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2927, col: 18, offset: 92795},
+																						pos:        position{line: 2936, col: 18, offset: 93013},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3352,24 +3352,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92789},
+																									pos: position{line: 2936, col: 12, offset: 93007},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2927, col: 13, offset: 92790},
+																										pos: position{line: 2936, col: 13, offset: 93008},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2927, col: 13, offset: 92790},
+																												pos: position{line: 2936, col: 13, offset: 93008},
 																												expr: &litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92790},
+																													pos:        position{line: 2936, col: 13, offset: 93008},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2927, col: 18, offset: 92795},
+																												pos: position{line: 2936, col: 18, offset: 93013},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2927, col: 18, offset: 92795},
+																													pos:        position{line: 2936, col: 18, offset: 93013},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3390,24 +3390,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92789},
+																									pos: position{line: 2936, col: 12, offset: 93007},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2927, col: 13, offset: 92790},
+																										pos: position{line: 2936, col: 13, offset: 93008},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2927, col: 13, offset: 92790},
+																												pos: position{line: 2936, col: 13, offset: 93008},
 																												expr: &litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92790},
+																													pos:        position{line: 2936, col: 13, offset: 93008},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2927, col: 18, offset: 92795},
+																												pos: position{line: 2936, col: 18, offset: 93013},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2927, col: 18, offset: 92795},
+																													pos:        position{line: 2936, col: 18, offset: 93013},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3428,24 +3428,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2927, col: 12, offset: 92789},
+																							pos: position{line: 2936, col: 12, offset: 93007},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2927, col: 13, offset: 92790},
+																								pos: position{line: 2936, col: 13, offset: 93008},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2927, col: 13, offset: 92790},
+																										pos: position{line: 2936, col: 13, offset: 93008},
 																										expr: &litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92790},
+																											pos:        position{line: 2936, col: 13, offset: 93008},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2927, col: 18, offset: 92795},
+																										pos: position{line: 2936, col: 18, offset: 93013},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2927, col: 18, offset: 92795},
+																											pos:        position{line: 2936, col: 18, offset: 93013},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3478,24 +3478,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2927, col: 12, offset: 92789},
+														pos: position{line: 2936, col: 12, offset: 93007},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2927, col: 13, offset: 92790},
+															pos: position{line: 2936, col: 13, offset: 93008},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2927, col: 13, offset: 92790},
+																	pos: position{line: 2936, col: 13, offset: 93008},
 																	expr: &litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92790},
+																		pos:        position{line: 2936, col: 13, offset: 93008},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2927, col: 18, offset: 92795},
+																	pos: position{line: 2936, col: 18, offset: 93013},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2927, col: 18, offset: 92795},
+																		pos:        position{line: 2936, col: 18, offset: 93013},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3516,24 +3516,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2927, col: 12, offset: 92789},
+														pos: position{line: 2936, col: 12, offset: 93007},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2927, col: 13, offset: 92790},
+															pos: position{line: 2936, col: 13, offset: 93008},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2927, col: 13, offset: 92790},
+																	pos: position{line: 2936, col: 13, offset: 93008},
 																	expr: &litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92790},
+																		pos:        position{line: 2936, col: 13, offset: 93008},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2927, col: 18, offset: 92795},
+																	pos: position{line: 2936, col: 18, offset: 93013},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2927, col: 18, offset: 92795},
+																		pos:        position{line: 2936, col: 18, offset: 93013},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3554,24 +3554,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2927, col: 12, offset: 92789},
+												pos: position{line: 2936, col: 12, offset: 93007},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2927, col: 13, offset: 92790},
+													pos: position{line: 2936, col: 13, offset: 93008},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2927, col: 13, offset: 92790},
+															pos: position{line: 2936, col: 13, offset: 93008},
 															expr: &litMatcher{
-																pos:        position{line: 2927, col: 13, offset: 92790},
+																pos:        position{line: 2936, col: 13, offset: 93008},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2927, col: 18, offset: 92795},
+															pos: position{line: 2936, col: 18, offset: 93013},
 															expr: &charClassMatcher{
-																pos:        position{line: 2927, col: 18, offset: 92795},
+																pos:        position{line: 2936, col: 18, offset: 93013},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3587,9 +3587,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2954, col: 8, offset: 93310},
+							pos: position{line: 2963, col: 8, offset: 93528},
 							expr: &anyMatcher{
-								line: 2954, col: 9, offset: 93311,
+								line: 2963, col: 9, offset: 93529,
 							},
 						},
 					},
@@ -3630,12 +3630,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2829, col: 14, offset: 90131},
+																		pos: position{line: 2838, col: 14, offset: 90349},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2829, col: 14, offset: 90131},
+																			pos: position{line: 2838, col: 14, offset: 90349},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2829, col: 14, offset: 90131},
+																				pos:        position{line: 2838, col: 14, offset: 90349},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3696,12 +3696,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2829, col: 14, offset: 90131},
+																				pos: position{line: 2838, col: 14, offset: 90349},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2829, col: 14, offset: 90131},
+																					pos: position{line: 2838, col: 14, offset: 90349},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2829, col: 14, offset: 90131},
+																						pos:        position{line: 2838, col: 14, offset: 90349},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3782,12 +3782,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2829, col: 14, offset: 90131},
+																							pos: position{line: 2838, col: 14, offset: 90349},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2829, col: 14, offset: 90131},
+																								pos: position{line: 2838, col: 14, offset: 90349},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2829, col: 14, offset: 90131},
+																									pos:        position{line: 2838, col: 14, offset: 90349},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3848,12 +3848,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2829, col: 14, offset: 90131},
+																									pos: position{line: 2838, col: 14, offset: 90349},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2829, col: 14, offset: 90131},
+																										pos: position{line: 2838, col: 14, offset: 90349},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2829, col: 14, offset: 90131},
+																											pos:        position{line: 2838, col: 14, offset: 90349},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3910,9 +3910,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2954, col: 8, offset: 93310},
+							pos: position{line: 2963, col: 8, offset: 93528},
 							expr: &anyMatcher{
-								line: 2954, col: 9, offset: 93311,
+								line: 2963, col: 9, offset: 93529,
 							},
 						},
 					},
@@ -3955,12 +3955,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2829, col: 14, offset: 90131},
+																pos: position{line: 2838, col: 14, offset: 90349},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2829, col: 14, offset: 90131},
+																	pos: position{line: 2838, col: 14, offset: 90349},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2829, col: 14, offset: 90131},
+																		pos:        position{line: 2838, col: 14, offset: 90349},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3998,12 +3998,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2829, col: 14, offset: 90131},
+																pos: position{line: 2838, col: 14, offset: 90349},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2829, col: 14, offset: 90131},
+																	pos: position{line: 2838, col: 14, offset: 90349},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2829, col: 14, offset: 90131},
+																		pos:        position{line: 2838, col: 14, offset: 90349},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4034,28 +4034,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2957, col: 8, offset: 93360},
+							pos: position{line: 2966, col: 8, offset: 93578},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2944, col: 12, offset: 93133},
+									pos: position{line: 2953, col: 12, offset: 93351},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2944, col: 13, offset: 93134},
+										pos: position{line: 2953, col: 13, offset: 93352},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2944, col: 13, offset: 93134},
+												pos:        position{line: 2953, col: 13, offset: 93352},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2944, col: 20, offset: 93141},
+												pos:        position{line: 2953, col: 20, offset: 93359},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2944, col: 29, offset: 93150},
+												pos:        position{line: 2953, col: 29, offset: 93368},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4064,9 +4064,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2954, col: 8, offset: 93310},
+									pos: position{line: 2963, col: 8, offset: 93528},
 									expr: &anyMatcher{
-										line: 2954, col: 9, offset: 93311,
+										line: 2963, col: 9, offset: 93529,
 									},
 								},
 							},
@@ -4085,9 +4085,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2952, col: 11, offset: 93296},
+							pos: position{line: 2961, col: 11, offset: 93514},
 							expr: &anyMatcher{
-								line: 2952, col: 13, offset: 93298,
+								line: 2961, col: 13, offset: 93516,
 							},
 						},
 						&labeledExpr{
@@ -4182,10 +4182,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 49, offset: 11042},
 														expr: &actionExpr{
-															pos: position{line: 2935, col: 10, offset: 92962},
+															pos: position{line: 2944, col: 10, offset: 93180},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2935, col: 10, offset: 92962},
+																pos:        position{line: 2944, col: 10, offset: 93180},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4194,28 +4194,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2957, col: 8, offset: 93360},
+														pos: position{line: 2966, col: 8, offset: 93578},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2944, col: 12, offset: 93133},
+																pos: position{line: 2953, col: 12, offset: 93351},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2944, col: 13, offset: 93134},
+																	pos: position{line: 2953, col: 13, offset: 93352},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 13, offset: 93134},
+																			pos:        position{line: 2953, col: 13, offset: 93352},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 20, offset: 93141},
+																			pos:        position{line: 2953, col: 20, offset: 93359},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 29, offset: 93150},
+																			pos:        position{line: 2953, col: 29, offset: 93368},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4224,9 +4224,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2954, col: 8, offset: 93310},
+																pos: position{line: 2963, col: 8, offset: 93528},
 																expr: &anyMatcher{
-																	line: 2954, col: 9, offset: 93311,
+																	line: 2963, col: 9, offset: 93529,
 																},
 															},
 														},
@@ -4287,10 +4287,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 364, col: 39, offset: 11163},
 														expr: &actionExpr{
-															pos: position{line: 2935, col: 10, offset: 92962},
+															pos: position{line: 2944, col: 10, offset: 93180},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2935, col: 10, offset: 92962},
+																pos:        position{line: 2944, col: 10, offset: 93180},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4299,28 +4299,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2957, col: 8, offset: 93360},
+														pos: position{line: 2966, col: 8, offset: 93578},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2944, col: 12, offset: 93133},
+																pos: position{line: 2953, col: 12, offset: 93351},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2944, col: 13, offset: 93134},
+																	pos: position{line: 2953, col: 13, offset: 93352},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 13, offset: 93134},
+																			pos:        position{line: 2953, col: 13, offset: 93352},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 20, offset: 93141},
+																			pos:        position{line: 2953, col: 20, offset: 93359},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 29, offset: 93150},
+																			pos:        position{line: 2953, col: 29, offset: 93368},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4329,9 +4329,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2954, col: 8, offset: 93310},
+																pos: position{line: 2963, col: 8, offset: 93528},
 																expr: &anyMatcher{
-																	line: 2954, col: 9, offset: 93311,
+																	line: 2963, col: 9, offset: 93529,
 																},
 															},
 														},
@@ -4346,18 +4346,18 @@ var g = &grammar{
 												pos: position{line: 702, col: 14, offset: 22577},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2952, col: 11, offset: 93296},
+														pos: position{line: 2961, col: 11, offset: 93514},
 														expr: &anyMatcher{
-															line: 2952, col: 13, offset: 93298,
+															line: 2961, col: 13, offset: 93516,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 702, col: 21, offset: 22584},
 														expr: &actionExpr{
-															pos: position{line: 2935, col: 10, offset: 92962},
+															pos: position{line: 2944, col: 10, offset: 93180},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2935, col: 10, offset: 92962},
+																pos:        position{line: 2944, col: 10, offset: 93180},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4366,28 +4366,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2957, col: 8, offset: 93360},
+														pos: position{line: 2966, col: 8, offset: 93578},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2944, col: 12, offset: 93133},
+																pos: position{line: 2953, col: 12, offset: 93351},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2944, col: 13, offset: 93134},
+																	pos: position{line: 2953, col: 13, offset: 93352},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 13, offset: 93134},
+																			pos:        position{line: 2953, col: 13, offset: 93352},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 20, offset: 93141},
+																			pos:        position{line: 2953, col: 20, offset: 93359},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 29, offset: 93150},
+																			pos:        position{line: 2953, col: 29, offset: 93368},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4396,9 +4396,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2954, col: 8, offset: 93310},
+																pos: position{line: 2963, col: 8, offset: 93528},
 																expr: &anyMatcher{
-																	line: 2954, col: 9, offset: 93311,
+																	line: 2963, col: 9, offset: 93529,
 																},
 															},
 														},
@@ -4457,10 +4457,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 767, col: 8, offset: 24774},
 																	expr: &actionExpr{
-																		pos: position{line: 2935, col: 10, offset: 92962},
+																		pos: position{line: 2944, col: 10, offset: 93180},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2935, col: 10, offset: 92962},
+																			pos:        position{line: 2944, col: 10, offset: 93180},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4469,28 +4469,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2957, col: 8, offset: 93360},
+																	pos: position{line: 2966, col: 8, offset: 93578},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2944, col: 12, offset: 93133},
+																			pos: position{line: 2953, col: 12, offset: 93351},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2944, col: 13, offset: 93134},
+																				pos: position{line: 2953, col: 13, offset: 93352},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 13, offset: 93134},
+																						pos:        position{line: 2953, col: 13, offset: 93352},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 20, offset: 93141},
+																						pos:        position{line: 2953, col: 20, offset: 93359},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 29, offset: 93150},
+																						pos:        position{line: 2953, col: 29, offset: 93368},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4499,9 +4499,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2954, col: 8, offset: 93310},
+																			pos: position{line: 2963, col: 8, offset: 93528},
 																			expr: &anyMatcher{
-																				line: 2954, col: 9, offset: 93311,
+																				line: 2963, col: 9, offset: 93529,
 																			},
 																		},
 																	},
@@ -4562,10 +4562,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 767, col: 8, offset: 24774},
 																									expr: &actionExpr{
-																										pos: position{line: 2935, col: 10, offset: 92962},
+																										pos: position{line: 2944, col: 10, offset: 93180},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2935, col: 10, offset: 92962},
+																											pos:        position{line: 2944, col: 10, offset: 93180},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4574,28 +4574,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2957, col: 8, offset: 93360},
+																									pos: position{line: 2966, col: 8, offset: 93578},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2944, col: 12, offset: 93133},
+																											pos: position{line: 2953, col: 12, offset: 93351},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2944, col: 13, offset: 93134},
+																												pos: position{line: 2953, col: 13, offset: 93352},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 13, offset: 93134},
+																														pos:        position{line: 2953, col: 13, offset: 93352},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 20, offset: 93141},
+																														pos:        position{line: 2953, col: 20, offset: 93359},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 29, offset: 93150},
+																														pos:        position{line: 2953, col: 29, offset: 93368},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4604,9 +4604,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2954, col: 8, offset: 93310},
+																											pos: position{line: 2963, col: 8, offset: 93528},
 																											expr: &anyMatcher{
-																												line: 2954, col: 9, offset: 93311,
+																												line: 2963, col: 9, offset: 93529,
 																											},
 																										},
 																									},
@@ -4615,9 +4615,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2954, col: 8, offset: 93310},
+																						pos: position{line: 2963, col: 8, offset: 93528},
 																						expr: &anyMatcher{
-																							line: 2954, col: 9, offset: 93311,
+																							line: 2963, col: 9, offset: 93529,
 																						},
 																					},
 																				},
@@ -4633,21 +4633,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2952, col: 11, offset: 93296},
+																							pos: position{line: 2961, col: 11, offset: 93514},
 																							expr: &anyMatcher{
-																								line: 2952, col: 13, offset: 93298,
+																								line: 2961, col: 13, offset: 93516,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 13, offset: 91488},
+																								pos: position{line: 2890, col: 13, offset: 91706},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2881, col: 13, offset: 91488},
+																									pos: position{line: 2890, col: 13, offset: 91706},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 13, offset: 91488},
+																										pos:        position{line: 2890, col: 13, offset: 91706},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4657,28 +4657,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4687,9 +4687,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -4745,10 +4745,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 767, col: 8, offset: 24774},
 																				expr: &actionExpr{
-																					pos: position{line: 2935, col: 10, offset: 92962},
+																					pos: position{line: 2944, col: 10, offset: 93180},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2935, col: 10, offset: 92962},
+																						pos:        position{line: 2944, col: 10, offset: 93180},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4757,28 +4757,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2957, col: 8, offset: 93360},
+																				pos: position{line: 2966, col: 8, offset: 93578},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2944, col: 12, offset: 93133},
+																						pos: position{line: 2953, col: 12, offset: 93351},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2944, col: 13, offset: 93134},
+																							pos: position{line: 2953, col: 13, offset: 93352},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2944, col: 13, offset: 93134},
+																									pos:        position{line: 2953, col: 13, offset: 93352},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2944, col: 20, offset: 93141},
+																									pos:        position{line: 2953, col: 20, offset: 93359},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2944, col: 29, offset: 93150},
+																									pos:        position{line: 2953, col: 29, offset: 93368},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4787,9 +4787,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2954, col: 8, offset: 93310},
+																						pos: position{line: 2963, col: 8, offset: 93528},
 																						expr: &anyMatcher{
-																							line: 2954, col: 9, offset: 93311,
+																							line: 2963, col: 9, offset: 93529,
 																						},
 																					},
 																				},
@@ -4798,9 +4798,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2954, col: 8, offset: 93310},
+																	pos: position{line: 2963, col: 8, offset: 93528},
 																	expr: &anyMatcher{
-																		line: 2954, col: 9, offset: 93311,
+																		line: 2963, col: 9, offset: 93529,
 																	},
 																},
 															},
@@ -4855,10 +4855,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 774, col: 8, offset: 25022},
 																		expr: &actionExpr{
-																			pos: position{line: 2935, col: 10, offset: 92962},
+																			pos: position{line: 2944, col: 10, offset: 93180},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2935, col: 10, offset: 92962},
+																				pos:        position{line: 2944, col: 10, offset: 93180},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4867,28 +4867,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2957, col: 8, offset: 93360},
+																		pos: position{line: 2966, col: 8, offset: 93578},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
+																				pos: position{line: 2953, col: 12, offset: 93351},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4897,9 +4897,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2954, col: 8, offset: 93310},
+																				pos: position{line: 2963, col: 8, offset: 93528},
 																				expr: &anyMatcher{
-																					line: 2954, col: 9, offset: 93311,
+																					line: 2963, col: 9, offset: 93529,
 																				},
 																			},
 																		},
@@ -4971,10 +4971,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 774, col: 8, offset: 25022},
 																												expr: &actionExpr{
-																													pos: position{line: 2935, col: 10, offset: 92962},
+																													pos: position{line: 2944, col: 10, offset: 93180},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2935, col: 10, offset: 92962},
+																														pos:        position{line: 2944, col: 10, offset: 93180},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4983,28 +4983,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2957, col: 8, offset: 93360},
+																												pos: position{line: 2966, col: 8, offset: 93578},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2944, col: 12, offset: 93133},
+																														pos: position{line: 2953, col: 12, offset: 93351},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2944, col: 13, offset: 93134},
+																															pos: position{line: 2953, col: 13, offset: 93352},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2944, col: 13, offset: 93134},
+																																	pos:        position{line: 2953, col: 13, offset: 93352},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2944, col: 20, offset: 93141},
+																																	pos:        position{line: 2953, col: 20, offset: 93359},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2944, col: 29, offset: 93150},
+																																	pos:        position{line: 2953, col: 29, offset: 93368},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5013,9 +5013,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2954, col: 8, offset: 93310},
+																														pos: position{line: 2963, col: 8, offset: 93528},
 																														expr: &anyMatcher{
-																															line: 2954, col: 9, offset: 93311,
+																															line: 2963, col: 9, offset: 93529,
 																														},
 																													},
 																												},
@@ -5031,9 +5031,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2954, col: 8, offset: 93310},
+																						pos: position{line: 2963, col: 8, offset: 93528},
 																						expr: &anyMatcher{
-																							line: 2954, col: 9, offset: 93311,
+																							line: 2963, col: 9, offset: 93529,
 																						},
 																					},
 																				},
@@ -5049,21 +5049,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2952, col: 11, offset: 93296},
+																							pos: position{line: 2961, col: 11, offset: 93514},
 																							expr: &anyMatcher{
-																								line: 2952, col: 13, offset: 93298,
+																								line: 2961, col: 13, offset: 93516,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 13, offset: 91488},
+																								pos: position{line: 2890, col: 13, offset: 91706},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2881, col: 13, offset: 91488},
+																									pos: position{line: 2890, col: 13, offset: 91706},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 13, offset: 91488},
+																										pos:        position{line: 2890, col: 13, offset: 91706},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5073,28 +5073,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5103,9 +5103,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -5170,10 +5170,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 774, col: 8, offset: 25022},
 																								expr: &actionExpr{
-																									pos: position{line: 2935, col: 10, offset: 92962},
+																									pos: position{line: 2944, col: 10, offset: 93180},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2935, col: 10, offset: 92962},
+																										pos:        position{line: 2944, col: 10, offset: 93180},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5182,28 +5182,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2957, col: 8, offset: 93360},
+																								pos: position{line: 2966, col: 8, offset: 93578},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2944, col: 12, offset: 93133},
+																										pos: position{line: 2953, col: 12, offset: 93351},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2944, col: 13, offset: 93134},
+																											pos: position{line: 2953, col: 13, offset: 93352},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 13, offset: 93134},
+																													pos:        position{line: 2953, col: 13, offset: 93352},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 20, offset: 93141},
+																													pos:        position{line: 2953, col: 20, offset: 93359},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 29, offset: 93150},
+																													pos:        position{line: 2953, col: 29, offset: 93368},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5212,9 +5212,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2954, col: 8, offset: 93310},
+																										pos: position{line: 2963, col: 8, offset: 93528},
 																										expr: &anyMatcher{
-																											line: 2954, col: 9, offset: 93311,
+																											line: 2963, col: 9, offset: 93529,
 																										},
 																									},
 																								},
@@ -5230,9 +5230,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2954, col: 8, offset: 93310},
+																		pos: position{line: 2963, col: 8, offset: 93528},
 																		expr: &anyMatcher{
-																			line: 2954, col: 9, offset: 93311,
+																			line: 2963, col: 9, offset: 93529,
 																		},
 																	},
 																},
@@ -5284,10 +5284,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 785, col: 52, offset: 25434},
 																		expr: &actionExpr{
-																			pos: position{line: 2935, col: 10, offset: 92962},
+																			pos: position{line: 2944, col: 10, offset: 93180},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2935, col: 10, offset: 92962},
+																				pos:        position{line: 2944, col: 10, offset: 93180},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5296,28 +5296,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2957, col: 8, offset: 93360},
+																		pos: position{line: 2966, col: 8, offset: 93578},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
+																				pos: position{line: 2953, col: 12, offset: 93351},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5326,9 +5326,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2954, col: 8, offset: 93310},
+																				pos: position{line: 2963, col: 8, offset: 93528},
 																				expr: &anyMatcher{
-																					line: 2954, col: 9, offset: 93311,
+																					line: 2963, col: 9, offset: 93529,
 																				},
 																			},
 																		},
@@ -5362,10 +5362,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 988, col: 40, offset: 31237},
 																						expr: &actionExpr{
-																							pos: position{line: 2935, col: 10, offset: 92962},
+																							pos: position{line: 2944, col: 10, offset: 93180},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2935, col: 10, offset: 92962},
+																								pos:        position{line: 2944, col: 10, offset: 93180},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5374,28 +5374,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2957, col: 8, offset: 93360},
+																						pos: position{line: 2966, col: 8, offset: 93578},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2944, col: 12, offset: 93133},
+																								pos: position{line: 2953, col: 12, offset: 93351},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2944, col: 13, offset: 93134},
+																									pos: position{line: 2953, col: 13, offset: 93352},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 13, offset: 93134},
+																											pos:        position{line: 2953, col: 13, offset: 93352},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 20, offset: 93141},
+																											pos:        position{line: 2953, col: 20, offset: 93359},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 29, offset: 93150},
+																											pos:        position{line: 2953, col: 29, offset: 93368},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5404,9 +5404,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2954, col: 8, offset: 93310},
+																								pos: position{line: 2963, col: 8, offset: 93528},
 																								expr: &anyMatcher{
-																									line: 2954, col: 9, offset: 93311,
+																									line: 2963, col: 9, offset: 93529,
 																								},
 																							},
 																						},
@@ -5424,21 +5424,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2952, col: 11, offset: 93296},
+																							pos: position{line: 2961, col: 11, offset: 93514},
 																							expr: &anyMatcher{
-																								line: 2952, col: 13, offset: 93298,
+																								line: 2961, col: 13, offset: 93516,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 13, offset: 91488},
+																								pos: position{line: 2890, col: 13, offset: 91706},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2881, col: 13, offset: 91488},
+																									pos: position{line: 2890, col: 13, offset: 91706},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 13, offset: 91488},
+																										pos:        position{line: 2890, col: 13, offset: 91706},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5448,28 +5448,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5478,9 +5478,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -5508,10 +5508,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 988, col: 40, offset: 31237},
 																	expr: &actionExpr{
-																		pos: position{line: 2935, col: 10, offset: 92962},
+																		pos: position{line: 2944, col: 10, offset: 93180},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2935, col: 10, offset: 92962},
+																			pos:        position{line: 2944, col: 10, offset: 93180},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5520,28 +5520,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2957, col: 8, offset: 93360},
+																	pos: position{line: 2966, col: 8, offset: 93578},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2944, col: 12, offset: 93133},
+																			pos: position{line: 2953, col: 12, offset: 93351},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2944, col: 13, offset: 93134},
+																				pos: position{line: 2953, col: 13, offset: 93352},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 13, offset: 93134},
+																						pos:        position{line: 2953, col: 13, offset: 93352},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 20, offset: 93141},
+																						pos:        position{line: 2953, col: 20, offset: 93359},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 29, offset: 93150},
+																						pos:        position{line: 2953, col: 29, offset: 93368},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5550,9 +5550,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2954, col: 8, offset: 93310},
+																			pos: position{line: 2963, col: 8, offset: 93528},
 																			expr: &anyMatcher{
-																				line: 2954, col: 9, offset: 93311,
+																				line: 2963, col: 9, offset: 93529,
 																			},
 																		},
 																	},
@@ -5609,10 +5609,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 781, col: 8, offset: 25268},
 																		expr: &actionExpr{
-																			pos: position{line: 2935, col: 10, offset: 92962},
+																			pos: position{line: 2944, col: 10, offset: 93180},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2935, col: 10, offset: 92962},
+																				pos:        position{line: 2944, col: 10, offset: 93180},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5621,28 +5621,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2957, col: 8, offset: 93360},
+																		pos: position{line: 2966, col: 8, offset: 93578},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
+																				pos: position{line: 2953, col: 12, offset: 93351},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5651,9 +5651,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2954, col: 8, offset: 93310},
+																				pos: position{line: 2963, col: 8, offset: 93528},
 																				expr: &anyMatcher{
-																					line: 2954, col: 9, offset: 93311,
+																					line: 2963, col: 9, offset: 93529,
 																				},
 																			},
 																		},
@@ -5725,10 +5725,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 781, col: 8, offset: 25268},
 																												expr: &actionExpr{
-																													pos: position{line: 2935, col: 10, offset: 92962},
+																													pos: position{line: 2944, col: 10, offset: 93180},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2935, col: 10, offset: 92962},
+																														pos:        position{line: 2944, col: 10, offset: 93180},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5737,28 +5737,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2957, col: 8, offset: 93360},
+																												pos: position{line: 2966, col: 8, offset: 93578},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2944, col: 12, offset: 93133},
+																														pos: position{line: 2953, col: 12, offset: 93351},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2944, col: 13, offset: 93134},
+																															pos: position{line: 2953, col: 13, offset: 93352},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2944, col: 13, offset: 93134},
+																																	pos:        position{line: 2953, col: 13, offset: 93352},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2944, col: 20, offset: 93141},
+																																	pos:        position{line: 2953, col: 20, offset: 93359},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2944, col: 29, offset: 93150},
+																																	pos:        position{line: 2953, col: 29, offset: 93368},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5767,9 +5767,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2954, col: 8, offset: 93310},
+																														pos: position{line: 2963, col: 8, offset: 93528},
 																														expr: &anyMatcher{
-																															line: 2954, col: 9, offset: 93311,
+																															line: 2963, col: 9, offset: 93529,
 																														},
 																													},
 																												},
@@ -5785,9 +5785,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2954, col: 8, offset: 93310},
+																						pos: position{line: 2963, col: 8, offset: 93528},
 																						expr: &anyMatcher{
-																							line: 2954, col: 9, offset: 93311,
+																							line: 2963, col: 9, offset: 93529,
 																						},
 																					},
 																				},
@@ -5803,21 +5803,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2952, col: 11, offset: 93296},
+																							pos: position{line: 2961, col: 11, offset: 93514},
 																							expr: &anyMatcher{
-																								line: 2952, col: 13, offset: 93298,
+																								line: 2961, col: 13, offset: 93516,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 13, offset: 91488},
+																								pos: position{line: 2890, col: 13, offset: 91706},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2881, col: 13, offset: 91488},
+																									pos: position{line: 2890, col: 13, offset: 91706},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 13, offset: 91488},
+																										pos:        position{line: 2890, col: 13, offset: 91706},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5827,28 +5827,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5857,9 +5857,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -5924,10 +5924,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 781, col: 8, offset: 25268},
 																								expr: &actionExpr{
-																									pos: position{line: 2935, col: 10, offset: 92962},
+																									pos: position{line: 2944, col: 10, offset: 93180},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2935, col: 10, offset: 92962},
+																										pos:        position{line: 2944, col: 10, offset: 93180},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5936,28 +5936,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2957, col: 8, offset: 93360},
+																								pos: position{line: 2966, col: 8, offset: 93578},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2944, col: 12, offset: 93133},
+																										pos: position{line: 2953, col: 12, offset: 93351},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2944, col: 13, offset: 93134},
+																											pos: position{line: 2953, col: 13, offset: 93352},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 13, offset: 93134},
+																													pos:        position{line: 2953, col: 13, offset: 93352},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 20, offset: 93141},
+																													pos:        position{line: 2953, col: 20, offset: 93359},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 29, offset: 93150},
+																													pos:        position{line: 2953, col: 29, offset: 93368},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5966,9 +5966,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2954, col: 8, offset: 93310},
+																										pos: position{line: 2963, col: 8, offset: 93528},
 																										expr: &anyMatcher{
-																											line: 2954, col: 9, offset: 93311,
+																											line: 2963, col: 9, offset: 93529,
 																										},
 																									},
 																								},
@@ -5984,9 +5984,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2954, col: 8, offset: 93310},
+																		pos: position{line: 2963, col: 8, offset: 93528},
 																		expr: &anyMatcher{
-																			line: 2954, col: 9, offset: 93311,
+																			line: 2963, col: 9, offset: 93529,
 																		},
 																	},
 																},
@@ -6042,10 +6042,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 796, col: 8, offset: 25806},
 																		expr: &actionExpr{
-																			pos: position{line: 2935, col: 10, offset: 92962},
+																			pos: position{line: 2944, col: 10, offset: 93180},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2935, col: 10, offset: 92962},
+																				pos:        position{line: 2944, col: 10, offset: 93180},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6054,28 +6054,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2957, col: 8, offset: 93360},
+																		pos: position{line: 2966, col: 8, offset: 93578},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
+																				pos: position{line: 2953, col: 12, offset: 93351},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6084,9 +6084,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2954, col: 8, offset: 93310},
+																				pos: position{line: 2963, col: 8, offset: 93528},
 																				expr: &anyMatcher{
-																					line: 2954, col: 9, offset: 93311,
+																					line: 2963, col: 9, offset: 93529,
 																				},
 																			},
 																		},
@@ -6158,10 +6158,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 796, col: 8, offset: 25806},
 																												expr: &actionExpr{
-																													pos: position{line: 2935, col: 10, offset: 92962},
+																													pos: position{line: 2944, col: 10, offset: 93180},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2935, col: 10, offset: 92962},
+																														pos:        position{line: 2944, col: 10, offset: 93180},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6170,28 +6170,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2957, col: 8, offset: 93360},
+																												pos: position{line: 2966, col: 8, offset: 93578},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2944, col: 12, offset: 93133},
+																														pos: position{line: 2953, col: 12, offset: 93351},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2944, col: 13, offset: 93134},
+																															pos: position{line: 2953, col: 13, offset: 93352},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2944, col: 13, offset: 93134},
+																																	pos:        position{line: 2953, col: 13, offset: 93352},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2944, col: 20, offset: 93141},
+																																	pos:        position{line: 2953, col: 20, offset: 93359},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2944, col: 29, offset: 93150},
+																																	pos:        position{line: 2953, col: 29, offset: 93368},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6200,9 +6200,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2954, col: 8, offset: 93310},
+																														pos: position{line: 2963, col: 8, offset: 93528},
 																														expr: &anyMatcher{
-																															line: 2954, col: 9, offset: 93311,
+																															line: 2963, col: 9, offset: 93529,
 																														},
 																													},
 																												},
@@ -6218,9 +6218,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2954, col: 8, offset: 93310},
+																						pos: position{line: 2963, col: 8, offset: 93528},
 																						expr: &anyMatcher{
-																							line: 2954, col: 9, offset: 93311,
+																							line: 2963, col: 9, offset: 93529,
 																						},
 																					},
 																				},
@@ -6236,21 +6236,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2952, col: 11, offset: 93296},
+																							pos: position{line: 2961, col: 11, offset: 93514},
 																							expr: &anyMatcher{
-																								line: 2952, col: 13, offset: 93298,
+																								line: 2961, col: 13, offset: 93516,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 13, offset: 91488},
+																								pos: position{line: 2890, col: 13, offset: 91706},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2881, col: 13, offset: 91488},
+																									pos: position{line: 2890, col: 13, offset: 91706},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 13, offset: 91488},
+																										pos:        position{line: 2890, col: 13, offset: 91706},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6260,28 +6260,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6290,9 +6290,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -6357,10 +6357,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 796, col: 8, offset: 25806},
 																								expr: &actionExpr{
-																									pos: position{line: 2935, col: 10, offset: 92962},
+																									pos: position{line: 2944, col: 10, offset: 93180},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2935, col: 10, offset: 92962},
+																										pos:        position{line: 2944, col: 10, offset: 93180},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6369,28 +6369,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2957, col: 8, offset: 93360},
+																								pos: position{line: 2966, col: 8, offset: 93578},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2944, col: 12, offset: 93133},
+																										pos: position{line: 2953, col: 12, offset: 93351},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2944, col: 13, offset: 93134},
+																											pos: position{line: 2953, col: 13, offset: 93352},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 13, offset: 93134},
+																													pos:        position{line: 2953, col: 13, offset: 93352},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 20, offset: 93141},
+																													pos:        position{line: 2953, col: 20, offset: 93359},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 29, offset: 93150},
+																													pos:        position{line: 2953, col: 29, offset: 93368},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6399,9 +6399,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2954, col: 8, offset: 93310},
+																										pos: position{line: 2963, col: 8, offset: 93528},
 																										expr: &anyMatcher{
-																											line: 2954, col: 9, offset: 93311,
+																											line: 2963, col: 9, offset: 93529,
 																										},
 																									},
 																								},
@@ -6417,9 +6417,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2954, col: 8, offset: 93310},
+																		pos: position{line: 2963, col: 8, offset: 93528},
 																		expr: &anyMatcher{
-																			line: 2954, col: 9, offset: 93311,
+																			line: 2963, col: 9, offset: 93529,
 																		},
 																	},
 																},
@@ -6475,10 +6475,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 810, col: 8, offset: 26282},
 																		expr: &actionExpr{
-																			pos: position{line: 2935, col: 10, offset: 92962},
+																			pos: position{line: 2944, col: 10, offset: 93180},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2935, col: 10, offset: 92962},
+																				pos:        position{line: 2944, col: 10, offset: 93180},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6487,28 +6487,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2957, col: 8, offset: 93360},
+																		pos: position{line: 2966, col: 8, offset: 93578},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
+																				pos: position{line: 2953, col: 12, offset: 93351},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6517,9 +6517,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2954, col: 8, offset: 93310},
+																				pos: position{line: 2963, col: 8, offset: 93528},
 																				expr: &anyMatcher{
-																					line: 2954, col: 9, offset: 93311,
+																					line: 2963, col: 9, offset: 93529,
 																				},
 																			},
 																		},
@@ -6591,10 +6591,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 810, col: 8, offset: 26282},
 																												expr: &actionExpr{
-																													pos: position{line: 2935, col: 10, offset: 92962},
+																													pos: position{line: 2944, col: 10, offset: 93180},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2935, col: 10, offset: 92962},
+																														pos:        position{line: 2944, col: 10, offset: 93180},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6603,28 +6603,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2957, col: 8, offset: 93360},
+																												pos: position{line: 2966, col: 8, offset: 93578},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2944, col: 12, offset: 93133},
+																														pos: position{line: 2953, col: 12, offset: 93351},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2944, col: 13, offset: 93134},
+																															pos: position{line: 2953, col: 13, offset: 93352},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2944, col: 13, offset: 93134},
+																																	pos:        position{line: 2953, col: 13, offset: 93352},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2944, col: 20, offset: 93141},
+																																	pos:        position{line: 2953, col: 20, offset: 93359},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2944, col: 29, offset: 93150},
+																																	pos:        position{line: 2953, col: 29, offset: 93368},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6633,9 +6633,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2954, col: 8, offset: 93310},
+																														pos: position{line: 2963, col: 8, offset: 93528},
 																														expr: &anyMatcher{
-																															line: 2954, col: 9, offset: 93311,
+																															line: 2963, col: 9, offset: 93529,
 																														},
 																													},
 																												},
@@ -6651,9 +6651,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2954, col: 8, offset: 93310},
+																						pos: position{line: 2963, col: 8, offset: 93528},
 																						expr: &anyMatcher{
-																							line: 2954, col: 9, offset: 93311,
+																							line: 2963, col: 9, offset: 93529,
 																						},
 																					},
 																				},
@@ -6669,21 +6669,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2952, col: 11, offset: 93296},
+																							pos: position{line: 2961, col: 11, offset: 93514},
 																							expr: &anyMatcher{
-																								line: 2952, col: 13, offset: 93298,
+																								line: 2961, col: 13, offset: 93516,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 13, offset: 91488},
+																								pos: position{line: 2890, col: 13, offset: 91706},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2881, col: 13, offset: 91488},
+																									pos: position{line: 2890, col: 13, offset: 91706},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 13, offset: 91488},
+																										pos:        position{line: 2890, col: 13, offset: 91706},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6693,28 +6693,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6723,9 +6723,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -6790,10 +6790,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 810, col: 8, offset: 26282},
 																								expr: &actionExpr{
-																									pos: position{line: 2935, col: 10, offset: 92962},
+																									pos: position{line: 2944, col: 10, offset: 93180},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2935, col: 10, offset: 92962},
+																										pos:        position{line: 2944, col: 10, offset: 93180},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6802,28 +6802,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2957, col: 8, offset: 93360},
+																								pos: position{line: 2966, col: 8, offset: 93578},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2944, col: 12, offset: 93133},
+																										pos: position{line: 2953, col: 12, offset: 93351},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2944, col: 13, offset: 93134},
+																											pos: position{line: 2953, col: 13, offset: 93352},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 13, offset: 93134},
+																													pos:        position{line: 2953, col: 13, offset: 93352},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 20, offset: 93141},
+																													pos:        position{line: 2953, col: 20, offset: 93359},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 29, offset: 93150},
+																													pos:        position{line: 2953, col: 29, offset: 93368},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6832,9 +6832,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2954, col: 8, offset: 93310},
+																										pos: position{line: 2963, col: 8, offset: 93528},
 																										expr: &anyMatcher{
-																											line: 2954, col: 9, offset: 93311,
+																											line: 2963, col: 9, offset: 93529,
 																										},
 																									},
 																								},
@@ -6850,9 +6850,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2954, col: 8, offset: 93310},
+																		pos: position{line: 2963, col: 8, offset: 93528},
 																		expr: &anyMatcher{
-																			line: 2954, col: 9, offset: 93311,
+																			line: 2963, col: 9, offset: 93529,
 																		},
 																	},
 																},
@@ -6886,18 +6886,18 @@ var g = &grammar{
 																				pos: position{line: 702, col: 14, offset: 22577},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2952, col: 11, offset: 93296},
+																						pos: position{line: 2961, col: 11, offset: 93514},
 																						expr: &anyMatcher{
-																							line: 2952, col: 13, offset: 93298,
+																							line: 2961, col: 13, offset: 93516,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 702, col: 21, offset: 22584},
 																						expr: &actionExpr{
-																							pos: position{line: 2935, col: 10, offset: 92962},
+																							pos: position{line: 2944, col: 10, offset: 93180},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2935, col: 10, offset: 92962},
+																								pos:        position{line: 2944, col: 10, offset: 93180},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6906,28 +6906,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2957, col: 8, offset: 93360},
+																						pos: position{line: 2966, col: 8, offset: 93578},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2944, col: 12, offset: 93133},
+																								pos: position{line: 2953, col: 12, offset: 93351},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2944, col: 13, offset: 93134},
+																									pos: position{line: 2953, col: 13, offset: 93352},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 13, offset: 93134},
+																											pos:        position{line: 2953, col: 13, offset: 93352},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 20, offset: 93141},
+																											pos:        position{line: 2953, col: 20, offset: 93359},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 29, offset: 93150},
+																											pos:        position{line: 2953, col: 29, offset: 93368},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6936,9 +6936,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2954, col: 8, offset: 93310},
+																								pos: position{line: 2963, col: 8, offset: 93528},
 																								expr: &anyMatcher{
-																									line: 2954, col: 9, offset: 93311,
+																									line: 2963, col: 9, offset: 93529,
 																								},
 																							},
 																						},
@@ -6957,12 +6957,12 @@ var g = &grammar{
 																		pos:   position{line: 1009, col: 5, offset: 31772},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2885, col: 14, offset: 91555},
+																			pos: position{line: 2894, col: 14, offset: 91773},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2885, col: 14, offset: 91555},
+																				pos: position{line: 2894, col: 14, offset: 91773},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2885, col: 14, offset: 91555},
+																					pos:        position{line: 2894, col: 14, offset: 91773},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -6972,28 +6972,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2957, col: 8, offset: 93360},
+																		pos: position{line: 2966, col: 8, offset: 93578},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
+																				pos: position{line: 2953, col: 12, offset: 93351},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7002,9 +7002,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2954, col: 8, offset: 93310},
+																				pos: position{line: 2963, col: 8, offset: 93528},
 																				expr: &anyMatcher{
-																					line: 2954, col: 9, offset: 93311,
+																					line: 2963, col: 9, offset: 93529,
 																				},
 																			},
 																		},
@@ -7036,18 +7036,18 @@ var g = &grammar{
 																							pos: position{line: 702, col: 14, offset: 22577},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2952, col: 11, offset: 93296},
+																									pos: position{line: 2961, col: 11, offset: 93514},
 																									expr: &anyMatcher{
-																										line: 2952, col: 13, offset: 93298,
+																										line: 2961, col: 13, offset: 93516,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 702, col: 21, offset: 22584},
 																									expr: &actionExpr{
-																										pos: position{line: 2935, col: 10, offset: 92962},
+																										pos: position{line: 2944, col: 10, offset: 93180},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2935, col: 10, offset: 92962},
+																											pos:        position{line: 2944, col: 10, offset: 93180},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7056,28 +7056,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2957, col: 8, offset: 93360},
+																									pos: position{line: 2966, col: 8, offset: 93578},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2944, col: 12, offset: 93133},
+																											pos: position{line: 2953, col: 12, offset: 93351},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2944, col: 13, offset: 93134},
+																												pos: position{line: 2953, col: 13, offset: 93352},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 13, offset: 93134},
+																														pos:        position{line: 2953, col: 13, offset: 93352},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 20, offset: 93141},
+																														pos:        position{line: 2953, col: 20, offset: 93359},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 29, offset: 93150},
+																														pos:        position{line: 2953, col: 29, offset: 93368},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7086,9 +7086,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2954, col: 8, offset: 93310},
+																											pos: position{line: 2963, col: 8, offset: 93528},
 																											expr: &anyMatcher{
-																												line: 2954, col: 9, offset: 93311,
+																												line: 2963, col: 9, offset: 93529,
 																											},
 																										},
 																									},
@@ -7107,12 +7107,12 @@ var g = &grammar{
 																					pos:   position{line: 1009, col: 5, offset: 31772},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2885, col: 14, offset: 91555},
+																						pos: position{line: 2894, col: 14, offset: 91773},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2885, col: 14, offset: 91555},
+																							pos: position{line: 2894, col: 14, offset: 91773},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2885, col: 14, offset: 91555},
+																								pos:        position{line: 2894, col: 14, offset: 91773},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7122,28 +7122,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2957, col: 8, offset: 93360},
+																					pos: position{line: 2966, col: 8, offset: 93578},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2944, col: 12, offset: 93133},
+																							pos: position{line: 2953, col: 12, offset: 93351},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2944, col: 13, offset: 93134},
+																								pos: position{line: 2953, col: 13, offset: 93352},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 13, offset: 93134},
+																										pos:        position{line: 2953, col: 13, offset: 93352},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 20, offset: 93141},
+																										pos:        position{line: 2953, col: 20, offset: 93359},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 29, offset: 93150},
+																										pos:        position{line: 2953, col: 29, offset: 93368},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7152,9 +7152,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2954, col: 8, offset: 93310},
+																							pos: position{line: 2963, col: 8, offset: 93528},
 																							expr: &anyMatcher{
-																								line: 2954, col: 9, offset: 93311,
+																								line: 2963, col: 9, offset: 93529,
 																							},
 																						},
 																					},
@@ -7172,12 +7172,12 @@ var g = &grammar{
 																					pos:   position{line: 1816, col: 5, offset: 58966},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2885, col: 14, offset: 91555},
+																						pos: position{line: 2894, col: 14, offset: 91773},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2885, col: 14, offset: 91555},
+																							pos: position{line: 2894, col: 14, offset: 91773},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2885, col: 14, offset: 91555},
+																								pos:        position{line: 2894, col: 14, offset: 91773},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7191,28 +7191,28 @@ var g = &grammar{
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2957, col: 8, offset: 93360},
+																					pos: position{line: 2966, col: 8, offset: 93578},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2944, col: 12, offset: 93133},
+																							pos: position{line: 2953, col: 12, offset: 93351},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2944, col: 13, offset: 93134},
+																								pos: position{line: 2953, col: 13, offset: 93352},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 13, offset: 93134},
+																										pos:        position{line: 2953, col: 13, offset: 93352},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 20, offset: 93141},
+																										pos:        position{line: 2953, col: 20, offset: 93359},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 29, offset: 93150},
+																										pos:        position{line: 2953, col: 29, offset: 93368},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7221,9 +7221,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2954, col: 8, offset: 93310},
+																							pos: position{line: 2963, col: 8, offset: 93528},
 																							expr: &anyMatcher{
-																								line: 2954, col: 9, offset: 93311,
+																								line: 2963, col: 9, offset: 93529,
 																							},
 																						},
 																					},
@@ -7270,10 +7270,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 803, col: 8, offset: 26037},
 																		expr: &actionExpr{
-																			pos: position{line: 2935, col: 10, offset: 92962},
+																			pos: position{line: 2944, col: 10, offset: 93180},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2935, col: 10, offset: 92962},
+																				pos:        position{line: 2944, col: 10, offset: 93180},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7282,28 +7282,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2957, col: 8, offset: 93360},
+																		pos: position{line: 2966, col: 8, offset: 93578},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
+																				pos: position{line: 2953, col: 12, offset: 93351},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7312,9 +7312,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2954, col: 8, offset: 93310},
+																				pos: position{line: 2963, col: 8, offset: 93528},
 																				expr: &anyMatcher{
-																					line: 2954, col: 9, offset: 93311,
+																					line: 2963, col: 9, offset: 93529,
 																				},
 																			},
 																		},
@@ -7362,10 +7362,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 803, col: 8, offset: 26037},
 																									expr: &actionExpr{
-																										pos: position{line: 2935, col: 10, offset: 92962},
+																										pos: position{line: 2944, col: 10, offset: 93180},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2935, col: 10, offset: 92962},
+																											pos:        position{line: 2944, col: 10, offset: 93180},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7374,28 +7374,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2957, col: 8, offset: 93360},
+																									pos: position{line: 2966, col: 8, offset: 93578},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2944, col: 12, offset: 93133},
+																											pos: position{line: 2953, col: 12, offset: 93351},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2944, col: 13, offset: 93134},
+																												pos: position{line: 2953, col: 13, offset: 93352},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 13, offset: 93134},
+																														pos:        position{line: 2953, col: 13, offset: 93352},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 20, offset: 93141},
+																														pos:        position{line: 2953, col: 20, offset: 93359},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 29, offset: 93150},
+																														pos:        position{line: 2953, col: 29, offset: 93368},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7404,9 +7404,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2954, col: 8, offset: 93310},
+																											pos: position{line: 2963, col: 8, offset: 93528},
 																											expr: &anyMatcher{
-																												line: 2954, col: 9, offset: 93311,
+																												line: 2963, col: 9, offset: 93529,
 																											},
 																										},
 																									},
@@ -7415,9 +7415,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2954, col: 8, offset: 93310},
+																						pos: position{line: 2963, col: 8, offset: 93528},
 																						expr: &anyMatcher{
-																							line: 2954, col: 9, offset: 93311,
+																							line: 2963, col: 9, offset: 93529,
 																						},
 																					},
 																				},
@@ -7433,21 +7433,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2952, col: 11, offset: 93296},
+																							pos: position{line: 2961, col: 11, offset: 93514},
 																							expr: &anyMatcher{
-																								line: 2952, col: 13, offset: 93298,
+																								line: 2961, col: 13, offset: 93516,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 13, offset: 91488},
+																								pos: position{line: 2890, col: 13, offset: 91706},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2881, col: 13, offset: 91488},
+																									pos: position{line: 2890, col: 13, offset: 91706},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 13, offset: 91488},
+																										pos:        position{line: 2890, col: 13, offset: 91706},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7457,28 +7457,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7487,9 +7487,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -7534,10 +7534,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 803, col: 8, offset: 26037},
 																					expr: &actionExpr{
-																						pos: position{line: 2935, col: 10, offset: 92962},
+																						pos: position{line: 2944, col: 10, offset: 93180},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2935, col: 10, offset: 92962},
+																							pos:        position{line: 2944, col: 10, offset: 93180},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7546,28 +7546,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2957, col: 8, offset: 93360},
+																					pos: position{line: 2966, col: 8, offset: 93578},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2944, col: 12, offset: 93133},
+																							pos: position{line: 2953, col: 12, offset: 93351},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2944, col: 13, offset: 93134},
+																								pos: position{line: 2953, col: 13, offset: 93352},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 13, offset: 93134},
+																										pos:        position{line: 2953, col: 13, offset: 93352},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 20, offset: 93141},
+																										pos:        position{line: 2953, col: 20, offset: 93359},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 29, offset: 93150},
+																										pos:        position{line: 2953, col: 29, offset: 93368},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7576,9 +7576,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2954, col: 8, offset: 93310},
+																							pos: position{line: 2963, col: 8, offset: 93528},
 																							expr: &anyMatcher{
-																								line: 2954, col: 9, offset: 93311,
+																								line: 2963, col: 9, offset: 93529,
 																							},
 																						},
 																					},
@@ -7587,9 +7587,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2954, col: 8, offset: 93310},
+																		pos: position{line: 2963, col: 8, offset: 93528},
 																		expr: &anyMatcher{
-																			line: 2954, col: 9, offset: 93311,
+																			line: 2963, col: 9, offset: 93529,
 																		},
 																	},
 																},
@@ -7645,10 +7645,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 817, col: 8, offset: 26534},
 																		expr: &actionExpr{
-																			pos: position{line: 2935, col: 10, offset: 92962},
+																			pos: position{line: 2944, col: 10, offset: 93180},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2935, col: 10, offset: 92962},
+																				pos:        position{line: 2944, col: 10, offset: 93180},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7657,28 +7657,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2957, col: 8, offset: 93360},
+																		pos: position{line: 2966, col: 8, offset: 93578},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
+																				pos: position{line: 2953, col: 12, offset: 93351},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7687,9 +7687,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2954, col: 8, offset: 93310},
+																				pos: position{line: 2963, col: 8, offset: 93528},
 																				expr: &anyMatcher{
-																					line: 2954, col: 9, offset: 93311,
+																					line: 2963, col: 9, offset: 93529,
 																				},
 																			},
 																		},
@@ -7761,10 +7761,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 817, col: 8, offset: 26534},
 																												expr: &actionExpr{
-																													pos: position{line: 2935, col: 10, offset: 92962},
+																													pos: position{line: 2944, col: 10, offset: 93180},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2935, col: 10, offset: 92962},
+																														pos:        position{line: 2944, col: 10, offset: 93180},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7773,28 +7773,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2957, col: 8, offset: 93360},
+																												pos: position{line: 2966, col: 8, offset: 93578},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2944, col: 12, offset: 93133},
+																														pos: position{line: 2953, col: 12, offset: 93351},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2944, col: 13, offset: 93134},
+																															pos: position{line: 2953, col: 13, offset: 93352},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2944, col: 13, offset: 93134},
+																																	pos:        position{line: 2953, col: 13, offset: 93352},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2944, col: 20, offset: 93141},
+																																	pos:        position{line: 2953, col: 20, offset: 93359},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2944, col: 29, offset: 93150},
+																																	pos:        position{line: 2953, col: 29, offset: 93368},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7803,9 +7803,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2954, col: 8, offset: 93310},
+																														pos: position{line: 2963, col: 8, offset: 93528},
 																														expr: &anyMatcher{
-																															line: 2954, col: 9, offset: 93311,
+																															line: 2963, col: 9, offset: 93529,
 																														},
 																													},
 																												},
@@ -7821,9 +7821,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2954, col: 8, offset: 93310},
+																						pos: position{line: 2963, col: 8, offset: 93528},
 																						expr: &anyMatcher{
-																							line: 2954, col: 9, offset: 93311,
+																							line: 2963, col: 9, offset: 93529,
 																						},
 																					},
 																				},
@@ -7839,21 +7839,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2952, col: 11, offset: 93296},
+																							pos: position{line: 2961, col: 11, offset: 93514},
 																							expr: &anyMatcher{
-																								line: 2952, col: 13, offset: 93298,
+																								line: 2961, col: 13, offset: 93516,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 13, offset: 91488},
+																								pos: position{line: 2890, col: 13, offset: 91706},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2881, col: 13, offset: 91488},
+																									pos: position{line: 2890, col: 13, offset: 91706},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 13, offset: 91488},
+																										pos:        position{line: 2890, col: 13, offset: 91706},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7863,28 +7863,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7893,9 +7893,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -7960,10 +7960,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 817, col: 8, offset: 26534},
 																								expr: &actionExpr{
-																									pos: position{line: 2935, col: 10, offset: 92962},
+																									pos: position{line: 2944, col: 10, offset: 93180},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2935, col: 10, offset: 92962},
+																										pos:        position{line: 2944, col: 10, offset: 93180},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7972,28 +7972,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2957, col: 8, offset: 93360},
+																								pos: position{line: 2966, col: 8, offset: 93578},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2944, col: 12, offset: 93133},
+																										pos: position{line: 2953, col: 12, offset: 93351},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2944, col: 13, offset: 93134},
+																											pos: position{line: 2953, col: 13, offset: 93352},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 13, offset: 93134},
+																													pos:        position{line: 2953, col: 13, offset: 93352},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 20, offset: 93141},
+																													pos:        position{line: 2953, col: 20, offset: 93359},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 29, offset: 93150},
+																													pos:        position{line: 2953, col: 29, offset: 93368},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8002,9 +8002,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2954, col: 8, offset: 93310},
+																										pos: position{line: 2963, col: 8, offset: 93528},
 																										expr: &anyMatcher{
-																											line: 2954, col: 9, offset: 93311,
+																											line: 2963, col: 9, offset: 93529,
 																										},
 																									},
 																								},
@@ -8020,9 +8020,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2954, col: 8, offset: 93310},
+																		pos: position{line: 2963, col: 8, offset: 93528},
 																		expr: &anyMatcher{
-																			line: 2954, col: 9, offset: 93311,
+																			line: 2963, col: 9, offset: 93529,
 																		},
 																	},
 																},
@@ -8078,10 +8078,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 824, col: 8, offset: 26784},
 																		expr: &actionExpr{
-																			pos: position{line: 2935, col: 10, offset: 92962},
+																			pos: position{line: 2944, col: 10, offset: 93180},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2935, col: 10, offset: 92962},
+																				pos:        position{line: 2944, col: 10, offset: 93180},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8090,28 +8090,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2957, col: 8, offset: 93360},
+																		pos: position{line: 2966, col: 8, offset: 93578},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
+																				pos: position{line: 2953, col: 12, offset: 93351},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8120,9 +8120,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2954, col: 8, offset: 93310},
+																				pos: position{line: 2963, col: 8, offset: 93528},
 																				expr: &anyMatcher{
-																					line: 2954, col: 9, offset: 93311,
+																					line: 2963, col: 9, offset: 93529,
 																				},
 																			},
 																		},
@@ -8194,10 +8194,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 824, col: 8, offset: 26784},
 																												expr: &actionExpr{
-																													pos: position{line: 2935, col: 10, offset: 92962},
+																													pos: position{line: 2944, col: 10, offset: 93180},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2935, col: 10, offset: 92962},
+																														pos:        position{line: 2944, col: 10, offset: 93180},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8206,28 +8206,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2957, col: 8, offset: 93360},
+																												pos: position{line: 2966, col: 8, offset: 93578},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2944, col: 12, offset: 93133},
+																														pos: position{line: 2953, col: 12, offset: 93351},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2944, col: 13, offset: 93134},
+																															pos: position{line: 2953, col: 13, offset: 93352},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2944, col: 13, offset: 93134},
+																																	pos:        position{line: 2953, col: 13, offset: 93352},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2944, col: 20, offset: 93141},
+																																	pos:        position{line: 2953, col: 20, offset: 93359},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2944, col: 29, offset: 93150},
+																																	pos:        position{line: 2953, col: 29, offset: 93368},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8236,9 +8236,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2954, col: 8, offset: 93310},
+																														pos: position{line: 2963, col: 8, offset: 93528},
 																														expr: &anyMatcher{
-																															line: 2954, col: 9, offset: 93311,
+																															line: 2963, col: 9, offset: 93529,
 																														},
 																													},
 																												},
@@ -8254,9 +8254,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2954, col: 8, offset: 93310},
+																						pos: position{line: 2963, col: 8, offset: 93528},
 																						expr: &anyMatcher{
-																							line: 2954, col: 9, offset: 93311,
+																							line: 2963, col: 9, offset: 93529,
 																						},
 																					},
 																				},
@@ -8272,21 +8272,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2952, col: 11, offset: 93296},
+																							pos: position{line: 2961, col: 11, offset: 93514},
 																							expr: &anyMatcher{
-																								line: 2952, col: 13, offset: 93298,
+																								line: 2961, col: 13, offset: 93516,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 13, offset: 91488},
+																								pos: position{line: 2890, col: 13, offset: 91706},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2881, col: 13, offset: 91488},
+																									pos: position{line: 2890, col: 13, offset: 91706},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 13, offset: 91488},
+																										pos:        position{line: 2890, col: 13, offset: 91706},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8296,28 +8296,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8326,9 +8326,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -8393,10 +8393,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 824, col: 8, offset: 26784},
 																								expr: &actionExpr{
-																									pos: position{line: 2935, col: 10, offset: 92962},
+																									pos: position{line: 2944, col: 10, offset: 93180},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2935, col: 10, offset: 92962},
+																										pos:        position{line: 2944, col: 10, offset: 93180},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8405,28 +8405,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2957, col: 8, offset: 93360},
+																								pos: position{line: 2966, col: 8, offset: 93578},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2944, col: 12, offset: 93133},
+																										pos: position{line: 2953, col: 12, offset: 93351},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2944, col: 13, offset: 93134},
+																											pos: position{line: 2953, col: 13, offset: 93352},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 13, offset: 93134},
+																													pos:        position{line: 2953, col: 13, offset: 93352},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 20, offset: 93141},
+																													pos:        position{line: 2953, col: 20, offset: 93359},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 29, offset: 93150},
+																													pos:        position{line: 2953, col: 29, offset: 93368},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8435,9 +8435,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2954, col: 8, offset: 93310},
+																										pos: position{line: 2963, col: 8, offset: 93528},
 																										expr: &anyMatcher{
-																											line: 2954, col: 9, offset: 93311,
+																											line: 2963, col: 9, offset: 93529,
 																										},
 																									},
 																								},
@@ -8453,9 +8453,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2954, col: 8, offset: 93310},
+																		pos: position{line: 2963, col: 8, offset: 93528},
 																		expr: &anyMatcher{
-																			line: 2954, col: 9, offset: 93311,
+																			line: 2963, col: 9, offset: 93529,
 																		},
 																	},
 																},
@@ -8511,10 +8511,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 831, col: 8, offset: 27030},
 																		expr: &actionExpr{
-																			pos: position{line: 2935, col: 10, offset: 92962},
+																			pos: position{line: 2944, col: 10, offset: 93180},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2935, col: 10, offset: 92962},
+																				pos:        position{line: 2944, col: 10, offset: 93180},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8523,28 +8523,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2957, col: 8, offset: 93360},
+																		pos: position{line: 2966, col: 8, offset: 93578},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
+																				pos: position{line: 2953, col: 12, offset: 93351},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8553,9 +8553,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2954, col: 8, offset: 93310},
+																				pos: position{line: 2963, col: 8, offset: 93528},
 																				expr: &anyMatcher{
-																					line: 2954, col: 9, offset: 93311,
+																					line: 2963, col: 9, offset: 93529,
 																				},
 																			},
 																		},
@@ -8627,10 +8627,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 831, col: 8, offset: 27030},
 																												expr: &actionExpr{
-																													pos: position{line: 2935, col: 10, offset: 92962},
+																													pos: position{line: 2944, col: 10, offset: 93180},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2935, col: 10, offset: 92962},
+																														pos:        position{line: 2944, col: 10, offset: 93180},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8639,28 +8639,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2957, col: 8, offset: 93360},
+																												pos: position{line: 2966, col: 8, offset: 93578},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2944, col: 12, offset: 93133},
+																														pos: position{line: 2953, col: 12, offset: 93351},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2944, col: 13, offset: 93134},
+																															pos: position{line: 2953, col: 13, offset: 93352},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2944, col: 13, offset: 93134},
+																																	pos:        position{line: 2953, col: 13, offset: 93352},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2944, col: 20, offset: 93141},
+																																	pos:        position{line: 2953, col: 20, offset: 93359},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2944, col: 29, offset: 93150},
+																																	pos:        position{line: 2953, col: 29, offset: 93368},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8669,9 +8669,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2954, col: 8, offset: 93310},
+																														pos: position{line: 2963, col: 8, offset: 93528},
 																														expr: &anyMatcher{
-																															line: 2954, col: 9, offset: 93311,
+																															line: 2963, col: 9, offset: 93529,
 																														},
 																													},
 																												},
@@ -8687,9 +8687,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2954, col: 8, offset: 93310},
+																						pos: position{line: 2963, col: 8, offset: 93528},
 																						expr: &anyMatcher{
-																							line: 2954, col: 9, offset: 93311,
+																							line: 2963, col: 9, offset: 93529,
 																						},
 																					},
 																				},
@@ -8705,21 +8705,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2952, col: 11, offset: 93296},
+																							pos: position{line: 2961, col: 11, offset: 93514},
 																							expr: &anyMatcher{
-																								line: 2952, col: 13, offset: 93298,
+																								line: 2961, col: 13, offset: 93516,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 13, offset: 91488},
+																								pos: position{line: 2890, col: 13, offset: 91706},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2881, col: 13, offset: 91488},
+																									pos: position{line: 2890, col: 13, offset: 91706},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 13, offset: 91488},
+																										pos:        position{line: 2890, col: 13, offset: 91706},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8729,28 +8729,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8759,9 +8759,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -8826,10 +8826,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 831, col: 8, offset: 27030},
 																								expr: &actionExpr{
-																									pos: position{line: 2935, col: 10, offset: 92962},
+																									pos: position{line: 2944, col: 10, offset: 93180},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2935, col: 10, offset: 92962},
+																										pos:        position{line: 2944, col: 10, offset: 93180},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8838,28 +8838,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2957, col: 8, offset: 93360},
+																								pos: position{line: 2966, col: 8, offset: 93578},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2944, col: 12, offset: 93133},
+																										pos: position{line: 2953, col: 12, offset: 93351},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2944, col: 13, offset: 93134},
+																											pos: position{line: 2953, col: 13, offset: 93352},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 13, offset: 93134},
+																													pos:        position{line: 2953, col: 13, offset: 93352},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 20, offset: 93141},
+																													pos:        position{line: 2953, col: 20, offset: 93359},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 29, offset: 93150},
+																													pos:        position{line: 2953, col: 29, offset: 93368},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8868,9 +8868,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2954, col: 8, offset: 93310},
+																										pos: position{line: 2963, col: 8, offset: 93528},
 																										expr: &anyMatcher{
-																											line: 2954, col: 9, offset: 93311,
+																											line: 2963, col: 9, offset: 93529,
 																										},
 																									},
 																								},
@@ -8886,9 +8886,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2954, col: 8, offset: 93310},
+																		pos: position{line: 2963, col: 8, offset: 93528},
 																		expr: &anyMatcher{
-																			line: 2954, col: 9, offset: 93311,
+																			line: 2963, col: 9, offset: 93529,
 																		},
 																	},
 																},
@@ -8899,52 +8899,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2780, col: 18, offset: 88552},
+											pos: position{line: 2789, col: 18, offset: 88770},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2780, col: 18, offset: 88552},
+												pos: position{line: 2789, col: 18, offset: 88770},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2781, col: 9, offset: 88562},
+														pos: position{line: 2790, col: 9, offset: 88780},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2781, col: 9, offset: 88562},
+																pos:        position{line: 2790, col: 9, offset: 88780},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2782, col: 11, offset: 88598},
+																pos:        position{line: 2791, col: 11, offset: 88816},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2782, col: 19, offset: 88606},
+																pos:        position{line: 2791, col: 19, offset: 88824},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2782, col: 29, offset: 88616},
+																pos:        position{line: 2791, col: 29, offset: 88834},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2782, col: 37, offset: 88624},
+																pos:        position{line: 2791, col: 37, offset: 88842},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2782, col: 47, offset: 88634},
+																pos:        position{line: 2791, col: 47, offset: 88852},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2782, col: 55, offset: 88642},
+																pos:        position{line: 2791, col: 55, offset: 88860},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -8952,12 +8952,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2783, col: 11, offset: 88700},
+														pos: position{line: 2792, col: 11, offset: 88918},
 														expr: &actionExpr{
-															pos: position{line: 2935, col: 10, offset: 92962},
+															pos: position{line: 2944, col: 10, offset: 93180},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2935, col: 10, offset: 92962},
+																pos:        position{line: 2944, col: 10, offset: 93180},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -8966,28 +8966,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2957, col: 8, offset: 93360},
+														pos: position{line: 2966, col: 8, offset: 93578},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2944, col: 12, offset: 93133},
+																pos: position{line: 2953, col: 12, offset: 93351},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2944, col: 13, offset: 93134},
+																	pos: position{line: 2953, col: 13, offset: 93352},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 13, offset: 93134},
+																			pos:        position{line: 2953, col: 13, offset: 93352},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 20, offset: 93141},
+																			pos:        position{line: 2953, col: 20, offset: 93359},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 29, offset: 93150},
+																			pos:        position{line: 2953, col: 29, offset: 93368},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -8996,36 +8996,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2954, col: 8, offset: 93310},
+																pos: position{line: 2963, col: 8, offset: 93528},
 																expr: &anyMatcher{
-																	line: 2954, col: 9, offset: 93311,
+																	line: 2963, col: 9, offset: 93529,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2957, col: 8, offset: 93360},
+														pos: position{line: 2966, col: 8, offset: 93578},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2944, col: 12, offset: 93133},
+																pos: position{line: 2953, col: 12, offset: 93351},
 																run: (*parser).callonDocumentFragment1098,
 																expr: &choiceExpr{
-																	pos: position{line: 2944, col: 13, offset: 93134},
+																	pos: position{line: 2953, col: 13, offset: 93352},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 13, offset: 93134},
+																			pos:        position{line: 2953, col: 13, offset: 93352},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 20, offset: 93141},
+																			pos:        position{line: 2953, col: 20, offset: 93359},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 29, offset: 93150},
+																			pos:        position{line: 2953, col: 29, offset: 93368},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9034,9 +9034,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2954, col: 8, offset: 93310},
+																pos: position{line: 2963, col: 8, offset: 93528},
 																expr: &anyMatcher{
-																	line: 2954, col: 9, offset: 93311,
+																	line: 2963, col: 9, offset: 93529,
 																},
 															},
 														},
@@ -9063,10 +9063,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 2670, col: 26, offset: 85493},
 														expr: &actionExpr{
-															pos: position{line: 2935, col: 10, offset: 92962},
+															pos: position{line: 2944, col: 10, offset: 93180},
 															run: (*parser).callonDocumentFragment1110,
 															expr: &charClassMatcher{
-																pos:        position{line: 2935, col: 10, offset: 92962},
+																pos:        position{line: 2944, col: 10, offset: 93180},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9075,28 +9075,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2957, col: 8, offset: 93360},
+														pos: position{line: 2966, col: 8, offset: 93578},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2944, col: 12, offset: 93133},
+																pos: position{line: 2953, col: 12, offset: 93351},
 																run: (*parser).callonDocumentFragment1113,
 																expr: &choiceExpr{
-																	pos: position{line: 2944, col: 13, offset: 93134},
+																	pos: position{line: 2953, col: 13, offset: 93352},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 13, offset: 93134},
+																			pos:        position{line: 2953, col: 13, offset: 93352},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 20, offset: 93141},
+																			pos:        position{line: 2953, col: 20, offset: 93359},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 29, offset: 93150},
+																			pos:        position{line: 2953, col: 29, offset: 93368},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9105,9 +9105,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2954, col: 8, offset: 93310},
+																pos: position{line: 2963, col: 8, offset: 93528},
 																expr: &anyMatcher{
-																	line: 2954, col: 9, offset: 93311,
+																	line: 2963, col: 9, offset: 93529,
 																},
 															},
 														},
@@ -9127,18 +9127,18 @@ var g = &grammar{
 																			pos: position{line: 702, col: 14, offset: 22577},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2952, col: 11, offset: 93296},
+																					pos: position{line: 2961, col: 11, offset: 93514},
 																					expr: &anyMatcher{
-																						line: 2952, col: 13, offset: 93298,
+																						line: 2961, col: 13, offset: 93516,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 702, col: 21, offset: 22584},
 																					expr: &actionExpr{
-																						pos: position{line: 2935, col: 10, offset: 92962},
+																						pos: position{line: 2944, col: 10, offset: 93180},
 																						run: (*parser).callonDocumentFragment1128,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2935, col: 10, offset: 92962},
+																							pos:        position{line: 2944, col: 10, offset: 93180},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9147,28 +9147,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2957, col: 8, offset: 93360},
+																					pos: position{line: 2966, col: 8, offset: 93578},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2944, col: 12, offset: 93133},
+																							pos: position{line: 2953, col: 12, offset: 93351},
 																							run: (*parser).callonDocumentFragment1131,
 																							expr: &choiceExpr{
-																								pos: position{line: 2944, col: 13, offset: 93134},
+																								pos: position{line: 2953, col: 13, offset: 93352},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 13, offset: 93134},
+																										pos:        position{line: 2953, col: 13, offset: 93352},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 20, offset: 93141},
+																										pos:        position{line: 2953, col: 20, offset: 93359},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 29, offset: 93150},
+																										pos:        position{line: 2953, col: 29, offset: 93368},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9177,9 +9177,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2954, col: 8, offset: 93310},
+																							pos: position{line: 2963, col: 8, offset: 93528},
 																							expr: &anyMatcher{
-																								line: 2954, col: 9, offset: 93311,
+																								line: 2963, col: 9, offset: 93529,
 																							},
 																						},
 																					},
@@ -9212,12 +9212,12 @@ var g = &grammar{
 																					pos:   position{line: 2538, col: 49, offset: 81767},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2881, col: 13, offset: 91488},
+																						pos: position{line: 2890, col: 13, offset: 91706},
 																						run: (*parser).callonDocumentFragment1144,
 																						expr: &zeroOrMoreExpr{
-																							pos: position{line: 2881, col: 13, offset: 91488},
+																							pos: position{line: 2890, col: 13, offset: 91706},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2881, col: 13, offset: 91488},
+																								pos:        position{line: 2890, col: 13, offset: 91706},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -9227,28 +9227,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2957, col: 8, offset: 93360},
+																					pos: position{line: 2966, col: 8, offset: 93578},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2944, col: 12, offset: 93133},
+																							pos: position{line: 2953, col: 12, offset: 93351},
 																							run: (*parser).callonDocumentFragment1148,
 																							expr: &choiceExpr{
-																								pos: position{line: 2944, col: 13, offset: 93134},
+																								pos: position{line: 2953, col: 13, offset: 93352},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 13, offset: 93134},
+																										pos:        position{line: 2953, col: 13, offset: 93352},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 20, offset: 93141},
+																										pos:        position{line: 2953, col: 20, offset: 93359},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 29, offset: 93150},
+																										pos:        position{line: 2953, col: 29, offset: 93368},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9257,9 +9257,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2954, col: 8, offset: 93310},
+																							pos: position{line: 2963, col: 8, offset: 93528},
 																							expr: &anyMatcher{
-																								line: 2954, col: 9, offset: 93311,
+																								line: 2963, col: 9, offset: 93529,
 																							},
 																						},
 																					},
@@ -9290,10 +9290,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 2670, col: 26, offset: 85493},
 																										expr: &actionExpr{
-																											pos: position{line: 2935, col: 10, offset: 92962},
+																											pos: position{line: 2944, col: 10, offset: 93180},
 																											run: (*parser).callonDocumentFragment1162,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2935, col: 10, offset: 92962},
+																												pos:        position{line: 2944, col: 10, offset: 93180},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9302,28 +9302,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2957, col: 8, offset: 93360},
+																										pos: position{line: 2966, col: 8, offset: 93578},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2944, col: 12, offset: 93133},
+																												pos: position{line: 2953, col: 12, offset: 93351},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &choiceExpr{
-																													pos: position{line: 2944, col: 13, offset: 93134},
+																													pos: position{line: 2953, col: 13, offset: 93352},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2944, col: 13, offset: 93134},
+																															pos:        position{line: 2953, col: 13, offset: 93352},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2944, col: 20, offset: 93141},
+																															pos:        position{line: 2953, col: 20, offset: 93359},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2944, col: 29, offset: 93150},
+																															pos:        position{line: 2953, col: 29, offset: 93368},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9332,9 +9332,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2954, col: 8, offset: 93310},
+																												pos: position{line: 2963, col: 8, offset: 93528},
 																												expr: &anyMatcher{
-																													line: 2954, col: 9, offset: 93311,
+																													line: 2963, col: 9, offset: 93529,
 																												},
 																											},
 																										},
@@ -9342,9 +9342,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2954, col: 8, offset: 93310},
+																								pos: position{line: 2963, col: 8, offset: 93528},
 																								expr: &anyMatcher{
-																									line: 2954, col: 9, offset: 93311,
+																									line: 2963, col: 9, offset: 93529,
 																								},
 																							},
 																						},
@@ -9391,10 +9391,10 @@ var g = &grammar{
 																																			&zeroOrMoreExpr{
 																																				pos: position{line: 2692, col: 9, offset: 85935},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2935, col: 10, offset: 92962},
+																																					pos: position{line: 2944, col: 10, offset: 93180},
 																																					run: (*parser).callonDocumentFragment1187,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2935, col: 10, offset: 92962},
+																																						pos:        position{line: 2944, col: 10, offset: 93180},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9434,28 +9434,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2957, col: 8, offset: 93360},
+																															pos: position{line: 2966, col: 8, offset: 93578},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2944, col: 12, offset: 93133},
+																																	pos: position{line: 2953, col: 12, offset: 93351},
 																																	run: (*parser).callonDocumentFragment1196,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2944, col: 13, offset: 93134},
+																																		pos: position{line: 2953, col: 13, offset: 93352},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2944, col: 13, offset: 93134},
+																																				pos:        position{line: 2953, col: 13, offset: 93352},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2944, col: 20, offset: 93141},
+																																				pos:        position{line: 2953, col: 20, offset: 93359},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2944, col: 29, offset: 93150},
+																																				pos:        position{line: 2953, col: 29, offset: 93368},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9464,9 +9464,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2954, col: 8, offset: 93310},
+																																	pos: position{line: 2963, col: 8, offset: 93528},
 																																	expr: &anyMatcher{
-																																		line: 2954, col: 9, offset: 93311,
+																																		line: 2963, col: 9, offset: 93529,
 																																	},
 																																},
 																															},
@@ -9505,10 +9505,10 @@ var g = &grammar{
 																																						&zeroOrMoreExpr{
 																																							pos: position{line: 2670, col: 26, offset: 85493},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2935, col: 10, offset: 92962},
+																																								pos: position{line: 2944, col: 10, offset: 93180},
 																																								run: (*parser).callonDocumentFragment1213,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2935, col: 10, offset: 92962},
+																																									pos:        position{line: 2944, col: 10, offset: 93180},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9517,28 +9517,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2957, col: 8, offset: 93360},
+																																							pos: position{line: 2966, col: 8, offset: 93578},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2944, col: 12, offset: 93133},
+																																									pos: position{line: 2953, col: 12, offset: 93351},
 																																									run: (*parser).callonDocumentFragment1216,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2944, col: 13, offset: 93134},
+																																										pos: position{line: 2953, col: 13, offset: 93352},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2944, col: 13, offset: 93134},
+																																												pos:        position{line: 2953, col: 13, offset: 93352},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2944, col: 20, offset: 93141},
+																																												pos:        position{line: 2953, col: 20, offset: 93359},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2944, col: 29, offset: 93150},
+																																												pos:        position{line: 2953, col: 29, offset: 93368},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9547,9 +9547,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2954, col: 8, offset: 93310},
+																																									pos: position{line: 2963, col: 8, offset: 93528},
 																																									expr: &anyMatcher{
-																																										line: 2954, col: 9, offset: 93311,
+																																										line: 2963, col: 9, offset: 93529,
 																																									},
 																																								},
 																																							},
@@ -9557,9 +9557,9 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2954, col: 8, offset: 93310},
+																																					pos: position{line: 2963, col: 8, offset: 93528},
 																																					expr: &anyMatcher{
-																																						line: 2954, col: 9, offset: 93311,
+																																						line: 2963, col: 9, offset: 93529,
 																																					},
 																																				},
 																																			},
@@ -9574,18 +9574,18 @@ var g = &grammar{
 																																				pos: position{line: 702, col: 14, offset: 22577},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2952, col: 11, offset: 93296},
+																																						pos: position{line: 2961, col: 11, offset: 93514},
 																																						expr: &anyMatcher{
-																																							line: 2952, col: 13, offset: 93298,
+																																							line: 2961, col: 13, offset: 93516,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 702, col: 21, offset: 22584},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2935, col: 10, offset: 92962},
+																																							pos: position{line: 2944, col: 10, offset: 93180},
 																																							run: (*parser).callonDocumentFragment1231,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2935, col: 10, offset: 92962},
+																																								pos:        position{line: 2944, col: 10, offset: 93180},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9594,28 +9594,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2957, col: 8, offset: 93360},
+																																						pos: position{line: 2966, col: 8, offset: 93578},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2944, col: 12, offset: 93133},
+																																								pos: position{line: 2953, col: 12, offset: 93351},
 																																								run: (*parser).callonDocumentFragment1234,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2944, col: 13, offset: 93134},
+																																									pos: position{line: 2953, col: 13, offset: 93352},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2944, col: 13, offset: 93134},
+																																											pos:        position{line: 2953, col: 13, offset: 93352},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2944, col: 20, offset: 93141},
+																																											pos:        position{line: 2953, col: 20, offset: 93359},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2944, col: 29, offset: 93150},
+																																											pos:        position{line: 2953, col: 29, offset: 93368},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9624,9 +9624,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2954, col: 8, offset: 93310},
+																																								pos: position{line: 2963, col: 8, offset: 93528},
 																																								expr: &anyMatcher{
-																																									line: 2954, col: 9, offset: 93311,
+																																									line: 2963, col: 9, offset: 93529,
 																																								},
 																																							},
 																																						},
@@ -9641,16 +9641,105 @@ var g = &grammar{
 																																		expr: &zeroOrOneExpr{
 																																			pos: position{line: 2711, col: 12, offset: 86414},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2735, col: 20, offset: 87037},
+																																				pos: position{line: 2736, col: 5, offset: 87042},
 																																				run: (*parser).callonDocumentFragment1243,
-																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2735, col: 20, offset: 87037},
-																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2735, col: 20, offset: 87037},
-																																						val:        "[^ |\\r\\n]",
-																																						chars:      []rune{' ', '|', '\r', '\n'},
-																																						ignoreCase: false,
-																																						inverted:   true,
+																																				expr: &seqExpr{
+																																					pos: position{line: 2736, col: 5, offset: 87042},
+																																					exprs: []interface{}{
+																																						&actionExpr{
+																																							pos: position{line: 2736, col: 6, offset: 87043},
+																																							run: (*parser).callonDocumentFragment1245,
+																																							expr: &litMatcher{
+																																								pos:        position{line: 2736, col: 6, offset: 87043},
+																																								val:        "",
+																																								ignoreCase: false,
+																																								want:       "\"\"",
+																																							},
+																																						},
+																																						&andCodeExpr{
+																																							pos: position{line: 2739, col: 5, offset: 87114},
+																																							run: (*parser).callonDocumentFragment1247,
+																																						},
+																																						&labeledExpr{
+																																							pos:   position{line: 2742, col: 5, offset: 87171},
+																																							label: "format",
+																																							expr: &actionExpr{
+																																								pos: position{line: 2742, col: 13, offset: 87179},
+																																								run: (*parser).callonDocumentFragment1249,
+																																								expr: &seqExpr{
+																																									pos: position{line: 2742, col: 13, offset: 87179},
+																																									exprs: []interface{}{
+																																										&zeroOrOneExpr{
+																																											pos: position{line: 2742, col: 13, offset: 87179},
+																																											expr: &seqExpr{
+																																												pos: position{line: 2742, col: 14, offset: 87180},
+																																												exprs: []interface{}{
+																																													&oneOrMoreExpr{
+																																														pos: position{line: 2742, col: 14, offset: 87180},
+																																														expr: &charClassMatcher{
+																																															pos:        position{line: 2742, col: 14, offset: 87180},
+																																															val:        "[.0-9]",
+																																															chars:      []rune{'.'},
+																																															ranges:     []rune{'0', '9'},
+																																															ignoreCase: false,
+																																															inverted:   false,
+																																														},
+																																													},
+																																													&charClassMatcher{
+																																														pos:        position{line: 2742, col: 22, offset: 87188},
+																																														val:        "[*+]",
+																																														chars:      []rune{'*', '+'},
+																																														ignoreCase: false,
+																																														inverted:   false,
+																																													},
+																																												},
+																																											},
+																																										},
+																																										&zeroOrOneExpr{
+																																											pos: position{line: 2742, col: 29, offset: 87195},
+																																											expr: &charClassMatcher{
+																																												pos:        position{line: 2742, col: 29, offset: 87195},
+																																												val:        "[<>^]",
+																																												chars:      []rune{'<', '>', '^'},
+																																												ignoreCase: false,
+																																												inverted:   false,
+																																											},
+																																										},
+																																										&zeroOrOneExpr{
+																																											pos: position{line: 2742, col: 36, offset: 87202},
+																																											expr: &seqExpr{
+																																												pos: position{line: 2742, col: 37, offset: 87203},
+																																												exprs: []interface{}{
+																																													&litMatcher{
+																																														pos:        position{line: 2742, col: 37, offset: 87203},
+																																														val:        ".",
+																																														ignoreCase: false,
+																																														want:       "\".\"",
+																																													},
+																																													&charClassMatcher{
+																																														pos:        position{line: 2742, col: 41, offset: 87207},
+																																														val:        "[<>^]",
+																																														chars:      []rune{'<', '>', '^'},
+																																														ignoreCase: false,
+																																														inverted:   false,
+																																													},
+																																												},
+																																											},
+																																										},
+																																										&zeroOrOneExpr{
+																																											pos: position{line: 2742, col: 49, offset: 87215},
+																																											expr: &charClassMatcher{
+																																												pos:        position{line: 2742, col: 49, offset: 87215},
+																																												val:        "[a-z]",
+																																												ranges:     []rune{'a', 'z'},
+																																												ignoreCase: false,
+																																												inverted:   false,
+																																											},
+																																										},
+																																									},
+																																								},
+																																							},
+																																						},
 																																					},
 																																				},
 																																			},
@@ -9665,10 +9754,10 @@ var g = &grammar{
 																																	&zeroOrMoreExpr{
 																																		pos: position{line: 2711, col: 35, offset: 86437},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2935, col: 10, offset: 92962},
-																																			run: (*parser).callonDocumentFragment1248,
+																																			pos: position{line: 2944, col: 10, offset: 93180},
+																																			run: (*parser).callonDocumentFragment1266,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2935, col: 10, offset: 92962},
+																																				pos:        position{line: 2944, col: 10, offset: 93180},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9679,25 +9768,25 @@ var g = &grammar{
 																																	&zeroOrOneExpr{
 																																		pos: position{line: 2711, col: 42, offset: 86444},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2944, col: 12, offset: 93133},
-																																			run: (*parser).callonDocumentFragment1251,
+																																			pos: position{line: 2953, col: 12, offset: 93351},
+																																			run: (*parser).callonDocumentFragment1269,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2944, col: 13, offset: 93134},
+																																				pos: position{line: 2953, col: 13, offset: 93352},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2944, col: 13, offset: 93134},
+																																						pos:        position{line: 2953, col: 13, offset: 93352},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2944, col: 20, offset: 93141},
+																																						pos:        position{line: 2953, col: 20, offset: 93359},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2944, col: 29, offset: 93150},
+																																						pos:        position{line: 2953, col: 29, offset: 93368},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9716,20 +9805,20 @@ var g = &grammar{
 																																				alternatives: []interface{}{
 																																					&actionExpr{
 																																						pos: position{line: 2718, col: 9, offset: 86622},
-																																						run: (*parser).callonDocumentFragment1259,
+																																						run: (*parser).callonDocumentFragment1277,
 																																						expr: &seqExpr{
 																																							pos: position{line: 2718, col: 9, offset: 86622},
 																																							exprs: []interface{}{
 																																								&andCodeExpr{
 																																									pos: position{line: 2718, col: 9, offset: 86622},
-																																									run: (*parser).callonDocumentFragment1261,
+																																									run: (*parser).callonDocumentFragment1279,
 																																								},
 																																								&labeledExpr{
 																																									pos:   position{line: 2721, col: 9, offset: 86691},
 																																									label: "comment",
 																																									expr: &actionExpr{
 																																										pos: position{line: 2538, col: 22, offset: 81740},
-																																										run: (*parser).callonDocumentFragment1263,
+																																										run: (*parser).callonDocumentFragment1281,
 																																										expr: &seqExpr{
 																																											pos: position{line: 2538, col: 22, offset: 81740},
 																																											exprs: []interface{}{
@@ -9752,12 +9841,12 @@ var g = &grammar{
 																																													pos:   position{line: 2538, col: 49, offset: 81767},
 																																													label: "content",
 																																													expr: &actionExpr{
-																																														pos: position{line: 2881, col: 13, offset: 91488},
-																																														run: (*parser).callonDocumentFragment1269,
+																																														pos: position{line: 2890, col: 13, offset: 91706},
+																																														run: (*parser).callonDocumentFragment1287,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2881, col: 13, offset: 91488},
+																																															pos: position{line: 2890, col: 13, offset: 91706},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2881, col: 13, offset: 91488},
+																																																pos:        position{line: 2890, col: 13, offset: 91706},
 																																																val:        "[^\\r\\n]",
 																																																chars:      []rune{'\r', '\n'},
 																																																ignoreCase: false,
@@ -9767,28 +9856,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2957, col: 8, offset: 93360},
+																																													pos: position{line: 2966, col: 8, offset: 93578},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2944, col: 12, offset: 93133},
-																																															run: (*parser).callonDocumentFragment1273,
+																																															pos: position{line: 2953, col: 12, offset: 93351},
+																																															run: (*parser).callonDocumentFragment1291,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2944, col: 13, offset: 93134},
+																																																pos: position{line: 2953, col: 13, offset: 93352},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2944, col: 13, offset: 93134},
+																																																		pos:        position{line: 2953, col: 13, offset: 93352},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2944, col: 20, offset: 93141},
+																																																		pos:        position{line: 2953, col: 20, offset: 93359},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2944, col: 29, offset: 93150},
+																																																		pos:        position{line: 2953, col: 29, offset: 93368},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -9797,9 +9886,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2954, col: 8, offset: 93310},
+																																															pos: position{line: 2963, col: 8, offset: 93528},
 																																															expr: &anyMatcher{
-																																																line: 2954, col: 9, offset: 93311,
+																																																line: 2963, col: 9, offset: 93529,
 																																															},
 																																														},
 																																													},
@@ -9813,7 +9902,7 @@ var g = &grammar{
 																																					},
 																																					&actionExpr{
 																																						pos: position{line: 2725, col: 9, offset: 86781},
-																																						run: (*parser).callonDocumentFragment1280,
+																																						run: (*parser).callonDocumentFragment1298,
 																																						expr: &seqExpr{
 																																							pos: position{line: 2725, col: 9, offset: 86781},
 																																							exprs: []interface{}{
@@ -9834,10 +9923,10 @@ var g = &grammar{
 																																													&zeroOrMoreExpr{
 																																														pos: position{line: 2670, col: 26, offset: 85493},
 																																														expr: &actionExpr{
-																																															pos: position{line: 2935, col: 10, offset: 92962},
-																																															run: (*parser).callonDocumentFragment1287,
+																																															pos: position{line: 2944, col: 10, offset: 93180},
+																																															run: (*parser).callonDocumentFragment1305,
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2935, col: 10, offset: 92962},
+																																																pos:        position{line: 2944, col: 10, offset: 93180},
 																																																val:        "[\\t ]",
 																																																chars:      []rune{'\t', ' '},
 																																																ignoreCase: false,
@@ -9846,28 +9935,28 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&choiceExpr{
-																																														pos: position{line: 2957, col: 8, offset: 93360},
+																																														pos: position{line: 2966, col: 8, offset: 93578},
 																																														alternatives: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2944, col: 12, offset: 93133},
-																																																run: (*parser).callonDocumentFragment1290,
+																																																pos: position{line: 2953, col: 12, offset: 93351},
+																																																run: (*parser).callonDocumentFragment1308,
 																																																expr: &choiceExpr{
-																																																	pos: position{line: 2944, col: 13, offset: 93134},
+																																																	pos: position{line: 2953, col: 13, offset: 93352},
 																																																	alternatives: []interface{}{
 																																																		&litMatcher{
-																																																			pos:        position{line: 2944, col: 13, offset: 93134},
+																																																			pos:        position{line: 2953, col: 13, offset: 93352},
 																																																			val:        "\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2944, col: 20, offset: 93141},
+																																																			pos:        position{line: 2953, col: 20, offset: 93359},
 																																																			val:        "\r\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2944, col: 29, offset: 93150},
+																																																			pos:        position{line: 2953, col: 29, offset: 93368},
 																																																			val:        "\r",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\"",
@@ -9876,9 +9965,9 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&notExpr{
-																																																pos: position{line: 2954, col: 8, offset: 93310},
+																																																pos: position{line: 2963, col: 8, offset: 93528},
 																																																expr: &anyMatcher{
-																																																	line: 2954, col: 9, offset: 93311,
+																																																	line: 2963, col: 9, offset: 93529,
 																																																},
 																																															},
 																																														},
@@ -9886,9 +9975,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2954, col: 8, offset: 93310},
+																																												pos: position{line: 2963, col: 8, offset: 93528},
 																																												expr: &anyMatcher{
-																																													line: 2954, col: 9, offset: 93311,
+																																													line: 2963, col: 9, offset: 93529,
 																																												},
 																																											},
 																																										},
@@ -9898,23 +9987,23 @@ var g = &grammar{
 																																									pos: position{line: 2726, col: 9, offset: 86808},
 																																									expr: &actionExpr{
 																																										pos: position{line: 702, col: 14, offset: 22577},
-																																										run: (*parser).callonDocumentFragment1300,
+																																										run: (*parser).callonDocumentFragment1318,
 																																										expr: &seqExpr{
 																																											pos: position{line: 702, col: 14, offset: 22577},
 																																											exprs: []interface{}{
 																																												&andExpr{
-																																													pos: position{line: 2952, col: 11, offset: 93296},
+																																													pos: position{line: 2961, col: 11, offset: 93514},
 																																													expr: &anyMatcher{
-																																														line: 2952, col: 13, offset: 93298,
+																																														line: 2961, col: 13, offset: 93516,
 																																													},
 																																												},
 																																												&zeroOrMoreExpr{
 																																													pos: position{line: 702, col: 21, offset: 22584},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2935, col: 10, offset: 92962},
-																																														run: (*parser).callonDocumentFragment1305,
+																																														pos: position{line: 2944, col: 10, offset: 93180},
+																																														run: (*parser).callonDocumentFragment1323,
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2935, col: 10, offset: 92962},
+																																															pos:        position{line: 2944, col: 10, offset: 93180},
 																																															val:        "[\\t ]",
 																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
@@ -9923,28 +10012,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2957, col: 8, offset: 93360},
+																																													pos: position{line: 2966, col: 8, offset: 93578},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2944, col: 12, offset: 93133},
-																																															run: (*parser).callonDocumentFragment1308,
+																																															pos: position{line: 2953, col: 12, offset: 93351},
+																																															run: (*parser).callonDocumentFragment1326,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2944, col: 13, offset: 93134},
+																																																pos: position{line: 2953, col: 13, offset: 93352},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2944, col: 13, offset: 93134},
+																																																		pos:        position{line: 2953, col: 13, offset: 93352},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2944, col: 20, offset: 93141},
+																																																		pos:        position{line: 2953, col: 20, offset: 93359},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2944, col: 29, offset: 93150},
+																																																		pos:        position{line: 2953, col: 29, offset: 93368},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -9953,9 +10042,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2954, col: 8, offset: 93310},
+																																															pos: position{line: 2963, col: 8, offset: 93528},
 																																															expr: &anyMatcher{
-																																																line: 2954, col: 9, offset: 93311,
+																																																line: 2963, col: 9, offset: 93529,
 																																															},
 																																														},
 																																													},
@@ -9975,16 +10064,105 @@ var g = &grammar{
 																																												expr: &zeroOrOneExpr{
 																																													pos: position{line: 2727, col: 18, offset: 86836},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2735, col: 20, offset: 87037},
-																																														run: (*parser).callonDocumentFragment1319,
-																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2735, col: 20, offset: 87037},
-																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2735, col: 20, offset: 87037},
-																																																val:        "[^ |\\r\\n]",
-																																																chars:      []rune{' ', '|', '\r', '\n'},
-																																																ignoreCase: false,
-																																																inverted:   true,
+																																														pos: position{line: 2736, col: 5, offset: 87042},
+																																														run: (*parser).callonDocumentFragment1337,
+																																														expr: &seqExpr{
+																																															pos: position{line: 2736, col: 5, offset: 87042},
+																																															exprs: []interface{}{
+																																																&actionExpr{
+																																																	pos: position{line: 2736, col: 6, offset: 87043},
+																																																	run: (*parser).callonDocumentFragment1339,
+																																																	expr: &litMatcher{
+																																																		pos:        position{line: 2736, col: 6, offset: 87043},
+																																																		val:        "",
+																																																		ignoreCase: false,
+																																																		want:       "\"\"",
+																																																	},
+																																																},
+																																																&andCodeExpr{
+																																																	pos: position{line: 2739, col: 5, offset: 87114},
+																																																	run: (*parser).callonDocumentFragment1341,
+																																																},
+																																																&labeledExpr{
+																																																	pos:   position{line: 2742, col: 5, offset: 87171},
+																																																	label: "format",
+																																																	expr: &actionExpr{
+																																																		pos: position{line: 2742, col: 13, offset: 87179},
+																																																		run: (*parser).callonDocumentFragment1343,
+																																																		expr: &seqExpr{
+																																																			pos: position{line: 2742, col: 13, offset: 87179},
+																																																			exprs: []interface{}{
+																																																				&zeroOrOneExpr{
+																																																					pos: position{line: 2742, col: 13, offset: 87179},
+																																																					expr: &seqExpr{
+																																																						pos: position{line: 2742, col: 14, offset: 87180},
+																																																						exprs: []interface{}{
+																																																							&oneOrMoreExpr{
+																																																								pos: position{line: 2742, col: 14, offset: 87180},
+																																																								expr: &charClassMatcher{
+																																																									pos:        position{line: 2742, col: 14, offset: 87180},
+																																																									val:        "[.0-9]",
+																																																									chars:      []rune{'.'},
+																																																									ranges:     []rune{'0', '9'},
+																																																									ignoreCase: false,
+																																																									inverted:   false,
+																																																								},
+																																																							},
+																																																							&charClassMatcher{
+																																																								pos:        position{line: 2742, col: 22, offset: 87188},
+																																																								val:        "[*+]",
+																																																								chars:      []rune{'*', '+'},
+																																																								ignoreCase: false,
+																																																								inverted:   false,
+																																																							},
+																																																						},
+																																																					},
+																																																				},
+																																																				&zeroOrOneExpr{
+																																																					pos: position{line: 2742, col: 29, offset: 87195},
+																																																					expr: &charClassMatcher{
+																																																						pos:        position{line: 2742, col: 29, offset: 87195},
+																																																						val:        "[<>^]",
+																																																						chars:      []rune{'<', '>', '^'},
+																																																						ignoreCase: false,
+																																																						inverted:   false,
+																																																					},
+																																																				},
+																																																				&zeroOrOneExpr{
+																																																					pos: position{line: 2742, col: 36, offset: 87202},
+																																																					expr: &seqExpr{
+																																																						pos: position{line: 2742, col: 37, offset: 87203},
+																																																						exprs: []interface{}{
+																																																							&litMatcher{
+																																																								pos:        position{line: 2742, col: 37, offset: 87203},
+																																																								val:        ".",
+																																																								ignoreCase: false,
+																																																								want:       "\".\"",
+																																																							},
+																																																							&charClassMatcher{
+																																																								pos:        position{line: 2742, col: 41, offset: 87207},
+																																																								val:        "[<>^]",
+																																																								chars:      []rune{'<', '>', '^'},
+																																																								ignoreCase: false,
+																																																								inverted:   false,
+																																																							},
+																																																						},
+																																																					},
+																																																				},
+																																																				&zeroOrOneExpr{
+																																																					pos: position{line: 2742, col: 49, offset: 87215},
+																																																					expr: &charClassMatcher{
+																																																						pos:        position{line: 2742, col: 49, offset: 87215},
+																																																						val:        "[a-z]",
+																																																						ranges:     []rune{'a', 'z'},
+																																																						ignoreCase: false,
+																																																						inverted:   false,
+																																																					},
+																																																				},
+																																																			},
+																																																		},
+																																																	},
+																																																},
 																																															},
 																																														},
 																																													},
@@ -10004,7 +10182,7 @@ var g = &grammar{
 																																									label: "content",
 																																									expr: &actionExpr{
 																																										pos: position{line: 2728, col: 18, offset: 86877},
-																																										run: (*parser).callonDocumentFragment1324,
+																																										run: (*parser).callonDocumentFragment1360,
 																																										expr: &zeroOrMoreExpr{
 																																											pos: position{line: 2728, col: 18, offset: 86877},
 																																											expr: &charClassMatcher{
@@ -10020,28 +10198,28 @@ var g = &grammar{
 																																								&zeroOrOneExpr{
 																																									pos: position{line: 2730, col: 12, offset: 86939},
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2957, col: 8, offset: 93360},
+																																										pos: position{line: 2966, col: 8, offset: 93578},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2944, col: 12, offset: 93133},
-																																												run: (*parser).callonDocumentFragment1329,
+																																												pos: position{line: 2953, col: 12, offset: 93351},
+																																												run: (*parser).callonDocumentFragment1365,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2944, col: 13, offset: 93134},
+																																													pos: position{line: 2953, col: 13, offset: 93352},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2944, col: 13, offset: 93134},
+																																															pos:        position{line: 2953, col: 13, offset: 93352},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2944, col: 20, offset: 93141},
+																																															pos:        position{line: 2953, col: 20, offset: 93359},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2944, col: 29, offset: 93150},
+																																															pos:        position{line: 2953, col: 29, offset: 93368},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -10050,9 +10228,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2954, col: 8, offset: 93310},
+																																												pos: position{line: 2963, col: 8, offset: 93528},
 																																												expr: &anyMatcher{
-																																													line: 2954, col: 9, offset: 93311,
+																																													line: 2963, col: 9, offset: 93529,
 																																												},
 																																											},
 																																										},
@@ -10077,23 +10255,23 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 702, col: 14, offset: 22577},
-																								run: (*parser).callonDocumentFragment1336,
+																								run: (*parser).callonDocumentFragment1372,
 																								expr: &seqExpr{
 																									pos: position{line: 702, col: 14, offset: 22577},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2952, col: 11, offset: 93296},
+																											pos: position{line: 2961, col: 11, offset: 93514},
 																											expr: &anyMatcher{
-																												line: 2952, col: 13, offset: 93298,
+																												line: 2961, col: 13, offset: 93516,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 702, col: 21, offset: 22584},
 																											expr: &actionExpr{
-																												pos: position{line: 2935, col: 10, offset: 92962},
-																												run: (*parser).callonDocumentFragment1341,
+																												pos: position{line: 2944, col: 10, offset: 93180},
+																												run: (*parser).callonDocumentFragment1377,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2935, col: 10, offset: 92962},
+																													pos:        position{line: 2944, col: 10, offset: 93180},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10102,28 +10280,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2957, col: 8, offset: 93360},
+																											pos: position{line: 2966, col: 8, offset: 93578},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2944, col: 12, offset: 93133},
-																													run: (*parser).callonDocumentFragment1344,
+																													pos: position{line: 2953, col: 12, offset: 93351},
+																													run: (*parser).callonDocumentFragment1380,
 																													expr: &choiceExpr{
-																														pos: position{line: 2944, col: 13, offset: 93134},
+																														pos: position{line: 2953, col: 13, offset: 93352},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 13, offset: 93134},
+																																pos:        position{line: 2953, col: 13, offset: 93352},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 20, offset: 93141},
+																																pos:        position{line: 2953, col: 20, offset: 93359},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 29, offset: 93150},
+																																pos:        position{line: 2953, col: 29, offset: 93368},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10132,9 +10310,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2954, col: 8, offset: 93310},
+																													pos: position{line: 2963, col: 8, offset: 93528},
 																													expr: &anyMatcher{
-																														line: 2954, col: 9, offset: 93311,
+																														line: 2963, col: 9, offset: 93529,
 																													},
 																												},
 																											},
@@ -10167,10 +10345,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 2670, col: 26, offset: 85493},
 																		expr: &actionExpr{
-																			pos: position{line: 2935, col: 10, offset: 92962},
-																			run: (*parser).callonDocumentFragment1355,
+																			pos: position{line: 2944, col: 10, offset: 93180},
+																			run: (*parser).callonDocumentFragment1391,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2935, col: 10, offset: 92962},
+																				pos:        position{line: 2944, col: 10, offset: 93180},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10179,28 +10357,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2957, col: 8, offset: 93360},
+																		pos: position{line: 2966, col: 8, offset: 93578},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
-																				run: (*parser).callonDocumentFragment1358,
+																				pos: position{line: 2953, col: 12, offset: 93351},
+																				run: (*parser).callonDocumentFragment1394,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10209,9 +10387,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2954, col: 8, offset: 93310},
+																				pos: position{line: 2963, col: 8, offset: 93528},
 																				expr: &anyMatcher{
-																					line: 2954, col: 9, offset: 93311,
+																					line: 2963, col: 9, offset: 93529,
 																				},
 																			},
 																		},
@@ -10219,9 +10397,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2954, col: 8, offset: 93310},
+																pos: position{line: 2963, col: 8, offset: 93528},
 																expr: &anyMatcher{
-																	line: 2954, col: 9, offset: 93311,
+																	line: 2963, col: 9, offset: 93529,
 																},
 															},
 														},
@@ -10231,7 +10409,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 2538, col: 22, offset: 81740},
-											run: (*parser).callonDocumentFragment1367,
+											run: (*parser).callonDocumentFragment1403,
 											expr: &seqExpr{
 												pos: position{line: 2538, col: 22, offset: 81740},
 												exprs: []interface{}{
@@ -10254,12 +10432,12 @@ var g = &grammar{
 														pos:   position{line: 2538, col: 49, offset: 81767},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2881, col: 13, offset: 91488},
-															run: (*parser).callonDocumentFragment1373,
+															pos: position{line: 2890, col: 13, offset: 91706},
+															run: (*parser).callonDocumentFragment1409,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2881, col: 13, offset: 91488},
+																pos: position{line: 2890, col: 13, offset: 91706},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2881, col: 13, offset: 91488},
+																	pos:        position{line: 2890, col: 13, offset: 91706},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10269,28 +10447,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2957, col: 8, offset: 93360},
+														pos: position{line: 2966, col: 8, offset: 93578},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2944, col: 12, offset: 93133},
-																run: (*parser).callonDocumentFragment1377,
+																pos: position{line: 2953, col: 12, offset: 93351},
+																run: (*parser).callonDocumentFragment1413,
 																expr: &choiceExpr{
-																	pos: position{line: 2944, col: 13, offset: 93134},
+																	pos: position{line: 2953, col: 13, offset: 93352},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 13, offset: 93134},
+																			pos:        position{line: 2953, col: 13, offset: 93352},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 20, offset: 93141},
+																			pos:        position{line: 2953, col: 20, offset: 93359},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 29, offset: 93150},
+																			pos:        position{line: 2953, col: 29, offset: 93368},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10299,9 +10477,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2954, col: 8, offset: 93310},
+																pos: position{line: 2963, col: 8, offset: 93528},
 																expr: &anyMatcher{
-																	line: 2954, col: 9, offset: 93311,
+																	line: 2963, col: 9, offset: 93529,
 																},
 															},
 														},
@@ -10311,20 +10489,20 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 1247, col: 5, offset: 39001},
-											run: (*parser).callonDocumentFragment1384,
+											run: (*parser).callonDocumentFragment1420,
 											expr: &seqExpr{
 												pos: position{line: 1247, col: 5, offset: 39001},
 												exprs: []interface{}{
 													&andCodeExpr{
 														pos: position{line: 1247, col: 5, offset: 39001},
-														run: (*parser).callonDocumentFragment1386,
+														run: (*parser).callonDocumentFragment1422,
 													},
 													&labeledExpr{
 														pos:   position{line: 1250, col: 5, offset: 39059},
 														label: "frontmatter",
 														expr: &actionExpr{
 															pos: position{line: 1255, col: 20, offset: 39154},
-															run: (*parser).callonDocumentFragment1388,
+															run: (*parser).callonDocumentFragment1424,
 															expr: &seqExpr{
 																pos: position{line: 1255, col: 20, offset: 39154},
 																exprs: []interface{}{
@@ -10337,10 +10515,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1259, col: 36, offset: 39332},
 																		expr: &actionExpr{
-																			pos: position{line: 2935, col: 10, offset: 92962},
-																			run: (*parser).callonDocumentFragment1392,
+																			pos: position{line: 2944, col: 10, offset: 93180},
+																			run: (*parser).callonDocumentFragment1428,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2935, col: 10, offset: 92962},
+																				pos:        position{line: 2944, col: 10, offset: 93180},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10349,28 +10527,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2957, col: 8, offset: 93360},
+																		pos: position{line: 2966, col: 8, offset: 93578},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
-																				run: (*parser).callonDocumentFragment1395,
+																				pos: position{line: 2953, col: 12, offset: 93351},
+																				run: (*parser).callonDocumentFragment1431,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10379,9 +10557,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2954, col: 8, offset: 93310},
+																				pos: position{line: 2963, col: 8, offset: 93528},
 																				expr: &anyMatcher{
-																					line: 2954, col: 9, offset: 93311,
+																					line: 2963, col: 9, offset: 93529,
 																				},
 																			},
 																		},
@@ -10393,7 +10571,7 @@ var g = &grammar{
 																			pos: position{line: 1255, col: 53, offset: 39187},
 																			expr: &actionExpr{
 																				pos: position{line: 1261, col: 27, offset: 39370},
-																				run: (*parser).callonDocumentFragment1404,
+																				run: (*parser).callonDocumentFragment1440,
 																				expr: &zeroOrMoreExpr{
 																					pos: position{line: 1261, col: 27, offset: 39370},
 																					expr: &oneOrMoreExpr{
@@ -10415,10 +10593,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1259, col: 36, offset: 39332},
 																												expr: &actionExpr{
-																													pos: position{line: 2935, col: 10, offset: 92962},
-																													run: (*parser).callonDocumentFragment1412,
+																													pos: position{line: 2944, col: 10, offset: 93180},
+																													run: (*parser).callonDocumentFragment1448,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2935, col: 10, offset: 92962},
+																														pos:        position{line: 2944, col: 10, offset: 93180},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10427,28 +10605,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2957, col: 8, offset: 93360},
+																												pos: position{line: 2966, col: 8, offset: 93578},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2944, col: 12, offset: 93133},
-																														run: (*parser).callonDocumentFragment1415,
+																														pos: position{line: 2953, col: 12, offset: 93351},
+																														run: (*parser).callonDocumentFragment1451,
 																														expr: &choiceExpr{
-																															pos: position{line: 2944, col: 13, offset: 93134},
+																															pos: position{line: 2953, col: 13, offset: 93352},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2944, col: 13, offset: 93134},
+																																	pos:        position{line: 2953, col: 13, offset: 93352},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2944, col: 20, offset: 93141},
+																																	pos:        position{line: 2953, col: 20, offset: 93359},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2944, col: 29, offset: 93150},
+																																	pos:        position{line: 2953, col: 29, offset: 93368},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10457,9 +10635,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2954, col: 8, offset: 93310},
+																														pos: position{line: 2963, col: 8, offset: 93528},
 																														expr: &anyMatcher{
-																															line: 2954, col: 9, offset: 93311,
+																															line: 2963, col: 9, offset: 93529,
 																														},
 																													},
 																												},
@@ -10486,10 +10664,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1259, col: 36, offset: 39332},
 																		expr: &actionExpr{
-																			pos: position{line: 2935, col: 10, offset: 92962},
-																			run: (*parser).callonDocumentFragment1425,
+																			pos: position{line: 2944, col: 10, offset: 93180},
+																			run: (*parser).callonDocumentFragment1461,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2935, col: 10, offset: 92962},
+																				pos:        position{line: 2944, col: 10, offset: 93180},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10498,28 +10676,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2957, col: 8, offset: 93360},
+																		pos: position{line: 2966, col: 8, offset: 93578},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
-																				run: (*parser).callonDocumentFragment1428,
+																				pos: position{line: 2953, col: 12, offset: 93351},
+																				run: (*parser).callonDocumentFragment1464,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10528,9 +10706,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2954, col: 8, offset: 93310},
+																				pos: position{line: 2963, col: 8, offset: 93528},
 																				expr: &anyMatcher{
-																					line: 2954, col: 9, offset: 93311,
+																					line: 2963, col: 9, offset: 93529,
 																				},
 																			},
 																		},
@@ -10552,7 +10730,7 @@ var g = &grammar{
 						},
 						&andCodeExpr{
 							pos: position{line: 255, col: 5, offset: 7656},
-							run: (*parser).callonDocumentFragment1436,
+							run: (*parser).callonDocumentFragment1472,
 						},
 					},
 				},
@@ -10631,9 +10809,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2954, col: 8, offset: 93310},
+							pos: position{line: 2963, col: 8, offset: 93528},
 							expr: &anyMatcher{
-								line: 2954, col: 9, offset: 93311,
+								line: 2963, col: 9, offset: 93529,
 							},
 						},
 					},
@@ -10705,12 +10883,12 @@ var g = &grammar{
 										pos: position{line: 307, col: 9, offset: 9333},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2939, col: 11, offset: 93023},
+												pos: position{line: 2948, col: 11, offset: 93241},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2939, col: 11, offset: 93023},
+													pos: position{line: 2948, col: 11, offset: 93241},
 													expr: &charClassMatcher{
-														pos:        position{line: 2939, col: 11, offset: 93023},
+														pos:        position{line: 2948, col: 11, offset: 93241},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10732,28 +10910,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2957, col: 8, offset: 93360},
+							pos: position{line: 2966, col: 8, offset: 93578},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2944, col: 12, offset: 93133},
+									pos: position{line: 2953, col: 12, offset: 93351},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2944, col: 13, offset: 93134},
+										pos: position{line: 2953, col: 13, offset: 93352},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2944, col: 13, offset: 93134},
+												pos:        position{line: 2953, col: 13, offset: 93352},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2944, col: 20, offset: 93141},
+												pos:        position{line: 2953, col: 20, offset: 93359},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2944, col: 29, offset: 93150},
+												pos:        position{line: 2953, col: 29, offset: 93368},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10762,9 +10940,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2954, col: 8, offset: 93310},
+									pos: position{line: 2963, col: 8, offset: 93528},
 									expr: &anyMatcher{
-										line: 2954, col: 9, offset: 93311,
+										line: 2963, col: 9, offset: 93529,
 									},
 								},
 							},
@@ -10808,25 +10986,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2944, col: 12, offset: 93133},
+												pos: position{line: 2953, col: 12, offset: 93351},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2944, col: 13, offset: 93134},
+													pos: position{line: 2953, col: 13, offset: 93352},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2944, col: 13, offset: 93134},
+															pos:        position{line: 2953, col: 13, offset: 93352},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2944, col: 20, offset: 93141},
+															pos:        position{line: 2953, col: 20, offset: 93359},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2944, col: 29, offset: 93150},
+															pos:        position{line: 2953, col: 29, offset: 93368},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10837,10 +11015,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 328, col: 9, offset: 10035},
 												expr: &actionExpr{
-													pos: position{line: 2935, col: 10, offset: 92962},
+													pos: position{line: 2944, col: 10, offset: 93180},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2935, col: 10, offset: 92962},
+														pos:        position{line: 2944, col: 10, offset: 93180},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10910,10 +11088,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 346, col: 13, offset: 10580},
 										expr: &actionExpr{
-											pos: position{line: 2935, col: 10, offset: 92962},
+											pos: position{line: 2944, col: 10, offset: 93180},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2935, col: 10, offset: 92962},
+												pos:        position{line: 2944, col: 10, offset: 93180},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10922,28 +11100,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2957, col: 8, offset: 93360},
+										pos: position{line: 2966, col: 8, offset: 93578},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2944, col: 12, offset: 93133},
+												pos: position{line: 2953, col: 12, offset: 93351},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2944, col: 13, offset: 93134},
+													pos: position{line: 2953, col: 13, offset: 93352},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2944, col: 13, offset: 93134},
+															pos:        position{line: 2953, col: 13, offset: 93352},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2944, col: 20, offset: 93141},
+															pos:        position{line: 2953, col: 20, offset: 93359},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2944, col: 29, offset: 93150},
+															pos:        position{line: 2953, col: 29, offset: 93368},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10952,9 +11130,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2954, col: 8, offset: 93310},
+												pos: position{line: 2963, col: 8, offset: 93528},
 												expr: &anyMatcher{
-													line: 2954, col: 9, offset: 93311,
+													line: 2963, col: 9, offset: 93529,
 												},
 											},
 										},
@@ -11015,10 +11193,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2935, col: 10, offset: 92962},
+										pos: position{line: 2944, col: 10, offset: 93180},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2935, col: 10, offset: 92962},
+											pos:        position{line: 2944, col: 10, offset: 93180},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11859,10 +12037,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 374, col: 35, offset: 11589},
 												expr: &actionExpr{
-													pos: position{line: 2935, col: 10, offset: 92962},
+													pos: position{line: 2944, col: 10, offset: 93180},
 													run: (*parser).callonBlockAttributes101,
 													expr: &charClassMatcher{
-														pos:        position{line: 2935, col: 10, offset: 92962},
+														pos:        position{line: 2944, col: 10, offset: 93180},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11871,28 +12049,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2957, col: 8, offset: 93360},
+												pos: position{line: 2966, col: 8, offset: 93578},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2944, col: 12, offset: 93133},
+														pos: position{line: 2953, col: 12, offset: 93351},
 														run: (*parser).callonBlockAttributes104,
 														expr: &choiceExpr{
-															pos: position{line: 2944, col: 13, offset: 93134},
+															pos: position{line: 2953, col: 13, offset: 93352},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2944, col: 13, offset: 93134},
+																	pos:        position{line: 2953, col: 13, offset: 93352},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2944, col: 20, offset: 93141},
+																	pos:        position{line: 2953, col: 20, offset: 93359},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2944, col: 29, offset: 93150},
+																	pos:        position{line: 2953, col: 29, offset: 93368},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11901,9 +12079,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2954, col: 8, offset: 93310},
+														pos: position{line: 2963, col: 8, offset: 93528},
 														expr: &anyMatcher{
-															line: 2954, col: 9, offset: 93311,
+															line: 2963, col: 9, offset: 93529,
 														},
 													},
 												},
@@ -11920,18 +12098,18 @@ var g = &grammar{
 																pos: position{line: 702, col: 14, offset: 22577},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2952, col: 11, offset: 93296},
+																		pos: position{line: 2961, col: 11, offset: 93514},
 																		expr: &anyMatcher{
-																			line: 2952, col: 13, offset: 93298,
+																			line: 2961, col: 13, offset: 93516,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 702, col: 21, offset: 22584},
 																		expr: &actionExpr{
-																			pos: position{line: 2935, col: 10, offset: 92962},
+																			pos: position{line: 2944, col: 10, offset: 93180},
 																			run: (*parser).callonBlockAttributes118,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2935, col: 10, offset: 92962},
+																				pos:        position{line: 2944, col: 10, offset: 93180},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -11940,28 +12118,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2957, col: 8, offset: 93360},
+																		pos: position{line: 2966, col: 8, offset: 93578},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
+																				pos: position{line: 2953, col: 12, offset: 93351},
 																				run: (*parser).callonBlockAttributes121,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -11970,9 +12148,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2954, col: 8, offset: 93310},
+																				pos: position{line: 2963, col: 8, offset: 93528},
 																				expr: &anyMatcher{
-																					line: 2954, col: 9, offset: 93311,
+																					line: 2963, col: 9, offset: 93529,
 																				},
 																			},
 																		},
@@ -12005,12 +12183,12 @@ var g = &grammar{
 																		pos:   position{line: 2538, col: 49, offset: 81767},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2881, col: 13, offset: 91488},
+																			pos: position{line: 2890, col: 13, offset: 91706},
 																			run: (*parser).callonBlockAttributes134,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2881, col: 13, offset: 91488},
+																				pos: position{line: 2890, col: 13, offset: 91706},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 13, offset: 91488},
+																					pos:        position{line: 2890, col: 13, offset: 91706},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12020,28 +12198,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2957, col: 8, offset: 93360},
+																		pos: position{line: 2966, col: 8, offset: 93578},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
+																				pos: position{line: 2953, col: 12, offset: 93351},
 																				run: (*parser).callonBlockAttributes138,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12050,9 +12228,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2954, col: 8, offset: 93310},
+																				pos: position{line: 2963, col: 8, offset: 93528},
 																				expr: &anyMatcher{
-																					line: 2954, col: 9, offset: 93311,
+																					line: 2963, col: 9, offset: 93529,
 																				},
 																			},
 																		},
@@ -12083,10 +12261,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 378, col: 35, offset: 11766},
 												expr: &actionExpr{
-													pos: position{line: 2935, col: 10, offset: 92962},
+													pos: position{line: 2944, col: 10, offset: 93180},
 													run: (*parser).callonBlockAttributes150,
 													expr: &charClassMatcher{
-														pos:        position{line: 2935, col: 10, offset: 92962},
+														pos:        position{line: 2944, col: 10, offset: 93180},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12095,28 +12273,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2957, col: 8, offset: 93360},
+												pos: position{line: 2966, col: 8, offset: 93578},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2944, col: 12, offset: 93133},
+														pos: position{line: 2953, col: 12, offset: 93351},
 														run: (*parser).callonBlockAttributes153,
 														expr: &choiceExpr{
-															pos: position{line: 2944, col: 13, offset: 93134},
+															pos: position{line: 2953, col: 13, offset: 93352},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2944, col: 13, offset: 93134},
+																	pos:        position{line: 2953, col: 13, offset: 93352},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2944, col: 20, offset: 93141},
+																	pos:        position{line: 2953, col: 20, offset: 93359},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2944, col: 29, offset: 93150},
+																	pos:        position{line: 2953, col: 29, offset: 93368},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12125,9 +12303,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2954, col: 8, offset: 93310},
+														pos: position{line: 2963, col: 8, offset: 93528},
 														expr: &anyMatcher{
-															line: 2954, col: 9, offset: 93311,
+															line: 2963, col: 9, offset: 93529,
 														},
 													},
 												},
@@ -12144,18 +12322,18 @@ var g = &grammar{
 																pos: position{line: 702, col: 14, offset: 22577},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2952, col: 11, offset: 93296},
+																		pos: position{line: 2961, col: 11, offset: 93514},
 																		expr: &anyMatcher{
-																			line: 2952, col: 13, offset: 93298,
+																			line: 2961, col: 13, offset: 93516,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 702, col: 21, offset: 22584},
 																		expr: &actionExpr{
-																			pos: position{line: 2935, col: 10, offset: 92962},
+																			pos: position{line: 2944, col: 10, offset: 93180},
 																			run: (*parser).callonBlockAttributes167,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2935, col: 10, offset: 92962},
+																				pos:        position{line: 2944, col: 10, offset: 93180},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12164,28 +12342,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2957, col: 8, offset: 93360},
+																		pos: position{line: 2966, col: 8, offset: 93578},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
+																				pos: position{line: 2953, col: 12, offset: 93351},
 																				run: (*parser).callonBlockAttributes170,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12194,9 +12372,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2954, col: 8, offset: 93310},
+																				pos: position{line: 2963, col: 8, offset: 93528},
 																				expr: &anyMatcher{
-																					line: 2954, col: 9, offset: 93311,
+																					line: 2963, col: 9, offset: 93529,
 																				},
 																			},
 																		},
@@ -12229,12 +12407,12 @@ var g = &grammar{
 																		pos:   position{line: 2538, col: 49, offset: 81767},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2881, col: 13, offset: 91488},
+																			pos: position{line: 2890, col: 13, offset: 91706},
 																			run: (*parser).callonBlockAttributes183,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2881, col: 13, offset: 91488},
+																				pos: position{line: 2890, col: 13, offset: 91706},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 13, offset: 91488},
+																					pos:        position{line: 2890, col: 13, offset: 91706},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12244,28 +12422,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2957, col: 8, offset: 93360},
+																		pos: position{line: 2966, col: 8, offset: 93578},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
+																				pos: position{line: 2953, col: 12, offset: 93351},
 																				run: (*parser).callonBlockAttributes187,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12274,9 +12452,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2954, col: 8, offset: 93310},
+																				pos: position{line: 2963, col: 8, offset: 93528},
 																				expr: &anyMatcher{
-																					line: 2954, col: 9, offset: 93311,
+																					line: 2963, col: 9, offset: 93529,
 																				},
 																			},
 																		},
@@ -12307,10 +12485,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 382, col: 44, offset: 11922},
 												expr: &actionExpr{
-													pos: position{line: 2935, col: 10, offset: 92962},
+													pos: position{line: 2944, col: 10, offset: 93180},
 													run: (*parser).callonBlockAttributes199,
 													expr: &charClassMatcher{
-														pos:        position{line: 2935, col: 10, offset: 92962},
+														pos:        position{line: 2944, col: 10, offset: 93180},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12319,28 +12497,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2957, col: 8, offset: 93360},
+												pos: position{line: 2966, col: 8, offset: 93578},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2944, col: 12, offset: 93133},
+														pos: position{line: 2953, col: 12, offset: 93351},
 														run: (*parser).callonBlockAttributes202,
 														expr: &choiceExpr{
-															pos: position{line: 2944, col: 13, offset: 93134},
+															pos: position{line: 2953, col: 13, offset: 93352},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2944, col: 13, offset: 93134},
+																	pos:        position{line: 2953, col: 13, offset: 93352},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2944, col: 20, offset: 93141},
+																	pos:        position{line: 2953, col: 20, offset: 93359},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2944, col: 29, offset: 93150},
+																	pos:        position{line: 2953, col: 29, offset: 93368},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12349,9 +12527,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2954, col: 8, offset: 93310},
+														pos: position{line: 2963, col: 8, offset: 93528},
 														expr: &anyMatcher{
-															line: 2954, col: 9, offset: 93311,
+															line: 2963, col: 9, offset: 93529,
 														},
 													},
 												},
@@ -12368,18 +12546,18 @@ var g = &grammar{
 																pos: position{line: 702, col: 14, offset: 22577},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2952, col: 11, offset: 93296},
+																		pos: position{line: 2961, col: 11, offset: 93514},
 																		expr: &anyMatcher{
-																			line: 2952, col: 13, offset: 93298,
+																			line: 2961, col: 13, offset: 93516,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 702, col: 21, offset: 22584},
 																		expr: &actionExpr{
-																			pos: position{line: 2935, col: 10, offset: 92962},
+																			pos: position{line: 2944, col: 10, offset: 93180},
 																			run: (*parser).callonBlockAttributes216,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2935, col: 10, offset: 92962},
+																				pos:        position{line: 2944, col: 10, offset: 93180},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12388,28 +12566,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2957, col: 8, offset: 93360},
+																		pos: position{line: 2966, col: 8, offset: 93578},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
+																				pos: position{line: 2953, col: 12, offset: 93351},
 																				run: (*parser).callonBlockAttributes219,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12418,9 +12596,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2954, col: 8, offset: 93310},
+																				pos: position{line: 2963, col: 8, offset: 93528},
 																				expr: &anyMatcher{
-																					line: 2954, col: 9, offset: 93311,
+																					line: 2963, col: 9, offset: 93529,
 																				},
 																			},
 																		},
@@ -12453,12 +12631,12 @@ var g = &grammar{
 																		pos:   position{line: 2538, col: 49, offset: 81767},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2881, col: 13, offset: 91488},
+																			pos: position{line: 2890, col: 13, offset: 91706},
 																			run: (*parser).callonBlockAttributes232,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2881, col: 13, offset: 91488},
+																				pos: position{line: 2890, col: 13, offset: 91706},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 13, offset: 91488},
+																					pos:        position{line: 2890, col: 13, offset: 91706},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12468,28 +12646,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2957, col: 8, offset: 93360},
+																		pos: position{line: 2966, col: 8, offset: 93578},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
+																				pos: position{line: 2953, col: 12, offset: 93351},
 																				run: (*parser).callonBlockAttributes236,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12498,9 +12676,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2954, col: 8, offset: 93310},
+																				pos: position{line: 2963, col: 8, offset: 93528},
 																				expr: &anyMatcher{
-																					line: 2954, col: 9, offset: 93311,
+																					line: 2963, col: 9, offset: 93529,
 																				},
 																			},
 																		},
@@ -12625,12 +12803,12 @@ var g = &grammar{
 											name: "TitlePassthrough",
 										},
 										&actionExpr{
-											pos: position{line: 2829, col: 14, offset: 90131},
+											pos: position{line: 2838, col: 14, offset: 90349},
 											run: (*parser).callonShortHandTitle10,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2829, col: 14, offset: 90131},
+												pos: position{line: 2838, col: 14, offset: 90349},
 												expr: &charClassMatcher{
-													pos:        position{line: 2829, col: 14, offset: 90131},
+													pos:        position{line: 2838, col: 14, offset: 90349},
 													val:        "[\\pL\\pN]",
 													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 													ignoreCase: false,
@@ -12639,10 +12817,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2935, col: 10, offset: 92962},
+											pos: position{line: 2944, col: 10, offset: 93180},
 											run: (*parser).callonShortHandTitle13,
 											expr: &charClassMatcher{
-												pos:        position{line: 2935, col: 10, offset: 92962},
+												pos:        position{line: 2944, col: 10, offset: 93180},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -12650,27 +12828,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2852, col: 5, offset: 90616},
+											pos: position{line: 2861, col: 5, offset: 90834},
 											run: (*parser).callonShortHandTitle15,
 											expr: &choiceExpr{
-												pos: position{line: 2853, col: 9, offset: 90626},
+												pos: position{line: 2862, col: 9, offset: 90844},
 												alternatives: []interface{}{
 													&charClassMatcher{
-														pos:        position{line: 2853, col: 10, offset: 90627},
+														pos:        position{line: 2862, col: 10, offset: 90845},
 														val:        "[.,;?)!/:\"\\@=-]",
 														chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 														ignoreCase: false,
 														inverted:   false,
 													},
 													&seqExpr{
-														pos: position{line: 2855, col: 13, offset: 90724},
+														pos: position{line: 2864, col: 13, offset: 90942},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2855, col: 13, offset: 90724},
+																pos: position{line: 2864, col: 13, offset: 90942},
 																run: (*parser).callonShortHandTitle19,
 															},
 															&litMatcher{
-																pos:        position{line: 2858, col: 13, offset: 90824},
+																pos:        position{line: 2867, col: 13, offset: 91042},
 																val:        "[",
 																ignoreCase: false,
 																want:       "\"[\"",
@@ -12678,20 +12856,20 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 2858, col: 19, offset: 90830},
+														pos:        position{line: 2867, col: 19, offset: 91048},
 														val:        "]",
 														ignoreCase: false,
 														want:       "\"]\"",
 													},
 													&seqExpr{
-														pos: position{line: 2861, col: 13, offset: 90868},
+														pos: position{line: 2870, col: 13, offset: 91086},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2861, col: 13, offset: 90868},
+																pos: position{line: 2870, col: 13, offset: 91086},
 																run: (*parser).callonShortHandTitle23,
 															},
 															&charClassMatcher{
-																pos:        position{line: 2864, col: 14, offset: 90961},
+																pos:        position{line: 2873, col: 14, offset: 91179},
 																val:        "[*_`#]",
 																chars:      []rune{'*', '_', '`', '#'},
 																ignoreCase: false,
@@ -12700,18 +12878,18 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2866, col: 12, offset: 91005},
+														pos: position{line: 2875, col: 12, offset: 91223},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2866, col: 12, offset: 91005},
+																pos:        position{line: 2875, col: 12, offset: 91223},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
 															},
 															&notExpr{
-																pos: position{line: 2866, col: 16, offset: 91009},
+																pos: position{line: 2875, col: 16, offset: 91227},
 																expr: &litMatcher{
-																	pos:        position{line: 2866, col: 17, offset: 91010},
+																	pos:        position{line: 2875, col: 17, offset: 91228},
 																	val:        "(",
 																	ignoreCase: false,
 																	want:       "\"(\"",
@@ -13047,10 +13225,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2874, col: 12, offset: 91270},
+											pos: position{line: 2883, col: 12, offset: 91488},
 											run: (*parser).callonShortHandTitle93,
 											expr: &charClassMatcher{
-												pos:        position{line: 2874, col: 12, offset: 91270},
+												pos:        position{line: 2883, col: 12, offset: 91488},
 												val:        "[^\\r\\n]",
 												chars:      []rune{'\r', '\n'},
 												ignoreCase: false,
@@ -13105,25 +13283,25 @@ var g = &grammar{
 														&notExpr{
 															pos: position{line: 442, col: 24, offset: 13637},
 															expr: &actionExpr{
-																pos: position{line: 2944, col: 12, offset: 93133},
+																pos: position{line: 2953, col: 12, offset: 93351},
 																run: (*parser).callonTitlePassthrough12,
 																expr: &choiceExpr{
-																	pos: position{line: 2944, col: 13, offset: 93134},
+																	pos: position{line: 2953, col: 13, offset: 93352},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 13, offset: 93134},
+																			pos:        position{line: 2953, col: 13, offset: 93352},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 20, offset: 93141},
+																			pos:        position{line: 2953, col: 20, offset: 93359},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 29, offset: 93150},
+																			pos:        position{line: 2953, col: 29, offset: 93368},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -13172,25 +13350,25 @@ var g = &grammar{
 														&notExpr{
 															pos: position{line: 443, col: 22, offset: 13678},
 															expr: &actionExpr{
-																pos: position{line: 2944, col: 12, offset: 93133},
+																pos: position{line: 2953, col: 12, offset: 93351},
 																run: (*parser).callonTitlePassthrough26,
 																expr: &choiceExpr{
-																	pos: position{line: 2944, col: 13, offset: 93134},
+																	pos: position{line: 2953, col: 13, offset: 93352},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 13, offset: 93134},
+																			pos:        position{line: 2953, col: 13, offset: 93352},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 20, offset: 93141},
+																			pos:        position{line: 2953, col: 20, offset: 93359},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 29, offset: 93150},
+																			pos:        position{line: 2953, col: 29, offset: 93368},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -13317,10 +13495,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1415, col: 12, offset: 45651},
 																				expr: &actionExpr{
-																					pos: position{line: 2935, col: 10, offset: 92962},
+																					pos: position{line: 2944, col: 10, offset: 93180},
 																					run: (*parser).callonTitlePassthrough58,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2935, col: 10, offset: 92962},
+																						pos:        position{line: 2944, col: 10, offset: 93180},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -13331,25 +13509,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1415, col: 19, offset: 45658},
 																				expr: &actionExpr{
-																					pos: position{line: 2944, col: 12, offset: 93133},
+																					pos: position{line: 2953, col: 12, offset: 93351},
 																					run: (*parser).callonTitlePassthrough61,
 																					expr: &choiceExpr{
-																						pos: position{line: 2944, col: 13, offset: 93134},
+																						pos: position{line: 2953, col: 13, offset: 93352},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 13, offset: 93134},
+																								pos:        position{line: 2953, col: 13, offset: 93352},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 20, offset: 93141},
+																								pos:        position{line: 2953, col: 20, offset: 93359},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 29, offset: 93150},
+																								pos:        position{line: 2953, col: 29, offset: 93368},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -13422,10 +13600,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1401, col: 64, offset: 44770},
 																			expr: &actionExpr{
-																				pos: position{line: 2935, col: 10, offset: 92962},
+																				pos: position{line: 2944, col: 10, offset: 93180},
 																				run: (*parser).callonTitlePassthrough80,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2935, col: 10, offset: 92962},
+																					pos:        position{line: 2944, col: 10, offset: 93180},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -13436,25 +13614,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1401, col: 71, offset: 44777},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
+																				pos: position{line: 2953, col: 12, offset: 93351},
 																				run: (*parser).callonTitlePassthrough83,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -13477,12 +13655,12 @@ var g = &grammar{
 																							pos: position{line: 1401, col: 86, offset: 44792},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2939, col: 11, offset: 93023},
+																									pos: position{line: 2948, col: 11, offset: 93241},
 																									run: (*parser).callonTitlePassthrough93,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2939, col: 11, offset: 93023},
+																										pos: position{line: 2948, col: 11, offset: 93241},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2939, col: 11, offset: 93023},
+																											pos:        position{line: 2948, col: 11, offset: 93241},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -13511,25 +13689,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1401, col: 151, offset: 44857},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 12, offset: 93133},
+																							pos: position{line: 2953, col: 12, offset: 93351},
 																							run: (*parser).callonTitlePassthrough100,
 																							expr: &choiceExpr{
-																								pos: position{line: 2944, col: 13, offset: 93134},
+																								pos: position{line: 2953, col: 13, offset: 93352},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 13, offset: 93134},
+																										pos:        position{line: 2953, col: 13, offset: 93352},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 20, offset: 93141},
+																										pos:        position{line: 2953, col: 20, offset: 93359},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 29, offset: 93150},
+																										pos:        position{line: 2953, col: 29, offset: 93368},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -13556,10 +13734,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1403, col: 12, offset: 45017},
 																			expr: &actionExpr{
-																				pos: position{line: 2935, col: 10, offset: 92962},
+																				pos: position{line: 2944, col: 10, offset: 93180},
 																				run: (*parser).callonTitlePassthrough109,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2935, col: 10, offset: 92962},
+																					pos:        position{line: 2944, col: 10, offset: 93180},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -13570,25 +13748,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1403, col: 19, offset: 45024},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
+																				pos: position{line: 2953, col: 12, offset: 93351},
 																				run: (*parser).callonTitlePassthrough112,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -13624,7 +13802,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1397, col: 121, offset: 44593},
 													expr: &charClassMatcher{
-														pos:        position{line: 2825, col: 13, offset: 90057},
+														pos:        position{line: 2834, col: 13, offset: 90275},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -13808,10 +13986,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 485, col: 13, offset: 15403},
 										expr: &actionExpr{
-											pos: position{line: 2935, col: 10, offset: 92962},
+											pos: position{line: 2944, col: 10, offset: 93180},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2935, col: 10, offset: 92962},
+												pos:        position{line: 2944, col: 10, offset: 93180},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14343,10 +14521,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 537, col: 9, offset: 16985},
 													expr: &actionExpr{
-														pos: position{line: 2935, col: 10, offset: 92962},
+														pos: position{line: 2944, col: 10, offset: 93180},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2935, col: 10, offset: 92962},
+															pos:        position{line: 2944, col: 10, offset: 93180},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -14407,10 +14585,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 543, col: 34, offset: 17128},
 														expr: &actionExpr{
-															pos: position{line: 2935, col: 10, offset: 92962},
+															pos: position{line: 2944, col: 10, offset: 93180},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2935, col: 10, offset: 92962},
+																pos:        position{line: 2944, col: 10, offset: 93180},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -14450,10 +14628,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 548, col: 13, offset: 17292},
 												expr: &actionExpr{
-													pos: position{line: 2935, col: 10, offset: 92962},
+													pos: position{line: 2944, col: 10, offset: 93180},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2935, col: 10, offset: 92962},
+														pos:        position{line: 2944, col: 10, offset: 93180},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -14476,10 +14654,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 548, col: 26, offset: 17305},
 																expr: &actionExpr{
-																	pos: position{line: 2935, col: 10, offset: 92962},
+																	pos: position{line: 2944, col: 10, offset: 93180},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2935, col: 10, offset: 92962},
+																		pos:        position{line: 2944, col: 10, offset: 93180},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -14534,10 +14712,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 568, col: 22, offset: 17952},
 											expr: &actionExpr{
-												pos: position{line: 2935, col: 10, offset: 92962},
+												pos: position{line: 2944, col: 10, offset: 93180},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2935, col: 10, offset: 92962},
+													pos:        position{line: 2944, col: 10, offset: 93180},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14568,10 +14746,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 561, col: 9, offset: 17697},
 							expr: &actionExpr{
-								pos: position{line: 2935, col: 10, offset: 92962},
+								pos: position{line: 2944, col: 10, offset: 93180},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2935, col: 10, offset: 92962},
+									pos:        position{line: 2944, col: 10, offset: 93180},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14601,10 +14779,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 562, col: 33, offset: 17737},
 										expr: &actionExpr{
-											pos: position{line: 2935, col: 10, offset: 92962},
+											pos: position{line: 2944, col: 10, offset: 93180},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2935, col: 10, offset: 92962},
+												pos:        position{line: 2944, col: 10, offset: 93180},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14659,10 +14837,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 578, col: 9, offset: 18169},
 											expr: &actionExpr{
-												pos: position{line: 2935, col: 10, offset: 92962},
+												pos: position{line: 2944, col: 10, offset: 93180},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2935, col: 10, offset: 92962},
+													pos:        position{line: 2944, col: 10, offset: 93180},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14741,12 +14919,12 @@ var g = &grammar{
 							pos: position{line: 591, col: 9, offset: 18486},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2829, col: 14, offset: 90131},
+									pos: position{line: 2838, col: 14, offset: 90349},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2829, col: 14, offset: 90131},
+										pos: position{line: 2838, col: 14, offset: 90349},
 										expr: &charClassMatcher{
-											pos:        position{line: 2829, col: 14, offset: 90131},
+											pos:        position{line: 2838, col: 14, offset: 90349},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14755,10 +14933,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2935, col: 10, offset: 92962},
+									pos: position{line: 2944, col: 10, offset: 93180},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2935, col: 10, offset: 92962},
+										pos:        position{line: 2944, col: 10, offset: 93180},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15215,10 +15393,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 614, col: 14, offset: 19333},
 											expr: &actionExpr{
-												pos: position{line: 2935, col: 10, offset: 92962},
+												pos: position{line: 2944, col: 10, offset: 93180},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2935, col: 10, offset: 92962},
+													pos:        position{line: 2944, col: 10, offset: 93180},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -15255,12 +15433,12 @@ var g = &grammar{
 							pos: position{line: 620, col: 9, offset: 19444},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2829, col: 14, offset: 90131},
+									pos: position{line: 2838, col: 14, offset: 90349},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2829, col: 14, offset: 90131},
+										pos: position{line: 2838, col: 14, offset: 90349},
 										expr: &charClassMatcher{
-											pos:        position{line: 2829, col: 14, offset: 90131},
+											pos:        position{line: 2838, col: 14, offset: 90349},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -15269,10 +15447,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2935, col: 10, offset: 92962},
+									pos: position{line: 2944, col: 10, offset: 93180},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2935, col: 10, offset: 92962},
+										pos:        position{line: 2944, col: 10, offset: 93180},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15699,10 +15877,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 644, col: 5, offset: 20407},
 							expr: &actionExpr{
-								pos: position{line: 2935, col: 10, offset: 92962},
+								pos: position{line: 2944, col: 10, offset: 93180},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2935, col: 10, offset: 92962},
+									pos:        position{line: 2944, col: 10, offset: 93180},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -16092,10 +16270,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2935, col: 10, offset: 92962},
+											pos: position{line: 2944, col: 10, offset: 93180},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2935, col: 10, offset: 92962},
+												pos:        position{line: 2944, col: 10, offset: 93180},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -16146,12 +16324,12 @@ var g = &grammar{
 									pos:   position{line: 711, col: 32, offset: 22937},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2920, col: 7, offset: 92614},
+										pos: position{line: 2929, col: 7, offset: 92832},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2920, col: 7, offset: 92614},
+											pos: position{line: 2929, col: 7, offset: 92832},
 											expr: &charClassMatcher{
-												pos:        position{line: 2920, col: 7, offset: 92614},
+												pos:        position{line: 2929, col: 7, offset: 92832},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -16163,10 +16341,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 711, col: 40, offset: 22945},
 									expr: &actionExpr{
-										pos: position{line: 2935, col: 10, offset: 92962},
+										pos: position{line: 2944, col: 10, offset: 93180},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2935, col: 10, offset: 92962},
+											pos:        position{line: 2944, col: 10, offset: 93180},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -16359,12 +16537,12 @@ var g = &grammar{
 									pos:   position{line: 713, col: 14, offset: 23062},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2920, col: 7, offset: 92614},
+										pos: position{line: 2929, col: 7, offset: 92832},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2920, col: 7, offset: 92614},
+											pos: position{line: 2929, col: 7, offset: 92832},
 											expr: &charClassMatcher{
-												pos:        position{line: 2920, col: 7, offset: 92614},
+												pos:        position{line: 2929, col: 7, offset: 92832},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -16408,41 +16586,41 @@ var g = &grammar{
 							pos:   position{line: 717, col: 35, offset: 23175},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2889, col: 17, offset: 91625},
+								pos: position{line: 2898, col: 17, offset: 91843},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2889, col: 17, offset: 91625},
+									pos:   position{line: 2898, col: 17, offset: 91843},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2906, col: 5, offset: 92079},
+										pos: position{line: 2915, col: 5, offset: 92297},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2906, col: 5, offset: 92079},
+											pos:   position{line: 2915, col: 5, offset: 92297},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2906, col: 14, offset: 92088},
+												pos: position{line: 2915, col: 14, offset: 92306},
 												expr: &choiceExpr{
-													pos: position{line: 2907, col: 9, offset: 92098},
+													pos: position{line: 2916, col: 9, offset: 92316},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2907, col: 9, offset: 92098},
+															pos: position{line: 2916, col: 9, offset: 92316},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2907, col: 9, offset: 92098},
+																pos: position{line: 2916, col: 9, offset: 92316},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2907, col: 9, offset: 92098},
+																		pos: position{line: 2916, col: 9, offset: 92316},
 																		expr: &litMatcher{
-																			pos:        position{line: 2907, col: 10, offset: 92099},
+																			pos:        position{line: 2916, col: 10, offset: 92317},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2908, col: 9, offset: 92127},
+																		pos: position{line: 2917, col: 9, offset: 92345},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2908, col: 10, offset: 92128},
+																			pos:        position{line: 2917, col: 10, offset: 92346},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -16453,27 +16631,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2911, col: 11, offset: 92340},
+															pos: position{line: 2920, col: 11, offset: 92558},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2911, col: 11, offset: 92340},
+																	pos:        position{line: 2920, col: 11, offset: 92558},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2911, col: 19, offset: 92348},
+																	pos: position{line: 2920, col: 19, offset: 92566},
 																	expr: &seqExpr{
-																		pos: position{line: 2911, col: 21, offset: 92350},
+																		pos: position{line: 2920, col: 21, offset: 92568},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2911, col: 21, offset: 92350},
+																				pos: position{line: 2920, col: 21, offset: 92568},
 																				expr: &actionExpr{
-																					pos: position{line: 2935, col: 10, offset: 92962},
+																					pos: position{line: 2944, col: 10, offset: 93180},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2935, col: 10, offset: 92962},
+																						pos:        position{line: 2944, col: 10, offset: 93180},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -16482,11 +16660,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2911, col: 28, offset: 92357},
+																				pos: position{line: 2920, col: 28, offset: 92575},
 																				expr: &notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -16885,10 +17063,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2914, col: 11, offset: 92477},
+															pos: position{line: 2923, col: 11, offset: 92695},
 															run: (*parser).callonExternalCrossReference105,
 															expr: &litMatcher{
-																pos:        position{line: 2914, col: 11, offset: 92477},
+																pos:        position{line: 2923, col: 11, offset: 92695},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16933,12 +17111,12 @@ var g = &grammar{
 							pos:   position{line: 1014, col: 11, offset: 31894},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2885, col: 14, offset: 91555},
+								pos: position{line: 2894, col: 14, offset: 91773},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2885, col: 14, offset: 91555},
+									pos: position{line: 2894, col: 14, offset: 91773},
 									expr: &charClassMatcher{
-										pos:        position{line: 2885, col: 14, offset: 91555},
+										pos:        position{line: 2894, col: 14, offset: 91773},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16948,28 +17126,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2957, col: 8, offset: 93360},
+							pos: position{line: 2966, col: 8, offset: 93578},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2944, col: 12, offset: 93133},
+									pos: position{line: 2953, col: 12, offset: 93351},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2944, col: 13, offset: 93134},
+										pos: position{line: 2953, col: 13, offset: 93352},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2944, col: 13, offset: 93134},
+												pos:        position{line: 2953, col: 13, offset: 93352},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2944, col: 20, offset: 93141},
+												pos:        position{line: 2953, col: 20, offset: 93359},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2944, col: 29, offset: 93150},
+												pos:        position{line: 2953, col: 29, offset: 93368},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16978,9 +17156,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2954, col: 8, offset: 93310},
+									pos: position{line: 2963, col: 8, offset: 93528},
 									expr: &anyMatcher{
-										line: 2954, col: 9, offset: 93311,
+										line: 2963, col: 9, offset: 93529,
 									},
 								},
 							},
@@ -17032,12 +17210,12 @@ var g = &grammar{
 													pos:   position{line: 2538, col: 49, offset: 81767},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 13, offset: 91488},
+														pos: position{line: 2890, col: 13, offset: 91706},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2881, col: 13, offset: 91488},
+															pos: position{line: 2890, col: 13, offset: 91706},
 															expr: &charClassMatcher{
-																pos:        position{line: 2881, col: 13, offset: 91488},
+																pos:        position{line: 2890, col: 13, offset: 91706},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17047,28 +17225,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2957, col: 8, offset: 93360},
+													pos: position{line: 2966, col: 8, offset: 93578},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2944, col: 12, offset: 93133},
+															pos: position{line: 2953, col: 12, offset: 93351},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2944, col: 13, offset: 93134},
+																pos: position{line: 2953, col: 13, offset: 93352},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 13, offset: 93134},
+																		pos:        position{line: 2953, col: 13, offset: 93352},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 20, offset: 93141},
+																		pos:        position{line: 2953, col: 20, offset: 93359},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 29, offset: 93150},
+																		pos:        position{line: 2953, col: 29, offset: 93368},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17077,9 +17255,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2954, col: 8, offset: 93310},
+															pos: position{line: 2963, col: 8, offset: 93528},
 															expr: &anyMatcher{
-																line: 2954, col: 9, offset: 93311,
+																line: 2963, col: 9, offset: 93529,
 															},
 														},
 													},
@@ -17130,10 +17308,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 767, col: 8, offset: 24774},
 																expr: &actionExpr{
-																	pos: position{line: 2935, col: 10, offset: 92962},
+																	pos: position{line: 2944, col: 10, offset: 93180},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2935, col: 10, offset: 92962},
+																		pos:        position{line: 2944, col: 10, offset: 93180},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17142,28 +17320,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2957, col: 8, offset: 93360},
+																pos: position{line: 2966, col: 8, offset: 93578},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2944, col: 12, offset: 93133},
+																		pos: position{line: 2953, col: 12, offset: 93351},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2944, col: 13, offset: 93134},
+																			pos: position{line: 2953, col: 13, offset: 93352},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2944, col: 13, offset: 93134},
+																					pos:        position{line: 2953, col: 13, offset: 93352},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2944, col: 20, offset: 93141},
+																					pos:        position{line: 2953, col: 20, offset: 93359},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2944, col: 29, offset: 93150},
+																					pos:        position{line: 2953, col: 29, offset: 93368},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17172,9 +17350,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2954, col: 8, offset: 93310},
+																		pos: position{line: 2963, col: 8, offset: 93528},
 																		expr: &anyMatcher{
-																			line: 2954, col: 9, offset: 93311,
+																			line: 2963, col: 9, offset: 93529,
 																		},
 																	},
 																},
@@ -17235,10 +17413,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 767, col: 8, offset: 24774},
 																								expr: &actionExpr{
-																									pos: position{line: 2935, col: 10, offset: 92962},
+																									pos: position{line: 2944, col: 10, offset: 93180},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2935, col: 10, offset: 92962},
+																										pos:        position{line: 2944, col: 10, offset: 93180},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17247,28 +17425,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2957, col: 8, offset: 93360},
+																								pos: position{line: 2966, col: 8, offset: 93578},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2944, col: 12, offset: 93133},
+																										pos: position{line: 2953, col: 12, offset: 93351},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2944, col: 13, offset: 93134},
+																											pos: position{line: 2953, col: 13, offset: 93352},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 13, offset: 93134},
+																													pos:        position{line: 2953, col: 13, offset: 93352},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 20, offset: 93141},
+																													pos:        position{line: 2953, col: 20, offset: 93359},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 29, offset: 93150},
+																													pos:        position{line: 2953, col: 29, offset: 93368},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17277,9 +17455,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2954, col: 8, offset: 93310},
+																										pos: position{line: 2963, col: 8, offset: 93528},
 																										expr: &anyMatcher{
-																											line: 2954, col: 9, offset: 93311,
+																											line: 2963, col: 9, offset: 93529,
 																										},
 																									},
 																								},
@@ -17288,9 +17466,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -17306,21 +17484,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2952, col: 11, offset: 93296},
+																						pos: position{line: 2961, col: 11, offset: 93514},
 																						expr: &anyMatcher{
-																							line: 2952, col: 13, offset: 93298,
+																							line: 2961, col: 13, offset: 93516,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 13, offset: 91488},
+																							pos: position{line: 2890, col: 13, offset: 91706},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2881, col: 13, offset: 91488},
+																								pos: position{line: 2890, col: 13, offset: 91706},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 13, offset: 91488},
+																									pos:        position{line: 2890, col: 13, offset: 91706},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17330,28 +17508,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2957, col: 8, offset: 93360},
+																						pos: position{line: 2966, col: 8, offset: 93578},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2944, col: 12, offset: 93133},
+																								pos: position{line: 2953, col: 12, offset: 93351},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2944, col: 13, offset: 93134},
+																									pos: position{line: 2953, col: 13, offset: 93352},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 13, offset: 93134},
+																											pos:        position{line: 2953, col: 13, offset: 93352},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 20, offset: 93141},
+																											pos:        position{line: 2953, col: 20, offset: 93359},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 29, offset: 93150},
+																											pos:        position{line: 2953, col: 29, offset: 93368},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17360,9 +17538,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2954, col: 8, offset: 93310},
+																								pos: position{line: 2963, col: 8, offset: 93528},
 																								expr: &anyMatcher{
-																									line: 2954, col: 9, offset: 93311,
+																									line: 2963, col: 9, offset: 93529,
 																								},
 																							},
 																						},
@@ -17418,10 +17596,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 767, col: 8, offset: 24774},
 																			expr: &actionExpr{
-																				pos: position{line: 2935, col: 10, offset: 92962},
+																				pos: position{line: 2944, col: 10, offset: 93180},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2935, col: 10, offset: 92962},
+																					pos:        position{line: 2944, col: 10, offset: 93180},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -17430,28 +17608,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2957, col: 8, offset: 93360},
+																			pos: position{line: 2966, col: 8, offset: 93578},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2944, col: 12, offset: 93133},
+																					pos: position{line: 2953, col: 12, offset: 93351},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2944, col: 13, offset: 93134},
+																						pos: position{line: 2953, col: 13, offset: 93352},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 13, offset: 93134},
+																								pos:        position{line: 2953, col: 13, offset: 93352},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 20, offset: 93141},
+																								pos:        position{line: 2953, col: 20, offset: 93359},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 29, offset: 93150},
+																								pos:        position{line: 2953, col: 29, offset: 93368},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -17460,9 +17638,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -17471,9 +17649,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2954, col: 8, offset: 93310},
+																pos: position{line: 2963, col: 8, offset: 93528},
 																expr: &anyMatcher{
-																	line: 2954, col: 9, offset: 93311,
+																	line: 2963, col: 9, offset: 93529,
 																},
 															},
 														},
@@ -17523,12 +17701,12 @@ var g = &grammar{
 													pos:   position{line: 2538, col: 49, offset: 81767},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 13, offset: 91488},
+														pos: position{line: 2890, col: 13, offset: 91706},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2881, col: 13, offset: 91488},
+															pos: position{line: 2890, col: 13, offset: 91706},
 															expr: &charClassMatcher{
-																pos:        position{line: 2881, col: 13, offset: 91488},
+																pos:        position{line: 2890, col: 13, offset: 91706},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17538,28 +17716,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2957, col: 8, offset: 93360},
+													pos: position{line: 2966, col: 8, offset: 93578},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2944, col: 12, offset: 93133},
+															pos: position{line: 2953, col: 12, offset: 93351},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2944, col: 13, offset: 93134},
+																pos: position{line: 2953, col: 13, offset: 93352},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 13, offset: 93134},
+																		pos:        position{line: 2953, col: 13, offset: 93352},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 20, offset: 93141},
+																		pos:        position{line: 2953, col: 20, offset: 93359},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 29, offset: 93150},
+																		pos:        position{line: 2953, col: 29, offset: 93368},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17568,9 +17746,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2954, col: 8, offset: 93310},
+															pos: position{line: 2963, col: 8, offset: 93528},
 															expr: &anyMatcher{
-																line: 2954, col: 9, offset: 93311,
+																line: 2963, col: 9, offset: 93529,
 															},
 														},
 													},
@@ -17621,10 +17799,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 767, col: 8, offset: 24774},
 																expr: &actionExpr{
-																	pos: position{line: 2935, col: 10, offset: 92962},
+																	pos: position{line: 2944, col: 10, offset: 93180},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2935, col: 10, offset: 92962},
+																		pos:        position{line: 2944, col: 10, offset: 93180},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17633,28 +17811,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2957, col: 8, offset: 93360},
+																pos: position{line: 2966, col: 8, offset: 93578},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2944, col: 12, offset: 93133},
+																		pos: position{line: 2953, col: 12, offset: 93351},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2944, col: 13, offset: 93134},
+																			pos: position{line: 2953, col: 13, offset: 93352},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2944, col: 13, offset: 93134},
+																					pos:        position{line: 2953, col: 13, offset: 93352},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2944, col: 20, offset: 93141},
+																					pos:        position{line: 2953, col: 20, offset: 93359},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2944, col: 29, offset: 93150},
+																					pos:        position{line: 2953, col: 29, offset: 93368},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17663,9 +17841,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2954, col: 8, offset: 93310},
+																		pos: position{line: 2963, col: 8, offset: 93528},
 																		expr: &anyMatcher{
-																			line: 2954, col: 9, offset: 93311,
+																			line: 2963, col: 9, offset: 93529,
 																		},
 																	},
 																},
@@ -17726,10 +17904,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 767, col: 8, offset: 24774},
 																								expr: &actionExpr{
-																									pos: position{line: 2935, col: 10, offset: 92962},
+																									pos: position{line: 2944, col: 10, offset: 93180},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2935, col: 10, offset: 92962},
+																										pos:        position{line: 2944, col: 10, offset: 93180},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17738,28 +17916,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2957, col: 8, offset: 93360},
+																								pos: position{line: 2966, col: 8, offset: 93578},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2944, col: 12, offset: 93133},
+																										pos: position{line: 2953, col: 12, offset: 93351},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2944, col: 13, offset: 93134},
+																											pos: position{line: 2953, col: 13, offset: 93352},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 13, offset: 93134},
+																													pos:        position{line: 2953, col: 13, offset: 93352},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 20, offset: 93141},
+																													pos:        position{line: 2953, col: 20, offset: 93359},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 29, offset: 93150},
+																													pos:        position{line: 2953, col: 29, offset: 93368},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17768,9 +17946,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2954, col: 8, offset: 93310},
+																										pos: position{line: 2963, col: 8, offset: 93528},
 																										expr: &anyMatcher{
-																											line: 2954, col: 9, offset: 93311,
+																											line: 2963, col: 9, offset: 93529,
 																										},
 																									},
 																								},
@@ -17779,9 +17957,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -17797,21 +17975,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2952, col: 11, offset: 93296},
+																						pos: position{line: 2961, col: 11, offset: 93514},
 																						expr: &anyMatcher{
-																							line: 2952, col: 13, offset: 93298,
+																							line: 2961, col: 13, offset: 93516,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 13, offset: 91488},
+																							pos: position{line: 2890, col: 13, offset: 91706},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2881, col: 13, offset: 91488},
+																								pos: position{line: 2890, col: 13, offset: 91706},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 13, offset: 91488},
+																									pos:        position{line: 2890, col: 13, offset: 91706},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17821,28 +17999,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2957, col: 8, offset: 93360},
+																						pos: position{line: 2966, col: 8, offset: 93578},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2944, col: 12, offset: 93133},
+																								pos: position{line: 2953, col: 12, offset: 93351},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2944, col: 13, offset: 93134},
+																									pos: position{line: 2953, col: 13, offset: 93352},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 13, offset: 93134},
+																											pos:        position{line: 2953, col: 13, offset: 93352},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 20, offset: 93141},
+																											pos:        position{line: 2953, col: 20, offset: 93359},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 29, offset: 93150},
+																											pos:        position{line: 2953, col: 29, offset: 93368},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17851,9 +18029,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2954, col: 8, offset: 93310},
+																								pos: position{line: 2963, col: 8, offset: 93528},
 																								expr: &anyMatcher{
-																									line: 2954, col: 9, offset: 93311,
+																									line: 2963, col: 9, offset: 93529,
 																								},
 																							},
 																						},
@@ -17909,10 +18087,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 767, col: 8, offset: 24774},
 																			expr: &actionExpr{
-																				pos: position{line: 2935, col: 10, offset: 92962},
+																				pos: position{line: 2944, col: 10, offset: 93180},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2935, col: 10, offset: 92962},
+																					pos:        position{line: 2944, col: 10, offset: 93180},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -17921,28 +18099,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2957, col: 8, offset: 93360},
+																			pos: position{line: 2966, col: 8, offset: 93578},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2944, col: 12, offset: 93133},
+																					pos: position{line: 2953, col: 12, offset: 93351},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2944, col: 13, offset: 93134},
+																						pos: position{line: 2953, col: 13, offset: 93352},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 13, offset: 93134},
+																								pos:        position{line: 2953, col: 13, offset: 93352},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 20, offset: 93141},
+																								pos:        position{line: 2953, col: 20, offset: 93359},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 29, offset: 93150},
+																								pos:        position{line: 2953, col: 29, offset: 93368},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -17951,9 +18129,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -17962,9 +18140,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2954, col: 8, offset: 93310},
+																pos: position{line: 2963, col: 8, offset: 93528},
 																expr: &anyMatcher{
-																	line: 2954, col: 9, offset: 93311,
+																	line: 2963, col: 9, offset: 93529,
 																},
 															},
 														},
@@ -18008,10 +18186,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1150, col: 20, offset: 35774},
 																expr: &actionExpr{
-																	pos: position{line: 2935, col: 10, offset: 92962},
+																	pos: position{line: 2944, col: 10, offset: 93180},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2935, col: 10, offset: 92962},
+																		pos:        position{line: 2944, col: 10, offset: 93180},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -18062,10 +18240,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1169, col: 5, offset: 36379},
 																										expr: &actionExpr{
-																											pos: position{line: 2935, col: 10, offset: 92962},
+																											pos: position{line: 2944, col: 10, offset: 93180},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2935, col: 10, offset: 92962},
+																												pos:        position{line: 2944, col: 10, offset: 93180},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -18097,10 +18275,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1173, col: 5, offset: 36478},
 																										expr: &actionExpr{
-																											pos: position{line: 2935, col: 10, offset: 92962},
+																											pos: position{line: 2944, col: 10, offset: 93180},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2935, col: 10, offset: 92962},
+																												pos:        position{line: 2944, col: 10, offset: 93180},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -18132,10 +18310,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1177, col: 5, offset: 36575},
 																										expr: &actionExpr{
-																											pos: position{line: 2935, col: 10, offset: 92962},
+																											pos: position{line: 2944, col: 10, offset: 93180},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2935, col: 10, offset: 92962},
+																												pos:        position{line: 2944, col: 10, offset: 93180},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -18160,9 +18338,9 @@ var g = &grammar{
 																								pos: position{line: 1183, col: 5, offset: 36697},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2952, col: 11, offset: 93296},
+																										pos: position{line: 2961, col: 11, offset: 93514},
 																										expr: &anyMatcher{
-																											line: 2952, col: 13, offset: 93298,
+																											line: 2961, col: 13, offset: 93516,
 																										},
 																									},
 																									&litMatcher{
@@ -18203,10 +18381,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1155, col: 69, offset: 35967},
 																					expr: &actionExpr{
-																						pos: position{line: 2935, col: 10, offset: 92962},
+																						pos: position{line: 2944, col: 10, offset: 93180},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2935, col: 10, offset: 92962},
+																							pos:        position{line: 2944, col: 10, offset: 93180},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18226,10 +18404,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1155, col: 81, offset: 35979},
 																					expr: &actionExpr{
-																						pos: position{line: 2935, col: 10, offset: 92962},
+																						pos: position{line: 2944, col: 10, offset: 93180},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2935, col: 10, offset: 92962},
+																							pos:        position{line: 2944, col: 10, offset: 93180},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18247,28 +18425,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2957, col: 8, offset: 93360},
+																pos: position{line: 2966, col: 8, offset: 93578},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2944, col: 12, offset: 93133},
+																		pos: position{line: 2953, col: 12, offset: 93351},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2944, col: 13, offset: 93134},
+																			pos: position{line: 2953, col: 13, offset: 93352},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2944, col: 13, offset: 93134},
+																					pos:        position{line: 2953, col: 13, offset: 93352},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2944, col: 20, offset: 93141},
+																					pos:        position{line: 2953, col: 20, offset: 93359},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2944, col: 29, offset: 93150},
+																					pos:        position{line: 2953, col: 29, offset: 93368},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -18277,9 +18455,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2954, col: 8, offset: 93310},
+																		pos: position{line: 2963, col: 8, offset: 93528},
 																		expr: &anyMatcher{
-																			line: 2954, col: 9, offset: 93311,
+																			line: 2963, col: 9, offset: 93529,
 																		},
 																	},
 																},
@@ -18318,12 +18496,12 @@ var g = &grammar{
 																		pos:   position{line: 2538, col: 49, offset: 81767},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2881, col: 13, offset: 91488},
+																			pos: position{line: 2890, col: 13, offset: 91706},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2881, col: 13, offset: 91488},
+																				pos: position{line: 2890, col: 13, offset: 91706},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 13, offset: 91488},
+																					pos:        position{line: 2890, col: 13, offset: 91706},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -18333,28 +18511,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2957, col: 8, offset: 93360},
+																		pos: position{line: 2966, col: 8, offset: 93578},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
+																				pos: position{line: 2953, col: 12, offset: 93351},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18363,9 +18541,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2954, col: 8, offset: 93310},
+																				pos: position{line: 2963, col: 8, offset: 93528},
 																				expr: &anyMatcher{
-																					line: 2954, col: 9, offset: 93311,
+																					line: 2963, col: 9, offset: 93529,
 																				},
 																			},
 																		},
@@ -18416,10 +18594,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 767, col: 8, offset: 24774},
 																					expr: &actionExpr{
-																						pos: position{line: 2935, col: 10, offset: 92962},
+																						pos: position{line: 2944, col: 10, offset: 93180},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2935, col: 10, offset: 92962},
+																							pos:        position{line: 2944, col: 10, offset: 93180},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18428,28 +18606,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2957, col: 8, offset: 93360},
+																					pos: position{line: 2966, col: 8, offset: 93578},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2944, col: 12, offset: 93133},
+																							pos: position{line: 2953, col: 12, offset: 93351},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2944, col: 13, offset: 93134},
+																								pos: position{line: 2953, col: 13, offset: 93352},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 13, offset: 93134},
+																										pos:        position{line: 2953, col: 13, offset: 93352},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 20, offset: 93141},
+																										pos:        position{line: 2953, col: 20, offset: 93359},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 29, offset: 93150},
+																										pos:        position{line: 2953, col: 29, offset: 93368},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -18458,9 +18636,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2954, col: 8, offset: 93310},
+																							pos: position{line: 2963, col: 8, offset: 93528},
 																							expr: &anyMatcher{
-																								line: 2954, col: 9, offset: 93311,
+																								line: 2963, col: 9, offset: 93529,
 																							},
 																						},
 																					},
@@ -18521,10 +18699,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 767, col: 8, offset: 24774},
 																													expr: &actionExpr{
-																														pos: position{line: 2935, col: 10, offset: 92962},
+																														pos: position{line: 2944, col: 10, offset: 93180},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2935, col: 10, offset: 92962},
+																															pos:        position{line: 2944, col: 10, offset: 93180},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18533,28 +18711,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2957, col: 8, offset: 93360},
+																													pos: position{line: 2966, col: 8, offset: 93578},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2944, col: 12, offset: 93133},
+																															pos: position{line: 2953, col: 12, offset: 93351},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2944, col: 13, offset: 93134},
+																																pos: position{line: 2953, col: 13, offset: 93352},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2944, col: 13, offset: 93134},
+																																		pos:        position{line: 2953, col: 13, offset: 93352},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2944, col: 20, offset: 93141},
+																																		pos:        position{line: 2953, col: 20, offset: 93359},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2944, col: 29, offset: 93150},
+																																		pos:        position{line: 2953, col: 29, offset: 93368},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -18563,9 +18741,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2954, col: 8, offset: 93310},
+																															pos: position{line: 2963, col: 8, offset: 93528},
 																															expr: &anyMatcher{
-																																line: 2954, col: 9, offset: 93311,
+																																line: 2963, col: 9, offset: 93529,
 																															},
 																														},
 																													},
@@ -18574,9 +18752,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2954, col: 8, offset: 93310},
+																										pos: position{line: 2963, col: 8, offset: 93528},
 																										expr: &anyMatcher{
-																											line: 2954, col: 9, offset: 93311,
+																											line: 2963, col: 9, offset: 93529,
 																										},
 																									},
 																								},
@@ -18592,21 +18770,21 @@ var g = &grammar{
 																									pos: position{line: 836, col: 5, offset: 27176},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2952, col: 11, offset: 93296},
+																											pos: position{line: 2961, col: 11, offset: 93514},
 																											expr: &anyMatcher{
-																												line: 2952, col: 13, offset: 93298,
+																												line: 2961, col: 13, offset: 93516,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 837, col: 5, offset: 27251},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2881, col: 13, offset: 91488},
+																												pos: position{line: 2890, col: 13, offset: 91706},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2881, col: 13, offset: 91488},
+																													pos: position{line: 2890, col: 13, offset: 91706},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2881, col: 13, offset: 91488},
+																														pos:        position{line: 2890, col: 13, offset: 91706},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18616,28 +18794,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2957, col: 8, offset: 93360},
+																											pos: position{line: 2966, col: 8, offset: 93578},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2944, col: 12, offset: 93133},
+																													pos: position{line: 2953, col: 12, offset: 93351},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2944, col: 13, offset: 93134},
+																														pos: position{line: 2953, col: 13, offset: 93352},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 13, offset: 93134},
+																																pos:        position{line: 2953, col: 13, offset: 93352},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 20, offset: 93141},
+																																pos:        position{line: 2953, col: 20, offset: 93359},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 29, offset: 93150},
+																																pos:        position{line: 2953, col: 29, offset: 93368},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18646,9 +18824,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2954, col: 8, offset: 93310},
+																													pos: position{line: 2963, col: 8, offset: 93528},
 																													expr: &anyMatcher{
-																														line: 2954, col: 9, offset: 93311,
+																														line: 2963, col: 9, offset: 93529,
 																													},
 																												},
 																											},
@@ -18704,10 +18882,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 767, col: 8, offset: 24774},
 																								expr: &actionExpr{
-																									pos: position{line: 2935, col: 10, offset: 92962},
+																									pos: position{line: 2944, col: 10, offset: 93180},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2935, col: 10, offset: 92962},
+																										pos:        position{line: 2944, col: 10, offset: 93180},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -18716,28 +18894,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2957, col: 8, offset: 93360},
+																								pos: position{line: 2966, col: 8, offset: 93578},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2944, col: 12, offset: 93133},
+																										pos: position{line: 2953, col: 12, offset: 93351},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2944, col: 13, offset: 93134},
+																											pos: position{line: 2953, col: 13, offset: 93352},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 13, offset: 93134},
+																													pos:        position{line: 2953, col: 13, offset: 93352},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 20, offset: 93141},
+																													pos:        position{line: 2953, col: 20, offset: 93359},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 29, offset: 93150},
+																													pos:        position{line: 2953, col: 29, offset: 93368},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -18746,9 +18924,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2954, col: 8, offset: 93310},
+																										pos: position{line: 2963, col: 8, offset: 93528},
 																										expr: &anyMatcher{
-																											line: 2954, col: 9, offset: 93311,
+																											line: 2963, col: 9, offset: 93529,
 																										},
 																									},
 																								},
@@ -18757,9 +18935,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -18785,10 +18963,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1194, col: 21, offset: 36975},
 																	expr: &actionExpr{
-																		pos: position{line: 2935, col: 10, offset: 92962},
+																		pos: position{line: 2944, col: 10, offset: 93180},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2935, col: 10, offset: 92962},
+																			pos:        position{line: 2944, col: 10, offset: 93180},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18890,10 +19068,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1206, col: 28, offset: 37606},
 																													expr: &actionExpr{
-																														pos: position{line: 2935, col: 10, offset: 92962},
+																														pos: position{line: 2944, col: 10, offset: 93180},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2935, col: 10, offset: 92962},
+																															pos:        position{line: 2944, col: 10, offset: 93180},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -19040,28 +19218,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2957, col: 8, offset: 93360},
+																	pos: position{line: 2966, col: 8, offset: 93578},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2944, col: 12, offset: 93133},
+																			pos: position{line: 2953, col: 12, offset: 93351},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2944, col: 13, offset: 93134},
+																				pos: position{line: 2953, col: 13, offset: 93352},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 13, offset: 93134},
+																						pos:        position{line: 2953, col: 13, offset: 93352},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 20, offset: 93141},
+																						pos:        position{line: 2953, col: 20, offset: 93359},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 29, offset: 93150},
+																						pos:        position{line: 2953, col: 29, offset: 93368},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -19070,9 +19248,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2954, col: 8, offset: 93310},
+																			pos: position{line: 2963, col: 8, offset: 93528},
 																			expr: &anyMatcher{
-																				line: 2954, col: 9, offset: 93311,
+																				line: 2963, col: 9, offset: 93529,
 																			},
 																		},
 																	},
@@ -19152,10 +19330,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 49, offset: 11042},
 														expr: &actionExpr{
-															pos: position{line: 2935, col: 10, offset: 92962},
+															pos: position{line: 2944, col: 10, offset: 93180},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2935, col: 10, offset: 92962},
+																pos:        position{line: 2944, col: 10, offset: 93180},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19164,28 +19342,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2957, col: 8, offset: 93360},
+														pos: position{line: 2966, col: 8, offset: 93578},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2944, col: 12, offset: 93133},
+																pos: position{line: 2953, col: 12, offset: 93351},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2944, col: 13, offset: 93134},
+																	pos: position{line: 2953, col: 13, offset: 93352},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 13, offset: 93134},
+																			pos:        position{line: 2953, col: 13, offset: 93352},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 20, offset: 93141},
+																			pos:        position{line: 2953, col: 20, offset: 93359},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 29, offset: 93150},
+																			pos:        position{line: 2953, col: 29, offset: 93368},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19194,9 +19372,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2954, col: 8, offset: 93310},
+																pos: position{line: 2963, col: 8, offset: 93528},
 																expr: &anyMatcher{
-																	line: 2954, col: 9, offset: 93311,
+																	line: 2963, col: 9, offset: 93529,
 																},
 															},
 														},
@@ -19257,10 +19435,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 364, col: 39, offset: 11163},
 														expr: &actionExpr{
-															pos: position{line: 2935, col: 10, offset: 92962},
+															pos: position{line: 2944, col: 10, offset: 93180},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2935, col: 10, offset: 92962},
+																pos:        position{line: 2944, col: 10, offset: 93180},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19269,28 +19447,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2957, col: 8, offset: 93360},
+														pos: position{line: 2966, col: 8, offset: 93578},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2944, col: 12, offset: 93133},
+																pos: position{line: 2953, col: 12, offset: 93351},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2944, col: 13, offset: 93134},
+																	pos: position{line: 2953, col: 13, offset: 93352},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 13, offset: 93134},
+																			pos:        position{line: 2953, col: 13, offset: 93352},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 20, offset: 93141},
+																			pos:        position{line: 2953, col: 20, offset: 93359},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 29, offset: 93150},
+																			pos:        position{line: 2953, col: 29, offset: 93368},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19299,9 +19477,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2954, col: 8, offset: 93310},
+																pos: position{line: 2963, col: 8, offset: 93528},
 																expr: &anyMatcher{
-																	line: 2954, col: 9, offset: 93311,
+																	line: 2963, col: 9, offset: 93529,
 																},
 															},
 														},
@@ -19334,12 +19512,12 @@ var g = &grammar{
 														pos:   position{line: 2538, col: 49, offset: 81767},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2881, col: 13, offset: 91488},
+															pos: position{line: 2890, col: 13, offset: 91706},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2881, col: 13, offset: 91488},
+																pos: position{line: 2890, col: 13, offset: 91706},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2881, col: 13, offset: 91488},
+																	pos:        position{line: 2890, col: 13, offset: 91706},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -19349,28 +19527,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2957, col: 8, offset: 93360},
+														pos: position{line: 2966, col: 8, offset: 93578},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2944, col: 12, offset: 93133},
+																pos: position{line: 2953, col: 12, offset: 93351},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2944, col: 13, offset: 93134},
+																	pos: position{line: 2953, col: 13, offset: 93352},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 13, offset: 93134},
+																			pos:        position{line: 2953, col: 13, offset: 93352},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 20, offset: 93141},
+																			pos:        position{line: 2953, col: 20, offset: 93359},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 29, offset: 93150},
+																			pos:        position{line: 2953, col: 29, offset: 93368},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19379,9 +19557,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2954, col: 8, offset: 93310},
+																pos: position{line: 2963, col: 8, offset: 93528},
 																expr: &anyMatcher{
-																	line: 2954, col: 9, offset: 93311,
+																	line: 2963, col: 9, offset: 93529,
 																},
 															},
 														},
@@ -19432,10 +19610,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 767, col: 8, offset: 24774},
 																	expr: &actionExpr{
-																		pos: position{line: 2935, col: 10, offset: 92962},
+																		pos: position{line: 2944, col: 10, offset: 93180},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2935, col: 10, offset: 92962},
+																			pos:        position{line: 2944, col: 10, offset: 93180},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -19444,28 +19622,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2957, col: 8, offset: 93360},
+																	pos: position{line: 2966, col: 8, offset: 93578},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2944, col: 12, offset: 93133},
+																			pos: position{line: 2953, col: 12, offset: 93351},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2944, col: 13, offset: 93134},
+																				pos: position{line: 2953, col: 13, offset: 93352},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 13, offset: 93134},
+																						pos:        position{line: 2953, col: 13, offset: 93352},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 20, offset: 93141},
+																						pos:        position{line: 2953, col: 20, offset: 93359},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 29, offset: 93150},
+																						pos:        position{line: 2953, col: 29, offset: 93368},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -19474,9 +19652,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2954, col: 8, offset: 93310},
+																			pos: position{line: 2963, col: 8, offset: 93528},
 																			expr: &anyMatcher{
-																				line: 2954, col: 9, offset: 93311,
+																				line: 2963, col: 9, offset: 93529,
 																			},
 																		},
 																	},
@@ -19537,10 +19715,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 767, col: 8, offset: 24774},
 																									expr: &actionExpr{
-																										pos: position{line: 2935, col: 10, offset: 92962},
+																										pos: position{line: 2944, col: 10, offset: 93180},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2935, col: 10, offset: 92962},
+																											pos:        position{line: 2944, col: 10, offset: 93180},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -19549,28 +19727,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2957, col: 8, offset: 93360},
+																									pos: position{line: 2966, col: 8, offset: 93578},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2944, col: 12, offset: 93133},
+																											pos: position{line: 2953, col: 12, offset: 93351},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2944, col: 13, offset: 93134},
+																												pos: position{line: 2953, col: 13, offset: 93352},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 13, offset: 93134},
+																														pos:        position{line: 2953, col: 13, offset: 93352},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 20, offset: 93141},
+																														pos:        position{line: 2953, col: 20, offset: 93359},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 29, offset: 93150},
+																														pos:        position{line: 2953, col: 29, offset: 93368},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -19579,9 +19757,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2954, col: 8, offset: 93310},
+																											pos: position{line: 2963, col: 8, offset: 93528},
 																											expr: &anyMatcher{
-																												line: 2954, col: 9, offset: 93311,
+																												line: 2963, col: 9, offset: 93529,
 																											},
 																										},
 																									},
@@ -19590,9 +19768,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2954, col: 8, offset: 93310},
+																						pos: position{line: 2963, col: 8, offset: 93528},
 																						expr: &anyMatcher{
-																							line: 2954, col: 9, offset: 93311,
+																							line: 2963, col: 9, offset: 93529,
 																						},
 																					},
 																				},
@@ -19608,21 +19786,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27176},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2952, col: 11, offset: 93296},
+																							pos: position{line: 2961, col: 11, offset: 93514},
 																							expr: &anyMatcher{
-																								line: 2952, col: 13, offset: 93298,
+																								line: 2961, col: 13, offset: 93516,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27251},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 13, offset: 91488},
+																								pos: position{line: 2890, col: 13, offset: 91706},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2881, col: 13, offset: 91488},
+																									pos: position{line: 2890, col: 13, offset: 91706},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 13, offset: 91488},
+																										pos:        position{line: 2890, col: 13, offset: 91706},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19632,28 +19810,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19662,9 +19840,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -19720,10 +19898,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 767, col: 8, offset: 24774},
 																				expr: &actionExpr{
-																					pos: position{line: 2935, col: 10, offset: 92962},
+																					pos: position{line: 2944, col: 10, offset: 93180},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2935, col: 10, offset: 92962},
+																						pos:        position{line: 2944, col: 10, offset: 93180},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -19732,28 +19910,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2957, col: 8, offset: 93360},
+																				pos: position{line: 2966, col: 8, offset: 93578},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2944, col: 12, offset: 93133},
+																						pos: position{line: 2953, col: 12, offset: 93351},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2944, col: 13, offset: 93134},
+																							pos: position{line: 2953, col: 13, offset: 93352},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2944, col: 13, offset: 93134},
+																									pos:        position{line: 2953, col: 13, offset: 93352},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2944, col: 20, offset: 93141},
+																									pos:        position{line: 2953, col: 20, offset: 93359},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2944, col: 29, offset: 93150},
+																									pos:        position{line: 2953, col: 29, offset: 93368},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -19762,9 +19940,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2954, col: 8, offset: 93310},
+																						pos: position{line: 2963, col: 8, offset: 93528},
 																						expr: &anyMatcher{
-																							line: 2954, col: 9, offset: 93311,
+																							line: 2963, col: 9, offset: 93529,
 																						},
 																					},
 																				},
@@ -19773,9 +19951,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2954, col: 8, offset: 93310},
+																	pos: position{line: 2963, col: 8, offset: 93528},
 																	expr: &anyMatcher{
-																		line: 2954, col: 9, offset: 93311,
+																		line: 2963, col: 9, offset: 93529,
 																	},
 																},
 															},
@@ -19808,12 +19986,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2939, col: 11, offset: 93023},
+							pos: position{line: 2948, col: 11, offset: 93241},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2939, col: 11, offset: 93023},
+								pos: position{line: 2948, col: 11, offset: 93241},
 								expr: &charClassMatcher{
-									pos:        position{line: 2939, col: 11, offset: 93023},
+									pos:        position{line: 2948, col: 11, offset: 93241},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19830,28 +20008,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2957, col: 8, offset: 93360},
+							pos: position{line: 2966, col: 8, offset: 93578},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2944, col: 12, offset: 93133},
+									pos: position{line: 2953, col: 12, offset: 93351},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2944, col: 13, offset: 93134},
+										pos: position{line: 2953, col: 13, offset: 93352},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2944, col: 13, offset: 93134},
+												pos:        position{line: 2953, col: 13, offset: 93352},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2944, col: 20, offset: 93141},
+												pos:        position{line: 2953, col: 20, offset: 93359},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2944, col: 29, offset: 93150},
+												pos:        position{line: 2953, col: 29, offset: 93368},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19860,9 +20038,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2954, col: 8, offset: 93310},
+									pos: position{line: 2963, col: 8, offset: 93528},
 									expr: &anyMatcher{
-										line: 2954, col: 9, offset: 93311,
+										line: 2963, col: 9, offset: 93529,
 									},
 								},
 							},
@@ -19901,10 +20079,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1169, col: 5, offset: 36379},
 							expr: &actionExpr{
-								pos: position{line: 2935, col: 10, offset: 92962},
+								pos: position{line: 2944, col: 10, offset: 93180},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2935, col: 10, offset: 92962},
+									pos:        position{line: 2944, col: 10, offset: 93180},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19936,10 +20114,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1173, col: 5, offset: 36478},
 							expr: &actionExpr{
-								pos: position{line: 2935, col: 10, offset: 92962},
+								pos: position{line: 2944, col: 10, offset: 93180},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2935, col: 10, offset: 92962},
+									pos:        position{line: 2944, col: 10, offset: 93180},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19971,10 +20149,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1177, col: 5, offset: 36575},
 							expr: &actionExpr{
-								pos: position{line: 2935, col: 10, offset: 92962},
+								pos: position{line: 2944, col: 10, offset: 93180},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2935, col: 10, offset: 92962},
+									pos:        position{line: 2944, col: 10, offset: 93180},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20040,12 +20218,12 @@ var g = &grammar{
 							pos:   position{line: 1305, col: 13, offset: 40824},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2920, col: 7, offset: 92614},
+								pos: position{line: 2929, col: 7, offset: 92832},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2920, col: 7, offset: 92614},
+									pos: position{line: 2929, col: 7, offset: 92832},
 									expr: &charClassMatcher{
-										pos:        position{line: 2920, col: 7, offset: 92614},
+										pos:        position{line: 2929, col: 7, offset: 92832},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -20114,12 +20292,12 @@ var g = &grammar{
 							pos: position{line: 1316, col: 31, offset: 41284},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2829, col: 14, offset: 90131},
+									pos: position{line: 2838, col: 14, offset: 90349},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2829, col: 14, offset: 90131},
+										pos: position{line: 2838, col: 14, offset: 90349},
 										expr: &charClassMatcher{
-											pos:        position{line: 2829, col: 14, offset: 90131},
+											pos:        position{line: 2838, col: 14, offset: 90349},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20132,10 +20310,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2935, col: 10, offset: 92962},
+									pos: position{line: 2944, col: 10, offset: 93180},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2935, col: 10, offset: 92962},
+										pos:        position{line: 2944, col: 10, offset: 93180},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -20259,48 +20437,48 @@ var g = &grammar{
 							pos:   position{line: 1337, col: 15, offset: 42102},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2893, col: 13, offset: 91721},
+								pos: position{line: 2902, col: 13, offset: 91939},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2893, col: 13, offset: 91721},
+									pos: position{line: 2902, col: 13, offset: 91939},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2893, col: 13, offset: 91721},
+											pos:   position{line: 2902, col: 13, offset: 91939},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2893, col: 20, offset: 91728},
+												pos: position{line: 2902, col: 20, offset: 91946},
 												expr: &actionExpr{
-													pos: position{line: 2901, col: 11, offset: 91967},
+													pos: position{line: 2910, col: 11, offset: 92185},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2901, col: 12, offset: 91968},
+														pos: position{line: 2910, col: 12, offset: 92186},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2901, col: 12, offset: 91968},
+																pos:        position{line: 2910, col: 12, offset: 92186},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2901, col: 24, offset: 91980},
+																pos:        position{line: 2910, col: 24, offset: 92198},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2901, col: 37, offset: 91993},
+																pos:        position{line: 2910, col: 37, offset: 92211},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2901, col: 48, offset: 92004},
+																pos:        position{line: 2910, col: 48, offset: 92222},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2901, col: 59, offset: 92015},
+																pos:        position{line: 2910, col: 59, offset: 92233},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20311,38 +20489,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2893, col: 30, offset: 91738},
+											pos:   position{line: 2902, col: 30, offset: 91956},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2906, col: 5, offset: 92079},
+												pos: position{line: 2915, col: 5, offset: 92297},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2906, col: 5, offset: 92079},
+													pos:   position{line: 2915, col: 5, offset: 92297},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2906, col: 14, offset: 92088},
+														pos: position{line: 2915, col: 14, offset: 92306},
 														expr: &choiceExpr{
-															pos: position{line: 2907, col: 9, offset: 92098},
+															pos: position{line: 2916, col: 9, offset: 92316},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2907, col: 9, offset: 92098},
+																	pos: position{line: 2916, col: 9, offset: 92316},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2907, col: 9, offset: 92098},
+																		pos: position{line: 2916, col: 9, offset: 92316},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2907, col: 9, offset: 92098},
+																				pos: position{line: 2916, col: 9, offset: 92316},
 																				expr: &litMatcher{
-																					pos:        position{line: 2907, col: 10, offset: 92099},
+																					pos:        position{line: 2916, col: 10, offset: 92317},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2908, col: 9, offset: 92127},
+																				pos: position{line: 2917, col: 9, offset: 92345},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2908, col: 10, offset: 92128},
+																					pos:        position{line: 2917, col: 10, offset: 92346},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20353,27 +20531,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2911, col: 11, offset: 92340},
+																	pos: position{line: 2920, col: 11, offset: 92558},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2911, col: 11, offset: 92340},
+																			pos:        position{line: 2920, col: 11, offset: 92558},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2911, col: 19, offset: 92348},
+																			pos: position{line: 2920, col: 19, offset: 92566},
 																			expr: &seqExpr{
-																				pos: position{line: 2911, col: 21, offset: 92350},
+																				pos: position{line: 2920, col: 21, offset: 92568},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2911, col: 21, offset: 92350},
+																						pos: position{line: 2920, col: 21, offset: 92568},
 																						expr: &actionExpr{
-																							pos: position{line: 2935, col: 10, offset: 92962},
+																							pos: position{line: 2944, col: 10, offset: 93180},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2935, col: 10, offset: 92962},
+																								pos:        position{line: 2944, col: 10, offset: 93180},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20382,11 +20560,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2911, col: 28, offset: 92357},
+																						pos: position{line: 2920, col: 28, offset: 92575},
 																						expr: &notExpr{
-																							pos: position{line: 2954, col: 8, offset: 93310},
+																							pos: position{line: 2963, col: 8, offset: 93528},
 																							expr: &anyMatcher{
-																								line: 2954, col: 9, offset: 93311,
+																								line: 2963, col: 9, offset: 93529,
 																							},
 																						},
 																					},
@@ -20785,10 +20963,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2914, col: 11, offset: 92477},
+																	pos: position{line: 2923, col: 11, offset: 92695},
 																	run: (*parser).callonImageBlock115,
 																	expr: &litMatcher{
-																		pos:        position{line: 2914, col: 11, offset: 92477},
+																		pos:        position{line: 2923, col: 11, offset: 92695},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20815,10 +20993,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1337, col: 61, offset: 42148},
 							expr: &actionExpr{
-								pos: position{line: 2935, col: 10, offset: 92962},
+								pos: position{line: 2944, col: 10, offset: 93180},
 								run: (*parser).callonImageBlock120,
 								expr: &charClassMatcher{
-									pos:        position{line: 2935, col: 10, offset: 92962},
+									pos:        position{line: 2944, col: 10, offset: 93180},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20827,28 +21005,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2957, col: 8, offset: 93360},
+							pos: position{line: 2966, col: 8, offset: 93578},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2944, col: 12, offset: 93133},
+									pos: position{line: 2953, col: 12, offset: 93351},
 									run: (*parser).callonImageBlock123,
 									expr: &choiceExpr{
-										pos: position{line: 2944, col: 13, offset: 93134},
+										pos: position{line: 2953, col: 13, offset: 93352},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2944, col: 13, offset: 93134},
+												pos:        position{line: 2953, col: 13, offset: 93352},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2944, col: 20, offset: 93141},
+												pos:        position{line: 2953, col: 20, offset: 93359},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2944, col: 29, offset: 93150},
+												pos:        position{line: 2953, col: 29, offset: 93368},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20857,9 +21035,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2954, col: 8, offset: 93310},
+									pos: position{line: 2963, col: 8, offset: 93528},
 									expr: &anyMatcher{
-										line: 2954, col: 9, offset: 93311,
+										line: 2963, col: 9, offset: 93529,
 									},
 								},
 							},
@@ -20896,48 +21074,48 @@ var g = &grammar{
 							pos:   position{line: 1342, col: 30, offset: 42394},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2893, col: 13, offset: 91721},
+								pos: position{line: 2902, col: 13, offset: 91939},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2893, col: 13, offset: 91721},
+									pos: position{line: 2902, col: 13, offset: 91939},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2893, col: 13, offset: 91721},
+											pos:   position{line: 2902, col: 13, offset: 91939},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2893, col: 20, offset: 91728},
+												pos: position{line: 2902, col: 20, offset: 91946},
 												expr: &actionExpr{
-													pos: position{line: 2901, col: 11, offset: 91967},
+													pos: position{line: 2910, col: 11, offset: 92185},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2901, col: 12, offset: 91968},
+														pos: position{line: 2910, col: 12, offset: 92186},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2901, col: 12, offset: 91968},
+																pos:        position{line: 2910, col: 12, offset: 92186},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2901, col: 24, offset: 91980},
+																pos:        position{line: 2910, col: 24, offset: 92198},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2901, col: 37, offset: 91993},
+																pos:        position{line: 2910, col: 37, offset: 92211},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2901, col: 48, offset: 92004},
+																pos:        position{line: 2910, col: 48, offset: 92222},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2901, col: 59, offset: 92015},
+																pos:        position{line: 2910, col: 59, offset: 92233},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20948,38 +21126,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2893, col: 30, offset: 91738},
+											pos:   position{line: 2902, col: 30, offset: 91956},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2906, col: 5, offset: 92079},
+												pos: position{line: 2915, col: 5, offset: 92297},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2906, col: 5, offset: 92079},
+													pos:   position{line: 2915, col: 5, offset: 92297},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2906, col: 14, offset: 92088},
+														pos: position{line: 2915, col: 14, offset: 92306},
 														expr: &choiceExpr{
-															pos: position{line: 2907, col: 9, offset: 92098},
+															pos: position{line: 2916, col: 9, offset: 92316},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2907, col: 9, offset: 92098},
+																	pos: position{line: 2916, col: 9, offset: 92316},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2907, col: 9, offset: 92098},
+																		pos: position{line: 2916, col: 9, offset: 92316},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2907, col: 9, offset: 92098},
+																				pos: position{line: 2916, col: 9, offset: 92316},
 																				expr: &litMatcher{
-																					pos:        position{line: 2907, col: 10, offset: 92099},
+																					pos:        position{line: 2916, col: 10, offset: 92317},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2908, col: 9, offset: 92127},
+																				pos: position{line: 2917, col: 9, offset: 92345},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2908, col: 10, offset: 92128},
+																					pos:        position{line: 2917, col: 10, offset: 92346},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20990,27 +21168,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2911, col: 11, offset: 92340},
+																	pos: position{line: 2920, col: 11, offset: 92558},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2911, col: 11, offset: 92340},
+																			pos:        position{line: 2920, col: 11, offset: 92558},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2911, col: 19, offset: 92348},
+																			pos: position{line: 2920, col: 19, offset: 92566},
 																			expr: &seqExpr{
-																				pos: position{line: 2911, col: 21, offset: 92350},
+																				pos: position{line: 2920, col: 21, offset: 92568},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2911, col: 21, offset: 92350},
+																						pos: position{line: 2920, col: 21, offset: 92568},
 																						expr: &actionExpr{
-																							pos: position{line: 2935, col: 10, offset: 92962},
+																							pos: position{line: 2944, col: 10, offset: 93180},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2935, col: 10, offset: 92962},
+																								pos:        position{line: 2944, col: 10, offset: 93180},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -21019,11 +21197,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2911, col: 28, offset: 92357},
+																						pos: position{line: 2920, col: 28, offset: 92575},
 																						expr: &notExpr{
-																							pos: position{line: 2954, col: 8, offset: 93310},
+																							pos: position{line: 2963, col: 8, offset: 93528},
 																							expr: &anyMatcher{
-																								line: 2954, col: 9, offset: 93311,
+																								line: 2963, col: 9, offset: 93529,
 																							},
 																						},
 																					},
@@ -21422,10 +21600,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2914, col: 11, offset: 92477},
+																	pos: position{line: 2923, col: 11, offset: 92695},
 																	run: (*parser).callonInlineImage117,
 																	expr: &litMatcher{
-																		pos:        position{line: 2914, col: 11, offset: 92477},
+																		pos:        position{line: 2923, col: 11, offset: 92695},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21520,12 +21698,12 @@ var g = &grammar{
 							expr: &zeroOrOneExpr{
 								pos: position{line: 1356, col: 35, offset: 43302},
 								expr: &actionExpr{
-									pos: position{line: 2829, col: 14, offset: 90131},
+									pos: position{line: 2838, col: 14, offset: 90349},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2829, col: 14, offset: 90131},
+										pos: position{line: 2838, col: 14, offset: 90349},
 										expr: &charClassMatcher{
-											pos:        position{line: 2829, col: 14, offset: 90131},
+											pos:        position{line: 2838, col: 14, offset: 90349},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -21612,21 +21790,21 @@ var g = &grammar{
 								pos: position{line: 1374, col: 9, offset: 43796},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2834, col: 5, offset: 90204},
+										pos: position{line: 2843, col: 5, offset: 90422},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2834, col: 5, offset: 90204},
+											pos: position{line: 2843, col: 5, offset: 90422},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2834, col: 5, offset: 90204},
+													pos:   position{line: 2843, col: 5, offset: 90422},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2834, col: 11, offset: 90210},
+														pos: position{line: 2843, col: 11, offset: 90428},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2834, col: 11, offset: 90210},
+															pos: position{line: 2843, col: 11, offset: 90428},
 															expr: &charClassMatcher{
-																pos:        position{line: 2834, col: 11, offset: 90210},
+																pos:        position{line: 2843, col: 11, offset: 90428},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21636,36 +21814,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2837, col: 5, offset: 90268},
+													pos: position{line: 2846, col: 5, offset: 90486},
 													expr: &seqExpr{
-														pos: position{line: 2838, col: 9, offset: 90279},
+														pos: position{line: 2847, col: 9, offset: 90497},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2838, col: 9, offset: 90279},
+																pos:        position{line: 2847, col: 9, offset: 90497},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2839, col: 9, offset: 90328},
+																pos: position{line: 2848, col: 9, offset: 90546},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2843, col: 5, offset: 90408},
+													pos: position{line: 2852, col: 5, offset: 90626},
 													expr: &seqExpr{
-														pos: position{line: 2844, col: 9, offset: 90419},
+														pos: position{line: 2853, col: 9, offset: 90637},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2844, col: 9, offset: 90419},
+																pos:        position{line: 2853, col: 9, offset: 90637},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2844, col: 13, offset: 90423},
+																pos:        position{line: 2853, col: 13, offset: 90641},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21678,12 +21856,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2939, col: 11, offset: 93023},
+										pos: position{line: 2948, col: 11, offset: 93241},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2939, col: 11, offset: 93023},
+											pos: position{line: 2948, col: 11, offset: 93241},
 											expr: &charClassMatcher{
-												pos:        position{line: 2939, col: 11, offset: 93023},
+												pos:        position{line: 2948, col: 11, offset: 93241},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21758,27 +21936,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2852, col: 5, offset: 90616},
+										pos: position{line: 2861, col: 5, offset: 90834},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2853, col: 9, offset: 90626},
+											pos: position{line: 2862, col: 9, offset: 90844},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2853, col: 10, offset: 90627},
+													pos:        position{line: 2862, col: 10, offset: 90845},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2855, col: 13, offset: 90724},
+													pos: position{line: 2864, col: 13, offset: 90942},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2855, col: 13, offset: 90724},
+															pos: position{line: 2864, col: 13, offset: 90942},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2858, col: 13, offset: 90824},
+															pos:        position{line: 2867, col: 13, offset: 91042},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21786,20 +21964,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2858, col: 19, offset: 90830},
+													pos:        position{line: 2867, col: 19, offset: 91048},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2861, col: 13, offset: 90868},
+													pos: position{line: 2870, col: 13, offset: 91086},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2861, col: 13, offset: 90868},
+															pos: position{line: 2870, col: 13, offset: 91086},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2864, col: 14, offset: 90961},
+															pos:        position{line: 2873, col: 14, offset: 91179},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21808,18 +21986,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2866, col: 12, offset: 91005},
+													pos: position{line: 2875, col: 12, offset: 91223},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2866, col: 12, offset: 91005},
+															pos:        position{line: 2875, col: 12, offset: 91223},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2866, col: 16, offset: 91009},
+															pos: position{line: 2875, col: 16, offset: 91227},
 															expr: &litMatcher{
-																pos:        position{line: 2866, col: 17, offset: 91010},
+																pos:        position{line: 2875, col: 17, offset: 91228},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21857,10 +22035,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1239, col: 5, offset: 38724},
 													expr: &actionExpr{
-														pos: position{line: 2935, col: 10, offset: 92962},
+														pos: position{line: 2944, col: 10, offset: 93180},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2935, col: 10, offset: 92962},
+															pos:        position{line: 2944, col: 10, offset: 93180},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21871,28 +22049,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1239, col: 12, offset: 38731},
 													expr: &choiceExpr{
-														pos: position{line: 2957, col: 8, offset: 93360},
+														pos: position{line: 2966, col: 8, offset: 93578},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2944, col: 12, offset: 93133},
+																pos: position{line: 2953, col: 12, offset: 93351},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2944, col: 13, offset: 93134},
+																	pos: position{line: 2953, col: 13, offset: 93352},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 13, offset: 93134},
+																			pos:        position{line: 2953, col: 13, offset: 93352},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 20, offset: 93141},
+																			pos:        position{line: 2953, col: 20, offset: 93359},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 29, offset: 93150},
+																			pos:        position{line: 2953, col: 29, offset: 93368},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21901,9 +22079,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2954, col: 8, offset: 93310},
+																pos: position{line: 2963, col: 8, offset: 93528},
 																expr: &anyMatcher{
-																	line: 2954, col: 9, offset: 93311,
+																	line: 2963, col: 9, offset: 93529,
 																},
 															},
 														},
@@ -22287,25 +22465,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2944, col: 12, offset: 93133},
+										pos: position{line: 2953, col: 12, offset: 93351},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2944, col: 13, offset: 93134},
+											pos: position{line: 2953, col: 13, offset: 93352},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2944, col: 13, offset: 93134},
+													pos:        position{line: 2953, col: 13, offset: 93352},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2944, col: 20, offset: 93141},
+													pos:        position{line: 2953, col: 20, offset: 93359},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2944, col: 29, offset: 93150},
+													pos:        position{line: 2953, col: 29, offset: 93368},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -22314,10 +22492,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2874, col: 12, offset: 91270},
+										pos: position{line: 2883, col: 12, offset: 91488},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2874, col: 12, offset: 91270},
+											pos:        position{line: 2883, col: 12, offset: 91488},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -22449,55 +22627,55 @@ var g = &grammar{
 									pos:   position{line: 1436, col: 5, offset: 46492},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2897, col: 23, offset: 91848},
+										pos: position{line: 2906, col: 23, offset: 92066},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2897, col: 23, offset: 91848},
+											pos: position{line: 2906, col: 23, offset: 92066},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2897, col: 23, offset: 91848},
+													pos: position{line: 2906, col: 23, offset: 92066},
 													expr: &litMatcher{
-														pos:        position{line: 2897, col: 24, offset: 91849},
+														pos:        position{line: 2906, col: 24, offset: 92067},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2897, col: 28, offset: 91853},
+													pos:   position{line: 2906, col: 28, offset: 92071},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2901, col: 11, offset: 91967},
+														pos: position{line: 2910, col: 11, offset: 92185},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2901, col: 12, offset: 91968},
+															pos: position{line: 2910, col: 12, offset: 92186},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2901, col: 12, offset: 91968},
+																	pos:        position{line: 2910, col: 12, offset: 92186},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 24, offset: 91980},
+																	pos:        position{line: 2910, col: 24, offset: 92198},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 37, offset: 91993},
+																	pos:        position{line: 2910, col: 37, offset: 92211},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 48, offset: 92004},
+																	pos:        position{line: 2910, col: 48, offset: 92222},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 59, offset: 92015},
+																	pos:        position{line: 2910, col: 59, offset: 92233},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -22507,38 +22685,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2897, col: 44, offset: 91869},
+													pos:   position{line: 2906, col: 44, offset: 92087},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2906, col: 5, offset: 92079},
+														pos: position{line: 2915, col: 5, offset: 92297},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2906, col: 5, offset: 92079},
+															pos:   position{line: 2915, col: 5, offset: 92297},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2906, col: 14, offset: 92088},
+																pos: position{line: 2915, col: 14, offset: 92306},
 																expr: &choiceExpr{
-																	pos: position{line: 2907, col: 9, offset: 92098},
+																	pos: position{line: 2916, col: 9, offset: 92316},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2907, col: 9, offset: 92098},
+																			pos: position{line: 2916, col: 9, offset: 92316},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2907, col: 9, offset: 92098},
+																				pos: position{line: 2916, col: 9, offset: 92316},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2907, col: 9, offset: 92098},
+																						pos: position{line: 2916, col: 9, offset: 92316},
 																						expr: &litMatcher{
-																							pos:        position{line: 2907, col: 10, offset: 92099},
+																							pos:        position{line: 2916, col: 10, offset: 92317},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2908, col: 9, offset: 92127},
+																						pos: position{line: 2917, col: 9, offset: 92345},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92128},
+																							pos:        position{line: 2917, col: 10, offset: 92346},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22549,27 +22727,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2911, col: 11, offset: 92340},
+																			pos: position{line: 2920, col: 11, offset: 92558},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2911, col: 11, offset: 92340},
+																					pos:        position{line: 2920, col: 11, offset: 92558},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2911, col: 19, offset: 92348},
+																					pos: position{line: 2920, col: 19, offset: 92566},
 																					expr: &seqExpr{
-																						pos: position{line: 2911, col: 21, offset: 92350},
+																						pos: position{line: 2920, col: 21, offset: 92568},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2911, col: 21, offset: 92350},
+																								pos: position{line: 2920, col: 21, offset: 92568},
 																								expr: &actionExpr{
-																									pos: position{line: 2935, col: 10, offset: 92962},
+																									pos: position{line: 2944, col: 10, offset: 93180},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2935, col: 10, offset: 92962},
+																										pos:        position{line: 2944, col: 10, offset: 93180},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22578,11 +22756,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 28, offset: 92357},
+																								pos: position{line: 2920, col: 28, offset: 92575},
 																								expr: &notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -22981,10 +23159,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2914, col: 11, offset: 92477},
+																			pos: position{line: 2923, col: 11, offset: 92695},
 																			run: (*parser).callonLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2914, col: 11, offset: 92477},
+																				pos:        position{line: 2923, col: 11, offset: 92695},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23195,48 +23373,48 @@ var g = &grammar{
 									pos:   position{line: 1449, col: 17, offset: 46907},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2893, col: 13, offset: 91721},
+										pos: position{line: 2902, col: 13, offset: 91939},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2893, col: 13, offset: 91721},
+											pos: position{line: 2902, col: 13, offset: 91939},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2893, col: 13, offset: 91721},
+													pos:   position{line: 2902, col: 13, offset: 91939},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2893, col: 20, offset: 91728},
+														pos: position{line: 2902, col: 20, offset: 91946},
 														expr: &actionExpr{
-															pos: position{line: 2901, col: 11, offset: 91967},
+															pos: position{line: 2910, col: 11, offset: 92185},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2901, col: 12, offset: 91968},
+																pos: position{line: 2910, col: 12, offset: 92186},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 12, offset: 91968},
+																		pos:        position{line: 2910, col: 12, offset: 92186},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 24, offset: 91980},
+																		pos:        position{line: 2910, col: 24, offset: 92198},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 37, offset: 91993},
+																		pos:        position{line: 2910, col: 37, offset: 92211},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 48, offset: 92004},
+																		pos:        position{line: 2910, col: 48, offset: 92222},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 59, offset: 92015},
+																		pos:        position{line: 2910, col: 59, offset: 92233},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23247,38 +23425,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2893, col: 30, offset: 91738},
+													pos:   position{line: 2902, col: 30, offset: 91956},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2906, col: 5, offset: 92079},
+														pos: position{line: 2915, col: 5, offset: 92297},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2906, col: 5, offset: 92079},
+															pos:   position{line: 2915, col: 5, offset: 92297},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2906, col: 14, offset: 92088},
+																pos: position{line: 2915, col: 14, offset: 92306},
 																expr: &choiceExpr{
-																	pos: position{line: 2907, col: 9, offset: 92098},
+																	pos: position{line: 2916, col: 9, offset: 92316},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2907, col: 9, offset: 92098},
+																			pos: position{line: 2916, col: 9, offset: 92316},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2907, col: 9, offset: 92098},
+																				pos: position{line: 2916, col: 9, offset: 92316},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2907, col: 9, offset: 92098},
+																						pos: position{line: 2916, col: 9, offset: 92316},
 																						expr: &litMatcher{
-																							pos:        position{line: 2907, col: 10, offset: 92099},
+																							pos:        position{line: 2916, col: 10, offset: 92317},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2908, col: 9, offset: 92127},
+																						pos: position{line: 2917, col: 9, offset: 92345},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92128},
+																							pos:        position{line: 2917, col: 10, offset: 92346},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23289,27 +23467,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2911, col: 11, offset: 92340},
+																			pos: position{line: 2920, col: 11, offset: 92558},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2911, col: 11, offset: 92340},
+																					pos:        position{line: 2920, col: 11, offset: 92558},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2911, col: 19, offset: 92348},
+																					pos: position{line: 2920, col: 19, offset: 92566},
 																					expr: &seqExpr{
-																						pos: position{line: 2911, col: 21, offset: 92350},
+																						pos: position{line: 2920, col: 21, offset: 92568},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2911, col: 21, offset: 92350},
+																								pos: position{line: 2920, col: 21, offset: 92568},
 																								expr: &actionExpr{
-																									pos: position{line: 2935, col: 10, offset: 92962},
+																									pos: position{line: 2944, col: 10, offset: 93180},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2935, col: 10, offset: 92962},
+																										pos:        position{line: 2944, col: 10, offset: 93180},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23318,11 +23496,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 28, offset: 92357},
+																								pos: position{line: 2920, col: 28, offset: 92575},
 																								expr: &notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -23721,10 +23899,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2914, col: 11, offset: 92477},
+																			pos: position{line: 2923, col: 11, offset: 92695},
 																			run: (*parser).callonRelativeLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2914, col: 11, offset: 92477},
+																				pos:        position{line: 2923, col: 11, offset: 92695},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23767,48 +23945,48 @@ var g = &grammar{
 									pos:   position{line: 1454, col: 13, offset: 47074},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2893, col: 13, offset: 91721},
+										pos: position{line: 2902, col: 13, offset: 91939},
 										run: (*parser).callonRelativeLink124,
 										expr: &seqExpr{
-											pos: position{line: 2893, col: 13, offset: 91721},
+											pos: position{line: 2902, col: 13, offset: 91939},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2893, col: 13, offset: 91721},
+													pos:   position{line: 2902, col: 13, offset: 91939},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2893, col: 20, offset: 91728},
+														pos: position{line: 2902, col: 20, offset: 91946},
 														expr: &actionExpr{
-															pos: position{line: 2901, col: 11, offset: 91967},
+															pos: position{line: 2910, col: 11, offset: 92185},
 															run: (*parser).callonRelativeLink128,
 															expr: &choiceExpr{
-																pos: position{line: 2901, col: 12, offset: 91968},
+																pos: position{line: 2910, col: 12, offset: 92186},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 12, offset: 91968},
+																		pos:        position{line: 2910, col: 12, offset: 92186},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 24, offset: 91980},
+																		pos:        position{line: 2910, col: 24, offset: 92198},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 37, offset: 91993},
+																		pos:        position{line: 2910, col: 37, offset: 92211},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 48, offset: 92004},
+																		pos:        position{line: 2910, col: 48, offset: 92222},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 59, offset: 92015},
+																		pos:        position{line: 2910, col: 59, offset: 92233},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23819,38 +23997,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2893, col: 30, offset: 91738},
+													pos:   position{line: 2902, col: 30, offset: 91956},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2906, col: 5, offset: 92079},
+														pos: position{line: 2915, col: 5, offset: 92297},
 														run: (*parser).callonRelativeLink136,
 														expr: &labeledExpr{
-															pos:   position{line: 2906, col: 5, offset: 92079},
+															pos:   position{line: 2915, col: 5, offset: 92297},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2906, col: 14, offset: 92088},
+																pos: position{line: 2915, col: 14, offset: 92306},
 																expr: &choiceExpr{
-																	pos: position{line: 2907, col: 9, offset: 92098},
+																	pos: position{line: 2916, col: 9, offset: 92316},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2907, col: 9, offset: 92098},
+																			pos: position{line: 2916, col: 9, offset: 92316},
 																			run: (*parser).callonRelativeLink140,
 																			expr: &seqExpr{
-																				pos: position{line: 2907, col: 9, offset: 92098},
+																				pos: position{line: 2916, col: 9, offset: 92316},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2907, col: 9, offset: 92098},
+																						pos: position{line: 2916, col: 9, offset: 92316},
 																						expr: &litMatcher{
-																							pos:        position{line: 2907, col: 10, offset: 92099},
+																							pos:        position{line: 2916, col: 10, offset: 92317},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2908, col: 9, offset: 92127},
+																						pos: position{line: 2917, col: 9, offset: 92345},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92128},
+																							pos:        position{line: 2917, col: 10, offset: 92346},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23861,27 +24039,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2911, col: 11, offset: 92340},
+																			pos: position{line: 2920, col: 11, offset: 92558},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2911, col: 11, offset: 92340},
+																					pos:        position{line: 2920, col: 11, offset: 92558},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2911, col: 19, offset: 92348},
+																					pos: position{line: 2920, col: 19, offset: 92566},
 																					expr: &seqExpr{
-																						pos: position{line: 2911, col: 21, offset: 92350},
+																						pos: position{line: 2920, col: 21, offset: 92568},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2911, col: 21, offset: 92350},
+																								pos: position{line: 2920, col: 21, offset: 92568},
 																								expr: &actionExpr{
-																									pos: position{line: 2935, col: 10, offset: 92962},
+																									pos: position{line: 2944, col: 10, offset: 93180},
 																									run: (*parser).callonRelativeLink151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2935, col: 10, offset: 92962},
+																										pos:        position{line: 2944, col: 10, offset: 93180},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23890,11 +24068,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 28, offset: 92357},
+																								pos: position{line: 2920, col: 28, offset: 92575},
 																								expr: &notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -24293,10 +24471,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2914, col: 11, offset: 92477},
+																			pos: position{line: 2923, col: 11, offset: 92695},
 																			run: (*parser).callonRelativeLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2914, col: 11, offset: 92477},
+																				pos:        position{line: 2923, col: 11, offset: 92695},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24348,55 +24526,55 @@ var g = &grammar{
 									pos:   position{line: 1461, col: 9, offset: 47383},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2897, col: 23, offset: 91848},
+										pos: position{line: 2906, col: 23, offset: 92066},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2897, col: 23, offset: 91848},
+											pos: position{line: 2906, col: 23, offset: 92066},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2897, col: 23, offset: 91848},
+													pos: position{line: 2906, col: 23, offset: 92066},
 													expr: &litMatcher{
-														pos:        position{line: 2897, col: 24, offset: 91849},
+														pos:        position{line: 2906, col: 24, offset: 92067},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2897, col: 28, offset: 91853},
+													pos:   position{line: 2906, col: 28, offset: 92071},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2901, col: 11, offset: 91967},
+														pos: position{line: 2910, col: 11, offset: 92185},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2901, col: 12, offset: 91968},
+															pos: position{line: 2910, col: 12, offset: 92186},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2901, col: 12, offset: 91968},
+																	pos:        position{line: 2910, col: 12, offset: 92186},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 24, offset: 91980},
+																	pos:        position{line: 2910, col: 24, offset: 92198},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 37, offset: 91993},
+																	pos:        position{line: 2910, col: 37, offset: 92211},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 48, offset: 92004},
+																	pos:        position{line: 2910, col: 48, offset: 92222},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 59, offset: 92015},
+																	pos:        position{line: 2910, col: 59, offset: 92233},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24406,38 +24584,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2897, col: 44, offset: 91869},
+													pos:   position{line: 2906, col: 44, offset: 92087},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2906, col: 5, offset: 92079},
+														pos: position{line: 2915, col: 5, offset: 92297},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2906, col: 5, offset: 92079},
+															pos:   position{line: 2915, col: 5, offset: 92297},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2906, col: 14, offset: 92088},
+																pos: position{line: 2915, col: 14, offset: 92306},
 																expr: &choiceExpr{
-																	pos: position{line: 2907, col: 9, offset: 92098},
+																	pos: position{line: 2916, col: 9, offset: 92316},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2907, col: 9, offset: 92098},
+																			pos: position{line: 2916, col: 9, offset: 92316},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2907, col: 9, offset: 92098},
+																				pos: position{line: 2916, col: 9, offset: 92316},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2907, col: 9, offset: 92098},
+																						pos: position{line: 2916, col: 9, offset: 92316},
 																						expr: &litMatcher{
-																							pos:        position{line: 2907, col: 10, offset: 92099},
+																							pos:        position{line: 2916, col: 10, offset: 92317},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2908, col: 9, offset: 92127},
+																						pos: position{line: 2917, col: 9, offset: 92345},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92128},
+																							pos:        position{line: 2917, col: 10, offset: 92346},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24448,27 +24626,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2911, col: 11, offset: 92340},
+																			pos: position{line: 2920, col: 11, offset: 92558},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2911, col: 11, offset: 92340},
+																					pos:        position{line: 2920, col: 11, offset: 92558},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2911, col: 19, offset: 92348},
+																					pos: position{line: 2920, col: 19, offset: 92566},
 																					expr: &seqExpr{
-																						pos: position{line: 2911, col: 21, offset: 92350},
+																						pos: position{line: 2920, col: 21, offset: 92568},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2911, col: 21, offset: 92350},
+																								pos: position{line: 2920, col: 21, offset: 92568},
 																								expr: &actionExpr{
-																									pos: position{line: 2935, col: 10, offset: 92962},
+																									pos: position{line: 2944, col: 10, offset: 93180},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2935, col: 10, offset: 92962},
+																										pos:        position{line: 2944, col: 10, offset: 93180},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24477,11 +24655,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 28, offset: 92357},
+																								pos: position{line: 2920, col: 28, offset: 92575},
 																								expr: &notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -24880,10 +25058,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2914, col: 11, offset: 92477},
+																			pos: position{line: 2923, col: 11, offset: 92695},
 																			run: (*parser).callonExternalLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2914, col: 11, offset: 92477},
+																				pos:        position{line: 2923, col: 11, offset: 92695},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24923,55 +25101,55 @@ var g = &grammar{
 									pos:   position{line: 1466, col: 5, offset: 47553},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2897, col: 23, offset: 91848},
+										pos: position{line: 2906, col: 23, offset: 92066},
 										run: (*parser).callonExternalLink125,
 										expr: &seqExpr{
-											pos: position{line: 2897, col: 23, offset: 91848},
+											pos: position{line: 2906, col: 23, offset: 92066},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2897, col: 23, offset: 91848},
+													pos: position{line: 2906, col: 23, offset: 92066},
 													expr: &litMatcher{
-														pos:        position{line: 2897, col: 24, offset: 91849},
+														pos:        position{line: 2906, col: 24, offset: 92067},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2897, col: 28, offset: 91853},
+													pos:   position{line: 2906, col: 28, offset: 92071},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2901, col: 11, offset: 91967},
+														pos: position{line: 2910, col: 11, offset: 92185},
 														run: (*parser).callonExternalLink130,
 														expr: &choiceExpr{
-															pos: position{line: 2901, col: 12, offset: 91968},
+															pos: position{line: 2910, col: 12, offset: 92186},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2901, col: 12, offset: 91968},
+																	pos:        position{line: 2910, col: 12, offset: 92186},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 24, offset: 91980},
+																	pos:        position{line: 2910, col: 24, offset: 92198},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 37, offset: 91993},
+																	pos:        position{line: 2910, col: 37, offset: 92211},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 48, offset: 92004},
+																	pos:        position{line: 2910, col: 48, offset: 92222},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 59, offset: 92015},
+																	pos:        position{line: 2910, col: 59, offset: 92233},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24981,38 +25159,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2897, col: 44, offset: 91869},
+													pos:   position{line: 2906, col: 44, offset: 92087},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2906, col: 5, offset: 92079},
+														pos: position{line: 2915, col: 5, offset: 92297},
 														run: (*parser).callonExternalLink138,
 														expr: &labeledExpr{
-															pos:   position{line: 2906, col: 5, offset: 92079},
+															pos:   position{line: 2915, col: 5, offset: 92297},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2906, col: 14, offset: 92088},
+																pos: position{line: 2915, col: 14, offset: 92306},
 																expr: &choiceExpr{
-																	pos: position{line: 2907, col: 9, offset: 92098},
+																	pos: position{line: 2916, col: 9, offset: 92316},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2907, col: 9, offset: 92098},
+																			pos: position{line: 2916, col: 9, offset: 92316},
 																			run: (*parser).callonExternalLink142,
 																			expr: &seqExpr{
-																				pos: position{line: 2907, col: 9, offset: 92098},
+																				pos: position{line: 2916, col: 9, offset: 92316},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2907, col: 9, offset: 92098},
+																						pos: position{line: 2916, col: 9, offset: 92316},
 																						expr: &litMatcher{
-																							pos:        position{line: 2907, col: 10, offset: 92099},
+																							pos:        position{line: 2916, col: 10, offset: 92317},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2908, col: 9, offset: 92127},
+																						pos: position{line: 2917, col: 9, offset: 92345},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92128},
+																							pos:        position{line: 2917, col: 10, offset: 92346},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -25023,27 +25201,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2911, col: 11, offset: 92340},
+																			pos: position{line: 2920, col: 11, offset: 92558},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2911, col: 11, offset: 92340},
+																					pos:        position{line: 2920, col: 11, offset: 92558},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2911, col: 19, offset: 92348},
+																					pos: position{line: 2920, col: 19, offset: 92566},
 																					expr: &seqExpr{
-																						pos: position{line: 2911, col: 21, offset: 92350},
+																						pos: position{line: 2920, col: 21, offset: 92568},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2911, col: 21, offset: 92350},
+																								pos: position{line: 2920, col: 21, offset: 92568},
 																								expr: &actionExpr{
-																									pos: position{line: 2935, col: 10, offset: 92962},
+																									pos: position{line: 2944, col: 10, offset: 93180},
 																									run: (*parser).callonExternalLink153,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2935, col: 10, offset: 92962},
+																										pos:        position{line: 2944, col: 10, offset: 93180},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -25052,11 +25230,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 28, offset: 92357},
+																								pos: position{line: 2920, col: 28, offset: 92575},
 																								expr: &notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -25455,10 +25633,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2914, col: 11, offset: 92477},
+																			pos: position{line: 2923, col: 11, offset: 92695},
 																			run: (*parser).callonExternalLink236,
 																			expr: &litMatcher{
-																				pos:        position{line: 2914, col: 11, offset: 92477},
+																				pos:        position{line: 2923, col: 11, offset: 92695},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25524,10 +25702,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1608, col: 5, offset: 52184},
 																	expr: &actionExpr{
-																		pos: position{line: 2935, col: 10, offset: 92962},
+																		pos: position{line: 2944, col: 10, offset: 93180},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2935, col: 10, offset: 92962},
+																			pos:        position{line: 2944, col: 10, offset: 93180},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25694,12 +25872,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2939, col: 11, offset: 93023},
+																	pos: position{line: 2948, col: 11, offset: 93241},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2939, col: 11, offset: 93023},
+																		pos: position{line: 2948, col: 11, offset: 93241},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2939, col: 11, offset: 93023},
+																			pos:        position{line: 2948, col: 11, offset: 93241},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25742,28 +25920,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2957, col: 8, offset: 93360},
+																	pos: position{line: 2966, col: 8, offset: 93578},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2944, col: 12, offset: 93133},
+																			pos: position{line: 2953, col: 12, offset: 93351},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2944, col: 13, offset: 93134},
+																				pos: position{line: 2953, col: 13, offset: 93352},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 13, offset: 93134},
+																						pos:        position{line: 2953, col: 13, offset: 93352},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 20, offset: 93141},
+																						pos:        position{line: 2953, col: 20, offset: 93359},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 29, offset: 93150},
+																						pos:        position{line: 2953, col: 29, offset: 93368},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25772,9 +25950,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2954, col: 8, offset: 93310},
+																			pos: position{line: 2963, col: 8, offset: 93528},
 																			expr: &anyMatcher{
-																				line: 2954, col: 9, offset: 93311,
+																				line: 2963, col: 9, offset: 93529,
 																			},
 																		},
 																	},
@@ -25804,10 +25982,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1658, col: 5, offset: 54146},
 																	expr: &actionExpr{
-																		pos: position{line: 2935, col: 10, offset: 92962},
+																		pos: position{line: 2944, col: 10, offset: 93180},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2935, col: 10, offset: 92962},
+																			pos:        position{line: 2944, col: 10, offset: 93180},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25848,12 +26026,12 @@ var g = &grammar{
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2939, col: 11, offset: 93023},
+																	pos: position{line: 2948, col: 11, offset: 93241},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2939, col: 11, offset: 93023},
+																		pos: position{line: 2948, col: 11, offset: 93241},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2939, col: 11, offset: 93023},
+																			pos:        position{line: 2948, col: 11, offset: 93241},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25925,12 +26103,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2939, col: 11, offset: 93023},
+																		pos: position{line: 2948, col: 11, offset: 93241},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2939, col: 11, offset: 93023},
+																			pos: position{line: 2948, col: 11, offset: 93241},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2939, col: 11, offset: 93023},
+																				pos:        position{line: 2948, col: 11, offset: 93241},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25974,28 +26152,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2957, col: 8, offset: 93360},
+																	pos: position{line: 2966, col: 8, offset: 93578},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2944, col: 12, offset: 93133},
+																			pos: position{line: 2953, col: 12, offset: 93351},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2944, col: 13, offset: 93134},
+																				pos: position{line: 2953, col: 13, offset: 93352},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 13, offset: 93134},
+																						pos:        position{line: 2953, col: 13, offset: 93352},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 20, offset: 93141},
+																						pos:        position{line: 2953, col: 20, offset: 93359},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 29, offset: 93150},
+																						pos:        position{line: 2953, col: 29, offset: 93368},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26004,9 +26182,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2954, col: 8, offset: 93310},
+																			pos: position{line: 2963, col: 8, offset: 93528},
 																			expr: &anyMatcher{
-																				line: 2954, col: 9, offset: 93311,
+																				line: 2963, col: 9, offset: 93529,
 																			},
 																		},
 																	},
@@ -26064,12 +26242,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2939, col: 11, offset: 93023},
+																	pos: position{line: 2948, col: 11, offset: 93241},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2939, col: 11, offset: 93023},
+																		pos: position{line: 2948, col: 11, offset: 93241},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2939, col: 11, offset: 93023},
+																			pos:        position{line: 2948, col: 11, offset: 93241},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26112,28 +26290,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2957, col: 8, offset: 93360},
+																	pos: position{line: 2966, col: 8, offset: 93578},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2944, col: 12, offset: 93133},
+																			pos: position{line: 2953, col: 12, offset: 93351},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2944, col: 13, offset: 93134},
+																				pos: position{line: 2953, col: 13, offset: 93352},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 13, offset: 93134},
+																						pos:        position{line: 2953, col: 13, offset: 93352},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 20, offset: 93141},
+																						pos:        position{line: 2953, col: 20, offset: 93359},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 29, offset: 93150},
+																						pos:        position{line: 2953, col: 29, offset: 93368},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26142,9 +26320,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2954, col: 8, offset: 93310},
+																			pos: position{line: 2963, col: 8, offset: 93528},
 																			expr: &anyMatcher{
-																				line: 2954, col: 9, offset: 93311,
+																				line: 2963, col: 9, offset: 93529,
 																			},
 																		},
 																	},
@@ -26235,28 +26413,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1694, col: 35, offset: 55227},
 																				expr: &choiceExpr{
-																					pos: position{line: 2957, col: 8, offset: 93360},
+																					pos: position{line: 2966, col: 8, offset: 93578},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2944, col: 12, offset: 93133},
+																							pos: position{line: 2953, col: 12, offset: 93351},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2944, col: 13, offset: 93134},
+																								pos: position{line: 2953, col: 13, offset: 93352},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 13, offset: 93134},
+																										pos:        position{line: 2953, col: 13, offset: 93352},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 20, offset: 93141},
+																										pos:        position{line: 2953, col: 20, offset: 93359},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 29, offset: 93150},
+																										pos:        position{line: 2953, col: 29, offset: 93368},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -26265,9 +26443,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2954, col: 8, offset: 93310},
+																							pos: position{line: 2963, col: 8, offset: 93528},
 																							expr: &anyMatcher{
-																								line: 2954, col: 9, offset: 93311,
+																								line: 2963, col: 9, offset: 93529,
 																							},
 																						},
 																					},
@@ -26332,10 +26510,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1712, col: 9, offset: 55732},
 																			expr: &actionExpr{
-																				pos: position{line: 2935, col: 10, offset: 92962},
+																				pos: position{line: 2944, col: 10, offset: 93180},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2935, col: 10, offset: 92962},
+																					pos:        position{line: 2944, col: 10, offset: 93180},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26344,28 +26522,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2957, col: 8, offset: 93360},
+																			pos: position{line: 2966, col: 8, offset: 93578},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2944, col: 12, offset: 93133},
+																					pos: position{line: 2953, col: 12, offset: 93351},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2944, col: 13, offset: 93134},
+																						pos: position{line: 2953, col: 13, offset: 93352},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 13, offset: 93134},
+																								pos:        position{line: 2953, col: 13, offset: 93352},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 20, offset: 93141},
+																								pos:        position{line: 2953, col: 20, offset: 93359},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 29, offset: 93150},
+																								pos:        position{line: 2953, col: 29, offset: 93368},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26374,9 +26552,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -26390,18 +26568,18 @@ var g = &grammar{
 																					pos: position{line: 702, col: 14, offset: 22577},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2952, col: 11, offset: 93296},
+																							pos: position{line: 2961, col: 11, offset: 93514},
 																							expr: &anyMatcher{
-																								line: 2952, col: 13, offset: 93298,
+																								line: 2961, col: 13, offset: 93516,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 702, col: 21, offset: 22584},
 																							expr: &actionExpr{
-																								pos: position{line: 2935, col: 10, offset: 92962},
+																								pos: position{line: 2944, col: 10, offset: 93180},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2935, col: 10, offset: 92962},
+																									pos:        position{line: 2944, col: 10, offset: 93180},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26410,28 +26588,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26440,9 +26618,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -26461,12 +26639,12 @@ var g = &grammar{
 																	pos: position{line: 1719, col: 9, offset: 55880},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2939, col: 11, offset: 93023},
+																			pos: position{line: 2948, col: 11, offset: 93241},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2939, col: 11, offset: 93023},
+																				pos: position{line: 2948, col: 11, offset: 93241},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2939, col: 11, offset: 93023},
+																					pos:        position{line: 2948, col: 11, offset: 93241},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26493,28 +26671,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2957, col: 8, offset: 93360},
+																			pos: position{line: 2966, col: 8, offset: 93578},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2944, col: 12, offset: 93133},
+																					pos: position{line: 2953, col: 12, offset: 93351},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2944, col: 13, offset: 93134},
+																						pos: position{line: 2953, col: 13, offset: 93352},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 13, offset: 93134},
+																								pos:        position{line: 2953, col: 13, offset: 93352},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 20, offset: 93141},
+																								pos:        position{line: 2953, col: 20, offset: 93359},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 29, offset: 93150},
+																								pos:        position{line: 2953, col: 29, offset: 93368},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26523,9 +26701,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -26583,9 +26761,9 @@ var g = &grammar{
 					pos: position{line: 1517, col: 5, offset: 49357},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2952, col: 11, offset: 93296},
+							pos: position{line: 2961, col: 11, offset: 93514},
 							expr: &anyMatcher{
-								line: 2952, col: 13, offset: 93298,
+								line: 2961, col: 13, offset: 93516,
 							},
 						},
 						&labeledExpr{
@@ -26609,18 +26787,18 @@ var g = &grammar{
 															pos: position{line: 702, col: 14, offset: 22577},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2952, col: 11, offset: 93296},
+																	pos: position{line: 2961, col: 11, offset: 93514},
 																	expr: &anyMatcher{
-																		line: 2952, col: 13, offset: 93298,
+																		line: 2961, col: 13, offset: 93516,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 702, col: 21, offset: 22584},
 																	expr: &actionExpr{
-																		pos: position{line: 2935, col: 10, offset: 92962},
+																		pos: position{line: 2944, col: 10, offset: 93180},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2935, col: 10, offset: 92962},
+																			pos:        position{line: 2944, col: 10, offset: 93180},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26629,28 +26807,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2957, col: 8, offset: 93360},
+																	pos: position{line: 2966, col: 8, offset: 93578},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2944, col: 12, offset: 93133},
+																			pos: position{line: 2953, col: 12, offset: 93351},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2944, col: 13, offset: 93134},
+																				pos: position{line: 2953, col: 13, offset: 93352},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 13, offset: 93134},
+																						pos:        position{line: 2953, col: 13, offset: 93352},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 20, offset: 93141},
+																						pos:        position{line: 2953, col: 20, offset: 93359},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 29, offset: 93150},
+																						pos:        position{line: 2953, col: 29, offset: 93368},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26659,9 +26837,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2954, col: 8, offset: 93310},
+																			pos: position{line: 2963, col: 8, offset: 93528},
 																			expr: &anyMatcher{
-																				line: 2954, col: 9, offset: 93311,
+																				line: 2963, col: 9, offset: 93529,
 																			},
 																		},
 																	},
@@ -26694,10 +26872,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1608, col: 5, offset: 52184},
 																							expr: &actionExpr{
-																								pos: position{line: 2935, col: 10, offset: 92962},
+																								pos: position{line: 2944, col: 10, offset: 93180},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2935, col: 10, offset: 92962},
+																									pos:        position{line: 2944, col: 10, offset: 93180},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26864,12 +27042,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2939, col: 11, offset: 93023},
+																							pos: position{line: 2948, col: 11, offset: 93241},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2939, col: 11, offset: 93023},
+																								pos: position{line: 2948, col: 11, offset: 93241},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2939, col: 11, offset: 93023},
+																									pos:        position{line: 2948, col: 11, offset: 93241},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26912,28 +27090,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26942,9 +27120,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -26974,10 +27152,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1658, col: 5, offset: 54146},
 																							expr: &actionExpr{
-																								pos: position{line: 2935, col: 10, offset: 92962},
+																								pos: position{line: 2944, col: 10, offset: 93180},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2935, col: 10, offset: 92962},
+																									pos:        position{line: 2944, col: 10, offset: 93180},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27018,12 +27196,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2939, col: 11, offset: 93023},
+																							pos: position{line: 2948, col: 11, offset: 93241},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2939, col: 11, offset: 93023},
+																								pos: position{line: 2948, col: 11, offset: 93241},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2939, col: 11, offset: 93023},
+																									pos:        position{line: 2948, col: 11, offset: 93241},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27095,12 +27273,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2939, col: 11, offset: 93023},
+																								pos: position{line: 2948, col: 11, offset: 93241},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2939, col: 11, offset: 93023},
+																									pos: position{line: 2948, col: 11, offset: 93241},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2939, col: 11, offset: 93023},
+																										pos:        position{line: 2948, col: 11, offset: 93241},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27144,28 +27322,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27174,9 +27352,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -27234,12 +27412,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2939, col: 11, offset: 93023},
+																							pos: position{line: 2948, col: 11, offset: 93241},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2939, col: 11, offset: 93023},
+																								pos: position{line: 2948, col: 11, offset: 93241},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2939, col: 11, offset: 93023},
+																									pos:        position{line: 2948, col: 11, offset: 93241},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27282,28 +27460,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27312,9 +27490,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -27405,28 +27583,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1694, col: 35, offset: 55227},
 																										expr: &choiceExpr{
-																											pos: position{line: 2957, col: 8, offset: 93360},
+																											pos: position{line: 2966, col: 8, offset: 93578},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2944, col: 12, offset: 93133},
+																													pos: position{line: 2953, col: 12, offset: 93351},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2944, col: 13, offset: 93134},
+																														pos: position{line: 2953, col: 13, offset: 93352},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 13, offset: 93134},
+																																pos:        position{line: 2953, col: 13, offset: 93352},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 20, offset: 93141},
+																																pos:        position{line: 2953, col: 20, offset: 93359},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 29, offset: 93150},
+																																pos:        position{line: 2953, col: 29, offset: 93368},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27435,9 +27613,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2954, col: 8, offset: 93310},
+																													pos: position{line: 2963, col: 8, offset: 93528},
 																													expr: &anyMatcher{
-																														line: 2954, col: 9, offset: 93311,
+																														line: 2963, col: 9, offset: 93529,
 																													},
 																												},
 																											},
@@ -27502,10 +27680,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1712, col: 9, offset: 55732},
 																									expr: &actionExpr{
-																										pos: position{line: 2935, col: 10, offset: 92962},
+																										pos: position{line: 2944, col: 10, offset: 93180},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2935, col: 10, offset: 92962},
+																											pos:        position{line: 2944, col: 10, offset: 93180},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27514,28 +27692,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2957, col: 8, offset: 93360},
+																									pos: position{line: 2966, col: 8, offset: 93578},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2944, col: 12, offset: 93133},
+																											pos: position{line: 2953, col: 12, offset: 93351},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2944, col: 13, offset: 93134},
+																												pos: position{line: 2953, col: 13, offset: 93352},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 13, offset: 93134},
+																														pos:        position{line: 2953, col: 13, offset: 93352},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 20, offset: 93141},
+																														pos:        position{line: 2953, col: 20, offset: 93359},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 29, offset: 93150},
+																														pos:        position{line: 2953, col: 29, offset: 93368},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27544,9 +27722,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2954, col: 8, offset: 93310},
+																											pos: position{line: 2963, col: 8, offset: 93528},
 																											expr: &anyMatcher{
-																												line: 2954, col: 9, offset: 93311,
+																												line: 2963, col: 9, offset: 93529,
 																											},
 																										},
 																									},
@@ -27560,18 +27738,18 @@ var g = &grammar{
 																											pos: position{line: 702, col: 14, offset: 22577},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2952, col: 11, offset: 93296},
+																													pos: position{line: 2961, col: 11, offset: 93514},
 																													expr: &anyMatcher{
-																														line: 2952, col: 13, offset: 93298,
+																														line: 2961, col: 13, offset: 93516,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 702, col: 21, offset: 22584},
 																													expr: &actionExpr{
-																														pos: position{line: 2935, col: 10, offset: 92962},
+																														pos: position{line: 2944, col: 10, offset: 93180},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2935, col: 10, offset: 92962},
+																															pos:        position{line: 2944, col: 10, offset: 93180},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27580,28 +27758,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2957, col: 8, offset: 93360},
+																													pos: position{line: 2966, col: 8, offset: 93578},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2944, col: 12, offset: 93133},
+																															pos: position{line: 2953, col: 12, offset: 93351},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2944, col: 13, offset: 93134},
+																																pos: position{line: 2953, col: 13, offset: 93352},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2944, col: 13, offset: 93134},
+																																		pos:        position{line: 2953, col: 13, offset: 93352},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2944, col: 20, offset: 93141},
+																																		pos:        position{line: 2953, col: 20, offset: 93359},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2944, col: 29, offset: 93150},
+																																		pos:        position{line: 2953, col: 29, offset: 93368},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27610,9 +27788,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2954, col: 8, offset: 93310},
+																															pos: position{line: 2963, col: 8, offset: 93528},
 																															expr: &anyMatcher{
-																																line: 2954, col: 9, offset: 93311,
+																																line: 2963, col: 9, offset: 93529,
 																															},
 																														},
 																													},
@@ -27631,12 +27809,12 @@ var g = &grammar{
 																							pos: position{line: 1719, col: 9, offset: 55880},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2939, col: 11, offset: 93023},
+																									pos: position{line: 2948, col: 11, offset: 93241},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2939, col: 11, offset: 93023},
+																										pos: position{line: 2948, col: 11, offset: 93241},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2939, col: 11, offset: 93023},
+																											pos:        position{line: 2948, col: 11, offset: 93241},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27663,28 +27841,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2957, col: 8, offset: 93360},
+																									pos: position{line: 2966, col: 8, offset: 93578},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2944, col: 12, offset: 93133},
+																											pos: position{line: 2953, col: 12, offset: 93351},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2944, col: 13, offset: 93134},
+																												pos: position{line: 2953, col: 13, offset: 93352},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 13, offset: 93134},
+																														pos:        position{line: 2953, col: 13, offset: 93352},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 20, offset: 93141},
+																														pos:        position{line: 2953, col: 20, offset: 93359},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 29, offset: 93150},
+																														pos:        position{line: 2953, col: 29, offset: 93368},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27693,9 +27871,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2954, col: 8, offset: 93310},
+																											pos: position{line: 2963, col: 8, offset: 93528},
 																											expr: &anyMatcher{
-																												line: 2954, col: 9, offset: 93311,
+																												line: 2963, col: 9, offset: 93529,
 																											},
 																										},
 																									},
@@ -27756,10 +27934,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1608, col: 5, offset: 52184},
 																							expr: &actionExpr{
-																								pos: position{line: 2935, col: 10, offset: 92962},
+																								pos: position{line: 2944, col: 10, offset: 93180},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2935, col: 10, offset: 92962},
+																									pos:        position{line: 2944, col: 10, offset: 93180},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27926,12 +28104,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2939, col: 11, offset: 93023},
+																							pos: position{line: 2948, col: 11, offset: 93241},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2939, col: 11, offset: 93023},
+																								pos: position{line: 2948, col: 11, offset: 93241},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2939, col: 11, offset: 93023},
+																									pos:        position{line: 2948, col: 11, offset: 93241},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27974,28 +28152,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28004,9 +28182,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -28036,10 +28214,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1658, col: 5, offset: 54146},
 																							expr: &actionExpr{
-																								pos: position{line: 2935, col: 10, offset: 92962},
+																								pos: position{line: 2944, col: 10, offset: 93180},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2935, col: 10, offset: 92962},
+																									pos:        position{line: 2944, col: 10, offset: 93180},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28080,12 +28258,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2939, col: 11, offset: 93023},
+																							pos: position{line: 2948, col: 11, offset: 93241},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2939, col: 11, offset: 93023},
+																								pos: position{line: 2948, col: 11, offset: 93241},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2939, col: 11, offset: 93023},
+																									pos:        position{line: 2948, col: 11, offset: 93241},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28157,12 +28335,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2939, col: 11, offset: 93023},
+																								pos: position{line: 2948, col: 11, offset: 93241},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2939, col: 11, offset: 93023},
+																									pos: position{line: 2948, col: 11, offset: 93241},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2939, col: 11, offset: 93023},
+																										pos:        position{line: 2948, col: 11, offset: 93241},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -28206,28 +28384,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28236,9 +28414,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -28296,12 +28474,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2939, col: 11, offset: 93023},
+																							pos: position{line: 2948, col: 11, offset: 93241},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2939, col: 11, offset: 93023},
+																								pos: position{line: 2948, col: 11, offset: 93241},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2939, col: 11, offset: 93023},
+																									pos:        position{line: 2948, col: 11, offset: 93241},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28344,28 +28522,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28374,9 +28552,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -28467,28 +28645,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1694, col: 35, offset: 55227},
 																										expr: &choiceExpr{
-																											pos: position{line: 2957, col: 8, offset: 93360},
+																											pos: position{line: 2966, col: 8, offset: 93578},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2944, col: 12, offset: 93133},
+																													pos: position{line: 2953, col: 12, offset: 93351},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2944, col: 13, offset: 93134},
+																														pos: position{line: 2953, col: 13, offset: 93352},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 13, offset: 93134},
+																																pos:        position{line: 2953, col: 13, offset: 93352},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 20, offset: 93141},
+																																pos:        position{line: 2953, col: 20, offset: 93359},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 29, offset: 93150},
+																																pos:        position{line: 2953, col: 29, offset: 93368},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -28497,9 +28675,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2954, col: 8, offset: 93310},
+																													pos: position{line: 2963, col: 8, offset: 93528},
 																													expr: &anyMatcher{
-																														line: 2954, col: 9, offset: 93311,
+																														line: 2963, col: 9, offset: 93529,
 																													},
 																												},
 																											},
@@ -28564,10 +28742,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1712, col: 9, offset: 55732},
 																									expr: &actionExpr{
-																										pos: position{line: 2935, col: 10, offset: 92962},
+																										pos: position{line: 2944, col: 10, offset: 93180},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2935, col: 10, offset: 92962},
+																											pos:        position{line: 2944, col: 10, offset: 93180},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28576,28 +28754,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2957, col: 8, offset: 93360},
+																									pos: position{line: 2966, col: 8, offset: 93578},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2944, col: 12, offset: 93133},
+																											pos: position{line: 2953, col: 12, offset: 93351},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2944, col: 13, offset: 93134},
+																												pos: position{line: 2953, col: 13, offset: 93352},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 13, offset: 93134},
+																														pos:        position{line: 2953, col: 13, offset: 93352},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 20, offset: 93141},
+																														pos:        position{line: 2953, col: 20, offset: 93359},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 29, offset: 93150},
+																														pos:        position{line: 2953, col: 29, offset: 93368},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28606,9 +28784,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2954, col: 8, offset: 93310},
+																											pos: position{line: 2963, col: 8, offset: 93528},
 																											expr: &anyMatcher{
-																												line: 2954, col: 9, offset: 93311,
+																												line: 2963, col: 9, offset: 93529,
 																											},
 																										},
 																									},
@@ -28622,18 +28800,18 @@ var g = &grammar{
 																											pos: position{line: 702, col: 14, offset: 22577},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2952, col: 11, offset: 93296},
+																													pos: position{line: 2961, col: 11, offset: 93514},
 																													expr: &anyMatcher{
-																														line: 2952, col: 13, offset: 93298,
+																														line: 2961, col: 13, offset: 93516,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 702, col: 21, offset: 22584},
 																													expr: &actionExpr{
-																														pos: position{line: 2935, col: 10, offset: 92962},
+																														pos: position{line: 2944, col: 10, offset: 93180},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2935, col: 10, offset: 92962},
+																															pos:        position{line: 2944, col: 10, offset: 93180},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -28642,28 +28820,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2957, col: 8, offset: 93360},
+																													pos: position{line: 2966, col: 8, offset: 93578},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2944, col: 12, offset: 93133},
+																															pos: position{line: 2953, col: 12, offset: 93351},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2944, col: 13, offset: 93134},
+																																pos: position{line: 2953, col: 13, offset: 93352},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2944, col: 13, offset: 93134},
+																																		pos:        position{line: 2953, col: 13, offset: 93352},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2944, col: 20, offset: 93141},
+																																		pos:        position{line: 2953, col: 20, offset: 93359},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2944, col: 29, offset: 93150},
+																																		pos:        position{line: 2953, col: 29, offset: 93368},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28672,9 +28850,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2954, col: 8, offset: 93310},
+																															pos: position{line: 2963, col: 8, offset: 93528},
 																															expr: &anyMatcher{
-																																line: 2954, col: 9, offset: 93311,
+																																line: 2963, col: 9, offset: 93529,
 																															},
 																														},
 																													},
@@ -28693,12 +28871,12 @@ var g = &grammar{
 																							pos: position{line: 1719, col: 9, offset: 55880},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2939, col: 11, offset: 93023},
+																									pos: position{line: 2948, col: 11, offset: 93241},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2939, col: 11, offset: 93023},
+																										pos: position{line: 2948, col: 11, offset: 93241},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2939, col: 11, offset: 93023},
+																											pos:        position{line: 2948, col: 11, offset: 93241},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28725,28 +28903,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2957, col: 8, offset: 93360},
+																									pos: position{line: 2966, col: 8, offset: 93578},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2944, col: 12, offset: 93133},
+																											pos: position{line: 2953, col: 12, offset: 93351},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2944, col: 13, offset: 93134},
+																												pos: position{line: 2953, col: 13, offset: 93352},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 13, offset: 93134},
+																														pos:        position{line: 2953, col: 13, offset: 93352},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 20, offset: 93141},
+																														pos:        position{line: 2953, col: 20, offset: 93359},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 29, offset: 93150},
+																														pos:        position{line: 2953, col: 29, offset: 93368},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28755,9 +28933,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2954, col: 8, offset: 93310},
+																											pos: position{line: 2963, col: 8, offset: 93528},
 																											expr: &anyMatcher{
-																												line: 2954, col: 9, offset: 93311,
+																												line: 2963, col: 9, offset: 93529,
 																											},
 																										},
 																									},
@@ -28806,12 +28984,12 @@ var g = &grammar{
 													pos:   position{line: 2538, col: 49, offset: 81767},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 13, offset: 91488},
+														pos: position{line: 2890, col: 13, offset: 91706},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2881, col: 13, offset: 91488},
+															pos: position{line: 2890, col: 13, offset: 91706},
 															expr: &charClassMatcher{
-																pos:        position{line: 2881, col: 13, offset: 91488},
+																pos:        position{line: 2890, col: 13, offset: 91706},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28821,28 +28999,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2957, col: 8, offset: 93360},
+													pos: position{line: 2966, col: 8, offset: 93578},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2944, col: 12, offset: 93133},
+															pos: position{line: 2953, col: 12, offset: 93351},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2944, col: 13, offset: 93134},
+																pos: position{line: 2953, col: 13, offset: 93352},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 13, offset: 93134},
+																		pos:        position{line: 2953, col: 13, offset: 93352},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 20, offset: 93141},
+																		pos:        position{line: 2953, col: 20, offset: 93359},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 29, offset: 93150},
+																		pos:        position{line: 2953, col: 29, offset: 93368},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28851,9 +29029,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2954, col: 8, offset: 93310},
+															pos: position{line: 2963, col: 8, offset: 93528},
 															expr: &anyMatcher{
-																line: 2954, col: 9, offset: 93311,
+																line: 2963, col: 9, offset: 93529,
 															},
 														},
 													},
@@ -28876,18 +29054,18 @@ var g = &grammar{
 															pos: position{line: 702, col: 14, offset: 22577},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2952, col: 11, offset: 93296},
+																	pos: position{line: 2961, col: 11, offset: 93514},
 																	expr: &anyMatcher{
-																		line: 2952, col: 13, offset: 93298,
+																		line: 2961, col: 13, offset: 93516,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 702, col: 21, offset: 22584},
 																	expr: &actionExpr{
-																		pos: position{line: 2935, col: 10, offset: 92962},
+																		pos: position{line: 2944, col: 10, offset: 93180},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2935, col: 10, offset: 92962},
+																			pos:        position{line: 2944, col: 10, offset: 93180},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28896,28 +29074,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2957, col: 8, offset: 93360},
+																	pos: position{line: 2966, col: 8, offset: 93578},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2944, col: 12, offset: 93133},
+																			pos: position{line: 2953, col: 12, offset: 93351},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2944, col: 13, offset: 93134},
+																				pos: position{line: 2953, col: 13, offset: 93352},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 13, offset: 93134},
+																						pos:        position{line: 2953, col: 13, offset: 93352},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 20, offset: 93141},
+																						pos:        position{line: 2953, col: 20, offset: 93359},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 29, offset: 93150},
+																						pos:        position{line: 2953, col: 29, offset: 93368},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28926,9 +29104,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2954, col: 8, offset: 93310},
+																			pos: position{line: 2963, col: 8, offset: 93528},
 																			expr: &anyMatcher{
-																				line: 2954, col: 9, offset: 93311,
+																				line: 2963, col: 9, offset: 93529,
 																			},
 																		},
 																	},
@@ -28951,10 +29129,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1567, col: 31, offset: 50969},
 																expr: &actionExpr{
-																	pos: position{line: 2935, col: 10, offset: 92962},
+																	pos: position{line: 2944, col: 10, offset: 93180},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2935, col: 10, offset: 92962},
+																		pos:        position{line: 2944, col: 10, offset: 93180},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28963,25 +29141,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2944, col: 12, offset: 93133},
+																pos: position{line: 2953, col: 12, offset: 93351},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2944, col: 13, offset: 93134},
+																	pos: position{line: 2953, col: 13, offset: 93352},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 13, offset: 93134},
+																			pos:        position{line: 2953, col: 13, offset: 93352},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 20, offset: 93141},
+																			pos:        position{line: 2953, col: 20, offset: 93359},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 29, offset: 93150},
+																			pos:        position{line: 2953, col: 29, offset: 93368},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -29003,10 +29181,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1608, col: 5, offset: 52184},
 																	expr: &actionExpr{
-																		pos: position{line: 2935, col: 10, offset: 92962},
+																		pos: position{line: 2944, col: 10, offset: 93180},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2935, col: 10, offset: 92962},
+																			pos:        position{line: 2944, col: 10, offset: 93180},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29173,12 +29351,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2939, col: 11, offset: 93023},
+																	pos: position{line: 2948, col: 11, offset: 93241},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2939, col: 11, offset: 93023},
+																		pos: position{line: 2948, col: 11, offset: 93241},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2939, col: 11, offset: 93023},
+																			pos:        position{line: 2948, col: 11, offset: 93241},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29201,10 +29379,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1658, col: 5, offset: 54146},
 																	expr: &actionExpr{
-																		pos: position{line: 2935, col: 10, offset: 92962},
+																		pos: position{line: 2944, col: 10, offset: 93180},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2935, col: 10, offset: 92962},
+																			pos:        position{line: 2944, col: 10, offset: 93180},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29245,12 +29423,12 @@ var g = &grammar{
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2939, col: 11, offset: 93023},
+																	pos: position{line: 2948, col: 11, offset: 93241},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2939, col: 11, offset: 93023},
+																		pos: position{line: 2948, col: 11, offset: 93241},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2939, col: 11, offset: 93023},
+																			pos:        position{line: 2948, col: 11, offset: 93241},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29301,12 +29479,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2939, col: 11, offset: 93023},
+																	pos: position{line: 2948, col: 11, offset: 93241},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2939, col: 11, offset: 93023},
+																		pos: position{line: 2948, col: 11, offset: 93241},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2939, col: 11, offset: 93023},
+																			pos:        position{line: 2948, col: 11, offset: 93241},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29393,28 +29571,28 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1694, col: 35, offset: 55227},
 																						expr: &choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29423,9 +29601,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -29484,7 +29662,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 749, col: 5, offset: 24130},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2825, col: 13, offset: 90057},
+																		pos:        position{line: 2834, col: 13, offset: 90275},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -29534,10 +29712,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 767, col: 8, offset: 24774},
 																							expr: &actionExpr{
-																								pos: position{line: 2935, col: 10, offset: 92962},
+																								pos: position{line: 2944, col: 10, offset: 93180},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2935, col: 10, offset: 92962},
+																									pos:        position{line: 2944, col: 10, offset: 93180},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29546,28 +29724,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29576,9 +29754,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -29623,10 +29801,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 774, col: 8, offset: 25022},
 																							expr: &actionExpr{
-																								pos: position{line: 2935, col: 10, offset: 92962},
+																								pos: position{line: 2944, col: 10, offset: 93180},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2935, col: 10, offset: 92962},
+																									pos:        position{line: 2944, col: 10, offset: 93180},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29635,28 +29813,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29665,9 +29843,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -29708,10 +29886,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 52, offset: 25434},
 																							expr: &actionExpr{
-																								pos: position{line: 2935, col: 10, offset: 92962},
+																								pos: position{line: 2944, col: 10, offset: 93180},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2935, col: 10, offset: 92962},
+																									pos:        position{line: 2944, col: 10, offset: 93180},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29720,28 +29898,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29750,9 +29928,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -29797,10 +29975,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 781, col: 8, offset: 25268},
 																							expr: &actionExpr{
-																								pos: position{line: 2935, col: 10, offset: 92962},
+																								pos: position{line: 2944, col: 10, offset: 93180},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2935, col: 10, offset: 92962},
+																									pos:        position{line: 2944, col: 10, offset: 93180},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29809,28 +29987,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29839,9 +30017,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -29886,10 +30064,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 796, col: 8, offset: 25806},
 																							expr: &actionExpr{
-																								pos: position{line: 2935, col: 10, offset: 92962},
+																								pos: position{line: 2944, col: 10, offset: 93180},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2935, col: 10, offset: 92962},
+																									pos:        position{line: 2944, col: 10, offset: 93180},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29898,28 +30076,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29928,9 +30106,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -29975,10 +30153,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 810, col: 8, offset: 26282},
 																							expr: &actionExpr{
-																								pos: position{line: 2935, col: 10, offset: 92962},
+																								pos: position{line: 2944, col: 10, offset: 93180},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2935, col: 10, offset: 92962},
+																									pos:        position{line: 2944, col: 10, offset: 93180},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29987,28 +30165,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30017,9 +30195,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -30064,10 +30242,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 817, col: 8, offset: 26534},
 																							expr: &actionExpr{
-																								pos: position{line: 2935, col: 10, offset: 92962},
+																								pos: position{line: 2944, col: 10, offset: 93180},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2935, col: 10, offset: 92962},
+																									pos:        position{line: 2944, col: 10, offset: 93180},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30076,28 +30254,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30106,9 +30284,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -30153,10 +30331,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 824, col: 8, offset: 26784},
 																							expr: &actionExpr{
-																								pos: position{line: 2935, col: 10, offset: 92962},
+																								pos: position{line: 2944, col: 10, offset: 93180},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2935, col: 10, offset: 92962},
+																									pos:        position{line: 2944, col: 10, offset: 93180},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30165,28 +30343,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30195,9 +30373,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -30242,10 +30420,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 831, col: 8, offset: 27030},
 																							expr: &actionExpr{
-																								pos: position{line: 2935, col: 10, offset: 92962},
+																								pos: position{line: 2944, col: 10, offset: 93180},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2935, col: 10, offset: 92962},
+																									pos:        position{line: 2944, col: 10, offset: 93180},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30254,28 +30432,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30284,9 +30462,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -30305,12 +30483,12 @@ var g = &grammar{
 													pos:   position{line: 1542, col: 5, offset: 50303},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2885, col: 14, offset: 91555},
+														pos: position{line: 2894, col: 14, offset: 91773},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2885, col: 14, offset: 91555},
+															pos: position{line: 2894, col: 14, offset: 91773},
 															expr: &charClassMatcher{
-																pos:        position{line: 2885, col: 14, offset: 91555},
+																pos:        position{line: 2894, col: 14, offset: 91773},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -30320,28 +30498,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2957, col: 8, offset: 93360},
+													pos: position{line: 2966, col: 8, offset: 93578},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2944, col: 12, offset: 93133},
+															pos: position{line: 2953, col: 12, offset: 93351},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2944, col: 13, offset: 93134},
+																pos: position{line: 2953, col: 13, offset: 93352},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 13, offset: 93134},
+																		pos:        position{line: 2953, col: 13, offset: 93352},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 20, offset: 93141},
+																		pos:        position{line: 2953, col: 20, offset: 93359},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 29, offset: 93150},
+																		pos:        position{line: 2953, col: 29, offset: 93368},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30350,9 +30528,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2954, col: 8, offset: 93310},
+															pos: position{line: 2963, col: 8, offset: 93528},
 															expr: &anyMatcher{
-																line: 2954, col: 9, offset: 93311,
+																line: 2963, col: 9, offset: 93529,
 															},
 														},
 													},
@@ -30387,10 +30565,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1559, col: 13, offset: 50727},
 											expr: &actionExpr{
-												pos: position{line: 2935, col: 10, offset: 92962},
+												pos: position{line: 2944, col: 10, offset: 93180},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2935, col: 10, offset: 92962},
+													pos:        position{line: 2944, col: 10, offset: 93180},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -30399,25 +30577,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2944, col: 12, offset: 93133},
+											pos: position{line: 2953, col: 12, offset: 93351},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2944, col: 13, offset: 93134},
+												pos: position{line: 2953, col: 13, offset: 93352},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2944, col: 13, offset: 93134},
+														pos:        position{line: 2953, col: 13, offset: 93352},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2944, col: 20, offset: 93141},
+														pos:        position{line: 2953, col: 20, offset: 93359},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2944, col: 29, offset: 93150},
+														pos:        position{line: 2953, col: 29, offset: 93368},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -30438,10 +30616,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1567, col: 31, offset: 50969},
 							expr: &actionExpr{
-								pos: position{line: 2935, col: 10, offset: 92962},
+								pos: position{line: 2944, col: 10, offset: 93180},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2935, col: 10, offset: 92962},
+									pos:        position{line: 2944, col: 10, offset: 93180},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -30450,25 +30628,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2944, col: 12, offset: 93133},
+							pos: position{line: 2953, col: 12, offset: 93351},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2944, col: 13, offset: 93134},
+								pos: position{line: 2953, col: 13, offset: 93352},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2944, col: 13, offset: 93134},
+										pos:        position{line: 2953, col: 13, offset: 93352},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2944, col: 20, offset: 93141},
+										pos:        position{line: 2953, col: 20, offset: 93359},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2944, col: 29, offset: 93150},
+										pos:        position{line: 2953, col: 29, offset: 93368},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -30503,12 +30681,12 @@ var g = &grammar{
 											pos:   position{line: 2538, col: 49, offset: 81767},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2881, col: 13, offset: 91488},
+												pos: position{line: 2890, col: 13, offset: 91706},
 												run: (*parser).callonListContinuation30,
 												expr: &zeroOrMoreExpr{
-													pos: position{line: 2881, col: 13, offset: 91488},
+													pos: position{line: 2890, col: 13, offset: 91706},
 													expr: &charClassMatcher{
-														pos:        position{line: 2881, col: 13, offset: 91488},
+														pos:        position{line: 2890, col: 13, offset: 91706},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -30518,28 +30696,28 @@ var g = &grammar{
 											},
 										},
 										&choiceExpr{
-											pos: position{line: 2957, col: 8, offset: 93360},
+											pos: position{line: 2966, col: 8, offset: 93578},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2944, col: 12, offset: 93133},
+													pos: position{line: 2953, col: 12, offset: 93351},
 													run: (*parser).callonListContinuation34,
 													expr: &choiceExpr{
-														pos: position{line: 2944, col: 13, offset: 93134},
+														pos: position{line: 2953, col: 13, offset: 93352},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2944, col: 13, offset: 93134},
+																pos:        position{line: 2953, col: 13, offset: 93352},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2944, col: 20, offset: 93141},
+																pos:        position{line: 2953, col: 20, offset: 93359},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2944, col: 29, offset: 93150},
+																pos:        position{line: 2953, col: 29, offset: 93368},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -30548,9 +30726,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2954, col: 8, offset: 93310},
+													pos: position{line: 2963, col: 8, offset: 93528},
 													expr: &anyMatcher{
-														line: 2954, col: 9, offset: 93311,
+														line: 2963, col: 9, offset: 93529,
 													},
 												},
 											},
@@ -30584,9 +30762,9 @@ var g = &grammar{
 					pos: position{line: 1570, col: 5, offset: 51056},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2952, col: 11, offset: 93296},
+							pos: position{line: 2961, col: 11, offset: 93514},
 							expr: &anyMatcher{
-								line: 2952, col: 13, offset: 93298,
+								line: 2961, col: 13, offset: 93516,
 							},
 						},
 						&notExpr{
@@ -30612,10 +30790,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1608, col: 5, offset: 52184},
 																	expr: &actionExpr{
-																		pos: position{line: 2935, col: 10, offset: 92962},
+																		pos: position{line: 2944, col: 10, offset: 93180},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2935, col: 10, offset: 92962},
+																			pos:        position{line: 2944, col: 10, offset: 93180},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30782,12 +30960,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2939, col: 11, offset: 93023},
+																	pos: position{line: 2948, col: 11, offset: 93241},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2939, col: 11, offset: 93023},
+																		pos: position{line: 2948, col: 11, offset: 93241},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2939, col: 11, offset: 93023},
+																			pos:        position{line: 2948, col: 11, offset: 93241},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30830,28 +31008,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2957, col: 8, offset: 93360},
+																	pos: position{line: 2966, col: 8, offset: 93578},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2944, col: 12, offset: 93133},
+																			pos: position{line: 2953, col: 12, offset: 93351},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2944, col: 13, offset: 93134},
+																				pos: position{line: 2953, col: 13, offset: 93352},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 13, offset: 93134},
+																						pos:        position{line: 2953, col: 13, offset: 93352},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 20, offset: 93141},
+																						pos:        position{line: 2953, col: 20, offset: 93359},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 29, offset: 93150},
+																						pos:        position{line: 2953, col: 29, offset: 93368},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30860,9 +31038,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2954, col: 8, offset: 93310},
+																			pos: position{line: 2963, col: 8, offset: 93528},
 																			expr: &anyMatcher{
-																				line: 2954, col: 9, offset: 93311,
+																				line: 2963, col: 9, offset: 93529,
 																			},
 																		},
 																	},
@@ -30892,10 +31070,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1658, col: 5, offset: 54146},
 																	expr: &actionExpr{
-																		pos: position{line: 2935, col: 10, offset: 92962},
+																		pos: position{line: 2944, col: 10, offset: 93180},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2935, col: 10, offset: 92962},
+																			pos:        position{line: 2944, col: 10, offset: 93180},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30936,12 +31114,12 @@ var g = &grammar{
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2939, col: 11, offset: 93023},
+																	pos: position{line: 2948, col: 11, offset: 93241},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2939, col: 11, offset: 93023},
+																		pos: position{line: 2948, col: 11, offset: 93241},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2939, col: 11, offset: 93023},
+																			pos:        position{line: 2948, col: 11, offset: 93241},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31013,12 +31191,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2939, col: 11, offset: 93023},
+																		pos: position{line: 2948, col: 11, offset: 93241},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2939, col: 11, offset: 93023},
+																			pos: position{line: 2948, col: 11, offset: 93241},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2939, col: 11, offset: 93023},
+																				pos:        position{line: 2948, col: 11, offset: 93241},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -31062,28 +31240,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2957, col: 8, offset: 93360},
+																	pos: position{line: 2966, col: 8, offset: 93578},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2944, col: 12, offset: 93133},
+																			pos: position{line: 2953, col: 12, offset: 93351},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2944, col: 13, offset: 93134},
+																				pos: position{line: 2953, col: 13, offset: 93352},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 13, offset: 93134},
+																						pos:        position{line: 2953, col: 13, offset: 93352},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 20, offset: 93141},
+																						pos:        position{line: 2953, col: 20, offset: 93359},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 29, offset: 93150},
+																						pos:        position{line: 2953, col: 29, offset: 93368},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31092,9 +31270,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2954, col: 8, offset: 93310},
+																			pos: position{line: 2963, col: 8, offset: 93528},
 																			expr: &anyMatcher{
-																				line: 2954, col: 9, offset: 93311,
+																				line: 2963, col: 9, offset: 93529,
 																			},
 																		},
 																	},
@@ -31152,12 +31330,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2939, col: 11, offset: 93023},
+																	pos: position{line: 2948, col: 11, offset: 93241},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2939, col: 11, offset: 93023},
+																		pos: position{line: 2948, col: 11, offset: 93241},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2939, col: 11, offset: 93023},
+																			pos:        position{line: 2948, col: 11, offset: 93241},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31200,28 +31378,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2957, col: 8, offset: 93360},
+																	pos: position{line: 2966, col: 8, offset: 93578},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2944, col: 12, offset: 93133},
+																			pos: position{line: 2953, col: 12, offset: 93351},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2944, col: 13, offset: 93134},
+																				pos: position{line: 2953, col: 13, offset: 93352},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 13, offset: 93134},
+																						pos:        position{line: 2953, col: 13, offset: 93352},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 20, offset: 93141},
+																						pos:        position{line: 2953, col: 20, offset: 93359},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 29, offset: 93150},
+																						pos:        position{line: 2953, col: 29, offset: 93368},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31230,9 +31408,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2954, col: 8, offset: 93310},
+																			pos: position{line: 2963, col: 8, offset: 93528},
 																			expr: &anyMatcher{
-																				line: 2954, col: 9, offset: 93311,
+																				line: 2963, col: 9, offset: 93529,
 																			},
 																		},
 																	},
@@ -31323,28 +31501,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1694, col: 35, offset: 55227},
 																				expr: &choiceExpr{
-																					pos: position{line: 2957, col: 8, offset: 93360},
+																					pos: position{line: 2966, col: 8, offset: 93578},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2944, col: 12, offset: 93133},
+																							pos: position{line: 2953, col: 12, offset: 93351},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2944, col: 13, offset: 93134},
+																								pos: position{line: 2953, col: 13, offset: 93352},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 13, offset: 93134},
+																										pos:        position{line: 2953, col: 13, offset: 93352},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 20, offset: 93141},
+																										pos:        position{line: 2953, col: 20, offset: 93359},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 29, offset: 93150},
+																										pos:        position{line: 2953, col: 29, offset: 93368},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31353,9 +31531,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2954, col: 8, offset: 93310},
+																							pos: position{line: 2963, col: 8, offset: 93528},
 																							expr: &anyMatcher{
-																								line: 2954, col: 9, offset: 93311,
+																								line: 2963, col: 9, offset: 93529,
 																							},
 																						},
 																					},
@@ -31420,10 +31598,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1712, col: 9, offset: 55732},
 																			expr: &actionExpr{
-																				pos: position{line: 2935, col: 10, offset: 92962},
+																				pos: position{line: 2944, col: 10, offset: 93180},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2935, col: 10, offset: 92962},
+																					pos:        position{line: 2944, col: 10, offset: 93180},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31432,28 +31610,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2957, col: 8, offset: 93360},
+																			pos: position{line: 2966, col: 8, offset: 93578},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2944, col: 12, offset: 93133},
+																					pos: position{line: 2953, col: 12, offset: 93351},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2944, col: 13, offset: 93134},
+																						pos: position{line: 2953, col: 13, offset: 93352},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 13, offset: 93134},
+																								pos:        position{line: 2953, col: 13, offset: 93352},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 20, offset: 93141},
+																								pos:        position{line: 2953, col: 20, offset: 93359},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 29, offset: 93150},
+																								pos:        position{line: 2953, col: 29, offset: 93368},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31462,9 +31640,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -31478,18 +31656,18 @@ var g = &grammar{
 																					pos: position{line: 702, col: 14, offset: 22577},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2952, col: 11, offset: 93296},
+																							pos: position{line: 2961, col: 11, offset: 93514},
 																							expr: &anyMatcher{
-																								line: 2952, col: 13, offset: 93298,
+																								line: 2961, col: 13, offset: 93516,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 702, col: 21, offset: 22584},
 																							expr: &actionExpr{
-																								pos: position{line: 2935, col: 10, offset: 92962},
+																								pos: position{line: 2944, col: 10, offset: 93180},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2935, col: 10, offset: 92962},
+																									pos:        position{line: 2944, col: 10, offset: 93180},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31498,28 +31676,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31528,9 +31706,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -31549,12 +31727,12 @@ var g = &grammar{
 																	pos: position{line: 1719, col: 9, offset: 55880},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2939, col: 11, offset: 93023},
+																			pos: position{line: 2948, col: 11, offset: 93241},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2939, col: 11, offset: 93023},
+																				pos: position{line: 2948, col: 11, offset: 93241},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2939, col: 11, offset: 93023},
+																					pos:        position{line: 2948, col: 11, offset: 93241},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31581,28 +31759,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2957, col: 8, offset: 93360},
+																			pos: position{line: 2966, col: 8, offset: 93578},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2944, col: 12, offset: 93133},
+																					pos: position{line: 2953, col: 12, offset: 93351},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2944, col: 13, offset: 93134},
+																						pos: position{line: 2953, col: 13, offset: 93352},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 13, offset: 93134},
+																								pos:        position{line: 2953, col: 13, offset: 93352},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 20, offset: 93141},
+																								pos:        position{line: 2953, col: 20, offset: 93359},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 29, offset: 93150},
+																								pos:        position{line: 2953, col: 29, offset: 93368},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31611,9 +31789,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -31654,18 +31832,18 @@ var g = &grammar{
 											pos: position{line: 702, col: 14, offset: 22577},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2952, col: 11, offset: 93296},
+													pos: position{line: 2961, col: 11, offset: 93514},
 													expr: &anyMatcher{
-														line: 2952, col: 13, offset: 93298,
+														line: 2961, col: 13, offset: 93516,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 702, col: 21, offset: 22584},
 													expr: &actionExpr{
-														pos: position{line: 2935, col: 10, offset: 92962},
+														pos: position{line: 2944, col: 10, offset: 93180},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2935, col: 10, offset: 92962},
+															pos:        position{line: 2944, col: 10, offset: 93180},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31674,28 +31852,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2957, col: 8, offset: 93360},
+													pos: position{line: 2966, col: 8, offset: 93578},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2944, col: 12, offset: 93133},
+															pos: position{line: 2953, col: 12, offset: 93351},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2944, col: 13, offset: 93134},
+																pos: position{line: 2953, col: 13, offset: 93352},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 13, offset: 93134},
+																		pos:        position{line: 2953, col: 13, offset: 93352},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 20, offset: 93141},
+																		pos:        position{line: 2953, col: 20, offset: 93359},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 29, offset: 93150},
+																		pos:        position{line: 2953, col: 29, offset: 93368},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31704,9 +31882,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2954, col: 8, offset: 93310},
+															pos: position{line: 2963, col: 8, offset: 93528},
 															expr: &anyMatcher{
-																line: 2954, col: 9, offset: 93311,
+																line: 2963, col: 9, offset: 93529,
 															},
 														},
 													},
@@ -31771,10 +31949,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 49, offset: 11042},
 													expr: &actionExpr{
-														pos: position{line: 2935, col: 10, offset: 92962},
+														pos: position{line: 2944, col: 10, offset: 93180},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2935, col: 10, offset: 92962},
+															pos:        position{line: 2944, col: 10, offset: 93180},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31783,28 +31961,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2957, col: 8, offset: 93360},
+													pos: position{line: 2966, col: 8, offset: 93578},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2944, col: 12, offset: 93133},
+															pos: position{line: 2953, col: 12, offset: 93351},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2944, col: 13, offset: 93134},
+																pos: position{line: 2953, col: 13, offset: 93352},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 13, offset: 93134},
+																		pos:        position{line: 2953, col: 13, offset: 93352},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 20, offset: 93141},
+																		pos:        position{line: 2953, col: 20, offset: 93359},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 29, offset: 93150},
+																		pos:        position{line: 2953, col: 29, offset: 93368},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31813,9 +31991,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2954, col: 8, offset: 93310},
+															pos: position{line: 2963, col: 8, offset: 93528},
 															expr: &anyMatcher{
-																line: 2954, col: 9, offset: 93311,
+																line: 2963, col: 9, offset: 93529,
 															},
 														},
 													},
@@ -31876,10 +32054,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 364, col: 39, offset: 11163},
 													expr: &actionExpr{
-														pos: position{line: 2935, col: 10, offset: 92962},
+														pos: position{line: 2944, col: 10, offset: 93180},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2935, col: 10, offset: 92962},
+															pos:        position{line: 2944, col: 10, offset: 93180},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31888,28 +32066,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2957, col: 8, offset: 93360},
+													pos: position{line: 2966, col: 8, offset: 93578},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2944, col: 12, offset: 93133},
+															pos: position{line: 2953, col: 12, offset: 93351},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2944, col: 13, offset: 93134},
+																pos: position{line: 2953, col: 13, offset: 93352},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 13, offset: 93134},
+																		pos:        position{line: 2953, col: 13, offset: 93352},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 20, offset: 93141},
+																		pos:        position{line: 2953, col: 20, offset: 93359},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 29, offset: 93150},
+																		pos:        position{line: 2953, col: 29, offset: 93368},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31918,9 +32096,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2954, col: 8, offset: 93310},
+															pos: position{line: 2963, col: 8, offset: 93528},
 															expr: &anyMatcher{
-																line: 2954, col: 9, offset: 93311,
+																line: 2963, col: 9, offset: 93529,
 															},
 														},
 													},
@@ -31971,10 +32149,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 767, col: 8, offset: 24774},
 																expr: &actionExpr{
-																	pos: position{line: 2935, col: 10, offset: 92962},
+																	pos: position{line: 2944, col: 10, offset: 93180},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2935, col: 10, offset: 92962},
+																		pos:        position{line: 2944, col: 10, offset: 93180},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31983,28 +32161,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2957, col: 8, offset: 93360},
+																pos: position{line: 2966, col: 8, offset: 93578},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2944, col: 12, offset: 93133},
+																		pos: position{line: 2953, col: 12, offset: 93351},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2944, col: 13, offset: 93134},
+																			pos: position{line: 2953, col: 13, offset: 93352},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2944, col: 13, offset: 93134},
+																					pos:        position{line: 2953, col: 13, offset: 93352},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2944, col: 20, offset: 93141},
+																					pos:        position{line: 2953, col: 20, offset: 93359},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2944, col: 29, offset: 93150},
+																					pos:        position{line: 2953, col: 29, offset: 93368},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32013,9 +32191,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2954, col: 8, offset: 93310},
+																		pos: position{line: 2963, col: 8, offset: 93528},
 																		expr: &anyMatcher{
-																			line: 2954, col: 9, offset: 93311,
+																			line: 2963, col: 9, offset: 93529,
 																		},
 																	},
 																},
@@ -32076,10 +32254,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 767, col: 8, offset: 24774},
 																								expr: &actionExpr{
-																									pos: position{line: 2935, col: 10, offset: 92962},
+																									pos: position{line: 2944, col: 10, offset: 93180},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2935, col: 10, offset: 92962},
+																										pos:        position{line: 2944, col: 10, offset: 93180},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -32088,28 +32266,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2957, col: 8, offset: 93360},
+																								pos: position{line: 2966, col: 8, offset: 93578},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2944, col: 12, offset: 93133},
+																										pos: position{line: 2953, col: 12, offset: 93351},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2944, col: 13, offset: 93134},
+																											pos: position{line: 2953, col: 13, offset: 93352},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 13, offset: 93134},
+																													pos:        position{line: 2953, col: 13, offset: 93352},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 20, offset: 93141},
+																													pos:        position{line: 2953, col: 20, offset: 93359},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 29, offset: 93150},
+																													pos:        position{line: 2953, col: 29, offset: 93368},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -32118,9 +32296,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2954, col: 8, offset: 93310},
+																										pos: position{line: 2963, col: 8, offset: 93528},
 																										expr: &anyMatcher{
-																											line: 2954, col: 9, offset: 93311,
+																											line: 2963, col: 9, offset: 93529,
 																										},
 																									},
 																								},
@@ -32129,9 +32307,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -32147,21 +32325,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2952, col: 11, offset: 93296},
+																						pos: position{line: 2961, col: 11, offset: 93514},
 																						expr: &anyMatcher{
-																							line: 2952, col: 13, offset: 93298,
+																							line: 2961, col: 13, offset: 93516,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 13, offset: 91488},
+																							pos: position{line: 2890, col: 13, offset: 91706},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2881, col: 13, offset: 91488},
+																								pos: position{line: 2890, col: 13, offset: 91706},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 13, offset: 91488},
+																									pos:        position{line: 2890, col: 13, offset: 91706},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32171,28 +32349,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2957, col: 8, offset: 93360},
+																						pos: position{line: 2966, col: 8, offset: 93578},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2944, col: 12, offset: 93133},
+																								pos: position{line: 2953, col: 12, offset: 93351},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2944, col: 13, offset: 93134},
+																									pos: position{line: 2953, col: 13, offset: 93352},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 13, offset: 93134},
+																											pos:        position{line: 2953, col: 13, offset: 93352},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 20, offset: 93141},
+																											pos:        position{line: 2953, col: 20, offset: 93359},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 29, offset: 93150},
+																											pos:        position{line: 2953, col: 29, offset: 93368},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32201,9 +32379,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2954, col: 8, offset: 93310},
+																								pos: position{line: 2963, col: 8, offset: 93528},
 																								expr: &anyMatcher{
-																									line: 2954, col: 9, offset: 93311,
+																									line: 2963, col: 9, offset: 93529,
 																								},
 																							},
 																						},
@@ -32259,10 +32437,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 767, col: 8, offset: 24774},
 																			expr: &actionExpr{
-																				pos: position{line: 2935, col: 10, offset: 92962},
+																				pos: position{line: 2944, col: 10, offset: 93180},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2935, col: 10, offset: 92962},
+																					pos:        position{line: 2944, col: 10, offset: 93180},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -32271,28 +32449,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2957, col: 8, offset: 93360},
+																			pos: position{line: 2966, col: 8, offset: 93578},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2944, col: 12, offset: 93133},
+																					pos: position{line: 2953, col: 12, offset: 93351},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2944, col: 13, offset: 93134},
+																						pos: position{line: 2953, col: 13, offset: 93352},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 13, offset: 93134},
+																								pos:        position{line: 2953, col: 13, offset: 93352},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 20, offset: 93141},
+																								pos:        position{line: 2953, col: 20, offset: 93359},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 29, offset: 93150},
+																								pos:        position{line: 2953, col: 29, offset: 93368},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32301,9 +32479,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -32312,9 +32490,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2954, col: 8, offset: 93310},
+																pos: position{line: 2963, col: 8, offset: 93528},
 																expr: &anyMatcher{
-																	line: 2954, col: 9, offset: 93311,
+																	line: 2963, col: 9, offset: 93529,
 																},
 															},
 														},
@@ -32369,10 +32547,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 774, col: 8, offset: 25022},
 																	expr: &actionExpr{
-																		pos: position{line: 2935, col: 10, offset: 92962},
+																		pos: position{line: 2944, col: 10, offset: 93180},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2935, col: 10, offset: 92962},
+																			pos:        position{line: 2944, col: 10, offset: 93180},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32381,28 +32559,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2957, col: 8, offset: 93360},
+																	pos: position{line: 2966, col: 8, offset: 93578},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2944, col: 12, offset: 93133},
+																			pos: position{line: 2953, col: 12, offset: 93351},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2944, col: 13, offset: 93134},
+																				pos: position{line: 2953, col: 13, offset: 93352},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 13, offset: 93134},
+																						pos:        position{line: 2953, col: 13, offset: 93352},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 20, offset: 93141},
+																						pos:        position{line: 2953, col: 20, offset: 93359},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 29, offset: 93150},
+																						pos:        position{line: 2953, col: 29, offset: 93368},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32411,9 +32589,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2954, col: 8, offset: 93310},
+																			pos: position{line: 2963, col: 8, offset: 93528},
 																			expr: &anyMatcher{
-																				line: 2954, col: 9, offset: 93311,
+																				line: 2963, col: 9, offset: 93529,
 																			},
 																		},
 																	},
@@ -32485,10 +32663,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 774, col: 8, offset: 25022},
 																											expr: &actionExpr{
-																												pos: position{line: 2935, col: 10, offset: 92962},
+																												pos: position{line: 2944, col: 10, offset: 93180},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2935, col: 10, offset: 92962},
+																													pos:        position{line: 2944, col: 10, offset: 93180},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32497,28 +32675,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2957, col: 8, offset: 93360},
+																											pos: position{line: 2966, col: 8, offset: 93578},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2944, col: 12, offset: 93133},
+																													pos: position{line: 2953, col: 12, offset: 93351},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2944, col: 13, offset: 93134},
+																														pos: position{line: 2953, col: 13, offset: 93352},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 13, offset: 93134},
+																																pos:        position{line: 2953, col: 13, offset: 93352},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 20, offset: 93141},
+																																pos:        position{line: 2953, col: 20, offset: 93359},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 29, offset: 93150},
+																																pos:        position{line: 2953, col: 29, offset: 93368},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32527,9 +32705,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2954, col: 8, offset: 93310},
+																													pos: position{line: 2963, col: 8, offset: 93528},
 																													expr: &anyMatcher{
-																														line: 2954, col: 9, offset: 93311,
+																														line: 2963, col: 9, offset: 93529,
 																													},
 																												},
 																											},
@@ -32545,9 +32723,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -32563,21 +32741,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2952, col: 11, offset: 93296},
+																						pos: position{line: 2961, col: 11, offset: 93514},
 																						expr: &anyMatcher{
-																							line: 2952, col: 13, offset: 93298,
+																							line: 2961, col: 13, offset: 93516,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 13, offset: 91488},
+																							pos: position{line: 2890, col: 13, offset: 91706},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2881, col: 13, offset: 91488},
+																								pos: position{line: 2890, col: 13, offset: 91706},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 13, offset: 91488},
+																									pos:        position{line: 2890, col: 13, offset: 91706},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32587,28 +32765,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2957, col: 8, offset: 93360},
+																						pos: position{line: 2966, col: 8, offset: 93578},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2944, col: 12, offset: 93133},
+																								pos: position{line: 2953, col: 12, offset: 93351},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2944, col: 13, offset: 93134},
+																									pos: position{line: 2953, col: 13, offset: 93352},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 13, offset: 93134},
+																											pos:        position{line: 2953, col: 13, offset: 93352},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 20, offset: 93141},
+																											pos:        position{line: 2953, col: 20, offset: 93359},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 29, offset: 93150},
+																											pos:        position{line: 2953, col: 29, offset: 93368},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32617,9 +32795,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2954, col: 8, offset: 93310},
+																								pos: position{line: 2963, col: 8, offset: 93528},
 																								expr: &anyMatcher{
-																									line: 2954, col: 9, offset: 93311,
+																									line: 2963, col: 9, offset: 93529,
 																								},
 																							},
 																						},
@@ -32684,10 +32862,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 774, col: 8, offset: 25022},
 																							expr: &actionExpr{
-																								pos: position{line: 2935, col: 10, offset: 92962},
+																								pos: position{line: 2944, col: 10, offset: 93180},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2935, col: 10, offset: 92962},
+																									pos:        position{line: 2944, col: 10, offset: 93180},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32696,28 +32874,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32726,9 +32904,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -32744,9 +32922,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2954, col: 8, offset: 93310},
+																	pos: position{line: 2963, col: 8, offset: 93528},
 																	expr: &anyMatcher{
-																		line: 2954, col: 9, offset: 93311,
+																		line: 2963, col: 9, offset: 93529,
 																	},
 																},
 															},
@@ -32798,10 +32976,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 785, col: 52, offset: 25434},
 																	expr: &actionExpr{
-																		pos: position{line: 2935, col: 10, offset: 92962},
+																		pos: position{line: 2944, col: 10, offset: 93180},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2935, col: 10, offset: 92962},
+																			pos:        position{line: 2944, col: 10, offset: 93180},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32810,28 +32988,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2957, col: 8, offset: 93360},
+																	pos: position{line: 2966, col: 8, offset: 93578},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2944, col: 12, offset: 93133},
+																			pos: position{line: 2953, col: 12, offset: 93351},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2944, col: 13, offset: 93134},
+																				pos: position{line: 2953, col: 13, offset: 93352},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 13, offset: 93134},
+																						pos:        position{line: 2953, col: 13, offset: 93352},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 20, offset: 93141},
+																						pos:        position{line: 2953, col: 20, offset: 93359},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 29, offset: 93150},
+																						pos:        position{line: 2953, col: 29, offset: 93368},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32840,9 +33018,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2954, col: 8, offset: 93310},
+																			pos: position{line: 2963, col: 8, offset: 93528},
 																			expr: &anyMatcher{
-																				line: 2954, col: 9, offset: 93311,
+																				line: 2963, col: 9, offset: 93529,
 																			},
 																		},
 																	},
@@ -32876,10 +33054,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 988, col: 40, offset: 31237},
 																					expr: &actionExpr{
-																						pos: position{line: 2935, col: 10, offset: 92962},
+																						pos: position{line: 2944, col: 10, offset: 93180},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2935, col: 10, offset: 92962},
+																							pos:        position{line: 2944, col: 10, offset: 93180},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32888,28 +33066,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2957, col: 8, offset: 93360},
+																					pos: position{line: 2966, col: 8, offset: 93578},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2944, col: 12, offset: 93133},
+																							pos: position{line: 2953, col: 12, offset: 93351},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2944, col: 13, offset: 93134},
+																								pos: position{line: 2953, col: 13, offset: 93352},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 13, offset: 93134},
+																										pos:        position{line: 2953, col: 13, offset: 93352},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 20, offset: 93141},
+																										pos:        position{line: 2953, col: 20, offset: 93359},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 29, offset: 93150},
+																										pos:        position{line: 2953, col: 29, offset: 93368},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32918,9 +33096,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2954, col: 8, offset: 93310},
+																							pos: position{line: 2963, col: 8, offset: 93528},
 																							expr: &anyMatcher{
-																								line: 2954, col: 9, offset: 93311,
+																								line: 2963, col: 9, offset: 93529,
 																							},
 																						},
 																					},
@@ -32938,21 +33116,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2952, col: 11, offset: 93296},
+																						pos: position{line: 2961, col: 11, offset: 93514},
 																						expr: &anyMatcher{
-																							line: 2952, col: 13, offset: 93298,
+																							line: 2961, col: 13, offset: 93516,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 13, offset: 91488},
+																							pos: position{line: 2890, col: 13, offset: 91706},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2881, col: 13, offset: 91488},
+																								pos: position{line: 2890, col: 13, offset: 91706},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 13, offset: 91488},
+																									pos:        position{line: 2890, col: 13, offset: 91706},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32962,28 +33140,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2957, col: 8, offset: 93360},
+																						pos: position{line: 2966, col: 8, offset: 93578},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2944, col: 12, offset: 93133},
+																								pos: position{line: 2953, col: 12, offset: 93351},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2944, col: 13, offset: 93134},
+																									pos: position{line: 2953, col: 13, offset: 93352},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 13, offset: 93134},
+																											pos:        position{line: 2953, col: 13, offset: 93352},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 20, offset: 93141},
+																											pos:        position{line: 2953, col: 20, offset: 93359},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 29, offset: 93150},
+																											pos:        position{line: 2953, col: 29, offset: 93368},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32992,9 +33170,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2954, col: 8, offset: 93310},
+																								pos: position{line: 2963, col: 8, offset: 93528},
 																								expr: &anyMatcher{
-																									line: 2954, col: 9, offset: 93311,
+																									line: 2963, col: 9, offset: 93529,
 																								},
 																							},
 																						},
@@ -33022,10 +33200,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 988, col: 40, offset: 31237},
 																expr: &actionExpr{
-																	pos: position{line: 2935, col: 10, offset: 92962},
+																	pos: position{line: 2944, col: 10, offset: 93180},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2935, col: 10, offset: 92962},
+																		pos:        position{line: 2944, col: 10, offset: 93180},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -33034,28 +33212,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2957, col: 8, offset: 93360},
+																pos: position{line: 2966, col: 8, offset: 93578},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2944, col: 12, offset: 93133},
+																		pos: position{line: 2953, col: 12, offset: 93351},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2944, col: 13, offset: 93134},
+																			pos: position{line: 2953, col: 13, offset: 93352},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2944, col: 13, offset: 93134},
+																					pos:        position{line: 2953, col: 13, offset: 93352},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2944, col: 20, offset: 93141},
+																					pos:        position{line: 2953, col: 20, offset: 93359},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2944, col: 29, offset: 93150},
+																					pos:        position{line: 2953, col: 29, offset: 93368},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -33064,9 +33242,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2954, col: 8, offset: 93310},
+																		pos: position{line: 2963, col: 8, offset: 93528},
 																		expr: &anyMatcher{
-																			line: 2954, col: 9, offset: 93311,
+																			line: 2963, col: 9, offset: 93529,
 																		},
 																	},
 																},
@@ -33123,10 +33301,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 781, col: 8, offset: 25268},
 																	expr: &actionExpr{
-																		pos: position{line: 2935, col: 10, offset: 92962},
+																		pos: position{line: 2944, col: 10, offset: 93180},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2935, col: 10, offset: 92962},
+																			pos:        position{line: 2944, col: 10, offset: 93180},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33135,28 +33313,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2957, col: 8, offset: 93360},
+																	pos: position{line: 2966, col: 8, offset: 93578},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2944, col: 12, offset: 93133},
+																			pos: position{line: 2953, col: 12, offset: 93351},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2944, col: 13, offset: 93134},
+																				pos: position{line: 2953, col: 13, offset: 93352},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 13, offset: 93134},
+																						pos:        position{line: 2953, col: 13, offset: 93352},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 20, offset: 93141},
+																						pos:        position{line: 2953, col: 20, offset: 93359},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 29, offset: 93150},
+																						pos:        position{line: 2953, col: 29, offset: 93368},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33165,9 +33343,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2954, col: 8, offset: 93310},
+																			pos: position{line: 2963, col: 8, offset: 93528},
 																			expr: &anyMatcher{
-																				line: 2954, col: 9, offset: 93311,
+																				line: 2963, col: 9, offset: 93529,
 																			},
 																		},
 																	},
@@ -33239,10 +33417,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 781, col: 8, offset: 25268},
 																											expr: &actionExpr{
-																												pos: position{line: 2935, col: 10, offset: 92962},
+																												pos: position{line: 2944, col: 10, offset: 93180},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2935, col: 10, offset: 92962},
+																													pos:        position{line: 2944, col: 10, offset: 93180},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33251,28 +33429,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2957, col: 8, offset: 93360},
+																											pos: position{line: 2966, col: 8, offset: 93578},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2944, col: 12, offset: 93133},
+																													pos: position{line: 2953, col: 12, offset: 93351},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2944, col: 13, offset: 93134},
+																														pos: position{line: 2953, col: 13, offset: 93352},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 13, offset: 93134},
+																																pos:        position{line: 2953, col: 13, offset: 93352},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 20, offset: 93141},
+																																pos:        position{line: 2953, col: 20, offset: 93359},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 29, offset: 93150},
+																																pos:        position{line: 2953, col: 29, offset: 93368},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33281,9 +33459,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2954, col: 8, offset: 93310},
+																													pos: position{line: 2963, col: 8, offset: 93528},
 																													expr: &anyMatcher{
-																														line: 2954, col: 9, offset: 93311,
+																														line: 2963, col: 9, offset: 93529,
 																													},
 																												},
 																											},
@@ -33299,9 +33477,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -33317,21 +33495,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2952, col: 11, offset: 93296},
+																						pos: position{line: 2961, col: 11, offset: 93514},
 																						expr: &anyMatcher{
-																							line: 2952, col: 13, offset: 93298,
+																							line: 2961, col: 13, offset: 93516,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 13, offset: 91488},
+																							pos: position{line: 2890, col: 13, offset: 91706},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2881, col: 13, offset: 91488},
+																								pos: position{line: 2890, col: 13, offset: 91706},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 13, offset: 91488},
+																									pos:        position{line: 2890, col: 13, offset: 91706},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33341,28 +33519,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2957, col: 8, offset: 93360},
+																						pos: position{line: 2966, col: 8, offset: 93578},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2944, col: 12, offset: 93133},
+																								pos: position{line: 2953, col: 12, offset: 93351},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2944, col: 13, offset: 93134},
+																									pos: position{line: 2953, col: 13, offset: 93352},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 13, offset: 93134},
+																											pos:        position{line: 2953, col: 13, offset: 93352},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 20, offset: 93141},
+																											pos:        position{line: 2953, col: 20, offset: 93359},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 29, offset: 93150},
+																											pos:        position{line: 2953, col: 29, offset: 93368},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33371,9 +33549,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2954, col: 8, offset: 93310},
+																								pos: position{line: 2963, col: 8, offset: 93528},
 																								expr: &anyMatcher{
-																									line: 2954, col: 9, offset: 93311,
+																									line: 2963, col: 9, offset: 93529,
 																								},
 																							},
 																						},
@@ -33438,10 +33616,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 781, col: 8, offset: 25268},
 																							expr: &actionExpr{
-																								pos: position{line: 2935, col: 10, offset: 92962},
+																								pos: position{line: 2944, col: 10, offset: 93180},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2935, col: 10, offset: 92962},
+																									pos:        position{line: 2944, col: 10, offset: 93180},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33450,28 +33628,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33480,9 +33658,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -33498,9 +33676,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2954, col: 8, offset: 93310},
+																	pos: position{line: 2963, col: 8, offset: 93528},
 																	expr: &anyMatcher{
-																		line: 2954, col: 9, offset: 93311,
+																		line: 2963, col: 9, offset: 93529,
 																	},
 																},
 															},
@@ -33556,10 +33734,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 796, col: 8, offset: 25806},
 																	expr: &actionExpr{
-																		pos: position{line: 2935, col: 10, offset: 92962},
+																		pos: position{line: 2944, col: 10, offset: 93180},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2935, col: 10, offset: 92962},
+																			pos:        position{line: 2944, col: 10, offset: 93180},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33568,28 +33746,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2957, col: 8, offset: 93360},
+																	pos: position{line: 2966, col: 8, offset: 93578},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2944, col: 12, offset: 93133},
+																			pos: position{line: 2953, col: 12, offset: 93351},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2944, col: 13, offset: 93134},
+																				pos: position{line: 2953, col: 13, offset: 93352},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 13, offset: 93134},
+																						pos:        position{line: 2953, col: 13, offset: 93352},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 20, offset: 93141},
+																						pos:        position{line: 2953, col: 20, offset: 93359},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 29, offset: 93150},
+																						pos:        position{line: 2953, col: 29, offset: 93368},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33598,9 +33776,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2954, col: 8, offset: 93310},
+																			pos: position{line: 2963, col: 8, offset: 93528},
 																			expr: &anyMatcher{
-																				line: 2954, col: 9, offset: 93311,
+																				line: 2963, col: 9, offset: 93529,
 																			},
 																		},
 																	},
@@ -33672,10 +33850,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 796, col: 8, offset: 25806},
 																											expr: &actionExpr{
-																												pos: position{line: 2935, col: 10, offset: 92962},
+																												pos: position{line: 2944, col: 10, offset: 93180},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2935, col: 10, offset: 92962},
+																													pos:        position{line: 2944, col: 10, offset: 93180},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33684,28 +33862,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2957, col: 8, offset: 93360},
+																											pos: position{line: 2966, col: 8, offset: 93578},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2944, col: 12, offset: 93133},
+																													pos: position{line: 2953, col: 12, offset: 93351},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2944, col: 13, offset: 93134},
+																														pos: position{line: 2953, col: 13, offset: 93352},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 13, offset: 93134},
+																																pos:        position{line: 2953, col: 13, offset: 93352},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 20, offset: 93141},
+																																pos:        position{line: 2953, col: 20, offset: 93359},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 29, offset: 93150},
+																																pos:        position{line: 2953, col: 29, offset: 93368},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33714,9 +33892,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2954, col: 8, offset: 93310},
+																													pos: position{line: 2963, col: 8, offset: 93528},
 																													expr: &anyMatcher{
-																														line: 2954, col: 9, offset: 93311,
+																														line: 2963, col: 9, offset: 93529,
 																													},
 																												},
 																											},
@@ -33732,9 +33910,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -33750,21 +33928,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2952, col: 11, offset: 93296},
+																						pos: position{line: 2961, col: 11, offset: 93514},
 																						expr: &anyMatcher{
-																							line: 2952, col: 13, offset: 93298,
+																							line: 2961, col: 13, offset: 93516,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 13, offset: 91488},
+																							pos: position{line: 2890, col: 13, offset: 91706},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2881, col: 13, offset: 91488},
+																								pos: position{line: 2890, col: 13, offset: 91706},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 13, offset: 91488},
+																									pos:        position{line: 2890, col: 13, offset: 91706},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33774,28 +33952,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2957, col: 8, offset: 93360},
+																						pos: position{line: 2966, col: 8, offset: 93578},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2944, col: 12, offset: 93133},
+																								pos: position{line: 2953, col: 12, offset: 93351},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2944, col: 13, offset: 93134},
+																									pos: position{line: 2953, col: 13, offset: 93352},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 13, offset: 93134},
+																											pos:        position{line: 2953, col: 13, offset: 93352},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 20, offset: 93141},
+																											pos:        position{line: 2953, col: 20, offset: 93359},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 29, offset: 93150},
+																											pos:        position{line: 2953, col: 29, offset: 93368},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33804,9 +33982,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2954, col: 8, offset: 93310},
+																								pos: position{line: 2963, col: 8, offset: 93528},
 																								expr: &anyMatcher{
-																									line: 2954, col: 9, offset: 93311,
+																									line: 2963, col: 9, offset: 93529,
 																								},
 																							},
 																						},
@@ -33871,10 +34049,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 796, col: 8, offset: 25806},
 																							expr: &actionExpr{
-																								pos: position{line: 2935, col: 10, offset: 92962},
+																								pos: position{line: 2944, col: 10, offset: 93180},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2935, col: 10, offset: 92962},
+																									pos:        position{line: 2944, col: 10, offset: 93180},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33883,28 +34061,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33913,9 +34091,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -33931,9 +34109,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2954, col: 8, offset: 93310},
+																	pos: position{line: 2963, col: 8, offset: 93528},
 																	expr: &anyMatcher{
-																		line: 2954, col: 9, offset: 93311,
+																		line: 2963, col: 9, offset: 93529,
 																	},
 																},
 															},
@@ -33989,10 +34167,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 810, col: 8, offset: 26282},
 																	expr: &actionExpr{
-																		pos: position{line: 2935, col: 10, offset: 92962},
+																		pos: position{line: 2944, col: 10, offset: 93180},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2935, col: 10, offset: 92962},
+																			pos:        position{line: 2944, col: 10, offset: 93180},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34001,28 +34179,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2957, col: 8, offset: 93360},
+																	pos: position{line: 2966, col: 8, offset: 93578},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2944, col: 12, offset: 93133},
+																			pos: position{line: 2953, col: 12, offset: 93351},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2944, col: 13, offset: 93134},
+																				pos: position{line: 2953, col: 13, offset: 93352},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 13, offset: 93134},
+																						pos:        position{line: 2953, col: 13, offset: 93352},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 20, offset: 93141},
+																						pos:        position{line: 2953, col: 20, offset: 93359},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 29, offset: 93150},
+																						pos:        position{line: 2953, col: 29, offset: 93368},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34031,9 +34209,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2954, col: 8, offset: 93310},
+																			pos: position{line: 2963, col: 8, offset: 93528},
 																			expr: &anyMatcher{
-																				line: 2954, col: 9, offset: 93311,
+																				line: 2963, col: 9, offset: 93529,
 																			},
 																		},
 																	},
@@ -34105,10 +34283,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 810, col: 8, offset: 26282},
 																											expr: &actionExpr{
-																												pos: position{line: 2935, col: 10, offset: 92962},
+																												pos: position{line: 2944, col: 10, offset: 93180},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2935, col: 10, offset: 92962},
+																													pos:        position{line: 2944, col: 10, offset: 93180},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34117,28 +34295,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2957, col: 8, offset: 93360},
+																											pos: position{line: 2966, col: 8, offset: 93578},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2944, col: 12, offset: 93133},
+																													pos: position{line: 2953, col: 12, offset: 93351},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2944, col: 13, offset: 93134},
+																														pos: position{line: 2953, col: 13, offset: 93352},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 13, offset: 93134},
+																																pos:        position{line: 2953, col: 13, offset: 93352},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 20, offset: 93141},
+																																pos:        position{line: 2953, col: 20, offset: 93359},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 29, offset: 93150},
+																																pos:        position{line: 2953, col: 29, offset: 93368},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34147,9 +34325,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2954, col: 8, offset: 93310},
+																													pos: position{line: 2963, col: 8, offset: 93528},
 																													expr: &anyMatcher{
-																														line: 2954, col: 9, offset: 93311,
+																														line: 2963, col: 9, offset: 93529,
 																													},
 																												},
 																											},
@@ -34165,9 +34343,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -34183,21 +34361,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2952, col: 11, offset: 93296},
+																						pos: position{line: 2961, col: 11, offset: 93514},
 																						expr: &anyMatcher{
-																							line: 2952, col: 13, offset: 93298,
+																							line: 2961, col: 13, offset: 93516,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 13, offset: 91488},
+																							pos: position{line: 2890, col: 13, offset: 91706},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2881, col: 13, offset: 91488},
+																								pos: position{line: 2890, col: 13, offset: 91706},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 13, offset: 91488},
+																									pos:        position{line: 2890, col: 13, offset: 91706},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34207,28 +34385,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2957, col: 8, offset: 93360},
+																						pos: position{line: 2966, col: 8, offset: 93578},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2944, col: 12, offset: 93133},
+																								pos: position{line: 2953, col: 12, offset: 93351},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2944, col: 13, offset: 93134},
+																									pos: position{line: 2953, col: 13, offset: 93352},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 13, offset: 93134},
+																											pos:        position{line: 2953, col: 13, offset: 93352},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 20, offset: 93141},
+																											pos:        position{line: 2953, col: 20, offset: 93359},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 29, offset: 93150},
+																											pos:        position{line: 2953, col: 29, offset: 93368},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34237,9 +34415,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2954, col: 8, offset: 93310},
+																								pos: position{line: 2963, col: 8, offset: 93528},
 																								expr: &anyMatcher{
-																									line: 2954, col: 9, offset: 93311,
+																									line: 2963, col: 9, offset: 93529,
 																								},
 																							},
 																						},
@@ -34304,10 +34482,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 810, col: 8, offset: 26282},
 																							expr: &actionExpr{
-																								pos: position{line: 2935, col: 10, offset: 92962},
+																								pos: position{line: 2944, col: 10, offset: 93180},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2935, col: 10, offset: 92962},
+																									pos:        position{line: 2944, col: 10, offset: 93180},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34316,28 +34494,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34346,9 +34524,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -34364,9 +34542,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2954, col: 8, offset: 93310},
+																	pos: position{line: 2963, col: 8, offset: 93528},
 																	expr: &anyMatcher{
-																		line: 2954, col: 9, offset: 93311,
+																		line: 2963, col: 9, offset: 93529,
 																	},
 																},
 															},
@@ -34400,18 +34578,18 @@ var g = &grammar{
 																			pos: position{line: 702, col: 14, offset: 22577},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2952, col: 11, offset: 93296},
+																					pos: position{line: 2961, col: 11, offset: 93514},
 																					expr: &anyMatcher{
-																						line: 2952, col: 13, offset: 93298,
+																						line: 2961, col: 13, offset: 93516,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 702, col: 21, offset: 22584},
 																					expr: &actionExpr{
-																						pos: position{line: 2935, col: 10, offset: 92962},
+																						pos: position{line: 2944, col: 10, offset: 93180},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2935, col: 10, offset: 92962},
+																							pos:        position{line: 2944, col: 10, offset: 93180},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -34420,28 +34598,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2957, col: 8, offset: 93360},
+																					pos: position{line: 2966, col: 8, offset: 93578},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2944, col: 12, offset: 93133},
+																							pos: position{line: 2953, col: 12, offset: 93351},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2944, col: 13, offset: 93134},
+																								pos: position{line: 2953, col: 13, offset: 93352},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 13, offset: 93134},
+																										pos:        position{line: 2953, col: 13, offset: 93352},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 20, offset: 93141},
+																										pos:        position{line: 2953, col: 20, offset: 93359},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 29, offset: 93150},
+																										pos:        position{line: 2953, col: 29, offset: 93368},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -34450,9 +34628,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2954, col: 8, offset: 93310},
+																							pos: position{line: 2963, col: 8, offset: 93528},
 																							expr: &anyMatcher{
-																								line: 2954, col: 9, offset: 93311,
+																								line: 2963, col: 9, offset: 93529,
 																							},
 																						},
 																					},
@@ -34471,12 +34649,12 @@ var g = &grammar{
 																	pos:   position{line: 1009, col: 5, offset: 31772},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2885, col: 14, offset: 91555},
+																		pos: position{line: 2894, col: 14, offset: 91773},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2885, col: 14, offset: 91555},
+																			pos: position{line: 2894, col: 14, offset: 91773},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2885, col: 14, offset: 91555},
+																				pos:        position{line: 2894, col: 14, offset: 91773},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -34486,28 +34664,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2957, col: 8, offset: 93360},
+																	pos: position{line: 2966, col: 8, offset: 93578},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2944, col: 12, offset: 93133},
+																			pos: position{line: 2953, col: 12, offset: 93351},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2944, col: 13, offset: 93134},
+																				pos: position{line: 2953, col: 13, offset: 93352},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 13, offset: 93134},
+																						pos:        position{line: 2953, col: 13, offset: 93352},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 20, offset: 93141},
+																						pos:        position{line: 2953, col: 20, offset: 93359},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 29, offset: 93150},
+																						pos:        position{line: 2953, col: 29, offset: 93368},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34516,9 +34694,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2954, col: 8, offset: 93310},
+																			pos: position{line: 2963, col: 8, offset: 93528},
 																			expr: &anyMatcher{
-																				line: 2954, col: 9, offset: 93311,
+																				line: 2963, col: 9, offset: 93529,
 																			},
 																		},
 																	},
@@ -34550,18 +34728,18 @@ var g = &grammar{
 																						pos: position{line: 702, col: 14, offset: 22577},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2952, col: 11, offset: 93296},
+																								pos: position{line: 2961, col: 11, offset: 93514},
 																								expr: &anyMatcher{
-																									line: 2952, col: 13, offset: 93298,
+																									line: 2961, col: 13, offset: 93516,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 702, col: 21, offset: 22584},
 																								expr: &actionExpr{
-																									pos: position{line: 2935, col: 10, offset: 92962},
+																									pos: position{line: 2944, col: 10, offset: 93180},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2935, col: 10, offset: 92962},
+																										pos:        position{line: 2944, col: 10, offset: 93180},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34570,28 +34748,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2957, col: 8, offset: 93360},
+																								pos: position{line: 2966, col: 8, offset: 93578},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2944, col: 12, offset: 93133},
+																										pos: position{line: 2953, col: 12, offset: 93351},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2944, col: 13, offset: 93134},
+																											pos: position{line: 2953, col: 13, offset: 93352},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 13, offset: 93134},
+																													pos:        position{line: 2953, col: 13, offset: 93352},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 20, offset: 93141},
+																													pos:        position{line: 2953, col: 20, offset: 93359},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 29, offset: 93150},
+																													pos:        position{line: 2953, col: 29, offset: 93368},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34600,9 +34778,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2954, col: 8, offset: 93310},
+																										pos: position{line: 2963, col: 8, offset: 93528},
 																										expr: &anyMatcher{
-																											line: 2954, col: 9, offset: 93311,
+																											line: 2963, col: 9, offset: 93529,
 																										},
 																									},
 																								},
@@ -34621,12 +34799,12 @@ var g = &grammar{
 																				pos:   position{line: 1009, col: 5, offset: 31772},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2885, col: 14, offset: 91555},
+																					pos: position{line: 2894, col: 14, offset: 91773},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2885, col: 14, offset: 91555},
+																						pos: position{line: 2894, col: 14, offset: 91773},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2885, col: 14, offset: 91555},
+																							pos:        position{line: 2894, col: 14, offset: 91773},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34636,28 +34814,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2957, col: 8, offset: 93360},
+																				pos: position{line: 2966, col: 8, offset: 93578},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2944, col: 12, offset: 93133},
+																						pos: position{line: 2953, col: 12, offset: 93351},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2944, col: 13, offset: 93134},
+																							pos: position{line: 2953, col: 13, offset: 93352},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2944, col: 13, offset: 93134},
+																									pos:        position{line: 2953, col: 13, offset: 93352},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2944, col: 20, offset: 93141},
+																									pos:        position{line: 2953, col: 20, offset: 93359},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2944, col: 29, offset: 93150},
+																									pos:        position{line: 2953, col: 29, offset: 93368},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34666,9 +34844,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2954, col: 8, offset: 93310},
+																						pos: position{line: 2963, col: 8, offset: 93528},
 																						expr: &anyMatcher{
-																							line: 2954, col: 9, offset: 93311,
+																							line: 2963, col: 9, offset: 93529,
 																						},
 																					},
 																				},
@@ -34686,12 +34864,12 @@ var g = &grammar{
 																				pos:   position{line: 1816, col: 5, offset: 58966},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2885, col: 14, offset: 91555},
+																					pos: position{line: 2894, col: 14, offset: 91773},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2885, col: 14, offset: 91555},
+																						pos: position{line: 2894, col: 14, offset: 91773},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2885, col: 14, offset: 91555},
+																							pos:        position{line: 2894, col: 14, offset: 91773},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34705,28 +34883,28 @@ var g = &grammar{
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2957, col: 8, offset: 93360},
+																				pos: position{line: 2966, col: 8, offset: 93578},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2944, col: 12, offset: 93133},
+																						pos: position{line: 2953, col: 12, offset: 93351},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2944, col: 13, offset: 93134},
+																							pos: position{line: 2953, col: 13, offset: 93352},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2944, col: 13, offset: 93134},
+																									pos:        position{line: 2953, col: 13, offset: 93352},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2944, col: 20, offset: 93141},
+																									pos:        position{line: 2953, col: 20, offset: 93359},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2944, col: 29, offset: 93150},
+																									pos:        position{line: 2953, col: 29, offset: 93368},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34735,9 +34913,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2954, col: 8, offset: 93310},
+																						pos: position{line: 2963, col: 8, offset: 93528},
 																						expr: &anyMatcher{
-																							line: 2954, col: 9, offset: 93311,
+																							line: 2963, col: 9, offset: 93529,
 																						},
 																					},
 																				},
@@ -34784,10 +34962,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 803, col: 8, offset: 26037},
 																	expr: &actionExpr{
-																		pos: position{line: 2935, col: 10, offset: 92962},
+																		pos: position{line: 2944, col: 10, offset: 93180},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2935, col: 10, offset: 92962},
+																			pos:        position{line: 2944, col: 10, offset: 93180},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34796,28 +34974,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2957, col: 8, offset: 93360},
+																	pos: position{line: 2966, col: 8, offset: 93578},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2944, col: 12, offset: 93133},
+																			pos: position{line: 2953, col: 12, offset: 93351},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2944, col: 13, offset: 93134},
+																				pos: position{line: 2953, col: 13, offset: 93352},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 13, offset: 93134},
+																						pos:        position{line: 2953, col: 13, offset: 93352},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 20, offset: 93141},
+																						pos:        position{line: 2953, col: 20, offset: 93359},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 29, offset: 93150},
+																						pos:        position{line: 2953, col: 29, offset: 93368},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34826,9 +35004,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2954, col: 8, offset: 93310},
+																			pos: position{line: 2963, col: 8, offset: 93528},
 																			expr: &anyMatcher{
-																				line: 2954, col: 9, offset: 93311,
+																				line: 2963, col: 9, offset: 93529,
 																			},
 																		},
 																	},
@@ -34876,10 +35054,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 803, col: 8, offset: 26037},
 																								expr: &actionExpr{
-																									pos: position{line: 2935, col: 10, offset: 92962},
+																									pos: position{line: 2944, col: 10, offset: 93180},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2935, col: 10, offset: 92962},
+																										pos:        position{line: 2944, col: 10, offset: 93180},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34888,28 +35066,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2957, col: 8, offset: 93360},
+																								pos: position{line: 2966, col: 8, offset: 93578},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2944, col: 12, offset: 93133},
+																										pos: position{line: 2953, col: 12, offset: 93351},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2944, col: 13, offset: 93134},
+																											pos: position{line: 2953, col: 13, offset: 93352},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 13, offset: 93134},
+																													pos:        position{line: 2953, col: 13, offset: 93352},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 20, offset: 93141},
+																													pos:        position{line: 2953, col: 20, offset: 93359},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2944, col: 29, offset: 93150},
+																													pos:        position{line: 2953, col: 29, offset: 93368},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34918,9 +35096,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2954, col: 8, offset: 93310},
+																										pos: position{line: 2963, col: 8, offset: 93528},
 																										expr: &anyMatcher{
-																											line: 2954, col: 9, offset: 93311,
+																											line: 2963, col: 9, offset: 93529,
 																										},
 																									},
 																								},
@@ -34929,9 +35107,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -34947,21 +35125,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2952, col: 11, offset: 93296},
+																						pos: position{line: 2961, col: 11, offset: 93514},
 																						expr: &anyMatcher{
-																							line: 2952, col: 13, offset: 93298,
+																							line: 2961, col: 13, offset: 93516,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 13, offset: 91488},
+																							pos: position{line: 2890, col: 13, offset: 91706},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2881, col: 13, offset: 91488},
+																								pos: position{line: 2890, col: 13, offset: 91706},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 13, offset: 91488},
+																									pos:        position{line: 2890, col: 13, offset: 91706},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34971,28 +35149,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2957, col: 8, offset: 93360},
+																						pos: position{line: 2966, col: 8, offset: 93578},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2944, col: 12, offset: 93133},
+																								pos: position{line: 2953, col: 12, offset: 93351},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2944, col: 13, offset: 93134},
+																									pos: position{line: 2953, col: 13, offset: 93352},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 13, offset: 93134},
+																											pos:        position{line: 2953, col: 13, offset: 93352},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 20, offset: 93141},
+																											pos:        position{line: 2953, col: 20, offset: 93359},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 29, offset: 93150},
+																											pos:        position{line: 2953, col: 29, offset: 93368},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35001,9 +35179,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2954, col: 8, offset: 93310},
+																								pos: position{line: 2963, col: 8, offset: 93528},
 																								expr: &anyMatcher{
-																									line: 2954, col: 9, offset: 93311,
+																									line: 2963, col: 9, offset: 93529,
 																								},
 																							},
 																						},
@@ -35048,10 +35226,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 803, col: 8, offset: 26037},
 																				expr: &actionExpr{
-																					pos: position{line: 2935, col: 10, offset: 92962},
+																					pos: position{line: 2944, col: 10, offset: 93180},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2935, col: 10, offset: 92962},
+																						pos:        position{line: 2944, col: 10, offset: 93180},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35060,28 +35238,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2957, col: 8, offset: 93360},
+																				pos: position{line: 2966, col: 8, offset: 93578},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2944, col: 12, offset: 93133},
+																						pos: position{line: 2953, col: 12, offset: 93351},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2944, col: 13, offset: 93134},
+																							pos: position{line: 2953, col: 13, offset: 93352},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2944, col: 13, offset: 93134},
+																									pos:        position{line: 2953, col: 13, offset: 93352},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2944, col: 20, offset: 93141},
+																									pos:        position{line: 2953, col: 20, offset: 93359},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2944, col: 29, offset: 93150},
+																									pos:        position{line: 2953, col: 29, offset: 93368},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35090,9 +35268,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2954, col: 8, offset: 93310},
+																						pos: position{line: 2963, col: 8, offset: 93528},
 																						expr: &anyMatcher{
-																							line: 2954, col: 9, offset: 93311,
+																							line: 2963, col: 9, offset: 93529,
 																						},
 																					},
 																				},
@@ -35101,9 +35279,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2954, col: 8, offset: 93310},
+																	pos: position{line: 2963, col: 8, offset: 93528},
 																	expr: &anyMatcher{
-																		line: 2954, col: 9, offset: 93311,
+																		line: 2963, col: 9, offset: 93529,
 																	},
 																},
 															},
@@ -35159,10 +35337,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 817, col: 8, offset: 26534},
 																	expr: &actionExpr{
-																		pos: position{line: 2935, col: 10, offset: 92962},
+																		pos: position{line: 2944, col: 10, offset: 93180},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2935, col: 10, offset: 92962},
+																			pos:        position{line: 2944, col: 10, offset: 93180},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35171,28 +35349,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2957, col: 8, offset: 93360},
+																	pos: position{line: 2966, col: 8, offset: 93578},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2944, col: 12, offset: 93133},
+																			pos: position{line: 2953, col: 12, offset: 93351},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2944, col: 13, offset: 93134},
+																				pos: position{line: 2953, col: 13, offset: 93352},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 13, offset: 93134},
+																						pos:        position{line: 2953, col: 13, offset: 93352},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 20, offset: 93141},
+																						pos:        position{line: 2953, col: 20, offset: 93359},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 29, offset: 93150},
+																						pos:        position{line: 2953, col: 29, offset: 93368},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35201,9 +35379,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2954, col: 8, offset: 93310},
+																			pos: position{line: 2963, col: 8, offset: 93528},
 																			expr: &anyMatcher{
-																				line: 2954, col: 9, offset: 93311,
+																				line: 2963, col: 9, offset: 93529,
 																			},
 																		},
 																	},
@@ -35275,10 +35453,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 817, col: 8, offset: 26534},
 																											expr: &actionExpr{
-																												pos: position{line: 2935, col: 10, offset: 92962},
+																												pos: position{line: 2944, col: 10, offset: 93180},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2935, col: 10, offset: 92962},
+																													pos:        position{line: 2944, col: 10, offset: 93180},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35287,28 +35465,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2957, col: 8, offset: 93360},
+																											pos: position{line: 2966, col: 8, offset: 93578},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2944, col: 12, offset: 93133},
+																													pos: position{line: 2953, col: 12, offset: 93351},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2944, col: 13, offset: 93134},
+																														pos: position{line: 2953, col: 13, offset: 93352},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 13, offset: 93134},
+																																pos:        position{line: 2953, col: 13, offset: 93352},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 20, offset: 93141},
+																																pos:        position{line: 2953, col: 20, offset: 93359},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 29, offset: 93150},
+																																pos:        position{line: 2953, col: 29, offset: 93368},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35317,9 +35495,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2954, col: 8, offset: 93310},
+																													pos: position{line: 2963, col: 8, offset: 93528},
 																													expr: &anyMatcher{
-																														line: 2954, col: 9, offset: 93311,
+																														line: 2963, col: 9, offset: 93529,
 																													},
 																												},
 																											},
@@ -35335,9 +35513,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -35353,21 +35531,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2952, col: 11, offset: 93296},
+																						pos: position{line: 2961, col: 11, offset: 93514},
 																						expr: &anyMatcher{
-																							line: 2952, col: 13, offset: 93298,
+																							line: 2961, col: 13, offset: 93516,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 13, offset: 91488},
+																							pos: position{line: 2890, col: 13, offset: 91706},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2881, col: 13, offset: 91488},
+																								pos: position{line: 2890, col: 13, offset: 91706},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 13, offset: 91488},
+																									pos:        position{line: 2890, col: 13, offset: 91706},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35377,28 +35555,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2957, col: 8, offset: 93360},
+																						pos: position{line: 2966, col: 8, offset: 93578},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2944, col: 12, offset: 93133},
+																								pos: position{line: 2953, col: 12, offset: 93351},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2944, col: 13, offset: 93134},
+																									pos: position{line: 2953, col: 13, offset: 93352},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 13, offset: 93134},
+																											pos:        position{line: 2953, col: 13, offset: 93352},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 20, offset: 93141},
+																											pos:        position{line: 2953, col: 20, offset: 93359},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 29, offset: 93150},
+																											pos:        position{line: 2953, col: 29, offset: 93368},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35407,9 +35585,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2954, col: 8, offset: 93310},
+																								pos: position{line: 2963, col: 8, offset: 93528},
 																								expr: &anyMatcher{
-																									line: 2954, col: 9, offset: 93311,
+																									line: 2963, col: 9, offset: 93529,
 																								},
 																							},
 																						},
@@ -35474,10 +35652,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 817, col: 8, offset: 26534},
 																							expr: &actionExpr{
-																								pos: position{line: 2935, col: 10, offset: 92962},
+																								pos: position{line: 2944, col: 10, offset: 93180},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2935, col: 10, offset: 92962},
+																									pos:        position{line: 2944, col: 10, offset: 93180},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35486,28 +35664,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35516,9 +35694,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -35534,9 +35712,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2954, col: 8, offset: 93310},
+																	pos: position{line: 2963, col: 8, offset: 93528},
 																	expr: &anyMatcher{
-																		line: 2954, col: 9, offset: 93311,
+																		line: 2963, col: 9, offset: 93529,
 																	},
 																},
 															},
@@ -35592,10 +35770,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 824, col: 8, offset: 26784},
 																	expr: &actionExpr{
-																		pos: position{line: 2935, col: 10, offset: 92962},
+																		pos: position{line: 2944, col: 10, offset: 93180},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2935, col: 10, offset: 92962},
+																			pos:        position{line: 2944, col: 10, offset: 93180},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35604,28 +35782,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2957, col: 8, offset: 93360},
+																	pos: position{line: 2966, col: 8, offset: 93578},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2944, col: 12, offset: 93133},
+																			pos: position{line: 2953, col: 12, offset: 93351},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2944, col: 13, offset: 93134},
+																				pos: position{line: 2953, col: 13, offset: 93352},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 13, offset: 93134},
+																						pos:        position{line: 2953, col: 13, offset: 93352},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 20, offset: 93141},
+																						pos:        position{line: 2953, col: 20, offset: 93359},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 29, offset: 93150},
+																						pos:        position{line: 2953, col: 29, offset: 93368},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35634,9 +35812,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2954, col: 8, offset: 93310},
+																			pos: position{line: 2963, col: 8, offset: 93528},
 																			expr: &anyMatcher{
-																				line: 2954, col: 9, offset: 93311,
+																				line: 2963, col: 9, offset: 93529,
 																			},
 																		},
 																	},
@@ -35708,10 +35886,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 824, col: 8, offset: 26784},
 																											expr: &actionExpr{
-																												pos: position{line: 2935, col: 10, offset: 92962},
+																												pos: position{line: 2944, col: 10, offset: 93180},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2935, col: 10, offset: 92962},
+																													pos:        position{line: 2944, col: 10, offset: 93180},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35720,28 +35898,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2957, col: 8, offset: 93360},
+																											pos: position{line: 2966, col: 8, offset: 93578},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2944, col: 12, offset: 93133},
+																													pos: position{line: 2953, col: 12, offset: 93351},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2944, col: 13, offset: 93134},
+																														pos: position{line: 2953, col: 13, offset: 93352},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 13, offset: 93134},
+																																pos:        position{line: 2953, col: 13, offset: 93352},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 20, offset: 93141},
+																																pos:        position{line: 2953, col: 20, offset: 93359},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 29, offset: 93150},
+																																pos:        position{line: 2953, col: 29, offset: 93368},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35750,9 +35928,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2954, col: 8, offset: 93310},
+																													pos: position{line: 2963, col: 8, offset: 93528},
 																													expr: &anyMatcher{
-																														line: 2954, col: 9, offset: 93311,
+																														line: 2963, col: 9, offset: 93529,
 																													},
 																												},
 																											},
@@ -35768,9 +35946,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -35786,21 +35964,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2952, col: 11, offset: 93296},
+																						pos: position{line: 2961, col: 11, offset: 93514},
 																						expr: &anyMatcher{
-																							line: 2952, col: 13, offset: 93298,
+																							line: 2961, col: 13, offset: 93516,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 13, offset: 91488},
+																							pos: position{line: 2890, col: 13, offset: 91706},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2881, col: 13, offset: 91488},
+																								pos: position{line: 2890, col: 13, offset: 91706},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 13, offset: 91488},
+																									pos:        position{line: 2890, col: 13, offset: 91706},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35810,28 +35988,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2957, col: 8, offset: 93360},
+																						pos: position{line: 2966, col: 8, offset: 93578},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2944, col: 12, offset: 93133},
+																								pos: position{line: 2953, col: 12, offset: 93351},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2944, col: 13, offset: 93134},
+																									pos: position{line: 2953, col: 13, offset: 93352},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 13, offset: 93134},
+																											pos:        position{line: 2953, col: 13, offset: 93352},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 20, offset: 93141},
+																											pos:        position{line: 2953, col: 20, offset: 93359},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 29, offset: 93150},
+																											pos:        position{line: 2953, col: 29, offset: 93368},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35840,9 +36018,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2954, col: 8, offset: 93310},
+																								pos: position{line: 2963, col: 8, offset: 93528},
 																								expr: &anyMatcher{
-																									line: 2954, col: 9, offset: 93311,
+																									line: 2963, col: 9, offset: 93529,
 																								},
 																							},
 																						},
@@ -35907,10 +36085,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 824, col: 8, offset: 26784},
 																							expr: &actionExpr{
-																								pos: position{line: 2935, col: 10, offset: 92962},
+																								pos: position{line: 2944, col: 10, offset: 93180},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2935, col: 10, offset: 92962},
+																									pos:        position{line: 2944, col: 10, offset: 93180},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35919,28 +36097,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35949,9 +36127,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -35967,9 +36145,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2954, col: 8, offset: 93310},
+																	pos: position{line: 2963, col: 8, offset: 93528},
 																	expr: &anyMatcher{
-																		line: 2954, col: 9, offset: 93311,
+																		line: 2963, col: 9, offset: 93529,
 																	},
 																},
 															},
@@ -36025,10 +36203,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 831, col: 8, offset: 27030},
 																	expr: &actionExpr{
-																		pos: position{line: 2935, col: 10, offset: 92962},
+																		pos: position{line: 2944, col: 10, offset: 93180},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2935, col: 10, offset: 92962},
+																			pos:        position{line: 2944, col: 10, offset: 93180},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36037,28 +36215,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2957, col: 8, offset: 93360},
+																	pos: position{line: 2966, col: 8, offset: 93578},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2944, col: 12, offset: 93133},
+																			pos: position{line: 2953, col: 12, offset: 93351},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2944, col: 13, offset: 93134},
+																				pos: position{line: 2953, col: 13, offset: 93352},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 13, offset: 93134},
+																						pos:        position{line: 2953, col: 13, offset: 93352},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 20, offset: 93141},
+																						pos:        position{line: 2953, col: 20, offset: 93359},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 29, offset: 93150},
+																						pos:        position{line: 2953, col: 29, offset: 93368},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36067,9 +36245,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2954, col: 8, offset: 93310},
+																			pos: position{line: 2963, col: 8, offset: 93528},
 																			expr: &anyMatcher{
-																				line: 2954, col: 9, offset: 93311,
+																				line: 2963, col: 9, offset: 93529,
 																			},
 																		},
 																	},
@@ -36141,10 +36319,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 831, col: 8, offset: 27030},
 																											expr: &actionExpr{
-																												pos: position{line: 2935, col: 10, offset: 92962},
+																												pos: position{line: 2944, col: 10, offset: 93180},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2935, col: 10, offset: 92962},
+																													pos:        position{line: 2944, col: 10, offset: 93180},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36153,28 +36331,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2957, col: 8, offset: 93360},
+																											pos: position{line: 2966, col: 8, offset: 93578},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2944, col: 12, offset: 93133},
+																													pos: position{line: 2953, col: 12, offset: 93351},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2944, col: 13, offset: 93134},
+																														pos: position{line: 2953, col: 13, offset: 93352},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 13, offset: 93134},
+																																pos:        position{line: 2953, col: 13, offset: 93352},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 20, offset: 93141},
+																																pos:        position{line: 2953, col: 20, offset: 93359},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 29, offset: 93150},
+																																pos:        position{line: 2953, col: 29, offset: 93368},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36183,9 +36361,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2954, col: 8, offset: 93310},
+																													pos: position{line: 2963, col: 8, offset: 93528},
 																													expr: &anyMatcher{
-																														line: 2954, col: 9, offset: 93311,
+																														line: 2963, col: 9, offset: 93529,
 																													},
 																												},
 																											},
@@ -36201,9 +36379,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -36219,21 +36397,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27176},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2952, col: 11, offset: 93296},
+																						pos: position{line: 2961, col: 11, offset: 93514},
 																						expr: &anyMatcher{
-																							line: 2952, col: 13, offset: 93298,
+																							line: 2961, col: 13, offset: 93516,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27251},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 13, offset: 91488},
+																							pos: position{line: 2890, col: 13, offset: 91706},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2881, col: 13, offset: 91488},
+																								pos: position{line: 2890, col: 13, offset: 91706},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 13, offset: 91488},
+																									pos:        position{line: 2890, col: 13, offset: 91706},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36243,28 +36421,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2957, col: 8, offset: 93360},
+																						pos: position{line: 2966, col: 8, offset: 93578},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2944, col: 12, offset: 93133},
+																								pos: position{line: 2953, col: 12, offset: 93351},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2944, col: 13, offset: 93134},
+																									pos: position{line: 2953, col: 13, offset: 93352},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 13, offset: 93134},
+																											pos:        position{line: 2953, col: 13, offset: 93352},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 20, offset: 93141},
+																											pos:        position{line: 2953, col: 20, offset: 93359},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 29, offset: 93150},
+																											pos:        position{line: 2953, col: 29, offset: 93368},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36273,9 +36451,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2954, col: 8, offset: 93310},
+																								pos: position{line: 2963, col: 8, offset: 93528},
 																								expr: &anyMatcher{
-																									line: 2954, col: 9, offset: 93311,
+																									line: 2963, col: 9, offset: 93529,
 																								},
 																							},
 																						},
@@ -36340,10 +36518,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 831, col: 8, offset: 27030},
 																							expr: &actionExpr{
-																								pos: position{line: 2935, col: 10, offset: 92962},
+																								pos: position{line: 2944, col: 10, offset: 93180},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2935, col: 10, offset: 92962},
+																									pos:        position{line: 2944, col: 10, offset: 93180},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36352,28 +36530,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2957, col: 8, offset: 93360},
+																							pos: position{line: 2966, col: 8, offset: 93578},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2944, col: 12, offset: 93133},
+																									pos: position{line: 2953, col: 12, offset: 93351},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2944, col: 13, offset: 93134},
+																										pos: position{line: 2953, col: 13, offset: 93352},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 13, offset: 93134},
+																												pos:        position{line: 2953, col: 13, offset: 93352},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 20, offset: 93141},
+																												pos:        position{line: 2953, col: 20, offset: 93359},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2944, col: 29, offset: 93150},
+																												pos:        position{line: 2953, col: 29, offset: 93368},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36382,9 +36560,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2954, col: 8, offset: 93310},
+																									pos: position{line: 2963, col: 8, offset: 93528},
 																									expr: &anyMatcher{
-																										line: 2954, col: 9, offset: 93311,
+																										line: 2963, col: 9, offset: 93529,
 																									},
 																								},
 																							},
@@ -36400,9 +36578,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2954, col: 8, offset: 93310},
+																	pos: position{line: 2963, col: 8, offset: 93528},
 																	expr: &anyMatcher{
-																		line: 2954, col: 9, offset: 93311,
+																		line: 2963, col: 9, offset: 93529,
 																	},
 																},
 															},
@@ -36413,52 +36591,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2780, col: 18, offset: 88552},
+										pos: position{line: 2789, col: 18, offset: 88770},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2780, col: 18, offset: 88552},
+											pos: position{line: 2789, col: 18, offset: 88770},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2781, col: 9, offset: 88562},
+													pos: position{line: 2790, col: 9, offset: 88780},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2781, col: 9, offset: 88562},
+															pos:        position{line: 2790, col: 9, offset: 88780},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2782, col: 11, offset: 88598},
+															pos:        position{line: 2791, col: 11, offset: 88816},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2782, col: 19, offset: 88606},
+															pos:        position{line: 2791, col: 19, offset: 88824},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2782, col: 29, offset: 88616},
+															pos:        position{line: 2791, col: 29, offset: 88834},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2782, col: 37, offset: 88624},
+															pos:        position{line: 2791, col: 37, offset: 88842},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2782, col: 47, offset: 88634},
+															pos:        position{line: 2791, col: 47, offset: 88852},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2782, col: 55, offset: 88642},
+															pos:        position{line: 2791, col: 55, offset: 88860},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -36466,12 +36644,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2783, col: 11, offset: 88700},
+													pos: position{line: 2792, col: 11, offset: 88918},
 													expr: &actionExpr{
-														pos: position{line: 2935, col: 10, offset: 92962},
+														pos: position{line: 2944, col: 10, offset: 93180},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2935, col: 10, offset: 92962},
+															pos:        position{line: 2944, col: 10, offset: 93180},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36480,28 +36658,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2957, col: 8, offset: 93360},
+													pos: position{line: 2966, col: 8, offset: 93578},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2944, col: 12, offset: 93133},
+															pos: position{line: 2953, col: 12, offset: 93351},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2944, col: 13, offset: 93134},
+																pos: position{line: 2953, col: 13, offset: 93352},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 13, offset: 93134},
+																		pos:        position{line: 2953, col: 13, offset: 93352},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 20, offset: 93141},
+																		pos:        position{line: 2953, col: 20, offset: 93359},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 29, offset: 93150},
+																		pos:        position{line: 2953, col: 29, offset: 93368},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36510,36 +36688,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2954, col: 8, offset: 93310},
+															pos: position{line: 2963, col: 8, offset: 93528},
 															expr: &anyMatcher{
-																line: 2954, col: 9, offset: 93311,
+																line: 2963, col: 9, offset: 93529,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2957, col: 8, offset: 93360},
+													pos: position{line: 2966, col: 8, offset: 93578},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2944, col: 12, offset: 93133},
+															pos: position{line: 2953, col: 12, offset: 93351},
 															run: (*parser).callonListContinuationElement1319,
 															expr: &choiceExpr{
-																pos: position{line: 2944, col: 13, offset: 93134},
+																pos: position{line: 2953, col: 13, offset: 93352},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 13, offset: 93134},
+																		pos:        position{line: 2953, col: 13, offset: 93352},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 20, offset: 93141},
+																		pos:        position{line: 2953, col: 20, offset: 93359},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 29, offset: 93150},
+																		pos:        position{line: 2953, col: 29, offset: 93368},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36548,9 +36726,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2954, col: 8, offset: 93310},
+															pos: position{line: 2963, col: 8, offset: 93528},
 															expr: &anyMatcher{
-																line: 2954, col: 9, offset: 93311,
+																line: 2963, col: 9, offset: 93529,
 															},
 														},
 													},
@@ -36577,10 +36755,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 2670, col: 26, offset: 85493},
 													expr: &actionExpr{
-														pos: position{line: 2935, col: 10, offset: 92962},
+														pos: position{line: 2944, col: 10, offset: 93180},
 														run: (*parser).callonListContinuationElement1331,
 														expr: &charClassMatcher{
-															pos:        position{line: 2935, col: 10, offset: 92962},
+															pos:        position{line: 2944, col: 10, offset: 93180},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36589,28 +36767,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2957, col: 8, offset: 93360},
+													pos: position{line: 2966, col: 8, offset: 93578},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2944, col: 12, offset: 93133},
+															pos: position{line: 2953, col: 12, offset: 93351},
 															run: (*parser).callonListContinuationElement1334,
 															expr: &choiceExpr{
-																pos: position{line: 2944, col: 13, offset: 93134},
+																pos: position{line: 2953, col: 13, offset: 93352},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 13, offset: 93134},
+																		pos:        position{line: 2953, col: 13, offset: 93352},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 20, offset: 93141},
+																		pos:        position{line: 2953, col: 20, offset: 93359},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 29, offset: 93150},
+																		pos:        position{line: 2953, col: 29, offset: 93368},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36619,9 +36797,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2954, col: 8, offset: 93310},
+															pos: position{line: 2963, col: 8, offset: 93528},
 															expr: &anyMatcher{
-																line: 2954, col: 9, offset: 93311,
+																line: 2963, col: 9, offset: 93529,
 															},
 														},
 													},
@@ -36641,18 +36819,18 @@ var g = &grammar{
 																		pos: position{line: 702, col: 14, offset: 22577},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2952, col: 11, offset: 93296},
+																				pos: position{line: 2961, col: 11, offset: 93514},
 																				expr: &anyMatcher{
-																					line: 2952, col: 13, offset: 93298,
+																					line: 2961, col: 13, offset: 93516,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 702, col: 21, offset: 22584},
 																				expr: &actionExpr{
-																					pos: position{line: 2935, col: 10, offset: 92962},
+																					pos: position{line: 2944, col: 10, offset: 93180},
 																					run: (*parser).callonListContinuationElement1349,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2935, col: 10, offset: 92962},
+																						pos:        position{line: 2944, col: 10, offset: 93180},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36661,28 +36839,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2957, col: 8, offset: 93360},
+																				pos: position{line: 2966, col: 8, offset: 93578},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2944, col: 12, offset: 93133},
+																						pos: position{line: 2953, col: 12, offset: 93351},
 																						run: (*parser).callonListContinuationElement1352,
 																						expr: &choiceExpr{
-																							pos: position{line: 2944, col: 13, offset: 93134},
+																							pos: position{line: 2953, col: 13, offset: 93352},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2944, col: 13, offset: 93134},
+																									pos:        position{line: 2953, col: 13, offset: 93352},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2944, col: 20, offset: 93141},
+																									pos:        position{line: 2953, col: 20, offset: 93359},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2944, col: 29, offset: 93150},
+																									pos:        position{line: 2953, col: 29, offset: 93368},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36691,9 +36869,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2954, col: 8, offset: 93310},
+																						pos: position{line: 2963, col: 8, offset: 93528},
 																						expr: &anyMatcher{
-																							line: 2954, col: 9, offset: 93311,
+																							line: 2963, col: 9, offset: 93529,
 																						},
 																					},
 																				},
@@ -36726,12 +36904,12 @@ var g = &grammar{
 																				pos:   position{line: 2538, col: 49, offset: 81767},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2881, col: 13, offset: 91488},
+																					pos: position{line: 2890, col: 13, offset: 91706},
 																					run: (*parser).callonListContinuationElement1365,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2881, col: 13, offset: 91488},
+																						pos: position{line: 2890, col: 13, offset: 91706},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2881, col: 13, offset: 91488},
+																							pos:        position{line: 2890, col: 13, offset: 91706},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -36741,28 +36919,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2957, col: 8, offset: 93360},
+																				pos: position{line: 2966, col: 8, offset: 93578},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2944, col: 12, offset: 93133},
+																						pos: position{line: 2953, col: 12, offset: 93351},
 																						run: (*parser).callonListContinuationElement1369,
 																						expr: &choiceExpr{
-																							pos: position{line: 2944, col: 13, offset: 93134},
+																							pos: position{line: 2953, col: 13, offset: 93352},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2944, col: 13, offset: 93134},
+																									pos:        position{line: 2953, col: 13, offset: 93352},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2944, col: 20, offset: 93141},
+																									pos:        position{line: 2953, col: 20, offset: 93359},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2944, col: 29, offset: 93150},
+																									pos:        position{line: 2953, col: 29, offset: 93368},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36771,9 +36949,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2954, col: 8, offset: 93310},
+																						pos: position{line: 2963, col: 8, offset: 93528},
 																						expr: &anyMatcher{
-																							line: 2954, col: 9, offset: 93311,
+																							line: 2963, col: 9, offset: 93529,
 																						},
 																					},
 																				},
@@ -36804,10 +36982,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 2670, col: 26, offset: 85493},
 																									expr: &actionExpr{
-																										pos: position{line: 2935, col: 10, offset: 92962},
+																										pos: position{line: 2944, col: 10, offset: 93180},
 																										run: (*parser).callonListContinuationElement1383,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2935, col: 10, offset: 92962},
+																											pos:        position{line: 2944, col: 10, offset: 93180},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36816,28 +36994,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2957, col: 8, offset: 93360},
+																									pos: position{line: 2966, col: 8, offset: 93578},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2944, col: 12, offset: 93133},
+																											pos: position{line: 2953, col: 12, offset: 93351},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &choiceExpr{
-																												pos: position{line: 2944, col: 13, offset: 93134},
+																												pos: position{line: 2953, col: 13, offset: 93352},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 13, offset: 93134},
+																														pos:        position{line: 2953, col: 13, offset: 93352},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 20, offset: 93141},
+																														pos:        position{line: 2953, col: 20, offset: 93359},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2944, col: 29, offset: 93150},
+																														pos:        position{line: 2953, col: 29, offset: 93368},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36846,9 +37024,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2954, col: 8, offset: 93310},
+																											pos: position{line: 2963, col: 8, offset: 93528},
 																											expr: &anyMatcher{
-																												line: 2954, col: 9, offset: 93311,
+																												line: 2963, col: 9, offset: 93529,
 																											},
 																										},
 																									},
@@ -36856,9 +37034,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2954, col: 8, offset: 93310},
+																							pos: position{line: 2963, col: 8, offset: 93528},
 																							expr: &anyMatcher{
-																								line: 2954, col: 9, offset: 93311,
+																								line: 2963, col: 9, offset: 93529,
 																							},
 																						},
 																					},
@@ -36905,10 +37083,10 @@ var g = &grammar{
 																																		&zeroOrMoreExpr{
 																																			pos: position{line: 2692, col: 9, offset: 85935},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2935, col: 10, offset: 92962},
+																																				pos: position{line: 2944, col: 10, offset: 93180},
 																																				run: (*parser).callonListContinuationElement1408,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2935, col: 10, offset: 92962},
+																																					pos:        position{line: 2944, col: 10, offset: 93180},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36948,28 +37126,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2957, col: 8, offset: 93360},
+																														pos: position{line: 2966, col: 8, offset: 93578},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2944, col: 12, offset: 93133},
+																																pos: position{line: 2953, col: 12, offset: 93351},
 																																run: (*parser).callonListContinuationElement1417,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2944, col: 13, offset: 93134},
+																																	pos: position{line: 2953, col: 13, offset: 93352},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2944, col: 13, offset: 93134},
+																																			pos:        position{line: 2953, col: 13, offset: 93352},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2944, col: 20, offset: 93141},
+																																			pos:        position{line: 2953, col: 20, offset: 93359},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2944, col: 29, offset: 93150},
+																																			pos:        position{line: 2953, col: 29, offset: 93368},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36978,9 +37156,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2954, col: 8, offset: 93310},
+																																pos: position{line: 2963, col: 8, offset: 93528},
 																																expr: &anyMatcher{
-																																	line: 2954, col: 9, offset: 93311,
+																																	line: 2963, col: 9, offset: 93529,
 																																},
 																															},
 																														},
@@ -37019,10 +37197,10 @@ var g = &grammar{
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 2670, col: 26, offset: 85493},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2935, col: 10, offset: 92962},
+																																							pos: position{line: 2944, col: 10, offset: 93180},
 																																							run: (*parser).callonListContinuationElement1434,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2935, col: 10, offset: 92962},
+																																								pos:        position{line: 2944, col: 10, offset: 93180},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -37031,28 +37209,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2957, col: 8, offset: 93360},
+																																						pos: position{line: 2966, col: 8, offset: 93578},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2944, col: 12, offset: 93133},
+																																								pos: position{line: 2953, col: 12, offset: 93351},
 																																								run: (*parser).callonListContinuationElement1437,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2944, col: 13, offset: 93134},
+																																									pos: position{line: 2953, col: 13, offset: 93352},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2944, col: 13, offset: 93134},
+																																											pos:        position{line: 2953, col: 13, offset: 93352},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2944, col: 20, offset: 93141},
+																																											pos:        position{line: 2953, col: 20, offset: 93359},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2944, col: 29, offset: 93150},
+																																											pos:        position{line: 2953, col: 29, offset: 93368},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -37061,9 +37239,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2954, col: 8, offset: 93310},
+																																								pos: position{line: 2963, col: 8, offset: 93528},
 																																								expr: &anyMatcher{
-																																									line: 2954, col: 9, offset: 93311,
+																																									line: 2963, col: 9, offset: 93529,
 																																								},
 																																							},
 																																						},
@@ -37071,9 +37249,9 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2954, col: 8, offset: 93310},
+																																				pos: position{line: 2963, col: 8, offset: 93528},
 																																				expr: &anyMatcher{
-																																					line: 2954, col: 9, offset: 93311,
+																																					line: 2963, col: 9, offset: 93529,
 																																				},
 																																			},
 																																		},
@@ -37088,18 +37266,18 @@ var g = &grammar{
 																																			pos: position{line: 702, col: 14, offset: 22577},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2952, col: 11, offset: 93296},
+																																					pos: position{line: 2961, col: 11, offset: 93514},
 																																					expr: &anyMatcher{
-																																						line: 2952, col: 13, offset: 93298,
+																																						line: 2961, col: 13, offset: 93516,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 702, col: 21, offset: 22584},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2935, col: 10, offset: 92962},
+																																						pos: position{line: 2944, col: 10, offset: 93180},
 																																						run: (*parser).callonListContinuationElement1452,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2935, col: 10, offset: 92962},
+																																							pos:        position{line: 2944, col: 10, offset: 93180},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -37108,28 +37286,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2957, col: 8, offset: 93360},
+																																					pos: position{line: 2966, col: 8, offset: 93578},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2944, col: 12, offset: 93133},
+																																							pos: position{line: 2953, col: 12, offset: 93351},
 																																							run: (*parser).callonListContinuationElement1455,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2944, col: 13, offset: 93134},
+																																								pos: position{line: 2953, col: 13, offset: 93352},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2944, col: 13, offset: 93134},
+																																										pos:        position{line: 2953, col: 13, offset: 93352},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2944, col: 20, offset: 93141},
+																																										pos:        position{line: 2953, col: 20, offset: 93359},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2944, col: 29, offset: 93150},
+																																										pos:        position{line: 2953, col: 29, offset: 93368},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -37138,9 +37316,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2954, col: 8, offset: 93310},
+																																							pos: position{line: 2963, col: 8, offset: 93528},
 																																							expr: &anyMatcher{
-																																								line: 2954, col: 9, offset: 93311,
+																																								line: 2963, col: 9, offset: 93529,
 																																							},
 																																						},
 																																					},
@@ -37155,16 +37333,105 @@ var g = &grammar{
 																																	expr: &zeroOrOneExpr{
 																																		pos: position{line: 2711, col: 12, offset: 86414},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2735, col: 20, offset: 87037},
+																																			pos: position{line: 2736, col: 5, offset: 87042},
 																																			run: (*parser).callonListContinuationElement1464,
-																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2735, col: 20, offset: 87037},
-																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2735, col: 20, offset: 87037},
-																																					val:        "[^ |\\r\\n]",
-																																					chars:      []rune{' ', '|', '\r', '\n'},
-																																					ignoreCase: false,
-																																					inverted:   true,
+																																			expr: &seqExpr{
+																																				pos: position{line: 2736, col: 5, offset: 87042},
+																																				exprs: []interface{}{
+																																					&actionExpr{
+																																						pos: position{line: 2736, col: 6, offset: 87043},
+																																						run: (*parser).callonListContinuationElement1466,
+																																						expr: &litMatcher{
+																																							pos:        position{line: 2736, col: 6, offset: 87043},
+																																							val:        "",
+																																							ignoreCase: false,
+																																							want:       "\"\"",
+																																						},
+																																					},
+																																					&andCodeExpr{
+																																						pos: position{line: 2739, col: 5, offset: 87114},
+																																						run: (*parser).callonListContinuationElement1468,
+																																					},
+																																					&labeledExpr{
+																																						pos:   position{line: 2742, col: 5, offset: 87171},
+																																						label: "format",
+																																						expr: &actionExpr{
+																																							pos: position{line: 2742, col: 13, offset: 87179},
+																																							run: (*parser).callonListContinuationElement1470,
+																																							expr: &seqExpr{
+																																								pos: position{line: 2742, col: 13, offset: 87179},
+																																								exprs: []interface{}{
+																																									&zeroOrOneExpr{
+																																										pos: position{line: 2742, col: 13, offset: 87179},
+																																										expr: &seqExpr{
+																																											pos: position{line: 2742, col: 14, offset: 87180},
+																																											exprs: []interface{}{
+																																												&oneOrMoreExpr{
+																																													pos: position{line: 2742, col: 14, offset: 87180},
+																																													expr: &charClassMatcher{
+																																														pos:        position{line: 2742, col: 14, offset: 87180},
+																																														val:        "[.0-9]",
+																																														chars:      []rune{'.'},
+																																														ranges:     []rune{'0', '9'},
+																																														ignoreCase: false,
+																																														inverted:   false,
+																																													},
+																																												},
+																																												&charClassMatcher{
+																																													pos:        position{line: 2742, col: 22, offset: 87188},
+																																													val:        "[*+]",
+																																													chars:      []rune{'*', '+'},
+																																													ignoreCase: false,
+																																													inverted:   false,
+																																												},
+																																											},
+																																										},
+																																									},
+																																									&zeroOrOneExpr{
+																																										pos: position{line: 2742, col: 29, offset: 87195},
+																																										expr: &charClassMatcher{
+																																											pos:        position{line: 2742, col: 29, offset: 87195},
+																																											val:        "[<>^]",
+																																											chars:      []rune{'<', '>', '^'},
+																																											ignoreCase: false,
+																																											inverted:   false,
+																																										},
+																																									},
+																																									&zeroOrOneExpr{
+																																										pos: position{line: 2742, col: 36, offset: 87202},
+																																										expr: &seqExpr{
+																																											pos: position{line: 2742, col: 37, offset: 87203},
+																																											exprs: []interface{}{
+																																												&litMatcher{
+																																													pos:        position{line: 2742, col: 37, offset: 87203},
+																																													val:        ".",
+																																													ignoreCase: false,
+																																													want:       "\".\"",
+																																												},
+																																												&charClassMatcher{
+																																													pos:        position{line: 2742, col: 41, offset: 87207},
+																																													val:        "[<>^]",
+																																													chars:      []rune{'<', '>', '^'},
+																																													ignoreCase: false,
+																																													inverted:   false,
+																																												},
+																																											},
+																																										},
+																																									},
+																																									&zeroOrOneExpr{
+																																										pos: position{line: 2742, col: 49, offset: 87215},
+																																										expr: &charClassMatcher{
+																																											pos:        position{line: 2742, col: 49, offset: 87215},
+																																											val:        "[a-z]",
+																																											ranges:     []rune{'a', 'z'},
+																																											ignoreCase: false,
+																																											inverted:   false,
+																																										},
+																																									},
+																																								},
+																																							},
+																																						},
+																																					},
 																																				},
 																																			},
 																																		},
@@ -37179,10 +37446,10 @@ var g = &grammar{
 																																&zeroOrMoreExpr{
 																																	pos: position{line: 2711, col: 35, offset: 86437},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2935, col: 10, offset: 92962},
-																																		run: (*parser).callonListContinuationElement1469,
+																																		pos: position{line: 2944, col: 10, offset: 93180},
+																																		run: (*parser).callonListContinuationElement1487,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2935, col: 10, offset: 92962},
+																																			pos:        position{line: 2944, col: 10, offset: 93180},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -37193,25 +37460,25 @@ var g = &grammar{
 																																&zeroOrOneExpr{
 																																	pos: position{line: 2711, col: 42, offset: 86444},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2944, col: 12, offset: 93133},
-																																		run: (*parser).callonListContinuationElement1472,
+																																		pos: position{line: 2953, col: 12, offset: 93351},
+																																		run: (*parser).callonListContinuationElement1490,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2944, col: 13, offset: 93134},
+																																			pos: position{line: 2953, col: 13, offset: 93352},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2944, col: 13, offset: 93134},
+																																					pos:        position{line: 2953, col: 13, offset: 93352},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2944, col: 20, offset: 93141},
+																																					pos:        position{line: 2953, col: 20, offset: 93359},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2944, col: 29, offset: 93150},
+																																					pos:        position{line: 2953, col: 29, offset: 93368},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -37230,20 +37497,20 @@ var g = &grammar{
 																																			alternatives: []interface{}{
 																																				&actionExpr{
 																																					pos: position{line: 2718, col: 9, offset: 86622},
-																																					run: (*parser).callonListContinuationElement1480,
+																																					run: (*parser).callonListContinuationElement1498,
 																																					expr: &seqExpr{
 																																						pos: position{line: 2718, col: 9, offset: 86622},
 																																						exprs: []interface{}{
 																																							&andCodeExpr{
 																																								pos: position{line: 2718, col: 9, offset: 86622},
-																																								run: (*parser).callonListContinuationElement1482,
+																																								run: (*parser).callonListContinuationElement1500,
 																																							},
 																																							&labeledExpr{
 																																								pos:   position{line: 2721, col: 9, offset: 86691},
 																																								label: "comment",
 																																								expr: &actionExpr{
 																																									pos: position{line: 2538, col: 22, offset: 81740},
-																																									run: (*parser).callonListContinuationElement1484,
+																																									run: (*parser).callonListContinuationElement1502,
 																																									expr: &seqExpr{
 																																										pos: position{line: 2538, col: 22, offset: 81740},
 																																										exprs: []interface{}{
@@ -37266,12 +37533,12 @@ var g = &grammar{
 																																												pos:   position{line: 2538, col: 49, offset: 81767},
 																																												label: "content",
 																																												expr: &actionExpr{
-																																													pos: position{line: 2881, col: 13, offset: 91488},
-																																													run: (*parser).callonListContinuationElement1490,
+																																													pos: position{line: 2890, col: 13, offset: 91706},
+																																													run: (*parser).callonListContinuationElement1508,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2881, col: 13, offset: 91488},
+																																														pos: position{line: 2890, col: 13, offset: 91706},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2881, col: 13, offset: 91488},
+																																															pos:        position{line: 2890, col: 13, offset: 91706},
 																																															val:        "[^\\r\\n]",
 																																															chars:      []rune{'\r', '\n'},
 																																															ignoreCase: false,
@@ -37281,28 +37548,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2957, col: 8, offset: 93360},
+																																												pos: position{line: 2966, col: 8, offset: 93578},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2944, col: 12, offset: 93133},
-																																														run: (*parser).callonListContinuationElement1494,
+																																														pos: position{line: 2953, col: 12, offset: 93351},
+																																														run: (*parser).callonListContinuationElement1512,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2944, col: 13, offset: 93134},
+																																															pos: position{line: 2953, col: 13, offset: 93352},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2944, col: 13, offset: 93134},
+																																																	pos:        position{line: 2953, col: 13, offset: 93352},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2944, col: 20, offset: 93141},
+																																																	pos:        position{line: 2953, col: 20, offset: 93359},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2944, col: 29, offset: 93150},
+																																																	pos:        position{line: 2953, col: 29, offset: 93368},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -37311,9 +37578,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2954, col: 8, offset: 93310},
+																																														pos: position{line: 2963, col: 8, offset: 93528},
 																																														expr: &anyMatcher{
-																																															line: 2954, col: 9, offset: 93311,
+																																															line: 2963, col: 9, offset: 93529,
 																																														},
 																																													},
 																																												},
@@ -37327,7 +37594,7 @@ var g = &grammar{
 																																				},
 																																				&actionExpr{
 																																					pos: position{line: 2725, col: 9, offset: 86781},
-																																					run: (*parser).callonListContinuationElement1501,
+																																					run: (*parser).callonListContinuationElement1519,
 																																					expr: &seqExpr{
 																																						pos: position{line: 2725, col: 9, offset: 86781},
 																																						exprs: []interface{}{
@@ -37348,10 +37615,10 @@ var g = &grammar{
 																																												&zeroOrMoreExpr{
 																																													pos: position{line: 2670, col: 26, offset: 85493},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2935, col: 10, offset: 92962},
-																																														run: (*parser).callonListContinuationElement1508,
+																																														pos: position{line: 2944, col: 10, offset: 93180},
+																																														run: (*parser).callonListContinuationElement1526,
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2935, col: 10, offset: 92962},
+																																															pos:        position{line: 2944, col: 10, offset: 93180},
 																																															val:        "[\\t ]",
 																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
@@ -37360,28 +37627,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2957, col: 8, offset: 93360},
+																																													pos: position{line: 2966, col: 8, offset: 93578},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2944, col: 12, offset: 93133},
-																																															run: (*parser).callonListContinuationElement1511,
+																																															pos: position{line: 2953, col: 12, offset: 93351},
+																																															run: (*parser).callonListContinuationElement1529,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2944, col: 13, offset: 93134},
+																																																pos: position{line: 2953, col: 13, offset: 93352},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2944, col: 13, offset: 93134},
+																																																		pos:        position{line: 2953, col: 13, offset: 93352},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2944, col: 20, offset: 93141},
+																																																		pos:        position{line: 2953, col: 20, offset: 93359},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2944, col: 29, offset: 93150},
+																																																		pos:        position{line: 2953, col: 29, offset: 93368},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -37390,9 +37657,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2954, col: 8, offset: 93310},
+																																															pos: position{line: 2963, col: 8, offset: 93528},
 																																															expr: &anyMatcher{
-																																																line: 2954, col: 9, offset: 93311,
+																																																line: 2963, col: 9, offset: 93529,
 																																															},
 																																														},
 																																													},
@@ -37400,9 +37667,9 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2954, col: 8, offset: 93310},
+																																											pos: position{line: 2963, col: 8, offset: 93528},
 																																											expr: &anyMatcher{
-																																												line: 2954, col: 9, offset: 93311,
+																																												line: 2963, col: 9, offset: 93529,
 																																											},
 																																										},
 																																									},
@@ -37412,23 +37679,23 @@ var g = &grammar{
 																																								pos: position{line: 2726, col: 9, offset: 86808},
 																																								expr: &actionExpr{
 																																									pos: position{line: 702, col: 14, offset: 22577},
-																																									run: (*parser).callonListContinuationElement1521,
+																																									run: (*parser).callonListContinuationElement1539,
 																																									expr: &seqExpr{
 																																										pos: position{line: 702, col: 14, offset: 22577},
 																																										exprs: []interface{}{
 																																											&andExpr{
-																																												pos: position{line: 2952, col: 11, offset: 93296},
+																																												pos: position{line: 2961, col: 11, offset: 93514},
 																																												expr: &anyMatcher{
-																																													line: 2952, col: 13, offset: 93298,
+																																													line: 2961, col: 13, offset: 93516,
 																																												},
 																																											},
 																																											&zeroOrMoreExpr{
 																																												pos: position{line: 702, col: 21, offset: 22584},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2935, col: 10, offset: 92962},
-																																													run: (*parser).callonListContinuationElement1526,
+																																													pos: position{line: 2944, col: 10, offset: 93180},
+																																													run: (*parser).callonListContinuationElement1544,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2935, col: 10, offset: 92962},
+																																														pos:        position{line: 2944, col: 10, offset: 93180},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -37437,28 +37704,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2957, col: 8, offset: 93360},
+																																												pos: position{line: 2966, col: 8, offset: 93578},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2944, col: 12, offset: 93133},
-																																														run: (*parser).callonListContinuationElement1529,
+																																														pos: position{line: 2953, col: 12, offset: 93351},
+																																														run: (*parser).callonListContinuationElement1547,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2944, col: 13, offset: 93134},
+																																															pos: position{line: 2953, col: 13, offset: 93352},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2944, col: 13, offset: 93134},
+																																																	pos:        position{line: 2953, col: 13, offset: 93352},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2944, col: 20, offset: 93141},
+																																																	pos:        position{line: 2953, col: 20, offset: 93359},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2944, col: 29, offset: 93150},
+																																																	pos:        position{line: 2953, col: 29, offset: 93368},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -37467,9 +37734,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2954, col: 8, offset: 93310},
+																																														pos: position{line: 2963, col: 8, offset: 93528},
 																																														expr: &anyMatcher{
-																																															line: 2954, col: 9, offset: 93311,
+																																															line: 2963, col: 9, offset: 93529,
 																																														},
 																																													},
 																																												},
@@ -37489,16 +37756,105 @@ var g = &grammar{
 																																											expr: &zeroOrOneExpr{
 																																												pos: position{line: 2727, col: 18, offset: 86836},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2735, col: 20, offset: 87037},
-																																													run: (*parser).callonListContinuationElement1540,
-																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2735, col: 20, offset: 87037},
-																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2735, col: 20, offset: 87037},
-																																															val:        "[^ |\\r\\n]",
-																																															chars:      []rune{' ', '|', '\r', '\n'},
-																																															ignoreCase: false,
-																																															inverted:   true,
+																																													pos: position{line: 2736, col: 5, offset: 87042},
+																																													run: (*parser).callonListContinuationElement1558,
+																																													expr: &seqExpr{
+																																														pos: position{line: 2736, col: 5, offset: 87042},
+																																														exprs: []interface{}{
+																																															&actionExpr{
+																																																pos: position{line: 2736, col: 6, offset: 87043},
+																																																run: (*parser).callonListContinuationElement1560,
+																																																expr: &litMatcher{
+																																																	pos:        position{line: 2736, col: 6, offset: 87043},
+																																																	val:        "",
+																																																	ignoreCase: false,
+																																																	want:       "\"\"",
+																																																},
+																																															},
+																																															&andCodeExpr{
+																																																pos: position{line: 2739, col: 5, offset: 87114},
+																																																run: (*parser).callonListContinuationElement1562,
+																																															},
+																																															&labeledExpr{
+																																																pos:   position{line: 2742, col: 5, offset: 87171},
+																																																label: "format",
+																																																expr: &actionExpr{
+																																																	pos: position{line: 2742, col: 13, offset: 87179},
+																																																	run: (*parser).callonListContinuationElement1564,
+																																																	expr: &seqExpr{
+																																																		pos: position{line: 2742, col: 13, offset: 87179},
+																																																		exprs: []interface{}{
+																																																			&zeroOrOneExpr{
+																																																				pos: position{line: 2742, col: 13, offset: 87179},
+																																																				expr: &seqExpr{
+																																																					pos: position{line: 2742, col: 14, offset: 87180},
+																																																					exprs: []interface{}{
+																																																						&oneOrMoreExpr{
+																																																							pos: position{line: 2742, col: 14, offset: 87180},
+																																																							expr: &charClassMatcher{
+																																																								pos:        position{line: 2742, col: 14, offset: 87180},
+																																																								val:        "[.0-9]",
+																																																								chars:      []rune{'.'},
+																																																								ranges:     []rune{'0', '9'},
+																																																								ignoreCase: false,
+																																																								inverted:   false,
+																																																							},
+																																																						},
+																																																						&charClassMatcher{
+																																																							pos:        position{line: 2742, col: 22, offset: 87188},
+																																																							val:        "[*+]",
+																																																							chars:      []rune{'*', '+'},
+																																																							ignoreCase: false,
+																																																							inverted:   false,
+																																																						},
+																																																					},
+																																																				},
+																																																			},
+																																																			&zeroOrOneExpr{
+																																																				pos: position{line: 2742, col: 29, offset: 87195},
+																																																				expr: &charClassMatcher{
+																																																					pos:        position{line: 2742, col: 29, offset: 87195},
+																																																					val:        "[<>^]",
+																																																					chars:      []rune{'<', '>', '^'},
+																																																					ignoreCase: false,
+																																																					inverted:   false,
+																																																				},
+																																																			},
+																																																			&zeroOrOneExpr{
+																																																				pos: position{line: 2742, col: 36, offset: 87202},
+																																																				expr: &seqExpr{
+																																																					pos: position{line: 2742, col: 37, offset: 87203},
+																																																					exprs: []interface{}{
+																																																						&litMatcher{
+																																																							pos:        position{line: 2742, col: 37, offset: 87203},
+																																																							val:        ".",
+																																																							ignoreCase: false,
+																																																							want:       "\".\"",
+																																																						},
+																																																						&charClassMatcher{
+																																																							pos:        position{line: 2742, col: 41, offset: 87207},
+																																																							val:        "[<>^]",
+																																																							chars:      []rune{'<', '>', '^'},
+																																																							ignoreCase: false,
+																																																							inverted:   false,
+																																																						},
+																																																					},
+																																																				},
+																																																			},
+																																																			&zeroOrOneExpr{
+																																																				pos: position{line: 2742, col: 49, offset: 87215},
+																																																				expr: &charClassMatcher{
+																																																					pos:        position{line: 2742, col: 49, offset: 87215},
+																																																					val:        "[a-z]",
+																																																					ranges:     []rune{'a', 'z'},
+																																																					ignoreCase: false,
+																																																					inverted:   false,
+																																																				},
+																																																			},
+																																																		},
+																																																	},
+																																																},
+																																															},
 																																														},
 																																													},
 																																												},
@@ -37518,7 +37874,7 @@ var g = &grammar{
 																																								label: "content",
 																																								expr: &actionExpr{
 																																									pos: position{line: 2728, col: 18, offset: 86877},
-																																									run: (*parser).callonListContinuationElement1545,
+																																									run: (*parser).callonListContinuationElement1581,
 																																									expr: &zeroOrMoreExpr{
 																																										pos: position{line: 2728, col: 18, offset: 86877},
 																																										expr: &charClassMatcher{
@@ -37534,28 +37890,28 @@ var g = &grammar{
 																																							&zeroOrOneExpr{
 																																								pos: position{line: 2730, col: 12, offset: 86939},
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2957, col: 8, offset: 93360},
+																																									pos: position{line: 2966, col: 8, offset: 93578},
 																																									alternatives: []interface{}{
 																																										&actionExpr{
-																																											pos: position{line: 2944, col: 12, offset: 93133},
-																																											run: (*parser).callonListContinuationElement1550,
+																																											pos: position{line: 2953, col: 12, offset: 93351},
+																																											run: (*parser).callonListContinuationElement1586,
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2944, col: 13, offset: 93134},
+																																												pos: position{line: 2953, col: 13, offset: 93352},
 																																												alternatives: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2944, col: 13, offset: 93134},
+																																														pos:        position{line: 2953, col: 13, offset: 93352},
 																																														val:        "\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2944, col: 20, offset: 93141},
+																																														pos:        position{line: 2953, col: 20, offset: 93359},
 																																														val:        "\r\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2944, col: 29, offset: 93150},
+																																														pos:        position{line: 2953, col: 29, offset: 93368},
 																																														val:        "\r",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\"",
@@ -37564,9 +37920,9 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2954, col: 8, offset: 93310},
+																																											pos: position{line: 2963, col: 8, offset: 93528},
 																																											expr: &anyMatcher{
-																																												line: 2954, col: 9, offset: 93311,
+																																												line: 2963, col: 9, offset: 93529,
 																																											},
 																																										},
 																																									},
@@ -37591,23 +37947,23 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 702, col: 14, offset: 22577},
-																							run: (*parser).callonListContinuationElement1557,
+																							run: (*parser).callonListContinuationElement1593,
 																							expr: &seqExpr{
 																								pos: position{line: 702, col: 14, offset: 22577},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2952, col: 11, offset: 93296},
+																										pos: position{line: 2961, col: 11, offset: 93514},
 																										expr: &anyMatcher{
-																											line: 2952, col: 13, offset: 93298,
+																											line: 2961, col: 13, offset: 93516,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 702, col: 21, offset: 22584},
 																										expr: &actionExpr{
-																											pos: position{line: 2935, col: 10, offset: 92962},
-																											run: (*parser).callonListContinuationElement1562,
+																											pos: position{line: 2944, col: 10, offset: 93180},
+																											run: (*parser).callonListContinuationElement1598,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2935, col: 10, offset: 92962},
+																												pos:        position{line: 2944, col: 10, offset: 93180},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -37616,28 +37972,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2957, col: 8, offset: 93360},
+																										pos: position{line: 2966, col: 8, offset: 93578},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2944, col: 12, offset: 93133},
-																												run: (*parser).callonListContinuationElement1565,
+																												pos: position{line: 2953, col: 12, offset: 93351},
+																												run: (*parser).callonListContinuationElement1601,
 																												expr: &choiceExpr{
-																													pos: position{line: 2944, col: 13, offset: 93134},
+																													pos: position{line: 2953, col: 13, offset: 93352},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2944, col: 13, offset: 93134},
+																															pos:        position{line: 2953, col: 13, offset: 93352},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2944, col: 20, offset: 93141},
+																															pos:        position{line: 2953, col: 20, offset: 93359},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2944, col: 29, offset: 93150},
+																															pos:        position{line: 2953, col: 29, offset: 93368},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -37646,9 +38002,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2954, col: 8, offset: 93310},
+																												pos: position{line: 2963, col: 8, offset: 93528},
 																												expr: &anyMatcher{
-																													line: 2954, col: 9, offset: 93311,
+																													line: 2963, col: 9, offset: 93529,
 																												},
 																											},
 																										},
@@ -37681,10 +38037,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 2670, col: 26, offset: 85493},
 																	expr: &actionExpr{
-																		pos: position{line: 2935, col: 10, offset: 92962},
-																		run: (*parser).callonListContinuationElement1576,
+																		pos: position{line: 2944, col: 10, offset: 93180},
+																		run: (*parser).callonListContinuationElement1612,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2935, col: 10, offset: 92962},
+																			pos:        position{line: 2944, col: 10, offset: 93180},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37693,28 +38049,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2957, col: 8, offset: 93360},
+																	pos: position{line: 2966, col: 8, offset: 93578},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2944, col: 12, offset: 93133},
-																			run: (*parser).callonListContinuationElement1579,
+																			pos: position{line: 2953, col: 12, offset: 93351},
+																			run: (*parser).callonListContinuationElement1615,
 																			expr: &choiceExpr{
-																				pos: position{line: 2944, col: 13, offset: 93134},
+																				pos: position{line: 2953, col: 13, offset: 93352},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 13, offset: 93134},
+																						pos:        position{line: 2953, col: 13, offset: 93352},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 20, offset: 93141},
+																						pos:        position{line: 2953, col: 20, offset: 93359},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 29, offset: 93150},
+																						pos:        position{line: 2953, col: 29, offset: 93368},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37723,9 +38079,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2954, col: 8, offset: 93310},
+																			pos: position{line: 2963, col: 8, offset: 93528},
 																			expr: &anyMatcher{
-																				line: 2954, col: 9, offset: 93311,
+																				line: 2963, col: 9, offset: 93529,
 																			},
 																		},
 																	},
@@ -37733,9 +38089,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2954, col: 8, offset: 93310},
+															pos: position{line: 2963, col: 8, offset: 93528},
 															expr: &anyMatcher{
-																line: 2954, col: 9, offset: 93311,
+																line: 2963, col: 9, offset: 93529,
 															},
 														},
 													},
@@ -37745,7 +38101,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2538, col: 22, offset: 81740},
-										run: (*parser).callonListContinuationElement1588,
+										run: (*parser).callonListContinuationElement1624,
 										expr: &seqExpr{
 											pos: position{line: 2538, col: 22, offset: 81740},
 											exprs: []interface{}{
@@ -37768,12 +38124,12 @@ var g = &grammar{
 													pos:   position{line: 2538, col: 49, offset: 81767},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 13, offset: 91488},
-														run: (*parser).callonListContinuationElement1594,
+														pos: position{line: 2890, col: 13, offset: 91706},
+														run: (*parser).callonListContinuationElement1630,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2881, col: 13, offset: 91488},
+															pos: position{line: 2890, col: 13, offset: 91706},
 															expr: &charClassMatcher{
-																pos:        position{line: 2881, col: 13, offset: 91488},
+																pos:        position{line: 2890, col: 13, offset: 91706},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37783,28 +38139,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2957, col: 8, offset: 93360},
+													pos: position{line: 2966, col: 8, offset: 93578},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2944, col: 12, offset: 93133},
-															run: (*parser).callonListContinuationElement1598,
+															pos: position{line: 2953, col: 12, offset: 93351},
+															run: (*parser).callonListContinuationElement1634,
 															expr: &choiceExpr{
-																pos: position{line: 2944, col: 13, offset: 93134},
+																pos: position{line: 2953, col: 13, offset: 93352},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 13, offset: 93134},
+																		pos:        position{line: 2953, col: 13, offset: 93352},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 20, offset: 93141},
+																		pos:        position{line: 2953, col: 20, offset: 93359},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 29, offset: 93150},
+																		pos:        position{line: 2953, col: 29, offset: 93368},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37813,9 +38169,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2954, col: 8, offset: 93310},
+															pos: position{line: 2963, col: 8, offset: 93528},
 															expr: &anyMatcher{
-																line: 2954, col: 9, offset: 93311,
+																line: 2963, col: 9, offset: 93529,
 															},
 														},
 													},
@@ -37825,7 +38181,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1592, col: 5, offset: 51745},
-										run: (*parser).callonListContinuationElement1605,
+										run: (*parser).callonListContinuationElement1641,
 										expr: &seqExpr{
 											pos: position{line: 1592, col: 5, offset: 51745},
 											exprs: []interface{}{
@@ -37836,13 +38192,13 @@ var g = &grammar{
 														pos: position{line: 1592, col: 11, offset: 51751},
 														expr: &actionExpr{
 															pos: position{line: 1757, col: 5, offset: 57100},
-															run: (*parser).callonListContinuationElement1609,
+															run: (*parser).callonListContinuationElement1645,
 															expr: &seqExpr{
 																pos: position{line: 1757, col: 5, offset: 57100},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 1757, col: 5, offset: 57100},
-																		run: (*parser).callonListContinuationElement1611,
+																		run: (*parser).callonListContinuationElement1647,
 																	},
 																	&labeledExpr{
 																		pos:   position{line: 1760, col: 5, offset: 57163},
@@ -37852,7 +38208,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 1760, col: 12, offset: 57170},
-																					run: (*parser).callonListContinuationElement1614,
+																					run: (*parser).callonListContinuationElement1650,
 																					expr: &litMatcher{
 																						pos:        position{line: 1760, col: 12, offset: 57170},
 																						val:        "TIP: ",
@@ -37862,7 +38218,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1762, col: 13, offset: 57226},
-																					run: (*parser).callonListContinuationElement1616,
+																					run: (*parser).callonListContinuationElement1652,
 																					expr: &litMatcher{
 																						pos:        position{line: 1762, col: 13, offset: 57226},
 																						val:        "NOTE: ",
@@ -37872,7 +38228,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1764, col: 13, offset: 57284},
-																					run: (*parser).callonListContinuationElement1618,
+																					run: (*parser).callonListContinuationElement1654,
 																					expr: &litMatcher{
 																						pos:        position{line: 1764, col: 13, offset: 57284},
 																						val:        "IMPORTANT: ",
@@ -37882,7 +38238,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1766, col: 13, offset: 57352},
-																					run: (*parser).callonListContinuationElement1620,
+																					run: (*parser).callonListContinuationElement1656,
 																					expr: &litMatcher{
 																						pos:        position{line: 1766, col: 13, offset: 57352},
 																						val:        "WARNING: ",
@@ -37892,7 +38248,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1768, col: 13, offset: 57416},
-																					run: (*parser).callonListContinuationElement1622,
+																					run: (*parser).callonListContinuationElement1658,
 																					expr: &litMatcher{
 																						pos:        position{line: 1768, col: 13, offset: 57416},
 																						val:        "CAUTION: ",
@@ -37902,16 +38258,16 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1770, col: 13, offset: 57480},
-																					run: (*parser).callonListContinuationElement1624,
+																					run: (*parser).callonListContinuationElement1660,
 																					expr: &andExpr{
 																						pos: position{line: 1770, col: 13, offset: 57480},
 																						expr: &actionExpr{
-																							pos: position{line: 2939, col: 11, offset: 93023},
-																							run: (*parser).callonListContinuationElement1626,
+																							pos: position{line: 2948, col: 11, offset: 93241},
+																							run: (*parser).callonListContinuationElement1662,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2939, col: 11, offset: 93023},
+																								pos: position{line: 2948, col: 11, offset: 93241},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2939, col: 11, offset: 93023},
+																									pos:        position{line: 2948, col: 11, offset: 93241},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37934,7 +38290,7 @@ var g = &grammar{
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1535, col: 5, offset: 50090},
-														run: (*parser).callonListContinuationElement1630,
+														run: (*parser).callonListContinuationElement1666,
 														expr: &seqExpr{
 															pos: position{line: 1535, col: 5, offset: 50090},
 															exprs: []interface{}{
@@ -37942,23 +38298,23 @@ var g = &grammar{
 																	pos: position{line: 1535, col: 5, offset: 50090},
 																	expr: &actionExpr{
 																		pos: position{line: 702, col: 14, offset: 22577},
-																		run: (*parser).callonListContinuationElement1633,
+																		run: (*parser).callonListContinuationElement1669,
 																		expr: &seqExpr{
 																			pos: position{line: 702, col: 14, offset: 22577},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2952, col: 11, offset: 93296},
+																					pos: position{line: 2961, col: 11, offset: 93514},
 																					expr: &anyMatcher{
-																						line: 2952, col: 13, offset: 93298,
+																						line: 2961, col: 13, offset: 93516,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 702, col: 21, offset: 22584},
 																					expr: &actionExpr{
-																						pos: position{line: 2935, col: 10, offset: 92962},
-																						run: (*parser).callonListContinuationElement1638,
+																						pos: position{line: 2944, col: 10, offset: 93180},
+																						run: (*parser).callonListContinuationElement1674,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2935, col: 10, offset: 92962},
+																							pos:        position{line: 2944, col: 10, offset: 93180},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37967,28 +38323,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2957, col: 8, offset: 93360},
+																					pos: position{line: 2966, col: 8, offset: 93578},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2944, col: 12, offset: 93133},
-																							run: (*parser).callonListContinuationElement1641,
+																							pos: position{line: 2953, col: 12, offset: 93351},
+																							run: (*parser).callonListContinuationElement1677,
 																							expr: &choiceExpr{
-																								pos: position{line: 2944, col: 13, offset: 93134},
+																								pos: position{line: 2953, col: 13, offset: 93352},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 13, offset: 93134},
+																										pos:        position{line: 2953, col: 13, offset: 93352},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 20, offset: 93141},
+																										pos:        position{line: 2953, col: 20, offset: 93359},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 29, offset: 93150},
+																										pos:        position{line: 2953, col: 29, offset: 93368},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37997,9 +38353,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2954, col: 8, offset: 93310},
+																							pos: position{line: 2963, col: 8, offset: 93528},
 																							expr: &anyMatcher{
-																								line: 2954, col: 9, offset: 93311,
+																								line: 2963, col: 9, offset: 93529,
 																							},
 																						},
 																					},
@@ -38022,10 +38378,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1567, col: 31, offset: 50969},
 																				expr: &actionExpr{
-																					pos: position{line: 2935, col: 10, offset: 92962},
-																					run: (*parser).callonListContinuationElement1652,
+																					pos: position{line: 2944, col: 10, offset: 93180},
+																					run: (*parser).callonListContinuationElement1688,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2935, col: 10, offset: 92962},
+																						pos:        position{line: 2944, col: 10, offset: 93180},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -38034,25 +38390,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
-																				run: (*parser).callonListContinuationElement1654,
+																				pos: position{line: 2953, col: 12, offset: 93351},
+																				run: (*parser).callonListContinuationElement1690,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -38067,17 +38423,17 @@ var g = &grammar{
 																	pos: position{line: 1537, col: 5, offset: 50133},
 																	expr: &actionExpr{
 																		pos: position{line: 1608, col: 5, offset: 52184},
-																		run: (*parser).callonListContinuationElement1660,
+																		run: (*parser).callonListContinuationElement1696,
 																		expr: &seqExpr{
 																			pos: position{line: 1608, col: 5, offset: 52184},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1608, col: 5, offset: 52184},
 																					expr: &actionExpr{
-																						pos: position{line: 2935, col: 10, offset: 92962},
-																						run: (*parser).callonListContinuationElement1663,
+																						pos: position{line: 2944, col: 10, offset: 93180},
+																						run: (*parser).callonListContinuationElement1699,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2935, col: 10, offset: 92962},
+																							pos:        position{line: 2944, col: 10, offset: 93180},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38093,7 +38449,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 1610, col: 9, offset: 52254},
-																								run: (*parser).callonListContinuationElement1667,
+																								run: (*parser).callonListContinuationElement1703,
 																								expr: &seqExpr{
 																									pos: position{line: 1610, col: 9, offset: 52254},
 																									exprs: []interface{}{
@@ -38102,7 +38458,7 @@ var g = &grammar{
 																											label: "depth",
 																											expr: &actionExpr{
 																												pos: position{line: 1610, col: 16, offset: 52261},
-																												run: (*parser).callonListContinuationElement1670,
+																												run: (*parser).callonListContinuationElement1706,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 1610, col: 16, offset: 52261},
 																													expr: &litMatcher{
@@ -38116,14 +38472,14 @@ var g = &grammar{
 																										},
 																										&andCodeExpr{
 																											pos: position{line: 1614, col: 9, offset: 52362},
-																											run: (*parser).callonListContinuationElement1673,
+																											run: (*parser).callonListContinuationElement1709,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
 																								pos: position{line: 1633, col: 11, offset: 53079},
-																								run: (*parser).callonListContinuationElement1674,
+																								run: (*parser).callonListContinuationElement1710,
 																								expr: &seqExpr{
 																									pos: position{line: 1633, col: 11, offset: 53079},
 																									exprs: []interface{}{
@@ -38148,7 +38504,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1635, col: 13, offset: 53205},
-																								run: (*parser).callonListContinuationElement1679,
+																								run: (*parser).callonListContinuationElement1715,
 																								expr: &seqExpr{
 																									pos: position{line: 1635, col: 13, offset: 53205},
 																									exprs: []interface{}{
@@ -38170,7 +38526,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1637, col: 13, offset: 53333},
-																								run: (*parser).callonListContinuationElement1683,
+																								run: (*parser).callonListContinuationElement1719,
 																								expr: &seqExpr{
 																									pos: position{line: 1637, col: 13, offset: 53333},
 																									exprs: []interface{}{
@@ -38192,7 +38548,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1639, col: 13, offset: 53461},
-																								run: (*parser).callonListContinuationElement1687,
+																								run: (*parser).callonListContinuationElement1723,
 																								expr: &seqExpr{
 																									pos: position{line: 1639, col: 13, offset: 53461},
 																									exprs: []interface{}{
@@ -38217,7 +38573,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1641, col: 13, offset: 53594},
-																								run: (*parser).callonListContinuationElement1692,
+																								run: (*parser).callonListContinuationElement1728,
 																								expr: &seqExpr{
 																									pos: position{line: 1641, col: 13, offset: 53594},
 																									exprs: []interface{}{
@@ -38244,12 +38600,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2939, col: 11, offset: 93023},
-																					run: (*parser).callonListContinuationElement1697,
+																					pos: position{line: 2948, col: 11, offset: 93241},
+																					run: (*parser).callonListContinuationElement1733,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2939, col: 11, offset: 93023},
+																						pos: position{line: 2948, col: 11, offset: 93241},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2939, col: 11, offset: 93023},
+																							pos:        position{line: 2948, col: 11, offset: 93241},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38265,17 +38621,17 @@ var g = &grammar{
 																	pos: position{line: 1538, col: 5, offset: 50163},
 																	expr: &actionExpr{
 																		pos: position{line: 1658, col: 5, offset: 54146},
-																		run: (*parser).callonListContinuationElement1701,
+																		run: (*parser).callonListContinuationElement1737,
 																		expr: &seqExpr{
 																			pos: position{line: 1658, col: 5, offset: 54146},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1658, col: 5, offset: 54146},
 																					expr: &actionExpr{
-																						pos: position{line: 2935, col: 10, offset: 92962},
-																						run: (*parser).callonListContinuationElement1704,
+																						pos: position{line: 2944, col: 10, offset: 93180},
+																						run: (*parser).callonListContinuationElement1740,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2935, col: 10, offset: 92962},
+																							pos:        position{line: 2944, col: 10, offset: 93180},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38288,7 +38644,7 @@ var g = &grammar{
 																					label: "style",
 																					expr: &actionExpr{
 																						pos: position{line: 1660, col: 9, offset: 54174},
-																						run: (*parser).callonListContinuationElement1707,
+																						run: (*parser).callonListContinuationElement1743,
 																						expr: &choiceExpr{
 																							pos: position{line: 1660, col: 10, offset: 54175},
 																							alternatives: []interface{}{
@@ -38313,15 +38669,15 @@ var g = &grammar{
 																				},
 																				&andCodeExpr{
 																					pos: position{line: 1663, col: 7, offset: 54274},
-																					run: (*parser).callonListContinuationElement1712,
+																					run: (*parser).callonListContinuationElement1748,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2939, col: 11, offset: 93023},
-																					run: (*parser).callonListContinuationElement1713,
+																					pos: position{line: 2948, col: 11, offset: 93241},
+																					run: (*parser).callonListContinuationElement1749,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2939, col: 11, offset: 93023},
+																						pos: position{line: 2948, col: 11, offset: 93241},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2939, col: 11, offset: 93023},
+																							pos:        position{line: 2948, col: 11, offset: 93241},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38337,7 +38693,7 @@ var g = &grammar{
 																	pos: position{line: 1539, col: 5, offset: 50195},
 																	expr: &actionExpr{
 																		pos: position{line: 1748, col: 5, offset: 56715},
-																		run: (*parser).callonListContinuationElement1717,
+																		run: (*parser).callonListContinuationElement1753,
 																		expr: &seqExpr{
 																			pos: position{line: 1748, col: 5, offset: 56715},
 																			exprs: []interface{}{
@@ -38352,7 +38708,7 @@ var g = &grammar{
 																					label: "ref",
 																					expr: &actionExpr{
 																						pos: position{line: 1748, col: 14, offset: 56724},
-																						run: (*parser).callonListContinuationElement1721,
+																						run: (*parser).callonListContinuationElement1757,
 																						expr: &oneOrMoreExpr{
 																							pos: position{line: 1748, col: 14, offset: 56724},
 																							expr: &charClassMatcher{
@@ -38372,12 +38728,12 @@ var g = &grammar{
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2939, col: 11, offset: 93023},
-																					run: (*parser).callonListContinuationElement1725,
+																					pos: position{line: 2948, col: 11, offset: 93241},
+																					run: (*parser).callonListContinuationElement1761,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2939, col: 11, offset: 93023},
+																						pos: position{line: 2948, col: 11, offset: 93241},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2939, col: 11, offset: 93023},
+																							pos:        position{line: 2948, col: 11, offset: 93241},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38396,7 +38752,7 @@ var g = &grammar{
 																		exprs: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 1693, col: 5, offset: 55165},
-																				run: (*parser).callonListContinuationElement1730,
+																				run: (*parser).callonListContinuationElement1766,
 																				expr: &seqExpr{
 																					pos: position{line: 1693, col: 5, offset: 55165},
 																					exprs: []interface{}{
@@ -38432,7 +38788,7 @@ var g = &grammar{
 																										pos: position{line: 1694, col: 6, offset: 55198},
 																										expr: &actionExpr{
 																											pos: position{line: 1699, col: 5, offset: 55348},
-																											run: (*parser).callonListContinuationElement1740,
+																											run: (*parser).callonListContinuationElement1776,
 																											expr: &seqExpr{
 																												pos: position{line: 1699, col: 5, offset: 55348},
 																												exprs: []interface{}{
@@ -38441,7 +38797,7 @@ var g = &grammar{
 																														label: "separator",
 																														expr: &actionExpr{
 																															pos: position{line: 1699, col: 16, offset: 55359},
-																															run: (*parser).callonListContinuationElement1743,
+																															run: (*parser).callonListContinuationElement1779,
 																															expr: &oneOrMoreExpr{
 																																pos: position{line: 1699, col: 16, offset: 55359},
 																																expr: &litMatcher{
@@ -38455,7 +38811,7 @@ var g = &grammar{
 																													},
 																													&andCodeExpr{
 																														pos: position{line: 1702, col: 5, offset: 55417},
-																														run: (*parser).callonListContinuationElement1746,
+																														run: (*parser).callonListContinuationElement1782,
 																													},
 																												},
 																											},
@@ -38464,28 +38820,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1694, col: 35, offset: 55227},
 																										expr: &choiceExpr{
-																											pos: position{line: 2957, col: 8, offset: 93360},
+																											pos: position{line: 2966, col: 8, offset: 93578},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2944, col: 12, offset: 93133},
-																													run: (*parser).callonListContinuationElement1749,
+																													pos: position{line: 2953, col: 12, offset: 93351},
+																													run: (*parser).callonListContinuationElement1785,
 																													expr: &choiceExpr{
-																														pos: position{line: 2944, col: 13, offset: 93134},
+																														pos: position{line: 2953, col: 13, offset: 93352},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 13, offset: 93134},
+																																pos:        position{line: 2953, col: 13, offset: 93352},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 20, offset: 93141},
+																																pos:        position{line: 2953, col: 20, offset: 93359},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 29, offset: 93150},
+																																pos:        position{line: 2953, col: 29, offset: 93368},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38494,9 +38850,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2954, col: 8, offset: 93310},
+																													pos: position{line: 2963, col: 8, offset: 93528},
 																													expr: &anyMatcher{
-																														line: 2954, col: 9, offset: 93311,
+																														line: 2963, col: 9, offset: 93529,
 																													},
 																												},
 																											},
@@ -38513,7 +38869,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1699, col: 5, offset: 55348},
-																				run: (*parser).callonListContinuationElement1757,
+																				run: (*parser).callonListContinuationElement1793,
 																				expr: &seqExpr{
 																					pos: position{line: 1699, col: 5, offset: 55348},
 																					exprs: []interface{}{
@@ -38522,7 +38878,7 @@ var g = &grammar{
 																							label: "separator",
 																							expr: &actionExpr{
 																								pos: position{line: 1699, col: 16, offset: 55359},
-																								run: (*parser).callonListContinuationElement1760,
+																								run: (*parser).callonListContinuationElement1796,
 																								expr: &oneOrMoreExpr{
 																									pos: position{line: 1699, col: 16, offset: 55359},
 																									expr: &litMatcher{
@@ -38536,7 +38892,7 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1702, col: 5, offset: 55417},
-																							run: (*parser).callonListContinuationElement1763,
+																							run: (*parser).callonListContinuationElement1799,
 																						},
 																					},
 																				},
@@ -38548,14 +38904,14 @@ var g = &grammar{
 																	pos: position{line: 1541, col: 5, offset: 50283},
 																	expr: &actionExpr{
 																		pos: position{line: 749, col: 5, offset: 24130},
-																		run: (*parser).callonListContinuationElement1765,
+																		run: (*parser).callonListContinuationElement1801,
 																		expr: &seqExpr{
 																			pos: position{line: 749, col: 5, offset: 24130},
 																			exprs: []interface{}{
 																				&notExpr{
 																					pos: position{line: 749, col: 5, offset: 24130},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2825, col: 13, offset: 90057},
+																						pos:        position{line: 2834, col: 13, offset: 90275},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -38570,7 +38926,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 765, col: 5, offset: 24672},
-																								run: (*parser).callonListContinuationElement1771,
+																								run: (*parser).callonListContinuationElement1807,
 																								expr: &seqExpr{
 																									pos: position{line: 765, col: 5, offset: 24672},
 																									exprs: []interface{}{
@@ -38579,7 +38935,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 765, col: 16, offset: 24683},
-																												run: (*parser).callonListContinuationElement1774,
+																												run: (*parser).callonListContinuationElement1810,
 																												expr: &seqExpr{
 																													pos: position{line: 765, col: 16, offset: 24683},
 																													exprs: []interface{}{
@@ -38605,10 +38961,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 767, col: 8, offset: 24774},
 																											expr: &actionExpr{
-																												pos: position{line: 2935, col: 10, offset: 92962},
-																												run: (*parser).callonListContinuationElement1780,
+																												pos: position{line: 2944, col: 10, offset: 93180},
+																												run: (*parser).callonListContinuationElement1816,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2935, col: 10, offset: 92962},
+																													pos:        position{line: 2944, col: 10, offset: 93180},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38617,28 +38973,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2957, col: 8, offset: 93360},
+																											pos: position{line: 2966, col: 8, offset: 93578},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2944, col: 12, offset: 93133},
-																													run: (*parser).callonListContinuationElement1783,
+																													pos: position{line: 2953, col: 12, offset: 93351},
+																													run: (*parser).callonListContinuationElement1819,
 																													expr: &choiceExpr{
-																														pos: position{line: 2944, col: 13, offset: 93134},
+																														pos: position{line: 2953, col: 13, offset: 93352},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 13, offset: 93134},
+																																pos:        position{line: 2953, col: 13, offset: 93352},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 20, offset: 93141},
+																																pos:        position{line: 2953, col: 20, offset: 93359},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 29, offset: 93150},
+																																pos:        position{line: 2953, col: 29, offset: 93368},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38647,9 +39003,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2954, col: 8, offset: 93310},
+																													pos: position{line: 2963, col: 8, offset: 93528},
 																													expr: &anyMatcher{
-																														line: 2954, col: 9, offset: 93311,
+																														line: 2963, col: 9, offset: 93529,
 																													},
 																												},
 																											},
@@ -38659,7 +39015,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 772, col: 5, offset: 24920},
-																								run: (*parser).callonListContinuationElement1790,
+																								run: (*parser).callonListContinuationElement1826,
 																								expr: &seqExpr{
 																									pos: position{line: 772, col: 5, offset: 24920},
 																									exprs: []interface{}{
@@ -38668,7 +39024,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 772, col: 16, offset: 24931},
-																												run: (*parser).callonListContinuationElement1793,
+																												run: (*parser).callonListContinuationElement1829,
 																												expr: &seqExpr{
 																													pos: position{line: 772, col: 16, offset: 24931},
 																													exprs: []interface{}{
@@ -38694,10 +39050,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 774, col: 8, offset: 25022},
 																											expr: &actionExpr{
-																												pos: position{line: 2935, col: 10, offset: 92962},
-																												run: (*parser).callonListContinuationElement1799,
+																												pos: position{line: 2944, col: 10, offset: 93180},
+																												run: (*parser).callonListContinuationElement1835,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2935, col: 10, offset: 92962},
+																													pos:        position{line: 2944, col: 10, offset: 93180},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38706,28 +39062,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2957, col: 8, offset: 93360},
+																											pos: position{line: 2966, col: 8, offset: 93578},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2944, col: 12, offset: 93133},
-																													run: (*parser).callonListContinuationElement1802,
+																													pos: position{line: 2953, col: 12, offset: 93351},
+																													run: (*parser).callonListContinuationElement1838,
 																													expr: &choiceExpr{
-																														pos: position{line: 2944, col: 13, offset: 93134},
+																														pos: position{line: 2953, col: 13, offset: 93352},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 13, offset: 93134},
+																																pos:        position{line: 2953, col: 13, offset: 93352},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 20, offset: 93141},
+																																pos:        position{line: 2953, col: 20, offset: 93359},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 29, offset: 93150},
+																																pos:        position{line: 2953, col: 29, offset: 93368},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38736,9 +39092,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2954, col: 8, offset: 93310},
+																													pos: position{line: 2963, col: 8, offset: 93528},
 																													expr: &anyMatcher{
-																														line: 2954, col: 9, offset: 93311,
+																														line: 2963, col: 9, offset: 93529,
 																													},
 																												},
 																											},
@@ -38748,7 +39104,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 785, col: 26, offset: 25408},
-																								run: (*parser).callonListContinuationElement1809,
+																								run: (*parser).callonListContinuationElement1845,
 																								expr: &seqExpr{
 																									pos: position{line: 785, col: 26, offset: 25408},
 																									exprs: []interface{}{
@@ -38763,7 +39119,7 @@ var g = &grammar{
 																											label: "language",
 																											expr: &actionExpr{
 																												pos: position{line: 789, col: 13, offset: 25544},
-																												run: (*parser).callonListContinuationElement1813,
+																												run: (*parser).callonListContinuationElement1849,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 789, col: 14, offset: 25545},
 																													expr: &charClassMatcher{
@@ -38779,10 +39135,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 52, offset: 25434},
 																											expr: &actionExpr{
-																												pos: position{line: 2935, col: 10, offset: 92962},
-																												run: (*parser).callonListContinuationElement1817,
+																												pos: position{line: 2944, col: 10, offset: 93180},
+																												run: (*parser).callonListContinuationElement1853,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2935, col: 10, offset: 92962},
+																													pos:        position{line: 2944, col: 10, offset: 93180},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38791,28 +39147,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2957, col: 8, offset: 93360},
+																											pos: position{line: 2966, col: 8, offset: 93578},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2944, col: 12, offset: 93133},
-																													run: (*parser).callonListContinuationElement1820,
+																													pos: position{line: 2953, col: 12, offset: 93351},
+																													run: (*parser).callonListContinuationElement1856,
 																													expr: &choiceExpr{
-																														pos: position{line: 2944, col: 13, offset: 93134},
+																														pos: position{line: 2953, col: 13, offset: 93352},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 13, offset: 93134},
+																																pos:        position{line: 2953, col: 13, offset: 93352},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 20, offset: 93141},
+																																pos:        position{line: 2953, col: 20, offset: 93359},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 29, offset: 93150},
+																																pos:        position{line: 2953, col: 29, offset: 93368},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38821,9 +39177,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2954, col: 8, offset: 93310},
+																													pos: position{line: 2963, col: 8, offset: 93528},
 																													expr: &anyMatcher{
-																														line: 2954, col: 9, offset: 93311,
+																														line: 2963, col: 9, offset: 93529,
 																													},
 																												},
 																											},
@@ -38833,7 +39189,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 779, col: 5, offset: 25167},
-																								run: (*parser).callonListContinuationElement1827,
+																								run: (*parser).callonListContinuationElement1863,
 																								expr: &seqExpr{
 																									pos: position{line: 779, col: 5, offset: 25167},
 																									exprs: []interface{}{
@@ -38842,7 +39198,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 779, col: 16, offset: 25178},
-																												run: (*parser).callonListContinuationElement1830,
+																												run: (*parser).callonListContinuationElement1866,
 																												expr: &seqExpr{
 																													pos: position{line: 779, col: 16, offset: 25178},
 																													exprs: []interface{}{
@@ -38868,10 +39224,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 781, col: 8, offset: 25268},
 																											expr: &actionExpr{
-																												pos: position{line: 2935, col: 10, offset: 92962},
-																												run: (*parser).callonListContinuationElement1836,
+																												pos: position{line: 2944, col: 10, offset: 93180},
+																												run: (*parser).callonListContinuationElement1872,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2935, col: 10, offset: 92962},
+																													pos:        position{line: 2944, col: 10, offset: 93180},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38880,28 +39236,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2957, col: 8, offset: 93360},
+																											pos: position{line: 2966, col: 8, offset: 93578},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2944, col: 12, offset: 93133},
-																													run: (*parser).callonListContinuationElement1839,
+																													pos: position{line: 2953, col: 12, offset: 93351},
+																													run: (*parser).callonListContinuationElement1875,
 																													expr: &choiceExpr{
-																														pos: position{line: 2944, col: 13, offset: 93134},
+																														pos: position{line: 2953, col: 13, offset: 93352},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 13, offset: 93134},
+																																pos:        position{line: 2953, col: 13, offset: 93352},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 20, offset: 93141},
+																																pos:        position{line: 2953, col: 20, offset: 93359},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 29, offset: 93150},
+																																pos:        position{line: 2953, col: 29, offset: 93368},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38910,9 +39266,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2954, col: 8, offset: 93310},
+																													pos: position{line: 2963, col: 8, offset: 93528},
 																													expr: &anyMatcher{
-																														line: 2954, col: 9, offset: 93311,
+																														line: 2963, col: 9, offset: 93529,
 																													},
 																												},
 																											},
@@ -38922,7 +39278,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 794, col: 5, offset: 25704},
-																								run: (*parser).callonListContinuationElement1846,
+																								run: (*parser).callonListContinuationElement1882,
 																								expr: &seqExpr{
 																									pos: position{line: 794, col: 5, offset: 25704},
 																									exprs: []interface{}{
@@ -38931,7 +39287,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 794, col: 16, offset: 25715},
-																												run: (*parser).callonListContinuationElement1849,
+																												run: (*parser).callonListContinuationElement1885,
 																												expr: &seqExpr{
 																													pos: position{line: 794, col: 16, offset: 25715},
 																													exprs: []interface{}{
@@ -38957,10 +39313,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 796, col: 8, offset: 25806},
 																											expr: &actionExpr{
-																												pos: position{line: 2935, col: 10, offset: 92962},
-																												run: (*parser).callonListContinuationElement1855,
+																												pos: position{line: 2944, col: 10, offset: 93180},
+																												run: (*parser).callonListContinuationElement1891,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2935, col: 10, offset: 92962},
+																													pos:        position{line: 2944, col: 10, offset: 93180},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38969,28 +39325,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2957, col: 8, offset: 93360},
+																											pos: position{line: 2966, col: 8, offset: 93578},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2944, col: 12, offset: 93133},
-																													run: (*parser).callonListContinuationElement1858,
+																													pos: position{line: 2953, col: 12, offset: 93351},
+																													run: (*parser).callonListContinuationElement1894,
 																													expr: &choiceExpr{
-																														pos: position{line: 2944, col: 13, offset: 93134},
+																														pos: position{line: 2953, col: 13, offset: 93352},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 13, offset: 93134},
+																																pos:        position{line: 2953, col: 13, offset: 93352},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 20, offset: 93141},
+																																pos:        position{line: 2953, col: 20, offset: 93359},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 29, offset: 93150},
+																																pos:        position{line: 2953, col: 29, offset: 93368},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38999,9 +39355,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2954, col: 8, offset: 93310},
+																													pos: position{line: 2963, col: 8, offset: 93528},
 																													expr: &anyMatcher{
-																														line: 2954, col: 9, offset: 93311,
+																														line: 2963, col: 9, offset: 93529,
 																													},
 																												},
 																											},
@@ -39011,7 +39367,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 808, col: 5, offset: 26180},
-																								run: (*parser).callonListContinuationElement1865,
+																								run: (*parser).callonListContinuationElement1901,
 																								expr: &seqExpr{
 																									pos: position{line: 808, col: 5, offset: 26180},
 																									exprs: []interface{}{
@@ -39020,7 +39376,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 808, col: 16, offset: 26191},
-																												run: (*parser).callonListContinuationElement1868,
+																												run: (*parser).callonListContinuationElement1904,
 																												expr: &seqExpr{
 																													pos: position{line: 808, col: 16, offset: 26191},
 																													exprs: []interface{}{
@@ -39046,10 +39402,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 810, col: 8, offset: 26282},
 																											expr: &actionExpr{
-																												pos: position{line: 2935, col: 10, offset: 92962},
-																												run: (*parser).callonListContinuationElement1874,
+																												pos: position{line: 2944, col: 10, offset: 93180},
+																												run: (*parser).callonListContinuationElement1910,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2935, col: 10, offset: 92962},
+																													pos:        position{line: 2944, col: 10, offset: 93180},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39058,28 +39414,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2957, col: 8, offset: 93360},
+																											pos: position{line: 2966, col: 8, offset: 93578},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2944, col: 12, offset: 93133},
-																													run: (*parser).callonListContinuationElement1877,
+																													pos: position{line: 2953, col: 12, offset: 93351},
+																													run: (*parser).callonListContinuationElement1913,
 																													expr: &choiceExpr{
-																														pos: position{line: 2944, col: 13, offset: 93134},
+																														pos: position{line: 2953, col: 13, offset: 93352},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 13, offset: 93134},
+																																pos:        position{line: 2953, col: 13, offset: 93352},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 20, offset: 93141},
+																																pos:        position{line: 2953, col: 20, offset: 93359},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 29, offset: 93150},
+																																pos:        position{line: 2953, col: 29, offset: 93368},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39088,9 +39444,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2954, col: 8, offset: 93310},
+																													pos: position{line: 2963, col: 8, offset: 93528},
 																													expr: &anyMatcher{
-																														line: 2954, col: 9, offset: 93311,
+																														line: 2963, col: 9, offset: 93529,
 																													},
 																												},
 																											},
@@ -39100,7 +39456,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 815, col: 5, offset: 26432},
-																								run: (*parser).callonListContinuationElement1884,
+																								run: (*parser).callonListContinuationElement1920,
 																								expr: &seqExpr{
 																									pos: position{line: 815, col: 5, offset: 26432},
 																									exprs: []interface{}{
@@ -39109,7 +39465,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 815, col: 16, offset: 26443},
-																												run: (*parser).callonListContinuationElement1887,
+																												run: (*parser).callonListContinuationElement1923,
 																												expr: &seqExpr{
 																													pos: position{line: 815, col: 16, offset: 26443},
 																													exprs: []interface{}{
@@ -39135,10 +39491,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 817, col: 8, offset: 26534},
 																											expr: &actionExpr{
-																												pos: position{line: 2935, col: 10, offset: 92962},
-																												run: (*parser).callonListContinuationElement1893,
+																												pos: position{line: 2944, col: 10, offset: 93180},
+																												run: (*parser).callonListContinuationElement1929,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2935, col: 10, offset: 92962},
+																													pos:        position{line: 2944, col: 10, offset: 93180},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39147,28 +39503,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2957, col: 8, offset: 93360},
+																											pos: position{line: 2966, col: 8, offset: 93578},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2944, col: 12, offset: 93133},
-																													run: (*parser).callonListContinuationElement1896,
+																													pos: position{line: 2953, col: 12, offset: 93351},
+																													run: (*parser).callonListContinuationElement1932,
 																													expr: &choiceExpr{
-																														pos: position{line: 2944, col: 13, offset: 93134},
+																														pos: position{line: 2953, col: 13, offset: 93352},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 13, offset: 93134},
+																																pos:        position{line: 2953, col: 13, offset: 93352},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 20, offset: 93141},
+																																pos:        position{line: 2953, col: 20, offset: 93359},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 29, offset: 93150},
+																																pos:        position{line: 2953, col: 29, offset: 93368},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39177,9 +39533,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2954, col: 8, offset: 93310},
+																													pos: position{line: 2963, col: 8, offset: 93528},
 																													expr: &anyMatcher{
-																														line: 2954, col: 9, offset: 93311,
+																														line: 2963, col: 9, offset: 93529,
 																													},
 																												},
 																											},
@@ -39189,7 +39545,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 822, col: 5, offset: 26682},
-																								run: (*parser).callonListContinuationElement1903,
+																								run: (*parser).callonListContinuationElement1939,
 																								expr: &seqExpr{
 																									pos: position{line: 822, col: 5, offset: 26682},
 																									exprs: []interface{}{
@@ -39198,7 +39554,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 822, col: 16, offset: 26693},
-																												run: (*parser).callonListContinuationElement1906,
+																												run: (*parser).callonListContinuationElement1942,
 																												expr: &seqExpr{
 																													pos: position{line: 822, col: 16, offset: 26693},
 																													exprs: []interface{}{
@@ -39224,10 +39580,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 824, col: 8, offset: 26784},
 																											expr: &actionExpr{
-																												pos: position{line: 2935, col: 10, offset: 92962},
-																												run: (*parser).callonListContinuationElement1912,
+																												pos: position{line: 2944, col: 10, offset: 93180},
+																												run: (*parser).callonListContinuationElement1948,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2935, col: 10, offset: 92962},
+																													pos:        position{line: 2944, col: 10, offset: 93180},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39236,28 +39592,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2957, col: 8, offset: 93360},
+																											pos: position{line: 2966, col: 8, offset: 93578},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2944, col: 12, offset: 93133},
-																													run: (*parser).callonListContinuationElement1915,
+																													pos: position{line: 2953, col: 12, offset: 93351},
+																													run: (*parser).callonListContinuationElement1951,
 																													expr: &choiceExpr{
-																														pos: position{line: 2944, col: 13, offset: 93134},
+																														pos: position{line: 2953, col: 13, offset: 93352},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 13, offset: 93134},
+																																pos:        position{line: 2953, col: 13, offset: 93352},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 20, offset: 93141},
+																																pos:        position{line: 2953, col: 20, offset: 93359},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 29, offset: 93150},
+																																pos:        position{line: 2953, col: 29, offset: 93368},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39266,9 +39622,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2954, col: 8, offset: 93310},
+																													pos: position{line: 2963, col: 8, offset: 93528},
 																													expr: &anyMatcher{
-																														line: 2954, col: 9, offset: 93311,
+																														line: 2963, col: 9, offset: 93529,
 																													},
 																												},
 																											},
@@ -39278,7 +39634,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 829, col: 5, offset: 26928},
-																								run: (*parser).callonListContinuationElement1922,
+																								run: (*parser).callonListContinuationElement1958,
 																								expr: &seqExpr{
 																									pos: position{line: 829, col: 5, offset: 26928},
 																									exprs: []interface{}{
@@ -39287,7 +39643,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 829, col: 16, offset: 26939},
-																												run: (*parser).callonListContinuationElement1925,
+																												run: (*parser).callonListContinuationElement1961,
 																												expr: &seqExpr{
 																													pos: position{line: 829, col: 16, offset: 26939},
 																													exprs: []interface{}{
@@ -39313,10 +39669,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 831, col: 8, offset: 27030},
 																											expr: &actionExpr{
-																												pos: position{line: 2935, col: 10, offset: 92962},
-																												run: (*parser).callonListContinuationElement1931,
+																												pos: position{line: 2944, col: 10, offset: 93180},
+																												run: (*parser).callonListContinuationElement1967,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2935, col: 10, offset: 92962},
+																													pos:        position{line: 2944, col: 10, offset: 93180},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39325,28 +39681,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2957, col: 8, offset: 93360},
+																											pos: position{line: 2966, col: 8, offset: 93578},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2944, col: 12, offset: 93133},
-																													run: (*parser).callonListContinuationElement1934,
+																													pos: position{line: 2953, col: 12, offset: 93351},
+																													run: (*parser).callonListContinuationElement1970,
 																													expr: &choiceExpr{
-																														pos: position{line: 2944, col: 13, offset: 93134},
+																														pos: position{line: 2953, col: 13, offset: 93352},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 13, offset: 93134},
+																																pos:        position{line: 2953, col: 13, offset: 93352},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 20, offset: 93141},
+																																pos:        position{line: 2953, col: 20, offset: 93359},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2944, col: 29, offset: 93150},
+																																pos:        position{line: 2953, col: 29, offset: 93368},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39355,9 +39711,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2954, col: 8, offset: 93310},
+																													pos: position{line: 2963, col: 8, offset: 93528},
 																													expr: &anyMatcher{
-																														line: 2954, col: 9, offset: 93311,
+																														line: 2963, col: 9, offset: 93529,
 																													},
 																												},
 																											},
@@ -39376,12 +39732,12 @@ var g = &grammar{
 																	pos:   position{line: 1542, col: 5, offset: 50303},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2885, col: 14, offset: 91555},
-																		run: (*parser).callonListContinuationElement1942,
+																		pos: position{line: 2894, col: 14, offset: 91773},
+																		run: (*parser).callonListContinuationElement1978,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2885, col: 14, offset: 91555},
+																			pos: position{line: 2894, col: 14, offset: 91773},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2885, col: 14, offset: 91555},
+																				pos:        position{line: 2894, col: 14, offset: 91773},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -39391,28 +39747,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2957, col: 8, offset: 93360},
+																	pos: position{line: 2966, col: 8, offset: 93578},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2944, col: 12, offset: 93133},
-																			run: (*parser).callonListContinuationElement1946,
+																			pos: position{line: 2953, col: 12, offset: 93351},
+																			run: (*parser).callonListContinuationElement1982,
 																			expr: &choiceExpr{
-																				pos: position{line: 2944, col: 13, offset: 93134},
+																				pos: position{line: 2953, col: 13, offset: 93352},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 13, offset: 93134},
+																						pos:        position{line: 2953, col: 13, offset: 93352},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 20, offset: 93141},
+																						pos:        position{line: 2953, col: 20, offset: 93359},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 29, offset: 93150},
+																						pos:        position{line: 2953, col: 29, offset: 93368},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -39421,9 +39777,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2954, col: 8, offset: 93310},
+																			pos: position{line: 2963, col: 8, offset: 93528},
 																			expr: &anyMatcher{
-																				line: 2954, col: 9, offset: 93311,
+																				line: 2963, col: 9, offset: 93529,
 																			},
 																		},
 																	},
@@ -39488,10 +39844,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1737, col: 66, offset: 56415},
 							expr: &actionExpr{
-								pos: position{line: 2935, col: 10, offset: 92962},
+								pos: position{line: 2944, col: 10, offset: 93180},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2935, col: 10, offset: 92962},
+									pos:        position{line: 2944, col: 10, offset: 93180},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -39505,25 +39861,25 @@ var g = &grammar{
 								pos: position{line: 1737, col: 75, offset: 56424},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2944, col: 12, offset: 93133},
+										pos: position{line: 2953, col: 12, offset: 93351},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2944, col: 13, offset: 93134},
+											pos: position{line: 2953, col: 13, offset: 93352},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2944, col: 13, offset: 93134},
+													pos:        position{line: 2953, col: 13, offset: 93352},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2944, col: 20, offset: 93141},
+													pos:        position{line: 2953, col: 20, offset: 93359},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2944, col: 29, offset: 93150},
+													pos:        position{line: 2953, col: 29, offset: 93368},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -39532,9 +39888,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2954, col: 8, offset: 93310},
+										pos: position{line: 2963, col: 8, offset: 93528},
 										expr: &anyMatcher{
-											line: 2954, col: 9, offset: 93311,
+											line: 2963, col: 9, offset: 93529,
 										},
 									},
 									&ruleRefExpr{
@@ -39563,7 +39919,7 @@ var g = &grammar{
 								pos: position{line: 1778, col: 7, offset: 57679},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2825, col: 13, offset: 90057},
+										pos:        position{line: 2834, col: 13, offset: 90275},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
@@ -39582,12 +39938,12 @@ var g = &grammar{
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2939, col: 11, offset: 93023},
+													pos: position{line: 2948, col: 11, offset: 93241},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2939, col: 11, offset: 93023},
+														pos: position{line: 2948, col: 11, offset: 93241},
 														expr: &charClassMatcher{
-															pos:        position{line: 2939, col: 11, offset: 93023},
+															pos:        position{line: 2948, col: 11, offset: 93241},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -39678,12 +40034,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1770, col: 13, offset: 57480},
 																expr: &actionExpr{
-																	pos: position{line: 2939, col: 11, offset: 93023},
+																	pos: position{line: 2948, col: 11, offset: 93241},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2939, col: 11, offset: 93023},
+																		pos: position{line: 2948, col: 11, offset: 93241},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2939, col: 11, offset: 93023},
+																			pos:        position{line: 2948, col: 11, offset: 93241},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39714,12 +40070,12 @@ var g = &grammar{
 											pos:   position{line: 1816, col: 5, offset: 58966},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2885, col: 14, offset: 91555},
+												pos: position{line: 2894, col: 14, offset: 91773},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2885, col: 14, offset: 91555},
+													pos: position{line: 2894, col: 14, offset: 91773},
 													expr: &charClassMatcher{
-														pos:        position{line: 2885, col: 14, offset: 91555},
+														pos:        position{line: 2894, col: 14, offset: 91773},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39733,28 +40089,28 @@ var g = &grammar{
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2957, col: 8, offset: 93360},
+											pos: position{line: 2966, col: 8, offset: 93578},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2944, col: 12, offset: 93133},
+													pos: position{line: 2953, col: 12, offset: 93351},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2944, col: 13, offset: 93134},
+														pos: position{line: 2953, col: 13, offset: 93352},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2944, col: 13, offset: 93134},
+																pos:        position{line: 2953, col: 13, offset: 93352},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2944, col: 20, offset: 93141},
+																pos:        position{line: 2953, col: 20, offset: 93359},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2944, col: 29, offset: 93150},
+																pos:        position{line: 2953, col: 29, offset: 93368},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39763,9 +40119,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2954, col: 8, offset: 93310},
+													pos: position{line: 2963, col: 8, offset: 93528},
 													expr: &anyMatcher{
-														line: 2954, col: 9, offset: 93311,
+														line: 2963, col: 9, offset: 93529,
 													},
 												},
 											},
@@ -39790,9 +40146,9 @@ var g = &grammar{
 										pos: position{line: 1789, col: 9, offset: 58244},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2952, col: 11, offset: 93296},
+												pos: position{line: 2961, col: 11, offset: 93514},
 												expr: &anyMatcher{
-													line: 2952, col: 13, offset: 93298,
+													line: 2961, col: 13, offset: 93516,
 												},
 											},
 											&notExpr{
@@ -39804,18 +40160,18 @@ var g = &grammar{
 														pos: position{line: 702, col: 14, offset: 22577},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2952, col: 11, offset: 93296},
+																pos: position{line: 2961, col: 11, offset: 93514},
 																expr: &anyMatcher{
-																	line: 2952, col: 13, offset: 93298,
+																	line: 2961, col: 13, offset: 93516,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 702, col: 21, offset: 22584},
 																expr: &actionExpr{
-																	pos: position{line: 2935, col: 10, offset: 92962},
+																	pos: position{line: 2944, col: 10, offset: 93180},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2935, col: 10, offset: 92962},
+																		pos:        position{line: 2944, col: 10, offset: 93180},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39824,28 +40180,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2957, col: 8, offset: 93360},
+																pos: position{line: 2966, col: 8, offset: 93578},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2944, col: 12, offset: 93133},
+																		pos: position{line: 2953, col: 12, offset: 93351},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2944, col: 13, offset: 93134},
+																			pos: position{line: 2953, col: 13, offset: 93352},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2944, col: 13, offset: 93134},
+																					pos:        position{line: 2953, col: 13, offset: 93352},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2944, col: 20, offset: 93141},
+																					pos:        position{line: 2953, col: 20, offset: 93359},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2944, col: 29, offset: 93150},
+																					pos:        position{line: 2953, col: 29, offset: 93368},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39854,9 +40210,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2954, col: 8, offset: 93310},
+																		pos: position{line: 2963, col: 8, offset: 93528},
 																		expr: &anyMatcher{
-																			line: 2954, col: 9, offset: 93311,
+																			line: 2963, col: 9, offset: 93529,
 																		},
 																	},
 																},
@@ -39883,7 +40239,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 749, col: 5, offset: 24130},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2825, col: 13, offset: 90057},
+																	pos:        position{line: 2834, col: 13, offset: 90275},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -39933,10 +40289,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 767, col: 8, offset: 24774},
 																						expr: &actionExpr{
-																							pos: position{line: 2935, col: 10, offset: 92962},
+																							pos: position{line: 2944, col: 10, offset: 93180},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2935, col: 10, offset: 92962},
+																								pos:        position{line: 2944, col: 10, offset: 93180},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39945,28 +40301,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2957, col: 8, offset: 93360},
+																						pos: position{line: 2966, col: 8, offset: 93578},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2944, col: 12, offset: 93133},
+																								pos: position{line: 2953, col: 12, offset: 93351},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2944, col: 13, offset: 93134},
+																									pos: position{line: 2953, col: 13, offset: 93352},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 13, offset: 93134},
+																											pos:        position{line: 2953, col: 13, offset: 93352},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 20, offset: 93141},
+																											pos:        position{line: 2953, col: 20, offset: 93359},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 29, offset: 93150},
+																											pos:        position{line: 2953, col: 29, offset: 93368},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39975,9 +40331,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2954, col: 8, offset: 93310},
+																								pos: position{line: 2963, col: 8, offset: 93528},
 																								expr: &anyMatcher{
-																									line: 2954, col: 9, offset: 93311,
+																									line: 2963, col: 9, offset: 93529,
 																								},
 																							},
 																						},
@@ -40022,10 +40378,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 774, col: 8, offset: 25022},
 																						expr: &actionExpr{
-																							pos: position{line: 2935, col: 10, offset: 92962},
+																							pos: position{line: 2944, col: 10, offset: 93180},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2935, col: 10, offset: 92962},
+																								pos:        position{line: 2944, col: 10, offset: 93180},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40034,28 +40390,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2957, col: 8, offset: 93360},
+																						pos: position{line: 2966, col: 8, offset: 93578},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2944, col: 12, offset: 93133},
+																								pos: position{line: 2953, col: 12, offset: 93351},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2944, col: 13, offset: 93134},
+																									pos: position{line: 2953, col: 13, offset: 93352},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 13, offset: 93134},
+																											pos:        position{line: 2953, col: 13, offset: 93352},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 20, offset: 93141},
+																											pos:        position{line: 2953, col: 20, offset: 93359},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 29, offset: 93150},
+																											pos:        position{line: 2953, col: 29, offset: 93368},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40064,9 +40420,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2954, col: 8, offset: 93310},
+																								pos: position{line: 2963, col: 8, offset: 93528},
 																								expr: &anyMatcher{
-																									line: 2954, col: 9, offset: 93311,
+																									line: 2963, col: 9, offset: 93529,
 																								},
 																							},
 																						},
@@ -40107,10 +40463,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 785, col: 52, offset: 25434},
 																						expr: &actionExpr{
-																							pos: position{line: 2935, col: 10, offset: 92962},
+																							pos: position{line: 2944, col: 10, offset: 93180},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2935, col: 10, offset: 92962},
+																								pos:        position{line: 2944, col: 10, offset: 93180},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40119,28 +40475,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2957, col: 8, offset: 93360},
+																						pos: position{line: 2966, col: 8, offset: 93578},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2944, col: 12, offset: 93133},
+																								pos: position{line: 2953, col: 12, offset: 93351},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2944, col: 13, offset: 93134},
+																									pos: position{line: 2953, col: 13, offset: 93352},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 13, offset: 93134},
+																											pos:        position{line: 2953, col: 13, offset: 93352},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 20, offset: 93141},
+																											pos:        position{line: 2953, col: 20, offset: 93359},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 29, offset: 93150},
+																											pos:        position{line: 2953, col: 29, offset: 93368},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40149,9 +40505,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2954, col: 8, offset: 93310},
+																								pos: position{line: 2963, col: 8, offset: 93528},
 																								expr: &anyMatcher{
-																									line: 2954, col: 9, offset: 93311,
+																									line: 2963, col: 9, offset: 93529,
 																								},
 																							},
 																						},
@@ -40196,10 +40552,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 781, col: 8, offset: 25268},
 																						expr: &actionExpr{
-																							pos: position{line: 2935, col: 10, offset: 92962},
+																							pos: position{line: 2944, col: 10, offset: 93180},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2935, col: 10, offset: 92962},
+																								pos:        position{line: 2944, col: 10, offset: 93180},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40208,28 +40564,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2957, col: 8, offset: 93360},
+																						pos: position{line: 2966, col: 8, offset: 93578},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2944, col: 12, offset: 93133},
+																								pos: position{line: 2953, col: 12, offset: 93351},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2944, col: 13, offset: 93134},
+																									pos: position{line: 2953, col: 13, offset: 93352},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 13, offset: 93134},
+																											pos:        position{line: 2953, col: 13, offset: 93352},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 20, offset: 93141},
+																											pos:        position{line: 2953, col: 20, offset: 93359},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 29, offset: 93150},
+																											pos:        position{line: 2953, col: 29, offset: 93368},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40238,9 +40594,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2954, col: 8, offset: 93310},
+																								pos: position{line: 2963, col: 8, offset: 93528},
 																								expr: &anyMatcher{
-																									line: 2954, col: 9, offset: 93311,
+																									line: 2963, col: 9, offset: 93529,
 																								},
 																							},
 																						},
@@ -40285,10 +40641,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 796, col: 8, offset: 25806},
 																						expr: &actionExpr{
-																							pos: position{line: 2935, col: 10, offset: 92962},
+																							pos: position{line: 2944, col: 10, offset: 93180},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2935, col: 10, offset: 92962},
+																								pos:        position{line: 2944, col: 10, offset: 93180},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40297,28 +40653,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2957, col: 8, offset: 93360},
+																						pos: position{line: 2966, col: 8, offset: 93578},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2944, col: 12, offset: 93133},
+																								pos: position{line: 2953, col: 12, offset: 93351},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2944, col: 13, offset: 93134},
+																									pos: position{line: 2953, col: 13, offset: 93352},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 13, offset: 93134},
+																											pos:        position{line: 2953, col: 13, offset: 93352},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 20, offset: 93141},
+																											pos:        position{line: 2953, col: 20, offset: 93359},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 29, offset: 93150},
+																											pos:        position{line: 2953, col: 29, offset: 93368},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40327,9 +40683,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2954, col: 8, offset: 93310},
+																								pos: position{line: 2963, col: 8, offset: 93528},
 																								expr: &anyMatcher{
-																									line: 2954, col: 9, offset: 93311,
+																									line: 2963, col: 9, offset: 93529,
 																								},
 																							},
 																						},
@@ -40374,10 +40730,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 810, col: 8, offset: 26282},
 																						expr: &actionExpr{
-																							pos: position{line: 2935, col: 10, offset: 92962},
+																							pos: position{line: 2944, col: 10, offset: 93180},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2935, col: 10, offset: 92962},
+																								pos:        position{line: 2944, col: 10, offset: 93180},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40386,28 +40742,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2957, col: 8, offset: 93360},
+																						pos: position{line: 2966, col: 8, offset: 93578},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2944, col: 12, offset: 93133},
+																								pos: position{line: 2953, col: 12, offset: 93351},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2944, col: 13, offset: 93134},
+																									pos: position{line: 2953, col: 13, offset: 93352},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 13, offset: 93134},
+																											pos:        position{line: 2953, col: 13, offset: 93352},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 20, offset: 93141},
+																											pos:        position{line: 2953, col: 20, offset: 93359},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 29, offset: 93150},
+																											pos:        position{line: 2953, col: 29, offset: 93368},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40416,9 +40772,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2954, col: 8, offset: 93310},
+																								pos: position{line: 2963, col: 8, offset: 93528},
 																								expr: &anyMatcher{
-																									line: 2954, col: 9, offset: 93311,
+																									line: 2963, col: 9, offset: 93529,
 																								},
 																							},
 																						},
@@ -40463,10 +40819,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 817, col: 8, offset: 26534},
 																						expr: &actionExpr{
-																							pos: position{line: 2935, col: 10, offset: 92962},
+																							pos: position{line: 2944, col: 10, offset: 93180},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2935, col: 10, offset: 92962},
+																								pos:        position{line: 2944, col: 10, offset: 93180},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40475,28 +40831,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2957, col: 8, offset: 93360},
+																						pos: position{line: 2966, col: 8, offset: 93578},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2944, col: 12, offset: 93133},
+																								pos: position{line: 2953, col: 12, offset: 93351},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2944, col: 13, offset: 93134},
+																									pos: position{line: 2953, col: 13, offset: 93352},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 13, offset: 93134},
+																											pos:        position{line: 2953, col: 13, offset: 93352},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 20, offset: 93141},
+																											pos:        position{line: 2953, col: 20, offset: 93359},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 29, offset: 93150},
+																											pos:        position{line: 2953, col: 29, offset: 93368},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40505,9 +40861,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2954, col: 8, offset: 93310},
+																								pos: position{line: 2963, col: 8, offset: 93528},
 																								expr: &anyMatcher{
-																									line: 2954, col: 9, offset: 93311,
+																									line: 2963, col: 9, offset: 93529,
 																								},
 																							},
 																						},
@@ -40552,10 +40908,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 824, col: 8, offset: 26784},
 																						expr: &actionExpr{
-																							pos: position{line: 2935, col: 10, offset: 92962},
+																							pos: position{line: 2944, col: 10, offset: 93180},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2935, col: 10, offset: 92962},
+																								pos:        position{line: 2944, col: 10, offset: 93180},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40564,28 +40920,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2957, col: 8, offset: 93360},
+																						pos: position{line: 2966, col: 8, offset: 93578},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2944, col: 12, offset: 93133},
+																								pos: position{line: 2953, col: 12, offset: 93351},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2944, col: 13, offset: 93134},
+																									pos: position{line: 2953, col: 13, offset: 93352},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 13, offset: 93134},
+																											pos:        position{line: 2953, col: 13, offset: 93352},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 20, offset: 93141},
+																											pos:        position{line: 2953, col: 20, offset: 93359},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 29, offset: 93150},
+																											pos:        position{line: 2953, col: 29, offset: 93368},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40594,9 +40950,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2954, col: 8, offset: 93310},
+																								pos: position{line: 2963, col: 8, offset: 93528},
 																								expr: &anyMatcher{
-																									line: 2954, col: 9, offset: 93311,
+																									line: 2963, col: 9, offset: 93529,
 																								},
 																							},
 																						},
@@ -40641,10 +40997,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 831, col: 8, offset: 27030},
 																						expr: &actionExpr{
-																							pos: position{line: 2935, col: 10, offset: 92962},
+																							pos: position{line: 2944, col: 10, offset: 93180},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2935, col: 10, offset: 92962},
+																								pos:        position{line: 2944, col: 10, offset: 93180},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40653,28 +41009,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2957, col: 8, offset: 93360},
+																						pos: position{line: 2966, col: 8, offset: 93578},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2944, col: 12, offset: 93133},
+																								pos: position{line: 2953, col: 12, offset: 93351},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2944, col: 13, offset: 93134},
+																									pos: position{line: 2953, col: 13, offset: 93352},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 13, offset: 93134},
+																											pos:        position{line: 2953, col: 13, offset: 93352},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 20, offset: 93141},
+																											pos:        position{line: 2953, col: 20, offset: 93359},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2944, col: 29, offset: 93150},
+																											pos:        position{line: 2953, col: 29, offset: 93368},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40683,9 +41039,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2954, col: 8, offset: 93310},
+																								pos: position{line: 2963, col: 8, offset: 93528},
 																								expr: &anyMatcher{
-																									line: 2954, col: 9, offset: 93311,
+																									line: 2963, col: 9, offset: 93529,
 																								},
 																							},
 																						},
@@ -40714,10 +41070,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1567, col: 31, offset: 50969},
 															expr: &actionExpr{
-																pos: position{line: 2935, col: 10, offset: 92962},
+																pos: position{line: 2944, col: 10, offset: 93180},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2935, col: 10, offset: 92962},
+																	pos:        position{line: 2944, col: 10, offset: 93180},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40726,25 +41082,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2944, col: 12, offset: 93133},
+															pos: position{line: 2953, col: 12, offset: 93351},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2944, col: 13, offset: 93134},
+																pos: position{line: 2953, col: 13, offset: 93352},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 13, offset: 93134},
+																		pos:        position{line: 2953, col: 13, offset: 93352},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 20, offset: 93141},
+																		pos:        position{line: 2953, col: 20, offset: 93359},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 29, offset: 93150},
+																		pos:        position{line: 2953, col: 29, offset: 93368},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40786,12 +41142,12 @@ var g = &grammar{
 																		pos:   position{line: 2538, col: 49, offset: 81767},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2881, col: 13, offset: 91488},
+																			pos: position{line: 2890, col: 13, offset: 91706},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2881, col: 13, offset: 91488},
+																				pos: position{line: 2890, col: 13, offset: 91706},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 13, offset: 91488},
+																					pos:        position{line: 2890, col: 13, offset: 91706},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40801,28 +41157,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2957, col: 8, offset: 93360},
+																		pos: position{line: 2966, col: 8, offset: 93578},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
+																				pos: position{line: 2953, col: 12, offset: 93351},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40831,9 +41187,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2954, col: 8, offset: 93310},
+																				pos: position{line: 2963, col: 8, offset: 93528},
 																				expr: &anyMatcher{
-																					line: 2954, col: 9, offset: 93311,
+																					line: 2963, col: 9, offset: 93529,
 																				},
 																			},
 																		},
@@ -40851,12 +41207,12 @@ var g = &grammar{
 																		pos:   position{line: 1816, col: 5, offset: 58966},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2885, col: 14, offset: 91555},
+																			pos: position{line: 2894, col: 14, offset: 91773},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2885, col: 14, offset: 91555},
+																				pos: position{line: 2894, col: 14, offset: 91773},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2885, col: 14, offset: 91555},
+																					pos:        position{line: 2894, col: 14, offset: 91773},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40870,28 +41226,28 @@ var g = &grammar{
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2957, col: 8, offset: 93360},
+																		pos: position{line: 2966, col: 8, offset: 93578},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
+																				pos: position{line: 2953, col: 12, offset: 93351},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40900,9 +41256,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2954, col: 8, offset: 93310},
+																				pos: position{line: 2963, col: 8, offset: 93528},
 																				expr: &anyMatcher{
-																					line: 2954, col: 9, offset: 93311,
+																					line: 2963, col: 9, offset: 93529,
 																				},
 																			},
 																		},
@@ -41008,12 +41364,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1770, col: 13, offset: 57480},
 																expr: &actionExpr{
-																	pos: position{line: 2939, col: 11, offset: 93023},
+																	pos: position{line: 2948, col: 11, offset: 93241},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2939, col: 11, offset: 93023},
+																		pos: position{line: 2948, col: 11, offset: 93241},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2939, col: 11, offset: 93023},
+																			pos:        position{line: 2948, col: 11, offset: 93241},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41044,12 +41400,12 @@ var g = &grammar{
 											pos:   position{line: 1816, col: 5, offset: 58966},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2885, col: 14, offset: 91555},
+												pos: position{line: 2894, col: 14, offset: 91773},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2885, col: 14, offset: 91555},
+													pos: position{line: 2894, col: 14, offset: 91773},
 													expr: &charClassMatcher{
-														pos:        position{line: 2885, col: 14, offset: 91555},
+														pos:        position{line: 2894, col: 14, offset: 91773},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -41063,28 +41419,28 @@ var g = &grammar{
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2957, col: 8, offset: 93360},
+											pos: position{line: 2966, col: 8, offset: 93578},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2944, col: 12, offset: 93133},
+													pos: position{line: 2953, col: 12, offset: 93351},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2944, col: 13, offset: 93134},
+														pos: position{line: 2953, col: 13, offset: 93352},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2944, col: 13, offset: 93134},
+																pos:        position{line: 2953, col: 13, offset: 93352},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2944, col: 20, offset: 93141},
+																pos:        position{line: 2953, col: 20, offset: 93359},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2944, col: 29, offset: 93150},
+																pos:        position{line: 2953, col: 29, offset: 93368},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -41093,9 +41449,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2954, col: 8, offset: 93310},
+													pos: position{line: 2963, col: 8, offset: 93528},
 													expr: &anyMatcher{
-														line: 2954, col: 9, offset: 93311,
+														line: 2963, col: 9, offset: 93529,
 													},
 												},
 											},
@@ -41116,9 +41472,9 @@ var g = &grammar{
 										pos: position{line: 1805, col: 9, offset: 58672},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2952, col: 11, offset: 93296},
+												pos: position{line: 2961, col: 11, offset: 93514},
 												expr: &anyMatcher{
-													line: 2952, col: 13, offset: 93298,
+													line: 2961, col: 13, offset: 93516,
 												},
 											},
 											&notExpr{
@@ -41130,18 +41486,18 @@ var g = &grammar{
 														pos: position{line: 702, col: 14, offset: 22577},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2952, col: 11, offset: 93296},
+																pos: position{line: 2961, col: 11, offset: 93514},
 																expr: &anyMatcher{
-																	line: 2952, col: 13, offset: 93298,
+																	line: 2961, col: 13, offset: 93516,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 702, col: 21, offset: 22584},
 																expr: &actionExpr{
-																	pos: position{line: 2935, col: 10, offset: 92962},
+																	pos: position{line: 2944, col: 10, offset: 93180},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2935, col: 10, offset: 92962},
+																		pos:        position{line: 2944, col: 10, offset: 93180},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -41150,28 +41506,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2957, col: 8, offset: 93360},
+																pos: position{line: 2966, col: 8, offset: 93578},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2944, col: 12, offset: 93133},
+																		pos: position{line: 2953, col: 12, offset: 93351},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2944, col: 13, offset: 93134},
+																			pos: position{line: 2953, col: 13, offset: 93352},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2944, col: 13, offset: 93134},
+																					pos:        position{line: 2953, col: 13, offset: 93352},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2944, col: 20, offset: 93141},
+																					pos:        position{line: 2953, col: 20, offset: 93359},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2944, col: 29, offset: 93150},
+																					pos:        position{line: 2953, col: 29, offset: 93368},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -41180,9 +41536,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2954, col: 8, offset: 93310},
+																		pos: position{line: 2963, col: 8, offset: 93528},
 																		expr: &anyMatcher{
-																			line: 2954, col: 9, offset: 93311,
+																			line: 2963, col: 9, offset: 93529,
 																		},
 																	},
 																},
@@ -41229,12 +41585,12 @@ var g = &grammar{
 																		pos:   position{line: 2538, col: 49, offset: 81767},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2881, col: 13, offset: 91488},
+																			pos: position{line: 2890, col: 13, offset: 91706},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2881, col: 13, offset: 91488},
+																				pos: position{line: 2890, col: 13, offset: 91706},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 13, offset: 91488},
+																					pos:        position{line: 2890, col: 13, offset: 91706},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41244,28 +41600,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2957, col: 8, offset: 93360},
+																		pos: position{line: 2966, col: 8, offset: 93578},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
+																				pos: position{line: 2953, col: 12, offset: 93351},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41274,9 +41630,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2954, col: 8, offset: 93310},
+																				pos: position{line: 2963, col: 8, offset: 93528},
 																				expr: &anyMatcher{
-																					line: 2954, col: 9, offset: 93311,
+																					line: 2963, col: 9, offset: 93529,
 																				},
 																			},
 																		},
@@ -41294,12 +41650,12 @@ var g = &grammar{
 																		pos:   position{line: 1816, col: 5, offset: 58966},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2885, col: 14, offset: 91555},
+																			pos: position{line: 2894, col: 14, offset: 91773},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2885, col: 14, offset: 91555},
+																				pos: position{line: 2894, col: 14, offset: 91773},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2885, col: 14, offset: 91555},
+																					pos:        position{line: 2894, col: 14, offset: 91773},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41313,28 +41669,28 @@ var g = &grammar{
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2957, col: 8, offset: 93360},
+																		pos: position{line: 2966, col: 8, offset: 93578},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
+																				pos: position{line: 2953, col: 12, offset: 93351},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41343,9 +41699,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2954, col: 8, offset: 93310},
+																				pos: position{line: 2963, col: 8, offset: 93528},
 																				expr: &anyMatcher{
-																					line: 2954, col: 9, offset: 93311,
+																					line: 2963, col: 9, offset: 93529,
 																				},
 																			},
 																		},
@@ -41558,21 +41914,21 @@ var g = &grammar{
 				pos: position{line: 1882, col: 5, offset: 60937},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2834, col: 5, offset: 90204},
+						pos: position{line: 2843, col: 5, offset: 90422},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2834, col: 5, offset: 90204},
+							pos: position{line: 2843, col: 5, offset: 90422},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2834, col: 5, offset: 90204},
+									pos:   position{line: 2843, col: 5, offset: 90422},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2834, col: 11, offset: 90210},
+										pos: position{line: 2843, col: 11, offset: 90428},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2834, col: 11, offset: 90210},
+											pos: position{line: 2843, col: 11, offset: 90428},
 											expr: &charClassMatcher{
-												pos:        position{line: 2834, col: 11, offset: 90210},
+												pos:        position{line: 2843, col: 11, offset: 90428},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41582,36 +41938,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2837, col: 5, offset: 90268},
+									pos: position{line: 2846, col: 5, offset: 90486},
 									expr: &seqExpr{
-										pos: position{line: 2838, col: 9, offset: 90279},
+										pos: position{line: 2847, col: 9, offset: 90497},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2838, col: 9, offset: 90279},
+												pos:        position{line: 2847, col: 9, offset: 90497},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2839, col: 9, offset: 90328},
+												pos: position{line: 2848, col: 9, offset: 90546},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2843, col: 5, offset: 90408},
+									pos: position{line: 2852, col: 5, offset: 90626},
 									expr: &seqExpr{
-										pos: position{line: 2844, col: 9, offset: 90419},
+										pos: position{line: 2853, col: 9, offset: 90637},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2844, col: 9, offset: 90419},
+												pos:        position{line: 2853, col: 9, offset: 90637},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2844, col: 13, offset: 90423},
+												pos:        position{line: 2853, col: 13, offset: 90641},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41624,12 +41980,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2939, col: 11, offset: 93023},
+						pos: position{line: 2948, col: 11, offset: 93241},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2939, col: 11, offset: 93023},
+							pos: position{line: 2948, col: 11, offset: 93241},
 							expr: &charClassMatcher{
-								pos:        position{line: 2939, col: 11, offset: 93023},
+								pos:        position{line: 2948, col: 11, offset: 93241},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -41700,27 +42056,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2852, col: 5, offset: 90616},
+						pos: position{line: 2861, col: 5, offset: 90834},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2853, col: 9, offset: 90626},
+							pos: position{line: 2862, col: 9, offset: 90844},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2853, col: 10, offset: 90627},
+									pos:        position{line: 2862, col: 10, offset: 90845},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2855, col: 13, offset: 90724},
+									pos: position{line: 2864, col: 13, offset: 90942},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2855, col: 13, offset: 90724},
+											pos: position{line: 2864, col: 13, offset: 90942},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2858, col: 13, offset: 90824},
+											pos:        position{line: 2867, col: 13, offset: 91042},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -41728,20 +42084,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2858, col: 19, offset: 90830},
+									pos:        position{line: 2867, col: 19, offset: 91048},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2861, col: 13, offset: 90868},
+									pos: position{line: 2870, col: 13, offset: 91086},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2861, col: 13, offset: 90868},
+											pos: position{line: 2870, col: 13, offset: 91086},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2864, col: 14, offset: 90961},
+											pos:        position{line: 2873, col: 14, offset: 91179},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -41750,18 +42106,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2866, col: 12, offset: 91005},
+									pos: position{line: 2875, col: 12, offset: 91223},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2866, col: 12, offset: 91005},
+											pos:        position{line: 2875, col: 12, offset: 91223},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2866, col: 16, offset: 91009},
+											pos: position{line: 2875, col: 16, offset: 91227},
 											expr: &litMatcher{
-												pos:        position{line: 2866, col: 17, offset: 91010},
+												pos:        position{line: 2875, col: 17, offset: 91228},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -42119,31 +42475,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2948, col: 18, offset: 93233},
+						pos: position{line: 2957, col: 18, offset: 93451},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2948, col: 18, offset: 93233},
+							pos: position{line: 2957, col: 18, offset: 93451},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2944, col: 12, offset: 93133},
+									pos: position{line: 2953, col: 12, offset: 93351},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2944, col: 13, offset: 93134},
+										pos: position{line: 2953, col: 13, offset: 93352},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2944, col: 13, offset: 93134},
+												pos:        position{line: 2953, col: 13, offset: 93352},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2944, col: 20, offset: 93141},
+												pos:        position{line: 2953, col: 20, offset: 93359},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2944, col: 29, offset: 93150},
+												pos:        position{line: 2953, col: 29, offset: 93368},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -42152,27 +42508,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2948, col: 26, offset: 93241},
+									pos: position{line: 2957, col: 26, offset: 93459},
 									expr: &actionExpr{
-										pos: position{line: 2944, col: 12, offset: 93133},
+										pos: position{line: 2953, col: 12, offset: 93351},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2944, col: 13, offset: 93134},
+											pos: position{line: 2953, col: 13, offset: 93352},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2944, col: 13, offset: 93134},
+													pos:        position{line: 2953, col: 13, offset: 93352},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2944, col: 20, offset: 93141},
+													pos:        position{line: 2953, col: 20, offset: 93359},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2944, col: 29, offset: 93150},
+													pos:        position{line: 2953, col: 29, offset: 93368},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -42264,10 +42620,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2874, col: 12, offset: 91270},
+						pos: position{line: 2883, col: 12, offset: 91488},
 						run: (*parser).callonQuotedTextElement145,
 						expr: &charClassMatcher{
-							pos:        position{line: 2874, col: 12, offset: 91270},
+							pos:        position{line: 2883, col: 12, offset: 91488},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -42348,9 +42704,9 @@ var g = &grammar{
 					pos: position{line: 1925, col: 5, offset: 62188},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2952, col: 11, offset: 93296},
+							pos: position{line: 2961, col: 11, offset: 93514},
 							expr: &anyMatcher{
-								line: 2952, col: 13, offset: 93298,
+								line: 2961, col: 13, offset: 93516,
 							},
 						},
 						&notExpr{
@@ -42437,7 +42793,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 1950, col: 7, offset: 62913},
 								expr: &charClassMatcher{
-									pos:        position{line: 2825, col: 13, offset: 90057},
+									pos:        position{line: 2834, col: 13, offset: 90275},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42461,10 +42817,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 1960, col: 5, offset: 63198},
 							expr: &actionExpr{
-								pos: position{line: 2935, col: 10, offset: 92962},
+								pos: position{line: 2944, col: 10, offset: 93180},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2935, col: 10, offset: 92962},
+									pos:        position{line: 2944, col: 10, offset: 93180},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42501,9 +42857,9 @@ var g = &grammar{
 					pos: position{line: 1969, col: 5, offset: 63457},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2952, col: 11, offset: 93296},
+							pos: position{line: 2961, col: 11, offset: 93514},
 							expr: &anyMatcher{
-								line: 2952, col: 13, offset: 93298,
+								line: 2961, col: 13, offset: 93516,
 							},
 						},
 						&notExpr{
@@ -42535,7 +42891,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 1950, col: 7, offset: 62913},
 											expr: &charClassMatcher{
-												pos:        position{line: 2825, col: 13, offset: 90057},
+												pos:        position{line: 2834, col: 13, offset: 90275},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42787,9 +43143,9 @@ var g = &grammar{
 					pos: position{line: 2021, col: 5, offset: 65281},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2952, col: 11, offset: 93296},
+							pos: position{line: 2961, col: 11, offset: 93514},
 							expr: &anyMatcher{
-								line: 2952, col: 13, offset: 93298,
+								line: 2961, col: 13, offset: 93516,
 							},
 						},
 						&notExpr{
@@ -42876,7 +43232,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 2047, col: 7, offset: 66012},
 								expr: &charClassMatcher{
-									pos:        position{line: 2825, col: 13, offset: 90057},
+									pos:        position{line: 2834, col: 13, offset: 90275},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42900,10 +43256,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2057, col: 5, offset: 66309},
 							expr: &actionExpr{
-								pos: position{line: 2935, col: 10, offset: 92962},
+								pos: position{line: 2944, col: 10, offset: 93180},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2935, col: 10, offset: 92962},
+									pos:        position{line: 2944, col: 10, offset: 93180},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42940,9 +43296,9 @@ var g = &grammar{
 					pos: position{line: 2066, col: 5, offset: 66571},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2952, col: 11, offset: 93296},
+							pos: position{line: 2961, col: 11, offset: 93514},
 							expr: &anyMatcher{
-								line: 2952, col: 13, offset: 93298,
+								line: 2961, col: 13, offset: 93516,
 							},
 						},
 						&notExpr{
@@ -42974,7 +43330,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 2047, col: 7, offset: 66012},
 											expr: &charClassMatcher{
-												pos:        position{line: 2825, col: 13, offset: 90057},
+												pos:        position{line: 2834, col: 13, offset: 90275},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43226,9 +43582,9 @@ var g = &grammar{
 					pos: position{line: 2118, col: 5, offset: 68572},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2952, col: 11, offset: 93296},
+							pos: position{line: 2961, col: 11, offset: 93514},
 							expr: &anyMatcher{
-								line: 2952, col: 13, offset: 93298,
+								line: 2961, col: 13, offset: 93516,
 							},
 						},
 						&notExpr{
@@ -43280,7 +43636,7 @@ var g = &grammar{
 						expr: &notExpr{
 							pos: position{line: 2145, col: 7, offset: 69365},
 							expr: &charClassMatcher{
-								pos:        position{line: 2825, col: 13, offset: 90057},
+								pos:        position{line: 2834, col: 13, offset: 90275},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -43350,10 +43706,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2156, col: 5, offset: 69686},
 							expr: &actionExpr{
-								pos: position{line: 2935, col: 10, offset: 92962},
+								pos: position{line: 2944, col: 10, offset: 93180},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2935, col: 10, offset: 92962},
+									pos:        position{line: 2944, col: 10, offset: 93180},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43390,9 +43746,9 @@ var g = &grammar{
 					pos: position{line: 2165, col: 5, offset: 69954},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2952, col: 11, offset: 93296},
+							pos: position{line: 2961, col: 11, offset: 93514},
 							expr: &anyMatcher{
-								line: 2952, col: 13, offset: 93298,
+								line: 2961, col: 13, offset: 93516,
 							},
 						},
 						&notExpr{
@@ -43643,9 +43999,9 @@ var g = &grammar{
 					pos: position{line: 2217, col: 5, offset: 71838},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2952, col: 11, offset: 93296},
+							pos: position{line: 2961, col: 11, offset: 93514},
 							expr: &anyMatcher{
-								line: 2952, col: 13, offset: 93298,
+								line: 2961, col: 13, offset: 93516,
 							},
 						},
 						&notExpr{
@@ -43732,7 +44088,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 2242, col: 7, offset: 72567},
 								expr: &charClassMatcher{
-									pos:        position{line: 2825, col: 13, offset: 90057},
+									pos:        position{line: 2834, col: 13, offset: 90275},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43756,10 +44112,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2252, col: 5, offset: 72864},
 							expr: &actionExpr{
-								pos: position{line: 2935, col: 10, offset: 92962},
+								pos: position{line: 2944, col: 10, offset: 93180},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2935, col: 10, offset: 92962},
+									pos:        position{line: 2944, col: 10, offset: 93180},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43796,9 +44152,9 @@ var g = &grammar{
 					pos: position{line: 2261, col: 5, offset: 73127},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2952, col: 11, offset: 93296},
+							pos: position{line: 2961, col: 11, offset: 93514},
 							expr: &anyMatcher{
-								line: 2952, col: 13, offset: 93298,
+								line: 2961, col: 13, offset: 93516,
 							},
 						},
 						&notExpr{
@@ -43830,7 +44186,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 2242, col: 7, offset: 72567},
 											expr: &charClassMatcher{
-												pos:        position{line: 2825, col: 13, offset: 90057},
+												pos:        position{line: 2834, col: 13, offset: 90275},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44300,12 +44656,12 @@ var g = &grammar{
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2939, col: 11, offset: 93023},
+							pos: position{line: 2948, col: 11, offset: 93241},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2939, col: 11, offset: 93023},
+								pos: position{line: 2948, col: 11, offset: 93241},
 								expr: &charClassMatcher{
-									pos:        position{line: 2939, col: 11, offset: 93023},
+									pos:        position{line: 2948, col: 11, offset: 93241},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44322,28 +44678,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2957, col: 8, offset: 93360},
+							pos: position{line: 2966, col: 8, offset: 93578},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2944, col: 12, offset: 93133},
+									pos: position{line: 2953, col: 12, offset: 93351},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2944, col: 13, offset: 93134},
+										pos: position{line: 2953, col: 13, offset: 93352},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2944, col: 13, offset: 93134},
+												pos:        position{line: 2953, col: 13, offset: 93352},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2944, col: 20, offset: 93141},
+												pos:        position{line: 2953, col: 20, offset: 93359},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2944, col: 29, offset: 93150},
+												pos:        position{line: 2953, col: 29, offset: 93368},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -44352,9 +44708,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2954, col: 8, offset: 93310},
+									pos: position{line: 2963, col: 8, offset: 93528},
 									expr: &anyMatcher{
-										line: 2954, col: 9, offset: 93311,
+										line: 2963, col: 9, offset: 93529,
 									},
 								},
 							},
@@ -44403,28 +44759,28 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2383, col: 5, offset: 77193},
 							expr: &choiceExpr{
-								pos: position{line: 2957, col: 8, offset: 93360},
+								pos: position{line: 2966, col: 8, offset: 93578},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2944, col: 12, offset: 93133},
+										pos: position{line: 2953, col: 12, offset: 93351},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2944, col: 13, offset: 93134},
+											pos: position{line: 2953, col: 13, offset: 93352},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2944, col: 13, offset: 93134},
+													pos:        position{line: 2953, col: 13, offset: 93352},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2944, col: 20, offset: 93141},
+													pos:        position{line: 2953, col: 20, offset: 93359},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2944, col: 29, offset: 93150},
+													pos:        position{line: 2953, col: 29, offset: 93368},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44433,9 +44789,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2954, col: 8, offset: 93310},
+										pos: position{line: 2963, col: 8, offset: 93528},
 										expr: &anyMatcher{
-											line: 2954, col: 9, offset: 93311,
+											line: 2963, col: 9, offset: 93529,
 										},
 									},
 								},
@@ -44448,21 +44804,21 @@ var g = &grammar{
 								pos: position{line: 2385, col: 9, offset: 77220},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2834, col: 5, offset: 90204},
+										pos: position{line: 2843, col: 5, offset: 90422},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2834, col: 5, offset: 90204},
+											pos: position{line: 2843, col: 5, offset: 90422},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2834, col: 5, offset: 90204},
+													pos:   position{line: 2843, col: 5, offset: 90422},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2834, col: 11, offset: 90210},
+														pos: position{line: 2843, col: 11, offset: 90428},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2834, col: 11, offset: 90210},
+															pos: position{line: 2843, col: 11, offset: 90428},
 															expr: &charClassMatcher{
-																pos:        position{line: 2834, col: 11, offset: 90210},
+																pos:        position{line: 2843, col: 11, offset: 90428},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44472,36 +44828,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2837, col: 5, offset: 90268},
+													pos: position{line: 2846, col: 5, offset: 90486},
 													expr: &seqExpr{
-														pos: position{line: 2838, col: 9, offset: 90279},
+														pos: position{line: 2847, col: 9, offset: 90497},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2838, col: 9, offset: 90279},
+																pos:        position{line: 2847, col: 9, offset: 90497},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2839, col: 9, offset: 90328},
+																pos: position{line: 2848, col: 9, offset: 90546},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2843, col: 5, offset: 90408},
+													pos: position{line: 2852, col: 5, offset: 90626},
 													expr: &seqExpr{
-														pos: position{line: 2844, col: 9, offset: 90419},
+														pos: position{line: 2853, col: 9, offset: 90637},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2844, col: 9, offset: 90419},
+																pos:        position{line: 2853, col: 9, offset: 90637},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2844, col: 13, offset: 90423},
+																pos:        position{line: 2853, col: 13, offset: 90641},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44514,12 +44870,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2939, col: 11, offset: 93023},
+										pos: position{line: 2948, col: 11, offset: 93241},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2939, col: 11, offset: 93023},
+											pos: position{line: 2948, col: 11, offset: 93241},
 											expr: &charClassMatcher{
-												pos:        position{line: 2939, col: 11, offset: 93023},
+												pos:        position{line: 2948, col: 11, offset: 93241},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -44590,27 +44946,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2852, col: 5, offset: 90616},
+										pos: position{line: 2861, col: 5, offset: 90834},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2853, col: 9, offset: 90626},
+											pos: position{line: 2862, col: 9, offset: 90844},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2853, col: 10, offset: 90627},
+													pos:        position{line: 2862, col: 10, offset: 90845},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2855, col: 13, offset: 90724},
+													pos: position{line: 2864, col: 13, offset: 90942},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2855, col: 13, offset: 90724},
+															pos: position{line: 2864, col: 13, offset: 90942},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2858, col: 13, offset: 90824},
+															pos:        position{line: 2867, col: 13, offset: 91042},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -44618,20 +44974,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2858, col: 19, offset: 90830},
+													pos:        position{line: 2867, col: 19, offset: 91048},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2861, col: 13, offset: 90868},
+													pos: position{line: 2870, col: 13, offset: 91086},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2861, col: 13, offset: 90868},
+															pos: position{line: 2870, col: 13, offset: 91086},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2864, col: 14, offset: 90961},
+															pos:        position{line: 2873, col: 14, offset: 91179},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -44640,18 +44996,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2866, col: 12, offset: 91005},
+													pos: position{line: 2875, col: 12, offset: 91223},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2866, col: 12, offset: 91005},
+															pos:        position{line: 2875, col: 12, offset: 91223},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2866, col: 16, offset: 91009},
+															pos: position{line: 2875, col: 16, offset: 91227},
 															expr: &litMatcher{
-																pos:        position{line: 2866, col: 17, offset: 91010},
+																pos:        position{line: 2875, col: 17, offset: 91228},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45566,10 +45922,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 2410, col: 26, offset: 78016},
 													expr: &actionExpr{
-														pos: position{line: 2935, col: 10, offset: 92962},
+														pos: position{line: 2944, col: 10, offset: 93180},
 														run: (*parser).callonSectionTitleElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2935, col: 10, offset: 92962},
+															pos:        position{line: 2944, col: 10, offset: 93180},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -45580,28 +45936,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 2410, col: 33, offset: 78023},
 													expr: &choiceExpr{
-														pos: position{line: 2957, col: 8, offset: 93360},
+														pos: position{line: 2966, col: 8, offset: 93578},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2944, col: 12, offset: 93133},
+																pos: position{line: 2953, col: 12, offset: 93351},
 																run: (*parser).callonSectionTitleElement247,
 																expr: &choiceExpr{
-																	pos: position{line: 2944, col: 13, offset: 93134},
+																	pos: position{line: 2953, col: 13, offset: 93352},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 13, offset: 93134},
+																			pos:        position{line: 2953, col: 13, offset: 93352},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 20, offset: 93141},
+																			pos:        position{line: 2953, col: 20, offset: 93359},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2944, col: 29, offset: 93150},
+																			pos:        position{line: 2953, col: 29, offset: 93368},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -45610,9 +45966,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2954, col: 8, offset: 93310},
+																pos: position{line: 2963, col: 8, offset: 93528},
 																expr: &anyMatcher{
-																	line: 2954, col: 9, offset: 93311,
+																	line: 2963, col: 9, offset: 93529,
 																},
 															},
 														},
@@ -45637,12 +45993,12 @@ var g = &grammar{
 													pos:   position{line: 1278, col: 14, offset: 39876},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2920, col: 7, offset: 92614},
+														pos: position{line: 2929, col: 7, offset: 92832},
 														run: (*parser).callonSectionTitleElement258,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2920, col: 7, offset: 92614},
+															pos: position{line: 2929, col: 7, offset: 92832},
 															expr: &charClassMatcher{
-																pos:        position{line: 2920, col: 7, offset: 92614},
+																pos:        position{line: 2929, col: 7, offset: 92832},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45676,12 +46032,12 @@ var g = &grammar{
 													pos:   position{line: 1283, col: 10, offset: 40008},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2920, col: 7, offset: 92614},
+														pos: position{line: 2929, col: 7, offset: 92832},
 														run: (*parser).callonSectionTitleElement266,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2920, col: 7, offset: 92614},
+															pos: position{line: 2929, col: 7, offset: 92832},
 															expr: &charClassMatcher{
-																pos:        position{line: 2920, col: 7, offset: 92614},
+																pos:        position{line: 2929, col: 7, offset: 92832},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45704,10 +46060,10 @@ var g = &grammar{
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2874, col: 12, offset: 91270},
+										pos: position{line: 2883, col: 12, offset: 91488},
 										run: (*parser).callonSectionTitleElement271,
 										expr: &charClassMatcher{
-											pos:        position{line: 2874, col: 12, offset: 91270},
+											pos:        position{line: 2883, col: 12, offset: 91488},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45742,9 +46098,9 @@ var g = &grammar{
 										pos: position{line: 2423, col: 9, offset: 78407},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2952, col: 11, offset: 93296},
+												pos: position{line: 2961, col: 11, offset: 93514},
 												expr: &anyMatcher{
-													line: 2952, col: 13, offset: 93298,
+													line: 2961, col: 13, offset: 93516,
 												},
 											},
 											&labeledExpr{
@@ -45754,21 +46110,21 @@ var g = &grammar{
 													pos: position{line: 2425, col: 13, offset: 78444},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2834, col: 5, offset: 90204},
+															pos: position{line: 2843, col: 5, offset: 90422},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2834, col: 5, offset: 90204},
+																pos: position{line: 2843, col: 5, offset: 90422},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2834, col: 5, offset: 90204},
+																		pos:   position{line: 2843, col: 5, offset: 90422},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2834, col: 11, offset: 90210},
+																			pos: position{line: 2843, col: 11, offset: 90428},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2834, col: 11, offset: 90210},
+																				pos: position{line: 2843, col: 11, offset: 90428},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2834, col: 11, offset: 90210},
+																					pos:        position{line: 2843, col: 11, offset: 90428},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45778,36 +46134,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2837, col: 5, offset: 90268},
+																		pos: position{line: 2846, col: 5, offset: 90486},
 																		expr: &seqExpr{
-																			pos: position{line: 2838, col: 9, offset: 90279},
+																			pos: position{line: 2847, col: 9, offset: 90497},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2838, col: 9, offset: 90279},
+																					pos:        position{line: 2847, col: 9, offset: 90497},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2839, col: 9, offset: 90328},
+																					pos: position{line: 2848, col: 9, offset: 90546},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2843, col: 5, offset: 90408},
+																		pos: position{line: 2852, col: 5, offset: 90626},
 																		expr: &seqExpr{
-																			pos: position{line: 2844, col: 9, offset: 90419},
+																			pos: position{line: 2853, col: 9, offset: 90637},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2844, col: 9, offset: 90419},
+																					pos:        position{line: 2853, col: 9, offset: 90637},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2844, col: 13, offset: 90423},
+																					pos:        position{line: 2853, col: 13, offset: 90641},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45820,12 +46176,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2939, col: 11, offset: 93023},
+															pos: position{line: 2948, col: 11, offset: 93241},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2939, col: 11, offset: 93023},
+																pos: position{line: 2948, col: 11, offset: 93241},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2939, col: 11, offset: 93023},
+																	pos:        position{line: 2948, col: 11, offset: 93241},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45896,27 +46252,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2852, col: 5, offset: 90616},
+															pos: position{line: 2861, col: 5, offset: 90834},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2853, col: 9, offset: 90626},
+																pos: position{line: 2862, col: 9, offset: 90844},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2853, col: 10, offset: 90627},
+																		pos:        position{line: 2862, col: 10, offset: 90845},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2855, col: 13, offset: 90724},
+																		pos: position{line: 2864, col: 13, offset: 90942},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2855, col: 13, offset: 90724},
+																				pos: position{line: 2864, col: 13, offset: 90942},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2858, col: 13, offset: 90824},
+																				pos:        position{line: 2867, col: 13, offset: 91042},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45924,20 +46280,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2858, col: 19, offset: 90830},
+																		pos:        position{line: 2867, col: 19, offset: 91048},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2861, col: 13, offset: 90868},
+																		pos: position{line: 2870, col: 13, offset: 91086},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2861, col: 13, offset: 90868},
+																				pos: position{line: 2870, col: 13, offset: 91086},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2864, col: 14, offset: 90961},
+																				pos:        position{line: 2873, col: 14, offset: 91179},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45946,18 +46302,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2866, col: 12, offset: 91005},
+																		pos: position{line: 2875, col: 12, offset: 91223},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2866, col: 12, offset: 91005},
+																				pos:        position{line: 2875, col: 12, offset: 91223},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2866, col: 16, offset: 91009},
+																				pos: position{line: 2875, col: 16, offset: 91227},
 																				expr: &litMatcher{
-																					pos:        position{line: 2866, col: 17, offset: 91010},
+																					pos:        position{line: 2875, col: 17, offset: 91228},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45969,25 +46325,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2944, col: 12, offset: 93133},
+															pos: position{line: 2953, col: 12, offset: 93351},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2944, col: 13, offset: 93134},
+																pos: position{line: 2953, col: 13, offset: 93352},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 13, offset: 93134},
+																		pos:        position{line: 2953, col: 13, offset: 93352},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 20, offset: 93141},
+																		pos:        position{line: 2953, col: 20, offset: 93359},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2944, col: 29, offset: 93150},
+																		pos:        position{line: 2953, col: 29, offset: 93368},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -46404,10 +46760,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1239, col: 5, offset: 38724},
 																		expr: &actionExpr{
-																			pos: position{line: 2935, col: 10, offset: 92962},
+																			pos: position{line: 2944, col: 10, offset: 93180},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2935, col: 10, offset: 92962},
+																				pos:        position{line: 2944, col: 10, offset: 93180},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46418,28 +46774,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1239, col: 12, offset: 38731},
 																		expr: &choiceExpr{
-																			pos: position{line: 2957, col: 8, offset: 93360},
+																			pos: position{line: 2966, col: 8, offset: 93578},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2944, col: 12, offset: 93133},
+																					pos: position{line: 2953, col: 12, offset: 93351},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2944, col: 13, offset: 93134},
+																						pos: position{line: 2953, col: 13, offset: 93352},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 13, offset: 93134},
+																								pos:        position{line: 2953, col: 13, offset: 93352},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 20, offset: 93141},
+																								pos:        position{line: 2953, col: 20, offset: 93359},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 29, offset: 93150},
+																								pos:        position{line: 2953, col: 29, offset: 93368},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46448,9 +46804,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2954, col: 8, offset: 93310},
+																					pos: position{line: 2963, col: 8, offset: 93528},
 																					expr: &anyMatcher{
-																						line: 2954, col: 9, offset: 93311,
+																						line: 2963, col: 9, offset: 93529,
 																					},
 																				},
 																			},
@@ -46507,10 +46863,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2874, col: 12, offset: 91270},
+															pos: position{line: 2883, col: 12, offset: 91488},
 															run: (*parser).callonNormalGroup165,
 															expr: &charClassMatcher{
-																pos:        position{line: 2874, col: 12, offset: 91270},
+																pos:        position{line: 2883, col: 12, offset: 91488},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -46526,9 +46882,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2954, col: 8, offset: 93310},
+							pos: position{line: 2963, col: 8, offset: 93528},
 							expr: &anyMatcher{
-								line: 2954, col: 9, offset: 93311,
+								line: 2963, col: 9, offset: 93529,
 							},
 						},
 					},
@@ -46556,9 +46912,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2954, col: 8, offset: 93310},
+							pos: position{line: 2963, col: 8, offset: 93528},
 							expr: &anyMatcher{
-								line: 2954, col: 9, offset: 93311,
+								line: 2963, col: 9, offset: 93529,
 							},
 						},
 					},
@@ -46575,9 +46931,9 @@ var g = &grammar{
 					pos: position{line: 2454, col: 5, offset: 79566},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2952, col: 11, offset: 93296},
+							pos: position{line: 2961, col: 11, offset: 93514},
 							expr: &anyMatcher{
-								line: 2952, col: 13, offset: 93298,
+								line: 2961, col: 13, offset: 93516,
 							},
 						},
 						&labeledExpr{
@@ -46587,21 +46943,21 @@ var g = &grammar{
 								pos: position{line: 2456, col: 9, offset: 79595},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2834, col: 5, offset: 90204},
+										pos: position{line: 2843, col: 5, offset: 90422},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2834, col: 5, offset: 90204},
+											pos: position{line: 2843, col: 5, offset: 90422},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2834, col: 5, offset: 90204},
+													pos:   position{line: 2843, col: 5, offset: 90422},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2834, col: 11, offset: 90210},
+														pos: position{line: 2843, col: 11, offset: 90428},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2834, col: 11, offset: 90210},
+															pos: position{line: 2843, col: 11, offset: 90428},
 															expr: &charClassMatcher{
-																pos:        position{line: 2834, col: 11, offset: 90210},
+																pos:        position{line: 2843, col: 11, offset: 90428},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46611,36 +46967,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2837, col: 5, offset: 90268},
+													pos: position{line: 2846, col: 5, offset: 90486},
 													expr: &seqExpr{
-														pos: position{line: 2838, col: 9, offset: 90279},
+														pos: position{line: 2847, col: 9, offset: 90497},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2838, col: 9, offset: 90279},
+																pos:        position{line: 2847, col: 9, offset: 90497},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2839, col: 9, offset: 90328},
+																pos: position{line: 2848, col: 9, offset: 90546},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2843, col: 5, offset: 90408},
+													pos: position{line: 2852, col: 5, offset: 90626},
 													expr: &seqExpr{
-														pos: position{line: 2844, col: 9, offset: 90419},
+														pos: position{line: 2853, col: 9, offset: 90637},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2844, col: 9, offset: 90419},
+																pos:        position{line: 2853, col: 9, offset: 90637},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2844, col: 13, offset: 90423},
+																pos:        position{line: 2853, col: 13, offset: 90641},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46653,10 +47009,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2935, col: 10, offset: 92962},
+										pos: position{line: 2944, col: 10, offset: 93180},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2935, col: 10, offset: 92962},
+											pos:        position{line: 2944, col: 10, offset: 93180},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -46668,27 +47024,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2852, col: 5, offset: 90616},
+										pos: position{line: 2861, col: 5, offset: 90834},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2853, col: 9, offset: 90626},
+											pos: position{line: 2862, col: 9, offset: 90844},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2853, col: 10, offset: 90627},
+													pos:        position{line: 2862, col: 10, offset: 90845},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2855, col: 13, offset: 90724},
+													pos: position{line: 2864, col: 13, offset: 90942},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2855, col: 13, offset: 90724},
+															pos: position{line: 2864, col: 13, offset: 90942},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2858, col: 13, offset: 90824},
+															pos:        position{line: 2867, col: 13, offset: 91042},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46696,20 +47052,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2858, col: 19, offset: 90830},
+													pos:        position{line: 2867, col: 19, offset: 91048},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2861, col: 13, offset: 90868},
+													pos: position{line: 2870, col: 13, offset: 91086},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2861, col: 13, offset: 90868},
+															pos: position{line: 2870, col: 13, offset: 91086},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2864, col: 14, offset: 90961},
+															pos:        position{line: 2873, col: 14, offset: 91179},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46718,18 +47074,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2866, col: 12, offset: 91005},
+													pos: position{line: 2875, col: 12, offset: 91223},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2866, col: 12, offset: 91005},
+															pos:        position{line: 2875, col: 12, offset: 91223},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2866, col: 16, offset: 91009},
+															pos: position{line: 2875, col: 16, offset: 91227},
 															expr: &litMatcher{
-																pos:        position{line: 2866, col: 17, offset: 91010},
+																pos:        position{line: 2875, col: 17, offset: 91228},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46824,25 +47180,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2944, col: 12, offset: 93133},
+										pos: position{line: 2953, col: 12, offset: 93351},
 										run: (*parser).callonAttributeStructuredValueElement56,
 										expr: &choiceExpr{
-											pos: position{line: 2944, col: 13, offset: 93134},
+											pos: position{line: 2953, col: 13, offset: 93352},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2944, col: 13, offset: 93134},
+													pos:        position{line: 2953, col: 13, offset: 93352},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2944, col: 20, offset: 93141},
+													pos:        position{line: 2953, col: 20, offset: 93359},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2944, col: 29, offset: 93150},
+													pos:        position{line: 2953, col: 29, offset: 93368},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46851,10 +47207,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2874, col: 12, offset: 91270},
+										pos: position{line: 2883, col: 12, offset: 91488},
 										run: (*parser).callonAttributeStructuredValueElement61,
 										expr: &charClassMatcher{
-											pos:        position{line: 2874, col: 12, offset: 91270},
+											pos:        position{line: 2883, col: 12, offset: 91488},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46931,12 +47287,12 @@ var g = &grammar{
 													pos:   position{line: 1278, col: 14, offset: 39876},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2920, col: 7, offset: 92614},
+														pos: position{line: 2929, col: 7, offset: 92832},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2920, col: 7, offset: 92614},
+															pos: position{line: 2929, col: 7, offset: 92832},
 															expr: &charClassMatcher{
-																pos:        position{line: 2920, col: 7, offset: 92614},
+																pos:        position{line: 2929, col: 7, offset: 92832},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46970,12 +47326,12 @@ var g = &grammar{
 													pos:   position{line: 1283, col: 10, offset: 40008},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2920, col: 7, offset: 92614},
+														pos: position{line: 2929, col: 7, offset: 92832},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2920, col: 7, offset: 92614},
+															pos: position{line: 2929, col: 7, offset: 92832},
 															expr: &charClassMatcher{
-																pos:        position{line: 2920, col: 7, offset: 92614},
+																pos:        position{line: 2929, col: 7, offset: 92832},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47017,17 +47373,17 @@ var g = &grammar{
 																pos: position{line: 1329, col: 31, offset: 41830},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2825, col: 13, offset: 90057},
+																		pos:        position{line: 2834, col: 13, offset: 90275},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2935, col: 10, offset: 92962},
+																		pos: position{line: 2944, col: 10, offset: 93180},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2935, col: 10, offset: 92962},
+																			pos:        position{line: 2944, col: 10, offset: 93180},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -47053,10 +47409,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1323, col: 12, offset: 41544},
 																		expr: &actionExpr{
-																			pos: position{line: 2935, col: 10, offset: 92962},
+																			pos: position{line: 2944, col: 10, offset: 93180},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2935, col: 10, offset: 92962},
+																				pos:        position{line: 2944, col: 10, offset: 93180},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47073,10 +47429,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1323, col: 23, offset: 41555},
 																		expr: &actionExpr{
-																			pos: position{line: 2935, col: 10, offset: 92962},
+																			pos: position{line: 2944, col: 10, offset: 93180},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2935, col: 10, offset: 92962},
+																				pos:        position{line: 2944, col: 10, offset: 93180},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47096,17 +47452,17 @@ var g = &grammar{
 																					pos: position{line: 1329, col: 31, offset: 41830},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2825, col: 13, offset: 90057},
+																							pos:        position{line: 2834, col: 13, offset: 90275},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2935, col: 10, offset: 92962},
+																							pos: position{line: 2944, col: 10, offset: 93180},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2935, col: 10, offset: 92962},
+																								pos:        position{line: 2944, col: 10, offset: 93180},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47137,10 +47493,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1324, col: 12, offset: 41636},
 																		expr: &actionExpr{
-																			pos: position{line: 2935, col: 10, offset: 92962},
+																			pos: position{line: 2944, col: 10, offset: 93180},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2935, col: 10, offset: 92962},
+																				pos:        position{line: 2944, col: 10, offset: 93180},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47157,10 +47513,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1324, col: 23, offset: 41647},
 																		expr: &actionExpr{
-																			pos: position{line: 2935, col: 10, offset: 92962},
+																			pos: position{line: 2944, col: 10, offset: 93180},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2935, col: 10, offset: 92962},
+																				pos:        position{line: 2944, col: 10, offset: 93180},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47180,17 +47536,17 @@ var g = &grammar{
 																					pos: position{line: 1329, col: 31, offset: 41830},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2825, col: 13, offset: 90057},
+																							pos:        position{line: 2834, col: 13, offset: 90275},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2935, col: 10, offset: 92962},
+																							pos: position{line: 2944, col: 10, offset: 93180},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2935, col: 10, offset: 92962},
+																								pos:        position{line: 2944, col: 10, offset: 93180},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47307,10 +47663,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1415, col: 12, offset: 45651},
 																				expr: &actionExpr{
-																					pos: position{line: 2935, col: 10, offset: 92962},
+																					pos: position{line: 2944, col: 10, offset: 93180},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2935, col: 10, offset: 92962},
+																						pos:        position{line: 2944, col: 10, offset: 93180},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -47321,25 +47677,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1415, col: 19, offset: 45658},
 																				expr: &actionExpr{
-																					pos: position{line: 2944, col: 12, offset: 93133},
+																					pos: position{line: 2953, col: 12, offset: 93351},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2944, col: 13, offset: 93134},
+																						pos: position{line: 2953, col: 13, offset: 93352},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 13, offset: 93134},
+																								pos:        position{line: 2953, col: 13, offset: 93352},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 20, offset: 93141},
+																								pos:        position{line: 2953, col: 20, offset: 93359},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2944, col: 29, offset: 93150},
+																								pos:        position{line: 2953, col: 29, offset: 93368},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -47412,10 +47768,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1401, col: 64, offset: 44770},
 																			expr: &actionExpr{
-																				pos: position{line: 2935, col: 10, offset: 92962},
+																				pos: position{line: 2944, col: 10, offset: 93180},
 																				run: (*parser).callonInlinePassthrough43,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2935, col: 10, offset: 92962},
+																					pos:        position{line: 2944, col: 10, offset: 93180},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47426,25 +47782,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1401, col: 71, offset: 44777},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
+																				pos: position{line: 2953, col: 12, offset: 93351},
 																				run: (*parser).callonInlinePassthrough46,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47467,12 +47823,12 @@ var g = &grammar{
 																							pos: position{line: 1401, col: 86, offset: 44792},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2939, col: 11, offset: 93023},
+																									pos: position{line: 2948, col: 11, offset: 93241},
 																									run: (*parser).callonInlinePassthrough56,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2939, col: 11, offset: 93023},
+																										pos: position{line: 2948, col: 11, offset: 93241},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2939, col: 11, offset: 93023},
+																											pos:        position{line: 2948, col: 11, offset: 93241},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -47501,25 +47857,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1401, col: 151, offset: 44857},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 12, offset: 93133},
+																							pos: position{line: 2953, col: 12, offset: 93351},
 																							run: (*parser).callonInlinePassthrough63,
 																							expr: &choiceExpr{
-																								pos: position{line: 2944, col: 13, offset: 93134},
+																								pos: position{line: 2953, col: 13, offset: 93352},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 13, offset: 93134},
+																										pos:        position{line: 2953, col: 13, offset: 93352},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 20, offset: 93141},
+																										pos:        position{line: 2953, col: 20, offset: 93359},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2944, col: 29, offset: 93150},
+																										pos:        position{line: 2953, col: 29, offset: 93368},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -47546,10 +47902,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1403, col: 12, offset: 45017},
 																			expr: &actionExpr{
-																				pos: position{line: 2935, col: 10, offset: 92962},
+																				pos: position{line: 2944, col: 10, offset: 93180},
 																				run: (*parser).callonInlinePassthrough72,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2935, col: 10, offset: 92962},
+																					pos:        position{line: 2944, col: 10, offset: 93180},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47560,25 +47916,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1403, col: 19, offset: 45024},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 12, offset: 93133},
+																				pos: position{line: 2953, col: 12, offset: 93351},
 																				run: (*parser).callonInlinePassthrough75,
 																				expr: &choiceExpr{
-																					pos: position{line: 2944, col: 13, offset: 93134},
+																					pos: position{line: 2953, col: 13, offset: 93352},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 13, offset: 93134},
+																							pos:        position{line: 2953, col: 13, offset: 93352},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 20, offset: 93141},
+																							pos:        position{line: 2953, col: 20, offset: 93359},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2944, col: 29, offset: 93150},
+																							pos:        position{line: 2953, col: 29, offset: 93368},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47614,7 +47970,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1397, col: 121, offset: 44593},
 													expr: &charClassMatcher{
-														pos:        position{line: 2825, col: 13, offset: 90057},
+														pos:        position{line: 2834, col: 13, offset: 90275},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -47772,10 +48128,10 @@ var g = &grammar{
 														pos: position{line: 2628, col: 6, offset: 84528},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2935, col: 10, offset: 92962},
+																pos: position{line: 2944, col: 10, offset: 93180},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2935, col: 10, offset: 92962},
+																	pos:        position{line: 2944, col: 10, offset: 93180},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47785,28 +48141,28 @@ var g = &grammar{
 															&andExpr{
 																pos: position{line: 2628, col: 14, offset: 84536},
 																expr: &choiceExpr{
-																	pos: position{line: 2957, col: 8, offset: 93360},
+																	pos: position{line: 2966, col: 8, offset: 93578},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2944, col: 12, offset: 93133},
+																			pos: position{line: 2953, col: 12, offset: 93351},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2944, col: 13, offset: 93134},
+																				pos: position{line: 2953, col: 13, offset: 93352},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 13, offset: 93134},
+																						pos:        position{line: 2953, col: 13, offset: 93352},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 20, offset: 93141},
+																						pos:        position{line: 2953, col: 20, offset: 93359},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2944, col: 29, offset: 93150},
+																						pos:        position{line: 2953, col: 29, offset: 93368},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47815,9 +48171,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2954, col: 8, offset: 93310},
+																			pos: position{line: 2963, col: 8, offset: 93528},
 																			expr: &anyMatcher{
-																				line: 2954, col: 9, offset: 93311,
+																				line: 2963, col: 9, offset: 93529,
 																			},
 																		},
 																	},
@@ -47850,32 +48206,32 @@ var g = &grammar{
 															pos: position{line: 2638, col: 7, offset: 84757},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2825, col: 13, offset: 90057},
+																	pos:        position{line: 2834, col: 13, offset: 90275},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2944, col: 12, offset: 93133},
+																	pos: position{line: 2953, col: 12, offset: 93351},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2944, col: 13, offset: 93134},
+																		pos: position{line: 2953, col: 13, offset: 93352},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2944, col: 13, offset: 93134},
+																				pos:        position{line: 2953, col: 13, offset: 93352},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2944, col: 20, offset: 93141},
+																				pos:        position{line: 2953, col: 20, offset: 93359},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2944, col: 29, offset: 93150},
+																				pos:        position{line: 2953, col: 29, offset: 93368},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47884,9 +48240,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2954, col: 8, offset: 93310},
+																	pos: position{line: 2963, col: 8, offset: 93528},
 																	expr: &anyMatcher{
-																		line: 2954, col: 9, offset: 93311,
+																		line: 2963, col: 9, offset: 93529,
 																	},
 																},
 															},
@@ -47994,10 +48350,10 @@ var g = &grammar{
 									pos: position{line: 2628, col: 6, offset: 84528},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2935, col: 10, offset: 92962},
+											pos: position{line: 2944, col: 10, offset: 93180},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2935, col: 10, offset: 92962},
+												pos:        position{line: 2944, col: 10, offset: 93180},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -48007,28 +48363,28 @@ var g = &grammar{
 										&andExpr{
 											pos: position{line: 2628, col: 14, offset: 84536},
 											expr: &choiceExpr{
-												pos: position{line: 2957, col: 8, offset: 93360},
+												pos: position{line: 2966, col: 8, offset: 93578},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2944, col: 12, offset: 93133},
+														pos: position{line: 2953, col: 12, offset: 93351},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2944, col: 13, offset: 93134},
+															pos: position{line: 2953, col: 13, offset: 93352},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2944, col: 13, offset: 93134},
+																	pos:        position{line: 2953, col: 13, offset: 93352},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2944, col: 20, offset: 93141},
+																	pos:        position{line: 2953, col: 20, offset: 93359},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2944, col: 29, offset: 93150},
+																	pos:        position{line: 2953, col: 29, offset: 93368},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -48037,9 +48393,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2954, col: 8, offset: 93310},
+														pos: position{line: 2963, col: 8, offset: 93528},
 														expr: &anyMatcher{
-															line: 2954, col: 9, offset: 93311,
+															line: 2963, col: 9, offset: 93529,
 														},
 													},
 												},
@@ -48072,32 +48428,32 @@ var g = &grammar{
 										pos: position{line: 2638, col: 7, offset: 84757},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2825, col: 13, offset: 90057},
+												pos:        position{line: 2834, col: 13, offset: 90275},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2944, col: 12, offset: 93133},
+												pos: position{line: 2953, col: 12, offset: 93351},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2944, col: 13, offset: 93134},
+													pos: position{line: 2953, col: 13, offset: 93352},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2944, col: 13, offset: 93134},
+															pos:        position{line: 2953, col: 13, offset: 93352},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2944, col: 20, offset: 93141},
+															pos:        position{line: 2953, col: 20, offset: 93359},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2944, col: 29, offset: 93150},
+															pos:        position{line: 2953, col: 29, offset: 93368},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -48106,9 +48462,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2954, col: 8, offset: 93310},
+												pos: position{line: 2963, col: 8, offset: 93528},
 												expr: &anyMatcher{
-													line: 2954, col: 9, offset: 93311,
+													line: 2963, col: 9, offset: 93529,
 												},
 											},
 										},
@@ -48305,63 +48661,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2740, col: 1, offset: 87137},
+			pos:  position{line: 2749, col: 1, offset: 87355},
 			expr: &actionExpr{
-				pos: position{line: 2740, col: 26, offset: 87162},
+				pos: position{line: 2749, col: 26, offset: 87380},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2740, col: 26, offset: 87162},
+					pos: position{line: 2749, col: 26, offset: 87380},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2740, col: 26, offset: 87162},
+							pos:   position{line: 2749, col: 26, offset: 87380},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2740, col: 31, offset: 87167},
+								pos: position{line: 2749, col: 31, offset: 87385},
 								expr: &actionExpr{
-									pos: position{line: 2745, col: 5, offset: 87230},
+									pos: position{line: 2754, col: 5, offset: 87448},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2745, col: 5, offset: 87230},
+										pos: position{line: 2754, col: 5, offset: 87448},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2952, col: 11, offset: 93296},
+												pos: position{line: 2961, col: 11, offset: 93514},
 												expr: &anyMatcher{
-													line: 2952, col: 13, offset: 93298,
+													line: 2961, col: 13, offset: 93516,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2748, col: 5, offset: 87356},
+												pos:   position{line: 2757, col: 5, offset: 87574},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2748, col: 16, offset: 87367},
+													pos: position{line: 2757, col: 16, offset: 87585},
 													expr: &actionExpr{
-														pos: position{line: 2748, col: 17, offset: 87368},
+														pos: position{line: 2757, col: 17, offset: 87586},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2748, col: 17, offset: 87368},
+															pos: position{line: 2757, col: 17, offset: 87586},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2748, col: 17, offset: 87368},
+																	pos:   position{line: 2757, col: 17, offset: 87586},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2927, col: 12, offset: 92789},
+																		pos: position{line: 2936, col: 12, offset: 93007},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2927, col: 13, offset: 92790},
+																			pos: position{line: 2936, col: 13, offset: 93008},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2927, col: 13, offset: 92790},
+																					pos: position{line: 2936, col: 13, offset: 93008},
 																					expr: &litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92790},
+																						pos:        position{line: 2936, col: 13, offset: 93008},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2927, col: 18, offset: 92795},
+																					pos: position{line: 2936, col: 18, offset: 93013},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2927, col: 18, offset: 92795},
+																						pos:        position{line: 2936, col: 18, offset: 93013},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -48373,7 +48729,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2748, col: 27, offset: 87378},
+																	pos:        position{line: 2757, col: 27, offset: 87596},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -48384,38 +48740,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2749, col: 5, offset: 87406},
+												pos:   position{line: 2758, col: 5, offset: 87624},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2749, col: 12, offset: 87413},
+													pos: position{line: 2758, col: 12, offset: 87631},
 													expr: &choiceExpr{
-														pos: position{line: 2750, col: 9, offset: 87423},
+														pos: position{line: 2759, col: 9, offset: 87641},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2750, col: 9, offset: 87423},
+																pos: position{line: 2759, col: 9, offset: 87641},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2750, col: 9, offset: 87423},
+																	pos:        position{line: 2759, col: 9, offset: 87641},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2751, col: 11, offset: 87470},
+																pos: position{line: 2760, col: 11, offset: 87688},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2751, col: 11, offset: 87470},
+																	pos:        position{line: 2760, col: 11, offset: 87688},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2752, col: 11, offset: 87518},
+																pos: position{line: 2761, col: 11, offset: 87736},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2752, col: 11, offset: 87518},
+																	pos:        position{line: 2761, col: 11, offset: 87736},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -48426,38 +48782,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2754, col: 5, offset: 87568},
+												pos:   position{line: 2763, col: 5, offset: 87786},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2754, col: 12, offset: 87575},
+													pos: position{line: 2763, col: 12, offset: 87793},
 													expr: &choiceExpr{
-														pos: position{line: 2755, col: 9, offset: 87585},
+														pos: position{line: 2764, col: 9, offset: 87803},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2755, col: 9, offset: 87585},
+																pos: position{line: 2764, col: 9, offset: 87803},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2755, col: 9, offset: 87585},
+																	pos:        position{line: 2764, col: 9, offset: 87803},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2756, col: 11, offset: 87632},
+																pos: position{line: 2765, col: 11, offset: 87850},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2756, col: 11, offset: 87632},
+																	pos:        position{line: 2765, col: 11, offset: 87850},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2757, col: 11, offset: 87682},
+																pos: position{line: 2766, col: 11, offset: 87900},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2757, col: 11, offset: 87682},
+																	pos:        position{line: 2766, col: 11, offset: 87900},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -48468,32 +48824,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2759, col: 5, offset: 87733},
+												pos:   position{line: 2768, col: 5, offset: 87951},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2759, col: 12, offset: 87740},
+													pos: position{line: 2768, col: 12, offset: 87958},
 													expr: &choiceExpr{
-														pos: position{line: 2759, col: 13, offset: 87741},
+														pos: position{line: 2768, col: 13, offset: 87959},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92789},
+																pos: position{line: 2936, col: 12, offset: 93007},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2927, col: 13, offset: 92790},
+																	pos: position{line: 2936, col: 13, offset: 93008},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2927, col: 13, offset: 92790},
+																			pos: position{line: 2936, col: 13, offset: 93008},
 																			expr: &litMatcher{
-																				pos:        position{line: 2927, col: 13, offset: 92790},
+																				pos:        position{line: 2936, col: 13, offset: 93008},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2927, col: 18, offset: 92795},
+																			pos: position{line: 2936, col: 18, offset: 93013},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2927, col: 18, offset: 92795},
+																				pos:        position{line: 2936, col: 18, offset: 93013},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -48504,10 +48860,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2759, col: 24, offset: 87752},
+																pos: position{line: 2768, col: 24, offset: 87970},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2759, col: 24, offset: 87752},
+																	pos:        position{line: 2768, col: 24, offset: 87970},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -48518,15 +48874,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2760, col: 5, offset: 87794},
+												pos:   position{line: 2769, col: 5, offset: 88012},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2760, col: 11, offset: 87800},
+													pos: position{line: 2769, col: 11, offset: 88018},
 													expr: &actionExpr{
-														pos: position{line: 2760, col: 12, offset: 87801},
+														pos: position{line: 2769, col: 12, offset: 88019},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2760, col: 12, offset: 87801},
+															pos:        position{line: 2769, col: 12, offset: 88019},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -48536,12 +48892,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2762, col: 5, offset: 87931},
+												pos:   position{line: 2771, col: 5, offset: 88149},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2762, col: 11, offset: 87937},
+													pos: position{line: 2771, col: 11, offset: 88155},
 													expr: &litMatcher{
-														pos:        position{line: 2762, col: 12, offset: 87938},
+														pos:        position{line: 2771, col: 12, offset: 88156},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -48549,7 +48905,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2763, col: 5, offset: 87948},
+												pos: position{line: 2772, col: 5, offset: 88166},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -48558,9 +48914,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2954, col: 8, offset: 93310},
+							pos: position{line: 2963, col: 8, offset: 93528},
 							expr: &anyMatcher{
-								line: 2954, col: 9, offset: 93311,
+								line: 2963, col: 9, offset: 93529,
 							},
 						},
 					},
@@ -48569,23 +48925,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2790, col: 1, offset: 88957},
+			pos:  position{line: 2799, col: 1, offset: 89175},
 			expr: &actionExpr{
-				pos: position{line: 2791, col: 5, offset: 88980},
+				pos: position{line: 2800, col: 5, offset: 89198},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2791, col: 5, offset: 88980},
+					pos: position{line: 2800, col: 5, offset: 89198},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2791, col: 5, offset: 88980},
+							pos:   position{line: 2800, col: 5, offset: 89198},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2814, col: 18, offset: 89721},
+								pos: position{line: 2823, col: 18, offset: 89939},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2814, col: 19, offset: 89722},
+									pos: position{line: 2823, col: 19, offset: 89940},
 									expr: &charClassMatcher{
-										pos:        position{line: 2814, col: 19, offset: 89722},
+										pos:        position{line: 2823, col: 19, offset: 89940},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48596,25 +48952,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2792, col: 5, offset: 89006},
+							pos: position{line: 2801, col: 5, offset: 89224},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2796, col: 5, offset: 89134},
+							pos:        position{line: 2805, col: 5, offset: 89352},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2797, col: 5, offset: 89144},
+							pos:   position{line: 2806, col: 5, offset: 89362},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2818, col: 19, offset: 89797},
+								pos: position{line: 2827, col: 19, offset: 90015},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2818, col: 19, offset: 89797},
+									pos: position{line: 2827, col: 19, offset: 90015},
 									expr: &charClassMatcher{
-										pos:        position{line: 2818, col: 19, offset: 89797},
+										pos:        position{line: 2827, col: 19, offset: 90015},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48624,36 +48980,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2798, col: 5, offset: 89172},
+							pos:   position{line: 2807, col: 5, offset: 89390},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2798, col: 17, offset: 89184},
+								pos:  position{line: 2807, col: 17, offset: 89402},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2957, col: 8, offset: 93360},
+							pos: position{line: 2966, col: 8, offset: 93578},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2944, col: 12, offset: 93133},
+									pos: position{line: 2953, col: 12, offset: 93351},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2944, col: 13, offset: 93134},
+										pos: position{line: 2953, col: 13, offset: 93352},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2944, col: 13, offset: 93134},
+												pos:        position{line: 2953, col: 13, offset: 93352},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2944, col: 20, offset: 93141},
+												pos:        position{line: 2953, col: 20, offset: 93359},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2944, col: 29, offset: 93150},
+												pos:        position{line: 2953, col: 29, offset: 93368},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -48662,9 +49018,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2954, col: 8, offset: 93310},
+									pos: position{line: 2963, col: 8, offset: 93528},
 									expr: &anyMatcher{
-										line: 2954, col: 9, offset: 93311,
+										line: 2963, col: 9, offset: 93529,
 									},
 								},
 							},
@@ -48675,23 +49031,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2802, col: 1, offset: 89332},
+			pos:  position{line: 2811, col: 1, offset: 89550},
 			expr: &actionExpr{
-				pos: position{line: 2803, col: 5, offset: 89356},
+				pos: position{line: 2812, col: 5, offset: 89574},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2803, col: 5, offset: 89356},
+					pos: position{line: 2812, col: 5, offset: 89574},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2803, col: 5, offset: 89356},
+							pos:   position{line: 2812, col: 5, offset: 89574},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2814, col: 18, offset: 89721},
+								pos: position{line: 2823, col: 18, offset: 89939},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2814, col: 19, offset: 89722},
+									pos: position{line: 2823, col: 19, offset: 89940},
 									expr: &charClassMatcher{
-										pos:        position{line: 2814, col: 19, offset: 89722},
+										pos:        position{line: 2823, col: 19, offset: 89940},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48702,25 +49058,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2804, col: 5, offset: 89382},
+							pos: position{line: 2813, col: 5, offset: 89600},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2808, col: 5, offset: 89510},
+							pos:        position{line: 2817, col: 5, offset: 89728},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2809, col: 5, offset: 89519},
+							pos:   position{line: 2818, col: 5, offset: 89737},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2818, col: 19, offset: 89797},
+								pos: position{line: 2827, col: 19, offset: 90015},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2818, col: 19, offset: 89797},
+									pos: position{line: 2827, col: 19, offset: 90015},
 									expr: &charClassMatcher{
-										pos:        position{line: 2818, col: 19, offset: 89797},
+										pos:        position{line: 2827, col: 19, offset: 90015},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48730,10 +49086,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2810, col: 5, offset: 89547},
+							pos:   position{line: 2819, col: 5, offset: 89765},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2810, col: 17, offset: 89559},
+								pos:  position{line: 2819, col: 17, offset: 89777},
 								name: "InlineAttributes",
 							},
 						},
@@ -48743,43 +49099,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2889, col: 1, offset: 91609},
+			pos:  position{line: 2898, col: 1, offset: 91827},
 			expr: &actionExpr{
-				pos: position{line: 2889, col: 17, offset: 91625},
+				pos: position{line: 2898, col: 17, offset: 91843},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2889, col: 17, offset: 91625},
+					pos:   position{line: 2898, col: 17, offset: 91843},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2906, col: 5, offset: 92079},
+						pos: position{line: 2915, col: 5, offset: 92297},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2906, col: 5, offset: 92079},
+							pos:   position{line: 2915, col: 5, offset: 92297},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2906, col: 14, offset: 92088},
+								pos: position{line: 2915, col: 14, offset: 92306},
 								expr: &choiceExpr{
-									pos: position{line: 2907, col: 9, offset: 92098},
+									pos: position{line: 2916, col: 9, offset: 92316},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2907, col: 9, offset: 92098},
+											pos: position{line: 2916, col: 9, offset: 92316},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2907, col: 9, offset: 92098},
+												pos: position{line: 2916, col: 9, offset: 92316},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2907, col: 9, offset: 92098},
+														pos: position{line: 2916, col: 9, offset: 92316},
 														expr: &litMatcher{
-															pos:        position{line: 2907, col: 10, offset: 92099},
+															pos:        position{line: 2916, col: 10, offset: 92317},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2908, col: 9, offset: 92127},
+														pos: position{line: 2917, col: 9, offset: 92345},
 														expr: &charClassMatcher{
-															pos:        position{line: 2908, col: 10, offset: 92128},
+															pos:        position{line: 2917, col: 10, offset: 92346},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -48790,27 +49146,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2911, col: 11, offset: 92340},
+											pos: position{line: 2920, col: 11, offset: 92558},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2911, col: 11, offset: 92340},
+													pos:        position{line: 2920, col: 11, offset: 92558},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2911, col: 19, offset: 92348},
+													pos: position{line: 2920, col: 19, offset: 92566},
 													expr: &seqExpr{
-														pos: position{line: 2911, col: 21, offset: 92350},
+														pos: position{line: 2920, col: 21, offset: 92568},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2911, col: 21, offset: 92350},
+																pos: position{line: 2920, col: 21, offset: 92568},
 																expr: &actionExpr{
-																	pos: position{line: 2935, col: 10, offset: 92962},
+																	pos: position{line: 2944, col: 10, offset: 93180},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2935, col: 10, offset: 92962},
+																		pos:        position{line: 2944, col: 10, offset: 93180},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48819,11 +49175,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2911, col: 28, offset: 92357},
+																pos: position{line: 2920, col: 28, offset: 92575},
 																expr: &notExpr{
-																	pos: position{line: 2954, col: 8, offset: 93310},
+																	pos: position{line: 2963, col: 8, offset: 93528},
 																	expr: &anyMatcher{
-																		line: 2954, col: 9, offset: 93311,
+																		line: 2963, col: 9, offset: 93529,
 																	},
 																},
 															},
@@ -49222,10 +49578,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2914, col: 11, offset: 92477},
+											pos: position{line: 2923, col: 11, offset: 92695},
 											run: (*parser).callonFileLocation101,
 											expr: &litMatcher{
-												pos:        position{line: 2914, col: 11, offset: 92477},
+												pos:        position{line: 2923, col: 11, offset: 92695},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -54216,193 +54572,261 @@ func (p *parser) callonDocumentFragment1226() (interface{}, error) {
 	return p.cur.onDocumentFragment1226()
 }
 
-func (c *current) onDocumentFragment1243() (interface{}, error) {
+func (c *current) onDocumentFragment1245() (interface{}, error) {
+	return nil, nil // (sets the current position)
+
+}
+
+func (p *parser) callonDocumentFragment1245() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1245()
+}
+
+func (c *current) onDocumentFragment1247() (bool, error) {
+	return c.isAtBeginningOfLine(), nil
+
+}
+
+func (p *parser) callonDocumentFragment1247() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1247()
+}
+
+func (c *current) onDocumentFragment1249() (interface{}, error) {
 	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment1249() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1249()
+}
+
+func (c *current) onDocumentFragment1243(format interface{}) (interface{}, error) {
+	return format, nil
+
 }
 
 func (p *parser) callonDocumentFragment1243() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1243()
+	return p.cur.onDocumentFragment1243(stack["format"])
 }
 
-func (c *current) onDocumentFragment1248() (interface{}, error) {
+func (c *current) onDocumentFragment1266() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1248() (interface{}, error) {
+func (p *parser) callonDocumentFragment1266() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1248()
+	return p.cur.onDocumentFragment1266()
 }
 
-func (c *current) onDocumentFragment1251() (interface{}, error) {
+func (c *current) onDocumentFragment1269() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1251() (interface{}, error) {
+func (p *parser) callonDocumentFragment1269() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1251()
+	return p.cur.onDocumentFragment1269()
 }
 
-func (c *current) onDocumentFragment1261() (bool, error) {
+func (c *current) onDocumentFragment1279() (bool, error) {
 	return c.isAtBeginningOfLine(), nil
 
 }
 
-func (p *parser) callonDocumentFragment1261() (bool, error) {
+func (p *parser) callonDocumentFragment1279() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1261()
+	return p.cur.onDocumentFragment1279()
 }
 
-func (c *current) onDocumentFragment1269() (interface{}, error) {
+func (c *current) onDocumentFragment1287() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1269() (interface{}, error) {
+func (p *parser) callonDocumentFragment1287() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1269()
+	return p.cur.onDocumentFragment1287()
 }
 
-func (c *current) onDocumentFragment1273() (interface{}, error) {
+func (c *current) onDocumentFragment1291() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1273() (interface{}, error) {
+func (p *parser) callonDocumentFragment1291() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1273()
+	return p.cur.onDocumentFragment1291()
 }
 
-func (c *current) onDocumentFragment1263(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1281(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1263() (interface{}, error) {
+func (p *parser) callonDocumentFragment1281() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1263(stack["content"])
+	return p.cur.onDocumentFragment1281(stack["content"])
 }
 
-func (c *current) onDocumentFragment1259(comment interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1277(comment interface{}) (interface{}, error) {
 	return comment, nil
 
 }
 
-func (p *parser) callonDocumentFragment1259() (interface{}, error) {
+func (p *parser) callonDocumentFragment1277() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1259(stack["comment"])
+	return p.cur.onDocumentFragment1277(stack["comment"])
 }
 
-func (c *current) onDocumentFragment1287() (interface{}, error) {
+func (c *current) onDocumentFragment1305() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1287() (interface{}, error) {
+func (p *parser) callonDocumentFragment1305() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1287()
+	return p.cur.onDocumentFragment1305()
 }
 
-func (c *current) onDocumentFragment1290() (interface{}, error) {
+func (c *current) onDocumentFragment1308() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1290() (interface{}, error) {
+func (p *parser) callonDocumentFragment1308() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1290()
+	return p.cur.onDocumentFragment1308()
 }
 
-func (c *current) onDocumentFragment1305() (interface{}, error) {
+func (c *current) onDocumentFragment1323() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1305() (interface{}, error) {
+func (p *parser) callonDocumentFragment1323() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1305()
+	return p.cur.onDocumentFragment1323()
 }
 
-func (c *current) onDocumentFragment1308() (interface{}, error) {
+func (c *current) onDocumentFragment1326() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1308() (interface{}, error) {
+func (p *parser) callonDocumentFragment1326() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1308()
+	return p.cur.onDocumentFragment1326()
 }
 
-func (c *current) onDocumentFragment1300() (interface{}, error) {
+func (c *current) onDocumentFragment1318() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1300() (interface{}, error) {
+func (p *parser) callonDocumentFragment1318() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1300()
+	return p.cur.onDocumentFragment1318()
 }
 
-func (c *current) onDocumentFragment1319() (interface{}, error) {
+func (c *current) onDocumentFragment1339() (interface{}, error) {
+	return nil, nil // (sets the current position)
+
+}
+
+func (p *parser) callonDocumentFragment1339() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1339()
+}
+
+func (c *current) onDocumentFragment1341() (bool, error) {
+	return c.isAtBeginningOfLine(), nil
+
+}
+
+func (p *parser) callonDocumentFragment1341() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1341()
+}
+
+func (c *current) onDocumentFragment1343() (interface{}, error) {
 	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment1343() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1343()
+}
+
+func (c *current) onDocumentFragment1337(format interface{}) (interface{}, error) {
+	return format, nil
+
 }
 
-func (p *parser) callonDocumentFragment1319() (interface{}, error) {
+func (p *parser) callonDocumentFragment1337() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1319()
+	return p.cur.onDocumentFragment1337(stack["format"])
 }
 
-func (c *current) onDocumentFragment1324() (interface{}, error) {
+func (c *current) onDocumentFragment1360() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1324() (interface{}, error) {
+func (p *parser) callonDocumentFragment1360() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1324()
+	return p.cur.onDocumentFragment1360()
 }
 
-func (c *current) onDocumentFragment1329() (interface{}, error) {
+func (c *current) onDocumentFragment1365() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1329() (interface{}, error) {
+func (p *parser) callonDocumentFragment1365() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1329()
+	return p.cur.onDocumentFragment1365()
 }
 
-func (c *current) onDocumentFragment1280(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1298(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1280() (interface{}, error) {
+func (p *parser) callonDocumentFragment1298() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1280(stack["content"])
+	return p.cur.onDocumentFragment1298(stack["content"])
 }
 
 func (c *current) onDocumentFragment1206(format, content interface{}) (interface{}, error) {
@@ -54437,38 +54861,38 @@ func (p *parser) callonDocumentFragment1176() (interface{}, error) {
 	return p.cur.onDocumentFragment1176(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1341() (interface{}, error) {
+func (c *current) onDocumentFragment1377() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1341() (interface{}, error) {
+func (p *parser) callonDocumentFragment1377() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1341()
+	return p.cur.onDocumentFragment1377()
 }
 
-func (c *current) onDocumentFragment1344() (interface{}, error) {
+func (c *current) onDocumentFragment1380() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1344() (interface{}, error) {
+func (p *parser) callonDocumentFragment1380() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1344()
+	return p.cur.onDocumentFragment1380()
 }
 
-func (c *current) onDocumentFragment1336() (interface{}, error) {
+func (c *current) onDocumentFragment1372() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1336() (interface{}, error) {
+func (p *parser) callonDocumentFragment1372() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1336()
+	return p.cur.onDocumentFragment1372()
 }
 
 func (c *current) onDocumentFragment1155(content interface{}) (interface{}, error) {
@@ -54482,27 +54906,27 @@ func (p *parser) callonDocumentFragment1155() (interface{}, error) {
 	return p.cur.onDocumentFragment1155(stack["content"])
 }
 
-func (c *current) onDocumentFragment1355() (interface{}, error) {
+func (c *current) onDocumentFragment1391() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1355() (interface{}, error) {
+func (p *parser) callonDocumentFragment1391() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1355()
+	return p.cur.onDocumentFragment1391()
 }
 
-func (c *current) onDocumentFragment1358() (interface{}, error) {
+func (c *current) onDocumentFragment1394() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1358() (interface{}, error) {
+func (p *parser) callonDocumentFragment1394() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1358()
+	return p.cur.onDocumentFragment1394()
 }
 
 func (c *current) onDocumentFragment1106(lines interface{}) (interface{}, error) {
@@ -54516,161 +54940,161 @@ func (p *parser) callonDocumentFragment1106() (interface{}, error) {
 	return p.cur.onDocumentFragment1106(stack["lines"])
 }
 
-func (c *current) onDocumentFragment1373() (interface{}, error) {
+func (c *current) onDocumentFragment1409() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1373() (interface{}, error) {
+func (p *parser) callonDocumentFragment1409() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1373()
+	return p.cur.onDocumentFragment1409()
 }
 
-func (c *current) onDocumentFragment1377() (interface{}, error) {
+func (c *current) onDocumentFragment1413() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1377() (interface{}, error) {
+func (p *parser) callonDocumentFragment1413() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1377()
+	return p.cur.onDocumentFragment1413()
 }
 
-func (c *current) onDocumentFragment1367(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1403(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1367() (interface{}, error) {
+func (p *parser) callonDocumentFragment1403() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1367(stack["content"])
+	return p.cur.onDocumentFragment1403(stack["content"])
 }
 
-func (c *current) onDocumentFragment1386() (bool, error) {
+func (c *current) onDocumentFragment1422() (bool, error) {
 	return c.isFrontMatterAllowed(), nil
 
 }
 
-func (p *parser) callonDocumentFragment1386() (bool, error) {
+func (p *parser) callonDocumentFragment1422() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1386()
+	return p.cur.onDocumentFragment1422()
 }
 
-func (c *current) onDocumentFragment1392() (interface{}, error) {
+func (c *current) onDocumentFragment1428() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1392() (interface{}, error) {
+func (p *parser) callonDocumentFragment1428() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1392()
+	return p.cur.onDocumentFragment1428()
 }
 
-func (c *current) onDocumentFragment1395() (interface{}, error) {
+func (c *current) onDocumentFragment1431() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1395() (interface{}, error) {
+func (p *parser) callonDocumentFragment1431() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1395()
+	return p.cur.onDocumentFragment1431()
 }
 
-func (c *current) onDocumentFragment1412() (interface{}, error) {
+func (c *current) onDocumentFragment1448() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1412() (interface{}, error) {
+func (p *parser) callonDocumentFragment1448() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1412()
+	return p.cur.onDocumentFragment1448()
 }
 
-func (c *current) onDocumentFragment1415() (interface{}, error) {
+func (c *current) onDocumentFragment1451() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1415() (interface{}, error) {
+func (p *parser) callonDocumentFragment1451() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1415()
+	return p.cur.onDocumentFragment1451()
 }
 
-func (c *current) onDocumentFragment1404() (interface{}, error) {
+func (c *current) onDocumentFragment1440() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1404() (interface{}, error) {
+func (p *parser) callonDocumentFragment1440() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1404()
+	return p.cur.onDocumentFragment1440()
 }
 
-func (c *current) onDocumentFragment1425() (interface{}, error) {
+func (c *current) onDocumentFragment1461() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1425() (interface{}, error) {
+func (p *parser) callonDocumentFragment1461() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1425()
+	return p.cur.onDocumentFragment1461()
 }
 
-func (c *current) onDocumentFragment1428() (interface{}, error) {
+func (c *current) onDocumentFragment1464() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1428() (interface{}, error) {
+func (p *parser) callonDocumentFragment1464() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1428()
+	return p.cur.onDocumentFragment1464()
 }
 
-func (c *current) onDocumentFragment1388(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1424(content interface{}) (interface{}, error) {
 	return types.NewYamlFrontMatter(content.(string))
 }
 
-func (p *parser) callonDocumentFragment1388() (interface{}, error) {
+func (p *parser) callonDocumentFragment1424() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1388(stack["content"])
+	return p.cur.onDocumentFragment1424(stack["content"])
 }
 
-func (c *current) onDocumentFragment1384(frontmatter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1420(frontmatter interface{}) (interface{}, error) {
 	return frontmatter, nil
 
 }
 
-func (p *parser) callonDocumentFragment1384() (interface{}, error) {
+func (p *parser) callonDocumentFragment1420() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1384(stack["frontmatter"])
+	return p.cur.onDocumentFragment1420(stack["frontmatter"])
 }
 
-func (c *current) onDocumentFragment1436(attributes, element interface{}) (bool, error) {
+func (c *current) onDocumentFragment1472(attributes, element interface{}) (bool, error) {
 	// there must be at least `attributes` or `element`
 	return attributes != nil || element != nil, nil
 
 }
 
-func (p *parser) callonDocumentFragment1436() (bool, error) {
+func (p *parser) callonDocumentFragment1472() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1436(stack["attributes"], stack["element"])
+	return p.cur.onDocumentFragment1472(stack["attributes"], stack["element"])
 }
 
 func (c *current) onDocumentFragment1(attributes, element interface{}) (interface{}, error) {
@@ -68583,193 +69007,261 @@ func (p *parser) callonListContinuationElement1447() (interface{}, error) {
 	return p.cur.onListContinuationElement1447()
 }
 
-func (c *current) onListContinuationElement1464() (interface{}, error) {
+func (c *current) onListContinuationElement1466() (interface{}, error) {
+	return nil, nil // (sets the current position)
+
+}
+
+func (p *parser) callonListContinuationElement1466() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1466()
+}
+
+func (c *current) onListContinuationElement1468() (bool, error) {
+	return c.isAtBeginningOfLine(), nil
+
+}
+
+func (p *parser) callonListContinuationElement1468() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1468()
+}
+
+func (c *current) onListContinuationElement1470() (interface{}, error) {
 	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1470() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1470()
+}
+
+func (c *current) onListContinuationElement1464(format interface{}) (interface{}, error) {
+	return format, nil
+
 }
 
 func (p *parser) callonListContinuationElement1464() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1464()
+	return p.cur.onListContinuationElement1464(stack["format"])
 }
 
-func (c *current) onListContinuationElement1469() (interface{}, error) {
+func (c *current) onListContinuationElement1487() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1469() (interface{}, error) {
+func (p *parser) callonListContinuationElement1487() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1469()
+	return p.cur.onListContinuationElement1487()
 }
 
-func (c *current) onListContinuationElement1472() (interface{}, error) {
+func (c *current) onListContinuationElement1490() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1472() (interface{}, error) {
+func (p *parser) callonListContinuationElement1490() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1472()
+	return p.cur.onListContinuationElement1490()
 }
 
-func (c *current) onListContinuationElement1482() (bool, error) {
+func (c *current) onListContinuationElement1500() (bool, error) {
 	return c.isAtBeginningOfLine(), nil
 
 }
 
-func (p *parser) callonListContinuationElement1482() (bool, error) {
+func (p *parser) callonListContinuationElement1500() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1482()
+	return p.cur.onListContinuationElement1500()
 }
 
-func (c *current) onListContinuationElement1490() (interface{}, error) {
+func (c *current) onListContinuationElement1508() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1490() (interface{}, error) {
+func (p *parser) callonListContinuationElement1508() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1490()
+	return p.cur.onListContinuationElement1508()
 }
 
-func (c *current) onListContinuationElement1494() (interface{}, error) {
+func (c *current) onListContinuationElement1512() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1494() (interface{}, error) {
+func (p *parser) callonListContinuationElement1512() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1494()
+	return p.cur.onListContinuationElement1512()
 }
 
-func (c *current) onListContinuationElement1484(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1502(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1484() (interface{}, error) {
+func (p *parser) callonListContinuationElement1502() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1484(stack["content"])
+	return p.cur.onListContinuationElement1502(stack["content"])
 }
 
-func (c *current) onListContinuationElement1480(comment interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1498(comment interface{}) (interface{}, error) {
 	return comment, nil
 
 }
 
-func (p *parser) callonListContinuationElement1480() (interface{}, error) {
+func (p *parser) callonListContinuationElement1498() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1480(stack["comment"])
+	return p.cur.onListContinuationElement1498(stack["comment"])
 }
 
-func (c *current) onListContinuationElement1508() (interface{}, error) {
+func (c *current) onListContinuationElement1526() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1508() (interface{}, error) {
+func (p *parser) callonListContinuationElement1526() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1508()
+	return p.cur.onListContinuationElement1526()
 }
 
-func (c *current) onListContinuationElement1511() (interface{}, error) {
+func (c *current) onListContinuationElement1529() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1511() (interface{}, error) {
+func (p *parser) callonListContinuationElement1529() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1511()
+	return p.cur.onListContinuationElement1529()
 }
 
-func (c *current) onListContinuationElement1526() (interface{}, error) {
+func (c *current) onListContinuationElement1544() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1526() (interface{}, error) {
+func (p *parser) callonListContinuationElement1544() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1526()
+	return p.cur.onListContinuationElement1544()
 }
 
-func (c *current) onListContinuationElement1529() (interface{}, error) {
+func (c *current) onListContinuationElement1547() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1529() (interface{}, error) {
+func (p *parser) callonListContinuationElement1547() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1529()
+	return p.cur.onListContinuationElement1547()
 }
 
-func (c *current) onListContinuationElement1521() (interface{}, error) {
+func (c *current) onListContinuationElement1539() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1521() (interface{}, error) {
+func (p *parser) callonListContinuationElement1539() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1521()
+	return p.cur.onListContinuationElement1539()
 }
 
-func (c *current) onListContinuationElement1540() (interface{}, error) {
+func (c *current) onListContinuationElement1560() (interface{}, error) {
+	return nil, nil // (sets the current position)
+
+}
+
+func (p *parser) callonListContinuationElement1560() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1560()
+}
+
+func (c *current) onListContinuationElement1562() (bool, error) {
+	return c.isAtBeginningOfLine(), nil
+
+}
+
+func (p *parser) callonListContinuationElement1562() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1562()
+}
+
+func (c *current) onListContinuationElement1564() (interface{}, error) {
 	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1564() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1564()
 }
 
-func (p *parser) callonListContinuationElement1540() (interface{}, error) {
+func (c *current) onListContinuationElement1558(format interface{}) (interface{}, error) {
+	return format, nil
+
+}
+
+func (p *parser) callonListContinuationElement1558() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1540()
+	return p.cur.onListContinuationElement1558(stack["format"])
 }
 
-func (c *current) onListContinuationElement1545() (interface{}, error) {
+func (c *current) onListContinuationElement1581() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1545() (interface{}, error) {
+func (p *parser) callonListContinuationElement1581() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1545()
+	return p.cur.onListContinuationElement1581()
 }
 
-func (c *current) onListContinuationElement1550() (interface{}, error) {
+func (c *current) onListContinuationElement1586() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1550() (interface{}, error) {
+func (p *parser) callonListContinuationElement1586() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1550()
+	return p.cur.onListContinuationElement1586()
 }
 
-func (c *current) onListContinuationElement1501(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1519(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1501() (interface{}, error) {
+func (p *parser) callonListContinuationElement1519() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1501(stack["content"])
+	return p.cur.onListContinuationElement1519(stack["content"])
 }
 
 func (c *current) onListContinuationElement1427(format, content interface{}) (interface{}, error) {
@@ -68804,38 +69296,38 @@ func (p *parser) callonListContinuationElement1397() (interface{}, error) {
 	return p.cur.onListContinuationElement1397(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1562() (interface{}, error) {
+func (c *current) onListContinuationElement1598() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1562() (interface{}, error) {
+func (p *parser) callonListContinuationElement1598() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1562()
+	return p.cur.onListContinuationElement1598()
 }
 
-func (c *current) onListContinuationElement1565() (interface{}, error) {
+func (c *current) onListContinuationElement1601() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1565() (interface{}, error) {
+func (p *parser) callonListContinuationElement1601() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1565()
+	return p.cur.onListContinuationElement1601()
 }
 
-func (c *current) onListContinuationElement1557() (interface{}, error) {
+func (c *current) onListContinuationElement1593() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1557() (interface{}, error) {
+func (p *parser) callonListContinuationElement1593() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1557()
+	return p.cur.onListContinuationElement1593()
 }
 
 func (c *current) onListContinuationElement1376(content interface{}) (interface{}, error) {
@@ -68849,27 +69341,27 @@ func (p *parser) callonListContinuationElement1376() (interface{}, error) {
 	return p.cur.onListContinuationElement1376(stack["content"])
 }
 
-func (c *current) onListContinuationElement1576() (interface{}, error) {
+func (c *current) onListContinuationElement1612() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1576() (interface{}, error) {
+func (p *parser) callonListContinuationElement1612() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1576()
+	return p.cur.onListContinuationElement1612()
 }
 
-func (c *current) onListContinuationElement1579() (interface{}, error) {
+func (c *current) onListContinuationElement1615() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1579() (interface{}, error) {
+func (p *parser) callonListContinuationElement1615() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1579()
+	return p.cur.onListContinuationElement1615()
 }
 
 func (c *current) onListContinuationElement1327(lines interface{}) (interface{}, error) {
@@ -68883,237 +69375,237 @@ func (p *parser) callonListContinuationElement1327() (interface{}, error) {
 	return p.cur.onListContinuationElement1327(stack["lines"])
 }
 
-func (c *current) onListContinuationElement1594() (interface{}, error) {
+func (c *current) onListContinuationElement1630() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1594() (interface{}, error) {
+func (p *parser) callonListContinuationElement1630() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1594()
+	return p.cur.onListContinuationElement1630()
 }
 
-func (c *current) onListContinuationElement1598() (interface{}, error) {
+func (c *current) onListContinuationElement1634() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1598() (interface{}, error) {
+func (p *parser) callonListContinuationElement1634() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1598()
+	return p.cur.onListContinuationElement1634()
 }
 
-func (c *current) onListContinuationElement1588(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1624(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1588() (interface{}, error) {
+func (p *parser) callonListContinuationElement1624() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1588(stack["content"])
+	return p.cur.onListContinuationElement1624(stack["content"])
 }
 
-func (c *current) onListContinuationElement1611() (bool, error) {
+func (c *current) onListContinuationElement1647() (bool, error) {
 	return !c.isWithinLiteralParagraph(), nil
 
 }
 
-func (p *parser) callonListContinuationElement1611() (bool, error) {
+func (p *parser) callonListContinuationElement1647() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1611()
+	return p.cur.onListContinuationElement1647()
 }
 
-func (c *current) onListContinuationElement1614() (interface{}, error) {
+func (c *current) onListContinuationElement1650() (interface{}, error) {
 	return types.Tip, nil
 
 }
 
-func (p *parser) callonListContinuationElement1614() (interface{}, error) {
+func (p *parser) callonListContinuationElement1650() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1614()
+	return p.cur.onListContinuationElement1650()
 }
 
-func (c *current) onListContinuationElement1616() (interface{}, error) {
+func (c *current) onListContinuationElement1652() (interface{}, error) {
 	return types.Note, nil
 
 }
 
-func (p *parser) callonListContinuationElement1616() (interface{}, error) {
+func (p *parser) callonListContinuationElement1652() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1616()
+	return p.cur.onListContinuationElement1652()
 }
 
-func (c *current) onListContinuationElement1618() (interface{}, error) {
+func (c *current) onListContinuationElement1654() (interface{}, error) {
 	return types.Important, nil
 
 }
 
-func (p *parser) callonListContinuationElement1618() (interface{}, error) {
+func (p *parser) callonListContinuationElement1654() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1618()
+	return p.cur.onListContinuationElement1654()
 }
 
-func (c *current) onListContinuationElement1620() (interface{}, error) {
+func (c *current) onListContinuationElement1656() (interface{}, error) {
 	return types.Warning, nil
 
 }
 
-func (p *parser) callonListContinuationElement1620() (interface{}, error) {
+func (p *parser) callonListContinuationElement1656() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1620()
+	return p.cur.onListContinuationElement1656()
 }
 
-func (c *current) onListContinuationElement1622() (interface{}, error) {
+func (c *current) onListContinuationElement1658() (interface{}, error) {
 	return types.Caution, nil
 
 }
 
-func (p *parser) callonListContinuationElement1622() (interface{}, error) {
+func (p *parser) callonListContinuationElement1658() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1622()
+	return p.cur.onListContinuationElement1658()
 }
 
-func (c *current) onListContinuationElement1626() (interface{}, error) {
+func (c *current) onListContinuationElement1662() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1626() (interface{}, error) {
+func (p *parser) callonListContinuationElement1662() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1626()
+	return p.cur.onListContinuationElement1662()
 }
 
-func (c *current) onListContinuationElement1624() (interface{}, error) {
+func (c *current) onListContinuationElement1660() (interface{}, error) {
 	// check
 	return types.LiteralParagraph, nil
 
 }
 
-func (p *parser) callonListContinuationElement1624() (interface{}, error) {
+func (p *parser) callonListContinuationElement1660() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1624()
+	return p.cur.onListContinuationElement1660()
 }
 
-func (c *current) onListContinuationElement1609(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1645(style interface{}) (interface{}, error) {
 	return style, nil
 
 }
 
-func (p *parser) callonListContinuationElement1609() (interface{}, error) {
+func (p *parser) callonListContinuationElement1645() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1609(stack["style"])
+	return p.cur.onListContinuationElement1645(stack["style"])
 }
 
-func (c *current) onListContinuationElement1638() (interface{}, error) {
+func (c *current) onListContinuationElement1674() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1638() (interface{}, error) {
+func (p *parser) callonListContinuationElement1674() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1638()
+	return p.cur.onListContinuationElement1674()
 }
 
-func (c *current) onListContinuationElement1641() (interface{}, error) {
+func (c *current) onListContinuationElement1677() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1641() (interface{}, error) {
+func (p *parser) callonListContinuationElement1677() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1641()
+	return p.cur.onListContinuationElement1677()
 }
 
-func (c *current) onListContinuationElement1633() (interface{}, error) {
+func (c *current) onListContinuationElement1669() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1633() (interface{}, error) {
+func (p *parser) callonListContinuationElement1669() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1633()
+	return p.cur.onListContinuationElement1669()
 }
 
-func (c *current) onListContinuationElement1652() (interface{}, error) {
+func (c *current) onListContinuationElement1688() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1652() (interface{}, error) {
+func (p *parser) callonListContinuationElement1688() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1652()
+	return p.cur.onListContinuationElement1688()
 }
 
-func (c *current) onListContinuationElement1654() (interface{}, error) {
+func (c *current) onListContinuationElement1690() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1654() (interface{}, error) {
+func (p *parser) callonListContinuationElement1690() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1654()
+	return p.cur.onListContinuationElement1690()
 }
 
-func (c *current) onListContinuationElement1663() (interface{}, error) {
+func (c *current) onListContinuationElement1699() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1663() (interface{}, error) {
+func (p *parser) callonListContinuationElement1699() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1663()
+	return p.cur.onListContinuationElement1699()
 }
 
-func (c *current) onListContinuationElement1670() (interface{}, error) {
+func (c *current) onListContinuationElement1706() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonListContinuationElement1670() (interface{}, error) {
+func (p *parser) callonListContinuationElement1706() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1670()
+	return p.cur.onListContinuationElement1706()
 }
 
-func (c *current) onListContinuationElement1673(depth interface{}) (bool, error) {
+func (c *current) onListContinuationElement1709(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1673() (bool, error) {
+func (p *parser) callonListContinuationElement1709() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1673(stack["depth"])
+	return p.cur.onListContinuationElement1709(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1667(depth interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1703(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -69129,756 +69621,756 @@ func (c *current) onListContinuationElement1667(depth interface{}) (interface{},
 
 }
 
-func (p *parser) callonListContinuationElement1667() (interface{}, error) {
+func (p *parser) callonListContinuationElement1703() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1667(stack["depth"])
+	return p.cur.onListContinuationElement1703(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1674() (interface{}, error) {
+func (c *current) onListContinuationElement1710() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonListContinuationElement1674() (interface{}, error) {
+func (p *parser) callonListContinuationElement1710() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1674()
+	return p.cur.onListContinuationElement1710()
 }
 
-func (c *current) onListContinuationElement1679() (interface{}, error) {
+func (c *current) onListContinuationElement1715() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1679() (interface{}, error) {
+func (p *parser) callonListContinuationElement1715() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1679()
+	return p.cur.onListContinuationElement1715()
 }
 
-func (c *current) onListContinuationElement1683() (interface{}, error) {
+func (c *current) onListContinuationElement1719() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1683() (interface{}, error) {
+func (p *parser) callonListContinuationElement1719() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1683()
+	return p.cur.onListContinuationElement1719()
 }
 
-func (c *current) onListContinuationElement1687() (interface{}, error) {
+func (c *current) onListContinuationElement1723() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1687() (interface{}, error) {
+func (p *parser) callonListContinuationElement1723() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1687()
+	return p.cur.onListContinuationElement1723()
 }
 
-func (c *current) onListContinuationElement1692() (interface{}, error) {
+func (c *current) onListContinuationElement1728() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1692() (interface{}, error) {
+func (p *parser) callonListContinuationElement1728() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1692()
+	return p.cur.onListContinuationElement1728()
 }
 
-func (c *current) onListContinuationElement1697(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1733(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1697() (interface{}, error) {
+func (p *parser) callonListContinuationElement1733() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1697(stack["prefix"])
+	return p.cur.onListContinuationElement1733(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1660(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1696(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonListContinuationElement1660() (interface{}, error) {
+func (p *parser) callonListContinuationElement1696() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1660(stack["prefix"])
+	return p.cur.onListContinuationElement1696(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1704() (interface{}, error) {
+func (c *current) onListContinuationElement1740() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1704() (interface{}, error) {
+func (p *parser) callonListContinuationElement1740() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1704()
+	return p.cur.onListContinuationElement1740()
 }
 
-func (c *current) onListContinuationElement1707() (interface{}, error) {
+func (c *current) onListContinuationElement1743() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1707() (interface{}, error) {
+func (p *parser) callonListContinuationElement1743() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1707()
+	return p.cur.onListContinuationElement1743()
 }
 
-func (c *current) onListContinuationElement1712(style interface{}) (bool, error) {
+func (c *current) onListContinuationElement1748(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1712() (bool, error) {
+func (p *parser) callonListContinuationElement1748() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1712(stack["style"])
+	return p.cur.onListContinuationElement1748(stack["style"])
 }
 
-func (c *current) onListContinuationElement1713(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1749(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1713() (interface{}, error) {
+func (p *parser) callonListContinuationElement1749() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1713(stack["style"])
+	return p.cur.onListContinuationElement1749(stack["style"])
 }
 
-func (c *current) onListContinuationElement1701(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1737(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1701() (interface{}, error) {
+func (p *parser) callonListContinuationElement1737() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1701(stack["style"])
+	return p.cur.onListContinuationElement1737(stack["style"])
 }
 
-func (c *current) onListContinuationElement1721() (interface{}, error) {
+func (c *current) onListContinuationElement1757() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1721() (interface{}, error) {
+func (p *parser) callonListContinuationElement1757() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1721()
+	return p.cur.onListContinuationElement1757()
 }
 
-func (c *current) onListContinuationElement1725(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1761(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1725() (interface{}, error) {
+func (p *parser) callonListContinuationElement1761() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1725(stack["ref"])
+	return p.cur.onListContinuationElement1761(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1717(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1753(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonListContinuationElement1717() (interface{}, error) {
+func (p *parser) callonListContinuationElement1753() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1717(stack["ref"])
+	return p.cur.onListContinuationElement1753(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1743() (interface{}, error) {
+func (c *current) onListContinuationElement1779() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1743() (interface{}, error) {
+func (p *parser) callonListContinuationElement1779() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1743()
+	return p.cur.onListContinuationElement1779()
 }
 
-func (c *current) onListContinuationElement1746(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1782(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1746() (bool, error) {
+func (p *parser) callonListContinuationElement1782() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1746(stack["separator"])
+	return p.cur.onListContinuationElement1782(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1740(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1776(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1740() (interface{}, error) {
+func (p *parser) callonListContinuationElement1776() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1740(stack["separator"])
+	return p.cur.onListContinuationElement1776(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1749() (interface{}, error) {
+func (c *current) onListContinuationElement1785() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1749() (interface{}, error) {
+func (p *parser) callonListContinuationElement1785() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1749()
+	return p.cur.onListContinuationElement1785()
 }
 
-func (c *current) onListContinuationElement1730() (interface{}, error) {
+func (c *current) onListContinuationElement1766() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonListContinuationElement1730() (interface{}, error) {
+func (p *parser) callonListContinuationElement1766() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1730()
+	return p.cur.onListContinuationElement1766()
 }
 
-func (c *current) onListContinuationElement1760() (interface{}, error) {
+func (c *current) onListContinuationElement1796() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1760() (interface{}, error) {
+func (p *parser) callonListContinuationElement1796() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1760()
+	return p.cur.onListContinuationElement1796()
 }
 
-func (c *current) onListContinuationElement1763(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1799(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1763() (bool, error) {
+func (p *parser) callonListContinuationElement1799() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1763(stack["separator"])
+	return p.cur.onListContinuationElement1799(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1757(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1793(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1757() (interface{}, error) {
+func (p *parser) callonListContinuationElement1793() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1757(stack["separator"])
+	return p.cur.onListContinuationElement1793(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1774() (interface{}, error) {
+func (c *current) onListContinuationElement1810() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1774() (interface{}, error) {
+func (p *parser) callonListContinuationElement1810() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1774()
+	return p.cur.onListContinuationElement1810()
 }
 
-func (c *current) onListContinuationElement1780() (interface{}, error) {
+func (c *current) onListContinuationElement1816() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1780() (interface{}, error) {
+func (p *parser) callonListContinuationElement1816() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1780()
+	return p.cur.onListContinuationElement1816()
 }
 
-func (c *current) onListContinuationElement1783() (interface{}, error) {
+func (c *current) onListContinuationElement1819() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1783() (interface{}, error) {
+func (p *parser) callonListContinuationElement1819() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1783()
+	return p.cur.onListContinuationElement1819()
 }
 
-func (c *current) onListContinuationElement1771(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1807(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1771() (interface{}, error) {
+func (p *parser) callonListContinuationElement1807() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1771(stack["delimiter"])
+	return p.cur.onListContinuationElement1807(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1793() (interface{}, error) {
+func (c *current) onListContinuationElement1829() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1793() (interface{}, error) {
+func (p *parser) callonListContinuationElement1829() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1793()
+	return p.cur.onListContinuationElement1829()
 }
 
-func (c *current) onListContinuationElement1799() (interface{}, error) {
+func (c *current) onListContinuationElement1835() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1799() (interface{}, error) {
+func (p *parser) callonListContinuationElement1835() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1799()
+	return p.cur.onListContinuationElement1835()
 }
 
-func (c *current) onListContinuationElement1802() (interface{}, error) {
+func (c *current) onListContinuationElement1838() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1802() (interface{}, error) {
+func (p *parser) callonListContinuationElement1838() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1802()
+	return p.cur.onListContinuationElement1838()
 }
 
-func (c *current) onListContinuationElement1790(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1826(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1790() (interface{}, error) {
+func (p *parser) callonListContinuationElement1826() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1790(stack["delimiter"])
+	return p.cur.onListContinuationElement1826(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1813() (interface{}, error) {
+func (c *current) onListContinuationElement1849() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1813() (interface{}, error) {
+func (p *parser) callonListContinuationElement1849() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1813()
+	return p.cur.onListContinuationElement1849()
 }
 
-func (c *current) onListContinuationElement1817() (interface{}, error) {
+func (c *current) onListContinuationElement1853() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1817() (interface{}, error) {
+func (p *parser) callonListContinuationElement1853() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1817()
+	return p.cur.onListContinuationElement1853()
 }
 
-func (c *current) onListContinuationElement1820() (interface{}, error) {
+func (c *current) onListContinuationElement1856() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1820() (interface{}, error) {
+func (p *parser) callonListContinuationElement1856() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1820()
+	return p.cur.onListContinuationElement1856()
 }
 
-func (c *current) onListContinuationElement1809(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1845(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1809() (interface{}, error) {
+func (p *parser) callonListContinuationElement1845() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1809(stack["language"])
+	return p.cur.onListContinuationElement1845(stack["language"])
 }
 
-func (c *current) onListContinuationElement1830() (interface{}, error) {
+func (c *current) onListContinuationElement1866() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1830() (interface{}, error) {
+func (p *parser) callonListContinuationElement1866() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1830()
+	return p.cur.onListContinuationElement1866()
 }
 
-func (c *current) onListContinuationElement1836() (interface{}, error) {
+func (c *current) onListContinuationElement1872() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1836() (interface{}, error) {
+func (p *parser) callonListContinuationElement1872() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1836()
+	return p.cur.onListContinuationElement1872()
 }
 
-func (c *current) onListContinuationElement1839() (interface{}, error) {
+func (c *current) onListContinuationElement1875() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1839() (interface{}, error) {
+func (p *parser) callonListContinuationElement1875() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1839()
+	return p.cur.onListContinuationElement1875()
 }
 
-func (c *current) onListContinuationElement1827(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1863(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1827() (interface{}, error) {
+func (p *parser) callonListContinuationElement1863() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1827(stack["delimiter"])
+	return p.cur.onListContinuationElement1863(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1849() (interface{}, error) {
+func (c *current) onListContinuationElement1885() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1849() (interface{}, error) {
+func (p *parser) callonListContinuationElement1885() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1849()
+	return p.cur.onListContinuationElement1885()
 }
 
-func (c *current) onListContinuationElement1855() (interface{}, error) {
+func (c *current) onListContinuationElement1891() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1855() (interface{}, error) {
+func (p *parser) callonListContinuationElement1891() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1855()
+	return p.cur.onListContinuationElement1891()
 }
 
-func (c *current) onListContinuationElement1858() (interface{}, error) {
+func (c *current) onListContinuationElement1894() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1858() (interface{}, error) {
+func (p *parser) callonListContinuationElement1894() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1858()
+	return p.cur.onListContinuationElement1894()
 }
 
-func (c *current) onListContinuationElement1846(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1882(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1846() (interface{}, error) {
+func (p *parser) callonListContinuationElement1882() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1846(stack["delimiter"])
+	return p.cur.onListContinuationElement1882(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1868() (interface{}, error) {
+func (c *current) onListContinuationElement1904() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1868() (interface{}, error) {
+func (p *parser) callonListContinuationElement1904() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1868()
+	return p.cur.onListContinuationElement1904()
 }
 
-func (c *current) onListContinuationElement1874() (interface{}, error) {
+func (c *current) onListContinuationElement1910() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1874() (interface{}, error) {
+func (p *parser) callonListContinuationElement1910() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1874()
+	return p.cur.onListContinuationElement1910()
 }
 
-func (c *current) onListContinuationElement1877() (interface{}, error) {
+func (c *current) onListContinuationElement1913() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1877() (interface{}, error) {
+func (p *parser) callonListContinuationElement1913() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1877()
+	return p.cur.onListContinuationElement1913()
 }
 
-func (c *current) onListContinuationElement1865(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1901(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1865() (interface{}, error) {
+func (p *parser) callonListContinuationElement1901() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1865(stack["delimiter"])
+	return p.cur.onListContinuationElement1901(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1887() (interface{}, error) {
+func (c *current) onListContinuationElement1923() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1887() (interface{}, error) {
+func (p *parser) callonListContinuationElement1923() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1887()
+	return p.cur.onListContinuationElement1923()
 }
 
-func (c *current) onListContinuationElement1893() (interface{}, error) {
+func (c *current) onListContinuationElement1929() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1893() (interface{}, error) {
+func (p *parser) callonListContinuationElement1929() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1893()
+	return p.cur.onListContinuationElement1929()
 }
 
-func (c *current) onListContinuationElement1896() (interface{}, error) {
+func (c *current) onListContinuationElement1932() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1896() (interface{}, error) {
+func (p *parser) callonListContinuationElement1932() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1896()
+	return p.cur.onListContinuationElement1932()
 }
 
-func (c *current) onListContinuationElement1884(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1920(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1884() (interface{}, error) {
+func (p *parser) callonListContinuationElement1920() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1884(stack["delimiter"])
+	return p.cur.onListContinuationElement1920(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1906() (interface{}, error) {
+func (c *current) onListContinuationElement1942() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1906() (interface{}, error) {
+func (p *parser) callonListContinuationElement1942() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1906()
+	return p.cur.onListContinuationElement1942()
 }
 
-func (c *current) onListContinuationElement1912() (interface{}, error) {
+func (c *current) onListContinuationElement1948() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1912() (interface{}, error) {
+func (p *parser) callonListContinuationElement1948() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1912()
+	return p.cur.onListContinuationElement1948()
 }
 
-func (c *current) onListContinuationElement1915() (interface{}, error) {
+func (c *current) onListContinuationElement1951() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1915() (interface{}, error) {
+func (p *parser) callonListContinuationElement1951() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1915()
+	return p.cur.onListContinuationElement1951()
 }
 
-func (c *current) onListContinuationElement1903(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1939(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1903() (interface{}, error) {
+func (p *parser) callonListContinuationElement1939() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1903(stack["delimiter"])
+	return p.cur.onListContinuationElement1939(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1925() (interface{}, error) {
+func (c *current) onListContinuationElement1961() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1925() (interface{}, error) {
+func (p *parser) callonListContinuationElement1961() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1925()
+	return p.cur.onListContinuationElement1961()
 }
 
-func (c *current) onListContinuationElement1931() (interface{}, error) {
+func (c *current) onListContinuationElement1967() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1931() (interface{}, error) {
+func (p *parser) callonListContinuationElement1967() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1931()
+	return p.cur.onListContinuationElement1967()
 }
 
-func (c *current) onListContinuationElement1934() (interface{}, error) {
+func (c *current) onListContinuationElement1970() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1934() (interface{}, error) {
+func (p *parser) callonListContinuationElement1970() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1934()
+	return p.cur.onListContinuationElement1970()
 }
 
-func (c *current) onListContinuationElement1922(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1958(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1922() (interface{}, error) {
+func (p *parser) callonListContinuationElement1958() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1922(stack["delimiter"])
+	return p.cur.onListContinuationElement1958(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1765(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1801(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonListContinuationElement1765() (interface{}, error) {
+func (p *parser) callonListContinuationElement1801() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1765(stack["delimiter"])
+	return p.cur.onListContinuationElement1801(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1942() (interface{}, error) {
+func (c *current) onListContinuationElement1978() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1942() (interface{}, error) {
+func (p *parser) callonListContinuationElement1978() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1942()
+	return p.cur.onListContinuationElement1978()
 }
 
-func (c *current) onListContinuationElement1946() (interface{}, error) {
+func (c *current) onListContinuationElement1982() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1946() (interface{}, error) {
+func (p *parser) callonListContinuationElement1982() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1946()
+	return p.cur.onListContinuationElement1982()
 }
 
-func (c *current) onListContinuationElement1630(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1666(content interface{}) (interface{}, error) {
 	// do not retain the EOL chars
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1630() (interface{}, error) {
+func (p *parser) callonListContinuationElement1666() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1630(stack["content"])
+	return p.cur.onListContinuationElement1666(stack["content"])
 }
 
-func (c *current) onListContinuationElement1605(style, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1641(style, content interface{}) (interface{}, error) {
 	return types.NewParagraph(style, content)
 
 }
 
-func (p *parser) callonListContinuationElement1605() (interface{}, error) {
+func (p *parser) callonListContinuationElement1641() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1605(stack["style"], stack["content"])
+	return p.cur.onListContinuationElement1641(stack["style"], stack["content"])
 }
 
 func (c *current) onListContinuationElement1(attributes, element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 5358efa..9e70caf 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -2732,9 +2732,18 @@ MultilineTableCellContent <-
         }
     )*
 
-TableCellFormat <- [^ |\r\n]* {
-    return string(c.text), nil
-}
+TableCellFormat <- 
+    ("" {
+        return nil, nil // (sets the current position)
+    })
+    &{
+        return c.isAtBeginningOfLine(), nil
+    }
+    format:(([0-9.]+ [*+])? [<>^]? ("." [<>^])? [a-z]? {
+        return string(c.text), nil
+    }) {
+        return format, nil
+    }
 
 // rule for the optional `cols` attribute on a Table
 TableColumnsAttribute <- cols:(Column)* EOF {
-- 
2.43.0


From f561187ca1c97172615ca652b923f2d1c7a63d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:36 +0000
Subject: [PATCH 67/75] fix: arrange lists in blocks attached to list elements
 and bound the offset of continuations

---
 pkg/parser/document_processing_arrange_lists.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/document_processing_arrange_lists.go b/pkg/parser/document_processing_arrange_lists.go
index 923c8b8..527d397 100644
--- a/pkg/parser/document_processing_arrange_lists.go
+++ b/pkg/parser/document_processing_arrange_lists.go
@@ -105,6 +105,14 @@ content:
 		// if log.IsLevelEnabled(log.DebugLevel) {
 		// 	log.Debugf("arranging element of type '%T'", element)
 		// }
+		// also arrange the lists in the attached element (delimited block, etc.)
+		if c, ok := element.(*types.ListContinuation); ok {
+			elements, err := arrangeListElements([]interface{}{c.Element})
+			if err != nil {
+				return nil, err
+			}
+			c.Element = elements[0]
+		}
 		// lookup the parent block which can add the given element
 		if parentBlock := lists.parentFor(element); parentBlock != nil {
 			if err := parentBlock.AddElement(element); err != nil {
@@ -186,7 +194,7 @@ func (s *listStack) parentFor(element interface{}) *types.List {
 	// 	log.Debugf("looking-up parent for %s", spew.Sdump(element))
 	// }
 	if c, ok := element.(*types.ListContinuation); ok {
-		for i := 0; i < c.Offset; i++ {
+		for i := 0; i < c.Offset && len(s.stack) > 1; i++ { // attach to the outermost list if there are more ancestors than available
 			s.pop()
 		}
 	}
-- 
2.43.0


From 2e94d11124188be0ce8c2c46a1d0521e81c4360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:51 +0000
Subject: [PATCH 68/75] fix: items of unordered lists join the open list with
 the same marker

---
 .../document_processing_arrange_lists.go      | 54 +++++++++++++++++--
 1 file changed, 50 insertions(+), 4 deletions(-)

diff --git a/pkg/parser/document_processing_arrange_lists.go b/pkg/parser/document_processing_arrange_lists.go
index 527d397..ac09d2b 100644
--- a/pkg/parser/document_processing_arrange_lists.go
+++ b/pkg/parser/document_processing_arrange_lists.go
@@ -123,6 +123,7 @@ content:
 
 		switch e := element.(type) {
 		case types.ListElement:
+			marker := lists.markerOf(e)
 			// adjust style/level if needed
 			e.AdjustStyle(lists.get())
 			list, err := types.NewList(e)
@@ -130,7 +131,7 @@ content:
 				return nil, errors.Wrap(err, "unable to assemble list elements")
 			}
 			log.Debugf("adding a new list of kind '%s'", list.Kind)
-			if err := lists.push(list); err != nil {
+			if err := lists.push(list, marker); err != nil {
 				return nil, errors.Wrap(err, "unable to assemble list elements")
 			}
 		default:
@@ -141,7 +142,8 @@ content:
 }
 
 type listStack struct {
-	stack []*types.List
+	stack   []*types.List
+	markers []types.UnorderedListElementBulletStyle // markers of the elements in the lists (before their style was adjusted)
 }
 
 func newListStack() *listStack {
@@ -157,7 +159,7 @@ func (s *listStack) root() *types.List {
 	return nil
 }
 
-func (s *listStack) push(l *types.List) error {
+func (s *listStack) push(l *types.List, marker types.UnorderedListElementBulletStyle) error {
 	// also append to last element following the path from `root`
 	if len(s.stack) > 0 {
 		if err := s.stack[len(s.stack)-1].LastElement().AddElement(l); err != nil {
@@ -165,6 +167,7 @@ func (s *listStack) push(l *types.List) error {
 		}
 	}
 	s.stack = append(s.stack, l)
+	s.markers = append(s.markers, marker)
 	// if log.IsLevelEnabled(log.DebugLevel) {
 	// 	log.Debugf("added list to stack (len=%d)", len(s.stack))
 	// }
@@ -186,9 +189,51 @@ func (s *listStack) pop() *types.List {
 	}
 	l := s.stack[len(s.stack)-1]
 	s.stack = s.stack[:len(s.stack)-1]
+	s.markers = s.markers[:len(s.markers)-1]
 	return l
 }
 
+// markerOf returns the marker of the given element when it starts a new list (only for elements of unordered lists)
+func (s *listStack) markerOf(element types.ListElement) types.UnorderedListElementBulletStyle {
+	e, ok := element.(*types.UnorderedListElement)
+	if !ok {
+		return ""
+	}
+	if l := s.get(); l != nil && l.Kind == types.UnorderedListKind && e.BulletStyle != types.Dash {
+		// do not skip levels
+		switch s.markers[len(s.markers)-1] {
+		case types.OneAsterisk:
+			if e.BulletStyle != types.OneAsterisk {
+				return types.TwoAsterisks
+			}
+		case types.TwoAsterisks:
+			if e.BulletStyle == types.FourAsterisks || e.BulletStyle == types.FiveAsterisks {
+				return types.ThreeAsterisks
+			}
+		case types.ThreeAsterisks:
+			if e.BulletStyle == types.FiveAsterisks {
+				return types.FourAsterisks
+			}
+		}
+	}
+	return e.BulletStyle
+}
+
+// canAdd checks if the given element can be added to the list at the given index in the stack
+func (s *listStack) canAdd(i int, element interface{}) bool {
+	l := s.stack[i]
+	if e, ok := element.(*types.UnorderedListElement); ok {
+		if l.Kind != types.UnorderedListKind || s.markers[i] != e.BulletStyle {
+			return false
+		}
+		if first, ok := l.Elements[0].(*types.UnorderedListElement); ok {
+			e.BulletStyle = first.BulletStyle // same style for all elements of the list
+		}
+		return true
+	}
+	return l.CanAddElement(element)
+}
+
 func (s *listStack) parentFor(element interface{}) *types.List {
 	// if log.IsLevelEnabled(log.DebugLevel) {
 	// 	log.Debugf("looking-up parent for %s", spew.Sdump(element))
@@ -200,11 +245,12 @@ func (s *listStack) parentFor(element interface{}) *types.List {
 	}
 	for i := len(s.stack) - 1; i >= 0; i-- {
 		// log.Debugf("checking stack at index %d", i)
-		if l := s.stack[i]; l.CanAddElement(element) {
+		if l := s.stack[i]; s.canAdd(i, element) {
 			// if match, then `pop` all
 			// log.Debugf("found matching list of kind '%s' for element of type '%T' at index %d", l.Kind, element, i)
 			// clears the following content off the stack
 			s.stack = s.stack[:i+1]
+			s.markers = s.markers[:i+1]
 			return l
 		}
 	}
-- 
2.43.0


From 8337ba45447246f986b16b7f994876f8622470da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:16 +0000
Subject: [PATCH 69/75] fix: a tab after the marker of an ordered list element

---
 pkg/parser/parser.go  | 19338 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |     2 +-
 2 files changed, 9670 insertions(+), 9670 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 5eae645..4527400 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 49, offset: 11042},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93180},
+														pos: position{line: 2944, col: 10, offset: 93182},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93180},
+															pos:        position{line: 2944, col: 10, offset: 93182},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2966, col: 8, offset: 93578},
+													pos: position{line: 2966, col: 8, offset: 93580},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93351},
+															pos: position{line: 2953, col: 12, offset: 93353},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93352},
+																pos: position{line: 2953, col: 13, offset: 93354},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93352},
+																		pos:        position{line: 2953, col: 13, offset: 93354},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93359},
+																		pos:        position{line: 2953, col: 20, offset: 93361},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93368},
+																		pos:        position{line: 2953, col: 29, offset: 93370},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93528},
+															pos: position{line: 2963, col: 8, offset: 93530},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93529,
+																line: 2963, col: 9, offset: 93531,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 364, col: 39, offset: 11163},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93180},
+														pos: position{line: 2944, col: 10, offset: 93182},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93180},
+															pos:        position{line: 2944, col: 10, offset: 93182},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2966, col: 8, offset: 93578},
+													pos: position{line: 2966, col: 8, offset: 93580},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93351},
+															pos: position{line: 2953, col: 12, offset: 93353},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93352},
+																pos: position{line: 2953, col: 13, offset: 93354},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93352},
+																		pos:        position{line: 2953, col: 13, offset: 93354},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93359},
+																		pos:        position{line: 2953, col: 20, offset: 93361},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93368},
+																		pos:        position{line: 2953, col: 29, offset: 93370},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93528},
+															pos: position{line: 2963, col: 8, offset: 93530},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93529,
+																line: 2963, col: 9, offset: 93531,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93180},
+														pos: position{line: 2944, col: 10, offset: 93182},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93180},
+															pos:        position{line: 2944, col: 10, offset: 93182},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2963, col: 8, offset: 93528},
+													pos: position{line: 2963, col: 8, offset: 93530},
 													expr: &anyMatcher{
-														line: 2963, col: 9, offset: 93529,
+														line: 2963, col: 9, offset: 93531,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93180},
+														pos: position{line: 2944, col: 10, offset: 93182},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93180},
+															pos:        position{line: 2944, col: 10, offset: 93182},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2963, col: 8, offset: 93528},
+													pos: position{line: 2963, col: 8, offset: 93530},
 													expr: &anyMatcher{
-														line: 2963, col: 9, offset: 93529,
+														line: 2963, col: 9, offset: 93531,
 													},
 												},
 											},
@@ -464,22 +464,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 670, col: 5, offset: 21405},
+																				pos: position{line: 670, col: 5, offset: 21407},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 670, col: 5, offset: 21405},
+																						pos: position{line: 670, col: 5, offset: 21407},
 																						run: (*parser).callonDocumentRawLine97,
 																						expr: &seqExpr{
-																							pos: position{line: 670, col: 5, offset: 21405},
+																							pos: position{line: 670, col: 5, offset: 21407},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 670, col: 5, offset: 21405},
+																									pos:        position{line: 670, col: 5, offset: 21407},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 670, col: 13, offset: 21413},
+																									pos:   position{line: 670, col: 13, offset: 21415},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -511,7 +511,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 670, col: 32, offset: 21432},
+																									pos:        position{line: 670, col: 32, offset: 21434},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -520,19 +520,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 677, col: 5, offset: 21673},
+																						pos: position{line: 677, col: 5, offset: 21675},
 																						run: (*parser).callonDocumentRawLine107,
 																						expr: &seqExpr{
-																							pos: position{line: 677, col: 5, offset: 21673},
+																							pos: position{line: 677, col: 5, offset: 21675},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 677, col: 5, offset: 21673},
+																									pos:        position{line: 677, col: 5, offset: 21675},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 677, col: 9, offset: 21677},
+																									pos:   position{line: 677, col: 9, offset: 21679},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -564,7 +564,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 677, col: 28, offset: 21696},
+																									pos:        position{line: 677, col: 28, offset: 21698},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -600,22 +600,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 670, col: 5, offset: 21405},
+																				pos: position{line: 670, col: 5, offset: 21407},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 670, col: 5, offset: 21405},
+																						pos: position{line: 670, col: 5, offset: 21407},
 																						run: (*parser).callonDocumentRawLine123,
 																						expr: &seqExpr{
-																							pos: position{line: 670, col: 5, offset: 21405},
+																							pos: position{line: 670, col: 5, offset: 21407},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 670, col: 5, offset: 21405},
+																									pos:        position{line: 670, col: 5, offset: 21407},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 670, col: 13, offset: 21413},
+																									pos:   position{line: 670, col: 13, offset: 21415},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -647,7 +647,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 670, col: 32, offset: 21432},
+																									pos:        position{line: 670, col: 32, offset: 21434},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -656,19 +656,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 677, col: 5, offset: 21673},
+																						pos: position{line: 677, col: 5, offset: 21675},
 																						run: (*parser).callonDocumentRawLine133,
 																						expr: &seqExpr{
-																							pos: position{line: 677, col: 5, offset: 21673},
+																							pos: position{line: 677, col: 5, offset: 21675},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 677, col: 5, offset: 21673},
+																									pos:        position{line: 677, col: 5, offset: 21675},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 677, col: 9, offset: 21677},
+																									pos:   position{line: 677, col: 9, offset: 21679},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -700,7 +700,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 677, col: 28, offset: 21696},
+																									pos:        position{line: 677, col: 28, offset: 21698},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -727,22 +727,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 670, col: 5, offset: 21405},
+																		pos: position{line: 670, col: 5, offset: 21407},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 670, col: 5, offset: 21405},
+																				pos: position{line: 670, col: 5, offset: 21407},
 																				run: (*parser).callonDocumentRawLine147,
 																				expr: &seqExpr{
-																					pos: position{line: 670, col: 5, offset: 21405},
+																					pos: position{line: 670, col: 5, offset: 21407},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 670, col: 5, offset: 21405},
+																							pos:        position{line: 670, col: 5, offset: 21407},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 670, col: 13, offset: 21413},
+																							pos:   position{line: 670, col: 13, offset: 21415},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -774,7 +774,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 670, col: 32, offset: 21432},
+																							pos:        position{line: 670, col: 32, offset: 21434},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -783,19 +783,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 677, col: 5, offset: 21673},
+																				pos: position{line: 677, col: 5, offset: 21675},
 																				run: (*parser).callonDocumentRawLine157,
 																				expr: &seqExpr{
-																					pos: position{line: 677, col: 5, offset: 21673},
+																					pos: position{line: 677, col: 5, offset: 21675},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 677, col: 5, offset: 21673},
+																							pos:        position{line: 677, col: 5, offset: 21675},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 677, col: 9, offset: 21677},
+																							pos:   position{line: 677, col: 9, offset: 21679},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -827,7 +827,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 677, col: 28, offset: 21696},
+																							pos:        position{line: 677, col: 28, offset: 21698},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2936, col: 12, offset: 93007},
+																pos: position{line: 2936, col: 12, offset: 93009},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2936, col: 13, offset: 93008},
+																	pos: position{line: 2936, col: 13, offset: 93010},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2936, col: 13, offset: 93008},
+																			pos: position{line: 2936, col: 13, offset: 93010},
 																			expr: &litMatcher{
-																				pos:        position{line: 2936, col: 13, offset: 93008},
+																				pos:        position{line: 2936, col: 13, offset: 93010},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2936, col: 18, offset: 93013},
+																			pos: position{line: 2936, col: 18, offset: 93015},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2936, col: 18, offset: 93013},
+																				pos:        position{line: 2936, col: 18, offset: 93015},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93180},
+														pos: position{line: 2944, col: 10, offset: 93182},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93180},
+															pos:        position{line: 2944, col: 10, offset: 93182},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93180},
+														pos: position{line: 2944, col: 10, offset: 93182},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93180},
+															pos:        position{line: 2944, col: 10, offset: 93182},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1069,22 +1069,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 670, col: 5, offset: 21405},
+																				pos: position{line: 670, col: 5, offset: 21407},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 670, col: 5, offset: 21405},
+																						pos: position{line: 670, col: 5, offset: 21407},
 																						run: (*parser).callonDocumentRawLine216,
 																						expr: &seqExpr{
-																							pos: position{line: 670, col: 5, offset: 21405},
+																							pos: position{line: 670, col: 5, offset: 21407},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 670, col: 5, offset: 21405},
+																									pos:        position{line: 670, col: 5, offset: 21407},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 670, col: 13, offset: 21413},
+																									pos:   position{line: 670, col: 13, offset: 21415},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -1116,7 +1116,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 670, col: 32, offset: 21432},
+																									pos:        position{line: 670, col: 32, offset: 21434},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1125,19 +1125,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 677, col: 5, offset: 21673},
+																						pos: position{line: 677, col: 5, offset: 21675},
 																						run: (*parser).callonDocumentRawLine226,
 																						expr: &seqExpr{
-																							pos: position{line: 677, col: 5, offset: 21673},
+																							pos: position{line: 677, col: 5, offset: 21675},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 677, col: 5, offset: 21673},
+																									pos:        position{line: 677, col: 5, offset: 21675},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 677, col: 9, offset: 21677},
+																									pos:   position{line: 677, col: 9, offset: 21679},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -1169,7 +1169,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 677, col: 28, offset: 21696},
+																									pos:        position{line: 677, col: 28, offset: 21698},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1205,22 +1205,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 670, col: 5, offset: 21405},
+																				pos: position{line: 670, col: 5, offset: 21407},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 670, col: 5, offset: 21405},
+																						pos: position{line: 670, col: 5, offset: 21407},
 																						run: (*parser).callonDocumentRawLine242,
 																						expr: &seqExpr{
-																							pos: position{line: 670, col: 5, offset: 21405},
+																							pos: position{line: 670, col: 5, offset: 21407},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 670, col: 5, offset: 21405},
+																									pos:        position{line: 670, col: 5, offset: 21407},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 670, col: 13, offset: 21413},
+																									pos:   position{line: 670, col: 13, offset: 21415},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -1252,7 +1252,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 670, col: 32, offset: 21432},
+																									pos:        position{line: 670, col: 32, offset: 21434},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1261,19 +1261,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 677, col: 5, offset: 21673},
+																						pos: position{line: 677, col: 5, offset: 21675},
 																						run: (*parser).callonDocumentRawLine252,
 																						expr: &seqExpr{
-																							pos: position{line: 677, col: 5, offset: 21673},
+																							pos: position{line: 677, col: 5, offset: 21675},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 677, col: 5, offset: 21673},
+																									pos:        position{line: 677, col: 5, offset: 21675},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 677, col: 9, offset: 21677},
+																									pos:   position{line: 677, col: 9, offset: 21679},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 320, col: 18, offset: 9837},
@@ -1305,7 +1305,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 677, col: 28, offset: 21696},
+																									pos:        position{line: 677, col: 28, offset: 21698},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1332,22 +1332,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 670, col: 5, offset: 21405},
+																		pos: position{line: 670, col: 5, offset: 21407},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 670, col: 5, offset: 21405},
+																				pos: position{line: 670, col: 5, offset: 21407},
 																				run: (*parser).callonDocumentRawLine266,
 																				expr: &seqExpr{
-																					pos: position{line: 670, col: 5, offset: 21405},
+																					pos: position{line: 670, col: 5, offset: 21407},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 670, col: 5, offset: 21405},
+																							pos:        position{line: 670, col: 5, offset: 21407},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 670, col: 13, offset: 21413},
+																							pos:   position{line: 670, col: 13, offset: 21415},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -1379,7 +1379,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 670, col: 32, offset: 21432},
+																							pos:        position{line: 670, col: 32, offset: 21434},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1388,19 +1388,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 677, col: 5, offset: 21673},
+																				pos: position{line: 677, col: 5, offset: 21675},
 																				run: (*parser).callonDocumentRawLine276,
 																				expr: &seqExpr{
-																					pos: position{line: 677, col: 5, offset: 21673},
+																					pos: position{line: 677, col: 5, offset: 21675},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 677, col: 5, offset: 21673},
+																							pos:        position{line: 677, col: 5, offset: 21675},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 677, col: 9, offset: 21677},
+																							pos:   position{line: 677, col: 9, offset: 21679},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 320, col: 18, offset: 9837},
@@ -1432,7 +1432,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 677, col: 28, offset: 21696},
+																							pos:        position{line: 677, col: 28, offset: 21698},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2936, col: 12, offset: 93007},
+																pos: position{line: 2936, col: 12, offset: 93009},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2936, col: 13, offset: 93008},
+																	pos: position{line: 2936, col: 13, offset: 93010},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2936, col: 13, offset: 93008},
+																			pos: position{line: 2936, col: 13, offset: 93010},
 																			expr: &litMatcher{
-																				pos:        position{line: 2936, col: 13, offset: 93008},
+																				pos:        position{line: 2936, col: 13, offset: 93010},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2936, col: 18, offset: 93013},
+																			pos: position{line: 2936, col: 18, offset: 93015},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2936, col: 18, offset: 93013},
+																				pos:        position{line: 2936, col: 18, offset: 93015},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93180},
+														pos: position{line: 2944, col: 10, offset: 93182},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93180},
+															pos:        position{line: 2944, col: 10, offset: 93182},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2963, col: 8, offset: 93528},
+													pos: position{line: 2963, col: 8, offset: 93530},
 													expr: &anyMatcher{
-														line: 2963, col: 9, offset: 93529,
+														line: 2963, col: 9, offset: 93531,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93180},
+														pos: position{line: 2944, col: 10, offset: 93182},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93180},
+															pos:        position{line: 2944, col: 10, offset: 93182},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,24 +1665,24 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2963, col: 8, offset: 93528},
+													pos: position{line: 2963, col: 8, offset: 93530},
 													expr: &anyMatcher{
-														line: 2963, col: 9, offset: 93529,
+														line: 2963, col: 9, offset: 93531,
 													},
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 749, col: 5, offset: 24130},
+										pos: position{line: 749, col: 5, offset: 24132},
 										run: (*parser).callonDocumentRawLine334,
 										expr: &seqExpr{
-											pos: position{line: 749, col: 5, offset: 24130},
+											pos: position{line: 749, col: 5, offset: 24132},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 749, col: 5, offset: 24130},
+													pos: position{line: 749, col: 5, offset: 24132},
 													expr: &charClassMatcher{
-														pos:        position{line: 2834, col: 13, offset: 90275},
+														pos:        position{line: 2834, col: 13, offset: 90277},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1690,36 +1690,36 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 750, col: 5, offset: 24160},
+													pos:   position{line: 750, col: 5, offset: 24162},
 													label: "delimiter",
 													expr: &choiceExpr{
-														pos: position{line: 751, col: 9, offset: 24180},
+														pos: position{line: 751, col: 9, offset: 24182},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 765, col: 5, offset: 24672},
+																pos: position{line: 765, col: 5, offset: 24674},
 																run: (*parser).callonDocumentRawLine340,
 																expr: &seqExpr{
-																	pos: position{line: 765, col: 5, offset: 24672},
+																	pos: position{line: 765, col: 5, offset: 24674},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 765, col: 5, offset: 24672},
+																			pos:   position{line: 765, col: 5, offset: 24674},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 765, col: 16, offset: 24683},
+																				pos: position{line: 765, col: 16, offset: 24685},
 																				run: (*parser).callonDocumentRawLine343,
 																				expr: &seqExpr{
-																					pos: position{line: 765, col: 16, offset: 24683},
+																					pos: position{line: 765, col: 16, offset: 24685},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 765, col: 16, offset: 24683},
+																							pos:        position{line: 765, col: 16, offset: 24685},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 765, col: 23, offset: 24690},
+																							pos: position{line: 765, col: 23, offset: 24692},
 																							expr: &litMatcher{
-																								pos:        position{line: 765, col: 23, offset: 24690},
+																								pos:        position{line: 765, col: 23, offset: 24692},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -1730,12 +1730,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 767, col: 8, offset: 24774},
+																			pos: position{line: 767, col: 8, offset: 24776},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93180},
+																				pos: position{line: 2944, col: 10, offset: 93182},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93180},
+																					pos:        position{line: 2944, col: 10, offset: 93182},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93578},
+																			pos: position{line: 2966, col: 8, offset: 93580},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93351},
+																					pos: position{line: 2953, col: 12, offset: 93353},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93352},
+																						pos: position{line: 2953, col: 13, offset: 93354},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93352},
+																								pos:        position{line: 2953, col: 13, offset: 93354},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93359},
+																								pos:        position{line: 2953, col: 20, offset: 93361},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93368},
+																								pos:        position{line: 2953, col: 29, offset: 93370},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
@@ -1785,30 +1785,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 772, col: 5, offset: 24920},
+																pos: position{line: 772, col: 5, offset: 24922},
 																run: (*parser).callonDocumentRawLine359,
 																expr: &seqExpr{
-																	pos: position{line: 772, col: 5, offset: 24920},
+																	pos: position{line: 772, col: 5, offset: 24922},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 772, col: 5, offset: 24920},
+																			pos:   position{line: 772, col: 5, offset: 24922},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 772, col: 16, offset: 24931},
+																				pos: position{line: 772, col: 16, offset: 24933},
 																				run: (*parser).callonDocumentRawLine362,
 																				expr: &seqExpr{
-																					pos: position{line: 772, col: 16, offset: 24931},
+																					pos: position{line: 772, col: 16, offset: 24933},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 772, col: 16, offset: 24931},
+																							pos:        position{line: 772, col: 16, offset: 24933},
 																							val:        "====",
 																							ignoreCase: false,
 																							want:       "\"====\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 772, col: 23, offset: 24938},
+																							pos: position{line: 772, col: 23, offset: 24940},
 																							expr: &litMatcher{
-																								pos:        position{line: 772, col: 23, offset: 24938},
+																								pos:        position{line: 772, col: 23, offset: 24940},
 																								val:        "=",
 																								ignoreCase: false,
 																								want:       "\"=\"",
@@ -1819,12 +1819,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 774, col: 8, offset: 25022},
+																			pos: position{line: 774, col: 8, offset: 25024},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93180},
+																				pos: position{line: 2944, col: 10, offset: 93182},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93180},
+																					pos:        position{line: 2944, col: 10, offset: 93182},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93578},
+																			pos: position{line: 2966, col: 8, offset: 93580},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93351},
+																					pos: position{line: 2953, col: 12, offset: 93353},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93352},
+																						pos: position{line: 2953, col: 13, offset: 93354},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93352},
+																								pos:        position{line: 2953, col: 13, offset: 93354},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93359},
+																								pos:        position{line: 2953, col: 20, offset: 93361},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93368},
+																								pos:        position{line: 2953, col: 29, offset: 93370},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
@@ -1874,27 +1874,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 785, col: 26, offset: 25408},
+																pos: position{line: 785, col: 26, offset: 25410},
 																run: (*parser).callonDocumentRawLine378,
 																expr: &seqExpr{
-																	pos: position{line: 785, col: 26, offset: 25408},
+																	pos: position{line: 785, col: 26, offset: 25410},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 785, col: 26, offset: 25408},
+																			pos:        position{line: 785, col: 26, offset: 25410},
 																			val:        "```",
 																			ignoreCase: false,
 																			want:       "\"```\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 785, col: 32, offset: 25414},
+																			pos:   position{line: 785, col: 32, offset: 25416},
 																			label: "language",
 																			expr: &actionExpr{
-																				pos: position{line: 789, col: 13, offset: 25544},
+																				pos: position{line: 789, col: 13, offset: 25546},
 																				run: (*parser).callonDocumentRawLine382,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 789, col: 14, offset: 25545},
+																					pos: position{line: 789, col: 14, offset: 25547},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 789, col: 14, offset: 25545},
+																						pos:        position{line: 789, col: 14, offset: 25547},
 																						val:        "[^\\r\\n` ]",
 																						chars:      []rune{'\r', '\n', '`', ' '},
 																						ignoreCase: false,
@@ -1904,12 +1904,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 785, col: 52, offset: 25434},
+																			pos: position{line: 785, col: 52, offset: 25436},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93180},
+																				pos: position{line: 2944, col: 10, offset: 93182},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93180},
+																					pos:        position{line: 2944, col: 10, offset: 93182},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93578},
+																			pos: position{line: 2966, col: 8, offset: 93580},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93351},
+																					pos: position{line: 2953, col: 12, offset: 93353},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93352},
+																						pos: position{line: 2953, col: 13, offset: 93354},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93352},
+																								pos:        position{line: 2953, col: 13, offset: 93354},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93359},
+																								pos:        position{line: 2953, col: 20, offset: 93361},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93368},
+																								pos:        position{line: 2953, col: 29, offset: 93370},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
@@ -1959,30 +1959,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 779, col: 5, offset: 25167},
+																pos: position{line: 779, col: 5, offset: 25169},
 																run: (*parser).callonDocumentRawLine396,
 																expr: &seqExpr{
-																	pos: position{line: 779, col: 5, offset: 25167},
+																	pos: position{line: 779, col: 5, offset: 25169},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 779, col: 5, offset: 25167},
+																			pos:   position{line: 779, col: 5, offset: 25169},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 779, col: 16, offset: 25178},
+																				pos: position{line: 779, col: 16, offset: 25180},
 																				run: (*parser).callonDocumentRawLine399,
 																				expr: &seqExpr{
-																					pos: position{line: 779, col: 16, offset: 25178},
+																					pos: position{line: 779, col: 16, offset: 25180},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 779, col: 16, offset: 25178},
+																							pos:        position{line: 779, col: 16, offset: 25180},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 779, col: 22, offset: 25184},
+																							pos: position{line: 779, col: 22, offset: 25186},
 																							expr: &litMatcher{
-																								pos:        position{line: 779, col: 22, offset: 25184},
+																								pos:        position{line: 779, col: 22, offset: 25186},
 																								val:        "`",
 																								ignoreCase: false,
 																								want:       "\"`\"",
@@ -1993,12 +1993,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 781, col: 8, offset: 25268},
+																			pos: position{line: 781, col: 8, offset: 25270},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93180},
+																				pos: position{line: 2944, col: 10, offset: 93182},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93180},
+																					pos:        position{line: 2944, col: 10, offset: 93182},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93578},
+																			pos: position{line: 2966, col: 8, offset: 93580},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93351},
+																					pos: position{line: 2953, col: 12, offset: 93353},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93352},
+																						pos: position{line: 2953, col: 13, offset: 93354},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93352},
+																								pos:        position{line: 2953, col: 13, offset: 93354},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93359},
+																								pos:        position{line: 2953, col: 20, offset: 93361},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93368},
+																								pos:        position{line: 2953, col: 29, offset: 93370},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
@@ -2048,30 +2048,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 794, col: 5, offset: 25704},
+																pos: position{line: 794, col: 5, offset: 25706},
 																run: (*parser).callonDocumentRawLine415,
 																expr: &seqExpr{
-																	pos: position{line: 794, col: 5, offset: 25704},
+																	pos: position{line: 794, col: 5, offset: 25706},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 794, col: 5, offset: 25704},
+																			pos:   position{line: 794, col: 5, offset: 25706},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 794, col: 16, offset: 25715},
+																				pos: position{line: 794, col: 16, offset: 25717},
 																				run: (*parser).callonDocumentRawLine418,
 																				expr: &seqExpr{
-																					pos: position{line: 794, col: 16, offset: 25715},
+																					pos: position{line: 794, col: 16, offset: 25717},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 794, col: 16, offset: 25715},
+																							pos:        position{line: 794, col: 16, offset: 25717},
 																							val:        "----",
 																							ignoreCase: false,
 																							want:       "\"----\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 794, col: 23, offset: 25722},
+																							pos: position{line: 794, col: 23, offset: 25724},
 																							expr: &litMatcher{
-																								pos:        position{line: 794, col: 23, offset: 25722},
+																								pos:        position{line: 794, col: 23, offset: 25724},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
@@ -2082,12 +2082,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 796, col: 8, offset: 25806},
+																			pos: position{line: 796, col: 8, offset: 25808},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93180},
+																				pos: position{line: 2944, col: 10, offset: 93182},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93180},
+																					pos:        position{line: 2944, col: 10, offset: 93182},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93578},
+																			pos: position{line: 2966, col: 8, offset: 93580},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93351},
+																					pos: position{line: 2953, col: 12, offset: 93353},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93352},
+																						pos: position{line: 2953, col: 13, offset: 93354},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93352},
+																								pos:        position{line: 2953, col: 13, offset: 93354},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93359},
+																								pos:        position{line: 2953, col: 20, offset: 93361},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93368},
+																								pos:        position{line: 2953, col: 29, offset: 93370},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
@@ -2137,30 +2137,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 808, col: 5, offset: 26180},
+																pos: position{line: 808, col: 5, offset: 26182},
 																run: (*parser).callonDocumentRawLine434,
 																expr: &seqExpr{
-																	pos: position{line: 808, col: 5, offset: 26180},
+																	pos: position{line: 808, col: 5, offset: 26182},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 808, col: 5, offset: 26180},
+																			pos:   position{line: 808, col: 5, offset: 26182},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 808, col: 16, offset: 26191},
+																				pos: position{line: 808, col: 16, offset: 26193},
 																				run: (*parser).callonDocumentRawLine437,
 																				expr: &seqExpr{
-																					pos: position{line: 808, col: 16, offset: 26191},
+																					pos: position{line: 808, col: 16, offset: 26193},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 808, col: 16, offset: 26191},
+																							pos:        position{line: 808, col: 16, offset: 26193},
 																							val:        "....",
 																							ignoreCase: false,
 																							want:       "\"....\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 808, col: 23, offset: 26198},
+																							pos: position{line: 808, col: 23, offset: 26200},
 																							expr: &litMatcher{
-																								pos:        position{line: 808, col: 23, offset: 26198},
+																								pos:        position{line: 808, col: 23, offset: 26200},
 																								val:        ".",
 																								ignoreCase: false,
 																								want:       "\".\"",
@@ -2171,12 +2171,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 810, col: 8, offset: 26282},
+																			pos: position{line: 810, col: 8, offset: 26284},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93180},
+																				pos: position{line: 2944, col: 10, offset: 93182},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93180},
+																					pos:        position{line: 2944, col: 10, offset: 93182},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93578},
+																			pos: position{line: 2966, col: 8, offset: 93580},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93351},
+																					pos: position{line: 2953, col: 12, offset: 93353},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93352},
+																						pos: position{line: 2953, col: 13, offset: 93354},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93352},
+																								pos:        position{line: 2953, col: 13, offset: 93354},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93359},
+																								pos:        position{line: 2953, col: 20, offset: 93361},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93368},
+																								pos:        position{line: 2953, col: 29, offset: 93370},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
@@ -2226,30 +2226,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 815, col: 5, offset: 26432},
+																pos: position{line: 815, col: 5, offset: 26434},
 																run: (*parser).callonDocumentRawLine453,
 																expr: &seqExpr{
-																	pos: position{line: 815, col: 5, offset: 26432},
+																	pos: position{line: 815, col: 5, offset: 26434},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 815, col: 5, offset: 26432},
+																			pos:   position{line: 815, col: 5, offset: 26434},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 815, col: 16, offset: 26443},
+																				pos: position{line: 815, col: 16, offset: 26445},
 																				run: (*parser).callonDocumentRawLine456,
 																				expr: &seqExpr{
-																					pos: position{line: 815, col: 16, offset: 26443},
+																					pos: position{line: 815, col: 16, offset: 26445},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 815, col: 16, offset: 26443},
+																							pos:        position{line: 815, col: 16, offset: 26445},
 																							val:        "++++",
 																							ignoreCase: false,
 																							want:       "\"++++\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 815, col: 23, offset: 26450},
+																							pos: position{line: 815, col: 23, offset: 26452},
 																							expr: &litMatcher{
-																								pos:        position{line: 815, col: 23, offset: 26450},
+																								pos:        position{line: 815, col: 23, offset: 26452},
 																								val:        "+",
 																								ignoreCase: false,
 																								want:       "\"+\"",
@@ -2260,12 +2260,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 817, col: 8, offset: 26534},
+																			pos: position{line: 817, col: 8, offset: 26536},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93180},
+																				pos: position{line: 2944, col: 10, offset: 93182},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93180},
+																					pos:        position{line: 2944, col: 10, offset: 93182},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93578},
+																			pos: position{line: 2966, col: 8, offset: 93580},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93351},
+																					pos: position{line: 2953, col: 12, offset: 93353},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93352},
+																						pos: position{line: 2953, col: 13, offset: 93354},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93352},
+																								pos:        position{line: 2953, col: 13, offset: 93354},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93359},
+																								pos:        position{line: 2953, col: 20, offset: 93361},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93368},
+																								pos:        position{line: 2953, col: 29, offset: 93370},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
@@ -2315,30 +2315,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 822, col: 5, offset: 26682},
+																pos: position{line: 822, col: 5, offset: 26684},
 																run: (*parser).callonDocumentRawLine472,
 																expr: &seqExpr{
-																	pos: position{line: 822, col: 5, offset: 26682},
+																	pos: position{line: 822, col: 5, offset: 26684},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 822, col: 5, offset: 26682},
+																			pos:   position{line: 822, col: 5, offset: 26684},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 822, col: 16, offset: 26693},
+																				pos: position{line: 822, col: 16, offset: 26695},
 																				run: (*parser).callonDocumentRawLine475,
 																				expr: &seqExpr{
-																					pos: position{line: 822, col: 16, offset: 26693},
+																					pos: position{line: 822, col: 16, offset: 26695},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 822, col: 16, offset: 26693},
+																							pos:        position{line: 822, col: 16, offset: 26695},
 																							val:        "____",
 																							ignoreCase: false,
 																							want:       "\"____\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 822, col: 23, offset: 26700},
+																							pos: position{line: 822, col: 23, offset: 26702},
 																							expr: &litMatcher{
-																								pos:        position{line: 822, col: 23, offset: 26700},
+																								pos:        position{line: 822, col: 23, offset: 26702},
 																								val:        "_",
 																								ignoreCase: false,
 																								want:       "\"_\"",
@@ -2349,12 +2349,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 824, col: 8, offset: 26784},
+																			pos: position{line: 824, col: 8, offset: 26786},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93180},
+																				pos: position{line: 2944, col: 10, offset: 93182},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93180},
+																					pos:        position{line: 2944, col: 10, offset: 93182},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93578},
+																			pos: position{line: 2966, col: 8, offset: 93580},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93351},
+																					pos: position{line: 2953, col: 12, offset: 93353},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93352},
+																						pos: position{line: 2953, col: 13, offset: 93354},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93352},
+																								pos:        position{line: 2953, col: 13, offset: 93354},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93359},
+																								pos:        position{line: 2953, col: 20, offset: 93361},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93368},
+																								pos:        position{line: 2953, col: 29, offset: 93370},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
@@ -2404,30 +2404,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 829, col: 5, offset: 26928},
+																pos: position{line: 829, col: 5, offset: 26930},
 																run: (*parser).callonDocumentRawLine491,
 																expr: &seqExpr{
-																	pos: position{line: 829, col: 5, offset: 26928},
+																	pos: position{line: 829, col: 5, offset: 26930},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 829, col: 5, offset: 26928},
+																			pos:   position{line: 829, col: 5, offset: 26930},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 829, col: 16, offset: 26939},
+																				pos: position{line: 829, col: 16, offset: 26941},
 																				run: (*parser).callonDocumentRawLine494,
 																				expr: &seqExpr{
-																					pos: position{line: 829, col: 16, offset: 26939},
+																					pos: position{line: 829, col: 16, offset: 26941},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 829, col: 16, offset: 26939},
+																							pos:        position{line: 829, col: 16, offset: 26941},
 																							val:        "****",
 																							ignoreCase: false,
 																							want:       "\"****\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 829, col: 23, offset: 26946},
+																							pos: position{line: 829, col: 23, offset: 26948},
 																							expr: &litMatcher{
-																								pos:        position{line: 829, col: 23, offset: 26946},
+																								pos:        position{line: 829, col: 23, offset: 26948},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -2438,12 +2438,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 831, col: 8, offset: 27030},
+																			pos: position{line: 831, col: 8, offset: 27032},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93180},
+																				pos: position{line: 2944, col: 10, offset: 93182},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93180},
+																					pos:        position{line: 2944, col: 10, offset: 93182},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93578},
+																			pos: position{line: 2966, col: 8, offset: 93580},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93351},
+																					pos: position{line: 2953, col: 12, offset: 93353},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93352},
+																						pos: position{line: 2953, col: 13, offset: 93354},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93352},
+																								pos:        position{line: 2953, col: 13, offset: 93354},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93359},
+																								pos:        position{line: 2953, col: 20, offset: 93361},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93368},
+																								pos:        position{line: 2953, col: 29, offset: 93370},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2948, col: 11, offset: 93241},
+													pos: position{line: 2948, col: 11, offset: 93243},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2948, col: 11, offset: 93241},
+														pos: position{line: 2948, col: 11, offset: 93243},
 														expr: &charClassMatcher{
-															pos:        position{line: 2948, col: 11, offset: 93241},
+															pos:        position{line: 2948, col: 11, offset: 93243},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2894, col: 14, offset: 91773},
+													pos: position{line: 2894, col: 14, offset: 91775},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2894, col: 14, offset: 91773},
+														pos: position{line: 2894, col: 14, offset: 91775},
 														expr: &charClassMatcher{
-															pos:        position{line: 2894, col: 14, offset: 91773},
+															pos:        position{line: 2894, col: 14, offset: 91775},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2963, col: 8, offset: 93528},
+													pos: position{line: 2963, col: 8, offset: 93530},
 													expr: &anyMatcher{
-														line: 2963, col: 9, offset: 93529,
+														line: 2963, col: 9, offset: 93531,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2963, col: 8, offset: 93528},
+							pos: position{line: 2963, col: 8, offset: 93530},
 							expr: &anyMatcher{
-								line: 2963, col: 9, offset: 93529,
+								line: 2963, col: 9, offset: 93531,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2898, col: 17, offset: 91843},
+												pos: position{line: 2898, col: 17, offset: 91845},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2898, col: 17, offset: 91843},
+													pos:   position{line: 2898, col: 17, offset: 91845},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2915, col: 5, offset: 92297},
+														pos: position{line: 2915, col: 5, offset: 92299},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2915, col: 5, offset: 92297},
+															pos:   position{line: 2915, col: 5, offset: 92299},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2915, col: 14, offset: 92306},
+																pos: position{line: 2915, col: 14, offset: 92308},
 																expr: &choiceExpr{
-																	pos: position{line: 2916, col: 9, offset: 92316},
+																	pos: position{line: 2916, col: 9, offset: 92318},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2916, col: 9, offset: 92316},
+																			pos: position{line: 2916, col: 9, offset: 92318},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2916, col: 9, offset: 92316},
+																				pos: position{line: 2916, col: 9, offset: 92318},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2916, col: 9, offset: 92316},
+																						pos: position{line: 2916, col: 9, offset: 92318},
 																						expr: &litMatcher{
-																							pos:        position{line: 2916, col: 10, offset: 92317},
+																							pos:        position{line: 2916, col: 10, offset: 92319},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2917, col: 9, offset: 92345},
+																						pos: position{line: 2917, col: 9, offset: 92347},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2917, col: 10, offset: 92346},
+																							pos:        position{line: 2917, col: 10, offset: 92348},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2920, col: 11, offset: 92558},
+																			pos: position{line: 2920, col: 11, offset: 92560},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2920, col: 11, offset: 92558},
+																					pos:        position{line: 2920, col: 11, offset: 92560},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2920, col: 19, offset: 92566},
+																					pos: position{line: 2920, col: 19, offset: 92568},
 																					expr: &seqExpr{
-																						pos: position{line: 2920, col: 21, offset: 92568},
+																						pos: position{line: 2920, col: 21, offset: 92570},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2920, col: 21, offset: 92568},
+																								pos: position{line: 2920, col: 21, offset: 92570},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93180},
+																									pos: position{line: 2944, col: 10, offset: 93182},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93180},
+																										pos:        position{line: 2944, col: 10, offset: 93182},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 28, offset: 92575},
+																								pos: position{line: 2920, col: 28, offset: 92577},
 																								expr: &notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -2699,35 +2699,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 661, col: 5, offset: 21195},
+																			pos: position{line: 661, col: 5, offset: 21197},
 																			run: (*parser).callonFileInclusion30,
 																			expr: &seqExpr{
-																				pos: position{line: 661, col: 5, offset: 21195},
+																				pos: position{line: 661, col: 5, offset: 21197},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 661, col: 5, offset: 21195},
+																						pos: position{line: 661, col: 5, offset: 21197},
 																						run: (*parser).callonFileInclusion32,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 664, col: 5, offset: 21267},
+																						pos:   position{line: 664, col: 5, offset: 21269},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 664, col: 14, offset: 21276},
+																							pos: position{line: 664, col: 14, offset: 21278},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 670, col: 5, offset: 21405},
+																									pos: position{line: 670, col: 5, offset: 21407},
 																									run: (*parser).callonFileInclusion35,
 																									expr: &seqExpr{
-																										pos: position{line: 670, col: 5, offset: 21405},
+																										pos: position{line: 670, col: 5, offset: 21407},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 670, col: 5, offset: 21405},
+																												pos:        position{line: 670, col: 5, offset: 21407},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 670, col: 13, offset: 21413},
+																												pos:   position{line: 670, col: 13, offset: 21415},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -2759,7 +2759,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 670, col: 32, offset: 21432},
+																												pos:        position{line: 670, col: 32, offset: 21434},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2768,19 +2768,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 677, col: 5, offset: 21673},
+																									pos: position{line: 677, col: 5, offset: 21675},
 																									run: (*parser).callonFileInclusion45,
 																									expr: &seqExpr{
-																										pos: position{line: 677, col: 5, offset: 21673},
+																										pos: position{line: 677, col: 5, offset: 21675},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 677, col: 5, offset: 21673},
+																												pos:        position{line: 677, col: 5, offset: 21675},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 677, col: 9, offset: 21677},
+																												pos:   position{line: 677, col: 9, offset: 21679},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -2812,7 +2812,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 677, col: 28, offset: 21696},
+																												pos:        position{line: 677, col: 28, offset: 21698},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2821,19 +2821,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 683, col: 25, offset: 21877},
+																									pos: position{line: 683, col: 25, offset: 21879},
 																									run: (*parser).callonFileInclusion55,
 																									expr: &seqExpr{
-																										pos: position{line: 683, col: 25, offset: 21877},
+																										pos: position{line: 683, col: 25, offset: 21879},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 683, col: 25, offset: 21877},
+																												pos:        position{line: 683, col: 25, offset: 21879},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 683, col: 37, offset: 21889},
+																												pos:   position{line: 683, col: 37, offset: 21891},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -2865,33 +2865,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 683, col: 56, offset: 21908},
+																												pos:   position{line: 683, col: 56, offset: 21910},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 683, col: 62, offset: 21914},
+																													pos: position{line: 683, col: 62, offset: 21916},
 																													expr: &actionExpr{
-																														pos: position{line: 691, col: 17, offset: 22211},
+																														pos: position{line: 691, col: 17, offset: 22213},
 																														run: (*parser).callonFileInclusion66,
 																														expr: &seqExpr{
-																															pos: position{line: 691, col: 17, offset: 22211},
+																															pos: position{line: 691, col: 17, offset: 22213},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 691, col: 17, offset: 22211},
+																																	pos:        position{line: 691, col: 17, offset: 22213},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 691, col: 21, offset: 22215},
+																																	pos:   position{line: 691, col: 21, offset: 22217},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 691, col: 28, offset: 22222},
+																																		pos: position{line: 691, col: 28, offset: 22224},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 691, col: 28, offset: 22222},
+																																				pos: position{line: 691, col: 28, offset: 22224},
 																																				run: (*parser).callonFileInclusion71,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 691, col: 28, offset: 22222},
+																																					pos:        position{line: 691, col: 28, offset: 22224},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -2899,12 +2899,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 693, col: 9, offset: 22276},
+																																				pos: position{line: 693, col: 9, offset: 22278},
 																																				run: (*parser).callonFileInclusion73,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 693, col: 9, offset: 22276},
+																																					pos: position{line: 693, col: 9, offset: 22278},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 693, col: 9, offset: 22276},
+																																						pos:        position{line: 693, col: 9, offset: 22278},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -2921,7 +2921,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 683, col: 78, offset: 21930},
+																												pos:        position{line: 683, col: 78, offset: 21932},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2930,19 +2930,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 687, col: 25, offset: 22048},
+																									pos: position{line: 687, col: 25, offset: 22050},
 																									run: (*parser).callonFileInclusion77,
 																									expr: &seqExpr{
-																										pos: position{line: 687, col: 25, offset: 22048},
+																										pos: position{line: 687, col: 25, offset: 22050},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 687, col: 25, offset: 22048},
+																												pos:        position{line: 687, col: 25, offset: 22050},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 687, col: 38, offset: 22061},
+																												pos:   position{line: 687, col: 38, offset: 22063},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -2974,33 +2974,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 687, col: 57, offset: 22080},
+																												pos:   position{line: 687, col: 57, offset: 22082},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 687, col: 63, offset: 22086},
+																													pos: position{line: 687, col: 63, offset: 22088},
 																													expr: &actionExpr{
-																														pos: position{line: 691, col: 17, offset: 22211},
+																														pos: position{line: 691, col: 17, offset: 22213},
 																														run: (*parser).callonFileInclusion88,
 																														expr: &seqExpr{
-																															pos: position{line: 691, col: 17, offset: 22211},
+																															pos: position{line: 691, col: 17, offset: 22213},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 691, col: 17, offset: 22211},
+																																	pos:        position{line: 691, col: 17, offset: 22213},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 691, col: 21, offset: 22215},
+																																	pos:   position{line: 691, col: 21, offset: 22217},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 691, col: 28, offset: 22222},
+																																		pos: position{line: 691, col: 28, offset: 22224},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 691, col: 28, offset: 22222},
+																																				pos: position{line: 691, col: 28, offset: 22224},
 																																				run: (*parser).callonFileInclusion93,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 691, col: 28, offset: 22222},
+																																					pos:        position{line: 691, col: 28, offset: 22224},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3008,12 +3008,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 693, col: 9, offset: 22276},
+																																				pos: position{line: 693, col: 9, offset: 22278},
 																																				run: (*parser).callonFileInclusion95,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 693, col: 9, offset: 22276},
+																																					pos: position{line: 693, col: 9, offset: 22278},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 693, col: 9, offset: 22276},
+																																						pos:        position{line: 693, col: 9, offset: 22278},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3030,7 +3030,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 687, col: 79, offset: 22102},
+																												pos:        position{line: 687, col: 79, offset: 22104},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -3045,27 +3045,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1223, col: 23, offset: 38060},
+																			pos: position{line: 1223, col: 23, offset: 38062},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1223, col: 23, offset: 38060},
+																				pos: position{line: 1223, col: 23, offset: 38062},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1221, col: 32, offset: 38028},
+																						pos:        position{line: 1221, col: 32, offset: 38030},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1223, col: 51, offset: 38088},
+																						pos:   position{line: 1223, col: 51, offset: 38090},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1223, col: 56, offset: 38093},
+																							pos: position{line: 1223, col: 56, offset: 38095},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1223, col: 56, offset: 38093},
+																								pos: position{line: 1223, col: 56, offset: 38095},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1223, col: 56, offset: 38093},
+																									pos:        position{line: 1223, col: 56, offset: 38095},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3075,23 +3075,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1221, col: 32, offset: 38028},
+																						pos:        position{line: 1221, col: 32, offset: 38030},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1223, col: 123, offset: 38160},
+																						pos: position{line: 1223, col: 123, offset: 38162},
 																						run: (*parser).callonFileInclusion107,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2923, col: 11, offset: 92695},
+																			pos: position{line: 2923, col: 11, offset: 92697},
 																			run: (*parser).callonFileInclusion108,
 																			expr: &litMatcher{
-																				pos:        position{line: 2923, col: 11, offset: 92695},
+																				pos:        position{line: 2923, col: 11, offset: 92697},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3120,10 +3120,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 10, offset: 93180},
+								pos: position{line: 2944, col: 10, offset: 93182},
 								run: (*parser).callonFileInclusion113,
 								expr: &charClassMatcher{
-									pos:        position{line: 2944, col: 10, offset: 93180},
+									pos:        position{line: 2944, col: 10, offset: 93182},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3132,28 +3132,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2966, col: 8, offset: 93578},
+							pos: position{line: 2966, col: 8, offset: 93580},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2953, col: 12, offset: 93351},
+									pos: position{line: 2953, col: 12, offset: 93353},
 									run: (*parser).callonFileInclusion116,
 									expr: &choiceExpr{
-										pos: position{line: 2953, col: 13, offset: 93352},
+										pos: position{line: 2953, col: 13, offset: 93354},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2953, col: 13, offset: 93352},
+												pos:        position{line: 2953, col: 13, offset: 93354},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 20, offset: 93359},
+												pos:        position{line: 2953, col: 20, offset: 93361},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 29, offset: 93368},
+												pos:        position{line: 2953, col: 29, offset: 93370},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3162,9 +3162,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2963, col: 8, offset: 93528},
+									pos: position{line: 2963, col: 8, offset: 93530},
 									expr: &anyMatcher{
-										line: 2963, col: 9, offset: 93529,
+										line: 2963, col: 9, offset: 93531,
 									},
 								},
 							},
@@ -3210,24 +3210,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2936, col: 12, offset: 93007},
+																				pos: position{line: 2936, col: 12, offset: 93009},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2936, col: 13, offset: 93008},
+																					pos: position{line: 2936, col: 13, offset: 93010},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2936, col: 13, offset: 93008},
+																							pos: position{line: 2936, col: 13, offset: 93010},
 																							expr: &litMatcher{
-																								pos:        position{line: 2936, col: 13, offset: 93008},
+																								pos:        position{line: 2936, col: 13, offset: 93010},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2936, col: 18, offset: 93013},
+																							pos: position{line: 2936, col: 18, offset: 93015},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2936, col: 18, offset: 93013},
+																								pos:        position{line: 2936, col: 18, offset: 93015},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3248,24 +3248,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2936, col: 12, offset: 93007},
+																				pos: position{line: 2936, col: 12, offset: 93009},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2936, col: 13, offset: 93008},
+																					pos: position{line: 2936, col: 13, offset: 93010},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2936, col: 13, offset: 93008},
+																							pos: position{line: 2936, col: 13, offset: 93010},
 																							expr: &litMatcher{
-																								pos:        position{line: 2936, col: 13, offset: 93008},
+																								pos:        position{line: 2936, col: 13, offset: 93010},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2936, col: 18, offset: 93013},
+																							pos: position{line: 2936, col: 18, offset: 93015},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2936, col: 18, offset: 93013},
+																								pos:        position{line: 2936, col: 18, offset: 93015},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3286,24 +3286,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2936, col: 12, offset: 93007},
+																		pos: position{line: 2936, col: 12, offset: 93009},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2936, col: 13, offset: 93008},
+																			pos: position{line: 2936, col: 13, offset: 93010},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2936, col: 13, offset: 93008},
+																					pos: position{line: 2936, col: 13, offset: 93010},
 																					expr: &litMatcher{
-																						pos:        position{line: 2936, col: 13, offset: 93008},
+																						pos:        position{line: 2936, col: 13, offset: 93010},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2936, col: 18, offset: 93013},
+																					pos: position{line: 2936, col: 18, offset: 93015},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2936, col: 18, offset: 93013},
+																						pos:        position{line: 2936, col: 18, offset: 93015},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3352,24 +3352,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2936, col: 12, offset: 93007},
+																									pos: position{line: 2936, col: 12, offset: 93009},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2936, col: 13, offset: 93008},
+																										pos: position{line: 2936, col: 13, offset: 93010},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2936, col: 13, offset: 93008},
+																												pos: position{line: 2936, col: 13, offset: 93010},
 																												expr: &litMatcher{
-																													pos:        position{line: 2936, col: 13, offset: 93008},
+																													pos:        position{line: 2936, col: 13, offset: 93010},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2936, col: 18, offset: 93013},
+																												pos: position{line: 2936, col: 18, offset: 93015},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2936, col: 18, offset: 93013},
+																													pos:        position{line: 2936, col: 18, offset: 93015},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3390,24 +3390,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2936, col: 12, offset: 93007},
+																									pos: position{line: 2936, col: 12, offset: 93009},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2936, col: 13, offset: 93008},
+																										pos: position{line: 2936, col: 13, offset: 93010},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2936, col: 13, offset: 93008},
+																												pos: position{line: 2936, col: 13, offset: 93010},
 																												expr: &litMatcher{
-																													pos:        position{line: 2936, col: 13, offset: 93008},
+																													pos:        position{line: 2936, col: 13, offset: 93010},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2936, col: 18, offset: 93013},
+																												pos: position{line: 2936, col: 18, offset: 93015},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2936, col: 18, offset: 93013},
+																													pos:        position{line: 2936, col: 18, offset: 93015},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3428,24 +3428,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2936, col: 12, offset: 93007},
+																							pos: position{line: 2936, col: 12, offset: 93009},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2936, col: 13, offset: 93008},
+																								pos: position{line: 2936, col: 13, offset: 93010},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2936, col: 13, offset: 93008},
+																										pos: position{line: 2936, col: 13, offset: 93010},
 																										expr: &litMatcher{
-																											pos:        position{line: 2936, col: 13, offset: 93008},
+																											pos:        position{line: 2936, col: 13, offset: 93010},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2936, col: 18, offset: 93013},
+																										pos: position{line: 2936, col: 18, offset: 93015},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2936, col: 18, offset: 93013},
+																											pos:        position{line: 2936, col: 18, offset: 93015},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3478,24 +3478,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2936, col: 12, offset: 93007},
+														pos: position{line: 2936, col: 12, offset: 93009},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2936, col: 13, offset: 93008},
+															pos: position{line: 2936, col: 13, offset: 93010},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2936, col: 13, offset: 93008},
+																	pos: position{line: 2936, col: 13, offset: 93010},
 																	expr: &litMatcher{
-																		pos:        position{line: 2936, col: 13, offset: 93008},
+																		pos:        position{line: 2936, col: 13, offset: 93010},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2936, col: 18, offset: 93013},
+																	pos: position{line: 2936, col: 18, offset: 93015},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2936, col: 18, offset: 93013},
+																		pos:        position{line: 2936, col: 18, offset: 93015},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3516,24 +3516,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2936, col: 12, offset: 93007},
+														pos: position{line: 2936, col: 12, offset: 93009},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2936, col: 13, offset: 93008},
+															pos: position{line: 2936, col: 13, offset: 93010},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2936, col: 13, offset: 93008},
+																	pos: position{line: 2936, col: 13, offset: 93010},
 																	expr: &litMatcher{
-																		pos:        position{line: 2936, col: 13, offset: 93008},
+																		pos:        position{line: 2936, col: 13, offset: 93010},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2936, col: 18, offset: 93013},
+																	pos: position{line: 2936, col: 18, offset: 93015},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2936, col: 18, offset: 93013},
+																		pos:        position{line: 2936, col: 18, offset: 93015},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3554,24 +3554,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2936, col: 12, offset: 93007},
+												pos: position{line: 2936, col: 12, offset: 93009},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2936, col: 13, offset: 93008},
+													pos: position{line: 2936, col: 13, offset: 93010},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2936, col: 13, offset: 93008},
+															pos: position{line: 2936, col: 13, offset: 93010},
 															expr: &litMatcher{
-																pos:        position{line: 2936, col: 13, offset: 93008},
+																pos:        position{line: 2936, col: 13, offset: 93010},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2936, col: 18, offset: 93013},
+															pos: position{line: 2936, col: 18, offset: 93015},
 															expr: &charClassMatcher{
-																pos:        position{line: 2936, col: 18, offset: 93013},
+																pos:        position{line: 2936, col: 18, offset: 93015},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3587,9 +3587,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2963, col: 8, offset: 93528},
+							pos: position{line: 2963, col: 8, offset: 93530},
 							expr: &anyMatcher{
-								line: 2963, col: 9, offset: 93529,
+								line: 2963, col: 9, offset: 93531,
 							},
 						},
 					},
@@ -3630,12 +3630,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2838, col: 14, offset: 90349},
+																		pos: position{line: 2838, col: 14, offset: 90351},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2838, col: 14, offset: 90349},
+																			pos: position{line: 2838, col: 14, offset: 90351},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2838, col: 14, offset: 90349},
+																				pos:        position{line: 2838, col: 14, offset: 90351},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3696,12 +3696,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2838, col: 14, offset: 90349},
+																				pos: position{line: 2838, col: 14, offset: 90351},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2838, col: 14, offset: 90349},
+																					pos: position{line: 2838, col: 14, offset: 90351},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2838, col: 14, offset: 90349},
+																						pos:        position{line: 2838, col: 14, offset: 90351},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3782,12 +3782,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2838, col: 14, offset: 90349},
+																							pos: position{line: 2838, col: 14, offset: 90351},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2838, col: 14, offset: 90349},
+																								pos: position{line: 2838, col: 14, offset: 90351},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2838, col: 14, offset: 90349},
+																									pos:        position{line: 2838, col: 14, offset: 90351},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3848,12 +3848,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2838, col: 14, offset: 90349},
+																									pos: position{line: 2838, col: 14, offset: 90351},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2838, col: 14, offset: 90349},
+																										pos: position{line: 2838, col: 14, offset: 90351},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2838, col: 14, offset: 90349},
+																											pos:        position{line: 2838, col: 14, offset: 90351},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3910,9 +3910,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2963, col: 8, offset: 93528},
+							pos: position{line: 2963, col: 8, offset: 93530},
 							expr: &anyMatcher{
-								line: 2963, col: 9, offset: 93529,
+								line: 2963, col: 9, offset: 93531,
 							},
 						},
 					},
@@ -3955,12 +3955,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2838, col: 14, offset: 90349},
+																pos: position{line: 2838, col: 14, offset: 90351},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2838, col: 14, offset: 90349},
+																	pos: position{line: 2838, col: 14, offset: 90351},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2838, col: 14, offset: 90349},
+																		pos:        position{line: 2838, col: 14, offset: 90351},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3998,12 +3998,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2838, col: 14, offset: 90349},
+																pos: position{line: 2838, col: 14, offset: 90351},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2838, col: 14, offset: 90349},
+																	pos: position{line: 2838, col: 14, offset: 90351},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2838, col: 14, offset: 90349},
+																		pos:        position{line: 2838, col: 14, offset: 90351},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4034,28 +4034,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2966, col: 8, offset: 93578},
+							pos: position{line: 2966, col: 8, offset: 93580},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2953, col: 12, offset: 93351},
+									pos: position{line: 2953, col: 12, offset: 93353},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2953, col: 13, offset: 93352},
+										pos: position{line: 2953, col: 13, offset: 93354},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2953, col: 13, offset: 93352},
+												pos:        position{line: 2953, col: 13, offset: 93354},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 20, offset: 93359},
+												pos:        position{line: 2953, col: 20, offset: 93361},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 29, offset: 93368},
+												pos:        position{line: 2953, col: 29, offset: 93370},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4064,9 +4064,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2963, col: 8, offset: 93528},
+									pos: position{line: 2963, col: 8, offset: 93530},
 									expr: &anyMatcher{
-										line: 2963, col: 9, offset: 93529,
+										line: 2963, col: 9, offset: 93531,
 									},
 								},
 							},
@@ -4085,9 +4085,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2961, col: 11, offset: 93514},
+							pos: position{line: 2961, col: 11, offset: 93516},
 							expr: &anyMatcher{
-								line: 2961, col: 13, offset: 93516,
+								line: 2961, col: 13, offset: 93518,
 							},
 						},
 						&labeledExpr{
@@ -4182,10 +4182,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 49, offset: 11042},
 														expr: &actionExpr{
-															pos: position{line: 2944, col: 10, offset: 93180},
+															pos: position{line: 2944, col: 10, offset: 93182},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 10, offset: 93180},
+																pos:        position{line: 2944, col: 10, offset: 93182},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4194,28 +4194,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2966, col: 8, offset: 93578},
+														pos: position{line: 2966, col: 8, offset: 93580},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93351},
+																pos: position{line: 2953, col: 12, offset: 93353},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93352},
+																	pos: position{line: 2953, col: 13, offset: 93354},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93352},
+																			pos:        position{line: 2953, col: 13, offset: 93354},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93359},
+																			pos:        position{line: 2953, col: 20, offset: 93361},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93368},
+																			pos:        position{line: 2953, col: 29, offset: 93370},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4224,9 +4224,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93528},
+																pos: position{line: 2963, col: 8, offset: 93530},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93529,
+																	line: 2963, col: 9, offset: 93531,
 																},
 															},
 														},
@@ -4287,10 +4287,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 364, col: 39, offset: 11163},
 														expr: &actionExpr{
-															pos: position{line: 2944, col: 10, offset: 93180},
+															pos: position{line: 2944, col: 10, offset: 93182},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 10, offset: 93180},
+																pos:        position{line: 2944, col: 10, offset: 93182},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4299,28 +4299,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2966, col: 8, offset: 93578},
+														pos: position{line: 2966, col: 8, offset: 93580},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93351},
+																pos: position{line: 2953, col: 12, offset: 93353},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93352},
+																	pos: position{line: 2953, col: 13, offset: 93354},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93352},
+																			pos:        position{line: 2953, col: 13, offset: 93354},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93359},
+																			pos:        position{line: 2953, col: 20, offset: 93361},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93368},
+																			pos:        position{line: 2953, col: 29, offset: 93370},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4329,9 +4329,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93528},
+																pos: position{line: 2963, col: 8, offset: 93530},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93529,
+																	line: 2963, col: 9, offset: 93531,
 																},
 															},
 														},
@@ -4340,24 +4340,24 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 702, col: 14, offset: 22577},
+											pos: position{line: 702, col: 14, offset: 22579},
 											run: (*parser).callonDocumentFragment58,
 											expr: &seqExpr{
-												pos: position{line: 702, col: 14, offset: 22577},
+												pos: position{line: 702, col: 14, offset: 22579},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2961, col: 11, offset: 93514},
+														pos: position{line: 2961, col: 11, offset: 93516},
 														expr: &anyMatcher{
-															line: 2961, col: 13, offset: 93516,
+															line: 2961, col: 13, offset: 93518,
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 702, col: 21, offset: 22584},
+														pos: position{line: 702, col: 21, offset: 22586},
 														expr: &actionExpr{
-															pos: position{line: 2944, col: 10, offset: 93180},
+															pos: position{line: 2944, col: 10, offset: 93182},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 10, offset: 93180},
+																pos:        position{line: 2944, col: 10, offset: 93182},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4366,28 +4366,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2966, col: 8, offset: 93578},
+														pos: position{line: 2966, col: 8, offset: 93580},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93351},
+																pos: position{line: 2953, col: 12, offset: 93353},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93352},
+																	pos: position{line: 2953, col: 13, offset: 93354},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93352},
+																			pos:        position{line: 2953, col: 13, offset: 93354},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93359},
+																			pos:        position{line: 2953, col: 20, offset: 93361},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93368},
+																			pos:        position{line: 2953, col: 29, offset: 93370},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4396,9 +4396,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93528},
+																pos: position{line: 2963, col: 8, offset: 93530},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93529,
+																	line: 2963, col: 9, offset: 93531,
 																},
 															},
 														},
@@ -4415,36 +4415,36 @@ var g = &grammar{
 											name: "Section",
 										},
 										&actionExpr{
-											pos: position{line: 845, col: 5, offset: 27412},
+											pos: position{line: 845, col: 5, offset: 27414},
 											run: (*parser).callonDocumentFragment75,
 											expr: &seqExpr{
-												pos: position{line: 845, col: 5, offset: 27412},
+												pos: position{line: 845, col: 5, offset: 27414},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 765, col: 5, offset: 24672},
+														pos: position{line: 765, col: 5, offset: 24674},
 														run: (*parser).callonDocumentFragment77,
 														expr: &seqExpr{
-															pos: position{line: 765, col: 5, offset: 24672},
+															pos: position{line: 765, col: 5, offset: 24674},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 765, col: 5, offset: 24672},
+																	pos:   position{line: 765, col: 5, offset: 24674},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 765, col: 16, offset: 24683},
+																		pos: position{line: 765, col: 16, offset: 24685},
 																		run: (*parser).callonDocumentFragment80,
 																		expr: &seqExpr{
-																			pos: position{line: 765, col: 16, offset: 24683},
+																			pos: position{line: 765, col: 16, offset: 24685},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 765, col: 16, offset: 24683},
+																					pos:        position{line: 765, col: 16, offset: 24685},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 765, col: 23, offset: 24690},
+																					pos: position{line: 765, col: 23, offset: 24692},
 																					expr: &litMatcher{
-																						pos:        position{line: 765, col: 23, offset: 24690},
+																						pos:        position{line: 765, col: 23, offset: 24692},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -4455,12 +4455,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 767, col: 8, offset: 24774},
+																	pos: position{line: 767, col: 8, offset: 24776},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93180},
+																		pos: position{line: 2944, col: 10, offset: 93182},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93180},
+																			pos:        position{line: 2944, col: 10, offset: 93182},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4469,28 +4469,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93578},
+																	pos: position{line: 2966, col: 8, offset: 93580},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93351},
+																			pos: position{line: 2953, col: 12, offset: 93353},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93352},
+																				pos: position{line: 2953, col: 13, offset: 93354},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93352},
+																						pos:        position{line: 2953, col: 13, offset: 93354},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93359},
+																						pos:        position{line: 2953, col: 20, offset: 93361},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93368},
+																						pos:        position{line: 2953, col: 29, offset: 93370},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4499,9 +4499,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93528},
+																			pos: position{line: 2963, col: 8, offset: 93530},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93529,
+																				line: 2963, col: 9, offset: 93531,
 																			},
 																		},
 																	},
@@ -4510,46 +4510,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 846, col: 5, offset: 27443},
+														pos:   position{line: 846, col: 5, offset: 27445},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 856, col: 5, offset: 27729},
+															pos: position{line: 856, col: 5, offset: 27731},
 															expr: &actionExpr{
-																pos: position{line: 856, col: 6, offset: 27730},
+																pos: position{line: 856, col: 6, offset: 27732},
 																run: (*parser).callonDocumentFragment98,
 																expr: &seqExpr{
-																	pos: position{line: 856, col: 6, offset: 27730},
+																	pos: position{line: 856, col: 6, offset: 27732},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 856, col: 6, offset: 27730},
+																			pos: position{line: 856, col: 6, offset: 27732},
 																			expr: &choiceExpr{
-																				pos: position{line: 853, col: 29, offset: 27672},
+																				pos: position{line: 853, col: 29, offset: 27674},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 765, col: 5, offset: 24672},
+																						pos: position{line: 765, col: 5, offset: 24674},
 																						run: (*parser).callonDocumentFragment102,
 																						expr: &seqExpr{
-																							pos: position{line: 765, col: 5, offset: 24672},
+																							pos: position{line: 765, col: 5, offset: 24674},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 765, col: 5, offset: 24672},
+																									pos:   position{line: 765, col: 5, offset: 24674},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 765, col: 16, offset: 24683},
+																										pos: position{line: 765, col: 16, offset: 24685},
 																										run: (*parser).callonDocumentFragment105,
 																										expr: &seqExpr{
-																											pos: position{line: 765, col: 16, offset: 24683},
+																											pos: position{line: 765, col: 16, offset: 24685},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 765, col: 16, offset: 24683},
+																													pos:        position{line: 765, col: 16, offset: 24685},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 765, col: 23, offset: 24690},
+																													pos: position{line: 765, col: 23, offset: 24692},
 																													expr: &litMatcher{
-																														pos:        position{line: 765, col: 23, offset: 24690},
+																														pos:        position{line: 765, col: 23, offset: 24692},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -4560,12 +4560,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 767, col: 8, offset: 24774},
+																									pos: position{line: 767, col: 8, offset: 24776},
 																									expr: &actionExpr{
-																										pos: position{line: 2944, col: 10, offset: 93180},
+																										pos: position{line: 2944, col: 10, offset: 93182},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2944, col: 10, offset: 93180},
+																											pos:        position{line: 2944, col: 10, offset: 93182},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4574,28 +4574,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2966, col: 8, offset: 93578},
+																									pos: position{line: 2966, col: 8, offset: 93580},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2953, col: 12, offset: 93351},
+																											pos: position{line: 2953, col: 12, offset: 93353},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2953, col: 13, offset: 93352},
+																												pos: position{line: 2953, col: 13, offset: 93354},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 13, offset: 93352},
+																														pos:        position{line: 2953, col: 13, offset: 93354},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 20, offset: 93359},
+																														pos:        position{line: 2953, col: 20, offset: 93361},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 29, offset: 93368},
+																														pos:        position{line: 2953, col: 29, offset: 93370},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4604,9 +4604,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2963, col: 8, offset: 93528},
+																											pos: position{line: 2963, col: 8, offset: 93530},
 																											expr: &anyMatcher{
-																												line: 2963, col: 9, offset: 93529,
+																												line: 2963, col: 9, offset: 93531,
 																											},
 																										},
 																									},
@@ -4615,39 +4615,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93528},
+																						pos: position{line: 2963, col: 8, offset: 93530},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93529,
+																							line: 2963, col: 9, offset: 93531,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 857, col: 5, offset: 27760},
+																			pos:   position{line: 857, col: 5, offset: 27762},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 836, col: 5, offset: 27176},
+																				pos: position{line: 836, col: 5, offset: 27178},
 																				run: (*parser).callonDocumentFragment124,
 																				expr: &seqExpr{
-																					pos: position{line: 836, col: 5, offset: 27176},
+																					pos: position{line: 836, col: 5, offset: 27178},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2961, col: 11, offset: 93514},
+																							pos: position{line: 2961, col: 11, offset: 93516},
 																							expr: &anyMatcher{
-																								line: 2961, col: 13, offset: 93516,
+																								line: 2961, col: 13, offset: 93518,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 837, col: 5, offset: 27251},
+																							pos:   position{line: 837, col: 5, offset: 27253},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2890, col: 13, offset: 91706},
+																								pos: position{line: 2890, col: 13, offset: 91708},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2890, col: 13, offset: 91706},
+																									pos: position{line: 2890, col: 13, offset: 91708},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91706},
+																										pos:        position{line: 2890, col: 13, offset: 91708},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4657,28 +4657,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4687,9 +4687,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -4704,35 +4704,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 847, col: 5, offset: 27477},
+														pos: position{line: 847, col: 5, offset: 27479},
 														expr: &choiceExpr{
-															pos: position{line: 853, col: 29, offset: 27672},
+															pos: position{line: 853, col: 29, offset: 27674},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 765, col: 5, offset: 24672},
+																	pos: position{line: 765, col: 5, offset: 24674},
 																	run: (*parser).callonDocumentFragment142,
 																	expr: &seqExpr{
-																		pos: position{line: 765, col: 5, offset: 24672},
+																		pos: position{line: 765, col: 5, offset: 24674},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 765, col: 5, offset: 24672},
+																				pos:   position{line: 765, col: 5, offset: 24674},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 765, col: 16, offset: 24683},
+																					pos: position{line: 765, col: 16, offset: 24685},
 																					run: (*parser).callonDocumentFragment145,
 																					expr: &seqExpr{
-																						pos: position{line: 765, col: 16, offset: 24683},
+																						pos: position{line: 765, col: 16, offset: 24685},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 765, col: 16, offset: 24683},
+																								pos:        position{line: 765, col: 16, offset: 24685},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 765, col: 23, offset: 24690},
+																								pos: position{line: 765, col: 23, offset: 24692},
 																								expr: &litMatcher{
-																									pos:        position{line: 765, col: 23, offset: 24690},
+																									pos:        position{line: 765, col: 23, offset: 24692},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -4743,12 +4743,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 767, col: 8, offset: 24774},
+																				pos: position{line: 767, col: 8, offset: 24776},
 																				expr: &actionExpr{
-																					pos: position{line: 2944, col: 10, offset: 93180},
+																					pos: position{line: 2944, col: 10, offset: 93182},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2944, col: 10, offset: 93180},
+																						pos:        position{line: 2944, col: 10, offset: 93182},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4757,28 +4757,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2966, col: 8, offset: 93578},
+																				pos: position{line: 2966, col: 8, offset: 93580},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2953, col: 12, offset: 93351},
+																						pos: position{line: 2953, col: 12, offset: 93353},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2953, col: 13, offset: 93352},
+																							pos: position{line: 2953, col: 13, offset: 93354},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 13, offset: 93352},
+																									pos:        position{line: 2953, col: 13, offset: 93354},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 20, offset: 93359},
+																									pos:        position{line: 2953, col: 20, offset: 93361},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 29, offset: 93368},
+																									pos:        position{line: 2953, col: 29, offset: 93370},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4787,9 +4787,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93528},
+																						pos: position{line: 2963, col: 8, offset: 93530},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93529,
+																							line: 2963, col: 9, offset: 93531,
 																						},
 																					},
 																				},
@@ -4798,9 +4798,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2963, col: 8, offset: 93528},
+																	pos: position{line: 2963, col: 8, offset: 93530},
 																	expr: &anyMatcher{
-																		line: 2963, col: 9, offset: 93529,
+																		line: 2963, col: 9, offset: 93531,
 																	},
 																},
 															},
@@ -4810,39 +4810,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 865, col: 5, offset: 27913},
+											pos: position{line: 865, col: 5, offset: 27915},
 											run: (*parser).callonDocumentFragment163,
 											expr: &seqExpr{
-												pos: position{line: 865, col: 5, offset: 27913},
+												pos: position{line: 865, col: 5, offset: 27915},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 865, col: 5, offset: 27913},
+														pos:   position{line: 865, col: 5, offset: 27915},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 772, col: 5, offset: 24920},
+															pos: position{line: 772, col: 5, offset: 24922},
 															run: (*parser).callonDocumentFragment166,
 															expr: &seqExpr{
-																pos: position{line: 772, col: 5, offset: 24920},
+																pos: position{line: 772, col: 5, offset: 24922},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 772, col: 5, offset: 24920},
+																		pos:   position{line: 772, col: 5, offset: 24922},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 772, col: 16, offset: 24931},
+																			pos: position{line: 772, col: 16, offset: 24933},
 																			run: (*parser).callonDocumentFragment169,
 																			expr: &seqExpr{
-																				pos: position{line: 772, col: 16, offset: 24931},
+																				pos: position{line: 772, col: 16, offset: 24933},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 772, col: 16, offset: 24931},
+																						pos:        position{line: 772, col: 16, offset: 24933},
 																						val:        "====",
 																						ignoreCase: false,
 																						want:       "\"====\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 772, col: 23, offset: 24938},
+																						pos: position{line: 772, col: 23, offset: 24940},
 																						expr: &litMatcher{
-																							pos:        position{line: 772, col: 23, offset: 24938},
+																							pos:        position{line: 772, col: 23, offset: 24940},
 																							val:        "=",
 																							ignoreCase: false,
 																							want:       "\"=\"",
@@ -4853,12 +4853,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 774, col: 8, offset: 25022},
+																		pos: position{line: 774, col: 8, offset: 25024},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93180},
+																			pos: position{line: 2944, col: 10, offset: 93182},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93180},
+																				pos:        position{line: 2944, col: 10, offset: 93182},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4867,28 +4867,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93578},
+																		pos: position{line: 2966, col: 8, offset: 93580},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4897,9 +4897,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93528},
+																				pos: position{line: 2963, col: 8, offset: 93530},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93529,
+																					line: 2963, col: 9, offset: 93531,
 																				},
 																			},
 																		},
@@ -4909,56 +4909,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 866, col: 5, offset: 27952},
+														pos: position{line: 866, col: 5, offset: 27954},
 														run: (*parser).callonDocumentFragment185,
 													},
 													&labeledExpr{
-														pos:   position{line: 869, col: 5, offset: 28044},
+														pos:   position{line: 869, col: 5, offset: 28046},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 884, col: 4, offset: 28441},
+															pos: position{line: 884, col: 4, offset: 28443},
 															expr: &actionExpr{
-																pos: position{line: 884, col: 5, offset: 28442},
+																pos: position{line: 884, col: 5, offset: 28444},
 																run: (*parser).callonDocumentFragment188,
 																expr: &seqExpr{
-																	pos: position{line: 884, col: 5, offset: 28442},
+																	pos: position{line: 884, col: 5, offset: 28444},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 884, col: 5, offset: 28442},
+																			pos: position{line: 884, col: 5, offset: 28444},
 																			expr: &choiceExpr{
-																				pos: position{line: 877, col: 5, offset: 28284},
+																				pos: position{line: 877, col: 5, offset: 28286},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 877, col: 5, offset: 28284},
+																						pos: position{line: 877, col: 5, offset: 28286},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 877, col: 5, offset: 28284},
+																								pos:   position{line: 877, col: 5, offset: 28286},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 772, col: 5, offset: 24920},
+																									pos: position{line: 772, col: 5, offset: 24922},
 																									run: (*parser).callonDocumentFragment194,
 																									expr: &seqExpr{
-																										pos: position{line: 772, col: 5, offset: 24920},
+																										pos: position{line: 772, col: 5, offset: 24922},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 772, col: 5, offset: 24920},
+																												pos:   position{line: 772, col: 5, offset: 24922},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 772, col: 16, offset: 24931},
+																													pos: position{line: 772, col: 16, offset: 24933},
 																													run: (*parser).callonDocumentFragment197,
 																													expr: &seqExpr{
-																														pos: position{line: 772, col: 16, offset: 24931},
+																														pos: position{line: 772, col: 16, offset: 24933},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 772, col: 16, offset: 24931},
+																																pos:        position{line: 772, col: 16, offset: 24933},
 																																val:        "====",
 																																ignoreCase: false,
 																																want:       "\"====\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 772, col: 23, offset: 24938},
+																																pos: position{line: 772, col: 23, offset: 24940},
 																																expr: &litMatcher{
-																																	pos:        position{line: 772, col: 23, offset: 24938},
+																																	pos:        position{line: 772, col: 23, offset: 24940},
 																																	val:        "=",
 																																	ignoreCase: false,
 																																	want:       "\"=\"",
@@ -4969,12 +4969,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 774, col: 8, offset: 25022},
+																												pos: position{line: 774, col: 8, offset: 25024},
 																												expr: &actionExpr{
-																													pos: position{line: 2944, col: 10, offset: 93180},
+																													pos: position{line: 2944, col: 10, offset: 93182},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2944, col: 10, offset: 93180},
+																														pos:        position{line: 2944, col: 10, offset: 93182},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4983,28 +4983,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2966, col: 8, offset: 93578},
+																												pos: position{line: 2966, col: 8, offset: 93580},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2953, col: 12, offset: 93351},
+																														pos: position{line: 2953, col: 12, offset: 93353},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2953, col: 13, offset: 93352},
+																															pos: position{line: 2953, col: 13, offset: 93354},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 13, offset: 93352},
+																																	pos:        position{line: 2953, col: 13, offset: 93354},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 20, offset: 93359},
+																																	pos:        position{line: 2953, col: 20, offset: 93361},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 29, offset: 93368},
+																																	pos:        position{line: 2953, col: 29, offset: 93370},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5013,9 +5013,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2963, col: 8, offset: 93528},
+																														pos: position{line: 2963, col: 8, offset: 93530},
 																														expr: &anyMatcher{
-																															line: 2963, col: 9, offset: 93529,
+																															line: 2963, col: 9, offset: 93531,
 																														},
 																													},
 																												},
@@ -5025,45 +5025,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 878, col: 5, offset: 28315},
+																								pos: position{line: 878, col: 5, offset: 28317},
 																								run: (*parser).callonDocumentFragment213,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93528},
+																						pos: position{line: 2963, col: 8, offset: 93530},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93529,
+																							line: 2963, col: 9, offset: 93531,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 885, col: 5, offset: 28472},
+																			pos:   position{line: 885, col: 5, offset: 28474},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 836, col: 5, offset: 27176},
+																				pos: position{line: 836, col: 5, offset: 27178},
 																				run: (*parser).callonDocumentFragment217,
 																				expr: &seqExpr{
-																					pos: position{line: 836, col: 5, offset: 27176},
+																					pos: position{line: 836, col: 5, offset: 27178},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2961, col: 11, offset: 93514},
+																							pos: position{line: 2961, col: 11, offset: 93516},
 																							expr: &anyMatcher{
-																								line: 2961, col: 13, offset: 93516,
+																								line: 2961, col: 13, offset: 93518,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 837, col: 5, offset: 27251},
+																							pos:   position{line: 837, col: 5, offset: 27253},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2890, col: 13, offset: 91706},
+																								pos: position{line: 2890, col: 13, offset: 91708},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2890, col: 13, offset: 91706},
+																									pos: position{line: 2890, col: 13, offset: 91708},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91706},
+																										pos:        position{line: 2890, col: 13, offset: 91708},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5073,28 +5073,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5103,9 +5103,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -5120,44 +5120,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 870, col: 5, offset: 28078},
+														pos:   position{line: 870, col: 5, offset: 28080},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 870, col: 9, offset: 28082},
+															pos: position{line: 870, col: 9, offset: 28084},
 															expr: &choiceExpr{
-																pos: position{line: 877, col: 5, offset: 28284},
+																pos: position{line: 877, col: 5, offset: 28286},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 877, col: 5, offset: 28284},
+																		pos: position{line: 877, col: 5, offset: 28286},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 877, col: 5, offset: 28284},
+																				pos:   position{line: 877, col: 5, offset: 28286},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 772, col: 5, offset: 24920},
+																					pos: position{line: 772, col: 5, offset: 24922},
 																					run: (*parser).callonDocumentFragment238,
 																					expr: &seqExpr{
-																						pos: position{line: 772, col: 5, offset: 24920},
+																						pos: position{line: 772, col: 5, offset: 24922},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 772, col: 5, offset: 24920},
+																								pos:   position{line: 772, col: 5, offset: 24922},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 772, col: 16, offset: 24931},
+																									pos: position{line: 772, col: 16, offset: 24933},
 																									run: (*parser).callonDocumentFragment241,
 																									expr: &seqExpr{
-																										pos: position{line: 772, col: 16, offset: 24931},
+																										pos: position{line: 772, col: 16, offset: 24933},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 772, col: 16, offset: 24931},
+																												pos:        position{line: 772, col: 16, offset: 24933},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 772, col: 23, offset: 24938},
+																												pos: position{line: 772, col: 23, offset: 24940},
 																												expr: &litMatcher{
-																													pos:        position{line: 772, col: 23, offset: 24938},
+																													pos:        position{line: 772, col: 23, offset: 24940},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -5168,12 +5168,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 774, col: 8, offset: 25022},
+																								pos: position{line: 774, col: 8, offset: 25024},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93180},
+																									pos: position{line: 2944, col: 10, offset: 93182},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93180},
+																										pos:        position{line: 2944, col: 10, offset: 93182},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5182,28 +5182,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2966, col: 8, offset: 93578},
+																								pos: position{line: 2966, col: 8, offset: 93580},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2953, col: 12, offset: 93351},
+																										pos: position{line: 2953, col: 12, offset: 93353},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2953, col: 13, offset: 93352},
+																											pos: position{line: 2953, col: 13, offset: 93354},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 13, offset: 93352},
+																													pos:        position{line: 2953, col: 13, offset: 93354},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 20, offset: 93359},
+																													pos:        position{line: 2953, col: 20, offset: 93361},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 29, offset: 93368},
+																													pos:        position{line: 2953, col: 29, offset: 93370},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5212,9 +5212,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93528},
+																										pos: position{line: 2963, col: 8, offset: 93530},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93529,
+																											line: 2963, col: 9, offset: 93531,
 																										},
 																									},
 																								},
@@ -5224,15 +5224,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 878, col: 5, offset: 28315},
+																				pos: position{line: 878, col: 5, offset: 28317},
 																				run: (*parser).callonDocumentFragment257,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93528},
+																		pos: position{line: 2963, col: 8, offset: 93530},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93529,
+																			line: 2963, col: 9, offset: 93531,
 																		},
 																	},
 																},
@@ -5243,36 +5243,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 977, col: 5, offset: 30764},
+											pos: position{line: 977, col: 5, offset: 30766},
 											run: (*parser).callonDocumentFragment260,
 											expr: &seqExpr{
-												pos: position{line: 977, col: 5, offset: 30764},
+												pos: position{line: 977, col: 5, offset: 30766},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 977, col: 5, offset: 30764},
+														pos:   position{line: 977, col: 5, offset: 30766},
 														label: "delimiter",
 														expr: &actionExpr{
-															pos: position{line: 785, col: 26, offset: 25408},
+															pos: position{line: 785, col: 26, offset: 25410},
 															run: (*parser).callonDocumentFragment263,
 															expr: &seqExpr{
-																pos: position{line: 785, col: 26, offset: 25408},
+																pos: position{line: 785, col: 26, offset: 25410},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 785, col: 26, offset: 25408},
+																		pos:        position{line: 785, col: 26, offset: 25410},
 																		val:        "```",
 																		ignoreCase: false,
 																		want:       "\"```\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 785, col: 32, offset: 25414},
+																		pos:   position{line: 785, col: 32, offset: 25416},
 																		label: "language",
 																		expr: &actionExpr{
-																			pos: position{line: 789, col: 13, offset: 25544},
+																			pos: position{line: 789, col: 13, offset: 25546},
 																			run: (*parser).callonDocumentFragment267,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 789, col: 14, offset: 25545},
+																				pos: position{line: 789, col: 14, offset: 25547},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 789, col: 14, offset: 25545},
+																					pos:        position{line: 789, col: 14, offset: 25547},
 																					val:        "[^\\r\\n` ]",
 																					chars:      []rune{'\r', '\n', '`', ' '},
 																					ignoreCase: false,
@@ -5282,12 +5282,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 785, col: 52, offset: 25434},
+																		pos: position{line: 785, col: 52, offset: 25436},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93180},
+																			pos: position{line: 2944, col: 10, offset: 93182},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93180},
+																				pos:        position{line: 2944, col: 10, offset: 93182},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5296,28 +5296,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93578},
+																		pos: position{line: 2966, col: 8, offset: 93580},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5326,9 +5326,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93528},
+																				pos: position{line: 2963, col: 8, offset: 93530},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93529,
+																					line: 2963, col: 9, offset: 93531,
 																				},
 																			},
 																		},
@@ -5338,34 +5338,34 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 978, col: 5, offset: 30810},
+														pos:   position{line: 978, col: 5, offset: 30812},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 991, col: 5, offset: 31283},
+															pos: position{line: 991, col: 5, offset: 31285},
 															expr: &actionExpr{
-																pos: position{line: 991, col: 6, offset: 31284},
+																pos: position{line: 991, col: 6, offset: 31286},
 																run: (*parser).callonDocumentFragment283,
 																expr: &seqExpr{
-																	pos: position{line: 991, col: 6, offset: 31284},
+																	pos: position{line: 991, col: 6, offset: 31286},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 991, col: 6, offset: 31284},
+																			pos: position{line: 991, col: 6, offset: 31286},
 																			expr: &seqExpr{
-																				pos: position{line: 988, col: 34, offset: 31231},
+																				pos: position{line: 988, col: 34, offset: 31233},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 988, col: 34, offset: 31231},
+																						pos:        position{line: 988, col: 34, offset: 31233},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 988, col: 40, offset: 31237},
+																						pos: position{line: 988, col: 40, offset: 31239},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93180},
+																							pos: position{line: 2944, col: 10, offset: 93182},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93180},
+																								pos:        position{line: 2944, col: 10, offset: 93182},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5374,28 +5374,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93578},
+																						pos: position{line: 2966, col: 8, offset: 93580},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93351},
+																								pos: position{line: 2953, col: 12, offset: 93353},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93352},
+																									pos: position{line: 2953, col: 13, offset: 93354},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93352},
+																											pos:        position{line: 2953, col: 13, offset: 93354},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93359},
+																											pos:        position{line: 2953, col: 20, offset: 93361},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93368},
+																											pos:        position{line: 2953, col: 29, offset: 93370},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5404,9 +5404,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93528},
+																								pos: position{line: 2963, col: 8, offset: 93530},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93529,
+																									line: 2963, col: 9, offset: 93531,
 																								},
 																							},
 																						},
@@ -5415,30 +5415,30 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 992, col: 5, offset: 31319},
+																			pos:   position{line: 992, col: 5, offset: 31321},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 836, col: 5, offset: 27176},
+																				pos: position{line: 836, col: 5, offset: 27178},
 																				run: (*parser).callonDocumentFragment300,
 																				expr: &seqExpr{
-																					pos: position{line: 836, col: 5, offset: 27176},
+																					pos: position{line: 836, col: 5, offset: 27178},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2961, col: 11, offset: 93514},
+																							pos: position{line: 2961, col: 11, offset: 93516},
 																							expr: &anyMatcher{
-																								line: 2961, col: 13, offset: 93516,
+																								line: 2961, col: 13, offset: 93518,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 837, col: 5, offset: 27251},
+																							pos:   position{line: 837, col: 5, offset: 27253},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2890, col: 13, offset: 91706},
+																								pos: position{line: 2890, col: 13, offset: 91708},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2890, col: 13, offset: 91706},
+																									pos: position{line: 2890, col: 13, offset: 91708},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91706},
+																										pos:        position{line: 2890, col: 13, offset: 91708},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5448,28 +5448,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5478,9 +5478,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -5495,23 +5495,23 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 979, col: 5, offset: 30849},
+														pos: position{line: 979, col: 5, offset: 30851},
 														expr: &seqExpr{
-															pos: position{line: 988, col: 34, offset: 31231},
+															pos: position{line: 988, col: 34, offset: 31233},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 988, col: 34, offset: 31231},
+																	pos:        position{line: 988, col: 34, offset: 31233},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 988, col: 40, offset: 31237},
+																	pos: position{line: 988, col: 40, offset: 31239},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93180},
+																		pos: position{line: 2944, col: 10, offset: 93182},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93180},
+																			pos:        position{line: 2944, col: 10, offset: 93182},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5520,28 +5520,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93578},
+																	pos: position{line: 2966, col: 8, offset: 93580},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93351},
+																			pos: position{line: 2953, col: 12, offset: 93353},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93352},
+																				pos: position{line: 2953, col: 13, offset: 93354},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93352},
+																						pos:        position{line: 2953, col: 13, offset: 93354},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93359},
+																						pos:        position{line: 2953, col: 20, offset: 93361},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93368},
+																						pos:        position{line: 2953, col: 29, offset: 93370},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5550,9 +5550,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93528},
+																			pos: position{line: 2963, col: 8, offset: 93530},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93529,
+																				line: 2963, col: 9, offset: 93531,
 																			},
 																		},
 																	},
@@ -5564,39 +5564,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 893, col: 5, offset: 28625},
+											pos: position{line: 893, col: 5, offset: 28627},
 											run: (*parser).callonDocumentFragment330,
 											expr: &seqExpr{
-												pos: position{line: 893, col: 5, offset: 28625},
+												pos: position{line: 893, col: 5, offset: 28627},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 893, col: 5, offset: 28625},
+														pos:   position{line: 893, col: 5, offset: 28627},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 779, col: 5, offset: 25167},
+															pos: position{line: 779, col: 5, offset: 25169},
 															run: (*parser).callonDocumentFragment333,
 															expr: &seqExpr{
-																pos: position{line: 779, col: 5, offset: 25167},
+																pos: position{line: 779, col: 5, offset: 25169},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 779, col: 5, offset: 25167},
+																		pos:   position{line: 779, col: 5, offset: 25169},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 779, col: 16, offset: 25178},
+																			pos: position{line: 779, col: 16, offset: 25180},
 																			run: (*parser).callonDocumentFragment336,
 																			expr: &seqExpr{
-																				pos: position{line: 779, col: 16, offset: 25178},
+																				pos: position{line: 779, col: 16, offset: 25180},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 779, col: 16, offset: 25178},
+																						pos:        position{line: 779, col: 16, offset: 25180},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 779, col: 22, offset: 25184},
+																						pos: position{line: 779, col: 22, offset: 25186},
 																						expr: &litMatcher{
-																							pos:        position{line: 779, col: 22, offset: 25184},
+																							pos:        position{line: 779, col: 22, offset: 25186},
 																							val:        "`",
 																							ignoreCase: false,
 																							want:       "\"`\"",
@@ -5607,12 +5607,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 781, col: 8, offset: 25268},
+																		pos: position{line: 781, col: 8, offset: 25270},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93180},
+																			pos: position{line: 2944, col: 10, offset: 93182},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93180},
+																				pos:        position{line: 2944, col: 10, offset: 93182},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5621,28 +5621,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93578},
+																		pos: position{line: 2966, col: 8, offset: 93580},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5651,9 +5651,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93528},
+																				pos: position{line: 2963, col: 8, offset: 93530},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93529,
+																					line: 2963, col: 9, offset: 93531,
 																				},
 																			},
 																		},
@@ -5663,56 +5663,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 894, col: 5, offset: 28663},
+														pos: position{line: 894, col: 5, offset: 28665},
 														run: (*parser).callonDocumentFragment352,
 													},
 													&labeledExpr{
-														pos:   position{line: 897, col: 5, offset: 28755},
+														pos:   position{line: 897, col: 5, offset: 28757},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 912, col: 5, offset: 29145},
+															pos: position{line: 912, col: 5, offset: 29147},
 															expr: &actionExpr{
-																pos: position{line: 912, col: 6, offset: 29146},
+																pos: position{line: 912, col: 6, offset: 29148},
 																run: (*parser).callonDocumentFragment355,
 																expr: &seqExpr{
-																	pos: position{line: 912, col: 6, offset: 29146},
+																	pos: position{line: 912, col: 6, offset: 29148},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 912, col: 6, offset: 29146},
+																			pos: position{line: 912, col: 6, offset: 29148},
 																			expr: &choiceExpr{
-																				pos: position{line: 905, col: 5, offset: 28989},
+																				pos: position{line: 905, col: 5, offset: 28991},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 905, col: 5, offset: 28989},
+																						pos: position{line: 905, col: 5, offset: 28991},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 905, col: 5, offset: 28989},
+																								pos:   position{line: 905, col: 5, offset: 28991},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 779, col: 5, offset: 25167},
+																									pos: position{line: 779, col: 5, offset: 25169},
 																									run: (*parser).callonDocumentFragment361,
 																									expr: &seqExpr{
-																										pos: position{line: 779, col: 5, offset: 25167},
+																										pos: position{line: 779, col: 5, offset: 25169},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 779, col: 5, offset: 25167},
+																												pos:   position{line: 779, col: 5, offset: 25169},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 779, col: 16, offset: 25178},
+																													pos: position{line: 779, col: 16, offset: 25180},
 																													run: (*parser).callonDocumentFragment364,
 																													expr: &seqExpr{
-																														pos: position{line: 779, col: 16, offset: 25178},
+																														pos: position{line: 779, col: 16, offset: 25180},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 779, col: 16, offset: 25178},
+																																pos:        position{line: 779, col: 16, offset: 25180},
 																																val:        "```",
 																																ignoreCase: false,
 																																want:       "\"```\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 779, col: 22, offset: 25184},
+																																pos: position{line: 779, col: 22, offset: 25186},
 																																expr: &litMatcher{
-																																	pos:        position{line: 779, col: 22, offset: 25184},
+																																	pos:        position{line: 779, col: 22, offset: 25186},
 																																	val:        "`",
 																																	ignoreCase: false,
 																																	want:       "\"`\"",
@@ -5723,12 +5723,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 781, col: 8, offset: 25268},
+																												pos: position{line: 781, col: 8, offset: 25270},
 																												expr: &actionExpr{
-																													pos: position{line: 2944, col: 10, offset: 93180},
+																													pos: position{line: 2944, col: 10, offset: 93182},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2944, col: 10, offset: 93180},
+																														pos:        position{line: 2944, col: 10, offset: 93182},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5737,28 +5737,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2966, col: 8, offset: 93578},
+																												pos: position{line: 2966, col: 8, offset: 93580},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2953, col: 12, offset: 93351},
+																														pos: position{line: 2953, col: 12, offset: 93353},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2953, col: 13, offset: 93352},
+																															pos: position{line: 2953, col: 13, offset: 93354},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 13, offset: 93352},
+																																	pos:        position{line: 2953, col: 13, offset: 93354},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 20, offset: 93359},
+																																	pos:        position{line: 2953, col: 20, offset: 93361},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 29, offset: 93368},
+																																	pos:        position{line: 2953, col: 29, offset: 93370},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5767,9 +5767,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2963, col: 8, offset: 93528},
+																														pos: position{line: 2963, col: 8, offset: 93530},
 																														expr: &anyMatcher{
-																															line: 2963, col: 9, offset: 93529,
+																															line: 2963, col: 9, offset: 93531,
 																														},
 																													},
 																												},
@@ -5779,45 +5779,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 906, col: 5, offset: 29019},
+																								pos: position{line: 906, col: 5, offset: 29021},
 																								run: (*parser).callonDocumentFragment380,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93528},
+																						pos: position{line: 2963, col: 8, offset: 93530},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93529,
+																							line: 2963, col: 9, offset: 93531,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 913, col: 5, offset: 29175},
+																			pos:   position{line: 913, col: 5, offset: 29177},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 836, col: 5, offset: 27176},
+																				pos: position{line: 836, col: 5, offset: 27178},
 																				run: (*parser).callonDocumentFragment384,
 																				expr: &seqExpr{
-																					pos: position{line: 836, col: 5, offset: 27176},
+																					pos: position{line: 836, col: 5, offset: 27178},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2961, col: 11, offset: 93514},
+																							pos: position{line: 2961, col: 11, offset: 93516},
 																							expr: &anyMatcher{
-																								line: 2961, col: 13, offset: 93516,
+																								line: 2961, col: 13, offset: 93518,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 837, col: 5, offset: 27251},
+																							pos:   position{line: 837, col: 5, offset: 27253},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2890, col: 13, offset: 91706},
+																								pos: position{line: 2890, col: 13, offset: 91708},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2890, col: 13, offset: 91706},
+																									pos: position{line: 2890, col: 13, offset: 91708},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91706},
+																										pos:        position{line: 2890, col: 13, offset: 91708},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5827,28 +5827,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5857,9 +5857,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -5874,44 +5874,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 898, col: 5, offset: 28788},
+														pos:   position{line: 898, col: 5, offset: 28790},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 898, col: 9, offset: 28792},
+															pos: position{line: 898, col: 9, offset: 28794},
 															expr: &choiceExpr{
-																pos: position{line: 905, col: 5, offset: 28989},
+																pos: position{line: 905, col: 5, offset: 28991},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 905, col: 5, offset: 28989},
+																		pos: position{line: 905, col: 5, offset: 28991},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 905, col: 5, offset: 28989},
+																				pos:   position{line: 905, col: 5, offset: 28991},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 779, col: 5, offset: 25167},
+																					pos: position{line: 779, col: 5, offset: 25169},
 																					run: (*parser).callonDocumentFragment405,
 																					expr: &seqExpr{
-																						pos: position{line: 779, col: 5, offset: 25167},
+																						pos: position{line: 779, col: 5, offset: 25169},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 779, col: 5, offset: 25167},
+																								pos:   position{line: 779, col: 5, offset: 25169},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 779, col: 16, offset: 25178},
+																									pos: position{line: 779, col: 16, offset: 25180},
 																									run: (*parser).callonDocumentFragment408,
 																									expr: &seqExpr{
-																										pos: position{line: 779, col: 16, offset: 25178},
+																										pos: position{line: 779, col: 16, offset: 25180},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 779, col: 16, offset: 25178},
+																												pos:        position{line: 779, col: 16, offset: 25180},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 779, col: 22, offset: 25184},
+																												pos: position{line: 779, col: 22, offset: 25186},
 																												expr: &litMatcher{
-																													pos:        position{line: 779, col: 22, offset: 25184},
+																													pos:        position{line: 779, col: 22, offset: 25186},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -5922,12 +5922,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 781, col: 8, offset: 25268},
+																								pos: position{line: 781, col: 8, offset: 25270},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93180},
+																									pos: position{line: 2944, col: 10, offset: 93182},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93180},
+																										pos:        position{line: 2944, col: 10, offset: 93182},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5936,28 +5936,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2966, col: 8, offset: 93578},
+																								pos: position{line: 2966, col: 8, offset: 93580},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2953, col: 12, offset: 93351},
+																										pos: position{line: 2953, col: 12, offset: 93353},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2953, col: 13, offset: 93352},
+																											pos: position{line: 2953, col: 13, offset: 93354},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 13, offset: 93352},
+																													pos:        position{line: 2953, col: 13, offset: 93354},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 20, offset: 93359},
+																													pos:        position{line: 2953, col: 20, offset: 93361},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 29, offset: 93368},
+																													pos:        position{line: 2953, col: 29, offset: 93370},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5966,9 +5966,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93528},
+																										pos: position{line: 2963, col: 8, offset: 93530},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93529,
+																											line: 2963, col: 9, offset: 93531,
 																										},
 																									},
 																								},
@@ -5978,15 +5978,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 906, col: 5, offset: 29019},
+																				pos: position{line: 906, col: 5, offset: 29021},
 																				run: (*parser).callonDocumentFragment424,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93528},
+																		pos: position{line: 2963, col: 8, offset: 93530},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93529,
+																			line: 2963, col: 9, offset: 93531,
 																		},
 																	},
 																},
@@ -5997,39 +5997,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 921, col: 5, offset: 29330},
+											pos: position{line: 921, col: 5, offset: 29332},
 											run: (*parser).callonDocumentFragment427,
 											expr: &seqExpr{
-												pos: position{line: 921, col: 5, offset: 29330},
+												pos: position{line: 921, col: 5, offset: 29332},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 921, col: 5, offset: 29330},
+														pos:   position{line: 921, col: 5, offset: 29332},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 794, col: 5, offset: 25704},
+															pos: position{line: 794, col: 5, offset: 25706},
 															run: (*parser).callonDocumentFragment430,
 															expr: &seqExpr{
-																pos: position{line: 794, col: 5, offset: 25704},
+																pos: position{line: 794, col: 5, offset: 25706},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 794, col: 5, offset: 25704},
+																		pos:   position{line: 794, col: 5, offset: 25706},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 794, col: 16, offset: 25715},
+																			pos: position{line: 794, col: 16, offset: 25717},
 																			run: (*parser).callonDocumentFragment433,
 																			expr: &seqExpr{
-																				pos: position{line: 794, col: 16, offset: 25715},
+																				pos: position{line: 794, col: 16, offset: 25717},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 794, col: 16, offset: 25715},
+																						pos:        position{line: 794, col: 16, offset: 25717},
 																						val:        "----",
 																						ignoreCase: false,
 																						want:       "\"----\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 794, col: 23, offset: 25722},
+																						pos: position{line: 794, col: 23, offset: 25724},
 																						expr: &litMatcher{
-																							pos:        position{line: 794, col: 23, offset: 25722},
+																							pos:        position{line: 794, col: 23, offset: 25724},
 																							val:        "-",
 																							ignoreCase: false,
 																							want:       "\"-\"",
@@ -6040,12 +6040,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 796, col: 8, offset: 25806},
+																		pos: position{line: 796, col: 8, offset: 25808},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93180},
+																			pos: position{line: 2944, col: 10, offset: 93182},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93180},
+																				pos:        position{line: 2944, col: 10, offset: 93182},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6054,28 +6054,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93578},
+																		pos: position{line: 2966, col: 8, offset: 93580},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6084,9 +6084,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93528},
+																				pos: position{line: 2963, col: 8, offset: 93530},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93529,
+																					line: 2963, col: 9, offset: 93531,
 																				},
 																			},
 																		},
@@ -6096,56 +6096,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 922, col: 5, offset: 29369},
+														pos: position{line: 922, col: 5, offset: 29371},
 														run: (*parser).callonDocumentFragment449,
 													},
 													&labeledExpr{
-														pos:   position{line: 925, col: 5, offset: 29461},
+														pos:   position{line: 925, col: 5, offset: 29463},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 940, col: 5, offset: 29859},
+															pos: position{line: 940, col: 5, offset: 29861},
 															expr: &actionExpr{
-																pos: position{line: 940, col: 6, offset: 29860},
+																pos: position{line: 940, col: 6, offset: 29862},
 																run: (*parser).callonDocumentFragment452,
 																expr: &seqExpr{
-																	pos: position{line: 940, col: 6, offset: 29860},
+																	pos: position{line: 940, col: 6, offset: 29862},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 940, col: 6, offset: 29860},
+																			pos: position{line: 940, col: 6, offset: 29862},
 																			expr: &choiceExpr{
-																				pos: position{line: 933, col: 5, offset: 29701},
+																				pos: position{line: 933, col: 5, offset: 29703},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 933, col: 5, offset: 29701},
+																						pos: position{line: 933, col: 5, offset: 29703},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 933, col: 5, offset: 29701},
+																								pos:   position{line: 933, col: 5, offset: 29703},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 794, col: 5, offset: 25704},
+																									pos: position{line: 794, col: 5, offset: 25706},
 																									run: (*parser).callonDocumentFragment458,
 																									expr: &seqExpr{
-																										pos: position{line: 794, col: 5, offset: 25704},
+																										pos: position{line: 794, col: 5, offset: 25706},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 794, col: 5, offset: 25704},
+																												pos:   position{line: 794, col: 5, offset: 25706},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 794, col: 16, offset: 25715},
+																													pos: position{line: 794, col: 16, offset: 25717},
 																													run: (*parser).callonDocumentFragment461,
 																													expr: &seqExpr{
-																														pos: position{line: 794, col: 16, offset: 25715},
+																														pos: position{line: 794, col: 16, offset: 25717},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 794, col: 16, offset: 25715},
+																																pos:        position{line: 794, col: 16, offset: 25717},
 																																val:        "----",
 																																ignoreCase: false,
 																																want:       "\"----\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 794, col: 23, offset: 25722},
+																																pos: position{line: 794, col: 23, offset: 25724},
 																																expr: &litMatcher{
-																																	pos:        position{line: 794, col: 23, offset: 25722},
+																																	pos:        position{line: 794, col: 23, offset: 25724},
 																																	val:        "-",
 																																	ignoreCase: false,
 																																	want:       "\"-\"",
@@ -6156,12 +6156,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 796, col: 8, offset: 25806},
+																												pos: position{line: 796, col: 8, offset: 25808},
 																												expr: &actionExpr{
-																													pos: position{line: 2944, col: 10, offset: 93180},
+																													pos: position{line: 2944, col: 10, offset: 93182},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2944, col: 10, offset: 93180},
+																														pos:        position{line: 2944, col: 10, offset: 93182},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6170,28 +6170,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2966, col: 8, offset: 93578},
+																												pos: position{line: 2966, col: 8, offset: 93580},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2953, col: 12, offset: 93351},
+																														pos: position{line: 2953, col: 12, offset: 93353},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2953, col: 13, offset: 93352},
+																															pos: position{line: 2953, col: 13, offset: 93354},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 13, offset: 93352},
+																																	pos:        position{line: 2953, col: 13, offset: 93354},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 20, offset: 93359},
+																																	pos:        position{line: 2953, col: 20, offset: 93361},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 29, offset: 93368},
+																																	pos:        position{line: 2953, col: 29, offset: 93370},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6200,9 +6200,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2963, col: 8, offset: 93528},
+																														pos: position{line: 2963, col: 8, offset: 93530},
 																														expr: &anyMatcher{
-																															line: 2963, col: 9, offset: 93529,
+																															line: 2963, col: 9, offset: 93531,
 																														},
 																													},
 																												},
@@ -6212,45 +6212,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 934, col: 5, offset: 29732},
+																								pos: position{line: 934, col: 5, offset: 29734},
 																								run: (*parser).callonDocumentFragment477,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93528},
+																						pos: position{line: 2963, col: 8, offset: 93530},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93529,
+																							line: 2963, col: 9, offset: 93531,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 941, col: 5, offset: 29890},
+																			pos:   position{line: 941, col: 5, offset: 29892},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 836, col: 5, offset: 27176},
+																				pos: position{line: 836, col: 5, offset: 27178},
 																				run: (*parser).callonDocumentFragment481,
 																				expr: &seqExpr{
-																					pos: position{line: 836, col: 5, offset: 27176},
+																					pos: position{line: 836, col: 5, offset: 27178},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2961, col: 11, offset: 93514},
+																							pos: position{line: 2961, col: 11, offset: 93516},
 																							expr: &anyMatcher{
-																								line: 2961, col: 13, offset: 93516,
+																								line: 2961, col: 13, offset: 93518,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 837, col: 5, offset: 27251},
+																							pos:   position{line: 837, col: 5, offset: 27253},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2890, col: 13, offset: 91706},
+																								pos: position{line: 2890, col: 13, offset: 91708},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2890, col: 13, offset: 91706},
+																									pos: position{line: 2890, col: 13, offset: 91708},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91706},
+																										pos:        position{line: 2890, col: 13, offset: 91708},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6260,28 +6260,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6290,9 +6290,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -6307,44 +6307,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 926, col: 5, offset: 29495},
+														pos:   position{line: 926, col: 5, offset: 29497},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 926, col: 9, offset: 29499},
+															pos: position{line: 926, col: 9, offset: 29501},
 															expr: &choiceExpr{
-																pos: position{line: 933, col: 5, offset: 29701},
+																pos: position{line: 933, col: 5, offset: 29703},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 933, col: 5, offset: 29701},
+																		pos: position{line: 933, col: 5, offset: 29703},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 933, col: 5, offset: 29701},
+																				pos:   position{line: 933, col: 5, offset: 29703},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 794, col: 5, offset: 25704},
+																					pos: position{line: 794, col: 5, offset: 25706},
 																					run: (*parser).callonDocumentFragment502,
 																					expr: &seqExpr{
-																						pos: position{line: 794, col: 5, offset: 25704},
+																						pos: position{line: 794, col: 5, offset: 25706},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 794, col: 5, offset: 25704},
+																								pos:   position{line: 794, col: 5, offset: 25706},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 794, col: 16, offset: 25715},
+																									pos: position{line: 794, col: 16, offset: 25717},
 																									run: (*parser).callonDocumentFragment505,
 																									expr: &seqExpr{
-																										pos: position{line: 794, col: 16, offset: 25715},
+																										pos: position{line: 794, col: 16, offset: 25717},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 794, col: 16, offset: 25715},
+																												pos:        position{line: 794, col: 16, offset: 25717},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 794, col: 23, offset: 25722},
+																												pos: position{line: 794, col: 23, offset: 25724},
 																												expr: &litMatcher{
-																													pos:        position{line: 794, col: 23, offset: 25722},
+																													pos:        position{line: 794, col: 23, offset: 25724},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -6355,12 +6355,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 796, col: 8, offset: 25806},
+																								pos: position{line: 796, col: 8, offset: 25808},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93180},
+																									pos: position{line: 2944, col: 10, offset: 93182},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93180},
+																										pos:        position{line: 2944, col: 10, offset: 93182},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6369,28 +6369,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2966, col: 8, offset: 93578},
+																								pos: position{line: 2966, col: 8, offset: 93580},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2953, col: 12, offset: 93351},
+																										pos: position{line: 2953, col: 12, offset: 93353},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2953, col: 13, offset: 93352},
+																											pos: position{line: 2953, col: 13, offset: 93354},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 13, offset: 93352},
+																													pos:        position{line: 2953, col: 13, offset: 93354},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 20, offset: 93359},
+																													pos:        position{line: 2953, col: 20, offset: 93361},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 29, offset: 93368},
+																													pos:        position{line: 2953, col: 29, offset: 93370},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6399,9 +6399,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93528},
+																										pos: position{line: 2963, col: 8, offset: 93530},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93529,
+																											line: 2963, col: 9, offset: 93531,
 																										},
 																									},
 																								},
@@ -6411,15 +6411,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 934, col: 5, offset: 29732},
+																				pos: position{line: 934, col: 5, offset: 29734},
 																				run: (*parser).callonDocumentFragment521,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93528},
+																		pos: position{line: 2963, col: 8, offset: 93530},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93529,
+																			line: 2963, col: 9, offset: 93531,
 																		},
 																	},
 																},
@@ -6430,39 +6430,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 949, col: 5, offset: 30045},
+											pos: position{line: 949, col: 5, offset: 30047},
 											run: (*parser).callonDocumentFragment524,
 											expr: &seqExpr{
-												pos: position{line: 949, col: 5, offset: 30045},
+												pos: position{line: 949, col: 5, offset: 30047},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 949, col: 5, offset: 30045},
+														pos:   position{line: 949, col: 5, offset: 30047},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 808, col: 5, offset: 26180},
+															pos: position{line: 808, col: 5, offset: 26182},
 															run: (*parser).callonDocumentFragment527,
 															expr: &seqExpr{
-																pos: position{line: 808, col: 5, offset: 26180},
+																pos: position{line: 808, col: 5, offset: 26182},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 808, col: 5, offset: 26180},
+																		pos:   position{line: 808, col: 5, offset: 26182},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 808, col: 16, offset: 26191},
+																			pos: position{line: 808, col: 16, offset: 26193},
 																			run: (*parser).callonDocumentFragment530,
 																			expr: &seqExpr{
-																				pos: position{line: 808, col: 16, offset: 26191},
+																				pos: position{line: 808, col: 16, offset: 26193},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 808, col: 16, offset: 26191},
+																						pos:        position{line: 808, col: 16, offset: 26193},
 																						val:        "....",
 																						ignoreCase: false,
 																						want:       "\"....\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 808, col: 23, offset: 26198},
+																						pos: position{line: 808, col: 23, offset: 26200},
 																						expr: &litMatcher{
-																							pos:        position{line: 808, col: 23, offset: 26198},
+																							pos:        position{line: 808, col: 23, offset: 26200},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -6473,12 +6473,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 810, col: 8, offset: 26282},
+																		pos: position{line: 810, col: 8, offset: 26284},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93180},
+																			pos: position{line: 2944, col: 10, offset: 93182},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93180},
+																				pos:        position{line: 2944, col: 10, offset: 93182},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6487,28 +6487,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93578},
+																		pos: position{line: 2966, col: 8, offset: 93580},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6517,9 +6517,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93528},
+																				pos: position{line: 2963, col: 8, offset: 93530},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93529,
+																					line: 2963, col: 9, offset: 93531,
 																				},
 																			},
 																		},
@@ -6529,56 +6529,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 950, col: 5, offset: 30084},
+														pos: position{line: 950, col: 5, offset: 30086},
 														run: (*parser).callonDocumentFragment546,
 													},
 													&labeledExpr{
-														pos:   position{line: 953, col: 5, offset: 30176},
+														pos:   position{line: 953, col: 5, offset: 30178},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 968, col: 5, offset: 30574},
+															pos: position{line: 968, col: 5, offset: 30576},
 															expr: &actionExpr{
-																pos: position{line: 968, col: 6, offset: 30575},
+																pos: position{line: 968, col: 6, offset: 30577},
 																run: (*parser).callonDocumentFragment549,
 																expr: &seqExpr{
-																	pos: position{line: 968, col: 6, offset: 30575},
+																	pos: position{line: 968, col: 6, offset: 30577},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 968, col: 6, offset: 30575},
+																			pos: position{line: 968, col: 6, offset: 30577},
 																			expr: &choiceExpr{
-																				pos: position{line: 961, col: 5, offset: 30416},
+																				pos: position{line: 961, col: 5, offset: 30418},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 961, col: 5, offset: 30416},
+																						pos: position{line: 961, col: 5, offset: 30418},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 961, col: 5, offset: 30416},
+																								pos:   position{line: 961, col: 5, offset: 30418},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 808, col: 5, offset: 26180},
+																									pos: position{line: 808, col: 5, offset: 26182},
 																									run: (*parser).callonDocumentFragment555,
 																									expr: &seqExpr{
-																										pos: position{line: 808, col: 5, offset: 26180},
+																										pos: position{line: 808, col: 5, offset: 26182},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 808, col: 5, offset: 26180},
+																												pos:   position{line: 808, col: 5, offset: 26182},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 808, col: 16, offset: 26191},
+																													pos: position{line: 808, col: 16, offset: 26193},
 																													run: (*parser).callonDocumentFragment558,
 																													expr: &seqExpr{
-																														pos: position{line: 808, col: 16, offset: 26191},
+																														pos: position{line: 808, col: 16, offset: 26193},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 808, col: 16, offset: 26191},
+																																pos:        position{line: 808, col: 16, offset: 26193},
 																																val:        "....",
 																																ignoreCase: false,
 																																want:       "\"....\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 808, col: 23, offset: 26198},
+																																pos: position{line: 808, col: 23, offset: 26200},
 																																expr: &litMatcher{
-																																	pos:        position{line: 808, col: 23, offset: 26198},
+																																	pos:        position{line: 808, col: 23, offset: 26200},
 																																	val:        ".",
 																																	ignoreCase: false,
 																																	want:       "\".\"",
@@ -6589,12 +6589,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 810, col: 8, offset: 26282},
+																												pos: position{line: 810, col: 8, offset: 26284},
 																												expr: &actionExpr{
-																													pos: position{line: 2944, col: 10, offset: 93180},
+																													pos: position{line: 2944, col: 10, offset: 93182},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2944, col: 10, offset: 93180},
+																														pos:        position{line: 2944, col: 10, offset: 93182},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6603,28 +6603,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2966, col: 8, offset: 93578},
+																												pos: position{line: 2966, col: 8, offset: 93580},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2953, col: 12, offset: 93351},
+																														pos: position{line: 2953, col: 12, offset: 93353},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2953, col: 13, offset: 93352},
+																															pos: position{line: 2953, col: 13, offset: 93354},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 13, offset: 93352},
+																																	pos:        position{line: 2953, col: 13, offset: 93354},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 20, offset: 93359},
+																																	pos:        position{line: 2953, col: 20, offset: 93361},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 29, offset: 93368},
+																																	pos:        position{line: 2953, col: 29, offset: 93370},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6633,9 +6633,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2963, col: 8, offset: 93528},
+																														pos: position{line: 2963, col: 8, offset: 93530},
 																														expr: &anyMatcher{
-																															line: 2963, col: 9, offset: 93529,
+																															line: 2963, col: 9, offset: 93531,
 																														},
 																													},
 																												},
@@ -6645,45 +6645,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 962, col: 5, offset: 30447},
+																								pos: position{line: 962, col: 5, offset: 30449},
 																								run: (*parser).callonDocumentFragment574,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93528},
+																						pos: position{line: 2963, col: 8, offset: 93530},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93529,
+																							line: 2963, col: 9, offset: 93531,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 969, col: 5, offset: 30605},
+																			pos:   position{line: 969, col: 5, offset: 30607},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 836, col: 5, offset: 27176},
+																				pos: position{line: 836, col: 5, offset: 27178},
 																				run: (*parser).callonDocumentFragment578,
 																				expr: &seqExpr{
-																					pos: position{line: 836, col: 5, offset: 27176},
+																					pos: position{line: 836, col: 5, offset: 27178},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2961, col: 11, offset: 93514},
+																							pos: position{line: 2961, col: 11, offset: 93516},
 																							expr: &anyMatcher{
-																								line: 2961, col: 13, offset: 93516,
+																								line: 2961, col: 13, offset: 93518,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 837, col: 5, offset: 27251},
+																							pos:   position{line: 837, col: 5, offset: 27253},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2890, col: 13, offset: 91706},
+																								pos: position{line: 2890, col: 13, offset: 91708},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2890, col: 13, offset: 91706},
+																									pos: position{line: 2890, col: 13, offset: 91708},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91706},
+																										pos:        position{line: 2890, col: 13, offset: 91708},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6693,28 +6693,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6723,9 +6723,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -6740,44 +6740,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 954, col: 5, offset: 30210},
+														pos:   position{line: 954, col: 5, offset: 30212},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 954, col: 9, offset: 30214},
+															pos: position{line: 954, col: 9, offset: 30216},
 															expr: &choiceExpr{
-																pos: position{line: 961, col: 5, offset: 30416},
+																pos: position{line: 961, col: 5, offset: 30418},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 961, col: 5, offset: 30416},
+																		pos: position{line: 961, col: 5, offset: 30418},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 961, col: 5, offset: 30416},
+																				pos:   position{line: 961, col: 5, offset: 30418},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 808, col: 5, offset: 26180},
+																					pos: position{line: 808, col: 5, offset: 26182},
 																					run: (*parser).callonDocumentFragment599,
 																					expr: &seqExpr{
-																						pos: position{line: 808, col: 5, offset: 26180},
+																						pos: position{line: 808, col: 5, offset: 26182},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 808, col: 5, offset: 26180},
+																								pos:   position{line: 808, col: 5, offset: 26182},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 808, col: 16, offset: 26191},
+																									pos: position{line: 808, col: 16, offset: 26193},
 																									run: (*parser).callonDocumentFragment602,
 																									expr: &seqExpr{
-																										pos: position{line: 808, col: 16, offset: 26191},
+																										pos: position{line: 808, col: 16, offset: 26193},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 808, col: 16, offset: 26191},
+																												pos:        position{line: 808, col: 16, offset: 26193},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 808, col: 23, offset: 26198},
+																												pos: position{line: 808, col: 23, offset: 26200},
 																												expr: &litMatcher{
-																													pos:        position{line: 808, col: 23, offset: 26198},
+																													pos:        position{line: 808, col: 23, offset: 26200},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -6788,12 +6788,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 810, col: 8, offset: 26282},
+																								pos: position{line: 810, col: 8, offset: 26284},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93180},
+																									pos: position{line: 2944, col: 10, offset: 93182},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93180},
+																										pos:        position{line: 2944, col: 10, offset: 93182},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6802,28 +6802,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2966, col: 8, offset: 93578},
+																								pos: position{line: 2966, col: 8, offset: 93580},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2953, col: 12, offset: 93351},
+																										pos: position{line: 2953, col: 12, offset: 93353},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2953, col: 13, offset: 93352},
+																											pos: position{line: 2953, col: 13, offset: 93354},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 13, offset: 93352},
+																													pos:        position{line: 2953, col: 13, offset: 93354},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 20, offset: 93359},
+																													pos:        position{line: 2953, col: 20, offset: 93361},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 29, offset: 93368},
+																													pos:        position{line: 2953, col: 29, offset: 93370},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6832,9 +6832,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93528},
+																										pos: position{line: 2963, col: 8, offset: 93530},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93529,
+																											line: 2963, col: 9, offset: 93531,
 																										},
 																									},
 																								},
@@ -6844,15 +6844,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 962, col: 5, offset: 30447},
+																				pos: position{line: 962, col: 5, offset: 30449},
 																				run: (*parser).callonDocumentFragment618,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93528},
+																		pos: position{line: 2963, col: 8, offset: 93530},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93529,
+																			line: 2963, col: 9, offset: 93531,
 																		},
 																	},
 																},
@@ -6863,41 +6863,41 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1000, col: 5, offset: 31488},
+											pos: position{line: 1000, col: 5, offset: 31490},
 											run: (*parser).callonDocumentFragment621,
 											expr: &seqExpr{
-												pos: position{line: 1000, col: 5, offset: 31488},
+												pos: position{line: 1000, col: 5, offset: 31490},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1000, col: 5, offset: 31488},
+														pos:   position{line: 1000, col: 5, offset: 31490},
 														label: "firstLine",
 														expr: &actionExpr{
-															pos: position{line: 1007, col: 5, offset: 31747},
+															pos: position{line: 1007, col: 5, offset: 31749},
 															run: (*parser).callonDocumentFragment624,
 															expr: &seqExpr{
-																pos: position{line: 1007, col: 5, offset: 31747},
+																pos: position{line: 1007, col: 5, offset: 31749},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1007, col: 5, offset: 31747},
+																		pos: position{line: 1007, col: 5, offset: 31749},
 																		expr: &actionExpr{
-																			pos: position{line: 702, col: 14, offset: 22577},
+																			pos: position{line: 702, col: 14, offset: 22579},
 																			run: (*parser).callonDocumentFragment627,
 																			expr: &seqExpr{
-																				pos: position{line: 702, col: 14, offset: 22577},
+																				pos: position{line: 702, col: 14, offset: 22579},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2961, col: 11, offset: 93514},
+																						pos: position{line: 2961, col: 11, offset: 93516},
 																						expr: &anyMatcher{
-																							line: 2961, col: 13, offset: 93516,
+																							line: 2961, col: 13, offset: 93518,
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 702, col: 21, offset: 22584},
+																						pos: position{line: 702, col: 21, offset: 22586},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93180},
+																							pos: position{line: 2944, col: 10, offset: 93182},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93180},
+																								pos:        position{line: 2944, col: 10, offset: 93182},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6906,28 +6906,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93578},
+																						pos: position{line: 2966, col: 8, offset: 93580},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93351},
+																								pos: position{line: 2953, col: 12, offset: 93353},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93352},
+																									pos: position{line: 2953, col: 13, offset: 93354},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93352},
+																											pos:        position{line: 2953, col: 13, offset: 93354},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93359},
+																											pos:        position{line: 2953, col: 20, offset: 93361},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93368},
+																											pos:        position{line: 2953, col: 29, offset: 93370},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6936,9 +6936,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93528},
+																								pos: position{line: 2963, col: 8, offset: 93530},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93529,
+																									line: 2963, col: 9, offset: 93531,
 																								},
 																							},
 																						},
@@ -6948,21 +6948,21 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1008, col: 5, offset: 31762},
+																		pos:        position{line: 1008, col: 5, offset: 31764},
 																		val:        "> ",
 																		ignoreCase: false,
 																		want:       "\"> \"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1009, col: 5, offset: 31772},
+																		pos:   position{line: 1009, col: 5, offset: 31774},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2894, col: 14, offset: 91773},
+																			pos: position{line: 2894, col: 14, offset: 91775},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2894, col: 14, offset: 91773},
+																				pos: position{line: 2894, col: 14, offset: 91775},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2894, col: 14, offset: 91773},
+																					pos:        position{line: 2894, col: 14, offset: 91775},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -6972,28 +6972,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93578},
+																		pos: position{line: 2966, col: 8, offset: 93580},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7002,9 +7002,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93528},
+																				pos: position{line: 2963, col: 8, offset: 93530},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93529,
+																					line: 2963, col: 9, offset: 93531,
 																				},
 																			},
 																		},
@@ -7014,40 +7014,40 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1001, col: 5, offset: 31525},
+														pos:   position{line: 1001, col: 5, offset: 31527},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1001, col: 16, offset: 31536},
+															pos: position{line: 1001, col: 16, offset: 31538},
 															expr: &choiceExpr{
-																pos: position{line: 1001, col: 17, offset: 31537},
+																pos: position{line: 1001, col: 17, offset: 31539},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 1007, col: 5, offset: 31747},
+																		pos: position{line: 1007, col: 5, offset: 31749},
 																		run: (*parser).callonDocumentFragment658,
 																		expr: &seqExpr{
-																			pos: position{line: 1007, col: 5, offset: 31747},
+																			pos: position{line: 1007, col: 5, offset: 31749},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 1007, col: 5, offset: 31747},
+																					pos: position{line: 1007, col: 5, offset: 31749},
 																					expr: &actionExpr{
-																						pos: position{line: 702, col: 14, offset: 22577},
+																						pos: position{line: 702, col: 14, offset: 22579},
 																						run: (*parser).callonDocumentFragment661,
 																						expr: &seqExpr{
-																							pos: position{line: 702, col: 14, offset: 22577},
+																							pos: position{line: 702, col: 14, offset: 22579},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2961, col: 11, offset: 93514},
+																									pos: position{line: 2961, col: 11, offset: 93516},
 																									expr: &anyMatcher{
-																										line: 2961, col: 13, offset: 93516,
+																										line: 2961, col: 13, offset: 93518,
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 702, col: 21, offset: 22584},
+																									pos: position{line: 702, col: 21, offset: 22586},
 																									expr: &actionExpr{
-																										pos: position{line: 2944, col: 10, offset: 93180},
+																										pos: position{line: 2944, col: 10, offset: 93182},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2944, col: 10, offset: 93180},
+																											pos:        position{line: 2944, col: 10, offset: 93182},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7056,28 +7056,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2966, col: 8, offset: 93578},
+																									pos: position{line: 2966, col: 8, offset: 93580},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2953, col: 12, offset: 93351},
+																											pos: position{line: 2953, col: 12, offset: 93353},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2953, col: 13, offset: 93352},
+																												pos: position{line: 2953, col: 13, offset: 93354},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 13, offset: 93352},
+																														pos:        position{line: 2953, col: 13, offset: 93354},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 20, offset: 93359},
+																														pos:        position{line: 2953, col: 20, offset: 93361},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 29, offset: 93368},
+																														pos:        position{line: 2953, col: 29, offset: 93370},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7086,9 +7086,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2963, col: 8, offset: 93528},
+																											pos: position{line: 2963, col: 8, offset: 93530},
 																											expr: &anyMatcher{
-																												line: 2963, col: 9, offset: 93529,
+																												line: 2963, col: 9, offset: 93531,
 																											},
 																										},
 																									},
@@ -7098,21 +7098,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1008, col: 5, offset: 31762},
+																					pos:        position{line: 1008, col: 5, offset: 31764},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1009, col: 5, offset: 31772},
+																					pos:   position{line: 1009, col: 5, offset: 31774},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2894, col: 14, offset: 91773},
+																						pos: position{line: 2894, col: 14, offset: 91775},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2894, col: 14, offset: 91773},
+																							pos: position{line: 2894, col: 14, offset: 91775},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2894, col: 14, offset: 91773},
+																								pos:        position{line: 2894, col: 14, offset: 91775},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7122,28 +7122,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2966, col: 8, offset: 93578},
+																					pos: position{line: 2966, col: 8, offset: 93580},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2953, col: 12, offset: 93351},
+																							pos: position{line: 2953, col: 12, offset: 93353},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2953, col: 13, offset: 93352},
+																								pos: position{line: 2953, col: 13, offset: 93354},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 13, offset: 93352},
+																										pos:        position{line: 2953, col: 13, offset: 93354},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 20, offset: 93359},
+																										pos:        position{line: 2953, col: 20, offset: 93361},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 29, offset: 93368},
+																										pos:        position{line: 2953, col: 29, offset: 93370},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7152,9 +7152,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93528},
+																							pos: position{line: 2963, col: 8, offset: 93530},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93529,
+																								line: 2963, col: 9, offset: 93531,
 																							},
 																						},
 																					},
@@ -7163,21 +7163,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1816, col: 5, offset: 58966},
+																		pos: position{line: 1816, col: 5, offset: 58968},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1816, col: 5, offset: 58966},
+																			pos: position{line: 1816, col: 5, offset: 58968},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1816, col: 5, offset: 58966},
+																					pos:   position{line: 1816, col: 5, offset: 58968},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2894, col: 14, offset: 91773},
+																						pos: position{line: 2894, col: 14, offset: 91775},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2894, col: 14, offset: 91773},
+																							pos: position{line: 2894, col: 14, offset: 91775},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2894, col: 14, offset: 91773},
+																								pos:        position{line: 2894, col: 14, offset: 91775},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7187,32 +7187,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1817, col: 5, offset: 58990},
+																					pos: position{line: 1817, col: 5, offset: 58992},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2966, col: 8, offset: 93578},
+																					pos: position{line: 2966, col: 8, offset: 93580},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2953, col: 12, offset: 93351},
+																							pos: position{line: 2953, col: 12, offset: 93353},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2953, col: 13, offset: 93352},
+																								pos: position{line: 2953, col: 13, offset: 93354},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 13, offset: 93352},
+																										pos:        position{line: 2953, col: 13, offset: 93354},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 20, offset: 93359},
+																										pos:        position{line: 2953, col: 20, offset: 93361},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 29, offset: 93368},
+																										pos:        position{line: 2953, col: 29, offset: 93370},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7221,9 +7221,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93528},
+																							pos: position{line: 2963, col: 8, offset: 93530},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93529,
+																								line: 2963, col: 9, offset: 93531,
 																							},
 																						},
 																					},
@@ -7239,28 +7239,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1022, col: 5, offset: 32037},
+											pos: position{line: 1022, col: 5, offset: 32039},
 											run: (*parser).callonDocumentFragment704,
 											expr: &seqExpr{
-												pos: position{line: 1022, col: 5, offset: 32037},
+												pos: position{line: 1022, col: 5, offset: 32039},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1022, col: 5, offset: 32037},
+														pos:   position{line: 1022, col: 5, offset: 32039},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 801, col: 5, offset: 25949},
+															pos: position{line: 801, col: 5, offset: 25951},
 															run: (*parser).callonDocumentFragment707,
 															expr: &seqExpr{
-																pos: position{line: 801, col: 5, offset: 25949},
+																pos: position{line: 801, col: 5, offset: 25951},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 801, col: 5, offset: 25949},
+																		pos:   position{line: 801, col: 5, offset: 25951},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 801, col: 16, offset: 25960},
+																			pos: position{line: 801, col: 16, offset: 25962},
 																			run: (*parser).callonDocumentFragment710,
 																			expr: &litMatcher{
-																				pos:        position{line: 801, col: 16, offset: 25960},
+																				pos:        position{line: 801, col: 16, offset: 25962},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -7268,12 +7268,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 803, col: 8, offset: 26037},
+																		pos: position{line: 803, col: 8, offset: 26039},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93180},
+																			pos: position{line: 2944, col: 10, offset: 93182},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93180},
+																				pos:        position{line: 2944, col: 10, offset: 93182},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7282,28 +7282,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93578},
+																		pos: position{line: 2966, col: 8, offset: 93580},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7312,9 +7312,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93528},
+																				pos: position{line: 2963, col: 8, offset: 93530},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93529,
+																					line: 2963, col: 9, offset: 93531,
 																				},
 																			},
 																		},
@@ -7324,35 +7324,35 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1023, col: 5, offset: 32073},
+														pos:   position{line: 1023, col: 5, offset: 32075},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1033, col: 5, offset: 32341},
+															pos: position{line: 1033, col: 5, offset: 32343},
 															expr: &actionExpr{
-																pos: position{line: 1033, col: 6, offset: 32342},
+																pos: position{line: 1033, col: 6, offset: 32344},
 																run: (*parser).callonDocumentFragment725,
 																expr: &seqExpr{
-																	pos: position{line: 1033, col: 6, offset: 32342},
+																	pos: position{line: 1033, col: 6, offset: 32344},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1033, col: 6, offset: 32342},
+																			pos: position{line: 1033, col: 6, offset: 32344},
 																			expr: &choiceExpr{
-																				pos: position{line: 1030, col: 26, offset: 32290},
+																				pos: position{line: 1030, col: 26, offset: 32292},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 801, col: 5, offset: 25949},
+																						pos: position{line: 801, col: 5, offset: 25951},
 																						run: (*parser).callonDocumentFragment729,
 																						expr: &seqExpr{
-																							pos: position{line: 801, col: 5, offset: 25949},
+																							pos: position{line: 801, col: 5, offset: 25951},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 801, col: 5, offset: 25949},
+																									pos:   position{line: 801, col: 5, offset: 25951},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 801, col: 16, offset: 25960},
+																										pos: position{line: 801, col: 16, offset: 25962},
 																										run: (*parser).callonDocumentFragment732,
 																										expr: &litMatcher{
-																											pos:        position{line: 801, col: 16, offset: 25960},
+																											pos:        position{line: 801, col: 16, offset: 25962},
 																											val:        "--",
 																											ignoreCase: false,
 																											want:       "\"--\"",
@@ -7360,12 +7360,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 803, col: 8, offset: 26037},
+																									pos: position{line: 803, col: 8, offset: 26039},
 																									expr: &actionExpr{
-																										pos: position{line: 2944, col: 10, offset: 93180},
+																										pos: position{line: 2944, col: 10, offset: 93182},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2944, col: 10, offset: 93180},
+																											pos:        position{line: 2944, col: 10, offset: 93182},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7374,28 +7374,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2966, col: 8, offset: 93578},
+																									pos: position{line: 2966, col: 8, offset: 93580},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2953, col: 12, offset: 93351},
+																											pos: position{line: 2953, col: 12, offset: 93353},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2953, col: 13, offset: 93352},
+																												pos: position{line: 2953, col: 13, offset: 93354},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 13, offset: 93352},
+																														pos:        position{line: 2953, col: 13, offset: 93354},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 20, offset: 93359},
+																														pos:        position{line: 2953, col: 20, offset: 93361},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 29, offset: 93368},
+																														pos:        position{line: 2953, col: 29, offset: 93370},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7404,9 +7404,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2963, col: 8, offset: 93528},
+																											pos: position{line: 2963, col: 8, offset: 93530},
 																											expr: &anyMatcher{
-																												line: 2963, col: 9, offset: 93529,
+																												line: 2963, col: 9, offset: 93531,
 																											},
 																										},
 																									},
@@ -7415,39 +7415,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93528},
+																						pos: position{line: 2963, col: 8, offset: 93530},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93529,
+																							line: 2963, col: 9, offset: 93531,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1034, col: 5, offset: 32369},
+																			pos:   position{line: 1034, col: 5, offset: 32371},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 836, col: 5, offset: 27176},
+																				pos: position{line: 836, col: 5, offset: 27178},
 																				run: (*parser).callonDocumentFragment748,
 																				expr: &seqExpr{
-																					pos: position{line: 836, col: 5, offset: 27176},
+																					pos: position{line: 836, col: 5, offset: 27178},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2961, col: 11, offset: 93514},
+																							pos: position{line: 2961, col: 11, offset: 93516},
 																							expr: &anyMatcher{
-																								line: 2961, col: 13, offset: 93516,
+																								line: 2961, col: 13, offset: 93518,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 837, col: 5, offset: 27251},
+																							pos:   position{line: 837, col: 5, offset: 27253},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2890, col: 13, offset: 91706},
+																								pos: position{line: 2890, col: 13, offset: 91708},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2890, col: 13, offset: 91706},
+																									pos: position{line: 2890, col: 13, offset: 91708},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91706},
+																										pos:        position{line: 2890, col: 13, offset: 91708},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7457,28 +7457,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7487,9 +7487,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -7504,27 +7504,27 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1024, col: 5, offset: 32104},
+														pos:   position{line: 1024, col: 5, offset: 32106},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1024, col: 9, offset: 32108},
+															pos: position{line: 1024, col: 9, offset: 32110},
 															expr: &choiceExpr{
-																pos: position{line: 1030, col: 26, offset: 32290},
+																pos: position{line: 1030, col: 26, offset: 32292},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 801, col: 5, offset: 25949},
+																		pos: position{line: 801, col: 5, offset: 25951},
 																		run: (*parser).callonDocumentFragment767,
 																		expr: &seqExpr{
-																			pos: position{line: 801, col: 5, offset: 25949},
+																			pos: position{line: 801, col: 5, offset: 25951},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 801, col: 5, offset: 25949},
+																					pos:   position{line: 801, col: 5, offset: 25951},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 801, col: 16, offset: 25960},
+																						pos: position{line: 801, col: 16, offset: 25962},
 																						run: (*parser).callonDocumentFragment770,
 																						expr: &litMatcher{
-																							pos:        position{line: 801, col: 16, offset: 25960},
+																							pos:        position{line: 801, col: 16, offset: 25962},
 																							val:        "--",
 																							ignoreCase: false,
 																							want:       "\"--\"",
@@ -7532,12 +7532,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 803, col: 8, offset: 26037},
+																					pos: position{line: 803, col: 8, offset: 26039},
 																					expr: &actionExpr{
-																						pos: position{line: 2944, col: 10, offset: 93180},
+																						pos: position{line: 2944, col: 10, offset: 93182},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2944, col: 10, offset: 93180},
+																							pos:        position{line: 2944, col: 10, offset: 93182},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7546,28 +7546,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2966, col: 8, offset: 93578},
+																					pos: position{line: 2966, col: 8, offset: 93580},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2953, col: 12, offset: 93351},
+																							pos: position{line: 2953, col: 12, offset: 93353},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2953, col: 13, offset: 93352},
+																								pos: position{line: 2953, col: 13, offset: 93354},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 13, offset: 93352},
+																										pos:        position{line: 2953, col: 13, offset: 93354},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 20, offset: 93359},
+																										pos:        position{line: 2953, col: 20, offset: 93361},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 29, offset: 93368},
+																										pos:        position{line: 2953, col: 29, offset: 93370},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7576,9 +7576,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93528},
+																							pos: position{line: 2963, col: 8, offset: 93530},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93529,
+																								line: 2963, col: 9, offset: 93531,
 																							},
 																						},
 																					},
@@ -7587,9 +7587,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93528},
+																		pos: position{line: 2963, col: 8, offset: 93530},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93529,
+																			line: 2963, col: 9, offset: 93531,
 																		},
 																	},
 																},
@@ -7600,39 +7600,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1042, col: 5, offset: 32532},
+											pos: position{line: 1042, col: 5, offset: 32534},
 											run: (*parser).callonDocumentFragment785,
 											expr: &seqExpr{
-												pos: position{line: 1042, col: 5, offset: 32532},
+												pos: position{line: 1042, col: 5, offset: 32534},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1042, col: 5, offset: 32532},
+														pos:   position{line: 1042, col: 5, offset: 32534},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 815, col: 5, offset: 26432},
+															pos: position{line: 815, col: 5, offset: 26434},
 															run: (*parser).callonDocumentFragment788,
 															expr: &seqExpr{
-																pos: position{line: 815, col: 5, offset: 26432},
+																pos: position{line: 815, col: 5, offset: 26434},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 815, col: 5, offset: 26432},
+																		pos:   position{line: 815, col: 5, offset: 26434},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 815, col: 16, offset: 26443},
+																			pos: position{line: 815, col: 16, offset: 26445},
 																			run: (*parser).callonDocumentFragment791,
 																			expr: &seqExpr{
-																				pos: position{line: 815, col: 16, offset: 26443},
+																				pos: position{line: 815, col: 16, offset: 26445},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 815, col: 16, offset: 26443},
+																						pos:        position{line: 815, col: 16, offset: 26445},
 																						val:        "++++",
 																						ignoreCase: false,
 																						want:       "\"++++\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 815, col: 23, offset: 26450},
+																						pos: position{line: 815, col: 23, offset: 26452},
 																						expr: &litMatcher{
-																							pos:        position{line: 815, col: 23, offset: 26450},
+																							pos:        position{line: 815, col: 23, offset: 26452},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
@@ -7643,12 +7643,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 817, col: 8, offset: 26534},
+																		pos: position{line: 817, col: 8, offset: 26536},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93180},
+																			pos: position{line: 2944, col: 10, offset: 93182},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93180},
+																				pos:        position{line: 2944, col: 10, offset: 93182},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7657,28 +7657,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93578},
+																		pos: position{line: 2966, col: 8, offset: 93580},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7687,9 +7687,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93528},
+																				pos: position{line: 2963, col: 8, offset: 93530},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93529,
+																					line: 2963, col: 9, offset: 93531,
 																				},
 																			},
 																		},
@@ -7699,56 +7699,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1043, col: 5, offset: 32575},
+														pos: position{line: 1043, col: 5, offset: 32577},
 														run: (*parser).callonDocumentFragment807,
 													},
 													&labeledExpr{
-														pos:   position{line: 1046, col: 5, offset: 32667},
+														pos:   position{line: 1046, col: 5, offset: 32669},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1061, col: 5, offset: 33097},
+															pos: position{line: 1061, col: 5, offset: 33099},
 															expr: &actionExpr{
-																pos: position{line: 1061, col: 6, offset: 33098},
+																pos: position{line: 1061, col: 6, offset: 33100},
 																run: (*parser).callonDocumentFragment810,
 																expr: &seqExpr{
-																	pos: position{line: 1061, col: 6, offset: 33098},
+																	pos: position{line: 1061, col: 6, offset: 33100},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1061, col: 6, offset: 33098},
+																			pos: position{line: 1061, col: 6, offset: 33100},
 																			expr: &choiceExpr{
-																				pos: position{line: 1054, col: 5, offset: 32931},
+																				pos: position{line: 1054, col: 5, offset: 32933},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1054, col: 5, offset: 32931},
+																						pos: position{line: 1054, col: 5, offset: 32933},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1054, col: 5, offset: 32931},
+																								pos:   position{line: 1054, col: 5, offset: 32933},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 815, col: 5, offset: 26432},
+																									pos: position{line: 815, col: 5, offset: 26434},
 																									run: (*parser).callonDocumentFragment816,
 																									expr: &seqExpr{
-																										pos: position{line: 815, col: 5, offset: 26432},
+																										pos: position{line: 815, col: 5, offset: 26434},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 815, col: 5, offset: 26432},
+																												pos:   position{line: 815, col: 5, offset: 26434},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 815, col: 16, offset: 26443},
+																													pos: position{line: 815, col: 16, offset: 26445},
 																													run: (*parser).callonDocumentFragment819,
 																													expr: &seqExpr{
-																														pos: position{line: 815, col: 16, offset: 26443},
+																														pos: position{line: 815, col: 16, offset: 26445},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 815, col: 16, offset: 26443},
+																																pos:        position{line: 815, col: 16, offset: 26445},
 																																val:        "++++",
 																																ignoreCase: false,
 																																want:       "\"++++\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 815, col: 23, offset: 26450},
+																																pos: position{line: 815, col: 23, offset: 26452},
 																																expr: &litMatcher{
-																																	pos:        position{line: 815, col: 23, offset: 26450},
+																																	pos:        position{line: 815, col: 23, offset: 26452},
 																																	val:        "+",
 																																	ignoreCase: false,
 																																	want:       "\"+\"",
@@ -7759,12 +7759,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 817, col: 8, offset: 26534},
+																												pos: position{line: 817, col: 8, offset: 26536},
 																												expr: &actionExpr{
-																													pos: position{line: 2944, col: 10, offset: 93180},
+																													pos: position{line: 2944, col: 10, offset: 93182},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2944, col: 10, offset: 93180},
+																														pos:        position{line: 2944, col: 10, offset: 93182},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7773,28 +7773,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2966, col: 8, offset: 93578},
+																												pos: position{line: 2966, col: 8, offset: 93580},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2953, col: 12, offset: 93351},
+																														pos: position{line: 2953, col: 12, offset: 93353},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2953, col: 13, offset: 93352},
+																															pos: position{line: 2953, col: 13, offset: 93354},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 13, offset: 93352},
+																																	pos:        position{line: 2953, col: 13, offset: 93354},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 20, offset: 93359},
+																																	pos:        position{line: 2953, col: 20, offset: 93361},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 29, offset: 93368},
+																																	pos:        position{line: 2953, col: 29, offset: 93370},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7803,9 +7803,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2963, col: 8, offset: 93528},
+																														pos: position{line: 2963, col: 8, offset: 93530},
 																														expr: &anyMatcher{
-																															line: 2963, col: 9, offset: 93529,
+																															line: 2963, col: 9, offset: 93531,
 																														},
 																													},
 																												},
@@ -7815,45 +7815,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1055, col: 5, offset: 32966},
+																								pos: position{line: 1055, col: 5, offset: 32968},
 																								run: (*parser).callonDocumentFragment835,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93528},
+																						pos: position{line: 2963, col: 8, offset: 93530},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93529,
+																							line: 2963, col: 9, offset: 93531,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1062, col: 5, offset: 33132},
+																			pos:   position{line: 1062, col: 5, offset: 33134},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 836, col: 5, offset: 27176},
+																				pos: position{line: 836, col: 5, offset: 27178},
 																				run: (*parser).callonDocumentFragment839,
 																				expr: &seqExpr{
-																					pos: position{line: 836, col: 5, offset: 27176},
+																					pos: position{line: 836, col: 5, offset: 27178},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2961, col: 11, offset: 93514},
+																							pos: position{line: 2961, col: 11, offset: 93516},
 																							expr: &anyMatcher{
-																								line: 2961, col: 13, offset: 93516,
+																								line: 2961, col: 13, offset: 93518,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 837, col: 5, offset: 27251},
+																							pos:   position{line: 837, col: 5, offset: 27253},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2890, col: 13, offset: 91706},
+																								pos: position{line: 2890, col: 13, offset: 91708},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2890, col: 13, offset: 91706},
+																									pos: position{line: 2890, col: 13, offset: 91708},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91706},
+																										pos:        position{line: 2890, col: 13, offset: 91708},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7863,28 +7863,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7893,9 +7893,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -7910,44 +7910,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1047, col: 5, offset: 32705},
+														pos:   position{line: 1047, col: 5, offset: 32707},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1047, col: 9, offset: 32709},
+															pos: position{line: 1047, col: 9, offset: 32711},
 															expr: &choiceExpr{
-																pos: position{line: 1054, col: 5, offset: 32931},
+																pos: position{line: 1054, col: 5, offset: 32933},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1054, col: 5, offset: 32931},
+																		pos: position{line: 1054, col: 5, offset: 32933},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1054, col: 5, offset: 32931},
+																				pos:   position{line: 1054, col: 5, offset: 32933},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 815, col: 5, offset: 26432},
+																					pos: position{line: 815, col: 5, offset: 26434},
 																					run: (*parser).callonDocumentFragment860,
 																					expr: &seqExpr{
-																						pos: position{line: 815, col: 5, offset: 26432},
+																						pos: position{line: 815, col: 5, offset: 26434},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 815, col: 5, offset: 26432},
+																								pos:   position{line: 815, col: 5, offset: 26434},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 815, col: 16, offset: 26443},
+																									pos: position{line: 815, col: 16, offset: 26445},
 																									run: (*parser).callonDocumentFragment863,
 																									expr: &seqExpr{
-																										pos: position{line: 815, col: 16, offset: 26443},
+																										pos: position{line: 815, col: 16, offset: 26445},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 815, col: 16, offset: 26443},
+																												pos:        position{line: 815, col: 16, offset: 26445},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 815, col: 23, offset: 26450},
+																												pos: position{line: 815, col: 23, offset: 26452},
 																												expr: &litMatcher{
-																													pos:        position{line: 815, col: 23, offset: 26450},
+																													pos:        position{line: 815, col: 23, offset: 26452},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -7958,12 +7958,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 817, col: 8, offset: 26534},
+																								pos: position{line: 817, col: 8, offset: 26536},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93180},
+																									pos: position{line: 2944, col: 10, offset: 93182},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93180},
+																										pos:        position{line: 2944, col: 10, offset: 93182},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7972,28 +7972,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2966, col: 8, offset: 93578},
+																								pos: position{line: 2966, col: 8, offset: 93580},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2953, col: 12, offset: 93351},
+																										pos: position{line: 2953, col: 12, offset: 93353},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2953, col: 13, offset: 93352},
+																											pos: position{line: 2953, col: 13, offset: 93354},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 13, offset: 93352},
+																													pos:        position{line: 2953, col: 13, offset: 93354},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 20, offset: 93359},
+																													pos:        position{line: 2953, col: 20, offset: 93361},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 29, offset: 93368},
+																													pos:        position{line: 2953, col: 29, offset: 93370},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8002,9 +8002,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93528},
+																										pos: position{line: 2963, col: 8, offset: 93530},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93529,
+																											line: 2963, col: 9, offset: 93531,
 																										},
 																									},
 																								},
@@ -8014,15 +8014,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1055, col: 5, offset: 32966},
+																				pos: position{line: 1055, col: 5, offset: 32968},
 																				run: (*parser).callonDocumentFragment879,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93528},
+																		pos: position{line: 2963, col: 8, offset: 93530},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93529,
+																			line: 2963, col: 9, offset: 93531,
 																		},
 																	},
 																},
@@ -8033,39 +8033,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1070, col: 5, offset: 33283},
+											pos: position{line: 1070, col: 5, offset: 33285},
 											run: (*parser).callonDocumentFragment882,
 											expr: &seqExpr{
-												pos: position{line: 1070, col: 5, offset: 33283},
+												pos: position{line: 1070, col: 5, offset: 33285},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1070, col: 5, offset: 33283},
+														pos:   position{line: 1070, col: 5, offset: 33285},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 822, col: 5, offset: 26682},
+															pos: position{line: 822, col: 5, offset: 26684},
 															run: (*parser).callonDocumentFragment885,
 															expr: &seqExpr{
-																pos: position{line: 822, col: 5, offset: 26682},
+																pos: position{line: 822, col: 5, offset: 26684},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 822, col: 5, offset: 26682},
+																		pos:   position{line: 822, col: 5, offset: 26684},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 822, col: 16, offset: 26693},
+																			pos: position{line: 822, col: 16, offset: 26695},
 																			run: (*parser).callonDocumentFragment888,
 																			expr: &seqExpr{
-																				pos: position{line: 822, col: 16, offset: 26693},
+																				pos: position{line: 822, col: 16, offset: 26695},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 822, col: 16, offset: 26693},
+																						pos:        position{line: 822, col: 16, offset: 26695},
 																						val:        "____",
 																						ignoreCase: false,
 																						want:       "\"____\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 822, col: 23, offset: 26700},
+																						pos: position{line: 822, col: 23, offset: 26702},
 																						expr: &litMatcher{
-																							pos:        position{line: 822, col: 23, offset: 26700},
+																							pos:        position{line: 822, col: 23, offset: 26702},
 																							val:        "_",
 																							ignoreCase: false,
 																							want:       "\"_\"",
@@ -8076,12 +8076,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 824, col: 8, offset: 26784},
+																		pos: position{line: 824, col: 8, offset: 26786},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93180},
+																			pos: position{line: 2944, col: 10, offset: 93182},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93180},
+																				pos:        position{line: 2944, col: 10, offset: 93182},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8090,28 +8090,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93578},
+																		pos: position{line: 2966, col: 8, offset: 93580},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8120,9 +8120,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93528},
+																				pos: position{line: 2963, col: 8, offset: 93530},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93529,
+																					line: 2963, col: 9, offset: 93531,
 																				},
 																			},
 																		},
@@ -8132,56 +8132,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1071, col: 5, offset: 33320},
+														pos: position{line: 1071, col: 5, offset: 33322},
 														run: (*parser).callonDocumentFragment904,
 													},
 													&labeledExpr{
-														pos:   position{line: 1074, col: 5, offset: 33412},
+														pos:   position{line: 1074, col: 5, offset: 33414},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1089, col: 4, offset: 33793},
+															pos: position{line: 1089, col: 4, offset: 33795},
 															expr: &actionExpr{
-																pos: position{line: 1089, col: 5, offset: 33794},
+																pos: position{line: 1089, col: 5, offset: 33796},
 																run: (*parser).callonDocumentFragment907,
 																expr: &seqExpr{
-																	pos: position{line: 1089, col: 5, offset: 33794},
+																	pos: position{line: 1089, col: 5, offset: 33796},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1089, col: 5, offset: 33794},
+																			pos: position{line: 1089, col: 5, offset: 33796},
 																			expr: &choiceExpr{
-																				pos: position{line: 1082, col: 5, offset: 33640},
+																				pos: position{line: 1082, col: 5, offset: 33642},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1082, col: 5, offset: 33640},
+																						pos: position{line: 1082, col: 5, offset: 33642},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1082, col: 5, offset: 33640},
+																								pos:   position{line: 1082, col: 5, offset: 33642},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 822, col: 5, offset: 26682},
+																									pos: position{line: 822, col: 5, offset: 26684},
 																									run: (*parser).callonDocumentFragment913,
 																									expr: &seqExpr{
-																										pos: position{line: 822, col: 5, offset: 26682},
+																										pos: position{line: 822, col: 5, offset: 26684},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 822, col: 5, offset: 26682},
+																												pos:   position{line: 822, col: 5, offset: 26684},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 822, col: 16, offset: 26693},
+																													pos: position{line: 822, col: 16, offset: 26695},
 																													run: (*parser).callonDocumentFragment916,
 																													expr: &seqExpr{
-																														pos: position{line: 822, col: 16, offset: 26693},
+																														pos: position{line: 822, col: 16, offset: 26695},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 822, col: 16, offset: 26693},
+																																pos:        position{line: 822, col: 16, offset: 26695},
 																																val:        "____",
 																																ignoreCase: false,
 																																want:       "\"____\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 822, col: 23, offset: 26700},
+																																pos: position{line: 822, col: 23, offset: 26702},
 																																expr: &litMatcher{
-																																	pos:        position{line: 822, col: 23, offset: 26700},
+																																	pos:        position{line: 822, col: 23, offset: 26702},
 																																	val:        "_",
 																																	ignoreCase: false,
 																																	want:       "\"_\"",
@@ -8192,12 +8192,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 824, col: 8, offset: 26784},
+																												pos: position{line: 824, col: 8, offset: 26786},
 																												expr: &actionExpr{
-																													pos: position{line: 2944, col: 10, offset: 93180},
+																													pos: position{line: 2944, col: 10, offset: 93182},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2944, col: 10, offset: 93180},
+																														pos:        position{line: 2944, col: 10, offset: 93182},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8206,28 +8206,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2966, col: 8, offset: 93578},
+																												pos: position{line: 2966, col: 8, offset: 93580},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2953, col: 12, offset: 93351},
+																														pos: position{line: 2953, col: 12, offset: 93353},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2953, col: 13, offset: 93352},
+																															pos: position{line: 2953, col: 13, offset: 93354},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 13, offset: 93352},
+																																	pos:        position{line: 2953, col: 13, offset: 93354},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 20, offset: 93359},
+																																	pos:        position{line: 2953, col: 20, offset: 93361},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 29, offset: 93368},
+																																	pos:        position{line: 2953, col: 29, offset: 93370},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8236,9 +8236,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2963, col: 8, offset: 93528},
+																														pos: position{line: 2963, col: 8, offset: 93530},
 																														expr: &anyMatcher{
-																															line: 2963, col: 9, offset: 93529,
+																															line: 2963, col: 9, offset: 93531,
 																														},
 																													},
 																												},
@@ -8248,45 +8248,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1083, col: 5, offset: 33669},
+																								pos: position{line: 1083, col: 5, offset: 33671},
 																								run: (*parser).callonDocumentFragment932,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93528},
+																						pos: position{line: 2963, col: 8, offset: 93530},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93529,
+																							line: 2963, col: 9, offset: 93531,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1090, col: 5, offset: 33822},
+																			pos:   position{line: 1090, col: 5, offset: 33824},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 836, col: 5, offset: 27176},
+																				pos: position{line: 836, col: 5, offset: 27178},
 																				run: (*parser).callonDocumentFragment936,
 																				expr: &seqExpr{
-																					pos: position{line: 836, col: 5, offset: 27176},
+																					pos: position{line: 836, col: 5, offset: 27178},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2961, col: 11, offset: 93514},
+																							pos: position{line: 2961, col: 11, offset: 93516},
 																							expr: &anyMatcher{
-																								line: 2961, col: 13, offset: 93516,
+																								line: 2961, col: 13, offset: 93518,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 837, col: 5, offset: 27251},
+																							pos:   position{line: 837, col: 5, offset: 27253},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2890, col: 13, offset: 91706},
+																								pos: position{line: 2890, col: 13, offset: 91708},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2890, col: 13, offset: 91706},
+																									pos: position{line: 2890, col: 13, offset: 91708},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91706},
+																										pos:        position{line: 2890, col: 13, offset: 91708},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8296,28 +8296,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8326,9 +8326,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -8343,44 +8343,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1075, col: 5, offset: 33444},
+														pos:   position{line: 1075, col: 5, offset: 33446},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1075, col: 9, offset: 33448},
+															pos: position{line: 1075, col: 9, offset: 33450},
 															expr: &choiceExpr{
-																pos: position{line: 1082, col: 5, offset: 33640},
+																pos: position{line: 1082, col: 5, offset: 33642},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1082, col: 5, offset: 33640},
+																		pos: position{line: 1082, col: 5, offset: 33642},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1082, col: 5, offset: 33640},
+																				pos:   position{line: 1082, col: 5, offset: 33642},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 822, col: 5, offset: 26682},
+																					pos: position{line: 822, col: 5, offset: 26684},
 																					run: (*parser).callonDocumentFragment957,
 																					expr: &seqExpr{
-																						pos: position{line: 822, col: 5, offset: 26682},
+																						pos: position{line: 822, col: 5, offset: 26684},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 822, col: 5, offset: 26682},
+																								pos:   position{line: 822, col: 5, offset: 26684},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 822, col: 16, offset: 26693},
+																									pos: position{line: 822, col: 16, offset: 26695},
 																									run: (*parser).callonDocumentFragment960,
 																									expr: &seqExpr{
-																										pos: position{line: 822, col: 16, offset: 26693},
+																										pos: position{line: 822, col: 16, offset: 26695},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 822, col: 16, offset: 26693},
+																												pos:        position{line: 822, col: 16, offset: 26695},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 822, col: 23, offset: 26700},
+																												pos: position{line: 822, col: 23, offset: 26702},
 																												expr: &litMatcher{
-																													pos:        position{line: 822, col: 23, offset: 26700},
+																													pos:        position{line: 822, col: 23, offset: 26702},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -8391,12 +8391,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 824, col: 8, offset: 26784},
+																								pos: position{line: 824, col: 8, offset: 26786},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93180},
+																									pos: position{line: 2944, col: 10, offset: 93182},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93180},
+																										pos:        position{line: 2944, col: 10, offset: 93182},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8405,28 +8405,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2966, col: 8, offset: 93578},
+																								pos: position{line: 2966, col: 8, offset: 93580},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2953, col: 12, offset: 93351},
+																										pos: position{line: 2953, col: 12, offset: 93353},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2953, col: 13, offset: 93352},
+																											pos: position{line: 2953, col: 13, offset: 93354},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 13, offset: 93352},
+																													pos:        position{line: 2953, col: 13, offset: 93354},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 20, offset: 93359},
+																													pos:        position{line: 2953, col: 20, offset: 93361},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 29, offset: 93368},
+																													pos:        position{line: 2953, col: 29, offset: 93370},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8435,9 +8435,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93528},
+																										pos: position{line: 2963, col: 8, offset: 93530},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93529,
+																											line: 2963, col: 9, offset: 93531,
 																										},
 																									},
 																								},
@@ -8447,15 +8447,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1083, col: 5, offset: 33669},
+																				pos: position{line: 1083, col: 5, offset: 33671},
 																				run: (*parser).callonDocumentFragment976,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93528},
+																		pos: position{line: 2963, col: 8, offset: 93530},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93529,
+																			line: 2963, col: 9, offset: 93531,
 																		},
 																	},
 																},
@@ -8466,39 +8466,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1098, col: 5, offset: 33977},
+											pos: position{line: 1098, col: 5, offset: 33979},
 											run: (*parser).callonDocumentFragment979,
 											expr: &seqExpr{
-												pos: position{line: 1098, col: 5, offset: 33977},
+												pos: position{line: 1098, col: 5, offset: 33979},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1098, col: 5, offset: 33977},
+														pos:   position{line: 1098, col: 5, offset: 33979},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 829, col: 5, offset: 26928},
+															pos: position{line: 829, col: 5, offset: 26930},
 															run: (*parser).callonDocumentFragment982,
 															expr: &seqExpr{
-																pos: position{line: 829, col: 5, offset: 26928},
+																pos: position{line: 829, col: 5, offset: 26930},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 829, col: 5, offset: 26928},
+																		pos:   position{line: 829, col: 5, offset: 26930},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 829, col: 16, offset: 26939},
+																			pos: position{line: 829, col: 16, offset: 26941},
 																			run: (*parser).callonDocumentFragment985,
 																			expr: &seqExpr{
-																				pos: position{line: 829, col: 16, offset: 26939},
+																				pos: position{line: 829, col: 16, offset: 26941},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 829, col: 16, offset: 26939},
+																						pos:        position{line: 829, col: 16, offset: 26941},
 																						val:        "****",
 																						ignoreCase: false,
 																						want:       "\"****\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 829, col: 23, offset: 26946},
+																						pos: position{line: 829, col: 23, offset: 26948},
 																						expr: &litMatcher{
-																							pos:        position{line: 829, col: 23, offset: 26946},
+																							pos:        position{line: 829, col: 23, offset: 26948},
 																							val:        "*",
 																							ignoreCase: false,
 																							want:       "\"*\"",
@@ -8509,12 +8509,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 831, col: 8, offset: 27030},
+																		pos: position{line: 831, col: 8, offset: 27032},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93180},
+																			pos: position{line: 2944, col: 10, offset: 93182},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93180},
+																				pos:        position{line: 2944, col: 10, offset: 93182},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8523,28 +8523,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93578},
+																		pos: position{line: 2966, col: 8, offset: 93580},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8553,9 +8553,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93528},
+																				pos: position{line: 2963, col: 8, offset: 93530},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93529,
+																					line: 2963, col: 9, offset: 93531,
 																				},
 																			},
 																		},
@@ -8565,56 +8565,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1099, col: 5, offset: 34016},
+														pos: position{line: 1099, col: 5, offset: 34018},
 														run: (*parser).callonDocumentFragment1001,
 													},
 													&labeledExpr{
-														pos:   position{line: 1102, col: 5, offset: 34108},
+														pos:   position{line: 1102, col: 5, offset: 34110},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1117, col: 4, offset: 34505},
+															pos: position{line: 1117, col: 4, offset: 34507},
 															expr: &actionExpr{
-																pos: position{line: 1117, col: 5, offset: 34506},
+																pos: position{line: 1117, col: 5, offset: 34508},
 																run: (*parser).callonDocumentFragment1004,
 																expr: &seqExpr{
-																	pos: position{line: 1117, col: 5, offset: 34506},
+																	pos: position{line: 1117, col: 5, offset: 34508},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1117, col: 5, offset: 34506},
+																			pos: position{line: 1117, col: 5, offset: 34508},
 																			expr: &choiceExpr{
-																				pos: position{line: 1110, col: 5, offset: 34348},
+																				pos: position{line: 1110, col: 5, offset: 34350},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1110, col: 5, offset: 34348},
+																						pos: position{line: 1110, col: 5, offset: 34350},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1110, col: 5, offset: 34348},
+																								pos:   position{line: 1110, col: 5, offset: 34350},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 829, col: 5, offset: 26928},
+																									pos: position{line: 829, col: 5, offset: 26930},
 																									run: (*parser).callonDocumentFragment1010,
 																									expr: &seqExpr{
-																										pos: position{line: 829, col: 5, offset: 26928},
+																										pos: position{line: 829, col: 5, offset: 26930},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 829, col: 5, offset: 26928},
+																												pos:   position{line: 829, col: 5, offset: 26930},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 829, col: 16, offset: 26939},
+																													pos: position{line: 829, col: 16, offset: 26941},
 																													run: (*parser).callonDocumentFragment1013,
 																													expr: &seqExpr{
-																														pos: position{line: 829, col: 16, offset: 26939},
+																														pos: position{line: 829, col: 16, offset: 26941},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 829, col: 16, offset: 26939},
+																																pos:        position{line: 829, col: 16, offset: 26941},
 																																val:        "****",
 																																ignoreCase: false,
 																																want:       "\"****\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 829, col: 23, offset: 26946},
+																																pos: position{line: 829, col: 23, offset: 26948},
 																																expr: &litMatcher{
-																																	pos:        position{line: 829, col: 23, offset: 26946},
+																																	pos:        position{line: 829, col: 23, offset: 26948},
 																																	val:        "*",
 																																	ignoreCase: false,
 																																	want:       "\"*\"",
@@ -8625,12 +8625,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 831, col: 8, offset: 27030},
+																												pos: position{line: 831, col: 8, offset: 27032},
 																												expr: &actionExpr{
-																													pos: position{line: 2944, col: 10, offset: 93180},
+																													pos: position{line: 2944, col: 10, offset: 93182},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2944, col: 10, offset: 93180},
+																														pos:        position{line: 2944, col: 10, offset: 93182},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8639,28 +8639,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2966, col: 8, offset: 93578},
+																												pos: position{line: 2966, col: 8, offset: 93580},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2953, col: 12, offset: 93351},
+																														pos: position{line: 2953, col: 12, offset: 93353},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2953, col: 13, offset: 93352},
+																															pos: position{line: 2953, col: 13, offset: 93354},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 13, offset: 93352},
+																																	pos:        position{line: 2953, col: 13, offset: 93354},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 20, offset: 93359},
+																																	pos:        position{line: 2953, col: 20, offset: 93361},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 29, offset: 93368},
+																																	pos:        position{line: 2953, col: 29, offset: 93370},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8669,9 +8669,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2963, col: 8, offset: 93528},
+																														pos: position{line: 2963, col: 8, offset: 93530},
 																														expr: &anyMatcher{
-																															line: 2963, col: 9, offset: 93529,
+																															line: 2963, col: 9, offset: 93531,
 																														},
 																													},
 																												},
@@ -8681,45 +8681,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1111, col: 5, offset: 34379},
+																								pos: position{line: 1111, col: 5, offset: 34381},
 																								run: (*parser).callonDocumentFragment1029,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93528},
+																						pos: position{line: 2963, col: 8, offset: 93530},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93529,
+																							line: 2963, col: 9, offset: 93531,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1118, col: 5, offset: 34536},
+																			pos:   position{line: 1118, col: 5, offset: 34538},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 836, col: 5, offset: 27176},
+																				pos: position{line: 836, col: 5, offset: 27178},
 																				run: (*parser).callonDocumentFragment1033,
 																				expr: &seqExpr{
-																					pos: position{line: 836, col: 5, offset: 27176},
+																					pos: position{line: 836, col: 5, offset: 27178},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2961, col: 11, offset: 93514},
+																							pos: position{line: 2961, col: 11, offset: 93516},
 																							expr: &anyMatcher{
-																								line: 2961, col: 13, offset: 93516,
+																								line: 2961, col: 13, offset: 93518,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 837, col: 5, offset: 27251},
+																							pos:   position{line: 837, col: 5, offset: 27253},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2890, col: 13, offset: 91706},
+																								pos: position{line: 2890, col: 13, offset: 91708},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2890, col: 13, offset: 91706},
+																									pos: position{line: 2890, col: 13, offset: 91708},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91706},
+																										pos:        position{line: 2890, col: 13, offset: 91708},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8729,28 +8729,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8759,9 +8759,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -8776,44 +8776,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1103, col: 5, offset: 34142},
+														pos:   position{line: 1103, col: 5, offset: 34144},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1103, col: 9, offset: 34146},
+															pos: position{line: 1103, col: 9, offset: 34148},
 															expr: &choiceExpr{
-																pos: position{line: 1110, col: 5, offset: 34348},
+																pos: position{line: 1110, col: 5, offset: 34350},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1110, col: 5, offset: 34348},
+																		pos: position{line: 1110, col: 5, offset: 34350},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1110, col: 5, offset: 34348},
+																				pos:   position{line: 1110, col: 5, offset: 34350},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 829, col: 5, offset: 26928},
+																					pos: position{line: 829, col: 5, offset: 26930},
 																					run: (*parser).callonDocumentFragment1054,
 																					expr: &seqExpr{
-																						pos: position{line: 829, col: 5, offset: 26928},
+																						pos: position{line: 829, col: 5, offset: 26930},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 829, col: 5, offset: 26928},
+																								pos:   position{line: 829, col: 5, offset: 26930},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 829, col: 16, offset: 26939},
+																									pos: position{line: 829, col: 16, offset: 26941},
 																									run: (*parser).callonDocumentFragment1057,
 																									expr: &seqExpr{
-																										pos: position{line: 829, col: 16, offset: 26939},
+																										pos: position{line: 829, col: 16, offset: 26941},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 829, col: 16, offset: 26939},
+																												pos:        position{line: 829, col: 16, offset: 26941},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 829, col: 23, offset: 26946},
+																												pos: position{line: 829, col: 23, offset: 26948},
 																												expr: &litMatcher{
-																													pos:        position{line: 829, col: 23, offset: 26946},
+																													pos:        position{line: 829, col: 23, offset: 26948},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -8824,12 +8824,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 831, col: 8, offset: 27030},
+																								pos: position{line: 831, col: 8, offset: 27032},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93180},
+																									pos: position{line: 2944, col: 10, offset: 93182},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93180},
+																										pos:        position{line: 2944, col: 10, offset: 93182},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8838,28 +8838,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2966, col: 8, offset: 93578},
+																								pos: position{line: 2966, col: 8, offset: 93580},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2953, col: 12, offset: 93351},
+																										pos: position{line: 2953, col: 12, offset: 93353},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2953, col: 13, offset: 93352},
+																											pos: position{line: 2953, col: 13, offset: 93354},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 13, offset: 93352},
+																													pos:        position{line: 2953, col: 13, offset: 93354},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 20, offset: 93359},
+																													pos:        position{line: 2953, col: 20, offset: 93361},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 29, offset: 93368},
+																													pos:        position{line: 2953, col: 29, offset: 93370},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8868,9 +8868,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93528},
+																										pos: position{line: 2963, col: 8, offset: 93530},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93529,
+																											line: 2963, col: 9, offset: 93531,
 																										},
 																									},
 																								},
@@ -8880,15 +8880,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1111, col: 5, offset: 34379},
+																				pos: position{line: 1111, col: 5, offset: 34381},
 																				run: (*parser).callonDocumentFragment1073,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93528},
+																		pos: position{line: 2963, col: 8, offset: 93530},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93529,
+																			line: 2963, col: 9, offset: 93531,
 																		},
 																	},
 																},
@@ -8899,52 +8899,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2789, col: 18, offset: 88770},
+											pos: position{line: 2789, col: 18, offset: 88772},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2789, col: 18, offset: 88770},
+												pos: position{line: 2789, col: 18, offset: 88772},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2790, col: 9, offset: 88780},
+														pos: position{line: 2790, col: 9, offset: 88782},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2790, col: 9, offset: 88780},
+																pos:        position{line: 2790, col: 9, offset: 88782},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2791, col: 11, offset: 88816},
+																pos:        position{line: 2791, col: 11, offset: 88818},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2791, col: 19, offset: 88824},
+																pos:        position{line: 2791, col: 19, offset: 88826},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2791, col: 29, offset: 88834},
+																pos:        position{line: 2791, col: 29, offset: 88836},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2791, col: 37, offset: 88842},
+																pos:        position{line: 2791, col: 37, offset: 88844},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2791, col: 47, offset: 88852},
+																pos:        position{line: 2791, col: 47, offset: 88854},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2791, col: 55, offset: 88860},
+																pos:        position{line: 2791, col: 55, offset: 88862},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -8952,12 +8952,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2792, col: 11, offset: 88918},
+														pos: position{line: 2792, col: 11, offset: 88920},
 														expr: &actionExpr{
-															pos: position{line: 2944, col: 10, offset: 93180},
+															pos: position{line: 2944, col: 10, offset: 93182},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 10, offset: 93180},
+																pos:        position{line: 2944, col: 10, offset: 93182},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -8966,28 +8966,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2966, col: 8, offset: 93578},
+														pos: position{line: 2966, col: 8, offset: 93580},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93351},
+																pos: position{line: 2953, col: 12, offset: 93353},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93352},
+																	pos: position{line: 2953, col: 13, offset: 93354},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93352},
+																			pos:        position{line: 2953, col: 13, offset: 93354},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93359},
+																			pos:        position{line: 2953, col: 20, offset: 93361},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93368},
+																			pos:        position{line: 2953, col: 29, offset: 93370},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -8996,36 +8996,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93528},
+																pos: position{line: 2963, col: 8, offset: 93530},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93529,
+																	line: 2963, col: 9, offset: 93531,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2966, col: 8, offset: 93578},
+														pos: position{line: 2966, col: 8, offset: 93580},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93351},
+																pos: position{line: 2953, col: 12, offset: 93353},
 																run: (*parser).callonDocumentFragment1098,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93352},
+																	pos: position{line: 2953, col: 13, offset: 93354},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93352},
+																			pos:        position{line: 2953, col: 13, offset: 93354},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93359},
+																			pos:        position{line: 2953, col: 20, offset: 93361},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93368},
+																			pos:        position{line: 2953, col: 29, offset: 93370},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9034,9 +9034,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93528},
+																pos: position{line: 2963, col: 8, offset: 93530},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93529,
+																	line: 2963, col: 9, offset: 93531,
 																},
 															},
 														},
@@ -9049,24 +9049,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2664, col: 5, offset: 85309},
+											pos: position{line: 2664, col: 5, offset: 85311},
 											run: (*parser).callonDocumentFragment1106,
 											expr: &seqExpr{
-												pos: position{line: 2664, col: 5, offset: 85309},
+												pos: position{line: 2664, col: 5, offset: 85311},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2670, col: 19, offset: 85486},
+														pos:        position{line: 2670, col: 19, offset: 85488},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2670, col: 26, offset: 85493},
+														pos: position{line: 2670, col: 26, offset: 85495},
 														expr: &actionExpr{
-															pos: position{line: 2944, col: 10, offset: 93180},
+															pos: position{line: 2944, col: 10, offset: 93182},
 															run: (*parser).callonDocumentFragment1110,
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 10, offset: 93180},
+																pos:        position{line: 2944, col: 10, offset: 93182},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9075,28 +9075,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2966, col: 8, offset: 93578},
+														pos: position{line: 2966, col: 8, offset: 93580},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93351},
+																pos: position{line: 2953, col: 12, offset: 93353},
 																run: (*parser).callonDocumentFragment1113,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93352},
+																	pos: position{line: 2953, col: 13, offset: 93354},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93352},
+																			pos:        position{line: 2953, col: 13, offset: 93354},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93359},
+																			pos:        position{line: 2953, col: 20, offset: 93361},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93368},
+																			pos:        position{line: 2953, col: 29, offset: 93370},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9105,40 +9105,40 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93528},
+																pos: position{line: 2963, col: 8, offset: 93530},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93529,
+																	line: 2963, col: 9, offset: 93531,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2665, col: 5, offset: 85333},
+														pos:   position{line: 2665, col: 5, offset: 85335},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2665, col: 11, offset: 85339},
+															pos: position{line: 2665, col: 11, offset: 85341},
 															expr: &choiceExpr{
-																pos: position{line: 2665, col: 12, offset: 85340},
+																pos: position{line: 2665, col: 12, offset: 85342},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 702, col: 14, offset: 22577},
+																		pos: position{line: 702, col: 14, offset: 22579},
 																		run: (*parser).callonDocumentFragment1123,
 																		expr: &seqExpr{
-																			pos: position{line: 702, col: 14, offset: 22577},
+																			pos: position{line: 702, col: 14, offset: 22579},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2961, col: 11, offset: 93514},
+																					pos: position{line: 2961, col: 11, offset: 93516},
 																					expr: &anyMatcher{
-																						line: 2961, col: 13, offset: 93516,
+																						line: 2961, col: 13, offset: 93518,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 702, col: 21, offset: 22584},
+																					pos: position{line: 702, col: 21, offset: 22586},
 																					expr: &actionExpr{
-																						pos: position{line: 2944, col: 10, offset: 93180},
+																						pos: position{line: 2944, col: 10, offset: 93182},
 																						run: (*parser).callonDocumentFragment1128,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2944, col: 10, offset: 93180},
+																							pos:        position{line: 2944, col: 10, offset: 93182},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9147,28 +9147,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2966, col: 8, offset: 93578},
+																					pos: position{line: 2966, col: 8, offset: 93580},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2953, col: 12, offset: 93351},
+																							pos: position{line: 2953, col: 12, offset: 93353},
 																							run: (*parser).callonDocumentFragment1131,
 																							expr: &choiceExpr{
-																								pos: position{line: 2953, col: 13, offset: 93352},
+																								pos: position{line: 2953, col: 13, offset: 93354},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 13, offset: 93352},
+																										pos:        position{line: 2953, col: 13, offset: 93354},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 20, offset: 93359},
+																										pos:        position{line: 2953, col: 20, offset: 93361},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 29, offset: 93368},
+																										pos:        position{line: 2953, col: 29, offset: 93370},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9177,9 +9177,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93528},
+																							pos: position{line: 2963, col: 8, offset: 93530},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93529,
+																								line: 2963, col: 9, offset: 93531,
 																							},
 																						},
 																					},
@@ -9188,36 +9188,36 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2538, col: 22, offset: 81740},
+																		pos: position{line: 2538, col: 22, offset: 81742},
 																		run: (*parser).callonDocumentFragment1138,
 																		expr: &seqExpr{
-																			pos: position{line: 2538, col: 22, offset: 81740},
+																			pos: position{line: 2538, col: 22, offset: 81742},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2543, col: 31, offset: 81990},
+																					pos:        position{line: 2543, col: 31, offset: 81992},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																				&notExpr{
-																					pos: position{line: 2543, col: 36, offset: 81995},
+																					pos: position{line: 2543, col: 36, offset: 81997},
 																					expr: &litMatcher{
-																						pos:        position{line: 2543, col: 37, offset: 81996},
+																						pos:        position{line: 2543, col: 37, offset: 81998},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2538, col: 49, offset: 81767},
+																					pos:   position{line: 2538, col: 49, offset: 81769},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2890, col: 13, offset: 91706},
+																						pos: position{line: 2890, col: 13, offset: 91708},
 																						run: (*parser).callonDocumentFragment1144,
 																						expr: &zeroOrMoreExpr{
-																							pos: position{line: 2890, col: 13, offset: 91706},
+																							pos: position{line: 2890, col: 13, offset: 91708},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2890, col: 13, offset: 91706},
+																								pos:        position{line: 2890, col: 13, offset: 91708},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -9227,28 +9227,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2966, col: 8, offset: 93578},
+																					pos: position{line: 2966, col: 8, offset: 93580},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2953, col: 12, offset: 93351},
+																							pos: position{line: 2953, col: 12, offset: 93353},
 																							run: (*parser).callonDocumentFragment1148,
 																							expr: &choiceExpr{
-																								pos: position{line: 2953, col: 13, offset: 93352},
+																								pos: position{line: 2953, col: 13, offset: 93354},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 13, offset: 93352},
+																										pos:        position{line: 2953, col: 13, offset: 93354},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 20, offset: 93359},
+																										pos:        position{line: 2953, col: 20, offset: 93361},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 29, offset: 93368},
+																										pos:        position{line: 2953, col: 29, offset: 93370},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9257,9 +9257,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93528},
+																							pos: position{line: 2963, col: 8, offset: 93530},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93529,
+																								line: 2963, col: 9, offset: 93531,
 																							},
 																						},
 																					},
@@ -9268,32 +9268,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2677, col: 5, offset: 85605},
+																		pos: position{line: 2677, col: 5, offset: 85607},
 																		run: (*parser).callonDocumentFragment1155,
 																		expr: &seqExpr{
-																			pos: position{line: 2677, col: 5, offset: 85605},
+																			pos: position{line: 2677, col: 5, offset: 85607},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2677, col: 5, offset: 85605},
+																					pos: position{line: 2677, col: 5, offset: 85607},
 																					expr: &choiceExpr{
-																						pos: position{line: 2674, col: 22, offset: 85566},
+																						pos: position{line: 2674, col: 22, offset: 85568},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2670, col: 19, offset: 85486},
+																								pos: position{line: 2670, col: 19, offset: 85488},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2670, col: 19, offset: 85486},
+																										pos:        position{line: 2670, col: 19, offset: 85488},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2670, col: 26, offset: 85493},
+																										pos: position{line: 2670, col: 26, offset: 85495},
 																										expr: &actionExpr{
-																											pos: position{line: 2944, col: 10, offset: 93180},
+																											pos: position{line: 2944, col: 10, offset: 93182},
 																											run: (*parser).callonDocumentFragment1162,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2944, col: 10, offset: 93180},
+																												pos:        position{line: 2944, col: 10, offset: 93182},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9302,28 +9302,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2966, col: 8, offset: 93578},
+																										pos: position{line: 2966, col: 8, offset: 93580},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2953, col: 12, offset: 93351},
+																												pos: position{line: 2953, col: 12, offset: 93353},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &choiceExpr{
-																													pos: position{line: 2953, col: 13, offset: 93352},
+																													pos: position{line: 2953, col: 13, offset: 93354},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2953, col: 13, offset: 93352},
+																															pos:        position{line: 2953, col: 13, offset: 93354},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2953, col: 20, offset: 93359},
+																															pos:        position{line: 2953, col: 20, offset: 93361},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2953, col: 29, offset: 93368},
+																															pos:        position{line: 2953, col: 29, offset: 93370},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9332,9 +9332,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2963, col: 8, offset: 93528},
+																												pos: position{line: 2963, col: 8, offset: 93530},
 																												expr: &anyMatcher{
-																													line: 2963, col: 9, offset: 93529,
+																													line: 2963, col: 9, offset: 93531,
 																												},
 																											},
 																										},
@@ -9342,59 +9342,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93528},
+																								pos: position{line: 2963, col: 8, offset: 93530},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93529,
+																									line: 2963, col: 9, offset: 93531,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2678, col: 5, offset: 85628},
+																					pos:   position{line: 2678, col: 5, offset: 85630},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2679, col: 9, offset: 85646},
+																						pos: position{line: 2679, col: 9, offset: 85648},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2679, col: 10, offset: 85647},
+																								pos: position{line: 2679, col: 10, offset: 85649},
 																								run: (*parser).callonDocumentFragment1176,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2679, col: 10, offset: 85647},
+																									pos:   position{line: 2679, col: 10, offset: 85649},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2679, col: 17, offset: 85654},
+																										pos: position{line: 2679, col: 17, offset: 85656},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2687, col: 21, offset: 85850},
+																												pos: position{line: 2687, col: 21, offset: 85852},
 																												run: (*parser).callonDocumentFragment1179,
 																												expr: &seqExpr{
-																													pos: position{line: 2687, col: 21, offset: 85850},
+																													pos: position{line: 2687, col: 21, offset: 85852},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2687, col: 21, offset: 85850},
+																															pos:   position{line: 2687, col: 21, offset: 85852},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2687, col: 27, offset: 85856},
+																																pos: position{line: 2687, col: 27, offset: 85858},
 																																expr: &actionExpr{
-																																	pos: position{line: 2692, col: 5, offset: 85931},
+																																	pos: position{line: 2692, col: 5, offset: 85933},
 																																	run: (*parser).callonDocumentFragment1183,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2692, col: 5, offset: 85931},
+																																		pos: position{line: 2692, col: 5, offset: 85933},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2692, col: 5, offset: 85931},
+																																				pos:        position{line: 2692, col: 5, offset: 85933},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2692, col: 9, offset: 85935},
+																																				pos: position{line: 2692, col: 9, offset: 85937},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2944, col: 10, offset: 93180},
+																																					pos: position{line: 2944, col: 10, offset: 93182},
 																																					run: (*parser).callonDocumentFragment1187,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2944, col: 10, offset: 93180},
+																																						pos:        position{line: 2944, col: 10, offset: 93182},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9403,21 +9403,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2692, col: 16, offset: 85942},
+																																				pos:   position{line: 2692, col: 16, offset: 85944},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2698, col: 5, offset: 86142},
+																																					pos: position{line: 2698, col: 5, offset: 86144},
 																																					run: (*parser).callonDocumentFragment1190,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2698, col: 5, offset: 86142},
+																																						pos:   position{line: 2698, col: 5, offset: 86144},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2698, col: 14, offset: 86151},
+																																							pos: position{line: 2698, col: 14, offset: 86153},
 																																							run: (*parser).callonDocumentFragment1192,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2698, col: 14, offset: 86151},
+																																								pos: position{line: 2698, col: 14, offset: 86153},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2698, col: 14, offset: 86151},
+																																									pos:        position{line: 2698, col: 14, offset: 86153},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9434,28 +9434,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2966, col: 8, offset: 93578},
+																															pos: position{line: 2966, col: 8, offset: 93580},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2953, col: 12, offset: 93351},
+																																	pos: position{line: 2953, col: 12, offset: 93353},
 																																	run: (*parser).callonDocumentFragment1196,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2953, col: 13, offset: 93352},
+																																		pos: position{line: 2953, col: 13, offset: 93354},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2953, col: 13, offset: 93352},
+																																				pos:        position{line: 2953, col: 13, offset: 93354},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2953, col: 20, offset: 93359},
+																																				pos:        position{line: 2953, col: 20, offset: 93361},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2953, col: 29, offset: 93368},
+																																				pos:        position{line: 2953, col: 29, offset: 93370},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9464,9 +9464,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2963, col: 8, offset: 93528},
+																																	pos: position{line: 2963, col: 8, offset: 93530},
 																																	expr: &anyMatcher{
-																																		line: 2963, col: 9, offset: 93529,
+																																		line: 2963, col: 9, offset: 93531,
 																																	},
 																																},
 																															},
@@ -9475,40 +9475,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2704, col: 24, offset: 86287},
+																												pos: position{line: 2704, col: 24, offset: 86289},
 																												run: (*parser).callonDocumentFragment1203,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2704, col: 24, offset: 86287},
+																													pos:   position{line: 2704, col: 24, offset: 86289},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2704, col: 30, offset: 86293},
+																														pos: position{line: 2704, col: 30, offset: 86295},
 																														expr: &actionExpr{
-																															pos: position{line: 2709, col: 5, offset: 86369},
+																															pos: position{line: 2709, col: 5, offset: 86371},
 																															run: (*parser).callonDocumentFragment1206,
 																															expr: &seqExpr{
-																																pos: position{line: 2709, col: 5, offset: 86369},
+																																pos: position{line: 2709, col: 5, offset: 86371},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2709, col: 5, offset: 86369},
+																																		pos: position{line: 2709, col: 5, offset: 86371},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2674, col: 22, offset: 85566},
+																																			pos: position{line: 2674, col: 22, offset: 85568},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2670, col: 19, offset: 85486},
+																																					pos: position{line: 2670, col: 19, offset: 85488},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2670, col: 19, offset: 85486},
+																																							pos:        position{line: 2670, col: 19, offset: 85488},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2670, col: 26, offset: 85493},
+																																							pos: position{line: 2670, col: 26, offset: 85495},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2944, col: 10, offset: 93180},
+																																								pos: position{line: 2944, col: 10, offset: 93182},
 																																								run: (*parser).callonDocumentFragment1213,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2944, col: 10, offset: 93180},
+																																									pos:        position{line: 2944, col: 10, offset: 93182},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9517,28 +9517,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2966, col: 8, offset: 93578},
+																																							pos: position{line: 2966, col: 8, offset: 93580},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2953, col: 12, offset: 93351},
+																																									pos: position{line: 2953, col: 12, offset: 93353},
 																																									run: (*parser).callonDocumentFragment1216,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2953, col: 13, offset: 93352},
+																																										pos: position{line: 2953, col: 13, offset: 93354},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2953, col: 13, offset: 93352},
+																																												pos:        position{line: 2953, col: 13, offset: 93354},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2953, col: 20, offset: 93359},
+																																												pos:        position{line: 2953, col: 20, offset: 93361},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2953, col: 29, offset: 93368},
+																																												pos:        position{line: 2953, col: 29, offset: 93370},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9547,9 +9547,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2963, col: 8, offset: 93528},
+																																									pos: position{line: 2963, col: 8, offset: 93530},
 																																									expr: &anyMatcher{
-																																										line: 2963, col: 9, offset: 93529,
+																																										line: 2963, col: 9, offset: 93531,
 																																									},
 																																								},
 																																							},
@@ -9557,35 +9557,35 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2963, col: 8, offset: 93528},
+																																					pos: position{line: 2963, col: 8, offset: 93530},
 																																					expr: &anyMatcher{
-																																						line: 2963, col: 9, offset: 93529,
+																																						line: 2963, col: 9, offset: 93531,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2710, col: 5, offset: 86392},
+																																		pos: position{line: 2710, col: 5, offset: 86394},
 																																		expr: &actionExpr{
-																																			pos: position{line: 702, col: 14, offset: 22577},
+																																			pos: position{line: 702, col: 14, offset: 22579},
 																																			run: (*parser).callonDocumentFragment1226,
 																																			expr: &seqExpr{
-																																				pos: position{line: 702, col: 14, offset: 22577},
+																																				pos: position{line: 702, col: 14, offset: 22579},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2961, col: 11, offset: 93514},
+																																						pos: position{line: 2961, col: 11, offset: 93516},
 																																						expr: &anyMatcher{
-																																							line: 2961, col: 13, offset: 93516,
+																																							line: 2961, col: 13, offset: 93518,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 702, col: 21, offset: 22584},
+																																						pos: position{line: 702, col: 21, offset: 22586},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2944, col: 10, offset: 93180},
+																																							pos: position{line: 2944, col: 10, offset: 93182},
 																																							run: (*parser).callonDocumentFragment1231,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2944, col: 10, offset: 93180},
+																																								pos:        position{line: 2944, col: 10, offset: 93182},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9594,28 +9594,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2966, col: 8, offset: 93578},
+																																						pos: position{line: 2966, col: 8, offset: 93580},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2953, col: 12, offset: 93351},
+																																								pos: position{line: 2953, col: 12, offset: 93353},
 																																								run: (*parser).callonDocumentFragment1234,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2953, col: 13, offset: 93352},
+																																									pos: position{line: 2953, col: 13, offset: 93354},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2953, col: 13, offset: 93352},
+																																											pos:        position{line: 2953, col: 13, offset: 93354},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2953, col: 20, offset: 93359},
+																																											pos:        position{line: 2953, col: 20, offset: 93361},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2953, col: 29, offset: 93368},
+																																											pos:        position{line: 2953, col: 29, offset: 93370},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9624,9 +9624,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2963, col: 8, offset: 93528},
+																																								pos: position{line: 2963, col: 8, offset: 93530},
 																																								expr: &anyMatcher{
-																																									line: 2963, col: 9, offset: 93529,
+																																									line: 2963, col: 9, offset: 93531,
 																																								},
 																																							},
 																																						},
@@ -9636,48 +9636,48 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2711, col: 5, offset: 86407},
+																																		pos:   position{line: 2711, col: 5, offset: 86409},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2711, col: 12, offset: 86414},
+																																			pos: position{line: 2711, col: 12, offset: 86416},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2736, col: 5, offset: 87042},
+																																				pos: position{line: 2736, col: 5, offset: 87044},
 																																				run: (*parser).callonDocumentFragment1243,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2736, col: 5, offset: 87042},
+																																					pos: position{line: 2736, col: 5, offset: 87044},
 																																					exprs: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2736, col: 6, offset: 87043},
+																																							pos: position{line: 2736, col: 6, offset: 87045},
 																																							run: (*parser).callonDocumentFragment1245,
 																																							expr: &litMatcher{
-																																								pos:        position{line: 2736, col: 6, offset: 87043},
+																																								pos:        position{line: 2736, col: 6, offset: 87045},
 																																								val:        "",
 																																								ignoreCase: false,
 																																								want:       "\"\"",
 																																							},
 																																						},
 																																						&andCodeExpr{
-																																							pos: position{line: 2739, col: 5, offset: 87114},
+																																							pos: position{line: 2739, col: 5, offset: 87116},
 																																							run: (*parser).callonDocumentFragment1247,
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2742, col: 5, offset: 87171},
+																																							pos:   position{line: 2742, col: 5, offset: 87173},
 																																							label: "format",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2742, col: 13, offset: 87179},
+																																								pos: position{line: 2742, col: 13, offset: 87181},
 																																								run: (*parser).callonDocumentFragment1249,
 																																								expr: &seqExpr{
-																																									pos: position{line: 2742, col: 13, offset: 87179},
+																																									pos: position{line: 2742, col: 13, offset: 87181},
 																																									exprs: []interface{}{
 																																										&zeroOrOneExpr{
-																																											pos: position{line: 2742, col: 13, offset: 87179},
+																																											pos: position{line: 2742, col: 13, offset: 87181},
 																																											expr: &seqExpr{
-																																												pos: position{line: 2742, col: 14, offset: 87180},
+																																												pos: position{line: 2742, col: 14, offset: 87182},
 																																												exprs: []interface{}{
 																																													&oneOrMoreExpr{
-																																														pos: position{line: 2742, col: 14, offset: 87180},
+																																														pos: position{line: 2742, col: 14, offset: 87182},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2742, col: 14, offset: 87180},
+																																															pos:        position{line: 2742, col: 14, offset: 87182},
 																																															val:        "[.0-9]",
 																																															chars:      []rune{'.'},
 																																															ranges:     []rune{'0', '9'},
@@ -9686,7 +9686,7 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&charClassMatcher{
-																																														pos:        position{line: 2742, col: 22, offset: 87188},
+																																														pos:        position{line: 2742, col: 22, offset: 87190},
 																																														val:        "[*+]",
 																																														chars:      []rune{'*', '+'},
 																																														ignoreCase: false,
@@ -9696,9 +9696,9 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&zeroOrOneExpr{
-																																											pos: position{line: 2742, col: 29, offset: 87195},
+																																											pos: position{line: 2742, col: 29, offset: 87197},
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2742, col: 29, offset: 87195},
+																																												pos:        position{line: 2742, col: 29, offset: 87197},
 																																												val:        "[<>^]",
 																																												chars:      []rune{'<', '>', '^'},
 																																												ignoreCase: false,
@@ -9706,18 +9706,18 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&zeroOrOneExpr{
-																																											pos: position{line: 2742, col: 36, offset: 87202},
+																																											pos: position{line: 2742, col: 36, offset: 87204},
 																																											expr: &seqExpr{
-																																												pos: position{line: 2742, col: 37, offset: 87203},
+																																												pos: position{line: 2742, col: 37, offset: 87205},
 																																												exprs: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2742, col: 37, offset: 87203},
+																																														pos:        position{line: 2742, col: 37, offset: 87205},
 																																														val:        ".",
 																																														ignoreCase: false,
 																																														want:       "\".\"",
 																																													},
 																																													&charClassMatcher{
-																																														pos:        position{line: 2742, col: 41, offset: 87207},
+																																														pos:        position{line: 2742, col: 41, offset: 87209},
 																																														val:        "[<>^]",
 																																														chars:      []rune{'<', '>', '^'},
 																																														ignoreCase: false,
@@ -9727,9 +9727,9 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&zeroOrOneExpr{
-																																											pos: position{line: 2742, col: 49, offset: 87215},
+																																											pos: position{line: 2742, col: 49, offset: 87217},
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2742, col: 49, offset: 87215},
+																																												pos:        position{line: 2742, col: 49, offset: 87217},
 																																												val:        "[a-z]",
 																																												ranges:     []rune{'a', 'z'},
 																																												ignoreCase: false,
@@ -9746,18 +9746,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2711, col: 31, offset: 86433},
+																																		pos:        position{line: 2711, col: 31, offset: 86435},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2711, col: 35, offset: 86437},
+																																		pos: position{line: 2711, col: 35, offset: 86439},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2944, col: 10, offset: 93180},
+																																			pos: position{line: 2944, col: 10, offset: 93182},
 																																			run: (*parser).callonDocumentFragment1266,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2944, col: 10, offset: 93180},
+																																				pos:        position{line: 2944, col: 10, offset: 93182},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9766,27 +9766,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2711, col: 42, offset: 86444},
+																																		pos: position{line: 2711, col: 42, offset: 86446},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2953, col: 12, offset: 93351},
+																																			pos: position{line: 2953, col: 12, offset: 93353},
 																																			run: (*parser).callonDocumentFragment1269,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2953, col: 13, offset: 93352},
+																																				pos: position{line: 2953, col: 13, offset: 93354},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2953, col: 13, offset: 93352},
+																																						pos:        position{line: 2953, col: 13, offset: 93354},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2953, col: 20, offset: 93359},
+																																						pos:        position{line: 2953, col: 20, offset: 93361},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2953, col: 29, offset: 93368},
+																																						pos:        position{line: 2953, col: 29, offset: 93370},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9796,57 +9796,57 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2711, col: 51, offset: 86453},
+																																		pos:   position{line: 2711, col: 51, offset: 86455},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2717, col: 5, offset: 86612},
+																																			pos: position{line: 2717, col: 5, offset: 86614},
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2718, col: 9, offset: 86622},
+																																				pos: position{line: 2718, col: 9, offset: 86624},
 																																				alternatives: []interface{}{
 																																					&actionExpr{
-																																						pos: position{line: 2718, col: 9, offset: 86622},
+																																						pos: position{line: 2718, col: 9, offset: 86624},
 																																						run: (*parser).callonDocumentFragment1277,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2718, col: 9, offset: 86622},
+																																							pos: position{line: 2718, col: 9, offset: 86624},
 																																							exprs: []interface{}{
 																																								&andCodeExpr{
-																																									pos: position{line: 2718, col: 9, offset: 86622},
+																																									pos: position{line: 2718, col: 9, offset: 86624},
 																																									run: (*parser).callonDocumentFragment1279,
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2721, col: 9, offset: 86691},
+																																									pos:   position{line: 2721, col: 9, offset: 86693},
 																																									label: "comment",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2538, col: 22, offset: 81740},
+																																										pos: position{line: 2538, col: 22, offset: 81742},
 																																										run: (*parser).callonDocumentFragment1281,
 																																										expr: &seqExpr{
-																																											pos: position{line: 2538, col: 22, offset: 81740},
+																																											pos: position{line: 2538, col: 22, offset: 81742},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2543, col: 31, offset: 81990},
+																																													pos:        position{line: 2543, col: 31, offset: 81992},
 																																													val:        "//",
 																																													ignoreCase: false,
 																																													want:       "\"//\"",
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2543, col: 36, offset: 81995},
+																																													pos: position{line: 2543, col: 36, offset: 81997},
 																																													expr: &litMatcher{
-																																														pos:        position{line: 2543, col: 37, offset: 81996},
+																																														pos:        position{line: 2543, col: 37, offset: 81998},
 																																														val:        "/",
 																																														ignoreCase: false,
 																																														want:       "\"/\"",
 																																													},
 																																												},
 																																												&labeledExpr{
-																																													pos:   position{line: 2538, col: 49, offset: 81767},
+																																													pos:   position{line: 2538, col: 49, offset: 81769},
 																																													label: "content",
 																																													expr: &actionExpr{
-																																														pos: position{line: 2890, col: 13, offset: 91706},
+																																														pos: position{line: 2890, col: 13, offset: 91708},
 																																														run: (*parser).callonDocumentFragment1287,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2890, col: 13, offset: 91706},
+																																															pos: position{line: 2890, col: 13, offset: 91708},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2890, col: 13, offset: 91706},
+																																																pos:        position{line: 2890, col: 13, offset: 91708},
 																																																val:        "[^\\r\\n]",
 																																																chars:      []rune{'\r', '\n'},
 																																																ignoreCase: false,
@@ -9856,28 +9856,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2966, col: 8, offset: 93578},
+																																													pos: position{line: 2966, col: 8, offset: 93580},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2953, col: 12, offset: 93351},
+																																															pos: position{line: 2953, col: 12, offset: 93353},
 																																															run: (*parser).callonDocumentFragment1291,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2953, col: 13, offset: 93352},
+																																																pos: position{line: 2953, col: 13, offset: 93354},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2953, col: 13, offset: 93352},
+																																																		pos:        position{line: 2953, col: 13, offset: 93354},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2953, col: 20, offset: 93359},
+																																																		pos:        position{line: 2953, col: 20, offset: 93361},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2953, col: 29, offset: 93368},
+																																																		pos:        position{line: 2953, col: 29, offset: 93370},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -9886,9 +9886,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2963, col: 8, offset: 93528},
+																																															pos: position{line: 2963, col: 8, offset: 93530},
 																																															expr: &anyMatcher{
-																																																line: 2963, col: 9, offset: 93529,
+																																																line: 2963, col: 9, offset: 93531,
 																																															},
 																																														},
 																																													},
@@ -9901,32 +9901,32 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&actionExpr{
-																																						pos: position{line: 2725, col: 9, offset: 86781},
+																																						pos: position{line: 2725, col: 9, offset: 86783},
 																																						run: (*parser).callonDocumentFragment1298,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2725, col: 9, offset: 86781},
+																																							pos: position{line: 2725, col: 9, offset: 86783},
 																																							exprs: []interface{}{
 																																								&notExpr{
-																																									pos: position{line: 2725, col: 9, offset: 86781},
+																																									pos: position{line: 2725, col: 9, offset: 86783},
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2674, col: 22, offset: 85566},
+																																										pos: position{line: 2674, col: 22, offset: 85568},
 																																										alternatives: []interface{}{
 																																											&seqExpr{
-																																												pos: position{line: 2670, col: 19, offset: 85486},
+																																												pos: position{line: 2670, col: 19, offset: 85488},
 																																												exprs: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2670, col: 19, offset: 85486},
+																																														pos:        position{line: 2670, col: 19, offset: 85488},
 																																														val:        "|===",
 																																														ignoreCase: false,
 																																														want:       "\"|===\"",
 																																													},
 																																													&zeroOrMoreExpr{
-																																														pos: position{line: 2670, col: 26, offset: 85493},
+																																														pos: position{line: 2670, col: 26, offset: 85495},
 																																														expr: &actionExpr{
-																																															pos: position{line: 2944, col: 10, offset: 93180},
+																																															pos: position{line: 2944, col: 10, offset: 93182},
 																																															run: (*parser).callonDocumentFragment1305,
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2944, col: 10, offset: 93180},
+																																																pos:        position{line: 2944, col: 10, offset: 93182},
 																																																val:        "[\\t ]",
 																																																chars:      []rune{'\t', ' '},
 																																																ignoreCase: false,
@@ -9935,28 +9935,28 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&choiceExpr{
-																																														pos: position{line: 2966, col: 8, offset: 93578},
+																																														pos: position{line: 2966, col: 8, offset: 93580},
 																																														alternatives: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2953, col: 12, offset: 93351},
+																																																pos: position{line: 2953, col: 12, offset: 93353},
 																																																run: (*parser).callonDocumentFragment1308,
 																																																expr: &choiceExpr{
-																																																	pos: position{line: 2953, col: 13, offset: 93352},
+																																																	pos: position{line: 2953, col: 13, offset: 93354},
 																																																	alternatives: []interface{}{
 																																																		&litMatcher{
-																																																			pos:        position{line: 2953, col: 13, offset: 93352},
+																																																			pos:        position{line: 2953, col: 13, offset: 93354},
 																																																			val:        "\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2953, col: 20, offset: 93359},
+																																																			pos:        position{line: 2953, col: 20, offset: 93361},
 																																																			val:        "\r\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2953, col: 29, offset: 93368},
+																																																			pos:        position{line: 2953, col: 29, offset: 93370},
 																																																			val:        "\r",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\"",
@@ -9965,9 +9965,9 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&notExpr{
-																																																pos: position{line: 2963, col: 8, offset: 93528},
+																																																pos: position{line: 2963, col: 8, offset: 93530},
 																																																expr: &anyMatcher{
-																																																	line: 2963, col: 9, offset: 93529,
+																																																	line: 2963, col: 9, offset: 93531,
 																																																},
 																																															},
 																																														},
@@ -9975,35 +9975,35 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2963, col: 8, offset: 93528},
+																																												pos: position{line: 2963, col: 8, offset: 93530},
 																																												expr: &anyMatcher{
-																																													line: 2963, col: 9, offset: 93529,
+																																													line: 2963, col: 9, offset: 93531,
 																																												},
 																																											},
 																																										},
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2726, col: 9, offset: 86808},
+																																									pos: position{line: 2726, col: 9, offset: 86810},
 																																									expr: &actionExpr{
-																																										pos: position{line: 702, col: 14, offset: 22577},
+																																										pos: position{line: 702, col: 14, offset: 22579},
 																																										run: (*parser).callonDocumentFragment1318,
 																																										expr: &seqExpr{
-																																											pos: position{line: 702, col: 14, offset: 22577},
+																																											pos: position{line: 702, col: 14, offset: 22579},
 																																											exprs: []interface{}{
 																																												&andExpr{
-																																													pos: position{line: 2961, col: 11, offset: 93514},
+																																													pos: position{line: 2961, col: 11, offset: 93516},
 																																													expr: &anyMatcher{
-																																														line: 2961, col: 13, offset: 93516,
+																																														line: 2961, col: 13, offset: 93518,
 																																													},
 																																												},
 																																												&zeroOrMoreExpr{
-																																													pos: position{line: 702, col: 21, offset: 22584},
+																																													pos: position{line: 702, col: 21, offset: 22586},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2944, col: 10, offset: 93180},
+																																														pos: position{line: 2944, col: 10, offset: 93182},
 																																														run: (*parser).callonDocumentFragment1323,
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2944, col: 10, offset: 93180},
+																																															pos:        position{line: 2944, col: 10, offset: 93182},
 																																															val:        "[\\t ]",
 																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
@@ -10012,28 +10012,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2966, col: 8, offset: 93578},
+																																													pos: position{line: 2966, col: 8, offset: 93580},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2953, col: 12, offset: 93351},
+																																															pos: position{line: 2953, col: 12, offset: 93353},
 																																															run: (*parser).callonDocumentFragment1326,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2953, col: 13, offset: 93352},
+																																																pos: position{line: 2953, col: 13, offset: 93354},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2953, col: 13, offset: 93352},
+																																																		pos:        position{line: 2953, col: 13, offset: 93354},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2953, col: 20, offset: 93359},
+																																																		pos:        position{line: 2953, col: 20, offset: 93361},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2953, col: 29, offset: 93368},
+																																																		pos:        position{line: 2953, col: 29, offset: 93370},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -10042,9 +10042,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2963, col: 8, offset: 93528},
+																																															pos: position{line: 2963, col: 8, offset: 93530},
 																																															expr: &anyMatcher{
-																																																line: 2963, col: 9, offset: 93529,
+																																																line: 2963, col: 9, offset: 93531,
 																																															},
 																																														},
 																																													},
@@ -10054,53 +10054,53 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2727, col: 9, offset: 86827},
+																																									pos: position{line: 2727, col: 9, offset: 86829},
 																																									expr: &seqExpr{
-																																										pos: position{line: 2727, col: 11, offset: 86829},
+																																										pos: position{line: 2727, col: 11, offset: 86831},
 																																										exprs: []interface{}{
 																																											&labeledExpr{
-																																												pos:   position{line: 2727, col: 11, offset: 86829},
+																																												pos:   position{line: 2727, col: 11, offset: 86831},
 																																												label: "format",
 																																												expr: &zeroOrOneExpr{
-																																													pos: position{line: 2727, col: 18, offset: 86836},
+																																													pos: position{line: 2727, col: 18, offset: 86838},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2736, col: 5, offset: 87042},
+																																														pos: position{line: 2736, col: 5, offset: 87044},
 																																														run: (*parser).callonDocumentFragment1337,
 																																														expr: &seqExpr{
-																																															pos: position{line: 2736, col: 5, offset: 87042},
+																																															pos: position{line: 2736, col: 5, offset: 87044},
 																																															exprs: []interface{}{
 																																																&actionExpr{
-																																																	pos: position{line: 2736, col: 6, offset: 87043},
+																																																	pos: position{line: 2736, col: 6, offset: 87045},
 																																																	run: (*parser).callonDocumentFragment1339,
 																																																	expr: &litMatcher{
-																																																		pos:        position{line: 2736, col: 6, offset: 87043},
+																																																		pos:        position{line: 2736, col: 6, offset: 87045},
 																																																		val:        "",
 																																																		ignoreCase: false,
 																																																		want:       "\"\"",
 																																																	},
 																																																},
 																																																&andCodeExpr{
-																																																	pos: position{line: 2739, col: 5, offset: 87114},
+																																																	pos: position{line: 2739, col: 5, offset: 87116},
 																																																	run: (*parser).callonDocumentFragment1341,
 																																																},
 																																																&labeledExpr{
-																																																	pos:   position{line: 2742, col: 5, offset: 87171},
+																																																	pos:   position{line: 2742, col: 5, offset: 87173},
 																																																	label: "format",
 																																																	expr: &actionExpr{
-																																																		pos: position{line: 2742, col: 13, offset: 87179},
+																																																		pos: position{line: 2742, col: 13, offset: 87181},
 																																																		run: (*parser).callonDocumentFragment1343,
 																																																		expr: &seqExpr{
-																																																			pos: position{line: 2742, col: 13, offset: 87179},
+																																																			pos: position{line: 2742, col: 13, offset: 87181},
 																																																			exprs: []interface{}{
 																																																				&zeroOrOneExpr{
-																																																					pos: position{line: 2742, col: 13, offset: 87179},
+																																																					pos: position{line: 2742, col: 13, offset: 87181},
 																																																					expr: &seqExpr{
-																																																						pos: position{line: 2742, col: 14, offset: 87180},
+																																																						pos: position{line: 2742, col: 14, offset: 87182},
 																																																						exprs: []interface{}{
 																																																							&oneOrMoreExpr{
-																																																								pos: position{line: 2742, col: 14, offset: 87180},
+																																																								pos: position{line: 2742, col: 14, offset: 87182},
 																																																								expr: &charClassMatcher{
-																																																									pos:        position{line: 2742, col: 14, offset: 87180},
+																																																									pos:        position{line: 2742, col: 14, offset: 87182},
 																																																									val:        "[.0-9]",
 																																																									chars:      []rune{'.'},
 																																																									ranges:     []rune{'0', '9'},
@@ -10109,7 +10109,7 @@ var g = &grammar{
 																																																								},
 																																																							},
 																																																							&charClassMatcher{
-																																																								pos:        position{line: 2742, col: 22, offset: 87188},
+																																																								pos:        position{line: 2742, col: 22, offset: 87190},
 																																																								val:        "[*+]",
 																																																								chars:      []rune{'*', '+'},
 																																																								ignoreCase: false,
@@ -10119,9 +10119,9 @@ var g = &grammar{
 																																																					},
 																																																				},
 																																																				&zeroOrOneExpr{
-																																																					pos: position{line: 2742, col: 29, offset: 87195},
+																																																					pos: position{line: 2742, col: 29, offset: 87197},
 																																																					expr: &charClassMatcher{
-																																																						pos:        position{line: 2742, col: 29, offset: 87195},
+																																																						pos:        position{line: 2742, col: 29, offset: 87197},
 																																																						val:        "[<>^]",
 																																																						chars:      []rune{'<', '>', '^'},
 																																																						ignoreCase: false,
@@ -10129,18 +10129,18 @@ var g = &grammar{
 																																																					},
 																																																				},
 																																																				&zeroOrOneExpr{
-																																																					pos: position{line: 2742, col: 36, offset: 87202},
+																																																					pos: position{line: 2742, col: 36, offset: 87204},
 																																																					expr: &seqExpr{
-																																																						pos: position{line: 2742, col: 37, offset: 87203},
+																																																						pos: position{line: 2742, col: 37, offset: 87205},
 																																																						exprs: []interface{}{
 																																																							&litMatcher{
-																																																								pos:        position{line: 2742, col: 37, offset: 87203},
+																																																								pos:        position{line: 2742, col: 37, offset: 87205},
 																																																								val:        ".",
 																																																								ignoreCase: false,
 																																																								want:       "\".\"",
 																																																							},
 																																																							&charClassMatcher{
-																																																								pos:        position{line: 2742, col: 41, offset: 87207},
+																																																								pos:        position{line: 2742, col: 41, offset: 87209},
 																																																								val:        "[<>^]",
 																																																								chars:      []rune{'<', '>', '^'},
 																																																								ignoreCase: false,
@@ -10150,9 +10150,9 @@ var g = &grammar{
 																																																					},
 																																																				},
 																																																				&zeroOrOneExpr{
-																																																					pos: position{line: 2742, col: 49, offset: 87215},
+																																																					pos: position{line: 2742, col: 49, offset: 87217},
 																																																					expr: &charClassMatcher{
-																																																						pos:        position{line: 2742, col: 49, offset: 87215},
+																																																						pos:        position{line: 2742, col: 49, offset: 87217},
 																																																						val:        "[a-z]",
 																																																						ranges:     []rune{'a', 'z'},
 																																																						ignoreCase: false,
@@ -10169,7 +10169,7 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2727, col: 37, offset: 86855},
+																																												pos:        position{line: 2727, col: 37, offset: 86857},
 																																												val:        "|",
 																																												ignoreCase: false,
 																																												want:       "\"|\"",
@@ -10178,15 +10178,15 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2728, col: 9, offset: 86868},
+																																									pos:   position{line: 2728, col: 9, offset: 86870},
 																																									label: "content",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2728, col: 18, offset: 86877},
+																																										pos: position{line: 2728, col: 18, offset: 86879},
 																																										run: (*parser).callonDocumentFragment1360,
 																																										expr: &zeroOrMoreExpr{
-																																											pos: position{line: 2728, col: 18, offset: 86877},
+																																											pos: position{line: 2728, col: 18, offset: 86879},
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2728, col: 18, offset: 86877},
+																																												pos:        position{line: 2728, col: 18, offset: 86879},
 																																												val:        "[^|\\r\\n]",
 																																												chars:      []rune{'|', '\r', '\n'},
 																																												ignoreCase: false,
@@ -10196,30 +10196,30 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&zeroOrOneExpr{
-																																									pos: position{line: 2730, col: 12, offset: 86939},
+																																									pos: position{line: 2730, col: 12, offset: 86941},
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2966, col: 8, offset: 93578},
+																																										pos: position{line: 2966, col: 8, offset: 93580},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2953, col: 12, offset: 93351},
+																																												pos: position{line: 2953, col: 12, offset: 93353},
 																																												run: (*parser).callonDocumentFragment1365,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2953, col: 13, offset: 93352},
+																																													pos: position{line: 2953, col: 13, offset: 93354},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2953, col: 13, offset: 93352},
+																																															pos:        position{line: 2953, col: 13, offset: 93354},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2953, col: 20, offset: 93359},
+																																															pos:        position{line: 2953, col: 20, offset: 93361},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2953, col: 29, offset: 93368},
+																																															pos:        position{line: 2953, col: 29, offset: 93370},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -10228,9 +10228,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2963, col: 8, offset: 93528},
+																																												pos: position{line: 2963, col: 8, offset: 93530},
 																																												expr: &anyMatcher{
-																																													line: 2963, col: 9, offset: 93529,
+																																													line: 2963, col: 9, offset: 93531,
 																																												},
 																																											},
 																																										},
@@ -10254,24 +10254,24 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 702, col: 14, offset: 22577},
+																								pos: position{line: 702, col: 14, offset: 22579},
 																								run: (*parser).callonDocumentFragment1372,
 																								expr: &seqExpr{
-																									pos: position{line: 702, col: 14, offset: 22577},
+																									pos: position{line: 702, col: 14, offset: 22579},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2961, col: 11, offset: 93514},
+																											pos: position{line: 2961, col: 11, offset: 93516},
 																											expr: &anyMatcher{
-																												line: 2961, col: 13, offset: 93516,
+																												line: 2961, col: 13, offset: 93518,
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 702, col: 21, offset: 22584},
+																											pos: position{line: 702, col: 21, offset: 22586},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93180},
+																												pos: position{line: 2944, col: 10, offset: 93182},
 																												run: (*parser).callonDocumentFragment1377,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93180},
+																													pos:        position{line: 2944, col: 10, offset: 93182},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10280,28 +10280,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93578},
+																											pos: position{line: 2966, col: 8, offset: 93580},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93351},
+																													pos: position{line: 2953, col: 12, offset: 93353},
 																													run: (*parser).callonDocumentFragment1380,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93352},
+																														pos: position{line: 2953, col: 13, offset: 93354},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93352},
+																																pos:        position{line: 2953, col: 13, offset: 93354},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93359},
+																																pos:        position{line: 2953, col: 20, offset: 93361},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93368},
+																																pos:        position{line: 2953, col: 29, offset: 93370},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10310,9 +10310,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93528},
+																													pos: position{line: 2963, col: 8, offset: 93530},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93529,
+																														line: 2963, col: 9, offset: 93531,
 																													},
 																												},
 																											},
@@ -10331,24 +10331,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2674, col: 22, offset: 85566},
+														pos: position{line: 2674, col: 22, offset: 85568},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2670, col: 19, offset: 85486},
+																pos: position{line: 2670, col: 19, offset: 85488},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2670, col: 19, offset: 85486},
+																		pos:        position{line: 2670, col: 19, offset: 85488},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2670, col: 26, offset: 85493},
+																		pos: position{line: 2670, col: 26, offset: 85495},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93180},
+																			pos: position{line: 2944, col: 10, offset: 93182},
 																			run: (*parser).callonDocumentFragment1391,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93180},
+																				pos:        position{line: 2944, col: 10, offset: 93182},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10357,28 +10357,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93578},
+																		pos: position{line: 2966, col: 8, offset: 93580},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonDocumentFragment1394,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10387,9 +10387,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93528},
+																				pos: position{line: 2963, col: 8, offset: 93530},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93529,
+																					line: 2963, col: 9, offset: 93531,
 																				},
 																			},
 																		},
@@ -10397,9 +10397,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93528},
+																pos: position{line: 2963, col: 8, offset: 93530},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93529,
+																	line: 2963, col: 9, offset: 93531,
 																},
 															},
 														},
@@ -10408,36 +10408,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2538, col: 22, offset: 81740},
+											pos: position{line: 2538, col: 22, offset: 81742},
 											run: (*parser).callonDocumentFragment1403,
 											expr: &seqExpr{
-												pos: position{line: 2538, col: 22, offset: 81740},
+												pos: position{line: 2538, col: 22, offset: 81742},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2543, col: 31, offset: 81990},
+														pos:        position{line: 2543, col: 31, offset: 81992},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2543, col: 36, offset: 81995},
+														pos: position{line: 2543, col: 36, offset: 81997},
 														expr: &litMatcher{
-															pos:        position{line: 2543, col: 37, offset: 81996},
+															pos:        position{line: 2543, col: 37, offset: 81998},
 															val:        "/",
 															ignoreCase: false,
 															want:       "\"/\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2538, col: 49, offset: 81767},
+														pos:   position{line: 2538, col: 49, offset: 81769},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2890, col: 13, offset: 91706},
+															pos: position{line: 2890, col: 13, offset: 91708},
 															run: (*parser).callonDocumentFragment1409,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2890, col: 13, offset: 91706},
+																pos: position{line: 2890, col: 13, offset: 91708},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2890, col: 13, offset: 91706},
+																	pos:        position{line: 2890, col: 13, offset: 91708},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10447,28 +10447,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2966, col: 8, offset: 93578},
+														pos: position{line: 2966, col: 8, offset: 93580},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93351},
+																pos: position{line: 2953, col: 12, offset: 93353},
 																run: (*parser).callonDocumentFragment1413,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93352},
+																	pos: position{line: 2953, col: 13, offset: 93354},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93352},
+																			pos:        position{line: 2953, col: 13, offset: 93354},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93359},
+																			pos:        position{line: 2953, col: 20, offset: 93361},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93368},
+																			pos:        position{line: 2953, col: 29, offset: 93370},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10477,9 +10477,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93528},
+																pos: position{line: 2963, col: 8, offset: 93530},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93529,
+																	line: 2963, col: 9, offset: 93531,
 																},
 															},
 														},
@@ -10488,37 +10488,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1247, col: 5, offset: 39001},
+											pos: position{line: 1247, col: 5, offset: 39003},
 											run: (*parser).callonDocumentFragment1420,
 											expr: &seqExpr{
-												pos: position{line: 1247, col: 5, offset: 39001},
+												pos: position{line: 1247, col: 5, offset: 39003},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1247, col: 5, offset: 39001},
+														pos: position{line: 1247, col: 5, offset: 39003},
 														run: (*parser).callonDocumentFragment1422,
 													},
 													&labeledExpr{
-														pos:   position{line: 1250, col: 5, offset: 39059},
+														pos:   position{line: 1250, col: 5, offset: 39061},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1255, col: 20, offset: 39154},
+															pos: position{line: 1255, col: 20, offset: 39156},
 															run: (*parser).callonDocumentFragment1424,
 															expr: &seqExpr{
-																pos: position{line: 1255, col: 20, offset: 39154},
+																pos: position{line: 1255, col: 20, offset: 39156},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1259, col: 30, offset: 39326},
+																		pos:        position{line: 1259, col: 30, offset: 39328},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1259, col: 36, offset: 39332},
+																		pos: position{line: 1259, col: 36, offset: 39334},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93180},
+																			pos: position{line: 2944, col: 10, offset: 93182},
 																			run: (*parser).callonDocumentFragment1428,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93180},
+																				pos:        position{line: 2944, col: 10, offset: 93182},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10527,28 +10527,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93578},
+																		pos: position{line: 2966, col: 8, offset: 93580},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonDocumentFragment1431,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10557,46 +10557,46 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93528},
+																				pos: position{line: 2963, col: 8, offset: 93530},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93529,
+																					line: 2963, col: 9, offset: 93531,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1255, col: 45, offset: 39179},
+																		pos:   position{line: 1255, col: 45, offset: 39181},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1255, col: 53, offset: 39187},
+																			pos: position{line: 1255, col: 53, offset: 39189},
 																			expr: &actionExpr{
-																				pos: position{line: 1261, col: 27, offset: 39370},
+																				pos: position{line: 1261, col: 27, offset: 39372},
 																				run: (*parser).callonDocumentFragment1440,
 																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1261, col: 27, offset: 39370},
+																					pos: position{line: 1261, col: 27, offset: 39372},
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1261, col: 28, offset: 39371},
+																						pos: position{line: 1261, col: 28, offset: 39373},
 																						expr: &seqExpr{
-																							pos: position{line: 1261, col: 29, offset: 39372},
+																							pos: position{line: 1261, col: 29, offset: 39374},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 1261, col: 29, offset: 39372},
+																									pos: position{line: 1261, col: 29, offset: 39374},
 																									expr: &seqExpr{
-																										pos: position{line: 1259, col: 30, offset: 39326},
+																										pos: position{line: 1259, col: 30, offset: 39328},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 1259, col: 30, offset: 39326},
+																												pos:        position{line: 1259, col: 30, offset: 39328},
 																												val:        "---",
 																												ignoreCase: false,
 																												want:       "\"---\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 1259, col: 36, offset: 39332},
+																												pos: position{line: 1259, col: 36, offset: 39334},
 																												expr: &actionExpr{
-																													pos: position{line: 2944, col: 10, offset: 93180},
+																													pos: position{line: 2944, col: 10, offset: 93182},
 																													run: (*parser).callonDocumentFragment1448,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2944, col: 10, offset: 93180},
+																														pos:        position{line: 2944, col: 10, offset: 93182},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10605,28 +10605,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2966, col: 8, offset: 93578},
+																												pos: position{line: 2966, col: 8, offset: 93580},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2953, col: 12, offset: 93351},
+																														pos: position{line: 2953, col: 12, offset: 93353},
 																														run: (*parser).callonDocumentFragment1451,
 																														expr: &choiceExpr{
-																															pos: position{line: 2953, col: 13, offset: 93352},
+																															pos: position{line: 2953, col: 13, offset: 93354},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 13, offset: 93352},
+																																	pos:        position{line: 2953, col: 13, offset: 93354},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 20, offset: 93359},
+																																	pos:        position{line: 2953, col: 20, offset: 93361},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 29, offset: 93368},
+																																	pos:        position{line: 2953, col: 29, offset: 93370},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10635,9 +10635,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2963, col: 8, offset: 93528},
+																														pos: position{line: 2963, col: 8, offset: 93530},
 																														expr: &anyMatcher{
-																															line: 2963, col: 9, offset: 93529,
+																															line: 2963, col: 9, offset: 93531,
 																														},
 																													},
 																												},
@@ -10646,7 +10646,7 @@ var g = &grammar{
 																									},
 																								},
 																								&anyMatcher{
-																									line: 1261, col: 55, offset: 39398,
+																									line: 1261, col: 55, offset: 39400,
 																								},
 																							},
 																						},
@@ -10656,18 +10656,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1259, col: 30, offset: 39326},
+																		pos:        position{line: 1259, col: 30, offset: 39328},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1259, col: 36, offset: 39332},
+																		pos: position{line: 1259, col: 36, offset: 39334},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93180},
+																			pos: position{line: 2944, col: 10, offset: 93182},
 																			run: (*parser).callonDocumentFragment1461,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93180},
+																				pos:        position{line: 2944, col: 10, offset: 93182},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10676,28 +10676,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93578},
+																		pos: position{line: 2966, col: 8, offset: 93580},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonDocumentFragment1464,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10706,9 +10706,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93528},
+																				pos: position{line: 2963, col: 8, offset: 93530},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93529,
+																					line: 2963, col: 9, offset: 93531,
 																				},
 																			},
 																		},
@@ -10758,27 +10758,27 @@ var g = &grammar{
 									pos: position{line: 284, col: 9, offset: 8489},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1223, col: 23, offset: 38060},
+											pos: position{line: 1223, col: 23, offset: 38062},
 											run: (*parser).callonDelimitedBlockElements7,
 											expr: &seqExpr{
-												pos: position{line: 1223, col: 23, offset: 38060},
+												pos: position{line: 1223, col: 23, offset: 38062},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1221, col: 32, offset: 38028},
+														pos:        position{line: 1221, col: 32, offset: 38030},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1223, col: 51, offset: 38088},
+														pos:   position{line: 1223, col: 51, offset: 38090},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1223, col: 56, offset: 38093},
+															pos: position{line: 1223, col: 56, offset: 38095},
 															run: (*parser).callonDelimitedBlockElements11,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1223, col: 56, offset: 38093},
+																pos: position{line: 1223, col: 56, offset: 38095},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1223, col: 56, offset: 38093},
+																	pos:        position{line: 1223, col: 56, offset: 38095},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -10788,13 +10788,13 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1221, col: 32, offset: 38028},
+														pos:        position{line: 1221, col: 32, offset: 38030},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 1223, col: 123, offset: 38160},
+														pos: position{line: 1223, col: 123, offset: 38162},
 														run: (*parser).callonDelimitedBlockElements15,
 													},
 												},
@@ -10809,9 +10809,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2963, col: 8, offset: 93528},
+							pos: position{line: 2963, col: 8, offset: 93530},
 							expr: &anyMatcher{
-								line: 2963, col: 9, offset: 93529,
+								line: 2963, col: 9, offset: 93531,
 							},
 						},
 					},
@@ -10883,12 +10883,12 @@ var g = &grammar{
 										pos: position{line: 307, col: 9, offset: 9333},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2948, col: 11, offset: 93241},
+												pos: position{line: 2948, col: 11, offset: 93243},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2948, col: 11, offset: 93241},
+													pos: position{line: 2948, col: 11, offset: 93243},
 													expr: &charClassMatcher{
-														pos:        position{line: 2948, col: 11, offset: 93241},
+														pos:        position{line: 2948, col: 11, offset: 93243},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10910,28 +10910,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2966, col: 8, offset: 93578},
+							pos: position{line: 2966, col: 8, offset: 93580},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2953, col: 12, offset: 93351},
+									pos: position{line: 2953, col: 12, offset: 93353},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2953, col: 13, offset: 93352},
+										pos: position{line: 2953, col: 13, offset: 93354},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2953, col: 13, offset: 93352},
+												pos:        position{line: 2953, col: 13, offset: 93354},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 20, offset: 93359},
+												pos:        position{line: 2953, col: 20, offset: 93361},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 29, offset: 93368},
+												pos:        position{line: 2953, col: 29, offset: 93370},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10940,9 +10940,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2963, col: 8, offset: 93528},
+									pos: position{line: 2963, col: 8, offset: 93530},
 									expr: &anyMatcher{
-										line: 2963, col: 9, offset: 93529,
+										line: 2963, col: 9, offset: 93531,
 									},
 								},
 							},
@@ -10986,25 +10986,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2953, col: 12, offset: 93351},
+												pos: position{line: 2953, col: 12, offset: 93353},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2953, col: 13, offset: 93352},
+													pos: position{line: 2953, col: 13, offset: 93354},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2953, col: 13, offset: 93352},
+															pos:        position{line: 2953, col: 13, offset: 93354},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2953, col: 20, offset: 93359},
+															pos:        position{line: 2953, col: 20, offset: 93361},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2953, col: 29, offset: 93368},
+															pos:        position{line: 2953, col: 29, offset: 93370},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -11015,10 +11015,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 328, col: 9, offset: 10035},
 												expr: &actionExpr{
-													pos: position{line: 2944, col: 10, offset: 93180},
+													pos: position{line: 2944, col: 10, offset: 93182},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2944, col: 10, offset: 93180},
+														pos:        position{line: 2944, col: 10, offset: 93182},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11088,10 +11088,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 346, col: 13, offset: 10580},
 										expr: &actionExpr{
-											pos: position{line: 2944, col: 10, offset: 93180},
+											pos: position{line: 2944, col: 10, offset: 93182},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2944, col: 10, offset: 93180},
+												pos:        position{line: 2944, col: 10, offset: 93182},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -11100,28 +11100,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2966, col: 8, offset: 93578},
+										pos: position{line: 2966, col: 8, offset: 93580},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2953, col: 12, offset: 93351},
+												pos: position{line: 2953, col: 12, offset: 93353},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2953, col: 13, offset: 93352},
+													pos: position{line: 2953, col: 13, offset: 93354},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2953, col: 13, offset: 93352},
+															pos:        position{line: 2953, col: 13, offset: 93354},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2953, col: 20, offset: 93359},
+															pos:        position{line: 2953, col: 20, offset: 93361},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2953, col: 29, offset: 93368},
+															pos:        position{line: 2953, col: 29, offset: 93370},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -11130,9 +11130,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2963, col: 8, offset: 93528},
+												pos: position{line: 2963, col: 8, offset: 93530},
 												expr: &anyMatcher{
-													line: 2963, col: 9, offset: 93529,
+													line: 2963, col: 9, offset: 93531,
 												},
 											},
 										},
@@ -11165,23 +11165,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2525, col: 5, offset: 81286},
+										pos: position{line: 2525, col: 5, offset: 81288},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 5, offset: 81286},
+											pos: position{line: 2525, col: 5, offset: 81288},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2525, col: 5, offset: 81286},
+													pos: position{line: 2525, col: 5, offset: 81288},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2528, col: 5, offset: 81362},
+													pos:   position{line: 2528, col: 5, offset: 81364},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2529, col: 9, offset: 81380},
+														pos: position{line: 2529, col: 9, offset: 81382},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2529, col: 10, offset: 81381},
+															pos:        position{line: 2529, col: 10, offset: 81383},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -11193,10 +11193,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2944, col: 10, offset: 93180},
+										pos: position{line: 2944, col: 10, offset: 93182},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2944, col: 10, offset: 93180},
+											pos:        position{line: 2944, col: 10, offset: 93182},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11204,35 +11204,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 661, col: 5, offset: 21195},
+										pos: position{line: 661, col: 5, offset: 21197},
 										run: (*parser).callonAttributeDeclarationValueElement32,
 										expr: &seqExpr{
-											pos: position{line: 661, col: 5, offset: 21195},
+											pos: position{line: 661, col: 5, offset: 21197},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 661, col: 5, offset: 21195},
+													pos: position{line: 661, col: 5, offset: 21197},
 													run: (*parser).callonAttributeDeclarationValueElement34,
 												},
 												&labeledExpr{
-													pos:   position{line: 664, col: 5, offset: 21267},
+													pos:   position{line: 664, col: 5, offset: 21269},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 664, col: 14, offset: 21276},
+														pos: position{line: 664, col: 14, offset: 21278},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 670, col: 5, offset: 21405},
+																pos: position{line: 670, col: 5, offset: 21407},
 																run: (*parser).callonAttributeDeclarationValueElement37,
 																expr: &seqExpr{
-																	pos: position{line: 670, col: 5, offset: 21405},
+																	pos: position{line: 670, col: 5, offset: 21407},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 670, col: 5, offset: 21405},
+																			pos:        position{line: 670, col: 5, offset: 21407},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 670, col: 13, offset: 21413},
+																			pos:   position{line: 670, col: 13, offset: 21415},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -11264,7 +11264,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 670, col: 32, offset: 21432},
+																			pos:        position{line: 670, col: 32, offset: 21434},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11273,19 +11273,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 677, col: 5, offset: 21673},
+																pos: position{line: 677, col: 5, offset: 21675},
 																run: (*parser).callonAttributeDeclarationValueElement47,
 																expr: &seqExpr{
-																	pos: position{line: 677, col: 5, offset: 21673},
+																	pos: position{line: 677, col: 5, offset: 21675},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 677, col: 5, offset: 21673},
+																			pos:        position{line: 677, col: 5, offset: 21675},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 677, col: 9, offset: 21677},
+																			pos:   position{line: 677, col: 9, offset: 21679},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -11317,7 +11317,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 677, col: 28, offset: 21696},
+																			pos:        position{line: 677, col: 28, offset: 21698},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11326,19 +11326,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 683, col: 25, offset: 21877},
+																pos: position{line: 683, col: 25, offset: 21879},
 																run: (*parser).callonAttributeDeclarationValueElement57,
 																expr: &seqExpr{
-																	pos: position{line: 683, col: 25, offset: 21877},
+																	pos: position{line: 683, col: 25, offset: 21879},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 683, col: 25, offset: 21877},
+																			pos:        position{line: 683, col: 25, offset: 21879},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 683, col: 37, offset: 21889},
+																			pos:   position{line: 683, col: 37, offset: 21891},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -11370,33 +11370,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 683, col: 56, offset: 21908},
+																			pos:   position{line: 683, col: 56, offset: 21910},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 683, col: 62, offset: 21914},
+																				pos: position{line: 683, col: 62, offset: 21916},
 																				expr: &actionExpr{
-																					pos: position{line: 691, col: 17, offset: 22211},
+																					pos: position{line: 691, col: 17, offset: 22213},
 																					run: (*parser).callonAttributeDeclarationValueElement68,
 																					expr: &seqExpr{
-																						pos: position{line: 691, col: 17, offset: 22211},
+																						pos: position{line: 691, col: 17, offset: 22213},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 691, col: 17, offset: 22211},
+																								pos:        position{line: 691, col: 17, offset: 22213},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 691, col: 21, offset: 22215},
+																								pos:   position{line: 691, col: 21, offset: 22217},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 691, col: 28, offset: 22222},
+																									pos: position{line: 691, col: 28, offset: 22224},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 691, col: 28, offset: 22222},
+																											pos: position{line: 691, col: 28, offset: 22224},
 																											run: (*parser).callonAttributeDeclarationValueElement73,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 691, col: 28, offset: 22222},
+																												pos:        position{line: 691, col: 28, offset: 22224},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11404,12 +11404,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 693, col: 9, offset: 22276},
+																											pos: position{line: 693, col: 9, offset: 22278},
 																											run: (*parser).callonAttributeDeclarationValueElement75,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 693, col: 9, offset: 22276},
+																												pos: position{line: 693, col: 9, offset: 22278},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 693, col: 9, offset: 22276},
+																													pos:        position{line: 693, col: 9, offset: 22278},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11426,7 +11426,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 683, col: 78, offset: 21930},
+																			pos:        position{line: 683, col: 78, offset: 21932},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11435,19 +11435,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 687, col: 25, offset: 22048},
+																pos: position{line: 687, col: 25, offset: 22050},
 																run: (*parser).callonAttributeDeclarationValueElement79,
 																expr: &seqExpr{
-																	pos: position{line: 687, col: 25, offset: 22048},
+																	pos: position{line: 687, col: 25, offset: 22050},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 687, col: 25, offset: 22048},
+																			pos:        position{line: 687, col: 25, offset: 22050},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 687, col: 38, offset: 22061},
+																			pos:   position{line: 687, col: 38, offset: 22063},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -11479,33 +11479,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 687, col: 57, offset: 22080},
+																			pos:   position{line: 687, col: 57, offset: 22082},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 687, col: 63, offset: 22086},
+																				pos: position{line: 687, col: 63, offset: 22088},
 																				expr: &actionExpr{
-																					pos: position{line: 691, col: 17, offset: 22211},
+																					pos: position{line: 691, col: 17, offset: 22213},
 																					run: (*parser).callonAttributeDeclarationValueElement90,
 																					expr: &seqExpr{
-																						pos: position{line: 691, col: 17, offset: 22211},
+																						pos: position{line: 691, col: 17, offset: 22213},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 691, col: 17, offset: 22211},
+																								pos:        position{line: 691, col: 17, offset: 22213},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 691, col: 21, offset: 22215},
+																								pos:   position{line: 691, col: 21, offset: 22217},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 691, col: 28, offset: 22222},
+																									pos: position{line: 691, col: 28, offset: 22224},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 691, col: 28, offset: 22222},
+																											pos: position{line: 691, col: 28, offset: 22224},
 																											run: (*parser).callonAttributeDeclarationValueElement95,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 691, col: 28, offset: 22222},
+																												pos:        position{line: 691, col: 28, offset: 22224},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11513,12 +11513,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 693, col: 9, offset: 22276},
+																											pos: position{line: 693, col: 9, offset: 22278},
 																											run: (*parser).callonAttributeDeclarationValueElement97,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 693, col: 9, offset: 22276},
+																												pos: position{line: 693, col: 9, offset: 22278},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 693, col: 9, offset: 22276},
+																													pos:        position{line: 693, col: 9, offset: 22278},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11535,7 +11535,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 687, col: 79, offset: 22102},
+																			pos:        position{line: 687, col: 79, offset: 22104},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11620,27 +11620,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1223, col: 23, offset: 38060},
+																						pos: position{line: 1223, col: 23, offset: 38062},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1223, col: 23, offset: 38060},
+																							pos: position{line: 1223, col: 23, offset: 38062},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1221, col: 32, offset: 38028},
+																									pos:        position{line: 1221, col: 32, offset: 38030},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1223, col: 51, offset: 38088},
+																									pos:   position{line: 1223, col: 51, offset: 38090},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1223, col: 56, offset: 38093},
+																										pos: position{line: 1223, col: 56, offset: 38095},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1223, col: 56, offset: 38093},
+																											pos: position{line: 1223, col: 56, offset: 38095},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1223, col: 56, offset: 38093},
+																												pos:        position{line: 1223, col: 56, offset: 38095},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11650,48 +11650,48 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1221, col: 32, offset: 38028},
+																									pos:        position{line: 1221, col: 32, offset: 38030},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&andCodeExpr{
-																									pos: position{line: 1223, col: 123, offset: 38160},
+																									pos: position{line: 1223, col: 123, offset: 38162},
 																									run: (*parser).callonBlockAttributes27,
 																								},
 																							},
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 661, col: 5, offset: 21195},
+																						pos: position{line: 661, col: 5, offset: 21197},
 																						run: (*parser).callonBlockAttributes28,
 																						expr: &seqExpr{
-																							pos: position{line: 661, col: 5, offset: 21195},
+																							pos: position{line: 661, col: 5, offset: 21197},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 661, col: 5, offset: 21195},
+																									pos: position{line: 661, col: 5, offset: 21197},
 																									run: (*parser).callonBlockAttributes30,
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 664, col: 5, offset: 21267},
+																									pos:   position{line: 664, col: 5, offset: 21269},
 																									label: "element",
 																									expr: &choiceExpr{
-																										pos: position{line: 664, col: 14, offset: 21276},
+																										pos: position{line: 664, col: 14, offset: 21278},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 670, col: 5, offset: 21405},
+																												pos: position{line: 670, col: 5, offset: 21407},
 																												run: (*parser).callonBlockAttributes33,
 																												expr: &seqExpr{
-																													pos: position{line: 670, col: 5, offset: 21405},
+																													pos: position{line: 670, col: 5, offset: 21407},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 670, col: 5, offset: 21405},
+																															pos:        position{line: 670, col: 5, offset: 21407},
 																															val:        "\\{",
 																															ignoreCase: false,
 																															want:       "\"\\\\{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 670, col: 13, offset: 21413},
+																															pos:   position{line: 670, col: 13, offset: 21415},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 320, col: 18, offset: 9837},
@@ -11723,7 +11723,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 670, col: 32, offset: 21432},
+																															pos:        position{line: 670, col: 32, offset: 21434},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11732,19 +11732,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 677, col: 5, offset: 21673},
+																												pos: position{line: 677, col: 5, offset: 21675},
 																												run: (*parser).callonBlockAttributes43,
 																												expr: &seqExpr{
-																													pos: position{line: 677, col: 5, offset: 21673},
+																													pos: position{line: 677, col: 5, offset: 21675},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 677, col: 5, offset: 21673},
+																															pos:        position{line: 677, col: 5, offset: 21675},
 																															val:        "{",
 																															ignoreCase: false,
 																															want:       "\"{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 677, col: 9, offset: 21677},
+																															pos:   position{line: 677, col: 9, offset: 21679},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 320, col: 18, offset: 9837},
@@ -11776,7 +11776,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 677, col: 28, offset: 21696},
+																															pos:        position{line: 677, col: 28, offset: 21698},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11785,19 +11785,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 683, col: 25, offset: 21877},
+																												pos: position{line: 683, col: 25, offset: 21879},
 																												run: (*parser).callonBlockAttributes53,
 																												expr: &seqExpr{
-																													pos: position{line: 683, col: 25, offset: 21877},
+																													pos: position{line: 683, col: 25, offset: 21879},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 683, col: 25, offset: 21877},
+																															pos:        position{line: 683, col: 25, offset: 21879},
 																															val:        "{counter:",
 																															ignoreCase: false,
 																															want:       "\"{counter:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 683, col: 37, offset: 21889},
+																															pos:   position{line: 683, col: 37, offset: 21891},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 320, col: 18, offset: 9837},
@@ -11829,33 +11829,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 683, col: 56, offset: 21908},
+																															pos:   position{line: 683, col: 56, offset: 21910},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 683, col: 62, offset: 21914},
+																																pos: position{line: 683, col: 62, offset: 21916},
 																																expr: &actionExpr{
-																																	pos: position{line: 691, col: 17, offset: 22211},
+																																	pos: position{line: 691, col: 17, offset: 22213},
 																																	run: (*parser).callonBlockAttributes64,
 																																	expr: &seqExpr{
-																																		pos: position{line: 691, col: 17, offset: 22211},
+																																		pos: position{line: 691, col: 17, offset: 22213},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 691, col: 17, offset: 22211},
+																																				pos:        position{line: 691, col: 17, offset: 22213},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 691, col: 21, offset: 22215},
+																																				pos:   position{line: 691, col: 21, offset: 22217},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 691, col: 28, offset: 22222},
+																																					pos: position{line: 691, col: 28, offset: 22224},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 691, col: 28, offset: 22222},
+																																							pos: position{line: 691, col: 28, offset: 22224},
 																																							run: (*parser).callonBlockAttributes69,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 691, col: 28, offset: 22222},
+																																								pos:        position{line: 691, col: 28, offset: 22224},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11863,12 +11863,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 693, col: 9, offset: 22276},
+																																							pos: position{line: 693, col: 9, offset: 22278},
 																																							run: (*parser).callonBlockAttributes71,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 693, col: 9, offset: 22276},
+																																								pos: position{line: 693, col: 9, offset: 22278},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 693, col: 9, offset: 22276},
+																																									pos:        position{line: 693, col: 9, offset: 22278},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11885,7 +11885,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 683, col: 78, offset: 21930},
+																															pos:        position{line: 683, col: 78, offset: 21932},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11894,19 +11894,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 687, col: 25, offset: 22048},
+																												pos: position{line: 687, col: 25, offset: 22050},
 																												run: (*parser).callonBlockAttributes75,
 																												expr: &seqExpr{
-																													pos: position{line: 687, col: 25, offset: 22048},
+																													pos: position{line: 687, col: 25, offset: 22050},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 687, col: 25, offset: 22048},
+																															pos:        position{line: 687, col: 25, offset: 22050},
 																															val:        "{counter2:",
 																															ignoreCase: false,
 																															want:       "\"{counter2:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 687, col: 38, offset: 22061},
+																															pos:   position{line: 687, col: 38, offset: 22063},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 320, col: 18, offset: 9837},
@@ -11938,33 +11938,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 687, col: 57, offset: 22080},
+																															pos:   position{line: 687, col: 57, offset: 22082},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 687, col: 63, offset: 22086},
+																																pos: position{line: 687, col: 63, offset: 22088},
 																																expr: &actionExpr{
-																																	pos: position{line: 691, col: 17, offset: 22211},
+																																	pos: position{line: 691, col: 17, offset: 22213},
 																																	run: (*parser).callonBlockAttributes86,
 																																	expr: &seqExpr{
-																																		pos: position{line: 691, col: 17, offset: 22211},
+																																		pos: position{line: 691, col: 17, offset: 22213},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 691, col: 17, offset: 22211},
+																																				pos:        position{line: 691, col: 17, offset: 22213},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 691, col: 21, offset: 22215},
+																																				pos:   position{line: 691, col: 21, offset: 22217},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 691, col: 28, offset: 22222},
+																																					pos: position{line: 691, col: 28, offset: 22224},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 691, col: 28, offset: 22222},
+																																							pos: position{line: 691, col: 28, offset: 22224},
 																																							run: (*parser).callonBlockAttributes91,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 691, col: 28, offset: 22222},
+																																								pos:        position{line: 691, col: 28, offset: 22224},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11972,12 +11972,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 693, col: 9, offset: 22276},
+																																							pos: position{line: 693, col: 9, offset: 22278},
 																																							run: (*parser).callonBlockAttributes93,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 693, col: 9, offset: 22276},
+																																								pos: position{line: 693, col: 9, offset: 22278},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 693, col: 9, offset: 22276},
+																																									pos:        position{line: 693, col: 9, offset: 22278},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11994,7 +11994,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 687, col: 79, offset: 22102},
+																															pos:        position{line: 687, col: 79, offset: 22104},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -12037,10 +12037,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 374, col: 35, offset: 11589},
 												expr: &actionExpr{
-													pos: position{line: 2944, col: 10, offset: 93180},
+													pos: position{line: 2944, col: 10, offset: 93182},
 													run: (*parser).callonBlockAttributes101,
 													expr: &charClassMatcher{
-														pos:        position{line: 2944, col: 10, offset: 93180},
+														pos:        position{line: 2944, col: 10, offset: 93182},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12049,28 +12049,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2966, col: 8, offset: 93578},
+												pos: position{line: 2966, col: 8, offset: 93580},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2953, col: 12, offset: 93351},
+														pos: position{line: 2953, col: 12, offset: 93353},
 														run: (*parser).callonBlockAttributes104,
 														expr: &choiceExpr{
-															pos: position{line: 2953, col: 13, offset: 93352},
+															pos: position{line: 2953, col: 13, offset: 93354},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2953, col: 13, offset: 93352},
+																	pos:        position{line: 2953, col: 13, offset: 93354},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2953, col: 20, offset: 93359},
+																	pos:        position{line: 2953, col: 20, offset: 93361},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2953, col: 29, offset: 93368},
+																	pos:        position{line: 2953, col: 29, offset: 93370},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12079,9 +12079,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2963, col: 8, offset: 93528},
+														pos: position{line: 2963, col: 8, offset: 93530},
 														expr: &anyMatcher{
-															line: 2963, col: 9, offset: 93529,
+															line: 2963, col: 9, offset: 93531,
 														},
 													},
 												},
@@ -12092,24 +12092,24 @@ var g = &grammar{
 													pos: position{line: 374, col: 47, offset: 11601},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 702, col: 14, offset: 22577},
+															pos: position{line: 702, col: 14, offset: 22579},
 															run: (*parser).callonBlockAttributes113,
 															expr: &seqExpr{
-																pos: position{line: 702, col: 14, offset: 22577},
+																pos: position{line: 702, col: 14, offset: 22579},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2961, col: 11, offset: 93514},
+																		pos: position{line: 2961, col: 11, offset: 93516},
 																		expr: &anyMatcher{
-																			line: 2961, col: 13, offset: 93516,
+																			line: 2961, col: 13, offset: 93518,
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 702, col: 21, offset: 22584},
+																		pos: position{line: 702, col: 21, offset: 22586},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93180},
+																			pos: position{line: 2944, col: 10, offset: 93182},
 																			run: (*parser).callonBlockAttributes118,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93180},
+																				pos:        position{line: 2944, col: 10, offset: 93182},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12118,28 +12118,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93578},
+																		pos: position{line: 2966, col: 8, offset: 93580},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonBlockAttributes121,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12148,9 +12148,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93528},
+																				pos: position{line: 2963, col: 8, offset: 93530},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93529,
+																					line: 2963, col: 9, offset: 93531,
 																				},
 																			},
 																		},
@@ -12159,36 +12159,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2538, col: 22, offset: 81740},
+															pos: position{line: 2538, col: 22, offset: 81742},
 															run: (*parser).callonBlockAttributes128,
 															expr: &seqExpr{
-																pos: position{line: 2538, col: 22, offset: 81740},
+																pos: position{line: 2538, col: 22, offset: 81742},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2543, col: 31, offset: 81990},
+																		pos:        position{line: 2543, col: 31, offset: 81992},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2543, col: 36, offset: 81995},
+																		pos: position{line: 2543, col: 36, offset: 81997},
 																		expr: &litMatcher{
-																			pos:        position{line: 2543, col: 37, offset: 81996},
+																			pos:        position{line: 2543, col: 37, offset: 81998},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2538, col: 49, offset: 81767},
+																		pos:   position{line: 2538, col: 49, offset: 81769},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2890, col: 13, offset: 91706},
+																			pos: position{line: 2890, col: 13, offset: 91708},
 																			run: (*parser).callonBlockAttributes134,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2890, col: 13, offset: 91706},
+																				pos: position{line: 2890, col: 13, offset: 91708},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2890, col: 13, offset: 91706},
+																					pos:        position{line: 2890, col: 13, offset: 91708},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12198,28 +12198,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93578},
+																		pos: position{line: 2966, col: 8, offset: 93580},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonBlockAttributes138,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12228,9 +12228,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93528},
+																				pos: position{line: 2963, col: 8, offset: 93530},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93529,
+																					line: 2963, col: 9, offset: 93531,
 																				},
 																			},
 																		},
@@ -12261,10 +12261,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 378, col: 35, offset: 11766},
 												expr: &actionExpr{
-													pos: position{line: 2944, col: 10, offset: 93180},
+													pos: position{line: 2944, col: 10, offset: 93182},
 													run: (*parser).callonBlockAttributes150,
 													expr: &charClassMatcher{
-														pos:        position{line: 2944, col: 10, offset: 93180},
+														pos:        position{line: 2944, col: 10, offset: 93182},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12273,28 +12273,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2966, col: 8, offset: 93578},
+												pos: position{line: 2966, col: 8, offset: 93580},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2953, col: 12, offset: 93351},
+														pos: position{line: 2953, col: 12, offset: 93353},
 														run: (*parser).callonBlockAttributes153,
 														expr: &choiceExpr{
-															pos: position{line: 2953, col: 13, offset: 93352},
+															pos: position{line: 2953, col: 13, offset: 93354},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2953, col: 13, offset: 93352},
+																	pos:        position{line: 2953, col: 13, offset: 93354},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2953, col: 20, offset: 93359},
+																	pos:        position{line: 2953, col: 20, offset: 93361},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2953, col: 29, offset: 93368},
+																	pos:        position{line: 2953, col: 29, offset: 93370},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12303,9 +12303,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2963, col: 8, offset: 93528},
+														pos: position{line: 2963, col: 8, offset: 93530},
 														expr: &anyMatcher{
-															line: 2963, col: 9, offset: 93529,
+															line: 2963, col: 9, offset: 93531,
 														},
 													},
 												},
@@ -12316,24 +12316,24 @@ var g = &grammar{
 													pos: position{line: 378, col: 47, offset: 11778},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 702, col: 14, offset: 22577},
+															pos: position{line: 702, col: 14, offset: 22579},
 															run: (*parser).callonBlockAttributes162,
 															expr: &seqExpr{
-																pos: position{line: 702, col: 14, offset: 22577},
+																pos: position{line: 702, col: 14, offset: 22579},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2961, col: 11, offset: 93514},
+																		pos: position{line: 2961, col: 11, offset: 93516},
 																		expr: &anyMatcher{
-																			line: 2961, col: 13, offset: 93516,
+																			line: 2961, col: 13, offset: 93518,
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 702, col: 21, offset: 22584},
+																		pos: position{line: 702, col: 21, offset: 22586},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93180},
+																			pos: position{line: 2944, col: 10, offset: 93182},
 																			run: (*parser).callonBlockAttributes167,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93180},
+																				pos:        position{line: 2944, col: 10, offset: 93182},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12342,28 +12342,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93578},
+																		pos: position{line: 2966, col: 8, offset: 93580},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonBlockAttributes170,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12372,9 +12372,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93528},
+																				pos: position{line: 2963, col: 8, offset: 93530},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93529,
+																					line: 2963, col: 9, offset: 93531,
 																				},
 																			},
 																		},
@@ -12383,36 +12383,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2538, col: 22, offset: 81740},
+															pos: position{line: 2538, col: 22, offset: 81742},
 															run: (*parser).callonBlockAttributes177,
 															expr: &seqExpr{
-																pos: position{line: 2538, col: 22, offset: 81740},
+																pos: position{line: 2538, col: 22, offset: 81742},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2543, col: 31, offset: 81990},
+																		pos:        position{line: 2543, col: 31, offset: 81992},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2543, col: 36, offset: 81995},
+																		pos: position{line: 2543, col: 36, offset: 81997},
 																		expr: &litMatcher{
-																			pos:        position{line: 2543, col: 37, offset: 81996},
+																			pos:        position{line: 2543, col: 37, offset: 81998},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2538, col: 49, offset: 81767},
+																		pos:   position{line: 2538, col: 49, offset: 81769},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2890, col: 13, offset: 91706},
+																			pos: position{line: 2890, col: 13, offset: 91708},
 																			run: (*parser).callonBlockAttributes183,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2890, col: 13, offset: 91706},
+																				pos: position{line: 2890, col: 13, offset: 91708},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2890, col: 13, offset: 91706},
+																					pos:        position{line: 2890, col: 13, offset: 91708},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12422,28 +12422,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93578},
+																		pos: position{line: 2966, col: 8, offset: 93580},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonBlockAttributes187,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12452,9 +12452,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93528},
+																				pos: position{line: 2963, col: 8, offset: 93530},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93529,
+																					line: 2963, col: 9, offset: 93531,
 																				},
 																			},
 																		},
@@ -12485,10 +12485,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 382, col: 44, offset: 11922},
 												expr: &actionExpr{
-													pos: position{line: 2944, col: 10, offset: 93180},
+													pos: position{line: 2944, col: 10, offset: 93182},
 													run: (*parser).callonBlockAttributes199,
 													expr: &charClassMatcher{
-														pos:        position{line: 2944, col: 10, offset: 93180},
+														pos:        position{line: 2944, col: 10, offset: 93182},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12497,28 +12497,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2966, col: 8, offset: 93578},
+												pos: position{line: 2966, col: 8, offset: 93580},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2953, col: 12, offset: 93351},
+														pos: position{line: 2953, col: 12, offset: 93353},
 														run: (*parser).callonBlockAttributes202,
 														expr: &choiceExpr{
-															pos: position{line: 2953, col: 13, offset: 93352},
+															pos: position{line: 2953, col: 13, offset: 93354},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2953, col: 13, offset: 93352},
+																	pos:        position{line: 2953, col: 13, offset: 93354},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2953, col: 20, offset: 93359},
+																	pos:        position{line: 2953, col: 20, offset: 93361},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2953, col: 29, offset: 93368},
+																	pos:        position{line: 2953, col: 29, offset: 93370},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12527,9 +12527,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2963, col: 8, offset: 93528},
+														pos: position{line: 2963, col: 8, offset: 93530},
 														expr: &anyMatcher{
-															line: 2963, col: 9, offset: 93529,
+															line: 2963, col: 9, offset: 93531,
 														},
 													},
 												},
@@ -12540,24 +12540,24 @@ var g = &grammar{
 													pos: position{line: 382, col: 56, offset: 11934},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 702, col: 14, offset: 22577},
+															pos: position{line: 702, col: 14, offset: 22579},
 															run: (*parser).callonBlockAttributes211,
 															expr: &seqExpr{
-																pos: position{line: 702, col: 14, offset: 22577},
+																pos: position{line: 702, col: 14, offset: 22579},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2961, col: 11, offset: 93514},
+																		pos: position{line: 2961, col: 11, offset: 93516},
 																		expr: &anyMatcher{
-																			line: 2961, col: 13, offset: 93516,
+																			line: 2961, col: 13, offset: 93518,
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 702, col: 21, offset: 22584},
+																		pos: position{line: 702, col: 21, offset: 22586},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93180},
+																			pos: position{line: 2944, col: 10, offset: 93182},
 																			run: (*parser).callonBlockAttributes216,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93180},
+																				pos:        position{line: 2944, col: 10, offset: 93182},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12566,28 +12566,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93578},
+																		pos: position{line: 2966, col: 8, offset: 93580},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonBlockAttributes219,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12596,9 +12596,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93528},
+																				pos: position{line: 2963, col: 8, offset: 93530},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93529,
+																					line: 2963, col: 9, offset: 93531,
 																				},
 																			},
 																		},
@@ -12607,36 +12607,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2538, col: 22, offset: 81740},
+															pos: position{line: 2538, col: 22, offset: 81742},
 															run: (*parser).callonBlockAttributes226,
 															expr: &seqExpr{
-																pos: position{line: 2538, col: 22, offset: 81740},
+																pos: position{line: 2538, col: 22, offset: 81742},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2543, col: 31, offset: 81990},
+																		pos:        position{line: 2543, col: 31, offset: 81992},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2543, col: 36, offset: 81995},
+																		pos: position{line: 2543, col: 36, offset: 81997},
 																		expr: &litMatcher{
-																			pos:        position{line: 2543, col: 37, offset: 81996},
+																			pos:        position{line: 2543, col: 37, offset: 81998},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2538, col: 49, offset: 81767},
+																		pos:   position{line: 2538, col: 49, offset: 81769},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2890, col: 13, offset: 91706},
+																			pos: position{line: 2890, col: 13, offset: 91708},
 																			run: (*parser).callonBlockAttributes232,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2890, col: 13, offset: 91706},
+																				pos: position{line: 2890, col: 13, offset: 91708},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2890, col: 13, offset: 91706},
+																					pos:        position{line: 2890, col: 13, offset: 91708},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12646,28 +12646,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93578},
+																		pos: position{line: 2966, col: 8, offset: 93580},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonBlockAttributes236,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12676,9 +12676,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93528},
+																				pos: position{line: 2963, col: 8, offset: 93530},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93529,
+																					line: 2963, col: 9, offset: 93531,
 																				},
 																			},
 																		},
@@ -12784,31 +12784,31 @@ var g = &grammar{
 							pos: position{line: 426, col: 5, offset: 13101},
 							expr: &charClassMatcher{
 								pos:        position{line: 426, col: 6, offset: 13102},
-								val:        "[. ]",
-								chars:      []rune{'.', ' '},
+								val:        "[. \\t]",
+								chars:      []rune{'.', ' ', '\t'},
 								ignoreCase: false,
 								inverted:   false,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 427, col: 5, offset: 13214},
+							pos:   position{line: 427, col: 5, offset: 13216},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 427, col: 14, offset: 13223},
+								pos: position{line: 427, col: 14, offset: 13225},
 								expr: &choiceExpr{
-									pos: position{line: 428, col: 9, offset: 13233},
+									pos: position{line: 428, col: 9, offset: 13235},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 428, col: 9, offset: 13233},
+											pos:  position{line: 428, col: 9, offset: 13235},
 											name: "TitlePassthrough",
 										},
 										&actionExpr{
-											pos: position{line: 2838, col: 14, offset: 90349},
+											pos: position{line: 2838, col: 14, offset: 90351},
 											run: (*parser).callonShortHandTitle10,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2838, col: 14, offset: 90349},
+												pos: position{line: 2838, col: 14, offset: 90351},
 												expr: &charClassMatcher{
-													pos:        position{line: 2838, col: 14, offset: 90349},
+													pos:        position{line: 2838, col: 14, offset: 90351},
 													val:        "[\\pL\\pN]",
 													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 													ignoreCase: false,
@@ -12817,10 +12817,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2944, col: 10, offset: 93180},
+											pos: position{line: 2944, col: 10, offset: 93182},
 											run: (*parser).callonShortHandTitle13,
 											expr: &charClassMatcher{
-												pos:        position{line: 2944, col: 10, offset: 93180},
+												pos:        position{line: 2944, col: 10, offset: 93182},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -12828,27 +12828,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2861, col: 5, offset: 90834},
+											pos: position{line: 2861, col: 5, offset: 90836},
 											run: (*parser).callonShortHandTitle15,
 											expr: &choiceExpr{
-												pos: position{line: 2862, col: 9, offset: 90844},
+												pos: position{line: 2862, col: 9, offset: 90846},
 												alternatives: []interface{}{
 													&charClassMatcher{
-														pos:        position{line: 2862, col: 10, offset: 90845},
+														pos:        position{line: 2862, col: 10, offset: 90847},
 														val:        "[.,;?)!/:\"\\@=-]",
 														chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 														ignoreCase: false,
 														inverted:   false,
 													},
 													&seqExpr{
-														pos: position{line: 2864, col: 13, offset: 90942},
+														pos: position{line: 2864, col: 13, offset: 90944},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2864, col: 13, offset: 90942},
+																pos: position{line: 2864, col: 13, offset: 90944},
 																run: (*parser).callonShortHandTitle19,
 															},
 															&litMatcher{
-																pos:        position{line: 2867, col: 13, offset: 91042},
+																pos:        position{line: 2867, col: 13, offset: 91044},
 																val:        "[",
 																ignoreCase: false,
 																want:       "\"[\"",
@@ -12856,20 +12856,20 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 2867, col: 19, offset: 91048},
+														pos:        position{line: 2867, col: 19, offset: 91050},
 														val:        "]",
 														ignoreCase: false,
 														want:       "\"]\"",
 													},
 													&seqExpr{
-														pos: position{line: 2870, col: 13, offset: 91086},
+														pos: position{line: 2870, col: 13, offset: 91088},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2870, col: 13, offset: 91086},
+																pos: position{line: 2870, col: 13, offset: 91088},
 																run: (*parser).callonShortHandTitle23,
 															},
 															&charClassMatcher{
-																pos:        position{line: 2873, col: 14, offset: 91179},
+																pos:        position{line: 2873, col: 14, offset: 91181},
 																val:        "[*_`#]",
 																chars:      []rune{'*', '_', '`', '#'},
 																ignoreCase: false,
@@ -12878,18 +12878,18 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2875, col: 12, offset: 91223},
+														pos: position{line: 2875, col: 12, offset: 91225},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2875, col: 12, offset: 91223},
+																pos:        position{line: 2875, col: 12, offset: 91225},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
 															},
 															&notExpr{
-																pos: position{line: 2875, col: 16, offset: 91227},
+																pos: position{line: 2875, col: 16, offset: 91229},
 																expr: &litMatcher{
-																	pos:        position{line: 2875, col: 17, offset: 91228},
+																	pos:        position{line: 2875, col: 17, offset: 91230},
 																	val:        "(",
 																	ignoreCase: false,
 																	want:       "\"(\"",
@@ -12901,19 +12901,19 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 670, col: 5, offset: 21405},
+											pos: position{line: 670, col: 5, offset: 21407},
 											run: (*parser).callonShortHandTitle29,
 											expr: &seqExpr{
-												pos: position{line: 670, col: 5, offset: 21405},
+												pos: position{line: 670, col: 5, offset: 21407},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 670, col: 5, offset: 21405},
+														pos:        position{line: 670, col: 5, offset: 21407},
 														val:        "\\{",
 														ignoreCase: false,
 														want:       "\"\\\\{\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 670, col: 13, offset: 21413},
+														pos:   position{line: 670, col: 13, offset: 21415},
 														label: "name",
 														expr: &actionExpr{
 															pos: position{line: 320, col: 18, offset: 9837},
@@ -12945,7 +12945,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 670, col: 32, offset: 21432},
+														pos:        position{line: 670, col: 32, offset: 21434},
 														val:        "}",
 														ignoreCase: false,
 														want:       "\"}\"",
@@ -12954,19 +12954,19 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 677, col: 5, offset: 21673},
+											pos: position{line: 677, col: 5, offset: 21675},
 											run: (*parser).callonShortHandTitle39,
 											expr: &seqExpr{
-												pos: position{line: 677, col: 5, offset: 21673},
+												pos: position{line: 677, col: 5, offset: 21675},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 677, col: 5, offset: 21673},
+														pos:        position{line: 677, col: 5, offset: 21675},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 677, col: 9, offset: 21677},
+														pos:   position{line: 677, col: 9, offset: 21679},
 														label: "name",
 														expr: &actionExpr{
 															pos: position{line: 320, col: 18, offset: 9837},
@@ -12998,7 +12998,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 677, col: 28, offset: 21696},
+														pos:        position{line: 677, col: 28, offset: 21698},
 														val:        "}",
 														ignoreCase: false,
 														want:       "\"}\"",
@@ -13007,19 +13007,19 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 683, col: 25, offset: 21877},
+											pos: position{line: 683, col: 25, offset: 21879},
 											run: (*parser).callonShortHandTitle49,
 											expr: &seqExpr{
-												pos: position{line: 683, col: 25, offset: 21877},
+												pos: position{line: 683, col: 25, offset: 21879},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 683, col: 25, offset: 21877},
+														pos:        position{line: 683, col: 25, offset: 21879},
 														val:        "{counter:",
 														ignoreCase: false,
 														want:       "\"{counter:\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 683, col: 37, offset: 21889},
+														pos:   position{line: 683, col: 37, offset: 21891},
 														label: "name",
 														expr: &actionExpr{
 															pos: position{line: 320, col: 18, offset: 9837},
@@ -13051,33 +13051,33 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 683, col: 56, offset: 21908},
+														pos:   position{line: 683, col: 56, offset: 21910},
 														label: "start",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 683, col: 62, offset: 21914},
+															pos: position{line: 683, col: 62, offset: 21916},
 															expr: &actionExpr{
-																pos: position{line: 691, col: 17, offset: 22211},
+																pos: position{line: 691, col: 17, offset: 22213},
 																run: (*parser).callonShortHandTitle60,
 																expr: &seqExpr{
-																	pos: position{line: 691, col: 17, offset: 22211},
+																	pos: position{line: 691, col: 17, offset: 22213},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 691, col: 17, offset: 22211},
+																			pos:        position{line: 691, col: 17, offset: 22213},
 																			val:        ":",
 																			ignoreCase: false,
 																			want:       "\":\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 691, col: 21, offset: 22215},
+																			pos:   position{line: 691, col: 21, offset: 22217},
 																			label: "start",
 																			expr: &choiceExpr{
-																				pos: position{line: 691, col: 28, offset: 22222},
+																				pos: position{line: 691, col: 28, offset: 22224},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 691, col: 28, offset: 22222},
+																						pos: position{line: 691, col: 28, offset: 22224},
 																						run: (*parser).callonShortHandTitle65,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 691, col: 28, offset: 22222},
+																							pos:        position{line: 691, col: 28, offset: 22224},
 																							val:        "[A-Za-z]",
 																							ranges:     []rune{'A', 'Z', 'a', 'z'},
 																							ignoreCase: false,
@@ -13085,12 +13085,12 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 693, col: 9, offset: 22276},
+																						pos: position{line: 693, col: 9, offset: 22278},
 																						run: (*parser).callonShortHandTitle67,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 693, col: 9, offset: 22276},
+																							pos: position{line: 693, col: 9, offset: 22278},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 693, col: 9, offset: 22276},
+																								pos:        position{line: 693, col: 9, offset: 22278},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -13107,7 +13107,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 683, col: 78, offset: 21930},
+														pos:        position{line: 683, col: 78, offset: 21932},
 														val:        "}",
 														ignoreCase: false,
 														want:       "\"}\"",
@@ -13116,19 +13116,19 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 687, col: 25, offset: 22048},
+											pos: position{line: 687, col: 25, offset: 22050},
 											run: (*parser).callonShortHandTitle71,
 											expr: &seqExpr{
-												pos: position{line: 687, col: 25, offset: 22048},
+												pos: position{line: 687, col: 25, offset: 22050},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 687, col: 25, offset: 22048},
+														pos:        position{line: 687, col: 25, offset: 22050},
 														val:        "{counter2:",
 														ignoreCase: false,
 														want:       "\"{counter2:\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 687, col: 38, offset: 22061},
+														pos:   position{line: 687, col: 38, offset: 22063},
 														label: "name",
 														expr: &actionExpr{
 															pos: position{line: 320, col: 18, offset: 9837},
@@ -13160,33 +13160,33 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 687, col: 57, offset: 22080},
+														pos:   position{line: 687, col: 57, offset: 22082},
 														label: "start",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 687, col: 63, offset: 22086},
+															pos: position{line: 687, col: 63, offset: 22088},
 															expr: &actionExpr{
-																pos: position{line: 691, col: 17, offset: 22211},
+																pos: position{line: 691, col: 17, offset: 22213},
 																run: (*parser).callonShortHandTitle82,
 																expr: &seqExpr{
-																	pos: position{line: 691, col: 17, offset: 22211},
+																	pos: position{line: 691, col: 17, offset: 22213},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 691, col: 17, offset: 22211},
+																			pos:        position{line: 691, col: 17, offset: 22213},
 																			val:        ":",
 																			ignoreCase: false,
 																			want:       "\":\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 691, col: 21, offset: 22215},
+																			pos:   position{line: 691, col: 21, offset: 22217},
 																			label: "start",
 																			expr: &choiceExpr{
-																				pos: position{line: 691, col: 28, offset: 22222},
+																				pos: position{line: 691, col: 28, offset: 22224},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 691, col: 28, offset: 22222},
+																						pos: position{line: 691, col: 28, offset: 22224},
 																						run: (*parser).callonShortHandTitle87,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 691, col: 28, offset: 22222},
+																							pos:        position{line: 691, col: 28, offset: 22224},
 																							val:        "[A-Za-z]",
 																							ranges:     []rune{'A', 'Z', 'a', 'z'},
 																							ignoreCase: false,
@@ -13194,12 +13194,12 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 693, col: 9, offset: 22276},
+																						pos: position{line: 693, col: 9, offset: 22278},
 																						run: (*parser).callonShortHandTitle89,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 693, col: 9, offset: 22276},
+																							pos: position{line: 693, col: 9, offset: 22278},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 693, col: 9, offset: 22276},
+																								pos:        position{line: 693, col: 9, offset: 22278},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -13216,7 +13216,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 687, col: 79, offset: 22102},
+														pos:        position{line: 687, col: 79, offset: 22104},
 														val:        "}",
 														ignoreCase: false,
 														want:       "\"}\"",
@@ -13225,10 +13225,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2883, col: 12, offset: 91488},
+											pos: position{line: 2883, col: 12, offset: 91490},
 											run: (*parser).callonShortHandTitle93,
 											expr: &charClassMatcher{
-												pos:        position{line: 2883, col: 12, offset: 91488},
+												pos:        position{line: 2883, col: 12, offset: 91490},
 												val:        "[^\\r\\n]",
 												chars:      []rune{'\r', '\n'},
 												ignoreCase: false,
@@ -13245,63 +13245,63 @@ var g = &grammar{
 		},
 		{
 			name: "TitlePassthrough",
-			pos:  position{line: 440, col: 1, offset: 13587},
+			pos:  position{line: 440, col: 1, offset: 13589},
 			expr: &actionExpr{
-				pos: position{line: 441, col: 5, offset: 13611},
+				pos: position{line: 441, col: 5, offset: 13613},
 				run: (*parser).callonTitlePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 441, col: 5, offset: 13611},
+					pos: position{line: 441, col: 5, offset: 13613},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 441, col: 5, offset: 13611},
+							pos: position{line: 441, col: 5, offset: 13613},
 							expr: &choiceExpr{
-								pos: position{line: 442, col: 9, offset: 13622},
+								pos: position{line: 442, col: 9, offset: 13624},
 								alternatives: []interface{}{
 									&seqExpr{
-										pos: position{line: 442, col: 10, offset: 13623},
+										pos: position{line: 442, col: 10, offset: 13625},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 442, col: 10, offset: 13623},
+												pos:        position{line: 442, col: 10, offset: 13625},
 												val:        "+++",
 												ignoreCase: false,
 												want:       "\"+++\"",
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 442, col: 16, offset: 13629},
+												pos: position{line: 442, col: 16, offset: 13631},
 												expr: &seqExpr{
-													pos: position{line: 442, col: 17, offset: 13630},
+													pos: position{line: 442, col: 17, offset: 13632},
 													exprs: []interface{}{
 														&notExpr{
-															pos: position{line: 442, col: 17, offset: 13630},
+															pos: position{line: 442, col: 17, offset: 13632},
 															expr: &litMatcher{
-																pos:        position{line: 442, col: 18, offset: 13631},
+																pos:        position{line: 442, col: 18, offset: 13633},
 																val:        "+++",
 																ignoreCase: false,
 																want:       "\"+++\"",
 															},
 														},
 														&notExpr{
-															pos: position{line: 442, col: 24, offset: 13637},
+															pos: position{line: 442, col: 24, offset: 13639},
 															expr: &actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93351},
+																pos: position{line: 2953, col: 12, offset: 93353},
 																run: (*parser).callonTitlePassthrough12,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93352},
+																	pos: position{line: 2953, col: 13, offset: 93354},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93352},
+																			pos:        position{line: 2953, col: 13, offset: 93354},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93359},
+																			pos:        position{line: 2953, col: 20, offset: 93361},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93368},
+																			pos:        position{line: 2953, col: 29, offset: 93370},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -13311,13 +13311,13 @@ var g = &grammar{
 															},
 														},
 														&anyMatcher{
-															line: 442, col: 33, offset: 13646,
+															line: 442, col: 33, offset: 13648,
 														},
 													},
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 442, col: 37, offset: 13650},
+												pos:        position{line: 442, col: 37, offset: 13652},
 												val:        "+++",
 												ignoreCase: false,
 												want:       "\"+++\"",
@@ -13325,50 +13325,50 @@ var g = &grammar{
 										},
 									},
 									&seqExpr{
-										pos: position{line: 443, col: 12, offset: 13668},
+										pos: position{line: 443, col: 12, offset: 13670},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 443, col: 12, offset: 13668},
+												pos:        position{line: 443, col: 12, offset: 13670},
 												val:        "+",
 												ignoreCase: false,
 												want:       "\"+\"",
 											},
 											&oneOrMoreExpr{
-												pos: position{line: 443, col: 16, offset: 13672},
+												pos: position{line: 443, col: 16, offset: 13674},
 												expr: &seqExpr{
-													pos: position{line: 443, col: 17, offset: 13673},
+													pos: position{line: 443, col: 17, offset: 13675},
 													exprs: []interface{}{
 														&notExpr{
-															pos: position{line: 443, col: 17, offset: 13673},
+															pos: position{line: 443, col: 17, offset: 13675},
 															expr: &litMatcher{
-																pos:        position{line: 443, col: 18, offset: 13674},
+																pos:        position{line: 443, col: 18, offset: 13676},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 														},
 														&notExpr{
-															pos: position{line: 443, col: 22, offset: 13678},
+															pos: position{line: 443, col: 22, offset: 13680},
 															expr: &actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93351},
+																pos: position{line: 2953, col: 12, offset: 93353},
 																run: (*parser).callonTitlePassthrough26,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93352},
+																	pos: position{line: 2953, col: 13, offset: 93354},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93352},
+																			pos:        position{line: 2953, col: 13, offset: 93354},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93359},
+																			pos:        position{line: 2953, col: 20, offset: 93361},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93368},
+																			pos:        position{line: 2953, col: 29, offset: 93370},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -13378,13 +13378,13 @@ var g = &grammar{
 															},
 														},
 														&anyMatcher{
-															line: 443, col: 31, offset: 13687,
+															line: 443, col: 31, offset: 13689,
 														},
 													},
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 443, col: 35, offset: 13691},
+												pos:        position{line: 443, col: 35, offset: 13693},
 												val:        "+",
 												ignoreCase: false,
 												want:       "\"+\"",
@@ -13392,33 +13392,33 @@ var g = &grammar{
 										},
 									},
 									&seqExpr{
-										pos: position{line: 444, col: 12, offset: 13707},
+										pos: position{line: 444, col: 12, offset: 13709},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 444, col: 12, offset: 13707},
+												pos:        position{line: 444, col: 12, offset: 13709},
 												val:        "pass:",
 												ignoreCase: false,
 												want:       "\"pass:\"",
 											},
 											&zeroOrOneExpr{
-												pos: position{line: 444, col: 20, offset: 13715},
+												pos: position{line: 444, col: 20, offset: 13717},
 												expr: &litMatcher{
-													pos:        position{line: 444, col: 20, offset: 13715},
+													pos:        position{line: 444, col: 20, offset: 13717},
 													val:        "q",
 													ignoreCase: false,
 													want:       "\"q\"",
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 444, col: 25, offset: 13720},
+												pos:        position{line: 444, col: 25, offset: 13722},
 												val:        "[",
 												ignoreCase: false,
 												want:       "\"[\"",
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 444, col: 29, offset: 13724},
+												pos: position{line: 444, col: 29, offset: 13726},
 												expr: &charClassMatcher{
-													pos:        position{line: 444, col: 29, offset: 13724},
+													pos:        position{line: 444, col: 29, offset: 13726},
 													val:        "[^]\\r\\n]",
 													chars:      []rune{']', '\r', '\n'},
 													ignoreCase: false,
@@ -13426,7 +13426,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 444, col: 40, offset: 13735},
+												pos:        position{line: 444, col: 40, offset: 13737},
 												val:        "]",
 												ignoreCase: false,
 												want:       "\"]\"",
@@ -13437,68 +13437,68 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 446, col: 5, offset: 13750},
+							pos:   position{line: 446, col: 5, offset: 13752},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 446, col: 14, offset: 13759},
+								pos: position{line: 446, col: 14, offset: 13761},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1409, col: 26, offset: 45215},
+										pos: position{line: 1409, col: 26, offset: 45217},
 										run: (*parser).callonTitlePassthrough43,
 										expr: &seqExpr{
-											pos: position{line: 1409, col: 26, offset: 45215},
+											pos: position{line: 1409, col: 26, offset: 45217},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1407, col: 32, offset: 45183},
+													pos:        position{line: 1407, col: 32, offset: 45185},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1409, col: 54, offset: 45243},
+													pos:   position{line: 1409, col: 54, offset: 45245},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1413, col: 33, offset: 45446},
+														pos: position{line: 1413, col: 33, offset: 45448},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1413, col: 34, offset: 45447},
+																pos: position{line: 1413, col: 34, offset: 45449},
 																run: (*parser).callonTitlePassthrough48,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1413, col: 34, offset: 45447},
+																	pos: position{line: 1413, col: 34, offset: 45449},
 																	expr: &seqExpr{
-																		pos: position{line: 1413, col: 35, offset: 45448},
+																		pos: position{line: 1413, col: 35, offset: 45450},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1413, col: 35, offset: 45448},
+																				pos: position{line: 1413, col: 35, offset: 45450},
 																				expr: &litMatcher{
-																					pos:        position{line: 1407, col: 32, offset: 45183},
+																					pos:        position{line: 1407, col: 32, offset: 45185},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1413, col: 64, offset: 45477,
+																				line: 1413, col: 64, offset: 45479,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1415, col: 11, offset: 45650},
+																pos: position{line: 1415, col: 11, offset: 45652},
 																run: (*parser).callonTitlePassthrough54,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1415, col: 11, offset: 45650},
+																	pos: position{line: 1415, col: 11, offset: 45652},
 																	expr: &seqExpr{
-																		pos: position{line: 1415, col: 12, offset: 45651},
+																		pos: position{line: 1415, col: 12, offset: 45653},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1415, col: 12, offset: 45651},
+																				pos: position{line: 1415, col: 12, offset: 45653},
 																				expr: &actionExpr{
-																					pos: position{line: 2944, col: 10, offset: 93180},
+																					pos: position{line: 2944, col: 10, offset: 93182},
 																					run: (*parser).callonTitlePassthrough58,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2944, col: 10, offset: 93180},
+																						pos:        position{line: 2944, col: 10, offset: 93182},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -13507,27 +13507,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1415, col: 19, offset: 45658},
+																				pos: position{line: 1415, col: 19, offset: 45660},
 																				expr: &actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93351},
+																					pos: position{line: 2953, col: 12, offset: 93353},
 																					run: (*parser).callonTitlePassthrough61,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93352},
+																						pos: position{line: 2953, col: 13, offset: 93354},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93352},
+																								pos:        position{line: 2953, col: 13, offset: 93354},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93359},
+																								pos:        position{line: 2953, col: 20, offset: 93361},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93368},
+																								pos:        position{line: 2953, col: 29, offset: 93370},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -13537,16 +13537,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1415, col: 28, offset: 45667},
+																				pos: position{line: 1415, col: 28, offset: 45669},
 																				expr: &litMatcher{
-																					pos:        position{line: 1407, col: 32, offset: 45183},
+																					pos:        position{line: 1407, col: 32, offset: 45185},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1415, col: 57, offset: 45696,
+																				line: 1415, col: 57, offset: 45698,
 																			},
 																		},
 																	},
@@ -13556,7 +13556,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1407, col: 32, offset: 45183},
+													pos:        position{line: 1407, col: 32, offset: 45185},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
@@ -13565,45 +13565,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1397, col: 26, offset: 44498},
+										pos: position{line: 1397, col: 26, offset: 44500},
 										run: (*parser).callonTitlePassthrough70,
 										expr: &seqExpr{
-											pos: position{line: 1397, col: 26, offset: 44498},
+											pos: position{line: 1397, col: 26, offset: 44500},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1395, col: 32, offset: 44468},
+													pos:        position{line: 1395, col: 32, offset: 44470},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1397, col: 54, offset: 44526},
+													pos:   position{line: 1397, col: 54, offset: 44528},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1401, col: 33, offset: 44739},
+														pos: position{line: 1401, col: 33, offset: 44741},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1401, col: 34, offset: 44740},
+																pos: position{line: 1401, col: 34, offset: 44742},
 																run: (*parser).callonTitlePassthrough75,
 																expr: &seqExpr{
-																	pos: position{line: 1401, col: 34, offset: 44740},
+																	pos: position{line: 1401, col: 34, offset: 44742},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1401, col: 35, offset: 44741},
+																			pos: position{line: 1401, col: 35, offset: 44743},
 																			expr: &litMatcher{
-																				pos:        position{line: 1395, col: 32, offset: 44468},
+																				pos:        position{line: 1395, col: 32, offset: 44470},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1401, col: 64, offset: 44770},
+																			pos: position{line: 1401, col: 64, offset: 44772},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93180},
+																				pos: position{line: 2944, col: 10, offset: 93182},
 																				run: (*parser).callonTitlePassthrough80,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93180},
+																					pos:        position{line: 2944, col: 10, offset: 93182},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -13612,27 +13612,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1401, col: 71, offset: 44777},
+																			pos: position{line: 1401, col: 71, offset: 44779},
 																			expr: &actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonTitlePassthrough83,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -13642,25 +13642,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1401, col: 80, offset: 44786,
+																			line: 1401, col: 80, offset: 44788,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1401, col: 83, offset: 44789},
+																			pos: position{line: 1401, col: 83, offset: 44791},
 																			expr: &seqExpr{
-																				pos: position{line: 1401, col: 84, offset: 44790},
+																				pos: position{line: 1401, col: 84, offset: 44792},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1401, col: 84, offset: 44790},
+																						pos: position{line: 1401, col: 84, offset: 44792},
 																						expr: &seqExpr{
-																							pos: position{line: 1401, col: 86, offset: 44792},
+																							pos: position{line: 1401, col: 86, offset: 44794},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2948, col: 11, offset: 93241},
+																									pos: position{line: 2948, col: 11, offset: 93243},
 																									run: (*parser).callonTitlePassthrough93,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2948, col: 11, offset: 93241},
+																										pos: position{line: 2948, col: 11, offset: 93243},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2948, col: 11, offset: 93241},
+																											pos:        position{line: 2948, col: 11, offset: 93243},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -13669,7 +13669,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1395, col: 32, offset: 44468},
+																									pos:        position{line: 1395, col: 32, offset: 44470},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -13678,36 +13678,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1401, col: 122, offset: 44828},
+																						pos: position{line: 1401, col: 122, offset: 44830},
 																						expr: &litMatcher{
-																							pos:        position{line: 1395, col: 32, offset: 44468},
+																							pos:        position{line: 1395, col: 32, offset: 44470},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1401, col: 151, offset: 44857},
+																						pos: position{line: 1401, col: 151, offset: 44859},
 																						expr: &actionExpr{
-																							pos: position{line: 2953, col: 12, offset: 93351},
+																							pos: position{line: 2953, col: 12, offset: 93353},
 																							run: (*parser).callonTitlePassthrough100,
 																							expr: &choiceExpr{
-																								pos: position{line: 2953, col: 13, offset: 93352},
+																								pos: position{line: 2953, col: 13, offset: 93354},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 13, offset: 93352},
+																										pos:        position{line: 2953, col: 13, offset: 93354},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 20, offset: 93359},
+																										pos:        position{line: 2953, col: 20, offset: 93361},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 29, offset: 93368},
+																										pos:        position{line: 2953, col: 29, offset: 93370},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -13717,7 +13717,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1401, col: 160, offset: 44866,
+																						line: 1401, col: 160, offset: 44868,
 																					},
 																				},
 																			},
@@ -13726,18 +13726,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1403, col: 11, offset: 45016},
+																pos: position{line: 1403, col: 11, offset: 45018},
 																run: (*parser).callonTitlePassthrough106,
 																expr: &seqExpr{
-																	pos: position{line: 1403, col: 12, offset: 45017},
+																	pos: position{line: 1403, col: 12, offset: 45019},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1403, col: 12, offset: 45017},
+																			pos: position{line: 1403, col: 12, offset: 45019},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93180},
+																				pos: position{line: 2944, col: 10, offset: 93182},
 																				run: (*parser).callonTitlePassthrough109,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93180},
+																					pos:        position{line: 2944, col: 10, offset: 93182},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -13746,27 +13746,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1403, col: 19, offset: 45024},
+																			pos: position{line: 1403, col: 19, offset: 45026},
 																			expr: &actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonTitlePassthrough112,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -13776,16 +13776,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1403, col: 28, offset: 45033},
+																			pos: position{line: 1403, col: 28, offset: 45035},
 																			expr: &litMatcher{
-																				pos:        position{line: 1395, col: 32, offset: 44468},
+																				pos:        position{line: 1395, col: 32, offset: 44470},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1403, col: 57, offset: 45062,
+																			line: 1403, col: 57, offset: 45064,
 																		},
 																	},
 																},
@@ -13794,15 +13794,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1395, col: 32, offset: 44468},
+													pos:        position{line: 1395, col: 32, offset: 44470},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1397, col: 121, offset: 44593},
+													pos: position{line: 1397, col: 121, offset: 44595},
 													expr: &charClassMatcher{
-														pos:        position{line: 2834, col: 13, offset: 90275},
+														pos:        position{line: 2834, col: 13, offset: 90277},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -13813,7 +13813,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 446, col: 62, offset: 13807},
+										pos:  position{line: 446, col: 62, offset: 13809},
 										name: "PassthroughMacro",
 									},
 								},
@@ -13825,62 +13825,62 @@ var g = &grammar{
 		},
 		{
 			name: "LongHandAttributes",
-			pos:  position{line: 452, col: 1, offset: 14045},
+			pos:  position{line: 452, col: 1, offset: 14047},
 			expr: &actionExpr{
-				pos: position{line: 453, col: 5, offset: 14071},
+				pos: position{line: 453, col: 5, offset: 14073},
 				run: (*parser).callonLongHandAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 453, col: 5, offset: 14071},
+					pos: position{line: 453, col: 5, offset: 14073},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 453, col: 5, offset: 14071},
+							pos: position{line: 453, col: 5, offset: 14073},
 							expr: &litMatcher{
-								pos:        position{line: 453, col: 6, offset: 14072},
+								pos:        position{line: 453, col: 6, offset: 14074},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 453, col: 10, offset: 14076},
+							pos:        position{line: 453, col: 10, offset: 14078},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&notExpr{
-							pos: position{line: 453, col: 14, offset: 14080},
+							pos: position{line: 453, col: 14, offset: 14082},
 							expr: &litMatcher{
-								pos:        position{line: 453, col: 15, offset: 14081},
+								pos:        position{line: 453, col: 15, offset: 14083},
 								val:        "[",
 								ignoreCase: false,
 								want:       "\"[\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 454, col: 5, offset: 14194},
+							pos:   position{line: 454, col: 5, offset: 14196},
 							label: "firstPositionalAttributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 454, col: 31, offset: 14220},
+								pos: position{line: 454, col: 31, offset: 14222},
 								expr: &ruleRefExpr{
-									pos:  position{line: 454, col: 32, offset: 14221},
+									pos:  position{line: 454, col: 32, offset: 14223},
 									name: "FirstPositionalAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 455, col: 5, offset: 14253},
+							pos:   position{line: 455, col: 5, offset: 14255},
 							label: "otherAttributes",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 455, col: 21, offset: 14269},
+								pos: position{line: 455, col: 21, offset: 14271},
 								expr: &choiceExpr{
-									pos: position{line: 455, col: 22, offset: 14270},
+									pos: position{line: 455, col: 22, offset: 14272},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 455, col: 22, offset: 14270},
+											pos:  position{line: 455, col: 22, offset: 14272},
 											name: "PositionalAttribute",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 455, col: 44, offset: 14292},
+											pos:  position{line: 455, col: 44, offset: 14294},
 											name: "NamedAttribute",
 										},
 									},
@@ -13888,7 +13888,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 456, col: 5, offset: 14313},
+							pos:        position{line: 456, col: 5, offset: 14315},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -13899,69 +13899,69 @@ var g = &grammar{
 		},
 		{
 			name: "FirstPositionalAttributes",
-			pos:  position{line: 473, col: 1, offset: 15112},
+			pos:  position{line: 473, col: 1, offset: 15114},
 			expr: &actionExpr{
-				pos: position{line: 474, col: 5, offset: 15146},
+				pos: position{line: 474, col: 5, offset: 15148},
 				run: (*parser).callonFirstPositionalAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 474, col: 5, offset: 15146},
+					pos: position{line: 474, col: 5, offset: 15148},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 474, col: 5, offset: 15146},
+							pos:   position{line: 474, col: 5, offset: 15148},
 							label: "main",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 474, col: 10, offset: 15151},
+								pos: position{line: 474, col: 10, offset: 15153},
 								expr: &ruleRefExpr{
-									pos:  position{line: 475, col: 9, offset: 15161},
+									pos:  position{line: 475, col: 9, offset: 15163},
 									name: "ShortHandAttribute",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 477, col: 5, offset: 15191},
+							pos:   position{line: 477, col: 5, offset: 15193},
 							label: "extras",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 477, col: 12, offset: 15198},
+								pos: position{line: 477, col: 12, offset: 15200},
 								expr: &actionExpr{
-									pos: position{line: 478, col: 9, offset: 15209},
+									pos: position{line: 478, col: 9, offset: 15211},
 									run: (*parser).callonFirstPositionalAttributes8,
 									expr: &seqExpr{
-										pos: position{line: 478, col: 9, offset: 15209},
+										pos: position{line: 478, col: 9, offset: 15211},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 478, col: 9, offset: 15209},
+												pos: position{line: 478, col: 9, offset: 15211},
 												expr: &litMatcher{
-													pos:        position{line: 478, col: 10, offset: 15210},
+													pos:        position{line: 478, col: 10, offset: 15212},
 													val:        ",",
 													ignoreCase: false,
 													want:       "\",\"",
 												},
 											},
 											&notExpr{
-												pos: position{line: 478, col: 14, offset: 15214},
+												pos: position{line: 478, col: 14, offset: 15216},
 												expr: &litMatcher{
-													pos:        position{line: 478, col: 15, offset: 15215},
+													pos:        position{line: 478, col: 15, offset: 15217},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 479, col: 9, offset: 15227},
+												pos:   position{line: 479, col: 9, offset: 15229},
 												label: "extra",
 												expr: &choiceExpr{
-													pos: position{line: 480, col: 13, offset: 15247},
+													pos: position{line: 480, col: 13, offset: 15249},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 480, col: 13, offset: 15247},
+															pos:  position{line: 480, col: 13, offset: 15249},
 															name: "ShortHandIDAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 481, col: 15, offset: 15283},
+															pos:  position{line: 481, col: 15, offset: 15285},
 															name: "ShortHandOptionAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 482, col: 15, offset: 15322},
+															pos:  position{line: 482, col: 15, offset: 15324},
 															name: "ShortHandDotRoleAttribute",
 														},
 													},
@@ -13973,23 +13973,23 @@ var g = &grammar{
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 485, col: 8, offset: 15398},
+							pos: position{line: 485, col: 8, offset: 15400},
 							expr: &seqExpr{
-								pos: position{line: 485, col: 9, offset: 15399},
+								pos: position{line: 485, col: 9, offset: 15401},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 485, col: 9, offset: 15399},
+										pos:        position{line: 485, col: 9, offset: 15401},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 485, col: 13, offset: 15403},
+										pos: position{line: 485, col: 13, offset: 15405},
 										expr: &actionExpr{
-											pos: position{line: 2944, col: 10, offset: 93180},
+											pos: position{line: 2944, col: 10, offset: 93182},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2944, col: 10, offset: 93180},
+												pos:        position{line: 2944, col: 10, offset: 93182},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14001,7 +14001,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 486, col: 5, offset: 15417},
+							pos: position{line: 486, col: 5, offset: 15419},
 							run: (*parser).callonFirstPositionalAttributes25,
 						},
 					},
@@ -14010,24 +14010,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandIDAttribute",
-			pos:  position{line: 502, col: 1, offset: 15833},
+			pos:  position{line: 502, col: 1, offset: 15835},
 			expr: &actionExpr{
-				pos: position{line: 502, col: 25, offset: 15857},
+				pos: position{line: 502, col: 25, offset: 15859},
 				run: (*parser).callonShortHandIDAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 502, col: 25, offset: 15857},
+					pos: position{line: 502, col: 25, offset: 15859},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 502, col: 25, offset: 15857},
+							pos:        position{line: 502, col: 25, offset: 15859},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 502, col: 29, offset: 15861},
+							pos:   position{line: 502, col: 29, offset: 15863},
 							label: "id",
 							expr: &ruleRefExpr{
-								pos:  position{line: 502, col: 33, offset: 15865},
+								pos:  position{line: 502, col: 33, offset: 15867},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -14037,15 +14037,15 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttribute",
-			pos:  position{line: 506, col: 1, offset: 15939},
+			pos:  position{line: 506, col: 1, offset: 15941},
 			expr: &actionExpr{
-				pos: position{line: 506, col: 23, offset: 15961},
+				pos: position{line: 506, col: 23, offset: 15963},
 				run: (*parser).callonShortHandAttribute1,
 				expr: &labeledExpr{
-					pos:   position{line: 506, col: 23, offset: 15961},
+					pos:   position{line: 506, col: 23, offset: 15963},
 					label: "value",
 					expr: &ruleRefExpr{
-						pos:  position{line: 506, col: 30, offset: 15968},
+						pos:  position{line: 506, col: 30, offset: 15970},
 						name: "ShortHandAttributeValue",
 					},
 				},
@@ -14053,24 +14053,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandDotRoleAttribute",
-			pos:  position{line: 511, col: 1, offset: 16094},
+			pos:  position{line: 511, col: 1, offset: 16096},
 			expr: &actionExpr{
-				pos: position{line: 511, col: 30, offset: 16123},
+				pos: position{line: 511, col: 30, offset: 16125},
 				run: (*parser).callonShortHandDotRoleAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 511, col: 30, offset: 16123},
+					pos: position{line: 511, col: 30, offset: 16125},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 511, col: 30, offset: 16123},
+							pos:        position{line: 511, col: 30, offset: 16125},
 							val:        ".",
 							ignoreCase: false,
 							want:       "\".\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 511, col: 34, offset: 16127},
+							pos:   position{line: 511, col: 34, offset: 16129},
 							label: "role",
 							expr: &ruleRefExpr{
-								pos:  position{line: 511, col: 40, offset: 16133},
+								pos:  position{line: 511, col: 40, offset: 16135},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -14080,24 +14080,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandOptionAttribute",
-			pos:  position{line: 516, col: 1, offset: 16255},
+			pos:  position{line: 516, col: 1, offset: 16257},
 			expr: &actionExpr{
-				pos: position{line: 516, col: 29, offset: 16283},
+				pos: position{line: 516, col: 29, offset: 16285},
 				run: (*parser).callonShortHandOptionAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 516, col: 29, offset: 16283},
+					pos: position{line: 516, col: 29, offset: 16285},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 516, col: 29, offset: 16283},
+							pos:        position{line: 516, col: 29, offset: 16285},
 							val:        "%",
 							ignoreCase: false,
 							want:       "\"%\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 516, col: 33, offset: 16287},
+							pos:   position{line: 516, col: 33, offset: 16289},
 							label: "option",
 							expr: &ruleRefExpr{
-								pos:  position{line: 516, col: 41, offset: 16295},
+								pos:  position{line: 516, col: 41, offset: 16297},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -14107,43 +14107,43 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttributeValue",
-			pos:  position{line: 521, col: 1, offset: 16408},
+			pos:  position{line: 521, col: 1, offset: 16410},
 			expr: &choiceExpr{
-				pos: position{line: 522, col: 5, offset: 16440},
+				pos: position{line: 522, col: 5, offset: 16442},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 522, col: 5, offset: 16440},
+						pos:  position{line: 522, col: 5, offset: 16442},
 						name: "SingleQuotedAttributeValue",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 523, col: 7, offset: 16474},
+						pos:  position{line: 523, col: 7, offset: 16476},
 						name: "DoubleQuotedAttributeValue",
 					},
 					&actionExpr{
-						pos: position{line: 524, col: 7, offset: 16508},
+						pos: position{line: 524, col: 7, offset: 16510},
 						run: (*parser).callonShortHandAttributeValue4,
 						expr: &seqExpr{
-							pos: position{line: 524, col: 7, offset: 16508},
+							pos: position{line: 524, col: 7, offset: 16510},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 524, col: 7, offset: 16508},
+									pos:   position{line: 524, col: 7, offset: 16510},
 									label: "elements",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 524, col: 16, offset: 16517},
+										pos: position{line: 524, col: 16, offset: 16519},
 										expr: &choiceExpr{
-											pos: position{line: 527, col: 9, offset: 16699},
+											pos: position{line: 527, col: 9, offset: 16701},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 527, col: 9, offset: 16699},
+													pos:  position{line: 527, col: 9, offset: 16701},
 													name: "QuotationMark",
 												},
 												&actionExpr{
-													pos: position{line: 528, col: 12, offset: 16725},
+													pos: position{line: 528, col: 12, offset: 16727},
 													run: (*parser).callonShortHandAttributeValue10,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 528, col: 12, offset: 16725},
+														pos: position{line: 528, col: 12, offset: 16727},
 														expr: &charClassMatcher{
-															pos:        position{line: 528, col: 12, offset: 16725},
+															pos:        position{line: 528, col: 12, offset: 16727},
 															val:        "[^,=.%# \\r\\n�{]]",
 															chars:      []rune{',', '=', '.', '%', '#', ' ', '\r', '\n', '�', '{', ']'},
 															ignoreCase: false,
@@ -14152,35 +14152,35 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 661, col: 5, offset: 21195},
+													pos: position{line: 661, col: 5, offset: 21197},
 													run: (*parser).callonShortHandAttributeValue13,
 													expr: &seqExpr{
-														pos: position{line: 661, col: 5, offset: 21195},
+														pos: position{line: 661, col: 5, offset: 21197},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 661, col: 5, offset: 21195},
+																pos: position{line: 661, col: 5, offset: 21197},
 																run: (*parser).callonShortHandAttributeValue15,
 															},
 															&labeledExpr{
-																pos:   position{line: 664, col: 5, offset: 21267},
+																pos:   position{line: 664, col: 5, offset: 21269},
 																label: "element",
 																expr: &choiceExpr{
-																	pos: position{line: 664, col: 14, offset: 21276},
+																	pos: position{line: 664, col: 14, offset: 21278},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 670, col: 5, offset: 21405},
+																			pos: position{line: 670, col: 5, offset: 21407},
 																			run: (*parser).callonShortHandAttributeValue18,
 																			expr: &seqExpr{
-																				pos: position{line: 670, col: 5, offset: 21405},
+																				pos: position{line: 670, col: 5, offset: 21407},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 670, col: 5, offset: 21405},
+																						pos:        position{line: 670, col: 5, offset: 21407},
 																						val:        "\\{",
 																						ignoreCase: false,
 																						want:       "\"\\\\{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 670, col: 13, offset: 21413},
+																						pos:   position{line: 670, col: 13, offset: 21415},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 320, col: 18, offset: 9837},
@@ -14212,7 +14212,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 670, col: 32, offset: 21432},
+																						pos:        position{line: 670, col: 32, offset: 21434},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -14221,19 +14221,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 677, col: 5, offset: 21673},
+																			pos: position{line: 677, col: 5, offset: 21675},
 																			run: (*parser).callonShortHandAttributeValue28,
 																			expr: &seqExpr{
-																				pos: position{line: 677, col: 5, offset: 21673},
+																				pos: position{line: 677, col: 5, offset: 21675},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 677, col: 5, offset: 21673},
+																						pos:        position{line: 677, col: 5, offset: 21675},
 																						val:        "{",
 																						ignoreCase: false,
 																						want:       "\"{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 677, col: 9, offset: 21677},
+																						pos:   position{line: 677, col: 9, offset: 21679},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 320, col: 18, offset: 9837},
@@ -14265,7 +14265,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 677, col: 28, offset: 21696},
+																						pos:        position{line: 677, col: 28, offset: 21698},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -14274,19 +14274,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 683, col: 25, offset: 21877},
+																			pos: position{line: 683, col: 25, offset: 21879},
 																			run: (*parser).callonShortHandAttributeValue38,
 																			expr: &seqExpr{
-																				pos: position{line: 683, col: 25, offset: 21877},
+																				pos: position{line: 683, col: 25, offset: 21879},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 683, col: 25, offset: 21877},
+																						pos:        position{line: 683, col: 25, offset: 21879},
 																						val:        "{counter:",
 																						ignoreCase: false,
 																						want:       "\"{counter:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 683, col: 37, offset: 21889},
+																						pos:   position{line: 683, col: 37, offset: 21891},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 320, col: 18, offset: 9837},
@@ -14318,33 +14318,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 683, col: 56, offset: 21908},
+																						pos:   position{line: 683, col: 56, offset: 21910},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 683, col: 62, offset: 21914},
+																							pos: position{line: 683, col: 62, offset: 21916},
 																							expr: &actionExpr{
-																								pos: position{line: 691, col: 17, offset: 22211},
+																								pos: position{line: 691, col: 17, offset: 22213},
 																								run: (*parser).callonShortHandAttributeValue49,
 																								expr: &seqExpr{
-																									pos: position{line: 691, col: 17, offset: 22211},
+																									pos: position{line: 691, col: 17, offset: 22213},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 691, col: 17, offset: 22211},
+																											pos:        position{line: 691, col: 17, offset: 22213},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 691, col: 21, offset: 22215},
+																											pos:   position{line: 691, col: 21, offset: 22217},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 691, col: 28, offset: 22222},
+																												pos: position{line: 691, col: 28, offset: 22224},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 691, col: 28, offset: 22222},
+																														pos: position{line: 691, col: 28, offset: 22224},
 																														run: (*parser).callonShortHandAttributeValue54,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 691, col: 28, offset: 22222},
+																															pos:        position{line: 691, col: 28, offset: 22224},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -14352,12 +14352,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 693, col: 9, offset: 22276},
+																														pos: position{line: 693, col: 9, offset: 22278},
 																														run: (*parser).callonShortHandAttributeValue56,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 693, col: 9, offset: 22276},
+																															pos: position{line: 693, col: 9, offset: 22278},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 693, col: 9, offset: 22276},
+																																pos:        position{line: 693, col: 9, offset: 22278},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -14374,7 +14374,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 683, col: 78, offset: 21930},
+																						pos:        position{line: 683, col: 78, offset: 21932},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -14383,19 +14383,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 687, col: 25, offset: 22048},
+																			pos: position{line: 687, col: 25, offset: 22050},
 																			run: (*parser).callonShortHandAttributeValue60,
 																			expr: &seqExpr{
-																				pos: position{line: 687, col: 25, offset: 22048},
+																				pos: position{line: 687, col: 25, offset: 22050},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 687, col: 25, offset: 22048},
+																						pos:        position{line: 687, col: 25, offset: 22050},
 																						val:        "{counter2:",
 																						ignoreCase: false,
 																						want:       "\"{counter2:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 687, col: 38, offset: 22061},
+																						pos:   position{line: 687, col: 38, offset: 22063},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 320, col: 18, offset: 9837},
@@ -14427,33 +14427,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 687, col: 57, offset: 22080},
+																						pos:   position{line: 687, col: 57, offset: 22082},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 687, col: 63, offset: 22086},
+																							pos: position{line: 687, col: 63, offset: 22088},
 																							expr: &actionExpr{
-																								pos: position{line: 691, col: 17, offset: 22211},
+																								pos: position{line: 691, col: 17, offset: 22213},
 																								run: (*parser).callonShortHandAttributeValue71,
 																								expr: &seqExpr{
-																									pos: position{line: 691, col: 17, offset: 22211},
+																									pos: position{line: 691, col: 17, offset: 22213},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 691, col: 17, offset: 22211},
+																											pos:        position{line: 691, col: 17, offset: 22213},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 691, col: 21, offset: 22215},
+																											pos:   position{line: 691, col: 21, offset: 22217},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 691, col: 28, offset: 22222},
+																												pos: position{line: 691, col: 28, offset: 22224},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 691, col: 28, offset: 22222},
+																														pos: position{line: 691, col: 28, offset: 22224},
 																														run: (*parser).callonShortHandAttributeValue76,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 691, col: 28, offset: 22222},
+																															pos:        position{line: 691, col: 28, offset: 22224},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -14461,12 +14461,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 693, col: 9, offset: 22276},
+																														pos: position{line: 693, col: 9, offset: 22278},
 																														run: (*parser).callonShortHandAttributeValue78,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 693, col: 9, offset: 22276},
+																															pos: position{line: 693, col: 9, offset: 22278},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 693, col: 9, offset: 22276},
+																																pos:        position{line: 693, col: 9, offset: 22278},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -14483,7 +14483,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 687, col: 79, offset: 22102},
+																						pos:        position{line: 687, col: 79, offset: 22104},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -14498,10 +14498,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 533, col: 12, offset: 16893},
+													pos: position{line: 533, col: 12, offset: 16895},
 													run: (*parser).callonShortHandAttributeValue82,
 													expr: &litMatcher{
-														pos:        position{line: 533, col: 12, offset: 16893},
+														pos:        position{line: 533, col: 12, offset: 16895},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -14512,19 +14512,19 @@ var g = &grammar{
 									},
 								},
 								&andExpr{
-									pos: position{line: 537, col: 5, offset: 16981},
+									pos: position{line: 537, col: 5, offset: 16983},
 									expr: &notExpr{
-										pos: position{line: 537, col: 7, offset: 16983},
+										pos: position{line: 537, col: 7, offset: 16985},
 										expr: &seqExpr{
-											pos: position{line: 537, col: 9, offset: 16985},
+											pos: position{line: 537, col: 9, offset: 16987},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 537, col: 9, offset: 16985},
+													pos: position{line: 537, col: 9, offset: 16987},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93180},
+														pos: position{line: 2944, col: 10, offset: 93182},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93180},
+															pos:        position{line: 2944, col: 10, offset: 93182},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -14533,7 +14533,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 537, col: 16, offset: 16992},
+													pos:        position{line: 537, col: 16, offset: 16994},
 													val:        "=",
 													ignoreCase: false,
 													want:       "\"=\"",
@@ -14550,45 +14550,45 @@ var g = &grammar{
 		},
 		{
 			name: "PositionalAttribute",
-			pos:  position{line: 542, col: 1, offset: 17070},
+			pos:  position{line: 542, col: 1, offset: 17072},
 			expr: &choiceExpr{
-				pos: position{line: 542, col: 24, offset: 17093},
+				pos: position{line: 542, col: 24, offset: 17095},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 543, col: 5, offset: 17099},
+						pos: position{line: 543, col: 5, offset: 17101},
 						run: (*parser).callonPositionalAttribute2,
 						expr: &seqExpr{
-							pos: position{line: 543, col: 5, offset: 17099},
+							pos: position{line: 543, col: 5, offset: 17101},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 543, col: 5, offset: 17099},
+									pos:   position{line: 543, col: 5, offset: 17101},
 									label: "value",
 									expr: &ruleRefExpr{
-										pos:  position{line: 543, col: 12, offset: 17106},
+										pos:  position{line: 543, col: 12, offset: 17108},
 										name: "AttributeValue",
 									},
 								},
 								&choiceExpr{
-									pos: position{line: 543, col: 29, offset: 17123},
+									pos: position{line: 543, col: 29, offset: 17125},
 									alternatives: []interface{}{
 										&zeroOrOneExpr{
-											pos: position{line: 543, col: 29, offset: 17123},
+											pos: position{line: 543, col: 29, offset: 17125},
 											expr: &seqExpr{
-												pos: position{line: 543, col: 30, offset: 17124},
+												pos: position{line: 543, col: 30, offset: 17126},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 543, col: 30, offset: 17124},
+														pos:        position{line: 543, col: 30, offset: 17126},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 543, col: 34, offset: 17128},
+														pos: position{line: 543, col: 34, offset: 17130},
 														expr: &actionExpr{
-															pos: position{line: 2944, col: 10, offset: 93180},
+															pos: position{line: 2944, col: 10, offset: 93182},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 10, offset: 93180},
+																pos:        position{line: 2944, col: 10, offset: 93182},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -14600,9 +14600,9 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 543, col: 45, offset: 17139},
+											pos: position{line: 543, col: 45, offset: 17141},
 											expr: &litMatcher{
-												pos:        position{line: 543, col: 46, offset: 17140},
+												pos:        position{line: 543, col: 46, offset: 17142},
 												val:        "]",
 												ignoreCase: false,
 												want:       "\"]\"",
@@ -14614,24 +14614,24 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 548, col: 6, offset: 17285},
+						pos: position{line: 548, col: 6, offset: 17287},
 						run: (*parser).callonPositionalAttribute15,
 						expr: &seqExpr{
-							pos: position{line: 548, col: 6, offset: 17285},
+							pos: position{line: 548, col: 6, offset: 17287},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 548, col: 6, offset: 17285},
+									pos:   position{line: 548, col: 6, offset: 17287},
 									label: "value",
 									expr: &seqExpr{
-										pos: position{line: 548, col: 13, offset: 17292},
+										pos: position{line: 548, col: 13, offset: 17294},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 548, col: 13, offset: 17292},
+												pos: position{line: 548, col: 13, offset: 17294},
 												expr: &actionExpr{
-													pos: position{line: 2944, col: 10, offset: 93180},
+													pos: position{line: 2944, col: 10, offset: 93182},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2944, col: 10, offset: 93180},
+														pos:        position{line: 2944, col: 10, offset: 93182},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -14640,24 +14640,24 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 548, col: 21, offset: 17300},
+												pos: position{line: 548, col: 21, offset: 17302},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 548, col: 22, offset: 17301},
+														pos: position{line: 548, col: 22, offset: 17303},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 548, col: 22, offset: 17301},
+																pos:        position{line: 548, col: 22, offset: 17303},
 																val:        ",",
 																ignoreCase: false,
 																want:       "\",\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 548, col: 26, offset: 17305},
+																pos: position{line: 548, col: 26, offset: 17307},
 																expr: &actionExpr{
-																	pos: position{line: 2944, col: 10, offset: 93180},
+																	pos: position{line: 2944, col: 10, offset: 93182},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2944, col: 10, offset: 93180},
+																		pos:        position{line: 2944, col: 10, offset: 93182},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -14668,9 +14668,9 @@ var g = &grammar{
 														},
 													},
 													&andExpr{
-														pos: position{line: 548, col: 36, offset: 17315},
+														pos: position{line: 548, col: 36, offset: 17317},
 														expr: &litMatcher{
-															pos:        position{line: 548, col: 37, offset: 17316},
+															pos:        position{line: 548, col: 37, offset: 17318},
 															val:        "]",
 															ignoreCase: false,
 															want:       "\"]\"",
@@ -14682,7 +14682,7 @@ var g = &grammar{
 									},
 								},
 								&andCodeExpr{
-									pos: position{line: 549, col: 5, offset: 17326},
+									pos: position{line: 549, col: 5, offset: 17328},
 									run: (*parser).callonPositionalAttribute30,
 								},
 							},
@@ -14693,29 +14693,29 @@ var g = &grammar{
 		},
 		{
 			name: "NamedAttribute",
-			pos:  position{line: 559, col: 1, offset: 17641},
+			pos:  position{line: 559, col: 1, offset: 17643},
 			expr: &actionExpr{
-				pos: position{line: 560, col: 5, offset: 17664},
+				pos: position{line: 560, col: 5, offset: 17666},
 				run: (*parser).callonNamedAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 560, col: 5, offset: 17664},
+					pos: position{line: 560, col: 5, offset: 17666},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 560, col: 5, offset: 17664},
+							pos:   position{line: 560, col: 5, offset: 17666},
 							label: "key",
 							expr: &actionExpr{
-								pos: position{line: 568, col: 22, offset: 17952},
+								pos: position{line: 568, col: 22, offset: 17954},
 								run: (*parser).callonNamedAttribute4,
 								expr: &seqExpr{
-									pos: position{line: 568, col: 22, offset: 17952},
+									pos: position{line: 568, col: 22, offset: 17954},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 568, col: 22, offset: 17952},
+											pos: position{line: 568, col: 22, offset: 17954},
 											expr: &actionExpr{
-												pos: position{line: 2944, col: 10, offset: 93180},
+												pos: position{line: 2944, col: 10, offset: 93182},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2944, col: 10, offset: 93180},
+													pos:        position{line: 2944, col: 10, offset: 93182},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14724,9 +14724,9 @@ var g = &grammar{
 											},
 										},
 										&oneOrMoreExpr{
-											pos: position{line: 568, col: 29, offset: 17959},
+											pos: position{line: 568, col: 29, offset: 17961},
 											expr: &charClassMatcher{
-												pos:        position{line: 568, col: 29, offset: 17959},
+												pos:        position{line: 568, col: 29, offset: 17961},
 												val:        "[^\\r\\n=,]]",
 												chars:      []rune{'\r', '\n', '=', ',', ']'},
 												ignoreCase: false,
@@ -14738,18 +14738,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 561, col: 5, offset: 17693},
+							pos:        position{line: 561, col: 5, offset: 17695},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 561, col: 9, offset: 17697},
+							pos: position{line: 561, col: 9, offset: 17699},
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 10, offset: 93180},
+								pos: position{line: 2944, col: 10, offset: 93182},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2944, col: 10, offset: 93180},
+									pos:        position{line: 2944, col: 10, offset: 93182},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14758,31 +14758,31 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 562, col: 5, offset: 17709},
+							pos:   position{line: 562, col: 5, offset: 17711},
 							label: "value",
 							expr: &ruleRefExpr{
-								pos:  position{line: 562, col: 12, offset: 17716},
+								pos:  position{line: 562, col: 12, offset: 17718},
 								name: "AttributeValue",
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 562, col: 28, offset: 17732},
+							pos: position{line: 562, col: 28, offset: 17734},
 							expr: &seqExpr{
-								pos: position{line: 562, col: 29, offset: 17733},
+								pos: position{line: 562, col: 29, offset: 17735},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 562, col: 29, offset: 17733},
+										pos:        position{line: 562, col: 29, offset: 17735},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 562, col: 33, offset: 17737},
+										pos: position{line: 562, col: 33, offset: 17739},
 										expr: &actionExpr{
-											pos: position{line: 2944, col: 10, offset: 93180},
+											pos: position{line: 2944, col: 10, offset: 93182},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2944, col: 10, offset: 93180},
+												pos:        position{line: 2944, col: 10, offset: 93182},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14799,48 +14799,48 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeValue",
-			pos:  position{line: 572, col: 1, offset: 18016},
+			pos:  position{line: 572, col: 1, offset: 18018},
 			expr: &actionExpr{
-				pos: position{line: 573, col: 5, offset: 18039},
+				pos: position{line: 573, col: 5, offset: 18041},
 				run: (*parser).callonAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 573, col: 5, offset: 18039},
+					pos: position{line: 573, col: 5, offset: 18041},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 573, col: 5, offset: 18039},
+							pos:   position{line: 573, col: 5, offset: 18041},
 							label: "value",
 							expr: &choiceExpr{
-								pos: position{line: 574, col: 9, offset: 18055},
+								pos: position{line: 574, col: 9, offset: 18057},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 574, col: 9, offset: 18055},
+										pos:  position{line: 574, col: 9, offset: 18057},
 										name: "SingleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 575, col: 11, offset: 18093},
+										pos:  position{line: 575, col: 11, offset: 18095},
 										name: "DoubleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 576, col: 11, offset: 18131},
+										pos:  position{line: 576, col: 11, offset: 18133},
 										name: "UnquotedAttributeValue",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 578, col: 5, offset: 18165},
+							pos: position{line: 578, col: 5, offset: 18167},
 							expr: &notExpr{
-								pos: position{line: 578, col: 7, offset: 18167},
+								pos: position{line: 578, col: 7, offset: 18169},
 								expr: &seqExpr{
-									pos: position{line: 578, col: 9, offset: 18169},
+									pos: position{line: 578, col: 9, offset: 18171},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 578, col: 9, offset: 18169},
+											pos: position{line: 578, col: 9, offset: 18171},
 											expr: &actionExpr{
-												pos: position{line: 2944, col: 10, offset: 93180},
+												pos: position{line: 2944, col: 10, offset: 93182},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2944, col: 10, offset: 93180},
+													pos:        position{line: 2944, col: 10, offset: 93182},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14849,7 +14849,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 578, col: 16, offset: 18176},
+											pos:        position{line: 578, col: 16, offset: 18178},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -14864,38 +14864,38 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValue",
-			pos:  position{line: 582, col: 1, offset: 18217},
+			pos:  position{line: 582, col: 1, offset: 18219},
 			expr: &actionExpr{
-				pos: position{line: 583, col: 5, offset: 18252},
+				pos: position{line: 583, col: 5, offset: 18254},
 				run: (*parser).callonSingleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 583, col: 5, offset: 18252},
+					pos: position{line: 583, col: 5, offset: 18254},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 583, col: 5, offset: 18252},
+							pos:        position{line: 583, col: 5, offset: 18254},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
 						},
 						&notExpr{
-							pos: position{line: 583, col: 9, offset: 18256},
+							pos: position{line: 583, col: 9, offset: 18258},
 							expr: &litMatcher{
-								pos:        position{line: 583, col: 10, offset: 18257},
+								pos:        position{line: 583, col: 10, offset: 18259},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 584, col: 5, offset: 18336},
+							pos:   position{line: 584, col: 5, offset: 18338},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 584, col: 14, offset: 18345},
+								pos:  position{line: 584, col: 14, offset: 18347},
 								name: "SingleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 585, col: 5, offset: 18384},
+							pos:        position{line: 585, col: 5, offset: 18386},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
@@ -14906,25 +14906,25 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValueContent",
-			pos:  position{line: 589, col: 1, offset: 18425},
+			pos:  position{line: 589, col: 1, offset: 18427},
 			expr: &actionExpr{
-				pos: position{line: 590, col: 5, offset: 18467},
+				pos: position{line: 590, col: 5, offset: 18469},
 				run: (*parser).callonSingleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 590, col: 5, offset: 18467},
+					pos:   position{line: 590, col: 5, offset: 18469},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 590, col: 14, offset: 18476},
+						pos: position{line: 590, col: 14, offset: 18478},
 						expr: &choiceExpr{
-							pos: position{line: 591, col: 9, offset: 18486},
+							pos: position{line: 591, col: 9, offset: 18488},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2838, col: 14, offset: 90349},
+									pos: position{line: 2838, col: 14, offset: 90351},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2838, col: 14, offset: 90349},
+										pos: position{line: 2838, col: 14, offset: 90351},
 										expr: &charClassMatcher{
-											pos:        position{line: 2838, col: 14, offset: 90349},
+											pos:        position{line: 2838, col: 14, offset: 90351},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14933,10 +14933,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2944, col: 10, offset: 93180},
+									pos: position{line: 2944, col: 10, offset: 93182},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2944, col: 10, offset: 93180},
+										pos:        position{line: 2944, col: 10, offset: 93182},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14944,39 +14944,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 593, col: 11, offset: 18522},
+									pos:  position{line: 593, col: 11, offset: 18524},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 661, col: 5, offset: 21195},
+									pos: position{line: 661, col: 5, offset: 21197},
 									run: (*parser).callonSingleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 661, col: 5, offset: 21195},
+										pos: position{line: 661, col: 5, offset: 21197},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 661, col: 5, offset: 21195},
+												pos: position{line: 661, col: 5, offset: 21197},
 												run: (*parser).callonSingleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 664, col: 5, offset: 21267},
+												pos:   position{line: 664, col: 5, offset: 21269},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 664, col: 14, offset: 21276},
+													pos: position{line: 664, col: 14, offset: 21278},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 670, col: 5, offset: 21405},
+															pos: position{line: 670, col: 5, offset: 21407},
 															run: (*parser).callonSingleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 670, col: 5, offset: 21405},
+																pos: position{line: 670, col: 5, offset: 21407},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 670, col: 5, offset: 21405},
+																		pos:        position{line: 670, col: 5, offset: 21407},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 670, col: 13, offset: 21413},
+																		pos:   position{line: 670, col: 13, offset: 21415},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -15008,7 +15008,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 670, col: 32, offset: 21432},
+																		pos:        position{line: 670, col: 32, offset: 21434},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -15017,19 +15017,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 677, col: 5, offset: 21673},
+															pos: position{line: 677, col: 5, offset: 21675},
 															run: (*parser).callonSingleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 677, col: 5, offset: 21673},
+																pos: position{line: 677, col: 5, offset: 21675},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 677, col: 5, offset: 21673},
+																		pos:        position{line: 677, col: 5, offset: 21675},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 677, col: 9, offset: 21677},
+																		pos:   position{line: 677, col: 9, offset: 21679},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -15061,7 +15061,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 677, col: 28, offset: 21696},
+																		pos:        position{line: 677, col: 28, offset: 21698},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -15070,19 +15070,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 683, col: 25, offset: 21877},
+															pos: position{line: 683, col: 25, offset: 21879},
 															run: (*parser).callonSingleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 683, col: 25, offset: 21877},
+																pos: position{line: 683, col: 25, offset: 21879},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 683, col: 25, offset: 21877},
+																		pos:        position{line: 683, col: 25, offset: 21879},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 683, col: 37, offset: 21889},
+																		pos:   position{line: 683, col: 37, offset: 21891},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -15114,33 +15114,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 683, col: 56, offset: 21908},
+																		pos:   position{line: 683, col: 56, offset: 21910},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 683, col: 62, offset: 21914},
+																			pos: position{line: 683, col: 62, offset: 21916},
 																			expr: &actionExpr{
-																				pos: position{line: 691, col: 17, offset: 22211},
+																				pos: position{line: 691, col: 17, offset: 22213},
 																				run: (*parser).callonSingleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 691, col: 17, offset: 22211},
+																					pos: position{line: 691, col: 17, offset: 22213},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 691, col: 17, offset: 22211},
+																							pos:        position{line: 691, col: 17, offset: 22213},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 691, col: 21, offset: 22215},
+																							pos:   position{line: 691, col: 21, offset: 22217},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 691, col: 28, offset: 22222},
+																								pos: position{line: 691, col: 28, offset: 22224},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 691, col: 28, offset: 22222},
+																										pos: position{line: 691, col: 28, offset: 22224},
 																										run: (*parser).callonSingleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 691, col: 28, offset: 22222},
+																											pos:        position{line: 691, col: 28, offset: 22224},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -15148,12 +15148,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 693, col: 9, offset: 22276},
+																										pos: position{line: 693, col: 9, offset: 22278},
 																										run: (*parser).callonSingleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 693, col: 9, offset: 22276},
+																											pos: position{line: 693, col: 9, offset: 22278},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 693, col: 9, offset: 22276},
+																												pos:        position{line: 693, col: 9, offset: 22278},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -15170,7 +15170,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 683, col: 78, offset: 21930},
+																		pos:        position{line: 683, col: 78, offset: 21932},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -15179,19 +15179,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 687, col: 25, offset: 22048},
+															pos: position{line: 687, col: 25, offset: 22050},
 															run: (*parser).callonSingleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 687, col: 25, offset: 22048},
+																pos: position{line: 687, col: 25, offset: 22050},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 687, col: 25, offset: 22048},
+																		pos:        position{line: 687, col: 25, offset: 22050},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 687, col: 38, offset: 22061},
+																		pos:   position{line: 687, col: 38, offset: 22063},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -15223,33 +15223,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 687, col: 57, offset: 22080},
+																		pos:   position{line: 687, col: 57, offset: 22082},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 687, col: 63, offset: 22086},
+																			pos: position{line: 687, col: 63, offset: 22088},
 																			expr: &actionExpr{
-																				pos: position{line: 691, col: 17, offset: 22211},
+																				pos: position{line: 691, col: 17, offset: 22213},
 																				run: (*parser).callonSingleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 691, col: 17, offset: 22211},
+																					pos: position{line: 691, col: 17, offset: 22213},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 691, col: 17, offset: 22211},
+																							pos:        position{line: 691, col: 17, offset: 22213},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 691, col: 21, offset: 22215},
+																							pos:   position{line: 691, col: 21, offset: 22217},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 691, col: 28, offset: 22222},
+																								pos: position{line: 691, col: 28, offset: 22224},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 691, col: 28, offset: 22222},
+																										pos: position{line: 691, col: 28, offset: 22224},
 																										run: (*parser).callonSingleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 691, col: 28, offset: 22222},
+																											pos:        position{line: 691, col: 28, offset: 22224},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -15257,12 +15257,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 693, col: 9, offset: 22276},
+																										pos: position{line: 693, col: 9, offset: 22278},
 																										run: (*parser).callonSingleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 693, col: 9, offset: 22276},
+																											pos: position{line: 693, col: 9, offset: 22278},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 693, col: 9, offset: 22276},
+																												pos:        position{line: 693, col: 9, offset: 22278},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -15279,7 +15279,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 687, col: 79, offset: 22102},
+																		pos:        position{line: 687, col: 79, offset: 22104},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -15294,44 +15294,44 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 595, col: 12, offset: 18576},
+									pos: position{line: 595, col: 12, offset: 18578},
 									run: (*parser).callonSingleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 595, col: 12, offset: 18576},
+										pos:        position{line: 595, col: 12, offset: 18578},
 										val:        "\\'",
 										ignoreCase: false,
 										want:       "\"\\\\'\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 598, col: 13, offset: 18678},
+									pos:        position{line: 598, col: 13, offset: 18680},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 598, col: 20, offset: 18685},
+									pos:        position{line: 598, col: 20, offset: 18687},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&actionExpr{
-									pos: position{line: 598, col: 27, offset: 18692},
+									pos: position{line: 598, col: 27, offset: 18694},
 									run: (*parser).callonSingleQuotedAttributeValueContent84,
 									expr: &litMatcher{
-										pos:        position{line: 598, col: 27, offset: 18692},
+										pos:        position{line: 598, col: 27, offset: 18694},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 601, col: 12, offset: 18852},
+									pos: position{line: 601, col: 12, offset: 18854},
 									run: (*parser).callonSingleQuotedAttributeValueContent86,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 601, col: 12, offset: 18852},
+										pos: position{line: 601, col: 12, offset: 18854},
 										expr: &charClassMatcher{
-											pos:        position{line: 601, col: 12, offset: 18852},
+											pos:        position{line: 601, col: 12, offset: 18854},
 											val:        "[^\\r\\n\\\\\\ ]",
 											chars:      []rune{'\r', '\n', '\\', '\'', ' '},
 											ignoreCase: false,
@@ -15347,56 +15347,56 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValue",
-			pos:  position{line: 611, col: 1, offset: 19156},
+			pos:  position{line: 611, col: 1, offset: 19158},
 			expr: &actionExpr{
-				pos: position{line: 612, col: 5, offset: 19191},
+				pos: position{line: 612, col: 5, offset: 19193},
 				run: (*parser).callonDoubleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 612, col: 5, offset: 19191},
+					pos: position{line: 612, col: 5, offset: 19193},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 612, col: 5, offset: 19191},
+							pos:        position{line: 612, col: 5, offset: 19193},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&notExpr{
-							pos: position{line: 612, col: 10, offset: 19196},
+							pos: position{line: 612, col: 10, offset: 19198},
 							expr: &litMatcher{
-								pos:        position{line: 612, col: 11, offset: 19197},
+								pos:        position{line: 612, col: 11, offset: 19199},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 613, col: 5, offset: 19276},
+							pos:   position{line: 613, col: 5, offset: 19278},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 613, col: 14, offset: 19285},
+								pos:  position{line: 613, col: 14, offset: 19287},
 								name: "DoubleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 614, col: 5, offset: 19324},
+							pos:        position{line: 614, col: 5, offset: 19326},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&andExpr{
-							pos: position{line: 614, col: 10, offset: 19329},
+							pos: position{line: 614, col: 10, offset: 19331},
 							expr: &notExpr{
-								pos: position{line: 614, col: 12, offset: 19331},
+								pos: position{line: 614, col: 12, offset: 19333},
 								expr: &seqExpr{
-									pos: position{line: 614, col: 14, offset: 19333},
+									pos: position{line: 614, col: 14, offset: 19335},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 614, col: 14, offset: 19333},
+											pos: position{line: 614, col: 14, offset: 19335},
 											expr: &actionExpr{
-												pos: position{line: 2944, col: 10, offset: 93180},
+												pos: position{line: 2944, col: 10, offset: 93182},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2944, col: 10, offset: 93180},
+													pos:        position{line: 2944, col: 10, offset: 93182},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -15405,7 +15405,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 614, col: 21, offset: 19340},
+											pos:        position{line: 614, col: 21, offset: 19342},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -15420,25 +15420,25 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValueContent",
-			pos:  position{line: 618, col: 1, offset: 19383},
+			pos:  position{line: 618, col: 1, offset: 19385},
 			expr: &actionExpr{
-				pos: position{line: 619, col: 5, offset: 19425},
+				pos: position{line: 619, col: 5, offset: 19427},
 				run: (*parser).callonDoubleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 619, col: 5, offset: 19425},
+					pos:   position{line: 619, col: 5, offset: 19427},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 619, col: 14, offset: 19434},
+						pos: position{line: 619, col: 14, offset: 19436},
 						expr: &choiceExpr{
-							pos: position{line: 620, col: 9, offset: 19444},
+							pos: position{line: 620, col: 9, offset: 19446},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2838, col: 14, offset: 90349},
+									pos: position{line: 2838, col: 14, offset: 90351},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2838, col: 14, offset: 90349},
+										pos: position{line: 2838, col: 14, offset: 90351},
 										expr: &charClassMatcher{
-											pos:        position{line: 2838, col: 14, offset: 90349},
+											pos:        position{line: 2838, col: 14, offset: 90351},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -15447,10 +15447,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2944, col: 10, offset: 93180},
+									pos: position{line: 2944, col: 10, offset: 93182},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2944, col: 10, offset: 93180},
+										pos:        position{line: 2944, col: 10, offset: 93182},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15458,39 +15458,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 622, col: 11, offset: 19480},
+									pos:  position{line: 622, col: 11, offset: 19482},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 661, col: 5, offset: 21195},
+									pos: position{line: 661, col: 5, offset: 21197},
 									run: (*parser).callonDoubleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 661, col: 5, offset: 21195},
+										pos: position{line: 661, col: 5, offset: 21197},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 661, col: 5, offset: 21195},
+												pos: position{line: 661, col: 5, offset: 21197},
 												run: (*parser).callonDoubleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 664, col: 5, offset: 21267},
+												pos:   position{line: 664, col: 5, offset: 21269},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 664, col: 14, offset: 21276},
+													pos: position{line: 664, col: 14, offset: 21278},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 670, col: 5, offset: 21405},
+															pos: position{line: 670, col: 5, offset: 21407},
 															run: (*parser).callonDoubleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 670, col: 5, offset: 21405},
+																pos: position{line: 670, col: 5, offset: 21407},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 670, col: 5, offset: 21405},
+																		pos:        position{line: 670, col: 5, offset: 21407},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 670, col: 13, offset: 21413},
+																		pos:   position{line: 670, col: 13, offset: 21415},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -15522,7 +15522,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 670, col: 32, offset: 21432},
+																		pos:        position{line: 670, col: 32, offset: 21434},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -15531,19 +15531,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 677, col: 5, offset: 21673},
+															pos: position{line: 677, col: 5, offset: 21675},
 															run: (*parser).callonDoubleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 677, col: 5, offset: 21673},
+																pos: position{line: 677, col: 5, offset: 21675},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 677, col: 5, offset: 21673},
+																		pos:        position{line: 677, col: 5, offset: 21675},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 677, col: 9, offset: 21677},
+																		pos:   position{line: 677, col: 9, offset: 21679},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -15575,7 +15575,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 677, col: 28, offset: 21696},
+																		pos:        position{line: 677, col: 28, offset: 21698},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -15584,19 +15584,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 683, col: 25, offset: 21877},
+															pos: position{line: 683, col: 25, offset: 21879},
 															run: (*parser).callonDoubleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 683, col: 25, offset: 21877},
+																pos: position{line: 683, col: 25, offset: 21879},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 683, col: 25, offset: 21877},
+																		pos:        position{line: 683, col: 25, offset: 21879},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 683, col: 37, offset: 21889},
+																		pos:   position{line: 683, col: 37, offset: 21891},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -15628,33 +15628,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 683, col: 56, offset: 21908},
+																		pos:   position{line: 683, col: 56, offset: 21910},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 683, col: 62, offset: 21914},
+																			pos: position{line: 683, col: 62, offset: 21916},
 																			expr: &actionExpr{
-																				pos: position{line: 691, col: 17, offset: 22211},
+																				pos: position{line: 691, col: 17, offset: 22213},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 691, col: 17, offset: 22211},
+																					pos: position{line: 691, col: 17, offset: 22213},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 691, col: 17, offset: 22211},
+																							pos:        position{line: 691, col: 17, offset: 22213},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 691, col: 21, offset: 22215},
+																							pos:   position{line: 691, col: 21, offset: 22217},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 691, col: 28, offset: 22222},
+																								pos: position{line: 691, col: 28, offset: 22224},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 691, col: 28, offset: 22222},
+																										pos: position{line: 691, col: 28, offset: 22224},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 691, col: 28, offset: 22222},
+																											pos:        position{line: 691, col: 28, offset: 22224},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -15662,12 +15662,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 693, col: 9, offset: 22276},
+																										pos: position{line: 693, col: 9, offset: 22278},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 693, col: 9, offset: 22276},
+																											pos: position{line: 693, col: 9, offset: 22278},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 693, col: 9, offset: 22276},
+																												pos:        position{line: 693, col: 9, offset: 22278},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -15684,7 +15684,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 683, col: 78, offset: 21930},
+																		pos:        position{line: 683, col: 78, offset: 21932},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -15693,19 +15693,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 687, col: 25, offset: 22048},
+															pos: position{line: 687, col: 25, offset: 22050},
 															run: (*parser).callonDoubleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 687, col: 25, offset: 22048},
+																pos: position{line: 687, col: 25, offset: 22050},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 687, col: 25, offset: 22048},
+																		pos:        position{line: 687, col: 25, offset: 22050},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 687, col: 38, offset: 22061},
+																		pos:   position{line: 687, col: 38, offset: 22063},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 320, col: 18, offset: 9837},
@@ -15737,33 +15737,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 687, col: 57, offset: 22080},
+																		pos:   position{line: 687, col: 57, offset: 22082},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 687, col: 63, offset: 22086},
+																			pos: position{line: 687, col: 63, offset: 22088},
 																			expr: &actionExpr{
-																				pos: position{line: 691, col: 17, offset: 22211},
+																				pos: position{line: 691, col: 17, offset: 22213},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 691, col: 17, offset: 22211},
+																					pos: position{line: 691, col: 17, offset: 22213},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 691, col: 17, offset: 22211},
+																							pos:        position{line: 691, col: 17, offset: 22213},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 691, col: 21, offset: 22215},
+																							pos:   position{line: 691, col: 21, offset: 22217},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 691, col: 28, offset: 22222},
+																								pos: position{line: 691, col: 28, offset: 22224},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 691, col: 28, offset: 22222},
+																										pos: position{line: 691, col: 28, offset: 22224},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 691, col: 28, offset: 22222},
+																											pos:        position{line: 691, col: 28, offset: 22224},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -15771,12 +15771,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 693, col: 9, offset: 22276},
+																										pos: position{line: 693, col: 9, offset: 22278},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 693, col: 9, offset: 22276},
+																											pos: position{line: 693, col: 9, offset: 22278},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 693, col: 9, offset: 22276},
+																												pos:        position{line: 693, col: 9, offset: 22278},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -15793,7 +15793,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 687, col: 79, offset: 22102},
+																		pos:        position{line: 687, col: 79, offset: 22104},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -15808,50 +15808,50 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 624, col: 12, offset: 19535},
+									pos: position{line: 624, col: 12, offset: 19537},
 									run: (*parser).callonDoubleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 624, col: 12, offset: 19535},
+										pos:        position{line: 624, col: 12, offset: 19537},
 										val:        "\\\"",
 										ignoreCase: false,
 										want:       "\"\\\\\\\"\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 627, col: 13, offset: 19637},
+									pos:        position{line: 627, col: 13, offset: 19639},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 627, col: 21, offset: 19645},
+									pos:        position{line: 627, col: 21, offset: 19647},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&litMatcher{
-									pos:        position{line: 627, col: 29, offset: 19653},
+									pos:        position{line: 627, col: 29, offset: 19655},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&actionExpr{
-									pos: position{line: 627, col: 35, offset: 19659},
+									pos: position{line: 627, col: 35, offset: 19661},
 									run: (*parser).callonDoubleQuotedAttributeValueContent85,
 									expr: &litMatcher{
-										pos:        position{line: 627, col: 35, offset: 19659},
+										pos:        position{line: 627, col: 35, offset: 19661},
 										val:        "`",
 										ignoreCase: false,
 										want:       "\"`\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 630, col: 12, offset: 19842},
+									pos: position{line: 630, col: 12, offset: 19844},
 									run: (*parser).callonDoubleQuotedAttributeValueContent87,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 630, col: 12, offset: 19842},
+										pos: position{line: 630, col: 12, offset: 19844},
 										expr: &charClassMatcher{
-											pos:        position{line: 630, col: 12, offset: 19842},
+											pos:        position{line: 630, col: 12, offset: 19844},
 											val:        "[^\\r\\n\\\\\"` ]",
 											chars:      []rune{'\r', '\n', '\\', '"', '`', ' '},
 											ignoreCase: false,
@@ -15867,20 +15867,20 @@ var g = &grammar{
 		},
 		{
 			name: "UnquotedAttributeValue",
-			pos:  position{line: 641, col: 1, offset: 20223},
+			pos:  position{line: 641, col: 1, offset: 20225},
 			expr: &actionExpr{
-				pos: position{line: 644, col: 5, offset: 20407},
+				pos: position{line: 644, col: 5, offset: 20409},
 				run: (*parser).callonUnquotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 644, col: 5, offset: 20407},
+					pos: position{line: 644, col: 5, offset: 20409},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 644, col: 5, offset: 20407},
+							pos: position{line: 644, col: 5, offset: 20409},
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 10, offset: 93180},
+								pos: position{line: 2944, col: 10, offset: 93182},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2944, col: 10, offset: 93180},
+									pos:        position{line: 2944, col: 10, offset: 93182},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15889,28 +15889,28 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 645, col: 5, offset: 20476},
+							pos:   position{line: 645, col: 5, offset: 20478},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 645, col: 14, offset: 20485},
+								pos: position{line: 645, col: 14, offset: 20487},
 								expr: &choiceExpr{
-									pos: position{line: 646, col: 9, offset: 20495},
+									pos: position{line: 646, col: 9, offset: 20497},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 646, col: 10, offset: 20496},
+											pos: position{line: 646, col: 10, offset: 20498},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 646, col: 10, offset: 20496},
+													pos:        position{line: 646, col: 10, offset: 20498},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
 												},
 												&ruleRefExpr{
-													pos:  position{line: 646, col: 14, offset: 20500},
+													pos:  position{line: 646, col: 14, offset: 20502},
 													name: "UnquotedAttributeValue",
 												},
 												&litMatcher{
-													pos:        position{line: 646, col: 37, offset: 20523},
+													pos:        position{line: 646, col: 37, offset: 20525},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
@@ -15918,35 +15918,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 661, col: 5, offset: 21195},
+											pos: position{line: 661, col: 5, offset: 21197},
 											run: (*parser).callonUnquotedAttributeValue13,
 											expr: &seqExpr{
-												pos: position{line: 661, col: 5, offset: 21195},
+												pos: position{line: 661, col: 5, offset: 21197},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 661, col: 5, offset: 21195},
+														pos: position{line: 661, col: 5, offset: 21197},
 														run: (*parser).callonUnquotedAttributeValue15,
 													},
 													&labeledExpr{
-														pos:   position{line: 664, col: 5, offset: 21267},
+														pos:   position{line: 664, col: 5, offset: 21269},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 664, col: 14, offset: 21276},
+															pos: position{line: 664, col: 14, offset: 21278},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 670, col: 5, offset: 21405},
+																	pos: position{line: 670, col: 5, offset: 21407},
 																	run: (*parser).callonUnquotedAttributeValue18,
 																	expr: &seqExpr{
-																		pos: position{line: 670, col: 5, offset: 21405},
+																		pos: position{line: 670, col: 5, offset: 21407},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 670, col: 5, offset: 21405},
+																				pos:        position{line: 670, col: 5, offset: 21407},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 670, col: 13, offset: 21413},
+																				pos:   position{line: 670, col: 13, offset: 21415},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -15978,7 +15978,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 670, col: 32, offset: 21432},
+																				pos:        position{line: 670, col: 32, offset: 21434},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15987,19 +15987,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 677, col: 5, offset: 21673},
+																	pos: position{line: 677, col: 5, offset: 21675},
 																	run: (*parser).callonUnquotedAttributeValue28,
 																	expr: &seqExpr{
-																		pos: position{line: 677, col: 5, offset: 21673},
+																		pos: position{line: 677, col: 5, offset: 21675},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 677, col: 5, offset: 21673},
+																				pos:        position{line: 677, col: 5, offset: 21675},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 677, col: 9, offset: 21677},
+																				pos:   position{line: 677, col: 9, offset: 21679},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -16031,7 +16031,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 677, col: 28, offset: 21696},
+																				pos:        position{line: 677, col: 28, offset: 21698},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -16040,19 +16040,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 683, col: 25, offset: 21877},
+																	pos: position{line: 683, col: 25, offset: 21879},
 																	run: (*parser).callonUnquotedAttributeValue38,
 																	expr: &seqExpr{
-																		pos: position{line: 683, col: 25, offset: 21877},
+																		pos: position{line: 683, col: 25, offset: 21879},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 683, col: 25, offset: 21877},
+																				pos:        position{line: 683, col: 25, offset: 21879},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 683, col: 37, offset: 21889},
+																				pos:   position{line: 683, col: 37, offset: 21891},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -16084,33 +16084,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 683, col: 56, offset: 21908},
+																				pos:   position{line: 683, col: 56, offset: 21910},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 683, col: 62, offset: 21914},
+																					pos: position{line: 683, col: 62, offset: 21916},
 																					expr: &actionExpr{
-																						pos: position{line: 691, col: 17, offset: 22211},
+																						pos: position{line: 691, col: 17, offset: 22213},
 																						run: (*parser).callonUnquotedAttributeValue49,
 																						expr: &seqExpr{
-																							pos: position{line: 691, col: 17, offset: 22211},
+																							pos: position{line: 691, col: 17, offset: 22213},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 691, col: 17, offset: 22211},
+																									pos:        position{line: 691, col: 17, offset: 22213},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 691, col: 21, offset: 22215},
+																									pos:   position{line: 691, col: 21, offset: 22217},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 691, col: 28, offset: 22222},
+																										pos: position{line: 691, col: 28, offset: 22224},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 691, col: 28, offset: 22222},
+																												pos: position{line: 691, col: 28, offset: 22224},
 																												run: (*parser).callonUnquotedAttributeValue54,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 691, col: 28, offset: 22222},
+																													pos:        position{line: 691, col: 28, offset: 22224},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -16118,12 +16118,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 693, col: 9, offset: 22276},
+																												pos: position{line: 693, col: 9, offset: 22278},
 																												run: (*parser).callonUnquotedAttributeValue56,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 693, col: 9, offset: 22276},
+																													pos: position{line: 693, col: 9, offset: 22278},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 693, col: 9, offset: 22276},
+																														pos:        position{line: 693, col: 9, offset: 22278},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -16140,7 +16140,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 683, col: 78, offset: 21930},
+																				pos:        position{line: 683, col: 78, offset: 21932},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -16149,19 +16149,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 687, col: 25, offset: 22048},
+																	pos: position{line: 687, col: 25, offset: 22050},
 																	run: (*parser).callonUnquotedAttributeValue60,
 																	expr: &seqExpr{
-																		pos: position{line: 687, col: 25, offset: 22048},
+																		pos: position{line: 687, col: 25, offset: 22050},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 687, col: 25, offset: 22048},
+																				pos:        position{line: 687, col: 25, offset: 22050},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 687, col: 38, offset: 22061},
+																				pos:   position{line: 687, col: 38, offset: 22063},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -16193,33 +16193,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 687, col: 57, offset: 22080},
+																				pos:   position{line: 687, col: 57, offset: 22082},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 687, col: 63, offset: 22086},
+																					pos: position{line: 687, col: 63, offset: 22088},
 																					expr: &actionExpr{
-																						pos: position{line: 691, col: 17, offset: 22211},
+																						pos: position{line: 691, col: 17, offset: 22213},
 																						run: (*parser).callonUnquotedAttributeValue71,
 																						expr: &seqExpr{
-																							pos: position{line: 691, col: 17, offset: 22211},
+																							pos: position{line: 691, col: 17, offset: 22213},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 691, col: 17, offset: 22211},
+																									pos:        position{line: 691, col: 17, offset: 22213},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 691, col: 21, offset: 22215},
+																									pos:   position{line: 691, col: 21, offset: 22217},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 691, col: 28, offset: 22222},
+																										pos: position{line: 691, col: 28, offset: 22224},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 691, col: 28, offset: 22222},
+																												pos: position{line: 691, col: 28, offset: 22224},
 																												run: (*parser).callonUnquotedAttributeValue76,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 691, col: 28, offset: 22222},
+																													pos:        position{line: 691, col: 28, offset: 22224},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -16227,12 +16227,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 693, col: 9, offset: 22276},
+																												pos: position{line: 693, col: 9, offset: 22278},
 																												run: (*parser).callonUnquotedAttributeValue78,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 693, col: 9, offset: 22276},
+																													pos: position{line: 693, col: 9, offset: 22278},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 693, col: 9, offset: 22276},
+																														pos:        position{line: 693, col: 9, offset: 22278},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -16249,7 +16249,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 687, col: 79, offset: 22102},
+																				pos:        position{line: 687, col: 79, offset: 22104},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -16264,16 +16264,16 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 647, col: 32, offset: 20610},
+											pos:        position{line: 647, col: 32, offset: 20612},
 											val:        "{",
 											ignoreCase: false,
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2944, col: 10, offset: 93180},
+											pos: position{line: 2944, col: 10, offset: 93182},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2944, col: 10, offset: 93180},
+												pos:        position{line: 2944, col: 10, offset: 93182},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -16281,12 +16281,12 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 649, col: 12, offset: 20695},
+											pos: position{line: 649, col: 12, offset: 20697},
 											run: (*parser).callonUnquotedAttributeValue85,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 649, col: 12, offset: 20695},
+												pos: position{line: 649, col: 12, offset: 20697},
 												expr: &charClassMatcher{
-													pos:        position{line: 649, col: 12, offset: 20695},
+													pos:        position{line: 649, col: 12, offset: 20697},
 													val:        "[^=,]{ ]",
 													chars:      []rune{'=', ',', ']', '{', ' '},
 													ignoreCase: false,
@@ -16304,32 +16304,32 @@ var g = &grammar{
 		},
 		{
 			name: "CrossReference",
-			pos:  position{line: 709, col: 1, offset: 22838},
+			pos:  position{line: 709, col: 1, offset: 22840},
 			expr: &choiceExpr{
-				pos: position{line: 709, col: 19, offset: 22856},
+				pos: position{line: 709, col: 19, offset: 22858},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 711, col: 27, offset: 22932},
+						pos: position{line: 711, col: 27, offset: 22934},
 						run: (*parser).callonCrossReference2,
 						expr: &seqExpr{
-							pos: position{line: 711, col: 27, offset: 22932},
+							pos: position{line: 711, col: 27, offset: 22934},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 711, col: 27, offset: 22932},
+									pos:        position{line: 711, col: 27, offset: 22934},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 711, col: 32, offset: 22937},
+									pos:   position{line: 711, col: 32, offset: 22939},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2929, col: 7, offset: 92832},
+										pos: position{line: 2929, col: 7, offset: 92834},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2929, col: 7, offset: 92832},
+											pos: position{line: 2929, col: 7, offset: 92834},
 											expr: &charClassMatcher{
-												pos:        position{line: 2929, col: 7, offset: 92832},
+												pos:        position{line: 2929, col: 7, offset: 92834},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -16339,12 +16339,12 @@ var g = &grammar{
 									},
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 711, col: 40, offset: 22945},
+									pos: position{line: 711, col: 40, offset: 22947},
 									expr: &actionExpr{
-										pos: position{line: 2944, col: 10, offset: 93180},
+										pos: position{line: 2944, col: 10, offset: 93182},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2944, col: 10, offset: 93180},
+											pos:        position{line: 2944, col: 10, offset: 93182},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -16353,36 +16353,36 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 711, col: 47, offset: 22952},
+									pos:        position{line: 711, col: 47, offset: 22954},
 									val:        ",",
 									ignoreCase: false,
 									want:       "\",\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 711, col: 51, offset: 22956},
+									pos:   position{line: 711, col: 51, offset: 22958},
 									label: "label",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 721, col: 24, offset: 23357},
+										pos: position{line: 721, col: 24, offset: 23359},
 										expr: &choiceExpr{
-											pos: position{line: 722, col: 5, offset: 23363},
+											pos: position{line: 722, col: 5, offset: 23365},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 722, col: 6, offset: 23364},
+													pos: position{line: 722, col: 6, offset: 23366},
 													run: (*parser).callonCrossReference16,
 													expr: &seqExpr{
-														pos: position{line: 722, col: 6, offset: 23364},
+														pos: position{line: 722, col: 6, offset: 23366},
 														exprs: []interface{}{
 															&charClassMatcher{
-																pos:        position{line: 722, col: 6, offset: 23364},
+																pos:        position{line: 722, col: 6, offset: 23366},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
 																inverted:   false,
 															},
 															&oneOrMoreExpr{
-																pos: position{line: 722, col: 14, offset: 23372},
+																pos: position{line: 722, col: 14, offset: 23374},
 																expr: &charClassMatcher{
-																	pos:        position{line: 722, col: 14, offset: 23372},
+																	pos:        position{line: 722, col: 14, offset: 23374},
 																	val:        "[^\\r\\n{<>]",
 																	chars:      []rune{'\r', '\n', '{', '<', '>'},
 																	ignoreCase: false,
@@ -16393,19 +16393,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 670, col: 5, offset: 21405},
+													pos: position{line: 670, col: 5, offset: 21407},
 													run: (*parser).callonCrossReference21,
 													expr: &seqExpr{
-														pos: position{line: 670, col: 5, offset: 21405},
+														pos: position{line: 670, col: 5, offset: 21407},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 670, col: 5, offset: 21405},
+																pos:        position{line: 670, col: 5, offset: 21407},
 																val:        "\\{",
 																ignoreCase: false,
 																want:       "\"\\\\{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 670, col: 13, offset: 21413},
+																pos:   position{line: 670, col: 13, offset: 21415},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 320, col: 18, offset: 9837},
@@ -16437,7 +16437,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 670, col: 32, offset: 21432},
+																pos:        position{line: 670, col: 32, offset: 21434},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -16446,19 +16446,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 677, col: 5, offset: 21673},
+													pos: position{line: 677, col: 5, offset: 21675},
 													run: (*parser).callonCrossReference31,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 5, offset: 21673},
+														pos: position{line: 677, col: 5, offset: 21675},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 677, col: 5, offset: 21673},
+																pos:        position{line: 677, col: 5, offset: 21675},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 677, col: 9, offset: 21677},
+																pos:   position{line: 677, col: 9, offset: 21679},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 320, col: 18, offset: 9837},
@@ -16490,7 +16490,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 677, col: 28, offset: 21696},
+																pos:        position{line: 677, col: 28, offset: 21698},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -16499,10 +16499,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 726, col: 8, offset: 23598},
+													pos: position{line: 726, col: 8, offset: 23600},
 													run: (*parser).callonCrossReference41,
 													expr: &litMatcher{
-														pos:        position{line: 726, col: 8, offset: 23598},
+														pos:        position{line: 726, col: 8, offset: 23600},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -16513,7 +16513,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 711, col: 79, offset: 22984},
+									pos:        position{line: 711, col: 79, offset: 22986},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -16522,27 +16522,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 713, col: 9, offset: 23057},
+						pos: position{line: 713, col: 9, offset: 23059},
 						run: (*parser).callonCrossReference44,
 						expr: &seqExpr{
-							pos: position{line: 713, col: 9, offset: 23057},
+							pos: position{line: 713, col: 9, offset: 23059},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 713, col: 9, offset: 23057},
+									pos:        position{line: 713, col: 9, offset: 23059},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 713, col: 14, offset: 23062},
+									pos:   position{line: 713, col: 14, offset: 23064},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2929, col: 7, offset: 92832},
+										pos: position{line: 2929, col: 7, offset: 92834},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2929, col: 7, offset: 92832},
+											pos: position{line: 2929, col: 7, offset: 92834},
 											expr: &charClassMatcher{
-												pos:        position{line: 2929, col: 7, offset: 92832},
+												pos:        position{line: 2929, col: 7, offset: 92834},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -16552,7 +16552,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 713, col: 22, offset: 23070},
+									pos:        position{line: 713, col: 22, offset: 23072},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -16561,7 +16561,7 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 709, col: 44, offset: 22881},
+						pos:  position{line: 709, col: 44, offset: 22883},
 						name: "ExternalCrossReference",
 					},
 				},
@@ -16569,58 +16569,58 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalCrossReference",
-			pos:  position{line: 717, col: 1, offset: 23141},
+			pos:  position{line: 717, col: 1, offset: 23143},
 			expr: &actionExpr{
-				pos: position{line: 717, col: 27, offset: 23167},
+				pos: position{line: 717, col: 27, offset: 23169},
 				run: (*parser).callonExternalCrossReference1,
 				expr: &seqExpr{
-					pos: position{line: 717, col: 27, offset: 23167},
+					pos: position{line: 717, col: 27, offset: 23169},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 717, col: 27, offset: 23167},
+							pos:        position{line: 717, col: 27, offset: 23169},
 							val:        "xref:",
 							ignoreCase: false,
 							want:       "\"xref:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 717, col: 35, offset: 23175},
+							pos:   position{line: 717, col: 35, offset: 23177},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2898, col: 17, offset: 91843},
+								pos: position{line: 2898, col: 17, offset: 91845},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2898, col: 17, offset: 91843},
+									pos:   position{line: 2898, col: 17, offset: 91845},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2915, col: 5, offset: 92297},
+										pos: position{line: 2915, col: 5, offset: 92299},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2915, col: 5, offset: 92297},
+											pos:   position{line: 2915, col: 5, offset: 92299},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2915, col: 14, offset: 92306},
+												pos: position{line: 2915, col: 14, offset: 92308},
 												expr: &choiceExpr{
-													pos: position{line: 2916, col: 9, offset: 92316},
+													pos: position{line: 2916, col: 9, offset: 92318},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2916, col: 9, offset: 92316},
+															pos: position{line: 2916, col: 9, offset: 92318},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2916, col: 9, offset: 92316},
+																pos: position{line: 2916, col: 9, offset: 92318},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2916, col: 9, offset: 92316},
+																		pos: position{line: 2916, col: 9, offset: 92318},
 																		expr: &litMatcher{
-																			pos:        position{line: 2916, col: 10, offset: 92317},
+																			pos:        position{line: 2916, col: 10, offset: 92319},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2917, col: 9, offset: 92345},
+																		pos: position{line: 2917, col: 9, offset: 92347},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2917, col: 10, offset: 92346},
+																			pos:        position{line: 2917, col: 10, offset: 92348},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -16631,27 +16631,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2920, col: 11, offset: 92558},
+															pos: position{line: 2920, col: 11, offset: 92560},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2920, col: 11, offset: 92558},
+																	pos:        position{line: 2920, col: 11, offset: 92560},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2920, col: 19, offset: 92566},
+																	pos: position{line: 2920, col: 19, offset: 92568},
 																	expr: &seqExpr{
-																		pos: position{line: 2920, col: 21, offset: 92568},
+																		pos: position{line: 2920, col: 21, offset: 92570},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2920, col: 21, offset: 92568},
+																				pos: position{line: 2920, col: 21, offset: 92570},
 																				expr: &actionExpr{
-																					pos: position{line: 2944, col: 10, offset: 93180},
+																					pos: position{line: 2944, col: 10, offset: 93182},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2944, col: 10, offset: 93180},
+																						pos:        position{line: 2944, col: 10, offset: 93182},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -16660,11 +16660,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2920, col: 28, offset: 92575},
+																				pos: position{line: 2920, col: 28, offset: 92577},
 																				expr: &notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
@@ -16674,35 +16674,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 661, col: 5, offset: 21195},
+															pos: position{line: 661, col: 5, offset: 21197},
 															run: (*parser).callonExternalCrossReference27,
 															expr: &seqExpr{
-																pos: position{line: 661, col: 5, offset: 21195},
+																pos: position{line: 661, col: 5, offset: 21197},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 661, col: 5, offset: 21195},
+																		pos: position{line: 661, col: 5, offset: 21197},
 																		run: (*parser).callonExternalCrossReference29,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 664, col: 5, offset: 21267},
+																		pos:   position{line: 664, col: 5, offset: 21269},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 664, col: 14, offset: 21276},
+																			pos: position{line: 664, col: 14, offset: 21278},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 670, col: 5, offset: 21405},
+																					pos: position{line: 670, col: 5, offset: 21407},
 																					run: (*parser).callonExternalCrossReference32,
 																					expr: &seqExpr{
-																						pos: position{line: 670, col: 5, offset: 21405},
+																						pos: position{line: 670, col: 5, offset: 21407},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 670, col: 5, offset: 21405},
+																								pos:        position{line: 670, col: 5, offset: 21407},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 670, col: 13, offset: 21413},
+																								pos:   position{line: 670, col: 13, offset: 21415},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -16734,7 +16734,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 670, col: 32, offset: 21432},
+																								pos:        position{line: 670, col: 32, offset: 21434},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16743,19 +16743,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 677, col: 5, offset: 21673},
+																					pos: position{line: 677, col: 5, offset: 21675},
 																					run: (*parser).callonExternalCrossReference42,
 																					expr: &seqExpr{
-																						pos: position{line: 677, col: 5, offset: 21673},
+																						pos: position{line: 677, col: 5, offset: 21675},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 677, col: 5, offset: 21673},
+																								pos:        position{line: 677, col: 5, offset: 21675},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 677, col: 9, offset: 21677},
+																								pos:   position{line: 677, col: 9, offset: 21679},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -16787,7 +16787,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 677, col: 28, offset: 21696},
+																								pos:        position{line: 677, col: 28, offset: 21698},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16796,19 +16796,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 683, col: 25, offset: 21877},
+																					pos: position{line: 683, col: 25, offset: 21879},
 																					run: (*parser).callonExternalCrossReference52,
 																					expr: &seqExpr{
-																						pos: position{line: 683, col: 25, offset: 21877},
+																						pos: position{line: 683, col: 25, offset: 21879},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 683, col: 25, offset: 21877},
+																								pos:        position{line: 683, col: 25, offset: 21879},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 683, col: 37, offset: 21889},
+																								pos:   position{line: 683, col: 37, offset: 21891},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -16840,33 +16840,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 683, col: 56, offset: 21908},
+																								pos:   position{line: 683, col: 56, offset: 21910},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 683, col: 62, offset: 21914},
+																									pos: position{line: 683, col: 62, offset: 21916},
 																									expr: &actionExpr{
-																										pos: position{line: 691, col: 17, offset: 22211},
+																										pos: position{line: 691, col: 17, offset: 22213},
 																										run: (*parser).callonExternalCrossReference63,
 																										expr: &seqExpr{
-																											pos: position{line: 691, col: 17, offset: 22211},
+																											pos: position{line: 691, col: 17, offset: 22213},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 691, col: 17, offset: 22211},
+																													pos:        position{line: 691, col: 17, offset: 22213},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 691, col: 21, offset: 22215},
+																													pos:   position{line: 691, col: 21, offset: 22217},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 691, col: 28, offset: 22222},
+																														pos: position{line: 691, col: 28, offset: 22224},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 691, col: 28, offset: 22222},
+																																pos: position{line: 691, col: 28, offset: 22224},
 																																run: (*parser).callonExternalCrossReference68,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 691, col: 28, offset: 22222},
+																																	pos:        position{line: 691, col: 28, offset: 22224},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -16874,12 +16874,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 693, col: 9, offset: 22276},
+																																pos: position{line: 693, col: 9, offset: 22278},
 																																run: (*parser).callonExternalCrossReference70,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 693, col: 9, offset: 22276},
+																																	pos: position{line: 693, col: 9, offset: 22278},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 693, col: 9, offset: 22276},
+																																		pos:        position{line: 693, col: 9, offset: 22278},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -16896,7 +16896,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 683, col: 78, offset: 21930},
+																								pos:        position{line: 683, col: 78, offset: 21932},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16905,19 +16905,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 687, col: 25, offset: 22048},
+																					pos: position{line: 687, col: 25, offset: 22050},
 																					run: (*parser).callonExternalCrossReference74,
 																					expr: &seqExpr{
-																						pos: position{line: 687, col: 25, offset: 22048},
+																						pos: position{line: 687, col: 25, offset: 22050},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 687, col: 25, offset: 22048},
+																								pos:        position{line: 687, col: 25, offset: 22050},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 687, col: 38, offset: 22061},
+																								pos:   position{line: 687, col: 38, offset: 22063},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -16949,33 +16949,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 687, col: 57, offset: 22080},
+																								pos:   position{line: 687, col: 57, offset: 22082},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 687, col: 63, offset: 22086},
+																									pos: position{line: 687, col: 63, offset: 22088},
 																									expr: &actionExpr{
-																										pos: position{line: 691, col: 17, offset: 22211},
+																										pos: position{line: 691, col: 17, offset: 22213},
 																										run: (*parser).callonExternalCrossReference85,
 																										expr: &seqExpr{
-																											pos: position{line: 691, col: 17, offset: 22211},
+																											pos: position{line: 691, col: 17, offset: 22213},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 691, col: 17, offset: 22211},
+																													pos:        position{line: 691, col: 17, offset: 22213},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 691, col: 21, offset: 22215},
+																													pos:   position{line: 691, col: 21, offset: 22217},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 691, col: 28, offset: 22222},
+																														pos: position{line: 691, col: 28, offset: 22224},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 691, col: 28, offset: 22222},
+																																pos: position{line: 691, col: 28, offset: 22224},
 																																run: (*parser).callonExternalCrossReference90,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 691, col: 28, offset: 22222},
+																																	pos:        position{line: 691, col: 28, offset: 22224},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -16983,12 +16983,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 693, col: 9, offset: 22276},
+																																pos: position{line: 693, col: 9, offset: 22278},
 																																run: (*parser).callonExternalCrossReference92,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 693, col: 9, offset: 22276},
+																																	pos: position{line: 693, col: 9, offset: 22278},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 693, col: 9, offset: 22276},
+																																		pos:        position{line: 693, col: 9, offset: 22278},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -17005,7 +17005,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 687, col: 79, offset: 22102},
+																								pos:        position{line: 687, col: 79, offset: 22104},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -17020,27 +17020,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1223, col: 23, offset: 38060},
+															pos: position{line: 1223, col: 23, offset: 38062},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1223, col: 23, offset: 38060},
+																pos: position{line: 1223, col: 23, offset: 38062},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1221, col: 32, offset: 38028},
+																		pos:        position{line: 1221, col: 32, offset: 38030},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1223, col: 51, offset: 38088},
+																		pos:   position{line: 1223, col: 51, offset: 38090},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1223, col: 56, offset: 38093},
+																			pos: position{line: 1223, col: 56, offset: 38095},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1223, col: 56, offset: 38093},
+																				pos: position{line: 1223, col: 56, offset: 38095},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1223, col: 56, offset: 38093},
+																					pos:        position{line: 1223, col: 56, offset: 38095},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -17050,23 +17050,23 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1221, col: 32, offset: 38028},
+																		pos:        position{line: 1221, col: 32, offset: 38030},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1223, col: 123, offset: 38160},
+																		pos: position{line: 1223, col: 123, offset: 38162},
 																		run: (*parser).callonExternalCrossReference104,
 																	},
 																},
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2923, col: 11, offset: 92695},
+															pos: position{line: 2923, col: 11, offset: 92697},
 															run: (*parser).callonExternalCrossReference105,
 															expr: &litMatcher{
-																pos:        position{line: 2923, col: 11, offset: 92695},
+																pos:        position{line: 2923, col: 11, offset: 92697},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -17081,10 +17081,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 717, col: 54, offset: 23194},
+							pos:   position{line: 717, col: 54, offset: 23196},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 717, col: 66, offset: 23206},
+								pos:  position{line: 717, col: 66, offset: 23208},
 								name: "InlineAttributes",
 							},
 						},
@@ -17094,29 +17094,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 1013, col: 1, offset: 31855},
+			pos:  position{line: 1013, col: 1, offset: 31857},
 			expr: &actionExpr{
-				pos: position{line: 1014, col: 5, offset: 31888},
+				pos: position{line: 1014, col: 5, offset: 31890},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 1014, col: 5, offset: 31888},
+					pos: position{line: 1014, col: 5, offset: 31890},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1014, col: 5, offset: 31888},
+							pos:        position{line: 1014, col: 5, offset: 31890},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1014, col: 11, offset: 31894},
+							pos:   position{line: 1014, col: 11, offset: 31896},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2894, col: 14, offset: 91773},
+								pos: position{line: 2894, col: 14, offset: 91775},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2894, col: 14, offset: 91773},
+									pos: position{line: 2894, col: 14, offset: 91775},
 									expr: &charClassMatcher{
-										pos:        position{line: 2894, col: 14, offset: 91773},
+										pos:        position{line: 2894, col: 14, offset: 91775},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -17126,28 +17126,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2966, col: 8, offset: 93578},
+							pos: position{line: 2966, col: 8, offset: 93580},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2953, col: 12, offset: 93351},
+									pos: position{line: 2953, col: 12, offset: 93353},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2953, col: 13, offset: 93352},
+										pos: position{line: 2953, col: 13, offset: 93354},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2953, col: 13, offset: 93352},
+												pos:        position{line: 2953, col: 13, offset: 93354},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 20, offset: 93359},
+												pos:        position{line: 2953, col: 20, offset: 93361},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 29, offset: 93368},
+												pos:        position{line: 2953, col: 29, offset: 93370},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -17156,9 +17156,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2963, col: 8, offset: 93528},
+									pos: position{line: 2963, col: 8, offset: 93530},
 									expr: &anyMatcher{
-										line: 2963, col: 9, offset: 93529,
+										line: 2963, col: 9, offset: 93531,
 									},
 								},
 							},
@@ -17169,53 +17169,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1125, col: 1, offset: 34811},
+			pos:  position{line: 1125, col: 1, offset: 34813},
 			expr: &actionExpr{
-				pos: position{line: 1126, col: 5, offset: 34834},
+				pos: position{line: 1126, col: 5, offset: 34836},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1126, col: 5, offset: 34834},
+					pos: position{line: 1126, col: 5, offset: 34836},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1126, col: 5, offset: 34834},
+							pos: position{line: 1126, col: 5, offset: 34836},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1129, col: 5, offset: 34895},
+							pos: position{line: 1129, col: 5, offset: 34897},
 							expr: &choiceExpr{
-								pos: position{line: 1129, col: 6, offset: 34896},
+								pos: position{line: 1129, col: 6, offset: 34898},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2538, col: 22, offset: 81740},
+										pos: position{line: 2538, col: 22, offset: 81742},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2538, col: 22, offset: 81740},
+											pos: position{line: 2538, col: 22, offset: 81742},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2543, col: 31, offset: 81990},
+													pos:        position{line: 2543, col: 31, offset: 81992},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2543, col: 36, offset: 81995},
+													pos: position{line: 2543, col: 36, offset: 81997},
 													expr: &litMatcher{
-														pos:        position{line: 2543, col: 37, offset: 81996},
+														pos:        position{line: 2543, col: 37, offset: 81998},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2538, col: 49, offset: 81767},
+													pos:   position{line: 2538, col: 49, offset: 81769},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2890, col: 13, offset: 91706},
+														pos: position{line: 2890, col: 13, offset: 91708},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2890, col: 13, offset: 91706},
+															pos: position{line: 2890, col: 13, offset: 91708},
 															expr: &charClassMatcher{
-																pos:        position{line: 2890, col: 13, offset: 91706},
+																pos:        position{line: 2890, col: 13, offset: 91708},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17225,28 +17225,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2966, col: 8, offset: 93578},
+													pos: position{line: 2966, col: 8, offset: 93580},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93351},
+															pos: position{line: 2953, col: 12, offset: 93353},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93352},
+																pos: position{line: 2953, col: 13, offset: 93354},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93352},
+																		pos:        position{line: 2953, col: 13, offset: 93354},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93359},
+																		pos:        position{line: 2953, col: 20, offset: 93361},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93368},
+																		pos:        position{line: 2953, col: 29, offset: 93370},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17255,9 +17255,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93528},
+															pos: position{line: 2963, col: 8, offset: 93530},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93529,
+																line: 2963, col: 9, offset: 93531,
 															},
 														},
 													},
@@ -17266,36 +17266,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 845, col: 5, offset: 27412},
+										pos: position{line: 845, col: 5, offset: 27414},
 										run: (*parser).callonDocumentHeader23,
 										expr: &seqExpr{
-											pos: position{line: 845, col: 5, offset: 27412},
+											pos: position{line: 845, col: 5, offset: 27414},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 765, col: 5, offset: 24672},
+													pos: position{line: 765, col: 5, offset: 24674},
 													run: (*parser).callonDocumentHeader25,
 													expr: &seqExpr{
-														pos: position{line: 765, col: 5, offset: 24672},
+														pos: position{line: 765, col: 5, offset: 24674},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 765, col: 5, offset: 24672},
+																pos:   position{line: 765, col: 5, offset: 24674},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 765, col: 16, offset: 24683},
+																	pos: position{line: 765, col: 16, offset: 24685},
 																	run: (*parser).callonDocumentHeader28,
 																	expr: &seqExpr{
-																		pos: position{line: 765, col: 16, offset: 24683},
+																		pos: position{line: 765, col: 16, offset: 24685},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 765, col: 16, offset: 24683},
+																				pos:        position{line: 765, col: 16, offset: 24685},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 765, col: 23, offset: 24690},
+																				pos: position{line: 765, col: 23, offset: 24692},
 																				expr: &litMatcher{
-																					pos:        position{line: 765, col: 23, offset: 24690},
+																					pos:        position{line: 765, col: 23, offset: 24692},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -17306,12 +17306,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 767, col: 8, offset: 24774},
+																pos: position{line: 767, col: 8, offset: 24776},
 																expr: &actionExpr{
-																	pos: position{line: 2944, col: 10, offset: 93180},
+																	pos: position{line: 2944, col: 10, offset: 93182},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2944, col: 10, offset: 93180},
+																		pos:        position{line: 2944, col: 10, offset: 93182},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17320,28 +17320,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2966, col: 8, offset: 93578},
+																pos: position{line: 2966, col: 8, offset: 93580},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2953, col: 12, offset: 93351},
+																		pos: position{line: 2953, col: 12, offset: 93353},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2953, col: 13, offset: 93352},
+																			pos: position{line: 2953, col: 13, offset: 93354},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 13, offset: 93352},
+																					pos:        position{line: 2953, col: 13, offset: 93354},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 20, offset: 93359},
+																					pos:        position{line: 2953, col: 20, offset: 93361},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 29, offset: 93368},
+																					pos:        position{line: 2953, col: 29, offset: 93370},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17350,9 +17350,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93528},
+																		pos: position{line: 2963, col: 8, offset: 93530},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93529,
+																			line: 2963, col: 9, offset: 93531,
 																		},
 																	},
 																},
@@ -17361,46 +17361,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 846, col: 5, offset: 27443},
+													pos:   position{line: 846, col: 5, offset: 27445},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 856, col: 5, offset: 27729},
+														pos: position{line: 856, col: 5, offset: 27731},
 														expr: &actionExpr{
-															pos: position{line: 856, col: 6, offset: 27730},
+															pos: position{line: 856, col: 6, offset: 27732},
 															run: (*parser).callonDocumentHeader46,
 															expr: &seqExpr{
-																pos: position{line: 856, col: 6, offset: 27730},
+																pos: position{line: 856, col: 6, offset: 27732},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 856, col: 6, offset: 27730},
+																		pos: position{line: 856, col: 6, offset: 27732},
 																		expr: &choiceExpr{
-																			pos: position{line: 853, col: 29, offset: 27672},
+																			pos: position{line: 853, col: 29, offset: 27674},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 765, col: 5, offset: 24672},
+																					pos: position{line: 765, col: 5, offset: 24674},
 																					run: (*parser).callonDocumentHeader50,
 																					expr: &seqExpr{
-																						pos: position{line: 765, col: 5, offset: 24672},
+																						pos: position{line: 765, col: 5, offset: 24674},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 765, col: 5, offset: 24672},
+																								pos:   position{line: 765, col: 5, offset: 24674},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 765, col: 16, offset: 24683},
+																									pos: position{line: 765, col: 16, offset: 24685},
 																									run: (*parser).callonDocumentHeader53,
 																									expr: &seqExpr{
-																										pos: position{line: 765, col: 16, offset: 24683},
+																										pos: position{line: 765, col: 16, offset: 24685},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 765, col: 16, offset: 24683},
+																												pos:        position{line: 765, col: 16, offset: 24685},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 765, col: 23, offset: 24690},
+																												pos: position{line: 765, col: 23, offset: 24692},
 																												expr: &litMatcher{
-																													pos:        position{line: 765, col: 23, offset: 24690},
+																													pos:        position{line: 765, col: 23, offset: 24692},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -17411,12 +17411,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 767, col: 8, offset: 24774},
+																								pos: position{line: 767, col: 8, offset: 24776},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93180},
+																									pos: position{line: 2944, col: 10, offset: 93182},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93180},
+																										pos:        position{line: 2944, col: 10, offset: 93182},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17425,28 +17425,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2966, col: 8, offset: 93578},
+																								pos: position{line: 2966, col: 8, offset: 93580},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2953, col: 12, offset: 93351},
+																										pos: position{line: 2953, col: 12, offset: 93353},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2953, col: 13, offset: 93352},
+																											pos: position{line: 2953, col: 13, offset: 93354},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 13, offset: 93352},
+																													pos:        position{line: 2953, col: 13, offset: 93354},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 20, offset: 93359},
+																													pos:        position{line: 2953, col: 20, offset: 93361},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 29, offset: 93368},
+																													pos:        position{line: 2953, col: 29, offset: 93370},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17455,9 +17455,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93528},
+																										pos: position{line: 2963, col: 8, offset: 93530},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93529,
+																											line: 2963, col: 9, offset: 93531,
 																										},
 																									},
 																								},
@@ -17466,39 +17466,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 857, col: 5, offset: 27760},
+																		pos:   position{line: 857, col: 5, offset: 27762},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 836, col: 5, offset: 27176},
+																			pos: position{line: 836, col: 5, offset: 27178},
 																			run: (*parser).callonDocumentHeader72,
 																			expr: &seqExpr{
-																				pos: position{line: 836, col: 5, offset: 27176},
+																				pos: position{line: 836, col: 5, offset: 27178},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2961, col: 11, offset: 93514},
+																						pos: position{line: 2961, col: 11, offset: 93516},
 																						expr: &anyMatcher{
-																							line: 2961, col: 13, offset: 93516,
+																							line: 2961, col: 13, offset: 93518,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 837, col: 5, offset: 27251},
+																						pos:   position{line: 837, col: 5, offset: 27253},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 13, offset: 91706},
+																							pos: position{line: 2890, col: 13, offset: 91708},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2890, col: 13, offset: 91706},
+																								pos: position{line: 2890, col: 13, offset: 91708},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91706},
+																									pos:        position{line: 2890, col: 13, offset: 91708},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17508,28 +17508,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93578},
+																						pos: position{line: 2966, col: 8, offset: 93580},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93351},
+																								pos: position{line: 2953, col: 12, offset: 93353},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93352},
+																									pos: position{line: 2953, col: 13, offset: 93354},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93352},
+																											pos:        position{line: 2953, col: 13, offset: 93354},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93359},
+																											pos:        position{line: 2953, col: 20, offset: 93361},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93368},
+																											pos:        position{line: 2953, col: 29, offset: 93370},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17538,9 +17538,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93528},
+																								pos: position{line: 2963, col: 8, offset: 93530},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93529,
+																									line: 2963, col: 9, offset: 93531,
 																								},
 																							},
 																						},
@@ -17555,35 +17555,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 847, col: 5, offset: 27477},
+													pos: position{line: 847, col: 5, offset: 27479},
 													expr: &choiceExpr{
-														pos: position{line: 853, col: 29, offset: 27672},
+														pos: position{line: 853, col: 29, offset: 27674},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 765, col: 5, offset: 24672},
+																pos: position{line: 765, col: 5, offset: 24674},
 																run: (*parser).callonDocumentHeader90,
 																expr: &seqExpr{
-																	pos: position{line: 765, col: 5, offset: 24672},
+																	pos: position{line: 765, col: 5, offset: 24674},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 765, col: 5, offset: 24672},
+																			pos:   position{line: 765, col: 5, offset: 24674},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 765, col: 16, offset: 24683},
+																				pos: position{line: 765, col: 16, offset: 24685},
 																				run: (*parser).callonDocumentHeader93,
 																				expr: &seqExpr{
-																					pos: position{line: 765, col: 16, offset: 24683},
+																					pos: position{line: 765, col: 16, offset: 24685},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 765, col: 16, offset: 24683},
+																							pos:        position{line: 765, col: 16, offset: 24685},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 765, col: 23, offset: 24690},
+																							pos: position{line: 765, col: 23, offset: 24692},
 																							expr: &litMatcher{
-																								pos:        position{line: 765, col: 23, offset: 24690},
+																								pos:        position{line: 765, col: 23, offset: 24692},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -17594,12 +17594,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 767, col: 8, offset: 24774},
+																			pos: position{line: 767, col: 8, offset: 24776},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93180},
+																				pos: position{line: 2944, col: 10, offset: 93182},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93180},
+																					pos:        position{line: 2944, col: 10, offset: 93182},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -17608,28 +17608,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93578},
+																			pos: position{line: 2966, col: 8, offset: 93580},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93351},
+																					pos: position{line: 2953, col: 12, offset: 93353},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93352},
+																						pos: position{line: 2953, col: 13, offset: 93354},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93352},
+																								pos:        position{line: 2953, col: 13, offset: 93354},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93359},
+																								pos:        position{line: 2953, col: 20, offset: 93361},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93368},
+																								pos:        position{line: 2953, col: 29, offset: 93370},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -17638,9 +17638,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
@@ -17649,9 +17649,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93528},
+																pos: position{line: 2963, col: 8, offset: 93530},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93529,
+																	line: 2963, col: 9, offset: 93531,
 																},
 															},
 														},
@@ -17664,49 +17664,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1130, col: 5, offset: 34992},
+							pos:   position{line: 1130, col: 5, offset: 34994},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1130, col: 12, offset: 34999},
+								pos:  position{line: 1130, col: 12, offset: 35001},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1131, col: 5, offset: 35018},
+							pos: position{line: 1131, col: 5, offset: 35020},
 							expr: &choiceExpr{
-								pos: position{line: 1131, col: 6, offset: 35019},
+								pos: position{line: 1131, col: 6, offset: 35021},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2538, col: 22, offset: 81740},
+										pos: position{line: 2538, col: 22, offset: 81742},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2538, col: 22, offset: 81740},
+											pos: position{line: 2538, col: 22, offset: 81742},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2543, col: 31, offset: 81990},
+													pos:        position{line: 2543, col: 31, offset: 81992},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2543, col: 36, offset: 81995},
+													pos: position{line: 2543, col: 36, offset: 81997},
 													expr: &litMatcher{
-														pos:        position{line: 2543, col: 37, offset: 81996},
+														pos:        position{line: 2543, col: 37, offset: 81998},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2538, col: 49, offset: 81767},
+													pos:   position{line: 2538, col: 49, offset: 81769},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2890, col: 13, offset: 91706},
+														pos: position{line: 2890, col: 13, offset: 91708},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2890, col: 13, offset: 91706},
+															pos: position{line: 2890, col: 13, offset: 91708},
 															expr: &charClassMatcher{
-																pos:        position{line: 2890, col: 13, offset: 91706},
+																pos:        position{line: 2890, col: 13, offset: 91708},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17716,28 +17716,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2966, col: 8, offset: 93578},
+													pos: position{line: 2966, col: 8, offset: 93580},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93351},
+															pos: position{line: 2953, col: 12, offset: 93353},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93352},
+																pos: position{line: 2953, col: 13, offset: 93354},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93352},
+																		pos:        position{line: 2953, col: 13, offset: 93354},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93359},
+																		pos:        position{line: 2953, col: 20, offset: 93361},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93368},
+																		pos:        position{line: 2953, col: 29, offset: 93370},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17746,9 +17746,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93528},
+															pos: position{line: 2963, col: 8, offset: 93530},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93529,
+																line: 2963, col: 9, offset: 93531,
 															},
 														},
 													},
@@ -17757,36 +17757,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 845, col: 5, offset: 27412},
+										pos: position{line: 845, col: 5, offset: 27414},
 										run: (*parser).callonDocumentHeader132,
 										expr: &seqExpr{
-											pos: position{line: 845, col: 5, offset: 27412},
+											pos: position{line: 845, col: 5, offset: 27414},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 765, col: 5, offset: 24672},
+													pos: position{line: 765, col: 5, offset: 24674},
 													run: (*parser).callonDocumentHeader134,
 													expr: &seqExpr{
-														pos: position{line: 765, col: 5, offset: 24672},
+														pos: position{line: 765, col: 5, offset: 24674},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 765, col: 5, offset: 24672},
+																pos:   position{line: 765, col: 5, offset: 24674},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 765, col: 16, offset: 24683},
+																	pos: position{line: 765, col: 16, offset: 24685},
 																	run: (*parser).callonDocumentHeader137,
 																	expr: &seqExpr{
-																		pos: position{line: 765, col: 16, offset: 24683},
+																		pos: position{line: 765, col: 16, offset: 24685},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 765, col: 16, offset: 24683},
+																				pos:        position{line: 765, col: 16, offset: 24685},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 765, col: 23, offset: 24690},
+																				pos: position{line: 765, col: 23, offset: 24692},
 																				expr: &litMatcher{
-																					pos:        position{line: 765, col: 23, offset: 24690},
+																					pos:        position{line: 765, col: 23, offset: 24692},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -17797,12 +17797,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 767, col: 8, offset: 24774},
+																pos: position{line: 767, col: 8, offset: 24776},
 																expr: &actionExpr{
-																	pos: position{line: 2944, col: 10, offset: 93180},
+																	pos: position{line: 2944, col: 10, offset: 93182},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2944, col: 10, offset: 93180},
+																		pos:        position{line: 2944, col: 10, offset: 93182},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17811,28 +17811,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2966, col: 8, offset: 93578},
+																pos: position{line: 2966, col: 8, offset: 93580},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2953, col: 12, offset: 93351},
+																		pos: position{line: 2953, col: 12, offset: 93353},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2953, col: 13, offset: 93352},
+																			pos: position{line: 2953, col: 13, offset: 93354},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 13, offset: 93352},
+																					pos:        position{line: 2953, col: 13, offset: 93354},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 20, offset: 93359},
+																					pos:        position{line: 2953, col: 20, offset: 93361},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 29, offset: 93368},
+																					pos:        position{line: 2953, col: 29, offset: 93370},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17841,9 +17841,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93528},
+																		pos: position{line: 2963, col: 8, offset: 93530},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93529,
+																			line: 2963, col: 9, offset: 93531,
 																		},
 																	},
 																},
@@ -17852,46 +17852,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 846, col: 5, offset: 27443},
+													pos:   position{line: 846, col: 5, offset: 27445},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 856, col: 5, offset: 27729},
+														pos: position{line: 856, col: 5, offset: 27731},
 														expr: &actionExpr{
-															pos: position{line: 856, col: 6, offset: 27730},
+															pos: position{line: 856, col: 6, offset: 27732},
 															run: (*parser).callonDocumentHeader155,
 															expr: &seqExpr{
-																pos: position{line: 856, col: 6, offset: 27730},
+																pos: position{line: 856, col: 6, offset: 27732},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 856, col: 6, offset: 27730},
+																		pos: position{line: 856, col: 6, offset: 27732},
 																		expr: &choiceExpr{
-																			pos: position{line: 853, col: 29, offset: 27672},
+																			pos: position{line: 853, col: 29, offset: 27674},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 765, col: 5, offset: 24672},
+																					pos: position{line: 765, col: 5, offset: 24674},
 																					run: (*parser).callonDocumentHeader159,
 																					expr: &seqExpr{
-																						pos: position{line: 765, col: 5, offset: 24672},
+																						pos: position{line: 765, col: 5, offset: 24674},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 765, col: 5, offset: 24672},
+																								pos:   position{line: 765, col: 5, offset: 24674},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 765, col: 16, offset: 24683},
+																									pos: position{line: 765, col: 16, offset: 24685},
 																									run: (*parser).callonDocumentHeader162,
 																									expr: &seqExpr{
-																										pos: position{line: 765, col: 16, offset: 24683},
+																										pos: position{line: 765, col: 16, offset: 24685},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 765, col: 16, offset: 24683},
+																												pos:        position{line: 765, col: 16, offset: 24685},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 765, col: 23, offset: 24690},
+																												pos: position{line: 765, col: 23, offset: 24692},
 																												expr: &litMatcher{
-																													pos:        position{line: 765, col: 23, offset: 24690},
+																													pos:        position{line: 765, col: 23, offset: 24692},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -17902,12 +17902,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 767, col: 8, offset: 24774},
+																								pos: position{line: 767, col: 8, offset: 24776},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93180},
+																									pos: position{line: 2944, col: 10, offset: 93182},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93180},
+																										pos:        position{line: 2944, col: 10, offset: 93182},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17916,28 +17916,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2966, col: 8, offset: 93578},
+																								pos: position{line: 2966, col: 8, offset: 93580},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2953, col: 12, offset: 93351},
+																										pos: position{line: 2953, col: 12, offset: 93353},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2953, col: 13, offset: 93352},
+																											pos: position{line: 2953, col: 13, offset: 93354},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 13, offset: 93352},
+																													pos:        position{line: 2953, col: 13, offset: 93354},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 20, offset: 93359},
+																													pos:        position{line: 2953, col: 20, offset: 93361},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 29, offset: 93368},
+																													pos:        position{line: 2953, col: 29, offset: 93370},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17946,9 +17946,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93528},
+																										pos: position{line: 2963, col: 8, offset: 93530},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93529,
+																											line: 2963, col: 9, offset: 93531,
 																										},
 																									},
 																								},
@@ -17957,39 +17957,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 857, col: 5, offset: 27760},
+																		pos:   position{line: 857, col: 5, offset: 27762},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 836, col: 5, offset: 27176},
+																			pos: position{line: 836, col: 5, offset: 27178},
 																			run: (*parser).callonDocumentHeader181,
 																			expr: &seqExpr{
-																				pos: position{line: 836, col: 5, offset: 27176},
+																				pos: position{line: 836, col: 5, offset: 27178},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2961, col: 11, offset: 93514},
+																						pos: position{line: 2961, col: 11, offset: 93516},
 																						expr: &anyMatcher{
-																							line: 2961, col: 13, offset: 93516,
+																							line: 2961, col: 13, offset: 93518,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 837, col: 5, offset: 27251},
+																						pos:   position{line: 837, col: 5, offset: 27253},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 13, offset: 91706},
+																							pos: position{line: 2890, col: 13, offset: 91708},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2890, col: 13, offset: 91706},
+																								pos: position{line: 2890, col: 13, offset: 91708},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91706},
+																									pos:        position{line: 2890, col: 13, offset: 91708},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17999,28 +17999,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93578},
+																						pos: position{line: 2966, col: 8, offset: 93580},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93351},
+																								pos: position{line: 2953, col: 12, offset: 93353},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93352},
+																									pos: position{line: 2953, col: 13, offset: 93354},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93352},
+																											pos:        position{line: 2953, col: 13, offset: 93354},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93359},
+																											pos:        position{line: 2953, col: 20, offset: 93361},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93368},
+																											pos:        position{line: 2953, col: 29, offset: 93370},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -18029,9 +18029,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93528},
+																								pos: position{line: 2963, col: 8, offset: 93530},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93529,
+																									line: 2963, col: 9, offset: 93531,
 																								},
 																							},
 																						},
@@ -18046,35 +18046,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 847, col: 5, offset: 27477},
+													pos: position{line: 847, col: 5, offset: 27479},
 													expr: &choiceExpr{
-														pos: position{line: 853, col: 29, offset: 27672},
+														pos: position{line: 853, col: 29, offset: 27674},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 765, col: 5, offset: 24672},
+																pos: position{line: 765, col: 5, offset: 24674},
 																run: (*parser).callonDocumentHeader199,
 																expr: &seqExpr{
-																	pos: position{line: 765, col: 5, offset: 24672},
+																	pos: position{line: 765, col: 5, offset: 24674},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 765, col: 5, offset: 24672},
+																			pos:   position{line: 765, col: 5, offset: 24674},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 765, col: 16, offset: 24683},
+																				pos: position{line: 765, col: 16, offset: 24685},
 																				run: (*parser).callonDocumentHeader202,
 																				expr: &seqExpr{
-																					pos: position{line: 765, col: 16, offset: 24683},
+																					pos: position{line: 765, col: 16, offset: 24685},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 765, col: 16, offset: 24683},
+																							pos:        position{line: 765, col: 16, offset: 24685},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 765, col: 23, offset: 24690},
+																							pos: position{line: 765, col: 23, offset: 24692},
 																							expr: &litMatcher{
-																								pos:        position{line: 765, col: 23, offset: 24690},
+																								pos:        position{line: 765, col: 23, offset: 24692},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -18085,12 +18085,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 767, col: 8, offset: 24774},
+																			pos: position{line: 767, col: 8, offset: 24776},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93180},
+																				pos: position{line: 2944, col: 10, offset: 93182},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93180},
+																					pos:        position{line: 2944, col: 10, offset: 93182},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -18099,28 +18099,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93578},
+																			pos: position{line: 2966, col: 8, offset: 93580},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93351},
+																					pos: position{line: 2953, col: 12, offset: 93353},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93352},
+																						pos: position{line: 2953, col: 13, offset: 93354},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93352},
+																								pos:        position{line: 2953, col: 13, offset: 93354},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93359},
+																								pos:        position{line: 2953, col: 20, offset: 93361},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93368},
+																								pos:        position{line: 2953, col: 29, offset: 93370},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -18129,9 +18129,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
@@ -18140,9 +18140,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93528},
+																pos: position{line: 2963, col: 8, offset: 93530},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93529,
+																	line: 2963, col: 9, offset: 93531,
 																},
 															},
 														},
@@ -18155,41 +18155,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1132, col: 5, offset: 35115},
+							pos:   position{line: 1132, col: 5, offset: 35117},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1132, col: 24, offset: 35134},
+								pos: position{line: 1132, col: 24, offset: 35136},
 								expr: &actionExpr{
-									pos: position{line: 1143, col: 5, offset: 35509},
+									pos: position{line: 1143, col: 5, offset: 35511},
 									run: (*parser).callonDocumentHeader222,
 									expr: &seqExpr{
-										pos: position{line: 1143, col: 5, offset: 35509},
+										pos: position{line: 1143, col: 5, offset: 35511},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1143, col: 5, offset: 35509},
+												pos: position{line: 1143, col: 5, offset: 35511},
 												expr: &litMatcher{
-													pos:        position{line: 1143, col: 6, offset: 35510},
+													pos:        position{line: 1143, col: 6, offset: 35512},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1144, col: 5, offset: 35518},
+												pos:   position{line: 1144, col: 5, offset: 35520},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1150, col: 20, offset: 35774},
+													pos: position{line: 1150, col: 20, offset: 35776},
 													run: (*parser).callonDocumentHeader227,
 													expr: &seqExpr{
-														pos: position{line: 1150, col: 20, offset: 35774},
+														pos: position{line: 1150, col: 20, offset: 35776},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1150, col: 20, offset: 35774},
+																pos: position{line: 1150, col: 20, offset: 35776},
 																expr: &actionExpr{
-																	pos: position{line: 2944, col: 10, offset: 93180},
+																	pos: position{line: 2944, col: 10, offset: 93182},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2944, col: 10, offset: 93180},
+																		pos:        position{line: 2944, col: 10, offset: 93182},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -18198,37 +18198,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1150, col: 27, offset: 35781},
+																pos:   position{line: 1150, col: 27, offset: 35783},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1150, col: 36, offset: 35790},
+																	pos: position{line: 1150, col: 36, offset: 35792},
 																	expr: &actionExpr{
-																		pos: position{line: 1155, col: 5, offset: 35903},
+																		pos: position{line: 1155, col: 5, offset: 35905},
 																		run: (*parser).callonDocumentHeader234,
 																		expr: &seqExpr{
-																			pos: position{line: 1155, col: 5, offset: 35903},
+																			pos: position{line: 1155, col: 5, offset: 35905},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1155, col: 5, offset: 35903},
+																					pos:   position{line: 1155, col: 5, offset: 35905},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1155, col: 14, offset: 35912},
+																						pos: position{line: 1155, col: 14, offset: 35914},
 																						expr: &actionExpr{
-																							pos: position{line: 1166, col: 5, offset: 36292},
+																							pos: position{line: 1166, col: 5, offset: 36294},
 																							run: (*parser).callonDocumentHeader238,
 																							expr: &seqExpr{
-																								pos: position{line: 1166, col: 5, offset: 36292},
+																								pos: position{line: 1166, col: 5, offset: 36294},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1166, col: 5, offset: 36292},
+																										pos:   position{line: 1166, col: 5, offset: 36294},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1166, col: 12, offset: 36299},
+																											pos: position{line: 1166, col: 12, offset: 36301},
 																											run: (*parser).callonDocumentHeader241,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1166, col: 12, offset: 36299},
+																												pos: position{line: 1166, col: 12, offset: 36301},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1166, col: 12, offset: 36299},
+																													pos:        position{line: 1166, col: 12, offset: 36301},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -18238,12 +18238,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1169, col: 5, offset: 36379},
+																										pos: position{line: 1169, col: 5, offset: 36381},
 																										expr: &actionExpr{
-																											pos: position{line: 2944, col: 10, offset: 93180},
+																											pos: position{line: 2944, col: 10, offset: 93182},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2944, col: 10, offset: 93180},
+																												pos:        position{line: 2944, col: 10, offset: 93182},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -18252,17 +18252,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1170, col: 5, offset: 36390},
+																										pos:   position{line: 1170, col: 5, offset: 36392},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1170, col: 11, offset: 36396},
+																											pos: position{line: 1170, col: 11, offset: 36398},
 																											expr: &actionExpr{
-																												pos: position{line: 1170, col: 12, offset: 36397},
+																												pos: position{line: 1170, col: 12, offset: 36399},
 																												run: (*parser).callonDocumentHeader249,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1170, col: 12, offset: 36397},
+																													pos: position{line: 1170, col: 12, offset: 36399},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1170, col: 12, offset: 36397},
+																														pos:        position{line: 1170, col: 12, offset: 36399},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -18273,12 +18273,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1173, col: 5, offset: 36478},
+																										pos: position{line: 1173, col: 5, offset: 36480},
 																										expr: &actionExpr{
-																											pos: position{line: 2944, col: 10, offset: 93180},
+																											pos: position{line: 2944, col: 10, offset: 93182},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2944, col: 10, offset: 93180},
+																												pos:        position{line: 2944, col: 10, offset: 93182},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -18287,17 +18287,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1174, col: 5, offset: 36489},
+																										pos:   position{line: 1174, col: 5, offset: 36491},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1174, col: 11, offset: 36495},
+																											pos: position{line: 1174, col: 11, offset: 36497},
 																											expr: &actionExpr{
-																												pos: position{line: 1174, col: 12, offset: 36496},
+																												pos: position{line: 1174, col: 12, offset: 36498},
 																												run: (*parser).callonDocumentHeader257,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1174, col: 12, offset: 36496},
+																													pos: position{line: 1174, col: 12, offset: 36498},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1174, col: 12, offset: 36496},
+																														pos:        position{line: 1174, col: 12, offset: 36498},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -18308,12 +18308,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1177, col: 5, offset: 36575},
+																										pos: position{line: 1177, col: 5, offset: 36577},
 																										expr: &actionExpr{
-																											pos: position{line: 2944, col: 10, offset: 93180},
+																											pos: position{line: 2944, col: 10, offset: 93182},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2944, col: 10, offset: 93180},
+																												pos:        position{line: 2944, col: 10, offset: 93182},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -18327,38 +18327,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1155, col: 40, offset: 35938},
+																					pos:   position{line: 1155, col: 40, offset: 35940},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1155, col: 46, offset: 35944},
+																						pos: position{line: 1155, col: 46, offset: 35946},
 																						expr: &actionExpr{
-																							pos: position{line: 1183, col: 5, offset: 36697},
+																							pos: position{line: 1183, col: 5, offset: 36699},
 																							run: (*parser).callonDocumentHeader265,
 																							expr: &seqExpr{
-																								pos: position{line: 1183, col: 5, offset: 36697},
+																								pos: position{line: 1183, col: 5, offset: 36699},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2961, col: 11, offset: 93514},
+																										pos: position{line: 2961, col: 11, offset: 93516},
 																										expr: &anyMatcher{
-																											line: 2961, col: 13, offset: 93516,
+																											line: 2961, col: 13, offset: 93518,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1184, col: 5, offset: 36709},
+																										pos:        position{line: 1184, col: 5, offset: 36711},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1185, col: 5, offset: 36718},
+																										pos:   position{line: 1185, col: 5, offset: 36720},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1185, col: 12, offset: 36725},
+																											pos: position{line: 1185, col: 12, offset: 36727},
 																											run: (*parser).callonDocumentHeader271,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1185, col: 13, offset: 36726},
+																												pos: position{line: 1185, col: 13, offset: 36728},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1185, col: 13, offset: 36726},
+																													pos:        position{line: 1185, col: 13, offset: 36728},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -18368,7 +18368,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1188, col: 5, offset: 36786},
+																										pos:        position{line: 1188, col: 5, offset: 36788},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -18379,12 +18379,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1155, col: 69, offset: 35967},
+																					pos: position{line: 1155, col: 69, offset: 35969},
 																					expr: &actionExpr{
-																						pos: position{line: 2944, col: 10, offset: 93180},
+																						pos: position{line: 2944, col: 10, offset: 93182},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2944, col: 10, offset: 93180},
+																							pos:        position{line: 2944, col: 10, offset: 93182},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18393,21 +18393,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1155, col: 76, offset: 35974},
+																					pos: position{line: 1155, col: 76, offset: 35976},
 																					expr: &litMatcher{
-																						pos:        position{line: 1155, col: 76, offset: 35974},
+																						pos:        position{line: 1155, col: 76, offset: 35976},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1155, col: 81, offset: 35979},
+																					pos: position{line: 1155, col: 81, offset: 35981},
 																					expr: &actionExpr{
-																						pos: position{line: 2944, col: 10, offset: 93180},
+																						pos: position{line: 2944, col: 10, offset: 93182},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2944, col: 10, offset: 93180},
+																							pos:        position{line: 2944, col: 10, offset: 93182},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18416,7 +18416,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1156, col: 5, offset: 35991},
+																					pos: position{line: 1156, col: 5, offset: 35993},
 																					run: (*parser).callonDocumentHeader283,
 																				},
 																			},
@@ -18425,28 +18425,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2966, col: 8, offset: 93578},
+																pos: position{line: 2966, col: 8, offset: 93580},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2953, col: 12, offset: 93351},
+																		pos: position{line: 2953, col: 12, offset: 93353},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2953, col: 13, offset: 93352},
+																			pos: position{line: 2953, col: 13, offset: 93354},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 13, offset: 93352},
+																					pos:        position{line: 2953, col: 13, offset: 93354},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 20, offset: 93359},
+																					pos:        position{line: 2953, col: 20, offset: 93361},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 29, offset: 93368},
+																					pos:        position{line: 2953, col: 29, offset: 93370},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -18455,9 +18455,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93528},
+																		pos: position{line: 2963, col: 8, offset: 93530},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93529,
+																			line: 2963, col: 9, offset: 93531,
 																		},
 																	},
 																},
@@ -18467,41 +18467,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1145, col: 5, offset: 35548},
+												pos: position{line: 1145, col: 5, offset: 35550},
 												expr: &choiceExpr{
-													pos: position{line: 1145, col: 6, offset: 35549},
+													pos: position{line: 1145, col: 6, offset: 35551},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2538, col: 22, offset: 81740},
+															pos: position{line: 2538, col: 22, offset: 81742},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2538, col: 22, offset: 81740},
+																pos: position{line: 2538, col: 22, offset: 81742},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2543, col: 31, offset: 81990},
+																		pos:        position{line: 2543, col: 31, offset: 81992},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2543, col: 36, offset: 81995},
+																		pos: position{line: 2543, col: 36, offset: 81997},
 																		expr: &litMatcher{
-																			pos:        position{line: 2543, col: 37, offset: 81996},
+																			pos:        position{line: 2543, col: 37, offset: 81998},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2538, col: 49, offset: 81767},
+																		pos:   position{line: 2538, col: 49, offset: 81769},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2890, col: 13, offset: 91706},
+																			pos: position{line: 2890, col: 13, offset: 91708},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2890, col: 13, offset: 91706},
+																				pos: position{line: 2890, col: 13, offset: 91708},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2890, col: 13, offset: 91706},
+																					pos:        position{line: 2890, col: 13, offset: 91708},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -18511,28 +18511,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93578},
+																		pos: position{line: 2966, col: 8, offset: 93580},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18541,9 +18541,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93528},
+																				pos: position{line: 2963, col: 8, offset: 93530},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93529,
+																					line: 2963, col: 9, offset: 93531,
 																				},
 																			},
 																		},
@@ -18552,36 +18552,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 845, col: 5, offset: 27412},
+															pos: position{line: 845, col: 5, offset: 27414},
 															run: (*parser).callonDocumentHeader311,
 															expr: &seqExpr{
-																pos: position{line: 845, col: 5, offset: 27412},
+																pos: position{line: 845, col: 5, offset: 27414},
 																exprs: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 765, col: 5, offset: 24672},
+																		pos: position{line: 765, col: 5, offset: 24674},
 																		run: (*parser).callonDocumentHeader313,
 																		expr: &seqExpr{
-																			pos: position{line: 765, col: 5, offset: 24672},
+																			pos: position{line: 765, col: 5, offset: 24674},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 765, col: 5, offset: 24672},
+																					pos:   position{line: 765, col: 5, offset: 24674},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 765, col: 16, offset: 24683},
+																						pos: position{line: 765, col: 16, offset: 24685},
 																						run: (*parser).callonDocumentHeader316,
 																						expr: &seqExpr{
-																							pos: position{line: 765, col: 16, offset: 24683},
+																							pos: position{line: 765, col: 16, offset: 24685},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 765, col: 16, offset: 24683},
+																									pos:        position{line: 765, col: 16, offset: 24685},
 																									val:        "////",
 																									ignoreCase: false,
 																									want:       "\"////\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 765, col: 23, offset: 24690},
+																									pos: position{line: 765, col: 23, offset: 24692},
 																									expr: &litMatcher{
-																										pos:        position{line: 765, col: 23, offset: 24690},
+																										pos:        position{line: 765, col: 23, offset: 24692},
 																										val:        "/",
 																										ignoreCase: false,
 																										want:       "\"/\"",
@@ -18592,12 +18592,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 767, col: 8, offset: 24774},
+																					pos: position{line: 767, col: 8, offset: 24776},
 																					expr: &actionExpr{
-																						pos: position{line: 2944, col: 10, offset: 93180},
+																						pos: position{line: 2944, col: 10, offset: 93182},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2944, col: 10, offset: 93180},
+																							pos:        position{line: 2944, col: 10, offset: 93182},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18606,28 +18606,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2966, col: 8, offset: 93578},
+																					pos: position{line: 2966, col: 8, offset: 93580},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2953, col: 12, offset: 93351},
+																							pos: position{line: 2953, col: 12, offset: 93353},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2953, col: 13, offset: 93352},
+																								pos: position{line: 2953, col: 13, offset: 93354},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 13, offset: 93352},
+																										pos:        position{line: 2953, col: 13, offset: 93354},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 20, offset: 93359},
+																										pos:        position{line: 2953, col: 20, offset: 93361},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 29, offset: 93368},
+																										pos:        position{line: 2953, col: 29, offset: 93370},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -18636,9 +18636,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93528},
+																							pos: position{line: 2963, col: 8, offset: 93530},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93529,
+																								line: 2963, col: 9, offset: 93531,
 																							},
 																						},
 																					},
@@ -18647,46 +18647,46 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 846, col: 5, offset: 27443},
+																		pos:   position{line: 846, col: 5, offset: 27445},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 856, col: 5, offset: 27729},
+																			pos: position{line: 856, col: 5, offset: 27731},
 																			expr: &actionExpr{
-																				pos: position{line: 856, col: 6, offset: 27730},
+																				pos: position{line: 856, col: 6, offset: 27732},
 																				run: (*parser).callonDocumentHeader334,
 																				expr: &seqExpr{
-																					pos: position{line: 856, col: 6, offset: 27730},
+																					pos: position{line: 856, col: 6, offset: 27732},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 856, col: 6, offset: 27730},
+																							pos: position{line: 856, col: 6, offset: 27732},
 																							expr: &choiceExpr{
-																								pos: position{line: 853, col: 29, offset: 27672},
+																								pos: position{line: 853, col: 29, offset: 27674},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 765, col: 5, offset: 24672},
+																										pos: position{line: 765, col: 5, offset: 24674},
 																										run: (*parser).callonDocumentHeader338,
 																										expr: &seqExpr{
-																											pos: position{line: 765, col: 5, offset: 24672},
+																											pos: position{line: 765, col: 5, offset: 24674},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 765, col: 5, offset: 24672},
+																													pos:   position{line: 765, col: 5, offset: 24674},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 765, col: 16, offset: 24683},
+																														pos: position{line: 765, col: 16, offset: 24685},
 																														run: (*parser).callonDocumentHeader341,
 																														expr: &seqExpr{
-																															pos: position{line: 765, col: 16, offset: 24683},
+																															pos: position{line: 765, col: 16, offset: 24685},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 765, col: 16, offset: 24683},
+																																	pos:        position{line: 765, col: 16, offset: 24685},
 																																	val:        "////",
 																																	ignoreCase: false,
 																																	want:       "\"////\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 765, col: 23, offset: 24690},
+																																	pos: position{line: 765, col: 23, offset: 24692},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 765, col: 23, offset: 24690},
+																																		pos:        position{line: 765, col: 23, offset: 24692},
 																																		val:        "/",
 																																		ignoreCase: false,
 																																		want:       "\"/\"",
@@ -18697,12 +18697,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 767, col: 8, offset: 24774},
+																													pos: position{line: 767, col: 8, offset: 24776},
 																													expr: &actionExpr{
-																														pos: position{line: 2944, col: 10, offset: 93180},
+																														pos: position{line: 2944, col: 10, offset: 93182},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2944, col: 10, offset: 93180},
+																															pos:        position{line: 2944, col: 10, offset: 93182},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18711,28 +18711,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2966, col: 8, offset: 93578},
+																													pos: position{line: 2966, col: 8, offset: 93580},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2953, col: 12, offset: 93351},
+																															pos: position{line: 2953, col: 12, offset: 93353},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2953, col: 13, offset: 93352},
+																																pos: position{line: 2953, col: 13, offset: 93354},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2953, col: 13, offset: 93352},
+																																		pos:        position{line: 2953, col: 13, offset: 93354},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2953, col: 20, offset: 93359},
+																																		pos:        position{line: 2953, col: 20, offset: 93361},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2953, col: 29, offset: 93368},
+																																		pos:        position{line: 2953, col: 29, offset: 93370},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -18741,9 +18741,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2963, col: 8, offset: 93528},
+																															pos: position{line: 2963, col: 8, offset: 93530},
 																															expr: &anyMatcher{
-																																line: 2963, col: 9, offset: 93529,
+																																line: 2963, col: 9, offset: 93531,
 																															},
 																														},
 																													},
@@ -18752,39 +18752,39 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93528},
+																										pos: position{line: 2963, col: 8, offset: 93530},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93529,
+																											line: 2963, col: 9, offset: 93531,
 																										},
 																									},
 																								},
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 857, col: 5, offset: 27760},
+																							pos:   position{line: 857, col: 5, offset: 27762},
 																							label: "line",
 																							expr: &actionExpr{
-																								pos: position{line: 836, col: 5, offset: 27176},
+																								pos: position{line: 836, col: 5, offset: 27178},
 																								run: (*parser).callonDocumentHeader360,
 																								expr: &seqExpr{
-																									pos: position{line: 836, col: 5, offset: 27176},
+																									pos: position{line: 836, col: 5, offset: 27178},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2961, col: 11, offset: 93514},
+																											pos: position{line: 2961, col: 11, offset: 93516},
 																											expr: &anyMatcher{
-																												line: 2961, col: 13, offset: 93516,
+																												line: 2961, col: 13, offset: 93518,
 																											},
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 837, col: 5, offset: 27251},
+																											pos:   position{line: 837, col: 5, offset: 27253},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2890, col: 13, offset: 91706},
+																												pos: position{line: 2890, col: 13, offset: 91708},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2890, col: 13, offset: 91706},
+																													pos: position{line: 2890, col: 13, offset: 91708},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2890, col: 13, offset: 91706},
+																														pos:        position{line: 2890, col: 13, offset: 91708},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18794,28 +18794,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93578},
+																											pos: position{line: 2966, col: 8, offset: 93580},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93351},
+																													pos: position{line: 2953, col: 12, offset: 93353},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93352},
+																														pos: position{line: 2953, col: 13, offset: 93354},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93352},
+																																pos:        position{line: 2953, col: 13, offset: 93354},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93359},
+																																pos:        position{line: 2953, col: 20, offset: 93361},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93368},
+																																pos:        position{line: 2953, col: 29, offset: 93370},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18824,9 +18824,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93528},
+																													pos: position{line: 2963, col: 8, offset: 93530},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93529,
+																														line: 2963, col: 9, offset: 93531,
 																													},
 																												},
 																											},
@@ -18841,35 +18841,35 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrOneExpr{
-																		pos: position{line: 847, col: 5, offset: 27477},
+																		pos: position{line: 847, col: 5, offset: 27479},
 																		expr: &choiceExpr{
-																			pos: position{line: 853, col: 29, offset: 27672},
+																			pos: position{line: 853, col: 29, offset: 27674},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 765, col: 5, offset: 24672},
+																					pos: position{line: 765, col: 5, offset: 24674},
 																					run: (*parser).callonDocumentHeader378,
 																					expr: &seqExpr{
-																						pos: position{line: 765, col: 5, offset: 24672},
+																						pos: position{line: 765, col: 5, offset: 24674},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 765, col: 5, offset: 24672},
+																								pos:   position{line: 765, col: 5, offset: 24674},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 765, col: 16, offset: 24683},
+																									pos: position{line: 765, col: 16, offset: 24685},
 																									run: (*parser).callonDocumentHeader381,
 																									expr: &seqExpr{
-																										pos: position{line: 765, col: 16, offset: 24683},
+																										pos: position{line: 765, col: 16, offset: 24685},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 765, col: 16, offset: 24683},
+																												pos:        position{line: 765, col: 16, offset: 24685},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 765, col: 23, offset: 24690},
+																												pos: position{line: 765, col: 23, offset: 24692},
 																												expr: &litMatcher{
-																													pos:        position{line: 765, col: 23, offset: 24690},
+																													pos:        position{line: 765, col: 23, offset: 24692},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -18880,12 +18880,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 767, col: 8, offset: 24774},
+																								pos: position{line: 767, col: 8, offset: 24776},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93180},
+																									pos: position{line: 2944, col: 10, offset: 93182},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93180},
+																										pos:        position{line: 2944, col: 10, offset: 93182},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -18894,28 +18894,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2966, col: 8, offset: 93578},
+																								pos: position{line: 2966, col: 8, offset: 93580},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2953, col: 12, offset: 93351},
+																										pos: position{line: 2953, col: 12, offset: 93353},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2953, col: 13, offset: 93352},
+																											pos: position{line: 2953, col: 13, offset: 93354},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 13, offset: 93352},
+																													pos:        position{line: 2953, col: 13, offset: 93354},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 20, offset: 93359},
+																													pos:        position{line: 2953, col: 20, offset: 93361},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 29, offset: 93368},
+																													pos:        position{line: 2953, col: 29, offset: 93370},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -18924,9 +18924,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93528},
+																										pos: position{line: 2963, col: 8, offset: 93530},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93529,
+																											line: 2963, col: 9, offset: 93531,
 																										},
 																									},
 																								},
@@ -18935,9 +18935,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
@@ -18950,23 +18950,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1146, col: 5, offset: 35623},
+												pos:   position{line: 1146, col: 5, offset: 35625},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1146, col: 14, offset: 35632},
+													pos: position{line: 1146, col: 14, offset: 35634},
 													expr: &actionExpr{
-														pos: position{line: 1194, col: 21, offset: 36975},
+														pos: position{line: 1194, col: 21, offset: 36977},
 														run: (*parser).callonDocumentHeader401,
 														expr: &seqExpr{
-															pos: position{line: 1194, col: 21, offset: 36975},
+															pos: position{line: 1194, col: 21, offset: 36977},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1194, col: 21, offset: 36975},
+																	pos: position{line: 1194, col: 21, offset: 36977},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93180},
+																		pos: position{line: 2944, col: 10, offset: 93182},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93180},
+																			pos:        position{line: 2944, col: 10, offset: 93182},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18975,55 +18975,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1194, col: 28, offset: 36982},
+																	pos: position{line: 1194, col: 28, offset: 36984},
 																	expr: &litMatcher{
-																		pos:        position{line: 1194, col: 29, offset: 36983},
+																		pos:        position{line: 1194, col: 29, offset: 36985},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1194, col: 33, offset: 36987},
+																	pos:   position{line: 1194, col: 33, offset: 36989},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1195, col: 9, offset: 37006},
+																		pos: position{line: 1195, col: 9, offset: 37008},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1195, col: 10, offset: 37007},
+																				pos: position{line: 1195, col: 10, offset: 37009},
 																				run: (*parser).callonDocumentHeader410,
 																				expr: &seqExpr{
-																					pos: position{line: 1195, col: 10, offset: 37007},
+																					pos: position{line: 1195, col: 10, offset: 37009},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1195, col: 10, offset: 37007},
+																							pos:   position{line: 1195, col: 10, offset: 37009},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1204, col: 27, offset: 37524},
+																								pos: position{line: 1204, col: 27, offset: 37526},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1204, col: 27, offset: 37524},
+																										pos: position{line: 1204, col: 27, offset: 37526},
 																										run: (*parser).callonDocumentHeader414,
 																										expr: &seqExpr{
-																											pos: position{line: 1204, col: 27, offset: 37524},
+																											pos: position{line: 1204, col: 27, offset: 37526},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1204, col: 27, offset: 37524},
+																													pos:        position{line: 1204, col: 27, offset: 37526},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1204, col: 32, offset: 37529},
+																													pos:        position{line: 1204, col: 32, offset: 37531},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1204, col: 38, offset: 37535},
+																													pos: position{line: 1204, col: 38, offset: 37537},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1204, col: 38, offset: 37535},
+																														pos:        position{line: 1204, col: 38, offset: 37537},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -19034,31 +19034,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1206, col: 5, offset: 37583},
+																										pos: position{line: 1206, col: 5, offset: 37585},
 																										run: (*parser).callonDocumentHeader420,
 																										expr: &seqExpr{
-																											pos: position{line: 1206, col: 5, offset: 37583},
+																											pos: position{line: 1206, col: 5, offset: 37585},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1206, col: 5, offset: 37583},
+																													pos: position{line: 1206, col: 5, offset: 37585},
 																													expr: &litMatcher{
-																														pos:        position{line: 1206, col: 5, offset: 37583},
+																														pos:        position{line: 1206, col: 5, offset: 37585},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1206, col: 11, offset: 37589},
+																													pos:        position{line: 1206, col: 11, offset: 37591},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1206, col: 17, offset: 37595},
+																													pos: position{line: 1206, col: 17, offset: 37597},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1206, col: 17, offset: 37595},
+																														pos:        position{line: 1206, col: 17, offset: 37597},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -19066,12 +19066,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1206, col: 28, offset: 37606},
+																													pos: position{line: 1206, col: 28, offset: 37608},
 																													expr: &actionExpr{
-																														pos: position{line: 2944, col: 10, offset: 93180},
+																														pos: position{line: 2944, col: 10, offset: 93182},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2944, col: 10, offset: 93180},
+																															pos:        position{line: 2944, col: 10, offset: 93182},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -19080,9 +19080,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1206, col: 35, offset: 37613},
+																													pos: position{line: 1206, col: 35, offset: 37615},
 																													expr: &litMatcher{
-																														pos:        position{line: 1206, col: 36, offset: 37614},
+																														pos:        position{line: 1206, col: 36, offset: 37616},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -19095,26 +19095,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1195, col: 45, offset: 37042},
+																							pos: position{line: 1195, col: 45, offset: 37044},
 																							expr: &litMatcher{
-																								pos:        position{line: 1195, col: 45, offset: 37042},
+																								pos:        position{line: 1195, col: 45, offset: 37044},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1195, col: 50, offset: 37047},
+																							pos:   position{line: 1195, col: 50, offset: 37049},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1195, col: 58, offset: 37055},
+																								pos: position{line: 1195, col: 58, offset: 37057},
 																								expr: &actionExpr{
-																									pos: position{line: 1210, col: 25, offset: 37678},
+																									pos: position{line: 1210, col: 25, offset: 37680},
 																									run: (*parser).callonDocumentHeader436,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1210, col: 25, offset: 37678},
+																										pos: position{line: 1210, col: 25, offset: 37680},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1210, col: 25, offset: 37678},
+																											pos:        position{line: 1210, col: 25, offset: 37680},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -19125,26 +19125,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1195, col: 82, offset: 37079},
+																							pos: position{line: 1195, col: 82, offset: 37081},
 																							expr: &litMatcher{
-																								pos:        position{line: 1195, col: 82, offset: 37079},
+																								pos:        position{line: 1195, col: 82, offset: 37081},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1195, col: 87, offset: 37084},
+																							pos:   position{line: 1195, col: 87, offset: 37086},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1195, col: 97, offset: 37094},
+																								pos: position{line: 1195, col: 97, offset: 37096},
 																								expr: &actionExpr{
-																									pos: position{line: 1214, col: 27, offset: 37750},
+																									pos: position{line: 1214, col: 27, offset: 37752},
 																									run: (*parser).callonDocumentHeader443,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1214, col: 27, offset: 37750},
+																										pos: position{line: 1214, col: 27, offset: 37752},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1214, col: 27, offset: 37750},
+																											pos:        position{line: 1214, col: 27, offset: 37752},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -19158,21 +19158,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1197, col: 15, offset: 37212},
+																				pos: position{line: 1197, col: 15, offset: 37214},
 																				run: (*parser).callonDocumentHeader446,
 																				expr: &seqExpr{
-																					pos: position{line: 1197, col: 15, offset: 37212},
+																					pos: position{line: 1197, col: 15, offset: 37214},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1197, col: 15, offset: 37212},
+																							pos:   position{line: 1197, col: 15, offset: 37214},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1210, col: 25, offset: 37678},
+																								pos: position{line: 1210, col: 25, offset: 37680},
 																								run: (*parser).callonDocumentHeader449,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1210, col: 25, offset: 37678},
+																									pos: position{line: 1210, col: 25, offset: 37680},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1210, col: 25, offset: 37678},
+																										pos:        position{line: 1210, col: 25, offset: 37680},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -19182,26 +19182,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1197, col: 46, offset: 37243},
+																							pos: position{line: 1197, col: 46, offset: 37245},
 																							expr: &litMatcher{
-																								pos:        position{line: 1197, col: 46, offset: 37243},
+																								pos:        position{line: 1197, col: 46, offset: 37245},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1197, col: 51, offset: 37248},
+																							pos:   position{line: 1197, col: 51, offset: 37250},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1197, col: 61, offset: 37258},
+																								pos: position{line: 1197, col: 61, offset: 37260},
 																								expr: &actionExpr{
-																									pos: position{line: 1214, col: 27, offset: 37750},
+																									pos: position{line: 1214, col: 27, offset: 37752},
 																									run: (*parser).callonDocumentHeader456,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1214, col: 27, offset: 37750},
+																										pos: position{line: 1214, col: 27, offset: 37752},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1214, col: 27, offset: 37750},
+																											pos:        position{line: 1214, col: 27, offset: 37752},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -19218,28 +19218,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93578},
+																	pos: position{line: 2966, col: 8, offset: 93580},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93351},
+																			pos: position{line: 2953, col: 12, offset: 93353},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93352},
+																				pos: position{line: 2953, col: 13, offset: 93354},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93352},
+																						pos:        position{line: 2953, col: 13, offset: 93354},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93359},
+																						pos:        position{line: 2953, col: 20, offset: 93361},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93368},
+																						pos:        position{line: 2953, col: 29, offset: 93370},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -19248,9 +19248,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93528},
+																			pos: position{line: 2963, col: 8, offset: 93530},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93529,
+																				line: 2963, col: 9, offset: 93531,
 																			},
 																		},
 																	},
@@ -19266,15 +19266,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1133, col: 5, offset: 35169},
+							pos:   position{line: 1133, col: 5, offset: 35171},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1133, col: 19, offset: 35183},
+								pos: position{line: 1133, col: 19, offset: 35185},
 								expr: &choiceExpr{
-									pos: position{line: 1133, col: 20, offset: 35184},
+									pos: position{line: 1133, col: 20, offset: 35186},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1133, col: 20, offset: 35184},
+											pos:  position{line: 1133, col: 20, offset: 35186},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
@@ -19330,10 +19330,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 49, offset: 11042},
 														expr: &actionExpr{
-															pos: position{line: 2944, col: 10, offset: 93180},
+															pos: position{line: 2944, col: 10, offset: 93182},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 10, offset: 93180},
+																pos:        position{line: 2944, col: 10, offset: 93182},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19342,28 +19342,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2966, col: 8, offset: 93578},
+														pos: position{line: 2966, col: 8, offset: 93580},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93351},
+																pos: position{line: 2953, col: 12, offset: 93353},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93352},
+																	pos: position{line: 2953, col: 13, offset: 93354},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93352},
+																			pos:        position{line: 2953, col: 13, offset: 93354},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93359},
+																			pos:        position{line: 2953, col: 20, offset: 93361},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93368},
+																			pos:        position{line: 2953, col: 29, offset: 93370},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19372,9 +19372,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93528},
+																pos: position{line: 2963, col: 8, offset: 93530},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93529,
+																	line: 2963, col: 9, offset: 93531,
 																},
 															},
 														},
@@ -19435,10 +19435,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 364, col: 39, offset: 11163},
 														expr: &actionExpr{
-															pos: position{line: 2944, col: 10, offset: 93180},
+															pos: position{line: 2944, col: 10, offset: 93182},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 10, offset: 93180},
+																pos:        position{line: 2944, col: 10, offset: 93182},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19447,28 +19447,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2966, col: 8, offset: 93578},
+														pos: position{line: 2966, col: 8, offset: 93580},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93351},
+																pos: position{line: 2953, col: 12, offset: 93353},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93352},
+																	pos: position{line: 2953, col: 13, offset: 93354},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93352},
+																			pos:        position{line: 2953, col: 13, offset: 93354},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93359},
+																			pos:        position{line: 2953, col: 20, offset: 93361},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93368},
+																			pos:        position{line: 2953, col: 29, offset: 93370},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19477,9 +19477,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93528},
+																pos: position{line: 2963, col: 8, offset: 93530},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93529,
+																	line: 2963, col: 9, offset: 93531,
 																},
 															},
 														},
@@ -19488,36 +19488,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2538, col: 22, offset: 81740},
+											pos: position{line: 2538, col: 22, offset: 81742},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2538, col: 22, offset: 81740},
+												pos: position{line: 2538, col: 22, offset: 81742},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2543, col: 31, offset: 81990},
+														pos:        position{line: 2543, col: 31, offset: 81992},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2543, col: 36, offset: 81995},
+														pos: position{line: 2543, col: 36, offset: 81997},
 														expr: &litMatcher{
-															pos:        position{line: 2543, col: 37, offset: 81996},
+															pos:        position{line: 2543, col: 37, offset: 81998},
 															val:        "/",
 															ignoreCase: false,
 															want:       "\"/\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2538, col: 49, offset: 81767},
+														pos:   position{line: 2538, col: 49, offset: 81769},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2890, col: 13, offset: 91706},
+															pos: position{line: 2890, col: 13, offset: 91708},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2890, col: 13, offset: 91706},
+																pos: position{line: 2890, col: 13, offset: 91708},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2890, col: 13, offset: 91706},
+																	pos:        position{line: 2890, col: 13, offset: 91708},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -19527,28 +19527,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2966, col: 8, offset: 93578},
+														pos: position{line: 2966, col: 8, offset: 93580},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93351},
+																pos: position{line: 2953, col: 12, offset: 93353},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93352},
+																	pos: position{line: 2953, col: 13, offset: 93354},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93352},
+																			pos:        position{line: 2953, col: 13, offset: 93354},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93359},
+																			pos:        position{line: 2953, col: 20, offset: 93361},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93368},
+																			pos:        position{line: 2953, col: 29, offset: 93370},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19557,9 +19557,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93528},
+																pos: position{line: 2963, col: 8, offset: 93530},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93529,
+																	line: 2963, col: 9, offset: 93531,
 																},
 															},
 														},
@@ -19568,36 +19568,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 845, col: 5, offset: 27412},
+											pos: position{line: 845, col: 5, offset: 27414},
 											run: (*parser).callonDocumentHeader530,
 											expr: &seqExpr{
-												pos: position{line: 845, col: 5, offset: 27412},
+												pos: position{line: 845, col: 5, offset: 27414},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 765, col: 5, offset: 24672},
+														pos: position{line: 765, col: 5, offset: 24674},
 														run: (*parser).callonDocumentHeader532,
 														expr: &seqExpr{
-															pos: position{line: 765, col: 5, offset: 24672},
+															pos: position{line: 765, col: 5, offset: 24674},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 765, col: 5, offset: 24672},
+																	pos:   position{line: 765, col: 5, offset: 24674},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 765, col: 16, offset: 24683},
+																		pos: position{line: 765, col: 16, offset: 24685},
 																		run: (*parser).callonDocumentHeader535,
 																		expr: &seqExpr{
-																			pos: position{line: 765, col: 16, offset: 24683},
+																			pos: position{line: 765, col: 16, offset: 24685},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 765, col: 16, offset: 24683},
+																					pos:        position{line: 765, col: 16, offset: 24685},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 765, col: 23, offset: 24690},
+																					pos: position{line: 765, col: 23, offset: 24692},
 																					expr: &litMatcher{
-																						pos:        position{line: 765, col: 23, offset: 24690},
+																						pos:        position{line: 765, col: 23, offset: 24692},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -19608,12 +19608,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 767, col: 8, offset: 24774},
+																	pos: position{line: 767, col: 8, offset: 24776},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93180},
+																		pos: position{line: 2944, col: 10, offset: 93182},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93180},
+																			pos:        position{line: 2944, col: 10, offset: 93182},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -19622,28 +19622,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93578},
+																	pos: position{line: 2966, col: 8, offset: 93580},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93351},
+																			pos: position{line: 2953, col: 12, offset: 93353},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93352},
+																				pos: position{line: 2953, col: 13, offset: 93354},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93352},
+																						pos:        position{line: 2953, col: 13, offset: 93354},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93359},
+																						pos:        position{line: 2953, col: 20, offset: 93361},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93368},
+																						pos:        position{line: 2953, col: 29, offset: 93370},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -19652,9 +19652,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93528},
+																			pos: position{line: 2963, col: 8, offset: 93530},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93529,
+																				line: 2963, col: 9, offset: 93531,
 																			},
 																		},
 																	},
@@ -19663,46 +19663,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 846, col: 5, offset: 27443},
+														pos:   position{line: 846, col: 5, offset: 27445},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 856, col: 5, offset: 27729},
+															pos: position{line: 856, col: 5, offset: 27731},
 															expr: &actionExpr{
-																pos: position{line: 856, col: 6, offset: 27730},
+																pos: position{line: 856, col: 6, offset: 27732},
 																run: (*parser).callonDocumentHeader553,
 																expr: &seqExpr{
-																	pos: position{line: 856, col: 6, offset: 27730},
+																	pos: position{line: 856, col: 6, offset: 27732},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 856, col: 6, offset: 27730},
+																			pos: position{line: 856, col: 6, offset: 27732},
 																			expr: &choiceExpr{
-																				pos: position{line: 853, col: 29, offset: 27672},
+																				pos: position{line: 853, col: 29, offset: 27674},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 765, col: 5, offset: 24672},
+																						pos: position{line: 765, col: 5, offset: 24674},
 																						run: (*parser).callonDocumentHeader557,
 																						expr: &seqExpr{
-																							pos: position{line: 765, col: 5, offset: 24672},
+																							pos: position{line: 765, col: 5, offset: 24674},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 765, col: 5, offset: 24672},
+																									pos:   position{line: 765, col: 5, offset: 24674},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 765, col: 16, offset: 24683},
+																										pos: position{line: 765, col: 16, offset: 24685},
 																										run: (*parser).callonDocumentHeader560,
 																										expr: &seqExpr{
-																											pos: position{line: 765, col: 16, offset: 24683},
+																											pos: position{line: 765, col: 16, offset: 24685},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 765, col: 16, offset: 24683},
+																													pos:        position{line: 765, col: 16, offset: 24685},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 765, col: 23, offset: 24690},
+																													pos: position{line: 765, col: 23, offset: 24692},
 																													expr: &litMatcher{
-																														pos:        position{line: 765, col: 23, offset: 24690},
+																														pos:        position{line: 765, col: 23, offset: 24692},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -19713,12 +19713,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 767, col: 8, offset: 24774},
+																									pos: position{line: 767, col: 8, offset: 24776},
 																									expr: &actionExpr{
-																										pos: position{line: 2944, col: 10, offset: 93180},
+																										pos: position{line: 2944, col: 10, offset: 93182},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2944, col: 10, offset: 93180},
+																											pos:        position{line: 2944, col: 10, offset: 93182},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -19727,28 +19727,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2966, col: 8, offset: 93578},
+																									pos: position{line: 2966, col: 8, offset: 93580},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2953, col: 12, offset: 93351},
+																											pos: position{line: 2953, col: 12, offset: 93353},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2953, col: 13, offset: 93352},
+																												pos: position{line: 2953, col: 13, offset: 93354},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 13, offset: 93352},
+																														pos:        position{line: 2953, col: 13, offset: 93354},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 20, offset: 93359},
+																														pos:        position{line: 2953, col: 20, offset: 93361},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 29, offset: 93368},
+																														pos:        position{line: 2953, col: 29, offset: 93370},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -19757,9 +19757,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2963, col: 8, offset: 93528},
+																											pos: position{line: 2963, col: 8, offset: 93530},
 																											expr: &anyMatcher{
-																												line: 2963, col: 9, offset: 93529,
+																												line: 2963, col: 9, offset: 93531,
 																											},
 																										},
 																									},
@@ -19768,39 +19768,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93528},
+																						pos: position{line: 2963, col: 8, offset: 93530},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93529,
+																							line: 2963, col: 9, offset: 93531,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 857, col: 5, offset: 27760},
+																			pos:   position{line: 857, col: 5, offset: 27762},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 836, col: 5, offset: 27176},
+																				pos: position{line: 836, col: 5, offset: 27178},
 																				run: (*parser).callonDocumentHeader579,
 																				expr: &seqExpr{
-																					pos: position{line: 836, col: 5, offset: 27176},
+																					pos: position{line: 836, col: 5, offset: 27178},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2961, col: 11, offset: 93514},
+																							pos: position{line: 2961, col: 11, offset: 93516},
 																							expr: &anyMatcher{
-																								line: 2961, col: 13, offset: 93516,
+																								line: 2961, col: 13, offset: 93518,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 837, col: 5, offset: 27251},
+																							pos:   position{line: 837, col: 5, offset: 27253},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2890, col: 13, offset: 91706},
+																								pos: position{line: 2890, col: 13, offset: 91708},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2890, col: 13, offset: 91706},
+																									pos: position{line: 2890, col: 13, offset: 91708},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91706},
+																										pos:        position{line: 2890, col: 13, offset: 91708},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19810,28 +19810,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19840,9 +19840,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -19857,35 +19857,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 847, col: 5, offset: 27477},
+														pos: position{line: 847, col: 5, offset: 27479},
 														expr: &choiceExpr{
-															pos: position{line: 853, col: 29, offset: 27672},
+															pos: position{line: 853, col: 29, offset: 27674},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 765, col: 5, offset: 24672},
+																	pos: position{line: 765, col: 5, offset: 24674},
 																	run: (*parser).callonDocumentHeader597,
 																	expr: &seqExpr{
-																		pos: position{line: 765, col: 5, offset: 24672},
+																		pos: position{line: 765, col: 5, offset: 24674},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 765, col: 5, offset: 24672},
+																				pos:   position{line: 765, col: 5, offset: 24674},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 765, col: 16, offset: 24683},
+																					pos: position{line: 765, col: 16, offset: 24685},
 																					run: (*parser).callonDocumentHeader600,
 																					expr: &seqExpr{
-																						pos: position{line: 765, col: 16, offset: 24683},
+																						pos: position{line: 765, col: 16, offset: 24685},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 765, col: 16, offset: 24683},
+																								pos:        position{line: 765, col: 16, offset: 24685},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 765, col: 23, offset: 24690},
+																								pos: position{line: 765, col: 23, offset: 24692},
 																								expr: &litMatcher{
-																									pos:        position{line: 765, col: 23, offset: 24690},
+																									pos:        position{line: 765, col: 23, offset: 24692},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -19896,12 +19896,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 767, col: 8, offset: 24774},
+																				pos: position{line: 767, col: 8, offset: 24776},
 																				expr: &actionExpr{
-																					pos: position{line: 2944, col: 10, offset: 93180},
+																					pos: position{line: 2944, col: 10, offset: 93182},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2944, col: 10, offset: 93180},
+																						pos:        position{line: 2944, col: 10, offset: 93182},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -19910,28 +19910,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2966, col: 8, offset: 93578},
+																				pos: position{line: 2966, col: 8, offset: 93580},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2953, col: 12, offset: 93351},
+																						pos: position{line: 2953, col: 12, offset: 93353},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2953, col: 13, offset: 93352},
+																							pos: position{line: 2953, col: 13, offset: 93354},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 13, offset: 93352},
+																									pos:        position{line: 2953, col: 13, offset: 93354},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 20, offset: 93359},
+																									pos:        position{line: 2953, col: 20, offset: 93361},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 29, offset: 93368},
+																									pos:        position{line: 2953, col: 29, offset: 93370},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -19940,9 +19940,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93528},
+																						pos: position{line: 2963, col: 8, offset: 93530},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93529,
+																							line: 2963, col: 9, offset: 93531,
 																						},
 																					},
 																				},
@@ -19951,9 +19951,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2963, col: 8, offset: 93528},
+																	pos: position{line: 2963, col: 8, offset: 93530},
 																	expr: &anyMatcher{
-																		line: 2963, col: 9, offset: 93529,
+																		line: 2963, col: 9, offset: 93531,
 																	},
 																},
 															},
@@ -19972,26 +19972,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1137, col: 1, offset: 35381},
+			pos:  position{line: 1137, col: 1, offset: 35383},
 			expr: &actionExpr{
-				pos: position{line: 1138, col: 5, offset: 35403},
+				pos: position{line: 1138, col: 5, offset: 35405},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1138, col: 5, offset: 35403},
+					pos: position{line: 1138, col: 5, offset: 35405},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1138, col: 5, offset: 35403},
+							pos:        position{line: 1138, col: 5, offset: 35405},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2948, col: 11, offset: 93241},
+							pos: position{line: 2948, col: 11, offset: 93243},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2948, col: 11, offset: 93241},
+								pos: position{line: 2948, col: 11, offset: 93243},
 								expr: &charClassMatcher{
-									pos:        position{line: 2948, col: 11, offset: 93241},
+									pos:        position{line: 2948, col: 11, offset: 93243},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20000,36 +20000,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1138, col: 16, offset: 35414},
+							pos:   position{line: 1138, col: 16, offset: 35416},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1138, col: 23, offset: 35421},
+								pos:  position{line: 1138, col: 23, offset: 35423},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2966, col: 8, offset: 93578},
+							pos: position{line: 2966, col: 8, offset: 93580},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2953, col: 12, offset: 93351},
+									pos: position{line: 2953, col: 12, offset: 93353},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2953, col: 13, offset: 93352},
+										pos: position{line: 2953, col: 13, offset: 93354},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2953, col: 13, offset: 93352},
+												pos:        position{line: 2953, col: 13, offset: 93354},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 20, offset: 93359},
+												pos:        position{line: 2953, col: 20, offset: 93361},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 29, offset: 93368},
+												pos:        position{line: 2953, col: 29, offset: 93370},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20038,9 +20038,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2963, col: 8, offset: 93528},
+									pos: position{line: 2963, col: 8, offset: 93530},
 									expr: &anyMatcher{
-										line: 2963, col: 9, offset: 93529,
+										line: 2963, col: 9, offset: 93531,
 									},
 								},
 							},
@@ -20051,23 +20051,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1165, col: 1, offset: 36261},
+			pos:  position{line: 1165, col: 1, offset: 36263},
 			expr: &actionExpr{
-				pos: position{line: 1166, col: 5, offset: 36292},
+				pos: position{line: 1166, col: 5, offset: 36294},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1166, col: 5, offset: 36292},
+					pos: position{line: 1166, col: 5, offset: 36294},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1166, col: 5, offset: 36292},
+							pos:   position{line: 1166, col: 5, offset: 36294},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1166, col: 12, offset: 36299},
+								pos: position{line: 1166, col: 12, offset: 36301},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1166, col: 12, offset: 36299},
+									pos: position{line: 1166, col: 12, offset: 36301},
 									expr: &charClassMatcher{
-										pos:        position{line: 1166, col: 12, offset: 36299},
+										pos:        position{line: 1166, col: 12, offset: 36301},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -20077,12 +20077,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1169, col: 5, offset: 36379},
+							pos: position{line: 1169, col: 5, offset: 36381},
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 10, offset: 93180},
+								pos: position{line: 2944, col: 10, offset: 93182},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2944, col: 10, offset: 93180},
+									pos:        position{line: 2944, col: 10, offset: 93182},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20091,17 +20091,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1170, col: 5, offset: 36390},
+							pos:   position{line: 1170, col: 5, offset: 36392},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1170, col: 11, offset: 36396},
+								pos: position{line: 1170, col: 11, offset: 36398},
 								expr: &actionExpr{
-									pos: position{line: 1170, col: 12, offset: 36397},
+									pos: position{line: 1170, col: 12, offset: 36399},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1170, col: 12, offset: 36397},
+										pos: position{line: 1170, col: 12, offset: 36399},
 										expr: &charClassMatcher{
-											pos:        position{line: 1170, col: 12, offset: 36397},
+											pos:        position{line: 1170, col: 12, offset: 36399},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -20112,12 +20112,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1173, col: 5, offset: 36478},
+							pos: position{line: 1173, col: 5, offset: 36480},
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 10, offset: 93180},
+								pos: position{line: 2944, col: 10, offset: 93182},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2944, col: 10, offset: 93180},
+									pos:        position{line: 2944, col: 10, offset: 93182},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20126,17 +20126,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1174, col: 5, offset: 36489},
+							pos:   position{line: 1174, col: 5, offset: 36491},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1174, col: 11, offset: 36495},
+								pos: position{line: 1174, col: 11, offset: 36497},
 								expr: &actionExpr{
-									pos: position{line: 1174, col: 12, offset: 36496},
+									pos: position{line: 1174, col: 12, offset: 36498},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1174, col: 12, offset: 36496},
+										pos: position{line: 1174, col: 12, offset: 36498},
 										expr: &charClassMatcher{
-											pos:        position{line: 1174, col: 12, offset: 36496},
+											pos:        position{line: 1174, col: 12, offset: 36498},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -20147,12 +20147,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1177, col: 5, offset: 36575},
+							pos: position{line: 1177, col: 5, offset: 36577},
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 10, offset: 93180},
+								pos: position{line: 2944, col: 10, offset: 93182},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2944, col: 10, offset: 93180},
+									pos:        position{line: 2944, col: 10, offset: 93182},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20166,28 +20166,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1290, col: 1, offset: 40351},
+			pos:  position{line: 1290, col: 1, offset: 40353},
 			expr: &actionExpr{
-				pos: position{line: 1291, col: 5, offset: 40372},
+				pos: position{line: 1291, col: 5, offset: 40374},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1291, col: 5, offset: 40372},
+					pos: position{line: 1291, col: 5, offset: 40374},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1291, col: 5, offset: 40372},
+							pos: position{line: 1291, col: 5, offset: 40374},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1294, col: 5, offset: 40431},
+							pos:        position{line: 1294, col: 5, offset: 40433},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1294, col: 12, offset: 40438},
+							pos:   position{line: 1294, col: 12, offset: 40440},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1294, col: 24, offset: 40450},
+								pos:  position{line: 1294, col: 24, offset: 40452},
 								name: "InlineAttributes",
 							},
 						},
@@ -20197,33 +20197,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1301, col: 1, offset: 40738},
+			pos:  position{line: 1301, col: 1, offset: 40740},
 			expr: &actionExpr{
-				pos: position{line: 1302, col: 5, offset: 40757},
+				pos: position{line: 1302, col: 5, offset: 40759},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1302, col: 5, offset: 40757},
+					pos: position{line: 1302, col: 5, offset: 40759},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1302, col: 5, offset: 40757},
+							pos: position{line: 1302, col: 5, offset: 40759},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1305, col: 5, offset: 40816},
+							pos:        position{line: 1305, col: 5, offset: 40818},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1305, col: 13, offset: 40824},
+							pos:   position{line: 1305, col: 13, offset: 40826},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2929, col: 7, offset: 92832},
+								pos: position{line: 2929, col: 7, offset: 92834},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2929, col: 7, offset: 92832},
+									pos: position{line: 2929, col: 7, offset: 92834},
 									expr: &charClassMatcher{
-										pos:        position{line: 2929, col: 7, offset: 92832},
+										pos:        position{line: 2929, col: 7, offset: 92834},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -20233,10 +20233,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1305, col: 21, offset: 40832},
+							pos:   position{line: 1305, col: 21, offset: 40834},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1305, col: 33, offset: 40844},
+								pos:  position{line: 1305, col: 33, offset: 40846},
 								name: "InlineAttributes",
 							},
 						},
@@ -20246,29 +20246,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1312, col: 1, offset: 41143},
+			pos:  position{line: 1312, col: 1, offset: 41145},
 			expr: &actionExpr{
-				pos: position{line: 1312, col: 14, offset: 41156},
+				pos: position{line: 1312, col: 14, offset: 41158},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1312, col: 14, offset: 41156},
+					pos: position{line: 1312, col: 14, offset: 41158},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1312, col: 14, offset: 41156},
+							pos:        position{line: 1312, col: 14, offset: 41158},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1312, col: 19, offset: 41161},
+							pos:   position{line: 1312, col: 19, offset: 41163},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1312, col: 25, offset: 41167},
+								pos:  position{line: 1312, col: 25, offset: 41169},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1312, col: 43, offset: 41185},
+							pos:        position{line: 1312, col: 43, offset: 41187},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -20279,25 +20279,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1316, col: 1, offset: 41254},
+			pos:  position{line: 1316, col: 1, offset: 41256},
 			expr: &actionExpr{
-				pos: position{line: 1316, col: 21, offset: 41274},
+				pos: position{line: 1316, col: 21, offset: 41276},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1316, col: 21, offset: 41274},
+					pos:   position{line: 1316, col: 21, offset: 41276},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1316, col: 30, offset: 41283},
+						pos: position{line: 1316, col: 30, offset: 41285},
 						expr: &choiceExpr{
-							pos: position{line: 1316, col: 31, offset: 41284},
+							pos: position{line: 1316, col: 31, offset: 41286},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2838, col: 14, offset: 90349},
+									pos: position{line: 2838, col: 14, offset: 90351},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2838, col: 14, offset: 90349},
+										pos: position{line: 2838, col: 14, offset: 90351},
 										expr: &charClassMatcher{
-											pos:        position{line: 2838, col: 14, offset: 90349},
+											pos:        position{line: 2838, col: 14, offset: 90351},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20306,14 +20306,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1316, col: 43, offset: 41296},
+									pos:  position{line: 1316, col: 43, offset: 41298},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2944, col: 10, offset: 93180},
+									pos: position{line: 2944, col: 10, offset: 93182},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2944, col: 10, offset: 93180},
+										pos:        position{line: 2944, col: 10, offset: 93182},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -20321,23 +20321,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2525, col: 5, offset: 81286},
+									pos: position{line: 2525, col: 5, offset: 81288},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2525, col: 5, offset: 81286},
+										pos: position{line: 2525, col: 5, offset: 81288},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2525, col: 5, offset: 81286},
+												pos: position{line: 2525, col: 5, offset: 81288},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2528, col: 5, offset: 81362},
+												pos:   position{line: 2528, col: 5, offset: 81364},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2529, col: 9, offset: 81380},
+													pos: position{line: 2529, col: 9, offset: 81382},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2529, col: 10, offset: 81381},
+														pos:        position{line: 2529, col: 10, offset: 81383},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -20349,27 +20349,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1223, col: 23, offset: 38060},
+									pos: position{line: 1223, col: 23, offset: 38062},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1223, col: 23, offset: 38060},
+										pos: position{line: 1223, col: 23, offset: 38062},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1221, col: 32, offset: 38028},
+												pos:        position{line: 1221, col: 32, offset: 38030},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1223, col: 51, offset: 38088},
+												pos:   position{line: 1223, col: 51, offset: 38090},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1223, col: 56, offset: 38093},
+													pos: position{line: 1223, col: 56, offset: 38095},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1223, col: 56, offset: 38093},
+														pos: position{line: 1223, col: 56, offset: 38095},
 														expr: &charClassMatcher{
-															pos:        position{line: 1223, col: 56, offset: 38093},
+															pos:        position{line: 1223, col: 56, offset: 38095},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -20379,35 +20379,35 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1221, col: 32, offset: 38028},
+												pos:        position{line: 1221, col: 32, offset: 38030},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 1223, col: 123, offset: 38160},
+												pos: position{line: 1223, col: 123, offset: 38162},
 												run: (*parser).callonIndexTermContent25,
 											},
 										},
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1316, col: 104, offset: 41357},
+									pos: position{line: 1316, col: 104, offset: 41359},
 									run: (*parser).callonIndexTermContent26,
 									expr: &seqExpr{
-										pos: position{line: 1316, col: 105, offset: 41358},
+										pos: position{line: 1316, col: 105, offset: 41360},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1316, col: 105, offset: 41358},
+												pos: position{line: 1316, col: 105, offset: 41360},
 												expr: &litMatcher{
-													pos:        position{line: 1316, col: 106, offset: 41359},
+													pos:        position{line: 1316, col: 106, offset: 41361},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1316, col: 111, offset: 41364,
+												line: 1316, col: 111, offset: 41366,
 											},
 										},
 									},
@@ -20420,65 +20420,65 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1336, col: 1, offset: 42073},
+			pos:  position{line: 1336, col: 1, offset: 42075},
 			expr: &actionExpr{
-				pos: position{line: 1337, col: 5, offset: 42092},
+				pos: position{line: 1337, col: 5, offset: 42094},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1337, col: 5, offset: 42092},
+					pos: position{line: 1337, col: 5, offset: 42094},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1337, col: 5, offset: 42092},
+							pos:        position{line: 1337, col: 5, offset: 42094},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1337, col: 15, offset: 42102},
+							pos:   position{line: 1337, col: 15, offset: 42104},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 13, offset: 91939},
+								pos: position{line: 2902, col: 13, offset: 91941},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2902, col: 13, offset: 91939},
+									pos: position{line: 2902, col: 13, offset: 91941},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2902, col: 13, offset: 91939},
+											pos:   position{line: 2902, col: 13, offset: 91941},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2902, col: 20, offset: 91946},
+												pos: position{line: 2902, col: 20, offset: 91948},
 												expr: &actionExpr{
-													pos: position{line: 2910, col: 11, offset: 92185},
+													pos: position{line: 2910, col: 11, offset: 92187},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2910, col: 12, offset: 92186},
+														pos: position{line: 2910, col: 12, offset: 92188},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2910, col: 12, offset: 92186},
+																pos:        position{line: 2910, col: 12, offset: 92188},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2910, col: 24, offset: 92198},
+																pos:        position{line: 2910, col: 24, offset: 92200},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2910, col: 37, offset: 92211},
+																pos:        position{line: 2910, col: 37, offset: 92213},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2910, col: 48, offset: 92222},
+																pos:        position{line: 2910, col: 48, offset: 92224},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2910, col: 59, offset: 92233},
+																pos:        position{line: 2910, col: 59, offset: 92235},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20489,38 +20489,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2902, col: 30, offset: 91956},
+											pos:   position{line: 2902, col: 30, offset: 91958},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2915, col: 5, offset: 92297},
+												pos: position{line: 2915, col: 5, offset: 92299},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2915, col: 5, offset: 92297},
+													pos:   position{line: 2915, col: 5, offset: 92299},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2915, col: 14, offset: 92306},
+														pos: position{line: 2915, col: 14, offset: 92308},
 														expr: &choiceExpr{
-															pos: position{line: 2916, col: 9, offset: 92316},
+															pos: position{line: 2916, col: 9, offset: 92318},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2916, col: 9, offset: 92316},
+																	pos: position{line: 2916, col: 9, offset: 92318},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2916, col: 9, offset: 92316},
+																		pos: position{line: 2916, col: 9, offset: 92318},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2916, col: 9, offset: 92316},
+																				pos: position{line: 2916, col: 9, offset: 92318},
 																				expr: &litMatcher{
-																					pos:        position{line: 2916, col: 10, offset: 92317},
+																					pos:        position{line: 2916, col: 10, offset: 92319},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2917, col: 9, offset: 92345},
+																				pos: position{line: 2917, col: 9, offset: 92347},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2917, col: 10, offset: 92346},
+																					pos:        position{line: 2917, col: 10, offset: 92348},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20531,27 +20531,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2920, col: 11, offset: 92558},
+																	pos: position{line: 2920, col: 11, offset: 92560},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2920, col: 11, offset: 92558},
+																			pos:        position{line: 2920, col: 11, offset: 92560},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2920, col: 19, offset: 92566},
+																			pos: position{line: 2920, col: 19, offset: 92568},
 																			expr: &seqExpr{
-																				pos: position{line: 2920, col: 21, offset: 92568},
+																				pos: position{line: 2920, col: 21, offset: 92570},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2920, col: 21, offset: 92568},
+																						pos: position{line: 2920, col: 21, offset: 92570},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93180},
+																							pos: position{line: 2944, col: 10, offset: 93182},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93180},
+																								pos:        position{line: 2944, col: 10, offset: 93182},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20560,11 +20560,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2920, col: 28, offset: 92575},
+																						pos: position{line: 2920, col: 28, offset: 92577},
 																						expr: &notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93528},
+																							pos: position{line: 2963, col: 8, offset: 93530},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93529,
+																								line: 2963, col: 9, offset: 93531,
 																							},
 																						},
 																					},
@@ -20574,35 +20574,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 661, col: 5, offset: 21195},
+																	pos: position{line: 661, col: 5, offset: 21197},
 																	run: (*parser).callonImageBlock37,
 																	expr: &seqExpr{
-																		pos: position{line: 661, col: 5, offset: 21195},
+																		pos: position{line: 661, col: 5, offset: 21197},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 661, col: 5, offset: 21195},
+																				pos: position{line: 661, col: 5, offset: 21197},
 																				run: (*parser).callonImageBlock39,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 664, col: 5, offset: 21267},
+																				pos:   position{line: 664, col: 5, offset: 21269},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 664, col: 14, offset: 21276},
+																					pos: position{line: 664, col: 14, offset: 21278},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 670, col: 5, offset: 21405},
+																							pos: position{line: 670, col: 5, offset: 21407},
 																							run: (*parser).callonImageBlock42,
 																							expr: &seqExpr{
-																								pos: position{line: 670, col: 5, offset: 21405},
+																								pos: position{line: 670, col: 5, offset: 21407},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 670, col: 5, offset: 21405},
+																										pos:        position{line: 670, col: 5, offset: 21407},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 670, col: 13, offset: 21413},
+																										pos:   position{line: 670, col: 13, offset: 21415},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -20634,7 +20634,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 670, col: 32, offset: 21432},
+																										pos:        position{line: 670, col: 32, offset: 21434},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20643,19 +20643,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 677, col: 5, offset: 21673},
+																							pos: position{line: 677, col: 5, offset: 21675},
 																							run: (*parser).callonImageBlock52,
 																							expr: &seqExpr{
-																								pos: position{line: 677, col: 5, offset: 21673},
+																								pos: position{line: 677, col: 5, offset: 21675},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 677, col: 5, offset: 21673},
+																										pos:        position{line: 677, col: 5, offset: 21675},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 677, col: 9, offset: 21677},
+																										pos:   position{line: 677, col: 9, offset: 21679},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -20687,7 +20687,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 677, col: 28, offset: 21696},
+																										pos:        position{line: 677, col: 28, offset: 21698},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20696,19 +20696,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 683, col: 25, offset: 21877},
+																							pos: position{line: 683, col: 25, offset: 21879},
 																							run: (*parser).callonImageBlock62,
 																							expr: &seqExpr{
-																								pos: position{line: 683, col: 25, offset: 21877},
+																								pos: position{line: 683, col: 25, offset: 21879},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 683, col: 25, offset: 21877},
+																										pos:        position{line: 683, col: 25, offset: 21879},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 683, col: 37, offset: 21889},
+																										pos:   position{line: 683, col: 37, offset: 21891},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -20740,33 +20740,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 683, col: 56, offset: 21908},
+																										pos:   position{line: 683, col: 56, offset: 21910},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 683, col: 62, offset: 21914},
+																											pos: position{line: 683, col: 62, offset: 21916},
 																											expr: &actionExpr{
-																												pos: position{line: 691, col: 17, offset: 22211},
+																												pos: position{line: 691, col: 17, offset: 22213},
 																												run: (*parser).callonImageBlock73,
 																												expr: &seqExpr{
-																													pos: position{line: 691, col: 17, offset: 22211},
+																													pos: position{line: 691, col: 17, offset: 22213},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 691, col: 17, offset: 22211},
+																															pos:        position{line: 691, col: 17, offset: 22213},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 691, col: 21, offset: 22215},
+																															pos:   position{line: 691, col: 21, offset: 22217},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 691, col: 28, offset: 22222},
+																																pos: position{line: 691, col: 28, offset: 22224},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 691, col: 28, offset: 22222},
+																																		pos: position{line: 691, col: 28, offset: 22224},
 																																		run: (*parser).callonImageBlock78,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 691, col: 28, offset: 22222},
+																																			pos:        position{line: 691, col: 28, offset: 22224},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20774,12 +20774,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 693, col: 9, offset: 22276},
+																																		pos: position{line: 693, col: 9, offset: 22278},
 																																		run: (*parser).callonImageBlock80,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 693, col: 9, offset: 22276},
+																																			pos: position{line: 693, col: 9, offset: 22278},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 693, col: 9, offset: 22276},
+																																				pos:        position{line: 693, col: 9, offset: 22278},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20796,7 +20796,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 683, col: 78, offset: 21930},
+																										pos:        position{line: 683, col: 78, offset: 21932},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20805,19 +20805,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 687, col: 25, offset: 22048},
+																							pos: position{line: 687, col: 25, offset: 22050},
 																							run: (*parser).callonImageBlock84,
 																							expr: &seqExpr{
-																								pos: position{line: 687, col: 25, offset: 22048},
+																								pos: position{line: 687, col: 25, offset: 22050},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 687, col: 25, offset: 22048},
+																										pos:        position{line: 687, col: 25, offset: 22050},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 687, col: 38, offset: 22061},
+																										pos:   position{line: 687, col: 38, offset: 22063},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -20849,33 +20849,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 687, col: 57, offset: 22080},
+																										pos:   position{line: 687, col: 57, offset: 22082},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 687, col: 63, offset: 22086},
+																											pos: position{line: 687, col: 63, offset: 22088},
 																											expr: &actionExpr{
-																												pos: position{line: 691, col: 17, offset: 22211},
+																												pos: position{line: 691, col: 17, offset: 22213},
 																												run: (*parser).callonImageBlock95,
 																												expr: &seqExpr{
-																													pos: position{line: 691, col: 17, offset: 22211},
+																													pos: position{line: 691, col: 17, offset: 22213},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 691, col: 17, offset: 22211},
+																															pos:        position{line: 691, col: 17, offset: 22213},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 691, col: 21, offset: 22215},
+																															pos:   position{line: 691, col: 21, offset: 22217},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 691, col: 28, offset: 22222},
+																																pos: position{line: 691, col: 28, offset: 22224},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 691, col: 28, offset: 22222},
+																																		pos: position{line: 691, col: 28, offset: 22224},
 																																		run: (*parser).callonImageBlock100,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 691, col: 28, offset: 22222},
+																																			pos:        position{line: 691, col: 28, offset: 22224},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20883,12 +20883,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 693, col: 9, offset: 22276},
+																																		pos: position{line: 693, col: 9, offset: 22278},
 																																		run: (*parser).callonImageBlock102,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 693, col: 9, offset: 22276},
+																																			pos: position{line: 693, col: 9, offset: 22278},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 693, col: 9, offset: 22276},
+																																				pos:        position{line: 693, col: 9, offset: 22278},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20905,7 +20905,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 687, col: 79, offset: 22102},
+																										pos:        position{line: 687, col: 79, offset: 22104},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20920,27 +20920,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1223, col: 23, offset: 38060},
+																	pos: position{line: 1223, col: 23, offset: 38062},
 																	run: (*parser).callonImageBlock106,
 																	expr: &seqExpr{
-																		pos: position{line: 1223, col: 23, offset: 38060},
+																		pos: position{line: 1223, col: 23, offset: 38062},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1221, col: 32, offset: 38028},
+																				pos:        position{line: 1221, col: 32, offset: 38030},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1223, col: 51, offset: 38088},
+																				pos:   position{line: 1223, col: 51, offset: 38090},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1223, col: 56, offset: 38093},
+																					pos: position{line: 1223, col: 56, offset: 38095},
 																					run: (*parser).callonImageBlock110,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1223, col: 56, offset: 38093},
+																						pos: position{line: 1223, col: 56, offset: 38095},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1223, col: 56, offset: 38093},
+																							pos:        position{line: 1223, col: 56, offset: 38095},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20950,23 +20950,23 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1221, col: 32, offset: 38028},
+																				pos:        position{line: 1221, col: 32, offset: 38030},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1223, col: 123, offset: 38160},
+																				pos: position{line: 1223, col: 123, offset: 38162},
 																				run: (*parser).callonImageBlock114,
 																			},
 																		},
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2923, col: 11, offset: 92695},
+																	pos: position{line: 2923, col: 11, offset: 92697},
 																	run: (*parser).callonImageBlock115,
 																	expr: &litMatcher{
-																		pos:        position{line: 2923, col: 11, offset: 92695},
+																		pos:        position{line: 2923, col: 11, offset: 92697},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20983,20 +20983,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1337, col: 31, offset: 42118},
+							pos:   position{line: 1337, col: 31, offset: 42120},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1337, col: 43, offset: 42130},
+								pos:  position{line: 1337, col: 43, offset: 42132},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1337, col: 61, offset: 42148},
+							pos: position{line: 1337, col: 61, offset: 42150},
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 10, offset: 93180},
+								pos: position{line: 2944, col: 10, offset: 93182},
 								run: (*parser).callonImageBlock120,
 								expr: &charClassMatcher{
-									pos:        position{line: 2944, col: 10, offset: 93180},
+									pos:        position{line: 2944, col: 10, offset: 93182},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -21005,28 +21005,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2966, col: 8, offset: 93578},
+							pos: position{line: 2966, col: 8, offset: 93580},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2953, col: 12, offset: 93351},
+									pos: position{line: 2953, col: 12, offset: 93353},
 									run: (*parser).callonImageBlock123,
 									expr: &choiceExpr{
-										pos: position{line: 2953, col: 13, offset: 93352},
+										pos: position{line: 2953, col: 13, offset: 93354},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2953, col: 13, offset: 93352},
+												pos:        position{line: 2953, col: 13, offset: 93354},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 20, offset: 93359},
+												pos:        position{line: 2953, col: 20, offset: 93361},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 29, offset: 93368},
+												pos:        position{line: 2953, col: 29, offset: 93370},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -21035,9 +21035,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2963, col: 8, offset: 93528},
+									pos: position{line: 2963, col: 8, offset: 93530},
 									expr: &anyMatcher{
-										line: 2963, col: 9, offset: 93529,
+										line: 2963, col: 9, offset: 93531,
 									},
 								},
 							},
@@ -21048,74 +21048,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1342, col: 1, offset: 42365},
+			pos:  position{line: 1342, col: 1, offset: 42367},
 			expr: &actionExpr{
-				pos: position{line: 1342, col: 16, offset: 42380},
+				pos: position{line: 1342, col: 16, offset: 42382},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1342, col: 16, offset: 42380},
+					pos: position{line: 1342, col: 16, offset: 42382},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1342, col: 16, offset: 42380},
+							pos:        position{line: 1342, col: 16, offset: 42382},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1342, col: 25, offset: 42389},
+							pos: position{line: 1342, col: 25, offset: 42391},
 							expr: &litMatcher{
-								pos:        position{line: 1342, col: 26, offset: 42390},
+								pos:        position{line: 1342, col: 26, offset: 42392},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1342, col: 30, offset: 42394},
+							pos:   position{line: 1342, col: 30, offset: 42396},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 13, offset: 91939},
+								pos: position{line: 2902, col: 13, offset: 91941},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2902, col: 13, offset: 91939},
+									pos: position{line: 2902, col: 13, offset: 91941},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2902, col: 13, offset: 91939},
+											pos:   position{line: 2902, col: 13, offset: 91941},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2902, col: 20, offset: 91946},
+												pos: position{line: 2902, col: 20, offset: 91948},
 												expr: &actionExpr{
-													pos: position{line: 2910, col: 11, offset: 92185},
+													pos: position{line: 2910, col: 11, offset: 92187},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2910, col: 12, offset: 92186},
+														pos: position{line: 2910, col: 12, offset: 92188},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2910, col: 12, offset: 92186},
+																pos:        position{line: 2910, col: 12, offset: 92188},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2910, col: 24, offset: 92198},
+																pos:        position{line: 2910, col: 24, offset: 92200},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2910, col: 37, offset: 92211},
+																pos:        position{line: 2910, col: 37, offset: 92213},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2910, col: 48, offset: 92222},
+																pos:        position{line: 2910, col: 48, offset: 92224},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2910, col: 59, offset: 92233},
+																pos:        position{line: 2910, col: 59, offset: 92235},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -21126,38 +21126,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2902, col: 30, offset: 91956},
+											pos:   position{line: 2902, col: 30, offset: 91958},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2915, col: 5, offset: 92297},
+												pos: position{line: 2915, col: 5, offset: 92299},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2915, col: 5, offset: 92297},
+													pos:   position{line: 2915, col: 5, offset: 92299},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2915, col: 14, offset: 92306},
+														pos: position{line: 2915, col: 14, offset: 92308},
 														expr: &choiceExpr{
-															pos: position{line: 2916, col: 9, offset: 92316},
+															pos: position{line: 2916, col: 9, offset: 92318},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2916, col: 9, offset: 92316},
+																	pos: position{line: 2916, col: 9, offset: 92318},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2916, col: 9, offset: 92316},
+																		pos: position{line: 2916, col: 9, offset: 92318},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2916, col: 9, offset: 92316},
+																				pos: position{line: 2916, col: 9, offset: 92318},
 																				expr: &litMatcher{
-																					pos:        position{line: 2916, col: 10, offset: 92317},
+																					pos:        position{line: 2916, col: 10, offset: 92319},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2917, col: 9, offset: 92345},
+																				pos: position{line: 2917, col: 9, offset: 92347},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2917, col: 10, offset: 92346},
+																					pos:        position{line: 2917, col: 10, offset: 92348},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -21168,27 +21168,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2920, col: 11, offset: 92558},
+																	pos: position{line: 2920, col: 11, offset: 92560},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2920, col: 11, offset: 92558},
+																			pos:        position{line: 2920, col: 11, offset: 92560},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2920, col: 19, offset: 92566},
+																			pos: position{line: 2920, col: 19, offset: 92568},
 																			expr: &seqExpr{
-																				pos: position{line: 2920, col: 21, offset: 92568},
+																				pos: position{line: 2920, col: 21, offset: 92570},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2920, col: 21, offset: 92568},
+																						pos: position{line: 2920, col: 21, offset: 92570},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93180},
+																							pos: position{line: 2944, col: 10, offset: 93182},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93180},
+																								pos:        position{line: 2944, col: 10, offset: 93182},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -21197,11 +21197,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2920, col: 28, offset: 92575},
+																						pos: position{line: 2920, col: 28, offset: 92577},
 																						expr: &notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93528},
+																							pos: position{line: 2963, col: 8, offset: 93530},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93529,
+																								line: 2963, col: 9, offset: 93531,
 																							},
 																						},
 																					},
@@ -21211,35 +21211,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 661, col: 5, offset: 21195},
+																	pos: position{line: 661, col: 5, offset: 21197},
 																	run: (*parser).callonInlineImage39,
 																	expr: &seqExpr{
-																		pos: position{line: 661, col: 5, offset: 21195},
+																		pos: position{line: 661, col: 5, offset: 21197},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 661, col: 5, offset: 21195},
+																				pos: position{line: 661, col: 5, offset: 21197},
 																				run: (*parser).callonInlineImage41,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 664, col: 5, offset: 21267},
+																				pos:   position{line: 664, col: 5, offset: 21269},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 664, col: 14, offset: 21276},
+																					pos: position{line: 664, col: 14, offset: 21278},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 670, col: 5, offset: 21405},
+																							pos: position{line: 670, col: 5, offset: 21407},
 																							run: (*parser).callonInlineImage44,
 																							expr: &seqExpr{
-																								pos: position{line: 670, col: 5, offset: 21405},
+																								pos: position{line: 670, col: 5, offset: 21407},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 670, col: 5, offset: 21405},
+																										pos:        position{line: 670, col: 5, offset: 21407},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 670, col: 13, offset: 21413},
+																										pos:   position{line: 670, col: 13, offset: 21415},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -21271,7 +21271,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 670, col: 32, offset: 21432},
+																										pos:        position{line: 670, col: 32, offset: 21434},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -21280,19 +21280,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 677, col: 5, offset: 21673},
+																							pos: position{line: 677, col: 5, offset: 21675},
 																							run: (*parser).callonInlineImage54,
 																							expr: &seqExpr{
-																								pos: position{line: 677, col: 5, offset: 21673},
+																								pos: position{line: 677, col: 5, offset: 21675},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 677, col: 5, offset: 21673},
+																										pos:        position{line: 677, col: 5, offset: 21675},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 677, col: 9, offset: 21677},
+																										pos:   position{line: 677, col: 9, offset: 21679},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -21324,7 +21324,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 677, col: 28, offset: 21696},
+																										pos:        position{line: 677, col: 28, offset: 21698},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -21333,19 +21333,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 683, col: 25, offset: 21877},
+																							pos: position{line: 683, col: 25, offset: 21879},
 																							run: (*parser).callonInlineImage64,
 																							expr: &seqExpr{
-																								pos: position{line: 683, col: 25, offset: 21877},
+																								pos: position{line: 683, col: 25, offset: 21879},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 683, col: 25, offset: 21877},
+																										pos:        position{line: 683, col: 25, offset: 21879},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 683, col: 37, offset: 21889},
+																										pos:   position{line: 683, col: 37, offset: 21891},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -21377,33 +21377,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 683, col: 56, offset: 21908},
+																										pos:   position{line: 683, col: 56, offset: 21910},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 683, col: 62, offset: 21914},
+																											pos: position{line: 683, col: 62, offset: 21916},
 																											expr: &actionExpr{
-																												pos: position{line: 691, col: 17, offset: 22211},
+																												pos: position{line: 691, col: 17, offset: 22213},
 																												run: (*parser).callonInlineImage75,
 																												expr: &seqExpr{
-																													pos: position{line: 691, col: 17, offset: 22211},
+																													pos: position{line: 691, col: 17, offset: 22213},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 691, col: 17, offset: 22211},
+																															pos:        position{line: 691, col: 17, offset: 22213},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 691, col: 21, offset: 22215},
+																															pos:   position{line: 691, col: 21, offset: 22217},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 691, col: 28, offset: 22222},
+																																pos: position{line: 691, col: 28, offset: 22224},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 691, col: 28, offset: 22222},
+																																		pos: position{line: 691, col: 28, offset: 22224},
 																																		run: (*parser).callonInlineImage80,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 691, col: 28, offset: 22222},
+																																			pos:        position{line: 691, col: 28, offset: 22224},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -21411,12 +21411,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 693, col: 9, offset: 22276},
+																																		pos: position{line: 693, col: 9, offset: 22278},
 																																		run: (*parser).callonInlineImage82,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 693, col: 9, offset: 22276},
+																																			pos: position{line: 693, col: 9, offset: 22278},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 693, col: 9, offset: 22276},
+																																				pos:        position{line: 693, col: 9, offset: 22278},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -21433,7 +21433,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 683, col: 78, offset: 21930},
+																										pos:        position{line: 683, col: 78, offset: 21932},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -21442,19 +21442,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 687, col: 25, offset: 22048},
+																							pos: position{line: 687, col: 25, offset: 22050},
 																							run: (*parser).callonInlineImage86,
 																							expr: &seqExpr{
-																								pos: position{line: 687, col: 25, offset: 22048},
+																								pos: position{line: 687, col: 25, offset: 22050},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 687, col: 25, offset: 22048},
+																										pos:        position{line: 687, col: 25, offset: 22050},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 687, col: 38, offset: 22061},
+																										pos:   position{line: 687, col: 38, offset: 22063},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 320, col: 18, offset: 9837},
@@ -21486,33 +21486,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 687, col: 57, offset: 22080},
+																										pos:   position{line: 687, col: 57, offset: 22082},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 687, col: 63, offset: 22086},
+																											pos: position{line: 687, col: 63, offset: 22088},
 																											expr: &actionExpr{
-																												pos: position{line: 691, col: 17, offset: 22211},
+																												pos: position{line: 691, col: 17, offset: 22213},
 																												run: (*parser).callonInlineImage97,
 																												expr: &seqExpr{
-																													pos: position{line: 691, col: 17, offset: 22211},
+																													pos: position{line: 691, col: 17, offset: 22213},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 691, col: 17, offset: 22211},
+																															pos:        position{line: 691, col: 17, offset: 22213},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 691, col: 21, offset: 22215},
+																															pos:   position{line: 691, col: 21, offset: 22217},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 691, col: 28, offset: 22222},
+																																pos: position{line: 691, col: 28, offset: 22224},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 691, col: 28, offset: 22222},
+																																		pos: position{line: 691, col: 28, offset: 22224},
 																																		run: (*parser).callonInlineImage102,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 691, col: 28, offset: 22222},
+																																			pos:        position{line: 691, col: 28, offset: 22224},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -21520,12 +21520,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 693, col: 9, offset: 22276},
+																																		pos: position{line: 693, col: 9, offset: 22278},
 																																		run: (*parser).callonInlineImage104,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 693, col: 9, offset: 22276},
+																																			pos: position{line: 693, col: 9, offset: 22278},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 693, col: 9, offset: 22276},
+																																				pos:        position{line: 693, col: 9, offset: 22278},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -21542,7 +21542,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 687, col: 79, offset: 22102},
+																										pos:        position{line: 687, col: 79, offset: 22104},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -21557,27 +21557,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1223, col: 23, offset: 38060},
+																	pos: position{line: 1223, col: 23, offset: 38062},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1223, col: 23, offset: 38060},
+																		pos: position{line: 1223, col: 23, offset: 38062},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1221, col: 32, offset: 38028},
+																				pos:        position{line: 1221, col: 32, offset: 38030},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1223, col: 51, offset: 38088},
+																				pos:   position{line: 1223, col: 51, offset: 38090},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1223, col: 56, offset: 38093},
+																					pos: position{line: 1223, col: 56, offset: 38095},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1223, col: 56, offset: 38093},
+																						pos: position{line: 1223, col: 56, offset: 38095},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1223, col: 56, offset: 38093},
+																							pos:        position{line: 1223, col: 56, offset: 38095},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -21587,23 +21587,23 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1221, col: 32, offset: 38028},
+																				pos:        position{line: 1221, col: 32, offset: 38030},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1223, col: 123, offset: 38160},
+																				pos: position{line: 1223, col: 123, offset: 38162},
 																				run: (*parser).callonInlineImage116,
 																			},
 																		},
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2923, col: 11, offset: 92695},
+																	pos: position{line: 2923, col: 11, offset: 92697},
 																	run: (*parser).callonInlineImage117,
 																	expr: &litMatcher{
-																		pos:        position{line: 2923, col: 11, offset: 92695},
+																		pos:        position{line: 2923, col: 11, offset: 92697},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21620,10 +21620,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1342, col: 46, offset: 42410},
+							pos:   position{line: 1342, col: 46, offset: 42412},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1342, col: 58, offset: 42422},
+								pos:  position{line: 1342, col: 58, offset: 42424},
 								name: "InlineAttributes",
 							},
 						},
@@ -21633,29 +21633,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1349, col: 1, offset: 42818},
+			pos:  position{line: 1349, col: 1, offset: 42820},
 			expr: &actionExpr{
-				pos: position{line: 1349, col: 15, offset: 42832},
+				pos: position{line: 1349, col: 15, offset: 42834},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1349, col: 15, offset: 42832},
+					pos: position{line: 1349, col: 15, offset: 42834},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1349, col: 15, offset: 42832},
+							pos:        position{line: 1349, col: 15, offset: 42834},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1349, col: 23, offset: 42840},
+							pos:   position{line: 1349, col: 23, offset: 42842},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1349, col: 29, offset: 42846},
+								pos: position{line: 1349, col: 29, offset: 42848},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1349, col: 29, offset: 42846},
+									pos: position{line: 1349, col: 29, offset: 42848},
 									expr: &charClassMatcher{
-										pos:        position{line: 1349, col: 29, offset: 42846},
+										pos:        position{line: 1349, col: 29, offset: 42848},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21666,10 +21666,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1349, col: 73, offset: 42890},
+							pos:   position{line: 1349, col: 73, offset: 42892},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1349, col: 85, offset: 42902},
+								pos:  position{line: 1349, col: 85, offset: 42904},
 								name: "InlineAttributes",
 							},
 						},
@@ -21679,31 +21679,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1356, col: 1, offset: 43268},
+			pos:  position{line: 1356, col: 1, offset: 43270},
 			expr: &actionExpr{
-				pos: position{line: 1356, col: 19, offset: 43286},
+				pos: position{line: 1356, col: 19, offset: 43288},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1356, col: 19, offset: 43286},
+					pos: position{line: 1356, col: 19, offset: 43288},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1356, col: 19, offset: 43286},
+							pos:        position{line: 1356, col: 19, offset: 43288},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1356, col: 31, offset: 43298},
+							pos:   position{line: 1356, col: 31, offset: 43300},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1356, col: 35, offset: 43302},
+								pos: position{line: 1356, col: 35, offset: 43304},
 								expr: &actionExpr{
-									pos: position{line: 2838, col: 14, offset: 90349},
+									pos: position{line: 2838, col: 14, offset: 90351},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2838, col: 14, offset: 90349},
+										pos: position{line: 2838, col: 14, offset: 90351},
 										expr: &charClassMatcher{
-											pos:        position{line: 2838, col: 14, offset: 90349},
+											pos:        position{line: 2838, col: 14, offset: 90351},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -21714,21 +21714,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1356, col: 50, offset: 43317},
+							pos:        position{line: 1356, col: 50, offset: 43319},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1356, col: 54, offset: 43321},
+							pos:   position{line: 1356, col: 54, offset: 43323},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1356, col: 64, offset: 43331},
+								pos:  position{line: 1356, col: 64, offset: 43333},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1356, col: 82, offset: 43349},
+							pos:        position{line: 1356, col: 82, offset: 43351},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -21739,24 +21739,24 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1362, col: 1, offset: 43506},
+			pos:  position{line: 1362, col: 1, offset: 43508},
 			expr: &actionExpr{
-				pos: position{line: 1363, col: 5, offset: 43531},
+				pos: position{line: 1363, col: 5, offset: 43533},
 				run: (*parser).callonFootnoteElements1,
 				expr: &seqExpr{
-					pos: position{line: 1363, col: 5, offset: 43531},
+					pos: position{line: 1363, col: 5, offset: 43533},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1363, col: 5, offset: 43531},
+							pos: position{line: 1363, col: 5, offset: 43533},
 							run: (*parser).callonFootnoteElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1367, col: 5, offset: 43642},
+							pos:   position{line: 1367, col: 5, offset: 43644},
 							label: "elements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1367, col: 14, offset: 43651},
+								pos: position{line: 1367, col: 14, offset: 43653},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1367, col: 15, offset: 43652},
+									pos:  position{line: 1367, col: 15, offset: 43654},
 									name: "FootnoteElement",
 								},
 							},
@@ -21767,44 +21767,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1371, col: 1, offset: 43744},
+			pos:  position{line: 1371, col: 1, offset: 43746},
 			expr: &actionExpr{
-				pos: position{line: 1372, col: 5, offset: 43768},
+				pos: position{line: 1372, col: 5, offset: 43770},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1372, col: 5, offset: 43768},
+					pos: position{line: 1372, col: 5, offset: 43770},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1372, col: 5, offset: 43768},
+							pos: position{line: 1372, col: 5, offset: 43770},
 							expr: &litMatcher{
-								pos:        position{line: 1372, col: 6, offset: 43769},
+								pos:        position{line: 1372, col: 6, offset: 43771},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1373, col: 5, offset: 43778},
+							pos:   position{line: 1373, col: 5, offset: 43780},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1374, col: 9, offset: 43796},
+								pos: position{line: 1374, col: 9, offset: 43798},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2843, col: 5, offset: 90422},
+										pos: position{line: 2843, col: 5, offset: 90424},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2843, col: 5, offset: 90422},
+											pos: position{line: 2843, col: 5, offset: 90424},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2843, col: 5, offset: 90422},
+													pos:   position{line: 2843, col: 5, offset: 90424},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2843, col: 11, offset: 90428},
+														pos: position{line: 2843, col: 11, offset: 90430},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2843, col: 11, offset: 90428},
+															pos: position{line: 2843, col: 11, offset: 90430},
 															expr: &charClassMatcher{
-																pos:        position{line: 2843, col: 11, offset: 90428},
+																pos:        position{line: 2843, col: 11, offset: 90430},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21814,36 +21814,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2846, col: 5, offset: 90486},
+													pos: position{line: 2846, col: 5, offset: 90488},
 													expr: &seqExpr{
-														pos: position{line: 2847, col: 9, offset: 90497},
+														pos: position{line: 2847, col: 9, offset: 90499},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2847, col: 9, offset: 90497},
+																pos:        position{line: 2847, col: 9, offset: 90499},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2848, col: 9, offset: 90546},
+																pos: position{line: 2848, col: 9, offset: 90548},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2852, col: 5, offset: 90626},
+													pos: position{line: 2852, col: 5, offset: 90628},
 													expr: &seqExpr{
-														pos: position{line: 2853, col: 9, offset: 90637},
+														pos: position{line: 2853, col: 9, offset: 90639},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2853, col: 9, offset: 90637},
+																pos:        position{line: 2853, col: 9, offset: 90639},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2853, col: 13, offset: 90641},
+																pos:        position{line: 2853, col: 13, offset: 90643},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21856,12 +21856,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2948, col: 11, offset: 93241},
+										pos: position{line: 2948, col: 11, offset: 93243},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2948, col: 11, offset: 93241},
+											pos: position{line: 2948, col: 11, offset: 93243},
 											expr: &charClassMatcher{
-												pos:        position{line: 2948, col: 11, offset: 93241},
+												pos:        position{line: 2948, col: 11, offset: 93243},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21870,21 +21870,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2556, col: 5, offset: 82485},
+										pos: position{line: 2556, col: 5, offset: 82487},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2556, col: 5, offset: 82485},
+											pos: position{line: 2556, col: 5, offset: 82487},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2556, col: 5, offset: 82485},
+													pos:        position{line: 2556, col: 5, offset: 82487},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2556, col: 10, offset: 82490},
+													pos: position{line: 2556, col: 10, offset: 82492},
 													expr: &charClassMatcher{
-														pos:        position{line: 2556, col: 11, offset: 82491},
+														pos:        position{line: 2556, col: 11, offset: 82493},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21895,29 +21895,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2562, col: 5, offset: 82683},
+										pos: position{line: 2562, col: 5, offset: 82685},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2562, col: 5, offset: 82683},
+											pos: position{line: 2562, col: 5, offset: 82685},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2562, col: 5, offset: 82683},
+													pos: position{line: 2562, col: 5, offset: 82685},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2565, col: 5, offset: 82754},
+													pos: position{line: 2565, col: 5, offset: 82756},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2569, col: 5, offset: 82879},
+													pos:        position{line: 2569, col: 5, offset: 82881},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2569, col: 9, offset: 82883},
+													pos: position{line: 2569, col: 9, offset: 82885},
 													expr: &charClassMatcher{
-														pos:        position{line: 2569, col: 10, offset: 82884},
+														pos:        position{line: 2569, col: 10, offset: 82886},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21928,35 +21928,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1377, col: 11, offset: 43863},
+										pos:  position{line: 1377, col: 11, offset: 43865},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1378, col: 11, offset: 43879},
+										pos:  position{line: 1378, col: 11, offset: 43881},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 5, offset: 90834},
+										pos: position{line: 2861, col: 5, offset: 90836},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2862, col: 9, offset: 90844},
+											pos: position{line: 2862, col: 9, offset: 90846},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2862, col: 10, offset: 90845},
+													pos:        position{line: 2862, col: 10, offset: 90847},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2864, col: 13, offset: 90942},
+													pos: position{line: 2864, col: 13, offset: 90944},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2864, col: 13, offset: 90942},
+															pos: position{line: 2864, col: 13, offset: 90944},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2867, col: 13, offset: 91042},
+															pos:        position{line: 2867, col: 13, offset: 91044},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21964,20 +21964,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2867, col: 19, offset: 91048},
+													pos:        position{line: 2867, col: 19, offset: 91050},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2870, col: 13, offset: 91086},
+													pos: position{line: 2870, col: 13, offset: 91088},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2870, col: 13, offset: 91086},
+															pos: position{line: 2870, col: 13, offset: 91088},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2873, col: 14, offset: 91179},
+															pos:        position{line: 2873, col: 14, offset: 91181},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21986,18 +21986,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2875, col: 12, offset: 91223},
+													pos: position{line: 2875, col: 12, offset: 91225},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2875, col: 12, offset: 91223},
+															pos:        position{line: 2875, col: 12, offset: 91225},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2875, col: 16, offset: 91227},
+															pos: position{line: 2875, col: 16, offset: 91229},
 															expr: &litMatcher{
-																pos:        position{line: 2875, col: 17, offset: 91228},
+																pos:        position{line: 2875, col: 17, offset: 91230},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -22009,36 +22009,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1380, col: 11, offset: 43952},
+										pos:  position{line: 1380, col: 11, offset: 43954},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1231, col: 5, offset: 38553},
+										pos: position{line: 1231, col: 5, offset: 38555},
 										run: (*parser).callonFootnoteElement53,
 										expr: &seqExpr{
-											pos: position{line: 1231, col: 5, offset: 38553},
+											pos: position{line: 1231, col: 5, offset: 38555},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1231, col: 5, offset: 38553},
+													pos: position{line: 1231, col: 5, offset: 38555},
 													run: (*parser).callonFootnoteElement55,
 												},
 												&litMatcher{
-													pos:        position{line: 1234, col: 5, offset: 38629},
+													pos:        position{line: 1234, col: 5, offset: 38631},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1235, col: 5, offset: 38637},
+													pos: position{line: 1235, col: 5, offset: 38639},
 													run: (*parser).callonFootnoteElement57,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1239, col: 5, offset: 38724},
+													pos: position{line: 1239, col: 5, offset: 38726},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93180},
+														pos: position{line: 2944, col: 10, offset: 93182},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93180},
+															pos:        position{line: 2944, col: 10, offset: 93182},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -22047,30 +22047,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1239, col: 12, offset: 38731},
+													pos: position{line: 1239, col: 12, offset: 38733},
 													expr: &choiceExpr{
-														pos: position{line: 2966, col: 8, offset: 93578},
+														pos: position{line: 2966, col: 8, offset: 93580},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93351},
+																pos: position{line: 2953, col: 12, offset: 93353},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93352},
+																	pos: position{line: 2953, col: 13, offset: 93354},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93352},
+																			pos:        position{line: 2953, col: 13, offset: 93354},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93359},
+																			pos:        position{line: 2953, col: 20, offset: 93361},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93368},
+																			pos:        position{line: 2953, col: 29, offset: 93370},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -22079,9 +22079,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93528},
+																pos: position{line: 2963, col: 8, offset: 93530},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93529,
+																	line: 2963, col: 9, offset: 93531,
 																},
 															},
 														},
@@ -22091,35 +22091,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 661, col: 5, offset: 21195},
+										pos: position{line: 661, col: 5, offset: 21197},
 										run: (*parser).callonFootnoteElement70,
 										expr: &seqExpr{
-											pos: position{line: 661, col: 5, offset: 21195},
+											pos: position{line: 661, col: 5, offset: 21197},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 661, col: 5, offset: 21195},
+													pos: position{line: 661, col: 5, offset: 21197},
 													run: (*parser).callonFootnoteElement72,
 												},
 												&labeledExpr{
-													pos:   position{line: 664, col: 5, offset: 21267},
+													pos:   position{line: 664, col: 5, offset: 21269},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 664, col: 14, offset: 21276},
+														pos: position{line: 664, col: 14, offset: 21278},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 670, col: 5, offset: 21405},
+																pos: position{line: 670, col: 5, offset: 21407},
 																run: (*parser).callonFootnoteElement75,
 																expr: &seqExpr{
-																	pos: position{line: 670, col: 5, offset: 21405},
+																	pos: position{line: 670, col: 5, offset: 21407},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 670, col: 5, offset: 21405},
+																			pos:        position{line: 670, col: 5, offset: 21407},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 670, col: 13, offset: 21413},
+																			pos:   position{line: 670, col: 13, offset: 21415},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -22151,7 +22151,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 670, col: 32, offset: 21432},
+																			pos:        position{line: 670, col: 32, offset: 21434},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -22160,19 +22160,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 677, col: 5, offset: 21673},
+																pos: position{line: 677, col: 5, offset: 21675},
 																run: (*parser).callonFootnoteElement85,
 																expr: &seqExpr{
-																	pos: position{line: 677, col: 5, offset: 21673},
+																	pos: position{line: 677, col: 5, offset: 21675},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 677, col: 5, offset: 21673},
+																			pos:        position{line: 677, col: 5, offset: 21675},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 677, col: 9, offset: 21677},
+																			pos:   position{line: 677, col: 9, offset: 21679},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -22204,7 +22204,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 677, col: 28, offset: 21696},
+																			pos:        position{line: 677, col: 28, offset: 21698},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -22213,19 +22213,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 683, col: 25, offset: 21877},
+																pos: position{line: 683, col: 25, offset: 21879},
 																run: (*parser).callonFootnoteElement95,
 																expr: &seqExpr{
-																	pos: position{line: 683, col: 25, offset: 21877},
+																	pos: position{line: 683, col: 25, offset: 21879},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 683, col: 25, offset: 21877},
+																			pos:        position{line: 683, col: 25, offset: 21879},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 683, col: 37, offset: 21889},
+																			pos:   position{line: 683, col: 37, offset: 21891},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -22257,33 +22257,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 683, col: 56, offset: 21908},
+																			pos:   position{line: 683, col: 56, offset: 21910},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 683, col: 62, offset: 21914},
+																				pos: position{line: 683, col: 62, offset: 21916},
 																				expr: &actionExpr{
-																					pos: position{line: 691, col: 17, offset: 22211},
+																					pos: position{line: 691, col: 17, offset: 22213},
 																					run: (*parser).callonFootnoteElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 691, col: 17, offset: 22211},
+																						pos: position{line: 691, col: 17, offset: 22213},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 691, col: 17, offset: 22211},
+																								pos:        position{line: 691, col: 17, offset: 22213},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 691, col: 21, offset: 22215},
+																								pos:   position{line: 691, col: 21, offset: 22217},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 691, col: 28, offset: 22222},
+																									pos: position{line: 691, col: 28, offset: 22224},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 691, col: 28, offset: 22222},
+																											pos: position{line: 691, col: 28, offset: 22224},
 																											run: (*parser).callonFootnoteElement111,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 691, col: 28, offset: 22222},
+																												pos:        position{line: 691, col: 28, offset: 22224},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -22291,12 +22291,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 693, col: 9, offset: 22276},
+																											pos: position{line: 693, col: 9, offset: 22278},
 																											run: (*parser).callonFootnoteElement113,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 693, col: 9, offset: 22276},
+																												pos: position{line: 693, col: 9, offset: 22278},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 693, col: 9, offset: 22276},
+																													pos:        position{line: 693, col: 9, offset: 22278},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -22313,7 +22313,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 683, col: 78, offset: 21930},
+																			pos:        position{line: 683, col: 78, offset: 21932},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -22322,19 +22322,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 687, col: 25, offset: 22048},
+																pos: position{line: 687, col: 25, offset: 22050},
 																run: (*parser).callonFootnoteElement117,
 																expr: &seqExpr{
-																	pos: position{line: 687, col: 25, offset: 22048},
+																	pos: position{line: 687, col: 25, offset: 22050},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 687, col: 25, offset: 22048},
+																			pos:        position{line: 687, col: 25, offset: 22050},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 687, col: 38, offset: 22061},
+																			pos:   position{line: 687, col: 38, offset: 22063},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -22366,33 +22366,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 687, col: 57, offset: 22080},
+																			pos:   position{line: 687, col: 57, offset: 22082},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 687, col: 63, offset: 22086},
+																				pos: position{line: 687, col: 63, offset: 22088},
 																				expr: &actionExpr{
-																					pos: position{line: 691, col: 17, offset: 22211},
+																					pos: position{line: 691, col: 17, offset: 22213},
 																					run: (*parser).callonFootnoteElement128,
 																					expr: &seqExpr{
-																						pos: position{line: 691, col: 17, offset: 22211},
+																						pos: position{line: 691, col: 17, offset: 22213},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 691, col: 17, offset: 22211},
+																								pos:        position{line: 691, col: 17, offset: 22213},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 691, col: 21, offset: 22215},
+																								pos:   position{line: 691, col: 21, offset: 22217},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 691, col: 28, offset: 22222},
+																									pos: position{line: 691, col: 28, offset: 22224},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 691, col: 28, offset: 22222},
+																											pos: position{line: 691, col: 28, offset: 22224},
 																											run: (*parser).callonFootnoteElement133,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 691, col: 28, offset: 22222},
+																												pos:        position{line: 691, col: 28, offset: 22224},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -22400,12 +22400,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 693, col: 9, offset: 22276},
+																											pos: position{line: 693, col: 9, offset: 22278},
 																											run: (*parser).callonFootnoteElement135,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 693, col: 9, offset: 22276},
+																												pos: position{line: 693, col: 9, offset: 22278},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 693, col: 9, offset: 22276},
+																													pos:        position{line: 693, col: 9, offset: 22278},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -22422,7 +22422,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 687, col: 79, offset: 22102},
+																			pos:        position{line: 687, col: 79, offset: 22104},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -22437,23 +22437,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2525, col: 5, offset: 81286},
+										pos: position{line: 2525, col: 5, offset: 81288},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 5, offset: 81286},
+											pos: position{line: 2525, col: 5, offset: 81288},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2525, col: 5, offset: 81286},
+													pos: position{line: 2525, col: 5, offset: 81288},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2528, col: 5, offset: 81362},
+													pos:   position{line: 2528, col: 5, offset: 81364},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2529, col: 9, offset: 81380},
+														pos: position{line: 2529, col: 9, offset: 81382},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2529, col: 10, offset: 81381},
+															pos:        position{line: 2529, col: 10, offset: 81383},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -22465,25 +22465,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2953, col: 12, offset: 93351},
+										pos: position{line: 2953, col: 12, offset: 93353},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2953, col: 13, offset: 93352},
+											pos: position{line: 2953, col: 13, offset: 93354},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2953, col: 13, offset: 93352},
+													pos:        position{line: 2953, col: 13, offset: 93354},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2953, col: 20, offset: 93359},
+													pos:        position{line: 2953, col: 20, offset: 93361},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2953, col: 29, offset: 93368},
+													pos:        position{line: 2953, col: 29, offset: 93370},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -22492,10 +22492,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2883, col: 12, offset: 91488},
+										pos: position{line: 2883, col: 12, offset: 91490},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2883, col: 12, offset: 91488},
+											pos:        position{line: 2883, col: 12, offset: 91490},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -22511,32 +22511,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1419, col: 1, offset: 45787},
+			pos:  position{line: 1419, col: 1, offset: 45789},
 			expr: &choiceExpr{
-				pos: position{line: 1419, col: 21, offset: 45807},
+				pos: position{line: 1419, col: 21, offset: 45809},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1419, col: 21, offset: 45807},
+						pos: position{line: 1419, col: 21, offset: 45809},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1419, col: 21, offset: 45807},
+							pos: position{line: 1419, col: 21, offset: 45809},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1419, col: 21, offset: 45807},
+									pos:        position{line: 1419, col: 21, offset: 45809},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1419, col: 30, offset: 45816},
+									pos:   position{line: 1419, col: 30, offset: 45818},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1419, col: 38, offset: 45824},
+										pos: position{line: 1419, col: 38, offset: 45826},
 										expr: &actionExpr{
-											pos: position{line: 1425, col: 30, offset: 46150},
+											pos: position{line: 1425, col: 30, offset: 46152},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1425, col: 30, offset: 46150},
+												pos:        position{line: 1425, col: 30, offset: 46152},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -22546,7 +22546,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1419, col: 67, offset: 45853},
+									pos:        position{line: 1419, col: 67, offset: 45855},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -22555,34 +22555,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1421, col: 9, offset: 45957},
+						pos: position{line: 1421, col: 9, offset: 45959},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1421, col: 9, offset: 45957},
+							pos: position{line: 1421, col: 9, offset: 45959},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1421, col: 9, offset: 45957},
+									pos:        position{line: 1421, col: 9, offset: 45959},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1421, col: 19, offset: 45967},
+									pos:   position{line: 1421, col: 19, offset: 45969},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1421, col: 27, offset: 45975},
+										pos: position{line: 1421, col: 27, offset: 45977},
 										expr: &choiceExpr{
-											pos: position{line: 1421, col: 28, offset: 45976},
+											pos: position{line: 1421, col: 28, offset: 45978},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1421, col: 28, offset: 45976},
+													pos:  position{line: 1421, col: 28, offset: 45978},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1425, col: 30, offset: 46150},
+													pos: position{line: 1425, col: 30, offset: 46152},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1425, col: 30, offset: 46150},
+														pos:        position{line: 1425, col: 30, offset: 46152},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -22594,7 +22594,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1421, col: 69, offset: 46017},
+									pos:        position{line: 1421, col: 69, offset: 46019},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -22607,75 +22607,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1432, col: 1, offset: 46406},
+			pos:  position{line: 1432, col: 1, offset: 46408},
 			expr: &choiceExpr{
-				pos: position{line: 1432, col: 9, offset: 46414},
+				pos: position{line: 1432, col: 9, offset: 46416},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1435, col: 5, offset: 46483},
+						pos: position{line: 1435, col: 5, offset: 46485},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1435, col: 5, offset: 46483},
+							pos: position{line: 1435, col: 5, offset: 46485},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1435, col: 5, offset: 46483},
+									pos:        position{line: 1435, col: 5, offset: 46485},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1436, col: 5, offset: 46492},
+									pos:   position{line: 1436, col: 5, offset: 46494},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2906, col: 23, offset: 92066},
+										pos: position{line: 2906, col: 23, offset: 92068},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2906, col: 23, offset: 92066},
+											pos: position{line: 2906, col: 23, offset: 92068},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2906, col: 23, offset: 92066},
+													pos: position{line: 2906, col: 23, offset: 92068},
 													expr: &litMatcher{
-														pos:        position{line: 2906, col: 24, offset: 92067},
+														pos:        position{line: 2906, col: 24, offset: 92069},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2906, col: 28, offset: 92071},
+													pos:   position{line: 2906, col: 28, offset: 92073},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2910, col: 11, offset: 92185},
+														pos: position{line: 2910, col: 11, offset: 92187},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2910, col: 12, offset: 92186},
+															pos: position{line: 2910, col: 12, offset: 92188},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2910, col: 12, offset: 92186},
+																	pos:        position{line: 2910, col: 12, offset: 92188},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 24, offset: 92198},
+																	pos:        position{line: 2910, col: 24, offset: 92200},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 37, offset: 92211},
+																	pos:        position{line: 2910, col: 37, offset: 92213},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 48, offset: 92222},
+																	pos:        position{line: 2910, col: 48, offset: 92224},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 59, offset: 92233},
+																	pos:        position{line: 2910, col: 59, offset: 92235},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -22685,38 +22685,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2906, col: 44, offset: 92087},
+													pos:   position{line: 2906, col: 44, offset: 92089},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2915, col: 5, offset: 92297},
+														pos: position{line: 2915, col: 5, offset: 92299},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2915, col: 5, offset: 92297},
+															pos:   position{line: 2915, col: 5, offset: 92299},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2915, col: 14, offset: 92306},
+																pos: position{line: 2915, col: 14, offset: 92308},
 																expr: &choiceExpr{
-																	pos: position{line: 2916, col: 9, offset: 92316},
+																	pos: position{line: 2916, col: 9, offset: 92318},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2916, col: 9, offset: 92316},
+																			pos: position{line: 2916, col: 9, offset: 92318},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2916, col: 9, offset: 92316},
+																				pos: position{line: 2916, col: 9, offset: 92318},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2916, col: 9, offset: 92316},
+																						pos: position{line: 2916, col: 9, offset: 92318},
 																						expr: &litMatcher{
-																							pos:        position{line: 2916, col: 10, offset: 92317},
+																							pos:        position{line: 2916, col: 10, offset: 92319},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2917, col: 9, offset: 92345},
+																						pos: position{line: 2917, col: 9, offset: 92347},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2917, col: 10, offset: 92346},
+																							pos:        position{line: 2917, col: 10, offset: 92348},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22727,27 +22727,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2920, col: 11, offset: 92558},
+																			pos: position{line: 2920, col: 11, offset: 92560},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2920, col: 11, offset: 92558},
+																					pos:        position{line: 2920, col: 11, offset: 92560},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2920, col: 19, offset: 92566},
+																					pos: position{line: 2920, col: 19, offset: 92568},
 																					expr: &seqExpr{
-																						pos: position{line: 2920, col: 21, offset: 92568},
+																						pos: position{line: 2920, col: 21, offset: 92570},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2920, col: 21, offset: 92568},
+																								pos: position{line: 2920, col: 21, offset: 92570},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93180},
+																									pos: position{line: 2944, col: 10, offset: 93182},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93180},
+																										pos:        position{line: 2944, col: 10, offset: 93182},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22756,11 +22756,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 28, offset: 92575},
+																								pos: position{line: 2920, col: 28, offset: 92577},
 																								expr: &notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -22770,35 +22770,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 661, col: 5, offset: 21195},
+																			pos: position{line: 661, col: 5, offset: 21197},
 																			run: (*parser).callonLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 661, col: 5, offset: 21195},
+																				pos: position{line: 661, col: 5, offset: 21197},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 661, col: 5, offset: 21195},
+																						pos: position{line: 661, col: 5, offset: 21197},
 																						run: (*parser).callonLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 664, col: 5, offset: 21267},
+																						pos:   position{line: 664, col: 5, offset: 21269},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 664, col: 14, offset: 21276},
+																							pos: position{line: 664, col: 14, offset: 21278},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 670, col: 5, offset: 21405},
+																									pos: position{line: 670, col: 5, offset: 21407},
 																									run: (*parser).callonLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 670, col: 5, offset: 21405},
+																										pos: position{line: 670, col: 5, offset: 21407},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 670, col: 5, offset: 21405},
+																												pos:        position{line: 670, col: 5, offset: 21407},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 670, col: 13, offset: 21413},
+																												pos:   position{line: 670, col: 13, offset: 21415},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22830,7 +22830,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 670, col: 32, offset: 21432},
+																												pos:        position{line: 670, col: 32, offset: 21434},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22839,19 +22839,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 677, col: 5, offset: 21673},
+																									pos: position{line: 677, col: 5, offset: 21675},
 																									run: (*parser).callonLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 677, col: 5, offset: 21673},
+																										pos: position{line: 677, col: 5, offset: 21675},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 677, col: 5, offset: 21673},
+																												pos:        position{line: 677, col: 5, offset: 21675},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 677, col: 9, offset: 21677},
+																												pos:   position{line: 677, col: 9, offset: 21679},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22883,7 +22883,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 677, col: 28, offset: 21696},
+																												pos:        position{line: 677, col: 28, offset: 21698},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22892,19 +22892,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 683, col: 25, offset: 21877},
+																									pos: position{line: 683, col: 25, offset: 21879},
 																									run: (*parser).callonLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 683, col: 25, offset: 21877},
+																										pos: position{line: 683, col: 25, offset: 21879},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 683, col: 25, offset: 21877},
+																												pos:        position{line: 683, col: 25, offset: 21879},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 683, col: 37, offset: 21889},
+																												pos:   position{line: 683, col: 37, offset: 21891},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -22936,33 +22936,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 683, col: 56, offset: 21908},
+																												pos:   position{line: 683, col: 56, offset: 21910},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 683, col: 62, offset: 21914},
+																													pos: position{line: 683, col: 62, offset: 21916},
 																													expr: &actionExpr{
-																														pos: position{line: 691, col: 17, offset: 22211},
+																														pos: position{line: 691, col: 17, offset: 22213},
 																														run: (*parser).callonLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 691, col: 17, offset: 22211},
+																															pos: position{line: 691, col: 17, offset: 22213},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 691, col: 17, offset: 22211},
+																																	pos:        position{line: 691, col: 17, offset: 22213},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 691, col: 21, offset: 22215},
+																																	pos:   position{line: 691, col: 21, offset: 22217},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 691, col: 28, offset: 22222},
+																																		pos: position{line: 691, col: 28, offset: 22224},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 691, col: 28, offset: 22222},
+																																				pos: position{line: 691, col: 28, offset: 22224},
 																																				run: (*parser).callonLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 691, col: 28, offset: 22222},
+																																					pos:        position{line: 691, col: 28, offset: 22224},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22970,12 +22970,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 693, col: 9, offset: 22276},
+																																				pos: position{line: 693, col: 9, offset: 22278},
 																																				run: (*parser).callonLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 693, col: 9, offset: 22276},
+																																					pos: position{line: 693, col: 9, offset: 22278},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 693, col: 9, offset: 22276},
+																																						pos:        position{line: 693, col: 9, offset: 22278},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22992,7 +22992,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 683, col: 78, offset: 21930},
+																												pos:        position{line: 683, col: 78, offset: 21932},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23001,19 +23001,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 687, col: 25, offset: 22048},
+																									pos: position{line: 687, col: 25, offset: 22050},
 																									run: (*parser).callonLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 687, col: 25, offset: 22048},
+																										pos: position{line: 687, col: 25, offset: 22050},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 687, col: 25, offset: 22048},
+																												pos:        position{line: 687, col: 25, offset: 22050},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 687, col: 38, offset: 22061},
+																												pos:   position{line: 687, col: 38, offset: 22063},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23045,33 +23045,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 687, col: 57, offset: 22080},
+																												pos:   position{line: 687, col: 57, offset: 22082},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 687, col: 63, offset: 22086},
+																													pos: position{line: 687, col: 63, offset: 22088},
 																													expr: &actionExpr{
-																														pos: position{line: 691, col: 17, offset: 22211},
+																														pos: position{line: 691, col: 17, offset: 22213},
 																														run: (*parser).callonLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 691, col: 17, offset: 22211},
+																															pos: position{line: 691, col: 17, offset: 22213},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 691, col: 17, offset: 22211},
+																																	pos:        position{line: 691, col: 17, offset: 22213},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 691, col: 21, offset: 22215},
+																																	pos:   position{line: 691, col: 21, offset: 22217},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 691, col: 28, offset: 22222},
+																																		pos: position{line: 691, col: 28, offset: 22224},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 691, col: 28, offset: 22222},
+																																				pos: position{line: 691, col: 28, offset: 22224},
 																																				run: (*parser).callonLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 691, col: 28, offset: 22222},
+																																					pos:        position{line: 691, col: 28, offset: 22224},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23079,12 +23079,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 693, col: 9, offset: 22276},
+																																				pos: position{line: 693, col: 9, offset: 22278},
 																																				run: (*parser).callonLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 693, col: 9, offset: 22276},
+																																					pos: position{line: 693, col: 9, offset: 22278},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 693, col: 9, offset: 22276},
+																																						pos:        position{line: 693, col: 9, offset: 22278},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23101,7 +23101,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 687, col: 79, offset: 22102},
+																												pos:        position{line: 687, col: 79, offset: 22104},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23116,27 +23116,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1223, col: 23, offset: 38060},
+																			pos: position{line: 1223, col: 23, offset: 38062},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1223, col: 23, offset: 38060},
+																				pos: position{line: 1223, col: 23, offset: 38062},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1221, col: 32, offset: 38028},
+																						pos:        position{line: 1221, col: 32, offset: 38030},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1223, col: 51, offset: 38088},
+																						pos:   position{line: 1223, col: 51, offset: 38090},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1223, col: 56, offset: 38093},
+																							pos: position{line: 1223, col: 56, offset: 38095},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1223, col: 56, offset: 38093},
+																								pos: position{line: 1223, col: 56, offset: 38095},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1223, col: 56, offset: 38093},
+																									pos:        position{line: 1223, col: 56, offset: 38095},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23146,23 +23146,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1221, col: 32, offset: 38028},
+																						pos:        position{line: 1221, col: 32, offset: 38030},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1223, col: 123, offset: 38160},
+																						pos: position{line: 1223, col: 123, offset: 38162},
 																						run: (*parser).callonLink116,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2923, col: 11, offset: 92695},
+																			pos: position{line: 2923, col: 11, offset: 92697},
 																			run: (*parser).callonLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2923, col: 11, offset: 92695},
+																				pos:        position{line: 2923, col: 11, offset: 92697},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23179,7 +23179,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1441, col: 5, offset: 46711},
+									pos:        position{line: 1441, col: 5, offset: 46713},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -23188,54 +23188,54 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1432, col: 19, offset: 46424},
+						pos:  position{line: 1432, col: 19, offset: 46426},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1432, col: 34, offset: 46439},
+						pos:  position{line: 1432, col: 34, offset: 46441},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1470, col: 17, offset: 47704},
+						pos: position{line: 1470, col: 17, offset: 47706},
 						run: (*parser).callonLink122,
 						expr: &seqExpr{
-							pos: position{line: 1470, col: 17, offset: 47704},
+							pos: position{line: 1470, col: 17, offset: 47706},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1470, col: 17, offset: 47704},
+									pos:   position{line: 1470, col: 17, offset: 47706},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1475, col: 5, offset: 47869},
+										pos: position{line: 1475, col: 5, offset: 47871},
 										run: (*parser).callonLink125,
 										expr: &seqExpr{
-											pos: position{line: 1475, col: 5, offset: 47869},
+											pos: position{line: 1475, col: 5, offset: 47871},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1475, col: 5, offset: 47869},
+													pos:   position{line: 1475, col: 5, offset: 47871},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1475, col: 12, offset: 47876},
+														pos: position{line: 1475, col: 12, offset: 47878},
 														run: (*parser).callonLink128,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1475, col: 12, offset: 47876},
+															pos: position{line: 1475, col: 12, offset: 47878},
 															expr: &seqExpr{
-																pos: position{line: 1475, col: 13, offset: 47877},
+																pos: position{line: 1475, col: 13, offset: 47879},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1475, col: 13, offset: 47877},
+																		pos: position{line: 1475, col: 13, offset: 47879},
 																		expr: &seqExpr{
-																			pos: position{line: 1475, col: 15, offset: 47879},
+																			pos: position{line: 1475, col: 15, offset: 47881},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1475, col: 15, offset: 47879},
+																					pos:        position{line: 1475, col: 15, offset: 47881},
 																					val:        "{",
 																					ignoreCase: false,
 																					want:       "\"{\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1475, col: 19, offset: 47883},
+																					pos: position{line: 1475, col: 19, offset: 47885},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1475, col: 19, offset: 47883},
+																						pos:        position{line: 1475, col: 19, offset: 47885},
 																						val:        "[_-\\pL\\pN]",
 																						chars:      []rune{'_', '-'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23244,7 +23244,7 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1475, col: 31, offset: 47895},
+																					pos:        position{line: 1475, col: 31, offset: 47897},
 																					val:        "}",
 																					ignoreCase: false,
 																					want:       "\"}\"",
@@ -23253,7 +23253,7 @@ var g = &grammar{
 																		},
 																	},
 																	&charClassMatcher{
-																		pos:        position{line: 1475, col: 36, offset: 47900},
+																		pos:        position{line: 1475, col: 36, offset: 47902},
 																		val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																		chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																		ranges:     []rune{'+', '/'},
@@ -23267,7 +23267,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1478, col: 5, offset: 48014},
+													pos: position{line: 1478, col: 5, offset: 48016},
 													run: (*parser).callonLink138,
 												},
 											},
@@ -23275,33 +23275,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1470, col: 43, offset: 47730},
+									pos:        position{line: 1470, col: 43, offset: 47732},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1470, col: 47, offset: 47734},
+									pos:   position{line: 1470, col: 47, offset: 47736},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1487, col: 23, offset: 48308},
+										pos: position{line: 1487, col: 23, offset: 48310},
 										run: (*parser).callonLink141,
 										expr: &seqExpr{
-											pos: position{line: 1487, col: 23, offset: 48308},
+											pos: position{line: 1487, col: 23, offset: 48310},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1487, col: 23, offset: 48308},
+													pos:   position{line: 1487, col: 23, offset: 48310},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1487, col: 31, offset: 48316},
+														pos: position{line: 1487, col: 31, offset: 48318},
 														run: (*parser).callonLink144,
 														expr: &seqExpr{
-															pos: position{line: 1487, col: 31, offset: 48316},
+															pos: position{line: 1487, col: 31, offset: 48318},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1487, col: 31, offset: 48316},
+																	pos: position{line: 1487, col: 31, offset: 48318},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1487, col: 31, offset: 48316},
+																		pos:        position{line: 1487, col: 31, offset: 48318},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -23309,20 +23309,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1487, col: 41, offset: 48326},
+																	pos: position{line: 1487, col: 41, offset: 48328},
 																	expr: &seqExpr{
-																		pos: position{line: 1487, col: 42, offset: 48327},
+																		pos: position{line: 1487, col: 42, offset: 48329},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1487, col: 42, offset: 48327},
+																				pos:        position{line: 1487, col: 42, offset: 48329},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1487, col: 46, offset: 48331},
+																				pos: position{line: 1487, col: 46, offset: 48333},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1487, col: 46, offset: 48331},
+																					pos:        position{line: 1487, col: 46, offset: 48333},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23338,7 +23338,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1490, col: 5, offset: 48392},
+													pos: position{line: 1490, col: 5, offset: 48394},
 													run: (*parser).callonLink153,
 												},
 											},
@@ -23353,68 +23353,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1447, col: 1, offset: 46859},
+			pos:  position{line: 1447, col: 1, offset: 46861},
 			expr: &choiceExpr{
-				pos: position{line: 1449, col: 5, offset: 46895},
+				pos: position{line: 1449, col: 5, offset: 46897},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1449, col: 5, offset: 46895},
+						pos: position{line: 1449, col: 5, offset: 46897},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1449, col: 5, offset: 46895},
+							pos: position{line: 1449, col: 5, offset: 46897},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1449, col: 5, offset: 46895},
+									pos:        position{line: 1449, col: 5, offset: 46897},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1449, col: 17, offset: 46907},
+									pos:   position{line: 1449, col: 17, offset: 46909},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2902, col: 13, offset: 91939},
+										pos: position{line: 2902, col: 13, offset: 91941},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2902, col: 13, offset: 91939},
+											pos: position{line: 2902, col: 13, offset: 91941},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2902, col: 13, offset: 91939},
+													pos:   position{line: 2902, col: 13, offset: 91941},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2902, col: 20, offset: 91946},
+														pos: position{line: 2902, col: 20, offset: 91948},
 														expr: &actionExpr{
-															pos: position{line: 2910, col: 11, offset: 92185},
+															pos: position{line: 2910, col: 11, offset: 92187},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2910, col: 12, offset: 92186},
+																pos: position{line: 2910, col: 12, offset: 92188},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 12, offset: 92186},
+																		pos:        position{line: 2910, col: 12, offset: 92188},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 24, offset: 92198},
+																		pos:        position{line: 2910, col: 24, offset: 92200},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 37, offset: 92211},
+																		pos:        position{line: 2910, col: 37, offset: 92213},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 48, offset: 92222},
+																		pos:        position{line: 2910, col: 48, offset: 92224},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 59, offset: 92233},
+																		pos:        position{line: 2910, col: 59, offset: 92235},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23425,38 +23425,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2902, col: 30, offset: 91956},
+													pos:   position{line: 2902, col: 30, offset: 91958},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2915, col: 5, offset: 92297},
+														pos: position{line: 2915, col: 5, offset: 92299},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2915, col: 5, offset: 92297},
+															pos:   position{line: 2915, col: 5, offset: 92299},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2915, col: 14, offset: 92306},
+																pos: position{line: 2915, col: 14, offset: 92308},
 																expr: &choiceExpr{
-																	pos: position{line: 2916, col: 9, offset: 92316},
+																	pos: position{line: 2916, col: 9, offset: 92318},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2916, col: 9, offset: 92316},
+																			pos: position{line: 2916, col: 9, offset: 92318},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2916, col: 9, offset: 92316},
+																				pos: position{line: 2916, col: 9, offset: 92318},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2916, col: 9, offset: 92316},
+																						pos: position{line: 2916, col: 9, offset: 92318},
 																						expr: &litMatcher{
-																							pos:        position{line: 2916, col: 10, offset: 92317},
+																							pos:        position{line: 2916, col: 10, offset: 92319},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2917, col: 9, offset: 92345},
+																						pos: position{line: 2917, col: 9, offset: 92347},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2917, col: 10, offset: 92346},
+																							pos:        position{line: 2917, col: 10, offset: 92348},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23467,27 +23467,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2920, col: 11, offset: 92558},
+																			pos: position{line: 2920, col: 11, offset: 92560},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2920, col: 11, offset: 92558},
+																					pos:        position{line: 2920, col: 11, offset: 92560},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2920, col: 19, offset: 92566},
+																					pos: position{line: 2920, col: 19, offset: 92568},
 																					expr: &seqExpr{
-																						pos: position{line: 2920, col: 21, offset: 92568},
+																						pos: position{line: 2920, col: 21, offset: 92570},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2920, col: 21, offset: 92568},
+																								pos: position{line: 2920, col: 21, offset: 92570},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93180},
+																									pos: position{line: 2944, col: 10, offset: 93182},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93180},
+																										pos:        position{line: 2944, col: 10, offset: 93182},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23496,11 +23496,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 28, offset: 92575},
+																								pos: position{line: 2920, col: 28, offset: 92577},
 																								expr: &notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -23510,35 +23510,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 661, col: 5, offset: 21195},
+																			pos: position{line: 661, col: 5, offset: 21197},
 																			run: (*parser).callonRelativeLink38,
 																			expr: &seqExpr{
-																				pos: position{line: 661, col: 5, offset: 21195},
+																				pos: position{line: 661, col: 5, offset: 21197},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 661, col: 5, offset: 21195},
+																						pos: position{line: 661, col: 5, offset: 21197},
 																						run: (*parser).callonRelativeLink40,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 664, col: 5, offset: 21267},
+																						pos:   position{line: 664, col: 5, offset: 21269},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 664, col: 14, offset: 21276},
+																							pos: position{line: 664, col: 14, offset: 21278},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 670, col: 5, offset: 21405},
+																									pos: position{line: 670, col: 5, offset: 21407},
 																									run: (*parser).callonRelativeLink43,
 																									expr: &seqExpr{
-																										pos: position{line: 670, col: 5, offset: 21405},
+																										pos: position{line: 670, col: 5, offset: 21407},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 670, col: 5, offset: 21405},
+																												pos:        position{line: 670, col: 5, offset: 21407},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 670, col: 13, offset: 21413},
+																												pos:   position{line: 670, col: 13, offset: 21415},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23570,7 +23570,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 670, col: 32, offset: 21432},
+																												pos:        position{line: 670, col: 32, offset: 21434},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23579,19 +23579,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 677, col: 5, offset: 21673},
+																									pos: position{line: 677, col: 5, offset: 21675},
 																									run: (*parser).callonRelativeLink53,
 																									expr: &seqExpr{
-																										pos: position{line: 677, col: 5, offset: 21673},
+																										pos: position{line: 677, col: 5, offset: 21675},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 677, col: 5, offset: 21673},
+																												pos:        position{line: 677, col: 5, offset: 21675},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 677, col: 9, offset: 21677},
+																												pos:   position{line: 677, col: 9, offset: 21679},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23623,7 +23623,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 677, col: 28, offset: 21696},
+																												pos:        position{line: 677, col: 28, offset: 21698},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23632,19 +23632,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 683, col: 25, offset: 21877},
+																									pos: position{line: 683, col: 25, offset: 21879},
 																									run: (*parser).callonRelativeLink63,
 																									expr: &seqExpr{
-																										pos: position{line: 683, col: 25, offset: 21877},
+																										pos: position{line: 683, col: 25, offset: 21879},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 683, col: 25, offset: 21877},
+																												pos:        position{line: 683, col: 25, offset: 21879},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 683, col: 37, offset: 21889},
+																												pos:   position{line: 683, col: 37, offset: 21891},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23676,33 +23676,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 683, col: 56, offset: 21908},
+																												pos:   position{line: 683, col: 56, offset: 21910},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 683, col: 62, offset: 21914},
+																													pos: position{line: 683, col: 62, offset: 21916},
 																													expr: &actionExpr{
-																														pos: position{line: 691, col: 17, offset: 22211},
+																														pos: position{line: 691, col: 17, offset: 22213},
 																														run: (*parser).callonRelativeLink74,
 																														expr: &seqExpr{
-																															pos: position{line: 691, col: 17, offset: 22211},
+																															pos: position{line: 691, col: 17, offset: 22213},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 691, col: 17, offset: 22211},
+																																	pos:        position{line: 691, col: 17, offset: 22213},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 691, col: 21, offset: 22215},
+																																	pos:   position{line: 691, col: 21, offset: 22217},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 691, col: 28, offset: 22222},
+																																		pos: position{line: 691, col: 28, offset: 22224},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 691, col: 28, offset: 22222},
+																																				pos: position{line: 691, col: 28, offset: 22224},
 																																				run: (*parser).callonRelativeLink79,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 691, col: 28, offset: 22222},
+																																					pos:        position{line: 691, col: 28, offset: 22224},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23710,12 +23710,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 693, col: 9, offset: 22276},
+																																				pos: position{line: 693, col: 9, offset: 22278},
 																																				run: (*parser).callonRelativeLink81,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 693, col: 9, offset: 22276},
+																																					pos: position{line: 693, col: 9, offset: 22278},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 693, col: 9, offset: 22276},
+																																						pos:        position{line: 693, col: 9, offset: 22278},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23732,7 +23732,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 683, col: 78, offset: 21930},
+																												pos:        position{line: 683, col: 78, offset: 21932},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23741,19 +23741,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 687, col: 25, offset: 22048},
+																									pos: position{line: 687, col: 25, offset: 22050},
 																									run: (*parser).callonRelativeLink85,
 																									expr: &seqExpr{
-																										pos: position{line: 687, col: 25, offset: 22048},
+																										pos: position{line: 687, col: 25, offset: 22050},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 687, col: 25, offset: 22048},
+																												pos:        position{line: 687, col: 25, offset: 22050},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 687, col: 38, offset: 22061},
+																												pos:   position{line: 687, col: 38, offset: 22063},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -23785,33 +23785,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 687, col: 57, offset: 22080},
+																												pos:   position{line: 687, col: 57, offset: 22082},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 687, col: 63, offset: 22086},
+																													pos: position{line: 687, col: 63, offset: 22088},
 																													expr: &actionExpr{
-																														pos: position{line: 691, col: 17, offset: 22211},
+																														pos: position{line: 691, col: 17, offset: 22213},
 																														run: (*parser).callonRelativeLink96,
 																														expr: &seqExpr{
-																															pos: position{line: 691, col: 17, offset: 22211},
+																															pos: position{line: 691, col: 17, offset: 22213},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 691, col: 17, offset: 22211},
+																																	pos:        position{line: 691, col: 17, offset: 22213},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 691, col: 21, offset: 22215},
+																																	pos:   position{line: 691, col: 21, offset: 22217},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 691, col: 28, offset: 22222},
+																																		pos: position{line: 691, col: 28, offset: 22224},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 691, col: 28, offset: 22222},
+																																				pos: position{line: 691, col: 28, offset: 22224},
 																																				run: (*parser).callonRelativeLink101,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 691, col: 28, offset: 22222},
+																																					pos:        position{line: 691, col: 28, offset: 22224},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23819,12 +23819,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 693, col: 9, offset: 22276},
+																																				pos: position{line: 693, col: 9, offset: 22278},
 																																				run: (*parser).callonRelativeLink103,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 693, col: 9, offset: 22276},
+																																					pos: position{line: 693, col: 9, offset: 22278},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 693, col: 9, offset: 22276},
+																																						pos:        position{line: 693, col: 9, offset: 22278},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23841,7 +23841,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 687, col: 79, offset: 22102},
+																												pos:        position{line: 687, col: 79, offset: 22104},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23856,27 +23856,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1223, col: 23, offset: 38060},
+																			pos: position{line: 1223, col: 23, offset: 38062},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1223, col: 23, offset: 38060},
+																				pos: position{line: 1223, col: 23, offset: 38062},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1221, col: 32, offset: 38028},
+																						pos:        position{line: 1221, col: 32, offset: 38030},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1223, col: 51, offset: 38088},
+																						pos:   position{line: 1223, col: 51, offset: 38090},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1223, col: 56, offset: 38093},
+																							pos: position{line: 1223, col: 56, offset: 38095},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1223, col: 56, offset: 38093},
+																								pos: position{line: 1223, col: 56, offset: 38095},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1223, col: 56, offset: 38093},
+																									pos:        position{line: 1223, col: 56, offset: 38095},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23886,23 +23886,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1221, col: 32, offset: 38028},
+																						pos:        position{line: 1221, col: 32, offset: 38030},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1223, col: 123, offset: 38160},
+																						pos: position{line: 1223, col: 123, offset: 38162},
 																						run: (*parser).callonRelativeLink115,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2923, col: 11, offset: 92695},
+																			pos: position{line: 2923, col: 11, offset: 92697},
 																			run: (*parser).callonRelativeLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2923, col: 11, offset: 92695},
+																				pos:        position{line: 2923, col: 11, offset: 92697},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23919,10 +23919,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1449, col: 32, offset: 46922},
+									pos:   position{line: 1449, col: 32, offset: 46924},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1449, col: 44, offset: 46934},
+										pos:  position{line: 1449, col: 44, offset: 46936},
 										name: "InlineAttributes",
 									},
 								},
@@ -23930,63 +23930,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1454, col: 5, offset: 47066},
+						pos: position{line: 1454, col: 5, offset: 47068},
 						run: (*parser).callonRelativeLink120,
 						expr: &seqExpr{
-							pos: position{line: 1454, col: 5, offset: 47066},
+							pos: position{line: 1454, col: 5, offset: 47068},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1454, col: 5, offset: 47066},
+									pos:        position{line: 1454, col: 5, offset: 47068},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1454, col: 13, offset: 47074},
+									pos:   position{line: 1454, col: 13, offset: 47076},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2902, col: 13, offset: 91939},
+										pos: position{line: 2902, col: 13, offset: 91941},
 										run: (*parser).callonRelativeLink124,
 										expr: &seqExpr{
-											pos: position{line: 2902, col: 13, offset: 91939},
+											pos: position{line: 2902, col: 13, offset: 91941},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2902, col: 13, offset: 91939},
+													pos:   position{line: 2902, col: 13, offset: 91941},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2902, col: 20, offset: 91946},
+														pos: position{line: 2902, col: 20, offset: 91948},
 														expr: &actionExpr{
-															pos: position{line: 2910, col: 11, offset: 92185},
+															pos: position{line: 2910, col: 11, offset: 92187},
 															run: (*parser).callonRelativeLink128,
 															expr: &choiceExpr{
-																pos: position{line: 2910, col: 12, offset: 92186},
+																pos: position{line: 2910, col: 12, offset: 92188},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 12, offset: 92186},
+																		pos:        position{line: 2910, col: 12, offset: 92188},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 24, offset: 92198},
+																		pos:        position{line: 2910, col: 24, offset: 92200},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 37, offset: 92211},
+																		pos:        position{line: 2910, col: 37, offset: 92213},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 48, offset: 92222},
+																		pos:        position{line: 2910, col: 48, offset: 92224},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 59, offset: 92233},
+																		pos:        position{line: 2910, col: 59, offset: 92235},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23997,38 +23997,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2902, col: 30, offset: 91956},
+													pos:   position{line: 2902, col: 30, offset: 91958},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2915, col: 5, offset: 92297},
+														pos: position{line: 2915, col: 5, offset: 92299},
 														run: (*parser).callonRelativeLink136,
 														expr: &labeledExpr{
-															pos:   position{line: 2915, col: 5, offset: 92297},
+															pos:   position{line: 2915, col: 5, offset: 92299},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2915, col: 14, offset: 92306},
+																pos: position{line: 2915, col: 14, offset: 92308},
 																expr: &choiceExpr{
-																	pos: position{line: 2916, col: 9, offset: 92316},
+																	pos: position{line: 2916, col: 9, offset: 92318},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2916, col: 9, offset: 92316},
+																			pos: position{line: 2916, col: 9, offset: 92318},
 																			run: (*parser).callonRelativeLink140,
 																			expr: &seqExpr{
-																				pos: position{line: 2916, col: 9, offset: 92316},
+																				pos: position{line: 2916, col: 9, offset: 92318},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2916, col: 9, offset: 92316},
+																						pos: position{line: 2916, col: 9, offset: 92318},
 																						expr: &litMatcher{
-																							pos:        position{line: 2916, col: 10, offset: 92317},
+																							pos:        position{line: 2916, col: 10, offset: 92319},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2917, col: 9, offset: 92345},
+																						pos: position{line: 2917, col: 9, offset: 92347},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2917, col: 10, offset: 92346},
+																							pos:        position{line: 2917, col: 10, offset: 92348},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24039,27 +24039,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2920, col: 11, offset: 92558},
+																			pos: position{line: 2920, col: 11, offset: 92560},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2920, col: 11, offset: 92558},
+																					pos:        position{line: 2920, col: 11, offset: 92560},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2920, col: 19, offset: 92566},
+																					pos: position{line: 2920, col: 19, offset: 92568},
 																					expr: &seqExpr{
-																						pos: position{line: 2920, col: 21, offset: 92568},
+																						pos: position{line: 2920, col: 21, offset: 92570},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2920, col: 21, offset: 92568},
+																								pos: position{line: 2920, col: 21, offset: 92570},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93180},
+																									pos: position{line: 2944, col: 10, offset: 93182},
 																									run: (*parser).callonRelativeLink151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93180},
+																										pos:        position{line: 2944, col: 10, offset: 93182},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24068,11 +24068,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 28, offset: 92575},
+																								pos: position{line: 2920, col: 28, offset: 92577},
 																								expr: &notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -24082,35 +24082,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 661, col: 5, offset: 21195},
+																			pos: position{line: 661, col: 5, offset: 21197},
 																			run: (*parser).callonRelativeLink156,
 																			expr: &seqExpr{
-																				pos: position{line: 661, col: 5, offset: 21195},
+																				pos: position{line: 661, col: 5, offset: 21197},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 661, col: 5, offset: 21195},
+																						pos: position{line: 661, col: 5, offset: 21197},
 																						run: (*parser).callonRelativeLink158,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 664, col: 5, offset: 21267},
+																						pos:   position{line: 664, col: 5, offset: 21269},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 664, col: 14, offset: 21276},
+																							pos: position{line: 664, col: 14, offset: 21278},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 670, col: 5, offset: 21405},
+																									pos: position{line: 670, col: 5, offset: 21407},
 																									run: (*parser).callonRelativeLink161,
 																									expr: &seqExpr{
-																										pos: position{line: 670, col: 5, offset: 21405},
+																										pos: position{line: 670, col: 5, offset: 21407},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 670, col: 5, offset: 21405},
+																												pos:        position{line: 670, col: 5, offset: 21407},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 670, col: 13, offset: 21413},
+																												pos:   position{line: 670, col: 13, offset: 21415},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24142,7 +24142,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 670, col: 32, offset: 21432},
+																												pos:        position{line: 670, col: 32, offset: 21434},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24151,19 +24151,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 677, col: 5, offset: 21673},
+																									pos: position{line: 677, col: 5, offset: 21675},
 																									run: (*parser).callonRelativeLink171,
 																									expr: &seqExpr{
-																										pos: position{line: 677, col: 5, offset: 21673},
+																										pos: position{line: 677, col: 5, offset: 21675},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 677, col: 5, offset: 21673},
+																												pos:        position{line: 677, col: 5, offset: 21675},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 677, col: 9, offset: 21677},
+																												pos:   position{line: 677, col: 9, offset: 21679},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24195,7 +24195,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 677, col: 28, offset: 21696},
+																												pos:        position{line: 677, col: 28, offset: 21698},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24204,19 +24204,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 683, col: 25, offset: 21877},
+																									pos: position{line: 683, col: 25, offset: 21879},
 																									run: (*parser).callonRelativeLink181,
 																									expr: &seqExpr{
-																										pos: position{line: 683, col: 25, offset: 21877},
+																										pos: position{line: 683, col: 25, offset: 21879},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 683, col: 25, offset: 21877},
+																												pos:        position{line: 683, col: 25, offset: 21879},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 683, col: 37, offset: 21889},
+																												pos:   position{line: 683, col: 37, offset: 21891},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24248,33 +24248,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 683, col: 56, offset: 21908},
+																												pos:   position{line: 683, col: 56, offset: 21910},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 683, col: 62, offset: 21914},
+																													pos: position{line: 683, col: 62, offset: 21916},
 																													expr: &actionExpr{
-																														pos: position{line: 691, col: 17, offset: 22211},
+																														pos: position{line: 691, col: 17, offset: 22213},
 																														run: (*parser).callonRelativeLink192,
 																														expr: &seqExpr{
-																															pos: position{line: 691, col: 17, offset: 22211},
+																															pos: position{line: 691, col: 17, offset: 22213},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 691, col: 17, offset: 22211},
+																																	pos:        position{line: 691, col: 17, offset: 22213},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 691, col: 21, offset: 22215},
+																																	pos:   position{line: 691, col: 21, offset: 22217},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 691, col: 28, offset: 22222},
+																																		pos: position{line: 691, col: 28, offset: 22224},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 691, col: 28, offset: 22222},
+																																				pos: position{line: 691, col: 28, offset: 22224},
 																																				run: (*parser).callonRelativeLink197,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 691, col: 28, offset: 22222},
+																																					pos:        position{line: 691, col: 28, offset: 22224},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24282,12 +24282,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 693, col: 9, offset: 22276},
+																																				pos: position{line: 693, col: 9, offset: 22278},
 																																				run: (*parser).callonRelativeLink199,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 693, col: 9, offset: 22276},
+																																					pos: position{line: 693, col: 9, offset: 22278},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 693, col: 9, offset: 22276},
+																																						pos:        position{line: 693, col: 9, offset: 22278},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24304,7 +24304,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 683, col: 78, offset: 21930},
+																												pos:        position{line: 683, col: 78, offset: 21932},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24313,19 +24313,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 687, col: 25, offset: 22048},
+																									pos: position{line: 687, col: 25, offset: 22050},
 																									run: (*parser).callonRelativeLink203,
 																									expr: &seqExpr{
-																										pos: position{line: 687, col: 25, offset: 22048},
+																										pos: position{line: 687, col: 25, offset: 22050},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 687, col: 25, offset: 22048},
+																												pos:        position{line: 687, col: 25, offset: 22050},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 687, col: 38, offset: 22061},
+																												pos:   position{line: 687, col: 38, offset: 22063},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24357,33 +24357,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 687, col: 57, offset: 22080},
+																												pos:   position{line: 687, col: 57, offset: 22082},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 687, col: 63, offset: 22086},
+																													pos: position{line: 687, col: 63, offset: 22088},
 																													expr: &actionExpr{
-																														pos: position{line: 691, col: 17, offset: 22211},
+																														pos: position{line: 691, col: 17, offset: 22213},
 																														run: (*parser).callonRelativeLink214,
 																														expr: &seqExpr{
-																															pos: position{line: 691, col: 17, offset: 22211},
+																															pos: position{line: 691, col: 17, offset: 22213},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 691, col: 17, offset: 22211},
+																																	pos:        position{line: 691, col: 17, offset: 22213},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 691, col: 21, offset: 22215},
+																																	pos:   position{line: 691, col: 21, offset: 22217},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 691, col: 28, offset: 22222},
+																																		pos: position{line: 691, col: 28, offset: 22224},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 691, col: 28, offset: 22222},
+																																				pos: position{line: 691, col: 28, offset: 22224},
 																																				run: (*parser).callonRelativeLink219,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 691, col: 28, offset: 22222},
+																																					pos:        position{line: 691, col: 28, offset: 22224},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24391,12 +24391,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 693, col: 9, offset: 22276},
+																																				pos: position{line: 693, col: 9, offset: 22278},
 																																				run: (*parser).callonRelativeLink221,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 693, col: 9, offset: 22276},
+																																					pos: position{line: 693, col: 9, offset: 22278},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 693, col: 9, offset: 22276},
+																																						pos:        position{line: 693, col: 9, offset: 22278},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24413,7 +24413,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 687, col: 79, offset: 22102},
+																												pos:        position{line: 687, col: 79, offset: 22104},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24428,27 +24428,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1223, col: 23, offset: 38060},
+																			pos: position{line: 1223, col: 23, offset: 38062},
 																			run: (*parser).callonRelativeLink225,
 																			expr: &seqExpr{
-																				pos: position{line: 1223, col: 23, offset: 38060},
+																				pos: position{line: 1223, col: 23, offset: 38062},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1221, col: 32, offset: 38028},
+																						pos:        position{line: 1221, col: 32, offset: 38030},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1223, col: 51, offset: 38088},
+																						pos:   position{line: 1223, col: 51, offset: 38090},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1223, col: 56, offset: 38093},
+																							pos: position{line: 1223, col: 56, offset: 38095},
 																							run: (*parser).callonRelativeLink229,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1223, col: 56, offset: 38093},
+																								pos: position{line: 1223, col: 56, offset: 38095},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1223, col: 56, offset: 38093},
+																									pos:        position{line: 1223, col: 56, offset: 38095},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24458,23 +24458,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1221, col: 32, offset: 38028},
+																						pos:        position{line: 1221, col: 32, offset: 38030},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1223, col: 123, offset: 38160},
+																						pos: position{line: 1223, col: 123, offset: 38162},
 																						run: (*parser).callonRelativeLink233,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2923, col: 11, offset: 92695},
+																			pos: position{line: 2923, col: 11, offset: 92697},
 																			run: (*parser).callonRelativeLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2923, col: 11, offset: 92695},
+																				pos:        position{line: 2923, col: 11, offset: 92697},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24491,10 +24491,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1454, col: 28, offset: 47089},
+									pos:   position{line: 1454, col: 28, offset: 47091},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1454, col: 40, offset: 47101},
+										pos:  position{line: 1454, col: 40, offset: 47103},
 										name: "InlineAttributes",
 									},
 								},
@@ -24506,75 +24506,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1458, col: 1, offset: 47217},
+			pos:  position{line: 1458, col: 1, offset: 47219},
 			expr: &choiceExpr{
-				pos: position{line: 1461, col: 5, offset: 47379},
+				pos: position{line: 1461, col: 5, offset: 47381},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1461, col: 5, offset: 47379},
+						pos: position{line: 1461, col: 5, offset: 47381},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1461, col: 5, offset: 47379},
+							pos: position{line: 1461, col: 5, offset: 47381},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1461, col: 5, offset: 47379},
+									pos:        position{line: 1461, col: 5, offset: 47381},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1461, col: 9, offset: 47383},
+									pos:   position{line: 1461, col: 9, offset: 47385},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2906, col: 23, offset: 92066},
+										pos: position{line: 2906, col: 23, offset: 92068},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2906, col: 23, offset: 92066},
+											pos: position{line: 2906, col: 23, offset: 92068},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2906, col: 23, offset: 92066},
+													pos: position{line: 2906, col: 23, offset: 92068},
 													expr: &litMatcher{
-														pos:        position{line: 2906, col: 24, offset: 92067},
+														pos:        position{line: 2906, col: 24, offset: 92069},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2906, col: 28, offset: 92071},
+													pos:   position{line: 2906, col: 28, offset: 92073},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2910, col: 11, offset: 92185},
+														pos: position{line: 2910, col: 11, offset: 92187},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2910, col: 12, offset: 92186},
+															pos: position{line: 2910, col: 12, offset: 92188},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2910, col: 12, offset: 92186},
+																	pos:        position{line: 2910, col: 12, offset: 92188},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 24, offset: 92198},
+																	pos:        position{line: 2910, col: 24, offset: 92200},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 37, offset: 92211},
+																	pos:        position{line: 2910, col: 37, offset: 92213},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 48, offset: 92222},
+																	pos:        position{line: 2910, col: 48, offset: 92224},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 59, offset: 92233},
+																	pos:        position{line: 2910, col: 59, offset: 92235},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24584,38 +24584,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2906, col: 44, offset: 92087},
+													pos:   position{line: 2906, col: 44, offset: 92089},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2915, col: 5, offset: 92297},
+														pos: position{line: 2915, col: 5, offset: 92299},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2915, col: 5, offset: 92297},
+															pos:   position{line: 2915, col: 5, offset: 92299},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2915, col: 14, offset: 92306},
+																pos: position{line: 2915, col: 14, offset: 92308},
 																expr: &choiceExpr{
-																	pos: position{line: 2916, col: 9, offset: 92316},
+																	pos: position{line: 2916, col: 9, offset: 92318},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2916, col: 9, offset: 92316},
+																			pos: position{line: 2916, col: 9, offset: 92318},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2916, col: 9, offset: 92316},
+																				pos: position{line: 2916, col: 9, offset: 92318},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2916, col: 9, offset: 92316},
+																						pos: position{line: 2916, col: 9, offset: 92318},
 																						expr: &litMatcher{
-																							pos:        position{line: 2916, col: 10, offset: 92317},
+																							pos:        position{line: 2916, col: 10, offset: 92319},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2917, col: 9, offset: 92345},
+																						pos: position{line: 2917, col: 9, offset: 92347},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2917, col: 10, offset: 92346},
+																							pos:        position{line: 2917, col: 10, offset: 92348},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24626,27 +24626,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2920, col: 11, offset: 92558},
+																			pos: position{line: 2920, col: 11, offset: 92560},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2920, col: 11, offset: 92558},
+																					pos:        position{line: 2920, col: 11, offset: 92560},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2920, col: 19, offset: 92566},
+																					pos: position{line: 2920, col: 19, offset: 92568},
 																					expr: &seqExpr{
-																						pos: position{line: 2920, col: 21, offset: 92568},
+																						pos: position{line: 2920, col: 21, offset: 92570},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2920, col: 21, offset: 92568},
+																								pos: position{line: 2920, col: 21, offset: 92570},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93180},
+																									pos: position{line: 2944, col: 10, offset: 93182},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93180},
+																										pos:        position{line: 2944, col: 10, offset: 93182},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24655,11 +24655,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 28, offset: 92575},
+																								pos: position{line: 2920, col: 28, offset: 92577},
 																								expr: &notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -24669,35 +24669,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 661, col: 5, offset: 21195},
+																			pos: position{line: 661, col: 5, offset: 21197},
 																			run: (*parser).callonExternalLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 661, col: 5, offset: 21195},
+																				pos: position{line: 661, col: 5, offset: 21197},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 661, col: 5, offset: 21195},
+																						pos: position{line: 661, col: 5, offset: 21197},
 																						run: (*parser).callonExternalLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 664, col: 5, offset: 21267},
+																						pos:   position{line: 664, col: 5, offset: 21269},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 664, col: 14, offset: 21276},
+																							pos: position{line: 664, col: 14, offset: 21278},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 670, col: 5, offset: 21405},
+																									pos: position{line: 670, col: 5, offset: 21407},
 																									run: (*parser).callonExternalLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 670, col: 5, offset: 21405},
+																										pos: position{line: 670, col: 5, offset: 21407},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 670, col: 5, offset: 21405},
+																												pos:        position{line: 670, col: 5, offset: 21407},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 670, col: 13, offset: 21413},
+																												pos:   position{line: 670, col: 13, offset: 21415},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24729,7 +24729,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 670, col: 32, offset: 21432},
+																												pos:        position{line: 670, col: 32, offset: 21434},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24738,19 +24738,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 677, col: 5, offset: 21673},
+																									pos: position{line: 677, col: 5, offset: 21675},
 																									run: (*parser).callonExternalLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 677, col: 5, offset: 21673},
+																										pos: position{line: 677, col: 5, offset: 21675},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 677, col: 5, offset: 21673},
+																												pos:        position{line: 677, col: 5, offset: 21675},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 677, col: 9, offset: 21677},
+																												pos:   position{line: 677, col: 9, offset: 21679},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24782,7 +24782,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 677, col: 28, offset: 21696},
+																												pos:        position{line: 677, col: 28, offset: 21698},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24791,19 +24791,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 683, col: 25, offset: 21877},
+																									pos: position{line: 683, col: 25, offset: 21879},
 																									run: (*parser).callonExternalLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 683, col: 25, offset: 21877},
+																										pos: position{line: 683, col: 25, offset: 21879},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 683, col: 25, offset: 21877},
+																												pos:        position{line: 683, col: 25, offset: 21879},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 683, col: 37, offset: 21889},
+																												pos:   position{line: 683, col: 37, offset: 21891},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24835,33 +24835,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 683, col: 56, offset: 21908},
+																												pos:   position{line: 683, col: 56, offset: 21910},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 683, col: 62, offset: 21914},
+																													pos: position{line: 683, col: 62, offset: 21916},
 																													expr: &actionExpr{
-																														pos: position{line: 691, col: 17, offset: 22211},
+																														pos: position{line: 691, col: 17, offset: 22213},
 																														run: (*parser).callonExternalLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 691, col: 17, offset: 22211},
+																															pos: position{line: 691, col: 17, offset: 22213},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 691, col: 17, offset: 22211},
+																																	pos:        position{line: 691, col: 17, offset: 22213},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 691, col: 21, offset: 22215},
+																																	pos:   position{line: 691, col: 21, offset: 22217},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 691, col: 28, offset: 22222},
+																																		pos: position{line: 691, col: 28, offset: 22224},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 691, col: 28, offset: 22222},
+																																				pos: position{line: 691, col: 28, offset: 22224},
 																																				run: (*parser).callonExternalLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 691, col: 28, offset: 22222},
+																																					pos:        position{line: 691, col: 28, offset: 22224},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24869,12 +24869,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 693, col: 9, offset: 22276},
+																																				pos: position{line: 693, col: 9, offset: 22278},
 																																				run: (*parser).callonExternalLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 693, col: 9, offset: 22276},
+																																					pos: position{line: 693, col: 9, offset: 22278},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 693, col: 9, offset: 22276},
+																																						pos:        position{line: 693, col: 9, offset: 22278},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24891,7 +24891,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 683, col: 78, offset: 21930},
+																												pos:        position{line: 683, col: 78, offset: 21932},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24900,19 +24900,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 687, col: 25, offset: 22048},
+																									pos: position{line: 687, col: 25, offset: 22050},
 																									run: (*parser).callonExternalLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 687, col: 25, offset: 22048},
+																										pos: position{line: 687, col: 25, offset: 22050},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 687, col: 25, offset: 22048},
+																												pos:        position{line: 687, col: 25, offset: 22050},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 687, col: 38, offset: 22061},
+																												pos:   position{line: 687, col: 38, offset: 22063},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -24944,33 +24944,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 687, col: 57, offset: 22080},
+																												pos:   position{line: 687, col: 57, offset: 22082},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 687, col: 63, offset: 22086},
+																													pos: position{line: 687, col: 63, offset: 22088},
 																													expr: &actionExpr{
-																														pos: position{line: 691, col: 17, offset: 22211},
+																														pos: position{line: 691, col: 17, offset: 22213},
 																														run: (*parser).callonExternalLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 691, col: 17, offset: 22211},
+																															pos: position{line: 691, col: 17, offset: 22213},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 691, col: 17, offset: 22211},
+																																	pos:        position{line: 691, col: 17, offset: 22213},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 691, col: 21, offset: 22215},
+																																	pos:   position{line: 691, col: 21, offset: 22217},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 691, col: 28, offset: 22222},
+																																		pos: position{line: 691, col: 28, offset: 22224},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 691, col: 28, offset: 22222},
+																																				pos: position{line: 691, col: 28, offset: 22224},
 																																				run: (*parser).callonExternalLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 691, col: 28, offset: 22222},
+																																					pos:        position{line: 691, col: 28, offset: 22224},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24978,12 +24978,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 693, col: 9, offset: 22276},
+																																				pos: position{line: 693, col: 9, offset: 22278},
 																																				run: (*parser).callonExternalLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 693, col: 9, offset: 22276},
+																																					pos: position{line: 693, col: 9, offset: 22278},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 693, col: 9, offset: 22276},
+																																						pos:        position{line: 693, col: 9, offset: 22278},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -25000,7 +25000,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 687, col: 79, offset: 22102},
+																												pos:        position{line: 687, col: 79, offset: 22104},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -25015,27 +25015,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1223, col: 23, offset: 38060},
+																			pos: position{line: 1223, col: 23, offset: 38062},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1223, col: 23, offset: 38060},
+																				pos: position{line: 1223, col: 23, offset: 38062},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1221, col: 32, offset: 38028},
+																						pos:        position{line: 1221, col: 32, offset: 38030},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1223, col: 51, offset: 38088},
+																						pos:   position{line: 1223, col: 51, offset: 38090},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1223, col: 56, offset: 38093},
+																							pos: position{line: 1223, col: 56, offset: 38095},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1223, col: 56, offset: 38093},
+																								pos: position{line: 1223, col: 56, offset: 38095},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1223, col: 56, offset: 38093},
+																									pos:        position{line: 1223, col: 56, offset: 38095},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -25045,23 +25045,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1221, col: 32, offset: 38028},
+																						pos:        position{line: 1221, col: 32, offset: 38030},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1223, col: 123, offset: 38160},
+																						pos: position{line: 1223, col: 123, offset: 38162},
 																						run: (*parser).callonExternalLink116,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2923, col: 11, offset: 92695},
+																			pos: position{line: 2923, col: 11, offset: 92697},
 																			run: (*parser).callonExternalLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2923, col: 11, offset: 92695},
+																				pos:        position{line: 2923, col: 11, offset: 92697},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25078,12 +25078,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1461, col: 34, offset: 47408},
+									pos:   position{line: 1461, col: 34, offset: 47410},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1461, col: 45, offset: 47419},
+										pos: position{line: 1461, col: 45, offset: 47421},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1461, col: 46, offset: 47420},
+											pos:  position{line: 1461, col: 46, offset: 47422},
 											name: "InlineAttributes",
 										},
 									},
@@ -25092,64 +25092,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1466, col: 5, offset: 47553},
+						pos: position{line: 1466, col: 5, offset: 47555},
 						run: (*parser).callonExternalLink122,
 						expr: &seqExpr{
-							pos: position{line: 1466, col: 5, offset: 47553},
+							pos: position{line: 1466, col: 5, offset: 47555},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1466, col: 5, offset: 47553},
+									pos:   position{line: 1466, col: 5, offset: 47555},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2906, col: 23, offset: 92066},
+										pos: position{line: 2906, col: 23, offset: 92068},
 										run: (*parser).callonExternalLink125,
 										expr: &seqExpr{
-											pos: position{line: 2906, col: 23, offset: 92066},
+											pos: position{line: 2906, col: 23, offset: 92068},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2906, col: 23, offset: 92066},
+													pos: position{line: 2906, col: 23, offset: 92068},
 													expr: &litMatcher{
-														pos:        position{line: 2906, col: 24, offset: 92067},
+														pos:        position{line: 2906, col: 24, offset: 92069},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2906, col: 28, offset: 92071},
+													pos:   position{line: 2906, col: 28, offset: 92073},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2910, col: 11, offset: 92185},
+														pos: position{line: 2910, col: 11, offset: 92187},
 														run: (*parser).callonExternalLink130,
 														expr: &choiceExpr{
-															pos: position{line: 2910, col: 12, offset: 92186},
+															pos: position{line: 2910, col: 12, offset: 92188},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2910, col: 12, offset: 92186},
+																	pos:        position{line: 2910, col: 12, offset: 92188},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 24, offset: 92198},
+																	pos:        position{line: 2910, col: 24, offset: 92200},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 37, offset: 92211},
+																	pos:        position{line: 2910, col: 37, offset: 92213},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 48, offset: 92222},
+																	pos:        position{line: 2910, col: 48, offset: 92224},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 59, offset: 92233},
+																	pos:        position{line: 2910, col: 59, offset: 92235},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -25159,38 +25159,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2906, col: 44, offset: 92087},
+													pos:   position{line: 2906, col: 44, offset: 92089},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2915, col: 5, offset: 92297},
+														pos: position{line: 2915, col: 5, offset: 92299},
 														run: (*parser).callonExternalLink138,
 														expr: &labeledExpr{
-															pos:   position{line: 2915, col: 5, offset: 92297},
+															pos:   position{line: 2915, col: 5, offset: 92299},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2915, col: 14, offset: 92306},
+																pos: position{line: 2915, col: 14, offset: 92308},
 																expr: &choiceExpr{
-																	pos: position{line: 2916, col: 9, offset: 92316},
+																	pos: position{line: 2916, col: 9, offset: 92318},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2916, col: 9, offset: 92316},
+																			pos: position{line: 2916, col: 9, offset: 92318},
 																			run: (*parser).callonExternalLink142,
 																			expr: &seqExpr{
-																				pos: position{line: 2916, col: 9, offset: 92316},
+																				pos: position{line: 2916, col: 9, offset: 92318},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2916, col: 9, offset: 92316},
+																						pos: position{line: 2916, col: 9, offset: 92318},
 																						expr: &litMatcher{
-																							pos:        position{line: 2916, col: 10, offset: 92317},
+																							pos:        position{line: 2916, col: 10, offset: 92319},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2917, col: 9, offset: 92345},
+																						pos: position{line: 2917, col: 9, offset: 92347},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2917, col: 10, offset: 92346},
+																							pos:        position{line: 2917, col: 10, offset: 92348},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -25201,27 +25201,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2920, col: 11, offset: 92558},
+																			pos: position{line: 2920, col: 11, offset: 92560},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2920, col: 11, offset: 92558},
+																					pos:        position{line: 2920, col: 11, offset: 92560},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2920, col: 19, offset: 92566},
+																					pos: position{line: 2920, col: 19, offset: 92568},
 																					expr: &seqExpr{
-																						pos: position{line: 2920, col: 21, offset: 92568},
+																						pos: position{line: 2920, col: 21, offset: 92570},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2920, col: 21, offset: 92568},
+																								pos: position{line: 2920, col: 21, offset: 92570},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93180},
+																									pos: position{line: 2944, col: 10, offset: 93182},
 																									run: (*parser).callonExternalLink153,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93180},
+																										pos:        position{line: 2944, col: 10, offset: 93182},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -25230,11 +25230,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 28, offset: 92575},
+																								pos: position{line: 2920, col: 28, offset: 92577},
 																								expr: &notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -25244,35 +25244,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 661, col: 5, offset: 21195},
+																			pos: position{line: 661, col: 5, offset: 21197},
 																			run: (*parser).callonExternalLink158,
 																			expr: &seqExpr{
-																				pos: position{line: 661, col: 5, offset: 21195},
+																				pos: position{line: 661, col: 5, offset: 21197},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 661, col: 5, offset: 21195},
+																						pos: position{line: 661, col: 5, offset: 21197},
 																						run: (*parser).callonExternalLink160,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 664, col: 5, offset: 21267},
+																						pos:   position{line: 664, col: 5, offset: 21269},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 664, col: 14, offset: 21276},
+																							pos: position{line: 664, col: 14, offset: 21278},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 670, col: 5, offset: 21405},
+																									pos: position{line: 670, col: 5, offset: 21407},
 																									run: (*parser).callonExternalLink163,
 																									expr: &seqExpr{
-																										pos: position{line: 670, col: 5, offset: 21405},
+																										pos: position{line: 670, col: 5, offset: 21407},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 670, col: 5, offset: 21405},
+																												pos:        position{line: 670, col: 5, offset: 21407},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 670, col: 13, offset: 21413},
+																												pos:   position{line: 670, col: 13, offset: 21415},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -25304,7 +25304,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 670, col: 32, offset: 21432},
+																												pos:        position{line: 670, col: 32, offset: 21434},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -25313,19 +25313,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 677, col: 5, offset: 21673},
+																									pos: position{line: 677, col: 5, offset: 21675},
 																									run: (*parser).callonExternalLink173,
 																									expr: &seqExpr{
-																										pos: position{line: 677, col: 5, offset: 21673},
+																										pos: position{line: 677, col: 5, offset: 21675},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 677, col: 5, offset: 21673},
+																												pos:        position{line: 677, col: 5, offset: 21675},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 677, col: 9, offset: 21677},
+																												pos:   position{line: 677, col: 9, offset: 21679},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -25357,7 +25357,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 677, col: 28, offset: 21696},
+																												pos:        position{line: 677, col: 28, offset: 21698},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -25366,19 +25366,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 683, col: 25, offset: 21877},
+																									pos: position{line: 683, col: 25, offset: 21879},
 																									run: (*parser).callonExternalLink183,
 																									expr: &seqExpr{
-																										pos: position{line: 683, col: 25, offset: 21877},
+																										pos: position{line: 683, col: 25, offset: 21879},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 683, col: 25, offset: 21877},
+																												pos:        position{line: 683, col: 25, offset: 21879},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 683, col: 37, offset: 21889},
+																												pos:   position{line: 683, col: 37, offset: 21891},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -25410,33 +25410,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 683, col: 56, offset: 21908},
+																												pos:   position{line: 683, col: 56, offset: 21910},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 683, col: 62, offset: 21914},
+																													pos: position{line: 683, col: 62, offset: 21916},
 																													expr: &actionExpr{
-																														pos: position{line: 691, col: 17, offset: 22211},
+																														pos: position{line: 691, col: 17, offset: 22213},
 																														run: (*parser).callonExternalLink194,
 																														expr: &seqExpr{
-																															pos: position{line: 691, col: 17, offset: 22211},
+																															pos: position{line: 691, col: 17, offset: 22213},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 691, col: 17, offset: 22211},
+																																	pos:        position{line: 691, col: 17, offset: 22213},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 691, col: 21, offset: 22215},
+																																	pos:   position{line: 691, col: 21, offset: 22217},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 691, col: 28, offset: 22222},
+																																		pos: position{line: 691, col: 28, offset: 22224},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 691, col: 28, offset: 22222},
+																																				pos: position{line: 691, col: 28, offset: 22224},
 																																				run: (*parser).callonExternalLink199,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 691, col: 28, offset: 22222},
+																																					pos:        position{line: 691, col: 28, offset: 22224},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -25444,12 +25444,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 693, col: 9, offset: 22276},
+																																				pos: position{line: 693, col: 9, offset: 22278},
 																																				run: (*parser).callonExternalLink201,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 693, col: 9, offset: 22276},
+																																					pos: position{line: 693, col: 9, offset: 22278},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 693, col: 9, offset: 22276},
+																																						pos:        position{line: 693, col: 9, offset: 22278},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -25466,7 +25466,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 683, col: 78, offset: 21930},
+																												pos:        position{line: 683, col: 78, offset: 21932},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -25475,19 +25475,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 687, col: 25, offset: 22048},
+																									pos: position{line: 687, col: 25, offset: 22050},
 																									run: (*parser).callonExternalLink205,
 																									expr: &seqExpr{
-																										pos: position{line: 687, col: 25, offset: 22048},
+																										pos: position{line: 687, col: 25, offset: 22050},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 687, col: 25, offset: 22048},
+																												pos:        position{line: 687, col: 25, offset: 22050},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 687, col: 38, offset: 22061},
+																												pos:   position{line: 687, col: 38, offset: 22063},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 320, col: 18, offset: 9837},
@@ -25519,33 +25519,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 687, col: 57, offset: 22080},
+																												pos:   position{line: 687, col: 57, offset: 22082},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 687, col: 63, offset: 22086},
+																													pos: position{line: 687, col: 63, offset: 22088},
 																													expr: &actionExpr{
-																														pos: position{line: 691, col: 17, offset: 22211},
+																														pos: position{line: 691, col: 17, offset: 22213},
 																														run: (*parser).callonExternalLink216,
 																														expr: &seqExpr{
-																															pos: position{line: 691, col: 17, offset: 22211},
+																															pos: position{line: 691, col: 17, offset: 22213},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 691, col: 17, offset: 22211},
+																																	pos:        position{line: 691, col: 17, offset: 22213},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 691, col: 21, offset: 22215},
+																																	pos:   position{line: 691, col: 21, offset: 22217},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 691, col: 28, offset: 22222},
+																																		pos: position{line: 691, col: 28, offset: 22224},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 691, col: 28, offset: 22222},
+																																				pos: position{line: 691, col: 28, offset: 22224},
 																																				run: (*parser).callonExternalLink221,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 691, col: 28, offset: 22222},
+																																					pos:        position{line: 691, col: 28, offset: 22224},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -25553,12 +25553,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 693, col: 9, offset: 22276},
+																																				pos: position{line: 693, col: 9, offset: 22278},
 																																				run: (*parser).callonExternalLink223,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 693, col: 9, offset: 22276},
+																																					pos: position{line: 693, col: 9, offset: 22278},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 693, col: 9, offset: 22276},
+																																						pos:        position{line: 693, col: 9, offset: 22278},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -25575,7 +25575,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 687, col: 79, offset: 22102},
+																												pos:        position{line: 687, col: 79, offset: 22104},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -25590,27 +25590,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1223, col: 23, offset: 38060},
+																			pos: position{line: 1223, col: 23, offset: 38062},
 																			run: (*parser).callonExternalLink227,
 																			expr: &seqExpr{
-																				pos: position{line: 1223, col: 23, offset: 38060},
+																				pos: position{line: 1223, col: 23, offset: 38062},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1221, col: 32, offset: 38028},
+																						pos:        position{line: 1221, col: 32, offset: 38030},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1223, col: 51, offset: 38088},
+																						pos:   position{line: 1223, col: 51, offset: 38090},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1223, col: 56, offset: 38093},
+																							pos: position{line: 1223, col: 56, offset: 38095},
 																							run: (*parser).callonExternalLink231,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1223, col: 56, offset: 38093},
+																								pos: position{line: 1223, col: 56, offset: 38095},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1223, col: 56, offset: 38093},
+																									pos:        position{line: 1223, col: 56, offset: 38095},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -25620,23 +25620,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1221, col: 32, offset: 38028},
+																						pos:        position{line: 1221, col: 32, offset: 38030},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1223, col: 123, offset: 38160},
+																						pos: position{line: 1223, col: 123, offset: 38162},
 																						run: (*parser).callonExternalLink235,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2923, col: 11, offset: 92695},
+																			pos: position{line: 2923, col: 11, offset: 92697},
 																			run: (*parser).callonExternalLink236,
 																			expr: &litMatcher{
-																				pos:        position{line: 2923, col: 11, offset: 92695},
+																				pos:        position{line: 2923, col: 11, offset: 92697},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25653,12 +25653,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1466, col: 30, offset: 47578},
+									pos:   position{line: 1466, col: 30, offset: 47580},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1466, col: 41, offset: 47589},
+										pos: position{line: 1466, col: 41, offset: 47591},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1466, col: 42, offset: 47590},
+											pos:  position{line: 1466, col: 42, offset: 47592},
 											name: "InlineAttributes",
 										},
 									},
@@ -25671,41 +25671,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1500, col: 1, offset: 48785},
+			pos:  position{line: 1500, col: 1, offset: 48787},
 			expr: &actionExpr{
-				pos: position{line: 1501, col: 5, offset: 48806},
+				pos: position{line: 1501, col: 5, offset: 48808},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1501, col: 5, offset: 48806},
+					pos: position{line: 1501, col: 5, offset: 48808},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1501, col: 5, offset: 48806},
+							pos:   position{line: 1501, col: 5, offset: 48808},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1507, col: 5, offset: 49008},
+								pos: position{line: 1507, col: 5, offset: 49010},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1601, col: 5, offset: 51976},
+										pos: position{line: 1601, col: 5, offset: 51978},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1601, col: 5, offset: 51976},
+											pos: position{line: 1601, col: 5, offset: 51978},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1601, col: 5, offset: 51976},
+													pos:   position{line: 1601, col: 5, offset: 51978},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1608, col: 5, offset: 52184},
+														pos: position{line: 1608, col: 5, offset: 52186},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1608, col: 5, offset: 52184},
+															pos: position{line: 1608, col: 5, offset: 52186},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1608, col: 5, offset: 52184},
+																	pos: position{line: 1608, col: 5, offset: 52186},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93180},
+																		pos: position{line: 2944, col: 10, offset: 93182},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93180},
+																			pos:        position{line: 2944, col: 10, offset: 93182},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25714,27 +25714,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1608, col: 12, offset: 52191},
+																	pos:   position{line: 1608, col: 12, offset: 52193},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1610, col: 9, offset: 52254},
+																		pos: position{line: 1610, col: 9, offset: 52256},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1610, col: 9, offset: 52254},
+																				pos: position{line: 1610, col: 9, offset: 52256},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 9, offset: 52254},
+																					pos: position{line: 1610, col: 9, offset: 52256},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1610, col: 9, offset: 52254},
+																							pos:   position{line: 1610, col: 9, offset: 52256},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1610, col: 16, offset: 52261},
+																								pos: position{line: 1610, col: 16, offset: 52263},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1610, col: 16, offset: 52261},
+																									pos: position{line: 1610, col: 16, offset: 52263},
 																									expr: &litMatcher{
-																										pos:        position{line: 1610, col: 17, offset: 52262},
+																										pos:        position{line: 1610, col: 17, offset: 52264},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -25743,22 +25743,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1614, col: 9, offset: 52362},
+																							pos: position{line: 1614, col: 9, offset: 52364},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1633, col: 11, offset: 53079},
+																				pos: position{line: 1633, col: 11, offset: 53081},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1633, col: 11, offset: 53079},
+																					pos: position{line: 1633, col: 11, offset: 53081},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1633, col: 11, offset: 53079},
+																							pos: position{line: 1633, col: 11, offset: 53081},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1633, col: 12, offset: 53080},
+																								pos:        position{line: 1633, col: 12, offset: 53082},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -25766,7 +25766,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1633, col: 20, offset: 53088},
+																							pos:        position{line: 1633, col: 20, offset: 53090},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25775,20 +25775,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1635, col: 13, offset: 53205},
+																				pos: position{line: 1635, col: 13, offset: 53207},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1635, col: 13, offset: 53205},
+																					pos: position{line: 1635, col: 13, offset: 53207},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1635, col: 14, offset: 53206},
+																							pos:        position{line: 1635, col: 14, offset: 53208},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1635, col: 21, offset: 53213},
+																							pos:        position{line: 1635, col: 21, offset: 53215},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25797,20 +25797,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1637, col: 13, offset: 53333},
+																				pos: position{line: 1637, col: 13, offset: 53335},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1637, col: 13, offset: 53333},
+																					pos: position{line: 1637, col: 13, offset: 53335},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1637, col: 14, offset: 53334},
+																							pos:        position{line: 1637, col: 14, offset: 53336},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1637, col: 21, offset: 53341},
+																							pos:        position{line: 1637, col: 21, offset: 53343},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25819,15 +25819,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1639, col: 13, offset: 53461},
+																				pos: position{line: 1639, col: 13, offset: 53463},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1639, col: 13, offset: 53461},
+																					pos: position{line: 1639, col: 13, offset: 53463},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1639, col: 13, offset: 53461},
+																							pos: position{line: 1639, col: 13, offset: 53463},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1639, col: 14, offset: 53462},
+																								pos:        position{line: 1639, col: 14, offset: 53464},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -25835,7 +25835,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1639, col: 26, offset: 53474},
+																							pos:        position{line: 1639, col: 26, offset: 53476},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25844,15 +25844,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1641, col: 13, offset: 53594},
+																				pos: position{line: 1641, col: 13, offset: 53596},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1641, col: 13, offset: 53594},
+																					pos: position{line: 1641, col: 13, offset: 53596},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1641, col: 13, offset: 53594},
+																							pos: position{line: 1641, col: 13, offset: 53596},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1641, col: 14, offset: 53595},
+																								pos:        position{line: 1641, col: 14, offset: 53597},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -25860,7 +25860,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1641, col: 26, offset: 53607},
+																							pos:        position{line: 1641, col: 26, offset: 53609},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25872,12 +25872,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2948, col: 11, offset: 93241},
+																	pos: position{line: 2948, col: 11, offset: 93243},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2948, col: 11, offset: 93241},
+																		pos: position{line: 2948, col: 11, offset: 93243},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2948, col: 11, offset: 93241},
+																			pos:        position{line: 2948, col: 11, offset: 93243},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25890,26 +25890,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1602, col: 5, offset: 52015},
+													pos:   position{line: 1602, col: 5, offset: 52017},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1548, col: 5, offset: 50448},
+														pos: position{line: 1548, col: 5, offset: 50450},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1548, col: 5, offset: 50448},
+															pos: position{line: 1548, col: 5, offset: 50450},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1548, col: 5, offset: 50448},
+																	pos:   position{line: 1548, col: 5, offset: 50450},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1548, col: 14, offset: 50457},
+																		pos: position{line: 1548, col: 14, offset: 50459},
 																		expr: &actionExpr{
-																			pos: position{line: 1548, col: 15, offset: 50458},
+																			pos: position{line: 1548, col: 15, offset: 50460},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1548, col: 15, offset: 50458},
+																				pos: position{line: 1548, col: 15, offset: 50460},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1548, col: 15, offset: 50458},
+																					pos:        position{line: 1548, col: 15, offset: 50460},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25920,28 +25920,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93578},
+																	pos: position{line: 2966, col: 8, offset: 93580},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93351},
+																			pos: position{line: 2953, col: 12, offset: 93353},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93352},
+																				pos: position{line: 2953, col: 13, offset: 93354},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93352},
+																						pos:        position{line: 2953, col: 13, offset: 93354},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93359},
+																						pos:        position{line: 2953, col: 20, offset: 93361},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93368},
+																						pos:        position{line: 2953, col: 29, offset: 93370},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25950,9 +25950,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93528},
+																			pos: position{line: 2963, col: 8, offset: 93530},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93529,
+																				line: 2963, col: 9, offset: 93531,
 																			},
 																		},
 																	},
@@ -25965,27 +25965,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1651, col: 5, offset: 53873},
+										pos: position{line: 1651, col: 5, offset: 53875},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1651, col: 5, offset: 53873},
+											pos: position{line: 1651, col: 5, offset: 53875},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1651, col: 5, offset: 53873},
+													pos:   position{line: 1651, col: 5, offset: 53875},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1658, col: 5, offset: 54146},
+														pos: position{line: 1658, col: 5, offset: 54148},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1658, col: 5, offset: 54146},
+															pos: position{line: 1658, col: 5, offset: 54148},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1658, col: 5, offset: 54146},
+																	pos: position{line: 1658, col: 5, offset: 54148},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93180},
+																		pos: position{line: 2944, col: 10, offset: 93182},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93180},
+																			pos:        position{line: 2944, col: 10, offset: 93182},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25994,24 +25994,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1659, col: 5, offset: 54158},
+																	pos:   position{line: 1659, col: 5, offset: 54160},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1660, col: 9, offset: 54174},
+																		pos: position{line: 1660, col: 9, offset: 54176},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1660, col: 10, offset: 54175},
+																			pos: position{line: 1660, col: 10, offset: 54177},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1660, col: 11, offset: 54176},
+																					pos:        position{line: 1660, col: 11, offset: 54178},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1660, col: 18, offset: 54183},
+																					pos: position{line: 1660, col: 18, offset: 54185},
 																					expr: &litMatcher{
-																						pos:        position{line: 1660, col: 19, offset: 54184},
+																						pos:        position{line: 1660, col: 19, offset: 54186},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -26022,16 +26022,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1663, col: 7, offset: 54274},
+																	pos: position{line: 1663, col: 7, offset: 54276},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2948, col: 11, offset: 93241},
+																	pos: position{line: 2948, col: 11, offset: 93243},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2948, col: 11, offset: 93241},
+																		pos: position{line: 2948, col: 11, offset: 93243},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2948, col: 11, offset: 93241},
+																			pos:        position{line: 2948, col: 11, offset: 93243},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26044,56 +26044,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1652, col: 5, offset: 53914},
+													pos:   position{line: 1652, col: 5, offset: 53916},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1652, col: 16, offset: 53925},
+														pos: position{line: 1652, col: 16, offset: 53927},
 														expr: &actionExpr{
-															pos: position{line: 1673, col: 5, offset: 54539},
+															pos: position{line: 1673, col: 5, offset: 54541},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1673, col: 5, offset: 54539},
+																pos: position{line: 1673, col: 5, offset: 54541},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1673, col: 5, offset: 54539},
+																		pos: position{line: 1673, col: 5, offset: 54541},
 																		expr: &litMatcher{
-																			pos:        position{line: 1673, col: 6, offset: 54540},
+																			pos:        position{line: 1673, col: 6, offset: 54542},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1673, col: 10, offset: 54544},
+																		pos:   position{line: 1673, col: 10, offset: 54546},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1674, col: 7, offset: 54558},
+																			pos: position{line: 1674, col: 7, offset: 54560},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1674, col: 7, offset: 54558},
+																					pos: position{line: 1674, col: 7, offset: 54560},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1674, col: 7, offset: 54558},
+																						pos:        position{line: 1674, col: 7, offset: 54560},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1675, col: 7, offset: 54603},
+																					pos: position{line: 1675, col: 7, offset: 54605},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1675, col: 7, offset: 54603},
+																						pos:        position{line: 1675, col: 7, offset: 54605},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1676, col: 7, offset: 54646},
+																					pos: position{line: 1676, col: 7, offset: 54648},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1676, col: 7, offset: 54646},
+																						pos:        position{line: 1676, col: 7, offset: 54648},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -26103,12 +26103,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2948, col: 11, offset: 93241},
+																		pos: position{line: 2948, col: 11, offset: 93243},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2948, col: 11, offset: 93241},
+																			pos: position{line: 2948, col: 11, offset: 93243},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2948, col: 11, offset: 93241},
+																				pos:        position{line: 2948, col: 11, offset: 93243},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -26122,26 +26122,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1653, col: 5, offset: 53964},
+													pos:   position{line: 1653, col: 5, offset: 53966},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1548, col: 5, offset: 50448},
+														pos: position{line: 1548, col: 5, offset: 50450},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1548, col: 5, offset: 50448},
+															pos: position{line: 1548, col: 5, offset: 50450},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1548, col: 5, offset: 50448},
+																	pos:   position{line: 1548, col: 5, offset: 50450},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1548, col: 14, offset: 50457},
+																		pos: position{line: 1548, col: 14, offset: 50459},
 																		expr: &actionExpr{
-																			pos: position{line: 1548, col: 15, offset: 50458},
+																			pos: position{line: 1548, col: 15, offset: 50460},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1548, col: 15, offset: 50458},
+																				pos: position{line: 1548, col: 15, offset: 50460},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1548, col: 15, offset: 50458},
+																					pos:        position{line: 1548, col: 15, offset: 50460},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -26152,28 +26152,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93578},
+																	pos: position{line: 2966, col: 8, offset: 93580},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93351},
+																			pos: position{line: 2953, col: 12, offset: 93353},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93352},
+																				pos: position{line: 2953, col: 13, offset: 93354},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93352},
+																						pos:        position{line: 2953, col: 13, offset: 93354},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93359},
+																						pos:        position{line: 2953, col: 20, offset: 93361},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93368},
+																						pos:        position{line: 2953, col: 29, offset: 93370},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26182,9 +26182,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93528},
+																			pos: position{line: 2963, col: 8, offset: 93530},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93529,
+																				line: 2963, col: 9, offset: 93531,
 																			},
 																		},
 																	},
@@ -26197,36 +26197,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1742, col: 5, offset: 56518},
+										pos: position{line: 1742, col: 5, offset: 56520},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1742, col: 5, offset: 56518},
+											pos: position{line: 1742, col: 5, offset: 56520},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1742, col: 5, offset: 56518},
+													pos:   position{line: 1742, col: 5, offset: 56520},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1748, col: 5, offset: 56715},
+														pos: position{line: 1748, col: 5, offset: 56717},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1748, col: 5, offset: 56715},
+															pos: position{line: 1748, col: 5, offset: 56717},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1748, col: 5, offset: 56715},
+																	pos:        position{line: 1748, col: 5, offset: 56717},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1748, col: 9, offset: 56719},
+																	pos:   position{line: 1748, col: 9, offset: 56721},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1748, col: 14, offset: 56724},
+																		pos: position{line: 1748, col: 14, offset: 56726},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1748, col: 14, offset: 56724},
+																			pos: position{line: 1748, col: 14, offset: 56726},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1748, col: 14, offset: 56724},
+																				pos:        position{line: 1748, col: 14, offset: 56726},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -26236,18 +26236,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1748, col: 62, offset: 56772},
+																	pos:        position{line: 1748, col: 62, offset: 56774},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2948, col: 11, offset: 93241},
+																	pos: position{line: 2948, col: 11, offset: 93243},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2948, col: 11, offset: 93241},
+																		pos: position{line: 2948, col: 11, offset: 93243},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2948, col: 11, offset: 93241},
+																			pos:        position{line: 2948, col: 11, offset: 93243},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26260,26 +26260,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1743, col: 5, offset: 56554},
+													pos:   position{line: 1743, col: 5, offset: 56556},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1548, col: 5, offset: 50448},
+														pos: position{line: 1548, col: 5, offset: 50450},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1548, col: 5, offset: 50448},
+															pos: position{line: 1548, col: 5, offset: 50450},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1548, col: 5, offset: 50448},
+																	pos:   position{line: 1548, col: 5, offset: 50450},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1548, col: 14, offset: 50457},
+																		pos: position{line: 1548, col: 14, offset: 50459},
 																		expr: &actionExpr{
-																			pos: position{line: 1548, col: 15, offset: 50458},
+																			pos: position{line: 1548, col: 15, offset: 50460},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1548, col: 15, offset: 50458},
+																				pos: position{line: 1548, col: 15, offset: 50460},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1548, col: 15, offset: 50458},
+																					pos:        position{line: 1548, col: 15, offset: 50460},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -26290,28 +26290,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93578},
+																	pos: position{line: 2966, col: 8, offset: 93580},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93351},
+																			pos: position{line: 2953, col: 12, offset: 93353},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93352},
+																				pos: position{line: 2953, col: 13, offset: 93354},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93352},
+																						pos:        position{line: 2953, col: 13, offset: 93354},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93359},
+																						pos:        position{line: 2953, col: 20, offset: 93361},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93368},
+																						pos:        position{line: 2953, col: 29, offset: 93370},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26320,9 +26320,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93528},
+																			pos: position{line: 2963, col: 8, offset: 93530},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93529,
+																				line: 2963, col: 9, offset: 93531,
 																			},
 																		},
 																	},
@@ -26335,35 +26335,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1685, col: 5, offset: 54839},
+										pos: position{line: 1685, col: 5, offset: 54841},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1685, col: 5, offset: 54839},
+											pos: position{line: 1685, col: 5, offset: 54841},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1685, col: 5, offset: 54839},
+													pos:   position{line: 1685, col: 5, offset: 54841},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1693, col: 5, offset: 55165},
+														pos: position{line: 1693, col: 5, offset: 55167},
 														run: (*parser).callonListElements148,
 														expr: &seqExpr{
-															pos: position{line: 1693, col: 5, offset: 55165},
+															pos: position{line: 1693, col: 5, offset: 55167},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1693, col: 5, offset: 55165},
+																	pos: position{line: 1693, col: 5, offset: 55167},
 																	expr: &seqExpr{
-																		pos: position{line: 2543, col: 31, offset: 81990},
+																		pos: position{line: 2543, col: 31, offset: 81992},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2543, col: 31, offset: 81990},
+																				pos:        position{line: 2543, col: 31, offset: 81992},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2543, col: 36, offset: 81995},
+																				pos: position{line: 2543, col: 36, offset: 81997},
 																				expr: &litMatcher{
-																					pos:        position{line: 2543, col: 37, offset: 81996},
+																					pos:        position{line: 2543, col: 37, offset: 81998},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -26373,28 +26373,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1694, col: 5, offset: 55197},
+																	pos: position{line: 1694, col: 5, offset: 55199},
 																	expr: &seqExpr{
-																		pos: position{line: 1694, col: 6, offset: 55198},
+																		pos: position{line: 1694, col: 6, offset: 55200},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1694, col: 6, offset: 55198},
+																				pos: position{line: 1694, col: 6, offset: 55200},
 																				expr: &actionExpr{
-																					pos: position{line: 1699, col: 5, offset: 55348},
+																					pos: position{line: 1699, col: 5, offset: 55350},
 																					run: (*parser).callonListElements158,
 																					expr: &seqExpr{
-																						pos: position{line: 1699, col: 5, offset: 55348},
+																						pos: position{line: 1699, col: 5, offset: 55350},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1699, col: 5, offset: 55348},
+																								pos:   position{line: 1699, col: 5, offset: 55350},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1699, col: 16, offset: 55359},
+																									pos: position{line: 1699, col: 16, offset: 55361},
 																									run: (*parser).callonListElements161,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1699, col: 16, offset: 55359},
+																										pos: position{line: 1699, col: 16, offset: 55361},
 																										expr: &litMatcher{
-																											pos:        position{line: 1699, col: 17, offset: 55360},
+																											pos:        position{line: 1699, col: 17, offset: 55362},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -26403,7 +26403,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1702, col: 5, offset: 55417},
+																								pos: position{line: 1702, col: 5, offset: 55419},
 																								run: (*parser).callonListElements164,
 																							},
 																						},
@@ -26411,30 +26411,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1694, col: 35, offset: 55227},
+																				pos: position{line: 1694, col: 35, offset: 55229},
 																				expr: &choiceExpr{
-																					pos: position{line: 2966, col: 8, offset: 93578},
+																					pos: position{line: 2966, col: 8, offset: 93580},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2953, col: 12, offset: 93351},
+																							pos: position{line: 2953, col: 12, offset: 93353},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2953, col: 13, offset: 93352},
+																								pos: position{line: 2953, col: 13, offset: 93354},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 13, offset: 93352},
+																										pos:        position{line: 2953, col: 13, offset: 93354},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 20, offset: 93359},
+																										pos:        position{line: 2953, col: 20, offset: 93361},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 29, offset: 93368},
+																										pos:        position{line: 2953, col: 29, offset: 93370},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -26443,16 +26443,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93528},
+																							pos: position{line: 2963, col: 8, offset: 93530},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93529,
+																								line: 2963, col: 9, offset: 93531,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1694, col: 40, offset: 55232,
+																				line: 1694, col: 40, offset: 55234,
 																			},
 																		},
 																	},
@@ -26462,24 +26462,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1686, col: 5, offset: 54874},
+													pos:   position{line: 1686, col: 5, offset: 54876},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1699, col: 5, offset: 55348},
+														pos: position{line: 1699, col: 5, offset: 55350},
 														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1699, col: 5, offset: 55348},
+															pos: position{line: 1699, col: 5, offset: 55350},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1699, col: 5, offset: 55348},
+																	pos:   position{line: 1699, col: 5, offset: 55350},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1699, col: 16, offset: 55359},
+																		pos: position{line: 1699, col: 16, offset: 55361},
 																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1699, col: 16, offset: 55359},
+																			pos: position{line: 1699, col: 16, offset: 55361},
 																			expr: &litMatcher{
-																				pos:        position{line: 1699, col: 17, offset: 55360},
+																				pos:        position{line: 1699, col: 17, offset: 55362},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -26488,7 +26488,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1702, col: 5, offset: 55417},
+																	pos: position{line: 1702, col: 5, offset: 55419},
 																	run: (*parser).callonListElements182,
 																},
 															},
@@ -26496,24 +26496,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1687, col: 5, offset: 54919},
+													pos:   position{line: 1687, col: 5, offset: 54921},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1710, col: 5, offset: 55666},
+														pos: position{line: 1710, col: 5, offset: 55668},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1712, col: 9, offset: 55732},
+																pos: position{line: 1712, col: 9, offset: 55734},
 																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1712, col: 9, offset: 55732},
+																	pos: position{line: 1712, col: 9, offset: 55734},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1712, col: 9, offset: 55732},
+																			pos: position{line: 1712, col: 9, offset: 55734},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93180},
+																				pos: position{line: 2944, col: 10, offset: 93182},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93180},
+																					pos:        position{line: 2944, col: 10, offset: 93182},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26522,28 +26522,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93578},
+																			pos: position{line: 2966, col: 8, offset: 93580},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93351},
+																					pos: position{line: 2953, col: 12, offset: 93353},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93352},
+																						pos: position{line: 2953, col: 13, offset: 93354},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93352},
+																								pos:        position{line: 2953, col: 13, offset: 93354},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93359},
+																								pos:        position{line: 2953, col: 20, offset: 93361},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93368},
+																								pos:        position{line: 2953, col: 29, offset: 93370},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26552,34 +26552,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1713, col: 9, offset: 55751},
+																			pos: position{line: 1713, col: 9, offset: 55753},
 																			expr: &actionExpr{
-																				pos: position{line: 702, col: 14, offset: 22577},
+																				pos: position{line: 702, col: 14, offset: 22579},
 																				run: (*parser).callonListElements199,
 																				expr: &seqExpr{
-																					pos: position{line: 702, col: 14, offset: 22577},
+																					pos: position{line: 702, col: 14, offset: 22579},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2961, col: 11, offset: 93514},
+																							pos: position{line: 2961, col: 11, offset: 93516},
 																							expr: &anyMatcher{
-																								line: 2961, col: 13, offset: 93516,
+																								line: 2961, col: 13, offset: 93518,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 702, col: 21, offset: 22584},
+																							pos: position{line: 702, col: 21, offset: 22586},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93180},
+																								pos: position{line: 2944, col: 10, offset: 93182},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93180},
+																									pos:        position{line: 2944, col: 10, offset: 93182},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26588,28 +26588,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26618,9 +26618,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -26633,18 +26633,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1719, col: 9, offset: 55880},
+																pos: position{line: 1719, col: 9, offset: 55882},
 																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1719, col: 9, offset: 55880},
+																	pos: position{line: 1719, col: 9, offset: 55882},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2948, col: 11, offset: 93241},
+																			pos: position{line: 2948, col: 11, offset: 93243},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2948, col: 11, offset: 93241},
+																				pos: position{line: 2948, col: 11, offset: 93243},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2948, col: 11, offset: 93241},
+																					pos:        position{line: 2948, col: 11, offset: 93243},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26653,15 +26653,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1720, col: 9, offset: 55953},
+																			pos:   position{line: 1720, col: 9, offset: 55955},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1720, col: 18, offset: 55962},
+																				pos: position{line: 1720, col: 18, offset: 55964},
 																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1720, col: 18, offset: 55962},
+																					pos: position{line: 1720, col: 18, offset: 55964},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1720, col: 18, offset: 55962},
+																						pos:        position{line: 1720, col: 18, offset: 55964},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -26671,28 +26671,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93578},
+																			pos: position{line: 2966, col: 8, offset: 93580},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93351},
+																					pos: position{line: 2953, col: 12, offset: 93353},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93352},
+																						pos: position{line: 2953, col: 13, offset: 93354},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93352},
+																								pos:        position{line: 2953, col: 13, offset: 93354},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93359},
+																								pos:        position{line: 2953, col: 20, offset: 93361},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93368},
+																								pos:        position{line: 2953, col: 29, offset: 93370},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26701,9 +26701,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
@@ -26721,10 +26721,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1502, col: 5, offset: 48837},
+							pos:   position{line: 1502, col: 5, offset: 48839},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1502, col: 20, offset: 48852},
+								pos:  position{line: 1502, col: 20, offset: 48854},
 								name: "ExtraListElements",
 							},
 						},
@@ -26734,17 +26734,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1512, col: 1, offset: 49107},
+			pos:  position{line: 1512, col: 1, offset: 49109},
 			expr: &actionExpr{
-				pos: position{line: 1512, col: 22, offset: 49128},
+				pos: position{line: 1512, col: 22, offset: 49130},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1512, col: 22, offset: 49128},
+					pos:   position{line: 1512, col: 22, offset: 49130},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1512, col: 31, offset: 49137},
+						pos: position{line: 1512, col: 31, offset: 49139},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1512, col: 32, offset: 49138},
+							pos:  position{line: 1512, col: 32, offset: 49140},
 							name: "ExtraListElement",
 						},
 					},
@@ -26753,52 +26753,52 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1516, col: 1, offset: 49218},
+			pos:  position{line: 1516, col: 1, offset: 49220},
 			expr: &actionExpr{
-				pos: position{line: 1517, col: 5, offset: 49357},
+				pos: position{line: 1517, col: 5, offset: 49359},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1517, col: 5, offset: 49357},
+					pos: position{line: 1517, col: 5, offset: 49359},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2961, col: 11, offset: 93514},
+							pos: position{line: 2961, col: 11, offset: 93516},
 							expr: &anyMatcher{
-								line: 2961, col: 13, offset: 93516,
+								line: 2961, col: 13, offset: 93518,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1518, col: 5, offset: 49369},
+							pos:   position{line: 1518, col: 5, offset: 49371},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1519, col: 9, offset: 49387},
+								pos: position{line: 1519, col: 9, offset: 49389},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1519, col: 13, offset: 49391},
+										pos: position{line: 1519, col: 13, offset: 49393},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1519, col: 13, offset: 49391},
+											pos: position{line: 1519, col: 13, offset: 49393},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1519, col: 13, offset: 49391},
+													pos: position{line: 1519, col: 13, offset: 49393},
 													expr: &actionExpr{
-														pos: position{line: 702, col: 14, offset: 22577},
+														pos: position{line: 702, col: 14, offset: 22579},
 														run: (*parser).callonExtraListElement10,
 														expr: &seqExpr{
-															pos: position{line: 702, col: 14, offset: 22577},
+															pos: position{line: 702, col: 14, offset: 22579},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2961, col: 11, offset: 93514},
+																	pos: position{line: 2961, col: 11, offset: 93516},
 																	expr: &anyMatcher{
-																		line: 2961, col: 13, offset: 93516,
+																		line: 2961, col: 13, offset: 93518,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 702, col: 21, offset: 22584},
+																	pos: position{line: 702, col: 21, offset: 22586},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93180},
+																		pos: position{line: 2944, col: 10, offset: 93182},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93180},
+																			pos:        position{line: 2944, col: 10, offset: 93182},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26807,28 +26807,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93578},
+																	pos: position{line: 2966, col: 8, offset: 93580},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93351},
+																			pos: position{line: 2953, col: 12, offset: 93353},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93352},
+																				pos: position{line: 2953, col: 13, offset: 93354},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93352},
+																						pos:        position{line: 2953, col: 13, offset: 93354},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93359},
+																						pos:        position{line: 2953, col: 20, offset: 93361},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93368},
+																						pos:        position{line: 2953, col: 29, offset: 93370},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26837,9 +26837,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93528},
+																			pos: position{line: 2963, col: 8, offset: 93530},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93529,
+																				line: 2963, col: 9, offset: 93531,
 																			},
 																		},
 																	},
@@ -26849,33 +26849,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1520, col: 13, offset: 49415},
+													pos:   position{line: 1520, col: 13, offset: 49417},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1520, col: 22, offset: 49424},
+														pos: position{line: 1520, col: 22, offset: 49426},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1601, col: 5, offset: 51976},
+																pos: position{line: 1601, col: 5, offset: 51978},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1601, col: 5, offset: 51976},
+																	pos: position{line: 1601, col: 5, offset: 51978},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1601, col: 5, offset: 51976},
+																			pos:   position{line: 1601, col: 5, offset: 51978},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1608, col: 5, offset: 52184},
+																				pos: position{line: 1608, col: 5, offset: 52186},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 5, offset: 52184},
+																					pos: position{line: 1608, col: 5, offset: 52186},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1608, col: 5, offset: 52184},
+																							pos: position{line: 1608, col: 5, offset: 52186},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93180},
+																								pos: position{line: 2944, col: 10, offset: 93182},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93180},
+																									pos:        position{line: 2944, col: 10, offset: 93182},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26884,27 +26884,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1608, col: 12, offset: 52191},
+																							pos:   position{line: 1608, col: 12, offset: 52193},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1610, col: 9, offset: 52254},
+																								pos: position{line: 1610, col: 9, offset: 52256},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1610, col: 9, offset: 52254},
+																										pos: position{line: 1610, col: 9, offset: 52256},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 9, offset: 52254},
+																											pos: position{line: 1610, col: 9, offset: 52256},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1610, col: 9, offset: 52254},
+																													pos:   position{line: 1610, col: 9, offset: 52256},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1610, col: 16, offset: 52261},
+																														pos: position{line: 1610, col: 16, offset: 52263},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1610, col: 16, offset: 52261},
+																															pos: position{line: 1610, col: 16, offset: 52263},
 																															expr: &litMatcher{
-																																pos:        position{line: 1610, col: 17, offset: 52262},
+																																pos:        position{line: 1610, col: 17, offset: 52264},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26913,22 +26913,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1614, col: 9, offset: 52362},
+																													pos: position{line: 1614, col: 9, offset: 52364},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1633, col: 11, offset: 53079},
+																										pos: position{line: 1633, col: 11, offset: 53081},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1633, col: 11, offset: 53079},
+																											pos: position{line: 1633, col: 11, offset: 53081},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1633, col: 11, offset: 53079},
+																													pos: position{line: 1633, col: 11, offset: 53081},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1633, col: 12, offset: 53080},
+																														pos:        position{line: 1633, col: 12, offset: 53082},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26936,7 +26936,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1633, col: 20, offset: 53088},
+																													pos:        position{line: 1633, col: 20, offset: 53090},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26945,20 +26945,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1635, col: 13, offset: 53205},
+																										pos: position{line: 1635, col: 13, offset: 53207},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1635, col: 13, offset: 53205},
+																											pos: position{line: 1635, col: 13, offset: 53207},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1635, col: 14, offset: 53206},
+																													pos:        position{line: 1635, col: 14, offset: 53208},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1635, col: 21, offset: 53213},
+																													pos:        position{line: 1635, col: 21, offset: 53215},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26967,20 +26967,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1637, col: 13, offset: 53333},
+																										pos: position{line: 1637, col: 13, offset: 53335},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1637, col: 13, offset: 53333},
+																											pos: position{line: 1637, col: 13, offset: 53335},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1637, col: 14, offset: 53334},
+																													pos:        position{line: 1637, col: 14, offset: 53336},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1637, col: 21, offset: 53341},
+																													pos:        position{line: 1637, col: 21, offset: 53343},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26989,15 +26989,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1639, col: 13, offset: 53461},
+																										pos: position{line: 1639, col: 13, offset: 53463},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1639, col: 13, offset: 53461},
+																											pos: position{line: 1639, col: 13, offset: 53463},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1639, col: 13, offset: 53461},
+																													pos: position{line: 1639, col: 13, offset: 53463},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1639, col: 14, offset: 53462},
+																														pos:        position{line: 1639, col: 14, offset: 53464},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27005,7 +27005,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1639, col: 26, offset: 53474},
+																													pos:        position{line: 1639, col: 26, offset: 53476},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27014,15 +27014,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1641, col: 13, offset: 53594},
+																										pos: position{line: 1641, col: 13, offset: 53596},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1641, col: 13, offset: 53594},
+																											pos: position{line: 1641, col: 13, offset: 53596},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1641, col: 13, offset: 53594},
+																													pos: position{line: 1641, col: 13, offset: 53596},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1641, col: 14, offset: 53595},
+																														pos:        position{line: 1641, col: 14, offset: 53597},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27030,7 +27030,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1641, col: 26, offset: 53607},
+																													pos:        position{line: 1641, col: 26, offset: 53609},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27042,12 +27042,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2948, col: 11, offset: 93241},
+																							pos: position{line: 2948, col: 11, offset: 93243},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2948, col: 11, offset: 93241},
+																								pos: position{line: 2948, col: 11, offset: 93243},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2948, col: 11, offset: 93241},
+																									pos:        position{line: 2948, col: 11, offset: 93243},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27060,26 +27060,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1602, col: 5, offset: 52015},
+																			pos:   position{line: 1602, col: 5, offset: 52017},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1548, col: 5, offset: 50448},
+																				pos: position{line: 1548, col: 5, offset: 50450},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1548, col: 5, offset: 50448},
+																					pos: position{line: 1548, col: 5, offset: 50450},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1548, col: 5, offset: 50448},
+																							pos:   position{line: 1548, col: 5, offset: 50450},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1548, col: 14, offset: 50457},
+																								pos: position{line: 1548, col: 14, offset: 50459},
 																								expr: &actionExpr{
-																									pos: position{line: 1548, col: 15, offset: 50458},
+																									pos: position{line: 1548, col: 15, offset: 50460},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1548, col: 15, offset: 50458},
+																										pos: position{line: 1548, col: 15, offset: 50460},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1548, col: 15, offset: 50458},
+																											pos:        position{line: 1548, col: 15, offset: 50460},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27090,28 +27090,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27120,9 +27120,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -27135,27 +27135,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1651, col: 5, offset: 53873},
+																pos: position{line: 1651, col: 5, offset: 53875},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1651, col: 5, offset: 53873},
+																	pos: position{line: 1651, col: 5, offset: 53875},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1651, col: 5, offset: 53873},
+																			pos:   position{line: 1651, col: 5, offset: 53875},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1658, col: 5, offset: 54146},
+																				pos: position{line: 1658, col: 5, offset: 54148},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1658, col: 5, offset: 54146},
+																					pos: position{line: 1658, col: 5, offset: 54148},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1658, col: 5, offset: 54146},
+																							pos: position{line: 1658, col: 5, offset: 54148},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93180},
+																								pos: position{line: 2944, col: 10, offset: 93182},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93180},
+																									pos:        position{line: 2944, col: 10, offset: 93182},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27164,24 +27164,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1659, col: 5, offset: 54158},
+																							pos:   position{line: 1659, col: 5, offset: 54160},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1660, col: 9, offset: 54174},
+																								pos: position{line: 1660, col: 9, offset: 54176},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1660, col: 10, offset: 54175},
+																									pos: position{line: 1660, col: 10, offset: 54177},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1660, col: 11, offset: 54176},
+																											pos:        position{line: 1660, col: 11, offset: 54178},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1660, col: 18, offset: 54183},
+																											pos: position{line: 1660, col: 18, offset: 54185},
 																											expr: &litMatcher{
-																												pos:        position{line: 1660, col: 19, offset: 54184},
+																												pos:        position{line: 1660, col: 19, offset: 54186},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27192,16 +27192,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1663, col: 7, offset: 54274},
+																							pos: position{line: 1663, col: 7, offset: 54276},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2948, col: 11, offset: 93241},
+																							pos: position{line: 2948, col: 11, offset: 93243},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2948, col: 11, offset: 93241},
+																								pos: position{line: 2948, col: 11, offset: 93243},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2948, col: 11, offset: 93241},
+																									pos:        position{line: 2948, col: 11, offset: 93243},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27214,56 +27214,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1652, col: 5, offset: 53914},
+																			pos:   position{line: 1652, col: 5, offset: 53916},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1652, col: 16, offset: 53925},
+																				pos: position{line: 1652, col: 16, offset: 53927},
 																				expr: &actionExpr{
-																					pos: position{line: 1673, col: 5, offset: 54539},
+																					pos: position{line: 1673, col: 5, offset: 54541},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1673, col: 5, offset: 54539},
+																						pos: position{line: 1673, col: 5, offset: 54541},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1673, col: 5, offset: 54539},
+																								pos: position{line: 1673, col: 5, offset: 54541},
 																								expr: &litMatcher{
-																									pos:        position{line: 1673, col: 6, offset: 54540},
+																									pos:        position{line: 1673, col: 6, offset: 54542},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1673, col: 10, offset: 54544},
+																								pos:   position{line: 1673, col: 10, offset: 54546},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1674, col: 7, offset: 54558},
+																									pos: position{line: 1674, col: 7, offset: 54560},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1674, col: 7, offset: 54558},
+																											pos: position{line: 1674, col: 7, offset: 54560},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1674, col: 7, offset: 54558},
+																												pos:        position{line: 1674, col: 7, offset: 54560},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1675, col: 7, offset: 54603},
+																											pos: position{line: 1675, col: 7, offset: 54605},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1675, col: 7, offset: 54603},
+																												pos:        position{line: 1675, col: 7, offset: 54605},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1676, col: 7, offset: 54646},
+																											pos: position{line: 1676, col: 7, offset: 54648},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1676, col: 7, offset: 54646},
+																												pos:        position{line: 1676, col: 7, offset: 54648},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27273,12 +27273,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2948, col: 11, offset: 93241},
+																								pos: position{line: 2948, col: 11, offset: 93243},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2948, col: 11, offset: 93241},
+																									pos: position{line: 2948, col: 11, offset: 93243},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2948, col: 11, offset: 93241},
+																										pos:        position{line: 2948, col: 11, offset: 93243},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27292,26 +27292,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1653, col: 5, offset: 53964},
+																			pos:   position{line: 1653, col: 5, offset: 53966},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1548, col: 5, offset: 50448},
+																				pos: position{line: 1548, col: 5, offset: 50450},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1548, col: 5, offset: 50448},
+																					pos: position{line: 1548, col: 5, offset: 50450},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1548, col: 5, offset: 50448},
+																							pos:   position{line: 1548, col: 5, offset: 50450},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1548, col: 14, offset: 50457},
+																								pos: position{line: 1548, col: 14, offset: 50459},
 																								expr: &actionExpr{
-																									pos: position{line: 1548, col: 15, offset: 50458},
+																									pos: position{line: 1548, col: 15, offset: 50460},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1548, col: 15, offset: 50458},
+																										pos: position{line: 1548, col: 15, offset: 50460},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1548, col: 15, offset: 50458},
+																											pos:        position{line: 1548, col: 15, offset: 50460},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27322,28 +27322,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27352,9 +27352,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -27367,36 +27367,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1742, col: 5, offset: 56518},
+																pos: position{line: 1742, col: 5, offset: 56520},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1742, col: 5, offset: 56518},
+																	pos: position{line: 1742, col: 5, offset: 56520},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1742, col: 5, offset: 56518},
+																			pos:   position{line: 1742, col: 5, offset: 56520},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1748, col: 5, offset: 56715},
+																				pos: position{line: 1748, col: 5, offset: 56717},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1748, col: 5, offset: 56715},
+																					pos: position{line: 1748, col: 5, offset: 56717},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1748, col: 5, offset: 56715},
+																							pos:        position{line: 1748, col: 5, offset: 56717},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1748, col: 9, offset: 56719},
+																							pos:   position{line: 1748, col: 9, offset: 56721},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1748, col: 14, offset: 56724},
+																								pos: position{line: 1748, col: 14, offset: 56726},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1748, col: 14, offset: 56724},
+																									pos: position{line: 1748, col: 14, offset: 56726},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1748, col: 14, offset: 56724},
+																										pos:        position{line: 1748, col: 14, offset: 56726},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27406,18 +27406,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1748, col: 62, offset: 56772},
+																							pos:        position{line: 1748, col: 62, offset: 56774},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2948, col: 11, offset: 93241},
+																							pos: position{line: 2948, col: 11, offset: 93243},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2948, col: 11, offset: 93241},
+																								pos: position{line: 2948, col: 11, offset: 93243},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2948, col: 11, offset: 93241},
+																									pos:        position{line: 2948, col: 11, offset: 93243},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27430,26 +27430,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1743, col: 5, offset: 56554},
+																			pos:   position{line: 1743, col: 5, offset: 56556},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1548, col: 5, offset: 50448},
+																				pos: position{line: 1548, col: 5, offset: 50450},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1548, col: 5, offset: 50448},
+																					pos: position{line: 1548, col: 5, offset: 50450},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1548, col: 5, offset: 50448},
+																							pos:   position{line: 1548, col: 5, offset: 50450},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1548, col: 14, offset: 50457},
+																								pos: position{line: 1548, col: 14, offset: 50459},
 																								expr: &actionExpr{
-																									pos: position{line: 1548, col: 15, offset: 50458},
+																									pos: position{line: 1548, col: 15, offset: 50460},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1548, col: 15, offset: 50458},
+																										pos: position{line: 1548, col: 15, offset: 50460},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1548, col: 15, offset: 50458},
+																											pos:        position{line: 1548, col: 15, offset: 50460},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27460,28 +27460,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27490,9 +27490,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -27505,35 +27505,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1685, col: 5, offset: 54839},
+																pos: position{line: 1685, col: 5, offset: 54841},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1685, col: 5, offset: 54839},
+																	pos: position{line: 1685, col: 5, offset: 54841},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1685, col: 5, offset: 54839},
+																			pos:   position{line: 1685, col: 5, offset: 54841},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1693, col: 5, offset: 55165},
+																				pos: position{line: 1693, col: 5, offset: 55167},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &seqExpr{
-																					pos: position{line: 1693, col: 5, offset: 55165},
+																					pos: position{line: 1693, col: 5, offset: 55167},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1693, col: 5, offset: 55165},
+																							pos: position{line: 1693, col: 5, offset: 55167},
 																							expr: &seqExpr{
-																								pos: position{line: 2543, col: 31, offset: 81990},
+																								pos: position{line: 2543, col: 31, offset: 81992},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2543, col: 31, offset: 81990},
+																										pos:        position{line: 2543, col: 31, offset: 81992},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2543, col: 36, offset: 81995},
+																										pos: position{line: 2543, col: 36, offset: 81997},
 																										expr: &litMatcher{
-																											pos:        position{line: 2543, col: 37, offset: 81996},
+																											pos:        position{line: 2543, col: 37, offset: 81998},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -27543,28 +27543,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1694, col: 5, offset: 55197},
+																							pos: position{line: 1694, col: 5, offset: 55199},
 																							expr: &seqExpr{
-																								pos: position{line: 1694, col: 6, offset: 55198},
+																								pos: position{line: 1694, col: 6, offset: 55200},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1694, col: 6, offset: 55198},
+																										pos: position{line: 1694, col: 6, offset: 55200},
 																										expr: &actionExpr{
-																											pos: position{line: 1699, col: 5, offset: 55348},
+																											pos: position{line: 1699, col: 5, offset: 55350},
 																											run: (*parser).callonExtraListElement180,
 																											expr: &seqExpr{
-																												pos: position{line: 1699, col: 5, offset: 55348},
+																												pos: position{line: 1699, col: 5, offset: 55350},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1699, col: 5, offset: 55348},
+																														pos:   position{line: 1699, col: 5, offset: 55350},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1699, col: 16, offset: 55359},
+																															pos: position{line: 1699, col: 16, offset: 55361},
 																															run: (*parser).callonExtraListElement183,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1699, col: 16, offset: 55359},
+																																pos: position{line: 1699, col: 16, offset: 55361},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1699, col: 17, offset: 55360},
+																																	pos:        position{line: 1699, col: 17, offset: 55362},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -27573,7 +27573,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1702, col: 5, offset: 55417},
+																														pos: position{line: 1702, col: 5, offset: 55419},
 																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
@@ -27581,30 +27581,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1694, col: 35, offset: 55227},
+																										pos: position{line: 1694, col: 35, offset: 55229},
 																										expr: &choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93578},
+																											pos: position{line: 2966, col: 8, offset: 93580},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93351},
+																													pos: position{line: 2953, col: 12, offset: 93353},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93352},
+																														pos: position{line: 2953, col: 13, offset: 93354},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93352},
+																																pos:        position{line: 2953, col: 13, offset: 93354},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93359},
+																																pos:        position{line: 2953, col: 20, offset: 93361},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93368},
+																																pos:        position{line: 2953, col: 29, offset: 93370},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27613,16 +27613,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93528},
+																													pos: position{line: 2963, col: 8, offset: 93530},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93529,
+																														line: 2963, col: 9, offset: 93531,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1694, col: 40, offset: 55232,
+																										line: 1694, col: 40, offset: 55234,
 																									},
 																								},
 																							},
@@ -27632,24 +27632,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1686, col: 5, offset: 54874},
+																			pos:   position{line: 1686, col: 5, offset: 54876},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1699, col: 5, offset: 55348},
+																				pos: position{line: 1699, col: 5, offset: 55350},
 																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1699, col: 5, offset: 55348},
+																					pos: position{line: 1699, col: 5, offset: 55350},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1699, col: 5, offset: 55348},
+																							pos:   position{line: 1699, col: 5, offset: 55350},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1699, col: 16, offset: 55359},
+																								pos: position{line: 1699, col: 16, offset: 55361},
 																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1699, col: 16, offset: 55359},
+																									pos: position{line: 1699, col: 16, offset: 55361},
 																									expr: &litMatcher{
-																										pos:        position{line: 1699, col: 17, offset: 55360},
+																										pos:        position{line: 1699, col: 17, offset: 55362},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27658,7 +27658,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1702, col: 5, offset: 55417},
+																							pos: position{line: 1702, col: 5, offset: 55419},
 																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
@@ -27666,24 +27666,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1687, col: 5, offset: 54919},
+																			pos:   position{line: 1687, col: 5, offset: 54921},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1710, col: 5, offset: 55666},
+																				pos: position{line: 1710, col: 5, offset: 55668},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1712, col: 9, offset: 55732},
+																						pos: position{line: 1712, col: 9, offset: 55734},
 																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1712, col: 9, offset: 55732},
+																							pos: position{line: 1712, col: 9, offset: 55734},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1712, col: 9, offset: 55732},
+																									pos: position{line: 1712, col: 9, offset: 55734},
 																									expr: &actionExpr{
-																										pos: position{line: 2944, col: 10, offset: 93180},
+																										pos: position{line: 2944, col: 10, offset: 93182},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2944, col: 10, offset: 93180},
+																											pos:        position{line: 2944, col: 10, offset: 93182},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27692,28 +27692,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2966, col: 8, offset: 93578},
+																									pos: position{line: 2966, col: 8, offset: 93580},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2953, col: 12, offset: 93351},
+																											pos: position{line: 2953, col: 12, offset: 93353},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2953, col: 13, offset: 93352},
+																												pos: position{line: 2953, col: 13, offset: 93354},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 13, offset: 93352},
+																														pos:        position{line: 2953, col: 13, offset: 93354},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 20, offset: 93359},
+																														pos:        position{line: 2953, col: 20, offset: 93361},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 29, offset: 93368},
+																														pos:        position{line: 2953, col: 29, offset: 93370},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27722,34 +27722,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2963, col: 8, offset: 93528},
+																											pos: position{line: 2963, col: 8, offset: 93530},
 																											expr: &anyMatcher{
-																												line: 2963, col: 9, offset: 93529,
+																												line: 2963, col: 9, offset: 93531,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1713, col: 9, offset: 55751},
+																									pos: position{line: 1713, col: 9, offset: 55753},
 																									expr: &actionExpr{
-																										pos: position{line: 702, col: 14, offset: 22577},
+																										pos: position{line: 702, col: 14, offset: 22579},
 																										run: (*parser).callonExtraListElement221,
 																										expr: &seqExpr{
-																											pos: position{line: 702, col: 14, offset: 22577},
+																											pos: position{line: 702, col: 14, offset: 22579},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2961, col: 11, offset: 93514},
+																													pos: position{line: 2961, col: 11, offset: 93516},
 																													expr: &anyMatcher{
-																														line: 2961, col: 13, offset: 93516,
+																														line: 2961, col: 13, offset: 93518,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 702, col: 21, offset: 22584},
+																													pos: position{line: 702, col: 21, offset: 22586},
 																													expr: &actionExpr{
-																														pos: position{line: 2944, col: 10, offset: 93180},
+																														pos: position{line: 2944, col: 10, offset: 93182},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2944, col: 10, offset: 93180},
+																															pos:        position{line: 2944, col: 10, offset: 93182},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27758,28 +27758,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2966, col: 8, offset: 93578},
+																													pos: position{line: 2966, col: 8, offset: 93580},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2953, col: 12, offset: 93351},
+																															pos: position{line: 2953, col: 12, offset: 93353},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2953, col: 13, offset: 93352},
+																																pos: position{line: 2953, col: 13, offset: 93354},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2953, col: 13, offset: 93352},
+																																		pos:        position{line: 2953, col: 13, offset: 93354},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2953, col: 20, offset: 93359},
+																																		pos:        position{line: 2953, col: 20, offset: 93361},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2953, col: 29, offset: 93368},
+																																		pos:        position{line: 2953, col: 29, offset: 93370},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27788,9 +27788,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2963, col: 8, offset: 93528},
+																															pos: position{line: 2963, col: 8, offset: 93530},
 																															expr: &anyMatcher{
-																																line: 2963, col: 9, offset: 93529,
+																																line: 2963, col: 9, offset: 93531,
 																															},
 																														},
 																													},
@@ -27803,18 +27803,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1719, col: 9, offset: 55880},
+																						pos: position{line: 1719, col: 9, offset: 55882},
 																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1719, col: 9, offset: 55880},
+																							pos: position{line: 1719, col: 9, offset: 55882},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2948, col: 11, offset: 93241},
+																									pos: position{line: 2948, col: 11, offset: 93243},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2948, col: 11, offset: 93241},
+																										pos: position{line: 2948, col: 11, offset: 93243},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2948, col: 11, offset: 93241},
+																											pos:        position{line: 2948, col: 11, offset: 93243},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27823,15 +27823,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1720, col: 9, offset: 55953},
+																									pos:   position{line: 1720, col: 9, offset: 55955},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1720, col: 18, offset: 55962},
+																										pos: position{line: 1720, col: 18, offset: 55964},
 																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1720, col: 18, offset: 55962},
+																											pos: position{line: 1720, col: 18, offset: 55964},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1720, col: 18, offset: 55962},
+																												pos:        position{line: 1720, col: 18, offset: 55964},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27841,28 +27841,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2966, col: 8, offset: 93578},
+																									pos: position{line: 2966, col: 8, offset: 93580},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2953, col: 12, offset: 93351},
+																											pos: position{line: 2953, col: 12, offset: 93353},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2953, col: 13, offset: 93352},
+																												pos: position{line: 2953, col: 13, offset: 93354},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 13, offset: 93352},
+																														pos:        position{line: 2953, col: 13, offset: 93354},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 20, offset: 93359},
+																														pos:        position{line: 2953, col: 20, offset: 93361},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 29, offset: 93368},
+																														pos:        position{line: 2953, col: 29, offset: 93370},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27871,9 +27871,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2963, col: 8, offset: 93528},
+																											pos: position{line: 2963, col: 8, offset: 93530},
 																											expr: &anyMatcher{
-																												line: 2963, col: 9, offset: 93529,
+																												line: 2963, col: 9, offset: 93531,
 																											},
 																										},
 																									},
@@ -27894,50 +27894,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1523, col: 13, offset: 49575},
+										pos: position{line: 1523, col: 13, offset: 49577},
 										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
-											pos: position{line: 1523, col: 13, offset: 49575},
+											pos: position{line: 1523, col: 13, offset: 49577},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1523, col: 13, offset: 49575},
+													pos:   position{line: 1523, col: 13, offset: 49577},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1523, col: 24, offset: 49586},
+														pos: position{line: 1523, col: 24, offset: 49588},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1523, col: 25, offset: 49587},
+															pos:  position{line: 1523, col: 25, offset: 49589},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1524, col: 13, offset: 49618},
+													pos:   position{line: 1524, col: 13, offset: 49620},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1524, col: 22, offset: 49627},
+														pos: position{line: 1524, col: 22, offset: 49629},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1601, col: 5, offset: 51976},
+																pos: position{line: 1601, col: 5, offset: 51978},
 																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
-																	pos: position{line: 1601, col: 5, offset: 51976},
+																	pos: position{line: 1601, col: 5, offset: 51978},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1601, col: 5, offset: 51976},
+																			pos:   position{line: 1601, col: 5, offset: 51978},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1608, col: 5, offset: 52184},
+																				pos: position{line: 1608, col: 5, offset: 52186},
 																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 5, offset: 52184},
+																					pos: position{line: 1608, col: 5, offset: 52186},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1608, col: 5, offset: 52184},
+																							pos: position{line: 1608, col: 5, offset: 52186},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93180},
+																								pos: position{line: 2944, col: 10, offset: 93182},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93180},
+																									pos:        position{line: 2944, col: 10, offset: 93182},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27946,27 +27946,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1608, col: 12, offset: 52191},
+																							pos:   position{line: 1608, col: 12, offset: 52193},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1610, col: 9, offset: 52254},
+																								pos: position{line: 1610, col: 9, offset: 52256},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1610, col: 9, offset: 52254},
+																										pos: position{line: 1610, col: 9, offset: 52256},
 																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 9, offset: 52254},
+																											pos: position{line: 1610, col: 9, offset: 52256},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1610, col: 9, offset: 52254},
+																													pos:   position{line: 1610, col: 9, offset: 52256},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1610, col: 16, offset: 52261},
+																														pos: position{line: 1610, col: 16, offset: 52263},
 																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1610, col: 16, offset: 52261},
+																															pos: position{line: 1610, col: 16, offset: 52263},
 																															expr: &litMatcher{
-																																pos:        position{line: 1610, col: 17, offset: 52262},
+																																pos:        position{line: 1610, col: 17, offset: 52264},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27975,22 +27975,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1614, col: 9, offset: 52362},
+																													pos: position{line: 1614, col: 9, offset: 52364},
 																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1633, col: 11, offset: 53079},
+																										pos: position{line: 1633, col: 11, offset: 53081},
 																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
-																											pos: position{line: 1633, col: 11, offset: 53079},
+																											pos: position{line: 1633, col: 11, offset: 53081},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1633, col: 11, offset: 53079},
+																													pos: position{line: 1633, col: 11, offset: 53081},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1633, col: 12, offset: 53080},
+																														pos:        position{line: 1633, col: 12, offset: 53082},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27998,7 +27998,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1633, col: 20, offset: 53088},
+																													pos:        position{line: 1633, col: 20, offset: 53090},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -28007,20 +28007,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1635, col: 13, offset: 53205},
+																										pos: position{line: 1635, col: 13, offset: 53207},
 																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
-																											pos: position{line: 1635, col: 13, offset: 53205},
+																											pos: position{line: 1635, col: 13, offset: 53207},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1635, col: 14, offset: 53206},
+																													pos:        position{line: 1635, col: 14, offset: 53208},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1635, col: 21, offset: 53213},
+																													pos:        position{line: 1635, col: 21, offset: 53215},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -28029,20 +28029,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1637, col: 13, offset: 53333},
+																										pos: position{line: 1637, col: 13, offset: 53335},
 																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
-																											pos: position{line: 1637, col: 13, offset: 53333},
+																											pos: position{line: 1637, col: 13, offset: 53335},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1637, col: 14, offset: 53334},
+																													pos:        position{line: 1637, col: 14, offset: 53336},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1637, col: 21, offset: 53341},
+																													pos:        position{line: 1637, col: 21, offset: 53343},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -28051,15 +28051,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1639, col: 13, offset: 53461},
+																										pos: position{line: 1639, col: 13, offset: 53463},
 																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
-																											pos: position{line: 1639, col: 13, offset: 53461},
+																											pos: position{line: 1639, col: 13, offset: 53463},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1639, col: 13, offset: 53461},
+																													pos: position{line: 1639, col: 13, offset: 53463},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1639, col: 14, offset: 53462},
+																														pos:        position{line: 1639, col: 14, offset: 53464},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -28067,7 +28067,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1639, col: 26, offset: 53474},
+																													pos:        position{line: 1639, col: 26, offset: 53476},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -28076,15 +28076,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1641, col: 13, offset: 53594},
+																										pos: position{line: 1641, col: 13, offset: 53596},
 																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
-																											pos: position{line: 1641, col: 13, offset: 53594},
+																											pos: position{line: 1641, col: 13, offset: 53596},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1641, col: 13, offset: 53594},
+																													pos: position{line: 1641, col: 13, offset: 53596},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1641, col: 14, offset: 53595},
+																														pos:        position{line: 1641, col: 14, offset: 53597},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -28092,7 +28092,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1641, col: 26, offset: 53607},
+																													pos:        position{line: 1641, col: 26, offset: 53609},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -28104,12 +28104,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2948, col: 11, offset: 93241},
+																							pos: position{line: 2948, col: 11, offset: 93243},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2948, col: 11, offset: 93241},
+																								pos: position{line: 2948, col: 11, offset: 93243},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2948, col: 11, offset: 93241},
+																									pos:        position{line: 2948, col: 11, offset: 93243},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28122,26 +28122,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1602, col: 5, offset: 52015},
+																			pos:   position{line: 1602, col: 5, offset: 52017},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1548, col: 5, offset: 50448},
+																				pos: position{line: 1548, col: 5, offset: 50450},
 																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
-																					pos: position{line: 1548, col: 5, offset: 50448},
+																					pos: position{line: 1548, col: 5, offset: 50450},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1548, col: 5, offset: 50448},
+																							pos:   position{line: 1548, col: 5, offset: 50450},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1548, col: 14, offset: 50457},
+																								pos: position{line: 1548, col: 14, offset: 50459},
 																								expr: &actionExpr{
-																									pos: position{line: 1548, col: 15, offset: 50458},
+																									pos: position{line: 1548, col: 15, offset: 50460},
 																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1548, col: 15, offset: 50458},
+																										pos: position{line: 1548, col: 15, offset: 50460},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1548, col: 15, offset: 50458},
+																											pos:        position{line: 1548, col: 15, offset: 50460},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -28152,28 +28152,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28182,9 +28182,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -28197,27 +28197,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1651, col: 5, offset: 53873},
+																pos: position{line: 1651, col: 5, offset: 53875},
 																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
-																	pos: position{line: 1651, col: 5, offset: 53873},
+																	pos: position{line: 1651, col: 5, offset: 53875},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1651, col: 5, offset: 53873},
+																			pos:   position{line: 1651, col: 5, offset: 53875},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1658, col: 5, offset: 54146},
+																				pos: position{line: 1658, col: 5, offset: 54148},
 																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
-																					pos: position{line: 1658, col: 5, offset: 54146},
+																					pos: position{line: 1658, col: 5, offset: 54148},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1658, col: 5, offset: 54146},
+																							pos: position{line: 1658, col: 5, offset: 54148},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93180},
+																								pos: position{line: 2944, col: 10, offset: 93182},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93180},
+																									pos:        position{line: 2944, col: 10, offset: 93182},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28226,24 +28226,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1659, col: 5, offset: 54158},
+																							pos:   position{line: 1659, col: 5, offset: 54160},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1660, col: 9, offset: 54174},
+																								pos: position{line: 1660, col: 9, offset: 54176},
 																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
-																									pos: position{line: 1660, col: 10, offset: 54175},
+																									pos: position{line: 1660, col: 10, offset: 54177},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1660, col: 11, offset: 54176},
+																											pos:        position{line: 1660, col: 11, offset: 54178},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1660, col: 18, offset: 54183},
+																											pos: position{line: 1660, col: 18, offset: 54185},
 																											expr: &litMatcher{
-																												pos:        position{line: 1660, col: 19, offset: 54184},
+																												pos:        position{line: 1660, col: 19, offset: 54186},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -28254,16 +28254,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1663, col: 7, offset: 54274},
+																							pos: position{line: 1663, col: 7, offset: 54276},
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2948, col: 11, offset: 93241},
+																							pos: position{line: 2948, col: 11, offset: 93243},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2948, col: 11, offset: 93241},
+																								pos: position{line: 2948, col: 11, offset: 93243},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2948, col: 11, offset: 93241},
+																									pos:        position{line: 2948, col: 11, offset: 93243},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28276,56 +28276,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1652, col: 5, offset: 53914},
+																			pos:   position{line: 1652, col: 5, offset: 53916},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1652, col: 16, offset: 53925},
+																				pos: position{line: 1652, col: 16, offset: 53927},
 																				expr: &actionExpr{
-																					pos: position{line: 1673, col: 5, offset: 54539},
+																					pos: position{line: 1673, col: 5, offset: 54541},
 																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
-																						pos: position{line: 1673, col: 5, offset: 54539},
+																						pos: position{line: 1673, col: 5, offset: 54541},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1673, col: 5, offset: 54539},
+																								pos: position{line: 1673, col: 5, offset: 54541},
 																								expr: &litMatcher{
-																									pos:        position{line: 1673, col: 6, offset: 54540},
+																									pos:        position{line: 1673, col: 6, offset: 54542},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1673, col: 10, offset: 54544},
+																								pos:   position{line: 1673, col: 10, offset: 54546},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1674, col: 7, offset: 54558},
+																									pos: position{line: 1674, col: 7, offset: 54560},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1674, col: 7, offset: 54558},
+																											pos: position{line: 1674, col: 7, offset: 54560},
 																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
-																												pos:        position{line: 1674, col: 7, offset: 54558},
+																												pos:        position{line: 1674, col: 7, offset: 54560},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1675, col: 7, offset: 54603},
+																											pos: position{line: 1675, col: 7, offset: 54605},
 																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
-																												pos:        position{line: 1675, col: 7, offset: 54603},
+																												pos:        position{line: 1675, col: 7, offset: 54605},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1676, col: 7, offset: 54646},
+																											pos: position{line: 1676, col: 7, offset: 54648},
 																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
-																												pos:        position{line: 1676, col: 7, offset: 54646},
+																												pos:        position{line: 1676, col: 7, offset: 54648},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -28335,12 +28335,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2948, col: 11, offset: 93241},
+																								pos: position{line: 2948, col: 11, offset: 93243},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2948, col: 11, offset: 93241},
+																									pos: position{line: 2948, col: 11, offset: 93243},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2948, col: 11, offset: 93241},
+																										pos:        position{line: 2948, col: 11, offset: 93243},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -28354,26 +28354,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1653, col: 5, offset: 53964},
+																			pos:   position{line: 1653, col: 5, offset: 53966},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1548, col: 5, offset: 50448},
+																				pos: position{line: 1548, col: 5, offset: 50450},
 																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
-																					pos: position{line: 1548, col: 5, offset: 50448},
+																					pos: position{line: 1548, col: 5, offset: 50450},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1548, col: 5, offset: 50448},
+																							pos:   position{line: 1548, col: 5, offset: 50450},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1548, col: 14, offset: 50457},
+																								pos: position{line: 1548, col: 14, offset: 50459},
 																								expr: &actionExpr{
-																									pos: position{line: 1548, col: 15, offset: 50458},
+																									pos: position{line: 1548, col: 15, offset: 50460},
 																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1548, col: 15, offset: 50458},
+																										pos: position{line: 1548, col: 15, offset: 50460},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1548, col: 15, offset: 50458},
+																											pos:        position{line: 1548, col: 15, offset: 50460},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -28384,28 +28384,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28414,9 +28414,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -28429,36 +28429,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1742, col: 5, offset: 56518},
+																pos: position{line: 1742, col: 5, offset: 56520},
 																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1742, col: 5, offset: 56518},
+																	pos: position{line: 1742, col: 5, offset: 56520},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1742, col: 5, offset: 56518},
+																			pos:   position{line: 1742, col: 5, offset: 56520},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1748, col: 5, offset: 56715},
+																				pos: position{line: 1748, col: 5, offset: 56717},
 																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1748, col: 5, offset: 56715},
+																					pos: position{line: 1748, col: 5, offset: 56717},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1748, col: 5, offset: 56715},
+																							pos:        position{line: 1748, col: 5, offset: 56717},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1748, col: 9, offset: 56719},
+																							pos:   position{line: 1748, col: 9, offset: 56721},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1748, col: 14, offset: 56724},
+																								pos: position{line: 1748, col: 14, offset: 56726},
 																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1748, col: 14, offset: 56724},
+																									pos: position{line: 1748, col: 14, offset: 56726},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1748, col: 14, offset: 56724},
+																										pos:        position{line: 1748, col: 14, offset: 56726},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -28468,18 +28468,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1748, col: 62, offset: 56772},
+																							pos:        position{line: 1748, col: 62, offset: 56774},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2948, col: 11, offset: 93241},
+																							pos: position{line: 2948, col: 11, offset: 93243},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2948, col: 11, offset: 93241},
+																								pos: position{line: 2948, col: 11, offset: 93243},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2948, col: 11, offset: 93241},
+																									pos:        position{line: 2948, col: 11, offset: 93243},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28492,26 +28492,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1743, col: 5, offset: 56554},
+																			pos:   position{line: 1743, col: 5, offset: 56556},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1548, col: 5, offset: 50448},
+																				pos: position{line: 1548, col: 5, offset: 50450},
 																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
-																					pos: position{line: 1548, col: 5, offset: 50448},
+																					pos: position{line: 1548, col: 5, offset: 50450},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1548, col: 5, offset: 50448},
+																							pos:   position{line: 1548, col: 5, offset: 50450},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1548, col: 14, offset: 50457},
+																								pos: position{line: 1548, col: 14, offset: 50459},
 																								expr: &actionExpr{
-																									pos: position{line: 1548, col: 15, offset: 50458},
+																									pos: position{line: 1548, col: 15, offset: 50460},
 																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1548, col: 15, offset: 50458},
+																										pos: position{line: 1548, col: 15, offset: 50460},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1548, col: 15, offset: 50458},
+																											pos:        position{line: 1548, col: 15, offset: 50460},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -28522,28 +28522,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28552,9 +28552,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -28567,35 +28567,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1685, col: 5, offset: 54839},
+																pos: position{line: 1685, col: 5, offset: 54841},
 																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
-																	pos: position{line: 1685, col: 5, offset: 54839},
+																	pos: position{line: 1685, col: 5, offset: 54841},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1685, col: 5, offset: 54839},
+																			pos:   position{line: 1685, col: 5, offset: 54841},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1693, col: 5, offset: 55165},
+																				pos: position{line: 1693, col: 5, offset: 55167},
 																				run: (*parser).callonExtraListElement403,
 																				expr: &seqExpr{
-																					pos: position{line: 1693, col: 5, offset: 55165},
+																					pos: position{line: 1693, col: 5, offset: 55167},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1693, col: 5, offset: 55165},
+																							pos: position{line: 1693, col: 5, offset: 55167},
 																							expr: &seqExpr{
-																								pos: position{line: 2543, col: 31, offset: 81990},
+																								pos: position{line: 2543, col: 31, offset: 81992},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2543, col: 31, offset: 81990},
+																										pos:        position{line: 2543, col: 31, offset: 81992},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2543, col: 36, offset: 81995},
+																										pos: position{line: 2543, col: 36, offset: 81997},
 																										expr: &litMatcher{
-																											pos:        position{line: 2543, col: 37, offset: 81996},
+																											pos:        position{line: 2543, col: 37, offset: 81998},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -28605,28 +28605,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1694, col: 5, offset: 55197},
+																							pos: position{line: 1694, col: 5, offset: 55199},
 																							expr: &seqExpr{
-																								pos: position{line: 1694, col: 6, offset: 55198},
+																								pos: position{line: 1694, col: 6, offset: 55200},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1694, col: 6, offset: 55198},
+																										pos: position{line: 1694, col: 6, offset: 55200},
 																										expr: &actionExpr{
-																											pos: position{line: 1699, col: 5, offset: 55348},
+																											pos: position{line: 1699, col: 5, offset: 55350},
 																											run: (*parser).callonExtraListElement413,
 																											expr: &seqExpr{
-																												pos: position{line: 1699, col: 5, offset: 55348},
+																												pos: position{line: 1699, col: 5, offset: 55350},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1699, col: 5, offset: 55348},
+																														pos:   position{line: 1699, col: 5, offset: 55350},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1699, col: 16, offset: 55359},
+																															pos: position{line: 1699, col: 16, offset: 55361},
 																															run: (*parser).callonExtraListElement416,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1699, col: 16, offset: 55359},
+																																pos: position{line: 1699, col: 16, offset: 55361},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1699, col: 17, offset: 55360},
+																																	pos:        position{line: 1699, col: 17, offset: 55362},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -28635,7 +28635,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1702, col: 5, offset: 55417},
+																														pos: position{line: 1702, col: 5, offset: 55419},
 																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
@@ -28643,30 +28643,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1694, col: 35, offset: 55227},
+																										pos: position{line: 1694, col: 35, offset: 55229},
 																										expr: &choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93578},
+																											pos: position{line: 2966, col: 8, offset: 93580},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93351},
+																													pos: position{line: 2953, col: 12, offset: 93353},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93352},
+																														pos: position{line: 2953, col: 13, offset: 93354},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93352},
+																																pos:        position{line: 2953, col: 13, offset: 93354},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93359},
+																																pos:        position{line: 2953, col: 20, offset: 93361},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93368},
+																																pos:        position{line: 2953, col: 29, offset: 93370},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -28675,16 +28675,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93528},
+																													pos: position{line: 2963, col: 8, offset: 93530},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93529,
+																														line: 2963, col: 9, offset: 93531,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1694, col: 40, offset: 55232,
+																										line: 1694, col: 40, offset: 55234,
 																									},
 																								},
 																							},
@@ -28694,24 +28694,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1686, col: 5, offset: 54874},
+																			pos:   position{line: 1686, col: 5, offset: 54876},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1699, col: 5, offset: 55348},
+																				pos: position{line: 1699, col: 5, offset: 55350},
 																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1699, col: 5, offset: 55348},
+																					pos: position{line: 1699, col: 5, offset: 55350},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1699, col: 5, offset: 55348},
+																							pos:   position{line: 1699, col: 5, offset: 55350},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1699, col: 16, offset: 55359},
+																								pos: position{line: 1699, col: 16, offset: 55361},
 																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1699, col: 16, offset: 55359},
+																									pos: position{line: 1699, col: 16, offset: 55361},
 																									expr: &litMatcher{
-																										pos:        position{line: 1699, col: 17, offset: 55360},
+																										pos:        position{line: 1699, col: 17, offset: 55362},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -28720,7 +28720,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1702, col: 5, offset: 55417},
+																							pos: position{line: 1702, col: 5, offset: 55419},
 																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
@@ -28728,24 +28728,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1687, col: 5, offset: 54919},
+																			pos:   position{line: 1687, col: 5, offset: 54921},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1710, col: 5, offset: 55666},
+																				pos: position{line: 1710, col: 5, offset: 55668},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1712, col: 9, offset: 55732},
+																						pos: position{line: 1712, col: 9, offset: 55734},
 																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1712, col: 9, offset: 55732},
+																							pos: position{line: 1712, col: 9, offset: 55734},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1712, col: 9, offset: 55732},
+																									pos: position{line: 1712, col: 9, offset: 55734},
 																									expr: &actionExpr{
-																										pos: position{line: 2944, col: 10, offset: 93180},
+																										pos: position{line: 2944, col: 10, offset: 93182},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2944, col: 10, offset: 93180},
+																											pos:        position{line: 2944, col: 10, offset: 93182},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28754,28 +28754,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2966, col: 8, offset: 93578},
+																									pos: position{line: 2966, col: 8, offset: 93580},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2953, col: 12, offset: 93351},
+																											pos: position{line: 2953, col: 12, offset: 93353},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2953, col: 13, offset: 93352},
+																												pos: position{line: 2953, col: 13, offset: 93354},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 13, offset: 93352},
+																														pos:        position{line: 2953, col: 13, offset: 93354},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 20, offset: 93359},
+																														pos:        position{line: 2953, col: 20, offset: 93361},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 29, offset: 93368},
+																														pos:        position{line: 2953, col: 29, offset: 93370},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28784,34 +28784,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2963, col: 8, offset: 93528},
+																											pos: position{line: 2963, col: 8, offset: 93530},
 																											expr: &anyMatcher{
-																												line: 2963, col: 9, offset: 93529,
+																												line: 2963, col: 9, offset: 93531,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1713, col: 9, offset: 55751},
+																									pos: position{line: 1713, col: 9, offset: 55753},
 																									expr: &actionExpr{
-																										pos: position{line: 702, col: 14, offset: 22577},
+																										pos: position{line: 702, col: 14, offset: 22579},
 																										run: (*parser).callonExtraListElement454,
 																										expr: &seqExpr{
-																											pos: position{line: 702, col: 14, offset: 22577},
+																											pos: position{line: 702, col: 14, offset: 22579},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2961, col: 11, offset: 93514},
+																													pos: position{line: 2961, col: 11, offset: 93516},
 																													expr: &anyMatcher{
-																														line: 2961, col: 13, offset: 93516,
+																														line: 2961, col: 13, offset: 93518,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 702, col: 21, offset: 22584},
+																													pos: position{line: 702, col: 21, offset: 22586},
 																													expr: &actionExpr{
-																														pos: position{line: 2944, col: 10, offset: 93180},
+																														pos: position{line: 2944, col: 10, offset: 93182},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2944, col: 10, offset: 93180},
+																															pos:        position{line: 2944, col: 10, offset: 93182},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -28820,28 +28820,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2966, col: 8, offset: 93578},
+																													pos: position{line: 2966, col: 8, offset: 93580},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2953, col: 12, offset: 93351},
+																															pos: position{line: 2953, col: 12, offset: 93353},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2953, col: 13, offset: 93352},
+																																pos: position{line: 2953, col: 13, offset: 93354},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2953, col: 13, offset: 93352},
+																																		pos:        position{line: 2953, col: 13, offset: 93354},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2953, col: 20, offset: 93359},
+																																		pos:        position{line: 2953, col: 20, offset: 93361},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2953, col: 29, offset: 93368},
+																																		pos:        position{line: 2953, col: 29, offset: 93370},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28850,9 +28850,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2963, col: 8, offset: 93528},
+																															pos: position{line: 2963, col: 8, offset: 93530},
 																															expr: &anyMatcher{
-																																line: 2963, col: 9, offset: 93529,
+																																line: 2963, col: 9, offset: 93531,
 																															},
 																														},
 																													},
@@ -28865,18 +28865,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1719, col: 9, offset: 55880},
+																						pos: position{line: 1719, col: 9, offset: 55882},
 																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1719, col: 9, offset: 55880},
+																							pos: position{line: 1719, col: 9, offset: 55882},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2948, col: 11, offset: 93241},
+																									pos: position{line: 2948, col: 11, offset: 93243},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2948, col: 11, offset: 93241},
+																										pos: position{line: 2948, col: 11, offset: 93243},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2948, col: 11, offset: 93241},
+																											pos:        position{line: 2948, col: 11, offset: 93243},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28885,15 +28885,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1720, col: 9, offset: 55953},
+																									pos:   position{line: 1720, col: 9, offset: 55955},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1720, col: 18, offset: 55962},
+																										pos: position{line: 1720, col: 18, offset: 55964},
 																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1720, col: 18, offset: 55962},
+																											pos: position{line: 1720, col: 18, offset: 55964},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1720, col: 18, offset: 55962},
+																												pos:        position{line: 1720, col: 18, offset: 55964},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28903,28 +28903,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2966, col: 8, offset: 93578},
+																									pos: position{line: 2966, col: 8, offset: 93580},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2953, col: 12, offset: 93351},
+																											pos: position{line: 2953, col: 12, offset: 93353},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2953, col: 13, offset: 93352},
+																												pos: position{line: 2953, col: 13, offset: 93354},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 13, offset: 93352},
+																														pos:        position{line: 2953, col: 13, offset: 93354},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 20, offset: 93359},
+																														pos:        position{line: 2953, col: 20, offset: 93361},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 29, offset: 93368},
+																														pos:        position{line: 2953, col: 29, offset: 93370},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28933,9 +28933,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2963, col: 8, offset: 93528},
+																											pos: position{line: 2963, col: 8, offset: 93530},
 																											expr: &anyMatcher{
-																												line: 2963, col: 9, offset: 93529,
+																												line: 2963, col: 9, offset: 93531,
 																											},
 																										},
 																									},
@@ -28956,40 +28956,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1527, col: 11, offset: 49812},
+										pos:  position{line: 1527, col: 11, offset: 49814},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2538, col: 22, offset: 81740},
+										pos: position{line: 2538, col: 22, offset: 81742},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2538, col: 22, offset: 81740},
+											pos: position{line: 2538, col: 22, offset: 81742},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2543, col: 31, offset: 81990},
+													pos:        position{line: 2543, col: 31, offset: 81992},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2543, col: 36, offset: 81995},
+													pos: position{line: 2543, col: 36, offset: 81997},
 													expr: &litMatcher{
-														pos:        position{line: 2543, col: 37, offset: 81996},
+														pos:        position{line: 2543, col: 37, offset: 81998},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2538, col: 49, offset: 81767},
+													pos:   position{line: 2538, col: 49, offset: 81769},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2890, col: 13, offset: 91706},
+														pos: position{line: 2890, col: 13, offset: 91708},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2890, col: 13, offset: 91706},
+															pos: position{line: 2890, col: 13, offset: 91708},
 															expr: &charClassMatcher{
-																pos:        position{line: 2890, col: 13, offset: 91706},
+																pos:        position{line: 2890, col: 13, offset: 91708},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28999,28 +28999,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2966, col: 8, offset: 93578},
+													pos: position{line: 2966, col: 8, offset: 93580},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93351},
+															pos: position{line: 2953, col: 12, offset: 93353},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93352},
+																pos: position{line: 2953, col: 13, offset: 93354},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93352},
+																		pos:        position{line: 2953, col: 13, offset: 93354},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93359},
+																		pos:        position{line: 2953, col: 20, offset: 93361},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93368},
+																		pos:        position{line: 2953, col: 29, offset: 93370},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29029,9 +29029,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93528},
+															pos: position{line: 2963, col: 8, offset: 93530},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93529,
+																line: 2963, col: 9, offset: 93531,
 															},
 														},
 													},
@@ -29040,32 +29040,32 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1535, col: 5, offset: 50090},
+										pos: position{line: 1535, col: 5, offset: 50092},
 										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
-											pos: position{line: 1535, col: 5, offset: 50090},
+											pos: position{line: 1535, col: 5, offset: 50092},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1535, col: 5, offset: 50090},
+													pos: position{line: 1535, col: 5, offset: 50092},
 													expr: &actionExpr{
-														pos: position{line: 702, col: 14, offset: 22577},
+														pos: position{line: 702, col: 14, offset: 22579},
 														run: (*parser).callonExtraListElement507,
 														expr: &seqExpr{
-															pos: position{line: 702, col: 14, offset: 22577},
+															pos: position{line: 702, col: 14, offset: 22579},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2961, col: 11, offset: 93514},
+																	pos: position{line: 2961, col: 11, offset: 93516},
 																	expr: &anyMatcher{
-																		line: 2961, col: 13, offset: 93516,
+																		line: 2961, col: 13, offset: 93518,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 702, col: 21, offset: 22584},
+																	pos: position{line: 702, col: 21, offset: 22586},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93180},
+																		pos: position{line: 2944, col: 10, offset: 93182},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93180},
+																			pos:        position{line: 2944, col: 10, offset: 93182},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29074,28 +29074,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93578},
+																	pos: position{line: 2966, col: 8, offset: 93580},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93351},
+																			pos: position{line: 2953, col: 12, offset: 93353},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93352},
+																				pos: position{line: 2953, col: 13, offset: 93354},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93352},
+																						pos:        position{line: 2953, col: 13, offset: 93354},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93359},
+																						pos:        position{line: 2953, col: 20, offset: 93361},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93368},
+																						pos:        position{line: 2953, col: 29, offset: 93370},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29104,9 +29104,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93528},
+																			pos: position{line: 2963, col: 8, offset: 93530},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93529,
+																				line: 2963, col: 9, offset: 93531,
 																			},
 																		},
 																	},
@@ -29116,23 +29116,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1536, col: 5, offset: 50105},
+													pos: position{line: 1536, col: 5, offset: 50107},
 													expr: &seqExpr{
-														pos: position{line: 1567, col: 27, offset: 50965},
+														pos: position{line: 1567, col: 27, offset: 50967},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1567, col: 27, offset: 50965},
+																pos:        position{line: 1567, col: 27, offset: 50967},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1567, col: 31, offset: 50969},
+																pos: position{line: 1567, col: 31, offset: 50971},
 																expr: &actionExpr{
-																	pos: position{line: 2944, col: 10, offset: 93180},
+																	pos: position{line: 2944, col: 10, offset: 93182},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2944, col: 10, offset: 93180},
+																		pos:        position{line: 2944, col: 10, offset: 93182},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -29141,25 +29141,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93351},
+																pos: position{line: 2953, col: 12, offset: 93353},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93352},
+																	pos: position{line: 2953, col: 13, offset: 93354},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93352},
+																			pos:        position{line: 2953, col: 13, offset: 93354},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93359},
+																			pos:        position{line: 2953, col: 20, offset: 93361},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93368},
+																			pos:        position{line: 2953, col: 29, offset: 93370},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -29171,20 +29171,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1537, col: 5, offset: 50133},
+													pos: position{line: 1537, col: 5, offset: 50135},
 													expr: &actionExpr{
-														pos: position{line: 1608, col: 5, offset: 52184},
+														pos: position{line: 1608, col: 5, offset: 52186},
 														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
-															pos: position{line: 1608, col: 5, offset: 52184},
+															pos: position{line: 1608, col: 5, offset: 52186},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1608, col: 5, offset: 52184},
+																	pos: position{line: 1608, col: 5, offset: 52186},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93180},
+																		pos: position{line: 2944, col: 10, offset: 93182},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93180},
+																			pos:        position{line: 2944, col: 10, offset: 93182},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29193,27 +29193,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1608, col: 12, offset: 52191},
+																	pos:   position{line: 1608, col: 12, offset: 52193},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1610, col: 9, offset: 52254},
+																		pos: position{line: 1610, col: 9, offset: 52256},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1610, col: 9, offset: 52254},
+																				pos: position{line: 1610, col: 9, offset: 52256},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 9, offset: 52254},
+																					pos: position{line: 1610, col: 9, offset: 52256},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1610, col: 9, offset: 52254},
+																							pos:   position{line: 1610, col: 9, offset: 52256},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1610, col: 16, offset: 52261},
+																								pos: position{line: 1610, col: 16, offset: 52263},
 																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1610, col: 16, offset: 52261},
+																									pos: position{line: 1610, col: 16, offset: 52263},
 																									expr: &litMatcher{
-																										pos:        position{line: 1610, col: 17, offset: 52262},
+																										pos:        position{line: 1610, col: 17, offset: 52264},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29222,22 +29222,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1614, col: 9, offset: 52362},
+																							pos: position{line: 1614, col: 9, offset: 52364},
 																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1633, col: 11, offset: 53079},
+																				pos: position{line: 1633, col: 11, offset: 53081},
 																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
-																					pos: position{line: 1633, col: 11, offset: 53079},
+																					pos: position{line: 1633, col: 11, offset: 53081},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1633, col: 11, offset: 53079},
+																							pos: position{line: 1633, col: 11, offset: 53081},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1633, col: 12, offset: 53080},
+																								pos:        position{line: 1633, col: 12, offset: 53082},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29245,7 +29245,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1633, col: 20, offset: 53088},
+																							pos:        position{line: 1633, col: 20, offset: 53090},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29254,20 +29254,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1635, col: 13, offset: 53205},
+																				pos: position{line: 1635, col: 13, offset: 53207},
 																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
-																					pos: position{line: 1635, col: 13, offset: 53205},
+																					pos: position{line: 1635, col: 13, offset: 53207},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1635, col: 14, offset: 53206},
+																							pos:        position{line: 1635, col: 14, offset: 53208},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1635, col: 21, offset: 53213},
+																							pos:        position{line: 1635, col: 21, offset: 53215},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29276,20 +29276,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1637, col: 13, offset: 53333},
+																				pos: position{line: 1637, col: 13, offset: 53335},
 																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
-																					pos: position{line: 1637, col: 13, offset: 53333},
+																					pos: position{line: 1637, col: 13, offset: 53335},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1637, col: 14, offset: 53334},
+																							pos:        position{line: 1637, col: 14, offset: 53336},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1637, col: 21, offset: 53341},
+																							pos:        position{line: 1637, col: 21, offset: 53343},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29298,15 +29298,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1639, col: 13, offset: 53461},
+																				pos: position{line: 1639, col: 13, offset: 53463},
 																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
-																					pos: position{line: 1639, col: 13, offset: 53461},
+																					pos: position{line: 1639, col: 13, offset: 53463},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1639, col: 13, offset: 53461},
+																							pos: position{line: 1639, col: 13, offset: 53463},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1639, col: 14, offset: 53462},
+																								pos:        position{line: 1639, col: 14, offset: 53464},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29314,7 +29314,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1639, col: 26, offset: 53474},
+																							pos:        position{line: 1639, col: 26, offset: 53476},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29323,15 +29323,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1641, col: 13, offset: 53594},
+																				pos: position{line: 1641, col: 13, offset: 53596},
 																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
-																					pos: position{line: 1641, col: 13, offset: 53594},
+																					pos: position{line: 1641, col: 13, offset: 53596},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1641, col: 13, offset: 53594},
+																							pos: position{line: 1641, col: 13, offset: 53596},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1641, col: 14, offset: 53595},
+																								pos:        position{line: 1641, col: 14, offset: 53597},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29339,7 +29339,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1641, col: 26, offset: 53607},
+																							pos:        position{line: 1641, col: 26, offset: 53609},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29351,12 +29351,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2948, col: 11, offset: 93241},
+																	pos: position{line: 2948, col: 11, offset: 93243},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2948, col: 11, offset: 93241},
+																		pos: position{line: 2948, col: 11, offset: 93243},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2948, col: 11, offset: 93241},
+																			pos:        position{line: 2948, col: 11, offset: 93243},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29369,20 +29369,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1538, col: 5, offset: 50163},
+													pos: position{line: 1538, col: 5, offset: 50165},
 													expr: &actionExpr{
-														pos: position{line: 1658, col: 5, offset: 54146},
+														pos: position{line: 1658, col: 5, offset: 54148},
 														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
-															pos: position{line: 1658, col: 5, offset: 54146},
+															pos: position{line: 1658, col: 5, offset: 54148},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1658, col: 5, offset: 54146},
+																	pos: position{line: 1658, col: 5, offset: 54148},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93180},
+																		pos: position{line: 2944, col: 10, offset: 93182},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93180},
+																			pos:        position{line: 2944, col: 10, offset: 93182},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29391,24 +29391,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1659, col: 5, offset: 54158},
+																	pos:   position{line: 1659, col: 5, offset: 54160},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1660, col: 9, offset: 54174},
+																		pos: position{line: 1660, col: 9, offset: 54176},
 																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
-																			pos: position{line: 1660, col: 10, offset: 54175},
+																			pos: position{line: 1660, col: 10, offset: 54177},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1660, col: 11, offset: 54176},
+																					pos:        position{line: 1660, col: 11, offset: 54178},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1660, col: 18, offset: 54183},
+																					pos: position{line: 1660, col: 18, offset: 54185},
 																					expr: &litMatcher{
-																						pos:        position{line: 1660, col: 19, offset: 54184},
+																						pos:        position{line: 1660, col: 19, offset: 54186},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29419,16 +29419,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1663, col: 7, offset: 54274},
+																	pos: position{line: 1663, col: 7, offset: 54276},
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2948, col: 11, offset: 93241},
+																	pos: position{line: 2948, col: 11, offset: 93243},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2948, col: 11, offset: 93241},
+																		pos: position{line: 2948, col: 11, offset: 93243},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2948, col: 11, offset: 93241},
+																			pos:        position{line: 2948, col: 11, offset: 93243},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29441,29 +29441,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1539, col: 5, offset: 50195},
+													pos: position{line: 1539, col: 5, offset: 50197},
 													expr: &actionExpr{
-														pos: position{line: 1748, col: 5, offset: 56715},
+														pos: position{line: 1748, col: 5, offset: 56717},
 														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1748, col: 5, offset: 56715},
+															pos: position{line: 1748, col: 5, offset: 56717},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1748, col: 5, offset: 56715},
+																	pos:        position{line: 1748, col: 5, offset: 56717},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1748, col: 9, offset: 56719},
+																	pos:   position{line: 1748, col: 9, offset: 56721},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1748, col: 14, offset: 56724},
+																		pos: position{line: 1748, col: 14, offset: 56726},
 																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1748, col: 14, offset: 56724},
+																			pos: position{line: 1748, col: 14, offset: 56726},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1748, col: 14, offset: 56724},
+																				pos:        position{line: 1748, col: 14, offset: 56726},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -29473,18 +29473,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1748, col: 62, offset: 56772},
+																	pos:        position{line: 1748, col: 62, offset: 56774},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2948, col: 11, offset: 93241},
+																	pos: position{line: 2948, col: 11, offset: 93243},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2948, col: 11, offset: 93241},
+																		pos: position{line: 2948, col: 11, offset: 93243},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2948, col: 11, offset: 93241},
+																			pos:        position{line: 2948, col: 11, offset: 93243},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29497,31 +29497,31 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1540, col: 5, offset: 50225},
+													pos: position{line: 1540, col: 5, offset: 50227},
 													expr: &seqExpr{
-														pos: position{line: 1540, col: 7, offset: 50227},
+														pos: position{line: 1540, col: 7, offset: 50229},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1693, col: 5, offset: 55165},
+																pos: position{line: 1693, col: 5, offset: 55167},
 																run: (*parser).callonExtraListElement604,
 																expr: &seqExpr{
-																	pos: position{line: 1693, col: 5, offset: 55165},
+																	pos: position{line: 1693, col: 5, offset: 55167},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1693, col: 5, offset: 55165},
+																			pos: position{line: 1693, col: 5, offset: 55167},
 																			expr: &seqExpr{
-																				pos: position{line: 2543, col: 31, offset: 81990},
+																				pos: position{line: 2543, col: 31, offset: 81992},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2543, col: 31, offset: 81990},
+																						pos:        position{line: 2543, col: 31, offset: 81992},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2543, col: 36, offset: 81995},
+																						pos: position{line: 2543, col: 36, offset: 81997},
 																						expr: &litMatcher{
-																							pos:        position{line: 2543, col: 37, offset: 81996},
+																							pos:        position{line: 2543, col: 37, offset: 81998},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -29531,28 +29531,28 @@ var g = &grammar{
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1694, col: 5, offset: 55197},
+																			pos: position{line: 1694, col: 5, offset: 55199},
 																			expr: &seqExpr{
-																				pos: position{line: 1694, col: 6, offset: 55198},
+																				pos: position{line: 1694, col: 6, offset: 55200},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1694, col: 6, offset: 55198},
+																						pos: position{line: 1694, col: 6, offset: 55200},
 																						expr: &actionExpr{
-																							pos: position{line: 1699, col: 5, offset: 55348},
+																							pos: position{line: 1699, col: 5, offset: 55350},
 																							run: (*parser).callonExtraListElement614,
 																							expr: &seqExpr{
-																								pos: position{line: 1699, col: 5, offset: 55348},
+																								pos: position{line: 1699, col: 5, offset: 55350},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1699, col: 5, offset: 55348},
+																										pos:   position{line: 1699, col: 5, offset: 55350},
 																										label: "separator",
 																										expr: &actionExpr{
-																											pos: position{line: 1699, col: 16, offset: 55359},
+																											pos: position{line: 1699, col: 16, offset: 55361},
 																											run: (*parser).callonExtraListElement617,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1699, col: 16, offset: 55359},
+																												pos: position{line: 1699, col: 16, offset: 55361},
 																												expr: &litMatcher{
-																													pos:        position{line: 1699, col: 17, offset: 55360},
+																													pos:        position{line: 1699, col: 17, offset: 55362},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
@@ -29561,7 +29561,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1702, col: 5, offset: 55417},
+																										pos: position{line: 1702, col: 5, offset: 55419},
 																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
@@ -29569,30 +29569,30 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1694, col: 35, offset: 55227},
+																						pos: position{line: 1694, col: 35, offset: 55229},
 																						expr: &choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29601,16 +29601,16 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1694, col: 40, offset: 55232,
+																						line: 1694, col: 40, offset: 55234,
 																					},
 																				},
 																			},
@@ -29619,21 +29619,21 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1699, col: 5, offset: 55348},
+																pos: position{line: 1699, col: 5, offset: 55350},
 																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1699, col: 5, offset: 55348},
+																	pos: position{line: 1699, col: 5, offset: 55350},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1699, col: 5, offset: 55348},
+																			pos:   position{line: 1699, col: 5, offset: 55350},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1699, col: 16, offset: 55359},
+																				pos: position{line: 1699, col: 16, offset: 55361},
 																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1699, col: 16, offset: 55359},
+																					pos: position{line: 1699, col: 16, offset: 55361},
 																					expr: &litMatcher{
-																						pos:        position{line: 1699, col: 17, offset: 55360},
+																						pos:        position{line: 1699, col: 17, offset: 55362},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -29642,7 +29642,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1702, col: 5, offset: 55417},
+																			pos: position{line: 1702, col: 5, offset: 55419},
 																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
@@ -29652,17 +29652,17 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1541, col: 5, offset: 50283},
+													pos: position{line: 1541, col: 5, offset: 50285},
 													expr: &actionExpr{
-														pos: position{line: 749, col: 5, offset: 24130},
+														pos: position{line: 749, col: 5, offset: 24132},
 														run: (*parser).callonExtraListElement639,
 														expr: &seqExpr{
-															pos: position{line: 749, col: 5, offset: 24130},
+															pos: position{line: 749, col: 5, offset: 24132},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 749, col: 5, offset: 24130},
+																	pos: position{line: 749, col: 5, offset: 24132},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2834, col: 13, offset: 90275},
+																		pos:        position{line: 2834, col: 13, offset: 90277},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -29670,36 +29670,36 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 750, col: 5, offset: 24160},
+																	pos:   position{line: 750, col: 5, offset: 24162},
 																	label: "delimiter",
 																	expr: &choiceExpr{
-																		pos: position{line: 751, col: 9, offset: 24180},
+																		pos: position{line: 751, col: 9, offset: 24182},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 765, col: 5, offset: 24672},
+																				pos: position{line: 765, col: 5, offset: 24674},
 																				run: (*parser).callonExtraListElement645,
 																				expr: &seqExpr{
-																					pos: position{line: 765, col: 5, offset: 24672},
+																					pos: position{line: 765, col: 5, offset: 24674},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 765, col: 5, offset: 24672},
+																							pos:   position{line: 765, col: 5, offset: 24674},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 765, col: 16, offset: 24683},
+																								pos: position{line: 765, col: 16, offset: 24685},
 																								run: (*parser).callonExtraListElement648,
 																								expr: &seqExpr{
-																									pos: position{line: 765, col: 16, offset: 24683},
+																									pos: position{line: 765, col: 16, offset: 24685},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 765, col: 16, offset: 24683},
+																											pos:        position{line: 765, col: 16, offset: 24685},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 765, col: 23, offset: 24690},
+																											pos: position{line: 765, col: 23, offset: 24692},
 																											expr: &litMatcher{
-																												pos:        position{line: 765, col: 23, offset: 24690},
+																												pos:        position{line: 765, col: 23, offset: 24692},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -29710,12 +29710,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 767, col: 8, offset: 24774},
+																							pos: position{line: 767, col: 8, offset: 24776},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93180},
+																								pos: position{line: 2944, col: 10, offset: 93182},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93180},
+																									pos:        position{line: 2944, col: 10, offset: 93182},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29724,28 +29724,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29754,9 +29754,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -29765,30 +29765,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 772, col: 5, offset: 24920},
+																				pos: position{line: 772, col: 5, offset: 24922},
 																				run: (*parser).callonExtraListElement664,
 																				expr: &seqExpr{
-																					pos: position{line: 772, col: 5, offset: 24920},
+																					pos: position{line: 772, col: 5, offset: 24922},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 772, col: 5, offset: 24920},
+																							pos:   position{line: 772, col: 5, offset: 24922},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 772, col: 16, offset: 24931},
+																								pos: position{line: 772, col: 16, offset: 24933},
 																								run: (*parser).callonExtraListElement667,
 																								expr: &seqExpr{
-																									pos: position{line: 772, col: 16, offset: 24931},
+																									pos: position{line: 772, col: 16, offset: 24933},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 772, col: 16, offset: 24931},
+																											pos:        position{line: 772, col: 16, offset: 24933},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 772, col: 23, offset: 24938},
+																											pos: position{line: 772, col: 23, offset: 24940},
 																											expr: &litMatcher{
-																												pos:        position{line: 772, col: 23, offset: 24938},
+																												pos:        position{line: 772, col: 23, offset: 24940},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -29799,12 +29799,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 774, col: 8, offset: 25022},
+																							pos: position{line: 774, col: 8, offset: 25024},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93180},
+																								pos: position{line: 2944, col: 10, offset: 93182},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93180},
+																									pos:        position{line: 2944, col: 10, offset: 93182},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29813,28 +29813,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29843,9 +29843,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -29854,27 +29854,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 785, col: 26, offset: 25408},
+																				pos: position{line: 785, col: 26, offset: 25410},
 																				run: (*parser).callonExtraListElement683,
 																				expr: &seqExpr{
-																					pos: position{line: 785, col: 26, offset: 25408},
+																					pos: position{line: 785, col: 26, offset: 25410},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 785, col: 26, offset: 25408},
+																							pos:        position{line: 785, col: 26, offset: 25410},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 785, col: 32, offset: 25414},
+																							pos:   position{line: 785, col: 32, offset: 25416},
 																							label: "language",
 																							expr: &actionExpr{
-																								pos: position{line: 789, col: 13, offset: 25544},
+																								pos: position{line: 789, col: 13, offset: 25546},
 																								run: (*parser).callonExtraListElement687,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 789, col: 14, offset: 25545},
+																									pos: position{line: 789, col: 14, offset: 25547},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 789, col: 14, offset: 25545},
+																										pos:        position{line: 789, col: 14, offset: 25547},
 																										val:        "[^\\r\\n` ]",
 																										chars:      []rune{'\r', '\n', '`', ' '},
 																										ignoreCase: false,
@@ -29884,12 +29884,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 785, col: 52, offset: 25434},
+																							pos: position{line: 785, col: 52, offset: 25436},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93180},
+																								pos: position{line: 2944, col: 10, offset: 93182},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93180},
+																									pos:        position{line: 2944, col: 10, offset: 93182},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29898,28 +29898,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29928,9 +29928,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -29939,30 +29939,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 779, col: 5, offset: 25167},
+																				pos: position{line: 779, col: 5, offset: 25169},
 																				run: (*parser).callonExtraListElement701,
 																				expr: &seqExpr{
-																					pos: position{line: 779, col: 5, offset: 25167},
+																					pos: position{line: 779, col: 5, offset: 25169},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 779, col: 5, offset: 25167},
+																							pos:   position{line: 779, col: 5, offset: 25169},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 779, col: 16, offset: 25178},
+																								pos: position{line: 779, col: 16, offset: 25180},
 																								run: (*parser).callonExtraListElement704,
 																								expr: &seqExpr{
-																									pos: position{line: 779, col: 16, offset: 25178},
+																									pos: position{line: 779, col: 16, offset: 25180},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 779, col: 16, offset: 25178},
+																											pos:        position{line: 779, col: 16, offset: 25180},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 779, col: 22, offset: 25184},
+																											pos: position{line: 779, col: 22, offset: 25186},
 																											expr: &litMatcher{
-																												pos:        position{line: 779, col: 22, offset: 25184},
+																												pos:        position{line: 779, col: 22, offset: 25186},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -29973,12 +29973,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 781, col: 8, offset: 25268},
+																							pos: position{line: 781, col: 8, offset: 25270},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93180},
+																								pos: position{line: 2944, col: 10, offset: 93182},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93180},
+																									pos:        position{line: 2944, col: 10, offset: 93182},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29987,28 +29987,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30017,9 +30017,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -30028,30 +30028,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 794, col: 5, offset: 25704},
+																				pos: position{line: 794, col: 5, offset: 25706},
 																				run: (*parser).callonExtraListElement720,
 																				expr: &seqExpr{
-																					pos: position{line: 794, col: 5, offset: 25704},
+																					pos: position{line: 794, col: 5, offset: 25706},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 794, col: 5, offset: 25704},
+																							pos:   position{line: 794, col: 5, offset: 25706},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 794, col: 16, offset: 25715},
+																								pos: position{line: 794, col: 16, offset: 25717},
 																								run: (*parser).callonExtraListElement723,
 																								expr: &seqExpr{
-																									pos: position{line: 794, col: 16, offset: 25715},
+																									pos: position{line: 794, col: 16, offset: 25717},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 794, col: 16, offset: 25715},
+																											pos:        position{line: 794, col: 16, offset: 25717},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 794, col: 23, offset: 25722},
+																											pos: position{line: 794, col: 23, offset: 25724},
 																											expr: &litMatcher{
-																												pos:        position{line: 794, col: 23, offset: 25722},
+																												pos:        position{line: 794, col: 23, offset: 25724},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -30062,12 +30062,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 796, col: 8, offset: 25806},
+																							pos: position{line: 796, col: 8, offset: 25808},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93180},
+																								pos: position{line: 2944, col: 10, offset: 93182},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93180},
+																									pos:        position{line: 2944, col: 10, offset: 93182},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30076,28 +30076,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30106,9 +30106,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -30117,30 +30117,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 808, col: 5, offset: 26180},
+																				pos: position{line: 808, col: 5, offset: 26182},
 																				run: (*parser).callonExtraListElement739,
 																				expr: &seqExpr{
-																					pos: position{line: 808, col: 5, offset: 26180},
+																					pos: position{line: 808, col: 5, offset: 26182},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 808, col: 5, offset: 26180},
+																							pos:   position{line: 808, col: 5, offset: 26182},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 808, col: 16, offset: 26191},
+																								pos: position{line: 808, col: 16, offset: 26193},
 																								run: (*parser).callonExtraListElement742,
 																								expr: &seqExpr{
-																									pos: position{line: 808, col: 16, offset: 26191},
+																									pos: position{line: 808, col: 16, offset: 26193},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 808, col: 16, offset: 26191},
+																											pos:        position{line: 808, col: 16, offset: 26193},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 808, col: 23, offset: 26198},
+																											pos: position{line: 808, col: 23, offset: 26200},
 																											expr: &litMatcher{
-																												pos:        position{line: 808, col: 23, offset: 26198},
+																												pos:        position{line: 808, col: 23, offset: 26200},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -30151,12 +30151,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 810, col: 8, offset: 26282},
+																							pos: position{line: 810, col: 8, offset: 26284},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93180},
+																								pos: position{line: 2944, col: 10, offset: 93182},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93180},
+																									pos:        position{line: 2944, col: 10, offset: 93182},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30165,28 +30165,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30195,9 +30195,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -30206,30 +30206,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 815, col: 5, offset: 26432},
+																				pos: position{line: 815, col: 5, offset: 26434},
 																				run: (*parser).callonExtraListElement758,
 																				expr: &seqExpr{
-																					pos: position{line: 815, col: 5, offset: 26432},
+																					pos: position{line: 815, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 815, col: 5, offset: 26432},
+																							pos:   position{line: 815, col: 5, offset: 26434},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 815, col: 16, offset: 26443},
+																								pos: position{line: 815, col: 16, offset: 26445},
 																								run: (*parser).callonExtraListElement761,
 																								expr: &seqExpr{
-																									pos: position{line: 815, col: 16, offset: 26443},
+																									pos: position{line: 815, col: 16, offset: 26445},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 815, col: 16, offset: 26443},
+																											pos:        position{line: 815, col: 16, offset: 26445},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 815, col: 23, offset: 26450},
+																											pos: position{line: 815, col: 23, offset: 26452},
 																											expr: &litMatcher{
-																												pos:        position{line: 815, col: 23, offset: 26450},
+																												pos:        position{line: 815, col: 23, offset: 26452},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -30240,12 +30240,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 817, col: 8, offset: 26534},
+																							pos: position{line: 817, col: 8, offset: 26536},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93180},
+																								pos: position{line: 2944, col: 10, offset: 93182},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93180},
+																									pos:        position{line: 2944, col: 10, offset: 93182},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30254,28 +30254,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30284,9 +30284,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -30295,30 +30295,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 822, col: 5, offset: 26682},
+																				pos: position{line: 822, col: 5, offset: 26684},
 																				run: (*parser).callonExtraListElement777,
 																				expr: &seqExpr{
-																					pos: position{line: 822, col: 5, offset: 26682},
+																					pos: position{line: 822, col: 5, offset: 26684},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 822, col: 5, offset: 26682},
+																							pos:   position{line: 822, col: 5, offset: 26684},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 822, col: 16, offset: 26693},
+																								pos: position{line: 822, col: 16, offset: 26695},
 																								run: (*parser).callonExtraListElement780,
 																								expr: &seqExpr{
-																									pos: position{line: 822, col: 16, offset: 26693},
+																									pos: position{line: 822, col: 16, offset: 26695},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 822, col: 16, offset: 26693},
+																											pos:        position{line: 822, col: 16, offset: 26695},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 822, col: 23, offset: 26700},
+																											pos: position{line: 822, col: 23, offset: 26702},
 																											expr: &litMatcher{
-																												pos:        position{line: 822, col: 23, offset: 26700},
+																												pos:        position{line: 822, col: 23, offset: 26702},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -30329,12 +30329,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 824, col: 8, offset: 26784},
+																							pos: position{line: 824, col: 8, offset: 26786},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93180},
+																								pos: position{line: 2944, col: 10, offset: 93182},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93180},
+																									pos:        position{line: 2944, col: 10, offset: 93182},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30343,28 +30343,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30373,9 +30373,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -30384,30 +30384,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 829, col: 5, offset: 26928},
+																				pos: position{line: 829, col: 5, offset: 26930},
 																				run: (*parser).callonExtraListElement796,
 																				expr: &seqExpr{
-																					pos: position{line: 829, col: 5, offset: 26928},
+																					pos: position{line: 829, col: 5, offset: 26930},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 829, col: 5, offset: 26928},
+																							pos:   position{line: 829, col: 5, offset: 26930},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 829, col: 16, offset: 26939},
+																								pos: position{line: 829, col: 16, offset: 26941},
 																								run: (*parser).callonExtraListElement799,
 																								expr: &seqExpr{
-																									pos: position{line: 829, col: 16, offset: 26939},
+																									pos: position{line: 829, col: 16, offset: 26941},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 829, col: 16, offset: 26939},
+																											pos:        position{line: 829, col: 16, offset: 26941},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 829, col: 23, offset: 26946},
+																											pos: position{line: 829, col: 23, offset: 26948},
 																											expr: &litMatcher{
-																												pos:        position{line: 829, col: 23, offset: 26946},
+																												pos:        position{line: 829, col: 23, offset: 26948},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -30418,12 +30418,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 831, col: 8, offset: 27030},
+																							pos: position{line: 831, col: 8, offset: 27032},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93180},
+																								pos: position{line: 2944, col: 10, offset: 93182},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93180},
+																									pos:        position{line: 2944, col: 10, offset: 93182},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30432,28 +30432,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30462,9 +30462,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -30480,15 +30480,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1542, col: 5, offset: 50303},
+													pos:   position{line: 1542, col: 5, offset: 50305},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2894, col: 14, offset: 91773},
+														pos: position{line: 2894, col: 14, offset: 91775},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2894, col: 14, offset: 91773},
+															pos: position{line: 2894, col: 14, offset: 91775},
 															expr: &charClassMatcher{
-																pos:        position{line: 2894, col: 14, offset: 91773},
+																pos:        position{line: 2894, col: 14, offset: 91775},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -30498,28 +30498,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2966, col: 8, offset: 93578},
+													pos: position{line: 2966, col: 8, offset: 93580},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93351},
+															pos: position{line: 2953, col: 12, offset: 93353},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93352},
+																pos: position{line: 2953, col: 13, offset: 93354},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93352},
+																		pos:        position{line: 2953, col: 13, offset: 93354},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93359},
+																		pos:        position{line: 2953, col: 20, offset: 93361},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93368},
+																		pos:        position{line: 2953, col: 29, offset: 93370},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30528,9 +30528,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93528},
+															pos: position{line: 2963, col: 8, offset: 93530},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93529,
+																line: 2963, col: 9, offset: 93531,
 															},
 														},
 													},
@@ -30547,28 +30547,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1558, col: 1, offset: 50694},
+			pos:  position{line: 1558, col: 1, offset: 50696},
 			expr: &actionExpr{
-				pos: position{line: 1559, col: 5, offset: 50719},
+				pos: position{line: 1559, col: 5, offset: 50721},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1559, col: 5, offset: 50719},
+					pos: position{line: 1559, col: 5, offset: 50721},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1559, col: 5, offset: 50719},
+							pos:   position{line: 1559, col: 5, offset: 50721},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1559, col: 12, offset: 50726},
+								pos: position{line: 1559, col: 12, offset: 50728},
 								expr: &seqExpr{
-									pos: position{line: 1559, col: 13, offset: 50727},
+									pos: position{line: 1559, col: 13, offset: 50729},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1559, col: 13, offset: 50727},
+											pos: position{line: 1559, col: 13, offset: 50729},
 											expr: &actionExpr{
-												pos: position{line: 2944, col: 10, offset: 93180},
+												pos: position{line: 2944, col: 10, offset: 93182},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2944, col: 10, offset: 93180},
+													pos:        position{line: 2944, col: 10, offset: 93182},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -30577,25 +30577,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2953, col: 12, offset: 93351},
+											pos: position{line: 2953, col: 12, offset: 93353},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2953, col: 13, offset: 93352},
+												pos: position{line: 2953, col: 13, offset: 93354},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2953, col: 13, offset: 93352},
+														pos:        position{line: 2953, col: 13, offset: 93354},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2953, col: 20, offset: 93359},
+														pos:        position{line: 2953, col: 20, offset: 93361},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2953, col: 29, offset: 93368},
+														pos:        position{line: 2953, col: 29, offset: 93370},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -30608,18 +30608,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1567, col: 27, offset: 50965},
+							pos:        position{line: 1567, col: 27, offset: 50967},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1567, col: 31, offset: 50969},
+							pos: position{line: 1567, col: 31, offset: 50971},
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 10, offset: 93180},
+								pos: position{line: 2944, col: 10, offset: 93182},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2944, col: 10, offset: 93180},
+									pos:        position{line: 2944, col: 10, offset: 93182},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -30628,25 +30628,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2953, col: 12, offset: 93351},
+							pos: position{line: 2953, col: 12, offset: 93353},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2953, col: 13, offset: 93352},
+								pos: position{line: 2953, col: 13, offset: 93354},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2953, col: 13, offset: 93352},
+										pos:        position{line: 2953, col: 13, offset: 93354},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2953, col: 20, offset: 93359},
+										pos:        position{line: 2953, col: 20, offset: 93361},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2953, col: 29, offset: 93368},
+										pos:        position{line: 2953, col: 29, offset: 93370},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -30655,38 +30655,38 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1561, col: 5, offset: 50776},
+							pos: position{line: 1561, col: 5, offset: 50778},
 							expr: &actionExpr{
-								pos: position{line: 2538, col: 22, offset: 81740},
+								pos: position{line: 2538, col: 22, offset: 81742},
 								run: (*parser).callonListContinuation24,
 								expr: &seqExpr{
-									pos: position{line: 2538, col: 22, offset: 81740},
+									pos: position{line: 2538, col: 22, offset: 81742},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2543, col: 31, offset: 81990},
+											pos:        position{line: 2543, col: 31, offset: 81992},
 											val:        "//",
 											ignoreCase: false,
 											want:       "\"//\"",
 										},
 										&notExpr{
-											pos: position{line: 2543, col: 36, offset: 81995},
+											pos: position{line: 2543, col: 36, offset: 81997},
 											expr: &litMatcher{
-												pos:        position{line: 2543, col: 37, offset: 81996},
+												pos:        position{line: 2543, col: 37, offset: 81998},
 												val:        "/",
 												ignoreCase: false,
 												want:       "\"/\"",
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2538, col: 49, offset: 81767},
+											pos:   position{line: 2538, col: 49, offset: 81769},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2890, col: 13, offset: 91706},
+												pos: position{line: 2890, col: 13, offset: 91708},
 												run: (*parser).callonListContinuation30,
 												expr: &zeroOrMoreExpr{
-													pos: position{line: 2890, col: 13, offset: 91706},
+													pos: position{line: 2890, col: 13, offset: 91708},
 													expr: &charClassMatcher{
-														pos:        position{line: 2890, col: 13, offset: 91706},
+														pos:        position{line: 2890, col: 13, offset: 91708},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -30696,28 +30696,28 @@ var g = &grammar{
 											},
 										},
 										&choiceExpr{
-											pos: position{line: 2966, col: 8, offset: 93578},
+											pos: position{line: 2966, col: 8, offset: 93580},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2953, col: 12, offset: 93351},
+													pos: position{line: 2953, col: 12, offset: 93353},
 													run: (*parser).callonListContinuation34,
 													expr: &choiceExpr{
-														pos: position{line: 2953, col: 13, offset: 93352},
+														pos: position{line: 2953, col: 13, offset: 93354},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2953, col: 13, offset: 93352},
+																pos:        position{line: 2953, col: 13, offset: 93354},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2953, col: 20, offset: 93359},
+																pos:        position{line: 2953, col: 20, offset: 93361},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2953, col: 29, offset: 93368},
+																pos:        position{line: 2953, col: 29, offset: 93370},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -30726,9 +30726,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2963, col: 8, offset: 93528},
+													pos: position{line: 2963, col: 8, offset: 93530},
 													expr: &anyMatcher{
-														line: 2963, col: 9, offset: 93529,
+														line: 2963, col: 9, offset: 93531,
 													},
 												},
 											},
@@ -30738,12 +30738,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1562, col: 5, offset: 50810},
+							pos:   position{line: 1562, col: 5, offset: 50812},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1562, col: 13, offset: 50818},
+								pos: position{line: 1562, col: 13, offset: 50820},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1562, col: 13, offset: 50818},
+									pos:  position{line: 1562, col: 13, offset: 50820},
 									name: "ListContinuationElement",
 								},
 							},
@@ -30754,46 +30754,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1569, col: 1, offset: 50985},
+			pos:  position{line: 1569, col: 1, offset: 50987},
 			expr: &actionExpr{
-				pos: position{line: 1570, col: 5, offset: 51056},
+				pos: position{line: 1570, col: 5, offset: 51058},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1570, col: 5, offset: 51056},
+					pos: position{line: 1570, col: 5, offset: 51058},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2961, col: 11, offset: 93514},
+							pos: position{line: 2961, col: 11, offset: 93516},
 							expr: &anyMatcher{
-								line: 2961, col: 13, offset: 93516,
+								line: 2961, col: 13, offset: 93518,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1571, col: 5, offset: 51084},
+							pos: position{line: 1571, col: 5, offset: 51086},
 							expr: &choiceExpr{
-								pos: position{line: 1507, col: 5, offset: 49008},
+								pos: position{line: 1507, col: 5, offset: 49010},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1601, col: 5, offset: 51976},
+										pos: position{line: 1601, col: 5, offset: 51978},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1601, col: 5, offset: 51976},
+											pos: position{line: 1601, col: 5, offset: 51978},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1601, col: 5, offset: 51976},
+													pos:   position{line: 1601, col: 5, offset: 51978},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1608, col: 5, offset: 52184},
+														pos: position{line: 1608, col: 5, offset: 52186},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1608, col: 5, offset: 52184},
+															pos: position{line: 1608, col: 5, offset: 52186},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1608, col: 5, offset: 52184},
+																	pos: position{line: 1608, col: 5, offset: 52186},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93180},
+																		pos: position{line: 2944, col: 10, offset: 93182},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93180},
+																			pos:        position{line: 2944, col: 10, offset: 93182},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30802,27 +30802,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1608, col: 12, offset: 52191},
+																	pos:   position{line: 1608, col: 12, offset: 52193},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1610, col: 9, offset: 52254},
+																		pos: position{line: 1610, col: 9, offset: 52256},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1610, col: 9, offset: 52254},
+																				pos: position{line: 1610, col: 9, offset: 52256},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 9, offset: 52254},
+																					pos: position{line: 1610, col: 9, offset: 52256},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1610, col: 9, offset: 52254},
+																							pos:   position{line: 1610, col: 9, offset: 52256},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1610, col: 16, offset: 52261},
+																								pos: position{line: 1610, col: 16, offset: 52263},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1610, col: 16, offset: 52261},
+																									pos: position{line: 1610, col: 16, offset: 52263},
 																									expr: &litMatcher{
-																										pos:        position{line: 1610, col: 17, offset: 52262},
+																										pos:        position{line: 1610, col: 17, offset: 52264},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -30831,22 +30831,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1614, col: 9, offset: 52362},
+																							pos: position{line: 1614, col: 9, offset: 52364},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1633, col: 11, offset: 53079},
+																				pos: position{line: 1633, col: 11, offset: 53081},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1633, col: 11, offset: 53079},
+																					pos: position{line: 1633, col: 11, offset: 53081},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1633, col: 11, offset: 53079},
+																							pos: position{line: 1633, col: 11, offset: 53081},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1633, col: 12, offset: 53080},
+																								pos:        position{line: 1633, col: 12, offset: 53082},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -30854,7 +30854,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1633, col: 20, offset: 53088},
+																							pos:        position{line: 1633, col: 20, offset: 53090},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30863,20 +30863,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1635, col: 13, offset: 53205},
+																				pos: position{line: 1635, col: 13, offset: 53207},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1635, col: 13, offset: 53205},
+																					pos: position{line: 1635, col: 13, offset: 53207},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1635, col: 14, offset: 53206},
+																							pos:        position{line: 1635, col: 14, offset: 53208},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1635, col: 21, offset: 53213},
+																							pos:        position{line: 1635, col: 21, offset: 53215},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30885,20 +30885,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1637, col: 13, offset: 53333},
+																				pos: position{line: 1637, col: 13, offset: 53335},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1637, col: 13, offset: 53333},
+																					pos: position{line: 1637, col: 13, offset: 53335},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1637, col: 14, offset: 53334},
+																							pos:        position{line: 1637, col: 14, offset: 53336},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1637, col: 21, offset: 53341},
+																							pos:        position{line: 1637, col: 21, offset: 53343},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30907,15 +30907,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1639, col: 13, offset: 53461},
+																				pos: position{line: 1639, col: 13, offset: 53463},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1639, col: 13, offset: 53461},
+																					pos: position{line: 1639, col: 13, offset: 53463},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1639, col: 13, offset: 53461},
+																							pos: position{line: 1639, col: 13, offset: 53463},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1639, col: 14, offset: 53462},
+																								pos:        position{line: 1639, col: 14, offset: 53464},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -30923,7 +30923,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1639, col: 26, offset: 53474},
+																							pos:        position{line: 1639, col: 26, offset: 53476},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30932,15 +30932,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1641, col: 13, offset: 53594},
+																				pos: position{line: 1641, col: 13, offset: 53596},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1641, col: 13, offset: 53594},
+																					pos: position{line: 1641, col: 13, offset: 53596},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1641, col: 13, offset: 53594},
+																							pos: position{line: 1641, col: 13, offset: 53596},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1641, col: 14, offset: 53595},
+																								pos:        position{line: 1641, col: 14, offset: 53597},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -30948,7 +30948,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1641, col: 26, offset: 53607},
+																							pos:        position{line: 1641, col: 26, offset: 53609},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30960,12 +30960,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2948, col: 11, offset: 93241},
+																	pos: position{line: 2948, col: 11, offset: 93243},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2948, col: 11, offset: 93241},
+																		pos: position{line: 2948, col: 11, offset: 93243},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2948, col: 11, offset: 93241},
+																			pos:        position{line: 2948, col: 11, offset: 93243},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30978,26 +30978,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1602, col: 5, offset: 52015},
+													pos:   position{line: 1602, col: 5, offset: 52017},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1548, col: 5, offset: 50448},
+														pos: position{line: 1548, col: 5, offset: 50450},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1548, col: 5, offset: 50448},
+															pos: position{line: 1548, col: 5, offset: 50450},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1548, col: 5, offset: 50448},
+																	pos:   position{line: 1548, col: 5, offset: 50450},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1548, col: 14, offset: 50457},
+																		pos: position{line: 1548, col: 14, offset: 50459},
 																		expr: &actionExpr{
-																			pos: position{line: 1548, col: 15, offset: 50458},
+																			pos: position{line: 1548, col: 15, offset: 50460},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1548, col: 15, offset: 50458},
+																				pos: position{line: 1548, col: 15, offset: 50460},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1548, col: 15, offset: 50458},
+																					pos:        position{line: 1548, col: 15, offset: 50460},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -31008,28 +31008,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93578},
+																	pos: position{line: 2966, col: 8, offset: 93580},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93351},
+																			pos: position{line: 2953, col: 12, offset: 93353},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93352},
+																				pos: position{line: 2953, col: 13, offset: 93354},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93352},
+																						pos:        position{line: 2953, col: 13, offset: 93354},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93359},
+																						pos:        position{line: 2953, col: 20, offset: 93361},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93368},
+																						pos:        position{line: 2953, col: 29, offset: 93370},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31038,9 +31038,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93528},
+																			pos: position{line: 2963, col: 8, offset: 93530},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93529,
+																				line: 2963, col: 9, offset: 93531,
 																			},
 																		},
 																	},
@@ -31053,27 +31053,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1651, col: 5, offset: 53873},
+										pos: position{line: 1651, col: 5, offset: 53875},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1651, col: 5, offset: 53873},
+											pos: position{line: 1651, col: 5, offset: 53875},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1651, col: 5, offset: 53873},
+													pos:   position{line: 1651, col: 5, offset: 53875},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1658, col: 5, offset: 54146},
+														pos: position{line: 1658, col: 5, offset: 54148},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1658, col: 5, offset: 54146},
+															pos: position{line: 1658, col: 5, offset: 54148},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1658, col: 5, offset: 54146},
+																	pos: position{line: 1658, col: 5, offset: 54148},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93180},
+																		pos: position{line: 2944, col: 10, offset: 93182},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93180},
+																			pos:        position{line: 2944, col: 10, offset: 93182},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31082,24 +31082,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1659, col: 5, offset: 54158},
+																	pos:   position{line: 1659, col: 5, offset: 54160},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1660, col: 9, offset: 54174},
+																		pos: position{line: 1660, col: 9, offset: 54176},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1660, col: 10, offset: 54175},
+																			pos: position{line: 1660, col: 10, offset: 54177},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1660, col: 11, offset: 54176},
+																					pos:        position{line: 1660, col: 11, offset: 54178},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1660, col: 18, offset: 54183},
+																					pos: position{line: 1660, col: 18, offset: 54185},
 																					expr: &litMatcher{
-																						pos:        position{line: 1660, col: 19, offset: 54184},
+																						pos:        position{line: 1660, col: 19, offset: 54186},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -31110,16 +31110,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1663, col: 7, offset: 54274},
+																	pos: position{line: 1663, col: 7, offset: 54276},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2948, col: 11, offset: 93241},
+																	pos: position{line: 2948, col: 11, offset: 93243},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2948, col: 11, offset: 93241},
+																		pos: position{line: 2948, col: 11, offset: 93243},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2948, col: 11, offset: 93241},
+																			pos:        position{line: 2948, col: 11, offset: 93243},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31132,56 +31132,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1652, col: 5, offset: 53914},
+													pos:   position{line: 1652, col: 5, offset: 53916},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1652, col: 16, offset: 53925},
+														pos: position{line: 1652, col: 16, offset: 53927},
 														expr: &actionExpr{
-															pos: position{line: 1673, col: 5, offset: 54539},
+															pos: position{line: 1673, col: 5, offset: 54541},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1673, col: 5, offset: 54539},
+																pos: position{line: 1673, col: 5, offset: 54541},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1673, col: 5, offset: 54539},
+																		pos: position{line: 1673, col: 5, offset: 54541},
 																		expr: &litMatcher{
-																			pos:        position{line: 1673, col: 6, offset: 54540},
+																			pos:        position{line: 1673, col: 6, offset: 54542},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1673, col: 10, offset: 54544},
+																		pos:   position{line: 1673, col: 10, offset: 54546},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1674, col: 7, offset: 54558},
+																			pos: position{line: 1674, col: 7, offset: 54560},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1674, col: 7, offset: 54558},
+																					pos: position{line: 1674, col: 7, offset: 54560},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1674, col: 7, offset: 54558},
+																						pos:        position{line: 1674, col: 7, offset: 54560},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1675, col: 7, offset: 54603},
+																					pos: position{line: 1675, col: 7, offset: 54605},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1675, col: 7, offset: 54603},
+																						pos:        position{line: 1675, col: 7, offset: 54605},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1676, col: 7, offset: 54646},
+																					pos: position{line: 1676, col: 7, offset: 54648},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1676, col: 7, offset: 54646},
+																						pos:        position{line: 1676, col: 7, offset: 54648},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -31191,12 +31191,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2948, col: 11, offset: 93241},
+																		pos: position{line: 2948, col: 11, offset: 93243},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2948, col: 11, offset: 93241},
+																			pos: position{line: 2948, col: 11, offset: 93243},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2948, col: 11, offset: 93241},
+																				pos:        position{line: 2948, col: 11, offset: 93243},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -31210,26 +31210,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1653, col: 5, offset: 53964},
+													pos:   position{line: 1653, col: 5, offset: 53966},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1548, col: 5, offset: 50448},
+														pos: position{line: 1548, col: 5, offset: 50450},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1548, col: 5, offset: 50448},
+															pos: position{line: 1548, col: 5, offset: 50450},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1548, col: 5, offset: 50448},
+																	pos:   position{line: 1548, col: 5, offset: 50450},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1548, col: 14, offset: 50457},
+																		pos: position{line: 1548, col: 14, offset: 50459},
 																		expr: &actionExpr{
-																			pos: position{line: 1548, col: 15, offset: 50458},
+																			pos: position{line: 1548, col: 15, offset: 50460},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1548, col: 15, offset: 50458},
+																				pos: position{line: 1548, col: 15, offset: 50460},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1548, col: 15, offset: 50458},
+																					pos:        position{line: 1548, col: 15, offset: 50460},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -31240,28 +31240,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93578},
+																	pos: position{line: 2966, col: 8, offset: 93580},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93351},
+																			pos: position{line: 2953, col: 12, offset: 93353},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93352},
+																				pos: position{line: 2953, col: 13, offset: 93354},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93352},
+																						pos:        position{line: 2953, col: 13, offset: 93354},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93359},
+																						pos:        position{line: 2953, col: 20, offset: 93361},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93368},
+																						pos:        position{line: 2953, col: 29, offset: 93370},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31270,9 +31270,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93528},
+																			pos: position{line: 2963, col: 8, offset: 93530},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93529,
+																				line: 2963, col: 9, offset: 93531,
 																			},
 																		},
 																	},
@@ -31285,36 +31285,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1742, col: 5, offset: 56518},
+										pos: position{line: 1742, col: 5, offset: 56520},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1742, col: 5, offset: 56518},
+											pos: position{line: 1742, col: 5, offset: 56520},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1742, col: 5, offset: 56518},
+													pos:   position{line: 1742, col: 5, offset: 56520},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1748, col: 5, offset: 56715},
+														pos: position{line: 1748, col: 5, offset: 56717},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1748, col: 5, offset: 56715},
+															pos: position{line: 1748, col: 5, offset: 56717},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1748, col: 5, offset: 56715},
+																	pos:        position{line: 1748, col: 5, offset: 56717},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1748, col: 9, offset: 56719},
+																	pos:   position{line: 1748, col: 9, offset: 56721},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1748, col: 14, offset: 56724},
+																		pos: position{line: 1748, col: 14, offset: 56726},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1748, col: 14, offset: 56724},
+																			pos: position{line: 1748, col: 14, offset: 56726},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1748, col: 14, offset: 56724},
+																				pos:        position{line: 1748, col: 14, offset: 56726},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -31324,18 +31324,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1748, col: 62, offset: 56772},
+																	pos:        position{line: 1748, col: 62, offset: 56774},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2948, col: 11, offset: 93241},
+																	pos: position{line: 2948, col: 11, offset: 93243},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2948, col: 11, offset: 93241},
+																		pos: position{line: 2948, col: 11, offset: 93243},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2948, col: 11, offset: 93241},
+																			pos:        position{line: 2948, col: 11, offset: 93243},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31348,26 +31348,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1743, col: 5, offset: 56554},
+													pos:   position{line: 1743, col: 5, offset: 56556},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1548, col: 5, offset: 50448},
+														pos: position{line: 1548, col: 5, offset: 50450},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1548, col: 5, offset: 50448},
+															pos: position{line: 1548, col: 5, offset: 50450},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1548, col: 5, offset: 50448},
+																	pos:   position{line: 1548, col: 5, offset: 50450},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1548, col: 14, offset: 50457},
+																		pos: position{line: 1548, col: 14, offset: 50459},
 																		expr: &actionExpr{
-																			pos: position{line: 1548, col: 15, offset: 50458},
+																			pos: position{line: 1548, col: 15, offset: 50460},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1548, col: 15, offset: 50458},
+																				pos: position{line: 1548, col: 15, offset: 50460},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1548, col: 15, offset: 50458},
+																					pos:        position{line: 1548, col: 15, offset: 50460},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -31378,28 +31378,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93578},
+																	pos: position{line: 2966, col: 8, offset: 93580},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93351},
+																			pos: position{line: 2953, col: 12, offset: 93353},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93352},
+																				pos: position{line: 2953, col: 13, offset: 93354},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93352},
+																						pos:        position{line: 2953, col: 13, offset: 93354},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93359},
+																						pos:        position{line: 2953, col: 20, offset: 93361},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93368},
+																						pos:        position{line: 2953, col: 29, offset: 93370},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31408,9 +31408,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93528},
+																			pos: position{line: 2963, col: 8, offset: 93530},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93529,
+																				line: 2963, col: 9, offset: 93531,
 																			},
 																		},
 																	},
@@ -31423,35 +31423,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1685, col: 5, offset: 54839},
+										pos: position{line: 1685, col: 5, offset: 54841},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1685, col: 5, offset: 54839},
+											pos: position{line: 1685, col: 5, offset: 54841},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1685, col: 5, offset: 54839},
+													pos:   position{line: 1685, col: 5, offset: 54841},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1693, col: 5, offset: 55165},
+														pos: position{line: 1693, col: 5, offset: 55167},
 														run: (*parser).callonListContinuationElement150,
 														expr: &seqExpr{
-															pos: position{line: 1693, col: 5, offset: 55165},
+															pos: position{line: 1693, col: 5, offset: 55167},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1693, col: 5, offset: 55165},
+																	pos: position{line: 1693, col: 5, offset: 55167},
 																	expr: &seqExpr{
-																		pos: position{line: 2543, col: 31, offset: 81990},
+																		pos: position{line: 2543, col: 31, offset: 81992},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2543, col: 31, offset: 81990},
+																				pos:        position{line: 2543, col: 31, offset: 81992},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2543, col: 36, offset: 81995},
+																				pos: position{line: 2543, col: 36, offset: 81997},
 																				expr: &litMatcher{
-																					pos:        position{line: 2543, col: 37, offset: 81996},
+																					pos:        position{line: 2543, col: 37, offset: 81998},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -31461,28 +31461,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1694, col: 5, offset: 55197},
+																	pos: position{line: 1694, col: 5, offset: 55199},
 																	expr: &seqExpr{
-																		pos: position{line: 1694, col: 6, offset: 55198},
+																		pos: position{line: 1694, col: 6, offset: 55200},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1694, col: 6, offset: 55198},
+																				pos: position{line: 1694, col: 6, offset: 55200},
 																				expr: &actionExpr{
-																					pos: position{line: 1699, col: 5, offset: 55348},
+																					pos: position{line: 1699, col: 5, offset: 55350},
 																					run: (*parser).callonListContinuationElement160,
 																					expr: &seqExpr{
-																						pos: position{line: 1699, col: 5, offset: 55348},
+																						pos: position{line: 1699, col: 5, offset: 55350},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1699, col: 5, offset: 55348},
+																								pos:   position{line: 1699, col: 5, offset: 55350},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1699, col: 16, offset: 55359},
+																									pos: position{line: 1699, col: 16, offset: 55361},
 																									run: (*parser).callonListContinuationElement163,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1699, col: 16, offset: 55359},
+																										pos: position{line: 1699, col: 16, offset: 55361},
 																										expr: &litMatcher{
-																											pos:        position{line: 1699, col: 17, offset: 55360},
+																											pos:        position{line: 1699, col: 17, offset: 55362},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -31491,7 +31491,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1702, col: 5, offset: 55417},
+																								pos: position{line: 1702, col: 5, offset: 55419},
 																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
@@ -31499,30 +31499,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1694, col: 35, offset: 55227},
+																				pos: position{line: 1694, col: 35, offset: 55229},
 																				expr: &choiceExpr{
-																					pos: position{line: 2966, col: 8, offset: 93578},
+																					pos: position{line: 2966, col: 8, offset: 93580},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2953, col: 12, offset: 93351},
+																							pos: position{line: 2953, col: 12, offset: 93353},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2953, col: 13, offset: 93352},
+																								pos: position{line: 2953, col: 13, offset: 93354},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 13, offset: 93352},
+																										pos:        position{line: 2953, col: 13, offset: 93354},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 20, offset: 93359},
+																										pos:        position{line: 2953, col: 20, offset: 93361},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 29, offset: 93368},
+																										pos:        position{line: 2953, col: 29, offset: 93370},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31531,16 +31531,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93528},
+																							pos: position{line: 2963, col: 8, offset: 93530},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93529,
+																								line: 2963, col: 9, offset: 93531,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1694, col: 40, offset: 55232,
+																				line: 1694, col: 40, offset: 55234,
 																			},
 																		},
 																	},
@@ -31550,24 +31550,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1686, col: 5, offset: 54874},
+													pos:   position{line: 1686, col: 5, offset: 54876},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1699, col: 5, offset: 55348},
+														pos: position{line: 1699, col: 5, offset: 55350},
 														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1699, col: 5, offset: 55348},
+															pos: position{line: 1699, col: 5, offset: 55350},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1699, col: 5, offset: 55348},
+																	pos:   position{line: 1699, col: 5, offset: 55350},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1699, col: 16, offset: 55359},
+																		pos: position{line: 1699, col: 16, offset: 55361},
 																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1699, col: 16, offset: 55359},
+																			pos: position{line: 1699, col: 16, offset: 55361},
 																			expr: &litMatcher{
-																				pos:        position{line: 1699, col: 17, offset: 55360},
+																				pos:        position{line: 1699, col: 17, offset: 55362},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -31576,7 +31576,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1702, col: 5, offset: 55417},
+																	pos: position{line: 1702, col: 5, offset: 55419},
 																	run: (*parser).callonListContinuationElement184,
 																},
 															},
@@ -31584,24 +31584,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1687, col: 5, offset: 54919},
+													pos:   position{line: 1687, col: 5, offset: 54921},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1710, col: 5, offset: 55666},
+														pos: position{line: 1710, col: 5, offset: 55668},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1712, col: 9, offset: 55732},
+																pos: position{line: 1712, col: 9, offset: 55734},
 																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1712, col: 9, offset: 55732},
+																	pos: position{line: 1712, col: 9, offset: 55734},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1712, col: 9, offset: 55732},
+																			pos: position{line: 1712, col: 9, offset: 55734},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93180},
+																				pos: position{line: 2944, col: 10, offset: 93182},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93180},
+																					pos:        position{line: 2944, col: 10, offset: 93182},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31610,28 +31610,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93578},
+																			pos: position{line: 2966, col: 8, offset: 93580},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93351},
+																					pos: position{line: 2953, col: 12, offset: 93353},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93352},
+																						pos: position{line: 2953, col: 13, offset: 93354},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93352},
+																								pos:        position{line: 2953, col: 13, offset: 93354},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93359},
+																								pos:        position{line: 2953, col: 20, offset: 93361},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93368},
+																								pos:        position{line: 2953, col: 29, offset: 93370},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31640,34 +31640,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1713, col: 9, offset: 55751},
+																			pos: position{line: 1713, col: 9, offset: 55753},
 																			expr: &actionExpr{
-																				pos: position{line: 702, col: 14, offset: 22577},
+																				pos: position{line: 702, col: 14, offset: 22579},
 																				run: (*parser).callonListContinuationElement201,
 																				expr: &seqExpr{
-																					pos: position{line: 702, col: 14, offset: 22577},
+																					pos: position{line: 702, col: 14, offset: 22579},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2961, col: 11, offset: 93514},
+																							pos: position{line: 2961, col: 11, offset: 93516},
 																							expr: &anyMatcher{
-																								line: 2961, col: 13, offset: 93516,
+																								line: 2961, col: 13, offset: 93518,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 702, col: 21, offset: 22584},
+																							pos: position{line: 702, col: 21, offset: 22586},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93180},
+																								pos: position{line: 2944, col: 10, offset: 93182},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93180},
+																									pos:        position{line: 2944, col: 10, offset: 93182},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31676,28 +31676,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31706,9 +31706,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -31721,18 +31721,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1719, col: 9, offset: 55880},
+																pos: position{line: 1719, col: 9, offset: 55882},
 																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1719, col: 9, offset: 55880},
+																	pos: position{line: 1719, col: 9, offset: 55882},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2948, col: 11, offset: 93241},
+																			pos: position{line: 2948, col: 11, offset: 93243},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2948, col: 11, offset: 93241},
+																				pos: position{line: 2948, col: 11, offset: 93243},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2948, col: 11, offset: 93241},
+																					pos:        position{line: 2948, col: 11, offset: 93243},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31741,15 +31741,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1720, col: 9, offset: 55953},
+																			pos:   position{line: 1720, col: 9, offset: 55955},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1720, col: 18, offset: 55962},
+																				pos: position{line: 1720, col: 18, offset: 55964},
 																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1720, col: 18, offset: 55962},
+																					pos: position{line: 1720, col: 18, offset: 55964},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1720, col: 18, offset: 55962},
+																						pos:        position{line: 1720, col: 18, offset: 55964},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -31759,28 +31759,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93578},
+																			pos: position{line: 2966, col: 8, offset: 93580},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93351},
+																					pos: position{line: 2953, col: 12, offset: 93353},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93352},
+																						pos: position{line: 2953, col: 13, offset: 93354},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93352},
+																								pos:        position{line: 2953, col: 13, offset: 93354},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93359},
+																								pos:        position{line: 2953, col: 20, offset: 93361},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93368},
+																								pos:        position{line: 2953, col: 29, offset: 93370},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31789,9 +31789,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
@@ -31809,41 +31809,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1572, col: 5, offset: 51101},
+							pos:   position{line: 1572, col: 5, offset: 51103},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1572, col: 16, offset: 51112},
+								pos: position{line: 1572, col: 16, offset: 51114},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1572, col: 17, offset: 51113},
+									pos:  position{line: 1572, col: 17, offset: 51115},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1573, col: 5, offset: 51135},
+							pos:   position{line: 1573, col: 5, offset: 51137},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1574, col: 9, offset: 51153},
+								pos: position{line: 1574, col: 9, offset: 51155},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 702, col: 14, offset: 22577},
+										pos: position{line: 702, col: 14, offset: 22579},
 										run: (*parser).callonListContinuationElement238,
 										expr: &seqExpr{
-											pos: position{line: 702, col: 14, offset: 22577},
+											pos: position{line: 702, col: 14, offset: 22579},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2961, col: 11, offset: 93514},
+													pos: position{line: 2961, col: 11, offset: 93516},
 													expr: &anyMatcher{
-														line: 2961, col: 13, offset: 93516,
+														line: 2961, col: 13, offset: 93518,
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 702, col: 21, offset: 22584},
+													pos: position{line: 702, col: 21, offset: 22586},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93180},
+														pos: position{line: 2944, col: 10, offset: 93182},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93180},
+															pos:        position{line: 2944, col: 10, offset: 93182},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31852,28 +31852,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2966, col: 8, offset: 93578},
+													pos: position{line: 2966, col: 8, offset: 93580},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93351},
+															pos: position{line: 2953, col: 12, offset: 93353},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93352},
+																pos: position{line: 2953, col: 13, offset: 93354},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93352},
+																		pos:        position{line: 2953, col: 13, offset: 93354},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93359},
+																		pos:        position{line: 2953, col: 20, offset: 93361},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93368},
+																		pos:        position{line: 2953, col: 29, offset: 93370},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31882,9 +31882,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93528},
+															pos: position{line: 2963, col: 8, offset: 93530},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93529,
+																line: 2963, col: 9, offset: 93531,
 															},
 														},
 													},
@@ -31893,7 +31893,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1575, col: 11, offset: 51173},
+										pos:  position{line: 1575, col: 11, offset: 51175},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -31949,10 +31949,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 49, offset: 11042},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93180},
+														pos: position{line: 2944, col: 10, offset: 93182},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93180},
+															pos:        position{line: 2944, col: 10, offset: 93182},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31961,28 +31961,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2966, col: 8, offset: 93578},
+													pos: position{line: 2966, col: 8, offset: 93580},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93351},
+															pos: position{line: 2953, col: 12, offset: 93353},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93352},
+																pos: position{line: 2953, col: 13, offset: 93354},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93352},
+																		pos:        position{line: 2953, col: 13, offset: 93354},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93359},
+																		pos:        position{line: 2953, col: 20, offset: 93361},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93368},
+																		pos:        position{line: 2953, col: 29, offset: 93370},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31991,9 +31991,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93528},
+															pos: position{line: 2963, col: 8, offset: 93530},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93529,
+																line: 2963, col: 9, offset: 93531,
 															},
 														},
 													},
@@ -32054,10 +32054,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 364, col: 39, offset: 11163},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93180},
+														pos: position{line: 2944, col: 10, offset: 93182},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93180},
+															pos:        position{line: 2944, col: 10, offset: 93182},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32066,28 +32066,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2966, col: 8, offset: 93578},
+													pos: position{line: 2966, col: 8, offset: 93580},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93351},
+															pos: position{line: 2953, col: 12, offset: 93353},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93352},
+																pos: position{line: 2953, col: 13, offset: 93354},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93352},
+																		pos:        position{line: 2953, col: 13, offset: 93354},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93359},
+																		pos:        position{line: 2953, col: 20, offset: 93361},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93368},
+																		pos:        position{line: 2953, col: 29, offset: 93370},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32096,9 +32096,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93528},
+															pos: position{line: 2963, col: 8, offset: 93530},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93529,
+																line: 2963, col: 9, offset: 93531,
 															},
 														},
 													},
@@ -32107,36 +32107,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 845, col: 5, offset: 27412},
+										pos: position{line: 845, col: 5, offset: 27414},
 										run: (*parser).callonListContinuationElement296,
 										expr: &seqExpr{
-											pos: position{line: 845, col: 5, offset: 27412},
+											pos: position{line: 845, col: 5, offset: 27414},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 765, col: 5, offset: 24672},
+													pos: position{line: 765, col: 5, offset: 24674},
 													run: (*parser).callonListContinuationElement298,
 													expr: &seqExpr{
-														pos: position{line: 765, col: 5, offset: 24672},
+														pos: position{line: 765, col: 5, offset: 24674},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 765, col: 5, offset: 24672},
+																pos:   position{line: 765, col: 5, offset: 24674},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 765, col: 16, offset: 24683},
+																	pos: position{line: 765, col: 16, offset: 24685},
 																	run: (*parser).callonListContinuationElement301,
 																	expr: &seqExpr{
-																		pos: position{line: 765, col: 16, offset: 24683},
+																		pos: position{line: 765, col: 16, offset: 24685},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 765, col: 16, offset: 24683},
+																				pos:        position{line: 765, col: 16, offset: 24685},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 765, col: 23, offset: 24690},
+																				pos: position{line: 765, col: 23, offset: 24692},
 																				expr: &litMatcher{
-																					pos:        position{line: 765, col: 23, offset: 24690},
+																					pos:        position{line: 765, col: 23, offset: 24692},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -32147,12 +32147,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 767, col: 8, offset: 24774},
+																pos: position{line: 767, col: 8, offset: 24776},
 																expr: &actionExpr{
-																	pos: position{line: 2944, col: 10, offset: 93180},
+																	pos: position{line: 2944, col: 10, offset: 93182},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2944, col: 10, offset: 93180},
+																		pos:        position{line: 2944, col: 10, offset: 93182},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32161,28 +32161,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2966, col: 8, offset: 93578},
+																pos: position{line: 2966, col: 8, offset: 93580},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2953, col: 12, offset: 93351},
+																		pos: position{line: 2953, col: 12, offset: 93353},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2953, col: 13, offset: 93352},
+																			pos: position{line: 2953, col: 13, offset: 93354},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 13, offset: 93352},
+																					pos:        position{line: 2953, col: 13, offset: 93354},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 20, offset: 93359},
+																					pos:        position{line: 2953, col: 20, offset: 93361},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 29, offset: 93368},
+																					pos:        position{line: 2953, col: 29, offset: 93370},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32191,9 +32191,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93528},
+																		pos: position{line: 2963, col: 8, offset: 93530},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93529,
+																			line: 2963, col: 9, offset: 93531,
 																		},
 																	},
 																},
@@ -32202,46 +32202,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 846, col: 5, offset: 27443},
+													pos:   position{line: 846, col: 5, offset: 27445},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 856, col: 5, offset: 27729},
+														pos: position{line: 856, col: 5, offset: 27731},
 														expr: &actionExpr{
-															pos: position{line: 856, col: 6, offset: 27730},
+															pos: position{line: 856, col: 6, offset: 27732},
 															run: (*parser).callonListContinuationElement319,
 															expr: &seqExpr{
-																pos: position{line: 856, col: 6, offset: 27730},
+																pos: position{line: 856, col: 6, offset: 27732},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 856, col: 6, offset: 27730},
+																		pos: position{line: 856, col: 6, offset: 27732},
 																		expr: &choiceExpr{
-																			pos: position{line: 853, col: 29, offset: 27672},
+																			pos: position{line: 853, col: 29, offset: 27674},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 765, col: 5, offset: 24672},
+																					pos: position{line: 765, col: 5, offset: 24674},
 																					run: (*parser).callonListContinuationElement323,
 																					expr: &seqExpr{
-																						pos: position{line: 765, col: 5, offset: 24672},
+																						pos: position{line: 765, col: 5, offset: 24674},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 765, col: 5, offset: 24672},
+																								pos:   position{line: 765, col: 5, offset: 24674},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 765, col: 16, offset: 24683},
+																									pos: position{line: 765, col: 16, offset: 24685},
 																									run: (*parser).callonListContinuationElement326,
 																									expr: &seqExpr{
-																										pos: position{line: 765, col: 16, offset: 24683},
+																										pos: position{line: 765, col: 16, offset: 24685},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 765, col: 16, offset: 24683},
+																												pos:        position{line: 765, col: 16, offset: 24685},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 765, col: 23, offset: 24690},
+																												pos: position{line: 765, col: 23, offset: 24692},
 																												expr: &litMatcher{
-																													pos:        position{line: 765, col: 23, offset: 24690},
+																													pos:        position{line: 765, col: 23, offset: 24692},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -32252,12 +32252,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 767, col: 8, offset: 24774},
+																								pos: position{line: 767, col: 8, offset: 24776},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93180},
+																									pos: position{line: 2944, col: 10, offset: 93182},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93180},
+																										pos:        position{line: 2944, col: 10, offset: 93182},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -32266,28 +32266,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2966, col: 8, offset: 93578},
+																								pos: position{line: 2966, col: 8, offset: 93580},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2953, col: 12, offset: 93351},
+																										pos: position{line: 2953, col: 12, offset: 93353},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2953, col: 13, offset: 93352},
+																											pos: position{line: 2953, col: 13, offset: 93354},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 13, offset: 93352},
+																													pos:        position{line: 2953, col: 13, offset: 93354},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 20, offset: 93359},
+																													pos:        position{line: 2953, col: 20, offset: 93361},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 29, offset: 93368},
+																													pos:        position{line: 2953, col: 29, offset: 93370},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -32296,9 +32296,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93528},
+																										pos: position{line: 2963, col: 8, offset: 93530},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93529,
+																											line: 2963, col: 9, offset: 93531,
 																										},
 																									},
 																								},
@@ -32307,39 +32307,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 857, col: 5, offset: 27760},
+																		pos:   position{line: 857, col: 5, offset: 27762},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 836, col: 5, offset: 27176},
+																			pos: position{line: 836, col: 5, offset: 27178},
 																			run: (*parser).callonListContinuationElement345,
 																			expr: &seqExpr{
-																				pos: position{line: 836, col: 5, offset: 27176},
+																				pos: position{line: 836, col: 5, offset: 27178},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2961, col: 11, offset: 93514},
+																						pos: position{line: 2961, col: 11, offset: 93516},
 																						expr: &anyMatcher{
-																							line: 2961, col: 13, offset: 93516,
+																							line: 2961, col: 13, offset: 93518,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 837, col: 5, offset: 27251},
+																						pos:   position{line: 837, col: 5, offset: 27253},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 13, offset: 91706},
+																							pos: position{line: 2890, col: 13, offset: 91708},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2890, col: 13, offset: 91706},
+																								pos: position{line: 2890, col: 13, offset: 91708},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91706},
+																									pos:        position{line: 2890, col: 13, offset: 91708},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32349,28 +32349,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93578},
+																						pos: position{line: 2966, col: 8, offset: 93580},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93351},
+																								pos: position{line: 2953, col: 12, offset: 93353},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93352},
+																									pos: position{line: 2953, col: 13, offset: 93354},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93352},
+																											pos:        position{line: 2953, col: 13, offset: 93354},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93359},
+																											pos:        position{line: 2953, col: 20, offset: 93361},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93368},
+																											pos:        position{line: 2953, col: 29, offset: 93370},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32379,9 +32379,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93528},
+																								pos: position{line: 2963, col: 8, offset: 93530},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93529,
+																									line: 2963, col: 9, offset: 93531,
 																								},
 																							},
 																						},
@@ -32396,35 +32396,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 847, col: 5, offset: 27477},
+													pos: position{line: 847, col: 5, offset: 27479},
 													expr: &choiceExpr{
-														pos: position{line: 853, col: 29, offset: 27672},
+														pos: position{line: 853, col: 29, offset: 27674},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 765, col: 5, offset: 24672},
+																pos: position{line: 765, col: 5, offset: 24674},
 																run: (*parser).callonListContinuationElement363,
 																expr: &seqExpr{
-																	pos: position{line: 765, col: 5, offset: 24672},
+																	pos: position{line: 765, col: 5, offset: 24674},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 765, col: 5, offset: 24672},
+																			pos:   position{line: 765, col: 5, offset: 24674},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 765, col: 16, offset: 24683},
+																				pos: position{line: 765, col: 16, offset: 24685},
 																				run: (*parser).callonListContinuationElement366,
 																				expr: &seqExpr{
-																					pos: position{line: 765, col: 16, offset: 24683},
+																					pos: position{line: 765, col: 16, offset: 24685},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 765, col: 16, offset: 24683},
+																							pos:        position{line: 765, col: 16, offset: 24685},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 765, col: 23, offset: 24690},
+																							pos: position{line: 765, col: 23, offset: 24692},
 																							expr: &litMatcher{
-																								pos:        position{line: 765, col: 23, offset: 24690},
+																								pos:        position{line: 765, col: 23, offset: 24692},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -32435,12 +32435,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 767, col: 8, offset: 24774},
+																			pos: position{line: 767, col: 8, offset: 24776},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93180},
+																				pos: position{line: 2944, col: 10, offset: 93182},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93180},
+																					pos:        position{line: 2944, col: 10, offset: 93182},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -32449,28 +32449,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93578},
+																			pos: position{line: 2966, col: 8, offset: 93580},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93351},
+																					pos: position{line: 2953, col: 12, offset: 93353},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93352},
+																						pos: position{line: 2953, col: 13, offset: 93354},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93352},
+																								pos:        position{line: 2953, col: 13, offset: 93354},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93359},
+																								pos:        position{line: 2953, col: 20, offset: 93361},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93368},
+																								pos:        position{line: 2953, col: 29, offset: 93370},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32479,9 +32479,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
@@ -32490,9 +32490,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93528},
+																pos: position{line: 2963, col: 8, offset: 93530},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93529,
+																	line: 2963, col: 9, offset: 93531,
 																},
 															},
 														},
@@ -32502,39 +32502,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 865, col: 5, offset: 27913},
+										pos: position{line: 865, col: 5, offset: 27915},
 										run: (*parser).callonListContinuationElement384,
 										expr: &seqExpr{
-											pos: position{line: 865, col: 5, offset: 27913},
+											pos: position{line: 865, col: 5, offset: 27915},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 865, col: 5, offset: 27913},
+													pos:   position{line: 865, col: 5, offset: 27915},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 772, col: 5, offset: 24920},
+														pos: position{line: 772, col: 5, offset: 24922},
 														run: (*parser).callonListContinuationElement387,
 														expr: &seqExpr{
-															pos: position{line: 772, col: 5, offset: 24920},
+															pos: position{line: 772, col: 5, offset: 24922},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 772, col: 5, offset: 24920},
+																	pos:   position{line: 772, col: 5, offset: 24922},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 772, col: 16, offset: 24931},
+																		pos: position{line: 772, col: 16, offset: 24933},
 																		run: (*parser).callonListContinuationElement390,
 																		expr: &seqExpr{
-																			pos: position{line: 772, col: 16, offset: 24931},
+																			pos: position{line: 772, col: 16, offset: 24933},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 772, col: 16, offset: 24931},
+																					pos:        position{line: 772, col: 16, offset: 24933},
 																					val:        "====",
 																					ignoreCase: false,
 																					want:       "\"====\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 772, col: 23, offset: 24938},
+																					pos: position{line: 772, col: 23, offset: 24940},
 																					expr: &litMatcher{
-																						pos:        position{line: 772, col: 23, offset: 24938},
+																						pos:        position{line: 772, col: 23, offset: 24940},
 																						val:        "=",
 																						ignoreCase: false,
 																						want:       "\"=\"",
@@ -32545,12 +32545,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 774, col: 8, offset: 25022},
+																	pos: position{line: 774, col: 8, offset: 25024},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93180},
+																		pos: position{line: 2944, col: 10, offset: 93182},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93180},
+																			pos:        position{line: 2944, col: 10, offset: 93182},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32559,28 +32559,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93578},
+																	pos: position{line: 2966, col: 8, offset: 93580},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93351},
+																			pos: position{line: 2953, col: 12, offset: 93353},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93352},
+																				pos: position{line: 2953, col: 13, offset: 93354},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93352},
+																						pos:        position{line: 2953, col: 13, offset: 93354},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93359},
+																						pos:        position{line: 2953, col: 20, offset: 93361},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93368},
+																						pos:        position{line: 2953, col: 29, offset: 93370},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32589,9 +32589,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93528},
+																			pos: position{line: 2963, col: 8, offset: 93530},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93529,
+																				line: 2963, col: 9, offset: 93531,
 																			},
 																		},
 																	},
@@ -32601,56 +32601,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 866, col: 5, offset: 27952},
+													pos: position{line: 866, col: 5, offset: 27954},
 													run: (*parser).callonListContinuationElement406,
 												},
 												&labeledExpr{
-													pos:   position{line: 869, col: 5, offset: 28044},
+													pos:   position{line: 869, col: 5, offset: 28046},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 884, col: 4, offset: 28441},
+														pos: position{line: 884, col: 4, offset: 28443},
 														expr: &actionExpr{
-															pos: position{line: 884, col: 5, offset: 28442},
+															pos: position{line: 884, col: 5, offset: 28444},
 															run: (*parser).callonListContinuationElement409,
 															expr: &seqExpr{
-																pos: position{line: 884, col: 5, offset: 28442},
+																pos: position{line: 884, col: 5, offset: 28444},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 884, col: 5, offset: 28442},
+																		pos: position{line: 884, col: 5, offset: 28444},
 																		expr: &choiceExpr{
-																			pos: position{line: 877, col: 5, offset: 28284},
+																			pos: position{line: 877, col: 5, offset: 28286},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 877, col: 5, offset: 28284},
+																					pos: position{line: 877, col: 5, offset: 28286},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 877, col: 5, offset: 28284},
+																							pos:   position{line: 877, col: 5, offset: 28286},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 772, col: 5, offset: 24920},
+																								pos: position{line: 772, col: 5, offset: 24922},
 																								run: (*parser).callonListContinuationElement415,
 																								expr: &seqExpr{
-																									pos: position{line: 772, col: 5, offset: 24920},
+																									pos: position{line: 772, col: 5, offset: 24922},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 772, col: 5, offset: 24920},
+																											pos:   position{line: 772, col: 5, offset: 24922},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 772, col: 16, offset: 24931},
+																												pos: position{line: 772, col: 16, offset: 24933},
 																												run: (*parser).callonListContinuationElement418,
 																												expr: &seqExpr{
-																													pos: position{line: 772, col: 16, offset: 24931},
+																													pos: position{line: 772, col: 16, offset: 24933},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 772, col: 16, offset: 24931},
+																															pos:        position{line: 772, col: 16, offset: 24933},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 772, col: 23, offset: 24938},
+																															pos: position{line: 772, col: 23, offset: 24940},
 																															expr: &litMatcher{
-																																pos:        position{line: 772, col: 23, offset: 24938},
+																																pos:        position{line: 772, col: 23, offset: 24940},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -32661,12 +32661,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 774, col: 8, offset: 25022},
+																											pos: position{line: 774, col: 8, offset: 25024},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93180},
+																												pos: position{line: 2944, col: 10, offset: 93182},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93180},
+																													pos:        position{line: 2944, col: 10, offset: 93182},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32675,28 +32675,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93578},
+																											pos: position{line: 2966, col: 8, offset: 93580},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93351},
+																													pos: position{line: 2953, col: 12, offset: 93353},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93352},
+																														pos: position{line: 2953, col: 13, offset: 93354},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93352},
+																																pos:        position{line: 2953, col: 13, offset: 93354},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93359},
+																																pos:        position{line: 2953, col: 20, offset: 93361},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93368},
+																																pos:        position{line: 2953, col: 29, offset: 93370},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32705,9 +32705,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93528},
+																													pos: position{line: 2963, col: 8, offset: 93530},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93529,
+																														line: 2963, col: 9, offset: 93531,
 																													},
 																												},
 																											},
@@ -32717,45 +32717,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 878, col: 5, offset: 28315},
+																							pos: position{line: 878, col: 5, offset: 28317},
 																							run: (*parser).callonListContinuationElement434,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 885, col: 5, offset: 28472},
+																		pos:   position{line: 885, col: 5, offset: 28474},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 836, col: 5, offset: 27176},
+																			pos: position{line: 836, col: 5, offset: 27178},
 																			run: (*parser).callonListContinuationElement438,
 																			expr: &seqExpr{
-																				pos: position{line: 836, col: 5, offset: 27176},
+																				pos: position{line: 836, col: 5, offset: 27178},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2961, col: 11, offset: 93514},
+																						pos: position{line: 2961, col: 11, offset: 93516},
 																						expr: &anyMatcher{
-																							line: 2961, col: 13, offset: 93516,
+																							line: 2961, col: 13, offset: 93518,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 837, col: 5, offset: 27251},
+																						pos:   position{line: 837, col: 5, offset: 27253},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 13, offset: 91706},
+																							pos: position{line: 2890, col: 13, offset: 91708},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2890, col: 13, offset: 91706},
+																								pos: position{line: 2890, col: 13, offset: 91708},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91706},
+																									pos:        position{line: 2890, col: 13, offset: 91708},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32765,28 +32765,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93578},
+																						pos: position{line: 2966, col: 8, offset: 93580},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93351},
+																								pos: position{line: 2953, col: 12, offset: 93353},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93352},
+																									pos: position{line: 2953, col: 13, offset: 93354},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93352},
+																											pos:        position{line: 2953, col: 13, offset: 93354},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93359},
+																											pos:        position{line: 2953, col: 20, offset: 93361},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93368},
+																											pos:        position{line: 2953, col: 29, offset: 93370},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32795,9 +32795,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93528},
+																								pos: position{line: 2963, col: 8, offset: 93530},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93529,
+																									line: 2963, col: 9, offset: 93531,
 																								},
 																							},
 																						},
@@ -32812,44 +32812,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 870, col: 5, offset: 28078},
+													pos:   position{line: 870, col: 5, offset: 28080},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 870, col: 9, offset: 28082},
+														pos: position{line: 870, col: 9, offset: 28084},
 														expr: &choiceExpr{
-															pos: position{line: 877, col: 5, offset: 28284},
+															pos: position{line: 877, col: 5, offset: 28286},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 877, col: 5, offset: 28284},
+																	pos: position{line: 877, col: 5, offset: 28286},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 877, col: 5, offset: 28284},
+																			pos:   position{line: 877, col: 5, offset: 28286},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 772, col: 5, offset: 24920},
+																				pos: position{line: 772, col: 5, offset: 24922},
 																				run: (*parser).callonListContinuationElement459,
 																				expr: &seqExpr{
-																					pos: position{line: 772, col: 5, offset: 24920},
+																					pos: position{line: 772, col: 5, offset: 24922},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 772, col: 5, offset: 24920},
+																							pos:   position{line: 772, col: 5, offset: 24922},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 772, col: 16, offset: 24931},
+																								pos: position{line: 772, col: 16, offset: 24933},
 																								run: (*parser).callonListContinuationElement462,
 																								expr: &seqExpr{
-																									pos: position{line: 772, col: 16, offset: 24931},
+																									pos: position{line: 772, col: 16, offset: 24933},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 772, col: 16, offset: 24931},
+																											pos:        position{line: 772, col: 16, offset: 24933},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 772, col: 23, offset: 24938},
+																											pos: position{line: 772, col: 23, offset: 24940},
 																											expr: &litMatcher{
-																												pos:        position{line: 772, col: 23, offset: 24938},
+																												pos:        position{line: 772, col: 23, offset: 24940},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -32860,12 +32860,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 774, col: 8, offset: 25022},
+																							pos: position{line: 774, col: 8, offset: 25024},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93180},
+																								pos: position{line: 2944, col: 10, offset: 93182},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93180},
+																									pos:        position{line: 2944, col: 10, offset: 93182},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32874,28 +32874,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32904,9 +32904,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -32916,15 +32916,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 878, col: 5, offset: 28315},
+																			pos: position{line: 878, col: 5, offset: 28317},
 																			run: (*parser).callonListContinuationElement478,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2963, col: 8, offset: 93528},
+																	pos: position{line: 2963, col: 8, offset: 93530},
 																	expr: &anyMatcher{
-																		line: 2963, col: 9, offset: 93529,
+																		line: 2963, col: 9, offset: 93531,
 																	},
 																},
 															},
@@ -32935,36 +32935,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 977, col: 5, offset: 30764},
+										pos: position{line: 977, col: 5, offset: 30766},
 										run: (*parser).callonListContinuationElement481,
 										expr: &seqExpr{
-											pos: position{line: 977, col: 5, offset: 30764},
+											pos: position{line: 977, col: 5, offset: 30766},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 977, col: 5, offset: 30764},
+													pos:   position{line: 977, col: 5, offset: 30766},
 													label: "delimiter",
 													expr: &actionExpr{
-														pos: position{line: 785, col: 26, offset: 25408},
+														pos: position{line: 785, col: 26, offset: 25410},
 														run: (*parser).callonListContinuationElement484,
 														expr: &seqExpr{
-															pos: position{line: 785, col: 26, offset: 25408},
+															pos: position{line: 785, col: 26, offset: 25410},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 785, col: 26, offset: 25408},
+																	pos:        position{line: 785, col: 26, offset: 25410},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 785, col: 32, offset: 25414},
+																	pos:   position{line: 785, col: 32, offset: 25416},
 																	label: "language",
 																	expr: &actionExpr{
-																		pos: position{line: 789, col: 13, offset: 25544},
+																		pos: position{line: 789, col: 13, offset: 25546},
 																		run: (*parser).callonListContinuationElement488,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 789, col: 14, offset: 25545},
+																			pos: position{line: 789, col: 14, offset: 25547},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 789, col: 14, offset: 25545},
+																				pos:        position{line: 789, col: 14, offset: 25547},
 																				val:        "[^\\r\\n` ]",
 																				chars:      []rune{'\r', '\n', '`', ' '},
 																				ignoreCase: false,
@@ -32974,12 +32974,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 785, col: 52, offset: 25434},
+																	pos: position{line: 785, col: 52, offset: 25436},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93180},
+																		pos: position{line: 2944, col: 10, offset: 93182},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93180},
+																			pos:        position{line: 2944, col: 10, offset: 93182},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32988,28 +32988,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93578},
+																	pos: position{line: 2966, col: 8, offset: 93580},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93351},
+																			pos: position{line: 2953, col: 12, offset: 93353},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93352},
+																				pos: position{line: 2953, col: 13, offset: 93354},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93352},
+																						pos:        position{line: 2953, col: 13, offset: 93354},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93359},
+																						pos:        position{line: 2953, col: 20, offset: 93361},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93368},
+																						pos:        position{line: 2953, col: 29, offset: 93370},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33018,9 +33018,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93528},
+																			pos: position{line: 2963, col: 8, offset: 93530},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93529,
+																				line: 2963, col: 9, offset: 93531,
 																			},
 																		},
 																	},
@@ -33030,34 +33030,34 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 978, col: 5, offset: 30810},
+													pos:   position{line: 978, col: 5, offset: 30812},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 991, col: 5, offset: 31283},
+														pos: position{line: 991, col: 5, offset: 31285},
 														expr: &actionExpr{
-															pos: position{line: 991, col: 6, offset: 31284},
+															pos: position{line: 991, col: 6, offset: 31286},
 															run: (*parser).callonListContinuationElement504,
 															expr: &seqExpr{
-																pos: position{line: 991, col: 6, offset: 31284},
+																pos: position{line: 991, col: 6, offset: 31286},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 991, col: 6, offset: 31284},
+																		pos: position{line: 991, col: 6, offset: 31286},
 																		expr: &seqExpr{
-																			pos: position{line: 988, col: 34, offset: 31231},
+																			pos: position{line: 988, col: 34, offset: 31233},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 988, col: 34, offset: 31231},
+																					pos:        position{line: 988, col: 34, offset: 31233},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 988, col: 40, offset: 31237},
+																					pos: position{line: 988, col: 40, offset: 31239},
 																					expr: &actionExpr{
-																						pos: position{line: 2944, col: 10, offset: 93180},
+																						pos: position{line: 2944, col: 10, offset: 93182},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2944, col: 10, offset: 93180},
+																							pos:        position{line: 2944, col: 10, offset: 93182},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33066,28 +33066,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2966, col: 8, offset: 93578},
+																					pos: position{line: 2966, col: 8, offset: 93580},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2953, col: 12, offset: 93351},
+																							pos: position{line: 2953, col: 12, offset: 93353},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2953, col: 13, offset: 93352},
+																								pos: position{line: 2953, col: 13, offset: 93354},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 13, offset: 93352},
+																										pos:        position{line: 2953, col: 13, offset: 93354},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 20, offset: 93359},
+																										pos:        position{line: 2953, col: 20, offset: 93361},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 29, offset: 93368},
+																										pos:        position{line: 2953, col: 29, offset: 93370},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33096,9 +33096,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93528},
+																							pos: position{line: 2963, col: 8, offset: 93530},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93529,
+																								line: 2963, col: 9, offset: 93531,
 																							},
 																						},
 																					},
@@ -33107,30 +33107,30 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 992, col: 5, offset: 31319},
+																		pos:   position{line: 992, col: 5, offset: 31321},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 836, col: 5, offset: 27176},
+																			pos: position{line: 836, col: 5, offset: 27178},
 																			run: (*parser).callonListContinuationElement521,
 																			expr: &seqExpr{
-																				pos: position{line: 836, col: 5, offset: 27176},
+																				pos: position{line: 836, col: 5, offset: 27178},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2961, col: 11, offset: 93514},
+																						pos: position{line: 2961, col: 11, offset: 93516},
 																						expr: &anyMatcher{
-																							line: 2961, col: 13, offset: 93516,
+																							line: 2961, col: 13, offset: 93518,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 837, col: 5, offset: 27251},
+																						pos:   position{line: 837, col: 5, offset: 27253},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 13, offset: 91706},
+																							pos: position{line: 2890, col: 13, offset: 91708},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2890, col: 13, offset: 91706},
+																								pos: position{line: 2890, col: 13, offset: 91708},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91706},
+																									pos:        position{line: 2890, col: 13, offset: 91708},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33140,28 +33140,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93578},
+																						pos: position{line: 2966, col: 8, offset: 93580},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93351},
+																								pos: position{line: 2953, col: 12, offset: 93353},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93352},
+																									pos: position{line: 2953, col: 13, offset: 93354},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93352},
+																											pos:        position{line: 2953, col: 13, offset: 93354},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93359},
+																											pos:        position{line: 2953, col: 20, offset: 93361},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93368},
+																											pos:        position{line: 2953, col: 29, offset: 93370},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33170,9 +33170,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93528},
+																								pos: position{line: 2963, col: 8, offset: 93530},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93529,
+																									line: 2963, col: 9, offset: 93531,
 																								},
 																							},
 																						},
@@ -33187,23 +33187,23 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 979, col: 5, offset: 30849},
+													pos: position{line: 979, col: 5, offset: 30851},
 													expr: &seqExpr{
-														pos: position{line: 988, col: 34, offset: 31231},
+														pos: position{line: 988, col: 34, offset: 31233},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 988, col: 34, offset: 31231},
+																pos:        position{line: 988, col: 34, offset: 31233},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 988, col: 40, offset: 31237},
+																pos: position{line: 988, col: 40, offset: 31239},
 																expr: &actionExpr{
-																	pos: position{line: 2944, col: 10, offset: 93180},
+																	pos: position{line: 2944, col: 10, offset: 93182},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2944, col: 10, offset: 93180},
+																		pos:        position{line: 2944, col: 10, offset: 93182},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -33212,28 +33212,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2966, col: 8, offset: 93578},
+																pos: position{line: 2966, col: 8, offset: 93580},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2953, col: 12, offset: 93351},
+																		pos: position{line: 2953, col: 12, offset: 93353},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2953, col: 13, offset: 93352},
+																			pos: position{line: 2953, col: 13, offset: 93354},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 13, offset: 93352},
+																					pos:        position{line: 2953, col: 13, offset: 93354},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 20, offset: 93359},
+																					pos:        position{line: 2953, col: 20, offset: 93361},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 29, offset: 93368},
+																					pos:        position{line: 2953, col: 29, offset: 93370},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -33242,9 +33242,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93528},
+																		pos: position{line: 2963, col: 8, offset: 93530},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93529,
+																			line: 2963, col: 9, offset: 93531,
 																		},
 																	},
 																},
@@ -33256,39 +33256,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 893, col: 5, offset: 28625},
+										pos: position{line: 893, col: 5, offset: 28627},
 										run: (*parser).callonListContinuationElement551,
 										expr: &seqExpr{
-											pos: position{line: 893, col: 5, offset: 28625},
+											pos: position{line: 893, col: 5, offset: 28627},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 893, col: 5, offset: 28625},
+													pos:   position{line: 893, col: 5, offset: 28627},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 779, col: 5, offset: 25167},
+														pos: position{line: 779, col: 5, offset: 25169},
 														run: (*parser).callonListContinuationElement554,
 														expr: &seqExpr{
-															pos: position{line: 779, col: 5, offset: 25167},
+															pos: position{line: 779, col: 5, offset: 25169},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 779, col: 5, offset: 25167},
+																	pos:   position{line: 779, col: 5, offset: 25169},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 779, col: 16, offset: 25178},
+																		pos: position{line: 779, col: 16, offset: 25180},
 																		run: (*parser).callonListContinuationElement557,
 																		expr: &seqExpr{
-																			pos: position{line: 779, col: 16, offset: 25178},
+																			pos: position{line: 779, col: 16, offset: 25180},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 779, col: 16, offset: 25178},
+																					pos:        position{line: 779, col: 16, offset: 25180},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 779, col: 22, offset: 25184},
+																					pos: position{line: 779, col: 22, offset: 25186},
 																					expr: &litMatcher{
-																						pos:        position{line: 779, col: 22, offset: 25184},
+																						pos:        position{line: 779, col: 22, offset: 25186},
 																						val:        "`",
 																						ignoreCase: false,
 																						want:       "\"`\"",
@@ -33299,12 +33299,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 781, col: 8, offset: 25268},
+																	pos: position{line: 781, col: 8, offset: 25270},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93180},
+																		pos: position{line: 2944, col: 10, offset: 93182},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93180},
+																			pos:        position{line: 2944, col: 10, offset: 93182},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33313,28 +33313,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93578},
+																	pos: position{line: 2966, col: 8, offset: 93580},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93351},
+																			pos: position{line: 2953, col: 12, offset: 93353},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93352},
+																				pos: position{line: 2953, col: 13, offset: 93354},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93352},
+																						pos:        position{line: 2953, col: 13, offset: 93354},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93359},
+																						pos:        position{line: 2953, col: 20, offset: 93361},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93368},
+																						pos:        position{line: 2953, col: 29, offset: 93370},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33343,9 +33343,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93528},
+																			pos: position{line: 2963, col: 8, offset: 93530},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93529,
+																				line: 2963, col: 9, offset: 93531,
 																			},
 																		},
 																	},
@@ -33355,56 +33355,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 894, col: 5, offset: 28663},
+													pos: position{line: 894, col: 5, offset: 28665},
 													run: (*parser).callonListContinuationElement573,
 												},
 												&labeledExpr{
-													pos:   position{line: 897, col: 5, offset: 28755},
+													pos:   position{line: 897, col: 5, offset: 28757},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 912, col: 5, offset: 29145},
+														pos: position{line: 912, col: 5, offset: 29147},
 														expr: &actionExpr{
-															pos: position{line: 912, col: 6, offset: 29146},
+															pos: position{line: 912, col: 6, offset: 29148},
 															run: (*parser).callonListContinuationElement576,
 															expr: &seqExpr{
-																pos: position{line: 912, col: 6, offset: 29146},
+																pos: position{line: 912, col: 6, offset: 29148},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 912, col: 6, offset: 29146},
+																		pos: position{line: 912, col: 6, offset: 29148},
 																		expr: &choiceExpr{
-																			pos: position{line: 905, col: 5, offset: 28989},
+																			pos: position{line: 905, col: 5, offset: 28991},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 905, col: 5, offset: 28989},
+																					pos: position{line: 905, col: 5, offset: 28991},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 905, col: 5, offset: 28989},
+																							pos:   position{line: 905, col: 5, offset: 28991},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 779, col: 5, offset: 25167},
+																								pos: position{line: 779, col: 5, offset: 25169},
 																								run: (*parser).callonListContinuationElement582,
 																								expr: &seqExpr{
-																									pos: position{line: 779, col: 5, offset: 25167},
+																									pos: position{line: 779, col: 5, offset: 25169},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 779, col: 5, offset: 25167},
+																											pos:   position{line: 779, col: 5, offset: 25169},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 779, col: 16, offset: 25178},
+																												pos: position{line: 779, col: 16, offset: 25180},
 																												run: (*parser).callonListContinuationElement585,
 																												expr: &seqExpr{
-																													pos: position{line: 779, col: 16, offset: 25178},
+																													pos: position{line: 779, col: 16, offset: 25180},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 779, col: 16, offset: 25178},
+																															pos:        position{line: 779, col: 16, offset: 25180},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 779, col: 22, offset: 25184},
+																															pos: position{line: 779, col: 22, offset: 25186},
 																															expr: &litMatcher{
-																																pos:        position{line: 779, col: 22, offset: 25184},
+																																pos:        position{line: 779, col: 22, offset: 25186},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -33415,12 +33415,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 781, col: 8, offset: 25268},
+																											pos: position{line: 781, col: 8, offset: 25270},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93180},
+																												pos: position{line: 2944, col: 10, offset: 93182},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93180},
+																													pos:        position{line: 2944, col: 10, offset: 93182},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33429,28 +33429,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93578},
+																											pos: position{line: 2966, col: 8, offset: 93580},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93351},
+																													pos: position{line: 2953, col: 12, offset: 93353},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93352},
+																														pos: position{line: 2953, col: 13, offset: 93354},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93352},
+																																pos:        position{line: 2953, col: 13, offset: 93354},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93359},
+																																pos:        position{line: 2953, col: 20, offset: 93361},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93368},
+																																pos:        position{line: 2953, col: 29, offset: 93370},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33459,9 +33459,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93528},
+																													pos: position{line: 2963, col: 8, offset: 93530},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93529,
+																														line: 2963, col: 9, offset: 93531,
 																													},
 																												},
 																											},
@@ -33471,45 +33471,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 906, col: 5, offset: 29019},
+																							pos: position{line: 906, col: 5, offset: 29021},
 																							run: (*parser).callonListContinuationElement601,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 913, col: 5, offset: 29175},
+																		pos:   position{line: 913, col: 5, offset: 29177},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 836, col: 5, offset: 27176},
+																			pos: position{line: 836, col: 5, offset: 27178},
 																			run: (*parser).callonListContinuationElement605,
 																			expr: &seqExpr{
-																				pos: position{line: 836, col: 5, offset: 27176},
+																				pos: position{line: 836, col: 5, offset: 27178},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2961, col: 11, offset: 93514},
+																						pos: position{line: 2961, col: 11, offset: 93516},
 																						expr: &anyMatcher{
-																							line: 2961, col: 13, offset: 93516,
+																							line: 2961, col: 13, offset: 93518,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 837, col: 5, offset: 27251},
+																						pos:   position{line: 837, col: 5, offset: 27253},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 13, offset: 91706},
+																							pos: position{line: 2890, col: 13, offset: 91708},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2890, col: 13, offset: 91706},
+																								pos: position{line: 2890, col: 13, offset: 91708},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91706},
+																									pos:        position{line: 2890, col: 13, offset: 91708},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33519,28 +33519,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93578},
+																						pos: position{line: 2966, col: 8, offset: 93580},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93351},
+																								pos: position{line: 2953, col: 12, offset: 93353},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93352},
+																									pos: position{line: 2953, col: 13, offset: 93354},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93352},
+																											pos:        position{line: 2953, col: 13, offset: 93354},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93359},
+																											pos:        position{line: 2953, col: 20, offset: 93361},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93368},
+																											pos:        position{line: 2953, col: 29, offset: 93370},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33549,9 +33549,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93528},
+																								pos: position{line: 2963, col: 8, offset: 93530},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93529,
+																									line: 2963, col: 9, offset: 93531,
 																								},
 																							},
 																						},
@@ -33566,44 +33566,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 898, col: 5, offset: 28788},
+													pos:   position{line: 898, col: 5, offset: 28790},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 898, col: 9, offset: 28792},
+														pos: position{line: 898, col: 9, offset: 28794},
 														expr: &choiceExpr{
-															pos: position{line: 905, col: 5, offset: 28989},
+															pos: position{line: 905, col: 5, offset: 28991},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 905, col: 5, offset: 28989},
+																	pos: position{line: 905, col: 5, offset: 28991},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 905, col: 5, offset: 28989},
+																			pos:   position{line: 905, col: 5, offset: 28991},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 779, col: 5, offset: 25167},
+																				pos: position{line: 779, col: 5, offset: 25169},
 																				run: (*parser).callonListContinuationElement626,
 																				expr: &seqExpr{
-																					pos: position{line: 779, col: 5, offset: 25167},
+																					pos: position{line: 779, col: 5, offset: 25169},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 779, col: 5, offset: 25167},
+																							pos:   position{line: 779, col: 5, offset: 25169},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 779, col: 16, offset: 25178},
+																								pos: position{line: 779, col: 16, offset: 25180},
 																								run: (*parser).callonListContinuationElement629,
 																								expr: &seqExpr{
-																									pos: position{line: 779, col: 16, offset: 25178},
+																									pos: position{line: 779, col: 16, offset: 25180},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 779, col: 16, offset: 25178},
+																											pos:        position{line: 779, col: 16, offset: 25180},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 779, col: 22, offset: 25184},
+																											pos: position{line: 779, col: 22, offset: 25186},
 																											expr: &litMatcher{
-																												pos:        position{line: 779, col: 22, offset: 25184},
+																												pos:        position{line: 779, col: 22, offset: 25186},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -33614,12 +33614,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 781, col: 8, offset: 25268},
+																							pos: position{line: 781, col: 8, offset: 25270},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93180},
+																								pos: position{line: 2944, col: 10, offset: 93182},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93180},
+																									pos:        position{line: 2944, col: 10, offset: 93182},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33628,28 +33628,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33658,9 +33658,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -33670,15 +33670,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 906, col: 5, offset: 29019},
+																			pos: position{line: 906, col: 5, offset: 29021},
 																			run: (*parser).callonListContinuationElement645,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2963, col: 8, offset: 93528},
+																	pos: position{line: 2963, col: 8, offset: 93530},
 																	expr: &anyMatcher{
-																		line: 2963, col: 9, offset: 93529,
+																		line: 2963, col: 9, offset: 93531,
 																	},
 																},
 															},
@@ -33689,39 +33689,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 921, col: 5, offset: 29330},
+										pos: position{line: 921, col: 5, offset: 29332},
 										run: (*parser).callonListContinuationElement648,
 										expr: &seqExpr{
-											pos: position{line: 921, col: 5, offset: 29330},
+											pos: position{line: 921, col: 5, offset: 29332},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 921, col: 5, offset: 29330},
+													pos:   position{line: 921, col: 5, offset: 29332},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 794, col: 5, offset: 25704},
+														pos: position{line: 794, col: 5, offset: 25706},
 														run: (*parser).callonListContinuationElement651,
 														expr: &seqExpr{
-															pos: position{line: 794, col: 5, offset: 25704},
+															pos: position{line: 794, col: 5, offset: 25706},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 794, col: 5, offset: 25704},
+																	pos:   position{line: 794, col: 5, offset: 25706},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 794, col: 16, offset: 25715},
+																		pos: position{line: 794, col: 16, offset: 25717},
 																		run: (*parser).callonListContinuationElement654,
 																		expr: &seqExpr{
-																			pos: position{line: 794, col: 16, offset: 25715},
+																			pos: position{line: 794, col: 16, offset: 25717},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 794, col: 16, offset: 25715},
+																					pos:        position{line: 794, col: 16, offset: 25717},
 																					val:        "----",
 																					ignoreCase: false,
 																					want:       "\"----\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 794, col: 23, offset: 25722},
+																					pos: position{line: 794, col: 23, offset: 25724},
 																					expr: &litMatcher{
-																						pos:        position{line: 794, col: 23, offset: 25722},
+																						pos:        position{line: 794, col: 23, offset: 25724},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
@@ -33732,12 +33732,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 796, col: 8, offset: 25806},
+																	pos: position{line: 796, col: 8, offset: 25808},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93180},
+																		pos: position{line: 2944, col: 10, offset: 93182},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93180},
+																			pos:        position{line: 2944, col: 10, offset: 93182},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33746,28 +33746,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93578},
+																	pos: position{line: 2966, col: 8, offset: 93580},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93351},
+																			pos: position{line: 2953, col: 12, offset: 93353},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93352},
+																				pos: position{line: 2953, col: 13, offset: 93354},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93352},
+																						pos:        position{line: 2953, col: 13, offset: 93354},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93359},
+																						pos:        position{line: 2953, col: 20, offset: 93361},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93368},
+																						pos:        position{line: 2953, col: 29, offset: 93370},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33776,9 +33776,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93528},
+																			pos: position{line: 2963, col: 8, offset: 93530},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93529,
+																				line: 2963, col: 9, offset: 93531,
 																			},
 																		},
 																	},
@@ -33788,56 +33788,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 922, col: 5, offset: 29369},
+													pos: position{line: 922, col: 5, offset: 29371},
 													run: (*parser).callonListContinuationElement670,
 												},
 												&labeledExpr{
-													pos:   position{line: 925, col: 5, offset: 29461},
+													pos:   position{line: 925, col: 5, offset: 29463},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 940, col: 5, offset: 29859},
+														pos: position{line: 940, col: 5, offset: 29861},
 														expr: &actionExpr{
-															pos: position{line: 940, col: 6, offset: 29860},
+															pos: position{line: 940, col: 6, offset: 29862},
 															run: (*parser).callonListContinuationElement673,
 															expr: &seqExpr{
-																pos: position{line: 940, col: 6, offset: 29860},
+																pos: position{line: 940, col: 6, offset: 29862},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 940, col: 6, offset: 29860},
+																		pos: position{line: 940, col: 6, offset: 29862},
 																		expr: &choiceExpr{
-																			pos: position{line: 933, col: 5, offset: 29701},
+																			pos: position{line: 933, col: 5, offset: 29703},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 933, col: 5, offset: 29701},
+																					pos: position{line: 933, col: 5, offset: 29703},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 933, col: 5, offset: 29701},
+																							pos:   position{line: 933, col: 5, offset: 29703},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 794, col: 5, offset: 25704},
+																								pos: position{line: 794, col: 5, offset: 25706},
 																								run: (*parser).callonListContinuationElement679,
 																								expr: &seqExpr{
-																									pos: position{line: 794, col: 5, offset: 25704},
+																									pos: position{line: 794, col: 5, offset: 25706},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 794, col: 5, offset: 25704},
+																											pos:   position{line: 794, col: 5, offset: 25706},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 794, col: 16, offset: 25715},
+																												pos: position{line: 794, col: 16, offset: 25717},
 																												run: (*parser).callonListContinuationElement682,
 																												expr: &seqExpr{
-																													pos: position{line: 794, col: 16, offset: 25715},
+																													pos: position{line: 794, col: 16, offset: 25717},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 794, col: 16, offset: 25715},
+																															pos:        position{line: 794, col: 16, offset: 25717},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 794, col: 23, offset: 25722},
+																															pos: position{line: 794, col: 23, offset: 25724},
 																															expr: &litMatcher{
-																																pos:        position{line: 794, col: 23, offset: 25722},
+																																pos:        position{line: 794, col: 23, offset: 25724},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -33848,12 +33848,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 796, col: 8, offset: 25806},
+																											pos: position{line: 796, col: 8, offset: 25808},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93180},
+																												pos: position{line: 2944, col: 10, offset: 93182},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93180},
+																													pos:        position{line: 2944, col: 10, offset: 93182},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33862,28 +33862,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93578},
+																											pos: position{line: 2966, col: 8, offset: 93580},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93351},
+																													pos: position{line: 2953, col: 12, offset: 93353},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93352},
+																														pos: position{line: 2953, col: 13, offset: 93354},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93352},
+																																pos:        position{line: 2953, col: 13, offset: 93354},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93359},
+																																pos:        position{line: 2953, col: 20, offset: 93361},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93368},
+																																pos:        position{line: 2953, col: 29, offset: 93370},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33892,9 +33892,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93528},
+																													pos: position{line: 2963, col: 8, offset: 93530},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93529,
+																														line: 2963, col: 9, offset: 93531,
 																													},
 																												},
 																											},
@@ -33904,45 +33904,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 934, col: 5, offset: 29732},
+																							pos: position{line: 934, col: 5, offset: 29734},
 																							run: (*parser).callonListContinuationElement698,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 941, col: 5, offset: 29890},
+																		pos:   position{line: 941, col: 5, offset: 29892},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 836, col: 5, offset: 27176},
+																			pos: position{line: 836, col: 5, offset: 27178},
 																			run: (*parser).callonListContinuationElement702,
 																			expr: &seqExpr{
-																				pos: position{line: 836, col: 5, offset: 27176},
+																				pos: position{line: 836, col: 5, offset: 27178},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2961, col: 11, offset: 93514},
+																						pos: position{line: 2961, col: 11, offset: 93516},
 																						expr: &anyMatcher{
-																							line: 2961, col: 13, offset: 93516,
+																							line: 2961, col: 13, offset: 93518,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 837, col: 5, offset: 27251},
+																						pos:   position{line: 837, col: 5, offset: 27253},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 13, offset: 91706},
+																							pos: position{line: 2890, col: 13, offset: 91708},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2890, col: 13, offset: 91706},
+																								pos: position{line: 2890, col: 13, offset: 91708},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91706},
+																									pos:        position{line: 2890, col: 13, offset: 91708},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33952,28 +33952,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93578},
+																						pos: position{line: 2966, col: 8, offset: 93580},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93351},
+																								pos: position{line: 2953, col: 12, offset: 93353},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93352},
+																									pos: position{line: 2953, col: 13, offset: 93354},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93352},
+																											pos:        position{line: 2953, col: 13, offset: 93354},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93359},
+																											pos:        position{line: 2953, col: 20, offset: 93361},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93368},
+																											pos:        position{line: 2953, col: 29, offset: 93370},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33982,9 +33982,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93528},
+																								pos: position{line: 2963, col: 8, offset: 93530},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93529,
+																									line: 2963, col: 9, offset: 93531,
 																								},
 																							},
 																						},
@@ -33999,44 +33999,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 926, col: 5, offset: 29495},
+													pos:   position{line: 926, col: 5, offset: 29497},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 926, col: 9, offset: 29499},
+														pos: position{line: 926, col: 9, offset: 29501},
 														expr: &choiceExpr{
-															pos: position{line: 933, col: 5, offset: 29701},
+															pos: position{line: 933, col: 5, offset: 29703},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 933, col: 5, offset: 29701},
+																	pos: position{line: 933, col: 5, offset: 29703},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 933, col: 5, offset: 29701},
+																			pos:   position{line: 933, col: 5, offset: 29703},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 794, col: 5, offset: 25704},
+																				pos: position{line: 794, col: 5, offset: 25706},
 																				run: (*parser).callonListContinuationElement723,
 																				expr: &seqExpr{
-																					pos: position{line: 794, col: 5, offset: 25704},
+																					pos: position{line: 794, col: 5, offset: 25706},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 794, col: 5, offset: 25704},
+																							pos:   position{line: 794, col: 5, offset: 25706},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 794, col: 16, offset: 25715},
+																								pos: position{line: 794, col: 16, offset: 25717},
 																								run: (*parser).callonListContinuationElement726,
 																								expr: &seqExpr{
-																									pos: position{line: 794, col: 16, offset: 25715},
+																									pos: position{line: 794, col: 16, offset: 25717},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 794, col: 16, offset: 25715},
+																											pos:        position{line: 794, col: 16, offset: 25717},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 794, col: 23, offset: 25722},
+																											pos: position{line: 794, col: 23, offset: 25724},
 																											expr: &litMatcher{
-																												pos:        position{line: 794, col: 23, offset: 25722},
+																												pos:        position{line: 794, col: 23, offset: 25724},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -34047,12 +34047,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 796, col: 8, offset: 25806},
+																							pos: position{line: 796, col: 8, offset: 25808},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93180},
+																								pos: position{line: 2944, col: 10, offset: 93182},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93180},
+																									pos:        position{line: 2944, col: 10, offset: 93182},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34061,28 +34061,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34091,9 +34091,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -34103,15 +34103,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 934, col: 5, offset: 29732},
+																			pos: position{line: 934, col: 5, offset: 29734},
 																			run: (*parser).callonListContinuationElement742,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2963, col: 8, offset: 93528},
+																	pos: position{line: 2963, col: 8, offset: 93530},
 																	expr: &anyMatcher{
-																		line: 2963, col: 9, offset: 93529,
+																		line: 2963, col: 9, offset: 93531,
 																	},
 																},
 															},
@@ -34122,39 +34122,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 949, col: 5, offset: 30045},
+										pos: position{line: 949, col: 5, offset: 30047},
 										run: (*parser).callonListContinuationElement745,
 										expr: &seqExpr{
-											pos: position{line: 949, col: 5, offset: 30045},
+											pos: position{line: 949, col: 5, offset: 30047},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 949, col: 5, offset: 30045},
+													pos:   position{line: 949, col: 5, offset: 30047},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 808, col: 5, offset: 26180},
+														pos: position{line: 808, col: 5, offset: 26182},
 														run: (*parser).callonListContinuationElement748,
 														expr: &seqExpr{
-															pos: position{line: 808, col: 5, offset: 26180},
+															pos: position{line: 808, col: 5, offset: 26182},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 808, col: 5, offset: 26180},
+																	pos:   position{line: 808, col: 5, offset: 26182},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 808, col: 16, offset: 26191},
+																		pos: position{line: 808, col: 16, offset: 26193},
 																		run: (*parser).callonListContinuationElement751,
 																		expr: &seqExpr{
-																			pos: position{line: 808, col: 16, offset: 26191},
+																			pos: position{line: 808, col: 16, offset: 26193},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 808, col: 16, offset: 26191},
+																					pos:        position{line: 808, col: 16, offset: 26193},
 																					val:        "....",
 																					ignoreCase: false,
 																					want:       "\"....\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 808, col: 23, offset: 26198},
+																					pos: position{line: 808, col: 23, offset: 26200},
 																					expr: &litMatcher{
-																						pos:        position{line: 808, col: 23, offset: 26198},
+																						pos:        position{line: 808, col: 23, offset: 26200},
 																						val:        ".",
 																						ignoreCase: false,
 																						want:       "\".\"",
@@ -34165,12 +34165,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 810, col: 8, offset: 26282},
+																	pos: position{line: 810, col: 8, offset: 26284},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93180},
+																		pos: position{line: 2944, col: 10, offset: 93182},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93180},
+																			pos:        position{line: 2944, col: 10, offset: 93182},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34179,28 +34179,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93578},
+																	pos: position{line: 2966, col: 8, offset: 93580},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93351},
+																			pos: position{line: 2953, col: 12, offset: 93353},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93352},
+																				pos: position{line: 2953, col: 13, offset: 93354},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93352},
+																						pos:        position{line: 2953, col: 13, offset: 93354},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93359},
+																						pos:        position{line: 2953, col: 20, offset: 93361},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93368},
+																						pos:        position{line: 2953, col: 29, offset: 93370},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34209,9 +34209,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93528},
+																			pos: position{line: 2963, col: 8, offset: 93530},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93529,
+																				line: 2963, col: 9, offset: 93531,
 																			},
 																		},
 																	},
@@ -34221,56 +34221,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 950, col: 5, offset: 30084},
+													pos: position{line: 950, col: 5, offset: 30086},
 													run: (*parser).callonListContinuationElement767,
 												},
 												&labeledExpr{
-													pos:   position{line: 953, col: 5, offset: 30176},
+													pos:   position{line: 953, col: 5, offset: 30178},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 968, col: 5, offset: 30574},
+														pos: position{line: 968, col: 5, offset: 30576},
 														expr: &actionExpr{
-															pos: position{line: 968, col: 6, offset: 30575},
+															pos: position{line: 968, col: 6, offset: 30577},
 															run: (*parser).callonListContinuationElement770,
 															expr: &seqExpr{
-																pos: position{line: 968, col: 6, offset: 30575},
+																pos: position{line: 968, col: 6, offset: 30577},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 968, col: 6, offset: 30575},
+																		pos: position{line: 968, col: 6, offset: 30577},
 																		expr: &choiceExpr{
-																			pos: position{line: 961, col: 5, offset: 30416},
+																			pos: position{line: 961, col: 5, offset: 30418},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 961, col: 5, offset: 30416},
+																					pos: position{line: 961, col: 5, offset: 30418},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 961, col: 5, offset: 30416},
+																							pos:   position{line: 961, col: 5, offset: 30418},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 808, col: 5, offset: 26180},
+																								pos: position{line: 808, col: 5, offset: 26182},
 																								run: (*parser).callonListContinuationElement776,
 																								expr: &seqExpr{
-																									pos: position{line: 808, col: 5, offset: 26180},
+																									pos: position{line: 808, col: 5, offset: 26182},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 808, col: 5, offset: 26180},
+																											pos:   position{line: 808, col: 5, offset: 26182},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 808, col: 16, offset: 26191},
+																												pos: position{line: 808, col: 16, offset: 26193},
 																												run: (*parser).callonListContinuationElement779,
 																												expr: &seqExpr{
-																													pos: position{line: 808, col: 16, offset: 26191},
+																													pos: position{line: 808, col: 16, offset: 26193},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 808, col: 16, offset: 26191},
+																															pos:        position{line: 808, col: 16, offset: 26193},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 808, col: 23, offset: 26198},
+																															pos: position{line: 808, col: 23, offset: 26200},
 																															expr: &litMatcher{
-																																pos:        position{line: 808, col: 23, offset: 26198},
+																																pos:        position{line: 808, col: 23, offset: 26200},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -34281,12 +34281,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 810, col: 8, offset: 26282},
+																											pos: position{line: 810, col: 8, offset: 26284},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93180},
+																												pos: position{line: 2944, col: 10, offset: 93182},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93180},
+																													pos:        position{line: 2944, col: 10, offset: 93182},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34295,28 +34295,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93578},
+																											pos: position{line: 2966, col: 8, offset: 93580},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93351},
+																													pos: position{line: 2953, col: 12, offset: 93353},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93352},
+																														pos: position{line: 2953, col: 13, offset: 93354},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93352},
+																																pos:        position{line: 2953, col: 13, offset: 93354},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93359},
+																																pos:        position{line: 2953, col: 20, offset: 93361},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93368},
+																																pos:        position{line: 2953, col: 29, offset: 93370},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34325,9 +34325,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93528},
+																													pos: position{line: 2963, col: 8, offset: 93530},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93529,
+																														line: 2963, col: 9, offset: 93531,
 																													},
 																												},
 																											},
@@ -34337,45 +34337,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 962, col: 5, offset: 30447},
+																							pos: position{line: 962, col: 5, offset: 30449},
 																							run: (*parser).callonListContinuationElement795,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 969, col: 5, offset: 30605},
+																		pos:   position{line: 969, col: 5, offset: 30607},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 836, col: 5, offset: 27176},
+																			pos: position{line: 836, col: 5, offset: 27178},
 																			run: (*parser).callonListContinuationElement799,
 																			expr: &seqExpr{
-																				pos: position{line: 836, col: 5, offset: 27176},
+																				pos: position{line: 836, col: 5, offset: 27178},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2961, col: 11, offset: 93514},
+																						pos: position{line: 2961, col: 11, offset: 93516},
 																						expr: &anyMatcher{
-																							line: 2961, col: 13, offset: 93516,
+																							line: 2961, col: 13, offset: 93518,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 837, col: 5, offset: 27251},
+																						pos:   position{line: 837, col: 5, offset: 27253},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 13, offset: 91706},
+																							pos: position{line: 2890, col: 13, offset: 91708},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2890, col: 13, offset: 91706},
+																								pos: position{line: 2890, col: 13, offset: 91708},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91706},
+																									pos:        position{line: 2890, col: 13, offset: 91708},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34385,28 +34385,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93578},
+																						pos: position{line: 2966, col: 8, offset: 93580},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93351},
+																								pos: position{line: 2953, col: 12, offset: 93353},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93352},
+																									pos: position{line: 2953, col: 13, offset: 93354},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93352},
+																											pos:        position{line: 2953, col: 13, offset: 93354},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93359},
+																											pos:        position{line: 2953, col: 20, offset: 93361},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93368},
+																											pos:        position{line: 2953, col: 29, offset: 93370},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34415,9 +34415,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93528},
+																								pos: position{line: 2963, col: 8, offset: 93530},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93529,
+																									line: 2963, col: 9, offset: 93531,
 																								},
 																							},
 																						},
@@ -34432,44 +34432,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 954, col: 5, offset: 30210},
+													pos:   position{line: 954, col: 5, offset: 30212},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 954, col: 9, offset: 30214},
+														pos: position{line: 954, col: 9, offset: 30216},
 														expr: &choiceExpr{
-															pos: position{line: 961, col: 5, offset: 30416},
+															pos: position{line: 961, col: 5, offset: 30418},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 961, col: 5, offset: 30416},
+																	pos: position{line: 961, col: 5, offset: 30418},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 961, col: 5, offset: 30416},
+																			pos:   position{line: 961, col: 5, offset: 30418},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 808, col: 5, offset: 26180},
+																				pos: position{line: 808, col: 5, offset: 26182},
 																				run: (*parser).callonListContinuationElement820,
 																				expr: &seqExpr{
-																					pos: position{line: 808, col: 5, offset: 26180},
+																					pos: position{line: 808, col: 5, offset: 26182},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 808, col: 5, offset: 26180},
+																							pos:   position{line: 808, col: 5, offset: 26182},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 808, col: 16, offset: 26191},
+																								pos: position{line: 808, col: 16, offset: 26193},
 																								run: (*parser).callonListContinuationElement823,
 																								expr: &seqExpr{
-																									pos: position{line: 808, col: 16, offset: 26191},
+																									pos: position{line: 808, col: 16, offset: 26193},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 808, col: 16, offset: 26191},
+																											pos:        position{line: 808, col: 16, offset: 26193},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 808, col: 23, offset: 26198},
+																											pos: position{line: 808, col: 23, offset: 26200},
 																											expr: &litMatcher{
-																												pos:        position{line: 808, col: 23, offset: 26198},
+																												pos:        position{line: 808, col: 23, offset: 26200},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -34480,12 +34480,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 810, col: 8, offset: 26282},
+																							pos: position{line: 810, col: 8, offset: 26284},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93180},
+																								pos: position{line: 2944, col: 10, offset: 93182},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93180},
+																									pos:        position{line: 2944, col: 10, offset: 93182},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34494,28 +34494,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34524,9 +34524,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -34536,15 +34536,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 962, col: 5, offset: 30447},
+																			pos: position{line: 962, col: 5, offset: 30449},
 																			run: (*parser).callonListContinuationElement839,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2963, col: 8, offset: 93528},
+																	pos: position{line: 2963, col: 8, offset: 93530},
 																	expr: &anyMatcher{
-																		line: 2963, col: 9, offset: 93529,
+																		line: 2963, col: 9, offset: 93531,
 																	},
 																},
 															},
@@ -34555,41 +34555,41 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1000, col: 5, offset: 31488},
+										pos: position{line: 1000, col: 5, offset: 31490},
 										run: (*parser).callonListContinuationElement842,
 										expr: &seqExpr{
-											pos: position{line: 1000, col: 5, offset: 31488},
+											pos: position{line: 1000, col: 5, offset: 31490},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1000, col: 5, offset: 31488},
+													pos:   position{line: 1000, col: 5, offset: 31490},
 													label: "firstLine",
 													expr: &actionExpr{
-														pos: position{line: 1007, col: 5, offset: 31747},
+														pos: position{line: 1007, col: 5, offset: 31749},
 														run: (*parser).callonListContinuationElement845,
 														expr: &seqExpr{
-															pos: position{line: 1007, col: 5, offset: 31747},
+															pos: position{line: 1007, col: 5, offset: 31749},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1007, col: 5, offset: 31747},
+																	pos: position{line: 1007, col: 5, offset: 31749},
 																	expr: &actionExpr{
-																		pos: position{line: 702, col: 14, offset: 22577},
+																		pos: position{line: 702, col: 14, offset: 22579},
 																		run: (*parser).callonListContinuationElement848,
 																		expr: &seqExpr{
-																			pos: position{line: 702, col: 14, offset: 22577},
+																			pos: position{line: 702, col: 14, offset: 22579},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2961, col: 11, offset: 93514},
+																					pos: position{line: 2961, col: 11, offset: 93516},
 																					expr: &anyMatcher{
-																						line: 2961, col: 13, offset: 93516,
+																						line: 2961, col: 13, offset: 93518,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 702, col: 21, offset: 22584},
+																					pos: position{line: 702, col: 21, offset: 22586},
 																					expr: &actionExpr{
-																						pos: position{line: 2944, col: 10, offset: 93180},
+																						pos: position{line: 2944, col: 10, offset: 93182},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2944, col: 10, offset: 93180},
+																							pos:        position{line: 2944, col: 10, offset: 93182},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -34598,28 +34598,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2966, col: 8, offset: 93578},
+																					pos: position{line: 2966, col: 8, offset: 93580},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2953, col: 12, offset: 93351},
+																							pos: position{line: 2953, col: 12, offset: 93353},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2953, col: 13, offset: 93352},
+																								pos: position{line: 2953, col: 13, offset: 93354},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 13, offset: 93352},
+																										pos:        position{line: 2953, col: 13, offset: 93354},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 20, offset: 93359},
+																										pos:        position{line: 2953, col: 20, offset: 93361},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 29, offset: 93368},
+																										pos:        position{line: 2953, col: 29, offset: 93370},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -34628,9 +34628,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93528},
+																							pos: position{line: 2963, col: 8, offset: 93530},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93529,
+																								line: 2963, col: 9, offset: 93531,
 																							},
 																						},
 																					},
@@ -34640,21 +34640,21 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1008, col: 5, offset: 31762},
+																	pos:        position{line: 1008, col: 5, offset: 31764},
 																	val:        "> ",
 																	ignoreCase: false,
 																	want:       "\"> \"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1009, col: 5, offset: 31772},
+																	pos:   position{line: 1009, col: 5, offset: 31774},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2894, col: 14, offset: 91773},
+																		pos: position{line: 2894, col: 14, offset: 91775},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2894, col: 14, offset: 91773},
+																			pos: position{line: 2894, col: 14, offset: 91775},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2894, col: 14, offset: 91773},
+																				pos:        position{line: 2894, col: 14, offset: 91775},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -34664,28 +34664,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93578},
+																	pos: position{line: 2966, col: 8, offset: 93580},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93351},
+																			pos: position{line: 2953, col: 12, offset: 93353},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93352},
+																				pos: position{line: 2953, col: 13, offset: 93354},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93352},
+																						pos:        position{line: 2953, col: 13, offset: 93354},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93359},
+																						pos:        position{line: 2953, col: 20, offset: 93361},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93368},
+																						pos:        position{line: 2953, col: 29, offset: 93370},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34694,9 +34694,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93528},
+																			pos: position{line: 2963, col: 8, offset: 93530},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93529,
+																				line: 2963, col: 9, offset: 93531,
 																			},
 																		},
 																	},
@@ -34706,40 +34706,40 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1001, col: 5, offset: 31525},
+													pos:   position{line: 1001, col: 5, offset: 31527},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1001, col: 16, offset: 31536},
+														pos: position{line: 1001, col: 16, offset: 31538},
 														expr: &choiceExpr{
-															pos: position{line: 1001, col: 17, offset: 31537},
+															pos: position{line: 1001, col: 17, offset: 31539},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 1007, col: 5, offset: 31747},
+																	pos: position{line: 1007, col: 5, offset: 31749},
 																	run: (*parser).callonListContinuationElement879,
 																	expr: &seqExpr{
-																		pos: position{line: 1007, col: 5, offset: 31747},
+																		pos: position{line: 1007, col: 5, offset: 31749},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1007, col: 5, offset: 31747},
+																				pos: position{line: 1007, col: 5, offset: 31749},
 																				expr: &actionExpr{
-																					pos: position{line: 702, col: 14, offset: 22577},
+																					pos: position{line: 702, col: 14, offset: 22579},
 																					run: (*parser).callonListContinuationElement882,
 																					expr: &seqExpr{
-																						pos: position{line: 702, col: 14, offset: 22577},
+																						pos: position{line: 702, col: 14, offset: 22579},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2961, col: 11, offset: 93514},
+																								pos: position{line: 2961, col: 11, offset: 93516},
 																								expr: &anyMatcher{
-																									line: 2961, col: 13, offset: 93516,
+																									line: 2961, col: 13, offset: 93518,
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 702, col: 21, offset: 22584},
+																								pos: position{line: 702, col: 21, offset: 22586},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93180},
+																									pos: position{line: 2944, col: 10, offset: 93182},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93180},
+																										pos:        position{line: 2944, col: 10, offset: 93182},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34748,28 +34748,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2966, col: 8, offset: 93578},
+																								pos: position{line: 2966, col: 8, offset: 93580},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2953, col: 12, offset: 93351},
+																										pos: position{line: 2953, col: 12, offset: 93353},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2953, col: 13, offset: 93352},
+																											pos: position{line: 2953, col: 13, offset: 93354},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 13, offset: 93352},
+																													pos:        position{line: 2953, col: 13, offset: 93354},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 20, offset: 93359},
+																													pos:        position{line: 2953, col: 20, offset: 93361},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 29, offset: 93368},
+																													pos:        position{line: 2953, col: 29, offset: 93370},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34778,9 +34778,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93528},
+																										pos: position{line: 2963, col: 8, offset: 93530},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93529,
+																											line: 2963, col: 9, offset: 93531,
 																										},
 																									},
 																								},
@@ -34790,21 +34790,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1008, col: 5, offset: 31762},
+																				pos:        position{line: 1008, col: 5, offset: 31764},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1009, col: 5, offset: 31772},
+																				pos:   position{line: 1009, col: 5, offset: 31774},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2894, col: 14, offset: 91773},
+																					pos: position{line: 2894, col: 14, offset: 91775},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2894, col: 14, offset: 91773},
+																						pos: position{line: 2894, col: 14, offset: 91775},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2894, col: 14, offset: 91773},
+																							pos:        position{line: 2894, col: 14, offset: 91775},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34814,28 +34814,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2966, col: 8, offset: 93578},
+																				pos: position{line: 2966, col: 8, offset: 93580},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2953, col: 12, offset: 93351},
+																						pos: position{line: 2953, col: 12, offset: 93353},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2953, col: 13, offset: 93352},
+																							pos: position{line: 2953, col: 13, offset: 93354},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 13, offset: 93352},
+																									pos:        position{line: 2953, col: 13, offset: 93354},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 20, offset: 93359},
+																									pos:        position{line: 2953, col: 20, offset: 93361},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 29, offset: 93368},
+																									pos:        position{line: 2953, col: 29, offset: 93370},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34844,9 +34844,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93528},
+																						pos: position{line: 2963, col: 8, offset: 93530},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93529,
+																							line: 2963, col: 9, offset: 93531,
 																						},
 																					},
 																				},
@@ -34855,21 +34855,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1816, col: 5, offset: 58966},
+																	pos: position{line: 1816, col: 5, offset: 58968},
 																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 1816, col: 5, offset: 58966},
+																		pos: position{line: 1816, col: 5, offset: 58968},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1816, col: 5, offset: 58966},
+																				pos:   position{line: 1816, col: 5, offset: 58968},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2894, col: 14, offset: 91773},
+																					pos: position{line: 2894, col: 14, offset: 91775},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2894, col: 14, offset: 91773},
+																						pos: position{line: 2894, col: 14, offset: 91775},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2894, col: 14, offset: 91773},
+																							pos:        position{line: 2894, col: 14, offset: 91775},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34879,32 +34879,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1817, col: 5, offset: 58990},
+																				pos: position{line: 1817, col: 5, offset: 58992},
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2966, col: 8, offset: 93578},
+																				pos: position{line: 2966, col: 8, offset: 93580},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2953, col: 12, offset: 93351},
+																						pos: position{line: 2953, col: 12, offset: 93353},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2953, col: 13, offset: 93352},
+																							pos: position{line: 2953, col: 13, offset: 93354},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 13, offset: 93352},
+																									pos:        position{line: 2953, col: 13, offset: 93354},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 20, offset: 93359},
+																									pos:        position{line: 2953, col: 20, offset: 93361},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 29, offset: 93368},
+																									pos:        position{line: 2953, col: 29, offset: 93370},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34913,9 +34913,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93528},
+																						pos: position{line: 2963, col: 8, offset: 93530},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93529,
+																							line: 2963, col: 9, offset: 93531,
 																						},
 																					},
 																				},
@@ -34931,28 +34931,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1022, col: 5, offset: 32037},
+										pos: position{line: 1022, col: 5, offset: 32039},
 										run: (*parser).callonListContinuationElement925,
 										expr: &seqExpr{
-											pos: position{line: 1022, col: 5, offset: 32037},
+											pos: position{line: 1022, col: 5, offset: 32039},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1022, col: 5, offset: 32037},
+													pos:   position{line: 1022, col: 5, offset: 32039},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 801, col: 5, offset: 25949},
+														pos: position{line: 801, col: 5, offset: 25951},
 														run: (*parser).callonListContinuationElement928,
 														expr: &seqExpr{
-															pos: position{line: 801, col: 5, offset: 25949},
+															pos: position{line: 801, col: 5, offset: 25951},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 801, col: 5, offset: 25949},
+																	pos:   position{line: 801, col: 5, offset: 25951},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 801, col: 16, offset: 25960},
+																		pos: position{line: 801, col: 16, offset: 25962},
 																		run: (*parser).callonListContinuationElement931,
 																		expr: &litMatcher{
-																			pos:        position{line: 801, col: 16, offset: 25960},
+																			pos:        position{line: 801, col: 16, offset: 25962},
 																			val:        "--",
 																			ignoreCase: false,
 																			want:       "\"--\"",
@@ -34960,12 +34960,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 803, col: 8, offset: 26037},
+																	pos: position{line: 803, col: 8, offset: 26039},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93180},
+																		pos: position{line: 2944, col: 10, offset: 93182},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93180},
+																			pos:        position{line: 2944, col: 10, offset: 93182},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34974,28 +34974,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93578},
+																	pos: position{line: 2966, col: 8, offset: 93580},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93351},
+																			pos: position{line: 2953, col: 12, offset: 93353},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93352},
+																				pos: position{line: 2953, col: 13, offset: 93354},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93352},
+																						pos:        position{line: 2953, col: 13, offset: 93354},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93359},
+																						pos:        position{line: 2953, col: 20, offset: 93361},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93368},
+																						pos:        position{line: 2953, col: 29, offset: 93370},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35004,9 +35004,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93528},
+																			pos: position{line: 2963, col: 8, offset: 93530},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93529,
+																				line: 2963, col: 9, offset: 93531,
 																			},
 																		},
 																	},
@@ -35016,35 +35016,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1023, col: 5, offset: 32073},
+													pos:   position{line: 1023, col: 5, offset: 32075},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1033, col: 5, offset: 32341},
+														pos: position{line: 1033, col: 5, offset: 32343},
 														expr: &actionExpr{
-															pos: position{line: 1033, col: 6, offset: 32342},
+															pos: position{line: 1033, col: 6, offset: 32344},
 															run: (*parser).callonListContinuationElement946,
 															expr: &seqExpr{
-																pos: position{line: 1033, col: 6, offset: 32342},
+																pos: position{line: 1033, col: 6, offset: 32344},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1033, col: 6, offset: 32342},
+																		pos: position{line: 1033, col: 6, offset: 32344},
 																		expr: &choiceExpr{
-																			pos: position{line: 1030, col: 26, offset: 32290},
+																			pos: position{line: 1030, col: 26, offset: 32292},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 801, col: 5, offset: 25949},
+																					pos: position{line: 801, col: 5, offset: 25951},
 																					run: (*parser).callonListContinuationElement950,
 																					expr: &seqExpr{
-																						pos: position{line: 801, col: 5, offset: 25949},
+																						pos: position{line: 801, col: 5, offset: 25951},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 801, col: 5, offset: 25949},
+																								pos:   position{line: 801, col: 5, offset: 25951},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 801, col: 16, offset: 25960},
+																									pos: position{line: 801, col: 16, offset: 25962},
 																									run: (*parser).callonListContinuationElement953,
 																									expr: &litMatcher{
-																										pos:        position{line: 801, col: 16, offset: 25960},
+																										pos:        position{line: 801, col: 16, offset: 25962},
 																										val:        "--",
 																										ignoreCase: false,
 																										want:       "\"--\"",
@@ -35052,12 +35052,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 803, col: 8, offset: 26037},
+																								pos: position{line: 803, col: 8, offset: 26039},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93180},
+																									pos: position{line: 2944, col: 10, offset: 93182},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93180},
+																										pos:        position{line: 2944, col: 10, offset: 93182},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35066,28 +35066,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2966, col: 8, offset: 93578},
+																								pos: position{line: 2966, col: 8, offset: 93580},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2953, col: 12, offset: 93351},
+																										pos: position{line: 2953, col: 12, offset: 93353},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2953, col: 13, offset: 93352},
+																											pos: position{line: 2953, col: 13, offset: 93354},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 13, offset: 93352},
+																													pos:        position{line: 2953, col: 13, offset: 93354},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 20, offset: 93359},
+																													pos:        position{line: 2953, col: 20, offset: 93361},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 29, offset: 93368},
+																													pos:        position{line: 2953, col: 29, offset: 93370},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35096,9 +35096,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93528},
+																										pos: position{line: 2963, col: 8, offset: 93530},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93529,
+																											line: 2963, col: 9, offset: 93531,
 																										},
 																									},
 																								},
@@ -35107,39 +35107,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1034, col: 5, offset: 32369},
+																		pos:   position{line: 1034, col: 5, offset: 32371},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 836, col: 5, offset: 27176},
+																			pos: position{line: 836, col: 5, offset: 27178},
 																			run: (*parser).callonListContinuationElement969,
 																			expr: &seqExpr{
-																				pos: position{line: 836, col: 5, offset: 27176},
+																				pos: position{line: 836, col: 5, offset: 27178},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2961, col: 11, offset: 93514},
+																						pos: position{line: 2961, col: 11, offset: 93516},
 																						expr: &anyMatcher{
-																							line: 2961, col: 13, offset: 93516,
+																							line: 2961, col: 13, offset: 93518,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 837, col: 5, offset: 27251},
+																						pos:   position{line: 837, col: 5, offset: 27253},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 13, offset: 91706},
+																							pos: position{line: 2890, col: 13, offset: 91708},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2890, col: 13, offset: 91706},
+																								pos: position{line: 2890, col: 13, offset: 91708},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91706},
+																									pos:        position{line: 2890, col: 13, offset: 91708},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35149,28 +35149,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93578},
+																						pos: position{line: 2966, col: 8, offset: 93580},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93351},
+																								pos: position{line: 2953, col: 12, offset: 93353},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93352},
+																									pos: position{line: 2953, col: 13, offset: 93354},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93352},
+																											pos:        position{line: 2953, col: 13, offset: 93354},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93359},
+																											pos:        position{line: 2953, col: 20, offset: 93361},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93368},
+																											pos:        position{line: 2953, col: 29, offset: 93370},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35179,9 +35179,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93528},
+																								pos: position{line: 2963, col: 8, offset: 93530},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93529,
+																									line: 2963, col: 9, offset: 93531,
 																								},
 																							},
 																						},
@@ -35196,27 +35196,27 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1024, col: 5, offset: 32104},
+													pos:   position{line: 1024, col: 5, offset: 32106},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1024, col: 9, offset: 32108},
+														pos: position{line: 1024, col: 9, offset: 32110},
 														expr: &choiceExpr{
-															pos: position{line: 1030, col: 26, offset: 32290},
+															pos: position{line: 1030, col: 26, offset: 32292},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 801, col: 5, offset: 25949},
+																	pos: position{line: 801, col: 5, offset: 25951},
 																	run: (*parser).callonListContinuationElement988,
 																	expr: &seqExpr{
-																		pos: position{line: 801, col: 5, offset: 25949},
+																		pos: position{line: 801, col: 5, offset: 25951},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 801, col: 5, offset: 25949},
+																				pos:   position{line: 801, col: 5, offset: 25951},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 801, col: 16, offset: 25960},
+																					pos: position{line: 801, col: 16, offset: 25962},
 																					run: (*parser).callonListContinuationElement991,
 																					expr: &litMatcher{
-																						pos:        position{line: 801, col: 16, offset: 25960},
+																						pos:        position{line: 801, col: 16, offset: 25962},
 																						val:        "--",
 																						ignoreCase: false,
 																						want:       "\"--\"",
@@ -35224,12 +35224,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 803, col: 8, offset: 26037},
+																				pos: position{line: 803, col: 8, offset: 26039},
 																				expr: &actionExpr{
-																					pos: position{line: 2944, col: 10, offset: 93180},
+																					pos: position{line: 2944, col: 10, offset: 93182},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2944, col: 10, offset: 93180},
+																						pos:        position{line: 2944, col: 10, offset: 93182},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35238,28 +35238,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2966, col: 8, offset: 93578},
+																				pos: position{line: 2966, col: 8, offset: 93580},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2953, col: 12, offset: 93351},
+																						pos: position{line: 2953, col: 12, offset: 93353},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2953, col: 13, offset: 93352},
+																							pos: position{line: 2953, col: 13, offset: 93354},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 13, offset: 93352},
+																									pos:        position{line: 2953, col: 13, offset: 93354},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 20, offset: 93359},
+																									pos:        position{line: 2953, col: 20, offset: 93361},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 29, offset: 93368},
+																									pos:        position{line: 2953, col: 29, offset: 93370},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35268,9 +35268,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93528},
+																						pos: position{line: 2963, col: 8, offset: 93530},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93529,
+																							line: 2963, col: 9, offset: 93531,
 																						},
 																					},
 																				},
@@ -35279,9 +35279,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2963, col: 8, offset: 93528},
+																	pos: position{line: 2963, col: 8, offset: 93530},
 																	expr: &anyMatcher{
-																		line: 2963, col: 9, offset: 93529,
+																		line: 2963, col: 9, offset: 93531,
 																	},
 																},
 															},
@@ -35292,39 +35292,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1042, col: 5, offset: 32532},
+										pos: position{line: 1042, col: 5, offset: 32534},
 										run: (*parser).callonListContinuationElement1006,
 										expr: &seqExpr{
-											pos: position{line: 1042, col: 5, offset: 32532},
+											pos: position{line: 1042, col: 5, offset: 32534},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1042, col: 5, offset: 32532},
+													pos:   position{line: 1042, col: 5, offset: 32534},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 815, col: 5, offset: 26432},
+														pos: position{line: 815, col: 5, offset: 26434},
 														run: (*parser).callonListContinuationElement1009,
 														expr: &seqExpr{
-															pos: position{line: 815, col: 5, offset: 26432},
+															pos: position{line: 815, col: 5, offset: 26434},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 815, col: 5, offset: 26432},
+																	pos:   position{line: 815, col: 5, offset: 26434},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 815, col: 16, offset: 26443},
+																		pos: position{line: 815, col: 16, offset: 26445},
 																		run: (*parser).callonListContinuationElement1012,
 																		expr: &seqExpr{
-																			pos: position{line: 815, col: 16, offset: 26443},
+																			pos: position{line: 815, col: 16, offset: 26445},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 815, col: 16, offset: 26443},
+																					pos:        position{line: 815, col: 16, offset: 26445},
 																					val:        "++++",
 																					ignoreCase: false,
 																					want:       "\"++++\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 815, col: 23, offset: 26450},
+																					pos: position{line: 815, col: 23, offset: 26452},
 																					expr: &litMatcher{
-																						pos:        position{line: 815, col: 23, offset: 26450},
+																						pos:        position{line: 815, col: 23, offset: 26452},
 																						val:        "+",
 																						ignoreCase: false,
 																						want:       "\"+\"",
@@ -35335,12 +35335,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 817, col: 8, offset: 26534},
+																	pos: position{line: 817, col: 8, offset: 26536},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93180},
+																		pos: position{line: 2944, col: 10, offset: 93182},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93180},
+																			pos:        position{line: 2944, col: 10, offset: 93182},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35349,28 +35349,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93578},
+																	pos: position{line: 2966, col: 8, offset: 93580},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93351},
+																			pos: position{line: 2953, col: 12, offset: 93353},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93352},
+																				pos: position{line: 2953, col: 13, offset: 93354},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93352},
+																						pos:        position{line: 2953, col: 13, offset: 93354},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93359},
+																						pos:        position{line: 2953, col: 20, offset: 93361},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93368},
+																						pos:        position{line: 2953, col: 29, offset: 93370},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35379,9 +35379,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93528},
+																			pos: position{line: 2963, col: 8, offset: 93530},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93529,
+																				line: 2963, col: 9, offset: 93531,
 																			},
 																		},
 																	},
@@ -35391,56 +35391,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1043, col: 5, offset: 32575},
+													pos: position{line: 1043, col: 5, offset: 32577},
 													run: (*parser).callonListContinuationElement1028,
 												},
 												&labeledExpr{
-													pos:   position{line: 1046, col: 5, offset: 32667},
+													pos:   position{line: 1046, col: 5, offset: 32669},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1061, col: 5, offset: 33097},
+														pos: position{line: 1061, col: 5, offset: 33099},
 														expr: &actionExpr{
-															pos: position{line: 1061, col: 6, offset: 33098},
+															pos: position{line: 1061, col: 6, offset: 33100},
 															run: (*parser).callonListContinuationElement1031,
 															expr: &seqExpr{
-																pos: position{line: 1061, col: 6, offset: 33098},
+																pos: position{line: 1061, col: 6, offset: 33100},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1061, col: 6, offset: 33098},
+																		pos: position{line: 1061, col: 6, offset: 33100},
 																		expr: &choiceExpr{
-																			pos: position{line: 1054, col: 5, offset: 32931},
+																			pos: position{line: 1054, col: 5, offset: 32933},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1054, col: 5, offset: 32931},
+																					pos: position{line: 1054, col: 5, offset: 32933},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1054, col: 5, offset: 32931},
+																							pos:   position{line: 1054, col: 5, offset: 32933},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 815, col: 5, offset: 26432},
+																								pos: position{line: 815, col: 5, offset: 26434},
 																								run: (*parser).callonListContinuationElement1037,
 																								expr: &seqExpr{
-																									pos: position{line: 815, col: 5, offset: 26432},
+																									pos: position{line: 815, col: 5, offset: 26434},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 815, col: 5, offset: 26432},
+																											pos:   position{line: 815, col: 5, offset: 26434},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 815, col: 16, offset: 26443},
+																												pos: position{line: 815, col: 16, offset: 26445},
 																												run: (*parser).callonListContinuationElement1040,
 																												expr: &seqExpr{
-																													pos: position{line: 815, col: 16, offset: 26443},
+																													pos: position{line: 815, col: 16, offset: 26445},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 815, col: 16, offset: 26443},
+																															pos:        position{line: 815, col: 16, offset: 26445},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 815, col: 23, offset: 26450},
+																															pos: position{line: 815, col: 23, offset: 26452},
 																															expr: &litMatcher{
-																																pos:        position{line: 815, col: 23, offset: 26450},
+																																pos:        position{line: 815, col: 23, offset: 26452},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -35451,12 +35451,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 817, col: 8, offset: 26534},
+																											pos: position{line: 817, col: 8, offset: 26536},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93180},
+																												pos: position{line: 2944, col: 10, offset: 93182},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93180},
+																													pos:        position{line: 2944, col: 10, offset: 93182},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35465,28 +35465,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93578},
+																											pos: position{line: 2966, col: 8, offset: 93580},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93351},
+																													pos: position{line: 2953, col: 12, offset: 93353},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93352},
+																														pos: position{line: 2953, col: 13, offset: 93354},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93352},
+																																pos:        position{line: 2953, col: 13, offset: 93354},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93359},
+																																pos:        position{line: 2953, col: 20, offset: 93361},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93368},
+																																pos:        position{line: 2953, col: 29, offset: 93370},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35495,9 +35495,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93528},
+																													pos: position{line: 2963, col: 8, offset: 93530},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93529,
+																														line: 2963, col: 9, offset: 93531,
 																													},
 																												},
 																											},
@@ -35507,45 +35507,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1055, col: 5, offset: 32966},
+																							pos: position{line: 1055, col: 5, offset: 32968},
 																							run: (*parser).callonListContinuationElement1056,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1062, col: 5, offset: 33132},
+																		pos:   position{line: 1062, col: 5, offset: 33134},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 836, col: 5, offset: 27176},
+																			pos: position{line: 836, col: 5, offset: 27178},
 																			run: (*parser).callonListContinuationElement1060,
 																			expr: &seqExpr{
-																				pos: position{line: 836, col: 5, offset: 27176},
+																				pos: position{line: 836, col: 5, offset: 27178},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2961, col: 11, offset: 93514},
+																						pos: position{line: 2961, col: 11, offset: 93516},
 																						expr: &anyMatcher{
-																							line: 2961, col: 13, offset: 93516,
+																							line: 2961, col: 13, offset: 93518,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 837, col: 5, offset: 27251},
+																						pos:   position{line: 837, col: 5, offset: 27253},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 13, offset: 91706},
+																							pos: position{line: 2890, col: 13, offset: 91708},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2890, col: 13, offset: 91706},
+																								pos: position{line: 2890, col: 13, offset: 91708},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91706},
+																									pos:        position{line: 2890, col: 13, offset: 91708},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35555,28 +35555,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93578},
+																						pos: position{line: 2966, col: 8, offset: 93580},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93351},
+																								pos: position{line: 2953, col: 12, offset: 93353},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93352},
+																									pos: position{line: 2953, col: 13, offset: 93354},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93352},
+																											pos:        position{line: 2953, col: 13, offset: 93354},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93359},
+																											pos:        position{line: 2953, col: 20, offset: 93361},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93368},
+																											pos:        position{line: 2953, col: 29, offset: 93370},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35585,9 +35585,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93528},
+																								pos: position{line: 2963, col: 8, offset: 93530},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93529,
+																									line: 2963, col: 9, offset: 93531,
 																								},
 																							},
 																						},
@@ -35602,44 +35602,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1047, col: 5, offset: 32705},
+													pos:   position{line: 1047, col: 5, offset: 32707},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1047, col: 9, offset: 32709},
+														pos: position{line: 1047, col: 9, offset: 32711},
 														expr: &choiceExpr{
-															pos: position{line: 1054, col: 5, offset: 32931},
+															pos: position{line: 1054, col: 5, offset: 32933},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1054, col: 5, offset: 32931},
+																	pos: position{line: 1054, col: 5, offset: 32933},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1054, col: 5, offset: 32931},
+																			pos:   position{line: 1054, col: 5, offset: 32933},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 815, col: 5, offset: 26432},
+																				pos: position{line: 815, col: 5, offset: 26434},
 																				run: (*parser).callonListContinuationElement1081,
 																				expr: &seqExpr{
-																					pos: position{line: 815, col: 5, offset: 26432},
+																					pos: position{line: 815, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 815, col: 5, offset: 26432},
+																							pos:   position{line: 815, col: 5, offset: 26434},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 815, col: 16, offset: 26443},
+																								pos: position{line: 815, col: 16, offset: 26445},
 																								run: (*parser).callonListContinuationElement1084,
 																								expr: &seqExpr{
-																									pos: position{line: 815, col: 16, offset: 26443},
+																									pos: position{line: 815, col: 16, offset: 26445},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 815, col: 16, offset: 26443},
+																											pos:        position{line: 815, col: 16, offset: 26445},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 815, col: 23, offset: 26450},
+																											pos: position{line: 815, col: 23, offset: 26452},
 																											expr: &litMatcher{
-																												pos:        position{line: 815, col: 23, offset: 26450},
+																												pos:        position{line: 815, col: 23, offset: 26452},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -35650,12 +35650,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 817, col: 8, offset: 26534},
+																							pos: position{line: 817, col: 8, offset: 26536},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93180},
+																								pos: position{line: 2944, col: 10, offset: 93182},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93180},
+																									pos:        position{line: 2944, col: 10, offset: 93182},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35664,28 +35664,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35694,9 +35694,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -35706,15 +35706,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1055, col: 5, offset: 32966},
+																			pos: position{line: 1055, col: 5, offset: 32968},
 																			run: (*parser).callonListContinuationElement1100,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2963, col: 8, offset: 93528},
+																	pos: position{line: 2963, col: 8, offset: 93530},
 																	expr: &anyMatcher{
-																		line: 2963, col: 9, offset: 93529,
+																		line: 2963, col: 9, offset: 93531,
 																	},
 																},
 															},
@@ -35725,39 +35725,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1070, col: 5, offset: 33283},
+										pos: position{line: 1070, col: 5, offset: 33285},
 										run: (*parser).callonListContinuationElement1103,
 										expr: &seqExpr{
-											pos: position{line: 1070, col: 5, offset: 33283},
+											pos: position{line: 1070, col: 5, offset: 33285},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1070, col: 5, offset: 33283},
+													pos:   position{line: 1070, col: 5, offset: 33285},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 822, col: 5, offset: 26682},
+														pos: position{line: 822, col: 5, offset: 26684},
 														run: (*parser).callonListContinuationElement1106,
 														expr: &seqExpr{
-															pos: position{line: 822, col: 5, offset: 26682},
+															pos: position{line: 822, col: 5, offset: 26684},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 822, col: 5, offset: 26682},
+																	pos:   position{line: 822, col: 5, offset: 26684},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 822, col: 16, offset: 26693},
+																		pos: position{line: 822, col: 16, offset: 26695},
 																		run: (*parser).callonListContinuationElement1109,
 																		expr: &seqExpr{
-																			pos: position{line: 822, col: 16, offset: 26693},
+																			pos: position{line: 822, col: 16, offset: 26695},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 822, col: 16, offset: 26693},
+																					pos:        position{line: 822, col: 16, offset: 26695},
 																					val:        "____",
 																					ignoreCase: false,
 																					want:       "\"____\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 822, col: 23, offset: 26700},
+																					pos: position{line: 822, col: 23, offset: 26702},
 																					expr: &litMatcher{
-																						pos:        position{line: 822, col: 23, offset: 26700},
+																						pos:        position{line: 822, col: 23, offset: 26702},
 																						val:        "_",
 																						ignoreCase: false,
 																						want:       "\"_\"",
@@ -35768,12 +35768,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 824, col: 8, offset: 26784},
+																	pos: position{line: 824, col: 8, offset: 26786},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93180},
+																		pos: position{line: 2944, col: 10, offset: 93182},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93180},
+																			pos:        position{line: 2944, col: 10, offset: 93182},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35782,28 +35782,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93578},
+																	pos: position{line: 2966, col: 8, offset: 93580},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93351},
+																			pos: position{line: 2953, col: 12, offset: 93353},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93352},
+																				pos: position{line: 2953, col: 13, offset: 93354},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93352},
+																						pos:        position{line: 2953, col: 13, offset: 93354},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93359},
+																						pos:        position{line: 2953, col: 20, offset: 93361},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93368},
+																						pos:        position{line: 2953, col: 29, offset: 93370},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35812,9 +35812,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93528},
+																			pos: position{line: 2963, col: 8, offset: 93530},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93529,
+																				line: 2963, col: 9, offset: 93531,
 																			},
 																		},
 																	},
@@ -35824,56 +35824,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1071, col: 5, offset: 33320},
+													pos: position{line: 1071, col: 5, offset: 33322},
 													run: (*parser).callonListContinuationElement1125,
 												},
 												&labeledExpr{
-													pos:   position{line: 1074, col: 5, offset: 33412},
+													pos:   position{line: 1074, col: 5, offset: 33414},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1089, col: 4, offset: 33793},
+														pos: position{line: 1089, col: 4, offset: 33795},
 														expr: &actionExpr{
-															pos: position{line: 1089, col: 5, offset: 33794},
+															pos: position{line: 1089, col: 5, offset: 33796},
 															run: (*parser).callonListContinuationElement1128,
 															expr: &seqExpr{
-																pos: position{line: 1089, col: 5, offset: 33794},
+																pos: position{line: 1089, col: 5, offset: 33796},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1089, col: 5, offset: 33794},
+																		pos: position{line: 1089, col: 5, offset: 33796},
 																		expr: &choiceExpr{
-																			pos: position{line: 1082, col: 5, offset: 33640},
+																			pos: position{line: 1082, col: 5, offset: 33642},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1082, col: 5, offset: 33640},
+																					pos: position{line: 1082, col: 5, offset: 33642},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1082, col: 5, offset: 33640},
+																							pos:   position{line: 1082, col: 5, offset: 33642},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 822, col: 5, offset: 26682},
+																								pos: position{line: 822, col: 5, offset: 26684},
 																								run: (*parser).callonListContinuationElement1134,
 																								expr: &seqExpr{
-																									pos: position{line: 822, col: 5, offset: 26682},
+																									pos: position{line: 822, col: 5, offset: 26684},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 822, col: 5, offset: 26682},
+																											pos:   position{line: 822, col: 5, offset: 26684},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 822, col: 16, offset: 26693},
+																												pos: position{line: 822, col: 16, offset: 26695},
 																												run: (*parser).callonListContinuationElement1137,
 																												expr: &seqExpr{
-																													pos: position{line: 822, col: 16, offset: 26693},
+																													pos: position{line: 822, col: 16, offset: 26695},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 822, col: 16, offset: 26693},
+																															pos:        position{line: 822, col: 16, offset: 26695},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 822, col: 23, offset: 26700},
+																															pos: position{line: 822, col: 23, offset: 26702},
 																															expr: &litMatcher{
-																																pos:        position{line: 822, col: 23, offset: 26700},
+																																pos:        position{line: 822, col: 23, offset: 26702},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -35884,12 +35884,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 824, col: 8, offset: 26784},
+																											pos: position{line: 824, col: 8, offset: 26786},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93180},
+																												pos: position{line: 2944, col: 10, offset: 93182},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93180},
+																													pos:        position{line: 2944, col: 10, offset: 93182},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35898,28 +35898,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93578},
+																											pos: position{line: 2966, col: 8, offset: 93580},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93351},
+																													pos: position{line: 2953, col: 12, offset: 93353},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93352},
+																														pos: position{line: 2953, col: 13, offset: 93354},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93352},
+																																pos:        position{line: 2953, col: 13, offset: 93354},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93359},
+																																pos:        position{line: 2953, col: 20, offset: 93361},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93368},
+																																pos:        position{line: 2953, col: 29, offset: 93370},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35928,9 +35928,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93528},
+																													pos: position{line: 2963, col: 8, offset: 93530},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93529,
+																														line: 2963, col: 9, offset: 93531,
 																													},
 																												},
 																											},
@@ -35940,45 +35940,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1083, col: 5, offset: 33669},
+																							pos: position{line: 1083, col: 5, offset: 33671},
 																							run: (*parser).callonListContinuationElement1153,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1090, col: 5, offset: 33822},
+																		pos:   position{line: 1090, col: 5, offset: 33824},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 836, col: 5, offset: 27176},
+																			pos: position{line: 836, col: 5, offset: 27178},
 																			run: (*parser).callonListContinuationElement1157,
 																			expr: &seqExpr{
-																				pos: position{line: 836, col: 5, offset: 27176},
+																				pos: position{line: 836, col: 5, offset: 27178},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2961, col: 11, offset: 93514},
+																						pos: position{line: 2961, col: 11, offset: 93516},
 																						expr: &anyMatcher{
-																							line: 2961, col: 13, offset: 93516,
+																							line: 2961, col: 13, offset: 93518,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 837, col: 5, offset: 27251},
+																						pos:   position{line: 837, col: 5, offset: 27253},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 13, offset: 91706},
+																							pos: position{line: 2890, col: 13, offset: 91708},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2890, col: 13, offset: 91706},
+																								pos: position{line: 2890, col: 13, offset: 91708},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91706},
+																									pos:        position{line: 2890, col: 13, offset: 91708},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35988,28 +35988,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93578},
+																						pos: position{line: 2966, col: 8, offset: 93580},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93351},
+																								pos: position{line: 2953, col: 12, offset: 93353},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93352},
+																									pos: position{line: 2953, col: 13, offset: 93354},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93352},
+																											pos:        position{line: 2953, col: 13, offset: 93354},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93359},
+																											pos:        position{line: 2953, col: 20, offset: 93361},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93368},
+																											pos:        position{line: 2953, col: 29, offset: 93370},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36018,9 +36018,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93528},
+																								pos: position{line: 2963, col: 8, offset: 93530},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93529,
+																									line: 2963, col: 9, offset: 93531,
 																								},
 																							},
 																						},
@@ -36035,44 +36035,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1075, col: 5, offset: 33444},
+													pos:   position{line: 1075, col: 5, offset: 33446},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1075, col: 9, offset: 33448},
+														pos: position{line: 1075, col: 9, offset: 33450},
 														expr: &choiceExpr{
-															pos: position{line: 1082, col: 5, offset: 33640},
+															pos: position{line: 1082, col: 5, offset: 33642},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1082, col: 5, offset: 33640},
+																	pos: position{line: 1082, col: 5, offset: 33642},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1082, col: 5, offset: 33640},
+																			pos:   position{line: 1082, col: 5, offset: 33642},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 822, col: 5, offset: 26682},
+																				pos: position{line: 822, col: 5, offset: 26684},
 																				run: (*parser).callonListContinuationElement1178,
 																				expr: &seqExpr{
-																					pos: position{line: 822, col: 5, offset: 26682},
+																					pos: position{line: 822, col: 5, offset: 26684},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 822, col: 5, offset: 26682},
+																							pos:   position{line: 822, col: 5, offset: 26684},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 822, col: 16, offset: 26693},
+																								pos: position{line: 822, col: 16, offset: 26695},
 																								run: (*parser).callonListContinuationElement1181,
 																								expr: &seqExpr{
-																									pos: position{line: 822, col: 16, offset: 26693},
+																									pos: position{line: 822, col: 16, offset: 26695},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 822, col: 16, offset: 26693},
+																											pos:        position{line: 822, col: 16, offset: 26695},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 822, col: 23, offset: 26700},
+																											pos: position{line: 822, col: 23, offset: 26702},
 																											expr: &litMatcher{
-																												pos:        position{line: 822, col: 23, offset: 26700},
+																												pos:        position{line: 822, col: 23, offset: 26702},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -36083,12 +36083,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 824, col: 8, offset: 26784},
+																							pos: position{line: 824, col: 8, offset: 26786},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93180},
+																								pos: position{line: 2944, col: 10, offset: 93182},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93180},
+																									pos:        position{line: 2944, col: 10, offset: 93182},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36097,28 +36097,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36127,9 +36127,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -36139,15 +36139,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1083, col: 5, offset: 33669},
+																			pos: position{line: 1083, col: 5, offset: 33671},
 																			run: (*parser).callonListContinuationElement1197,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2963, col: 8, offset: 93528},
+																	pos: position{line: 2963, col: 8, offset: 93530},
 																	expr: &anyMatcher{
-																		line: 2963, col: 9, offset: 93529,
+																		line: 2963, col: 9, offset: 93531,
 																	},
 																},
 															},
@@ -36158,39 +36158,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1098, col: 5, offset: 33977},
+										pos: position{line: 1098, col: 5, offset: 33979},
 										run: (*parser).callonListContinuationElement1200,
 										expr: &seqExpr{
-											pos: position{line: 1098, col: 5, offset: 33977},
+											pos: position{line: 1098, col: 5, offset: 33979},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1098, col: 5, offset: 33977},
+													pos:   position{line: 1098, col: 5, offset: 33979},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 829, col: 5, offset: 26928},
+														pos: position{line: 829, col: 5, offset: 26930},
 														run: (*parser).callonListContinuationElement1203,
 														expr: &seqExpr{
-															pos: position{line: 829, col: 5, offset: 26928},
+															pos: position{line: 829, col: 5, offset: 26930},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 829, col: 5, offset: 26928},
+																	pos:   position{line: 829, col: 5, offset: 26930},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 829, col: 16, offset: 26939},
+																		pos: position{line: 829, col: 16, offset: 26941},
 																		run: (*parser).callonListContinuationElement1206,
 																		expr: &seqExpr{
-																			pos: position{line: 829, col: 16, offset: 26939},
+																			pos: position{line: 829, col: 16, offset: 26941},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 829, col: 16, offset: 26939},
+																					pos:        position{line: 829, col: 16, offset: 26941},
 																					val:        "****",
 																					ignoreCase: false,
 																					want:       "\"****\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 829, col: 23, offset: 26946},
+																					pos: position{line: 829, col: 23, offset: 26948},
 																					expr: &litMatcher{
-																						pos:        position{line: 829, col: 23, offset: 26946},
+																						pos:        position{line: 829, col: 23, offset: 26948},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -36201,12 +36201,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 831, col: 8, offset: 27030},
+																	pos: position{line: 831, col: 8, offset: 27032},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93180},
+																		pos: position{line: 2944, col: 10, offset: 93182},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93180},
+																			pos:        position{line: 2944, col: 10, offset: 93182},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36215,28 +36215,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93578},
+																	pos: position{line: 2966, col: 8, offset: 93580},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93351},
+																			pos: position{line: 2953, col: 12, offset: 93353},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93352},
+																				pos: position{line: 2953, col: 13, offset: 93354},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93352},
+																						pos:        position{line: 2953, col: 13, offset: 93354},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93359},
+																						pos:        position{line: 2953, col: 20, offset: 93361},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93368},
+																						pos:        position{line: 2953, col: 29, offset: 93370},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36245,9 +36245,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93528},
+																			pos: position{line: 2963, col: 8, offset: 93530},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93529,
+																				line: 2963, col: 9, offset: 93531,
 																			},
 																		},
 																	},
@@ -36257,56 +36257,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1099, col: 5, offset: 34016},
+													pos: position{line: 1099, col: 5, offset: 34018},
 													run: (*parser).callonListContinuationElement1222,
 												},
 												&labeledExpr{
-													pos:   position{line: 1102, col: 5, offset: 34108},
+													pos:   position{line: 1102, col: 5, offset: 34110},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1117, col: 4, offset: 34505},
+														pos: position{line: 1117, col: 4, offset: 34507},
 														expr: &actionExpr{
-															pos: position{line: 1117, col: 5, offset: 34506},
+															pos: position{line: 1117, col: 5, offset: 34508},
 															run: (*parser).callonListContinuationElement1225,
 															expr: &seqExpr{
-																pos: position{line: 1117, col: 5, offset: 34506},
+																pos: position{line: 1117, col: 5, offset: 34508},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1117, col: 5, offset: 34506},
+																		pos: position{line: 1117, col: 5, offset: 34508},
 																		expr: &choiceExpr{
-																			pos: position{line: 1110, col: 5, offset: 34348},
+																			pos: position{line: 1110, col: 5, offset: 34350},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1110, col: 5, offset: 34348},
+																					pos: position{line: 1110, col: 5, offset: 34350},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1110, col: 5, offset: 34348},
+																							pos:   position{line: 1110, col: 5, offset: 34350},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 829, col: 5, offset: 26928},
+																								pos: position{line: 829, col: 5, offset: 26930},
 																								run: (*parser).callonListContinuationElement1231,
 																								expr: &seqExpr{
-																									pos: position{line: 829, col: 5, offset: 26928},
+																									pos: position{line: 829, col: 5, offset: 26930},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 829, col: 5, offset: 26928},
+																											pos:   position{line: 829, col: 5, offset: 26930},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 829, col: 16, offset: 26939},
+																												pos: position{line: 829, col: 16, offset: 26941},
 																												run: (*parser).callonListContinuationElement1234,
 																												expr: &seqExpr{
-																													pos: position{line: 829, col: 16, offset: 26939},
+																													pos: position{line: 829, col: 16, offset: 26941},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 829, col: 16, offset: 26939},
+																															pos:        position{line: 829, col: 16, offset: 26941},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 829, col: 23, offset: 26946},
+																															pos: position{line: 829, col: 23, offset: 26948},
 																															expr: &litMatcher{
-																																pos:        position{line: 829, col: 23, offset: 26946},
+																																pos:        position{line: 829, col: 23, offset: 26948},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -36317,12 +36317,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 831, col: 8, offset: 27030},
+																											pos: position{line: 831, col: 8, offset: 27032},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93180},
+																												pos: position{line: 2944, col: 10, offset: 93182},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93180},
+																													pos:        position{line: 2944, col: 10, offset: 93182},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36331,28 +36331,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93578},
+																											pos: position{line: 2966, col: 8, offset: 93580},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93351},
+																													pos: position{line: 2953, col: 12, offset: 93353},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93352},
+																														pos: position{line: 2953, col: 13, offset: 93354},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93352},
+																																pos:        position{line: 2953, col: 13, offset: 93354},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93359},
+																																pos:        position{line: 2953, col: 20, offset: 93361},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93368},
+																																pos:        position{line: 2953, col: 29, offset: 93370},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36361,9 +36361,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93528},
+																													pos: position{line: 2963, col: 8, offset: 93530},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93529,
+																														line: 2963, col: 9, offset: 93531,
 																													},
 																												},
 																											},
@@ -36373,45 +36373,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1111, col: 5, offset: 34379},
+																							pos: position{line: 1111, col: 5, offset: 34381},
 																							run: (*parser).callonListContinuationElement1250,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1118, col: 5, offset: 34536},
+																		pos:   position{line: 1118, col: 5, offset: 34538},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 836, col: 5, offset: 27176},
+																			pos: position{line: 836, col: 5, offset: 27178},
 																			run: (*parser).callonListContinuationElement1254,
 																			expr: &seqExpr{
-																				pos: position{line: 836, col: 5, offset: 27176},
+																				pos: position{line: 836, col: 5, offset: 27178},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2961, col: 11, offset: 93514},
+																						pos: position{line: 2961, col: 11, offset: 93516},
 																						expr: &anyMatcher{
-																							line: 2961, col: 13, offset: 93516,
+																							line: 2961, col: 13, offset: 93518,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 837, col: 5, offset: 27251},
+																						pos:   position{line: 837, col: 5, offset: 27253},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 13, offset: 91706},
+																							pos: position{line: 2890, col: 13, offset: 91708},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2890, col: 13, offset: 91706},
+																								pos: position{line: 2890, col: 13, offset: 91708},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91706},
+																									pos:        position{line: 2890, col: 13, offset: 91708},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36421,28 +36421,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93578},
+																						pos: position{line: 2966, col: 8, offset: 93580},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93351},
+																								pos: position{line: 2953, col: 12, offset: 93353},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93352},
+																									pos: position{line: 2953, col: 13, offset: 93354},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93352},
+																											pos:        position{line: 2953, col: 13, offset: 93354},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93359},
+																											pos:        position{line: 2953, col: 20, offset: 93361},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93368},
+																											pos:        position{line: 2953, col: 29, offset: 93370},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36451,9 +36451,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93528},
+																								pos: position{line: 2963, col: 8, offset: 93530},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93529,
+																									line: 2963, col: 9, offset: 93531,
 																								},
 																							},
 																						},
@@ -36468,44 +36468,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1103, col: 5, offset: 34142},
+													pos:   position{line: 1103, col: 5, offset: 34144},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1103, col: 9, offset: 34146},
+														pos: position{line: 1103, col: 9, offset: 34148},
 														expr: &choiceExpr{
-															pos: position{line: 1110, col: 5, offset: 34348},
+															pos: position{line: 1110, col: 5, offset: 34350},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1110, col: 5, offset: 34348},
+																	pos: position{line: 1110, col: 5, offset: 34350},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1110, col: 5, offset: 34348},
+																			pos:   position{line: 1110, col: 5, offset: 34350},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 829, col: 5, offset: 26928},
+																				pos: position{line: 829, col: 5, offset: 26930},
 																				run: (*parser).callonListContinuationElement1275,
 																				expr: &seqExpr{
-																					pos: position{line: 829, col: 5, offset: 26928},
+																					pos: position{line: 829, col: 5, offset: 26930},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 829, col: 5, offset: 26928},
+																							pos:   position{line: 829, col: 5, offset: 26930},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 829, col: 16, offset: 26939},
+																								pos: position{line: 829, col: 16, offset: 26941},
 																								run: (*parser).callonListContinuationElement1278,
 																								expr: &seqExpr{
-																									pos: position{line: 829, col: 16, offset: 26939},
+																									pos: position{line: 829, col: 16, offset: 26941},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 829, col: 16, offset: 26939},
+																											pos:        position{line: 829, col: 16, offset: 26941},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 829, col: 23, offset: 26946},
+																											pos: position{line: 829, col: 23, offset: 26948},
 																											expr: &litMatcher{
-																												pos:        position{line: 829, col: 23, offset: 26946},
+																												pos:        position{line: 829, col: 23, offset: 26948},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -36516,12 +36516,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 831, col: 8, offset: 27030},
+																							pos: position{line: 831, col: 8, offset: 27032},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93180},
+																								pos: position{line: 2944, col: 10, offset: 93182},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93180},
+																									pos:        position{line: 2944, col: 10, offset: 93182},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36530,28 +36530,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93578},
+																							pos: position{line: 2966, col: 8, offset: 93580},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93351},
+																									pos: position{line: 2953, col: 12, offset: 93353},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93352},
+																										pos: position{line: 2953, col: 13, offset: 93354},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93352},
+																												pos:        position{line: 2953, col: 13, offset: 93354},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93359},
+																												pos:        position{line: 2953, col: 20, offset: 93361},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93368},
+																												pos:        position{line: 2953, col: 29, offset: 93370},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36560,9 +36560,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93528},
+																									pos: position{line: 2963, col: 8, offset: 93530},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93529,
+																										line: 2963, col: 9, offset: 93531,
 																									},
 																								},
 																							},
@@ -36572,15 +36572,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1111, col: 5, offset: 34379},
+																			pos: position{line: 1111, col: 5, offset: 34381},
 																			run: (*parser).callonListContinuationElement1294,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2963, col: 8, offset: 93528},
+																	pos: position{line: 2963, col: 8, offset: 93530},
 																	expr: &anyMatcher{
-																		line: 2963, col: 9, offset: 93529,
+																		line: 2963, col: 9, offset: 93531,
 																	},
 																},
 															},
@@ -36591,52 +36591,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2789, col: 18, offset: 88770},
+										pos: position{line: 2789, col: 18, offset: 88772},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2789, col: 18, offset: 88770},
+											pos: position{line: 2789, col: 18, offset: 88772},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2790, col: 9, offset: 88780},
+													pos: position{line: 2790, col: 9, offset: 88782},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2790, col: 9, offset: 88780},
+															pos:        position{line: 2790, col: 9, offset: 88782},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2791, col: 11, offset: 88816},
+															pos:        position{line: 2791, col: 11, offset: 88818},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2791, col: 19, offset: 88824},
+															pos:        position{line: 2791, col: 19, offset: 88826},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2791, col: 29, offset: 88834},
+															pos:        position{line: 2791, col: 29, offset: 88836},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2791, col: 37, offset: 88842},
+															pos:        position{line: 2791, col: 37, offset: 88844},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2791, col: 47, offset: 88852},
+															pos:        position{line: 2791, col: 47, offset: 88854},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2791, col: 55, offset: 88860},
+															pos:        position{line: 2791, col: 55, offset: 88862},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -36644,12 +36644,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2792, col: 11, offset: 88918},
+													pos: position{line: 2792, col: 11, offset: 88920},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93180},
+														pos: position{line: 2944, col: 10, offset: 93182},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93180},
+															pos:        position{line: 2944, col: 10, offset: 93182},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36658,28 +36658,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2966, col: 8, offset: 93578},
+													pos: position{line: 2966, col: 8, offset: 93580},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93351},
+															pos: position{line: 2953, col: 12, offset: 93353},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93352},
+																pos: position{line: 2953, col: 13, offset: 93354},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93352},
+																		pos:        position{line: 2953, col: 13, offset: 93354},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93359},
+																		pos:        position{line: 2953, col: 20, offset: 93361},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93368},
+																		pos:        position{line: 2953, col: 29, offset: 93370},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36688,36 +36688,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93528},
+															pos: position{line: 2963, col: 8, offset: 93530},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93529,
+																line: 2963, col: 9, offset: 93531,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2966, col: 8, offset: 93578},
+													pos: position{line: 2966, col: 8, offset: 93580},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93351},
+															pos: position{line: 2953, col: 12, offset: 93353},
 															run: (*parser).callonListContinuationElement1319,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93352},
+																pos: position{line: 2953, col: 13, offset: 93354},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93352},
+																		pos:        position{line: 2953, col: 13, offset: 93354},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93359},
+																		pos:        position{line: 2953, col: 20, offset: 93361},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93368},
+																		pos:        position{line: 2953, col: 29, offset: 93370},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36726,9 +36726,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93528},
+															pos: position{line: 2963, col: 8, offset: 93530},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93529,
+																line: 2963, col: 9, offset: 93531,
 															},
 														},
 													},
@@ -36737,28 +36737,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1579, col: 11, offset: 51315},
+										pos:  position{line: 1579, col: 11, offset: 51317},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2664, col: 5, offset: 85309},
+										pos: position{line: 2664, col: 5, offset: 85311},
 										run: (*parser).callonListContinuationElement1327,
 										expr: &seqExpr{
-											pos: position{line: 2664, col: 5, offset: 85309},
+											pos: position{line: 2664, col: 5, offset: 85311},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2670, col: 19, offset: 85486},
+													pos:        position{line: 2670, col: 19, offset: 85488},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2670, col: 26, offset: 85493},
+													pos: position{line: 2670, col: 26, offset: 85495},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93180},
+														pos: position{line: 2944, col: 10, offset: 93182},
 														run: (*parser).callonListContinuationElement1331,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93180},
+															pos:        position{line: 2944, col: 10, offset: 93182},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36767,28 +36767,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2966, col: 8, offset: 93578},
+													pos: position{line: 2966, col: 8, offset: 93580},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93351},
+															pos: position{line: 2953, col: 12, offset: 93353},
 															run: (*parser).callonListContinuationElement1334,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93352},
+																pos: position{line: 2953, col: 13, offset: 93354},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93352},
+																		pos:        position{line: 2953, col: 13, offset: 93354},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93359},
+																		pos:        position{line: 2953, col: 20, offset: 93361},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93368},
+																		pos:        position{line: 2953, col: 29, offset: 93370},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36797,40 +36797,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93528},
+															pos: position{line: 2963, col: 8, offset: 93530},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93529,
+																line: 2963, col: 9, offset: 93531,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2665, col: 5, offset: 85333},
+													pos:   position{line: 2665, col: 5, offset: 85335},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2665, col: 11, offset: 85339},
+														pos: position{line: 2665, col: 11, offset: 85341},
 														expr: &choiceExpr{
-															pos: position{line: 2665, col: 12, offset: 85340},
+															pos: position{line: 2665, col: 12, offset: 85342},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 702, col: 14, offset: 22577},
+																	pos: position{line: 702, col: 14, offset: 22579},
 																	run: (*parser).callonListContinuationElement1344,
 																	expr: &seqExpr{
-																		pos: position{line: 702, col: 14, offset: 22577},
+																		pos: position{line: 702, col: 14, offset: 22579},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2961, col: 11, offset: 93514},
+																				pos: position{line: 2961, col: 11, offset: 93516},
 																				expr: &anyMatcher{
-																					line: 2961, col: 13, offset: 93516,
+																					line: 2961, col: 13, offset: 93518,
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 702, col: 21, offset: 22584},
+																				pos: position{line: 702, col: 21, offset: 22586},
 																				expr: &actionExpr{
-																					pos: position{line: 2944, col: 10, offset: 93180},
+																					pos: position{line: 2944, col: 10, offset: 93182},
 																					run: (*parser).callonListContinuationElement1349,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2944, col: 10, offset: 93180},
+																						pos:        position{line: 2944, col: 10, offset: 93182},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36839,28 +36839,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2966, col: 8, offset: 93578},
+																				pos: position{line: 2966, col: 8, offset: 93580},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2953, col: 12, offset: 93351},
+																						pos: position{line: 2953, col: 12, offset: 93353},
 																						run: (*parser).callonListContinuationElement1352,
 																						expr: &choiceExpr{
-																							pos: position{line: 2953, col: 13, offset: 93352},
+																							pos: position{line: 2953, col: 13, offset: 93354},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 13, offset: 93352},
+																									pos:        position{line: 2953, col: 13, offset: 93354},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 20, offset: 93359},
+																									pos:        position{line: 2953, col: 20, offset: 93361},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 29, offset: 93368},
+																									pos:        position{line: 2953, col: 29, offset: 93370},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36869,9 +36869,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93528},
+																						pos: position{line: 2963, col: 8, offset: 93530},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93529,
+																							line: 2963, col: 9, offset: 93531,
 																						},
 																					},
 																				},
@@ -36880,36 +36880,36 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2538, col: 22, offset: 81740},
+																	pos: position{line: 2538, col: 22, offset: 81742},
 																	run: (*parser).callonListContinuationElement1359,
 																	expr: &seqExpr{
-																		pos: position{line: 2538, col: 22, offset: 81740},
+																		pos: position{line: 2538, col: 22, offset: 81742},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2543, col: 31, offset: 81990},
+																				pos:        position{line: 2543, col: 31, offset: 81992},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2543, col: 36, offset: 81995},
+																				pos: position{line: 2543, col: 36, offset: 81997},
 																				expr: &litMatcher{
-																					pos:        position{line: 2543, col: 37, offset: 81996},
+																					pos:        position{line: 2543, col: 37, offset: 81998},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2538, col: 49, offset: 81767},
+																				pos:   position{line: 2538, col: 49, offset: 81769},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2890, col: 13, offset: 91706},
+																					pos: position{line: 2890, col: 13, offset: 91708},
 																					run: (*parser).callonListContinuationElement1365,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2890, col: 13, offset: 91706},
+																						pos: position{line: 2890, col: 13, offset: 91708},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2890, col: 13, offset: 91706},
+																							pos:        position{line: 2890, col: 13, offset: 91708},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -36919,28 +36919,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2966, col: 8, offset: 93578},
+																				pos: position{line: 2966, col: 8, offset: 93580},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2953, col: 12, offset: 93351},
+																						pos: position{line: 2953, col: 12, offset: 93353},
 																						run: (*parser).callonListContinuationElement1369,
 																						expr: &choiceExpr{
-																							pos: position{line: 2953, col: 13, offset: 93352},
+																							pos: position{line: 2953, col: 13, offset: 93354},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 13, offset: 93352},
+																									pos:        position{line: 2953, col: 13, offset: 93354},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 20, offset: 93359},
+																									pos:        position{line: 2953, col: 20, offset: 93361},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 29, offset: 93368},
+																									pos:        position{line: 2953, col: 29, offset: 93370},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36949,9 +36949,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93528},
+																						pos: position{line: 2963, col: 8, offset: 93530},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93529,
+																							line: 2963, col: 9, offset: 93531,
 																						},
 																					},
 																				},
@@ -36960,32 +36960,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2677, col: 5, offset: 85605},
+																	pos: position{line: 2677, col: 5, offset: 85607},
 																	run: (*parser).callonListContinuationElement1376,
 																	expr: &seqExpr{
-																		pos: position{line: 2677, col: 5, offset: 85605},
+																		pos: position{line: 2677, col: 5, offset: 85607},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2677, col: 5, offset: 85605},
+																				pos: position{line: 2677, col: 5, offset: 85607},
 																				expr: &choiceExpr{
-																					pos: position{line: 2674, col: 22, offset: 85566},
+																					pos: position{line: 2674, col: 22, offset: 85568},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2670, col: 19, offset: 85486},
+																							pos: position{line: 2670, col: 19, offset: 85488},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2670, col: 19, offset: 85486},
+																									pos:        position{line: 2670, col: 19, offset: 85488},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2670, col: 26, offset: 85493},
+																									pos: position{line: 2670, col: 26, offset: 85495},
 																									expr: &actionExpr{
-																										pos: position{line: 2944, col: 10, offset: 93180},
+																										pos: position{line: 2944, col: 10, offset: 93182},
 																										run: (*parser).callonListContinuationElement1383,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2944, col: 10, offset: 93180},
+																											pos:        position{line: 2944, col: 10, offset: 93182},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36994,28 +36994,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2966, col: 8, offset: 93578},
+																									pos: position{line: 2966, col: 8, offset: 93580},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2953, col: 12, offset: 93351},
+																											pos: position{line: 2953, col: 12, offset: 93353},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &choiceExpr{
-																												pos: position{line: 2953, col: 13, offset: 93352},
+																												pos: position{line: 2953, col: 13, offset: 93354},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 13, offset: 93352},
+																														pos:        position{line: 2953, col: 13, offset: 93354},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 20, offset: 93359},
+																														pos:        position{line: 2953, col: 20, offset: 93361},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 29, offset: 93368},
+																														pos:        position{line: 2953, col: 29, offset: 93370},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -37024,9 +37024,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2963, col: 8, offset: 93528},
+																											pos: position{line: 2963, col: 8, offset: 93530},
 																											expr: &anyMatcher{
-																												line: 2963, col: 9, offset: 93529,
+																												line: 2963, col: 9, offset: 93531,
 																											},
 																										},
 																									},
@@ -37034,59 +37034,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93528},
+																							pos: position{line: 2963, col: 8, offset: 93530},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93529,
+																								line: 2963, col: 9, offset: 93531,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2678, col: 5, offset: 85628},
+																				pos:   position{line: 2678, col: 5, offset: 85630},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2679, col: 9, offset: 85646},
+																					pos: position{line: 2679, col: 9, offset: 85648},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2679, col: 10, offset: 85647},
+																							pos: position{line: 2679, col: 10, offset: 85649},
 																							run: (*parser).callonListContinuationElement1397,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2679, col: 10, offset: 85647},
+																								pos:   position{line: 2679, col: 10, offset: 85649},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2679, col: 17, offset: 85654},
+																									pos: position{line: 2679, col: 17, offset: 85656},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2687, col: 21, offset: 85850},
+																											pos: position{line: 2687, col: 21, offset: 85852},
 																											run: (*parser).callonListContinuationElement1400,
 																											expr: &seqExpr{
-																												pos: position{line: 2687, col: 21, offset: 85850},
+																												pos: position{line: 2687, col: 21, offset: 85852},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2687, col: 21, offset: 85850},
+																														pos:   position{line: 2687, col: 21, offset: 85852},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2687, col: 27, offset: 85856},
+																															pos: position{line: 2687, col: 27, offset: 85858},
 																															expr: &actionExpr{
-																																pos: position{line: 2692, col: 5, offset: 85931},
+																																pos: position{line: 2692, col: 5, offset: 85933},
 																																run: (*parser).callonListContinuationElement1404,
 																																expr: &seqExpr{
-																																	pos: position{line: 2692, col: 5, offset: 85931},
+																																	pos: position{line: 2692, col: 5, offset: 85933},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2692, col: 5, offset: 85931},
+																																			pos:        position{line: 2692, col: 5, offset: 85933},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2692, col: 9, offset: 85935},
+																																			pos: position{line: 2692, col: 9, offset: 85937},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2944, col: 10, offset: 93180},
+																																				pos: position{line: 2944, col: 10, offset: 93182},
 																																				run: (*parser).callonListContinuationElement1408,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2944, col: 10, offset: 93180},
+																																					pos:        position{line: 2944, col: 10, offset: 93182},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -37095,21 +37095,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2692, col: 16, offset: 85942},
+																																			pos:   position{line: 2692, col: 16, offset: 85944},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2698, col: 5, offset: 86142},
+																																				pos: position{line: 2698, col: 5, offset: 86144},
 																																				run: (*parser).callonListContinuationElement1411,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2698, col: 5, offset: 86142},
+																																					pos:   position{line: 2698, col: 5, offset: 86144},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2698, col: 14, offset: 86151},
+																																						pos: position{line: 2698, col: 14, offset: 86153},
 																																						run: (*parser).callonListContinuationElement1413,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2698, col: 14, offset: 86151},
+																																							pos: position{line: 2698, col: 14, offset: 86153},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2698, col: 14, offset: 86151},
+																																								pos:        position{line: 2698, col: 14, offset: 86153},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -37126,28 +37126,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2966, col: 8, offset: 93578},
+																														pos: position{line: 2966, col: 8, offset: 93580},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2953, col: 12, offset: 93351},
+																																pos: position{line: 2953, col: 12, offset: 93353},
 																																run: (*parser).callonListContinuationElement1417,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2953, col: 13, offset: 93352},
+																																	pos: position{line: 2953, col: 13, offset: 93354},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2953, col: 13, offset: 93352},
+																																			pos:        position{line: 2953, col: 13, offset: 93354},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2953, col: 20, offset: 93359},
+																																			pos:        position{line: 2953, col: 20, offset: 93361},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2953, col: 29, offset: 93368},
+																																			pos:        position{line: 2953, col: 29, offset: 93370},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -37156,9 +37156,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2963, col: 8, offset: 93528},
+																																pos: position{line: 2963, col: 8, offset: 93530},
 																																expr: &anyMatcher{
-																																	line: 2963, col: 9, offset: 93529,
+																																	line: 2963, col: 9, offset: 93531,
 																																},
 																															},
 																														},
@@ -37167,40 +37167,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2704, col: 24, offset: 86287},
+																											pos: position{line: 2704, col: 24, offset: 86289},
 																											run: (*parser).callonListContinuationElement1424,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2704, col: 24, offset: 86287},
+																												pos:   position{line: 2704, col: 24, offset: 86289},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2704, col: 30, offset: 86293},
+																													pos: position{line: 2704, col: 30, offset: 86295},
 																													expr: &actionExpr{
-																														pos: position{line: 2709, col: 5, offset: 86369},
+																														pos: position{line: 2709, col: 5, offset: 86371},
 																														run: (*parser).callonListContinuationElement1427,
 																														expr: &seqExpr{
-																															pos: position{line: 2709, col: 5, offset: 86369},
+																															pos: position{line: 2709, col: 5, offset: 86371},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2709, col: 5, offset: 86369},
+																																	pos: position{line: 2709, col: 5, offset: 86371},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2674, col: 22, offset: 85566},
+																																		pos: position{line: 2674, col: 22, offset: 85568},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2670, col: 19, offset: 85486},
+																																				pos: position{line: 2670, col: 19, offset: 85488},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2670, col: 19, offset: 85486},
+																																						pos:        position{line: 2670, col: 19, offset: 85488},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2670, col: 26, offset: 85493},
+																																						pos: position{line: 2670, col: 26, offset: 85495},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2944, col: 10, offset: 93180},
+																																							pos: position{line: 2944, col: 10, offset: 93182},
 																																							run: (*parser).callonListContinuationElement1434,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2944, col: 10, offset: 93180},
+																																								pos:        position{line: 2944, col: 10, offset: 93182},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -37209,28 +37209,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2966, col: 8, offset: 93578},
+																																						pos: position{line: 2966, col: 8, offset: 93580},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2953, col: 12, offset: 93351},
+																																								pos: position{line: 2953, col: 12, offset: 93353},
 																																								run: (*parser).callonListContinuationElement1437,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2953, col: 13, offset: 93352},
+																																									pos: position{line: 2953, col: 13, offset: 93354},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2953, col: 13, offset: 93352},
+																																											pos:        position{line: 2953, col: 13, offset: 93354},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2953, col: 20, offset: 93359},
+																																											pos:        position{line: 2953, col: 20, offset: 93361},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2953, col: 29, offset: 93368},
+																																											pos:        position{line: 2953, col: 29, offset: 93370},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -37239,9 +37239,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2963, col: 8, offset: 93528},
+																																								pos: position{line: 2963, col: 8, offset: 93530},
 																																								expr: &anyMatcher{
-																																									line: 2963, col: 9, offset: 93529,
+																																									line: 2963, col: 9, offset: 93531,
 																																								},
 																																							},
 																																						},
@@ -37249,35 +37249,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2963, col: 8, offset: 93528},
+																																				pos: position{line: 2963, col: 8, offset: 93530},
 																																				expr: &anyMatcher{
-																																					line: 2963, col: 9, offset: 93529,
+																																					line: 2963, col: 9, offset: 93531,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2710, col: 5, offset: 86392},
+																																	pos: position{line: 2710, col: 5, offset: 86394},
 																																	expr: &actionExpr{
-																																		pos: position{line: 702, col: 14, offset: 22577},
+																																		pos: position{line: 702, col: 14, offset: 22579},
 																																		run: (*parser).callonListContinuationElement1447,
 																																		expr: &seqExpr{
-																																			pos: position{line: 702, col: 14, offset: 22577},
+																																			pos: position{line: 702, col: 14, offset: 22579},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2961, col: 11, offset: 93514},
+																																					pos: position{line: 2961, col: 11, offset: 93516},
 																																					expr: &anyMatcher{
-																																						line: 2961, col: 13, offset: 93516,
+																																						line: 2961, col: 13, offset: 93518,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 702, col: 21, offset: 22584},
+																																					pos: position{line: 702, col: 21, offset: 22586},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2944, col: 10, offset: 93180},
+																																						pos: position{line: 2944, col: 10, offset: 93182},
 																																						run: (*parser).callonListContinuationElement1452,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2944, col: 10, offset: 93180},
+																																							pos:        position{line: 2944, col: 10, offset: 93182},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -37286,28 +37286,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2966, col: 8, offset: 93578},
+																																					pos: position{line: 2966, col: 8, offset: 93580},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2953, col: 12, offset: 93351},
+																																							pos: position{line: 2953, col: 12, offset: 93353},
 																																							run: (*parser).callonListContinuationElement1455,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2953, col: 13, offset: 93352},
+																																								pos: position{line: 2953, col: 13, offset: 93354},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2953, col: 13, offset: 93352},
+																																										pos:        position{line: 2953, col: 13, offset: 93354},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2953, col: 20, offset: 93359},
+																																										pos:        position{line: 2953, col: 20, offset: 93361},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2953, col: 29, offset: 93368},
+																																										pos:        position{line: 2953, col: 29, offset: 93370},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -37316,9 +37316,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2963, col: 8, offset: 93528},
+																																							pos: position{line: 2963, col: 8, offset: 93530},
 																																							expr: &anyMatcher{
-																																								line: 2963, col: 9, offset: 93529,
+																																								line: 2963, col: 9, offset: 93531,
 																																							},
 																																						},
 																																					},
@@ -37328,48 +37328,48 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2711, col: 5, offset: 86407},
+																																	pos:   position{line: 2711, col: 5, offset: 86409},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2711, col: 12, offset: 86414},
+																																		pos: position{line: 2711, col: 12, offset: 86416},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2736, col: 5, offset: 87042},
+																																			pos: position{line: 2736, col: 5, offset: 87044},
 																																			run: (*parser).callonListContinuationElement1464,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2736, col: 5, offset: 87042},
+																																				pos: position{line: 2736, col: 5, offset: 87044},
 																																				exprs: []interface{}{
 																																					&actionExpr{
-																																						pos: position{line: 2736, col: 6, offset: 87043},
+																																						pos: position{line: 2736, col: 6, offset: 87045},
 																																						run: (*parser).callonListContinuationElement1466,
 																																						expr: &litMatcher{
-																																							pos:        position{line: 2736, col: 6, offset: 87043},
+																																							pos:        position{line: 2736, col: 6, offset: 87045},
 																																							val:        "",
 																																							ignoreCase: false,
 																																							want:       "\"\"",
 																																						},
 																																					},
 																																					&andCodeExpr{
-																																						pos: position{line: 2739, col: 5, offset: 87114},
+																																						pos: position{line: 2739, col: 5, offset: 87116},
 																																						run: (*parser).callonListContinuationElement1468,
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2742, col: 5, offset: 87171},
+																																						pos:   position{line: 2742, col: 5, offset: 87173},
 																																						label: "format",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2742, col: 13, offset: 87179},
+																																							pos: position{line: 2742, col: 13, offset: 87181},
 																																							run: (*parser).callonListContinuationElement1470,
 																																							expr: &seqExpr{
-																																								pos: position{line: 2742, col: 13, offset: 87179},
+																																								pos: position{line: 2742, col: 13, offset: 87181},
 																																								exprs: []interface{}{
 																																									&zeroOrOneExpr{
-																																										pos: position{line: 2742, col: 13, offset: 87179},
+																																										pos: position{line: 2742, col: 13, offset: 87181},
 																																										expr: &seqExpr{
-																																											pos: position{line: 2742, col: 14, offset: 87180},
+																																											pos: position{line: 2742, col: 14, offset: 87182},
 																																											exprs: []interface{}{
 																																												&oneOrMoreExpr{
-																																													pos: position{line: 2742, col: 14, offset: 87180},
+																																													pos: position{line: 2742, col: 14, offset: 87182},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2742, col: 14, offset: 87180},
+																																														pos:        position{line: 2742, col: 14, offset: 87182},
 																																														val:        "[.0-9]",
 																																														chars:      []rune{'.'},
 																																														ranges:     []rune{'0', '9'},
@@ -37378,7 +37378,7 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&charClassMatcher{
-																																													pos:        position{line: 2742, col: 22, offset: 87188},
+																																													pos:        position{line: 2742, col: 22, offset: 87190},
 																																													val:        "[*+]",
 																																													chars:      []rune{'*', '+'},
 																																													ignoreCase: false,
@@ -37388,9 +37388,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&zeroOrOneExpr{
-																																										pos: position{line: 2742, col: 29, offset: 87195},
+																																										pos: position{line: 2742, col: 29, offset: 87197},
 																																										expr: &charClassMatcher{
-																																											pos:        position{line: 2742, col: 29, offset: 87195},
+																																											pos:        position{line: 2742, col: 29, offset: 87197},
 																																											val:        "[<>^]",
 																																											chars:      []rune{'<', '>', '^'},
 																																											ignoreCase: false,
@@ -37398,18 +37398,18 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&zeroOrOneExpr{
-																																										pos: position{line: 2742, col: 36, offset: 87202},
+																																										pos: position{line: 2742, col: 36, offset: 87204},
 																																										expr: &seqExpr{
-																																											pos: position{line: 2742, col: 37, offset: 87203},
+																																											pos: position{line: 2742, col: 37, offset: 87205},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2742, col: 37, offset: 87203},
+																																													pos:        position{line: 2742, col: 37, offset: 87205},
 																																													val:        ".",
 																																													ignoreCase: false,
 																																													want:       "\".\"",
 																																												},
 																																												&charClassMatcher{
-																																													pos:        position{line: 2742, col: 41, offset: 87207},
+																																													pos:        position{line: 2742, col: 41, offset: 87209},
 																																													val:        "[<>^]",
 																																													chars:      []rune{'<', '>', '^'},
 																																													ignoreCase: false,
@@ -37419,9 +37419,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&zeroOrOneExpr{
-																																										pos: position{line: 2742, col: 49, offset: 87215},
+																																										pos: position{line: 2742, col: 49, offset: 87217},
 																																										expr: &charClassMatcher{
-																																											pos:        position{line: 2742, col: 49, offset: 87215},
+																																											pos:        position{line: 2742, col: 49, offset: 87217},
 																																											val:        "[a-z]",
 																																											ranges:     []rune{'a', 'z'},
 																																											ignoreCase: false,
@@ -37438,18 +37438,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2711, col: 31, offset: 86433},
+																																	pos:        position{line: 2711, col: 31, offset: 86435},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2711, col: 35, offset: 86437},
+																																	pos: position{line: 2711, col: 35, offset: 86439},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2944, col: 10, offset: 93180},
+																																		pos: position{line: 2944, col: 10, offset: 93182},
 																																		run: (*parser).callonListContinuationElement1487,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2944, col: 10, offset: 93180},
+																																			pos:        position{line: 2944, col: 10, offset: 93182},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -37458,27 +37458,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2711, col: 42, offset: 86444},
+																																	pos: position{line: 2711, col: 42, offset: 86446},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2953, col: 12, offset: 93351},
+																																		pos: position{line: 2953, col: 12, offset: 93353},
 																																		run: (*parser).callonListContinuationElement1490,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2953, col: 13, offset: 93352},
+																																			pos: position{line: 2953, col: 13, offset: 93354},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2953, col: 13, offset: 93352},
+																																					pos:        position{line: 2953, col: 13, offset: 93354},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2953, col: 20, offset: 93359},
+																																					pos:        position{line: 2953, col: 20, offset: 93361},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2953, col: 29, offset: 93368},
+																																					pos:        position{line: 2953, col: 29, offset: 93370},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -37488,57 +37488,57 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2711, col: 51, offset: 86453},
+																																	pos:   position{line: 2711, col: 51, offset: 86455},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2717, col: 5, offset: 86612},
+																																		pos: position{line: 2717, col: 5, offset: 86614},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2718, col: 9, offset: 86622},
+																																			pos: position{line: 2718, col: 9, offset: 86624},
 																																			alternatives: []interface{}{
 																																				&actionExpr{
-																																					pos: position{line: 2718, col: 9, offset: 86622},
+																																					pos: position{line: 2718, col: 9, offset: 86624},
 																																					run: (*parser).callonListContinuationElement1498,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2718, col: 9, offset: 86622},
+																																						pos: position{line: 2718, col: 9, offset: 86624},
 																																						exprs: []interface{}{
 																																							&andCodeExpr{
-																																								pos: position{line: 2718, col: 9, offset: 86622},
+																																								pos: position{line: 2718, col: 9, offset: 86624},
 																																								run: (*parser).callonListContinuationElement1500,
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2721, col: 9, offset: 86691},
+																																								pos:   position{line: 2721, col: 9, offset: 86693},
 																																								label: "comment",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2538, col: 22, offset: 81740},
+																																									pos: position{line: 2538, col: 22, offset: 81742},
 																																									run: (*parser).callonListContinuationElement1502,
 																																									expr: &seqExpr{
-																																										pos: position{line: 2538, col: 22, offset: 81740},
+																																										pos: position{line: 2538, col: 22, offset: 81742},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2543, col: 31, offset: 81990},
+																																												pos:        position{line: 2543, col: 31, offset: 81992},
 																																												val:        "//",
 																																												ignoreCase: false,
 																																												want:       "\"//\"",
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2543, col: 36, offset: 81995},
+																																												pos: position{line: 2543, col: 36, offset: 81997},
 																																												expr: &litMatcher{
-																																													pos:        position{line: 2543, col: 37, offset: 81996},
+																																													pos:        position{line: 2543, col: 37, offset: 81998},
 																																													val:        "/",
 																																													ignoreCase: false,
 																																													want:       "\"/\"",
 																																												},
 																																											},
 																																											&labeledExpr{
-																																												pos:   position{line: 2538, col: 49, offset: 81767},
+																																												pos:   position{line: 2538, col: 49, offset: 81769},
 																																												label: "content",
 																																												expr: &actionExpr{
-																																													pos: position{line: 2890, col: 13, offset: 91706},
+																																													pos: position{line: 2890, col: 13, offset: 91708},
 																																													run: (*parser).callonListContinuationElement1508,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2890, col: 13, offset: 91706},
+																																														pos: position{line: 2890, col: 13, offset: 91708},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2890, col: 13, offset: 91706},
+																																															pos:        position{line: 2890, col: 13, offset: 91708},
 																																															val:        "[^\\r\\n]",
 																																															chars:      []rune{'\r', '\n'},
 																																															ignoreCase: false,
@@ -37548,28 +37548,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2966, col: 8, offset: 93578},
+																																												pos: position{line: 2966, col: 8, offset: 93580},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2953, col: 12, offset: 93351},
+																																														pos: position{line: 2953, col: 12, offset: 93353},
 																																														run: (*parser).callonListContinuationElement1512,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2953, col: 13, offset: 93352},
+																																															pos: position{line: 2953, col: 13, offset: 93354},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2953, col: 13, offset: 93352},
+																																																	pos:        position{line: 2953, col: 13, offset: 93354},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2953, col: 20, offset: 93359},
+																																																	pos:        position{line: 2953, col: 20, offset: 93361},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2953, col: 29, offset: 93368},
+																																																	pos:        position{line: 2953, col: 29, offset: 93370},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -37578,9 +37578,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2963, col: 8, offset: 93528},
+																																														pos: position{line: 2963, col: 8, offset: 93530},
 																																														expr: &anyMatcher{
-																																															line: 2963, col: 9, offset: 93529,
+																																															line: 2963, col: 9, offset: 93531,
 																																														},
 																																													},
 																																												},
@@ -37593,32 +37593,32 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&actionExpr{
-																																					pos: position{line: 2725, col: 9, offset: 86781},
+																																					pos: position{line: 2725, col: 9, offset: 86783},
 																																					run: (*parser).callonListContinuationElement1519,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2725, col: 9, offset: 86781},
+																																						pos: position{line: 2725, col: 9, offset: 86783},
 																																						exprs: []interface{}{
 																																							&notExpr{
-																																								pos: position{line: 2725, col: 9, offset: 86781},
+																																								pos: position{line: 2725, col: 9, offset: 86783},
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2674, col: 22, offset: 85566},
+																																									pos: position{line: 2674, col: 22, offset: 85568},
 																																									alternatives: []interface{}{
 																																										&seqExpr{
-																																											pos: position{line: 2670, col: 19, offset: 85486},
+																																											pos: position{line: 2670, col: 19, offset: 85488},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2670, col: 19, offset: 85486},
+																																													pos:        position{line: 2670, col: 19, offset: 85488},
 																																													val:        "|===",
 																																													ignoreCase: false,
 																																													want:       "\"|===\"",
 																																												},
 																																												&zeroOrMoreExpr{
-																																													pos: position{line: 2670, col: 26, offset: 85493},
+																																													pos: position{line: 2670, col: 26, offset: 85495},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2944, col: 10, offset: 93180},
+																																														pos: position{line: 2944, col: 10, offset: 93182},
 																																														run: (*parser).callonListContinuationElement1526,
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2944, col: 10, offset: 93180},
+																																															pos:        position{line: 2944, col: 10, offset: 93182},
 																																															val:        "[\\t ]",
 																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
@@ -37627,28 +37627,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2966, col: 8, offset: 93578},
+																																													pos: position{line: 2966, col: 8, offset: 93580},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2953, col: 12, offset: 93351},
+																																															pos: position{line: 2953, col: 12, offset: 93353},
 																																															run: (*parser).callonListContinuationElement1529,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2953, col: 13, offset: 93352},
+																																																pos: position{line: 2953, col: 13, offset: 93354},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2953, col: 13, offset: 93352},
+																																																		pos:        position{line: 2953, col: 13, offset: 93354},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2953, col: 20, offset: 93359},
+																																																		pos:        position{line: 2953, col: 20, offset: 93361},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2953, col: 29, offset: 93368},
+																																																		pos:        position{line: 2953, col: 29, offset: 93370},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -37657,9 +37657,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2963, col: 8, offset: 93528},
+																																															pos: position{line: 2963, col: 8, offset: 93530},
 																																															expr: &anyMatcher{
-																																																line: 2963, col: 9, offset: 93529,
+																																																line: 2963, col: 9, offset: 93531,
 																																															},
 																																														},
 																																													},
@@ -37667,35 +37667,35 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2963, col: 8, offset: 93528},
+																																											pos: position{line: 2963, col: 8, offset: 93530},
 																																											expr: &anyMatcher{
-																																												line: 2963, col: 9, offset: 93529,
+																																												line: 2963, col: 9, offset: 93531,
 																																											},
 																																										},
 																																									},
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2726, col: 9, offset: 86808},
+																																								pos: position{line: 2726, col: 9, offset: 86810},
 																																								expr: &actionExpr{
-																																									pos: position{line: 702, col: 14, offset: 22577},
+																																									pos: position{line: 702, col: 14, offset: 22579},
 																																									run: (*parser).callonListContinuationElement1539,
 																																									expr: &seqExpr{
-																																										pos: position{line: 702, col: 14, offset: 22577},
+																																										pos: position{line: 702, col: 14, offset: 22579},
 																																										exprs: []interface{}{
 																																											&andExpr{
-																																												pos: position{line: 2961, col: 11, offset: 93514},
+																																												pos: position{line: 2961, col: 11, offset: 93516},
 																																												expr: &anyMatcher{
-																																													line: 2961, col: 13, offset: 93516,
+																																													line: 2961, col: 13, offset: 93518,
 																																												},
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 702, col: 21, offset: 22584},
+																																												pos: position{line: 702, col: 21, offset: 22586},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2944, col: 10, offset: 93180},
+																																													pos: position{line: 2944, col: 10, offset: 93182},
 																																													run: (*parser).callonListContinuationElement1544,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2944, col: 10, offset: 93180},
+																																														pos:        position{line: 2944, col: 10, offset: 93182},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -37704,28 +37704,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2966, col: 8, offset: 93578},
+																																												pos: position{line: 2966, col: 8, offset: 93580},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2953, col: 12, offset: 93351},
+																																														pos: position{line: 2953, col: 12, offset: 93353},
 																																														run: (*parser).callonListContinuationElement1547,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2953, col: 13, offset: 93352},
+																																															pos: position{line: 2953, col: 13, offset: 93354},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2953, col: 13, offset: 93352},
+																																																	pos:        position{line: 2953, col: 13, offset: 93354},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2953, col: 20, offset: 93359},
+																																																	pos:        position{line: 2953, col: 20, offset: 93361},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2953, col: 29, offset: 93368},
+																																																	pos:        position{line: 2953, col: 29, offset: 93370},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -37734,9 +37734,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2963, col: 8, offset: 93528},
+																																														pos: position{line: 2963, col: 8, offset: 93530},
 																																														expr: &anyMatcher{
-																																															line: 2963, col: 9, offset: 93529,
+																																															line: 2963, col: 9, offset: 93531,
 																																														},
 																																													},
 																																												},
@@ -37746,53 +37746,53 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2727, col: 9, offset: 86827},
+																																								pos: position{line: 2727, col: 9, offset: 86829},
 																																								expr: &seqExpr{
-																																									pos: position{line: 2727, col: 11, offset: 86829},
+																																									pos: position{line: 2727, col: 11, offset: 86831},
 																																									exprs: []interface{}{
 																																										&labeledExpr{
-																																											pos:   position{line: 2727, col: 11, offset: 86829},
+																																											pos:   position{line: 2727, col: 11, offset: 86831},
 																																											label: "format",
 																																											expr: &zeroOrOneExpr{
-																																												pos: position{line: 2727, col: 18, offset: 86836},
+																																												pos: position{line: 2727, col: 18, offset: 86838},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2736, col: 5, offset: 87042},
+																																													pos: position{line: 2736, col: 5, offset: 87044},
 																																													run: (*parser).callonListContinuationElement1558,
 																																													expr: &seqExpr{
-																																														pos: position{line: 2736, col: 5, offset: 87042},
+																																														pos: position{line: 2736, col: 5, offset: 87044},
 																																														exprs: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2736, col: 6, offset: 87043},
+																																																pos: position{line: 2736, col: 6, offset: 87045},
 																																																run: (*parser).callonListContinuationElement1560,
 																																																expr: &litMatcher{
-																																																	pos:        position{line: 2736, col: 6, offset: 87043},
+																																																	pos:        position{line: 2736, col: 6, offset: 87045},
 																																																	val:        "",
 																																																	ignoreCase: false,
 																																																	want:       "\"\"",
 																																																},
 																																															},
 																																															&andCodeExpr{
-																																																pos: position{line: 2739, col: 5, offset: 87114},
+																																																pos: position{line: 2739, col: 5, offset: 87116},
 																																																run: (*parser).callonListContinuationElement1562,
 																																															},
 																																															&labeledExpr{
-																																																pos:   position{line: 2742, col: 5, offset: 87171},
+																																																pos:   position{line: 2742, col: 5, offset: 87173},
 																																																label: "format",
 																																																expr: &actionExpr{
-																																																	pos: position{line: 2742, col: 13, offset: 87179},
+																																																	pos: position{line: 2742, col: 13, offset: 87181},
 																																																	run: (*parser).callonListContinuationElement1564,
 																																																	expr: &seqExpr{
-																																																		pos: position{line: 2742, col: 13, offset: 87179},
+																																																		pos: position{line: 2742, col: 13, offset: 87181},
 																																																		exprs: []interface{}{
 																																																			&zeroOrOneExpr{
-																																																				pos: position{line: 2742, col: 13, offset: 87179},
+																																																				pos: position{line: 2742, col: 13, offset: 87181},
 																																																				expr: &seqExpr{
-																																																					pos: position{line: 2742, col: 14, offset: 87180},
+																																																					pos: position{line: 2742, col: 14, offset: 87182},
 																																																					exprs: []interface{}{
 																																																						&oneOrMoreExpr{
-																																																							pos: position{line: 2742, col: 14, offset: 87180},
+																																																							pos: position{line: 2742, col: 14, offset: 87182},
 																																																							expr: &charClassMatcher{
-																																																								pos:        position{line: 2742, col: 14, offset: 87180},
+																																																								pos:        position{line: 2742, col: 14, offset: 87182},
 																																																								val:        "[.0-9]",
 																																																								chars:      []rune{'.'},
 																																																								ranges:     []rune{'0', '9'},
@@ -37801,7 +37801,7 @@ var g = &grammar{
 																																																							},
 																																																						},
 																																																						&charClassMatcher{
-																																																							pos:        position{line: 2742, col: 22, offset: 87188},
+																																																							pos:        position{line: 2742, col: 22, offset: 87190},
 																																																							val:        "[*+]",
 																																																							chars:      []rune{'*', '+'},
 																																																							ignoreCase: false,
@@ -37811,9 +37811,9 @@ var g = &grammar{
 																																																				},
 																																																			},
 																																																			&zeroOrOneExpr{
-																																																				pos: position{line: 2742, col: 29, offset: 87195},
+																																																				pos: position{line: 2742, col: 29, offset: 87197},
 																																																				expr: &charClassMatcher{
-																																																					pos:        position{line: 2742, col: 29, offset: 87195},
+																																																					pos:        position{line: 2742, col: 29, offset: 87197},
 																																																					val:        "[<>^]",
 																																																					chars:      []rune{'<', '>', '^'},
 																																																					ignoreCase: false,
@@ -37821,18 +37821,18 @@ var g = &grammar{
 																																																				},
 																																																			},
 																																																			&zeroOrOneExpr{
-																																																				pos: position{line: 2742, col: 36, offset: 87202},
+																																																				pos: position{line: 2742, col: 36, offset: 87204},
 																																																				expr: &seqExpr{
-																																																					pos: position{line: 2742, col: 37, offset: 87203},
+																																																					pos: position{line: 2742, col: 37, offset: 87205},
 																																																					exprs: []interface{}{
 																																																						&litMatcher{
-																																																							pos:        position{line: 2742, col: 37, offset: 87203},
+																																																							pos:        position{line: 2742, col: 37, offset: 87205},
 																																																							val:        ".",
 																																																							ignoreCase: false,
 																																																							want:       "\".\"",
 																																																						},
 																																																						&charClassMatcher{
-																																																							pos:        position{line: 2742, col: 41, offset: 87207},
+																																																							pos:        position{line: 2742, col: 41, offset: 87209},
 																																																							val:        "[<>^]",
 																																																							chars:      []rune{'<', '>', '^'},
 																																																							ignoreCase: false,
@@ -37842,9 +37842,9 @@ var g = &grammar{
 																																																				},
 																																																			},
 																																																			&zeroOrOneExpr{
-																																																				pos: position{line: 2742, col: 49, offset: 87215},
+																																																				pos: position{line: 2742, col: 49, offset: 87217},
 																																																				expr: &charClassMatcher{
-																																																					pos:        position{line: 2742, col: 49, offset: 87215},
+																																																					pos:        position{line: 2742, col: 49, offset: 87217},
 																																																					val:        "[a-z]",
 																																																					ranges:     []rune{'a', 'z'},
 																																																					ignoreCase: false,
@@ -37861,7 +37861,7 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2727, col: 37, offset: 86855},
+																																											pos:        position{line: 2727, col: 37, offset: 86857},
 																																											val:        "|",
 																																											ignoreCase: false,
 																																											want:       "\"|\"",
@@ -37870,15 +37870,15 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2728, col: 9, offset: 86868},
+																																								pos:   position{line: 2728, col: 9, offset: 86870},
 																																								label: "content",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2728, col: 18, offset: 86877},
+																																									pos: position{line: 2728, col: 18, offset: 86879},
 																																									run: (*parser).callonListContinuationElement1581,
 																																									expr: &zeroOrMoreExpr{
-																																										pos: position{line: 2728, col: 18, offset: 86877},
+																																										pos: position{line: 2728, col: 18, offset: 86879},
 																																										expr: &charClassMatcher{
-																																											pos:        position{line: 2728, col: 18, offset: 86877},
+																																											pos:        position{line: 2728, col: 18, offset: 86879},
 																																											val:        "[^|\\r\\n]",
 																																											chars:      []rune{'|', '\r', '\n'},
 																																											ignoreCase: false,
@@ -37888,30 +37888,30 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&zeroOrOneExpr{
-																																								pos: position{line: 2730, col: 12, offset: 86939},
+																																								pos: position{line: 2730, col: 12, offset: 86941},
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2966, col: 8, offset: 93578},
+																																									pos: position{line: 2966, col: 8, offset: 93580},
 																																									alternatives: []interface{}{
 																																										&actionExpr{
-																																											pos: position{line: 2953, col: 12, offset: 93351},
+																																											pos: position{line: 2953, col: 12, offset: 93353},
 																																											run: (*parser).callonListContinuationElement1586,
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2953, col: 13, offset: 93352},
+																																												pos: position{line: 2953, col: 13, offset: 93354},
 																																												alternatives: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2953, col: 13, offset: 93352},
+																																														pos:        position{line: 2953, col: 13, offset: 93354},
 																																														val:        "\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2953, col: 20, offset: 93359},
+																																														pos:        position{line: 2953, col: 20, offset: 93361},
 																																														val:        "\r\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2953, col: 29, offset: 93368},
+																																														pos:        position{line: 2953, col: 29, offset: 93370},
 																																														val:        "\r",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\"",
@@ -37920,9 +37920,9 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2963, col: 8, offset: 93528},
+																																											pos: position{line: 2963, col: 8, offset: 93530},
 																																											expr: &anyMatcher{
-																																												line: 2963, col: 9, offset: 93529,
+																																												line: 2963, col: 9, offset: 93531,
 																																											},
 																																										},
 																																									},
@@ -37946,24 +37946,24 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 702, col: 14, offset: 22577},
+																							pos: position{line: 702, col: 14, offset: 22579},
 																							run: (*parser).callonListContinuationElement1593,
 																							expr: &seqExpr{
-																								pos: position{line: 702, col: 14, offset: 22577},
+																								pos: position{line: 702, col: 14, offset: 22579},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2961, col: 11, offset: 93514},
+																										pos: position{line: 2961, col: 11, offset: 93516},
 																										expr: &anyMatcher{
-																											line: 2961, col: 13, offset: 93516,
+																											line: 2961, col: 13, offset: 93518,
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 702, col: 21, offset: 22584},
+																										pos: position{line: 702, col: 21, offset: 22586},
 																										expr: &actionExpr{
-																											pos: position{line: 2944, col: 10, offset: 93180},
+																											pos: position{line: 2944, col: 10, offset: 93182},
 																											run: (*parser).callonListContinuationElement1598,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2944, col: 10, offset: 93180},
+																												pos:        position{line: 2944, col: 10, offset: 93182},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -37972,28 +37972,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2966, col: 8, offset: 93578},
+																										pos: position{line: 2966, col: 8, offset: 93580},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2953, col: 12, offset: 93351},
+																												pos: position{line: 2953, col: 12, offset: 93353},
 																												run: (*parser).callonListContinuationElement1601,
 																												expr: &choiceExpr{
-																													pos: position{line: 2953, col: 13, offset: 93352},
+																													pos: position{line: 2953, col: 13, offset: 93354},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2953, col: 13, offset: 93352},
+																															pos:        position{line: 2953, col: 13, offset: 93354},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2953, col: 20, offset: 93359},
+																															pos:        position{line: 2953, col: 20, offset: 93361},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2953, col: 29, offset: 93368},
+																															pos:        position{line: 2953, col: 29, offset: 93370},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -38002,9 +38002,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2963, col: 8, offset: 93528},
+																												pos: position{line: 2963, col: 8, offset: 93530},
 																												expr: &anyMatcher{
-																													line: 2963, col: 9, offset: 93529,
+																													line: 2963, col: 9, offset: 93531,
 																												},
 																											},
 																										},
@@ -38023,24 +38023,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2674, col: 22, offset: 85566},
+													pos: position{line: 2674, col: 22, offset: 85568},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2670, col: 19, offset: 85486},
+															pos: position{line: 2670, col: 19, offset: 85488},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2670, col: 19, offset: 85486},
+																	pos:        position{line: 2670, col: 19, offset: 85488},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2670, col: 26, offset: 85493},
+																	pos: position{line: 2670, col: 26, offset: 85495},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93180},
+																		pos: position{line: 2944, col: 10, offset: 93182},
 																		run: (*parser).callonListContinuationElement1612,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93180},
+																			pos:        position{line: 2944, col: 10, offset: 93182},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38049,28 +38049,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93578},
+																	pos: position{line: 2966, col: 8, offset: 93580},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93351},
+																			pos: position{line: 2953, col: 12, offset: 93353},
 																			run: (*parser).callonListContinuationElement1615,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93352},
+																				pos: position{line: 2953, col: 13, offset: 93354},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93352},
+																						pos:        position{line: 2953, col: 13, offset: 93354},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93359},
+																						pos:        position{line: 2953, col: 20, offset: 93361},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93368},
+																						pos:        position{line: 2953, col: 29, offset: 93370},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38079,9 +38079,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93528},
+																			pos: position{line: 2963, col: 8, offset: 93530},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93529,
+																				line: 2963, col: 9, offset: 93531,
 																			},
 																		},
 																	},
@@ -38089,9 +38089,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93528},
+															pos: position{line: 2963, col: 8, offset: 93530},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93529,
+																line: 2963, col: 9, offset: 93531,
 															},
 														},
 													},
@@ -38100,36 +38100,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2538, col: 22, offset: 81740},
+										pos: position{line: 2538, col: 22, offset: 81742},
 										run: (*parser).callonListContinuationElement1624,
 										expr: &seqExpr{
-											pos: position{line: 2538, col: 22, offset: 81740},
+											pos: position{line: 2538, col: 22, offset: 81742},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2543, col: 31, offset: 81990},
+													pos:        position{line: 2543, col: 31, offset: 81992},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2543, col: 36, offset: 81995},
+													pos: position{line: 2543, col: 36, offset: 81997},
 													expr: &litMatcher{
-														pos:        position{line: 2543, col: 37, offset: 81996},
+														pos:        position{line: 2543, col: 37, offset: 81998},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2538, col: 49, offset: 81767},
+													pos:   position{line: 2538, col: 49, offset: 81769},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2890, col: 13, offset: 91706},
+														pos: position{line: 2890, col: 13, offset: 91708},
 														run: (*parser).callonListContinuationElement1630,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2890, col: 13, offset: 91706},
+															pos: position{line: 2890, col: 13, offset: 91708},
 															expr: &charClassMatcher{
-																pos:        position{line: 2890, col: 13, offset: 91706},
+																pos:        position{line: 2890, col: 13, offset: 91708},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -38139,28 +38139,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2966, col: 8, offset: 93578},
+													pos: position{line: 2966, col: 8, offset: 93580},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93351},
+															pos: position{line: 2953, col: 12, offset: 93353},
 															run: (*parser).callonListContinuationElement1634,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93352},
+																pos: position{line: 2953, col: 13, offset: 93354},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93352},
+																		pos:        position{line: 2953, col: 13, offset: 93354},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93359},
+																		pos:        position{line: 2953, col: 20, offset: 93361},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93368},
+																		pos:        position{line: 2953, col: 29, offset: 93370},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -38169,9 +38169,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93528},
+															pos: position{line: 2963, col: 8, offset: 93530},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93529,
+																line: 2963, col: 9, offset: 93531,
 															},
 														},
 													},
@@ -38180,94 +38180,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1592, col: 5, offset: 51745},
+										pos: position{line: 1592, col: 5, offset: 51747},
 										run: (*parser).callonListContinuationElement1641,
 										expr: &seqExpr{
-											pos: position{line: 1592, col: 5, offset: 51745},
+											pos: position{line: 1592, col: 5, offset: 51747},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1592, col: 5, offset: 51745},
+													pos:   position{line: 1592, col: 5, offset: 51747},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1592, col: 11, offset: 51751},
+														pos: position{line: 1592, col: 11, offset: 51753},
 														expr: &actionExpr{
-															pos: position{line: 1757, col: 5, offset: 57100},
+															pos: position{line: 1757, col: 5, offset: 57102},
 															run: (*parser).callonListContinuationElement1645,
 															expr: &seqExpr{
-																pos: position{line: 1757, col: 5, offset: 57100},
+																pos: position{line: 1757, col: 5, offset: 57102},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1757, col: 5, offset: 57100},
+																		pos: position{line: 1757, col: 5, offset: 57102},
 																		run: (*parser).callonListContinuationElement1647,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1760, col: 5, offset: 57163},
+																		pos:   position{line: 1760, col: 5, offset: 57165},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1760, col: 12, offset: 57170},
+																			pos: position{line: 1760, col: 12, offset: 57172},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1760, col: 12, offset: 57170},
+																					pos: position{line: 1760, col: 12, offset: 57172},
 																					run: (*parser).callonListContinuationElement1650,
 																					expr: &litMatcher{
-																						pos:        position{line: 1760, col: 12, offset: 57170},
+																						pos:        position{line: 1760, col: 12, offset: 57172},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1762, col: 13, offset: 57226},
+																					pos: position{line: 1762, col: 13, offset: 57228},
 																					run: (*parser).callonListContinuationElement1652,
 																					expr: &litMatcher{
-																						pos:        position{line: 1762, col: 13, offset: 57226},
+																						pos:        position{line: 1762, col: 13, offset: 57228},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1764, col: 13, offset: 57284},
+																					pos: position{line: 1764, col: 13, offset: 57286},
 																					run: (*parser).callonListContinuationElement1654,
 																					expr: &litMatcher{
-																						pos:        position{line: 1764, col: 13, offset: 57284},
+																						pos:        position{line: 1764, col: 13, offset: 57286},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1766, col: 13, offset: 57352},
+																					pos: position{line: 1766, col: 13, offset: 57354},
 																					run: (*parser).callonListContinuationElement1656,
 																					expr: &litMatcher{
-																						pos:        position{line: 1766, col: 13, offset: 57352},
+																						pos:        position{line: 1766, col: 13, offset: 57354},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1768, col: 13, offset: 57416},
+																					pos: position{line: 1768, col: 13, offset: 57418},
 																					run: (*parser).callonListContinuationElement1658,
 																					expr: &litMatcher{
-																						pos:        position{line: 1768, col: 13, offset: 57416},
+																						pos:        position{line: 1768, col: 13, offset: 57418},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1770, col: 13, offset: 57480},
+																					pos: position{line: 1770, col: 13, offset: 57482},
 																					run: (*parser).callonListContinuationElement1660,
 																					expr: &andExpr{
-																						pos: position{line: 1770, col: 13, offset: 57480},
+																						pos: position{line: 1770, col: 13, offset: 57482},
 																						expr: &actionExpr{
-																							pos: position{line: 2948, col: 11, offset: 93241},
+																							pos: position{line: 2948, col: 11, offset: 93243},
 																							run: (*parser).callonListContinuationElement1662,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2948, col: 11, offset: 93241},
+																								pos: position{line: 2948, col: 11, offset: 93243},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2948, col: 11, offset: 93241},
+																									pos:        position{line: 2948, col: 11, offset: 93243},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -38286,35 +38286,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1593, col: 5, offset: 51774},
+													pos:   position{line: 1593, col: 5, offset: 51776},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1535, col: 5, offset: 50090},
+														pos: position{line: 1535, col: 5, offset: 50092},
 														run: (*parser).callonListContinuationElement1666,
 														expr: &seqExpr{
-															pos: position{line: 1535, col: 5, offset: 50090},
+															pos: position{line: 1535, col: 5, offset: 50092},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1535, col: 5, offset: 50090},
+																	pos: position{line: 1535, col: 5, offset: 50092},
 																	expr: &actionExpr{
-																		pos: position{line: 702, col: 14, offset: 22577},
+																		pos: position{line: 702, col: 14, offset: 22579},
 																		run: (*parser).callonListContinuationElement1669,
 																		expr: &seqExpr{
-																			pos: position{line: 702, col: 14, offset: 22577},
+																			pos: position{line: 702, col: 14, offset: 22579},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2961, col: 11, offset: 93514},
+																					pos: position{line: 2961, col: 11, offset: 93516},
 																					expr: &anyMatcher{
-																						line: 2961, col: 13, offset: 93516,
+																						line: 2961, col: 13, offset: 93518,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 702, col: 21, offset: 22584},
+																					pos: position{line: 702, col: 21, offset: 22586},
 																					expr: &actionExpr{
-																						pos: position{line: 2944, col: 10, offset: 93180},
+																						pos: position{line: 2944, col: 10, offset: 93182},
 																						run: (*parser).callonListContinuationElement1674,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2944, col: 10, offset: 93180},
+																							pos:        position{line: 2944, col: 10, offset: 93182},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38323,28 +38323,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2966, col: 8, offset: 93578},
+																					pos: position{line: 2966, col: 8, offset: 93580},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2953, col: 12, offset: 93351},
+																							pos: position{line: 2953, col: 12, offset: 93353},
 																							run: (*parser).callonListContinuationElement1677,
 																							expr: &choiceExpr{
-																								pos: position{line: 2953, col: 13, offset: 93352},
+																								pos: position{line: 2953, col: 13, offset: 93354},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 13, offset: 93352},
+																										pos:        position{line: 2953, col: 13, offset: 93354},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 20, offset: 93359},
+																										pos:        position{line: 2953, col: 20, offset: 93361},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 29, offset: 93368},
+																										pos:        position{line: 2953, col: 29, offset: 93370},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38353,9 +38353,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93528},
+																							pos: position{line: 2963, col: 8, offset: 93530},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93529,
+																								line: 2963, col: 9, offset: 93531,
 																							},
 																						},
 																					},
@@ -38365,23 +38365,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1536, col: 5, offset: 50105},
+																	pos: position{line: 1536, col: 5, offset: 50107},
 																	expr: &seqExpr{
-																		pos: position{line: 1567, col: 27, offset: 50965},
+																		pos: position{line: 1567, col: 27, offset: 50967},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1567, col: 27, offset: 50965},
+																				pos:        position{line: 1567, col: 27, offset: 50967},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1567, col: 31, offset: 50969},
+																				pos: position{line: 1567, col: 31, offset: 50971},
 																				expr: &actionExpr{
-																					pos: position{line: 2944, col: 10, offset: 93180},
+																					pos: position{line: 2944, col: 10, offset: 93182},
 																					run: (*parser).callonListContinuationElement1688,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2944, col: 10, offset: 93180},
+																						pos:        position{line: 2944, col: 10, offset: 93182},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -38390,25 +38390,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonListContinuationElement1690,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -38420,20 +38420,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1537, col: 5, offset: 50133},
+																	pos: position{line: 1537, col: 5, offset: 50135},
 																	expr: &actionExpr{
-																		pos: position{line: 1608, col: 5, offset: 52184},
+																		pos: position{line: 1608, col: 5, offset: 52186},
 																		run: (*parser).callonListContinuationElement1696,
 																		expr: &seqExpr{
-																			pos: position{line: 1608, col: 5, offset: 52184},
+																			pos: position{line: 1608, col: 5, offset: 52186},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1608, col: 5, offset: 52184},
+																					pos: position{line: 1608, col: 5, offset: 52186},
 																					expr: &actionExpr{
-																						pos: position{line: 2944, col: 10, offset: 93180},
+																						pos: position{line: 2944, col: 10, offset: 93182},
 																						run: (*parser).callonListContinuationElement1699,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2944, col: 10, offset: 93180},
+																							pos:        position{line: 2944, col: 10, offset: 93182},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38442,27 +38442,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1608, col: 12, offset: 52191},
+																					pos:   position{line: 1608, col: 12, offset: 52193},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1610, col: 9, offset: 52254},
+																						pos: position{line: 1610, col: 9, offset: 52256},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1610, col: 9, offset: 52254},
+																								pos: position{line: 1610, col: 9, offset: 52256},
 																								run: (*parser).callonListContinuationElement1703,
 																								expr: &seqExpr{
-																									pos: position{line: 1610, col: 9, offset: 52254},
+																									pos: position{line: 1610, col: 9, offset: 52256},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1610, col: 9, offset: 52254},
+																											pos:   position{line: 1610, col: 9, offset: 52256},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1610, col: 16, offset: 52261},
+																												pos: position{line: 1610, col: 16, offset: 52263},
 																												run: (*parser).callonListContinuationElement1706,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1610, col: 16, offset: 52261},
+																													pos: position{line: 1610, col: 16, offset: 52263},
 																													expr: &litMatcher{
-																														pos:        position{line: 1610, col: 17, offset: 52262},
+																														pos:        position{line: 1610, col: 17, offset: 52264},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -38471,22 +38471,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1614, col: 9, offset: 52362},
+																											pos: position{line: 1614, col: 9, offset: 52364},
 																											run: (*parser).callonListContinuationElement1709,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1633, col: 11, offset: 53079},
+																								pos: position{line: 1633, col: 11, offset: 53081},
 																								run: (*parser).callonListContinuationElement1710,
 																								expr: &seqExpr{
-																									pos: position{line: 1633, col: 11, offset: 53079},
+																									pos: position{line: 1633, col: 11, offset: 53081},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1633, col: 11, offset: 53079},
+																											pos: position{line: 1633, col: 11, offset: 53081},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1633, col: 12, offset: 53080},
+																												pos:        position{line: 1633, col: 12, offset: 53082},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -38494,7 +38494,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1633, col: 20, offset: 53088},
+																											pos:        position{line: 1633, col: 20, offset: 53090},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38503,20 +38503,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1635, col: 13, offset: 53205},
+																								pos: position{line: 1635, col: 13, offset: 53207},
 																								run: (*parser).callonListContinuationElement1715,
 																								expr: &seqExpr{
-																									pos: position{line: 1635, col: 13, offset: 53205},
+																									pos: position{line: 1635, col: 13, offset: 53207},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1635, col: 14, offset: 53206},
+																											pos:        position{line: 1635, col: 14, offset: 53208},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1635, col: 21, offset: 53213},
+																											pos:        position{line: 1635, col: 21, offset: 53215},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38525,20 +38525,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1637, col: 13, offset: 53333},
+																								pos: position{line: 1637, col: 13, offset: 53335},
 																								run: (*parser).callonListContinuationElement1719,
 																								expr: &seqExpr{
-																									pos: position{line: 1637, col: 13, offset: 53333},
+																									pos: position{line: 1637, col: 13, offset: 53335},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1637, col: 14, offset: 53334},
+																											pos:        position{line: 1637, col: 14, offset: 53336},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1637, col: 21, offset: 53341},
+																											pos:        position{line: 1637, col: 21, offset: 53343},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38547,15 +38547,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1639, col: 13, offset: 53461},
+																								pos: position{line: 1639, col: 13, offset: 53463},
 																								run: (*parser).callonListContinuationElement1723,
 																								expr: &seqExpr{
-																									pos: position{line: 1639, col: 13, offset: 53461},
+																									pos: position{line: 1639, col: 13, offset: 53463},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1639, col: 13, offset: 53461},
+																											pos: position{line: 1639, col: 13, offset: 53463},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1639, col: 14, offset: 53462},
+																												pos:        position{line: 1639, col: 14, offset: 53464},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -38563,7 +38563,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1639, col: 26, offset: 53474},
+																											pos:        position{line: 1639, col: 26, offset: 53476},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -38572,15 +38572,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1641, col: 13, offset: 53594},
+																								pos: position{line: 1641, col: 13, offset: 53596},
 																								run: (*parser).callonListContinuationElement1728,
 																								expr: &seqExpr{
-																									pos: position{line: 1641, col: 13, offset: 53594},
+																									pos: position{line: 1641, col: 13, offset: 53596},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1641, col: 13, offset: 53594},
+																											pos: position{line: 1641, col: 13, offset: 53596},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1641, col: 14, offset: 53595},
+																												pos:        position{line: 1641, col: 14, offset: 53597},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -38588,7 +38588,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1641, col: 26, offset: 53607},
+																											pos:        position{line: 1641, col: 26, offset: 53609},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -38600,12 +38600,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2948, col: 11, offset: 93241},
+																					pos: position{line: 2948, col: 11, offset: 93243},
 																					run: (*parser).callonListContinuationElement1733,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2948, col: 11, offset: 93241},
+																						pos: position{line: 2948, col: 11, offset: 93243},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2948, col: 11, offset: 93241},
+																							pos:        position{line: 2948, col: 11, offset: 93243},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38618,20 +38618,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1538, col: 5, offset: 50163},
+																	pos: position{line: 1538, col: 5, offset: 50165},
 																	expr: &actionExpr{
-																		pos: position{line: 1658, col: 5, offset: 54146},
+																		pos: position{line: 1658, col: 5, offset: 54148},
 																		run: (*parser).callonListContinuationElement1737,
 																		expr: &seqExpr{
-																			pos: position{line: 1658, col: 5, offset: 54146},
+																			pos: position{line: 1658, col: 5, offset: 54148},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1658, col: 5, offset: 54146},
+																					pos: position{line: 1658, col: 5, offset: 54148},
 																					expr: &actionExpr{
-																						pos: position{line: 2944, col: 10, offset: 93180},
+																						pos: position{line: 2944, col: 10, offset: 93182},
 																						run: (*parser).callonListContinuationElement1740,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2944, col: 10, offset: 93180},
+																							pos:        position{line: 2944, col: 10, offset: 93182},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38640,24 +38640,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1659, col: 5, offset: 54158},
+																					pos:   position{line: 1659, col: 5, offset: 54160},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1660, col: 9, offset: 54174},
+																						pos: position{line: 1660, col: 9, offset: 54176},
 																						run: (*parser).callonListContinuationElement1743,
 																						expr: &choiceExpr{
-																							pos: position{line: 1660, col: 10, offset: 54175},
+																							pos: position{line: 1660, col: 10, offset: 54177},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1660, col: 11, offset: 54176},
+																									pos:        position{line: 1660, col: 11, offset: 54178},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1660, col: 18, offset: 54183},
+																									pos: position{line: 1660, col: 18, offset: 54185},
 																									expr: &litMatcher{
-																										pos:        position{line: 1660, col: 19, offset: 54184},
+																										pos:        position{line: 1660, col: 19, offset: 54186},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -38668,16 +38668,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1663, col: 7, offset: 54274},
+																					pos: position{line: 1663, col: 7, offset: 54276},
 																					run: (*parser).callonListContinuationElement1748,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2948, col: 11, offset: 93241},
+																					pos: position{line: 2948, col: 11, offset: 93243},
 																					run: (*parser).callonListContinuationElement1749,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2948, col: 11, offset: 93241},
+																						pos: position{line: 2948, col: 11, offset: 93243},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2948, col: 11, offset: 93241},
+																							pos:        position{line: 2948, col: 11, offset: 93243},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38690,29 +38690,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1539, col: 5, offset: 50195},
+																	pos: position{line: 1539, col: 5, offset: 50197},
 																	expr: &actionExpr{
-																		pos: position{line: 1748, col: 5, offset: 56715},
+																		pos: position{line: 1748, col: 5, offset: 56717},
 																		run: (*parser).callonListContinuationElement1753,
 																		expr: &seqExpr{
-																			pos: position{line: 1748, col: 5, offset: 56715},
+																			pos: position{line: 1748, col: 5, offset: 56717},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1748, col: 5, offset: 56715},
+																					pos:        position{line: 1748, col: 5, offset: 56717},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1748, col: 9, offset: 56719},
+																					pos:   position{line: 1748, col: 9, offset: 56721},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1748, col: 14, offset: 56724},
+																						pos: position{line: 1748, col: 14, offset: 56726},
 																						run: (*parser).callonListContinuationElement1757,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1748, col: 14, offset: 56724},
+																							pos: position{line: 1748, col: 14, offset: 56726},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1748, col: 14, offset: 56724},
+																								pos:        position{line: 1748, col: 14, offset: 56726},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -38722,18 +38722,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1748, col: 62, offset: 56772},
+																					pos:        position{line: 1748, col: 62, offset: 56774},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2948, col: 11, offset: 93241},
+																					pos: position{line: 2948, col: 11, offset: 93243},
 																					run: (*parser).callonListContinuationElement1761,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2948, col: 11, offset: 93241},
+																						pos: position{line: 2948, col: 11, offset: 93243},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2948, col: 11, offset: 93241},
+																							pos:        position{line: 2948, col: 11, offset: 93243},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38746,31 +38746,31 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1540, col: 5, offset: 50225},
+																	pos: position{line: 1540, col: 5, offset: 50227},
 																	expr: &seqExpr{
-																		pos: position{line: 1540, col: 7, offset: 50227},
+																		pos: position{line: 1540, col: 7, offset: 50229},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1693, col: 5, offset: 55165},
+																				pos: position{line: 1693, col: 5, offset: 55167},
 																				run: (*parser).callonListContinuationElement1766,
 																				expr: &seqExpr{
-																					pos: position{line: 1693, col: 5, offset: 55165},
+																					pos: position{line: 1693, col: 5, offset: 55167},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1693, col: 5, offset: 55165},
+																							pos: position{line: 1693, col: 5, offset: 55167},
 																							expr: &seqExpr{
-																								pos: position{line: 2543, col: 31, offset: 81990},
+																								pos: position{line: 2543, col: 31, offset: 81992},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2543, col: 31, offset: 81990},
+																										pos:        position{line: 2543, col: 31, offset: 81992},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2543, col: 36, offset: 81995},
+																										pos: position{line: 2543, col: 36, offset: 81997},
 																										expr: &litMatcher{
-																											pos:        position{line: 2543, col: 37, offset: 81996},
+																											pos:        position{line: 2543, col: 37, offset: 81998},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -38780,28 +38780,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1694, col: 5, offset: 55197},
+																							pos: position{line: 1694, col: 5, offset: 55199},
 																							expr: &seqExpr{
-																								pos: position{line: 1694, col: 6, offset: 55198},
+																								pos: position{line: 1694, col: 6, offset: 55200},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1694, col: 6, offset: 55198},
+																										pos: position{line: 1694, col: 6, offset: 55200},
 																										expr: &actionExpr{
-																											pos: position{line: 1699, col: 5, offset: 55348},
+																											pos: position{line: 1699, col: 5, offset: 55350},
 																											run: (*parser).callonListContinuationElement1776,
 																											expr: &seqExpr{
-																												pos: position{line: 1699, col: 5, offset: 55348},
+																												pos: position{line: 1699, col: 5, offset: 55350},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1699, col: 5, offset: 55348},
+																														pos:   position{line: 1699, col: 5, offset: 55350},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1699, col: 16, offset: 55359},
+																															pos: position{line: 1699, col: 16, offset: 55361},
 																															run: (*parser).callonListContinuationElement1779,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1699, col: 16, offset: 55359},
+																																pos: position{line: 1699, col: 16, offset: 55361},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1699, col: 17, offset: 55360},
+																																	pos:        position{line: 1699, col: 17, offset: 55362},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -38810,7 +38810,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1702, col: 5, offset: 55417},
+																														pos: position{line: 1702, col: 5, offset: 55419},
 																														run: (*parser).callonListContinuationElement1782,
 																													},
 																												},
@@ -38818,30 +38818,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1694, col: 35, offset: 55227},
+																										pos: position{line: 1694, col: 35, offset: 55229},
 																										expr: &choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93578},
+																											pos: position{line: 2966, col: 8, offset: 93580},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93351},
+																													pos: position{line: 2953, col: 12, offset: 93353},
 																													run: (*parser).callonListContinuationElement1785,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93352},
+																														pos: position{line: 2953, col: 13, offset: 93354},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93352},
+																																pos:        position{line: 2953, col: 13, offset: 93354},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93359},
+																																pos:        position{line: 2953, col: 20, offset: 93361},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93368},
+																																pos:        position{line: 2953, col: 29, offset: 93370},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38850,16 +38850,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93528},
+																													pos: position{line: 2963, col: 8, offset: 93530},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93529,
+																														line: 2963, col: 9, offset: 93531,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1694, col: 40, offset: 55232,
+																										line: 1694, col: 40, offset: 55234,
 																									},
 																								},
 																							},
@@ -38868,21 +38868,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1699, col: 5, offset: 55348},
+																				pos: position{line: 1699, col: 5, offset: 55350},
 																				run: (*parser).callonListContinuationElement1793,
 																				expr: &seqExpr{
-																					pos: position{line: 1699, col: 5, offset: 55348},
+																					pos: position{line: 1699, col: 5, offset: 55350},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1699, col: 5, offset: 55348},
+																							pos:   position{line: 1699, col: 5, offset: 55350},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1699, col: 16, offset: 55359},
+																								pos: position{line: 1699, col: 16, offset: 55361},
 																								run: (*parser).callonListContinuationElement1796,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1699, col: 16, offset: 55359},
+																									pos: position{line: 1699, col: 16, offset: 55361},
 																									expr: &litMatcher{
-																										pos:        position{line: 1699, col: 17, offset: 55360},
+																										pos:        position{line: 1699, col: 17, offset: 55362},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -38891,7 +38891,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1702, col: 5, offset: 55417},
+																							pos: position{line: 1702, col: 5, offset: 55419},
 																							run: (*parser).callonListContinuationElement1799,
 																						},
 																					},
@@ -38901,17 +38901,17 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1541, col: 5, offset: 50283},
+																	pos: position{line: 1541, col: 5, offset: 50285},
 																	expr: &actionExpr{
-																		pos: position{line: 749, col: 5, offset: 24130},
+																		pos: position{line: 749, col: 5, offset: 24132},
 																		run: (*parser).callonListContinuationElement1801,
 																		expr: &seqExpr{
-																			pos: position{line: 749, col: 5, offset: 24130},
+																			pos: position{line: 749, col: 5, offset: 24132},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 749, col: 5, offset: 24130},
+																					pos: position{line: 749, col: 5, offset: 24132},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2834, col: 13, offset: 90275},
+																						pos:        position{line: 2834, col: 13, offset: 90277},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -38919,36 +38919,36 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 750, col: 5, offset: 24160},
+																					pos:   position{line: 750, col: 5, offset: 24162},
 																					label: "delimiter",
 																					expr: &choiceExpr{
-																						pos: position{line: 751, col: 9, offset: 24180},
+																						pos: position{line: 751, col: 9, offset: 24182},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 765, col: 5, offset: 24672},
+																								pos: position{line: 765, col: 5, offset: 24674},
 																								run: (*parser).callonListContinuationElement1807,
 																								expr: &seqExpr{
-																									pos: position{line: 765, col: 5, offset: 24672},
+																									pos: position{line: 765, col: 5, offset: 24674},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 765, col: 5, offset: 24672},
+																											pos:   position{line: 765, col: 5, offset: 24674},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 765, col: 16, offset: 24683},
+																												pos: position{line: 765, col: 16, offset: 24685},
 																												run: (*parser).callonListContinuationElement1810,
 																												expr: &seqExpr{
-																													pos: position{line: 765, col: 16, offset: 24683},
+																													pos: position{line: 765, col: 16, offset: 24685},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 765, col: 16, offset: 24683},
+																															pos:        position{line: 765, col: 16, offset: 24685},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 765, col: 23, offset: 24690},
+																															pos: position{line: 765, col: 23, offset: 24692},
 																															expr: &litMatcher{
-																																pos:        position{line: 765, col: 23, offset: 24690},
+																																pos:        position{line: 765, col: 23, offset: 24692},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -38959,12 +38959,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 767, col: 8, offset: 24774},
+																											pos: position{line: 767, col: 8, offset: 24776},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93180},
+																												pos: position{line: 2944, col: 10, offset: 93182},
 																												run: (*parser).callonListContinuationElement1816,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93180},
+																													pos:        position{line: 2944, col: 10, offset: 93182},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38973,28 +38973,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93578},
+																											pos: position{line: 2966, col: 8, offset: 93580},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93351},
+																													pos: position{line: 2953, col: 12, offset: 93353},
 																													run: (*parser).callonListContinuationElement1819,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93352},
+																														pos: position{line: 2953, col: 13, offset: 93354},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93352},
+																																pos:        position{line: 2953, col: 13, offset: 93354},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93359},
+																																pos:        position{line: 2953, col: 20, offset: 93361},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93368},
+																																pos:        position{line: 2953, col: 29, offset: 93370},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39003,9 +39003,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93528},
+																													pos: position{line: 2963, col: 8, offset: 93530},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93529,
+																														line: 2963, col: 9, offset: 93531,
 																													},
 																												},
 																											},
@@ -39014,30 +39014,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 772, col: 5, offset: 24920},
+																								pos: position{line: 772, col: 5, offset: 24922},
 																								run: (*parser).callonListContinuationElement1826,
 																								expr: &seqExpr{
-																									pos: position{line: 772, col: 5, offset: 24920},
+																									pos: position{line: 772, col: 5, offset: 24922},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 772, col: 5, offset: 24920},
+																											pos:   position{line: 772, col: 5, offset: 24922},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 772, col: 16, offset: 24931},
+																												pos: position{line: 772, col: 16, offset: 24933},
 																												run: (*parser).callonListContinuationElement1829,
 																												expr: &seqExpr{
-																													pos: position{line: 772, col: 16, offset: 24931},
+																													pos: position{line: 772, col: 16, offset: 24933},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 772, col: 16, offset: 24931},
+																															pos:        position{line: 772, col: 16, offset: 24933},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 772, col: 23, offset: 24938},
+																															pos: position{line: 772, col: 23, offset: 24940},
 																															expr: &litMatcher{
-																																pos:        position{line: 772, col: 23, offset: 24938},
+																																pos:        position{line: 772, col: 23, offset: 24940},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -39048,12 +39048,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 774, col: 8, offset: 25022},
+																											pos: position{line: 774, col: 8, offset: 25024},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93180},
+																												pos: position{line: 2944, col: 10, offset: 93182},
 																												run: (*parser).callonListContinuationElement1835,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93180},
+																													pos:        position{line: 2944, col: 10, offset: 93182},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39062,28 +39062,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93578},
+																											pos: position{line: 2966, col: 8, offset: 93580},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93351},
+																													pos: position{line: 2953, col: 12, offset: 93353},
 																													run: (*parser).callonListContinuationElement1838,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93352},
+																														pos: position{line: 2953, col: 13, offset: 93354},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93352},
+																																pos:        position{line: 2953, col: 13, offset: 93354},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93359},
+																																pos:        position{line: 2953, col: 20, offset: 93361},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93368},
+																																pos:        position{line: 2953, col: 29, offset: 93370},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39092,9 +39092,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93528},
+																													pos: position{line: 2963, col: 8, offset: 93530},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93529,
+																														line: 2963, col: 9, offset: 93531,
 																													},
 																												},
 																											},
@@ -39103,27 +39103,27 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 785, col: 26, offset: 25408},
+																								pos: position{line: 785, col: 26, offset: 25410},
 																								run: (*parser).callonListContinuationElement1845,
 																								expr: &seqExpr{
-																									pos: position{line: 785, col: 26, offset: 25408},
+																									pos: position{line: 785, col: 26, offset: 25410},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 785, col: 26, offset: 25408},
+																											pos:        position{line: 785, col: 26, offset: 25410},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 785, col: 32, offset: 25414},
+																											pos:   position{line: 785, col: 32, offset: 25416},
 																											label: "language",
 																											expr: &actionExpr{
-																												pos: position{line: 789, col: 13, offset: 25544},
+																												pos: position{line: 789, col: 13, offset: 25546},
 																												run: (*parser).callonListContinuationElement1849,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 789, col: 14, offset: 25545},
+																													pos: position{line: 789, col: 14, offset: 25547},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 789, col: 14, offset: 25545},
+																														pos:        position{line: 789, col: 14, offset: 25547},
 																														val:        "[^\\r\\n` ]",
 																														chars:      []rune{'\r', '\n', '`', ' '},
 																														ignoreCase: false,
@@ -39133,12 +39133,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 785, col: 52, offset: 25434},
+																											pos: position{line: 785, col: 52, offset: 25436},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93180},
+																												pos: position{line: 2944, col: 10, offset: 93182},
 																												run: (*parser).callonListContinuationElement1853,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93180},
+																													pos:        position{line: 2944, col: 10, offset: 93182},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39147,28 +39147,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93578},
+																											pos: position{line: 2966, col: 8, offset: 93580},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93351},
+																													pos: position{line: 2953, col: 12, offset: 93353},
 																													run: (*parser).callonListContinuationElement1856,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93352},
+																														pos: position{line: 2953, col: 13, offset: 93354},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93352},
+																																pos:        position{line: 2953, col: 13, offset: 93354},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93359},
+																																pos:        position{line: 2953, col: 20, offset: 93361},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93368},
+																																pos:        position{line: 2953, col: 29, offset: 93370},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39177,9 +39177,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93528},
+																													pos: position{line: 2963, col: 8, offset: 93530},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93529,
+																														line: 2963, col: 9, offset: 93531,
 																													},
 																												},
 																											},
@@ -39188,30 +39188,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 779, col: 5, offset: 25167},
+																								pos: position{line: 779, col: 5, offset: 25169},
 																								run: (*parser).callonListContinuationElement1863,
 																								expr: &seqExpr{
-																									pos: position{line: 779, col: 5, offset: 25167},
+																									pos: position{line: 779, col: 5, offset: 25169},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 779, col: 5, offset: 25167},
+																											pos:   position{line: 779, col: 5, offset: 25169},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 779, col: 16, offset: 25178},
+																												pos: position{line: 779, col: 16, offset: 25180},
 																												run: (*parser).callonListContinuationElement1866,
 																												expr: &seqExpr{
-																													pos: position{line: 779, col: 16, offset: 25178},
+																													pos: position{line: 779, col: 16, offset: 25180},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 779, col: 16, offset: 25178},
+																															pos:        position{line: 779, col: 16, offset: 25180},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 779, col: 22, offset: 25184},
+																															pos: position{line: 779, col: 22, offset: 25186},
 																															expr: &litMatcher{
-																																pos:        position{line: 779, col: 22, offset: 25184},
+																																pos:        position{line: 779, col: 22, offset: 25186},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -39222,12 +39222,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 781, col: 8, offset: 25268},
+																											pos: position{line: 781, col: 8, offset: 25270},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93180},
+																												pos: position{line: 2944, col: 10, offset: 93182},
 																												run: (*parser).callonListContinuationElement1872,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93180},
+																													pos:        position{line: 2944, col: 10, offset: 93182},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39236,28 +39236,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93578},
+																											pos: position{line: 2966, col: 8, offset: 93580},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93351},
+																													pos: position{line: 2953, col: 12, offset: 93353},
 																													run: (*parser).callonListContinuationElement1875,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93352},
+																														pos: position{line: 2953, col: 13, offset: 93354},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93352},
+																																pos:        position{line: 2953, col: 13, offset: 93354},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93359},
+																																pos:        position{line: 2953, col: 20, offset: 93361},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93368},
+																																pos:        position{line: 2953, col: 29, offset: 93370},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39266,9 +39266,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93528},
+																													pos: position{line: 2963, col: 8, offset: 93530},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93529,
+																														line: 2963, col: 9, offset: 93531,
 																													},
 																												},
 																											},
@@ -39277,30 +39277,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 794, col: 5, offset: 25704},
+																								pos: position{line: 794, col: 5, offset: 25706},
 																								run: (*parser).callonListContinuationElement1882,
 																								expr: &seqExpr{
-																									pos: position{line: 794, col: 5, offset: 25704},
+																									pos: position{line: 794, col: 5, offset: 25706},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 794, col: 5, offset: 25704},
+																											pos:   position{line: 794, col: 5, offset: 25706},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 794, col: 16, offset: 25715},
+																												pos: position{line: 794, col: 16, offset: 25717},
 																												run: (*parser).callonListContinuationElement1885,
 																												expr: &seqExpr{
-																													pos: position{line: 794, col: 16, offset: 25715},
+																													pos: position{line: 794, col: 16, offset: 25717},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 794, col: 16, offset: 25715},
+																															pos:        position{line: 794, col: 16, offset: 25717},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 794, col: 23, offset: 25722},
+																															pos: position{line: 794, col: 23, offset: 25724},
 																															expr: &litMatcher{
-																																pos:        position{line: 794, col: 23, offset: 25722},
+																																pos:        position{line: 794, col: 23, offset: 25724},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -39311,12 +39311,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 796, col: 8, offset: 25806},
+																											pos: position{line: 796, col: 8, offset: 25808},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93180},
+																												pos: position{line: 2944, col: 10, offset: 93182},
 																												run: (*parser).callonListContinuationElement1891,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93180},
+																													pos:        position{line: 2944, col: 10, offset: 93182},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39325,28 +39325,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93578},
+																											pos: position{line: 2966, col: 8, offset: 93580},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93351},
+																													pos: position{line: 2953, col: 12, offset: 93353},
 																													run: (*parser).callonListContinuationElement1894,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93352},
+																														pos: position{line: 2953, col: 13, offset: 93354},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93352},
+																																pos:        position{line: 2953, col: 13, offset: 93354},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93359},
+																																pos:        position{line: 2953, col: 20, offset: 93361},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93368},
+																																pos:        position{line: 2953, col: 29, offset: 93370},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39355,9 +39355,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93528},
+																													pos: position{line: 2963, col: 8, offset: 93530},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93529,
+																														line: 2963, col: 9, offset: 93531,
 																													},
 																												},
 																											},
@@ -39366,30 +39366,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 808, col: 5, offset: 26180},
+																								pos: position{line: 808, col: 5, offset: 26182},
 																								run: (*parser).callonListContinuationElement1901,
 																								expr: &seqExpr{
-																									pos: position{line: 808, col: 5, offset: 26180},
+																									pos: position{line: 808, col: 5, offset: 26182},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 808, col: 5, offset: 26180},
+																											pos:   position{line: 808, col: 5, offset: 26182},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 808, col: 16, offset: 26191},
+																												pos: position{line: 808, col: 16, offset: 26193},
 																												run: (*parser).callonListContinuationElement1904,
 																												expr: &seqExpr{
-																													pos: position{line: 808, col: 16, offset: 26191},
+																													pos: position{line: 808, col: 16, offset: 26193},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 808, col: 16, offset: 26191},
+																															pos:        position{line: 808, col: 16, offset: 26193},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 808, col: 23, offset: 26198},
+																															pos: position{line: 808, col: 23, offset: 26200},
 																															expr: &litMatcher{
-																																pos:        position{line: 808, col: 23, offset: 26198},
+																																pos:        position{line: 808, col: 23, offset: 26200},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -39400,12 +39400,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 810, col: 8, offset: 26282},
+																											pos: position{line: 810, col: 8, offset: 26284},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93180},
+																												pos: position{line: 2944, col: 10, offset: 93182},
 																												run: (*parser).callonListContinuationElement1910,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93180},
+																													pos:        position{line: 2944, col: 10, offset: 93182},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39414,28 +39414,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93578},
+																											pos: position{line: 2966, col: 8, offset: 93580},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93351},
+																													pos: position{line: 2953, col: 12, offset: 93353},
 																													run: (*parser).callonListContinuationElement1913,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93352},
+																														pos: position{line: 2953, col: 13, offset: 93354},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93352},
+																																pos:        position{line: 2953, col: 13, offset: 93354},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93359},
+																																pos:        position{line: 2953, col: 20, offset: 93361},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93368},
+																																pos:        position{line: 2953, col: 29, offset: 93370},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39444,9 +39444,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93528},
+																													pos: position{line: 2963, col: 8, offset: 93530},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93529,
+																														line: 2963, col: 9, offset: 93531,
 																													},
 																												},
 																											},
@@ -39455,30 +39455,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 815, col: 5, offset: 26432},
+																								pos: position{line: 815, col: 5, offset: 26434},
 																								run: (*parser).callonListContinuationElement1920,
 																								expr: &seqExpr{
-																									pos: position{line: 815, col: 5, offset: 26432},
+																									pos: position{line: 815, col: 5, offset: 26434},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 815, col: 5, offset: 26432},
+																											pos:   position{line: 815, col: 5, offset: 26434},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 815, col: 16, offset: 26443},
+																												pos: position{line: 815, col: 16, offset: 26445},
 																												run: (*parser).callonListContinuationElement1923,
 																												expr: &seqExpr{
-																													pos: position{line: 815, col: 16, offset: 26443},
+																													pos: position{line: 815, col: 16, offset: 26445},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 815, col: 16, offset: 26443},
+																															pos:        position{line: 815, col: 16, offset: 26445},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 815, col: 23, offset: 26450},
+																															pos: position{line: 815, col: 23, offset: 26452},
 																															expr: &litMatcher{
-																																pos:        position{line: 815, col: 23, offset: 26450},
+																																pos:        position{line: 815, col: 23, offset: 26452},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -39489,12 +39489,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 817, col: 8, offset: 26534},
+																											pos: position{line: 817, col: 8, offset: 26536},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93180},
+																												pos: position{line: 2944, col: 10, offset: 93182},
 																												run: (*parser).callonListContinuationElement1929,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93180},
+																													pos:        position{line: 2944, col: 10, offset: 93182},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39503,28 +39503,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93578},
+																											pos: position{line: 2966, col: 8, offset: 93580},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93351},
+																													pos: position{line: 2953, col: 12, offset: 93353},
 																													run: (*parser).callonListContinuationElement1932,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93352},
+																														pos: position{line: 2953, col: 13, offset: 93354},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93352},
+																																pos:        position{line: 2953, col: 13, offset: 93354},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93359},
+																																pos:        position{line: 2953, col: 20, offset: 93361},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93368},
+																																pos:        position{line: 2953, col: 29, offset: 93370},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39533,9 +39533,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93528},
+																													pos: position{line: 2963, col: 8, offset: 93530},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93529,
+																														line: 2963, col: 9, offset: 93531,
 																													},
 																												},
 																											},
@@ -39544,30 +39544,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 822, col: 5, offset: 26682},
+																								pos: position{line: 822, col: 5, offset: 26684},
 																								run: (*parser).callonListContinuationElement1939,
 																								expr: &seqExpr{
-																									pos: position{line: 822, col: 5, offset: 26682},
+																									pos: position{line: 822, col: 5, offset: 26684},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 822, col: 5, offset: 26682},
+																											pos:   position{line: 822, col: 5, offset: 26684},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 822, col: 16, offset: 26693},
+																												pos: position{line: 822, col: 16, offset: 26695},
 																												run: (*parser).callonListContinuationElement1942,
 																												expr: &seqExpr{
-																													pos: position{line: 822, col: 16, offset: 26693},
+																													pos: position{line: 822, col: 16, offset: 26695},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 822, col: 16, offset: 26693},
+																															pos:        position{line: 822, col: 16, offset: 26695},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 822, col: 23, offset: 26700},
+																															pos: position{line: 822, col: 23, offset: 26702},
 																															expr: &litMatcher{
-																																pos:        position{line: 822, col: 23, offset: 26700},
+																																pos:        position{line: 822, col: 23, offset: 26702},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -39578,12 +39578,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 824, col: 8, offset: 26784},
+																											pos: position{line: 824, col: 8, offset: 26786},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93180},
+																												pos: position{line: 2944, col: 10, offset: 93182},
 																												run: (*parser).callonListContinuationElement1948,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93180},
+																													pos:        position{line: 2944, col: 10, offset: 93182},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39592,28 +39592,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93578},
+																											pos: position{line: 2966, col: 8, offset: 93580},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93351},
+																													pos: position{line: 2953, col: 12, offset: 93353},
 																													run: (*parser).callonListContinuationElement1951,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93352},
+																														pos: position{line: 2953, col: 13, offset: 93354},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93352},
+																																pos:        position{line: 2953, col: 13, offset: 93354},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93359},
+																																pos:        position{line: 2953, col: 20, offset: 93361},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93368},
+																																pos:        position{line: 2953, col: 29, offset: 93370},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39622,9 +39622,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93528},
+																													pos: position{line: 2963, col: 8, offset: 93530},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93529,
+																														line: 2963, col: 9, offset: 93531,
 																													},
 																												},
 																											},
@@ -39633,30 +39633,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 829, col: 5, offset: 26928},
+																								pos: position{line: 829, col: 5, offset: 26930},
 																								run: (*parser).callonListContinuationElement1958,
 																								expr: &seqExpr{
-																									pos: position{line: 829, col: 5, offset: 26928},
+																									pos: position{line: 829, col: 5, offset: 26930},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 829, col: 5, offset: 26928},
+																											pos:   position{line: 829, col: 5, offset: 26930},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 829, col: 16, offset: 26939},
+																												pos: position{line: 829, col: 16, offset: 26941},
 																												run: (*parser).callonListContinuationElement1961,
 																												expr: &seqExpr{
-																													pos: position{line: 829, col: 16, offset: 26939},
+																													pos: position{line: 829, col: 16, offset: 26941},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 829, col: 16, offset: 26939},
+																															pos:        position{line: 829, col: 16, offset: 26941},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 829, col: 23, offset: 26946},
+																															pos: position{line: 829, col: 23, offset: 26948},
 																															expr: &litMatcher{
-																																pos:        position{line: 829, col: 23, offset: 26946},
+																																pos:        position{line: 829, col: 23, offset: 26948},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -39667,12 +39667,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 831, col: 8, offset: 27030},
+																											pos: position{line: 831, col: 8, offset: 27032},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93180},
+																												pos: position{line: 2944, col: 10, offset: 93182},
 																												run: (*parser).callonListContinuationElement1967,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93180},
+																													pos:        position{line: 2944, col: 10, offset: 93182},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39681,28 +39681,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93578},
+																											pos: position{line: 2966, col: 8, offset: 93580},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93351},
+																													pos: position{line: 2953, col: 12, offset: 93353},
 																													run: (*parser).callonListContinuationElement1970,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93352},
+																														pos: position{line: 2953, col: 13, offset: 93354},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93352},
+																																pos:        position{line: 2953, col: 13, offset: 93354},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93359},
+																																pos:        position{line: 2953, col: 20, offset: 93361},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93368},
+																																pos:        position{line: 2953, col: 29, offset: 93370},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39711,9 +39711,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93528},
+																													pos: position{line: 2963, col: 8, offset: 93530},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93529,
+																														line: 2963, col: 9, offset: 93531,
 																													},
 																												},
 																											},
@@ -39729,15 +39729,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1542, col: 5, offset: 50303},
+																	pos:   position{line: 1542, col: 5, offset: 50305},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2894, col: 14, offset: 91773},
+																		pos: position{line: 2894, col: 14, offset: 91775},
 																		run: (*parser).callonListContinuationElement1978,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2894, col: 14, offset: 91773},
+																			pos: position{line: 2894, col: 14, offset: 91775},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2894, col: 14, offset: 91773},
+																				pos:        position{line: 2894, col: 14, offset: 91775},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -39747,28 +39747,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93578},
+																	pos: position{line: 2966, col: 8, offset: 93580},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93351},
+																			pos: position{line: 2953, col: 12, offset: 93353},
 																			run: (*parser).callonListContinuationElement1982,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93352},
+																				pos: position{line: 2953, col: 13, offset: 93354},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93352},
+																						pos:        position{line: 2953, col: 13, offset: 93354},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93359},
+																						pos:        position{line: 2953, col: 20, offset: 93361},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93368},
+																						pos:        position{line: 2953, col: 29, offset: 93370},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -39777,9 +39777,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93528},
+																			pos: position{line: 2963, col: 8, offset: 93530},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93529,
+																				line: 2963, col: 9, offset: 93531,
 																			},
 																		},
 																	},
@@ -39800,33 +39800,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1732, col: 1, offset: 56209},
+			pos:  position{line: 1732, col: 1, offset: 56211},
 			expr: &actionExpr{
-				pos: position{line: 1734, col: 5, offset: 56287},
+				pos: position{line: 1734, col: 5, offset: 56289},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1734, col: 5, offset: 56287},
+					pos: position{line: 1734, col: 5, offset: 56289},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1734, col: 5, offset: 56287},
+							pos: position{line: 1734, col: 5, offset: 56289},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1737, col: 5, offset: 56354},
+							pos:        position{line: 1737, col: 5, offset: 56356},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1737, col: 9, offset: 56358},
+							pos:   position{line: 1737, col: 9, offset: 56360},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1737, col: 14, offset: 56363},
+								pos: position{line: 1737, col: 14, offset: 56365},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1737, col: 14, offset: 56363},
+									pos: position{line: 1737, col: 14, offset: 56365},
 									expr: &charClassMatcher{
-										pos:        position{line: 1737, col: 14, offset: 56363},
+										pos:        position{line: 1737, col: 14, offset: 56365},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -39836,18 +39836,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1737, col: 62, offset: 56411},
+							pos:        position{line: 1737, col: 62, offset: 56413},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1737, col: 66, offset: 56415},
+							pos: position{line: 1737, col: 66, offset: 56417},
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 10, offset: 93180},
+								pos: position{line: 2944, col: 10, offset: 93182},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2944, col: 10, offset: 93180},
+									pos:        position{line: 2944, col: 10, offset: 93182},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -39856,30 +39856,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1737, col: 73, offset: 56422},
+							pos: position{line: 1737, col: 73, offset: 56424},
 							expr: &choiceExpr{
-								pos: position{line: 1737, col: 75, offset: 56424},
+								pos: position{line: 1737, col: 75, offset: 56426},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2953, col: 12, offset: 93351},
+										pos: position{line: 2953, col: 12, offset: 93353},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2953, col: 13, offset: 93352},
+											pos: position{line: 2953, col: 13, offset: 93354},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2953, col: 13, offset: 93352},
+													pos:        position{line: 2953, col: 13, offset: 93354},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2953, col: 20, offset: 93359},
+													pos:        position{line: 2953, col: 20, offset: 93361},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2953, col: 29, offset: 93368},
+													pos:        position{line: 2953, col: 29, offset: 93370},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -39888,13 +39888,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2963, col: 8, offset: 93528},
+										pos: position{line: 2963, col: 8, offset: 93530},
 										expr: &anyMatcher{
-											line: 2963, col: 9, offset: 93529,
+											line: 2963, col: 9, offset: 93531,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1737, col: 81, offset: 56430},
+										pos:  position{line: 1737, col: 81, offset: 56432},
 										name: "Callout",
 									},
 								},
@@ -39906,44 +39906,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1776, col: 1, offset: 57603},
+			pos:  position{line: 1776, col: 1, offset: 57605},
 			expr: &actionExpr{
-				pos: position{line: 1778, col: 5, offset: 57677},
+				pos: position{line: 1778, col: 5, offset: 57679},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1778, col: 5, offset: 57677},
+					pos: position{line: 1778, col: 5, offset: 57679},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1778, col: 5, offset: 57677},
+							pos: position{line: 1778, col: 5, offset: 57679},
 							expr: &seqExpr{
-								pos: position{line: 1778, col: 7, offset: 57679},
+								pos: position{line: 1778, col: 7, offset: 57681},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2834, col: 13, offset: 90275},
+										pos:        position{line: 2834, col: 13, offset: 90277},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1778, col: 16, offset: 57688},
+										pos: position{line: 1778, col: 16, offset: 57690},
 										expr: &seqExpr{
-											pos: position{line: 1778, col: 18, offset: 57690},
+											pos: position{line: 1778, col: 18, offset: 57692},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1778, col: 19, offset: 57691},
+													pos:        position{line: 1778, col: 19, offset: 57693},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2948, col: 11, offset: 93241},
+													pos: position{line: 2948, col: 11, offset: 93243},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2948, col: 11, offset: 93241},
+														pos: position{line: 2948, col: 11, offset: 93243},
 														expr: &charClassMatcher{
-															pos:        position{line: 2948, col: 11, offset: 93241},
+															pos:        position{line: 2948, col: 11, offset: 93243},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -39958,88 +39958,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1779, col: 5, offset: 57831},
+							pos:   position{line: 1779, col: 5, offset: 57833},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1779, col: 11, offset: 57837},
+								pos: position{line: 1779, col: 11, offset: 57839},
 								expr: &actionExpr{
-									pos: position{line: 1757, col: 5, offset: 57100},
+									pos: position{line: 1757, col: 5, offset: 57102},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1757, col: 5, offset: 57100},
+										pos: position{line: 1757, col: 5, offset: 57102},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1757, col: 5, offset: 57100},
+												pos: position{line: 1757, col: 5, offset: 57102},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1760, col: 5, offset: 57163},
+												pos:   position{line: 1760, col: 5, offset: 57165},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1760, col: 12, offset: 57170},
+													pos: position{line: 1760, col: 12, offset: 57172},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1760, col: 12, offset: 57170},
+															pos: position{line: 1760, col: 12, offset: 57172},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1760, col: 12, offset: 57170},
+																pos:        position{line: 1760, col: 12, offset: 57172},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1762, col: 13, offset: 57226},
+															pos: position{line: 1762, col: 13, offset: 57228},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1762, col: 13, offset: 57226},
+																pos:        position{line: 1762, col: 13, offset: 57228},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1764, col: 13, offset: 57284},
+															pos: position{line: 1764, col: 13, offset: 57286},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1764, col: 13, offset: 57284},
+																pos:        position{line: 1764, col: 13, offset: 57286},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1766, col: 13, offset: 57352},
+															pos: position{line: 1766, col: 13, offset: 57354},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1766, col: 13, offset: 57352},
+																pos:        position{line: 1766, col: 13, offset: 57354},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1768, col: 13, offset: 57416},
+															pos: position{line: 1768, col: 13, offset: 57418},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1768, col: 13, offset: 57416},
+																pos:        position{line: 1768, col: 13, offset: 57418},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1770, col: 13, offset: 57480},
+															pos: position{line: 1770, col: 13, offset: 57482},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1770, col: 13, offset: 57480},
+																pos: position{line: 1770, col: 13, offset: 57482},
 																expr: &actionExpr{
-																	pos: position{line: 2948, col: 11, offset: 93241},
+																	pos: position{line: 2948, col: 11, offset: 93243},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2948, col: 11, offset: 93241},
+																		pos: position{line: 2948, col: 11, offset: 93243},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2948, col: 11, offset: 93241},
+																			pos:        position{line: 2948, col: 11, offset: 93243},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40058,24 +40058,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1780, col: 5, offset: 57859},
+							pos:   position{line: 1780, col: 5, offset: 57861},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1816, col: 5, offset: 58966},
+								pos: position{line: 1816, col: 5, offset: 58968},
 								run: (*parser).callonShortcutParagraph35,
 								expr: &seqExpr{
-									pos: position{line: 1816, col: 5, offset: 58966},
+									pos: position{line: 1816, col: 5, offset: 58968},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1816, col: 5, offset: 58966},
+											pos:   position{line: 1816, col: 5, offset: 58968},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2894, col: 14, offset: 91773},
+												pos: position{line: 2894, col: 14, offset: 91775},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2894, col: 14, offset: 91773},
+													pos: position{line: 2894, col: 14, offset: 91775},
 													expr: &charClassMatcher{
-														pos:        position{line: 2894, col: 14, offset: 91773},
+														pos:        position{line: 2894, col: 14, offset: 91775},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40085,32 +40085,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1817, col: 5, offset: 58990},
+											pos: position{line: 1817, col: 5, offset: 58992},
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2966, col: 8, offset: 93578},
+											pos: position{line: 2966, col: 8, offset: 93580},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2953, col: 12, offset: 93351},
+													pos: position{line: 2953, col: 12, offset: 93353},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2953, col: 13, offset: 93352},
+														pos: position{line: 2953, col: 13, offset: 93354},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2953, col: 13, offset: 93352},
+																pos:        position{line: 2953, col: 13, offset: 93354},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2953, col: 20, offset: 93359},
+																pos:        position{line: 2953, col: 20, offset: 93361},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2953, col: 29, offset: 93368},
+																pos:        position{line: 2953, col: 29, offset: 93370},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40119,9 +40119,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2963, col: 8, offset: 93528},
+													pos: position{line: 2963, col: 8, offset: 93530},
 													expr: &anyMatcher{
-														line: 2963, col: 9, offset: 93529,
+														line: 2963, col: 9, offset: 93531,
 													},
 												},
 											},
@@ -40131,47 +40131,47 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1781, col: 5, offset: 57893},
+							pos: position{line: 1781, col: 5, offset: 57895},
 							run: (*parser).callonShortcutParagraph50,
 						},
 						&labeledExpr{
-							pos:   position{line: 1788, col: 5, offset: 58223},
+							pos:   position{line: 1788, col: 5, offset: 58225},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1788, col: 16, offset: 58234},
+								pos: position{line: 1788, col: 16, offset: 58236},
 								expr: &actionExpr{
-									pos: position{line: 1789, col: 9, offset: 58244},
+									pos: position{line: 1789, col: 9, offset: 58246},
 									run: (*parser).callonShortcutParagraph53,
 									expr: &seqExpr{
-										pos: position{line: 1789, col: 9, offset: 58244},
+										pos: position{line: 1789, col: 9, offset: 58246},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2961, col: 11, offset: 93514},
+												pos: position{line: 2961, col: 11, offset: 93516},
 												expr: &anyMatcher{
-													line: 2961, col: 13, offset: 93516,
+													line: 2961, col: 13, offset: 93518,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1790, col: 9, offset: 58260},
+												pos: position{line: 1790, col: 9, offset: 58262},
 												expr: &actionExpr{
-													pos: position{line: 702, col: 14, offset: 22577},
+													pos: position{line: 702, col: 14, offset: 22579},
 													run: (*parser).callonShortcutParagraph58,
 													expr: &seqExpr{
-														pos: position{line: 702, col: 14, offset: 22577},
+														pos: position{line: 702, col: 14, offset: 22579},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2961, col: 11, offset: 93514},
+																pos: position{line: 2961, col: 11, offset: 93516},
 																expr: &anyMatcher{
-																	line: 2961, col: 13, offset: 93516,
+																	line: 2961, col: 13, offset: 93518,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 702, col: 21, offset: 22584},
+																pos: position{line: 702, col: 21, offset: 22586},
 																expr: &actionExpr{
-																	pos: position{line: 2944, col: 10, offset: 93180},
+																	pos: position{line: 2944, col: 10, offset: 93182},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2944, col: 10, offset: 93180},
+																		pos:        position{line: 2944, col: 10, offset: 93182},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40180,28 +40180,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2966, col: 8, offset: 93578},
+																pos: position{line: 2966, col: 8, offset: 93580},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2953, col: 12, offset: 93351},
+																		pos: position{line: 2953, col: 12, offset: 93353},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2953, col: 13, offset: 93352},
+																			pos: position{line: 2953, col: 13, offset: 93354},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 13, offset: 93352},
+																					pos:        position{line: 2953, col: 13, offset: 93354},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 20, offset: 93359},
+																					pos:        position{line: 2953, col: 20, offset: 93361},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 29, offset: 93368},
+																					pos:        position{line: 2953, col: 29, offset: 93370},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40210,9 +40210,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93528},
+																		pos: position{line: 2963, col: 8, offset: 93530},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93529,
+																			line: 2963, col: 9, offset: 93531,
 																		},
 																	},
 																},
@@ -40222,24 +40222,24 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1791, col: 9, offset: 58279},
+												pos: position{line: 1791, col: 9, offset: 58281},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1791, col: 10, offset: 58280},
+													pos:  position{line: 1791, col: 10, offset: 58282},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1792, col: 9, offset: 58304},
+												pos: position{line: 1792, col: 9, offset: 58306},
 												expr: &actionExpr{
-													pos: position{line: 749, col: 5, offset: 24130},
+													pos: position{line: 749, col: 5, offset: 24132},
 													run: (*parser).callonShortcutParagraph76,
 													expr: &seqExpr{
-														pos: position{line: 749, col: 5, offset: 24130},
+														pos: position{line: 749, col: 5, offset: 24132},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 749, col: 5, offset: 24130},
+																pos: position{line: 749, col: 5, offset: 24132},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2834, col: 13, offset: 90275},
+																	pos:        position{line: 2834, col: 13, offset: 90277},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -40247,36 +40247,36 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 750, col: 5, offset: 24160},
+																pos:   position{line: 750, col: 5, offset: 24162},
 																label: "delimiter",
 																expr: &choiceExpr{
-																	pos: position{line: 751, col: 9, offset: 24180},
+																	pos: position{line: 751, col: 9, offset: 24182},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 765, col: 5, offset: 24672},
+																			pos: position{line: 765, col: 5, offset: 24674},
 																			run: (*parser).callonShortcutParagraph82,
 																			expr: &seqExpr{
-																				pos: position{line: 765, col: 5, offset: 24672},
+																				pos: position{line: 765, col: 5, offset: 24674},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 765, col: 5, offset: 24672},
+																						pos:   position{line: 765, col: 5, offset: 24674},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 765, col: 16, offset: 24683},
+																							pos: position{line: 765, col: 16, offset: 24685},
 																							run: (*parser).callonShortcutParagraph85,
 																							expr: &seqExpr{
-																								pos: position{line: 765, col: 16, offset: 24683},
+																								pos: position{line: 765, col: 16, offset: 24685},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 765, col: 16, offset: 24683},
+																										pos:        position{line: 765, col: 16, offset: 24685},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 765, col: 23, offset: 24690},
+																										pos: position{line: 765, col: 23, offset: 24692},
 																										expr: &litMatcher{
-																											pos:        position{line: 765, col: 23, offset: 24690},
+																											pos:        position{line: 765, col: 23, offset: 24692},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -40287,12 +40287,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 767, col: 8, offset: 24774},
+																						pos: position{line: 767, col: 8, offset: 24776},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93180},
+																							pos: position{line: 2944, col: 10, offset: 93182},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93180},
+																								pos:        position{line: 2944, col: 10, offset: 93182},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40301,28 +40301,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93578},
+																						pos: position{line: 2966, col: 8, offset: 93580},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93351},
+																								pos: position{line: 2953, col: 12, offset: 93353},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93352},
+																									pos: position{line: 2953, col: 13, offset: 93354},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93352},
+																											pos:        position{line: 2953, col: 13, offset: 93354},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93359},
+																											pos:        position{line: 2953, col: 20, offset: 93361},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93368},
+																											pos:        position{line: 2953, col: 29, offset: 93370},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40331,9 +40331,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93528},
+																								pos: position{line: 2963, col: 8, offset: 93530},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93529,
+																									line: 2963, col: 9, offset: 93531,
 																								},
 																							},
 																						},
@@ -40342,30 +40342,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 772, col: 5, offset: 24920},
+																			pos: position{line: 772, col: 5, offset: 24922},
 																			run: (*parser).callonShortcutParagraph101,
 																			expr: &seqExpr{
-																				pos: position{line: 772, col: 5, offset: 24920},
+																				pos: position{line: 772, col: 5, offset: 24922},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 772, col: 5, offset: 24920},
+																						pos:   position{line: 772, col: 5, offset: 24922},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 772, col: 16, offset: 24931},
+																							pos: position{line: 772, col: 16, offset: 24933},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &seqExpr{
-																								pos: position{line: 772, col: 16, offset: 24931},
+																								pos: position{line: 772, col: 16, offset: 24933},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 772, col: 16, offset: 24931},
+																										pos:        position{line: 772, col: 16, offset: 24933},
 																										val:        "====",
 																										ignoreCase: false,
 																										want:       "\"====\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 772, col: 23, offset: 24938},
+																										pos: position{line: 772, col: 23, offset: 24940},
 																										expr: &litMatcher{
-																											pos:        position{line: 772, col: 23, offset: 24938},
+																											pos:        position{line: 772, col: 23, offset: 24940},
 																											val:        "=",
 																											ignoreCase: false,
 																											want:       "\"=\"",
@@ -40376,12 +40376,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 774, col: 8, offset: 25022},
+																						pos: position{line: 774, col: 8, offset: 25024},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93180},
+																							pos: position{line: 2944, col: 10, offset: 93182},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93180},
+																								pos:        position{line: 2944, col: 10, offset: 93182},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40390,28 +40390,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93578},
+																						pos: position{line: 2966, col: 8, offset: 93580},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93351},
+																								pos: position{line: 2953, col: 12, offset: 93353},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93352},
+																									pos: position{line: 2953, col: 13, offset: 93354},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93352},
+																											pos:        position{line: 2953, col: 13, offset: 93354},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93359},
+																											pos:        position{line: 2953, col: 20, offset: 93361},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93368},
+																											pos:        position{line: 2953, col: 29, offset: 93370},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40420,9 +40420,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93528},
+																								pos: position{line: 2963, col: 8, offset: 93530},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93529,
+																									line: 2963, col: 9, offset: 93531,
 																								},
 																							},
 																						},
@@ -40431,27 +40431,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 785, col: 26, offset: 25408},
+																			pos: position{line: 785, col: 26, offset: 25410},
 																			run: (*parser).callonShortcutParagraph120,
 																			expr: &seqExpr{
-																				pos: position{line: 785, col: 26, offset: 25408},
+																				pos: position{line: 785, col: 26, offset: 25410},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 785, col: 26, offset: 25408},
+																						pos:        position{line: 785, col: 26, offset: 25410},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 785, col: 32, offset: 25414},
+																						pos:   position{line: 785, col: 32, offset: 25416},
 																						label: "language",
 																						expr: &actionExpr{
-																							pos: position{line: 789, col: 13, offset: 25544},
+																							pos: position{line: 789, col: 13, offset: 25546},
 																							run: (*parser).callonShortcutParagraph124,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 789, col: 14, offset: 25545},
+																								pos: position{line: 789, col: 14, offset: 25547},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 789, col: 14, offset: 25545},
+																									pos:        position{line: 789, col: 14, offset: 25547},
 																									val:        "[^\\r\\n` ]",
 																									chars:      []rune{'\r', '\n', '`', ' '},
 																									ignoreCase: false,
@@ -40461,12 +40461,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 785, col: 52, offset: 25434},
+																						pos: position{line: 785, col: 52, offset: 25436},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93180},
+																							pos: position{line: 2944, col: 10, offset: 93182},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93180},
+																								pos:        position{line: 2944, col: 10, offset: 93182},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40475,28 +40475,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93578},
+																						pos: position{line: 2966, col: 8, offset: 93580},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93351},
+																								pos: position{line: 2953, col: 12, offset: 93353},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93352},
+																									pos: position{line: 2953, col: 13, offset: 93354},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93352},
+																											pos:        position{line: 2953, col: 13, offset: 93354},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93359},
+																											pos:        position{line: 2953, col: 20, offset: 93361},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93368},
+																											pos:        position{line: 2953, col: 29, offset: 93370},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40505,9 +40505,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93528},
+																								pos: position{line: 2963, col: 8, offset: 93530},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93529,
+																									line: 2963, col: 9, offset: 93531,
 																								},
 																							},
 																						},
@@ -40516,30 +40516,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 779, col: 5, offset: 25167},
+																			pos: position{line: 779, col: 5, offset: 25169},
 																			run: (*parser).callonShortcutParagraph138,
 																			expr: &seqExpr{
-																				pos: position{line: 779, col: 5, offset: 25167},
+																				pos: position{line: 779, col: 5, offset: 25169},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 779, col: 5, offset: 25167},
+																						pos:   position{line: 779, col: 5, offset: 25169},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 779, col: 16, offset: 25178},
+																							pos: position{line: 779, col: 16, offset: 25180},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &seqExpr{
-																								pos: position{line: 779, col: 16, offset: 25178},
+																								pos: position{line: 779, col: 16, offset: 25180},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 779, col: 16, offset: 25178},
+																										pos:        position{line: 779, col: 16, offset: 25180},
 																										val:        "```",
 																										ignoreCase: false,
 																										want:       "\"```\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 779, col: 22, offset: 25184},
+																										pos: position{line: 779, col: 22, offset: 25186},
 																										expr: &litMatcher{
-																											pos:        position{line: 779, col: 22, offset: 25184},
+																											pos:        position{line: 779, col: 22, offset: 25186},
 																											val:        "`",
 																											ignoreCase: false,
 																											want:       "\"`\"",
@@ -40550,12 +40550,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 781, col: 8, offset: 25268},
+																						pos: position{line: 781, col: 8, offset: 25270},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93180},
+																							pos: position{line: 2944, col: 10, offset: 93182},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93180},
+																								pos:        position{line: 2944, col: 10, offset: 93182},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40564,28 +40564,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93578},
+																						pos: position{line: 2966, col: 8, offset: 93580},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93351},
+																								pos: position{line: 2953, col: 12, offset: 93353},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93352},
+																									pos: position{line: 2953, col: 13, offset: 93354},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93352},
+																											pos:        position{line: 2953, col: 13, offset: 93354},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93359},
+																											pos:        position{line: 2953, col: 20, offset: 93361},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93368},
+																											pos:        position{line: 2953, col: 29, offset: 93370},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40594,9 +40594,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93528},
+																								pos: position{line: 2963, col: 8, offset: 93530},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93529,
+																									line: 2963, col: 9, offset: 93531,
 																								},
 																							},
 																						},
@@ -40605,30 +40605,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 794, col: 5, offset: 25704},
+																			pos: position{line: 794, col: 5, offset: 25706},
 																			run: (*parser).callonShortcutParagraph157,
 																			expr: &seqExpr{
-																				pos: position{line: 794, col: 5, offset: 25704},
+																				pos: position{line: 794, col: 5, offset: 25706},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 794, col: 5, offset: 25704},
+																						pos:   position{line: 794, col: 5, offset: 25706},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 794, col: 16, offset: 25715},
+																							pos: position{line: 794, col: 16, offset: 25717},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &seqExpr{
-																								pos: position{line: 794, col: 16, offset: 25715},
+																								pos: position{line: 794, col: 16, offset: 25717},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 794, col: 16, offset: 25715},
+																										pos:        position{line: 794, col: 16, offset: 25717},
 																										val:        "----",
 																										ignoreCase: false,
 																										want:       "\"----\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 794, col: 23, offset: 25722},
+																										pos: position{line: 794, col: 23, offset: 25724},
 																										expr: &litMatcher{
-																											pos:        position{line: 794, col: 23, offset: 25722},
+																											pos:        position{line: 794, col: 23, offset: 25724},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
@@ -40639,12 +40639,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 796, col: 8, offset: 25806},
+																						pos: position{line: 796, col: 8, offset: 25808},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93180},
+																							pos: position{line: 2944, col: 10, offset: 93182},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93180},
+																								pos:        position{line: 2944, col: 10, offset: 93182},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40653,28 +40653,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93578},
+																						pos: position{line: 2966, col: 8, offset: 93580},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93351},
+																								pos: position{line: 2953, col: 12, offset: 93353},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93352},
+																									pos: position{line: 2953, col: 13, offset: 93354},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93352},
+																											pos:        position{line: 2953, col: 13, offset: 93354},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93359},
+																											pos:        position{line: 2953, col: 20, offset: 93361},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93368},
+																											pos:        position{line: 2953, col: 29, offset: 93370},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40683,9 +40683,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93528},
+																								pos: position{line: 2963, col: 8, offset: 93530},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93529,
+																									line: 2963, col: 9, offset: 93531,
 																								},
 																							},
 																						},
@@ -40694,30 +40694,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 808, col: 5, offset: 26180},
+																			pos: position{line: 808, col: 5, offset: 26182},
 																			run: (*parser).callonShortcutParagraph176,
 																			expr: &seqExpr{
-																				pos: position{line: 808, col: 5, offset: 26180},
+																				pos: position{line: 808, col: 5, offset: 26182},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 808, col: 5, offset: 26180},
+																						pos:   position{line: 808, col: 5, offset: 26182},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 808, col: 16, offset: 26191},
+																							pos: position{line: 808, col: 16, offset: 26193},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &seqExpr{
-																								pos: position{line: 808, col: 16, offset: 26191},
+																								pos: position{line: 808, col: 16, offset: 26193},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 808, col: 16, offset: 26191},
+																										pos:        position{line: 808, col: 16, offset: 26193},
 																										val:        "....",
 																										ignoreCase: false,
 																										want:       "\"....\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 808, col: 23, offset: 26198},
+																										pos: position{line: 808, col: 23, offset: 26200},
 																										expr: &litMatcher{
-																											pos:        position{line: 808, col: 23, offset: 26198},
+																											pos:        position{line: 808, col: 23, offset: 26200},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -40728,12 +40728,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 810, col: 8, offset: 26282},
+																						pos: position{line: 810, col: 8, offset: 26284},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93180},
+																							pos: position{line: 2944, col: 10, offset: 93182},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93180},
+																								pos:        position{line: 2944, col: 10, offset: 93182},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40742,28 +40742,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93578},
+																						pos: position{line: 2966, col: 8, offset: 93580},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93351},
+																								pos: position{line: 2953, col: 12, offset: 93353},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93352},
+																									pos: position{line: 2953, col: 13, offset: 93354},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93352},
+																											pos:        position{line: 2953, col: 13, offset: 93354},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93359},
+																											pos:        position{line: 2953, col: 20, offset: 93361},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93368},
+																											pos:        position{line: 2953, col: 29, offset: 93370},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40772,9 +40772,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93528},
+																								pos: position{line: 2963, col: 8, offset: 93530},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93529,
+																									line: 2963, col: 9, offset: 93531,
 																								},
 																							},
 																						},
@@ -40783,30 +40783,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 815, col: 5, offset: 26432},
+																			pos: position{line: 815, col: 5, offset: 26434},
 																			run: (*parser).callonShortcutParagraph195,
 																			expr: &seqExpr{
-																				pos: position{line: 815, col: 5, offset: 26432},
+																				pos: position{line: 815, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 815, col: 5, offset: 26432},
+																						pos:   position{line: 815, col: 5, offset: 26434},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 815, col: 16, offset: 26443},
+																							pos: position{line: 815, col: 16, offset: 26445},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &seqExpr{
-																								pos: position{line: 815, col: 16, offset: 26443},
+																								pos: position{line: 815, col: 16, offset: 26445},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 815, col: 16, offset: 26443},
+																										pos:        position{line: 815, col: 16, offset: 26445},
 																										val:        "++++",
 																										ignoreCase: false,
 																										want:       "\"++++\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 815, col: 23, offset: 26450},
+																										pos: position{line: 815, col: 23, offset: 26452},
 																										expr: &litMatcher{
-																											pos:        position{line: 815, col: 23, offset: 26450},
+																											pos:        position{line: 815, col: 23, offset: 26452},
 																											val:        "+",
 																											ignoreCase: false,
 																											want:       "\"+\"",
@@ -40817,12 +40817,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 817, col: 8, offset: 26534},
+																						pos: position{line: 817, col: 8, offset: 26536},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93180},
+																							pos: position{line: 2944, col: 10, offset: 93182},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93180},
+																								pos:        position{line: 2944, col: 10, offset: 93182},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40831,28 +40831,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93578},
+																						pos: position{line: 2966, col: 8, offset: 93580},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93351},
+																								pos: position{line: 2953, col: 12, offset: 93353},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93352},
+																									pos: position{line: 2953, col: 13, offset: 93354},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93352},
+																											pos:        position{line: 2953, col: 13, offset: 93354},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93359},
+																											pos:        position{line: 2953, col: 20, offset: 93361},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93368},
+																											pos:        position{line: 2953, col: 29, offset: 93370},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40861,9 +40861,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93528},
+																								pos: position{line: 2963, col: 8, offset: 93530},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93529,
+																									line: 2963, col: 9, offset: 93531,
 																								},
 																							},
 																						},
@@ -40872,30 +40872,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 822, col: 5, offset: 26682},
+																			pos: position{line: 822, col: 5, offset: 26684},
 																			run: (*parser).callonShortcutParagraph214,
 																			expr: &seqExpr{
-																				pos: position{line: 822, col: 5, offset: 26682},
+																				pos: position{line: 822, col: 5, offset: 26684},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 822, col: 5, offset: 26682},
+																						pos:   position{line: 822, col: 5, offset: 26684},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 822, col: 16, offset: 26693},
+																							pos: position{line: 822, col: 16, offset: 26695},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &seqExpr{
-																								pos: position{line: 822, col: 16, offset: 26693},
+																								pos: position{line: 822, col: 16, offset: 26695},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 822, col: 16, offset: 26693},
+																										pos:        position{line: 822, col: 16, offset: 26695},
 																										val:        "____",
 																										ignoreCase: false,
 																										want:       "\"____\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 822, col: 23, offset: 26700},
+																										pos: position{line: 822, col: 23, offset: 26702},
 																										expr: &litMatcher{
-																											pos:        position{line: 822, col: 23, offset: 26700},
+																											pos:        position{line: 822, col: 23, offset: 26702},
 																											val:        "_",
 																											ignoreCase: false,
 																											want:       "\"_\"",
@@ -40906,12 +40906,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 824, col: 8, offset: 26784},
+																						pos: position{line: 824, col: 8, offset: 26786},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93180},
+																							pos: position{line: 2944, col: 10, offset: 93182},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93180},
+																								pos:        position{line: 2944, col: 10, offset: 93182},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40920,28 +40920,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93578},
+																						pos: position{line: 2966, col: 8, offset: 93580},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93351},
+																								pos: position{line: 2953, col: 12, offset: 93353},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93352},
+																									pos: position{line: 2953, col: 13, offset: 93354},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93352},
+																											pos:        position{line: 2953, col: 13, offset: 93354},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93359},
+																											pos:        position{line: 2953, col: 20, offset: 93361},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93368},
+																											pos:        position{line: 2953, col: 29, offset: 93370},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40950,9 +40950,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93528},
+																								pos: position{line: 2963, col: 8, offset: 93530},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93529,
+																									line: 2963, col: 9, offset: 93531,
 																								},
 																							},
 																						},
@@ -40961,30 +40961,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 829, col: 5, offset: 26928},
+																			pos: position{line: 829, col: 5, offset: 26930},
 																			run: (*parser).callonShortcutParagraph233,
 																			expr: &seqExpr{
-																				pos: position{line: 829, col: 5, offset: 26928},
+																				pos: position{line: 829, col: 5, offset: 26930},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 829, col: 5, offset: 26928},
+																						pos:   position{line: 829, col: 5, offset: 26930},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 829, col: 16, offset: 26939},
+																							pos: position{line: 829, col: 16, offset: 26941},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &seqExpr{
-																								pos: position{line: 829, col: 16, offset: 26939},
+																								pos: position{line: 829, col: 16, offset: 26941},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 829, col: 16, offset: 26939},
+																										pos:        position{line: 829, col: 16, offset: 26941},
 																										val:        "****",
 																										ignoreCase: false,
 																										want:       "\"****\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 829, col: 23, offset: 26946},
+																										pos: position{line: 829, col: 23, offset: 26948},
 																										expr: &litMatcher{
-																											pos:        position{line: 829, col: 23, offset: 26946},
+																											pos:        position{line: 829, col: 23, offset: 26948},
 																											val:        "*",
 																											ignoreCase: false,
 																											want:       "\"*\"",
@@ -40995,12 +40995,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 831, col: 8, offset: 27030},
+																						pos: position{line: 831, col: 8, offset: 27032},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93180},
+																							pos: position{line: 2944, col: 10, offset: 93182},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93180},
+																								pos:        position{line: 2944, col: 10, offset: 93182},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -41009,28 +41009,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93578},
+																						pos: position{line: 2966, col: 8, offset: 93580},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93351},
+																								pos: position{line: 2953, col: 12, offset: 93353},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93352},
+																									pos: position{line: 2953, col: 13, offset: 93354},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93352},
+																											pos:        position{line: 2953, col: 13, offset: 93354},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93359},
+																											pos:        position{line: 2953, col: 20, offset: 93361},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93368},
+																											pos:        position{line: 2953, col: 29, offset: 93370},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -41039,9 +41039,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93528},
+																								pos: position{line: 2963, col: 8, offset: 93530},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93529,
+																									line: 2963, col: 9, offset: 93531,
 																								},
 																							},
 																						},
@@ -41057,23 +41057,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1793, col: 9, offset: 58328},
+												pos: position{line: 1793, col: 9, offset: 58330},
 												expr: &seqExpr{
-													pos: position{line: 1567, col: 27, offset: 50965},
+													pos: position{line: 1567, col: 27, offset: 50967},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1567, col: 27, offset: 50965},
+															pos:        position{line: 1567, col: 27, offset: 50967},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1567, col: 31, offset: 50969},
+															pos: position{line: 1567, col: 31, offset: 50971},
 															expr: &actionExpr{
-																pos: position{line: 2944, col: 10, offset: 93180},
+																pos: position{line: 2944, col: 10, offset: 93182},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2944, col: 10, offset: 93180},
+																	pos:        position{line: 2944, col: 10, offset: 93182},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -41082,25 +41082,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93351},
+															pos: position{line: 2953, col: 12, offset: 93353},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93352},
+																pos: position{line: 2953, col: 13, offset: 93354},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93352},
+																		pos:        position{line: 2953, col: 13, offset: 93354},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93359},
+																		pos:        position{line: 2953, col: 20, offset: 93361},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93368},
+																		pos:        position{line: 2953, col: 29, offset: 93370},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -41112,42 +41112,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1794, col: 9, offset: 58360},
+												pos:   position{line: 1794, col: 9, offset: 58362},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1794, col: 15, offset: 58366},
+													pos: position{line: 1794, col: 15, offset: 58368},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2538, col: 22, offset: 81740},
+															pos: position{line: 2538, col: 22, offset: 81742},
 															run: (*parser).callonShortcutParagraph265,
 															expr: &seqExpr{
-																pos: position{line: 2538, col: 22, offset: 81740},
+																pos: position{line: 2538, col: 22, offset: 81742},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2543, col: 31, offset: 81990},
+																		pos:        position{line: 2543, col: 31, offset: 81992},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2543, col: 36, offset: 81995},
+																		pos: position{line: 2543, col: 36, offset: 81997},
 																		expr: &litMatcher{
-																			pos:        position{line: 2543, col: 37, offset: 81996},
+																			pos:        position{line: 2543, col: 37, offset: 81998},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2538, col: 49, offset: 81767},
+																		pos:   position{line: 2538, col: 49, offset: 81769},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2890, col: 13, offset: 91706},
+																			pos: position{line: 2890, col: 13, offset: 91708},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2890, col: 13, offset: 91706},
+																				pos: position{line: 2890, col: 13, offset: 91708},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2890, col: 13, offset: 91706},
+																					pos:        position{line: 2890, col: 13, offset: 91708},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41157,28 +41157,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93578},
+																		pos: position{line: 2966, col: 8, offset: 93580},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41187,9 +41187,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93528},
+																				pos: position{line: 2963, col: 8, offset: 93530},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93529,
+																					line: 2963, col: 9, offset: 93531,
 																				},
 																			},
 																		},
@@ -41198,21 +41198,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1816, col: 5, offset: 58966},
+															pos: position{line: 1816, col: 5, offset: 58968},
 															run: (*parser).callonShortcutParagraph282,
 															expr: &seqExpr{
-																pos: position{line: 1816, col: 5, offset: 58966},
+																pos: position{line: 1816, col: 5, offset: 58968},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1816, col: 5, offset: 58966},
+																		pos:   position{line: 1816, col: 5, offset: 58968},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2894, col: 14, offset: 91773},
+																			pos: position{line: 2894, col: 14, offset: 91775},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2894, col: 14, offset: 91773},
+																				pos: position{line: 2894, col: 14, offset: 91775},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2894, col: 14, offset: 91773},
+																					pos:        position{line: 2894, col: 14, offset: 91775},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41222,32 +41222,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1817, col: 5, offset: 58990},
+																		pos: position{line: 1817, col: 5, offset: 58992},
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93578},
+																		pos: position{line: 2966, col: 8, offset: 93580},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41256,9 +41256,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93528},
+																				pos: position{line: 2963, col: 8, offset: 93530},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93529,
+																					line: 2963, col: 9, offset: 93531,
 																				},
 																			},
 																		},
@@ -41280,96 +41280,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1801, col: 1, offset: 58570},
+			pos:  position{line: 1801, col: 1, offset: 58572},
 			expr: &actionExpr{
-				pos: position{line: 1802, col: 5, offset: 58588},
+				pos: position{line: 1802, col: 5, offset: 58590},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1802, col: 5, offset: 58588},
+					pos: position{line: 1802, col: 5, offset: 58590},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1802, col: 5, offset: 58588},
+							pos:   position{line: 1802, col: 5, offset: 58590},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1802, col: 11, offset: 58594},
+								pos: position{line: 1802, col: 11, offset: 58596},
 								expr: &actionExpr{
-									pos: position{line: 1757, col: 5, offset: 57100},
+									pos: position{line: 1757, col: 5, offset: 57102},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1757, col: 5, offset: 57100},
+										pos: position{line: 1757, col: 5, offset: 57102},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1757, col: 5, offset: 57100},
+												pos: position{line: 1757, col: 5, offset: 57102},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1760, col: 5, offset: 57163},
+												pos:   position{line: 1760, col: 5, offset: 57165},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1760, col: 12, offset: 57170},
+													pos: position{line: 1760, col: 12, offset: 57172},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1760, col: 12, offset: 57170},
+															pos: position{line: 1760, col: 12, offset: 57172},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1760, col: 12, offset: 57170},
+																pos:        position{line: 1760, col: 12, offset: 57172},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1762, col: 13, offset: 57226},
+															pos: position{line: 1762, col: 13, offset: 57228},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1762, col: 13, offset: 57226},
+																pos:        position{line: 1762, col: 13, offset: 57228},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1764, col: 13, offset: 57284},
+															pos: position{line: 1764, col: 13, offset: 57286},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1764, col: 13, offset: 57284},
+																pos:        position{line: 1764, col: 13, offset: 57286},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1766, col: 13, offset: 57352},
+															pos: position{line: 1766, col: 13, offset: 57354},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1766, col: 13, offset: 57352},
+																pos:        position{line: 1766, col: 13, offset: 57354},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1768, col: 13, offset: 57416},
+															pos: position{line: 1768, col: 13, offset: 57418},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1768, col: 13, offset: 57416},
+																pos:        position{line: 1768, col: 13, offset: 57418},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1770, col: 13, offset: 57480},
+															pos: position{line: 1770, col: 13, offset: 57482},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1770, col: 13, offset: 57480},
+																pos: position{line: 1770, col: 13, offset: 57482},
 																expr: &actionExpr{
-																	pos: position{line: 2948, col: 11, offset: 93241},
+																	pos: position{line: 2948, col: 11, offset: 93243},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2948, col: 11, offset: 93241},
+																		pos: position{line: 2948, col: 11, offset: 93243},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2948, col: 11, offset: 93241},
+																			pos:        position{line: 2948, col: 11, offset: 93243},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41388,24 +41388,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1803, col: 5, offset: 58617},
+							pos:   position{line: 1803, col: 5, offset: 58619},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1816, col: 5, offset: 58966},
+								pos: position{line: 1816, col: 5, offset: 58968},
 								run: (*parser).callonParagraph26,
 								expr: &seqExpr{
-									pos: position{line: 1816, col: 5, offset: 58966},
+									pos: position{line: 1816, col: 5, offset: 58968},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1816, col: 5, offset: 58966},
+											pos:   position{line: 1816, col: 5, offset: 58968},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2894, col: 14, offset: 91773},
+												pos: position{line: 2894, col: 14, offset: 91775},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2894, col: 14, offset: 91773},
+													pos: position{line: 2894, col: 14, offset: 91775},
 													expr: &charClassMatcher{
-														pos:        position{line: 2894, col: 14, offset: 91773},
+														pos:        position{line: 2894, col: 14, offset: 91775},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -41415,32 +41415,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1817, col: 5, offset: 58990},
+											pos: position{line: 1817, col: 5, offset: 58992},
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2966, col: 8, offset: 93578},
+											pos: position{line: 2966, col: 8, offset: 93580},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2953, col: 12, offset: 93351},
+													pos: position{line: 2953, col: 12, offset: 93353},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2953, col: 13, offset: 93352},
+														pos: position{line: 2953, col: 13, offset: 93354},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2953, col: 13, offset: 93352},
+																pos:        position{line: 2953, col: 13, offset: 93354},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2953, col: 20, offset: 93359},
+																pos:        position{line: 2953, col: 20, offset: 93361},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2953, col: 29, offset: 93368},
+																pos:        position{line: 2953, col: 29, offset: 93370},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -41449,9 +41449,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2963, col: 8, offset: 93528},
+													pos: position{line: 2963, col: 8, offset: 93530},
 													expr: &anyMatcher{
-														line: 2963, col: 9, offset: 93529,
+														line: 2963, col: 9, offset: 93531,
 													},
 												},
 											},
@@ -41461,43 +41461,43 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1804, col: 5, offset: 58651},
+							pos:   position{line: 1804, col: 5, offset: 58653},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1804, col: 16, offset: 58662},
+								pos: position{line: 1804, col: 16, offset: 58664},
 								expr: &actionExpr{
-									pos: position{line: 1805, col: 9, offset: 58672},
+									pos: position{line: 1805, col: 9, offset: 58674},
 									run: (*parser).callonParagraph43,
 									expr: &seqExpr{
-										pos: position{line: 1805, col: 9, offset: 58672},
+										pos: position{line: 1805, col: 9, offset: 58674},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2961, col: 11, offset: 93514},
+												pos: position{line: 2961, col: 11, offset: 93516},
 												expr: &anyMatcher{
-													line: 2961, col: 13, offset: 93516,
+													line: 2961, col: 13, offset: 93518,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1806, col: 9, offset: 58687},
+												pos: position{line: 1806, col: 9, offset: 58689},
 												expr: &actionExpr{
-													pos: position{line: 702, col: 14, offset: 22577},
+													pos: position{line: 702, col: 14, offset: 22579},
 													run: (*parser).callonParagraph48,
 													expr: &seqExpr{
-														pos: position{line: 702, col: 14, offset: 22577},
+														pos: position{line: 702, col: 14, offset: 22579},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2961, col: 11, offset: 93514},
+																pos: position{line: 2961, col: 11, offset: 93516},
 																expr: &anyMatcher{
-																	line: 2961, col: 13, offset: 93516,
+																	line: 2961, col: 13, offset: 93518,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 702, col: 21, offset: 22584},
+																pos: position{line: 702, col: 21, offset: 22586},
 																expr: &actionExpr{
-																	pos: position{line: 2944, col: 10, offset: 93180},
+																	pos: position{line: 2944, col: 10, offset: 93182},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2944, col: 10, offset: 93180},
+																		pos:        position{line: 2944, col: 10, offset: 93182},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -41506,28 +41506,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2966, col: 8, offset: 93578},
+																pos: position{line: 2966, col: 8, offset: 93580},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2953, col: 12, offset: 93351},
+																		pos: position{line: 2953, col: 12, offset: 93353},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2953, col: 13, offset: 93352},
+																			pos: position{line: 2953, col: 13, offset: 93354},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 13, offset: 93352},
+																					pos:        position{line: 2953, col: 13, offset: 93354},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 20, offset: 93359},
+																					pos:        position{line: 2953, col: 20, offset: 93361},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 29, offset: 93368},
+																					pos:        position{line: 2953, col: 29, offset: 93370},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -41536,9 +41536,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93528},
+																		pos: position{line: 2963, col: 8, offset: 93530},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93529,
+																			line: 2963, col: 9, offset: 93531,
 																		},
 																	},
 																},
@@ -41548,49 +41548,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1807, col: 9, offset: 58706},
+												pos: position{line: 1807, col: 9, offset: 58708},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1807, col: 10, offset: 58707},
+													pos:  position{line: 1807, col: 10, offset: 58709},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1808, col: 9, offset: 58731},
+												pos:   position{line: 1808, col: 9, offset: 58733},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1808, col: 15, offset: 58737},
+													pos: position{line: 1808, col: 15, offset: 58739},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2538, col: 22, offset: 81740},
+															pos: position{line: 2538, col: 22, offset: 81742},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 2538, col: 22, offset: 81740},
+																pos: position{line: 2538, col: 22, offset: 81742},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2543, col: 31, offset: 81990},
+																		pos:        position{line: 2543, col: 31, offset: 81992},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2543, col: 36, offset: 81995},
+																		pos: position{line: 2543, col: 36, offset: 81997},
 																		expr: &litMatcher{
-																			pos:        position{line: 2543, col: 37, offset: 81996},
+																			pos:        position{line: 2543, col: 37, offset: 81998},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2538, col: 49, offset: 81767},
+																		pos:   position{line: 2538, col: 49, offset: 81769},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2890, col: 13, offset: 91706},
+																			pos: position{line: 2890, col: 13, offset: 91708},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2890, col: 13, offset: 91706},
+																				pos: position{line: 2890, col: 13, offset: 91708},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2890, col: 13, offset: 91706},
+																					pos:        position{line: 2890, col: 13, offset: 91708},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41600,28 +41600,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93578},
+																		pos: position{line: 2966, col: 8, offset: 93580},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41630,9 +41630,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93528},
+																				pos: position{line: 2963, col: 8, offset: 93530},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93529,
+																					line: 2963, col: 9, offset: 93531,
 																				},
 																			},
 																		},
@@ -41641,21 +41641,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1816, col: 5, offset: 58966},
+															pos: position{line: 1816, col: 5, offset: 58968},
 															run: (*parser).callonParagraph84,
 															expr: &seqExpr{
-																pos: position{line: 1816, col: 5, offset: 58966},
+																pos: position{line: 1816, col: 5, offset: 58968},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1816, col: 5, offset: 58966},
+																		pos:   position{line: 1816, col: 5, offset: 58968},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2894, col: 14, offset: 91773},
+																			pos: position{line: 2894, col: 14, offset: 91775},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2894, col: 14, offset: 91773},
+																				pos: position{line: 2894, col: 14, offset: 91775},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2894, col: 14, offset: 91773},
+																					pos:        position{line: 2894, col: 14, offset: 91775},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41665,32 +41665,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1817, col: 5, offset: 58990},
+																		pos: position{line: 1817, col: 5, offset: 58992},
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93578},
+																		pos: position{line: 2966, col: 8, offset: 93580},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41699,9 +41699,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93528},
+																				pos: position{line: 2963, col: 8, offset: 93530},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93529,
+																					line: 2963, col: 9, offset: 93531,
 																				},
 																			},
 																		},
@@ -41723,16 +41723,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1827, col: 1, offset: 59476},
+			pos:  position{line: 1827, col: 1, offset: 59478},
 			expr: &choiceExpr{
-				pos: position{line: 1827, col: 15, offset: 59490},
+				pos: position{line: 1827, col: 15, offset: 59492},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1827, col: 15, offset: 59490},
+						pos:  position{line: 1827, col: 15, offset: 59492},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1827, col: 35, offset: 59510},
+						pos:  position{line: 1827, col: 35, offset: 59512},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -41740,65 +41740,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1829, col: 1, offset: 59531},
+			pos:  position{line: 1829, col: 1, offset: 59533},
 			expr: &actionExpr{
-				pos: position{line: 1830, col: 5, offset: 59556},
+				pos: position{line: 1830, col: 5, offset: 59558},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1830, col: 5, offset: 59556},
+					pos: position{line: 1830, col: 5, offset: 59558},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1830, col: 5, offset: 59556},
+							pos:   position{line: 1830, col: 5, offset: 59558},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1830, col: 16, offset: 59567},
+								pos: position{line: 1830, col: 16, offset: 59569},
 								expr: &actionExpr{
-									pos: position{line: 1830, col: 17, offset: 59568},
+									pos: position{line: 1830, col: 17, offset: 59570},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1830, col: 17, offset: 59568},
+										pos:  position{line: 1830, col: 17, offset: 59570},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1833, col: 5, offset: 59636},
+							pos: position{line: 1833, col: 5, offset: 59638},
 							expr: &litMatcher{
-								pos:        position{line: 1833, col: 7, offset: 59638},
+								pos:        position{line: 1833, col: 7, offset: 59640},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1834, col: 5, offset: 59647},
+							pos:   position{line: 1834, col: 5, offset: 59649},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1835, col: 9, offset: 59665},
+								pos: position{line: 1835, col: 9, offset: 59667},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1835, col: 9, offset: 59665},
+										pos:  position{line: 1835, col: 9, offset: 59667},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1836, col: 11, offset: 59692},
+										pos:  position{line: 1836, col: 11, offset: 59694},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1837, col: 11, offset: 59720},
+										pos:  position{line: 1837, col: 11, offset: 59722},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1838, col: 11, offset: 59751},
+										pos:  position{line: 1838, col: 11, offset: 59753},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1839, col: 11, offset: 59779},
+										pos:  position{line: 1839, col: 11, offset: 59781},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1840, col: 11, offset: 59810},
+										pos:  position{line: 1840, col: 11, offset: 59812},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -41810,36 +41810,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1845, col: 1, offset: 59930},
+			pos:  position{line: 1845, col: 1, offset: 59932},
 			expr: &actionExpr{
-				pos: position{line: 1846, col: 5, offset: 59972},
+				pos: position{line: 1846, col: 5, offset: 59974},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1846, col: 5, offset: 59972},
+					pos: position{line: 1846, col: 5, offset: 59974},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1846, col: 5, offset: 59972},
+							pos:   position{line: 1846, col: 5, offset: 59974},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1846, col: 16, offset: 59983},
+								pos: position{line: 1846, col: 16, offset: 59985},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1846, col: 17, offset: 59984},
+									pos:  position{line: 1846, col: 17, offset: 59986},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1847, col: 5, offset: 60009},
+							pos:   position{line: 1847, col: 5, offset: 60011},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1847, col: 14, offset: 60018},
+								pos: position{line: 1847, col: 14, offset: 60020},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1847, col: 14, offset: 60018},
+										pos:  position{line: 1847, col: 14, offset: 60020},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1847, col: 33, offset: 60037},
+										pos:  position{line: 1847, col: 33, offset: 60039},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -41851,32 +41851,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1855, col: 1, offset: 60268},
+			pos:  position{line: 1855, col: 1, offset: 60270},
 			expr: &choiceExpr{
-				pos: position{line: 1856, col: 5, offset: 60293},
+				pos: position{line: 1856, col: 5, offset: 60295},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1856, col: 5, offset: 60293},
+						pos:  position{line: 1856, col: 5, offset: 60295},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1857, col: 7, offset: 60320},
+						pos:  position{line: 1857, col: 7, offset: 60322},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1858, col: 7, offset: 60348},
+						pos:  position{line: 1858, col: 7, offset: 60350},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1859, col: 7, offset: 60380},
+						pos:  position{line: 1859, col: 7, offset: 60382},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1860, col: 7, offset: 60408},
+						pos:  position{line: 1860, col: 7, offset: 60410},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1861, col: 7, offset: 60429},
+						pos:  position{line: 1861, col: 7, offset: 60431},
 						name: "SuperscriptText",
 					},
 				},
@@ -41884,24 +41884,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1863, col: 1, offset: 60447},
+			pos:  position{line: 1863, col: 1, offset: 60449},
 			expr: &choiceExpr{
-				pos: position{line: 1864, col: 5, offset: 60472},
+				pos: position{line: 1864, col: 5, offset: 60474},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1864, col: 5, offset: 60472},
+						pos:  position{line: 1864, col: 5, offset: 60474},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1865, col: 7, offset: 60498},
+						pos:  position{line: 1865, col: 7, offset: 60500},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1866, col: 7, offset: 60526},
+						pos:  position{line: 1866, col: 7, offset: 60528},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1867, col: 7, offset: 60557},
+						pos:  position{line: 1867, col: 7, offset: 60559},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -41909,26 +41909,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1881, col: 1, offset: 60911},
+			pos:  position{line: 1881, col: 1, offset: 60913},
 			expr: &choiceExpr{
-				pos: position{line: 1882, col: 5, offset: 60937},
+				pos: position{line: 1882, col: 5, offset: 60939},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2843, col: 5, offset: 90422},
+						pos: position{line: 2843, col: 5, offset: 90424},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2843, col: 5, offset: 90422},
+							pos: position{line: 2843, col: 5, offset: 90424},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2843, col: 5, offset: 90422},
+									pos:   position{line: 2843, col: 5, offset: 90424},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2843, col: 11, offset: 90428},
+										pos: position{line: 2843, col: 11, offset: 90430},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2843, col: 11, offset: 90428},
+											pos: position{line: 2843, col: 11, offset: 90430},
 											expr: &charClassMatcher{
-												pos:        position{line: 2843, col: 11, offset: 90428},
+												pos:        position{line: 2843, col: 11, offset: 90430},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41938,36 +41938,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2846, col: 5, offset: 90486},
+									pos: position{line: 2846, col: 5, offset: 90488},
 									expr: &seqExpr{
-										pos: position{line: 2847, col: 9, offset: 90497},
+										pos: position{line: 2847, col: 9, offset: 90499},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2847, col: 9, offset: 90497},
+												pos:        position{line: 2847, col: 9, offset: 90499},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2848, col: 9, offset: 90546},
+												pos: position{line: 2848, col: 9, offset: 90548},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2852, col: 5, offset: 90626},
+									pos: position{line: 2852, col: 5, offset: 90628},
 									expr: &seqExpr{
-										pos: position{line: 2853, col: 9, offset: 90637},
+										pos: position{line: 2853, col: 9, offset: 90639},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2853, col: 9, offset: 90637},
+												pos:        position{line: 2853, col: 9, offset: 90639},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2853, col: 13, offset: 90641},
+												pos:        position{line: 2853, col: 13, offset: 90643},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41980,12 +41980,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2948, col: 11, offset: 93241},
+						pos: position{line: 2948, col: 11, offset: 93243},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2948, col: 11, offset: 93241},
+							pos: position{line: 2948, col: 11, offset: 93243},
 							expr: &charClassMatcher{
-								pos:        position{line: 2948, col: 11, offset: 93241},
+								pos:        position{line: 2948, col: 11, offset: 93243},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -41994,25 +41994,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1884, col: 7, offset: 61000},
+						pos:  position{line: 1884, col: 7, offset: 61002},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2556, col: 5, offset: 82485},
+						pos: position{line: 2556, col: 5, offset: 82487},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2556, col: 5, offset: 82485},
+							pos: position{line: 2556, col: 5, offset: 82487},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2556, col: 5, offset: 82485},
+									pos:        position{line: 2556, col: 5, offset: 82487},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2556, col: 10, offset: 82490},
+									pos: position{line: 2556, col: 10, offset: 82492},
 									expr: &charClassMatcher{
-										pos:        position{line: 2556, col: 11, offset: 82491},
+										pos:        position{line: 2556, col: 11, offset: 82493},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -42023,29 +42023,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2562, col: 5, offset: 82683},
+						pos: position{line: 2562, col: 5, offset: 82685},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2562, col: 5, offset: 82683},
+							pos: position{line: 2562, col: 5, offset: 82685},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2562, col: 5, offset: 82683},
+									pos: position{line: 2562, col: 5, offset: 82685},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2565, col: 5, offset: 82754},
+									pos: position{line: 2565, col: 5, offset: 82756},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2569, col: 5, offset: 82879},
+									pos:        position{line: 2569, col: 5, offset: 82881},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2569, col: 9, offset: 82883},
+									pos: position{line: 2569, col: 9, offset: 82885},
 									expr: &charClassMatcher{
-										pos:        position{line: 2569, col: 10, offset: 82884},
+										pos:        position{line: 2569, col: 10, offset: 82886},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -42056,27 +42056,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2861, col: 5, offset: 90834},
+						pos: position{line: 2861, col: 5, offset: 90836},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2862, col: 9, offset: 90844},
+							pos: position{line: 2862, col: 9, offset: 90846},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2862, col: 10, offset: 90845},
+									pos:        position{line: 2862, col: 10, offset: 90847},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2864, col: 13, offset: 90942},
+									pos: position{line: 2864, col: 13, offset: 90944},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2864, col: 13, offset: 90942},
+											pos: position{line: 2864, col: 13, offset: 90944},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2867, col: 13, offset: 91042},
+											pos:        position{line: 2867, col: 13, offset: 91044},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -42084,20 +42084,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2867, col: 19, offset: 91048},
+									pos:        position{line: 2867, col: 19, offset: 91050},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2870, col: 13, offset: 91086},
+									pos: position{line: 2870, col: 13, offset: 91088},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2870, col: 13, offset: 91086},
+											pos: position{line: 2870, col: 13, offset: 91088},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2873, col: 14, offset: 91179},
+											pos:        position{line: 2873, col: 14, offset: 91181},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -42106,18 +42106,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2875, col: 12, offset: 91223},
+									pos: position{line: 2875, col: 12, offset: 91225},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2875, col: 12, offset: 91223},
+											pos:        position{line: 2875, col: 12, offset: 91225},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2875, col: 16, offset: 91227},
+											pos: position{line: 2875, col: 16, offset: 91229},
 											expr: &litMatcher{
-												pos:        position{line: 2875, col: 17, offset: 91228},
+												pos:        position{line: 2875, col: 17, offset: 91230},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -42129,35 +42129,35 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 661, col: 5, offset: 21195},
+						pos: position{line: 661, col: 5, offset: 21197},
 						run: (*parser).callonQuotedTextElement46,
 						expr: &seqExpr{
-							pos: position{line: 661, col: 5, offset: 21195},
+							pos: position{line: 661, col: 5, offset: 21197},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 661, col: 5, offset: 21195},
+									pos: position{line: 661, col: 5, offset: 21197},
 									run: (*parser).callonQuotedTextElement48,
 								},
 								&labeledExpr{
-									pos:   position{line: 664, col: 5, offset: 21267},
+									pos:   position{line: 664, col: 5, offset: 21269},
 									label: "element",
 									expr: &choiceExpr{
-										pos: position{line: 664, col: 14, offset: 21276},
+										pos: position{line: 664, col: 14, offset: 21278},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 670, col: 5, offset: 21405},
+												pos: position{line: 670, col: 5, offset: 21407},
 												run: (*parser).callonQuotedTextElement51,
 												expr: &seqExpr{
-													pos: position{line: 670, col: 5, offset: 21405},
+													pos: position{line: 670, col: 5, offset: 21407},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 670, col: 5, offset: 21405},
+															pos:        position{line: 670, col: 5, offset: 21407},
 															val:        "\\{",
 															ignoreCase: false,
 															want:       "\"\\\\{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 670, col: 13, offset: 21413},
+															pos:   position{line: 670, col: 13, offset: 21415},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 320, col: 18, offset: 9837},
@@ -42189,7 +42189,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 670, col: 32, offset: 21432},
+															pos:        position{line: 670, col: 32, offset: 21434},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -42198,19 +42198,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 677, col: 5, offset: 21673},
+												pos: position{line: 677, col: 5, offset: 21675},
 												run: (*parser).callonQuotedTextElement61,
 												expr: &seqExpr{
-													pos: position{line: 677, col: 5, offset: 21673},
+													pos: position{line: 677, col: 5, offset: 21675},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 677, col: 5, offset: 21673},
+															pos:        position{line: 677, col: 5, offset: 21675},
 															val:        "{",
 															ignoreCase: false,
 															want:       "\"{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 677, col: 9, offset: 21677},
+															pos:   position{line: 677, col: 9, offset: 21679},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 320, col: 18, offset: 9837},
@@ -42242,7 +42242,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 677, col: 28, offset: 21696},
+															pos:        position{line: 677, col: 28, offset: 21698},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -42251,19 +42251,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 683, col: 25, offset: 21877},
+												pos: position{line: 683, col: 25, offset: 21879},
 												run: (*parser).callonQuotedTextElement71,
 												expr: &seqExpr{
-													pos: position{line: 683, col: 25, offset: 21877},
+													pos: position{line: 683, col: 25, offset: 21879},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 683, col: 25, offset: 21877},
+															pos:        position{line: 683, col: 25, offset: 21879},
 															val:        "{counter:",
 															ignoreCase: false,
 															want:       "\"{counter:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 683, col: 37, offset: 21889},
+															pos:   position{line: 683, col: 37, offset: 21891},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 320, col: 18, offset: 9837},
@@ -42295,33 +42295,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 683, col: 56, offset: 21908},
+															pos:   position{line: 683, col: 56, offset: 21910},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 683, col: 62, offset: 21914},
+																pos: position{line: 683, col: 62, offset: 21916},
 																expr: &actionExpr{
-																	pos: position{line: 691, col: 17, offset: 22211},
+																	pos: position{line: 691, col: 17, offset: 22213},
 																	run: (*parser).callonQuotedTextElement82,
 																	expr: &seqExpr{
-																		pos: position{line: 691, col: 17, offset: 22211},
+																		pos: position{line: 691, col: 17, offset: 22213},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 691, col: 17, offset: 22211},
+																				pos:        position{line: 691, col: 17, offset: 22213},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 691, col: 21, offset: 22215},
+																				pos:   position{line: 691, col: 21, offset: 22217},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 691, col: 28, offset: 22222},
+																					pos: position{line: 691, col: 28, offset: 22224},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 691, col: 28, offset: 22222},
+																							pos: position{line: 691, col: 28, offset: 22224},
 																							run: (*parser).callonQuotedTextElement87,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 691, col: 28, offset: 22222},
+																								pos:        position{line: 691, col: 28, offset: 22224},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -42329,12 +42329,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 693, col: 9, offset: 22276},
+																							pos: position{line: 693, col: 9, offset: 22278},
 																							run: (*parser).callonQuotedTextElement89,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 693, col: 9, offset: 22276},
+																								pos: position{line: 693, col: 9, offset: 22278},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 693, col: 9, offset: 22276},
+																									pos:        position{line: 693, col: 9, offset: 22278},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -42351,7 +42351,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 683, col: 78, offset: 21930},
+															pos:        position{line: 683, col: 78, offset: 21932},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -42360,19 +42360,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 687, col: 25, offset: 22048},
+												pos: position{line: 687, col: 25, offset: 22050},
 												run: (*parser).callonQuotedTextElement93,
 												expr: &seqExpr{
-													pos: position{line: 687, col: 25, offset: 22048},
+													pos: position{line: 687, col: 25, offset: 22050},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 687, col: 25, offset: 22048},
+															pos:        position{line: 687, col: 25, offset: 22050},
 															val:        "{counter2:",
 															ignoreCase: false,
 															want:       "\"{counter2:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 687, col: 38, offset: 22061},
+															pos:   position{line: 687, col: 38, offset: 22063},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 320, col: 18, offset: 9837},
@@ -42404,33 +42404,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 687, col: 57, offset: 22080},
+															pos:   position{line: 687, col: 57, offset: 22082},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 687, col: 63, offset: 22086},
+																pos: position{line: 687, col: 63, offset: 22088},
 																expr: &actionExpr{
-																	pos: position{line: 691, col: 17, offset: 22211},
+																	pos: position{line: 691, col: 17, offset: 22213},
 																	run: (*parser).callonQuotedTextElement104,
 																	expr: &seqExpr{
-																		pos: position{line: 691, col: 17, offset: 22211},
+																		pos: position{line: 691, col: 17, offset: 22213},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 691, col: 17, offset: 22211},
+																				pos:        position{line: 691, col: 17, offset: 22213},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 691, col: 21, offset: 22215},
+																				pos:   position{line: 691, col: 21, offset: 22217},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 691, col: 28, offset: 22222},
+																					pos: position{line: 691, col: 28, offset: 22224},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 691, col: 28, offset: 22222},
+																							pos: position{line: 691, col: 28, offset: 22224},
 																							run: (*parser).callonQuotedTextElement109,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 691, col: 28, offset: 22222},
+																								pos:        position{line: 691, col: 28, offset: 22224},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -42438,12 +42438,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 693, col: 9, offset: 22276},
+																							pos: position{line: 693, col: 9, offset: 22278},
 																							run: (*parser).callonQuotedTextElement111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 693, col: 9, offset: 22276},
+																								pos: position{line: 693, col: 9, offset: 22278},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 693, col: 9, offset: 22276},
+																									pos:        position{line: 693, col: 9, offset: 22278},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -42460,7 +42460,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 687, col: 79, offset: 22102},
+															pos:        position{line: 687, col: 79, offset: 22104},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -42475,31 +42475,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2957, col: 18, offset: 93451},
+						pos: position{line: 2957, col: 18, offset: 93453},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2957, col: 18, offset: 93451},
+							pos: position{line: 2957, col: 18, offset: 93453},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2953, col: 12, offset: 93351},
+									pos: position{line: 2953, col: 12, offset: 93353},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2953, col: 13, offset: 93352},
+										pos: position{line: 2953, col: 13, offset: 93354},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2953, col: 13, offset: 93352},
+												pos:        position{line: 2953, col: 13, offset: 93354},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 20, offset: 93359},
+												pos:        position{line: 2953, col: 20, offset: 93361},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 29, offset: 93368},
+												pos:        position{line: 2953, col: 29, offset: 93370},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -42508,27 +42508,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2957, col: 26, offset: 93459},
+									pos: position{line: 2957, col: 26, offset: 93461},
 									expr: &actionExpr{
-										pos: position{line: 2953, col: 12, offset: 93351},
+										pos: position{line: 2953, col: 12, offset: 93353},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2953, col: 13, offset: 93352},
+											pos: position{line: 2953, col: 13, offset: 93354},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2953, col: 13, offset: 93352},
+													pos:        position{line: 2953, col: 13, offset: 93354},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2953, col: 20, offset: 93359},
+													pos:        position{line: 2953, col: 20, offset: 93361},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2953, col: 29, offset: 93368},
+													pos:        position{line: 2953, col: 29, offset: 93370},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -42541,31 +42541,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1889, col: 7, offset: 61167},
+						pos:  position{line: 1889, col: 7, offset: 61169},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1890, col: 7, offset: 61214},
+						pos:  position{line: 1890, col: 7, offset: 61216},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2525, col: 5, offset: 81286},
+						pos: position{line: 2525, col: 5, offset: 81288},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2525, col: 5, offset: 81286},
+							pos: position{line: 2525, col: 5, offset: 81288},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2525, col: 5, offset: 81286},
+									pos: position{line: 2525, col: 5, offset: 81288},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2528, col: 5, offset: 81362},
+									pos:   position{line: 2528, col: 5, offset: 81364},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2529, col: 9, offset: 81380},
+										pos: position{line: 2529, col: 9, offset: 81382},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2529, col: 10, offset: 81381},
+											pos:        position{line: 2529, col: 10, offset: 81383},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -42577,27 +42577,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1223, col: 23, offset: 38060},
+						pos: position{line: 1223, col: 23, offset: 38062},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 1223, col: 23, offset: 38060},
+							pos: position{line: 1223, col: 23, offset: 38062},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1221, col: 32, offset: 38028},
+									pos:        position{line: 1221, col: 32, offset: 38030},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1223, col: 51, offset: 38088},
+									pos:   position{line: 1223, col: 51, offset: 38090},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1223, col: 56, offset: 38093},
+										pos: position{line: 1223, col: 56, offset: 38095},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1223, col: 56, offset: 38093},
+											pos: position{line: 1223, col: 56, offset: 38095},
 											expr: &charClassMatcher{
-												pos:        position{line: 1223, col: 56, offset: 38093},
+												pos:        position{line: 1223, col: 56, offset: 38095},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -42607,23 +42607,23 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1221, col: 32, offset: 38028},
+									pos:        position{line: 1221, col: 32, offset: 38030},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 1223, col: 123, offset: 38160},
+									pos: position{line: 1223, col: 123, offset: 38162},
 									run: (*parser).callonQuotedTextElement144,
 								},
 							},
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2883, col: 12, offset: 91488},
+						pos: position{line: 2883, col: 12, offset: 91490},
 						run: (*parser).callonQuotedTextElement145,
 						expr: &charClassMatcher{
-							pos:        position{line: 2883, col: 12, offset: 91488},
+							pos:        position{line: 2883, col: 12, offset: 91490},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -42635,29 +42635,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1908, col: 1, offset: 61684},
+			pos:  position{line: 1908, col: 1, offset: 61686},
 			expr: &actionExpr{
-				pos: position{line: 1909, col: 5, offset: 61712},
+				pos: position{line: 1909, col: 5, offset: 61714},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1909, col: 5, offset: 61712},
+					pos: position{line: 1909, col: 5, offset: 61714},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1904, col: 38, offset: 61637},
+							pos:        position{line: 1904, col: 38, offset: 61639},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1910, col: 5, offset: 61751},
+							pos:   position{line: 1910, col: 5, offset: 61753},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1910, col: 15, offset: 61761},
+								pos:  position{line: 1910, col: 15, offset: 61763},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1906, col: 36, offset: 61678},
+							pos:        position{line: 1906, col: 36, offset: 61680},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -42668,24 +42668,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1915, col: 1, offset: 61921},
+			pos:  position{line: 1915, col: 1, offset: 61923},
 			expr: &actionExpr{
-				pos: position{line: 1916, col: 5, offset: 61956},
+				pos: position{line: 1916, col: 5, offset: 61958},
 				run: (*parser).callonDoubleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1916, col: 5, offset: 61956},
+					pos: position{line: 1916, col: 5, offset: 61958},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1916, col: 5, offset: 61956},
+							pos: position{line: 1916, col: 5, offset: 61958},
 							run: (*parser).callonDoubleQuoteBoldTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1920, col: 5, offset: 62076},
+							pos:   position{line: 1920, col: 5, offset: 62078},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1920, col: 14, offset: 62085},
+								pos: position{line: 1920, col: 14, offset: 62087},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1920, col: 15, offset: 62086},
+									pos:  position{line: 1920, col: 15, offset: 62088},
 									name: "DoubleQuoteBoldTextElement",
 								},
 							},
@@ -42696,33 +42696,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1924, col: 1, offset: 62153},
+			pos:  position{line: 1924, col: 1, offset: 62155},
 			expr: &actionExpr{
-				pos: position{line: 1925, col: 5, offset: 62188},
+				pos: position{line: 1925, col: 5, offset: 62190},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1925, col: 5, offset: 62188},
+					pos: position{line: 1925, col: 5, offset: 62190},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2961, col: 11, offset: 93514},
+							pos: position{line: 2961, col: 11, offset: 93516},
 							expr: &anyMatcher{
-								line: 2961, col: 13, offset: 93516,
+								line: 2961, col: 13, offset: 93518,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1926, col: 5, offset: 62199},
+							pos: position{line: 1926, col: 5, offset: 62201},
 							expr: &litMatcher{
-								pos:        position{line: 1906, col: 36, offset: 61678},
+								pos:        position{line: 1906, col: 36, offset: 61680},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1927, col: 5, offset: 62236},
+							pos:   position{line: 1927, col: 5, offset: 62238},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1927, col: 14, offset: 62245},
+								pos:  position{line: 1927, col: 14, offset: 62247},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42732,29 +42732,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1952, col: 1, offset: 62925},
+			pos:  position{line: 1952, col: 1, offset: 62927},
 			expr: &actionExpr{
-				pos: position{line: 1953, col: 5, offset: 62953},
+				pos: position{line: 1953, col: 5, offset: 62955},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1953, col: 5, offset: 62953},
+					pos: position{line: 1953, col: 5, offset: 62955},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1936, col: 5, offset: 62479},
+							pos:        position{line: 1936, col: 5, offset: 62481},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1937, col: 5, offset: 62488},
+							pos: position{line: 1937, col: 5, offset: 62490},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1941, col: 5, offset: 62606},
+							pos: position{line: 1941, col: 5, offset: 62608},
 							expr: &notExpr{
-								pos: position{line: 1941, col: 7, offset: 62608},
+								pos: position{line: 1941, col: 7, offset: 62610},
 								expr: &litMatcher{
-									pos:        position{line: 1941, col: 8, offset: 62609},
+									pos:        position{line: 1941, col: 8, offset: 62611},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42762,38 +42762,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1954, col: 5, offset: 62991},
+							pos:   position{line: 1954, col: 5, offset: 62993},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1954, col: 15, offset: 63001},
+								pos:  position{line: 1954, col: 15, offset: 63003},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1944, col: 5, offset: 62729},
+							pos:        position{line: 1944, col: 5, offset: 62731},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1945, col: 5, offset: 62738},
+							pos: position{line: 1945, col: 5, offset: 62740},
 							expr: &litMatcher{
-								pos:        position{line: 1945, col: 6, offset: 62739},
+								pos:        position{line: 1945, col: 6, offset: 62741},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1946, col: 5, offset: 62802},
+							pos: position{line: 1946, col: 5, offset: 62804},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1950, col: 5, offset: 62911},
+							pos: position{line: 1950, col: 5, offset: 62913},
 							expr: &notExpr{
-								pos: position{line: 1950, col: 7, offset: 62913},
+								pos: position{line: 1950, col: 7, offset: 62915},
 								expr: &charClassMatcher{
-									pos:        position{line: 2834, col: 13, offset: 90275},
+									pos:        position{line: 2834, col: 13, offset: 90277},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42807,20 +42807,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1959, col: 1, offset: 63161},
+			pos:  position{line: 1959, col: 1, offset: 63163},
 			expr: &actionExpr{
-				pos: position{line: 1960, col: 5, offset: 63198},
+				pos: position{line: 1960, col: 5, offset: 63200},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1960, col: 5, offset: 63198},
+					pos: position{line: 1960, col: 5, offset: 63200},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1960, col: 5, offset: 63198},
+							pos: position{line: 1960, col: 5, offset: 63200},
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 10, offset: 93180},
+								pos: position{line: 2944, col: 10, offset: 93182},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2944, col: 10, offset: 93180},
+									pos:        position{line: 2944, col: 10, offset: 93182},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42829,18 +42829,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1961, col: 5, offset: 63237},
+							pos:   position{line: 1961, col: 5, offset: 63239},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1961, col: 14, offset: 63246},
+								pos: position{line: 1961, col: 14, offset: 63248},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1961, col: 15, offset: 63247},
+									pos:  position{line: 1961, col: 15, offset: 63249},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1962, col: 5, offset: 63281},
+							pos: position{line: 1962, col: 5, offset: 63283},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -42849,49 +42849,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1968, col: 1, offset: 63422},
+			pos:  position{line: 1968, col: 1, offset: 63424},
 			expr: &actionExpr{
-				pos: position{line: 1969, col: 5, offset: 63457},
+				pos: position{line: 1969, col: 5, offset: 63459},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1969, col: 5, offset: 63457},
+					pos: position{line: 1969, col: 5, offset: 63459},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2961, col: 11, offset: 93514},
+							pos: position{line: 2961, col: 11, offset: 93516},
 							expr: &anyMatcher{
-								line: 2961, col: 13, offset: 93516,
+								line: 2961, col: 13, offset: 93518,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1970, col: 5, offset: 63485},
+							pos: position{line: 1970, col: 5, offset: 63487},
 							expr: &seqExpr{
-								pos: position{line: 1944, col: 5, offset: 62729},
+								pos: position{line: 1944, col: 5, offset: 62731},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1944, col: 5, offset: 62729},
+										pos:        position{line: 1944, col: 5, offset: 62731},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1945, col: 5, offset: 62738},
+										pos: position{line: 1945, col: 5, offset: 62740},
 										expr: &litMatcher{
-											pos:        position{line: 1945, col: 6, offset: 62739},
+											pos:        position{line: 1945, col: 6, offset: 62741},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1946, col: 5, offset: 62802},
+										pos: position{line: 1946, col: 5, offset: 62804},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1950, col: 5, offset: 62911},
+										pos: position{line: 1950, col: 5, offset: 62913},
 										expr: &notExpr{
-											pos: position{line: 1950, col: 7, offset: 62913},
+											pos: position{line: 1950, col: 7, offset: 62915},
 											expr: &charClassMatcher{
-												pos:        position{line: 2834, col: 13, offset: 90275},
+												pos:        position{line: 2834, col: 13, offset: 90277},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42903,10 +42903,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1971, col: 5, offset: 63522},
+							pos:   position{line: 1971, col: 5, offset: 63524},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1971, col: 14, offset: 63531},
+								pos:  position{line: 1971, col: 14, offset: 63533},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42916,35 +42916,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1976, col: 1, offset: 63619},
+			pos:  position{line: 1976, col: 1, offset: 63621},
 			expr: &choiceExpr{
-				pos: position{line: 1978, col: 5, offset: 63680},
+				pos: position{line: 1978, col: 5, offset: 63682},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1978, col: 5, offset: 63680},
+						pos: position{line: 1978, col: 5, offset: 63682},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1978, col: 5, offset: 63680},
+							pos: position{line: 1978, col: 5, offset: 63682},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1978, col: 5, offset: 63680},
+									pos:   position{line: 1978, col: 5, offset: 63682},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1877, col: 25, offset: 60857},
+										pos: position{line: 1877, col: 25, offset: 60859},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1877, col: 25, offset: 60857},
+											pos: position{line: 1877, col: 25, offset: 60859},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1877, col: 25, offset: 60857},
+													pos:        position{line: 1877, col: 25, offset: 60859},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1877, col: 30, offset: 60862},
+													pos: position{line: 1877, col: 30, offset: 60864},
 													expr: &litMatcher{
-														pos:        position{line: 1877, col: 30, offset: 60862},
+														pos:        position{line: 1877, col: 30, offset: 60864},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42955,21 +42955,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1978, col: 40, offset: 63715},
+									pos:        position{line: 1978, col: 40, offset: 63717},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1978, col: 45, offset: 63720},
+									pos:   position{line: 1978, col: 45, offset: 63722},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1978, col: 55, offset: 63730},
+										pos:  position{line: 1978, col: 55, offset: 63732},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1978, col: 84, offset: 63759},
+									pos:        position{line: 1978, col: 84, offset: 63761},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -42978,21 +42978,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1982, col: 7, offset: 63923},
+						pos: position{line: 1982, col: 7, offset: 63925},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1982, col: 7, offset: 63923},
+							pos: position{line: 1982, col: 7, offset: 63925},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1982, col: 7, offset: 63923},
+									pos:   position{line: 1982, col: 7, offset: 63925},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1873, col: 25, offset: 60784},
+										pos: position{line: 1873, col: 25, offset: 60786},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1873, col: 25, offset: 60784},
+											pos: position{line: 1873, col: 25, offset: 60786},
 											expr: &litMatcher{
-												pos:        position{line: 1873, col: 25, offset: 60784},
+												pos:        position{line: 1873, col: 25, offset: 60786},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43001,21 +43001,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1982, col: 42, offset: 63958},
+									pos:        position{line: 1982, col: 42, offset: 63960},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1982, col: 47, offset: 63963},
+									pos:   position{line: 1982, col: 47, offset: 63965},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1982, col: 57, offset: 63973},
+										pos:  position{line: 1982, col: 57, offset: 63975},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1982, col: 86, offset: 64002},
+									pos:        position{line: 1982, col: 86, offset: 64004},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -43024,21 +43024,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1987, col: 7, offset: 64204},
+						pos: position{line: 1987, col: 7, offset: 64206},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1987, col: 7, offset: 64204},
+							pos: position{line: 1987, col: 7, offset: 64206},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1987, col: 7, offset: 64204},
+									pos:   position{line: 1987, col: 7, offset: 64206},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1873, col: 25, offset: 60784},
+										pos: position{line: 1873, col: 25, offset: 60786},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1873, col: 25, offset: 60784},
+											pos: position{line: 1873, col: 25, offset: 60786},
 											expr: &litMatcher{
-												pos:        position{line: 1873, col: 25, offset: 60784},
+												pos:        position{line: 1873, col: 25, offset: 60786},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43047,21 +43047,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1987, col: 42, offset: 64239},
+									pos:        position{line: 1987, col: 42, offset: 64241},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1987, col: 46, offset: 64243},
+									pos:   position{line: 1987, col: 46, offset: 64245},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1987, col: 56, offset: 64253},
+										pos:  position{line: 1987, col: 56, offset: 64255},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1987, col: 85, offset: 64282},
+									pos:        position{line: 1987, col: 85, offset: 64284},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -43074,29 +43074,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 2004, col: 1, offset: 64762},
+			pos:  position{line: 2004, col: 1, offset: 64764},
 			expr: &actionExpr{
-				pos: position{line: 2005, col: 5, offset: 64792},
+				pos: position{line: 2005, col: 5, offset: 64794},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2005, col: 5, offset: 64792},
+					pos: position{line: 2005, col: 5, offset: 64794},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2000, col: 40, offset: 64713},
+							pos:        position{line: 2000, col: 40, offset: 64715},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2006, col: 5, offset: 64833},
+							pos:   position{line: 2006, col: 5, offset: 64835},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2006, col: 15, offset: 64843},
+								pos:  position{line: 2006, col: 15, offset: 64845},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2002, col: 38, offset: 64756},
+							pos:        position{line: 2002, col: 38, offset: 64758},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -43107,24 +43107,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 2011, col: 1, offset: 65008},
+			pos:  position{line: 2011, col: 1, offset: 65010},
 			expr: &actionExpr{
-				pos: position{line: 2012, col: 5, offset: 65045},
+				pos: position{line: 2012, col: 5, offset: 65047},
 				run: (*parser).callonDoubleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2012, col: 5, offset: 65045},
+					pos: position{line: 2012, col: 5, offset: 65047},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2012, col: 5, offset: 65045},
+							pos: position{line: 2012, col: 5, offset: 65047},
 							run: (*parser).callonDoubleQuoteItalicTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2016, col: 5, offset: 65165},
+							pos:   position{line: 2016, col: 5, offset: 65167},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2016, col: 14, offset: 65174},
+								pos: position{line: 2016, col: 14, offset: 65176},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2016, col: 15, offset: 65175},
+									pos:  position{line: 2016, col: 15, offset: 65177},
 									name: "DoubleQuoteItalicTextElement",
 								},
 							},
@@ -43135,33 +43135,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 2020, col: 1, offset: 65244},
+			pos:  position{line: 2020, col: 1, offset: 65246},
 			expr: &actionExpr{
-				pos: position{line: 2021, col: 5, offset: 65281},
+				pos: position{line: 2021, col: 5, offset: 65283},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2021, col: 5, offset: 65281},
+					pos: position{line: 2021, col: 5, offset: 65283},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2961, col: 11, offset: 93514},
+							pos: position{line: 2961, col: 11, offset: 93516},
 							expr: &anyMatcher{
-								line: 2961, col: 13, offset: 93516,
+								line: 2961, col: 13, offset: 93518,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2022, col: 5, offset: 65292},
+							pos: position{line: 2022, col: 5, offset: 65294},
 							expr: &litMatcher{
-								pos:        position{line: 2002, col: 38, offset: 64756},
+								pos:        position{line: 2002, col: 38, offset: 64758},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2023, col: 5, offset: 65331},
+							pos:   position{line: 2023, col: 5, offset: 65333},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2023, col: 14, offset: 65340},
+								pos:  position{line: 2023, col: 14, offset: 65342},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43171,29 +43171,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2049, col: 1, offset: 66024},
+			pos:  position{line: 2049, col: 1, offset: 66026},
 			expr: &actionExpr{
-				pos: position{line: 2050, col: 5, offset: 66054},
+				pos: position{line: 2050, col: 5, offset: 66056},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2050, col: 5, offset: 66054},
+					pos: position{line: 2050, col: 5, offset: 66056},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2032, col: 5, offset: 65582},
+							pos:        position{line: 2032, col: 5, offset: 65584},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2033, col: 5, offset: 65591},
+							pos: position{line: 2033, col: 5, offset: 65593},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2037, col: 5, offset: 65711},
+							pos: position{line: 2037, col: 5, offset: 65713},
 							expr: &notExpr{
-								pos: position{line: 2037, col: 7, offset: 65713},
+								pos: position{line: 2037, col: 7, offset: 65715},
 								expr: &litMatcher{
-									pos:        position{line: 2037, col: 8, offset: 65714},
+									pos:        position{line: 2037, col: 8, offset: 65716},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43201,38 +43201,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2051, col: 5, offset: 66094},
+							pos:   position{line: 2051, col: 5, offset: 66096},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2051, col: 15, offset: 66104},
+								pos:  position{line: 2051, col: 15, offset: 66106},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2041, col: 5, offset: 65824},
+							pos:        position{line: 2041, col: 5, offset: 65826},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2042, col: 5, offset: 65833},
+							pos: position{line: 2042, col: 5, offset: 65835},
 							expr: &litMatcher{
-								pos:        position{line: 2042, col: 6, offset: 65834},
+								pos:        position{line: 2042, col: 6, offset: 65836},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2043, col: 5, offset: 65899},
+							pos: position{line: 2043, col: 5, offset: 65901},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2047, col: 5, offset: 66010},
+							pos: position{line: 2047, col: 5, offset: 66012},
 							expr: &notExpr{
-								pos: position{line: 2047, col: 7, offset: 66012},
+								pos: position{line: 2047, col: 7, offset: 66014},
 								expr: &charClassMatcher{
-									pos:        position{line: 2834, col: 13, offset: 90275},
+									pos:        position{line: 2834, col: 13, offset: 90277},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43246,20 +43246,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2056, col: 1, offset: 66271},
+			pos:  position{line: 2056, col: 1, offset: 66273},
 			expr: &actionExpr{
-				pos: position{line: 2057, col: 5, offset: 66309},
+				pos: position{line: 2057, col: 5, offset: 66311},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2057, col: 5, offset: 66309},
+					pos: position{line: 2057, col: 5, offset: 66311},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2057, col: 5, offset: 66309},
+							pos: position{line: 2057, col: 5, offset: 66311},
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 10, offset: 93180},
+								pos: position{line: 2944, col: 10, offset: 93182},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2944, col: 10, offset: 93180},
+									pos:        position{line: 2944, col: 10, offset: 93182},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43268,18 +43268,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2058, col: 5, offset: 66348},
+							pos:   position{line: 2058, col: 5, offset: 66350},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2058, col: 14, offset: 66357},
+								pos: position{line: 2058, col: 14, offset: 66359},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2058, col: 15, offset: 66358},
+									pos:  position{line: 2058, col: 15, offset: 66360},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2059, col: 5, offset: 66393},
+							pos: position{line: 2059, col: 5, offset: 66395},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -43288,49 +43288,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2065, col: 1, offset: 66534},
+			pos:  position{line: 2065, col: 1, offset: 66536},
 			expr: &actionExpr{
-				pos: position{line: 2066, col: 5, offset: 66571},
+				pos: position{line: 2066, col: 5, offset: 66573},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2066, col: 5, offset: 66571},
+					pos: position{line: 2066, col: 5, offset: 66573},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2961, col: 11, offset: 93514},
+							pos: position{line: 2961, col: 11, offset: 93516},
 							expr: &anyMatcher{
-								line: 2961, col: 13, offset: 93516,
+								line: 2961, col: 13, offset: 93518,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2067, col: 5, offset: 66582},
+							pos: position{line: 2067, col: 5, offset: 66584},
 							expr: &seqExpr{
-								pos: position{line: 2041, col: 5, offset: 65824},
+								pos: position{line: 2041, col: 5, offset: 65826},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2041, col: 5, offset: 65824},
+										pos:        position{line: 2041, col: 5, offset: 65826},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2042, col: 5, offset: 65833},
+										pos: position{line: 2042, col: 5, offset: 65835},
 										expr: &litMatcher{
-											pos:        position{line: 2042, col: 6, offset: 65834},
+											pos:        position{line: 2042, col: 6, offset: 65836},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2043, col: 5, offset: 65899},
+										pos: position{line: 2043, col: 5, offset: 65901},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2047, col: 5, offset: 66010},
+										pos: position{line: 2047, col: 5, offset: 66012},
 										expr: &notExpr{
-											pos: position{line: 2047, col: 7, offset: 66012},
+											pos: position{line: 2047, col: 7, offset: 66014},
 											expr: &charClassMatcher{
-												pos:        position{line: 2834, col: 13, offset: 90275},
+												pos:        position{line: 2834, col: 13, offset: 90277},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43342,10 +43342,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2068, col: 5, offset: 66621},
+							pos:   position{line: 2068, col: 5, offset: 66623},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2068, col: 14, offset: 66630},
+								pos:  position{line: 2068, col: 14, offset: 66632},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43355,35 +43355,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2073, col: 1, offset: 66718},
+			pos:  position{line: 2073, col: 1, offset: 66720},
 			expr: &choiceExpr{
-				pos: position{line: 2075, col: 5, offset: 66783},
+				pos: position{line: 2075, col: 5, offset: 66785},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2075, col: 5, offset: 66783},
+						pos: position{line: 2075, col: 5, offset: 66785},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2075, col: 5, offset: 66783},
+							pos: position{line: 2075, col: 5, offset: 66785},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2075, col: 5, offset: 66783},
+									pos:   position{line: 2075, col: 5, offset: 66785},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1877, col: 25, offset: 60857},
+										pos: position{line: 1877, col: 25, offset: 60859},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1877, col: 25, offset: 60857},
+											pos: position{line: 1877, col: 25, offset: 60859},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1877, col: 25, offset: 60857},
+													pos:        position{line: 1877, col: 25, offset: 60859},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1877, col: 30, offset: 60862},
+													pos: position{line: 1877, col: 30, offset: 60864},
 													expr: &litMatcher{
-														pos:        position{line: 1877, col: 30, offset: 60862},
+														pos:        position{line: 1877, col: 30, offset: 60864},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43394,21 +43394,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2075, col: 40, offset: 66818},
+									pos:        position{line: 2075, col: 40, offset: 66820},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2075, col: 45, offset: 66823},
+									pos:   position{line: 2075, col: 45, offset: 66825},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2075, col: 55, offset: 66833},
+										pos:  position{line: 2075, col: 55, offset: 66835},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2075, col: 86, offset: 66864},
+									pos:        position{line: 2075, col: 86, offset: 66866},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -43417,21 +43417,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2079, col: 7, offset: 67029},
+						pos: position{line: 2079, col: 7, offset: 67031},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2079, col: 7, offset: 67029},
+							pos: position{line: 2079, col: 7, offset: 67031},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2079, col: 7, offset: 67029},
+									pos:   position{line: 2079, col: 7, offset: 67031},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1873, col: 25, offset: 60784},
+										pos: position{line: 1873, col: 25, offset: 60786},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1873, col: 25, offset: 60784},
+											pos: position{line: 1873, col: 25, offset: 60786},
 											expr: &litMatcher{
-												pos:        position{line: 1873, col: 25, offset: 60784},
+												pos:        position{line: 1873, col: 25, offset: 60786},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43440,21 +43440,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2079, col: 42, offset: 67064},
+									pos:        position{line: 2079, col: 42, offset: 67066},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2079, col: 47, offset: 67069},
+									pos:   position{line: 2079, col: 47, offset: 67071},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2079, col: 57, offset: 67079},
+										pos:  position{line: 2079, col: 57, offset: 67081},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2079, col: 88, offset: 67110},
+									pos:        position{line: 2079, col: 88, offset: 67112},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43463,21 +43463,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2084, col: 7, offset: 67351},
+						pos: position{line: 2084, col: 7, offset: 67353},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2084, col: 7, offset: 67351},
+							pos: position{line: 2084, col: 7, offset: 67353},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2084, col: 7, offset: 67351},
+									pos:   position{line: 2084, col: 7, offset: 67353},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1873, col: 25, offset: 60784},
+										pos: position{line: 1873, col: 25, offset: 60786},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1873, col: 25, offset: 60784},
+											pos: position{line: 1873, col: 25, offset: 60786},
 											expr: &litMatcher{
-												pos:        position{line: 1873, col: 25, offset: 60784},
+												pos:        position{line: 1873, col: 25, offset: 60786},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43486,21 +43486,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2084, col: 42, offset: 67386},
+									pos:        position{line: 2084, col: 42, offset: 67388},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2084, col: 46, offset: 67390},
+									pos:   position{line: 2084, col: 46, offset: 67392},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2084, col: 56, offset: 67400},
+										pos:  position{line: 2084, col: 56, offset: 67402},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2084, col: 87, offset: 67431},
+									pos:        position{line: 2084, col: 87, offset: 67433},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43513,29 +43513,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2101, col: 1, offset: 67995},
+			pos:  position{line: 2101, col: 1, offset: 67997},
 			expr: &actionExpr{
-				pos: position{line: 2102, col: 5, offset: 68028},
+				pos: position{line: 2102, col: 5, offset: 68030},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2102, col: 5, offset: 68028},
+					pos: position{line: 2102, col: 5, offset: 68030},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2097, col: 43, offset: 67943},
+							pos:        position{line: 2097, col: 43, offset: 67945},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2103, col: 5, offset: 68072},
+							pos:   position{line: 2103, col: 5, offset: 68074},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2103, col: 15, offset: 68082},
+								pos:  position{line: 2103, col: 15, offset: 68084},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2099, col: 41, offset: 67989},
+							pos:        position{line: 2099, col: 41, offset: 67991},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -43546,24 +43546,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2108, col: 1, offset: 68257},
+			pos:  position{line: 2108, col: 1, offset: 68259},
 			expr: &actionExpr{
-				pos: position{line: 2109, col: 5, offset: 68330},
+				pos: position{line: 2109, col: 5, offset: 68332},
 				run: (*parser).callonDoubleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2109, col: 5, offset: 68330},
+					pos: position{line: 2109, col: 5, offset: 68332},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2109, col: 5, offset: 68330},
+							pos: position{line: 2109, col: 5, offset: 68332},
 							run: (*parser).callonDoubleQuoteMonospaceTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2113, col: 5, offset: 68450},
+							pos:   position{line: 2113, col: 5, offset: 68452},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2113, col: 14, offset: 68459},
+								pos: position{line: 2113, col: 14, offset: 68461},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2113, col: 15, offset: 68460},
+									pos:  position{line: 2113, col: 15, offset: 68462},
 									name: "DoubleQuoteMonospaceTextElement",
 								},
 							},
@@ -43574,33 +43574,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2117, col: 1, offset: 68532},
+			pos:  position{line: 2117, col: 1, offset: 68534},
 			expr: &actionExpr{
-				pos: position{line: 2118, col: 5, offset: 68572},
+				pos: position{line: 2118, col: 5, offset: 68574},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2118, col: 5, offset: 68572},
+					pos: position{line: 2118, col: 5, offset: 68574},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2961, col: 11, offset: 93514},
+							pos: position{line: 2961, col: 11, offset: 93516},
 							expr: &anyMatcher{
-								line: 2961, col: 13, offset: 93516,
+								line: 2961, col: 13, offset: 93518,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2119, col: 5, offset: 68583},
+							pos: position{line: 2119, col: 5, offset: 68585},
 							expr: &litMatcher{
-								pos:        position{line: 2099, col: 41, offset: 67989},
+								pos:        position{line: 2099, col: 41, offset: 67991},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2120, col: 5, offset: 68625},
+							pos:   position{line: 2120, col: 5, offset: 68627},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2120, col: 14, offset: 68634},
+								pos:  position{line: 2120, col: 14, offset: 68636},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43610,33 +43610,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2138, col: 1, offset: 69176},
+			pos:  position{line: 2138, col: 1, offset: 69178},
 			expr: &seqExpr{
-				pos: position{line: 2139, col: 5, offset: 69221},
+				pos: position{line: 2139, col: 5, offset: 69223},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2139, col: 5, offset: 69221},
+						pos: position{line: 2139, col: 5, offset: 69223},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2139, col: 6, offset: 69222},
+							pos:  position{line: 2139, col: 6, offset: 69224},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2140, col: 5, offset: 69241},
+						pos:        position{line: 2140, col: 5, offset: 69243},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2141, col: 5, offset: 69249},
+						pos: position{line: 2141, col: 5, offset: 69251},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2145, col: 5, offset: 69363},
+						pos: position{line: 2145, col: 5, offset: 69365},
 						expr: &notExpr{
-							pos: position{line: 2145, col: 7, offset: 69365},
+							pos: position{line: 2145, col: 7, offset: 69367},
 							expr: &charClassMatcher{
-								pos:        position{line: 2834, col: 13, offset: 90275},
+								pos:        position{line: 2834, col: 13, offset: 90277},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -43649,29 +43649,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2148, col: 1, offset: 69382},
+			pos:  position{line: 2148, col: 1, offset: 69384},
 			expr: &actionExpr{
-				pos: position{line: 2149, col: 5, offset: 69415},
+				pos: position{line: 2149, col: 5, offset: 69417},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2149, col: 5, offset: 69415},
+					pos: position{line: 2149, col: 5, offset: 69417},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2131, col: 5, offset: 68978},
+							pos:        position{line: 2131, col: 5, offset: 68980},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2132, col: 5, offset: 68987},
+							pos: position{line: 2132, col: 5, offset: 68989},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2136, col: 5, offset: 69110},
+							pos: position{line: 2136, col: 5, offset: 69112},
 							expr: &notExpr{
-								pos: position{line: 2136, col: 7, offset: 69112},
+								pos: position{line: 2136, col: 7, offset: 69114},
 								expr: &litMatcher{
-									pos:        position{line: 2136, col: 8, offset: 69113},
+									pos:        position{line: 2136, col: 8, offset: 69115},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43679,15 +43679,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2150, col: 5, offset: 69459},
+							pos:   position{line: 2150, col: 5, offset: 69461},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2150, col: 15, offset: 69469},
+								pos:  position{line: 2150, col: 15, offset: 69471},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2151, col: 5, offset: 69508},
+							pos:  position{line: 2151, col: 5, offset: 69510},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -43696,20 +43696,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2155, col: 1, offset: 69645},
+			pos:  position{line: 2155, col: 1, offset: 69647},
 			expr: &actionExpr{
-				pos: position{line: 2156, col: 5, offset: 69686},
+				pos: position{line: 2156, col: 5, offset: 69688},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2156, col: 5, offset: 69686},
+					pos: position{line: 2156, col: 5, offset: 69688},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2156, col: 5, offset: 69686},
+							pos: position{line: 2156, col: 5, offset: 69688},
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 10, offset: 93180},
+								pos: position{line: 2944, col: 10, offset: 93182},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2944, col: 10, offset: 93180},
+									pos:        position{line: 2944, col: 10, offset: 93182},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43718,18 +43718,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2157, col: 5, offset: 69725},
+							pos:   position{line: 2157, col: 5, offset: 69727},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2157, col: 14, offset: 69734},
+								pos: position{line: 2157, col: 14, offset: 69736},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2157, col: 15, offset: 69735},
+									pos:  position{line: 2157, col: 15, offset: 69737},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2158, col: 5, offset: 69773},
+							pos: position{line: 2158, col: 5, offset: 69775},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -43738,31 +43738,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2164, col: 1, offset: 69914},
+			pos:  position{line: 2164, col: 1, offset: 69916},
 			expr: &actionExpr{
-				pos: position{line: 2165, col: 5, offset: 69954},
+				pos: position{line: 2165, col: 5, offset: 69956},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2165, col: 5, offset: 69954},
+					pos: position{line: 2165, col: 5, offset: 69956},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2961, col: 11, offset: 93514},
+							pos: position{line: 2961, col: 11, offset: 93516},
 							expr: &anyMatcher{
-								line: 2961, col: 13, offset: 93516,
+								line: 2961, col: 13, offset: 93518,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2166, col: 5, offset: 69965},
+							pos: position{line: 2166, col: 5, offset: 69967},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2166, col: 6, offset: 69966},
+								pos:  position{line: 2166, col: 6, offset: 69968},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2167, col: 5, offset: 70007},
+							pos:   position{line: 2167, col: 5, offset: 70009},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2167, col: 14, offset: 70016},
+								pos:  position{line: 2167, col: 14, offset: 70018},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43772,35 +43772,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2172, col: 1, offset: 70104},
+			pos:  position{line: 2172, col: 1, offset: 70106},
 			expr: &choiceExpr{
-				pos: position{line: 2174, col: 5, offset: 70175},
+				pos: position{line: 2174, col: 5, offset: 70177},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2174, col: 5, offset: 70175},
+						pos: position{line: 2174, col: 5, offset: 70177},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2174, col: 5, offset: 70175},
+							pos: position{line: 2174, col: 5, offset: 70177},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2174, col: 5, offset: 70175},
+									pos:   position{line: 2174, col: 5, offset: 70177},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1877, col: 25, offset: 60857},
+										pos: position{line: 1877, col: 25, offset: 60859},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1877, col: 25, offset: 60857},
+											pos: position{line: 1877, col: 25, offset: 60859},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1877, col: 25, offset: 60857},
+													pos:        position{line: 1877, col: 25, offset: 60859},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1877, col: 30, offset: 60862},
+													pos: position{line: 1877, col: 30, offset: 60864},
 													expr: &litMatcher{
-														pos:        position{line: 1877, col: 30, offset: 60862},
+														pos:        position{line: 1877, col: 30, offset: 60864},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43811,21 +43811,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2174, col: 40, offset: 70210},
+									pos:        position{line: 2174, col: 40, offset: 70212},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2174, col: 45, offset: 70215},
+									pos:   position{line: 2174, col: 45, offset: 70217},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2174, col: 55, offset: 70225},
+										pos:  position{line: 2174, col: 55, offset: 70227},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2174, col: 89, offset: 70259},
+									pos:        position{line: 2174, col: 89, offset: 70261},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -43834,21 +43834,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2178, col: 7, offset: 70428},
+						pos: position{line: 2178, col: 7, offset: 70430},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2178, col: 7, offset: 70428},
+							pos: position{line: 2178, col: 7, offset: 70430},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2178, col: 7, offset: 70428},
+									pos:   position{line: 2178, col: 7, offset: 70430},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1873, col: 25, offset: 60784},
+										pos: position{line: 1873, col: 25, offset: 60786},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1873, col: 25, offset: 60784},
+											pos: position{line: 1873, col: 25, offset: 60786},
 											expr: &litMatcher{
-												pos:        position{line: 1873, col: 25, offset: 60784},
+												pos:        position{line: 1873, col: 25, offset: 60786},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43857,21 +43857,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2178, col: 42, offset: 70463},
+									pos:        position{line: 2178, col: 42, offset: 70465},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2178, col: 47, offset: 70468},
+									pos:   position{line: 2178, col: 47, offset: 70470},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2178, col: 57, offset: 70478},
+										pos:  position{line: 2178, col: 57, offset: 70480},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2178, col: 91, offset: 70512},
+									pos:        position{line: 2178, col: 91, offset: 70514},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43880,21 +43880,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2183, col: 7, offset: 70718},
+						pos: position{line: 2183, col: 7, offset: 70720},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2183, col: 7, offset: 70718},
+							pos: position{line: 2183, col: 7, offset: 70720},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2183, col: 7, offset: 70718},
+									pos:   position{line: 2183, col: 7, offset: 70720},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1873, col: 25, offset: 60784},
+										pos: position{line: 1873, col: 25, offset: 60786},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1873, col: 25, offset: 60784},
+											pos: position{line: 1873, col: 25, offset: 60786},
 											expr: &litMatcher{
-												pos:        position{line: 1873, col: 25, offset: 60784},
+												pos:        position{line: 1873, col: 25, offset: 60786},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43903,21 +43903,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2183, col: 42, offset: 70753},
+									pos:        position{line: 2183, col: 42, offset: 70755},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2183, col: 46, offset: 70757},
+									pos:   position{line: 2183, col: 46, offset: 70759},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2183, col: 56, offset: 70767},
+										pos:  position{line: 2183, col: 56, offset: 70769},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2183, col: 90, offset: 70801},
+									pos:        position{line: 2183, col: 90, offset: 70803},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43930,29 +43930,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2200, col: 1, offset: 71286},
+			pos:  position{line: 2200, col: 1, offset: 71288},
 			expr: &actionExpr{
-				pos: position{line: 2201, col: 5, offset: 71316},
+				pos: position{line: 2201, col: 5, offset: 71318},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2201, col: 5, offset: 71316},
+					pos: position{line: 2201, col: 5, offset: 71318},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2196, col: 40, offset: 71237},
+							pos:        position{line: 2196, col: 40, offset: 71239},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2202, col: 5, offset: 71357},
+							pos:   position{line: 2202, col: 5, offset: 71359},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2202, col: 15, offset: 71367},
+								pos:  position{line: 2202, col: 15, offset: 71369},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2198, col: 38, offset: 71280},
+							pos:        position{line: 2198, col: 38, offset: 71282},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -43963,24 +43963,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2207, col: 1, offset: 71533},
+			pos:  position{line: 2207, col: 1, offset: 71535},
 			expr: &actionExpr{
-				pos: position{line: 2208, col: 5, offset: 71570},
+				pos: position{line: 2208, col: 5, offset: 71572},
 				run: (*parser).callonDoubleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2208, col: 5, offset: 71570},
+					pos: position{line: 2208, col: 5, offset: 71572},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2208, col: 5, offset: 71570},
+							pos: position{line: 2208, col: 5, offset: 71572},
 							run: (*parser).callonDoubleQuoteMarkedTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2212, col: 5, offset: 71690},
+							pos:   position{line: 2212, col: 5, offset: 71692},
 							label: "elements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2212, col: 14, offset: 71699},
+								pos: position{line: 2212, col: 14, offset: 71701},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2212, col: 15, offset: 71700},
+									pos:  position{line: 2212, col: 15, offset: 71702},
 									name: "DoubleQuoteMarkedTextElement",
 								},
 							},
@@ -43991,33 +43991,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2216, col: 1, offset: 71769},
+			pos:  position{line: 2216, col: 1, offset: 71771},
 			expr: &actionExpr{
-				pos: position{line: 2217, col: 5, offset: 71838},
+				pos: position{line: 2217, col: 5, offset: 71840},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2217, col: 5, offset: 71838},
+					pos: position{line: 2217, col: 5, offset: 71840},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2961, col: 11, offset: 93514},
+							pos: position{line: 2961, col: 11, offset: 93516},
 							expr: &anyMatcher{
-								line: 2961, col: 13, offset: 93516,
+								line: 2961, col: 13, offset: 93518,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2218, col: 5, offset: 71849},
+							pos: position{line: 2218, col: 5, offset: 71851},
 							expr: &litMatcher{
-								pos:        position{line: 2198, col: 38, offset: 71280},
+								pos:        position{line: 2198, col: 38, offset: 71282},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2219, col: 5, offset: 71888},
+							pos:   position{line: 2219, col: 5, offset: 71890},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2219, col: 14, offset: 71897},
+								pos:  position{line: 2219, col: 14, offset: 71899},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44027,29 +44027,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2244, col: 1, offset: 72579},
+			pos:  position{line: 2244, col: 1, offset: 72581},
 			expr: &actionExpr{
-				pos: position{line: 2245, col: 5, offset: 72609},
+				pos: position{line: 2245, col: 5, offset: 72611},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2245, col: 5, offset: 72609},
+					pos: position{line: 2245, col: 5, offset: 72611},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2228, col: 5, offset: 72145},
+							pos:        position{line: 2228, col: 5, offset: 72147},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2229, col: 5, offset: 72154},
+							pos: position{line: 2229, col: 5, offset: 72156},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2233, col: 5, offset: 72274},
+							pos: position{line: 2233, col: 5, offset: 72276},
 							expr: &notExpr{
-								pos: position{line: 2233, col: 7, offset: 72276},
+								pos: position{line: 2233, col: 7, offset: 72278},
 								expr: &litMatcher{
-									pos:        position{line: 2233, col: 8, offset: 72277},
+									pos:        position{line: 2233, col: 8, offset: 72279},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -44057,38 +44057,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2246, col: 5, offset: 72649},
+							pos:   position{line: 2246, col: 5, offset: 72651},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2246, col: 15, offset: 72659},
+								pos:  position{line: 2246, col: 15, offset: 72661},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2236, col: 5, offset: 72382},
+							pos:        position{line: 2236, col: 5, offset: 72384},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2237, col: 5, offset: 72390},
+							pos: position{line: 2237, col: 5, offset: 72392},
 							expr: &litMatcher{
-								pos:        position{line: 2237, col: 6, offset: 72391},
+								pos:        position{line: 2237, col: 6, offset: 72393},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2238, col: 5, offset: 72454},
+							pos: position{line: 2238, col: 5, offset: 72456},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2242, col: 5, offset: 72565},
+							pos: position{line: 2242, col: 5, offset: 72567},
 							expr: &notExpr{
-								pos: position{line: 2242, col: 7, offset: 72567},
+								pos: position{line: 2242, col: 7, offset: 72569},
 								expr: &charClassMatcher{
-									pos:        position{line: 2834, col: 13, offset: 90275},
+									pos:        position{line: 2834, col: 13, offset: 90277},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44102,20 +44102,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2251, col: 1, offset: 72826},
+			pos:  position{line: 2251, col: 1, offset: 72828},
 			expr: &actionExpr{
-				pos: position{line: 2252, col: 5, offset: 72864},
+				pos: position{line: 2252, col: 5, offset: 72866},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2252, col: 5, offset: 72864},
+					pos: position{line: 2252, col: 5, offset: 72866},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2252, col: 5, offset: 72864},
+							pos: position{line: 2252, col: 5, offset: 72866},
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 10, offset: 93180},
+								pos: position{line: 2944, col: 10, offset: 93182},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2944, col: 10, offset: 93180},
+									pos:        position{line: 2944, col: 10, offset: 93182},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44124,18 +44124,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2253, col: 5, offset: 72903},
+							pos:   position{line: 2253, col: 5, offset: 72905},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2253, col: 14, offset: 72912},
+								pos: position{line: 2253, col: 14, offset: 72914},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2253, col: 15, offset: 72913},
+									pos:  position{line: 2253, col: 15, offset: 72915},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2254, col: 5, offset: 72949},
+							pos: position{line: 2254, col: 5, offset: 72951},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -44144,49 +44144,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2260, col: 1, offset: 73090},
+			pos:  position{line: 2260, col: 1, offset: 73092},
 			expr: &actionExpr{
-				pos: position{line: 2261, col: 5, offset: 73127},
+				pos: position{line: 2261, col: 5, offset: 73129},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2261, col: 5, offset: 73127},
+					pos: position{line: 2261, col: 5, offset: 73129},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2961, col: 11, offset: 93514},
+							pos: position{line: 2961, col: 11, offset: 93516},
 							expr: &anyMatcher{
-								line: 2961, col: 13, offset: 93516,
+								line: 2961, col: 13, offset: 93518,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2262, col: 5, offset: 73138},
+							pos: position{line: 2262, col: 5, offset: 73140},
 							expr: &seqExpr{
-								pos: position{line: 2236, col: 5, offset: 72382},
+								pos: position{line: 2236, col: 5, offset: 72384},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2236, col: 5, offset: 72382},
+										pos:        position{line: 2236, col: 5, offset: 72384},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2237, col: 5, offset: 72390},
+										pos: position{line: 2237, col: 5, offset: 72392},
 										expr: &litMatcher{
-											pos:        position{line: 2237, col: 6, offset: 72391},
+											pos:        position{line: 2237, col: 6, offset: 72393},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2238, col: 5, offset: 72454},
+										pos: position{line: 2238, col: 5, offset: 72456},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2242, col: 5, offset: 72565},
+										pos: position{line: 2242, col: 5, offset: 72567},
 										expr: &notExpr{
-											pos: position{line: 2242, col: 7, offset: 72567},
+											pos: position{line: 2242, col: 7, offset: 72569},
 											expr: &charClassMatcher{
-												pos:        position{line: 2834, col: 13, offset: 90275},
+												pos:        position{line: 2834, col: 13, offset: 90277},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44198,10 +44198,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2263, col: 5, offset: 73177},
+							pos:   position{line: 2263, col: 5, offset: 73179},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2263, col: 14, offset: 73186},
+								pos:  position{line: 2263, col: 14, offset: 73188},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44211,35 +44211,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2268, col: 1, offset: 73274},
+			pos:  position{line: 2268, col: 1, offset: 73276},
 			expr: &choiceExpr{
-				pos: position{line: 2270, col: 5, offset: 73338},
+				pos: position{line: 2270, col: 5, offset: 73340},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2270, col: 5, offset: 73338},
+						pos: position{line: 2270, col: 5, offset: 73340},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2270, col: 5, offset: 73338},
+							pos: position{line: 2270, col: 5, offset: 73340},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2270, col: 5, offset: 73338},
+									pos:   position{line: 2270, col: 5, offset: 73340},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1877, col: 25, offset: 60857},
+										pos: position{line: 1877, col: 25, offset: 60859},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1877, col: 25, offset: 60857},
+											pos: position{line: 1877, col: 25, offset: 60859},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1877, col: 25, offset: 60857},
+													pos:        position{line: 1877, col: 25, offset: 60859},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1877, col: 30, offset: 60862},
+													pos: position{line: 1877, col: 30, offset: 60864},
 													expr: &litMatcher{
-														pos:        position{line: 1877, col: 30, offset: 60862},
+														pos:        position{line: 1877, col: 30, offset: 60864},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -44250,21 +44250,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2270, col: 40, offset: 73373},
+									pos:        position{line: 2270, col: 40, offset: 73375},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2270, col: 45, offset: 73378},
+									pos:   position{line: 2270, col: 45, offset: 73380},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2270, col: 55, offset: 73388},
+										pos:  position{line: 2270, col: 55, offset: 73390},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2270, col: 86, offset: 73419},
+									pos:        position{line: 2270, col: 86, offset: 73421},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -44273,21 +44273,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2274, col: 7, offset: 73584},
+						pos: position{line: 2274, col: 7, offset: 73586},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2274, col: 7, offset: 73584},
+							pos: position{line: 2274, col: 7, offset: 73586},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2274, col: 7, offset: 73584},
+									pos:   position{line: 2274, col: 7, offset: 73586},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1873, col: 25, offset: 60784},
+										pos: position{line: 1873, col: 25, offset: 60786},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1873, col: 25, offset: 60784},
+											pos: position{line: 1873, col: 25, offset: 60786},
 											expr: &litMatcher{
-												pos:        position{line: 1873, col: 25, offset: 60784},
+												pos:        position{line: 1873, col: 25, offset: 60786},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44296,21 +44296,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2274, col: 42, offset: 73619},
+									pos:        position{line: 2274, col: 42, offset: 73621},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2274, col: 47, offset: 73624},
+									pos:   position{line: 2274, col: 47, offset: 73626},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2274, col: 57, offset: 73634},
+										pos:  position{line: 2274, col: 57, offset: 73636},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2274, col: 88, offset: 73665},
+									pos:        position{line: 2274, col: 88, offset: 73667},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -44319,21 +44319,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2279, col: 7, offset: 73868},
+						pos: position{line: 2279, col: 7, offset: 73870},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2279, col: 7, offset: 73868},
+							pos: position{line: 2279, col: 7, offset: 73870},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2279, col: 7, offset: 73868},
+									pos:   position{line: 2279, col: 7, offset: 73870},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1873, col: 25, offset: 60784},
+										pos: position{line: 1873, col: 25, offset: 60786},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1873, col: 25, offset: 60784},
+											pos: position{line: 1873, col: 25, offset: 60786},
 											expr: &litMatcher{
-												pos:        position{line: 1873, col: 25, offset: 60784},
+												pos:        position{line: 1873, col: 25, offset: 60786},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44342,21 +44342,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2279, col: 42, offset: 73903},
+									pos:        position{line: 2279, col: 42, offset: 73905},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2279, col: 46, offset: 73907},
+									pos:   position{line: 2279, col: 46, offset: 73909},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2279, col: 56, offset: 73917},
+										pos:  position{line: 2279, col: 56, offset: 73919},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2279, col: 87, offset: 73948},
+									pos:        position{line: 2279, col: 87, offset: 73950},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -44369,29 +44369,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2286, col: 1, offset: 74215},
+			pos:  position{line: 2286, col: 1, offset: 74217},
 			expr: &actionExpr{
-				pos: position{line: 2287, col: 5, offset: 74237},
+				pos: position{line: 2287, col: 5, offset: 74239},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2287, col: 5, offset: 74237},
+					pos: position{line: 2287, col: 5, offset: 74239},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2293, col: 27, offset: 74452},
+							pos:        position{line: 2293, col: 27, offset: 74454},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2288, col: 5, offset: 74264},
+							pos:   position{line: 2288, col: 5, offset: 74266},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2288, col: 14, offset: 74273},
+								pos:  position{line: 2288, col: 14, offset: 74275},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2293, col: 27, offset: 74452},
+							pos:        position{line: 2293, col: 27, offset: 74454},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -44402,34 +44402,34 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2295, col: 1, offset: 74457},
+			pos:  position{line: 2295, col: 1, offset: 74459},
 			expr: &actionExpr{
-				pos: position{line: 2296, col: 5, offset: 74485},
+				pos: position{line: 2296, col: 5, offset: 74487},
 				run: (*parser).callonSubscriptTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2296, col: 5, offset: 74485},
+					pos: position{line: 2296, col: 5, offset: 74487},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2296, col: 5, offset: 74485},
+							pos: position{line: 2296, col: 5, offset: 74487},
 							run: (*parser).callonSubscriptTextElement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2300, col: 5, offset: 74605},
+							pos:   position{line: 2300, col: 5, offset: 74607},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2300, col: 14, offset: 74614},
+								pos: position{line: 2300, col: 14, offset: 74616},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2300, col: 14, offset: 74614},
+										pos:  position{line: 2300, col: 14, offset: 74616},
 										name: "QuotedText",
 									},
 									&actionExpr{
-										pos: position{line: 2304, col: 21, offset: 74702},
+										pos: position{line: 2304, col: 21, offset: 74704},
 										run: (*parser).callonSubscriptTextElement7,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2304, col: 21, offset: 74702},
+											pos: position{line: 2304, col: 21, offset: 74704},
 											expr: &charClassMatcher{
-												pos:        position{line: 2304, col: 21, offset: 74702},
+												pos:        position{line: 2304, col: 21, offset: 74704},
 												val:        "[^\\r\\n ~]",
 												chars:      []rune{'\r', '\n', ' ', '~'},
 												ignoreCase: false,
@@ -44446,23 +44446,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2308, col: 1, offset: 74787},
+			pos:  position{line: 2308, col: 1, offset: 74789},
 			expr: &actionExpr{
-				pos: position{line: 2310, col: 5, offset: 74854},
+				pos: position{line: 2310, col: 5, offset: 74856},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2310, col: 5, offset: 74854},
+					pos: position{line: 2310, col: 5, offset: 74856},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2310, col: 5, offset: 74854},
+							pos:   position{line: 2310, col: 5, offset: 74856},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1873, col: 25, offset: 60784},
+								pos: position{line: 1873, col: 25, offset: 60786},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1873, col: 25, offset: 60784},
+									pos: position{line: 1873, col: 25, offset: 60786},
 									expr: &litMatcher{
-										pos:        position{line: 1873, col: 25, offset: 60784},
+										pos:        position{line: 1873, col: 25, offset: 60786},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -44471,21 +44471,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2293, col: 27, offset: 74452},
+							pos:        position{line: 2293, col: 27, offset: 74454},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2312, col: 5, offset: 74922},
+							pos:   position{line: 2312, col: 5, offset: 74924},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2312, col: 14, offset: 74931},
+								pos:  position{line: 2312, col: 14, offset: 74933},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2293, col: 27, offset: 74452},
+							pos:        position{line: 2293, col: 27, offset: 74454},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -44496,29 +44496,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2320, col: 1, offset: 75194},
+			pos:  position{line: 2320, col: 1, offset: 75196},
 			expr: &actionExpr{
-				pos: position{line: 2321, col: 5, offset: 75218},
+				pos: position{line: 2321, col: 5, offset: 75220},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2321, col: 5, offset: 75218},
+					pos: position{line: 2321, col: 5, offset: 75220},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2327, col: 29, offset: 75445},
+							pos:        position{line: 2327, col: 29, offset: 75447},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2322, col: 5, offset: 75248},
+							pos:   position{line: 2322, col: 5, offset: 75250},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2322, col: 14, offset: 75257},
+								pos:  position{line: 2322, col: 14, offset: 75259},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2327, col: 29, offset: 75445},
+							pos:        position{line: 2327, col: 29, offset: 75447},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -44529,34 +44529,34 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2329, col: 1, offset: 75450},
+			pos:  position{line: 2329, col: 1, offset: 75452},
 			expr: &actionExpr{
-				pos: position{line: 2330, col: 5, offset: 75480},
+				pos: position{line: 2330, col: 5, offset: 75482},
 				run: (*parser).callonSuperscriptTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2330, col: 5, offset: 75480},
+					pos: position{line: 2330, col: 5, offset: 75482},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2330, col: 5, offset: 75480},
+							pos: position{line: 2330, col: 5, offset: 75482},
 							run: (*parser).callonSuperscriptTextElement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2334, col: 5, offset: 75600},
+							pos:   position{line: 2334, col: 5, offset: 75602},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2334, col: 14, offset: 75609},
+								pos: position{line: 2334, col: 14, offset: 75611},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2334, col: 14, offset: 75609},
+										pos:  position{line: 2334, col: 14, offset: 75611},
 										name: "QuotedText",
 									},
 									&actionExpr{
-										pos: position{line: 2338, col: 23, offset: 75701},
+										pos: position{line: 2338, col: 23, offset: 75703},
 										run: (*parser).callonSuperscriptTextElement7,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2338, col: 23, offset: 75701},
+											pos: position{line: 2338, col: 23, offset: 75703},
 											expr: &charClassMatcher{
-												pos:        position{line: 2338, col: 23, offset: 75701},
+												pos:        position{line: 2338, col: 23, offset: 75703},
 												val:        "[^\\r\\n ^]",
 												chars:      []rune{'\r', '\n', ' ', '^'},
 												ignoreCase: false,
@@ -44573,23 +44573,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2342, col: 1, offset: 75786},
+			pos:  position{line: 2342, col: 1, offset: 75788},
 			expr: &actionExpr{
-				pos: position{line: 2344, col: 5, offset: 75858},
+				pos: position{line: 2344, col: 5, offset: 75860},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2344, col: 5, offset: 75858},
+					pos: position{line: 2344, col: 5, offset: 75860},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2344, col: 5, offset: 75858},
+							pos:   position{line: 2344, col: 5, offset: 75860},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1873, col: 25, offset: 60784},
+								pos: position{line: 1873, col: 25, offset: 60786},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1873, col: 25, offset: 60784},
+									pos: position{line: 1873, col: 25, offset: 60786},
 									expr: &litMatcher{
-										pos:        position{line: 1873, col: 25, offset: 60784},
+										pos:        position{line: 1873, col: 25, offset: 60786},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -44598,21 +44598,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2327, col: 29, offset: 75445},
+							pos:        position{line: 2327, col: 29, offset: 75447},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2346, col: 5, offset: 75928},
+							pos:   position{line: 2346, col: 5, offset: 75930},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2346, col: 14, offset: 75937},
+								pos:  position{line: 2346, col: 14, offset: 75939},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2327, col: 29, offset: 75445},
+							pos:        position{line: 2327, col: 29, offset: 75447},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -44623,27 +44623,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2355, col: 1, offset: 76406},
+			pos:  position{line: 2355, col: 1, offset: 76408},
 			expr: &actionExpr{
-				pos: position{line: 2356, col: 5, offset: 76422},
+				pos: position{line: 2356, col: 5, offset: 76424},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2356, col: 5, offset: 76422},
+					pos: position{line: 2356, col: 5, offset: 76424},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2356, col: 5, offset: 76422},
+							pos: position{line: 2356, col: 5, offset: 76424},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2359, col: 5, offset: 76485},
+							pos:   position{line: 2359, col: 5, offset: 76487},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2359, col: 12, offset: 76492},
+								pos: position{line: 2359, col: 12, offset: 76494},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2359, col: 12, offset: 76492},
+									pos: position{line: 2359, col: 12, offset: 76494},
 									expr: &litMatcher{
-										pos:        position{line: 2359, col: 13, offset: 76493},
+										pos:        position{line: 2359, col: 13, offset: 76495},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -44652,16 +44652,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2363, col: 5, offset: 76601},
+							pos: position{line: 2363, col: 5, offset: 76603},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2948, col: 11, offset: 93241},
+							pos: position{line: 2948, col: 11, offset: 93243},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2948, col: 11, offset: 93241},
+								pos: position{line: 2948, col: 11, offset: 93243},
 								expr: &charClassMatcher{
-									pos:        position{line: 2948, col: 11, offset: 93241},
+									pos:        position{line: 2948, col: 11, offset: 93243},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44670,36 +44670,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2367, col: 12, offset: 76760},
+							pos:   position{line: 2367, col: 12, offset: 76762},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2367, col: 19, offset: 76767},
+								pos:  position{line: 2367, col: 19, offset: 76769},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2966, col: 8, offset: 93578},
+							pos: position{line: 2966, col: 8, offset: 93580},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2953, col: 12, offset: 93351},
+									pos: position{line: 2953, col: 12, offset: 93353},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2953, col: 13, offset: 93352},
+										pos: position{line: 2953, col: 13, offset: 93354},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2953, col: 13, offset: 93352},
+												pos:        position{line: 2953, col: 13, offset: 93354},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 20, offset: 93359},
+												pos:        position{line: 2953, col: 20, offset: 93361},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 29, offset: 93368},
+												pos:        position{line: 2953, col: 29, offset: 93370},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -44708,9 +44708,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2963, col: 8, offset: 93528},
+									pos: position{line: 2963, col: 8, offset: 93530},
 									expr: &anyMatcher{
-										line: 2963, col: 9, offset: 93529,
+										line: 2963, col: 9, offset: 93531,
 									},
 								},
 							},
@@ -44721,24 +44721,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2371, col: 1, offset: 76863},
+			pos:  position{line: 2371, col: 1, offset: 76865},
 			expr: &actionExpr{
-				pos: position{line: 2372, col: 5, offset: 76884},
+				pos: position{line: 2372, col: 5, offset: 76886},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2372, col: 5, offset: 76884},
+					pos: position{line: 2372, col: 5, offset: 76886},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2372, col: 5, offset: 76884},
+							pos: position{line: 2372, col: 5, offset: 76886},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2378, col: 5, offset: 77075},
+							pos:   position{line: 2378, col: 5, offset: 77077},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2378, col: 14, offset: 77084},
+								pos: position{line: 2378, col: 14, offset: 77086},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2378, col: 15, offset: 77085},
+									pos:  position{line: 2378, col: 15, offset: 77087},
 									name: "SectionTitleElement",
 								},
 							},
@@ -44749,38 +44749,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2382, col: 1, offset: 77166},
+			pos:  position{line: 2382, col: 1, offset: 77168},
 			expr: &actionExpr{
-				pos: position{line: 2383, col: 5, offset: 77193},
+				pos: position{line: 2383, col: 5, offset: 77195},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2383, col: 5, offset: 77193},
+					pos: position{line: 2383, col: 5, offset: 77195},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2383, col: 5, offset: 77193},
+							pos: position{line: 2383, col: 5, offset: 77195},
 							expr: &choiceExpr{
-								pos: position{line: 2966, col: 8, offset: 93578},
+								pos: position{line: 2966, col: 8, offset: 93580},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2953, col: 12, offset: 93351},
+										pos: position{line: 2953, col: 12, offset: 93353},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2953, col: 13, offset: 93352},
+											pos: position{line: 2953, col: 13, offset: 93354},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2953, col: 13, offset: 93352},
+													pos:        position{line: 2953, col: 13, offset: 93354},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2953, col: 20, offset: 93359},
+													pos:        position{line: 2953, col: 20, offset: 93361},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2953, col: 29, offset: 93368},
+													pos:        position{line: 2953, col: 29, offset: 93370},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44789,36 +44789,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2963, col: 8, offset: 93528},
+										pos: position{line: 2963, col: 8, offset: 93530},
 										expr: &anyMatcher{
-											line: 2963, col: 9, offset: 93529,
+											line: 2963, col: 9, offset: 93531,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2384, col: 5, offset: 77202},
+							pos:   position{line: 2384, col: 5, offset: 77204},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2385, col: 9, offset: 77220},
+								pos: position{line: 2385, col: 9, offset: 77222},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2843, col: 5, offset: 90422},
+										pos: position{line: 2843, col: 5, offset: 90424},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2843, col: 5, offset: 90422},
+											pos: position{line: 2843, col: 5, offset: 90424},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2843, col: 5, offset: 90422},
+													pos:   position{line: 2843, col: 5, offset: 90424},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2843, col: 11, offset: 90428},
+														pos: position{line: 2843, col: 11, offset: 90430},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2843, col: 11, offset: 90428},
+															pos: position{line: 2843, col: 11, offset: 90430},
 															expr: &charClassMatcher{
-																pos:        position{line: 2843, col: 11, offset: 90428},
+																pos:        position{line: 2843, col: 11, offset: 90430},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44828,36 +44828,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2846, col: 5, offset: 90486},
+													pos: position{line: 2846, col: 5, offset: 90488},
 													expr: &seqExpr{
-														pos: position{line: 2847, col: 9, offset: 90497},
+														pos: position{line: 2847, col: 9, offset: 90499},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2847, col: 9, offset: 90497},
+																pos:        position{line: 2847, col: 9, offset: 90499},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2848, col: 9, offset: 90546},
+																pos: position{line: 2848, col: 9, offset: 90548},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2852, col: 5, offset: 90626},
+													pos: position{line: 2852, col: 5, offset: 90628},
 													expr: &seqExpr{
-														pos: position{line: 2853, col: 9, offset: 90637},
+														pos: position{line: 2853, col: 9, offset: 90639},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2853, col: 9, offset: 90637},
+																pos:        position{line: 2853, col: 9, offset: 90639},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2853, col: 13, offset: 90641},
+																pos:        position{line: 2853, col: 13, offset: 90643},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44870,12 +44870,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2948, col: 11, offset: 93241},
+										pos: position{line: 2948, col: 11, offset: 93243},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2948, col: 11, offset: 93241},
+											pos: position{line: 2948, col: 11, offset: 93243},
 											expr: &charClassMatcher{
-												pos:        position{line: 2948, col: 11, offset: 93241},
+												pos:        position{line: 2948, col: 11, offset: 93243},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -44884,21 +44884,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2556, col: 5, offset: 82485},
+										pos: position{line: 2556, col: 5, offset: 82487},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2556, col: 5, offset: 82485},
+											pos: position{line: 2556, col: 5, offset: 82487},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2556, col: 5, offset: 82485},
+													pos:        position{line: 2556, col: 5, offset: 82487},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2556, col: 10, offset: 82490},
+													pos: position{line: 2556, col: 10, offset: 82492},
 													expr: &charClassMatcher{
-														pos:        position{line: 2556, col: 11, offset: 82491},
+														pos:        position{line: 2556, col: 11, offset: 82493},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -44909,29 +44909,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2562, col: 5, offset: 82683},
+										pos: position{line: 2562, col: 5, offset: 82685},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2562, col: 5, offset: 82683},
+											pos: position{line: 2562, col: 5, offset: 82685},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2562, col: 5, offset: 82683},
+													pos: position{line: 2562, col: 5, offset: 82685},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2565, col: 5, offset: 82754},
+													pos: position{line: 2565, col: 5, offset: 82756},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2569, col: 5, offset: 82879},
+													pos:        position{line: 2569, col: 5, offset: 82881},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2569, col: 9, offset: 82883},
+													pos: position{line: 2569, col: 9, offset: 82885},
 													expr: &charClassMatcher{
-														pos:        position{line: 2569, col: 10, offset: 82884},
+														pos:        position{line: 2569, col: 10, offset: 82886},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -44942,31 +44942,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2388, col: 11, offset: 77285},
+										pos:  position{line: 2388, col: 11, offset: 77287},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 5, offset: 90834},
+										pos: position{line: 2861, col: 5, offset: 90836},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2862, col: 9, offset: 90844},
+											pos: position{line: 2862, col: 9, offset: 90846},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2862, col: 10, offset: 90845},
+													pos:        position{line: 2862, col: 10, offset: 90847},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2864, col: 13, offset: 90942},
+													pos: position{line: 2864, col: 13, offset: 90944},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2864, col: 13, offset: 90942},
+															pos: position{line: 2864, col: 13, offset: 90944},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2867, col: 13, offset: 91042},
+															pos:        position{line: 2867, col: 13, offset: 91044},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -44974,20 +44974,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2867, col: 19, offset: 91048},
+													pos:        position{line: 2867, col: 19, offset: 91050},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2870, col: 13, offset: 91086},
+													pos: position{line: 2870, col: 13, offset: 91088},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2870, col: 13, offset: 91086},
+															pos: position{line: 2870, col: 13, offset: 91088},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2873, col: 14, offset: 91179},
+															pos:        position{line: 2873, col: 14, offset: 91181},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -44996,18 +44996,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2875, col: 12, offset: 91223},
+													pos: position{line: 2875, col: 12, offset: 91225},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2875, col: 12, offset: 91223},
+															pos:        position{line: 2875, col: 12, offset: 91225},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2875, col: 16, offset: 91227},
+															pos: position{line: 2875, col: 16, offset: 91229},
 															expr: &litMatcher{
-																pos:        position{line: 2875, col: 17, offset: 91228},
+																pos:        position{line: 2875, col: 17, offset: 91230},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45019,35 +45019,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2390, col: 11, offset: 77358},
+										pos:  position{line: 2390, col: 11, offset: 77360},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2391, col: 11, offset: 77374},
+										pos:  position{line: 2391, col: 11, offset: 77376},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2392, col: 11, offset: 77402},
+										pos:  position{line: 2392, col: 11, offset: 77404},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2525, col: 5, offset: 81286},
+										pos: position{line: 2525, col: 5, offset: 81288},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 5, offset: 81286},
+											pos: position{line: 2525, col: 5, offset: 81288},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2525, col: 5, offset: 81286},
+													pos: position{line: 2525, col: 5, offset: 81288},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2528, col: 5, offset: 81362},
+													pos:   position{line: 2528, col: 5, offset: 81364},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2529, col: 9, offset: 81380},
+														pos: position{line: 2529, col: 9, offset: 81382},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2529, col: 10, offset: 81381},
+															pos:        position{line: 2529, col: 10, offset: 81383},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45059,39 +45059,39 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2394, col: 11, offset: 77487},
+										pos:  position{line: 2394, col: 11, offset: 77489},
 										name: "InlineIcon",
 									},
 									&actionExpr{
-										pos: position{line: 661, col: 5, offset: 21195},
+										pos: position{line: 661, col: 5, offset: 21197},
 										run: (*parser).callonSectionTitleElement68,
 										expr: &seqExpr{
-											pos: position{line: 661, col: 5, offset: 21195},
+											pos: position{line: 661, col: 5, offset: 21197},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 661, col: 5, offset: 21195},
+													pos: position{line: 661, col: 5, offset: 21197},
 													run: (*parser).callonSectionTitleElement70,
 												},
 												&labeledExpr{
-													pos:   position{line: 664, col: 5, offset: 21267},
+													pos:   position{line: 664, col: 5, offset: 21269},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 664, col: 14, offset: 21276},
+														pos: position{line: 664, col: 14, offset: 21278},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 670, col: 5, offset: 21405},
+																pos: position{line: 670, col: 5, offset: 21407},
 																run: (*parser).callonSectionTitleElement73,
 																expr: &seqExpr{
-																	pos: position{line: 670, col: 5, offset: 21405},
+																	pos: position{line: 670, col: 5, offset: 21407},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 670, col: 5, offset: 21405},
+																			pos:        position{line: 670, col: 5, offset: 21407},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 670, col: 13, offset: 21413},
+																			pos:   position{line: 670, col: 13, offset: 21415},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -45123,7 +45123,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 670, col: 32, offset: 21432},
+																			pos:        position{line: 670, col: 32, offset: 21434},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -45132,19 +45132,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 677, col: 5, offset: 21673},
+																pos: position{line: 677, col: 5, offset: 21675},
 																run: (*parser).callonSectionTitleElement83,
 																expr: &seqExpr{
-																	pos: position{line: 677, col: 5, offset: 21673},
+																	pos: position{line: 677, col: 5, offset: 21675},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 677, col: 5, offset: 21673},
+																			pos:        position{line: 677, col: 5, offset: 21675},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 677, col: 9, offset: 21677},
+																			pos:   position{line: 677, col: 9, offset: 21679},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -45176,7 +45176,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 677, col: 28, offset: 21696},
+																			pos:        position{line: 677, col: 28, offset: 21698},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -45185,19 +45185,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 683, col: 25, offset: 21877},
+																pos: position{line: 683, col: 25, offset: 21879},
 																run: (*parser).callonSectionTitleElement93,
 																expr: &seqExpr{
-																	pos: position{line: 683, col: 25, offset: 21877},
+																	pos: position{line: 683, col: 25, offset: 21879},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 683, col: 25, offset: 21877},
+																			pos:        position{line: 683, col: 25, offset: 21879},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 683, col: 37, offset: 21889},
+																			pos:   position{line: 683, col: 37, offset: 21891},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -45229,33 +45229,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 683, col: 56, offset: 21908},
+																			pos:   position{line: 683, col: 56, offset: 21910},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 683, col: 62, offset: 21914},
+																				pos: position{line: 683, col: 62, offset: 21916},
 																				expr: &actionExpr{
-																					pos: position{line: 691, col: 17, offset: 22211},
+																					pos: position{line: 691, col: 17, offset: 22213},
 																					run: (*parser).callonSectionTitleElement104,
 																					expr: &seqExpr{
-																						pos: position{line: 691, col: 17, offset: 22211},
+																						pos: position{line: 691, col: 17, offset: 22213},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 691, col: 17, offset: 22211},
+																								pos:        position{line: 691, col: 17, offset: 22213},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 691, col: 21, offset: 22215},
+																								pos:   position{line: 691, col: 21, offset: 22217},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 691, col: 28, offset: 22222},
+																									pos: position{line: 691, col: 28, offset: 22224},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 691, col: 28, offset: 22222},
+																											pos: position{line: 691, col: 28, offset: 22224},
 																											run: (*parser).callonSectionTitleElement109,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 691, col: 28, offset: 22222},
+																												pos:        position{line: 691, col: 28, offset: 22224},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -45263,12 +45263,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 693, col: 9, offset: 22276},
+																											pos: position{line: 693, col: 9, offset: 22278},
 																											run: (*parser).callonSectionTitleElement111,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 693, col: 9, offset: 22276},
+																												pos: position{line: 693, col: 9, offset: 22278},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 693, col: 9, offset: 22276},
+																													pos:        position{line: 693, col: 9, offset: 22278},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -45285,7 +45285,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 683, col: 78, offset: 21930},
+																			pos:        position{line: 683, col: 78, offset: 21932},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -45294,19 +45294,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 687, col: 25, offset: 22048},
+																pos: position{line: 687, col: 25, offset: 22050},
 																run: (*parser).callonSectionTitleElement115,
 																expr: &seqExpr{
-																	pos: position{line: 687, col: 25, offset: 22048},
+																	pos: position{line: 687, col: 25, offset: 22050},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 687, col: 25, offset: 22048},
+																			pos:        position{line: 687, col: 25, offset: 22050},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 687, col: 38, offset: 22061},
+																			pos:   position{line: 687, col: 38, offset: 22063},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 320, col: 18, offset: 9837},
@@ -45338,33 +45338,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 687, col: 57, offset: 22080},
+																			pos:   position{line: 687, col: 57, offset: 22082},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 687, col: 63, offset: 22086},
+																				pos: position{line: 687, col: 63, offset: 22088},
 																				expr: &actionExpr{
-																					pos: position{line: 691, col: 17, offset: 22211},
+																					pos: position{line: 691, col: 17, offset: 22213},
 																					run: (*parser).callonSectionTitleElement126,
 																					expr: &seqExpr{
-																						pos: position{line: 691, col: 17, offset: 22211},
+																						pos: position{line: 691, col: 17, offset: 22213},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 691, col: 17, offset: 22211},
+																								pos:        position{line: 691, col: 17, offset: 22213},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 691, col: 21, offset: 22215},
+																								pos:   position{line: 691, col: 21, offset: 22217},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 691, col: 28, offset: 22222},
+																									pos: position{line: 691, col: 28, offset: 22224},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 691, col: 28, offset: 22222},
+																											pos: position{line: 691, col: 28, offset: 22224},
 																											run: (*parser).callonSectionTitleElement131,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 691, col: 28, offset: 22222},
+																												pos:        position{line: 691, col: 28, offset: 22224},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -45372,12 +45372,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 693, col: 9, offset: 22276},
+																											pos: position{line: 693, col: 9, offset: 22278},
 																											run: (*parser).callonSectionTitleElement133,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 693, col: 9, offset: 22276},
+																												pos: position{line: 693, col: 9, offset: 22278},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 693, col: 9, offset: 22276},
+																													pos:        position{line: 693, col: 9, offset: 22278},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -45394,7 +45394,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 687, col: 79, offset: 22102},
+																			pos:        position{line: 687, col: 79, offset: 22104},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -45409,27 +45409,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1223, col: 23, offset: 38060},
+										pos: position{line: 1223, col: 23, offset: 38062},
 										run: (*parser).callonSectionTitleElement137,
 										expr: &seqExpr{
-											pos: position{line: 1223, col: 23, offset: 38060},
+											pos: position{line: 1223, col: 23, offset: 38062},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1221, col: 32, offset: 38028},
+													pos:        position{line: 1221, col: 32, offset: 38030},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1223, col: 51, offset: 38088},
+													pos:   position{line: 1223, col: 51, offset: 38090},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1223, col: 56, offset: 38093},
+														pos: position{line: 1223, col: 56, offset: 38095},
 														run: (*parser).callonSectionTitleElement141,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1223, col: 56, offset: 38093},
+															pos: position{line: 1223, col: 56, offset: 38095},
 															expr: &charClassMatcher{
-																pos:        position{line: 1223, col: 56, offset: 38093},
+																pos:        position{line: 1223, col: 56, offset: 38095},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -45439,30 +45439,30 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1221, col: 32, offset: 38028},
+													pos:        position{line: 1221, col: 32, offset: 38030},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1223, col: 123, offset: 38160},
+													pos: position{line: 1223, col: 123, offset: 38162},
 													run: (*parser).callonSectionTitleElement145,
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2407, col: 5, offset: 77940},
+										pos: position{line: 2407, col: 5, offset: 77942},
 										run: (*parser).callonSectionTitleElement146,
 										expr: &seqExpr{
-											pos: position{line: 2407, col: 5, offset: 77940},
+											pos: position{line: 2407, col: 5, offset: 77942},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2407, col: 5, offset: 77940},
+													pos: position{line: 2407, col: 5, offset: 77942},
 													run: (*parser).callonSectionTitleElement148,
 												},
 												&labeledExpr{
-													pos:   position{line: 2410, col: 5, offset: 77995},
+													pos:   position{line: 2410, col: 5, offset: 77997},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 406, col: 5, offset: 12507},
@@ -45505,27 +45505,27 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 1223, col: 23, offset: 38060},
+																							pos: position{line: 1223, col: 23, offset: 38062},
 																							run: (*parser).callonSectionTitleElement161,
 																							expr: &seqExpr{
-																								pos: position{line: 1223, col: 23, offset: 38060},
+																								pos: position{line: 1223, col: 23, offset: 38062},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1221, col: 32, offset: 38028},
+																										pos:        position{line: 1221, col: 32, offset: 38030},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1223, col: 51, offset: 38088},
+																										pos:   position{line: 1223, col: 51, offset: 38090},
 																										label: "ref",
 																										expr: &actionExpr{
-																											pos: position{line: 1223, col: 56, offset: 38093},
+																											pos: position{line: 1223, col: 56, offset: 38095},
 																											run: (*parser).callonSectionTitleElement165,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1223, col: 56, offset: 38093},
+																												pos: position{line: 1223, col: 56, offset: 38095},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1223, col: 56, offset: 38093},
+																													pos:        position{line: 1223, col: 56, offset: 38095},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -45535,48 +45535,48 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1221, col: 32, offset: 38028},
+																										pos:        position{line: 1221, col: 32, offset: 38030},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1223, col: 123, offset: 38160},
+																										pos: position{line: 1223, col: 123, offset: 38162},
 																										run: (*parser).callonSectionTitleElement169,
 																									},
 																								},
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 661, col: 5, offset: 21195},
+																							pos: position{line: 661, col: 5, offset: 21197},
 																							run: (*parser).callonSectionTitleElement170,
 																							expr: &seqExpr{
-																								pos: position{line: 661, col: 5, offset: 21195},
+																								pos: position{line: 661, col: 5, offset: 21197},
 																								exprs: []interface{}{
 																									&andCodeExpr{
-																										pos: position{line: 661, col: 5, offset: 21195},
+																										pos: position{line: 661, col: 5, offset: 21197},
 																										run: (*parser).callonSectionTitleElement172,
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 664, col: 5, offset: 21267},
+																										pos:   position{line: 664, col: 5, offset: 21269},
 																										label: "element",
 																										expr: &choiceExpr{
-																											pos: position{line: 664, col: 14, offset: 21276},
+																											pos: position{line: 664, col: 14, offset: 21278},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 670, col: 5, offset: 21405},
+																													pos: position{line: 670, col: 5, offset: 21407},
 																													run: (*parser).callonSectionTitleElement175,
 																													expr: &seqExpr{
-																														pos: position{line: 670, col: 5, offset: 21405},
+																														pos: position{line: 670, col: 5, offset: 21407},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 670, col: 5, offset: 21405},
+																																pos:        position{line: 670, col: 5, offset: 21407},
 																																val:        "\\{",
 																																ignoreCase: false,
 																																want:       "\"\\\\{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 670, col: 13, offset: 21413},
+																																pos:   position{line: 670, col: 13, offset: 21415},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
@@ -45608,7 +45608,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 670, col: 32, offset: 21432},
+																																pos:        position{line: 670, col: 32, offset: 21434},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -45617,19 +45617,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 677, col: 5, offset: 21673},
+																													pos: position{line: 677, col: 5, offset: 21675},
 																													run: (*parser).callonSectionTitleElement185,
 																													expr: &seqExpr{
-																														pos: position{line: 677, col: 5, offset: 21673},
+																														pos: position{line: 677, col: 5, offset: 21675},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 677, col: 5, offset: 21673},
+																																pos:        position{line: 677, col: 5, offset: 21675},
 																																val:        "{",
 																																ignoreCase: false,
 																																want:       "\"{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 677, col: 9, offset: 21677},
+																																pos:   position{line: 677, col: 9, offset: 21679},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
@@ -45661,7 +45661,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 677, col: 28, offset: 21696},
+																																pos:        position{line: 677, col: 28, offset: 21698},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -45670,19 +45670,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 683, col: 25, offset: 21877},
+																													pos: position{line: 683, col: 25, offset: 21879},
 																													run: (*parser).callonSectionTitleElement195,
 																													expr: &seqExpr{
-																														pos: position{line: 683, col: 25, offset: 21877},
+																														pos: position{line: 683, col: 25, offset: 21879},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 683, col: 25, offset: 21877},
+																																pos:        position{line: 683, col: 25, offset: 21879},
 																																val:        "{counter:",
 																																ignoreCase: false,
 																																want:       "\"{counter:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 683, col: 37, offset: 21889},
+																																pos:   position{line: 683, col: 37, offset: 21891},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
@@ -45714,33 +45714,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 683, col: 56, offset: 21908},
+																																pos:   position{line: 683, col: 56, offset: 21910},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 683, col: 62, offset: 21914},
+																																	pos: position{line: 683, col: 62, offset: 21916},
 																																	expr: &actionExpr{
-																																		pos: position{line: 691, col: 17, offset: 22211},
+																																		pos: position{line: 691, col: 17, offset: 22213},
 																																		run: (*parser).callonSectionTitleElement206,
 																																		expr: &seqExpr{
-																																			pos: position{line: 691, col: 17, offset: 22211},
+																																			pos: position{line: 691, col: 17, offset: 22213},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 691, col: 17, offset: 22211},
+																																					pos:        position{line: 691, col: 17, offset: 22213},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 691, col: 21, offset: 22215},
+																																					pos:   position{line: 691, col: 21, offset: 22217},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 691, col: 28, offset: 22222},
+																																						pos: position{line: 691, col: 28, offset: 22224},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 691, col: 28, offset: 22222},
+																																								pos: position{line: 691, col: 28, offset: 22224},
 																																								run: (*parser).callonSectionTitleElement211,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 691, col: 28, offset: 22222},
+																																									pos:        position{line: 691, col: 28, offset: 22224},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -45748,12 +45748,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 693, col: 9, offset: 22276},
+																																								pos: position{line: 693, col: 9, offset: 22278},
 																																								run: (*parser).callonSectionTitleElement213,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 693, col: 9, offset: 22276},
+																																									pos: position{line: 693, col: 9, offset: 22278},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 693, col: 9, offset: 22276},
+																																										pos:        position{line: 693, col: 9, offset: 22278},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -45770,7 +45770,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 683, col: 78, offset: 21930},
+																																pos:        position{line: 683, col: 78, offset: 21932},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -45779,19 +45779,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 687, col: 25, offset: 22048},
+																													pos: position{line: 687, col: 25, offset: 22050},
 																													run: (*parser).callonSectionTitleElement217,
 																													expr: &seqExpr{
-																														pos: position{line: 687, col: 25, offset: 22048},
+																														pos: position{line: 687, col: 25, offset: 22050},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 687, col: 25, offset: 22048},
+																																pos:        position{line: 687, col: 25, offset: 22050},
 																																val:        "{counter2:",
 																																ignoreCase: false,
 																																want:       "\"{counter2:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 687, col: 38, offset: 22061},
+																																pos:   position{line: 687, col: 38, offset: 22063},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 320, col: 18, offset: 9837},
@@ -45823,33 +45823,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 687, col: 57, offset: 22080},
+																																pos:   position{line: 687, col: 57, offset: 22082},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 687, col: 63, offset: 22086},
+																																	pos: position{line: 687, col: 63, offset: 22088},
 																																	expr: &actionExpr{
-																																		pos: position{line: 691, col: 17, offset: 22211},
+																																		pos: position{line: 691, col: 17, offset: 22213},
 																																		run: (*parser).callonSectionTitleElement228,
 																																		expr: &seqExpr{
-																																			pos: position{line: 691, col: 17, offset: 22211},
+																																			pos: position{line: 691, col: 17, offset: 22213},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 691, col: 17, offset: 22211},
+																																					pos:        position{line: 691, col: 17, offset: 22213},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 691, col: 21, offset: 22215},
+																																					pos:   position{line: 691, col: 21, offset: 22217},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 691, col: 28, offset: 22222},
+																																						pos: position{line: 691, col: 28, offset: 22224},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 691, col: 28, offset: 22222},
+																																								pos: position{line: 691, col: 28, offset: 22224},
 																																								run: (*parser).callonSectionTitleElement233,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 691, col: 28, offset: 22222},
+																																									pos:        position{line: 691, col: 28, offset: 22224},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -45857,12 +45857,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 693, col: 9, offset: 22276},
+																																								pos: position{line: 693, col: 9, offset: 22278},
 																																								run: (*parser).callonSectionTitleElement235,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 693, col: 9, offset: 22276},
+																																									pos: position{line: 693, col: 9, offset: 22278},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 693, col: 9, offset: 22276},
+																																										pos:        position{line: 693, col: 9, offset: 22278},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -45879,7 +45879,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 687, col: 79, offset: 22102},
+																																pos:        position{line: 687, col: 79, offset: 22104},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -45920,12 +45920,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2410, col: 26, offset: 78016},
+													pos: position{line: 2410, col: 26, offset: 78018},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93180},
+														pos: position{line: 2944, col: 10, offset: 93182},
 														run: (*parser).callonSectionTitleElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93180},
+															pos:        position{line: 2944, col: 10, offset: 93182},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -45934,30 +45934,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2410, col: 33, offset: 78023},
+													pos: position{line: 2410, col: 33, offset: 78025},
 													expr: &choiceExpr{
-														pos: position{line: 2966, col: 8, offset: 93578},
+														pos: position{line: 2966, col: 8, offset: 93580},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93351},
+																pos: position{line: 2953, col: 12, offset: 93353},
 																run: (*parser).callonSectionTitleElement247,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93352},
+																	pos: position{line: 2953, col: 13, offset: 93354},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93352},
+																			pos:        position{line: 2953, col: 13, offset: 93354},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93359},
+																			pos:        position{line: 2953, col: 20, offset: 93361},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93368},
+																			pos:        position{line: 2953, col: 29, offset: 93370},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -45966,9 +45966,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93528},
+																pos: position{line: 2963, col: 8, offset: 93530},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93529,
+																	line: 2963, col: 9, offset: 93531,
 																},
 															},
 														},
@@ -45978,27 +45978,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1278, col: 5, offset: 39867},
+										pos: position{line: 1278, col: 5, offset: 39869},
 										run: (*parser).callonSectionTitleElement254,
 										expr: &seqExpr{
-											pos: position{line: 1278, col: 5, offset: 39867},
+											pos: position{line: 1278, col: 5, offset: 39869},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1278, col: 5, offset: 39867},
+													pos:        position{line: 1278, col: 5, offset: 39869},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1278, col: 14, offset: 39876},
+													pos:   position{line: 1278, col: 14, offset: 39878},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2929, col: 7, offset: 92832},
+														pos: position{line: 2929, col: 7, offset: 92834},
 														run: (*parser).callonSectionTitleElement258,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2929, col: 7, offset: 92832},
+															pos: position{line: 2929, col: 7, offset: 92834},
 															expr: &charClassMatcher{
-																pos:        position{line: 2929, col: 7, offset: 92832},
+																pos:        position{line: 2929, col: 7, offset: 92834},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46008,7 +46008,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1278, col: 22, offset: 39884},
+													pos:        position{line: 1278, col: 22, offset: 39886},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46017,27 +46017,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1283, col: 5, offset: 40003},
+										pos: position{line: 1283, col: 5, offset: 40005},
 										run: (*parser).callonSectionTitleElement262,
 										expr: &seqExpr{
-											pos: position{line: 1283, col: 5, offset: 40003},
+											pos: position{line: 1283, col: 5, offset: 40005},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1283, col: 5, offset: 40003},
+													pos:        position{line: 1283, col: 5, offset: 40005},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1283, col: 10, offset: 40008},
+													pos:   position{line: 1283, col: 10, offset: 40010},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2929, col: 7, offset: 92832},
+														pos: position{line: 2929, col: 7, offset: 92834},
 														run: (*parser).callonSectionTitleElement266,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2929, col: 7, offset: 92832},
+															pos: position{line: 2929, col: 7, offset: 92834},
 															expr: &charClassMatcher{
-																pos:        position{line: 2929, col: 7, offset: 92832},
+																pos:        position{line: 2929, col: 7, offset: 92834},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46047,7 +46047,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1283, col: 18, offset: 40016},
+													pos:        position{line: 1283, col: 18, offset: 40018},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46056,14 +46056,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2399, col: 11, offset: 77741},
+										pos:  position{line: 2399, col: 11, offset: 77743},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2883, col: 12, offset: 91488},
+										pos: position{line: 2883, col: 12, offset: 91490},
 										run: (*parser).callonSectionTitleElement271,
 										expr: &charClassMatcher{
-											pos:        position{line: 2883, col: 12, offset: 91488},
+											pos:        position{line: 2883, col: 12, offset: 91490},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46079,52 +46079,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2420, col: 1, offset: 78285},
+			pos:  position{line: 2420, col: 1, offset: 78287},
 			expr: &actionExpr{
-				pos: position{line: 2421, col: 5, offset: 78372},
+				pos: position{line: 2421, col: 5, offset: 78374},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2421, col: 5, offset: 78372},
+					pos: position{line: 2421, col: 5, offset: 78374},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2421, col: 5, offset: 78372},
+							pos:   position{line: 2421, col: 5, offset: 78374},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2421, col: 14, offset: 78381},
+								pos: position{line: 2421, col: 14, offset: 78383},
 								expr: &actionExpr{
-									pos: position{line: 2423, col: 9, offset: 78407},
+									pos: position{line: 2423, col: 9, offset: 78409},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2423, col: 9, offset: 78407},
+										pos: position{line: 2423, col: 9, offset: 78409},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2961, col: 11, offset: 93514},
+												pos: position{line: 2961, col: 11, offset: 93516},
 												expr: &anyMatcher{
-													line: 2961, col: 13, offset: 93516,
+													line: 2961, col: 13, offset: 93518,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2424, col: 9, offset: 78422},
+												pos:   position{line: 2424, col: 9, offset: 78424},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2425, col: 13, offset: 78444},
+													pos: position{line: 2425, col: 13, offset: 78446},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2843, col: 5, offset: 90422},
+															pos: position{line: 2843, col: 5, offset: 90424},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2843, col: 5, offset: 90422},
+																pos: position{line: 2843, col: 5, offset: 90424},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2843, col: 5, offset: 90422},
+																		pos:   position{line: 2843, col: 5, offset: 90424},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2843, col: 11, offset: 90428},
+																			pos: position{line: 2843, col: 11, offset: 90430},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2843, col: 11, offset: 90428},
+																				pos: position{line: 2843, col: 11, offset: 90430},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2843, col: 11, offset: 90428},
+																					pos:        position{line: 2843, col: 11, offset: 90430},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -46134,36 +46134,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2846, col: 5, offset: 90486},
+																		pos: position{line: 2846, col: 5, offset: 90488},
 																		expr: &seqExpr{
-																			pos: position{line: 2847, col: 9, offset: 90497},
+																			pos: position{line: 2847, col: 9, offset: 90499},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2847, col: 9, offset: 90497},
+																					pos:        position{line: 2847, col: 9, offset: 90499},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2848, col: 9, offset: 90546},
+																					pos: position{line: 2848, col: 9, offset: 90548},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2852, col: 5, offset: 90626},
+																		pos: position{line: 2852, col: 5, offset: 90628},
 																		expr: &seqExpr{
-																			pos: position{line: 2853, col: 9, offset: 90637},
+																			pos: position{line: 2853, col: 9, offset: 90639},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2853, col: 9, offset: 90637},
+																					pos:        position{line: 2853, col: 9, offset: 90639},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2853, col: 13, offset: 90641},
+																					pos:        position{line: 2853, col: 13, offset: 90643},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -46176,12 +46176,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2948, col: 11, offset: 93241},
+															pos: position{line: 2948, col: 11, offset: 93243},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2948, col: 11, offset: 93241},
+																pos: position{line: 2948, col: 11, offset: 93243},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2948, col: 11, offset: 93241},
+																	pos:        position{line: 2948, col: 11, offset: 93243},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46190,25 +46190,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2427, col: 15, offset: 78490},
+															pos:  position{line: 2427, col: 15, offset: 78492},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2556, col: 5, offset: 82485},
+															pos: position{line: 2556, col: 5, offset: 82487},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2556, col: 5, offset: 82485},
+																pos: position{line: 2556, col: 5, offset: 82487},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2556, col: 5, offset: 82485},
+																		pos:        position{line: 2556, col: 5, offset: 82487},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2556, col: 10, offset: 82490},
+																		pos: position{line: 2556, col: 10, offset: 82492},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2556, col: 11, offset: 82491},
+																			pos:        position{line: 2556, col: 11, offset: 82493},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -46219,29 +46219,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2562, col: 5, offset: 82683},
+															pos: position{line: 2562, col: 5, offset: 82685},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2562, col: 5, offset: 82683},
+																pos: position{line: 2562, col: 5, offset: 82685},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2562, col: 5, offset: 82683},
+																		pos: position{line: 2562, col: 5, offset: 82685},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2565, col: 5, offset: 82754},
+																		pos: position{line: 2565, col: 5, offset: 82756},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2569, col: 5, offset: 82879},
+																		pos:        position{line: 2569, col: 5, offset: 82881},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2569, col: 9, offset: 82883},
+																		pos: position{line: 2569, col: 9, offset: 82885},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2569, col: 10, offset: 82884},
+																			pos:        position{line: 2569, col: 10, offset: 82886},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -46252,27 +46252,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2861, col: 5, offset: 90834},
+															pos: position{line: 2861, col: 5, offset: 90836},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2862, col: 9, offset: 90844},
+																pos: position{line: 2862, col: 9, offset: 90846},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2862, col: 10, offset: 90845},
+																		pos:        position{line: 2862, col: 10, offset: 90847},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2864, col: 13, offset: 90942},
+																		pos: position{line: 2864, col: 13, offset: 90944},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2864, col: 13, offset: 90942},
+																				pos: position{line: 2864, col: 13, offset: 90944},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2867, col: 13, offset: 91042},
+																				pos:        position{line: 2867, col: 13, offset: 91044},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -46280,20 +46280,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2867, col: 19, offset: 91048},
+																		pos:        position{line: 2867, col: 19, offset: 91050},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2870, col: 13, offset: 91086},
+																		pos: position{line: 2870, col: 13, offset: 91088},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2870, col: 13, offset: 91086},
+																				pos: position{line: 2870, col: 13, offset: 91088},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2873, col: 14, offset: 91179},
+																				pos:        position{line: 2873, col: 14, offset: 91181},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -46302,18 +46302,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2875, col: 12, offset: 91223},
+																		pos: position{line: 2875, col: 12, offset: 91225},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2875, col: 12, offset: 91223},
+																				pos:        position{line: 2875, col: 12, offset: 91225},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2875, col: 16, offset: 91227},
+																				pos: position{line: 2875, col: 16, offset: 91229},
 																				expr: &litMatcher{
-																					pos:        position{line: 2875, col: 17, offset: 91228},
+																					pos:        position{line: 2875, col: 17, offset: 91230},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -46325,25 +46325,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93351},
+															pos: position{line: 2953, col: 12, offset: 93353},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93352},
+																pos: position{line: 2953, col: 13, offset: 93354},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93352},
+																		pos:        position{line: 2953, col: 13, offset: 93354},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93359},
+																		pos:        position{line: 2953, col: 20, offset: 93361},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93368},
+																		pos:        position{line: 2953, col: 29, offset: 93370},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -46352,35 +46352,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 661, col: 5, offset: 21195},
+															pos: position{line: 661, col: 5, offset: 21197},
 															run: (*parser).callonNormalGroup60,
 															expr: &seqExpr{
-																pos: position{line: 661, col: 5, offset: 21195},
+																pos: position{line: 661, col: 5, offset: 21197},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 661, col: 5, offset: 21195},
+																		pos: position{line: 661, col: 5, offset: 21197},
 																		run: (*parser).callonNormalGroup62,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 664, col: 5, offset: 21267},
+																		pos:   position{line: 664, col: 5, offset: 21269},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 664, col: 14, offset: 21276},
+																			pos: position{line: 664, col: 14, offset: 21278},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 670, col: 5, offset: 21405},
+																					pos: position{line: 670, col: 5, offset: 21407},
 																					run: (*parser).callonNormalGroup65,
 																					expr: &seqExpr{
-																						pos: position{line: 670, col: 5, offset: 21405},
+																						pos: position{line: 670, col: 5, offset: 21407},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 670, col: 5, offset: 21405},
+																								pos:        position{line: 670, col: 5, offset: 21407},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 670, col: 13, offset: 21413},
+																								pos:   position{line: 670, col: 13, offset: 21415},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -46412,7 +46412,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 670, col: 32, offset: 21432},
+																								pos:        position{line: 670, col: 32, offset: 21434},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -46421,19 +46421,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 677, col: 5, offset: 21673},
+																					pos: position{line: 677, col: 5, offset: 21675},
 																					run: (*parser).callonNormalGroup75,
 																					expr: &seqExpr{
-																						pos: position{line: 677, col: 5, offset: 21673},
+																						pos: position{line: 677, col: 5, offset: 21675},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 677, col: 5, offset: 21673},
+																								pos:        position{line: 677, col: 5, offset: 21675},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 677, col: 9, offset: 21677},
+																								pos:   position{line: 677, col: 9, offset: 21679},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -46465,7 +46465,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 677, col: 28, offset: 21696},
+																								pos:        position{line: 677, col: 28, offset: 21698},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -46474,19 +46474,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 683, col: 25, offset: 21877},
+																					pos: position{line: 683, col: 25, offset: 21879},
 																					run: (*parser).callonNormalGroup85,
 																					expr: &seqExpr{
-																						pos: position{line: 683, col: 25, offset: 21877},
+																						pos: position{line: 683, col: 25, offset: 21879},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 683, col: 25, offset: 21877},
+																								pos:        position{line: 683, col: 25, offset: 21879},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 683, col: 37, offset: 21889},
+																								pos:   position{line: 683, col: 37, offset: 21891},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -46518,33 +46518,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 683, col: 56, offset: 21908},
+																								pos:   position{line: 683, col: 56, offset: 21910},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 683, col: 62, offset: 21914},
+																									pos: position{line: 683, col: 62, offset: 21916},
 																									expr: &actionExpr{
-																										pos: position{line: 691, col: 17, offset: 22211},
+																										pos: position{line: 691, col: 17, offset: 22213},
 																										run: (*parser).callonNormalGroup96,
 																										expr: &seqExpr{
-																											pos: position{line: 691, col: 17, offset: 22211},
+																											pos: position{line: 691, col: 17, offset: 22213},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 691, col: 17, offset: 22211},
+																													pos:        position{line: 691, col: 17, offset: 22213},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 691, col: 21, offset: 22215},
+																													pos:   position{line: 691, col: 21, offset: 22217},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 691, col: 28, offset: 22222},
+																														pos: position{line: 691, col: 28, offset: 22224},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 691, col: 28, offset: 22222},
+																																pos: position{line: 691, col: 28, offset: 22224},
 																																run: (*parser).callonNormalGroup101,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 691, col: 28, offset: 22222},
+																																	pos:        position{line: 691, col: 28, offset: 22224},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -46552,12 +46552,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 693, col: 9, offset: 22276},
+																																pos: position{line: 693, col: 9, offset: 22278},
 																																run: (*parser).callonNormalGroup103,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 693, col: 9, offset: 22276},
+																																	pos: position{line: 693, col: 9, offset: 22278},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 693, col: 9, offset: 22276},
+																																		pos:        position{line: 693, col: 9, offset: 22278},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -46574,7 +46574,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 683, col: 78, offset: 21930},
+																								pos:        position{line: 683, col: 78, offset: 21932},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -46583,19 +46583,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 687, col: 25, offset: 22048},
+																					pos: position{line: 687, col: 25, offset: 22050},
 																					run: (*parser).callonNormalGroup107,
 																					expr: &seqExpr{
-																						pos: position{line: 687, col: 25, offset: 22048},
+																						pos: position{line: 687, col: 25, offset: 22050},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 687, col: 25, offset: 22048},
+																								pos:        position{line: 687, col: 25, offset: 22050},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 687, col: 38, offset: 22061},
+																								pos:   position{line: 687, col: 38, offset: 22063},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 320, col: 18, offset: 9837},
@@ -46627,33 +46627,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 687, col: 57, offset: 22080},
+																								pos:   position{line: 687, col: 57, offset: 22082},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 687, col: 63, offset: 22086},
+																									pos: position{line: 687, col: 63, offset: 22088},
 																									expr: &actionExpr{
-																										pos: position{line: 691, col: 17, offset: 22211},
+																										pos: position{line: 691, col: 17, offset: 22213},
 																										run: (*parser).callonNormalGroup118,
 																										expr: &seqExpr{
-																											pos: position{line: 691, col: 17, offset: 22211},
+																											pos: position{line: 691, col: 17, offset: 22213},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 691, col: 17, offset: 22211},
+																													pos:        position{line: 691, col: 17, offset: 22213},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 691, col: 21, offset: 22215},
+																													pos:   position{line: 691, col: 21, offset: 22217},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 691, col: 28, offset: 22222},
+																														pos: position{line: 691, col: 28, offset: 22224},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 691, col: 28, offset: 22222},
+																																pos: position{line: 691, col: 28, offset: 22224},
 																																run: (*parser).callonNormalGroup123,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 691, col: 28, offset: 22222},
+																																	pos:        position{line: 691, col: 28, offset: 22224},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -46661,12 +46661,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 693, col: 9, offset: 22276},
+																																pos: position{line: 693, col: 9, offset: 22278},
 																																run: (*parser).callonNormalGroup125,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 693, col: 9, offset: 22276},
+																																	pos: position{line: 693, col: 9, offset: 22278},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 693, col: 9, offset: 22276},
+																																		pos:        position{line: 693, col: 9, offset: 22278},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -46683,7 +46683,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 687, col: 79, offset: 22102},
+																								pos:        position{line: 687, col: 79, offset: 22104},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -46698,35 +46698,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2432, col: 15, offset: 78657},
+															pos:  position{line: 2432, col: 15, offset: 78659},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2433, col: 15, offset: 78677},
+															pos:  position{line: 2433, col: 15, offset: 78679},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2434, col: 15, offset: 78766},
+															pos:  position{line: 2434, col: 15, offset: 78768},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2525, col: 5, offset: 81286},
+															pos: position{line: 2525, col: 5, offset: 81288},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 5, offset: 81286},
+																pos: position{line: 2525, col: 5, offset: 81288},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2525, col: 5, offset: 81286},
+																		pos: position{line: 2525, col: 5, offset: 81288},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2528, col: 5, offset: 81362},
+																		pos:   position{line: 2528, col: 5, offset: 81364},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2529, col: 9, offset: 81380},
+																			pos: position{line: 2529, col: 9, offset: 81382},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2529, col: 10, offset: 81381},
+																				pos:        position{line: 2529, col: 10, offset: 81383},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -46738,32 +46738,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1231, col: 5, offset: 38553},
+															pos: position{line: 1231, col: 5, offset: 38555},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 1231, col: 5, offset: 38553},
+																pos: position{line: 1231, col: 5, offset: 38555},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1231, col: 5, offset: 38553},
+																		pos: position{line: 1231, col: 5, offset: 38555},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1234, col: 5, offset: 38629},
+																		pos:        position{line: 1234, col: 5, offset: 38631},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1235, col: 5, offset: 38637},
+																		pos: position{line: 1235, col: 5, offset: 38639},
 																		run: (*parser).callonNormalGroup142,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1239, col: 5, offset: 38724},
+																		pos: position{line: 1239, col: 5, offset: 38726},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93180},
+																			pos: position{line: 2944, col: 10, offset: 93182},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93180},
+																				pos:        position{line: 2944, col: 10, offset: 93182},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46772,30 +46772,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1239, col: 12, offset: 38731},
+																		pos: position{line: 1239, col: 12, offset: 38733},
 																		expr: &choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93578},
+																			pos: position{line: 2966, col: 8, offset: 93580},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93351},
+																					pos: position{line: 2953, col: 12, offset: 93353},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93352},
+																						pos: position{line: 2953, col: 13, offset: 93354},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93352},
+																								pos:        position{line: 2953, col: 13, offset: 93354},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93359},
+																								pos:        position{line: 2953, col: 20, offset: 93361},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93368},
+																								pos:        position{line: 2953, col: 29, offset: 93370},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46804,9 +46804,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93528},
+																					pos: position{line: 2963, col: 8, offset: 93530},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93529,
+																						line: 2963, col: 9, offset: 93531,
 																					},
 																				},
 																			},
@@ -46816,31 +46816,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2437, col: 15, offset: 78948},
+															pos:  position{line: 2437, col: 15, offset: 78950},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1223, col: 23, offset: 38060},
+															pos: position{line: 1223, col: 23, offset: 38062},
 															run: (*parser).callonNormalGroup156,
 															expr: &seqExpr{
-																pos: position{line: 1223, col: 23, offset: 38060},
+																pos: position{line: 1223, col: 23, offset: 38062},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1221, col: 32, offset: 38028},
+																		pos:        position{line: 1221, col: 32, offset: 38030},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1223, col: 51, offset: 38088},
+																		pos:   position{line: 1223, col: 51, offset: 38090},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1223, col: 56, offset: 38093},
+																			pos: position{line: 1223, col: 56, offset: 38095},
 																			run: (*parser).callonNormalGroup160,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1223, col: 56, offset: 38093},
+																				pos: position{line: 1223, col: 56, offset: 38095},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1223, col: 56, offset: 38093},
+																					pos:        position{line: 1223, col: 56, offset: 38095},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -46850,23 +46850,23 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1221, col: 32, offset: 38028},
+																		pos:        position{line: 1221, col: 32, offset: 38030},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1223, col: 123, offset: 38160},
+																		pos: position{line: 1223, col: 123, offset: 38162},
 																		run: (*parser).callonNormalGroup164,
 																	},
 																},
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2883, col: 12, offset: 91488},
+															pos: position{line: 2883, col: 12, offset: 91490},
 															run: (*parser).callonNormalGroup165,
 															expr: &charClassMatcher{
-																pos:        position{line: 2883, col: 12, offset: 91488},
+																pos:        position{line: 2883, col: 12, offset: 91490},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -46882,9 +46882,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2963, col: 8, offset: 93528},
+							pos: position{line: 2963, col: 8, offset: 93530},
 							expr: &anyMatcher{
-								line: 2963, col: 9, offset: 93529,
+								line: 2963, col: 9, offset: 93531,
 							},
 						},
 					},
@@ -46893,28 +46893,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2448, col: 1, offset: 79386},
+			pos:  position{line: 2448, col: 1, offset: 79388},
 			expr: &actionExpr{
-				pos: position{line: 2449, col: 5, offset: 79419},
+				pos: position{line: 2449, col: 5, offset: 79421},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2449, col: 5, offset: 79419},
+					pos: position{line: 2449, col: 5, offset: 79421},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2449, col: 5, offset: 79419},
+							pos:   position{line: 2449, col: 5, offset: 79421},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2449, col: 14, offset: 79428},
+								pos: position{line: 2449, col: 14, offset: 79430},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2449, col: 15, offset: 79429},
+									pos:  position{line: 2449, col: 15, offset: 79431},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2963, col: 8, offset: 93528},
+							pos: position{line: 2963, col: 8, offset: 93530},
 							expr: &anyMatcher{
-								line: 2963, col: 9, offset: 93529,
+								line: 2963, col: 9, offset: 93531,
 							},
 						},
 					},
@@ -46923,41 +46923,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2453, col: 1, offset: 79526},
+			pos:  position{line: 2453, col: 1, offset: 79528},
 			expr: &actionExpr{
-				pos: position{line: 2454, col: 5, offset: 79566},
+				pos: position{line: 2454, col: 5, offset: 79568},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2454, col: 5, offset: 79566},
+					pos: position{line: 2454, col: 5, offset: 79568},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2961, col: 11, offset: 93514},
+							pos: position{line: 2961, col: 11, offset: 93516},
 							expr: &anyMatcher{
-								line: 2961, col: 13, offset: 93516,
+								line: 2961, col: 13, offset: 93518,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2455, col: 5, offset: 79577},
+							pos:   position{line: 2455, col: 5, offset: 79579},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2456, col: 9, offset: 79595},
+								pos: position{line: 2456, col: 9, offset: 79597},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2843, col: 5, offset: 90422},
+										pos: position{line: 2843, col: 5, offset: 90424},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2843, col: 5, offset: 90422},
+											pos: position{line: 2843, col: 5, offset: 90424},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2843, col: 5, offset: 90422},
+													pos:   position{line: 2843, col: 5, offset: 90424},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2843, col: 11, offset: 90428},
+														pos: position{line: 2843, col: 11, offset: 90430},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2843, col: 11, offset: 90428},
+															pos: position{line: 2843, col: 11, offset: 90430},
 															expr: &charClassMatcher{
-																pos:        position{line: 2843, col: 11, offset: 90428},
+																pos:        position{line: 2843, col: 11, offset: 90430},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46967,36 +46967,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2846, col: 5, offset: 90486},
+													pos: position{line: 2846, col: 5, offset: 90488},
 													expr: &seqExpr{
-														pos: position{line: 2847, col: 9, offset: 90497},
+														pos: position{line: 2847, col: 9, offset: 90499},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2847, col: 9, offset: 90497},
+																pos:        position{line: 2847, col: 9, offset: 90499},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2848, col: 9, offset: 90546},
+																pos: position{line: 2848, col: 9, offset: 90548},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2852, col: 5, offset: 90626},
+													pos: position{line: 2852, col: 5, offset: 90628},
 													expr: &seqExpr{
-														pos: position{line: 2853, col: 9, offset: 90637},
+														pos: position{line: 2853, col: 9, offset: 90639},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2853, col: 9, offset: 90637},
+																pos:        position{line: 2853, col: 9, offset: 90639},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2853, col: 13, offset: 90641},
+																pos:        position{line: 2853, col: 13, offset: 90643},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -47009,10 +47009,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2944, col: 10, offset: 93180},
+										pos: position{line: 2944, col: 10, offset: 93182},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2944, col: 10, offset: 93180},
+											pos:        position{line: 2944, col: 10, offset: 93182},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -47020,31 +47020,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2458, col: 11, offset: 79633},
+										pos:  position{line: 2458, col: 11, offset: 79635},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 5, offset: 90834},
+										pos: position{line: 2861, col: 5, offset: 90836},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2862, col: 9, offset: 90844},
+											pos: position{line: 2862, col: 9, offset: 90846},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2862, col: 10, offset: 90845},
+													pos:        position{line: 2862, col: 10, offset: 90847},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2864, col: 13, offset: 90942},
+													pos: position{line: 2864, col: 13, offset: 90944},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2864, col: 13, offset: 90942},
+															pos: position{line: 2864, col: 13, offset: 90944},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2867, col: 13, offset: 91042},
+															pos:        position{line: 2867, col: 13, offset: 91044},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -47052,20 +47052,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2867, col: 19, offset: 91048},
+													pos:        position{line: 2867, col: 19, offset: 91050},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2870, col: 13, offset: 91086},
+													pos: position{line: 2870, col: 13, offset: 91088},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2870, col: 13, offset: 91086},
+															pos: position{line: 2870, col: 13, offset: 91088},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2873, col: 14, offset: 91179},
+															pos:        position{line: 2873, col: 14, offset: 91181},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -47074,18 +47074,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2875, col: 12, offset: 91223},
+													pos: position{line: 2875, col: 12, offset: 91225},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2875, col: 12, offset: 91223},
+															pos:        position{line: 2875, col: 12, offset: 91225},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2875, col: 16, offset: 91227},
+															pos: position{line: 2875, col: 16, offset: 91229},
 															expr: &litMatcher{
-																pos:        position{line: 2875, col: 17, offset: 91228},
+																pos:        position{line: 2875, col: 17, offset: 91230},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -47097,35 +47097,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2460, col: 11, offset: 79706},
+										pos:  position{line: 2460, col: 11, offset: 79708},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2461, col: 11, offset: 79722},
+										pos:  position{line: 2461, col: 11, offset: 79724},
 										name: "InlineMacro",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2462, col: 11, offset: 79744},
+										pos:  position{line: 2462, col: 11, offset: 79746},
 										name: "InlinePassthrough",
 									},
 									&actionExpr{
-										pos: position{line: 2525, col: 5, offset: 81286},
+										pos: position{line: 2525, col: 5, offset: 81288},
 										run: (*parser).callonAttributeStructuredValueElement41,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 5, offset: 81286},
+											pos: position{line: 2525, col: 5, offset: 81288},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2525, col: 5, offset: 81286},
+													pos: position{line: 2525, col: 5, offset: 81288},
 													run: (*parser).callonAttributeStructuredValueElement43,
 												},
 												&labeledExpr{
-													pos:   position{line: 2528, col: 5, offset: 81362},
+													pos:   position{line: 2528, col: 5, offset: 81364},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2529, col: 9, offset: 81380},
+														pos: position{line: 2529, col: 9, offset: 81382},
 														run: (*parser).callonAttributeStructuredValueElement45,
 														expr: &charClassMatcher{
-															pos:        position{line: 2529, col: 10, offset: 81381},
+															pos:        position{line: 2529, col: 10, offset: 81383},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -47137,27 +47137,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1223, col: 23, offset: 38060},
+										pos: position{line: 1223, col: 23, offset: 38062},
 										run: (*parser).callonAttributeStructuredValueElement47,
 										expr: &seqExpr{
-											pos: position{line: 1223, col: 23, offset: 38060},
+											pos: position{line: 1223, col: 23, offset: 38062},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1221, col: 32, offset: 38028},
+													pos:        position{line: 1221, col: 32, offset: 38030},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1223, col: 51, offset: 38088},
+													pos:   position{line: 1223, col: 51, offset: 38090},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1223, col: 56, offset: 38093},
+														pos: position{line: 1223, col: 56, offset: 38095},
 														run: (*parser).callonAttributeStructuredValueElement51,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1223, col: 56, offset: 38093},
+															pos: position{line: 1223, col: 56, offset: 38095},
 															expr: &charClassMatcher{
-																pos:        position{line: 1223, col: 56, offset: 38093},
+																pos:        position{line: 1223, col: 56, offset: 38095},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -47167,38 +47167,38 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1221, col: 32, offset: 38028},
+													pos:        position{line: 1221, col: 32, offset: 38030},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1223, col: 123, offset: 38160},
+													pos: position{line: 1223, col: 123, offset: 38162},
 													run: (*parser).callonAttributeStructuredValueElement55,
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2953, col: 12, offset: 93351},
+										pos: position{line: 2953, col: 12, offset: 93353},
 										run: (*parser).callonAttributeStructuredValueElement56,
 										expr: &choiceExpr{
-											pos: position{line: 2953, col: 13, offset: 93352},
+											pos: position{line: 2953, col: 13, offset: 93354},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2953, col: 13, offset: 93352},
+													pos:        position{line: 2953, col: 13, offset: 93354},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2953, col: 20, offset: 93359},
+													pos:        position{line: 2953, col: 20, offset: 93361},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2953, col: 29, offset: 93368},
+													pos:        position{line: 2953, col: 29, offset: 93370},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -47207,10 +47207,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2883, col: 12, offset: 91488},
+										pos: position{line: 2883, col: 12, offset: 91490},
 										run: (*parser).callonAttributeStructuredValueElement61,
 										expr: &charClassMatcher{
-											pos:        position{line: 2883, col: 12, offset: 91488},
+											pos:        position{line: 2883, col: 12, offset: 91490},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -47226,73 +47226,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2473, col: 1, offset: 80048},
+			pos:  position{line: 2473, col: 1, offset: 80050},
 			expr: &actionExpr{
-				pos: position{line: 2475, col: 5, offset: 80130},
+				pos: position{line: 2475, col: 5, offset: 80132},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2475, col: 5, offset: 80130},
+					pos: position{line: 2475, col: 5, offset: 80132},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2475, col: 5, offset: 80130},
+							pos: position{line: 2475, col: 5, offset: 80132},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2478, col: 5, offset: 80195},
+							pos:   position{line: 2478, col: 5, offset: 80197},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2479, col: 9, offset: 80213},
+								pos: position{line: 2479, col: 9, offset: 80215},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2479, col: 9, offset: 80213},
+										pos:  position{line: 2479, col: 9, offset: 80215},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2480, col: 11, offset: 80234},
+										pos:  position{line: 2480, col: 11, offset: 80236},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2481, col: 11, offset: 80257},
+										pos:  position{line: 2481, col: 11, offset: 80259},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2482, col: 11, offset: 80273},
+										pos:  position{line: 2482, col: 11, offset: 80275},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2483, col: 11, offset: 80302},
+										pos:  position{line: 2483, col: 11, offset: 80304},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2484, col: 11, offset: 80328},
+										pos:  position{line: 2484, col: 11, offset: 80330},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2485, col: 11, offset: 80354},
+										pos:  position{line: 2485, col: 11, offset: 80356},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1278, col: 5, offset: 39867},
+										pos: position{line: 1278, col: 5, offset: 39869},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1278, col: 5, offset: 39867},
+											pos: position{line: 1278, col: 5, offset: 39869},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1278, col: 5, offset: 39867},
+													pos:        position{line: 1278, col: 5, offset: 39869},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1278, col: 14, offset: 39876},
+													pos:   position{line: 1278, col: 14, offset: 39878},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2929, col: 7, offset: 92832},
+														pos: position{line: 2929, col: 7, offset: 92834},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2929, col: 7, offset: 92832},
+															pos: position{line: 2929, col: 7, offset: 92834},
 															expr: &charClassMatcher{
-																pos:        position{line: 2929, col: 7, offset: 92832},
+																pos:        position{line: 2929, col: 7, offset: 92834},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47302,7 +47302,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1278, col: 22, offset: 39884},
+													pos:        position{line: 1278, col: 22, offset: 39886},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -47311,27 +47311,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1283, col: 5, offset: 40003},
+										pos: position{line: 1283, col: 5, offset: 40005},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1283, col: 5, offset: 40003},
+											pos: position{line: 1283, col: 5, offset: 40005},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1283, col: 5, offset: 40003},
+													pos:        position{line: 1283, col: 5, offset: 40005},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1283, col: 10, offset: 40008},
+													pos:   position{line: 1283, col: 10, offset: 40010},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2929, col: 7, offset: 92832},
+														pos: position{line: 2929, col: 7, offset: 92834},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2929, col: 7, offset: 92832},
+															pos: position{line: 2929, col: 7, offset: 92834},
 															expr: &charClassMatcher{
-																pos:        position{line: 2929, col: 7, offset: 92832},
+																pos:        position{line: 2929, col: 7, offset: 92834},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47341,7 +47341,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1283, col: 18, offset: 40016},
+													pos:        position{line: 1283, col: 18, offset: 40018},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -47350,40 +47350,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1322, col: 23, offset: 41492},
+										pos: position{line: 1322, col: 23, offset: 41494},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1322, col: 23, offset: 41492},
+											pos: position{line: 1322, col: 23, offset: 41494},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1322, col: 23, offset: 41492},
+													pos:        position{line: 1322, col: 23, offset: 41494},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1322, col: 29, offset: 41498},
+													pos:   position{line: 1322, col: 29, offset: 41500},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1329, col: 30, offset: 41829},
+														pos: position{line: 1329, col: 30, offset: 41831},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1329, col: 30, offset: 41829},
+															pos: position{line: 1329, col: 30, offset: 41831},
 															expr: &choiceExpr{
-																pos: position{line: 1329, col: 31, offset: 41830},
+																pos: position{line: 1329, col: 31, offset: 41832},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2834, col: 13, offset: 90275},
+																		pos:        position{line: 2834, col: 13, offset: 90277},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93180},
+																		pos: position{line: 2944, col: 10, offset: 93182},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93180},
+																			pos:        position{line: 2944, col: 10, offset: 93182},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -47396,23 +47396,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1323, col: 5, offset: 41537},
+													pos:   position{line: 1323, col: 5, offset: 41539},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1323, col: 11, offset: 41543},
+														pos: position{line: 1323, col: 11, offset: 41545},
 														expr: &actionExpr{
-															pos: position{line: 1323, col: 12, offset: 41544},
+															pos: position{line: 1323, col: 12, offset: 41546},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1323, col: 12, offset: 41544},
+																pos: position{line: 1323, col: 12, offset: 41546},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1323, col: 12, offset: 41544},
+																		pos: position{line: 1323, col: 12, offset: 41546},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93180},
+																			pos: position{line: 2944, col: 10, offset: 93182},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93180},
+																				pos:        position{line: 2944, col: 10, offset: 93182},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47421,18 +47421,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1323, col: 19, offset: 41551},
+																		pos:        position{line: 1323, col: 19, offset: 41553},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1323, col: 23, offset: 41555},
+																		pos: position{line: 1323, col: 23, offset: 41557},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93180},
+																			pos: position{line: 2944, col: 10, offset: 93182},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93180},
+																				pos:        position{line: 2944, col: 10, offset: 93182},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47441,28 +47441,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1323, col: 30, offset: 41562},
+																		pos:   position{line: 1323, col: 30, offset: 41564},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1329, col: 30, offset: 41829},
+																			pos: position{line: 1329, col: 30, offset: 41831},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1329, col: 30, offset: 41829},
+																				pos: position{line: 1329, col: 30, offset: 41831},
 																				expr: &choiceExpr{
-																					pos: position{line: 1329, col: 31, offset: 41830},
+																					pos: position{line: 1329, col: 31, offset: 41832},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2834, col: 13, offset: 90275},
+																							pos:        position{line: 2834, col: 13, offset: 90277},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93180},
+																							pos: position{line: 2944, col: 10, offset: 93182},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93180},
+																								pos:        position{line: 2944, col: 10, offset: 93182},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47480,23 +47480,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1324, col: 5, offset: 41629},
+													pos:   position{line: 1324, col: 5, offset: 41631},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1324, col: 11, offset: 41635},
+														pos: position{line: 1324, col: 11, offset: 41637},
 														expr: &actionExpr{
-															pos: position{line: 1324, col: 12, offset: 41636},
+															pos: position{line: 1324, col: 12, offset: 41638},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1324, col: 12, offset: 41636},
+																pos: position{line: 1324, col: 12, offset: 41638},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1324, col: 12, offset: 41636},
+																		pos: position{line: 1324, col: 12, offset: 41638},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93180},
+																			pos: position{line: 2944, col: 10, offset: 93182},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93180},
+																				pos:        position{line: 2944, col: 10, offset: 93182},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47505,18 +47505,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1324, col: 19, offset: 41643},
+																		pos:        position{line: 1324, col: 19, offset: 41645},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1324, col: 23, offset: 41647},
+																		pos: position{line: 1324, col: 23, offset: 41649},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93180},
+																			pos: position{line: 2944, col: 10, offset: 93182},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93180},
+																				pos:        position{line: 2944, col: 10, offset: 93182},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47525,28 +47525,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1324, col: 30, offset: 41654},
+																		pos:   position{line: 1324, col: 30, offset: 41656},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1329, col: 30, offset: 41829},
+																			pos: position{line: 1329, col: 30, offset: 41831},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1329, col: 30, offset: 41829},
+																				pos: position{line: 1329, col: 30, offset: 41831},
 																				expr: &choiceExpr{
-																					pos: position{line: 1329, col: 31, offset: 41830},
+																					pos: position{line: 1329, col: 31, offset: 41832},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2834, col: 13, offset: 90275},
+																							pos:        position{line: 2834, col: 13, offset: 90277},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93180},
+																							pos: position{line: 2944, col: 10, offset: 93182},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93180},
+																								pos:        position{line: 2944, col: 10, offset: 93182},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47564,7 +47564,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1325, col: 5, offset: 41721},
+													pos:        position{line: 1325, col: 5, offset: 41723},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -47573,15 +47573,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2488, col: 11, offset: 80433},
+										pos:  position{line: 2488, col: 11, offset: 80435},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2489, col: 11, offset: 80453},
+										pos:  position{line: 2489, col: 11, offset: 80455},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2490, col: 11, offset: 80476},
+										pos:  position{line: 2490, col: 11, offset: 80478},
 										name: "InlineMenu",
 									},
 								},
@@ -47593,80 +47593,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2494, col: 1, offset: 80533},
+			pos:  position{line: 2494, col: 1, offset: 80535},
 			expr: &actionExpr{
-				pos: position{line: 2496, col: 5, offset: 80621},
+				pos: position{line: 2496, col: 5, offset: 80623},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2496, col: 5, offset: 80621},
+					pos: position{line: 2496, col: 5, offset: 80623},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2496, col: 5, offset: 80621},
+							pos: position{line: 2496, col: 5, offset: 80623},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2499, col: 5, offset: 80698},
+							pos:   position{line: 2499, col: 5, offset: 80700},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2500, col: 9, offset: 80716},
+								pos: position{line: 2500, col: 9, offset: 80718},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1409, col: 26, offset: 45215},
+										pos: position{line: 1409, col: 26, offset: 45217},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1409, col: 26, offset: 45215},
+											pos: position{line: 1409, col: 26, offset: 45217},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1407, col: 32, offset: 45183},
+													pos:        position{line: 1407, col: 32, offset: 45185},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1409, col: 54, offset: 45243},
+													pos:   position{line: 1409, col: 54, offset: 45245},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1413, col: 33, offset: 45446},
+														pos: position{line: 1413, col: 33, offset: 45448},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1413, col: 34, offset: 45447},
+																pos: position{line: 1413, col: 34, offset: 45449},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1413, col: 34, offset: 45447},
+																	pos: position{line: 1413, col: 34, offset: 45449},
 																	expr: &seqExpr{
-																		pos: position{line: 1413, col: 35, offset: 45448},
+																		pos: position{line: 1413, col: 35, offset: 45450},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1413, col: 35, offset: 45448},
+																				pos: position{line: 1413, col: 35, offset: 45450},
 																				expr: &litMatcher{
-																					pos:        position{line: 1407, col: 32, offset: 45183},
+																					pos:        position{line: 1407, col: 32, offset: 45185},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1413, col: 64, offset: 45477,
+																				line: 1413, col: 64, offset: 45479,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1415, col: 11, offset: 45650},
+																pos: position{line: 1415, col: 11, offset: 45652},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1415, col: 11, offset: 45650},
+																	pos: position{line: 1415, col: 11, offset: 45652},
 																	expr: &seqExpr{
-																		pos: position{line: 1415, col: 12, offset: 45651},
+																		pos: position{line: 1415, col: 12, offset: 45653},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1415, col: 12, offset: 45651},
+																				pos: position{line: 1415, col: 12, offset: 45653},
 																				expr: &actionExpr{
-																					pos: position{line: 2944, col: 10, offset: 93180},
+																					pos: position{line: 2944, col: 10, offset: 93182},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2944, col: 10, offset: 93180},
+																						pos:        position{line: 2944, col: 10, offset: 93182},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -47675,27 +47675,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1415, col: 19, offset: 45658},
+																				pos: position{line: 1415, col: 19, offset: 45660},
 																				expr: &actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93351},
+																					pos: position{line: 2953, col: 12, offset: 93353},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93352},
+																						pos: position{line: 2953, col: 13, offset: 93354},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93352},
+																								pos:        position{line: 2953, col: 13, offset: 93354},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93359},
+																								pos:        position{line: 2953, col: 20, offset: 93361},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93368},
+																								pos:        position{line: 2953, col: 29, offset: 93370},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -47705,16 +47705,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1415, col: 28, offset: 45667},
+																				pos: position{line: 1415, col: 28, offset: 45669},
 																				expr: &litMatcher{
-																					pos:        position{line: 1407, col: 32, offset: 45183},
+																					pos:        position{line: 1407, col: 32, offset: 45185},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1415, col: 57, offset: 45696,
+																				line: 1415, col: 57, offset: 45698,
 																			},
 																		},
 																	},
@@ -47724,7 +47724,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1407, col: 32, offset: 45183},
+													pos:        position{line: 1407, col: 32, offset: 45185},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
@@ -47733,45 +47733,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1397, col: 26, offset: 44498},
+										pos: position{line: 1397, col: 26, offset: 44500},
 										run: (*parser).callonInlinePassthrough33,
 										expr: &seqExpr{
-											pos: position{line: 1397, col: 26, offset: 44498},
+											pos: position{line: 1397, col: 26, offset: 44500},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1395, col: 32, offset: 44468},
+													pos:        position{line: 1395, col: 32, offset: 44470},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1397, col: 54, offset: 44526},
+													pos:   position{line: 1397, col: 54, offset: 44528},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1401, col: 33, offset: 44739},
+														pos: position{line: 1401, col: 33, offset: 44741},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1401, col: 34, offset: 44740},
+																pos: position{line: 1401, col: 34, offset: 44742},
 																run: (*parser).callonInlinePassthrough38,
 																expr: &seqExpr{
-																	pos: position{line: 1401, col: 34, offset: 44740},
+																	pos: position{line: 1401, col: 34, offset: 44742},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1401, col: 35, offset: 44741},
+																			pos: position{line: 1401, col: 35, offset: 44743},
 																			expr: &litMatcher{
-																				pos:        position{line: 1395, col: 32, offset: 44468},
+																				pos:        position{line: 1395, col: 32, offset: 44470},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1401, col: 64, offset: 44770},
+																			pos: position{line: 1401, col: 64, offset: 44772},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93180},
+																				pos: position{line: 2944, col: 10, offset: 93182},
 																				run: (*parser).callonInlinePassthrough43,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93180},
+																					pos:        position{line: 2944, col: 10, offset: 93182},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47780,27 +47780,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1401, col: 71, offset: 44777},
+																			pos: position{line: 1401, col: 71, offset: 44779},
 																			expr: &actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonInlinePassthrough46,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47810,25 +47810,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1401, col: 80, offset: 44786,
+																			line: 1401, col: 80, offset: 44788,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1401, col: 83, offset: 44789},
+																			pos: position{line: 1401, col: 83, offset: 44791},
 																			expr: &seqExpr{
-																				pos: position{line: 1401, col: 84, offset: 44790},
+																				pos: position{line: 1401, col: 84, offset: 44792},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1401, col: 84, offset: 44790},
+																						pos: position{line: 1401, col: 84, offset: 44792},
 																						expr: &seqExpr{
-																							pos: position{line: 1401, col: 86, offset: 44792},
+																							pos: position{line: 1401, col: 86, offset: 44794},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2948, col: 11, offset: 93241},
+																									pos: position{line: 2948, col: 11, offset: 93243},
 																									run: (*parser).callonInlinePassthrough56,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2948, col: 11, offset: 93241},
+																										pos: position{line: 2948, col: 11, offset: 93243},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2948, col: 11, offset: 93241},
+																											pos:        position{line: 2948, col: 11, offset: 93243},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -47837,7 +47837,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1395, col: 32, offset: 44468},
+																									pos:        position{line: 1395, col: 32, offset: 44470},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -47846,36 +47846,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1401, col: 122, offset: 44828},
+																						pos: position{line: 1401, col: 122, offset: 44830},
 																						expr: &litMatcher{
-																							pos:        position{line: 1395, col: 32, offset: 44468},
+																							pos:        position{line: 1395, col: 32, offset: 44470},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1401, col: 151, offset: 44857},
+																						pos: position{line: 1401, col: 151, offset: 44859},
 																						expr: &actionExpr{
-																							pos: position{line: 2953, col: 12, offset: 93351},
+																							pos: position{line: 2953, col: 12, offset: 93353},
 																							run: (*parser).callonInlinePassthrough63,
 																							expr: &choiceExpr{
-																								pos: position{line: 2953, col: 13, offset: 93352},
+																								pos: position{line: 2953, col: 13, offset: 93354},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 13, offset: 93352},
+																										pos:        position{line: 2953, col: 13, offset: 93354},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 20, offset: 93359},
+																										pos:        position{line: 2953, col: 20, offset: 93361},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 29, offset: 93368},
+																										pos:        position{line: 2953, col: 29, offset: 93370},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -47885,7 +47885,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1401, col: 160, offset: 44866,
+																						line: 1401, col: 160, offset: 44868,
 																					},
 																				},
 																			},
@@ -47894,18 +47894,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1403, col: 11, offset: 45016},
+																pos: position{line: 1403, col: 11, offset: 45018},
 																run: (*parser).callonInlinePassthrough69,
 																expr: &seqExpr{
-																	pos: position{line: 1403, col: 12, offset: 45017},
+																	pos: position{line: 1403, col: 12, offset: 45019},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1403, col: 12, offset: 45017},
+																			pos: position{line: 1403, col: 12, offset: 45019},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93180},
+																				pos: position{line: 2944, col: 10, offset: 93182},
 																				run: (*parser).callonInlinePassthrough72,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93180},
+																					pos:        position{line: 2944, col: 10, offset: 93182},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47914,27 +47914,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1403, col: 19, offset: 45024},
+																			pos: position{line: 1403, col: 19, offset: 45026},
 																			expr: &actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93351},
+																				pos: position{line: 2953, col: 12, offset: 93353},
 																				run: (*parser).callonInlinePassthrough75,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93352},
+																					pos: position{line: 2953, col: 13, offset: 93354},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93352},
+																							pos:        position{line: 2953, col: 13, offset: 93354},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93359},
+																							pos:        position{line: 2953, col: 20, offset: 93361},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93368},
+																							pos:        position{line: 2953, col: 29, offset: 93370},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47944,16 +47944,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1403, col: 28, offset: 45033},
+																			pos: position{line: 1403, col: 28, offset: 45035},
 																			expr: &litMatcher{
-																				pos:        position{line: 1395, col: 32, offset: 44468},
+																				pos:        position{line: 1395, col: 32, offset: 44470},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1403, col: 57, offset: 45062,
+																			line: 1403, col: 57, offset: 45064,
 																		},
 																	},
 																},
@@ -47962,15 +47962,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1395, col: 32, offset: 44468},
+													pos:        position{line: 1395, col: 32, offset: 44470},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1397, col: 121, offset: 44593},
+													pos: position{line: 1397, col: 121, offset: 44595},
 													expr: &charClassMatcher{
-														pos:        position{line: 2834, col: 13, offset: 90275},
+														pos:        position{line: 2834, col: 13, offset: 90277},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -47981,7 +47981,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2500, col: 57, offset: 80764},
+										pos:  position{line: 2500, col: 57, offset: 80766},
 										name: "PassthroughMacro",
 									},
 								},
@@ -47993,16 +47993,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2505, col: 1, offset: 80824},
+			pos:  position{line: 2505, col: 1, offset: 80826},
 			expr: &seqExpr{
-				pos: position{line: 2507, col: 5, offset: 80900},
+				pos: position{line: 2507, col: 5, offset: 80902},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2507, col: 5, offset: 80900},
+						pos: position{line: 2507, col: 5, offset: 80902},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2510, col: 5, offset: 80965},
+						pos:  position{line: 2510, col: 5, offset: 80967},
 						name: "QuotedText",
 					},
 				},
@@ -48010,22 +48010,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2512, col: 1, offset: 80978},
+			pos:  position{line: 2512, col: 1, offset: 80980},
 			expr: &actionExpr{
-				pos: position{line: 2514, col: 5, offset: 81060},
+				pos: position{line: 2514, col: 5, offset: 81062},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2514, col: 5, offset: 81060},
+					pos: position{line: 2514, col: 5, offset: 81062},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2514, col: 5, offset: 81060},
+							pos: position{line: 2514, col: 5, offset: 81062},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2517, col: 5, offset: 81131},
+							pos:   position{line: 2517, col: 5, offset: 81133},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2518, col: 9, offset: 81149},
+								pos:  position{line: 2518, col: 9, offset: 81151},
 								name: "Symbol",
 							},
 						},
@@ -48035,103 +48035,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2573, col: 1, offset: 82936},
+			pos:  position{line: 2573, col: 1, offset: 82938},
 			expr: &choiceExpr{
-				pos: position{line: 2575, col: 5, offset: 82966},
+				pos: position{line: 2575, col: 5, offset: 82968},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2575, col: 5, offset: 82966},
+						pos: position{line: 2575, col: 5, offset: 82968},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2575, col: 5, offset: 82966},
+							pos: position{line: 2575, col: 5, offset: 82968},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2575, col: 5, offset: 82966},
+									pos:        position{line: 2575, col: 5, offset: 82968},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2575, col: 10, offset: 82971},
+									pos: position{line: 2575, col: 10, offset: 82973},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2575, col: 10, offset: 82971},
+											pos:  position{line: 2575, col: 10, offset: 82973},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2604, col: 14, offset: 84075},
+											pos: position{line: 2604, col: 14, offset: 84077},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2604, col: 14, offset: 84075},
+												pos:        position{line: 2604, col: 14, offset: 84077},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2608, col: 14, offset: 84141},
+											pos: position{line: 2608, col: 14, offset: 84143},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2608, col: 14, offset: 84141},
+												pos:        position{line: 2608, col: 14, offset: 84143},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2612, col: 15, offset: 84210},
+											pos: position{line: 2612, col: 15, offset: 84212},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2612, col: 15, offset: 84210},
+												pos:        position{line: 2612, col: 15, offset: 84212},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2616, col: 13, offset: 84275},
+											pos: position{line: 2616, col: 13, offset: 84277},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2616, col: 13, offset: 84275},
+												pos:        position{line: 2616, col: 13, offset: 84277},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2644, col: 21, offset: 84845},
+											pos: position{line: 2644, col: 21, offset: 84847},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2644, col: 21, offset: 84845},
+												pos:        position{line: 2644, col: 21, offset: 84847},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2623, col: 5, offset: 84431},
+											pos: position{line: 2623, col: 5, offset: 84433},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2623, col: 5, offset: 84431},
+												pos: position{line: 2623, col: 5, offset: 84433},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2623, col: 5, offset: 84431},
+														pos:        position{line: 2623, col: 5, offset: 84433},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2624, col: 5, offset: 84441},
+														pos: position{line: 2624, col: 5, offset: 84443},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2628, col: 6, offset: 84528},
+														pos: position{line: 2628, col: 6, offset: 84530},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2944, col: 10, offset: 93180},
+																pos: position{line: 2944, col: 10, offset: 93182},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2944, col: 10, offset: 93180},
+																	pos:        position{line: 2944, col: 10, offset: 93182},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -48139,30 +48139,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2628, col: 14, offset: 84536},
+																pos: position{line: 2628, col: 14, offset: 84538},
 																expr: &choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93578},
+																	pos: position{line: 2966, col: 8, offset: 93580},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93351},
+																			pos: position{line: 2953, col: 12, offset: 93353},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93352},
+																				pos: position{line: 2953, col: 13, offset: 93354},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93352},
+																						pos:        position{line: 2953, col: 13, offset: 93354},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93359},
+																						pos:        position{line: 2953, col: 20, offset: 93361},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93368},
+																						pos:        position{line: 2953, col: 29, offset: 93370},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -48171,9 +48171,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93528},
+																			pos: position{line: 2963, col: 8, offset: 93530},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93529,
+																				line: 2963, col: 9, offset: 93531,
 																			},
 																		},
 																	},
@@ -48185,53 +48185,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2633, col: 5, offset: 84656},
+											pos: position{line: 2633, col: 5, offset: 84658},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2633, col: 5, offset: 84656},
+												pos: position{line: 2633, col: 5, offset: 84658},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2633, col: 5, offset: 84656},
+														pos:        position{line: 2633, col: 5, offset: 84658},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2634, col: 5, offset: 84666},
+														pos: position{line: 2634, col: 5, offset: 84668},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2638, col: 5, offset: 84755},
+														pos: position{line: 2638, col: 5, offset: 84757},
 														expr: &choiceExpr{
-															pos: position{line: 2638, col: 7, offset: 84757},
+															pos: position{line: 2638, col: 7, offset: 84759},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2834, col: 13, offset: 90275},
+																	pos:        position{line: 2834, col: 13, offset: 90277},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2953, col: 12, offset: 93351},
+																	pos: position{line: 2953, col: 12, offset: 93353},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2953, col: 13, offset: 93352},
+																		pos: position{line: 2953, col: 13, offset: 93354},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2953, col: 13, offset: 93352},
+																				pos:        position{line: 2953, col: 13, offset: 93354},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2953, col: 20, offset: 93359},
+																				pos:        position{line: 2953, col: 20, offset: 93361},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2953, col: 29, offset: 93368},
+																				pos:        position{line: 2953, col: 29, offset: 93370},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -48240,9 +48240,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2963, col: 8, offset: 93528},
+																	pos: position{line: 2963, col: 8, offset: 93530},
 																	expr: &anyMatcher{
-																		line: 2963, col: 9, offset: 93529,
+																		line: 2963, col: 9, offset: 93531,
 																	},
 																},
 															},
@@ -48252,30 +48252,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2648, col: 20, offset: 84915},
+											pos: position{line: 2648, col: 20, offset: 84917},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2648, col: 20, offset: 84915},
+												pos:        position{line: 2648, col: 20, offset: 84917},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2652, col: 21, offset: 84986},
+											pos: position{line: 2652, col: 21, offset: 84988},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2652, col: 21, offset: 84986},
+												pos:        position{line: 2652, col: 21, offset: 84988},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2656, col: 20, offset: 85056},
+											pos: position{line: 2656, col: 20, offset: 85058},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2656, col: 20, offset: 85056},
+												pos:        position{line: 2656, col: 20, offset: 85058},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -48287,73 +48287,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2579, col: 7, offset: 83226},
+						pos:  position{line: 2579, col: 7, offset: 83228},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2604, col: 14, offset: 84075},
+						pos: position{line: 2604, col: 14, offset: 84077},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2604, col: 14, offset: 84075},
+							pos:        position{line: 2604, col: 14, offset: 84077},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2608, col: 14, offset: 84141},
+						pos: position{line: 2608, col: 14, offset: 84143},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2608, col: 14, offset: 84141},
+							pos:        position{line: 2608, col: 14, offset: 84143},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2612, col: 15, offset: 84210},
+						pos: position{line: 2612, col: 15, offset: 84212},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2612, col: 15, offset: 84210},
+							pos:        position{line: 2612, col: 15, offset: 84212},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2616, col: 13, offset: 84275},
+						pos: position{line: 2616, col: 13, offset: 84277},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2616, col: 13, offset: 84275},
+							pos:        position{line: 2616, col: 13, offset: 84277},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2623, col: 5, offset: 84431},
+						pos: position{line: 2623, col: 5, offset: 84433},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2623, col: 5, offset: 84431},
+							pos: position{line: 2623, col: 5, offset: 84433},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2623, col: 5, offset: 84431},
+									pos:        position{line: 2623, col: 5, offset: 84433},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2624, col: 5, offset: 84441},
+									pos: position{line: 2624, col: 5, offset: 84443},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2628, col: 6, offset: 84528},
+									pos: position{line: 2628, col: 6, offset: 84530},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2944, col: 10, offset: 93180},
+											pos: position{line: 2944, col: 10, offset: 93182},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2944, col: 10, offset: 93180},
+												pos:        position{line: 2944, col: 10, offset: 93182},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -48361,30 +48361,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2628, col: 14, offset: 84536},
+											pos: position{line: 2628, col: 14, offset: 84538},
 											expr: &choiceExpr{
-												pos: position{line: 2966, col: 8, offset: 93578},
+												pos: position{line: 2966, col: 8, offset: 93580},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2953, col: 12, offset: 93351},
+														pos: position{line: 2953, col: 12, offset: 93353},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2953, col: 13, offset: 93352},
+															pos: position{line: 2953, col: 13, offset: 93354},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2953, col: 13, offset: 93352},
+																	pos:        position{line: 2953, col: 13, offset: 93354},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2953, col: 20, offset: 93359},
+																	pos:        position{line: 2953, col: 20, offset: 93361},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2953, col: 29, offset: 93368},
+																	pos:        position{line: 2953, col: 29, offset: 93370},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -48393,9 +48393,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2963, col: 8, offset: 93528},
+														pos: position{line: 2963, col: 8, offset: 93530},
 														expr: &anyMatcher{
-															line: 2963, col: 9, offset: 93529,
+															line: 2963, col: 9, offset: 93531,
 														},
 													},
 												},
@@ -48407,53 +48407,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2633, col: 5, offset: 84656},
+						pos: position{line: 2633, col: 5, offset: 84658},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2633, col: 5, offset: 84656},
+							pos: position{line: 2633, col: 5, offset: 84658},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2633, col: 5, offset: 84656},
+									pos:        position{line: 2633, col: 5, offset: 84658},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2634, col: 5, offset: 84666},
+									pos: position{line: 2634, col: 5, offset: 84668},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2638, col: 5, offset: 84755},
+									pos: position{line: 2638, col: 5, offset: 84757},
 									expr: &choiceExpr{
-										pos: position{line: 2638, col: 7, offset: 84757},
+										pos: position{line: 2638, col: 7, offset: 84759},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2834, col: 13, offset: 90275},
+												pos:        position{line: 2834, col: 13, offset: 90277},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2953, col: 12, offset: 93351},
+												pos: position{line: 2953, col: 12, offset: 93353},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2953, col: 13, offset: 93352},
+													pos: position{line: 2953, col: 13, offset: 93354},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2953, col: 13, offset: 93352},
+															pos:        position{line: 2953, col: 13, offset: 93354},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2953, col: 20, offset: 93359},
+															pos:        position{line: 2953, col: 20, offset: 93361},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2953, col: 29, offset: 93368},
+															pos:        position{line: 2953, col: 29, offset: 93370},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -48462,9 +48462,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2963, col: 8, offset: 93528},
+												pos: position{line: 2963, col: 8, offset: 93530},
 												expr: &anyMatcher{
-													line: 2963, col: 9, offset: 93529,
+													line: 2963, col: 9, offset: 93531,
 												},
 											},
 										},
@@ -48474,40 +48474,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2644, col: 21, offset: 84845},
+						pos: position{line: 2644, col: 21, offset: 84847},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2644, col: 21, offset: 84845},
+							pos:        position{line: 2644, col: 21, offset: 84847},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2648, col: 20, offset: 84915},
+						pos: position{line: 2648, col: 20, offset: 84917},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2648, col: 20, offset: 84915},
+							pos:        position{line: 2648, col: 20, offset: 84917},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2652, col: 21, offset: 84986},
+						pos: position{line: 2652, col: 21, offset: 84988},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2652, col: 21, offset: 84986},
+							pos:        position{line: 2652, col: 21, offset: 84988},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2656, col: 20, offset: 85056},
+						pos: position{line: 2656, col: 20, offset: 85058},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2656, col: 20, offset: 85056},
+							pos:        position{line: 2656, col: 20, offset: 85058},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -48518,43 +48518,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2590, col: 1, offset: 83416},
+			pos:  position{line: 2590, col: 1, offset: 83418},
 			expr: &choiceExpr{
-				pos: position{line: 2591, col: 5, offset: 83438},
+				pos: position{line: 2591, col: 5, offset: 83440},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2591, col: 5, offset: 83438},
+						pos: position{line: 2591, col: 5, offset: 83440},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2591, col: 5, offset: 83438},
+							pos: position{line: 2591, col: 5, offset: 83440},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2591, col: 5, offset: 83438},
+									pos:        position{line: 2591, col: 5, offset: 83440},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2591, col: 11, offset: 83444},
+									pos: position{line: 2591, col: 11, offset: 83446},
 									expr: &seqExpr{
-										pos: position{line: 2131, col: 5, offset: 68978},
+										pos: position{line: 2131, col: 5, offset: 68980},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2131, col: 5, offset: 68978},
+												pos:        position{line: 2131, col: 5, offset: 68980},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2132, col: 5, offset: 68987},
+												pos: position{line: 2132, col: 5, offset: 68989},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2136, col: 5, offset: 69110},
+												pos: position{line: 2136, col: 5, offset: 69112},
 												expr: &notExpr{
-													pos: position{line: 2136, col: 7, offset: 69112},
+													pos: position{line: 2136, col: 7, offset: 69114},
 													expr: &litMatcher{
-														pos:        position{line: 2136, col: 8, offset: 69113},
+														pos:        position{line: 2136, col: 8, offset: 69115},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -48568,21 +48568,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2594, col: 7, offset: 83597},
+						pos: position{line: 2594, col: 7, offset: 83599},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2594, col: 7, offset: 83597},
+							pos: position{line: 2594, col: 7, offset: 83599},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2594, col: 7, offset: 83597},
+									pos:        position{line: 2594, col: 7, offset: 83599},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2594, col: 13, offset: 83603},
+									pos: position{line: 2594, col: 13, offset: 83605},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2594, col: 14, offset: 83604},
+										pos:  position{line: 2594, col: 14, offset: 83606},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -48590,38 +48590,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2597, col: 7, offset: 83754},
+						pos: position{line: 2597, col: 7, offset: 83756},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2597, col: 7, offset: 83754},
+							pos: position{line: 2597, col: 7, offset: 83756},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2597, col: 7, offset: 83754},
+									pos:        position{line: 2597, col: 7, offset: 83756},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2597, col: 12, offset: 83759},
+									pos: position{line: 2597, col: 12, offset: 83761},
 									expr: &seqExpr{
-										pos: position{line: 2131, col: 5, offset: 68978},
+										pos: position{line: 2131, col: 5, offset: 68980},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2131, col: 5, offset: 68978},
+												pos:        position{line: 2131, col: 5, offset: 68980},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2132, col: 5, offset: 68987},
+												pos: position{line: 2132, col: 5, offset: 68989},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2136, col: 5, offset: 69110},
+												pos: position{line: 2136, col: 5, offset: 69112},
 												expr: &notExpr{
-													pos: position{line: 2136, col: 7, offset: 69112},
+													pos: position{line: 2136, col: 7, offset: 69114},
 													expr: &litMatcher{
-														pos:        position{line: 2136, col: 8, offset: 69113},
+														pos:        position{line: 2136, col: 8, offset: 69115},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -48635,21 +48635,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2600, col: 7, offset: 83912},
+						pos: position{line: 2600, col: 7, offset: 83914},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2600, col: 7, offset: 83912},
+							pos: position{line: 2600, col: 7, offset: 83914},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2600, col: 7, offset: 83912},
+									pos:        position{line: 2600, col: 7, offset: 83914},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2600, col: 12, offset: 83917},
+									pos: position{line: 2600, col: 12, offset: 83919},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2600, col: 13, offset: 83918},
+										pos:  position{line: 2600, col: 13, offset: 83920},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -48661,63 +48661,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2749, col: 1, offset: 87355},
+			pos:  position{line: 2749, col: 1, offset: 87357},
 			expr: &actionExpr{
-				pos: position{line: 2749, col: 26, offset: 87380},
+				pos: position{line: 2749, col: 26, offset: 87382},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2749, col: 26, offset: 87380},
+					pos: position{line: 2749, col: 26, offset: 87382},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2749, col: 26, offset: 87380},
+							pos:   position{line: 2749, col: 26, offset: 87382},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2749, col: 31, offset: 87385},
+								pos: position{line: 2749, col: 31, offset: 87387},
 								expr: &actionExpr{
-									pos: position{line: 2754, col: 5, offset: 87448},
+									pos: position{line: 2754, col: 5, offset: 87450},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2754, col: 5, offset: 87448},
+										pos: position{line: 2754, col: 5, offset: 87450},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2961, col: 11, offset: 93514},
+												pos: position{line: 2961, col: 11, offset: 93516},
 												expr: &anyMatcher{
-													line: 2961, col: 13, offset: 93516,
+													line: 2961, col: 13, offset: 93518,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2757, col: 5, offset: 87574},
+												pos:   position{line: 2757, col: 5, offset: 87576},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2757, col: 16, offset: 87585},
+													pos: position{line: 2757, col: 16, offset: 87587},
 													expr: &actionExpr{
-														pos: position{line: 2757, col: 17, offset: 87586},
+														pos: position{line: 2757, col: 17, offset: 87588},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2757, col: 17, offset: 87586},
+															pos: position{line: 2757, col: 17, offset: 87588},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2757, col: 17, offset: 87586},
+																	pos:   position{line: 2757, col: 17, offset: 87588},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2936, col: 12, offset: 93007},
+																		pos: position{line: 2936, col: 12, offset: 93009},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2936, col: 13, offset: 93008},
+																			pos: position{line: 2936, col: 13, offset: 93010},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2936, col: 13, offset: 93008},
+																					pos: position{line: 2936, col: 13, offset: 93010},
 																					expr: &litMatcher{
-																						pos:        position{line: 2936, col: 13, offset: 93008},
+																						pos:        position{line: 2936, col: 13, offset: 93010},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2936, col: 18, offset: 93013},
+																					pos: position{line: 2936, col: 18, offset: 93015},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2936, col: 18, offset: 93013},
+																						pos:        position{line: 2936, col: 18, offset: 93015},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -48729,7 +48729,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2757, col: 27, offset: 87596},
+																	pos:        position{line: 2757, col: 27, offset: 87598},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -48740,38 +48740,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2758, col: 5, offset: 87624},
+												pos:   position{line: 2758, col: 5, offset: 87626},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2758, col: 12, offset: 87631},
+													pos: position{line: 2758, col: 12, offset: 87633},
 													expr: &choiceExpr{
-														pos: position{line: 2759, col: 9, offset: 87641},
+														pos: position{line: 2759, col: 9, offset: 87643},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2759, col: 9, offset: 87641},
+																pos: position{line: 2759, col: 9, offset: 87643},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2759, col: 9, offset: 87641},
+																	pos:        position{line: 2759, col: 9, offset: 87643},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2760, col: 11, offset: 87688},
+																pos: position{line: 2760, col: 11, offset: 87690},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2760, col: 11, offset: 87688},
+																	pos:        position{line: 2760, col: 11, offset: 87690},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2761, col: 11, offset: 87736},
+																pos: position{line: 2761, col: 11, offset: 87738},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2761, col: 11, offset: 87736},
+																	pos:        position{line: 2761, col: 11, offset: 87738},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -48782,38 +48782,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2763, col: 5, offset: 87786},
+												pos:   position{line: 2763, col: 5, offset: 87788},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2763, col: 12, offset: 87793},
+													pos: position{line: 2763, col: 12, offset: 87795},
 													expr: &choiceExpr{
-														pos: position{line: 2764, col: 9, offset: 87803},
+														pos: position{line: 2764, col: 9, offset: 87805},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2764, col: 9, offset: 87803},
+																pos: position{line: 2764, col: 9, offset: 87805},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2764, col: 9, offset: 87803},
+																	pos:        position{line: 2764, col: 9, offset: 87805},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2765, col: 11, offset: 87850},
+																pos: position{line: 2765, col: 11, offset: 87852},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2765, col: 11, offset: 87850},
+																	pos:        position{line: 2765, col: 11, offset: 87852},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2766, col: 11, offset: 87900},
+																pos: position{line: 2766, col: 11, offset: 87902},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2766, col: 11, offset: 87900},
+																	pos:        position{line: 2766, col: 11, offset: 87902},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -48824,32 +48824,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2768, col: 5, offset: 87951},
+												pos:   position{line: 2768, col: 5, offset: 87953},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2768, col: 12, offset: 87958},
+													pos: position{line: 2768, col: 12, offset: 87960},
 													expr: &choiceExpr{
-														pos: position{line: 2768, col: 13, offset: 87959},
+														pos: position{line: 2768, col: 13, offset: 87961},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2936, col: 12, offset: 93007},
+																pos: position{line: 2936, col: 12, offset: 93009},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2936, col: 13, offset: 93008},
+																	pos: position{line: 2936, col: 13, offset: 93010},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2936, col: 13, offset: 93008},
+																			pos: position{line: 2936, col: 13, offset: 93010},
 																			expr: &litMatcher{
-																				pos:        position{line: 2936, col: 13, offset: 93008},
+																				pos:        position{line: 2936, col: 13, offset: 93010},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2936, col: 18, offset: 93013},
+																			pos: position{line: 2936, col: 18, offset: 93015},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2936, col: 18, offset: 93013},
+																				pos:        position{line: 2936, col: 18, offset: 93015},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -48860,10 +48860,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2768, col: 24, offset: 87970},
+																pos: position{line: 2768, col: 24, offset: 87972},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2768, col: 24, offset: 87970},
+																	pos:        position{line: 2768, col: 24, offset: 87972},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -48874,15 +48874,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2769, col: 5, offset: 88012},
+												pos:   position{line: 2769, col: 5, offset: 88014},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2769, col: 11, offset: 88018},
+													pos: position{line: 2769, col: 11, offset: 88020},
 													expr: &actionExpr{
-														pos: position{line: 2769, col: 12, offset: 88019},
+														pos: position{line: 2769, col: 12, offset: 88021},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2769, col: 12, offset: 88019},
+															pos:        position{line: 2769, col: 12, offset: 88021},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -48892,12 +48892,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2771, col: 5, offset: 88149},
+												pos:   position{line: 2771, col: 5, offset: 88151},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2771, col: 11, offset: 88155},
+													pos: position{line: 2771, col: 11, offset: 88157},
 													expr: &litMatcher{
-														pos:        position{line: 2771, col: 12, offset: 88156},
+														pos:        position{line: 2771, col: 12, offset: 88158},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -48905,7 +48905,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2772, col: 5, offset: 88166},
+												pos: position{line: 2772, col: 5, offset: 88168},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -48914,9 +48914,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2963, col: 8, offset: 93528},
+							pos: position{line: 2963, col: 8, offset: 93530},
 							expr: &anyMatcher{
-								line: 2963, col: 9, offset: 93529,
+								line: 2963, col: 9, offset: 93531,
 							},
 						},
 					},
@@ -48925,23 +48925,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2799, col: 1, offset: 89175},
+			pos:  position{line: 2799, col: 1, offset: 89177},
 			expr: &actionExpr{
-				pos: position{line: 2800, col: 5, offset: 89198},
+				pos: position{line: 2800, col: 5, offset: 89200},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2800, col: 5, offset: 89198},
+					pos: position{line: 2800, col: 5, offset: 89200},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2800, col: 5, offset: 89198},
+							pos:   position{line: 2800, col: 5, offset: 89200},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2823, col: 18, offset: 89939},
+								pos: position{line: 2823, col: 18, offset: 89941},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2823, col: 19, offset: 89940},
+									pos: position{line: 2823, col: 19, offset: 89942},
 									expr: &charClassMatcher{
-										pos:        position{line: 2823, col: 19, offset: 89940},
+										pos:        position{line: 2823, col: 19, offset: 89942},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48952,25 +48952,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2801, col: 5, offset: 89224},
+							pos: position{line: 2801, col: 5, offset: 89226},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2805, col: 5, offset: 89352},
+							pos:        position{line: 2805, col: 5, offset: 89354},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2806, col: 5, offset: 89362},
+							pos:   position{line: 2806, col: 5, offset: 89364},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2827, col: 19, offset: 90015},
+								pos: position{line: 2827, col: 19, offset: 90017},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2827, col: 19, offset: 90015},
+									pos: position{line: 2827, col: 19, offset: 90017},
 									expr: &charClassMatcher{
-										pos:        position{line: 2827, col: 19, offset: 90015},
+										pos:        position{line: 2827, col: 19, offset: 90017},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48980,36 +48980,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2807, col: 5, offset: 89390},
+							pos:   position{line: 2807, col: 5, offset: 89392},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2807, col: 17, offset: 89402},
+								pos:  position{line: 2807, col: 17, offset: 89404},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2966, col: 8, offset: 93578},
+							pos: position{line: 2966, col: 8, offset: 93580},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2953, col: 12, offset: 93351},
+									pos: position{line: 2953, col: 12, offset: 93353},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2953, col: 13, offset: 93352},
+										pos: position{line: 2953, col: 13, offset: 93354},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2953, col: 13, offset: 93352},
+												pos:        position{line: 2953, col: 13, offset: 93354},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 20, offset: 93359},
+												pos:        position{line: 2953, col: 20, offset: 93361},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 29, offset: 93368},
+												pos:        position{line: 2953, col: 29, offset: 93370},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -49018,9 +49018,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2963, col: 8, offset: 93528},
+									pos: position{line: 2963, col: 8, offset: 93530},
 									expr: &anyMatcher{
-										line: 2963, col: 9, offset: 93529,
+										line: 2963, col: 9, offset: 93531,
 									},
 								},
 							},
@@ -49031,23 +49031,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2811, col: 1, offset: 89550},
+			pos:  position{line: 2811, col: 1, offset: 89552},
 			expr: &actionExpr{
-				pos: position{line: 2812, col: 5, offset: 89574},
+				pos: position{line: 2812, col: 5, offset: 89576},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2812, col: 5, offset: 89574},
+					pos: position{line: 2812, col: 5, offset: 89576},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2812, col: 5, offset: 89574},
+							pos:   position{line: 2812, col: 5, offset: 89576},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2823, col: 18, offset: 89939},
+								pos: position{line: 2823, col: 18, offset: 89941},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2823, col: 19, offset: 89940},
+									pos: position{line: 2823, col: 19, offset: 89942},
 									expr: &charClassMatcher{
-										pos:        position{line: 2823, col: 19, offset: 89940},
+										pos:        position{line: 2823, col: 19, offset: 89942},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49058,25 +49058,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2813, col: 5, offset: 89600},
+							pos: position{line: 2813, col: 5, offset: 89602},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2817, col: 5, offset: 89728},
+							pos:        position{line: 2817, col: 5, offset: 89730},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2818, col: 5, offset: 89737},
+							pos:   position{line: 2818, col: 5, offset: 89739},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2827, col: 19, offset: 90015},
+								pos: position{line: 2827, col: 19, offset: 90017},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2827, col: 19, offset: 90015},
+									pos: position{line: 2827, col: 19, offset: 90017},
 									expr: &charClassMatcher{
-										pos:        position{line: 2827, col: 19, offset: 90015},
+										pos:        position{line: 2827, col: 19, offset: 90017},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -49086,10 +49086,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2819, col: 5, offset: 89765},
+							pos:   position{line: 2819, col: 5, offset: 89767},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2819, col: 17, offset: 89777},
+								pos:  position{line: 2819, col: 17, offset: 89779},
 								name: "InlineAttributes",
 							},
 						},
@@ -49099,43 +49099,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2898, col: 1, offset: 91827},
+			pos:  position{line: 2898, col: 1, offset: 91829},
 			expr: &actionExpr{
-				pos: position{line: 2898, col: 17, offset: 91843},
+				pos: position{line: 2898, col: 17, offset: 91845},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2898, col: 17, offset: 91843},
+					pos:   position{line: 2898, col: 17, offset: 91845},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2915, col: 5, offset: 92297},
+						pos: position{line: 2915, col: 5, offset: 92299},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2915, col: 5, offset: 92297},
+							pos:   position{line: 2915, col: 5, offset: 92299},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2915, col: 14, offset: 92306},
+								pos: position{line: 2915, col: 14, offset: 92308},
 								expr: &choiceExpr{
-									pos: position{line: 2916, col: 9, offset: 92316},
+									pos: position{line: 2916, col: 9, offset: 92318},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2916, col: 9, offset: 92316},
+											pos: position{line: 2916, col: 9, offset: 92318},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2916, col: 9, offset: 92316},
+												pos: position{line: 2916, col: 9, offset: 92318},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2916, col: 9, offset: 92316},
+														pos: position{line: 2916, col: 9, offset: 92318},
 														expr: &litMatcher{
-															pos:        position{line: 2916, col: 10, offset: 92317},
+															pos:        position{line: 2916, col: 10, offset: 92319},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2917, col: 9, offset: 92345},
+														pos: position{line: 2917, col: 9, offset: 92347},
 														expr: &charClassMatcher{
-															pos:        position{line: 2917, col: 10, offset: 92346},
+															pos:        position{line: 2917, col: 10, offset: 92348},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -49146,27 +49146,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2920, col: 11, offset: 92558},
+											pos: position{line: 2920, col: 11, offset: 92560},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2920, col: 11, offset: 92558},
+													pos:        position{line: 2920, col: 11, offset: 92560},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2920, col: 19, offset: 92566},
+													pos: position{line: 2920, col: 19, offset: 92568},
 													expr: &seqExpr{
-														pos: position{line: 2920, col: 21, offset: 92568},
+														pos: position{line: 2920, col: 21, offset: 92570},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2920, col: 21, offset: 92568},
+																pos: position{line: 2920, col: 21, offset: 92570},
 																expr: &actionExpr{
-																	pos: position{line: 2944, col: 10, offset: 93180},
+																	pos: position{line: 2944, col: 10, offset: 93182},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2944, col: 10, offset: 93180},
+																		pos:        position{line: 2944, col: 10, offset: 93182},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -49175,11 +49175,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2920, col: 28, offset: 92575},
+																pos: position{line: 2920, col: 28, offset: 92577},
 																expr: &notExpr{
-																	pos: position{line: 2963, col: 8, offset: 93528},
+																	pos: position{line: 2963, col: 8, offset: 93530},
 																	expr: &anyMatcher{
-																		line: 2963, col: 9, offset: 93529,
+																		line: 2963, col: 9, offset: 93531,
 																	},
 																},
 															},
@@ -49189,35 +49189,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 661, col: 5, offset: 21195},
+											pos: position{line: 661, col: 5, offset: 21197},
 											run: (*parser).callonFileLocation23,
 											expr: &seqExpr{
-												pos: position{line: 661, col: 5, offset: 21195},
+												pos: position{line: 661, col: 5, offset: 21197},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 661, col: 5, offset: 21195},
+														pos: position{line: 661, col: 5, offset: 21197},
 														run: (*parser).callonFileLocation25,
 													},
 													&labeledExpr{
-														pos:   position{line: 664, col: 5, offset: 21267},
+														pos:   position{line: 664, col: 5, offset: 21269},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 664, col: 14, offset: 21276},
+															pos: position{line: 664, col: 14, offset: 21278},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 670, col: 5, offset: 21405},
+																	pos: position{line: 670, col: 5, offset: 21407},
 																	run: (*parser).callonFileLocation28,
 																	expr: &seqExpr{
-																		pos: position{line: 670, col: 5, offset: 21405},
+																		pos: position{line: 670, col: 5, offset: 21407},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 670, col: 5, offset: 21405},
+																				pos:        position{line: 670, col: 5, offset: 21407},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 670, col: 13, offset: 21413},
+																				pos:   position{line: 670, col: 13, offset: 21415},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -49249,7 +49249,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 670, col: 32, offset: 21432},
+																				pos:        position{line: 670, col: 32, offset: 21434},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -49258,19 +49258,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 677, col: 5, offset: 21673},
+																	pos: position{line: 677, col: 5, offset: 21675},
 																	run: (*parser).callonFileLocation38,
 																	expr: &seqExpr{
-																		pos: position{line: 677, col: 5, offset: 21673},
+																		pos: position{line: 677, col: 5, offset: 21675},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 677, col: 5, offset: 21673},
+																				pos:        position{line: 677, col: 5, offset: 21675},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 677, col: 9, offset: 21677},
+																				pos:   position{line: 677, col: 9, offset: 21679},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -49302,7 +49302,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 677, col: 28, offset: 21696},
+																				pos:        position{line: 677, col: 28, offset: 21698},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -49311,19 +49311,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 683, col: 25, offset: 21877},
+																	pos: position{line: 683, col: 25, offset: 21879},
 																	run: (*parser).callonFileLocation48,
 																	expr: &seqExpr{
-																		pos: position{line: 683, col: 25, offset: 21877},
+																		pos: position{line: 683, col: 25, offset: 21879},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 683, col: 25, offset: 21877},
+																				pos:        position{line: 683, col: 25, offset: 21879},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 683, col: 37, offset: 21889},
+																				pos:   position{line: 683, col: 37, offset: 21891},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -49355,33 +49355,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 683, col: 56, offset: 21908},
+																				pos:   position{line: 683, col: 56, offset: 21910},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 683, col: 62, offset: 21914},
+																					pos: position{line: 683, col: 62, offset: 21916},
 																					expr: &actionExpr{
-																						pos: position{line: 691, col: 17, offset: 22211},
+																						pos: position{line: 691, col: 17, offset: 22213},
 																						run: (*parser).callonFileLocation59,
 																						expr: &seqExpr{
-																							pos: position{line: 691, col: 17, offset: 22211},
+																							pos: position{line: 691, col: 17, offset: 22213},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 691, col: 17, offset: 22211},
+																									pos:        position{line: 691, col: 17, offset: 22213},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 691, col: 21, offset: 22215},
+																									pos:   position{line: 691, col: 21, offset: 22217},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 691, col: 28, offset: 22222},
+																										pos: position{line: 691, col: 28, offset: 22224},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 691, col: 28, offset: 22222},
+																												pos: position{line: 691, col: 28, offset: 22224},
 																												run: (*parser).callonFileLocation64,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 691, col: 28, offset: 22222},
+																													pos:        position{line: 691, col: 28, offset: 22224},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -49389,12 +49389,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 693, col: 9, offset: 22276},
+																												pos: position{line: 693, col: 9, offset: 22278},
 																												run: (*parser).callonFileLocation66,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 693, col: 9, offset: 22276},
+																													pos: position{line: 693, col: 9, offset: 22278},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 693, col: 9, offset: 22276},
+																														pos:        position{line: 693, col: 9, offset: 22278},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -49411,7 +49411,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 683, col: 78, offset: 21930},
+																				pos:        position{line: 683, col: 78, offset: 21932},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -49420,19 +49420,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 687, col: 25, offset: 22048},
+																	pos: position{line: 687, col: 25, offset: 22050},
 																	run: (*parser).callonFileLocation70,
 																	expr: &seqExpr{
-																		pos: position{line: 687, col: 25, offset: 22048},
+																		pos: position{line: 687, col: 25, offset: 22050},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 687, col: 25, offset: 22048},
+																				pos:        position{line: 687, col: 25, offset: 22050},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 687, col: 38, offset: 22061},
+																				pos:   position{line: 687, col: 38, offset: 22063},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 320, col: 18, offset: 9837},
@@ -49464,33 +49464,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 687, col: 57, offset: 22080},
+																				pos:   position{line: 687, col: 57, offset: 22082},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 687, col: 63, offset: 22086},
+																					pos: position{line: 687, col: 63, offset: 22088},
 																					expr: &actionExpr{
-																						pos: position{line: 691, col: 17, offset: 22211},
+																						pos: position{line: 691, col: 17, offset: 22213},
 																						run: (*parser).callonFileLocation81,
 																						expr: &seqExpr{
-																							pos: position{line: 691, col: 17, offset: 22211},
+																							pos: position{line: 691, col: 17, offset: 22213},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 691, col: 17, offset: 22211},
+																									pos:        position{line: 691, col: 17, offset: 22213},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 691, col: 21, offset: 22215},
+																									pos:   position{line: 691, col: 21, offset: 22217},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 691, col: 28, offset: 22222},
+																										pos: position{line: 691, col: 28, offset: 22224},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 691, col: 28, offset: 22222},
+																												pos: position{line: 691, col: 28, offset: 22224},
 																												run: (*parser).callonFileLocation86,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 691, col: 28, offset: 22222},
+																													pos:        position{line: 691, col: 28, offset: 22224},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -49498,12 +49498,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 693, col: 9, offset: 22276},
+																												pos: position{line: 693, col: 9, offset: 22278},
 																												run: (*parser).callonFileLocation88,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 693, col: 9, offset: 22276},
+																													pos: position{line: 693, col: 9, offset: 22278},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 693, col: 9, offset: 22276},
+																														pos:        position{line: 693, col: 9, offset: 22278},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -49520,7 +49520,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 687, col: 79, offset: 22102},
+																				pos:        position{line: 687, col: 79, offset: 22104},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -49535,27 +49535,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1223, col: 23, offset: 38060},
+											pos: position{line: 1223, col: 23, offset: 38062},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1223, col: 23, offset: 38060},
+												pos: position{line: 1223, col: 23, offset: 38062},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1221, col: 32, offset: 38028},
+														pos:        position{line: 1221, col: 32, offset: 38030},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1223, col: 51, offset: 38088},
+														pos:   position{line: 1223, col: 51, offset: 38090},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1223, col: 56, offset: 38093},
+															pos: position{line: 1223, col: 56, offset: 38095},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1223, col: 56, offset: 38093},
+																pos: position{line: 1223, col: 56, offset: 38095},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1223, col: 56, offset: 38093},
+																	pos:        position{line: 1223, col: 56, offset: 38095},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -49565,23 +49565,23 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1221, col: 32, offset: 38028},
+														pos:        position{line: 1221, col: 32, offset: 38030},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 1223, col: 123, offset: 38160},
+														pos: position{line: 1223, col: 123, offset: 38162},
 														run: (*parser).callonFileLocation100,
 													},
 												},
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2923, col: 11, offset: 92695},
+											pos: position{line: 2923, col: 11, offset: 92697},
 											run: (*parser).callonFileLocation101,
 											expr: &litMatcher{
-												pos:        position{line: 2923, col: 11, offset: 92695},
+												pos:        position{line: 2923, col: 11, offset: 92697},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 9e70caf..5822a33 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -423,7 +423,7 @@ LegacyElementID <-
 
 // shorthand syntax for titles. Eg: `.a title`
 ShortHandTitle <- `.` 
-    ![. ] // may not start with a dot or a space, to avoid confusion with list items or literal block delimiters
+    ![. \t] // may not start with a dot or a space, to avoid confusion with list items or literal block delimiters
     elements:(
         TitlePassthrough
         / Alphanums
-- 
2.43.0


From a493a6558c1c88141b3b084898ec858f3b7200e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:04 +0000
Subject: [PATCH 70/75] fix: ordered lists with markers of several characters

---
 pkg/parser/parser.go  | 11221 +++++++++++++++++++++-------------------
 pkg/parser/parser.peg |     4 +-
 2 files changed, 5761 insertions(+), 5464 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 4527400..a28ea28 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 49, offset: 11042},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93182},
+														pos: position{line: 2946, col: 10, offset: 93249},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93182},
+															pos:        position{line: 2946, col: 10, offset: 93249},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2966, col: 8, offset: 93580},
+													pos: position{line: 2968, col: 8, offset: 93647},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93353},
+															pos: position{line: 2955, col: 12, offset: 93420},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93354},
+																pos: position{line: 2955, col: 13, offset: 93421},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93354},
+																		pos:        position{line: 2955, col: 13, offset: 93421},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93361},
+																		pos:        position{line: 2955, col: 20, offset: 93428},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93370},
+																		pos:        position{line: 2955, col: 29, offset: 93437},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93530},
+															pos: position{line: 2965, col: 8, offset: 93597},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93531,
+																line: 2965, col: 9, offset: 93598,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 364, col: 39, offset: 11163},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93182},
+														pos: position{line: 2946, col: 10, offset: 93249},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93182},
+															pos:        position{line: 2946, col: 10, offset: 93249},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2966, col: 8, offset: 93580},
+													pos: position{line: 2968, col: 8, offset: 93647},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93353},
+															pos: position{line: 2955, col: 12, offset: 93420},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93354},
+																pos: position{line: 2955, col: 13, offset: 93421},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93354},
+																		pos:        position{line: 2955, col: 13, offset: 93421},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93361},
+																		pos:        position{line: 2955, col: 20, offset: 93428},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93370},
+																		pos:        position{line: 2955, col: 29, offset: 93437},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93530},
+															pos: position{line: 2965, col: 8, offset: 93597},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93531,
+																line: 2965, col: 9, offset: 93598,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93182},
+														pos: position{line: 2946, col: 10, offset: 93249},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93182},
+															pos:        position{line: 2946, col: 10, offset: 93249},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2963, col: 8, offset: 93530},
+													pos: position{line: 2965, col: 8, offset: 93597},
 													expr: &anyMatcher{
-														line: 2963, col: 9, offset: 93531,
+														line: 2965, col: 9, offset: 93598,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93182},
+														pos: position{line: 2946, col: 10, offset: 93249},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93182},
+															pos:        position{line: 2946, col: 10, offset: 93249},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2963, col: 8, offset: 93530},
+													pos: position{line: 2965, col: 8, offset: 93597},
 													expr: &anyMatcher{
-														line: 2963, col: 9, offset: 93531,
+														line: 2965, col: 9, offset: 93598,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2936, col: 12, offset: 93009},
+																pos: position{line: 2938, col: 12, offset: 93076},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2936, col: 13, offset: 93010},
+																	pos: position{line: 2938, col: 13, offset: 93077},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2936, col: 13, offset: 93010},
+																			pos: position{line: 2938, col: 13, offset: 93077},
 																			expr: &litMatcher{
-																				pos:        position{line: 2936, col: 13, offset: 93010},
+																				pos:        position{line: 2938, col: 13, offset: 93077},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2936, col: 18, offset: 93015},
+																			pos: position{line: 2938, col: 18, offset: 93082},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2936, col: 18, offset: 93015},
+																				pos:        position{line: 2938, col: 18, offset: 93082},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93182},
+														pos: position{line: 2946, col: 10, offset: 93249},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93182},
+															pos:        position{line: 2946, col: 10, offset: 93249},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93182},
+														pos: position{line: 2946, col: 10, offset: 93249},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93182},
+															pos:        position{line: 2946, col: 10, offset: 93249},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2936, col: 12, offset: 93009},
+																pos: position{line: 2938, col: 12, offset: 93076},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2936, col: 13, offset: 93010},
+																	pos: position{line: 2938, col: 13, offset: 93077},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2936, col: 13, offset: 93010},
+																			pos: position{line: 2938, col: 13, offset: 93077},
 																			expr: &litMatcher{
-																				pos:        position{line: 2936, col: 13, offset: 93010},
+																				pos:        position{line: 2938, col: 13, offset: 93077},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2936, col: 18, offset: 93015},
+																			pos: position{line: 2938, col: 18, offset: 93082},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2936, col: 18, offset: 93015},
+																				pos:        position{line: 2938, col: 18, offset: 93082},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93182},
+														pos: position{line: 2946, col: 10, offset: 93249},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93182},
+															pos:        position{line: 2946, col: 10, offset: 93249},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2963, col: 8, offset: 93530},
+													pos: position{line: 2965, col: 8, offset: 93597},
 													expr: &anyMatcher{
-														line: 2963, col: 9, offset: 93531,
+														line: 2965, col: 9, offset: 93598,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93182},
+														pos: position{line: 2946, col: 10, offset: 93249},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93182},
+															pos:        position{line: 2946, col: 10, offset: 93249},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2963, col: 8, offset: 93530},
+													pos: position{line: 2965, col: 8, offset: 93597},
 													expr: &anyMatcher{
-														line: 2963, col: 9, offset: 93531,
+														line: 2965, col: 9, offset: 93598,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 749, col: 5, offset: 24132},
 													expr: &charClassMatcher{
-														pos:        position{line: 2834, col: 13, offset: 90277},
+														pos:        position{line: 2836, col: 13, offset: 90344},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 767, col: 8, offset: 24776},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93182},
+																				pos: position{line: 2946, col: 10, offset: 93249},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93182},
+																					pos:        position{line: 2946, col: 10, offset: 93249},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93580},
+																			pos: position{line: 2968, col: 8, offset: 93647},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93353},
+																					pos: position{line: 2955, col: 12, offset: 93420},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93354},
+																						pos: position{line: 2955, col: 13, offset: 93421},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93354},
+																								pos:        position{line: 2955, col: 13, offset: 93421},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93361},
+																								pos:        position{line: 2955, col: 20, offset: 93428},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93370},
+																								pos:        position{line: 2955, col: 29, offset: 93437},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 774, col: 8, offset: 25024},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93182},
+																				pos: position{line: 2946, col: 10, offset: 93249},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93182},
+																					pos:        position{line: 2946, col: 10, offset: 93249},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93580},
+																			pos: position{line: 2968, col: 8, offset: 93647},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93353},
+																					pos: position{line: 2955, col: 12, offset: 93420},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93354},
+																						pos: position{line: 2955, col: 13, offset: 93421},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93354},
+																								pos:        position{line: 2955, col: 13, offset: 93421},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93361},
+																								pos:        position{line: 2955, col: 20, offset: 93428},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93370},
+																								pos:        position{line: 2955, col: 29, offset: 93437},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 785, col: 52, offset: 25436},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93182},
+																				pos: position{line: 2946, col: 10, offset: 93249},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93182},
+																					pos:        position{line: 2946, col: 10, offset: 93249},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93580},
+																			pos: position{line: 2968, col: 8, offset: 93647},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93353},
+																					pos: position{line: 2955, col: 12, offset: 93420},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93354},
+																						pos: position{line: 2955, col: 13, offset: 93421},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93354},
+																								pos:        position{line: 2955, col: 13, offset: 93421},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93361},
+																								pos:        position{line: 2955, col: 20, offset: 93428},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93370},
+																								pos:        position{line: 2955, col: 29, offset: 93437},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 781, col: 8, offset: 25270},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93182},
+																				pos: position{line: 2946, col: 10, offset: 93249},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93182},
+																					pos:        position{line: 2946, col: 10, offset: 93249},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93580},
+																			pos: position{line: 2968, col: 8, offset: 93647},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93353},
+																					pos: position{line: 2955, col: 12, offset: 93420},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93354},
+																						pos: position{line: 2955, col: 13, offset: 93421},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93354},
+																								pos:        position{line: 2955, col: 13, offset: 93421},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93361},
+																								pos:        position{line: 2955, col: 20, offset: 93428},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93370},
+																								pos:        position{line: 2955, col: 29, offset: 93437},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 796, col: 8, offset: 25808},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93182},
+																				pos: position{line: 2946, col: 10, offset: 93249},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93182},
+																					pos:        position{line: 2946, col: 10, offset: 93249},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93580},
+																			pos: position{line: 2968, col: 8, offset: 93647},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93353},
+																					pos: position{line: 2955, col: 12, offset: 93420},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93354},
+																						pos: position{line: 2955, col: 13, offset: 93421},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93354},
+																								pos:        position{line: 2955, col: 13, offset: 93421},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93361},
+																								pos:        position{line: 2955, col: 20, offset: 93428},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93370},
+																								pos:        position{line: 2955, col: 29, offset: 93437},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 810, col: 8, offset: 26284},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93182},
+																				pos: position{line: 2946, col: 10, offset: 93249},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93182},
+																					pos:        position{line: 2946, col: 10, offset: 93249},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93580},
+																			pos: position{line: 2968, col: 8, offset: 93647},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93353},
+																					pos: position{line: 2955, col: 12, offset: 93420},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93354},
+																						pos: position{line: 2955, col: 13, offset: 93421},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93354},
+																								pos:        position{line: 2955, col: 13, offset: 93421},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93361},
+																								pos:        position{line: 2955, col: 20, offset: 93428},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93370},
+																								pos:        position{line: 2955, col: 29, offset: 93437},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 817, col: 8, offset: 26536},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93182},
+																				pos: position{line: 2946, col: 10, offset: 93249},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93182},
+																					pos:        position{line: 2946, col: 10, offset: 93249},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93580},
+																			pos: position{line: 2968, col: 8, offset: 93647},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93353},
+																					pos: position{line: 2955, col: 12, offset: 93420},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93354},
+																						pos: position{line: 2955, col: 13, offset: 93421},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93354},
+																								pos:        position{line: 2955, col: 13, offset: 93421},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93361},
+																								pos:        position{line: 2955, col: 20, offset: 93428},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93370},
+																								pos:        position{line: 2955, col: 29, offset: 93437},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 824, col: 8, offset: 26786},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93182},
+																				pos: position{line: 2946, col: 10, offset: 93249},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93182},
+																					pos:        position{line: 2946, col: 10, offset: 93249},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93580},
+																			pos: position{line: 2968, col: 8, offset: 93647},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93353},
+																					pos: position{line: 2955, col: 12, offset: 93420},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93354},
+																						pos: position{line: 2955, col: 13, offset: 93421},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93354},
+																								pos:        position{line: 2955, col: 13, offset: 93421},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93361},
+																								pos:        position{line: 2955, col: 20, offset: 93428},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93370},
+																								pos:        position{line: 2955, col: 29, offset: 93437},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 831, col: 8, offset: 27032},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93182},
+																				pos: position{line: 2946, col: 10, offset: 93249},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93182},
+																					pos:        position{line: 2946, col: 10, offset: 93249},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93580},
+																			pos: position{line: 2968, col: 8, offset: 93647},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93353},
+																					pos: position{line: 2955, col: 12, offset: 93420},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93354},
+																						pos: position{line: 2955, col: 13, offset: 93421},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93354},
+																								pos:        position{line: 2955, col: 13, offset: 93421},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93361},
+																								pos:        position{line: 2955, col: 20, offset: 93428},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93370},
+																								pos:        position{line: 2955, col: 29, offset: 93437},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2948, col: 11, offset: 93243},
+													pos: position{line: 2950, col: 11, offset: 93310},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2948, col: 11, offset: 93243},
+														pos: position{line: 2950, col: 11, offset: 93310},
 														expr: &charClassMatcher{
-															pos:        position{line: 2948, col: 11, offset: 93243},
+															pos:        position{line: 2950, col: 11, offset: 93310},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2894, col: 14, offset: 91775},
+													pos: position{line: 2896, col: 14, offset: 91842},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2894, col: 14, offset: 91775},
+														pos: position{line: 2896, col: 14, offset: 91842},
 														expr: &charClassMatcher{
-															pos:        position{line: 2894, col: 14, offset: 91775},
+															pos:        position{line: 2896, col: 14, offset: 91842},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2963, col: 8, offset: 93530},
+													pos: position{line: 2965, col: 8, offset: 93597},
 													expr: &anyMatcher{
-														line: 2963, col: 9, offset: 93531,
+														line: 2965, col: 9, offset: 93598,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2963, col: 8, offset: 93530},
+							pos: position{line: 2965, col: 8, offset: 93597},
 							expr: &anyMatcher{
-								line: 2963, col: 9, offset: 93531,
+								line: 2965, col: 9, offset: 93598,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2898, col: 17, offset: 91845},
+												pos: position{line: 2900, col: 17, offset: 91912},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2898, col: 17, offset: 91845},
+													pos:   position{line: 2900, col: 17, offset: 91912},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2915, col: 5, offset: 92299},
+														pos: position{line: 2917, col: 5, offset: 92366},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2915, col: 5, offset: 92299},
+															pos:   position{line: 2917, col: 5, offset: 92366},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2915, col: 14, offset: 92308},
+																pos: position{line: 2917, col: 14, offset: 92375},
 																expr: &choiceExpr{
-																	pos: position{line: 2916, col: 9, offset: 92318},
+																	pos: position{line: 2918, col: 9, offset: 92385},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2916, col: 9, offset: 92318},
+																			pos: position{line: 2918, col: 9, offset: 92385},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2916, col: 9, offset: 92318},
+																				pos: position{line: 2918, col: 9, offset: 92385},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2916, col: 9, offset: 92318},
+																						pos: position{line: 2918, col: 9, offset: 92385},
 																						expr: &litMatcher{
-																							pos:        position{line: 2916, col: 10, offset: 92319},
+																							pos:        position{line: 2918, col: 10, offset: 92386},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2917, col: 9, offset: 92347},
+																						pos: position{line: 2919, col: 9, offset: 92414},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2917, col: 10, offset: 92348},
+																							pos:        position{line: 2919, col: 10, offset: 92415},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2920, col: 11, offset: 92560},
+																			pos: position{line: 2922, col: 11, offset: 92627},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2920, col: 11, offset: 92560},
+																					pos:        position{line: 2922, col: 11, offset: 92627},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2920, col: 19, offset: 92568},
+																					pos: position{line: 2922, col: 19, offset: 92635},
 																					expr: &seqExpr{
-																						pos: position{line: 2920, col: 21, offset: 92570},
+																						pos: position{line: 2922, col: 21, offset: 92637},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2920, col: 21, offset: 92570},
+																								pos: position{line: 2922, col: 21, offset: 92637},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93182},
+																									pos: position{line: 2946, col: 10, offset: 93249},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93182},
+																										pos:        position{line: 2946, col: 10, offset: 93249},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 28, offset: 92577},
+																								pos: position{line: 2922, col: 28, offset: 92644},
 																								expr: &notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -3088,10 +3088,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2923, col: 11, offset: 92697},
+																			pos: position{line: 2925, col: 11, offset: 92764},
 																			run: (*parser).callonFileInclusion108,
 																			expr: &litMatcher{
-																				pos:        position{line: 2923, col: 11, offset: 92697},
+																				pos:        position{line: 2925, col: 11, offset: 92764},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3120,10 +3120,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 10, offset: 93182},
+								pos: position{line: 2946, col: 10, offset: 93249},
 								run: (*parser).callonFileInclusion113,
 								expr: &charClassMatcher{
-									pos:        position{line: 2944, col: 10, offset: 93182},
+									pos:        position{line: 2946, col: 10, offset: 93249},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3132,28 +3132,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2966, col: 8, offset: 93580},
+							pos: position{line: 2968, col: 8, offset: 93647},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2953, col: 12, offset: 93353},
+									pos: position{line: 2955, col: 12, offset: 93420},
 									run: (*parser).callonFileInclusion116,
 									expr: &choiceExpr{
-										pos: position{line: 2953, col: 13, offset: 93354},
+										pos: position{line: 2955, col: 13, offset: 93421},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2953, col: 13, offset: 93354},
+												pos:        position{line: 2955, col: 13, offset: 93421},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 20, offset: 93361},
+												pos:        position{line: 2955, col: 20, offset: 93428},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 29, offset: 93370},
+												pos:        position{line: 2955, col: 29, offset: 93437},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3162,9 +3162,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2963, col: 8, offset: 93530},
+									pos: position{line: 2965, col: 8, offset: 93597},
 									expr: &anyMatcher{
-										line: 2963, col: 9, offset: 93531,
+										line: 2965, col: 9, offset: 93598,
 									},
 								},
 							},
@@ -3210,24 +3210,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2936, col: 12, offset: 93009},
+																				pos: position{line: 2938, col: 12, offset: 93076},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2936, col: 13, offset: 93010},
+																					pos: position{line: 2938, col: 13, offset: 93077},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2936, col: 13, offset: 93010},
+																							pos: position{line: 2938, col: 13, offset: 93077},
 																							expr: &litMatcher{
-																								pos:        position{line: 2936, col: 13, offset: 93010},
+																								pos:        position{line: 2938, col: 13, offset: 93077},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2936, col: 18, offset: 93015},
+																							pos: position{line: 2938, col: 18, offset: 93082},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2936, col: 18, offset: 93015},
+																								pos:        position{line: 2938, col: 18, offset: 93082},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3248,24 +3248,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2936, col: 12, offset: 93009},
+																				pos: position{line: 2938, col: 12, offset: 93076},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2936, col: 13, offset: 93010},
+																					pos: position{line: 2938, col: 13, offset: 93077},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2936, col: 13, offset: 93010},
+																							pos: position{line: 2938, col: 13, offset: 93077},
 																							expr: &litMatcher{
-																								pos:        position{line: 2936, col: 13, offset: 93010},
+																								pos:        position{line: 2938, col: 13, offset: 93077},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2936, col: 18, offset: 93015},
+																							pos: position{line: 2938, col: 18, offset: 93082},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2936, col: 18, offset: 93015},
+																								pos:        position{line: 2938, col: 18, offset: 93082},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3286,24 +3286,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2936, col: 12, offset: 93009},
+																		pos: position{line: 2938, col: 12, offset: 93076},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2936, col: 13, offset: 93010},
+																			pos: position{line: 2938, col: 13, offset: 93077},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2936, col: 13, offset: 93010},
+																					pos: position{line: 2938, col: 13, offset: 93077},
 																					expr: &litMatcher{
-																						pos:        position{line: 2936, col: 13, offset: 93010},
+																						pos:        position{line: 2938, col: 13, offset: 93077},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2936, col: 18, offset: 93015},
+																					pos: position{line: 2938, col: 18, offset: 93082},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2936, col: 18, offset: 93015},
+																						pos:        position{line: 2938, col: 18, offset: 93082},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3352,24 +3352,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2936, col: 12, offset: 93009},
+																									pos: position{line: 2938, col: 12, offset: 93076},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2936, col: 13, offset: 93010},
+																										pos: position{line: 2938, col: 13, offset: 93077},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2936, col: 13, offset: 93010},
+																												pos: position{line: 2938, col: 13, offset: 93077},
 																												expr: &litMatcher{
-																													pos:        position{line: 2936, col: 13, offset: 93010},
+																													pos:        position{line: 2938, col: 13, offset: 93077},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2936, col: 18, offset: 93015},
+																												pos: position{line: 2938, col: 18, offset: 93082},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2936, col: 18, offset: 93015},
+																													pos:        position{line: 2938, col: 18, offset: 93082},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3390,24 +3390,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2936, col: 12, offset: 93009},
+																									pos: position{line: 2938, col: 12, offset: 93076},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2936, col: 13, offset: 93010},
+																										pos: position{line: 2938, col: 13, offset: 93077},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2936, col: 13, offset: 93010},
+																												pos: position{line: 2938, col: 13, offset: 93077},
 																												expr: &litMatcher{
-																													pos:        position{line: 2936, col: 13, offset: 93010},
+																													pos:        position{line: 2938, col: 13, offset: 93077},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2936, col: 18, offset: 93015},
+																												pos: position{line: 2938, col: 18, offset: 93082},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2936, col: 18, offset: 93015},
+																													pos:        position{line: 2938, col: 18, offset: 93082},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3428,24 +3428,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2936, col: 12, offset: 93009},
+																							pos: position{line: 2938, col: 12, offset: 93076},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2936, col: 13, offset: 93010},
+																								pos: position{line: 2938, col: 13, offset: 93077},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2936, col: 13, offset: 93010},
+																										pos: position{line: 2938, col: 13, offset: 93077},
 																										expr: &litMatcher{
-																											pos:        position{line: 2936, col: 13, offset: 93010},
+																											pos:        position{line: 2938, col: 13, offset: 93077},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2936, col: 18, offset: 93015},
+																										pos: position{line: 2938, col: 18, offset: 93082},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2936, col: 18, offset: 93015},
+																											pos:        position{line: 2938, col: 18, offset: 93082},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3478,24 +3478,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2936, col: 12, offset: 93009},
+														pos: position{line: 2938, col: 12, offset: 93076},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2936, col: 13, offset: 93010},
+															pos: position{line: 2938, col: 13, offset: 93077},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2936, col: 13, offset: 93010},
+																	pos: position{line: 2938, col: 13, offset: 93077},
 																	expr: &litMatcher{
-																		pos:        position{line: 2936, col: 13, offset: 93010},
+																		pos:        position{line: 2938, col: 13, offset: 93077},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2936, col: 18, offset: 93015},
+																	pos: position{line: 2938, col: 18, offset: 93082},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2936, col: 18, offset: 93015},
+																		pos:        position{line: 2938, col: 18, offset: 93082},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3516,24 +3516,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2936, col: 12, offset: 93009},
+														pos: position{line: 2938, col: 12, offset: 93076},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2936, col: 13, offset: 93010},
+															pos: position{line: 2938, col: 13, offset: 93077},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2936, col: 13, offset: 93010},
+																	pos: position{line: 2938, col: 13, offset: 93077},
 																	expr: &litMatcher{
-																		pos:        position{line: 2936, col: 13, offset: 93010},
+																		pos:        position{line: 2938, col: 13, offset: 93077},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2936, col: 18, offset: 93015},
+																	pos: position{line: 2938, col: 18, offset: 93082},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2936, col: 18, offset: 93015},
+																		pos:        position{line: 2938, col: 18, offset: 93082},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3554,24 +3554,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2936, col: 12, offset: 93009},
+												pos: position{line: 2938, col: 12, offset: 93076},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2936, col: 13, offset: 93010},
+													pos: position{line: 2938, col: 13, offset: 93077},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2936, col: 13, offset: 93010},
+															pos: position{line: 2938, col: 13, offset: 93077},
 															expr: &litMatcher{
-																pos:        position{line: 2936, col: 13, offset: 93010},
+																pos:        position{line: 2938, col: 13, offset: 93077},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2936, col: 18, offset: 93015},
+															pos: position{line: 2938, col: 18, offset: 93082},
 															expr: &charClassMatcher{
-																pos:        position{line: 2936, col: 18, offset: 93015},
+																pos:        position{line: 2938, col: 18, offset: 93082},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3587,9 +3587,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2963, col: 8, offset: 93530},
+							pos: position{line: 2965, col: 8, offset: 93597},
 							expr: &anyMatcher{
-								line: 2963, col: 9, offset: 93531,
+								line: 2965, col: 9, offset: 93598,
 							},
 						},
 					},
@@ -3630,12 +3630,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2838, col: 14, offset: 90351},
+																		pos: position{line: 2840, col: 14, offset: 90418},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2838, col: 14, offset: 90351},
+																			pos: position{line: 2840, col: 14, offset: 90418},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2838, col: 14, offset: 90351},
+																				pos:        position{line: 2840, col: 14, offset: 90418},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3696,12 +3696,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2838, col: 14, offset: 90351},
+																				pos: position{line: 2840, col: 14, offset: 90418},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2838, col: 14, offset: 90351},
+																					pos: position{line: 2840, col: 14, offset: 90418},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2838, col: 14, offset: 90351},
+																						pos:        position{line: 2840, col: 14, offset: 90418},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3782,12 +3782,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2838, col: 14, offset: 90351},
+																							pos: position{line: 2840, col: 14, offset: 90418},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2838, col: 14, offset: 90351},
+																								pos: position{line: 2840, col: 14, offset: 90418},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2838, col: 14, offset: 90351},
+																									pos:        position{line: 2840, col: 14, offset: 90418},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3848,12 +3848,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2838, col: 14, offset: 90351},
+																									pos: position{line: 2840, col: 14, offset: 90418},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2838, col: 14, offset: 90351},
+																										pos: position{line: 2840, col: 14, offset: 90418},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2838, col: 14, offset: 90351},
+																											pos:        position{line: 2840, col: 14, offset: 90418},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3910,9 +3910,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2963, col: 8, offset: 93530},
+							pos: position{line: 2965, col: 8, offset: 93597},
 							expr: &anyMatcher{
-								line: 2963, col: 9, offset: 93531,
+								line: 2965, col: 9, offset: 93598,
 							},
 						},
 					},
@@ -3955,12 +3955,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2838, col: 14, offset: 90351},
+																pos: position{line: 2840, col: 14, offset: 90418},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2838, col: 14, offset: 90351},
+																	pos: position{line: 2840, col: 14, offset: 90418},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2838, col: 14, offset: 90351},
+																		pos:        position{line: 2840, col: 14, offset: 90418},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3998,12 +3998,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2838, col: 14, offset: 90351},
+																pos: position{line: 2840, col: 14, offset: 90418},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2838, col: 14, offset: 90351},
+																	pos: position{line: 2840, col: 14, offset: 90418},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2838, col: 14, offset: 90351},
+																		pos:        position{line: 2840, col: 14, offset: 90418},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4034,28 +4034,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2966, col: 8, offset: 93580},
+							pos: position{line: 2968, col: 8, offset: 93647},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2953, col: 12, offset: 93353},
+									pos: position{line: 2955, col: 12, offset: 93420},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2953, col: 13, offset: 93354},
+										pos: position{line: 2955, col: 13, offset: 93421},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2953, col: 13, offset: 93354},
+												pos:        position{line: 2955, col: 13, offset: 93421},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 20, offset: 93361},
+												pos:        position{line: 2955, col: 20, offset: 93428},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 29, offset: 93370},
+												pos:        position{line: 2955, col: 29, offset: 93437},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4064,9 +4064,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2963, col: 8, offset: 93530},
+									pos: position{line: 2965, col: 8, offset: 93597},
 									expr: &anyMatcher{
-										line: 2963, col: 9, offset: 93531,
+										line: 2965, col: 9, offset: 93598,
 									},
 								},
 							},
@@ -4085,9 +4085,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2961, col: 11, offset: 93516},
+							pos: position{line: 2963, col: 11, offset: 93583},
 							expr: &anyMatcher{
-								line: 2961, col: 13, offset: 93518,
+								line: 2963, col: 13, offset: 93585,
 							},
 						},
 						&labeledExpr{
@@ -4182,10 +4182,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 49, offset: 11042},
 														expr: &actionExpr{
-															pos: position{line: 2944, col: 10, offset: 93182},
+															pos: position{line: 2946, col: 10, offset: 93249},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 10, offset: 93182},
+																pos:        position{line: 2946, col: 10, offset: 93249},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4194,28 +4194,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2966, col: 8, offset: 93580},
+														pos: position{line: 2968, col: 8, offset: 93647},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93353},
+																pos: position{line: 2955, col: 12, offset: 93420},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93354},
+																	pos: position{line: 2955, col: 13, offset: 93421},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93354},
+																			pos:        position{line: 2955, col: 13, offset: 93421},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93361},
+																			pos:        position{line: 2955, col: 20, offset: 93428},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93370},
+																			pos:        position{line: 2955, col: 29, offset: 93437},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4224,9 +4224,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93530},
+																pos: position{line: 2965, col: 8, offset: 93597},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93531,
+																	line: 2965, col: 9, offset: 93598,
 																},
 															},
 														},
@@ -4287,10 +4287,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 364, col: 39, offset: 11163},
 														expr: &actionExpr{
-															pos: position{line: 2944, col: 10, offset: 93182},
+															pos: position{line: 2946, col: 10, offset: 93249},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 10, offset: 93182},
+																pos:        position{line: 2946, col: 10, offset: 93249},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4299,28 +4299,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2966, col: 8, offset: 93580},
+														pos: position{line: 2968, col: 8, offset: 93647},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93353},
+																pos: position{line: 2955, col: 12, offset: 93420},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93354},
+																	pos: position{line: 2955, col: 13, offset: 93421},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93354},
+																			pos:        position{line: 2955, col: 13, offset: 93421},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93361},
+																			pos:        position{line: 2955, col: 20, offset: 93428},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93370},
+																			pos:        position{line: 2955, col: 29, offset: 93437},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4329,9 +4329,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93530},
+																pos: position{line: 2965, col: 8, offset: 93597},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93531,
+																	line: 2965, col: 9, offset: 93598,
 																},
 															},
 														},
@@ -4346,18 +4346,18 @@ var g = &grammar{
 												pos: position{line: 702, col: 14, offset: 22579},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2961, col: 11, offset: 93516},
+														pos: position{line: 2963, col: 11, offset: 93583},
 														expr: &anyMatcher{
-															line: 2961, col: 13, offset: 93518,
+															line: 2963, col: 13, offset: 93585,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 702, col: 21, offset: 22586},
 														expr: &actionExpr{
-															pos: position{line: 2944, col: 10, offset: 93182},
+															pos: position{line: 2946, col: 10, offset: 93249},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 10, offset: 93182},
+																pos:        position{line: 2946, col: 10, offset: 93249},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4366,28 +4366,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2966, col: 8, offset: 93580},
+														pos: position{line: 2968, col: 8, offset: 93647},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93353},
+																pos: position{line: 2955, col: 12, offset: 93420},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93354},
+																	pos: position{line: 2955, col: 13, offset: 93421},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93354},
+																			pos:        position{line: 2955, col: 13, offset: 93421},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93361},
+																			pos:        position{line: 2955, col: 20, offset: 93428},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93370},
+																			pos:        position{line: 2955, col: 29, offset: 93437},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4396,9 +4396,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93530},
+																pos: position{line: 2965, col: 8, offset: 93597},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93531,
+																	line: 2965, col: 9, offset: 93598,
 																},
 															},
 														},
@@ -4457,10 +4457,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 767, col: 8, offset: 24776},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93182},
+																		pos: position{line: 2946, col: 10, offset: 93249},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93182},
+																			pos:        position{line: 2946, col: 10, offset: 93249},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4469,28 +4469,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93580},
+																	pos: position{line: 2968, col: 8, offset: 93647},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93353},
+																			pos: position{line: 2955, col: 12, offset: 93420},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93354},
+																				pos: position{line: 2955, col: 13, offset: 93421},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93354},
+																						pos:        position{line: 2955, col: 13, offset: 93421},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93361},
+																						pos:        position{line: 2955, col: 20, offset: 93428},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93370},
+																						pos:        position{line: 2955, col: 29, offset: 93437},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4499,9 +4499,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93530},
+																			pos: position{line: 2965, col: 8, offset: 93597},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93531,
+																				line: 2965, col: 9, offset: 93598,
 																			},
 																		},
 																	},
@@ -4562,10 +4562,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 767, col: 8, offset: 24776},
 																									expr: &actionExpr{
-																										pos: position{line: 2944, col: 10, offset: 93182},
+																										pos: position{line: 2946, col: 10, offset: 93249},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2944, col: 10, offset: 93182},
+																											pos:        position{line: 2946, col: 10, offset: 93249},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4574,28 +4574,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2966, col: 8, offset: 93580},
+																									pos: position{line: 2968, col: 8, offset: 93647},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2953, col: 12, offset: 93353},
+																											pos: position{line: 2955, col: 12, offset: 93420},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2953, col: 13, offset: 93354},
+																												pos: position{line: 2955, col: 13, offset: 93421},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 13, offset: 93354},
+																														pos:        position{line: 2955, col: 13, offset: 93421},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 20, offset: 93361},
+																														pos:        position{line: 2955, col: 20, offset: 93428},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 29, offset: 93370},
+																														pos:        position{line: 2955, col: 29, offset: 93437},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4604,9 +4604,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2963, col: 8, offset: 93530},
+																											pos: position{line: 2965, col: 8, offset: 93597},
 																											expr: &anyMatcher{
-																												line: 2963, col: 9, offset: 93531,
+																												line: 2965, col: 9, offset: 93598,
 																											},
 																										},
 																									},
@@ -4615,9 +4615,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93530},
+																						pos: position{line: 2965, col: 8, offset: 93597},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93531,
+																							line: 2965, col: 9, offset: 93598,
 																						},
 																					},
 																				},
@@ -4633,21 +4633,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27178},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2961, col: 11, offset: 93516},
+																							pos: position{line: 2963, col: 11, offset: 93583},
 																							expr: &anyMatcher{
-																								line: 2961, col: 13, offset: 93518,
+																								line: 2963, col: 13, offset: 93585,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27253},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2890, col: 13, offset: 91708},
+																								pos: position{line: 2892, col: 13, offset: 91775},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2890, col: 13, offset: 91708},
+																									pos: position{line: 2892, col: 13, offset: 91775},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91708},
+																										pos:        position{line: 2892, col: 13, offset: 91775},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4657,28 +4657,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4687,9 +4687,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -4745,10 +4745,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 767, col: 8, offset: 24776},
 																				expr: &actionExpr{
-																					pos: position{line: 2944, col: 10, offset: 93182},
+																					pos: position{line: 2946, col: 10, offset: 93249},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2944, col: 10, offset: 93182},
+																						pos:        position{line: 2946, col: 10, offset: 93249},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4757,28 +4757,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2966, col: 8, offset: 93580},
+																				pos: position{line: 2968, col: 8, offset: 93647},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2953, col: 12, offset: 93353},
+																						pos: position{line: 2955, col: 12, offset: 93420},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2953, col: 13, offset: 93354},
+																							pos: position{line: 2955, col: 13, offset: 93421},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 13, offset: 93354},
+																									pos:        position{line: 2955, col: 13, offset: 93421},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 20, offset: 93361},
+																									pos:        position{line: 2955, col: 20, offset: 93428},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 29, offset: 93370},
+																									pos:        position{line: 2955, col: 29, offset: 93437},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4787,9 +4787,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93530},
+																						pos: position{line: 2965, col: 8, offset: 93597},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93531,
+																							line: 2965, col: 9, offset: 93598,
 																						},
 																					},
 																				},
@@ -4798,9 +4798,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2963, col: 8, offset: 93530},
+																	pos: position{line: 2965, col: 8, offset: 93597},
 																	expr: &anyMatcher{
-																		line: 2963, col: 9, offset: 93531,
+																		line: 2965, col: 9, offset: 93598,
 																	},
 																},
 															},
@@ -4855,10 +4855,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 774, col: 8, offset: 25024},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93182},
+																			pos: position{line: 2946, col: 10, offset: 93249},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93182},
+																				pos:        position{line: 2946, col: 10, offset: 93249},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4867,28 +4867,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93580},
+																		pos: position{line: 2968, col: 8, offset: 93647},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4897,9 +4897,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93530},
+																				pos: position{line: 2965, col: 8, offset: 93597},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93531,
+																					line: 2965, col: 9, offset: 93598,
 																				},
 																			},
 																		},
@@ -4971,10 +4971,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 774, col: 8, offset: 25024},
 																												expr: &actionExpr{
-																													pos: position{line: 2944, col: 10, offset: 93182},
+																													pos: position{line: 2946, col: 10, offset: 93249},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2944, col: 10, offset: 93182},
+																														pos:        position{line: 2946, col: 10, offset: 93249},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4983,28 +4983,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2966, col: 8, offset: 93580},
+																												pos: position{line: 2968, col: 8, offset: 93647},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2953, col: 12, offset: 93353},
+																														pos: position{line: 2955, col: 12, offset: 93420},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2953, col: 13, offset: 93354},
+																															pos: position{line: 2955, col: 13, offset: 93421},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 13, offset: 93354},
+																																	pos:        position{line: 2955, col: 13, offset: 93421},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 20, offset: 93361},
+																																	pos:        position{line: 2955, col: 20, offset: 93428},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 29, offset: 93370},
+																																	pos:        position{line: 2955, col: 29, offset: 93437},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5013,9 +5013,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2963, col: 8, offset: 93530},
+																														pos: position{line: 2965, col: 8, offset: 93597},
 																														expr: &anyMatcher{
-																															line: 2963, col: 9, offset: 93531,
+																															line: 2965, col: 9, offset: 93598,
 																														},
 																													},
 																												},
@@ -5031,9 +5031,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93530},
+																						pos: position{line: 2965, col: 8, offset: 93597},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93531,
+																							line: 2965, col: 9, offset: 93598,
 																						},
 																					},
 																				},
@@ -5049,21 +5049,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27178},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2961, col: 11, offset: 93516},
+																							pos: position{line: 2963, col: 11, offset: 93583},
 																							expr: &anyMatcher{
-																								line: 2961, col: 13, offset: 93518,
+																								line: 2963, col: 13, offset: 93585,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27253},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2890, col: 13, offset: 91708},
+																								pos: position{line: 2892, col: 13, offset: 91775},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2890, col: 13, offset: 91708},
+																									pos: position{line: 2892, col: 13, offset: 91775},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91708},
+																										pos:        position{line: 2892, col: 13, offset: 91775},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5073,28 +5073,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5103,9 +5103,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -5170,10 +5170,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 774, col: 8, offset: 25024},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93182},
+																									pos: position{line: 2946, col: 10, offset: 93249},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93182},
+																										pos:        position{line: 2946, col: 10, offset: 93249},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5182,28 +5182,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2966, col: 8, offset: 93580},
+																								pos: position{line: 2968, col: 8, offset: 93647},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2953, col: 12, offset: 93353},
+																										pos: position{line: 2955, col: 12, offset: 93420},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2953, col: 13, offset: 93354},
+																											pos: position{line: 2955, col: 13, offset: 93421},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 13, offset: 93354},
+																													pos:        position{line: 2955, col: 13, offset: 93421},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 20, offset: 93361},
+																													pos:        position{line: 2955, col: 20, offset: 93428},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 29, offset: 93370},
+																													pos:        position{line: 2955, col: 29, offset: 93437},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5212,9 +5212,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93530},
+																										pos: position{line: 2965, col: 8, offset: 93597},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93531,
+																											line: 2965, col: 9, offset: 93598,
 																										},
 																									},
 																								},
@@ -5230,9 +5230,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93530},
+																		pos: position{line: 2965, col: 8, offset: 93597},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93531,
+																			line: 2965, col: 9, offset: 93598,
 																		},
 																	},
 																},
@@ -5284,10 +5284,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 785, col: 52, offset: 25436},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93182},
+																			pos: position{line: 2946, col: 10, offset: 93249},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93182},
+																				pos:        position{line: 2946, col: 10, offset: 93249},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5296,28 +5296,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93580},
+																		pos: position{line: 2968, col: 8, offset: 93647},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5326,9 +5326,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93530},
+																				pos: position{line: 2965, col: 8, offset: 93597},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93531,
+																					line: 2965, col: 9, offset: 93598,
 																				},
 																			},
 																		},
@@ -5362,10 +5362,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 988, col: 40, offset: 31239},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93182},
+																							pos: position{line: 2946, col: 10, offset: 93249},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93182},
+																								pos:        position{line: 2946, col: 10, offset: 93249},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5374,28 +5374,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93580},
+																						pos: position{line: 2968, col: 8, offset: 93647},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93353},
+																								pos: position{line: 2955, col: 12, offset: 93420},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93354},
+																									pos: position{line: 2955, col: 13, offset: 93421},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93354},
+																											pos:        position{line: 2955, col: 13, offset: 93421},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93361},
+																											pos:        position{line: 2955, col: 20, offset: 93428},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93370},
+																											pos:        position{line: 2955, col: 29, offset: 93437},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5404,9 +5404,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93530},
+																								pos: position{line: 2965, col: 8, offset: 93597},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93531,
+																									line: 2965, col: 9, offset: 93598,
 																								},
 																							},
 																						},
@@ -5424,21 +5424,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27178},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2961, col: 11, offset: 93516},
+																							pos: position{line: 2963, col: 11, offset: 93583},
 																							expr: &anyMatcher{
-																								line: 2961, col: 13, offset: 93518,
+																								line: 2963, col: 13, offset: 93585,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27253},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2890, col: 13, offset: 91708},
+																								pos: position{line: 2892, col: 13, offset: 91775},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2890, col: 13, offset: 91708},
+																									pos: position{line: 2892, col: 13, offset: 91775},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91708},
+																										pos:        position{line: 2892, col: 13, offset: 91775},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5448,28 +5448,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5478,9 +5478,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -5508,10 +5508,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 988, col: 40, offset: 31239},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93182},
+																		pos: position{line: 2946, col: 10, offset: 93249},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93182},
+																			pos:        position{line: 2946, col: 10, offset: 93249},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5520,28 +5520,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93580},
+																	pos: position{line: 2968, col: 8, offset: 93647},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93353},
+																			pos: position{line: 2955, col: 12, offset: 93420},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93354},
+																				pos: position{line: 2955, col: 13, offset: 93421},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93354},
+																						pos:        position{line: 2955, col: 13, offset: 93421},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93361},
+																						pos:        position{line: 2955, col: 20, offset: 93428},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93370},
+																						pos:        position{line: 2955, col: 29, offset: 93437},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5550,9 +5550,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93530},
+																			pos: position{line: 2965, col: 8, offset: 93597},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93531,
+																				line: 2965, col: 9, offset: 93598,
 																			},
 																		},
 																	},
@@ -5609,10 +5609,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 781, col: 8, offset: 25270},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93182},
+																			pos: position{line: 2946, col: 10, offset: 93249},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93182},
+																				pos:        position{line: 2946, col: 10, offset: 93249},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5621,28 +5621,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93580},
+																		pos: position{line: 2968, col: 8, offset: 93647},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5651,9 +5651,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93530},
+																				pos: position{line: 2965, col: 8, offset: 93597},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93531,
+																					line: 2965, col: 9, offset: 93598,
 																				},
 																			},
 																		},
@@ -5725,10 +5725,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 781, col: 8, offset: 25270},
 																												expr: &actionExpr{
-																													pos: position{line: 2944, col: 10, offset: 93182},
+																													pos: position{line: 2946, col: 10, offset: 93249},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2944, col: 10, offset: 93182},
+																														pos:        position{line: 2946, col: 10, offset: 93249},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5737,28 +5737,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2966, col: 8, offset: 93580},
+																												pos: position{line: 2968, col: 8, offset: 93647},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2953, col: 12, offset: 93353},
+																														pos: position{line: 2955, col: 12, offset: 93420},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2953, col: 13, offset: 93354},
+																															pos: position{line: 2955, col: 13, offset: 93421},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 13, offset: 93354},
+																																	pos:        position{line: 2955, col: 13, offset: 93421},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 20, offset: 93361},
+																																	pos:        position{line: 2955, col: 20, offset: 93428},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 29, offset: 93370},
+																																	pos:        position{line: 2955, col: 29, offset: 93437},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5767,9 +5767,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2963, col: 8, offset: 93530},
+																														pos: position{line: 2965, col: 8, offset: 93597},
 																														expr: &anyMatcher{
-																															line: 2963, col: 9, offset: 93531,
+																															line: 2965, col: 9, offset: 93598,
 																														},
 																													},
 																												},
@@ -5785,9 +5785,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93530},
+																						pos: position{line: 2965, col: 8, offset: 93597},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93531,
+																							line: 2965, col: 9, offset: 93598,
 																						},
 																					},
 																				},
@@ -5803,21 +5803,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27178},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2961, col: 11, offset: 93516},
+																							pos: position{line: 2963, col: 11, offset: 93583},
 																							expr: &anyMatcher{
-																								line: 2961, col: 13, offset: 93518,
+																								line: 2963, col: 13, offset: 93585,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27253},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2890, col: 13, offset: 91708},
+																								pos: position{line: 2892, col: 13, offset: 91775},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2890, col: 13, offset: 91708},
+																									pos: position{line: 2892, col: 13, offset: 91775},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91708},
+																										pos:        position{line: 2892, col: 13, offset: 91775},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5827,28 +5827,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5857,9 +5857,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -5924,10 +5924,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 781, col: 8, offset: 25270},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93182},
+																									pos: position{line: 2946, col: 10, offset: 93249},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93182},
+																										pos:        position{line: 2946, col: 10, offset: 93249},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5936,28 +5936,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2966, col: 8, offset: 93580},
+																								pos: position{line: 2968, col: 8, offset: 93647},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2953, col: 12, offset: 93353},
+																										pos: position{line: 2955, col: 12, offset: 93420},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2953, col: 13, offset: 93354},
+																											pos: position{line: 2955, col: 13, offset: 93421},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 13, offset: 93354},
+																													pos:        position{line: 2955, col: 13, offset: 93421},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 20, offset: 93361},
+																													pos:        position{line: 2955, col: 20, offset: 93428},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 29, offset: 93370},
+																													pos:        position{line: 2955, col: 29, offset: 93437},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5966,9 +5966,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93530},
+																										pos: position{line: 2965, col: 8, offset: 93597},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93531,
+																											line: 2965, col: 9, offset: 93598,
 																										},
 																									},
 																								},
@@ -5984,9 +5984,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93530},
+																		pos: position{line: 2965, col: 8, offset: 93597},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93531,
+																			line: 2965, col: 9, offset: 93598,
 																		},
 																	},
 																},
@@ -6042,10 +6042,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 796, col: 8, offset: 25808},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93182},
+																			pos: position{line: 2946, col: 10, offset: 93249},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93182},
+																				pos:        position{line: 2946, col: 10, offset: 93249},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6054,28 +6054,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93580},
+																		pos: position{line: 2968, col: 8, offset: 93647},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6084,9 +6084,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93530},
+																				pos: position{line: 2965, col: 8, offset: 93597},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93531,
+																					line: 2965, col: 9, offset: 93598,
 																				},
 																			},
 																		},
@@ -6158,10 +6158,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 796, col: 8, offset: 25808},
 																												expr: &actionExpr{
-																													pos: position{line: 2944, col: 10, offset: 93182},
+																													pos: position{line: 2946, col: 10, offset: 93249},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2944, col: 10, offset: 93182},
+																														pos:        position{line: 2946, col: 10, offset: 93249},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6170,28 +6170,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2966, col: 8, offset: 93580},
+																												pos: position{line: 2968, col: 8, offset: 93647},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2953, col: 12, offset: 93353},
+																														pos: position{line: 2955, col: 12, offset: 93420},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2953, col: 13, offset: 93354},
+																															pos: position{line: 2955, col: 13, offset: 93421},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 13, offset: 93354},
+																																	pos:        position{line: 2955, col: 13, offset: 93421},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 20, offset: 93361},
+																																	pos:        position{line: 2955, col: 20, offset: 93428},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 29, offset: 93370},
+																																	pos:        position{line: 2955, col: 29, offset: 93437},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6200,9 +6200,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2963, col: 8, offset: 93530},
+																														pos: position{line: 2965, col: 8, offset: 93597},
 																														expr: &anyMatcher{
-																															line: 2963, col: 9, offset: 93531,
+																															line: 2965, col: 9, offset: 93598,
 																														},
 																													},
 																												},
@@ -6218,9 +6218,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93530},
+																						pos: position{line: 2965, col: 8, offset: 93597},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93531,
+																							line: 2965, col: 9, offset: 93598,
 																						},
 																					},
 																				},
@@ -6236,21 +6236,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27178},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2961, col: 11, offset: 93516},
+																							pos: position{line: 2963, col: 11, offset: 93583},
 																							expr: &anyMatcher{
-																								line: 2961, col: 13, offset: 93518,
+																								line: 2963, col: 13, offset: 93585,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27253},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2890, col: 13, offset: 91708},
+																								pos: position{line: 2892, col: 13, offset: 91775},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2890, col: 13, offset: 91708},
+																									pos: position{line: 2892, col: 13, offset: 91775},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91708},
+																										pos:        position{line: 2892, col: 13, offset: 91775},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6260,28 +6260,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6290,9 +6290,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -6357,10 +6357,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 796, col: 8, offset: 25808},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93182},
+																									pos: position{line: 2946, col: 10, offset: 93249},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93182},
+																										pos:        position{line: 2946, col: 10, offset: 93249},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6369,28 +6369,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2966, col: 8, offset: 93580},
+																								pos: position{line: 2968, col: 8, offset: 93647},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2953, col: 12, offset: 93353},
+																										pos: position{line: 2955, col: 12, offset: 93420},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2953, col: 13, offset: 93354},
+																											pos: position{line: 2955, col: 13, offset: 93421},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 13, offset: 93354},
+																													pos:        position{line: 2955, col: 13, offset: 93421},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 20, offset: 93361},
+																													pos:        position{line: 2955, col: 20, offset: 93428},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 29, offset: 93370},
+																													pos:        position{line: 2955, col: 29, offset: 93437},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6399,9 +6399,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93530},
+																										pos: position{line: 2965, col: 8, offset: 93597},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93531,
+																											line: 2965, col: 9, offset: 93598,
 																										},
 																									},
 																								},
@@ -6417,9 +6417,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93530},
+																		pos: position{line: 2965, col: 8, offset: 93597},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93531,
+																			line: 2965, col: 9, offset: 93598,
 																		},
 																	},
 																},
@@ -6475,10 +6475,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 810, col: 8, offset: 26284},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93182},
+																			pos: position{line: 2946, col: 10, offset: 93249},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93182},
+																				pos:        position{line: 2946, col: 10, offset: 93249},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6487,28 +6487,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93580},
+																		pos: position{line: 2968, col: 8, offset: 93647},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6517,9 +6517,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93530},
+																				pos: position{line: 2965, col: 8, offset: 93597},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93531,
+																					line: 2965, col: 9, offset: 93598,
 																				},
 																			},
 																		},
@@ -6591,10 +6591,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 810, col: 8, offset: 26284},
 																												expr: &actionExpr{
-																													pos: position{line: 2944, col: 10, offset: 93182},
+																													pos: position{line: 2946, col: 10, offset: 93249},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2944, col: 10, offset: 93182},
+																														pos:        position{line: 2946, col: 10, offset: 93249},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6603,28 +6603,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2966, col: 8, offset: 93580},
+																												pos: position{line: 2968, col: 8, offset: 93647},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2953, col: 12, offset: 93353},
+																														pos: position{line: 2955, col: 12, offset: 93420},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2953, col: 13, offset: 93354},
+																															pos: position{line: 2955, col: 13, offset: 93421},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 13, offset: 93354},
+																																	pos:        position{line: 2955, col: 13, offset: 93421},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 20, offset: 93361},
+																																	pos:        position{line: 2955, col: 20, offset: 93428},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 29, offset: 93370},
+																																	pos:        position{line: 2955, col: 29, offset: 93437},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6633,9 +6633,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2963, col: 8, offset: 93530},
+																														pos: position{line: 2965, col: 8, offset: 93597},
 																														expr: &anyMatcher{
-																															line: 2963, col: 9, offset: 93531,
+																															line: 2965, col: 9, offset: 93598,
 																														},
 																													},
 																												},
@@ -6651,9 +6651,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93530},
+																						pos: position{line: 2965, col: 8, offset: 93597},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93531,
+																							line: 2965, col: 9, offset: 93598,
 																						},
 																					},
 																				},
@@ -6669,21 +6669,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27178},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2961, col: 11, offset: 93516},
+																							pos: position{line: 2963, col: 11, offset: 93583},
 																							expr: &anyMatcher{
-																								line: 2961, col: 13, offset: 93518,
+																								line: 2963, col: 13, offset: 93585,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27253},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2890, col: 13, offset: 91708},
+																								pos: position{line: 2892, col: 13, offset: 91775},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2890, col: 13, offset: 91708},
+																									pos: position{line: 2892, col: 13, offset: 91775},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91708},
+																										pos:        position{line: 2892, col: 13, offset: 91775},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6693,28 +6693,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6723,9 +6723,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -6790,10 +6790,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 810, col: 8, offset: 26284},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93182},
+																									pos: position{line: 2946, col: 10, offset: 93249},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93182},
+																										pos:        position{line: 2946, col: 10, offset: 93249},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6802,28 +6802,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2966, col: 8, offset: 93580},
+																								pos: position{line: 2968, col: 8, offset: 93647},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2953, col: 12, offset: 93353},
+																										pos: position{line: 2955, col: 12, offset: 93420},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2953, col: 13, offset: 93354},
+																											pos: position{line: 2955, col: 13, offset: 93421},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 13, offset: 93354},
+																													pos:        position{line: 2955, col: 13, offset: 93421},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 20, offset: 93361},
+																													pos:        position{line: 2955, col: 20, offset: 93428},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 29, offset: 93370},
+																													pos:        position{line: 2955, col: 29, offset: 93437},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6832,9 +6832,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93530},
+																										pos: position{line: 2965, col: 8, offset: 93597},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93531,
+																											line: 2965, col: 9, offset: 93598,
 																										},
 																									},
 																								},
@@ -6850,9 +6850,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93530},
+																		pos: position{line: 2965, col: 8, offset: 93597},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93531,
+																			line: 2965, col: 9, offset: 93598,
 																		},
 																	},
 																},
@@ -6886,18 +6886,18 @@ var g = &grammar{
 																				pos: position{line: 702, col: 14, offset: 22579},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2961, col: 11, offset: 93516},
+																						pos: position{line: 2963, col: 11, offset: 93583},
 																						expr: &anyMatcher{
-																							line: 2961, col: 13, offset: 93518,
+																							line: 2963, col: 13, offset: 93585,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 702, col: 21, offset: 22586},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93182},
+																							pos: position{line: 2946, col: 10, offset: 93249},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93182},
+																								pos:        position{line: 2946, col: 10, offset: 93249},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6906,28 +6906,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93580},
+																						pos: position{line: 2968, col: 8, offset: 93647},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93353},
+																								pos: position{line: 2955, col: 12, offset: 93420},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93354},
+																									pos: position{line: 2955, col: 13, offset: 93421},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93354},
+																											pos:        position{line: 2955, col: 13, offset: 93421},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93361},
+																											pos:        position{line: 2955, col: 20, offset: 93428},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93370},
+																											pos:        position{line: 2955, col: 29, offset: 93437},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6936,9 +6936,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93530},
+																								pos: position{line: 2965, col: 8, offset: 93597},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93531,
+																									line: 2965, col: 9, offset: 93598,
 																								},
 																							},
 																						},
@@ -6957,12 +6957,12 @@ var g = &grammar{
 																		pos:   position{line: 1009, col: 5, offset: 31774},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2894, col: 14, offset: 91775},
+																			pos: position{line: 2896, col: 14, offset: 91842},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2894, col: 14, offset: 91775},
+																				pos: position{line: 2896, col: 14, offset: 91842},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2894, col: 14, offset: 91775},
+																					pos:        position{line: 2896, col: 14, offset: 91842},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -6972,28 +6972,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93580},
+																		pos: position{line: 2968, col: 8, offset: 93647},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7002,9 +7002,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93530},
+																				pos: position{line: 2965, col: 8, offset: 93597},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93531,
+																					line: 2965, col: 9, offset: 93598,
 																				},
 																			},
 																		},
@@ -7036,18 +7036,18 @@ var g = &grammar{
 																							pos: position{line: 702, col: 14, offset: 22579},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2961, col: 11, offset: 93516},
+																									pos: position{line: 2963, col: 11, offset: 93583},
 																									expr: &anyMatcher{
-																										line: 2961, col: 13, offset: 93518,
+																										line: 2963, col: 13, offset: 93585,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 702, col: 21, offset: 22586},
 																									expr: &actionExpr{
-																										pos: position{line: 2944, col: 10, offset: 93182},
+																										pos: position{line: 2946, col: 10, offset: 93249},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2944, col: 10, offset: 93182},
+																											pos:        position{line: 2946, col: 10, offset: 93249},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7056,28 +7056,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2966, col: 8, offset: 93580},
+																									pos: position{line: 2968, col: 8, offset: 93647},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2953, col: 12, offset: 93353},
+																											pos: position{line: 2955, col: 12, offset: 93420},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2953, col: 13, offset: 93354},
+																												pos: position{line: 2955, col: 13, offset: 93421},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 13, offset: 93354},
+																														pos:        position{line: 2955, col: 13, offset: 93421},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 20, offset: 93361},
+																														pos:        position{line: 2955, col: 20, offset: 93428},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 29, offset: 93370},
+																														pos:        position{line: 2955, col: 29, offset: 93437},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7086,9 +7086,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2963, col: 8, offset: 93530},
+																											pos: position{line: 2965, col: 8, offset: 93597},
 																											expr: &anyMatcher{
-																												line: 2963, col: 9, offset: 93531,
+																												line: 2965, col: 9, offset: 93598,
 																											},
 																										},
 																									},
@@ -7107,12 +7107,12 @@ var g = &grammar{
 																					pos:   position{line: 1009, col: 5, offset: 31774},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2894, col: 14, offset: 91775},
+																						pos: position{line: 2896, col: 14, offset: 91842},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2894, col: 14, offset: 91775},
+																							pos: position{line: 2896, col: 14, offset: 91842},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2894, col: 14, offset: 91775},
+																								pos:        position{line: 2896, col: 14, offset: 91842},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7122,28 +7122,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2966, col: 8, offset: 93580},
+																					pos: position{line: 2968, col: 8, offset: 93647},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2953, col: 12, offset: 93353},
+																							pos: position{line: 2955, col: 12, offset: 93420},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2953, col: 13, offset: 93354},
+																								pos: position{line: 2955, col: 13, offset: 93421},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 13, offset: 93354},
+																										pos:        position{line: 2955, col: 13, offset: 93421},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 20, offset: 93361},
+																										pos:        position{line: 2955, col: 20, offset: 93428},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 29, offset: 93370},
+																										pos:        position{line: 2955, col: 29, offset: 93437},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7152,9 +7152,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93530},
+																							pos: position{line: 2965, col: 8, offset: 93597},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93531,
+																								line: 2965, col: 9, offset: 93598,
 																							},
 																						},
 																					},
@@ -7163,21 +7163,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1816, col: 5, offset: 58968},
+																		pos: position{line: 1818, col: 5, offset: 59035},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1816, col: 5, offset: 58968},
+																			pos: position{line: 1818, col: 5, offset: 59035},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1816, col: 5, offset: 58968},
+																					pos:   position{line: 1818, col: 5, offset: 59035},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2894, col: 14, offset: 91775},
+																						pos: position{line: 2896, col: 14, offset: 91842},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2894, col: 14, offset: 91775},
+																							pos: position{line: 2896, col: 14, offset: 91842},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2894, col: 14, offset: 91775},
+																								pos:        position{line: 2896, col: 14, offset: 91842},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7187,32 +7187,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1817, col: 5, offset: 58992},
+																					pos: position{line: 1819, col: 5, offset: 59059},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2966, col: 8, offset: 93580},
+																					pos: position{line: 2968, col: 8, offset: 93647},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2953, col: 12, offset: 93353},
+																							pos: position{line: 2955, col: 12, offset: 93420},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2953, col: 13, offset: 93354},
+																								pos: position{line: 2955, col: 13, offset: 93421},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 13, offset: 93354},
+																										pos:        position{line: 2955, col: 13, offset: 93421},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 20, offset: 93361},
+																										pos:        position{line: 2955, col: 20, offset: 93428},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 29, offset: 93370},
+																										pos:        position{line: 2955, col: 29, offset: 93437},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7221,9 +7221,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93530},
+																							pos: position{line: 2965, col: 8, offset: 93597},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93531,
+																								line: 2965, col: 9, offset: 93598,
 																							},
 																						},
 																					},
@@ -7270,10 +7270,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 803, col: 8, offset: 26039},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93182},
+																			pos: position{line: 2946, col: 10, offset: 93249},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93182},
+																				pos:        position{line: 2946, col: 10, offset: 93249},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7282,28 +7282,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93580},
+																		pos: position{line: 2968, col: 8, offset: 93647},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7312,9 +7312,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93530},
+																				pos: position{line: 2965, col: 8, offset: 93597},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93531,
+																					line: 2965, col: 9, offset: 93598,
 																				},
 																			},
 																		},
@@ -7362,10 +7362,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 803, col: 8, offset: 26039},
 																									expr: &actionExpr{
-																										pos: position{line: 2944, col: 10, offset: 93182},
+																										pos: position{line: 2946, col: 10, offset: 93249},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2944, col: 10, offset: 93182},
+																											pos:        position{line: 2946, col: 10, offset: 93249},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7374,28 +7374,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2966, col: 8, offset: 93580},
+																									pos: position{line: 2968, col: 8, offset: 93647},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2953, col: 12, offset: 93353},
+																											pos: position{line: 2955, col: 12, offset: 93420},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2953, col: 13, offset: 93354},
+																												pos: position{line: 2955, col: 13, offset: 93421},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 13, offset: 93354},
+																														pos:        position{line: 2955, col: 13, offset: 93421},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 20, offset: 93361},
+																														pos:        position{line: 2955, col: 20, offset: 93428},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 29, offset: 93370},
+																														pos:        position{line: 2955, col: 29, offset: 93437},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7404,9 +7404,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2963, col: 8, offset: 93530},
+																											pos: position{line: 2965, col: 8, offset: 93597},
 																											expr: &anyMatcher{
-																												line: 2963, col: 9, offset: 93531,
+																												line: 2965, col: 9, offset: 93598,
 																											},
 																										},
 																									},
@@ -7415,9 +7415,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93530},
+																						pos: position{line: 2965, col: 8, offset: 93597},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93531,
+																							line: 2965, col: 9, offset: 93598,
 																						},
 																					},
 																				},
@@ -7433,21 +7433,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27178},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2961, col: 11, offset: 93516},
+																							pos: position{line: 2963, col: 11, offset: 93583},
 																							expr: &anyMatcher{
-																								line: 2961, col: 13, offset: 93518,
+																								line: 2963, col: 13, offset: 93585,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27253},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2890, col: 13, offset: 91708},
+																								pos: position{line: 2892, col: 13, offset: 91775},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2890, col: 13, offset: 91708},
+																									pos: position{line: 2892, col: 13, offset: 91775},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91708},
+																										pos:        position{line: 2892, col: 13, offset: 91775},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7457,28 +7457,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7487,9 +7487,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -7534,10 +7534,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 803, col: 8, offset: 26039},
 																					expr: &actionExpr{
-																						pos: position{line: 2944, col: 10, offset: 93182},
+																						pos: position{line: 2946, col: 10, offset: 93249},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2944, col: 10, offset: 93182},
+																							pos:        position{line: 2946, col: 10, offset: 93249},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7546,28 +7546,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2966, col: 8, offset: 93580},
+																					pos: position{line: 2968, col: 8, offset: 93647},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2953, col: 12, offset: 93353},
+																							pos: position{line: 2955, col: 12, offset: 93420},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2953, col: 13, offset: 93354},
+																								pos: position{line: 2955, col: 13, offset: 93421},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 13, offset: 93354},
+																										pos:        position{line: 2955, col: 13, offset: 93421},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 20, offset: 93361},
+																										pos:        position{line: 2955, col: 20, offset: 93428},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 29, offset: 93370},
+																										pos:        position{line: 2955, col: 29, offset: 93437},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7576,9 +7576,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93530},
+																							pos: position{line: 2965, col: 8, offset: 93597},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93531,
+																								line: 2965, col: 9, offset: 93598,
 																							},
 																						},
 																					},
@@ -7587,9 +7587,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93530},
+																		pos: position{line: 2965, col: 8, offset: 93597},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93531,
+																			line: 2965, col: 9, offset: 93598,
 																		},
 																	},
 																},
@@ -7645,10 +7645,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 817, col: 8, offset: 26536},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93182},
+																			pos: position{line: 2946, col: 10, offset: 93249},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93182},
+																				pos:        position{line: 2946, col: 10, offset: 93249},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7657,28 +7657,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93580},
+																		pos: position{line: 2968, col: 8, offset: 93647},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7687,9 +7687,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93530},
+																				pos: position{line: 2965, col: 8, offset: 93597},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93531,
+																					line: 2965, col: 9, offset: 93598,
 																				},
 																			},
 																		},
@@ -7761,10 +7761,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 817, col: 8, offset: 26536},
 																												expr: &actionExpr{
-																													pos: position{line: 2944, col: 10, offset: 93182},
+																													pos: position{line: 2946, col: 10, offset: 93249},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2944, col: 10, offset: 93182},
+																														pos:        position{line: 2946, col: 10, offset: 93249},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7773,28 +7773,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2966, col: 8, offset: 93580},
+																												pos: position{line: 2968, col: 8, offset: 93647},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2953, col: 12, offset: 93353},
+																														pos: position{line: 2955, col: 12, offset: 93420},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2953, col: 13, offset: 93354},
+																															pos: position{line: 2955, col: 13, offset: 93421},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 13, offset: 93354},
+																																	pos:        position{line: 2955, col: 13, offset: 93421},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 20, offset: 93361},
+																																	pos:        position{line: 2955, col: 20, offset: 93428},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 29, offset: 93370},
+																																	pos:        position{line: 2955, col: 29, offset: 93437},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7803,9 +7803,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2963, col: 8, offset: 93530},
+																														pos: position{line: 2965, col: 8, offset: 93597},
 																														expr: &anyMatcher{
-																															line: 2963, col: 9, offset: 93531,
+																															line: 2965, col: 9, offset: 93598,
 																														},
 																													},
 																												},
@@ -7821,9 +7821,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93530},
+																						pos: position{line: 2965, col: 8, offset: 93597},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93531,
+																							line: 2965, col: 9, offset: 93598,
 																						},
 																					},
 																				},
@@ -7839,21 +7839,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27178},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2961, col: 11, offset: 93516},
+																							pos: position{line: 2963, col: 11, offset: 93583},
 																							expr: &anyMatcher{
-																								line: 2961, col: 13, offset: 93518,
+																								line: 2963, col: 13, offset: 93585,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27253},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2890, col: 13, offset: 91708},
+																								pos: position{line: 2892, col: 13, offset: 91775},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2890, col: 13, offset: 91708},
+																									pos: position{line: 2892, col: 13, offset: 91775},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91708},
+																										pos:        position{line: 2892, col: 13, offset: 91775},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7863,28 +7863,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7893,9 +7893,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -7960,10 +7960,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 817, col: 8, offset: 26536},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93182},
+																									pos: position{line: 2946, col: 10, offset: 93249},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93182},
+																										pos:        position{line: 2946, col: 10, offset: 93249},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7972,28 +7972,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2966, col: 8, offset: 93580},
+																								pos: position{line: 2968, col: 8, offset: 93647},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2953, col: 12, offset: 93353},
+																										pos: position{line: 2955, col: 12, offset: 93420},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2953, col: 13, offset: 93354},
+																											pos: position{line: 2955, col: 13, offset: 93421},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 13, offset: 93354},
+																													pos:        position{line: 2955, col: 13, offset: 93421},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 20, offset: 93361},
+																													pos:        position{line: 2955, col: 20, offset: 93428},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 29, offset: 93370},
+																													pos:        position{line: 2955, col: 29, offset: 93437},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8002,9 +8002,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93530},
+																										pos: position{line: 2965, col: 8, offset: 93597},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93531,
+																											line: 2965, col: 9, offset: 93598,
 																										},
 																									},
 																								},
@@ -8020,9 +8020,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93530},
+																		pos: position{line: 2965, col: 8, offset: 93597},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93531,
+																			line: 2965, col: 9, offset: 93598,
 																		},
 																	},
 																},
@@ -8078,10 +8078,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 824, col: 8, offset: 26786},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93182},
+																			pos: position{line: 2946, col: 10, offset: 93249},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93182},
+																				pos:        position{line: 2946, col: 10, offset: 93249},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8090,28 +8090,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93580},
+																		pos: position{line: 2968, col: 8, offset: 93647},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8120,9 +8120,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93530},
+																				pos: position{line: 2965, col: 8, offset: 93597},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93531,
+																					line: 2965, col: 9, offset: 93598,
 																				},
 																			},
 																		},
@@ -8194,10 +8194,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 824, col: 8, offset: 26786},
 																												expr: &actionExpr{
-																													pos: position{line: 2944, col: 10, offset: 93182},
+																													pos: position{line: 2946, col: 10, offset: 93249},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2944, col: 10, offset: 93182},
+																														pos:        position{line: 2946, col: 10, offset: 93249},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8206,28 +8206,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2966, col: 8, offset: 93580},
+																												pos: position{line: 2968, col: 8, offset: 93647},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2953, col: 12, offset: 93353},
+																														pos: position{line: 2955, col: 12, offset: 93420},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2953, col: 13, offset: 93354},
+																															pos: position{line: 2955, col: 13, offset: 93421},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 13, offset: 93354},
+																																	pos:        position{line: 2955, col: 13, offset: 93421},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 20, offset: 93361},
+																																	pos:        position{line: 2955, col: 20, offset: 93428},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 29, offset: 93370},
+																																	pos:        position{line: 2955, col: 29, offset: 93437},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8236,9 +8236,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2963, col: 8, offset: 93530},
+																														pos: position{line: 2965, col: 8, offset: 93597},
 																														expr: &anyMatcher{
-																															line: 2963, col: 9, offset: 93531,
+																															line: 2965, col: 9, offset: 93598,
 																														},
 																													},
 																												},
@@ -8254,9 +8254,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93530},
+																						pos: position{line: 2965, col: 8, offset: 93597},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93531,
+																							line: 2965, col: 9, offset: 93598,
 																						},
 																					},
 																				},
@@ -8272,21 +8272,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27178},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2961, col: 11, offset: 93516},
+																							pos: position{line: 2963, col: 11, offset: 93583},
 																							expr: &anyMatcher{
-																								line: 2961, col: 13, offset: 93518,
+																								line: 2963, col: 13, offset: 93585,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27253},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2890, col: 13, offset: 91708},
+																								pos: position{line: 2892, col: 13, offset: 91775},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2890, col: 13, offset: 91708},
+																									pos: position{line: 2892, col: 13, offset: 91775},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91708},
+																										pos:        position{line: 2892, col: 13, offset: 91775},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8296,28 +8296,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8326,9 +8326,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -8393,10 +8393,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 824, col: 8, offset: 26786},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93182},
+																									pos: position{line: 2946, col: 10, offset: 93249},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93182},
+																										pos:        position{line: 2946, col: 10, offset: 93249},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8405,28 +8405,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2966, col: 8, offset: 93580},
+																								pos: position{line: 2968, col: 8, offset: 93647},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2953, col: 12, offset: 93353},
+																										pos: position{line: 2955, col: 12, offset: 93420},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2953, col: 13, offset: 93354},
+																											pos: position{line: 2955, col: 13, offset: 93421},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 13, offset: 93354},
+																													pos:        position{line: 2955, col: 13, offset: 93421},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 20, offset: 93361},
+																													pos:        position{line: 2955, col: 20, offset: 93428},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 29, offset: 93370},
+																													pos:        position{line: 2955, col: 29, offset: 93437},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8435,9 +8435,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93530},
+																										pos: position{line: 2965, col: 8, offset: 93597},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93531,
+																											line: 2965, col: 9, offset: 93598,
 																										},
 																									},
 																								},
@@ -8453,9 +8453,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93530},
+																		pos: position{line: 2965, col: 8, offset: 93597},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93531,
+																			line: 2965, col: 9, offset: 93598,
 																		},
 																	},
 																},
@@ -8511,10 +8511,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 831, col: 8, offset: 27032},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93182},
+																			pos: position{line: 2946, col: 10, offset: 93249},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93182},
+																				pos:        position{line: 2946, col: 10, offset: 93249},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8523,28 +8523,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93580},
+																		pos: position{line: 2968, col: 8, offset: 93647},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8553,9 +8553,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93530},
+																				pos: position{line: 2965, col: 8, offset: 93597},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93531,
+																					line: 2965, col: 9, offset: 93598,
 																				},
 																			},
 																		},
@@ -8627,10 +8627,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 831, col: 8, offset: 27032},
 																												expr: &actionExpr{
-																													pos: position{line: 2944, col: 10, offset: 93182},
+																													pos: position{line: 2946, col: 10, offset: 93249},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2944, col: 10, offset: 93182},
+																														pos:        position{line: 2946, col: 10, offset: 93249},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8639,28 +8639,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2966, col: 8, offset: 93580},
+																												pos: position{line: 2968, col: 8, offset: 93647},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2953, col: 12, offset: 93353},
+																														pos: position{line: 2955, col: 12, offset: 93420},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2953, col: 13, offset: 93354},
+																															pos: position{line: 2955, col: 13, offset: 93421},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 13, offset: 93354},
+																																	pos:        position{line: 2955, col: 13, offset: 93421},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 20, offset: 93361},
+																																	pos:        position{line: 2955, col: 20, offset: 93428},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 29, offset: 93370},
+																																	pos:        position{line: 2955, col: 29, offset: 93437},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8669,9 +8669,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2963, col: 8, offset: 93530},
+																														pos: position{line: 2965, col: 8, offset: 93597},
 																														expr: &anyMatcher{
-																															line: 2963, col: 9, offset: 93531,
+																															line: 2965, col: 9, offset: 93598,
 																														},
 																													},
 																												},
@@ -8687,9 +8687,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93530},
+																						pos: position{line: 2965, col: 8, offset: 93597},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93531,
+																							line: 2965, col: 9, offset: 93598,
 																						},
 																					},
 																				},
@@ -8705,21 +8705,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27178},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2961, col: 11, offset: 93516},
+																							pos: position{line: 2963, col: 11, offset: 93583},
 																							expr: &anyMatcher{
-																								line: 2961, col: 13, offset: 93518,
+																								line: 2963, col: 13, offset: 93585,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27253},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2890, col: 13, offset: 91708},
+																								pos: position{line: 2892, col: 13, offset: 91775},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2890, col: 13, offset: 91708},
+																									pos: position{line: 2892, col: 13, offset: 91775},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91708},
+																										pos:        position{line: 2892, col: 13, offset: 91775},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8729,28 +8729,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8759,9 +8759,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -8826,10 +8826,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 831, col: 8, offset: 27032},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93182},
+																									pos: position{line: 2946, col: 10, offset: 93249},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93182},
+																										pos:        position{line: 2946, col: 10, offset: 93249},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8838,28 +8838,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2966, col: 8, offset: 93580},
+																								pos: position{line: 2968, col: 8, offset: 93647},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2953, col: 12, offset: 93353},
+																										pos: position{line: 2955, col: 12, offset: 93420},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2953, col: 13, offset: 93354},
+																											pos: position{line: 2955, col: 13, offset: 93421},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 13, offset: 93354},
+																													pos:        position{line: 2955, col: 13, offset: 93421},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 20, offset: 93361},
+																													pos:        position{line: 2955, col: 20, offset: 93428},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 29, offset: 93370},
+																													pos:        position{line: 2955, col: 29, offset: 93437},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8868,9 +8868,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93530},
+																										pos: position{line: 2965, col: 8, offset: 93597},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93531,
+																											line: 2965, col: 9, offset: 93598,
 																										},
 																									},
 																								},
@@ -8886,9 +8886,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93530},
+																		pos: position{line: 2965, col: 8, offset: 93597},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93531,
+																			line: 2965, col: 9, offset: 93598,
 																		},
 																	},
 																},
@@ -8899,52 +8899,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2789, col: 18, offset: 88772},
+											pos: position{line: 2791, col: 18, offset: 88839},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2789, col: 18, offset: 88772},
+												pos: position{line: 2791, col: 18, offset: 88839},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2790, col: 9, offset: 88782},
+														pos: position{line: 2792, col: 9, offset: 88849},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2790, col: 9, offset: 88782},
+																pos:        position{line: 2792, col: 9, offset: 88849},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2791, col: 11, offset: 88818},
+																pos:        position{line: 2793, col: 11, offset: 88885},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2791, col: 19, offset: 88826},
+																pos:        position{line: 2793, col: 19, offset: 88893},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2791, col: 29, offset: 88836},
+																pos:        position{line: 2793, col: 29, offset: 88903},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2791, col: 37, offset: 88844},
+																pos:        position{line: 2793, col: 37, offset: 88911},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2791, col: 47, offset: 88854},
+																pos:        position{line: 2793, col: 47, offset: 88921},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2791, col: 55, offset: 88862},
+																pos:        position{line: 2793, col: 55, offset: 88929},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -8952,12 +8952,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2792, col: 11, offset: 88920},
+														pos: position{line: 2794, col: 11, offset: 88987},
 														expr: &actionExpr{
-															pos: position{line: 2944, col: 10, offset: 93182},
+															pos: position{line: 2946, col: 10, offset: 93249},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 10, offset: 93182},
+																pos:        position{line: 2946, col: 10, offset: 93249},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -8966,28 +8966,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2966, col: 8, offset: 93580},
+														pos: position{line: 2968, col: 8, offset: 93647},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93353},
+																pos: position{line: 2955, col: 12, offset: 93420},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93354},
+																	pos: position{line: 2955, col: 13, offset: 93421},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93354},
+																			pos:        position{line: 2955, col: 13, offset: 93421},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93361},
+																			pos:        position{line: 2955, col: 20, offset: 93428},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93370},
+																			pos:        position{line: 2955, col: 29, offset: 93437},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -8996,36 +8996,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93530},
+																pos: position{line: 2965, col: 8, offset: 93597},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93531,
+																	line: 2965, col: 9, offset: 93598,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2966, col: 8, offset: 93580},
+														pos: position{line: 2968, col: 8, offset: 93647},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93353},
+																pos: position{line: 2955, col: 12, offset: 93420},
 																run: (*parser).callonDocumentFragment1098,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93354},
+																	pos: position{line: 2955, col: 13, offset: 93421},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93354},
+																			pos:        position{line: 2955, col: 13, offset: 93421},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93361},
+																			pos:        position{line: 2955, col: 20, offset: 93428},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93370},
+																			pos:        position{line: 2955, col: 29, offset: 93437},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9034,9 +9034,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93530},
+																pos: position{line: 2965, col: 8, offset: 93597},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93531,
+																	line: 2965, col: 9, offset: 93598,
 																},
 															},
 														},
@@ -9049,24 +9049,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2664, col: 5, offset: 85311},
+											pos: position{line: 2666, col: 5, offset: 85378},
 											run: (*parser).callonDocumentFragment1106,
 											expr: &seqExpr{
-												pos: position{line: 2664, col: 5, offset: 85311},
+												pos: position{line: 2666, col: 5, offset: 85378},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2670, col: 19, offset: 85488},
+														pos:        position{line: 2672, col: 19, offset: 85555},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2670, col: 26, offset: 85495},
+														pos: position{line: 2672, col: 26, offset: 85562},
 														expr: &actionExpr{
-															pos: position{line: 2944, col: 10, offset: 93182},
+															pos: position{line: 2946, col: 10, offset: 93249},
 															run: (*parser).callonDocumentFragment1110,
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 10, offset: 93182},
+																pos:        position{line: 2946, col: 10, offset: 93249},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9075,28 +9075,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2966, col: 8, offset: 93580},
+														pos: position{line: 2968, col: 8, offset: 93647},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93353},
+																pos: position{line: 2955, col: 12, offset: 93420},
 																run: (*parser).callonDocumentFragment1113,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93354},
+																	pos: position{line: 2955, col: 13, offset: 93421},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93354},
+																			pos:        position{line: 2955, col: 13, offset: 93421},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93361},
+																			pos:        position{line: 2955, col: 20, offset: 93428},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93370},
+																			pos:        position{line: 2955, col: 29, offset: 93437},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9105,20 +9105,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93530},
+																pos: position{line: 2965, col: 8, offset: 93597},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93531,
+																	line: 2965, col: 9, offset: 93598,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2665, col: 5, offset: 85335},
+														pos:   position{line: 2667, col: 5, offset: 85402},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2665, col: 11, offset: 85341},
+															pos: position{line: 2667, col: 11, offset: 85408},
 															expr: &choiceExpr{
-																pos: position{line: 2665, col: 12, offset: 85342},
+																pos: position{line: 2667, col: 12, offset: 85409},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 702, col: 14, offset: 22579},
@@ -9127,18 +9127,18 @@ var g = &grammar{
 																			pos: position{line: 702, col: 14, offset: 22579},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2961, col: 11, offset: 93516},
+																					pos: position{line: 2963, col: 11, offset: 93583},
 																					expr: &anyMatcher{
-																						line: 2961, col: 13, offset: 93518,
+																						line: 2963, col: 13, offset: 93585,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 702, col: 21, offset: 22586},
 																					expr: &actionExpr{
-																						pos: position{line: 2944, col: 10, offset: 93182},
+																						pos: position{line: 2946, col: 10, offset: 93249},
 																						run: (*parser).callonDocumentFragment1128,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2944, col: 10, offset: 93182},
+																							pos:        position{line: 2946, col: 10, offset: 93249},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9147,28 +9147,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2966, col: 8, offset: 93580},
+																					pos: position{line: 2968, col: 8, offset: 93647},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2953, col: 12, offset: 93353},
+																							pos: position{line: 2955, col: 12, offset: 93420},
 																							run: (*parser).callonDocumentFragment1131,
 																							expr: &choiceExpr{
-																								pos: position{line: 2953, col: 13, offset: 93354},
+																								pos: position{line: 2955, col: 13, offset: 93421},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 13, offset: 93354},
+																										pos:        position{line: 2955, col: 13, offset: 93421},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 20, offset: 93361},
+																										pos:        position{line: 2955, col: 20, offset: 93428},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 29, offset: 93370},
+																										pos:        position{line: 2955, col: 29, offset: 93437},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9177,9 +9177,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93530},
+																							pos: position{line: 2965, col: 8, offset: 93597},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93531,
+																								line: 2965, col: 9, offset: 93598,
 																							},
 																						},
 																					},
@@ -9188,36 +9188,36 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2538, col: 22, offset: 81742},
+																		pos: position{line: 2540, col: 22, offset: 81809},
 																		run: (*parser).callonDocumentFragment1138,
 																		expr: &seqExpr{
-																			pos: position{line: 2538, col: 22, offset: 81742},
+																			pos: position{line: 2540, col: 22, offset: 81809},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2543, col: 31, offset: 81992},
+																					pos:        position{line: 2545, col: 31, offset: 82059},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																				&notExpr{
-																					pos: position{line: 2543, col: 36, offset: 81997},
+																					pos: position{line: 2545, col: 36, offset: 82064},
 																					expr: &litMatcher{
-																						pos:        position{line: 2543, col: 37, offset: 81998},
+																						pos:        position{line: 2545, col: 37, offset: 82065},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2538, col: 49, offset: 81769},
+																					pos:   position{line: 2540, col: 49, offset: 81836},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2890, col: 13, offset: 91708},
+																						pos: position{line: 2892, col: 13, offset: 91775},
 																						run: (*parser).callonDocumentFragment1144,
 																						expr: &zeroOrMoreExpr{
-																							pos: position{line: 2890, col: 13, offset: 91708},
+																							pos: position{line: 2892, col: 13, offset: 91775},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2890, col: 13, offset: 91708},
+																								pos:        position{line: 2892, col: 13, offset: 91775},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -9227,28 +9227,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2966, col: 8, offset: 93580},
+																					pos: position{line: 2968, col: 8, offset: 93647},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2953, col: 12, offset: 93353},
+																							pos: position{line: 2955, col: 12, offset: 93420},
 																							run: (*parser).callonDocumentFragment1148,
 																							expr: &choiceExpr{
-																								pos: position{line: 2953, col: 13, offset: 93354},
+																								pos: position{line: 2955, col: 13, offset: 93421},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 13, offset: 93354},
+																										pos:        position{line: 2955, col: 13, offset: 93421},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 20, offset: 93361},
+																										pos:        position{line: 2955, col: 20, offset: 93428},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 29, offset: 93370},
+																										pos:        position{line: 2955, col: 29, offset: 93437},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9257,9 +9257,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93530},
+																							pos: position{line: 2965, col: 8, offset: 93597},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93531,
+																								line: 2965, col: 9, offset: 93598,
 																							},
 																						},
 																					},
@@ -9268,32 +9268,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2677, col: 5, offset: 85607},
+																		pos: position{line: 2679, col: 5, offset: 85674},
 																		run: (*parser).callonDocumentFragment1155,
 																		expr: &seqExpr{
-																			pos: position{line: 2677, col: 5, offset: 85607},
+																			pos: position{line: 2679, col: 5, offset: 85674},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2677, col: 5, offset: 85607},
+																					pos: position{line: 2679, col: 5, offset: 85674},
 																					expr: &choiceExpr{
-																						pos: position{line: 2674, col: 22, offset: 85568},
+																						pos: position{line: 2676, col: 22, offset: 85635},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2670, col: 19, offset: 85488},
+																								pos: position{line: 2672, col: 19, offset: 85555},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2670, col: 19, offset: 85488},
+																										pos:        position{line: 2672, col: 19, offset: 85555},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2670, col: 26, offset: 85495},
+																										pos: position{line: 2672, col: 26, offset: 85562},
 																										expr: &actionExpr{
-																											pos: position{line: 2944, col: 10, offset: 93182},
+																											pos: position{line: 2946, col: 10, offset: 93249},
 																											run: (*parser).callonDocumentFragment1162,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2944, col: 10, offset: 93182},
+																												pos:        position{line: 2946, col: 10, offset: 93249},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9302,28 +9302,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2966, col: 8, offset: 93580},
+																										pos: position{line: 2968, col: 8, offset: 93647},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2953, col: 12, offset: 93353},
+																												pos: position{line: 2955, col: 12, offset: 93420},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &choiceExpr{
-																													pos: position{line: 2953, col: 13, offset: 93354},
+																													pos: position{line: 2955, col: 13, offset: 93421},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2953, col: 13, offset: 93354},
+																															pos:        position{line: 2955, col: 13, offset: 93421},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2953, col: 20, offset: 93361},
+																															pos:        position{line: 2955, col: 20, offset: 93428},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2953, col: 29, offset: 93370},
+																															pos:        position{line: 2955, col: 29, offset: 93437},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9332,9 +9332,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2963, col: 8, offset: 93530},
+																												pos: position{line: 2965, col: 8, offset: 93597},
 																												expr: &anyMatcher{
-																													line: 2963, col: 9, offset: 93531,
+																													line: 2965, col: 9, offset: 93598,
 																												},
 																											},
 																										},
@@ -9342,59 +9342,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93530},
+																								pos: position{line: 2965, col: 8, offset: 93597},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93531,
+																									line: 2965, col: 9, offset: 93598,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2678, col: 5, offset: 85630},
+																					pos:   position{line: 2680, col: 5, offset: 85697},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2679, col: 9, offset: 85648},
+																						pos: position{line: 2681, col: 9, offset: 85715},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2679, col: 10, offset: 85649},
+																								pos: position{line: 2681, col: 10, offset: 85716},
 																								run: (*parser).callonDocumentFragment1176,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2679, col: 10, offset: 85649},
+																									pos:   position{line: 2681, col: 10, offset: 85716},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2679, col: 17, offset: 85656},
+																										pos: position{line: 2681, col: 17, offset: 85723},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2687, col: 21, offset: 85852},
+																												pos: position{line: 2689, col: 21, offset: 85919},
 																												run: (*parser).callonDocumentFragment1179,
 																												expr: &seqExpr{
-																													pos: position{line: 2687, col: 21, offset: 85852},
+																													pos: position{line: 2689, col: 21, offset: 85919},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2687, col: 21, offset: 85852},
+																															pos:   position{line: 2689, col: 21, offset: 85919},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2687, col: 27, offset: 85858},
+																																pos: position{line: 2689, col: 27, offset: 85925},
 																																expr: &actionExpr{
-																																	pos: position{line: 2692, col: 5, offset: 85933},
+																																	pos: position{line: 2694, col: 5, offset: 86000},
 																																	run: (*parser).callonDocumentFragment1183,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2692, col: 5, offset: 85933},
+																																		pos: position{line: 2694, col: 5, offset: 86000},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2692, col: 5, offset: 85933},
+																																				pos:        position{line: 2694, col: 5, offset: 86000},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2692, col: 9, offset: 85937},
+																																				pos: position{line: 2694, col: 9, offset: 86004},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2944, col: 10, offset: 93182},
+																																					pos: position{line: 2946, col: 10, offset: 93249},
 																																					run: (*parser).callonDocumentFragment1187,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2944, col: 10, offset: 93182},
+																																						pos:        position{line: 2946, col: 10, offset: 93249},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9403,21 +9403,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2692, col: 16, offset: 85944},
+																																				pos:   position{line: 2694, col: 16, offset: 86011},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2698, col: 5, offset: 86144},
+																																					pos: position{line: 2700, col: 5, offset: 86211},
 																																					run: (*parser).callonDocumentFragment1190,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2698, col: 5, offset: 86144},
+																																						pos:   position{line: 2700, col: 5, offset: 86211},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2698, col: 14, offset: 86153},
+																																							pos: position{line: 2700, col: 14, offset: 86220},
 																																							run: (*parser).callonDocumentFragment1192,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2698, col: 14, offset: 86153},
+																																								pos: position{line: 2700, col: 14, offset: 86220},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2698, col: 14, offset: 86153},
+																																									pos:        position{line: 2700, col: 14, offset: 86220},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9434,28 +9434,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2966, col: 8, offset: 93580},
+																															pos: position{line: 2968, col: 8, offset: 93647},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2953, col: 12, offset: 93353},
+																																	pos: position{line: 2955, col: 12, offset: 93420},
 																																	run: (*parser).callonDocumentFragment1196,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2953, col: 13, offset: 93354},
+																																		pos: position{line: 2955, col: 13, offset: 93421},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2953, col: 13, offset: 93354},
+																																				pos:        position{line: 2955, col: 13, offset: 93421},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2953, col: 20, offset: 93361},
+																																				pos:        position{line: 2955, col: 20, offset: 93428},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2953, col: 29, offset: 93370},
+																																				pos:        position{line: 2955, col: 29, offset: 93437},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9464,9 +9464,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2963, col: 8, offset: 93530},
+																																	pos: position{line: 2965, col: 8, offset: 93597},
 																																	expr: &anyMatcher{
-																																		line: 2963, col: 9, offset: 93531,
+																																		line: 2965, col: 9, offset: 93598,
 																																	},
 																																},
 																															},
@@ -9475,40 +9475,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2704, col: 24, offset: 86289},
+																												pos: position{line: 2706, col: 24, offset: 86356},
 																												run: (*parser).callonDocumentFragment1203,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2704, col: 24, offset: 86289},
+																													pos:   position{line: 2706, col: 24, offset: 86356},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2704, col: 30, offset: 86295},
+																														pos: position{line: 2706, col: 30, offset: 86362},
 																														expr: &actionExpr{
-																															pos: position{line: 2709, col: 5, offset: 86371},
+																															pos: position{line: 2711, col: 5, offset: 86438},
 																															run: (*parser).callonDocumentFragment1206,
 																															expr: &seqExpr{
-																																pos: position{line: 2709, col: 5, offset: 86371},
+																																pos: position{line: 2711, col: 5, offset: 86438},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2709, col: 5, offset: 86371},
+																																		pos: position{line: 2711, col: 5, offset: 86438},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2674, col: 22, offset: 85568},
+																																			pos: position{line: 2676, col: 22, offset: 85635},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2670, col: 19, offset: 85488},
+																																					pos: position{line: 2672, col: 19, offset: 85555},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2670, col: 19, offset: 85488},
+																																							pos:        position{line: 2672, col: 19, offset: 85555},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2670, col: 26, offset: 85495},
+																																							pos: position{line: 2672, col: 26, offset: 85562},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2944, col: 10, offset: 93182},
+																																								pos: position{line: 2946, col: 10, offset: 93249},
 																																								run: (*parser).callonDocumentFragment1213,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2944, col: 10, offset: 93182},
+																																									pos:        position{line: 2946, col: 10, offset: 93249},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9517,28 +9517,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2966, col: 8, offset: 93580},
+																																							pos: position{line: 2968, col: 8, offset: 93647},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2953, col: 12, offset: 93353},
+																																									pos: position{line: 2955, col: 12, offset: 93420},
 																																									run: (*parser).callonDocumentFragment1216,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2953, col: 13, offset: 93354},
+																																										pos: position{line: 2955, col: 13, offset: 93421},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2953, col: 13, offset: 93354},
+																																												pos:        position{line: 2955, col: 13, offset: 93421},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2953, col: 20, offset: 93361},
+																																												pos:        position{line: 2955, col: 20, offset: 93428},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2953, col: 29, offset: 93370},
+																																												pos:        position{line: 2955, col: 29, offset: 93437},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9547,9 +9547,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2963, col: 8, offset: 93530},
+																																									pos: position{line: 2965, col: 8, offset: 93597},
 																																									expr: &anyMatcher{
-																																										line: 2963, col: 9, offset: 93531,
+																																										line: 2965, col: 9, offset: 93598,
 																																									},
 																																								},
 																																							},
@@ -9557,16 +9557,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2963, col: 8, offset: 93530},
+																																					pos: position{line: 2965, col: 8, offset: 93597},
 																																					expr: &anyMatcher{
-																																						line: 2963, col: 9, offset: 93531,
+																																						line: 2965, col: 9, offset: 93598,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2710, col: 5, offset: 86394},
+																																		pos: position{line: 2712, col: 5, offset: 86461},
 																																		expr: &actionExpr{
 																																			pos: position{line: 702, col: 14, offset: 22579},
 																																			run: (*parser).callonDocumentFragment1226,
@@ -9574,18 +9574,18 @@ var g = &grammar{
 																																				pos: position{line: 702, col: 14, offset: 22579},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2961, col: 11, offset: 93516},
+																																						pos: position{line: 2963, col: 11, offset: 93583},
 																																						expr: &anyMatcher{
-																																							line: 2961, col: 13, offset: 93518,
+																																							line: 2963, col: 13, offset: 93585,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 702, col: 21, offset: 22586},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2944, col: 10, offset: 93182},
+																																							pos: position{line: 2946, col: 10, offset: 93249},
 																																							run: (*parser).callonDocumentFragment1231,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2944, col: 10, offset: 93182},
+																																								pos:        position{line: 2946, col: 10, offset: 93249},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9594,28 +9594,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2966, col: 8, offset: 93580},
+																																						pos: position{line: 2968, col: 8, offset: 93647},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2953, col: 12, offset: 93353},
+																																								pos: position{line: 2955, col: 12, offset: 93420},
 																																								run: (*parser).callonDocumentFragment1234,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2953, col: 13, offset: 93354},
+																																									pos: position{line: 2955, col: 13, offset: 93421},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2953, col: 13, offset: 93354},
+																																											pos:        position{line: 2955, col: 13, offset: 93421},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2953, col: 20, offset: 93361},
+																																											pos:        position{line: 2955, col: 20, offset: 93428},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2953, col: 29, offset: 93370},
+																																											pos:        position{line: 2955, col: 29, offset: 93437},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9624,9 +9624,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2963, col: 8, offset: 93530},
+																																								pos: position{line: 2965, col: 8, offset: 93597},
 																																								expr: &anyMatcher{
-																																									line: 2963, col: 9, offset: 93531,
+																																									line: 2965, col: 9, offset: 93598,
 																																								},
 																																							},
 																																						},
@@ -9636,48 +9636,48 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2711, col: 5, offset: 86409},
+																																		pos:   position{line: 2713, col: 5, offset: 86476},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2711, col: 12, offset: 86416},
+																																			pos: position{line: 2713, col: 12, offset: 86483},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2736, col: 5, offset: 87044},
+																																				pos: position{line: 2738, col: 5, offset: 87111},
 																																				run: (*parser).callonDocumentFragment1243,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2736, col: 5, offset: 87044},
+																																					pos: position{line: 2738, col: 5, offset: 87111},
 																																					exprs: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2736, col: 6, offset: 87045},
+																																							pos: position{line: 2738, col: 6, offset: 87112},
 																																							run: (*parser).callonDocumentFragment1245,
 																																							expr: &litMatcher{
-																																								pos:        position{line: 2736, col: 6, offset: 87045},
+																																								pos:        position{line: 2738, col: 6, offset: 87112},
 																																								val:        "",
 																																								ignoreCase: false,
 																																								want:       "\"\"",
 																																							},
 																																						},
 																																						&andCodeExpr{
-																																							pos: position{line: 2739, col: 5, offset: 87116},
+																																							pos: position{line: 2741, col: 5, offset: 87183},
 																																							run: (*parser).callonDocumentFragment1247,
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2742, col: 5, offset: 87173},
+																																							pos:   position{line: 2744, col: 5, offset: 87240},
 																																							label: "format",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2742, col: 13, offset: 87181},
+																																								pos: position{line: 2744, col: 13, offset: 87248},
 																																								run: (*parser).callonDocumentFragment1249,
 																																								expr: &seqExpr{
-																																									pos: position{line: 2742, col: 13, offset: 87181},
+																																									pos: position{line: 2744, col: 13, offset: 87248},
 																																									exprs: []interface{}{
 																																										&zeroOrOneExpr{
-																																											pos: position{line: 2742, col: 13, offset: 87181},
+																																											pos: position{line: 2744, col: 13, offset: 87248},
 																																											expr: &seqExpr{
-																																												pos: position{line: 2742, col: 14, offset: 87182},
+																																												pos: position{line: 2744, col: 14, offset: 87249},
 																																												exprs: []interface{}{
 																																													&oneOrMoreExpr{
-																																														pos: position{line: 2742, col: 14, offset: 87182},
+																																														pos: position{line: 2744, col: 14, offset: 87249},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2742, col: 14, offset: 87182},
+																																															pos:        position{line: 2744, col: 14, offset: 87249},
 																																															val:        "[.0-9]",
 																																															chars:      []rune{'.'},
 																																															ranges:     []rune{'0', '9'},
@@ -9686,7 +9686,7 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&charClassMatcher{
-																																														pos:        position{line: 2742, col: 22, offset: 87190},
+																																														pos:        position{line: 2744, col: 22, offset: 87257},
 																																														val:        "[*+]",
 																																														chars:      []rune{'*', '+'},
 																																														ignoreCase: false,
@@ -9696,9 +9696,9 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&zeroOrOneExpr{
-																																											pos: position{line: 2742, col: 29, offset: 87197},
+																																											pos: position{line: 2744, col: 29, offset: 87264},
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2742, col: 29, offset: 87197},
+																																												pos:        position{line: 2744, col: 29, offset: 87264},
 																																												val:        "[<>^]",
 																																												chars:      []rune{'<', '>', '^'},
 																																												ignoreCase: false,
@@ -9706,18 +9706,18 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&zeroOrOneExpr{
-																																											pos: position{line: 2742, col: 36, offset: 87204},
+																																											pos: position{line: 2744, col: 36, offset: 87271},
 																																											expr: &seqExpr{
-																																												pos: position{line: 2742, col: 37, offset: 87205},
+																																												pos: position{line: 2744, col: 37, offset: 87272},
 																																												exprs: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2742, col: 37, offset: 87205},
+																																														pos:        position{line: 2744, col: 37, offset: 87272},
 																																														val:        ".",
 																																														ignoreCase: false,
 																																														want:       "\".\"",
 																																													},
 																																													&charClassMatcher{
-																																														pos:        position{line: 2742, col: 41, offset: 87209},
+																																														pos:        position{line: 2744, col: 41, offset: 87276},
 																																														val:        "[<>^]",
 																																														chars:      []rune{'<', '>', '^'},
 																																														ignoreCase: false,
@@ -9727,9 +9727,9 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&zeroOrOneExpr{
-																																											pos: position{line: 2742, col: 49, offset: 87217},
+																																											pos: position{line: 2744, col: 49, offset: 87284},
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2742, col: 49, offset: 87217},
+																																												pos:        position{line: 2744, col: 49, offset: 87284},
 																																												val:        "[a-z]",
 																																												ranges:     []rune{'a', 'z'},
 																																												ignoreCase: false,
@@ -9746,18 +9746,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2711, col: 31, offset: 86435},
+																																		pos:        position{line: 2713, col: 31, offset: 86502},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2711, col: 35, offset: 86439},
+																																		pos: position{line: 2713, col: 35, offset: 86506},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2944, col: 10, offset: 93182},
+																																			pos: position{line: 2946, col: 10, offset: 93249},
 																																			run: (*parser).callonDocumentFragment1266,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2944, col: 10, offset: 93182},
+																																				pos:        position{line: 2946, col: 10, offset: 93249},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9766,27 +9766,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2711, col: 42, offset: 86446},
+																																		pos: position{line: 2713, col: 42, offset: 86513},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2953, col: 12, offset: 93353},
+																																			pos: position{line: 2955, col: 12, offset: 93420},
 																																			run: (*parser).callonDocumentFragment1269,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2953, col: 13, offset: 93354},
+																																				pos: position{line: 2955, col: 13, offset: 93421},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2953, col: 13, offset: 93354},
+																																						pos:        position{line: 2955, col: 13, offset: 93421},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2953, col: 20, offset: 93361},
+																																						pos:        position{line: 2955, col: 20, offset: 93428},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2953, col: 29, offset: 93370},
+																																						pos:        position{line: 2955, col: 29, offset: 93437},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9796,57 +9796,57 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2711, col: 51, offset: 86455},
+																																		pos:   position{line: 2713, col: 51, offset: 86522},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2717, col: 5, offset: 86614},
+																																			pos: position{line: 2719, col: 5, offset: 86681},
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2718, col: 9, offset: 86624},
+																																				pos: position{line: 2720, col: 9, offset: 86691},
 																																				alternatives: []interface{}{
 																																					&actionExpr{
-																																						pos: position{line: 2718, col: 9, offset: 86624},
+																																						pos: position{line: 2720, col: 9, offset: 86691},
 																																						run: (*parser).callonDocumentFragment1277,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2718, col: 9, offset: 86624},
+																																							pos: position{line: 2720, col: 9, offset: 86691},
 																																							exprs: []interface{}{
 																																								&andCodeExpr{
-																																									pos: position{line: 2718, col: 9, offset: 86624},
+																																									pos: position{line: 2720, col: 9, offset: 86691},
 																																									run: (*parser).callonDocumentFragment1279,
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2721, col: 9, offset: 86693},
+																																									pos:   position{line: 2723, col: 9, offset: 86760},
 																																									label: "comment",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2538, col: 22, offset: 81742},
+																																										pos: position{line: 2540, col: 22, offset: 81809},
 																																										run: (*parser).callonDocumentFragment1281,
 																																										expr: &seqExpr{
-																																											pos: position{line: 2538, col: 22, offset: 81742},
+																																											pos: position{line: 2540, col: 22, offset: 81809},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2543, col: 31, offset: 81992},
+																																													pos:        position{line: 2545, col: 31, offset: 82059},
 																																													val:        "//",
 																																													ignoreCase: false,
 																																													want:       "\"//\"",
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2543, col: 36, offset: 81997},
+																																													pos: position{line: 2545, col: 36, offset: 82064},
 																																													expr: &litMatcher{
-																																														pos:        position{line: 2543, col: 37, offset: 81998},
+																																														pos:        position{line: 2545, col: 37, offset: 82065},
 																																														val:        "/",
 																																														ignoreCase: false,
 																																														want:       "\"/\"",
 																																													},
 																																												},
 																																												&labeledExpr{
-																																													pos:   position{line: 2538, col: 49, offset: 81769},
+																																													pos:   position{line: 2540, col: 49, offset: 81836},
 																																													label: "content",
 																																													expr: &actionExpr{
-																																														pos: position{line: 2890, col: 13, offset: 91708},
+																																														pos: position{line: 2892, col: 13, offset: 91775},
 																																														run: (*parser).callonDocumentFragment1287,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2890, col: 13, offset: 91708},
+																																															pos: position{line: 2892, col: 13, offset: 91775},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2890, col: 13, offset: 91708},
+																																																pos:        position{line: 2892, col: 13, offset: 91775},
 																																																val:        "[^\\r\\n]",
 																																																chars:      []rune{'\r', '\n'},
 																																																ignoreCase: false,
@@ -9856,28 +9856,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2966, col: 8, offset: 93580},
+																																													pos: position{line: 2968, col: 8, offset: 93647},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2953, col: 12, offset: 93353},
+																																															pos: position{line: 2955, col: 12, offset: 93420},
 																																															run: (*parser).callonDocumentFragment1291,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2953, col: 13, offset: 93354},
+																																																pos: position{line: 2955, col: 13, offset: 93421},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2953, col: 13, offset: 93354},
+																																																		pos:        position{line: 2955, col: 13, offset: 93421},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2953, col: 20, offset: 93361},
+																																																		pos:        position{line: 2955, col: 20, offset: 93428},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2953, col: 29, offset: 93370},
+																																																		pos:        position{line: 2955, col: 29, offset: 93437},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -9886,9 +9886,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2963, col: 8, offset: 93530},
+																																															pos: position{line: 2965, col: 8, offset: 93597},
 																																															expr: &anyMatcher{
-																																																line: 2963, col: 9, offset: 93531,
+																																																line: 2965, col: 9, offset: 93598,
 																																															},
 																																														},
 																																													},
@@ -9901,32 +9901,32 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&actionExpr{
-																																						pos: position{line: 2725, col: 9, offset: 86783},
+																																						pos: position{line: 2727, col: 9, offset: 86850},
 																																						run: (*parser).callonDocumentFragment1298,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2725, col: 9, offset: 86783},
+																																							pos: position{line: 2727, col: 9, offset: 86850},
 																																							exprs: []interface{}{
 																																								&notExpr{
-																																									pos: position{line: 2725, col: 9, offset: 86783},
+																																									pos: position{line: 2727, col: 9, offset: 86850},
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2674, col: 22, offset: 85568},
+																																										pos: position{line: 2676, col: 22, offset: 85635},
 																																										alternatives: []interface{}{
 																																											&seqExpr{
-																																												pos: position{line: 2670, col: 19, offset: 85488},
+																																												pos: position{line: 2672, col: 19, offset: 85555},
 																																												exprs: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2670, col: 19, offset: 85488},
+																																														pos:        position{line: 2672, col: 19, offset: 85555},
 																																														val:        "|===",
 																																														ignoreCase: false,
 																																														want:       "\"|===\"",
 																																													},
 																																													&zeroOrMoreExpr{
-																																														pos: position{line: 2670, col: 26, offset: 85495},
+																																														pos: position{line: 2672, col: 26, offset: 85562},
 																																														expr: &actionExpr{
-																																															pos: position{line: 2944, col: 10, offset: 93182},
+																																															pos: position{line: 2946, col: 10, offset: 93249},
 																																															run: (*parser).callonDocumentFragment1305,
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2944, col: 10, offset: 93182},
+																																																pos:        position{line: 2946, col: 10, offset: 93249},
 																																																val:        "[\\t ]",
 																																																chars:      []rune{'\t', ' '},
 																																																ignoreCase: false,
@@ -9935,28 +9935,28 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&choiceExpr{
-																																														pos: position{line: 2966, col: 8, offset: 93580},
+																																														pos: position{line: 2968, col: 8, offset: 93647},
 																																														alternatives: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2953, col: 12, offset: 93353},
+																																																pos: position{line: 2955, col: 12, offset: 93420},
 																																																run: (*parser).callonDocumentFragment1308,
 																																																expr: &choiceExpr{
-																																																	pos: position{line: 2953, col: 13, offset: 93354},
+																																																	pos: position{line: 2955, col: 13, offset: 93421},
 																																																	alternatives: []interface{}{
 																																																		&litMatcher{
-																																																			pos:        position{line: 2953, col: 13, offset: 93354},
+																																																			pos:        position{line: 2955, col: 13, offset: 93421},
 																																																			val:        "\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2953, col: 20, offset: 93361},
+																																																			pos:        position{line: 2955, col: 20, offset: 93428},
 																																																			val:        "\r\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2953, col: 29, offset: 93370},
+																																																			pos:        position{line: 2955, col: 29, offset: 93437},
 																																																			val:        "\r",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\"",
@@ -9965,9 +9965,9 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&notExpr{
-																																																pos: position{line: 2963, col: 8, offset: 93530},
+																																																pos: position{line: 2965, col: 8, offset: 93597},
 																																																expr: &anyMatcher{
-																																																	line: 2963, col: 9, offset: 93531,
+																																																	line: 2965, col: 9, offset: 93598,
 																																																},
 																																															},
 																																														},
@@ -9975,16 +9975,16 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2963, col: 8, offset: 93530},
+																																												pos: position{line: 2965, col: 8, offset: 93597},
 																																												expr: &anyMatcher{
-																																													line: 2963, col: 9, offset: 93531,
+																																													line: 2965, col: 9, offset: 93598,
 																																												},
 																																											},
 																																										},
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2726, col: 9, offset: 86810},
+																																									pos: position{line: 2728, col: 9, offset: 86877},
 																																									expr: &actionExpr{
 																																										pos: position{line: 702, col: 14, offset: 22579},
 																																										run: (*parser).callonDocumentFragment1318,
@@ -9992,18 +9992,18 @@ var g = &grammar{
 																																											pos: position{line: 702, col: 14, offset: 22579},
 																																											exprs: []interface{}{
 																																												&andExpr{
-																																													pos: position{line: 2961, col: 11, offset: 93516},
+																																													pos: position{line: 2963, col: 11, offset: 93583},
 																																													expr: &anyMatcher{
-																																														line: 2961, col: 13, offset: 93518,
+																																														line: 2963, col: 13, offset: 93585,
 																																													},
 																																												},
 																																												&zeroOrMoreExpr{
 																																													pos: position{line: 702, col: 21, offset: 22586},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2944, col: 10, offset: 93182},
+																																														pos: position{line: 2946, col: 10, offset: 93249},
 																																														run: (*parser).callonDocumentFragment1323,
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2944, col: 10, offset: 93182},
+																																															pos:        position{line: 2946, col: 10, offset: 93249},
 																																															val:        "[\\t ]",
 																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
@@ -10012,28 +10012,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2966, col: 8, offset: 93580},
+																																													pos: position{line: 2968, col: 8, offset: 93647},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2953, col: 12, offset: 93353},
+																																															pos: position{line: 2955, col: 12, offset: 93420},
 																																															run: (*parser).callonDocumentFragment1326,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2953, col: 13, offset: 93354},
+																																																pos: position{line: 2955, col: 13, offset: 93421},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2953, col: 13, offset: 93354},
+																																																		pos:        position{line: 2955, col: 13, offset: 93421},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2953, col: 20, offset: 93361},
+																																																		pos:        position{line: 2955, col: 20, offset: 93428},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2953, col: 29, offset: 93370},
+																																																		pos:        position{line: 2955, col: 29, offset: 93437},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -10042,9 +10042,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2963, col: 8, offset: 93530},
+																																															pos: position{line: 2965, col: 8, offset: 93597},
 																																															expr: &anyMatcher{
-																																																line: 2963, col: 9, offset: 93531,
+																																																line: 2965, col: 9, offset: 93598,
 																																															},
 																																														},
 																																													},
@@ -10054,53 +10054,53 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2727, col: 9, offset: 86829},
+																																									pos: position{line: 2729, col: 9, offset: 86896},
 																																									expr: &seqExpr{
-																																										pos: position{line: 2727, col: 11, offset: 86831},
+																																										pos: position{line: 2729, col: 11, offset: 86898},
 																																										exprs: []interface{}{
 																																											&labeledExpr{
-																																												pos:   position{line: 2727, col: 11, offset: 86831},
+																																												pos:   position{line: 2729, col: 11, offset: 86898},
 																																												label: "format",
 																																												expr: &zeroOrOneExpr{
-																																													pos: position{line: 2727, col: 18, offset: 86838},
+																																													pos: position{line: 2729, col: 18, offset: 86905},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2736, col: 5, offset: 87044},
+																																														pos: position{line: 2738, col: 5, offset: 87111},
 																																														run: (*parser).callonDocumentFragment1337,
 																																														expr: &seqExpr{
-																																															pos: position{line: 2736, col: 5, offset: 87044},
+																																															pos: position{line: 2738, col: 5, offset: 87111},
 																																															exprs: []interface{}{
 																																																&actionExpr{
-																																																	pos: position{line: 2736, col: 6, offset: 87045},
+																																																	pos: position{line: 2738, col: 6, offset: 87112},
 																																																	run: (*parser).callonDocumentFragment1339,
 																																																	expr: &litMatcher{
-																																																		pos:        position{line: 2736, col: 6, offset: 87045},
+																																																		pos:        position{line: 2738, col: 6, offset: 87112},
 																																																		val:        "",
 																																																		ignoreCase: false,
 																																																		want:       "\"\"",
 																																																	},
 																																																},
 																																																&andCodeExpr{
-																																																	pos: position{line: 2739, col: 5, offset: 87116},
+																																																	pos: position{line: 2741, col: 5, offset: 87183},
 																																																	run: (*parser).callonDocumentFragment1341,
 																																																},
 																																																&labeledExpr{
-																																																	pos:   position{line: 2742, col: 5, offset: 87173},
+																																																	pos:   position{line: 2744, col: 5, offset: 87240},
 																																																	label: "format",
 																																																	expr: &actionExpr{
-																																																		pos: position{line: 2742, col: 13, offset: 87181},
+																																																		pos: position{line: 2744, col: 13, offset: 87248},
 																																																		run: (*parser).callonDocumentFragment1343,
 																																																		expr: &seqExpr{
-																																																			pos: position{line: 2742, col: 13, offset: 87181},
+																																																			pos: position{line: 2744, col: 13, offset: 87248},
 																																																			exprs: []interface{}{
 																																																				&zeroOrOneExpr{
-																																																					pos: position{line: 2742, col: 13, offset: 87181},
+																																																					pos: position{line: 2744, col: 13, offset: 87248},
 																																																					expr: &seqExpr{
-																																																						pos: position{line: 2742, col: 14, offset: 87182},
+																																																						pos: position{line: 2744, col: 14, offset: 87249},
 																																																						exprs: []interface{}{
 																																																							&oneOrMoreExpr{
-																																																								pos: position{line: 2742, col: 14, offset: 87182},
+																																																								pos: position{line: 2744, col: 14, offset: 87249},
 																																																								expr: &charClassMatcher{
-																																																									pos:        position{line: 2742, col: 14, offset: 87182},
+																																																									pos:        position{line: 2744, col: 14, offset: 87249},
 																																																									val:        "[.0-9]",
 																																																									chars:      []rune{'.'},
 																																																									ranges:     []rune{'0', '9'},
@@ -10109,7 +10109,7 @@ var g = &grammar{
 																																																								},
 																																																							},
 																																																							&charClassMatcher{
-																																																								pos:        position{line: 2742, col: 22, offset: 87190},
+																																																								pos:        position{line: 2744, col: 22, offset: 87257},
 																																																								val:        "[*+]",
 																																																								chars:      []rune{'*', '+'},
 																																																								ignoreCase: false,
@@ -10119,9 +10119,9 @@ var g = &grammar{
 																																																					},
 																																																				},
 																																																				&zeroOrOneExpr{
-																																																					pos: position{line: 2742, col: 29, offset: 87197},
+																																																					pos: position{line: 2744, col: 29, offset: 87264},
 																																																					expr: &charClassMatcher{
-																																																						pos:        position{line: 2742, col: 29, offset: 87197},
+																																																						pos:        position{line: 2744, col: 29, offset: 87264},
 																																																						val:        "[<>^]",
 																																																						chars:      []rune{'<', '>', '^'},
 																																																						ignoreCase: false,
@@ -10129,18 +10129,18 @@ var g = &grammar{
 																																																					},
 																																																				},
 																																																				&zeroOrOneExpr{
-																																																					pos: position{line: 2742, col: 36, offset: 87204},
+																																																					pos: position{line: 2744, col: 36, offset: 87271},
 																																																					expr: &seqExpr{
-																																																						pos: position{line: 2742, col: 37, offset: 87205},
+																																																						pos: position{line: 2744, col: 37, offset: 87272},
 																																																						exprs: []interface{}{
 																																																							&litMatcher{
-																																																								pos:        position{line: 2742, col: 37, offset: 87205},
+																																																								pos:        position{line: 2744, col: 37, offset: 87272},
 																																																								val:        ".",
 																																																								ignoreCase: false,
 																																																								want:       "\".\"",
 																																																							},
 																																																							&charClassMatcher{
-																																																								pos:        position{line: 2742, col: 41, offset: 87209},
+																																																								pos:        position{line: 2744, col: 41, offset: 87276},
 																																																								val:        "[<>^]",
 																																																								chars:      []rune{'<', '>', '^'},
 																																																								ignoreCase: false,
@@ -10150,9 +10150,9 @@ var g = &grammar{
 																																																					},
 																																																				},
 																																																				&zeroOrOneExpr{
-																																																					pos: position{line: 2742, col: 49, offset: 87217},
+																																																					pos: position{line: 2744, col: 49, offset: 87284},
 																																																					expr: &charClassMatcher{
-																																																						pos:        position{line: 2742, col: 49, offset: 87217},
+																																																						pos:        position{line: 2744, col: 49, offset: 87284},
 																																																						val:        "[a-z]",
 																																																						ranges:     []rune{'a', 'z'},
 																																																						ignoreCase: false,
@@ -10169,7 +10169,7 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2727, col: 37, offset: 86857},
+																																												pos:        position{line: 2729, col: 37, offset: 86924},
 																																												val:        "|",
 																																												ignoreCase: false,
 																																												want:       "\"|\"",
@@ -10178,15 +10178,15 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2728, col: 9, offset: 86870},
+																																									pos:   position{line: 2730, col: 9, offset: 86937},
 																																									label: "content",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2728, col: 18, offset: 86879},
+																																										pos: position{line: 2730, col: 18, offset: 86946},
 																																										run: (*parser).callonDocumentFragment1360,
 																																										expr: &zeroOrMoreExpr{
-																																											pos: position{line: 2728, col: 18, offset: 86879},
+																																											pos: position{line: 2730, col: 18, offset: 86946},
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2728, col: 18, offset: 86879},
+																																												pos:        position{line: 2730, col: 18, offset: 86946},
 																																												val:        "[^|\\r\\n]",
 																																												chars:      []rune{'|', '\r', '\n'},
 																																												ignoreCase: false,
@@ -10196,30 +10196,30 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&zeroOrOneExpr{
-																																									pos: position{line: 2730, col: 12, offset: 86941},
+																																									pos: position{line: 2732, col: 12, offset: 87008},
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2966, col: 8, offset: 93580},
+																																										pos: position{line: 2968, col: 8, offset: 93647},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2953, col: 12, offset: 93353},
+																																												pos: position{line: 2955, col: 12, offset: 93420},
 																																												run: (*parser).callonDocumentFragment1365,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2953, col: 13, offset: 93354},
+																																													pos: position{line: 2955, col: 13, offset: 93421},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2953, col: 13, offset: 93354},
+																																															pos:        position{line: 2955, col: 13, offset: 93421},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2953, col: 20, offset: 93361},
+																																															pos:        position{line: 2955, col: 20, offset: 93428},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2953, col: 29, offset: 93370},
+																																															pos:        position{line: 2955, col: 29, offset: 93437},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -10228,9 +10228,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2963, col: 8, offset: 93530},
+																																												pos: position{line: 2965, col: 8, offset: 93597},
 																																												expr: &anyMatcher{
-																																													line: 2963, col: 9, offset: 93531,
+																																													line: 2965, col: 9, offset: 93598,
 																																												},
 																																											},
 																																										},
@@ -10260,18 +10260,18 @@ var g = &grammar{
 																									pos: position{line: 702, col: 14, offset: 22579},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2961, col: 11, offset: 93516},
+																											pos: position{line: 2963, col: 11, offset: 93583},
 																											expr: &anyMatcher{
-																												line: 2961, col: 13, offset: 93518,
+																												line: 2963, col: 13, offset: 93585,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 702, col: 21, offset: 22586},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93182},
+																												pos: position{line: 2946, col: 10, offset: 93249},
 																												run: (*parser).callonDocumentFragment1377,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93182},
+																													pos:        position{line: 2946, col: 10, offset: 93249},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10280,28 +10280,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93580},
+																											pos: position{line: 2968, col: 8, offset: 93647},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93353},
+																													pos: position{line: 2955, col: 12, offset: 93420},
 																													run: (*parser).callonDocumentFragment1380,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93354},
+																														pos: position{line: 2955, col: 13, offset: 93421},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93354},
+																																pos:        position{line: 2955, col: 13, offset: 93421},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93361},
+																																pos:        position{line: 2955, col: 20, offset: 93428},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93370},
+																																pos:        position{line: 2955, col: 29, offset: 93437},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10310,9 +10310,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93530},
+																													pos: position{line: 2965, col: 8, offset: 93597},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93531,
+																														line: 2965, col: 9, offset: 93598,
 																													},
 																												},
 																											},
@@ -10331,24 +10331,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2674, col: 22, offset: 85568},
+														pos: position{line: 2676, col: 22, offset: 85635},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2670, col: 19, offset: 85488},
+																pos: position{line: 2672, col: 19, offset: 85555},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2670, col: 19, offset: 85488},
+																		pos:        position{line: 2672, col: 19, offset: 85555},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2670, col: 26, offset: 85495},
+																		pos: position{line: 2672, col: 26, offset: 85562},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93182},
+																			pos: position{line: 2946, col: 10, offset: 93249},
 																			run: (*parser).callonDocumentFragment1391,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93182},
+																				pos:        position{line: 2946, col: 10, offset: 93249},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10357,28 +10357,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93580},
+																		pos: position{line: 2968, col: 8, offset: 93647},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonDocumentFragment1394,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10387,9 +10387,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93530},
+																				pos: position{line: 2965, col: 8, offset: 93597},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93531,
+																					line: 2965, col: 9, offset: 93598,
 																				},
 																			},
 																		},
@@ -10397,9 +10397,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93530},
+																pos: position{line: 2965, col: 8, offset: 93597},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93531,
+																	line: 2965, col: 9, offset: 93598,
 																},
 															},
 														},
@@ -10408,36 +10408,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2538, col: 22, offset: 81742},
+											pos: position{line: 2540, col: 22, offset: 81809},
 											run: (*parser).callonDocumentFragment1403,
 											expr: &seqExpr{
-												pos: position{line: 2538, col: 22, offset: 81742},
+												pos: position{line: 2540, col: 22, offset: 81809},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2543, col: 31, offset: 81992},
+														pos:        position{line: 2545, col: 31, offset: 82059},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2543, col: 36, offset: 81997},
+														pos: position{line: 2545, col: 36, offset: 82064},
 														expr: &litMatcher{
-															pos:        position{line: 2543, col: 37, offset: 81998},
+															pos:        position{line: 2545, col: 37, offset: 82065},
 															val:        "/",
 															ignoreCase: false,
 															want:       "\"/\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2538, col: 49, offset: 81769},
+														pos:   position{line: 2540, col: 49, offset: 81836},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2890, col: 13, offset: 91708},
+															pos: position{line: 2892, col: 13, offset: 91775},
 															run: (*parser).callonDocumentFragment1409,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2890, col: 13, offset: 91708},
+																pos: position{line: 2892, col: 13, offset: 91775},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2890, col: 13, offset: 91708},
+																	pos:        position{line: 2892, col: 13, offset: 91775},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10447,28 +10447,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2966, col: 8, offset: 93580},
+														pos: position{line: 2968, col: 8, offset: 93647},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93353},
+																pos: position{line: 2955, col: 12, offset: 93420},
 																run: (*parser).callonDocumentFragment1413,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93354},
+																	pos: position{line: 2955, col: 13, offset: 93421},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93354},
+																			pos:        position{line: 2955, col: 13, offset: 93421},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93361},
+																			pos:        position{line: 2955, col: 20, offset: 93428},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93370},
+																			pos:        position{line: 2955, col: 29, offset: 93437},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10477,9 +10477,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93530},
+																pos: position{line: 2965, col: 8, offset: 93597},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93531,
+																	line: 2965, col: 9, offset: 93598,
 																},
 															},
 														},
@@ -10515,10 +10515,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1259, col: 36, offset: 39334},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93182},
+																			pos: position{line: 2946, col: 10, offset: 93249},
 																			run: (*parser).callonDocumentFragment1428,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93182},
+																				pos:        position{line: 2946, col: 10, offset: 93249},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10527,28 +10527,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93580},
+																		pos: position{line: 2968, col: 8, offset: 93647},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonDocumentFragment1431,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10557,9 +10557,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93530},
+																				pos: position{line: 2965, col: 8, offset: 93597},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93531,
+																					line: 2965, col: 9, offset: 93598,
 																				},
 																			},
 																		},
@@ -10593,10 +10593,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1259, col: 36, offset: 39334},
 																												expr: &actionExpr{
-																													pos: position{line: 2944, col: 10, offset: 93182},
+																													pos: position{line: 2946, col: 10, offset: 93249},
 																													run: (*parser).callonDocumentFragment1448,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2944, col: 10, offset: 93182},
+																														pos:        position{line: 2946, col: 10, offset: 93249},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10605,28 +10605,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2966, col: 8, offset: 93580},
+																												pos: position{line: 2968, col: 8, offset: 93647},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2953, col: 12, offset: 93353},
+																														pos: position{line: 2955, col: 12, offset: 93420},
 																														run: (*parser).callonDocumentFragment1451,
 																														expr: &choiceExpr{
-																															pos: position{line: 2953, col: 13, offset: 93354},
+																															pos: position{line: 2955, col: 13, offset: 93421},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 13, offset: 93354},
+																																	pos:        position{line: 2955, col: 13, offset: 93421},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 20, offset: 93361},
+																																	pos:        position{line: 2955, col: 20, offset: 93428},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2953, col: 29, offset: 93370},
+																																	pos:        position{line: 2955, col: 29, offset: 93437},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10635,9 +10635,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2963, col: 8, offset: 93530},
+																														pos: position{line: 2965, col: 8, offset: 93597},
 																														expr: &anyMatcher{
-																															line: 2963, col: 9, offset: 93531,
+																															line: 2965, col: 9, offset: 93598,
 																														},
 																													},
 																												},
@@ -10664,10 +10664,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1259, col: 36, offset: 39334},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93182},
+																			pos: position{line: 2946, col: 10, offset: 93249},
 																			run: (*parser).callonDocumentFragment1461,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93182},
+																				pos:        position{line: 2946, col: 10, offset: 93249},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10676,28 +10676,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93580},
+																		pos: position{line: 2968, col: 8, offset: 93647},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonDocumentFragment1464,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10706,9 +10706,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93530},
+																				pos: position{line: 2965, col: 8, offset: 93597},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93531,
+																					line: 2965, col: 9, offset: 93598,
 																				},
 																			},
 																		},
@@ -10809,9 +10809,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2963, col: 8, offset: 93530},
+							pos: position{line: 2965, col: 8, offset: 93597},
 							expr: &anyMatcher{
-								line: 2963, col: 9, offset: 93531,
+								line: 2965, col: 9, offset: 93598,
 							},
 						},
 					},
@@ -10883,12 +10883,12 @@ var g = &grammar{
 										pos: position{line: 307, col: 9, offset: 9333},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2948, col: 11, offset: 93243},
+												pos: position{line: 2950, col: 11, offset: 93310},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2948, col: 11, offset: 93243},
+													pos: position{line: 2950, col: 11, offset: 93310},
 													expr: &charClassMatcher{
-														pos:        position{line: 2948, col: 11, offset: 93243},
+														pos:        position{line: 2950, col: 11, offset: 93310},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10910,28 +10910,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2966, col: 8, offset: 93580},
+							pos: position{line: 2968, col: 8, offset: 93647},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2953, col: 12, offset: 93353},
+									pos: position{line: 2955, col: 12, offset: 93420},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2953, col: 13, offset: 93354},
+										pos: position{line: 2955, col: 13, offset: 93421},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2953, col: 13, offset: 93354},
+												pos:        position{line: 2955, col: 13, offset: 93421},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 20, offset: 93361},
+												pos:        position{line: 2955, col: 20, offset: 93428},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 29, offset: 93370},
+												pos:        position{line: 2955, col: 29, offset: 93437},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10940,9 +10940,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2963, col: 8, offset: 93530},
+									pos: position{line: 2965, col: 8, offset: 93597},
 									expr: &anyMatcher{
-										line: 2963, col: 9, offset: 93531,
+										line: 2965, col: 9, offset: 93598,
 									},
 								},
 							},
@@ -10986,25 +10986,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2953, col: 12, offset: 93353},
+												pos: position{line: 2955, col: 12, offset: 93420},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2953, col: 13, offset: 93354},
+													pos: position{line: 2955, col: 13, offset: 93421},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2953, col: 13, offset: 93354},
+															pos:        position{line: 2955, col: 13, offset: 93421},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2953, col: 20, offset: 93361},
+															pos:        position{line: 2955, col: 20, offset: 93428},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2953, col: 29, offset: 93370},
+															pos:        position{line: 2955, col: 29, offset: 93437},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -11015,10 +11015,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 328, col: 9, offset: 10035},
 												expr: &actionExpr{
-													pos: position{line: 2944, col: 10, offset: 93182},
+													pos: position{line: 2946, col: 10, offset: 93249},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2944, col: 10, offset: 93182},
+														pos:        position{line: 2946, col: 10, offset: 93249},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11088,10 +11088,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 346, col: 13, offset: 10580},
 										expr: &actionExpr{
-											pos: position{line: 2944, col: 10, offset: 93182},
+											pos: position{line: 2946, col: 10, offset: 93249},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2944, col: 10, offset: 93182},
+												pos:        position{line: 2946, col: 10, offset: 93249},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -11100,28 +11100,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2966, col: 8, offset: 93580},
+										pos: position{line: 2968, col: 8, offset: 93647},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2953, col: 12, offset: 93353},
+												pos: position{line: 2955, col: 12, offset: 93420},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2953, col: 13, offset: 93354},
+													pos: position{line: 2955, col: 13, offset: 93421},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2953, col: 13, offset: 93354},
+															pos:        position{line: 2955, col: 13, offset: 93421},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2953, col: 20, offset: 93361},
+															pos:        position{line: 2955, col: 20, offset: 93428},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2953, col: 29, offset: 93370},
+															pos:        position{line: 2955, col: 29, offset: 93437},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -11130,9 +11130,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2963, col: 8, offset: 93530},
+												pos: position{line: 2965, col: 8, offset: 93597},
 												expr: &anyMatcher{
-													line: 2963, col: 9, offset: 93531,
+													line: 2965, col: 9, offset: 93598,
 												},
 											},
 										},
@@ -11165,23 +11165,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2525, col: 5, offset: 81288},
+										pos: position{line: 2527, col: 5, offset: 81355},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 5, offset: 81288},
+											pos: position{line: 2527, col: 5, offset: 81355},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2525, col: 5, offset: 81288},
+													pos: position{line: 2527, col: 5, offset: 81355},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2528, col: 5, offset: 81364},
+													pos:   position{line: 2530, col: 5, offset: 81431},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2529, col: 9, offset: 81382},
+														pos: position{line: 2531, col: 9, offset: 81449},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2529, col: 10, offset: 81383},
+															pos:        position{line: 2531, col: 10, offset: 81450},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -11193,10 +11193,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2944, col: 10, offset: 93182},
+										pos: position{line: 2946, col: 10, offset: 93249},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2944, col: 10, offset: 93182},
+											pos:        position{line: 2946, col: 10, offset: 93249},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -12037,10 +12037,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 374, col: 35, offset: 11589},
 												expr: &actionExpr{
-													pos: position{line: 2944, col: 10, offset: 93182},
+													pos: position{line: 2946, col: 10, offset: 93249},
 													run: (*parser).callonBlockAttributes101,
 													expr: &charClassMatcher{
-														pos:        position{line: 2944, col: 10, offset: 93182},
+														pos:        position{line: 2946, col: 10, offset: 93249},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12049,28 +12049,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2966, col: 8, offset: 93580},
+												pos: position{line: 2968, col: 8, offset: 93647},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2953, col: 12, offset: 93353},
+														pos: position{line: 2955, col: 12, offset: 93420},
 														run: (*parser).callonBlockAttributes104,
 														expr: &choiceExpr{
-															pos: position{line: 2953, col: 13, offset: 93354},
+															pos: position{line: 2955, col: 13, offset: 93421},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2953, col: 13, offset: 93354},
+																	pos:        position{line: 2955, col: 13, offset: 93421},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2953, col: 20, offset: 93361},
+																	pos:        position{line: 2955, col: 20, offset: 93428},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2953, col: 29, offset: 93370},
+																	pos:        position{line: 2955, col: 29, offset: 93437},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12079,9 +12079,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2963, col: 8, offset: 93530},
+														pos: position{line: 2965, col: 8, offset: 93597},
 														expr: &anyMatcher{
-															line: 2963, col: 9, offset: 93531,
+															line: 2965, col: 9, offset: 93598,
 														},
 													},
 												},
@@ -12098,18 +12098,18 @@ var g = &grammar{
 																pos: position{line: 702, col: 14, offset: 22579},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2961, col: 11, offset: 93516},
+																		pos: position{line: 2963, col: 11, offset: 93583},
 																		expr: &anyMatcher{
-																			line: 2961, col: 13, offset: 93518,
+																			line: 2963, col: 13, offset: 93585,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 702, col: 21, offset: 22586},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93182},
+																			pos: position{line: 2946, col: 10, offset: 93249},
 																			run: (*parser).callonBlockAttributes118,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93182},
+																				pos:        position{line: 2946, col: 10, offset: 93249},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12118,28 +12118,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93580},
+																		pos: position{line: 2968, col: 8, offset: 93647},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonBlockAttributes121,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12148,9 +12148,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93530},
+																				pos: position{line: 2965, col: 8, offset: 93597},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93531,
+																					line: 2965, col: 9, offset: 93598,
 																				},
 																			},
 																		},
@@ -12159,36 +12159,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2538, col: 22, offset: 81742},
+															pos: position{line: 2540, col: 22, offset: 81809},
 															run: (*parser).callonBlockAttributes128,
 															expr: &seqExpr{
-																pos: position{line: 2538, col: 22, offset: 81742},
+																pos: position{line: 2540, col: 22, offset: 81809},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2543, col: 31, offset: 81992},
+																		pos:        position{line: 2545, col: 31, offset: 82059},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2543, col: 36, offset: 81997},
+																		pos: position{line: 2545, col: 36, offset: 82064},
 																		expr: &litMatcher{
-																			pos:        position{line: 2543, col: 37, offset: 81998},
+																			pos:        position{line: 2545, col: 37, offset: 82065},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2538, col: 49, offset: 81769},
+																		pos:   position{line: 2540, col: 49, offset: 81836},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2890, col: 13, offset: 91708},
+																			pos: position{line: 2892, col: 13, offset: 91775},
 																			run: (*parser).callonBlockAttributes134,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2890, col: 13, offset: 91708},
+																				pos: position{line: 2892, col: 13, offset: 91775},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2890, col: 13, offset: 91708},
+																					pos:        position{line: 2892, col: 13, offset: 91775},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12198,28 +12198,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93580},
+																		pos: position{line: 2968, col: 8, offset: 93647},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonBlockAttributes138,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12228,9 +12228,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93530},
+																				pos: position{line: 2965, col: 8, offset: 93597},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93531,
+																					line: 2965, col: 9, offset: 93598,
 																				},
 																			},
 																		},
@@ -12261,10 +12261,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 378, col: 35, offset: 11766},
 												expr: &actionExpr{
-													pos: position{line: 2944, col: 10, offset: 93182},
+													pos: position{line: 2946, col: 10, offset: 93249},
 													run: (*parser).callonBlockAttributes150,
 													expr: &charClassMatcher{
-														pos:        position{line: 2944, col: 10, offset: 93182},
+														pos:        position{line: 2946, col: 10, offset: 93249},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12273,28 +12273,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2966, col: 8, offset: 93580},
+												pos: position{line: 2968, col: 8, offset: 93647},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2953, col: 12, offset: 93353},
+														pos: position{line: 2955, col: 12, offset: 93420},
 														run: (*parser).callonBlockAttributes153,
 														expr: &choiceExpr{
-															pos: position{line: 2953, col: 13, offset: 93354},
+															pos: position{line: 2955, col: 13, offset: 93421},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2953, col: 13, offset: 93354},
+																	pos:        position{line: 2955, col: 13, offset: 93421},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2953, col: 20, offset: 93361},
+																	pos:        position{line: 2955, col: 20, offset: 93428},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2953, col: 29, offset: 93370},
+																	pos:        position{line: 2955, col: 29, offset: 93437},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12303,9 +12303,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2963, col: 8, offset: 93530},
+														pos: position{line: 2965, col: 8, offset: 93597},
 														expr: &anyMatcher{
-															line: 2963, col: 9, offset: 93531,
+															line: 2965, col: 9, offset: 93598,
 														},
 													},
 												},
@@ -12322,18 +12322,18 @@ var g = &grammar{
 																pos: position{line: 702, col: 14, offset: 22579},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2961, col: 11, offset: 93516},
+																		pos: position{line: 2963, col: 11, offset: 93583},
 																		expr: &anyMatcher{
-																			line: 2961, col: 13, offset: 93518,
+																			line: 2963, col: 13, offset: 93585,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 702, col: 21, offset: 22586},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93182},
+																			pos: position{line: 2946, col: 10, offset: 93249},
 																			run: (*parser).callonBlockAttributes167,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93182},
+																				pos:        position{line: 2946, col: 10, offset: 93249},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12342,28 +12342,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93580},
+																		pos: position{line: 2968, col: 8, offset: 93647},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonBlockAttributes170,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12372,9 +12372,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93530},
+																				pos: position{line: 2965, col: 8, offset: 93597},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93531,
+																					line: 2965, col: 9, offset: 93598,
 																				},
 																			},
 																		},
@@ -12383,36 +12383,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2538, col: 22, offset: 81742},
+															pos: position{line: 2540, col: 22, offset: 81809},
 															run: (*parser).callonBlockAttributes177,
 															expr: &seqExpr{
-																pos: position{line: 2538, col: 22, offset: 81742},
+																pos: position{line: 2540, col: 22, offset: 81809},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2543, col: 31, offset: 81992},
+																		pos:        position{line: 2545, col: 31, offset: 82059},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2543, col: 36, offset: 81997},
+																		pos: position{line: 2545, col: 36, offset: 82064},
 																		expr: &litMatcher{
-																			pos:        position{line: 2543, col: 37, offset: 81998},
+																			pos:        position{line: 2545, col: 37, offset: 82065},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2538, col: 49, offset: 81769},
+																		pos:   position{line: 2540, col: 49, offset: 81836},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2890, col: 13, offset: 91708},
+																			pos: position{line: 2892, col: 13, offset: 91775},
 																			run: (*parser).callonBlockAttributes183,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2890, col: 13, offset: 91708},
+																				pos: position{line: 2892, col: 13, offset: 91775},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2890, col: 13, offset: 91708},
+																					pos:        position{line: 2892, col: 13, offset: 91775},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12422,28 +12422,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93580},
+																		pos: position{line: 2968, col: 8, offset: 93647},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonBlockAttributes187,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12452,9 +12452,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93530},
+																				pos: position{line: 2965, col: 8, offset: 93597},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93531,
+																					line: 2965, col: 9, offset: 93598,
 																				},
 																			},
 																		},
@@ -12485,10 +12485,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 382, col: 44, offset: 11922},
 												expr: &actionExpr{
-													pos: position{line: 2944, col: 10, offset: 93182},
+													pos: position{line: 2946, col: 10, offset: 93249},
 													run: (*parser).callonBlockAttributes199,
 													expr: &charClassMatcher{
-														pos:        position{line: 2944, col: 10, offset: 93182},
+														pos:        position{line: 2946, col: 10, offset: 93249},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12497,28 +12497,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2966, col: 8, offset: 93580},
+												pos: position{line: 2968, col: 8, offset: 93647},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2953, col: 12, offset: 93353},
+														pos: position{line: 2955, col: 12, offset: 93420},
 														run: (*parser).callonBlockAttributes202,
 														expr: &choiceExpr{
-															pos: position{line: 2953, col: 13, offset: 93354},
+															pos: position{line: 2955, col: 13, offset: 93421},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2953, col: 13, offset: 93354},
+																	pos:        position{line: 2955, col: 13, offset: 93421},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2953, col: 20, offset: 93361},
+																	pos:        position{line: 2955, col: 20, offset: 93428},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2953, col: 29, offset: 93370},
+																	pos:        position{line: 2955, col: 29, offset: 93437},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12527,9 +12527,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2963, col: 8, offset: 93530},
+														pos: position{line: 2965, col: 8, offset: 93597},
 														expr: &anyMatcher{
-															line: 2963, col: 9, offset: 93531,
+															line: 2965, col: 9, offset: 93598,
 														},
 													},
 												},
@@ -12546,18 +12546,18 @@ var g = &grammar{
 																pos: position{line: 702, col: 14, offset: 22579},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2961, col: 11, offset: 93516},
+																		pos: position{line: 2963, col: 11, offset: 93583},
 																		expr: &anyMatcher{
-																			line: 2961, col: 13, offset: 93518,
+																			line: 2963, col: 13, offset: 93585,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 702, col: 21, offset: 22586},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93182},
+																			pos: position{line: 2946, col: 10, offset: 93249},
 																			run: (*parser).callonBlockAttributes216,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93182},
+																				pos:        position{line: 2946, col: 10, offset: 93249},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -12566,28 +12566,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93580},
+																		pos: position{line: 2968, col: 8, offset: 93647},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonBlockAttributes219,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12596,9 +12596,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93530},
+																				pos: position{line: 2965, col: 8, offset: 93597},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93531,
+																					line: 2965, col: 9, offset: 93598,
 																				},
 																			},
 																		},
@@ -12607,36 +12607,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2538, col: 22, offset: 81742},
+															pos: position{line: 2540, col: 22, offset: 81809},
 															run: (*parser).callonBlockAttributes226,
 															expr: &seqExpr{
-																pos: position{line: 2538, col: 22, offset: 81742},
+																pos: position{line: 2540, col: 22, offset: 81809},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2543, col: 31, offset: 81992},
+																		pos:        position{line: 2545, col: 31, offset: 82059},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2543, col: 36, offset: 81997},
+																		pos: position{line: 2545, col: 36, offset: 82064},
 																		expr: &litMatcher{
-																			pos:        position{line: 2543, col: 37, offset: 81998},
+																			pos:        position{line: 2545, col: 37, offset: 82065},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2538, col: 49, offset: 81769},
+																		pos:   position{line: 2540, col: 49, offset: 81836},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2890, col: 13, offset: 91708},
+																			pos: position{line: 2892, col: 13, offset: 91775},
 																			run: (*parser).callonBlockAttributes232,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2890, col: 13, offset: 91708},
+																				pos: position{line: 2892, col: 13, offset: 91775},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2890, col: 13, offset: 91708},
+																					pos:        position{line: 2892, col: 13, offset: 91775},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12646,28 +12646,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93580},
+																		pos: position{line: 2968, col: 8, offset: 93647},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonBlockAttributes236,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -12676,9 +12676,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93530},
+																				pos: position{line: 2965, col: 8, offset: 93597},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93531,
+																					line: 2965, col: 9, offset: 93598,
 																				},
 																			},
 																		},
@@ -12803,12 +12803,12 @@ var g = &grammar{
 											name: "TitlePassthrough",
 										},
 										&actionExpr{
-											pos: position{line: 2838, col: 14, offset: 90351},
+											pos: position{line: 2840, col: 14, offset: 90418},
 											run: (*parser).callonShortHandTitle10,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2838, col: 14, offset: 90351},
+												pos: position{line: 2840, col: 14, offset: 90418},
 												expr: &charClassMatcher{
-													pos:        position{line: 2838, col: 14, offset: 90351},
+													pos:        position{line: 2840, col: 14, offset: 90418},
 													val:        "[\\pL\\pN]",
 													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 													ignoreCase: false,
@@ -12817,10 +12817,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2944, col: 10, offset: 93182},
+											pos: position{line: 2946, col: 10, offset: 93249},
 											run: (*parser).callonShortHandTitle13,
 											expr: &charClassMatcher{
-												pos:        position{line: 2944, col: 10, offset: 93182},
+												pos:        position{line: 2946, col: 10, offset: 93249},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -12828,27 +12828,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2861, col: 5, offset: 90836},
+											pos: position{line: 2863, col: 5, offset: 90903},
 											run: (*parser).callonShortHandTitle15,
 											expr: &choiceExpr{
-												pos: position{line: 2862, col: 9, offset: 90846},
+												pos: position{line: 2864, col: 9, offset: 90913},
 												alternatives: []interface{}{
 													&charClassMatcher{
-														pos:        position{line: 2862, col: 10, offset: 90847},
+														pos:        position{line: 2864, col: 10, offset: 90914},
 														val:        "[.,;?)!/:\"\\@=-]",
 														chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 														ignoreCase: false,
 														inverted:   false,
 													},
 													&seqExpr{
-														pos: position{line: 2864, col: 13, offset: 90944},
+														pos: position{line: 2866, col: 13, offset: 91011},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2864, col: 13, offset: 90944},
+																pos: position{line: 2866, col: 13, offset: 91011},
 																run: (*parser).callonShortHandTitle19,
 															},
 															&litMatcher{
-																pos:        position{line: 2867, col: 13, offset: 91044},
+																pos:        position{line: 2869, col: 13, offset: 91111},
 																val:        "[",
 																ignoreCase: false,
 																want:       "\"[\"",
@@ -12856,20 +12856,20 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 2867, col: 19, offset: 91050},
+														pos:        position{line: 2869, col: 19, offset: 91117},
 														val:        "]",
 														ignoreCase: false,
 														want:       "\"]\"",
 													},
 													&seqExpr{
-														pos: position{line: 2870, col: 13, offset: 91088},
+														pos: position{line: 2872, col: 13, offset: 91155},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2870, col: 13, offset: 91088},
+																pos: position{line: 2872, col: 13, offset: 91155},
 																run: (*parser).callonShortHandTitle23,
 															},
 															&charClassMatcher{
-																pos:        position{line: 2873, col: 14, offset: 91181},
+																pos:        position{line: 2875, col: 14, offset: 91248},
 																val:        "[*_`#]",
 																chars:      []rune{'*', '_', '`', '#'},
 																ignoreCase: false,
@@ -12878,18 +12878,18 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2875, col: 12, offset: 91225},
+														pos: position{line: 2877, col: 12, offset: 91292},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2875, col: 12, offset: 91225},
+																pos:        position{line: 2877, col: 12, offset: 91292},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
 															},
 															&notExpr{
-																pos: position{line: 2875, col: 16, offset: 91229},
+																pos: position{line: 2877, col: 16, offset: 91296},
 																expr: &litMatcher{
-																	pos:        position{line: 2875, col: 17, offset: 91230},
+																	pos:        position{line: 2877, col: 17, offset: 91297},
 																	val:        "(",
 																	ignoreCase: false,
 																	want:       "\"(\"",
@@ -13225,10 +13225,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2883, col: 12, offset: 91490},
+											pos: position{line: 2885, col: 12, offset: 91557},
 											run: (*parser).callonShortHandTitle93,
 											expr: &charClassMatcher{
-												pos:        position{line: 2883, col: 12, offset: 91490},
+												pos:        position{line: 2885, col: 12, offset: 91557},
 												val:        "[^\\r\\n]",
 												chars:      []rune{'\r', '\n'},
 												ignoreCase: false,
@@ -13283,25 +13283,25 @@ var g = &grammar{
 														&notExpr{
 															pos: position{line: 442, col: 24, offset: 13639},
 															expr: &actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93353},
+																pos: position{line: 2955, col: 12, offset: 93420},
 																run: (*parser).callonTitlePassthrough12,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93354},
+																	pos: position{line: 2955, col: 13, offset: 93421},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93354},
+																			pos:        position{line: 2955, col: 13, offset: 93421},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93361},
+																			pos:        position{line: 2955, col: 20, offset: 93428},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93370},
+																			pos:        position{line: 2955, col: 29, offset: 93437},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -13350,25 +13350,25 @@ var g = &grammar{
 														&notExpr{
 															pos: position{line: 443, col: 22, offset: 13680},
 															expr: &actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93353},
+																pos: position{line: 2955, col: 12, offset: 93420},
 																run: (*parser).callonTitlePassthrough26,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93354},
+																	pos: position{line: 2955, col: 13, offset: 93421},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93354},
+																			pos:        position{line: 2955, col: 13, offset: 93421},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93361},
+																			pos:        position{line: 2955, col: 20, offset: 93428},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93370},
+																			pos:        position{line: 2955, col: 29, offset: 93437},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -13495,10 +13495,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1415, col: 12, offset: 45653},
 																				expr: &actionExpr{
-																					pos: position{line: 2944, col: 10, offset: 93182},
+																					pos: position{line: 2946, col: 10, offset: 93249},
 																					run: (*parser).callonTitlePassthrough58,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2944, col: 10, offset: 93182},
+																						pos:        position{line: 2946, col: 10, offset: 93249},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -13509,25 +13509,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1415, col: 19, offset: 45660},
 																				expr: &actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93353},
+																					pos: position{line: 2955, col: 12, offset: 93420},
 																					run: (*parser).callonTitlePassthrough61,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93354},
+																						pos: position{line: 2955, col: 13, offset: 93421},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93354},
+																								pos:        position{line: 2955, col: 13, offset: 93421},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93361},
+																								pos:        position{line: 2955, col: 20, offset: 93428},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93370},
+																								pos:        position{line: 2955, col: 29, offset: 93437},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -13600,10 +13600,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1401, col: 64, offset: 44772},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93182},
+																				pos: position{line: 2946, col: 10, offset: 93249},
 																				run: (*parser).callonTitlePassthrough80,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93182},
+																					pos:        position{line: 2946, col: 10, offset: 93249},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -13614,25 +13614,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1401, col: 71, offset: 44779},
 																			expr: &actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonTitlePassthrough83,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -13655,12 +13655,12 @@ var g = &grammar{
 																							pos: position{line: 1401, col: 86, offset: 44794},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2948, col: 11, offset: 93243},
+																									pos: position{line: 2950, col: 11, offset: 93310},
 																									run: (*parser).callonTitlePassthrough93,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2948, col: 11, offset: 93243},
+																										pos: position{line: 2950, col: 11, offset: 93310},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2948, col: 11, offset: 93243},
+																											pos:        position{line: 2950, col: 11, offset: 93310},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -13689,25 +13689,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1401, col: 151, offset: 44859},
 																						expr: &actionExpr{
-																							pos: position{line: 2953, col: 12, offset: 93353},
+																							pos: position{line: 2955, col: 12, offset: 93420},
 																							run: (*parser).callonTitlePassthrough100,
 																							expr: &choiceExpr{
-																								pos: position{line: 2953, col: 13, offset: 93354},
+																								pos: position{line: 2955, col: 13, offset: 93421},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 13, offset: 93354},
+																										pos:        position{line: 2955, col: 13, offset: 93421},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 20, offset: 93361},
+																										pos:        position{line: 2955, col: 20, offset: 93428},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 29, offset: 93370},
+																										pos:        position{line: 2955, col: 29, offset: 93437},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -13734,10 +13734,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1403, col: 12, offset: 45019},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93182},
+																				pos: position{line: 2946, col: 10, offset: 93249},
 																				run: (*parser).callonTitlePassthrough109,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93182},
+																					pos:        position{line: 2946, col: 10, offset: 93249},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -13748,25 +13748,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1403, col: 19, offset: 45026},
 																			expr: &actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonTitlePassthrough112,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -13802,7 +13802,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1397, col: 121, offset: 44595},
 													expr: &charClassMatcher{
-														pos:        position{line: 2834, col: 13, offset: 90277},
+														pos:        position{line: 2836, col: 13, offset: 90344},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -13986,10 +13986,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 485, col: 13, offset: 15405},
 										expr: &actionExpr{
-											pos: position{line: 2944, col: 10, offset: 93182},
+											pos: position{line: 2946, col: 10, offset: 93249},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2944, col: 10, offset: 93182},
+												pos:        position{line: 2946, col: 10, offset: 93249},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14521,10 +14521,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 537, col: 9, offset: 16987},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93182},
+														pos: position{line: 2946, col: 10, offset: 93249},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93182},
+															pos:        position{line: 2946, col: 10, offset: 93249},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -14585,10 +14585,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 543, col: 34, offset: 17130},
 														expr: &actionExpr{
-															pos: position{line: 2944, col: 10, offset: 93182},
+															pos: position{line: 2946, col: 10, offset: 93249},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 10, offset: 93182},
+																pos:        position{line: 2946, col: 10, offset: 93249},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -14628,10 +14628,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 548, col: 13, offset: 17294},
 												expr: &actionExpr{
-													pos: position{line: 2944, col: 10, offset: 93182},
+													pos: position{line: 2946, col: 10, offset: 93249},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2944, col: 10, offset: 93182},
+														pos:        position{line: 2946, col: 10, offset: 93249},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -14654,10 +14654,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 548, col: 26, offset: 17307},
 																expr: &actionExpr{
-																	pos: position{line: 2944, col: 10, offset: 93182},
+																	pos: position{line: 2946, col: 10, offset: 93249},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2944, col: 10, offset: 93182},
+																		pos:        position{line: 2946, col: 10, offset: 93249},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -14712,10 +14712,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 568, col: 22, offset: 17954},
 											expr: &actionExpr{
-												pos: position{line: 2944, col: 10, offset: 93182},
+												pos: position{line: 2946, col: 10, offset: 93249},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2944, col: 10, offset: 93182},
+													pos:        position{line: 2946, col: 10, offset: 93249},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14746,10 +14746,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 561, col: 9, offset: 17699},
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 10, offset: 93182},
+								pos: position{line: 2946, col: 10, offset: 93249},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2944, col: 10, offset: 93182},
+									pos:        position{line: 2946, col: 10, offset: 93249},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14779,10 +14779,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 562, col: 33, offset: 17739},
 										expr: &actionExpr{
-											pos: position{line: 2944, col: 10, offset: 93182},
+											pos: position{line: 2946, col: 10, offset: 93249},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2944, col: 10, offset: 93182},
+												pos:        position{line: 2946, col: 10, offset: 93249},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14837,10 +14837,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 578, col: 9, offset: 18171},
 											expr: &actionExpr{
-												pos: position{line: 2944, col: 10, offset: 93182},
+												pos: position{line: 2946, col: 10, offset: 93249},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2944, col: 10, offset: 93182},
+													pos:        position{line: 2946, col: 10, offset: 93249},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14919,12 +14919,12 @@ var g = &grammar{
 							pos: position{line: 591, col: 9, offset: 18488},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2838, col: 14, offset: 90351},
+									pos: position{line: 2840, col: 14, offset: 90418},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2838, col: 14, offset: 90351},
+										pos: position{line: 2840, col: 14, offset: 90418},
 										expr: &charClassMatcher{
-											pos:        position{line: 2838, col: 14, offset: 90351},
+											pos:        position{line: 2840, col: 14, offset: 90418},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14933,10 +14933,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2944, col: 10, offset: 93182},
+									pos: position{line: 2946, col: 10, offset: 93249},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2944, col: 10, offset: 93182},
+										pos:        position{line: 2946, col: 10, offset: 93249},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15393,10 +15393,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 614, col: 14, offset: 19335},
 											expr: &actionExpr{
-												pos: position{line: 2944, col: 10, offset: 93182},
+												pos: position{line: 2946, col: 10, offset: 93249},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2944, col: 10, offset: 93182},
+													pos:        position{line: 2946, col: 10, offset: 93249},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -15433,12 +15433,12 @@ var g = &grammar{
 							pos: position{line: 620, col: 9, offset: 19446},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2838, col: 14, offset: 90351},
+									pos: position{line: 2840, col: 14, offset: 90418},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2838, col: 14, offset: 90351},
+										pos: position{line: 2840, col: 14, offset: 90418},
 										expr: &charClassMatcher{
-											pos:        position{line: 2838, col: 14, offset: 90351},
+											pos:        position{line: 2840, col: 14, offset: 90418},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -15447,10 +15447,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2944, col: 10, offset: 93182},
+									pos: position{line: 2946, col: 10, offset: 93249},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2944, col: 10, offset: 93182},
+										pos:        position{line: 2946, col: 10, offset: 93249},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15877,10 +15877,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 644, col: 5, offset: 20409},
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 10, offset: 93182},
+								pos: position{line: 2946, col: 10, offset: 93249},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2944, col: 10, offset: 93182},
+									pos:        position{line: 2946, col: 10, offset: 93249},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -16270,10 +16270,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2944, col: 10, offset: 93182},
+											pos: position{line: 2946, col: 10, offset: 93249},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2944, col: 10, offset: 93182},
+												pos:        position{line: 2946, col: 10, offset: 93249},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -16324,12 +16324,12 @@ var g = &grammar{
 									pos:   position{line: 711, col: 32, offset: 22939},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2929, col: 7, offset: 92834},
+										pos: position{line: 2931, col: 7, offset: 92901},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2929, col: 7, offset: 92834},
+											pos: position{line: 2931, col: 7, offset: 92901},
 											expr: &charClassMatcher{
-												pos:        position{line: 2929, col: 7, offset: 92834},
+												pos:        position{line: 2931, col: 7, offset: 92901},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -16341,10 +16341,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 711, col: 40, offset: 22947},
 									expr: &actionExpr{
-										pos: position{line: 2944, col: 10, offset: 93182},
+										pos: position{line: 2946, col: 10, offset: 93249},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2944, col: 10, offset: 93182},
+											pos:        position{line: 2946, col: 10, offset: 93249},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -16537,12 +16537,12 @@ var g = &grammar{
 									pos:   position{line: 713, col: 14, offset: 23064},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2929, col: 7, offset: 92834},
+										pos: position{line: 2931, col: 7, offset: 92901},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2929, col: 7, offset: 92834},
+											pos: position{line: 2931, col: 7, offset: 92901},
 											expr: &charClassMatcher{
-												pos:        position{line: 2929, col: 7, offset: 92834},
+												pos:        position{line: 2931, col: 7, offset: 92901},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -16586,41 +16586,41 @@ var g = &grammar{
 							pos:   position{line: 717, col: 35, offset: 23177},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2898, col: 17, offset: 91845},
+								pos: position{line: 2900, col: 17, offset: 91912},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2898, col: 17, offset: 91845},
+									pos:   position{line: 2900, col: 17, offset: 91912},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2915, col: 5, offset: 92299},
+										pos: position{line: 2917, col: 5, offset: 92366},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2915, col: 5, offset: 92299},
+											pos:   position{line: 2917, col: 5, offset: 92366},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2915, col: 14, offset: 92308},
+												pos: position{line: 2917, col: 14, offset: 92375},
 												expr: &choiceExpr{
-													pos: position{line: 2916, col: 9, offset: 92318},
+													pos: position{line: 2918, col: 9, offset: 92385},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2916, col: 9, offset: 92318},
+															pos: position{line: 2918, col: 9, offset: 92385},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2916, col: 9, offset: 92318},
+																pos: position{line: 2918, col: 9, offset: 92385},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2916, col: 9, offset: 92318},
+																		pos: position{line: 2918, col: 9, offset: 92385},
 																		expr: &litMatcher{
-																			pos:        position{line: 2916, col: 10, offset: 92319},
+																			pos:        position{line: 2918, col: 10, offset: 92386},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2917, col: 9, offset: 92347},
+																		pos: position{line: 2919, col: 9, offset: 92414},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2917, col: 10, offset: 92348},
+																			pos:        position{line: 2919, col: 10, offset: 92415},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -16631,27 +16631,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2920, col: 11, offset: 92560},
+															pos: position{line: 2922, col: 11, offset: 92627},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2920, col: 11, offset: 92560},
+																	pos:        position{line: 2922, col: 11, offset: 92627},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2920, col: 19, offset: 92568},
+																	pos: position{line: 2922, col: 19, offset: 92635},
 																	expr: &seqExpr{
-																		pos: position{line: 2920, col: 21, offset: 92570},
+																		pos: position{line: 2922, col: 21, offset: 92637},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2920, col: 21, offset: 92570},
+																				pos: position{line: 2922, col: 21, offset: 92637},
 																				expr: &actionExpr{
-																					pos: position{line: 2944, col: 10, offset: 93182},
+																					pos: position{line: 2946, col: 10, offset: 93249},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2944, col: 10, offset: 93182},
+																						pos:        position{line: 2946, col: 10, offset: 93249},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -16660,11 +16660,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2920, col: 28, offset: 92577},
+																				pos: position{line: 2922, col: 28, offset: 92644},
 																				expr: &notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -17063,10 +17063,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2923, col: 11, offset: 92697},
+															pos: position{line: 2925, col: 11, offset: 92764},
 															run: (*parser).callonExternalCrossReference105,
 															expr: &litMatcher{
-																pos:        position{line: 2923, col: 11, offset: 92697},
+																pos:        position{line: 2925, col: 11, offset: 92764},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -17111,12 +17111,12 @@ var g = &grammar{
 							pos:   position{line: 1014, col: 11, offset: 31896},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2894, col: 14, offset: 91775},
+								pos: position{line: 2896, col: 14, offset: 91842},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2894, col: 14, offset: 91775},
+									pos: position{line: 2896, col: 14, offset: 91842},
 									expr: &charClassMatcher{
-										pos:        position{line: 2894, col: 14, offset: 91775},
+										pos:        position{line: 2896, col: 14, offset: 91842},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -17126,28 +17126,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2966, col: 8, offset: 93580},
+							pos: position{line: 2968, col: 8, offset: 93647},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2953, col: 12, offset: 93353},
+									pos: position{line: 2955, col: 12, offset: 93420},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2953, col: 13, offset: 93354},
+										pos: position{line: 2955, col: 13, offset: 93421},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2953, col: 13, offset: 93354},
+												pos:        position{line: 2955, col: 13, offset: 93421},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 20, offset: 93361},
+												pos:        position{line: 2955, col: 20, offset: 93428},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 29, offset: 93370},
+												pos:        position{line: 2955, col: 29, offset: 93437},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -17156,9 +17156,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2963, col: 8, offset: 93530},
+									pos: position{line: 2965, col: 8, offset: 93597},
 									expr: &anyMatcher{
-										line: 2963, col: 9, offset: 93531,
+										line: 2965, col: 9, offset: 93598,
 									},
 								},
 							},
@@ -17186,36 +17186,36 @@ var g = &grammar{
 								pos: position{line: 1129, col: 6, offset: 34898},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2538, col: 22, offset: 81742},
+										pos: position{line: 2540, col: 22, offset: 81809},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2538, col: 22, offset: 81742},
+											pos: position{line: 2540, col: 22, offset: 81809},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2543, col: 31, offset: 81992},
+													pos:        position{line: 2545, col: 31, offset: 82059},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2543, col: 36, offset: 81997},
+													pos: position{line: 2545, col: 36, offset: 82064},
 													expr: &litMatcher{
-														pos:        position{line: 2543, col: 37, offset: 81998},
+														pos:        position{line: 2545, col: 37, offset: 82065},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2538, col: 49, offset: 81769},
+													pos:   position{line: 2540, col: 49, offset: 81836},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2890, col: 13, offset: 91708},
+														pos: position{line: 2892, col: 13, offset: 91775},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2890, col: 13, offset: 91708},
+															pos: position{line: 2892, col: 13, offset: 91775},
 															expr: &charClassMatcher{
-																pos:        position{line: 2890, col: 13, offset: 91708},
+																pos:        position{line: 2892, col: 13, offset: 91775},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17225,28 +17225,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2966, col: 8, offset: 93580},
+													pos: position{line: 2968, col: 8, offset: 93647},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93353},
+															pos: position{line: 2955, col: 12, offset: 93420},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93354},
+																pos: position{line: 2955, col: 13, offset: 93421},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93354},
+																		pos:        position{line: 2955, col: 13, offset: 93421},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93361},
+																		pos:        position{line: 2955, col: 20, offset: 93428},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93370},
+																		pos:        position{line: 2955, col: 29, offset: 93437},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17255,9 +17255,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93530},
+															pos: position{line: 2965, col: 8, offset: 93597},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93531,
+																line: 2965, col: 9, offset: 93598,
 															},
 														},
 													},
@@ -17308,10 +17308,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 767, col: 8, offset: 24776},
 																expr: &actionExpr{
-																	pos: position{line: 2944, col: 10, offset: 93182},
+																	pos: position{line: 2946, col: 10, offset: 93249},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2944, col: 10, offset: 93182},
+																		pos:        position{line: 2946, col: 10, offset: 93249},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17320,28 +17320,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2966, col: 8, offset: 93580},
+																pos: position{line: 2968, col: 8, offset: 93647},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2953, col: 12, offset: 93353},
+																		pos: position{line: 2955, col: 12, offset: 93420},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2953, col: 13, offset: 93354},
+																			pos: position{line: 2955, col: 13, offset: 93421},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 13, offset: 93354},
+																					pos:        position{line: 2955, col: 13, offset: 93421},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 20, offset: 93361},
+																					pos:        position{line: 2955, col: 20, offset: 93428},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 29, offset: 93370},
+																					pos:        position{line: 2955, col: 29, offset: 93437},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17350,9 +17350,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93530},
+																		pos: position{line: 2965, col: 8, offset: 93597},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93531,
+																			line: 2965, col: 9, offset: 93598,
 																		},
 																	},
 																},
@@ -17413,10 +17413,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 767, col: 8, offset: 24776},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93182},
+																									pos: position{line: 2946, col: 10, offset: 93249},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93182},
+																										pos:        position{line: 2946, col: 10, offset: 93249},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17425,28 +17425,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2966, col: 8, offset: 93580},
+																								pos: position{line: 2968, col: 8, offset: 93647},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2953, col: 12, offset: 93353},
+																										pos: position{line: 2955, col: 12, offset: 93420},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2953, col: 13, offset: 93354},
+																											pos: position{line: 2955, col: 13, offset: 93421},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 13, offset: 93354},
+																													pos:        position{line: 2955, col: 13, offset: 93421},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 20, offset: 93361},
+																													pos:        position{line: 2955, col: 20, offset: 93428},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 29, offset: 93370},
+																													pos:        position{line: 2955, col: 29, offset: 93437},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17455,9 +17455,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93530},
+																										pos: position{line: 2965, col: 8, offset: 93597},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93531,
+																											line: 2965, col: 9, offset: 93598,
 																										},
 																									},
 																								},
@@ -17466,9 +17466,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -17484,21 +17484,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27178},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2961, col: 11, offset: 93516},
+																						pos: position{line: 2963, col: 11, offset: 93583},
 																						expr: &anyMatcher{
-																							line: 2961, col: 13, offset: 93518,
+																							line: 2963, col: 13, offset: 93585,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27253},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 13, offset: 91708},
+																							pos: position{line: 2892, col: 13, offset: 91775},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2890, col: 13, offset: 91708},
+																								pos: position{line: 2892, col: 13, offset: 91775},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91708},
+																									pos:        position{line: 2892, col: 13, offset: 91775},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17508,28 +17508,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93580},
+																						pos: position{line: 2968, col: 8, offset: 93647},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93353},
+																								pos: position{line: 2955, col: 12, offset: 93420},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93354},
+																									pos: position{line: 2955, col: 13, offset: 93421},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93354},
+																											pos:        position{line: 2955, col: 13, offset: 93421},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93361},
+																											pos:        position{line: 2955, col: 20, offset: 93428},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93370},
+																											pos:        position{line: 2955, col: 29, offset: 93437},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17538,9 +17538,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93530},
+																								pos: position{line: 2965, col: 8, offset: 93597},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93531,
+																									line: 2965, col: 9, offset: 93598,
 																								},
 																							},
 																						},
@@ -17596,10 +17596,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 767, col: 8, offset: 24776},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93182},
+																				pos: position{line: 2946, col: 10, offset: 93249},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93182},
+																					pos:        position{line: 2946, col: 10, offset: 93249},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -17608,28 +17608,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93580},
+																			pos: position{line: 2968, col: 8, offset: 93647},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93353},
+																					pos: position{line: 2955, col: 12, offset: 93420},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93354},
+																						pos: position{line: 2955, col: 13, offset: 93421},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93354},
+																								pos:        position{line: 2955, col: 13, offset: 93421},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93361},
+																								pos:        position{line: 2955, col: 20, offset: 93428},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93370},
+																								pos:        position{line: 2955, col: 29, offset: 93437},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -17638,9 +17638,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -17649,9 +17649,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93530},
+																pos: position{line: 2965, col: 8, offset: 93597},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93531,
+																	line: 2965, col: 9, offset: 93598,
 																},
 															},
 														},
@@ -17677,36 +17677,36 @@ var g = &grammar{
 								pos: position{line: 1131, col: 6, offset: 35021},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2538, col: 22, offset: 81742},
+										pos: position{line: 2540, col: 22, offset: 81809},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2538, col: 22, offset: 81742},
+											pos: position{line: 2540, col: 22, offset: 81809},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2543, col: 31, offset: 81992},
+													pos:        position{line: 2545, col: 31, offset: 82059},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2543, col: 36, offset: 81997},
+													pos: position{line: 2545, col: 36, offset: 82064},
 													expr: &litMatcher{
-														pos:        position{line: 2543, col: 37, offset: 81998},
+														pos:        position{line: 2545, col: 37, offset: 82065},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2538, col: 49, offset: 81769},
+													pos:   position{line: 2540, col: 49, offset: 81836},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2890, col: 13, offset: 91708},
+														pos: position{line: 2892, col: 13, offset: 91775},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2890, col: 13, offset: 91708},
+															pos: position{line: 2892, col: 13, offset: 91775},
 															expr: &charClassMatcher{
-																pos:        position{line: 2890, col: 13, offset: 91708},
+																pos:        position{line: 2892, col: 13, offset: 91775},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17716,28 +17716,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2966, col: 8, offset: 93580},
+													pos: position{line: 2968, col: 8, offset: 93647},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93353},
+															pos: position{line: 2955, col: 12, offset: 93420},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93354},
+																pos: position{line: 2955, col: 13, offset: 93421},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93354},
+																		pos:        position{line: 2955, col: 13, offset: 93421},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93361},
+																		pos:        position{line: 2955, col: 20, offset: 93428},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93370},
+																		pos:        position{line: 2955, col: 29, offset: 93437},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17746,9 +17746,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93530},
+															pos: position{line: 2965, col: 8, offset: 93597},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93531,
+																line: 2965, col: 9, offset: 93598,
 															},
 														},
 													},
@@ -17799,10 +17799,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 767, col: 8, offset: 24776},
 																expr: &actionExpr{
-																	pos: position{line: 2944, col: 10, offset: 93182},
+																	pos: position{line: 2946, col: 10, offset: 93249},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2944, col: 10, offset: 93182},
+																		pos:        position{line: 2946, col: 10, offset: 93249},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17811,28 +17811,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2966, col: 8, offset: 93580},
+																pos: position{line: 2968, col: 8, offset: 93647},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2953, col: 12, offset: 93353},
+																		pos: position{line: 2955, col: 12, offset: 93420},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2953, col: 13, offset: 93354},
+																			pos: position{line: 2955, col: 13, offset: 93421},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 13, offset: 93354},
+																					pos:        position{line: 2955, col: 13, offset: 93421},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 20, offset: 93361},
+																					pos:        position{line: 2955, col: 20, offset: 93428},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 29, offset: 93370},
+																					pos:        position{line: 2955, col: 29, offset: 93437},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17841,9 +17841,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93530},
+																		pos: position{line: 2965, col: 8, offset: 93597},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93531,
+																			line: 2965, col: 9, offset: 93598,
 																		},
 																	},
 																},
@@ -17904,10 +17904,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 767, col: 8, offset: 24776},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93182},
+																									pos: position{line: 2946, col: 10, offset: 93249},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93182},
+																										pos:        position{line: 2946, col: 10, offset: 93249},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17916,28 +17916,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2966, col: 8, offset: 93580},
+																								pos: position{line: 2968, col: 8, offset: 93647},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2953, col: 12, offset: 93353},
+																										pos: position{line: 2955, col: 12, offset: 93420},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2953, col: 13, offset: 93354},
+																											pos: position{line: 2955, col: 13, offset: 93421},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 13, offset: 93354},
+																													pos:        position{line: 2955, col: 13, offset: 93421},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 20, offset: 93361},
+																													pos:        position{line: 2955, col: 20, offset: 93428},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 29, offset: 93370},
+																													pos:        position{line: 2955, col: 29, offset: 93437},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17946,9 +17946,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93530},
+																										pos: position{line: 2965, col: 8, offset: 93597},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93531,
+																											line: 2965, col: 9, offset: 93598,
 																										},
 																									},
 																								},
@@ -17957,9 +17957,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -17975,21 +17975,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27178},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2961, col: 11, offset: 93516},
+																						pos: position{line: 2963, col: 11, offset: 93583},
 																						expr: &anyMatcher{
-																							line: 2961, col: 13, offset: 93518,
+																							line: 2963, col: 13, offset: 93585,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27253},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 13, offset: 91708},
+																							pos: position{line: 2892, col: 13, offset: 91775},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2890, col: 13, offset: 91708},
+																								pos: position{line: 2892, col: 13, offset: 91775},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91708},
+																									pos:        position{line: 2892, col: 13, offset: 91775},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17999,28 +17999,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93580},
+																						pos: position{line: 2968, col: 8, offset: 93647},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93353},
+																								pos: position{line: 2955, col: 12, offset: 93420},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93354},
+																									pos: position{line: 2955, col: 13, offset: 93421},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93354},
+																											pos:        position{line: 2955, col: 13, offset: 93421},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93361},
+																											pos:        position{line: 2955, col: 20, offset: 93428},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93370},
+																											pos:        position{line: 2955, col: 29, offset: 93437},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -18029,9 +18029,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93530},
+																								pos: position{line: 2965, col: 8, offset: 93597},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93531,
+																									line: 2965, col: 9, offset: 93598,
 																								},
 																							},
 																						},
@@ -18087,10 +18087,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 767, col: 8, offset: 24776},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93182},
+																				pos: position{line: 2946, col: 10, offset: 93249},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93182},
+																					pos:        position{line: 2946, col: 10, offset: 93249},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -18099,28 +18099,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93580},
+																			pos: position{line: 2968, col: 8, offset: 93647},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93353},
+																					pos: position{line: 2955, col: 12, offset: 93420},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93354},
+																						pos: position{line: 2955, col: 13, offset: 93421},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93354},
+																								pos:        position{line: 2955, col: 13, offset: 93421},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93361},
+																								pos:        position{line: 2955, col: 20, offset: 93428},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93370},
+																								pos:        position{line: 2955, col: 29, offset: 93437},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -18129,9 +18129,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -18140,9 +18140,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93530},
+																pos: position{line: 2965, col: 8, offset: 93597},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93531,
+																	line: 2965, col: 9, offset: 93598,
 																},
 															},
 														},
@@ -18186,10 +18186,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1150, col: 20, offset: 35776},
 																expr: &actionExpr{
-																	pos: position{line: 2944, col: 10, offset: 93182},
+																	pos: position{line: 2946, col: 10, offset: 93249},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2944, col: 10, offset: 93182},
+																		pos:        position{line: 2946, col: 10, offset: 93249},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -18240,10 +18240,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1169, col: 5, offset: 36381},
 																										expr: &actionExpr{
-																											pos: position{line: 2944, col: 10, offset: 93182},
+																											pos: position{line: 2946, col: 10, offset: 93249},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2944, col: 10, offset: 93182},
+																												pos:        position{line: 2946, col: 10, offset: 93249},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -18275,10 +18275,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1173, col: 5, offset: 36480},
 																										expr: &actionExpr{
-																											pos: position{line: 2944, col: 10, offset: 93182},
+																											pos: position{line: 2946, col: 10, offset: 93249},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2944, col: 10, offset: 93182},
+																												pos:        position{line: 2946, col: 10, offset: 93249},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -18310,10 +18310,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1177, col: 5, offset: 36577},
 																										expr: &actionExpr{
-																											pos: position{line: 2944, col: 10, offset: 93182},
+																											pos: position{line: 2946, col: 10, offset: 93249},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2944, col: 10, offset: 93182},
+																												pos:        position{line: 2946, col: 10, offset: 93249},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -18338,9 +18338,9 @@ var g = &grammar{
 																								pos: position{line: 1183, col: 5, offset: 36699},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2961, col: 11, offset: 93516},
+																										pos: position{line: 2963, col: 11, offset: 93583},
 																										expr: &anyMatcher{
-																											line: 2961, col: 13, offset: 93518,
+																											line: 2963, col: 13, offset: 93585,
 																										},
 																									},
 																									&litMatcher{
@@ -18381,10 +18381,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1155, col: 69, offset: 35969},
 																					expr: &actionExpr{
-																						pos: position{line: 2944, col: 10, offset: 93182},
+																						pos: position{line: 2946, col: 10, offset: 93249},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2944, col: 10, offset: 93182},
+																							pos:        position{line: 2946, col: 10, offset: 93249},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18404,10 +18404,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1155, col: 81, offset: 35981},
 																					expr: &actionExpr{
-																						pos: position{line: 2944, col: 10, offset: 93182},
+																						pos: position{line: 2946, col: 10, offset: 93249},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2944, col: 10, offset: 93182},
+																							pos:        position{line: 2946, col: 10, offset: 93249},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18425,28 +18425,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2966, col: 8, offset: 93580},
+																pos: position{line: 2968, col: 8, offset: 93647},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2953, col: 12, offset: 93353},
+																		pos: position{line: 2955, col: 12, offset: 93420},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2953, col: 13, offset: 93354},
+																			pos: position{line: 2955, col: 13, offset: 93421},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 13, offset: 93354},
+																					pos:        position{line: 2955, col: 13, offset: 93421},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 20, offset: 93361},
+																					pos:        position{line: 2955, col: 20, offset: 93428},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 29, offset: 93370},
+																					pos:        position{line: 2955, col: 29, offset: 93437},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -18455,9 +18455,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93530},
+																		pos: position{line: 2965, col: 8, offset: 93597},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93531,
+																			line: 2965, col: 9, offset: 93598,
 																		},
 																	},
 																},
@@ -18472,36 +18472,36 @@ var g = &grammar{
 													pos: position{line: 1145, col: 6, offset: 35551},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2538, col: 22, offset: 81742},
+															pos: position{line: 2540, col: 22, offset: 81809},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2538, col: 22, offset: 81742},
+																pos: position{line: 2540, col: 22, offset: 81809},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2543, col: 31, offset: 81992},
+																		pos:        position{line: 2545, col: 31, offset: 82059},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2543, col: 36, offset: 81997},
+																		pos: position{line: 2545, col: 36, offset: 82064},
 																		expr: &litMatcher{
-																			pos:        position{line: 2543, col: 37, offset: 81998},
+																			pos:        position{line: 2545, col: 37, offset: 82065},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2538, col: 49, offset: 81769},
+																		pos:   position{line: 2540, col: 49, offset: 81836},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2890, col: 13, offset: 91708},
+																			pos: position{line: 2892, col: 13, offset: 91775},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2890, col: 13, offset: 91708},
+																				pos: position{line: 2892, col: 13, offset: 91775},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2890, col: 13, offset: 91708},
+																					pos:        position{line: 2892, col: 13, offset: 91775},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -18511,28 +18511,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93580},
+																		pos: position{line: 2968, col: 8, offset: 93647},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18541,9 +18541,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93530},
+																				pos: position{line: 2965, col: 8, offset: 93597},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93531,
+																					line: 2965, col: 9, offset: 93598,
 																				},
 																			},
 																		},
@@ -18594,10 +18594,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 767, col: 8, offset: 24776},
 																					expr: &actionExpr{
-																						pos: position{line: 2944, col: 10, offset: 93182},
+																						pos: position{line: 2946, col: 10, offset: 93249},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2944, col: 10, offset: 93182},
+																							pos:        position{line: 2946, col: 10, offset: 93249},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18606,28 +18606,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2966, col: 8, offset: 93580},
+																					pos: position{line: 2968, col: 8, offset: 93647},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2953, col: 12, offset: 93353},
+																							pos: position{line: 2955, col: 12, offset: 93420},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2953, col: 13, offset: 93354},
+																								pos: position{line: 2955, col: 13, offset: 93421},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 13, offset: 93354},
+																										pos:        position{line: 2955, col: 13, offset: 93421},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 20, offset: 93361},
+																										pos:        position{line: 2955, col: 20, offset: 93428},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 29, offset: 93370},
+																										pos:        position{line: 2955, col: 29, offset: 93437},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -18636,9 +18636,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93530},
+																							pos: position{line: 2965, col: 8, offset: 93597},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93531,
+																								line: 2965, col: 9, offset: 93598,
 																							},
 																						},
 																					},
@@ -18699,10 +18699,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 767, col: 8, offset: 24776},
 																													expr: &actionExpr{
-																														pos: position{line: 2944, col: 10, offset: 93182},
+																														pos: position{line: 2946, col: 10, offset: 93249},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2944, col: 10, offset: 93182},
+																															pos:        position{line: 2946, col: 10, offset: 93249},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18711,28 +18711,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2966, col: 8, offset: 93580},
+																													pos: position{line: 2968, col: 8, offset: 93647},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2953, col: 12, offset: 93353},
+																															pos: position{line: 2955, col: 12, offset: 93420},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2953, col: 13, offset: 93354},
+																																pos: position{line: 2955, col: 13, offset: 93421},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2953, col: 13, offset: 93354},
+																																		pos:        position{line: 2955, col: 13, offset: 93421},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2953, col: 20, offset: 93361},
+																																		pos:        position{line: 2955, col: 20, offset: 93428},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2953, col: 29, offset: 93370},
+																																		pos:        position{line: 2955, col: 29, offset: 93437},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -18741,9 +18741,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2963, col: 8, offset: 93530},
+																															pos: position{line: 2965, col: 8, offset: 93597},
 																															expr: &anyMatcher{
-																																line: 2963, col: 9, offset: 93531,
+																																line: 2965, col: 9, offset: 93598,
 																															},
 																														},
 																													},
@@ -18752,9 +18752,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93530},
+																										pos: position{line: 2965, col: 8, offset: 93597},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93531,
+																											line: 2965, col: 9, offset: 93598,
 																										},
 																									},
 																								},
@@ -18770,21 +18770,21 @@ var g = &grammar{
 																									pos: position{line: 836, col: 5, offset: 27178},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2961, col: 11, offset: 93516},
+																											pos: position{line: 2963, col: 11, offset: 93583},
 																											expr: &anyMatcher{
-																												line: 2961, col: 13, offset: 93518,
+																												line: 2963, col: 13, offset: 93585,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 837, col: 5, offset: 27253},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2890, col: 13, offset: 91708},
+																												pos: position{line: 2892, col: 13, offset: 91775},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2890, col: 13, offset: 91708},
+																													pos: position{line: 2892, col: 13, offset: 91775},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2890, col: 13, offset: 91708},
+																														pos:        position{line: 2892, col: 13, offset: 91775},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18794,28 +18794,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93580},
+																											pos: position{line: 2968, col: 8, offset: 93647},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93353},
+																													pos: position{line: 2955, col: 12, offset: 93420},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93354},
+																														pos: position{line: 2955, col: 13, offset: 93421},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93354},
+																																pos:        position{line: 2955, col: 13, offset: 93421},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93361},
+																																pos:        position{line: 2955, col: 20, offset: 93428},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93370},
+																																pos:        position{line: 2955, col: 29, offset: 93437},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18824,9 +18824,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93530},
+																													pos: position{line: 2965, col: 8, offset: 93597},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93531,
+																														line: 2965, col: 9, offset: 93598,
 																													},
 																												},
 																											},
@@ -18882,10 +18882,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 767, col: 8, offset: 24776},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93182},
+																									pos: position{line: 2946, col: 10, offset: 93249},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93182},
+																										pos:        position{line: 2946, col: 10, offset: 93249},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -18894,28 +18894,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2966, col: 8, offset: 93580},
+																								pos: position{line: 2968, col: 8, offset: 93647},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2953, col: 12, offset: 93353},
+																										pos: position{line: 2955, col: 12, offset: 93420},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2953, col: 13, offset: 93354},
+																											pos: position{line: 2955, col: 13, offset: 93421},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 13, offset: 93354},
+																													pos:        position{line: 2955, col: 13, offset: 93421},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 20, offset: 93361},
+																													pos:        position{line: 2955, col: 20, offset: 93428},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 29, offset: 93370},
+																													pos:        position{line: 2955, col: 29, offset: 93437},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -18924,9 +18924,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93530},
+																										pos: position{line: 2965, col: 8, offset: 93597},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93531,
+																											line: 2965, col: 9, offset: 93598,
 																										},
 																									},
 																								},
@@ -18935,9 +18935,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -18963,10 +18963,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1194, col: 21, offset: 36977},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93182},
+																		pos: position{line: 2946, col: 10, offset: 93249},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93182},
+																			pos:        position{line: 2946, col: 10, offset: 93249},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -19068,10 +19068,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1206, col: 28, offset: 37608},
 																													expr: &actionExpr{
-																														pos: position{line: 2944, col: 10, offset: 93182},
+																														pos: position{line: 2946, col: 10, offset: 93249},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2944, col: 10, offset: 93182},
+																															pos:        position{line: 2946, col: 10, offset: 93249},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -19218,28 +19218,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93580},
+																	pos: position{line: 2968, col: 8, offset: 93647},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93353},
+																			pos: position{line: 2955, col: 12, offset: 93420},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93354},
+																				pos: position{line: 2955, col: 13, offset: 93421},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93354},
+																						pos:        position{line: 2955, col: 13, offset: 93421},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93361},
+																						pos:        position{line: 2955, col: 20, offset: 93428},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93370},
+																						pos:        position{line: 2955, col: 29, offset: 93437},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -19248,9 +19248,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93530},
+																			pos: position{line: 2965, col: 8, offset: 93597},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93531,
+																				line: 2965, col: 9, offset: 93598,
 																			},
 																		},
 																	},
@@ -19330,10 +19330,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 49, offset: 11042},
 														expr: &actionExpr{
-															pos: position{line: 2944, col: 10, offset: 93182},
+															pos: position{line: 2946, col: 10, offset: 93249},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 10, offset: 93182},
+																pos:        position{line: 2946, col: 10, offset: 93249},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19342,28 +19342,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2966, col: 8, offset: 93580},
+														pos: position{line: 2968, col: 8, offset: 93647},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93353},
+																pos: position{line: 2955, col: 12, offset: 93420},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93354},
+																	pos: position{line: 2955, col: 13, offset: 93421},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93354},
+																			pos:        position{line: 2955, col: 13, offset: 93421},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93361},
+																			pos:        position{line: 2955, col: 20, offset: 93428},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93370},
+																			pos:        position{line: 2955, col: 29, offset: 93437},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19372,9 +19372,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93530},
+																pos: position{line: 2965, col: 8, offset: 93597},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93531,
+																	line: 2965, col: 9, offset: 93598,
 																},
 															},
 														},
@@ -19435,10 +19435,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 364, col: 39, offset: 11163},
 														expr: &actionExpr{
-															pos: position{line: 2944, col: 10, offset: 93182},
+															pos: position{line: 2946, col: 10, offset: 93249},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 10, offset: 93182},
+																pos:        position{line: 2946, col: 10, offset: 93249},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19447,28 +19447,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2966, col: 8, offset: 93580},
+														pos: position{line: 2968, col: 8, offset: 93647},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93353},
+																pos: position{line: 2955, col: 12, offset: 93420},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93354},
+																	pos: position{line: 2955, col: 13, offset: 93421},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93354},
+																			pos:        position{line: 2955, col: 13, offset: 93421},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93361},
+																			pos:        position{line: 2955, col: 20, offset: 93428},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93370},
+																			pos:        position{line: 2955, col: 29, offset: 93437},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19477,9 +19477,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93530},
+																pos: position{line: 2965, col: 8, offset: 93597},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93531,
+																	line: 2965, col: 9, offset: 93598,
 																},
 															},
 														},
@@ -19488,36 +19488,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2538, col: 22, offset: 81742},
+											pos: position{line: 2540, col: 22, offset: 81809},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2538, col: 22, offset: 81742},
+												pos: position{line: 2540, col: 22, offset: 81809},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2543, col: 31, offset: 81992},
+														pos:        position{line: 2545, col: 31, offset: 82059},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2543, col: 36, offset: 81997},
+														pos: position{line: 2545, col: 36, offset: 82064},
 														expr: &litMatcher{
-															pos:        position{line: 2543, col: 37, offset: 81998},
+															pos:        position{line: 2545, col: 37, offset: 82065},
 															val:        "/",
 															ignoreCase: false,
 															want:       "\"/\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2538, col: 49, offset: 81769},
+														pos:   position{line: 2540, col: 49, offset: 81836},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2890, col: 13, offset: 91708},
+															pos: position{line: 2892, col: 13, offset: 91775},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2890, col: 13, offset: 91708},
+																pos: position{line: 2892, col: 13, offset: 91775},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2890, col: 13, offset: 91708},
+																	pos:        position{line: 2892, col: 13, offset: 91775},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -19527,28 +19527,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2966, col: 8, offset: 93580},
+														pos: position{line: 2968, col: 8, offset: 93647},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93353},
+																pos: position{line: 2955, col: 12, offset: 93420},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93354},
+																	pos: position{line: 2955, col: 13, offset: 93421},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93354},
+																			pos:        position{line: 2955, col: 13, offset: 93421},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93361},
+																			pos:        position{line: 2955, col: 20, offset: 93428},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93370},
+																			pos:        position{line: 2955, col: 29, offset: 93437},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19557,9 +19557,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93530},
+																pos: position{line: 2965, col: 8, offset: 93597},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93531,
+																	line: 2965, col: 9, offset: 93598,
 																},
 															},
 														},
@@ -19610,10 +19610,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 767, col: 8, offset: 24776},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93182},
+																		pos: position{line: 2946, col: 10, offset: 93249},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93182},
+																			pos:        position{line: 2946, col: 10, offset: 93249},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -19622,28 +19622,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93580},
+																	pos: position{line: 2968, col: 8, offset: 93647},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93353},
+																			pos: position{line: 2955, col: 12, offset: 93420},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93354},
+																				pos: position{line: 2955, col: 13, offset: 93421},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93354},
+																						pos:        position{line: 2955, col: 13, offset: 93421},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93361},
+																						pos:        position{line: 2955, col: 20, offset: 93428},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93370},
+																						pos:        position{line: 2955, col: 29, offset: 93437},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -19652,9 +19652,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93530},
+																			pos: position{line: 2965, col: 8, offset: 93597},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93531,
+																				line: 2965, col: 9, offset: 93598,
 																			},
 																		},
 																	},
@@ -19715,10 +19715,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 767, col: 8, offset: 24776},
 																									expr: &actionExpr{
-																										pos: position{line: 2944, col: 10, offset: 93182},
+																										pos: position{line: 2946, col: 10, offset: 93249},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2944, col: 10, offset: 93182},
+																											pos:        position{line: 2946, col: 10, offset: 93249},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -19727,28 +19727,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2966, col: 8, offset: 93580},
+																									pos: position{line: 2968, col: 8, offset: 93647},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2953, col: 12, offset: 93353},
+																											pos: position{line: 2955, col: 12, offset: 93420},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2953, col: 13, offset: 93354},
+																												pos: position{line: 2955, col: 13, offset: 93421},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 13, offset: 93354},
+																														pos:        position{line: 2955, col: 13, offset: 93421},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 20, offset: 93361},
+																														pos:        position{line: 2955, col: 20, offset: 93428},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 29, offset: 93370},
+																														pos:        position{line: 2955, col: 29, offset: 93437},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -19757,9 +19757,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2963, col: 8, offset: 93530},
+																											pos: position{line: 2965, col: 8, offset: 93597},
 																											expr: &anyMatcher{
-																												line: 2963, col: 9, offset: 93531,
+																												line: 2965, col: 9, offset: 93598,
 																											},
 																										},
 																									},
@@ -19768,9 +19768,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93530},
+																						pos: position{line: 2965, col: 8, offset: 93597},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93531,
+																							line: 2965, col: 9, offset: 93598,
 																						},
 																					},
 																				},
@@ -19786,21 +19786,21 @@ var g = &grammar{
 																					pos: position{line: 836, col: 5, offset: 27178},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2961, col: 11, offset: 93516},
+																							pos: position{line: 2963, col: 11, offset: 93583},
 																							expr: &anyMatcher{
-																								line: 2961, col: 13, offset: 93518,
+																								line: 2963, col: 13, offset: 93585,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 837, col: 5, offset: 27253},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2890, col: 13, offset: 91708},
+																								pos: position{line: 2892, col: 13, offset: 91775},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2890, col: 13, offset: 91708},
+																									pos: position{line: 2892, col: 13, offset: 91775},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91708},
+																										pos:        position{line: 2892, col: 13, offset: 91775},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19810,28 +19810,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19840,9 +19840,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -19898,10 +19898,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 767, col: 8, offset: 24776},
 																				expr: &actionExpr{
-																					pos: position{line: 2944, col: 10, offset: 93182},
+																					pos: position{line: 2946, col: 10, offset: 93249},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2944, col: 10, offset: 93182},
+																						pos:        position{line: 2946, col: 10, offset: 93249},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -19910,28 +19910,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2966, col: 8, offset: 93580},
+																				pos: position{line: 2968, col: 8, offset: 93647},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2953, col: 12, offset: 93353},
+																						pos: position{line: 2955, col: 12, offset: 93420},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2953, col: 13, offset: 93354},
+																							pos: position{line: 2955, col: 13, offset: 93421},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 13, offset: 93354},
+																									pos:        position{line: 2955, col: 13, offset: 93421},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 20, offset: 93361},
+																									pos:        position{line: 2955, col: 20, offset: 93428},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 29, offset: 93370},
+																									pos:        position{line: 2955, col: 29, offset: 93437},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -19940,9 +19940,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93530},
+																						pos: position{line: 2965, col: 8, offset: 93597},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93531,
+																							line: 2965, col: 9, offset: 93598,
 																						},
 																					},
 																				},
@@ -19951,9 +19951,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2963, col: 8, offset: 93530},
+																	pos: position{line: 2965, col: 8, offset: 93597},
 																	expr: &anyMatcher{
-																		line: 2963, col: 9, offset: 93531,
+																		line: 2965, col: 9, offset: 93598,
 																	},
 																},
 															},
@@ -19986,12 +19986,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2948, col: 11, offset: 93243},
+							pos: position{line: 2950, col: 11, offset: 93310},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2948, col: 11, offset: 93243},
+								pos: position{line: 2950, col: 11, offset: 93310},
 								expr: &charClassMatcher{
-									pos:        position{line: 2948, col: 11, offset: 93243},
+									pos:        position{line: 2950, col: 11, offset: 93310},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20008,28 +20008,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2966, col: 8, offset: 93580},
+							pos: position{line: 2968, col: 8, offset: 93647},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2953, col: 12, offset: 93353},
+									pos: position{line: 2955, col: 12, offset: 93420},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2953, col: 13, offset: 93354},
+										pos: position{line: 2955, col: 13, offset: 93421},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2953, col: 13, offset: 93354},
+												pos:        position{line: 2955, col: 13, offset: 93421},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 20, offset: 93361},
+												pos:        position{line: 2955, col: 20, offset: 93428},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 29, offset: 93370},
+												pos:        position{line: 2955, col: 29, offset: 93437},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20038,9 +20038,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2963, col: 8, offset: 93530},
+									pos: position{line: 2965, col: 8, offset: 93597},
 									expr: &anyMatcher{
-										line: 2963, col: 9, offset: 93531,
+										line: 2965, col: 9, offset: 93598,
 									},
 								},
 							},
@@ -20079,10 +20079,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1169, col: 5, offset: 36381},
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 10, offset: 93182},
+								pos: position{line: 2946, col: 10, offset: 93249},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2944, col: 10, offset: 93182},
+									pos:        position{line: 2946, col: 10, offset: 93249},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20114,10 +20114,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1173, col: 5, offset: 36480},
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 10, offset: 93182},
+								pos: position{line: 2946, col: 10, offset: 93249},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2944, col: 10, offset: 93182},
+									pos:        position{line: 2946, col: 10, offset: 93249},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20149,10 +20149,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1177, col: 5, offset: 36577},
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 10, offset: 93182},
+								pos: position{line: 2946, col: 10, offset: 93249},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2944, col: 10, offset: 93182},
+									pos:        position{line: 2946, col: 10, offset: 93249},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20218,12 +20218,12 @@ var g = &grammar{
 							pos:   position{line: 1305, col: 13, offset: 40826},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2929, col: 7, offset: 92834},
+								pos: position{line: 2931, col: 7, offset: 92901},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2929, col: 7, offset: 92834},
+									pos: position{line: 2931, col: 7, offset: 92901},
 									expr: &charClassMatcher{
-										pos:        position{line: 2929, col: 7, offset: 92834},
+										pos:        position{line: 2931, col: 7, offset: 92901},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -20292,12 +20292,12 @@ var g = &grammar{
 							pos: position{line: 1316, col: 31, offset: 41286},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2838, col: 14, offset: 90351},
+									pos: position{line: 2840, col: 14, offset: 90418},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2838, col: 14, offset: 90351},
+										pos: position{line: 2840, col: 14, offset: 90418},
 										expr: &charClassMatcher{
-											pos:        position{line: 2838, col: 14, offset: 90351},
+											pos:        position{line: 2840, col: 14, offset: 90418},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20310,10 +20310,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2944, col: 10, offset: 93182},
+									pos: position{line: 2946, col: 10, offset: 93249},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2944, col: 10, offset: 93182},
+										pos:        position{line: 2946, col: 10, offset: 93249},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -20321,23 +20321,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2525, col: 5, offset: 81288},
+									pos: position{line: 2527, col: 5, offset: 81355},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2525, col: 5, offset: 81288},
+										pos: position{line: 2527, col: 5, offset: 81355},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2525, col: 5, offset: 81288},
+												pos: position{line: 2527, col: 5, offset: 81355},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2528, col: 5, offset: 81364},
+												pos:   position{line: 2530, col: 5, offset: 81431},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2529, col: 9, offset: 81382},
+													pos: position{line: 2531, col: 9, offset: 81449},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2529, col: 10, offset: 81383},
+														pos:        position{line: 2531, col: 10, offset: 81450},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -20437,48 +20437,48 @@ var g = &grammar{
 							pos:   position{line: 1337, col: 15, offset: 42104},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 13, offset: 91941},
+								pos: position{line: 2904, col: 13, offset: 92008},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2902, col: 13, offset: 91941},
+									pos: position{line: 2904, col: 13, offset: 92008},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2902, col: 13, offset: 91941},
+											pos:   position{line: 2904, col: 13, offset: 92008},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2902, col: 20, offset: 91948},
+												pos: position{line: 2904, col: 20, offset: 92015},
 												expr: &actionExpr{
-													pos: position{line: 2910, col: 11, offset: 92187},
+													pos: position{line: 2912, col: 11, offset: 92254},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2910, col: 12, offset: 92188},
+														pos: position{line: 2912, col: 12, offset: 92255},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2910, col: 12, offset: 92188},
+																pos:        position{line: 2912, col: 12, offset: 92255},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2910, col: 24, offset: 92200},
+																pos:        position{line: 2912, col: 24, offset: 92267},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2910, col: 37, offset: 92213},
+																pos:        position{line: 2912, col: 37, offset: 92280},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2910, col: 48, offset: 92224},
+																pos:        position{line: 2912, col: 48, offset: 92291},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2910, col: 59, offset: 92235},
+																pos:        position{line: 2912, col: 59, offset: 92302},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20489,38 +20489,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2902, col: 30, offset: 91958},
+											pos:   position{line: 2904, col: 30, offset: 92025},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2915, col: 5, offset: 92299},
+												pos: position{line: 2917, col: 5, offset: 92366},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2915, col: 5, offset: 92299},
+													pos:   position{line: 2917, col: 5, offset: 92366},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2915, col: 14, offset: 92308},
+														pos: position{line: 2917, col: 14, offset: 92375},
 														expr: &choiceExpr{
-															pos: position{line: 2916, col: 9, offset: 92318},
+															pos: position{line: 2918, col: 9, offset: 92385},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2916, col: 9, offset: 92318},
+																	pos: position{line: 2918, col: 9, offset: 92385},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2916, col: 9, offset: 92318},
+																		pos: position{line: 2918, col: 9, offset: 92385},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2916, col: 9, offset: 92318},
+																				pos: position{line: 2918, col: 9, offset: 92385},
 																				expr: &litMatcher{
-																					pos:        position{line: 2916, col: 10, offset: 92319},
+																					pos:        position{line: 2918, col: 10, offset: 92386},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2917, col: 9, offset: 92347},
+																				pos: position{line: 2919, col: 9, offset: 92414},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2917, col: 10, offset: 92348},
+																					pos:        position{line: 2919, col: 10, offset: 92415},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20531,27 +20531,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2920, col: 11, offset: 92560},
+																	pos: position{line: 2922, col: 11, offset: 92627},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2920, col: 11, offset: 92560},
+																			pos:        position{line: 2922, col: 11, offset: 92627},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2920, col: 19, offset: 92568},
+																			pos: position{line: 2922, col: 19, offset: 92635},
 																			expr: &seqExpr{
-																				pos: position{line: 2920, col: 21, offset: 92570},
+																				pos: position{line: 2922, col: 21, offset: 92637},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2920, col: 21, offset: 92570},
+																						pos: position{line: 2922, col: 21, offset: 92637},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93182},
+																							pos: position{line: 2946, col: 10, offset: 93249},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93182},
+																								pos:        position{line: 2946, col: 10, offset: 93249},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20560,11 +20560,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2920, col: 28, offset: 92577},
+																						pos: position{line: 2922, col: 28, offset: 92644},
 																						expr: &notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93530},
+																							pos: position{line: 2965, col: 8, offset: 93597},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93531,
+																								line: 2965, col: 9, offset: 93598,
 																							},
 																						},
 																					},
@@ -20963,10 +20963,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2923, col: 11, offset: 92697},
+																	pos: position{line: 2925, col: 11, offset: 92764},
 																	run: (*parser).callonImageBlock115,
 																	expr: &litMatcher{
-																		pos:        position{line: 2923, col: 11, offset: 92697},
+																		pos:        position{line: 2925, col: 11, offset: 92764},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20993,10 +20993,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1337, col: 61, offset: 42150},
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 10, offset: 93182},
+								pos: position{line: 2946, col: 10, offset: 93249},
 								run: (*parser).callonImageBlock120,
 								expr: &charClassMatcher{
-									pos:        position{line: 2944, col: 10, offset: 93182},
+									pos:        position{line: 2946, col: 10, offset: 93249},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -21005,28 +21005,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2966, col: 8, offset: 93580},
+							pos: position{line: 2968, col: 8, offset: 93647},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2953, col: 12, offset: 93353},
+									pos: position{line: 2955, col: 12, offset: 93420},
 									run: (*parser).callonImageBlock123,
 									expr: &choiceExpr{
-										pos: position{line: 2953, col: 13, offset: 93354},
+										pos: position{line: 2955, col: 13, offset: 93421},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2953, col: 13, offset: 93354},
+												pos:        position{line: 2955, col: 13, offset: 93421},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 20, offset: 93361},
+												pos:        position{line: 2955, col: 20, offset: 93428},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 29, offset: 93370},
+												pos:        position{line: 2955, col: 29, offset: 93437},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -21035,9 +21035,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2963, col: 8, offset: 93530},
+									pos: position{line: 2965, col: 8, offset: 93597},
 									expr: &anyMatcher{
-										line: 2963, col: 9, offset: 93531,
+										line: 2965, col: 9, offset: 93598,
 									},
 								},
 							},
@@ -21074,48 +21074,48 @@ var g = &grammar{
 							pos:   position{line: 1342, col: 30, offset: 42396},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 13, offset: 91941},
+								pos: position{line: 2904, col: 13, offset: 92008},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2902, col: 13, offset: 91941},
+									pos: position{line: 2904, col: 13, offset: 92008},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2902, col: 13, offset: 91941},
+											pos:   position{line: 2904, col: 13, offset: 92008},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2902, col: 20, offset: 91948},
+												pos: position{line: 2904, col: 20, offset: 92015},
 												expr: &actionExpr{
-													pos: position{line: 2910, col: 11, offset: 92187},
+													pos: position{line: 2912, col: 11, offset: 92254},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2910, col: 12, offset: 92188},
+														pos: position{line: 2912, col: 12, offset: 92255},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2910, col: 12, offset: 92188},
+																pos:        position{line: 2912, col: 12, offset: 92255},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2910, col: 24, offset: 92200},
+																pos:        position{line: 2912, col: 24, offset: 92267},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2910, col: 37, offset: 92213},
+																pos:        position{line: 2912, col: 37, offset: 92280},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2910, col: 48, offset: 92224},
+																pos:        position{line: 2912, col: 48, offset: 92291},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2910, col: 59, offset: 92235},
+																pos:        position{line: 2912, col: 59, offset: 92302},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -21126,38 +21126,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2902, col: 30, offset: 91958},
+											pos:   position{line: 2904, col: 30, offset: 92025},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2915, col: 5, offset: 92299},
+												pos: position{line: 2917, col: 5, offset: 92366},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2915, col: 5, offset: 92299},
+													pos:   position{line: 2917, col: 5, offset: 92366},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2915, col: 14, offset: 92308},
+														pos: position{line: 2917, col: 14, offset: 92375},
 														expr: &choiceExpr{
-															pos: position{line: 2916, col: 9, offset: 92318},
+															pos: position{line: 2918, col: 9, offset: 92385},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2916, col: 9, offset: 92318},
+																	pos: position{line: 2918, col: 9, offset: 92385},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2916, col: 9, offset: 92318},
+																		pos: position{line: 2918, col: 9, offset: 92385},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2916, col: 9, offset: 92318},
+																				pos: position{line: 2918, col: 9, offset: 92385},
 																				expr: &litMatcher{
-																					pos:        position{line: 2916, col: 10, offset: 92319},
+																					pos:        position{line: 2918, col: 10, offset: 92386},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2917, col: 9, offset: 92347},
+																				pos: position{line: 2919, col: 9, offset: 92414},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2917, col: 10, offset: 92348},
+																					pos:        position{line: 2919, col: 10, offset: 92415},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -21168,27 +21168,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2920, col: 11, offset: 92560},
+																	pos: position{line: 2922, col: 11, offset: 92627},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2920, col: 11, offset: 92560},
+																			pos:        position{line: 2922, col: 11, offset: 92627},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2920, col: 19, offset: 92568},
+																			pos: position{line: 2922, col: 19, offset: 92635},
 																			expr: &seqExpr{
-																				pos: position{line: 2920, col: 21, offset: 92570},
+																				pos: position{line: 2922, col: 21, offset: 92637},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2920, col: 21, offset: 92570},
+																						pos: position{line: 2922, col: 21, offset: 92637},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93182},
+																							pos: position{line: 2946, col: 10, offset: 93249},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93182},
+																								pos:        position{line: 2946, col: 10, offset: 93249},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -21197,11 +21197,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2920, col: 28, offset: 92577},
+																						pos: position{line: 2922, col: 28, offset: 92644},
 																						expr: &notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93530},
+																							pos: position{line: 2965, col: 8, offset: 93597},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93531,
+																								line: 2965, col: 9, offset: 93598,
 																							},
 																						},
 																					},
@@ -21600,10 +21600,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2923, col: 11, offset: 92697},
+																	pos: position{line: 2925, col: 11, offset: 92764},
 																	run: (*parser).callonInlineImage117,
 																	expr: &litMatcher{
-																		pos:        position{line: 2923, col: 11, offset: 92697},
+																		pos:        position{line: 2925, col: 11, offset: 92764},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21698,12 +21698,12 @@ var g = &grammar{
 							expr: &zeroOrOneExpr{
 								pos: position{line: 1356, col: 35, offset: 43304},
 								expr: &actionExpr{
-									pos: position{line: 2838, col: 14, offset: 90351},
+									pos: position{line: 2840, col: 14, offset: 90418},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2838, col: 14, offset: 90351},
+										pos: position{line: 2840, col: 14, offset: 90418},
 										expr: &charClassMatcher{
-											pos:        position{line: 2838, col: 14, offset: 90351},
+											pos:        position{line: 2840, col: 14, offset: 90418},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -21790,21 +21790,21 @@ var g = &grammar{
 								pos: position{line: 1374, col: 9, offset: 43798},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2843, col: 5, offset: 90424},
+										pos: position{line: 2845, col: 5, offset: 90491},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2843, col: 5, offset: 90424},
+											pos: position{line: 2845, col: 5, offset: 90491},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2843, col: 5, offset: 90424},
+													pos:   position{line: 2845, col: 5, offset: 90491},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2843, col: 11, offset: 90430},
+														pos: position{line: 2845, col: 11, offset: 90497},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2843, col: 11, offset: 90430},
+															pos: position{line: 2845, col: 11, offset: 90497},
 															expr: &charClassMatcher{
-																pos:        position{line: 2843, col: 11, offset: 90430},
+																pos:        position{line: 2845, col: 11, offset: 90497},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21814,36 +21814,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2846, col: 5, offset: 90488},
+													pos: position{line: 2848, col: 5, offset: 90555},
 													expr: &seqExpr{
-														pos: position{line: 2847, col: 9, offset: 90499},
+														pos: position{line: 2849, col: 9, offset: 90566},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2847, col: 9, offset: 90499},
+																pos:        position{line: 2849, col: 9, offset: 90566},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2848, col: 9, offset: 90548},
+																pos: position{line: 2850, col: 9, offset: 90615},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2852, col: 5, offset: 90628},
+													pos: position{line: 2854, col: 5, offset: 90695},
 													expr: &seqExpr{
-														pos: position{line: 2853, col: 9, offset: 90639},
+														pos: position{line: 2855, col: 9, offset: 90706},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2853, col: 9, offset: 90639},
+																pos:        position{line: 2855, col: 9, offset: 90706},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2853, col: 13, offset: 90643},
+																pos:        position{line: 2855, col: 13, offset: 90710},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21856,12 +21856,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2948, col: 11, offset: 93243},
+										pos: position{line: 2950, col: 11, offset: 93310},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2948, col: 11, offset: 93243},
+											pos: position{line: 2950, col: 11, offset: 93310},
 											expr: &charClassMatcher{
-												pos:        position{line: 2948, col: 11, offset: 93243},
+												pos:        position{line: 2950, col: 11, offset: 93310},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21870,21 +21870,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2556, col: 5, offset: 82487},
+										pos: position{line: 2558, col: 5, offset: 82554},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2556, col: 5, offset: 82487},
+											pos: position{line: 2558, col: 5, offset: 82554},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2556, col: 5, offset: 82487},
+													pos:        position{line: 2558, col: 5, offset: 82554},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2556, col: 10, offset: 82492},
+													pos: position{line: 2558, col: 10, offset: 82559},
 													expr: &charClassMatcher{
-														pos:        position{line: 2556, col: 11, offset: 82493},
+														pos:        position{line: 2558, col: 11, offset: 82560},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21895,29 +21895,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2562, col: 5, offset: 82685},
+										pos: position{line: 2564, col: 5, offset: 82752},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2562, col: 5, offset: 82685},
+											pos: position{line: 2564, col: 5, offset: 82752},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2562, col: 5, offset: 82685},
+													pos: position{line: 2564, col: 5, offset: 82752},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2565, col: 5, offset: 82756},
+													pos: position{line: 2567, col: 5, offset: 82823},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2569, col: 5, offset: 82881},
+													pos:        position{line: 2571, col: 5, offset: 82948},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2569, col: 9, offset: 82885},
+													pos: position{line: 2571, col: 9, offset: 82952},
 													expr: &charClassMatcher{
-														pos:        position{line: 2569, col: 10, offset: 82886},
+														pos:        position{line: 2571, col: 10, offset: 82953},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21936,27 +21936,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 5, offset: 90836},
+										pos: position{line: 2863, col: 5, offset: 90903},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2862, col: 9, offset: 90846},
+											pos: position{line: 2864, col: 9, offset: 90913},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2862, col: 10, offset: 90847},
+													pos:        position{line: 2864, col: 10, offset: 90914},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2864, col: 13, offset: 90944},
+													pos: position{line: 2866, col: 13, offset: 91011},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2864, col: 13, offset: 90944},
+															pos: position{line: 2866, col: 13, offset: 91011},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2867, col: 13, offset: 91044},
+															pos:        position{line: 2869, col: 13, offset: 91111},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21964,20 +21964,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2867, col: 19, offset: 91050},
+													pos:        position{line: 2869, col: 19, offset: 91117},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2870, col: 13, offset: 91088},
+													pos: position{line: 2872, col: 13, offset: 91155},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2870, col: 13, offset: 91088},
+															pos: position{line: 2872, col: 13, offset: 91155},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2873, col: 14, offset: 91181},
+															pos:        position{line: 2875, col: 14, offset: 91248},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21986,18 +21986,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2875, col: 12, offset: 91225},
+													pos: position{line: 2877, col: 12, offset: 91292},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2875, col: 12, offset: 91225},
+															pos:        position{line: 2877, col: 12, offset: 91292},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2875, col: 16, offset: 91229},
+															pos: position{line: 2877, col: 16, offset: 91296},
 															expr: &litMatcher{
-																pos:        position{line: 2875, col: 17, offset: 91230},
+																pos:        position{line: 2877, col: 17, offset: 91297},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -22035,10 +22035,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1239, col: 5, offset: 38726},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93182},
+														pos: position{line: 2946, col: 10, offset: 93249},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93182},
+															pos:        position{line: 2946, col: 10, offset: 93249},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -22049,28 +22049,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1239, col: 12, offset: 38733},
 													expr: &choiceExpr{
-														pos: position{line: 2966, col: 8, offset: 93580},
+														pos: position{line: 2968, col: 8, offset: 93647},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93353},
+																pos: position{line: 2955, col: 12, offset: 93420},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93354},
+																	pos: position{line: 2955, col: 13, offset: 93421},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93354},
+																			pos:        position{line: 2955, col: 13, offset: 93421},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93361},
+																			pos:        position{line: 2955, col: 20, offset: 93428},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93370},
+																			pos:        position{line: 2955, col: 29, offset: 93437},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -22079,9 +22079,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93530},
+																pos: position{line: 2965, col: 8, offset: 93597},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93531,
+																	line: 2965, col: 9, offset: 93598,
 																},
 															},
 														},
@@ -22437,23 +22437,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2525, col: 5, offset: 81288},
+										pos: position{line: 2527, col: 5, offset: 81355},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 5, offset: 81288},
+											pos: position{line: 2527, col: 5, offset: 81355},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2525, col: 5, offset: 81288},
+													pos: position{line: 2527, col: 5, offset: 81355},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2528, col: 5, offset: 81364},
+													pos:   position{line: 2530, col: 5, offset: 81431},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2529, col: 9, offset: 81382},
+														pos: position{line: 2531, col: 9, offset: 81449},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2529, col: 10, offset: 81383},
+															pos:        position{line: 2531, col: 10, offset: 81450},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -22465,25 +22465,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2953, col: 12, offset: 93353},
+										pos: position{line: 2955, col: 12, offset: 93420},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2953, col: 13, offset: 93354},
+											pos: position{line: 2955, col: 13, offset: 93421},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2953, col: 13, offset: 93354},
+													pos:        position{line: 2955, col: 13, offset: 93421},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2953, col: 20, offset: 93361},
+													pos:        position{line: 2955, col: 20, offset: 93428},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2953, col: 29, offset: 93370},
+													pos:        position{line: 2955, col: 29, offset: 93437},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -22492,10 +22492,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2883, col: 12, offset: 91490},
+										pos: position{line: 2885, col: 12, offset: 91557},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2883, col: 12, offset: 91490},
+											pos:        position{line: 2885, col: 12, offset: 91557},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -22627,55 +22627,55 @@ var g = &grammar{
 									pos:   position{line: 1436, col: 5, offset: 46494},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2906, col: 23, offset: 92068},
+										pos: position{line: 2908, col: 23, offset: 92135},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2906, col: 23, offset: 92068},
+											pos: position{line: 2908, col: 23, offset: 92135},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2906, col: 23, offset: 92068},
+													pos: position{line: 2908, col: 23, offset: 92135},
 													expr: &litMatcher{
-														pos:        position{line: 2906, col: 24, offset: 92069},
+														pos:        position{line: 2908, col: 24, offset: 92136},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2906, col: 28, offset: 92073},
+													pos:   position{line: 2908, col: 28, offset: 92140},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2910, col: 11, offset: 92187},
+														pos: position{line: 2912, col: 11, offset: 92254},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2910, col: 12, offset: 92188},
+															pos: position{line: 2912, col: 12, offset: 92255},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2910, col: 12, offset: 92188},
+																	pos:        position{line: 2912, col: 12, offset: 92255},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 24, offset: 92200},
+																	pos:        position{line: 2912, col: 24, offset: 92267},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 37, offset: 92213},
+																	pos:        position{line: 2912, col: 37, offset: 92280},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 48, offset: 92224},
+																	pos:        position{line: 2912, col: 48, offset: 92291},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 59, offset: 92235},
+																	pos:        position{line: 2912, col: 59, offset: 92302},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -22685,38 +22685,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2906, col: 44, offset: 92089},
+													pos:   position{line: 2908, col: 44, offset: 92156},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2915, col: 5, offset: 92299},
+														pos: position{line: 2917, col: 5, offset: 92366},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2915, col: 5, offset: 92299},
+															pos:   position{line: 2917, col: 5, offset: 92366},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2915, col: 14, offset: 92308},
+																pos: position{line: 2917, col: 14, offset: 92375},
 																expr: &choiceExpr{
-																	pos: position{line: 2916, col: 9, offset: 92318},
+																	pos: position{line: 2918, col: 9, offset: 92385},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2916, col: 9, offset: 92318},
+																			pos: position{line: 2918, col: 9, offset: 92385},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2916, col: 9, offset: 92318},
+																				pos: position{line: 2918, col: 9, offset: 92385},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2916, col: 9, offset: 92318},
+																						pos: position{line: 2918, col: 9, offset: 92385},
 																						expr: &litMatcher{
-																							pos:        position{line: 2916, col: 10, offset: 92319},
+																							pos:        position{line: 2918, col: 10, offset: 92386},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2917, col: 9, offset: 92347},
+																						pos: position{line: 2919, col: 9, offset: 92414},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2917, col: 10, offset: 92348},
+																							pos:        position{line: 2919, col: 10, offset: 92415},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22727,27 +22727,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2920, col: 11, offset: 92560},
+																			pos: position{line: 2922, col: 11, offset: 92627},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2920, col: 11, offset: 92560},
+																					pos:        position{line: 2922, col: 11, offset: 92627},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2920, col: 19, offset: 92568},
+																					pos: position{line: 2922, col: 19, offset: 92635},
 																					expr: &seqExpr{
-																						pos: position{line: 2920, col: 21, offset: 92570},
+																						pos: position{line: 2922, col: 21, offset: 92637},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2920, col: 21, offset: 92570},
+																								pos: position{line: 2922, col: 21, offset: 92637},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93182},
+																									pos: position{line: 2946, col: 10, offset: 93249},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93182},
+																										pos:        position{line: 2946, col: 10, offset: 93249},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22756,11 +22756,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 28, offset: 92577},
+																								pos: position{line: 2922, col: 28, offset: 92644},
 																								expr: &notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -23159,10 +23159,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2923, col: 11, offset: 92697},
+																			pos: position{line: 2925, col: 11, offset: 92764},
 																			run: (*parser).callonLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2923, col: 11, offset: 92697},
+																				pos:        position{line: 2925, col: 11, offset: 92764},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23373,48 +23373,48 @@ var g = &grammar{
 									pos:   position{line: 1449, col: 17, offset: 46909},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2902, col: 13, offset: 91941},
+										pos: position{line: 2904, col: 13, offset: 92008},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2902, col: 13, offset: 91941},
+											pos: position{line: 2904, col: 13, offset: 92008},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2902, col: 13, offset: 91941},
+													pos:   position{line: 2904, col: 13, offset: 92008},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2902, col: 20, offset: 91948},
+														pos: position{line: 2904, col: 20, offset: 92015},
 														expr: &actionExpr{
-															pos: position{line: 2910, col: 11, offset: 92187},
+															pos: position{line: 2912, col: 11, offset: 92254},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2910, col: 12, offset: 92188},
+																pos: position{line: 2912, col: 12, offset: 92255},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 12, offset: 92188},
+																		pos:        position{line: 2912, col: 12, offset: 92255},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 24, offset: 92200},
+																		pos:        position{line: 2912, col: 24, offset: 92267},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 37, offset: 92213},
+																		pos:        position{line: 2912, col: 37, offset: 92280},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 48, offset: 92224},
+																		pos:        position{line: 2912, col: 48, offset: 92291},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 59, offset: 92235},
+																		pos:        position{line: 2912, col: 59, offset: 92302},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23425,38 +23425,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2902, col: 30, offset: 91958},
+													pos:   position{line: 2904, col: 30, offset: 92025},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2915, col: 5, offset: 92299},
+														pos: position{line: 2917, col: 5, offset: 92366},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2915, col: 5, offset: 92299},
+															pos:   position{line: 2917, col: 5, offset: 92366},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2915, col: 14, offset: 92308},
+																pos: position{line: 2917, col: 14, offset: 92375},
 																expr: &choiceExpr{
-																	pos: position{line: 2916, col: 9, offset: 92318},
+																	pos: position{line: 2918, col: 9, offset: 92385},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2916, col: 9, offset: 92318},
+																			pos: position{line: 2918, col: 9, offset: 92385},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2916, col: 9, offset: 92318},
+																				pos: position{line: 2918, col: 9, offset: 92385},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2916, col: 9, offset: 92318},
+																						pos: position{line: 2918, col: 9, offset: 92385},
 																						expr: &litMatcher{
-																							pos:        position{line: 2916, col: 10, offset: 92319},
+																							pos:        position{line: 2918, col: 10, offset: 92386},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2917, col: 9, offset: 92347},
+																						pos: position{line: 2919, col: 9, offset: 92414},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2917, col: 10, offset: 92348},
+																							pos:        position{line: 2919, col: 10, offset: 92415},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23467,27 +23467,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2920, col: 11, offset: 92560},
+																			pos: position{line: 2922, col: 11, offset: 92627},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2920, col: 11, offset: 92560},
+																					pos:        position{line: 2922, col: 11, offset: 92627},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2920, col: 19, offset: 92568},
+																					pos: position{line: 2922, col: 19, offset: 92635},
 																					expr: &seqExpr{
-																						pos: position{line: 2920, col: 21, offset: 92570},
+																						pos: position{line: 2922, col: 21, offset: 92637},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2920, col: 21, offset: 92570},
+																								pos: position{line: 2922, col: 21, offset: 92637},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93182},
+																									pos: position{line: 2946, col: 10, offset: 93249},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93182},
+																										pos:        position{line: 2946, col: 10, offset: 93249},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23496,11 +23496,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 28, offset: 92577},
+																								pos: position{line: 2922, col: 28, offset: 92644},
 																								expr: &notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -23899,10 +23899,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2923, col: 11, offset: 92697},
+																			pos: position{line: 2925, col: 11, offset: 92764},
 																			run: (*parser).callonRelativeLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2923, col: 11, offset: 92697},
+																				pos:        position{line: 2925, col: 11, offset: 92764},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23945,48 +23945,48 @@ var g = &grammar{
 									pos:   position{line: 1454, col: 13, offset: 47076},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2902, col: 13, offset: 91941},
+										pos: position{line: 2904, col: 13, offset: 92008},
 										run: (*parser).callonRelativeLink124,
 										expr: &seqExpr{
-											pos: position{line: 2902, col: 13, offset: 91941},
+											pos: position{line: 2904, col: 13, offset: 92008},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2902, col: 13, offset: 91941},
+													pos:   position{line: 2904, col: 13, offset: 92008},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2902, col: 20, offset: 91948},
+														pos: position{line: 2904, col: 20, offset: 92015},
 														expr: &actionExpr{
-															pos: position{line: 2910, col: 11, offset: 92187},
+															pos: position{line: 2912, col: 11, offset: 92254},
 															run: (*parser).callonRelativeLink128,
 															expr: &choiceExpr{
-																pos: position{line: 2910, col: 12, offset: 92188},
+																pos: position{line: 2912, col: 12, offset: 92255},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 12, offset: 92188},
+																		pos:        position{line: 2912, col: 12, offset: 92255},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 24, offset: 92200},
+																		pos:        position{line: 2912, col: 24, offset: 92267},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 37, offset: 92213},
+																		pos:        position{line: 2912, col: 37, offset: 92280},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 48, offset: 92224},
+																		pos:        position{line: 2912, col: 48, offset: 92291},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2910, col: 59, offset: 92235},
+																		pos:        position{line: 2912, col: 59, offset: 92302},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23997,38 +23997,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2902, col: 30, offset: 91958},
+													pos:   position{line: 2904, col: 30, offset: 92025},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2915, col: 5, offset: 92299},
+														pos: position{line: 2917, col: 5, offset: 92366},
 														run: (*parser).callonRelativeLink136,
 														expr: &labeledExpr{
-															pos:   position{line: 2915, col: 5, offset: 92299},
+															pos:   position{line: 2917, col: 5, offset: 92366},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2915, col: 14, offset: 92308},
+																pos: position{line: 2917, col: 14, offset: 92375},
 																expr: &choiceExpr{
-																	pos: position{line: 2916, col: 9, offset: 92318},
+																	pos: position{line: 2918, col: 9, offset: 92385},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2916, col: 9, offset: 92318},
+																			pos: position{line: 2918, col: 9, offset: 92385},
 																			run: (*parser).callonRelativeLink140,
 																			expr: &seqExpr{
-																				pos: position{line: 2916, col: 9, offset: 92318},
+																				pos: position{line: 2918, col: 9, offset: 92385},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2916, col: 9, offset: 92318},
+																						pos: position{line: 2918, col: 9, offset: 92385},
 																						expr: &litMatcher{
-																							pos:        position{line: 2916, col: 10, offset: 92319},
+																							pos:        position{line: 2918, col: 10, offset: 92386},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2917, col: 9, offset: 92347},
+																						pos: position{line: 2919, col: 9, offset: 92414},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2917, col: 10, offset: 92348},
+																							pos:        position{line: 2919, col: 10, offset: 92415},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24039,27 +24039,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2920, col: 11, offset: 92560},
+																			pos: position{line: 2922, col: 11, offset: 92627},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2920, col: 11, offset: 92560},
+																					pos:        position{line: 2922, col: 11, offset: 92627},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2920, col: 19, offset: 92568},
+																					pos: position{line: 2922, col: 19, offset: 92635},
 																					expr: &seqExpr{
-																						pos: position{line: 2920, col: 21, offset: 92570},
+																						pos: position{line: 2922, col: 21, offset: 92637},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2920, col: 21, offset: 92570},
+																								pos: position{line: 2922, col: 21, offset: 92637},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93182},
+																									pos: position{line: 2946, col: 10, offset: 93249},
 																									run: (*parser).callonRelativeLink151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93182},
+																										pos:        position{line: 2946, col: 10, offset: 93249},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24068,11 +24068,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 28, offset: 92577},
+																								pos: position{line: 2922, col: 28, offset: 92644},
 																								expr: &notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -24471,10 +24471,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2923, col: 11, offset: 92697},
+																			pos: position{line: 2925, col: 11, offset: 92764},
 																			run: (*parser).callonRelativeLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2923, col: 11, offset: 92697},
+																				pos:        position{line: 2925, col: 11, offset: 92764},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24526,55 +24526,55 @@ var g = &grammar{
 									pos:   position{line: 1461, col: 9, offset: 47385},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2906, col: 23, offset: 92068},
+										pos: position{line: 2908, col: 23, offset: 92135},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2906, col: 23, offset: 92068},
+											pos: position{line: 2908, col: 23, offset: 92135},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2906, col: 23, offset: 92068},
+													pos: position{line: 2908, col: 23, offset: 92135},
 													expr: &litMatcher{
-														pos:        position{line: 2906, col: 24, offset: 92069},
+														pos:        position{line: 2908, col: 24, offset: 92136},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2906, col: 28, offset: 92073},
+													pos:   position{line: 2908, col: 28, offset: 92140},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2910, col: 11, offset: 92187},
+														pos: position{line: 2912, col: 11, offset: 92254},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2910, col: 12, offset: 92188},
+															pos: position{line: 2912, col: 12, offset: 92255},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2910, col: 12, offset: 92188},
+																	pos:        position{line: 2912, col: 12, offset: 92255},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 24, offset: 92200},
+																	pos:        position{line: 2912, col: 24, offset: 92267},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 37, offset: 92213},
+																	pos:        position{line: 2912, col: 37, offset: 92280},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 48, offset: 92224},
+																	pos:        position{line: 2912, col: 48, offset: 92291},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 59, offset: 92235},
+																	pos:        position{line: 2912, col: 59, offset: 92302},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24584,38 +24584,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2906, col: 44, offset: 92089},
+													pos:   position{line: 2908, col: 44, offset: 92156},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2915, col: 5, offset: 92299},
+														pos: position{line: 2917, col: 5, offset: 92366},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2915, col: 5, offset: 92299},
+															pos:   position{line: 2917, col: 5, offset: 92366},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2915, col: 14, offset: 92308},
+																pos: position{line: 2917, col: 14, offset: 92375},
 																expr: &choiceExpr{
-																	pos: position{line: 2916, col: 9, offset: 92318},
+																	pos: position{line: 2918, col: 9, offset: 92385},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2916, col: 9, offset: 92318},
+																			pos: position{line: 2918, col: 9, offset: 92385},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2916, col: 9, offset: 92318},
+																				pos: position{line: 2918, col: 9, offset: 92385},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2916, col: 9, offset: 92318},
+																						pos: position{line: 2918, col: 9, offset: 92385},
 																						expr: &litMatcher{
-																							pos:        position{line: 2916, col: 10, offset: 92319},
+																							pos:        position{line: 2918, col: 10, offset: 92386},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2917, col: 9, offset: 92347},
+																						pos: position{line: 2919, col: 9, offset: 92414},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2917, col: 10, offset: 92348},
+																							pos:        position{line: 2919, col: 10, offset: 92415},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24626,27 +24626,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2920, col: 11, offset: 92560},
+																			pos: position{line: 2922, col: 11, offset: 92627},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2920, col: 11, offset: 92560},
+																					pos:        position{line: 2922, col: 11, offset: 92627},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2920, col: 19, offset: 92568},
+																					pos: position{line: 2922, col: 19, offset: 92635},
 																					expr: &seqExpr{
-																						pos: position{line: 2920, col: 21, offset: 92570},
+																						pos: position{line: 2922, col: 21, offset: 92637},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2920, col: 21, offset: 92570},
+																								pos: position{line: 2922, col: 21, offset: 92637},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93182},
+																									pos: position{line: 2946, col: 10, offset: 93249},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93182},
+																										pos:        position{line: 2946, col: 10, offset: 93249},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24655,11 +24655,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 28, offset: 92577},
+																								pos: position{line: 2922, col: 28, offset: 92644},
 																								expr: &notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -25058,10 +25058,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2923, col: 11, offset: 92697},
+																			pos: position{line: 2925, col: 11, offset: 92764},
 																			run: (*parser).callonExternalLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2923, col: 11, offset: 92697},
+																				pos:        position{line: 2925, col: 11, offset: 92764},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25101,55 +25101,55 @@ var g = &grammar{
 									pos:   position{line: 1466, col: 5, offset: 47555},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2906, col: 23, offset: 92068},
+										pos: position{line: 2908, col: 23, offset: 92135},
 										run: (*parser).callonExternalLink125,
 										expr: &seqExpr{
-											pos: position{line: 2906, col: 23, offset: 92068},
+											pos: position{line: 2908, col: 23, offset: 92135},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2906, col: 23, offset: 92068},
+													pos: position{line: 2908, col: 23, offset: 92135},
 													expr: &litMatcher{
-														pos:        position{line: 2906, col: 24, offset: 92069},
+														pos:        position{line: 2908, col: 24, offset: 92136},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2906, col: 28, offset: 92073},
+													pos:   position{line: 2908, col: 28, offset: 92140},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2910, col: 11, offset: 92187},
+														pos: position{line: 2912, col: 11, offset: 92254},
 														run: (*parser).callonExternalLink130,
 														expr: &choiceExpr{
-															pos: position{line: 2910, col: 12, offset: 92188},
+															pos: position{line: 2912, col: 12, offset: 92255},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2910, col: 12, offset: 92188},
+																	pos:        position{line: 2912, col: 12, offset: 92255},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 24, offset: 92200},
+																	pos:        position{line: 2912, col: 24, offset: 92267},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 37, offset: 92213},
+																	pos:        position{line: 2912, col: 37, offset: 92280},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 48, offset: 92224},
+																	pos:        position{line: 2912, col: 48, offset: 92291},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2910, col: 59, offset: 92235},
+																	pos:        position{line: 2912, col: 59, offset: 92302},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -25159,38 +25159,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2906, col: 44, offset: 92089},
+													pos:   position{line: 2908, col: 44, offset: 92156},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2915, col: 5, offset: 92299},
+														pos: position{line: 2917, col: 5, offset: 92366},
 														run: (*parser).callonExternalLink138,
 														expr: &labeledExpr{
-															pos:   position{line: 2915, col: 5, offset: 92299},
+															pos:   position{line: 2917, col: 5, offset: 92366},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2915, col: 14, offset: 92308},
+																pos: position{line: 2917, col: 14, offset: 92375},
 																expr: &choiceExpr{
-																	pos: position{line: 2916, col: 9, offset: 92318},
+																	pos: position{line: 2918, col: 9, offset: 92385},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2916, col: 9, offset: 92318},
+																			pos: position{line: 2918, col: 9, offset: 92385},
 																			run: (*parser).callonExternalLink142,
 																			expr: &seqExpr{
-																				pos: position{line: 2916, col: 9, offset: 92318},
+																				pos: position{line: 2918, col: 9, offset: 92385},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2916, col: 9, offset: 92318},
+																						pos: position{line: 2918, col: 9, offset: 92385},
 																						expr: &litMatcher{
-																							pos:        position{line: 2916, col: 10, offset: 92319},
+																							pos:        position{line: 2918, col: 10, offset: 92386},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2917, col: 9, offset: 92347},
+																						pos: position{line: 2919, col: 9, offset: 92414},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2917, col: 10, offset: 92348},
+																							pos:        position{line: 2919, col: 10, offset: 92415},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -25201,27 +25201,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2920, col: 11, offset: 92560},
+																			pos: position{line: 2922, col: 11, offset: 92627},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2920, col: 11, offset: 92560},
+																					pos:        position{line: 2922, col: 11, offset: 92627},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2920, col: 19, offset: 92568},
+																					pos: position{line: 2922, col: 19, offset: 92635},
 																					expr: &seqExpr{
-																						pos: position{line: 2920, col: 21, offset: 92570},
+																						pos: position{line: 2922, col: 21, offset: 92637},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2920, col: 21, offset: 92570},
+																								pos: position{line: 2922, col: 21, offset: 92637},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93182},
+																									pos: position{line: 2946, col: 10, offset: 93249},
 																									run: (*parser).callonExternalLink153,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93182},
+																										pos:        position{line: 2946, col: 10, offset: 93249},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -25230,11 +25230,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2920, col: 28, offset: 92577},
+																								pos: position{line: 2922, col: 28, offset: 92644},
 																								expr: &notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -25633,10 +25633,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2923, col: 11, offset: 92697},
+																			pos: position{line: 2925, col: 11, offset: 92764},
 																			run: (*parser).callonExternalLink236,
 																			expr: &litMatcher{
-																				pos:        position{line: 2923, col: 11, offset: 92697},
+																				pos:        position{line: 2925, col: 11, offset: 92764},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25702,10 +25702,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1608, col: 5, offset: 52186},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93182},
+																		pos: position{line: 2946, col: 10, offset: 93249},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93182},
+																			pos:        position{line: 2946, col: 10, offset: 93249},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25872,12 +25872,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2948, col: 11, offset: 93243},
+																	pos: position{line: 2950, col: 11, offset: 93310},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2948, col: 11, offset: 93243},
+																		pos: position{line: 2950, col: 11, offset: 93310},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2948, col: 11, offset: 93243},
+																			pos:        position{line: 2950, col: 11, offset: 93310},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25920,28 +25920,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93580},
+																	pos: position{line: 2968, col: 8, offset: 93647},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93353},
+																			pos: position{line: 2955, col: 12, offset: 93420},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93354},
+																				pos: position{line: 2955, col: 13, offset: 93421},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93354},
+																						pos:        position{line: 2955, col: 13, offset: 93421},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93361},
+																						pos:        position{line: 2955, col: 20, offset: 93428},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93370},
+																						pos:        position{line: 2955, col: 29, offset: 93437},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25950,9 +25950,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93530},
+																			pos: position{line: 2965, col: 8, offset: 93597},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93531,
+																				line: 2965, col: 9, offset: 93598,
 																			},
 																		},
 																	},
@@ -25982,10 +25982,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1658, col: 5, offset: 54148},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93182},
+																		pos: position{line: 2946, col: 10, offset: 93249},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93182},
+																			pos:        position{line: 2946, col: 10, offset: 93249},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26026,12 +26026,12 @@ var g = &grammar{
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2948, col: 11, offset: 93243},
+																	pos: position{line: 2950, col: 11, offset: 93310},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2948, col: 11, offset: 93243},
+																		pos: position{line: 2950, col: 11, offset: 93310},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2948, col: 11, offset: 93243},
+																			pos:        position{line: 2950, col: 11, offset: 93310},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26103,12 +26103,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2948, col: 11, offset: 93243},
+																		pos: position{line: 2950, col: 11, offset: 93310},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2948, col: 11, offset: 93243},
+																			pos: position{line: 2950, col: 11, offset: 93310},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2948, col: 11, offset: 93243},
+																				pos:        position{line: 2950, col: 11, offset: 93310},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -26152,28 +26152,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93580},
+																	pos: position{line: 2968, col: 8, offset: 93647},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93353},
+																			pos: position{line: 2955, col: 12, offset: 93420},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93354},
+																				pos: position{line: 2955, col: 13, offset: 93421},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93354},
+																						pos:        position{line: 2955, col: 13, offset: 93421},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93361},
+																						pos:        position{line: 2955, col: 20, offset: 93428},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93370},
+																						pos:        position{line: 2955, col: 29, offset: 93437},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26182,9 +26182,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93530},
+																			pos: position{line: 2965, col: 8, offset: 93597},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93531,
+																				line: 2965, col: 9, offset: 93598,
 																			},
 																		},
 																	},
@@ -26242,12 +26242,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2948, col: 11, offset: 93243},
+																	pos: position{line: 2950, col: 11, offset: 93310},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2948, col: 11, offset: 93243},
+																		pos: position{line: 2950, col: 11, offset: 93310},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2948, col: 11, offset: 93243},
+																			pos:        position{line: 2950, col: 11, offset: 93310},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26290,28 +26290,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93580},
+																	pos: position{line: 2968, col: 8, offset: 93647},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93353},
+																			pos: position{line: 2955, col: 12, offset: 93420},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93354},
+																				pos: position{line: 2955, col: 13, offset: 93421},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93354},
+																						pos:        position{line: 2955, col: 13, offset: 93421},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93361},
+																						pos:        position{line: 2955, col: 20, offset: 93428},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93370},
+																						pos:        position{line: 2955, col: 29, offset: 93437},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26320,9 +26320,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93530},
+																			pos: position{line: 2965, col: 8, offset: 93597},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93531,
+																				line: 2965, col: 9, offset: 93598,
 																			},
 																		},
 																	},
@@ -26352,18 +26352,18 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1693, col: 5, offset: 55167},
 																	expr: &seqExpr{
-																		pos: position{line: 2543, col: 31, offset: 81992},
+																		pos: position{line: 2545, col: 31, offset: 82059},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2543, col: 31, offset: 81992},
+																				pos:        position{line: 2545, col: 31, offset: 82059},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2543, col: 36, offset: 81997},
+																				pos: position{line: 2545, col: 36, offset: 82064},
 																				expr: &litMatcher{
-																					pos:        position{line: 2543, col: 37, offset: 81998},
+																					pos:        position{line: 2545, col: 37, offset: 82065},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -26413,28 +26413,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1694, col: 35, offset: 55229},
 																				expr: &choiceExpr{
-																					pos: position{line: 2966, col: 8, offset: 93580},
+																					pos: position{line: 2968, col: 8, offset: 93647},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2953, col: 12, offset: 93353},
+																							pos: position{line: 2955, col: 12, offset: 93420},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2953, col: 13, offset: 93354},
+																								pos: position{line: 2955, col: 13, offset: 93421},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 13, offset: 93354},
+																										pos:        position{line: 2955, col: 13, offset: 93421},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 20, offset: 93361},
+																										pos:        position{line: 2955, col: 20, offset: 93428},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 29, offset: 93370},
+																										pos:        position{line: 2955, col: 29, offset: 93437},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -26443,9 +26443,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93530},
+																							pos: position{line: 2965, col: 8, offset: 93597},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93531,
+																								line: 2965, col: 9, offset: 93598,
 																							},
 																						},
 																					},
@@ -26510,10 +26510,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1712, col: 9, offset: 55734},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93182},
+																				pos: position{line: 2946, col: 10, offset: 93249},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93182},
+																					pos:        position{line: 2946, col: 10, offset: 93249},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26522,28 +26522,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93580},
+																			pos: position{line: 2968, col: 8, offset: 93647},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93353},
+																					pos: position{line: 2955, col: 12, offset: 93420},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93354},
+																						pos: position{line: 2955, col: 13, offset: 93421},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93354},
+																								pos:        position{line: 2955, col: 13, offset: 93421},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93361},
+																								pos:        position{line: 2955, col: 20, offset: 93428},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93370},
+																								pos:        position{line: 2955, col: 29, offset: 93437},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26552,9 +26552,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -26568,18 +26568,18 @@ var g = &grammar{
 																					pos: position{line: 702, col: 14, offset: 22579},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2961, col: 11, offset: 93516},
+																							pos: position{line: 2963, col: 11, offset: 93583},
 																							expr: &anyMatcher{
-																								line: 2961, col: 13, offset: 93518,
+																								line: 2963, col: 13, offset: 93585,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 702, col: 21, offset: 22586},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93182},
+																								pos: position{line: 2946, col: 10, offset: 93249},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93182},
+																									pos:        position{line: 2946, col: 10, offset: 93249},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26588,28 +26588,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26618,9 +26618,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -26639,12 +26639,12 @@ var g = &grammar{
 																	pos: position{line: 1719, col: 9, offset: 55882},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2948, col: 11, offset: 93243},
+																			pos: position{line: 2950, col: 11, offset: 93310},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2948, col: 11, offset: 93243},
+																				pos: position{line: 2950, col: 11, offset: 93310},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2948, col: 11, offset: 93243},
+																					pos:        position{line: 2950, col: 11, offset: 93310},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26671,28 +26671,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93580},
+																			pos: position{line: 2968, col: 8, offset: 93647},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93353},
+																					pos: position{line: 2955, col: 12, offset: 93420},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93354},
+																						pos: position{line: 2955, col: 13, offset: 93421},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93354},
+																								pos:        position{line: 2955, col: 13, offset: 93421},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93361},
+																								pos:        position{line: 2955, col: 20, offset: 93428},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93370},
+																								pos:        position{line: 2955, col: 29, offset: 93437},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26701,9 +26701,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -26761,9 +26761,9 @@ var g = &grammar{
 					pos: position{line: 1517, col: 5, offset: 49359},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2961, col: 11, offset: 93516},
+							pos: position{line: 2963, col: 11, offset: 93583},
 							expr: &anyMatcher{
-								line: 2961, col: 13, offset: 93518,
+								line: 2963, col: 13, offset: 93585,
 							},
 						},
 						&labeledExpr{
@@ -26787,18 +26787,18 @@ var g = &grammar{
 															pos: position{line: 702, col: 14, offset: 22579},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2961, col: 11, offset: 93516},
+																	pos: position{line: 2963, col: 11, offset: 93583},
 																	expr: &anyMatcher{
-																		line: 2961, col: 13, offset: 93518,
+																		line: 2963, col: 13, offset: 93585,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 702, col: 21, offset: 22586},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93182},
+																		pos: position{line: 2946, col: 10, offset: 93249},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93182},
+																			pos:        position{line: 2946, col: 10, offset: 93249},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26807,28 +26807,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93580},
+																	pos: position{line: 2968, col: 8, offset: 93647},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93353},
+																			pos: position{line: 2955, col: 12, offset: 93420},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93354},
+																				pos: position{line: 2955, col: 13, offset: 93421},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93354},
+																						pos:        position{line: 2955, col: 13, offset: 93421},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93361},
+																						pos:        position{line: 2955, col: 20, offset: 93428},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93370},
+																						pos:        position{line: 2955, col: 29, offset: 93437},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26837,9 +26837,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93530},
+																			pos: position{line: 2965, col: 8, offset: 93597},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93531,
+																				line: 2965, col: 9, offset: 93598,
 																			},
 																		},
 																	},
@@ -26872,10 +26872,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1608, col: 5, offset: 52186},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93182},
+																								pos: position{line: 2946, col: 10, offset: 93249},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93182},
+																									pos:        position{line: 2946, col: 10, offset: 93249},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27042,12 +27042,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2948, col: 11, offset: 93243},
+																							pos: position{line: 2950, col: 11, offset: 93310},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2948, col: 11, offset: 93243},
+																								pos: position{line: 2950, col: 11, offset: 93310},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2948, col: 11, offset: 93243},
+																									pos:        position{line: 2950, col: 11, offset: 93310},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27090,28 +27090,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27120,9 +27120,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -27152,10 +27152,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1658, col: 5, offset: 54148},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93182},
+																								pos: position{line: 2946, col: 10, offset: 93249},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93182},
+																									pos:        position{line: 2946, col: 10, offset: 93249},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27196,12 +27196,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2948, col: 11, offset: 93243},
+																							pos: position{line: 2950, col: 11, offset: 93310},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2948, col: 11, offset: 93243},
+																								pos: position{line: 2950, col: 11, offset: 93310},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2948, col: 11, offset: 93243},
+																									pos:        position{line: 2950, col: 11, offset: 93310},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27273,12 +27273,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2948, col: 11, offset: 93243},
+																								pos: position{line: 2950, col: 11, offset: 93310},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2948, col: 11, offset: 93243},
+																									pos: position{line: 2950, col: 11, offset: 93310},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2948, col: 11, offset: 93243},
+																										pos:        position{line: 2950, col: 11, offset: 93310},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27322,28 +27322,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27352,9 +27352,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -27412,12 +27412,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2948, col: 11, offset: 93243},
+																							pos: position{line: 2950, col: 11, offset: 93310},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2948, col: 11, offset: 93243},
+																								pos: position{line: 2950, col: 11, offset: 93310},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2948, col: 11, offset: 93243},
+																									pos:        position{line: 2950, col: 11, offset: 93310},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27460,28 +27460,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27490,9 +27490,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -27522,18 +27522,18 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 1693, col: 5, offset: 55167},
 																							expr: &seqExpr{
-																								pos: position{line: 2543, col: 31, offset: 81992},
+																								pos: position{line: 2545, col: 31, offset: 82059},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2543, col: 31, offset: 81992},
+																										pos:        position{line: 2545, col: 31, offset: 82059},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2543, col: 36, offset: 81997},
+																										pos: position{line: 2545, col: 36, offset: 82064},
 																										expr: &litMatcher{
-																											pos:        position{line: 2543, col: 37, offset: 81998},
+																											pos:        position{line: 2545, col: 37, offset: 82065},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -27583,28 +27583,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1694, col: 35, offset: 55229},
 																										expr: &choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93580},
+																											pos: position{line: 2968, col: 8, offset: 93647},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93353},
+																													pos: position{line: 2955, col: 12, offset: 93420},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93354},
+																														pos: position{line: 2955, col: 13, offset: 93421},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93354},
+																																pos:        position{line: 2955, col: 13, offset: 93421},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93361},
+																																pos:        position{line: 2955, col: 20, offset: 93428},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93370},
+																																pos:        position{line: 2955, col: 29, offset: 93437},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27613,9 +27613,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93530},
+																													pos: position{line: 2965, col: 8, offset: 93597},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93531,
+																														line: 2965, col: 9, offset: 93598,
 																													},
 																												},
 																											},
@@ -27680,10 +27680,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1712, col: 9, offset: 55734},
 																									expr: &actionExpr{
-																										pos: position{line: 2944, col: 10, offset: 93182},
+																										pos: position{line: 2946, col: 10, offset: 93249},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2944, col: 10, offset: 93182},
+																											pos:        position{line: 2946, col: 10, offset: 93249},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27692,28 +27692,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2966, col: 8, offset: 93580},
+																									pos: position{line: 2968, col: 8, offset: 93647},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2953, col: 12, offset: 93353},
+																											pos: position{line: 2955, col: 12, offset: 93420},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2953, col: 13, offset: 93354},
+																												pos: position{line: 2955, col: 13, offset: 93421},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 13, offset: 93354},
+																														pos:        position{line: 2955, col: 13, offset: 93421},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 20, offset: 93361},
+																														pos:        position{line: 2955, col: 20, offset: 93428},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 29, offset: 93370},
+																														pos:        position{line: 2955, col: 29, offset: 93437},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27722,9 +27722,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2963, col: 8, offset: 93530},
+																											pos: position{line: 2965, col: 8, offset: 93597},
 																											expr: &anyMatcher{
-																												line: 2963, col: 9, offset: 93531,
+																												line: 2965, col: 9, offset: 93598,
 																											},
 																										},
 																									},
@@ -27738,18 +27738,18 @@ var g = &grammar{
 																											pos: position{line: 702, col: 14, offset: 22579},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2961, col: 11, offset: 93516},
+																													pos: position{line: 2963, col: 11, offset: 93583},
 																													expr: &anyMatcher{
-																														line: 2961, col: 13, offset: 93518,
+																														line: 2963, col: 13, offset: 93585,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 702, col: 21, offset: 22586},
 																													expr: &actionExpr{
-																														pos: position{line: 2944, col: 10, offset: 93182},
+																														pos: position{line: 2946, col: 10, offset: 93249},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2944, col: 10, offset: 93182},
+																															pos:        position{line: 2946, col: 10, offset: 93249},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27758,28 +27758,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2966, col: 8, offset: 93580},
+																													pos: position{line: 2968, col: 8, offset: 93647},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2953, col: 12, offset: 93353},
+																															pos: position{line: 2955, col: 12, offset: 93420},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2953, col: 13, offset: 93354},
+																																pos: position{line: 2955, col: 13, offset: 93421},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2953, col: 13, offset: 93354},
+																																		pos:        position{line: 2955, col: 13, offset: 93421},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2953, col: 20, offset: 93361},
+																																		pos:        position{line: 2955, col: 20, offset: 93428},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2953, col: 29, offset: 93370},
+																																		pos:        position{line: 2955, col: 29, offset: 93437},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27788,9 +27788,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2963, col: 8, offset: 93530},
+																															pos: position{line: 2965, col: 8, offset: 93597},
 																															expr: &anyMatcher{
-																																line: 2963, col: 9, offset: 93531,
+																																line: 2965, col: 9, offset: 93598,
 																															},
 																														},
 																													},
@@ -27809,12 +27809,12 @@ var g = &grammar{
 																							pos: position{line: 1719, col: 9, offset: 55882},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2948, col: 11, offset: 93243},
+																									pos: position{line: 2950, col: 11, offset: 93310},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2948, col: 11, offset: 93243},
+																										pos: position{line: 2950, col: 11, offset: 93310},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2948, col: 11, offset: 93243},
+																											pos:        position{line: 2950, col: 11, offset: 93310},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27841,28 +27841,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2966, col: 8, offset: 93580},
+																									pos: position{line: 2968, col: 8, offset: 93647},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2953, col: 12, offset: 93353},
+																											pos: position{line: 2955, col: 12, offset: 93420},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2953, col: 13, offset: 93354},
+																												pos: position{line: 2955, col: 13, offset: 93421},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 13, offset: 93354},
+																														pos:        position{line: 2955, col: 13, offset: 93421},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 20, offset: 93361},
+																														pos:        position{line: 2955, col: 20, offset: 93428},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 29, offset: 93370},
+																														pos:        position{line: 2955, col: 29, offset: 93437},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27871,9 +27871,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2963, col: 8, offset: 93530},
+																											pos: position{line: 2965, col: 8, offset: 93597},
 																											expr: &anyMatcher{
-																												line: 2963, col: 9, offset: 93531,
+																												line: 2965, col: 9, offset: 93598,
 																											},
 																										},
 																									},
@@ -27934,10 +27934,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1608, col: 5, offset: 52186},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93182},
+																								pos: position{line: 2946, col: 10, offset: 93249},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93182},
+																									pos:        position{line: 2946, col: 10, offset: 93249},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28104,12 +28104,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2948, col: 11, offset: 93243},
+																							pos: position{line: 2950, col: 11, offset: 93310},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2948, col: 11, offset: 93243},
+																								pos: position{line: 2950, col: 11, offset: 93310},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2948, col: 11, offset: 93243},
+																									pos:        position{line: 2950, col: 11, offset: 93310},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28152,28 +28152,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28182,9 +28182,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -28214,10 +28214,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1658, col: 5, offset: 54148},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93182},
+																								pos: position{line: 2946, col: 10, offset: 93249},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93182},
+																									pos:        position{line: 2946, col: 10, offset: 93249},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28258,12 +28258,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2948, col: 11, offset: 93243},
+																							pos: position{line: 2950, col: 11, offset: 93310},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2948, col: 11, offset: 93243},
+																								pos: position{line: 2950, col: 11, offset: 93310},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2948, col: 11, offset: 93243},
+																									pos:        position{line: 2950, col: 11, offset: 93310},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28335,12 +28335,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2948, col: 11, offset: 93243},
+																								pos: position{line: 2950, col: 11, offset: 93310},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2948, col: 11, offset: 93243},
+																									pos: position{line: 2950, col: 11, offset: 93310},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2948, col: 11, offset: 93243},
+																										pos:        position{line: 2950, col: 11, offset: 93310},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -28384,28 +28384,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28414,9 +28414,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -28474,12 +28474,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2948, col: 11, offset: 93243},
+																							pos: position{line: 2950, col: 11, offset: 93310},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2948, col: 11, offset: 93243},
+																								pos: position{line: 2950, col: 11, offset: 93310},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2948, col: 11, offset: 93243},
+																									pos:        position{line: 2950, col: 11, offset: 93310},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28522,28 +28522,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28552,9 +28552,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -28584,18 +28584,18 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 1693, col: 5, offset: 55167},
 																							expr: &seqExpr{
-																								pos: position{line: 2543, col: 31, offset: 81992},
+																								pos: position{line: 2545, col: 31, offset: 82059},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2543, col: 31, offset: 81992},
+																										pos:        position{line: 2545, col: 31, offset: 82059},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2543, col: 36, offset: 81997},
+																										pos: position{line: 2545, col: 36, offset: 82064},
 																										expr: &litMatcher{
-																											pos:        position{line: 2543, col: 37, offset: 81998},
+																											pos:        position{line: 2545, col: 37, offset: 82065},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -28645,28 +28645,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1694, col: 35, offset: 55229},
 																										expr: &choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93580},
+																											pos: position{line: 2968, col: 8, offset: 93647},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93353},
+																													pos: position{line: 2955, col: 12, offset: 93420},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93354},
+																														pos: position{line: 2955, col: 13, offset: 93421},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93354},
+																																pos:        position{line: 2955, col: 13, offset: 93421},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93361},
+																																pos:        position{line: 2955, col: 20, offset: 93428},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93370},
+																																pos:        position{line: 2955, col: 29, offset: 93437},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -28675,9 +28675,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93530},
+																													pos: position{line: 2965, col: 8, offset: 93597},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93531,
+																														line: 2965, col: 9, offset: 93598,
 																													},
 																												},
 																											},
@@ -28742,10 +28742,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1712, col: 9, offset: 55734},
 																									expr: &actionExpr{
-																										pos: position{line: 2944, col: 10, offset: 93182},
+																										pos: position{line: 2946, col: 10, offset: 93249},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2944, col: 10, offset: 93182},
+																											pos:        position{line: 2946, col: 10, offset: 93249},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28754,28 +28754,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2966, col: 8, offset: 93580},
+																									pos: position{line: 2968, col: 8, offset: 93647},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2953, col: 12, offset: 93353},
+																											pos: position{line: 2955, col: 12, offset: 93420},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2953, col: 13, offset: 93354},
+																												pos: position{line: 2955, col: 13, offset: 93421},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 13, offset: 93354},
+																														pos:        position{line: 2955, col: 13, offset: 93421},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 20, offset: 93361},
+																														pos:        position{line: 2955, col: 20, offset: 93428},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 29, offset: 93370},
+																														pos:        position{line: 2955, col: 29, offset: 93437},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28784,9 +28784,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2963, col: 8, offset: 93530},
+																											pos: position{line: 2965, col: 8, offset: 93597},
 																											expr: &anyMatcher{
-																												line: 2963, col: 9, offset: 93531,
+																												line: 2965, col: 9, offset: 93598,
 																											},
 																										},
 																									},
@@ -28800,18 +28800,18 @@ var g = &grammar{
 																											pos: position{line: 702, col: 14, offset: 22579},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2961, col: 11, offset: 93516},
+																													pos: position{line: 2963, col: 11, offset: 93583},
 																													expr: &anyMatcher{
-																														line: 2961, col: 13, offset: 93518,
+																														line: 2963, col: 13, offset: 93585,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 702, col: 21, offset: 22586},
 																													expr: &actionExpr{
-																														pos: position{line: 2944, col: 10, offset: 93182},
+																														pos: position{line: 2946, col: 10, offset: 93249},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2944, col: 10, offset: 93182},
+																															pos:        position{line: 2946, col: 10, offset: 93249},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -28820,28 +28820,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2966, col: 8, offset: 93580},
+																													pos: position{line: 2968, col: 8, offset: 93647},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2953, col: 12, offset: 93353},
+																															pos: position{line: 2955, col: 12, offset: 93420},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2953, col: 13, offset: 93354},
+																																pos: position{line: 2955, col: 13, offset: 93421},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2953, col: 13, offset: 93354},
+																																		pos:        position{line: 2955, col: 13, offset: 93421},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2953, col: 20, offset: 93361},
+																																		pos:        position{line: 2955, col: 20, offset: 93428},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2953, col: 29, offset: 93370},
+																																		pos:        position{line: 2955, col: 29, offset: 93437},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28850,9 +28850,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2963, col: 8, offset: 93530},
+																															pos: position{line: 2965, col: 8, offset: 93597},
 																															expr: &anyMatcher{
-																																line: 2963, col: 9, offset: 93531,
+																																line: 2965, col: 9, offset: 93598,
 																															},
 																														},
 																													},
@@ -28871,12 +28871,12 @@ var g = &grammar{
 																							pos: position{line: 1719, col: 9, offset: 55882},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2948, col: 11, offset: 93243},
+																									pos: position{line: 2950, col: 11, offset: 93310},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2948, col: 11, offset: 93243},
+																										pos: position{line: 2950, col: 11, offset: 93310},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2948, col: 11, offset: 93243},
+																											pos:        position{line: 2950, col: 11, offset: 93310},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28903,28 +28903,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2966, col: 8, offset: 93580},
+																									pos: position{line: 2968, col: 8, offset: 93647},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2953, col: 12, offset: 93353},
+																											pos: position{line: 2955, col: 12, offset: 93420},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2953, col: 13, offset: 93354},
+																												pos: position{line: 2955, col: 13, offset: 93421},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 13, offset: 93354},
+																														pos:        position{line: 2955, col: 13, offset: 93421},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 20, offset: 93361},
+																														pos:        position{line: 2955, col: 20, offset: 93428},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 29, offset: 93370},
+																														pos:        position{line: 2955, col: 29, offset: 93437},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28933,9 +28933,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2963, col: 8, offset: 93530},
+																											pos: position{line: 2965, col: 8, offset: 93597},
 																											expr: &anyMatcher{
-																												line: 2963, col: 9, offset: 93531,
+																												line: 2965, col: 9, offset: 93598,
 																											},
 																										},
 																									},
@@ -28960,36 +28960,36 @@ var g = &grammar{
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2538, col: 22, offset: 81742},
+										pos: position{line: 2540, col: 22, offset: 81809},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2538, col: 22, offset: 81742},
+											pos: position{line: 2540, col: 22, offset: 81809},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2543, col: 31, offset: 81992},
+													pos:        position{line: 2545, col: 31, offset: 82059},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2543, col: 36, offset: 81997},
+													pos: position{line: 2545, col: 36, offset: 82064},
 													expr: &litMatcher{
-														pos:        position{line: 2543, col: 37, offset: 81998},
+														pos:        position{line: 2545, col: 37, offset: 82065},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2538, col: 49, offset: 81769},
+													pos:   position{line: 2540, col: 49, offset: 81836},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2890, col: 13, offset: 91708},
+														pos: position{line: 2892, col: 13, offset: 91775},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2890, col: 13, offset: 91708},
+															pos: position{line: 2892, col: 13, offset: 91775},
 															expr: &charClassMatcher{
-																pos:        position{line: 2890, col: 13, offset: 91708},
+																pos:        position{line: 2892, col: 13, offset: 91775},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28999,28 +28999,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2966, col: 8, offset: 93580},
+													pos: position{line: 2968, col: 8, offset: 93647},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93353},
+															pos: position{line: 2955, col: 12, offset: 93420},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93354},
+																pos: position{line: 2955, col: 13, offset: 93421},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93354},
+																		pos:        position{line: 2955, col: 13, offset: 93421},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93361},
+																		pos:        position{line: 2955, col: 20, offset: 93428},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93370},
+																		pos:        position{line: 2955, col: 29, offset: 93437},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29029,9 +29029,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93530},
+															pos: position{line: 2965, col: 8, offset: 93597},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93531,
+																line: 2965, col: 9, offset: 93598,
 															},
 														},
 													},
@@ -29054,18 +29054,18 @@ var g = &grammar{
 															pos: position{line: 702, col: 14, offset: 22579},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2961, col: 11, offset: 93516},
+																	pos: position{line: 2963, col: 11, offset: 93583},
 																	expr: &anyMatcher{
-																		line: 2961, col: 13, offset: 93518,
+																		line: 2963, col: 13, offset: 93585,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 702, col: 21, offset: 22586},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93182},
+																		pos: position{line: 2946, col: 10, offset: 93249},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93182},
+																			pos:        position{line: 2946, col: 10, offset: 93249},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29074,28 +29074,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93580},
+																	pos: position{line: 2968, col: 8, offset: 93647},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93353},
+																			pos: position{line: 2955, col: 12, offset: 93420},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93354},
+																				pos: position{line: 2955, col: 13, offset: 93421},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93354},
+																						pos:        position{line: 2955, col: 13, offset: 93421},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93361},
+																						pos:        position{line: 2955, col: 20, offset: 93428},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93370},
+																						pos:        position{line: 2955, col: 29, offset: 93437},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29104,9 +29104,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93530},
+																			pos: position{line: 2965, col: 8, offset: 93597},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93531,
+																				line: 2965, col: 9, offset: 93598,
 																			},
 																		},
 																	},
@@ -29129,10 +29129,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1567, col: 31, offset: 50971},
 																expr: &actionExpr{
-																	pos: position{line: 2944, col: 10, offset: 93182},
+																	pos: position{line: 2946, col: 10, offset: 93249},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2944, col: 10, offset: 93182},
+																		pos:        position{line: 2946, col: 10, offset: 93249},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -29141,25 +29141,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93353},
+																pos: position{line: 2955, col: 12, offset: 93420},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93354},
+																	pos: position{line: 2955, col: 13, offset: 93421},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93354},
+																			pos:        position{line: 2955, col: 13, offset: 93421},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93361},
+																			pos:        position{line: 2955, col: 20, offset: 93428},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93370},
+																			pos:        position{line: 2955, col: 29, offset: 93437},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -29181,10 +29181,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1608, col: 5, offset: 52186},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93182},
+																		pos: position{line: 2946, col: 10, offset: 93249},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93182},
+																			pos:        position{line: 2946, col: 10, offset: 93249},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29351,12 +29351,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2948, col: 11, offset: 93243},
+																	pos: position{line: 2950, col: 11, offset: 93310},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2948, col: 11, offset: 93243},
+																		pos: position{line: 2950, col: 11, offset: 93310},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2948, col: 11, offset: 93243},
+																			pos:        position{line: 2950, col: 11, offset: 93310},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29379,10 +29379,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1658, col: 5, offset: 54148},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93182},
+																		pos: position{line: 2946, col: 10, offset: 93249},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93182},
+																			pos:        position{line: 2946, col: 10, offset: 93249},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29423,12 +29423,12 @@ var g = &grammar{
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2948, col: 11, offset: 93243},
+																	pos: position{line: 2950, col: 11, offset: 93310},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2948, col: 11, offset: 93243},
+																		pos: position{line: 2950, col: 11, offset: 93310},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2948, col: 11, offset: 93243},
+																			pos:        position{line: 2950, col: 11, offset: 93310},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29479,12 +29479,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2948, col: 11, offset: 93243},
+																	pos: position{line: 2950, col: 11, offset: 93310},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2948, col: 11, offset: 93243},
+																		pos: position{line: 2950, col: 11, offset: 93310},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2948, col: 11, offset: 93243},
+																			pos:        position{line: 2950, col: 11, offset: 93310},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29510,18 +29510,18 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1693, col: 5, offset: 55167},
 																			expr: &seqExpr{
-																				pos: position{line: 2543, col: 31, offset: 81992},
+																				pos: position{line: 2545, col: 31, offset: 82059},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2543, col: 31, offset: 81992},
+																						pos:        position{line: 2545, col: 31, offset: 82059},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2543, col: 36, offset: 81997},
+																						pos: position{line: 2545, col: 36, offset: 82064},
 																						expr: &litMatcher{
-																							pos:        position{line: 2543, col: 37, offset: 81998},
+																							pos:        position{line: 2545, col: 37, offset: 82065},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -29571,28 +29571,28 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1694, col: 35, offset: 55229},
 																						expr: &choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29601,9 +29601,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -29662,7 +29662,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 749, col: 5, offset: 24132},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2834, col: 13, offset: 90277},
+																		pos:        position{line: 2836, col: 13, offset: 90344},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -29712,10 +29712,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 767, col: 8, offset: 24776},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93182},
+																								pos: position{line: 2946, col: 10, offset: 93249},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93182},
+																									pos:        position{line: 2946, col: 10, offset: 93249},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29724,28 +29724,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29754,9 +29754,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -29801,10 +29801,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 774, col: 8, offset: 25024},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93182},
+																								pos: position{line: 2946, col: 10, offset: 93249},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93182},
+																									pos:        position{line: 2946, col: 10, offset: 93249},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29813,28 +29813,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29843,9 +29843,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -29886,10 +29886,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 52, offset: 25436},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93182},
+																								pos: position{line: 2946, col: 10, offset: 93249},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93182},
+																									pos:        position{line: 2946, col: 10, offset: 93249},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29898,28 +29898,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29928,9 +29928,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -29975,10 +29975,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 781, col: 8, offset: 25270},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93182},
+																								pos: position{line: 2946, col: 10, offset: 93249},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93182},
+																									pos:        position{line: 2946, col: 10, offset: 93249},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29987,28 +29987,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30017,9 +30017,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -30064,10 +30064,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 796, col: 8, offset: 25808},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93182},
+																								pos: position{line: 2946, col: 10, offset: 93249},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93182},
+																									pos:        position{line: 2946, col: 10, offset: 93249},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30076,28 +30076,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30106,9 +30106,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -30153,10 +30153,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 810, col: 8, offset: 26284},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93182},
+																								pos: position{line: 2946, col: 10, offset: 93249},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93182},
+																									pos:        position{line: 2946, col: 10, offset: 93249},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30165,28 +30165,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30195,9 +30195,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -30242,10 +30242,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 817, col: 8, offset: 26536},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93182},
+																								pos: position{line: 2946, col: 10, offset: 93249},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93182},
+																									pos:        position{line: 2946, col: 10, offset: 93249},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30254,28 +30254,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30284,9 +30284,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -30331,10 +30331,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 824, col: 8, offset: 26786},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93182},
+																								pos: position{line: 2946, col: 10, offset: 93249},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93182},
+																									pos:        position{line: 2946, col: 10, offset: 93249},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30343,28 +30343,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30373,9 +30373,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -30420,10 +30420,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 831, col: 8, offset: 27032},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93182},
+																								pos: position{line: 2946, col: 10, offset: 93249},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93182},
+																									pos:        position{line: 2946, col: 10, offset: 93249},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30432,28 +30432,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30462,9 +30462,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -30483,12 +30483,12 @@ var g = &grammar{
 													pos:   position{line: 1542, col: 5, offset: 50305},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2894, col: 14, offset: 91775},
+														pos: position{line: 2896, col: 14, offset: 91842},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2894, col: 14, offset: 91775},
+															pos: position{line: 2896, col: 14, offset: 91842},
 															expr: &charClassMatcher{
-																pos:        position{line: 2894, col: 14, offset: 91775},
+																pos:        position{line: 2896, col: 14, offset: 91842},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -30498,28 +30498,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2966, col: 8, offset: 93580},
+													pos: position{line: 2968, col: 8, offset: 93647},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93353},
+															pos: position{line: 2955, col: 12, offset: 93420},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93354},
+																pos: position{line: 2955, col: 13, offset: 93421},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93354},
+																		pos:        position{line: 2955, col: 13, offset: 93421},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93361},
+																		pos:        position{line: 2955, col: 20, offset: 93428},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93370},
+																		pos:        position{line: 2955, col: 29, offset: 93437},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30528,9 +30528,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93530},
+															pos: position{line: 2965, col: 8, offset: 93597},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93531,
+																line: 2965, col: 9, offset: 93598,
 															},
 														},
 													},
@@ -30565,10 +30565,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1559, col: 13, offset: 50729},
 											expr: &actionExpr{
-												pos: position{line: 2944, col: 10, offset: 93182},
+												pos: position{line: 2946, col: 10, offset: 93249},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2944, col: 10, offset: 93182},
+													pos:        position{line: 2946, col: 10, offset: 93249},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -30577,25 +30577,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2953, col: 12, offset: 93353},
+											pos: position{line: 2955, col: 12, offset: 93420},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2953, col: 13, offset: 93354},
+												pos: position{line: 2955, col: 13, offset: 93421},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2953, col: 13, offset: 93354},
+														pos:        position{line: 2955, col: 13, offset: 93421},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2953, col: 20, offset: 93361},
+														pos:        position{line: 2955, col: 20, offset: 93428},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2953, col: 29, offset: 93370},
+														pos:        position{line: 2955, col: 29, offset: 93437},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -30616,10 +30616,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1567, col: 31, offset: 50971},
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 10, offset: 93182},
+								pos: position{line: 2946, col: 10, offset: 93249},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2944, col: 10, offset: 93182},
+									pos:        position{line: 2946, col: 10, offset: 93249},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -30628,25 +30628,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2953, col: 12, offset: 93353},
+							pos: position{line: 2955, col: 12, offset: 93420},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2953, col: 13, offset: 93354},
+								pos: position{line: 2955, col: 13, offset: 93421},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2953, col: 13, offset: 93354},
+										pos:        position{line: 2955, col: 13, offset: 93421},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2953, col: 20, offset: 93361},
+										pos:        position{line: 2955, col: 20, offset: 93428},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2953, col: 29, offset: 93370},
+										pos:        position{line: 2955, col: 29, offset: 93437},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -30657,36 +30657,36 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1561, col: 5, offset: 50778},
 							expr: &actionExpr{
-								pos: position{line: 2538, col: 22, offset: 81742},
+								pos: position{line: 2540, col: 22, offset: 81809},
 								run: (*parser).callonListContinuation24,
 								expr: &seqExpr{
-									pos: position{line: 2538, col: 22, offset: 81742},
+									pos: position{line: 2540, col: 22, offset: 81809},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2543, col: 31, offset: 81992},
+											pos:        position{line: 2545, col: 31, offset: 82059},
 											val:        "//",
 											ignoreCase: false,
 											want:       "\"//\"",
 										},
 										&notExpr{
-											pos: position{line: 2543, col: 36, offset: 81997},
+											pos: position{line: 2545, col: 36, offset: 82064},
 											expr: &litMatcher{
-												pos:        position{line: 2543, col: 37, offset: 81998},
+												pos:        position{line: 2545, col: 37, offset: 82065},
 												val:        "/",
 												ignoreCase: false,
 												want:       "\"/\"",
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2538, col: 49, offset: 81769},
+											pos:   position{line: 2540, col: 49, offset: 81836},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2890, col: 13, offset: 91708},
+												pos: position{line: 2892, col: 13, offset: 91775},
 												run: (*parser).callonListContinuation30,
 												expr: &zeroOrMoreExpr{
-													pos: position{line: 2890, col: 13, offset: 91708},
+													pos: position{line: 2892, col: 13, offset: 91775},
 													expr: &charClassMatcher{
-														pos:        position{line: 2890, col: 13, offset: 91708},
+														pos:        position{line: 2892, col: 13, offset: 91775},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -30696,28 +30696,28 @@ var g = &grammar{
 											},
 										},
 										&choiceExpr{
-											pos: position{line: 2966, col: 8, offset: 93580},
+											pos: position{line: 2968, col: 8, offset: 93647},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2953, col: 12, offset: 93353},
+													pos: position{line: 2955, col: 12, offset: 93420},
 													run: (*parser).callonListContinuation34,
 													expr: &choiceExpr{
-														pos: position{line: 2953, col: 13, offset: 93354},
+														pos: position{line: 2955, col: 13, offset: 93421},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2953, col: 13, offset: 93354},
+																pos:        position{line: 2955, col: 13, offset: 93421},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2953, col: 20, offset: 93361},
+																pos:        position{line: 2955, col: 20, offset: 93428},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2953, col: 29, offset: 93370},
+																pos:        position{line: 2955, col: 29, offset: 93437},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -30726,9 +30726,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2963, col: 8, offset: 93530},
+													pos: position{line: 2965, col: 8, offset: 93597},
 													expr: &anyMatcher{
-														line: 2963, col: 9, offset: 93531,
+														line: 2965, col: 9, offset: 93598,
 													},
 												},
 											},
@@ -30762,9 +30762,9 @@ var g = &grammar{
 					pos: position{line: 1570, col: 5, offset: 51058},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2961, col: 11, offset: 93516},
+							pos: position{line: 2963, col: 11, offset: 93583},
 							expr: &anyMatcher{
-								line: 2961, col: 13, offset: 93518,
+								line: 2963, col: 13, offset: 93585,
 							},
 						},
 						&notExpr{
@@ -30790,10 +30790,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1608, col: 5, offset: 52186},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93182},
+																		pos: position{line: 2946, col: 10, offset: 93249},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93182},
+																			pos:        position{line: 2946, col: 10, offset: 93249},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30960,12 +30960,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2948, col: 11, offset: 93243},
+																	pos: position{line: 2950, col: 11, offset: 93310},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2948, col: 11, offset: 93243},
+																		pos: position{line: 2950, col: 11, offset: 93310},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2948, col: 11, offset: 93243},
+																			pos:        position{line: 2950, col: 11, offset: 93310},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31008,28 +31008,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93580},
+																	pos: position{line: 2968, col: 8, offset: 93647},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93353},
+																			pos: position{line: 2955, col: 12, offset: 93420},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93354},
+																				pos: position{line: 2955, col: 13, offset: 93421},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93354},
+																						pos:        position{line: 2955, col: 13, offset: 93421},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93361},
+																						pos:        position{line: 2955, col: 20, offset: 93428},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93370},
+																						pos:        position{line: 2955, col: 29, offset: 93437},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31038,9 +31038,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93530},
+																			pos: position{line: 2965, col: 8, offset: 93597},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93531,
+																				line: 2965, col: 9, offset: 93598,
 																			},
 																		},
 																	},
@@ -31070,10 +31070,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1658, col: 5, offset: 54148},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93182},
+																		pos: position{line: 2946, col: 10, offset: 93249},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93182},
+																			pos:        position{line: 2946, col: 10, offset: 93249},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31114,12 +31114,12 @@ var g = &grammar{
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2948, col: 11, offset: 93243},
+																	pos: position{line: 2950, col: 11, offset: 93310},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2948, col: 11, offset: 93243},
+																		pos: position{line: 2950, col: 11, offset: 93310},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2948, col: 11, offset: 93243},
+																			pos:        position{line: 2950, col: 11, offset: 93310},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31191,12 +31191,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2948, col: 11, offset: 93243},
+																		pos: position{line: 2950, col: 11, offset: 93310},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2948, col: 11, offset: 93243},
+																			pos: position{line: 2950, col: 11, offset: 93310},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2948, col: 11, offset: 93243},
+																				pos:        position{line: 2950, col: 11, offset: 93310},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -31240,28 +31240,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93580},
+																	pos: position{line: 2968, col: 8, offset: 93647},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93353},
+																			pos: position{line: 2955, col: 12, offset: 93420},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93354},
+																				pos: position{line: 2955, col: 13, offset: 93421},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93354},
+																						pos:        position{line: 2955, col: 13, offset: 93421},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93361},
+																						pos:        position{line: 2955, col: 20, offset: 93428},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93370},
+																						pos:        position{line: 2955, col: 29, offset: 93437},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31270,9 +31270,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93530},
+																			pos: position{line: 2965, col: 8, offset: 93597},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93531,
+																				line: 2965, col: 9, offset: 93598,
 																			},
 																		},
 																	},
@@ -31330,12 +31330,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2948, col: 11, offset: 93243},
+																	pos: position{line: 2950, col: 11, offset: 93310},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2948, col: 11, offset: 93243},
+																		pos: position{line: 2950, col: 11, offset: 93310},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2948, col: 11, offset: 93243},
+																			pos:        position{line: 2950, col: 11, offset: 93310},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31378,28 +31378,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93580},
+																	pos: position{line: 2968, col: 8, offset: 93647},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93353},
+																			pos: position{line: 2955, col: 12, offset: 93420},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93354},
+																				pos: position{line: 2955, col: 13, offset: 93421},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93354},
+																						pos:        position{line: 2955, col: 13, offset: 93421},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93361},
+																						pos:        position{line: 2955, col: 20, offset: 93428},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93370},
+																						pos:        position{line: 2955, col: 29, offset: 93437},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31408,9 +31408,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93530},
+																			pos: position{line: 2965, col: 8, offset: 93597},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93531,
+																				line: 2965, col: 9, offset: 93598,
 																			},
 																		},
 																	},
@@ -31440,18 +31440,18 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1693, col: 5, offset: 55167},
 																	expr: &seqExpr{
-																		pos: position{line: 2543, col: 31, offset: 81992},
+																		pos: position{line: 2545, col: 31, offset: 82059},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2543, col: 31, offset: 81992},
+																				pos:        position{line: 2545, col: 31, offset: 82059},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2543, col: 36, offset: 81997},
+																				pos: position{line: 2545, col: 36, offset: 82064},
 																				expr: &litMatcher{
-																					pos:        position{line: 2543, col: 37, offset: 81998},
+																					pos:        position{line: 2545, col: 37, offset: 82065},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -31501,28 +31501,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1694, col: 35, offset: 55229},
 																				expr: &choiceExpr{
-																					pos: position{line: 2966, col: 8, offset: 93580},
+																					pos: position{line: 2968, col: 8, offset: 93647},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2953, col: 12, offset: 93353},
+																							pos: position{line: 2955, col: 12, offset: 93420},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2953, col: 13, offset: 93354},
+																								pos: position{line: 2955, col: 13, offset: 93421},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 13, offset: 93354},
+																										pos:        position{line: 2955, col: 13, offset: 93421},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 20, offset: 93361},
+																										pos:        position{line: 2955, col: 20, offset: 93428},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 29, offset: 93370},
+																										pos:        position{line: 2955, col: 29, offset: 93437},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31531,9 +31531,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93530},
+																							pos: position{line: 2965, col: 8, offset: 93597},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93531,
+																								line: 2965, col: 9, offset: 93598,
 																							},
 																						},
 																					},
@@ -31598,10 +31598,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1712, col: 9, offset: 55734},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93182},
+																				pos: position{line: 2946, col: 10, offset: 93249},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93182},
+																					pos:        position{line: 2946, col: 10, offset: 93249},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31610,28 +31610,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93580},
+																			pos: position{line: 2968, col: 8, offset: 93647},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93353},
+																					pos: position{line: 2955, col: 12, offset: 93420},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93354},
+																						pos: position{line: 2955, col: 13, offset: 93421},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93354},
+																								pos:        position{line: 2955, col: 13, offset: 93421},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93361},
+																								pos:        position{line: 2955, col: 20, offset: 93428},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93370},
+																								pos:        position{line: 2955, col: 29, offset: 93437},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31640,9 +31640,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -31656,18 +31656,18 @@ var g = &grammar{
 																					pos: position{line: 702, col: 14, offset: 22579},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2961, col: 11, offset: 93516},
+																							pos: position{line: 2963, col: 11, offset: 93583},
 																							expr: &anyMatcher{
-																								line: 2961, col: 13, offset: 93518,
+																								line: 2963, col: 13, offset: 93585,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 702, col: 21, offset: 22586},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93182},
+																								pos: position{line: 2946, col: 10, offset: 93249},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93182},
+																									pos:        position{line: 2946, col: 10, offset: 93249},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31676,28 +31676,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31706,9 +31706,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -31727,12 +31727,12 @@ var g = &grammar{
 																	pos: position{line: 1719, col: 9, offset: 55882},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2948, col: 11, offset: 93243},
+																			pos: position{line: 2950, col: 11, offset: 93310},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2948, col: 11, offset: 93243},
+																				pos: position{line: 2950, col: 11, offset: 93310},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2948, col: 11, offset: 93243},
+																					pos:        position{line: 2950, col: 11, offset: 93310},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31759,28 +31759,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93580},
+																			pos: position{line: 2968, col: 8, offset: 93647},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93353},
+																					pos: position{line: 2955, col: 12, offset: 93420},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93354},
+																						pos: position{line: 2955, col: 13, offset: 93421},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93354},
+																								pos:        position{line: 2955, col: 13, offset: 93421},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93361},
+																								pos:        position{line: 2955, col: 20, offset: 93428},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93370},
+																								pos:        position{line: 2955, col: 29, offset: 93437},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31789,9 +31789,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -31832,18 +31832,18 @@ var g = &grammar{
 											pos: position{line: 702, col: 14, offset: 22579},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2961, col: 11, offset: 93516},
+													pos: position{line: 2963, col: 11, offset: 93583},
 													expr: &anyMatcher{
-														line: 2961, col: 13, offset: 93518,
+														line: 2963, col: 13, offset: 93585,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 702, col: 21, offset: 22586},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93182},
+														pos: position{line: 2946, col: 10, offset: 93249},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93182},
+															pos:        position{line: 2946, col: 10, offset: 93249},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31852,28 +31852,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2966, col: 8, offset: 93580},
+													pos: position{line: 2968, col: 8, offset: 93647},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93353},
+															pos: position{line: 2955, col: 12, offset: 93420},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93354},
+																pos: position{line: 2955, col: 13, offset: 93421},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93354},
+																		pos:        position{line: 2955, col: 13, offset: 93421},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93361},
+																		pos:        position{line: 2955, col: 20, offset: 93428},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93370},
+																		pos:        position{line: 2955, col: 29, offset: 93437},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31882,9 +31882,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93530},
+															pos: position{line: 2965, col: 8, offset: 93597},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93531,
+																line: 2965, col: 9, offset: 93598,
 															},
 														},
 													},
@@ -31949,10 +31949,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 49, offset: 11042},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93182},
+														pos: position{line: 2946, col: 10, offset: 93249},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93182},
+															pos:        position{line: 2946, col: 10, offset: 93249},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31961,28 +31961,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2966, col: 8, offset: 93580},
+													pos: position{line: 2968, col: 8, offset: 93647},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93353},
+															pos: position{line: 2955, col: 12, offset: 93420},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93354},
+																pos: position{line: 2955, col: 13, offset: 93421},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93354},
+																		pos:        position{line: 2955, col: 13, offset: 93421},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93361},
+																		pos:        position{line: 2955, col: 20, offset: 93428},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93370},
+																		pos:        position{line: 2955, col: 29, offset: 93437},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31991,9 +31991,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93530},
+															pos: position{line: 2965, col: 8, offset: 93597},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93531,
+																line: 2965, col: 9, offset: 93598,
 															},
 														},
 													},
@@ -32054,10 +32054,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 364, col: 39, offset: 11163},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93182},
+														pos: position{line: 2946, col: 10, offset: 93249},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93182},
+															pos:        position{line: 2946, col: 10, offset: 93249},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32066,28 +32066,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2966, col: 8, offset: 93580},
+													pos: position{line: 2968, col: 8, offset: 93647},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93353},
+															pos: position{line: 2955, col: 12, offset: 93420},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93354},
+																pos: position{line: 2955, col: 13, offset: 93421},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93354},
+																		pos:        position{line: 2955, col: 13, offset: 93421},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93361},
+																		pos:        position{line: 2955, col: 20, offset: 93428},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93370},
+																		pos:        position{line: 2955, col: 29, offset: 93437},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32096,9 +32096,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93530},
+															pos: position{line: 2965, col: 8, offset: 93597},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93531,
+																line: 2965, col: 9, offset: 93598,
 															},
 														},
 													},
@@ -32149,10 +32149,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 767, col: 8, offset: 24776},
 																expr: &actionExpr{
-																	pos: position{line: 2944, col: 10, offset: 93182},
+																	pos: position{line: 2946, col: 10, offset: 93249},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2944, col: 10, offset: 93182},
+																		pos:        position{line: 2946, col: 10, offset: 93249},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32161,28 +32161,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2966, col: 8, offset: 93580},
+																pos: position{line: 2968, col: 8, offset: 93647},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2953, col: 12, offset: 93353},
+																		pos: position{line: 2955, col: 12, offset: 93420},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2953, col: 13, offset: 93354},
+																			pos: position{line: 2955, col: 13, offset: 93421},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 13, offset: 93354},
+																					pos:        position{line: 2955, col: 13, offset: 93421},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 20, offset: 93361},
+																					pos:        position{line: 2955, col: 20, offset: 93428},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 29, offset: 93370},
+																					pos:        position{line: 2955, col: 29, offset: 93437},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32191,9 +32191,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93530},
+																		pos: position{line: 2965, col: 8, offset: 93597},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93531,
+																			line: 2965, col: 9, offset: 93598,
 																		},
 																	},
 																},
@@ -32254,10 +32254,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 767, col: 8, offset: 24776},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93182},
+																									pos: position{line: 2946, col: 10, offset: 93249},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93182},
+																										pos:        position{line: 2946, col: 10, offset: 93249},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -32266,28 +32266,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2966, col: 8, offset: 93580},
+																								pos: position{line: 2968, col: 8, offset: 93647},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2953, col: 12, offset: 93353},
+																										pos: position{line: 2955, col: 12, offset: 93420},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2953, col: 13, offset: 93354},
+																											pos: position{line: 2955, col: 13, offset: 93421},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 13, offset: 93354},
+																													pos:        position{line: 2955, col: 13, offset: 93421},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 20, offset: 93361},
+																													pos:        position{line: 2955, col: 20, offset: 93428},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 29, offset: 93370},
+																													pos:        position{line: 2955, col: 29, offset: 93437},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -32296,9 +32296,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93530},
+																										pos: position{line: 2965, col: 8, offset: 93597},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93531,
+																											line: 2965, col: 9, offset: 93598,
 																										},
 																									},
 																								},
@@ -32307,9 +32307,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -32325,21 +32325,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27178},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2961, col: 11, offset: 93516},
+																						pos: position{line: 2963, col: 11, offset: 93583},
 																						expr: &anyMatcher{
-																							line: 2961, col: 13, offset: 93518,
+																							line: 2963, col: 13, offset: 93585,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27253},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 13, offset: 91708},
+																							pos: position{line: 2892, col: 13, offset: 91775},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2890, col: 13, offset: 91708},
+																								pos: position{line: 2892, col: 13, offset: 91775},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91708},
+																									pos:        position{line: 2892, col: 13, offset: 91775},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32349,28 +32349,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93580},
+																						pos: position{line: 2968, col: 8, offset: 93647},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93353},
+																								pos: position{line: 2955, col: 12, offset: 93420},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93354},
+																									pos: position{line: 2955, col: 13, offset: 93421},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93354},
+																											pos:        position{line: 2955, col: 13, offset: 93421},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93361},
+																											pos:        position{line: 2955, col: 20, offset: 93428},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93370},
+																											pos:        position{line: 2955, col: 29, offset: 93437},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32379,9 +32379,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93530},
+																								pos: position{line: 2965, col: 8, offset: 93597},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93531,
+																									line: 2965, col: 9, offset: 93598,
 																								},
 																							},
 																						},
@@ -32437,10 +32437,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 767, col: 8, offset: 24776},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93182},
+																				pos: position{line: 2946, col: 10, offset: 93249},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93182},
+																					pos:        position{line: 2946, col: 10, offset: 93249},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -32449,28 +32449,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93580},
+																			pos: position{line: 2968, col: 8, offset: 93647},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93353},
+																					pos: position{line: 2955, col: 12, offset: 93420},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93354},
+																						pos: position{line: 2955, col: 13, offset: 93421},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93354},
+																								pos:        position{line: 2955, col: 13, offset: 93421},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93361},
+																								pos:        position{line: 2955, col: 20, offset: 93428},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93370},
+																								pos:        position{line: 2955, col: 29, offset: 93437},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32479,9 +32479,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -32490,9 +32490,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93530},
+																pos: position{line: 2965, col: 8, offset: 93597},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93531,
+																	line: 2965, col: 9, offset: 93598,
 																},
 															},
 														},
@@ -32547,10 +32547,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 774, col: 8, offset: 25024},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93182},
+																		pos: position{line: 2946, col: 10, offset: 93249},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93182},
+																			pos:        position{line: 2946, col: 10, offset: 93249},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32559,28 +32559,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93580},
+																	pos: position{line: 2968, col: 8, offset: 93647},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93353},
+																			pos: position{line: 2955, col: 12, offset: 93420},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93354},
+																				pos: position{line: 2955, col: 13, offset: 93421},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93354},
+																						pos:        position{line: 2955, col: 13, offset: 93421},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93361},
+																						pos:        position{line: 2955, col: 20, offset: 93428},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93370},
+																						pos:        position{line: 2955, col: 29, offset: 93437},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32589,9 +32589,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93530},
+																			pos: position{line: 2965, col: 8, offset: 93597},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93531,
+																				line: 2965, col: 9, offset: 93598,
 																			},
 																		},
 																	},
@@ -32663,10 +32663,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 774, col: 8, offset: 25024},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93182},
+																												pos: position{line: 2946, col: 10, offset: 93249},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93182},
+																													pos:        position{line: 2946, col: 10, offset: 93249},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32675,28 +32675,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93580},
+																											pos: position{line: 2968, col: 8, offset: 93647},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93353},
+																													pos: position{line: 2955, col: 12, offset: 93420},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93354},
+																														pos: position{line: 2955, col: 13, offset: 93421},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93354},
+																																pos:        position{line: 2955, col: 13, offset: 93421},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93361},
+																																pos:        position{line: 2955, col: 20, offset: 93428},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93370},
+																																pos:        position{line: 2955, col: 29, offset: 93437},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32705,9 +32705,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93530},
+																													pos: position{line: 2965, col: 8, offset: 93597},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93531,
+																														line: 2965, col: 9, offset: 93598,
 																													},
 																												},
 																											},
@@ -32723,9 +32723,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -32741,21 +32741,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27178},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2961, col: 11, offset: 93516},
+																						pos: position{line: 2963, col: 11, offset: 93583},
 																						expr: &anyMatcher{
-																							line: 2961, col: 13, offset: 93518,
+																							line: 2963, col: 13, offset: 93585,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27253},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 13, offset: 91708},
+																							pos: position{line: 2892, col: 13, offset: 91775},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2890, col: 13, offset: 91708},
+																								pos: position{line: 2892, col: 13, offset: 91775},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91708},
+																									pos:        position{line: 2892, col: 13, offset: 91775},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32765,28 +32765,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93580},
+																						pos: position{line: 2968, col: 8, offset: 93647},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93353},
+																								pos: position{line: 2955, col: 12, offset: 93420},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93354},
+																									pos: position{line: 2955, col: 13, offset: 93421},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93354},
+																											pos:        position{line: 2955, col: 13, offset: 93421},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93361},
+																											pos:        position{line: 2955, col: 20, offset: 93428},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93370},
+																											pos:        position{line: 2955, col: 29, offset: 93437},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32795,9 +32795,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93530},
+																								pos: position{line: 2965, col: 8, offset: 93597},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93531,
+																									line: 2965, col: 9, offset: 93598,
 																								},
 																							},
 																						},
@@ -32862,10 +32862,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 774, col: 8, offset: 25024},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93182},
+																								pos: position{line: 2946, col: 10, offset: 93249},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93182},
+																									pos:        position{line: 2946, col: 10, offset: 93249},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32874,28 +32874,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32904,9 +32904,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -32922,9 +32922,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2963, col: 8, offset: 93530},
+																	pos: position{line: 2965, col: 8, offset: 93597},
 																	expr: &anyMatcher{
-																		line: 2963, col: 9, offset: 93531,
+																		line: 2965, col: 9, offset: 93598,
 																	},
 																},
 															},
@@ -32976,10 +32976,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 785, col: 52, offset: 25436},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93182},
+																		pos: position{line: 2946, col: 10, offset: 93249},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93182},
+																			pos:        position{line: 2946, col: 10, offset: 93249},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32988,28 +32988,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93580},
+																	pos: position{line: 2968, col: 8, offset: 93647},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93353},
+																			pos: position{line: 2955, col: 12, offset: 93420},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93354},
+																				pos: position{line: 2955, col: 13, offset: 93421},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93354},
+																						pos:        position{line: 2955, col: 13, offset: 93421},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93361},
+																						pos:        position{line: 2955, col: 20, offset: 93428},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93370},
+																						pos:        position{line: 2955, col: 29, offset: 93437},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33018,9 +33018,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93530},
+																			pos: position{line: 2965, col: 8, offset: 93597},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93531,
+																				line: 2965, col: 9, offset: 93598,
 																			},
 																		},
 																	},
@@ -33054,10 +33054,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 988, col: 40, offset: 31239},
 																					expr: &actionExpr{
-																						pos: position{line: 2944, col: 10, offset: 93182},
+																						pos: position{line: 2946, col: 10, offset: 93249},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2944, col: 10, offset: 93182},
+																							pos:        position{line: 2946, col: 10, offset: 93249},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33066,28 +33066,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2966, col: 8, offset: 93580},
+																					pos: position{line: 2968, col: 8, offset: 93647},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2953, col: 12, offset: 93353},
+																							pos: position{line: 2955, col: 12, offset: 93420},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2953, col: 13, offset: 93354},
+																								pos: position{line: 2955, col: 13, offset: 93421},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 13, offset: 93354},
+																										pos:        position{line: 2955, col: 13, offset: 93421},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 20, offset: 93361},
+																										pos:        position{line: 2955, col: 20, offset: 93428},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 29, offset: 93370},
+																										pos:        position{line: 2955, col: 29, offset: 93437},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33096,9 +33096,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93530},
+																							pos: position{line: 2965, col: 8, offset: 93597},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93531,
+																								line: 2965, col: 9, offset: 93598,
 																							},
 																						},
 																					},
@@ -33116,21 +33116,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27178},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2961, col: 11, offset: 93516},
+																						pos: position{line: 2963, col: 11, offset: 93583},
 																						expr: &anyMatcher{
-																							line: 2961, col: 13, offset: 93518,
+																							line: 2963, col: 13, offset: 93585,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27253},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 13, offset: 91708},
+																							pos: position{line: 2892, col: 13, offset: 91775},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2890, col: 13, offset: 91708},
+																								pos: position{line: 2892, col: 13, offset: 91775},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91708},
+																									pos:        position{line: 2892, col: 13, offset: 91775},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33140,28 +33140,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93580},
+																						pos: position{line: 2968, col: 8, offset: 93647},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93353},
+																								pos: position{line: 2955, col: 12, offset: 93420},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93354},
+																									pos: position{line: 2955, col: 13, offset: 93421},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93354},
+																											pos:        position{line: 2955, col: 13, offset: 93421},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93361},
+																											pos:        position{line: 2955, col: 20, offset: 93428},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93370},
+																											pos:        position{line: 2955, col: 29, offset: 93437},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33170,9 +33170,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93530},
+																								pos: position{line: 2965, col: 8, offset: 93597},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93531,
+																									line: 2965, col: 9, offset: 93598,
 																								},
 																							},
 																						},
@@ -33200,10 +33200,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 988, col: 40, offset: 31239},
 																expr: &actionExpr{
-																	pos: position{line: 2944, col: 10, offset: 93182},
+																	pos: position{line: 2946, col: 10, offset: 93249},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2944, col: 10, offset: 93182},
+																		pos:        position{line: 2946, col: 10, offset: 93249},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -33212,28 +33212,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2966, col: 8, offset: 93580},
+																pos: position{line: 2968, col: 8, offset: 93647},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2953, col: 12, offset: 93353},
+																		pos: position{line: 2955, col: 12, offset: 93420},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2953, col: 13, offset: 93354},
+																			pos: position{line: 2955, col: 13, offset: 93421},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 13, offset: 93354},
+																					pos:        position{line: 2955, col: 13, offset: 93421},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 20, offset: 93361},
+																					pos:        position{line: 2955, col: 20, offset: 93428},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 29, offset: 93370},
+																					pos:        position{line: 2955, col: 29, offset: 93437},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -33242,9 +33242,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93530},
+																		pos: position{line: 2965, col: 8, offset: 93597},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93531,
+																			line: 2965, col: 9, offset: 93598,
 																		},
 																	},
 																},
@@ -33301,10 +33301,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 781, col: 8, offset: 25270},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93182},
+																		pos: position{line: 2946, col: 10, offset: 93249},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93182},
+																			pos:        position{line: 2946, col: 10, offset: 93249},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33313,28 +33313,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93580},
+																	pos: position{line: 2968, col: 8, offset: 93647},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93353},
+																			pos: position{line: 2955, col: 12, offset: 93420},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93354},
+																				pos: position{line: 2955, col: 13, offset: 93421},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93354},
+																						pos:        position{line: 2955, col: 13, offset: 93421},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93361},
+																						pos:        position{line: 2955, col: 20, offset: 93428},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93370},
+																						pos:        position{line: 2955, col: 29, offset: 93437},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33343,9 +33343,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93530},
+																			pos: position{line: 2965, col: 8, offset: 93597},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93531,
+																				line: 2965, col: 9, offset: 93598,
 																			},
 																		},
 																	},
@@ -33417,10 +33417,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 781, col: 8, offset: 25270},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93182},
+																												pos: position{line: 2946, col: 10, offset: 93249},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93182},
+																													pos:        position{line: 2946, col: 10, offset: 93249},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33429,28 +33429,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93580},
+																											pos: position{line: 2968, col: 8, offset: 93647},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93353},
+																													pos: position{line: 2955, col: 12, offset: 93420},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93354},
+																														pos: position{line: 2955, col: 13, offset: 93421},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93354},
+																																pos:        position{line: 2955, col: 13, offset: 93421},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93361},
+																																pos:        position{line: 2955, col: 20, offset: 93428},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93370},
+																																pos:        position{line: 2955, col: 29, offset: 93437},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33459,9 +33459,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93530},
+																													pos: position{line: 2965, col: 8, offset: 93597},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93531,
+																														line: 2965, col: 9, offset: 93598,
 																													},
 																												},
 																											},
@@ -33477,9 +33477,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -33495,21 +33495,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27178},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2961, col: 11, offset: 93516},
+																						pos: position{line: 2963, col: 11, offset: 93583},
 																						expr: &anyMatcher{
-																							line: 2961, col: 13, offset: 93518,
+																							line: 2963, col: 13, offset: 93585,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27253},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 13, offset: 91708},
+																							pos: position{line: 2892, col: 13, offset: 91775},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2890, col: 13, offset: 91708},
+																								pos: position{line: 2892, col: 13, offset: 91775},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91708},
+																									pos:        position{line: 2892, col: 13, offset: 91775},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33519,28 +33519,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93580},
+																						pos: position{line: 2968, col: 8, offset: 93647},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93353},
+																								pos: position{line: 2955, col: 12, offset: 93420},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93354},
+																									pos: position{line: 2955, col: 13, offset: 93421},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93354},
+																											pos:        position{line: 2955, col: 13, offset: 93421},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93361},
+																											pos:        position{line: 2955, col: 20, offset: 93428},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93370},
+																											pos:        position{line: 2955, col: 29, offset: 93437},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33549,9 +33549,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93530},
+																								pos: position{line: 2965, col: 8, offset: 93597},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93531,
+																									line: 2965, col: 9, offset: 93598,
 																								},
 																							},
 																						},
@@ -33616,10 +33616,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 781, col: 8, offset: 25270},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93182},
+																								pos: position{line: 2946, col: 10, offset: 93249},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93182},
+																									pos:        position{line: 2946, col: 10, offset: 93249},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33628,28 +33628,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33658,9 +33658,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -33676,9 +33676,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2963, col: 8, offset: 93530},
+																	pos: position{line: 2965, col: 8, offset: 93597},
 																	expr: &anyMatcher{
-																		line: 2963, col: 9, offset: 93531,
+																		line: 2965, col: 9, offset: 93598,
 																	},
 																},
 															},
@@ -33734,10 +33734,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 796, col: 8, offset: 25808},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93182},
+																		pos: position{line: 2946, col: 10, offset: 93249},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93182},
+																			pos:        position{line: 2946, col: 10, offset: 93249},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33746,28 +33746,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93580},
+																	pos: position{line: 2968, col: 8, offset: 93647},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93353},
+																			pos: position{line: 2955, col: 12, offset: 93420},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93354},
+																				pos: position{line: 2955, col: 13, offset: 93421},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93354},
+																						pos:        position{line: 2955, col: 13, offset: 93421},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93361},
+																						pos:        position{line: 2955, col: 20, offset: 93428},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93370},
+																						pos:        position{line: 2955, col: 29, offset: 93437},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33776,9 +33776,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93530},
+																			pos: position{line: 2965, col: 8, offset: 93597},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93531,
+																				line: 2965, col: 9, offset: 93598,
 																			},
 																		},
 																	},
@@ -33850,10 +33850,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 796, col: 8, offset: 25808},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93182},
+																												pos: position{line: 2946, col: 10, offset: 93249},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93182},
+																													pos:        position{line: 2946, col: 10, offset: 93249},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33862,28 +33862,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93580},
+																											pos: position{line: 2968, col: 8, offset: 93647},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93353},
+																													pos: position{line: 2955, col: 12, offset: 93420},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93354},
+																														pos: position{line: 2955, col: 13, offset: 93421},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93354},
+																																pos:        position{line: 2955, col: 13, offset: 93421},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93361},
+																																pos:        position{line: 2955, col: 20, offset: 93428},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93370},
+																																pos:        position{line: 2955, col: 29, offset: 93437},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33892,9 +33892,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93530},
+																													pos: position{line: 2965, col: 8, offset: 93597},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93531,
+																														line: 2965, col: 9, offset: 93598,
 																													},
 																												},
 																											},
@@ -33910,9 +33910,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -33928,21 +33928,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27178},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2961, col: 11, offset: 93516},
+																						pos: position{line: 2963, col: 11, offset: 93583},
 																						expr: &anyMatcher{
-																							line: 2961, col: 13, offset: 93518,
+																							line: 2963, col: 13, offset: 93585,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27253},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 13, offset: 91708},
+																							pos: position{line: 2892, col: 13, offset: 91775},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2890, col: 13, offset: 91708},
+																								pos: position{line: 2892, col: 13, offset: 91775},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91708},
+																									pos:        position{line: 2892, col: 13, offset: 91775},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33952,28 +33952,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93580},
+																						pos: position{line: 2968, col: 8, offset: 93647},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93353},
+																								pos: position{line: 2955, col: 12, offset: 93420},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93354},
+																									pos: position{line: 2955, col: 13, offset: 93421},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93354},
+																											pos:        position{line: 2955, col: 13, offset: 93421},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93361},
+																											pos:        position{line: 2955, col: 20, offset: 93428},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93370},
+																											pos:        position{line: 2955, col: 29, offset: 93437},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33982,9 +33982,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93530},
+																								pos: position{line: 2965, col: 8, offset: 93597},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93531,
+																									line: 2965, col: 9, offset: 93598,
 																								},
 																							},
 																						},
@@ -34049,10 +34049,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 796, col: 8, offset: 25808},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93182},
+																								pos: position{line: 2946, col: 10, offset: 93249},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93182},
+																									pos:        position{line: 2946, col: 10, offset: 93249},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34061,28 +34061,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34091,9 +34091,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -34109,9 +34109,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2963, col: 8, offset: 93530},
+																	pos: position{line: 2965, col: 8, offset: 93597},
 																	expr: &anyMatcher{
-																		line: 2963, col: 9, offset: 93531,
+																		line: 2965, col: 9, offset: 93598,
 																	},
 																},
 															},
@@ -34167,10 +34167,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 810, col: 8, offset: 26284},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93182},
+																		pos: position{line: 2946, col: 10, offset: 93249},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93182},
+																			pos:        position{line: 2946, col: 10, offset: 93249},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34179,28 +34179,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93580},
+																	pos: position{line: 2968, col: 8, offset: 93647},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93353},
+																			pos: position{line: 2955, col: 12, offset: 93420},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93354},
+																				pos: position{line: 2955, col: 13, offset: 93421},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93354},
+																						pos:        position{line: 2955, col: 13, offset: 93421},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93361},
+																						pos:        position{line: 2955, col: 20, offset: 93428},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93370},
+																						pos:        position{line: 2955, col: 29, offset: 93437},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34209,9 +34209,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93530},
+																			pos: position{line: 2965, col: 8, offset: 93597},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93531,
+																				line: 2965, col: 9, offset: 93598,
 																			},
 																		},
 																	},
@@ -34283,10 +34283,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 810, col: 8, offset: 26284},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93182},
+																												pos: position{line: 2946, col: 10, offset: 93249},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93182},
+																													pos:        position{line: 2946, col: 10, offset: 93249},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34295,28 +34295,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93580},
+																											pos: position{line: 2968, col: 8, offset: 93647},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93353},
+																													pos: position{line: 2955, col: 12, offset: 93420},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93354},
+																														pos: position{line: 2955, col: 13, offset: 93421},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93354},
+																																pos:        position{line: 2955, col: 13, offset: 93421},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93361},
+																																pos:        position{line: 2955, col: 20, offset: 93428},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93370},
+																																pos:        position{line: 2955, col: 29, offset: 93437},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34325,9 +34325,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93530},
+																													pos: position{line: 2965, col: 8, offset: 93597},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93531,
+																														line: 2965, col: 9, offset: 93598,
 																													},
 																												},
 																											},
@@ -34343,9 +34343,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -34361,21 +34361,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27178},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2961, col: 11, offset: 93516},
+																						pos: position{line: 2963, col: 11, offset: 93583},
 																						expr: &anyMatcher{
-																							line: 2961, col: 13, offset: 93518,
+																							line: 2963, col: 13, offset: 93585,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27253},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 13, offset: 91708},
+																							pos: position{line: 2892, col: 13, offset: 91775},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2890, col: 13, offset: 91708},
+																								pos: position{line: 2892, col: 13, offset: 91775},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91708},
+																									pos:        position{line: 2892, col: 13, offset: 91775},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34385,28 +34385,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93580},
+																						pos: position{line: 2968, col: 8, offset: 93647},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93353},
+																								pos: position{line: 2955, col: 12, offset: 93420},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93354},
+																									pos: position{line: 2955, col: 13, offset: 93421},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93354},
+																											pos:        position{line: 2955, col: 13, offset: 93421},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93361},
+																											pos:        position{line: 2955, col: 20, offset: 93428},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93370},
+																											pos:        position{line: 2955, col: 29, offset: 93437},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34415,9 +34415,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93530},
+																								pos: position{line: 2965, col: 8, offset: 93597},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93531,
+																									line: 2965, col: 9, offset: 93598,
 																								},
 																							},
 																						},
@@ -34482,10 +34482,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 810, col: 8, offset: 26284},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93182},
+																								pos: position{line: 2946, col: 10, offset: 93249},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93182},
+																									pos:        position{line: 2946, col: 10, offset: 93249},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34494,28 +34494,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34524,9 +34524,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -34542,9 +34542,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2963, col: 8, offset: 93530},
+																	pos: position{line: 2965, col: 8, offset: 93597},
 																	expr: &anyMatcher{
-																		line: 2963, col: 9, offset: 93531,
+																		line: 2965, col: 9, offset: 93598,
 																	},
 																},
 															},
@@ -34578,18 +34578,18 @@ var g = &grammar{
 																			pos: position{line: 702, col: 14, offset: 22579},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2961, col: 11, offset: 93516},
+																					pos: position{line: 2963, col: 11, offset: 93583},
 																					expr: &anyMatcher{
-																						line: 2961, col: 13, offset: 93518,
+																						line: 2963, col: 13, offset: 93585,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 702, col: 21, offset: 22586},
 																					expr: &actionExpr{
-																						pos: position{line: 2944, col: 10, offset: 93182},
+																						pos: position{line: 2946, col: 10, offset: 93249},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2944, col: 10, offset: 93182},
+																							pos:        position{line: 2946, col: 10, offset: 93249},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -34598,28 +34598,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2966, col: 8, offset: 93580},
+																					pos: position{line: 2968, col: 8, offset: 93647},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2953, col: 12, offset: 93353},
+																							pos: position{line: 2955, col: 12, offset: 93420},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2953, col: 13, offset: 93354},
+																								pos: position{line: 2955, col: 13, offset: 93421},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 13, offset: 93354},
+																										pos:        position{line: 2955, col: 13, offset: 93421},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 20, offset: 93361},
+																										pos:        position{line: 2955, col: 20, offset: 93428},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 29, offset: 93370},
+																										pos:        position{line: 2955, col: 29, offset: 93437},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -34628,9 +34628,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93530},
+																							pos: position{line: 2965, col: 8, offset: 93597},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93531,
+																								line: 2965, col: 9, offset: 93598,
 																							},
 																						},
 																					},
@@ -34649,12 +34649,12 @@ var g = &grammar{
 																	pos:   position{line: 1009, col: 5, offset: 31774},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2894, col: 14, offset: 91775},
+																		pos: position{line: 2896, col: 14, offset: 91842},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2894, col: 14, offset: 91775},
+																			pos: position{line: 2896, col: 14, offset: 91842},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2894, col: 14, offset: 91775},
+																				pos:        position{line: 2896, col: 14, offset: 91842},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -34664,28 +34664,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93580},
+																	pos: position{line: 2968, col: 8, offset: 93647},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93353},
+																			pos: position{line: 2955, col: 12, offset: 93420},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93354},
+																				pos: position{line: 2955, col: 13, offset: 93421},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93354},
+																						pos:        position{line: 2955, col: 13, offset: 93421},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93361},
+																						pos:        position{line: 2955, col: 20, offset: 93428},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93370},
+																						pos:        position{line: 2955, col: 29, offset: 93437},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34694,9 +34694,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93530},
+																			pos: position{line: 2965, col: 8, offset: 93597},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93531,
+																				line: 2965, col: 9, offset: 93598,
 																			},
 																		},
 																	},
@@ -34728,18 +34728,18 @@ var g = &grammar{
 																						pos: position{line: 702, col: 14, offset: 22579},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2961, col: 11, offset: 93516},
+																								pos: position{line: 2963, col: 11, offset: 93583},
 																								expr: &anyMatcher{
-																									line: 2961, col: 13, offset: 93518,
+																									line: 2963, col: 13, offset: 93585,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 702, col: 21, offset: 22586},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93182},
+																									pos: position{line: 2946, col: 10, offset: 93249},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93182},
+																										pos:        position{line: 2946, col: 10, offset: 93249},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34748,28 +34748,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2966, col: 8, offset: 93580},
+																								pos: position{line: 2968, col: 8, offset: 93647},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2953, col: 12, offset: 93353},
+																										pos: position{line: 2955, col: 12, offset: 93420},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2953, col: 13, offset: 93354},
+																											pos: position{line: 2955, col: 13, offset: 93421},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 13, offset: 93354},
+																													pos:        position{line: 2955, col: 13, offset: 93421},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 20, offset: 93361},
+																													pos:        position{line: 2955, col: 20, offset: 93428},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 29, offset: 93370},
+																													pos:        position{line: 2955, col: 29, offset: 93437},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34778,9 +34778,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93530},
+																										pos: position{line: 2965, col: 8, offset: 93597},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93531,
+																											line: 2965, col: 9, offset: 93598,
 																										},
 																									},
 																								},
@@ -34799,12 +34799,12 @@ var g = &grammar{
 																				pos:   position{line: 1009, col: 5, offset: 31774},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2894, col: 14, offset: 91775},
+																					pos: position{line: 2896, col: 14, offset: 91842},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2894, col: 14, offset: 91775},
+																						pos: position{line: 2896, col: 14, offset: 91842},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2894, col: 14, offset: 91775},
+																							pos:        position{line: 2896, col: 14, offset: 91842},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34814,28 +34814,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2966, col: 8, offset: 93580},
+																				pos: position{line: 2968, col: 8, offset: 93647},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2953, col: 12, offset: 93353},
+																						pos: position{line: 2955, col: 12, offset: 93420},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2953, col: 13, offset: 93354},
+																							pos: position{line: 2955, col: 13, offset: 93421},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 13, offset: 93354},
+																									pos:        position{line: 2955, col: 13, offset: 93421},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 20, offset: 93361},
+																									pos:        position{line: 2955, col: 20, offset: 93428},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 29, offset: 93370},
+																									pos:        position{line: 2955, col: 29, offset: 93437},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34844,9 +34844,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93530},
+																						pos: position{line: 2965, col: 8, offset: 93597},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93531,
+																							line: 2965, col: 9, offset: 93598,
 																						},
 																					},
 																				},
@@ -34855,21 +34855,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1816, col: 5, offset: 58968},
+																	pos: position{line: 1818, col: 5, offset: 59035},
 																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 1816, col: 5, offset: 58968},
+																		pos: position{line: 1818, col: 5, offset: 59035},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1816, col: 5, offset: 58968},
+																				pos:   position{line: 1818, col: 5, offset: 59035},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2894, col: 14, offset: 91775},
+																					pos: position{line: 2896, col: 14, offset: 91842},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2894, col: 14, offset: 91775},
+																						pos: position{line: 2896, col: 14, offset: 91842},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2894, col: 14, offset: 91775},
+																							pos:        position{line: 2896, col: 14, offset: 91842},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34879,32 +34879,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1817, col: 5, offset: 58992},
+																				pos: position{line: 1819, col: 5, offset: 59059},
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2966, col: 8, offset: 93580},
+																				pos: position{line: 2968, col: 8, offset: 93647},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2953, col: 12, offset: 93353},
+																						pos: position{line: 2955, col: 12, offset: 93420},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2953, col: 13, offset: 93354},
+																							pos: position{line: 2955, col: 13, offset: 93421},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 13, offset: 93354},
+																									pos:        position{line: 2955, col: 13, offset: 93421},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 20, offset: 93361},
+																									pos:        position{line: 2955, col: 20, offset: 93428},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 29, offset: 93370},
+																									pos:        position{line: 2955, col: 29, offset: 93437},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34913,9 +34913,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93530},
+																						pos: position{line: 2965, col: 8, offset: 93597},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93531,
+																							line: 2965, col: 9, offset: 93598,
 																						},
 																					},
 																				},
@@ -34962,10 +34962,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 803, col: 8, offset: 26039},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93182},
+																		pos: position{line: 2946, col: 10, offset: 93249},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93182},
+																			pos:        position{line: 2946, col: 10, offset: 93249},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34974,28 +34974,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93580},
+																	pos: position{line: 2968, col: 8, offset: 93647},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93353},
+																			pos: position{line: 2955, col: 12, offset: 93420},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93354},
+																				pos: position{line: 2955, col: 13, offset: 93421},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93354},
+																						pos:        position{line: 2955, col: 13, offset: 93421},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93361},
+																						pos:        position{line: 2955, col: 20, offset: 93428},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93370},
+																						pos:        position{line: 2955, col: 29, offset: 93437},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35004,9 +35004,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93530},
+																			pos: position{line: 2965, col: 8, offset: 93597},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93531,
+																				line: 2965, col: 9, offset: 93598,
 																			},
 																		},
 																	},
@@ -35054,10 +35054,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 803, col: 8, offset: 26039},
 																								expr: &actionExpr{
-																									pos: position{line: 2944, col: 10, offset: 93182},
+																									pos: position{line: 2946, col: 10, offset: 93249},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2944, col: 10, offset: 93182},
+																										pos:        position{line: 2946, col: 10, offset: 93249},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35066,28 +35066,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2966, col: 8, offset: 93580},
+																								pos: position{line: 2968, col: 8, offset: 93647},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2953, col: 12, offset: 93353},
+																										pos: position{line: 2955, col: 12, offset: 93420},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2953, col: 13, offset: 93354},
+																											pos: position{line: 2955, col: 13, offset: 93421},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 13, offset: 93354},
+																													pos:        position{line: 2955, col: 13, offset: 93421},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 20, offset: 93361},
+																													pos:        position{line: 2955, col: 20, offset: 93428},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2953, col: 29, offset: 93370},
+																													pos:        position{line: 2955, col: 29, offset: 93437},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35096,9 +35096,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2963, col: 8, offset: 93530},
+																										pos: position{line: 2965, col: 8, offset: 93597},
 																										expr: &anyMatcher{
-																											line: 2963, col: 9, offset: 93531,
+																											line: 2965, col: 9, offset: 93598,
 																										},
 																									},
 																								},
@@ -35107,9 +35107,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -35125,21 +35125,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27178},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2961, col: 11, offset: 93516},
+																						pos: position{line: 2963, col: 11, offset: 93583},
 																						expr: &anyMatcher{
-																							line: 2961, col: 13, offset: 93518,
+																							line: 2963, col: 13, offset: 93585,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27253},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 13, offset: 91708},
+																							pos: position{line: 2892, col: 13, offset: 91775},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2890, col: 13, offset: 91708},
+																								pos: position{line: 2892, col: 13, offset: 91775},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91708},
+																									pos:        position{line: 2892, col: 13, offset: 91775},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35149,28 +35149,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93580},
+																						pos: position{line: 2968, col: 8, offset: 93647},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93353},
+																								pos: position{line: 2955, col: 12, offset: 93420},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93354},
+																									pos: position{line: 2955, col: 13, offset: 93421},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93354},
+																											pos:        position{line: 2955, col: 13, offset: 93421},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93361},
+																											pos:        position{line: 2955, col: 20, offset: 93428},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93370},
+																											pos:        position{line: 2955, col: 29, offset: 93437},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35179,9 +35179,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93530},
+																								pos: position{line: 2965, col: 8, offset: 93597},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93531,
+																									line: 2965, col: 9, offset: 93598,
 																								},
 																							},
 																						},
@@ -35226,10 +35226,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 803, col: 8, offset: 26039},
 																				expr: &actionExpr{
-																					pos: position{line: 2944, col: 10, offset: 93182},
+																					pos: position{line: 2946, col: 10, offset: 93249},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2944, col: 10, offset: 93182},
+																						pos:        position{line: 2946, col: 10, offset: 93249},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35238,28 +35238,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2966, col: 8, offset: 93580},
+																				pos: position{line: 2968, col: 8, offset: 93647},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2953, col: 12, offset: 93353},
+																						pos: position{line: 2955, col: 12, offset: 93420},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2953, col: 13, offset: 93354},
+																							pos: position{line: 2955, col: 13, offset: 93421},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 13, offset: 93354},
+																									pos:        position{line: 2955, col: 13, offset: 93421},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 20, offset: 93361},
+																									pos:        position{line: 2955, col: 20, offset: 93428},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 29, offset: 93370},
+																									pos:        position{line: 2955, col: 29, offset: 93437},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35268,9 +35268,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93530},
+																						pos: position{line: 2965, col: 8, offset: 93597},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93531,
+																							line: 2965, col: 9, offset: 93598,
 																						},
 																					},
 																				},
@@ -35279,9 +35279,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2963, col: 8, offset: 93530},
+																	pos: position{line: 2965, col: 8, offset: 93597},
 																	expr: &anyMatcher{
-																		line: 2963, col: 9, offset: 93531,
+																		line: 2965, col: 9, offset: 93598,
 																	},
 																},
 															},
@@ -35337,10 +35337,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 817, col: 8, offset: 26536},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93182},
+																		pos: position{line: 2946, col: 10, offset: 93249},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93182},
+																			pos:        position{line: 2946, col: 10, offset: 93249},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35349,28 +35349,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93580},
+																	pos: position{line: 2968, col: 8, offset: 93647},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93353},
+																			pos: position{line: 2955, col: 12, offset: 93420},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93354},
+																				pos: position{line: 2955, col: 13, offset: 93421},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93354},
+																						pos:        position{line: 2955, col: 13, offset: 93421},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93361},
+																						pos:        position{line: 2955, col: 20, offset: 93428},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93370},
+																						pos:        position{line: 2955, col: 29, offset: 93437},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35379,9 +35379,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93530},
+																			pos: position{line: 2965, col: 8, offset: 93597},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93531,
+																				line: 2965, col: 9, offset: 93598,
 																			},
 																		},
 																	},
@@ -35453,10 +35453,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 817, col: 8, offset: 26536},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93182},
+																												pos: position{line: 2946, col: 10, offset: 93249},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93182},
+																													pos:        position{line: 2946, col: 10, offset: 93249},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35465,28 +35465,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93580},
+																											pos: position{line: 2968, col: 8, offset: 93647},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93353},
+																													pos: position{line: 2955, col: 12, offset: 93420},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93354},
+																														pos: position{line: 2955, col: 13, offset: 93421},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93354},
+																																pos:        position{line: 2955, col: 13, offset: 93421},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93361},
+																																pos:        position{line: 2955, col: 20, offset: 93428},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93370},
+																																pos:        position{line: 2955, col: 29, offset: 93437},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35495,9 +35495,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93530},
+																													pos: position{line: 2965, col: 8, offset: 93597},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93531,
+																														line: 2965, col: 9, offset: 93598,
 																													},
 																												},
 																											},
@@ -35513,9 +35513,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -35531,21 +35531,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27178},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2961, col: 11, offset: 93516},
+																						pos: position{line: 2963, col: 11, offset: 93583},
 																						expr: &anyMatcher{
-																							line: 2961, col: 13, offset: 93518,
+																							line: 2963, col: 13, offset: 93585,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27253},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 13, offset: 91708},
+																							pos: position{line: 2892, col: 13, offset: 91775},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2890, col: 13, offset: 91708},
+																								pos: position{line: 2892, col: 13, offset: 91775},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91708},
+																									pos:        position{line: 2892, col: 13, offset: 91775},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35555,28 +35555,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93580},
+																						pos: position{line: 2968, col: 8, offset: 93647},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93353},
+																								pos: position{line: 2955, col: 12, offset: 93420},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93354},
+																									pos: position{line: 2955, col: 13, offset: 93421},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93354},
+																											pos:        position{line: 2955, col: 13, offset: 93421},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93361},
+																											pos:        position{line: 2955, col: 20, offset: 93428},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93370},
+																											pos:        position{line: 2955, col: 29, offset: 93437},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35585,9 +35585,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93530},
+																								pos: position{line: 2965, col: 8, offset: 93597},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93531,
+																									line: 2965, col: 9, offset: 93598,
 																								},
 																							},
 																						},
@@ -35652,10 +35652,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 817, col: 8, offset: 26536},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93182},
+																								pos: position{line: 2946, col: 10, offset: 93249},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93182},
+																									pos:        position{line: 2946, col: 10, offset: 93249},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35664,28 +35664,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35694,9 +35694,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -35712,9 +35712,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2963, col: 8, offset: 93530},
+																	pos: position{line: 2965, col: 8, offset: 93597},
 																	expr: &anyMatcher{
-																		line: 2963, col: 9, offset: 93531,
+																		line: 2965, col: 9, offset: 93598,
 																	},
 																},
 															},
@@ -35770,10 +35770,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 824, col: 8, offset: 26786},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93182},
+																		pos: position{line: 2946, col: 10, offset: 93249},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93182},
+																			pos:        position{line: 2946, col: 10, offset: 93249},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35782,28 +35782,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93580},
+																	pos: position{line: 2968, col: 8, offset: 93647},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93353},
+																			pos: position{line: 2955, col: 12, offset: 93420},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93354},
+																				pos: position{line: 2955, col: 13, offset: 93421},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93354},
+																						pos:        position{line: 2955, col: 13, offset: 93421},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93361},
+																						pos:        position{line: 2955, col: 20, offset: 93428},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93370},
+																						pos:        position{line: 2955, col: 29, offset: 93437},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35812,9 +35812,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93530},
+																			pos: position{line: 2965, col: 8, offset: 93597},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93531,
+																				line: 2965, col: 9, offset: 93598,
 																			},
 																		},
 																	},
@@ -35886,10 +35886,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 824, col: 8, offset: 26786},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93182},
+																												pos: position{line: 2946, col: 10, offset: 93249},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93182},
+																													pos:        position{line: 2946, col: 10, offset: 93249},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35898,28 +35898,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93580},
+																											pos: position{line: 2968, col: 8, offset: 93647},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93353},
+																													pos: position{line: 2955, col: 12, offset: 93420},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93354},
+																														pos: position{line: 2955, col: 13, offset: 93421},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93354},
+																																pos:        position{line: 2955, col: 13, offset: 93421},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93361},
+																																pos:        position{line: 2955, col: 20, offset: 93428},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93370},
+																																pos:        position{line: 2955, col: 29, offset: 93437},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35928,9 +35928,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93530},
+																													pos: position{line: 2965, col: 8, offset: 93597},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93531,
+																														line: 2965, col: 9, offset: 93598,
 																													},
 																												},
 																											},
@@ -35946,9 +35946,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -35964,21 +35964,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27178},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2961, col: 11, offset: 93516},
+																						pos: position{line: 2963, col: 11, offset: 93583},
 																						expr: &anyMatcher{
-																							line: 2961, col: 13, offset: 93518,
+																							line: 2963, col: 13, offset: 93585,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27253},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 13, offset: 91708},
+																							pos: position{line: 2892, col: 13, offset: 91775},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2890, col: 13, offset: 91708},
+																								pos: position{line: 2892, col: 13, offset: 91775},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91708},
+																									pos:        position{line: 2892, col: 13, offset: 91775},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35988,28 +35988,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93580},
+																						pos: position{line: 2968, col: 8, offset: 93647},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93353},
+																								pos: position{line: 2955, col: 12, offset: 93420},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93354},
+																									pos: position{line: 2955, col: 13, offset: 93421},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93354},
+																											pos:        position{line: 2955, col: 13, offset: 93421},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93361},
+																											pos:        position{line: 2955, col: 20, offset: 93428},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93370},
+																											pos:        position{line: 2955, col: 29, offset: 93437},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36018,9 +36018,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93530},
+																								pos: position{line: 2965, col: 8, offset: 93597},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93531,
+																									line: 2965, col: 9, offset: 93598,
 																								},
 																							},
 																						},
@@ -36085,10 +36085,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 824, col: 8, offset: 26786},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93182},
+																								pos: position{line: 2946, col: 10, offset: 93249},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93182},
+																									pos:        position{line: 2946, col: 10, offset: 93249},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36097,28 +36097,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36127,9 +36127,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -36145,9 +36145,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2963, col: 8, offset: 93530},
+																	pos: position{line: 2965, col: 8, offset: 93597},
 																	expr: &anyMatcher{
-																		line: 2963, col: 9, offset: 93531,
+																		line: 2965, col: 9, offset: 93598,
 																	},
 																},
 															},
@@ -36203,10 +36203,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 831, col: 8, offset: 27032},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93182},
+																		pos: position{line: 2946, col: 10, offset: 93249},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93182},
+																			pos:        position{line: 2946, col: 10, offset: 93249},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36215,28 +36215,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93580},
+																	pos: position{line: 2968, col: 8, offset: 93647},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93353},
+																			pos: position{line: 2955, col: 12, offset: 93420},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93354},
+																				pos: position{line: 2955, col: 13, offset: 93421},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93354},
+																						pos:        position{line: 2955, col: 13, offset: 93421},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93361},
+																						pos:        position{line: 2955, col: 20, offset: 93428},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93370},
+																						pos:        position{line: 2955, col: 29, offset: 93437},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36245,9 +36245,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93530},
+																			pos: position{line: 2965, col: 8, offset: 93597},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93531,
+																				line: 2965, col: 9, offset: 93598,
 																			},
 																		},
 																	},
@@ -36319,10 +36319,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 831, col: 8, offset: 27032},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93182},
+																												pos: position{line: 2946, col: 10, offset: 93249},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93182},
+																													pos:        position{line: 2946, col: 10, offset: 93249},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36331,28 +36331,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93580},
+																											pos: position{line: 2968, col: 8, offset: 93647},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93353},
+																													pos: position{line: 2955, col: 12, offset: 93420},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93354},
+																														pos: position{line: 2955, col: 13, offset: 93421},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93354},
+																																pos:        position{line: 2955, col: 13, offset: 93421},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93361},
+																																pos:        position{line: 2955, col: 20, offset: 93428},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93370},
+																																pos:        position{line: 2955, col: 29, offset: 93437},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36361,9 +36361,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93530},
+																													pos: position{line: 2965, col: 8, offset: 93597},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93531,
+																														line: 2965, col: 9, offset: 93598,
 																													},
 																												},
 																											},
@@ -36379,9 +36379,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -36397,21 +36397,21 @@ var g = &grammar{
 																				pos: position{line: 836, col: 5, offset: 27178},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2961, col: 11, offset: 93516},
+																						pos: position{line: 2963, col: 11, offset: 93583},
 																						expr: &anyMatcher{
-																							line: 2961, col: 13, offset: 93518,
+																							line: 2963, col: 13, offset: 93585,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 837, col: 5, offset: 27253},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 13, offset: 91708},
+																							pos: position{line: 2892, col: 13, offset: 91775},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2890, col: 13, offset: 91708},
+																								pos: position{line: 2892, col: 13, offset: 91775},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91708},
+																									pos:        position{line: 2892, col: 13, offset: 91775},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36421,28 +36421,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93580},
+																						pos: position{line: 2968, col: 8, offset: 93647},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93353},
+																								pos: position{line: 2955, col: 12, offset: 93420},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93354},
+																									pos: position{line: 2955, col: 13, offset: 93421},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93354},
+																											pos:        position{line: 2955, col: 13, offset: 93421},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93361},
+																											pos:        position{line: 2955, col: 20, offset: 93428},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93370},
+																											pos:        position{line: 2955, col: 29, offset: 93437},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36451,9 +36451,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93530},
+																								pos: position{line: 2965, col: 8, offset: 93597},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93531,
+																									line: 2965, col: 9, offset: 93598,
 																								},
 																							},
 																						},
@@ -36518,10 +36518,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 831, col: 8, offset: 27032},
 																							expr: &actionExpr{
-																								pos: position{line: 2944, col: 10, offset: 93182},
+																								pos: position{line: 2946, col: 10, offset: 93249},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2944, col: 10, offset: 93182},
+																									pos:        position{line: 2946, col: 10, offset: 93249},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36530,28 +36530,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2966, col: 8, offset: 93580},
+																							pos: position{line: 2968, col: 8, offset: 93647},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2953, col: 12, offset: 93353},
+																									pos: position{line: 2955, col: 12, offset: 93420},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2953, col: 13, offset: 93354},
+																										pos: position{line: 2955, col: 13, offset: 93421},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 13, offset: 93354},
+																												pos:        position{line: 2955, col: 13, offset: 93421},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 20, offset: 93361},
+																												pos:        position{line: 2955, col: 20, offset: 93428},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2953, col: 29, offset: 93370},
+																												pos:        position{line: 2955, col: 29, offset: 93437},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36560,9 +36560,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2963, col: 8, offset: 93530},
+																									pos: position{line: 2965, col: 8, offset: 93597},
 																									expr: &anyMatcher{
-																										line: 2963, col: 9, offset: 93531,
+																										line: 2965, col: 9, offset: 93598,
 																									},
 																								},
 																							},
@@ -36578,9 +36578,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2963, col: 8, offset: 93530},
+																	pos: position{line: 2965, col: 8, offset: 93597},
 																	expr: &anyMatcher{
-																		line: 2963, col: 9, offset: 93531,
+																		line: 2965, col: 9, offset: 93598,
 																	},
 																},
 															},
@@ -36591,52 +36591,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2789, col: 18, offset: 88772},
+										pos: position{line: 2791, col: 18, offset: 88839},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2789, col: 18, offset: 88772},
+											pos: position{line: 2791, col: 18, offset: 88839},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2790, col: 9, offset: 88782},
+													pos: position{line: 2792, col: 9, offset: 88849},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2790, col: 9, offset: 88782},
+															pos:        position{line: 2792, col: 9, offset: 88849},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2791, col: 11, offset: 88818},
+															pos:        position{line: 2793, col: 11, offset: 88885},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2791, col: 19, offset: 88826},
+															pos:        position{line: 2793, col: 19, offset: 88893},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2791, col: 29, offset: 88836},
+															pos:        position{line: 2793, col: 29, offset: 88903},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2791, col: 37, offset: 88844},
+															pos:        position{line: 2793, col: 37, offset: 88911},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2791, col: 47, offset: 88854},
+															pos:        position{line: 2793, col: 47, offset: 88921},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2791, col: 55, offset: 88862},
+															pos:        position{line: 2793, col: 55, offset: 88929},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -36644,12 +36644,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2792, col: 11, offset: 88920},
+													pos: position{line: 2794, col: 11, offset: 88987},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93182},
+														pos: position{line: 2946, col: 10, offset: 93249},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93182},
+															pos:        position{line: 2946, col: 10, offset: 93249},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36658,28 +36658,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2966, col: 8, offset: 93580},
+													pos: position{line: 2968, col: 8, offset: 93647},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93353},
+															pos: position{line: 2955, col: 12, offset: 93420},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93354},
+																pos: position{line: 2955, col: 13, offset: 93421},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93354},
+																		pos:        position{line: 2955, col: 13, offset: 93421},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93361},
+																		pos:        position{line: 2955, col: 20, offset: 93428},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93370},
+																		pos:        position{line: 2955, col: 29, offset: 93437},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36688,36 +36688,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93530},
+															pos: position{line: 2965, col: 8, offset: 93597},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93531,
+																line: 2965, col: 9, offset: 93598,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2966, col: 8, offset: 93580},
+													pos: position{line: 2968, col: 8, offset: 93647},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93353},
+															pos: position{line: 2955, col: 12, offset: 93420},
 															run: (*parser).callonListContinuationElement1319,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93354},
+																pos: position{line: 2955, col: 13, offset: 93421},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93354},
+																		pos:        position{line: 2955, col: 13, offset: 93421},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93361},
+																		pos:        position{line: 2955, col: 20, offset: 93428},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93370},
+																		pos:        position{line: 2955, col: 29, offset: 93437},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36726,9 +36726,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93530},
+															pos: position{line: 2965, col: 8, offset: 93597},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93531,
+																line: 2965, col: 9, offset: 93598,
 															},
 														},
 													},
@@ -36741,24 +36741,24 @@ var g = &grammar{
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2664, col: 5, offset: 85311},
+										pos: position{line: 2666, col: 5, offset: 85378},
 										run: (*parser).callonListContinuationElement1327,
 										expr: &seqExpr{
-											pos: position{line: 2664, col: 5, offset: 85311},
+											pos: position{line: 2666, col: 5, offset: 85378},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2670, col: 19, offset: 85488},
+													pos:        position{line: 2672, col: 19, offset: 85555},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2670, col: 26, offset: 85495},
+													pos: position{line: 2672, col: 26, offset: 85562},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93182},
+														pos: position{line: 2946, col: 10, offset: 93249},
 														run: (*parser).callonListContinuationElement1331,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93182},
+															pos:        position{line: 2946, col: 10, offset: 93249},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36767,28 +36767,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2966, col: 8, offset: 93580},
+													pos: position{line: 2968, col: 8, offset: 93647},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93353},
+															pos: position{line: 2955, col: 12, offset: 93420},
 															run: (*parser).callonListContinuationElement1334,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93354},
+																pos: position{line: 2955, col: 13, offset: 93421},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93354},
+																		pos:        position{line: 2955, col: 13, offset: 93421},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93361},
+																		pos:        position{line: 2955, col: 20, offset: 93428},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93370},
+																		pos:        position{line: 2955, col: 29, offset: 93437},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36797,20 +36797,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93530},
+															pos: position{line: 2965, col: 8, offset: 93597},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93531,
+																line: 2965, col: 9, offset: 93598,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2665, col: 5, offset: 85335},
+													pos:   position{line: 2667, col: 5, offset: 85402},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2665, col: 11, offset: 85341},
+														pos: position{line: 2667, col: 11, offset: 85408},
 														expr: &choiceExpr{
-															pos: position{line: 2665, col: 12, offset: 85342},
+															pos: position{line: 2667, col: 12, offset: 85409},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 702, col: 14, offset: 22579},
@@ -36819,18 +36819,18 @@ var g = &grammar{
 																		pos: position{line: 702, col: 14, offset: 22579},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2961, col: 11, offset: 93516},
+																				pos: position{line: 2963, col: 11, offset: 93583},
 																				expr: &anyMatcher{
-																					line: 2961, col: 13, offset: 93518,
+																					line: 2963, col: 13, offset: 93585,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 702, col: 21, offset: 22586},
 																				expr: &actionExpr{
-																					pos: position{line: 2944, col: 10, offset: 93182},
+																					pos: position{line: 2946, col: 10, offset: 93249},
 																					run: (*parser).callonListContinuationElement1349,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2944, col: 10, offset: 93182},
+																						pos:        position{line: 2946, col: 10, offset: 93249},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36839,28 +36839,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2966, col: 8, offset: 93580},
+																				pos: position{line: 2968, col: 8, offset: 93647},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2953, col: 12, offset: 93353},
+																						pos: position{line: 2955, col: 12, offset: 93420},
 																						run: (*parser).callonListContinuationElement1352,
 																						expr: &choiceExpr{
-																							pos: position{line: 2953, col: 13, offset: 93354},
+																							pos: position{line: 2955, col: 13, offset: 93421},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 13, offset: 93354},
+																									pos:        position{line: 2955, col: 13, offset: 93421},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 20, offset: 93361},
+																									pos:        position{line: 2955, col: 20, offset: 93428},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 29, offset: 93370},
+																									pos:        position{line: 2955, col: 29, offset: 93437},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36869,9 +36869,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93530},
+																						pos: position{line: 2965, col: 8, offset: 93597},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93531,
+																							line: 2965, col: 9, offset: 93598,
 																						},
 																					},
 																				},
@@ -36880,36 +36880,36 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2538, col: 22, offset: 81742},
+																	pos: position{line: 2540, col: 22, offset: 81809},
 																	run: (*parser).callonListContinuationElement1359,
 																	expr: &seqExpr{
-																		pos: position{line: 2538, col: 22, offset: 81742},
+																		pos: position{line: 2540, col: 22, offset: 81809},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2543, col: 31, offset: 81992},
+																				pos:        position{line: 2545, col: 31, offset: 82059},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2543, col: 36, offset: 81997},
+																				pos: position{line: 2545, col: 36, offset: 82064},
 																				expr: &litMatcher{
-																					pos:        position{line: 2543, col: 37, offset: 81998},
+																					pos:        position{line: 2545, col: 37, offset: 82065},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2538, col: 49, offset: 81769},
+																				pos:   position{line: 2540, col: 49, offset: 81836},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2890, col: 13, offset: 91708},
+																					pos: position{line: 2892, col: 13, offset: 91775},
 																					run: (*parser).callonListContinuationElement1365,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2890, col: 13, offset: 91708},
+																						pos: position{line: 2892, col: 13, offset: 91775},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2890, col: 13, offset: 91708},
+																							pos:        position{line: 2892, col: 13, offset: 91775},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -36919,28 +36919,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2966, col: 8, offset: 93580},
+																				pos: position{line: 2968, col: 8, offset: 93647},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2953, col: 12, offset: 93353},
+																						pos: position{line: 2955, col: 12, offset: 93420},
 																						run: (*parser).callonListContinuationElement1369,
 																						expr: &choiceExpr{
-																							pos: position{line: 2953, col: 13, offset: 93354},
+																							pos: position{line: 2955, col: 13, offset: 93421},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 13, offset: 93354},
+																									pos:        position{line: 2955, col: 13, offset: 93421},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 20, offset: 93361},
+																									pos:        position{line: 2955, col: 20, offset: 93428},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2953, col: 29, offset: 93370},
+																									pos:        position{line: 2955, col: 29, offset: 93437},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36949,9 +36949,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2963, col: 8, offset: 93530},
+																						pos: position{line: 2965, col: 8, offset: 93597},
 																						expr: &anyMatcher{
-																							line: 2963, col: 9, offset: 93531,
+																							line: 2965, col: 9, offset: 93598,
 																						},
 																					},
 																				},
@@ -36960,32 +36960,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2677, col: 5, offset: 85607},
+																	pos: position{line: 2679, col: 5, offset: 85674},
 																	run: (*parser).callonListContinuationElement1376,
 																	expr: &seqExpr{
-																		pos: position{line: 2677, col: 5, offset: 85607},
+																		pos: position{line: 2679, col: 5, offset: 85674},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2677, col: 5, offset: 85607},
+																				pos: position{line: 2679, col: 5, offset: 85674},
 																				expr: &choiceExpr{
-																					pos: position{line: 2674, col: 22, offset: 85568},
+																					pos: position{line: 2676, col: 22, offset: 85635},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2670, col: 19, offset: 85488},
+																							pos: position{line: 2672, col: 19, offset: 85555},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2670, col: 19, offset: 85488},
+																									pos:        position{line: 2672, col: 19, offset: 85555},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2670, col: 26, offset: 85495},
+																									pos: position{line: 2672, col: 26, offset: 85562},
 																									expr: &actionExpr{
-																										pos: position{line: 2944, col: 10, offset: 93182},
+																										pos: position{line: 2946, col: 10, offset: 93249},
 																										run: (*parser).callonListContinuationElement1383,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2944, col: 10, offset: 93182},
+																											pos:        position{line: 2946, col: 10, offset: 93249},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36994,28 +36994,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2966, col: 8, offset: 93580},
+																									pos: position{line: 2968, col: 8, offset: 93647},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2953, col: 12, offset: 93353},
+																											pos: position{line: 2955, col: 12, offset: 93420},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &choiceExpr{
-																												pos: position{line: 2953, col: 13, offset: 93354},
+																												pos: position{line: 2955, col: 13, offset: 93421},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 13, offset: 93354},
+																														pos:        position{line: 2955, col: 13, offset: 93421},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 20, offset: 93361},
+																														pos:        position{line: 2955, col: 20, offset: 93428},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2953, col: 29, offset: 93370},
+																														pos:        position{line: 2955, col: 29, offset: 93437},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -37024,9 +37024,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2963, col: 8, offset: 93530},
+																											pos: position{line: 2965, col: 8, offset: 93597},
 																											expr: &anyMatcher{
-																												line: 2963, col: 9, offset: 93531,
+																												line: 2965, col: 9, offset: 93598,
 																											},
 																										},
 																									},
@@ -37034,59 +37034,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93530},
+																							pos: position{line: 2965, col: 8, offset: 93597},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93531,
+																								line: 2965, col: 9, offset: 93598,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2678, col: 5, offset: 85630},
+																				pos:   position{line: 2680, col: 5, offset: 85697},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2679, col: 9, offset: 85648},
+																					pos: position{line: 2681, col: 9, offset: 85715},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2679, col: 10, offset: 85649},
+																							pos: position{line: 2681, col: 10, offset: 85716},
 																							run: (*parser).callonListContinuationElement1397,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2679, col: 10, offset: 85649},
+																								pos:   position{line: 2681, col: 10, offset: 85716},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2679, col: 17, offset: 85656},
+																									pos: position{line: 2681, col: 17, offset: 85723},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2687, col: 21, offset: 85852},
+																											pos: position{line: 2689, col: 21, offset: 85919},
 																											run: (*parser).callonListContinuationElement1400,
 																											expr: &seqExpr{
-																												pos: position{line: 2687, col: 21, offset: 85852},
+																												pos: position{line: 2689, col: 21, offset: 85919},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2687, col: 21, offset: 85852},
+																														pos:   position{line: 2689, col: 21, offset: 85919},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2687, col: 27, offset: 85858},
+																															pos: position{line: 2689, col: 27, offset: 85925},
 																															expr: &actionExpr{
-																																pos: position{line: 2692, col: 5, offset: 85933},
+																																pos: position{line: 2694, col: 5, offset: 86000},
 																																run: (*parser).callonListContinuationElement1404,
 																																expr: &seqExpr{
-																																	pos: position{line: 2692, col: 5, offset: 85933},
+																																	pos: position{line: 2694, col: 5, offset: 86000},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2692, col: 5, offset: 85933},
+																																			pos:        position{line: 2694, col: 5, offset: 86000},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2692, col: 9, offset: 85937},
+																																			pos: position{line: 2694, col: 9, offset: 86004},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2944, col: 10, offset: 93182},
+																																				pos: position{line: 2946, col: 10, offset: 93249},
 																																				run: (*parser).callonListContinuationElement1408,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2944, col: 10, offset: 93182},
+																																					pos:        position{line: 2946, col: 10, offset: 93249},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -37095,21 +37095,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2692, col: 16, offset: 85944},
+																																			pos:   position{line: 2694, col: 16, offset: 86011},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2698, col: 5, offset: 86144},
+																																				pos: position{line: 2700, col: 5, offset: 86211},
 																																				run: (*parser).callonListContinuationElement1411,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2698, col: 5, offset: 86144},
+																																					pos:   position{line: 2700, col: 5, offset: 86211},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2698, col: 14, offset: 86153},
+																																						pos: position{line: 2700, col: 14, offset: 86220},
 																																						run: (*parser).callonListContinuationElement1413,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2698, col: 14, offset: 86153},
+																																							pos: position{line: 2700, col: 14, offset: 86220},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2698, col: 14, offset: 86153},
+																																								pos:        position{line: 2700, col: 14, offset: 86220},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -37126,28 +37126,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2966, col: 8, offset: 93580},
+																														pos: position{line: 2968, col: 8, offset: 93647},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2953, col: 12, offset: 93353},
+																																pos: position{line: 2955, col: 12, offset: 93420},
 																																run: (*parser).callonListContinuationElement1417,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2953, col: 13, offset: 93354},
+																																	pos: position{line: 2955, col: 13, offset: 93421},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2953, col: 13, offset: 93354},
+																																			pos:        position{line: 2955, col: 13, offset: 93421},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2953, col: 20, offset: 93361},
+																																			pos:        position{line: 2955, col: 20, offset: 93428},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2953, col: 29, offset: 93370},
+																																			pos:        position{line: 2955, col: 29, offset: 93437},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -37156,9 +37156,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2963, col: 8, offset: 93530},
+																																pos: position{line: 2965, col: 8, offset: 93597},
 																																expr: &anyMatcher{
-																																	line: 2963, col: 9, offset: 93531,
+																																	line: 2965, col: 9, offset: 93598,
 																																},
 																															},
 																														},
@@ -37167,40 +37167,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2704, col: 24, offset: 86289},
+																											pos: position{line: 2706, col: 24, offset: 86356},
 																											run: (*parser).callonListContinuationElement1424,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2704, col: 24, offset: 86289},
+																												pos:   position{line: 2706, col: 24, offset: 86356},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2704, col: 30, offset: 86295},
+																													pos: position{line: 2706, col: 30, offset: 86362},
 																													expr: &actionExpr{
-																														pos: position{line: 2709, col: 5, offset: 86371},
+																														pos: position{line: 2711, col: 5, offset: 86438},
 																														run: (*parser).callonListContinuationElement1427,
 																														expr: &seqExpr{
-																															pos: position{line: 2709, col: 5, offset: 86371},
+																															pos: position{line: 2711, col: 5, offset: 86438},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2709, col: 5, offset: 86371},
+																																	pos: position{line: 2711, col: 5, offset: 86438},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2674, col: 22, offset: 85568},
+																																		pos: position{line: 2676, col: 22, offset: 85635},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2670, col: 19, offset: 85488},
+																																				pos: position{line: 2672, col: 19, offset: 85555},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2670, col: 19, offset: 85488},
+																																						pos:        position{line: 2672, col: 19, offset: 85555},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2670, col: 26, offset: 85495},
+																																						pos: position{line: 2672, col: 26, offset: 85562},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2944, col: 10, offset: 93182},
+																																							pos: position{line: 2946, col: 10, offset: 93249},
 																																							run: (*parser).callonListContinuationElement1434,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2944, col: 10, offset: 93182},
+																																								pos:        position{line: 2946, col: 10, offset: 93249},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -37209,28 +37209,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2966, col: 8, offset: 93580},
+																																						pos: position{line: 2968, col: 8, offset: 93647},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2953, col: 12, offset: 93353},
+																																								pos: position{line: 2955, col: 12, offset: 93420},
 																																								run: (*parser).callonListContinuationElement1437,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2953, col: 13, offset: 93354},
+																																									pos: position{line: 2955, col: 13, offset: 93421},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2953, col: 13, offset: 93354},
+																																											pos:        position{line: 2955, col: 13, offset: 93421},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2953, col: 20, offset: 93361},
+																																											pos:        position{line: 2955, col: 20, offset: 93428},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2953, col: 29, offset: 93370},
+																																											pos:        position{line: 2955, col: 29, offset: 93437},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -37239,9 +37239,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2963, col: 8, offset: 93530},
+																																								pos: position{line: 2965, col: 8, offset: 93597},
 																																								expr: &anyMatcher{
-																																									line: 2963, col: 9, offset: 93531,
+																																									line: 2965, col: 9, offset: 93598,
 																																								},
 																																							},
 																																						},
@@ -37249,16 +37249,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2963, col: 8, offset: 93530},
+																																				pos: position{line: 2965, col: 8, offset: 93597},
 																																				expr: &anyMatcher{
-																																					line: 2963, col: 9, offset: 93531,
+																																					line: 2965, col: 9, offset: 93598,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2710, col: 5, offset: 86394},
+																																	pos: position{line: 2712, col: 5, offset: 86461},
 																																	expr: &actionExpr{
 																																		pos: position{line: 702, col: 14, offset: 22579},
 																																		run: (*parser).callonListContinuationElement1447,
@@ -37266,18 +37266,18 @@ var g = &grammar{
 																																			pos: position{line: 702, col: 14, offset: 22579},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2961, col: 11, offset: 93516},
+																																					pos: position{line: 2963, col: 11, offset: 93583},
 																																					expr: &anyMatcher{
-																																						line: 2961, col: 13, offset: 93518,
+																																						line: 2963, col: 13, offset: 93585,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 702, col: 21, offset: 22586},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2944, col: 10, offset: 93182},
+																																						pos: position{line: 2946, col: 10, offset: 93249},
 																																						run: (*parser).callonListContinuationElement1452,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2944, col: 10, offset: 93182},
+																																							pos:        position{line: 2946, col: 10, offset: 93249},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -37286,28 +37286,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2966, col: 8, offset: 93580},
+																																					pos: position{line: 2968, col: 8, offset: 93647},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2953, col: 12, offset: 93353},
+																																							pos: position{line: 2955, col: 12, offset: 93420},
 																																							run: (*parser).callonListContinuationElement1455,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2953, col: 13, offset: 93354},
+																																								pos: position{line: 2955, col: 13, offset: 93421},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2953, col: 13, offset: 93354},
+																																										pos:        position{line: 2955, col: 13, offset: 93421},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2953, col: 20, offset: 93361},
+																																										pos:        position{line: 2955, col: 20, offset: 93428},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2953, col: 29, offset: 93370},
+																																										pos:        position{line: 2955, col: 29, offset: 93437},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -37316,9 +37316,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2963, col: 8, offset: 93530},
+																																							pos: position{line: 2965, col: 8, offset: 93597},
 																																							expr: &anyMatcher{
-																																								line: 2963, col: 9, offset: 93531,
+																																								line: 2965, col: 9, offset: 93598,
 																																							},
 																																						},
 																																					},
@@ -37328,48 +37328,48 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2711, col: 5, offset: 86409},
+																																	pos:   position{line: 2713, col: 5, offset: 86476},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2711, col: 12, offset: 86416},
+																																		pos: position{line: 2713, col: 12, offset: 86483},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2736, col: 5, offset: 87044},
+																																			pos: position{line: 2738, col: 5, offset: 87111},
 																																			run: (*parser).callonListContinuationElement1464,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2736, col: 5, offset: 87044},
+																																				pos: position{line: 2738, col: 5, offset: 87111},
 																																				exprs: []interface{}{
 																																					&actionExpr{
-																																						pos: position{line: 2736, col: 6, offset: 87045},
+																																						pos: position{line: 2738, col: 6, offset: 87112},
 																																						run: (*parser).callonListContinuationElement1466,
 																																						expr: &litMatcher{
-																																							pos:        position{line: 2736, col: 6, offset: 87045},
+																																							pos:        position{line: 2738, col: 6, offset: 87112},
 																																							val:        "",
 																																							ignoreCase: false,
 																																							want:       "\"\"",
 																																						},
 																																					},
 																																					&andCodeExpr{
-																																						pos: position{line: 2739, col: 5, offset: 87116},
+																																						pos: position{line: 2741, col: 5, offset: 87183},
 																																						run: (*parser).callonListContinuationElement1468,
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2742, col: 5, offset: 87173},
+																																						pos:   position{line: 2744, col: 5, offset: 87240},
 																																						label: "format",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2742, col: 13, offset: 87181},
+																																							pos: position{line: 2744, col: 13, offset: 87248},
 																																							run: (*parser).callonListContinuationElement1470,
 																																							expr: &seqExpr{
-																																								pos: position{line: 2742, col: 13, offset: 87181},
+																																								pos: position{line: 2744, col: 13, offset: 87248},
 																																								exprs: []interface{}{
 																																									&zeroOrOneExpr{
-																																										pos: position{line: 2742, col: 13, offset: 87181},
+																																										pos: position{line: 2744, col: 13, offset: 87248},
 																																										expr: &seqExpr{
-																																											pos: position{line: 2742, col: 14, offset: 87182},
+																																											pos: position{line: 2744, col: 14, offset: 87249},
 																																											exprs: []interface{}{
 																																												&oneOrMoreExpr{
-																																													pos: position{line: 2742, col: 14, offset: 87182},
+																																													pos: position{line: 2744, col: 14, offset: 87249},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2742, col: 14, offset: 87182},
+																																														pos:        position{line: 2744, col: 14, offset: 87249},
 																																														val:        "[.0-9]",
 																																														chars:      []rune{'.'},
 																																														ranges:     []rune{'0', '9'},
@@ -37378,7 +37378,7 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&charClassMatcher{
-																																													pos:        position{line: 2742, col: 22, offset: 87190},
+																																													pos:        position{line: 2744, col: 22, offset: 87257},
 																																													val:        "[*+]",
 																																													chars:      []rune{'*', '+'},
 																																													ignoreCase: false,
@@ -37388,9 +37388,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&zeroOrOneExpr{
-																																										pos: position{line: 2742, col: 29, offset: 87197},
+																																										pos: position{line: 2744, col: 29, offset: 87264},
 																																										expr: &charClassMatcher{
-																																											pos:        position{line: 2742, col: 29, offset: 87197},
+																																											pos:        position{line: 2744, col: 29, offset: 87264},
 																																											val:        "[<>^]",
 																																											chars:      []rune{'<', '>', '^'},
 																																											ignoreCase: false,
@@ -37398,18 +37398,18 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&zeroOrOneExpr{
-																																										pos: position{line: 2742, col: 36, offset: 87204},
+																																										pos: position{line: 2744, col: 36, offset: 87271},
 																																										expr: &seqExpr{
-																																											pos: position{line: 2742, col: 37, offset: 87205},
+																																											pos: position{line: 2744, col: 37, offset: 87272},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2742, col: 37, offset: 87205},
+																																													pos:        position{line: 2744, col: 37, offset: 87272},
 																																													val:        ".",
 																																													ignoreCase: false,
 																																													want:       "\".\"",
 																																												},
 																																												&charClassMatcher{
-																																													pos:        position{line: 2742, col: 41, offset: 87209},
+																																													pos:        position{line: 2744, col: 41, offset: 87276},
 																																													val:        "[<>^]",
 																																													chars:      []rune{'<', '>', '^'},
 																																													ignoreCase: false,
@@ -37419,9 +37419,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&zeroOrOneExpr{
-																																										pos: position{line: 2742, col: 49, offset: 87217},
+																																										pos: position{line: 2744, col: 49, offset: 87284},
 																																										expr: &charClassMatcher{
-																																											pos:        position{line: 2742, col: 49, offset: 87217},
+																																											pos:        position{line: 2744, col: 49, offset: 87284},
 																																											val:        "[a-z]",
 																																											ranges:     []rune{'a', 'z'},
 																																											ignoreCase: false,
@@ -37438,18 +37438,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2711, col: 31, offset: 86435},
+																																	pos:        position{line: 2713, col: 31, offset: 86502},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2711, col: 35, offset: 86439},
+																																	pos: position{line: 2713, col: 35, offset: 86506},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2944, col: 10, offset: 93182},
+																																		pos: position{line: 2946, col: 10, offset: 93249},
 																																		run: (*parser).callonListContinuationElement1487,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2944, col: 10, offset: 93182},
+																																			pos:        position{line: 2946, col: 10, offset: 93249},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -37458,27 +37458,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2711, col: 42, offset: 86446},
+																																	pos: position{line: 2713, col: 42, offset: 86513},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2953, col: 12, offset: 93353},
+																																		pos: position{line: 2955, col: 12, offset: 93420},
 																																		run: (*parser).callonListContinuationElement1490,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2953, col: 13, offset: 93354},
+																																			pos: position{line: 2955, col: 13, offset: 93421},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2953, col: 13, offset: 93354},
+																																					pos:        position{line: 2955, col: 13, offset: 93421},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2953, col: 20, offset: 93361},
+																																					pos:        position{line: 2955, col: 20, offset: 93428},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2953, col: 29, offset: 93370},
+																																					pos:        position{line: 2955, col: 29, offset: 93437},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -37488,57 +37488,57 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2711, col: 51, offset: 86455},
+																																	pos:   position{line: 2713, col: 51, offset: 86522},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2717, col: 5, offset: 86614},
+																																		pos: position{line: 2719, col: 5, offset: 86681},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2718, col: 9, offset: 86624},
+																																			pos: position{line: 2720, col: 9, offset: 86691},
 																																			alternatives: []interface{}{
 																																				&actionExpr{
-																																					pos: position{line: 2718, col: 9, offset: 86624},
+																																					pos: position{line: 2720, col: 9, offset: 86691},
 																																					run: (*parser).callonListContinuationElement1498,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2718, col: 9, offset: 86624},
+																																						pos: position{line: 2720, col: 9, offset: 86691},
 																																						exprs: []interface{}{
 																																							&andCodeExpr{
-																																								pos: position{line: 2718, col: 9, offset: 86624},
+																																								pos: position{line: 2720, col: 9, offset: 86691},
 																																								run: (*parser).callonListContinuationElement1500,
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2721, col: 9, offset: 86693},
+																																								pos:   position{line: 2723, col: 9, offset: 86760},
 																																								label: "comment",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2538, col: 22, offset: 81742},
+																																									pos: position{line: 2540, col: 22, offset: 81809},
 																																									run: (*parser).callonListContinuationElement1502,
 																																									expr: &seqExpr{
-																																										pos: position{line: 2538, col: 22, offset: 81742},
+																																										pos: position{line: 2540, col: 22, offset: 81809},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2543, col: 31, offset: 81992},
+																																												pos:        position{line: 2545, col: 31, offset: 82059},
 																																												val:        "//",
 																																												ignoreCase: false,
 																																												want:       "\"//\"",
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2543, col: 36, offset: 81997},
+																																												pos: position{line: 2545, col: 36, offset: 82064},
 																																												expr: &litMatcher{
-																																													pos:        position{line: 2543, col: 37, offset: 81998},
+																																													pos:        position{line: 2545, col: 37, offset: 82065},
 																																													val:        "/",
 																																													ignoreCase: false,
 																																													want:       "\"/\"",
 																																												},
 																																											},
 																																											&labeledExpr{
-																																												pos:   position{line: 2538, col: 49, offset: 81769},
+																																												pos:   position{line: 2540, col: 49, offset: 81836},
 																																												label: "content",
 																																												expr: &actionExpr{
-																																													pos: position{line: 2890, col: 13, offset: 91708},
+																																													pos: position{line: 2892, col: 13, offset: 91775},
 																																													run: (*parser).callonListContinuationElement1508,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2890, col: 13, offset: 91708},
+																																														pos: position{line: 2892, col: 13, offset: 91775},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2890, col: 13, offset: 91708},
+																																															pos:        position{line: 2892, col: 13, offset: 91775},
 																																															val:        "[^\\r\\n]",
 																																															chars:      []rune{'\r', '\n'},
 																																															ignoreCase: false,
@@ -37548,28 +37548,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2966, col: 8, offset: 93580},
+																																												pos: position{line: 2968, col: 8, offset: 93647},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2953, col: 12, offset: 93353},
+																																														pos: position{line: 2955, col: 12, offset: 93420},
 																																														run: (*parser).callonListContinuationElement1512,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2953, col: 13, offset: 93354},
+																																															pos: position{line: 2955, col: 13, offset: 93421},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2953, col: 13, offset: 93354},
+																																																	pos:        position{line: 2955, col: 13, offset: 93421},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2953, col: 20, offset: 93361},
+																																																	pos:        position{line: 2955, col: 20, offset: 93428},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2953, col: 29, offset: 93370},
+																																																	pos:        position{line: 2955, col: 29, offset: 93437},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -37578,9 +37578,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2963, col: 8, offset: 93530},
+																																														pos: position{line: 2965, col: 8, offset: 93597},
 																																														expr: &anyMatcher{
-																																															line: 2963, col: 9, offset: 93531,
+																																															line: 2965, col: 9, offset: 93598,
 																																														},
 																																													},
 																																												},
@@ -37593,32 +37593,32 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&actionExpr{
-																																					pos: position{line: 2725, col: 9, offset: 86783},
+																																					pos: position{line: 2727, col: 9, offset: 86850},
 																																					run: (*parser).callonListContinuationElement1519,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2725, col: 9, offset: 86783},
+																																						pos: position{line: 2727, col: 9, offset: 86850},
 																																						exprs: []interface{}{
 																																							&notExpr{
-																																								pos: position{line: 2725, col: 9, offset: 86783},
+																																								pos: position{line: 2727, col: 9, offset: 86850},
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2674, col: 22, offset: 85568},
+																																									pos: position{line: 2676, col: 22, offset: 85635},
 																																									alternatives: []interface{}{
 																																										&seqExpr{
-																																											pos: position{line: 2670, col: 19, offset: 85488},
+																																											pos: position{line: 2672, col: 19, offset: 85555},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2670, col: 19, offset: 85488},
+																																													pos:        position{line: 2672, col: 19, offset: 85555},
 																																													val:        "|===",
 																																													ignoreCase: false,
 																																													want:       "\"|===\"",
 																																												},
 																																												&zeroOrMoreExpr{
-																																													pos: position{line: 2670, col: 26, offset: 85495},
+																																													pos: position{line: 2672, col: 26, offset: 85562},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2944, col: 10, offset: 93182},
+																																														pos: position{line: 2946, col: 10, offset: 93249},
 																																														run: (*parser).callonListContinuationElement1526,
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2944, col: 10, offset: 93182},
+																																															pos:        position{line: 2946, col: 10, offset: 93249},
 																																															val:        "[\\t ]",
 																																															chars:      []rune{'\t', ' '},
 																																															ignoreCase: false,
@@ -37627,28 +37627,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2966, col: 8, offset: 93580},
+																																													pos: position{line: 2968, col: 8, offset: 93647},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2953, col: 12, offset: 93353},
+																																															pos: position{line: 2955, col: 12, offset: 93420},
 																																															run: (*parser).callonListContinuationElement1529,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2953, col: 13, offset: 93354},
+																																																pos: position{line: 2955, col: 13, offset: 93421},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2953, col: 13, offset: 93354},
+																																																		pos:        position{line: 2955, col: 13, offset: 93421},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2953, col: 20, offset: 93361},
+																																																		pos:        position{line: 2955, col: 20, offset: 93428},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2953, col: 29, offset: 93370},
+																																																		pos:        position{line: 2955, col: 29, offset: 93437},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -37657,9 +37657,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2963, col: 8, offset: 93530},
+																																															pos: position{line: 2965, col: 8, offset: 93597},
 																																															expr: &anyMatcher{
-																																																line: 2963, col: 9, offset: 93531,
+																																																line: 2965, col: 9, offset: 93598,
 																																															},
 																																														},
 																																													},
@@ -37667,16 +37667,16 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2963, col: 8, offset: 93530},
+																																											pos: position{line: 2965, col: 8, offset: 93597},
 																																											expr: &anyMatcher{
-																																												line: 2963, col: 9, offset: 93531,
+																																												line: 2965, col: 9, offset: 93598,
 																																											},
 																																										},
 																																									},
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2726, col: 9, offset: 86810},
+																																								pos: position{line: 2728, col: 9, offset: 86877},
 																																								expr: &actionExpr{
 																																									pos: position{line: 702, col: 14, offset: 22579},
 																																									run: (*parser).callonListContinuationElement1539,
@@ -37684,18 +37684,18 @@ var g = &grammar{
 																																										pos: position{line: 702, col: 14, offset: 22579},
 																																										exprs: []interface{}{
 																																											&andExpr{
-																																												pos: position{line: 2961, col: 11, offset: 93516},
+																																												pos: position{line: 2963, col: 11, offset: 93583},
 																																												expr: &anyMatcher{
-																																													line: 2961, col: 13, offset: 93518,
+																																													line: 2963, col: 13, offset: 93585,
 																																												},
 																																											},
 																																											&zeroOrMoreExpr{
 																																												pos: position{line: 702, col: 21, offset: 22586},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2944, col: 10, offset: 93182},
+																																													pos: position{line: 2946, col: 10, offset: 93249},
 																																													run: (*parser).callonListContinuationElement1544,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2944, col: 10, offset: 93182},
+																																														pos:        position{line: 2946, col: 10, offset: 93249},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -37704,28 +37704,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2966, col: 8, offset: 93580},
+																																												pos: position{line: 2968, col: 8, offset: 93647},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2953, col: 12, offset: 93353},
+																																														pos: position{line: 2955, col: 12, offset: 93420},
 																																														run: (*parser).callonListContinuationElement1547,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2953, col: 13, offset: 93354},
+																																															pos: position{line: 2955, col: 13, offset: 93421},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2953, col: 13, offset: 93354},
+																																																	pos:        position{line: 2955, col: 13, offset: 93421},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2953, col: 20, offset: 93361},
+																																																	pos:        position{line: 2955, col: 20, offset: 93428},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2953, col: 29, offset: 93370},
+																																																	pos:        position{line: 2955, col: 29, offset: 93437},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -37734,9 +37734,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2963, col: 8, offset: 93530},
+																																														pos: position{line: 2965, col: 8, offset: 93597},
 																																														expr: &anyMatcher{
-																																															line: 2963, col: 9, offset: 93531,
+																																															line: 2965, col: 9, offset: 93598,
 																																														},
 																																													},
 																																												},
@@ -37746,53 +37746,53 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2727, col: 9, offset: 86829},
+																																								pos: position{line: 2729, col: 9, offset: 86896},
 																																								expr: &seqExpr{
-																																									pos: position{line: 2727, col: 11, offset: 86831},
+																																									pos: position{line: 2729, col: 11, offset: 86898},
 																																									exprs: []interface{}{
 																																										&labeledExpr{
-																																											pos:   position{line: 2727, col: 11, offset: 86831},
+																																											pos:   position{line: 2729, col: 11, offset: 86898},
 																																											label: "format",
 																																											expr: &zeroOrOneExpr{
-																																												pos: position{line: 2727, col: 18, offset: 86838},
+																																												pos: position{line: 2729, col: 18, offset: 86905},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2736, col: 5, offset: 87044},
+																																													pos: position{line: 2738, col: 5, offset: 87111},
 																																													run: (*parser).callonListContinuationElement1558,
 																																													expr: &seqExpr{
-																																														pos: position{line: 2736, col: 5, offset: 87044},
+																																														pos: position{line: 2738, col: 5, offset: 87111},
 																																														exprs: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2736, col: 6, offset: 87045},
+																																																pos: position{line: 2738, col: 6, offset: 87112},
 																																																run: (*parser).callonListContinuationElement1560,
 																																																expr: &litMatcher{
-																																																	pos:        position{line: 2736, col: 6, offset: 87045},
+																																																	pos:        position{line: 2738, col: 6, offset: 87112},
 																																																	val:        "",
 																																																	ignoreCase: false,
 																																																	want:       "\"\"",
 																																																},
 																																															},
 																																															&andCodeExpr{
-																																																pos: position{line: 2739, col: 5, offset: 87116},
+																																																pos: position{line: 2741, col: 5, offset: 87183},
 																																																run: (*parser).callonListContinuationElement1562,
 																																															},
 																																															&labeledExpr{
-																																																pos:   position{line: 2742, col: 5, offset: 87173},
+																																																pos:   position{line: 2744, col: 5, offset: 87240},
 																																																label: "format",
 																																																expr: &actionExpr{
-																																																	pos: position{line: 2742, col: 13, offset: 87181},
+																																																	pos: position{line: 2744, col: 13, offset: 87248},
 																																																	run: (*parser).callonListContinuationElement1564,
 																																																	expr: &seqExpr{
-																																																		pos: position{line: 2742, col: 13, offset: 87181},
+																																																		pos: position{line: 2744, col: 13, offset: 87248},
 																																																		exprs: []interface{}{
 																																																			&zeroOrOneExpr{
-																																																				pos: position{line: 2742, col: 13, offset: 87181},
+																																																				pos: position{line: 2744, col: 13, offset: 87248},
 																																																				expr: &seqExpr{
-																																																					pos: position{line: 2742, col: 14, offset: 87182},
+																																																					pos: position{line: 2744, col: 14, offset: 87249},
 																																																					exprs: []interface{}{
 																																																						&oneOrMoreExpr{
-																																																							pos: position{line: 2742, col: 14, offset: 87182},
+																																																							pos: position{line: 2744, col: 14, offset: 87249},
 																																																							expr: &charClassMatcher{
-																																																								pos:        position{line: 2742, col: 14, offset: 87182},
+																																																								pos:        position{line: 2744, col: 14, offset: 87249},
 																																																								val:        "[.0-9]",
 																																																								chars:      []rune{'.'},
 																																																								ranges:     []rune{'0', '9'},
@@ -37801,7 +37801,7 @@ var g = &grammar{
 																																																							},
 																																																						},
 																																																						&charClassMatcher{
-																																																							pos:        position{line: 2742, col: 22, offset: 87190},
+																																																							pos:        position{line: 2744, col: 22, offset: 87257},
 																																																							val:        "[*+]",
 																																																							chars:      []rune{'*', '+'},
 																																																							ignoreCase: false,
@@ -37811,9 +37811,9 @@ var g = &grammar{
 																																																				},
 																																																			},
 																																																			&zeroOrOneExpr{
-																																																				pos: position{line: 2742, col: 29, offset: 87197},
+																																																				pos: position{line: 2744, col: 29, offset: 87264},
 																																																				expr: &charClassMatcher{
-																																																					pos:        position{line: 2742, col: 29, offset: 87197},
+																																																					pos:        position{line: 2744, col: 29, offset: 87264},
 																																																					val:        "[<>^]",
 																																																					chars:      []rune{'<', '>', '^'},
 																																																					ignoreCase: false,
@@ -37821,18 +37821,18 @@ var g = &grammar{
 																																																				},
 																																																			},
 																																																			&zeroOrOneExpr{
-																																																				pos: position{line: 2742, col: 36, offset: 87204},
+																																																				pos: position{line: 2744, col: 36, offset: 87271},
 																																																				expr: &seqExpr{
-																																																					pos: position{line: 2742, col: 37, offset: 87205},
+																																																					pos: position{line: 2744, col: 37, offset: 87272},
 																																																					exprs: []interface{}{
 																																																						&litMatcher{
-																																																							pos:        position{line: 2742, col: 37, offset: 87205},
+																																																							pos:        position{line: 2744, col: 37, offset: 87272},
 																																																							val:        ".",
 																																																							ignoreCase: false,
 																																																							want:       "\".\"",
 																																																						},
 																																																						&charClassMatcher{
-																																																							pos:        position{line: 2742, col: 41, offset: 87209},
+																																																							pos:        position{line: 2744, col: 41, offset: 87276},
 																																																							val:        "[<>^]",
 																																																							chars:      []rune{'<', '>', '^'},
 																																																							ignoreCase: false,
@@ -37842,9 +37842,9 @@ var g = &grammar{
 																																																				},
 																																																			},
 																																																			&zeroOrOneExpr{
-																																																				pos: position{line: 2742, col: 49, offset: 87217},
+																																																				pos: position{line: 2744, col: 49, offset: 87284},
 																																																				expr: &charClassMatcher{
-																																																					pos:        position{line: 2742, col: 49, offset: 87217},
+																																																					pos:        position{line: 2744, col: 49, offset: 87284},
 																																																					val:        "[a-z]",
 																																																					ranges:     []rune{'a', 'z'},
 																																																					ignoreCase: false,
@@ -37861,7 +37861,7 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2727, col: 37, offset: 86857},
+																																											pos:        position{line: 2729, col: 37, offset: 86924},
 																																											val:        "|",
 																																											ignoreCase: false,
 																																											want:       "\"|\"",
@@ -37870,15 +37870,15 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2728, col: 9, offset: 86870},
+																																								pos:   position{line: 2730, col: 9, offset: 86937},
 																																								label: "content",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2728, col: 18, offset: 86879},
+																																									pos: position{line: 2730, col: 18, offset: 86946},
 																																									run: (*parser).callonListContinuationElement1581,
 																																									expr: &zeroOrMoreExpr{
-																																										pos: position{line: 2728, col: 18, offset: 86879},
+																																										pos: position{line: 2730, col: 18, offset: 86946},
 																																										expr: &charClassMatcher{
-																																											pos:        position{line: 2728, col: 18, offset: 86879},
+																																											pos:        position{line: 2730, col: 18, offset: 86946},
 																																											val:        "[^|\\r\\n]",
 																																											chars:      []rune{'|', '\r', '\n'},
 																																											ignoreCase: false,
@@ -37888,30 +37888,30 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&zeroOrOneExpr{
-																																								pos: position{line: 2730, col: 12, offset: 86941},
+																																								pos: position{line: 2732, col: 12, offset: 87008},
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2966, col: 8, offset: 93580},
+																																									pos: position{line: 2968, col: 8, offset: 93647},
 																																									alternatives: []interface{}{
 																																										&actionExpr{
-																																											pos: position{line: 2953, col: 12, offset: 93353},
+																																											pos: position{line: 2955, col: 12, offset: 93420},
 																																											run: (*parser).callonListContinuationElement1586,
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2953, col: 13, offset: 93354},
+																																												pos: position{line: 2955, col: 13, offset: 93421},
 																																												alternatives: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2953, col: 13, offset: 93354},
+																																														pos:        position{line: 2955, col: 13, offset: 93421},
 																																														val:        "\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2953, col: 20, offset: 93361},
+																																														pos:        position{line: 2955, col: 20, offset: 93428},
 																																														val:        "\r\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2953, col: 29, offset: 93370},
+																																														pos:        position{line: 2955, col: 29, offset: 93437},
 																																														val:        "\r",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\"",
@@ -37920,9 +37920,9 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2963, col: 8, offset: 93530},
+																																											pos: position{line: 2965, col: 8, offset: 93597},
 																																											expr: &anyMatcher{
-																																												line: 2963, col: 9, offset: 93531,
+																																												line: 2965, col: 9, offset: 93598,
 																																											},
 																																										},
 																																									},
@@ -37952,18 +37952,18 @@ var g = &grammar{
 																								pos: position{line: 702, col: 14, offset: 22579},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2961, col: 11, offset: 93516},
+																										pos: position{line: 2963, col: 11, offset: 93583},
 																										expr: &anyMatcher{
-																											line: 2961, col: 13, offset: 93518,
+																											line: 2963, col: 13, offset: 93585,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 702, col: 21, offset: 22586},
 																										expr: &actionExpr{
-																											pos: position{line: 2944, col: 10, offset: 93182},
+																											pos: position{line: 2946, col: 10, offset: 93249},
 																											run: (*parser).callonListContinuationElement1598,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2944, col: 10, offset: 93182},
+																												pos:        position{line: 2946, col: 10, offset: 93249},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -37972,28 +37972,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2966, col: 8, offset: 93580},
+																										pos: position{line: 2968, col: 8, offset: 93647},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2953, col: 12, offset: 93353},
+																												pos: position{line: 2955, col: 12, offset: 93420},
 																												run: (*parser).callonListContinuationElement1601,
 																												expr: &choiceExpr{
-																													pos: position{line: 2953, col: 13, offset: 93354},
+																													pos: position{line: 2955, col: 13, offset: 93421},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2953, col: 13, offset: 93354},
+																															pos:        position{line: 2955, col: 13, offset: 93421},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2953, col: 20, offset: 93361},
+																															pos:        position{line: 2955, col: 20, offset: 93428},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2953, col: 29, offset: 93370},
+																															pos:        position{line: 2955, col: 29, offset: 93437},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -38002,9 +38002,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2963, col: 8, offset: 93530},
+																												pos: position{line: 2965, col: 8, offset: 93597},
 																												expr: &anyMatcher{
-																													line: 2963, col: 9, offset: 93531,
+																													line: 2965, col: 9, offset: 93598,
 																												},
 																											},
 																										},
@@ -38023,24 +38023,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2674, col: 22, offset: 85568},
+													pos: position{line: 2676, col: 22, offset: 85635},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2670, col: 19, offset: 85488},
+															pos: position{line: 2672, col: 19, offset: 85555},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2670, col: 19, offset: 85488},
+																	pos:        position{line: 2672, col: 19, offset: 85555},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2670, col: 26, offset: 85495},
+																	pos: position{line: 2672, col: 26, offset: 85562},
 																	expr: &actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93182},
+																		pos: position{line: 2946, col: 10, offset: 93249},
 																		run: (*parser).callonListContinuationElement1612,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93182},
+																			pos:        position{line: 2946, col: 10, offset: 93249},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38049,28 +38049,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93580},
+																	pos: position{line: 2968, col: 8, offset: 93647},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93353},
+																			pos: position{line: 2955, col: 12, offset: 93420},
 																			run: (*parser).callonListContinuationElement1615,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93354},
+																				pos: position{line: 2955, col: 13, offset: 93421},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93354},
+																						pos:        position{line: 2955, col: 13, offset: 93421},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93361},
+																						pos:        position{line: 2955, col: 20, offset: 93428},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93370},
+																						pos:        position{line: 2955, col: 29, offset: 93437},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38079,9 +38079,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93530},
+																			pos: position{line: 2965, col: 8, offset: 93597},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93531,
+																				line: 2965, col: 9, offset: 93598,
 																			},
 																		},
 																	},
@@ -38089,9 +38089,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93530},
+															pos: position{line: 2965, col: 8, offset: 93597},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93531,
+																line: 2965, col: 9, offset: 93598,
 															},
 														},
 													},
@@ -38100,36 +38100,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2538, col: 22, offset: 81742},
+										pos: position{line: 2540, col: 22, offset: 81809},
 										run: (*parser).callonListContinuationElement1624,
 										expr: &seqExpr{
-											pos: position{line: 2538, col: 22, offset: 81742},
+											pos: position{line: 2540, col: 22, offset: 81809},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2543, col: 31, offset: 81992},
+													pos:        position{line: 2545, col: 31, offset: 82059},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2543, col: 36, offset: 81997},
+													pos: position{line: 2545, col: 36, offset: 82064},
 													expr: &litMatcher{
-														pos:        position{line: 2543, col: 37, offset: 81998},
+														pos:        position{line: 2545, col: 37, offset: 82065},
 														val:        "/",
 														ignoreCase: false,
 														want:       "\"/\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2538, col: 49, offset: 81769},
+													pos:   position{line: 2540, col: 49, offset: 81836},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2890, col: 13, offset: 91708},
+														pos: position{line: 2892, col: 13, offset: 91775},
 														run: (*parser).callonListContinuationElement1630,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2890, col: 13, offset: 91708},
+															pos: position{line: 2892, col: 13, offset: 91775},
 															expr: &charClassMatcher{
-																pos:        position{line: 2890, col: 13, offset: 91708},
+																pos:        position{line: 2892, col: 13, offset: 91775},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -38139,28 +38139,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2966, col: 8, offset: 93580},
+													pos: position{line: 2968, col: 8, offset: 93647},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93353},
+															pos: position{line: 2955, col: 12, offset: 93420},
 															run: (*parser).callonListContinuationElement1634,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93354},
+																pos: position{line: 2955, col: 13, offset: 93421},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93354},
+																		pos:        position{line: 2955, col: 13, offset: 93421},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93361},
+																		pos:        position{line: 2955, col: 20, offset: 93428},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93370},
+																		pos:        position{line: 2955, col: 29, offset: 93437},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -38169,9 +38169,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2963, col: 8, offset: 93530},
+															pos: position{line: 2965, col: 8, offset: 93597},
 															expr: &anyMatcher{
-																line: 2963, col: 9, offset: 93531,
+																line: 2965, col: 9, offset: 93598,
 															},
 														},
 													},
@@ -38262,12 +38262,12 @@ var g = &grammar{
 																					expr: &andExpr{
 																						pos: position{line: 1770, col: 13, offset: 57482},
 																						expr: &actionExpr{
-																							pos: position{line: 2948, col: 11, offset: 93243},
+																							pos: position{line: 2950, col: 11, offset: 93310},
 																							run: (*parser).callonListContinuationElement1662,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2948, col: 11, offset: 93243},
+																								pos: position{line: 2950, col: 11, offset: 93310},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2948, col: 11, offset: 93243},
+																									pos:        position{line: 2950, col: 11, offset: 93310},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -38303,18 +38303,18 @@ var g = &grammar{
 																			pos: position{line: 702, col: 14, offset: 22579},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2961, col: 11, offset: 93516},
+																					pos: position{line: 2963, col: 11, offset: 93583},
 																					expr: &anyMatcher{
-																						line: 2961, col: 13, offset: 93518,
+																						line: 2963, col: 13, offset: 93585,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 702, col: 21, offset: 22586},
 																					expr: &actionExpr{
-																						pos: position{line: 2944, col: 10, offset: 93182},
+																						pos: position{line: 2946, col: 10, offset: 93249},
 																						run: (*parser).callonListContinuationElement1674,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2944, col: 10, offset: 93182},
+																							pos:        position{line: 2946, col: 10, offset: 93249},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38323,28 +38323,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2966, col: 8, offset: 93580},
+																					pos: position{line: 2968, col: 8, offset: 93647},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2953, col: 12, offset: 93353},
+																							pos: position{line: 2955, col: 12, offset: 93420},
 																							run: (*parser).callonListContinuationElement1677,
 																							expr: &choiceExpr{
-																								pos: position{line: 2953, col: 13, offset: 93354},
+																								pos: position{line: 2955, col: 13, offset: 93421},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 13, offset: 93354},
+																										pos:        position{line: 2955, col: 13, offset: 93421},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 20, offset: 93361},
+																										pos:        position{line: 2955, col: 20, offset: 93428},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 29, offset: 93370},
+																										pos:        position{line: 2955, col: 29, offset: 93437},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38353,9 +38353,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2963, col: 8, offset: 93530},
+																							pos: position{line: 2965, col: 8, offset: 93597},
 																							expr: &anyMatcher{
-																								line: 2963, col: 9, offset: 93531,
+																								line: 2965, col: 9, offset: 93598,
 																							},
 																						},
 																					},
@@ -38378,10 +38378,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1567, col: 31, offset: 50971},
 																				expr: &actionExpr{
-																					pos: position{line: 2944, col: 10, offset: 93182},
+																					pos: position{line: 2946, col: 10, offset: 93249},
 																					run: (*parser).callonListContinuationElement1688,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2944, col: 10, offset: 93182},
+																						pos:        position{line: 2946, col: 10, offset: 93249},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -38390,25 +38390,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonListContinuationElement1690,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -38430,10 +38430,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1608, col: 5, offset: 52186},
 																					expr: &actionExpr{
-																						pos: position{line: 2944, col: 10, offset: 93182},
+																						pos: position{line: 2946, col: 10, offset: 93249},
 																						run: (*parser).callonListContinuationElement1699,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2944, col: 10, offset: 93182},
+																							pos:        position{line: 2946, col: 10, offset: 93249},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38600,12 +38600,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2948, col: 11, offset: 93243},
+																					pos: position{line: 2950, col: 11, offset: 93310},
 																					run: (*parser).callonListContinuationElement1733,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2948, col: 11, offset: 93243},
+																						pos: position{line: 2950, col: 11, offset: 93310},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2948, col: 11, offset: 93243},
+																							pos:        position{line: 2950, col: 11, offset: 93310},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38628,10 +38628,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1658, col: 5, offset: 54148},
 																					expr: &actionExpr{
-																						pos: position{line: 2944, col: 10, offset: 93182},
+																						pos: position{line: 2946, col: 10, offset: 93249},
 																						run: (*parser).callonListContinuationElement1740,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2944, col: 10, offset: 93182},
+																							pos:        position{line: 2946, col: 10, offset: 93249},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38672,12 +38672,12 @@ var g = &grammar{
 																					run: (*parser).callonListContinuationElement1748,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2948, col: 11, offset: 93243},
+																					pos: position{line: 2950, col: 11, offset: 93310},
 																					run: (*parser).callonListContinuationElement1749,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2948, col: 11, offset: 93243},
+																						pos: position{line: 2950, col: 11, offset: 93310},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2948, col: 11, offset: 93243},
+																							pos:        position{line: 2950, col: 11, offset: 93310},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38728,12 +38728,12 @@ var g = &grammar{
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2948, col: 11, offset: 93243},
+																					pos: position{line: 2950, col: 11, offset: 93310},
 																					run: (*parser).callonListContinuationElement1761,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2948, col: 11, offset: 93243},
+																						pos: position{line: 2950, col: 11, offset: 93310},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2948, col: 11, offset: 93243},
+																							pos:        position{line: 2950, col: 11, offset: 93310},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38759,18 +38759,18 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 1693, col: 5, offset: 55167},
 																							expr: &seqExpr{
-																								pos: position{line: 2543, col: 31, offset: 81992},
+																								pos: position{line: 2545, col: 31, offset: 82059},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2543, col: 31, offset: 81992},
+																										pos:        position{line: 2545, col: 31, offset: 82059},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2543, col: 36, offset: 81997},
+																										pos: position{line: 2545, col: 36, offset: 82064},
 																										expr: &litMatcher{
-																											pos:        position{line: 2543, col: 37, offset: 81998},
+																											pos:        position{line: 2545, col: 37, offset: 82065},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -38820,28 +38820,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1694, col: 35, offset: 55229},
 																										expr: &choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93580},
+																											pos: position{line: 2968, col: 8, offset: 93647},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93353},
+																													pos: position{line: 2955, col: 12, offset: 93420},
 																													run: (*parser).callonListContinuationElement1785,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93354},
+																														pos: position{line: 2955, col: 13, offset: 93421},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93354},
+																																pos:        position{line: 2955, col: 13, offset: 93421},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93361},
+																																pos:        position{line: 2955, col: 20, offset: 93428},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93370},
+																																pos:        position{line: 2955, col: 29, offset: 93437},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38850,9 +38850,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93530},
+																													pos: position{line: 2965, col: 8, offset: 93597},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93531,
+																														line: 2965, col: 9, offset: 93598,
 																													},
 																												},
 																											},
@@ -38911,7 +38911,7 @@ var g = &grammar{
 																				&notExpr{
 																					pos: position{line: 749, col: 5, offset: 24132},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2834, col: 13, offset: 90277},
+																						pos:        position{line: 2836, col: 13, offset: 90344},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -38961,10 +38961,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 767, col: 8, offset: 24776},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93182},
+																												pos: position{line: 2946, col: 10, offset: 93249},
 																												run: (*parser).callonListContinuationElement1816,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93182},
+																													pos:        position{line: 2946, col: 10, offset: 93249},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38973,28 +38973,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93580},
+																											pos: position{line: 2968, col: 8, offset: 93647},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93353},
+																													pos: position{line: 2955, col: 12, offset: 93420},
 																													run: (*parser).callonListContinuationElement1819,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93354},
+																														pos: position{line: 2955, col: 13, offset: 93421},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93354},
+																																pos:        position{line: 2955, col: 13, offset: 93421},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93361},
+																																pos:        position{line: 2955, col: 20, offset: 93428},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93370},
+																																pos:        position{line: 2955, col: 29, offset: 93437},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39003,9 +39003,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93530},
+																													pos: position{line: 2965, col: 8, offset: 93597},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93531,
+																														line: 2965, col: 9, offset: 93598,
 																													},
 																												},
 																											},
@@ -39050,10 +39050,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 774, col: 8, offset: 25024},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93182},
+																												pos: position{line: 2946, col: 10, offset: 93249},
 																												run: (*parser).callonListContinuationElement1835,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93182},
+																													pos:        position{line: 2946, col: 10, offset: 93249},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39062,28 +39062,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93580},
+																											pos: position{line: 2968, col: 8, offset: 93647},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93353},
+																													pos: position{line: 2955, col: 12, offset: 93420},
 																													run: (*parser).callonListContinuationElement1838,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93354},
+																														pos: position{line: 2955, col: 13, offset: 93421},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93354},
+																																pos:        position{line: 2955, col: 13, offset: 93421},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93361},
+																																pos:        position{line: 2955, col: 20, offset: 93428},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93370},
+																																pos:        position{line: 2955, col: 29, offset: 93437},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39092,9 +39092,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93530},
+																													pos: position{line: 2965, col: 8, offset: 93597},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93531,
+																														line: 2965, col: 9, offset: 93598,
 																													},
 																												},
 																											},
@@ -39135,10 +39135,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 52, offset: 25436},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93182},
+																												pos: position{line: 2946, col: 10, offset: 93249},
 																												run: (*parser).callonListContinuationElement1853,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93182},
+																													pos:        position{line: 2946, col: 10, offset: 93249},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39147,28 +39147,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93580},
+																											pos: position{line: 2968, col: 8, offset: 93647},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93353},
+																													pos: position{line: 2955, col: 12, offset: 93420},
 																													run: (*parser).callonListContinuationElement1856,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93354},
+																														pos: position{line: 2955, col: 13, offset: 93421},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93354},
+																																pos:        position{line: 2955, col: 13, offset: 93421},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93361},
+																																pos:        position{line: 2955, col: 20, offset: 93428},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93370},
+																																pos:        position{line: 2955, col: 29, offset: 93437},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39177,9 +39177,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93530},
+																													pos: position{line: 2965, col: 8, offset: 93597},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93531,
+																														line: 2965, col: 9, offset: 93598,
 																													},
 																												},
 																											},
@@ -39224,10 +39224,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 781, col: 8, offset: 25270},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93182},
+																												pos: position{line: 2946, col: 10, offset: 93249},
 																												run: (*parser).callonListContinuationElement1872,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93182},
+																													pos:        position{line: 2946, col: 10, offset: 93249},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39236,28 +39236,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93580},
+																											pos: position{line: 2968, col: 8, offset: 93647},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93353},
+																													pos: position{line: 2955, col: 12, offset: 93420},
 																													run: (*parser).callonListContinuationElement1875,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93354},
+																														pos: position{line: 2955, col: 13, offset: 93421},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93354},
+																																pos:        position{line: 2955, col: 13, offset: 93421},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93361},
+																																pos:        position{line: 2955, col: 20, offset: 93428},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93370},
+																																pos:        position{line: 2955, col: 29, offset: 93437},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39266,9 +39266,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93530},
+																													pos: position{line: 2965, col: 8, offset: 93597},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93531,
+																														line: 2965, col: 9, offset: 93598,
 																													},
 																												},
 																											},
@@ -39313,10 +39313,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 796, col: 8, offset: 25808},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93182},
+																												pos: position{line: 2946, col: 10, offset: 93249},
 																												run: (*parser).callonListContinuationElement1891,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93182},
+																													pos:        position{line: 2946, col: 10, offset: 93249},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39325,28 +39325,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93580},
+																											pos: position{line: 2968, col: 8, offset: 93647},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93353},
+																													pos: position{line: 2955, col: 12, offset: 93420},
 																													run: (*parser).callonListContinuationElement1894,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93354},
+																														pos: position{line: 2955, col: 13, offset: 93421},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93354},
+																																pos:        position{line: 2955, col: 13, offset: 93421},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93361},
+																																pos:        position{line: 2955, col: 20, offset: 93428},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93370},
+																																pos:        position{line: 2955, col: 29, offset: 93437},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39355,9 +39355,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93530},
+																													pos: position{line: 2965, col: 8, offset: 93597},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93531,
+																														line: 2965, col: 9, offset: 93598,
 																													},
 																												},
 																											},
@@ -39402,10 +39402,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 810, col: 8, offset: 26284},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93182},
+																												pos: position{line: 2946, col: 10, offset: 93249},
 																												run: (*parser).callonListContinuationElement1910,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93182},
+																													pos:        position{line: 2946, col: 10, offset: 93249},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39414,28 +39414,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93580},
+																											pos: position{line: 2968, col: 8, offset: 93647},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93353},
+																													pos: position{line: 2955, col: 12, offset: 93420},
 																													run: (*parser).callonListContinuationElement1913,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93354},
+																														pos: position{line: 2955, col: 13, offset: 93421},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93354},
+																																pos:        position{line: 2955, col: 13, offset: 93421},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93361},
+																																pos:        position{line: 2955, col: 20, offset: 93428},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93370},
+																																pos:        position{line: 2955, col: 29, offset: 93437},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39444,9 +39444,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93530},
+																													pos: position{line: 2965, col: 8, offset: 93597},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93531,
+																														line: 2965, col: 9, offset: 93598,
 																													},
 																												},
 																											},
@@ -39491,10 +39491,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 817, col: 8, offset: 26536},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93182},
+																												pos: position{line: 2946, col: 10, offset: 93249},
 																												run: (*parser).callonListContinuationElement1929,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93182},
+																													pos:        position{line: 2946, col: 10, offset: 93249},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39503,28 +39503,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93580},
+																											pos: position{line: 2968, col: 8, offset: 93647},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93353},
+																													pos: position{line: 2955, col: 12, offset: 93420},
 																													run: (*parser).callonListContinuationElement1932,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93354},
+																														pos: position{line: 2955, col: 13, offset: 93421},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93354},
+																																pos:        position{line: 2955, col: 13, offset: 93421},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93361},
+																																pos:        position{line: 2955, col: 20, offset: 93428},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93370},
+																																pos:        position{line: 2955, col: 29, offset: 93437},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39533,9 +39533,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93530},
+																													pos: position{line: 2965, col: 8, offset: 93597},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93531,
+																														line: 2965, col: 9, offset: 93598,
 																													},
 																												},
 																											},
@@ -39580,10 +39580,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 824, col: 8, offset: 26786},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93182},
+																												pos: position{line: 2946, col: 10, offset: 93249},
 																												run: (*parser).callonListContinuationElement1948,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93182},
+																													pos:        position{line: 2946, col: 10, offset: 93249},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39592,28 +39592,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93580},
+																											pos: position{line: 2968, col: 8, offset: 93647},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93353},
+																													pos: position{line: 2955, col: 12, offset: 93420},
 																													run: (*parser).callonListContinuationElement1951,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93354},
+																														pos: position{line: 2955, col: 13, offset: 93421},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93354},
+																																pos:        position{line: 2955, col: 13, offset: 93421},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93361},
+																																pos:        position{line: 2955, col: 20, offset: 93428},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93370},
+																																pos:        position{line: 2955, col: 29, offset: 93437},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39622,9 +39622,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93530},
+																													pos: position{line: 2965, col: 8, offset: 93597},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93531,
+																														line: 2965, col: 9, offset: 93598,
 																													},
 																												},
 																											},
@@ -39669,10 +39669,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 831, col: 8, offset: 27032},
 																											expr: &actionExpr{
-																												pos: position{line: 2944, col: 10, offset: 93182},
+																												pos: position{line: 2946, col: 10, offset: 93249},
 																												run: (*parser).callonListContinuationElement1967,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2944, col: 10, offset: 93182},
+																													pos:        position{line: 2946, col: 10, offset: 93249},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39681,28 +39681,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2966, col: 8, offset: 93580},
+																											pos: position{line: 2968, col: 8, offset: 93647},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2953, col: 12, offset: 93353},
+																													pos: position{line: 2955, col: 12, offset: 93420},
 																													run: (*parser).callonListContinuationElement1970,
 																													expr: &choiceExpr{
-																														pos: position{line: 2953, col: 13, offset: 93354},
+																														pos: position{line: 2955, col: 13, offset: 93421},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 13, offset: 93354},
+																																pos:        position{line: 2955, col: 13, offset: 93421},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 20, offset: 93361},
+																																pos:        position{line: 2955, col: 20, offset: 93428},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2953, col: 29, offset: 93370},
+																																pos:        position{line: 2955, col: 29, offset: 93437},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39711,9 +39711,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2963, col: 8, offset: 93530},
+																													pos: position{line: 2965, col: 8, offset: 93597},
 																													expr: &anyMatcher{
-																														line: 2963, col: 9, offset: 93531,
+																														line: 2965, col: 9, offset: 93598,
 																													},
 																												},
 																											},
@@ -39732,12 +39732,12 @@ var g = &grammar{
 																	pos:   position{line: 1542, col: 5, offset: 50305},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2894, col: 14, offset: 91775},
+																		pos: position{line: 2896, col: 14, offset: 91842},
 																		run: (*parser).callonListContinuationElement1978,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2894, col: 14, offset: 91775},
+																			pos: position{line: 2896, col: 14, offset: 91842},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2894, col: 14, offset: 91775},
+																				pos:        position{line: 2896, col: 14, offset: 91842},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -39747,28 +39747,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93580},
+																	pos: position{line: 2968, col: 8, offset: 93647},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93353},
+																			pos: position{line: 2955, col: 12, offset: 93420},
 																			run: (*parser).callonListContinuationElement1982,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93354},
+																				pos: position{line: 2955, col: 13, offset: 93421},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93354},
+																						pos:        position{line: 2955, col: 13, offset: 93421},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93361},
+																						pos:        position{line: 2955, col: 20, offset: 93428},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93370},
+																						pos:        position{line: 2955, col: 29, offset: 93437},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -39777,9 +39777,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93530},
+																			pos: position{line: 2965, col: 8, offset: 93597},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93531,
+																				line: 2965, col: 9, offset: 93598,
 																			},
 																		},
 																	},
@@ -39844,10 +39844,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1737, col: 66, offset: 56417},
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 10, offset: 93182},
+								pos: position{line: 2946, col: 10, offset: 93249},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2944, col: 10, offset: 93182},
+									pos:        position{line: 2946, col: 10, offset: 93249},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -39861,25 +39861,25 @@ var g = &grammar{
 								pos: position{line: 1737, col: 75, offset: 56426},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2953, col: 12, offset: 93353},
+										pos: position{line: 2955, col: 12, offset: 93420},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2953, col: 13, offset: 93354},
+											pos: position{line: 2955, col: 13, offset: 93421},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2953, col: 13, offset: 93354},
+													pos:        position{line: 2955, col: 13, offset: 93421},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2953, col: 20, offset: 93361},
+													pos:        position{line: 2955, col: 20, offset: 93428},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2953, col: 29, offset: 93370},
+													pos:        position{line: 2955, col: 29, offset: 93437},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -39888,9 +39888,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2963, col: 8, offset: 93530},
+										pos: position{line: 2965, col: 8, offset: 93597},
 										expr: &anyMatcher{
-											line: 2963, col: 9, offset: 93531,
+											line: 2965, col: 9, offset: 93598,
 										},
 									},
 									&ruleRefExpr{
@@ -39915,41 +39915,205 @@ var g = &grammar{
 					exprs: []interface{}{
 						&andExpr{
 							pos: position{line: 1778, col: 5, offset: 57679},
-							expr: &seqExpr{
-								pos: position{line: 1778, col: 7, offset: 57681},
-								exprs: []interface{}{
-									&charClassMatcher{
-										pos:        position{line: 2834, col: 13, offset: 90277},
-										val:        "[\\pL\\pN]",
-										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-										ignoreCase: false,
-										inverted:   false,
-									},
-									&notExpr{
-										pos: position{line: 1778, col: 16, offset: 57690},
-										expr: &seqExpr{
-											pos: position{line: 1778, col: 18, offset: 57692},
-											exprs: []interface{}{
-												&charClassMatcher{
-													pos:        position{line: 1778, col: 19, offset: 57693},
-													val:        "[.)]",
-													chars:      []rune{'.', ')'},
+							expr: &charClassMatcher{
+								pos:        position{line: 2836, col: 13, offset: 90344},
+								val:        "[\\pL\\pN]",
+								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+								ignoreCase: false,
+								inverted:   false,
+							},
+						},
+						&notExpr{
+							pos: position{line: 1779, col: 5, offset: 57693},
+							expr: &actionExpr{
+								pos: position{line: 1608, col: 5, offset: 52186},
+								run: (*parser).callonShortcutParagraph6,
+								expr: &seqExpr{
+									pos: position{line: 1608, col: 5, offset: 52186},
+									exprs: []interface{}{
+										&zeroOrMoreExpr{
+											pos: position{line: 1608, col: 5, offset: 52186},
+											expr: &actionExpr{
+												pos: position{line: 2946, col: 10, offset: 93249},
+												run: (*parser).callonShortcutParagraph9,
+												expr: &charClassMatcher{
+													pos:        position{line: 2946, col: 10, offset: 93249},
+													val:        "[\\t ]",
+													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
 													inverted:   false,
 												},
-												&actionExpr{
-													pos: position{line: 2948, col: 11, offset: 93243},
-													run: (*parser).callonShortcutParagraph9,
-													expr: &oneOrMoreExpr{
-														pos: position{line: 2948, col: 11, offset: 93243},
-														expr: &charClassMatcher{
-															pos:        position{line: 2948, col: 11, offset: 93243},
-															val:        "[\\t ]",
-															chars:      []rune{'\t', ' '},
-															ignoreCase: false,
-															inverted:   false,
+											},
+										},
+										&labeledExpr{
+											pos:   position{line: 1608, col: 12, offset: 52193},
+											label: "prefix",
+											expr: &choiceExpr{
+												pos: position{line: 1610, col: 9, offset: 52256},
+												alternatives: []interface{}{
+													&actionExpr{
+														pos: position{line: 1610, col: 9, offset: 52256},
+														run: (*parser).callonShortcutParagraph13,
+														expr: &seqExpr{
+															pos: position{line: 1610, col: 9, offset: 52256},
+															exprs: []interface{}{
+																&labeledExpr{
+																	pos:   position{line: 1610, col: 9, offset: 52256},
+																	label: "depth",
+																	expr: &actionExpr{
+																		pos: position{line: 1610, col: 16, offset: 52263},
+																		run: (*parser).callonShortcutParagraph16,
+																		expr: &oneOrMoreExpr{
+																			pos: position{line: 1610, col: 16, offset: 52263},
+																			expr: &litMatcher{
+																				pos:        position{line: 1610, col: 17, offset: 52264},
+																				val:        ".",
+																				ignoreCase: false,
+																				want:       "\".\"",
+																			},
+																		},
+																	},
+																},
+																&andCodeExpr{
+																	pos: position{line: 1614, col: 9, offset: 52364},
+																	run: (*parser).callonShortcutParagraph19,
+																},
+															},
 														},
 													},
+													&actionExpr{
+														pos: position{line: 1633, col: 11, offset: 53081},
+														run: (*parser).callonShortcutParagraph20,
+														expr: &seqExpr{
+															pos: position{line: 1633, col: 11, offset: 53081},
+															exprs: []interface{}{
+																&oneOrMoreExpr{
+																	pos: position{line: 1633, col: 11, offset: 53081},
+																	expr: &charClassMatcher{
+																		pos:        position{line: 1633, col: 12, offset: 53082},
+																		val:        "[0-9]",
+																		ranges:     []rune{'0', '9'},
+																		ignoreCase: false,
+																		inverted:   false,
+																	},
+																},
+																&litMatcher{
+																	pos:        position{line: 1633, col: 20, offset: 53090},
+																	val:        ".",
+																	ignoreCase: false,
+																	want:       "\".\"",
+																},
+															},
+														},
+													},
+													&actionExpr{
+														pos: position{line: 1635, col: 13, offset: 53207},
+														run: (*parser).callonShortcutParagraph25,
+														expr: &seqExpr{
+															pos: position{line: 1635, col: 13, offset: 53207},
+															exprs: []interface{}{
+																&charClassMatcher{
+																	pos:        position{line: 1635, col: 14, offset: 53208},
+																	val:        "[a-z]",
+																	ranges:     []rune{'a', 'z'},
+																	ignoreCase: false,
+																	inverted:   false,
+																},
+																&litMatcher{
+																	pos:        position{line: 1635, col: 21, offset: 53215},
+																	val:        ".",
+																	ignoreCase: false,
+																	want:       "\".\"",
+																},
+															},
+														},
+													},
+													&actionExpr{
+														pos: position{line: 1637, col: 13, offset: 53335},
+														run: (*parser).callonShortcutParagraph29,
+														expr: &seqExpr{
+															pos: position{line: 1637, col: 13, offset: 53335},
+															exprs: []interface{}{
+																&charClassMatcher{
+																	pos:        position{line: 1637, col: 14, offset: 53336},
+																	val:        "[A-Z]",
+																	ranges:     []rune{'A', 'Z'},
+																	ignoreCase: false,
+																	inverted:   false,
+																},
+																&litMatcher{
+																	pos:        position{line: 1637, col: 21, offset: 53343},
+																	val:        ".",
+																	ignoreCase: false,
+																	want:       "\".\"",
+																},
+															},
+														},
+													},
+													&actionExpr{
+														pos: position{line: 1639, col: 13, offset: 53463},
+														run: (*parser).callonShortcutParagraph33,
+														expr: &seqExpr{
+															pos: position{line: 1639, col: 13, offset: 53463},
+															exprs: []interface{}{
+																&oneOrMoreExpr{
+																	pos: position{line: 1639, col: 13, offset: 53463},
+																	expr: &charClassMatcher{
+																		pos:        position{line: 1639, col: 14, offset: 53464},
+																		val:        "[ivxdlcm]",
+																		chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
+																		ignoreCase: false,
+																		inverted:   false,
+																	},
+																},
+																&litMatcher{
+																	pos:        position{line: 1639, col: 26, offset: 53476},
+																	val:        ")",
+																	ignoreCase: false,
+																	want:       "\")\"",
+																},
+															},
+														},
+													},
+													&actionExpr{
+														pos: position{line: 1641, col: 13, offset: 53596},
+														run: (*parser).callonShortcutParagraph38,
+														expr: &seqExpr{
+															pos: position{line: 1641, col: 13, offset: 53596},
+															exprs: []interface{}{
+																&oneOrMoreExpr{
+																	pos: position{line: 1641, col: 13, offset: 53596},
+																	expr: &charClassMatcher{
+																		pos:        position{line: 1641, col: 14, offset: 53597},
+																		val:        "[IVXDLCM]",
+																		chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
+																		ignoreCase: false,
+																		inverted:   false,
+																	},
+																},
+																&litMatcher{
+																	pos:        position{line: 1641, col: 26, offset: 53609},
+																	val:        ")",
+																	ignoreCase: false,
+																	want:       "\")\"",
+																},
+															},
+														},
+													},
+												},
+											},
+										},
+										&actionExpr{
+											pos: position{line: 2950, col: 11, offset: 93310},
+											run: (*parser).callonShortcutParagraph43,
+											expr: &oneOrMoreExpr{
+												pos: position{line: 2950, col: 11, offset: 93310},
+												expr: &charClassMatcher{
+													pos:        position{line: 2950, col: 11, offset: 93310},
+													val:        "[\\t ]",
+													chars:      []rune{'\t', ' '},
+													ignoreCase: false,
+													inverted:   false,
 												},
 											},
 										},
@@ -39958,19 +40122,19 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1779, col: 5, offset: 57833},
+							pos:   position{line: 1780, col: 5, offset: 57839},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1779, col: 11, offset: 57839},
+								pos: position{line: 1780, col: 11, offset: 57845},
 								expr: &actionExpr{
 									pos: position{line: 1757, col: 5, offset: 57102},
-									run: (*parser).callonShortcutParagraph14,
+									run: (*parser).callonShortcutParagraph48,
 									expr: &seqExpr{
 										pos: position{line: 1757, col: 5, offset: 57102},
 										exprs: []interface{}{
 											&andCodeExpr{
 												pos: position{line: 1757, col: 5, offset: 57102},
-												run: (*parser).callonShortcutParagraph16,
+												run: (*parser).callonShortcutParagraph50,
 											},
 											&labeledExpr{
 												pos:   position{line: 1760, col: 5, offset: 57165},
@@ -39980,7 +40144,7 @@ var g = &grammar{
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 1760, col: 12, offset: 57172},
-															run: (*parser).callonShortcutParagraph19,
+															run: (*parser).callonShortcutParagraph53,
 															expr: &litMatcher{
 																pos:        position{line: 1760, col: 12, offset: 57172},
 																val:        "TIP: ",
@@ -39990,7 +40154,7 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 1762, col: 13, offset: 57228},
-															run: (*parser).callonShortcutParagraph21,
+															run: (*parser).callonShortcutParagraph55,
 															expr: &litMatcher{
 																pos:        position{line: 1762, col: 13, offset: 57228},
 																val:        "NOTE: ",
@@ -40000,7 +40164,7 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 1764, col: 13, offset: 57286},
-															run: (*parser).callonShortcutParagraph23,
+															run: (*parser).callonShortcutParagraph57,
 															expr: &litMatcher{
 																pos:        position{line: 1764, col: 13, offset: 57286},
 																val:        "IMPORTANT: ",
@@ -40010,7 +40174,7 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 1766, col: 13, offset: 57354},
-															run: (*parser).callonShortcutParagraph25,
+															run: (*parser).callonShortcutParagraph59,
 															expr: &litMatcher{
 																pos:        position{line: 1766, col: 13, offset: 57354},
 																val:        "WARNING: ",
@@ -40020,7 +40184,7 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 1768, col: 13, offset: 57418},
-															run: (*parser).callonShortcutParagraph27,
+															run: (*parser).callonShortcutParagraph61,
 															expr: &litMatcher{
 																pos:        position{line: 1768, col: 13, offset: 57418},
 																val:        "CAUTION: ",
@@ -40030,16 +40194,16 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 1770, col: 13, offset: 57482},
-															run: (*parser).callonShortcutParagraph29,
+															run: (*parser).callonShortcutParagraph63,
 															expr: &andExpr{
 																pos: position{line: 1770, col: 13, offset: 57482},
 																expr: &actionExpr{
-																	pos: position{line: 2948, col: 11, offset: 93243},
-																	run: (*parser).callonShortcutParagraph31,
+																	pos: position{line: 2950, col: 11, offset: 93310},
+																	run: (*parser).callonShortcutParagraph65,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2948, col: 11, offset: 93243},
+																		pos: position{line: 2950, col: 11, offset: 93310},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2948, col: 11, offset: 93243},
+																			pos:        position{line: 2950, col: 11, offset: 93310},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40058,24 +40222,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1780, col: 5, offset: 57861},
+							pos:   position{line: 1781, col: 5, offset: 57867},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1816, col: 5, offset: 58968},
-								run: (*parser).callonShortcutParagraph35,
+								pos: position{line: 1818, col: 5, offset: 59035},
+								run: (*parser).callonShortcutParagraph69,
 								expr: &seqExpr{
-									pos: position{line: 1816, col: 5, offset: 58968},
+									pos: position{line: 1818, col: 5, offset: 59035},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1816, col: 5, offset: 58968},
+											pos:   position{line: 1818, col: 5, offset: 59035},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2894, col: 14, offset: 91775},
-												run: (*parser).callonShortcutParagraph38,
+												pos: position{line: 2896, col: 14, offset: 91842},
+												run: (*parser).callonShortcutParagraph72,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2894, col: 14, offset: 91775},
+													pos: position{line: 2896, col: 14, offset: 91842},
 													expr: &charClassMatcher{
-														pos:        position{line: 2894, col: 14, offset: 91775},
+														pos:        position{line: 2896, col: 14, offset: 91842},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40085,32 +40249,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1817, col: 5, offset: 58992},
-											run: (*parser).callonShortcutParagraph41,
+											pos: position{line: 1819, col: 5, offset: 59059},
+											run: (*parser).callonShortcutParagraph75,
 										},
 										&choiceExpr{
-											pos: position{line: 2966, col: 8, offset: 93580},
+											pos: position{line: 2968, col: 8, offset: 93647},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2953, col: 12, offset: 93353},
-													run: (*parser).callonShortcutParagraph43,
+													pos: position{line: 2955, col: 12, offset: 93420},
+													run: (*parser).callonShortcutParagraph77,
 													expr: &choiceExpr{
-														pos: position{line: 2953, col: 13, offset: 93354},
+														pos: position{line: 2955, col: 13, offset: 93421},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2953, col: 13, offset: 93354},
+																pos:        position{line: 2955, col: 13, offset: 93421},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2953, col: 20, offset: 93361},
+																pos:        position{line: 2955, col: 20, offset: 93428},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2953, col: 29, offset: 93370},
+																pos:        position{line: 2955, col: 29, offset: 93437},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40119,9 +40283,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2963, col: 8, offset: 93530},
+													pos: position{line: 2965, col: 8, offset: 93597},
 													expr: &anyMatcher{
-														line: 2963, col: 9, offset: 93531,
+														line: 2965, col: 9, offset: 93598,
 													},
 												},
 											},
@@ -40131,47 +40295,47 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1781, col: 5, offset: 57895},
-							run: (*parser).callonShortcutParagraph50,
+							pos: position{line: 1782, col: 5, offset: 57901},
+							run: (*parser).callonShortcutParagraph84,
 						},
 						&labeledExpr{
-							pos:   position{line: 1788, col: 5, offset: 58225},
+							pos:   position{line: 1790, col: 5, offset: 58292},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1788, col: 16, offset: 58236},
+								pos: position{line: 1790, col: 16, offset: 58303},
 								expr: &actionExpr{
-									pos: position{line: 1789, col: 9, offset: 58246},
-									run: (*parser).callonShortcutParagraph53,
+									pos: position{line: 1791, col: 9, offset: 58313},
+									run: (*parser).callonShortcutParagraph87,
 									expr: &seqExpr{
-										pos: position{line: 1789, col: 9, offset: 58246},
+										pos: position{line: 1791, col: 9, offset: 58313},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2961, col: 11, offset: 93516},
+												pos: position{line: 2963, col: 11, offset: 93583},
 												expr: &anyMatcher{
-													line: 2961, col: 13, offset: 93518,
+													line: 2963, col: 13, offset: 93585,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1790, col: 9, offset: 58262},
+												pos: position{line: 1792, col: 9, offset: 58329},
 												expr: &actionExpr{
 													pos: position{line: 702, col: 14, offset: 22579},
-													run: (*parser).callonShortcutParagraph58,
+													run: (*parser).callonShortcutParagraph92,
 													expr: &seqExpr{
 														pos: position{line: 702, col: 14, offset: 22579},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2961, col: 11, offset: 93516},
+																pos: position{line: 2963, col: 11, offset: 93583},
 																expr: &anyMatcher{
-																	line: 2961, col: 13, offset: 93518,
+																	line: 2963, col: 13, offset: 93585,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 702, col: 21, offset: 22586},
 																expr: &actionExpr{
-																	pos: position{line: 2944, col: 10, offset: 93182},
-																	run: (*parser).callonShortcutParagraph63,
+																	pos: position{line: 2946, col: 10, offset: 93249},
+																	run: (*parser).callonShortcutParagraph97,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2944, col: 10, offset: 93182},
+																		pos:        position{line: 2946, col: 10, offset: 93249},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40180,28 +40344,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2966, col: 8, offset: 93580},
+																pos: position{line: 2968, col: 8, offset: 93647},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2953, col: 12, offset: 93353},
-																		run: (*parser).callonShortcutParagraph66,
+																		pos: position{line: 2955, col: 12, offset: 93420},
+																		run: (*parser).callonShortcutParagraph100,
 																		expr: &choiceExpr{
-																			pos: position{line: 2953, col: 13, offset: 93354},
+																			pos: position{line: 2955, col: 13, offset: 93421},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 13, offset: 93354},
+																					pos:        position{line: 2955, col: 13, offset: 93421},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 20, offset: 93361},
+																					pos:        position{line: 2955, col: 20, offset: 93428},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 29, offset: 93370},
+																					pos:        position{line: 2955, col: 29, offset: 93437},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40210,9 +40374,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93530},
+																		pos: position{line: 2965, col: 8, offset: 93597},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93531,
+																			line: 2965, col: 9, offset: 93598,
 																		},
 																	},
 																},
@@ -40222,24 +40386,24 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1791, col: 9, offset: 58281},
+												pos: position{line: 1793, col: 9, offset: 58348},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1791, col: 10, offset: 58282},
+													pos:  position{line: 1793, col: 10, offset: 58349},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1792, col: 9, offset: 58306},
+												pos: position{line: 1794, col: 9, offset: 58373},
 												expr: &actionExpr{
 													pos: position{line: 749, col: 5, offset: 24132},
-													run: (*parser).callonShortcutParagraph76,
+													run: (*parser).callonShortcutParagraph110,
 													expr: &seqExpr{
 														pos: position{line: 749, col: 5, offset: 24132},
 														exprs: []interface{}{
 															&notExpr{
 																pos: position{line: 749, col: 5, offset: 24132},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2834, col: 13, offset: 90277},
+																	pos:        position{line: 2836, col: 13, offset: 90344},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -40254,7 +40418,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 765, col: 5, offset: 24674},
-																			run: (*parser).callonShortcutParagraph82,
+																			run: (*parser).callonShortcutParagraph116,
 																			expr: &seqExpr{
 																				pos: position{line: 765, col: 5, offset: 24674},
 																				exprs: []interface{}{
@@ -40263,7 +40427,7 @@ var g = &grammar{
 																						label: "delimiter",
 																						expr: &actionExpr{
 																							pos: position{line: 765, col: 16, offset: 24685},
-																							run: (*parser).callonShortcutParagraph85,
+																							run: (*parser).callonShortcutParagraph119,
 																							expr: &seqExpr{
 																								pos: position{line: 765, col: 16, offset: 24685},
 																								exprs: []interface{}{
@@ -40289,10 +40453,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 767, col: 8, offset: 24776},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93182},
-																							run: (*parser).callonShortcutParagraph91,
+																							pos: position{line: 2946, col: 10, offset: 93249},
+																							run: (*parser).callonShortcutParagraph125,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93182},
+																								pos:        position{line: 2946, col: 10, offset: 93249},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40301,28 +40465,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93580},
+																						pos: position{line: 2968, col: 8, offset: 93647},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93353},
-																								run: (*parser).callonShortcutParagraph94,
+																								pos: position{line: 2955, col: 12, offset: 93420},
+																								run: (*parser).callonShortcutParagraph128,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93354},
+																									pos: position{line: 2955, col: 13, offset: 93421},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93354},
+																											pos:        position{line: 2955, col: 13, offset: 93421},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93361},
+																											pos:        position{line: 2955, col: 20, offset: 93428},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93370},
+																											pos:        position{line: 2955, col: 29, offset: 93437},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40331,9 +40495,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93530},
+																								pos: position{line: 2965, col: 8, offset: 93597},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93531,
+																									line: 2965, col: 9, offset: 93598,
 																								},
 																							},
 																						},
@@ -40343,7 +40507,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 772, col: 5, offset: 24922},
-																			run: (*parser).callonShortcutParagraph101,
+																			run: (*parser).callonShortcutParagraph135,
 																			expr: &seqExpr{
 																				pos: position{line: 772, col: 5, offset: 24922},
 																				exprs: []interface{}{
@@ -40352,7 +40516,7 @@ var g = &grammar{
 																						label: "delimiter",
 																						expr: &actionExpr{
 																							pos: position{line: 772, col: 16, offset: 24933},
-																							run: (*parser).callonShortcutParagraph104,
+																							run: (*parser).callonShortcutParagraph138,
 																							expr: &seqExpr{
 																								pos: position{line: 772, col: 16, offset: 24933},
 																								exprs: []interface{}{
@@ -40378,10 +40542,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 774, col: 8, offset: 25024},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93182},
-																							run: (*parser).callonShortcutParagraph110,
+																							pos: position{line: 2946, col: 10, offset: 93249},
+																							run: (*parser).callonShortcutParagraph144,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93182},
+																								pos:        position{line: 2946, col: 10, offset: 93249},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40390,28 +40554,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93580},
+																						pos: position{line: 2968, col: 8, offset: 93647},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93353},
-																								run: (*parser).callonShortcutParagraph113,
+																								pos: position{line: 2955, col: 12, offset: 93420},
+																								run: (*parser).callonShortcutParagraph147,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93354},
+																									pos: position{line: 2955, col: 13, offset: 93421},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93354},
+																											pos:        position{line: 2955, col: 13, offset: 93421},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93361},
+																											pos:        position{line: 2955, col: 20, offset: 93428},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93370},
+																											pos:        position{line: 2955, col: 29, offset: 93437},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40420,9 +40584,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93530},
+																								pos: position{line: 2965, col: 8, offset: 93597},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93531,
+																									line: 2965, col: 9, offset: 93598,
 																								},
 																							},
 																						},
@@ -40432,7 +40596,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 785, col: 26, offset: 25410},
-																			run: (*parser).callonShortcutParagraph120,
+																			run: (*parser).callonShortcutParagraph154,
 																			expr: &seqExpr{
 																				pos: position{line: 785, col: 26, offset: 25410},
 																				exprs: []interface{}{
@@ -40447,7 +40611,7 @@ var g = &grammar{
 																						label: "language",
 																						expr: &actionExpr{
 																							pos: position{line: 789, col: 13, offset: 25546},
-																							run: (*parser).callonShortcutParagraph124,
+																							run: (*parser).callonShortcutParagraph158,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 789, col: 14, offset: 25547},
 																								expr: &charClassMatcher{
@@ -40463,10 +40627,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 785, col: 52, offset: 25436},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93182},
-																							run: (*parser).callonShortcutParagraph128,
+																							pos: position{line: 2946, col: 10, offset: 93249},
+																							run: (*parser).callonShortcutParagraph162,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93182},
+																								pos:        position{line: 2946, col: 10, offset: 93249},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40475,28 +40639,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93580},
+																						pos: position{line: 2968, col: 8, offset: 93647},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93353},
-																								run: (*parser).callonShortcutParagraph131,
+																								pos: position{line: 2955, col: 12, offset: 93420},
+																								run: (*parser).callonShortcutParagraph165,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93354},
+																									pos: position{line: 2955, col: 13, offset: 93421},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93354},
+																											pos:        position{line: 2955, col: 13, offset: 93421},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93361},
+																											pos:        position{line: 2955, col: 20, offset: 93428},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93370},
+																											pos:        position{line: 2955, col: 29, offset: 93437},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40505,9 +40669,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93530},
+																								pos: position{line: 2965, col: 8, offset: 93597},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93531,
+																									line: 2965, col: 9, offset: 93598,
 																								},
 																							},
 																						},
@@ -40517,7 +40681,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 779, col: 5, offset: 25169},
-																			run: (*parser).callonShortcutParagraph138,
+																			run: (*parser).callonShortcutParagraph172,
 																			expr: &seqExpr{
 																				pos: position{line: 779, col: 5, offset: 25169},
 																				exprs: []interface{}{
@@ -40526,7 +40690,7 @@ var g = &grammar{
 																						label: "delimiter",
 																						expr: &actionExpr{
 																							pos: position{line: 779, col: 16, offset: 25180},
-																							run: (*parser).callonShortcutParagraph141,
+																							run: (*parser).callonShortcutParagraph175,
 																							expr: &seqExpr{
 																								pos: position{line: 779, col: 16, offset: 25180},
 																								exprs: []interface{}{
@@ -40552,10 +40716,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 781, col: 8, offset: 25270},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93182},
-																							run: (*parser).callonShortcutParagraph147,
+																							pos: position{line: 2946, col: 10, offset: 93249},
+																							run: (*parser).callonShortcutParagraph181,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93182},
+																								pos:        position{line: 2946, col: 10, offset: 93249},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40564,28 +40728,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93580},
+																						pos: position{line: 2968, col: 8, offset: 93647},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93353},
-																								run: (*parser).callonShortcutParagraph150,
+																								pos: position{line: 2955, col: 12, offset: 93420},
+																								run: (*parser).callonShortcutParagraph184,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93354},
+																									pos: position{line: 2955, col: 13, offset: 93421},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93354},
+																											pos:        position{line: 2955, col: 13, offset: 93421},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93361},
+																											pos:        position{line: 2955, col: 20, offset: 93428},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93370},
+																											pos:        position{line: 2955, col: 29, offset: 93437},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40594,9 +40758,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93530},
+																								pos: position{line: 2965, col: 8, offset: 93597},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93531,
+																									line: 2965, col: 9, offset: 93598,
 																								},
 																							},
 																						},
@@ -40606,7 +40770,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 794, col: 5, offset: 25706},
-																			run: (*parser).callonShortcutParagraph157,
+																			run: (*parser).callonShortcutParagraph191,
 																			expr: &seqExpr{
 																				pos: position{line: 794, col: 5, offset: 25706},
 																				exprs: []interface{}{
@@ -40615,7 +40779,7 @@ var g = &grammar{
 																						label: "delimiter",
 																						expr: &actionExpr{
 																							pos: position{line: 794, col: 16, offset: 25717},
-																							run: (*parser).callonShortcutParagraph160,
+																							run: (*parser).callonShortcutParagraph194,
 																							expr: &seqExpr{
 																								pos: position{line: 794, col: 16, offset: 25717},
 																								exprs: []interface{}{
@@ -40641,10 +40805,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 796, col: 8, offset: 25808},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93182},
-																							run: (*parser).callonShortcutParagraph166,
+																							pos: position{line: 2946, col: 10, offset: 93249},
+																							run: (*parser).callonShortcutParagraph200,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93182},
+																								pos:        position{line: 2946, col: 10, offset: 93249},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40653,28 +40817,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93580},
+																						pos: position{line: 2968, col: 8, offset: 93647},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93353},
-																								run: (*parser).callonShortcutParagraph169,
+																								pos: position{line: 2955, col: 12, offset: 93420},
+																								run: (*parser).callonShortcutParagraph203,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93354},
+																									pos: position{line: 2955, col: 13, offset: 93421},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93354},
+																											pos:        position{line: 2955, col: 13, offset: 93421},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93361},
+																											pos:        position{line: 2955, col: 20, offset: 93428},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93370},
+																											pos:        position{line: 2955, col: 29, offset: 93437},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40683,9 +40847,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93530},
+																								pos: position{line: 2965, col: 8, offset: 93597},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93531,
+																									line: 2965, col: 9, offset: 93598,
 																								},
 																							},
 																						},
@@ -40695,7 +40859,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 808, col: 5, offset: 26182},
-																			run: (*parser).callonShortcutParagraph176,
+																			run: (*parser).callonShortcutParagraph210,
 																			expr: &seqExpr{
 																				pos: position{line: 808, col: 5, offset: 26182},
 																				exprs: []interface{}{
@@ -40704,7 +40868,7 @@ var g = &grammar{
 																						label: "delimiter",
 																						expr: &actionExpr{
 																							pos: position{line: 808, col: 16, offset: 26193},
-																							run: (*parser).callonShortcutParagraph179,
+																							run: (*parser).callonShortcutParagraph213,
 																							expr: &seqExpr{
 																								pos: position{line: 808, col: 16, offset: 26193},
 																								exprs: []interface{}{
@@ -40730,10 +40894,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 810, col: 8, offset: 26284},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93182},
-																							run: (*parser).callonShortcutParagraph185,
+																							pos: position{line: 2946, col: 10, offset: 93249},
+																							run: (*parser).callonShortcutParagraph219,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93182},
+																								pos:        position{line: 2946, col: 10, offset: 93249},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40742,28 +40906,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93580},
+																						pos: position{line: 2968, col: 8, offset: 93647},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93353},
-																								run: (*parser).callonShortcutParagraph188,
+																								pos: position{line: 2955, col: 12, offset: 93420},
+																								run: (*parser).callonShortcutParagraph222,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93354},
+																									pos: position{line: 2955, col: 13, offset: 93421},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93354},
+																											pos:        position{line: 2955, col: 13, offset: 93421},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93361},
+																											pos:        position{line: 2955, col: 20, offset: 93428},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93370},
+																											pos:        position{line: 2955, col: 29, offset: 93437},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40772,9 +40936,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93530},
+																								pos: position{line: 2965, col: 8, offset: 93597},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93531,
+																									line: 2965, col: 9, offset: 93598,
 																								},
 																							},
 																						},
@@ -40784,7 +40948,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 815, col: 5, offset: 26434},
-																			run: (*parser).callonShortcutParagraph195,
+																			run: (*parser).callonShortcutParagraph229,
 																			expr: &seqExpr{
 																				pos: position{line: 815, col: 5, offset: 26434},
 																				exprs: []interface{}{
@@ -40793,7 +40957,7 @@ var g = &grammar{
 																						label: "delimiter",
 																						expr: &actionExpr{
 																							pos: position{line: 815, col: 16, offset: 26445},
-																							run: (*parser).callonShortcutParagraph198,
+																							run: (*parser).callonShortcutParagraph232,
 																							expr: &seqExpr{
 																								pos: position{line: 815, col: 16, offset: 26445},
 																								exprs: []interface{}{
@@ -40819,10 +40983,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 817, col: 8, offset: 26536},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93182},
-																							run: (*parser).callonShortcutParagraph204,
+																							pos: position{line: 2946, col: 10, offset: 93249},
+																							run: (*parser).callonShortcutParagraph238,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93182},
+																								pos:        position{line: 2946, col: 10, offset: 93249},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40831,28 +40995,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93580},
+																						pos: position{line: 2968, col: 8, offset: 93647},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93353},
-																								run: (*parser).callonShortcutParagraph207,
+																								pos: position{line: 2955, col: 12, offset: 93420},
+																								run: (*parser).callonShortcutParagraph241,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93354},
+																									pos: position{line: 2955, col: 13, offset: 93421},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93354},
+																											pos:        position{line: 2955, col: 13, offset: 93421},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93361},
+																											pos:        position{line: 2955, col: 20, offset: 93428},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93370},
+																											pos:        position{line: 2955, col: 29, offset: 93437},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40861,9 +41025,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93530},
+																								pos: position{line: 2965, col: 8, offset: 93597},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93531,
+																									line: 2965, col: 9, offset: 93598,
 																								},
 																							},
 																						},
@@ -40873,7 +41037,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 822, col: 5, offset: 26684},
-																			run: (*parser).callonShortcutParagraph214,
+																			run: (*parser).callonShortcutParagraph248,
 																			expr: &seqExpr{
 																				pos: position{line: 822, col: 5, offset: 26684},
 																				exprs: []interface{}{
@@ -40882,7 +41046,7 @@ var g = &grammar{
 																						label: "delimiter",
 																						expr: &actionExpr{
 																							pos: position{line: 822, col: 16, offset: 26695},
-																							run: (*parser).callonShortcutParagraph217,
+																							run: (*parser).callonShortcutParagraph251,
 																							expr: &seqExpr{
 																								pos: position{line: 822, col: 16, offset: 26695},
 																								exprs: []interface{}{
@@ -40908,10 +41072,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 824, col: 8, offset: 26786},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93182},
-																							run: (*parser).callonShortcutParagraph223,
+																							pos: position{line: 2946, col: 10, offset: 93249},
+																							run: (*parser).callonShortcutParagraph257,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93182},
+																								pos:        position{line: 2946, col: 10, offset: 93249},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40920,28 +41084,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93580},
+																						pos: position{line: 2968, col: 8, offset: 93647},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93353},
-																								run: (*parser).callonShortcutParagraph226,
+																								pos: position{line: 2955, col: 12, offset: 93420},
+																								run: (*parser).callonShortcutParagraph260,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93354},
+																									pos: position{line: 2955, col: 13, offset: 93421},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93354},
+																											pos:        position{line: 2955, col: 13, offset: 93421},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93361},
+																											pos:        position{line: 2955, col: 20, offset: 93428},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93370},
+																											pos:        position{line: 2955, col: 29, offset: 93437},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40950,9 +41114,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93530},
+																								pos: position{line: 2965, col: 8, offset: 93597},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93531,
+																									line: 2965, col: 9, offset: 93598,
 																								},
 																							},
 																						},
@@ -40962,7 +41126,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 829, col: 5, offset: 26930},
-																			run: (*parser).callonShortcutParagraph233,
+																			run: (*parser).callonShortcutParagraph267,
 																			expr: &seqExpr{
 																				pos: position{line: 829, col: 5, offset: 26930},
 																				exprs: []interface{}{
@@ -40971,7 +41135,7 @@ var g = &grammar{
 																						label: "delimiter",
 																						expr: &actionExpr{
 																							pos: position{line: 829, col: 16, offset: 26941},
-																							run: (*parser).callonShortcutParagraph236,
+																							run: (*parser).callonShortcutParagraph270,
 																							expr: &seqExpr{
 																								pos: position{line: 829, col: 16, offset: 26941},
 																								exprs: []interface{}{
@@ -40997,10 +41161,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 831, col: 8, offset: 27032},
 																						expr: &actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93182},
-																							run: (*parser).callonShortcutParagraph242,
+																							pos: position{line: 2946, col: 10, offset: 93249},
+																							run: (*parser).callonShortcutParagraph276,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93182},
+																								pos:        position{line: 2946, col: 10, offset: 93249},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -41009,28 +41173,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2966, col: 8, offset: 93580},
+																						pos: position{line: 2968, col: 8, offset: 93647},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2953, col: 12, offset: 93353},
-																								run: (*parser).callonShortcutParagraph245,
+																								pos: position{line: 2955, col: 12, offset: 93420},
+																								run: (*parser).callonShortcutParagraph279,
 																								expr: &choiceExpr{
-																									pos: position{line: 2953, col: 13, offset: 93354},
+																									pos: position{line: 2955, col: 13, offset: 93421},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 13, offset: 93354},
+																											pos:        position{line: 2955, col: 13, offset: 93421},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 20, offset: 93361},
+																											pos:        position{line: 2955, col: 20, offset: 93428},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2953, col: 29, offset: 93370},
+																											pos:        position{line: 2955, col: 29, offset: 93437},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -41039,9 +41203,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2963, col: 8, offset: 93530},
+																								pos: position{line: 2965, col: 8, offset: 93597},
 																								expr: &anyMatcher{
-																									line: 2963, col: 9, offset: 93531,
+																									line: 2965, col: 9, offset: 93598,
 																								},
 																							},
 																						},
@@ -41057,7 +41221,7 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1793, col: 9, offset: 58330},
+												pos: position{line: 1795, col: 9, offset: 58397},
 												expr: &seqExpr{
 													pos: position{line: 1567, col: 27, offset: 50967},
 													exprs: []interface{}{
@@ -41070,10 +41234,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1567, col: 31, offset: 50971},
 															expr: &actionExpr{
-																pos: position{line: 2944, col: 10, offset: 93182},
-																run: (*parser).callonShortcutParagraph256,
+																pos: position{line: 2946, col: 10, offset: 93249},
+																run: (*parser).callonShortcutParagraph290,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2944, col: 10, offset: 93182},
+																	pos:        position{line: 2946, col: 10, offset: 93249},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -41082,25 +41246,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93353},
-															run: (*parser).callonShortcutParagraph258,
+															pos: position{line: 2955, col: 12, offset: 93420},
+															run: (*parser).callonShortcutParagraph292,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93354},
+																pos: position{line: 2955, col: 13, offset: 93421},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93354},
+																		pos:        position{line: 2955, col: 13, offset: 93421},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93361},
+																		pos:        position{line: 2955, col: 20, offset: 93428},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93370},
+																		pos:        position{line: 2955, col: 29, offset: 93437},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -41112,42 +41276,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1794, col: 9, offset: 58362},
+												pos:   position{line: 1796, col: 9, offset: 58429},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1794, col: 15, offset: 58368},
+													pos: position{line: 1796, col: 15, offset: 58435},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2538, col: 22, offset: 81742},
-															run: (*parser).callonShortcutParagraph265,
+															pos: position{line: 2540, col: 22, offset: 81809},
+															run: (*parser).callonShortcutParagraph299,
 															expr: &seqExpr{
-																pos: position{line: 2538, col: 22, offset: 81742},
+																pos: position{line: 2540, col: 22, offset: 81809},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2543, col: 31, offset: 81992},
+																		pos:        position{line: 2545, col: 31, offset: 82059},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2543, col: 36, offset: 81997},
+																		pos: position{line: 2545, col: 36, offset: 82064},
 																		expr: &litMatcher{
-																			pos:        position{line: 2543, col: 37, offset: 81998},
+																			pos:        position{line: 2545, col: 37, offset: 82065},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2538, col: 49, offset: 81769},
+																		pos:   position{line: 2540, col: 49, offset: 81836},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2890, col: 13, offset: 91708},
-																			run: (*parser).callonShortcutParagraph271,
+																			pos: position{line: 2892, col: 13, offset: 91775},
+																			run: (*parser).callonShortcutParagraph305,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2890, col: 13, offset: 91708},
+																				pos: position{line: 2892, col: 13, offset: 91775},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2890, col: 13, offset: 91708},
+																					pos:        position{line: 2892, col: 13, offset: 91775},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41157,28 +41321,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93580},
+																		pos: position{line: 2968, col: 8, offset: 93647},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
-																				run: (*parser).callonShortcutParagraph275,
+																				pos: position{line: 2955, col: 12, offset: 93420},
+																				run: (*parser).callonShortcutParagraph309,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41187,9 +41351,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93530},
+																				pos: position{line: 2965, col: 8, offset: 93597},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93531,
+																					line: 2965, col: 9, offset: 93598,
 																				},
 																			},
 																		},
@@ -41198,21 +41362,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1816, col: 5, offset: 58968},
-															run: (*parser).callonShortcutParagraph282,
+															pos: position{line: 1818, col: 5, offset: 59035},
+															run: (*parser).callonShortcutParagraph316,
 															expr: &seqExpr{
-																pos: position{line: 1816, col: 5, offset: 58968},
+																pos: position{line: 1818, col: 5, offset: 59035},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1816, col: 5, offset: 58968},
+																		pos:   position{line: 1818, col: 5, offset: 59035},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2894, col: 14, offset: 91775},
-																			run: (*parser).callonShortcutParagraph285,
+																			pos: position{line: 2896, col: 14, offset: 91842},
+																			run: (*parser).callonShortcutParagraph319,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2894, col: 14, offset: 91775},
+																				pos: position{line: 2896, col: 14, offset: 91842},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2894, col: 14, offset: 91775},
+																					pos:        position{line: 2896, col: 14, offset: 91842},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41222,32 +41386,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1817, col: 5, offset: 58992},
-																		run: (*parser).callonShortcutParagraph288,
+																		pos: position{line: 1819, col: 5, offset: 59059},
+																		run: (*parser).callonShortcutParagraph322,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93580},
+																		pos: position{line: 2968, col: 8, offset: 93647},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
-																				run: (*parser).callonShortcutParagraph290,
+																				pos: position{line: 2955, col: 12, offset: 93420},
+																				run: (*parser).callonShortcutParagraph324,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41256,9 +41420,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93530},
+																				pos: position{line: 2965, col: 8, offset: 93597},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93531,
+																					line: 2965, col: 9, offset: 93598,
 																				},
 																			},
 																		},
@@ -41280,18 +41444,18 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1801, col: 1, offset: 58572},
+			pos:  position{line: 1803, col: 1, offset: 58639},
 			expr: &actionExpr{
-				pos: position{line: 1802, col: 5, offset: 58590},
+				pos: position{line: 1804, col: 5, offset: 58657},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1802, col: 5, offset: 58590},
+					pos: position{line: 1804, col: 5, offset: 58657},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1802, col: 5, offset: 58590},
+							pos:   position{line: 1804, col: 5, offset: 58657},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1802, col: 11, offset: 58596},
+								pos: position{line: 1804, col: 11, offset: 58663},
 								expr: &actionExpr{
 									pos: position{line: 1757, col: 5, offset: 57102},
 									run: (*parser).callonParagraph5,
@@ -41364,12 +41528,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1770, col: 13, offset: 57482},
 																expr: &actionExpr{
-																	pos: position{line: 2948, col: 11, offset: 93243},
+																	pos: position{line: 2950, col: 11, offset: 93310},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2948, col: 11, offset: 93243},
+																		pos: position{line: 2950, col: 11, offset: 93310},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2948, col: 11, offset: 93243},
+																			pos:        position{line: 2950, col: 11, offset: 93310},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41388,24 +41552,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1803, col: 5, offset: 58619},
+							pos:   position{line: 1805, col: 5, offset: 58686},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1816, col: 5, offset: 58968},
+								pos: position{line: 1818, col: 5, offset: 59035},
 								run: (*parser).callonParagraph26,
 								expr: &seqExpr{
-									pos: position{line: 1816, col: 5, offset: 58968},
+									pos: position{line: 1818, col: 5, offset: 59035},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1816, col: 5, offset: 58968},
+											pos:   position{line: 1818, col: 5, offset: 59035},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2894, col: 14, offset: 91775},
+												pos: position{line: 2896, col: 14, offset: 91842},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2894, col: 14, offset: 91775},
+													pos: position{line: 2896, col: 14, offset: 91842},
 													expr: &charClassMatcher{
-														pos:        position{line: 2894, col: 14, offset: 91775},
+														pos:        position{line: 2896, col: 14, offset: 91842},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -41415,32 +41579,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1817, col: 5, offset: 58992},
+											pos: position{line: 1819, col: 5, offset: 59059},
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2966, col: 8, offset: 93580},
+											pos: position{line: 2968, col: 8, offset: 93647},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2953, col: 12, offset: 93353},
+													pos: position{line: 2955, col: 12, offset: 93420},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2953, col: 13, offset: 93354},
+														pos: position{line: 2955, col: 13, offset: 93421},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2953, col: 13, offset: 93354},
+																pos:        position{line: 2955, col: 13, offset: 93421},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2953, col: 20, offset: 93361},
+																pos:        position{line: 2955, col: 20, offset: 93428},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2953, col: 29, offset: 93370},
+																pos:        position{line: 2955, col: 29, offset: 93437},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -41449,9 +41613,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2963, col: 8, offset: 93530},
+													pos: position{line: 2965, col: 8, offset: 93597},
 													expr: &anyMatcher{
-														line: 2963, col: 9, offset: 93531,
+														line: 2965, col: 9, offset: 93598,
 													},
 												},
 											},
@@ -41461,24 +41625,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1804, col: 5, offset: 58653},
+							pos:   position{line: 1806, col: 5, offset: 58720},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1804, col: 16, offset: 58664},
+								pos: position{line: 1806, col: 16, offset: 58731},
 								expr: &actionExpr{
-									pos: position{line: 1805, col: 9, offset: 58674},
+									pos: position{line: 1807, col: 9, offset: 58741},
 									run: (*parser).callonParagraph43,
 									expr: &seqExpr{
-										pos: position{line: 1805, col: 9, offset: 58674},
+										pos: position{line: 1807, col: 9, offset: 58741},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2961, col: 11, offset: 93516},
+												pos: position{line: 2963, col: 11, offset: 93583},
 												expr: &anyMatcher{
-													line: 2961, col: 13, offset: 93518,
+													line: 2963, col: 13, offset: 93585,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1806, col: 9, offset: 58689},
+												pos: position{line: 1808, col: 9, offset: 58756},
 												expr: &actionExpr{
 													pos: position{line: 702, col: 14, offset: 22579},
 													run: (*parser).callonParagraph48,
@@ -41486,18 +41650,18 @@ var g = &grammar{
 														pos: position{line: 702, col: 14, offset: 22579},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2961, col: 11, offset: 93516},
+																pos: position{line: 2963, col: 11, offset: 93583},
 																expr: &anyMatcher{
-																	line: 2961, col: 13, offset: 93518,
+																	line: 2963, col: 13, offset: 93585,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 702, col: 21, offset: 22586},
 																expr: &actionExpr{
-																	pos: position{line: 2944, col: 10, offset: 93182},
+																	pos: position{line: 2946, col: 10, offset: 93249},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2944, col: 10, offset: 93182},
+																		pos:        position{line: 2946, col: 10, offset: 93249},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -41506,28 +41670,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2966, col: 8, offset: 93580},
+																pos: position{line: 2968, col: 8, offset: 93647},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2953, col: 12, offset: 93353},
+																		pos: position{line: 2955, col: 12, offset: 93420},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2953, col: 13, offset: 93354},
+																			pos: position{line: 2955, col: 13, offset: 93421},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 13, offset: 93354},
+																					pos:        position{line: 2955, col: 13, offset: 93421},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 20, offset: 93361},
+																					pos:        position{line: 2955, col: 20, offset: 93428},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2953, col: 29, offset: 93370},
+																					pos:        position{line: 2955, col: 29, offset: 93437},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -41536,9 +41700,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2963, col: 8, offset: 93530},
+																		pos: position{line: 2965, col: 8, offset: 93597},
 																		expr: &anyMatcher{
-																			line: 2963, col: 9, offset: 93531,
+																			line: 2965, col: 9, offset: 93598,
 																		},
 																	},
 																},
@@ -41548,49 +41712,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1807, col: 9, offset: 58708},
+												pos: position{line: 1809, col: 9, offset: 58775},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1807, col: 10, offset: 58709},
+													pos:  position{line: 1809, col: 10, offset: 58776},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1808, col: 9, offset: 58733},
+												pos:   position{line: 1810, col: 9, offset: 58800},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1808, col: 15, offset: 58739},
+													pos: position{line: 1810, col: 15, offset: 58806},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2538, col: 22, offset: 81742},
+															pos: position{line: 2540, col: 22, offset: 81809},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 2538, col: 22, offset: 81742},
+																pos: position{line: 2540, col: 22, offset: 81809},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2543, col: 31, offset: 81992},
+																		pos:        position{line: 2545, col: 31, offset: 82059},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2543, col: 36, offset: 81997},
+																		pos: position{line: 2545, col: 36, offset: 82064},
 																		expr: &litMatcher{
-																			pos:        position{line: 2543, col: 37, offset: 81998},
+																			pos:        position{line: 2545, col: 37, offset: 82065},
 																			val:        "/",
 																			ignoreCase: false,
 																			want:       "\"/\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2538, col: 49, offset: 81769},
+																		pos:   position{line: 2540, col: 49, offset: 81836},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2890, col: 13, offset: 91708},
+																			pos: position{line: 2892, col: 13, offset: 91775},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2890, col: 13, offset: 91708},
+																				pos: position{line: 2892, col: 13, offset: 91775},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2890, col: 13, offset: 91708},
+																					pos:        position{line: 2892, col: 13, offset: 91775},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41600,28 +41764,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93580},
+																		pos: position{line: 2968, col: 8, offset: 93647},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41630,9 +41794,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93530},
+																				pos: position{line: 2965, col: 8, offset: 93597},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93531,
+																					line: 2965, col: 9, offset: 93598,
 																				},
 																			},
 																		},
@@ -41641,21 +41805,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1816, col: 5, offset: 58968},
+															pos: position{line: 1818, col: 5, offset: 59035},
 															run: (*parser).callonParagraph84,
 															expr: &seqExpr{
-																pos: position{line: 1816, col: 5, offset: 58968},
+																pos: position{line: 1818, col: 5, offset: 59035},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1816, col: 5, offset: 58968},
+																		pos:   position{line: 1818, col: 5, offset: 59035},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2894, col: 14, offset: 91775},
+																			pos: position{line: 2896, col: 14, offset: 91842},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2894, col: 14, offset: 91775},
+																				pos: position{line: 2896, col: 14, offset: 91842},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2894, col: 14, offset: 91775},
+																					pos:        position{line: 2896, col: 14, offset: 91842},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41665,32 +41829,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1817, col: 5, offset: 58992},
+																		pos: position{line: 1819, col: 5, offset: 59059},
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2966, col: 8, offset: 93580},
+																		pos: position{line: 2968, col: 8, offset: 93647},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41699,9 +41863,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2963, col: 8, offset: 93530},
+																				pos: position{line: 2965, col: 8, offset: 93597},
 																				expr: &anyMatcher{
-																					line: 2963, col: 9, offset: 93531,
+																					line: 2965, col: 9, offset: 93598,
 																				},
 																			},
 																		},
@@ -41723,16 +41887,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1827, col: 1, offset: 59478},
+			pos:  position{line: 1829, col: 1, offset: 59545},
 			expr: &choiceExpr{
-				pos: position{line: 1827, col: 15, offset: 59492},
+				pos: position{line: 1829, col: 15, offset: 59559},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1827, col: 15, offset: 59492},
+						pos:  position{line: 1829, col: 15, offset: 59559},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1827, col: 35, offset: 59512},
+						pos:  position{line: 1829, col: 35, offset: 59579},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -41740,65 +41904,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1829, col: 1, offset: 59533},
+			pos:  position{line: 1831, col: 1, offset: 59600},
 			expr: &actionExpr{
-				pos: position{line: 1830, col: 5, offset: 59558},
+				pos: position{line: 1832, col: 5, offset: 59625},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1830, col: 5, offset: 59558},
+					pos: position{line: 1832, col: 5, offset: 59625},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1830, col: 5, offset: 59558},
+							pos:   position{line: 1832, col: 5, offset: 59625},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1830, col: 16, offset: 59569},
+								pos: position{line: 1832, col: 16, offset: 59636},
 								expr: &actionExpr{
-									pos: position{line: 1830, col: 17, offset: 59570},
+									pos: position{line: 1832, col: 17, offset: 59637},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1830, col: 17, offset: 59570},
+										pos:  position{line: 1832, col: 17, offset: 59637},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1833, col: 5, offset: 59638},
+							pos: position{line: 1835, col: 5, offset: 59705},
 							expr: &litMatcher{
-								pos:        position{line: 1833, col: 7, offset: 59640},
+								pos:        position{line: 1835, col: 7, offset: 59707},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1834, col: 5, offset: 59649},
+							pos:   position{line: 1836, col: 5, offset: 59716},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1835, col: 9, offset: 59667},
+								pos: position{line: 1837, col: 9, offset: 59734},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1835, col: 9, offset: 59667},
+										pos:  position{line: 1837, col: 9, offset: 59734},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1836, col: 11, offset: 59694},
+										pos:  position{line: 1838, col: 11, offset: 59761},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1837, col: 11, offset: 59722},
+										pos:  position{line: 1839, col: 11, offset: 59789},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1838, col: 11, offset: 59753},
+										pos:  position{line: 1840, col: 11, offset: 59820},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1839, col: 11, offset: 59781},
+										pos:  position{line: 1841, col: 11, offset: 59848},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1840, col: 11, offset: 59812},
+										pos:  position{line: 1842, col: 11, offset: 59879},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -41810,36 +41974,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1845, col: 1, offset: 59932},
+			pos:  position{line: 1847, col: 1, offset: 59999},
 			expr: &actionExpr{
-				pos: position{line: 1846, col: 5, offset: 59974},
+				pos: position{line: 1848, col: 5, offset: 60041},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1846, col: 5, offset: 59974},
+					pos: position{line: 1848, col: 5, offset: 60041},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1846, col: 5, offset: 59974},
+							pos:   position{line: 1848, col: 5, offset: 60041},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1846, col: 16, offset: 59985},
+								pos: position{line: 1848, col: 16, offset: 60052},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1846, col: 17, offset: 59986},
+									pos:  position{line: 1848, col: 17, offset: 60053},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1847, col: 5, offset: 60011},
+							pos:   position{line: 1849, col: 5, offset: 60078},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1847, col: 14, offset: 60020},
+								pos: position{line: 1849, col: 14, offset: 60087},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1847, col: 14, offset: 60020},
+										pos:  position{line: 1849, col: 14, offset: 60087},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1847, col: 33, offset: 60039},
+										pos:  position{line: 1849, col: 33, offset: 60106},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -41851,32 +42015,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1855, col: 1, offset: 60270},
+			pos:  position{line: 1857, col: 1, offset: 60337},
 			expr: &choiceExpr{
-				pos: position{line: 1856, col: 5, offset: 60295},
+				pos: position{line: 1858, col: 5, offset: 60362},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1856, col: 5, offset: 60295},
+						pos:  position{line: 1858, col: 5, offset: 60362},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1857, col: 7, offset: 60322},
+						pos:  position{line: 1859, col: 7, offset: 60389},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1858, col: 7, offset: 60350},
+						pos:  position{line: 1860, col: 7, offset: 60417},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1859, col: 7, offset: 60382},
+						pos:  position{line: 1861, col: 7, offset: 60449},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1860, col: 7, offset: 60410},
+						pos:  position{line: 1862, col: 7, offset: 60477},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1861, col: 7, offset: 60431},
+						pos:  position{line: 1863, col: 7, offset: 60498},
 						name: "SuperscriptText",
 					},
 				},
@@ -41884,24 +42048,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1863, col: 1, offset: 60449},
+			pos:  position{line: 1865, col: 1, offset: 60516},
 			expr: &choiceExpr{
-				pos: position{line: 1864, col: 5, offset: 60474},
+				pos: position{line: 1866, col: 5, offset: 60541},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1864, col: 5, offset: 60474},
+						pos:  position{line: 1866, col: 5, offset: 60541},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1865, col: 7, offset: 60500},
+						pos:  position{line: 1867, col: 7, offset: 60567},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1866, col: 7, offset: 60528},
+						pos:  position{line: 1868, col: 7, offset: 60595},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1867, col: 7, offset: 60559},
+						pos:  position{line: 1869, col: 7, offset: 60626},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -41909,26 +42073,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1881, col: 1, offset: 60913},
+			pos:  position{line: 1883, col: 1, offset: 60980},
 			expr: &choiceExpr{
-				pos: position{line: 1882, col: 5, offset: 60939},
+				pos: position{line: 1884, col: 5, offset: 61006},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2843, col: 5, offset: 90424},
+						pos: position{line: 2845, col: 5, offset: 90491},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2843, col: 5, offset: 90424},
+							pos: position{line: 2845, col: 5, offset: 90491},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2843, col: 5, offset: 90424},
+									pos:   position{line: 2845, col: 5, offset: 90491},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2843, col: 11, offset: 90430},
+										pos: position{line: 2845, col: 11, offset: 90497},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2843, col: 11, offset: 90430},
+											pos: position{line: 2845, col: 11, offset: 90497},
 											expr: &charClassMatcher{
-												pos:        position{line: 2843, col: 11, offset: 90430},
+												pos:        position{line: 2845, col: 11, offset: 90497},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41938,36 +42102,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2846, col: 5, offset: 90488},
+									pos: position{line: 2848, col: 5, offset: 90555},
 									expr: &seqExpr{
-										pos: position{line: 2847, col: 9, offset: 90499},
+										pos: position{line: 2849, col: 9, offset: 90566},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2847, col: 9, offset: 90499},
+												pos:        position{line: 2849, col: 9, offset: 90566},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2848, col: 9, offset: 90548},
+												pos: position{line: 2850, col: 9, offset: 90615},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2852, col: 5, offset: 90628},
+									pos: position{line: 2854, col: 5, offset: 90695},
 									expr: &seqExpr{
-										pos: position{line: 2853, col: 9, offset: 90639},
+										pos: position{line: 2855, col: 9, offset: 90706},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2853, col: 9, offset: 90639},
+												pos:        position{line: 2855, col: 9, offset: 90706},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2853, col: 13, offset: 90643},
+												pos:        position{line: 2855, col: 13, offset: 90710},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41980,12 +42144,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2948, col: 11, offset: 93243},
+						pos: position{line: 2950, col: 11, offset: 93310},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2948, col: 11, offset: 93243},
+							pos: position{line: 2950, col: 11, offset: 93310},
 							expr: &charClassMatcher{
-								pos:        position{line: 2948, col: 11, offset: 93243},
+								pos:        position{line: 2950, col: 11, offset: 93310},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -41994,25 +42158,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1884, col: 7, offset: 61002},
+						pos:  position{line: 1886, col: 7, offset: 61069},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2556, col: 5, offset: 82487},
+						pos: position{line: 2558, col: 5, offset: 82554},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2556, col: 5, offset: 82487},
+							pos: position{line: 2558, col: 5, offset: 82554},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2556, col: 5, offset: 82487},
+									pos:        position{line: 2558, col: 5, offset: 82554},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2556, col: 10, offset: 82492},
+									pos: position{line: 2558, col: 10, offset: 82559},
 									expr: &charClassMatcher{
-										pos:        position{line: 2556, col: 11, offset: 82493},
+										pos:        position{line: 2558, col: 11, offset: 82560},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -42023,29 +42187,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2562, col: 5, offset: 82685},
+						pos: position{line: 2564, col: 5, offset: 82752},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2562, col: 5, offset: 82685},
+							pos: position{line: 2564, col: 5, offset: 82752},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2562, col: 5, offset: 82685},
+									pos: position{line: 2564, col: 5, offset: 82752},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2565, col: 5, offset: 82756},
+									pos: position{line: 2567, col: 5, offset: 82823},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2569, col: 5, offset: 82881},
+									pos:        position{line: 2571, col: 5, offset: 82948},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2569, col: 9, offset: 82885},
+									pos: position{line: 2571, col: 9, offset: 82952},
 									expr: &charClassMatcher{
-										pos:        position{line: 2569, col: 10, offset: 82886},
+										pos:        position{line: 2571, col: 10, offset: 82953},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -42056,27 +42220,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2861, col: 5, offset: 90836},
+						pos: position{line: 2863, col: 5, offset: 90903},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2862, col: 9, offset: 90846},
+							pos: position{line: 2864, col: 9, offset: 90913},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2862, col: 10, offset: 90847},
+									pos:        position{line: 2864, col: 10, offset: 90914},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2864, col: 13, offset: 90944},
+									pos: position{line: 2866, col: 13, offset: 91011},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2864, col: 13, offset: 90944},
+											pos: position{line: 2866, col: 13, offset: 91011},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2867, col: 13, offset: 91044},
+											pos:        position{line: 2869, col: 13, offset: 91111},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -42084,20 +42248,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2867, col: 19, offset: 91050},
+									pos:        position{line: 2869, col: 19, offset: 91117},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2870, col: 13, offset: 91088},
+									pos: position{line: 2872, col: 13, offset: 91155},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2870, col: 13, offset: 91088},
+											pos: position{line: 2872, col: 13, offset: 91155},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2873, col: 14, offset: 91181},
+											pos:        position{line: 2875, col: 14, offset: 91248},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -42106,18 +42270,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2875, col: 12, offset: 91225},
+									pos: position{line: 2877, col: 12, offset: 91292},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2875, col: 12, offset: 91225},
+											pos:        position{line: 2877, col: 12, offset: 91292},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2875, col: 16, offset: 91229},
+											pos: position{line: 2877, col: 16, offset: 91296},
 											expr: &litMatcher{
-												pos:        position{line: 2875, col: 17, offset: 91230},
+												pos:        position{line: 2877, col: 17, offset: 91297},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -42475,31 +42639,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2957, col: 18, offset: 93453},
+						pos: position{line: 2959, col: 18, offset: 93520},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2957, col: 18, offset: 93453},
+							pos: position{line: 2959, col: 18, offset: 93520},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2953, col: 12, offset: 93353},
+									pos: position{line: 2955, col: 12, offset: 93420},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2953, col: 13, offset: 93354},
+										pos: position{line: 2955, col: 13, offset: 93421},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2953, col: 13, offset: 93354},
+												pos:        position{line: 2955, col: 13, offset: 93421},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 20, offset: 93361},
+												pos:        position{line: 2955, col: 20, offset: 93428},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 29, offset: 93370},
+												pos:        position{line: 2955, col: 29, offset: 93437},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -42508,27 +42672,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2957, col: 26, offset: 93461},
+									pos: position{line: 2959, col: 26, offset: 93528},
 									expr: &actionExpr{
-										pos: position{line: 2953, col: 12, offset: 93353},
+										pos: position{line: 2955, col: 12, offset: 93420},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2953, col: 13, offset: 93354},
+											pos: position{line: 2955, col: 13, offset: 93421},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2953, col: 13, offset: 93354},
+													pos:        position{line: 2955, col: 13, offset: 93421},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2953, col: 20, offset: 93361},
+													pos:        position{line: 2955, col: 20, offset: 93428},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2953, col: 29, offset: 93370},
+													pos:        position{line: 2955, col: 29, offset: 93437},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -42541,31 +42705,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1889, col: 7, offset: 61169},
+						pos:  position{line: 1891, col: 7, offset: 61236},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1890, col: 7, offset: 61216},
+						pos:  position{line: 1892, col: 7, offset: 61283},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2525, col: 5, offset: 81288},
+						pos: position{line: 2527, col: 5, offset: 81355},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2525, col: 5, offset: 81288},
+							pos: position{line: 2527, col: 5, offset: 81355},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2525, col: 5, offset: 81288},
+									pos: position{line: 2527, col: 5, offset: 81355},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2528, col: 5, offset: 81364},
+									pos:   position{line: 2530, col: 5, offset: 81431},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2529, col: 9, offset: 81382},
+										pos: position{line: 2531, col: 9, offset: 81449},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2529, col: 10, offset: 81383},
+											pos:        position{line: 2531, col: 10, offset: 81450},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -42620,10 +42784,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2883, col: 12, offset: 91490},
+						pos: position{line: 2885, col: 12, offset: 91557},
 						run: (*parser).callonQuotedTextElement145,
 						expr: &charClassMatcher{
-							pos:        position{line: 2883, col: 12, offset: 91490},
+							pos:        position{line: 2885, col: 12, offset: 91557},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -42635,29 +42799,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1908, col: 1, offset: 61686},
+			pos:  position{line: 1910, col: 1, offset: 61753},
 			expr: &actionExpr{
-				pos: position{line: 1909, col: 5, offset: 61714},
+				pos: position{line: 1911, col: 5, offset: 61781},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1909, col: 5, offset: 61714},
+					pos: position{line: 1911, col: 5, offset: 61781},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1904, col: 38, offset: 61639},
+							pos:        position{line: 1906, col: 38, offset: 61706},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1910, col: 5, offset: 61753},
+							pos:   position{line: 1912, col: 5, offset: 61820},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1910, col: 15, offset: 61763},
+								pos:  position{line: 1912, col: 15, offset: 61830},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1906, col: 36, offset: 61680},
+							pos:        position{line: 1908, col: 36, offset: 61747},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -42668,24 +42832,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1915, col: 1, offset: 61923},
+			pos:  position{line: 1917, col: 1, offset: 61990},
 			expr: &actionExpr{
-				pos: position{line: 1916, col: 5, offset: 61958},
+				pos: position{line: 1918, col: 5, offset: 62025},
 				run: (*parser).callonDoubleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1916, col: 5, offset: 61958},
+					pos: position{line: 1918, col: 5, offset: 62025},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 1916, col: 5, offset: 61958},
+							pos: position{line: 1918, col: 5, offset: 62025},
 							run: (*parser).callonDoubleQuoteBoldTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 1920, col: 5, offset: 62078},
+							pos:   position{line: 1922, col: 5, offset: 62145},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1920, col: 14, offset: 62087},
+								pos: position{line: 1922, col: 14, offset: 62154},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1920, col: 15, offset: 62088},
+									pos:  position{line: 1922, col: 15, offset: 62155},
 									name: "DoubleQuoteBoldTextElement",
 								},
 							},
@@ -42696,33 +42860,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1924, col: 1, offset: 62155},
+			pos:  position{line: 1926, col: 1, offset: 62222},
 			expr: &actionExpr{
-				pos: position{line: 1925, col: 5, offset: 62190},
+				pos: position{line: 1927, col: 5, offset: 62257},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1925, col: 5, offset: 62190},
+					pos: position{line: 1927, col: 5, offset: 62257},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2961, col: 11, offset: 93516},
+							pos: position{line: 2963, col: 11, offset: 93583},
 							expr: &anyMatcher{
-								line: 2961, col: 13, offset: 93518,
+								line: 2963, col: 13, offset: 93585,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1926, col: 5, offset: 62201},
+							pos: position{line: 1928, col: 5, offset: 62268},
 							expr: &litMatcher{
-								pos:        position{line: 1906, col: 36, offset: 61680},
+								pos:        position{line: 1908, col: 36, offset: 61747},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1927, col: 5, offset: 62238},
+							pos:   position{line: 1929, col: 5, offset: 62305},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1927, col: 14, offset: 62247},
+								pos:  position{line: 1929, col: 14, offset: 62314},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42732,29 +42896,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1952, col: 1, offset: 62927},
+			pos:  position{line: 1954, col: 1, offset: 62994},
 			expr: &actionExpr{
-				pos: position{line: 1953, col: 5, offset: 62955},
+				pos: position{line: 1955, col: 5, offset: 63022},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1953, col: 5, offset: 62955},
+					pos: position{line: 1955, col: 5, offset: 63022},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1936, col: 5, offset: 62481},
+							pos:        position{line: 1938, col: 5, offset: 62548},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1937, col: 5, offset: 62490},
+							pos: position{line: 1939, col: 5, offset: 62557},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1941, col: 5, offset: 62608},
+							pos: position{line: 1943, col: 5, offset: 62675},
 							expr: &notExpr{
-								pos: position{line: 1941, col: 7, offset: 62610},
+								pos: position{line: 1943, col: 7, offset: 62677},
 								expr: &litMatcher{
-									pos:        position{line: 1941, col: 8, offset: 62611},
+									pos:        position{line: 1943, col: 8, offset: 62678},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42762,38 +42926,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1954, col: 5, offset: 62993},
+							pos:   position{line: 1956, col: 5, offset: 63060},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1954, col: 15, offset: 63003},
+								pos:  position{line: 1956, col: 15, offset: 63070},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1944, col: 5, offset: 62731},
+							pos:        position{line: 1946, col: 5, offset: 62798},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1945, col: 5, offset: 62740},
+							pos: position{line: 1947, col: 5, offset: 62807},
 							expr: &litMatcher{
-								pos:        position{line: 1945, col: 6, offset: 62741},
+								pos:        position{line: 1947, col: 6, offset: 62808},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1946, col: 5, offset: 62804},
+							pos: position{line: 1948, col: 5, offset: 62871},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1950, col: 5, offset: 62913},
+							pos: position{line: 1952, col: 5, offset: 62980},
 							expr: &notExpr{
-								pos: position{line: 1950, col: 7, offset: 62915},
+								pos: position{line: 1952, col: 7, offset: 62982},
 								expr: &charClassMatcher{
-									pos:        position{line: 2834, col: 13, offset: 90277},
+									pos:        position{line: 2836, col: 13, offset: 90344},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42807,20 +42971,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1959, col: 1, offset: 63163},
+			pos:  position{line: 1961, col: 1, offset: 63230},
 			expr: &actionExpr{
-				pos: position{line: 1960, col: 5, offset: 63200},
+				pos: position{line: 1962, col: 5, offset: 63267},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1960, col: 5, offset: 63200},
+					pos: position{line: 1962, col: 5, offset: 63267},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1960, col: 5, offset: 63200},
+							pos: position{line: 1962, col: 5, offset: 63267},
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 10, offset: 93182},
+								pos: position{line: 2946, col: 10, offset: 93249},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2944, col: 10, offset: 93182},
+									pos:        position{line: 2946, col: 10, offset: 93249},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42829,18 +42993,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1961, col: 5, offset: 63239},
+							pos:   position{line: 1963, col: 5, offset: 63306},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1961, col: 14, offset: 63248},
+								pos: position{line: 1963, col: 14, offset: 63315},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1961, col: 15, offset: 63249},
+									pos:  position{line: 1963, col: 15, offset: 63316},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1962, col: 5, offset: 63283},
+							pos: position{line: 1964, col: 5, offset: 63350},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -42849,49 +43013,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1968, col: 1, offset: 63424},
+			pos:  position{line: 1970, col: 1, offset: 63491},
 			expr: &actionExpr{
-				pos: position{line: 1969, col: 5, offset: 63459},
+				pos: position{line: 1971, col: 5, offset: 63526},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1969, col: 5, offset: 63459},
+					pos: position{line: 1971, col: 5, offset: 63526},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2961, col: 11, offset: 93516},
+							pos: position{line: 2963, col: 11, offset: 93583},
 							expr: &anyMatcher{
-								line: 2961, col: 13, offset: 93518,
+								line: 2963, col: 13, offset: 93585,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1970, col: 5, offset: 63487},
+							pos: position{line: 1972, col: 5, offset: 63554},
 							expr: &seqExpr{
-								pos: position{line: 1944, col: 5, offset: 62731},
+								pos: position{line: 1946, col: 5, offset: 62798},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1944, col: 5, offset: 62731},
+										pos:        position{line: 1946, col: 5, offset: 62798},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1945, col: 5, offset: 62740},
+										pos: position{line: 1947, col: 5, offset: 62807},
 										expr: &litMatcher{
-											pos:        position{line: 1945, col: 6, offset: 62741},
+											pos:        position{line: 1947, col: 6, offset: 62808},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1946, col: 5, offset: 62804},
+										pos: position{line: 1948, col: 5, offset: 62871},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1950, col: 5, offset: 62913},
+										pos: position{line: 1952, col: 5, offset: 62980},
 										expr: &notExpr{
-											pos: position{line: 1950, col: 7, offset: 62915},
+											pos: position{line: 1952, col: 7, offset: 62982},
 											expr: &charClassMatcher{
-												pos:        position{line: 2834, col: 13, offset: 90277},
+												pos:        position{line: 2836, col: 13, offset: 90344},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42903,10 +43067,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1971, col: 5, offset: 63524},
+							pos:   position{line: 1973, col: 5, offset: 63591},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1971, col: 14, offset: 63533},
+								pos:  position{line: 1973, col: 14, offset: 63600},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42916,35 +43080,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1976, col: 1, offset: 63621},
+			pos:  position{line: 1978, col: 1, offset: 63688},
 			expr: &choiceExpr{
-				pos: position{line: 1978, col: 5, offset: 63682},
+				pos: position{line: 1980, col: 5, offset: 63749},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1978, col: 5, offset: 63682},
+						pos: position{line: 1980, col: 5, offset: 63749},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1978, col: 5, offset: 63682},
+							pos: position{line: 1980, col: 5, offset: 63749},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1978, col: 5, offset: 63682},
+									pos:   position{line: 1980, col: 5, offset: 63749},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1877, col: 25, offset: 60859},
+										pos: position{line: 1879, col: 25, offset: 60926},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1877, col: 25, offset: 60859},
+											pos: position{line: 1879, col: 25, offset: 60926},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1877, col: 25, offset: 60859},
+													pos:        position{line: 1879, col: 25, offset: 60926},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1877, col: 30, offset: 60864},
+													pos: position{line: 1879, col: 30, offset: 60931},
 													expr: &litMatcher{
-														pos:        position{line: 1877, col: 30, offset: 60864},
+														pos:        position{line: 1879, col: 30, offset: 60931},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42955,21 +43119,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1978, col: 40, offset: 63717},
+									pos:        position{line: 1980, col: 40, offset: 63784},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1978, col: 45, offset: 63722},
+									pos:   position{line: 1980, col: 45, offset: 63789},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1978, col: 55, offset: 63732},
+										pos:  position{line: 1980, col: 55, offset: 63799},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1978, col: 84, offset: 63761},
+									pos:        position{line: 1980, col: 84, offset: 63828},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -42978,21 +43142,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1982, col: 7, offset: 63925},
+						pos: position{line: 1984, col: 7, offset: 63992},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1982, col: 7, offset: 63925},
+							pos: position{line: 1984, col: 7, offset: 63992},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1982, col: 7, offset: 63925},
+									pos:   position{line: 1984, col: 7, offset: 63992},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1873, col: 25, offset: 60786},
+										pos: position{line: 1875, col: 25, offset: 60853},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1873, col: 25, offset: 60786},
+											pos: position{line: 1875, col: 25, offset: 60853},
 											expr: &litMatcher{
-												pos:        position{line: 1873, col: 25, offset: 60786},
+												pos:        position{line: 1875, col: 25, offset: 60853},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43001,21 +43165,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1982, col: 42, offset: 63960},
+									pos:        position{line: 1984, col: 42, offset: 64027},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1982, col: 47, offset: 63965},
+									pos:   position{line: 1984, col: 47, offset: 64032},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1982, col: 57, offset: 63975},
+										pos:  position{line: 1984, col: 57, offset: 64042},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1982, col: 86, offset: 64004},
+									pos:        position{line: 1984, col: 86, offset: 64071},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -43024,21 +43188,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1987, col: 7, offset: 64206},
+						pos: position{line: 1989, col: 7, offset: 64273},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1987, col: 7, offset: 64206},
+							pos: position{line: 1989, col: 7, offset: 64273},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1987, col: 7, offset: 64206},
+									pos:   position{line: 1989, col: 7, offset: 64273},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1873, col: 25, offset: 60786},
+										pos: position{line: 1875, col: 25, offset: 60853},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1873, col: 25, offset: 60786},
+											pos: position{line: 1875, col: 25, offset: 60853},
 											expr: &litMatcher{
-												pos:        position{line: 1873, col: 25, offset: 60786},
+												pos:        position{line: 1875, col: 25, offset: 60853},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43047,21 +43211,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1987, col: 42, offset: 64241},
+									pos:        position{line: 1989, col: 42, offset: 64308},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1987, col: 46, offset: 64245},
+									pos:   position{line: 1989, col: 46, offset: 64312},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1987, col: 56, offset: 64255},
+										pos:  position{line: 1989, col: 56, offset: 64322},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1987, col: 85, offset: 64284},
+									pos:        position{line: 1989, col: 85, offset: 64351},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -43074,29 +43238,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 2004, col: 1, offset: 64764},
+			pos:  position{line: 2006, col: 1, offset: 64831},
 			expr: &actionExpr{
-				pos: position{line: 2005, col: 5, offset: 64794},
+				pos: position{line: 2007, col: 5, offset: 64861},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2005, col: 5, offset: 64794},
+					pos: position{line: 2007, col: 5, offset: 64861},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2000, col: 40, offset: 64715},
+							pos:        position{line: 2002, col: 40, offset: 64782},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2006, col: 5, offset: 64835},
+							pos:   position{line: 2008, col: 5, offset: 64902},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2006, col: 15, offset: 64845},
+								pos:  position{line: 2008, col: 15, offset: 64912},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2002, col: 38, offset: 64758},
+							pos:        position{line: 2004, col: 38, offset: 64825},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -43107,24 +43271,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 2011, col: 1, offset: 65010},
+			pos:  position{line: 2013, col: 1, offset: 65077},
 			expr: &actionExpr{
-				pos: position{line: 2012, col: 5, offset: 65047},
+				pos: position{line: 2014, col: 5, offset: 65114},
 				run: (*parser).callonDoubleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2012, col: 5, offset: 65047},
+					pos: position{line: 2014, col: 5, offset: 65114},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2012, col: 5, offset: 65047},
+							pos: position{line: 2014, col: 5, offset: 65114},
 							run: (*parser).callonDoubleQuoteItalicTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2016, col: 5, offset: 65167},
+							pos:   position{line: 2018, col: 5, offset: 65234},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2016, col: 14, offset: 65176},
+								pos: position{line: 2018, col: 14, offset: 65243},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2016, col: 15, offset: 65177},
+									pos:  position{line: 2018, col: 15, offset: 65244},
 									name: "DoubleQuoteItalicTextElement",
 								},
 							},
@@ -43135,33 +43299,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 2020, col: 1, offset: 65246},
+			pos:  position{line: 2022, col: 1, offset: 65313},
 			expr: &actionExpr{
-				pos: position{line: 2021, col: 5, offset: 65283},
+				pos: position{line: 2023, col: 5, offset: 65350},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2021, col: 5, offset: 65283},
+					pos: position{line: 2023, col: 5, offset: 65350},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2961, col: 11, offset: 93516},
+							pos: position{line: 2963, col: 11, offset: 93583},
 							expr: &anyMatcher{
-								line: 2961, col: 13, offset: 93518,
+								line: 2963, col: 13, offset: 93585,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2022, col: 5, offset: 65294},
+							pos: position{line: 2024, col: 5, offset: 65361},
 							expr: &litMatcher{
-								pos:        position{line: 2002, col: 38, offset: 64758},
+								pos:        position{line: 2004, col: 38, offset: 64825},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2023, col: 5, offset: 65333},
+							pos:   position{line: 2025, col: 5, offset: 65400},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2023, col: 14, offset: 65342},
+								pos:  position{line: 2025, col: 14, offset: 65409},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43171,29 +43335,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2049, col: 1, offset: 66026},
+			pos:  position{line: 2051, col: 1, offset: 66093},
 			expr: &actionExpr{
-				pos: position{line: 2050, col: 5, offset: 66056},
+				pos: position{line: 2052, col: 5, offset: 66123},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2050, col: 5, offset: 66056},
+					pos: position{line: 2052, col: 5, offset: 66123},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2032, col: 5, offset: 65584},
+							pos:        position{line: 2034, col: 5, offset: 65651},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2033, col: 5, offset: 65593},
+							pos: position{line: 2035, col: 5, offset: 65660},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2037, col: 5, offset: 65713},
+							pos: position{line: 2039, col: 5, offset: 65780},
 							expr: &notExpr{
-								pos: position{line: 2037, col: 7, offset: 65715},
+								pos: position{line: 2039, col: 7, offset: 65782},
 								expr: &litMatcher{
-									pos:        position{line: 2037, col: 8, offset: 65716},
+									pos:        position{line: 2039, col: 8, offset: 65783},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43201,38 +43365,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2051, col: 5, offset: 66096},
+							pos:   position{line: 2053, col: 5, offset: 66163},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2051, col: 15, offset: 66106},
+								pos:  position{line: 2053, col: 15, offset: 66173},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2041, col: 5, offset: 65826},
+							pos:        position{line: 2043, col: 5, offset: 65893},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2042, col: 5, offset: 65835},
+							pos: position{line: 2044, col: 5, offset: 65902},
 							expr: &litMatcher{
-								pos:        position{line: 2042, col: 6, offset: 65836},
+								pos:        position{line: 2044, col: 6, offset: 65903},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2043, col: 5, offset: 65901},
+							pos: position{line: 2045, col: 5, offset: 65968},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2047, col: 5, offset: 66012},
+							pos: position{line: 2049, col: 5, offset: 66079},
 							expr: &notExpr{
-								pos: position{line: 2047, col: 7, offset: 66014},
+								pos: position{line: 2049, col: 7, offset: 66081},
 								expr: &charClassMatcher{
-									pos:        position{line: 2834, col: 13, offset: 90277},
+									pos:        position{line: 2836, col: 13, offset: 90344},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43246,20 +43410,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2056, col: 1, offset: 66273},
+			pos:  position{line: 2058, col: 1, offset: 66340},
 			expr: &actionExpr{
-				pos: position{line: 2057, col: 5, offset: 66311},
+				pos: position{line: 2059, col: 5, offset: 66378},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2057, col: 5, offset: 66311},
+					pos: position{line: 2059, col: 5, offset: 66378},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2057, col: 5, offset: 66311},
+							pos: position{line: 2059, col: 5, offset: 66378},
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 10, offset: 93182},
+								pos: position{line: 2946, col: 10, offset: 93249},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2944, col: 10, offset: 93182},
+									pos:        position{line: 2946, col: 10, offset: 93249},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43268,18 +43432,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2058, col: 5, offset: 66350},
+							pos:   position{line: 2060, col: 5, offset: 66417},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2058, col: 14, offset: 66359},
+								pos: position{line: 2060, col: 14, offset: 66426},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2058, col: 15, offset: 66360},
+									pos:  position{line: 2060, col: 15, offset: 66427},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2059, col: 5, offset: 66395},
+							pos: position{line: 2061, col: 5, offset: 66462},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -43288,49 +43452,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2065, col: 1, offset: 66536},
+			pos:  position{line: 2067, col: 1, offset: 66603},
 			expr: &actionExpr{
-				pos: position{line: 2066, col: 5, offset: 66573},
+				pos: position{line: 2068, col: 5, offset: 66640},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2066, col: 5, offset: 66573},
+					pos: position{line: 2068, col: 5, offset: 66640},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2961, col: 11, offset: 93516},
+							pos: position{line: 2963, col: 11, offset: 93583},
 							expr: &anyMatcher{
-								line: 2961, col: 13, offset: 93518,
+								line: 2963, col: 13, offset: 93585,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2067, col: 5, offset: 66584},
+							pos: position{line: 2069, col: 5, offset: 66651},
 							expr: &seqExpr{
-								pos: position{line: 2041, col: 5, offset: 65826},
+								pos: position{line: 2043, col: 5, offset: 65893},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2041, col: 5, offset: 65826},
+										pos:        position{line: 2043, col: 5, offset: 65893},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2042, col: 5, offset: 65835},
+										pos: position{line: 2044, col: 5, offset: 65902},
 										expr: &litMatcher{
-											pos:        position{line: 2042, col: 6, offset: 65836},
+											pos:        position{line: 2044, col: 6, offset: 65903},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2043, col: 5, offset: 65901},
+										pos: position{line: 2045, col: 5, offset: 65968},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2047, col: 5, offset: 66012},
+										pos: position{line: 2049, col: 5, offset: 66079},
 										expr: &notExpr{
-											pos: position{line: 2047, col: 7, offset: 66014},
+											pos: position{line: 2049, col: 7, offset: 66081},
 											expr: &charClassMatcher{
-												pos:        position{line: 2834, col: 13, offset: 90277},
+												pos:        position{line: 2836, col: 13, offset: 90344},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43342,10 +43506,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2068, col: 5, offset: 66623},
+							pos:   position{line: 2070, col: 5, offset: 66690},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2068, col: 14, offset: 66632},
+								pos:  position{line: 2070, col: 14, offset: 66699},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43355,35 +43519,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2073, col: 1, offset: 66720},
+			pos:  position{line: 2075, col: 1, offset: 66787},
 			expr: &choiceExpr{
-				pos: position{line: 2075, col: 5, offset: 66785},
+				pos: position{line: 2077, col: 5, offset: 66852},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2075, col: 5, offset: 66785},
+						pos: position{line: 2077, col: 5, offset: 66852},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2075, col: 5, offset: 66785},
+							pos: position{line: 2077, col: 5, offset: 66852},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2075, col: 5, offset: 66785},
+									pos:   position{line: 2077, col: 5, offset: 66852},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1877, col: 25, offset: 60859},
+										pos: position{line: 1879, col: 25, offset: 60926},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1877, col: 25, offset: 60859},
+											pos: position{line: 1879, col: 25, offset: 60926},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1877, col: 25, offset: 60859},
+													pos:        position{line: 1879, col: 25, offset: 60926},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1877, col: 30, offset: 60864},
+													pos: position{line: 1879, col: 30, offset: 60931},
 													expr: &litMatcher{
-														pos:        position{line: 1877, col: 30, offset: 60864},
+														pos:        position{line: 1879, col: 30, offset: 60931},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43394,21 +43558,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2075, col: 40, offset: 66820},
+									pos:        position{line: 2077, col: 40, offset: 66887},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2075, col: 45, offset: 66825},
+									pos:   position{line: 2077, col: 45, offset: 66892},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2075, col: 55, offset: 66835},
+										pos:  position{line: 2077, col: 55, offset: 66902},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2075, col: 86, offset: 66866},
+									pos:        position{line: 2077, col: 86, offset: 66933},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -43417,21 +43581,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2079, col: 7, offset: 67031},
+						pos: position{line: 2081, col: 7, offset: 67098},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2079, col: 7, offset: 67031},
+							pos: position{line: 2081, col: 7, offset: 67098},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2079, col: 7, offset: 67031},
+									pos:   position{line: 2081, col: 7, offset: 67098},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1873, col: 25, offset: 60786},
+										pos: position{line: 1875, col: 25, offset: 60853},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1873, col: 25, offset: 60786},
+											pos: position{line: 1875, col: 25, offset: 60853},
 											expr: &litMatcher{
-												pos:        position{line: 1873, col: 25, offset: 60786},
+												pos:        position{line: 1875, col: 25, offset: 60853},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43440,21 +43604,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2079, col: 42, offset: 67066},
+									pos:        position{line: 2081, col: 42, offset: 67133},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2079, col: 47, offset: 67071},
+									pos:   position{line: 2081, col: 47, offset: 67138},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2079, col: 57, offset: 67081},
+										pos:  position{line: 2081, col: 57, offset: 67148},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2079, col: 88, offset: 67112},
+									pos:        position{line: 2081, col: 88, offset: 67179},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43463,21 +43627,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2084, col: 7, offset: 67353},
+						pos: position{line: 2086, col: 7, offset: 67420},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2084, col: 7, offset: 67353},
+							pos: position{line: 2086, col: 7, offset: 67420},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2084, col: 7, offset: 67353},
+									pos:   position{line: 2086, col: 7, offset: 67420},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1873, col: 25, offset: 60786},
+										pos: position{line: 1875, col: 25, offset: 60853},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1873, col: 25, offset: 60786},
+											pos: position{line: 1875, col: 25, offset: 60853},
 											expr: &litMatcher{
-												pos:        position{line: 1873, col: 25, offset: 60786},
+												pos:        position{line: 1875, col: 25, offset: 60853},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43486,21 +43650,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2084, col: 42, offset: 67388},
+									pos:        position{line: 2086, col: 42, offset: 67455},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2084, col: 46, offset: 67392},
+									pos:   position{line: 2086, col: 46, offset: 67459},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2084, col: 56, offset: 67402},
+										pos:  position{line: 2086, col: 56, offset: 67469},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2084, col: 87, offset: 67433},
+									pos:        position{line: 2086, col: 87, offset: 67500},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43513,29 +43677,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2101, col: 1, offset: 67997},
+			pos:  position{line: 2103, col: 1, offset: 68064},
 			expr: &actionExpr{
-				pos: position{line: 2102, col: 5, offset: 68030},
+				pos: position{line: 2104, col: 5, offset: 68097},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2102, col: 5, offset: 68030},
+					pos: position{line: 2104, col: 5, offset: 68097},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2097, col: 43, offset: 67945},
+							pos:        position{line: 2099, col: 43, offset: 68012},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2103, col: 5, offset: 68074},
+							pos:   position{line: 2105, col: 5, offset: 68141},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2103, col: 15, offset: 68084},
+								pos:  position{line: 2105, col: 15, offset: 68151},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2099, col: 41, offset: 67991},
+							pos:        position{line: 2101, col: 41, offset: 68058},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -43546,24 +43710,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2108, col: 1, offset: 68259},
+			pos:  position{line: 2110, col: 1, offset: 68326},
 			expr: &actionExpr{
-				pos: position{line: 2109, col: 5, offset: 68332},
+				pos: position{line: 2111, col: 5, offset: 68399},
 				run: (*parser).callonDoubleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2109, col: 5, offset: 68332},
+					pos: position{line: 2111, col: 5, offset: 68399},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2109, col: 5, offset: 68332},
+							pos: position{line: 2111, col: 5, offset: 68399},
 							run: (*parser).callonDoubleQuoteMonospaceTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2113, col: 5, offset: 68452},
+							pos:   position{line: 2115, col: 5, offset: 68519},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2113, col: 14, offset: 68461},
+								pos: position{line: 2115, col: 14, offset: 68528},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2113, col: 15, offset: 68462},
+									pos:  position{line: 2115, col: 15, offset: 68529},
 									name: "DoubleQuoteMonospaceTextElement",
 								},
 							},
@@ -43574,33 +43738,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2117, col: 1, offset: 68534},
+			pos:  position{line: 2119, col: 1, offset: 68601},
 			expr: &actionExpr{
-				pos: position{line: 2118, col: 5, offset: 68574},
+				pos: position{line: 2120, col: 5, offset: 68641},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2118, col: 5, offset: 68574},
+					pos: position{line: 2120, col: 5, offset: 68641},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2961, col: 11, offset: 93516},
+							pos: position{line: 2963, col: 11, offset: 93583},
 							expr: &anyMatcher{
-								line: 2961, col: 13, offset: 93518,
+								line: 2963, col: 13, offset: 93585,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2119, col: 5, offset: 68585},
+							pos: position{line: 2121, col: 5, offset: 68652},
 							expr: &litMatcher{
-								pos:        position{line: 2099, col: 41, offset: 67991},
+								pos:        position{line: 2101, col: 41, offset: 68058},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2120, col: 5, offset: 68627},
+							pos:   position{line: 2122, col: 5, offset: 68694},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2120, col: 14, offset: 68636},
+								pos:  position{line: 2122, col: 14, offset: 68703},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43610,33 +43774,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2138, col: 1, offset: 69178},
+			pos:  position{line: 2140, col: 1, offset: 69245},
 			expr: &seqExpr{
-				pos: position{line: 2139, col: 5, offset: 69223},
+				pos: position{line: 2141, col: 5, offset: 69290},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2139, col: 5, offset: 69223},
+						pos: position{line: 2141, col: 5, offset: 69290},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2139, col: 6, offset: 69224},
+							pos:  position{line: 2141, col: 6, offset: 69291},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2140, col: 5, offset: 69243},
+						pos:        position{line: 2142, col: 5, offset: 69310},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2141, col: 5, offset: 69251},
+						pos: position{line: 2143, col: 5, offset: 69318},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2145, col: 5, offset: 69365},
+						pos: position{line: 2147, col: 5, offset: 69432},
 						expr: &notExpr{
-							pos: position{line: 2145, col: 7, offset: 69367},
+							pos: position{line: 2147, col: 7, offset: 69434},
 							expr: &charClassMatcher{
-								pos:        position{line: 2834, col: 13, offset: 90277},
+								pos:        position{line: 2836, col: 13, offset: 90344},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -43649,29 +43813,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2148, col: 1, offset: 69384},
+			pos:  position{line: 2150, col: 1, offset: 69451},
 			expr: &actionExpr{
-				pos: position{line: 2149, col: 5, offset: 69417},
+				pos: position{line: 2151, col: 5, offset: 69484},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2149, col: 5, offset: 69417},
+					pos: position{line: 2151, col: 5, offset: 69484},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2131, col: 5, offset: 68980},
+							pos:        position{line: 2133, col: 5, offset: 69047},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2132, col: 5, offset: 68989},
+							pos: position{line: 2134, col: 5, offset: 69056},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2136, col: 5, offset: 69112},
+							pos: position{line: 2138, col: 5, offset: 69179},
 							expr: &notExpr{
-								pos: position{line: 2136, col: 7, offset: 69114},
+								pos: position{line: 2138, col: 7, offset: 69181},
 								expr: &litMatcher{
-									pos:        position{line: 2136, col: 8, offset: 69115},
+									pos:        position{line: 2138, col: 8, offset: 69182},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43679,15 +43843,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2150, col: 5, offset: 69461},
+							pos:   position{line: 2152, col: 5, offset: 69528},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2150, col: 15, offset: 69471},
+								pos:  position{line: 2152, col: 15, offset: 69538},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2151, col: 5, offset: 69510},
+							pos:  position{line: 2153, col: 5, offset: 69577},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -43696,20 +43860,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2155, col: 1, offset: 69647},
+			pos:  position{line: 2157, col: 1, offset: 69714},
 			expr: &actionExpr{
-				pos: position{line: 2156, col: 5, offset: 69688},
+				pos: position{line: 2158, col: 5, offset: 69755},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2156, col: 5, offset: 69688},
+					pos: position{line: 2158, col: 5, offset: 69755},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2156, col: 5, offset: 69688},
+							pos: position{line: 2158, col: 5, offset: 69755},
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 10, offset: 93182},
+								pos: position{line: 2946, col: 10, offset: 93249},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2944, col: 10, offset: 93182},
+									pos:        position{line: 2946, col: 10, offset: 93249},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43718,18 +43882,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2157, col: 5, offset: 69727},
+							pos:   position{line: 2159, col: 5, offset: 69794},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2157, col: 14, offset: 69736},
+								pos: position{line: 2159, col: 14, offset: 69803},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2157, col: 15, offset: 69737},
+									pos:  position{line: 2159, col: 15, offset: 69804},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2158, col: 5, offset: 69775},
+							pos: position{line: 2160, col: 5, offset: 69842},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -43738,31 +43902,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2164, col: 1, offset: 69916},
+			pos:  position{line: 2166, col: 1, offset: 69983},
 			expr: &actionExpr{
-				pos: position{line: 2165, col: 5, offset: 69956},
+				pos: position{line: 2167, col: 5, offset: 70023},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2165, col: 5, offset: 69956},
+					pos: position{line: 2167, col: 5, offset: 70023},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2961, col: 11, offset: 93516},
+							pos: position{line: 2963, col: 11, offset: 93583},
 							expr: &anyMatcher{
-								line: 2961, col: 13, offset: 93518,
+								line: 2963, col: 13, offset: 93585,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2166, col: 5, offset: 69967},
+							pos: position{line: 2168, col: 5, offset: 70034},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2166, col: 6, offset: 69968},
+								pos:  position{line: 2168, col: 6, offset: 70035},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2167, col: 5, offset: 70009},
+							pos:   position{line: 2169, col: 5, offset: 70076},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2167, col: 14, offset: 70018},
+								pos:  position{line: 2169, col: 14, offset: 70085},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43772,35 +43936,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2172, col: 1, offset: 70106},
+			pos:  position{line: 2174, col: 1, offset: 70173},
 			expr: &choiceExpr{
-				pos: position{line: 2174, col: 5, offset: 70177},
+				pos: position{line: 2176, col: 5, offset: 70244},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2174, col: 5, offset: 70177},
+						pos: position{line: 2176, col: 5, offset: 70244},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2174, col: 5, offset: 70177},
+							pos: position{line: 2176, col: 5, offset: 70244},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2174, col: 5, offset: 70177},
+									pos:   position{line: 2176, col: 5, offset: 70244},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1877, col: 25, offset: 60859},
+										pos: position{line: 1879, col: 25, offset: 60926},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1877, col: 25, offset: 60859},
+											pos: position{line: 1879, col: 25, offset: 60926},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1877, col: 25, offset: 60859},
+													pos:        position{line: 1879, col: 25, offset: 60926},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1877, col: 30, offset: 60864},
+													pos: position{line: 1879, col: 30, offset: 60931},
 													expr: &litMatcher{
-														pos:        position{line: 1877, col: 30, offset: 60864},
+														pos:        position{line: 1879, col: 30, offset: 60931},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43811,21 +43975,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2174, col: 40, offset: 70212},
+									pos:        position{line: 2176, col: 40, offset: 70279},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2174, col: 45, offset: 70217},
+									pos:   position{line: 2176, col: 45, offset: 70284},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2174, col: 55, offset: 70227},
+										pos:  position{line: 2176, col: 55, offset: 70294},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2174, col: 89, offset: 70261},
+									pos:        position{line: 2176, col: 89, offset: 70328},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -43834,21 +43998,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2178, col: 7, offset: 70430},
+						pos: position{line: 2180, col: 7, offset: 70497},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2178, col: 7, offset: 70430},
+							pos: position{line: 2180, col: 7, offset: 70497},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2178, col: 7, offset: 70430},
+									pos:   position{line: 2180, col: 7, offset: 70497},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1873, col: 25, offset: 60786},
+										pos: position{line: 1875, col: 25, offset: 60853},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1873, col: 25, offset: 60786},
+											pos: position{line: 1875, col: 25, offset: 60853},
 											expr: &litMatcher{
-												pos:        position{line: 1873, col: 25, offset: 60786},
+												pos:        position{line: 1875, col: 25, offset: 60853},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43857,21 +44021,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2178, col: 42, offset: 70465},
+									pos:        position{line: 2180, col: 42, offset: 70532},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2178, col: 47, offset: 70470},
+									pos:   position{line: 2180, col: 47, offset: 70537},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2178, col: 57, offset: 70480},
+										pos:  position{line: 2180, col: 57, offset: 70547},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2178, col: 91, offset: 70514},
+									pos:        position{line: 2180, col: 91, offset: 70581},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43880,21 +44044,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2183, col: 7, offset: 70720},
+						pos: position{line: 2185, col: 7, offset: 70787},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2183, col: 7, offset: 70720},
+							pos: position{line: 2185, col: 7, offset: 70787},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2183, col: 7, offset: 70720},
+									pos:   position{line: 2185, col: 7, offset: 70787},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1873, col: 25, offset: 60786},
+										pos: position{line: 1875, col: 25, offset: 60853},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1873, col: 25, offset: 60786},
+											pos: position{line: 1875, col: 25, offset: 60853},
 											expr: &litMatcher{
-												pos:        position{line: 1873, col: 25, offset: 60786},
+												pos:        position{line: 1875, col: 25, offset: 60853},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43903,21 +44067,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2183, col: 42, offset: 70755},
+									pos:        position{line: 2185, col: 42, offset: 70822},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2183, col: 46, offset: 70759},
+									pos:   position{line: 2185, col: 46, offset: 70826},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2183, col: 56, offset: 70769},
+										pos:  position{line: 2185, col: 56, offset: 70836},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2183, col: 90, offset: 70803},
+									pos:        position{line: 2185, col: 90, offset: 70870},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43930,29 +44094,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2200, col: 1, offset: 71288},
+			pos:  position{line: 2202, col: 1, offset: 71355},
 			expr: &actionExpr{
-				pos: position{line: 2201, col: 5, offset: 71318},
+				pos: position{line: 2203, col: 5, offset: 71385},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2201, col: 5, offset: 71318},
+					pos: position{line: 2203, col: 5, offset: 71385},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2196, col: 40, offset: 71239},
+							pos:        position{line: 2198, col: 40, offset: 71306},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2202, col: 5, offset: 71359},
+							pos:   position{line: 2204, col: 5, offset: 71426},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2202, col: 15, offset: 71369},
+								pos:  position{line: 2204, col: 15, offset: 71436},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2198, col: 38, offset: 71282},
+							pos:        position{line: 2200, col: 38, offset: 71349},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -43963,24 +44127,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2207, col: 1, offset: 71535},
+			pos:  position{line: 2209, col: 1, offset: 71602},
 			expr: &actionExpr{
-				pos: position{line: 2208, col: 5, offset: 71572},
+				pos: position{line: 2210, col: 5, offset: 71639},
 				run: (*parser).callonDoubleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2208, col: 5, offset: 71572},
+					pos: position{line: 2210, col: 5, offset: 71639},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2208, col: 5, offset: 71572},
+							pos: position{line: 2210, col: 5, offset: 71639},
 							run: (*parser).callonDoubleQuoteMarkedTextElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2212, col: 5, offset: 71692},
+							pos:   position{line: 2214, col: 5, offset: 71759},
 							label: "elements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2212, col: 14, offset: 71701},
+								pos: position{line: 2214, col: 14, offset: 71768},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2212, col: 15, offset: 71702},
+									pos:  position{line: 2214, col: 15, offset: 71769},
 									name: "DoubleQuoteMarkedTextElement",
 								},
 							},
@@ -43991,33 +44155,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2216, col: 1, offset: 71771},
+			pos:  position{line: 2218, col: 1, offset: 71838},
 			expr: &actionExpr{
-				pos: position{line: 2217, col: 5, offset: 71840},
+				pos: position{line: 2219, col: 5, offset: 71907},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2217, col: 5, offset: 71840},
+					pos: position{line: 2219, col: 5, offset: 71907},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2961, col: 11, offset: 93516},
+							pos: position{line: 2963, col: 11, offset: 93583},
 							expr: &anyMatcher{
-								line: 2961, col: 13, offset: 93518,
+								line: 2963, col: 13, offset: 93585,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2218, col: 5, offset: 71851},
+							pos: position{line: 2220, col: 5, offset: 71918},
 							expr: &litMatcher{
-								pos:        position{line: 2198, col: 38, offset: 71282},
+								pos:        position{line: 2200, col: 38, offset: 71349},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2219, col: 5, offset: 71890},
+							pos:   position{line: 2221, col: 5, offset: 71957},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2219, col: 14, offset: 71899},
+								pos:  position{line: 2221, col: 14, offset: 71966},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44027,29 +44191,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2244, col: 1, offset: 72581},
+			pos:  position{line: 2246, col: 1, offset: 72648},
 			expr: &actionExpr{
-				pos: position{line: 2245, col: 5, offset: 72611},
+				pos: position{line: 2247, col: 5, offset: 72678},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2245, col: 5, offset: 72611},
+					pos: position{line: 2247, col: 5, offset: 72678},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2228, col: 5, offset: 72147},
+							pos:        position{line: 2230, col: 5, offset: 72214},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2229, col: 5, offset: 72156},
+							pos: position{line: 2231, col: 5, offset: 72223},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2233, col: 5, offset: 72276},
+							pos: position{line: 2235, col: 5, offset: 72343},
 							expr: &notExpr{
-								pos: position{line: 2233, col: 7, offset: 72278},
+								pos: position{line: 2235, col: 7, offset: 72345},
 								expr: &litMatcher{
-									pos:        position{line: 2233, col: 8, offset: 72279},
+									pos:        position{line: 2235, col: 8, offset: 72346},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -44057,38 +44221,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2246, col: 5, offset: 72651},
+							pos:   position{line: 2248, col: 5, offset: 72718},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2246, col: 15, offset: 72661},
+								pos:  position{line: 2248, col: 15, offset: 72728},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2236, col: 5, offset: 72384},
+							pos:        position{line: 2238, col: 5, offset: 72451},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2237, col: 5, offset: 72392},
+							pos: position{line: 2239, col: 5, offset: 72459},
 							expr: &litMatcher{
-								pos:        position{line: 2237, col: 6, offset: 72393},
+								pos:        position{line: 2239, col: 6, offset: 72460},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2238, col: 5, offset: 72456},
+							pos: position{line: 2240, col: 5, offset: 72523},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2242, col: 5, offset: 72567},
+							pos: position{line: 2244, col: 5, offset: 72634},
 							expr: &notExpr{
-								pos: position{line: 2242, col: 7, offset: 72569},
+								pos: position{line: 2244, col: 7, offset: 72636},
 								expr: &charClassMatcher{
-									pos:        position{line: 2834, col: 13, offset: 90277},
+									pos:        position{line: 2836, col: 13, offset: 90344},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44102,20 +44266,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2251, col: 1, offset: 72828},
+			pos:  position{line: 2253, col: 1, offset: 72895},
 			expr: &actionExpr{
-				pos: position{line: 2252, col: 5, offset: 72866},
+				pos: position{line: 2254, col: 5, offset: 72933},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2252, col: 5, offset: 72866},
+					pos: position{line: 2254, col: 5, offset: 72933},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2252, col: 5, offset: 72866},
+							pos: position{line: 2254, col: 5, offset: 72933},
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 10, offset: 93182},
+								pos: position{line: 2946, col: 10, offset: 93249},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2944, col: 10, offset: 93182},
+									pos:        position{line: 2946, col: 10, offset: 93249},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44124,18 +44288,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2253, col: 5, offset: 72905},
+							pos:   position{line: 2255, col: 5, offset: 72972},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2253, col: 14, offset: 72914},
+								pos: position{line: 2255, col: 14, offset: 72981},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2253, col: 15, offset: 72915},
+									pos:  position{line: 2255, col: 15, offset: 72982},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2254, col: 5, offset: 72951},
+							pos: position{line: 2256, col: 5, offset: 73018},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -44144,49 +44308,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2260, col: 1, offset: 73092},
+			pos:  position{line: 2262, col: 1, offset: 73159},
 			expr: &actionExpr{
-				pos: position{line: 2261, col: 5, offset: 73129},
+				pos: position{line: 2263, col: 5, offset: 73196},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2261, col: 5, offset: 73129},
+					pos: position{line: 2263, col: 5, offset: 73196},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2961, col: 11, offset: 93516},
+							pos: position{line: 2963, col: 11, offset: 93583},
 							expr: &anyMatcher{
-								line: 2961, col: 13, offset: 93518,
+								line: 2963, col: 13, offset: 93585,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2262, col: 5, offset: 73140},
+							pos: position{line: 2264, col: 5, offset: 73207},
 							expr: &seqExpr{
-								pos: position{line: 2236, col: 5, offset: 72384},
+								pos: position{line: 2238, col: 5, offset: 72451},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2236, col: 5, offset: 72384},
+										pos:        position{line: 2238, col: 5, offset: 72451},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2237, col: 5, offset: 72392},
+										pos: position{line: 2239, col: 5, offset: 72459},
 										expr: &litMatcher{
-											pos:        position{line: 2237, col: 6, offset: 72393},
+											pos:        position{line: 2239, col: 6, offset: 72460},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2238, col: 5, offset: 72456},
+										pos: position{line: 2240, col: 5, offset: 72523},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2242, col: 5, offset: 72567},
+										pos: position{line: 2244, col: 5, offset: 72634},
 										expr: &notExpr{
-											pos: position{line: 2242, col: 7, offset: 72569},
+											pos: position{line: 2244, col: 7, offset: 72636},
 											expr: &charClassMatcher{
-												pos:        position{line: 2834, col: 13, offset: 90277},
+												pos:        position{line: 2836, col: 13, offset: 90344},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44198,10 +44362,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2263, col: 5, offset: 73179},
+							pos:   position{line: 2265, col: 5, offset: 73246},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2263, col: 14, offset: 73188},
+								pos:  position{line: 2265, col: 14, offset: 73255},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44211,35 +44375,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2268, col: 1, offset: 73276},
+			pos:  position{line: 2270, col: 1, offset: 73343},
 			expr: &choiceExpr{
-				pos: position{line: 2270, col: 5, offset: 73340},
+				pos: position{line: 2272, col: 5, offset: 73407},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2270, col: 5, offset: 73340},
+						pos: position{line: 2272, col: 5, offset: 73407},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2270, col: 5, offset: 73340},
+							pos: position{line: 2272, col: 5, offset: 73407},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2270, col: 5, offset: 73340},
+									pos:   position{line: 2272, col: 5, offset: 73407},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1877, col: 25, offset: 60859},
+										pos: position{line: 1879, col: 25, offset: 60926},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1877, col: 25, offset: 60859},
+											pos: position{line: 1879, col: 25, offset: 60926},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1877, col: 25, offset: 60859},
+													pos:        position{line: 1879, col: 25, offset: 60926},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1877, col: 30, offset: 60864},
+													pos: position{line: 1879, col: 30, offset: 60931},
 													expr: &litMatcher{
-														pos:        position{line: 1877, col: 30, offset: 60864},
+														pos:        position{line: 1879, col: 30, offset: 60931},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -44250,21 +44414,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2270, col: 40, offset: 73375},
+									pos:        position{line: 2272, col: 40, offset: 73442},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2270, col: 45, offset: 73380},
+									pos:   position{line: 2272, col: 45, offset: 73447},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2270, col: 55, offset: 73390},
+										pos:  position{line: 2272, col: 55, offset: 73457},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2270, col: 86, offset: 73421},
+									pos:        position{line: 2272, col: 86, offset: 73488},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -44273,21 +44437,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2274, col: 7, offset: 73586},
+						pos: position{line: 2276, col: 7, offset: 73653},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2274, col: 7, offset: 73586},
+							pos: position{line: 2276, col: 7, offset: 73653},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2274, col: 7, offset: 73586},
+									pos:   position{line: 2276, col: 7, offset: 73653},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1873, col: 25, offset: 60786},
+										pos: position{line: 1875, col: 25, offset: 60853},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1873, col: 25, offset: 60786},
+											pos: position{line: 1875, col: 25, offset: 60853},
 											expr: &litMatcher{
-												pos:        position{line: 1873, col: 25, offset: 60786},
+												pos:        position{line: 1875, col: 25, offset: 60853},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44296,21 +44460,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2274, col: 42, offset: 73621},
+									pos:        position{line: 2276, col: 42, offset: 73688},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2274, col: 47, offset: 73626},
+									pos:   position{line: 2276, col: 47, offset: 73693},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2274, col: 57, offset: 73636},
+										pos:  position{line: 2276, col: 57, offset: 73703},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2274, col: 88, offset: 73667},
+									pos:        position{line: 2276, col: 88, offset: 73734},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -44319,21 +44483,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2279, col: 7, offset: 73870},
+						pos: position{line: 2281, col: 7, offset: 73937},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2279, col: 7, offset: 73870},
+							pos: position{line: 2281, col: 7, offset: 73937},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2279, col: 7, offset: 73870},
+									pos:   position{line: 2281, col: 7, offset: 73937},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1873, col: 25, offset: 60786},
+										pos: position{line: 1875, col: 25, offset: 60853},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1873, col: 25, offset: 60786},
+											pos: position{line: 1875, col: 25, offset: 60853},
 											expr: &litMatcher{
-												pos:        position{line: 1873, col: 25, offset: 60786},
+												pos:        position{line: 1875, col: 25, offset: 60853},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44342,21 +44506,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2279, col: 42, offset: 73905},
+									pos:        position{line: 2281, col: 42, offset: 73972},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2279, col: 46, offset: 73909},
+									pos:   position{line: 2281, col: 46, offset: 73976},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2279, col: 56, offset: 73919},
+										pos:  position{line: 2281, col: 56, offset: 73986},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2279, col: 87, offset: 73950},
+									pos:        position{line: 2281, col: 87, offset: 74017},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -44369,29 +44533,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2286, col: 1, offset: 74217},
+			pos:  position{line: 2288, col: 1, offset: 74284},
 			expr: &actionExpr{
-				pos: position{line: 2287, col: 5, offset: 74239},
+				pos: position{line: 2289, col: 5, offset: 74306},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2287, col: 5, offset: 74239},
+					pos: position{line: 2289, col: 5, offset: 74306},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2293, col: 27, offset: 74454},
+							pos:        position{line: 2295, col: 27, offset: 74521},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2288, col: 5, offset: 74266},
+							pos:   position{line: 2290, col: 5, offset: 74333},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2288, col: 14, offset: 74275},
+								pos:  position{line: 2290, col: 14, offset: 74342},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2293, col: 27, offset: 74454},
+							pos:        position{line: 2295, col: 27, offset: 74521},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -44402,34 +44566,34 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2295, col: 1, offset: 74459},
+			pos:  position{line: 2297, col: 1, offset: 74526},
 			expr: &actionExpr{
-				pos: position{line: 2296, col: 5, offset: 74487},
+				pos: position{line: 2298, col: 5, offset: 74554},
 				run: (*parser).callonSubscriptTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2296, col: 5, offset: 74487},
+					pos: position{line: 2298, col: 5, offset: 74554},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2296, col: 5, offset: 74487},
+							pos: position{line: 2298, col: 5, offset: 74554},
 							run: (*parser).callonSubscriptTextElement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2300, col: 5, offset: 74607},
+							pos:   position{line: 2302, col: 5, offset: 74674},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2300, col: 14, offset: 74616},
+								pos: position{line: 2302, col: 14, offset: 74683},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2300, col: 14, offset: 74616},
+										pos:  position{line: 2302, col: 14, offset: 74683},
 										name: "QuotedText",
 									},
 									&actionExpr{
-										pos: position{line: 2304, col: 21, offset: 74704},
+										pos: position{line: 2306, col: 21, offset: 74771},
 										run: (*parser).callonSubscriptTextElement7,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2304, col: 21, offset: 74704},
+											pos: position{line: 2306, col: 21, offset: 74771},
 											expr: &charClassMatcher{
-												pos:        position{line: 2304, col: 21, offset: 74704},
+												pos:        position{line: 2306, col: 21, offset: 74771},
 												val:        "[^\\r\\n ~]",
 												chars:      []rune{'\r', '\n', ' ', '~'},
 												ignoreCase: false,
@@ -44446,23 +44610,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2308, col: 1, offset: 74789},
+			pos:  position{line: 2310, col: 1, offset: 74856},
 			expr: &actionExpr{
-				pos: position{line: 2310, col: 5, offset: 74856},
+				pos: position{line: 2312, col: 5, offset: 74923},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2310, col: 5, offset: 74856},
+					pos: position{line: 2312, col: 5, offset: 74923},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2310, col: 5, offset: 74856},
+							pos:   position{line: 2312, col: 5, offset: 74923},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1873, col: 25, offset: 60786},
+								pos: position{line: 1875, col: 25, offset: 60853},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1873, col: 25, offset: 60786},
+									pos: position{line: 1875, col: 25, offset: 60853},
 									expr: &litMatcher{
-										pos:        position{line: 1873, col: 25, offset: 60786},
+										pos:        position{line: 1875, col: 25, offset: 60853},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -44471,21 +44635,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2293, col: 27, offset: 74454},
+							pos:        position{line: 2295, col: 27, offset: 74521},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2312, col: 5, offset: 74924},
+							pos:   position{line: 2314, col: 5, offset: 74991},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2312, col: 14, offset: 74933},
+								pos:  position{line: 2314, col: 14, offset: 75000},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2293, col: 27, offset: 74454},
+							pos:        position{line: 2295, col: 27, offset: 74521},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -44496,29 +44660,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2320, col: 1, offset: 75196},
+			pos:  position{line: 2322, col: 1, offset: 75263},
 			expr: &actionExpr{
-				pos: position{line: 2321, col: 5, offset: 75220},
+				pos: position{line: 2323, col: 5, offset: 75287},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2321, col: 5, offset: 75220},
+					pos: position{line: 2323, col: 5, offset: 75287},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2327, col: 29, offset: 75447},
+							pos:        position{line: 2329, col: 29, offset: 75514},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2322, col: 5, offset: 75250},
+							pos:   position{line: 2324, col: 5, offset: 75317},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2322, col: 14, offset: 75259},
+								pos:  position{line: 2324, col: 14, offset: 75326},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2327, col: 29, offset: 75447},
+							pos:        position{line: 2329, col: 29, offset: 75514},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -44529,34 +44693,34 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2329, col: 1, offset: 75452},
+			pos:  position{line: 2331, col: 1, offset: 75519},
 			expr: &actionExpr{
-				pos: position{line: 2330, col: 5, offset: 75482},
+				pos: position{line: 2332, col: 5, offset: 75549},
 				run: (*parser).callonSuperscriptTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2330, col: 5, offset: 75482},
+					pos: position{line: 2332, col: 5, offset: 75549},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2330, col: 5, offset: 75482},
+							pos: position{line: 2332, col: 5, offset: 75549},
 							run: (*parser).callonSuperscriptTextElement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2334, col: 5, offset: 75602},
+							pos:   position{line: 2336, col: 5, offset: 75669},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2334, col: 14, offset: 75611},
+								pos: position{line: 2336, col: 14, offset: 75678},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2334, col: 14, offset: 75611},
+										pos:  position{line: 2336, col: 14, offset: 75678},
 										name: "QuotedText",
 									},
 									&actionExpr{
-										pos: position{line: 2338, col: 23, offset: 75703},
+										pos: position{line: 2340, col: 23, offset: 75770},
 										run: (*parser).callonSuperscriptTextElement7,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2338, col: 23, offset: 75703},
+											pos: position{line: 2340, col: 23, offset: 75770},
 											expr: &charClassMatcher{
-												pos:        position{line: 2338, col: 23, offset: 75703},
+												pos:        position{line: 2340, col: 23, offset: 75770},
 												val:        "[^\\r\\n ^]",
 												chars:      []rune{'\r', '\n', ' ', '^'},
 												ignoreCase: false,
@@ -44573,23 +44737,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2342, col: 1, offset: 75788},
+			pos:  position{line: 2344, col: 1, offset: 75855},
 			expr: &actionExpr{
-				pos: position{line: 2344, col: 5, offset: 75860},
+				pos: position{line: 2346, col: 5, offset: 75927},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2344, col: 5, offset: 75860},
+					pos: position{line: 2346, col: 5, offset: 75927},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2344, col: 5, offset: 75860},
+							pos:   position{line: 2346, col: 5, offset: 75927},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1873, col: 25, offset: 60786},
+								pos: position{line: 1875, col: 25, offset: 60853},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1873, col: 25, offset: 60786},
+									pos: position{line: 1875, col: 25, offset: 60853},
 									expr: &litMatcher{
-										pos:        position{line: 1873, col: 25, offset: 60786},
+										pos:        position{line: 1875, col: 25, offset: 60853},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -44598,21 +44762,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2327, col: 29, offset: 75447},
+							pos:        position{line: 2329, col: 29, offset: 75514},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2346, col: 5, offset: 75930},
+							pos:   position{line: 2348, col: 5, offset: 75997},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2346, col: 14, offset: 75939},
+								pos:  position{line: 2348, col: 14, offset: 76006},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2327, col: 29, offset: 75447},
+							pos:        position{line: 2329, col: 29, offset: 75514},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -44623,27 +44787,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2355, col: 1, offset: 76408},
+			pos:  position{line: 2357, col: 1, offset: 76475},
 			expr: &actionExpr{
-				pos: position{line: 2356, col: 5, offset: 76424},
+				pos: position{line: 2358, col: 5, offset: 76491},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2356, col: 5, offset: 76424},
+					pos: position{line: 2358, col: 5, offset: 76491},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2356, col: 5, offset: 76424},
+							pos: position{line: 2358, col: 5, offset: 76491},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2359, col: 5, offset: 76487},
+							pos:   position{line: 2361, col: 5, offset: 76554},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2359, col: 12, offset: 76494},
+								pos: position{line: 2361, col: 12, offset: 76561},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2359, col: 12, offset: 76494},
+									pos: position{line: 2361, col: 12, offset: 76561},
 									expr: &litMatcher{
-										pos:        position{line: 2359, col: 13, offset: 76495},
+										pos:        position{line: 2361, col: 13, offset: 76562},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -44652,16 +44816,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2363, col: 5, offset: 76603},
+							pos: position{line: 2365, col: 5, offset: 76670},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2948, col: 11, offset: 93243},
+							pos: position{line: 2950, col: 11, offset: 93310},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2948, col: 11, offset: 93243},
+								pos: position{line: 2950, col: 11, offset: 93310},
 								expr: &charClassMatcher{
-									pos:        position{line: 2948, col: 11, offset: 93243},
+									pos:        position{line: 2950, col: 11, offset: 93310},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44670,36 +44834,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2367, col: 12, offset: 76762},
+							pos:   position{line: 2369, col: 12, offset: 76829},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2367, col: 19, offset: 76769},
+								pos:  position{line: 2369, col: 19, offset: 76836},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2966, col: 8, offset: 93580},
+							pos: position{line: 2968, col: 8, offset: 93647},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2953, col: 12, offset: 93353},
+									pos: position{line: 2955, col: 12, offset: 93420},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2953, col: 13, offset: 93354},
+										pos: position{line: 2955, col: 13, offset: 93421},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2953, col: 13, offset: 93354},
+												pos:        position{line: 2955, col: 13, offset: 93421},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 20, offset: 93361},
+												pos:        position{line: 2955, col: 20, offset: 93428},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 29, offset: 93370},
+												pos:        position{line: 2955, col: 29, offset: 93437},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -44708,9 +44872,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2963, col: 8, offset: 93530},
+									pos: position{line: 2965, col: 8, offset: 93597},
 									expr: &anyMatcher{
-										line: 2963, col: 9, offset: 93531,
+										line: 2965, col: 9, offset: 93598,
 									},
 								},
 							},
@@ -44721,24 +44885,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2371, col: 1, offset: 76865},
+			pos:  position{line: 2373, col: 1, offset: 76932},
 			expr: &actionExpr{
-				pos: position{line: 2372, col: 5, offset: 76886},
+				pos: position{line: 2374, col: 5, offset: 76953},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2372, col: 5, offset: 76886},
+					pos: position{line: 2374, col: 5, offset: 76953},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2372, col: 5, offset: 76886},
+							pos: position{line: 2374, col: 5, offset: 76953},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2378, col: 5, offset: 77077},
+							pos:   position{line: 2380, col: 5, offset: 77144},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2378, col: 14, offset: 77086},
+								pos: position{line: 2380, col: 14, offset: 77153},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2378, col: 15, offset: 77087},
+									pos:  position{line: 2380, col: 15, offset: 77154},
 									name: "SectionTitleElement",
 								},
 							},
@@ -44749,38 +44913,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2382, col: 1, offset: 77168},
+			pos:  position{line: 2384, col: 1, offset: 77235},
 			expr: &actionExpr{
-				pos: position{line: 2383, col: 5, offset: 77195},
+				pos: position{line: 2385, col: 5, offset: 77262},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2383, col: 5, offset: 77195},
+					pos: position{line: 2385, col: 5, offset: 77262},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2383, col: 5, offset: 77195},
+							pos: position{line: 2385, col: 5, offset: 77262},
 							expr: &choiceExpr{
-								pos: position{line: 2966, col: 8, offset: 93580},
+								pos: position{line: 2968, col: 8, offset: 93647},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2953, col: 12, offset: 93353},
+										pos: position{line: 2955, col: 12, offset: 93420},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2953, col: 13, offset: 93354},
+											pos: position{line: 2955, col: 13, offset: 93421},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2953, col: 13, offset: 93354},
+													pos:        position{line: 2955, col: 13, offset: 93421},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2953, col: 20, offset: 93361},
+													pos:        position{line: 2955, col: 20, offset: 93428},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2953, col: 29, offset: 93370},
+													pos:        position{line: 2955, col: 29, offset: 93437},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44789,36 +44953,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2963, col: 8, offset: 93530},
+										pos: position{line: 2965, col: 8, offset: 93597},
 										expr: &anyMatcher{
-											line: 2963, col: 9, offset: 93531,
+											line: 2965, col: 9, offset: 93598,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2384, col: 5, offset: 77204},
+							pos:   position{line: 2386, col: 5, offset: 77271},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2385, col: 9, offset: 77222},
+								pos: position{line: 2387, col: 9, offset: 77289},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2843, col: 5, offset: 90424},
+										pos: position{line: 2845, col: 5, offset: 90491},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2843, col: 5, offset: 90424},
+											pos: position{line: 2845, col: 5, offset: 90491},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2843, col: 5, offset: 90424},
+													pos:   position{line: 2845, col: 5, offset: 90491},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2843, col: 11, offset: 90430},
+														pos: position{line: 2845, col: 11, offset: 90497},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2843, col: 11, offset: 90430},
+															pos: position{line: 2845, col: 11, offset: 90497},
 															expr: &charClassMatcher{
-																pos:        position{line: 2843, col: 11, offset: 90430},
+																pos:        position{line: 2845, col: 11, offset: 90497},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44828,36 +44992,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2846, col: 5, offset: 90488},
+													pos: position{line: 2848, col: 5, offset: 90555},
 													expr: &seqExpr{
-														pos: position{line: 2847, col: 9, offset: 90499},
+														pos: position{line: 2849, col: 9, offset: 90566},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2847, col: 9, offset: 90499},
+																pos:        position{line: 2849, col: 9, offset: 90566},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2848, col: 9, offset: 90548},
+																pos: position{line: 2850, col: 9, offset: 90615},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2852, col: 5, offset: 90628},
+													pos: position{line: 2854, col: 5, offset: 90695},
 													expr: &seqExpr{
-														pos: position{line: 2853, col: 9, offset: 90639},
+														pos: position{line: 2855, col: 9, offset: 90706},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2853, col: 9, offset: 90639},
+																pos:        position{line: 2855, col: 9, offset: 90706},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2853, col: 13, offset: 90643},
+																pos:        position{line: 2855, col: 13, offset: 90710},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44870,12 +45034,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2948, col: 11, offset: 93243},
+										pos: position{line: 2950, col: 11, offset: 93310},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2948, col: 11, offset: 93243},
+											pos: position{line: 2950, col: 11, offset: 93310},
 											expr: &charClassMatcher{
-												pos:        position{line: 2948, col: 11, offset: 93243},
+												pos:        position{line: 2950, col: 11, offset: 93310},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -44884,21 +45048,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2556, col: 5, offset: 82487},
+										pos: position{line: 2558, col: 5, offset: 82554},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2556, col: 5, offset: 82487},
+											pos: position{line: 2558, col: 5, offset: 82554},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2556, col: 5, offset: 82487},
+													pos:        position{line: 2558, col: 5, offset: 82554},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2556, col: 10, offset: 82492},
+													pos: position{line: 2558, col: 10, offset: 82559},
 													expr: &charClassMatcher{
-														pos:        position{line: 2556, col: 11, offset: 82493},
+														pos:        position{line: 2558, col: 11, offset: 82560},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -44909,29 +45073,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2562, col: 5, offset: 82685},
+										pos: position{line: 2564, col: 5, offset: 82752},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2562, col: 5, offset: 82685},
+											pos: position{line: 2564, col: 5, offset: 82752},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2562, col: 5, offset: 82685},
+													pos: position{line: 2564, col: 5, offset: 82752},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2565, col: 5, offset: 82756},
+													pos: position{line: 2567, col: 5, offset: 82823},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2569, col: 5, offset: 82881},
+													pos:        position{line: 2571, col: 5, offset: 82948},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2569, col: 9, offset: 82885},
+													pos: position{line: 2571, col: 9, offset: 82952},
 													expr: &charClassMatcher{
-														pos:        position{line: 2569, col: 10, offset: 82886},
+														pos:        position{line: 2571, col: 10, offset: 82953},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -44942,31 +45106,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2388, col: 11, offset: 77287},
+										pos:  position{line: 2390, col: 11, offset: 77354},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 5, offset: 90836},
+										pos: position{line: 2863, col: 5, offset: 90903},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2862, col: 9, offset: 90846},
+											pos: position{line: 2864, col: 9, offset: 90913},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2862, col: 10, offset: 90847},
+													pos:        position{line: 2864, col: 10, offset: 90914},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2864, col: 13, offset: 90944},
+													pos: position{line: 2866, col: 13, offset: 91011},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2864, col: 13, offset: 90944},
+															pos: position{line: 2866, col: 13, offset: 91011},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2867, col: 13, offset: 91044},
+															pos:        position{line: 2869, col: 13, offset: 91111},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -44974,20 +45138,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2867, col: 19, offset: 91050},
+													pos:        position{line: 2869, col: 19, offset: 91117},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2870, col: 13, offset: 91088},
+													pos: position{line: 2872, col: 13, offset: 91155},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2870, col: 13, offset: 91088},
+															pos: position{line: 2872, col: 13, offset: 91155},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2873, col: 14, offset: 91181},
+															pos:        position{line: 2875, col: 14, offset: 91248},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -44996,18 +45160,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2875, col: 12, offset: 91225},
+													pos: position{line: 2877, col: 12, offset: 91292},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2875, col: 12, offset: 91225},
+															pos:        position{line: 2877, col: 12, offset: 91292},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2875, col: 16, offset: 91229},
+															pos: position{line: 2877, col: 16, offset: 91296},
 															expr: &litMatcher{
-																pos:        position{line: 2875, col: 17, offset: 91230},
+																pos:        position{line: 2877, col: 17, offset: 91297},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45019,35 +45183,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2390, col: 11, offset: 77360},
+										pos:  position{line: 2392, col: 11, offset: 77427},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2391, col: 11, offset: 77376},
+										pos:  position{line: 2393, col: 11, offset: 77443},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2392, col: 11, offset: 77404},
+										pos:  position{line: 2394, col: 11, offset: 77471},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2525, col: 5, offset: 81288},
+										pos: position{line: 2527, col: 5, offset: 81355},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 5, offset: 81288},
+											pos: position{line: 2527, col: 5, offset: 81355},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2525, col: 5, offset: 81288},
+													pos: position{line: 2527, col: 5, offset: 81355},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2528, col: 5, offset: 81364},
+													pos:   position{line: 2530, col: 5, offset: 81431},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2529, col: 9, offset: 81382},
+														pos: position{line: 2531, col: 9, offset: 81449},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2529, col: 10, offset: 81383},
+															pos:        position{line: 2531, col: 10, offset: 81450},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45059,7 +45223,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2394, col: 11, offset: 77489},
+										pos:  position{line: 2396, col: 11, offset: 77556},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -45452,17 +45616,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2407, col: 5, offset: 77942},
+										pos: position{line: 2409, col: 5, offset: 78009},
 										run: (*parser).callonSectionTitleElement146,
 										expr: &seqExpr{
-											pos: position{line: 2407, col: 5, offset: 77942},
+											pos: position{line: 2409, col: 5, offset: 78009},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2407, col: 5, offset: 77942},
+													pos: position{line: 2409, col: 5, offset: 78009},
 													run: (*parser).callonSectionTitleElement148,
 												},
 												&labeledExpr{
-													pos:   position{line: 2410, col: 5, offset: 77997},
+													pos:   position{line: 2412, col: 5, offset: 78064},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 406, col: 5, offset: 12507},
@@ -45920,12 +46084,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2410, col: 26, offset: 78018},
+													pos: position{line: 2412, col: 26, offset: 78085},
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 10, offset: 93182},
+														pos: position{line: 2946, col: 10, offset: 93249},
 														run: (*parser).callonSectionTitleElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2944, col: 10, offset: 93182},
+															pos:        position{line: 2946, col: 10, offset: 93249},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -45934,30 +46098,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2410, col: 33, offset: 78025},
+													pos: position{line: 2412, col: 33, offset: 78092},
 													expr: &choiceExpr{
-														pos: position{line: 2966, col: 8, offset: 93580},
+														pos: position{line: 2968, col: 8, offset: 93647},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2953, col: 12, offset: 93353},
+																pos: position{line: 2955, col: 12, offset: 93420},
 																run: (*parser).callonSectionTitleElement247,
 																expr: &choiceExpr{
-																	pos: position{line: 2953, col: 13, offset: 93354},
+																	pos: position{line: 2955, col: 13, offset: 93421},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 13, offset: 93354},
+																			pos:        position{line: 2955, col: 13, offset: 93421},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 20, offset: 93361},
+																			pos:        position{line: 2955, col: 20, offset: 93428},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2953, col: 29, offset: 93370},
+																			pos:        position{line: 2955, col: 29, offset: 93437},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -45966,9 +46130,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2963, col: 8, offset: 93530},
+																pos: position{line: 2965, col: 8, offset: 93597},
 																expr: &anyMatcher{
-																	line: 2963, col: 9, offset: 93531,
+																	line: 2965, col: 9, offset: 93598,
 																},
 															},
 														},
@@ -45993,12 +46157,12 @@ var g = &grammar{
 													pos:   position{line: 1278, col: 14, offset: 39878},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2929, col: 7, offset: 92834},
+														pos: position{line: 2931, col: 7, offset: 92901},
 														run: (*parser).callonSectionTitleElement258,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2929, col: 7, offset: 92834},
+															pos: position{line: 2931, col: 7, offset: 92901},
 															expr: &charClassMatcher{
-																pos:        position{line: 2929, col: 7, offset: 92834},
+																pos:        position{line: 2931, col: 7, offset: 92901},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46032,12 +46196,12 @@ var g = &grammar{
 													pos:   position{line: 1283, col: 10, offset: 40010},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2929, col: 7, offset: 92834},
+														pos: position{line: 2931, col: 7, offset: 92901},
 														run: (*parser).callonSectionTitleElement266,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2929, col: 7, offset: 92834},
+															pos: position{line: 2931, col: 7, offset: 92901},
 															expr: &charClassMatcher{
-																pos:        position{line: 2929, col: 7, offset: 92834},
+																pos:        position{line: 2931, col: 7, offset: 92901},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46056,14 +46220,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2399, col: 11, offset: 77743},
+										pos:  position{line: 2401, col: 11, offset: 77810},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2883, col: 12, offset: 91490},
+										pos: position{line: 2885, col: 12, offset: 91557},
 										run: (*parser).callonSectionTitleElement271,
 										expr: &charClassMatcher{
-											pos:        position{line: 2883, col: 12, offset: 91490},
+											pos:        position{line: 2885, col: 12, offset: 91557},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46079,52 +46243,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2420, col: 1, offset: 78287},
+			pos:  position{line: 2422, col: 1, offset: 78354},
 			expr: &actionExpr{
-				pos: position{line: 2421, col: 5, offset: 78374},
+				pos: position{line: 2423, col: 5, offset: 78441},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2421, col: 5, offset: 78374},
+					pos: position{line: 2423, col: 5, offset: 78441},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2421, col: 5, offset: 78374},
+							pos:   position{line: 2423, col: 5, offset: 78441},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2421, col: 14, offset: 78383},
+								pos: position{line: 2423, col: 14, offset: 78450},
 								expr: &actionExpr{
-									pos: position{line: 2423, col: 9, offset: 78409},
+									pos: position{line: 2425, col: 9, offset: 78476},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2423, col: 9, offset: 78409},
+										pos: position{line: 2425, col: 9, offset: 78476},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2961, col: 11, offset: 93516},
+												pos: position{line: 2963, col: 11, offset: 93583},
 												expr: &anyMatcher{
-													line: 2961, col: 13, offset: 93518,
+													line: 2963, col: 13, offset: 93585,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2424, col: 9, offset: 78424},
+												pos:   position{line: 2426, col: 9, offset: 78491},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2425, col: 13, offset: 78446},
+													pos: position{line: 2427, col: 13, offset: 78513},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2843, col: 5, offset: 90424},
+															pos: position{line: 2845, col: 5, offset: 90491},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2843, col: 5, offset: 90424},
+																pos: position{line: 2845, col: 5, offset: 90491},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2843, col: 5, offset: 90424},
+																		pos:   position{line: 2845, col: 5, offset: 90491},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2843, col: 11, offset: 90430},
+																			pos: position{line: 2845, col: 11, offset: 90497},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2843, col: 11, offset: 90430},
+																				pos: position{line: 2845, col: 11, offset: 90497},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2843, col: 11, offset: 90430},
+																					pos:        position{line: 2845, col: 11, offset: 90497},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -46134,36 +46298,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2846, col: 5, offset: 90488},
+																		pos: position{line: 2848, col: 5, offset: 90555},
 																		expr: &seqExpr{
-																			pos: position{line: 2847, col: 9, offset: 90499},
+																			pos: position{line: 2849, col: 9, offset: 90566},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2847, col: 9, offset: 90499},
+																					pos:        position{line: 2849, col: 9, offset: 90566},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2848, col: 9, offset: 90548},
+																					pos: position{line: 2850, col: 9, offset: 90615},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2852, col: 5, offset: 90628},
+																		pos: position{line: 2854, col: 5, offset: 90695},
 																		expr: &seqExpr{
-																			pos: position{line: 2853, col: 9, offset: 90639},
+																			pos: position{line: 2855, col: 9, offset: 90706},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2853, col: 9, offset: 90639},
+																					pos:        position{line: 2855, col: 9, offset: 90706},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2853, col: 13, offset: 90643},
+																					pos:        position{line: 2855, col: 13, offset: 90710},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -46176,12 +46340,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2948, col: 11, offset: 93243},
+															pos: position{line: 2950, col: 11, offset: 93310},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2948, col: 11, offset: 93243},
+																pos: position{line: 2950, col: 11, offset: 93310},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2948, col: 11, offset: 93243},
+																	pos:        position{line: 2950, col: 11, offset: 93310},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46190,25 +46354,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2427, col: 15, offset: 78492},
+															pos:  position{line: 2429, col: 15, offset: 78559},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2556, col: 5, offset: 82487},
+															pos: position{line: 2558, col: 5, offset: 82554},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2556, col: 5, offset: 82487},
+																pos: position{line: 2558, col: 5, offset: 82554},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2556, col: 5, offset: 82487},
+																		pos:        position{line: 2558, col: 5, offset: 82554},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2556, col: 10, offset: 82492},
+																		pos: position{line: 2558, col: 10, offset: 82559},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2556, col: 11, offset: 82493},
+																			pos:        position{line: 2558, col: 11, offset: 82560},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -46219,29 +46383,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2562, col: 5, offset: 82685},
+															pos: position{line: 2564, col: 5, offset: 82752},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2562, col: 5, offset: 82685},
+																pos: position{line: 2564, col: 5, offset: 82752},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2562, col: 5, offset: 82685},
+																		pos: position{line: 2564, col: 5, offset: 82752},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2565, col: 5, offset: 82756},
+																		pos: position{line: 2567, col: 5, offset: 82823},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2569, col: 5, offset: 82881},
+																		pos:        position{line: 2571, col: 5, offset: 82948},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2569, col: 9, offset: 82885},
+																		pos: position{line: 2571, col: 9, offset: 82952},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2569, col: 10, offset: 82886},
+																			pos:        position{line: 2571, col: 10, offset: 82953},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -46252,27 +46416,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2861, col: 5, offset: 90836},
+															pos: position{line: 2863, col: 5, offset: 90903},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2862, col: 9, offset: 90846},
+																pos: position{line: 2864, col: 9, offset: 90913},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2862, col: 10, offset: 90847},
+																		pos:        position{line: 2864, col: 10, offset: 90914},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2864, col: 13, offset: 90944},
+																		pos: position{line: 2866, col: 13, offset: 91011},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2864, col: 13, offset: 90944},
+																				pos: position{line: 2866, col: 13, offset: 91011},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2867, col: 13, offset: 91044},
+																				pos:        position{line: 2869, col: 13, offset: 91111},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -46280,20 +46444,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2867, col: 19, offset: 91050},
+																		pos:        position{line: 2869, col: 19, offset: 91117},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2870, col: 13, offset: 91088},
+																		pos: position{line: 2872, col: 13, offset: 91155},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2870, col: 13, offset: 91088},
+																				pos: position{line: 2872, col: 13, offset: 91155},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2873, col: 14, offset: 91181},
+																				pos:        position{line: 2875, col: 14, offset: 91248},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -46302,18 +46466,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2875, col: 12, offset: 91225},
+																		pos: position{line: 2877, col: 12, offset: 91292},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2875, col: 12, offset: 91225},
+																				pos:        position{line: 2877, col: 12, offset: 91292},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2875, col: 16, offset: 91229},
+																				pos: position{line: 2877, col: 16, offset: 91296},
 																				expr: &litMatcher{
-																					pos:        position{line: 2875, col: 17, offset: 91230},
+																					pos:        position{line: 2877, col: 17, offset: 91297},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -46325,25 +46489,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2953, col: 12, offset: 93353},
+															pos: position{line: 2955, col: 12, offset: 93420},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2953, col: 13, offset: 93354},
+																pos: position{line: 2955, col: 13, offset: 93421},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 13, offset: 93354},
+																		pos:        position{line: 2955, col: 13, offset: 93421},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 20, offset: 93361},
+																		pos:        position{line: 2955, col: 20, offset: 93428},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2953, col: 29, offset: 93370},
+																		pos:        position{line: 2955, col: 29, offset: 93437},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -46698,35 +46862,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2432, col: 15, offset: 78659},
+															pos:  position{line: 2434, col: 15, offset: 78726},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2433, col: 15, offset: 78679},
+															pos:  position{line: 2435, col: 15, offset: 78746},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2434, col: 15, offset: 78768},
+															pos:  position{line: 2436, col: 15, offset: 78835},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2525, col: 5, offset: 81288},
+															pos: position{line: 2527, col: 5, offset: 81355},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 5, offset: 81288},
+																pos: position{line: 2527, col: 5, offset: 81355},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2525, col: 5, offset: 81288},
+																		pos: position{line: 2527, col: 5, offset: 81355},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2528, col: 5, offset: 81364},
+																		pos:   position{line: 2530, col: 5, offset: 81431},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2529, col: 9, offset: 81382},
+																			pos: position{line: 2531, col: 9, offset: 81449},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2529, col: 10, offset: 81383},
+																				pos:        position{line: 2531, col: 10, offset: 81450},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -46760,10 +46924,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1239, col: 5, offset: 38726},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93182},
+																			pos: position{line: 2946, col: 10, offset: 93249},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93182},
+																				pos:        position{line: 2946, col: 10, offset: 93249},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46774,28 +46938,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1239, col: 12, offset: 38733},
 																		expr: &choiceExpr{
-																			pos: position{line: 2966, col: 8, offset: 93580},
+																			pos: position{line: 2968, col: 8, offset: 93647},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93353},
+																					pos: position{line: 2955, col: 12, offset: 93420},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93354},
+																						pos: position{line: 2955, col: 13, offset: 93421},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93354},
+																								pos:        position{line: 2955, col: 13, offset: 93421},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93361},
+																								pos:        position{line: 2955, col: 20, offset: 93428},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93370},
+																								pos:        position{line: 2955, col: 29, offset: 93437},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46804,9 +46968,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2963, col: 8, offset: 93530},
+																					pos: position{line: 2965, col: 8, offset: 93597},
 																					expr: &anyMatcher{
-																						line: 2963, col: 9, offset: 93531,
+																						line: 2965, col: 9, offset: 93598,
 																					},
 																				},
 																			},
@@ -46816,7 +46980,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2437, col: 15, offset: 78950},
+															pos:  position{line: 2439, col: 15, offset: 79017},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -46863,10 +47027,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2883, col: 12, offset: 91490},
+															pos: position{line: 2885, col: 12, offset: 91557},
 															run: (*parser).callonNormalGroup165,
 															expr: &charClassMatcher{
-																pos:        position{line: 2883, col: 12, offset: 91490},
+																pos:        position{line: 2885, col: 12, offset: 91557},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -46882,9 +47046,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2963, col: 8, offset: 93530},
+							pos: position{line: 2965, col: 8, offset: 93597},
 							expr: &anyMatcher{
-								line: 2963, col: 9, offset: 93531,
+								line: 2965, col: 9, offset: 93598,
 							},
 						},
 					},
@@ -46893,28 +47057,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2448, col: 1, offset: 79388},
+			pos:  position{line: 2450, col: 1, offset: 79455},
 			expr: &actionExpr{
-				pos: position{line: 2449, col: 5, offset: 79421},
+				pos: position{line: 2451, col: 5, offset: 79488},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2449, col: 5, offset: 79421},
+					pos: position{line: 2451, col: 5, offset: 79488},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2449, col: 5, offset: 79421},
+							pos:   position{line: 2451, col: 5, offset: 79488},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2449, col: 14, offset: 79430},
+								pos: position{line: 2451, col: 14, offset: 79497},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2449, col: 15, offset: 79431},
+									pos:  position{line: 2451, col: 15, offset: 79498},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2963, col: 8, offset: 93530},
+							pos: position{line: 2965, col: 8, offset: 93597},
 							expr: &anyMatcher{
-								line: 2963, col: 9, offset: 93531,
+								line: 2965, col: 9, offset: 93598,
 							},
 						},
 					},
@@ -46923,41 +47087,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2453, col: 1, offset: 79528},
+			pos:  position{line: 2455, col: 1, offset: 79595},
 			expr: &actionExpr{
-				pos: position{line: 2454, col: 5, offset: 79568},
+				pos: position{line: 2456, col: 5, offset: 79635},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2454, col: 5, offset: 79568},
+					pos: position{line: 2456, col: 5, offset: 79635},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2961, col: 11, offset: 93516},
+							pos: position{line: 2963, col: 11, offset: 93583},
 							expr: &anyMatcher{
-								line: 2961, col: 13, offset: 93518,
+								line: 2963, col: 13, offset: 93585,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2455, col: 5, offset: 79579},
+							pos:   position{line: 2457, col: 5, offset: 79646},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2456, col: 9, offset: 79597},
+								pos: position{line: 2458, col: 9, offset: 79664},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2843, col: 5, offset: 90424},
+										pos: position{line: 2845, col: 5, offset: 90491},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2843, col: 5, offset: 90424},
+											pos: position{line: 2845, col: 5, offset: 90491},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2843, col: 5, offset: 90424},
+													pos:   position{line: 2845, col: 5, offset: 90491},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2843, col: 11, offset: 90430},
+														pos: position{line: 2845, col: 11, offset: 90497},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2843, col: 11, offset: 90430},
+															pos: position{line: 2845, col: 11, offset: 90497},
 															expr: &charClassMatcher{
-																pos:        position{line: 2843, col: 11, offset: 90430},
+																pos:        position{line: 2845, col: 11, offset: 90497},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46967,36 +47131,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2846, col: 5, offset: 90488},
+													pos: position{line: 2848, col: 5, offset: 90555},
 													expr: &seqExpr{
-														pos: position{line: 2847, col: 9, offset: 90499},
+														pos: position{line: 2849, col: 9, offset: 90566},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2847, col: 9, offset: 90499},
+																pos:        position{line: 2849, col: 9, offset: 90566},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2848, col: 9, offset: 90548},
+																pos: position{line: 2850, col: 9, offset: 90615},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2852, col: 5, offset: 90628},
+													pos: position{line: 2854, col: 5, offset: 90695},
 													expr: &seqExpr{
-														pos: position{line: 2853, col: 9, offset: 90639},
+														pos: position{line: 2855, col: 9, offset: 90706},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2853, col: 9, offset: 90639},
+																pos:        position{line: 2855, col: 9, offset: 90706},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2853, col: 13, offset: 90643},
+																pos:        position{line: 2855, col: 13, offset: 90710},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -47009,10 +47173,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2944, col: 10, offset: 93182},
+										pos: position{line: 2946, col: 10, offset: 93249},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2944, col: 10, offset: 93182},
+											pos:        position{line: 2946, col: 10, offset: 93249},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -47020,31 +47184,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2458, col: 11, offset: 79635},
+										pos:  position{line: 2460, col: 11, offset: 79702},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 5, offset: 90836},
+										pos: position{line: 2863, col: 5, offset: 90903},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2862, col: 9, offset: 90846},
+											pos: position{line: 2864, col: 9, offset: 90913},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2862, col: 10, offset: 90847},
+													pos:        position{line: 2864, col: 10, offset: 90914},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2864, col: 13, offset: 90944},
+													pos: position{line: 2866, col: 13, offset: 91011},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2864, col: 13, offset: 90944},
+															pos: position{line: 2866, col: 13, offset: 91011},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2867, col: 13, offset: 91044},
+															pos:        position{line: 2869, col: 13, offset: 91111},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -47052,20 +47216,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2867, col: 19, offset: 91050},
+													pos:        position{line: 2869, col: 19, offset: 91117},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2870, col: 13, offset: 91088},
+													pos: position{line: 2872, col: 13, offset: 91155},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2870, col: 13, offset: 91088},
+															pos: position{line: 2872, col: 13, offset: 91155},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2873, col: 14, offset: 91181},
+															pos:        position{line: 2875, col: 14, offset: 91248},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -47074,18 +47238,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2875, col: 12, offset: 91225},
+													pos: position{line: 2877, col: 12, offset: 91292},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2875, col: 12, offset: 91225},
+															pos:        position{line: 2877, col: 12, offset: 91292},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2875, col: 16, offset: 91229},
+															pos: position{line: 2877, col: 16, offset: 91296},
 															expr: &litMatcher{
-																pos:        position{line: 2875, col: 17, offset: 91230},
+																pos:        position{line: 2877, col: 17, offset: 91297},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -47097,35 +47261,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2460, col: 11, offset: 79708},
+										pos:  position{line: 2462, col: 11, offset: 79775},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2461, col: 11, offset: 79724},
+										pos:  position{line: 2463, col: 11, offset: 79791},
 										name: "InlineMacro",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2462, col: 11, offset: 79746},
+										pos:  position{line: 2464, col: 11, offset: 79813},
 										name: "InlinePassthrough",
 									},
 									&actionExpr{
-										pos: position{line: 2525, col: 5, offset: 81288},
+										pos: position{line: 2527, col: 5, offset: 81355},
 										run: (*parser).callonAttributeStructuredValueElement41,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 5, offset: 81288},
+											pos: position{line: 2527, col: 5, offset: 81355},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2525, col: 5, offset: 81288},
+													pos: position{line: 2527, col: 5, offset: 81355},
 													run: (*parser).callonAttributeStructuredValueElement43,
 												},
 												&labeledExpr{
-													pos:   position{line: 2528, col: 5, offset: 81364},
+													pos:   position{line: 2530, col: 5, offset: 81431},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2529, col: 9, offset: 81382},
+														pos: position{line: 2531, col: 9, offset: 81449},
 														run: (*parser).callonAttributeStructuredValueElement45,
 														expr: &charClassMatcher{
-															pos:        position{line: 2529, col: 10, offset: 81383},
+															pos:        position{line: 2531, col: 10, offset: 81450},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -47180,25 +47344,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2953, col: 12, offset: 93353},
+										pos: position{line: 2955, col: 12, offset: 93420},
 										run: (*parser).callonAttributeStructuredValueElement56,
 										expr: &choiceExpr{
-											pos: position{line: 2953, col: 13, offset: 93354},
+											pos: position{line: 2955, col: 13, offset: 93421},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2953, col: 13, offset: 93354},
+													pos:        position{line: 2955, col: 13, offset: 93421},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2953, col: 20, offset: 93361},
+													pos:        position{line: 2955, col: 20, offset: 93428},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2953, col: 29, offset: 93370},
+													pos:        position{line: 2955, col: 29, offset: 93437},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -47207,10 +47371,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2883, col: 12, offset: 91490},
+										pos: position{line: 2885, col: 12, offset: 91557},
 										run: (*parser).callonAttributeStructuredValueElement61,
 										expr: &charClassMatcher{
-											pos:        position{line: 2883, col: 12, offset: 91490},
+											pos:        position{line: 2885, col: 12, offset: 91557},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -47226,49 +47390,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2473, col: 1, offset: 80050},
+			pos:  position{line: 2475, col: 1, offset: 80117},
 			expr: &actionExpr{
-				pos: position{line: 2475, col: 5, offset: 80132},
+				pos: position{line: 2477, col: 5, offset: 80199},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2475, col: 5, offset: 80132},
+					pos: position{line: 2477, col: 5, offset: 80199},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2475, col: 5, offset: 80132},
+							pos: position{line: 2477, col: 5, offset: 80199},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2478, col: 5, offset: 80197},
+							pos:   position{line: 2480, col: 5, offset: 80264},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2479, col: 9, offset: 80215},
+								pos: position{line: 2481, col: 9, offset: 80282},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2479, col: 9, offset: 80215},
+										pos:  position{line: 2481, col: 9, offset: 80282},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2480, col: 11, offset: 80236},
+										pos:  position{line: 2482, col: 11, offset: 80303},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2481, col: 11, offset: 80259},
+										pos:  position{line: 2483, col: 11, offset: 80326},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2482, col: 11, offset: 80275},
+										pos:  position{line: 2484, col: 11, offset: 80342},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2483, col: 11, offset: 80304},
+										pos:  position{line: 2485, col: 11, offset: 80371},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2484, col: 11, offset: 80330},
+										pos:  position{line: 2486, col: 11, offset: 80397},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2485, col: 11, offset: 80356},
+										pos:  position{line: 2487, col: 11, offset: 80423},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -47287,12 +47451,12 @@ var g = &grammar{
 													pos:   position{line: 1278, col: 14, offset: 39878},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2929, col: 7, offset: 92834},
+														pos: position{line: 2931, col: 7, offset: 92901},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2929, col: 7, offset: 92834},
+															pos: position{line: 2931, col: 7, offset: 92901},
 															expr: &charClassMatcher{
-																pos:        position{line: 2929, col: 7, offset: 92834},
+																pos:        position{line: 2931, col: 7, offset: 92901},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47326,12 +47490,12 @@ var g = &grammar{
 													pos:   position{line: 1283, col: 10, offset: 40010},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2929, col: 7, offset: 92834},
+														pos: position{line: 2931, col: 7, offset: 92901},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2929, col: 7, offset: 92834},
+															pos: position{line: 2931, col: 7, offset: 92901},
 															expr: &charClassMatcher{
-																pos:        position{line: 2929, col: 7, offset: 92834},
+																pos:        position{line: 2931, col: 7, offset: 92901},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47373,17 +47537,17 @@ var g = &grammar{
 																pos: position{line: 1329, col: 31, offset: 41832},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2834, col: 13, offset: 90277},
+																		pos:        position{line: 2836, col: 13, offset: 90344},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2944, col: 10, offset: 93182},
+																		pos: position{line: 2946, col: 10, offset: 93249},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2944, col: 10, offset: 93182},
+																			pos:        position{line: 2946, col: 10, offset: 93249},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -47409,10 +47573,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1323, col: 12, offset: 41546},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93182},
+																			pos: position{line: 2946, col: 10, offset: 93249},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93182},
+																				pos:        position{line: 2946, col: 10, offset: 93249},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47429,10 +47593,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1323, col: 23, offset: 41557},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93182},
+																			pos: position{line: 2946, col: 10, offset: 93249},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93182},
+																				pos:        position{line: 2946, col: 10, offset: 93249},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47452,17 +47616,17 @@ var g = &grammar{
 																					pos: position{line: 1329, col: 31, offset: 41832},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2834, col: 13, offset: 90277},
+																							pos:        position{line: 2836, col: 13, offset: 90344},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93182},
+																							pos: position{line: 2946, col: 10, offset: 93249},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93182},
+																								pos:        position{line: 2946, col: 10, offset: 93249},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47493,10 +47657,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1324, col: 12, offset: 41638},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93182},
+																			pos: position{line: 2946, col: 10, offset: 93249},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93182},
+																				pos:        position{line: 2946, col: 10, offset: 93249},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47513,10 +47677,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1324, col: 23, offset: 41649},
 																		expr: &actionExpr{
-																			pos: position{line: 2944, col: 10, offset: 93182},
+																			pos: position{line: 2946, col: 10, offset: 93249},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2944, col: 10, offset: 93182},
+																				pos:        position{line: 2946, col: 10, offset: 93249},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47536,17 +47700,17 @@ var g = &grammar{
 																					pos: position{line: 1329, col: 31, offset: 41832},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2834, col: 13, offset: 90277},
+																							pos:        position{line: 2836, col: 13, offset: 90344},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2944, col: 10, offset: 93182},
+																							pos: position{line: 2946, col: 10, offset: 93249},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2944, col: 10, offset: 93182},
+																								pos:        position{line: 2946, col: 10, offset: 93249},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47573,15 +47737,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2488, col: 11, offset: 80435},
+										pos:  position{line: 2490, col: 11, offset: 80502},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2489, col: 11, offset: 80455},
+										pos:  position{line: 2491, col: 11, offset: 80522},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2490, col: 11, offset: 80478},
+										pos:  position{line: 2492, col: 11, offset: 80545},
 										name: "InlineMenu",
 									},
 								},
@@ -47593,22 +47757,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2494, col: 1, offset: 80535},
+			pos:  position{line: 2496, col: 1, offset: 80602},
 			expr: &actionExpr{
-				pos: position{line: 2496, col: 5, offset: 80623},
+				pos: position{line: 2498, col: 5, offset: 80690},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2496, col: 5, offset: 80623},
+					pos: position{line: 2498, col: 5, offset: 80690},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2496, col: 5, offset: 80623},
+							pos: position{line: 2498, col: 5, offset: 80690},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2499, col: 5, offset: 80700},
+							pos:   position{line: 2501, col: 5, offset: 80767},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2500, col: 9, offset: 80718},
+								pos: position{line: 2502, col: 9, offset: 80785},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1409, col: 26, offset: 45217},
@@ -47663,10 +47827,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1415, col: 12, offset: 45653},
 																				expr: &actionExpr{
-																					pos: position{line: 2944, col: 10, offset: 93182},
+																					pos: position{line: 2946, col: 10, offset: 93249},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2944, col: 10, offset: 93182},
+																						pos:        position{line: 2946, col: 10, offset: 93249},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -47677,25 +47841,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1415, col: 19, offset: 45660},
 																				expr: &actionExpr{
-																					pos: position{line: 2953, col: 12, offset: 93353},
+																					pos: position{line: 2955, col: 12, offset: 93420},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2953, col: 13, offset: 93354},
+																						pos: position{line: 2955, col: 13, offset: 93421},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 13, offset: 93354},
+																								pos:        position{line: 2955, col: 13, offset: 93421},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 20, offset: 93361},
+																								pos:        position{line: 2955, col: 20, offset: 93428},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2953, col: 29, offset: 93370},
+																								pos:        position{line: 2955, col: 29, offset: 93437},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -47768,10 +47932,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1401, col: 64, offset: 44772},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93182},
+																				pos: position{line: 2946, col: 10, offset: 93249},
 																				run: (*parser).callonInlinePassthrough43,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93182},
+																					pos:        position{line: 2946, col: 10, offset: 93249},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47782,25 +47946,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1401, col: 71, offset: 44779},
 																			expr: &actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonInlinePassthrough46,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47823,12 +47987,12 @@ var g = &grammar{
 																							pos: position{line: 1401, col: 86, offset: 44794},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2948, col: 11, offset: 93243},
+																									pos: position{line: 2950, col: 11, offset: 93310},
 																									run: (*parser).callonInlinePassthrough56,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2948, col: 11, offset: 93243},
+																										pos: position{line: 2950, col: 11, offset: 93310},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2948, col: 11, offset: 93243},
+																											pos:        position{line: 2950, col: 11, offset: 93310},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -47857,25 +48021,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1401, col: 151, offset: 44859},
 																						expr: &actionExpr{
-																							pos: position{line: 2953, col: 12, offset: 93353},
+																							pos: position{line: 2955, col: 12, offset: 93420},
 																							run: (*parser).callonInlinePassthrough63,
 																							expr: &choiceExpr{
-																								pos: position{line: 2953, col: 13, offset: 93354},
+																								pos: position{line: 2955, col: 13, offset: 93421},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 13, offset: 93354},
+																										pos:        position{line: 2955, col: 13, offset: 93421},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 20, offset: 93361},
+																										pos:        position{line: 2955, col: 20, offset: 93428},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2953, col: 29, offset: 93370},
+																										pos:        position{line: 2955, col: 29, offset: 93437},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -47902,10 +48066,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1403, col: 12, offset: 45019},
 																			expr: &actionExpr{
-																				pos: position{line: 2944, col: 10, offset: 93182},
+																				pos: position{line: 2946, col: 10, offset: 93249},
 																				run: (*parser).callonInlinePassthrough72,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2944, col: 10, offset: 93182},
+																					pos:        position{line: 2946, col: 10, offset: 93249},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47916,25 +48080,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1403, col: 19, offset: 45026},
 																			expr: &actionExpr{
-																				pos: position{line: 2953, col: 12, offset: 93353},
+																				pos: position{line: 2955, col: 12, offset: 93420},
 																				run: (*parser).callonInlinePassthrough75,
 																				expr: &choiceExpr{
-																					pos: position{line: 2953, col: 13, offset: 93354},
+																					pos: position{line: 2955, col: 13, offset: 93421},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 13, offset: 93354},
+																							pos:        position{line: 2955, col: 13, offset: 93421},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 20, offset: 93361},
+																							pos:        position{line: 2955, col: 20, offset: 93428},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2953, col: 29, offset: 93370},
+																							pos:        position{line: 2955, col: 29, offset: 93437},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47970,7 +48134,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1397, col: 121, offset: 44595},
 													expr: &charClassMatcher{
-														pos:        position{line: 2834, col: 13, offset: 90277},
+														pos:        position{line: 2836, col: 13, offset: 90344},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -47981,7 +48145,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2500, col: 57, offset: 80766},
+										pos:  position{line: 2502, col: 57, offset: 80833},
 										name: "PassthroughMacro",
 									},
 								},
@@ -47993,16 +48157,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2505, col: 1, offset: 80826},
+			pos:  position{line: 2507, col: 1, offset: 80893},
 			expr: &seqExpr{
-				pos: position{line: 2507, col: 5, offset: 80902},
+				pos: position{line: 2509, col: 5, offset: 80969},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2507, col: 5, offset: 80902},
+						pos: position{line: 2509, col: 5, offset: 80969},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2510, col: 5, offset: 80967},
+						pos:  position{line: 2512, col: 5, offset: 81034},
 						name: "QuotedText",
 					},
 				},
@@ -48010,22 +48174,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2512, col: 1, offset: 80980},
+			pos:  position{line: 2514, col: 1, offset: 81047},
 			expr: &actionExpr{
-				pos: position{line: 2514, col: 5, offset: 81062},
+				pos: position{line: 2516, col: 5, offset: 81129},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2514, col: 5, offset: 81062},
+					pos: position{line: 2516, col: 5, offset: 81129},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2514, col: 5, offset: 81062},
+							pos: position{line: 2516, col: 5, offset: 81129},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2517, col: 5, offset: 81133},
+							pos:   position{line: 2519, col: 5, offset: 81200},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2518, col: 9, offset: 81151},
+								pos:  position{line: 2520, col: 9, offset: 81218},
 								name: "Symbol",
 							},
 						},
@@ -48035,103 +48199,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2573, col: 1, offset: 82938},
+			pos:  position{line: 2575, col: 1, offset: 83005},
 			expr: &choiceExpr{
-				pos: position{line: 2575, col: 5, offset: 82968},
+				pos: position{line: 2577, col: 5, offset: 83035},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2575, col: 5, offset: 82968},
+						pos: position{line: 2577, col: 5, offset: 83035},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2575, col: 5, offset: 82968},
+							pos: position{line: 2577, col: 5, offset: 83035},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2575, col: 5, offset: 82968},
+									pos:        position{line: 2577, col: 5, offset: 83035},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2575, col: 10, offset: 82973},
+									pos: position{line: 2577, col: 10, offset: 83040},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2575, col: 10, offset: 82973},
+											pos:  position{line: 2577, col: 10, offset: 83040},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2604, col: 14, offset: 84077},
+											pos: position{line: 2606, col: 14, offset: 84144},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2604, col: 14, offset: 84077},
+												pos:        position{line: 2606, col: 14, offset: 84144},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2608, col: 14, offset: 84143},
+											pos: position{line: 2610, col: 14, offset: 84210},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2608, col: 14, offset: 84143},
+												pos:        position{line: 2610, col: 14, offset: 84210},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2612, col: 15, offset: 84212},
+											pos: position{line: 2614, col: 15, offset: 84279},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2612, col: 15, offset: 84212},
+												pos:        position{line: 2614, col: 15, offset: 84279},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2616, col: 13, offset: 84277},
+											pos: position{line: 2618, col: 13, offset: 84344},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2616, col: 13, offset: 84277},
+												pos:        position{line: 2618, col: 13, offset: 84344},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2644, col: 21, offset: 84847},
+											pos: position{line: 2646, col: 21, offset: 84914},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2644, col: 21, offset: 84847},
+												pos:        position{line: 2646, col: 21, offset: 84914},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2623, col: 5, offset: 84433},
+											pos: position{line: 2625, col: 5, offset: 84500},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2623, col: 5, offset: 84433},
+												pos: position{line: 2625, col: 5, offset: 84500},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2623, col: 5, offset: 84433},
+														pos:        position{line: 2625, col: 5, offset: 84500},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2624, col: 5, offset: 84443},
+														pos: position{line: 2626, col: 5, offset: 84510},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2628, col: 6, offset: 84530},
+														pos: position{line: 2630, col: 6, offset: 84597},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2944, col: 10, offset: 93182},
+																pos: position{line: 2946, col: 10, offset: 93249},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2944, col: 10, offset: 93182},
+																	pos:        position{line: 2946, col: 10, offset: 93249},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -48139,30 +48303,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2628, col: 14, offset: 84538},
+																pos: position{line: 2630, col: 14, offset: 84605},
 																expr: &choiceExpr{
-																	pos: position{line: 2966, col: 8, offset: 93580},
+																	pos: position{line: 2968, col: 8, offset: 93647},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2953, col: 12, offset: 93353},
+																			pos: position{line: 2955, col: 12, offset: 93420},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2953, col: 13, offset: 93354},
+																				pos: position{line: 2955, col: 13, offset: 93421},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 13, offset: 93354},
+																						pos:        position{line: 2955, col: 13, offset: 93421},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 20, offset: 93361},
+																						pos:        position{line: 2955, col: 20, offset: 93428},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2953, col: 29, offset: 93370},
+																						pos:        position{line: 2955, col: 29, offset: 93437},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -48171,9 +48335,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2963, col: 8, offset: 93530},
+																			pos: position{line: 2965, col: 8, offset: 93597},
 																			expr: &anyMatcher{
-																				line: 2963, col: 9, offset: 93531,
+																				line: 2965, col: 9, offset: 93598,
 																			},
 																		},
 																	},
@@ -48185,53 +48349,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2633, col: 5, offset: 84658},
+											pos: position{line: 2635, col: 5, offset: 84725},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2633, col: 5, offset: 84658},
+												pos: position{line: 2635, col: 5, offset: 84725},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2633, col: 5, offset: 84658},
+														pos:        position{line: 2635, col: 5, offset: 84725},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2634, col: 5, offset: 84668},
+														pos: position{line: 2636, col: 5, offset: 84735},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2638, col: 5, offset: 84757},
+														pos: position{line: 2640, col: 5, offset: 84824},
 														expr: &choiceExpr{
-															pos: position{line: 2638, col: 7, offset: 84759},
+															pos: position{line: 2640, col: 7, offset: 84826},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2834, col: 13, offset: 90277},
+																	pos:        position{line: 2836, col: 13, offset: 90344},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2953, col: 12, offset: 93353},
+																	pos: position{line: 2955, col: 12, offset: 93420},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2953, col: 13, offset: 93354},
+																		pos: position{line: 2955, col: 13, offset: 93421},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2953, col: 13, offset: 93354},
+																				pos:        position{line: 2955, col: 13, offset: 93421},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2953, col: 20, offset: 93361},
+																				pos:        position{line: 2955, col: 20, offset: 93428},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2953, col: 29, offset: 93370},
+																				pos:        position{line: 2955, col: 29, offset: 93437},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -48240,9 +48404,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2963, col: 8, offset: 93530},
+																	pos: position{line: 2965, col: 8, offset: 93597},
 																	expr: &anyMatcher{
-																		line: 2963, col: 9, offset: 93531,
+																		line: 2965, col: 9, offset: 93598,
 																	},
 																},
 															},
@@ -48252,30 +48416,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2648, col: 20, offset: 84917},
+											pos: position{line: 2650, col: 20, offset: 84984},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2648, col: 20, offset: 84917},
+												pos:        position{line: 2650, col: 20, offset: 84984},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2652, col: 21, offset: 84988},
+											pos: position{line: 2654, col: 21, offset: 85055},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2652, col: 21, offset: 84988},
+												pos:        position{line: 2654, col: 21, offset: 85055},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2656, col: 20, offset: 85058},
+											pos: position{line: 2658, col: 20, offset: 85125},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2656, col: 20, offset: 85058},
+												pos:        position{line: 2658, col: 20, offset: 85125},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -48287,73 +48451,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2579, col: 7, offset: 83228},
+						pos:  position{line: 2581, col: 7, offset: 83295},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2604, col: 14, offset: 84077},
+						pos: position{line: 2606, col: 14, offset: 84144},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2604, col: 14, offset: 84077},
+							pos:        position{line: 2606, col: 14, offset: 84144},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2608, col: 14, offset: 84143},
+						pos: position{line: 2610, col: 14, offset: 84210},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2608, col: 14, offset: 84143},
+							pos:        position{line: 2610, col: 14, offset: 84210},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2612, col: 15, offset: 84212},
+						pos: position{line: 2614, col: 15, offset: 84279},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2612, col: 15, offset: 84212},
+							pos:        position{line: 2614, col: 15, offset: 84279},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2616, col: 13, offset: 84277},
+						pos: position{line: 2618, col: 13, offset: 84344},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2616, col: 13, offset: 84277},
+							pos:        position{line: 2618, col: 13, offset: 84344},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2623, col: 5, offset: 84433},
+						pos: position{line: 2625, col: 5, offset: 84500},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2623, col: 5, offset: 84433},
+							pos: position{line: 2625, col: 5, offset: 84500},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2623, col: 5, offset: 84433},
+									pos:        position{line: 2625, col: 5, offset: 84500},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2624, col: 5, offset: 84443},
+									pos: position{line: 2626, col: 5, offset: 84510},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2628, col: 6, offset: 84530},
+									pos: position{line: 2630, col: 6, offset: 84597},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2944, col: 10, offset: 93182},
+											pos: position{line: 2946, col: 10, offset: 93249},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2944, col: 10, offset: 93182},
+												pos:        position{line: 2946, col: 10, offset: 93249},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -48361,30 +48525,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2628, col: 14, offset: 84538},
+											pos: position{line: 2630, col: 14, offset: 84605},
 											expr: &choiceExpr{
-												pos: position{line: 2966, col: 8, offset: 93580},
+												pos: position{line: 2968, col: 8, offset: 93647},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2953, col: 12, offset: 93353},
+														pos: position{line: 2955, col: 12, offset: 93420},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2953, col: 13, offset: 93354},
+															pos: position{line: 2955, col: 13, offset: 93421},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2953, col: 13, offset: 93354},
+																	pos:        position{line: 2955, col: 13, offset: 93421},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2953, col: 20, offset: 93361},
+																	pos:        position{line: 2955, col: 20, offset: 93428},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2953, col: 29, offset: 93370},
+																	pos:        position{line: 2955, col: 29, offset: 93437},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -48393,9 +48557,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2963, col: 8, offset: 93530},
+														pos: position{line: 2965, col: 8, offset: 93597},
 														expr: &anyMatcher{
-															line: 2963, col: 9, offset: 93531,
+															line: 2965, col: 9, offset: 93598,
 														},
 													},
 												},
@@ -48407,53 +48571,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2633, col: 5, offset: 84658},
+						pos: position{line: 2635, col: 5, offset: 84725},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2633, col: 5, offset: 84658},
+							pos: position{line: 2635, col: 5, offset: 84725},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2633, col: 5, offset: 84658},
+									pos:        position{line: 2635, col: 5, offset: 84725},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2634, col: 5, offset: 84668},
+									pos: position{line: 2636, col: 5, offset: 84735},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2638, col: 5, offset: 84757},
+									pos: position{line: 2640, col: 5, offset: 84824},
 									expr: &choiceExpr{
-										pos: position{line: 2638, col: 7, offset: 84759},
+										pos: position{line: 2640, col: 7, offset: 84826},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2834, col: 13, offset: 90277},
+												pos:        position{line: 2836, col: 13, offset: 90344},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2953, col: 12, offset: 93353},
+												pos: position{line: 2955, col: 12, offset: 93420},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2953, col: 13, offset: 93354},
+													pos: position{line: 2955, col: 13, offset: 93421},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2953, col: 13, offset: 93354},
+															pos:        position{line: 2955, col: 13, offset: 93421},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2953, col: 20, offset: 93361},
+															pos:        position{line: 2955, col: 20, offset: 93428},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2953, col: 29, offset: 93370},
+															pos:        position{line: 2955, col: 29, offset: 93437},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -48462,9 +48626,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2963, col: 8, offset: 93530},
+												pos: position{line: 2965, col: 8, offset: 93597},
 												expr: &anyMatcher{
-													line: 2963, col: 9, offset: 93531,
+													line: 2965, col: 9, offset: 93598,
 												},
 											},
 										},
@@ -48474,40 +48638,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2644, col: 21, offset: 84847},
+						pos: position{line: 2646, col: 21, offset: 84914},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2644, col: 21, offset: 84847},
+							pos:        position{line: 2646, col: 21, offset: 84914},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2648, col: 20, offset: 84917},
+						pos: position{line: 2650, col: 20, offset: 84984},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2648, col: 20, offset: 84917},
+							pos:        position{line: 2650, col: 20, offset: 84984},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2652, col: 21, offset: 84988},
+						pos: position{line: 2654, col: 21, offset: 85055},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2652, col: 21, offset: 84988},
+							pos:        position{line: 2654, col: 21, offset: 85055},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2656, col: 20, offset: 85058},
+						pos: position{line: 2658, col: 20, offset: 85125},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2656, col: 20, offset: 85058},
+							pos:        position{line: 2658, col: 20, offset: 85125},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -48518,43 +48682,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2590, col: 1, offset: 83418},
+			pos:  position{line: 2592, col: 1, offset: 83485},
 			expr: &choiceExpr{
-				pos: position{line: 2591, col: 5, offset: 83440},
+				pos: position{line: 2593, col: 5, offset: 83507},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2591, col: 5, offset: 83440},
+						pos: position{line: 2593, col: 5, offset: 83507},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2591, col: 5, offset: 83440},
+							pos: position{line: 2593, col: 5, offset: 83507},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2591, col: 5, offset: 83440},
+									pos:        position{line: 2593, col: 5, offset: 83507},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2591, col: 11, offset: 83446},
+									pos: position{line: 2593, col: 11, offset: 83513},
 									expr: &seqExpr{
-										pos: position{line: 2131, col: 5, offset: 68980},
+										pos: position{line: 2133, col: 5, offset: 69047},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2131, col: 5, offset: 68980},
+												pos:        position{line: 2133, col: 5, offset: 69047},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2132, col: 5, offset: 68989},
+												pos: position{line: 2134, col: 5, offset: 69056},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2136, col: 5, offset: 69112},
+												pos: position{line: 2138, col: 5, offset: 69179},
 												expr: &notExpr{
-													pos: position{line: 2136, col: 7, offset: 69114},
+													pos: position{line: 2138, col: 7, offset: 69181},
 													expr: &litMatcher{
-														pos:        position{line: 2136, col: 8, offset: 69115},
+														pos:        position{line: 2138, col: 8, offset: 69182},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -48568,21 +48732,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2594, col: 7, offset: 83599},
+						pos: position{line: 2596, col: 7, offset: 83666},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2594, col: 7, offset: 83599},
+							pos: position{line: 2596, col: 7, offset: 83666},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2594, col: 7, offset: 83599},
+									pos:        position{line: 2596, col: 7, offset: 83666},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2594, col: 13, offset: 83605},
+									pos: position{line: 2596, col: 13, offset: 83672},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2594, col: 14, offset: 83606},
+										pos:  position{line: 2596, col: 14, offset: 83673},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -48590,38 +48754,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2597, col: 7, offset: 83756},
+						pos: position{line: 2599, col: 7, offset: 83823},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2597, col: 7, offset: 83756},
+							pos: position{line: 2599, col: 7, offset: 83823},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2597, col: 7, offset: 83756},
+									pos:        position{line: 2599, col: 7, offset: 83823},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2597, col: 12, offset: 83761},
+									pos: position{line: 2599, col: 12, offset: 83828},
 									expr: &seqExpr{
-										pos: position{line: 2131, col: 5, offset: 68980},
+										pos: position{line: 2133, col: 5, offset: 69047},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2131, col: 5, offset: 68980},
+												pos:        position{line: 2133, col: 5, offset: 69047},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2132, col: 5, offset: 68989},
+												pos: position{line: 2134, col: 5, offset: 69056},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2136, col: 5, offset: 69112},
+												pos: position{line: 2138, col: 5, offset: 69179},
 												expr: &notExpr{
-													pos: position{line: 2136, col: 7, offset: 69114},
+													pos: position{line: 2138, col: 7, offset: 69181},
 													expr: &litMatcher{
-														pos:        position{line: 2136, col: 8, offset: 69115},
+														pos:        position{line: 2138, col: 8, offset: 69182},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -48635,21 +48799,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2600, col: 7, offset: 83914},
+						pos: position{line: 2602, col: 7, offset: 83981},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2600, col: 7, offset: 83914},
+							pos: position{line: 2602, col: 7, offset: 83981},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2600, col: 7, offset: 83914},
+									pos:        position{line: 2602, col: 7, offset: 83981},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2600, col: 12, offset: 83919},
+									pos: position{line: 2602, col: 12, offset: 83986},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2600, col: 13, offset: 83920},
+										pos:  position{line: 2602, col: 13, offset: 83987},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -48661,63 +48825,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2749, col: 1, offset: 87357},
+			pos:  position{line: 2751, col: 1, offset: 87424},
 			expr: &actionExpr{
-				pos: position{line: 2749, col: 26, offset: 87382},
+				pos: position{line: 2751, col: 26, offset: 87449},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2749, col: 26, offset: 87382},
+					pos: position{line: 2751, col: 26, offset: 87449},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2749, col: 26, offset: 87382},
+							pos:   position{line: 2751, col: 26, offset: 87449},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2749, col: 31, offset: 87387},
+								pos: position{line: 2751, col: 31, offset: 87454},
 								expr: &actionExpr{
-									pos: position{line: 2754, col: 5, offset: 87450},
+									pos: position{line: 2756, col: 5, offset: 87517},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2754, col: 5, offset: 87450},
+										pos: position{line: 2756, col: 5, offset: 87517},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2961, col: 11, offset: 93516},
+												pos: position{line: 2963, col: 11, offset: 93583},
 												expr: &anyMatcher{
-													line: 2961, col: 13, offset: 93518,
+													line: 2963, col: 13, offset: 93585,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2757, col: 5, offset: 87576},
+												pos:   position{line: 2759, col: 5, offset: 87643},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2757, col: 16, offset: 87587},
+													pos: position{line: 2759, col: 16, offset: 87654},
 													expr: &actionExpr{
-														pos: position{line: 2757, col: 17, offset: 87588},
+														pos: position{line: 2759, col: 17, offset: 87655},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2757, col: 17, offset: 87588},
+															pos: position{line: 2759, col: 17, offset: 87655},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2757, col: 17, offset: 87588},
+																	pos:   position{line: 2759, col: 17, offset: 87655},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2936, col: 12, offset: 93009},
+																		pos: position{line: 2938, col: 12, offset: 93076},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2936, col: 13, offset: 93010},
+																			pos: position{line: 2938, col: 13, offset: 93077},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2936, col: 13, offset: 93010},
+																					pos: position{line: 2938, col: 13, offset: 93077},
 																					expr: &litMatcher{
-																						pos:        position{line: 2936, col: 13, offset: 93010},
+																						pos:        position{line: 2938, col: 13, offset: 93077},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2936, col: 18, offset: 93015},
+																					pos: position{line: 2938, col: 18, offset: 93082},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2936, col: 18, offset: 93015},
+																						pos:        position{line: 2938, col: 18, offset: 93082},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -48729,7 +48893,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2757, col: 27, offset: 87598},
+																	pos:        position{line: 2759, col: 27, offset: 87665},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -48740,38 +48904,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2758, col: 5, offset: 87626},
+												pos:   position{line: 2760, col: 5, offset: 87693},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2758, col: 12, offset: 87633},
+													pos: position{line: 2760, col: 12, offset: 87700},
 													expr: &choiceExpr{
-														pos: position{line: 2759, col: 9, offset: 87643},
+														pos: position{line: 2761, col: 9, offset: 87710},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2759, col: 9, offset: 87643},
+																pos: position{line: 2761, col: 9, offset: 87710},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2759, col: 9, offset: 87643},
+																	pos:        position{line: 2761, col: 9, offset: 87710},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2760, col: 11, offset: 87690},
+																pos: position{line: 2762, col: 11, offset: 87757},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2760, col: 11, offset: 87690},
+																	pos:        position{line: 2762, col: 11, offset: 87757},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2761, col: 11, offset: 87738},
+																pos: position{line: 2763, col: 11, offset: 87805},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2761, col: 11, offset: 87738},
+																	pos:        position{line: 2763, col: 11, offset: 87805},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -48782,38 +48946,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2763, col: 5, offset: 87788},
+												pos:   position{line: 2765, col: 5, offset: 87855},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2763, col: 12, offset: 87795},
+													pos: position{line: 2765, col: 12, offset: 87862},
 													expr: &choiceExpr{
-														pos: position{line: 2764, col: 9, offset: 87805},
+														pos: position{line: 2766, col: 9, offset: 87872},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2764, col: 9, offset: 87805},
+																pos: position{line: 2766, col: 9, offset: 87872},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2764, col: 9, offset: 87805},
+																	pos:        position{line: 2766, col: 9, offset: 87872},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2765, col: 11, offset: 87852},
+																pos: position{line: 2767, col: 11, offset: 87919},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2765, col: 11, offset: 87852},
+																	pos:        position{line: 2767, col: 11, offset: 87919},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2766, col: 11, offset: 87902},
+																pos: position{line: 2768, col: 11, offset: 87969},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2766, col: 11, offset: 87902},
+																	pos:        position{line: 2768, col: 11, offset: 87969},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -48824,32 +48988,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2768, col: 5, offset: 87953},
+												pos:   position{line: 2770, col: 5, offset: 88020},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2768, col: 12, offset: 87960},
+													pos: position{line: 2770, col: 12, offset: 88027},
 													expr: &choiceExpr{
-														pos: position{line: 2768, col: 13, offset: 87961},
+														pos: position{line: 2770, col: 13, offset: 88028},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2936, col: 12, offset: 93009},
+																pos: position{line: 2938, col: 12, offset: 93076},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2936, col: 13, offset: 93010},
+																	pos: position{line: 2938, col: 13, offset: 93077},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2936, col: 13, offset: 93010},
+																			pos: position{line: 2938, col: 13, offset: 93077},
 																			expr: &litMatcher{
-																				pos:        position{line: 2936, col: 13, offset: 93010},
+																				pos:        position{line: 2938, col: 13, offset: 93077},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2936, col: 18, offset: 93015},
+																			pos: position{line: 2938, col: 18, offset: 93082},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2936, col: 18, offset: 93015},
+																				pos:        position{line: 2938, col: 18, offset: 93082},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -48860,10 +49024,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2768, col: 24, offset: 87972},
+																pos: position{line: 2770, col: 24, offset: 88039},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2768, col: 24, offset: 87972},
+																	pos:        position{line: 2770, col: 24, offset: 88039},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -48874,15 +49038,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2769, col: 5, offset: 88014},
+												pos:   position{line: 2771, col: 5, offset: 88081},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2769, col: 11, offset: 88020},
+													pos: position{line: 2771, col: 11, offset: 88087},
 													expr: &actionExpr{
-														pos: position{line: 2769, col: 12, offset: 88021},
+														pos: position{line: 2771, col: 12, offset: 88088},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2769, col: 12, offset: 88021},
+															pos:        position{line: 2771, col: 12, offset: 88088},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -48892,12 +49056,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2771, col: 5, offset: 88151},
+												pos:   position{line: 2773, col: 5, offset: 88218},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2771, col: 11, offset: 88157},
+													pos: position{line: 2773, col: 11, offset: 88224},
 													expr: &litMatcher{
-														pos:        position{line: 2771, col: 12, offset: 88158},
+														pos:        position{line: 2773, col: 12, offset: 88225},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -48905,7 +49069,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2772, col: 5, offset: 88168},
+												pos: position{line: 2774, col: 5, offset: 88235},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -48914,9 +49078,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2963, col: 8, offset: 93530},
+							pos: position{line: 2965, col: 8, offset: 93597},
 							expr: &anyMatcher{
-								line: 2963, col: 9, offset: 93531,
+								line: 2965, col: 9, offset: 93598,
 							},
 						},
 					},
@@ -48925,23 +49089,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2799, col: 1, offset: 89177},
+			pos:  position{line: 2801, col: 1, offset: 89244},
 			expr: &actionExpr{
-				pos: position{line: 2800, col: 5, offset: 89200},
+				pos: position{line: 2802, col: 5, offset: 89267},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2800, col: 5, offset: 89200},
+					pos: position{line: 2802, col: 5, offset: 89267},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2800, col: 5, offset: 89200},
+							pos:   position{line: 2802, col: 5, offset: 89267},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2823, col: 18, offset: 89941},
+								pos: position{line: 2825, col: 18, offset: 90008},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2823, col: 19, offset: 89942},
+									pos: position{line: 2825, col: 19, offset: 90009},
 									expr: &charClassMatcher{
-										pos:        position{line: 2823, col: 19, offset: 89942},
+										pos:        position{line: 2825, col: 19, offset: 90009},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48952,25 +49116,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2801, col: 5, offset: 89226},
+							pos: position{line: 2803, col: 5, offset: 89293},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2805, col: 5, offset: 89354},
+							pos:        position{line: 2807, col: 5, offset: 89421},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2806, col: 5, offset: 89364},
+							pos:   position{line: 2808, col: 5, offset: 89431},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2827, col: 19, offset: 90017},
+								pos: position{line: 2829, col: 19, offset: 90084},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2827, col: 19, offset: 90017},
+									pos: position{line: 2829, col: 19, offset: 90084},
 									expr: &charClassMatcher{
-										pos:        position{line: 2827, col: 19, offset: 90017},
+										pos:        position{line: 2829, col: 19, offset: 90084},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48980,36 +49144,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2807, col: 5, offset: 89392},
+							pos:   position{line: 2809, col: 5, offset: 89459},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2807, col: 17, offset: 89404},
+								pos:  position{line: 2809, col: 17, offset: 89471},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2966, col: 8, offset: 93580},
+							pos: position{line: 2968, col: 8, offset: 93647},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2953, col: 12, offset: 93353},
+									pos: position{line: 2955, col: 12, offset: 93420},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2953, col: 13, offset: 93354},
+										pos: position{line: 2955, col: 13, offset: 93421},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2953, col: 13, offset: 93354},
+												pos:        position{line: 2955, col: 13, offset: 93421},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 20, offset: 93361},
+												pos:        position{line: 2955, col: 20, offset: 93428},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2953, col: 29, offset: 93370},
+												pos:        position{line: 2955, col: 29, offset: 93437},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -49018,9 +49182,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2963, col: 8, offset: 93530},
+									pos: position{line: 2965, col: 8, offset: 93597},
 									expr: &anyMatcher{
-										line: 2963, col: 9, offset: 93531,
+										line: 2965, col: 9, offset: 93598,
 									},
 								},
 							},
@@ -49031,23 +49195,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2811, col: 1, offset: 89552},
+			pos:  position{line: 2813, col: 1, offset: 89619},
 			expr: &actionExpr{
-				pos: position{line: 2812, col: 5, offset: 89576},
+				pos: position{line: 2814, col: 5, offset: 89643},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2812, col: 5, offset: 89576},
+					pos: position{line: 2814, col: 5, offset: 89643},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2812, col: 5, offset: 89576},
+							pos:   position{line: 2814, col: 5, offset: 89643},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2823, col: 18, offset: 89941},
+								pos: position{line: 2825, col: 18, offset: 90008},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2823, col: 19, offset: 89942},
+									pos: position{line: 2825, col: 19, offset: 90009},
 									expr: &charClassMatcher{
-										pos:        position{line: 2823, col: 19, offset: 89942},
+										pos:        position{line: 2825, col: 19, offset: 90009},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49058,25 +49222,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2813, col: 5, offset: 89602},
+							pos: position{line: 2815, col: 5, offset: 89669},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2817, col: 5, offset: 89730},
+							pos:        position{line: 2819, col: 5, offset: 89797},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2818, col: 5, offset: 89739},
+							pos:   position{line: 2820, col: 5, offset: 89806},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2827, col: 19, offset: 90017},
+								pos: position{line: 2829, col: 19, offset: 90084},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2827, col: 19, offset: 90017},
+									pos: position{line: 2829, col: 19, offset: 90084},
 									expr: &charClassMatcher{
-										pos:        position{line: 2827, col: 19, offset: 90017},
+										pos:        position{line: 2829, col: 19, offset: 90084},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -49086,10 +49250,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2819, col: 5, offset: 89767},
+							pos:   position{line: 2821, col: 5, offset: 89834},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2819, col: 17, offset: 89779},
+								pos:  position{line: 2821, col: 17, offset: 89846},
 								name: "InlineAttributes",
 							},
 						},
@@ -49099,43 +49263,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2898, col: 1, offset: 91829},
+			pos:  position{line: 2900, col: 1, offset: 91896},
 			expr: &actionExpr{
-				pos: position{line: 2898, col: 17, offset: 91845},
+				pos: position{line: 2900, col: 17, offset: 91912},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2898, col: 17, offset: 91845},
+					pos:   position{line: 2900, col: 17, offset: 91912},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2915, col: 5, offset: 92299},
+						pos: position{line: 2917, col: 5, offset: 92366},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2915, col: 5, offset: 92299},
+							pos:   position{line: 2917, col: 5, offset: 92366},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2915, col: 14, offset: 92308},
+								pos: position{line: 2917, col: 14, offset: 92375},
 								expr: &choiceExpr{
-									pos: position{line: 2916, col: 9, offset: 92318},
+									pos: position{line: 2918, col: 9, offset: 92385},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2916, col: 9, offset: 92318},
+											pos: position{line: 2918, col: 9, offset: 92385},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2916, col: 9, offset: 92318},
+												pos: position{line: 2918, col: 9, offset: 92385},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2916, col: 9, offset: 92318},
+														pos: position{line: 2918, col: 9, offset: 92385},
 														expr: &litMatcher{
-															pos:        position{line: 2916, col: 10, offset: 92319},
+															pos:        position{line: 2918, col: 10, offset: 92386},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2917, col: 9, offset: 92347},
+														pos: position{line: 2919, col: 9, offset: 92414},
 														expr: &charClassMatcher{
-															pos:        position{line: 2917, col: 10, offset: 92348},
+															pos:        position{line: 2919, col: 10, offset: 92415},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -49146,27 +49310,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2920, col: 11, offset: 92560},
+											pos: position{line: 2922, col: 11, offset: 92627},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2920, col: 11, offset: 92560},
+													pos:        position{line: 2922, col: 11, offset: 92627},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2920, col: 19, offset: 92568},
+													pos: position{line: 2922, col: 19, offset: 92635},
 													expr: &seqExpr{
-														pos: position{line: 2920, col: 21, offset: 92570},
+														pos: position{line: 2922, col: 21, offset: 92637},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2920, col: 21, offset: 92570},
+																pos: position{line: 2922, col: 21, offset: 92637},
 																expr: &actionExpr{
-																	pos: position{line: 2944, col: 10, offset: 93182},
+																	pos: position{line: 2946, col: 10, offset: 93249},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2944, col: 10, offset: 93182},
+																		pos:        position{line: 2946, col: 10, offset: 93249},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -49175,11 +49339,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2920, col: 28, offset: 92577},
+																pos: position{line: 2922, col: 28, offset: 92644},
 																expr: &notExpr{
-																	pos: position{line: 2963, col: 8, offset: 93530},
+																	pos: position{line: 2965, col: 8, offset: 93597},
 																	expr: &anyMatcher{
-																		line: 2963, col: 9, offset: 93531,
+																		line: 2965, col: 9, offset: 93598,
 																	},
 																},
 															},
@@ -49578,10 +49742,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2923, col: 11, offset: 92697},
+											pos: position{line: 2925, col: 11, offset: 92764},
 											run: (*parser).callonFileLocation101,
 											expr: &litMatcher{
-												pos:        position{line: 2923, col: 11, offset: 92697},
+												pos:        position{line: 2925, col: 11, offset: 92764},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -70443,7 +70607,7 @@ func (p *parser) callonCallout1() (interface{}, error) {
 }
 
 func (c *current) onShortcutParagraph9() (interface{}, error) {
-	// log.Debug("matched multiple spaces")
+
 	return string(c.text), nil
 
 }
@@ -70454,743 +70618,874 @@ func (p *parser) callonShortcutParagraph9() (interface{}, error) {
 	return p.cur.onShortcutParagraph9()
 }
 
-func (c *current) onShortcutParagraph16() (bool, error) {
-	return !c.isWithinLiteralParagraph(), nil
+func (c *current) onShortcutParagraph16() (interface{}, error) {
+
+	// `.` is 1, etc.
+	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonShortcutParagraph16() (bool, error) {
+func (p *parser) callonShortcutParagraph16() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
 	return p.cur.onShortcutParagraph16()
 }
 
-func (c *current) onShortcutParagraph19() (interface{}, error) {
+func (c *current) onShortcutParagraph19(depth interface{}) (bool, error) {
+
+	// use a predicate to make sure that only `.` to `.....` are allowed
+	return depth.(int) <= 5, nil
+
+}
+
+func (p *parser) callonShortcutParagraph19() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph19(stack["depth"])
+}
+
+func (c *current) onShortcutParagraph13(depth interface{}) (interface{}, error) {
+	switch depth.(int) {
+	case 1:
+		return types.NewOrderedListElementPrefix(types.Arabic)
+	case 2:
+		return types.NewOrderedListElementPrefix(types.LowerAlpha)
+	case 3:
+		return types.NewOrderedListElementPrefix(types.LowerRoman)
+	case 4:
+		return types.NewOrderedListElementPrefix(types.UpperAlpha)
+	default:
+		return types.NewOrderedListElementPrefix(types.UpperRoman)
+	}
+
+}
+
+func (p *parser) callonShortcutParagraph13() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph13(stack["depth"])
+}
+
+func (c *current) onShortcutParagraph20() (interface{}, error) {
+	// numbering style: "1.", etc.
+	return types.NewOrderedListElementPrefix(types.Arabic)
+
+}
+
+func (p *parser) callonShortcutParagraph20() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph20()
+}
+
+func (c *current) onShortcutParagraph25() (interface{}, error) {
+	// numbering style: "a.", etc.
+	return types.NewOrderedListElementPrefix(types.LowerAlpha)
+
+}
+
+func (p *parser) callonShortcutParagraph25() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph25()
+}
+
+func (c *current) onShortcutParagraph29() (interface{}, error) {
+	// numbering style: "A.", etc.
+	return types.NewOrderedListElementPrefix(types.UpperAlpha)
+
+}
+
+func (p *parser) callonShortcutParagraph29() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph29()
+}
+
+func (c *current) onShortcutParagraph33() (interface{}, error) {
+	// numbering style: "i)", etc.
+	return types.NewOrderedListElementPrefix(types.LowerRoman)
+
+}
+
+func (p *parser) callonShortcutParagraph33() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph33()
+}
+
+func (c *current) onShortcutParagraph38() (interface{}, error) {
+	// numbering style: "I)", etc.
+	return types.NewOrderedListElementPrefix(types.UpperRoman)
+
+}
+
+func (p *parser) callonShortcutParagraph38() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph38()
+}
+
+func (c *current) onShortcutParagraph43(prefix interface{}) (interface{}, error) {
+	// log.Debug("matched multiple spaces")
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonShortcutParagraph43() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph43(stack["prefix"])
+}
+
+func (c *current) onShortcutParagraph6(prefix interface{}) (interface{}, error) {
+	return prefix, nil
+}
+
+func (p *parser) callonShortcutParagraph6() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph6(stack["prefix"])
+}
+
+func (c *current) onShortcutParagraph50() (bool, error) {
+	return !c.isWithinLiteralParagraph(), nil
+
+}
+
+func (p *parser) callonShortcutParagraph50() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph50()
+}
+
+func (c *current) onShortcutParagraph53() (interface{}, error) {
 	return types.Tip, nil
 
 }
 
-func (p *parser) callonShortcutParagraph19() (interface{}, error) {
+func (p *parser) callonShortcutParagraph53() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph19()
+	return p.cur.onShortcutParagraph53()
 }
 
-func (c *current) onShortcutParagraph21() (interface{}, error) {
+func (c *current) onShortcutParagraph55() (interface{}, error) {
 	return types.Note, nil
 
 }
 
-func (p *parser) callonShortcutParagraph21() (interface{}, error) {
+func (p *parser) callonShortcutParagraph55() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph21()
+	return p.cur.onShortcutParagraph55()
 }
 
-func (c *current) onShortcutParagraph23() (interface{}, error) {
+func (c *current) onShortcutParagraph57() (interface{}, error) {
 	return types.Important, nil
 
 }
 
-func (p *parser) callonShortcutParagraph23() (interface{}, error) {
+func (p *parser) callonShortcutParagraph57() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph23()
+	return p.cur.onShortcutParagraph57()
 }
 
-func (c *current) onShortcutParagraph25() (interface{}, error) {
+func (c *current) onShortcutParagraph59() (interface{}, error) {
 	return types.Warning, nil
 
 }
 
-func (p *parser) callonShortcutParagraph25() (interface{}, error) {
+func (p *parser) callonShortcutParagraph59() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph25()
+	return p.cur.onShortcutParagraph59()
 }
 
-func (c *current) onShortcutParagraph27() (interface{}, error) {
+func (c *current) onShortcutParagraph61() (interface{}, error) {
 	return types.Caution, nil
 
 }
 
-func (p *parser) callonShortcutParagraph27() (interface{}, error) {
+func (p *parser) callonShortcutParagraph61() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph27()
+	return p.cur.onShortcutParagraph61()
 }
 
-func (c *current) onShortcutParagraph31() (interface{}, error) {
+func (c *current) onShortcutParagraph65() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph31() (interface{}, error) {
+func (p *parser) callonShortcutParagraph65() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph31()
+	return p.cur.onShortcutParagraph65()
 }
 
-func (c *current) onShortcutParagraph29() (interface{}, error) {
+func (c *current) onShortcutParagraph63() (interface{}, error) {
 	// check
 	return types.LiteralParagraph, nil
 
 }
 
-func (p *parser) callonShortcutParagraph29() (interface{}, error) {
+func (p *parser) callonShortcutParagraph63() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph29()
+	return p.cur.onShortcutParagraph63()
 }
 
-func (c *current) onShortcutParagraph14(style interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph48(style interface{}) (interface{}, error) {
 	return style, nil
 
 }
 
-func (p *parser) callonShortcutParagraph14() (interface{}, error) {
+func (p *parser) callonShortcutParagraph48() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph14(stack["style"])
+	return p.cur.onShortcutParagraph48(stack["style"])
 }
 
-func (c *current) onShortcutParagraph38() (interface{}, error) {
+func (c *current) onShortcutParagraph72() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph38() (interface{}, error) {
+func (p *parser) callonShortcutParagraph72() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph38()
+	return p.cur.onShortcutParagraph72()
 }
 
-func (c *current) onShortcutParagraph41(content interface{}) (bool, error) {
+func (c *current) onShortcutParagraph75(content interface{}) (bool, error) {
 	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
 
 }
 
-func (p *parser) callonShortcutParagraph41() (bool, error) {
+func (p *parser) callonShortcutParagraph75() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph41(stack["content"])
+	return p.cur.onShortcutParagraph75(stack["content"])
 }
 
-func (c *current) onShortcutParagraph43() (interface{}, error) {
+func (c *current) onShortcutParagraph77() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph43() (interface{}, error) {
+func (p *parser) callonShortcutParagraph77() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph43()
+	return p.cur.onShortcutParagraph77()
 }
 
-func (c *current) onShortcutParagraph35(content interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph69(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonShortcutParagraph35() (interface{}, error) {
+func (p *parser) callonShortcutParagraph69() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph35(stack["content"])
+	return p.cur.onShortcutParagraph69(stack["content"])
 }
 
-func (c *current) onShortcutParagraph50(style, firstLine interface{}) (bool, error) {
+func (c *current) onShortcutParagraph84(style, firstLine interface{}) (bool, error) {
 	// also, make sure that there is no LabeledListElement delimiter (`::` - `::::`)
 	//   in the middle of the line (with space afterwards)
 	//   or at the end of the line
 	return !firstLine.(*types.RawLine).Contains(":: ") &&
+		!firstLine.(*types.RawLine).Contains("::\t") &&
 		!firstLine.(*types.RawLine).HasSuffix("::"), nil
 
 }
 
-func (p *parser) callonShortcutParagraph50() (bool, error) {
+func (p *parser) callonShortcutParagraph84() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph50(stack["style"], stack["firstLine"])
+	return p.cur.onShortcutParagraph84(stack["style"], stack["firstLine"])
 }
 
-func (c *current) onShortcutParagraph63() (interface{}, error) {
+func (c *current) onShortcutParagraph97() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph63() (interface{}, error) {
+func (p *parser) callonShortcutParagraph97() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph63()
+	return p.cur.onShortcutParagraph97()
 }
 
-func (c *current) onShortcutParagraph66() (interface{}, error) {
+func (c *current) onShortcutParagraph100() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph66() (interface{}, error) {
+func (p *parser) callonShortcutParagraph100() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph66()
+	return p.cur.onShortcutParagraph100()
 }
 
-func (c *current) onShortcutParagraph58() (interface{}, error) {
+func (c *current) onShortcutParagraph92() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonShortcutParagraph58() (interface{}, error) {
+func (p *parser) callonShortcutParagraph92() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph58()
+	return p.cur.onShortcutParagraph92()
 }
 
-func (c *current) onShortcutParagraph85() (interface{}, error) {
+func (c *current) onShortcutParagraph119() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph85() (interface{}, error) {
+func (p *parser) callonShortcutParagraph119() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph85()
+	return p.cur.onShortcutParagraph119()
 }
 
-func (c *current) onShortcutParagraph91() (interface{}, error) {
+func (c *current) onShortcutParagraph125() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph91() (interface{}, error) {
+func (p *parser) callonShortcutParagraph125() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph91()
+	return p.cur.onShortcutParagraph125()
 }
 
-func (c *current) onShortcutParagraph94() (interface{}, error) {
+func (c *current) onShortcutParagraph128() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph94() (interface{}, error) {
+func (p *parser) callonShortcutParagraph128() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph94()
+	return p.cur.onShortcutParagraph128()
 }
 
-func (c *current) onShortcutParagraph82(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph116(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph82() (interface{}, error) {
+func (p *parser) callonShortcutParagraph116() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph82(stack["delimiter"])
+	return p.cur.onShortcutParagraph116(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph104() (interface{}, error) {
+func (c *current) onShortcutParagraph138() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph104() (interface{}, error) {
+func (p *parser) callonShortcutParagraph138() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph104()
+	return p.cur.onShortcutParagraph138()
 }
 
-func (c *current) onShortcutParagraph110() (interface{}, error) {
+func (c *current) onShortcutParagraph144() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph110() (interface{}, error) {
+func (p *parser) callonShortcutParagraph144() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph110()
+	return p.cur.onShortcutParagraph144()
 }
 
-func (c *current) onShortcutParagraph113() (interface{}, error) {
+func (c *current) onShortcutParagraph147() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph113() (interface{}, error) {
+func (p *parser) callonShortcutParagraph147() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph113()
+	return p.cur.onShortcutParagraph147()
 }
 
-func (c *current) onShortcutParagraph101(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph135(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph101() (interface{}, error) {
+func (p *parser) callonShortcutParagraph135() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph101(stack["delimiter"])
+	return p.cur.onShortcutParagraph135(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph124() (interface{}, error) {
+func (c *current) onShortcutParagraph158() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph124() (interface{}, error) {
+func (p *parser) callonShortcutParagraph158() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph124()
+	return p.cur.onShortcutParagraph158()
 }
 
-func (c *current) onShortcutParagraph128() (interface{}, error) {
+func (c *current) onShortcutParagraph162() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph128() (interface{}, error) {
+func (p *parser) callonShortcutParagraph162() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph128()
+	return p.cur.onShortcutParagraph162()
 }
 
-func (c *current) onShortcutParagraph131() (interface{}, error) {
+func (c *current) onShortcutParagraph165() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph131() (interface{}, error) {
+func (p *parser) callonShortcutParagraph165() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph131()
+	return p.cur.onShortcutParagraph165()
 }
 
-func (c *current) onShortcutParagraph120(language interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph154(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonShortcutParagraph120() (interface{}, error) {
+func (p *parser) callonShortcutParagraph154() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph120(stack["language"])
+	return p.cur.onShortcutParagraph154(stack["language"])
 }
 
-func (c *current) onShortcutParagraph141() (interface{}, error) {
+func (c *current) onShortcutParagraph175() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph141() (interface{}, error) {
+func (p *parser) callonShortcutParagraph175() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph141()
+	return p.cur.onShortcutParagraph175()
 }
 
-func (c *current) onShortcutParagraph147() (interface{}, error) {
+func (c *current) onShortcutParagraph181() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph147() (interface{}, error) {
+func (p *parser) callonShortcutParagraph181() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph147()
+	return p.cur.onShortcutParagraph181()
 }
 
-func (c *current) onShortcutParagraph150() (interface{}, error) {
+func (c *current) onShortcutParagraph184() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph150() (interface{}, error) {
+func (p *parser) callonShortcutParagraph184() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph150()
+	return p.cur.onShortcutParagraph184()
 }
 
-func (c *current) onShortcutParagraph138(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph172(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph138() (interface{}, error) {
+func (p *parser) callonShortcutParagraph172() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph138(stack["delimiter"])
+	return p.cur.onShortcutParagraph172(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph160() (interface{}, error) {
+func (c *current) onShortcutParagraph194() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph160() (interface{}, error) {
+func (p *parser) callonShortcutParagraph194() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph160()
+	return p.cur.onShortcutParagraph194()
 }
 
-func (c *current) onShortcutParagraph166() (interface{}, error) {
+func (c *current) onShortcutParagraph200() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph166() (interface{}, error) {
+func (p *parser) callonShortcutParagraph200() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph166()
+	return p.cur.onShortcutParagraph200()
 }
 
-func (c *current) onShortcutParagraph169() (interface{}, error) {
+func (c *current) onShortcutParagraph203() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph169() (interface{}, error) {
+func (p *parser) callonShortcutParagraph203() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph169()
+	return p.cur.onShortcutParagraph203()
 }
 
-func (c *current) onShortcutParagraph157(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph191(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph157() (interface{}, error) {
+func (p *parser) callonShortcutParagraph191() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph157(stack["delimiter"])
+	return p.cur.onShortcutParagraph191(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph179() (interface{}, error) {
+func (c *current) onShortcutParagraph213() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph179() (interface{}, error) {
+func (p *parser) callonShortcutParagraph213() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph179()
+	return p.cur.onShortcutParagraph213()
 }
 
-func (c *current) onShortcutParagraph185() (interface{}, error) {
+func (c *current) onShortcutParagraph219() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph185() (interface{}, error) {
+func (p *parser) callonShortcutParagraph219() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph185()
+	return p.cur.onShortcutParagraph219()
 }
 
-func (c *current) onShortcutParagraph188() (interface{}, error) {
+func (c *current) onShortcutParagraph222() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph188() (interface{}, error) {
+func (p *parser) callonShortcutParagraph222() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph188()
+	return p.cur.onShortcutParagraph222()
 }
 
-func (c *current) onShortcutParagraph176(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph210(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph176() (interface{}, error) {
+func (p *parser) callonShortcutParagraph210() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph176(stack["delimiter"])
+	return p.cur.onShortcutParagraph210(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph198() (interface{}, error) {
+func (c *current) onShortcutParagraph232() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph198() (interface{}, error) {
+func (p *parser) callonShortcutParagraph232() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph198()
+	return p.cur.onShortcutParagraph232()
 }
 
-func (c *current) onShortcutParagraph204() (interface{}, error) {
+func (c *current) onShortcutParagraph238() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph204() (interface{}, error) {
+func (p *parser) callonShortcutParagraph238() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph204()
+	return p.cur.onShortcutParagraph238()
 }
 
-func (c *current) onShortcutParagraph207() (interface{}, error) {
+func (c *current) onShortcutParagraph241() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph207() (interface{}, error) {
+func (p *parser) callonShortcutParagraph241() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph207()
+	return p.cur.onShortcutParagraph241()
 }
 
-func (c *current) onShortcutParagraph195(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph229(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph195() (interface{}, error) {
+func (p *parser) callonShortcutParagraph229() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph195(stack["delimiter"])
+	return p.cur.onShortcutParagraph229(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph217() (interface{}, error) {
+func (c *current) onShortcutParagraph251() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph217() (interface{}, error) {
+func (p *parser) callonShortcutParagraph251() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph217()
+	return p.cur.onShortcutParagraph251()
 }
 
-func (c *current) onShortcutParagraph223() (interface{}, error) {
+func (c *current) onShortcutParagraph257() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph223() (interface{}, error) {
+func (p *parser) callonShortcutParagraph257() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph223()
+	return p.cur.onShortcutParagraph257()
 }
 
-func (c *current) onShortcutParagraph226() (interface{}, error) {
+func (c *current) onShortcutParagraph260() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph226() (interface{}, error) {
+func (p *parser) callonShortcutParagraph260() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph226()
+	return p.cur.onShortcutParagraph260()
 }
 
-func (c *current) onShortcutParagraph214(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph248(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph214() (interface{}, error) {
+func (p *parser) callonShortcutParagraph248() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph214(stack["delimiter"])
+	return p.cur.onShortcutParagraph248(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph236() (interface{}, error) {
+func (c *current) onShortcutParagraph270() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph236() (interface{}, error) {
+func (p *parser) callonShortcutParagraph270() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph236()
+	return p.cur.onShortcutParagraph270()
 }
 
-func (c *current) onShortcutParagraph242() (interface{}, error) {
+func (c *current) onShortcutParagraph276() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph242() (interface{}, error) {
+func (p *parser) callonShortcutParagraph276() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph242()
+	return p.cur.onShortcutParagraph276()
 }
 
-func (c *current) onShortcutParagraph245() (interface{}, error) {
+func (c *current) onShortcutParagraph279() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph245() (interface{}, error) {
+func (p *parser) callonShortcutParagraph279() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph245()
+	return p.cur.onShortcutParagraph279()
 }
 
-func (c *current) onShortcutParagraph233(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph267(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph233() (interface{}, error) {
+func (p *parser) callonShortcutParagraph267() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph233(stack["delimiter"])
+	return p.cur.onShortcutParagraph267(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph76(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph110(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonShortcutParagraph76() (interface{}, error) {
+func (p *parser) callonShortcutParagraph110() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph76(stack["delimiter"])
+	return p.cur.onShortcutParagraph110(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph256() (interface{}, error) {
+func (c *current) onShortcutParagraph290() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph256() (interface{}, error) {
+func (p *parser) callonShortcutParagraph290() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph256()
+	return p.cur.onShortcutParagraph290()
 }
 
-func (c *current) onShortcutParagraph258() (interface{}, error) {
+func (c *current) onShortcutParagraph292() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph258() (interface{}, error) {
+func (p *parser) callonShortcutParagraph292() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph258()
+	return p.cur.onShortcutParagraph292()
 }
 
-func (c *current) onShortcutParagraph271() (interface{}, error) {
+func (c *current) onShortcutParagraph305() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph271() (interface{}, error) {
+func (p *parser) callonShortcutParagraph305() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph271()
+	return p.cur.onShortcutParagraph305()
 }
 
-func (c *current) onShortcutParagraph275() (interface{}, error) {
+func (c *current) onShortcutParagraph309() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph275() (interface{}, error) {
+func (p *parser) callonShortcutParagraph309() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph275()
+	return p.cur.onShortcutParagraph309()
 }
 
-func (c *current) onShortcutParagraph265(content interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph299(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonShortcutParagraph265() (interface{}, error) {
+func (p *parser) callonShortcutParagraph299() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph265(stack["content"])
+	return p.cur.onShortcutParagraph299(stack["content"])
 }
 
-func (c *current) onShortcutParagraph285() (interface{}, error) {
+func (c *current) onShortcutParagraph319() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph285() (interface{}, error) {
+func (p *parser) callonShortcutParagraph319() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph285()
+	return p.cur.onShortcutParagraph319()
 }
 
-func (c *current) onShortcutParagraph288(content interface{}) (bool, error) {
+func (c *current) onShortcutParagraph322(content interface{}) (bool, error) {
 	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
 
 }
 
-func (p *parser) callonShortcutParagraph288() (bool, error) {
+func (p *parser) callonShortcutParagraph322() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph288(stack["content"])
+	return p.cur.onShortcutParagraph322(stack["content"])
 }
 
-func (c *current) onShortcutParagraph290() (interface{}, error) {
+func (c *current) onShortcutParagraph324() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph290() (interface{}, error) {
+func (p *parser) callonShortcutParagraph324() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph290()
+	return p.cur.onShortcutParagraph324()
 }
 
-func (c *current) onShortcutParagraph282(content interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph316(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonShortcutParagraph282() (interface{}, error) {
+func (p *parser) callonShortcutParagraph316() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph282(stack["content"])
+	return p.cur.onShortcutParagraph316(stack["content"])
 }
 
-func (c *current) onShortcutParagraph53(line interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph87(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonShortcutParagraph53() (interface{}, error) {
+func (p *parser) callonShortcutParagraph87() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph53(stack["line"])
+	return p.cur.onShortcutParagraph87(stack["line"])
 }
 
 func (c *current) onShortcutParagraph1(style, firstLine, otherLines interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 5822a33..e4cc810 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1775,7 +1775,8 @@ ParagraphStyle <-
 
 ShortcutParagraph <- 
     // TODO: also allow quoted text delimiters?
-    &(Alphanum !(("." / ")") Spaces)) // make sure that the line starts with an alphanum and it's not an ordered list element prefix (eg: `1. ` or `a) `)
+    &Alphanum
+    !OrderedListElementPrefix // make sure that the line starts with an alphanum and it's not an ordered list element prefix (eg: `1. ` or `a) `)
     style:(ParagraphStyle)?
     firstLine:(ParagraphRawLine) 
     &{
@@ -1783,6 +1784,7 @@ ShortcutParagraph <-
         //   in the middle of the line (with space afterwards)
         //   or at the end of the line 
         return !firstLine.(*types.RawLine).Contains(":: ") && 
+            !firstLine.(*types.RawLine).Contains("::\t") && 
             !firstLine.(*types.RawLine).HasSuffix("::"), nil
     }
     otherLines:(
-- 
2.43.0


From 92f78a001c45b61b149758f2b9cd41629384f780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:32 +0000
Subject: [PATCH 71/75] fix: show the title of an image block with special
 content in cross references

---
 pkg/types/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index ff75eaf..de61bf1 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2113,8 +2113,8 @@ var _ Referencable = &ImageBlock{}
 
 func (i *ImageBlock) Reference(refs ElementReferences) {
 	id := i.Attributes.GetAsStringWithDefault(AttrID, "")
-	title := i.Attributes.GetAsStringWithDefault(AttrTitle, "")
-	if id != "" && title != "" {
+	title := i.Attributes[AttrTitle]
+	if id != "" && title != nil && title != "" {
 		refs.add(id, title)
 	}
 }
-- 
2.43.0


From 4c9bbb5011ae3ca92d5cc5511ce789fcfbdcdc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:15 +0000
Subject: [PATCH 72/75] fix: read lines of any length

---
 pkg/parser/document_preprocessing.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 87ea0ad..207dd4a 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"strconv"
@@ -30,7 +31,7 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 		enabled: true,
 	}
 	c := conditions{}
-	scanner := bufio.NewScanner(source)
+	scanner := newLineScanner(source)
 	t := newBlockDelimiterTracker()
 	for scanner.Scan() {
 		line := scanner.Bytes()
@@ -246,7 +247,7 @@ func contentOf(ctx *ParseContext, incl *types.FileInclusion) (string, bool, erro
 		return "", false, errors.Wrapf(err, "Unresolved directive in %s - %s", ctx.filename, incl.RawText)
 	}
 	result := &strings.Builder{}
-	scanner := bufio.NewScanner(bufio.NewReader(f))
+	scanner := newLineScanner(bufio.NewReader(f))
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("reading %s", filename)
 	}
@@ -376,6 +377,13 @@ func tagRanges(incl *types.FileInclusion) (types.TagRanges, bool, error) {
 	return types.TagRanges{}, false, nil
 }
 
+// newLineScanner returns a scanner for the lines of the given source, whatever their length
+func newLineScanner(source io.Reader) *bufio.Scanner {
+	scanner := bufio.NewScanner(source)
+	scanner.Buffer(nil, math.MaxInt)
+	return scanner
+}
+
 // TODO: instead of reading and parsing afterwards, simply parse the lines immediately? ie: `readWithinLines` -> `parseWithinLines`
 // (also, use a specific entrypoint if the doc is not a .adoc)
 func readWithinLines(scanner *bufio.Scanner, content *strings.Builder, lineRanges types.LineRanges) error {
-- 
2.43.0


From 9cd7c7a4285440fe65c27b8db90efddaf0221c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:14 +0000
Subject: [PATCH 73/75] fix: keep references to unknown attributes in the
 quoted text of links

---
 .../document_processing_apply_substitutions.go   | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 5e53b14..121d870 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -304,6 +304,20 @@ func reparseAttributes(ctx *ParseContext, element types.WithAttributes, opts ...
 	return nil
 }
 
+// keepAttributeRefs replaces the remaining references to attributes (ie, those which are unknown) with their source
+func keepAttributeRefs(elements []interface{}) {
+	for i, e := range elements {
+		switch e := e.(type) {
+		case *types.AttributeReference:
+			elements[i] = &types.StringElement{
+				Content: "{" + e.Name + "}",
+			}
+		case types.WithElements:
+			keepAttributeRefs(e.GetElements())
+		}
+	}
+}
+
 func reparseInlineAttributes(ctx *ParseContext, element types.WithAttributes, subs *substitutions, opts ...Option) error {
 	// in some specific cases, we need to reparse values to support links and quoted texts
 	attrs := element.GetAttributes()
@@ -314,6 +328,7 @@ func reparseInlineAttributes(ctx *ParseContext, element types.WithAttributes, su
 			if err != nil {
 				return err
 			}
+			keepAttributeRefs(v)
 			attrs[k] = types.Reduce(v)
 		case types.AttrInlineLinkText:
 			// same as above, but do not allow for inline macros (eg: links)
@@ -327,6 +342,7 @@ func reparseInlineAttributes(ctx *ParseContext, element types.WithAttributes, su
 			if err != nil {
 				return err
 			}
+			keepAttributeRefs(v)
 			attrs[k] = types.Reduce(v)
 		default:
 			attrs[k] = v
-- 
2.43.0


From c065978451973d6946602fb8ad697a3e12c814b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:11 +0000
Subject: [PATCH 74/75] fix: render quote blocks with an inapplicable style

---
 pkg/types/types.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index de61bf1..00a6f34 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2457,9 +2457,9 @@ func (b *DelimitedBlock) mapAttributes() {
 			AttrPositional2: AttrQuoteAuthor,
 			AttrPositional3: AttrQuoteTitle,
 		})
-		// override the `kind` with `style` attribute (if exists)
-		if style, exists := b.Attributes[AttrStyle].(string); exists {
-			b.Kind = style
+		// override the `kind` with `style` attribute (no other style applies to such a block)
+		if b.Attributes[AttrStyle] == Verse {
+			b.Kind = Verse
 		}
 	case Example:
 		b.Attributes = toAttributesWithMapping(b.Attributes, map[string]string{
-- 
2.43.0


From 0af6aa0da77b2ad910def41044c8594284d2622d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:35 +0000
Subject: [PATCH 75/75] fix: render labeled lists with an unknown style

---
 pkg/renderer/sgml/list.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/list.go b/pkg/renderer/sgml/list.go
index 865d667..f280f79 100644
--- a/pkg/renderer/sgml/list.go
+++ b/pkg/renderer/sgml/list.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/bytesparadise/libasciidoc/pkg/types"
 	"github.com/pkg/errors"
+	log "github.com/sirupsen/logrus"
 )
 
 func (r *sgmlRenderer) renderList(ctx *context, l *types.List) (string, error) {
@@ -266,7 +267,7 @@ func (r *sgmlRenderer) getLabeledListTmpl(l *types.List) (*texttemplate.Template
 			}
 			return listTmpl, listElementTmpl, nil
 		default:
-			return nil, nil, errors.Errorf("unsupported labeled list layout: %s", layout)
+			log.Warnf("unsupported labeled list layout: %s", layout)
 		}
 	}
 	listTmpl, err := r.labeledList()
-- 
2.43.0

